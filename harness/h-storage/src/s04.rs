//! S04: history received from a peer is installed only if it is the certified history.

use crate::s03::stop_point;
use crate::world::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use std::pin::Pin;
use std::task::{Context, Poll};
use std::time::Duration;
use tn_storage::archive::pack::{Pack, PackCompression};
use tn_storage::consensus::ConsensusChain;
use tn_storage::consensus_pack::{bytes_to_verified_output, ConsensusPack, PackRecord};
use tn_storage::pack_validate::{validate_pack_file, BatchClass, PackIssue, Verdict};
use tn_types::*;
use tokio::io::{AsyncRead, AsyncReadExt, ReadBuf};
use vcore::{ensure, ensure_eq, Budget, Check, Scratch, G, R};
use vfs::{Op, Recorder};
use vgen::*;

pub const RULE: &str = "a history of at least two outputs, or an altered stream whose description of the epoch was accepted; for validation, a history with batches; for stops, one between the first and the last operation of the import";

const T: Duration = Duration::from_secs(20);

fn s<T: std::fmt::Display>(what: &str) -> impl Fn(T) -> String + '_ {
    move |x| format!("{what}: {x}")
}

// ---- the records of a stream, with every part open to change ----

#[derive(Serialize, Deserialize, Clone)]
struct Auth {
    protocol_key: BlsPublicKey,
    execution_address: Address,
}

#[derive(Serialize, Deserialize, Clone)]
struct Members {
    authorities: BTreeMap<BlsPublicKey, Auth>,
    epoch: Epoch,
    bootstrap_servers: BTreeMap<BlsPublicKey, BootstrapServer>,
}

#[derive(Serialize, Deserialize, Clone)]
struct Meta {
    epoch: Epoch,
    committee: Members,
    start: u64,
    state: BlockNumHash,
    consensus: ConsensusNumHash,
}

#[derive(Serialize, Deserialize, Clone)]
struct Dag {
    headers: Vec<Header>,
    scores: ReputationScores,
    timestamp: TimestampSec,
    randomness: B256,
}

#[derive(Serialize, Deserialize, Clone)]
struct Hdr {
    parent: ConsensusHeaderDigest,
    dag: Dag,
    number: u64,
    extra: B256,
}

#[derive(Serialize, Deserialize, Clone)]
enum Rec {
    Meta(Meta),
    Batch(Batch),
    Consensus(Hdr),
}

impl std::fmt::Debug for Rec {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Rec::Meta(m) => write!(f, "epoch {}", m.epoch),
            Rec::Batch(b) => write!(f, "batch {:.6}", b.digest().to_string()),
            Rec::Consensus(h) => write!(f, "header {}", h.number),
        }
    }
}

impl Hdr {
    fn of(h: &ConsensusHeader) -> Self {
        decode(&encode(h))
    }
    /// (one without headers is none)
    fn real(&self) -> Option<ConsensusHeader> {
        (!self.dag.headers.is_empty()).then(|| decode(&encode(self)))
    }
    fn digest(&self) -> ConsensusHeaderDigest {
        self.real().map(|h| h.digest()).unwrap_or_default()
    }
    fn referenced(&self) -> BTreeSet<BlockHash> {
        self.dag.headers.iter().flat_map(|h| h.payload().keys().copied()).collect()
    }
}

fn meta_of(ep: &Ep) -> Meta {
    Meta {
        epoch: ep.epoch(),
        committee: decode(&encode(&ep.com.committee)),
        start: ep.start(),
        state: ep.prev.final_state,
        consensus: ep.prev.final_consensus,
    }
}

/// What the format says about an epoch, written from its description: the epoch first, then every header with
/// its batches in the order of their digests (version 1), or the batches with their header (version 0).
fn records(ep: &Ep, version: u16) -> Vec<Rec> {
    records_of(ep, &ep.outputs, version)
}

fn records_of(ep: &Ep, outputs: &[ConsensusOutput], version: u16) -> Vec<Rec> {
    let mut out = vec![Rec::Meta(meta_of(ep))];
    for o in outputs {
        let h = Hdr::of(&o.consensus_header());
        let all: BTreeMap<BlockHash, Batch> = o.batches().iter().flat_map(|c| &c.batches).map(|b| (b.digest(), b.clone())).collect();
        let batches = all.into_values().map(Rec::Batch);
        if version == 0 {
            out.extend(batches);
            out.push(Rec::Consensus(h));
        } else {
            out.push(Rec::Consensus(h));
            out.extend(batches);
        }
    }
    out
}

/// The bytes of a stream with these records.
fn bytes(dir: &Path, recs: &[Rec], uid: Epoch, version: u16, comp: PackCompression) -> Result<Vec<u8>, String> {
    std::fs::create_dir_all(dir).map_err(s("dir"))?;
    let p = dir.join("made");
    let _ = std::fs::remove_file(&p);
    let mut pack: Pack<Rec> = Pack::open(&p, uid as u64, false, comp, version).map_err(s("make a stream"))?;
    for r in recs {
        pack.append(r).map_err(s("make a stream"))?;
    }
    pack.commit().map_err(s("make a stream"))?;
    drop(pack);
    std::fs::read(&p).map_err(s("make a stream"))
}

/// A stream that comes in pieces.
struct Pieces {
    data: Vec<u8>,
    pos: usize,
    sizes: Vec<usize>,
    i: usize,
    /// nothing more comes after this
    stall: bool,
}

impl Pieces {
    fn new(g: &mut G, data: Vec<u8>) -> Self {
        let sizes = match g.below(3) {
            0 => vec![usize::MAX],
            1 => (0..1 + g.usize(6)).map(|_| g.usize(9000)).collect(),
            _ => (0..1 + g.usize(6)).map(|_| g.usize(40)).collect(),
        };
        Self { data, pos: 0, sizes, i: 0, stall: false }
    }
}

impl AsyncRead for Pieces {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<std::io::Result<()>> {
        if self.pos == self.data.len() {
            return if self.stall { Poll::Pending } else { Poll::Ready(Ok(())) };
        }
        self.i += 1;
        let n = self.sizes[self.i % self.sizes.len()];
        if n == 0 && self.i % (self.sizes.len() + 1) != 0 {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        let n = n.max(1).min(buf.remaining()).min(self.data.len() - self.pos);
        let p = self.pos;
        buf.put_slice(&self.data[p..p + n]);
        self.pos += n;
        Poll::Ready(Ok(()))
    }
}

// ---- changes ----

/// Give every header from `i` on the digest of the one before as its parent.
fn relink(recs: &mut [Rec], i: usize) {
    let mut last: Option<ConsensusHeaderDigest> = None;
    for (k, r) in recs.iter_mut().enumerate() {
        if let Rec::Consensus(h) = r {
            if k > i {
                if let Some(l) = last {
                    h.parent = l;
                }
            }
            last = Some(h.digest());
        }
    }
}

fn rebuild_header(h: &Header, f: impl FnOnce(HeaderBuilder) -> HeaderBuilder) -> Header {
    let b = HeaderBuilder::default()
        .author(h.author().clone())
        .epoch(h.epoch())
        .round(h.round())
        .created_at(*h.created_at())
        .payload(h.payload().clone())
        .parents(h.parents().clone())
        .latest_execution_block(h.latest_execution_block());
    let b = match h.seed_signature() {
        Some(x) => b.seed_signature(*x),
        None => b,
    };
    f(b).build()
}

/// Where in the list a header of an output is, if there is one.
fn a_header(g: &mut G, recs: &[Rec]) -> Option<usize> {
    let all: Vec<usize> = (0..recs.len()).filter(|i| matches!(recs[*i], Rec::Consensus(_))).collect();
    (!all.is_empty()).then(|| all[g.usize(all.len())])
}

fn a_batch(g: &mut G, recs: &[Rec]) -> Option<usize> {
    let all: Vec<usize> = (0..recs.len()).filter(|i| matches!(recs[*i], Rec::Batch(_))).collect();
    (!all.is_empty()).then(|| all[g.usize(all.len())])
}

/// Change the records; returns what was done. `addresses` tells whether the addresses of members were changed.
fn alter(g: &mut G, recs: &mut Vec<Rec>, ep: &Ep, addresses: &mut bool) -> String {
    let n = recs.len();
    if n == 0 {
        return "nothing".into();
    }
    match g.below(22) {
        0 => {
            let i = g.usize(n);
            format!("{:?} left out", recs.remove(i))
        }
        1 => {
            let i = g.usize(n);
            let r = recs[i].clone();
            let j = g.usize(n + 1);
            recs.insert(j, r);
            format!("record {i} again at {j}")
        }
        2 if n > 1 => {
            let i = g.usize(n - 1);
            let j = if g.bool() { i + 1 } else { i + 1 + g.usize(n - 1 - i) };
            recs.swap(i, j);
            format!("{i} and {j} swapped")
        }
        3 => {
            // whole outputs from the end
            let hs: Vec<usize> = (0..n).filter(|i| matches!(recs[*i], Rec::Consensus(_))).collect();
            if hs.is_empty() {
                return "nothing".into();
            }
            let i = hs[g.usize(hs.len())];
            recs.truncate(i);
            format!("cut before {i} of {n}")
        }
        4 => {
            let Some(i) = a_batch(g, recs) else { return "nothing".into() };
            let Rec::Batch(b) = &mut recs[i] else { unreachable!() };
            match g.below(5) {
                0 => b.transactions.push(vec![7]),
                1 => b.base_fee_per_gas = b.base_fee_per_gas.wrapping_add(1),
                2 => b.worker_id = b.worker_id.wrapping_add(1),
                3 => b.epoch = b.epoch.wrapping_add(1),
                _ => b.beneficiary = address(g),
            }
            format!("batch {i} changed")
        }
        5 => {
            let i = 1 + g.usize(n);
            let b = any_batch(g);
            recs.insert(i.min(n), Rec::Batch(b));
            format!("another batch at {i}")
        }
        6 => {
            let Some(i) = a_header(g, recs) else { return "nothing".into() };
            let Rec::Consensus(h) = &mut recs[i] else { unreachable!() };
            h.number = match g.below(4) {
                0 => h.number + 1,
                1 => h.number.saturating_sub(1),
                2 => g.below(h.number + 1),
                _ => g.num(),
            };
            if g.bool() {
                relink(recs, i);
            }
            format!("number of {i} changed")
        }
        7 => {
            let Some(i) = a_header(g, recs) else { return "nothing".into() };
            let Rec::Consensus(h) = &mut recs[i] else { unreachable!() };
            h.parent = g.arr32().into();
            if g.bool() {
                relink(recs, i);
            }
            format!("parent of {i} changed")
        }
        8 => {
            let Some(i) = a_header(g, recs) else { return "nothing".into() };
            let Rec::Consensus(h) = &mut recs[i] else { unreachable!() };
            let what = match g.below(5) {
                0 => {
                    h.dag.timestamp = h.dag.timestamp.wrapping_add(1);
                    "timestamp"
                }
                1 => {
                    h.dag.randomness = g.arr32().into();
                    "randomness"
                }
                2 => {
                    h.dag.scores.final_of_schedule = !h.dag.scores.final_of_schedule;
                    "schedule"
                }
                3 => {
                    h.dag.scores.add_score(&ep.com.members[0].id(), 1);
                    "scores"
                }
                _ => {
                    h.extra = g.arr32().into();
                    "extra"
                }
            };
            if g.bool() {
                relink(recs, i);
            }
            format!("{what} of {i} changed")
        }
        9 => {
            let Some(i) = a_header(g, recs) else { return "nothing".into() };
            let Rec::Consensus(h) = &mut recs[i] else { unreachable!() };
            h.dag.headers.clear();
            let all = g.bool();
            if all {
                // nothing is left that it could have batches of
                let next = (i + 1..n).find(|k| !matches!(recs[*k], Rec::Batch(_))).unwrap_or(n);
                recs.drain(i + 1..next);
            }
            format!("no headers in {i} ({all})")
        }
        10 => {
            let Some(i) = a_header(g, recs) else { return "nothing".into() };
            let com = &ep.com;
            let out = com.outsider(g).id();
            let Rec::Consensus(h) = &mut recs[i] else { unreachable!() };
            if h.dag.headers.is_empty() {
                return "nothing".into();
            }
            let k = g.usize(h.dag.headers.len());
            let what = g.below(6);
            if what < 4 {
                h.dag.headers[k] = rebuild_header(&h.dag.headers[k], |b| match what {
                    0 => b.author(out),
                    1 => b.round(ep.outputs.len() as u32 * 4 + 3),
                    2 => b.epoch(ep.epoch().wrapping_add(1)),
                    _ => b.payload(Default::default()),
                });
            } else if what == 4 {
                let x = h.dag.headers[k].clone();
                h.dag.headers.insert(0, x);
            } else {
                h.dag.headers.reverse();
            }
            if g.bool() {
                relink(recs, i);
            }
            format!("headers of {i} changed ({what})")
        }
        11 => {
            // another history from some output on
            let hs: Vec<usize> = (0..n).filter(|i| matches!(recs[*i], Rec::Consensus(_))).collect();
            if hs.is_empty() {
                return "nothing".into();
            }
            let k = g.usize(hs.len());
            let m = ep.outputs.len();
            let other = outputs(g, &ep.com, &ep.prev, m, 60);
            let mut or = records_of(ep, &other, 1);
            let os: Vec<usize> = (0..or.len()).filter(|i| matches!(or[*i], Rec::Consensus(_))).collect();
            if k >= os.len() {
                return "nothing".into();
            }
            let keep_last = g.bool() && k + 1 < os.len();
            recs.truncate(hs[k]);
            recs.extend(or.drain(os[k]..));
            if g.bool() {
                relink(recs, hs[k].saturating_sub(1));
            }
            if keep_last {
                // ending in the certified header all the same
                let last = records(ep, 1);
                let l = (0..last.len()).rev().find(|i| matches!(last[*i], Rec::Consensus(_))).expect("header");
                let e = (0..recs.len()).rev().find(|i| matches!(recs[*i], Rec::Consensus(_))).expect("header");
                recs.truncate(e);
                recs.extend(last[l..].iter().cloned());
            }
            format!("another history from output {k} (its end {keep_last})")
        }
        12 => {
            // beyond the end
            let Some(Rec::Consensus(l)) = recs.iter().rev().find(|r| matches!(r, Rec::Consensus(_))).cloned() else {
                return "nothing".into();
            };
            let mut h = l.clone();
            h.parent = l.digest();
            h.number = if g.bool() { l.number + 1 } else { l.number.saturating_sub(g.below(3)) };
            if g.bool() {
                for x in h.dag.headers.iter_mut() {
                    *x = rebuild_header(x, |b| b.payload(Default::default()));
                }
            }
            let n = h.number;
            recs.push(Rec::Consensus(h));
            format!("number {n} after the end, {}", l.number)
        }
        13..=18 => {
            let Some(Rec::Meta(m)) = recs.first_mut() else { return "nothing".into() };
            let m_left = m.committee.authorities.len();
            match if m_left == 0 { g.below(5) } else { g.below(13) } {
                0 => {
                    m.epoch = if g.bool() { m.epoch.wrapping_add(1) } else { g.num32() };
                    "epoch of the description".into()
                }
                1 => {
                    m.start = if g.bool() { m.start + 1 } else { m.start.saturating_sub(1) };
                    "start number".into()
                }
                2 => {
                    m.state = num_hash(g);
                    "state".into()
                }
                3 => {
                    m.consensus.number = m.consensus.number.wrapping_add(1);
                    "number before".into()
                }
                4 => {
                    m.consensus.hash = g.arr32().into();
                    "hash before".into()
                }
                5 | 6 => {
                    let k = *g.pick(&m.committee.authorities.keys().copied().collect::<Vec<_>>());
                    m.committee.authorities.get_mut(&k).expect("member").execution_address = address(g);
                    *addresses = true;
                    "address of a member".into()
                }
                7 => {
                    let k = m.committee.authorities.keys().copied().collect::<Vec<_>>();
                    let (a, b) = (*g.pick(&k), *g.pick(&k));
                    let (x, y) = (m.committee.authorities[&a].execution_address, m.committee.authorities[&b].execution_address);
                    m.committee.authorities.get_mut(&a).expect("member").execution_address = y;
                    m.committee.authorities.get_mut(&b).expect("member").execution_address = x;
                    *addresses = true;
                    "addresses swapped".into()
                }
                8 => {
                    let k = ep.com.outsider(g).pk();
                    let a = address(g);
                    m.committee.authorities.insert(k, Auth { protocol_key: k, execution_address: a });
                    "a member more".into()
                }
                9 => {
                    let k = *g.pick(&m.committee.authorities.keys().copied().collect::<Vec<_>>());
                    m.committee.authorities.remove(&k);
                    "a member less".into()
                }
                10 => {
                    let keep = g.usize(2);
                    while m.committee.authorities.len() > keep {
                        m.committee.authorities.pop_first();
                    }
                    format!("{keep} members")
                }
                11 => {
                    // one member's key with another's entry, so that two entries are one
                    let k = m.committee.authorities.keys().copied().collect::<Vec<_>>();
                    let (a, b) = (*g.pick(&k), *g.pick(&k));
                    let x = m.committee.authorities[&b].clone();
                    m.committee.authorities.insert(a, x);
                    "an entry twice".into()
                }
                _ => {
                    m.committee.epoch = m.committee.epoch.wrapping_add(1);
                    "epoch of the committee".into()
                }
            }
        }
        19 => {
            let m = meta_of(ep);
            let i = 1 + g.usize(n);
            recs.insert(i.min(n), Rec::Meta(m));
            format!("a second description at {i}")
        }
        20 => {
            let i = g.usize(n);
            let r = recs.remove(i);
            let j = g.usize(recs.len() + 1);
            recs.insert(j, r);
            format!("{i} moved to {j}")
        }
        _ => {
            // batches under another header
            let (Some(i), Some(j)) = (a_batch(g, recs), a_header(g, recs)) else { return "nothing".into() };
            let r = recs.remove(i);
            let j = j.min(recs.len());
            recs.insert(j, r);
            format!("batch {i} moved to {j}")
        }
    }
}

/// Change the bytes of a stream.
fn damage(g: &mut G, data: &mut Vec<u8>) -> String {
    let n = data.len();
    match g.below(6) {
        0 | 1 => {
            let i = g.usize(n);
            data[i] ^= 1 << g.below(8);
            format!("bit at {i} of {n}")
        }
        2 => {
            let k = g.usize(n);
            data.truncate(k);
            format!("cut at {k} of {n}")
        }
        3 => {
            let extra = 1 + g.usize(40);
            let x = if g.bool() { vec![0; extra] } else { g.blob(extra) };
            data.extend(x);
            format!("{extra} bytes after the end")
        }
        4 => {
            let i = g.usize(n + 1);
            let extra = 1 + g.usize(8);
            let x = g.blob(extra);
            data.splice(i..i, x);
            format!("{extra} bytes at {i} of {n}")
        }
        _ => {
            let i = g.usize(n);
            let k = (i + 1 + g.usize(64)).min(n);
            data.drain(i..k);
            format!("bytes {i}..{k} of {n} lost")
        }
    }
}

// ---- nodes ----

fn open_chain(dir: &Path, eps: &[Ep]) -> Result<ConsensusChain, String> {
    std::fs::create_dir_all(dir).map_err(s("dir"))?;
    ConsensusChain::new(dir.to_path_buf(), eps[0].com.committee.clone()).map_err(s("open the chain"))
}

/// A node that built epochs, all complete but the last, which has `part` outputs.
async fn built(dir: &Path, eps: &[Ep], part: usize) -> Result<ConsensusChain, String> {
    let chain = open_chain(dir, eps)?;
    for (i, ep) in eps.iter().enumerate() {
        chain.new_epoch(ep.prev.clone(), ep.com.committee.clone()).await.map_err(s("new epoch"))?;
        let last = i + 1 == eps.len();
        for o in &ep.outputs[..if last { part } else { ep.outputs.len() }] {
            chain.save_consensus_output(o.clone()).await.map_err(s("save"))?;
        }
        if !last || part == ep.outputs.len() {
            chain.epochs().save_record(ep.rec.clone()).await.map_err(s("record"))?;
        }
    }
    chain.persist_current().await.map_err(s("persist"))?;
    Ok(chain)
}

async fn stream_of(sender: &ConsensusChain, e: Epoch) -> Result<Vec<u8>, String> {
    let mut st = sender.get_epoch_stream(e).await.map_err(s("the sender's stream"))?;
    let mut data = vec![];
    st.read_to_end(&mut data).await.map_err(s("the sender's stream"))?;
    Ok(data)
}

/// The epoch is installed, as the pack on disk and as the chain answers.
async fn installed(chain: &ConsensusChain, dir: &Path, ep: &Ep, what: &str) -> R {
    let pack = ConsensusPack::open_static(dir, ep.epoch()).map_err(|e| format!("{what}: installed pack: {e}"))?;
    check_pack(&pack, ep, ep.outputs.len(), what).await?;
    for o in &ep.outputs {
        let h = chain.consensus_header_by_digest(ep.epoch(), o.digest()).await.map_err(s(what))?;
        ensure!(h == Some(o.consensus_header()), "{what}: header {} by digest is {:?}", o.number(), h.map(|h| h.number));
    }
    let l = chain.latest_consensus_header_from_pack(ep.epoch()).await.map_err(s(what))?;
    ensure!(l == ep.outputs.last().map(|o| o.consensus_header()), "{what}: latest of the epoch is {:?}", l.map(|h| h.number));
    if chain.epochs().latest_record().await.map_or(0, |r| r.epoch as u64 + 1) >= ep.epoch() as u64 {
        for o in &ep.outputs {
            let got = chain.consensus_output_by_number(o.number()).await.map_err(s(what))?;
            let got = got.ok_or(format!("{what}: no output {}", o.number()))?;
            same(&got, o, &format!("{what}: output {}", o.number()))?;
        }
    }
    Ok(())
}

/// Only `k` outputs of the epoch are there.
async fn partly(chain: &ConsensusChain, ep: &Ep, k: usize, what: &str) -> R {
    for (i, o) in ep.outputs.iter().enumerate() {
        let h = chain.consensus_header_by_digest(ep.epoch(), o.digest()).await.map_err(s(what))?;
        ensure!(h == (i < k).then(|| o.consensus_header()), "{what}: header {} of {k} by digest is {:?}", o.number(), h.map(|h| h.number));
    }
    Ok(())
}

/// A receiver: it has the epochs before `t`, and may be building `t`.
struct Receiver {
    chain: ConsensusChain,
    /// outputs of `t` built, if it is building it
    part: Option<usize>,
    how: &'static str,
}

async fn receiver(g: &mut G, dir: &Path, eps: &[Ep], t: usize, senders: &[Vec<u8>]) -> Result<Receiver, String> {
    match g.below(3) {
        0 => {
            // every earlier epoch was received too
            let chain = open_chain(dir, eps)?;
            for e in 0..t {
                chain.stream_import(&senders[e][..], &eps[e].rec, &eps[e].prev, T).await.map_err(s("an earlier epoch"))?;
                chain.epochs().save_record(eps[e].rec.clone()).await.map_err(s("record"))?;
            }
            Ok(Receiver { chain, part: (t == 0).then_some(0), how: "new" })
        }
        1 if t > 0 => {
            let n = eps[t - 1].outputs.len();
            Ok(Receiver { chain: built(dir, &eps[..t], n).await?, part: None, how: "before it" })
        }
        _ => {
            let part = g.usize(eps[t].outputs.len());
            let chain = built(dir, &eps[..=t], part).await?;
            Ok(Receiver { chain, part: Some(part), how: "building it" })
        }
    }
}

fn world(g: &mut G) -> (Vec<Ep>, usize) {
    let n = 1 + g.usize(3);
    let m = if g.chance(1, 10) { 20 } else { 5 };
    let eps = epochs(g, n, m);
    let t = g.usize(n);
    (eps, t)
}

fn made(sc: &Scratch, eps: &[Ep]) -> Result<Vec<Vec<u8>>, String> {
    eps.iter().map(|e| bytes(&sc.sub("make"), &records(e, 1), e.epoch(), 1, PackCompression::ZStd)).collect()
}

fn honest(g: &mut G) -> R {
    let sc = Scratch::new();
    let (eps, t) = world(g);
    let ep = &eps[t];
    let version = if g.chance(1, 4) { 0 } else { 1 };
    block_on(async {
        let streams = made(&sc, &eps)?;
        let all = eps.last().expect("epoch").outputs.len();
        let sender = built(&sc.sub("sender"), &eps, all).await?;
        let data = if version == 0 {
            bytes(&sc.sub("make"), &records(ep, 0), ep.epoch(), 0, if g.bool() { PackCompression::None } else { PackCompression::ZStd })?
        } else {
            let data = stream_of(&sender, ep.epoch()).await?;
            // what a node sends are the records of the history
            let p = sc.sub("sent");
            std::fs::create_dir_all(&p).map_err(s("dir"))?;
            std::fs::write(p.join("data"), &data).map_err(s("write"))?;
            let pack: Pack<PackRecord> = Pack::open(p.join("data"), ep.epoch() as u64, true, PackCompression::ZStd, 1).map_err(s("read what was sent"))?;
            let sent = pack.raw_iter().map_err(s("read what was sent"))?.map(|r| r.map(|r| encode(&r))).collect::<Result<Vec<_>, _>>().map_err(s("read what was sent"))?;
            let want: Vec<_> = records(ep, 1).iter().map(encode).collect();
            ensure_eq!(sent.len(), want.len(), "records sent");
            for (i, (a, b)) in sent.iter().zip(&want).enumerate() {
                ensure!(a == b, "record {i} sent differs");
            }
            data
        };
        let dir = sc.sub("receiver");
        let r = receiver(g, &dir, &eps, t, &streams).await?;
        g.nontrivial_if(ep.outputs.len() > 1);
        g.note(|| format!("{} epochs, epoch {t} with {} outputs, version {version}, receiver {} {:?}", eps.len(), ep.outputs.len(), r.how, r.part));
        let two = g.chance(1, 5);
        let (st, st2) = (Pieces::new(g, data.clone()), Pieces::new(g, data.clone()));
        if two {
            let (a, b) = tokio::join!(r.chain.stream_import(st, &ep.rec, &ep.prev, T), r.chain.stream_import(st2, &ep.rec, &ep.prev, T));
            a.and(b).map_err(s("an honest stream, twice"))?;
        } else {
            r.chain.stream_import(st, &ep.rec, &ep.prev, T).await.map_err(|e| format!("an honest stream is refused: {e}; receiver {} {:?}", r.how, r.part))?;
        }
        ensure!(!r.chain.already_streaming_epoch(ep.epoch()), "still streaming");
        for e in &eps[..=t] {
            installed(&r.chain, &dir, e, &format!("received, epoch {} of {t}", e.epoch())).await?;
        }
        // once installed, nothing else is read
        r.chain.stream_import(&b"nonsense"[..], &ep.rec, &ep.prev, T).await.map_err(s("an installed epoch"))?;
        installed(&r.chain, &dir, ep, "received again").await?;
        // it can be passed on
        r.chain.epochs().save_record(ep.rec.clone()).await.map_err(s("record"))?;
        let on = stream_of(&r.chain, ep.epoch()).await?;
        if version == 1 {
            ensure!(on == data, "passed on differently: {} bytes, {} received", on.len(), data.len());
        }
        drop(r);
        let chain = open_chain(&dir, &eps)?;
        for e in &eps[..=t] {
            installed(&chain, &dir, e, &format!("after a restart, epoch {} of {t}", e.epoch())).await?;
        }
        Ok(())
    })
}

fn altered(g: &mut G) -> R {
    let sc = Scratch::new();
    let (eps, t) = world(g);
    let ep = &eps[t];
    let mut addresses = false;
    let version = if g.chance(1, 6) { 0 } else { 1 };
    block_on(async {
        let streams = made(&sc, &eps)?;
        let mut what = vec![];
        let mut recs = records(ep, version);
        let (mut rec, mut prev) = (ep.rec.clone(), ep.prev.clone());
        let mut timeout = T;
        let mut uid = ep.epoch();
        let mut stall = false;
        let mut broken = false;
        let comp = if g.chance(1, 6) { PackCompression::None } else { PackCompression::ZStd };
        let kind = g.weighted(&[10, 4, 1, 1, 2]);
        match kind {
            0 => {
                for _ in 0..1 + g.usize(2) {
                    what.push(alter(g, &mut recs, ep, &mut addresses));
                }
            }
            2 => {
                uid = uid.wrapping_add(1);
                what.push("labelled as another epoch".into());
            }
            4 => {
                // an honest stream that the records of the epochs do not certify
                what.push(match g.below(5) {
                    0 => {
                        rec.final_consensus.hash = g.arr32().into();
                        "another final hash".into()
                    }
                    1 => {
                        rec.final_consensus.number = if g.bool() { rec.final_consensus.number + 1 } else { rec.final_consensus.number - 1 };
                        "another final number".into()
                    }
                    2 => {
                        prev.final_state = num_hash(g);
                        "another state before".into()
                    }
                    3 => {
                        prev.final_consensus.hash = g.arr32().into();
                        "another hash before".into()
                    }
                    _ => {
                        let k = ep.com.outsider(g).pk();
                        let i = g.usize(prev.next_committee.len());
                        prev.next_committee[i] = k;
                        "another committee".into()
                    }
                });
                broken = true;
            }
            _ => {}
        }
        let mut data = bytes(&sc.sub("make"), &recs, uid, version, comp)?;
        match kind {
            1 => what.push(damage(g, &mut data)),
            3 => {
                let k = g.usize(data.len());
                data.truncate(k);
                stall = true;
                timeout = Duration::from_millis(40);
                what.push(format!("stalls after {k}"));
            }
            _ => {}
        }
        let dir = sc.sub("receiver");
        let r = receiver(g, &dir, &eps, t, &streams).await?;
        let mut at = format!("{}; epoch {t} with {} outputs, version {version}, receiver {} {:?}", what.join(", "), ep.outputs.len(), r.how, r.part);
        let mut st = Pieces::new(g, data);
        st.stall = stall;
        let staging = g.chance(1, 6);
        let got = if staging {
            at += ", staged";
            r.chain.import_partial_to_staging(st, &rec, &prev, timeout).await
        } else {
            r.chain.stream_import(st, &rec, &prev, timeout).await
        };
        if let Err(e) = &got {
            at += &format!(" ({e})");
        }
        g.class(if got.is_ok() { "accepted" } else { "refused" });
        g.nontrivial_if(!recs.is_empty() && !(got.is_err() && at.contains("expected")));
        g.note(|| at.clone());
        ensure!(got.is_err() || !broken, "accepted although not certified; {at}");
        if got.is_ok() && !staging {
            // then it is the history
            let res = installed(&r.chain, &dir, ep, "accepted").await.map_err(|e| format!("{e}; {at}"));
            if let (true, Err(e)) = (addresses, &res) {
                // (with the addresses of the members taken from the stream)
                let pack = ConsensusPack::open_static(&dir, ep.epoch()).map_err(s("installed"))?;
                for o in &ep.outputs {
                    let g = pack.get_consensus_output(o.number()).await.map_err(|x| format!("{x}; {e}"))?;
                    ensure_eq!(g.digest(), o.digest(), "{e}");
                    ensure_eq!(g.flatten_batches(), o.flatten_batches(), "{e}");
                }
                return Err(format!("[[meta-address]] {e}"));
            }
            return res;
        }
        if got.is_ok() {
            ensure_eq!(r.chain.staging_final(), Some(rec.final_consensus.number), "staged; {at}");
            if !addresses {
                for o in &ep.outputs {
                    let h = r.chain.consensus_header_by_digest(ep.epoch(), o.digest()).await.map_err(s(&at))?;
                    ensure!(h == Some(o.consensus_header()), "header {} staged; {at}", o.number());
                    let x = r.chain.consensus_output_by_number(o.number()).await.map_err(s(&at))?;
                    same(&x.ok_or(format!("no output {} staged; {at}", o.number()))?, o, &at)?;
                }
            }
            r.chain.clear_staging();
        }
        // what was there is there, nothing else is, and the history itself is still taken
        ensure!(!r.chain.already_streaming_epoch(ep.epoch()), "still streaming; {at}");
        for e in &eps[..t] {
            installed(&r.chain, &dir, e, &format!("epoch {} after a refusal", e.epoch())).await.map_err(|e| format!("{e}; {at}"))?;
        }
        partly(&r.chain, ep, r.part.unwrap_or(0), "after a refusal").await.map_err(|e| format!("{e}; {at}"))?;
        let chain = if g.chance(1, 3) {
            drop(r);
            let chain = open_chain(&dir, &eps).map_err(|e| format!("{e}; {at}"))?;
            for e in &eps[..t] {
                installed(&chain, &dir, e, &format!("epoch {} after a restart", e.epoch())).await.map_err(|e| format!("{e}; {at}"))?;
            }
            chain
        } else {
            r.chain
        };
        let st = Pieces::new(g, streams[t].clone());
        chain.stream_import(st, &ep.rec, &ep.prev, T).await.map_err(|e| format!("then an honest stream: {e}; {at}"))?;
        installed(&chain, &dir, ep, "then received").await.map_err(|e| format!("{e}; {at}"))
    })
}

/// A part of the current epoch, put aside.
fn staged(g: &mut G) -> R {
    let sc = Scratch::new();
    let (eps, t) = world(g);
    let ep = &eps[t];
    block_on(async {
        let all = ep.outputs.len();
        let sender = built(&sc.sub("sender"), &eps[..=t], all).await?;
        let dir = sc.sub("receiver");
        let building = t == 0 || g.bool();
        let k = if building { g.usize(all) } else { eps[t - 1].outputs.len() };
        let chain = built(&dir, if building { &eps[..=t] } else { &eps[..t] }, k).await?;
        let have = if building { k } else { 0 };
        let mut staged = 0usize;
        let mut trace = vec![];
        for _ in 0..1 + g.usize(4) {
            let n = 1 + g.usize(all);
            let mut rec = ep.rec.clone();
            rec.final_consensus = ep.outputs[n - 1].num_hash();
            let (st, end) = sender.get_partial_epoch_stream(ep.epoch(), rec.final_consensus.number).await.map_err(s("partial stream"))?;
            let mut data = vec![];
            st.take(end).read_to_end(&mut data).await.map_err(s("partial stream"))?;
            ensure_eq!(data.len() as u64, end, "length of the partial stream");
            let other = n < all && g.chance(1, 6);
            if other {
                // certified is more than what comes
                rec.final_consensus = ep.outputs[n].num_hash();
            }
            let what = (!other && g.chance(1, 3)).then(|| damage(g, &mut data));
            trace.push(format!("{n} outputs {}{}", what.clone().unwrap_or_default(), if other { "short" } else { "" }));
            let got = chain.import_partial_to_staging(Pieces::new(g, data), &rec, &ep.prev, T).await;
            ensure!(!(other && got.is_ok()), "short, and staged; {trace:?}");
            if what.is_none() && !other {
                got.as_ref().map_err(|e| format!("a part of the epoch is refused: {e}; {trace:?}"))?;
            }
            if got.is_ok() {
                staged = n;
            }
            if g.chance(1, 6) {
                chain.clear_staging();
                trace.push("clear".into());
                staged = 0;
            }
            ensure_eq!(chain.staging_final(), (staged > 0).then(|| ep.outputs[staged.max(1) - 1].number()), "staged; {trace:?}");
            ensure_eq!(chain.staging_epoch(), (staged > 0).then_some(ep.epoch()), "staged; {trace:?}");
            for (i, o) in ep.outputs.iter().enumerate() {
                let there = i < have.max(staged);
                let h = chain.consensus_header_by_digest(ep.epoch(), o.digest()).await.map_err(s("by digest"))?;
                ensure!(h == there.then(|| o.consensus_header()), "header {} is {:?} with {have} and {staged} staged; {trace:?}", o.number(), h.map(|h| h.number));
                let x = chain.consensus_output_by_number(o.number()).await.ok().flatten();
                ensure!(x.is_some() == there, "output {} with {have} and {staged} staged; {trace:?}", o.number());
                if let Some(x) = x {
                    same(&x, o, "staged")?;
                    let h = chain.consensus_header_by_number(o.number()).await.map_err(s("by number"))?;
                    ensure!(h == Some(o.consensus_header()), "header {}; {trace:?}", o.number());
                    let b = chain.consensus_output_bytes_by_number(o.number()).await.map_err(s("bytes"))?.ok_or("no bytes")?;
                    if building || staged > 0 {
                        same(&chain.decode_consensus_output(ep.epoch(), b.clone()).await.map_err(s("decode"))?, o, "staged bytes")?;
                    }
                }
            }
        }
        g.nontrivial_if(all > 1 && trace.len() > 1);
        g.note(|| format!("{all} outputs, {have} built; {}", trace.join(", ")));
        let outs = have;
        if building {
            // the epoch goes on where it was
            for o in &ep.outputs[outs..] {
                chain.save_consensus_output(o.clone()).await.map_err(|e| format!("goes on: {e}; {trace:?}"))?;
            }
            chain.persist_current().await.map_err(s("persist"))?;
            chain.clear_staging();
            installed(&chain, &dir, ep, "built").await.map_err(|e| format!("{e}; {trace:?}"))?;
        }
        drop(chain);
        let chain = open_chain(&dir, &eps)?;
        ensure_eq!(chain.staging_final(), None, "staged after a restart");
        partly(&chain, ep, if building { all } else { 0 }, "after a restart").await.map_err(|e| format!("{e}; {trace:?}"))
    })
}

/// The node stops somewhere during an import.
fn install_stop(power: bool) -> impl Fn(&mut G) -> R + Sync {
    move |g| {
        let sc = Scratch::new();
        let (eps, t) = world(g);
        let ep = &eps[t];
        let dir = sc.sub("receiver");
        std::fs::create_dir_all(&dir).map_err(s("dir"))?;
        let streams = made(&sc, &eps)?;
        let rec = Recorder::start(&dir);
        let (part, how) = block_on(async {
            let r = receiver(g, &dir, &eps, t, &streams).await?;
            r.chain.persist_current().await.map_err(s("persist"))?;
            r.chain.epochs().persist().await.map_err(s("persist"))?;
            rec.mark(1);
            let st = Pieces::new(g, streams[t].clone());
            r.chain.stream_import(st, &ep.rec, &ep.prev, T).await.map_err(s("import"))?;
            rec.mark(2);
            let x = (r.part, r.how);
            drop(r);
            Ok::<_, String>(x)
        })?;
        let ops = rec.ops();
        drop(rec);
        let from = ops.iter().position(|o| matches!(o, Op::Mark(1))).expect("mark");
        let done = ops.iter().position(|o| matches!(o, Op::Mark(2))).expect("mark");
        let (k, torn) = if g.bool() {
            // the installation itself is short: the last operations
            let a = ops[..done].iter().rposition(|o| matches!(o, Op::Rename { .. })).unwrap_or(from);
            let a = a.saturating_sub(40).max(from);
            (a + g.usize(ops.len() - a + 1), None)
        } else {
            stop_point(g, &ops, from)
        };
        let d2 = sc.sub("stopped");
        std::fs::create_dir_all(&d2).map_err(s("dir"))?;
        if power {
            vfs::apply_power_cut(&ops[..k], |left| if g.bool() { left } else { g.usize(left + 1) }, &d2);
        } else {
            vfs::apply(&ops[..k], torn, &d2);
        }
        g.nontrivial_if(k > from + 1 && k < done);
        let at = format!(
            "stopped after {} of {} operations of the import ({:?}), epoch {t} with {} outputs, receiver {how} {part:?}",
            k - from,
            done - from,
            ops[..k].last().map(|o| o.brief()),
            ep.outputs.len()
        );
        g.note(|| at.clone());
        block_on(async {
            let chain = open_chain(&d2, &eps).map_err(|e| format!("{e}; {at}"))?;
            for e in &eps[..t] {
                installed(&chain, &d2, e, &format!("epoch {}", e.epoch())).await.map_err(|e| format!("{e}; {at}"))?;
            }
            ensure!(!chain.already_streaming_epoch(ep.epoch()), "said to be streaming; {at}");
            if k > done {
                installed(&chain, &d2, ep, "installed before the stop").await.map_err(|e| format!("{e}; {at}"))?;
            } else if let Some(n) = part {
                // what was built before is there
                for o in &ep.outputs[..n] {
                    let h = chain.consensus_header_by_digest(ep.epoch(), o.digest()).await.map_err(s(&at))?;
                    ensure!(h == Some(o.consensus_header()), "header {} built before is {:?}; {at}", o.number(), h.map(|h| h.number));
                }
            }
            let st = Pieces::new(g, streams[t].clone());
            chain.stream_import(st, &ep.rec, &ep.prev, T).await.map_err(|e| format!("again: {e}; {at}"))?;
            installed(&chain, &d2, ep, "received again").await.map_err(|e| format!("{e}; {at}"))?;
            drop(chain);
            let chain = open_chain(&d2, &eps).map_err(|e| format!("{e}, when complete; {at}"))?;
            installed(&chain, &d2, ep, "restarted").await.map_err(|e| format!("{e}; {at}"))
        })
    }
}

// ---- validation of a file ----

/// What is wrong with the records, by the rules of the format (none: nothing).
fn faults(recs: &[Rec], ep_no: Epoch, prev: Option<&EpochRecord>, version: u16) -> Result<Vec<String>, ()> {
    let mut out = vec![];
    let Some(Rec::Meta(m)) = recs.first() else { return Err(()) };
    if m.epoch != ep_no {
        out.push("epoch".into());
    }
    if let Some(p) = prev {
        let start = if ep_no == 0 { 1 } else { p.final_consensus.number + 1 };
        let want: BTreeSet<BlsPublicKey> = p.next_committee.iter().copied().collect();
        let got: BTreeSet<BlsPublicKey> = m.committee.authorities.values().map(|a| a.protocol_key).collect();
        if m.start != start || m.state != p.final_state || m.consensus != p.final_consensus || want != got {
            out.push("description".into());
        }
    }
    let ids: BTreeSet<AuthorityIdentifier> = m.committee.authorities.values().map(|a| a.protocol_key.into()).collect();
    let mut parent = if ep_no == 0 { None } else { prev.map(|p| p.final_consensus.hash) };
    let mut count = 0;
    let mut open: Option<(u64, BTreeSet<BlockHash>)> = None;
    let mut got: Vec<BlockHash> = vec![];
    let close = |open: &Option<(u64, BTreeSet<BlockHash>)>, got: &mut Vec<BlockHash>, out: &mut Vec<String>| {
        let want: Vec<BlockHash> = open.iter().flat_map(|o| o.1.iter().copied()).collect();
        if *got != want {
            out.push(format!("batches of {:?}", open.as_ref().map(|o| o.0)));
        }
        got.clear();
    };
    for r in &recs[1..] {
        match r {
            Rec::Meta(_) => out.push("second description".into()),
            Rec::Batch(b) => got.push(b.digest()),
            Rec::Consensus(h) => {
                if version == 1 {
                    close(&open, &mut got, &mut out);
                } else {
                    got.sort();
                    got.dedup();
                }
                if h.number != m.start.wrapping_add(count) {
                    out.push(format!("number {}", h.number));
                }
                count += 1;
                if parent.is_some_and(|p| p != h.parent) {
                    out.push(format!("parent of {}", h.number));
                }
                parent = Some(h.digest());
                if h.dag.headers.last().is_some_and(|x| x.epoch() != ep_no) {
                    out.push(format!("epoch of {}", h.number));
                }
                if !h.referenced().is_empty() && h.dag.headers.iter().any(|x| !ids.contains(x.author())) {
                    out.push(format!("author in {}", h.number));
                }
                open = Some((h.number, h.referenced()));
                if version == 0 {
                    close(&open, &mut got, &mut out);
                }
            }
        }
    }
    if version == 1 {
        close(&open, &mut got, &mut out);
    }
    Ok(out)
}

fn validate(g: &mut G) -> R {
    let sc = Scratch::new();
    let en = if g.chance(1, 4) { 0 } else { epoch(g).min(u32::MAX - 1) };
    let k = 1 + g.usize(5);
    let ep = one_epoch(g, en, Shape { outputs: k, large: 100 });
    let version = if g.chance(1, 3) { 0 } else { 1 };
    let mut recs = records(&ep, version);
    let mut a = false;
    let mut what = vec![];
    for _ in 0..[0, 1, 1, 2][g.usize(4)] {
        what.push(alter(g, &mut recs, &ep, &mut a));
    }
    // such records can not be read at all
    let unreadable = recs.iter().any(|r| match r {
        Rec::Consensus(h) => h.dag.headers.is_empty(),
        Rec::Meta(m) => m.committee.authorities.values().map(|a| a.protocol_key).collect::<BTreeSet<_>>().len() < 2,
        Rec::Batch(_) => false,
    });
    let dir = sc.sub("make");
    bytes(&dir, &recs, en, version, PackCompression::ZStd)?;
    let p = dir.join("made");
    let anchored = g.chance(2, 3);
    let prev = anchored.then_some(&ep.prev);
    let at = format!("{what:?}; epoch {en}, version {version}, anchored {anchored}, records {recs:?}");
    let want = faults(&recs, en, prev, version);
    g.nontrivial_if(!all_digests(&ep).is_empty());
    g.class(match &want {
        Err(()) => "no description",
        Ok(f) if f.is_empty() => "nothing wrong",
        Ok(_) => "something wrong",
    });
    g.note(|| at.clone());
    let got = validate_pack_file(&p, en, prev);
    if unreadable {
        ensure!(!got.is_ok_and(|r| r.verdict == Verdict::Valid), "valid with a record that can not be read; {at}");
        return Ok(());
    }
    let report = match (got, &want) {
        (Ok(r), Ok(_)) => r,
        (Err(_), Err(())) => return Ok(()),
        (got, _) => return Err(format!("{:?}, expected {want:?}; {at}", got.map(|r| r.issues))),
    };
    let want = want.unwrap_or_default();
    ensure_eq!(report.verdict == Verdict::Valid, want.is_empty(), "valid, with {want:?} wrong and {:?} reported; {at}", report.issues);
    ensure_eq!(report.verdict == Verdict::Valid, report.issues.is_empty(), "verdict and issues; {at}");
    let (mut batches, mut numbers) = (0, vec![]);
    let mut present = BTreeSet::new();
    for r in &recs {
        match r {
            Rec::Batch(b) => {
                batches += 1;
                present.insert(b.digest());
            }
            Rec::Consensus(h) => numbers.push(h.number),
            Rec::Meta(_) => {}
        }
    }
    ensure_eq!(report.batch_count, batches, "batches counted; {at}");
    ensure_eq!(report.consensus_count, numbers.len() as u64, "outputs counted; {at}");
    ensure_eq!((report.first_consensus_number, report.last_consensus_number), (numbers.first().copied(), numbers.last().copied()), "numbers; {at}");
    for i in &report.issues {
        if let PackIssue::MissingBatch { digest, class, .. } = i {
            ensure_eq!(*class == BatchClass::Misordered, present.contains(digest), "class of the missing batch {digest}; {at}");
        }
    }
    ensure_eq!(report.missing_batch_count(BatchClass::Absent) + report.missing_batch_count(BatchClass::Misordered), report.issues.iter().filter(|i| matches!(i, PackIssue::MissingBatch { .. })).count(), "missing batches counted; {at}");
    let text = report.to_string();
    ensure!(text.contains(&format!("issues: {} total", report.issues.len())), "printed as {text}");
    // what is valid is imported
    if anchored && report.verdict == Verdict::Valid {
        let data = std::fs::read(&p).map_err(s("read"))?;
        let to = sc.sub("import");
        std::fs::create_dir_all(&to).map_err(s("dir"))?;
        return block_on(async {
            let pack = ConsensusPack::stream_import(&to, &data[..], en, &ep.prev, u64::MAX, T).await.map_err(|e| format!("valid, and refused: {e}; {at}"))?;
            for r in &recs {
                if let Rec::Consensus(h) = r {
                    let x = pack.consensus_header_by_number(h.number).await.map_err(|e| format!("{e}; {at}"))?;
                    ensure_eq!(x.digest(), h.digest(), "header {}; {at}", h.number);
                    pack.get_consensus_output(h.number).await.map_err(|e| format!("{e}; {at}"))?;
                }
            }
            Ok(())
        });
    }
    Ok(())
}

/// One output asked for by its digest.
fn output(g: &mut G) -> R {
    let sc = Scratch::new();
    let en = epoch(g);
    let ep = one_epoch(g, en, Shape { outputs: 2, large: 60 });
    let o = &ep.outputs[g.usize(2)];
    let all = records(&ep, 1);
    let i = all.iter().position(|r| matches!(r, Rec::Consensus(h) if h.number == o.number())).expect("header");
    let j = (i + 1..all.len()).find(|k| matches!(all[*k], Rec::Consensus(_))).unwrap_or(all.len());
    let mut recs = all[i..j].to_vec();
    let mut what = vec![];
    let mut a = false;
    let kind = g.below(4);
    if kind == 1 {
        what.push(alter(g, &mut recs, &ep, &mut a));
    }
    let head = bytes(&sc.sub("make"), &[], en, 1, PackCompression::ZStd)?.len();
    let mut data = bytes(&sc.sub("make"), &recs, en, 1, PackCompression::ZStd)?.split_off(head);
    let mut expected = o.digest();
    match kind {
        2 if !data.is_empty() => what.push(damage(g, &mut data)),
        3 => {
            expected = if g.bool() { ep.outputs[0].digest().min(ep.outputs[1].digest()) } else { g.arr32().into() };
            what.push("another digest expected".into());
        }
        _ => {}
    }
    let at = format!("{what:?}; output {} with {} batches", o.number(), o.batch_digests().len());
    g.nontrivial_if(o.batch_digests().len() > 1);
    g.note(|| at.clone());
    let st = Pieces::new(g, data);
    let got = block_on(bytes_to_verified_output(st, PackCompression::ZStd, T, &ep.com.committee, expected));
    match got {
        Ok(x) => {
            ensure!(expected == o.digest(), "given although another was expected; {at}");
            same(&x, o, &format!("given; {at}"))
        }
        Err(e) => {
            ensure!(kind != 0, "refused: {e}; {at}");
            Ok(())
        }
    }
}

pub fn check(c: &mut Check) {
    c.assume("CRC-32 and the digests tell records apart: alterations are of whole records or of a few bytes");
    c.sub("honest", Budget::new(3_000, 20), honest);
    c.sub("altered", Budget::new(20_000, 40), altered);
    c.sub("staged", Budget::new(3_000, 15), staged);
    c.sub("install-stop", Budget::new(4_000, 20), install_stop(false));
    c.sub("install-power-cut", Budget::new(4_000, 15), install_stop(true));
    c.sub("validate", Budget::new(20_000, 15), validate);
    c.sub("output", Budget::new(20_000, 15), output);
}
