//! C07: epoch records, their certificates and the chain they form.

use crate::epoch_votes::{self, EPOCH_VOTE_RECV_TIMEOUT, MAX_EPOCH_VOTE_TIMEOUTS};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tn_config::KeyConfig;
use tn_network_libp2p::{
    types::{MessageId, NetworkCommand, NetworkResponseMessage},
};
use tn_primary::{
    network::{PrimaryNetworkHandle, PrimaryRequest, PrimaryResponse},
    verif::c07::gossip,
    ConsensusBusApp,
};
use tn_storage::{
    consensus::ConsensusChain,
    epoch_records::{validate_record_against_anchor, EpochRecordDb, EpochRecordValidation},
};
use tn_types::*;
use vcore::{ensure, ensure_eq, Budget, Check, Scratch, G, R};
use vgen::*;

pub const RULE: &str = "certificates: at least a quorum less one of signers, with or without an alteration; chains: at least two epochs with a change of members; collecting: at least two epochs and one answer that is not the honest one; votes: at least one vote that does not count and not all members voting";

fn s<T: std::fmt::Display>(what: &str) -> impl Fn(T) -> String + '_ {
    move |x| format!("{what}: {x}")
}

fn vote_of(rec: &EpochRecord, k: &Key) -> EpochVote {
    rec.sign_vote(k)
}

/// A certificate of whatever signatures and places are given.
fn cert_of(hash: EpochDigest, sigs: &[BlsSignature], bits: impl IntoIterator<Item = u32>) -> EpochCertificate {
    let signature = if sigs.is_empty() {
        BlsSignature::default()
    } else {
        BlsAggregateSignature::aggregate(sigs, true).expect("aggregate").to_signature()
    };
    EpochCertificate { epoch_hash: hash, signature, signed_authorities: bits.into_iter().collect() }
}

fn certify(rec: &EpochRecord, by: &[usize]) -> EpochCertificate {
    let sigs: Vec<_> = by.iter().map(|i| vote_of(rec, key_of(&rec.committee[*i])).signature).collect();
    cert_of(rec.digest(), &sigs, by.iter().map(|i| *i as u32))
}

fn some_keys(g: &mut G, n: usize, sorted: bool) -> Vec<BlsPublicKey> {
    let mut v: Vec<_> = distinct(g, n).into_iter().map(|i| keys()[i].pk()).collect();
    if sorted {
        v.sort();
    }
    v
}

fn some_record(g: &mut G, committee: Vec<BlsPublicKey>) -> EpochRecord {
    EpochRecord {
        epoch: epoch(g),
        next_committee: if g.bool() { committee.clone() } else { let n = 1 + g.usize(5); some_keys(g, n, true) },
        committee,
        parent_hash: g.arr32().into(),
        final_state: num_hash(g),
        final_consensus: ConsensusNumHash::new(g.num(), g.arr32().into()),
    }
}

/// A record that differs in one thing.
fn altered(g: &mut G, r: &EpochRecord) -> (EpochRecord, &'static str) {
    let mut x = r.clone();
    let what = *g.pick(&["epoch", "parent", "state number", "state hash", "consensus number", "consensus hash", "member replaced", "member dropped", "member added", "members reordered", "member doubled", "next members"]);
    let n = x.committee.len();
    match what {
        "epoch" => x.epoch ^= 1 << g.below(8),
        "parent" => x.parent_hash = g.arr32().into(),
        "state number" => x.final_state.number ^= 1 << g.below(40),
        "state hash" => x.final_state.hash = b256(g),
        "consensus number" => x.final_consensus.number ^= 1 << g.below(40),
        "consensus hash" => x.final_consensus.hash = g.arr32().into(),
        "member replaced" => {
            let i = g.usize(n);
            x.committee[i] = stranger(g, &r.committee).pk();
        }
        "member dropped" => {
            x.committee.remove(g.usize(n));
        }
        "member added" => {
            let i = g.usize(n + 1);
            x.committee.insert(i, stranger(g, &r.committee).pk());
        }
        "members reordered" if n > 1 => {
            let i = g.usize(n - 1);
            x.committee.swap(i, i + 1);
        }
        "member doubled" => {
            let (i, j) = (g.usize(n), g.usize(n + 1));
            x.committee.insert(j, r.committee[i]);
        }
        _ => match x.next_committee.len() {
            0 => x.next_committee.push(keys()[0].pk()),
            m => {
                let i = g.usize(m);
                x.next_committee.remove(i);
            }
        },
    }
    (x, what)
}

fn stranger(g: &mut G, of: &[BlsPublicKey]) -> &'static Key {
    let out: Vec<_> = keys().iter().filter(|k| !of.contains(&k.pk())).collect();
    out[g.usize(out.len())]
}

/// A certificate holds exactly if at least 2n/3+1 members signed this record.
fn certificates(g: &mut G) -> R {
    let n = g.urange(1, 13);
    let sorted = g.chance(4, 5);
    let committee = some_keys(g, n, sorted);
    let rec = some_record(g, committee);
    let quorum = 2 * n / 3 + 1;
    let k = match g.below(5) {
        0 => quorum - 1,
        1 | 2 => quorum,
        3 => n,
        _ => g.urange(0, n),
    };
    let mut by: Vec<usize> = (0..n).collect();
    g.shuffle(&mut by);
    by.truncate(k);
    by.sort();
    let mut votes: Vec<EpochVote> = by.iter().map(|i| vote_of(&rec, key_of(&rec.committee[*i]))).collect();
    for (i, v) in by.iter().zip(&votes) {
        ensure!(v.check_signature(), "a member's own vote is refused");
        ensure_eq!((v.epoch, v.epoch_hash, v.public_key), (rec.epoch, rec.digest(), rec.committee[*i]), "vote");
    }
    let genuine = k >= quorum;
    g.nontrivial_if(k + 1 >= quorum);
    let plain = certify(&rec, &by);
    if k > 0 {
        ensure_eq!(rec.verify_with_cert(&plain), genuine, "{k} of {n} members signed");
        let round: EpochCertificate = decode(&encode(&plain));
        ensure_eq!(round, plain, "certificate after a round trip");
        ensure_eq!(rec.verify_with_cert(&round), genuine, "{k} of {n} members signed, after a round trip");
        let signers: Vec<_> = by.iter().map(|i| rec.committee[*i]).collect();
        ensure!(plain.check_signatures(&signers), "the signatures of {k} signers do not hold");
    }
    // one thing wrong: never certified
    let kind = *g.pick(&["record", "other record's certificate", "hash", "bit dropped", "bit added", "bit moved", "signature replaced", "stranger", "signed twice", "other scope", "other record signed", "no signature", "outside its group"]);
    g.class(kind);
    let mut c = plain.clone();
    let mut r = rec.clone();
    match kind {
        "record" => {
            let (x, what) = altered(g, &rec);
            if x == rec {
                return Ok(());
            }
            g.note(|| what.to_string());
            r = x;
        }
        "other record's certificate" => {
            let (x, _) = altered(g, &rec);
            if x.digest() == rec.digest() || x.committee != rec.committee || k == 0 {
                return Ok(());
            }
            c = certify(&x, &by);
            if g.bool() {
                c.epoch_hash = rec.digest();
            }
        }
        "hash" => c.epoch_hash = g.arr32().into(),
        "bit dropped" => {
            if k == 0 {
                return Ok(());
            }
            c.signed_authorities.remove(by[g.usize(k)] as u32);
        }
        "bit added" => {
            let out: Vec<u32> = (0..n as u32).filter(|i| !by.contains(&(*i as usize))).collect();
            if out.is_empty() {
                return Ok(());
            }
            c.signed_authorities.insert(*g.pick(&out));
        }
        "bit moved" => {
            let out: Vec<u32> = (0..n as u32).filter(|i| !by.contains(&(*i as usize))).collect();
            if out.is_empty() || k == 0 {
                return Ok(());
            }
            c.signed_authorities.remove(by[g.usize(k)] as u32);
            c.signed_authorities.insert(*g.pick(&out));
        }
        "outside its group" => {
            // no pairing tells it from the genuine one
            if k == 0 {
                return Ok(());
            }
            c.signature = off_group_sig(&c.signature, g.usize(6)).unwrap_or_default();
            votes[0].signature = off_group_sig(&votes[0].signature, g.usize(6)).unwrap_or_default();
            ensure!(!votes[0].check_signature(), "a vote with an altered signature is accepted");
        }
        "signature replaced" => c.signature = some_sig(g),
        "stranger" | "other scope" | "other record signed" => {
            if k == 0 {
                return Ok(());
            }
            let i = g.usize(k);
            let (x, _) = altered(g, &rec);
            votes[i].signature = match kind {
                "stranger" => vote_of(&rec, stranger(g, &rec.committee)).signature,
                "other record signed" => {
                    if x.digest() == rec.digest() {
                        return Ok(());
                    }
                    vote_of(&x, key_of(&rec.committee[by[i]])).signature
                }
                _ => {
                    let scope = *g.pick(&[IntentScope::EpochCloseSeed, IntentScope::EpochCloseSeed, IntentScope::ConsensusDigest]);
                    let m = encode(&IntentMessage::new(Intent::consensus(scope), rec.digest()));
                    key_of(&rec.committee[by[i]]).request_signature_direct(&m)
                }
            };
            ensure!(!votes[i].check_signature(), "a vote with a signature by {kind} is accepted");
            let sigs: Vec<_> = votes.iter().map(|v| v.signature).collect();
            c = cert_of(rec.digest(), &sigs, by.iter().map(|i| *i as u32));
        }
        "signed twice" => {
            // a member's signature counted for two places
            let out: Vec<u32> = (0..n as u32).filter(|i| !by.contains(&(*i as usize))).collect();
            if out.is_empty() || k == 0 {
                return Ok(());
            }
            let mut sigs: Vec<_> = votes.iter().map(|v| v.signature).collect();
            sigs.push(votes[g.usize(k)].signature);
            let more = *g.pick(&out);
            c = cert_of(rec.digest(), &sigs, by.iter().map(|i| *i as u32).chain([more]));
        }
        _ => c.signature = BlsSignature::default(),
    }
    ensure!(!r.verify_with_cert(&c), "{k} of {n} signed, then altered ({kind}): the record is certified all the same");
    Ok(())
}

/// Which members a record may name, by the rules written down with the code: those handed over to,
/// or at least four and two thirds of them.
fn permitted(named: &[BlsPublicKey], expected: &BTreeSet<BlsPublicKey>) -> bool {
    let set: BTreeSet<_> = named.iter().copied().collect();
    if set.len() != named.len() || !set.is_subset(expected) {
        return false;
    }
    set == *expected || (set.len() >= 4 && 3 * set.len() >= 2 * expected.len())
}

fn members(g: &mut G) -> R {
    let e = g.usize(15);
    let expected = some_keys(g, e, true);
    let set: BTreeSet<_> = expected.iter().copied().collect();
    let mut named = expected.clone();
    g.shuffle(&mut named);
    let keep = match g.below(4) {
        0 => e,
        1 => 4.min(e),
        2 => (2 * e).div_ceil(3).saturating_sub(g.usize(2)),
        _ => g.urange(0, e),
    };
    named.truncate(keep);
    if g.chance(1, 4) {
        let k = stranger(g, &expected).pk();
        if g.bool() && !named.is_empty() {
            named.pop();
        }
        named.push(k);
    }
    if g.chance(1, 5) && !named.is_empty() {
        let i = g.usize(named.len());
        named.push(named[i]);
    }
    if g.bool() {
        named.sort();
    }
    let want = permitted(&named, &set);
    g.nontrivial_if(named != expected && e > 0);
    g.class(if want { "permitted" } else { "refused" });
    let rec = EpochRecord { committee: named.clone(), ..Default::default() };
    ensure_eq!(rec.committee_compatible(&set), want, "{} of {e} members named ({} distinct)", named.len(), named.iter().collect::<BTreeSet<_>>().len());
    Ok(())
}

struct Link {
    rec: EpochRecord,
    cert: EpochCertificate,
}

/// A chain of certified records from the first epoch on.
fn chain(g: &mut G, n: usize, max: usize) -> Vec<Link> {
    let size = g.urange(4, max);
    let mut handed = some_keys(g, size, true);
    let mut parent = EpochDigest::default();
    let mut number = 0;
    let mut out = vec![];
    for epoch in 0..n as u32 {
        let mut committee = handed.clone();
        // a permitted reduction
        while g.chance(1, 3) {
            let mut c = committee.clone();
            c.remove(g.usize(c.len()));
            if !permitted(&c, &handed.iter().copied().collect()) {
                break;
            }
            committee = c;
        }
        let next = match g.below(3) {
            0 => committee.clone(),
            1 => {
                let mut v = committee.clone();
                let i = g.usize(v.len());
                v[i] = stranger(g, &committee).pk();
                v.sort();
                v
            }
            _ => {
                let size = g.urange(4, max);
                some_keys(g, size, true)
            }
        };
        number += g.below(40);
        let rec = EpochRecord {
            epoch,
            committee,
            next_committee: next.clone(),
            parent_hash: parent,
            final_state: num_hash(g),
            final_consensus: ConsensusNumHash::new(number, g.arr32().into()),
        };
        let mut by: Vec<usize> = (0..rec.committee.len()).collect();
        g.shuffle(&mut by);
        by.truncate(g.urange(rec.super_quorum(), rec.committee.len()));
        by.sort();
        parent = rec.digest();
        handed = next;
        out.push(Link { cert: certify(&rec, &by), rec });
    }
    out
}

/// What a liar answers for an epoch: a record and certificate, and whether it is the honest one.
fn lie(g: &mut G, chain: &[Link], e: usize) -> (EpochRecord, EpochCertificate, &'static str) {
    let l = &chain[e];
    let what = *g.pick(&["altered", "altered and signed", "unsigned", "too few", "other epoch", "foreign members", "doubled members"]);
    let all = |r: &EpochRecord| certify(r, &(0..r.committee.len()).collect::<Vec<_>>());
    match what {
        "altered" => {
            let (r, _) = altered(g, &l.rec);
            let mut c = l.cert.clone();
            if g.bool() {
                c.epoch_hash = r.digest();
            }
            (r, c, what)
        }
        // not linked to the chain, but by the right members
        "altered and signed" => {
            let mut r = l.rec.clone();
            match g.below(3) {
                0 => r.epoch += 1 + g.below(3) as u32,
                1 => r.parent_hash = g.arr32().into(),
                _ => {
                    let i = g.usize(r.committee.len());
                    r.committee[i] = stranger(g, &r.committee).pk();
                }
            }
            let c = all(&r);
            (r, c, what)
        }
        "unsigned" => (l.rec.clone(), EpochCertificate { epoch_hash: l.rec.digest(), signature: some_sig(g), signed_authorities: (0..l.rec.committee.len() as u32).collect() }, what),
        "too few" => (l.rec.clone(), certify(&l.rec, &(0..l.rec.super_quorum() - 1).collect::<Vec<_>>()), what),
        "other epoch" => {
            let o = g.usize(chain.len());
            (chain[o].rec.clone(), chain[o].cert.clone(), what)
        }
        "foreign members" => {
            let mut r = l.rec.clone();
            let n = g.urange(1, 6);
            let mut v = vec![];
            for i in distinct(g, 30) {
                let k = keys()[i].pk();
                if !l.rec.committee.contains(&k) && v.len() < n {
                    v.push(k);
                }
            }
            v.sort();
            r.committee = v;
            let c = all(&r);
            (r, c, what)
        }
        _ => {
            // one member in many places
            let mut r = l.rec.clone();
            let k = *g.pick(&r.committee);
            let n = r.committee.len();
            r.committee = vec![k; n];
            if g.bool() {
                r.committee[0] = l.rec.committee[0];
                r.committee.sort();
            }
            let c = all(&r);
            (r, c, what)
        }
    }
}

fn validity(prev: Option<&EpochRecord>, first: &BTreeSet<BlsPublicKey>, honest: &Link, epoch: Epoch, r: &EpochRecord, c: &EpochCertificate) -> bool {
    let (parent, expected) = match prev {
        None => (EpochDigest::default(), first.clone()),
        Some(p) => (p.digest(), p.next_committee.iter().copied().collect()),
    };
    // the only certificates that hold are those made honestly; others are judged by the parts
    let genuine = (r == &honest.rec && c == &honest.cert) || r.verify_with_cert(c);
    r.epoch == epoch && r.parent_hash == parent && permitted(&r.committee, &expected) && genuine
}

/// A record is judged against its predecessor.
fn anchored(g: &mut G) -> R {
    let n = g.urange(1, 4);
    let ch = chain(g, n, 7);
    g.nontrivial_if(n > 1 && ch.windows(2).any(|w| w[0].rec.committee != w[1].rec.committee));
    let dir = Scratch::new();
    block_on(async {
        let db = EpochRecordDb::open(dir.path()).map_err(s("open"))?;
        let first: BTreeSet<_> = ch[0].rec.committee.iter().copied().collect();
        ensure_eq!(db.validate_downloaded_record(0, &ch[0].rec, &ch[0].cert).await, EpochRecordValidation::NoAnchor, "nothing known of the first epoch");
        let dummy = EpochRecord { committee: ch[0].rec.committee.clone(), next_committee: ch[0].rec.committee.clone(), ..Default::default() };
        db.save_dummy_epoch0(dummy).await.map_err(s("first epoch"))?;
        for (e, l) in ch.iter().enumerate() {
            let epoch = e as Epoch;
            let prev = e.checked_sub(1).map(|p| &ch[p].rec);
            ensure!(db.validate_downloaded_record(epoch, &l.rec, &l.cert).await.is_valid(), "the honest record of epoch {e} is refused");
            for _ in 0..3 {
                let (r, c, what) = lie(g, &ch, e);
                let want = validity(prev, &first, l, epoch, &r, &c);
                g.class(if want { "valid" } else { what });
                ensure_eq!(db.validate_downloaded_record(epoch, &r, &c).await.is_valid(), want, "epoch {e}: a record that is {what}");
                let (parent, set) = match prev {
                    None => (EpochDigest::default(), first.clone()),
                    Some(p) => (p.digest(), p.next_committee.iter().copied().collect()),
                };
                ensure_eq!(validate_record_against_anchor(epoch, &r, &c, parent, &set).is_valid(), want, "epoch {e}: a record that is {what}, anchor given");
            }
            if e + 1 < n {
                let (r, c) = (&ch[e + 1].rec, &ch[e + 1].cert);
                ensure!(!db.validate_downloaded_record(epoch + 1, r, c).await.is_valid(), "epoch {} is accepted without its predecessor", e + 1);
            }
            db.save(l.rec.clone(), l.cert.clone()).await.map_err(s("save"))?;
        }
        Ok(())
    })
}

/// A runtime whose clock runs only when nothing else is to be done.
pub fn paused<F: std::future::Future>(f: F) -> F::Output {
    tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().expect("runtime").block_on(f)
}

type Command = NetworkCommand<PrimaryRequest, PrimaryResponse>;

/// What the peers do: publish takes votes, requests are answered from the lists.
#[derive(Default)]
struct Peers {
    published: Vec<Vec<u8>>,
    /// answers to come per epoch, then for ever `honest`
    answers: BTreeMap<Epoch, Vec<Option<(EpochRecord, EpochCertificate)>>>,
    honest: BTreeMap<Epoch, (EpochRecord, EpochCertificate)>,
    asked: usize,
}

fn network(peers: Arc<Mutex<Peers>>) -> PrimaryNetworkHandle {
    let (tx, mut rx) = tokio::sync::mpsc::channel::<Command>(100);
    tokio::spawn(async move {
        while let Some(c) = rx.recv().await {
            match c {
                NetworkCommand::Publish { msg, reply, .. } => {
                    peers.lock().unwrap().published.push(msg);
                    let _ = reply.send(Ok(MessageId::new(b"x")));
                }
                NetworkCommand::SendRequestAny { request: PrimaryRequest::EpochRecord { epoch, .. }, reply } => {
                    let mut p = peers.lock().unwrap();
                    p.asked += 1;
                    let Some(e) = epoch else { continue };
                    let more = p.answers.get_mut(&e).filter(|v| !v.is_empty()).map(|v| v.remove(0));
                    let a = match more {
                        Some(a) => a,
                        None => p.honest.get(&e).cloned(),
                    };
                    // no answer: the request is dropped
                    if let Some((record, certificate)) = a {
                        let result = PrimaryResponse::EpochRecord { record, certificate };
                        let _ = reply.send(Ok(NetworkResponseMessage { peer: keys()[0].pk(), result }));
                    }
                }
                _ => {}
            }
        }
    });
    PrimaryNetworkHandle::new_for_test(tx)
}

/// A node that collects records from lying peers stores the certified chain and nothing else.
fn collected(g: &mut G) -> R {
    let n = g.urange(1, 5);
    let ch = chain(g, n, 6);
    let first: BTreeSet<_> = ch[0].rec.committee.iter().copied().collect();
    let mut peers = Peers::default();
    let mut lies = 0;
    // valid ones among them may be stored (another certificate of the same record)
    for (e, l) in ch.iter().enumerate() {
        peers.honest.insert(e as Epoch, (l.rec.clone(), l.cert.clone()));
        let mut v = vec![];
        while g.chance(1, 3) && v.len() < 4 {
            if g.chance(1, 4) {
                v.push(None);
                continue;
            }
            let (r, c, _) = lie(g, &ch, e);
            let prev = e.checked_sub(1).map(|p| &ch[p].rec);
            if !validity(prev, &first, l, e as Epoch, &r, &c) {
                lies += 1;
                v.push(Some((r, c)));
            }
        }
        peers.answers.insert(e as Epoch, v);
    }
    // a record after the last that is not of the chain
    if g.chance(1, 3) {
        let (r, c, _) = lie(g, &ch, n - 1);
        let last = &ch[n - 1];
        if !(r.epoch == n as Epoch && r.parent_hash == last.rec.digest()) {
            lies += 1;
            peers.honest.insert(n as Epoch, (r, c));
        }
    }
    let already = if g.bool() { g.urange(0, n) } else { 0 };
    let total: usize = peers.answers.values().map(|v| v.len()).sum();
    g.nontrivial_if(n >= 2 && lies > 0);
    g.note(|| format!("{n} epochs, {lies} lies"));
    let peers = Arc::new(Mutex::new(peers));
    let dir = Scratch::new();
    let committee = Com::of(&ch[0].rec.committee.iter().map(place).collect::<Vec<_>>(), 0).committee;
    paused(async {
        let cc = ConsensusChain::new(dir.path().to_path_buf(), committee).map_err(s("open"))?;
        // as a node does when it starts for the first time
        let keys = ch[0].rec.committee.clone();
        let dummy = EpochRecord { committee: keys.clone(), next_committee: keys, ..Default::default() };
        cc.epochs().save_dummy_epoch0(dummy.clone()).await.map_err(s("first epoch"))?;
        for l in &ch[..already] {
            cc.epochs().save(l.rec.clone(), l.cert.clone()).await.map_err(s("save"))?;
        }
        let bus = ConsensusBusApp::new();
        let tasks = TaskManager::default();
        let stop = Notifier::default();
        state_sync::spawn_epoch_record_collector(cc.clone(), network(peers.clone()), bus.clone(), tasks.get_spawner(), stop.subscribe()).await.map_err(s("spawn"))?;
        // every lie costs at most one round of five seconds
        let mut seen = 0;
        for i in 0..(total + n + 3) {
            // an invalid answer ends a round before what it found is announced, until more is asked for
            if i > total {
                bus.set_request_missing_epoch_if_newer(n as Epoch);
            }
            tokio::time::sleep(Duration::from_secs(5)).await;
            for e in 0..n as Epoch + 2 {
                let got = cc.epochs().get_epoch_by_number(e).await;
                let got = got.filter(|(r, c)| *r != dummy || c.is_some());
                match (got, ch.get(e as usize)) {
                    (None, _) => {}
                    (Some((r, _)), None) => return Err(format!("epoch {e}, which does not exist, is stored: {r:?}")),
                    (Some((r, c)), Some(l)) => {
                        ensure!(r == l.rec, "the record stored for epoch {e} is not that of the chain");
                        ensure!(c.as_ref().is_some_and(|c| r.verify_with_cert(c)), "epoch {e} is stored without a certificate that holds");
                        seen = seen.max(e + 1);
                    }
                }
            }
            bus.set_request_missing_epoch_if_newer(g.below(n as u64 + 1) as Epoch);
        }
        ensure_eq!(seen, n as Epoch, "epochs stored after all lies were told");
        for e in 0..n as Epoch {
            ensure!(cc.epochs().certified_record_by_epoch(e).await.is_ok(), "epoch {e} is not certified in the end");
        }
        let want = ch.iter().enumerate().rev().map(|(e, l)| (e as Epoch, l.rec.final_consensus)).max_by_key(|x| x.1.number).unwrap();
        let (pe, pn, ph) = bus.published_consensus_num_hash();
        ensure_eq!(pn, want.1.number, "final output known");
        if pn > 0 {
            ensure!(ch.iter().enumerate().any(|(e, l)| (e as Epoch, l.rec.final_consensus.number, l.rec.final_consensus.hash) == (pe, pn, ph)), "the final output known is of no epoch: {pe} {pn} {ph}");
        }
        stop.notify();
        Ok(())
    })
}

fn place(k: &BlsPublicKey) -> usize {
    keys().iter().position(|x| x.pk() == *k).expect("a key of ours")
}

/// A node closing an epoch gathers votes.
fn votes(g: &mut G) -> R {
    let n = g.urange(4, 8);
    let committee = some_keys(g, n, true);
    let com = Com::of(&committee.iter().map(place).collect::<Vec<_>>(), 0).committee;
    let mut rec = some_record(g, committee.clone());
    rec.epoch = 0;
    rec.parent_hash = Default::default();
    let (mut other, _) = altered(g, &rec);
    other.epoch = 0;
    other.parent_hash = Default::default();
    other.committee = committee.clone();
    if other == rec {
        other.final_state.number ^= 1;
    }
    let quorum = rec.super_quorum();
    let me = if g.chance(3, 4) { key_of(g.pick(&committee)) } else { stranger(g, &committee) };
    let member = committee.contains(&me.pk());
    let mut right: BTreeSet<usize> = (0..n).filter(|i| committee[*i] == me.pk()).collect();
    // the votes, each with the time before it
    let mut list: Vec<(u64, EpochVote)> = vec![];
    let mut others: Vec<usize> = (0..n).filter(|i| committee[*i] != me.pk()).collect();
    g.shuffle(&mut others);
    let agree = match g.below(3) {
        0 => (quorum - member as usize).min(others.len()),
        1 => (quorum - member as usize).saturating_sub(1),
        _ => g.urange(0, others.len()),
    };
    for (j, i) in others.iter().enumerate() {
        let key = key_of(&committee[*i]);
        let v = if j < agree {
            right.insert(*i);
            vote_of(&rec, key)
        } else if g.bool() {
            vote_of(&other, key)
        } else {
            continue;
        };
        list.push((0, v));
        if g.chance(1, 5) {
            list.push((0, v));
        }
    }
    let dissent = list.iter().filter(|(_, v)| v.epoch_hash != rec.digest()).count();
    for _ in 0..g.usize(4) {
        let mut v = vote_of(&rec, stranger(g, &committee));
        if g.bool() {
            v = vote_of(&rec, key_of(g.pick(&committee)));
            v.epoch = 1 + g.below(3) as Epoch;
        }
        list.push((0, v));
    }
    g.shuffle(&mut list);
    // before the quorum votes may take long, then a second
    let slow = g.bool();
    let most = EPOCH_VOTE_RECV_TIMEOUT.as_millis() as u64 * (MAX_EPOCH_VOTE_TIMEOUTS as u64 - 2) / (list.len() as u64 + 1);
    for x in &mut list {
        x.0 = match g.below(3) {
            0 => 0,
            1 => g.below(900),
            _ if slow => g.below(most),
            _ => g.below(900),
        };
    }
    // restart of the vote round: the stored record is offered again
    let rearm = g.chance(1, 4);
    let reached = right.len() >= quorum;
    g.class(if reached { "quorum" } else { "no quorum" });
    g.nontrivial_if(list.iter().any(|(_, v)| v.epoch_hash != rec.digest() || !committee.contains(&v.public_key) || v.epoch != 0) && right.len() < n);
    // what peers offer when no quorum was reached
    let mut peers = Peers::default();
    let offered = g.bool();
    let everyone: Vec<usize> = (0..n).collect();
    if g.bool() {
        let (r, _) = altered(g, &rec);
        if r != rec {
            peers.answers.insert(0, vec![Some((r, certify(&rec, &everyone))), Some((rec.clone(), certify(&rec, &everyone[..quorum - 1])))]);
        }
    }
    if offered {
        peers.honest.insert(0, (rec.clone(), certify(&rec, &everyone)));
    }
    let peers = Arc::new(Mutex::new(peers));
    let dir = Scratch::new();
    paused(async {
        let cc = ConsensusChain::new(dir.path().to_path_buf(), com).map_err(s("open"))?;
        let keys = committee.clone();
        let dummy = EpochRecord { committee: keys.clone(), next_committee: keys, ..Default::default() };
        cc.epochs().save_dummy_epoch0(dummy).await.map_err(s("first epoch"))?;
        cc.epochs().save_record(rec.clone()).await.map_err(s("save"))?;
        let bus = ConsensusBusApp::new();
        let tasks = TaskManager::default();
        let stop = Notifier::default();
        let key = KeyConfig::new_with_testing_key(me.0.copy());
        epoch_votes::spawn_epoch_vote_collector(cc.clone(), bus.clone(), key, network(peers.clone()), tasks.get_spawner(), stop.subscribe());
        let cut = if g.chance(1, 3) { g.usize(list.len() + 1) } else { 0 };
        for (i, (wait, v)) in list.iter().enumerate() {
            if i == cut {
                start(&cc, &bus, &rec, rearm).await;
            }
            tokio::time::sleep(Duration::from_millis(*wait)).await;
            // (the handler lets through only votes on records stored)
            if i < cut && v.epoch != 0 {
                continue;
            }
            bus.new_epoch_votes().send(*v).await.map_err(s("send"))?;
        }
        if cut >= list.len() {
            start(&cc, &bus, &rec, rearm).await;
        }
        let d = rec.digest();
        let mut cert = None;
        for _ in 0..120 {
            tokio::time::sleep(Duration::from_secs(1)).await;
            cert = cc.epochs().cert_by_digest(d).await;
            if cert.is_some() {
                break;
            }
        }
        ensure_eq!(cc.epochs().record_by_epoch(0).await, Some(rec.clone()), "the record stored");
        ensure!(cc.epochs().cert_by_digest(other.digest()).await.is_none(), "a record few voted for is certified");
        let what = format!("{} of {n} members voted for the record (quorum {quorum}), {dissent} for another, member {member}, offered {offered}", right.len());
        if let Some(c) = &cert {
            ensure!(rec.verify_with_cert(c), "{what}: the certificate stored does not hold");
        }
        if reached {
            ensure!(cert.is_some(), "{what}: not certified");
            let bits: Vec<usize> = cert.unwrap().signed_authorities.iter().map(|i| i as usize).collect();
            ensure!(bits.iter().all(|i| right.contains(i)), "{what}: {bits:?} signed, but {right:?} voted");
        } else {
            ensure_eq!(cert.is_some(), offered, "{what}: certified");
        }
        // its own vote goes out, and no other
        let p = peers.lock().unwrap();
        ensure_eq!(!p.published.is_empty(), member, "{what}: own vote published");
        for m in &p.published {
            let mine = vote_of(&rec, me);
            ensure!(gossip(m).is_some_and(|v| v == mine), "{what}: published something else than its vote");
        }
        stop.notify();
        Ok(())
    })
}

async fn start(cc: &ConsensusChain, bus: &ConsensusBusApp, rec: &EpochRecord, rearm: bool) {
    if rearm {
        epoch_votes::revote_uncertified_epoch_record_on_startup(cc.epochs(), bus.epoch_record_watch()).await;
    } else {
        bus.epoch_record_watch().send_replace(Some(rec.clone()));
    }
}

pub fn check(c: &mut Check) {
    c.assume("BLS signatures are unforgeable: a certificate holds only if its members signed (forgeries tried are those listed)");
    c.assume("votes reach the collector through the gossip handler, which checks their signatures (decided by the part `gossip`)");
    c.sub("certificates", Budget::new(2500, 40).thorough(100_000, 900), certificates);
    c.sub("members", Budget::new(60_000, 15).thorough(3_000_000, 200), members);
    c.sub("anchored", Budget::new(500, 40).thorough(20_000, 900), anchored);
    c.sub("collected", Budget::new(300, 40).thorough(10_000, 900), collected);
    c.sub("votes", Budget::new(600, 40).thorough(20_000, 900), votes);
    tn_primary::verif::c07::check(c);
}
