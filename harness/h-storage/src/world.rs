//! Chains of consensus outputs over epochs, and what a pack holding some of them must answer.

use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};
use tn_storage::consensus_pack::ConsensusPack;
use tn_types::gas_accumulator::RewardsCounter;
use tn_types::*;
use vcore::{ensure, ensure_eq, G, R};
use vgen::*;

/// One epoch: the record before it, its committee, its outputs, and the record that ends it.
pub struct Ep {
    pub com: Com,
    pub prev: EpochRecord,
    pub outputs: Vec<ConsensusOutput>,
    pub rec: EpochRecord,
}

impl Ep {
    pub fn epoch(&self) -> Epoch {
        self.com.committee.epoch()
    }
    pub fn start(&self) -> u64 {
        if self.epoch() == 0 { 1 } else { self.prev.final_consensus.number + 1 }
    }
}

#[derive(Clone, Copy)]
pub struct Shape {
    pub outputs: usize,
    /// one in so many batches is large
    pub large: u64,
}

pub fn keys_of(c: &Com) -> Vec<BlsPublicKey> {
    c.committee.bls_keys().into_iter().collect()
}

/// The record a chain starts from: for epoch 0 the one the chain itself makes up.
pub fn first_prev(g: &mut G, com: &Com) -> EpochRecord {
    let e = com.committee.epoch();
    if e == 0 {
        return EpochRecord { epoch: 0, committee: keys_of(com), next_committee: keys_of(com), ..Default::default() };
    }
    EpochRecord {
        epoch: e - 1,
        committee: keys_of(com),
        next_committee: keys_of(com),
        parent_hash: g.arr32().into(),
        final_state: num_hash(g),
        final_consensus: ConsensusNumHash::new(g.below(1 << 40), g.arr32().into()),
    }
}

fn batch(g: &mut G, e: Epoch, large: u64) -> Batch {
    let mut b = any_batch(g);
    b.epoch = e;
    if g.chance(1, large) {
        let n = 1000 + g.usize(90_000);
        b.transactions.push(g.blob(n));
    }
    b
}

pub fn outputs(g: &mut G, com: &Com, prev: &EpochRecord, n: usize, large: u64) -> Vec<ConsensusOutput> {
    let e = com.committee.epoch();
    let (mut number, mut parent) =
        if e == 0 { (1, ConsensusHeaderDigest::default()) } else { (prev.final_consensus.number + 1, prev.final_consensus.hash) };
    let mut pool: Vec<Batch> = vec![];
    let mut out = vec![];
    let mut last: Option<CommittedSubDag> = None;
    let mut chain = EpochSeedChainValue::epoch_root(e);
    let mut round = 0;
    for _ in 0..n {
        round += 2 + 2 * g.below(2) as u32;
        let k = 1 + g.usize(3);
        let mut certs = vec![];
        let mut cbs = vec![];
        let mut digests = VecDeque::new();
        for i in 0..k {
            let author = com.members[g.usize(com.n())].id();
            let mut payload: indexmap::IndexMap<BlockHash, WorkerId> = Default::default();
            let mut bs = vec![];
            let nb = if g.chance(1, 3) { 0 } else { g.usize(4) };
            for _ in 0..nb {
                let b = if !pool.is_empty() && g.chance(1, 6) {
                    pool[g.usize(pool.len())].clone()
                } else {
                    let b = batch(g, e, large);
                    pool.push(b.clone());
                    b
                };
                if payload.insert(b.digest(), 0).is_none() {
                    digests.push_back(b.digest());
                    bs.push(b);
                }
            }
            let h = HeaderBuilder::default()
                .author(author.clone())
                .epoch(e)
                .round(if i + 1 == k { round } else { round - 1 })
                .created_at(g.below(1 << 30))
                .payload(payload)
                .latest_execution_block(num_hash(g))
                .seed_signature(some_sig(g))
                .build();
            certs.push(cheap_cert(com, h));
            cbs.push(CertifiedBatch {
                address: com.committee.authority(&author).expect("member").execution_address(),
                batches: bs,
            });
        }
        let leader = certs.last().cloned().expect("leader");
        let mut scores = ReputationScores::new(&com.committee);
        scores.final_of_schedule = g.chance(1, 4);
        for m in &com.members {
            scores.add_score(&m.id(), g.below(9));
        }
        let sd = CommittedSubDag::new(certs, leader, number, scores, last.clone(), chain);
        chain = sd.seed_chain_value();
        last = Some(sd.clone());
        let o = if digests.is_empty() {
            ConsensusOutput::new_with_subdag(sd, parent, number)
        } else {
            ConsensusOutput::new(sd, parent, number, false, digests, cbs)
        };
        parent = o.digest();
        number += 1;
        out.push(o);
    }
    out
}

pub fn epoch_of(g: &mut G, com: Com, prev: EpochRecord, n: usize, large: u64, next: &[BlsPublicKey]) -> Ep {
    let outputs = outputs(g, &com, &prev, n, large);
    let rec = EpochRecord {
        epoch: com.committee.epoch(),
        committee: keys_of(&com),
        next_committee: next.to_vec(),
        parent_hash: if com.committee.epoch() == 0 { EpochDigest::default() } else { prev.digest() },
        final_state: num_hash(g),
        final_consensus: outputs.last().map(|o| o.num_hash()).unwrap_or_default(),
    };
    Ep { com, prev, outputs, rec }
}

/// One epoch on its own.
pub fn one_epoch(g: &mut G, e: Epoch, s: Shape) -> Ep {
    let com = committee(g, 4, 5, e);
    let prev = first_prev(g, &com);
    let next = keys_of(&com);
    epoch_of(g, com, prev, s.outputs, s.large, &next)
}

/// Epochs 0.. with outputs linked through.
pub fn epochs(g: &mut G, n: usize, max_outputs: usize) -> Vec<Ep> {
    let mut com = committee(g, 4, 5, 0);
    let mut prev = first_prev(g, &com);
    let mut out: Vec<Ep> = vec![];
    for e in 0..n {
        let next = committee(g, 4, 5, e as Epoch + 1);
        let k = 1 + g.usize(max_outputs);
        let ep = epoch_of(g, com, prev, k, 40, &keys_of(&next));
        prev = ep.rec.clone();
        com = next;
        out.push(ep);
    }
    out
}

fn e<T: std::fmt::Display>(what: &str) -> impl Fn(T) -> String + '_ {
    move |x| format!("{what}: {x}")
}

pub fn same(a: &ConsensusOutput, b: &ConsensusOutput, what: &str) -> R {
    ensure_eq!(a.number(), b.number(), "{what}: number");
    ensure_eq!(a.digest(), b.digest(), "{what}: digest");
    ensure_eq!(a.batch_digests(), b.batch_digests(), "{what}: batch digests");
    ensure_eq!(a.flatten_batches(), b.flatten_batches(), "{what}: batches per header");
    ensure!(encode(a) == encode(b), "{what}: the output differs");
    Ok(())
}

/// Everything a pack with the first `n` outputs of the epoch answers.
pub async fn check_pack(pack: &ConsensusPack, ep: &Ep, n: usize, what: &str) -> R {
    let s = ep.start();
    ensure_eq!(pack.epoch(), ep.epoch(), "{what}: epoch");
    let mut batches: BTreeMap<BlockHash, Batch> = BTreeMap::new();
    for (i, o) in ep.outputs.iter().enumerate() {
        let k = s + i as u64;
        let d = o.digest();
        let has = pack.contains_consensus_header_number(k).await.map_err(e(what))?;
        ensure_eq!(has, i < n, "{what}: contains number {k} ({n} stored)");
        if i < n {
            let h = pack.consensus_header_by_number(k).await.map_err(e(&format!("{what}: header {k}")))?;
            ensure!(h == o.consensus_header(), "{what}: header {k} differs");
            let got = pack.get_consensus_output(k).await.map_err(e(&format!("{what}: output {k} of {n}")))?;
            same(&got, o, &format!("{what}: output {k}"))?;
            let by = pack.consensus_header_by_digest(d).await;
            ensure!(by.as_ref() == Some(&o.consensus_header()), "{what}: header {k} by digest: {:?}", by.map(|h| h.number));
            ensure!(pack.contains_consensus_header(d).await, "{what}: contains header {k}");
            let bytes = pack.get_consensus_output_bytes(k).await.map_err(e(what))?;
            let dec = pack.decode_output(bytes.clone()).await.map_err(e(what))?;
            same(&dec, o, &format!("{what}: output {k} from its bytes"))?;
            let dec = pack.decode_output_stream(&bytes[..], d).await.map_err(e(what))?;
            same(&dec, o, &format!("{what}: output {k} from its bytes, verified"))?;
            for cb in o.batches() {
                for b in &cb.batches {
                    batches.insert(b.digest(), b.clone());
                }
            }
        } else {
            ensure!(pack.consensus_header_by_number(k).await.is_err(), "{what}: header {k} of {n}");
            ensure!(pack.get_consensus_output(k).await.is_err(), "{what}: output {k} of {n}");
            ensure!(pack.get_consensus_output_bytes(k).await.is_err(), "{what}: bytes of output {k} of {n}");
            ensure!(pack.consensus_header_by_digest(d).await.is_none(), "{what}: header {k} of {n} by digest");
            ensure!(!pack.contains_consensus_header(d).await, "{what}: contains the digest of {k}, which is not stored");
        }
    }
    for k in [0, s.wrapping_sub(1), s + n as u64, u64::MAX] {
        if k < s || k >= s + n as u64 {
            ensure!(pack.consensus_header_by_number(k).await.is_err(), "{what}: header {k}");
            ensure_eq!(pack.contains_consensus_header_number(k).await.map_err(e(what))?, false, "{what}: contains {k}");
        }
    }
    for (d, b) in &batches {
        ensure!(pack.contains_batch(*d).await, "{what}: contains batch {d}");
        ensure!(pack.batch(*d).await.as_ref() == Some(b), "{what}: batch {d}");
    }
    for o in &ep.outputs[n..] {
        for d in o.batch_digests() {
            if !batches.contains_key(d) {
                ensure!(pack.batch(*d).await.is_none(), "{what}: batch {d} of an output that is not stored");
                ensure!(!pack.contains_batch(*d).await, "{what}: contains batch {d} of an output that is not stored");
            }
        }
    }
    let l = pack.latest_consensus_header().await.map_err(e(what))?;
    ensure!(l == n.checked_sub(1).map(|i| ep.outputs[i].consensus_header()), "{what}: latest header {:?}", l.map(|h| h.number));

    let stored = &ep.outputs[..n];
    let mut rounds: HashMap<AuthorityIdentifier, Round> = HashMap::new();
    for o in stored.iter().rev().take(50) {
        for h in o.sub_dag().headers() {
            let r = rounds.entry(h.author().clone()).or_default();
            *r = (*r).max(h.round());
        }
    }
    ensure_eq!(pack.read_last_committed().await.map_err(e(what))?, rounds, "{what}: last committed rounds");
    let fin = stored.iter().rev().find(|o| o.sub_dag().reputation_scores().final_of_schedule).map(|o| o.sub_dag().clone());
    ensure!(pack.read_latest_commit_with_final_reputation_scores().await.map_err(e(what))? == fin, "{what}: final scores");
    let last = stored.last().map_or(3, |o| o.leader_round()) / 2;
    for limit in [last, u32::MAX] {
        let c = RewardsCounter::default();
        c.set_committee(ep.com.committee.clone());
        pack.count_leaders(limit, c.clone()).await.map_err(e(what))?;
        let mut want: BTreeMap<Address, u32> = BTreeMap::new();
        for o in stored.iter().filter(|o| o.leader_round() <= limit) {
            let a = ep.com.committee.authority(o.leader().author()).expect("member").execution_address();
            *want.entry(a).or_default() += 1;
        }
        ensure_eq!(c.get_address_counts(), want, "{what}: leaders up to round {limit}");
    }
    Ok(())
}

/// Number of the epoch's outputs a pack holds.
pub async fn stored(pack: &ConsensusPack, ep: &Ep) -> Result<usize, String> {
    let mut n = 0;
    while pack.contains_consensus_header_number(ep.start() + n as u64).await.map_err(e("contains"))? {
        n += 1;
    }
    Ok(n)
}

pub fn all_digests(ep: &Ep) -> BTreeSet<BlockHash> {
    ep.outputs.iter().flat_map(|o| o.batch_digests().iter().copied()).collect()
}

#[allow(unused)]
pub fn distinct_batches(ep: &Ep) -> HashSet<BlockHash> {
    all_digests(ep).into_iter().collect()
}
