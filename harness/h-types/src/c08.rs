//! C08 (types): the seed chain, seed signatures and commit times.

use tn_types::*;
use vcore::{ensure, ensure_eq, Budget, Check, G, R};
use vgen::*;

pub const RULE: &str = "a chain of at least two folded leaders, or a signature checked against a message differing in one field";

pub fn ref_root(epoch: Epoch) -> B256 {
    let mut p = b"TN_EPOCH_SEED_ROOT_V1".to_vec();
    p.extend_from_slice(&epoch.to_le_bytes());
    keccak256(p)
}

pub fn ref_fold(prev: B256, round: Round, sig: &BlsSignature) -> B256 {
    let mut p = b"TN_EPOCH_SEED_FOLD_V1".to_vec();
    p.extend_from_slice(prev.as_slice());
    p.extend_from_slice(&round.to_le_bytes());
    p.extend_from_slice(&sig.to_bytes());
    keccak256(p)
}

#[derive(Clone, Debug, PartialEq)]
struct Leader {
    round: Round,
    sig: BlsSignature,
    at: u64,
}

fn seeds(epoch: Epoch, c: &Com, leaders: &[Leader]) -> Result<Vec<CommittedSubDag>, String> {
    let mut chain = EpochSeedChainValue::epoch_root(epoch);
    let mut prev: Option<CommittedSubDag> = None;
    let mut out = vec![];
    for (i, l) in leaders.iter().enumerate() {
        let mk = |k: usize, seed: BlsSignature| {
            let h = HeaderBuilder::default()
                .author(c.members[k % c.n()].id())
                .epoch(epoch)
                .round(l.round)
                .created_at(l.at)
                .seed_signature(seed)
                .build();
            cheap_cert(c, h)
        };
        let leader = mk(i, l.sig);
        // other certificates carry other seeds, which play no part
        let certs = vec![mk(i + 1, keys()[7].0.sign(b"other")), leader.clone()];
        let sd = CommittedSubDag::new(certs, leader, i as u64 + 1, ReputationScores::default(), prev.clone(), chain);
        chain = sd.seed_chain_value();
        prev = Some(sd.clone());
        out.push(sd);
    }
    Ok(out)
}

fn chain(g: &mut G) -> R {
    let e = epoch(g);
    let c = committee(g, 4, 4, e);
    let leaders: Vec<Leader> =
        g.vec(1, 12, 5, |g| Leader { round: g.num32(), sig: some_sig(g), at: g.below(50) });
    g.nontrivial_if(leaders.len() >= 2);
    g.note(|| format!("epoch {e}, leaders {:?}", leaders.iter().map(|l| (l.round, l.at)).collect::<Vec<_>>()));
    let a = seeds(e, &c, &leaders)?;
    let mut cur = ref_root(e);
    let mut ts = 0u64;
    for (l, sd) in leaders.iter().zip(&a) {
        cur = ref_fold(cur, l.round, &l.sig);
        ensure_eq!(sd.randomness(), cur, "seed of the sub-DAG of round {}", l.round);
        ensure_eq!(sd.seed_chain_value().into_inner(), cur);
        ts = ts.max(l.at);
        ensure_eq!(sd.commit_timestamp(), ts, "commit time");
        let back: CommittedSubDag = try_decode(&encode(sd)).map_err(|e| e.to_string())?;
        ensure_eq!(back.randomness(), cur, "seed after decoding");
        ensure_eq!(EpochSeedChainValue::from_committed(back.randomness()), sd.seed_chain_value());
        let out = ConsensusOutput::new_with_subdag(sd.clone(), Default::default(), 1);
        ensure_eq!(out.committee_shuffle_seed(), cur, "shuffle seed of the output");
    }
    // any difference shows
    let mut other = leaders.clone();
    let mut oe = e;
    match g.below(5) {
        0 => {
            let (i, j) = (g.usize(other.len()), g.usize(other.len()));
            other.swap(i, j);
        }
        1 => {
            let i = g.usize(other.len());
            other[i].round = other[i].round.wrapping_add(1 + g.below(300) as u32);
        }
        2 => {
            let i = g.usize(other.len());
            other[i].sig = some_sig(g);
        }
        3 => oe = e.wrapping_add(1 + g.below(300) as u32),
        _ => {
            let i = g.usize(other.len());
            let l = other[i].clone();
            other.insert(i, l);
        }
    }
    let co = committee(g, 4, 4, oe);
    let b = seeds(oe, &co, &other)?;
    let same = oe == e
        && other.len() == leaders.len()
        && other.iter().zip(&leaders).all(|(a, b)| a.round == b.round && a.sig.to_bytes() == b.sig.to_bytes());
    ensure!(
        (a.last().map(|s| s.randomness()) == b.last().map(|s| s.randomness())) == same,
        "histories equal: {same}, but seeds {:?} and {:?}",
        a.last().map(|s| s.randomness()),
        b.last().map(|s| s.randomness())
    );
    Ok(())
}

fn seed_signature(g: &mut G) -> R {
    let (e, r) = (g.num32(), g.num32());
    let prior: EpochDigest = g.arr32().into();
    let k = &keys()[g.usize(KEYS)];
    let m = EpochSeedMessage::new(e, r, prior);
    let s = m.sign(k);
    ensure!(m.verify(&s, &k.pk()), "a genuine seed signature does not verify");
    let back = BlsSignature::from_bytes(&s.to_bytes()).map_err(|e| e.to_string())?;
    ensure!(EpochSeedMessage::new(e, r, prior).verify(&back, &k.pk()));
    g.nontrivial();
    let d = 1 + g.below(u32::MAX as u64 - 1) as u32;
    let (m2, pk) = match g.below(5) {
        0 => (EpochSeedMessage::new(e.wrapping_add(d), r, prior), k.pk()),
        1 => (EpochSeedMessage::new(e, r.wrapping_add(d), prior), k.pk()),
        2 => {
            let mut b: [u8; 32] = B256::from(prior).0;
            b[g.usize(32)] ^= 1 << g.below(8);
            (EpochSeedMessage::new(e, r, b.into()), k.pk())
        }
        3 if e != r => (EpochSeedMessage::new(r, e, prior), k.pk()),
        _ => {
            let o = &keys()[(keys().iter().position(|x| x.pk() == k.pk()).expect("key") + 1 + g.usize(KEYS - 1)) % KEYS];
            (m, o.pk())
        }
    };
    if let Some(o) = off_group_sig(&s, g.usize(6)) {
        ensure!(!m.verify(&o, &k.pk()), "two seed signatures of one author verify");
    }
    ensure!(!m2.verify(&s, &pk), "a seed signature verifies for another epoch, round, record or key");
    // the same content signed for another purpose
    let plain = k.request_signature_direct(&encode(&to_intent_message(m)));
    ensure!(!m.verify(&plain, &k.pk()), "a signature for another purpose verifies as seed signature");
    Ok(())
}

pub fn check_types(c: &mut Check) {
    c.sub("chain", Budget::new(60_000, 8), chain);
    c.sub("seed-signature", Budget::new(20_000, 8), seed_signature);
}

pub fn check(c: &mut Check) {
    check_types(c);
}
