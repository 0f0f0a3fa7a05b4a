//! C01: every node commits the same sequence.

use super::dag::{any_dag, by_digest, order, DagW, Model, Opts};
use crate::consensus::{Bullshark, ConsensusError, ConsensusState, LeaderSchedule, LeaderSwapTable, Outcome};
use std::collections::{BTreeMap, BTreeSet};
use tn_types::*;
use vcore::{ensure, ensure_eq, Budget, Check, G, R};

#[derive(Clone, Copy, Debug)]
pub struct Params {
    pub gc_depth: Round,
    pub window: u32,
    pub bad: u64,
}

pub fn params(g: &mut G) -> Params {
    Params {
        gc_depth: *g.pick(&[50, 4, 6, 10, 16, 3]),
        window: *g.pick(&[60, 1, 2, 3, 5, 8]),
        bad: *g.pick(&[33, 20, 0, 10]),
    }
}

pub fn bullshark(w: &DagW, p: Params) -> Bullshark {
    let schedule = LeaderSchedule::new(w.com.committee.clone(), LeaderSwapTable::default());
    Bullshark::new(w.com.committee.clone(), p.window, schedule, p.bad)
}

/// The members of a sub-DAG, in its order.
pub fn members(by: &BTreeMap<HeaderDigest, usize>, sd: &CommittedSubDag) -> Result<Vec<usize>, String> {
    sd.headers().iter().map(|h| by.get(&h.digest()).copied().ok_or(format!("committed an unknown header {h:?}"))).collect()
}

/// Follow a sequence of commits with the model: each must be what the model commits next.
pub fn judge(w: &DagW, p: Params, seq: &[CommittedSubDag]) -> Result<(), String> {
    let by = by_digest(w);
    let schedule = LeaderSchedule::new(w.com.committee.clone(), LeaderSwapTable::default());
    let mut m = Model::new(w, p.gc_depth);
    let mut seen = BTreeSet::new();
    for (k, sd) in seq.iter().enumerate() {
        let list = members(&by, sd)?;
        let Some((leader, set)) = m.next(&schedule) else {
            return Err(format!("commit {k} ({}) has no support", w.name(*list.last().unwrap_or(&0))));
        };
        let names = |x: &[usize]| x.iter().map(|i| w.name(*i)).collect::<Vec<_>>().join(" ");
        ensure_eq!(list.last().map(|i| w.name(*i)), Some(w.name(leader)), "leader of commit {k}: {}", names(&list));
        let mut sorted = list.clone();
        sorted.sort();
        let want: Vec<usize> = set.iter().copied().collect();
        ensure_eq!(names(&sorted), names(&want), "members of commit {k}");
        for i in &list {
            ensure!(seen.insert(*i), "{} is committed twice", w.name(*i));
        }
        ensure!(
            list.windows(2).all(|x| w.certs[x[0]].round <= w.certs[x[1]].round),
            "commit {k} is not in the order of rounds: {}",
            names(&list)
        );
        m.commit(leader, list);
        let scores = sd.reputation_scores();
        if scores.final_of_schedule {
            schedule.update_leader_swap_table(LeaderSwapTable::new(
                &w.com.committee,
                w.certs[leader].round,
                scores,
                p.bad,
            ));
        }
    }
    Ok(())
}

/// Feed certificates to one node; returns what it commits. After each, a leader of the round before that has its
/// support must have been committed (or its round passed).
pub struct Node {
    pub b: Bullshark,
    pub s: ConsensusState,
    pub seq: Vec<CommittedSubDag>,
    pub got: BTreeSet<usize>,
}

impl Node {
    pub fn new(w: &DagW, p: Params) -> Self {
        let mut s = ConsensusState::new(p.gc_depth);
        s.set_seed_chain(EpochSeedChainValue::epoch_root(w.com.committee.epoch()));
        Self { b: bullshark(w, p), s, seq: vec![], got: BTreeSet::new() }
    }
    pub fn give(&mut self, w: &DagW, i: usize) -> Result<usize, String> {
        let c = &w.certs[i];
        let (outcome, out) = self
            .b
            .process_certificate(&mut self.s, c.cert.clone())
            .map_err(|e| format!("{} with all of its parents there is refused: {}", w.name(i), vcore::clip(&e.to_string(), 200)))?;
        self.got.insert(i);
        ensure_eq!(out.is_empty(), outcome != Outcome::Commit, "outcome {outcome:?} with {} commits", out.len());
        let k = out.len();
        self.seq.extend(out);
        let r = c.round - 1;
        if r >= 2 && r % 2 == 0 {
            let id = self.b.leader_schedule.leader(r).id();
            let a = w.ids.iter().position(|x| *x == id).ok_or("the leader is no member")?;
            if let Some(l) = w.get(r, a).filter(|l| self.got.contains(l)) {
                let votes = (0..w.n())
                    .filter_map(|a| w.get(r + 1, a))
                    .filter(|c| self.got.contains(c) && w.certs[*c].parents.contains(&l))
                    .count();
                let committed = self.seq.last().map_or(0, |s| s.leader_round());
                ensure!(
                    votes < w.validity() || committed >= r,
                    "leader {} has {votes} votes after {} came, and the last commit is of round {committed}",
                    w.name(l),
                    w.name(i)
                );
            }
        }
        Ok(k)
    }
}

fn agree(g: &mut G, hi: usize, rounds: u64) -> R {
    let w = any_dag(g, &Opts { lo: 4, hi, rounds: (3, rounds), cost: 0 });
    let p = params(g);
    let k = g.urange(2, 3);
    let mut seqs: Vec<Vec<CommittedSubDag>> = vec![];
    for node in 0..k {
        let ord = order(g, &w);
        // one node may have seen less so far
        let upto = if g.chance(1, 4) { g.usize(ord.len() + 1) } else { ord.len() };
        let dup = g.chance(1, 4);
        let mut nd = Node::new(&w, p);
        let r: R = (|| {
            for (x, i) in ord[..upto].iter().enumerate() {
                nd.give(&w, *i)?;
                if dup && g.chance(1, 10) {
                    let j = ord[g.usize(x + 1)];
                    let again = nd.b.process_certificate(&mut nd.s, w.certs[j].cert.clone());
                    match again {
                        Ok((_, out)) => nd.seq.extend(out),
                        // its parents may be garbage by now
                        Err(ConsensusError::MissingParent(..) | ConsensusError::MissingParentRound(..)) => {}
                        Err(e) => return Err(format!("{} given again: {e}", w.name(j))),
                    }
                }
            }
            judge(&w, p, &nd.seq)
        })();
        r.map_err(|e| {
            let o: Vec<_> = ord[..upto].iter().map(|i| w.name(*i)).collect();
            format!("node {node}: {e}\n{p:?}\norder: {}\n{}", o.join(" "), w.show())
        })?;
        for other in &seqs {
            let m = other.len().min(nd.seq.len());
            ensure!(other[..m] == nd.seq[..m], "two nodes commit different sequences; {p:?}\n{}", w.show());
        }
        seqs.push(nd.seq);
    }
    let longest = seqs.iter().max_by_key(|s| s.len()).unwrap();
    if longest.iter().any(|s| s.reputation_scores().final_of_schedule) {
        g.class("schedule changed");
    }
    let skipped = longest.windows(2).any(|x| x[1].leader_round() > x[0].leader_round() + 2);
    if skipped {
        g.class("leader passed over");
    }
    if longest.last().is_some_and(|s| s.leader_round() > p.gc_depth + 2) {
        g.class("beyond the garbage horizon");
    }
    let uneven = seqs.iter().any(|s| s.len() < longest.len());
    g.nontrivial_if(longest.len() >= 2 && (skipped || uneven || longest.iter().any(|s| s.headers().len() != w.n() * 2)));
    g.note(|| format!("{p:?}, {} commits\n{}", longest.len(), w.show()));
    Ok(())
}

/// What cannot be ordered is refused and changes nothing that is committed.
fn refused(g: &mut G) -> R {
    let w = any_dag(g, &Opts { lo: 4, hi: 7, rounds: (3, 14), cost: 0 });
    let p = params(g);
    let mut nd = Node::new(&w, p);
    let ord = order(g, &w);
    let mut bad = 0;
    for i in &ord {
        // a certificate whose parents are not all there yet
        if g.chance(1, 6) {
            let ahead: Vec<usize> = (0..w.certs.len())
                .filter(|j| !nd.got.contains(j) && w.certs[*j].parents.iter().any(|p| !nd.got.contains(p)))
                .filter(|j| w.certs[*j].round > nd.s.last_round.gc_round + 1)
                .collect();
            if !ahead.is_empty() {
                let j = ahead[g.usize(ahead.len())];
                let r = nd.b.process_certificate(&mut nd.s, w.certs[j].cert.clone());
                ensure!(r.is_err(), "{} is accepted before its parents; {p:?}\n{}", w.name(j), w.show());
                bad += 1;
            }
        }
        nd.give(&w, *i).map_err(|e| format!("{e}; {p:?}\n{}", w.show()))?;
    }
    judge(&w, p, &nd.seq).map_err(|e| format!("{e}; {p:?}\n{}", w.show()))?;
    // a second certificate of an author for a round
    let last: Vec<usize> = (0..w.certs.len()).filter(|i| w.certs[*i].round > nd.s.last_round.gc_round + 1).collect();
    if !last.is_empty() {
        let j = last[g.usize(last.len())];
        let c = &w.certs[j];
        let o = c.cert.header();
        let h = HeaderBuilder::default()
            .author(o.author().clone())
            .round(o.round())
            .epoch(o.epoch())
            .created_at(*o.created_at() + 1)
            .parents(o.parents().clone())
            .build();
        let twin = vgen::cheap_cert(&w.com, h);
        ensure!(twin.digest() != c.digest, "twin");
        let r = nd.b.process_certificate(&mut nd.s, twin);
        ensure!(matches!(r, Err(ConsensusError::CertificateEquivocation(..))), "a second {} is accepted", w.name(j));
        bad += 1;
    }
    g.nontrivial_if(bad > 1 && nd.seq.len() > 1);
    Ok(())
}

pub const RULE: &str =
    "at least two commits, and a leader passed over, nodes of unequal progress, or a sub-DAG that is not two full rounds";

pub fn check(c: &mut Check) {
    c.assume("no author has two certificates for one round (two quorums would have to sign them)");
    c.sub("agree", Budget::new(60_000, 60).thorough(1_000_000, 1200), |g| agree(g, 7, 26));
    c.sub("agree-large", Budget::new(6_000, 40).thorough(60_000, 900), |g| agree(g, 16, 130));
    c.sub("refused", Budget::new(40_000, 15).thorough(1_000_000, 200), refused);
}
