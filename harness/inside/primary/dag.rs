//! Generated DAGs of certificates, and orders of delivery that respect causality.

use crate::consensus::LeaderSchedule;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use tn_types::*;
use vcore::G;
use vgen::Com;

/// One certificate of a DAG.
#[derive(Clone, Debug)]
pub struct C {
    pub cert: Certificate,
    pub digest: HeaderDigest,
    pub round: Round,
    /// index of the author, in the order of identities
    pub author: usize,
    /// indexes of its parents
    pub parents: Vec<usize>,
}

#[derive(Clone, Debug)]
pub struct DagW {
    pub com: Com,
    /// identities in order
    pub ids: Vec<AuthorityIdentifier>,
    pub certs: Vec<C>,
    /// certificate by round (from 0, which is empty) and author
    pub at: Vec<Vec<Option<usize>>>,
    pub genesis: Vec<Certificate>,
}

pub struct Opts {
    pub lo: usize,
    pub hi: usize,
    pub rounds: (u64, u64),
    pub cost: u64,
}

impl DagW {
    pub fn n(&self) -> usize {
        self.ids.len()
    }
    pub fn rounds(&self) -> Round {
        self.at.len() as Round - 1
    }
    pub fn validity(&self) -> usize {
        self.n().div_ceil(3)
    }
    pub fn get(&self, round: Round, author: usize) -> Option<usize> {
        *self.at.get(round as usize)?.get(author)?
    }
    pub fn name(&self, i: usize) -> String {
        format!("{}{}", (b'a' + self.certs[i].author as u8) as char, self.certs[i].round)
    }
    pub fn index(&self, d: &HeaderDigest) -> Option<usize> {
        self.certs.iter().position(|c| c.digest == *d)
    }
    pub fn map(&self) -> HashMap<HeaderDigest, usize> {
        self.certs.iter().enumerate().map(|(i, c)| (c.digest, i)).collect()
    }
    /// text of the whole DAG
    pub fn show(&self) -> String {
        let mut s = format!("{} members\n", self.n());
        for i in 0..self.certs.len() {
            let ps: Vec<_> = self.certs[i].parents.iter().map(|p| self.name(*p)).collect();
            s += &format!("{}: {}\n", self.name(i), ps.join(" "));
        }
        s
    }
    pub fn push(&mut self, cert: Certificate, author: usize, parents: Vec<usize>) -> usize {
        let i = self.certs.len();
        let round = cert.round();
        while self.at.len() <= round as usize {
            self.at.push(vec![None; self.n()]);
        }
        self.at[round as usize][author] = Some(i);
        self.certs.push(C { digest: cert.digest(), cert, round, author, parents });
        i
    }
}

/// The header of one certificate.
fn header(g: &mut G, w: &DagW, round: Round, author: usize, parents: &[usize], style: &Style) -> Header {
    let ps: BTreeSet<HeaderDigest> = if round == 1 {
        w.genesis.iter().map(|c| c.digest()).collect()
    } else {
        parents.iter().map(|p| w.certs[*p].digest).collect()
    };
    let mut b = HeaderBuilder::default()
        .author(w.ids[author].clone())
        .round(round)
        .epoch(w.com.committee.epoch())
        .parents(ps)
        .created_at(style.base + round as u64 * style.step + if style.jitter == 0 { 0 } else { g.below(style.jitter) });
    if style.seeds {
        b = b.seed_signature(vgen::some_sig(g));
    }
    b.build()
}

struct Style {
    base: u64,
    step: u64,
    jitter: u64,
    seeds: bool,
}

/// A DAG in which every certificate has a quorum of parents of the round before and no author has two in a round.
pub fn any_dag(g: &mut G, o: &Opts) -> DagW {
    let epoch = vgen::epoch(g);
    let com = vgen::committee(g, o.lo, o.hi, epoch);
    let rounds = g.range(o.rounds.0, o.rounds.1) as Round;
    // how much the DAG lacks
    let n = com.n();
    let quorum = com.quorum();
    let ids: Vec<_> = com.by_id().iter().map(|k| k.id()).collect();
    let genesis = Certificate::genesis(&com.committee);
    let mut w = DagW { com, ids, certs: vec![], at: vec![vec![None; n]], genesis };
    let style = Style {
        base: g.below(1000),
        step: g.below(4),
        jitter: *g.pick(&[0, 3, 20]),
        seeds: g.chance(3, 4),
    };
    // presence and popularity (in percent) of each author, changing now and then
    let kinds: [u64; 5] = [100, 90, 60, 20, 0];
    let mut present = vec![100u64; n];
    let mut liked = vec![100u64; n];
    let policy_change = g.range(3, 30);
    // what parents certificates of the DAG prefer
    let mut policy = 0;
    for r in 1..=rounds {
        if r == 1 || g.chance(1, policy_change) {
            for a in 0..n {
                present[a] = kinds[g.weighted(&[6, 2, 1, 1, 1])];
                liked[a] = kinds[g.weighted(&[6, 2, 1, 1, 1])];
            }
            policy = g.weighted(&[3, 3, 2, 1]);
        }
        let mut here: Vec<usize> = (0..n).filter(|a| present[*a] == 100 || g.below(100) < present[*a]).collect();
        if here.len() < quorum {
            let mut rest: Vec<usize> = (0..n).filter(|a| !here.contains(a)).collect();
            g.shuffle(&mut rest);
            here.extend(rest.into_iter().take(quorum - here.len()));
            here.sort();
        }
        let before: Vec<usize> = if r == 1 { vec![] } else { w.at[r as usize - 1].iter().flatten().copied().collect() };
        let base_leader = ((r.max(2) as usize - 1) / 2).saturating_sub(1) % n;
        for a in here {
            let mut ps = before.clone();
            if r > 1 {
                // candidates to leave out, in order
                let mut out: Vec<usize> = match policy {
                    0 => vec![],
                    1 => ps.iter().copied().filter(|p| g.below(100) >= liked[w.certs[*p].author]).collect(),
                    2 => ps.iter().copied().filter(|_| g.bool()).collect(),
                    _ => ps.clone(),
                };
                g.shuffle(&mut out);
                if r % 2 == 1 && policy > 0 && g.chance(1, 2) {
                    // leave out the leader of the round before
                    if let Some(l) = w.at[r as usize - 1][base_leader] {
                        out.retain(|p| *p != l);
                        out.insert(0, l);
                    }
                }
                for p in out {
                    if ps.len() > quorum {
                        ps.retain(|x| *x != p);
                    }
                }
            }
            let h = header(g, &w, r, a, &ps, &style);
            let cert = vgen::cheap_cert(&w.com, h);
            w.push(cert, a, ps);
        }
    }
    w
}

/// An order in which every certificate comes after its parents.
pub fn order(g: &mut G, w: &DagW) -> Vec<usize> {
    let n = w.n();
    let mut missing: Vec<usize> = w.certs.iter().map(|c| c.parents.len()).collect();
    let mut children: Vec<Vec<usize>> = vec![vec![]; w.certs.len()];
    for (i, c) in w.certs.iter().enumerate() {
        for p in &c.parents {
            children[*p].push(i);
        }
    }
    let mut ready: Vec<usize> = (0..w.certs.len()).filter(|i| missing[*i] == 0).collect();
    // authors whose certificates this node gets late, for some rounds
    let held: Vec<bool> = (0..n).map(|_| g.chance(1, 4)).collect();
    let style = g.weighted(&[2, 2, 2, 1]);
    let strict = g.chance(1, 2);
    let mut res = vec![];
    while !ready.is_empty() {
        let cand: Vec<usize> = if style > 0 && (strict || !g.chance(1, 10)) {
            let c: Vec<usize> = (0..ready.len()).filter(|k| !held[w.certs[ready[*k]].author]).collect();
            if c.is_empty() {
                (0..ready.len()).collect()
            } else {
                c
            }
        } else {
            (0..ready.len()).collect()
        };
        let k = match style {
            // round by round
            0 => *cand.iter().min_by_key(|k| (w.certs[ready[**k]].round, ready[**k])).unwrap(),
            1 => {
                let lo = cand.iter().map(|k| w.certs[ready[*k]].round).min().unwrap();
                let c: Vec<usize> = cand.iter().copied().filter(|k| w.certs[ready[*k]].round == lo).collect();
                c[g.usize(c.len())]
            }
            // anything
            2 => cand[g.usize(cand.len())],
            // as high as possible
            _ => {
                let hi = cand.iter().map(|k| w.certs[ready[*k]].round).max().unwrap();
                let c: Vec<usize> = cand.iter().copied().filter(|k| w.certs[ready[*k]].round == hi).collect();
                c[g.usize(c.len())]
            }
        };
        let i = ready.remove(k);
        res.push(i);
        for c in &children[i] {
            missing[*c] -= 1;
            if missing[*c] == 0 {
                ready.push(*c);
            }
        }
        ready.sort();
    }
    res
}

/// What the next commit after `committed` must be, from everything that is known: the leader and the members of its
/// sub-DAG (sorted). The oldest leader with support is taken, and from it the oldest leader it reaches.
pub struct Model<'a> {
    pub w: &'a DagW,
    pub known: Vec<bool>,
    pub committed: Round,
    pub last: Vec<Round>,
    pub gc_depth: Round,
}

impl<'a> Model<'a> {
    pub fn new(w: &'a DagW, gc_depth: Round) -> Self {
        Self { w, known: vec![true; w.certs.len()], committed: 0, last: vec![0; w.n()], gc_depth }
    }
    pub fn leader_of(&self, s: &LeaderSchedule, round: Round) -> Option<usize> {
        let id = s.leader(round).id();
        let a = self.w.ids.iter().position(|x| *x == id)?;
        self.w.get(round, a).filter(|i| self.known[*i])
    }
    pub fn supported(&self, i: usize) -> bool {
        let r = self.w.certs[i].round;
        let votes = (0..self.w.n())
            .filter_map(|a| self.w.get(r + 1, a))
            .filter(|c| self.known[*c] && self.w.certs[*c].parents.contains(&i))
            .count();
        votes >= self.w.validity()
    }
    pub fn reaches(&self, from: usize, to: usize) -> bool {
        let mut level: BTreeSet<usize> = [from].into();
        while let Some(f) = level.iter().next() {
            if level.contains(&to) {
                return true;
            }
            if self.w.certs[*f].round <= self.w.certs[to].round {
                return false;
            }
            level = level.iter().flat_map(|i| self.w.certs[*i].parents.iter().copied()).collect();
        }
        false
    }
    /// the next commit
    pub fn next(&self, s: &LeaderSchedule) -> Option<(usize, BTreeSet<usize>)> {
        let mut r = self.committed + 2;
        while r < self.w.rounds() {
            if let Some(l) = self.leader_of(s, r).filter(|l| self.supported(*l)) {
                // leaders before it without support of their own
                let mut head = l;
                let mut q = r;
                while q > self.committed + 2 {
                    q -= 2;
                    if let Some(p) = self.leader_of(s, q) {
                        if self.reaches(head, p) {
                            head = p;
                        }
                    }
                }
                return Some((head, self.sub_dag(head)));
            }
            r += 2;
        }
        None
    }
    /// the leader and what it newly brings
    pub fn sub_dag(&self, leader: usize) -> BTreeSet<usize> {
        let horizon = self.w.certs[leader].round.saturating_sub(self.gc_depth);
        let mut res = BTreeSet::new();
        let mut todo = vec![leader];
        while let Some(i) = todo.pop() {
            if res.insert(i) {
                todo.extend(self.w.certs[i].parents.iter().copied().filter(|p| {
                    let c = &self.w.certs[*p];
                    c.round > horizon && c.round > self.last[c.author]
                }));
            }
        }
        res
    }
    pub fn commit(&mut self, leader: usize, members: impl IntoIterator<Item = usize>) {
        self.committed = self.w.certs[leader].round;
        for i in members {
            let c = &self.w.certs[i];
            self.last[c.author] = self.last[c.author].max(c.round);
        }
    }
}

pub fn by_digest(w: &DagW) -> BTreeMap<HeaderDigest, usize> {
    w.certs.iter().enumerate().map(|(i, c)| (c.digest, i)).collect()
}
