//! C03: leaders and reputation.

use super::{
    c01::{params, Node, Params},
    dag::{any_dag, order, Opts},
};
use crate::consensus::{LeaderSchedule, LeaderSwapTable};
use std::collections::{BTreeMap, BTreeSet};
use tn_types::*;
use vcore::{ensure, ensure_eq, Budget, Check, G, R};
use vgen::Com;

fn scores(g: &mut G, c: &Com) -> BTreeMap<AuthorityIdentifier, u64> {
    let top = *g.pick(&[60, 1, 5, 20, 300, 60]);
    let style = g.below(5);
    let lazy = g.usize(c.n() + 1);
    c.by_id()
        .iter()
        .enumerate()
        .map(|(i, k)| {
            let v = match style {
                0 => g.below(top + 1),
                // nearly all perform, some do not
                1 => {
                    if i < lazy {
                        g.below(top / 4 + 1)
                    } else {
                        top - g.below(top / 10 + 1)
                    }
                }
                2 => {
                    if g.chance(1, 5) {
                        0
                    } else {
                        top
                    }
                }
                3 => top,
                _ => top.saturating_sub(g.below(4) * (top / 5 + 1)),
            };
            (k.id(), v)
        })
        .collect()
}

fn committee(g: &mut G, hi: usize) -> Com {
    let e = vgen::epoch(g);
    let c = vgen::committee(g, 4, hi, e);
    c
}

fn table_of(c: &Com, s: &BTreeMap<AuthorityIdentifier, u64>, pct: u64, round: Round) -> LeaderSwapTable {
    let mut r = ReputationScores::new(&c.committee);
    for (id, v) in s {
        r.add_score(id, *v);
    }
    r.final_of_schedule = true;
    LeaderSwapTable::new(&c.committee, round, &r, pct)
}

/// Who is replaced and by whom, from what the schedule elects over many rounds.
fn observe(
    c: &Com,
    s: &LeaderSchedule,
    from: Round,
    turns: u32,
) -> Result<BTreeMap<AuthorityIdentifier, BTreeSet<AuthorityIdentifier>>, String> {
    let ids: Vec<_> = c.by_id().iter().map(|k| k.id()).collect();
    let mut m: BTreeMap<AuthorityIdentifier, BTreeSet<AuthorityIdentifier>> = BTreeMap::new();
    for t in 0..turns * c.n() as u32 {
        let round = from + 2 * t;
        let l = s.leader(round).id();
        ensure!(ids.contains(&l), "the leader of round {round} is no member");
        let turn = ids[(round as usize / 2 - 1) % ids.len()].clone();
        m.entry(turn).or_default().insert(l);
    }
    Ok(m)
}

fn table(g: &mut G) -> R {
    let c = committee(g, 24);
    let s = scores(g, &c);
    let pct = *g.pick(&[33, 20, 10, 0, 25, 5]);
    let round = 2 * g.range(1, 500) as Round;
    let sched = LeaderSchedule::new(c.committee.clone(), table_of(&c, &s, pct, round));
    let from = round + 2;
    let turns = 24;
    let seen = observe(&c, &sched, from, turns)?;
    let what = || format!("{pct}%: {:?}", s.values().collect::<Vec<_>>());
    // another node with the same scores elects the same leaders
    let twin = LeaderSchedule::new(c.committee.clone(), table_of(&c, &s, pct, round));
    for t in 0..2 * c.n() as u32 {
        let r = from + 2 * t;
        ensure_eq!(sched.leader(r).id(), twin.leader(r).id(), "round {r}; {}", what());
    }
    // who was replaced
    let bad: BTreeSet<_> = seen.iter().filter(|(k, v)| !v.contains(*k)).map(|(k, _)| k.clone()).collect();
    let good: BTreeSet<_> = bad.iter().flat_map(|b| seen[b].iter().cloned()).collect();
    for (k, v) in &seen {
        ensure!(bad.contains(k) || (v.len() == 1 && v.contains(k)), "a member is replaced only sometimes; {}", what());
    }
    ensure!(bad.is_disjoint(&good), "a replacement is itself to be replaced; {}", what());
    let share = (c.n() * pct as usize / 100).max(1);
    let none = bad.iter().filter(|b| s[*b] == 0).count();
    ensure!(
        bad.len() <= share || none == bad.len(),
        "{} of {} members are replaced, the share is {share}; {}",
        bad.len(),
        c.n(),
        what()
    );
    ensure_eq!(sched.num_of_bad_nodes(), bad.len(), "number of replaced members; {}", what());
    // the replaced are the worst, their replacements the best
    let others = s.iter().filter(|(k, _)| !bad.contains(*k)).map(|(_, v)| *v).min();
    for b in &bad {
        ensure!(others.is_none_or(|o| s[b] < o), "a member with {} is replaced, one with {others:?} is not; {}", s[b], what());
    }
    if !bad.is_empty() {
        ensure!(!good.is_empty(), "replaced by nobody");
        let rest = s.iter().filter(|(k, _)| !bad.contains(*k) && !good.contains(*k)).map(|(_, v)| *v).max();
        // every replacement is eligible for each of the replaced; with enough draws all the good are seen, and nobody
        // outside them scored more than the worst of them
        let worst = good.iter().map(|k| s[k]).min().unwrap();
        let draws = bad.len() * turns as usize;
        if draws > 20 * c.n() {
            ensure!(rest.is_none_or(|r| r <= worst), "a member with {rest:?} replaces nobody while one with {worst} does; {}", what());
        }
        // the best-scoring are always among them: all that replace are at least as good as the average
        let mean = s.values().sum::<u64>() / s.len() as u64;
        ensure!(good.iter().any(|k| s[k] >= mean), "no good replacement; {}", what());
        g.class("members replaced");
        if bad.len() > share {
            g.class("more than the share scored nothing");
        }
    }
    // the exact groups, by a second computation
    let (wb, wg) = groups(&s, pct);
    ensure_eq!(bad, wb, "replaced members; {}", what());
    ensure!(good.is_subset(&wg), "replacements; {}", what());
    g.nontrivial_if(!bad.is_empty());
    g.note(what);
    Ok(())
}

/// The worst and the best scoring members: those two standard deviations or more below the best, as many as the share
/// allows (the limit drops by one deviation while they are too many, to zero at most), and those at most one below the
/// best (the limit drops while they are fewer than the share).
pub fn groups(
    s: &BTreeMap<AuthorityIdentifier, u64>,
    pct: u64,
) -> (BTreeSet<AuthorityIdentifier>, BTreeSet<AuthorityIdentifier>) {
    let n = s.len() as u64;
    let share = ((n * pct / 100) as usize).max(1);
    let hi = *s.values().max().unwrap();
    let lo = *s.values().min().unwrap();
    let mean = s.values().sum::<u64>() / n;
    let var: u64 = s.values().map(|v| v.abs_diff(mean).pow(2)).sum::<u64>() / n;
    let mut sd = 0u64;
    while (sd + 1) * (sd + 1) <= var {
        sd += 1;
    }
    if sd == 0 || hi - lo < (2 * sd).min(hi) {
        return Default::default();
    }
    let mut limit = hi.saturating_sub(2 * sd);
    let below = |l: u64| s.iter().filter(|(_, v)| **v <= l).count();
    while below(limit) > share && limit > 0 {
        limit = limit.saturating_sub(sd);
    }
    let bad: BTreeSet<_> = s.iter().filter(|(_, v)| **v <= limit).map(|(k, _)| k.clone()).collect();
    let mut floor = hi.saturating_sub(sd).max(limit + 1);
    while s.values().filter(|v| **v >= floor).count() < share && floor > limit + 1 {
        floor = floor.saturating_sub(sd).max(limit + 1);
    }
    let good = s.iter().filter(|(_, v)| **v >= floor).map(|(k, _)| k.clone()).collect();
    (bad, good)
}

/// Without a change of schedule everyone leads in turn.
fn rotation(g: &mut G) -> R {
    let c = committee(g, 40);
    let s = LeaderSchedule::new(c.committee.clone(), LeaderSwapTable::default());
    let start = 2 * g.range(1, 1 << 30) as Round;
    let turns = g.range(1, 5) as u32;
    let mut count: BTreeMap<AuthorityIdentifier, u32> = BTreeMap::new();
    for t in 0..turns * c.n() as u32 {
        let l = s.leader(start + 2 * t);
        ensure_eq!(c.committee.authority(&l.id()).map(|a| *a.protocol_key()), Some(*l.protocol_key()), "a member");
        *count.entry(l.id()).or_default() += 1;
    }
    ensure!(count.len() == c.n() && count.values().all(|v| *v == turns), "turns from {start}: {:?}", count.values());
    // whoever builds the committee, and in whatever order
    let mut idx: Vec<usize> = (0..c.n()).collect();
    g.shuffle(&mut idx);
    let mut b = CommitteeBuilder::new(c.committee.epoch());
    for i in idx {
        b.add_authority(c.members[i].pk(), vgen::addr_of(i));
    }
    let other = LeaderSchedule::new(b.build(), LeaderSwapTable::default());
    for t in 0..c.n() as u32 {
        ensure_eq!(s.leader(start + 2 * t).id(), other.leader(start + 2 * t).id(), "leader of {}", start + 2 * t);
    }
    g.nontrivial();
    Ok(())
}

/// The table of scores itself against an ordered map.
fn tally(g: &mut G) -> R {
    let c = committee(g, 12);
    let mut r = ReputationScores::new(&c.committee);
    let mut m: BTreeMap<AuthorityIdentifier, u64> = c.by_id().iter().map(|k| (k.id(), 0)).collect();
    ensure!(!r.final_of_schedule, "new scores are final");
    let n = g.usize(30);
    for _ in 0..n {
        let k = if g.chance(1, 10) { c.outsider(g).id() } else { c.members[g.usize(c.n())].id() };
        let v = *g.pick(&[1, 1, 1, 0, 5, 1000]);
        r.add_score(&k, v);
        *m.entry(k).or_default() += v;
        ensure!(r.scores_per_authority == m, "scores {:?}, expected {m:?}", r.scores_per_authority);
        ensure_eq!(r.total_authorities(), m.len() as u64, "number of members");
        ensure_eq!(r.all_zero(), m.values().all(|v| *v == 0), "nobody scored");
    }
    let list = r.authorities_by_score_desc();
    let mut want: Vec<_> = m.into_iter().collect();
    want.sort_by(|a, b| b.1.cmp(&a.1).then(b.0.cmp(&a.0)));
    ensure!(list == want, "order by score: {:?}", list.iter().map(|x| x.1).collect::<Vec<_>>());
    r.final_of_schedule = g.bool();
    let back: ReputationScores = try_decode(&encode(&r)).map_err(|e| format!("{e}"))?;
    ensure!(back == r, "decoded differently");
    g.nontrivial_if(n > 3);
    Ok(())
}

/// Scores and leaders along generated histories.
fn history(g: &mut G, hi: usize, rounds: u64) -> R {
    let w = any_dag(g, &Opts { lo: 4, hi, rounds: (6, rounds), cost: 0 });
    let p = Params { window: *g.pick(&[3, 1, 2, 4, 5, 8]), ..params(g) };
    let ord = order(g, &w);
    let mut nd = Node::new(&w, p);
    for i in ord {
        nd.give(&w, i)?;
    }
    let window = p.window as u64;
    let mut expected: BTreeMap<AuthorityIdentifier, u64> = w.ids.iter().map(|i| (i.clone(), 0)).collect();
    let mut current: (BTreeSet<AuthorityIdentifier>, BTreeSet<AuthorityIdentifier>) = Default::default();
    let mut prev: Option<&CommittedSubDag> = None;
    let mut changes = 0;
    for sd in &nd.seq {
        let at = || format!("commit of round {}; {p:?}\n{}", sd.leader_round(), w.show());
        let round = sd.leader_round();
        // the leader's position in the sequence of leader rounds (of all epochs) gives the place in the window
        let place = (((w.com.committee.epoch() as u64) << 31) + round as u64 / 2) % window;
        let turn = w.ids[(round as usize / 2 - 1) % w.n()].clone();
        let leader = sd.leader().author().clone();
        if current.0.contains(&turn) {
            ensure!(current.1.contains(&leader), "a badly scoring leader is not replaced by a well scoring member: {}", at());
            changes += 1;
        } else {
            ensure_eq!(leader, turn, "leader: {}", at());
        }
        if place == 0 {
            expected.values_mut().for_each(|v| *v = 0);
        }
        if let Some(p) = prev {
            for h in sd.headers() {
                if h.round() == p.leader_round() + 1 && h.parents().contains(&p.leader().digest()) {
                    *expected.get_mut(h.author()).unwrap() += 1;
                }
            }
        }
        let got = sd.reputation_scores();
        ensure!(
            got.scores_per_authority == expected,
            "scores {:?}, expected {:?}: {}",
            got.scores_per_authority.values().collect::<Vec<_>>(),
            expected.values().collect::<Vec<_>>(),
            at()
        );
        ensure_eq!(got.final_of_schedule, place == window - 1, "final of its window: {}", at());
        if got.final_of_schedule {
            current = groups(&expected, p.bad);
        }
        prev = Some(sd);
    }
    // a node that learns the last final scores elects the same leaders from there
    if let Some(sd) = nd.seq.iter().rev().find(|s| s.reputation_scores().final_of_schedule) {
        let s = LeaderSchedule::new(
            w.com.committee.clone(),
            LeaderSwapTable::new(&w.com.committee, sd.leader_round(), sd.reputation_scores(), p.bad),
        );
        let from = nd.seq.last().unwrap().leader_round() + 2;
        for t in 0..w.n() as u32 {
            let r = from + 2 * t;
            ensure_eq!(s.leader(r).id(), nd.b.leader_schedule.leader(r).id(), "leader of round {r}\n{}", w.show());
        }
    }
    if changes > 0 {
        g.class("a leader was replaced");
    }
    g.nontrivial_if(nd.seq.iter().any(|s| s.reputation_scores().final_of_schedule) && nd.seq.len() > 2);
    Ok(())
}

pub const RULE: &str = "a member was replaced by the score table, or the history closed a scoring window";

pub fn check(c: &mut Check) {
    c.assume("scoring windows are counted in leader rounds: a window whose last leader is passed over closes none");
    c.assume("members that all scored nothing cannot be told apart and may be replaced together, beyond the share");
    c.sub("table", Budget::new(20_000, 25).thorough(1_000_000, 300), table);
    c.sub("rotation", Budget::new(5_000, 8), rotation);
    c.sub("tally", Budget::new(20_000, 8), tally);
    c.sub("history", Budget::new(30_000, 40).thorough(1_000_000, 600), |g| history(g, 7, 50));
    c.sub("history-large", Budget::new(1_500, 25).thorough(60_000, 600), |g| history(g, 14, 160));
}
