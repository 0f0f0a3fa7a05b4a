//! C09: what a validator proposes.

use super::{
    c02::{bus, config_with, settle},
    db::{table, CrashDb},
    handler::paused,
};
use crate::{
    consensus::{LeaderSchedule, LeaderSwapTable},
    proposer::{OurDigestMessage, Proposer},
    ConsensusBus,
};
use std::{
    collections::{BTreeMap, BTreeSet},
    time::Duration,
};
use tn_config::ConsensusConfig;
use tn_storage::{tables::LastProposed, ProposerStore};
use tn_types::*;
use tokio::sync::oneshot;
use vcore::{ensure, ensure_eq, Budget, Check, G, R};
use vgen::*;

pub const RULE: &str = "at least three headers proposed and batches given, with a header passed over, a jump of rounds or a restart";

fn s<T: std::fmt::Display>(what: &str) -> impl Fn(T) -> String + '_ {
    move |x| format!("{what}: {x}")
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum At {
    /// given, not proposed yet (or again)
    Waiting { again: bool },
    /// in the header of this round
    In(Round),
    /// in a header that was committed
    Done,
    /// given to an earlier life of the node
    Lost,
}

struct W {
    com: Com,
    me: usize,
    cfg: ConsensusConfig<CrashDb>,
    db: CrashDb,
    max: usize,
    /// how long the disk takes, in ms
    slow: u64,
    /// every header sent, by round
    sent: BTreeMap<Round, Header>,
    committed: BTreeSet<Round>,
    digests: BTreeMap<BlockHash, (usize, At)>,
    order: Vec<BlockHash>,
    certs: BTreeMap<(Round, usize), Certificate>,
    /// highest round of which parents were given, in any life
    top: Round,
    /// parents given in this life
    given: BTreeMap<Round, Vec<HeaderDigest>>,
    /// headers of this life
    mine: BTreeSet<Round>,
    /// highest round told, even without parents
    told: Round,
    again: usize,
    new: usize,
    base: TimestampSec,
}

impl W {
    fn cert(&mut self, g: &mut G, round: Round, a: usize) -> Certificate {
        if let Some(c) = self.certs.get(&(round, a)) {
            return c.clone();
        }
        let before: Vec<HeaderDigest> =
            (0..self.com.n()).filter_map(|b| self.certs.get(&(round.checked_sub(1)?, b)).map(|c| c.digest())).collect();
        let parents: BTreeSet<_> = before.into_iter().filter(|_| g.chance(3, 4)).collect();
        let mut h = HeaderBuilder::default()
            .author(self.com.by_id()[a].id())
            .round(round)
            .epoch(self.com.committee.epoch())
            .created_at(self.base)
            .parents(parents)
            .build();
        if a == self.me {
            if let Some(own) = self.sent.get(&round) {
                h = own.clone();
            }
        } else if g.chance(1, 20) {
            h = HeaderBuilder::default()
                .author(self.com.by_id()[a].id())
                .round(round)
                .epoch(self.com.committee.epoch())
                .created_at(now() + 1 + g.below(3))
                .build();
        }
        let c = cheap_cert(&self.com, h);
        self.certs.insert((round, a), c.clone());
        c
    }

    fn waiting(&self) -> usize {
        self.digests.values().filter(|(_, a)| matches!(a, At::Waiting { .. })).count()
    }

    /// A header came out.
    fn header(&mut self, h: Header) -> R {
        let (r, what) = (h.round(), format!("header of round {}", h.round()));
        let what = what.as_str();
        ensure_eq!(h.author(), &self.com.by_id()[self.me].id(), "{what}: author");
        ensure_eq!(h.epoch(), self.com.committee.epoch(), "{what}: epoch");
        if let Some(old) = self.sent.get(&r) {
            ensure_eq!(h, *old, "{what}: two headers for one round");
            let last = *self.sent.keys().last().unwrap_or(&0);
            ensure_eq!(r, last, "{what} is proposed again, not the last");
            self.again += 1;
            if self.mine.insert(r) {
                // from an earlier life: its batches are known again
                for d in h.payload().keys() {
                    if let Some((_, at)) = self.digests.get_mut(d) {
                        if *at == At::Lost && !self.committed.contains(&r) {
                            *at = At::In(r);
                        }
                    }
                }
            }
            return Ok(());
        }
        if let Some(last) = self.sent.keys().last() {
            ensure!(r > *last, "{what}: proposed after that of round {last}");
        }
        self.new += 1;
        let given = self.given.get(&(r - 1)).cloned().unwrap_or_default();
        // a header that waits, for the time of a parent or the disk, takes nothing new meanwhile
        let waits = self.slow > 0 || self.certs.values().any(|c| given.contains(&c.digest()) && *c.header().created_at() > self.base);
        let got = h.parents().len();
        let want: BTreeSet<_> = if waits { given.iter().take(got.max(self.com.quorum())).copied().collect() } else { given.iter().copied().collect() };
        ensure_eq!(h.parents(), &want, "{what}: parents, of {} given", given.len());
        let payload: Vec<BlockHash> = h.payload().keys().copied().collect();
        let waiting = self.waiting();
        ensure!(payload.len() == waiting.min(self.max) || waits && payload.len() < waiting.min(self.max), "{what}: {} batches, of {waiting} waiting", payload.len());
        let mut last_fresh = None;
        for d in &payload {
            let Some((n, at)) = self.digests.get_mut(d) else {
                return Err(format!("{what}: an unknown batch"));
            };
            match *at {
                At::Waiting { again } => {
                    if !again {
                        ensure!(last_fresh < Some(*n), "{what}: batches out of order: {n} after {last_fresh:?}");
                        last_fresh = Some(*n);
                    }
                }
                at => return Err(format!("{what}: batch {n} is {at:?} already")),
            }
            *at = At::In(r);
        }
        if let Some(f) = last_fresh {
            let skipped = self.digests.values().find(|(n, a)| *n < f && *a == At::Waiting { again: false });
            ensure!(skipped.is_none(), "{what}: batch {skipped:?} is overtaken by batch {f}");
        }
        let newest = self.certs.values().filter(|c| want.contains(&c.digest())).map(|c| *c.header().created_at()).max();
        if self.base == newest.unwrap_or(0) {
            ensure!(*h.created_at() >= self.base, "{what}: older than its parents");
        }
        ensure_eq!(h.seed_signature().is_some(), forks::seed_signature_active(h.epoch()), "{what}: seed signature");
        if let Some(sig) = h.seed_signature() {
            let m = EpochSeedMessage::new(h.epoch(), r, self.cfg.prior_epoch_record());
            ensure!(m.verify(sig, &self.com.by_id()[self.me].pk()), "{what}: the seed signature is not of this round");
        }
        // it survives a stop from now on
        let stored = self.db.disk().get_last_proposed().map_err(s("stored header"))?;
        ensure!(stored.as_ref().is_some_and(|x| *x == h || x.round() > r), "{what}: the header stored when it is sent: {stored:?}");
        self.mine.insert(r);
        self.sent.insert(r, h);
        Ok(())
    }
}

struct Life {
    cb: ConsensusBus,
    tasks: TaskManager,
    rx: Box<dyn Headers>,
    early: bool,
}

trait Headers {
    fn next(&mut self) -> Option<Header>;
}

impl<T: TnReceiver<Header>> Headers for T {
    fn next(&mut self) -> Option<Header> {
        self.try_recv().ok()
    }
}

fn start(w: &W, primed: Round) -> Life {
    let cb = bus();
    cb.app().committed_round_updates().send_replace(primed);
    cb.app().primary_round_updates().send_replace(primed);
    let rx = cb.subscribe_headers();
    let tasks = TaskManager::default();
    let schedule = LeaderSchedule::new(w.com.committee.clone(), LeaderSwapTable::default());
    let p = Proposer::new(w.cfg.clone(), w.com.by_id()[w.me].id(), cb.clone(), schedule, tasks.get_spawner());
    p.spawn(&tasks);
    Life { cb, tasks, rx: Box::new(rx), early: false }
}

async fn look(w: &mut W, l: &mut Life) -> R {
    loop {
        settle(12).await;
        let mut any = false;
        while let Some(h) = l.rx.next() {
            any = true;
            w.header(h)?;
            settle(4).await;
        }
        if w.slow > 0 {
            tokio::time::sleep(Duration::from_millis(w.slow + 1)).await;
            settle(12).await;
            while let Some(h) = l.rx.next() {
                any = true;
                w.header(h)?;
            }
        }
        if !any {
            return Ok(());
        }
    }
}

async fn parents(w: &mut W, l: &mut Life, g: &mut G, round: Round, few: bool) -> R {
    let n = w.com.n();
    let mut who: Vec<usize> = (0..n).filter(|a| *a != w.me || w.sent.contains_key(&round)).collect();
    g.shuffle(&mut who);
    let quorum = w.com.quorum();
    let have = w.given.get(&round).cloned().unwrap_or_default();
    let who: Vec<usize> = who.into_iter().filter(|a| !w.certs.get(&(round, *a)).is_some_and(|c| have.contains(&c.digest()))).collect();
    // a quorum first, later one by one
    let list: Vec<usize> = if few { vec![] } else if have.is_empty() { who.into_iter().take(quorum).collect() } else { who.into_iter().take(1).collect() };
    if !few && list.is_empty() {
        return Ok(());
    }
    let mut certs = vec![];
    for a in list {
        certs.push(w.cert(g, round, a));
    }
    let set = w.given.entry(round).or_default();
    set.extend(certs.iter().map(|c| c.digest()));
    w.told = w.told.max(round);
    if !certs.is_empty() {
        w.top = w.top.max(round);
    }
    l.cb.parents().send((certs, round)).await.map_err(s("parents"))?;
    look(w, l).await
}

fn proposals(g: &mut G) -> R {
    let epoch = g.below(3) as Epoch;
    let com = committee(g, 4, 7, epoch);
    let me = g.usize(com.n());
    let max = *g.pick(&[10, 1, 3, 10]);
    let threshold = g.urange(1, max);
    let (min_delay, max_delay) = *g.pick(&[(500, 1000), (100, 3000), (1, 400), (1000, 1000)]);
    let db = CrashDb::default();
    let slow = *g.pick(&[0, 0, 2, 7]);
    db.slow(slow);
    let edit = move |c: &mut tn_config::Config, _: &mut tn_config::NetworkConfig| {
        c.parameters.min_header_delay = Duration::from_millis(min_delay);
        c.parameters.max_header_delay = Duration::from_millis(max_delay);
        c.parameters.header_num_of_batches_threshold = threshold;
        c.parameters.max_header_num_of_batches = max;
    };
    let cfg = config_with(&com, 50, db.clone(), me, edit)?;
    let genesis = Certificate::genesis(&com.committee).iter().map(|c| c.digest()).collect();
    let mut w = W {
        com,
        me,
        cfg,
        db,
        max,
        slow,
        sent: BTreeMap::new(),
        committed: BTreeSet::new(),
        digests: BTreeMap::new(),
        order: vec![],
        certs: BTreeMap::new(),
        top: 0,
        given: BTreeMap::from([(0, genesis)]),
        mine: BTreeSet::new(),
        told: 0,
        again: 0,
        new: 0,
        base: now().saturating_sub(g.below(2)),
    };
    let steps = g.urange(6, 60);
    let (mut passed, mut jumps, mut restarts, mut batches) = (0, 0, 0, 0);
    let mut log: Vec<String> = vec![];
    let res: R = paused(async {
        let mut l = start(&w, 0);
        look(&mut w, &mut l).await?;
        for _ in 0..steps {
            let at = w.mine.last().copied().unwrap_or(0).max(w.told);
            match g.weighted(&[8, 10, 3, 1, 5, 4, 1]) {
                0 => {
                    for _ in 0..g.urange(1, 3) {
                        let mut d = b256(g);
                        d[..8].copy_from_slice(&(w.order.len() as u64).to_be_bytes());
                        w.digests.insert(d, (w.order.len(), At::Waiting { again: false }));
                        w.order.push(d);
                        batches += 1;
                        let (ack_channel, ack) = oneshot::channel();
                        l.cb.our_digests().send(OurDigestMessage { digest: d, worker_id: 0, ack_channel }).await.map_err(s("digest"))?;
                        look(&mut w, &mut l).await?;
                        ensure!(ack.await.is_ok(), "a batch is not acknowledged");
                    }
                    log.push("batch".into());
                }
                1 => {
                    let r = at;
                    if r > 0 {
                        log.push(format!("parents of {r}"));
                        parents(&mut w, &mut l, g, r, false).await?;
                    }
                }
                2 => {
                    let r = at + 1 + g.below(4) as Round;
                    jumps += 1;
                    let few = g.bool();
                    log.push(format!("jump to {r}{}", if few { " without parents" } else { "" }));
                    parents(&mut w, &mut l, g, r, few).await?;
                }
                3 => {
                    // old news
                    if at > 1 {
                        let r = g.urange(1, at as usize - 1) as Round;
                        let c = w.cert(g, r, (me + 1) % w.com.n());
                        log.push(format!("old parents of {r}"));
                        l.cb.parents().send((vec![c], r)).await.map_err(s("parents"))?;
                        look(&mut w, &mut l).await?;
                    }
                }
                4 => {
                    // what can be committed: own headers below the highest round reached
                    let can: Vec<Round> = w.sent.keys().copied().filter(|r| *r < w.top && !w.committed.contains(r)).collect();
                    if can.is_empty() {
                        continue;
                    }
                    let upto = g.usize(can.len()) + 1;
                    let list: Vec<Round> = can[..upto].iter().copied().filter(|_| g.chance(2, 3)).collect();
                    let high = list.iter().max().copied().unwrap_or(0);
                    log.push(format!("commit {list:?}"));
                    for r in &list {
                        w.committed.insert(*r);
                    }
                    for (_, a) in w.digests.values_mut() {
                        if let At::In(r) = *a {
                            if w.committed.contains(&r) {
                                *a = At::Done;
                            } else if r <= high && w.mine.contains(&r) {
                                *a = At::Waiting { again: true };
                                passed += 1;
                            }
                        }
                    }
                    l.cb.committed_own_headers().send((high + 1, list)).await.map_err(s("commit"))?;
                    look(&mut w, &mut l).await?;
                }
                5 => {
                    let d = *g.pick(&[max_delay + 5000, min_delay, 1, max_delay / 2]);
                    log.push(format!("{d} ms"));
                    let before = w.new + w.again;
                    let new = w.new;
                    // parents of the round it is in
                    let here = w.mine.last().copied().unwrap_or(0).max(w.told);
                    let due = w.given.get(&here).is_some_and(|p| !p.is_empty()) && !w.mine.iter().any(|r| *r > here);
                    let mut left = d;
                    while left > 0 {
                        let step = left.min(200);
                        tokio::time::sleep(Duration::from_millis(step)).await;
                        look(&mut w, &mut l).await?;
                        left -= step;
                    }
                    if due && d > max_delay {
                        ensure!(w.new > new, "{d} ms after parents of round {here} came no header follows (maximum {max_delay} ms; {} repeated)", w.new + w.again - before);
                    }
                }
                _ => {
                    restarts += 1;
                    l.tasks.abort();
                    settle(3).await;
                    drop(l);
                    // what the restarted node knows as committed
                    let least = w.committed.last().copied().unwrap_or(0);
                    let primed = if g.bool() { w.top.saturating_sub(2 + g.below(3) as Round).max(least) } else { least };
                    let last = w.sent.keys().last().copied().unwrap_or(0);
                    log.push(format!("restart, committed {primed}"));
                    for (_, a) in w.digests.values_mut() {
                        if *a != At::Done {
                            *a = At::Lost;
                        }
                    }
                    let _ = last;
                    w.mine.clear();
                    let genesis = Certificate::genesis(&w.com.committee).iter().map(|c| c.digest()).collect();
                    w.given = BTreeMap::from([(0, genesis)]);
                    w.told = 0;
                    w.db = w.db.stop(g.usize(3), &[table::<LastProposed>]);
                    w.cfg = config_with(&w.com, 50, w.db.clone(), w.me, edit)?;
                    l = start(&w, primed);
                    look(&mut w, &mut l).await?;
                    // the certificates it has
                    if w.top > 0 {
                        let r = w.top;
                        parents(&mut w, &mut l, g, r, false).await?;
                    }
                }
            }
        }
        // everything is proposed in the end
        let mut guard = 0;
        while w.waiting() > 0 {
            guard += 1;
            ensure!(guard < 12 + 3 * batches / max + 12, "{} batches are never proposed", w.waiting());
            let at = w.mine.last().copied().unwrap_or(0).max(w.told);
            if at > 0 {
                parents(&mut w, &mut l, g, at, false).await?;
            }
            for _ in 0..(max_delay + 5000) / 200 {
                tokio::time::sleep(Duration::from_millis(200)).await;
                look(&mut w, &mut l).await?;
            }
        }
        l.tasks.abort();
        Ok(())
    });
    g.note(|| format!("{} members, at most {max} batches, threshold {threshold}, delays {min_delay} to {max_delay} ms: {}", w.com.n(), log.join(", ")));
    g.nontrivial_if(w.new >= 3 && batches > 0 && passed + jumps + restarts > 0);
    if passed > 0 {
        g.class("passed over");
    }
    if restarts > 0 {
        g.class("restart");
    }
    res
}

pub fn check(c: &mut Check) {
    c.assume("a stop of the node does not undo what the store confirmed as persisted (decided by S05)");
    c.sub("proposals", Budget::new(4000, 60).thorough(200_000, 1500), proposals);
}
