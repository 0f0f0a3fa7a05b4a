//! C02: a restarted node goes on where it stopped.

use super::{
    c01::{judge, params, Node, Params},
    dag::{any_dag, order, DagW, Opts},
};
use crate::{
    consensus::{Bullshark, Consensus, LeaderSchedule},
    ConsensusBus, NodeMode,
};
use std::{
    collections::HashMap,
    future::Future,
    path::Path,
    time::Duration,
};
use tn_config::{Config, ConsensusConfig, KeyConfig, NetworkConfig};
use tn_storage::{consensus::ConsensusChain, mem_db::MemDatabase, CertificateStore};
use tn_types::{gas_accumulator::RewardsCounter, *};
use vcore::{ensure, ensure_eq, Budget, Check, Scratch, G, R};
use vgen::{block_on, Com};

fn s<T: std::fmt::Display>(what: &str) -> impl Fn(T) -> String + '_ {
    move |x| format!("{what}: {x}")
}

/// What a node keeps over a restart.
struct Disk {
    db: MemDatabase,
    dir: Scratch,
}

/// Certificates kept by the store, in rounds.
const KEPT: Round = 64;

pub fn config(com: &Com, p: Params, db: MemDatabase, me: usize) -> Result<ConsensusConfig<MemDatabase>, String> {
    config_with(com, p.gc_depth, db, me, |_, _| {})
}

pub fn config_with<DB: Database>(
    com: &Com,
    gc_depth: Round,
    db: DB,
    me: usize,
    edit: impl FnOnce(&mut Config, &mut NetworkConfig),
) -> Result<ConsensusConfig<DB>, String> {
    static BASE: std::sync::OnceLock<Config> = std::sync::OnceLock::new();
    let mut c = BASE.get_or_init(Config::default_for_test).clone();
    c.parameters.gc_depth = gc_depth;
    let mut net = NetworkConfig::default();
    edit(&mut c, &mut net);
    let key = com.by_id()[me].0.copy();
    ConsensusConfig::new_with_committee_for_test(
        c,
        db,
        KeyConfig::new_with_testing_key(key),
        com.committee.clone(),
        net,
    )
    .map_err(s("configuration"))
}

async fn open_chain(w: &DagW, dir: &Path) -> Result<ConsensusChain, String> {
    let chain = ConsensusChain::new(dir.to_path_buf(), w.com.committee.clone()).map_err(s("open the chain"))?;
    let keys: Vec<_> = w.com.committee.bls_keys().iter().copied().collect();
    let prev = EpochRecord {
        epoch: w.com.committee.epoch().saturating_sub(1),
        committee: keys.clone(),
        next_committee: keys,
        ..Default::default()
    };
    chain.new_epoch(prev, w.com.committee.clone()).await.map_err(s("epoch of the chain"))?;
    chain.persist_current().await.map_err(s("persist the chain"))?;
    Ok(chain)
}

/// A bus on which the blocks that headers refer to are executed.
pub fn bus() -> ConsensusBus {
    let cb = ConsensusBus::new();
    let genesis = SealedHeader::new(ExecHeader::default(), B256::default());
    cb.app().recent_blocks().send_modify(|b| {
        b.push_latest(0, ConsensusNumHash::new(0, ConsensusHeaderDigest::default()), Some(genesis))
    });
    cb.app().node_mode().send_replace(NodeMode::CvvActive);
    cb
}

/// Let the other tasks of this thread run.
pub async fn settle(n: usize) {
    for _ in 0..n {
        tokio::task::yield_now().await;
    }
}

/// One life of a node: recover, take certificates, and save the first `save` of all commits (counted from the start).
#[allow(clippy::too_many_arguments)]
async fn life(
    w: &DagW,
    p: Params,
    disk: &Disk,
    give: &[usize],
    saved: &mut Vec<CommittedSubDag>,
    save: impl Fn(usize) -> usize,
    me: usize,
) -> Result<(Vec<CommittedSubDag>, Vec<AuthorityIdentifier>), String> {
    let chain = open_chain(w, disk.dir.path()).await?;
    let cfg = config(&w.com, p, disk.db.clone(), me)?;
    let schedule = LeaderSchedule::from_store(w.com.committee.clone(), &chain, p.bad).await.map_err(s("leader schedule"))?;
    let protocol = Bullshark::new(w.com.committee.clone(), p.window, schedule.clone(), p.bad);
    let cb = bus();
    let mut rx = cb.subscribe_sequence();
    let mut rx_own = cb.subscribe_committed_own_headers();
    let tasks = TaskManager::default();
    Consensus::spawn(cfg.clone(), &cb, protocol, &tasks, &chain, None).await.map_err(s("recovery"))?;
    ensure_eq!(
        *cb.app().committed_round_updates().borrow(),
        saved.last().map_or(0, |s| s.leader_round()),
        "committed round after the restart"
    );
    let mut seen = vec![];
    let mut own = vec![];
    for i in give {
        disk.db.write(w.certs[*i].cert.clone()).map_err(s("certificate store"))?;
        cb.new_certificates().send(w.certs[*i].cert.clone()).await.map_err(s("send"))?;
        settle(2).await;
        while let Ok(sd) = rx.try_recv() {
            seen.push(sd);
        }
        while let Ok(o) = rx_own.try_recv() {
            own.push(o);
        }
    }
    settle(50).await;
    while let Ok(sd) = rx.try_recv() {
        seen.push(sd);
    }
    while let Ok(o) = rx_own.try_recv() {
        own.push(o);
    }
    // what is reported as this node's own is what it has in these commits
    let mine = cfg.authority_id().ok_or("no identity")?;
    let want: Vec<Round> =
        seen.iter().flat_map(|s| s.headers()).filter(|h| *h.author() == mine).map(|h| h.round()).collect();
    let got: Vec<Round> = own.iter().flat_map(|o| o.1.iter().copied()).collect();
    ensure_eq!(got, want, "own headers reported as committed");
    let keep = save(seen.len());
    for sd in &seen[..keep] {
        let number = saved.len() as u64 + 1;
        let parent = chain
            .latest_consensus_header_from_pack(w.com.committee.epoch())
            .await
            .map_err(s("latest header"))?
            .map_or(ConsensusHeaderDigest::default(), |h| h.digest());
        chain
            .save_consensus_output(ConsensusOutput::new_with_subdag(sd.clone(), parent, number))
            .await
            .map_err(s("save"))?;
        saved.push(sd.clone());
    }
    chain.persist_current().await.map_err(s("persist"))?;
    // whom the node would elect next
    let from = saved.last().map_or(2, |s| s.leader_round() + 2);
    let elected = if keep == seen.len() {
        (0..w.n() as u32).map(|t| schedule.leader(from + 2 * t).id()).collect()
    } else {
        vec![]
    };
    cfg.shutdown().notify();
    tasks.abort();
    settle(3).await;
    Ok((seen, elected))
}

/// Three more rounds in which everyone takes part.
pub fn complete(w: &mut DagW) {
    for _ in 0..3 {
        let r = w.rounds() + 1;
        let before: Vec<usize> = w.at[r as usize - 1].iter().flatten().copied().collect();
        for a in 0..w.n() {
            let h = HeaderBuilder::default()
                .author(w.ids[a].clone())
                .round(r)
                .epoch(w.com.committee.epoch())
                .parents(before.iter().map(|p| w.certs[*p].digest).collect())
                .created_at(5000)
                .build();
            let cert = vgen::cheap_cert(&w.com, h);
            w.push(cert, a, before.clone());
        }
    }
}

fn restart(g: &mut G, hi: usize, rounds: u64, stalls: bool) -> R {
    let mut w = any_dag(g, &Opts { lo: 4, hi, rounds: (4, rounds), cost: 0 });
    let core = w.certs.len();
    complete(&mut w);
    let w = w;
    let p = params(g);
    let mut ord = order(g, &w);
    // the last rounds come last, after the last restart
    ord.sort_by_key(|i| *i >= core);
    let me = g.usize(w.n());
    // a node that never stops
    let mut never = Node::new(&w, p);
    for i in &ord {
        never.give(&w, *i)?;
    }
    judge(&w, p, &never.seq)?;
    // where the other one stops
    let stops = g.urange(1, 4);
    let mut cuts: Vec<usize> = (0..stops).map(|_| g.usize(core + 1)).collect();
    cuts.sort();
    cuts.dedup();
    let scratch = Scratch::new();
    let disk = Disk { db: MemDatabase::default(), dir: scratch };
    let mut saved: Vec<CommittedSubDag> = vec![];
    let mut from = 0;
    let mut did = 0;
    let mut lost = 0;
    let show = |e: String, cuts: &[usize]| {
        let o: Vec<_> = ord.iter().map(|i| w.name(*i)).collect();
        format!("{e}\n{p:?}, stopped after {cuts:?} certificates, in the order: {}\n{}", o.join(" "), w.show())
    };
    let mut changed = false;
    for cut in cuts.iter().copied().chain([ord.len()]) {
        if cut < ord.len() {
            // the certificates kept reach back to the garbage horizon only while ordering keeps up
            let mut m = Node::new(&w, p);
            for i in &ord[..cut] {
                m.give(&w, *i)?;
            }
            let hi = ord[..cut].iter().map(|i| w.certs[*i].round).max().unwrap_or(0);
            let have = saved.last().map_or(0, |s| s.leader_round());
            if !stalls && hi.saturating_sub(KEPT) > have.saturating_sub(p.gc_depth) {
                g.class("stop left out: the store no longer reaches back");
                continue;
            }
            did += 1;
        }
        let part = g.chance(1, 3);
        let frac = g.below(100);
        let (seen, elected) = block_on(life(
            &w,
            p,
            &disk,
            &ord[from..cut],
            &mut saved,
            |n| if part && cut < ord.len() { n * frac as usize / 100 } else { n },
            me,
        ))
        .map_err(|e| show(e, &cuts))?;
        lost += seen.len().saturating_sub(saved.len());
        if part {
            g.class("stopped before all commits were saved");
        }
        let upto = saved.len().min(never.seq.len());
        ensure!(
            saved[..upto] == never.seq[..upto] && saved.len() <= never.seq.len(),
            "{}",
            {
                let k = (0..upto).find(|k| saved[*k] != never.seq[*k]).unwrap_or(upto);
                let d = |s: Option<&CommittedSubDag>| {
                    s.map(|s| {
                        format!(
                            "round {} at {} with {:?}, final {}, scores {:?}, randomness {}",
                            s.leader_round(),
                            s.commit_timestamp(),
                            s.headers().iter().map(|h| w.index(&h.digest()).map_or("?".into(), |i| w.name(i))).collect::<Vec<_>>(),
                            s.reputation_scores().final_of_schedule,
                            s.reputation_scores().scores_per_authority.values().collect::<Vec<_>>(),
                            s.randomness(),
                        )
                    })
                };
                show(format!("commit {k}: {:?}; without a stop: {:?}", d(saved.get(k)), d(never.seq.get(k))), &cuts)
            }
        );
        changed |= saved.iter().any(|s| s.reputation_scores().final_of_schedule);
        if cut == ord.len() {
            ensure_eq!(
                saved.last().map(|s| s.leader_round()),
                never.seq.last().map(|s| s.leader_round()),
                "{}",
                show("last commit".into(), &cuts)
            );
            let at = never.seq.last().map_or(2, |s| s.leader_round() + 2);
            let want: Vec<_> = (0..w.n() as u32).map(|t| never.b.leader_schedule.leader(at + 2 * t).id()).collect();
            ensure!(elected == want, "{}", show("next leaders differ".into(), &cuts));
        }
        from = cut;
    }
    let _ = lost;
    if changed {
        g.class("schedule changed");
    }
    g.nontrivial_if(did > 0 && saved.len() > 2);
    g.note(|| format!("{p:?}, stops {cuts:?}, {} commits\n{}", saved.len(), w.show()));
    Ok(())
}

/// The schedule in force is found again however many commits ago it was decided.
fn old_schedule(g: &mut G) -> R {
    // four members, a window of four leaders: the same member leads at the end of every window. After the first
    // change of schedule it is silent for a long time, so that no window closes.
    let epoch = g.below(3) as Epoch;
    let com = vgen::committee(g, 4, 4, epoch);
    let n = 4;
    let ids: Vec<_> = com.by_id().iter().map(|k| k.id()).collect();
    let genesis = Certificate::genesis(&com.committee);
    let mut w = DagW { com, ids, certs: vec![], at: vec![vec![None; n]], genesis };
    let p = Params { gc_depth: 50, window: 4, bad: 33 };
    let last_of_window = 2usize; // (round / 2) % 4 == 3 is led by member 2
    let lazy = g.usize(2);
    let changes = 1 + g.usize(3) as u32;
    // rounds in which windows close, then rounds in which they do not
    let busy = 8 * changes;
    let (least, most) = if g.chance(1, 4) { (950, 1100) } else { (60, 400) };
    let quiet = 2 * g.range(least, most) as Round * 4 / 3;
    let base = g.below(100);
    let mut nd = Node::new(&w, p);
    for r in 1..=busy + quiet {
        let before: Vec<usize> = w.at[r as usize - 1].iter().flatten().copied().collect();
        for a in 0..n {
            if a == last_of_window && r > busy {
                continue;
            }
            // in the busy rounds one member never votes for leaders, so that its score is the worst
            let mut ps = before.clone();
            if a == lazy && r % 2 == 1 && r > 1 && r <= busy {
                let id = nd.b.leader_schedule.leader(r - 1).id();
                let la = w.ids.iter().position(|x| *x == id).unwrap();
                if let Some(l) = w.get(r - 1, la) {
                    ps.retain(|x| *x != l);
                }
            }
            let parents = if r == 1 {
                w.genesis.iter().map(|c| c.digest()).collect()
            } else {
                ps.iter().map(|i| w.certs[*i].digest).collect()
            };
            let h = HeaderBuilder::default()
                .author(w.ids[a].clone())
                .round(r)
                .epoch(epoch)
                .parents(parents)
                .created_at(base + r as u64)
                .build();
            let cert = vgen::cheap_cert(&w.com, h);
            let i = w.push(cert, a, ps);
            nd.give(&w, i)?;
        }
    }
    let Some(k) = nd.seq.iter().rposition(|s| s.reputation_scores().final_of_schedule) else { return Ok(()) };
    let since = nd.seq.len() - 1 - k;
    let bad = nd.b.leader_schedule.num_of_bad_nodes();
    let scratch = Scratch::new();
    let elected = block_on(async {
        let chain = open_chain(&w, scratch.path()).await?;
        let mut parent = ConsensusHeaderDigest::default();
        for (i, sd) in nd.seq.iter().enumerate() {
            let o = ConsensusOutput::new_with_subdag(sd.clone(), parent, i as u64 + 1);
            parent = o.consensus_header_hash();
            chain.save_consensus_output(o).await.map_err(s("save"))?;
        }
        chain.persist_current().await.map_err(s("persist"))?;
        drop(chain);
        let chain = open_chain(&w, scratch.path()).await?;
        let sch = LeaderSchedule::from_store(w.com.committee.clone(), &chain, p.bad).await.map_err(s("leader schedule"))?;
        Ok::<_, String>(sch)
    })?;
    let from = nd.seq.last().unwrap().leader_round() + 2;
    for t in 0..4 {
        ensure_eq!(
            elected.leader(from + 2 * t).id(),
            nd.b.leader_schedule.leader(from + 2 * t).id(),
            "leader of round {} after a restart {since} commits after the last change of schedule ({} commits, {bad} members replaced)",
            from + 2 * t,
            nd.seq.len()
        );
    }
    g.nontrivial_if(bad > 0 && since > 40);
    if since > 1000 {
        g.class("more than a thousand commits since the schedule changed");
    }
    g.note(|| format!("{} commits, the last final scores {since} commits ago, {bad} replaced", nd.seq.len()));
    Ok(())
}

/// A stored history whose parts do not fit.
#[derive(Clone)]
struct Fake {
    last: Option<HashMap<AuthorityIdentifier, Round>>,
    header: Option<Option<ConsensusHeader>>,
    scores: Option<Option<CommittedSubDag>>,
}

fn no<T>() -> eyre::Result<T> {
    Err(eyre::eyre!("unreadable"))
}

#[allow(clippy::manual_async_fn)]
impl ConsensusChainReader for Fake {
    async fn consensus_header_by_digest(&self, _: Epoch, _: ConsensusHeaderDigest) -> eyre::Result<Option<ConsensusHeader>> {
        no()
    }
    async fn consensus_header_by_number(&self, _: u64) -> eyre::Result<Option<ConsensusHeader>> {
        no()
    }
    async fn consensus_output_bytes_by_number(&self, _: u64) -> eyre::Result<Option<Vec<u8>>> {
        no()
    }
    async fn consensus_output_by_number(&self, _: u64) -> eyre::Result<Option<ConsensusOutput>> {
        no()
    }
    async fn consensus_header_latest(&self) -> eyre::Result<Option<ConsensusHeader>> {
        no()
    }
    async fn latest_consensus_header_from_pack(&self, _: Epoch) -> eyre::Result<Option<ConsensusHeader>> {
        self.header.clone().ok_or(eyre::eyre!("unreadable"))
    }
    fn latest_consensus_number(&self) -> u64 {
        0
    }
    fn latest_consensus_epoch(&self) -> Epoch {
        0
    }
    async fn read_last_committed(&self, _: Epoch) -> eyre::Result<HashMap<AuthorityIdentifier, Round>> {
        self.last.clone().ok_or(eyre::eyre!("unreadable"))
    }
    async fn read_latest_commit_with_final_reputation_scores(&self, _: Epoch) -> eyre::Result<Option<CommittedSubDag>> {
        self.scores.clone().ok_or(eyre::eyre!("unreadable"))
    }
    async fn get_consensus_output_current(&self, _: u64) -> eyre::Result<ConsensusOutput> {
        no()
    }
    async fn is_epoch_complete(&self, _: &EpochRecord) -> bool {
        false
    }
    async fn contains_current_batch(&self, _: BlockHash) -> bool {
        false
    }
    fn get_batches<'a>(
        &'a self,
        _: Epoch,
        _: impl Iterator<Item = &'a BlockHash> + Send + 'a,
    ) -> impl Future<Output = Vec<Batch>> + Send + 'a {
        async { vec![] }
    }
    async fn count_leaders(&self, _: Round, _: RewardsCounter) -> eyre::Result<()> {
        no()
    }
    async fn get_epoch_stream(&self, _: Epoch) -> eyre::Result<Box<dyn ReadStream>> {
        no()
    }
    fn already_streaming_epoch(&self, _: Epoch) -> bool {
        false
    }
}

fn unsound(g: &mut G) -> R {
    let w = any_dag(g, &Opts { lo: 4, hi: 5, rounds: (8, 14), cost: 0 });
    let p = params(g);
    let ord = order(g, &w);
    let mut nd = Node::new(&w, p);
    for i in &ord {
        nd.give(&w, *i)?;
    }
    let head = |k: usize| ConsensusHeader {
        parent_hash: Default::default(),
        sub_dag: nd.seq[k].clone(),
        number: k as u64 + 1,
        extra: B256::ZERO,
    };
    // what was committed up to the k-th commit
    let rounds = |k: usize| {
        let mut m: HashMap<AuthorityIdentifier, Round> = HashMap::new();
        for h in nd.seq[..k].iter().flat_map(|s| s.headers()) {
            let e = m.entry(h.author().clone()).or_default();
            *e = (*e).max(h.round());
        }
        m
    };
    let n = nd.seq.len();
    let a = g.usize(n + 1);
    let b = if g.bool() { a } else { g.usize(n + 1) };
    let mut f = Fake {
        last: Some(rounds(a)),
        header: Some(if b == 0 { None } else { Some(head(b - 1)) }),
        scores: Some(None),
    };
    let broken = g.below(6);
    if broken == 0 {
        f.last = None;
    }
    if broken == 1 {
        f.header = None;
    }
    let sound = a == b && broken > 1;
    let got = block_on(async {
        let cfg = config(&w.com, p, MemDatabase::default(), 0)?;
        let cb = bus();
        let _rx = cb.subscribe_sequence();
        let tasks = TaskManager::default();
        let schedule = LeaderSchedule::from_store(w.com.committee.clone(), &f, p.bad).await.map_err(s("schedule"))?;
        let r = Consensus::spawn(
            cfg.clone(),
            &cb,
            Bullshark::new(w.com.committee.clone(), p.window, schedule, p.bad),
            &tasks,
            &f,
            None,
        )
        .await;
        cfg.shutdown().notify();
        tasks.abort();
        settle(2).await;
        // the schedule is not silently replaced by a fresh one either
        let unreadable = Fake { scores: None, ..f.clone() };
        let sch = LeaderSchedule::from_store(w.com.committee.clone(), &unreadable, p.bad).await;
        if sch.is_ok() {
            return Err("a leader schedule is made although the stored scores cannot be read".into());
        }
        Ok::<_, String>(r.is_ok())
    })?;
    ensure!(
        got == sound,
        "{} with rounds committed by commit {a} and the header of commit {b} (0: none), unreadable {broken}",
        if got { "started" } else { "refused to start" }
    );
    g.nontrivial_if(!sound);
    if a == 0 || b == 0 {
        g.class("one part is empty");
    }
    Ok(())
}

pub const RULE: &str = "the node stopped at least once and committed more than twice, or the stored parts do not fit";

pub fn check(c: &mut Check) {
    let _ = Duration::ZERO;
    c.assume("commits that were saved are on disk after the stop (what a stop does to the files is S03)");
    c.assume("the certificate store keeps 64 rounds: stops at which ordering is so far behind the newest certificate that these no longer reach the garbage horizon are left out");
    c.sub("restart", Budget::new(6_000, 90).threads(8).hang(60).thorough(400_000, 1200), |g| restart(g, 7, 24, false));
    c.sub("restart-large", Budget::new(400, 50).threads(8).hang(60).thorough(20_000, 900), |g| restart(g, 12, 110, false));
    c.sub("old-schedule", Budget::new(120, 60).threads(8).hang(120).thorough(400, 600), old_schedule);
    c.sub("unsound", Budget::new(4_000, 20).threads(8), unsound);
}
