//! C06: from delivered certificates to the DAG.

use super::{
    c02::{bus, config_with, settle},
    db::{table, CrashDb},
    handler::paused,
};
use crate::{
    certificate_fetcher::CertificateFetcherCommand,
    error::{CertManagerError, CertManagerResult},
    state_sync::StateSynchronizer,
    ConsensusBus,
};
use std::{
    collections::{BTreeMap, BTreeSet, HashMap, HashSet},
    sync::{Arc, Mutex, OnceLock},
};
use tn_config::{Config, ConsensusConfig, NetworkConfig};
use tn_network_types::{PrimaryToWorkerClient, WorkerSynchronizeMessage};
use tn_storage::{
    tables::{CertificateDigestByOrigin, CertificateDigestByRound, Certificates, Payload},
    CertificateStore, PayloadStore,
};
use tn_types::{error::CertificateError, *};
use vcore::{ensure, ensure_eq, Budget, Check, G, R};
use vgen::*;

pub const RULE: &str = "at least one certificate arrives before a parent and is handed over later, or a forged one is offered together with genuine ones";

fn s<T: std::fmt::Display>(what: &str) -> impl Fn(T) -> String + '_ {
    move |x| format!("{what}: {x}")
}

/// A DAG of genuinely signed certificates.
pub struct Signed {
    pub com: Com,
    pub certs: Vec<Certificate>,
    pub index: HashMap<HeaderDigest, usize>,
    pub parents: Vec<Vec<usize>>,
    /// by author, in the order of identities
    pub author: Vec<usize>,
    /// the author whose certificates others rarely take as parents
    pub shunned: Option<usize>,
    /// signed headers of the same committee for another epoch
    pub foreign: Vec<Certificate>,
}

impl Signed {
    pub fn round(&self, i: usize) -> Round {
        self.certs[i].round()
    }
    pub fn name(&self, i: usize) -> String {
        format!("{}{}", (b'a' + self.author[i] as u8) as char, self.round(i))
    }
    pub fn names<'a>(&self, l: impl IntoIterator<Item = &'a usize>) -> String {
        l.into_iter().map(|i| self.name(*i)).collect::<Vec<_>>().join(" ")
    }
}

pub struct Mix(pub u64);

impl Mix {
    pub fn below(&mut self, n: u64) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        (z ^ (z >> 31)) % n
    }
    pub fn some<T: Clone>(&mut self, of: &[T], n: usize) -> Vec<T> {
        let mut v = of.to_vec();
        for i in (1..v.len()).rev() {
            v.swap(i, self.below(i as u64 + 1) as usize);
        }
        v.truncate(n);
        v
    }
}

pub const SHAPES: u64 = 40;

/// The DAG of that number: built once per process.
pub fn signed(shape: u64) -> Arc<Signed> {
    static ALL: OnceLock<Mutex<HashMap<u64, Arc<OnceLock<Arc<Signed>>>>>> = OnceLock::new();
    let cell = ALL.get_or_init(Default::default).lock().expect("cache").entry(shape).or_default().clone();
    cell.get_or_init(|| Arc::new(build(shape))).clone()
}

fn build(shape: u64) -> Signed {
    let mut m = Mix(shape * 7919 + 1);
    let n = [4, 4, 4, 5, 6, 7][m.below(6) as usize];
    let epoch = m.below(3) as Epoch;
    let idx: Vec<usize> = m.some(&(0..KEYS).collect::<Vec<_>>(), n);
    let com = Com::of(&idx, epoch);
    let ids = com.by_id();
    let quorum = com.quorum();
    let rounds = 5 + m.below(9) as Round;
    let full = m.below(2) == 0;
    let mut out = Signed { com, certs: vec![], index: HashMap::new(), parents: vec![], author: vec![], shunned: None, foreign: vec![] };
    let shunned = if m.below(3) > 0 { Some(m.below(n as u64) as usize) } else { None };
    out.shunned = shunned;
    let base = 1000;
    let mut before: Vec<usize> = vec![];
    let genesis: BTreeSet<_> = Certificate::genesis(&out.com.committee).iter().map(|c| c.digest()).collect();
    for r in 1..=rounds {
        let count = if full { n } else { quorum + m.below((n - quorum) as u64 + 1) as usize };
        let mut authors = m.some(&(0..n).collect::<Vec<_>>(), count);
        if let Some(x) = shunned.filter(|x| !authors.contains(x)) {
            authors.push(x);
        }
        let mut here = vec![];
        for a in authors {
            let ps = if r == 1 {
                vec![]
            } else {
                let k = quorum + m.below((before.len() - quorum) as u64 + 1) as usize;
                let liked: Vec<usize> = before.iter().copied().filter(|p| (Some(out.author[*p]) != shunned) == (Some(a) != shunned)).collect();
                let mut ps = if m.below(20) > 0 { liked } else { vec![] };
                ps.truncate(k);
                let rest: Vec<usize> = before.iter().copied().filter(|p| !ps.contains(p)).collect();
                let more = k - ps.len();
                ps.extend(m.some(&rest, more));
                ps
            };
            let digests: BTreeSet<_> = if r == 1 { genesis.clone() } else { ps.iter().map(|p| out.certs[*p].digest()).collect() };
            let payload = (0..m.below(3)).map(|_| {
                let mut b = [0u8; 32];
                b.iter_mut().for_each(|x| *x = m.below(256) as u8);
                (B256::from(b), 0)
            });
            let h = HeaderBuilder::default()
                .author(ids[a].id())
                .round(r)
                .epoch(epoch)
                .parents(digests)
                .payload(payload.collect())
                .created_at(base + r as u64)
                .build();
            let signers = m.some(&ids, quorum + (r as usize % 2).min(n - quorum));
            let vs = votes(&h, signers.iter());
            here.push((a, ps, Certificate::new_unverified(&out.com.committee, h, vs).expect("certificate")));
        }
        before.clear();
        for (a, ps, cert) in here {
            before.push(out.certs.len());
            out.index.insert(cert.digest(), out.certs.len());
            out.certs.push(cert);
            out.parents.push(ps);
            out.author.push(a);
        }
    }
    for a in 0..2 {
        let h = HeaderBuilder::from_header(out.certs[a].header()).epoch(epoch + 1).build();
        let vs = votes(&h, ids.iter());
        out.foreign.push(Certificate::new_unverified(&out.com.committee, h, vs).expect("certificate"));
    }
    out
}

#[derive(Clone, Debug, PartialEq)]
pub enum Forgery {
    /// signatures of another header
    Stolen,
    /// a header nobody signed, with the signature of the genuine one
    Header,
    /// fewer signers than a quorum
    Few,
    /// signers that did not sign
    Bitmap,
    Epoch,
}

pub fn forge(g: &mut G, w: &Signed, i: usize) -> (Certificate, Forgery) {
    let kind = g.pick(&[Forgery::Stolen, Forgery::Header, Forgery::Few, Forgery::Bitmap, Forgery::Epoch]).clone();
    let genuine = &w.certs[i];
    let ids = w.com.by_id();
    let com = &w.com.committee;
    let q = w.com.quorum();
    let header = genuine.header().clone();
    let altered = HeaderBuilder::from_header(&header).created_at(header.created_at() + 1 + g.below(3)).build();
    let claim = g.bool();
    let mut c = match kind {
        Forgery::Stolen => {
            let vs = votes(&altered, ids.iter().take(q));
            Certificate::new_unverified(com, header, vs).expect("forged")
        }
        Forgery::Header => {
            let mut c = genuine.clone();
            c.update_header_for_test(altered);
            c
        }
        Forgery::Few => {
            let vs = votes(&altered, ids.iter().take(g.usize(q)));
            Certificate::new_unsigned_for_test(com, altered, vs).expect("forged")
        }
        Forgery::Bitmap => {
            // the same members, one of whom signed something else
            let mut vs = votes(&altered, ids.iter().take(q - 1));
            vs.extend(votes(&header, ids.iter().skip(q - 1).take(1)));
            Certificate::new_unverified(com, altered, vs).expect("forged")
        }
        Forgery::Epoch => w.foreign[g.usize(w.foreign.len())].clone(),
    };
    if claim {
        // what a sender may claim
        let sig = c.aggregated_signature().unwrap_or_default();
        c.set_signature_verification_state(if g.bool() {
            SignatureVerificationState::VerifiedDirectly(sig)
        } else {
            SignatureVerificationState::VerifiedIndirectly(sig)
        });
    }
    (c, kind)
}

#[derive(Default)]
struct Worker(Mutex<Vec<WorkerSynchronizeMessage>>);

#[async_trait::async_trait]
impl PrimaryToWorkerClient for Worker {
    async fn synchronize(&self, m: WorkerSynchronizeMessage) -> eyre::Result<()> {
        self.0.lock().expect("worker").push(m);
        Ok(())
    }
    async fn fetch_batches(&self, _: BTreeSet<BlockHash>) -> eyre::Result<HashMap<BlockHash, Batch>> {
        Ok(Default::default())
    }
}

pub trait Take<T> {
    fn take(&mut self) -> Option<T>;
}

impl<T, R: TnReceiver<T>> Take<T> for R {
    fn take(&mut self) -> Option<T> {
        self.try_recv().ok()
    }
}

struct Life {
    cb: ConsensusBus,
    sync: StateSynchronizer<CrashDb>,
    tasks: TaskManager,
    ordered: Box<dyn Take<Certificate>>,
    fetch: Box<dyn Take<CertificateFetcherCommand>>,
    parents: Box<dyn Take<(Vec<Certificate>, Round)>>,
    worker: Arc<Worker>,
}

fn start(cfg: &ConsensusConfig<CrashDb>, committed: Round) -> Life {
    let cb = bus();
    cb.app().committed_round_updates().send_replace(committed);
    let worker = Arc::new(Worker::default());
    cfg.local_network().set_primary_to_worker_local_handler(worker.clone());
    let ordered = Box::new(cb.subscribe_new_certificates());
    let fetch = Box::new(cb.subscribe_certificate_fetcher());
    let parents = Box::new(cb.subscribe_parents());
    let tasks = TaskManager::default();
    let sync = StateSynchronizer::new(cfg.clone(), cb.clone(), tasks.get_spawner());
    sync.spawn(&tasks);
    Life { cb, sync, tasks, ordered, fetch, parents, worker }
}

struct W {
    d: Arc<Signed>,
    me: usize,
    cfg: ConsensusConfig<CrashDb>,
    db: CrashDb,
    depth: Round,
    max_diff: Round,
    interval: Round,
    committed: Round,
    /// accepted for the DAG in this life (or kept from an earlier one)
    arrived: BTreeSet<usize>,
    handed: BTreeSet<usize>,
    /// certificates for which ancestors were asked for, in this life
    asked: HashSet<HeaderDigest>,
    /// parents given to the proposer in this life
    given: BTreeMap<Round, Vec<usize>>,
    /// rounds whose aggregation was dropped or is not complete in this life
    cleared: Round,
    late: usize,
}

impl W {
    fn gc(&self) -> Round {
        self.committed.saturating_sub(self.depth)
    }

    fn too_new(&self, r: Round) -> bool {
        self.committed + self.max_diff < r
    }

    /// What has to be in the DAG.
    fn expected(&self) -> BTreeSet<usize> {
        let mut have = self.handed.clone();
        loop {
            let more: Vec<usize> = self
                .arrived
                .iter()
                .copied()
                .filter(|i| !have.contains(i))
                .filter(|i| self.d.round(*i) <= self.gc() + 1 || self.d.parents[*i].iter().all(|p| have.contains(p)))
                .collect();
            if more.is_empty() {
                return have;
            }
            have.extend(more);
        }
    }

    fn waiting(&self) -> BTreeSet<usize> {
        self.arrived.difference(&self.handed).copied().collect()
    }

    async fn look(&mut self, l: &mut Life) -> R {
        settle(40).await;
        let want = self.expected();
        while let Some(c) = l.ordered.take() {
            let Some(i) = self.d.index.get(&c.digest()).copied() else {
                return Err(format!("a certificate that is not valid is handed over: {c:?}"));
            };
            let name = self.d.name(i);
            ensure!(c.header() == self.d.certs[i].header(), "{name} is handed over with another header");
            ensure!(c.is_verified(), "{name} is handed over unverified");
            ensure!(self.arrived.contains(&i), "{name} is handed over but did not arrive");
            let missing: Vec<usize> = self.d.parents[i].iter().copied().filter(|p| !self.handed.contains(p)).collect();
            ensure!(
                missing.is_empty() || self.d.round(i) <= self.gc() + 1,
                "{name} is handed over before its parents {} (horizon {})",
                self.d.names(&missing),
                self.gc()
            );
            ensure!(self.handed.insert(i), "{name} is handed over again");
        }
        let lost: Vec<usize> = want.difference(&self.handed).copied().collect();
        ensure!(lost.is_empty(), "{} arrived with all parents and {} not handed over", self.d.names(&lost), if lost.len() == 1 { "is" } else { "are" });
        let early: Vec<usize> = self.handed.difference(&want).copied().collect();
        ensure!(early.is_empty(), "{} should wait", self.d.names(&early));
        for (i, c) in self.d.certs.iter().enumerate() {
            let stored = self.db.contains(&c.digest()).map_err(s("store"))?;
            ensure_eq!(stored, self.handed.contains(&i), "{} in the store", self.d.name(i));
        }
        while let Some(c) = l.fetch.take() {
            if let CertificateFetcherCommand::Ancestors(c) = c {
                self.asked.insert(c.digest());
            }
        }
        for i in self.waiting() {
            ensure!(self.asked.contains(&self.d.certs[i].digest()), "the ancestors of {} are never asked for", self.d.name(i));
        }
        while let Some((certs, round)) = l.parents.take() {
            for c in certs {
                let i = self.d.index.get(&c.digest()).copied().ok_or("an unknown certificate is given as parent")?;
                ensure_eq!(c.round(), round, "round of the parent {}", self.d.name(i));
                let list = self.given.entry(round).or_default();
                ensure!(round <= self.cleared || !list.contains(&i), "the parent {} is given twice", self.d.name(i));
                list.push(i);
            }
        }
        let top = self.d.certs.last().map_or(0, |c| c.round());
        for r in self.cleared + 1..=top {
            let mut have: Vec<usize> = self.handed.iter().copied().filter(|i| self.d.round(*i) == r).collect();
            if have.len() < self.d.com.quorum() {
                have.clear();
            }
            let mut got = self.given.get(&r).cloned().unwrap_or_default();
            got.sort();
            ensure_eq!(self.d.names(&got), self.d.names(&have), "parents of round {r} given to the proposer (quorum {})", self.d.com.quorum());
        }
        Ok(())
    }

    /// batches of what arrived are asked for
    fn batches(&self, l: &Life, list: &[usize]) -> R {
        let asked = l.worker.0.lock().expect("worker");
        for i in list {
            let h = self.d.certs[*i].header();
            if self.d.author[*i] == self.me || h.round() < self.committed.saturating_sub(self.depth - 1) {
                continue;
            }
            for (b, w) in h.payload() {
                if self.db.contains_payload(*b, *w).map_err(s("payload"))? {
                    continue;
                }
                let hit = asked.iter().any(|m| m.digests.contains(b) && m.target == *h.author() && m.is_certified);
                ensure!(hit, "a batch of {} is not asked for", self.d.name(*i));
            }
        }
        Ok(())
    }
}

fn answer(w: &W, i: usize, r: &CertManagerResult<()>, what: &str) -> R {
    let name = w.d.name(i);
    match r {
        Ok(()) => ensure!(w.handed.contains(&i), "{what} {name}: taken, but not handed over"),
        Err(CertManagerError::Pending(d)) => {
            ensure!(!w.handed.contains(&i), "{what} {name}: waits, but is handed over");
            ensure_eq!(*d, w.d.certs[i].digest(), "{what} {name}: what waits");
        }
        Err(e) => return Err(format!("{what} {name}: {e}")),
    }
    Ok(())
}

pub fn received(c: &Certificate) -> Result<Certificate, String> {
    let mut c = c.clone();
    c.validate_received().map_err(s("receive"))?;
    Ok(c)
}

fn is_too_old(e: &CertManagerError) -> bool {
    matches!(e, CertManagerError::Certificate(CertificateError::TooOld(..)))
}

fn is_too_new(e: &CertManagerError) -> bool {
    matches!(e, CertManagerError::Certificate(CertificateError::TooNew(..)))
}

fn deliveries(g: &mut G) -> R {
    let d = signed(g.below(SHAPES));
    let depth = *g.pick(&[50, 2, 4, 8]);
    let max_diff = *g.pick(&[1000, 1000, 4, 8]);
    let interval = *g.pick(&[50, 3, 1]);
    let chunk = *g.pick(&[50, 1, 3]);
    let me = g.usize(d.com.n());
    let db = CrashDb::default();
    let edit = move |c: &mut Config, net: &mut NetworkConfig| {
        c.parameters.gc_depth = depth;
        let sync = net.sync_config_mut();
        sync.max_diff_between_external_cert_round_and_highest_local_round = max_diff;
        sync.certificate_verification_round_interval = interval;
        sync.certificate_verification_chunk_size = chunk;
    };
    let cfg = config_with(&d.com, depth, db.clone(), me, edit)?;
    let n = d.certs.len();
    let mut w = W {
        d: d.clone(),
        me,
        cfg,
        db,
        depth,
        max_diff,
        interval,
        committed: 0,
        arrived: BTreeSet::new(),
        handed: BTreeSet::new(),
        asked: HashSet::new(),
        given: BTreeMap::new(),
        cleared: 0,
        late: 0,
    };
    let steps = g.urange(5, 50);
    let mut log: Vec<String> = vec![];
    let (mut forged, mut restarts) = (0, 0);
    // the order in which most arrive
    let spread = *g.pick(&[1usize, 6, 20, 80]);
    // the shunned author's certificates arrive with more delay
    let lag = *g.pick(&[1usize, 20, 60]);
    let mut queue: Vec<(usize, usize)> =
        (0..n).map(|i| (i + g.usize(spread) + if Some(d.author[i]) == d.shunned { g.usize(lag) } else { 0 }, i)).collect();
    queue.sort();
    let mut queue: Vec<usize> = queue.into_iter().map(|(_, i)| i).rev().collect();
    let res: R = paused(async {
        let mut l = start(&w.cfg, 0);
        w.look(&mut l).await?;
        for _ in 0..steps {
            let any = |g: &mut G, queue: &mut Vec<usize>| if g.chance(4, 5) { queue.pop() } else { None }.unwrap_or_else(|| g.usize(n));
            match g.weighted(&[4, 8, 5, 1, 2, 3, 1, 1, 2]) {
                k @ (0 | 1) => {
                    let i = any(g, &mut queue);
                    // as its own it is taken without a look at the signatures
                    let own = k == 1;
                    let what = if own { "own" } else { "peer" };
                    log.push(format!("{what} {}", d.name(i)));
                    let before = w.handed.contains(&i);
                    let mut c = received(&d.certs[i])?;
                    let r = if own {
                        let sig = c.aggregated_signature().unwrap_or_default();
                        c.set_signature_verification_state(SignatureVerificationState::VerifiedDirectly(sig));
                        l.sync.process_own_certificate(&mut c).await
                    } else {
                        l.sync.process_peer_certificate(&mut c).await
                    };
                    let old = !own && !before && d.round(i) < w.gc();
                    let new = !before && !old && w.too_new(d.round(i));
                    if old {
                        ensure!(r.as_ref().is_err_and(is_too_old), "{what} {} is too old (horizon {}): {r:?}", d.name(i), w.gc());
                        w.look(&mut l).await?;
                    } else if new {
                        ensure!(r.as_ref().is_err_and(is_too_new), "{what} {} is too new (committed {}): {r:?}", d.name(i), w.committed);
                        w.look(&mut l).await?;
                        ensure!(w.asked.contains(&d.certs[i].digest()), "the ancestors of {} are never asked for", d.name(i));
                    } else {
                        w.arrived.insert(i);
                        let waits = w.waiting().len();
                        w.look(&mut l).await?;
                        w.late += waits.saturating_sub(w.waiting().len()).saturating_sub(1);
                        answer(&w, i, &r, what)?;
                        if !before {
                            w.batches(&l, &[i])?;
                        }
                    }
                }
                k @ (2 | 3) => {
                    // fetched together
                    let mut list: Vec<usize> = (0..g.urange(1, 12)).map(|_| any(g, &mut queue)).collect();
                    list.sort();
                    list.dedup();
                    if g.chance(1, 4) {
                        g.shuffle(&mut list);
                    }
                    let mut certs = vec![];
                    for i in &list {
                        certs.push(received(&d.certs[*i])?);
                    }
                    let parents: HashSet<HeaderDigest> = certs.iter().flat_map(|c| c.header().parents().iter().copied()).collect();
                    let direct = |c: &Certificate| !parents.contains(&c.digest()) || c.round() % interval == 0;
                    let mut refused = certs.iter().any(|c| direct(c) && c.round() < w.gc());
                    let mut what = format!("fetched {}", d.names(&list));
                    if k == 3 {
                        let (c, kind) = forge(g, &d, list[0]);
                        what += &format!(" and forged ({kind:?})");
                        let c = received(&c)?;
                        // a certificate is as good as the certificates above it
                        refused |= !d.index.contains_key(&c.digest()) || direct(&c);
                        certs.insert(g.usize(certs.len() + 1), c);
                        forged += 1;
                    }
                    log.push(what.clone());
                    let new = !refused && certs.iter().any(|c| w.too_new(c.round()));
                    let before = w.handed.clone();
                    let r = l.sync.process_fetched_certificates_in_parallel(certs).await;
                    if refused {
                        ensure!(matches!(r, Err(ref e) if !matches!(e, CertManagerError::Pending(_))), "{what}: {r:?}");
                        w.look(&mut l).await?;
                    } else if new {
                        ensure!(r.as_ref().is_err_and(is_too_new), "{what}: too new, {r:?}");
                        w.look(&mut l).await?;
                    } else {
                        w.arrived.extend(list.iter().copied());
                        let waits = w.waiting().len();
                        w.look(&mut l).await?;
                        w.late += waits.saturating_sub(w.waiting().len()).saturating_sub(list.len());
                        match r {
                            Ok(()) => {
                                let out: Vec<usize> = list.iter().copied().filter(|i| !w.handed.contains(i)).collect();
                                ensure!(out.is_empty(), "{what}: taken, but {} not handed over", d.names(&out));
                            }
                            Err(CertManagerError::Pending(_)) => {}
                            Err(e) => return Err(format!("{what}: {e}")),
                        }
                        list.retain(|i| !before.contains(i));
                        w.batches(&l, &list)?;
                    }
                }
                4 => {
                    let (c, kind) = { let i = g.usize(n); forge(g, &d, i) };
                    log.push(format!("forged ({kind:?})"));
                    forged += 1;
                    let stored = w.db.contains(&c.digest()).map_err(s("store"))?;
                    let mut c = received(&c)?;
                    let r = l.sync.process_peer_certificate(&mut c).await;
                    ensure!(stored || matches!(r, Err(ref e) if !matches!(e, CertManagerError::Pending(_))), "forged ({kind:?}): {r:?}");
                    w.look(&mut l).await?;
                }
                5 => {
                    // a commit
                    let top = w.handed.iter().map(|i| d.round(*i)).max().unwrap_or(0);
                    if top > w.committed {
                        let to = w.committed + 1 + g.below((top - w.committed) as u64) as Round;
                        log.push(format!("commit {to}"));
                        w.committed = to;
                        l.cb.app().committed_round_updates().send_replace(to);
                        w.cleared = w.cleared.max(w.gc());
                        let waits = w.waiting().len();
                        w.look(&mut l).await?;
                        w.late += waits.saturating_sub(w.waiting().len());
                    }
                }
                6 => {
                    restarts += 1;
                    log.push("restart".into());
                    l.tasks.abort();
                    settle(3).await;
                    drop(l);
                    let tables = [table::<Certificates>, table::<CertificateDigestByRound>, table::<CertificateDigestByOrigin>, table::<Payload>];
                    let _ = w.db.persist::<Certificates>().await;
                    w.db = w.db.stop(0, &tables);
                    w.cfg = config_with(&d.com, depth, w.db.clone(), me, edit)?;
                    w.arrived = w.handed.clone();
                    w.asked.clear();
                    w.given.clear();
                    // the last two rounds are given to the proposer again
                    let top = w.handed.iter().map(|i| d.round(*i)).max().unwrap_or(0);
                    w.cleared = w.gc().max(top.saturating_sub(2));
                    queue = (0..n).rev().filter(|i| !w.handed.contains(i)).collect();
                    l = start(&w.cfg, w.committed);
                    w.look(&mut l).await?;
                }
                7 => {
                    // several at once
                    let mut list: Vec<usize> = (0..g.urange(2, 4)).map(|_| any(g, &mut queue)).collect();
                    if g.bool() {
                        list.push(list[0]);
                    }
                    list.retain(|i| (w.handed.contains(i) || d.round(*i) >= w.gc()) && !w.too_new(d.round(*i)));
                    log.push(format!("at once {}", d.names(&list)));
                    let mut certs = vec![];
                    for i in &list {
                        certs.push(received(&d.certs[*i])?);
                    }
                    let r = futures::future::join_all(certs.iter_mut().map(|c| l.sync.process_peer_certificate(c))).await;
                    w.arrived.extend(list.iter().copied());
                    w.look(&mut l).await?;
                    for (i, r) in list.iter().zip(&r) {
                        ensure!(matches!(r, Ok(()) | Err(CertManagerError::Pending(_))), "{} with others: {r:?}", d.name(*i));
                    }
                }
                _ => {
                    // which parents are unknown
                    let i = g.usize(n);
                    let h = d.certs[i].header();
                    if h.round() < 2 {
                        continue;
                    }
                    log.push(format!("parents of {}?", d.name(i)));
                    let mut got = l.sync.identify_unkown_parents(h).await.map_err(s("unknown parents"))?;
                    let mut want: Vec<HeaderDigest> = d.parents[i].iter().filter(|p| !w.arrived.contains(p)).map(|p| d.certs[*p].digest()).collect();
                    got.sort();
                    want.sort();
                    ensure_eq!(got, want, "unknown parents of {}", d.name(i));
                }
            }
        }
        // at last everything arrives
        log.push("the rest".into());
        let mut rest: Vec<usize> = (0..n).collect();
        if g.bool() {
            rest.reverse();
        }
        for i in rest {
            if w.handed.contains(&i) || d.round(i) < w.gc() || w.too_new(d.round(i)) {
                continue;
            }
            let mut c = received(&d.certs[i])?;
            let sig = c.aggregated_signature().unwrap_or_default();
            c.set_signature_verification_state(SignatureVerificationState::VerifiedDirectly(sig));
            let r = l.sync.process_own_certificate(&mut c).await;
            w.arrived.insert(i);
            w.look(&mut l).await?;
            answer(&w, i, &r, "at last")?;
        }
        l.tasks.abort();
        Ok(())
    });
    g.note(|| {
        let dag: Vec<String> = (0..n).map(|i| format!("{}({})", d.name(i), d.names(&d.parents[i]))).collect();
        format!("me {}, depth {depth}, max ahead {max_diff}, interval {interval}, chunk {chunk}: {}\nDAG {}", (b'a' + me as u8) as char, log.join(", "), dag.join(" "))
    });
    g.nontrivial_if(w.late > 0 || forged > 0 && !w.handed.is_empty());
    if w.late > 0 {
        g.class("late parents");
    }
    if forged > 0 {
        g.class("forged");
    }
    if restarts > 0 {
        g.class("restart");
    }
    res
}

pub fn check(c: &mut Check) {
    c.assume("certificates of at most 14 rounds: the store keeps 64 rounds below the newest one");
    c.sub("deliveries", Budget::new(6000, 60).thorough(300_000, 1500), deliveries);
    c.sub("fetching", Budget::new(2500, 60).thorough(150_000, 1500), fetching);
    c.sub("requests", Budget::new(6000, 25).thorough(400_000, 600), requests);
}

/// How a peer answers a request for certificates.
#[derive(Clone, Debug, PartialEq)]
enum Peer {
    /// all it has that was asked for
    Honest,
    /// the first ones of these
    Short(usize),
    Empty,
    Error,
    Hangs,
    Slow,
    /// something with a forged certificate in it
    Forged,
    /// genuine ones that were not asked for
    Other,
}

struct Peers {
    d: Arc<Signed>,
    by_key: HashMap<BlsPublicKey, (Peer, ConsensusConfig<CrashDb>)>,
    /// of the node that asks
    db: CrashDb,
    log: Mutex<PeerLog>,
}

#[derive(Default)]
struct PeerLog {
    requests: usize,
    answers: usize,
    noise: u64,
    /// what the node has had since before the requests that come now
    settled: BTreeSet<usize>,
    gc: Round,
    seen: Vec<(Round, BTreeMap<AuthorityIdentifier, BTreeSet<Round>>)>,
    wrong: Option<String>,
}

#[derive(Clone)]
struct Asked(Arc<Peers>);

impl Peers {
    fn judge_request(&self, bound: Round, listed: &BTreeMap<AuthorityIdentifier, BTreeSet<Round>>) -> R {
        let log = self.log.lock().expect("log");
        let d = &self.d;
        ensure!(bound <= log.gc, "certificates above round {bound} are asked for, the horizon is {}", log.gc);
        ensure_eq!(listed.keys().cloned().collect::<BTreeSet<_>>(), d.com.by_id().iter().map(|k| k.id()).collect(), "authors in the request");
        let has = |a: &AuthorityIdentifier, r: Round| (0..d.certs.len()).find(|i| d.certs[*i].header().author() == a && d.round(*i) == r);
        for (a, rounds) in listed {
            for r in rounds {
                let known = has(a, *r).filter(|i| self.db.contains(&d.certs[*i].digest()).unwrap_or(false));
                ensure!(known.is_some(), "a certificate of round {r} is listed as known, but is not");
            }
        }
        // one request goes to several peers, one after another
        for i in log.settled.iter().filter(|_| !log.seen.contains(&(bound, listed.clone()))) {
            if d.round(*i) > bound {
                ensure!(listed[d.certs[*i].header().author()].contains(&d.round(*i)), "{} is known, but not listed in a request, only {listed:?} (known {})", d.name(*i), d.names(&log.settled));
            }
        }
        Ok(())
    }

    /// what such a request has to bring
    fn judge_answer(&self, cfg: &ConsensusConfig<CrashDb>, bound: Round, listed: &BTreeMap<AuthorityIdentifier, BTreeSet<Round>>, got: &[Certificate]) -> R {
        let d = &self.d;
        let mut want: Vec<usize> = vec![];
        for (i, c) in d.certs.iter().enumerate() {
            let has = cfg.node_storage().contains(&c.digest()).map_err(s("store"))?;
            let skip = listed.get(c.header().author()).map_or(true, |l| l.contains(&c.round()));
            if has && c.round() > bound && !skip {
                want.push(i);
            }
        }
        want.sort_by_key(|i| (d.round(*i), d.certs[*i].header().author().clone()));
        let mut have = vec![];
        for c in got {
            have.push(*d.index.get(&c.digest()).ok_or("an unknown certificate is served")?);
            ensure!(c.header() == d.certs[*have.last().expect("one")].header(), "another header is served");
            ensure_eq!(c.aggregated_signature(), d.certs[*have.last().expect("one")].aggregated_signature(), "signature that is served");
        }
        ensure_eq!(d.names(&have), d.names(&want), "served above round {bound}, without {listed:?}");
        Ok(())
    }
}

impl crate::certificate_fetcher::MissingCertFetcher for Asked {
    async fn fetch_missing_certificates(
        &self,
        peer: BlsPublicKey,
        request: crate::network::MissingCertificatesRequest,
    ) -> tn_network_libp2p::types::NetworkResult<Vec<Certificate>> {
        let p = &self.0;
        let fail = |e: String| {
            let mut log = p.log.lock().expect("log");
            log.wrong.get_or_insert(e);
            Err(tn_network_libp2p::error::NetworkError::Disconnected)
        };
        let noise = {
            let mut log = p.log.lock().expect("log");
            log.requests += 1;
            log.noise = log.noise.wrapping_mul(0x5851_f42d_4c95_7f2d).wrapping_add(0x1405_7b7e_f767_814f);
            log.noise >> 33
        };
        let mut mix = Mix(noise);
        let Some((kind, cfg)) = p.by_key.get(&peer) else {
            return fail("a stranger is asked for certificates".into());
        };
        let (bound, listed) = match request.get_bounds(1000, p.d.com.n()) {
            Ok(b) => b,
            Err(e) => return fail(format!("the request is refused: {e}")),
        };
        if let Err(e) = p.judge_request(bound, &listed) {
            return fail(e);
        }
        p.log.lock().expect("log").seen.push((bound, listed.clone()));
        let nothing = Err(tn_network_libp2p::error::NetworkError::Disconnected);
        tokio::time::sleep(std::time::Duration::from_millis(5)).await;
        let all = match crate::state_sync::CertificateCollector::new(request.exclusive_lower_bound, request.skip_rounds.clone(), cfg.clone()) {
            Ok(c) => c,
            Err(e) => return fail(format!("the request is refused by a peer: {e}")),
        };
        let all = match crate::network::verif::stream(all).await {
            Ok(c) => c,
            Err(e) => return fail(format!("an answer does not arrive: {e}")),
        };
        if let Err(e) = p.judge_answer(cfg, bound, &listed, &all) {
            return fail(e);
        }
        match kind {
            Peer::Honest => {}
            Peer::Short(k) => {
                let mut all = all;
                all.truncate(*k);
                p.log.lock().expect("log").answers += 1;
                return Ok(all);
            }
            Peer::Empty => return Ok(vec![]),
            Peer::Error => return nothing,
            Peer::Hangs => std::future::pending::<()>().await,
            Peer::Slow => tokio::time::sleep(std::time::Duration::from_secs(6 + mix.below(10))).await,
            Peer::Forged => {
                let i = mix.below(p.d.certs.len() as u64) as usize;
                let mut bad = p.d.certs[i].clone();
                let altered = HeaderBuilder::from_header(bad.header()).created_at(7777 + mix.below(5)).build();
                bad.update_header_for_test(altered);
                let mut all = if mix.below(2) == 0 { all } else { vec![] };
                let at = mix.below(all.len() as u64 + 1) as usize;
                all.insert(at, bad);
                return Ok(all);
            }
            Peer::Other => {
                let list = mix.some(&p.d.certs, 4);
                return Ok(list);
            }
        }
        p.log.lock().expect("log").answers += 1;
        Ok(all)
    }
}

/// A node that gets only some certificates asks for the rest.
fn fetching(g: &mut G) -> R {
    let d = signed(g.below(SHAPES));
    let depth = *g.pick(&[50, 4, 8]);
    let me = g.usize(d.com.n());
    let n = d.certs.len();
    let interval = *g.pick(&[50, 3, 1]);
    let edit = move |c: &mut Config, net: &mut NetworkConfig| {
        c.parameters.gc_depth = depth;
        net.sync_config_mut().certificate_verification_round_interval = interval;
    };
    let db = CrashDb::default();
    let cfg = config_with(&d.com, depth, db.clone(), me, edit)?;
    let top = d.certs.last().map_or(0, |c| c.round());
    // what is delivered
    let mut first: Vec<usize> = vec![];
    let until = g.below(top as u64) as Round;
    for i in 0..n {
        if d.round(i) <= until && d.parents[i].iter().all(|p| first.contains(p)) && g.chance(7, 8) {
            first.push(i);
        }
    }
    let mut late: Vec<usize> = (0..g.urange(1, 4)).map(|_| n - 1 - g.usize(n.min(2 * d.com.n()))).collect();
    late.dedup();
    // the peers
    let lying = (d.com.n() - 1) / 3;
    let good = d.com.n() - 1 - g.usize(lying + 1);
    let mut others: Vec<usize> = (0..d.com.n()).filter(|a| *a != me).collect();
    g.shuffle(&mut others);
    let full = CrashDb::default();
    for c in &d.certs {
        full.write(c.clone()).map_err(s("store"))?;
    }
    let full = config_with(&d.com, depth, full, others[0], edit)?;
    let part = CrashDb::default();
    let upto = g.usize(n);
    for c in &d.certs[..upto] {
        part.write(c.clone()).map_err(s("store"))?;
    }
    let part = config_with(&d.com, depth, part, others[0], edit)?;
    let mut by_key = HashMap::new();
    let mut kinds = vec![];
    for (k, a) in others.iter().enumerate() {
        let kind = if k < good {
            g.pick(&[Peer::Honest, Peer::Honest, Peer::Short(3), Peer::Short(1), Peer::Slow]).clone()
        } else {
            g.pick(&[Peer::Empty, Peer::Error, Peer::Hangs, Peer::Forged, Peer::Other, Peer::Honest, Peer::Short(2)]).clone()
        };
        let key = *d.com.by_id()[*a].0.public();
        by_key.insert(key, (kind.clone(), if k < good { full.clone() } else { part.clone() }));
        kinds.push(format!("{kind:?}"));
    }
    let log = PeerLog { noise: g.num(), ..Default::default() };
    let peers = Arc::new(Peers { d: d.clone(), by_key, db: db.clone(), log: Mutex::new(log) });
    let mut handed: BTreeSet<usize> = BTreeSet::new();
    let mut committed: Round = 0;
    let mut said = vec![];
    let mut advanced = 0;
    let res: R = paused(async {
        let cb = bus();
        let worker = Arc::new(Worker::default());
        cfg.local_network().set_primary_to_worker_local_handler(worker.clone());
        let mut ordered: Box<dyn Take<Certificate>> = Box::new(cb.subscribe_new_certificates());
        let tasks = TaskManager::default();
        let sync = StateSynchronizer::new(cfg.clone(), cb.clone(), tasks.get_spawner());
        sync.spawn(&tasks);
        crate::certificate_fetcher::CertificateFetcher::spawn(cfg.clone(), Asked(peers.clone()), cb.clone(), sync.clone(), &tasks);
        let mut due: BTreeSet<usize> = BTreeSet::new();
        let mut bottom = 0;
        macro_rules! look {
            () => {{
                settle(40).await;
                let gc = committed.saturating_sub(depth);
                while let Some(c) = ordered.take() {
                    let i = *d.index.get(&c.digest()).ok_or("a certificate that is not valid is handed over")?;
                    ensure!(c.header() == d.certs[i].header() && c.is_verified(), "{} is handed over altered or unverified", d.name(i));
                    let missing: Vec<usize> = d.parents[i].iter().copied().filter(|p| !handed.contains(p)).collect();
                    ensure!(missing.is_empty() || d.round(i) <= gc + 1, "{} is handed over before its parents {}", d.name(i), d.names(&missing));
                    ensure!(handed.insert(i), "{} is handed over again", d.name(i));
                }
                if let Some(e) = peers.log.lock().expect("log").wrong.take() {
                    return Err(e);
                }
            }};
        }
        for i in &first {
            let mut c = received(&d.certs[*i])?;
            sync.process_peer_certificate(&mut c).await.map_err(|e| format!("{}: {e}", d.name(*i)))?;
        }
        look!();
        let steps = g.urange(1, 6);
        for step in 0..=steps {
            peers.log.lock().expect("log").settled = handed.clone();
            let k = if step == steps { 0 } else { g.weighted(&[4, 2, 1, 1]) };
            match k {
                0 => {
                    let Some(i) = late.pop() else { continue };
                    if d.round(i) < committed.saturating_sub(depth) {
                        continue;
                    }
                    said.push(d.name(i));
                    let mut c = received(&d.certs[i])?;
                    let r = sync.process_peer_certificate(&mut c).await;
                    ensure!(matches!(r, Ok(()) | Err(CertManagerError::Pending(_))), "{}: {r:?}", d.name(i));
                    due.insert(i);
                }
                1 => {
                    let top = handed.iter().map(|i| d.round(*i)).max().unwrap_or(0);
                    if top > committed {
                        committed += 1 + g.below((top - committed) as u64) as Round;
                        said.push(format!("commit {committed}"));
                        peers.log.lock().expect("log").gc = committed.saturating_sub(depth);
                        bottom = bottom.max(committed.saturating_sub(depth));
                        cb.app().committed_round_updates().send_replace(committed);
                    }
                }
                2 => {
                    said.push("kick".into());
                    cb.certificate_fetcher().send(CertificateFetcherCommand::Kick).await.map_err(s("kick"))?;
                }
                _ => {
                    let ms = g.below(8000);
                    said.push(format!("{ms} ms"));
                    tokio::time::sleep(std::time::Duration::from_millis(ms)).await;
                }
            }
            look!();
        }
        // what is needed for what was delivered
        let mut need = due.clone();
        let mut todo: Vec<usize> = due.iter().copied().collect();
        while let Some(i) = todo.pop() {
            if d.round(i) > bottom + 1 {
                todo.extend(d.parents[i].iter().copied().filter(|p| need.insert(*p)));
            }
        }
        let before = handed.len();
        let mut rounds = 0;
        while !need.is_subset(&handed) && rounds < 4000 && peers.log.lock().expect("log").requests < 5000 {
            rounds += 1;
            tokio::time::sleep(std::time::Duration::from_millis(2500)).await;
            look!();
        }
        advanced = handed.len() - before;
        let lost: Vec<usize> = need.difference(&handed).copied().collect();
        ensure!(lost.is_empty(), "after {} requests {} still missing", peers.log.lock().expect("log").requests, d.names(&lost));
        // and then there is nothing more to ask for
        tokio::time::sleep(std::time::Duration::from_secs(120)).await;
        look!();
        let calm = peers.log.lock().expect("log").requests;
        tokio::time::sleep(std::time::Duration::from_secs(120)).await;
        look!();
        let now = peers.log.lock().expect("log").requests;
        ensure_eq!(now, calm, "requests once nothing is missing");
        tasks.abort();
        Ok(())
    });
    let asked = peers.log.lock().expect("log").requests;
    g.note(|| format!("me {}, depth {depth}, first {}, then {}; peers {}; {asked} requests, {} answers", (b'a' + me as u8) as char, d.names(&first), said.join(", "), kinds.join(" "), peers.log.lock().expect("log").answers));
    g.nontrivial_if(asked > 0 && advanced > 0);
    if kinds.iter().any(|k| k == "Forged" || k == "Other") && asked > 0 {
        g.class("lying peers");
    }
    if asked > 3 {
        g.class("several requests");
    }
    res
}

/// What a peer may ask for, in any form.
fn requests(g: &mut G) -> R {
    let d = signed(g.below(SHAPES));
    let max = *g.pick(&[1000, 3, 8]);
    let db = CrashDb::default();
    for c in &d.certs {
        if g.chance(4, 5) {
            db.write(c.clone()).map_err(s("store"))?;
        }
    }
    let cfg = config_with(&d.com, 50, db.clone(), 0, move |_, net| {
        net.sync_config_mut().max_skip_rounds_for_missing_certs = max;
    })?;
    let top = d.certs.last().map_or(0, |c| c.round());
    let bound = if g.chance(1, 12) { u32::MAX - g.below(4) as u32 } else { g.below(top as u64 + 3) as Round };
    let mut listed: BTreeMap<AuthorityIdentifier, BTreeSet<Round>> = BTreeMap::new();
    let ids = d.com.by_id();
    for k in &ids {
        if g.chance(5, 6) {
            let far = g.chance(1, 20);
            let set = g.vec(0, 12, 4, |g| if far { g.num32() } else { g.below(16) as u32 });
            listed.insert(k.id(), set.into_iter().map(|r| bound.saturating_add(r)).collect());
        }
    }
    if g.chance(1, 10) {
        listed.insert(AuthorityIdentifier::dummy_for_test(g.u8()), BTreeSet::from([bound]));
    }
    let mut request = crate::network::MissingCertificatesRequest::default().set_bounds(bound, listed.clone()).map_err(s("request"))?;
    let back = request.get_bounds(usize::MAX, usize::MAX).map_err(s("read back"))?;
    ensure_eq!(back, (bound, listed.clone()), "a request read back");
    // as someone hostile may alter it
    let mut altered = false;
    let mut overflow = false;
    if g.chance(1, 3) && !request.skip_rounds.is_empty() {
        altered = true;
        for _ in 0..g.urange(1, 3) {
            let at = g.usize(request.skip_rounds.len());
            let l = &mut request.skip_rounds[at].1;
            match g.below(6) {
                0 => *l = g.blob(40),
                1 => l.truncate(g.usize(l.len() + 1)),
                2 if !l.is_empty() => {
                    let at = g.usize(l.len());
                    l[at] = g.u8();
                }
                3 if l.len() >= 8 => {
                    // declare many containers
                    let n = g.num32();
                    l[4..8].copy_from_slice(&n.to_le_bytes());
                }
                4 => {
                    let again = request.skip_rounds[at].clone();
                    request.skip_rounds.push(again);
                }
                _ => {
                    request.exclusive_lower_bound = g.num32();
                    overflow = true;
                }
            }
        }
    }
    let too_many = listed.len() > d.com.n() || listed.values().any(|l| l.len() > max);
    let mut res: Result<Vec<Certificate>, String> = Err("not run".into());
    paused(async {
        res = match crate::state_sync::CertificateCollector::new(request.exclusive_lower_bound, request.skip_rounds.clone(), cfg.clone()) {
            Ok(c) => crate::network::verif::stream(c).await.map_err(|e| format!("stream: {e}")),
            Err(e) => Err(e.to_string()),
        };
    });
    let served = res.as_ref().map_or(0, |l| l.len());
    g.note(|| format!("max {max}, above {bound}, without {listed:?}, altered {altered} ({overflow}): {:?}", res.as_ref().map(|l| l.len())));
    g.nontrivial_if(served > 0 || altered || too_many);
    g.class(if altered { "altered" } else if too_many { "too many" } else { "plain" });
    if altered {
        // whatever it is, nothing but what is stored above the bound is served, in order
        if let Ok(l) = res {
            let mut last = (0, None);
            for c in l {
                let i = *d.index.get(&c.digest()).ok_or("an unknown certificate is served")?;
                ensure!(db.contains(&c.digest()).map_err(s("store"))?, "{} is served but not stored", d.name(i));
                ensure!(c.round() > request.exclusive_lower_bound, "{} is served, above {}", d.name(i), request.exclusive_lower_bound);
                let here = (c.round(), Some(c.header().author().clone()));
                ensure!(here > last, "{} is served out of order", d.name(i));
                last = here;
            }
        } else if let Err(e) = res {
            ensure!(!e.starts_with("stream"), "{e}");
        }
        return Ok(());
    }
    match res {
        Err(e) => ensure!(too_many && !e.starts_with("stream"), "refused: {e}"),
        Ok(got) => {
            ensure!(!too_many, "a request that lists more than allowed is served");
            let mut want: Vec<usize> = vec![];
            for (i, c) in d.certs.iter().enumerate() {
                let has = db.contains(&c.digest()).map_err(s("store"))?;
                if has && c.round() > bound && listed.get(c.header().author()).is_some_and(|l| !l.contains(&c.round())) {
                    want.push(i);
                }
            }
            want.sort_by_key(|i| (d.round(*i), d.certs[*i].header().author().clone()));
            let have: Vec<usize> = got.iter().filter_map(|c| d.index.get(&c.digest()).copied()).collect();
            ensure_eq!(d.names(&have), d.names(&want), "served");
            ensure_eq!(have.len(), got.len(), "certificates served");
        }
    }
    Ok(())
}
