//! C05: what a validator votes for.

use super::{
    c02::{bus, config_with, settle},
    c06::{forge, received, signed, Signed, SHAPES},
    db::{table, CrashDb},
    handler::{paused, Net},
};
use crate::{
    error::PrimaryNetworkResult,
    network::{verif::vote, PrimaryResponse},
    ConsensusBus,
};
use std::{
    collections::{BTreeMap, BTreeSet, HashMap, HashSet},
    sync::{Arc, Mutex, OnceLock},
    time::Duration,
};
use tn_config::{Config, ConsensusConfig, NetworkConfig};
use tn_network_types::{PrimaryToWorkerClient, WorkerSynchronizeMessage};
use tn_storage::{
    consensus::ConsensusChain,
    tables::{CertificateDigestByOrigin, CertificateDigestByRound, Certificates, Payload, Votes},
    CertificateStore, PayloadStore,
};
use tn_types::*;

use vcore::{ensure, ensure_eq, Budget, Check, Scratch, G, R};
use vgen::*;

pub const RULE: &str = "at least one vote is given, and a request is repeated, refused for another header of the same or an earlier round, completed with parents, or made after a restart";

fn s<T: std::fmt::Display>(what: &str) -> impl Fn(T) -> String + '_ {
    move |x| format!("{what}: {x}")
}

/// A worker that has some batches.
#[derive(Default)]
struct Worker(Mutex<HashSet<BlockHash>>);

#[async_trait::async_trait]
impl PrimaryToWorkerClient for Worker {
    async fn synchronize(&self, m: WorkerSynchronizeMessage) -> eyre::Result<()> {
        let gone = self.0.lock().expect("worker");
        if m.digests.iter().any(|d| gone.contains(d)) {
            return Err(eyre::eyre!("no such batch"));
        }
        Ok(())
    }
    async fn fetch_batches(&self, _: BTreeSet<BlockHash>) -> eyre::Result<HashMap<BlockHash, Batch>> {
        Ok(Default::default())
    }
}

#[derive(Clone)]
struct Req {
    name: String,
    header: Header,
    author: usize,
    peer: BlsPublicKey,
    /// why no one may vote for it
    flaw: Option<&'static str>,
    /// indexes of parents; the rest is not in the DAG
    parents: Vec<usize>,
    twin: bool,
}

struct Life {
    net: Net<CrashDb>,
    cb: ConsensusBus,
    _rx: Vec<Box<dyn std::any::Any>>,
}

struct W {
    d: Arc<Signed>,
    me: usize,
    db: CrashDb,
    cfg: ConsensusConfig<CrashDb>,
    worker: Arc<Worker>,
    depth: Round,
    tolerance: u64,
    committed: Round,
    /// known to be accepted or waiting for parents
    arrived: BTreeSet<usize>,
    /// parents that a requester was asked for, in this life
    asked: HashMap<(Round, usize), usize>,
    /// headers voted for, in any life
    voted: BTreeMap<(usize, Round), HeaderDigest>,
    signatures: HashMap<HeaderDigest, BlsSignature>,
    /// highest round of which anything of the author was requested
    tried: BTreeMap<usize, Round>,
    /// the last header of which a vote was given, while no other was requested
    last: BTreeMap<usize, HeaderDigest>,
    /// parents the author was asked for by the last answer
    open: BTreeMap<usize, (HeaderDigest, Vec<HeaderDigest>)>,
    /// lists of missing parents given in this life
    answers: HashMap<HeaderDigest, Vec<HeaderDigest>>,
    /// authors that sent a header of a later epoch, in this life
    ahead: BTreeSet<usize>,
    batch: u64,
    count: usize,
}

fn chain() -> Result<ConsensusChain, String> {
    static ONE: OnceLock<(Scratch, ConsensusChain)> = OnceLock::new();
    if let Some((_, c)) = ONE.get() {
        return Ok(c.clone());
    }
    let dir = Scratch::new();
    let com = Com::of(&[0, 1, 2, 3], 0);
    let c = ConsensusChain::new(dir.path().to_path_buf(), com.committee).map_err(s("open"))?;
    Ok(ONE.get_or_init(|| (dir, c)).1.clone())
}

fn start(w: &W) -> Result<Life, String> {
    let cb = bus();
    cb.app().committed_round_updates().send_replace(w.committed);
    w.cfg.local_network().set_primary_to_worker_local_handler(w.worker.clone());
    let rx: Vec<Box<dyn std::any::Any>> =
        vec![Box::new(cb.subscribe_new_certificates()), Box::new(cb.subscribe_certificate_fetcher()), Box::new(cb.subscribe_parents())];
    let net = Net::new(w.cfg.clone(), &cb, chain()?);
    net.sync.spawn(&net.tasks);
    Ok(Life { net, cb, _rx: rx })
}

impl W {
    fn stored(&self) -> Result<BTreeSet<usize>, String> {
        let mut out = BTreeSet::new();
        for (i, c) in self.d.certs.iter().enumerate() {
            if self.db.contains(&c.digest()).map_err(s("store"))? {
                out.insert(i);
            }
        }
        Ok(out)
    }

    fn letter(&self, a: usize) -> char {
        (b'a' + a as u8) as char
    }

    /// a header of that author; if not `flaw`, one that has to be voted for
    fn request(&mut self, g: &mut G, a: usize, round: Round, flawed: bool) -> Req {
        let d = self.d.clone();
        let ids = d.com.by_id();
        let quorum = d.com.quorum();
        let epoch = d.com.committee.epoch();
        let genesis: Vec<HeaderDigest> = Certificate::genesis(&d.com.committee).iter().map(|c| c.digest()).collect();
        let before: Vec<usize> = (0..d.certs.len()).filter(|i| d.round(*i) + 1 == round).collect();
        let mut parents: Vec<usize> = vec![];
        let mut digests: BTreeSet<HeaderDigest>;
        let mut flaw = None;
        if round <= 1 {
            digests = genesis.iter().copied().take(quorum + g.usize(d.com.n() - quorum + 1)).collect();
        } else {
            let mut list = before.clone();
            g.shuffle(&mut list);
            list.truncate(quorum + g.usize(before.len() - quorum + 1));
            list.sort();
            parents = list;
            digests = parents.iter().map(|p| d.certs[*p].digest()).collect();
        }
        let newest = parents.iter().map(|p| *d.certs[*p].header().created_at()).max().unwrap_or(0);
        let now = now();
        let mut created = match g.below(4) {
            0 => newest,
            1 => now,
            2 => newest + g.below(1000),
            _ if self.tolerance > 1 => now + self.tolerance - 100,
            _ => now - 1,
        };
        let mut payload: Vec<(BlockHash, WorkerId)> = vec![];
        for _ in 0..g.below(3) {
            self.batch += 1;
            payload.push((keccak256((self.batch << 32).to_be_bytes()), 0));
        }
        let mut peer = ids[a].pk();
        let mut author = ids[a].id();
        let mut header_epoch = epoch;
        let mut round_in = round;
        let mut block = BlockNumHash::default();
        let message = EpochSeedMessage::new(epoch, round, self.cfg.prior_epoch_record());
        let mut seed = message.sign(ids[a]);
        let mut twin = false;
        if flawed {
            let kinds = [
                "epoch", "author", "peer", "few", "round of a parent", "unknown parent", "twin parents", "too old", "too new", "batches",
                "worker", "round 0", "seed", "block", "payload",
            ];
            let kind = *g.pick(&kinds);
            flaw = Some(kind);
            match kind {
                "epoch" => header_epoch = if g.bool() || epoch == 0 { epoch + 1 } else { epoch - 1 },
                "author" => {
                    let o = d.com.outsider(g);
                    author = o.id();
                    peer = o.pk();
                }
                "peer" => peer = if g.bool() { ids[(a + 1) % ids.len()].pk() } else { d.com.outsider(g).pk() },
                "few" => {
                    digests = digests.into_iter().take(quorum - 1 - g.usize(quorum)).collect();
                    parents.retain(|p| digests.contains(&d.certs[*p].digest()));
                }
                "round of a parent" if round >= 2 => {
                    // one parent of another round
                    let other: Vec<usize> = (0..d.certs.len()).filter(|i| d.round(*i) + 1 != round).collect();
                    let extra = *g.pick(&other);
                    if g.bool() && parents.len() > quorum - 1 {
                        let gone = parents.remove(0);
                        digests.remove(&d.certs[gone].digest());
                    } else if parents.len() == d.com.n() {
                        let gone = parents.remove(0);
                        digests.remove(&d.certs[gone].digest());
                    }
                    digests.insert(d.certs[extra].digest());
                    parents.push(extra);
                    created = now;
                }
                "round of a parent" => {
                    digests.insert(d.certs[0].digest());
                }
                "unknown parent" => {
                    if digests.len() == d.com.n() {
                        digests.pop_first();
                        parents.retain(|p| digests.contains(&d.certs[*p].digest()));
                    }
                    digests.insert(HeaderDigest::new(vgen::b256(g).0));
                }
                "twin parents" if round >= 2 => {
                    // too few authors, one of them twice
                    digests = digests.into_iter().take(quorum - 1).collect();
                    parents.retain(|p| digests.contains(&d.certs[*p].digest()));
                    twin = true;
                    digests.insert(twin_of(&d, parents[0]).digest());
                    created = now;
                }
                "twin parents" => {
                    digests = digests.into_iter().take(quorum - 1).collect();
                }
                "too old" if newest > 0 => created = newest - 1 - g.below(500),
                "too old" => peer = d.com.outsider(g).pk(),
                // real time passes: far enough not to be caught up with during a run
                "too new" => created = now + self.tolerance + 20 + if g.bool() { g.below(10) } else { g.below(1 << 30) },
                "batches" => {
                    while payload.len() <= MAX_HEADER_NUM_OF_BATCHES {
                        self.batch += 1;
                        payload.push((keccak256(self.batch.to_be_bytes()), 0));
                    }
                }
                "worker" => payload.push((vgen::b256(g), 1 + g.below(3) as WorkerId)),
                "round 0" => {
                    round_in = 0;
                }
                "seed" => {
                    seed = match g.below(3) {
                        0 => EpochSeedMessage::new(epoch, round + 1, self.cfg.prior_epoch_record()).sign(ids[a]),
                        1 => message.sign(ids[(a + 1) % ids.len()]),
                        _ => EpochSeedMessage::new(epoch + 1, round, self.cfg.prior_epoch_record()).sign(ids[a]),
                    };
                    // before the fork there is none in it
                    flaw = flaw.filter(|_| forks::seed_signature_active(epoch));
                }
                "block" => {
                    block = match g.below(3) {
                        0 => BlockNumHash::new(0, vgen::b256(g)),
                        1 => BlockNumHash::new(1 + g.below(3), vgen::b256(g)),
                        _ => BlockNumHash::new(3, B256::default()),
                    };
                    if block == BlockNumHash::default() {
                        block.number = 1;
                    }
                }
                _ => {
                    // the worker cannot get it
                    self.batch += 1;
                    let mut b = [0xee; 32];
                    b[..8].copy_from_slice(&self.batch.to_be_bytes());
                    payload.push((B256::from(b), 0));
                    self.worker.0.lock().expect("worker").insert(B256::from(b));
                }
            }
        }
        let b = HeaderBuilder::default()
            .author(author)
            .round(round_in)
            .epoch(header_epoch)
            .parents(digests)
            .payload(payload.into_iter().collect())
            .created_at(created)
            .latest_execution_block(block)
            .seed_signature(seed);
        self.count += 1;
        let name = format!("{}{round}#{}{}", self.letter(a), self.count, flaw.map_or(String::new(), |f| format!(" ({f})")));
        Req { name, header: b.build(), author: a, peer, flaw, parents, twin }
    }

    fn live(&self, r: Round) -> bool {
        self.committed <= r && r <= self.committed + self.depth
    }

    fn outcome(&mut self, q: &Req, r: &PrimaryNetworkResult<PrimaryResponse>) -> R {
        let Ok(PrimaryResponse::Vote(v)) = r else { return Ok(()) };
        let what = &q.name;
        if let Some(f) = q.flaw {
            return Err(format!("{what} is voted for in spite of its {f}"));
        }
        let h = &q.header;
        let ids = self.d.com.by_id();
        ensure_eq!(v.header_digest(), h.digest(), "header in the vote for {what}");
        ensure_eq!((v.round(), v.epoch()), (h.round(), h.epoch()), "round and epoch in the vote for {what}");
        ensure!(v.origin() == h.author() && *v.author() == ids[self.me].id(), "names in the vote for {what}");
        match self.signatures.get(&h.digest()) {
            Some(sig) => ensure!(sig == v.signature(), "another signature for {what}"),
            None => {
                let digest: Digest<32> = h.digest().into();
                ensure!(v.signature().verify_secure(&to_intent_message(digest), &ids[self.me].pk()), "the signature for {what} is wrong");
                self.signatures.insert(h.digest(), *v.signature());
            }
        }
        let first = match self.voted.get(&(q.author, h.round())) {
            Some(other) => {
                ensure_eq!(*other, h.digest(), "two headers voted for: {what}");
                false
            }
            None => true,
        };
        if first {
            ensure!(h.round() <= self.committed + self.depth, "{what} is voted for, too far ahead of round {}", self.committed);
            let later = self.voted.range((q.author, h.round())..(q.author, Round::MAX)).next();
            ensure!(later.is_none(), "{what} is voted for after a later round: {later:?}");
            if h.round() > 1 {
                let stored = self.stored()?;
                let unknown: Vec<usize> = q.parents.iter().copied().filter(|p| !stored.contains(p)).collect();
                ensure!(unknown.is_empty(), "{what} is voted for without {}", self.d.names(&unknown));
            }
            for (b, w) in h.payload() {
                ensure!(self.db.contains_payload(*b, *w).map_err(s("payload"))?, "{what} is voted for without a batch");
            }
            self.voted.insert((q.author, h.round()), h.digest());
        }
        // a stop right now must not make the node forget
        let disk = self.db.disk().get::<Votes>(h.author()).map_err(s("disk"))?;
        let safe = disk.as_ref().is_some_and(|i| {
            i.epoch() == h.epoch() && (i.round() > h.round() || i.round() == h.round() && HeaderDigest::from(i.vote_digest()) == h.digest())
        });
        ensure!(safe, "the vote for {what} is given, but on disk is {disk:?}");
        Ok(())
    }
}

/// Another certificate of the same author and round.
fn twin_of(d: &Signed, i: usize) -> Certificate {
    static ALL: OnceLock<Mutex<HashMap<HeaderDigest, Certificate>>> = OnceLock::new();
    let mut all = ALL.get_or_init(Default::default).lock().expect("twins");
    all.entry(d.certs[i].digest())
        .or_insert_with(|| {
            let h = HeaderBuilder::from_header(d.certs[i].header()).created_at(d.certs[i].header().created_at() + 1).build();
            let ids = d.com.by_id();
            let vs = votes(&h, ids.iter());
            Certificate::new_unverified(&d.com.committee, h, vs).expect("twin")
        })
        .clone()
}

async fn deliver(l: &Life, c: &Certificate) -> R {
    let mut c = received(c)?;
    let sig = c.aggregated_signature().unwrap_or_default();
    c.set_signature_verification_state(SignatureVerificationState::VerifiedDirectly(sig));
    let _ = l.net.sync.process_own_certificate(&mut c).await;
    settle(10).await;
    Ok(())
}

fn voting(g: &mut G) -> R {
    // waiting for a certificate is a matter of the whole process: one node at a time has these
    static LOCKS: [Mutex<()>; SHAPES as usize] = [const { Mutex::new(()) }; SHAPES as usize];
    let shape = g.below(SHAPES);
    let _lock = LOCKS[shape as usize].lock().unwrap_or_else(|e| e.into_inner());
    let d = signed(shape);
    let n = d.com.n();
    let depth = *g.pick(&[50, 50, 6]);
    let tolerance = *g.pick(&[1, 1, 1000]);
    let delay = if tolerance > 1 { 10_000 } else { *g.pick(&[10, 40, 10_000]) };
    let me = g.usize(n);
    let edit = move |c: &mut Config, net: &mut NetworkConfig| {
        c.parameters.gc_depth = depth;
        c.parameters.max_header_delay = Duration::from_secs(delay);
        net.sync_config_mut().max_header_time_drift_tolerance = tolerance;
    };
    let db = CrashDb::default();
    let cfg = config_with(&d.com, depth, db.clone(), me, edit)?;
    let mut w = W {
        d: d.clone(),
        me,
        db,
        cfg,
        worker: Default::default(),
        depth,
        tolerance,
        committed: 0,
        arrived: BTreeSet::new(),
        asked: HashMap::new(),
        voted: BTreeMap::new(),
        signatures: HashMap::new(),
        tried: BTreeMap::new(),
        last: BTreeMap::new(),
        open: BTreeMap::new(),
        answers: HashMap::new(),
        ahead: BTreeSet::new(),
        batch: 0,
        count: 0,
    };
    let epoch = d.com.committee.epoch();
    let others: Vec<usize> = (0..n).filter(|a| *a != me).collect();
    let mut log: Vec<String> = vec![];
    // an earlier epoch left a vote behind
    if epoch > 0 && g.chance(1, 4) {
        let a = *g.pick(&others);
        let info = VoteInfo { epoch: epoch - 1, round: 100, vote_digest: VoteDigest::new(g.arr32()) };
        w.db.insert::<Votes>(&d.com.by_id()[a].id(), &info).map_err(s("vote"))?;
        log.push(format!("vote for {} in the epoch before", w.letter(a)));
    }
    // how far this node's DAG is
    let top = d.certs.last().map_or(0, |c| c.round());
    let mut upto = g.below(top as u64 + 1) as Round;
    let slow = *g.pick(&[0, 0, 20, 300]);
    w.db.slow(slow);
    let steps = g.urange(3, 25);
    let (mut given, mut again, mut refused, mut completed, mut restarts) = (0, 0, 0, 0, 0);
    let mut pool: Vec<Req> = vec![];
    let res: R = paused(async {
        let mut l = start(&w)?;
        for (i, c) in d.certs.iter().enumerate() {
            if d.round(i) <= upto {
                deliver(&l, c).await?;
                w.arrived.insert(i);
            }
        }
        for _ in 0..steps {
            match g.weighted(&[9, 4, 3, 3, 2, 2, 2]) {
                k @ (0 | 1 | 2) => {
                    // one request: new, again, or another one of an old round
                    let q = if k == 1 && !pool.is_empty() {
                        g.pick(&pool).clone()
                    } else {
                        let a = *g.pick(&others);
                        let tried = w.tried.get(&a).copied().unwrap_or(0);
                        let round = if k == 2 && tried > 0 { 1 + g.below(tried as u64) as Round } else { (tried + 1).max(upto.saturating_sub(2) + g.below(4) as Round) };
                        let round = round.clamp(1, top + 1);
                        let flawed = g.chance(1, 4);
                        w.request(g, a, round, flawed)
                    };
                    let a = q.author;
                    let round = q.header.round();
                    let digest = q.header.digest();
                    // the certificates that come with it
                    let wanted = w.open.get(&a).filter(|(h, _)| *h == digest).map(|(_, l)| l.clone()).unwrap_or_default();
                    let mut with: Vec<Certificate> = vec![];
                    let mut clean = true;
                    if q.twin {
                        deliver(&l, &twin_of(&d, q.parents[0])).await?;
                    }
                    match g.below(if wanted.is_empty() { 12 } else { 4 }) {
                        0 | 1 if !wanted.is_empty() => {
                            // what was asked for
                            with = wanted.iter().filter_map(|p| d.index.get(p)).map(|i| d.certs[*i].clone()).collect();
                            clean = with.len() == wanted.len();
                        }
                        2 | 3 => {
                            // something else
                            clean = false;
                            with = wanted.iter().filter_map(|p| d.index.get(p)).map(|i| d.certs[*i].clone()).collect();
                            for _ in 0..g.urange(1, 3) {
                                let i = if q.parents.is_empty() || g.chance(1, 4) { g.usize(d.certs.len()) } else { *g.pick(&q.parents) };
                                let c = if g.bool() { forge(g, &d, i).0 } else { d.certs[i].clone() };
                                if !with.is_empty() && g.chance(2, 3) {
                                    let at = g.usize(with.len());
                                    with[at] = c;
                                } else {
                                    with.push(c);
                                }
                            }
                        }
                        _ => {}
                    }
                    let stored = w.stored()?;
                    let unknown: Vec<usize> = q.parents.iter().copied().filter(|p| !stored.contains(p)).collect();
                    log.push(format!("{}{}", q.name, if with.is_empty() { String::new() } else { format!(" with {} certificates{}", with.len(), if clean { "" } else { " (odd)" }) }));
                    let repeated = w.last.get(&a) == Some(&digest);
                    let newer = w.tried.get(&a).map_or(true, |t| round > *t) || !wanted.is_empty();
                    // all that is needed for a vote is there, or comes along
                    let ready = if with.is_empty() {
                        unknown.is_empty()
                    } else {
                        clean && unknown.iter().all(|p| with.iter().any(|c| c.digest() == d.certs[*p].digest()) && d.round(*p) >= w.committed.saturating_sub(depth) && d.parents[*p].iter().all(|x| stored.contains(x)))
                    };
                    let due = q.flaw.is_none() && (repeated || newer && ready && !w.ahead.contains(&a) && w.live(round) && (with.is_empty() || !wanted.is_empty()));
                    let r = vote(&l.net.handler, q.peer, q.header.clone(), with.clone()).await;
                    settle(10).await;
                    w.outcome(&q, &r).map_err(|e| format!("{e}, {log:?}"))?;
                    let voted = matches!(r, Ok(PrimaryResponse::Vote(_)));
                    ensure!(voted || !due, "{}: no vote, but {r:?}", q.name);
                    // what was accepted on the way
                    let now = w.stored()?;
                    for i in now.difference(&stored) {
                        let waited = w.arrived.contains(i);
                        let asked = w.asked.get(&(d.round(*i), *i)) == Some(&a) && with.iter().any(|c| c.digest() == d.certs[*i].digest());
                        ensure!(waited || asked, "{} is accepted from {} without being asked for", d.name(*i), w.letter(a));
                        let c = w.db.read(d.certs[*i].digest()).map_err(s("read"))?.ok_or("gone")?;
                        ensure!(waited || c.is_verified() && c.aggregated_signature() == d.certs[*i].aggregated_signature(), "{} is accepted with another signature", d.name(*i));
                    }
                    w.arrived.extend(now.iter().copied());
                    for c in &with {
                        // may wait for its own parents now
                        if let Some(i) = d.index.get(&c.digest()) {
                            if w.asked.get(&(d.round(*i), *i)) == Some(&a) && c.aggregated_signature() == d.certs[*i].aggregated_signature() {
                                w.arrived.insert(*i);
                            }
                        }
                    }
                    let genuine = q.peer == d.com.by_id()[a].pk() && q.flaw != Some("author") && q.flaw != Some("peer");
                    if genuine && q.header.epoch() > epoch {
                        w.ahead.insert(a);
                    }
                    if genuine {
                        let t = w.tried.entry(a).or_default();
                        *t = (*t).max(round);
                    }
                    match &r {
                        Ok(PrimaryResponse::MissingParents(list)) => {
                            // the same answer may be given again
                            let cached = w.answers.get(&digest) == Some(list);
                            for p in list {
                                let i = d.index.get(p).copied();
                                if let Some(i) = i {
                                    ensure!(cached || !w.arrived.contains(&i) || unknown.contains(&i), "{} is asked for, but known", d.name(i));
                                    ensure!(q.parents.contains(&i), "{} is asked for, but no parent of {}", d.name(i), q.name);
                                    if !cached {
                                        ensure!(!w.asked.contains_key(&(round.saturating_sub(1), i)), "{} is asked for a second time", d.name(i));
                                        w.asked.insert((round.saturating_sub(1), i), a);
                                    }
                                }
                            }
                            ensure!(!list.is_empty(), "{}: nothing is asked for", q.name);
                            if with.is_empty() && q.flaw.is_none() {
                                let left: Vec<usize> = unknown.iter().copied().filter(|i| !w.asked.contains_key(&(d.round(*i), *i)) && !w.arrived.contains(i)).collect();
                                ensure!(left.is_empty(), "{}: {} not asked for", q.name, d.names(&left));
                            }
                            w.answers.insert(digest, list.clone());
                            w.open.insert(a, (digest, list.clone()));
                        }
                        _ if genuine && (voted || wanted.is_empty() || !clean) => {
                            w.open.remove(&a);
                        }
                        _ => {}
                    }
                    if voted {
                        given += 1;
                        again += repeated as usize;
                        completed += (!with.is_empty()) as usize;
                        w.last.insert(a, digest);
                    } else if genuine {
                        refused += (q.flaw.is_none() && w.voted.range((a, round)..).next().is_some_and(|((b, _), _)| *b == a)) as usize;
                    }
                    pool.push(q);
                }
                3 => {
                    // several at once
                    let a = *g.pick(&others);
                    let tried = w.tried.get(&a).copied().unwrap_or(0);
                    let round = if g.bool() { tried + 1 } else { upto + 1 }.clamp(1, top + 1);
                    let mut list: Vec<Req> = vec![];
                    for _ in 0..g.urange(2, 4) {
                        if !pool.is_empty() && g.chance(1, 4) {
                            list.push(g.pick(&pool).clone());
                        } else if !list.is_empty() && g.chance(1, 4) {
                            list.push(list[0].clone());
                        } else {
                            let r = (round + g.below(2) as Round).min(top + 1);
                            let flawed = g.chance(1, 8);
                            let a = if g.chance(4, 5) { a } else { *g.pick(&others) };
                            list.push(w.request(g, a, r, flawed));
                        }
                    }
                    let stop = g.chance(1, 3).then(|| g.below(if slow > 0 { 2 * slow } else { 20 }));
                    log.push(format!("at once {}{}", list.iter().map(|q| q.name.clone()).collect::<Vec<_>>().join(" | "), stop.map_or(String::new(), |ms| format!(", stopped after {ms} ms"))));
                    for q in &list {
                        if q.twin {
                            deliver(&l, &twin_of(&d, q.parents[0])).await?;
                        }
                        let t = w.tried.entry(q.author).or_default();
                        *t = (*t).max(q.header.round());
                        w.last.remove(&q.author);
                        w.open.remove(&q.author);
                        if q.header.epoch() > epoch {
                            w.ahead.insert(q.author);
                        }
                    }
                    let cell = Mutex::new(&mut w);
                    let handler = &l.net.handler;
                    let later: Vec<u64> = list.iter().map(|_| if slow > 0 && g.bool() { 1 + g.below(slow) } else { 0 }).collect();
                    let all = futures::future::join_all(list.iter().zip(&later).map(|(q, later)| {
                        let cell = &cell;
                        async move {
                            if *later > 0 {
                                tokio::time::sleep(Duration::from_millis(*later)).await;
                            }
                            let r = vote(handler, q.peer, q.header.clone(), vec![]).await;
                            let mut w = cell.lock().expect("world");
                            w.outcome(q, &r)?;
                            if let Ok(PrimaryResponse::MissingParents(l)) = &r {
                                w.answers.insert(q.header.digest(), l.clone());
                                for p in l {
                                    if let Some(i) = w.d.index.get(p).copied() {
                                        w.asked.entry((q.header.round().saturating_sub(1), i)).or_insert(q.author);
                                    }
                                }
                            }
                            Ok::<bool, String>(matches!(r, Ok(PrimaryResponse::Vote(_))))
                        }
                    }));
                    let done = match stop {
                        Some(ms) => tokio::time::timeout(Duration::from_millis(ms), all).await.ok(),
                        None => Some(all.await),
                    };
                    for r in done.unwrap_or_default() {
                        given += r.map_err(|e| format!("{e}, {log:?}"))? as usize;
                    }
                    settle(10).await;
                    w.arrived.extend(w.stored()?);
                    pool.extend(list);
                    if stop.is_some() {
                        restarts += 1;
                        restart(g, &mut w, &mut l, edit).await?;
                    }
                }
                4 => {
                    // the DAG grows
                    if upto < top {
                        upto += 1;
                        log.push(format!("round {upto}"));
                        for (i, c) in d.certs.iter().enumerate() {
                            if d.round(i) <= upto && !w.arrived.contains(&i) && g.chance(7, 8) {
                                deliver(&l, c).await?;
                                w.arrived.insert(i);
                            }
                        }
                    } else if w.committed < top {
                        w.committed += 1 + g.below(2) as Round;
                        log.push(format!("commit {}", w.committed));
                        l.cb.app().committed_round_updates().send_replace(w.committed);
                        settle(20).await;
                    }
                }
                5 => {
                    log.push("restart".into());
                    restarts += 1;
                    restart(g, &mut w, &mut l, edit).await?;
                }
                _ => {
                    // the disk fails
                    let a = *g.pick(&others);
                    let round = (w.tried.get(&a).copied().unwrap_or(0) + 1).clamp(1, top + 1);
                    let q = if g.bool() || pool.is_empty() { w.request(g, a, round, false) } else { g.pick(&pool).clone() };
                    log.push(format!("{} while the disk fails", q.name));
                    let t = w.tried.entry(q.author).or_default();
                    *t = (*t).max(q.header.round());
                    w.last.remove(&q.author);
                    w.open.remove(&q.author);
                    w.db.broken(true);
                    let before = w.db.get::<Votes>(q.header.author()).map_err(s("votes"))?;
                    let mut r = Ok(PrimaryResponse::MissingParents(vec![]));
                    for _ in 0..g.urange(1, 3) {
                        r = vote(&l.net.handler, q.peer, q.header.clone(), vec![]).await;
                        ensure!(!matches!(r, Ok(PrimaryResponse::Vote(_))), "{}: a vote although it cannot be made durable", q.name);
                    }
                    let after = w.db.get::<Votes>(q.header.author()).map_err(s("votes"))?;
                    if before != after {
                        ensure!(w.cfg.shutdown().subscribe().noticed(), "{}: the node goes on although its disk fails: {r:?}", q.name);
                    }
                    w.db.broken(false);
                    pool.push(q);
                    restarts += 1;
                    restart(g, &mut w, &mut l, edit).await?;
                }
            }
            if pool.len() > 8 {
                pool.remove(g.usize(8));
            }
        }
        l.net.tasks.abort();
        Ok(())
    });
    g.note(|| format!("me {}, {} members, depth {depth}, tolerance {tolerance}, delay {delay}, slow {slow}: {}", (b'a' + me as u8) as char, n, log.join(", ")));
    g.nontrivial_if(given > 0 && (again + refused + completed + restarts > 0));
    for (n, c) in [("repeated", again), ("refused", refused), ("completed", completed), ("restart", restarts)] {
        if c > 0 {
            g.class(n);
        }
    }
    res
}

async fn restart(g: &mut G, w: &mut W, l: &mut Life, edit: impl FnOnce(&mut Config, &mut NetworkConfig)) -> R {
    l.net.tasks.abort();
    settle(3).await;
    // the certificates are not what this is about
    let tables = [table::<Votes>, table::<Certificates>, table::<CertificateDigestByRound>, table::<CertificateDigestByOrigin>, table::<Payload>];
    let extra = if g.bool() { 0 } else { g.usize(40) };
    w.db = w.db.stop(extra, &tables);
    w.cfg = config_with(&w.d.com, w.depth, w.db.clone(), w.me, edit)?;
    // a vote that was recorded but not given is as good as given
    for (a, k) in w.d.com.by_id().iter().enumerate() {
        if let Some(i) = w.db.get::<Votes>(&k.id()).map_err(s("votes"))? {
            if i.epoch() == w.d.com.committee.epoch() {
                let h = HeaderDigest::from(i.vote_digest());
                ensure_eq!(*w.voted.entry((a, i.round())).or_insert(h), h, "recorded vote for round {} of {}", i.round(), (b'a' + a as u8) as char);
            }
        }
    }
    w.asked.clear();
    w.open.clear();
    w.ahead.clear();
    w.answers.clear();
    *l = start(w)?;
    settle(10).await;
    w.arrived = w.stored()?;
    let again: Vec<usize> = (0..w.d.certs.len()).filter(|_| g.chance(1, 2)).collect();
    let top = again.len();
    for i in again {
        // what it had, mostly
        if w.d.round(i) as usize <= top && w.d.parents[i].iter().all(|p| w.arrived.contains(p)) {
            deliver(l, &w.d.certs[i]).await?;
            w.arrived.insert(i);
        }
    }
    Ok(())
}

pub fn check(c: &mut Check) {
    c.assume("what was made durable survives a stop, and of later writes any first part");
    c.sub("voting", Budget::new(6000, 70).thorough(300_000, 1500), voting);
}
