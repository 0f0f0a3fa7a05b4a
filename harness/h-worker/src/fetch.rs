//! Fetching, synchronizing, prefetching and taking batches, with peers that do whatever they like.

use crate::{
    streams::{pair, Remote},
    w02::{config, paused, s, Cmd, Forward, Told},
};
use futures::{AsyncReadExt as _, AsyncWriteExt as _};
use std::{
    collections::{BTreeSet, HashMap},
    sync::{Arc, Mutex, OnceLock},
    time::Duration,
};
use tn_config::{ConsensusConfig, LibP2pConfig};
use tn_network_libp2p::{
    error::NetworkError, read_frame, types::NetworkCommand, types::NetworkHandle, write_frame, DenyReason, GossipMessage, StreamError,
    SyncFrame, SyncFrameError, TopicHash, WorkerSyncRequest,
};
use tn_network_types::{PrimaryToWorkerClient as _, WorkerSynchronizeMessage};
use tn_storage::{consensus::ConsensusChain, mem_db::MemDatabase, tables::NodeBatchesCache};
use tn_types::*;
use tn_worker::{
    new_worker, RequestHandler, WorkerGossip, WorkerNetworkError, WorkerNetworkHandle, MAX_BATCH_DIGESTS_PER_REQUEST,
    MAX_CONCURRENT_GOSSIP_PREFETCHES,
};
use tokio::{
    sync::mpsc,
    time::{sleep, Instant},
};
use vcore::{ensure, ensure_eq, G, R};
use vgen::{address, b256, committee, Com};

pub const FRAME: usize = 1_000_000 + 64 * 1024;
pub const CHAIN_EPOCH: Epoch = 3;

static SCRATCH: Mutex<Option<vcore::Scratch>> = Mutex::new(None);

/// Removes the files of the chain.
pub fn clean() {
    SCRATCH.lock().unwrap().take();
}

/// A chain with one epoch of saved outputs, and the batches in them.
pub fn chain() -> &'static (ConsensusChain, Vec<Batch>) {
    static C: OnceLock<(ConsensusChain, Vec<Batch>)> = OnceLock::new();
    C.get_or_init(|| {
        let mut g = G::seeded(5);
        let ep = crate::world::one_epoch(&mut g, CHAIN_EPOCH, crate::world::Shape { outputs: 14, large: u64::MAX });
        let before = committee(&mut g, 4, 5, CHAIN_EPOCH - 1);
        let scratch = vcore::Scratch::new();
        let dir = scratch.sub("chain");
        *SCRATCH.lock().unwrap() = Some(scratch);
        std::fs::create_dir_all(&dir).expect("directory");
        // a thread of its own: the caller may be inside a runtime
        let chain = std::thread::scope(|s| {
            let build = || {
                vgen::block_on(async {
                    let chain = ConsensusChain::new(dir, before.committee).expect("chain");
                    chain.new_epoch(ep.prev.clone(), ep.com.committee.clone()).await.expect("epoch");
                    for o in &ep.outputs {
                        chain.save_consensus_output(o.clone()).await.expect("save");
                    }
                    chain.persist_current().await.expect("persist");
                    chain
                })
            };
            s.spawn(build).join().expect("build")
        });
        let mut batches: Vec<Batch> = vec![];
        for o in &ep.outputs {
            for b in o.batches().iter().flat_map(|c| &c.batches) {
                if !batches.contains(b) {
                    batches.push(b.clone());
                }
            }
        }
        assert!(batches.len() >= 12, "{} batches", batches.len());
        (chain, batches)
    })
}

#[derive(Debug, Default)]
pub struct Judge(pub Mutex<Vec<B256>>);
impl BatchValidation for Judge {
    fn validate_batch(&self, b: SealedBatch) -> Result<(), BatchValidationError> {
        if b.batch.digest() != b.digest {
            return Err(BatchValidationError::InvalidDigest);
        }
        if self.0.lock().unwrap().contains(&b.digest) {
            return Err(BatchValidationError::EmptyBatch);
        }
        Ok(())
    }
    fn submit_txn_if_mine(&self, _: &[u8], _: u64, _: u64) {}
}

/// Distinct batches of an epoch.
pub fn pool(g: &mut G, n: usize, epoch: Epoch) -> Vec<Batch> {
    (0..n)
        .map(|i| {
            let txs = g.urange(0, 3);
            let mut t: Vec<Vec<u8>> = (0..txs)
                .map(|_| {
                    let n = if g.chance(1, 10) { g.usize(5000) } else { g.usize(60) };
                    let fill = g.u8();
                    vec![fill; n]
                })
                .collect();
            t.push((i as u32).to_le_bytes().to_vec());
            Batch { transactions: t, epoch, beneficiary: address(g), base_fee_per_gas: g.num(), worker_id: 0, received_at: None }
        })
        .collect()
}

#[derive(Clone, Debug, PartialEq)]
enum Play {
    /// everything held, honestly
    Honest,
    /// some of what is held, then the end
    Some(usize),
    Lost,
    Fails(u8),
    Deny(bool),
    Abort,
    Silent,
    SilentAfter(usize),
    CutAfter(usize),
    AbortAfter(usize),
    OddAfter(usize, u8),
    /// a batch nobody asked for
    Unasked(usize),
    /// a batch twice
    Twice,
    /// more batches than were asked for
    TooMany,
    /// bytes that are no batch
    NoBatch(usize, Vec<u8>),
    /// bytes that are no frame
    Garbage(Vec<u8>),
    /// data before the acknowledgement, or a frame out of place
    Early(u8),
    /// announces more than is allowed
    Huge(u32, u32),
}

fn play(g: &mut G) -> Play {
    let n = g.usize(4);
    match g.below(17) {
        0 => Play::Some(n),
        1 => Play::Lost,
        2 => Play::Fails(1 + g.below(4) as u8),
        3 => Play::Deny(g.bool()),
        4 => Play::Abort,
        5 => Play::Silent,
        6 => Play::SilentAfter(n),
        7 => Play::CutAfter(n),
        8 => Play::AbortAfter(n),
        9 => Play::OddAfter(n, g.below(3) as u8),
        10 => Play::Unasked(n),
        11 => Play::Twice,
        12 => Play::TooMany,
        13 => {
            let m = g.usize(60);
            Play::NoBatch(n, g.bytes(m))
        }
        14 => {
            let m = g.usize(60);
            Play::Garbage(g.bytes(m))
        }
        15 => Play::Early(g.below(4) as u8),
        _ => Play::Huge(g.num32(), g.num32()),
    }
}

/// How a peer writes: in pieces of so many bytes, with pauses.
#[derive(Clone, Copy, Debug)]
struct Pace {
    buffer: usize,
    piece: usize,
    pause: Duration,
}

fn pace(g: &mut G) -> Pace {
    match g.weighted(&[4, 2, 2]) {
        0 => Pace { buffer: 1 << 16, piece: usize::MAX, pause: Duration::ZERO },
        1 => Pace { buffer: g.urange(64, 500), piece: g.urange(1, 300), pause: Duration::ZERO },
        _ => Pace { buffer: g.urange(64, 5000), piece: g.urange(200, 5000), pause: Duration::from_millis(g.below(20)) },
    }
}

pub async fn frame(f: &SyncFrame<WorkerSyncRequest>) -> Vec<u8> {
    let mut v = vec![];
    write_frame(&mut v, f, &mut vec![], &mut vec![], FRAME * 2).await.expect("frame");
    v
}

pub async fn next_frame(r: &mut Remote) -> Result<SyncFrame<WorkerSyncRequest>, String> {
    read_frame(r, &mut vec![], &mut vec![], FRAME).await.map_err(|e| e.to_string())
}

async fn put(r: &mut Remote, p: Pace, bytes: &[u8]) -> bool {
    for c in bytes.chunks(p.piece.min(bytes.len().max(1))) {
        if r.write_all(c).await.is_err() || r.flush().await.is_err() {
            return false;
        }
        if !p.pause.is_zero() {
            sleep(p.pause).await;
        }
    }
    true
}

/// What went over to peers.
#[derive(Default)]
struct Seen {
    requests: Vec<(BlsPublicKey, BTreeSet<B256>, Epoch)>,
    errors: Vec<String>,
    opened: usize,
    /// streams that are open now, and the most there were
    now: usize,
    most: usize,
    published: usize,
}

/// The peers: what each holds and plays, one play after the other, and honestly afterwards.
struct Peers {
    keys: Vec<BlsPublicKey>,
    holds: HashMap<BlsPublicKey, Vec<Batch>>,
    plays: HashMap<BlsPublicKey, Vec<Play>>,
    /// what peers send that nobody asked for
    stray: Vec<Batch>,
    pace: Pace,
    /// the first so many questions for peers are answered with nobody
    nobody: usize,
    turn: usize,
    seen: Arc<Mutex<Seen>>,
}

async fn perform(mut r: Remote, play: Play, held: Vec<Batch>, stray: Vec<Batch>, p: Pace, peer: BlsPublicKey, seen: Arc<Mutex<Seen>>) {
    let wanted = match next_frame(&mut r).await {
        Ok(SyncFrame::Req(WorkerSyncRequest::Batches { batch_digests, epoch })) => {
            seen.lock().unwrap().requests.push((peer, batch_digests.clone(), epoch));
            batch_digests
        }
        Ok(f) => {
            seen.lock().unwrap().errors.push(format!("a request starts with {f:?}"));
            return;
        }
        Err(_) => return,
    };
    let mine: Vec<Batch> = held.into_iter().filter(|b| wanted.contains(&b.digest())).collect();
    let data = |b: &Batch| SyncFrame::Data(encode(b));
    let mut out: Vec<u8> = vec![];
    let mut stay = false;
    macro_rules! say {
        ($f:expr) => {
            out.extend(frame(&$f).await)
        };
    }
    match &play {
        Play::Deny(a) => say!(SyncFrame::Deny(if *a { DenyReason::AtCapacity } else { DenyReason::Unavailable })),
        Play::Abort => say!(SyncFrame::Err(SyncFrameError::Internal)),
        Play::Silent => stay = true,
        Play::Garbage(b) => out.extend(b),
        Play::Huge(a, b) => {
            out.extend(a.to_le_bytes());
            out.extend(b.to_le_bytes());
            stay = true;
        }
        Play::Early(k) => match k {
            0 => say!(SyncFrame::End),
            1 => say!(SyncFrame::Data(stray.first().map(encode).unwrap_or_default())),
            2 => say!(SyncFrame::Req(WorkerSyncRequest::Batches { batch_digests: wanted.clone(), epoch: 0 })),
            _ => {
                for b in &mine {
                    say!(data(b));
                }
                say!(SyncFrame::End);
            }
        },
        _ => {
            say!(SyncFrame::Ack);
            let n = match &play {
                Play::Some(n) | Play::SilentAfter(n) | Play::CutAfter(n) | Play::AbortAfter(n) | Play::OddAfter(n, _) | Play::Unasked(n) | Play::NoBatch(n, _) => {
                    (*n).min(mine.len())
                }
                _ => mine.len(),
            };
            for b in &mine[..n] {
                say!(data(b));
            }
            match &play {
                Play::Honest | Play::Some(_) => say!(SyncFrame::End),
                Play::SilentAfter(_) => stay = true,
                Play::CutAfter(_) => {
                    if let Some(b) = mine.get(n) {
                        let f = frame(&data(b)).await;
                        out.extend(&f[..f.len() / 2]);
                    }
                }
                Play::AbortAfter(_) => say!(SyncFrame::Err(SyncFrameError::Malformed)),
                Play::OddAfter(_, k) => {
                    match k {
                        0 => say!(SyncFrame::Ack),
                        1 => say!(SyncFrame::Deny(DenyReason::AtCapacity)),
                        _ => say!(SyncFrame::Req(WorkerSyncRequest::Batches { batch_digests: wanted.clone(), epoch: 0 })),
                    }
                    say!(SyncFrame::End)
                }
                Play::Unasked(_) => {
                    if let Some(b) = stray.first() {
                        say!(data(b));
                    }
                    say!(SyncFrame::End)
                }
                Play::Twice => {
                    if let Some(b) = mine.first() {
                        say!(data(b));
                    }
                    say!(SyncFrame::End)
                }
                Play::TooMany => {
                    for b in stray.iter().chain(&mine) {
                        say!(data(b));
                    }
                    say!(SyncFrame::End)
                }
                Play::NoBatch(_, b) => {
                    say!(SyncFrame::Data(b.clone()));
                    say!(SyncFrame::End)
                }
                _ => {}
            }
        }
    }
    let wrote = put(&mut r, p, &out).await;
    if stay && wrote {
        // until the other side gives up
        let mut b = [0u8; 64];
        while matches!(r.read(&mut b).await, Ok(n) if n > 0) {}
    } else {
        let _ = r.close().await;
    }
}

impl Peers {
    fn run(mut self, mut rx: mpsc::Receiver<Cmd>) {
        tokio::spawn(async move {
            let mut asked = 0;
            while let Some(c) = rx.recv().await {
                match c {
                    NetworkCommand::ConnectedPeers { reply } => {
                        asked += 1;
                        let mut k = if asked <= self.nobody { vec![] } else { self.keys.clone() };
                        if !k.is_empty() {
                            let r = self.turn % k.len();
                            k.rotate_left(r);
                            self.turn += 1;
                        }
                        let _ = reply.send(k);
                    }
                    NetworkCommand::OpenStream { peer, reply } => {
                        let plays = self.plays.entry(peer).or_default();
                        let play = if plays.is_empty() { Play::Honest } else { plays.remove(0) };
                        let held = self.holds.get(&peer).cloned().unwrap_or_default();
                        let (stray, p, seen) = (self.stray.clone(), self.pace, self.seen.clone());
                        {
                            let mut s = seen.lock().unwrap();
                            s.opened += 1;
                            s.now += 1;
                        }
                        // counted when the time moves on: until then the peers may be behind
                        let count = seen.clone();
                        tokio::spawn(async move {
                            sleep(Duration::from_millis(1)).await;
                            let mut s = count.lock().unwrap();
                            s.most = s.most.max(s.now);
                        });
                        tokio::spawn(async move {
                            match play {
                                Play::Lost => {}
                                Play::Fails(k) => {
                                    let _ = reply.send(Err(match k {
                                        1 => NetworkError::Stream(StreamError::NotConnected),
                                        2 => NetworkError::Stream(StreamError::UpgradeIo),
                                        3 => NetworkError::Stream(StreamError::Timeout),
                                        _ => NetworkError::Stream(StreamError::TooManyPending),
                                    }));
                                }
                                play => match pair(p.buffer).await {
                                    Ok((ours, theirs)) => {
                                        if reply.send(Ok(ours)).is_ok() {
                                            perform(theirs, play, held, stray, p, peer, seen.clone()).await;
                                        }
                                    }
                                    Err(e) => seen.lock().unwrap().errors.push(e),
                                },
                            }
                            seen.lock().unwrap().now -= 1;
                        });
                    }
                    NetworkCommand::Publish { reply, .. } => {
                        self.seen.lock().unwrap().published += 1;
                        let _ = reply.send(Ok(libp2p::gossipsub::MessageId::new(b"x")));
                    }
                    NetworkCommand::ReportPenalty { .. } => {}
                    _ => self.seen.lock().unwrap().errors.push("an unexpected command".into()),
                }
            }
        });
    }
}

pub struct Node {
    pub cfg: ConsensusConfig<MemDatabase>,
    pub db: MemDatabase,
    pub net: WorkerNetworkHandle,
    pub judge: Arc<Judge>,
    told: Arc<Told>,
    pub rx: Option<mpsc::Receiver<Cmd>>,
    _tasks: TaskManager,
}

pub fn node(com: &Com, epoch: Epoch, refuse: bool) -> Result<Node, String> {
    let db = MemDatabase::default();
    let cfg = config(com, Some(0), db.clone())?;
    let told = Arc::new(Told { refuse, db: db.clone(), ..Default::default() });
    cfg.local_network().set_worker_to_primary_local_handler(told.clone());
    let (tx, rx) = mpsc::channel::<Cmd>(100);
    let tasks = TaskManager::default();
    let net = WorkerNetworkHandle::new(NetworkHandle::new(tx), tasks.get_spawner(), epoch, cfg.chain_id());
    Ok(Node { cfg, db, net, judge: Default::default(), told, rx: Some(rx), _tasks: tasks })
}

impl Node {
    fn stored(&self) -> HashMap<B256, Batch> {
        self.db.iter::<NodeBatchesCache>().collect()
    }
}

pub fn plain(b: &Batch) -> Batch {
    Batch { received_at: None, ..b.clone() }
}

/// Peers, what they hold and play; the last one becomes a source of everything in the end.
fn peers(g: &mut G, com: &Com, all: &[Batch], stray: Vec<Batch>, seen: Arc<Mutex<Seen>>) -> Peers {
    let n = g.urange(1, 4);
    let mut keys: Vec<BlsPublicKey> = com.by_id().iter().skip(1).map(|k| k.pk()).collect();
    keys.truncate(n);
    let mut holds = HashMap::new();
    let mut plays = HashMap::new();
    for (i, k) in keys.iter().enumerate() {
        let held: Vec<Batch> = if i == 0 { all.to_vec() } else { all.iter().filter(|_| g.bool()).cloned().collect() };
        holds.insert(*k, held);
        let m = g.usize(4);
        plays.insert(*k, (0..m).map(|_| play(g)).collect::<Vec<_>>());
    }
    let turn = g.usize(4);
    let pace = pace(g);
    let nobody = if g.chance(1, 4) { g.usize(4) } else { 0 };
    g.note(|| format!("peers play {:?}, pace {pace:?}, nobody there {nobody} times", keys.iter().map(|k| &plays[k]).collect::<Vec<_>>()));
    Peers { keys, holds, plays, stray, pace, nobody, turn, seen }
}

/// All requests ask for what is missing, within the limits.
fn fair_requests(seen: &Seen, digests: &BTreeSet<B256>, epoch: Epoch) -> R {
    if let Some(e) = seen.errors.first() {
        return Err(e.clone());
    }
    for (_, d, e) in &seen.requests {
        ensure_eq!(*e, epoch, "the epoch asked for");
        ensure!(!d.is_empty() && d.len() <= MAX_BATCH_DIGESTS_PER_REQUEST, "{} batches in one request", d.len());
        ensure!(d.is_subset(digests), "a batch is requested that is not needed");
    }
    Ok(())
}

/// All batches are fetched once any source can supply them, and nothing else is taken.
pub fn fetching(g: &mut G) -> R {
    let from_chain = g.chance(1, 6);
    let epoch = if from_chain { CHAIN_EPOCH } else { *g.pick(&[0, 4, 9]) };
    let com = committee(g, 5, 7, epoch);
    let many = !from_chain && g.chance(1, 40);
    let n = if many { g.urange(495, 520) } else { g.urange(1, 10) };
    let all: Vec<Batch> = if from_chain {
        let mut v: Vec<Batch> = chain().1.clone();
        v.truncate(n + 2);
        v.extend(pool(g, 2, epoch));
        v
    } else {
        pool(g, n, epoch)
    };
    let mut stray = pool(g, 2, epoch);
    for b in &mut stray {
        b.transactions.push(b"stray".to_vec());
    }
    let digests: BTreeSet<B256> = all.iter().map(|b| b.digest()).collect();
    let seen: Arc<Mutex<Seen>> = Default::default();
    // what is there already, and what comes by itself later
    let mut here: Vec<Batch> = vec![];
    let mut later: Vec<(Duration, Batch)> = vec![];
    for b in &all {
        let in_chain = from_chain && chain().1.contains(b);
        if from_chain && !in_chain || g.chance(1, 6) {
            here.push(b.clone());
        } else if !from_chain && !many && g.chance(1, 10) {
            later.push((Duration::from_millis(g.below(20_000)), b.clone()));
        }
    }
    let mut ps = peers(g, &com, &all, stray, seen.clone());
    // nobody has some of the batches until they are there
    let waits = !from_chain && !many && g.chance(1, 8);
    if waits {
        let some = all[g.usize(all.len())].clone();
        let wait = if g.chance(1, 6) { 300_000 } else { 20_000 };
        later = vec![(Duration::from_millis(g.below(wait)), some.clone())];
        here.retain(|b| *b != some);
        ps.plays.clear();
        ps.nobody = 0;
        ps.pace = Pace { buffer: 1 << 16, piece: usize::MAX, pause: Duration::ZERO };
        ps.holds.values_mut().for_each(|h| h.retain(|b| *b != some));
        g.class("nobody has it");
    }
    if many {
        ps.plays.values_mut().for_each(|p| p.truncate(1));
        ps.pace = Pace { buffer: 1 << 16, piece: usize::MAX, pause: Duration::ZERO };
    }
    let plays: usize = ps.plays.values().map(|p| p.len()).sum();
    g.note(|| format!("{} batches, {} here, {} later, from the chain {from_chain}", all.len(), here.len(), later.len()));
    g.nontrivial();
    g.class(if from_chain { "from the chain" } else if many { "more than one request" } else { "from peers" });
    paused(async {
        let mut nd = node(&com, epoch, false)?;
        let _worker = new_worker(0, nd.judge.clone(), nd.cfg.clone(), nd.net.clone(), Arc::new(Forward::default()), chain().0.clone());
        for b in &here {
            nd.db.insert::<NodeBatchesCache>(&b.digest(), b).map_err(s("store"))?;
        }
        ps.run(nd.rx.take().ok_or("commands")?);
        let db = nd.db.clone();
        let arriving = later.clone();
        let later_at = later.iter().map(|x| x.0).max().unwrap_or_default();
        for (at, b) in later {
            let db = db.clone();
            tokio::spawn(async move {
                sleep(at).await;
                let _ = db.insert::<NodeBatchesCache>(&b.digest(), &b);
            });
        }
        let start = Instant::now();
        let limit = if waits { later_at + Duration::from_secs(4) } else { Duration::from_secs(60 + 40 * plays as u64) };
        let got = if from_chain {
            // nothing to wait for but another thread
            nd.cfg.local_network().fetch_batches(digests.clone()).await.map_err(s("fetch"))?
        } else {
            tokio::time::timeout(limit, nd.cfg.local_network().fetch_batches(digests.clone()))
                .await
                .map_err(|_| format!("not all of {} batches are there after {limit:?}", digests.len()))?
                .map_err(s("fetch"))?
        };
        ensure!(start.elapsed() <= limit);
        ensure_eq!(got.len(), digests.len(), "batches");
        let stored = nd.stored();
        for b in &all {
            let d = b.digest();
            let x = got.get(&d).ok_or_else(|| format!("the batch {d} is missing"))?;
            ensure!(plain(x) == plain(b), "the batch {d} is another one");
            let in_chain = from_chain && chain().1.contains(b);
            let arrives = arriving.iter().any(|(_, a)| a == b);
            ensure!(in_chain || arrives || stored.get(&d).is_some_and(|x| plain(x) == plain(b)), "a fetched batch is not stored");
        }
        for (d, b) in &stored {
            ensure!(digests.contains(d) && b.digest() == *d, "something is stored that nobody asked for");
        }
        let seen = seen.lock().unwrap();
        ensure!(!from_chain || seen.opened == 0, "peers are asked for what is in the chain");
        for b in &here {
            ensure!(!seen.requests.iter().any(|r| r.1.contains(&b.digest())), "a batch that is here is requested");
        }
        fair_requests(&seen, &digests, epoch)
    })
}

/// What a certificate or a header needs is brought here.
pub fn synchronizing(g: &mut G) -> R {
    let epoch = *g.pick(&[0, 4, 9]);
    let com = committee(g, 5, 7, epoch);
    let n = g.urange(1, 8);
    let all = pool(g, n, epoch);
    let mut stray = pool(g, 2, epoch);
    for b in &mut stray {
        b.transactions.push(b"stray".to_vec());
    }
    let digests: Vec<B256> = all.iter().map(|b| b.digest()).collect();
    let certified = g.bool();
    let bad: Vec<B256> = digests.iter().filter(|_| g.chance(1, 10)).copied().collect();
    let here: Vec<Batch> = all.iter().filter(|_| g.chance(1, 4)).cloned().collect();
    let seen: Arc<Mutex<Seen>> = Default::default();
    let mut ps = peers(g, &com, &all, stray, seen.clone());
    let honest = g.chance(1, 3);
    if honest {
        ps.plays.clear();
        ps.nobody = 0;
        let k = ps.keys.clone();
        for k in k {
            ps.holds.insert(k, all.clone());
        }
    }
    g.note(|| format!("{n} batches, {} here, certified {certified}, invalid {}, honest {honest}", here.len(), bad.len()));
    g.nontrivial();
    paused(async {
        let mut nd = node(&com, epoch, false)?;
        let _worker = new_worker(0, nd.judge.clone(), nd.cfg.clone(), nd.net.clone(), Arc::new(Forward::default()), chain().0.clone());
        for b in &here {
            nd.db.insert::<NodeBatchesCache>(&b.digest(), b).map_err(s("store"))?;
        }
        *nd.judge.0.lock().unwrap() = bad.clone();
        ps.run(nd.rx.take().ok_or("commands")?);
        let m = WorkerSynchronizeMessage { digests: digests.clone(), target: com.by_id()[1].id(), is_certified: certified };
        let got = nd.cfg.local_network().synchronize(m).await;
        let is_here = |d: &B256| here.iter().any(|b| b.digest() == *d);
        let stored = nd.stored();
        for (d, b) in &stored {
            ensure!(digests.contains(d) && b.digest() == *d, "something is stored that nobody asked for");
            ensure!(certified || is_here(d) || !bad.contains(d), "an invalid batch is stored that no certificate covers");
        }
        if got.is_ok() {
            for b in &all {
                ensure!(stored.get(&b.digest()).is_some_and(|x| plain(x) == plain(b)), "a batch is missing though all were synchronized");
            }
        }
        let invalid = !certified && bad.iter().any(|d| !is_here(d));
        ensure!(!(got.is_ok() && invalid), "an invalid batch is synchronized");
        if honest && !invalid {
            ensure!(got.is_ok(), "peers that hold everything do not suffice: {got:?}");
        }
        g.class(match (&got, honest) {
            (Ok(_), true) => "synchronized from honest peers",
            (Ok(_), false) => "synchronized",
            _ => "not synchronized",
        });
        let missing = digests.iter().filter(|d| !is_here(d)).copied().collect();
        let seen = seen.lock().unwrap();
        fair_requests(&seen, &missing, epoch)
    })
}

/// A batch of another member is taken when it is valid and its sender is in the committee.
pub fn reporting(g: &mut G) -> R {
    let epoch = g.below(5) as Epoch;
    let com = committee(g, 4, 7, epoch);
    let (from_outside, invalid, refuse) = (g.chance(1, 4), g.chance(1, 3), g.chance(1, 5));
    let peer = if from_outside { com.outsider(g).pk() } else { com.by_id()[g.usize(com.n())].pk() };
    let b = pool(g, 1, epoch).remove(0);
    let mut sealed = b.clone().seal_slow();
    let wrong = g.chance(1, 6);
    if wrong {
        sealed.digest = b256(g);
    }
    let invalid = invalid || wrong;
    g.nontrivial();
    g.note(|| format!("outsider {from_outside}, invalid {invalid}, primary refuses {refuse}"));
    paused(async {
        let nd = node(&com, epoch, refuse)?;
        let h = RequestHandler::new(0, nd.judge.clone(), nd.cfg.clone(), nd.net.clone());
        if invalid {
            nd.judge.0.lock().unwrap().push(sealed.digest);
        }
        let got = h.pub_process_report_batch(&peer, sealed.clone()).await;
        let take = !from_outside && !invalid;
        ensure_eq!(got.is_ok(), take && !refuse, "taken");
        match &got {
            Err(WorkerNetworkError::NonCommitteeBatch) => ensure!(from_outside),
            Err(WorkerNetworkError::BatchValidation(_)) => ensure!(invalid && !from_outside),
            Err(_) => ensure!(take && refuse, "another failure"),
            Ok(()) => {}
        }
        let stored = nd.stored();
        if take {
            ensure!(stored.len() == 1 && stored.get(&sealed.digest).is_some_and(|x| plain(x) == b), "a batch that was taken is not stored");
            ensure_eq!(*nd.told.others.lock().unwrap(), vec![(0, sealed.digest)], "what the primary is told");
            ensure!(nd.told.stored.lock().unwrap().iter().all(|x| *x), "the primary is told of a batch that is not stored");
        } else {
            ensure!(stored.is_empty() && nd.told.others.lock().unwrap().is_empty(), "a batch that was refused leaves something behind");
        }
        g.class(if got.is_ok() { "taken" } else { "refused" });
        Ok(())
    })
}

/// Announced batches are fetched ahead, only valid ones are kept, and only so many at once.
pub fn announced(g: &mut G) -> R {
    let epoch = g.below(3) as Epoch;
    let com = committee(g, 5, 7, epoch);
    let n = g.urange(1, 14);
    let mut all = pool(g, n, epoch);
    for b in &mut all {
        if g.chance(1, 8) {
            b.epoch = if g.bool() && epoch > 0 { epoch - 1 } else { epoch + 1 };
        }
    }
    let bad: Vec<B256> = all.iter().filter(|_| g.chance(1, 6)).map(|b| b.digest()).collect();
    let seen: Arc<Mutex<Seen>> = Default::default();
    let mut stray = pool(g, 1, epoch);
    stray[0].transactions.push(b"stray".to_vec());
    let mut ps = peers(g, &com, &all, stray, seen.clone());
    let honest = g.chance(1, 2);
    if honest {
        ps.plays.clear();
        ps.nobody = 0;
    }
    let quick = ps.pace.pause.is_zero();
    // the announcements: (which, at what time, alteration)
    let m = g.urange(1, 24);
    let news: Vec<(usize, u64, u8)> = (0..m)
        .map(|_| (g.usize(all.len()), if g.bool() { 0 } else { g.below(3000) }, if g.chance(3, 4) { 0 } else { 1 + g.below(3) as u8 }))
        .collect();
    let mut junk = g.bytes(5);
    junk.insert(0, 0xff);
    g.nontrivial();
    g.note(|| format!("{n} batches, {} invalid, announcements {news:?}, honest {honest}", bad.len()));
    paused(async {
        let mut nd = node(&com, epoch, false)?;
        *nd.judge.0.lock().unwrap() = bad.clone();
        ps.run(nd.rx.take().ok_or("commands")?);
        let h = RequestHandler::new(0, nd.judge.clone(), nd.cfg.clone(), nd.net.clone());
        let topic = LibP2pConfig::worker_batch_topic(nd.cfg.chain_id());
        let mut running = vec![];
        for (i, at, odd) in &news {
            let d = all[*i].digest();
            let (e, t) = match odd {
                1 => (epoch + 1, topic.clone()),
                2 => (epoch, format!("{topic}x")),
                _ => (epoch, topic.clone()),
            };
            let mut data = encode(&WorkerGossip::Batch(e, d));
            if *odd == 3 {
                data = junk.clone();
            }
            let msg = GossipMessage { source: None, data, sequence_number: None, topic: TopicHash::from_raw(t) };
            let (h, at, odd) = (h.clone(), *at, *odd);
            running.push((odd, tokio::spawn(async move {
                sleep(Duration::from_millis(at)).await;
                h.pub_process_gossip_for_test(&msg).await
            })));
        }
        for (odd, r) in running {
            let r = r.await.map_err(s("task"))?;
            let fine = match odd {
                0 => r.is_ok(),
                1 => matches!(r, Err(WorkerNetworkError::BatchEpochMismatch(..))),
                2 => matches!(r, Err(WorkerNetworkError::InvalidTopic)),
                _ => r.is_err(),
            };
            ensure!(fine, "the announcement with oddity {odd} is answered {r:?}");
        }
        let stored = nd.stored();
        let wanted: BTreeSet<B256> = news.iter().filter(|x| x.2 == 0).map(|x| all[x.0].digest()).collect();
        for (d, b) in &stored {
            ensure!(b.digest() == *d, "a batch is kept under another digest");
            ensure!(wanted.contains(d), "a batch is kept that was not announced");
            ensure!(!bad.contains(d) && b.epoch == epoch, "an invalid batch is kept");
        }
        if honest && wanted.len() <= MAX_CONCURRENT_GOSSIP_PREFETCHES {
            for b in &all {
                let d = b.digest();
                ensure!(
                    !wanted.contains(&d) || bad.contains(&d) || b.epoch != epoch || stored.contains_key(&d),
                    "a valid batch that was announced is not fetched"
                );
            }
            g.class("honest peers");
        }
        // what was not fetched is fetched when it is announced again and the peers are honest by now
        let again = wanted.iter().find(|d| !stored.contains_key(*d) && !bad.contains(*d) && all.iter().any(|b| b.digest() == **d && b.epoch == epoch));
        if let Some(d) = again {
            g.class("announced again");
            let data = encode(&WorkerGossip::Batch(epoch, *d));
            for _ in 0..6 {
                let msg = GossipMessage { source: None, data: data.clone(), sequence_number: None, topic: TopicHash::from_raw(topic.clone()) };
                ensure!(h.pub_process_gossip_for_test(&msg).await.is_ok(), "an announcement is refused");
            }
            ensure!(nd.stored().contains_key(d), "a batch that is announced again is not fetched");
        }
        let seen = seen.lock().unwrap();
        ensure!(!quick || seen.most <= MAX_CONCURRENT_GOSSIP_PREFETCHES, "{} batches are fetched ahead at once", seen.most);
        if seen.most == MAX_CONCURRENT_GOSSIP_PREFETCHES {
            g.class("as many at once as allowed");
        }
        fair_requests(&seen, &wanted, epoch)
    })
}
