//! W02: a batch counts as available only when a quorum confirmed it; what is fetched is what was asked for.

use std::{
    collections::{BTreeMap, HashMap},
    sync::{Arc, Mutex},
    time::Duration,
};
use tn_config::{Config, ConsensusConfig, KeyConfig, LibP2pConfig, NetworkConfig};
use tn_network_libp2p::{
    error::NetworkError,
    types::{NetworkCommand, NetworkHandle, NetworkResponseMessage},
};
use tn_network_types::{local::LocalNetwork, WorkerOthersBatchMessage, WorkerOwnBatchMessage, WorkerToPrimaryClient};
use tn_storage::{
    mem_db::MemDatabase,
    tables::{NodeBatchesCache, OurNodeBatchesCache},
};
use tn_types::{error::BlockSealError, *};
use tn_worker::{
    quorum_waiter::QuorumWaiter, Worker, WorkerGossip, WorkerMetrics, WorkerNetworkHandle, WorkerRPCError, WorkerRequest, WorkerResponse,
};
use tokio::{
    sync::{mpsc, oneshot},
    time::Instant,
};
use vcore::{ensure, ensure_eq, Budget, Check, G, R};
use vgen::{any_batch, committee, Com};

pub const RULE: &str = "at least one peer is asked and its answer is not immediate agreement, or content is transferred";

pub type Cmd = NetworkCommand<WorkerRequest, WorkerResponse>;

/// A runtime whose clock runs only when nothing else is to be done.
pub fn paused<F: std::future::Future>(f: F) -> F::Output {
    tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().expect("runtime").block_on(f)
}

pub fn s<E: std::fmt::Debug>(what: &'static str) -> impl Fn(E) -> String {
    move |e| format!("{what}: {e:?}")
}

pub fn config(com: &Com, me: Option<usize>, db: MemDatabase) -> Result<ConsensusConfig<MemDatabase>, String> {
    static BASE: std::sync::OnceLock<Config> = std::sync::OnceLock::new();
    let c = BASE.get_or_init(Config::default_for_test).clone();
    let key = match me {
        Some(i) => com.by_id()[i].0.copy(),
        None => vgen::keys()[vgen::KEYS - 1].0.copy(),
    };
    ConsensusConfig::new_with_committee_for_test(c, db, KeyConfig::new_with_testing_key(key), com.committee.clone(), NetworkConfig::default())
        .map_err(s("configuration"))
}

/// What the primary is told, with what the stores held at that time.
#[derive(Default)]
pub struct Told {
    pub own: Mutex<Vec<(WorkerId, B256)>>,
    pub others: Mutex<Vec<(WorkerId, B256)>>,
    pub stored: Mutex<Vec<bool>>,
    pub refuse: bool,
    pub db: MemDatabase,
}

#[async_trait::async_trait]
impl WorkerToPrimaryClient for Told {
    async fn report_own_batch(&self, r: WorkerOwnBatchMessage) -> eyre::Result<()> {
        self.own.lock().unwrap().push((r.worker_id, r.digest));
        self.stored.lock().unwrap().push(matches!(self.db.get::<NodeBatchesCache>(&r.digest), Ok(Some(_))));
        if self.refuse {
            return Err(eyre::eyre!("no"));
        }
        Ok(())
    }
    async fn report_others_batch(&self, r: WorkerOthersBatchMessage) -> eyre::Result<()> {
        self.others.lock().unwrap().push((r.worker_id, r.digest));
        self.stored.lock().unwrap().push(matches!(self.db.get::<NodeBatchesCache>(&r.digest), Ok(Some(_))));
        if self.refuse {
            return Err(eyre::eyre!("no"));
        }
        Ok(())
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Answer {
    Yes,
    No,
    Later,
    Fails,
    Lost,
    Silent,
    Exchange,
}

#[derive(Debug)]
struct Sent {
    at: Duration,
    answer: Answer,
}

/// Tries a peer is given before it counts as failed (the documented number).
const TRIES: usize = 3;

fn sealing(g: &mut G) -> R {
    let n = g.urange(2, 9);
    let epoch = g.below(5) as Epoch;
    let com = committee(g, n, n, epoch);
    let me = g.usize(n);
    let keys = com.by_id();
    let quorum = 2 * n / 3 + 1;
    // answers of each peer, one per try; the times of two peers never coincide, nor with the time limit
    let mood = g.weighted(&[3, 3, 3, 3]);
    let mut plan: HashMap<BlsPublicKey, Vec<(Answer, Duration)>> = HashMap::new();
    for (i, k) in keys.iter().enumerate() {
        if i == me {
            continue;
        }
        let mut v = vec![];
        for t in 0..TRIES {
            let w: &[u64; 7] = match mood {
                0 => &[8, 1, 1, 1, 1, 1, 0],
                1 => &[3, 4, 1, 1, 0, 0, 1],
                2 => &[3, 0, 3, 3, 3, 1, 0],
                _ => &[2, 2, 2, 2, 2, 2, 1],
            };
            let a = [Answer::Yes, Answer::No, Answer::Later, Answer::Fails, Answer::Lost, Answer::Silent, Answer::Exchange][g.weighted(w)];
            let slow = if g.chance(1, 4) { 60 } else { 4 };
            let d = 200 * g.below(slow) + if t == 0 { 10 * i as u64 + 1 } else { 0 };
            v.push((a, Duration::from_millis(d)));
        }
        plan.insert(k.pk(), v);
    }
    let limit = Duration::from_millis(200 * g.range(0, 80) + 150);
    let mut batch = any_batch(g);
    batch.epoch = epoch;
    let sealed = batch.clone().seal_slow();
    let digest = sealed.digest();
    let refuse = g.chance(1, 8);
    let channel = g.bool();
    g.note(|| format!("{n} members, time limit {limit:?}, {plan:?}"));
    g.nontrivial_if(plan.values().any(|v| v[0].0 != Answer::Yes));

    paused(async {
        let db = MemDatabase::default();
        let told = Arc::new(Told { refuse, db: db.clone(), ..Default::default() });
        let client = LocalNetwork::new(keys[me].pk());
        client.set_worker_to_primary_local_handler(told.clone());
        let (tx, mut rx) = mpsc::channel::<Cmd>(100);
        let tasks = TaskManager::default();
        let chain_id = 2017;
        let net = WorkerNetworkHandle::new(NetworkHandle::new(tx), tasks.get_spawner(), epoch, chain_id);
        let member = com.committee.authority_by_key(&keys[me].pk()).ok_or("not a member")?;
        let qw = QuorumWaiter::new(member, com.committee.clone(), net.clone(), WorkerMetrics::new_for_worker(0));
        let slots: Vec<BlsPublicKey> = keys.iter().map(|k| k.pk()).collect();
        let mut worker = Worker::new(0, Some(qw), client, db.clone(), limit, net, Arc::new(Forward::default()), slots);

        let log: Arc<Mutex<Vec<(Duration, BlsPublicKey, Answer)>>> = Default::default();
        let errors: Arc<Mutex<Vec<String>>> = Default::default();
        let asked: Arc<Mutex<HashMap<BlsPublicKey, Vec<Sent>>>> = Default::default();
        let published: Arc<Mutex<Vec<(String, Vec<u8>)>>> = Default::default();
        let start = Instant::now();
        let (l, e, a, p, plan2, want, db2) =
            (log.clone(), errors.clone(), asked.clone(), published.clone(), plan.clone(), sealed.clone(), db.clone());
        let pump = tokio::spawn(async move {
            let mut held = vec![];
            while let Some(c) = rx.recv().await {
                match c {
                    NetworkCommand::SendRequest { peer, request, reply } => {
                        let mut a = a.lock().unwrap();
                        let n = a.get(&peer).map_or(0, |v| v.len());
                        match request {
                            WorkerRequest::ReportBatch { sealed_batch } if sealed_batch == want => {}
                            _ => e.lock().unwrap().push("a peer is sent something else than the batch".into()),
                        }
                        if !matches!(db2.get::<OurNodeBatchesCache>(&want.digest()), Ok(Some(_))) {
                            e.lock().unwrap().push("the batch is reported before it is kept".into());
                        }
                        let Some(v) = plan2.get(&peer) else {
                            e.lock().unwrap().push("someone who is no other member is asked".into());
                            continue;
                        };
                        let Some((answer, delay)) = v.get(n).copied() else {
                            e.lock().unwrap().push(format!("a peer is asked for the {}th time", n + 1));
                            continue;
                        };
                        a.entry(peer).or_default().push(Sent { at: start.elapsed(), answer });
                        if answer == Answer::Silent {
                            held.push(reply);
                            continue;
                        }
                        let l = l.clone();
                        tokio::spawn(async move {
                            tokio::time::sleep(delay).await;
                            l.lock().unwrap().push((start.elapsed(), peer, answer));
                            let ok = |result| Ok(NetworkResponseMessage { peer, result });
                            let err = || WorkerRPCError("because".into());
                            let _ = match answer {
                                Answer::Yes => reply.send(ok(WorkerResponse::ReportBatch)),
                                Answer::No => reply.send(ok(WorkerResponse::Error(err()))),
                                Answer::Later => reply.send(ok(WorkerResponse::RecoverableError(err()))),
                                Answer::Exchange => reply.send(ok(WorkerResponse::PeerExchange { peers: Default::default() })),
                                Answer::Fails => reply.send(Err(match delay.as_millis() / 200 % 3 {
                                    0 => NetworkError::Timeout,
                                    1 => NetworkError::Disconnected,
                                    _ => NetworkError::NoPeers,
                                })),
                                Answer::Lost | Answer::Silent => Ok(()),
                            };
                        });
                    }
                    NetworkCommand::Publish { topic, msg, reply } => {
                        p.lock().unwrap().push((topic, msg));
                        let _ = reply.send(Ok(libp2p::gossipsub::MessageId::new(b"x")));
                    }
                    _ => e.lock().unwrap().push("an unexpected command".into()),
                }
            }
        });
        let got = if channel {
            worker.spawn_batch_builder("verif", &tasks);
            let (tx, rx) = oneshot::channel();
            worker.batches_tx().send((sealed.clone(), tx)).await.map_err(s("send"))?;
            rx.await.map_err(s("answer"))?
        } else {
            worker.seal(sealed.clone()).await
        };
        let took = start.elapsed();
        // the outcome in the order in which the answers were given
        let mut tries: BTreeMap<BlsPublicKey, usize> = BTreeMap::new();
        let (mut yes, mut no, mut failed) = (1usize, 0usize, 0usize);
        let mut decided: Option<(Duration, Result<(), BlockSealError>)> = None;
        for (at, peer, answer) in log.lock().unwrap().iter() {
            let t = tries.entry(*peer).or_default();
            *t += 1;
            match answer {
                Answer::Yes => yes += 1,
                Answer::No | Answer::Exchange => no += 1,
                _ if *t == TRIES => failed += 1,
                _ => continue,
            }
            if yes >= quorum {
                decided = Some((*at, Ok(())));
                break;
            }
            if no > n - quorum {
                decided = Some((*at, Err(BlockSealError::QuorumRejected)));
                break;
            }
            if n - no - failed < quorum {
                decided = Some((*at, Err(BlockSealError::AntiQuorum)));
                break;
            }
        }
        let (at, want) = match decided {
            Some((at, r)) if at < limit => (at, r),
            _ => (limit, Err(BlockSealError::Timeout)),
        };
        let history = format!("{yes} agree, {no} refuse, {failed} cannot be reached; quorum {quorum} of {n}; decided at {at:?}, limit {limit:?}, took {took:?}");
        let kind = |r: &Result<(), BlockSealError>| match r {
            Ok(()) => "available",
            Err(BlockSealError::QuorumRejected) => "refused",
            Err(BlockSealError::AntiQuorum) => "no quorum can be reached",
            Err(BlockSealError::Timeout) => "time over",
            Err(BlockSealError::FailedToReport) => "not reported",
            Err(_) => "another failure",
        };
        let expected = if want.is_ok() && refuse { Err(BlockSealError::FailedToReport) } else { want };
        ensure_eq!(kind(&got), kind(&expected), "{history}");
        ensure!(took >= at && took <= at + Duration::from_millis(5), "the outcome is not told when it is decided: {history}");
        g.class(kind(&expected));
        // what is left behind
        let available = matches!(expected, Ok(()) | Err(BlockSealError::FailedToReport));
        let in_node = db.get::<NodeBatchesCache>(&digest).map_err(s("store"))?;
        let in_ours = db.get::<OurNodeBatchesCache>(&digest).map_err(s("store"))?;
        for _ in 0..5 {
            tokio::task::yield_now().await;
        }
        let own = told.own.lock().unwrap().clone();
        let published = published.lock().unwrap().clone();
        if available {
            ensure!(in_node.as_ref() == Some(&batch), "an available batch is not kept for execution");
            ensure!(in_ours.as_ref() == Some(&batch), "an available batch of this node is not kept until it is committed");
            ensure_eq!(own, vec![(0, digest)], "what the primary is told");
            ensure!(told.stored.lock().unwrap().iter().all(|x| *x), "the primary is told of a batch that is not kept");
            ensure_eq!(published.len(), 1, "announcements");
            ensure_eq!(published[0].0, LibP2pConfig::worker_batch_topic(chain_id));
            ensure_eq!(try_decode::<WorkerGossip>(&published[0].1).map_err(s("announcement"))?, WorkerGossip::Batch(epoch, digest));
        } else {
            ensure!(in_ours.is_none(), "a batch that failed stays among those to be proposed");
            ensure!(in_node.is_none(), "a batch that failed is kept as available");
            ensure!(own.is_empty() && published.is_empty(), "a batch that failed is reported");
        }
        // peers that answered finally are not asked again, those that failed are
        for (peer, v) in asked.lock().unwrap().iter() {
            for (i, x) in v.iter().enumerate() {
                let last = i + 1 == v.len();
                ensure!(
                    last || !matches!(x.answer, Answer::Yes | Answer::No | Answer::Exchange | Answer::Silent),
                    "the peer {peer} that answered {:?} is asked again at {:?}",
                    x.answer,
                    v[i + 1].at
                );
            }
        }
        ensure_eq!(asked.lock().unwrap().len(), n - 1, "members asked");
        pump.abort();
        if let Some(e) = errors.lock().unwrap().first() {
            return Err(e.clone());
        }
        Ok(())
    })
}

#[derive(Debug, Default)]
pub struct Forward {
    admit: bool,
    got: Mutex<Vec<(Vec<Vec<u8>>, Vec<BlsPublicKey>, Vec<BlsPublicKey>)>>,
}
impl TxnForwarder for Forward {
    fn forward_txns(&self, t: Vec<Vec<u8>>, slots: Vec<BlsPublicKey>, rpcs: Vec<(BlsPublicKey, RpcInfo)>) -> bool {
        self.got.lock().unwrap().push((t, slots, rpcs.into_iter().map(|r| r.0).collect()));
        self.admit
    }
}

/// A node outside the committee hands its transactions on, or keeps them.
fn forwarding(g: &mut G) -> R {
    let epoch = g.below(5) as Epoch;
    let com = committee(g, 2, 7, epoch);
    let mut batch = any_batch(g);
    if g.chance(1, 6) {
        batch.transactions.clear();
    }
    let known: Vec<BlsPublicKey> = com.by_id().iter().filter(|_| g.chance(2, 3)).map(|k| k.pk()).collect();
    let (admit, discovery) = (g.chance(2, 3), g.chance(4, 5));
    g.nontrivial_if(!batch.transactions.is_empty());
    g.note(|| format!("{} transactions, {} endpoints, admitted {admit}, discovery works {discovery}", batch.transactions.len(), known.len()));
    let sealed = batch.clone().seal_slow();
    paused(async {
        let db = MemDatabase::default();
        let told = Arc::new(Told { db: db.clone(), ..Default::default() });
        let client = LocalNetwork::new_with_empty_id();
        client.set_worker_to_primary_local_handler(told.clone());
        let (tx, mut rx) = mpsc::channel::<Cmd>(100);
        let tasks = TaskManager::default();
        let net = WorkerNetworkHandle::new(NetworkHandle::new(tx), tasks.get_spawner(), epoch, 1);
        let slots: Vec<BlsPublicKey> = com.by_id().iter().map(|k| k.pk()).collect();
        let fwd = Arc::new(Forward { admit, ..Default::default() });
        let worker: Worker<_, QuorumWaiter> = Worker::new(0, None, client, db.clone(), Duration::from_secs(1), net, fwd.clone(), slots.clone());
        let rpcs: Vec<(BlsPublicKey, RpcInfo)> =
            known.iter().map(|k| (*k, RpcInfo { http: "http://127.0.0.1:1".parse().expect("url"), ws: None })).collect();
        tokio::spawn(async move {
            while let Some(c) = rx.recv().await {
                if let NetworkCommand::GetAllValidatorRpcs { reply } = c {
                    if discovery {
                        let _ = reply.send(rpcs.clone());
                    }
                }
            }
        });
        let got = worker.seal(sealed).await;
        let can = discovery && !known.is_empty() && admit;
        let empty = batch.transactions.is_empty();
        ensure_eq!(got.is_ok(), empty || can, "the transactions count as handed on");
        ensure!(got.is_ok() || matches!(got, Err(BlockSealError::NotValidator)), "another failure");
        let gave = fwd.got.lock().unwrap();
        if empty || !discovery || known.is_empty() {
            ensure!(gave.is_empty(), "something is handed on");
        } else {
            ensure_eq!(gave.len(), 1);
            ensure_eq!(gave[0], (batch.transactions.clone(), slots, known.clone()));
        }
        ensure!(told.own.lock().unwrap().is_empty(), "an observer reports a batch of its own");
        ensure!(matches!(db.get::<NodeBatchesCache>(&batch.digest()), Ok(None)), "an observer keeps a batch as available");
        Ok(())
    })
}

pub fn check(c: &mut Check) {
    c.assume("a peer counts as unreachable after three failed tries; answers of two peers do not coincide to the millisecond");
    c.sub("sealing", Budget::new(200_000, 20), sealing);
    c.sub("forwarding", Budget::new(4_000, 4), forwarding);
    c.sub("fetching", Budget::new(20_000, 20), crate::fetch::fetching);
    c.sub("synchronizing", Budget::new(20_000, 12), crate::fetch::synchronizing);
    c.sub("reporting", Budget::new(20_000, 6), crate::fetch::reporting);
    c.sub("announced", Budget::new(20_000, 12), crate::fetch::announced);
    c.sub("serving", Budget::new(20_000, 20), crate::serve::serving);
    c.sub("exchanging", Budget::new(2_000, 20), crate::serve::exchanging);
    c.sub("blaming", Budget::new(10_000, 5), crate::serve::blaming);
    c.sub("leaving", Budget::new(10_000, 8), crate::serve::leaving);
    crate::fetch::clean();
}

