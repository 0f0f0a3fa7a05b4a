//! Serving batches to peers that ask, stall, cut off, or send anything.

use crate::{
    fetch::{chain, frame, node, plain, pool, CHAIN_EPOCH, FRAME},
    streams::{pair, Remote},
    w02::{paused, s},
};
use futures::{AsyncReadExt as _, AsyncWriteExt as _};
use std::{
    collections::{BTreeSet, HashMap},
    time::Duration,
};
use tn_network_libp2p::{types::NetworkEvent, DenyReason, SyncFrame, SyncFrameError, WorkerSyncRequest};
use tn_storage::tables::NodeBatchesCache;
use tn_types::*;
use tn_worker::{
    WorkerNetwork, WorkerRequest, WorkerResponse, MAX_BATCH_DIGESTS_PER_REQUEST, MAX_CONCURRENT_BATCH_STREAMS, MAX_PENDING_REQUESTS_PER_PEER,
};
use tokio::{
    sync::mpsc,
    time::{sleep, sleep_until, Instant},
};
use vcore::{ensure, ensure_eq, G, R};
use vgen::{b256, committee};

type Event = NetworkEvent<WorkerRequest, WorkerResponse>;

/// Time a peer has for its request.
const PATIENCE: Duration = Duration::from_secs(5);
/// Time a peer has to take the answer, and what it may take to give up on it.
const SENDING: Duration = Duration::from_secs(200);
const LEAVING: Duration = Duration::from_secs(11);

#[derive(Clone, Debug)]
enum Opening {
    /// asks, and takes the answer
    Asks,
    /// asks, and does not read for so long
    Stalls(Duration),
    /// asks, and never reads
    Never,
    /// asks, and drops the stream
    Drops,
    /// sends nothing
    Silent,
    /// sends part of a request, and no more
    Partial,
    /// sends part of a request and closes
    Cut,
    /// a frame that is no request
    Odd(u8),
    /// announces more than is allowed
    Huge,
    /// a body that is no frame
    Corrupt,
}

struct Visit {
    peer: usize,
    at: Duration,
    how: Opening,
    wanted: BTreeSet<B256>,
    epoch: Epoch,
    slow: bool,
}

#[derive(Debug)]
enum Got {
    Frame(SyncFrame<WorkerSyncRequest>),
    End,
    Broken(String),
}

/// Reads until the end.
async fn listen(r: &mut Remote) -> Vec<(Instant, Got)> {
    let mut out = vec![];
    loop {
        // the end of the stream in front of a frame is an orderly one
        let mut b = [0u8; 1];
        match r.read(&mut b).await {
            Ok(0) => {
                out.push((Instant::now(), Got::End));
                return out;
            }
            Err(e) => {
                out.push((Instant::now(), Got::Broken(e.to_string())));
                return out;
            }
            Ok(_) => {}
        }
        let mut io = futures::io::Cursor::new(b).chain(&mut *r);
        match tn_network_libp2p::read_frame(&mut io, &mut vec![], &mut vec![], FRAME).await {
            Ok(f) => out.push((Instant::now(), Got::Frame(f))),
            Err(e) => {
                out.push((Instant::now(), Got::Broken(e.to_string())));
                return out;
            }
        }
    }
}

async fn visit(mut r: Remote, how: Opening, request: Vec<u8>, slow: bool, until: Instant) -> Vec<(Instant, Got)> {
    let bytes = match &how {
        Opening::Asks | Opening::Stalls(_) | Opening::Never | Opening::Drops => request,
        Opening::Silent => vec![],
        Opening::Partial | Opening::Cut => request[..request.len() / 2].to_vec(),
        Opening::Odd(k) => {
            frame(&match k {
                0 => SyncFrame::Ack,
                1 => SyncFrame::Deny(DenyReason::Unavailable),
                2 => SyncFrame::Data(vec![1, 2, 3]),
                3 => SyncFrame::End,
                _ => SyncFrame::Err(SyncFrameError::Internal),
            })
            .await
        }
        Opening::Huge => [u32::MAX.to_le_bytes(), 10u32.to_le_bytes()].concat(),
        Opening::Corrupt => {
            let mut b = request.clone();
            for x in &mut b[8..] {
                *x = 0xff;
            }
            b
        }
    };
    if slow && !bytes.is_empty() {
        for b in bytes.chunks(bytes.len().div_ceil(4)) {
            if r.write_all(b).await.is_err() || r.flush().await.is_err() {
                break;
            }
            sleep(Duration::from_secs(1)).await;
        }
    } else {
        let _ = r.write_all(&bytes).await;
        let _ = r.flush().await;
    }
    match how {
        Opening::Cut => {
            let _ = r.close().await;
        }
        Opening::Drops => return vec![],
        Opening::Stalls(d) => sleep(d).await,
        Opening::Never => sleep_until(until).await,
        _ => {}
    }
    listen(&mut r).await
}

/// When a visitor that was let in is gone again: surely not before, surely after.
fn gone(v: &Visit, large: bool) -> (Duration, Duration) {
    // a slow one takes up to four seconds to ask
    let asked = if v.slow { v.at + Duration::from_secs(4) } else { v.at };
    match &v.how {
        Opening::Silent | Opening::Partial => (v.at + PATIENCE, v.at + PATIENCE),
        Opening::Stalls(d) if large => (v.at + *d, asked + *d),
        Opening::Never if large => (v.at + SENDING, asked + SENDING + LEAVING),
        _ => (v.at, asked),
    }
}

/// Bytes that do not compress.
pub fn noise(seed: u64, n: usize) -> Vec<u8> {
    let mut x = seed.wrapping_mul(2).wrapping_add(1).wrapping_mul(0x9e37_79b9_7f4a_7c15);
    (0..n)
        .map(|_| {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            (x >> 40) as u8
        })
        .collect()
}

/// Every peer gets exactly what it asks for and the node has, and none takes more than its share.
pub fn serving(g: &mut G) -> R {
    let epoch = *g.pick(&[0, 4, 9]);
    let com = committee(g, 5, 7, epoch);
    let many = g.chance(1, 30);
    let held = if many { g.urange(490, 530) } else { g.urange(1, 12) };
    let large = !many && g.bool();
    let mut all = pool(g, held, epoch);
    if large {
        for (i, b) in all.iter_mut().enumerate() {
            // does not fit into the pipe, also when compressed
            b.transactions.push(noise(i as u64, 15_000));
        }
    }
    let digests: Vec<B256> = all.iter().map(|b| b.digest()).collect();
    let n = g.urange(1, 14);
    let mut visits: Vec<Visit> = vec![];
    let mut at = 0u64;
    for i in 0..n {
        // a burst, or later; moments do not fall on the limits of one another
        if i > 0 && !g.chance(1, 2) {
            at += 100 * g.num().clamp(1, 600) + 1;
        }
        let how = match g.weighted(&[6, 3, 1, 1, 3, 2, 1, 2, 1, 1]) {
            0 => Opening::Asks,
            1 => Opening::Stalls(Duration::from_millis(100 * g.range(1, 1800) + 37)),
            2 => Opening::Never,
            3 => Opening::Drops,
            4 => Opening::Silent,
            5 => Opening::Partial,
            6 => Opening::Cut,
            7 => Opening::Odd(g.below(5) as u8),
            8 => Opening::Huge,
            _ => Opening::Corrupt,
        };
        let mut wanted: BTreeSet<B256> = if many || large && g.chance(3, 4) {
            digests.iter().copied().collect()
        } else {
            digests.iter().filter(|_| g.bool()).copied().collect()
        };
        for _ in 0..g.usize(3) {
            wanted.insert(b256(g));
        }
        let e = if g.chance(3, 4) { epoch } else { g.below(3) as Epoch + 100 };
        visits.push(Visit { peer: g.usize(4), at: Duration::from_millis(at), how, wanted, epoch: e, slow: g.chance(1, 8) });
    }
    // an answer fits into the pipe, or it does not
    let buffer = if large { *g.pick(&[500, 4096]) } else { 1 << 23 };
    // held batches for which all of what is asked does not fit into the pipe
    let has = |v: &Visit| v.wanted.iter().take(MAX_BATCH_DIGESTS_PER_REQUEST).filter(|d| digests.contains(d)).count();
    g.note(|| {
        let v: Vec<_> = visits.iter().map(|v| format!("{} at {:?} {:?} {} epoch {}{}", v.peer, v.at, v.how, v.wanted.len(), v.epoch, if v.slow { " slow" } else { "" })).collect();
        format!("{held} batches, large {large}, buffer {buffer}, visits {v:#?}")
    });
    // who is let in
    let mut inside: Vec<usize> = vec![];
    let mut admitted: Vec<bool> = vec![];
    for (i, v) in visits.iter().enumerate() {
        // everyone of a burst comes before anyone of it is gone
        let present = |j: usize| {
            let w = &visits[j];
            let (a, b) = gone(w, large && has(w) > 0);
            // still there; perhaps
            (w.at == v.at || a > v.at, w.at == v.at || b >= v.at)
        };
        let refused = |f: &dyn Fn(usize) -> bool| {
            let all: Vec<usize> = inside.iter().copied().filter(|j| f(*j)).collect();
            let mine = all.iter().filter(|j| visits[**j].peer == v.peer).count();
            all.len() >= MAX_CONCURRENT_BATCH_STREAMS || mine >= MAX_PENDING_REQUESTS_PER_PEER
        };
        let (sure, maybe) = (refused(&|j| present(j).0), refused(&|j| present(j).1));
        if sure != maybe {
            // not decided by the rules: the rest is left out
            break;
        }
        if !sure {
            inside.push(i);
        }
        admitted.push(!sure);
    }
    visits.truncate(admitted.len());
    g.nontrivial_if(admitted.len() > 1 || many);
    if admitted.contains(&false) {
        g.class("at capacity");
    }
    // in the end all places are free again
    for peer in [0, 0, 1, 1, 2] {
        let at = Duration::from_millis(at) + Duration::from_secs(500);
        visits.push(Visit { peer, at, how: Opening::Asks, wanted: digests.iter().copied().collect(), epoch, slow: false });
        admitted.push(true);
    }
    let end = visits[visits.len() - 1].at;
    paused(async {
        let nd = node(&com, epoch, false)?;
        for b in &all {
            let mut b = b.clone();
            b.received_at = Some(7);
            nd.db.insert::<NodeBatchesCache>(&b.digest(), &b).map_err(s("store"))?;
        }
        let (tx, rx) = mpsc::channel::<Event>(100);
        WorkerNetwork::new(rx, nd.net.clone(), nd.cfg.clone(), 0, nd.judge.clone(), chain().0.clone()).spawn(nd.net.get_task_spawner());
        let start = Instant::now();
        let mut tasks = vec![];
        for burst in visits.chunk_by(|a, b| a.at == b.at) {
            sleep_until(start + burst[0].at).await;
            let mut come = vec![];
            for v in burst {
                let (ours, theirs) = pair(buffer).await?;
                let request = frame(&SyncFrame::Req(WorkerSyncRequest::Batches { batch_digests: v.wanted.clone(), epoch: v.epoch })).await;
                let event = Event::InboundStream { peer: com.by_id()[1 + v.peer].pk(), stream: ours };
                come.push((event, visit(theirs, v.how.clone(), request, v.slow, start + end)));
            }
            let (events, acts): (Vec<_>, Vec<_>) = come.into_iter().unzip();
            for e in events {
                tx.try_send(e).map_err(|_| "events")?;
            }
            tasks.extend(acts.into_iter().map(tokio::spawn));
        }
        for (i, (t, (v, let_in))) in tasks.into_iter().zip(visits.iter().zip(&admitted)).enumerate() {
            let got = t.await.map_err(s("visitor"))?;
            let who = format!("visitor {i} ({:?} at {:?})", v.how, v.at);
            if matches!(v.how, Opening::Drops) {
                continue;
            }
            let (when, last) = got.last().ok_or_else(|| format!("{who}: nothing"))?;
            let when = when.duration_since(start);
            let frames: Vec<&SyncFrame<WorkerSyncRequest>> = got.iter().filter_map(|(_, x)| if let Got::Frame(f) = x { Some(f) } else { None }).collect();
            let ended = matches!(last, Got::End);
            let short: Vec<String> = frames.iter().take(5).map(|f| vcore::clip(&format!("{f:?}"), 60)).collect();
            // nobody waits longer than it has to
            let prompt = !v.slow && !matches!(v.how, Opening::Stalls(_) | Opening::Never);
            if !let_in {
                ensure!(ended && frames == [&SyncFrame::Deny(DenyReason::AtCapacity)], "{who} comes to a full house and gets {short:?}, {last:?}");
                ensure!(!prompt || when == v.at, "{who} is refused at {when:?}");
                continue;
            }
            let said: HashMap<B256, Batch> = frames
                .iter()
                .filter_map(|f| if let SyncFrame::Data(b) = f { Some(b) } else { None })
                .map(|b| try_decode::<Batch>(b).map(|b| (b.digest(), b)).map_err(|e| format!("{who} gets data that is no batch: {e}")))
                .collect::<Result<_, _>>()?;
            for (d, b) in &said {
                ensure!(v.wanted.contains(d), "{who} gets a batch it did not ask for");
                ensure!(all.iter().any(|x| plain(b) == plain(x)), "{who} gets a batch that the node does not have");
            }
            match v.how {
                Opening::Never if large => {}
                Opening::Asks | Opening::Stalls(_) | Opening::Never => {
                    let data = frames.iter().filter(|f| matches!(f, SyncFrame::Data(_))).count();
                    let n = has(v);
                    ensure!(ended, "{who}: the answer ends with {last:?}");
                    ensure!(frames.len() == n + 2 && data == n, "{who} gets {} frames and {data} batches, {n} are here of {} it asks for", frames.len(), v.wanted.len());
                    ensure!(frames[0] == &SyncFrame::Ack && frames[n + 1] == &SyncFrame::End, "{who}: the answer is out of order");
                    ensure_eq!(said.len(), n, "{who}: distinct batches");
                    let due: BTreeSet<&B256> = v.wanted.iter().take(MAX_BATCH_DIGESTS_PER_REQUEST).filter(|d| digests.contains(d)).collect();
                    ensure!(said.keys().all(|d| due.contains(d)), "{who}: other batches than the first {MAX_BATCH_DIGESTS_PER_REQUEST}");
                    ensure!(!prompt || when == v.at, "{who} is served at {when:?}");
                }
                Opening::Silent | Opening::Partial => {
                    ensure!(ended && frames.is_empty(), "{who} gets {short:?}, {last:?}");
                    ensure!(when >= v.at + PATIENCE && when <= v.at + PATIENCE + LEAVING, "{who} is left at {when:?}");
                }
                Opening::Odd(_) => {
                    ensure!(ended && frames == [&SyncFrame::Err(SyncFrameError::Malformed)], "{who} gets {short:?}, {last:?}");
                    ensure!(!prompt || when == v.at, "{who} is refused at {when:?}");
                }
                Opening::Cut | Opening::Huge | Opening::Corrupt => {
                    ensure!(ended && frames.is_empty(), "{who} gets {short:?}, {last:?}");
                    ensure!(!prompt || when == v.at, "{who} is left at {when:?}");
                }
                Opening::Drops => {}
            }
        }
        Ok(())
    })
}

/// A batch as full as the rules allow, or nearly: many transactions of at least 100 bytes.
fn full(g: &mut G, i: u64, epoch: Epoch) -> Batch {
    let max = max_batch_size(epoch);
    // each takes at least 21,000 of 30,000,000 gas
    let n = *g.pick(&[1usize, 2, 100, 1000, 1300, 1428]);
    let room = max - if g.bool() { 0 } else { g.usize(1000) };
    let each = room / n;
    let mut transactions: Vec<Vec<u8>> = (0..n).map(|k| noise(i * 10_000 + k as u64, each)).collect();
    let rest = room - each * n;
    transactions[0].extend(noise(i, rest));
    Batch { transactions, epoch, ..Default::default() }
}

/// What one node keeps, in its cache or its chain, another gets from it.
pub fn exchanging(g: &mut G) -> R {
    let epoch = CHAIN_EPOCH;
    let com = committee(g, 5, 7, epoch);
    let (chain, saved) = chain();
    let n = if g.chance(1, 20) { g.urange(195, 230) } else { g.urange(0, 6) };
    let mut cached = pool(g, n, epoch);
    let big = if g.chance(1, 6) { 2 } else { g.usize(2) };
    for i in 0..big {
        cached.push(full(g, i as u64, epoch));
    }
    // some are in both, or nearly all
    let both = *g.pick(&[1, 8, 10]);
    cached.extend(saved.iter().filter(|_| g.chance(both, 10)).cloned());
    let mut wanted: BTreeSet<B256> = cached.iter().chain(saved).filter(|_| g.chance(2, 3)).map(|b| b.digest()).collect();
    let held = wanted.clone();
    if g.bool() {
        wanted.insert(b256(g));
    }
    if wanted.is_empty() {
        return Ok(());
    }
    let buffer = *g.pick(&[500, 4096, 1 << 20]);
    g.nontrivial();
    if big > 0 {
        g.class("full batches");
    }
    g.note(|| format!("{} cached, {} in the chain, {} wanted of which {} are there, sizes {:?}", cached.len(), saved.len(), wanted.len(), held.len(),
        cached.iter().rev().take(3).map(|b| (b.transactions.len(), b.size())).collect::<Vec<_>>()));
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().map_err(s("runtime"))?;
    rt.block_on(async {
        let server = node(&com, epoch, false)?;
        let mut client = node(&com, epoch, false)?;
        for b in &cached {
            server.db.insert::<NodeBatchesCache>(&b.digest(), b).map_err(s("store"))?;
        }
        let (tx, rx) = mpsc::channel::<Event>(100);
        WorkerNetwork::new(rx, server.net.clone(), server.cfg.clone(), 0, server.judge.clone(), chain.clone()).spawn(server.net.get_task_spawner());
        let mut commands = client.rx.take().ok_or("commands")?;
        let (me, peer) = (com.by_id()[1].pk(), com.by_id()[2].pk());
        let wires = tokio::spawn(async move {
            let mut opened = 0;
            while let Some(c) = commands.recv().await {
                match c {
                    tn_network_libp2p::types::NetworkCommand::ConnectedPeers { reply } => {
                        let _ = reply.send(vec![peer]);
                    }
                    tn_network_libp2p::types::NetworkCommand::OpenStream { reply, .. } => {
                        opened += 1;
                        let (Ok((asks, a)), Ok((answers, b))) = (pair(buffer).await, pair(buffer).await) else { break };
                        let _ = reply.send(Ok(asks));
                        let _ = tx.send(Event::InboundStream { peer: me, stream: answers }).await;
                        tokio::spawn(async move {
                            let ((ra, mut wa), (rb, mut wb)) = (a.split(), b.split());
                            let there = async {
                                let _ = futures::io::copy(ra, &mut wb).await;
                                let _ = wb.close().await;
                            };
                            let back = async {
                                let _ = futures::io::copy(rb, &mut wa).await;
                                let _ = wa.close().await;
                            };
                            futures::join!(there, back);
                        });
                    }
                    _ => {}
                }
            }
            opened
        });
        let mut missing = wanted.clone();
        let got = client.net.pub_request_batches(&mut missing).await;
        if held.is_empty() {
            ensure!(got.is_err(), "batches out of nowhere");
            return Ok(());
        }
        let got = got.map_err(|e| format!("none of {} batches arrives: {e}", held.len()))?;
        for (d, b) in &got {
            ensure!(b.digest() == *d && held.contains(d), "a batch under another digest");
            ensure!(cached.iter().chain(saved).any(|x| plain(x) == plain(b)), "another batch");
        }
        ensure_eq!(got.len(), held.len(), "batches that arrive of those that are there");
        ensure_eq!(missing.len(), wanted.len() - held.len(), "batches still missing");
        ensure!(missing.iter().all(|d| !held.contains(d)), "a batch is missing that arrived");
        drop(client);
        wires.abort();
        Ok(())
    })
}

/// Only the author of a faulty announcement is charged for it, never the one who passed it on.
pub fn blaming(g: &mut G) -> R {
    let epoch = 1 + g.below(3) as Epoch;
    let com = committee(g, 5, 7, epoch);
    let n = g.urange(1, 6);
    let news: Vec<(u8, Option<usize>, Option<usize>)> = (0..n)
        .map(|_| (g.below(5) as u8, if g.chance(4, 5) { Some(g.usize(4)) } else { None }, if g.chance(4, 5) { Some(g.usize(4)) } else { None }))
        .collect();
    let mut junk = g.bytes(8);
    junk.insert(0, 0xff);
    let digest = b256(g);
    g.nontrivial();
    g.note(|| format!("announcements (kind, passed on by, author) {news:?}"));
    paused(async {
        let mut nd = node(&com, epoch, false)?;
        let topic = tn_config::LibP2pConfig::worker_batch_topic(nd.cfg.chain_id());
        let (tx, rx) = mpsc::channel::<Event>(100);
        WorkerNetwork::new(rx, nd.net.clone(), nd.cfg.clone(), 0, nd.judge.clone(), chain().0.clone()).spawn(nd.net.get_task_spawner());
        let mut commands = nd.rx.take().ok_or("commands")?;
        let (ptx, mut prx) = mpsc::unbounded_channel();
        tokio::spawn(async move {
            while let Some(c) = commands.recv().await {
                match c {
                    tn_network_libp2p::types::NetworkCommand::ConnectedPeers { reply } => {
                        let _ = reply.send(vec![]);
                    }
                    tn_network_libp2p::types::NetworkCommand::ReportPenalty { peer, penalty } => {
                        let _ = ptx.send((peer, format!("{penalty:?}")));
                    }
                    _ => {}
                }
            }
        });
        let mut due = vec![];
        for (kind, relayer, author) in &news {
            let key = |x: &Option<usize>| x.map(|i| com.by_id()[1 + i].pk());
            let (t, data) = match kind {
                0 => (topic.clone(), encode(&tn_worker::WorkerGossip::Batch(epoch, digest))),
                1 => (topic.clone(), encode(&tn_worker::WorkerGossip::Batch(epoch - 1, digest))),
                2 => (topic.clone(), encode(&tn_worker::WorkerGossip::Batch(epoch + 1, digest))),
                3 => (format!("{topic}-x"), encode(&tn_worker::WorkerGossip::Batch(epoch, digest))),
                _ => (topic.clone(), junk.clone()),
            };
            if *kind > 2 {
                due.extend(key(author).map(|k| (k, "Fatal".to_string())));
            }
            let message = tn_network_libp2p::GossipMessage { source: None, data, sequence_number: None, topic: tn_network_libp2p::TopicHash::from_raw(t) };
            let payload = tn_network_libp2p::types::GossipPayload { message, relayer: key(relayer), author: key(author) };
            tx.send(Event::Gossip(Box::new(payload))).await.map_err(|_| "events")?;
        }
        sleep(Duration::from_secs(20)).await;
        let mut got = vec![];
        while let Ok(x) = prx.try_recv() {
            got.push(x);
        }
        got.sort();
        due.sort();
        ensure_eq!(got, due, "penalties");
        Ok(())
    })
}

/// A peer that does not know the protocol is left alone for the epoch, and all others are not.
pub fn leaving(g: &mut G) -> R {
    let epoch = g.below(3) as Epoch;
    let com = committee(g, 5, 7, epoch);
    let batch = pool(g, 1, epoch).remove(0);
    let digest = batch.digest();
    // per peer and question: not knowing the protocol, failing otherwise, having nothing
    let n = g.urange(1, 4);
    let steps = g.urange(2, 8);
    let plays: Vec<Vec<u8>> = (0..n).map(|_| (0..40).map(|_| g.weighted(&[2, 3, 3]) as u8).collect()).collect();
    let epochs: Vec<bool> = (0..steps).map(|_| g.chance(1, 4)).collect();
    g.nontrivial();
    g.note(|| format!("{n} peers, new epochs {epochs:?}, plays {:?}", plays.iter().map(|p| &p[..8]).collect::<Vec<_>>()));
    paused(async {
        let mut nd = node(&com, epoch, false)?;
        let keys: Vec<BlsPublicKey> = com.by_id().iter().skip(1).take(n).map(|k| k.pk()).collect();
        let mut commands = nd.rx.take().ok_or("commands")?;
        let asked: std::sync::Arc<std::sync::Mutex<Vec<(usize, u8)>>> = Default::default();
        let (seen, who) = (asked.clone(), keys.clone());
        tokio::spawn(async move {
            let mut turn = vec![0usize; n];
            while let Some(c) = commands.recv().await {
                match c {
                    tn_network_libp2p::types::NetworkCommand::ConnectedPeers { reply } => {
                        let _ = reply.send(who.clone());
                    }
                    tn_network_libp2p::types::NetworkCommand::OpenStream { peer, reply } => {
                        let i = who.iter().position(|k| *k == peer).unwrap_or(0);
                        let play = plays[i][turn[i] % 40];
                        turn[i] += 1;
                        seen.lock().unwrap().push((i, play));
                        use tn_network_libp2p::{error::NetworkError, StreamError};
                        match play {
                            0 => {
                                let _ = reply.send(Err(NetworkError::Stream(StreamError::UpgradeFailed)));
                            }
                            1 => {
                                let _ = reply.send(Err(NetworkError::Stream(StreamError::UpgradeIo)));
                            }
                            _ => {
                                let Ok((ours, mut r)) = pair(4096).await else { break };
                                let _ = reply.send(Ok(ours));
                                tokio::spawn(async move {
                                    let _ = crate::fetch::next_frame(&mut r).await;
                                    let mut b = frame(&SyncFrame::Ack).await;
                                    b.extend(frame(&SyncFrame::End).await);
                                    let _ = r.write_all(&b).await;
                                    let _ = r.close().await;
                                });
                            }
                        }
                    }
                    _ => {}
                }
            }
        });
        let mut left = BTreeSet::new();
        for (k, new) in epochs.iter().enumerate() {
            if *new {
                nd.net.update_epoch(epoch + 1 + k as Epoch);
                left.clear();
            }
            let mut missing = BTreeSet::from([digest]);
            let got = nd.net.pub_request_batches(&mut missing).await;
            ensure!(got.is_err() && missing.len() == 1, "a batch out of nowhere: {got:?}");
            // three rounds over all peers that are not left alone
            let mut now: Vec<(usize, u8)> = std::mem::take(&mut *asked.lock().unwrap());
            now.reverse();
            for round in 0..3 {
                for i in 0..n {
                    if left.contains(&i) {
                        continue;
                    }
                    let (j, play) = now.pop().ok_or_else(|| format!("step {k}, round {round}: peer {i} is not asked"))?;
                    ensure_eq!(j, i, "step {k}, round {round}: the peer asked");
                    if play == 0 {
                        left.insert(i);
                    }
                }
            }
            ensure!(now.is_empty(), "step {k}: more is asked: {now:?}");
        }
        Ok(())
    })
}
