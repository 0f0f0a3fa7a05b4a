//! Channel wrappers and the error latch against models.

#[allow(dead_code)]
#[path = "../../../crates/storage/src/error_latch.rs"]
mod error_latch;

use futures::FutureExt;
use std::collections::VecDeque;
use tn_types::{TnReceiver, TnSender, TryRecvError, TrySendError};
use tokio::sync::{broadcast, mpsc, watch};
use vcore::{ensure, ensure_eq, Budget, Check, G, R};

fn mpsc_history(g: &mut G) -> R {
    let cap = 1 + g.usize(6);
    let (tx, rx) = mpsc::channel::<u32>(cap);
    let mut txs = vec![tx];
    let mut rx = Some(rx);
    let mut q: VecDeque<u32> = VecDeque::new();
    let mut next = 0;
    let mut trace = vec![];
    for (op, arg) in g.vec(1, 60, 20, |g| (g.weighted(&[6, 3, 3, 2, 2, 1, 1, 1]), g.usize(1000))) {
        match op {
            0 | 1 if !txs.is_empty() => {
                let tx = &txs[arg % txs.len()];
                next += 1;
                trace.push(format!("send {next}"));
                let open = rx.is_some();
                if op == 0 {
                    let r = TnSender::try_send(tx, next);
                    match r {
                        Ok(()) => {
                            ensure!(open && q.len() < cap, "accepted with {} of {cap} queued, open={open}: {trace:?}", q.len());
                            q.push_back(next);
                        }
                        Err(TrySendError::Full(v)) => ensure!(open && q.len() == cap && v == next, "full({v}) with {} of {cap}: {trace:?}", q.len()),
                        Err(TrySendError::Closed(v)) => ensure!(!open && v == next, "closed({v}): {trace:?}"),
                        Err(TrySendError::Broadcast(_)) => return Err("not a broadcast".into()),
                    }
                } else {
                    match TnSender::send(tx, next).now_or_never() {
                        None => ensure!(open && q.len() == cap, "send waits with {} of {cap} queued: {trace:?}", q.len()),
                        Some(Ok(())) => {
                            ensure!(open && q.len() < cap, "sent with {} of {cap} queued: {trace:?}", q.len());
                            q.push_back(next);
                        }
                        Some(Err(e)) => ensure!(!open && e.0 == next, "send error {e:?}: {trace:?}"),
                    }
                }
            }
            2..=4 => {
                let Some(rx) = &mut rx else { continue };
                let want = q.pop_front();
                g.nontrivial_if(want.is_some());
                trace.push("receive".into());
                let closed = txs.is_empty();
                match op {
                    2 => {
                        let want = want.ok_or(if closed { TryRecvError::Disconnected } else { TryRecvError::Empty });
                        ensure_eq!(TnReceiver::try_recv(rx), want, "try_recv: {trace:?}");
                    }
                    3 => {
                        let r = TnReceiver::recv(rx).now_or_never();
                        ensure_eq!(r, if want.is_some() || closed { Some(want) } else { None }, "recv: {trace:?}");
                    }
                    _ => {
                        let r = futures::future::poll_fn(|cx| TnReceiver::poll_recv(rx, cx)).now_or_never();
                        ensure_eq!(r, if want.is_some() || closed { Some(want) } else { None }, "poll_recv: {trace:?}");
                    }
                }
            }
            5 if !txs.is_empty() => {
                trace.push("clone sender".into());
                let t = txs[arg % txs.len()].clone();
                txs.push(t);
            }
            6 if !txs.is_empty() => {
                trace.push("drop sender".into());
                let i = arg % txs.len();
                txs.swap_remove(i);
            }
            7 if arg % 4 == 0 => {
                trace.push("drop receiver".into());
                rx = None;
                q.clear();
            }
            _ => {}
        }
    }
    g.note(|| trace.join(", "));
    Ok(())
}

fn broadcast_history(g: &mut G) -> R {
    let cap = 1usize << g.usize(4);
    let (tx, rx) = broadcast::channel::<u32>(cap);
    let mut txs = vec![tx];
    let mut sent: Vec<u32> = vec![];
    let mut rxs: Vec<(broadcast::Receiver<u32>, usize)> = vec![(rx, 0)];
    let mut trace = vec![];
    for (op, arg) in g.vec(1, 80, 25, |g| (g.weighted(&[6, 3, 4, 4, 1, 1, 1, 1]), g.usize(1000))) {
        match op {
            0 | 1 if !txs.is_empty() => {
                let tx = &txs[arg % txs.len()];
                let v = sent.len() as u32;
                trace.push(format!("send {v}"));
                if op == 0 {
                    ensure!(TnSender::try_send(tx, v).is_ok(), "a broadcast was refused: {trace:?}");
                } else {
                    ensure!(TnSender::send(tx, v).now_or_never().is_some_and(|r| r.is_ok()), "a broadcast was refused or waited: {trace:?}");
                }
                sent.push(v);
            }
            2 | 3 if !rxs.is_empty() => {
                let i = arg % rxs.len();
                let closed = txs.is_empty();
                let (rx, pos) = &mut rxs[i];
                let oldest = sent.len().saturating_sub(cap);
                let lagged = *pos < oldest;
                trace.push(format!("receive by {i}"));
                if op == 2 {
                    let want = if lagged {
                        *pos = oldest;
                        g.class("lagged");
                        Err(TryRecvError::Lagged)
                    } else if *pos < sent.len() {
                        *pos += 1;
                        g.nontrivial();
                        Ok(sent[*pos - 1])
                    } else {
                        Err(if closed { TryRecvError::Disconnected } else { TryRecvError::Empty })
                    };
                    ensure_eq!(TnReceiver::try_recv(rx), want, "try_recv: {trace:?}");
                } else {
                    let r = TnReceiver::recv(rx).now_or_never();
                    if lagged {
                        g.class("lagged");
                        *pos = oldest;
                    }
                    let want = if *pos < sent.len() {
                        *pos += 1;
                        g.nontrivial();
                        Some(Some(sent[*pos - 1]))
                    } else if closed {
                        Some(None)
                    } else {
                        None
                    };
                    ensure_eq!(r, want, "recv by {i} with capacity {cap}: {trace:?}");
                }
            }
            4 if !txs.is_empty() => {
                trace.push("subscribe".into());
                let r = txs[0].subscribe();
                rxs.push((r, sent.len()));
            }
            5 if !rxs.is_empty() => {
                trace.push("drop receiver".into());
                let i = arg % rxs.len();
                rxs.swap_remove(i);
            }
            6 if !txs.is_empty() => {
                trace.push("clone sender".into());
                let t = txs[0].clone();
                txs.push(t);
            }
            7 if !txs.is_empty() => {
                trace.push("drop sender".into());
                txs.pop();
            }
            _ => {}
        }
    }
    g.note(|| trace.join(", "));
    Ok(())
}

fn latch(g: &mut G) -> R {
    let (tx, rx) = watch::channel::<Option<u32>>(None);
    let mut rxs = vec![(rx, false)];
    let mut slot = None;
    let mut trace = vec![];
    for (op, v) in g.vec(1, 40, 10, |g| (g.weighted(&[5, 3, 1, 1]), g.below(1000) as u32)) {
        match op {
            0 => {
                trace.push(format!("latch {v}"));
                error_latch::latch_first_error(&tx, v);
                if slot.is_none() {
                    slot = Some(v);
                    rxs.iter_mut().for_each(|r| r.1 = true);
                } else {
                    g.nontrivial();
                }
            }
            1 => {
                let i = v as usize % rxs.len();
                trace.push(format!("read by {i}"));
                ensure_eq!(*rxs[i].0.borrow_and_update(), slot, "latched: {trace:?}");
                rxs[i].1 = false;
            }
            2 => {
                // the failure is acknowledged
                trace.push("drain".into());
                let got = tx.send_replace(None);
                ensure_eq!(got, slot, "drained: {trace:?}");
                slot = None;
                rxs.iter_mut().for_each(|r| r.1 = true);
            }
            _ => {
                let r = tx.subscribe();
                rxs.push((r, false));
            }
        }
        for (r, new) in &rxs {
            ensure_eq!(*r.borrow(), slot, "latched: {trace:?}");
            ensure_eq!(r.has_changed().unwrap_or(false), *new, "notified of a change: {trace:?}");
        }
    }
    g.note(|| trace.join(", "));
    Ok(())
}

/// Several producers and one consumer on real threads: everything accepted arrives, in each producer's order.
fn mpsc_threads(g: &mut G) -> R {
    let cap = 1 + g.usize(4);
    let producers = 1 + g.usize(4);
    let each = 1 + g.usize(40);
    g.nontrivial();
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().map_err(|e| e.to_string())?;
    rt.block_on(async move {
        let (tx, mut rx) = mpsc::channel::<(usize, usize)>(cap);
        let (btx, mut brx) = broadcast::channel::<(usize, usize)>(4096);
        for p in 0..producers {
            let (tx, btx) = (tx.clone(), btx.clone());
            tokio::spawn(async move {
                for i in 0..each {
                    let _ = TnSender::send(&tx, (p, i)).await;
                    let _ = TnSender::try_send(&btx, (p, i));
                    if i % 7 == 3 {
                        tokio::task::yield_now().await;
                    }
                }
            });
        }
        drop((tx, btx));
        let mut seen = vec![0; producers];
        while let Some((p, i)) = TnReceiver::recv(&mut rx).await {
            ensure_eq!(seen[p], i, "order of producer {p}");
            seen[p] += 1;
        }
        ensure!(seen.iter().all(|n| *n == each), "messages lost: {seen:?} of {each}");
        let mut seen = vec![0; producers];
        while let Some((p, i)) = TnReceiver::recv(&mut brx).await {
            ensure_eq!(seen[p], i, "order of producer {p}");
            seen[p] += 1;
        }
        ensure!(seen.iter().all(|n| *n == each), "broadcasts lost: {seen:?} of {each}");
        Ok(())
    })
}

pub fn check(c: &mut Check) {
    c.sub("mpsc-history", Budget::new(600_000, 5), mpsc_history);
    c.sub("broadcast-history", Budget::new(600_000, 5), broadcast_history);
    c.sub("error-latch", Budget::new(300_000, 3), latch);
    c.sub("channels-threads", Budget::new(5_000, 5).threads(4), mpsc_threads);
}
