//! S03, the chain over epochs: what was persisted is there after a stop, the rest can be stored again.

use crate::s03::stop_point;
use crate::world::*;
use std::path::Path;
use tn_storage::consensus::ConsensusChain;
use vcore::{ensure, ensure_eq, Scratch, G, R};
use vfs::{Op, Recorder};
use vgen::block_on;

fn s<T: std::fmt::Display>(what: &str) -> impl Fn(T) -> String + '_ {
    move |x| format!("{what}: {x}")
}

async fn start(dir: &Path, eps: &[Ep]) -> Result<ConsensusChain, String> {
    let chain = ConsensusChain::new(dir.to_path_buf(), eps[0].com.committee.clone()).map_err(s("open the chain"))?;
    chain.persist_current().await.map_err(s("persist at the start"))?;
    Ok(chain)
}

/// Number of outputs of all epochs up to and including number `n` of the chain.
fn upto(eps: &[Ep], n: u64) -> usize {
    eps.iter().flat_map(|e| &e.outputs).filter(|o| o.number() <= n).count()
}

/// Everything the chain answers when the first `n` outputs are stored and `cur` is the current epoch.
async fn check_chain(chain: &ConsensusChain, eps: &[Ep], n: usize, what: &str) -> R {
    let mut i = 0;
    for ep in eps {
        let mut last = None;
        let records = chain.epochs().latest_record().await.map_or(0, |r| r.epoch as usize + 1);
        for o in &ep.outputs {
            i += 1;
            let (k, d) = (o.number(), o.consensus_header_hash());
            if i <= n {
                last = Some(o.consensus_header());
                if ep.epoch() as usize <= records {
                    ensure_eq!(chain.epochs().number_to_epoch(k), ep.epoch(), "{what}: epoch of {k}");
                    let h = chain.consensus_header_by_number(k).await.map_err(s(&format!("{what}: header {k}")))?;
                    ensure!(h == Some(o.consensus_header()), "{what}: header {k} is {:?}", h.map(|h| h.number));
                    let got = chain.consensus_output_by_number(k).await.map_err(s(&format!("{what}: output {k}")))?;
                    let got = got.ok_or(format!("{what}: no output {k}"))?;
                    same(&got, o, &format!("{what}: output {k}"))?;
                    let bytes = chain.consensus_output_bytes_by_number(k).await.map_err(s(&format!("{what}: bytes {k}")))?;
                    let bytes = bytes.ok_or(format!("{what}: no bytes of {k}"))?;
                    let dec = chain.decode_consensus_output(ep.epoch(), bytes.clone()).await.map_err(s(what))?;
                    same(&dec, o, &format!("{what}: output {k} from its bytes"))?;
                }
                let h = chain.consensus_header_by_digest(ep.epoch(), d).await.map_err(s(&format!("{what}: header {k} by digest")))?;
                ensure!(h == Some(o.consensus_header()), "{what}: header {k} by digest is {:?}", h.map(|h| h.number));
            } else {
                let h = chain.consensus_header_by_digest(ep.epoch(), d).await.map_err(s(&format!("{what}: header {k} by digest")))?;
                ensure!(h.is_none(), "{what}: header {k} by digest, of {n} stored");
            }
        }
        // (a pack that does not exist is an error here)
        if last.is_some() {
            let l = chain.latest_consensus_header_from_pack(ep.epoch()).await.map_err(s(what))?;
            ensure!(l == last, "{what}: latest of epoch {} is {:?}", ep.epoch(), l.map(|h| h.number));
        }
    }
    Ok(())
}

/// Store everything from the epoch the chain is at.
async fn complete(chain: &ConsensusChain, eps: &[Ep], at: &str) -> R {
    let e0 = chain.latest_consensus_epoch() as usize;
    for ep in &eps[..e0] {
        chain.epochs().save_record(ep.rec.clone()).await.map_err(s(at))?;
    }
    for (e, ep) in eps.iter().enumerate().skip(e0) {
        chain.new_epoch(ep.prev.clone(), ep.com.committee.clone()).await.map_err(|x| format!("epoch {e}: {x}; {at}"))?;
        let l = chain.latest_consensus_header_from_pack(e as u32).await.map_err(|x| format!("latest of epoch {e}: {x}; {at}"))?;
        let have = l.map_or(0, |h| h.number);
        for o in ep.outputs.iter().filter(|o| o.number() > have) {
            chain.save_consensus_output(o.clone()).await.map_err(|x| format!("output {} cannot be stored after {have}: {x}; {at}", o.number()))?;
            chain.persist_current().await.map_err(s(at))?;
            ensure_eq!(chain.latest_consensus_number(), o.number(), "latest; {at}");
        }
        chain.epochs().save_record(ep.rec.clone()).await.map_err(s(at))?;
        chain.epochs().persist().await.map_err(s(at))?;
    }
    Ok(())
}

pub fn chain_stop(power: bool) -> impl Fn(&mut G) -> R + Sync {
    move |g| {
        let sc = Scratch::new();
        let dir = sc.sub("db");
        std::fs::create_dir_all(&dir).map_err(s("dir"))?;
        let ne = 1 + g.usize(3);
        let eps = epochs(g, ne, 5);
        let total: usize = eps.iter().map(|e| e.outputs.len()).sum();
        let last = 1 + g.usize(total);
        let rec = Recorder::start(&dir);
        let mut trace = vec![];
        let always = g.chance(1, 2);
        block_on(async {
            let mut n = 0;
            let mut chain = start(&dir, &eps).await?;
            rec.mark(1);
            'run: for ep in &eps {
                chain.new_epoch(ep.prev.clone(), ep.com.committee.clone()).await.map_err(s("new epoch"))?;
                rec.mark(2 * n as u64);
                trace.push("epoch");
                for o in &ep.outputs {
                    if n == last {
                        break 'run;
                    }
                    chain.save_consensus_output(o.clone()).await.map_err(s("save"))?;
                    n += 1;
                    trace.push("save");
                    if always || g.bool() {
                        chain.persist_current().await.map_err(s("persist"))?;
                        rec.mark(2 * n as u64 + 1);
                        trace.push("persist");
                    }
                    if g.chance(1, 8) {
                        let before = chain.latest_consensus_number();
                        drop(chain);
                        rec.mark(2 * n as u64 + 1);
                        trace.push("restart");
                        chain = start(&dir, &eps).await?;
                        ensure_eq!(chain.latest_consensus_number(), before, "latest after a restart; {trace:?}");
                        ensure_eq!(chain.latest_consensus_epoch(), ep.epoch(), "latest epoch after a restart; {trace:?}");
                        chain.new_epoch(ep.prev.clone(), ep.com.committee.clone()).await.map_err(s("new epoch"))?;
                    }
                    if g.chance(1, 6) {
                        check_chain(&chain, &eps, n, "running").await.map_err(|e| format!("{e}; {trace:?}"))?;
                    }
                }
                chain.epochs().save_record(ep.rec.clone()).await.map_err(s("record"))?;
                chain.epochs().persist().await.map_err(s("records"))?;
            }
            check_chain(&chain, &eps, n, "end").await.map_err(|e| format!("{e}; {trace:?}"))?;
            drop(chain);
            rec.mark(2 * n as u64 + 1);
            Ok::<_, String>(())
        })?;
        let ops = rec.ops();
        drop(rec);
        let (k, torn) = stop_point(g, &ops, 0);
        // outputs persisted; outputs persisted with the note of which is the latest
        let (mut persisted, mut noted) = (0, 0);
        for o in &ops[..k] {
            if let Op::Mark(m) = o {
                persisted = (m / 2) as usize;
                if m % 2 == 1 {
                    noted = persisted;
                }
            }
        }
        let d2 = sc.sub("stopped");
        std::fs::create_dir_all(&d2).map_err(s("dir"))?;
        if power {
            let lost = vfs::apply_power_cut(&ops[..k], |left| if g.bool() { left } else { g.usize(left + 1) }, &d2);
            trace.push(if lost > 0 { "(unsynced writes lost)" } else { "(nothing lost)" });
            g.nontrivial_if(lost > 0);
        } else {
            vfs::apply(&ops[..k], torn, &d2);
            g.nontrivial_if(k < ops.len());
        }
        let at = format!("stopped after {k} of {} operations ({:?}), torn {torn:?}, persisted {persisted} ({noted} noted); {trace:?}", ops.len(), ops[..k].last().map(|o| o.brief()));
        g.note(|| at.clone());
        block_on(async {
            let chain = start(&d2, &eps).await.map_err(|e| format!("{e}; {at}"))?;
            let marker = chain.latest_consensus_number();
            let m = upto(&eps, marker);
            ensure!(m >= noted, "the latest is {marker}; {at}");
            ensure!(m <= last, "the latest is {marker}, never stored; {at}");
            // the epochs before the current one are complete, and the current one holds the latest
            for ep in &eps[..(chain.latest_consensus_epoch() as usize).min(eps.len() - 1)] {
                chain.epochs().save_record(ep.rec.clone()).await.map_err(s(&at))?;
            }
            if m > 0 {
                let o = eps.iter().flat_map(|e| &e.outputs).nth(m - 1).expect("output");
                ensure_eq!(o.sub_dag().leader_epoch(), chain.latest_consensus_epoch(), "epoch of the latest; {at}");
                let h = chain.consensus_header_by_number(marker).await.map_err(|e| format!("the latest, {marker}: {e}; {at}"))?;
                ensure!(h == Some(o.consensus_header()), "the latest, {marker}, is {:?}; {at}", h.map(|h| h.number));
            }
            for ep in &eps[chain.latest_consensus_epoch() as usize..] {
                let Some(o) = ep.outputs.iter().filter(|o| upto(&eps, o.number()) <= persisted).last() else { continue };
                let h = chain.latest_consensus_header_from_pack(ep.epoch()).await.map_err(|e| format!("epoch {}: {e}; {at}", ep.epoch()))?;
                ensure!(h.as_ref().is_some_and(|h| h.number >= o.number()), "the latest of epoch {} is {:?}; {at}", ep.epoch(), h.map(|h| h.number));
            }
            complete(&chain, &eps, &at).await?;
            check_chain(&chain, &eps, total, "completed").await.map_err(|e| format!("{e}; {at}"))?;
            drop(chain);
            let chain = start(&d2, &eps).await.map_err(|e| format!("{e}, when complete; {at}"))?;
            check_chain(&chain, &eps, total, "completed and restarted").await.map_err(|e| format!("{e}; {at}"))?;
            Ok::<_, String>(())
        })
    }
}
