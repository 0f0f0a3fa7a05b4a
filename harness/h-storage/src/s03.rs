//! S03: the consensus history on disk survives a stop at any moment.

use crate::world::*;
use std::path::Path;
use std::time::Duration;
use tn_storage::consensus_pack::{ConsensusPack, PackError};
use vcore::{ensure, ensure_eq, Budget, Check, Scratch, G, R};
use vfs::{Op, Recorder};
use vgen::{block_on, epoch};

pub const RULE: &str = "a history with at least three outputs and a reopening, or a stop between two file operations after the first output was stored";

const T: Duration = Duration::from_secs(20);

fn s<T: std::fmt::Display>(what: &str) -> impl Fn(T) -> String + '_ {
    move |x| format!("{what}: {x}")
}

pub fn open(dir: &Path, ep: &Ep) -> Result<ConsensusPack, PackError> {
    ConsensusPack::open_append(dir, ep.prev.clone(), ep.com.committee.clone())
}

pub async fn import(from: &Path, to: &Path, ep: &Ep, last: u64) -> Result<ConsensusPack, PackError> {
    let f = std::fs::read(from.join(format!("epoch-{}", ep.epoch())).join("data")).expect("data file");
    std::fs::create_dir_all(to).expect("dir");
    ConsensusPack::stream_import(to, &f[..], ep.epoch(), &ep.prev, last, T).await
}

fn shape(g: &mut G) -> Shape {
    let outputs = match g.below(8) {
        0 => 40 + g.usize(40),
        _ => 1 + g.usize(9),
    };
    Shape { outputs, large: if g.chance(1, 5) { 3 } else { 60 } }
}

fn pack_history(g: &mut G) -> R {
    let sc = Scratch::new();
    let dir = sc.sub("db");
    std::fs::create_dir_all(&dir).map_err(s("dir"))?;
    let en = epoch(g);
    let sh = shape(g);
    let ep = one_epoch(g, en, sh);
    let mut n = 0;
    let mut trace = vec![];
    let mut reopened = false;
    block_on(async {
        let mut pack = open(&dir, &ep).map_err(s("open"))?;
        for _ in 0..1 + g.usize(2 * ep.outputs.len()) {
            match g.weighted(&[10, 2, 2, 2, 2, 1]) {
                0 if n < ep.outputs.len() => {
                    trace.push("save");
                    let len = pack.save_consensus_output(ep.outputs[n].clone()).await.map_err(s("save"))?;
                    n += 1;
                    let bytes = pack.get_consensus_output_bytes(ep.start() + n as u64 - 1).await.map_err(s("bytes"))?;
                    ensure_eq!(len, bytes.len() as u64, "bytes stored");
                }
                1 if n > 0 => {
                    trace.push("save again");
                    let i = g.usize(n);
                    let len = pack.save_consensus_output(ep.outputs[i].clone()).await.map_err(s("save again"))?;
                    let bytes = pack.get_consensus_output_bytes(ep.start() + i as u64).await.map_err(s("bytes"))?;
                    ensure_eq!(len, bytes.len() as u64, "bytes stored");
                }
                2 if n + 1 < ep.outputs.len() => {
                    trace.push("save too far");
                    let i = n + 1 + g.usize(ep.outputs.len() - n - 1);
                    ensure!(pack.save_consensus_output(ep.outputs[i].clone()).await.is_err(), "stored {i} after {n}");
                }
                3 => {
                    trace.push("persist");
                    pack.persist().await.map_err(s("persist"))?;
                }
                4 => {
                    drop(pack);
                    reopened = true;
                    let how = g.below(3);
                    trace.push(["reopen", "reopen existing", "reopen to read"][how as usize]);
                    pack = match how {
                        0 => open(&dir, &ep).map_err(s("reopen"))?,
                        1 => ConsensusPack::open_append_exists(&dir, ep.epoch()).map_err(s("reopen existing"))?,
                        _ => {
                            let p = ConsensusPack::open_static(&dir, ep.epoch()).map_err(s("reopen static"))?;
                            check_pack(&p, &ep, n, "static").await.map_err(|e| format!("{e}; {trace:?}"))?;
                            if n < ep.outputs.len() {
                                ensure!(p.save_consensus_output(ep.outputs[n].clone()).await.is_err(), "stored in a static pack");
                            }
                            drop(p);
                            open(&dir, &ep).map_err(s("reopen"))?
                        }
                    };
                }
                _ => {
                    trace.push("other epoch");
                    let other = one_epoch(g, ep.epoch().wrapping_add(1), Shape { outputs: 1, large: 60 });
                    ensure!(pack.save_consensus_output(other.outputs[0].clone()).await.is_err(), "stored an output of another epoch");
                }
            }
            if g.chance(1, 4) {
                check_pack(&pack, &ep, n, "history").await.map_err(|e| format!("{e}; {trace:?}"))?;
            }
        }
        check_pack(&pack, &ep, n, "end").await.map_err(|e| format!("{e}; {trace:?}"))?;
        drop(pack);
        let pack = ConsensusPack::open_static(&dir, ep.epoch()).map_err(s("open static at the end"))?;
        check_pack(&pack, &ep, n, "read back").await.map_err(|e| format!("{e}; {trace:?}"))?;
        let p2 = import(&dir, &sc.sub("peer"), &ep, u64::MAX).await.map_err(s("import"))?;
        check_pack(&p2, &ep, n, "imported").await.map_err(|e| format!("{e}; {trace:?}"))?;
        Ok::<_, String>(())
    })?;
    g.nontrivial_if(n >= 3 && reopened);
    g.note(|| format!("epoch {en}: {}", trace.join(", ")));
    Ok(())
}

/// The last point of the operations that leaves something a stop can expose.
pub fn stop_point(g: &mut G, ops: &[Op], from: usize) -> (usize, Option<usize>) {
    let k = from + g.usize(ops.len() - from + 1);
    // often between the operations of a flush
    let torn = match ops[..k].last() {
        // (a write reaches the disk in whole sectors)
        Some(Op::Write { data, off, path }) if path.ends_with("data") && g.chance(1, 2) => {
            let sectors = (off + data.len() as u64) / 512 - off / 512;
            let cut = (off / 512 + g.below(sectors + 1)) * 512;
            Some(cut.saturating_sub(*off) as usize)
        }
        _ => None,
    };
    (k, torn)
}

/// Save, persist, reopen; stopped at some moment; or with the power cut, so that each file keeps a part of
/// what was written since it was last synchronised.
fn pack_stop(power: bool) -> impl Fn(&mut G) -> R + Sync {
    move |g| {
        let sc = Scratch::new();
        let dir = sc.sub("db");
        std::fs::create_dir_all(&dir).map_err(s("dir"))?;
        let en = epoch(g);
        let sh = shape(g);
        let ep = one_epoch(g, en, sh);
        let rec = Recorder::start(&dir);
        let mut trace = vec![];
        let (mut n, mut persisted) = (0usize, None::<usize>);
        block_on(async {
            let mut pack = open(&dir, &ep).map_err(s("open"))?;
            // (a pack is persisted when it is created, before anything is stored)
            pack.persist().await.map_err(s("persist"))?;
            rec.mark(0);
            for _ in 0..1 + g.usize(2 * ep.outputs.len()) {
                match g.weighted(&[8, 4, 2, 1]) {
                    0 if n < ep.outputs.len() => {
                        trace.push("save");
                        pack.save_consensus_output(ep.outputs[n].clone()).await.map_err(s("save"))?;
                        n += 1;
                    }
                    1 => {
                        trace.push("persist");
                        pack.persist().await.map_err(s("persist"))?;
                        rec.mark(n as u64);
                    }
                    2 => {
                        trace.push("flush");
                        pack.flush_data().await.map_err(s("flush"))?;
                    }
                    3 => {
                        trace.push("reopen");
                        drop(pack);
                        rec.mark(n as u64);
                        pack = open(&dir, &ep).map_err(s("reopen"))?;
                    }
                    _ => {}
                }
            }
            drop(pack);
            rec.mark(n as u64);
            Ok::<_, String>(())
        })?;
        let ops = rec.ops();
        drop(rec);
        let (k, torn) = stop_point(g, &ops, 0);
        for o in &ops[..k] {
            if let Op::Mark(m) = o {
                persisted = Some(*m as usize);
            }
        }
        let d2 = sc.sub("stopped");
        std::fs::create_dir_all(&d2).map_err(s("dir"))?;
        if power {
            let lost = vfs::apply_power_cut(&ops[..k], |left| if g.bool() { left } else { g.usize(left + 1) }, &d2);
            trace.push(if lost > 0 { "(unsynced writes lost)" } else { "(nothing lost)" });
            g.nontrivial_if(lost > 0 && n > 0);
        } else {
            vfs::apply(&ops[..k], torn, &d2);
            g.nontrivial_if(n > 0 && k < ops.len());
        }
        let at = format!("stopped after {k} of {} operations ({:?}), torn {torn:?}, persisted {persisted:?}; {trace:?}", ops.len(), ops[..k].last().map(|o| o.brief()));
        g.note(|| format!("epoch {en}: {at}"));
        let how = if persisted.is_some() { g.below(2) } else { 0 };
        block_on(async {
            let pack = match how {
                0 => open(&d2, &ep),
                _ => ConsensusPack::open_append_exists(&d2, ep.epoch()),
            }
            .map_err(|e| format!("cannot be reopened: {e}; {at}"))?;
            let m = stored(&pack, &ep).await?;
            ensure!(m >= persisted.unwrap_or(0), "{m} outputs recovered; {at}");
            ensure!(m <= n, "{m} outputs recovered of {n}; {at}");
            check_pack(&pack, &ep, m, "recovered").await.map_err(|e| format!("{e}; {at}"))?;
            // what is missing can be stored
            for o in &ep.outputs[m..] {
                pack.save_consensus_output(o.clone()).await.map_err(|e| format!("storing again: {e}; {at}"))?;
            }
            let all = ep.outputs.len();
            check_pack(&pack, &ep, all, "completed").await.map_err(|e| format!("{e}; {at}"))?;
            drop(pack);
            let pack = match g.below(3) {
                0 => open(&d2, &ep),
                1 => ConsensusPack::open_append_exists(&d2, ep.epoch()),
                _ => ConsensusPack::open_static(&d2, ep.epoch()),
            }
            .map_err(|e| format!("cannot be reopened when complete: {e}; {at}"))?;
            check_pack(&pack, &ep, all, "completed and reopened").await.map_err(|e| format!("{e}; {at}"))?;
            let last = ep.start() + all as u64 - 1;
            let p2 = import(&d2, &sc.sub("peer"), &ep, last).await.map_err(|e| format!("a peer cannot import it: {e}; {at}"))?;
            check_pack(&p2, &ep, all, "imported by a peer").await.map_err(|e| format!("{e}; {at}"))?;
            Ok::<_, String>(())
        })
    }
}

pub fn check(c: &mut Check) {
    c.sub("pack-history", Budget::new(2_000, 15), pack_history);
    c.sub("pack-stop", Budget::new(4_000, 20), pack_stop(false));
    c.sub("pack-power-cut", Budget::new(4_000, 20), pack_stop(true));
    c.sub("chain-stop", Budget::new(4_000, 20), crate::s03chain::chain_stop(false));
    c.sub("chain-power-cut", Budget::new(4_000, 20), crate::s03chain::chain_stop(true));
}
