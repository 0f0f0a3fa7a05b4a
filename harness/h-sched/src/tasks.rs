//! Task managers on a virtual clock.

use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::time::Duration;
use tn_types::{ShutdownNotifier, TaskError, TaskJoinError, TaskManager};
use vcore::{ensure, ensure_eq, Budget, Check, G, R};

#[derive(Clone, Copy, Debug, PartialEq)]
enum End {
    Ok,
    Err,
    Panic,
    Never,
}

#[derive(Clone, Debug)]
struct T {
    critical: bool,
    /// when it is spawned (0: before the manager is joined)
    at: u64,
    by_spawner: bool,
    lasts: u64,
    end: End,
}

struct Guard(Arc<AtomicUsize>);
impl Drop for Guard {
    fn drop(&mut self) {
        self.0.fetch_sub(1, Ordering::SeqCst);
    }
}

async fn body(t: T, i: usize, guard: Guard) -> Result<(), TaskError> {
    let _g = guard;
    if t.end == End::Never {
        std::future::pending::<()>().await;
    }
    tokio::time::sleep(Duration::from_millis(t.lasts)).await;
    match t.end {
        End::Ok => Ok(()),
        End::Err => Err(TaskError::from_message(format!("failure of {i}"))),
        _ => panic!("task {i} panics"),
    }
}

fn tasks(g: &mut G) -> R {
    // ends fall on distinct instants
    let n = 1 + g.usize(8);
    let mut slots: Vec<u64> = (1..=20).collect();
    g.shuffle(&mut slots);
    let shutdown_at = slots[19] * 100 + if g.bool() { 0 } else { 5_000 };
    let ts: Vec<T> = (0..n)
        .map(|i| {
            let end_at = slots[i] * 100;
            let at = if g.chance(1, 3) { g.below(end_at / 10) * 10 + 5 } else { 0 };
            T {
                critical: g.bool(),
                at: at.min(end_at - 1),
                by_spawner: at > 0 || g.bool(),
                lasts: end_at - at.min(end_at - 1),
                end: *g.pick(&[End::Ok, End::Err, End::Panic, End::Never]),
            }
        })
        .collect();
    let join = g.bool();
    g.note(|| format!("shutdown at {shutdown_at}, join={join}: {ts:?}"));
    let first = ts
        .iter()
        .enumerate()
        .filter(|(_, t)| t.critical && t.end != End::Never)
        .map(|(i, t)| (t.at + t.lasts, i))
        .min()
        .filter(|(e, _)| *e < shutdown_at);
    g.nontrivial_if(first.is_some());
    g.class(if first.is_some() { "a critical task ended first" } else { "shutdown came first" });
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().map_err(|e| e.to_string())?;
    rt.block_on(async {
        let alive = Arc::new(AtomicUsize::new(0));
        let start = tokio::time::Instant::now();
        let mut m = TaskManager::new("checked");
        m.set_join_wait(500);
        let sp = m.get_spawner();
        let shutdown = ShutdownNotifier::new();
        for (i, t) in ts.iter().cloned().enumerate() {
            let name = format!("task {i}");
            alive.fetch_add(1, Ordering::SeqCst);
            let b = body(t.clone(), i, Guard(alive.clone()));
            match (t.at, t.by_spawner, t.critical) {
                (0, false, false) => m.spawn_task(name, b),
                (0, false, true) => m.spawn_critical_task(name, b),
                (0, true, false) => sp.spawn_task(name, b),
                (0, true, true) => sp.spawn_critical_task(name, b),
                (at, _, critical) => {
                    let sp = sp.clone();
                    tokio::spawn(async move {
                        tokio::time::sleep(Duration::from_millis(at)).await;
                        if critical {
                            sp.spawn_critical_task(name, b)
                        } else {
                            sp.spawn_task(name, b)
                        }
                    });
                }
            }
        }
        let s2 = shutdown.clone();
        tokio::spawn(async move {
            tokio::time::sleep(Duration::from_millis(shutdown_at)).await;
            s2.notify();
        });
        let r = if join { m.join(shutdown.clone()).await } else { m.until_task_ends(shutdown.clone()).await };
        let took = start.elapsed().as_millis() as u64;
        let want_at = first.map(|f| f.0).unwrap_or(shutdown_at);
        let slack = if join { 500 } else { 0 };
        ensure!(
            (want_at..=want_at + slack + 5).contains(&took),
            "the manager returned at {took} ms, the first critical end or shutdown was at {want_at}: {r:?}"
        );
        match (&r, first) {
            (Ok(()), None) => {}
            (Err(TaskJoinError::CriticalExitOk(n)), Some((_, i))) if ts[i].end == End::Ok => ensure_eq!(n.clone(), format!("task {i}")),
            (Err(TaskJoinError::CriticalExitError(n, e)), Some((_, i))) if ts[i].end == End::Err => {
                ensure_eq!(n.clone(), format!("task {i}"));
                ensure_eq!(e.to_string(), format!("failure of {i}"));
            }
            (Err(TaskJoinError::CriticalJoinError(n, e)), Some((_, i))) if ts[i].end == End::Panic => {
                ensure_eq!(n.clone(), format!("task {i}"));
                ensure!(e.is_panic(), "not reported as a panic");
            }
            (r, f) => return Err(format!("outcome {r:?}, first critical end {f:?}")),
        }
        ensure!(shutdown.subscribe().noticed(), "shutdown is not signalled after the manager returned");
        if g.bool() {
            m.abort_all_tasks();
        }
        drop(m);
        // everything the manager and its spawners started, or start from now on, ends
        let late = alive.clone();
        late.fetch_add(1, Ordering::SeqCst);
        let g2 = Guard(late);
        sp.spawn_task("late", async move {
            let _g = g2;
            std::future::pending::<()>().await;
            Ok(())
        });
        tokio::time::sleep(Duration::from_secs(60)).await;
        ensure_eq!(alive.load(Ordering::SeqCst), 0, "tasks outlive their manager");
        Ok(())
    })
}

pub fn check(c: &mut Check) {
    c.sub("task-managers", Budget::new(100_000, 8), tasks);
}
