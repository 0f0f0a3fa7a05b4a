//! The same sources with their locks scheduled by shuttle: a lost wake-up shows up as a deadlock.

#[allow(dead_code, missing_docs)]
#[path = "../../../crates/tn-utils/src/notify_read.rs"]
mod notify_read;
#[allow(dead_code, missing_docs)]
#[path = "../../../crates/types/src/notifier.rs"]
mod notifier;

use notifier::{Noticer, Notifier, ShutdownNotifier};
use notify_read::NotifyRead;
use shuttle::scheduler::{PctScheduler, RandomScheduler};
use shuttle::{future, sync::mpsc, thread, Config, Runner};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use vcore::{Budget, Check, G, R};

fn explore(g: &mut G, iters: usize, f: impl Fn() + Send + Sync + 'static) -> R {
    let seed = g.raw();
    let pct = g.bool();
    let mut cfg = Config::new();
    cfg.failure_persistence = shuttle::FailurePersistence::None;
    cfg.max_steps = shuttle::MaxSteps::FailAfter(100_000);
    vcore::no_panic(move || {
        if pct {
            Runner::new(PctScheduler::new_from_seed(seed, 3, iters), cfg).run(f);
        } else {
            Runner::new(RandomScheduler::new_from_seed(seed, iters), cfg).run(f);
        }
    })
}

#[derive(Clone, Copy, Debug)]
enum Act {
    /// wait for the notification
    Wait,
    /// poll once with another waker first
    PollThenWait,
    /// go away
    Leave,
    /// poll once, then go away
    PollThenLeave,
}

fn act(g: &mut G) -> Act {
    *g.pick(&[Act::Wait, Act::PollThenWait, Act::Leave, Act::PollThenLeave])
}

fn noop_poll<F: std::future::Future + Unpin>(mut f: F) -> std::task::Poll<F::Output> {
    let w = std::task::Waker::noop();
    std::pin::Pin::new(&mut f).poll(&mut std::task::Context::from_waker(w))
}

fn run(n: Arc<Noticer>, a: Act) {
    match a {
        Act::Wait => future::block_on(async { (&*n).await }),
        Act::PollThenWait => {
            let _ = noop_poll(&*n);
            future::block_on(async { (&*n).await })
        }
        Act::Leave => drop(n),
        Act::PollThenLeave => {
            let _ = noop_poll(&*n);
        }
    }
}

fn sticky(g: &mut G) -> R {
    let early = g.vec(0, 3, 2, act);
    let late = g.vec(1, 3, 2, act);
    let notifiers = 1 + g.usize(2);
    g.nontrivial();
    g.note(|| format!("sticky: early {early:?}, concurrent {late:?}, {notifiers} notifiers"));
    explore(g, 40, move || {
        let s = ShutdownNotifier::new();
        let mut hs = vec![];
        for a in early.clone() {
            let n = Arc::new(s.subscribe());
            hs.push(thread::spawn(move || run(n, a)));
        }
        for a in late.clone() {
            let s = s.clone();
            hs.push(thread::spawn(move || run(Arc::new(s.subscribe()), a)));
        }
        for _ in 0..notifiers {
            let s = s.clone();
            hs.push(thread::spawn(move || {
                s.notify();
                assert!(s.subscribe().noticed(), "a subscriber after the notification waits forever");
            }));
        }
        for h in hs {
            h.join().unwrap();
        }
        assert!(s.subscribe().noticed(), "a late subscriber waits forever");
    })
}

fn rearming(g: &mut G) -> R {
    let early = g.vec(1, 3, 2, act);
    let late = g.vec(0, 3, 1, act);
    let notifiers = 1 + g.usize(2);
    g.nontrivial();
    g.note(|| format!("re-arming: early {early:?}, concurrent {late:?}, {notifiers} notifiers"));
    explore(g, 40, move || {
        let s = Notifier::new();
        let mut hs = vec![];
        let mut notif = vec![];
        let early_n: Vec<Arc<Noticer>> = early.iter().map(|_| Arc::new(s.subscribe())).collect();
        for (a, n) in early.clone().into_iter().zip(early_n.clone()) {
            hs.push(thread::spawn(move || run(n, a)));
        }
        let (tx, rx) = mpsc::channel();
        let slots: Arc<Vec<(AtomicBool, std::sync::Mutex<Option<Arc<Noticer>>>)>> =
            Arc::new(late.iter().map(|_| (AtomicBool::new(false), std::sync::Mutex::new(None))).collect());
        for (i, a) in late.clone().into_iter().enumerate() {
            let (s, slots, tx) = (s.clone(), slots.clone(), tx.clone());
            hs.push(thread::spawn(move || {
                let n = Arc::new(s.subscribe());
                *slots[i].1.lock().unwrap() = Some(n.clone());
                slots[i].0.store(true, Ordering::SeqCst);
                tx.send(()).unwrap();
                run(n, a)
            }));
        }
        for _ in 0..notifiers {
            let (s, slots, early_n) = (s.clone(), slots.clone(), early_n.clone());
            notif.push(thread::spawn(move || {
                let known: Vec<_> = slots
                    .iter()
                    .filter(|x| x.0.load(Ordering::SeqCst))
                    .filter_map(|x| x.1.lock().unwrap().clone())
                    .chain(early_n)
                    .collect();
                s.notify();
                // (another notifier may hold the subscriber's entry for a moment longer: only a
                // single notifier proves it at this point)
                if notifiers == 1 {
                    assert!(known.iter().all(|n| n.noticed()), "subscribed before the notification, not noticed");
                }
            }));
        }
        for h in notif {
            h.join().unwrap();
        }
        assert!(early_n.iter().all(|n| n.noticed()), "subscribed before the notification, not noticed");
        for _ in 0..late.len() {
            rx.recv().unwrap();
        }
        let after = s.subscribe();
        assert!(!after.noticed(), "noticed without a notification");
        s.notify();
        assert!(after.noticed(), "not noticed");
        for h in hs {
            h.join().unwrap();
        }
    })
}

#[derive(Clone, Copy, Debug)]
enum Rd {
    Wait,
    PollThenWait,
    Leave,
    PollThenLeave,
}

fn keyed(g: &mut G) -> R {
    let rd = |g: &mut G| (g.below(2) as u8, *g.pick(&[Rd::Wait, Rd::PollThenWait, Rd::Leave, Rd::PollThenLeave]), g.bool());
    let early = g.vec(1, 3, 2, rd);
    let late = g.vec(0, 3, 2, rd);
    let notes = g.vec(1, 2, 2, |g| g.below(2) as u8);
    g.nontrivial();
    g.note(|| format!("keyed: early {early:?}, concurrent {late:?}, announced {notes:?}"));
    explore(g, 30, move || {
        let n: Arc<NotifyRead<u8, u64>> = Arc::new(NotifyRead::new());
        let (tx, rx) = mpsc::channel();
        let reader = |(key, a, all): (u8, Rd, bool)| {
            let (n, tx) = (n.clone(), tx.clone());
            thread::spawn(move || {
                let mut reg = if all { n.register_all(vec![key]).pop().unwrap() } else { n.register_one(&key) };
                tx.send(()).unwrap();
                match a {
                    Rd::Wait => Some(future::block_on(reg)),
                    Rd::PollThenWait => match noop_poll(&mut reg) {
                        std::task::Poll::Ready(v) => Some(v),
                        std::task::Poll::Pending => Some(future::block_on(reg)),
                    },
                    Rd::Leave => None,
                    Rd::PollThenLeave => match noop_poll(&mut reg) {
                        std::task::Poll::Ready(v) => Some(v),
                        std::task::Poll::Pending => None,
                    },
                }
            })
        };
        let es: Vec<_> = early.iter().map(|r| reader(*r)).collect();
        for _ in 0..early.len() {
            rx.recv().unwrap();
        }
        let ls: Vec<_> = late.iter().map(|r| reader(*r)).collect();
        let ns: Vec<_> = notes
            .iter()
            .enumerate()
            .map(|(i, &key)| {
                let n = n.clone();
                thread::spawn(move || {
                    n.notify(&key, &(100 * key as u64 + i as u64));
                })
            })
            .collect();
        for h in ns {
            h.join().unwrap();
        }
        for _ in 0..late.len() {
            rx.recv().unwrap();
        }
        for key in 0..2u8 {
            n.notify(&key, &(100 * key as u64 + 50));
        }
        let check = |key: u8, v: u64, early: bool| {
            assert_eq!(v / 100, key as u64, "a reader of {key} got the value of another key");
            let (i, announced) = ((v % 100) as usize, notes.contains(&key));
            if early && announced {
                assert!(i < notes.len() && notes[i] == key, "an announcement was missed by a reader registered before it");
            } else {
                assert!(i == 50 || (i < notes.len() && notes[i] == key), "a value nobody announced");
            }
        };
        let mut first: [Option<u64>; 2] = [None, None];
        for (h, r) in es.into_iter().zip(&early) {
            if let Some(v) = h.join().unwrap() {
                check(r.0, v, true);
                // registered before every announcement: all get the first one
                let f = first[r.0 as usize].get_or_insert(v);
                assert_eq!(*f, v, "two readers of {} registered before the first announcement got different values", r.0);
            }
        }
        for (h, r) in ls.into_iter().zip(&late) {
            if let Some(v) = h.join().unwrap() {
                check(r.0, v, false);
            }
        }
        assert_eq!(n.num_pending(), 0, "left behind after all readers resolved or went away");
    })
}

pub fn check(c: &mut Check) {
    c.sub("shutdown-schedules", Budget::new(20_000, 6), sticky);
    c.sub("notifier-schedules", Budget::new(20_000, 6), rearming);
    c.sub("keyed-schedules", Budget::new(15_000, 8), keyed);
}
