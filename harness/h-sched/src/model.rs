//! Histories of one thread against a model: who subscribed when, who must be woken, what stays behind.

use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use tn_types::{Noticer, Notifier, ShutdownNotifier};
use tn_utils::{NotifyRead, Registration};
use vcore::{ensure, ensure_eq, Budget, Check, G, R};

pub struct Count(AtomicUsize);
impl Count {
    pub fn new() -> Arc<Self> {
        Arc::new(Count(AtomicUsize::new(0)))
    }
    pub fn get(&self) -> usize {
        self.0.load(Ordering::SeqCst)
    }
}
impl Wake for Count {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, Ordering::SeqCst);
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.0.fetch_add(1, Ordering::SeqCst);
    }
}

struct Sub {
    noticer: Noticer,
    noticed: bool,
    waiting: Option<Arc<Count>>,
}

enum Either {
    Plain(Notifier),
    Sticky(ShutdownNotifier),
}

fn notifier(g: &mut G) -> R {
    let sticky = g.bool();
    let mut handles = vec![if sticky { Either::Sticky(ShutdownNotifier::new()) } else { Either::Plain(Notifier::new()) }];
    let mut fired = false;
    let mut subs: Vec<Sub> = vec![];
    let mut trace = vec![];
    let ops = g.vec(1, 60, 20, |g| (g.weighted(&[5, 6, 2, 1, 2, 1]), g.below(1 << 16) as usize));
    for (op, arg) in ops {
        let h = arg % handles.len();
        match op {
            0 => {
                trace.push("subscribe".to_string());
                let noticer = match &handles[h] {
                    Either::Plain(n) => n.subscribe(),
                    Either::Sticky(n) => n.subscribe(),
                };
                subs.push(Sub { noticer, noticed: sticky && fired, waiting: None });
            }
            1 if !subs.is_empty() => {
                let i = arg % subs.len();
                let s = &mut subs[i];
                let w = Count::new();
                let waker = Waker::from(w.clone());
                let mut cx = Context::from_waker(&waker);
                let by_ref = (arg / 7) % 2 == 0;
                trace.push(format!("poll {i}"));
                let r = if by_ref { Pin::new(&mut &s.noticer).poll(&mut cx) } else { Pin::new(&mut s.noticer).poll(&mut cx) };
                ensure_eq!(r.is_ready(), s.noticed, "poll of {i} after {trace:?}");
                s.waiting = if s.noticed { None } else { Some(w) };
            }
            2 => {
                trace.push("notify".into());
                match &handles[h] {
                    Either::Plain(n) => n.notify(),
                    Either::Sticky(n) => n.notify(),
                }
                fired = true;
                for (i, s) in subs.iter_mut().enumerate() {
                    if let Some(w) = s.waiting.take() {
                        ensure!(w.get() >= 1, "subscriber {i} waited and was not woken: {trace:?}");
                        g.nontrivial();
                    }
                    s.noticed = true;
                }
            }
            3 => {
                let c = match &handles[h] {
                    Either::Plain(n) => Either::Plain(n.clone()),
                    Either::Sticky(n) => Either::Sticky(n.clone()),
                };
                trace.push("clone".into());
                handles.push(c);
            }
            4 if !subs.is_empty() => {
                let i = arg % subs.len();
                trace.push(format!("unsubscribe {i}"));
                subs.swap_remove(i);
            }
            5 if handles.len() > 1 => {
                trace.push("drop handle".into());
                handles.swap_remove(h);
            }
            _ => continue,
        }
        for (i, s) in subs.iter().enumerate() {
            ensure_eq!(s.noticer.noticed(), s.noticed, "subscriber {i} noticed, sticky={sticky}, after {trace:?}");
            if let Some(w) = &s.waiting {
                ensure_eq!(w.get(), 0, "subscriber {i} woken without a notification after {trace:?}");
            }
        }
    }
    g.note(|| format!("sticky={sticky}: {}", trace.join(", ")));
    Ok(())
}

fn keyed(g: &mut G) -> R {
    let n: NotifyRead<u8, u64> = NotifyRead::new();
    struct Reg<'a> {
        reg: Registration<'a, u8, u64>,
        key: u8,
        value: Option<u64>,
        waiting: Option<Arc<Count>>,
    }
    let mut regs: Vec<Reg<'_>> = vec![];
    let mut next = 1u64;
    let mut trace = vec![];
    let mut delivered: BTreeMap<u64, usize> = BTreeMap::new();
    let ops = g.vec(1, 80, 25, |g| (g.weighted(&[4, 2, 4, 6, 4]), g.below(5) as u8, g.below(1 << 16) as usize));
    for (op, key, arg) in ops {
        match op {
            0 => {
                trace.push(format!("register {key}"));
                regs.push(Reg { reg: n.register_one(&key), key, value: None, waiting: None });
            }
            1 => {
                let keys: Vec<u8> = (0..arg % 5).map(|i| ((arg >> (2 * i)) % 4) as u8).collect();
                trace.push(format!("register {keys:?}"));
                let rs = n.register_all(keys.clone());
                ensure_eq!(rs.len(), keys.len(), "registrations of {keys:?}");
                for (reg, key) in rs.into_iter().zip(keys) {
                    regs.push(Reg { reg, key, value: None, waiting: None });
                }
            }
            2 => {
                let v = next;
                next += 1;
                trace.push(format!("notify {key}={v}"));
                n.notify(&key, &v);
                for (i, r) in regs.iter_mut().enumerate() {
                    if r.key == key && r.value.is_none() {
                        r.value = Some(v);
                        if let Some(w) = r.waiting.take() {
                            g.nontrivial();
                            ensure!(w.get() >= 1, "reader {i} of {key} not woken: {trace:?}");
                        }
                    }
                }
            }
            3 if !regs.is_empty() => {
                let i = arg % regs.len();
                trace.push(format!("poll {i}"));
                let w = Count::new();
                let waker = Waker::from(w.clone());
                let got = Pin::new(&mut regs[i].reg).poll(&mut Context::from_waker(&waker));
                match (got, regs[i].value) {
                    (Poll::Pending, None) => regs[i].waiting = Some(w),
                    (Poll::Ready(a), Some(b)) => {
                        ensure_eq!(a, b, "value read for {}: {trace:?}", regs[i].key);
                        *delivered.entry(a).or_default() += 1;
                        regs.swap_remove(i);
                    }
                    (a, b) => return Err(format!("reader {i} of {}: {a:?}, announced {b:?}: {trace:?}", regs[i].key)),
                }
            }
            4 if !regs.is_empty() => {
                let i = arg % regs.len();
                trace.push(format!("drop {i}"));
                regs.swap_remove(i);
            }
            _ => continue,
        }
        let open = regs.iter().filter(|r| r.value.is_none()).count();
        ensure_eq!(n.num_pending(), open, "readers still waiting after {trace:?}");
        for (i, r) in regs.iter().enumerate() {
            if let Some(w) = &r.waiting {
                ensure_eq!(w.get(), 0, "reader {i} woken without a value: {trace:?}");
            }
        }
    }
    drop(regs);
    ensure_eq!(n.num_pending(), 0, "left behind by readers that went away: {trace:?}");
    g.note(|| trace.join(", "));
    Ok(())
}

/// Counting under real threads (the counter is an atomic that the scheduled runs do not interleave).
fn keyed_threads(g: &mut G) -> R {
    let n: NotifyRead<u8, u64> = NotifyRead::new();
    let seeds: Vec<u64> = (0..4).map(|_| g.raw()).collect();
    g.nontrivial();
    let err = std::thread::scope(|s| {
        let hs: Vec<_> = seeds
            .iter()
            .map(|&seed| {
                let n = &n;
                s.spawn(move || {
                    let mut x = seed;
                    let mut rnd = move || {
                        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                        (x >> 33) as usize
                    };
                    let mut mine = vec![];
                    let waker = Waker::from(Count::new());
                    for _ in 0..60 {
                        let key = (rnd() % 3) as u8;
                        match rnd() % 6 {
                            0 | 1 => mine.push((key, n.register_one(&key))),
                            2 => {
                                for (k, r) in [key, (key + 1) % 3].into_iter().zip(n.register_all(vec![key, (key + 1) % 3])) {
                                    mine.push((k, r));
                                }
                            }
                            3 => {
                                n.notify(&key, &(key as u64));
                            }
                            4 if !mine.is_empty() => {
                                mine.swap_remove(rnd() % mine.len());
                            }
                            5 if !mine.is_empty() => {
                                let i = rnd() % mine.len();
                                if let Poll::Ready(v) = Pin::new(&mut mine[i].1).poll(&mut Context::from_waker(&waker)) {
                                    if v != mine[i].0 as u64 {
                                        return Err(format!("reader of {} got the value of {v}", mine[i].0));
                                    }
                                    mine.swap_remove(i);
                                }
                            }
                            _ => {}
                        }
                    }
                    Ok(())
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a reader or notifier panicked".into()))).collect::<Result<Vec<_>, _>>()
    });
    err?;
    ensure_eq!(n.num_pending(), 0, "left behind after all readers went away");
    Ok(())
}

pub fn check(c: &mut Check) {
    c.sub("notifier-history", Budget::new(600_000, 6), notifier);
    c.sub("keyed-history", Budget::new(600_000, 8), keyed);
    c.sub("keyed-threads", Budget::new(20_000, 6).threads(3), keyed_threads);
}
