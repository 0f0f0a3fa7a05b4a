//! Property-based testing engine of the checks.
//!
//! A property is a function of a generator `G`. Every random decision of a case is a bounded integer drawn
//! from `G`; the drawn sequence is the case: it is what is shrunk, written to the replay file and replayed.

use std::{
    cell::RefCell,
    collections::{BTreeMap, HashSet},
    fmt::Write as _,
    hash::{Hash, Hasher},
    panic::{catch_unwind, AssertUnwindSafe},
    path::{Path, PathBuf},
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering},
        Mutex,
    },
    time::{Duration, Instant},
};

/// Verdict of one case.
pub type R = Result<(), String>;

/// Fail the case unless the condition holds.
#[macro_export]
macro_rules! ensure {
    ($c:expr $(,)?) => { if !($c) { return Err(format!("{}:{}: not true: {}", file!(), line!(), stringify!($c))); } };
    ($c:expr, $($a:tt)+) => { if !($c) { return Err(format!("{}:{}: {}", file!(), line!(), format!($($a)+))); } };
}

/// Fail the case unless both sides are equal.
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr $(,)?) => { $crate::ensure_eq!($a, $b, "{} == {}", stringify!($a), stringify!($b)) };
    ($a:expr, $b:expr, $($m:tt)+) => {{
        let (a, b) = (&$a, &$b);
        if !(*a == *b) {
            return Err(format!("{}:{}: {}\n  left: {}\n right: {}", file!(), line!(), format!($($m)+),
                $crate::clip(&format!("{:?}", a), 2000), $crate::clip(&format!("{:?}", b), 2000)));
        }
    }};
}

/// Shorten long debug output.
pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        s.to_string()
    } else {
        let mut e = n;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        format!("{}…({} bytes)", &s[..e], s.len())
    }
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

#[derive(Clone)]
struct Xo([u64; 4]);
impl Xo {
    fn new(mut seed: u64) -> Self {
        Self([splitmix(&mut seed), splitmix(&mut seed), splitmix(&mut seed), splitmix(&mut seed)])
    }
    fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
}

/// Source of the decisions of one case.
pub struct G {
    rng: Option<Xo>,
    given: Vec<u64>,
    /// decisions made so far
    pub choices: Vec<u64>,
    nontrivial: bool,
    notes: Vec<String>,
    noting: bool,
    classes: Vec<&'static str>,
}

impl G {
    fn random(seed: u64, noting: bool) -> Self {
        Self { rng: Some(Xo::new(seed)), given: vec![], choices: vec![], nontrivial: false, notes: vec![], noting, classes: vec![] }
    }
    /// Choices fixed by a number: for fixtures, not for cases.
    pub fn seeded(seed: u64) -> Self {
        Self::random(seed, false)
    }
    fn replay(given: Vec<u64>, noting: bool) -> Self {
        Self { rng: None, given, choices: vec![], nontrivial: false, notes: vec![], noting, classes: vec![] }
    }
    /// A number below `n`; 0 is the simplest.
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n > 0);
        let v = match &mut self.rng {
            Some(r) => {
                // unbiased enough for testing
                ((r.next() as u128 * n as u128) >> 64) as u64
            }
            None => self.given.get(self.choices.len()).copied().unwrap_or(0).min(n - 1),
        };
        self.choices.push(v);
        v
    }
    /// Any 64-bit number, uniformly.
    pub fn raw(&mut self) -> u64 {
        let v = match &mut self.rng {
            Some(r) => r.next(),
            None => self.given.get(self.choices.len()).copied().unwrap_or(0),
        };
        self.choices.push(v);
        v
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// lo..=hi
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        assert!(lo <= hi);
        if lo == 0 && hi == u64::MAX {
            return self.raw();
        }
        lo + self.below(hi - lo + 1)
    }
    pub fn urange(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as u64, hi as u64) as usize
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    /// true with probability num/den
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        // drawn so that 0 (simplest) means false
        self.below(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        let i = self.usize(s.len());
        &s[i]
    }
    /// index by weight
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut v = self.below(total);
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= x;
        }
        unreachable!()
    }
    pub fn u8(&mut self) -> u8 {
        self.below(256) as u8
    }
    /// Numbers with a preference for edges and small values.
    pub fn num(&mut self) -> u64 {
        match self.below(6) {
            0 => self.below(10),
            1 => self.below(1000),
            2 => {
                let b = self.below(64);
                let d = self.below(5);
                (1u64 << b).wrapping_add(d).wrapping_sub(2)
            }
            3 => u64::MAX - self.below(10),
            4 => self.below(u32::MAX as u64 + 1),
            _ => self.raw(),
        }
    }
    pub fn num32(&mut self) -> u32 {
        match self.below(5) {
            0 => self.below(10) as u32,
            1 => self.below(1000) as u32,
            2 => {
                let b = self.below(32);
                let d = self.below(5);
                (1u32 << b).wrapping_add(d as u32).wrapping_sub(2)
            }
            3 => u32::MAX - self.below(10) as u32,
            _ => self.below(u32::MAX as u64 + 1) as u32,
        }
    }
    /// Pseudo-random bytes from one decision each eight bytes (short) or one seed (long).
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        if n <= 64 {
            (0..n).map(|_| self.u8()).collect()
        } else {
            self.blob(n)
        }
    }
    /// Bytes expanded from a single decision.
    pub fn blob(&mut self, n: usize) -> Vec<u8> {
        let seed = self.raw();
        let mut x = Xo::new(seed);
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&x.next().to_le_bytes());
        }
        v.truncate(n);
        v
    }
    pub fn arr32(&mut self) -> [u8; 32] {
        let v = self.blob(32);
        v.try_into().unwrap()
    }
    /// One more element? (list lengths are drawn this way so that shrinking can delete elements)
    pub fn more(&mut self, avg: u64) -> bool {
        let avg = avg.max(1);
        self.below(avg + 1) != 0
    }
    pub fn vec<T>(&mut self, min: usize, max: usize, avg: u64, mut f: impl FnMut(&mut G) -> T) -> Vec<T> {
        let mut v = vec![];
        while v.len() < min || (v.len() < max && self.more(avg)) {
            v.push(f(self));
        }
        v
    }
    /// Fisher-Yates; all-zero decisions leave the order unchanged.
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        let n = v.len();
        for i in 0..n.saturating_sub(1) {
            let j = i + self.usize(n - i);
            v.swap(i, j);
        }
    }
    pub fn permutation(&mut self, n: usize) -> Vec<usize> {
        let mut v: Vec<usize> = (0..n).collect();
        self.shuffle(&mut v);
        v
    }
    /// a random subset, as flags
    pub fn subset<T: Clone>(&mut self, s: &[T]) -> Vec<T> {
        s.iter().filter(|_| self.bool()).cloned().collect()
    }
    /// Mark the case as non-trivial by the property's rule.
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn nontrivial_if(&mut self, c: bool) {
        self.nontrivial |= c;
    }
    /// Count the case under a class (reported in the evidence).
    pub fn class(&mut self, c: &'static str) {
        self.classes.push(c);
    }
    /// Describe the case (kept for samples and replays only).
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.noting {
            self.notes.push(clip(&f(), 4000));
        }
    }
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static IN_CASE: RefCell<bool> = const { RefCell::new(false) };
}

fn install_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if IN_CASE.with(|c| *c.borrow()) {
            let msg = info
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| info.payload().downcast_ref::<String>().cloned())
                .unwrap_or_else(|| "panic".into());
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            PANIC.with(|p| *p.borrow_mut() = Some(format!("panic at {loc}: {msg}")));
        } else {
            old(info)
        }
    }));
}

/// Run something that may panic; the panic becomes an error text.
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let was = IN_CASE.with(|c| std::mem::replace(&mut *c.borrow_mut(), true));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_CASE.with(|c| *c.borrow_mut() = was);
    r.map_err(|_| PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into()))
}

fn run_case(f: &(dyn Fn(&mut G) -> R + Sync), g: &mut G) -> R {
    match no_panic(|| f(g)) {
        Ok(r) => r,
        Err(p) => Err(p),
    }
}

fn hash_of(v: &[u64], sub: &str) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    sub.hash(&mut h);
    v.hash(&mut h);
    h.finish()
}

/// How much of a sub-property is explored.
#[derive(Clone, Copy)]
pub struct Budget {
    /// cases and seconds of the quick tier
    pub quick: (u64, u64),
    /// cases and seconds of the thorough tier
    pub thorough: (u64, u64),
    /// worker threads
    pub threads: usize,
    /// seconds after which a single case counts as not terminating
    pub hang: u64,
}

impl Budget {
    /// `quick` cases in at most `secs` seconds; the thorough tier runs 100 times as many.
    pub const fn new(quick: u64, secs: u64) -> Self {
        Self { quick: (quick, secs), thorough: (quick * 100, 600), threads: 8, hang: 120 }
    }
    pub const fn threads(mut self, n: usize) -> Self {
        self.threads = n;
        self
    }
    pub const fn hang(mut self, n: u64) -> Self {
        self.hang = n;
        self
    }
    pub const fn thorough(mut self, n: u64, secs: u64) -> Self {
        self.thorough = (n, secs);
        self
    }
}

struct Failure {
    sub: String,
    choices: Vec<u64>,
    msg: String,
    notes: Vec<String>,
    index: u64,
}

/// One property's check.
pub struct Check {
    id: String,
    rule: String,
    tier: String,
    seed: u64,
    started: Instant,
    only: Option<String>,
    replay: Option<(String, Result<Vec<u64>, u64>)>,
    evaluations: u64,
    nontrivial: HashSet<u64>,
    classes: BTreeMap<String, u64>,
    per_sub: BTreeMap<String, (u64, u64)>,
    samples: Vec<serde_json::Value>,
    failures: Vec<Failure>,
    assumptions: Vec<String>,
    known: Vec<(String, String)>,
    known_hit: BTreeMap<String, u64>,
    replayed: bool,
}

fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

impl Check {
    fn new(id: &str, rule: &str) -> Self {
        let tier = match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => "thorough",
            _ => "quick",
        };
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<u64>().ok()).unwrap_or(1);
        let mut known = vec![];
        if let Ok(t) = std::fs::read_to_string(verif_dir().join("known-findings.txt")) {
            for l in t.lines() {
                // finding: property=<id> key=<key> <what fails>
                if let Some(rest) = l.strip_prefix(&format!("finding: property={id} key=")) {
                    if let Some((k, what)) = rest.split_once(' ') {
                        known.push((k.to_string(), what.to_string()));
                    }
                }
            }
        }
        Self {
            id: id.into(),
            rule: rule.into(),
            tier: tier.into(),
            seed,
            started: Instant::now(),
            only: None,
            replay: None,
            evaluations: 0,
            nontrivial: Default::default(),
            classes: Default::default(),
            per_sub: Default::default(),
            samples: vec![],
            failures: vec![],
            assumptions: vec![],
            known,
            known_hit: Default::default(),
            replayed: false,
        }
    }

    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }

    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.into());
    }

    fn known_key(&self, msg: &str) -> Option<String> {
        // failures with an identity carry it as [[key]]
        let a = msg.find("[[")?;
        let b = msg[a..].find("]]")? + a;
        let key = &msg[a + 2..b];
        self.known.iter().find(|(k, _)| k == key).map(|(k, _)| k.clone())
    }

    /// Explore one sub-property.
    pub fn sub(&mut self, name: &str, budget: Budget, f: impl Fn(&mut G) -> R + Sync) {
        if let Some(o) = &self.only {
            if o != name {
                return;
            }
        }
        let f: &(dyn Fn(&mut G) -> R + Sync) = &f;
        if let Some((rsub, choices)) = &self.replay {
            if rsub == name {
                self.replayed = true;
                let mut g = match choices {
                    Ok(c) => G::replay(c.clone(), true),
                    Err(seed) => G::random(*seed, true),
                };
                let r = run_case(f, &mut g);
                for n in &g.notes {
                    println!("  {n}");
                }
                println!("replay {}/{name}: {r:?}", self.id);
                self.evaluations += 1;
                if let Err(msg) = r {
                    self.failures.push(Failure { sub: name.into(), choices: g.choices, msg, notes: g.notes, index: 0 });
                }
            }
            return;
        }
        if !self.failures.is_empty() {
            return;
        }
        let (cases, secs) = if self.thorough() { budget.thorough } else { budget.quick };
        let mut sub_seed = self.seed ^ hash_of(&[], &format!("{}/{name}", self.id));
        let sub_seed = splitmix(&mut sub_seed);
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let start = Instant::now();
        let deadline = start + Duration::from_secs(secs);
        struct Agg {
            evals: u64,
            nontrivial: HashSet<u64>,
            classes: BTreeMap<&'static str, u64>,
            samples: Vec<(u64, Vec<String>)>,
            fail: Option<Failure>,
            known: BTreeMap<String, u64>,
        }
        let agg = Mutex::new(Agg {
            evals: 0,
            nontrivial: HashSet::new(),
            classes: BTreeMap::new(),
            samples: vec![],
            fail: None,
            known: BTreeMap::new(),
        });
        let threads = budget.threads.clamp(1, std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8));
        // (start ms + 1, case index) of what each worker is running
        let running: Vec<(AtomicU64, AtomicU64)> = (0..threads).map(|_| Default::default()).collect();
        let done = AtomicBool::new(false);
        let me = &*self;
        std::thread::scope(|s| {
            let watch = s.spawn(|| {
                while !done.load(Ordering::Relaxed) {
                    std::thread::sleep(Duration::from_millis(50));
                    let now = start.elapsed().as_millis() as u64;
                    for (t, i) in &running {
                        let t = t.load(Ordering::Relaxed);
                        if t != 0 && now.saturating_sub(t - 1) > budget.hang * 1000 {
                            let i = i.load(Ordering::Relaxed);
                            me.hang(name, sub_seed, i, budget.hang);
                        }
                    }
                }
            });
            let workers: Vec<_> = (0..threads)
                .map(|w| {
                    let (next, stop, agg, running) = (&next, &stop, &agg, &running);
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(s, move || {
                            let mut evals = 0;
                            let mut nt = HashSet::new();
                            let mut cl: BTreeMap<&'static str, u64> = BTreeMap::new();
                            let mut kn: BTreeMap<String, u64> = BTreeMap::new();
                            while !stop.load(Ordering::Relaxed) && Instant::now() < deadline {
                                let i = next.fetch_add(1, Ordering::Relaxed);
                                if i >= cases {
                                    break;
                                }
                                let want = i < 40;
                                let mut g = G::random(case_seed(sub_seed, i), want);
                                running[w].1.store(i, Ordering::Relaxed);
                                running[w].0.store(start.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
                                mark(w, name, sub_seed, i);
                                let r = run_case(f, &mut g);
                                running[w].0.store(0, Ordering::Relaxed);
                                evals += 1;
                                for c in g.classes.drain(..) {
                                    *cl.entry(c).or_default() += 1;
                                }
                                if g.nontrivial {
                                    nt.insert(hash_of(&g.choices, name));
                                    if want && !g.notes.is_empty() {
                                        let mut a = agg.lock().unwrap();
                                        if a.samples.len() < 3 {
                                            a.samples.push((i, std::mem::take(&mut g.notes)));
                                        }
                                    }
                                }
                                if let Err(msg) = r {
                                    if let Some(k) = me.known_key(&msg) {
                                        *kn.entry(k).or_default() += 1;
                                        continue;
                                    }
                                    stop.store(true, Ordering::Relaxed);
                                    let mut a = agg.lock().unwrap();
                                    if a.fail.as_ref().is_none_or(|x| x.index > i) {
                                        a.fail = Some(Failure { sub: name.into(), choices: g.choices, msg, notes: vec![], index: i });
                                    }
                                }
                            }
                            let mut a = agg.lock().unwrap();
                            a.evals += evals;
                            a.nontrivial.extend(nt);
                            for (k, v) in cl {
                                *a.classes.entry(k).or_default() += v;
                            }
                            for (k, v) in kn {
                                *a.known.entry(k).or_default() += v;
                            }
                        })
                        .unwrap()
                })
                .collect();
            for w in workers {
                let _ = w.join();
            }
            done.store(true, Ordering::Relaxed);
            let _ = watch.join();
        });
        let a = agg.into_inner().unwrap();
        self.evaluations += a.evals;
        self.per_sub.insert(name.into(), (a.evals, a.nontrivial.len() as u64));
        eprintln!(
            "{}/{name}: {} cases, {} distinct non-trivial, {:.1} s {:?}",
            self.id,
            a.evals,
            a.nontrivial.len(),
            start.elapsed().as_secs_f64(),
            a.classes
        );
        self.nontrivial.extend(a.nontrivial);
        for (k, v) in a.classes {
            *self.classes.entry(format!("{name}/{k}")).or_default() += v;
        }
        for (i, notes) in a.samples {
            self.samples.push(serde_json::json!({"sub": name, "case": i, "what": notes}));
        }
        for (k, v) in a.known {
            *self.known_hit.entry(k).or_default() += v;
        }
        if let Some(fail) = a.fail {
            let fail = self.shrink(f, fail);
            self.failures.push(fail);
        }
    }

    /// A fixed case that is always run (regressions and enumerations); part of the evaluations.
    pub fn fixed(&mut self, name: &str, f: impl Fn(&mut G) -> R + Sync) {
        self.sub(name, Budget { quick: (1, 60), thorough: (1, 60), threads: 1, hang: 120 }, f);
    }

    fn shrink(&self, f: &(dyn Fn(&mut G) -> R + Sync), fail: Failure) -> Failure {
        let start = Instant::now();
        let mut best = fail.choices.clone();
        let mut msg = fail.msg.clone();
        let mut tries = 0u64;
        let mut attempt = |cand: Vec<u64>, best: &mut Vec<u64>, msg: &mut String| -> bool {
            if start.elapsed() > Duration::from_secs(25) || tries > 20_000 {
                return false;
            }
            tries += 1;
            let mut g = G::replay(cand, false);
            if let Err(m) = run_case(f, &mut g) {
                if self.known_key(&m).is_none() {
                    let smaller = g.choices.len() < best.len() || (g.choices.len() == best.len() && g.choices < *best);
                    if smaller {
                        *best = g.choices;
                        *msg = m;
                        return true;
                    }
                }
            }
            false
        };
        loop {
            let before = best.clone();
            let mut size = 64.min(best.len().max(1));
            while size >= 1 {
                let mut i = best.len();
                while i >= size {
                    let at = i - size;
                    if at + size <= best.len() {
                        let mut c = best.clone();
                        c.drain(at..at + size);
                        if attempt(c, &mut best, &mut msg) {
                            i = i.min(best.len());
                            continue;
                        }
                    }
                    i -= 1.max(size / 2);
                }
                size /= 2;
            }
            let mut i = 0;
            while i < best.len() {
                if best[i] != 0 {
                    let mut c = best.clone();
                    c[i] = 0;
                    if !attempt(c, &mut best, &mut msg) {
                        let (mut lo, mut hi) = (0u64, best.get(i).copied().unwrap_or(0));
                        while lo + 1 < hi && i < best.len() {
                            let mid = lo + (hi - lo) / 2;
                            let mut c = best.clone();
                            c[i] = mid;
                            if attempt(c, &mut best, &mut msg) {
                                hi = mid;
                            } else {
                                lo = mid;
                            }
                        }
                    }
                }
                i += 1;
            }
            if best == before || start.elapsed() > Duration::from_secs(25) {
                break;
            }
        }
        let mut g = G::replay(best.clone(), true);
        let r = run_case(f, &mut g);
        if let Err(m) = r {
            msg = m;
        }
        Failure { sub: fail.sub, choices: best, msg, notes: g.notes, index: fail.index }
    }

    fn hang(&self, sub: &str, sub_seed: u64, index: u64, secs: u64) -> ! {
        let path = self.replay_path(sub);
        let v = serde_json::json!({"property": self.id, "sub": sub, "sub_seed": sub_seed, "case": index,
            "failure": format!("the case did not finish within {secs} s")});
        write_json(&path, &v);
        println!("{}/{sub}: case {index} did not finish within {secs} s", self.id);
        println!("VIOLATION property={} replay={}", self.id, path.display());
        self.evidence(1);
        std::process::exit(1);
    }

    fn replay_path(&self, sub: &str) -> PathBuf {
        verif_dir().join("evidence").join("replays").join(format!("{}-{sub}.json", self.id))
    }

    fn evidence(&self, violations: u64) {
        let per_sub: BTreeMap<_, _> = self
            .per_sub
            .iter()
            .map(|(k, (e, n))| (k.clone(), serde_json::json!({"evaluations": e, "distinct_nontrivial": n})))
            .collect();
        let v = serde_json::json!({
            "property": self.id,
            "tier": self.tier,
            "seed": self.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": self.evaluations,
                "distinct_nontrivial": self.nontrivial.len(),
                "rule": self.rule,
                "samples": self.samples,
                "per_sub_property": per_sub,
                "classes": self.classes,
            },
            "assumptions": self.assumptions,
            "violations": violations,
            "wall_s": self.started.elapsed().as_secs_f64(),
        });
        write_json(&verif_dir().join("evidence").join(format!("{}.json", self.id)), &v);
    }

    fn finish(self) -> i32 {
        if self.replay.is_some() {
            if !self.replayed {
                eprintln!("no such sub-property");
                return 2;
            }
            return if self.failures.is_empty() { 0 } else { 1 };
        }
        for (k, what) in &self.known {
            // listed findings are announced whether or not this run met them
            let n = self.known_hit.get(k).copied().unwrap_or(0);
            println!("KNOWN-FINDING: property={} {} [{k}; met {n} times]", self.id, what);
        }
        for fail in &self.failures {
            let path = self.replay_path(&fail.sub);
            let v = serde_json::json!({"property": self.id, "sub": fail.sub, "seed": self.seed, "case": fail.index,
                "choices": fail.choices, "failure": fail.msg, "what": fail.notes});
            write_json(&path, &v);
            println!("{}/{}: {}", self.id, fail.sub, fail.msg);
            for n in &fail.notes {
                println!("  {n}");
            }
            println!("VIOLATION property={} replay={}", self.id, path.display());
        }
        self.evidence(self.failures.len() as u64);
        if self.failures.is_empty() {
            if self.evaluations == 0 {
                eprintln!("nothing was explored");
                return 2;
            }
            println!("{}: held on {} cases", self.id, self.evaluations);
            0
        } else {
            1
        }
    }
}

fn case_seed(sub_seed: u64, i: u64) -> u64 {
    let mut x = sub_seed ^ i.wrapping_mul(0xD134_2543_DE82_EF95);
    splitmix(&mut x)
}

fn write_json(path: &Path, v: &serde_json::Value) {
    if let Some(p) = path.parent() {
        let _ = std::fs::create_dir_all(p);
    }
    let mut s = serde_json::to_string_pretty(v).unwrap();
    s.push('\n');
    if let Err(e) = std::fs::write(path, s) {
        eprintln!("cannot write {}: {e}", path.display());
    }
}

// ---- what the workers run, readable by the parent when the process dies ----

static MARKS: std::sync::OnceLock<std::fs::File> = std::sync::OnceLock::new();

fn mark(w: usize, name: &str, sub_seed: u64, i: u64) {
    use std::os::unix::fs::FileExt;
    if let Some(f) = MARKS.get() {
        let mut s = String::new();
        let _ = write!(s, "{name} {sub_seed} {i}");
        let _ = write!(s, "{:>width$}", "\n", width = 128usize.saturating_sub(s.len()).max(1));
        let _ = f.write_all_at(s.as_bytes(), (w * 128) as u64);
    }
}

/// Choose the file the workers write their current case to; returns the last marks of a dead child.
fn read_marks(p: &Path) -> Vec<String> {
    std::fs::read_to_string(p).unwrap_or_default().lines().map(|l| l.trim().to_string()).filter(|l| !l.is_empty()).collect()
}

/// Entry point of a harness binary: `harness ID [--only sub] [--replay file]`.
pub fn main(checks: &[(&str, &str, fn(&mut Check))]) {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let Some(id) = args.first().cloned() else {
        for c in checks {
            println!("{}", c.0);
        }
        std::process::exit(2)
    };
    let Some((_, rule, f)) = checks.iter().find(|c| c.0 == id) else {
        eprintln!("unknown property {id}");
        std::process::exit(2)
    };
    if std::env::var_os("VERIF_CHILD").is_none() {
        std::process::exit(parent(&id, rule, &args));
    }
    install_hook();
    if let Some(p) = std::env::var_os("VERIF_MARKS") {
        if let Ok(f) = std::fs::OpenOptions::new().create(true).truncate(true).write(true).open(p) {
            let _ = MARKS.set(f);
        }
    }
    let mut c = Check::new(&id, rule);
    let mut it = args.iter().skip(1);
    while let Some(a) = it.next() {
        match a.as_str() {
            "--only" => c.only = it.next().cloned(),
            "--replay" => {
                let t = std::fs::read_to_string(it.next().expect("replay file")).expect("replay file");
                let v: serde_json::Value = serde_json::from_str(&t).expect("replay file");
                let sub = v["sub"].as_str().expect("sub").to_string();
                let choices = match v["choices"].as_array() {
                    Some(a) => Ok(a.iter().map(|x| x.as_u64().unwrap_or(0)).collect()),
                    // a case that did not finish: its decisions are drawn again
                    None => Err(case_seed(v["sub_seed"].as_u64().unwrap_or(0), v["case"].as_u64().unwrap_or(0))),
                };
                c.replay = Some((sub, choices));
            }
            _ => {}
        }
    }
    f(&mut c);
    let code = c.finish();
    use std::io::Write;
    let _ = std::io::stdout().flush();
    // no destructors: threads of the code under test may still be running
    unsafe { libc::_exit(code) }
}

fn parent(id: &str, rule: &str, args: &[String]) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let marks = std::env::temp_dir().join(format!("verif-marks-{}-{}", id, std::process::id()));
    let st = std::process::Command::new(std::env::current_exe().expect("exe"))
        .args(args)
        .env("VERIF_CHILD", "1")
        .env("VERIF_MARKS", &marks)
        .status()
        .expect("spawn");
    let m = read_marks(&marks);
    let _ = std::fs::remove_file(&marks);
    if let Some(c) = st.code() {
        return c;
    }
    let sig = st.signal().unwrap_or(0);
    eprintln!("the check was ended by signal {sig}; running then: {m:?}");
    if [libc::SIGABRT, libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE].contains(&sig) {
        let c = Check::new(id, rule);
        let path = c.replay_path("crash");
        write_json(
            &path,
            &serde_json::json!({"property": id, "failure": format!("the process was ended by signal {sig}"),
                "running (sub-property, seed of it, case)": m, "seed": c.seed}),
        );
        println!("VIOLATION property={id} replay={}", path.display());
        return 1;
    }
    2
}

/// A fresh scratch directory, removed when dropped.
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new() -> Self {
        static N: AtomicU64 = AtomicU64::new(0);
        let base = if Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
        let p = base.join(format!("verif-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&p).expect("scratch");
        Self(p)
    }
    pub fn path(&self) -> &Path {
        &self.0
    }
    pub fn sub(&self, n: &str) -> PathBuf {
        self.0.join(n)
    }
}
impl Default for Scratch {
    fn default() -> Self {
        Self::new()
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// Copy a directory tree as it is now.
pub fn copy_dir(from: &Path, to: &Path) {
    std::fs::create_dir_all(to).expect("mkdir");
    for e in std::fs::read_dir(from).expect("read_dir") {
        let e = e.expect("entry");
        let (a, b) = (e.path(), to.join(e.file_name()));
        if a.is_dir() {
            copy_dir(&a, &b);
        } else {
            std::fs::copy(&a, &b).expect("copy");
        }
    }
}
