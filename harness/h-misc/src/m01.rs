//! M01: what is recorded is what is rendered.

use metrics::{Key, KeyName, Label, Level, Metadata};
use std::{
    collections::{BTreeMap, BTreeSet},
    sync::atomic::{AtomicU64, Ordering},
};
use tn_metrics::install_recorder;
use vcore::{ensure, ensure_eq, Budget, Check, G, R};

pub const RULE: &str = "at least one metric with a value recorded";

static TOKEN: AtomicU64 = AtomicU64::new(0);
static META: Metadata<'static> = Metadata::new("verif", Level::INFO, None);

const SECONDS: &[f64] = &[0.005, 0.01, 0.025, 0.05, 0.1, 0.25, 0.5, 1.0, 2.5, 5.0, 10.0, 30.0];
const BYTES: &[f64] = &[1024.0, 4096.0, 16384.0, 65536.0, 262144.0, 1048576.0, 4194304.0];
const GAS: &[f64] = &[1e5, 2.5e5, 5e5, 1e6, 2.5e6, 5e6, 1e7, 1.5e7, 2.1e7, 3e7];
const COUNTS: &[f64] = &[1.0, 2.0, 5.0, 10.0, 25.0, 50.0, 100.0, 250.0, 500.0, 1000.0];

type Labels = BTreeMap<String, String>;
type Samples = BTreeMap<(String, Labels), Vec<String>>;

/// The exposition format, read line by line.
#[derive(Default, Debug)]
struct Page {
    samples: Samples,
    types: BTreeMap<String, Vec<String>>,
    help: BTreeMap<String, Vec<String>>,
}

fn parse(text: &str, wanted: impl Fn(&str) -> bool) -> Result<Page, String> {
    let mut p = Page::default();
    for l in text.lines().filter(|l| wanted(l)) {
        if let Some(r) = l.strip_prefix("# TYPE ") {
            let (n, t) = r.split_once(' ').ok_or(l)?;
            p.types.entry(n.into()).or_default().push(t.into());
        } else if let Some(r) = l.strip_prefix("# HELP ") {
            let (n, t) = r.split_once(' ').ok_or(l)?;
            p.help.entry(n.into()).or_default().push(t.into());
        } else {
            let end = l.find(['{', ' ']).ok_or(l)?;
            let name = l[..end].to_string();
            let mut labels = Labels::new();
            let mut rest = &l[end..];
            if let Some(mut r) = rest.strip_prefix('{') {
                while !r.starts_with('}') {
                    let (k, after) = r.split_once("=\"").ok_or(l)?;
                    let mut v = String::new();
                    let mut it = after.char_indices();
                    let mut used = after.len();
                    while let Some((i, c)) = it.next() {
                        match c {
                            '\\' => match it.next() {
                                Some((_, 'n')) => v.push('\n'),
                                Some((_, c)) => v.push(c),
                                None => return Err(l.into()),
                            },
                            '"' => {
                                used = i + 1;
                                break;
                            }
                            c => v.push(c),
                        }
                    }
                    ensure!(labels.insert(k.into(), v).is_none(), "a label twice: {l}");
                    r = after[used..].trim_start_matches(',');
                }
                rest = &r[1..];
            }
            p.samples.entry((name, labels)).or_default().push(rest.trim().into());
        }
    }
    Ok(p)
}

fn sanitized(name: &str) -> String {
    name.chars()
        .enumerate()
        .map(|(i, c)| if c.is_ascii_alphabetic() || c == '_' || c == ':' || (i > 0 && c.is_ascii_digit()) { c } else { '_' })
        .collect()
}

/// The name a metric is shown under.
fn shown(name: &str) -> String {
    if name.starts_with("tn_") || name.starts_with("tn.") {
        sanitized(name)
    } else {
        sanitized(&format!("reth.{name}"))
    }
}

fn odd(g: &mut G) -> String {
    (0..g.usize(6)).map(|_| *g.pick(&['a', 'Z', '.', '_', '-', '7', ':', 'é', ' ', '/', '$'])).collect()
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Counter,
    Gauge,
    Histogram,
}

struct Metric {
    name: String,
    kind: Kind,
    /// label sets and what was recorded for them
    series: Vec<(Vec<Label>, Value)>,
    described: Option<String>,
}

#[derive(Default, Clone, Debug)]
struct Value {
    counter: u64,
    gauge: f64,
    samples: Vec<f64>,
    touched: bool,
}

fn number(s: &str) -> Result<f64, String> {
    s.parse::<f64>().map_err(|e| format!("{s}: {e}"))
}

fn record(g: &mut G) -> R {
    let handle = install_recorder().map_err(|e| e.to_string())?;
    let token = format!("q{}q", TOKEN.fetch_add(1, Ordering::Relaxed));
    let mut taken = BTreeSet::new();
    let mut all: Vec<Metric> = vec![];
    for i in 0..g.urange(1, 6) {
        let kind = *g.pick(&[Kind::Counter, Kind::Gauge, Kind::Histogram, Kind::Histogram]);
        // what some histograms are known by
        let known = [
            "tn_engine.block_gas_used",
            "tn_worker.batch_transactions",
            "tn_executor.output_transactions",
            "tn_executor_output_batches",
        ];
        let name = if kind == Kind::Histogram && g.chance(1, 4) {
            g.pick(&known).to_string()
        } else {
            let head = *g.pick(&["tn_", "tn.", "tn", "tn-", "TN_", "Tn.", "reth_", "reth.", "_tn_", ".tn_", "t", "x.tn_", "tn_tn_", "tn..", "9", "é", ""]);
            let tail = *g.pick(&["", "_seconds", ".seconds", "_bytes", "_total", "seconds", "_seconds_x", "_sum2", "_info"]);
            format!("{head}{}{token}{i}{}{tail}", odd(g), odd(g))
        };
        let s = shown(&name);
        // names that look alike once shown are one metric to the reader: not what this is about
        if taken.iter().any(|t: &String| t.starts_with(&s) || s.starts_with(t.as_str())) {
            continue;
        }
        taken.insert(s);
        let mut series = vec![];
        let mut sets = BTreeSet::new();
        for j in 0..g.urange(1, 3) {
            let mut l: Vec<Label> = vec![];
            let n = g.usize(3);
            for k in 0..n {
                let v: String = (0..g.usize(5)).map(|_| *g.pick(&['a', 'B', ' ', '"', '\n', 'é', '{', '}', ',', '=', '0'])).collect();
                l.push(Label::new(["worker", "peer_id", "kind"][k], v));
            }
            if name.contains("tn_e") || name.contains("tn_w") || g.chance(1, 4) {
                l.push(Label::new("case", format!("{token}{j}")));
            }
            g.shuffle(&mut l);
            let set: BTreeSet<(String, String)> = l.iter().map(|l| (l.key().to_string(), l.value().to_string())).collect();
            if sets.insert(set) {
                series.push((l, Value::default()));
            }
        }
        all.push(Metric { name, kind, series, described: None });
    }
    // record, in any order
    for _ in 0..g.urange(1, 40) {
        let i = g.usize(all.len());
        let m = &mut all[i];
        if g.chance(1, 8) && !m.name.starts_with("tn_e") && !m.name.starts_with("tn_w") {
            let d: String = format!("what {} says", g.below(100));
            let (n, t) = (KeyName::from(m.name.clone()), d.clone().into());
            metrics::with_recorder(|r| match m.kind {
                Kind::Counter => r.describe_counter(n, None, t),
                Kind::Gauge => r.describe_gauge(n, None, t),
                Kind::Histogram => r.describe_histogram(n, None, t),
            });
            m.described.get_or_insert(d);
            continue;
        }
        let j = g.usize(m.series.len());
        let (labels, v) = &mut m.series[j];
        let mut labels = labels.clone();
        if g.chance(1, 4) {
            // the order of labels means nothing to the reader
            labels.sort_by(|a, b| a.key().cmp(b.key()));
        }
        let key = Key::from_parts(m.name.clone(), labels);
        v.touched = true;
        match m.kind {
            Kind::Counter => {
                let c = metrics::with_recorder(|r| r.register_counter(&key, &META));
                let n = g.below(1 << 40);
                if g.chance(1, 4) {
                    c.absolute(n);
                    v.counter = v.counter.max(n);
                } else if g.chance(4, 5) {
                    c.increment(n);
                    v.counter += n;
                }
            }
            Kind::Gauge => {
                let h = metrics::with_recorder(|r| r.register_gauge(&key, &META));
                let n = g.below(1 << 20) as f64 / 8.0 - 1000.0;
                match g.below(3) {
                    0 => {
                        h.set(n);
                        v.gauge = n;
                    }
                    1 => {
                        h.increment(n);
                        v.gauge += n;
                    }
                    _ => {
                        h.decrement(n);
                        v.gauge -= n;
                    }
                }
            }
            Kind::Histogram => {
                let h = metrics::with_recorder(|r| r.register_histogram(&key, &META));
                let n = match g.below(4) {
                    0 => {
                        let table = [SECONDS, BYTES, GAS, COUNTS][g.usize(4)];
                        *g.pick(table)
                    }
                    1 => g.below(1 << 26) as f64,
                    2 => g.below(64) as f64 / 1024.0,
                    _ => g.below(4096) as f64 / 64.0,
                };
                h.record(n);
                v.samples.push(n);
            }
        }
        if g.chance(1, 10) {
            if g.bool() {
                handle.run_upkeep();
            } else {
                handle.render();
            }
        }
    }
    g.nontrivial_if(all.iter().any(|m| m.series.iter().any(|s| s.1.touched)));
    let text = handle.render();
    let page = parse(&text, |l| l.contains(&token)).map_err(|l| format!("cannot be read: {l}"))?;
    let everything = parse(&text, |l| l.starts_with("# TYPE tn_e") || l.starts_with("# TYPE tn_w"))?;
    let mut expect: Samples = BTreeMap::new();
    for m in &all {
        let name = shown(&m.name);
        let touched = m.series.iter().any(|s| s.1.touched);
        let own = name.contains(&token);
        let types = if own { page.types.get(&name) } else { everything.types.get(&name) };
        let buckets: Option<&[f64]> = match name.as_str() {
            "tn_engine_block_gas_used" => Some(GAS),
            "tn_worker_batch_transactions" | "tn_executor_output_transactions" | "tn_executor_output_batches" => Some(COUNTS),
            n if n.ends_with("_seconds") => Some(SECONDS),
            n if n.ends_with("_bytes") => Some(BYTES),
            _ => None,
        };
        let kind = match (m.kind, buckets) {
            (Kind::Counter, _) => "counter",
            (Kind::Gauge, _) => "gauge",
            (Kind::Histogram, Some(_)) => "histogram",
            (Kind::Histogram, None) => "summary",
        };
        g.class(match (kind, name.starts_with("reth_")) {
            ("counter", true) => "reth counter",
            ("counter", false) => "counter",
            ("gauge", true) => "reth gauge",
            ("gauge", false) => "gauge",
            ("histogram", true) => "reth histogram",
            ("histogram", false) => "histogram",
            (_, true) => "reth summary",
            (_, false) => "summary",
        });
        if touched {
            ensure_eq!(types.cloned(), Some(vec![kind.to_string()]), "{:?} is shown as {name}", m.name);
        }
        if own && touched {
            ensure_eq!(page.help.get(&name).cloned(), m.described.clone().map(|d| vec![d]), "description of {name}");
        }
        for (labels, v) in m.series.iter().filter(|s| s.1.touched) {
            let l: Labels = labels.iter().map(|l| (l.key().to_string(), l.value().to_string())).collect();
            let mine = |suffix: &str| (format!("{name}{suffix}"), l.clone());
            if !own && !l.contains_key("case") {
                continue;
            }
            match m.kind {
                Kind::Counter => {
                    expect.insert(mine(""), vec![v.counter.to_string()]);
                }
                Kind::Gauge => {
                    let got = page.samples.get(&mine("")).cloned().unwrap_or_default();
                    ensure_eq!(got.len(), 1, "{name} {l:?}: {got:?}");
                    ensure_eq!(number(&got[0])?, v.gauge, "{name} {l:?}");
                    expect.insert(mine(""), got);
                }
                Kind::Histogram => {
                    expect.insert(mine("_count"), vec![v.samples.len().to_string()]);
                    let got = page.samples.get(&mine("_sum")).cloned().unwrap_or_default();
                    ensure_eq!(got.len(), 1, "{name}_sum {l:?}: {got:?}");
                    let (a, b) = (number(&got[0])?, v.samples.iter().sum::<f64>());
                    ensure!((a - b).abs() <= 1e-9 * b.abs(), "{name}_sum {l:?}: {a}, recorded {b}");
                    expect.insert(mine("_sum"), got);
                    match buckets {
                        Some(bounds) => {
                            for b in bounds.iter().copied().chain([f64::INFINITY]) {
                                let n = v.samples.iter().filter(|s| **s <= b).count();
                                let mut l = l.clone();
                                l.insert("le".into(), if b.is_finite() { b.to_string() } else { "+Inf".into() });
                                expect.insert((format!("{name}_bucket"), l), vec![n.to_string()]);
                            }
                        }
                        None => {
                            // quantiles: approximate, the extremes within what was recorded
                            for (k, got) in page.samples.iter().filter(|(k, _)| k.0 == name && k.1.contains_key("quantile")) {
                                let mut base = k.1.clone();
                                base.remove("quantile");
                                if base == l {
                                    ensure_eq!(got.len(), 1);
                                    expect.insert(k.clone(), got.clone());
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    for (k, v) in &expect {
        ensure_eq!(page.samples.get(k), Some(v), "{k:?}");
    }
    for k in page.samples.keys() {
        ensure!(expect.contains_key(k), "shown but never recorded: {k:?} (metrics {:?})", all.iter().map(|m| &m.name).collect::<Vec<_>>());
    }
    Ok(())
}

fn install(_: &mut G) -> R {
    let all: Vec<usize> = std::thread::scope(|s| {
        let t: Vec<_> = (0..16)
            .map(|_| {
                s.spawn(|| {
                    let h = install_recorder().map(|h| h as *const _ as usize);
                    metrics::counter!("tn_install_test").increment(1);
                    h
                })
            })
            .collect();
        t.into_iter().map(|t| t.join().expect("thread")).collect::<Result<_, _>>()
    })
    .map_err(|e| format!("installing again fails: {e}"))?;
    ensure!(all.windows(2).all(|w| w[0] == w[1]), "different handles");
    let text = install_recorder().map_err(|e| e.to_string())?.render();
    ensure!(text.lines().any(|l| l == "tn_install_test 16"), "recorded after installing, not shown");
    Ok(())
}

/// Recording from several threads loses nothing.
fn concurrent(g: &mut G) -> R {
    let handle = install_recorder().map_err(|e| e.to_string())?;
    let token = format!("q{}q", TOKEN.fetch_add(1, Ordering::Relaxed));
    let (threads, each) = (g.urange(2, 4), g.urange(1, 200));
    let foreign = g.bool();
    let name = |s: &str| format!("{}{token}{s}", if foreign { "db." } else { "tn_" });
    std::thread::scope(|s| {
        for _ in 0..threads {
            s.spawn(|| {
                for i in 0..each {
                    metrics::counter!(name("c"), "l" => (i % 3).to_string()).increment(1);
                    metrics::histogram!(name("h_seconds")).record(i as f64);
                    if i % 50 == 7 {
                        handle.render();
                    }
                }
            });
        }
    });
    let text = handle.render();
    let page = parse(&text, |l| l.contains(&token)).map_err(|l| format!("cannot be read: {l}"))?;
    let p = if foreign { "reth_db_" } else { "tn_" };
    for l in 0..3.min(each) {
        let n = threads * ((each - l).div_ceil(3));
        let k = (format!("{p}{token}c"), [("l".to_string(), l.to_string())].into());
        ensure_eq!(page.samples.get(&k), Some(&vec![n.to_string()]), "counted by {threads} threads");
    }
    let k = (format!("{p}{token}h_seconds_count"), Labels::new());
    ensure_eq!(page.samples.get(&k), Some(&vec![(threads * each).to_string()]), "recorded by {threads} threads");
    g.nontrivial();
    Ok(())
}

pub fn check(c: &mut Check) {
    c.fixed("install", install);
    c.sub("record", Budget::new(3_000, 25).thorough(20_000, 400), record);
    c.sub("concurrent", Budget::new(100, 10).threads(2).thorough(1_000, 100), concurrent);
    crate::scrape::check(c);
    c.assume("the Prometheus exporter sanitises names and renders its own registry correctly");
}
