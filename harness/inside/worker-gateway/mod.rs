//! P01, compiled inside the gateway, whose items are private to it.

mod json;
mod traffic;

use crate::{
    cli::Cli,
    error::{error_response, error_response_with_id, GatewayError, RequestId},
    ratelimit::{PrefixLen, PrefixPolicy, RateLimit, RateLimiters},
    telemetry,
};
use clap::Parser;
use json::J;
use metrics::{Counter, CounterFn, Gauge, GaugeFn, Histogram, HistogramFn, Key, KeyName, Metadata, SharedString, Unit};
use std::{
    collections::{BTreeMap, HashMap},
    net::{IpAddr, Ipv4Addr, Ipv6Addr},
    num::NonZeroU32,
    sync::{Arc, Mutex},
    time::Duration,
};
use vcore::{clip, ensure, ensure_eq, no_panic, Budget, Check, Scratch, G, R};

pub const RULE: &str = "replies: the request is an object with an identifier; metrics: something is recorded twice; limits: \
    something is both admitted and refused; settings: more than the upstream is given; traffic: at least one request \
    is forwarded or one refused by the gateway";

/// (error, status, code, reason) as documented in the gateway's README
pub fn errors() -> Vec<(GatewayError, u16, i64, &'static str)> {
    vec![
        (GatewayError::NoUpstreamReady, 503, -32000, "no_upstream_ready"),
        (GatewayError::UpstreamUnreachable, 502, -32001, "upstream_unreachable"),
        (GatewayError::UpstreamTimeout, 504, -32002, "upstream_timeout"),
        (GatewayError::RequestTooLarge, 413, -32003, "request_too_large"),
        (GatewayError::LoopDetected, 508, -32004, "loop_detected"),
        (GatewayError::RequestTimeout, 408, -32005, "request_timeout"),
        (GatewayError::RateLimited, 429, -32006, "rate_limited"),
        (GatewayError::InvalidTransaction, 400, -32007, "invalid_transaction"),
        (GatewayError::UnsupportedTransactionType, 400, -32008, "unsupported_transaction_type"),
        (GatewayError::UnreadableBody, 400, -32600, "unreadable_body"),
    ]
}

// ---------------------------------------------------------------- bodies

fn text(g: &mut G) -> String {
    match g.below(8) {
        0 => String::new(),
        1 => "id".into(),
        2 => "\"id\":7".into(),
        3 => "é∞😀\u{7f}".into(),
        4 => "a\\\"\n\t/".into(),
        5 => "eth_sendRawTransaction".into(),
        6 => "x".repeat(g.usize(40)),
        _ => String::from_utf8_lossy(&g.blob(12)).into(),
    }
}

/// A string as JSON, escaped one way or another.
fn quoted(g: &mut G, s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        let must = c < ' ' || c == '"' || c == '\\';
        if must || g.chance(1, 12) {
            let short = match c {
                '"' => "\\\"",
                '\\' => "\\\\",
                '/' => "\\/",
                '\n' => "\\n",
                '\t' => "\\t",
                '\r' => "\\r",
                _ => "",
            };
            if !short.is_empty() && g.bool() {
                o.push_str(short);
            } else {
                for u in c.encode_utf16(&mut [0; 2]) {
                    o.push_str(&if g.bool() { format!("\\u{u:04x}") } else { format!("\\u{u:04X}") });
                }
            }
        } else {
            o.push(c);
        }
    }
    o + "\""
}

fn number(g: &mut G) -> String {
    match g.below(10) {
        0 => "0".into(),
        1 => "-0".into(),
        2 => u64::MAX.to_string(),
        3 => i64::MIN.to_string(),
        4 => format!("{}", g.num() as i64),
        5 => format!("{}.{}", g.below(100), g.below(1000)),
        6 => format!("{}e{}", g.below(100), g.below(20)),
        7 => "1e400".into(),
        8 => format!("{}00000000000000000000", 1 + g.below(9)),
        _ => g.below(1000).to_string(),
    }
}

fn space(g: &mut G) -> &'static str {
    *g.pick(&["", "", "", "", " ", "\n", "\t ", "\r\n"])
}

fn value(g: &mut G, d: usize) -> String {
    match g.weighted(&[2, 1, 3, 4, if d < 3 { 2 } else { 0 }, if d < 3 { 2 } else { 0 }, 1]) {
        0 => "null".into(),
        1 => g.bool().to_string(),
        2 => number(g),
        3 => {
            let s = text(g);
            quoted(g, &s)
        }
        4 => {
            let v = g.vec(0, 4, 2, |g| format!("{}{}{}", space(g), value(g, d + 1), space(g)));
            format!("[{}]", v.join(","))
        }
        5 => object(g, d + 1),
        _ => {
            let n = *g.pick(&[3usize, 90, 130, 1000]);
            let id = if g.chance(1, 4) { "{\"id\":1}" } else { "1" };
            format!("{}{id}{}", "[".repeat(n), "]".repeat(n))
        }
    }
}

fn object(g: &mut G, d: usize) -> String {
    let mut members = g.vec(0, 6, 3, |g| {
        let k = match g.below(10) {
            0..=3 => "id".to_string(),
            4 => "jsonrpc".into(),
            5 => "method".into(),
            6 => "params".into(),
            7 => (*g.pick(&["ID", "Id", "id ", " id", "i", "idd", "\u{131}d"])).into(),
            _ => text(g),
        };
        let k = quoted(g, &k);
        format!("{}{k}{}:{}{}", space(g), space(g), space(g), value(g, d))
    });
    g.shuffle(&mut members);
    format!("{{{}{}}}", members.join(","), space(g))
}

/// Anything a client may send.
pub fn body(g: &mut G) -> Vec<u8> {
    let mut b = match g.weighted(&[1, 12, 2, 2, 1]) {
        0 => vec![],
        1 => object(g, 0).into_bytes(),
        2 => {
            let batch = g.vec(0, 3, 2, |g| object(g, 0));
            format!("[{}]", batch.join(",")).into_bytes()
        }
        3 => value(g, 0).into_bytes(),
        _ => g.blob(60),
    };
    if g.chance(1, 4) {
        let n = b.len();
        match g.below(7) {
            0 => b.truncate(g.usize(n + 1)),
            1 if n > 0 => {
                let i = g.usize(n);
                b[i] ^= 1 << g.below(8);
            }
            2 if n > 0 => {
                let i = g.usize(n);
                b.remove(i);
            }
            3 => b.extend_from_slice((*g.pick(&[" ", "x", "{}", ",", "\0", "}", "\u{feff}"])).as_bytes()),
            4 => b.splice(0..0, [0xef, 0xbb, 0xbf]).for_each(drop),
            5 if n > 0 => {
                let i = g.usize(n);
                let c = g.u8();
                b.insert(i, c);
            }
            _ => b.splice(0..0, *b" \n").for_each(drop),
        }
    }
    b
}

/// What the identifier echoed for this body may be.
pub enum Id {
    /// exactly this
    Is(J),
    /// this or null: a reader may have given up on the body
    Maybe(J),
}

pub fn expected_id(body: &[u8]) -> Id {
    match json::parse(body) {
        Some((j @ J::Obj(_), grey)) => {
            let id = j.get("id").cloned().unwrap_or(J::Null);
            if grey || j.extreme() {
                Id::Maybe(id)
            } else {
                Id::Is(id)
            }
        }
        _ => Id::Is(J::Null),
    }
}

/// The reply's text is a JSON-RPC error with this code and identifier, nothing more.
pub fn well_formed(reply: &[u8], code: i64, id: &Id) -> R {
    let shown = || clip(&String::from_utf8_lossy(reply), 400);
    let (j, grey) = json::parse(reply).ok_or_else(|| format!("the reply is not JSON: {}", shown()))?;
    let J::Obj(m) = &j else { return Err(format!("the reply is not an object: {}", shown())) };
    ensure!(m.len() == 3 && !grey, "the reply has other members: {}", shown());
    ensure_eq!(j.get("jsonrpc").and_then(J::str), Some("2.0"), "{}", shown());
    let e = j.get("error").ok_or_else(|| format!("no error: {}", shown()))?;
    match e.get("code") {
        Some(J::Num(n)) => ensure_eq!(n, &code.to_string(), "code of {}", shown()),
        o => return Err(format!("code {o:?} in {}", shown())),
    }
    ensure!(e.get("message").and_then(J::str).is_some_and(|m| !m.is_empty()), "no message: {}", shown());
    let got = j.get("id").ok_or_else(|| format!("no id: {}", shown()))?;
    let fine = match id {
        Id::Is(x) => x.same(got),
        Id::Maybe(x) => x.same(got) || matches!(got, J::Null),
    };
    ensure!(fine, "the identifier {} is echoed in {}", match id { Id::Is(x) | Id::Maybe(x) => clip(&format!("{x:?}"), 200) }, shown());
    Ok(())
}

fn replies(g: &mut G) -> R {
    let b = body(g);
    g.note(|| format!("body {}", String::from_utf8_lossy(&b)));
    let all = errors();
    let (err, status, code, _) = g.pick(&all);
    let expected = expected_id(&b);
    g.nontrivial_if(matches!(&expected, Id::Is(j) if !matches!(j, J::Null)));
    // what a caller that has parsed the request passes on is the same
    let parsed = g.chance(1, 3).then(|| serde_json::from_slice::<serde_json::Value>(&b).ok()).flatten();
    let (response, expected) = match &parsed {
        Some(v) if v.is_object() => {
            g.class("already parsed");
            (no_panic(|| error_response_with_id(err, RequestId::from_request(v)))?, expected)
        }
        _ => (no_panic(|| error_response(err, &b))?, expected),
    };
    ensure_eq!(response.status().as_u16(), *status, "status of {err:?}");
    ensure_eq!(
        response.headers().get("content-type").map(|v| v.as_bytes()),
        Some(&b"application/json"[..]),
        "content type"
    );
    let bytes = futures::executor::block_on(axum::body::to_bytes(response.into_body(), usize::MAX))
        .map_err(|e| e.to_string())?;
    well_formed(&bytes, *code, &expected)
}

// ---------------------------------------------------------------- metrics

#[derive(Default, Clone)]
struct Seen(Arc<Mutex<BTreeMap<String, f64>>>);
struct Cell(Seen, String);
impl Cell {
    fn edit(&self, f: impl FnOnce(f64) -> f64) {
        let mut m = self.0 .0.lock().unwrap();
        let v = m.entry(self.1.clone()).or_insert(0.0);
        *v = f(*v);
    }
}
impl CounterFn for Cell {
    fn increment(&self, v: u64) {
        self.edit(|x| x + v as f64)
    }
    fn absolute(&self, v: u64) {
        self.edit(|_| v as f64)
    }
}
impl GaugeFn for Cell {
    fn increment(&self, v: f64) {
        self.edit(|x| x + v)
    }
    fn decrement(&self, v: f64) {
        self.edit(|x| x - v)
    }
    fn set(&self, v: f64) {
        self.edit(|_| v)
    }
}
impl HistogramFn for Cell {
    fn record(&self, v: f64) {
        if v >= 0.0 {
            self.edit(|x| x + 1.0)
        }
        let sum = Cell(self.0.clone(), format!("{} sum", self.1));
        sum.edit(|x| x + v);
    }
}
impl Seen {
    fn cell(&self, kind: &str, k: &Key) -> Arc<Cell> {
        let mut l: Vec<_> = k.labels().map(|l| format!("{}={}", l.key(), l.value())).collect();
        l.sort();
        Arc::new(Cell(self.clone(), format!("{kind} {}{{{}}}", k.name(), l.join(","))))
    }
}
impl metrics::Recorder for Seen {
    fn describe_counter(&self, _: KeyName, _: Option<Unit>, _: SharedString) {}
    fn describe_gauge(&self, _: KeyName, _: Option<Unit>, _: SharedString) {}
    fn describe_histogram(&self, _: KeyName, _: Option<Unit>, _: SharedString) {}
    fn register_counter(&self, k: &Key, _: &Metadata<'_>) -> Counter {
        Counter::from_arc(self.cell("counter", k))
    }
    fn register_gauge(&self, k: &Key, _: &Metadata<'_>) -> Gauge {
        Gauge::from_arc(self.cell("gauge", k))
    }
    fn register_histogram(&self, k: &Key, _: &Metadata<'_>) -> Histogram {
        Histogram::from_arc(self.cell("histogram", k))
    }
}

fn counts(g: &mut G) -> R {
    let _frozen = vclock::freeze();
    let seen = Seen::default();
    let mut model: BTreeMap<String, f64> = BTreeMap::new();
    let mut add = |m: &mut BTreeMap<String, f64>, k: String, v: f64| *m.entry(k).or_insert(0.0) += v;
    const N: &str = "tn_worker_gateway";
    let all = errors();
    let r: R = metrics::with_local_recorder(&seen, || {
        let mut open = vec![];
        let n = g.urange(1, 25);
        for _ in 0..n {
            match g.below(6) {
                0 | 1 => {
                    let (e, _, _, reason) = g.pick(&all);
                    let b = body(g);
                    error_response(e, &b);
                    add(&mut model, format!("counter {N}_requests_total{{outcome=rejected}}"), 1.0);
                    add(&mut model, format!("counter {N}_rejections_total{{reason={reason}}}"), 1.0);
                }
                2 => {
                    telemetry::record_forwarded();
                    add(&mut model, format!("counter {N}_requests_total{{outcome=forwarded}}"), 1.0);
                }
                3 => {
                    open.push((telemetry::RequestInFlight::enter(), Duration::ZERO));
                    add(&mut model, format!("gauge {N}_inflight_requests{{}}"), 1.0);
                }
                4 if !open.is_empty() => {
                    let i = g.usize(open.len());
                    let (r, age) = open.swap_remove(i);
                    drop(r);
                    add(&mut model, format!("gauge {N}_inflight_requests{{}}"), -1.0);
                    add(&mut model, format!("histogram {N}_request_duration_seconds{{}}"), 1.0);
                    add(&mut model, format!("histogram {N}_request_duration_seconds{{}} sum"), age.as_secs_f64());
                }
                4 => {
                    let d = Duration::from_millis(g.below(5000));
                    vclock::advance(d);
                    open.iter_mut().for_each(|o| o.1 += d);
                }
                _ => {
                    let (w, r) = (*g.pick(&[0u16, 1, 7, u16::MAX]), g.bool());
                    telemetry::set_upstream_ready(w, r);
                    model.insert(format!("gauge {N}_upstream_ready{{worker_id={w}}}"), r as u8 as f64);
                }
            }
        }
        std::mem::forget(open);
        Ok(())
    });
    r?;
    g.nontrivial_if(model.values().any(|v| *v > 1.0));
    let got = seen.0.lock().unwrap().clone();
    ensure!(
        got.len() == model.len() && got.iter().zip(&model).all(|((a, x), (b, y))| a == b && (x - y).abs() < 1e-6),
        "recorded {got:?}, happened {model:?}"
    );
    Ok(())
}

// ---------------------------------------------------------------- rate limits

/// Exact token arithmetic: tokens in units of a billionth.
struct Bucket {
    nanos: u128,
    at: u64,
}

impl Bucket {
    fn refill(&mut self, now: u64, rate: u32, cap: u32) {
        self.nanos = (self.nanos + (now - self.at) as u128 * rate as u128).min(cap as u128 * 1_000_000_000);
        self.at = now;
    }
}

fn network(ip: IpAddr, v4: u8, v6: u8) -> (u8, u128) {
    let top = |bits: u128, width: u32, n: u8| if n == 0 { 0 } else { bits >> (width - n as u32) };
    match ip {
        IpAddr::V4(a) => (4, top(u32::from_be_bytes(a.octets()) as u128, 32, v4)),
        IpAddr::V6(a) => {
            let o = u128::from_be_bytes(a.octets());
            if o >> 32 == 0xffff {
                (4, top(o & 0xffff_ffff, 32, v4))
            } else {
                (6, top(o, 128, v6))
            }
        }
    }
}

fn limit(g: &mut G) -> Option<(u32, u32)> {
    g.chance(5, 6).then(|| {
        let r = match g.below(4) {
            0 => 1,
            1 => g.range(1, 5) as u32,
            2 => g.range(1, 300) as u32,
            _ => u32::MAX,
        };
        let b = match g.below(5) {
            0 => 1,
            1 | 2 => g.range(1, 6) as u32,
            3 => g.range(1, 60) as u32,
            _ => u32::MAX,
        };
        (r, b)
    })
}

fn limits(g: &mut G) -> R {
    let _frozen = vclock::freeze();
    let (per, all) = (limit(g), limit(g));
    let (v4, v6) = (*g.pick(&[32u8, 32, 24, 16, 8, 1, 0, 31, 25]), *g.pick(&[64u8, 64, 128, 48, 56, 1, 0, 127, 65, 96]));
    let max = *g.pick(&[100_000usize, 3, 2, 1, 0, 5]);
    let rl = |x: Option<(u32, u32)>| x.map(|(r, b)| RateLimit::new(NonZeroU32::new(r).unwrap(), NonZeroU32::new(b).unwrap()));
    let policy = PrefixPolicy::new(PrefixLen::v4(v4).map_err(|e| e.to_string())?, PrefixLen::v6(v6).map_err(|e| e.to_string())?);
    g.note(|| format!("per network {per:?}, overall {all:?}, at most {max} networks, prefixes /{v4} /{v6}"));
    let lim = RateLimiters::new(rl(per), rl(all), max, policy);
    ensure_eq!(lim.is_some(), per.is_some() || all.is_some(), "limiter present");
    let Some(lim) = lim else { return Ok(()) };
    let max = max.max(1);
    let mut now = 0u64;
    let mut overall = Bucket { nanos: all.map_or(0, |a| a.1 as u128 * 1_000_000_000), at: 0 };
    let mut nets: HashMap<(u8, u128), Bucket> = HashMap::new();
    // addresses that share prefixes of many lengths
    let base4 = g.num32();
    let base6 = ((g.num() as u128) << 64) | g.num() as u128;
    let mut ips: Vec<IpAddr> = vec![];
    for _ in 0..g.urange(1, 6) {
        let bit4 = g.below(33);
        let a4 = Ipv4Addr::from(if bit4 == 32 { base4 } else { base4 ^ (1 << bit4) });
        ips.push(match g.below(3) {
            0 => a4.into(),
            1 => a4.to_ipv6_mapped().into(),
            _ => {
                let bit = g.below(129);
                Ipv6Addr::from(if bit == 128 { base6 } else { base6 ^ (1 << bit) }).into()
            }
        });
    }
    let (mut yes, mut no) = (0, 0);
    for _ in 0..g.urange(1, 60) {
        match g.weighted(&[3, 1, 12]) {
            0 => {
                let rate = per.or(all).map_or(1, |l| l.0 as u64);
                let d = match g.below(6) {
                    0 => 1_000_000_000 / rate,
                    1 => (1_000_000_000 / rate).saturating_sub(2000) + g.below(4000),
                    2 => g.below(3_000_000_000 / rate + 2),
                    3 => g.below(5_000_000_000),
                    4 => g.below(1000),
                    _ => 3_600_000_000_000,
                };
                vclock::advance(Duration::from_nanos(d));
                now += d;
            }
            1 => {
                // a network whose allowance is whole again is as good as unknown
                lim.gc();
                if let Some((r, c)) = per {
                    let near = nets.values_mut().any(|b| {
                        b.refill(now, r, c);
                        let short = c as u128 * 1_000_000_000 - b.nanos;
                        short > 0 && short < 200_000
                    });
                    if near {
                        return Ok(());
                    }
                    nets.retain(|_, b| b.nanos < c as u128 * 1_000_000_000);
                }
            }
            _ => {
                let peer = if g.chance(1, 10) { None } else { Some(*g.pick(&ips)) };
                let mut want = true;
                let mut close = false;
                // a token is there or missing by a clear margin, or the outcome is left open
                let mut take = |b: &mut Bucket, r: u32, c: u32| {
                    b.refill(now, r, c);
                    let one = 1_000_000_000u128;
                    close |= b.nanos.abs_diff(one) < 200_000 && b.nanos != c as u128 * one || (r > 1_000_000 || c > 1_000_000) && b.nanos < 3 * one;
                    if b.nanos >= one {
                        b.nanos -= one;
                        true
                    } else {
                        false
                    }
                };
                if let Some((r, c)) = all {
                    want &= take(&mut overall, r, c);
                }
                if let (true, Some((r, c)), Some(ip)) = (want, per, peer) {
                    let k = network(ip, v4, v6);
                    let room = nets.len() < max;
                    want = match nets.get_mut(&k) {
                        Some(b) => take(b, r, c),
                        None if room => take(nets.entry(k).or_insert(Bucket { nanos: c as u128 * 1_000_000_000, at: now }), r, c),
                        None => true,
                    };
                }
                let got = lim.check(peer).is_ok();
                if close {
                    // rounding may decide either way from here on
                    return Ok(());
                }
                ensure!(got == want, "request from {peer:?} at {now} ns: admitted {got}, expected {want}");
                if got {
                    yes += 1
                } else {
                    no += 1
                }
            }
        }
    }
    g.nontrivial_if(yes > 0 && no > 0);
    Ok(())
}

// ---------------------------------------------------------------- settings

/// One flag's text and what it stands for; None when it has to be refused.
struct Flag<T> {
    text: Option<String>,
    value: Option<T>,
}

fn flag<T: Clone>(g: &mut G, default: T, good: impl FnOnce(&mut G) -> (String, T), bad: &[&str]) -> Flag<T> {
    match g.weighted(&[14, 6, if bad.is_empty() { 0 } else { 1 }]) {
        0 => Flag { text: None, value: Some(default) },
        1 => {
            let (t, v) = good(g);
            Flag { text: Some(t), value: Some(v) }
        }
        _ => {
            if g.chance(1, 2) {
                return Flag { text: None, value: Some(default) };
            }
            Flag { text: Some((*g.pick(bad)).to_string()), value: None }
        }
    }
}

fn period(g: &mut G, zero: bool) -> (String, Duration) {
    let n = if zero && g.chance(1, 3) { 0 } else { 1 + g.below(90) };
    match g.below(5) {
        0 => (format!("{n}ms"), Duration::from_millis(n)),
        1 => (format!("{n}m"), Duration::from_secs(60 * n)),
        2 => (format!("{n}m 30s"), Duration::from_secs(60 * n + 30)),
        3 => (format!("{n}h"), Duration::from_secs(3600 * n)),
        _ => (format!("{n}s"), Duration::from_secs(n)),
    }
}

/// Whether following this URL leads back to the listener: yes, no, or left open.
fn own(url: &url::Url, listen: std::net::SocketAddr) -> Option<bool> {
    if url.port_or_known_default() != Some(listen.port()) {
        return Some(false);
    }
    let l = listen.ip();
    let ip: IpAddr = match url.host()? {
        url::Host::Domain(n) if n.eq_ignore_ascii_case("localhost") => Ipv4Addr::LOCALHOST.into(),
        url::Host::Domain(_) => return None,
        url::Host::Ipv4(i) => i.into(),
        url::Host::Ipv6(i) => i.into(),
    };
    if ip == l || (ip.is_ipv4() == l.is_ipv4() && (ip.is_unspecified() || (ip.is_loopback() && l.is_unspecified()))) {
        return Some(true);
    }
    // another concrete address of the same family is somebody else; across families it depends on the host
    if ip.is_ipv4() == l.is_ipv4() && !l.is_unspecified() {
        return Some(false);
    }
    if ip.is_ipv4() && l.is_ipv4() && !ip.is_loopback() {
        return Some(false);
    }
    None
}

fn settings(g: &mut G) -> R {
    const BAD_TIME: &[&str] = &["", "10", "abc", "-5s", "5 parsecs", "1e3s"];
    let mut args: Vec<String> = vec!["worker-gateway".into()];
    let mut given = 0;
    let mut wrong: Vec<String> = vec![];
    let mut open = false;
    let mut put = |name: &str, text: &Option<String>| {
        if let Some(t) = text {
            given += 1;
            args.push(format!("--{name}={t}"));
        }
    };
    macro_rules! flag {
        ($name:literal, $default:expr, $good:expr, $bad:expr) => {{
            let f = flag(g, $default, $good, $bad);
            put($name, &f.text);
            if f.value.is_none() {
                wrong.push(format!("{} {:?}", $name, f.text));
            }
            f.value
        }};
    }
    let listen = flag!(
        "listen-addr",
        "0.0.0.0:8545".parse::<std::net::SocketAddr>().unwrap(),
        |g| {
            let ip = *g.pick(&["0.0.0.0", "127.0.0.1", "10.1.2.3", "[::]", "[::1]", "[2001:db8::1]"]);
            let s = format!("{ip}:{}", g.pick(&[8545u16, 80, 0, 65535]));
            (s.clone(), s.parse().unwrap())
        },
        &["0.0.0.0", "localhost:80", "1.2.3.4:65536", ":80", ""]
    );
    let secs = Duration::from_secs;
    let poll_interval = flag!("readiness-poll-interval", secs(5), |g| period(g, true), BAD_TIME);
    let poll_timeout = flag!("readiness-poll-timeout", secs(2), |g| period(g, true), BAD_TIME);
    let connect = flag!("upstream-connect-timeout", secs(2), |g| period(g, true), BAD_TIME);
    let request = flag!("upstream-request-timeout", secs(30), |g| period(g, true), BAD_TIME);
    let header = flag!("header-read-timeout", secs(10), |g| period(g, true), BAD_TIME);
    let user = flag!("tcp-user-timeout", secs(30), |g| period(g, true), BAD_TIME);
    let cap = flag!("max-connection-duration", secs(600), |g| period(g, true), BAD_TIME);
    let graceful = flag!("graceful-shutdown-timeout", secs(30), |g| period(g, true), BAD_TIME);
    let conns = flag!("max-connections", 500usize, |g| { let n = 1 + g.num() as usize / 2; (n.to_string(), n) }, &["0", "-1", "many", "1.5"]);
    let bytes = flag!("max-request-bytes", 25 * 1024 * 1024usize, |g| { let n = g.num() as usize; (n.to_string(), n) }, &["-1", "1k", ""]);
    let u32s = |g: &mut G| { let n = g.num32(); (n.to_string(), n) };
    const BAD32: &[&str] = &["4294967296", "-1", "fast"];
    let per = flag!("rate-limit-per-ip", 100u32, u32s, BAD32);
    let per_burst = flag!("rate-limit-per-ip-burst", 0u32, u32s, BAD32);
    let all = flag!("rate-limit-global", 3000u32, u32s, BAD32);
    let all_burst = flag!("rate-limit-global-burst", 0u32, u32s, BAD32);
    let v4 = flag!("rate-limit-per-ip-v4-prefix", 32u8, |g| { let n = g.below(33) as u8; (n.to_string(), n) }, &["33", "64", "128", "255", "256", "-1"]);
    let v6 = flag!("rate-limit-per-ip-v6-prefix", 64u8, |g| { let n = g.below(129) as u8; (n.to_string(), n) }, &["129", "255", "256", "x"]);
    let metrics_addr = flag!("metrics", None::<std::net::SocketAddr>, |_| ("127.0.0.1:9101".into(), "127.0.0.1:9101".parse().ok()), &["9101", "host:1"]);

    // where requests go
    let url = |g: &mut G, wrong: &mut Vec<String>, open: &mut bool| -> String {
        let host = *g.pick(&["127.0.0.1", "10.1.2.3", "10.1.2.4", "[::1]", "[::]", "0.0.0.0", "localhost", "LocalHost", "worker-0.svc", "[2001:db8::1]", "127.0.0.2"]);
        let port = *g.pick(&["", ":8545", ":80", ":8546", ":1", ":65535"]);
        let path = *g.pick(&["", "/", "/health/workers", "/a?b=c"]);
        let scheme = if g.chance(1, 16) { *g.pick(&["https", "ftp", "ws"]) } else { *g.pick(&["http", "http", "http", "HTTP"]) };
        let s = format!("{scheme}://{host}{port}{path}");
        let parsed = url::Url::parse(&s).unwrap();
        if parsed.scheme() != "http" {
            wrong.push(format!("scheme of {s}"));
        }
        match listen.map(|l| own(&parsed, l)) {
            Some(Some(true)) => wrong.push(format!("{s} is the gateway itself")),
            Some(None) => *open = true,
            _ => {}
        }
        s
    };
    let scratch = Scratch::new();
    let mut upstreams: Vec<(u16, String, String)> = vec![];
    if g.bool() {
        let (rpc, ready) = (!g.chance(1, 15), !g.chance(1, 15));
        let (r1, r2) = (url(g, &mut wrong, &mut open), url(g, &mut wrong, &mut open));
        let id = if g.bool() { Some(g.below(65536) as u16) } else { None };
        if rpc {
            args.push(format!("--upstream-rpc-url={r1}"));
        }
        if ready {
            args.push(format!("--upstream-readiness-url={r2}"));
        }
        if let Some(id) = id {
            args.push(format!("--worker-id={id}"));
        }
        if !(rpc && ready) {
            wrong.push("an upstream URL is missing".into());
        }
        upstreams.push((id.unwrap_or(0), r1, r2));
    } else {
        let n = if g.chance(1, 12) { 0 } else { g.urange(1, 4) };
        for _ in 0..n {
            upstreams.push((g.below(65536) as u16, url(g, &mut wrong, &mut open), url(g, &mut wrong, &mut open)));
        }
        let mut yaml = String::from(if n == 0 { "upstreams: []\n" } else { "upstreams:\n" });
        for (id, a, b) in &upstreams {
            yaml += &format!("  - worker_id: {id}\n    rpc_url: \"{a}\"\n    readiness_url: \"{b}\"\n");
        }
        if n == 0 {
            wrong.push("no upstream".into());
        }
        if g.chance(1, 8) {
            let bad = match g.below(5) {
                0 => yaml = yaml.replace("worker_id: ", "worker_id: 7777"),
                1 => yaml = yaml.replace("rpc_url: \"http", "rpc_url: \"ht tp"),
                2 => yaml = yaml.replace("    readiness_url", "    other_url"),
                3 => yaml = format!("- {yaml}"),
                _ => yaml = "upstreams: 5\n".into(),
            };
            let () = bad;
            // most of these are refused; the check is that nothing else than the file's content is used
            open = true;
        }
        let path = scratch.sub("gateway.yaml");
        if g.chance(1, 15) {
            wrong.push("no file".into());
        } else {
            std::fs::write(&path, &yaml).map_err(|e| e.to_string())?;
        }
        args.push(format!("--config={}", path.display()));
        if g.chance(1, 12) {
            args.push("--worker-id=3".into());
            wrong.push("file and flags".into());
        }
        g.note(|| yaml.clone());
    }
    g.note(|| args.join(" "));
    if let (Some(c), Some(h), Some(r)) = (cap, header, request) {
        if !c.is_zero() && c < h + h + r {
            wrong.push("connections are cut before a request can end".into());
        }
    }
    for (n, v) in [("poll interval", poll_interval), ("poll timeout", poll_timeout), ("connect timeout", connect), ("request timeout", request), ("header timeout", header)] {
        if v.is_some_and(|v| v.is_zero()) {
            wrong.push(format!("{n} 0"));
        }
    }
    let mut order = args.split_off(1);
    g.shuffle(&mut order);
    args.extend(order);
    g.nontrivial_if(given > 0);
    let got = no_panic(|| Cli::try_parse_from(&args).map_err(|e| e.to_string()).and_then(|c| c.into_settings().map_err(|e| e.to_string())))?;
    if !wrong.is_empty() {
        g.class("refused");
        return match got {
            Ok(_) => Err(format!("accepted although wrong: {wrong:?}")),
            Err(_) => Ok(()),
        };
    }
    let s = match got {
        Err(_) if open => return Ok(()),
        Err(e) => return Err(format!("refused: {}", clip(&e, 400))),
        Ok(s) => s,
    };
    g.class("accepted");
    let optional = |d: Option<Duration>| d.filter(|d| !d.is_zero());
    ensure_eq!(Some(s.listen_addr), listen, "listen");
    ensure_eq!(Some(s.readiness_poll_interval), poll_interval, "poll interval");
    ensure_eq!(Some(s.readiness_poll_timeout), poll_timeout, "poll timeout");
    ensure_eq!(Some(s.upstream_connect_timeout), connect, "connect timeout");
    ensure_eq!(Some(s.upstream_request_timeout), request, "request timeout");
    ensure_eq!(Some(s.header_read_timeout), header, "header timeout");
    ensure_eq!(Some(s.graceful_shutdown_timeout), graceful, "shutdown timeout");
    ensure_eq!(s.tcp_user_timeout, optional(user), "tcp user timeout");
    ensure_eq!(s.max_connection_duration, optional(cap), "connection duration");
    ensure_eq!(Some(s.max_connections.get()), conns, "connections");
    ensure_eq!(Some(s.max_request_bytes), bytes, "request bytes");
    ensure_eq!(Some(s.metrics_addr), metrics_addr, "metrics");
    // limits behave as given: as many requests at once as the burst allows
    let limits = |rate: Option<u32>, burst: Option<u32>| {
        let (r, b) = (rate.unwrap_or(0), burst.unwrap_or(0));
        (r > 0).then(|| if b == 0 { r.saturating_mul(2) } else { b })
    };
    ensure_eq!(s.rate_limit_per_ip.is_some(), limits(per, per_burst).is_some(), "per network limit");
    ensure_eq!(s.rate_limit_global.is_some(), limits(all, all_burst).is_some(), "overall limit");
    let _frozen = vclock::freeze();
    let client: IpAddr = Ipv4Addr::new(9, 9, 9, 9).into();
    for (l, b, who) in [
        (RateLimiters::new(s.rate_limit_per_ip, None, 10, s.rate_limit_prefix), limits(per, per_burst), "per network"),
        (RateLimiters::new(None, s.rate_limit_global, 10, s.rate_limit_prefix), limits(all, all_burst), "overall"),
    ] {
        if let (Some(l), Some(b)) = (l, b.filter(|b| *b <= 5000)) {
            for i in 0..=b {
                ensure_eq!(l.check(Some(client)).is_ok(), i < b, "{who}: request {i} of a burst of {b}");
            }
        }
    }
    // and networks are as wide as given
    let one = NonZeroU32::new(1).unwrap();
    let shares = |a: IpAddr, b: IpAddr| {
        let l = RateLimiters::new(Some(RateLimit::new(one, one)), None, 10, s.rate_limit_prefix).unwrap();
        l.check(Some(a)).is_ok() && l.check(Some(b)).is_err()
    };
    let (a4, a6) = (Ipv4Addr::new(10, 20, 30, 40), "2001:db8:1:2:3:4:5:6".parse::<Ipv6Addr>().unwrap());
    for bit in 0..32 {
        let other = Ipv4Addr::from(u32::from(a4) ^ (1 << bit));
        ensure_eq!(shares(a4.into(), other.into()), 32 - bit > v4.unwrap() as u32, "/{v4:?}: {a4} and {other} are one network");
    }
    for bit in 0..128 {
        let other = Ipv6Addr::from(u128::from(a6) ^ (1 << bit));
        ensure_eq!(shares(a6.into(), other.into()), 128 - bit > v6.unwrap() as u32, "/{v6:?}: {a6} and {other} are one network");
    }
    if !open {
        let got: Vec<_> = s.upstreams.iter().map(|u| (u.worker_id, u.rpc_url.clone(), u.readiness_url.clone())).collect();
        let want: Vec<_> = upstreams.iter().map(|(i, a, b)| (*i, url::Url::parse(a).unwrap(), url::Url::parse(b).unwrap())).collect();
        ensure_eq!(got, want, "upstreams");
    }
    Ok(())
}

fn prefixes(_: &mut G) -> R {
    for n in 0..=255u8 {
        ensure_eq!(PrefixLen::v4(n).is_ok(), n <= 32, "v4 /{n}");
        ensure_eq!(PrefixLen::v6(n).is_ok(), n <= 128, "v6 /{n}");
    }
    Ok(())
}

pub fn check(c: &mut Check) {
    c.fixed("prefixes", prefixes);
    c.sub("replies", Budget::new(150_000, 25).thorough(10_000_000, 300), replies);
    c.sub("metrics", Budget::new(20_000, 10).thorough(1_000_000, 60), counts);
    c.sub("limits", Budget::new(60_000, 25).thorough(5_000_000, 300), limits);
    c.sub("settings", Budget::new(40_000, 30).thorough(2_000_000, 300), settings);
    traffic::check(c);
    c.assume("requests and replies travel over loopback TCP through hyper, axum and reqwest as the gateway uses them");
    c.assume("a network is admitted unmetered while the table of networks is full, as documented");
}
