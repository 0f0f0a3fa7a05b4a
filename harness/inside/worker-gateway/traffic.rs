//! The whole gateway over loopback: fake upstreams that report readiness and answer, clients that send anything.

use super::{body, errors, expected_id, json, json::J, well_formed, Id};
use crate::{app, cli::Cli};
use clap::Parser;
use std::{
    collections::{BTreeMap, HashMap},
    net::{IpAddr, Ipv4Addr, SocketAddr},
    sync::{
        atomic::{AtomicU32, AtomicU64, Ordering},
        Arc, Mutex,
    },
    time::{Duration, Instant},
};
use tokio::{
    io::{AsyncReadExt, AsyncWriteExt},
    net::{TcpListener, TcpSocket, TcpStream},
};
use vcore::{clip, ensure, ensure_eq, Budget, Check, Scratch, G, R};

/// A loopback address nobody else in this process uses.
fn own_ip() -> Ipv4Addr {
    static N: AtomicU32 = AtomicU32::new(0);
    let n = N.fetch_add(1, Ordering::Relaxed) % 0x00fe_ff00;
    Ipv4Addr::from(0x7f01_0001 + n)
}

#[derive(Clone, Debug, Default)]
struct Msg {
    /// first line
    line: String,
    headers: Vec<(String, String)>,
    body: Vec<u8>,
}

impl Msg {
    fn header(&self, k: &str) -> Option<&str> {
        self.headers.iter().find(|(n, _)| n == k).map(|(_, v)| v.as_str())
    }
}

/// Reads one HTTP/1.1 message.
async fn read_msg(s: &mut TcpStream) -> Result<Msg, String> {
    let mut buf = vec![];
    let e = |e: std::io::Error| e.to_string();
    let end = loop {
        if let Some(i) = buf.windows(4).position(|w| w == b"\r\n\r\n") {
            break i;
        }
        if s.read_buf(&mut buf).await.map_err(e)? == 0 {
            return Err(format!("closed after {} bytes of the head", buf.len()));
        }
    };
    let head = String::from_utf8_lossy(&buf[..end]).to_string();
    let mut lines = head.split("\r\n");
    let mut m = Msg { line: lines.next().unwrap_or("").into(), ..Default::default() };
    for l in lines {
        let (k, v) = l.split_once(':').ok_or("header line")?;
        m.headers.push((k.trim().to_ascii_lowercase(), v.trim().into()));
    }
    let mut rest = buf.split_off(end + 4);
    if m.header("transfer-encoding").is_some_and(|t| t.contains("chunked")) {
        loop {
            let i = loop {
                if let Some(i) = rest.windows(2).position(|w| w == b"\r\n") {
                    break i;
                }
                if s.read_buf(&mut rest).await.map_err(e)? == 0 {
                    return Err("closed within a chunk's head".into());
                }
            };
            let n = usize::from_str_radix(String::from_utf8_lossy(&rest[..i]).split(';').next().unwrap().trim(), 16)
                .map_err(|e| e.to_string())?;
            while rest.len() < i + 2 + n + 2 {
                if s.read_buf(&mut rest).await.map_err(e)? == 0 {
                    return Err("closed within a chunk".into());
                }
            }
            m.body.extend_from_slice(&rest[i + 2..i + 2 + n]);
            rest.drain(..i + 2 + n + 2);
            if n == 0 {
                return Ok(m);
            }
        }
    }
    match m.header("content-length").map(|n| n.parse::<usize>()) {
        Some(Ok(n)) => {
            while rest.len() < n {
                if s.read_buf(&mut rest).await.map_err(e)? == 0 {
                    return Err(format!("closed after {} of {n} bytes of the body", rest.len()));
                }
            }
            rest.truncate(n);
        }
        Some(Err(e)) => return Err(e.to_string()),
        None if m.line.starts_with("HTTP/") => {
            s.read_to_end(&mut rest).await.map_err(e)?;
        }
        None => rest.clear(),
    }
    m.body = rest;
    Ok(m)
}

#[derive(Clone, Debug, Default)]
struct Answer {
    status: u16,
    headers: Vec<(String, String)>,
    body: Vec<u8>,
    chunked: bool,
    delay: Duration,
    /// close without answering
    drop: bool,
}

/// The body has to be sent, so the answer's bytes.
fn encode(a: &Answer) -> Vec<u8> {
    let mut o = format!("HTTP/1.1 {} X\r\nconnection: close\r\n", a.status).into_bytes();
    for (k, v) in &a.headers {
        o.extend(format!("{k}: {v}\r\n").bytes());
    }
    if matches!(a.status, 204 | 304) {
        o.extend(b"\r\n");
    } else if a.chunked {
        o.extend(b"transfer-encoding: chunked\r\n\r\n");
        for c in a.body.chunks(7) {
            o.extend(format!("{:x}\r\n", c.len()).bytes());
            o.extend(c);
            o.extend(b"\r\n");
        }
        o.extend(b"0\r\n\r\n");
    } else {
        o.extend(format!("content-length: {}\r\n\r\n", a.body.len()).bytes());
        o.extend(&a.body);
    }
    o
}

struct Upstream {
    /// what the readiness endpoint answers
    ready: Mutex<Answer>,
    polls_begun: AtomicU64,
    reply: Mutex<Answer>,
    got: Mutex<Vec<Msg>>,
}

async fn serve_upstream(l: TcpListener, u: Arc<Upstream>, rpc: bool) {
    loop {
        let Ok((mut s, _)) = l.accept().await else { continue };
        let u = u.clone();
        tokio::spawn(async move {
            let Ok(m) = read_msg(&mut s).await else { return };
            let a = if rpc {
                u.got.lock().unwrap().push(m);
                u.reply.lock().unwrap().clone()
            } else {
                // the answer is fixed before the poll counts as begun
                let a = u.ready.lock().unwrap().clone();
                u.polls_begun.fetch_add(1, Ordering::SeqCst);
                a
            };
            tokio::time::sleep(a.delay).await;
            if !a.drop {
                let _ = s.write_all(&encode(&a)).await;
                let _ = s.shutdown().await;
            }
        });
    }
}

/// A readiness report and whether it says that this worker takes transactions; None: left open.
fn report(g: &mut G, worker: u16) -> (Answer, Option<bool>) {
    let mut a = Answer { status: 200, headers: vec![("content-type".into(), "application/json".into())], ..Default::default() };
    let other = worker ^ 1;
    let accepting = g.chance(3, 4);
    let mut want = Some(accepting);
    let mut workers = vec![format!("{{\"worker_id\":{worker},\"accepting_transactions\":{accepting}}}")];
    if g.bool() {
        workers.push(format!("{{\"worker_id\":{other},\"accepting_transactions\":{}}}", g.bool()));
    }
    g.shuffle(&mut workers);
    let version = if g.chance(1, 6) { 2 } else { 1 };
    let mut text = format!("{{\"version\":{version},\"workers\":[{}]}}", workers.join(","));
    match g.below(24) {
        0 => {
            text = format!("{{\"version\":1,\"workers\":[{{\"worker_id\":{other},\"accepting_transactions\":true}}]}}");
            want = Some(false);
        }
        1 => {
            text = "{\"version\":1,\"workers\":[]}".into();
            want = Some(false);
        }
        2 => {
            a.status = *g.pick(&[500, 503, 404, 401]);
            want = Some(false);
        }
        3 => {
            text.truncate(g.usize(text.len()));
            want = Some(false);
        }
        4 => {
            text = (*g.pick(&["", "null", "true", "[]", "ready", "{\"ready\":true}", "{\"version\":1}"])).into();
            want = Some(false);
        }
        5 => {
            text = text.replace(":true", ":\"true\"").replace(":false", ":1");
            want = Some(false);
        }
        6 => {
            a.drop = true;
            want = Some(false);
        }
        7 => a.chunked = true,
        8 => text = text.replacen('{', "{\"more\":[{\"worker_id\":0,\"accepting_transactions\":true}],", 1),
        _ => {}
    }
    a.body = text.into_bytes();
    (a, want)
}

fn reply(g: &mut G, token: u64, elsewhere: &str) -> Answer {
    let mut a = Answer { status: 200, ..Default::default() };
    a.body = format!("{{\"jsonrpc\":\"2.0\",\"result\":\"{token}\",\"id\":1}}").into_bytes();
    if g.chance(1, 3) {
        a.status = *g.pick(&[200, 201, 400, 401, 404, 413, 429, 500, 502, 503, 504, 508, 301, 302, 303, 307, 308, 304, 204]);
    }
    if (300..400).contains(&a.status) && g.chance(2, 3) {
        a.headers.push(("location".into(), elsewhere.into()));
    }
    match g.below(4) {
        0 => {}
        1 => a.headers.push(("content-type".into(), "text/plain; charset=utf-8".into())),
        _ => a.headers.push(("content-type".into(), "application/json".into())),
    }
    match g.below(6) {
        0 => a.body = vec![],
        1 => a.body = g.blob(300),
        2 => {
            let n = g.usize(100_000);
            a.body.resize(n, b'z');
        }
        _ => {}
    }
    if matches!(a.status, 204 | 304) {
        a.body = vec![];
    }
    a.chunked = g.bool();
    a
}

/// A raw transaction and what the gateway has to make of it.
fn raw_tx(g: &mut G) -> (Vec<u8>, Option<i64>) {
    use alloy_parts::*;
    let sig = Signature::new(U256::from(g.num() | 1), U256::from(g.num() | 1), g.bool());
    let to = Address::repeat_byte(g.u8());
    let tx: PooledTransaction = match g.below(5) {
        0 => TxLegacy { nonce: g.num(), gas_price: g.num() as u128, gas_limit: g.num(), to: to.into(), ..Default::default() }.into_signed(sig).into(),
        1 => TxEip2930 { chain_id: 1, nonce: g.num(), gas_limit: g.num(), to: to.into(), ..Default::default() }.into_signed(sig).into(),
        2 => TxEip1559 { chain_id: 1, nonce: g.num(), gas_limit: g.num(), to: to.into(), ..Default::default() }.into_signed(sig).into(),
        3 => TxEip7702 { chain_id: 1, nonce: g.num(), gas_limit: g.num(), to, ..Default::default() }.into_signed(sig).into(),
        _ => TxEip4844WithSidecar {
            tx: TxEip4844 { chain_id: 1, nonce: g.num(), gas_limit: g.num(), to, blob_versioned_hashes: vec![], ..Default::default() },
            sidecar: BlobTransactionSidecarVariant::Eip4844(BlobTransactionSidecar::default()),
        }
        .into_signed(sig)
        .into(),
    };
    let bytes = tx.encoded_2718();
    let kind = tx.tx_type() as u8;
    (bytes, if kind <= 2 { None } else { Some(-32008) })
}

mod alloy_parts {
    pub use alloy::{
        consensus::{
            BlobTransactionSidecar, EthereumTxEnvelope, SignableTransaction, TxEip1559, TxEip2930, TxEip4844, TxEip4844WithSidecar,
            TxEip7702, TxLegacy,
        },
        eips::{eip2718::Encodable2718, eip7594::BlobTransactionSidecarVariant},
        primitives::{Address, Signature, U256},
    };
    pub use tn_types::PooledTransaction;
}

/// A request's body and, when the gateway has to refuse its transaction, the code.
fn request_body(g: &mut G) -> (Vec<u8>, Option<i64>) {
    if g.chance(2, 3) {
        let b = body(g);
        // what random bodies say about transactions is left to the reference reader
        let code = match json::parse(&b) {
            Some((j, _)) if j.get("method").and_then(J::str) == Some("eth_sendRawTransaction") => Some(i64::MIN),
            _ => None,
        };
        return (b, code);
    }
    let (bytes, mut code) = raw_tx(g);
    let mut h: String = bytes.iter().map(|b| format!("{b:02x}")).collect();
    match g.below(6) {
        0 => {
            h.truncate(g.usize(h.len()));
            code = Some(-32007);
        }
        1 => {
            let i = g.usize(h.len());
            h.replace_range(i..i + 1, "g");
            code = Some(-32007);
        }
        _ => {}
    }
    let mut params = format!("[\"{}{h}\"]", g.pick(&["0x", "0x", "0X", ""]));
    let mut method = "eth_sendRawTransaction";
    match g.below(10) {
        0 => {
            method = *g.pick(&["eth_sendRawTransactionSync", "eth_call", "eth_sendrawtransaction"]);
            code = None;
        }
        1 => {
            params = (*g.pick(&["[]", "{}", "[5]", "[[\"0x00\"]]", "{\"0\":\"0x00\"}", "null", "\"0x00\""])).into();
            code = None;
        }
        2 => params = params.replace(']', ",\"more\"]"),
        _ => {}
    }
    let id = match g.below(5) {
        0 => "".into(),
        1 => "\"id\":\"a\\u0041\"".to_string(),
        2 => "\"id\":null".into(),
        3 => "\"id\":[1]".into(),
        _ => format!("\"id\":{}", g.num()),
    };
    let mut m = vec![format!("\"method\":\"{method}\""), format!("\"params\":{params}"), "\"jsonrpc\":\"2.0\"".into()];
    if !id.is_empty() {
        m.push(id);
    }
    g.shuffle(&mut m);
    let mut b = format!("{{{}}}", m.join(","));
    if g.chance(1, 8) {
        b = format!("[{b}]");
        code = None;
    }
    if g.chance(1, 10) {
        b.push_str("]");
        code = None;
    }
    (b.into_bytes(), code)
}

struct Model {
    rate: Option<(f64, f64)>,
    lo: HashMap<u32, f64>,
    hi: HashMap<u32, f64>,
    last: HashMap<u32, (Instant, Instant)>,
}

impl Model {
    /// Some(true): certainly admitted; Some(false): certainly refused.
    fn verdict(&mut self, net: u32, sent: Instant, got: Instant) -> Option<bool> {
        let (r, cap) = self.rate?;
        let (lo, hi) = (self.lo.entry(net).or_insert(cap), self.hi.entry(net).or_insert(cap));
        if let Some((s, e)) = self.last.insert(net, (sent, got)) {
            *lo = cap.min(*lo + r * sent.saturating_duration_since(e).as_secs_f64());
            *hi = cap.min(*hi + r * got.saturating_duration_since(s).as_secs_f64());
        }
        if *lo >= 1.001 || *lo == cap && cap >= 1.0 {
            Some(true)
        } else if *hi < 0.999 {
            Some(false)
        } else {
            None
        }
    }
    fn happened(&mut self, net: u32, admitted: bool) {
        if self.rate.is_none() {
            return;
        }
        let (lo, hi) = (self.lo.get_mut(&net).unwrap(), self.hi.get_mut(&net).unwrap());
        if admitted {
            *lo = (*lo - 1.0).max(0.0);
            *hi = (*hi - 1.0).max(0.0);
        } else {
            *lo = lo.min(1.0);
            *hi = hi.min(1.0);
        }
    }
}

fn case(g: &mut G) -> R {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().map_err(|e| e.to_string())?;
    let r = rt.block_on(run(g));
    rt.shutdown_background();
    r
}

async fn run(g: &mut G) -> R {
    let e = |e: std::io::Error| e.to_string();
    // upstreams
    let n = g.urange(1, 4);
    let mut ups = vec![];
    let mut urls = vec![];
    let mut reachable = vec![];
    for i in 0..n {
        let u = Arc::new(Upstream {
            ready: Mutex::new(Answer { status: 503, ..Default::default() }),
            polls_begun: AtomicU64::new(0),
            reply: Mutex::new(Answer { status: 200, ..Default::default() }),
            got: Mutex::default(),
        });
        let ip = own_ip();
        let l = TcpListener::bind((ip, 0)).await.map_err(e)?;
        let ready_url = format!("http://{}/health/workers", l.local_addr().map_err(e)?);
        tokio::spawn(serve_upstream(l, u.clone(), false));
        let up = !g.chance(1, 8);
        let path = *g.pick(&["/", "/rpc", "/rpc?x=1"]);
        let rpc = if up {
            let l = TcpListener::bind((ip, 0)).await.map_err(e)?;
            let a = l.local_addr().map_err(e)?;
            tokio::spawn(serve_upstream(l, u.clone(), true));
            a
        } else {
            SocketAddr::from((own_ip(), 9))
        };
        ups.push(u);
        reachable.push(up);
        let id = if g.chance(1, 5) { 0 } else { i as u16 };
        urls.push((id, format!("http://{rpc}{path}"), ready_url, path));
    }
    // the gateway
    let ip = own_ip();
    let probe = std::net::TcpListener::bind((ip, 0)).map_err(e)?;
    let listen = probe.local_addr().map_err(e)?;
    drop(probe);
    let slow = g.chance(1, 12);
    let limited = g.chance(1, 3);
    let (burst, prefix) = (1 + g.below(5) as u32, *g.pick(&[32u8, 30, 24, 0]));
    let overall = limited && g.chance(1, 4);
    let max_body = *g.pick(&[25_000_000usize, 25_000_000, 400, 100]);
    let scratch = Scratch::new();
    let mut args: Vec<String> = ["worker-gateway", "--readiness-poll-interval=5ms", "--readiness-poll-timeout=20s", "--upstream-connect-timeout=20s"]
        .map(String::from)
        .into();
    args.push(format!("--listen-addr={listen}"));
    args.push(format!("--upstream-request-timeout={}", if slow { "600ms" } else { "30s" }));
    args.push("--header-read-timeout=15s".into());
    args.push(format!("--max-request-bytes={max_body}"));
    args.push(format!("--rate-limit-per-ip={}", (limited && !overall) as u32));
    args.push(format!("--rate-limit-per-ip-burst={burst}"));
    args.push(format!("--rate-limit-per-ip-v4-prefix={prefix}"));
    args.push(format!("--rate-limit-global={}", overall as u32));
    args.push(format!("--rate-limit-global-burst={burst}"));
    if n == 1 && g.bool() {
        args.push(format!("--worker-id={}", urls[0].0));
        args.push(format!("--upstream-rpc-url={}", urls[0].1));
        args.push(format!("--upstream-readiness-url={}", urls[0].2));
    } else {
        let path = scratch.sub("g.yaml");
        let mut y = "upstreams:\n".to_string();
        for (id, a, b, _) in &urls {
            y += &format!("  - worker_id: {id}\n    rpc_url: {a:?}\n    readiness_url: {b:?}\n");
        }
        std::fs::write(&path, y).map_err(e)?;
        args.push(format!("--config={}", path.display()));
    }
    g.note(|| args.join(" "));
    let settings = Cli::try_parse_from(&args).map_err(|e| e.to_string())?.into_settings().map_err(|e| e.to_string())?;
    let gateway = tokio::spawn(app::run(settings));
    let started = Instant::now();
    loop {
        if TcpStream::connect(listen).await.is_ok() {
            break;
        }
        if gateway.is_finished() {
            return Err(format!("the gateway ended: {:?}", gateway.await));
        }
        ensure!(started.elapsed() < Duration::from_secs(60), "the gateway does not listen");
        tokio::time::sleep(Duration::from_millis(2)).await;
    }

    let mut ready = vec![Some(false); n];
    let client_base = u32::from(own_ip());
    for _ in 0..40 {
        own_ip();
    }
    let mut model = Model { rate: limited.then_some((1.0, burst as f64)), lo: HashMap::new(), hi: HashMap::new(), last: HashMap::new() };
    let codes: BTreeMap<i64, u16> = errors().iter().map(|x| (x.2, x.1)).collect();
    let mut token = g.num();
    let (mut forwarded, mut refused) = (0, 0);
    // nothing has reported itself ready so far
    let steps = g.urange(2, 14);
    for step in 0..steps {
        if g.chance(1, 4) || step == 1 {
            let i = g.usize(n);
            let (a, want) = report(g, urls[i].0);
            g.note(|| format!("upstream {i} reports {:?} {} -> {want:?}", a.status, String::from_utf8_lossy(&a.body)));
            *ups[i].ready.lock().unwrap() = a;
            ready[i] = want;
            // the second poll begun from here on comes after the first one's result was taken
            for u in &ups {
                let from = u.polls_begun.load(Ordering::SeqCst);
                let t = Instant::now();
                while u.polls_begun.load(Ordering::SeqCst) < from + 3 {
                    ensure!(t.elapsed() < Duration::from_secs(60), "the gateway stopped asking for readiness");
                    ensure!(!gateway.is_finished(), "the gateway ended");
                    tokio::time::sleep(Duration::from_millis(1)).await;
                }
            }
            continue;
        }
        token = token.wrapping_add(1);
        let elsewhere = urls[g.usize(n)].1.clone();
        let mut a = reply(g, token, &elsewhere);
        let late = slow && g.chance(1, 2);
        if late {
            a.delay = Duration::from_secs(40);
        } else if g.chance(1, 16) {
            a.drop = true;
        }
        for u in &ups {
            *u.reply.lock().unwrap() = a.clone();
            u.got.lock().unwrap().clear();
        }
        // the request
        let (mut b, mut screened) = request_body(g);
        let probe = g.weighted(&[14, 1, 1]);
        let hop = g.chance(1, 12);
        let method = if probe > 0 { "GET" } else { *g.pick(&["POST", "POST", "POST", "POST", "PUT", "GET", "DELETE", "OPTIONS", "PATCH"]) };
        let path = match probe {
            1 => "/health",
            2 => "/ready",
            _ => *g.pick(&["/", "/", "/x/y?z=1", "/healthz", "/health/", "/ready/x"]),
        };
        if probe > 0 {
            b.clear();
            screened = None;
        }
        let xff = if g.chance(1, 4) { Some(*g.pick(&["1.2.3.4", "1.2.3.4, 5.6.7.8", "unknown"])) } else { None };
        let ctype = if g.chance(1, 2) { Some(*g.pick(&["application/json", "text/plain"])) } else { None };
        let from = Ipv4Addr::from(client_base + g.below(8) as u32);
        let mut q = format!("{method} {path} HTTP/1.1\r\nhost: gateway\r\nconnection: close\r\n");
        if let Some(x) = xff {
            q += &format!("x-forwarded-for: {x}\r\n");
        }
        if let Some(c) = ctype {
            q += &format!("content-type: {c}\r\n");
        }
        if hop {
            q += "X-TN-Gateway: 1\r\n";
        }
        let chunked = g.chance(1, 4) && !b.is_empty();
        let mut q = q.into_bytes();
        if chunked {
            q.extend(b"transfer-encoding: chunked\r\n\r\n");
            let k = 1 + g.usize(b.len());
            for c in b.chunks(k) {
                q.extend(format!("{:x}\r\n", c.len()).bytes());
                q.extend(c);
                q.extend(b"\r\n");
            }
            q.extend(b"0\r\n\r\n");
        } else {
            q.extend(format!("content-length: {}\r\n\r\n", b.len()).bytes());
            q.extend(&b);
        }
        g.note(|| format!("{method} {path} from {from}, hop {hop}, late {late}, body {}", clip(&String::from_utf8_lossy(&b), 300)));
        let sock = TcpSocket::new_v4().map_err(e)?;
        sock.bind(SocketAddr::from((from, 0))).map_err(e)?;
        let mut s = sock.connect(listen).await.map_err(e)?;
        let sent = Instant::now();
        let cut = g.usize(q.len() + 1);
        s.write_all(&q[..cut]).await.map_err(e)?;
        if g.chance(1, 10) {
            tokio::time::sleep(Duration::from_millis(3)).await;
        }
        let _ = s.write_all(&q[cut..]).await;
        let m = match tokio::time::timeout(Duration::from_secs(60), read_msg(&mut s)).await {
            Ok(Ok(m)) => m,
            Ok(Err(e)) => return Err(format!("no reply: {e}")),
            Err(_) => return Err("no reply within a minute".into()),
        };
        let got = Instant::now();
        let status: u16 = m.line.split(' ').nth(1).and_then(|s| s.parse().ok()).ok_or("status line")?;
        g.note(|| format!("  -> {} {}", m.line, clip(&String::from_utf8_lossy(&m.body), 200)));
        let seen: Vec<(usize, Msg)> =
            ups.iter().enumerate().flat_map(|(i, u)| u.got.lock().unwrap().iter().map(|m| (i, m.clone())).collect::<Vec<_>>()).collect();

        // probes are never limited
        if probe > 0 {
            ensure!(seen.is_empty(), "a probe was forwarded");
            if probe == 1 {
                ensure_eq!(status, 200, "health");
            } else if ready.iter().all(Option::is_some) {
                let any = ready.contains(&Some(true));
                ensure_eq!(status, if any { 200 } else { 503 }, "ready");
                ensure!(
                    matches!(json::parse(&m.body), Some((j, _)) if matches!(j.get("ready"), Some(J::Bool(b)) if *b == any)),
                    "readiness {}",
                    String::from_utf8_lossy(&m.body)
                );
            }
            continue;
        }
        // refused for its network?
        let net = if overall || prefix == 0 { 0 } else { u32::from(from) >> (32 - prefix) };
        let verdict = if limited { model.verdict(net, sent, got) } else { Some(true) };
        let is_limited = status == 429 && seen.is_empty();
        match verdict {
            Some(true) => ensure!(!is_limited, "refused although the network has an allowance left"),
            Some(false) => ensure!(is_limited, "admitted although the allowance of {net:x} is used up: {}", m.line),
            None => {}
        }
        model.happened(net, !is_limited);
        let refusal = |code: i64, id: &Id| -> R {
            ensure!(seen.is_empty() || matches!(code, -32001 | -32002), "refused with {code} but forwarded");
            ensure_eq!(status, codes[&code], "status for {code}: {}", clip(&String::from_utf8_lossy(&m.body), 200));
            ensure_eq!(m.header("content-type"), Some("application/json"), "content type of an error");
            well_formed(&m.body, code, id)
        };
        let unread = Id::Maybe(match expected_id(&b) {
            Id::Is(j) | Id::Maybe(j) => j,
        });
        let id = expected_id(&b);
        if is_limited {
            refused += 1;
            refusal(-32006, &unread)?;
            continue;
        }
        if b.len() > max_body {
            refused += 1;
            refusal(-32003, &unread)?;
            continue;
        }
        if hop {
            refused += 1;
            refusal(-32004, &id)?;
            continue;
        }
        match screened {
            Some(i64::MIN) if status == 400 && seen.is_empty() => {
                let code = json::parse(&m.body).and_then(|(j, _)| match j.get("error")?.get("code")? {
                    J::Num(n) => n.parse().ok(),
                    _ => None,
                });
                ensure!(matches!(code, Some(-32007 | -32008)), "{}", String::from_utf8_lossy(&m.body));
                refusal(code.unwrap(), &id)?;
                continue;
            }
            Some(i64::MIN) | None => {}
            Some(code) => {
                refused += 1;
                refusal(code, &id)?;
                continue;
            }
        }
        if ready.iter().any(Option::is_none) {
            continue;
        }
        let Some(i) = ready.iter().position(|r| *r == Some(true)) else {
            refused += 1;
            refusal(-32000, &id)?;
            continue;
        };
        if !reachable[i] {
            refused += 1;
            ensure!(seen.is_empty(), "forwarded to another upstream");
            refusal(-32001, &id)?;
            continue;
        }
        ensure!(seen.len() == 1 && seen[0].0 == i, "forwarded to {:?}, the first ready one is {i}", seen.iter().map(|s| s.0).collect::<Vec<_>>());
        if a.drop {
            refusal(-32001, &id)?;
            continue;
        }
        if late || (slow && status == 504 && a.status != 504) {
            refusal(-32002, &id)?;
            continue;
        }
        let f = &seen[0].1;
        ensure_eq!(f.line, format!("{method} {} HTTP/1.1", urls[i].3), "request line");
        ensure!(f.body == b, "the body forwarded differs: {}", clip(&String::from_utf8_lossy(&f.body), 300));
        ensure_eq!(f.header("content-type"), Some(ctype.unwrap_or("application/json")), "content type forwarded");
        ensure!(f.header("x-tn-gateway").is_some(), "the hop is not marked");
        let chain = xff.map_or(from.to_string(), |x| format!("{x}, {from}"));
        ensure_eq!(f.header("x-forwarded-for"), Some(chain.as_str()), "client chain");
        ensure_eq!(status, a.status, "status returned");
        ensure!(m.body == a.body, "the reply differs: {} bytes for {}", m.body.len(), a.body.len());
        let ct = a.headers.iter().find(|h| h.0 == "content-type").map(|h| h.1.as_str());
        ensure_eq!(m.header("content-type"), ct, "content type returned");
        forwarded += 1;
    }
    ensure!(!gateway.is_finished(), "the gateway ended");
    g.nontrivial_if(forwarded + refused > 0);
    if forwarded > 0 {
        g.class("forwarded");
    }
    if refused > 0 {
        g.class("refused");
    }
    Ok(())
}

pub fn check(c: &mut Check) {
    let _ = IpAddr::V4(Ipv4Addr::LOCALHOST);
    c.sub("traffic", Budget::new(1500, 60).thorough(50_000, 500), case);
}
