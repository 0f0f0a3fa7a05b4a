//! The endpoint that serves the metrics.

use std::{
    io::{Read, Write},
    net::TcpStream,
    sync::{
        atomic::{AtomicU64, Ordering},
        Arc,
    },
    time::Duration,
};
use tn_metrics::{start_metrics_server, MetricsHooks};
use vcore::{ensure, ensure_eq, Budget, Check, G, R};

/// Every scrape is complete, after the hooks ran, whatever the client sends and whoever else is connected.
fn scrape(g: &mut G) -> R {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().map_err(|e| e.to_string())?;
    let calls = Arc::new(AtomicU64::new(0));
    let hooks = g.urange(1, 3) as u64;
    let addr = rt.block_on(async {
        let tm = tn_types::TaskManager::new("verif");
        let mut h = MetricsHooks::empty();
        for _ in 0..hooks {
            let c = calls.clone();
            h = h.with_hook(move || {
                c.fetch_add(1, Ordering::SeqCst);
                metrics::gauge!("tn_sampled").set(c.load(Ordering::SeqCst) as f64);
            });
        }
        let r = start_metrics_server("127.0.0.1:0".parse().expect("address"), &tm.get_spawner(), "v-test", h).await;
        std::mem::forget(tm);
        r
    });
    let addr = addr.map_err(|e| e.to_string())?;
    for i in 0..g.urange(1, 4) {
        let mut s = TcpStream::connect(addr).map_err(|e| e.to_string())?;
        s.set_read_timeout(Some(Duration::from_secs(20))).map_err(|e| e.to_string())?;
        let reqs: [&[u8]; 4] = [b"GET /metrics HTTP/1.1\r\nHost: x\r\n\r\n", b"GET / HTTP/1.0\r\n\r\n", b"\n", b"\xff\xfe\0"];
        let req = *g.pick(&reqs);
        if g.chance(1, 5) {
            // a client that goes away does no harm
            drop(TcpStream::connect(addr));
        }
        s.write_all(req).map_err(|e| e.to_string())?;
        let mut all = vec![];
        s.read_to_end(&mut all).map_err(|e| format!("scrape {i}: {e}"))?;
        let text = String::from_utf8(all).map_err(|e| e.to_string())?;
        let (head, body) = text.split_once("\r\n\r\n").ok_or("no header")?;
        ensure!(head.starts_with("HTTP/1.1 200 OK\r\n"), "{head}");
        let len = head.lines().find_map(|l| l.strip_prefix("Content-Length: ")).ok_or("no length")?;
        ensure_eq!(len, body.len().to_string(), "announced and sent length");
        ensure!(body.lines().any(|l| l == "tn_info{version=\"v-test\"} 1"), "version");
        let n: f64 = body.lines().find_map(|l| l.strip_prefix("tn_sampled ")).ok_or("no sample")?.parse().map_err(|e| format!("{e}"))?;
        ensure!(n >= hooks as f64, "served before the hooks ran: {n}");
        ensure!(calls.load(Ordering::SeqCst) >= (i as u64 + 1) * hooks, "hooks were not run for every scrape");
    }
    g.nontrivial();
    rt.shutdown_background();
    Ok(())
}

pub fn check(c: &mut Check) {
    // one node per process: the sampled value is shared
    c.sub("scrape", Budget::new(40, 15).threads(1).thorough(400, 120), scrape);
}
