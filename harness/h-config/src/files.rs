//! Settings on disk: what was written is what is read.

use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::{collections::BTreeMap, fmt::Debug, fs, time::Duration};
use tn_config::*;
use tn_types::*;
use vcore::{ensure, ensure_eq, Budget, Check, Scratch, G, R};
use vgen::*;

pub fn duration(g: &mut G) -> Duration {
    let s = match g.below(4) {
        0 => 0,
        1 => g.below(100),
        2 => g.below(400 * 24 * 3600),
        _ => g.below(1 << 40),
    };
    let n = match g.below(4) {
        0 => 0,
        1 => g.below(1000) * 1_000_000,
        2 => g.below(1_000_000) * 1000,
        _ => g.below(1_000_000_000),
    };
    Duration::new(s, n as u32)
}

/// Values a person would write: few digits, which serde_json's default parser keeps exactly.
pub fn float(g: &mut G) -> f64 {
    match g.below(5) {
        0 => 0.0,
        1 => g.below(200) as f64 - 100.0,
        2 => (g.below(2_000_000) as f64 - 1e6) / 1000.0,
        3 => (g.below(1 << 30) as f64 - 1e8) / 64.0,
        _ => 1.0 / (1u64 << g.below(12)) as f64,
    }
}

/// Text that a careless writer of YAML gets wrong.
pub fn awkward(g: &mut G) -> String {
    const S: [&str; 24] = [
        "", "yes", "no", "~", "null", "true", "1", "1e3", "0x10", "-", "- a", "a: b", "#", "a #b", "'", "\"", "{", "[x", "&a", "*a", "!t", "|", ">\n",
        "node\ttwo\r\n three ",
    ];
    match g.below(3) {
        0 => g.pick(&S).to_string(),
        1 => (0..g.urange(1, 12)).map(|_| *g.pick(&['a', ' ', ':', '\n', '"', '\'', '\\', 'é', '\u{1F600}', '#', '\t', '\0', '\u{85}', '\u{2028}', '.'])).collect(),
        _ => (0..g.urange(1, 40)).map(|_| (b'a' + g.below(26) as u8) as char).collect(),
    }
}

pub fn score(g: &mut G) -> ScoreConfig {
    ScoreConfig {
        default_score: float(g),
        max_score: float(g),
        min_score: float(g),
        score_halflife: float(g),
        banned_before_decay_secs: g.num(),
        min_score_before_disconnect: float(g),
        min_score_before_ban: float(g),
    }
}

fn f32_(g: &mut G) -> f32 {
    g.below(3000) as f32 / 1000.0
}

pub fn peer_config(g: &mut G) -> PeerConfig {
    PeerConfig {
        heartbeat_interval: g.num(),
        target_num_peers: g.num32() as usize,
        dial_timeout: duration(g),
        peer_excess_factor: f32_(g),
        priority_peer_excess: f32_(g),
        target_outbound_only_factor: f32_(g),
        min_outbound_only_factor: f32_(g),
        excess_peers_reconnection_timeout: duration(g),
        max_banned_peers: g.num() as usize,
        max_disconnected_peers: g.num() as usize,
        max_temporarily_banned_peers: g.num() as usize,
        score_config: score(g),
    }
}

fn libp2p_config(g: &mut G) -> LibP2pConfig {
    LibP2pConfig {
        max_rpc_message_size: g.num() as usize,
        max_idle_connection_timeout: duration(g),
        max_px_disconnects: g.num() as usize,
        px_disconnect_timeout: duration(g),
        k_bucket_size: std::num::NonZeroUsize::new(1 + g.num32() as usize).expect("positive"),
        kad_record_ttl: duration(g),
        kad_publication_interval: duration(g),
        chain_id: 0,
    }
}

fn sync_config(g: &mut G) -> SyncConfig {
    SyncConfig {
        max_skip_rounds_for_missing_certs: g.num() as usize,
        max_db_read_time_for_fetching_certificates: duration(g),
        max_diff_between_external_cert_round_and_highest_local_round: g.num32(),
        max_consenus_round_timeout: duration(g),
        max_proposed_header_age_limit: g.num32(),
        max_header_time_drift_tolerance: g.num(),
        max_num_missing_certs_within_gc_round: g.num() as usize,
        certificate_verification_round_interval: g.num32(),
        certificate_verification_chunk_size: g.num() as usize,
        consensus_header_catch_up_poll_interval: duration(g),
        consensus_header_catch_up_max_no_progress: g.num32(),
    }
}

fn quic_config(g: &mut G) -> QuicConfig {
    QuicConfig {
        handshake_timeout: duration(g),
        max_idle_timeout: g.num32(),
        keep_alive_interval: duration(g),
        max_concurrent_stream_limit: g.num32(),
        max_stream_data: g.num32(),
        max_connection_data: g.num32(),
    }
}

fn value(v: &impl Serialize) -> Value {
    serde_json::to_value(v).expect("serializes")
}

/// The settings of the network and what they were made of.
fn network(g: &mut G) -> Result<(NetworkConfig, Value), String> {
    let mut m = json!({
        "libp2p_config": value(&libp2p_config(g)),
        "sync_config": value(&sync_config(g)),
        "quic_config": value(&quic_config(g)),
        "peer_config": value(&peer_config(g)),
        "hostname": awkward(g),
    });
    // single-precision values are compared as such
    for k in ["peer_excess_factor", "priority_peer_excess", "target_outbound_only_factor", "min_outbound_only_factor"] {
        let v = m["peer_config"][k].as_f64().expect("number") as f32;
        m["peer_config"][k] = value(&v);
    }
    let c = serde_json::from_value(m.clone()).map_err(|e| format!("network settings: {e}"))?;
    Ok((c, m))
}

pub fn parameters(g: &mut G) -> Parameters {
    Parameters {
        header_num_of_batches_threshold: g.below(14) as usize,
        max_header_num_of_batches: g.below(14) as usize,
        max_header_delay: duration(g),
        min_header_delay: duration(g),
        gc_depth: if g.bool() { g.below(60) as u32 } else { g.num32() },
        sync_retry_delay: duration(g),
        sync_retry_nodes: g.num() as usize,
        max_batch_delay: duration(g),
        max_concurrent_requests: g.num() as usize,
        batch_vote_timeout: duration(g),
        basefee_address: address(g),
        parallel_fetch_request_delay_interval: duration(g),
        allow_private_forward_targets: g.bool(),
    }
}

fn p2p(g: &mut G) -> P2pNode {
    let k = keys()[g.usize(KEYS)].clone();
    let kc = KeyConfig::new_with_testing_key(k.0.copy());
    let addr = match g.below(4) {
        0 => format!("/ip4/{}.{}.0.1/udp/{}/quic-v1", g.below(256), g.below(256), g.below(65536)),
        1 => format!("/ip6/fe80::{:x}/udp/{}/quic-v1", g.below(65536), g.below(65536)),
        2 => "/dns4/node.example.com/udp/49590/quic-v1".into(),
        _ => format!("/ip4/127.0.0.1/tcp/{}", g.below(65536)),
    };
    P2pNode {
        network_address: addr.parse().expect("address"),
        network_key: if g.bool() { kc.primary_network_public_key() } else { kc.worker_network_public_key() },
        rpc: g.bool().then(|| RpcInfo {
            http: format!("https://v{}.example.com:{}/a?b=c%20d", g.below(10), g.below(65536)).parse().expect("url"),
            ws: g.bool().then(|| format!("wss://v{}.example.com/", g.below(10)).parse().expect("url")),
        }),
    }
}

fn node_info(g: &mut G) -> NodeInfo {
    let k = &keys()[g.usize(KEYS)];
    NodeInfo {
        name: awkward(g),
        bls_public_key: k.pk(),
        p2p_info: NodeP2pInfo { primary: p2p(g), worker: p2p(g) },
        execution_address: address(g),
        proof_of_possession: some_sig(g),
    }
}

fn u256(g: &mut G) -> U256 {
    match g.below(3) {
        0 => U256::from(g.num()),
        1 => U256::from_be_bytes(g.arr32()),
        _ => U256::from(10u64).pow(U256::from(g.below(60))),
    }
}

fn genesis(g: &mut G) -> Genesis {
    let mut x = test_genesis();
    if g.chance(1, 3) {
        return x;
    }
    x.nonce = g.num();
    x.timestamp = g.num();
    let n = g.usize(60);
    x.extra_data = g.bytes(n).into();
    x.gas_limit = g.num();
    x.difficulty = u256(g);
    x.coinbase = address(g);
    x.base_fee_per_gas = g.bool().then(|| g.num() as u128);
    x.config.chain_id = g.num();
    x.alloc.clear();
    for _ in 0..g.usize(5) {
        let n = g.usize(40);
        let code = g.bool().then(|| g.bytes(n).into());
        let storage = g.bool().then(|| (0..g.usize(4)).map(|_| (b256(g), b256(g))).collect());
        let a = GenesisAccount::default().with_nonce(g.bool().then(|| g.num())).with_balance(u256(g)).with_code(code).with_storage(storage);
        x.alloc.insert(address(g), a);
    }
    x
}

#[derive(Debug, Clone, PartialEq, serde::Serialize, serde::Deserialize, Default)]
struct Anything {
    a: u64,
    b: i64,
    c: f64,
    d: Option<String>,
    e: Vec<String>,
    f: BTreeMap<String, (bool, u8)>,
    g: Choice,
}
#[derive(Debug, Clone, PartialEq, serde::Serialize, serde::Deserialize, Default)]
enum Choice {
    #[default]
    One,
    Two(u32),
    Three {
        x: String,
    },
}

fn anything(g: &mut G) -> Anything {
    Anything {
        a: g.num(),
        b: g.num() as i64,
        c: float(g),
        d: g.bool().then(|| awkward(g)),
        e: g.vec(0, 6, 2, awkward),
        f: g.vec(0, 5, 2, |g| (awkward(g), (g.bool(), g.u8()))).into_iter().collect(),
        g: match g.below(3) {
            0 => Choice::One,
            1 => Choice::Two(g.num32()),
            _ => Choice::Three { x: awkward(g) },
        },
    }
}

fn fmt(yaml: bool) -> ConfigFmt {
    if yaml {
        ConfigFmt::YAML
    } else {
        ConfigFmt::JSON
    }
}

/// Write, overwrite, read back both ways, and read what is not there.
fn through<T: Serialize + DeserializeOwned + Default + Debug>(g: &mut G, what: &'static str, old: &T, new: &T) -> R {
    g.class(what);
    let s = Scratch::new();
    let yaml = g.bool();
    let path = s.sub("one/two").join(if yaml { "x.yaml" } else { "x.json" });
    let missing = Config::load_from_path::<T>(&path, fmt(yaml));
    ensure!(missing.is_err(), "{what}: read from a file that does not exist");
    ensure!(!path.exists(), "{what}: reading creates the file");
    for (i, v) in [old, new].into_iter().enumerate() {
        Config::write_to_path(&path, v, fmt(yaml)).map_err(|e| format!("{what}: write: {e}"))?;
        let a: T = Config::load_from_path(&path, fmt(yaml)).map_err(|e| format!("{what}: written and cannot be read: {e}"))?;
        ensure_eq!(value(&a), value(v), "{what}: read back after write {i}");
        let before = fs::read(&path).map_err(|e| e.to_string())?;
        let b: T = Config::load_from_path_or_default(&path, fmt(yaml)).map_err(|e| format!("{what}: {e}"))?;
        ensure_eq!(value(&b), value(v), "{what}: read back or default");
        ensure_eq!(fs::read(&path).map_err(|e| e.to_string())?, before, "{what}: reading changes the file");
    }
    // what is not there is created with the defaults
    let other = s.sub("three/four").join("y");
    let d: T = Config::load_from_path_or_default(&other, fmt(yaml)).map_err(|e| format!("{what}: default: {e}"))?;
    let e: T = Config::load_from_path(&other, fmt(yaml)).map_err(|e| format!("{what}: the default written cannot be read: {e}"))?;
    ensure_eq!(value(&d), value(&e), "{what}: the default that was returned is the one that was written");
    // damaged files are refused and left alone
    let text = fs::read(&path).map_err(|e| e.to_string())?;
    let mut bad = text.clone();
    if yaml {
        match g.below(3) {
            0 => bad = b"a: [".to_vec(),
            1 => bad.extend(b"\n  : : x\n\t- ]"),
            _ => bad.extend([0xff, 0xfe]),
        }
    } else {
        match g.below(3) {
            0 => bad.truncate(g.usize(text.len())),
            1 => bad.push(b'x'),
            _ => bad[0] = b'~',
        }
    }
    fs::write(&path, &bad).map_err(|e| e.to_string())?;
    for i in 0..2 {
        let r: eyre::Result<T> = if i == 0 { Config::load_from_path(&path, fmt(yaml)) } else { Config::load_from_path_or_default(&path, fmt(yaml)) };
        ensure!(r.is_err(), "{what}: a damaged file is read as {:?}", r.map(|v| value(&v)));
        ensure_eq!(fs::read(&path).map_err(|e| e.to_string())?, bad, "{what}: a damaged file is replaced");
    }
    Ok(())
}

fn round_trip(g: &mut G) -> R {
    g.nontrivial();
    match g.below(8) {
        0 | 1 => {
            let (a, _) = network(g)?;
            let (b, m) = network(g)?;
            ensure_eq!(value(b.sync_config()), m["sync_config"], "sync settings");
            ensure_eq!(value(b.libp2p_config()), m["libp2p_config"], "libp2p settings");
            ensure_eq!(value(b.quic_config()), m["quic_config"], "quic settings");
            ensure_eq!(value(b.peer_config()), m["peer_config"], "peer settings");
            ensure_eq!(b.hostname(), m["hostname"].as_str().unwrap_or("?"));
            through(g, "network", &a, &b)?;
            // where a node keeps it
            let s = Scratch::new();
            let dir = s.sub("node");
            let d = NetworkConfig::read_config(&dir).map_err(|e| e.to_string())?;
            ensure_eq!(value(&d), value(&NetworkConfig::default()), "settings of a new node");
            b.write_config(&dir).map_err(|e| e.to_string())?;
            let r = NetworkConfig::read_config(&dir).map_err(|e| e.to_string())?;
            ensure_eq!(value(&r), value(&b));
            let y = fs::read_to_string(dir.join("network-config")).map_err(|e| e.to_string())?;
            ensure_eq!(value(&serde_yaml::from_str::<NetworkConfig>(&y).map_err(|e| e.to_string())?), value(&b));
        }
        2 => {
            let (a, b) = (parameters(g), parameters(g));
            through(g, "parameters", &a, &b)?;
        }
        3 => {
            let (a, b) = (node_info(g), node_info(g));
            through(g, "node", &a, &b)?;
        }
        4 => {
            let (a, b) = (genesis(g), genesis(g));
            through(g, "genesis", &a, &b)?;
        }
        5 => {
            let (a, b) = (anything(g), anything(g));
            through(g, "any structure", &a, &b)?;
        }
        6 => {
            let (a, b) = (committee(g, 2, 9, 4), committee(g, 2, 9, 5));
            g.class("committee");
            let s = Scratch::new();
            let p = s.sub("committee.yaml");
            for v in [&a.committee, &b.committee] {
                Config::write_to_path(&p, v, ConfigFmt::YAML).map_err(|e| e.to_string())?;
                let r: Committee = Config::load_from_path(&p, ConfigFmt::YAML).map_err(|e| e.to_string())?;
                ensure_eq!(r.authorities(), v.authorities(), "members");
                ensure_eq!(r.epoch(), v.epoch());
            }
        }
        _ => node(g)?,
    }
    Ok(())
}

/// The settings of a whole node.
fn node(g: &mut G) -> R {
    g.class("whole node");
    let s = Scratch::new();
    let dir = s.sub("node");
    let (i, p, x) = (node_info(g), parameters(g), genesis(g));
    fs::create_dir_all(dir.join("genesis")).map_err(|e| e.to_string())?;
    ensure!(Config::load(&dir, false, "v").is_err(), "a node without settings is loaded");
    let y = |v: &str| v.to_string();
    let put = |name: &str, v: String| fs::write(dir.join(name), v).map_err(|e| e.to_string());
    put("node-info.yaml", serde_yaml::to_string(&i).map_err(|e| e.to_string())?)?;
    put("parameters.yaml", serde_yaml::to_string(&p).map_err(|e| e.to_string())?)?;
    put("genesis/genesis.yaml", serde_yaml::to_string(&x).map_err(|e| e.to_string())?)?;
    let observer = g.bool();
    for k in 0..2 {
        let c = if k == 0 { Config::load(&dir, observer, "v7") } else { Config::load_or_default(&dir, observer, "v7") }.map_err(|e| e.to_string())?;
        ensure_eq!(c.node_info, i, "node");
        ensure_eq!(c.parameters, p, "parameters");
        ensure_eq!(c.genesis, x, "genesis");
        ensure_eq!(c.genesis(), &x);
        ensure_eq!((c.observer, c.exex_critical, c.version), (observer, false, "v7"));
        ensure_eq!((c.execution_address(), c.primary_bls_key()), (&i.execution_address, &i.bls_public_key));
    }
    // the public networks' settings do not depend on what is lying around
    for k in 0..2 {
        let com = dir.join("genesis/committee.yaml");
        let _ = fs::remove_file(&com);
        let load = |o: bool| if k == 0 { Config::load_adiri(&dir, o, "v") } else { Config::load_mainnet(&dir, o, "v") };
        let c = load(observer).map_err(|e| e.to_string())?;
        let (ep, eg, ec) = if k == 0 { (TESTNET_PARAMETERS, TESTNET_GENESIS, TESTNET_COMMITTEE) } else { (MAINNET_PARAMETERS, MAINNET_GENESIS, MAINNET_COMMITTEE) };
        ensure_eq!(c.node_info, i, "node on a public network");
        ensure_eq!(c.parameters, serde_yaml::from_str::<Parameters>(ep).map_err(|e| e.to_string())?, "parameters of a public network");
        ensure_eq!(c.genesis, serde_yaml::from_str::<Genesis>(eg).map_err(|e| e.to_string())?, "genesis of a public network");
        ensure_eq!(c.observer, observer);
        ensure!(c.parameters.validate().is_ok() && c.parameters.validate_operational_floors().is_ok(), "the parameters of a public network are not valid");
        ensure_eq!(fs::read_to_string(&com).map_err(|e| e.to_string())?, y(ec), "committee of a public network");
        // an existing committee stays
        fs::write(&com, "mine").map_err(|e| e.to_string())?;
        load(observer).map_err(|e| e.to_string())?;
        ensure_eq!(fs::read_to_string(&com).map_err(|e| e.to_string())?, y("mine"), "an existing committee file is replaced");
    }
    Ok(())
}

/// Fields left out take their default, the others their value; ill-typed ones are refused.
fn partial(g: &mut G) -> R {
    g.nontrivial();
    fn check<T: Serialize + DeserializeOwned + Debug>(g: &mut G, what: &'static str, full: &T, default: &T, required: &[&str]) -> R {
        g.class(what);
        let (full, default) = (value(full), value(default));
        let (mut file, mut expect) = (json!({}), default.clone());
        let keys: Vec<String> = full.as_object().expect("map").keys().cloned().collect();
        let keep = g.subset(&keys);
        for k in keys.iter().filter(|k| keep.contains(k) || required.contains(&k.as_str())) {
            file[k] = full[k].clone();
            expect[k] = full[k].clone();
        }
        let text = |v: &Value| serde_yaml::to_string(v).expect("yaml");
        let got: T = serde_yaml::from_str(&text(&file)).map_err(|e| format!("{what} with only {keep:?}: {e}"))?;
        ensure_eq!(value(&got), expect, "{what} with only {keep:?}");
        // one field of another type
        let k = g.pick(&keys).clone();
        let mut bad = file.clone();
        bad[&k] = match &full[&k] {
            Value::Number(_) => json!("many"),
            Value::Bool(_) => json!(3),
            Value::String(_) => json!({"x": 1}),
            _ => json!("12 parsecs"),
        };
        let r: Result<T, _> = serde_yaml::from_str(&text(&bad));
        ensure!(r.is_err(), "{what}: {k} = {} is accepted", bad[&k]);
        for k in required {
            let mut less = file.clone();
            less.as_object_mut().expect("map").remove(*k);
            ensure!(serde_yaml::from_str::<T>(&text(&less)).is_err(), "{what} without {k} is accepted");
        }
        Ok(())
    }
    match g.below(7) {
        0 => {
            let v = score(g);
            check(g, "score", &v, &ScoreConfig::default(), &[])
        }
        1 => {
            let v = peer_config(g);
            check(g, "peers", &v, &PeerConfig::default(), &[])
        }
        2 => {
            let v = libp2p_config(g);
            check(g, "libp2p", &v, &LibP2pConfig::default(), &[])
        }
        3 => {
            let v = sync_config(g);
            check(g, "sync", &v, &SyncConfig::default(), &[])
        }
        4 => {
            let v = quic_config(g);
            check(g, "quic", &v, &QuicConfig::default(), &[])
        }
        5 => {
            let (v, _) = network(g)?;
            check(g, "network", &v, &NetworkConfig::default(), &[])
        }
        _ => {
            let v = parameters(g);
            check(g, "parameters", &v, &Parameters::default(), &["basefee_address"])
        }
    }
}

/// A stop, a power cut or a full disk while settings are overwritten.
fn overwrite(g: &mut G) -> R {
    g.nontrivial();
    let s = Scratch::new();
    let dir = s.sub("d");
    fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let yaml = g.bool();
    let p = dir.join("settings");
    let (a, b) = (anything(g), anything(g));
    let first = g.chance(1, 4);
    if !first {
        Config::write_to_path(&p, &a, fmt(yaml)).map_err(|e| e.to_string())?;
    }
    let base = s.sub("base");
    vcore::copy_dir(&dir, &base);
    let rec = vfs::Recorder::start(&dir);
    if g.chance(1, 3) {
        // the disk fills up
        let k = g.below(4);
        rec.fail_after(Some(k));
        let r = Config::write_to_path(&p, &b, fmt(yaml));
        rec.fail_after(None);
        g.class(if r.is_ok() { "written" } else { "write failed" });
        let now: eyre::Result<Anything> = Config::load_from_path(&p, fmt(yaml));
        match (r, now) {
            (Ok(()), Ok(v)) => ensure_eq!(v, b, "written"),
            (Ok(()), Err(e)) => return Err(format!("written without an error, cannot be read: {e}")),
            (Err(_), Ok(v)) => ensure!((!first && v == a) || v == b, "after a failed write: {v:?}"),
            (Err(e), Err(l)) => ensure!(first && !p.exists(), "a failed write ({e}) lost the previous settings: {l}"),
        }
        return Ok(());
    }
    Config::write_to_path(&p, &b, fmt(yaml)).map_err(|e| e.to_string())?;
    let ops = rec.ops();
    drop(rec);
    // at any moment, also in the middle of a write
    let n = g.usize(ops.len() + 1);
    let torn = match ops.get(n) {
        Some(vfs::Op::Write { data, .. }) => g.bool().then(|| g.usize(data.len() + 1)),
        _ => None,
    };
    let at = s.sub("at");
    vcore::copy_dir(&base, &at);
    let upto = if torn.is_some() { n + 1 } else { n };
    vfs::apply(&ops[..upto], torn, &at);
    g.note(|| format!("{:?} torn {torn:?}", ops[..upto].iter().map(|o| o.brief()).collect::<Vec<_>>()));
    let q = at.join("settings");
    let r: eyre::Result<Anything> = Config::load_from_path(&q, fmt(yaml));
    match r {
        Ok(v) => ensure!(v == b || (!first && v == a), "after a stop the settings are neither the old nor the new ones: {v:?}"),
        Err(e) => ensure!(first && !q.exists(), "after a stop the settings cannot be read: {e}"),
    }
    g.class(if n == ops.len() { "complete" } else { "stopped" });
    // and the next write works
    let c = anything(g);
    Config::write_to_path(&q, &c, fmt(yaml)).map_err(|e| format!("after a stop settings cannot be written: {e}"))?;
    let r: Anything = Config::load_from_path(&q, fmt(yaml)).map_err(|e| e.to_string())?;
    ensure_eq!(r, c, "written after a stop");
    Ok(())
}

/// The validators of a new network.
fn ceremony(g: &mut G) -> R {
    let s = Scratch::new();
    let dir = s.sub("node");
    let vals = dir.join("genesis/validators");
    fs::create_dir_all(&vals).map_err(|e| e.to_string())?;
    let mut all = BTreeMap::new();
    let mut all_good = true;
    let n = g.urange(2, 6);
    let idx = distinct(g, n);
    for i in &idx {
        let k = &keys()[*i];
        let mut v = node_info(g);
        v.bls_public_key = k.pk();
        let kc = KeyConfig::new_with_testing_key(k.0.copy());
        v.proof_of_possession = kc.generate_proof_of_possession_bls(&v.execution_address).map_err(|e| e.to_string())?;
        match g.below(12) {
            0 => {
                let other = address(g);
                all_good &= other == v.execution_address;
                v.execution_address = other;
            }
            1 => {
                let other = KeyConfig::new_with_testing_key(keys()[(*i + 1) % KEYS].0.copy());
                v.proof_of_possession = other.generate_proof_of_possession_bls(&v.execution_address).map_err(|e| e.to_string())?;
                all_good = false;
            }
            _ => {}
        }
        fs::write(vals.join(format!("v{i}.yaml")), serde_yaml::to_string(&v).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
        all.insert(v.bls_public_key, v);
    }
    if g.bool() {
        fs::write(vals.join(".hidden"), "not a validator").map_err(|e| e.to_string())?;
    }
    if g.chance(1, 4) {
        fs::create_dir(vals.join("dir")).map_err(|e| e.to_string())?;
    }
    let ng = NetworkGenesis::new_from_path_and_genesis(&dir, test_genesis()).map_err(|e| e.to_string())?;
    ensure_eq!(ng.validators(), &all, "validators loaded");
    ensure_eq!(ng.validate().is_ok(), all_good, "verdict on the proofs of possession");
    g.class(if all_good { "genuine" } else { "forged" });
    g.nontrivial();
    let c = ng.create_committee().map_err(|e| e.to_string())?;
    ensure_eq!(c.epoch(), 0);
    ensure_eq!(c.authorities().len(), all.len());
    for (k, v) in &all {
        let a = c.authority_by_key(k).ok_or("a validator is not in the committee")?;
        ensure_eq!(a.execution_address(), v.execution_address);
    }
    let b = c.bootstrap_servers();
    ensure_eq!(b.len(), all.len());
    for (k, v) in &all {
        let s = &b[k];
        ensure_eq!((&s.primary.network_address, &s.primary.network_key), (v.primary_network_address(), v.primary_network_key()));
        ensure_eq!((&s.worker.network_address, &s.worker.network_key), (v.worker_network_address(), v.worker_network_key()));
    }
    // a file that is no validator stops the ceremony
    fs::write(vals.join("junk.yaml"), "name: x").map_err(|e| e.to_string())?;
    ensure!(NetworkGenesis::new_from_path_and_genesis(&dir, test_genesis()).is_err(), "a damaged validator file is ignored");
    Ok(())
}

/// Advertised endpoints.
fn endpoint(g: &mut G) -> R {
    let schemes = ["http", "https", "ws", "wss", "ftp", "file", "HTTP", "httpx", "unix", "data"];
    let mut url = |g: &mut G| {
        let s = *g.pick(&schemes);
        let pad = if g.chance(1, 3) { g.urange(2000, 2060) } else { g.usize(20) };
        let u = format!("{s}://h.example/{}", "p".repeat(pad));
        (s.to_ascii_lowercase(), u.parse::<url::Url>().expect("url"))
    };
    let (hs, http) = url(g);
    let ws = g.bool().then(|| url(g));
    let ok = |s: &str, u: &url::Url, want: [&str; 2]| u.as_str().len() <= 2048 && want.contains(&s);
    let expect = ok(&hs, &http, ["http", "https"]) && ws.as_ref().is_none_or(|(s, u)| ok(s, u, ["ws", "wss"]));
    let i = RpcInfo { http, ws: ws.map(|w| w.1) };
    ensure_eq!(i.validate().is_ok(), expect, "{i:?}");
    g.nontrivial();
    g.class(if expect { "valid" } else { "refused" });
    Ok(())
}

pub fn check(c: &mut Check) {
    c.sub("round-trip", Budget::new(20_000, 12), round_trip);
    c.sub("partial", Budget::new(20_000, 4), partial);
    c.sub("overwrite", Budget::new(30_000, 8), overwrite);
    c.sub("ceremony", Budget::new(2_000, 8), ceremony);
    c.sub("endpoint", Budget::new(20_000, 2), endpoint);
}
