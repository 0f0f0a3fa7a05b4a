//! Settings that cannot work are refused; limits derived from settings.

use crate::files::{float, parameters, peer_config, score};
use tn_config::*;
use vcore::{ensure, ensure_eq, Budget, Check, Scratch, G, R};
use vgen::*;

const NOT_FINITE: [f64; 3] = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY];

fn odd_score(g: &mut G) -> (ScoreConfig, bool) {
    let mut s = if g.bool() { ScoreConfig::default() } else { score(g) };
    if g.bool() {
        s.score_halflife = s.score_halflife.abs().max(1e-300);
    }
    if g.bool() && s.min_score > s.max_score {
        std::mem::swap(&mut s.min_score, &mut s.max_score);
    }
    if g.chance(1, 3) {
        let x = if g.bool() { *g.pick(&NOT_FINITE) } else { float(g) };
        match g.below(6) {
            0 => s.default_score = x,
            1 => s.max_score = x,
            2 => s.min_score = x,
            3 => s.score_halflife = x,
            4 => s.min_score_before_disconnect = x,
            _ => s.min_score_before_ban = x,
        }
    }
    let all = [s.default_score, s.max_score, s.min_score, s.score_halflife, s.min_score_before_disconnect, s.min_score_before_ban];
    let ok = all.iter().all(|x| x.is_finite()) && s.min_score <= s.max_score && s.score_halflife > 0.0;
    (s, ok)
}

fn validate(g: &mut G) -> R {
    g.nontrivial();
    let (s, ok) = odd_score(g);
    ensure_eq!(s.validate().is_ok(), ok, "verdict on {s:?}");
    let p = parameters(g);
    let agreed = p.gc_depth <= 50 && p.max_header_num_of_batches <= 10;
    let floors = p.gc_depth > 10
        && p.max_header_num_of_batches >= 1
        && p.header_num_of_batches_threshold >= 1
        && p.header_num_of_batches_threshold <= p.max_header_num_of_batches;
    ensure_eq!(p.validate().is_ok(), agreed, "verdict on {p:?}");
    ensure_eq!(p.validate_operational_floors().is_ok(), floors, "verdict on {p:?}");
    g.class(match (agreed, floors) {
        (true, true) => "usable",
        (true, false) => "inactive",
        (false, _) => "against the protocol",
    });
    Ok(())
}

/// A node does not start with settings that cannot work.
fn start(g: &mut G) -> R {
    g.nontrivial();
    let (s, s_ok) = if g.bool() { (ScoreConfig::default(), true) } else { odd_score(g) };
    let mut p = if g.bool() { Parameters::default() } else { parameters(g) };
    if g.bool() {
        p.gc_depth = g.range(5, 55) as u32;
    }
    let mut net = NetworkConfig::default();
    net.peer_config_mut().score_config = s;
    let c = committee(g, 4, 7, g_epoch());
    let me = c.members[g.usize(c.n())].clone();
    let kc = KeyConfig::new_with_testing_key(me.0.copy());
    let mut config = Config::default_for_test();
    config.parameters = p.clone();
    let ok = p.validate().is_ok() && s_ok;
    let floors = p.validate_operational_floors().is_ok();
    let db = || tn_storage::mem_db::MemDatabase::default();
    let built = ConsensusConfig::new_with_committee_for_test(config.clone(), db(), kc.clone(), c.committee.clone(), net.clone());
    ensure_eq!(built.is_ok(), ok, "a consensus configuration from {p:?} {s:?}");
    if let Ok(b) = built {
        ensure_eq!(b.authority_id(), Some(me.id()));
        ensure_eq!(b.committee_pub_keys(), c.members.iter().map(|m| m.pk()).collect());
        ensure_eq!(b.genesis().len(), c.n(), "genesis certificates");
        ensure_eq!(b.parameters(), &p);
        ensure!(c.members.iter().all(|m| b.in_committee(&m.id())) && !b.in_committee(&c.outsider(g).id()));
    }
    let again = ConsensusConfig::new_for_epoch(config.clone(), db(), kc.clone(), c.committee.clone(), net.clone(), vec![], Default::default());
    ensure_eq!(again.is_ok(), ok && floors, "a node for an epoch from {p:?} {s:?}");
    if g.chance(1, 4) {
        let d = Scratch::new();
        let dir = d.sub("n");
        Config::write_to_path(dir.committee_path(), &c.committee, ConfigFmt::YAML).map_err(|e| e.to_string())?;
        let n = ConsensusConfig::new(config, &dir, db(), kc, net, vec![], Default::default());
        ensure_eq!(n.is_ok(), ok && floors, "a node from {p:?} {s:?}");
        if let Ok(n) = n {
            ensure_eq!(n.committee().authorities(), c.committee.authorities());
        }
    }
    g.class(if ok && floors { "starts" } else { "refused" });
    Ok(())
}

fn g_epoch() -> u32 {
    0
}

/// The numbers of peers follow from the target and the configured shares.
fn peer_numbers(g: &mut G) -> R {
    let mut c = peer_config(g);
    c.target_num_peers = if g.bool() { g.below(100) as usize } else { g.below(100_000) as usize };
    if g.chance(1, 4) {
        c = PeerConfig { target_num_peers: c.target_num_peers, ..PeerConfig::default() };
    }
    let t = c.target_num_peers as f64;
    let share = |what: &str, got: usize, x: f64| -> R {
        let want = t * x;
        // the shares are single precision: one peer either way at the edge
        let slack = 1e-5 * (want.abs() + 1.0);
        ensure!(got as f64 >= want - slack && (got as f64) < want + 1.0 + slack, "{what}: {got} for {want} ({c:?})");
        Ok(())
    };
    let (e, p) = (c.peer_excess_factor as f64, c.priority_peer_excess as f64);
    share("most peers", c.max_peers(), 1.0 + e)?;
    share("most priority peers", c.max_priority_peers(), 1.0 + e + p)?;
    share("fewest outbound", c.min_outbound_only_peers(), c.min_outbound_only_factor as f64)?;
    share("target outbound", c.target_outbound_peers(), c.target_outbound_only_factor as f64)?;
    share("most dialed", c.max_outbound_dialing_peers(), 1.0 + e + p / 2.0)?;
    ensure_eq!(c.max_discovery_peers(), 2 * c.target_num_peers);
    ensure!(c.target_num_peers <= c.max_peers(), "{c:?}");
    ensure!(c.max_peers() <= c.max_outbound_dialing_peers() && c.max_outbound_dialing_peers() <= c.max_priority_peers(), "{c:?}");
    g.nontrivial_if(c.target_num_peers > 0);
    // half of a score is left after the half-life
    let s = score(g);
    if s.score_halflife > 1e-3 && s.score_halflife < 1e12 {
        let left = (s.halflife_decay() * s.score_halflife).exp();
        ensure!((left - 0.5).abs() < 1e-9, "after the half-life {} of a score is left", left);
    }
    ensure_eq!(s.banned_before_decay().as_secs(), s.banned_before_decay_secs);
    ensure_eq!(s.banned_before_decay().subsec_nanos(), 0);
    Ok(())
}

/// What a network's nodes subscribe to is its own.
fn topics(g: &mut G) -> R {
    let (a, b) = (g.num(), g.num());
    let t = |n| [LibP2pConfig::primary_topic(n), LibP2pConfig::consensus_output_topic(n), LibP2pConfig::epoch_vote_topic(n), LibP2pConfig::worker_batch_topic(n)];
    let (x, y) = (t(a), t(b));
    for i in 0..4 {
        for j in 0..4 {
            ensure_eq!(x[i] == y[j], i == j && a == b, "topics of chains {a} and {b}: {} and {}", x[i], y[j]);
        }
    }
    let mut n = NetworkConfig::default();
    n.set_chain_id(a);
    ensure_eq!((n.chain_id(), n.libp2p_config().chain_id), (a, a));
    g.nontrivial_if(a != b);
    Ok(())
}

/// Defaults that other parts rely on.
fn defaults(_: &mut G) -> R {
    let s = ScoreConfig::default();
    ensure!(s.validate().is_ok());
    ensure!(s.min_score < s.min_score_before_ban && s.min_score_before_ban < s.min_score_before_disconnect);
    ensure!(s.min_score_before_disconnect < s.default_score && s.default_score < s.max_score);
    let p = Parameters::default();
    ensure!(p.validate().is_ok() && p.validate_operational_floors().is_ok());
    ensure!(p.min_header_delay < p.max_header_delay);
    let c = PeerConfig::default();
    ensure!(c.min_outbound_only_peers() <= c.target_outbound_peers() && c.target_outbound_peers() <= c.target_num_peers);
    let q = QuicConfig::default();
    ensure!(q.max_stream_data <= q.max_connection_data);
    ensure!(u128::from(q.max_idle_timeout) > q.keep_alive_interval.as_millis(), "connections are closed before they are kept alive");
    let l = LibP2pConfig::default();
    ensure!(l.kad_publication_interval < l.kad_record_ttl, "records expire before they are published again");
    Ok(())
}

pub fn check(c: &mut Check) {
    c.sub("validate", Budget::new(200_000, 4), validate);
    c.sub("start", Budget::new(8_000, 8), start);
    c.sub("peer-numbers", Budget::new(200_000, 3), peer_numbers);
    c.sub("topics", Budget::new(50_000, 2), topics);
    c.fixed("defaults", defaults);
}
