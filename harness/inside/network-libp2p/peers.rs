//! Part of the N02 check. It is compiled inside the crate's `peers` module, whose items are private to it.

use super::{
    cache::BannedPeerCache,
    manager::PeerManager,
    score::{init_peer_score_config, Reputation, Score},
    types::PeerEvent,
    Penalty,
};
use crate::{
    metrics::PeerManagerMetrics,
    types::{NetworkInfo, NetworkResult},
};
use libp2p::{
    core::{transport::PortUse, ConnectedPoint, Endpoint},
    kad::PeerInfo,
    swarm::{
        behaviour::ConnectionEstablished, ConnectionClosed, ConnectionId, DialError, DialFailure, FromSwarm,
        NetworkBehaviour as _,
    },
    Multiaddr, PeerId,
};
use std::{
    collections::{BTreeMap, BTreeSet, HashSet},
    net::IpAddr,
    sync::OnceLock,
    time::Duration,
};
use tn_config::{PeerConfig, ScoreConfig};
use tn_types::{BlsPublicKey, NetworkKeypair, NetworkPublicKey};
use tokio::sync::oneshot;
use vcore::{ensure, ensure_eq, Budget, Check, G, R};

/// One configuration per process (the code under test holds it in a static); none of the values are the defaults.
pub fn score_config() -> ScoreConfig {
    ScoreConfig {
        default_score: 0.5,
        max_score: 80.0,
        min_score: -90.0,
        score_halflife: 200.0,
        banned_before_decay_secs: 900,
        min_score_before_disconnect: -15.0,
        min_score_before_ban: -40.0,
    }
}

fn setup() {
    init_peer_score_config(score_config());
}

// ---------------------------------------------------------------------------------------------- temporary bans

pub fn temp_bans(g: &mut G) -> R {
    let clock = vclock::freeze();
    let dur = g.range(1, 2_000_000);
    let max = g.usize(7);
    let cap = max.max(1);
    let mut c = BannedPeerCache::<u64>::new(Duration::from_micros(dur), max);
    let keys = g.range(1, 14);
    let mut list: Vec<(u64, u64)> = vec![]; // (key, inserted at), oldest first
    let mut now = 0u64;
    let (mut evictions, mut expiries, mut refreshes) = (0, 0, 0);
    let ops = g.vec(1, 80, 25, |g| (g.weighted(&[8, 2, 4, 4]), g.below(keys), g.weighted(&[3, 2, 2, 2]), g.below(4_000_000)));
    for (op, k, how, t) in ops {
        match op {
            0 => {
                let at = list.iter().position(|e| e.0 == k);
                let exp_new = at.is_none();
                if let Some(i) = at {
                    list.remove(i);
                    refreshes += 1;
                }
                list.push((k, now));
                let exp_evicted = if list.len() > cap {
                    evictions += 1;
                    Some(list.remove(0).0)
                } else {
                    None
                };
                ensure_eq!(c.insert(k), (exp_new, exp_evicted), "insert of {k} at {now}");
            }
            1 => {
                let at = list.iter().position(|e| e.0 == k);
                if let Some(i) = at {
                    list.remove(i);
                }
                ensure_eq!(c.remove(&k), at.is_some(), "remove of {k} at {now}");
            }
            2 => {
                let d = match how {
                    0 => t % 1000,
                    1 => dur,
                    2 => list.first().map(|e| (e.1 + dur).saturating_sub(now)).unwrap_or(1),
                    _ => t,
                };
                // right before, at, or after
                let d = match t % 3 {
                    0 => d.saturating_sub(1),
                    1 => d,
                    _ => d + 1,
                };
                now += d;
                vclock::advance(Duration::from_micros(d));
            }
            _ => {
                let n = list.iter().take_while(|e| e.1 + dur <= now).count();
                let exp: Vec<u64> = list.drain(..n).map(|e| e.0).collect();
                expiries += n;
                ensure_eq!(c.heartbeat(), exp, "expired at {now}, bans last {dur}");
            }
        }
        for k in 0..keys {
            ensure_eq!(c.contains(&k), list.iter().any(|e| e.0 == k), "is {k} listed at {now}");
        }
        ensure_eq!(c.len(), list.len(), "number listed");
    }
    if evictions > 0 {
        g.class("evicts");
    }
    if expiries > 0 {
        g.class("expires");
    }
    if refreshes > 0 {
        g.class("refreshes");
    }
    g.nontrivial_if(evictions + expiries > 0);
    drop(clock);
    Ok(())
}

// ------------------------------------------------------------------------------------------------------ scores

const LOCKOUT: u64 = 900_000_000_000;

#[derive(Clone, Debug)]
struct S {
    v: f64,
    /// decay is counted from here (nanoseconds of the case)
    from: u64,
}

impl S {
    fn fresh(now: u64) -> S {
        S { v: score_config().default_score, from: now }
    }
    fn max(now: u64) -> S {
        S { v: score_config().max_score, from: now }
    }
    fn banned(&self) -> bool {
        self.v <= score_config().min_score_before_ban
    }
    fn rep(&self) -> Reputation {
        if self.banned() {
            Reputation::Banned
        } else if self.v <= score_config().min_score_before_disconnect {
            Reputation::Disconnected
        } else {
            Reputation::Trusted
        }
    }
    fn penalty(&mut self, p: Penalty, now: u64) {
        let c = score_config();
        let before = self.banned();
        self.v = match p {
            Penalty::Mild => self.v - 1.0,
            Penalty::Medium => self.v - 5.0,
            Penalty::Severe => self.v - 10.0,
            Penalty::Fatal => c.min_score,
        };
        self.v = self.v.clamp(c.min_score, c.max_score);
        if !before && self.banned() {
            self.from = now + LOCKOUT;
        }
    }
    fn decay(&mut self, now: u64) {
        if now >= self.from {
            let dt = (now - self.from) as f64 / 1e9;
            self.v *= (-(std::f64::consts::LN_2) * dt / score_config().score_halflife).exp();
            self.from = now;
        }
    }
    /// too close to a threshold for two ways of rounding to agree
    fn unclear(&self) -> bool {
        let c = score_config();
        [c.min_score_before_ban, c.min_score_before_disconnect].iter().any(|t| {
            let d = (self.v - t).abs();
            d != 0.0 && d < 1e-7
        })
    }
    fn is(&self, v: f64) -> bool {
        (self.v - v).abs() <= 1e-9 * (1.0 + self.v.abs())
    }
}

fn penalty(g: &mut G) -> Penalty {
    match g.weighted(&[5, 5, 5, 4]) {
        0 => Penalty::Mild,
        1 => Penalty::Medium,
        2 => Penalty::Severe,
        _ => Penalty::Fatal,
    }
}

fn dt(g: &mut G) -> u64 {
    1_000_000
        * match g.weighted(&[6, 4, 3, 2, 1]) {
            0 => g.range(1, 1_000),
            1 => g.range(1_000, 31_000),
            2 => g.range(100_000, 700_000),
            3 => g.range(890_000, 910_000),
            _ => g.range(900_000, 5_000_000),
        }
}

pub fn scores(g: &mut G) -> R {
    setup();
    let clock = vclock::freeze();
    let mut now = 0u64;
    let at_max = g.chance(1, 5);
    let mut s = if at_max { Score::new_max() } else { Score::default() };
    let mut m = if at_max { S::max(now) } else { S::fresh(now) };
    let mut was = BTreeSet::new();
    for _ in 0..g.urange(1, 40) {
        match g.weighted(&[4, 3, 2]) {
            0 => {
                let p = penalty(g);
                s.apply_penalty(p);
                m.penalty(p, now);
            }
            1 => {
                s.update();
                m.decay(now);
            }
            _ => {
                let d = dt(g);
                now += d;
                vclock::advance(Duration::from_nanos(d));
            }
        }
        if m.unclear() {
            return Ok(());
        }
        let c = score_config();
        let v = s.aggregate_score();
        ensure!(m.is(v), "score {v}, expected {} at {now}", m.v);
        ensure!(v >= c.min_score && v <= c.max_score, "score {v} out of bounds");
        ensure_eq!(s.reputation(), m.rep(), "standing at score {v}");
        ensure_eq!(s.is_banned(), m.banned(), "banned at score {v}");
        was.insert(match m.rep() {
            Reputation::Trusted => 0,
            Reputation::Disconnected => 1,
            Reputation::Banned => 2,
        });
    }
    g.nontrivial_if(was.len() > 1);
    if was.contains(&2) {
        g.class("banned");
    }
    drop(clock);
    Ok(())
}

// ------------------------------------------------------------------------------------------------ peer manager

const PEERS: usize = 9; // the first is this node

struct Who {
    id: PeerId,
    net: NetworkPublicKey,
    bls: BlsPublicKey,
}

fn whos() -> &'static [Who] {
    static W: OnceLock<Vec<Who>> = OnceLock::new();
    W.get_or_init(|| {
        (0..PEERS)
            .map(|i| {
                let mut seed = [7u8; 32];
                seed[0] = i as u8;
                let kp = NetworkKeypair::ed25519_from_bytes(seed).expect("seed");
                let net: NetworkPublicKey = kp.public().into();
                Who { id: net.clone().into(), net, bls: vgen::keys()[i].pk() }
            })
            .collect()
    })
}

fn runtime() -> &'static tokio::runtime::Runtime {
    static RT: OnceLock<tokio::runtime::Runtime> = OnceLock::new();
    RT.get_or_init(|| tokio::runtime::Builder::new_current_thread().enable_time().build().expect("runtime"))
}

fn ip(i: usize) -> IpAddr {
    if i % 2 == 0 {
        IpAddr::from([10, 0, 0, i as u8])
    } else {
        IpAddr::from([0x2001, 0xdb8, 0, 0, 0, 0, 0, i as u16])
    }
}

fn addr(i: usize, port: u64) -> Multiaddr {
    match ip(i) {
        IpAddr::V4(a) => format!("/ip4/{a}/udp/{port}/quic-v1"),
        IpAddr::V6(a) => format!("/ip6/{a}/udp/{port}/quic-v1"),
    }
    .parse()
    .expect("address")
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum St {
    Unknown,
    Connected,
    Dialing(u64),
    Disconnecting(bool),
    Disconnected(u64),
    Banned(u64),
}

#[derive(Clone, Debug)]
struct Rec {
    st: St,
    ips: BTreeSet<usize>,
    score: S,
    operator: bool,
    /// its BLS key is known
    named: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Ev {
    Connected(usize),
    Disconnected(usize),
    Banned(usize),
    Unbanned(usize),
}

struct Conn {
    id: usize,
    peer: usize,
    endpoint: ConnectedPoint,
}

struct Reply {
    rx: oneshot::Receiver<NetworkResult<()>>,
    /// what must have arrived: nothing yet, a result, or the sender given up for a newer one
    want: Option<Result<(), ()>>,
    superseded: bool,
}

struct Sim {
    pm: PeerManager,
    cfg: PeerConfig,
    now: u64,
    recs: BTreeMap<usize, Rec>,
    temp: Vec<(usize, u64)>,
    committees: [BTreeSet<usize>; 3],
    known: BTreeMap<usize, u64>,
    pinned: BTreeSet<usize>,
    forgiven: BTreeSet<usize>,
    offered: BTreeMap<usize, BTreeSet<Multiaddr>>,
    conns: Vec<Conn>,
    dials: Vec<(usize, usize)>,
    to_close: Vec<usize>,
    replies: Vec<Reply>,
    /// the reply waiting for the outcome of the dial registered last
    waiting: BTreeMap<usize, usize>,
    want: Vec<Ev>,
    want_gone: BTreeSet<usize>,
    next_conn: usize,
    tie: bool,
    log: Vec<String>,
    seen: BTreeSet<&'static str>,
}

const IPS: usize = 4;

impl Sim {
    fn new(g: &mut G) -> Sim {
        setup();
        let cfg = PeerConfig {
            heartbeat_interval: 30,
            target_num_peers: g.urange(1, 6),
            dial_timeout: Duration::from_secs(g.range(1, 20)),
            peer_excess_factor: g.below(10) as f32 / 10.0,
            priority_peer_excess: g.below(10) as f32 / 10.0,
            excess_peers_reconnection_timeout: Duration::from_secs(g.range(30, 700)),
            max_banned_peers: g.urange(1, 5),
            max_disconnected_peers: g.urange(0, 5),
            max_temporarily_banned_peers: g.urange(1, 6),
            score_config: score_config(),
            ..PeerConfig::default()
        };
        let pm = PeerManager::new(whos()[0].id, &cfg, PeerManagerMetrics::new_for(&crate::types::NetworkType::Primary));
        Sim {
            pm,
            cfg,
            now: 0,
            recs: BTreeMap::new(),
            temp: vec![],
            committees: Default::default(),
            known: BTreeMap::new(),
            pinned: BTreeSet::new(),
            forgiven: BTreeSet::new(),
            offered: BTreeMap::new(),
            conns: vec![],
            dials: vec![],
            to_close: vec![],
            replies: vec![],
            waiting: BTreeMap::new(),
            want: vec![],
            want_gone: BTreeSet::new(),
            next_conn: 1,
            tie: false,
            log: vec![],
            seen: BTreeSet::new(),
        }
    }

    fn pass(&mut self, ns: u64) {
        self.now += ns;
        vclock::advance(Duration::from_nanos(ns));
    }

    // ---- what is expected

    fn member(&self, p: usize) -> bool {
        self.committees.iter().any(|c| c.contains(&p))
    }
    fn exempt(&self, p: usize) -> bool {
        self.recs.get(&p).is_some_and(|r| r.operator || (r.named && self.member(p)))
    }
    fn important(&self, p: usize) -> bool {
        self.recs.get(&p).is_some_and(|r| r.operator || (r.named && self.member(p)))
    }
    fn banned_with(&self, i: usize) -> usize {
        self.recs.values().filter(|r| matches!(r.st, St::Banned(_)) && r.ips.contains(&i)).count()
    }
    fn ip_banned(&self, i: usize) -> bool {
        self.pm.is_ip_banned(&ip(i))
    }
    fn banned(&self, p: usize) -> bool {
        self.temp.iter().any(|t| t.0 == p) || self.barred(p)
    }
    fn barred(&self, p: usize) -> bool {
        self.recs.get(&p).is_some_and(|r| r.score.banned() || r.ips.iter().any(|i| self.ip_banned(*i)))
    }
    fn count(&self, f: impl Fn(&St) -> bool) -> usize {
        self.recs.values().filter(|r| f(&r.st)).count()
    }
    fn rec(&mut self, p: usize) -> &mut Rec {
        let now = self.now;
        self.recs.entry(p).or_insert_with(|| Rec {
            st: St::Unknown,
            ips: BTreeSet::new(),
            score: S::fresh(now),
            operator: false,
            named: false,
        })
    }
    fn temp_ban(&mut self, p: usize) {
        self.temp.retain(|t| t.0 != p);
        self.temp.push((p, self.now));
        if self.temp.len() > self.cfg.max_temporarily_banned_peers.max(1) {
            let (old, t) = self.temp.remove(0);
            // two banned in one step: either may have been first
            self.tie |= self.temp[0].1 == t;
            self.want.push(Ev::Unbanned(old));
            self.seen.insert("temporary ban displaced");
        }
    }
    fn ban(&mut self, p: usize) {
        self.temp_ban(p);
        self.want.retain(|e| *e != Ev::Unbanned(p));
        self.want.push(Ev::Banned(p));
        self.seen.insert("banned");
    }
    fn outcome(&mut self, p: usize, r: Result<(), ()>) {
        if let Some(i) = self.waiting.remove(&p) {
            self.replies[i].want = Some(r);
        }
    }

    fn m_connected(&mut self, p: usize, i: usize, inbound: bool) {
        let r = self.rec(p);
        let dialing = matches!(r.st, St::Dialing(_));
        r.st = St::Connected;
        r.ips.insert(i);
        if dialing || !inbound {
            self.outcome(p, Ok(()));
        }
        let full = if inbound {
            self.count(|s| matches!(s, St::Connected | St::Dialing(_))) >= self.cfg.max_peers()
        } else {
            self.count(|s| matches!(s, St::Connected)) >= self.cfg.max_outbound_dialing_peers()
        };
        if full && !self.important(p) {
            self.m_disconnect(p);
            self.seen.insert("refused over the limit");
        } else {
            self.want.push(Ev::Connected(p));
        }
    }

    fn m_disconnect(&mut self, p: usize) {
        self.want_gone.insert(p);
        let r = self.rec(p);
        let was = r.st;
        r.st = St::Disconnecting(false);
        if matches!(was, St::Connected | St::Dialing(_)) {
            self.temp_ban(p);
        }
    }

    /// the last connection closed, or a dial of a peer without connection failed
    fn m_gone(&mut self, p: usize) {
        self.m_disconnected(p);
        // the oldest are forgotten once there are too many
        let n = self.count(|s| matches!(s, St::Disconnected(_))).saturating_sub(self.cfg.max_disconnected_peers);
        for p in self.oldest(n, |s| if let St::Disconnected(t) = s { Some(*t) } else { None }) {
            self.recs.remove(&p);
            self.seen.insert("disconnected peer forgotten");
        }
        let n = self.count(|s| matches!(s, St::Banned(_))).saturating_sub(self.cfg.max_banned_peers);
        for p in self.oldest(n, |s| if let St::Banned(t) = s { Some(*t) } else { None }) {
            self.recs.remove(&p);
            self.want.push(Ev::Unbanned(p));
            self.seen.insert("banned peer forgotten");
        }
    }

    fn m_disconnected(&mut self, p: usize) {
        let now = self.now;
        let r = self.rec(p);
        match r.st {
            St::Banned(_) | St::Disconnected(_) => {}
            St::Disconnecting(true) => {
                r.st = St::Banned(now);
                self.ban(p);
            }
            _ => r.st = St::Disconnected(now),
        }
    }

    /// The `n` oldest; among equally old ones those the code under test chose.
    fn oldest(&self, n: usize, at: impl Fn(&St) -> Option<u64>) -> Vec<usize> {
        let mut v: Vec<(u64, bool, usize)> = self
            .recs
            .iter()
            .filter_map(|(p, r)| at(&r.st).map(|t| (t, self.pm.peer_score(&whos()[*p].id).is_some(), *p)))
            .collect();
        v.sort();
        v.into_iter().take(n).map(|x| x.2).collect()
    }

    fn m_dialing(&mut self, p: usize, reply: Option<usize>) {
        let now = self.now;
        let r = self.rec(p);
        if matches!(r.st, St::Unknown | St::Disconnected(_) | St::Banned(_)) {
            r.st = St::Dialing(now);
        }
        if let Some(i) = reply {
            if let Some(old) = self.waiting.insert(p, i) {
                self.replies[old].superseded = true;
            }
        }
    }

    fn m_member(&mut self, p: usize) {
        let now = self.now;
        let Some(r) = self.recs.get_mut(&p).filter(|r| r.named) else { return };
        match r.st {
            St::Disconnecting(true) => r.st = St::Disconnecting(false),
            St::Banned(t) => {
                r.st = St::Disconnected(t);
                self.want.push(Ev::Unbanned(p));
                self.seen.insert("committee member unbanned");
            }
            _ => {}
        }
        r.score = S::max(now);
        self.forgiven.extend(r.ips.iter().copied());
    }

    fn m_name(&mut self, p: usize) {
        self.rec(p).named = true;
    }

    // ---- the swarm around the manager

    fn connection(&mut self, p: usize, endpoint: ConnectedPoint, i: usize) {
        let id = self.next_conn;
        self.next_conn += 1;
        let others = self.conns.iter().filter(|c| c.peer == p).count();
        self.pm.on_swarm_event(FromSwarm::ConnectionEstablished(ConnectionEstablished {
            peer_id: whos()[p].id,
            connection_id: ConnectionId::new_unchecked(id),
            endpoint: &endpoint,
            failed_addresses: &[],
            other_established: others,
        }));
        let inbound = endpoint.is_listener();
        self.conns.push(Conn { id, peer: p, endpoint });
        self.m_connected(p, i, inbound);
    }

    fn inbound(&mut self, p: usize, i: usize, port: u64) -> R {
        let local = addr(0, 1);
        let a = addr(i, port);
        let id = ConnectionId::new_unchecked(self.next_conn);
        let ok = self.pm.handle_pending_inbound_connection(id, &local, &a).is_ok();
        ensure_eq!(ok, !self.ip_banned(i), "inbound from {a}");
        if !ok {
            self.seen.insert("banned address refused");
            return Ok(());
        }
        let want = p != 0 && !self.banned(p);
        let ok = self.pm.handle_established_inbound_connection(id, whos()[p].id, &local, &a).is_ok();
        ensure_eq!(ok, want, "inbound connection of {p}, {:?}, temporary bans {:?}", self.recs.get(&p), self.temp);
        if ok {
            self.connection(p, ConnectedPoint::Listener { local_addr: local, send_back_addr: a }, i);
        } else {
            self.seen.insert("banned peer refused");
        }
        Ok(())
    }

    fn dial_failed(&mut self, p: usize, e: &DialError) {
        self.pm.on_swarm_event(FromSwarm::DialFailure(DialFailure {
            peer_id: Some(whos()[p].id),
            error: e,
            connection_id: ConnectionId::new_unchecked(0),
        }));
        if self.recs.get(&p).map(|r| r.st) != Some(St::Connected) {
            self.m_gone(p);
        }
        self.outcome(p, Err(()));
    }

    fn pending_outbound(&mut self, p: usize, i: usize) -> Result<bool, String> {
        let dialing = self.recs.get(&p).is_some_and(|r| matches!(r.st, St::Dialing(_)));
        let want = p != 0
            && !self.banned(p)
            && (dialing
                || self.recs.get(&p).is_none_or(|r| {
                    matches!(r.st, St::Unknown | St::Disconnected(_) | St::Disconnecting(false))
                }));
        let ok = self
            .pm
            .handle_pending_outbound_connection(
                ConnectionId::new_unchecked(0),
                Some(whos()[p].id),
                &[addr(i, 7)],
                Endpoint::Dialer,
            )
            .is_ok();
        ensure_eq!(ok, want, "dial of {p}, {:?}, temporary bans {:?}", self.recs.get(&p), self.temp);
        if ok && !dialing {
            self.m_dialing(p, None);
        }
        if ok {
            self.dials.push((p, i));
        }
        Ok(ok)
    }

    /// take what the manager wants done: events and dials
    fn drain(&mut self, heartbeat: bool) -> R {
        let mut budget = self.cfg.target_num_peers.saturating_sub(self.count(|s| matches!(s, St::Connected | St::Dialing(_))));
        let mut first = true;
        loop {
            let mut got = vec![];
            let mut gone = BTreeSet::new();
            while let Some(e) = self.pm.poll_events() {
                let at = |id: &PeerId| whos().iter().position(|w| w.id == *id).ok_or(format!("unknown peer in {e:?}"));
                match &e {
                    PeerEvent::PeerConnected(p, _) => got.push(Ev::Connected(at(p)?)),
                    PeerEvent::PeerDisconnected(p) => got.push(Ev::Disconnected(at(p)?)),
                    PeerEvent::Banned(p) => got.push(Ev::Banned(at(p)?)),
                    PeerEvent::Unbanned(p) => got.push(Ev::Unbanned(at(p)?)),
                    PeerEvent::DisconnectPeer(p) => {
                        gone.insert(at(p)?);
                    }
                    PeerEvent::DisconnectPeerX(p, x) => {
                        gone.insert(at(p)?);
                        for (bls, (net, _)) in &x.0 {
                            ensure!(whos().iter().any(|w| w.bls == *bls && w.net == *net), "exchange names a pair nobody has");
                        }
                    }
                    PeerEvent::MissingAuthorities(_) | PeerEvent::Discovery => {}
                }
            }
            if self.tie {
                return Err("unclear".into());
            }
            got.sort();
            self.want.sort();
            let want = std::mem::take(&mut self.want);
            ensure_eq!(got, want, "events");
            ensure_eq!(gone, std::mem::take(&mut self.want_gone), "disconnects asked for");
            self.to_close.extend(gone);

            let Some(req) = self.pm.next_dial_request() else { return Ok(()) };
            let p = whos().iter().position(|w| w.id == req.peer_id).ok_or("dial of an unknown peer")?;
            let reply = match &req.reply {
                Some(_) => Some(self.replies.len() - 1),
                None => None,
            };
            ensure!(p != 0, "asks to dial itself");
            if heartbeat {
                ensure!(reply.is_none(), "a dial of discovery carries a reply");
                ensure!(budget > 0, "dials more discovered peers than are missing");
                budget -= 1;
                let a = self.offered.get(&p).ok_or(format!("{p} was never offered"))?;
                ensure!(req.multiaddrs.iter().all(|x| a.contains(x)), "dials {:?}", req.multiaddrs);
                self.seen.insert("discovered peer dialed");
                if first {
                    first = false;
                }
            }
            self.pm.register_dial_attempt(req.peer_id, req.reply);
            self.m_dialing(p, reply);
            if self.conns.iter().any(|c| c.peer == p) {
                self.dial_failed(p, &DialError::DialPeerConditionFalse(libp2p::swarm::dial_opts::PeerCondition::Disconnected));
            } else if !self.pending_outbound(p, p % IPS)? {
                self.dial_failed(p, &DialError::Denied { cause: libp2p::swarm::ConnectionDenied::new("denied") });
            }
        }
    }

    fn close(&mut self, p: usize, all: bool) {
        loop {
            let Some(at) = self.conns.iter().position(|c| c.peer == p) else { return };
            let c = self.conns.remove(at);
            let left = self.conns.iter().filter(|c| c.peer == p).count();
            self.pm.on_swarm_event(FromSwarm::ConnectionClosed(ConnectionClosed {
                peer_id: whos()[p].id,
                connection_id: ConnectionId::new_unchecked(c.id),
                endpoint: &c.endpoint,
                cause: None,
                remaining_established: left,
            }));
            if left == 0 {
                if self.recs.get(&p).is_some_and(|r| matches!(r.st, St::Connected | St::Disconnecting(_))) {
                    self.want.push(Ev::Disconnected(p));
                }
                self.m_gone(p);
            }
            if !all {
                return;
            }
        }
    }

    fn app_dial(&mut self, p: usize, i: usize, trusted: bool) {
        let (tx, rx) = oneshot::channel();
        let st = if trusted { None } else { self.recs.get(&p).map(|r| r.st) };
        let want = if p == 0 {
            Some(Ok(()))
        } else if matches!(st, Some(St::Banned(_) | St::Dialing(_) | St::Connected)) {
            Some(Err(()))
        } else {
            None
        };
        self.replies.push(Reply { rx, want, superseded: false });
        if trusted {
            let w = &whos()[p];
            let info = NetworkInfo {
                pubkey: w.net.clone(),
                multiaddrs: vec![addr(i, 7)],
                timestamp: 1,
                rpc: None,
            };
            self.pm.add_trusted_peer_and_dial(w.bls, info, tx);
        } else {
            self.pm.dial_peer(whos()[p].id, vec![addr(i, 7)], Some(tx));
        }
    }

    fn heartbeat(&mut self) -> R {
        let connected: BTreeSet<usize> =
            self.recs.iter().filter(|(_, r)| r.st == St::Connected).map(|(p, _)| *p).collect();
        // dials that take too long are given up
        let late: Vec<usize> = self
            .recs
            .iter()
            .filter(|(_, r)| matches!(r.st, St::Dialing(t) if t + (self.cfg.dial_timeout.as_nanos() as u64) < self.now))
            .map(|(p, _)| *p)
            .collect();
        for p in late {
            self.m_disconnected(p);
            self.outcome(p, Err(()));
            self.seen.insert("dial timed out");
        }
        // scores decay; a ban ends when the score has left the range
        let now = self.now;
        for p in 0..PEERS {
            if self.exempt(p) {
                continue;
            }
            let Some(r) = self.recs.get_mut(&p) else { continue };
            let was = r.score.banned();
            r.score.decay(now);
            if was && !r.score.banned() {
                self.seen.insert("ban ended");
                match r.st {
                    St::Banned(t) => {
                        r.st = St::Disconnected(t);
                        self.want.push(Ev::Unbanned(p));
                    }
                    St::Disconnecting(true) => r.st = St::Disconnecting(false),
                    _ => {}
                }
            }
        }
        if self.recs.values().any(|r| r.score.unclear()) {
            return Err("unclear".into());
        }
        self.pm.heartbeat();
        // the worst of too many connected peers go
        let excess = connected.len().saturating_sub(self.cfg.target_num_peers);
        let may: Vec<usize> = connected.iter().copied().filter(|p| !self.important(*p)).collect();
        let gone: Vec<usize> = may.iter().copied().filter(|p| !self.pm.is_connected(&whos()[*p].id)).collect();
        ensure_eq!(gone.len(), excess.min(may.len()), "disconnected of {connected:?}, target {}", self.cfg.target_num_peers);
        for p in &gone {
            for q in may.iter().filter(|q| !gone.contains(q)) {
                ensure!(
                    self.recs[p].score.v <= self.recs[q].score.v + 1e-9,
                    "disconnected {p} ({}) and kept {q} ({})",
                    self.recs[p].score.v,
                    self.recs[q].score.v
                );
            }
            self.seen.insert("excess peer disconnected");
        }
        for p in gone {
            self.m_disconnect(p);
        }
        let d = self.cfg.excess_peers_reconnection_timeout.as_nanos() as u64;
        let over: Vec<usize> = self.temp.iter().filter(|t| t.1 + d <= now).map(|t| t.0).collect();
        self.temp.retain(|t| t.1 + d > now);
        for p in over {
            self.want.push(Ev::Unbanned(p));
            self.seen.insert("temporary ban ended");
        }
        if self.tie {
            return Err("unclear".into());
        }
        self.drain(true)
    }

    fn compare(&mut self) -> R {
        for (p, w) in whos().iter().enumerate() {
            let r = self.recs.get(&p);
            let got = self.pm.peer_score(&w.id);
            ensure_eq!(got.is_some(), r.is_some(), "record of {p} ({r:?})");
            if let (Some(v), Some(r)) = (got, r) {
                ensure!(r.score.is(v), "score of {p}: {v}, expected {}", r.score.v);
            }
            let st = r.map(|r| r.st);
            ensure_eq!(self.pm.is_connected(&w.id), st == Some(St::Connected), "is {p} connected: {r:?}");
            ensure_eq!(self.pm.dial_attempt_already_registered(&w.id), matches!(st, Some(St::Dialing(_))), "is {p} dialing: {r:?}");
            ensure_eq!(
                self.pm.is_peer_connected_or_disconnecting(&w.id),
                matches!(st, Some(St::Connected | St::Disconnecting(_))),
                "is {p} connected or disconnecting: {r:?}"
            );
            ensure_eq!(self.pm.peer_banned(&w.id), self.banned(p), "is {p} banned: {r:?}, temporary {:?}", self.temp);
            ensure_eq!(self.pm.peer_is_important(&w.id), self.important(p), "is {p} important: {r:?}");
            ensure_eq!(self.pm.is_peer_validator(&w.id), r.is_some_and(|r| r.named) && self.member(p), "is {p} a validator: {r:?}");
            ensure_eq!(self.pm.peer_to_bls(&w.id), r.filter(|r| r.named).map(|_| w.bls), "identity of {p}");
            ensure_eq!(
                self.pm.auth_to_peer(w.bls).map(|x| x.0),
                self.known.contains_key(&p).then_some(w.id),
                "address book of {p}"
            );
            if let Some(r) = r {
                if self.exempt(p) && !r.ips.iter().any(|i| self.ip_banned(*i)) {
                    ensure!(!r.score.banned(), "an exempt peer is banned");
                }
            }
        }
        for i in 0..IPS {
            let n = self.banned_with(i);
            let b = self.ip_banned(i);
            ensure!(!b || n >= 2, "address {i} is banned with {n} banned peers on it");
            ensure!(b || n < 2 || self.forgiven.contains(&i), "address {i} is open with {n} banned peers on it");
            if b {
                self.seen.insert("banned address");
            }
        }
        let mut c = self.pm.connected_or_dialing_peers();
        c.sort();
        let mut w: Vec<PeerId> = self
            .recs
            .iter()
            .filter(|(_, r)| matches!(r.st, St::Connected | St::Dialing(_)))
            .map(|(p, _)| whos()[*p].id)
            .collect();
        w.sort();
        ensure_eq!(c, w, "connected or dialing");
        for (n, r) in self.replies.iter_mut().enumerate() {
            let got = match r.rx.try_recv() {
                Ok(x) => Some(Ok(x.map_err(|_| ()))),
                Err(oneshot::error::TryRecvError::Empty) => None,
                Err(oneshot::error::TryRecvError::Closed) => Some(Err(())),
            };
            let want = if r.superseded { Some(Err(())) } else { r.want.map(Ok) };
            ensure_eq!(got, want, "answer to dial {n}");
        }
        self.replies.retain(|r| r.want.is_none() && !r.superseded);
        // positions moved
        let left = self.replies.len();
        let mut order: Vec<(usize, usize)> = self.waiting.iter().map(|(p, i)| (*i, *p)).collect();
        order.sort();
        ensure_eq!(order.len(), left, "dials without an answer");
        for (n, (_, p)) in order.into_iter().enumerate() {
            self.waiting.insert(p, n);
        }
        Ok(())
    }

    fn op(&mut self, g: &mut G) -> R {
        let p = if g.chance(1, 30) { 0 } else { g.urange(1, PEERS - 1) };
        // peers share addresses
        let i = if g.chance(2, 3) { p % 2 } else { g.usize(IPS) };
        let t = if g.chance(1, 20) { 1_000_000_000 } else { 1_000_000 };
        self.pass(t);
        match g.weighted(&[16, 8, 4, 10, 6, 16, 9, 2, 3, 2, 5, 2, 3, 8]) {
            0 => {
                self.log.push(format!("inbound {p} from {i}"));
                self.inbound(p, i, g.below(3) + 1)?;
            }
            1 => {
                self.log.push(format!("dial {p} at {i}"));
                self.app_dial(p, i, false);
            }
            2 => {
                if !self.conns.iter().any(|c| c.peer == p) {
                    self.log.push(format!("found by kad, dial {p}"));
                    self.pending_outbound(p, i)?;
                }
            }
            3 if !self.dials.is_empty() => {
                let (p, i) = self.dials.remove(g.usize(self.dials.len()));
                if g.chance(2, 3) {
                    self.log.push(format!("dial of {p} reaches {i}"));
                    let a = addr(i, 7);
                    let want = p != 0 && !self.banned(p) && !self.ip_banned(i);
                    let ok = self
                        .pm
                        .handle_established_outbound_connection(
                            ConnectionId::new_unchecked(0),
                            whos()[p].id,
                            &a,
                            Endpoint::Dialer,
                            PortUse::Reuse,
                        )
                        .is_ok();
                    ensure_eq!(ok, want, "outbound connection to {p}");
                    if ok {
                        self.connection(
                            p,
                            ConnectedPoint::Dialer { address: a, role_override: Endpoint::Dialer, port_use: PortUse::Reuse },
                            i,
                        );
                    } else {
                        self.dial_failed(p, &DialError::Denied { cause: libp2p::swarm::ConnectionDenied::new("denied") });
                    }
                } else {
                    self.log.push(format!("dial of {p} fails"));
                    self.dial_failed(p, &DialError::Aborted);
                }
            }
            4 if !self.conns.is_empty() => {
                let p = self.conns[g.usize(self.conns.len())].peer;
                let all = g.chance(3, 4);
                self.log.push(format!("{p} closes, all {all}"));
                self.close(p, all);
            }
            5 => {
                let pen = penalty(g);
                self.log.push(format!("{pen:?} penalty for {p}"));
                self.pm.process_penalty(whos()[p].id, pen);
                if p != 0 {
                    self.m_penalty(p, pen);
                }
            }
            6 => {
                let d = dt(g);
                self.log.push(format!("heartbeat after {} s", d as f64 / 1e9));
                self.pass(d);
                self.heartbeat()?;
            }
            7 if !self.conns.is_empty() => {
                let p = self.conns[g.usize(self.conns.len())].peer;
                if self.pm.is_connected(&whos()[p].id) {
                    let px = g.bool();
                    self.log.push(format!("disconnect {p}"));
                    self.pm.disconnect_peer(whos()[p].id, px);
                    self.m_disconnect(p);
                }
            }
            8 => {
                let all: Vec<usize> = (1..PEERS).collect();
                let c: [BTreeSet<usize>; 3] = std::array::from_fn(|_| {
                    all.iter().copied().filter(|_| g.chance(1, 4)).collect()
                });
                self.log.push(format!("committees {c:?}"));
                let h = |s: &BTreeSet<usize>| s.iter().map(|p| whos()[*p].bls).collect::<HashSet<_>>();
                self.pm.update_committees(h(&c[0]), h(&c[1]), h(&c[2]));
                self.committees = c;
                let members: BTreeSet<usize> = self.committees.iter().flatten().copied().collect();
                self.temp.retain(|t| !(members.contains(&t.0) && self.known.contains_key(&t.0)));
                for p in &members {
                    self.m_member(*p);
                }
                self.known.retain(|p, _| self.pinned.contains(p) || members.contains(p));
            }
            9 => {
                let c: BTreeSet<usize> = (1..PEERS).filter(|_| g.chance(1, 4)).collect();
                self.log.push(format!("committee {c:?} about to be dialed"));
                self.pm.prepare_committee_dial(c.iter().map(|p| whos()[*p].bls).collect());
                self.temp.retain(|t| !(c.contains(&t.0) && self.known.contains_key(&t.0)));
                for p in c {
                    self.m_member(p);
                }
            }
            10 if p != 0 => {
                let ts = g.below(6);
                let w = &whos()[p];
                let info =
                    NetworkInfo { pubkey: w.net.clone(), multiaddrs: vec![addr(i, 7)], timestamp: ts, rpc: None };
                let how = g.below(5);
                self.log.push(format!("record of {p} at time {ts}, way {how}"));
                let stale = !self.pinned.contains(&p) && self.known.get(&p).is_some_and(|t| *t >= ts);
                let take = match how {
                    0 => {
                        self.pm.add_known_peer(w.bls, info);
                        self.pinned.insert(p);
                        true
                    }
                    1 => {
                        self.pm.add_restored_peer(w.bls, info);
                        true
                    }
                    2 => {
                        self.pm.add_bootstrap_peer(w.bls, info);
                        self.pinned.insert(p);
                        !self.known.contains_key(&p)
                    }
                    3 => {
                        self.pm.add_discovered_peer(w.bls, info);
                        self.member(p) && !stale
                    }
                    _ => {
                        let source = if g.bool() { p } else { g.usize(PEERS) };
                        self.pm.add_self_advertised_peer(whos()[source].id, w.bls, info);
                        if !self.member(p) && source == p {
                            self.m_name(p);
                        }
                        self.member(p) && !stale
                    }
                };
                if take {
                    self.m_name(p);
                    self.known.insert(p, ts);
                    if self.member(p) {
                        self.m_member(p);
                    }
                }
            }
            11 if p != 0 && !self.conns.iter().any(|c| c.peer == p) && !self.dials.iter().any(|d| d.0 == p) => {
                self.log.push(format!("{p} is trusted by the operator"));
                let now = self.now;
                self.temp.retain(|t| t.0 != p);
                self.pinned.insert(p);
                self.known.insert(p, 1);
                self.recs.insert(
                    p,
                    Rec { st: St::Unknown, ips: BTreeSet::new(), score: S::max(now), operator: true, named: true },
                );
                self.app_dial(p, i, true);
                self.seen.insert("trusted peer");
            }
            12 => {
                let n = g.urange(1, 4);
                let mut infos = vec![];
                for _ in 0..n {
                    let p = g.usize(PEERS);
                    let addrs: Vec<Multiaddr> = match g.below(6) {
                        0 => vec![],
                        1 => vec![addr(g.usize(IPS), 7), addr(g.usize(IPS), 8)],
                        _ => vec![addr(g.usize(IPS), 7)],
                    };
                    self.offered.entry(p).or_default().extend(addrs.iter().filter(|_| addrs.len() == 1).cloned());
                    infos.push((p, addrs));
                }
                self.log.push(format!("offered {infos:?}"));
                if g.bool() {
                    self.pm.process_peers_for_discovery(
                        infos.into_iter().map(|(p, addrs)| PeerInfo { peer_id: whos()[p].id, addrs }).collect(),
                    );
                } else {
                    let m: std::collections::HashMap<_, _> = infos
                        .into_iter()
                        .map(|(p, a)| (whos()[p].bls, (whos()[p].net.clone(), a.into_iter().collect::<HashSet<_>>())))
                        .collect();
                    self.pm.process_peer_exchange(m.into());
                }
            }
            13 if !self.to_close.is_empty() => {
                let p = self.to_close.remove(g.usize(self.to_close.len()));
                self.log.push(format!("disconnect of {p} takes effect"));
                let dials: Vec<_> = self.dials.iter().filter(|d| d.0 == p).copied().collect();
                self.dials.retain(|d| d.0 != p);
                for _ in dials {
                    self.dial_failed(p, &DialError::Aborted);
                }
                self.close(p, true);
            }
            _ => {}
        }
        if self.tie || self.recs.values().any(|r| r.score.unclear()) {
            return Err("unclear".into());
        }
        self.drain(false)?;
        self.compare()
    }

    fn m_penalty(&mut self, p: usize, pen: Penalty) {
        let now = self.now;
        if self.exempt(p) {
            self.seen.insert("penalty of an exempt peer");
            return;
        }
        let Some(r) = self.recs.get_mut(&p) else { return };
        let before = r.score.rep();
        r.score.penalty(pen, now);
        let after = r.score.rep();
        if before == after {
            return;
        }
        match (after, r.st) {
            (Reputation::Trusted, _) => {}
            (Reputation::Banned, St::Unknown | St::Disconnected(_)) => {
                r.st = St::Banned(now);
                self.ban(p);
            }
            (Reputation::Banned, St::Disconnecting(_)) => r.st = St::Disconnecting(true),
            (Reputation::Banned, St::Banned(_)) => self.ban(p),
            (_, St::Connected | St::Dialing(_)) => {
                // a ban begins when the connections are closed; a bad standing short of a ban only disconnects
                r.st = St::Disconnecting(after == Reputation::Banned);
                self.temp_ban(p);
                self.want_gone.insert(p);
                self.seen.insert("disconnected for bad behaviour");
            }
            (Reputation::Disconnected, _) => self.m_disconnected(p),
        }
    }
}

pub fn manager(g: &mut G) -> R {
    let _rt = runtime().enter();
    let clock = vclock::freeze();
    let mut s = Sim::new(g);
    let n = g.urange(5, 90);
    let r: R = (|| {
        for _ in 0..n {
            s.op(g)?;
        }
        Ok(())
    })();
    drop(clock);
    match r {
        Err(e) if e == "unclear" => return Ok(()),
        Err(e) => return Err(format!("{e}\nhistory:\n{}", s.log.join("\n"))),
        Ok(()) => {}
    }
    g.nontrivial_if(s.seen.contains("banned") || s.seen.len() > 3);
    for c in &s.seen {
        g.class(c);
    }
    Ok(())
}

pub const RULE: &str = "a ban, an expiry or at least four kinds of decision were reached";

pub fn check(c: &mut Check) {
    c.assume("the swarm is simulated: connections, dials and closes are generated, and reported the way libp2p reports them");
    c.assume("keys of a peer do not change within a history of the manager");
    c.sub("temporary-bans", Budget::new(200_000, 10), temp_bans);
    c.sub("scores", Budget::new(200_000, 8), scores);
    c.sub("manager", Budget::new(60_000, 40).thorough(3_000_000, 900), manager);
}
