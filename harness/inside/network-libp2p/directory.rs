//! Part of the N03 check. It is compiled inside the crate's `consensus` module, whose items are private to it.
#![allow(missing_docs, missing_debug_implementations, unreachable_pub, clippy::all)]

use super::*;
use crate::{
    kad::verif::{limits, peer, peer_key},
    peers::MAX_MULTIADDRS_PER_PEER,
    types::NetworkInfo,
    PeerExchangeMap,
};
use libp2p::{
    core::{transport::PortUse, ConnectedPoint, Endpoint},
    swarm::{behaviour::ConnectionEstablished, ConnectionId, FromSwarm, NetworkBehaviour as _},
};
use std::{
    collections::{BTreeMap, BTreeSet},
    num::NonZeroUsize,
    time::Instant,
};
use tn_storage::mem_db::MemDatabase;
use tn_types::{BlsSignature, TaskManager};
use tokio::sync::mpsc;
use vcore::{ensure, ensure_eq, G, R};

type Net = ConsensusNetwork<PeerExchangeMap, PeerExchangeMap, MemDatabase, mpsc::Sender<NetworkEvent<PeerExchangeMap, PeerExchangeMap>>>;

/// 0 is this node.
const PEOPLE: usize = 6;

struct Person {
    keys: KeyConfig,
    bls: BlsPublicKey,
    net: NetworkPublicKey,
    id: PeerId,
}

fn people() -> &'static Vec<Person> {
    static P: std::sync::OnceLock<Vec<Person>> = std::sync::OnceLock::new();
    P.get_or_init(|| {
        (0..PEOPLE)
            .map(|i| {
                let keys = KeyConfig::new_with_testing_key(vgen::keys()[i].0.copy());
                let kp = if i == 0 { keys.primary_network_keypair().clone() } else { peer_key(i) };
                Person { bls: keys.primary_public_key(), net: kp.public().into(), id: kp.public().to_peer_id(), keys }
            })
            .collect()
    })
}

fn start(db: &MemDatabase, spawner: TaskSpawner, members: &HashSet<BlsPublicKey>, small: Option<usize>, conn: &mut usize) -> Net {
    let (tx, _rx) = mpsc::channel(10);
    let me = &people()[0];
    let mut n = Net::new(
        &NetworkConfig::default(),
        tx,
        me.keys.clone(),
        me.keys.primary_network_keypair().clone(),
        db.clone(),
        spawner,
        NetworkType::Primary,
        addr(0),
        None,
    )
    .expect("network");
    limits(n.swarm.behaviour_mut().kademlia.store_mut(), small);
    let pm = &mut n.swarm.behaviour_mut().peer_manager;
    pm.update_committees(HashSet::new(), members.clone(), HashSet::new());
    for (i, p) in people().iter().enumerate().skip(1) {
        *conn += 1;
        let a: Multiaddr = format!("/ip4/10.7.0.{i}/udp/99/quic-v1").parse().expect("address");
        let endpoint = match i % 2 {
            0 => ConnectedPoint::Listener { local_addr: addr(0), send_back_addr: a },
            _ => ConnectedPoint::Dialer { address: a, role_override: Endpoint::Dialer, port_use: PortUse::Reuse },
        };
        pm.on_swarm_event(FromSwarm::ConnectionEstablished(ConnectionEstablished {
            peer_id: p.id,
            connection_id: ConnectionId::new_unchecked(*conn),
            endpoint: &endpoint,
            failed_addresses: &[],
            other_established: 0,
        }));
    }
    n
}

fn addr(n: u64) -> Multiaddr {
    format!("/ip4/10.9.{}.{}/udp/4000/quic-v1", n / 200, n % 200 + 1).parse().expect("address")
}

/// What somebody signed, or pretends to have signed.
#[derive(Clone, Debug)]
struct Paper {
    key: kad::RecordKey,
    value: Vec<u8>,
    /// who it is about, if it is genuine
    by: Option<usize>,
    info: NetworkInfo,
    publisher: Option<PeerId>,
    expires: Option<Instant>,
    what: &'static str,
}

impl Paper {
    fn record(&self) -> kad::Record {
        kad::Record { key: self.key.clone(), value: self.value.clone(), publisher: self.publisher, expires: self.expires }
    }
    fn valid(&self) -> bool {
        self.by.is_some()
            && self.publisher == Some(self.info.pubkey.clone().into())
            && self.info.multiaddrs.len() <= MAX_MULTIADDRS_PER_PEER
    }
}

fn paper(g: &mut G, base: u64) -> Paper {
    let all = people();
    let a = g.weighted(&[1, 3, 3, 3, 3, 3]);
    let net = if g.chance(1, 8) { g.usize(PEOPLE) } else { a };
    let count = if g.chance(1, 6) { MAX_MULTIADDRS_PER_PEER - 1 + g.usize(3) } else { g.usize(3) };
    let legacy = g.chance(1, 4);
    let rpc = (!legacy && g.chance(1, 4)).then(|| RpcInfo {
        http: (*g.pick(&["https://a.example/", "http://b.example:8545/x", "ftp://c.example/"])).parse().expect("url"),
        ws: g.chance(1, 3).then(|| "wss://d.example/".parse().expect("url")),
    });
    let mut info = NetworkInfo {
        pubkey: all[net].net.clone(),
        multiaddrs: (0..count).map(|_| addr(g.below(40_000))).collect(),
        timestamp: base + g.below(12),
        rpc,
    };
    let signed = |i: &NetworkInfo, legacy: bool| match legacy {
        true => encode(&(i.pubkey.clone(), i.multiaddrs.clone(), i.timestamp)),
        false => encode(i),
    };
    let whole = |i: &NetworkInfo, legacy: bool, s: BlsSignature| match legacy {
        true => encode(&((i.pubkey.clone(), i.multiaddrs.clone(), i.timestamp), s)),
        false => encode(&NodeRecord { info: i.clone(), signature: s }),
    };
    let sign = |who: usize, d: &[u8]| all[who].keys.request_signature_direct(d);
    let mut key = kad::RecordKey::new(&all[a].bls);
    let mut by = Some(a);
    let mut sig = sign(a, &signed(&info, legacy));
    let mut what = "good";
    let mut value = None;
    match g.weighted(&[14, 1, 2, 1, 1, 1, 1]) {
        1 => {
            sig = sign((a + 1) % PEOPLE, &signed(&info, legacy));
            (by, what) = (None, "signed by another");
        }
        2 => {
            what = "altered after it was signed";
            match g.below(4) {
                0 => info.timestamp += 1 + g.below(9),
                1 => info.multiaddrs.push(addr(40_001)),
                2 => info.pubkey = all[(net + 1) % PEOPLE].net.clone(),
                _ if !legacy => {
                    info.rpc = match info.rpc {
                        Some(_) => None,
                        None => Some(RpcInfo { http: "https://e.example/".parse().expect("url"), ws: None }),
                    }
                }
                _ => info.timestamp += 1,
            }
            by = None;
        }
        3 => {
            let b = (a + 1 + g.usize(PEOPLE - 1)) % PEOPLE;
            key = kad::RecordKey::new(&all[b].bls);
            (by, what) = (None, "under another key");
        }
        4 => {
            let n = g.usize(97);
            key = kad::RecordKey::new(&vec![g.u8(); n]);
            (by, what) = (None, "under no key");
        }
        5 => {
            let mut v = whole(&info, legacy, sig);
            if g.bool() {
                v.push(0);
            } else {
                let n = g.usize(v.len());
                v.truncate(n);
            }
            value = Some(v);
            (by, what) = (None, "cut or padded");
        }
        6 => {
            // one layout signed as the other
            info.rpc = None;
            sig = sign(a, &signed(&info, !legacy));
            (by, what) = (None, "signed in another layout");
        }
        _ => (),
    }
    let publisher = match g.weighted(&[8, 1, 1]) {
        0 => Some(info.pubkey.clone().into()),
        1 => Some(all[g.usize(PEOPLE)].id),
        _ => None,
    };
    let expires = match g.weighted(&[2, 3, 1]) {
        0 => None,
        1 => Some(Instant::now() + Duration::from_secs(g.range(1, 60))),
        _ => Some(Instant::now() - Duration::from_secs(g.below(5))),
    };
    Paper { value: value.unwrap_or_else(|| whole(&info, legacy, sig)), key, by, info, publisher, expires, what }
}

/// What a member is reached by.
fn usable(i: &NetworkInfo) -> NetworkInfo {
    let mut i = i.clone();
    if i.rpc.as_ref().is_some_and(|r| r.validate().is_err()) {
        i.rpc = None;
    }
    i
}

#[derive(Clone, Debug)]
struct Kept {
    value: Vec<u8>,
    info: NetworkInfo,
    expires: Option<Instant>,
}

/// Records pushed and found, good and bad, over restarts.
pub fn directory(g: &mut G) -> R {
    let _clock = vclock::freeze();
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().map_err(|e| e.to_string())?;
    let _in = rt.enter();
    let tasks = TaskManager::default();
    let db = MemDatabase::default();
    let all = people();
    let member = |g: &mut G| -> BTreeSet<usize> { (1..PEOPLE).filter(|_| g.bool()).collect() };
    let mut members = member(g);
    let set = |m: &BTreeSet<usize>| -> HashSet<BlsPublicKey> { m.iter().map(|i| all[*i].bls).collect() };
    let small = if g.chance(1, 4) { Some(g.urange(1, 4)) } else { None };
    let mut conn = 0;
    let mut net = start(&db, tasks.get_spawner(), &set(&members), small, &mut conn);
    let base = now() - 6;
    let mut kept: BTreeMap<Vec<u8>, Kept> = BTreeMap::new();
    let mut known: BTreeMap<usize, NetworkInfo> = BTreeMap::new();
    let mut queries: Vec<(QueryId, usize, Option<NetworkInfo>)> = vec![];
    let mut provided: BTreeMap<Vec<u8>, BTreeSet<PeerId>> = BTreeMap::new();
    let mut papers: Vec<Paper> = vec![];
    let mut log = vec![];
    let n = g.urange(4, 40);
    let mut moved = BTreeSet::new();
    for _ in 0..n {
        kept.retain(|_, k| k.expires.is_none_or(|e| e > Instant::now()));
        let banned = |net: &Net, p: &PeerId| net.swarm.behaviour().peer_manager.peer_banned(p);
        let before: Vec<bool> = all.iter().map(|p| banned(&net, &p.id)).collect();
        // members whose peer id is known are never banned
        let shielded: Vec<bool> = all.iter().map(|p| p.id == all[0].id || net.swarm.behaviour().peer_manager.peer_is_important(&p.id)).collect();
        // who may be banned by this step
        let mut blamed = None;
        match g.weighted(&[14, 6, 2, 1, 1, 1, 1]) {
            // pushed by a peer
            0 => {
                let p = if !papers.is_empty() && g.chance(1, 4) { g.pick(&papers).clone() } else { paper(g, base) };
                papers.push(p.clone());
                if let Some(by) = p.by.filter(|b| all[*b].net != p.info.pubkey) {
                    // a validator that takes another network key, or says so: the connection under the old key is nobody's
                    moved.insert(by);
                    moved.extend(all.iter().position(|q| q.net == p.info.pubkey));
                }
                let s = if g.bool() { p.by.filter(|b| *b > 0).unwrap_or(1) } else { g.urange(1, PEOPLE - 1) };
                let gone = p.publisher.is_none_or(|q| banned(&net, &q)) || before[s];
                let r = net.process_kad_event(kad::Event::InboundRequest {
                    request: kad::InboundRequest::PutRecord { source: all[s].id, connection: ConnectionId::new_unchecked(1), record: Some(p.record()) },
                });
                let key = p.key.to_vec();
                let newer = kept.get(&key).is_none_or(|k| k.info.timestamp < p.info.timestamp);
                let full = !kept.contains_key(&key) && small.is_some_and(|m| kept.len() >= m);
                log.push(format!("{s} puts {} of {:?} at {} with key of {:?}", p.what, p.by, p.info.timestamp - base, all.iter().position(|q| q.net == p.info.pubkey)));
                if gone {
                    ensure!(r.is_ok(), "{r:?}");
                    if p.publisher.is_none() {
                        blamed = Some(s);
                    }
                    g.class("from the banned or nobody");
                } else if !p.valid() {
                    ensure!(r.is_ok(), "{r:?}");
                    blamed = Some(s);
                    g.class("invalid");
                } else if newer {
                    let who = p.by.expect("valid");
                    ensure_eq!(r.is_err(), full, "a newer record is put with {} of {small:?} there: {r:?}", kept.len());
                    if !full {
                        kept.insert(key, Kept { value: p.value.clone(), info: p.info.clone(), expires: p.expires });
                        if members.contains(&who) && known.get(&who).is_none_or(|k| k.timestamp < p.info.timestamp) {
                            known.insert(who, usable(&p.info));
                        }
                        g.class("stored");
                    } else {
                        g.class("full");
                    }
                } else {
                    ensure!(r.is_ok(), "{r:?}");
                    g.class("stale");
                    g.nontrivial();
                }
            }
            // found by a query of this node
            1 => {
                if queries.is_empty() || g.chance(1, 3) {
                    let who = g.urange(1, PEOPLE - 1);
                    let id = net.swarm.behaviour_mut().kademlia.get_record(kad::RecordKey::new(&all[who].bls));
                    net.kad_record_queries.insert(id, all[who].bls.into());
                    queries.push((id, who, None));
                }
                let q = g.usize(queries.len());
                let (id, who, _) = queries[q];
                let p = if !papers.is_empty() && g.chance(1, 3) { g.pick(&papers).clone() } else { paper(g, base) };
                papers.push(p.clone());
                if let Some(by) = p.by.filter(|b| all[*b].net != p.info.pubkey) {
                    // a validator that takes another network key, or says so: the connection under the old key is nobody's
                    moved.insert(by);
                    moved.extend(all.iter().position(|q| q.net == p.info.pubkey));
                }
                let s = g.urange(1, PEOPLE - 1);
                let from = if g.chance(1, 8) { None } else { Some(all[s].id) };
                let last = g.chance(1, 3);
                let kind = g.weighted(&[8, 1, 1]);
                let step = kad::ProgressStep { count: NonZeroUsize::MIN, last };
                let result = match kind {
                    0 => kad::QueryResult::GetRecord(Ok(kad::GetRecordOk::FoundRecord(kad::PeerRecord { record: p.record(), peer: from }))),
                    1 => kad::QueryResult::GetRecord(Ok(kad::GetRecordOk::FinishedWithNoAdditionalRecord { cache_candidates: Default::default() })),
                    _ => kad::QueryResult::GetRecord(Err(kad::GetRecordError::Timeout { key: kad::RecordKey::new(&all[who].bls) })),
                };
                let stats = {
                    let m = net.swarm.behaviour_mut().kademlia.query(&id).map(|q| q.stats().clone());
                    match m {
                        Some(s) => s,
                        // it ended already
                        None => continue,
                    }
                };
                log.push(format!("{s} has {} of {:?} at {} with key of {:?} for {who}, last {last}, kind {kind}", p.what, p.by, p.info.timestamp - base, all.iter().position(|q| q.net == p.info.pubkey)));
                net.process_kad_event(kad::Event::OutboundQueryProgressed { id, result, stats, step }).map_err(|e| e.to_string())?;
                if kind == 0 {
                    if p.valid() && p.by == Some(who) {
                        let best = &mut queries[q].2;
                        if best.as_ref().is_none_or(|b| b.timestamp < p.info.timestamp) {
                            *best = Some(p.info.clone());
                        }
                        g.class("found");
                    } else if from.is_some() {
                        blamed = Some(s);
                        g.class("found something else");
                    }
                }
                if kind > 0 || last {
                    let (_, who, best) = queries.remove(q);
                    if let Some(b) = best {
                        if members.contains(&who) && known.get(&who).is_none_or(|k| k.timestamp < b.timestamp) {
                            known.insert(who, usable(&b));
                            g.class("resolved by a query");
                        }
                    }
                }
            }
            2 => {
                vclock::advance(Duration::from_secs(g.range(1, 20)));
                log.push("time".into());
            }
            3 => {
                let i = g.usize(PEOPLE);
                let key = kad::RecordKey::new(&all[i].bls);
                let s = g.urange(1, PEOPLE - 1);
                net.process_kad_event(kad::Event::InboundRequest {
                    request: kad::InboundRequest::AddProvider {
                        record: Some(kad::ProviderRecord { key: key.clone(), provider: all[s].id, expires: None, addresses: vec![] }),
                    },
                })
                .map_err(|e| e.to_string())?;
                log.push(format!("{s} provides {i}{}", if before[s] { " banned" } else { "" }));
                if !before[s] {
                    provided.entry(key.to_vec()).or_default().insert(all[s].id);
                }
            }
            4 => {
                net = start(&db, tasks.get_spawner(), &set(&members), small, &mut conn);
                queries.clear();
                known = members
                    .iter()
                    .filter_map(|m| kept.get(&kad::RecordKey::new(&all[*m].bls).to_vec()).map(|k| (*m, usable(&k.info))))
                    .collect();
                log.push("restart".into());
                g.nontrivial();
                for (i, p) in all.iter().enumerate() {
                    ensure!(!banned(&net, &p.id), "{i} is banned after a restart");
                }
                kept.retain(|_, k| k.expires.is_none_or(|e| e > Instant::now()));
                judge(&net, &db, &kept, &known, &members, &provided)?;
                continue;
            }
            5 => {
                members = member(g);
                net.swarm.behaviour_mut().peer_manager.update_committees(HashSet::new(), set(&members), HashSet::new());
                known.retain(|m, _| members.contains(m));
                log.push(format!("committee {members:?}"));
                // members are forgiven
                continue;
            }
            _ => {
                let full = !kept.contains_key(&kad::RecordKey::new(&all[0].bls).to_vec()) && small.is_some_and(|m| kept.len() >= m);
                net.provide_our_data();
                let r = net.get_peer_record();
                log.push("own record".into());
                if !full {
                    kept.insert(r.key.to_vec(), Kept { value: r.value.clone(), info: net.node_record.info.clone(), expires: None });
                }
                provided.entry(r.key.to_vec()).or_default().insert(all[0].id);
            }
        }
        for (i, p) in all.iter().enumerate() {
            let b = banned(&net, &p.id);
            let safe = net.swarm.behaviour().peer_manager.peer_is_important(&p.id);
            // the ban of one who turns out to be a member is lifted
            let due = before[i] || blamed == Some(i) && !shielded[i];
            ensure!(b == due || !b && safe || moved.contains(&i), "{i} of committee {members:?} is banned: {b}, before {}, blamed {blamed:?}, shielded {}, after: {}", before[i], shielded[i], log.join("; "));
        }
        kept.retain(|_, k| k.expires.is_none_or(|e| e > Instant::now()));
        judge(&net, &db, &kept, &known, &members, &provided).map_err(|e| format!("{e}; after: {}", log.last().expect("step")))?;
    }
    g.note(|| format!("limit {small:?}: {}", log.join("; ")));
    Ok(())
}

fn judge(net: &Net, db: &MemDatabase, kept: &BTreeMap<Vec<u8>, Kept>, known: &BTreeMap<usize, NetworkInfo>, members: &BTreeSet<usize>, provided: &BTreeMap<Vec<u8>, BTreeSet<PeerId>>) -> R {
    // the store of the behaviour is only lent out for change
    let db = KadStore::new(db.clone(), *net.swarm.local_peer_id(), &net.key_config, NetworkType::Primary);
    let listed: BTreeMap<Vec<u8>, kad::Record> = db.records().map(|r| (r.key.to_vec(), r.into_owned())).collect();
    ensure_eq!(listed.keys().collect::<Vec<_>>(), kept.keys().collect::<Vec<_>>(), "keys that have a record");
    for (k, r) in &listed {
        let due = &kept[k];
        ensure!(r.value == due.value && r.expires == due.expires, "a record of {:?} is served instead of one of {}", NodeRecord::try_decode_compat(&r.value).map(|r| r.info.timestamp), due.info.timestamp);
    }
    for (k, who) in provided {
        let got: BTreeSet<PeerId> = db.providers(&kad::RecordKey::new(k)).into_iter().map(|p| p.provider).collect();
        ensure!(&got == who, "providers {got:?} instead of {who:?}");
    }
    let pm = &net.swarm.behaviour().peer_manager;
    for (i, p) in people().iter().enumerate() {
        let got = pm.auth_to_peer(p.bls);
        let due = known.get(&i).map(|k| (PeerId::from(k.pubkey.clone()), k.multiaddrs.clone()));
        ensure!(got == due, "{i} of committee {members:?} is reached by {got:?} and announced {due:?}");
        let rpc = pm.get_rpc(&p.bls);
        ensure!(rpc == known.get(&i).and_then(|k| k.rpc.clone()), "endpoint {rpc:?} of {i}");
    }
    Ok(())
}
