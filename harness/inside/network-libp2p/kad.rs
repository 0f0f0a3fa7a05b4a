//! Part of the N03 check. It is compiled inside the crate's `kad` module, whose items are private to it.
#![allow(missing_docs, missing_debug_implementations, unreachable_pub, clippy::all)]

use super::*;
use std::{
    collections::{BTreeMap, BTreeSet},
    time::Duration,
};
use tn_storage::mem_db::MemDatabase;
use tn_types::NetworkKeypair;
use vcore::{ensure, ensure_eq, Budget, Check, G, R};

pub const RULE: &str = "a record or provider that expired, met a limit, was replaced or removed, or a record that was not stored";

pub fn peer_key(i: usize) -> NetworkKeypair {
    let mut seed = [7u8; 32];
    seed[..8].copy_from_slice(&(i as u64).to_le_bytes());
    NetworkKeypair::ed25519_from_bytes(seed).expect("seed")
}

pub fn peer(i: usize) -> PeerId {
    peer_key(i).public().to_peer_id()
}

/// A store for a few records only.
pub fn limits<DB>(s: &mut KadStore<DB>, records: Option<usize>) {
    if let Some(n) = records {
        s.config.max_records = n;
    }
}

fn keys() -> &'static KeyConfig {
    static K: std::sync::OnceLock<KeyConfig> = std::sync::OnceLock::new();
    K.get_or_init(|| KeyConfig::new_with_testing_key(vgen::keys()[0].0.copy()))
}

#[derive(Clone, Debug, PartialEq)]
struct Rec {
    value: Vec<u8>,
    publisher: Option<PeerId>,
    expires: Option<Instant>,
}

#[derive(Clone, Debug, PartialEq)]
struct Prov {
    expires: Option<Instant>,
    addresses: Vec<Multiaddr>,
}

struct Side {
    kind: NetworkType,
    store: KadStore<MemDatabase>,
    records: BTreeMap<RecordKey2, Rec>,
    providers: BTreeMap<RecordKey2, BTreeMap<PeerId, Prov>>,
}
type RecordKey2 = Vec<u8>;

fn alive(e: &Option<Instant>, now: Instant) -> bool {
    e.is_none_or(|e| e > now)
}

impl Side {
    fn drop_expired(&mut self) {
        let now = Instant::now();
        self.records.retain(|_, r| alive(&r.expires, now));
        for p in self.providers.values_mut() {
            p.retain(|_, p| alive(&p.expires, now));
        }
        self.providers.retain(|_, p| !p.is_empty());
    }

    fn judge(&self, all: &[RecordKey2]) -> R {
        for k in all {
            let key = RecordKey::new(k);
            let got = self.store.get(&key).map(|r| r.into_owned());
            let due = self.records.get(k);
            match (&got, due) {
                (None, None) => (),
                (Some(r), Some(d)) => {
                    ensure!(r.key == key && r.value == d.value && r.publisher == d.publisher && r.expires == d.expires, "{:?}: record {k:?} is {r:?}, and {d:?} was put", self.kind)
                }
                _ => return Err(format!("{:?}: record {k:?} is {got:?}, and {due:?} was put", self.kind)),
            }
            let got = self.store.providers(&key);
            let n = got.len();
            ensure!(got.iter().all(|p| p.key == key), "providers of another key");
            let got: BTreeMap<PeerId, Prov> = got.into_iter().map(|p| (p.provider, Prov { expires: p.expires, addresses: p.addresses })).collect();
            let due = self.providers.get(k).cloned().unwrap_or_default();
            ensure!(got.len() == n, "a provider of {k:?} twice");
            ensure!(got == due, "{:?}: providers of {k:?} are {got:?}, and {due:?} were added", self.kind);
        }
        let list: Vec<Record> = self.store.records().map(|r| r.into_owned()).collect();
        let set: BTreeSet<RecordKey2> = list.iter().map(|r| r.key.to_vec()).collect();
        ensure_eq!(set.len(), list.len(), "records listed more than once");
        ensure!(set == self.records.keys().cloned().collect(), "records are listed at {set:?}, and there are {:?}", self.records.keys());
        for r in list {
            let d = &self.records[&r.key.to_vec()];
            ensure!(r.value == d.value && r.publisher == d.publisher && r.expires == d.expires, "record {:?} is listed as another one", r.key);
        }
        let own = self.store.local_peer_id;
        let due = self.providers.get(&self.store.node_key.to_vec()).and_then(|p| p.get(&own));
        let got: Vec<ProviderRecord> = self.store.provided().map(|p| p.into_owned()).collect();
        ensure_eq!(got.len(), due.iter().count(), "what this node provides under its own key");
        if let (Some(d), Some(p)) = (due, got.first()) {
            ensure!(p.provider == own && p.key == self.store.node_key && p.addresses == d.addresses && p.expires == d.expires, "provides {p:?} instead of {d:?}");
        }
        Ok(())
    }
}

/// The stores of both networks over one database, against maps.
pub fn store(g: &mut G) -> R {
    let _clock = vclock::freeze();
    let db = MemDatabase::default();
    let config = MemoryStoreConfig {
        max_records: g.urange(1, 5),
        max_provided_keys: g.urange(1, 4),
        max_providers_per_key: g.urange(1, 4),
        max_value_bytes: g.urange(2, 12),
    };
    let own = peer(0);
    let open = |kind: NetworkType| {
        let mut s = KadStore::new(db.clone(), own, keys(), kind);
        s.config = MemoryStoreConfig { ..config.clone() };
        s
    };
    let mut sides: Vec<Side> = [NetworkType::Primary, NetworkType::Worker(0)]
        .into_iter()
        .map(|kind| Side { kind, store: open(kind), records: BTreeMap::new(), providers: BTreeMap::new() })
        .collect();
    let mut all: Vec<RecordKey2> = (0..g.urange(2, 8)).map(|i| vec![i as u8; g.urange(1, 5)]).collect();
    all.push(sides[0].store.node_key.to_vec());
    let expiry = |g: &mut G| match g.weighted(&[2, 4, 1]) {
        0 => None,
        1 => Some(Instant::now() + Duration::from_millis(g.range(1, 5_000))),
        // it ends now or is over
        _ => Some(Instant::now() - Duration::from_millis(g.below(5_000))),
    };
    let n = g.urange(5, 60);
    let mut log = vec![];
    let mut junk = BTreeSet::new();
    for _ in 0..n {
        let both = g.chance(1, 6);
        let s = &mut sides[usize::from(both)];
        s.drop_expired();
        let k = g.pick(&all).clone();
        let key = RecordKey::new(&k);
        let now = Instant::now();
        match g.weighted(&[8, 3, 7, 3, 3, 2, 1, 1]) {
            0 => {
                let most = config.max_value_bytes + if g.chance(1, 5) { 1 } else { 0 };
                let n = g.usize(most);
                let value = g.bytes(n);
                let publisher = if g.bool() { Some(peer(g.usize(4))) } else { None };
                let rec = Rec { value, publisher, expires: expiry(g) };
                let r = s.store.put(Record { key, value: rec.value.clone(), publisher, expires: rec.expires });
                let large = rec.value.len() >= config.max_value_bytes;
                let full = !s.records.contains_key(&k) && s.records.len() >= config.max_records;
                log.push(format!("put {k:?} {}{}", rec.value.len(), if r.is_ok() { "" } else { "!" }));
                if large || full {
                    ensure!(r.is_err(), "{} of {} records are there and one of {} bytes is put", s.records.len(), config.max_records, rec.value.len());
                    ensure!(!large || matches!(r, Err(Error::ValueTooLarge)), "error {r:?}");
                    g.class("record refused");
                    g.nontrivial();
                } else {
                    ensure!(r.is_ok(), "{} of {} records are there and one of {} bytes is refused: {r:?}", s.records.len(), config.max_records, rec.value.len());
                    if s.records.insert(k, rec).is_some() {
                        g.class("record replaced");
                        g.nontrivial();
                    }
                }
            }
            1 => {
                s.store.remove(&key);
                log.push(format!("remove {k:?}"));
                if s.records.remove(&k).is_some() {
                    g.nontrivial();
                }
            }
            2 => {
                let p = peer(g.usize(6));
                let addresses: Vec<Multiaddr> = g.vec(0, 2, 1, |g| format!("/ip4/10.0.0.{}/udp/7/quic-v1", g.below(9)).parse().expect("address"));
                let prov = Prov { expires: expiry(g), addresses };
                let r = s.store.add_provider(ProviderRecord { key, provider: p, expires: prov.expires, addresses: prov.addresses.clone() });
                let there = s.providers.get(&k);
                let full = there.is_none() && s.providers.len() >= config.max_provided_keys
                    || there.is_some_and(|t| !t.contains_key(&p) && t.len() >= config.max_providers_per_key);
                log.push(format!("provide {k:?}{}", if r.is_ok() { "" } else { "!" }));
                ensure_eq!(r.is_err(), full, "{:?} has {} of {} keys provided, this one by {:?} of {} ({r:?})", s.kind, s.providers.len(), config.max_provided_keys, there.map(|t| t.len()), config.max_providers_per_key);
                if full {
                    g.class("provider refused");
                    g.nontrivial();
                } else {
                    s.providers.entry(k).or_default().insert(p, prov);
                }
            }
            3 => {
                let p = peer(g.usize(6));
                s.store.remove_provider(&key, &p);
                log.push(format!("unprovide {k:?}"));
                if let Some(t) = s.providers.get_mut(&k) {
                    t.remove(&p);
                }
            }
            4 => {
                // often to the moment at which something ends
                let ends: Vec<Instant> = sides.iter().flat_map(|s| s.records.values().map(|r| r.expires).chain(s.providers.values().flat_map(|p| p.values().map(|p| p.expires)))).flatten().filter(|e| *e > now).collect();
                let d = if !ends.is_empty() && g.bool() {
                    let to = *g.pick(&ends) - now;
                    if g.bool() { to } else { to.saturating_sub(Duration::from_nanos(1)) }
                } else {
                    Duration::from_millis(g.below(3_000))
                };
                vclock::advance(d);
                log.push(format!("{d:?}"));
                let before: usize = sides.iter().map(|s| s.records.len() + s.providers.values().map(|p| p.len()).sum::<usize>()).sum();
                sides.iter_mut().for_each(Side::drop_expired);
                let after: usize = sides.iter().map(|s| s.records.len() + s.providers.values().map(|p| p.len()).sum::<usize>()).sum();
                if after < before {
                    g.class("expired");
                    g.nontrivial();
                }
            }
            5 => {
                s.store = open(s.kind);
                log.push("reopen".into());
                if g.bool() {
                    let n = s.store.scrub_corrupt_providers();
                    ensure!(n <= junk.len(), "{n} provider rows are dropped as undecodable");
                }
            }
            6 => {
                // a row of providers of another version, found when the node starts
                if !s.providers.contains_key(&k) {
                    continue;
                }
                let hash = s.store.key_to_hash(&key);
                let bytes = match g.below(3) {
                    0 => vec![0xff; g.urange(1, 9)],
                    1 => vec![5],
                    _ => vec![],
                };
                match s.kind {
                    NetworkType::Primary => db.insert::<KadProviderRecords>(&hash, &bytes),
                    NetworkType::Worker(_) => db.insert::<KadWorkerProviderRecords>(&hash, &bytes),
                }
                .map_err(|e| e.to_string())?;
                s.providers.remove(&k);
                junk.insert((both, k.clone()));
                s.store = open(s.kind);
                log.push(format!("junk at {k:?}"));
                g.class("undecodable providers");
                if g.bool() {
                    let n = s.store.scrub_corrupt_providers();
                    ensure!(n >= 1 && n <= junk.len(), "{n} undecodable provider rows are dropped");
                }
            }
            _ => {
                // as the behaviour does with what it was given
                let c = s.store.clone();
                s.store = c;
            }
        }
        for s in sides.iter_mut() {
            s.drop_expired();
            s.judge(&all)?;
        }
    }
    g.note(|| format!("{} records of less than {} bytes, {} keys by {}: {}", config.max_records, config.max_value_bytes, config.max_provided_keys, config.max_providers_per_key, log.join(", ")));
    // and once more from the disk
    for s in sides.iter_mut() {
        s.store = open(s.kind);
        s.judge(&all)?;
    }
    Ok(())
}

pub fn check(c: &mut Check) {
    c.assume("the database below behaves like an ordered map (checked under S05)");
    c.sub("store", Budget::new(30_000, 60).thorough(400_000, 900), store);
    c.sub("directory", Budget::new(3_000, 90).thorough(30_000, 900), crate::consensus::verif::directory);
}
