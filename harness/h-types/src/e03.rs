//! E03: a committee's thresholds and identities are the same on every node.

use std::collections::{BTreeMap, BTreeSet};
use tn_types::*;
use vcore::{ensure, ensure_eq, Budget, Check, G, R};
use vgen::*;

pub const RULE: &str = "a committee of at least four members, or a committee size whose thresholds were compared with the fault bound";

fn thresholds(n: u64, q: u64, v: u64) -> R {
    let f = (n - 1) / 3;
    ensure!(2 * q > n + f, "n={n}: two quorums of {q} need not share an honest member");
    ensure!(q <= n - f, "n={n}: a quorum of {q} cannot be reached with {f} absent");
    ensure!(v > f, "n={n}: {v} votes need not include an honest one");
    ensure!(v <= n - f, "n={n}: {v} votes cannot be reached with {f} absent");
    ensure_eq!(q, 2 * n / 3 + 1, "n={n}: quorum");
    ensure_eq!(v, n.div_ceil(3), "n={n}: validity threshold");
    Ok(())
}

fn sizes(g: &mut G) -> R {
    // the free function, for every size up to 4096 and for large ones
    for n in 1..4096u64 {
        let q = quorum_threshold(n);
        thresholds(n, q, n.div_ceil(3))?;
    }
    for _ in 0..1000 {
        let n = 1 + g.below(1 << 40);
        thresholds(n, quorum_threshold(n), n.div_ceil(3))?;
    }
    // real committees of every size the key pool allows
    for n in 2..=KEYS {
        let c = Com::of(&(0..n).collect::<Vec<_>>(), 1);
        let (q, v) = (c.committee.quorum_threshold(), c.committee.validity_threshold());
        thresholds(n as u64, q, v)?;
        ensure_eq!(q, quorum_threshold(n as u64));
        ensure_eq!(c.committee.total_voting_power(), n as u64);
        for w in 0..=n as u64 + 1 {
            ensure_eq!(c.committee.reached_quorum(w), w >= q);
            ensure_eq!(c.committee.reached_validity(w), w >= v);
        }
    }
    g.nontrivial();
    Ok(())
}

fn same(a: &Committee, b: &Committee, what: &str) -> R {
    ensure!(a == b, "{what}: not equal");
    ensure_eq!(a.epoch(), b.epoch(), "{what}: epoch");
    ensure_eq!(a.size(), b.size(), "{what}: size");
    ensure_eq!(a.quorum_threshold(), b.quorum_threshold(), "{what}: quorum");
    ensure_eq!(a.validity_threshold(), b.validity_threshold(), "{what}: validity");
    let f = |c: &Committee| c.authorities().iter().map(|x| (x.id(), *x.protocol_key(), x.execution_address())).collect::<Vec<_>>();
    ensure_eq!(f(a), f(b), "{what}: authorities in order");
    ensure_eq!(a.bls_keys().into_iter().collect::<Vec<_>>(), b.bls_keys().into_iter().collect::<Vec<_>>(), "{what}: keys in order");
    for (id, key, addr) in f(a) {
        let by_id = b.authority(&id).ok_or_else(|| format!("{what}: {id} not found by identity"))?;
        let by_key = b.authority_by_key(&key).ok_or_else(|| format!("{what}: {key} not found by key"))?;
        ensure_eq!((by_id.id(), *by_id.protocol_key(), by_id.execution_address()), (id.clone(), key, addr), "{what}");
        ensure_eq!((by_key.id(), *by_key.protocol_key(), by_key.execution_address()), (id, key, addr), "{what}");
    }
    ensure_eq!(encode(a), encode(b), "{what}: encoding");
    Ok(())
}

fn committees(g: &mut G) -> R {
    let n = g.urange(2, 20);
    let idx = distinct(g, n);
    let e = g.num32();
    let nodes: BTreeMap<usize, (P2pNode, P2pNode)> = idx
        .iter()
        .filter(|i| *i % 2 == 0)
        .map(|i| {
            let mk = |s: u8| {
                let mut b = [s; 32];
                b[0] = *i as u8;
                let k = libp2p::identity::Keypair::ed25519_from_bytes(&mut b).expect("key").public();
                P2pNode::from((format!("/ip4/10.0.{s}.{i}/udp/1000/quic-v1").parse::<Multiaddr>().expect("addr"), NetworkPublicKey::from(k)))
            };
            (*i, (mk(1), mk(2)))
        })
        .collect();
    let build = |order: &[usize]| {
        let mut b = CommitteeBuilder::new(e);
        for i in order {
            let pk = keys()[*i].pk();
            match nodes.get(i) {
                Some((p, w)) if i % 4 == 0 => b.add_authority_and_bootstrap(pk, p.clone(), w.clone(), addr_of(*i)),
                Some((p, w)) => {
                    b.add_bootstrap_server(pk, p.clone(), w.clone());
                    b.add_authority(pk, addr_of(*i))
                }
                None => b.add_authority(pk, addr_of(*i)),
            }
        }
        b.build()
    };
    let a = build(&idx);
    let mut order = idx.clone();
    g.shuffle(&mut order);
    // adding a member again changes nothing
    if g.bool() {
        let again = order[g.usize(n)];
        order.push(again);
    }
    g.nontrivial_if(n >= 4);
    g.note(|| format!("members {idx:?} epoch {e}"));
    same(&a, &build(&order), "built in another order")?;
    let wire: Committee = try_decode(&encode(&a)).map_err(|e| e.to_string())?;
    same(&a, &wire, "decoded")?;
    let json: Committee = serde_json::from_str(&serde_json::to_string(&a).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
    same(&a, &json, "from JSON")?;
    let yaml: Committee = serde_yaml::from_str(&serde_yaml::to_string(&a).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
    same(&a, &yaml, "from YAML")?;
    ensure_eq!(wire.bootstrap_servers(), a.bootstrap_servers(), "bootstrap servers");
    same(&a, &wire.advance_epoch_for_test(e), "reloaded")?;

    // against the definition
    let members: BTreeSet<BlsPublicKey> = idx.iter().map(|i| keys()[*i].pk()).collect();
    ensure_eq!(a.bls_keys(), members);
    ensure_eq!(a.size(), n);
    ensure_eq!(a.epoch(), e);
    let mut ids: Vec<AuthorityIdentifier> =
        idx.iter().map(|i| AuthorityIdentifier::from_bytes(*blake3::hash(&keys()[*i].pk().to_bytes()).as_bytes())).collect();
    ids.sort();
    ensure_eq!(a.authorities().iter().map(|x| x.id()).collect::<Vec<_>>(), ids, "identities in order");
    for (i, k) in keys().iter().enumerate() {
        let member = idx.contains(&i);
        let pk = k.pk();
        let id = AuthorityIdentifier::from(pk);
        ensure_eq!(a.is_authority(&id), member, "member {i}");
        ensure_eq!(a.authority(&id).map(|x| (*x.protocol_key(), x.execution_address())), member.then(|| (pk, addr_of(i))));
        ensure_eq!(a.authority_by_key(&pk).map(|x| x.id()), member.then(|| id.clone()));
        ensure_eq!(a.voting_power(&pk), member as u64);
        ensure_eq!(a.voting_power_by_id(&id), member as u64);
        let others: Vec<_> = members.iter().copied().filter(|x| *x != pk).collect();
        if member || i % 8 == 0 {
            ensure_eq!(a.others_keys_except(&pk), others);
            ensure_eq!(a.others_primaries_by_id(Some(&id)).into_iter().map(|x| x.1).collect::<Vec<_>>(), others);
            ensure!(a.others_primaries_by_id(Some(&id)).iter().all(|(i, k)| *i == AuthorityIdentifier::from(*k)));
            ensure_eq!(
                a.get_bootstrap(&pk).map(|b| (b.primary, b.worker)),
                if member { nodes.get(&i).cloned() } else { None },
                "bootstrap server of {i}"
            );
        }
    }
    ensure_eq!(a.others_primaries_by_id(None).len(), n);
    let moved = a.advance_epoch_for_test(e ^ 1);
    ensure!(moved != a, "committees of different epochs are equal");
    Ok(())
}

pub fn check(c: &mut Check) {
    c.fixed("sizes", sizes);
    c.sub("committees", Budget::new(6_000, 12), committees);
}
