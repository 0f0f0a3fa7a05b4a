//! E02: only the holder of a key can produce what verifies under it.

use tn_types::*;
use vcore::{ensure, ensure_eq, Budget, Check, G, R};
use vgen::*;

pub const RULE: &str = "a genuine signature, aggregate, proof or encoding, or one altered in a single respect";

const SCOPES: [IntentScope; 5] = [
    IntentScope::ProofOfPossession,
    IntentScope::EpochBoundary,
    IntentScope::ConsensusDigest,
    IntentScope::SystemMessage,
    IntentScope::EpochCloseSeed,
];

fn intent(g: &mut G) -> Intent {
    let s = SCOPES[g.usize(5)];
    if g.bool() {
        Intent::telcoin(s)
    } else {
        Intent::consensus(s)
    }
}

fn key(g: &mut G) -> &'static Key {
    &keys()[g.usize(8)]
}

fn message(g: &mut G) -> Vec<u8> {
    match g.below(4) {
        0 => vec![],
        1 => vec![0],
        2 => g.bytes(32),
        _ => {
            let n = g.usize(300);
            g.bytes(n)
        }
    }
}

fn signatures(g: &mut G) -> R {
    let k = key(g);
    let m = IntentMessage::new(intent(g), message(g));
    let s = BlsSignature::new_secure(&m, &*k.0);
    ensure_eq!(s, k.request_signature_direct(&encode(&m)), "the same signature from the signer");
    ensure_eq!(s, s.new_secure_bytes(&encode(&m), &*k.0));
    // what it is checked against: usually one thing differs
    let mut m2 = IntentMessage::new(m.intent.clone(), m.value.clone());
    let mut k2 = k;
    let mut s2 = s;
    let mut off_key = None;
    match g.below(10) {
        0 => {}
        1 => k2 = key(g),
        7 => s2 = off_group_sig(&s, g.usize(6)).unwrap_or_default(),
        8 => off_key = Some(off_group_key(&k.pk(), g.usize(6))),
        2 => m2.intent = intent(g),
        3 => m2.value = message(g),
        4 if !m2.value.is_empty() => {
            let i = g.usize(m2.value.len());
            m2.value[i] ^= 1 << g.below(8);
        }
        5 => s2 = key(g).request_signature_direct(&encode(&m)),
        6 => s2 = BlsSignature::default(),
        _ => m2.value.push(0),
    }
    g.nontrivial();
    let genuine = k2.request_signature_direct(&encode(&m2)) == s2;
    if let Some(off) = off_key {
        g.class("key outside its group");
        if let Some(pk) = off {
            let raw = encode(&m);
            let got = (s.verify_secure(&m, &pk), s.verify_secure_bytes(&raw, &pk), s.verify_raw(&raw, &pk), bls_verify_secure(&s, &pk, &raw));
            ensure_eq!(got, (false, false, false, false), "a signature verifies under a key that is not its signer's");
        }
    }
    let same = k2.pk() == k.pk() && m2 == m && s2 == s;
    ensure!(!same || genuine);
    g.class(if genuine { "genuine" } else { "not genuine" });
    let raw = encode(&m2);
    ensure_eq!(s2.verify_secure(&m2, &k2.pk()), genuine, "verify_secure");
    ensure_eq!(s2.verify_secure_bytes(&raw, &k2.pk()), genuine, "verify_secure_bytes");
    ensure_eq!(s2.verify_raw(&raw, &k2.pk()), genuine, "verify_raw");
    ensure_eq!(bls_verify_secure(&s2, &k2.pk(), &raw), genuine, "bls_verify_secure");
    // the default key and signature are nobody's
    let none = BlsPublicKey::default();
    ensure!(!BlsSignature::default().verify_raw(&raw, &none), "the default signature verifies under the default key");
    ensure!(!s.verify_raw(&raw, &none), "a signature verifies under the default key");
    Ok(())
}

fn aggregates(g: &mut G) -> R {
    let m = IntentMessage::new(intent(g), g.arr32());
    let n = g.urange(1, 9);
    let signers: Vec<usize> = (0..n).map(|_| g.usize(12)).collect();
    let sigs: Vec<_> = signers.iter().map(|i| BlsSignature::new_secure(&m, &*keys()[*i].0)).collect();
    let agg = BlsAggregateSignature::aggregate(&sigs, true).map_err(|e| e.to_string())?;
    let sig = BlsSignature::from_bytes(&agg.to_signature().to_bytes()).map_err(|e| e.to_string())?;
    let mut claimed = signers.clone();
    let mut off = None;
    let mut m2 = IntentMessage::new(m.intent.clone(), m.value);
    match g.below(10) {
        0 | 1 => g.shuffle(&mut claimed),
        2 => {
            claimed.pop();
        }
        3 => claimed.push(g.usize(12)),
        4 => {
            let i = g.usize(claimed.len());
            claimed[i] = g.usize(12);
        }
        5 => m2.value[g.usize(32)] ^= 1 << g.below(8),
        6 => m2.intent = intent(g),
        7 => claimed.clear(),
        8 => off = off_group_sig(&sig, g.usize(6)),
        _ => {
            // a key outside its group is nobody's
            let mut pks: Vec<_> = signers.iter().map(|i| keys()[*i].pk()).collect();
            let i = g.usize(pks.len());
            if let Some(k) = off_group_key(&pks[i], g.usize(6)) {
                pks[i] = k;
                ensure!(!BlsAggregateSignature::from_signature(&sig).verify_secure(&m, &pks), "an aggregate verifies with a key that is not its signer's");
            }
            g.class("key outside its group");
        }
    }
    if let Some(o) = off {
        g.class("signature outside its group");
        let pks: Vec<_> = signers.iter().map(|i| keys()[*i].pk()).collect();
        ensure!(!BlsAggregateSignature::from_signature(&o).verify_secure(&m, &pks), "an altered aggregate verifies");
        let mut one = sigs.clone();
        let i = g.usize(one.len());
        if let Some(x) = off_group_sig(&one[i], g.usize(6)) {
            one[i] = x;
            let r = BlsAggregateSignature::aggregate(&one, true);
            ensure!(!r.map(|a| a.verify_secure(&m, &pks)).unwrap_or(false), "an aggregate with an altered signature verifies");
        }
    }
    let (mut a, mut b) = (signers.clone(), claimed.clone());
    a.sort();
    b.sort();
    let genuine = a == b && m2 == m;
    g.nontrivial();
    g.class(if genuine { "genuine" } else { "not genuine" });
    g.note(|| format!("signed by {signers:?}, claimed {claimed:?}, same message {}", m2 == m));
    let pks: Vec<_> = claimed.iter().map(|i| keys()[*i].pk()).collect();
    let got = BlsAggregateSignature::from_signature(&sig).verify_secure(&m2, &pks);
    ensure_eq!(got, genuine, "aggregate of {signers:?} against {claimed:?}");
    ensure!(!BlsAggregateSignature::from_signature(&BlsSignature::default()).verify_secure(&m, &[]), "nobody's aggregate verifies");
    ensure!(!BlsAggregateSignature::from_signature(&BlsSignature::default()).verify_secure(&m, &pks), "the empty aggregate verifies");
    ensure!(BlsAggregateSignature::aggregate(&[], true).is_err() || n > 0);
    Ok(())
}

fn possession(g: &mut G) -> R {
    g.nontrivial();
    if g.chance(3, 4) {
        let (k, a) = (key(g), address(g));
        let p = generate_proof_of_possession_bls_for_test(&k.0, &a).map_err(|e| e.to_string())?;
        // the documented message: intent, key, address
        let mut msg = vec![0u8, 0, 0];
        msg.extend_from_slice(&k.pk().to_bytes());
        msg.extend_from_slice(a.as_slice());
        ensure_eq!(construct_proof_of_possession_message(&k.pk(), &a), msg);
        let (mut k2, mut a2, mut p2) = (k, a, p);
        match g.below(8) {
            0 | 1 => {}
            6 => p2 = off_group_sig(&p, g.usize(6)).unwrap_or_default(),
            7 => {
                if let Some(pk) = off_group_key(&k.pk(), g.usize(6)) {
                    let p = k.request_signature_direct(&construct_proof_of_possession_message(&pk, &a));
                    ensure!(verify_proof_of_possession_bls(&p, &pk, &a).is_err(), "a proof for a key outside its group");
                    g.class("key outside its group");
                }
            }
            2 => k2 = key(g),
            3 => a2.0[g.usize(20)] ^= 1 << g.below(8),
            4 => p2 = k.request_signature_direct(&k.pk().to_bytes()),
            _ => p2 = BlsSignature::default(),
        }
        let genuine = k2.pk() == k.pk() && a2 == a && p2 == p;
        g.class(if genuine { "genuine bls proof" } else { "altered bls proof" });
        ensure_eq!(verify_proof_of_possession_bls(&p2, &k2.pk(), &a2).is_ok(), genuine, "proof of possession");
        ensure!(verify_proof_of_possession_bls(&p, &BlsPublicKey::default(), &a).is_err(), "proof for the default key");
    } else {
        let mk = |b: [u8; 32]| {
            let mut b = b;
            libp2p::identity::Keypair::ed25519_from_bytes(&mut b).expect("key")
        };
        let k = mk(g.arr32());
        let mut gen = Genesis::default();
        gen.config.chain_id = g.num();
        gen.timestamp = g.num();
        gen.gas_limit = g.num();
        let p = generate_proof_of_possession_network(&k, &gen);
        let (mut k2, mut gen2, mut p2): (NetworkPublicKey, _, _) = (k.public().into(), gen.clone(), p.clone());
        match g.below(6) {
            0 | 1 => {}
            2 => k2 = mk(g.arr32()).public().into(),
            3 => gen2.config.chain_id ^= 1 << g.below(64),
            4 => gen2.timestamp ^= 1 << g.below(64),
            _ => {
                let i = g.usize(p2.len());
                p2[i] ^= 1 << g.below(8);
            }
        }
        let genuine = k2 == k.public().into() && gen2 == gen && p2 == p;
        g.class(if genuine { "genuine network proof" } else { "altered network proof" });
        ensure_eq!(verify_proof_of_possession_network(&p2, &k2, &gen2), genuine, "network proof of possession");
    }
    Ok(())
}

/// Alter text or bytes a little.
fn mangle(g: &mut G, b: &mut Vec<u8>, alphabet: Option<&[u8]>) {
    for _ in 0..g.urange(1, 3) {
        let c = match alphabet {
            Some(a) => *g.pick(a),
            None => g.u8(),
        };
        let i = g.usize(b.len() + 1);
        match g.below(4) {
            0 if i < b.len() => b[i] = c,
            1 if i < b.len() => {
                b.remove(i);
            }
            2 => b.truncate(i),
            _ => b.insert(i, c),
        }
    }
}

const B58: &[u8] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz0OIl +/\xc3\xa9";

fn encodings(g: &mut G) -> R {
    g.nontrivial();
    let k = &keys()[g.usize(KEYS)];
    match g.below(6) {
        0 => {
            g.class("public key, text");
            let pk = k.pk();
            let t = pk.encode_base58();
            ensure_eq!(t, bs58::encode(pk.to_bytes()).into_string());
            let j = serde_json::to_string(&pk).map_err(|e| e.to_string())?;
            ensure_eq!(j, format!("\"{t}\""));
            ensure_eq!(serde_json::from_str::<BlsPublicKey>(&j).map_err(|e| e.to_string())?, pk);
            ensure_eq!(serde_yaml::from_str::<BlsPublicKey>(&serde_yaml::to_string(&pk).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?, pk);
            let mut b = t.clone().into_bytes();
            mangle(g, &mut b, Some(B58));
            let m = String::from_utf8_lossy(&b).into_owned();
            if let Ok(x) = serde_json::from_value::<BlsPublicKey>(serde_json::Value::String(m.clone())) {
                ensure!(x.encode_base58() == m || bs58::decode(&m).into_vec().map(|v| v.len() == 192).unwrap_or(false), "the text {m:?} parses as the key {x}");
                ensure!((x == pk) == (x.to_bytes() == pk.to_bytes()));
            }
        }
        1 => {
            g.class("public key, bytes");
            let pk = k.pk();
            let b = if g.bool() { pk.to_bytes().to_vec() } else { pk.serialize().to_vec() };
            ensure!(BlsPublicKey::is_plausible_encoding(&b));
            ensure_eq!(BlsPublicKey::from_literal_bytes(&b).map_err(|e| format!("{e:?}"))?, pk);
            ensure_eq!(try_decode::<BlsPublicKey>(&encode(&pk)).map_err(|e| e.to_string())?, pk);
            ensure_eq!(try_decode::<BlsPublicKey>(&encode(&BlsPublicKeyBytes::from(pk))).map_err(|e| e.to_string())?, pk);
            let mut m = b.clone();
            mangle(g, &mut m, None);
            let r = BlsPublicKey::from_literal_bytes(&m);
            if !BlsPublicKey::is_plausible_encoding(&m) {
                ensure!(r.is_err(), "{} bytes parse as a public key", m.len());
            }
            if let Ok(x) = r {
                let again = if m.len() == 96 { x.to_bytes().to_vec() } else { x.serialize().to_vec() };
                ensure_eq!(again, m, "a parsed key is the key of the bytes it was parsed from");
                ensure!((x == pk) == (m == b));
            }
        }
        2 => {
            g.class("signature");
            let s = some_sig(g);
            let t = s.to_string();
            let j = serde_json::to_string(&s).map_err(|e| e.to_string())?;
            ensure_eq!(j, format!("\"{t}\""));
            ensure_eq!(serde_json::from_str::<BlsSignature>(&j).map_err(|e| e.to_string())?, s);
            ensure_eq!(try_decode::<BlsSignature>(&encode(&s)).map_err(|e| e.to_string())?, s);
            ensure_eq!(BlsSignature::from_bytes(&s.to_bytes()).map_err(|e| e.to_string())?, s);
            let mut m = s.to_bytes().to_vec();
            mangle(g, &mut m, None);
            if let Ok(x) = BlsSignature::from_bytes(&m) {
                ensure_eq!(x.to_bytes().to_vec(), m, "a parsed signature is the signature of the bytes it was parsed from");
            }
            let mut b = t.into_bytes();
            mangle(g, &mut b, Some(B58));
            let m = String::from_utf8_lossy(&b).into_owned();
            if let Ok(x) = serde_json::from_value::<BlsSignature>(serde_json::Value::String(m.clone())) {
                ensure_eq!(x.to_string(), m, "a parsed signature is the one of its text");
            }
        }
        3 => {
            g.class("key pair");
            let b = k.0.to_bytes();
            let back = BlsKeypair::from_bytes(&b).map_err(|e| e.to_string())?;
            ensure_eq!(*back.public(), k.pk());
            ensure_eq!(back.to_bytes(), b);
            ensure_eq!(back.sign(b"x"), k.0.sign(b"x"));
            ensure_eq!(k.0.copy().to_bytes(), b);
            let mut m = b.to_vec();
            mangle(g, &mut m, None);
            if let Ok(x) = BlsKeypair::from_bytes(&m) {
                ensure_eq!(x.to_bytes().to_vec(), m);
                ensure!((x.public() == &k.pk()) == (m == b));
            }
        }
        4 => {
            g.class("network key");
            let mut b = g.arr32();
            let nk = libp2p::identity::Keypair::ed25519_from_bytes(&mut b).expect("key");
            let pk: NetworkPublicKey = nk.public().into();
            let j = serde_json::to_string(&pk).map_err(|e| e.to_string())?;
            ensure_eq!(serde_json::from_str::<NetworkPublicKey>(&j).map_err(|e| e.to_string())?, pk);
            let e = encode(&pk);
            ensure_eq!(try_decode::<NetworkPublicKey>(&e).map_err(|e| e.to_string())?, pk);
            let mut t = j[1..j.len() - 1].as_bytes().to_vec();
            mangle(g, &mut t, Some(B58));
            let m = String::from_utf8_lossy(&t).into_owned();
            if let Ok(x) = serde_json::from_value::<NetworkPublicKey>(serde_json::Value::String(m.clone())) {
                ensure!((x == pk) == (serde_json::Value::String(m).to_string() == j) || x != pk, "altered text parses as the same key");
            }
        }
        _ => {
            g.class("identity");
            let id = k.id();
            let t = id.to_string();
            ensure_eq!(t.parse::<AuthorityIdentifier>().map_err(|e| e.to_string())?, id);
            ensure_eq!(serde_json::from_str::<AuthorityIdentifier>(&serde_json::to_string(&id).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?, id);
            ensure_eq!(try_decode::<AuthorityIdentifier>(&encode(&id)).map_err(|e| e.to_string())?, id);
            let mut b = t.clone().into_bytes();
            mangle(g, &mut b, Some(B58));
            let m = String::from_utf8_lossy(&b).into_owned();
            if let Ok(x) = m.parse::<AuthorityIdentifier>() {
                ensure_eq!(x.to_string(), m, "a parsed identity is the one of its text");
            }
            // intents: three known bytes
            let b = g.bytes(3);
            let known = b[0] < 5 && b[1] == 0 && b[2] < 2;
            let r = hex::encode(&b).parse::<Intent>();
            ensure_eq!(r.is_ok(), known, "intent {b:?}");
            let n = g.usize(6);
            let b = vec![0u8; n];
            ensure_eq!(hex::encode(&b).parse::<Intent>().is_ok(), n == 3, "an intent of {n} bytes");
        }
    }
    Ok(())
}

/// One key, however it was obtained, is the same key everywhere: equal, hashed, ordered and shown by
/// its 96 bytes.
fn obtained(g: &mut G, k: &Key) -> Result<BlsPublicKey, String> {
    let pk = k.pk();
    let b = pk.to_bytes();
    let e = |e: &dyn std::fmt::Debug| format!("{e:?}");
    Ok(match g.below(11) {
        0 => *k.0.public(),
        1 => BlsPublicKey::from_literal_bytes(&b).map_err(|x| e(&x))?,
        2 => BlsPublicKey::from_literal_bytes(&pk.serialize()).map_err(|x| e(&x))?,
        3 => serde_json::from_str(&serde_json::to_string(&pk).map_err(|x| e(&x))?).map_err(|x| e(&x))?,
        4 => try_decode(&encode(&pk)).map_err(|x| e(&x))?,
        5 => BlsPublicKey::from(*pk),
        6 => BlsPublicKey::from(BlsPublicKeyBytes::from(pk)),
        7 => BlsPublicKey::from(&BlsPublicKeyBytes::from(&pk)),
        8 => try_decode::<BlsPublicKeyBytes>(&encode(&pk)).map_err(|x| e(&x))?.into(),
        9 => serde_json::from_value::<BlsPublicKeyBytes>(serde_json::Value::String(bs58::encode(b).into_string())).map_err(|x| e(&x))?.into(),
        _ => *BlsKeypair::from_bytes(&k.0.to_bytes()).map_err(|x| e(&x))?.public(),
    })
}

fn hash_of<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::Hasher as _;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn views(g: &mut G) -> R {
    g.nontrivial();
    let (ka, kb) = (&keys()[g.usize(KEYS)], &keys()[g.usize(KEYS)]);
    let kb = if g.bool() { ka } else { kb };
    let (a, b) = (obtained(g, ka)?, obtained(g, kb)?);
    let (ba, bb) = (a.to_bytes(), b.to_bytes());
    ensure!(ba == ka.0.public().to_bytes(), "another key than the one asked for");
    g.class(if ba == bb { "one key twice" } else { "two keys" });
    ensure!(a.as_ref() == &ba[..], "the bytes a key lends are not its own");
    ensure_eq!(a == b, ba == bb, "equality");
    ensure_eq!(a.cmp(&b), ba.cmp(&bb), "order");
    ensure_eq!(a.partial_cmp(&b), Some(ba.cmp(&bb)), "order");
    let (wa, wb): (BlsPublicKeyBytes, BlsPublicKeyBytes) = ((&a).into(), b.into());
    ensure_eq!(wa == wb, ba == bb, "equality of the byte form");
    ensure_eq!(wa.cmp(&wb), ba.cmp(&bb), "order of the byte form");
    ensure_eq!(wa.partial_cmp(&wb), Some(ba.cmp(&bb)), "order of the byte form");
    ensure_eq!(<[u8; 96]>::from(wa), ba, "the byte form");
    if ba == bb {
        ensure_eq!(hash_of(&a), hash_of(&b), "the hash of one key");
        ensure_eq!(hash_of(&wa), hash_of(&wb), "the hash of one key's bytes");
        let set: std::collections::HashSet<BlsPublicKey> = [a].into();
        ensure!(set.contains(&b), "a set of keys does not find its key");
    }
    let text = bs58::encode(ba).into_string();
    ensure_eq!(a.to_string(), text);
    ensure_eq!(a.encode_base58(), text);
    ensure_eq!(wa.to_string(), text);
    ensure_eq!(serde_json::to_string(&wa).map_err(|e| e.to_string())?, format!("\"{text}\""));
    ensure_eq!(a.to_short_string(), bs58::encode(&ba[..8]).into_string(), "the short form");
    // the identity is that of the bytes
    let id: AuthorityIdentifier = a.into();
    ensure_eq!(id == AuthorityIdentifier::from(b), ba == bb, "identities");
    let none = BlsPublicKey::default();
    ensure!(none.as_ref() == &none.to_bytes()[..], "the bytes the default key lends are not its own");
    ensure!(none != a, "a key equals the default key");
    // and the same for signatures
    let s = some_sig(g);
    let t: BlsSignature = match g.below(4) {
        0 => BlsSignature::from_bytes(&s.to_bytes()).map_err(|e| e.to_string())?,
        1 => BlsAggregateSignature::from_signature(&s).to_signature(),
        2 => BlsSignature::from(*s),
        _ => some_sig(g),
    };
    ensure_eq!(s == t, s.to_bytes() == t.to_bytes(), "equality of signatures");
    ensure_eq!(s.to_string(), bs58::encode(s.to_bytes()).into_string());
    Ok(())
}

pub fn check(c: &mut Check) {
    c.assume("the BLS and ed25519 primitives are correct (blst, libp2p)");
    c.sub("signatures", Budget::new(30_000, 10), signatures);
    c.sub("aggregates", Budget::new(30_000, 8), aggregates);
    c.sub("possession", Budget::new(20_000, 6), possession);
    c.sub("views", Budget::new(60_000, 6), views);
    c.sub("encodings", Budget::new(60_000, 8), encodings);
}
