//! C04: a certificate is valid only with a quorum of the committee's signatures on it.

use std::collections::BTreeSet;
use tn_types::*;
use vcore::{ensure, ensure_eq, Budget, Check, G, R};
use vgen::*;

pub const RULE: &str = "a certificate that is within one alteration of a valid one (right committee, at least one genuine \
signature aggregated) or assembled from at least quorum-1 votes";

/// The wire form of a certificate, part by part.
pub fn wire(header: &Header, state: u8, sig: &BlsSignature, bitmap: &roaring::RoaringBitmap) -> Vec<u8> {
    let mut w = encode(header);
    w.push(state);
    if state < 4 {
        w.push(48);
        w.extend_from_slice(&sig.to_bytes());
    }
    let mut b = vec![];
    bitmap.serialize_into(&mut b).expect("bitmap");
    let mut n = b.len();
    while n >= 0x80 {
        w.push((n as u8 & 0x7f) | 0x80);
        n >>= 7;
    }
    w.push(n as u8);
    w.extend_from_slice(&b);
    w
}

pub fn sig_on(k: &Key, header: &Header) -> BlsSignature {
    Vote::new(header, k.id(), k).signature
}

pub fn aggregate(sigs: &[BlsSignature]) -> BlsSignature {
    if sigs.is_empty() {
        BlsSignature::default()
    } else {
        BlsAggregateSignature::aggregate(sigs, true).expect("aggregate").to_signature()
    }
}

/// Is the header well-formed for the committee? (reference)
fn header_ok(h: &Header, c: &Com) -> bool {
    h.epoch() == c.committee.epoch()
        && h.parents().len() <= c.n()
        && h.payload().len() <= MAX_HEADER_NUM_OF_BATCHES
        && c.members.iter().any(|k| &k.id() == h.author())
        && h.payload().values().all(|w| *w == 0)
}

/// A header with at most one defect.
fn header(g: &mut G, c: &Com) -> (Header, &'static str) {
    let h = valid_header(g, c);
    let b = HeaderBuilder::from_header(&h);
    match g.below(14) {
        0 => (b.epoch(c.committee.epoch().wrapping_add(1 + g.below(3) as u32)).build(), "other epoch"),
        1 => (b.author(c.outsider(g).id()).build(), "foreign author"),
        2 => {
            let n = c.n() + g.usize(3);
            let p = (0..n).map(|_| header_digest(g)).collect();
            (b.parents(p).build(), "parents at the limit")
        }
        3 => {
            let n = MAX_HEADER_NUM_OF_BATCHES + g.usize(2);
            let p = (0..n).map(|_| (b256(g), 0)).collect();
            (b.payload(p).build(), "batches at the limit")
        }
        4 => {
            let mut p = h.payload().clone();
            p.insert(b256(g), 1 + g.below(3) as u16);
            (b.payload(p).build(), "unknown worker")
        }
        5 => (b.round(0).build(), "round 0"),
        _ => (h, "valid header"),
    }
}

fn received(g: &mut G) -> R {
    let e = epoch(g);
    let c = committee(g, 2, 16, e);
    let keys = c.committee.bls_keys();
    let (h, hclass) = header(g, &c);
    // who signs: around the quorum
    let k = (c.quorum() as i64 + [0, 0, 1, -1, 2, -2][g.usize(6)]).clamp(0, c.n() as i64) as usize;
    let mut order = g.permutation(c.n());
    let rest = order.split_off(k);
    let signers: BTreeSet<usize> = order.into_iter().collect();
    let mut claimed: BTreeSet<usize> = signers.clone();
    let mut extra: Vec<u32> = vec![];
    let mut sigs: Vec<BlsSignature> = signers.iter().map(|i| sig_on(c.members[*i], &h)).collect();
    let alteration = g.weighted(&[6, 2, 2, 2, 2, 1, 1, 1, 1, 1, 1, 1]);
    let what = match alteration {
        0 => "none",
        1 => {
            // one who did not sign is claimed
            if let Some(r) = rest.first() {
                claimed.insert(*r);
            }
            "signer claimed who did not sign"
        }
        2 => {
            if let Some(x) = claimed.iter().nth(g.usize(claimed.len().max(1))).copied() {
                claimed.remove(&x);
            }
            "signer dropped from the list"
        }
        3 => {
            if let (Some(x), Some(r)) = (claimed.iter().next().copied(), rest.first()) {
                claimed.remove(&x);
                claimed.insert(*r);
            }
            "signer exchanged"
        }
        4 => {
            if !sigs.is_empty() {
                let at = g.usize(sigs.len());
                let other = HeaderBuilder::from_header(&h).created_at(h.created_at().wrapping_add(1)).build();
                let who = c.members[*signers.iter().nth(at).expect("signer")];
                sigs[at] = sig_on(who, &other);
            }
            "one signature on another header"
        }
        5 => {
            if !sigs.is_empty() {
                let at = g.usize(sigs.len());
                sigs[at] = sig_on(c.outsider(g), &h);
            }
            "one signature by an outsider"
        }
        6 => {
            sigs.truncate(1);
            "one signature instead of the aggregate"
        }
        7 => {
            if let Some(s) = sigs.first().copied() {
                sigs.push(s);
            }
            "one signature twice"
        }
        8 => {
            extra = vec![c.n() as u32 + g.below(5) as u32, 70_000];
            "signers listed beyond the committee"
        }
        9 => {
            // genuine signatures, but for another purpose
            let d: Digest<32> = h.digest().into();
            let intent = IntentMessage::new(Intent::consensus(IntentScope::EpochBoundary), d);
            sigs = signers.iter().map(|i| c.members[*i].request_signature_direct(&encode(&intent))).collect();
            "signatures for another purpose"
        }
        10 => {
            sigs = vec![];
            "no signature"
        }
        _ => "signature outside its group",
    };
    let mut sig = aggregate(&sigs);
    if alteration == 11 {
        // no pairing tells the two apart
        sig = off_group_sig(&sig, g.usize(6)).unwrap_or_default();
    }
    let bitmap: roaring::RoaringBitmap = claimed.iter().map(|i| *i as u32).chain(extra).collect();
    let state = g.below(5) as u8;
    g.class(what);
    g.note(|| format!("committee {}, quorum {}, {hclass}, signed by {signers:?}, claimed {claimed:?}, {what}, state {state}", c.n(), c.quorum()));

    // reference
    let quorate = claimed.len() >= c.quorum();
    let genuine: Vec<_> = claimed.iter().map(|i| sig_on(c.members[*i], &h)).collect();
    let sig_ok = !genuine.is_empty() && aggregate(&genuine).to_bytes() == sig.to_bytes();
    let has_sig = state < 4;
    let ok_keys = has_sig && quorate && sig_ok;
    let genesis = h.round() == 0 && c.committee.epoch() == h.epoch() && Certificate::genesis(&c.committee).iter().any(|x| x.digest() == h.digest());
    let ok_full = has_sig && (genesis || ok_keys && header_ok(&h, &c));
    g.nontrivial_if(claimed.len() + 1 >= c.quorum());

    let bytes = wire(&h, state, &sig, &bitmap);
    let cert: Certificate = try_decode(&bytes).map_err(|e| format!("cannot decode the wire form: {e}"))?;
    ensure_eq!(cert.digest(), h.digest());
    ensure_eq!(encode(&cert), bytes, "the certificate re-encodes to the same bytes");

    let mut a = cert.clone();
    let r = a.verify_cert(&keys);
    ensure!(r.is_ok() == ok_keys, "verify_cert gives {r:?}, expected accepted={ok_keys} ({what}, state {state})");
    ensure!(a.is_verified() == ok_keys || state == 4 && r.is_err(), "is_verified {} after {r:?}", a.is_verified());

    let r = validate_fetched_certificate(cert.clone()).and_then(|mut x| x.validate_and_verify(&c.committee).map(|_| x));
    ensure!(r.is_ok() == ok_full, "validate_and_verify gives {r:?}, expected accepted={ok_full} ({hclass}, {what}, state {state})");
    if let Ok(x) = r {
        ensure!(x.is_verified() || genesis, "accepted but not verified");
        ensure_eq!(x.digest(), h.digest());
    }
    let mut x = cert.clone();
    let r = x.validate_received();
    ensure!(r.is_ok() == has_sig);
    if r.is_ok() {
        ensure!(!x.is_verified(), "a received certificate keeps the sender's claim to be verified");
        let r = x.validate_and_verify(&c.committee);
        ensure!(r.is_ok() == ok_full, "received: {r:?}, expected accepted={ok_full}");
    }

    // who signed
    let (w, pks) = cert.signed_by(&keys);
    let expect: Vec<_> = claimed.iter().map(|i| c.members[*i].pk()).collect();
    ensure_eq!(pks, expect, "signers by index of the sorted keys");
    ensure_eq!(w as usize, expect.len());

    // a member of another committee of the same size cannot stand in
    if ok_keys && g.chance(1, 4) {
        let mut other: Vec<BlsPublicKey> = keys.iter().copied().collect();
        let at = *claimed.iter().next().expect("signer");
        other[at] = c.outsider(g).pk();
        let other: BTreeSet<_> = other.into_iter().collect();
        let mut a = cert.clone();
        let foreign = a.verify_cert(&other);
        ensure!(foreign.is_err(), "accepted for a committee whose member {at} did not sign");
    }
    Ok(())
}

fn assembled(g: &mut G) -> R {
    let e = epoch(g);
    let c = committee(g, 2, 16, e);
    let h = valid_header(g, &c);
    let k = (c.quorum() as i64 + [0, 1, -1, 0, 2, -2][g.usize(6)]).clamp(0, c.n() as i64) as usize;
    let order = g.permutation(c.n());
    let signers: Vec<_> = order[..k].iter().map(|i| c.members[*i]).collect();
    let mut v = votes(&h, signers.iter());
    // votes given twice, and votes of outsiders, count for nothing
    let dup = g.usize(3).min(v.len());
    for i in 0..dup {
        v.push(v[i].clone());
    }
    let mut bad = None;
    for _ in 0..g.usize(3) {
        let o = c.outsider(g);
        v.push((o.id(), sig_on(o, &h)));
    }
    if !signers.is_empty() && g.chance(1, 3) {
        let i = g.usize(k);
        let id = signers[i].id();
        let other = HeaderBuilder::from_header(&h).round(h.round() + 1).build();
        let s = match g.below(4) {
            3 => off_group_sig(&sig_on(signers[i], &h), g.usize(6)).unwrap_or_default(),
            0 => sig_on(signers[i], &other),
            1 => sig_on(c.outsider(g), &h),
            _ => BlsSignature::default(),
        };
        for x in v.iter_mut().filter(|x| x.0 == id) {
            x.1 = s;
        }
        bad = Some(i);
    }
    g.shuffle(&mut v);
    g.nontrivial_if(k + 1 >= c.quorum());
    g.note(|| format!("committee {}, quorum {}, {k} voters, {dup} repeated, bad vote {bad:?}", c.n(), c.quorum()));
    match Certificate::new_unverified(&c.committee, h.clone(), v) {
        Err(e) => {
            ensure!(k < c.quorum() || bad.is_some(), "genuine votes of a quorum do not make a certificate: {e}");
            g.class("refused");
        }
        Ok(cert) => {
            ensure!(k >= c.quorum(), "a certificate from {k} of {} votes needed", c.quorum());
            ensure!(!cert.is_verified(), "not verified yet");
            let wire = encode(&cert);
            let mut x: Certificate = try_decode(&wire).map_err(|e| e.to_string())?;
            let r = x.validate_received().and_then(|_| x.validate_and_verify(&c.committee));
            ensure!(r.is_ok() == bad.is_none(), "assembled with bad vote {bad:?}: {r:?}");
            let mut x = cert.clone();
            ensure!(x.verify_cert(&c.committee.bls_keys()).is_ok() == bad.is_none());
            let mut expect: Vec<_> = signers.iter().map(|s| s.pk()).collect();
            expect.sort();
            ensure_eq!(cert.signed_by(&c.committee.bls_keys()).1, expect);
            ensure_eq!(cert.signed_authorities_with_committee(&c.committee), expect);
            g.class(if bad.is_none() { "verified" } else { "assembled with a bad vote" });
            // the same certificate does not stand for any other header
            let b = HeaderBuilder::from_header(&h);
            let other = match g.below(7) {
                0 => b.round(h.round() + 1).build(),
                1 => b.created_at(h.created_at() + 1).build(),
                2 => b.author(c.members[(c.members.iter().position(|m| &m.id() == h.author()).expect("author") + 1) % c.n()].id()).build(),
                3 => b.payload([(b256(g), 0u16)].into_iter().collect()).build(),
                4 => b.parents([header_digest(g)].into_iter().collect()).build(),
                5 => b.latest_execution_block(num_hash(g)).build(),
                _ => b.seed_signature(keys()[3].0.sign(b"another")).build(),
            };
            let mut x = cert.clone();
            x.update_header_for_test(other);
            ensure!(x.validate_and_verify(&c.committee).is_err(), "the signatures were accepted for another header");
        }
    }
    Ok(())
}

pub fn check(c: &mut Check) {
    c.assume("the BLS primitives of blst are correct; certificate bytes reach the node through try_decode");
    c.sub("received", Budget::new(20_000, 14), received);
    c.sub("assembled", Budget::new(20_000, 10), assembled);
}
