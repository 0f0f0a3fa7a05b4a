//! E01: encodings round-trip and digests identify content.

use serde::{de::DeserializeOwned, Serialize};
use std::{collections::BTreeMap, fmt::Debug};
use tn_types::*;
use vcore::{ensure, ensure_eq, Budget, Check, G, R};
use vgen::*;

pub const RULE: &str = "a value with at least one non-default field that was encoded, decoded and re-encoded, or a pair of values \
differing in one field, or corrupted bytes that differ from a valid encoding in few places";

/// Round trip through the wire codec, and everything that must be refused.
pub fn wire<T: Serialize + DeserializeOwned>(g: &mut G, what: &'static str, v: &T) -> Result<T, String> {
    let b = encode(v);
    let back: T = try_decode(&b).map_err(|e| format!("{what}: cannot decode what was encoded: {e}"))?;
    ensure_eq!(encode(&back), b, "{what} re-encodes to the same bytes");
    ensure_eq!(encoded_size(v).map_err(|e| e.to_string())?, b.len(), "{what} encoded size");
    let mut w = vec![];
    encode_into_buffer(&mut w, v).map_err(|e| e.to_string())?;
    ensure_eq!(w, b, "{what} encoded into a buffer");
    // cut short
    if !b.is_empty() {
        let n = g.usize(b.len());
        ensure!(try_decode::<T>(&b[..n]).is_err(), "{what}: {n} of {} bytes decode", b.len());
    }
    // padded
    let mut p = b.clone();
    p.push(g.u8());
    ensure!(try_decode::<T>(&p).is_err(), "{what}: trailing bytes are accepted");
    // corrupted: an error or a value, never a panic
    let mut c = b.clone();
    if !c.is_empty() {
        for _ in 0..g.urange(1, 3) {
            let i = g.usize(c.len());
            match g.below(3) {
                0 => c[i] ^= 1 << g.below(8),
                1 => c[i] = g.u8(),
                _ => {
                    let j = g.usize(c.len());
                    c.swap(i, j);
                }
            }
        }
        if let Ok(x) = try_decode::<T>(&c) {
            let e = encode(&x);
            ensure!(try_decode::<T>(&e).is_ok(), "{what}: decoded from corrupted bytes, does not decode again");
        }
    }
    Ok(back)
}

/// Round trip through readable text.
pub fn text<T: Serialize + DeserializeOwned>(what: &'static str, v: &T) -> Result<(), String> {
    let j = serde_json::to_string(v).map_err(|e| format!("{what}: {e}"))?;
    let back: T = serde_json::from_str(&j).map_err(|e| format!("{what} from JSON: {e}"))?;
    ensure_eq!(encode(&back), encode(v), "{what} through JSON");
    let y = serde_yaml::to_string(v).map_err(|e| format!("{what}: {e}"))?;
    let back: T = serde_yaml::from_str(&y).map_err(|e| format!("{what} from YAML: {e}"))?;
    ensure_eq!(encode(&back), encode(v), "{what} through YAML");
    Ok(())
}

/// As in `wire`, for values with a digest.
fn digested<T: Serialize + DeserializeOwned, D: PartialEq + Debug>(
    g: &mut G,
    what: &'static str,
    v: &T,
    digest: impl Fn(&T) -> D,
) -> R {
    let back = wire(g, what, v)?;
    ensure_eq!(digest(&back), digest(v), "digest of {what} after decoding");
    // near misses: other content under the same digest
    let b = encode(v);
    let mut c = b.clone();
    let i = g.usize(c.len());
    c[i] ^= 1 << g.below(8);
    if let Ok(x) = try_decode::<T>(&c) {
        g.class("corrupted bytes decode");
        let same = encode(&x) == b;
        ensure!((digest(&x) == digest(v)) == same, "{what}: one flipped bit at {i}, same content {same}, but same digest {}", !same);
    }
    Ok(())
}

fn sub_dag(g: &mut G) -> (Vec<Certificate>, CommittedSubDag) {
    let c = Com::of(&[0, 1, 2, 3], 7);
    let certs: Vec<Certificate> = g.vec(1, 5, 2, |g| cheap_cert(&c, any_header(g)));
    let mut scores = ReputationScores::new(&c.committee);
    for m in &c.members {
        if g.bool() {
            scores.add_score(&m.id(), g.below(20));
        }
    }
    scores.final_of_schedule = g.bool();
    let leader = certs.last().expect("leader").clone();
    let sd = CommittedSubDag::new(certs.clone(), leader, g.below(9), scores, None, EpochSeedChainValue::from_committed(b256(g)));
    (certs, sd)
}

fn epoch_record(g: &mut G) -> EpochRecord {
    let n = g.usize(7);
    let m = g.usize(7);
    EpochRecord {
        epoch: g.num32(),
        committee: distinct(g, n).into_iter().map(|i| keys()[i].pk()).collect(),
        next_committee: distinct(g, m).into_iter().map(|i| keys()[i].pk()).collect(),
        parent_hash: g.arr32().into(),
        final_state: num_hash(g),
        final_consensus: ConsensusNumHash::new(g.num(), g.arr32().into()),
    }
}

fn output(g: &mut G) -> ConsensusOutput {
    let (_, sd) = sub_dag(g);
    let batches: Vec<CertifiedBatch> =
        g.vec(0, 3, 1, |g| CertifiedBatch { address: address(g), batches: g.vec(0, 3, 1, any_batch) });
    let digests = batches.iter().flat_map(|b| b.batches.iter().map(|b| b.digest())).collect();
    ConsensusOutput::new(sd, g.arr32().into(), g.num(), g.bool(), digests, batches)
}

fn p2p(g: &mut G) -> P2pNode {
    let mut sk = g.arr32();
    let key = libp2p::identity::Keypair::ed25519_from_bytes(&mut sk).expect("key").public();
    let ip = g.u8();
    let port = g.below(65536);
    let a = match g.below(3) {
        0 => format!("/ip4/10.0.0.{ip}/udp/{port}/quic-v1"),
        1 => format!("/ip6/::{ip:x}/udp/{port}/quic-v1"),
        _ => format!("/dns/node{ip}.example/tcp/{port}"),
    };
    let rpc = g.bool().then(|| RpcInfo {
        http: format!("http://n{ip}.example:{port}/").parse().expect("url"),
        ws: g.bool().then(|| "wss://w.example/x?y=1".parse().expect("url")),
    });
    P2pNode { network_address: a.parse().expect("multiaddr"), network_key: key.into(), rpc }
}

fn values(g: &mut G) -> R {
    g.nontrivial();
    match g.below(16) {
        0 | 1 => {
            let h = any_header(g);
            g.class("header");
            digested(g, "header", &h, |h| h.digest())?;
            ensure_eq!(HeaderBuilder::from_header(&h).build().digest(), h.digest(), "digest of a header rebuilt from its fields");
            let back: Header = try_decode(&encode(&h)).map_err(|e| e.to_string())?;
            ensure_eq!(back.payload().iter().collect::<Vec<_>>(), h.payload().iter().collect::<Vec<_>>(), "payload order");
            ensure_eq!(deconstruct_nonce(h.nonce()), (h.epoch(), h.round()), "nonce");
        }
        2 | 3 => {
            g.class("certificate");
            let c = committee(g, 2, 10, 3);
            let h = any_header(g);
            let k = g.usize(c.n() + 1);
            let v = votes(&h, c.members.iter().take(k));
            let mut cert = Certificate::new_unsigned_for_test(&c.committee, h, v).map_err(|e| e.to_string())?;
            let s = some_sig(g);
            cert.set_signature_verification_state(match g.below(5) {
                0 => SignatureVerificationState::Unsigned(s),
                1 => SignatureVerificationState::Unverified(s),
                2 => SignatureVerificationState::VerifiedDirectly(s),
                3 => SignatureVerificationState::VerifiedIndirectly(s),
                _ => SignatureVerificationState::Genesis,
            });
            let back = wire(g, "certificate", &cert)?;
            ensure_eq!(back.digest(), cert.header().digest());
            ensure_eq!(back.aggregated_signature(), cert.aggregated_signature());
            ensure_eq!(back.signed_authorities(), cert.signed_authorities());
            let bytes: Vec<u8> = (&cert).into();
            ensure_eq!(encode(&Certificate::from(&bytes[..])), bytes);
        }
        4 => {
            g.class("vote");
            let h = any_header(g);
            let k = &keys()[g.usize(KEYS)];
            let v = Vote::new(&h, k.id(), k);
            let back = wire(g, "vote", &v)?;
            ensure_eq!(back.header_digest(), h.digest());
            ensure_eq!((back.round(), back.epoch(), back.origin(), back.author()), (h.round(), h.epoch(), h.author(), &k.id()));
            ensure_eq!(Digest::<32>::from(back.digest()), Digest::<32>::from(h.digest()));
            let vi: VoteInfo = (&v).into();
            let vb = wire(g, "vote info", &vi)?;
            ensure_eq!(vb, vi);
            ensure_eq!((vi.epoch(), vi.round(), vi.vote_digest()), (v.epoch(), v.round(), v.digest()));
        }
        5 | 6 => {
            g.class("batch");
            let b = any_batch(g);
            digested(g, "batch", &b, |b| b.digest())?;
            let s = b.clone().seal_slow();
            ensure_eq!(s.digest(), b.digest());
            let back = wire(g, "sealed batch", &s)?;
            ensure_eq!(back, s);
            ensure_eq!(back.unseal(), b);
            text("batch", &b)?;
            let mut r = b.clone();
            r.set_received_at(g.num());
            ensure_eq!(r.digest(), b.digest(), "the time of receipt is no content");
            ensure_eq!(encode(&r), encode(&b), "the time of receipt is not sent");
        }
        7 => {
            g.class("epoch record");
            let r = epoch_record(g);
            digested(g, "epoch record", &r, |r| r.digest())?;
            text("epoch record", &r)?;
            let k = &keys()[g.usize(KEYS)];
            let v = r.sign_vote(k);
            let back = wire(g, "epoch vote", &v)?;
            ensure_eq!(back, v);
            ensure!(back.check_signature());
            let cert = EpochCertificate {
                epoch_hash: r.digest(),
                signature: some_sig(g),
                signed_authorities: g.vec(0, 9, 4, |g| g.below(200_000) as u32).into_iter().collect(),
            };
            let back = wire(g, "epoch certificate", &cert)?;
            ensure_eq!(back, cert);
            text("epoch certificate", &cert)?;
        }
        8 | 9 => {
            g.class("consensus header");
            let (_, sd) = sub_dag(g);
            let h = ConsensusHeader { parent_hash: g.arr32().into(), sub_dag: sd.clone(), number: g.num(), extra: B256::default() };
            digested(g, "sub-DAG", &sd, |s| s.digest())?;
            let back = wire(g, "consensus header", &h)?;
            ensure_eq!(back.digest(), h.digest());
            ensure_eq!(ConsensusHeader::digest_from_parts(h.parent_hash, &h.sub_dag, h.number), h.digest());
            ensure_eq!(back, h);
            let bytes: Vec<u8> = (&h).into();
            ensure_eq!(ConsensusHeader::from(&bytes[..]), h);
        }
        10 => {
            g.class("consensus output");
            let o = output(g);
            let back = wire(g, "consensus output", &o)?;
            ensure_eq!(back.digest(), o.digest());
            ensure_eq!(back.consensus_header_hash(), o.consensus_header().digest());
            ensure_eq!(back.num_hash(), ConsensusNumHash::new(o.number(), o.consensus_header().digest()));
            ensure_eq!(back.batch_digests(), o.batch_digests());
            ensure_eq!(ConsensusHeader::from(o.clone()), o.consensus_header());
            let flat: Vec<_> = o.flatten_batches().into_iter().map(|(c, b)| o.batches()[c].batches[b].digest()).collect();
            ensure_eq!(flat.iter().collect::<Vec<_>>(), o.batch_digests().iter().collect::<Vec<_>>(), "flattened order");
            for i in 0..flat.len() + 1 {
                ensure_eq!(o.get_batch_digest(i), flat.get(i).copied());
                ensure_eq!(o.close_epoch_for_last_batch(i), o.close_epoch().then_some(i + 1 >= flat.len()));
            }
        }
        11 => {
            g.class("consensus result");
            let r = ConsensusResult {
                epoch: g.num32(),
                round: g.num32(),
                number: g.num(),
                hash: g.arr32().into(),
                validator: keys()[g.usize(KEYS)].pk(),
                signature: some_sig(g),
            };
            let back = wire(g, "consensus result", &r)?;
            ensure_eq!(back, r);
            ensure_eq!(back.digest(), ConsensusResult::digest_data(r.epoch, r.round, r.number, r.hash));
        }
        12 => {
            g.class("committee");
            let e = g.num32();
            let c = committee(g, 2, 12, e);
            let back = wire(g, "committee", &c.committee)?;
            ensure_eq!(back, c.committee);
            text("committee", &c.committee)?;
        }
        13 => {
            g.class("network information");
            let i = NodeP2pInfo::new(p2p(g), p2p(g));
            ensure_eq!(wire(g, "p2p info", &i.primary.network_key).map(|_| ())?, ());
            text("p2p info", &i.primary.network_key)?;
            let y = serde_yaml::to_string(&i).map_err(|e| e.to_string())?;
            ensure_eq!(serde_yaml::from_str::<NodeP2pInfo>(&y).map_err(|e| e.to_string())?, i);
            let y = serde_json::to_string(&i).map_err(|e| e.to_string())?;
            ensure_eq!(serde_json::from_str::<NodeP2pInfo>(&y).map_err(|e| e.to_string())?, i);
            let b = BootstrapServer::new(i.primary.clone(), i.worker.clone());
            ensure_eq!(wire(g, "bootstrap server", &b)?, b);
        }
        14 => {
            g.class("reputation scores");
            let mut s = ReputationScores::default();
            let mut m: BTreeMap<AuthorityIdentifier, u64> = BTreeMap::new();
            for _ in 0..g.usize(12) {
                let k = keys()[g.usize(6)].id();
                let v = g.below(1 << 40);
                s.add_score(&k, v);
                *m.entry(k).or_default() += v;
            }
            s.final_of_schedule = g.bool();
            ensure_eq!(s.scores_per_authority, m);
            let back = wire(g, "scores", &s)?;
            ensure_eq!(back, s);
            text("scores", &s)?;
            ensure_eq!(s.total_authorities(), m.len() as u64);
            ensure_eq!(s.all_zero(), m.values().all(|v| *v == 0));
            let d = s.authorities_by_score_desc();
            ensure_eq!(d.iter().cloned().collect::<BTreeMap<_, _>>(), m);
            ensure!(d.windows(2).all(|w| (w[0].1, &w[0].0) > (w[1].1, &w[1].0)), "descending by score, then identity: {d:?}");
        }
        _ => {
            g.class("seed message and intent");
            let m = EpochSeedMessage::new(g.num32(), g.num32(), g.arr32().into());
            ensure_eq!(wire(g, "seed message", &m)?, m);
            let s = [
                IntentScope::ProofOfPossession,
                IntentScope::EpochBoundary,
                IntentScope::ConsensusDigest,
                IntentScope::SystemMessage,
                IntentScope::EpochCloseSeed,
            ][g.usize(5)];
            let i = if g.bool() { Intent::telcoin(s) } else { Intent::consensus(s) };
            ensure_eq!(wire(g, "intent", &i)?, i);
            ensure_eq!(encode(&i).len(), INTENT_PREFIX_LENGTH);
            let t = hex::encode(encode(&i));
            ensure_eq!(t.parse::<Intent>().map_err(|e| e.to_string())?, i);
            ensure_eq!(format!("0x{t}").parse::<Intent>().map_err(|e| e.to_string())?, i);
            let d = Digest::<32>::new(g.arr32());
            ensure_eq!(wire(g, "digest", &d)?, d);
            text("digest", &d)?;
        }
    }
    Ok(())
}

/// Two values that differ in exactly one field never share a digest.
fn identify(g: &mut G) -> R {
    g.nontrivial();
    match g.below(6) {
        0 => {
            let h = any_header(g);
            let b = || HeaderBuilder::from_header(&h);
            let (f, o) = match g.below(10) {
                0 => ("author", b().author(AuthorityIdentifier::from_bytes(g.arr32())).build()),
                1 => ("round", b().round(h.round().wrapping_add(1 + g.below(1 << 31) as u32)).build()),
                2 => ("epoch", b().epoch(h.epoch().wrapping_add(1 + g.below(1 << 31) as u32)).build()),
                3 => ("creation time", b().created_at(h.created_at().wrapping_add(1 + g.below(1 << 40))).build()),
                4 => {
                    let mut p = h.payload().clone();
                    p.insert(b256(g), 0);
                    ("payload", b().payload(p).build())
                }
                5 if !h.payload().is_empty() => {
                    let mut p = h.payload().clone();
                    let i = g.usize(p.len());
                    p[i] ^= 1;
                    ("worker of a batch", b().payload(p).build())
                }
                6 if h.payload().len() > 1 => {
                    let mut p = h.payload().clone();
                    let i = g.usize(p.len() - 1);
                    p.swap_indices(i, i + 1);
                    ("order of the payload", b().payload(p).build())
                }
                7 => {
                    let mut p = h.parents().clone();
                    p.insert(header_digest(g));
                    ("parents", b().parents(p).build())
                }
                8 => {
                    let mut n = h.latest_execution_block();
                    if g.bool() {
                        n.number = n.number.wrapping_add(1);
                    } else {
                        n.hash = b256(g);
                    }
                    ("latest execution block", b().latest_execution_block(n).build())
                }
                _ => {
                    let s = keys()[0].0.sign(b"seed signature of another header");
                    ("seed signature", b().seed_signature(s).build())
                }
            };
            g.class("header");
            ensure!(o.digest() != h.digest(), "two headers differing in {f} have the same digest");
            ensure!(o != h, "two headers differing in {f} are equal");
        }
        1 => {
            let b = any_batch(g);
            let mut o = b.clone();
            let f = match g.below(6) {
                0 => {
                    o.epoch ^= 1 << g.below(32);
                    "epoch"
                }
                1 => {
                    o.beneficiary = address(g);
                    "beneficiary"
                }
                2 => {
                    o.base_fee_per_gas ^= 1 << g.below(64);
                    "base fee"
                }
                3 => {
                    o.worker_id ^= 1 << g.below(16);
                    "worker"
                }
                4 => {
                    o.transactions.push(vec![]);
                    "number of transactions"
                }
                _ => {
                    // the same bytes, divided otherwise
                    let n = g.below(3) as usize;
                    o.transactions.push(vec![1, 2, 3, 4]);
                    let mut x = b.clone();
                    x.transactions.push([1u8, 2, 3, 4][..=n].to_vec());
                    x.transactions.push([1u8, 2, 3, 4][n + 1..].to_vec());
                    ensure!(x.digest() != o.digest(), "batches with transactions divided otherwise have the same digest");
                    "transactions"
                }
            };
            g.class("batch");
            ensure!(o.digest() != b.digest(), "two batches differing in {f} have the same digest");
        }
        2 => {
            let r = epoch_record(g);
            let mut o = r.clone();
            let f = match g.below(9) {
                0 => {
                    o.epoch ^= 1 << g.below(32);
                    "epoch"
                }
                1 => {
                    o.committee.push(keys()[g.usize(KEYS)].pk());
                    "committee"
                }
                2 => {
                    o.next_committee.push(keys()[g.usize(KEYS)].pk());
                    "next committee"
                }
                3 => {
                    o.parent_hash = g.arr32().into();
                    "parent"
                }
                4 => {
                    o.final_state.number ^= 1 << g.below(64);
                    "final state number"
                }
                5 => {
                    o.final_state.hash = b256(g);
                    "final state hash"
                }
                6 => {
                    o.final_consensus.number ^= 1 << g.below(64);
                    "final consensus number"
                }
                7 => {
                    o.final_consensus.hash = g.arr32().into();
                    "final consensus hash"
                }
                _ => {
                    // a member moved from one committee to the other
                    let k = keys()[g.usize(KEYS)].pk();
                    let mut x = r.clone();
                    x.committee.push(k);
                    o.next_committee.insert(0, k);
                    ensure!(x.digest() != o.digest(), "a member moved between committees leaves the digest unchanged");
                    "committees"
                }
            };
            g.class("epoch record");
            ensure!(o.digest() != r.digest(), "two epoch records differing in {f} have the same digest");
        }
        3 => {
            let c = Com::of(&[0, 1, 2, 3], 7);
            let certs: Vec<Certificate> = g.vec(2, 5, 2, |g| cheap_cert(&c, any_header(g)));
            let seed = b256(g);
            let mk = |certs: Vec<Certificate>, scores: ReputationScores, prev: Option<CommittedSubDag>, seed: B256| {
                let l = certs.last().expect("leader").clone();
                CommittedSubDag::new(certs, l, 1, scores, prev, EpochSeedChainValue::from_committed(seed))
            };
            let s = ReputationScores::new(&c.committee);
            let a = mk(certs.clone(), s.clone(), None, seed);
            let (f, o) = match g.below(6) {
                0 => {
                    let mut x = certs.clone();
                    let i = g.usize(x.len() - 1);
                    x[i] = cheap_cert(&c, any_header(g));
                    ("a header", mk(x, s, None, seed))
                }
                1 => {
                    let mut x = certs.clone();
                    x.remove(0);
                    ("the number of headers", mk(x, s, None, seed))
                }
                2 => {
                    let mut s = s;
                    s.add_score(&c.members[g.usize(4)].id(), 1 + g.below(5));
                    ("a score", mk(certs.clone(), s, None, seed))
                }
                3 => {
                    let mut s = s;
                    s.final_of_schedule = true;
                    ("the end of the scoring window", mk(certs.clone(), s, None, seed))
                }
                4 => {
                    let at = *certs.last().expect("leader").header().created_at();
                    if at == u64::MAX {
                        return Ok(());
                    }
                    let h = HeaderBuilder::default().created_at(at + 1).build();
                    let prev = mk(vec![cheap_cert(&c, h)], s.clone(), None, seed);
                    ("the commit time", mk(certs.clone(), s, Some(prev), seed))
                }
                _ => ("the randomness", mk(certs.clone(), s, None, b256(g))),
            };
            g.class("sub-DAG");
            ensure!(o.digest() != a.digest(), "two sub-DAGs differing in {f} have the same digest");
            let p: ConsensusHeaderDigest = g.arr32().into();
            ensure!(
                ConsensusHeader::digest_from_parts(p, &o, 1) != ConsensusHeader::digest_from_parts(p, &a, 1),
                "two consensus headers over sub-DAGs differing in {f} have the same digest"
            );
        }
        4 => {
            let (_, sd) = sub_dag(g);
            let p: ConsensusHeaderDigest = g.arr32().into();
            let n = g.num();
            let a = ConsensusHeader::digest_from_parts(p, &sd, n);
            let (f, o) = if g.bool() {
                ("number", ConsensusHeader::digest_from_parts(p, &sd, n ^ (1 << g.below(64))))
            } else {
                ("parent", ConsensusHeader::digest_from_parts(g.arr32().into(), &sd, n))
            };
            g.class("consensus header");
            ensure!(o != a, "two consensus headers differing in {f} have the same digest");
        }
        _ => {
            let (e, r, n) = (g.num32(), g.num32(), g.num());
            let h: ConsensusHeaderDigest = g.arr32().into();
            let a = ConsensusResult::digest_data(e, r, n, h);
            let (f, o) = match g.below(5) {
                0 => ("epoch", ConsensusResult::digest_data(e ^ (1 << g.below(32)), r, n, h)),
                1 => ("round", ConsensusResult::digest_data(e, r ^ (1 << g.below(32)), n, h)),
                2 => ("number", ConsensusResult::digest_data(e, r, n ^ (1 << g.below(64)), h)),
                3 if e != r => ("epoch and round exchanged", ConsensusResult::digest_data(r, e, n, h)),
                _ => ("hash", ConsensusResult::digest_data(e, r, n, g.arr32().into())),
            };
            g.class("consensus result");
            ensure!(o != a, "two consensus results differing in {f} have the same digest");
        }
    }
    Ok(())
}

/// Encoded keys are found again, distinct and sort like their values.
fn key_order(g: &mut G) -> R {
    fn pair<K: Serialize + DeserializeOwned + Ord + Debug>(a: K, b: K) -> R {
        let (x, y) = (encode_key(&a), encode_key(&b));
        ensure_eq!(x.cmp(&y), a.cmp(&b), "order of the keys {a:?} and {b:?}");
        ensure_eq!(decode_key::<K>(&x), a, "decoded key");
        ensure_eq!(try_decode_key::<K>(&y).map_err(|e| e.to_string())?, b, "decoded key");
        let n = x.len() - 1;
        ensure!(try_decode_key::<K>(&x[..n]).is_err(), "a shortened key decodes");
        Ok(())
    }
    g.nontrivial();
    // values that share prefixes
    fn near(g: &mut G) -> ([u8; 32], [u8; 32]) {
        let a = g.arr32();
        let mut b = a;
        if !g.chance(1, 8) {
            b[g.usize(32)] = g.u8();
        }
        (a, b)
    }
    let ids = |a: ([u8; 32], [u8; 32])| (AuthorityIdentifier::from_bytes(a.0), AuthorityIdentifier::from_bytes(a.1));
    match g.below(9) {
        0 => pair(g.num32(), g.num32()),
        1 => pair(g.num(), g.num()),
        2 => {
            let (a, b) = ids(near(g));
            pair(a, b)
        }
        3 => {
            let (a, b) = near(g);
            pair(HeaderDigest::new(a), HeaderDigest::new(b))
        }
        4 => {
            let (a, b) = near(g);
            pair(B256::from(a), B256::from(b))
        }
        5 => {
            let (a, b) = ids(near(g));
            let r = g.num32();
            let s = if g.bool() { r } else { g.num32() };
            pair((r, a), (s, b))
        }
        6 => {
            let (a, b) = ids(near(g));
            pair((a, g.num32()), (b, g.num32()))
        }
        7 => {
            let (a, b) = near(g);
            pair((B256::from(a), g.below(65536) as u16), (B256::from(b), g.below(65536) as u16))
        }
        _ => {
            let e = g.num32();
            pair((e, g.num()), (if g.bool() { e } else { g.num32() }, g.num()))
        }
    }
}

/// Arbitrary bytes decode to an error or a value, without a panic and without the memory they claim.
fn arbitrary(g: &mut G) -> R {
    let n = g.usize(120);
    let mut b = g.bytes(n);
    if g.bool() {
        // a large length claimed somewhere
        let i = g.usize(b.len() + 1);
        for x in [0xff, 0xff, 0xff, 0xff, 0x07].iter().rev() {
            b.insert(i, *x);
        }
    }
    g.nontrivial_if(b.len() > 8);
    fn t<T: Serialize + DeserializeOwned>(b: &[u8]) {
        if let Ok(v) = try_decode::<T>(b) {
            let _ = encode(&v);
        }
        if let Ok(v) = try_decode_key::<T>(b) {
            let _ = encode_key(&v);
        }
    }
    t::<Header>(&b);
    t::<Certificate>(&b);
    t::<Vote>(&b);
    t::<Batch>(&b);
    t::<SealedBatch>(&b);
    t::<EpochRecord>(&b);
    t::<EpochVote>(&b);
    t::<EpochCertificate>(&b);
    t::<ConsensusHeader>(&b);
    t::<ConsensusResult>(&b);
    t::<ReputationScores>(&b);
    t::<BlsPublicKey>(&b);
    t::<BlsSignature>(&b);
    t::<NetworkPublicKey>(&b);
    t::<Intent>(&b);
    Ok(())
}

/// A set of signers as a hostile sender may write it: any containers of the roaring format, in any order.
fn hostile_bitmap(g: &mut G) -> Vec<u8> {
    let runs = g.bool();
    let n = if g.chance(1, 30) { g.urange(1, 300) } else { g.urange(0, 5) };
    let mut keys: Vec<u16> = (0..n).map(|_| if g.chance(3, 4) { g.below(3) as u16 } else { g.below(65536) as u16 }).collect();
    if g.bool() {
        keys.sort();
    }
    if g.bool() {
        keys.dedup();
    }
    let n = keys.len();
    let mut out = vec![];
    let run_at: Vec<bool> = (0..n).map(|_| runs && n > 0 && g.chance(2, 3)).collect();
    if runs && n > 0 {
        out.extend((12347u32 | ((n as u32 - 1) << 16)).to_le_bytes());
        let mut flags = vec![0u8; n.div_ceil(8)];
        for i in 0..n {
            flags[i / 8] |= (run_at[i] as u8) << (i % 8);
        }
        out.extend(flags);
    } else {
        out.extend(12346u32.to_le_bytes());
        out.extend((n as u32).to_le_bytes());
    }
    let mut body: Vec<Vec<u8>> = vec![];
    let mut cards = vec![];
    for r in &run_at {
        if *r {
            let k = g.urange(0, 3);
            let mut b = (k as u16).to_le_bytes().to_vec();
            for _ in 0..k {
                b.extend((g.below(10) as u16).to_le_bytes());
                b.extend((if g.chance(1, 10) { g.below(65536) as u16 } else { g.below(9) as u16 }).to_le_bytes());
            }
            cards.push(g.below(20) as u16);
            body.push(b);
        } else if g.chance(1, 12) {
            let bits: Vec<u8> = g.blob(8192);
            let c: u32 = bits.iter().map(|b| b.count_ones()).sum();
            cards.push(if g.chance(4, 5) { c.saturating_sub(1) as u16 } else { g.below(65536) as u16 });
            body.push(bits);
        } else {
            let mut v: Vec<u16> = (0..g.urange(1, 5)).map(|_| g.below(12) as u16).collect();
            if g.chance(5, 6) {
                v.sort();
                v.dedup();
            }
            cards.push(v.len() as u16 - 1);
            body.push(v.iter().flat_map(|x| x.to_le_bytes()).collect());
        }
    }
    for (k, c) in keys.iter().zip(&cards) {
        out.extend(k.to_le_bytes());
        out.extend(c.to_le_bytes());
    }
    if !runs || n == 0 || n >= 4 {
        let mut at = out.len() + 4 * n;
        for b in &body {
            out.extend((if g.chance(9, 10) { at as u32 } else { g.num32() }).to_le_bytes());
            at += b.len();
        }
    }
    out.extend(body.concat());
    if g.chance(1, 6) {
        let k = g.urange(1, 9);
        out.extend(g.bytes(k));
    }
    out
}

fn uleb(mut n: usize) -> Vec<u8> {
    let mut v = vec![];
    while n >= 128 {
        v.push(n as u8 | 128);
        n >>= 7;
    }
    v.push(n as u8);
    v
}

/// What is accepted from a sender can be stored and passed on.
fn bitmaps(g: &mut G) -> R {
    let bits = hostile_bitmap(g);
    let c = committee(g, 4, 10, 3);
    let h = valid_header(g, &c);
    let v = votes(&h, c.members.iter());
    let cert = Certificate::new_unsigned_for_test(&c.committee, h, v).map_err(|e| e.to_string())?;
    fn swap<T: Serialize + DeserializeOwned + Debug>(
        what: &str,
        v: &T,
        old: &roaring::RoaringBitmap,
        bits: &[u8],
        of: impl Fn(&T) -> &roaring::RoaringBitmap,
    ) -> Result<bool, String> {
        let mut b = encode(v);
        let mut was = vec![];
        old.serialize_into(&mut was).map_err(|e| e.to_string())?;
        ensure!(b.ends_with(&was), "the signers come last");
        b.truncate(b.len() - was.len() - uleb(was.len()).len());
        b.extend(uleb(bits.len()));
        b.extend(bits);
        let Ok(x) = try_decode::<T>(&b) else { return Ok(false) };
        ensure!(of(&x).len() as usize <= 8 * bits.len(), "{what}: {} bytes of signers expand to {} values", bits.len(), of(&x).len());
        let e = encode(&x);
        let y = try_decode::<T>(&e).map_err(|e| format!("{what}: accepted from a sender, but what is stored for it cannot be read: {e}"))?;
        ensure!(of(&y) == of(&x) && encode(&y) == e, "{what}: reads back different");
        let listed: Vec<u32> = of(&x).iter().collect();
        ensure!(listed.windows(2).all(|w| w[0] < w[1]), "{what}: signers listed more than once or out of order: {listed:?}");
        Ok(true)
    }
    let a = swap("certificate", &cert, cert.signed_authorities(), &bits, |c: &Certificate| c.signed_authorities())?;
    let ec = EpochCertificate { epoch_hash: EpochDigest::default(), signature: some_sig(g), signed_authorities: (0..3).collect() };
    let b = swap("epoch certificate", &ec, &ec.signed_authorities, &bits, |c: &EpochCertificate| &c.signed_authorities)?;
    ensure_eq!(a, b);
    g.class(if a { "signers accepted" } else { "signers refused" });
    g.nontrivial();
    Ok(())
}

pub fn check(c: &mut Check) {
    c.assume("blake3 and keccak are collision free; equality of values is compared through their encodings where the type's own equality is by digest");
    c.sub("values", Budget::new(120_000, 12), values);
    c.sub("bitmaps", Budget::new(40_000, 6), bitmaps);
    c.sub("identify", Budget::new(120_000, 8), identify);
    c.sub("key-order", Budget::new(200_000, 4), key_order);
    c.sub("arbitrary", Budget::new(100_000, 5), arbitrary);
}
