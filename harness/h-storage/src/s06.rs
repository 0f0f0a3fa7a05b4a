//! S06: the store of epoch records and their certificates.

use crate::s03::stop_point;
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use std::time::Duration;
use tn_storage::epoch_records::{CertifiedRecordError, EpochDbError, EpochRecordDb, CERTS_NAME, RECORDS_NAME};
use tn_types::*;
use vcore::{clip, copy_dir, ensure, ensure_eq, Budget, Check, Scratch, G, R};
use vfs::{Op, Recorder};
use vgen::*;

pub const RULE: &str = "at least three records stored with a certificate missing or late and a reopening; for stops, one that happened before the last operation; for bundles, one extending another";

fn s<T: std::fmt::Display>(what: &str) -> impl Fn(T) -> String + '_ {
    move |x| format!("{what}: {x}")
}

/// One epoch: its record and a certificate of it.
#[derive(Clone)]
struct E {
    rec: EpochRecord,
    cert: EpochCertificate,
    genuine: bool,
}

/// A certificate by the members at these places.
pub fn certify(rec: &EpochRecord, by: &[usize]) -> EpochCertificate {
    let mut sigs = vec![];
    let mut bits = roaring::RoaringBitmap::new();
    for &i in by {
        sigs.push(rec.sign_vote(key_of(&rec.committee[i])).signature);
        bits.insert(i as u32);
    }
    let signature = BlsAggregateSignature::aggregate(&sigs, true).expect("aggregate").to_signature();
    EpochCertificate { epoch_hash: rec.digest(), signature, signed_authorities: bits }
}

fn fake(g: &mut G, rec: &EpochRecord) -> EpochCertificate {
    EpochCertificate { epoch_hash: rec.digest(), signature: some_sig(g), signed_authorities: (0..3u32).collect() }
}

/// (Reading keys back takes most of the time, so there are few unless signatures matter.)
fn key_set(g: &mut G, genuine: bool) -> Vec<BlsPublicKey> {
    let n = if genuine { 4 + g.usize(3) } else { 1 + g.usize(2) };
    let mut v: Vec<_> = distinct(g, n).into_iter().map(|i| keys()[i].pk()).collect();
    v.sort();
    v
}

/// A chain of records from `from` on after the record given.
fn chain(g: &mut G, prev: Option<&EpochRecord>, n: usize, genuine: bool) -> Vec<E> {
    let mut out: Vec<E> = vec![];
    let (mut epoch, mut parent, mut number) = prev.map_or((0, EpochDigest::default(), 0), |p| (p.epoch + 1, p.digest(), p.final_consensus.number));
    let mut committee = prev.map_or_else(|| key_set(g, genuine), |p| p.next_committee.clone());
    for _ in 0..n {
        let next = if g.bool() { committee.clone() } else { key_set(g, genuine) };
        number += 1 + if g.bool() { g.below(4) } else { g.below(1 << 30) };
        let rec = EpochRecord {
            epoch,
            committee: committee.clone(),
            next_committee: next.clone(),
            parent_hash: parent,
            final_state: num_hash(g),
            final_consensus: ConsensusNumHash::new(number, g.arr32().into()),
        };
        let gen = genuine && g.chance(3, 4);
        let cert = if gen {
            let by: Vec<usize> = (0..rec.super_quorum()).collect();
            certify(&rec, &by)
        } else {
            fake(g, &rec)
        };
        parent = rec.digest();
        epoch += 1;
        committee = next;
        out.push(E { rec, cert, genuine: gen });
    }
    out
}

#[derive(Clone, Default)]
struct Model {
    recs: Vec<EpochRecord>,
    certs: BTreeMap<EpochDigest, EpochCertificate>,
    dummy: Option<EpochRecord>,
}

impl Model {
    fn record(&self, e: Epoch) -> Option<EpochRecord> {
        if e == 0 && self.recs.is_empty() {
            return self.dummy.clone();
        }
        self.recs.get(e as usize).cloned()
    }
    fn epoch_of(&self, number: u64) -> Epoch {
        self.recs.iter().take_while(|r| r.final_consensus.number < number).count() as Epoch
    }
}

fn verified(es: &[E], r: &EpochRecord) -> bool {
    es.iter().any(|e| e.genuine && e.rec == *r)
}

/// Everything the store answers about the epochs of the universe `es`.
async fn check_db(g: &mut G, db: &EpochRecordDb, m: &Model, es: &[E], what: &str) -> R {
    let n = m.recs.len();
    let what = format!("{what} ({n} records, {} certificates)", m.certs.len());
    let what = what.as_str();
    ensure_eq!(db.latest_record().await, m.recs.last().cloned().or(m.dummy.clone()), "{what}: latest");
    ensure_eq!(db.contains_dummy_epoch0().await, m.recs.is_empty() && m.dummy.is_some(), "{what}: dummy");
    // all of a short chain, some of a long one
    let len = es.len();
    let mut picks: BTreeSet<usize> = if len <= 12 { (0..len).collect() } else { (0..8).map(|_| g.usize(len)).collect() };
    if n > 0 {
        picks.insert(n - 1);
    }
    for i in picks {
        let e = &es[i];
        let k = e.rec.epoch;
        let d = e.rec.digest();
        let want = m.record(k);
        ensure_eq!(db.record_by_epoch(k).await, want, "{what}: record of epoch {k}");
        ensure_eq!(db.contains_epoch(k).await, want.is_some(), "{what}: contains epoch {k}");
        let here = m.recs.iter().any(|r| *r == e.rec);
        let by = db.record_by_digest(d).await;
        ensure_eq!(by, here.then(|| e.rec.clone()), "{what}: record of epoch {k} by digest");
        ensure_eq!(db.contains_record_digest(d).await, here, "{what}: contains the digest of epoch {k}");
        let cert = m.certs.get(&d).cloned();
        ensure_eq!(db.cert_by_digest(d).await, cert, "{what}: certificate of epoch {k}");
        let both = want.clone().map(|r| {
            let c = m.certs.get(&r.digest()).cloned();
            (r, c)
        });
        ensure_eq!(db.get_epoch_by_number(k).await, both, "{what}: record and certificate of epoch {k}");
        ensure_eq!(db.get_epoch_by_hash(d).await, here.then(|| (e.rec.clone(), cert)), "{what}: record and certificate of epoch {k} by digest");
        let got = db.certified_record_by_epoch(k).await;
        match both {
            None => ensure_eq!(got, Err(CertifiedRecordError::MissingRecord(k)), "{what}: certified record of epoch {k}"),
            Some((r, None)) => ensure_eq!(got, Err(CertifiedRecordError::MissingCertificate(k, r.digest())), "{what}: certified record of epoch {k}"),
            Some((r, Some(_))) if verified(es, &r) => ensure_eq!(got, Ok(r), "{what}: certified record of epoch {k}"),
            Some((r, Some(_))) => ensure_eq!(got, Err(CertifiedRecordError::InvalidCertificate(k, r.digest())), "{what}: certified record of epoch {k}"),
        }
        let keys = want
            .map(|r| r.committee)
            .or(k.checked_sub(1).and_then(|p| m.record(p)).map(|r| r.next_committee))
            .map(|v| v.into_iter().collect::<BTreeSet<_>>());
        ensure_eq!(db.get_committee_keys(k).await, keys, "{what}: committee of epoch {k}");
        let f = e.rec.final_consensus.number;
        for x in [f - 1, f, f + 1] {
            ensure_eq!(db.number_to_epoch(x), m.epoch_of(x), "{what}: epoch of output {x}");
        }
    }
    for x in [0, 1, u64::MAX] {
        ensure_eq!(db.number_to_epoch(x), m.epoch_of(x), "{what}: epoch of output {x}");
    }
    for k in [n as Epoch, n as Epoch + 1, u32::MAX] {
        ensure_eq!(db.record_by_epoch(k).await, m.record(k), "{what}: record of epoch {k}");
        ensure_eq!(db.contains_epoch(k).await, m.record(k).is_some(), "{what}: contains epoch {k}");
    }
    let some: EpochDigest = g.arr32().into();
    ensure_eq!(db.record_by_digest(some).await, None, "{what}: record of an arbitrary digest");
    ensure_eq!(db.cert_by_digest(some).await, None, "{what}: certificate of an arbitrary digest");
    for tip in [0, n as Epoch, g.usize(n + 3) as Epoch] {
        let want = (0..tip).find(|k| m.record(*k).is_none_or(|r| !m.certs.contains_key(&r.digest())));
        ensure_eq!(db.first_missing_historical_cert(tip).await, want, "{what}: first missing certificate below {tip}");
    }
    Ok(())
}

fn size(g: &mut G) -> usize {
    match g.below(10) {
        0 => 20 + g.usize(60),
        _ => 1 + g.usize(8),
    }
}

fn history(g: &mut G) -> R {
    let sc = Scratch::new();
    let dir = sc.sub("epochs");
    let n = size(g);
    let genuine = n < 9 && g.chance(1, 6);
    let es = chain(g, None, n, genuine);
    let mut m = Model::default();
    let mut trace: Vec<String> = vec![];
    let (mut reopened, mut holes) = (false, false);
    block_on(async {
        let mut db = EpochRecordDb::open(&dir).map_err(s("open"))?;
        for _ in 0..2 + g.usize(3 * n) {
            let k = m.recs.len();
            match g.weighted(&[6, 6, 3, 2, 1, 1, 1, 2, 2, 1, 1]) {
                0 if k < n => {
                    trace.push(format!("record {k}"));
                    db.save_record(es[k].rec.clone()).await.map_err(s("record"))?;
                    m.recs.push(es[k].rec.clone());
                    holes = true;
                }
                1 if k < n => {
                    trace.push(format!("record and certificate {k}"));
                    db.save(es[k].rec.clone(), es[k].cert.clone()).await.map_err(s("record and certificate"))?;
                    m.recs.push(es[k].rec.clone());
                    m.certs.entry(es[k].rec.digest()).or_insert(es[k].cert.clone());
                }
                2 => {
                    // of any epoch, also of one whose record is not there yet
                    let i = g.usize((k + 2).min(n));
                    trace.push(format!("certificate {i}"));
                    let mut c = es[i].cert.clone();
                    if m.certs.contains_key(&c.epoch_hash) && g.bool() {
                        c.signature = some_sig(g);
                    }
                    db.save_certificate(c.epoch_hash, c.clone()).await.map_err(s("certificate"))?;
                    m.certs.entry(c.epoch_hash).or_insert(c);
                }
                3 if k > 0 => {
                    let i = g.usize(k);
                    trace.push(format!("again {i}"));
                    if g.bool() {
                        db.save_record(es[i].rec.clone()).await.map_err(s("record again"))?;
                    } else {
                        db.save(es[i].rec.clone(), es[i].cert.clone()).await.map_err(s("record and certificate again"))?;
                        m.certs.entry(es[i].rec.digest()).or_insert(es[i].cert.clone());
                    }
                }
                4 => {
                    let i = k + 1 + g.usize(3);
                    trace.push(format!("record {i}, too far"));
                    let mut r = es[n - 1].rec.clone();
                    r.epoch = i as Epoch;
                    let e = db.save_record(r).await;
                    ensure!(matches!(e, Err(EpochDbError::EpochOutOfOrder(..))), "{e:?} for epoch {i} after {k} records");
                }
                5 if k > 0 => {
                    let i = g.usize(k);
                    trace.push(format!("another record {i}"));
                    let mut r = es[i].rec.clone();
                    r.final_state = num_hash(g);
                    if g.bool() {
                        r.final_consensus = ConsensusNumHash::new(r.final_consensus.number + 1 + g.below(3), g.arr32().into());
                    }
                    db.save_record(r).await.map_err(s("another record"))?;
                }
                6 => {
                    trace.push("dummy".into());
                    // (its certificate does not exist, so it does not count as certified later either)
                    let mut r = es[0].rec.clone();
                    r.final_state = BlockNumHash::default();
                    r.final_consensus = ConsensusNumHash::default();
                    if g.chance(1, 4) {
                        r.epoch = 1;
                        db.save_dummy_epoch0(r).await.map_err(s("dummy"))?;
                        ensure!(db.persist().await.is_err(), "a dummy of epoch 1");
                        ensure_eq!(db.persist().await.map_err(s("persist")), Ok(()), "the failure is reported once");
                    } else {
                        db.save_dummy_epoch0(r.clone()).await.map_err(s("dummy"))?;
                        m.dummy = Some(r);
                    }
                }
                7 => {
                    trace.push("persist".into());
                    db.persist().await.map_err(s("persist"))?;
                }
                8 => {
                    trace.push("reopen".into());
                    drop(db);
                    db = EpochRecordDb::open(&dir).map_err(s("reopen"))?;
                    m.dummy = None;
                    reopened = true;
                }
                9 => {
                    // what a program that only reads sees
                    trace.push("read".into());
                    db.persist().await.map_err(s("persist"))?;
                    let r = EpochRecordDb::read_records_from_pack(dir.join(RECORDS_NAME)).map_err(s("read the records"))?;
                    ensure_eq!(r, m.recs, "records read; {trace:?}");
                    let c = EpochRecordDb::read_certs_from_pack(dir.join(CERTS_NAME)).map_err(s("read the certificates"))?;
                    let c: BTreeMap<_, _> = c.into_iter().map(|c| (c.epoch_hash, c)).collect();
                    ensure_eq!(c, m.certs, "certificates read; {trace:?}");
                }
                _ => {
                    // a clone does not end the store when it goes
                    let d2 = db.clone();
                    ensure_eq!(d2.latest_record().await, m.recs.last().cloned().or(m.dummy.clone()), "latest of a clone");
                    drop(d2);
                }
            }
            if g.chance(1, 4) {
                check_db(g, &db, &m, &es, "running").await.map_err(|e| format!("{e}; {}", trace.join(", ")))?;
            }
        }
        check_db(g, &db, &m, &es, "end").await.map_err(|e| format!("{e}; {}", trace.join(", ")))?;
        drop(db);
        m.dummy = None;
        let db = EpochRecordDb::open(&dir).map_err(s("open at the end"))?;
        check_db(g, &db, &m, &es, "read back").await.map_err(|e| format!("{e}; {}", trace.join(", ")))?;
        Ok::<_, String>(())
    })?;
    g.nontrivial_if(m.recs.len() >= 3 && reopened && holes);
    g.note(|| trace.join(", "));
    Ok(())
}

/// What a store that was stopped holds: a beginning of the records, and certificates among those given to it.
async fn recovered(db: &EpochRecordDb, es: &[E], at: &str) -> Result<Model, String> {
    let mut m = Model::default();
    while let Some(r) = db.record_by_epoch(m.recs.len() as Epoch).await {
        let i = m.recs.len();
        ensure!(i < es.len() && r == es[i].rec, "the record of epoch {i} is not the one stored; {at}");
        m.recs.push(r);
    }
    for e in es {
        if let Some(c) = db.cert_by_digest(e.rec.digest()).await {
            ensure!(c == e.cert, "the certificate of epoch {} is not the one stored; {at}", e.rec.epoch);
            m.certs.insert(c.epoch_hash, c);
        }
    }
    Ok(m)
}

/// What is missing can be stored, and all is there afterwards.
async fn complete(g: &mut G, dir: &Path, mut m: Model, db: EpochRecordDb, es: &[E], at: &str) -> R {
    check_db(g, &db, &m, es, "recovered").await.map_err(|e| format!("{e}; {at}"))?;
    for e in &es[m.recs.len()..] {
        if g.bool() {
            db.save(e.rec.clone(), e.cert.clone()).await.map_err(|x| format!("storing epoch {}: {x}; {at}", e.rec.epoch))?;
            m.certs.insert(e.rec.digest(), e.cert.clone());
        } else {
            db.save_record(e.rec.clone()).await.map_err(|x| format!("storing epoch {}: {x}; {at}", e.rec.epoch))?;
        }
        m.recs.push(e.rec.clone());
    }
    check_db(g, &db, &m, es, "continued").await.map_err(|e| format!("{e}; {at}"))?;
    for e in es {
        db.save_certificate(e.rec.digest(), e.cert.clone()).await.map_err(|x| format!("certificate {}: {x}; {at}", e.rec.epoch))?;
        m.certs.insert(e.rec.digest(), e.cert.clone());
    }
    db.persist().await.map_err(|e| format!("persist: {e}; {at}"))?;
    check_db(g, &db, &m, es, "completed").await.map_err(|e| format!("{e}; {at}"))?;
    drop(db);
    let db = EpochRecordDb::open(dir).map_err(|e| format!("open when complete: {e}; {at}"))?;
    check_db(g, &db, &m, es, "completed and reopened").await.map_err(|e| format!("{e}; {at}"))
}

/// Saves, persists and reopenings, recorded (a mark holds the records and the number of certificates persisted).
async fn run(g: &mut G, dir: &Path, es: &[E], rec: &Recorder, trace: &mut Vec<String>, persisted: &mut Vec<(usize, BTreeSet<usize>)>) -> R {
    let n = es.len();
    let mut k = 0;
    let mut certs = BTreeSet::new();
    let mut db = EpochRecordDb::open(dir).map_err(s("open"))?;
    for _ in 0..2 + g.usize(3 * n) {
        match g.weighted(&[5, 5, 3, 5, 1]) {
            0 if k < n => {
                trace.push(format!("record {k}"));
                db.save_record(es[k].rec.clone()).await.map_err(s("record"))?;
                k += 1;
            }
            1 if k < n => {
                trace.push(format!("record and certificate {k}"));
                db.save(es[k].rec.clone(), es[k].cert.clone()).await.map_err(s("record and certificate"))?;
                certs.insert(k);
                k += 1;
            }
            2 if k > 0 => {
                let i = g.usize(k);
                trace.push(format!("certificate {i}"));
                db.save_certificate(es[i].rec.digest(), es[i].cert.clone()).await.map_err(s("certificate"))?;
                certs.insert(i);
            }
            3 => {
                trace.push("persist".into());
                db.persist().await.map_err(s("persist"))?;
                persisted.push((k, certs.clone()));
                rec.mark(persisted.len() as u64);
            }
            4 => {
                trace.push("reopen".into());
                drop(db);
                persisted.push((k, certs.clone()));
                rec.mark(persisted.len() as u64);
                db = EpochRecordDb::open(dir).map_err(s("reopen"))?;
            }
            _ => {}
        }
    }
    drop(db);
    persisted.push((k, certs.clone()));
    rec.mark(persisted.len() as u64);
    Ok(())
}

fn stop(power: bool) -> impl Fn(&mut G) -> R + Sync {
    move |g| {
        let sc = Scratch::new();
        let dir = sc.sub("epochs");
        std::fs::create_dir_all(&dir).map_err(s("dir"))?;
        let n = size(g).min(30);
        let es = chain(g, None, n, false);
        let rec = Recorder::start(&dir);
        let mut trace = vec![];
        let mut persisted = vec![];
        block_on(run(g, &dir, &es, &rec, &mut trace, &mut persisted))?;
        let ops = rec.ops();
        drop(rec);
        let (k, torn) = stop_point(g, &ops, 0);
        let mark = ops[..k].iter().rev().find_map(|o| if let Op::Mark(m) = o { Some(*m as usize) } else { None });
        let (recs, certs) = mark.map_or((0, BTreeSet::new()), |m| persisted[m - 1].clone());
        let d2 = sc.sub("stopped");
        std::fs::create_dir_all(&d2).map_err(s("dir"))?;
        if power {
            let lost = vfs::apply_power_cut(&ops[..k], |left| if g.bool() { left } else { g.usize(left + 1) }, &d2);
            g.nontrivial_if(lost > 0 && n > 1);
        } else {
            vfs::apply(&ops[..k], torn, &d2);
            g.nontrivial_if(k < ops.len() && n > 1);
        }
        let at = format!("stopped after {k} of {} operations ({:?}), {recs} records and {certs:?} persisted; {}", ops.len(), ops[..k].last().map(|o| o.brief()), trace.join(", "));
        g.note(|| at.clone());
        block_on(async {
            let db = EpochRecordDb::open(&d2).map_err(|e| format!("cannot be reopened: {e}; {at}"))?;
            let m = recovered(&db, &es, &at).await?;
            ensure!(m.recs.len() >= recs, "{} records recovered; {at}", m.recs.len());
            for i in &certs {
                ensure!(m.certs.contains_key(&es[*i].rec.digest()), "the certificate of epoch {i} is lost; {at}");
            }
            if g.chance(1, 4) && m.recs.len() < n {
                // the epochs after those recovered end differently this time
                let k = m.recs.len();
                let mut es2 = es[..k].to_vec();
                es2.extend(chain(g, m.recs.last(), n - k, false));
                let mut m2 = m.clone();
                m2.certs.retain(|d, _| es[..k].iter().any(|e| e.rec.digest() == *d));
                for e in &es2[k..] {
                    db.save(e.rec.clone(), e.cert.clone()).await.map_err(|x| format!("storing another epoch {}: {x}; {at}", e.rec.epoch))?;
                    m2.recs.push(e.rec.clone());
                    m2.certs.insert(e.rec.digest(), e.cert.clone());
                }
                db.persist().await.map_err(s(&at))?;
                check_db(g, &db, &m2, &es2, "continued differently").await.map_err(|e| format!("{e}; {at}"))?;
                for e in &es[k..] {
                    let d = e.rec.digest();
                    ensure_eq!(db.record_by_digest(d).await, None, "the record lost of epoch {} by digest; {at}", e.rec.epoch);
                    ensure_eq!(db.contains_record_digest(d).await, false, "contains the record lost of epoch {}; {at}", e.rec.epoch);
                }
                drop(db);
                let db = EpochRecordDb::open(&d2).map_err(|e| format!("open when continued differently: {e}; {at}"))?;
                return check_db(g, &db, &m2, &es2, "continued differently and reopened").await.map_err(|e| format!("{e}; {at}"));
            }
            complete(g, &d2, m, db, &es, &at).await
        })
    }
}

/// Writes that fail from some moment on: nothing is acknowledged that is not there afterwards.
fn failing(g: &mut G) -> R {
    let sc = Scratch::new();
    let dir = sc.sub("epochs");
    std::fs::create_dir_all(&dir).map_err(s("dir"))?;
    let n = size(g).min(12);
    let es = chain(g, None, n, false);
    let rec = Recorder::start(&dir);
    let mut trace = vec![];
    let (mut k, mut acked) = (0, 0);
    let mut failed = false;
    block_on(async {
        let db = EpochRecordDb::open(&dir).map_err(s("open"))?;
        let fail_at = g.usize(2 * n);
        for i in 0..3 * n {
            if i == fail_at {
                rec.fail_after(Some(g.below(8)));
            }
            match g.below(2) {
                0 if k < n => {
                    let r = if g.bool() {
                        db.save_record(es[k].rec.clone()).await
                    } else {
                        db.save(es[k].rec.clone(), es[k].cert.clone()).await
                    };
                    trace.push(format!("record {k}: {}", r.is_ok()));
                    if r.is_err() {
                        failed = true;
                        break;
                    }
                    k += 1;
                }
                _ => {
                    let r = db.persist().await;
                    trace.push(format!("persist: {}", r.is_ok()));
                    if r.is_err() {
                        failed = true;
                        break;
                    }
                    acked = k;
                }
            }
        }
        drop(db);
        Ok::<_, String>(())
    })?;
    rec.fail_after(None);
    drop(rec);
    g.nontrivial_if(failed && k > 0);
    let at = format!("{acked} of {k} acknowledged; {}", trace.join(", "));
    g.note(|| at.clone());
    block_on(async {
        let db = EpochRecordDb::open(&dir).map_err(|e| format!("cannot be reopened: {e}; {at}"))?;
        let m = recovered(&db, &es, &at).await?;
        ensure!(m.recs.len() >= acked, "{} records are there; {at}", m.recs.len());
        complete(g, &dir, m, db, &es, &at).await
    })
}

/// Altered bytes: what is read is what was stored, or nothing.
fn damaged(g: &mut G) -> R {
    let sc = Scratch::new();
    let dir = sc.sub("epochs");
    let n = size(g).min(12);
    let genuine = n < 6 && g.chance(1, 4);
    let es = chain(g, None, n, genuine);
    block_on(async {
        let db = EpochRecordDb::open(&dir).map_err(s("open"))?;
        for e in &es {
            db.save(e.rec.clone(), e.cert.clone()).await.map_err(s("save"))?;
        }
        db.persist().await.map_err(s("persist"))?;
        let live = g.bool();
        let db = if live { Some(db) } else { drop(db); None };
        let file = *g.pick(&[RECORDS_NAME, CERTS_NAME]);
        let path = dir.join(file);
        let mut b = std::fs::read(&path).map_err(s("read"))?;
        let at = g.usize(b.len());
        let how = g.below(3);
        match how {
            0 => b[at] ^= 1 << g.below(8),
            1 => b[at..].iter_mut().take(16).for_each(|x| *x = x.wrapping_add(1 + g.u8() % 255)),
            _ => b.truncate(at),
        }
        // (in place, as a store that is open has the file)
        use std::io::Write;
        let f = std::fs::OpenOptions::new().write(true).open(&path).map_err(s("open"))?;
        (&f).write_all(&b).map_err(s("write"))?;
        f.set_len(b.len() as u64).map_err(s("cut"))?;
        let what = format!("{} in {file} at {at}, {}", ["a bit altered", "bytes altered", "cut"][how as usize], if live { "while open" } else { "while closed" });
        g.note(|| format!("{n} epochs; {what}"));
        g.nontrivial();
        let db = match db {
            Some(db) => db,
            None => match EpochRecordDb::open(&dir) {
                Ok(db) => db,
                Err(_) => {
                    g.class("refused to open");
                    return Ok(());
                }
            },
        };
        let mut gone = 0;
        for e in &es {
            let (k, d) = (e.rec.epoch, e.rec.digest());
            let r = db.record_by_epoch(k).await;
            ensure!(r.is_none() || r.as_ref() == Some(&e.rec), "epoch {k} is {r:?}; {what}");
            gone += r.is_none() as u32;
            let r = db.record_by_digest(d).await;
            ensure!(r.is_none() || r.as_ref() == Some(&e.rec), "epoch {k} by digest is {r:?}; {what}");
            let c = db.cert_by_digest(d).await;
            ensure!(c.is_none() || c.as_ref() == Some(&e.cert), "the certificate of epoch {k} is {c:?}; {what}");
            gone += c.is_none() as u32;
            match db.certified_record_by_epoch(k).await {
                Ok(r) => ensure!(e.genuine && r == e.rec, "certified epoch {k} is {r:?}; {what}"),
                Err(x) => {
                    // damage is not taken for a record or certificate that is still to come, unless the file ends before it
                    let missing = matches!(x, CertifiedRecordError::MissingRecord(_) | CertifiedRecordError::MissingCertificate(..));
                    ensure!(!(live && how < 2 && missing), "epoch {k} is taken for missing: {x}; {what}");
                }
            }
        }
        g.class(if gone > 0 { "something unreadable" } else { "all readable" });
        for f in [RECORDS_NAME, CERTS_NAME] {
            if f == RECORDS_NAME {
                if let Ok(r) = EpochRecordDb::read_records_from_pack(dir.join(f)) {
                    ensure!(r.len() <= n && r.iter().zip(&es).all(|(a, b)| *a == b.rec), "records read from the pack; {what}");
                }
            } else if let Ok(r) = EpochRecordDb::read_certs_from_pack(dir.join(f)) {
                ensure!(r.len() <= n && r.iter().zip(&es).all(|(a, b)| *a == b.cert), "certificates read from the pack; {what}");
            }
        }
        Ok(())
    })
}

fn read_bundle(d: &Path) -> Result<(Vec<EpochRecord>, Vec<EpochCertificate>), EpochDbError> {
    Ok((EpochRecordDb::read_records_from_pack(d.join(RECORDS_NAME))?, EpochRecordDb::read_certs_from_pack(d.join(CERTS_NAME))?))
}

fn bundles(g: &mut G) -> R {
    let sc = Scratch::new();
    let dir = sc.sub("epochs");
    let n = size(g).min(30);
    let es = chain(g, None, n, false);
    let foreign = chain(g, None, n, false);
    let all = n - g.usize(2).min(n - 1);
    let hole = if g.chance(1, 3) { Some(g.usize(all)) } else { None };
    let mut trace = vec![];
    let mut extended = false;
    block_on(async {
        let db = EpochRecordDb::open(&dir).map_err(s("open"))?;
        for (i, e) in es[..all].iter().enumerate() {
            if hole == Some(i) {
                db.save_record(e.rec.clone()).await.map_err(s("save"))?;
            } else {
                db.save(e.rec.clone(), e.cert.clone()).await.map_err(s("save"))?;
            }
        }
        let other = EpochRecordDb::open(sc.sub("other")).map_err(s("open"))?;
        for e in &foreign {
            other.save(e.rec.clone(), e.cert.clone()).await.map_err(s("save"))?;
        }
        let mut made: Vec<std::path::PathBuf> = vec![];
        for i in 0..1 + g.usize(5) {
            let d = sc.sub(&format!("bundle-{i}"));
            std::fs::create_dir_all(&d).map_err(s("dir"))?;
            let through = if g.chance(1, 6) { all + g.usize(2) } else { g.usize(all) };
            let prev = match g.below(8) {
                0 | 1 => None,
                2 if through > 0 => {
                    let p = sc.sub(&format!("foreign-{i}"));
                    std::fs::create_dir_all(&p).map_err(s("dir"))?;
                    other.export_bounded_bundle((through - 1).min(n - 1) as Epoch, &p.join(RECORDS_NAME), &p.join(CERTS_NAME)).await.map_err(s("foreign bundle"))?;
                    Some((p, "foreign"))
                }
                3 if !made.is_empty() => Some((g.pick(&made).clone(), "earlier")),
                4 => Some((sc.sub("nowhere"), "absent")),
                _ if through > 0 && through <= all && hole.is_none_or(|h| h >= through) => {
                    let p = sc.sub(&format!("prev-{i}"));
                    std::fs::create_dir_all(&p).map_err(s("dir"))?;
                    db.export_bounded_bundle(through as Epoch - 1, &p.join(RECORDS_NAME), &p.join(CERTS_NAME)).await.map_err(s("previous bundle"))?;
                    match g.below(4) {
                        0 => {
                            let f = p.join(*g.pick(&[RECORDS_NAME, CERTS_NAME]));
                            let mut b = std::fs::read(&f).map_err(s("read"))?;
                            let at = g.usize(b.len());
                            if g.bool() {
                                b[at] ^= 1 << g.below(8);
                            } else {
                                b.truncate(at);
                            }
                            std::fs::write(&f, b).map_err(s("write"))?;
                            Some((p, "damaged"))
                        }
                        _ => {
                            extended = true;
                            Some((p, "previous"))
                        }
                    }
                }
                _ => None,
            };
            // leftovers at the destination do not matter
            if g.chance(1, 5) {
                let len = g.usize(300);
                let junk = g.bytes(len);
                std::fs::write(d.join(*g.pick(&[RECORDS_NAME, CERTS_NAME])), junk).map_err(s("leftover"))?;
            }
            let kind = prev.as_ref().map_or("none", |p| p.1);
            trace.push(format!("through {through}, extending {kind}"));
            let before: Vec<Vec<u8>> = prev.iter().flat_map(|(p, _)| [RECORDS_NAME, CERTS_NAME].map(|f| std::fs::read(p.join(f)).unwrap_or_default())).collect();
            let r = if prev.is_none() && g.bool() {
                db.export_bounded_bundle(through as Epoch, &d.join(RECORDS_NAME), &d.join(CERTS_NAME)).await
            } else {
                let p = prev.as_ref().map(|(p, _)| (p.join(RECORDS_NAME), p.join(CERTS_NAME)));
                db.export_incremental_bundle(through as Epoch, p, &d.join(RECORDS_NAME), &d.join(CERTS_NAME)).await
            };
            let at = trace.join("; ");
            let after: Vec<Vec<u8>> = prev.iter().flat_map(|(p, _)| [RECORDS_NAME, CERTS_NAME].map(|f| std::fs::read(p.join(f)).unwrap_or_default())).collect();
            ensure!(before == after, "the previous bundle was altered; {at}");
            let first_hole = hole.filter(|h| *h <= through);
            match (r, first_hole) {
                (Err(EpochDbError::MissingRecord(e)), h) if h.is_none_or(|h| h > all) => {
                    ensure!(through >= all && e as usize == all, "epoch {e} is missing, of {all}; {at}")
                }
                (Err(EpochDbError::MissingCertificate(e)), Some(h)) => ensure_eq!(e as usize, h, "certificate missing; {at}"),
                (Err(e), h) => return Err(format!("{e}, first without a certificate: {h:?}; {at}")),
                (Ok(()), Some(h)) => return Err(format!("exported without the certificate of {h}; {at}")),
                (Ok(()), None) => {
                    ensure!(through < all, "exported through {through} of {all}; {at}");
                    let (r, c) = read_bundle(&d).map_err(|e| format!("cannot be read back: {e}; {at}"))?;
                    let wr: Vec<_> = es[..=through].iter().map(|e| e.rec.clone()).collect();
                    let wc: Vec<_> = es[..=through].iter().map(|e| e.cert.clone()).collect();
                    ensure!(r == wr, "records of the bundle: {} of {}; {at}; {}", r.len(), wr.len(), clip(&format!("{r:?}"), 300));
                    ensure!(c == wc, "certificates of the bundle: {} of {}; {at}", c.len(), wc.len());
                    made.push(d.clone());
                    if g.bool() {
                        // a bundle read as a store's files gives the same records
                        let d2 = sc.sub(&format!("store-{i}"));
                        copy_dir(&d, &d2);
                        let db2 = EpochRecordDb::open(&d2);
                        if let Ok(db2) = db2 {
                            if let Some(r) = db2.record_by_epoch(0).await {
                                ensure!(r == wr[0], "a store opened on a bundle; {at}");
                            }
                        }
                    }
                }
            }
        }
        Ok::<_, String>(())
    })?;
    g.nontrivial_if(extended);
    g.note(|| format!("{n} epochs, hole {hole:?}: {}", trace.join("; ")));
    Ok(())
}

/// A reader that waits sees what arrives in time, and no more than the time given passes.
fn waiting(g: &mut G) -> R {
    let sc = Scratch::new();
    let dir = sc.sub("epochs");
    let es = chain(g, None, 2, true);
    block_on(async {
        let db = EpochRecordDb::open(&dir).map_err(s("open"))?;
        tokio::task::yield_now().await;
        let e = es[0].clone();
        let when = g.below(3);
        let record_first = g.bool();
        if record_first {
            db.save_record(e.rec.clone()).await.map_err(s("save"))?;
        }
        if when == 0 {
            db.save(e.rec.clone(), e.cert.clone()).await.map_err(s("save"))?;
        }
        let (a, b) = (db.clone(), db.clone());
        let d = e.rec.digest();
        let w1 = async move { a.certified_record_by_epoch_with_timeout(0, Duration::from_millis(450)).await };
        let w2 = async move { b.cert_by_digest_with_timeout(d, Duration::from_millis(450)).await };
        let (late, db2) = (e.clone(), db.clone());
        let saver = async move {
            if when == 1 {
                tokio::time::sleep(Duration::from_millis(100)).await;
                db2.save(late.rec.clone(), late.cert.clone()).await.map_err(s("save"))?;
            }
            Ok::<_, String>(())
        };
        let t = std::time::Instant::now();
        let (r1, r2, r3) = tokio::join!(w1, w2, saver);
        r3?;
        let ms = t.elapsed().as_millis();
        g.note(|| format!("record first: {record_first}, certificate {}: {ms} ms", ["before", "while waiting", "never"][when as usize]));
        if when < 2 {
            g.nontrivial_if(when == 1);
            ensure_eq!(r2, Some(e.cert.clone()), "certificate");
            if e.genuine {
                ensure_eq!(r1, Ok(e.rec.clone()), "certified record");
            } else {
                ensure_eq!(r1, Err(CertifiedRecordError::InvalidCertificate(0, d)), "certified record");
            }
        } else {
            ensure_eq!(r2, None, "certificate");
            let want = if record_first { CertifiedRecordError::MissingCertificate(0, d) } else { CertifiedRecordError::MissingRecord(0) };
            ensure_eq!(r1, Err(want), "certified record");
            ensure!(ms >= 440, "gave up after {ms} ms");
        }
        Ok(())
    })
}

pub fn check(c: &mut Check) {
    c.sub("history", Budget::new(3_000, 15), history);
    c.sub("stop", Budget::new(4_000, 12), stop(false));
    c.sub("power-cut", Budget::new(4_000, 12), stop(true));
    c.sub("failing", Budget::new(2_000, 8), failing);
    c.sub("damaged", Budget::new(3_000, 8), damaged);
    c.sub("bundles", Budget::new(2_000, 10), bundles);
    c.sub("waiting", Budget::new(40, 5), waiting);
}
