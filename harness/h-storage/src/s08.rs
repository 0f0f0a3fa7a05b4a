//! S08: the store of certificates, and their archive.

use crate::s03::stop_point;
use futures::task::{noop_waker, Context, Poll};
use futures::Future;
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use tn_storage::certificate_pack::CertificatePack;
use tn_storage::mem_db::MemDatabase;
use tn_storage::tables::{CertificateDigestByOrigin, CertificateDigestByRound, Certificates};
use tn_storage::{CertificateStore, ReDB, ROUNDS_TO_KEEP};
use tn_types::*;
use vcore::{ensure, ensure_eq, Budget, Check, Scratch, G, R};
use vfs::{Op, Recorder};
use vgen::*;

pub const RULE: &str = "certificates of at least three rounds and two authors, with one deleted, replaced or cleaned up; for waiting, a reader that waited before the certificate was written; for stops, one that happened before the last operation";

fn s<T: std::fmt::Display>(what: &str) -> impl Fn(T) -> String + '_ {
    move |x| format!("{what}: {x}")
}

/// A database in between, in which commits can fail, and something can happen while a certificate is read.
#[derive(Clone, Debug)]
struct Between {
    db: MemDatabase,
    fail: Arc<AtomicBool>,
    during: Arc<Mutex<Option<Certificate>>>,
}

/// (The memory store keeps what a transaction wrote that was not committed.)
#[derive(Debug)]
struct BetweenTx {
    tx: <MemDatabase as Database>::TXMut<'static>,
    fail: bool,
}

impl DbTx for BetweenTx {
    fn get<T: Table>(&self, key: &T::Key) -> eyre::Result<Option<T::Value>> {
        self.tx.get::<T>(key)
    }
}

impl DbTxMut for BetweenTx {
    fn insert<T: Table>(&mut self, key: &T::Key, value: &T::Value) -> eyre::Result<()> {
        if self.fail {
            return Ok(());
        }
        self.tx.insert::<T>(key, value)
    }
    fn remove<T: Table>(&mut self, key: &T::Key) -> eyre::Result<()> {
        if self.fail {
            return Ok(());
        }
        self.tx.remove::<T>(key)
    }
    fn clear_table<T: Table>(&mut self) -> eyre::Result<()> {
        if self.fail {
            return Ok(());
        }
        self.tx.clear_table::<T>()
    }
    fn commit(self) -> eyre::Result<()> {
        if self.fail {
            return Err(eyre::eyre!("the disk is full"));
        }
        self.tx.commit()
    }
}

impl Database for Between {
    type TX<'txn> = <MemDatabase as Database>::TX<'txn>;
    type TXMut<'txn> = BetweenTx;

    fn open_table<T: Table>(&self) -> eyre::Result<()> {
        self.db.open_table::<T>()
    }
    fn read_txn(&self) -> eyre::Result<Self::TX<'_>> {
        self.db.read_txn()
    }
    fn write_txn(&self) -> eyre::Result<BetweenTx> {
        Ok(BetweenTx { tx: self.db.write_txn()?, fail: self.fail.load(SeqCst) })
    }
    fn contains_key<T: Table>(&self, key: &T::Key) -> eyre::Result<bool> {
        self.db.contains_key::<T>(key)
    }
    fn get<T: Table>(&self, key: &T::Key) -> eyre::Result<Option<T::Value>> {
        let r = self.db.get::<T>(key);
        if T::NAME == Certificates::NAME {
            let c = self.during.lock().expect("during").take();
            if let Some(c) = c {
                self.write(c)?;
            }
        }
        r
    }
    fn insert<T: Table>(&self, key: &T::Key, value: &T::Value) -> eyre::Result<()> {
        self.db.insert::<T>(key, value)
    }
    fn remove<T: Table>(&self, key: &T::Key) -> eyre::Result<()> {
        self.db.remove::<T>(key)
    }
    fn clear_table<T: Table>(&self) -> eyre::Result<()> {
        self.db.clear_table::<T>()
    }
    fn is_empty<T: Table>(&self) -> bool {
        self.db.is_empty::<T>()
    }
    fn iter<T: Table>(&self) -> DBIter<'_, T> {
        self.db.iter::<T>()
    }
    fn skip_to<T: Table>(&self, key: &T::Key) -> eyre::Result<DBIter<'_, T>> {
        self.db.skip_to::<T>(key)
    }
    fn reverse_iter<T: Table>(&self) -> DBIter<'_, T> {
        self.db.reverse_iter::<T>()
    }
    fn record_prior_to<T: Table>(&self, key: &T::Key) -> Option<(T::Key, T::Value)> {
        self.db.record_prior_to::<T>(key)
    }
    fn last_record<T: Table>(&self) -> Option<(T::Key, T::Value)> {
        self.db.last_record::<T>()
    }
}

fn tables<DB: Database>(db: &DB) -> R {
    db.open_table::<Certificates>().map_err(s("table"))?;
    db.open_table::<CertificateDigestByRound>().map_err(s("table"))?;
    db.open_table::<CertificateDigestByOrigin>().map_err(s("table"))
}

/// No two certificates of the process are the same (readers wait for digests, process-wide).
fn fresh() -> u64 {
    static N: AtomicU64 = AtomicU64::new(1);
    N.fetch_add(1, SeqCst)
}

struct Author {
    id: AuthorityIdentifier,
}

/// Certificates of some authors in these rounds, one per author and round.
fn universe(g: &mut G, com: &Com, authors: &[Author], rounds: &[Round]) -> Vec<Certificate> {
    let mut out = vec![];
    for r in rounds {
        for a in authors {
            if out.is_empty() || g.chance(3, 4) {
                out.push(cert(com, &a.id, *r));
            }
        }
    }
    out
}

fn cert(com: &Com, a: &AuthorityIdentifier, round: Round) -> Certificate {
    let h = HeaderBuilder::default().author(a.clone()).round(round).epoch(com.committee.epoch()).created_at(fresh()).build();
    cheap_cert(com, h)
}

type Model = BTreeMap<(Round, AuthorityIdentifier), Certificate>;

fn same(a: &Option<Certificate>, b: Option<&Certificate>) -> bool {
    a.as_ref().map(encode) == b.map(encode)
}

fn list(a: &[Certificate]) -> Vec<Vec<u8>> {
    a.iter().map(encode).collect()
}

fn judge<DB: Database>(g: &mut G, db: &DB, m: &Model, all: &[Certificate], authors: &[Author], rounds: &[Round], deep: bool) -> R {
    let highest = m.keys().next_back().map(|k| k.0);
    ensure_eq!(db.highest_round_number(), highest.unwrap_or(0), "highest round");
    ensure_eq!(db.is_empty_certs(), m.is_empty(), "emptiness");
    let mut picks: Vec<usize> = (0..all.len()).collect();
    if !deep {
        picks = (0..3).map(|_| g.usize(all.len())).collect();
    }
    let digests: Vec<HeaderDigest> = picks.iter().map(|i| all[*i].digest()).collect();
    let have: Vec<Option<&Certificate>> =
        picks.iter().map(|i| m.get(&(all[*i].round(), all[*i].origin().clone())).filter(|c| c.digest() == all[*i].digest())).collect();
    for (d, want) in digests.iter().zip(&have) {
        ensure!(same(&db.read(*d).map_err(s("read"))?, *want), "read {want:?}");
        ensure_eq!(db.contains(d).map_err(s("contains"))?, want.is_some(), "contains");
    }
    ensure_eq!(db.multi_contains(digests.iter()).map_err(s("contains"))?, have.iter().map(|h| h.is_some()).collect::<Vec<_>>(), "contains many");
    let got = db.read_all(digests.iter().copied()).map_err(s("read all"))?;
    ensure!(got.len() == have.len() && got.iter().zip(&have).all(|(a, b)| same(a, *b)), "read many: {got:?}");
    // by round and by author
    let mut at: BTreeSet<Round> = BTreeSet::new();
    for r in rounds {
        at.extend([r.saturating_sub(1), *r, r + 1]);
    }
    at.insert(0);
    let mut at: Vec<Round> = at.into_iter().collect();
    if !deep {
        at = (0..3).map(|_| at[g.usize(at.len())]).collect();
    }
    for r in &at {
        let want: Vec<&Certificate> = m.iter().filter(|(k, _)| k.0 >= *r).map(|(_, c)| c).collect();
        let got = db.after_round(*r).map_err(s("after"))?;
        ensure_eq!(list(&got), want.iter().map(|c| encode(*c)).collect::<Vec<_>>(), "certificates from round {r}");
        let mut names: BTreeMap<Round, Vec<AuthorityIdentifier>> = BTreeMap::new();
        for c in &want {
            names.entry(c.round()).or_default().push(c.origin().clone());
        }
        ensure_eq!(db.origins_after_round(*r).map_err(s("origins"))?, names, "authors from round {r}");
    }
    for a in authors {
        for r in &at {
            ensure!(same(&db.read_by_index(&a.id, *r).map_err(s("index"))?, m.get(&(*r, a.id.clone()))), "certificate of an author in round {r}");
            let next = m.keys().filter(|k| k.1 == a.id && k.0 > *r).map(|k| k.0).min();
            ensure_eq!(db.next_round_number(&a.id, *r).map_err(s("next"))?, next, "next round after {r}");
        }
        ensure_eq!(db.next_round_number(&a.id, Round::MAX).map_err(s("next"))?, None, "next round after the last");
        let last = m.iter().filter(|(k, _)| k.1 == a.id).next_back();
        ensure_eq!(db.last_round_number(&a.id).map_err(s("last"))?, last.map(|(k, _)| k.0), "last round of an author");
        ensure!(same(&db.last_round(&a.id).map_err(s("last"))?, last.map(|(_, c)| c)), "last certificate of an author");
    }
    let mut got = list(&db.last_two_rounds_certs().map_err(s("last two"))?);
    got.sort();
    let mut want: Vec<Vec<u8>> = m.iter().filter(|(k, _)| highest.is_some_and(|h| k.0 + 1 >= h)).map(|(_, c)| encode(c)).collect();
    want.sort();
    ensure_eq!(got, want, "certificates of the last two rounds");
    Ok(())
}

fn keep(m: &mut Model, round: Round) -> bool {
    let n = m.len();
    m.retain(|k, _| k.0 >= round.saturating_sub(ROUNDS_TO_KEEP));
    m.len() < n
}

fn store_on<DB: Database>(g: &mut G, open: &dyn Fn() -> Result<DB, String>, reopens: bool) -> R {
    let n = g.urange(4, 7);
    let com = Com::of(&distinct(g, n), 3);
    let count = g.urange(2, n);
    let mut authors: Vec<Author> = com.by_id()[..count].iter().map(|k| Author { id: k.id() }).collect();
    if g.chance(1, 4) {
        // the outermost names
        authors.push(Author { id: AuthorityIdentifier::from_bytes([0; 32]) });
        authors.push(Author { id: AuthorityIdentifier::from_bytes([0xff; 32]) });
    }
    let base = match g.below(5) {
        0 => 0,
        1 => 1,
        2 => g.below(200) as Round,
        3 => 254 + g.below(4) as Round,
        _ => Round::MAX - 300 - g.below(2) as Round,
    };
    let mut rounds: BTreeSet<Round> = BTreeSet::new();
    let mut r = base;
    for _ in 0..g.urange(2, 7) {
        rounds.insert(r);
        r = r.saturating_add(*g.pick(&[1, 1, 1, 2, 3, 30, 63, 64, 65]));
        r = r.min(Round::MAX - 2);
    }
    let rounds: Vec<Round> = rounds.into_iter().collect();
    let all = universe(g, &com, &authors, &rounds);
    let mut db = open()?;
    let mut m: Model = Model::new();
    let mut log: Vec<String> = vec![];
    let (mut lost, mut top) = (0, BTreeSet::new());
    for _ in 0..g.urange(3, 20) {
        match g.weighted(&[6, 4, 2, 3, 1, 1]) {
            0 => {
                let c = g.pick(&all).clone();
                log.push(format!("write {}", c.round()));
                top.insert(c.round());
                db.write(c.clone()).map_err(s("write"))?;
                let r = c.round();
                m.insert((r, c.origin().clone()), c);
                lost += keep(&mut m, r) as usize;
            }
            1 => {
                let k = g.urange(0, all.len().min(12));
                let some: Vec<Certificate> = (0..k).map(|_| g.pick(&all).clone()).collect();
                log.push(format!("write {:?}", some.iter().map(|c| c.round()).collect::<Vec<_>>()));
                db.write_all(&some).map_err(s("write all"))?;
                let mut r = 0;
                for c in some {
                    r = r.max(c.round());
                    top.insert(c.round());
                    m.insert((c.round(), c.origin().clone()), c);
                }
                lost += keep(&mut m, r) as usize;
            }
            2 if !m.is_empty() => {
                // the same header with other signatures
                let keys: Vec<_> = m.keys().cloned().collect();
                let c = m.get_mut(g.pick(&keys)).expect("there");
                log.push(format!("replace {}", c.round()));
                c.set_signature_verification_state(SignatureVerificationState::VerifiedDirectly(some_sig(g)));
                let c = c.clone();
                db.write(c.clone()).map_err(s("write"))?;
                lost += 1;
                keep(&mut m, c.round());
            }
            3 => {
                let c = g.pick(&all);
                log.push(format!("delete {}", c.round()));
                db.delete(c.digest()).map_err(s("delete"))?;
                lost += m.remove(&(c.round(), c.origin().clone())).is_some() as usize;
            }
            4 if reopens => {
                log.push("reopen".into());
                drop(db);
                db = open()?;
            }
            5 if g.chance(1, 3) => {
                log.push("clear".into());
                db.clear().map_err(s("clear"))?;
                m.clear();
            }
            _ => {}
        }
        judge(g, &db, &m, &all, &authors, &rounds, false).map_err(|e| format!("{e}; {log:?}"))?;
    }
    judge(g, &db, &m, &all, &authors, &rounds, true).map_err(|e| format!("{e}; {log:?}"))?;
    g.nontrivial_if(top.len() >= 3 && lost > 0);
    g.note(|| format!("{} authors, rounds {rounds:?}: {}", authors.len(), log.join(", ")));
    Ok(())
}

fn in_memory(g: &mut G) -> R {
    let db = MemDatabase::new();
    tables(&db)?;
    store_on(g, &|| Ok(db.clone()), false)
}

fn on_disk(g: &mut G) -> R {
    let sc = Scratch::new();
    let dir = sc.sub("db");
    let open = || -> Result<ReDB, String> {
        let db = ReDB::open(&dir).map_err(s("open"))?;
        tables(&db)?;
        Ok(db)
    };
    store_on(g, &open, true)
}

type Waiter<'a> = (usize, Pin<Box<dyn Future<Output = eyre::Result<Certificate>> + 'a>>);

/// Readers wait, for certificates that are written, replaced, deleted, or cannot be written.
fn waiting(g: &mut G) -> R {
    let com = Com::of(&distinct(g, 4), 3);
    let authors: Vec<Author> = com.by_id().iter().map(|k| Author { id: k.id() }).collect();
    let base = 1 + g.below(100) as Round;
    let mut all = universe(g, &com, &authors, &[base, base + 1]);
    all.truncate(g.urange(1, 8));
    let mem = MemDatabase::new();
    tables(&mem)?;
    let db = Between { db: mem, fail: Default::default(), during: Default::default() };
    let mut stored: BTreeSet<usize> = BTreeSet::new();
    let mut waiting: Vec<Waiter<'_>> = vec![];
    let mut log: Vec<String> = vec![];
    let mut woken = 0;
    let waker = noop_waker();
    // polls them all; those are done whose certificate is there, or was since they were last polled
    let poll = |waiting: &mut Vec<Waiter<'_>>, ready: &BTreeSet<usize>, all: &[Certificate], log: &[String]| -> Result<usize, String> {
        let mut done = 0;
        let mut left: Vec<Waiter<'_>> = vec![];
        for (i, mut f) in waiting.drain(..) {
            match f.as_mut().poll(&mut Context::from_waker(&waker)) {
                Poll::Ready(c) => {
                    let c = c.map_err(s("waiting"))?;
                    ensure!(ready.contains(&i), "a reader got certificate {i}, which is not stored; {log:?}");
                    ensure!(c.digest() == all[i].digest() && c.header() == all[i].header(), "a reader of {i} got another one; {log:?}");
                    done += 1;
                }
                Poll::Pending => {
                    ensure!(!ready.contains(&i), "a reader still waits for {i}, which is stored; {log:?}");
                    left.push((i, f));
                }
            }
        }
        *waiting = left;
        Ok(done)
    };
    for _ in 0..g.urange(3, 20) {
        let i = g.usize(all.len());
        match g.weighted(&[5, 4, 2, 2, 1, 2]) {
            0 => {
                log.push(format!("wait for {i}"));
                let (db, d) = (db.clone(), all[i].digest());
                let mut f: Waiter<'_> = (i, Box::pin(async move { db.notify_read(d).await }));
                if g.chance(3, 4) {
                    // (registers)
                    let mut one = vec![f];
                    let was = stored.contains(&i);
                    let n = poll(&mut one, &stored, &all, &log)?;
                    ensure_eq!(n == 1, was, "{log:?}");
                    match one.pop() {
                        Some(w) => f = w,
                        None => continue,
                    }
                }
                waiting.push(f);
            }
            1 => {
                let mut batch: BTreeSet<usize> = [i].into();
                for _ in 0..g.below(3) {
                    batch.insert(g.usize(all.len()));
                }
                log.push(format!("write {batch:?}"));
                if batch.len() == 1 {
                    db.write(all[i].clone()).map_err(s("write"))?;
                } else {
                    db.write_all(batch.iter().map(|i| &all[*i])).map_err(s("write"))?;
                }
                stored.extend(batch);
                woken += poll(&mut waiting, &stored, &all, &log)?;
            }
            2 => {
                let mut batch: BTreeSet<usize> = [i].into();
                for _ in 0..g.below(3) {
                    batch.insert(g.usize(all.len()));
                }
                log.push(format!("write {batch:?}, but the disk fails"));
                db.fail.store(true, SeqCst);
                let r = if batch.len() == 1 { db.write(all[i].clone()) } else { db.write_all(batch.iter().map(|i| &all[*i])) };
                ensure!(r.is_err(), "a failed write is reported as done");
                db.fail.store(false, SeqCst);
                for i in batch {
                    ensure_eq!(db.contains(&all[i].digest()).map_err(s("contains"))?, stored.contains(&i), "after a failed write");
                }
                woken += poll(&mut waiting, &stored, &all, &log)?;
            }
            3 => {
                log.push(format!("delete {i}"));
                // (those that wait for it without having looked wait for the next one)
                db.delete(all[i].digest()).map_err(s("delete"))?;
                stored.remove(&i);
                poll(&mut waiting, &stored, &all, &log)?;
            }
            4 => {
                if !waiting.is_empty() {
                    let w = g.usize(waiting.len());
                    log.push(format!("a reader of {} gives up", waiting[w].0));
                    waiting.remove(w);
                }
                woken += poll(&mut waiting, &stored, &all, &log)?;
            }
            _ => {
                // it is written just after the reader found it missing
                if stored.contains(&i) {
                    continue;
                }
                log.push(format!("wait for {i}, which is written meanwhile"));
                *db.during.lock().expect("during") = Some(all[i].clone());
                let d2 = db.clone();
                let d = all[i].digest();
                let mut one: Vec<Waiter<'_>> = vec![(i, Box::pin(async move { d2.notify_read(d).await }))];
                stored.insert(i);
                let n = poll(&mut one, &stored, &all, &log)?;
                ensure_eq!(n, 1, "{log:?}");
                woken += 1;
                woken += poll(&mut waiting, &stored, &all, &log)?;
            }
        }
    }
    g.nontrivial_if(woken > 0);
    g.note(|| log.join(", "));
    Ok(())
}

// ---- the archive

fn universe_of_pack(g: &mut G) -> Vec<Certificate> {
    let com = Com::of(&distinct(g, 4), 3);
    let k = g.urange(1, 30);
    (0..k)
        .map(|i| {
            let mut h = any_header(g);
            h = HeaderBuilder::from_header(&h).created_at(i as u64).build();
            let mut c = cheap_cert(&com, h);
            c.set_signature_verification_state(match g.below(3) {
                0 => SignatureVerificationState::Unverified(some_sig(g)),
                1 => SignatureVerificationState::VerifiedIndirectly(some_sig(g)),
                _ => SignatureVerificationState::VerifiedDirectly(some_sig(g)),
            });
            c
        })
        .collect()
}

async fn check_pack(p: &CertificatePack, all: &[Certificate], have: impl Fn(usize) -> Option<bool>, what: &str) -> R {
    for (i, c) in all.iter().enumerate() {
        let got = p.get(c.digest()).await;
        let there = p.contains(c.digest()).await;
        if let Some(got) = &got {
            ensure!(got.digest() == c.digest() && got.header() == c.header() && got.signed_authorities() == c.signed_authorities(), "{what}: certificate {i} is altered");
            ensure!(got.aggregated_signature() == c.aggregated_signature(), "{what}: certificate {i} has another signature");
            ensure!(there, "{what}: certificate {i} is read but not contained");
        }
        match have(i) {
            Some(h) => {
                ensure_eq!(got.is_some(), h, "{what}: certificate {i}");
                ensure_eq!(there, h, "{what}: contains certificate {i}");
            }
            None => ensure_eq!(got.is_some(), there, "{what}: contains certificate {i}"),
        }
    }
    Ok(())
}

fn archive(g: &mut G) -> R {
    let sc = Scratch::new();
    let dir = sc.sub("db");
    std::fs::create_dir_all(&dir).map_err(s("dir"))?;
    let all = universe_of_pack(g);
    let e = epoch(g);
    let mut have: BTreeSet<usize> = BTreeSet::new();
    let mut log = vec![];
    let (mut twice, mut reopened) = (0, 0);
    block_on(async {
        let mut p = CertificatePack::open(&dir, e);
        for _ in 0..g.urange(1, 25) {
            match g.weighted(&[8, 2, 1, 1]) {
                0 => {
                    let i = g.usize(all.len());
                    log.push(format!("{i}"));
                    if g.bool() {
                        p.save(all[i].clone()).await.map_err(s("save"))?;
                    } else {
                        p.try_save(all[i].clone()).map_err(s("save"))?;
                    }
                    twice += !have.insert(i) as usize;
                }
                1 => {
                    log.push("persist".into());
                    p.persist().await.map_err(s("persist"))?;
                }
                2 => {
                    log.push("reopen".into());
                    reopened += 1;
                    p.shutdown().await.map_err(s("shutdown"))?;
                    p = CertificatePack::open(&dir, e);
                    check_pack(&p, &all, |i| Some(have.contains(&i)), "reopened").await?;
                }
                _ => check_pack(&p, &all, |i| Some(have.contains(&i)), "now").await?,
            }
        }
        check_pack(&p, &all, |i| Some(have.contains(&i)), "at the end").await?;
        p.get_error().map_err(s("error"))?;
        p.shutdown().await.map_err(s("shutdown"))?;
        let p = CertificatePack::open_static(&dir, e);
        check_pack(&p, &all, |i| Some(have.contains(&i)), "read only").await?;
        p.shutdown().await.map_err(s("shutdown"))
    })?;
    g.nontrivial_if(twice > 0 || reopened > 0);
    g.note(|| format!("epoch {e}: {}", log.join(" ")));
    Ok(())
}

fn archive_stop(power: bool) -> impl Fn(&mut G) -> R + Sync {
    move |g| {
        let sc = Scratch::new();
        let dir = sc.sub("db");
        std::fs::create_dir_all(&dir).map_err(s("dir"))?;
        let all = universe_of_pack(g);
        let e = epoch(g);
        let rec = Recorder::start(&dir);
        let mut saved: Vec<usize> = vec![];
        let mut log = vec![];
        block_on(async {
            let mut p = CertificatePack::open(&dir, e);
            p.persist().await.map_err(s("persist"))?;
            rec.mark(0);
            for _ in 0..g.urange(1, 20) {
                match g.weighted(&[8, 4, 1]) {
                    0 => {
                        let i = g.usize(all.len());
                        log.push(format!("{i}"));
                        p.save(all[i].clone()).await.map_err(s("save"))?;
                        if !saved.contains(&i) {
                            saved.push(i);
                        }
                    }
                    1 => {
                        log.push("persist".into());
                        p.persist().await.map_err(s("persist"))?;
                        rec.mark(saved.len() as u64);
                    }
                    _ => {
                        log.push("reopen".into());
                        p.shutdown().await.map_err(s("shutdown"))?;
                        rec.mark(saved.len() as u64);
                        p = CertificatePack::open(&dir, e);
                    }
                }
            }
            p.shutdown().await.map_err(s("shutdown"))?;
            rec.mark(saved.len() as u64);
            Ok::<_, String>(())
        })?;
        let ops = rec.ops();
        drop(rec);
        let (k, torn) = stop_point(g, &ops, 0);
        let persisted = ops[..k].iter().filter_map(|o| if let Op::Mark(m) = o { Some(*m as usize) } else { None }).last().unwrap_or(0);
        let d2 = sc.sub("stopped");
        std::fs::create_dir_all(&d2).map_err(s("dir"))?;
        if power {
            let lost = vfs::apply_power_cut(&ops[..k], |left| if g.bool() { left } else { g.usize(left + 1) }, &d2);
            g.nontrivial_if(lost > 0 && !saved.is_empty());
        } else {
            vfs::apply(&ops[..k], torn, &d2);
            g.nontrivial_if(!saved.is_empty() && k < ops.len());
        }
        let at = format!("stopped after {k} of {} operations ({:?}), torn {torn:?}, {persisted} of {saved:?} persisted; {}", ops.len(), ops[..k].last().map(|o| o.brief()), log.join(" "));
        g.note(|| format!("epoch {e}: {at}"));
        let mut order: Vec<usize> = (0..all.len()).collect();
        g.shuffle(&mut order);
        let more = g.usize(all.len() + 1);
        block_on(async {
            after_stop(&d2, e, &all, &saved, persisted, &order[..more]).await.map_err(|x| format!("{x}; {at}"))
        })
    }
}

async fn after_stop(dir: &Path, e: Epoch, all: &[Certificate], saved: &[usize], persisted: usize, more: &[usize]) -> R {
    let p = CertificatePack::open(dir, e);
    let sure: BTreeSet<usize> = saved[..persisted].iter().copied().collect();
    let may: BTreeSet<usize> = saved.iter().copied().collect();
    let state = |i: usize| if sure.contains(&i) { Some(true) } else if may.contains(&i) { None } else { Some(false) };
    check_pack(&p, all, state, "after the stop").await?;
    p.get_error().map_err(s("opening"))?;
    let mut have: BTreeSet<usize> = BTreeSet::new();
    for (i, c) in all.iter().enumerate() {
        if p.get(c.digest()).await.is_some() {
            have.insert(i);
        }
    }
    // others are saved, and what was lost is saved again
    for i in more.iter().chain(saved) {
        p.save(all[*i].clone()).await.map_err(s("saving again"))?;
        have.insert(*i);
        check_pack(&p, all, |j| if have.contains(&j) { Some(true) } else { Some(false) }, &format!("after saving {i}")).await?;
    }
    p.shutdown().await.map_err(s("shutdown"))?;
    let p = CertificatePack::open(dir, e);
    check_pack(&p, all, |j| Some(have.contains(&j)), "reopened").await?;
    p.shutdown().await.map_err(s("shutdown"))
}

pub fn check(c: &mut Check) {
    c.sub("memory", Budget::new(4_000, 15), in_memory);
    c.sub("disk", Budget::new(300, 15), on_disk);
    c.sub("waiting", Budget::new(6_000, 10), waiting);
    c.sub("archive", Budget::new(2_000, 15), archive);
    c.sub("archive-stop", Budget::new(3_000, 20), archive_stop(false));
    c.sub("archive-power-cut", Budget::new(3_000, 20), archive_stop(true));
}
