//! S05: every key-value store behaves like an ordered map with atomic transactions.

use crate::s05disk::Disk;
use futures::Future;
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use tn_storage::composite_db::CompositeDatabase;
use tn_storage::layered_db::LayeredDatabase;
use tn_storage::mem_db::MemDatabase;
use tn_storage::ReDB;
use tn_types::{Database, DbTx, DbTxMut, Table, TableHint, B256};
use vcore::{ensure, ensure_eq, Budget, Check, Scratch, G, R};
use vgen::block_on;

pub const RULE: &str = "at least six changes, at least one of them an overwrite, removal or clearing, checked by reads in between; or a stop, a failure, a reopening or a transaction";

macro_rules! table {
    ($t:ident, $name:expr, $hint:ident, $k:ty, $v:ty, $f:ident) => {
        #[derive(Debug)]
        pub struct $t;
        impl Table for $t {
            type Key = $k;
            type Value = $v;
            const NAME: &'static str = $name;
            const HINT: TableHint = TableHint::$hint;
        }
        impl Tab for $t {
            fn m(m: &Model) -> &BTreeMap<$k, $v> {
                &m.$f
            }
            fn mm(m: &mut Model) -> &mut BTreeMap<$k, $v> {
                &mut m.$f
            }
            fn key(n: u64) -> $k {
                <$k as Pool>::of(n)
            }
            fn val(g: &mut G) -> $v {
                <$v as Val>::gen(g)
            }
        }
    };
}

/// The reference: one ordered map per table.
#[derive(Clone, Default, PartialEq, Eq, Debug)]
pub struct Model {
    a: BTreeMap<u64, Vec<u8>>,
    b: BTreeMap<(u32, B256), u64>,
    c: BTreeMap<B256, String>,
    d: BTreeMap<u64, u64>,
}

pub trait Pool {
    fn of(n: u64) -> Self;
}
const NUMS: [u64; KEYS] =
    [0, 1, 2, 127, 128, 255, 256, 257, 65535, 65536, 1 << 31, (1 << 32) - 1, 1 << 32, 1 << 40, u64::MAX / 2, u64::MAX];
pub const KEYS: usize = 16;
impl Pool for u64 {
    fn of(n: u64) -> u64 {
        NUMS[n as usize % KEYS]
    }
}
impl Pool for B256 {
    fn of(n: u64) -> B256 {
        let mut b = [0u8; 32];
        b[(n % 4) as usize * 10] = (n / 4 + 1) as u8 * 60;
        b[31] = n as u8;
        B256::from(b)
    }
}
impl Pool for (u32, B256) {
    fn of(n: u64) -> (u32, B256) {
        ([0, 1, 256, u32::MAX][(n / 4) as usize % 4], B256::of(n % 4 * 5))
    }
}
pub trait Val {
    fn gen(g: &mut G) -> Self;
}
impl Val for u64 {
    fn gen(g: &mut G) -> u64 {
        g.num()
    }
}
impl Val for String {
    fn gen(g: &mut G) -> String {
        let n = g.usize(6);
        "aé€𝄞 z".chars().cycle().skip(g.usize(5)).take(n).collect()
    }
}
impl Val for Vec<u8> {
    fn gen(g: &mut G) -> Vec<u8> {
        let n = match g.below(12) {
            0 => 5000,
            1 => 0,
            _ => g.usize(40),
        };
        g.blob(n)
    }
}

pub trait Tab: Table<Key: Ord, Value: PartialEq> {
    fn m(m: &Model) -> &BTreeMap<Self::Key, Self::Value>;
    fn mm(m: &mut Model) -> &mut BTreeMap<Self::Key, Self::Value>;
    fn key(n: u64) -> Self::Key;
    fn val(g: &mut G) -> Self::Value;
}

table!(A, "ta", Epoch, u64, Vec<u8>, a);
table!(B, "tb", Kad, (u32, B256), u64, b);
table!(C, "tc", Cache, B256, String, c);
table!(D, "td", Cache, u64, u64, d);

/// run a generic function for the table with this number
macro_rules! on_table {
    ($n:expr, $T:ident, $e:expr) => {
        match $n {
            0 => {
                type $T = A;
                $e
            }
            1 => {
                type $T = B;
                $e
            }
            2 => {
                type $T = C;
                $e
            }
            _ => {
                type $T = D;
                $e
            }
        }
    };
}
pub(crate) use on_table;

/// Keys whose reads are not settled yet, per table: removed (or overwritten) since the last synchronisation.
#[derive(Default, Clone, Debug)]
pub struct Dirty {
    keys: BTreeSet<(usize, u64)>,
    /// written since the last synchronisation
    written: BTreeSet<(usize, u64)>,
}
impl Dirty {
    fn all(&mut self, t: usize) {
        self.keys.extend((0..KEYS as u64).map(|k| (t, k)));
    }
    fn has(&self, t: usize, k: u64) -> bool {
        self.keys.contains(&(t, k))
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    /// every read is exact at once
    Exact,
    /// layered, everything kept in memory
    Full,
    /// layered, memory holds only what is not written yet
    Cache,
}

fn er(what: &str) -> impl Fn(eyre::Report) -> String + '_ {
    move |e| format!("{what}: {e}")
}

/// point reads
pub fn point<T: Tab, DB: Database>(db: &DB, t: usize, n: u64, m: &Model, dirty: &Dirty, kind: Kind) -> R {
    let (k, want) = (T::key(n), T::m(m).get(&T::key(n)).cloned());
    if !dirty.has(t, n) {
        let got = db.get::<T>(&k).map_err(er("get"))?;
        ensure!(got == want, "get {k:?} of {}: {got:?}, stored {want:?}", T::NAME);
        let tx = db.read_txn().map_err(er("read_txn"))?;
        let got = tx.get::<T>(&k).map_err(er("get"))?;
        ensure!(got == want, "get {k:?} of {} in a transaction: {got:?}, stored {want:?}", T::NAME);
    }
    if kind != Kind::Cache || !dirty.has(t, n) {
        let c = db.contains_key::<T>(&k).map_err(er("contains"))?;
        ensure!(c == want.is_some(), "contains_key {k:?} of {}: {c}, stored {want:?}", T::NAME);
    }
    Ok(())
}

/// ordered reads (when nothing is on its way to the disk, or the memory holds everything)
pub fn scan<T: Tab, DB: Database>(g: &mut G, db: &DB, m: &Model) -> R {
    let m = T::m(m);
    let n = T::NAME;
    let all: Vec<_> = m.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    let got: Vec<_> = db.iter::<T>().collect();
    ensure!(got == all, "iter of {n}: {got:?}, stored {all:?}");
    let got: Vec<_> = db.reverse_iter::<T>().collect();
    ensure!(got.iter().rev().eq(all.iter()), "reverse_iter of {n}: {got:?}, stored {all:?}");
    let k = T::key(g.below(KEYS as u64));
    let got: Vec<_> = db.skip_to::<T>(&k).map_err(er("skip_to"))?.collect();
    let want: Vec<_> = m.range(k.clone()..).map(|(k, v)| (k.clone(), v.clone())).collect();
    ensure!(got == want, "skip_to {k:?} of {n}: {got:?}, stored {all:?}");
    let got = db.record_prior_to::<T>(&k);
    let want = m.range(..k.clone()).next_back().map(|(k, v)| (k.clone(), v.clone()));
    ensure!(got == want, "record_prior_to {k:?} of {n}: {got:?}, want {want:?}");
    let got = db.last_record::<T>();
    let want = m.last_key_value().map(|(k, v)| (k.clone(), v.clone()));
    ensure!(got == want, "last_record of {n}: {got:?}, want {want:?}");
    ensure_eq!(db.is_empty::<T>(), m.is_empty(), "is_empty of {n}, stored {all:?}");
    Ok(())
}

pub fn multi<T: Tab, DB: Database>(g: &mut G, db: &DB, m: &Model) -> R {
    let ks: Vec<T::Key> = g.vec(0, 6, 3, |g| T::key(g.below(KEYS as u64)));
    let got = db.multi_get::<T>(ks.iter()).map_err(er("multi_get"))?;
    let want: Vec<_> = ks.iter().map(|k| T::m(m).get(k).cloned()).collect();
    ensure!(got == want, "multi_get {ks:?} of {}: {got:?}, want {want:?}", T::NAME);
    Ok(())
}

pub fn everything<DB: Database>(g: &mut G, db: &DB, m: &Model) -> R {
    let clean = Dirty::default();
    for t in 0..4 {
        on_table!(t, T, {
            for n in 0..KEYS as u64 {
                point::<T, DB>(db, t, n, m, &clean, Kind::Exact)?;
            }
            scan::<T, DB>(g, db, m)?;
            multi::<T, DB>(g, db, m)?;
        });
    }
    Ok(())
}

#[derive(Clone, Debug)]
enum Ch {
    Ins(u64),
    Rm(u64),
    Clear,
}

fn change(g: &mut G) -> (usize, Ch) {
    let t = g.usize(4);
    let c = match g.weighted(&[12, 5, 1]) {
        0 => Ch::Ins(g.below(KEYS as u64)),
        1 => Ch::Rm(g.below(KEYS as u64)),
        _ => Ch::Clear,
    };
    (t, c)
}

/// counts for the rule
#[derive(Default)]
struct Seen {
    changes: usize,
    over: bool,
    special: bool,
}

fn note_change<T: Tab>(t: usize, c: &Ch, m: &Model, dirty: &mut Dirty, kind: Kind, seen: &mut Seen) {
    seen.changes += 1;
    match c {
        Ch::Ins(n) => {
            seen.over |= T::m(m).contains_key(&T::key(*n));
            // the memory mirror of a cache is dropped by the write of the older value
            if !dirty.written.insert((t, *n)) && kind == Kind::Cache {
                dirty.keys.insert((t, *n));
            }
            if kind == Kind::Full {
                // what is in memory wins
                dirty.keys.remove(&(t, *n));
            }
        }
        Ch::Rm(n) => {
            seen.over |= T::m(m).contains_key(&T::key(*n));
            dirty.keys.insert((t, *n));
        }
        Ch::Clear => {
            seen.over |= !T::m(m).is_empty();
            dirty.all(t);
        }
    }
}

fn apply_db<T: Tab, DB: Database>(g: &mut G, db: &DB, c: &Ch, m: &mut Model) -> R {
    match c {
        Ch::Ins(n) => {
            let v = T::val(g);
            db.insert::<T>(&T::key(*n), &v).map_err(er("insert"))?;
            T::mm(m).insert(T::key(*n), v);
        }
        Ch::Rm(n) => {
            db.remove::<T>(&T::key(*n)).map_err(er("remove"))?;
            T::mm(m).remove(&T::key(*n));
        }
        Ch::Clear => {
            db.clear_table::<T>().map_err(er("clear"))?;
            T::mm(m).clear();
        }
    }
    Ok(())
}

fn apply_tx<T: Tab, X: DbTxMut>(g: &mut G, tx: &mut X, c: &Ch, m: &mut Model) -> R {
    match c {
        Ch::Ins(n) => {
            let v = T::val(g);
            tx.insert::<T>(&T::key(*n), &v).map_err(er("insert"))?;
            T::mm(m).insert(T::key(*n), v);
        }
        Ch::Rm(n) => {
            tx.remove::<T>(&T::key(*n)).map_err(er("remove"))?;
            T::mm(m).remove(&T::key(*n));
        }
        Ch::Clear => {
            tx.clear_table::<T>().map_err(er("clear"))?;
            T::mm(m).clear();
        }
    }
    Ok(())
}

fn open_tables<DB: Database>(db: &DB) -> R {
    db.open_table::<A>().map_err(er("open"))?;
    db.open_table::<B>().map_err(er("open"))?;
    db.open_table::<C>().map_err(er("open"))?;
    db.open_table::<D>().map_err(er("open"))?;
    Ok(())
}

fn done(g: &mut G, seen: &Seen) {
    g.nontrivial_if(seen.changes >= 6 && (seen.over || seen.special));
}

fn mem(g: &mut G) -> R {
    let db = MemDatabase::new();
    open_tables(&db)?;
    let mut m = Model::default();
    let mut seen = Seen::default();
    let mut d = Dirty::default();
    while g.more(25) {
        let (t, c) = change(g);
        on_table!(t, T, {
            note_change::<T>(t, &c, &m, &mut d, Kind::Exact, &mut seen);
            if g.chance(1, 3) {
                let mut tx = db.write_txn().map_err(er("write_txn"))?;
                apply_tx::<T, _>(g, &mut tx, &c, &mut m)?;
                let n = g.below(KEYS as u64);
                ensure!(tx.get::<T>(&T::key(n)).map_err(er("get"))? == T::m(&m).get(&T::key(n)).cloned(), "read in its own transaction");
                tx.commit().map_err(er("commit"))?;
            } else {
                apply_db::<T, _>(g, &db, &c, &mut m)?;
            }
            point::<T, _>(&db, t, g.below(KEYS as u64), &m, &Dirty::default(), Kind::Exact)?;
            if g.chance(1, 3) {
                scan::<T, _>(g, &db, &m)?;
            }
        });
    }
    done(g, &seen);
    everything(g, &db, &m)
}

fn redb(g: &mut G) -> R {
    let sc = Scratch::new();
    let file = sc.path().join("db");
    let mut db = ReDB::open(&file).map_err(er("open"))?;
    open_tables(&db)?;
    let mut m = Model::default();
    let mut seen = Seen::default();
    let mut d = Dirty::default();
    while g.more(14) {
        match g.weighted(&[8, 4, 1, 1, 2]) {
            0 => {
                let (t, c) = change(g);
                on_table!(t, T, {
                    note_change::<T>(t, &c, &m, &mut d, Kind::Exact, &mut seen);
                    apply_db::<T, _>(g, &db, &c, &mut m)?;
                    point::<T, _>(&db, t, g.below(KEYS as u64), &m, &Dirty::default(), Kind::Exact)?;
                });
            }
            1 => {
                // a transaction, seen by itself only until it is committed
                seen.special = true;
                let snap = db.read_txn().map_err(er("read_txn"))?;
                let before = m.clone();
                let mut tx = db.write_txn().map_err(er("write_txn"))?;
                let mut inner = m.clone();
                for _ in 0..1 + g.usize(6) {
                    let (t, c) = change(g);
                    on_table!(t, T, {
                        note_change::<T>(t, &c, &inner, &mut d, Kind::Exact, &mut seen);
                        apply_tx::<T, _>(g, &mut tx, &c, &mut inner)?;
                        let k = T::key(g.below(KEYS as u64));
                        ensure!(tx.get::<T>(&k).map_err(er("get"))? == T::m(&inner).get(&k).cloned(), "{k:?} of {} in its own transaction", T::NAME);
                        ensure!(db.get::<T>(&k).map_err(er("get"))? == T::m(&before).get(&k).cloned(), "{k:?} of {} is seen before the commit", T::NAME);
                    });
                }
                let commit = g.chance(2, 3);
                if commit {
                    tx.commit().map_err(er("commit"))?;
                    m = inner;
                } else {
                    drop(tx);
                }
                for t in 0..4 {
                    on_table!(t, T, {
                        for n in 0..KEYS as u64 {
                            let k = T::key(n);
                            let got = snap.get::<T>(&k).map_err(er("get"))?;
                            ensure!(got == T::m(&before).get(&k).cloned(), "a reader that began before the commit sees {got:?} for {k:?} of {}", T::NAME);
                            point::<T, _>(&db, t, n, &m, &Dirty::default(), Kind::Exact)
                                .map_err(|e| format!("{e} (transaction {})", if commit { "committed" } else { "dropped" }))?;
                        }
                    });
                }
            }
            2 => {
                seen.special = true;
                db.compact().map_err(er("compact"))?;
                everything(g, &db, &m).map_err(|e| format!("{e} (compacted)"))?;
            }
            3 => {
                seen.special = true;
                drop(db);
                db = ReDB::open(&file).map_err(er("open again"))?;
                if g.bool() {
                    open_tables(&db)?;
                }
                everything(g, &db, &m).map_err(|e| format!("{e} (reopened)"))?;
            }
            _ => {
                // an iteration goes on over what was there when it began
                let (t, c) = change(g);
                on_table!(t, T, {
                    let want: Vec<_> = T::m(&m).iter().map(|(k, v)| (k.clone(), v.clone())).collect();
                    let mut it = db.iter::<T>();
                    let mut got: Vec<_> = it.by_ref().take(g.usize(3)).collect();
                    note_change::<T>(t, &c, &m, &mut d, Kind::Exact, &mut seen);
                    apply_db::<T, _>(g, &db, &c, &mut m)?;
                    got.extend(it);
                    ensure!(got == want, "iteration during {c:?}: {got:?}, at its start {want:?}");
                });
            }
        }
    }
    done(g, &seen);
    everything(g, &db, &m)
}

/// Operations on a layered or composed store, with overlapping transactions.
struct Runner<'a, DB: Database> {
    db: &'a DB,
    m: Model,
    dirty: Dirty,
    seen: Seen,
    kinds: [Kind; 4],
    txs: Vec<DB::TXMut<'a>>,
    trace: Vec<String>,
}

impl<'a, DB: Database> Runner<'a, DB> {
    fn new(db: &'a DB, m: Model, kinds: [Kind; 4]) -> Self {
        Self { db, m, dirty: Dirty::default(), seen: Seen::default(), kinds, txs: vec![], trace: vec![] }
    }
    fn change(&mut self, g: &mut G) -> R {
        let (t, c) = change(g);
        let w = if self.txs.is_empty() || g.chance(1, 3) { None } else { Some(g.usize(self.txs.len())) };
        self.trace.push(format!("{t}{c:?}{}", w.map(|w| format!(" in tx {w}")).unwrap_or_default()));
        on_table!(t, T, {
            note_change::<T>(t, &c, &self.m, &mut self.dirty, self.kinds[t], &mut self.seen);
            match w {
                Some(w) => {
                    apply_tx::<T, _>(g, &mut self.txs[w], &c, &mut self.m)?;
                    // a transaction sees its own writes
                    let n = g.below(KEYS as u64);
                    if !self.dirty.has(t, n) {
                        let got = self.txs[w].get::<T>(&T::key(n)).map_err(er("get"))?;
                        ensure!(got == T::m(&self.m).get(&T::key(n)).cloned(), "get {:?} of {} in a write transaction: {got:?}", T::key(n), T::NAME);
                    }
                }
                None => apply_db::<T, _>(g, self.db, &c, &mut self.m)?,
            }
        });
        Ok(())
    }
    fn read(&mut self, g: &mut G) -> R {
        let t = g.usize(4);
        on_table!(t, T, {
            for _ in 0..3 {
                point::<T, _>(self.db, t, g.below(KEYS as u64), &self.m, &self.dirty, self.kinds[t])?;
            }
            if self.kinds[t] == Kind::Full {
                scan::<T, _>(g, self.db, &self.m)?;
            }
        });
        Ok(())
    }
    fn step(&mut self, g: &mut G) -> R {
        match g.weighted(&[12, 5, 2, 2, 2]) {
            0 => self.change(g)?,
            1 => self.read(g)?,
            2 => {
                self.seen.special = true;
                if self.txs.len() < 3 {
                    self.trace.push("begin".into());
                    self.txs.push(self.db.write_txn().map_err(er("write_txn"))?);
                }
            }
            3 => {
                if !self.txs.is_empty() {
                    let tx = self.txs.swap_remove(g.usize(self.txs.len()));
                    // dropped without a commit, its writes are kept all the same
                    if g.chance(3, 4) {
                        self.trace.push("commit".into());
                        tx.commit().map_err(er("commit"))?;
                    } else {
                        self.trace.push("drop".into());
                        drop(tx);
                    }
                }
            }
            _ => self.settle(g, false)?,
        }
        Ok(())
    }
    /// wait until everything is on disk; then all reads are exact
    fn settle(&mut self, g: &mut G, end: bool) -> R {
        if end {
            for tx in std::mem::take(&mut self.txs) {
                if g.bool() {
                    tx.commit().map_err(er("commit"))?;
                }
            }
        }
        if !self.txs.is_empty() {
            return Ok(());
        }
        self.trace.push("persist".into());
        let db = self.db;
        block_on(async {
            for t in 0..4 {
                on_table!(t, T, db.persist::<T>().await.map_err(er("persist"))?);
            }
            Ok::<_, String>(())
        })?;
        self.dirty = Dirty::default();
        everything(g, self.db, &self.m)
    }
    fn run(&mut self, g: &mut G) -> R {
        while g.more(25) {
            self.step(g).map_err(|e| format!("{e}; {:?}", self.trace))?;
        }
        self.settle(g, true).map_err(|e| format!("{e}; {:?}", self.trace))?;
        done(g, &self.seen);
        Ok(())
    }
}

/// the content of a database file
fn on_disk(g: &mut G, file: &Path, m: &Model, tables: &[usize]) -> R {
    let sc = Scratch::new();
    let copy = sc.path().join("copy");
    std::fs::copy(file, &copy).map_err(|e| format!("copy: {e}"))?;
    let db = ReDB::open(&copy).map_err(er("open a copy"))?;
    for t in tables {
        on_table!(*t, T, scan::<T, _>(g, &db, m)?);
    }
    Ok(())
}

fn layered(g: &mut G) -> R {
    let full = g.bool();
    let kind = if full { Kind::Full } else { Kind::Cache };
    g.class(if full { "all in memory" } else { "write cache" });
    let sc = Scratch::new();
    let file = sc.path().join("db");
    let mut m = Model::default();
    for round in 0..1 + g.usize(3) {
        let db = LayeredDatabase::open(ReDB::open(&file).map_err(er("open"))?, full);
        open_tables(&db)?;
        everything(g, &db, &m).map_err(|e| format!("opened again ({round}): {e}"))?;
        let mut r = Runner::new(&db, m, [kind; 4]);
        r.run(g)?;
        m = r.m;
        let st = db.stats().map_err(er("stats"))?;
        ensure!(st.retained_inserts == 0 && st.open_txn_count == 0, "{st:?} after everything was persisted");
        on_disk(g, &file, &m, &[0, 1, 2, 3]).map_err(|e| format!("acknowledged but not on disk: {e}"))?;
        // more, and then an orderly stop without waiting
        let mut r = Runner::new(&db, m, [kind; 4]);
        for _ in 0..g.usize(6) {
            r.change(g)?;
        }
        m = r.m;
        if g.bool() {
            let db2 = db.clone();
            drop(db);
            drop(db2);
        }
    }
    Ok(())
}

fn composite(g: &mut G) -> R {
    let sc = Scratch::new();
    let f = |n: &str| sc.path().join(n);
    let mut m = Model::default();
    for round in 0..1 + g.usize(3) {
        let o = |n: &str| ReDB::open(f(n)).map_err(er("open"));
        let db = CompositeDatabase::open(o("epoch")?, o("kad")?, o("cache")?);
        open_tables(&db)?;
        everything(g, &db, &m).map_err(|e| format!("opened again ({round}): {e}"))?;
        let mut r = Runner::new(&db, m, [Kind::Full, Kind::Full, Kind::Cache, Kind::Cache]);
        r.run(g)?;
        m = r.m;
        let st = db.stats().map_err(er("stats"))?;
        for s in [st.epoch, st.kad, st.cache] {
            ensure!(s.retained_inserts == 0 && s.open_txn_count == 0, "{st:?} after everything was persisted");
        }
        on_disk(g, &f("epoch"), &m, &[0])?;
        on_disk(g, &f("kad"), &m, &[1])?;
        on_disk(g, &f("cache"), &m, &[2, 3])?;
    }
    Ok(())
}

/// A stop at any moment: what was committed is there, transactions are whole.
fn redb_stop(power: bool) -> impl Fn(&mut G) -> R + Sync {
    move |g: &mut G| {
        let sc = Scratch::new();
        let d = sc.sub("live");
        std::fs::create_dir_all(&d).map_err(|e| e.to_string())?;
        let rec = vfs::Recorder::start(&d);
        let db = ReDB::open(d.join("db")).map_err(er("open"))?;
        open_tables(&db)?;
        let mut states = vec![Model::default()];
        rec.mark(0);
        let mut m = Model::default();
        for _ in 0..1 + g.usize(8) {
            match g.below(3) {
                0 => {
                    let (t, c) = change(g);
                    on_table!(t, T, apply_db::<T, _>(g, &db, &c, &mut m)?);
                }
                k => {
                    let mut tx = db.write_txn().map_err(er("write_txn"))?;
                    let mut inner = m.clone();
                    for _ in 0..2 + g.usize(6) {
                        let (t, c) = change(g);
                        on_table!(t, T, apply_tx::<T, _>(g, &mut tx, &c, &mut inner)?);
                    }
                    if k == 1 || g.bool() {
                        tx.commit().map_err(er("commit"))?;
                        m = inner;
                    } else {
                        drop(tx);
                    }
                }
            }
            states.push(m.clone());
            rec.mark(states.len() as u64 - 1);
            if g.chance(1, 12) {
                db.compact().map_err(er("compact"))?;
            }
        }
        drop(db);
        let ops = rec.ops();
        drop(rec);
        let first = ops.iter().position(|o| matches!(o, vfs::Op::Mark(0))).unwrap_or(0);
        let k = first + 1 + g.usize(ops.len() - first);
        let acked = ops[..k].iter().filter_map(|o| if let vfs::Op::Mark(i) = o { Some(*i as usize) } else { None }).max().unwrap_or(0);
        let d2 = sc.sub("stopped");
        std::fs::create_dir_all(&d2).map_err(|e| e.to_string())?;
        let lost = if power {
            vfs::apply_power_cut(&ops[..k], |left| g.usize(left + 1), &d2)
        } else {
            vfs::apply(&ops[..k], None, &d2);
            0
        };
        let db = ReDB::open(d2.join("db")).map_err(|e| format!("stopped after {k} of {} operations, cannot be opened: {e}", ops.len()))?;
        let mut err = String::new();
        // the transaction being committed may or may not be there
        let mut ok = false;
        for s in states[acked..].iter().take(2) {
            match everything(g, &db, s) {
                Ok(()) => {
                    ok = true;
                    break;
                }
                Err(e) => err = e,
            }
        }
        ensure!(ok, "stopped after {k} of {} operations ({lost} unsynced lost), {acked} of {} committed: {err}", ops.len(), states.len() - 1);
        g.nontrivial_if(states.len() > 3);
        Ok(())
    }
}

/// Several threads at once on one store: each has keys of its own, and readers see whole transactions.
fn threads(g: &mut G) -> R {
    let sc = Scratch::new();
    let full = g.bool();
    let n = 2 + g.usize(3) as u64;
    let rounds = 3 + g.usize(8) as u64;
    let disk = ReDB::open(sc.path().join("db")).map_err(er("open"))?;
    open_tables(&disk)?;
    let layer = LayeredDatabase::open(disk.clone(), full);
    open_tables(&layer)?;
    g.class(if full { "all in memory" } else { "write cache" });
    let stop = std::sync::atomic::AtomicBool::new(false);
    std::thread::scope(|s| {
        let mut hs = vec![];
        for w in 0..n {
            let layer = layer.clone();
            hs.push(s.spawn(move || -> R {
                for r in 1..=rounds {
                    if w % 2 == 0 {
                        let mut tx = layer.write_txn().map_err(er("write_txn"))?;
                        tx.insert::<D>(&(w * 100), &r).map_err(er("insert"))?;
                        tx.insert::<B>(&(w as u32, B256::ZERO), &r).map_err(er("insert"))?;
                        tx.insert::<D>(&(w * 100 + r), &r).map_err(er("insert"))?;
                        tx.commit().map_err(er("commit"))?;
                    } else {
                        layer.insert::<D>(&(w * 100 + r), &r).map_err(er("insert"))?;
                    }
                    for p in 1..=r {
                        let got = layer.get::<D>(&(w * 100 + p)).map_err(er("get"))?;
                        ensure!(got == Some(p), "writer {w} reads {got:?} for its key {p} after writing it");
                    }
                }
                Ok(())
            }));
        }
        let stop = &stop;
        let rd = s.spawn(move || -> R {
            let mut last = vec![0u64; n as usize];
            while !stop.load(std::sync::atomic::Ordering::Relaxed) {
                let tx = disk.read_txn().map_err(er("read_txn"))?;
                for w in (0..n).step_by(2) {
                    let a = tx.get::<D>(&(w * 100)).map_err(er("get"))?.unwrap_or(0);
                    let b = tx.get::<B>(&(w as u32, B256::ZERO)).map_err(er("get"))?.unwrap_or(0);
                    ensure!(a == b, "part of a transaction on disk: {a} in one table, {b} in the other");
                    ensure!(a == 0 || tx.get::<D>(&(w * 100 + a)).map_err(er("get"))? == Some(a), "part of a transaction on disk");
                    ensure!(a >= last[w as usize], "an older transaction after a newer one");
                    last[w as usize] = a;
                }
            }
            Ok(())
        });
        let mut res = Ok(());
        for h in hs {
            let r = h.join().map_err(|_| "writer panicked".to_string()).and_then(|x| x);
            res = res.and(r);
        }
        block_on(layer.persist::<D>()).map_err(er("persist"))?;
        stop.store(true, std::sync::atomic::Ordering::Relaxed);
        let r = rd.join().map_err(|_| "reader panicked".to_string()).and_then(|x| x);
        res.and(r)
    })?;
    let st = layer.stats().map_err(er("stats"))?;
    ensure!(st.retained_inserts == 0 && st.open_txn_count == 0, "{st:?} after everything was persisted");
    let all: Vec<_> = layer.iter::<D>().collect();
    let want: Vec<(u64, u64)> = (0..n)
        .flat_map(|w| (if w % 2 == 0 { Some((w * 100, rounds)) } else { None }).into_iter().chain((1..=rounds).map(move |r| (w * 100 + r, r))))
        .collect();
    ensure!(all == want, "iter {all:?}, written {want:?}");
    g.nontrivial();
    Ok(())
}

/// A write-behind store whose writer thread is held and released at will, with failures of the disk.
fn gate(fail: bool) -> impl Fn(&mut G) -> R + Sync {
    move |g: &mut G| {
        let full = g.bool();
        let kind = if full { Kind::Full } else { Kind::Cache };
        g.class(if full { "all in memory" } else { "write cache" });
        let disk = Disk::new();
        let db = LayeredDatabase::open(disk.clone(), full);
        open_tables(&db)?;
        let _free = Free(disk.clone());
        let mut sim = Sim::default();
        let mut m = Model::default();
        let mut dirty = Dirty::default();
        let mut seen = Seen::default();
        let mut txs = vec![];
        let mut barriers = vec![];
        let mut trace: Vec<String> = vec![];
        let fail_at = if fail { Some(g.below(12)) } else { None };
        disk.fail_at(fail_at);
        sim.fail_at = fail_at;
        let mut steps = 0;
        while g.more(22) && steps < 60 {
            steps += 1;
            match g.weighted(&[10, 6, 2, 3, 6, 3]) {
                0 => {
                    let (t, c) = change(g);
                    let w = if txs.is_empty() || g.chance(1, 3) { None } else { Some(g.usize(txs.len())) };
                    trace.push(format!("{t}{c:?}{}", if w.is_some() { " in tx" } else { "" }));
                    on_table!(t, T, {
                        note_change::<T>(t, &c, &m, &mut dirty, kind, &mut seen);
                        match w {
                            Some(w) => apply_tx::<T, _>(g, &mut txs[w], &c, &mut m)?,
                            None => apply_db::<T, _>(g, &db, &c, &mut m)?,
                        }
                    });
                    sim.msgs.push(Msg::Change(m.clone(), t, c));
                }
                1 => {
                    let t = g.usize(4);
                    on_table!(t, T, {
                        for _ in 0..4 {
                            point::<T, _>(&db, t, g.below(KEYS as u64), &m, &dirty, kind)
                                .map_err(|e| format!("{e}; released {}; {trace:?}", sim.released))?;
                        }
                        if full {
                            scan::<T, _>(g, &db, &m)?;
                        }
                    });
                }
                2 => {
                    if txs.len() < 3 {
                        trace.push("begin".into());
                        txs.push(db.write_txn().map_err(er("write_txn"))?);
                        sim.msgs.push(Msg::Start);
                    }
                }
                3 => {
                    if !txs.is_empty() {
                        let tx = txs.swap_remove(g.usize(txs.len()));
                        trace.push("end".into());
                        if g.bool() {
                            tx.commit().map_err(er("commit"))?;
                        } else {
                            drop(tx);
                        }
                        sim.msgs.push(Msg::End);
                    }
                }
                4 => {
                    let n = 1 + g.below(4);
                    trace.push(format!("release {n}"));
                    sim.released += n;
                    disk.release(n);
                    let st = sim.run();
                    sim.released = st.used;
                    disk.settle(st.used)?;
                    disk.take_back();
                    let now = disk.content();
                    ensure!(now == st.disk.rows(), "on disk after {} operations: {now:?}, want {:?}; {trace:?}", st.used, st.disk);
                }
                _ => {
                    trace.push("persist".into());
                    barriers.push((sim.msgs.len(), Box::pin(db.persist::<A>())));
                    sim.msgs.push(Msg::Barrier);
                }
            }
            // what is acknowledged is on disk
            let st = sim.run();
            let mut i = 0;
            while i < barriers.len() {
                let waker = futures::task::noop_waker();
                let mut cx = std::task::Context::from_waker(&waker);
                let (at, f) = &mut barriers[i];
                match f.as_mut().poll(&mut cx) {
                    std::task::Poll::Pending => i += 1,
                    std::task::Poll::Ready(r) => {
                        let want = st.barriers.get(at);
                        ensure!(want.is_some(), "persist {r:?} before the writes ahead of it are on disk; {trace:?}");
                        ensure!(want == Some(&r.is_ok()), "persist gives {r:?} (writes failed: {}); {trace:?}", st.failed);
                        drop(barriers.remove(i));
                    }
                }
            }
        }
        for tx in txs {
            tx.commit().map_err(er("commit"))?;
            sim.msgs.push(Msg::End);
        }
        disk.release(1 << 40);
        sim.released = 1 << 40;
        let st = sim.run();
        for (at, f) in barriers {
            let r = block_on(async { tokio::time::timeout(std::time::Duration::from_secs(20), f).await });
            let Ok(r) = r else { return Err(format!("persist never returns; {trace:?}")) };
            ensure!(st.barriers.get(&at) == Some(&r.is_ok()), "persist gives {r:?} (writes failed: {}); {trace:?}", st.failed);
        }
        let r = block_on(db.persist::<A>());
        ensure!(r.is_ok() != st.failed, "persist gives {r:?} (writes failed: {}); {trace:?}", st.failed);
        ensure!(disk.content() == st.disk.rows(), "on disk at the end {:?}, want {:?}; {trace:?}", disk.content(), st.disk);
        let s = db.stats().map_err(er("stats"))?;
        ensure!(s.open_txn_count == 0, "{s:?} at the end");
        if !st.failed {
            ensure!(s.retained_inserts == 0, "{s:?} at the end");
            everything(g, &db, &m).map_err(|e| format!("{e}; at the end of {trace:?}"))?;
        } else {
            // what could not be written is still served
            for t in 0..4 {
                on_table!(t, T, {
                    for n in 0..KEYS as u64 {
                        if let Some(v) = T::m(&m).get(&T::key(n)) {
                            if dirty.has(t, n) {
                                continue;
                            }
                            let got = db.get::<T>(&T::key(n)).map_err(er("get"))?;
                            ensure!(got.as_ref() == Some(v), "{:?} of {} was stored as {v:?}, after a failed write it reads {got:?}; failed {fail_at:?}; {trace:?}", T::key(n), T::NAME);
                        }
                    }
                });
            }
        }
        seen.special |= fail && st.failed;
        done(g, &seen);
        Ok(())
    }
}

/// let the writer thread go when a case ends
struct Free(Disk);
impl Drop for Free {
    fn drop(&mut self) {
        self.0.release(1 << 40);
    }
}

enum Msg {
    /// the state of the memory after it (for values), table and change
    Change(Model, usize, Ch),
    Start,
    End,
    Barrier,
}

/// What the writer thread has to do with the messages so far.
#[derive(Default)]
struct Sim {
    msgs: Vec<Msg>,
    released: u64,
    fail_at: Option<u64>,
}
struct SimState {
    disk: Model,
    used: u64,
    failed: bool,
    barriers: BTreeMap<usize, bool>,
}

fn sim_change(to: &mut Model, from: &Model, t: usize, c: &Ch) {
    on_table!(t, T, match c {
        Ch::Ins(n) => {
            let v = T::m(from)[&T::key(*n)].clone();
            T::mm(to).insert(T::key(*n), v);
        }
        Ch::Rm(n) => {
            T::mm(to).remove(&T::key(*n));
        }
        Ch::Clear => T::mm(to).clear(),
    })
}

impl Sim {
    fn run(&self) -> SimState {
        let mut s = SimState { disk: Model::default(), used: 0, failed: false, barriers: BTreeMap::new() };
        let mut open: Option<(Model, u32)> = None;
        let mut waiting = vec![];
        let step = |s: &mut SimState| -> Option<bool> {
            if s.used == self.released {
                return None;
            }
            s.used += 1;
            let bad = self.fail_at == Some(s.used - 1);
            s.failed |= bad;
            Some(!bad)
        };
        for (i, msg) in self.msgs.iter().enumerate() {
            match msg {
                Msg::Change(m, t, c) => {
                    let Some(ok) = step(&mut s) else { return s };
                    if ok {
                        match &mut open {
                            Some((staged, _)) => sim_change(staged, m, *t, c),
                            None => sim_change(&mut s.disk, m, *t, c),
                        }
                    }
                }
                Msg::Start => match &mut open {
                    Some((_, n)) => *n += 1,
                    None => open = Some((s.disk.clone(), 1)),
                },
                Msg::End => {
                    let (staged, n) = open.take().expect("open");
                    if n > 1 {
                        open = Some((staged, n - 1));
                    } else {
                        let Some(ok) = step(&mut s) else { return s };
                        if ok {
                            s.disk = staged;
                        }
                        let f = s.failed;
                        s.barriers.extend(waiting.drain(..).map(|i| (i, !f)));
                    }
                }
                Msg::Barrier => {
                    if open.is_some() {
                        waiting.push(i);
                    } else {
                        s.barriers.insert(i, !s.failed);
                    }
                }
            }
        }
        s
    }
}

impl Model {
    /// the rows as the disk holds them
    fn rows(&self) -> BTreeMap<(&'static str, Vec<u8>), Vec<u8>> {
        let mut r = BTreeMap::new();
        for t in 0..4 {
            on_table!(t, T, {
                for (k, v) in T::m(self) {
                    r.insert((T::NAME, tn_types::encode_key(k)), tn_types::encode(v));
                }
            });
        }
        r
    }
}

/// A key written twice while the first write is on its way to the disk.
fn cache_overwrite(g: &mut G) -> R {
    let disk = Disk::new();
    let db = LayeredDatabase::open(disk.clone(), false);
    let _free = Free(disk.clone());
    open_tables(&db)?;
    db.insert::<D>(&1, &10).map_err(er("insert"))?;
    db.insert::<D>(&1, &20).map_err(er("insert"))?;
    disk.release(1);
    disk.settle(1)?;
    // the writer thread now waits to write the second value
    disk.wait_blocked()?;
    let got = db.get::<D>(&1).map_err(er("get"))?;
    disk.release(1 << 40);
    g.nontrivial();
    ensure!(got != Some(10), "[[cache-overwrite]] 20 was written over 10, then 10 is read again");
    ensure!(got == Some(20), "20 was written over 10, then {got:?} is read");
    Ok(())
}

pub fn check(c: &mut Check) {
    c.sub("mem", Budget::new(20_000, 8), mem);
    c.sub("redb", Budget::new(4_000, 15), redb);
    c.sub("redb-stop", Budget::new(2_000, 15), redb_stop(false));
    c.sub("redb-power-cut", Budget::new(2_000, 15), redb_stop(true));
    c.sub("layered", Budget::new(2_000, 15), layered);
    c.sub("composite", Budget::new(1_000, 15), composite);
    c.sub("layered-held", Budget::new(20_000, 15), gate(false));
    c.sub("layered-failing", Budget::new(20_000, 15), gate(true));
    c.sub("threads", Budget::new(500, 10).threads(4), threads);
    c.fixed("cache-overwrite", cache_overwrite);
}
