//! A database that keeps what was written in memory until `persist` confirms it: what a stop leaves is `disk`.

use std::{
    collections::HashMap,
    sync::{
        atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst},
        Arc, Mutex,
    },
    time::Duration,
};
use tn_storage::mem_db::MemDatabase;
use tn_types::{DBIter, Database, DbTx, DbTxMut, Table, TableHint};

type Op = Box<dyn Fn(&MemDatabase) -> eyre::Result<()> + Send + Sync>;

#[derive(Default)]
struct Inner {
    log: Mutex<Vec<(TableHint, Op)>>,
    /// how long a persist takes, in ms
    slow: AtomicU64,
    /// persist fails
    broken: AtomicBool,
    persists: AtomicUsize,
    reads: Mutex<HashMap<&'static str, usize>>,
}

#[derive(Clone)]
pub struct CrashDb {
    live: MemDatabase,
    disk: MemDatabase,
    inner: Arc<Inner>,
}

impl Default for CrashDb {
    fn default() -> Self {
        Self { live: MemDatabase::default(), disk: MemDatabase::default(), inner: Default::default() }
    }
}

impl CrashDb {
    pub fn slow(&self, ms: u64) {
        self.inner.slow.store(ms, SeqCst);
    }

    pub fn broken(&self, yes: bool) {
        self.inner.broken.store(yes, SeqCst);
    }

    pub fn persists(&self) -> usize {
        self.inner.persists.load(SeqCst)
    }

    /// What a stop right now leaves behind.
    pub fn disk(&self) -> &MemDatabase {
        &self.disk
    }

    /// The database after a stop: what was confirmed, and the first `extra` writes after that.
    pub fn stop(&self, extra: usize, tables: &[fn(&MemDatabase, &MemDatabase)]) -> CrashDb {
        for (_, op) in self.inner.log.lock().expect("log").drain(..).take(extra) {
            let _ = op(&self.disk);
        }
        let next = CrashDb { live: MemDatabase::default(), disk: self.disk.clone(), inner: Default::default() };
        next.slow(self.inner.slow.load(SeqCst));
        for t in tables {
            t(&self.disk, &next.live);
        }
        next
    }

    fn wrote(&self, hint: TableHint, op: Op) {
        self.inner.log.lock().expect("log").push((hint, op));
    }
}

/// Copies one table.
pub fn table<T: Table>(from: &MemDatabase, to: &MemDatabase) {
    for (k, v) in from.iter::<T>() {
        let _ = to.insert::<T>(&k, &v);
    }
}

type MemTx = <MemDatabase as Database>::TX<'static>;
type MemTxMut = <MemDatabase as Database>::TXMut<'static>;

#[derive(Debug)]
pub struct Tx(MemTx);

impl DbTx for Tx {
    fn get<T: Table>(&self, key: &T::Key) -> eyre::Result<Option<T::Value>> {
        self.0.get::<T>(key)
    }
}

pub struct TxMut {
    tx: MemTxMut,
    db: CrashDb,
    ops: Vec<(TableHint, Op)>,
}

impl std::fmt::Debug for TxMut {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("TxMut")
    }
}

impl DbTx for TxMut {
    fn get<T: Table>(&self, key: &T::Key) -> eyre::Result<Option<T::Value>> {
        self.tx.get::<T>(key)
    }
}

impl DbTxMut for TxMut {
    fn insert<T: Table>(&mut self, key: &T::Key, value: &T::Value) -> eyre::Result<()> {
        let (k, v) = (key.clone(), value.clone());
        self.ops.push((T::HINT, Box::new(move |d| d.insert::<T>(&k, &v))));
        self.tx.insert::<T>(key, value)
    }

    fn remove<T: Table>(&mut self, key: &T::Key) -> eyre::Result<()> {
        let k = key.clone();
        self.ops.push((T::HINT, Box::new(move |d| d.remove::<T>(&k))));
        self.tx.remove::<T>(key)
    }

    fn clear_table<T: Table>(&mut self) -> eyre::Result<()> {
        self.ops.push((T::HINT, Box::new(move |d| d.clear_table::<T>())));
        self.tx.clear_table::<T>()
    }

    fn commit(self) -> eyre::Result<()> {
        self.tx.commit()?;
        self.db.inner.log.lock().expect("log").extend(self.ops);
        Ok(())
    }
}

impl Database for CrashDb {
    type TX<'txn> = Tx;
    type TXMut<'txn> = TxMut;

    fn open_table<T: Table>(&self) -> eyre::Result<()> {
        self.disk.open_table::<T>()?;
        self.live.open_table::<T>()
    }

    fn read_txn(&self) -> eyre::Result<Tx> {
        Ok(Tx(self.live.read_txn()?))
    }

    fn write_txn(&self) -> eyre::Result<TxMut> {
        Ok(TxMut { tx: self.live.write_txn()?, db: self.clone(), ops: vec![] })
    }

    fn contains_key<T: Table>(&self, key: &T::Key) -> eyre::Result<bool> {
        self.live.contains_key::<T>(key)
    }

    fn get<T: Table>(&self, key: &T::Key) -> eyre::Result<Option<T::Value>> {
        *self.inner.reads.lock().expect("reads").entry(T::NAME).or_default() += 1;
        self.live.get::<T>(key)
    }

    fn insert<T: Table>(&self, key: &T::Key, value: &T::Value) -> eyre::Result<()> {
        let (k, v) = (key.clone(), value.clone());
        self.wrote(T::HINT, Box::new(move |d| d.insert::<T>(&k, &v)));
        self.live.insert::<T>(key, value)
    }

    fn remove<T: Table>(&self, key: &T::Key) -> eyre::Result<()> {
        let k = key.clone();
        self.wrote(T::HINT, Box::new(move |d| d.remove::<T>(&k)));
        self.live.remove::<T>(key)
    }

    fn clear_table<T: Table>(&self) -> eyre::Result<()> {
        self.wrote(T::HINT, Box::new(move |d| d.clear_table::<T>()));
        self.live.clear_table::<T>()
    }

    fn is_empty<T: Table>(&self) -> bool {
        self.live.is_empty::<T>()
    }

    fn iter<T: Table>(&self) -> DBIter<'_, T> {
        self.live.iter::<T>()
    }

    fn skip_to<T: Table>(&self, key: &T::Key) -> eyre::Result<DBIter<'_, T>> {
        self.live.skip_to::<T>(key)
    }

    fn reverse_iter<T: Table>(&self) -> DBIter<'_, T> {
        self.live.reverse_iter::<T>()
    }

    fn record_prior_to<T: Table>(&self, key: &T::Key) -> Option<(T::Key, T::Value)> {
        self.live.record_prior_to::<T>(key)
    }

    fn last_record<T: Table>(&self) -> Option<(T::Key, T::Value)> {
        self.live.last_record::<T>()
    }

    async fn persist<T: Table>(&self) -> eyre::Result<()> {
        let upto = self.inner.log.lock().expect("log").len();
        let slow = self.inner.slow.load(SeqCst);
        if slow > 0 {
            tokio::time::sleep(Duration::from_millis(slow)).await;
        }
        if self.inner.broken.load(SeqCst) {
            return Err(eyre::eyre!("the disk is full"));
        }
        self.inner.persists.fetch_add(1, SeqCst);
        let mut log = self.inner.log.lock().expect("log");
        let mut at = 0;
        let upto = upto.min(log.len());
        // a table of another store may stay behind
        let mut rest = vec![];
        for (hint, op) in log.drain(..) {
            if at < upto && hint == T::HINT {
                op(&self.disk)?;
            } else {
                rest.push((hint, op));
            }
            at += 1;
        }
        *log = rest;
        Ok(())
    }
}
