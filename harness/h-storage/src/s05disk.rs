//! A disk for the layered store, whose operations wait for permission and can be made to fail.

use std::collections::BTreeMap;
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;
use tn_types::{decode, decode_key, encode, encode_key, DBIter, Database, DbTx, DbTxMut, Table};

type Rows = BTreeMap<(&'static str, Vec<u8>), Vec<u8>>;

#[derive(Default)]
struct St {
    rows: Rows,
    allowed: u64,
    used: u64,
    finished: u64,
    blocked: bool,
    fail_at: Option<u64>,
}

#[derive(Clone, Default)]
pub struct Disk(Arc<(Mutex<St>, Condvar)>);

impl Disk {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn release(&self, n: u64) {
        self.0 .0.lock().unwrap().allowed += n;
        self.0 .1.notify_all();
    }
    /// forget permissions that were not used
    pub fn take_back(&self) {
        let mut s = self.0 .0.lock().unwrap();
        s.allowed = s.used;
    }
    pub fn fail_at(&self, n: Option<u64>) {
        self.0 .0.lock().unwrap().fail_at = n;
    }
    /// wait until this many operations are done
    pub fn settle(&self, n: u64) -> Result<(), String> {
        let s = self.0 .0.lock().unwrap();
        let (s, t) = self.0 .1.wait_timeout_while(s, Duration::from_secs(20), |s| s.finished < n).unwrap();
        if t.timed_out() {
            return Err(format!("only {} of {n} operations arrived at the disk", s.finished));
        }
        Ok(())
    }
    pub fn wait_blocked(&self) -> Result<(), String> {
        let s = self.0 .0.lock().unwrap();
        let (_s, t) = self.0 .1.wait_timeout_while(s, Duration::from_secs(20), |s| !s.blocked).unwrap();
        if t.timed_out() {
            return Err("no operation arrived at the disk".into());
        }
        Ok(())
    }
    pub fn content(&self) -> Rows {
        self.0 .0.lock().unwrap().rows.clone()
    }
    fn op(&self, f: impl FnOnce(&mut Rows)) -> eyre::Result<()> {
        let mut s = self.0 .0.lock().unwrap();
        while s.used >= s.allowed {
            s.blocked = true;
            self.0 .1.notify_all();
            s = self.0 .1.wait(s).unwrap();
        }
        s.blocked = false;
        s.used += 1;
        let r = if s.fail_at == Some(s.used - 1) {
            Err(eyre::eyre!("disk failure"))
        } else {
            f(&mut s.rows);
            Ok(())
        };
        s.finished += 1;
        self.0 .1.notify_all();
        r
    }
    fn table<T: Table>(&self) -> Vec<(T::Key, T::Value)> {
        let s = self.0 .0.lock().unwrap();
        s.rows.iter().filter(|((n, _), _)| *n == T::NAME).map(|((_, k), v)| (decode_key(k), decode(v))).collect()
    }
}

#[derive(Debug)]
pub struct DiskTx(Rows);
impl DbTx for DiskTx {
    fn get<T: Table>(&self, key: &T::Key) -> eyre::Result<Option<T::Value>> {
        Ok(self.0.get(&(T::NAME, encode_key(key))).map(|v| decode(v)))
    }
}

pub struct DiskTxMut {
    disk: Disk,
    staged: Rows,
}
impl std::fmt::Debug for DiskTxMut {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "DiskTxMut")
    }
}
impl DbTx for DiskTxMut {
    fn get<T: Table>(&self, key: &T::Key) -> eyre::Result<Option<T::Value>> {
        Ok(self.staged.get(&(T::NAME, encode_key(key))).map(|v| decode(v)))
    }
}
impl DbTxMut for DiskTxMut {
    fn insert<T: Table>(&mut self, key: &T::Key, value: &T::Value) -> eyre::Result<()> {
        self.disk.op(|_| ())?;
        self.staged.insert((T::NAME, encode_key(key)), encode(value));
        Ok(())
    }
    fn remove<T: Table>(&mut self, key: &T::Key) -> eyre::Result<()> {
        self.disk.op(|_| ())?;
        self.staged.remove(&(T::NAME, encode_key(key)));
        Ok(())
    }
    fn clear_table<T: Table>(&mut self) -> eyre::Result<()> {
        self.disk.op(|_| ())?;
        self.staged.retain(|k, _| k.0 != T::NAME);
        Ok(())
    }
    fn commit(self) -> eyre::Result<()> {
        let Self { disk, staged } = self;
        disk.op(|r| *r = staged)
    }
}

impl Database for Disk {
    type TX<'txn> = DiskTx;
    type TXMut<'txn> = DiskTxMut;
    fn open_table<T: Table>(&self) -> eyre::Result<()> {
        Ok(())
    }
    fn read_txn(&self) -> eyre::Result<DiskTx> {
        Ok(DiskTx(self.content()))
    }
    fn write_txn(&self) -> eyre::Result<DiskTxMut> {
        Ok(DiskTxMut { disk: self.clone(), staged: self.content() })
    }
    fn contains_key<T: Table>(&self, key: &T::Key) -> eyre::Result<bool> {
        Ok(self.content().contains_key(&(T::NAME, encode_key(key))))
    }
    fn get<T: Table>(&self, key: &T::Key) -> eyre::Result<Option<T::Value>> {
        Ok(self.0 .0.lock().unwrap().rows.get(&(T::NAME, encode_key(key))).map(|v| decode(v)))
    }
    fn insert<T: Table>(&self, key: &T::Key, value: &T::Value) -> eyre::Result<()> {
        self.op(|r| {
            r.insert((T::NAME, encode_key(key)), encode(value));
        })
    }
    fn remove<T: Table>(&self, key: &T::Key) -> eyre::Result<()> {
        self.op(|r| {
            r.remove(&(T::NAME, encode_key(key)));
        })
    }
    fn clear_table<T: Table>(&self) -> eyre::Result<()> {
        self.op(|r| r.retain(|k, _| k.0 != T::NAME))
    }
    fn is_empty<T: Table>(&self) -> bool {
        self.table::<T>().is_empty()
    }
    fn iter<T: Table>(&self) -> DBIter<'_, T> {
        Box::new(self.table::<T>().into_iter())
    }
    fn skip_to<T: Table>(&self, key: &T::Key) -> eyre::Result<DBIter<'_, T>> {
        let key = encode_key(key);
        Ok(Box::new(self.table::<T>().into_iter().filter(move |(k, _)| encode_key(k) >= key)))
    }
    fn reverse_iter<T: Table>(&self) -> DBIter<'_, T> {
        Box::new(self.table::<T>().into_iter().rev())
    }
    fn record_prior_to<T: Table>(&self, key: &T::Key) -> Option<(T::Key, T::Value)> {
        let key = encode_key(key);
        self.table::<T>().into_iter().rfind(|(k, _)| encode_key(k) < key)
    }
    fn last_record<T: Table>(&self) -> Option<(T::Key, T::Value)> {
        self.table::<T>().into_iter().next_back()
    }
}
