//! S02: the archive's indexes behave like maps, before and after reopening.

use std::collections::HashMap;
use std::hash::BuildHasherDefault;
use std::path::Path;
use tn_storage::archive::digest_index::index::HdxIndex;
use tn_storage::archive::fxhasher::FxHasher;
use tn_storage::archive::index::Index;
use tn_storage::archive::pack::{DataHeader, Pack, PackCompression};
use tn_storage::archive::position_index::index::{PosIndexValue, PositionIndex};
use tn_types::B256;
use vcore::{ensure, ensure_eq, Budget, Check, Scratch, G, R};

pub const RULE: &str = "an index with at least three entries that was reopened, truncated, cut or damaged, or whose bucket overflowed or was split";

type Hdx = HdxIndex<32, BuildHasherDefault<FxHasher>>;

fn header(s: &Scratch, uid: u64) -> DataHeader {
    let p: Pack<u8> = Pack::open(s.sub(&format!("data-{uid}")), uid, false, PackCompression::None, 1).expect("log");
    *p.header()
}

fn hdx(dir: &Path, h: &DataHeader, ro: bool) -> Result<Hdx, String> {
    Hdx::open_hdx_file(dir, h, BuildHasherDefault::default(), ro).map_err(|e| format!("open: {e}"))
}

/// Keys of three kinds: random, differing in the last bits only, and all in one bucket (the hash of the
/// last eight bytes keeps its low bits when only the high bits of the key change).
struct Keys {
    kind: u64,
    base: [u8; 32],
    n: u64,
}
impl Keys {
    fn draw(g: &mut G, n: u64) -> Self {
        Keys { kind: g.below(4), base: g.arr32(), n }
    }
    fn key(&self, i: u64) -> B256 {
        let mut k = self.base;
        match self.kind {
            0 => {
                // spread
                let mut x = i.wrapping_add(u64::from_le_bytes(k[..8].try_into().unwrap()));
                for c in k.chunks_mut(8) {
                    x = x.wrapping_add(0x9E3779B97F4A7C15);
                    let mut z = x;
                    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
                    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
                    c.copy_from_slice(&(z ^ (z >> 31)).to_le_bytes());
                }
            }
            1 => k[24..].copy_from_slice(&i.to_be_bytes()),
            2 => k[24..].copy_from_slice(&(i << 20 | 5).to_le_bytes()),
            // consecutive hashes before multiplication
            4 => k[24..].copy_from_slice(&i.to_le_bytes()),
            // one bucket until the index has split a few times
            _ => k[24..].copy_from_slice(&(i << 9 | 1).to_le_bytes()),
        }
        B256::from(k)
    }
    fn any(&self, g: &mut G) -> B256 {
        let i = g.below(self.n);
        self.key(i)
    }
}

fn look(ix: &mut Hdx, m: &HashMap<B256, u64>, k: B256, what: &str) -> R {
    match (ix.load(k), m.get(&k)) {
        (Ok(a), Some(b)) => ensure_eq!(a, *b, "{what}: position of {k}"),
        (Err(_), None) => {}
        (Ok(a), None) => return Err(format!("{what}: {k} was never saved, found at {a}")),
        (Err(e), Some(b)) => return Err(format!("{what}: {k} saved at {b}: {e}")),
    }
    Ok(())
}

fn digest_history(g: &mut G) -> R {
    let s = Scratch::new();
    let uid = g.num();
    let h = header(&s, uid);
    let dir = s.sub("ix");
    let mut ix = hdx(&dir, &h, false)?;
    let keys = Keys::draw(g, 400);
    let mut m: HashMap<B256, u64> = HashMap::new();
    let mut trace = vec![];
    let mut special = false;
    let mut dlen = ix.data_file_length();
    for _ in 0..1 + g.usize(30) {
        match g.weighted(&[5, 4, 3, 2, 2, 1, 1]) {
            0 => {
                let n = 1 + g.below(60);
                trace.push(format!("save {n}"));
                for _ in 0..n {
                    let (k, v) = (keys.any(g), g.raw());
                    ix.save(k, v).map_err(|e| format!("save: {e}"))?;
                    m.insert(k, v);
                }
            }
            1 => {
                let k = keys.any(g);
                trace.push("load".into());
                look(&mut ix, &m, k, "load").map_err(|e| format!("{e}; {trace:?}"))?;
            }
            2 => {
                trace.push("load all".into());
                for i in 0..keys.n {
                    look(&mut ix, &m, keys.key(i), "load").map_err(|e| format!("{e}; {trace:?}"))?;
                }
            }
            3 => {
                trace.push("sync".into());
                ix.sync().map_err(|e| format!("sync: {e}"))?;
                let mut ro = hdx(&dir, &h, true)?;
                for i in 0..keys.n {
                    look(&mut ro, &m, keys.key(i), "read-only beside").map_err(|e| format!("{e}; {trace:?}"))?;
                }
                ensure!(ro.save(keys.key(0), 1).is_err() && ro.sync().is_err(), "a read-only index took an entry");
            }
            4 => {
                let synced = g.bool();
                trace.push(format!("reopen, synced={synced}"));
                special = true;
                if synced {
                    ix.sync().map_err(|e| format!("sync: {e}"))?;
                }
                drop(ix);
                ix = hdx(&dir, &h, false)?;
                ensure_eq!(ix.data_file_length(), dlen, "data length kept; {trace:?}");
                for i in 0..keys.n {
                    look(&mut ix, &m, keys.key(i), "after reopening").map_err(|e| format!("{e}; {trace:?}"))?;
                }
            }
            5 => {
                dlen = g.num();
                ix.set_data_file_length(dlen);
                ensure_eq!(ix.data_file_length(), dlen);
            }
            _ => {
                ix.sync().map_err(|e| format!("sync: {e}"))?;
                let other = header(&s, uid ^ 1);
                ensure!(hdx(&dir, &other, true).is_err(), "opened as the index of another log");
            }
        }
        ensure_eq!(ix.is_empty(), m.is_empty(), "empty; {trace:?}");
    }
    g.nontrivial_if(m.len() >= 3 && (special || keys.kind >= 2));
    g.note(|| format!("keys of kind {}: {}", keys.kind, trace.join(", ")));
    Ok(())
}

/// Enough entries for buckets to be split, many of them saved again.
fn digest_large(g: &mut G) -> R {
    let s = Scratch::new();
    let h = header(&s, 3);
    let dir = s.sub("ix");
    let mut ix = hdx(&dir, &h, false)?;
    let n = 15_500 + g.below(6_000);
    let keys = Keys { kind: if g.bool() { 0 } else { 4 }, base: g.arr32(), n };
    // with a few hundred in one bucket: an overflow chain that is split
    let chain = Keys { kind: 3, base: g.arr32(), n: 200 };
    let again = g.below(3) * 1000;
    let mut m = HashMap::new();
    let (reopen_at, sync_every) = (g.below(n), 500 + g.below(n));
    let seed = g.raw();
    let mut x = seed;
    let mut rnd = move || {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        x >> 20
    };
    for i in 0..n + again {
        let k = if i % 80 == 3 { chain.key(rnd() % chain.n) } else if i < n { keys.key(i) } else { keys.key(rnd() % n) };
        let v = rnd();
        ix.save(k, v).map_err(|e| format!("save {i}: {e}"))?;
        m.insert(k, v);
        if i % sync_every == 1 {
            ix.sync().map_err(|e| format!("sync: {e}"))?;
        }
        if i == reopen_at {
            drop(ix);
            ix = hdx(&dir, &h, false)?;
        }
        if i % 97 == 0 {
            look(&mut ix, &m, keys.key(rnd() % n), "while saving")?;
            look(&mut ix, &m, chain.key(rnd() % chain.n), "while saving")?;
        }
    }
    g.nontrivial();
    g.note(|| format!("{n} keys of kind {}, {again} saved again, reopened at {reopen_at}, synced every {sync_every}", keys.kind));
    for (k, _) in m.clone() {
        look(&mut ix, &m, k, "all saved")?;
    }
    for i in 0..500 {
        look(&mut ix, &m, keys.key(n + i), "never saved")?;
    }
    drop(ix);
    let mut ix = hdx(&dir, &h, g.bool())?;
    for (k, _) in m.clone() {
        look(&mut ix, &m, k, "all saved, reopened")?;
    }
    for i in 0..500 {
        look(&mut ix, &m, keys.key(n + i), "never saved, reopened")?;
    }
    Ok(())
}

/// Damaged and half-written files: a saved position of that very key, an error or a miss.
fn digest_damaged(g: &mut G) -> R {
    let s = Scratch::new();
    let h = header(&s, 3);
    let dir = s.sub("ix");
    let keys = Keys::draw(g, 300);
    let mut ever: HashMap<B256, Vec<u64>> = HashMap::new();
    let rec = vfs::Recorder::start(s.path());
    let mut ix = hdx(&dir, &h, false)?;
    for _ in 0..1 + g.usize(4) {
        for _ in 0..g.below(150) {
            let (k, v) = (keys.any(g), g.raw());
            ix.save(k, v).map_err(|e| format!("save: {e}"))?;
            ever.entry(k).or_default().push(v);
        }
        if g.bool() {
            ix.sync().map_err(|e| format!("sync: {e}"))?;
        }
    }
    drop(ix);
    let ops = rec.ops();
    drop(rec);
    let d2 = s.sub("damaged");
    let mut desc;
    let mut header_hit = false;
    match g.below(3) {
        0 => {
            // the state at some moment
            let k = 1 + g.usize(ops.len());
            let torn = g.chance(1, 2).then(|| g.usize(3000));
            vfs::apply(&ops[..k], torn, &d2);
            desc = format!("stopped after {k} of {} file operations, torn {torn:?}", ops.len());
            g.class("stopped");
        }
        1 => {
            vfs::apply(&ops, None, &d2);
            let f = d2.join("ix").join(if g.bool() { "index.hdx" } else { "index.odx" });
            let mut b = std::fs::read(&f).map_err(|e| e.to_string())?;
            let hdx_file = f.ends_with("index.hdx");
            desc = "bytes altered at".into();
            for _ in 0..1 + g.usize(200) {
                let i = if g.chance(1, 50) { g.usize(b.len().min(68)) } else { g.usize(b.len()) };
                b[i] ^= 1 + g.below(255) as u8;
                // (the padding behind the fields of the header is covered by its checksum too)
                header_hit |= i < if hdx_file { 68 } else { 28 };
                if desc.len() < 200 {
                    desc += &format!(" {i}");
                }
            }
            std::fs::write(&f, b).map_err(|e| e.to_string())?;
            g.class("altered");
        }
        _ => {
            vfs::apply(&ops, None, &d2);
            let f = d2.join("ix").join(if g.bool() { "index.hdx" } else { "index.odx" });
            let len = std::fs::metadata(&f).map_err(|e| e.to_string())?.len();
            let to = g.below(len + 1);
            std::fs::OpenOptions::new().write(true).open(&f).and_then(|f| f.set_len(to)).map_err(|e| e.to_string())?;
            desc = format!("{} cut from {len} to {to}", f.display());
            g.class("cut");
        }
    }
    g.nontrivial_if(ever.len() >= 3);
    g.note(|| format!("keys of kind {}, {} saved: {desc}", keys.kind, ever.len()));
    let ro = g.bool();
    let Ok(mut ix) = hdx(&d2.join("ix"), &h, ro) else { return Ok(()) };
    if header_hit {
        // altered twice at one place may restore it
        desc += " (header)";
    }
    for i in 0..keys.n {
        let k = keys.key(i);
        if let Ok(v) = ix.load(k) {
            ensure!(ever.get(&k).is_some_and(|vs| vs.contains(&v)), "{k}: {v} was never saved for it: {desc}");
        }
    }
    if !ro {
        // goes on without panicking; what is saved now and not refused is found
        for _ in 0..40 {
            let (k, v) = (keys.any(g), g.raw());
            if ix.save(k, v).is_ok() {
                ensure_eq!(ix.load(k).ok(), Some(v), "saved into a damaged index: {desc}");
            }
        }
        let _ = ix.sync();
    }
    Ok(())
}

trait V: PosIndexValue + Copy + PartialEq + std::fmt::Debug {
    fn draw(g: &mut G) -> Self;
}
impl V for u64 {
    fn draw(g: &mut G) -> Self {
        g.num()
    }
}
impl V for (u64, u64) {
    fn draw(g: &mut G) -> Self {
        (g.num(), g.raw())
    }
}

fn pdx<T: PosIndexValue>(dir: &Path, h: &DataHeader, ro: bool) -> Result<PositionIndex<T>, String> {
    PositionIndex::open_pdx_file(dir, h, "pos.pdx", ro).map_err(|e| format!("open: {e}"))
}

fn check_pos<T: V>(ix: &mut PositionIndex<T>, m: &[T], g: &mut G, what: &str) -> R {
    ensure_eq!(ix.len(), m.len(), "{what}: length");
    ensure_eq!(ix.is_empty(), m.is_empty(), "{what}: empty");
    for (i, v) in m.iter().enumerate() {
        ensure_eq!(ix.load(i as u64).map_err(|e| e.to_string()), Ok(*v), "{what}: entry {i}");
    }
    for i in [m.len() as u64, m.len() as u64 + 1, m.len() as u64 + g.below(1 << 40)] {
        ensure!(ix.load(i).is_err(), "{what}: entry {i} of {}", m.len());
    }
    let n = if g.chance(1, 4) { g.usize(1 << 30) } else { g.usize(m.len() + 3) };
    let k = n.min(m.len());
    let it: Result<Vec<T>, _> = ix.iter(n).map_err(|e| format!("{what}: iterate {n}: {e}"))?.collect();
    ensure_eq!(it.map_err(|e| e.to_string())?, m[..k].to_vec(), "{what}: the first {n}");
    let it: Result<Vec<T>, _> = ix.rev_iter(n).map_err(|e| format!("{what}: iterate back {n}: {e}"))?.collect();
    let back: Vec<T> = m.iter().rev().take(k).copied().collect();
    ensure_eq!(it.map_err(|e| e.to_string())?, back, "{what}: the last {n}");
    Ok(())
}

fn position_history<T: V>(g: &mut G) -> R {
    let s = Scratch::new();
    let uid = g.num();
    let h = header(&s, uid);
    let dir = s.sub("ix");
    let mut ix = pdx::<T>(&dir, &h, false)?;
    let mut m: Vec<T> = vec![];
    let mut synced = 0;
    let mut trace = vec![];
    let mut special = false;
    for _ in 0..1 + g.usize(40) {
        match g.weighted(&[8, 2, 2, 2, 2, 1, 1, 1, 1]) {
            0 => {
                let n = if g.chance(1, 6) { 1 + g.usize(2500) } else { 1 + g.usize(8) };
                trace.push(format!("save {n}"));
                for _ in 0..n {
                    let v = T::draw(g);
                    ix.save(m.len() as u64, v).map_err(|e| format!("save: {e}; {trace:?}"))?;
                    m.push(v);
                }
            }
            1 => {
                let k = if g.bool() { g.below(m.len() as u64 + 1) } else { m.len() as u64 + 1 + g.below(5) };
                if k != m.len() as u64 {
                    trace.push(format!("save out of order {k}"));
                    ensure!(ix.save(k, T::draw(g)).is_err(), "saved {k} with {} entries; {trace:?}", m.len());
                }
            }
            2 => check_pos(&mut ix, &m, g, "check").map_err(|e| format!("{e}; {trace:?}"))?,
            3 => {
                trace.push("sync".into());
                ix.sync().map_err(|e| format!("sync: {e}"))?;
                synced = m.len();
                let mut ro = pdx::<T>(&dir, &h, true)?;
                check_pos(&mut ro, &m, g, "read-only beside").map_err(|e| format!("{e}; {trace:?}"))?;
            }
            4 => {
                trace.push("reopen".into());
                special = true;
                drop(ix);
                ix = pdx::<T>(&dir, &h, false)?;
                synced = m.len();
                check_pos(&mut ix, &m, g, "after reopening").map_err(|e| format!("{e}; {trace:?}"))?;
            }
            5 => {
                let k = g.below(m.len() as u64 + 2);
                trace.push(format!("truncate to {k}"));
                special = true;
                ix.truncate_to_index(k).map_err(|e| format!("truncate: {e}"))?;
                m.truncate(k as usize + 1);
                synced = synced.min(m.len());
                check_pos(&mut ix, &m, g, "after truncating").map_err(|e| format!("{e}; {trace:?}"))?;
            }
            6 => {
                trace.push("truncate all".into());
                ix.truncate_all().map_err(|e| format!("truncate: {e}"))?;
                m.clear();
                synced = 0;
                check_pos(&mut ix, &m, g, "after truncating all").map_err(|e| format!("{e}; {trace:?}"))?;
            }
            7 => {
                let other = header(&s, uid ^ 1);
                ensure!(pdx::<T>(&dir, &other, true).is_err() || synced == 0, "opened as the index of another log");
            }
            _ => {
                // the file cut at any byte keeps the whole entries before the cut
                ix.sync().map_err(|e| format!("sync: {e}"))?;
                synced = m.len();
                special = true;
                let b = std::fs::read(dir.join("pos.pdx")).map_err(|e| e.to_string())?;
                let w = T::buffer_len();
                let head = b.len() - m.len() * w;
                let at = head + g.usize(b.len() - head + 1);
                trace.push(format!("cut at {at}"));
                let d2 = s.sub("cut");
                let _ = std::fs::remove_dir_all(&d2);
                std::fs::create_dir_all(&d2).map_err(|e| e.to_string())?;
                std::fs::write(d2.join("pos.pdx"), &b[..at]).map_err(|e| e.to_string())?;
                let whole = (at - head) / w;
                let ro = pdx::<T>(&d2, &h, true);
                ensure_eq!(ro.is_ok(), (at - head) % w == 0, "reading a cut index: {trace:?}");
                let mut c = pdx::<T>(&d2, &h, false)?;
                check_pos(&mut c, &m[..whole], g, "after a cut").map_err(|e| format!("{e}; {trace:?}"))?;
                let v = T::draw(g);
                c.save(whole as u64, v).map_err(|e| format!("save after a cut: {e}"))?;
                let mut m2 = m[..whole].to_vec();
                m2.push(v);
                drop(c);
                let mut c = pdx::<T>(&d2, &h, false)?;
                check_pos(&mut c, &m2, g, "after a cut and a save").map_err(|e| format!("{e}; {trace:?}"))?;
                if g.chance(1, 4) {
                    // no whole header: refused
                    let at = 1 + g.usize(head - 1);
                    std::fs::write(d2.join("pos.pdx"), &b[..at]).map_err(|e| e.to_string())?;
                    ensure!(pdx::<T>(&d2, &h, true).is_err(), "read an index without a whole header");
                }
            }
        }
    }
    check_pos(&mut ix, &m, g, "at the end").map_err(|e| format!("{e}; {trace:?}"))?;
    drop(ix);
    let mut ix = pdx::<T>(&dir, &h, true)?;
    check_pos(&mut ix, &m, g, "read back").map_err(|e| format!("{e}; {trace:?}"))?;
    g.nontrivial_if(special && m.len() >= 3);
    g.note(|| trace.join(", "));
    Ok(())
}

fn position(g: &mut G) -> R {
    if g.bool() {
        position_history::<u64>(g)
    } else {
        position_history::<(u64, u64)>(g)
    }
}

pub fn check(c: &mut Check) {
    c.sub("digest-history", Budget::new(10_000, 12), digest_history);
    c.sub("digest-splits", Budget::new(1500, 15), digest_large);
    c.sub("digest-damaged", Budget::new(20_000, 15), digest_damaged);
    c.sub("position-history", Budget::new(30_000, 12), position);
    c.assume("damage changes bytes at random; a bucket forged with a matching checksum is not considered");
    c.assume("the bloom filter has its test size (64 KiB instead of 2 MiB): the code is the same");
}
