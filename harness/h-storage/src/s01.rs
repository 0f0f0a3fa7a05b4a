//! S01: an append-only log returns what was appended or an error, nothing else.

use std::path::Path;
use tn_storage::archive::pack::{Pack, PackCompression, DATA_HEADER_BYTES};
use tn_storage::archive::pack_iter::{AsyncPackIter, PackIter};
use vcore::{ensure, ensure_eq, Budget, Check, Scratch, G, R};

pub const RULE: &str = "a log of at least three records that was reopened, cut, altered or truncated, or whose writes failed";

type Rec = Vec<u8>;

#[derive(Clone, Copy, Debug)]
struct Cfg {
    uid: u64,
    zstd: bool,
    version: u16,
}

impl Cfg {
    fn draw(g: &mut G) -> Self {
        Cfg { uid: g.num(), zstd: g.bool(), version: *g.pick(&[1u16, 0, 2, 7, 65535]) }
    }
    fn comp(&self) -> PackCompression {
        if self.zstd {
            PackCompression::ZStd
        } else {
            PackCompression::None
        }
    }
    fn open(&self, p: &Path, ro: bool) -> Result<Pack<Rec>, String> {
        Pack::open(p, self.uid, ro, self.comp(), self.version).map_err(|e| format!("open: {e}"))
    }
}

/// Record sizes around the 16 KiB buffers as well as small and odd ones.
fn record(g: &mut G) -> Rec {
    let n = match g.weighted(&[6, 3, 2, 2, 1]) {
        0 => g.usize(40),
        1 => g.usize(3000),
        2 => 16 * 1024 - 40 + g.usize(60),
        3 => 8 * 1024 - 20 + g.usize(40),
        _ => g.usize(70_000),
    };
    match g.below(3) {
        0 => g.blob(n),
        1 => vec![g.u8(); n],
        _ => {
            let w = g.blob(1 + n.min(37));
            w.iter().cycle().take(n).copied().collect()
        }
    }
}

fn check_all(p: &mut Pack<Rec>, m: &[(u64, Rec)], what: &str) -> R {
    check_first(p, m, m.len(), what)
}

fn check_first(p: &mut Pack<Rec>, m: &[(u64, Rec)], n: usize, what: &str) -> R {
    for (i, (pos, r)) in m.iter().enumerate().take(n) {
        let got = p.fetch(*pos).map_err(|e| format!("{what}: record {i} of {} at {pos}: {e}", m.len()))?;
        ensure!(got == *r, "{what}: record {i} at {pos} of {} bytes differs", r.len());
        let next = m.get(i + 1).map(|x| x.0).unwrap_or(p.file_len());
        let size = p.record_size(*pos).map_err(|e| format!("{what}: size of record {i}: {e}"))?;
        ensure_eq!(pos + size as u64, next, "{what}: size of record {i}");
    }
    Ok(())
}

/// Iterate; `sure` records must come out, any further ones must be the model's next ones, then an end or errors.
fn check_iter(it: impl Iterator<Item = Result<Rec, String>>, m: &[(u64, Rec)], sure: usize, clean: bool, what: &str) -> R {
    let mut n = 0;
    let mut errors = 0;
    for r in it {
        match r {
            Ok(v) => {
                ensure!(errors == 0, "{what}: a record after an error");
                ensure!(n < m.len() && m[n].1 == v, "{what}: item {n} of {} is not what was appended", m.len());
                n += 1;
            }
            Err(e) => {
                ensure!(!clean, "{what}: item {n}: {e}");
                errors += 1;
                if errors > 3 {
                    break;
                }
            }
        }
    }
    ensure!(n >= sure, "{what}: {n} records, {sure} were there");
    Ok(())
}

fn file_iter(bytes: &[u8], cfg: Cfg) -> Result<Vec<Result<Rec, String>>, String> {
    let it: PackIter<Rec, _> = PackIter::open(std::io::Cursor::new(bytes), cfg.uid).map_err(|e| e.to_string())?;
    let mut v = vec![];
    for r in it {
        let bad = r.is_err();
        v.push(r.map_err(|e| e.to_string()));
        if bad {
            break;
        }
    }
    // the asynchronous reader agrees
    let w = vgen::block_on(async {
        let mut it: AsyncPackIter<Rec, _> = AsyncPackIter::open(bytes, cfg.uid).await.map_err(|e| e.to_string())?;
        let mut v = vec![];
        while let Some(r) = it.next().await {
            let bad = r.is_err();
            v.push(r.map_err(|e| e.to_string()));
            if bad {
                break;
            }
        }
        Ok::<_, String>(v)
    })?;
    ensure!(
        v.len() == w.len() && v.iter().zip(&w).all(|(a, b)| a.is_ok() == b.is_ok() && a.as_ref().ok() == b.as_ref().ok()),
        "the asynchronous reader returns {} items, the other {}",
        w.len(),
        v.len()
    );
    Ok(v)
}

fn history(g: &mut G) -> R {
    let s = Scratch::new();
    let cfg = Cfg::draw(g);
    let mut path = s.sub("log-0");
    let mut p = cfg.open(&path, false)?;
    let mut m: Vec<(u64, Rec)> = vec![];
    let mut flushed = 0; // records certainly in the file
    let mut trace = vec![];
    let mut special = false;
    let mut names = 1;
    ensure_eq!(p.file_len(), DATA_HEADER_BYTES as u64, "length of an empty log");
    for _ in 0..1 + g.usize(40) {
        match g.weighted(&[10, 4, 2, 2, 1, 2, 2, 1, 2, 1, 1]) {
            0 => {
                let r = record(g);
                trace.push(format!("append {}", r.len()));
                let before = p.file_len();
                let pos = p.append(&r).map_err(|e| format!("append: {e}; {trace:?}"))?;
                ensure_eq!(pos, before, "position of the appended record; {trace:?}");
                m.push((pos, r));
            }
            1 if !m.is_empty() => {
                let i = g.usize(m.len());
                trace.push(format!("fetch {i}"));
                let got = p.fetch(m[i].0).map_err(|e| format!("record {i} at {}: {e}; {trace:?}", m[i].0))?;
                ensure!(got == m[i].1, "record {i} at {} differs; {trace:?}", m[i].0);
            }
            2 => {
                trace.push("flush".into());
                p.flush().map_err(|e| format!("flush: {e}"))?;
                flushed = m.len();
            }
            3 => {
                trace.push("commit".into());
                p.commit().map_err(|e| format!("commit: {e}"))?;
                flushed = m.len();
            }
            4 => {
                names += 1;
                let to = s.sub(&format!("log-{names}"));
                trace.push("rename".into());
                p.rename(&to).map_err(|e| format!("rename: {e}"))?;
                ensure!(to.exists() && !path.exists(), "not renamed");
                path = to;
                if g.bool() {
                    // a taken name is refused and changes nothing
                    let other = s.sub("taken");
                    std::fs::write(&other, b"x").map_err(|e| e.to_string())?;
                    ensure!(p.rename(&other).is_err(), "renamed over an existing file");
                    ensure_eq!(std::fs::read(&other).ok(), Some(b"x".to_vec()), "existing file overwritten");
                }
            }
            5 => {
                // a reader beside the writer sees a prefix with everything flushed
                trace.push("read beside".into());
                let mut ro = cfg.open(&path, true)?;
                check_first(&mut ro, &m, flushed, "reader beside the writer").map_err(|e| format!("{e}; {trace:?}"))?;
                ensure!(ro.append(&vec![1]).is_err() && ro.commit().is_err(), "a read-only log took a record");
                check_iter(ro.raw_iter().map_err(|e| e.to_string())?.map(|r| r.map_err(|e| e.to_string())), &m, flushed, false, "iterating beside the writer")?;
            }
            6 => {
                trace.push("reopen".into());
                drop(p);
                let v2 = Cfg { version: cfg.version.saturating_add(g.below(2) as u16), zstd: g.bool(), ..cfg };
                p = v2.open(&path, false)?;
                ensure_eq!(p.version(), cfg.version, "version of the stored log");
                flushed = m.len();
                special = true;
                check_all(&mut p, &m, "after reopening").map_err(|e| format!("{e}; {trace:?}"))?;
            }
            7 => {
                trace.push("wrong key".into());
                p.flush().map_err(|e| e.to_string())?;
                flushed = m.len();
                let mut c = cfg;
                c.uid ^= 1 << g.below(64);
                ensure!(c.open(&path, true).is_err(), "opened under another identity");
                if cfg.version > 0 {
                    let c = Cfg { version: cfg.version - 1, ..cfg };
                    ensure!(c.open(&path, true).is_err(), "a newer version was opened");
                }
            }
            8 if !m.is_empty() => {
                let keep = g.usize(m.len() + 1);
                trace.push(format!("truncate to {keep} records"));
                let len = m.get(keep).map(|x| x.0).unwrap_or(p.file_len());
                p.truncate(len).map_err(|e| format!("truncate: {e}"))?;
                ensure_eq!(p.file_len(), len, "length after truncating");
                m.truncate(keep);
                flushed = m.len();
                special = true;
                check_all(&mut p, &m, "after truncating").map_err(|e| format!("{e}; {trace:?}"))?;
                ensure!(p.fetch(len).is_err(), "a record at the end of the truncated log");
            }
            9 => {
                // nowhere but at a record's position is there a record
                let len = p.file_len();
                let pos = g.below(len + 40);
                if m.iter().all(|x| x.0 != pos) {
                    trace.push(format!("fetch at {pos}"));
                    ensure!(p.fetch(pos).is_err(), "a record at {pos}, where none was appended; {trace:?}");
                }
            }
            _ => {
                trace.push("iterate".into());
                p.flush().map_err(|e| e.to_string())?;
                flushed = m.len();
                let it = p.raw_iter().map_err(|e| e.to_string())?;
                check_iter(it.map(|r| r.map_err(|e| e.to_string())), &m, m.len(), true, "iterating").map_err(|e| format!("{e}; {trace:?}"))?;
                // raw bytes of a range of records, as sent to peers
                if !m.is_empty() {
                    let a = g.usize(m.len());
                    let b = a + g.usize(m.len() - a) + 1;
                    let end = m.get(b).map(|x| x.0).unwrap_or(p.file_len());
                    let bytes = p.read_bytes(m[a].0, end).map_err(|e| e.to_string())?;
                    let got = vgen::block_on(async {
                        let mut it: AsyncPackIter<Rec, _> =
                            AsyncPackIter::open_partial(&bytes[..], cfg.comp(), cfg.version).await.map_err(|e| e.to_string())?;
                        let mut v = vec![];
                        while let Some(r) = it.next().await {
                            v.push(r.map_err(|e| e.to_string())?);
                        }
                        Ok::<_, String>(v)
                    })?;
                    ensure!(got.iter().eq(m[a..b].iter().map(|x| &x.1)), "records {a}..{b} read as bytes differ; {trace:?}");
                    ensure!(p.read_bytes(m[a].0, p.file_len() + 1).is_err(), "bytes beyond the end");
                }
            }
        }
        let want_len = m.last().map(|x| x.0).unwrap_or(0);
        ensure!(p.file_len() > want_len, "length {}; {trace:?}", p.file_len());
    }
    check_all(&mut p, &m, "at the end").map_err(|e| format!("{e}; {trace:?}"))?;
    drop(p);
    let mut p = cfg.open(&path, true)?;
    check_all(&mut p, &m, "read back").map_err(|e| format!("{e}; {trace:?}"))?;
    let bytes = std::fs::read(&path).map_err(|e| e.to_string())?;
    check_iter(file_iter(&bytes, cfg)?.into_iter(), &m, m.len(), true, "reading the file")?;
    g.nontrivial_if(special && m.len() >= 3);
    g.note(|| format!("{cfg:?}: {}", trace.join(", ")));
    Ok(())
}

fn build(g: &mut G, s: &Scratch, cfg: Cfg, n: usize) -> Result<(Vec<(u64, Rec)>, Vec<u8>), String> {
    let path = s.sub("log");
    let mut p = cfg.open(&path, false)?;
    let mut m = vec![];
    for _ in 0..n {
        let r = if g.chance(1, 5) { record(g) } else { let n = g.usize(60); g.blob(n) };
        m.push((p.append(&r).map_err(|e| e.to_string())?, r));
    }
    drop(p);
    Ok((m, std::fs::read(&path).map_err(|e| e.to_string())?))
}

fn cut(g: &mut G) -> R {
    let s = Scratch::new();
    let cfg = Cfg::draw(g);
    let n = g.urange(0, 12);
    let (m, bytes) = build(g, &s, cfg, n)?;
    let end = |i: usize| m.get(i + 1).map(|x| x.0).unwrap_or(bytes.len() as u64) as usize;
    let at = if g.chance(1, 4) { g.usize(40.min(bytes.len() + 1)) } else { g.usize(bytes.len() + 1) };
    let tail = match g.below(4) {
        0 => vec![0; g.usize(50)],
        1 => {
            let n = g.usize(50);
            g.blob(n)
        }
        _ => vec![],
    };
    let path = s.sub("cut");
    let mut cutb = bytes[..at].to_vec();
    cutb.extend_from_slice(&tail);
    std::fs::write(&path, &cutb).map_err(|e| e.to_string())?;
    let whole = (0..m.len()).filter(|i| end(*i) <= at).count();
    g.nontrivial_if(n >= 3 && whole < n);
    g.note(|| format!("{cfg:?}: {n} records in {} bytes cut at {at} ({whole} whole), {} other bytes after", bytes.len(), tail.len()));
    if at < DATA_HEADER_BYTES {
        if !cutb.is_empty() && !cutb.starts_with(&bytes[..DATA_HEADER_BYTES]) {
            // no complete header: refused, unless the tail happens to complete it
            ensure!(cfg.open(&path, true).is_err(), "a log without a complete header was opened");
            ensure!(cfg.open(&path, false).is_err(), "a log without a complete header was opened for writing");
            ensure_eq!(std::fs::read(&path).ok(), Some(cutb), "the refused file was changed");
        }
        return Ok(());
    }
    for ro in [true, false] {
        let mut p = cfg.open(&path, ro)?;
        check_iter(file_iter(&cutb, cfg)?.into_iter(), &m, whole, false, "reading what is left")?;
        let it = p.raw_iter().map_err(|e| e.to_string())?.take(cutb.len());
        check_iter(it.map(|r| r.map_err(|e| e.to_string())), &m, whole, false, "iterating over what is left")?;
        for (i, (pos, r)) in m.iter().enumerate() {
            match p.fetch(*pos) {
                Ok(v) => ensure!(v == *r && (i < whole || !tail.is_empty()), "record {i} of {whole} whole ones: another record, or one that was cut"),
                Err(e) => ensure!(i >= whole, "record {i} of {whole} whole ones: {e}"),
            }
        }
        if !ro {
            // healed by truncating, the log goes on
            let len = m.get(whole).map(|x| x.0 as usize).unwrap_or(at).min(at) as u64;
            p.truncate(len).map_err(|e| e.to_string())?;
            let mut m2 = m[..whole].to_vec();
            for _ in 0..3 {
                let r = record(g);
                let pos = p.append(&r).map_err(|e| e.to_string())?;
                m2.push((pos, r));
            }
            ensure_eq!(m2[whole].0, len, "appending continues at the cut");
            check_all(&mut p, &m2, "after healing")?;
            drop(p);
            let mut p = cfg.open(&path, true)?;
            check_all(&mut p, &m2, "after healing and reopening")?;
            let b = std::fs::read(&path).map_err(|e| e.to_string())?;
            check_iter(file_iter(&b, cfg)?.into_iter(), &m2, m2.len(), true, "reading the healed file")?;
        }
    }
    Ok(())
}

fn corrupt(g: &mut G) -> R {
    let s = Scratch::new();
    let cfg = Cfg::draw(g);
    let n = g.urange(1, 12);
    let (m, bytes) = build(g, &s, cfg, n)?;
    let mut b = bytes.clone();
    let mut touched = vec![];
    for _ in 0..1 + g.usize(3) {
        let i = if g.chance(1, 6) { g.usize(DATA_HEADER_BYTES) } else { g.usize(b.len()) };
        let x = 1 + g.below(255) as u8;
        b[i] ^= x;
        touched.push(i);
    }
    if b == bytes {
        return Ok(());
    }
    g.nontrivial_if(n >= 3);
    g.note(|| format!("{cfg:?}: {n} records in {} bytes altered at {touched:?}", bytes.len()));
    let path = s.sub("altered");
    std::fs::write(&path, &b).map_err(|e| e.to_string())?;
    if b[..DATA_HEADER_BYTES] != bytes[..DATA_HEADER_BYTES] {
        g.class("header altered");
        ensure!(cfg.open(&path, true).is_err(), "opened with an altered header");
        ensure!(file_iter(&b, cfg).is_err(), "iterated with an altered header");
        return Ok(());
    }
    g.class("records altered");
    let mut p = cfg.open(&path, true)?;
    let mut intact = vec![];
    for (i, (pos, r)) in m.iter().enumerate() {
        let end = m.get(i + 1).map(|x| x.0).unwrap_or(bytes.len() as u64) as usize;
        let same = b[*pos as usize..end] == bytes[*pos as usize..end];
        intact.push(same);
        match p.fetch(*pos) {
            Ok(v) => {
                ensure!(v == *r, "record {i} read from an altered file is another one");
                ensure!(same, "record {i} was altered and read without an error");
            }
            Err(e) => ensure!(!same, "record {i} was not altered: {e}"),
        }
    }
    // an iteration yields original records only, and all before the first altered one
    let sure = intact.iter().position(|x| !x).unwrap_or(m.len());
    check_iter(file_iter(&b, cfg)?.into_iter(), &m, sure, sure == m.len(), "iterating over an altered file")?;
    let mut steps = 0;
    let mut last = 0;
    for r in p.raw_iter().map_err(|e| e.to_string())? {
        steps += 1;
        ensure!(steps <= b.len() + 1, "iterating over an altered file does not end");
        if let Ok(v) = r {
            let at = (last..m.len()).find(|i| m[*i].1 == v && intact[*i]);
            ensure!(at.is_some(), "iterating over an altered file yields a record that was not appended there");
            last = at.unwrap() + 1;
        }
    }
    Ok(())
}

/// Writes that start failing: what was acknowledged and flushed stays readable, nothing else is ever returned.
fn failing(g: &mut G) -> R {
    let s = Scratch::new();
    let cfg = Cfg::draw(g);
    let path = s.sub("log");
    let rec = vfs::Recorder::start(s.path());
    let mut p = cfg.open(&path, false)?;
    let mut m: Vec<(u64, Rec)> = vec![];
    let mut durable = 0;
    for _ in 0..g.urange(1, 8) {
        let r = record(g);
        m.push((p.append(&r).map_err(|e| e.to_string())?, r));
        if g.bool() {
            p.commit().map_err(|e| e.to_string())?;
            durable = m.len();
        }
    }
    rec.fail_after(Some(g.below(3)));
    let mut cause: Option<String> = None;
    // (a record whose append failed may still have reached the file)
    let mut tried = m.clone();
    for _ in 0..g.urange(1, 10) {
        if g.chance(3, 4) {
            let r = record(g);
            match p.append(&r) {
                Ok(pos) => {
                    ensure!(cause.is_none(), "a record was taken after a write had failed");
                    m.push((pos, r.clone()));
                    tried.push((pos, r));
                }
                Err(e) => {
                    if let Some(c) = &cause {
                        ensure_eq!(&e.to_string(), c, "the first failure is what is reported");
                    }
                    cause.get_or_insert(e.to_string());
                    tried.push((0, r));
                }
            }
        } else {
            match p.commit() {
                Ok(()) => {
                    ensure!(cause.is_none(), "committed after a write had failed");
                    durable = m.len();
                }
                // a failed flush alone leaves the log as it was
                Err(_) => {}
            }
        }
        for (i, (pos, r)) in m.iter().enumerate() {
            if let Ok(v) = p.fetch(*pos) {
                ensure!(v == *r, "record {i} differs after failed writes");
            } else {
                ensure!(i >= durable, "record {i} of {durable} committed ones is lost after failed writes");
            }
        }
    }
    g.nontrivial_if(rec.failed() > 0 && m.len() >= 3);
    g.note(|| format!("{cfg:?}: {} records, {durable} committed, {} failed writes", m.len(), rec.failed()));
    if g.bool() {
        rec.fail_after(None);
    }
    drop(p);
    rec.fail_after(None);
    let mut p = cfg.open(&path, true)?;
    for (i, (pos, r)) in m.iter().enumerate() {
        match p.fetch(*pos) {
            Ok(v) => ensure!(v == *r, "record {i} differs after failed writes and reopening"),
            Err(_) => ensure!(i >= durable, "committed record {i} of {durable} is lost"),
        }
    }
    let bytes = std::fs::read(&path).map_err(|e| e.to_string())?;
    check_iter(file_iter(&bytes, cfg)?.into_iter(), &tried, durable, false, "reading after failed writes")
}

pub fn check(c: &mut Check) {
    c.sub("history", Budget::new(30_000, 12), history);
    c.sub("cut", Budget::new(60_000, 9), cut);
    c.sub("altered", Budget::new(60_000, 9), corrupt);
    c.sub("failing-writes", Budget::new(20_000, 8), failing);
    c.assume("an altered record is detected by its CRC-32: alterations of a few bytes, not forgeries with a matching checksum");
    c.assume("records are smaller than the documented limit of 16 MiB");
}
