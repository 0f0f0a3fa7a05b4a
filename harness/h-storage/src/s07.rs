//! S07: a state snapshot is read back complete and unaltered, or refused.

use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::path::Path;
use tn_storage::archive::pack::{Pack, PackCompression};
use tn_storage::exec_state_pack::{
    ExecStateAccount, ExecStateMeta, ExecStatePackReader, ExecStatePackWriter, ExecStateStats, StateEntry,
    BLOCKHASH_ANCESTORS, EXEC_STATE_PACK_VERSION, STORAGE_CHUNK_SLOTS,
};
use tn_types::{Address, Bytes, ExecHeader, GenesisAccount, B256, U256};
use vcore::{ensure, ensure_eq, Budget, Check, Scratch, G, R};

pub const RULE: &str = "a snapshot with at least two accounts, one of them with storage, that was read back by every route, cut, altered or rearranged";

const MAX_HEADERS: u32 = 4096;

/// The records of a snapshot as they are laid out on disk.
#[derive(Debug, Clone, Serialize, Deserialize)]
enum Rec {
    Meta(ExecStateMeta),
    Header(Vec<u8>),
    Account { address: Address, nonce: u64, balance: B256, code: Option<Bytes> },
    Storage(Vec<(B256, B256)>),
    End(ExecStateStats),
}

fn rlp(h: &ExecHeader) -> Vec<u8> {
    use alloy::rlp::Encodable;
    let mut v = vec![];
    h.encode(&mut v);
    v
}

#[derive(Clone, Debug)]
struct Acc {
    address: Address,
    nonce: Option<u64>,
    balance: U256,
    code: Option<Bytes>,
    /// chunks, in the order they are written
    chunks: Vec<Vec<(B256, B256)>>,
}

impl Acc {
    fn whole(&self) -> ExecStateAccount {
        let m: BTreeMap<B256, B256> = self.chunks.iter().flatten().copied().collect();
        ExecStateAccount {
            address: self.address,
            account: GenesisAccount {
                nonce: Some(self.nonce.unwrap_or_default()),
                balance: self.balance,
                code: self.code.clone(),
                storage: (!m.is_empty()).then_some(m),
                private_key: None,
            },
        }
    }
}

struct Snap {
    headers: Vec<ExecHeader>,
    accs: Vec<Acc>,
}

fn slots(g: &mut G, n: usize) -> Vec<(B256, B256)> {
    let base = g.raw();
    (0..n as u64)
        .map(|i| {
            let k = if base & 1 == 0 { U256::from(base.wrapping_add(i)) } else { U256::from(base ^ (i << 7)) << 64 };
            (B256::from(k.to_be_bytes()), B256::from(U256::from(base.rotate_left((i % 63) as u32) | 1).to_be_bytes()))
        })
        .collect()
}

fn account(g: &mut G, big: bool) -> Acc {
    let chunks = if big {
        let n = *g.pick(&[STORAGE_CHUNK_SLOTS, STORAGE_CHUNK_SLOTS - 1, STORAGE_CHUNK_SLOTS + 1, 2 * STORAGE_CHUNK_SLOTS]);
        vec![slots(g, n)]
    } else {
        match g.below(4) {
            0 => vec![],
            1 => vec![vec![]],
            _ => {
                let n = 1 + g.usize(12);
                let v = slots(g, n);
                if g.bool() {
                    vec![v]
                } else {
                    let k = 1 + g.usize(4);
                    v.chunks(k).map(|c| c.to_vec()).collect()
                }
            }
        }
    };
    Acc {
        address: vgen::address(g),
        nonce: if g.bool() { None } else { Some(g.num()) },
        balance: match g.below(3) {
            0 => U256::ZERO,
            1 => U256::from(g.num()),
            _ => U256::from_be_bytes(g.arr32()),
        },
        code: match g.below(4) {
            0 => None,
            1 => Some(Bytes::new()),
            _ => {
                let n = 1 + g.usize(60);
                Some(Bytes::from(g.blob(n)))
            }
        },
        chunks,
    }
}

fn header(g: &mut G, number: u64) -> ExecHeader {
    let mut h = ExecHeader { number, ..Default::default() };
    h.state_root = vgen::b256(g);
    h.parent_hash = vgen::b256(g);
    h.gas_limit = g.num();
    h.timestamp = g.num();
    h.nonce = g.num().to_be_bytes().into();
    h.difficulty = U256::from(g.num());
    let n = g.usize(20);
    h.extra_data = Bytes::from(g.blob(n));
    if g.bool() {
        h.base_fee_per_gas = Some(g.num());
        if g.bool() {
            h.withdrawals_root = Some(vgen::b256(g));
            h.blob_gas_used = Some(g.num());
            h.excess_blob_gas = Some(g.num());
            h.parent_beacon_block_root = Some(vgen::b256(g));
            if g.bool() {
                h.requests_hash = Some(vgen::b256(g));
            }
        }
    }
    h
}

/// A snapshot whose header window is long enough.
fn snap(g: &mut G, window: bool) -> Snap {
    let n = if window && g.chance(1, 12) { 250 + g.usize(12) } else { 1 + g.usize(4) };
    let tip = if n >= BLOCKHASH_ANCESTORS as usize { g.num() } else { g.below(n as u64 + 1) };
    let headers = if n > 10 {
        let h = header(g, tip);
        (0..n).map(|i| ExecHeader { number: tip.saturating_sub(i as u64), ..h.clone() }).collect()
    } else {
        (0..n).map(|i| header(g, tip.saturating_sub(i as u64))).collect()
    };
    let accs = g.vec(0, 8, 3, |g| account(g, false));
    Snap { headers, accs }
}

fn write(dir: &Path, s: &Snap, whole: &[bool]) -> Result<ExecStateStats, String> {
    let mut w = ExecStatePackWriter::create(dir, s.headers[0].state_root, &s.headers).map_err(|e| e.to_string())?;
    for (i, a) in s.accs.iter().enumerate() {
        if whole.get(i).copied().unwrap_or(true) {
            let mut x = a.whole();
            x.account.nonce = a.nonce;
            w.append_account(&x).map_err(|e| e.to_string())?;
        } else {
            w.append_account_header(a.address, a.nonce.unwrap_or_default(), a.balance, a.code.clone()).map_err(|e| e.to_string())?;
            for c in &a.chunks {
                w.append_storage_chunk(c).map_err(|e| e.to_string())?;
            }
        }
    }
    w.finish().map_err(|e| e.to_string())
}

/// What is read: accounts (each complete only if `next_account` gave it), and whether the end was reached.
fn accounts(dir: &Path) -> Result<(ExecStateMeta, Vec<ExecHeader>, Vec<ExecStateAccount>, Option<String>), String> {
    let mut r = ExecStatePackReader::open(dir).map_err(|e| e.to_string())?;
    let mut v = vec![];
    let mut err = None;
    for a in r.accounts() {
        match a {
            Ok(a) => {
                if err.is_some() {
                    return Err("[account after an error]".into());
                }
                v.push(a)
            }
            Err(e) => err = Some(e.to_string()),
        }
    }
    if r.next_account().is_some() {
        return Err("[account after the end]".into());
    }
    Ok((r.meta().clone(), r.headers().to_vec(), v, err))
}

fn entries(dir: &Path) -> Result<(Vec<StateEntry>, Option<String>), String> {
    let mut r = ExecStatePackReader::open(dir).map_err(|e| e.to_string())?;
    let mut v = vec![];
    while let Some(e) = r.next_entry() {
        match e {
            Ok(e) => v.push(e),
            Err(e) => {
                if r.next_entry().is_some() {
                    return Err("[entry after an error]".into());
                }
                return Ok((v, Some(e.to_string())));
            }
        }
    }
    Ok((v, None))
}

fn matches_snap(dir: &Path, s: &Snap, whole: &[bool]) -> R {
    let want: Vec<ExecStateAccount> = s.accs.iter().map(|a| a.whole()).collect();
    let (meta, headers, got, err) = accounts(dir)?;
    ensure!(err.is_none(), "reading: {err:?}");
    ensure_eq!(meta.state_root, s.headers[0].state_root);
    ensure_eq!(meta.block_number, s.headers[0].number);
    ensure_eq!(meta.block_hash, s.headers[0].hash_slow());
    ensure_eq!(meta.header_count as usize, s.headers.len());
    ensure_eq!(headers, s.headers, "headers");
    ensure_eq!(got.len(), want.len(), "accounts read");
    for (i, (a, b)) in got.iter().zip(&want).enumerate() {
        ensure_eq!(a, b, "account {i}");
    }
    let (es, err) = entries(dir)?;
    ensure!(err.is_none(), "reading entries: {err:?}");
    let mut it = es.into_iter().peekable();
    for (i, a) in s.accs.iter().enumerate() {
        let Some(StateEntry::Account(m)) = it.next() else { return Err(format!("entry of account {i} is missing")) };
        ensure_eq!((m.address, m.nonce, m.balance, &m.code), (a.address, a.nonce.unwrap_or_default(), a.balance, &a.code), "entry {i}");
        let mut all = vec![];
        let mut sizes = vec![];
        while let Some(StateEntry::Storage(c)) = it.next_if(|e| matches!(e, StateEntry::Storage(_))) {
            ensure!(!c.is_empty() && c.len() <= STORAGE_CHUNK_SLOTS, "chunk of {} slots", c.len());
            sizes.push(c.len());
            all.extend(c);
        }
        if whole.get(i).copied().unwrap_or(true) {
            let m: Vec<(B256, B256)> = a.whole().account.storage.unwrap_or_default().into_iter().collect();
            ensure_eq!(all, m, "slots of account {i}");
        } else {
            ensure_eq!(all, a.chunks.concat(), "slots of account {i}");
            ensure_eq!(sizes, a.chunks.iter().map(|c| c.len()).filter(|n| *n > 0).collect::<Vec<_>>(), "chunks of account {i}");
        }
    }
    ensure!(it.next().is_none(), "more entries than were written");
    let rep = ExecStatePackReader::verify(dir).map_err(|e| format!("verify: {e}"))?;
    let n: usize = s
        .accs
        .iter()
        .enumerate()
        .map(|(i, a)| if whole.get(i).copied().unwrap_or(true) { a.whole().account.storage.map_or(0, |m| m.len()) } else { a.chunks.concat().len() })
        .sum();
    let codes = s.accs.iter().filter(|a| a.code.as_ref().is_some_and(|c| !c.is_empty())).count();
    ensure_eq!(
        (rep.header_count as usize, rep.account_count as usize, rep.storage_slots as usize, rep.bytecodes as usize),
        (s.headers.len(), s.accs.len(), n, codes),
        "verification report"
    );
    Ok(())
}

fn interesting(s: &Snap) -> bool {
    s.accs.len() >= 2 && s.accs.iter().any(|a| !a.chunks.concat().is_empty())
}

fn round_trip(g: &mut G) -> R {
    let d = Scratch::new();
    let dir = d.sub("snap");
    let mut s = snap(g, true);
    if g.chance(1, 60) {
        let a = account(g, true);
        let i = g.usize(s.accs.len() + 1);
        s.accs.insert(i, a);
        g.class("account larger than a chunk");
    }
    // an oversized chunk is written whole accounts only
    let whole: Vec<bool> = s.accs.iter().map(|a| g.bool() || a.chunks.iter().any(|c| c.len() > STORAGE_CHUNK_SLOTS)).collect();
    g.nontrivial_if(interesting(&s));
    g.note(|| format!("{} headers, tip {}, accounts {:?}", s.headers.len(), s.headers[0].number, s.accs.iter().map(|a| a.chunks.iter().map(|c| c.len()).collect::<Vec<_>>()).collect::<Vec<_>>()));
    let floor = s.headers[0].number.min(BLOCKHASH_ANCESTORS);
    let stats = write(&dir, &s, &whole)?;
    if (s.headers.len() as u64) < floor {
        g.class("window too short");
        ensure!(ExecStatePackReader::open(&dir).is_err() && ExecStatePackReader::verify(&dir).is_err(), "a header window below the floor was accepted");
        return Ok(());
    }
    ensure_eq!(stats.account_count as usize, s.accs.len());
    matches_snap(&dir, &s, &whole)?;
    // bytes after the end change nothing
    if g.chance(1, 4) {
        let f = dir.join("state_data");
        let mut b = std::fs::read(&f).map_err(|e| e.to_string())?;
        let n = 1 + g.usize(80);
        b.extend(g.blob(n));
        std::fs::write(&f, b).map_err(|e| e.to_string())?;
        matches_snap(&dir, &s, &whole)?;
    }
    // a snapshot of another state than its first header's is not begun
    let bad = d.sub("bad");
    let mut root = s.headers[0].state_root;
    root.0[g.usize(32)] ^= 1 << g.below(8);
    ensure!(ExecStatePackWriter::create(&bad, root, &s.headers).is_err(), "a snapshot was begun under another state root");
    ensure!(ExecStatePackWriter::create(&bad, root, &[]).is_err(), "a snapshot was begun without headers");
    Ok(())
}

/// After damage: refused by verification, and what is read before the error is a prefix of what was written.
fn refused(dir: &Path, s: &Snap, what: &str) -> R {
    if let Ok(r) = ExecStatePackReader::verify(dir) {
        return Err(format!("{what}: verification accepts it: {r:?}"));
    }
    let want: Vec<ExecStateAccount> = s.accs.iter().map(|a| a.whole()).collect();
    match accounts(dir) {
        Ok((_, h, got, err)) => {
            ensure_eq!(h, s.headers, "{what}: headers");
            ensure!(err.is_some(), "{what}: read to a clean end");
            ensure!(got.len() <= want.len() && got[..] == want[..got.len()], "{what}: other accounts are read: {got:?}");
        }
        Err(e) => ensure!(!e.starts_with('['), "{what}: {e}"),
    }
    if let Ok((es, err)) = entries(dir) {
        ensure!(err.is_some(), "{what}: entries read to a clean end");
        let all: Vec<StateEntry> = s
            .accs
            .iter()
            .flat_map(|a| {
                let acc = StateEntry::Account(tn_storage::exec_state_pack::ExecStateAccountMeta {
                    address: a.address,
                    nonce: a.nonce.unwrap_or_default(),
                    balance: a.balance,
                    code: a.code.clone(),
                });
                std::iter::once(acc).chain(a.chunks.iter().filter(|c| !c.is_empty()).map(|c| StateEntry::Storage(c.clone())))
            })
            .collect();
        ensure!(es.len() <= all.len() && es[..] == all[..es.len()], "{what}: other entries are read");
    }
    Ok(())
}

fn damage(g: &mut G) -> R {
    let d = Scratch::new();
    let dir = d.sub("snap");
    let s = snap(g, false);
    g.nontrivial_if(interesting(&s));
    let whole = vec![false; s.accs.len()];
    write(&dir, &s, &whole)?;
    matches_snap(&dir, &s, &whole)?;
    let f = dir.join("state_data");
    let good = std::fs::read(&f).map_err(|e| e.to_string())?;
    for _ in 0..12 {
        let (b, what) = match g.below(4) {
            0 => {
                let n = g.usize(good.len());
                (good[..n].to_vec(), format!("cut to {n} of {} bytes", good.len()))
            }
            1 => {
                let mut b = good.clone();
                let i = g.usize(b.len());
                let x = 1 << g.below(8);
                b[i] ^= x;
                (b, format!("byte {i} of {} ^ {x:#x}", good.len()))
            }
            2 => {
                let mut b = good.clone();
                let n = 1 + g.usize(4);
                let i = g.usize(b.len() - n);
                let mut diff = false;
                for k in 0..n {
                    let v = g.u8();
                    diff |= b[i + k] != v;
                    b[i + k] = v;
                }
                if !diff {
                    b[i] ^= 0xff;
                }
                (b, format!("{n} bytes at {i} of {}", good.len()))
            }
            _ => {
                // a run of zeros, as a lost page leaves
                let mut b = good.clone();
                let i = g.usize(b.len());
                let n = (1 + g.usize(200)).min(b.len() - i);
                b[i..i + n].fill(0);
                if b == good {
                    b[i] = 1;
                }
                (b, format!("{n} zeros at {i} of {}", good.len()))
            }
        };
        std::fs::write(&f, &b).map_err(|e| e.to_string())?;
        refused(&dir, &s, &what)?;
    }
    Ok(())
}

/// The format's grammar: `Some(accounts)` if the records form a snapshot.
fn grammar(recs: &[Rec]) -> Option<Vec<(Rec, Vec<(B256, B256)>)>> {
    let mut it = recs.iter();
    let Some(Rec::Meta(m)) = it.next() else { return None };
    if m.header_count == 0 || m.header_count > MAX_HEADERS || (m.header_count as u64) < m.block_number.min(BLOCKHASH_ANCESTORS) {
        return None;
    }
    for i in 0..m.header_count {
        let Some(Rec::Header(b)) = it.next() else { return None };
        let h = <ExecHeader as alloy::rlp::Decodable>::decode(&mut &b[..]).ok()?;
        if i == 0 && (h.state_root != m.state_root || h.number != m.block_number || h.hash_slow() != m.block_hash) {
            return None;
        }
    }
    let mut out: Vec<(Rec, Vec<(B256, B256)>)> = vec![];
    loop {
        match it.next()? {
            r @ Rec::Account { .. } => out.push((r.clone(), vec![])),
            Rec::Storage(c) => {
                if c.len() > STORAGE_CHUNK_SLOTS {
                    return None;
                }
                out.last_mut()?.1.extend(c)
            }
            Rec::End(e) => return (e.account_count == out.len() as u64).then_some(out),
            _ => return None,
        }
    }
}

fn records(s: &Snap) -> Vec<Rec> {
    let h = &s.headers[0];
    let mut v = vec![Rec::Meta(ExecStateMeta {
        state_root: h.state_root,
        block_number: h.number,
        block_hash: h.hash_slow(),
        header_count: s.headers.len() as u32,
    })];
    v.extend(s.headers.iter().map(|h| Rec::Header(rlp(h))));
    let mut st = ExecStateStats::default();
    for a in &s.accs {
        st.account_count += 1;
        st.bytecodes += a.code.as_ref().is_some_and(|c| !c.is_empty()) as u64;
        v.push(Rec::Account { address: a.address, nonce: a.nonce.unwrap_or_default(), balance: B256::from(a.balance.to_be_bytes()), code: a.code.clone() });
        for c in a.chunks.iter().filter(|c| !c.is_empty()) {
            st.storage_slots += c.len() as u64;
            v.push(Rec::Storage(c.clone()));
        }
    }
    v.push(Rec::End(st));
    v
}

fn write_records(dir: &Path, recs: &[Rec]) -> R {
    std::fs::create_dir_all(dir).map_err(|e| e.to_string())?;
    let mut p: Pack<Rec> =
        Pack::open(dir.join("state_data"), 0, false, PackCompression::ZStd, EXEC_STATE_PACK_VERSION).map_err(|e| e.to_string())?;
    for r in recs {
        p.append(r).map_err(|e| e.to_string())?;
    }
    p.commit().map_err(|e| e.to_string())
}

fn rearranged(g: &mut G) -> R {
    let d = Scratch::new();
    let s = snap(g, false);
    g.nontrivial_if(interesting(&s));
    let base = records(&s);
    // the records written by hand are the records the writer writes
    let (a, b) = (d.sub("a"), d.sub("b"));
    write(&a, &s, &vec![false; s.accs.len()])?;
    write_records(&b, &base)?;
    ensure_eq!(std::fs::read(a.join("state_data")).unwrap(), std::fs::read(b.join("state_data")).unwrap(), "layout of a snapshot");
    for k in 0..6 {
        let mut v = base.clone();
        let mut what = vec![];
        for _ in 0..1 + g.usize(2) {
            let i = g.usize(v.len());
            match g.below(9) {
                0 => {
                    v.remove(i);
                    what.push(format!("record {i} left out"));
                    if v.is_empty() {
                        break;
                    }
                }
                1 => {
                    let r = v[i].clone();
                    let j = g.usize(v.len() + 1);
                    v.insert(j, r);
                    what.push(format!("record {i} again at {j}"));
                }
                2 => {
                    let j = g.usize(v.len());
                    v.swap(i, j);
                    what.push(format!("records {i} and {j} swapped"));
                }
                3 => {
                    if let Some(Rec::Meta(m)) = v.first_mut() {
                        m.header_count = *g.pick(&[0, 1, m.header_count.wrapping_sub(1), m.header_count.wrapping_add(1), 255, 256, MAX_HEADERS, MAX_HEADERS + 1, u32::MAX]);
                        what.push(format!("header count {}", m.header_count));
                    }
                }
                4 => {
                    if let Some(Rec::Meta(m)) = v.first_mut() {
                        m.block_number = *g.pick(&[0, 1, m.block_number.wrapping_sub(1), m.block_number.wrapping_add(1), 255, 256, u64::MAX]);
                        what.push(format!("block number {}", m.block_number));
                    }
                }
                5 => {
                    if let Some(Rec::Meta(m)) = v.first_mut() {
                        let bit = 1 << g.below(8);
                        let at = g.usize(32);
                        if g.bool() {
                            m.block_hash.0[at] ^= bit;
                        } else {
                            m.state_root.0[at] ^= bit;
                        }
                        what.push("identity altered".into());
                    }
                }
                6 => {
                    if let Some(Rec::End(e)) = v.last_mut() {
                        e.account_count = *g.pick(&[0, e.account_count.wrapping_sub(1), e.account_count.wrapping_add(1), u64::MAX]);
                        what.push(format!("account count {}", e.account_count));
                    }
                }
                7 => {
                    if let Rec::Header(b) = &mut v[i] {
                        let h = header(g, s.headers[0].number);
                        *b = rlp(&h);
                        what.push(format!("header {i} replaced"));
                    }
                }
                _ => {
                    let n = v.len();
                    v.truncate(g.usize(n));
                    what.push(format!("ends after {} of {n} records", v.len()));
                }
            }
            if v.is_empty() {
                break;
            }
        }
        let dir = d.sub(&format!("r{k}"));
        write_records(&dir, &v)?;
        let want = grammar(&v);
        let got = ExecStatePackReader::verify(&dir);
        match (&want, &got) {
            (Some(w), Ok(r)) => {
                g.class("still a snapshot");
                ensure_eq!(r.account_count as usize, w.len(), "{what:?}: accounts reported");
                ensure_eq!(r.storage_slots as usize, w.iter().map(|(_, s)| s.len()).sum::<usize>(), "{what:?}: slots reported");
                let (_, _, accs, err) = accounts(&dir)?;
                ensure!(err.is_none(), "{what:?}: {err:?}");
                ensure_eq!(accs.len(), w.len());
                for (a, (r, st)) in accs.iter().zip(w) {
                    let Rec::Account { address, nonce, balance, code } = r else { unreachable!() };
                    let m: BTreeMap<B256, B256> = st.iter().copied().collect();
                    ensure!(
                        a.address == *address
                            && a.account.nonce == Some(*nonce)
                            && a.account.balance == U256::from_be_bytes(balance.0)
                            && a.account.code == *code
                            && a.account.storage.clone().unwrap_or_default() == m,
                        "{what:?}: another account is read: {a:?}"
                    );
                }
            }
            (None, Err(_)) => g.class("refused"),
            (Some(_), Err(e)) => return Err(format!("{what:?}: refused: {e}")),
            (None, Ok(r)) => return Err(format!("{what:?}: accepted: {r:?}")),
        }
    }
    Ok(())
}

/// The storage chunk bound, written and read.
fn chunk_bound(g: &mut G) -> R {
    let d = Scratch::new();
    let dir = d.sub("snap");
    let h = header(g, 1);
    let over = g.usize(3);
    let n = STORAGE_CHUNK_SLOTS - 1 + over;
    g.nontrivial();
    let c = slots(g, n);
    let mut w = ExecStatePackWriter::create(&dir, h.state_root, std::slice::from_ref(&h)).map_err(|e| e.to_string())?;
    w.append_account_header(Address::ZERO, 1, U256::ZERO, None).map_err(|e| e.to_string())?;
    let r = if g.bool() { w.append_storage_chunk(&c) } else { w.append_storage_chunk_owned(c.clone()) };
    ensure_eq!(r.is_ok(), n <= STORAGE_CHUNK_SLOTS, "a chunk of {n} slots");
    let st = w.finish().map_err(|e| e.to_string())?;
    let kept = if n <= STORAGE_CHUNK_SLOTS { n } else { 0 };
    ensure_eq!(st.storage_slots as usize, kept);
    ensure_eq!(ExecStatePackReader::verify(&dir).map_err(|e| e.to_string())?.storage_slots as usize, kept);
    let hand = d.sub("hand");
    let s = Snap { headers: vec![h], accs: vec![Acc { address: Address::ZERO, nonce: None, balance: U256::ZERO, code: None, chunks: vec![c] }] };
    write_records(&hand, &records(&s))?;
    if n > STORAGE_CHUNK_SLOTS {
        ensure!(ExecStatePackReader::verify(&hand).is_err(), "an oversized chunk is verified");
        ensure!(accounts(&hand)?.3.is_some() && entries(&hand)?.1.is_some(), "an oversized chunk is read");
    } else {
        matches_snap(&hand, &s, &[false])?;
    }
    Ok(())
}

/// A disk that fails while the snapshot is written: the writer says so, or the snapshot is whole.
fn failing_disk(g: &mut G) -> R {
    let d = Scratch::new();
    let dir = d.sub("snap");
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let mut s = snap(g, false);
    for a in &mut s.accs {
        if g.bool() {
            // several write buffers' worth
            let n = 20_000 + g.usize(30_000);
            a.code = Some(Bytes::from((0..n).map(|i| (i as u32).wrapping_mul(2654435761).to_le_bytes()[3]).collect::<Vec<_>>()));
        }
    }
    g.nontrivial_if(interesting(&s));
    let rec = vfs::Recorder::start(&dir);
    rec.fail_after(Some(g.below(8)));
    let r = write(&dir, &s, &vec![false; s.accs.len()]);
    rec.fail_after(None);
    let failed = rec.failed();
    drop(rec);
    if failed > 0 {
        g.class("a write failed");
    }
    match r {
        Ok(_) => matches_snap(&dir, &s, &vec![false; s.accs.len()]),
        Err(_) => match ExecStatePackReader::verify(&dir) {
            Err(_) => Ok(()),
            // the last flush is repeated on close
            Ok(_) => matches_snap(&dir, &s, &vec![false; s.accs.len()]),
        },
    }
}

pub fn check(c: &mut Check) {
    c.assume("alterations hit at most 32 consecutive bits or zero a run, or rearrange whole records: CRC32 detects the former with certainty within a record");
    c.sub("round-trip", Budget::new(20_000, 30).thorough(2_000_000, 900), round_trip);
    c.sub("damage", Budget::new(20_000, 30).thorough(2_000_000, 900), damage);
    c.sub("rearranged", Budget::new(20_000, 30).thorough(2_000_000, 900), rearranged);
    c.sub("chunk-bound", Budget::new(60, 20).thorough(2_000, 300), chunk_bound);
    c.sub("failing-disk", Budget::new(4_000, 15).thorough(300_000, 600), failing_disk);
}
