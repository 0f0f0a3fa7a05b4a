//! W01: a batch is accepted exactly when it obeys every rule.

use alloy::{
    consensus::{SignableTransaction as _, TxEip1559, TxEip2930, TxEip4844, TxEip7702, TxLegacy},
    eips::Encodable2718 as _,
    primitives::{Address, Bytes, Signature, TxKind, B256, U256},
};
use std::sync::OnceLock;
use tn_batch_validator::BatchValidator;
use tn_reth::{test_utils::TransactionFactory, RethEnv, WorkerTxPool};
use tn_types::*;
use vcore::{ensure, ensure_eq, Budget, Check, G, R};
use vgen::{address, b256};

pub const RULE: &str = "a batch with at least one transaction, at or near a limit or with something altered";

/// The limits as the protocol states them.
const MAX_BYTES: usize = 1_000_000;
const MAX_GAS: u64 = 30_000_000;

pub fn senders() -> &'static Vec<TransactionFactory> {
    static S: OnceLock<Vec<TransactionFactory>> = OnceLock::new();
    S.get_or_init(|| {
        use rand::SeedableRng as _;
        let mut r = rand::rngs::StdRng::seed_from_u64(77);
        (0..8).map(|_| TransactionFactory::new_random_from_seed(&mut r)).collect()
    })
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Kind {
    Legacy,
    LegacyNoChain,
    Eip2930,
    Eip1559,
    Eip4844,
    Eip7702,
}

/// The order of the curve, halved: signatures above are not accepted.
fn order() -> U256 {
    U256::from_str_radix("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16).expect("number")
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Sig {
    Good,
    HighS,
    ZeroR,
    ZeroS,
    Huge,
}

fn sign(g: &mut G, hash: B256, how: Sig, who: Option<usize>) -> Signature {
    let who = who.unwrap_or_else(|| g.usize(8));
    let s = senders()[who].sign_hash(hash);
    match how {
        Sig::Good => s,
        Sig::HighS => Signature::new(s.r(), order() - s.s(), !s.v()),
        Sig::ZeroR => Signature::new(U256::ZERO, s.s(), s.v()),
        Sig::ZeroS => Signature::new(s.r(), U256::ZERO, s.v()),
        Sig::Huge => Signature::new(s.r(), U256::MAX, s.v()),
    }
}

fn tx(g: &mut G, kind: Kind, gas_limit: u64, input: usize, how: Sig) -> Vec<u8> {
    tx_of(g, kind, gas_limit, input, how, None)
}

fn tx_of(g: &mut G, kind: Kind, gas_limit: u64, input: usize, how: Sig, who: Option<usize>) -> Vec<u8> {
    let nonce = g.num();
    let fee = g.num() as u128;
    let to = if g.bool() { TxKind::Create } else { TxKind::Call(address(g)) };
    let value = U256::from(g.num());
    let input: Bytes = vec![g.u8(); input].into();
    let chain_id = g.num() % 100_000;
    macro_rules! done {
        ($t:expr) => {{
            let t = $t;
            let s = sign(g, t.signature_hash(), how, who);
            TransactionSigned::from(t.into_signed(s)).encoded_2718()
        }};
    }
    let call = match to {
        TxKind::Call(a) => a,
        TxKind::Create => Address::ZERO,
    };
    match kind {
        Kind::Legacy => done!(TxLegacy { chain_id: Some(chain_id), nonce, gas_price: fee, gas_limit, to, value, input }),
        Kind::LegacyNoChain => done!(TxLegacy { chain_id: None, nonce, gas_price: fee, gas_limit, to, value, input }),
        Kind::Eip2930 => {
            done!(TxEip2930 { chain_id, nonce, gas_price: fee, gas_limit, to, value, access_list: Default::default(), input })
        }
        Kind::Eip1559 => done!(TxEip1559 {
            chain_id,
            nonce,
            gas_limit,
            max_fee_per_gas: fee,
            max_priority_fee_per_gas: 0,
            to,
            value,
            access_list: Default::default(),
            input
        }),
        Kind::Eip4844 => done!(TxEip4844 {
            chain_id,
            nonce,
            gas_limit,
            max_fee_per_gas: fee,
            max_priority_fee_per_gas: 0,
            to: call,
            value,
            access_list: Default::default(),
            blob_versioned_hashes: vec![b256(g)],
            max_fee_per_blob_gas: 1,
            input
        }),
        Kind::Eip7702 => done!(TxEip7702 {
            chain_id,
            nonce,
            gas_limit,
            max_fee_per_gas: fee,
            max_priority_fee_per_gas: 0,
            to: call,
            value,
            access_list: Default::default(),
            authorization_list: vec![],
            input
        }),
    }
}

fn validator(base_fee: u64, epoch: Epoch, worker: WorkerId) -> BatchValidator {
    static T: OnceLock<TaskManager> = OnceLock::new();
    let env = RethEnv { task_spawner: T.get_or_init(TaskManager::default).get_spawner() };
    BatchValidator::new(env, None, worker, base_fee, epoch)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Rule {
    Digest,
    Worker,
    Epoch,
    Empty,
    Size,
    Decode,
    Type4844,
    Type,
    Gas,
    GasOverflow,
    Fee,
}

fn broken_rule(e: &BatchValidationError) -> Option<Rule> {
    use BatchValidationError as E;
    Some(match e {
        E::InvalidDigest => Rule::Digest,
        E::InvalidWorkerId { .. } => Rule::Worker,
        E::InvalidEpoch { .. } => Rule::Epoch,
        E::EmptyBatch => Rule::Empty,
        E::HeaderTransactionBytesExceedsMax(_) => Rule::Size,
        E::RecoverTransaction(..) => Rule::Decode,
        E::InvalidTx4844(_) => Rule::Type4844,
        E::UnsupportedTxType { .. } => Rule::Type,
        E::HeaderMaxGasExceedsGasLimit { .. } => Rule::Gas,
        E::GasOverflow => Rule::GasOverflow,
        E::InvalidBaseFee { .. } => Rule::Fee,
        _ => return None,
    })
}

fn rules(g: &mut G) -> R {
    let (epoch, worker, fee) = (g.num32(), *g.pick(&[0u16, 0, 0, 1, u16::MAX]), g.num());
    let n = match g.weighted(&[2, 12, 3]) {
        0 => 0,
        1 => g.urange(1, 6),
        _ => g.urange(7, 40),
    };
    // gas limits adding up to a target
    let target: u128 = match g.weighted(&[6, 3, 3, 2, 2, 2]) {
        0 => g.below(MAX_GAS + 1) as u128,
        1 => MAX_GAS as u128,
        2 => MAX_GAS as u128 + 1,
        3 => u64::MAX as u128,
        4 => u64::MAX as u128 + 1,
        _ => g.num() as u128 + g.num() as u128,
    };
    let mut gas = vec![];
    let mut left = target;
    for i in 0..n {
        let max = left.min(u64::MAX as u128);
        let x = if i + 1 == n {
            max
        } else if g.bool() {
            g.below(max as u64 / 2 + 1) as u128
        } else {
            max.min(21_000)
        };
        gas.push(x as u64);
        left -= x;
    }
    let total_gas: u128 = gas.iter().map(|x| *x as u128).sum();
    g.shuffle(&mut gas);
    let mut broken: Vec<Rule> = vec![];
    // what is odd among the transactions
    let odd = if n == 0 { 0 } else { g.weighted(&[10, 2, 2, 2, 2, 2, 2, 2, 2]) };
    let at = if n == 0 { 0 } else { g.usize(n) };
    let mut txs: Vec<Vec<u8>> = vec![];
    for (i, gl) in gas.iter().enumerate() {
        let mut kind = *g.pick(&[Kind::Eip1559, Kind::Eip1559, Kind::Legacy, Kind::LegacyNoChain, Kind::Eip2930]);
        let mut how = Sig::Good;
        if i == at {
            match odd {
                1 => {
                    kind = Kind::Eip4844;
                    broken.push(Rule::Type4844);
                }
                2 => {
                    kind = Kind::Eip7702;
                    broken.push(Rule::Type);
                }
                3 => {
                    how = *g.pick(&[Sig::HighS, Sig::ZeroR, Sig::ZeroS, Sig::Huge]);
                    broken.push(Rule::Decode);
                }
                _ => {}
            }
        }
        let len = if g.chance(1, 8) { g.usize(3000) } else { g.usize(5) };
        let mut t = tx(g, kind, *gl, len, how);
        if i == at {
            match odd {
                4 => {
                    let cut = g.usize(t.len());
                    t.truncate(cut);
                    broken.push(Rule::Decode);
                }
                5 => {
                    let more = g.urange(1, 3);
                    let more = g.bytes(more);
                    t.extend(more);
                    broken.push(Rule::Decode);
                }
                6 => {
                    // (above 0x7f alloy reads past a first byte that is no list, whatever it is)
                    t[0] = *g.pick(&[0x05, 0x06, 0x10, 0x64, 0x7e, 0x7f]);
                    broken.push(Rule::Decode);
                }
                7 => {
                    // two transactions in one place
                    let more = tx(g, Kind::Eip1559, 21_000, 0, Sig::Good);
                    t.extend(more);
                    broken.push(Rule::Decode);
                }
                _ => {}
            }
        }
        txs.push(t);
    }
    // a byte length at the limit
    let bytes: usize = txs.iter().map(|t| t.len()).sum();
    if n > 0 && bytes < 900_000 && odd == 0 && g.chance(1, 12) {
        let total = MAX_BYTES - 1 + g.usize(3);
        let want = total - bytes;
        // the last transaction is made so long that all add up to what is wanted
        let last = n - 1;
        let want = want + txs[last].len();
        let mut len = want.saturating_sub(120);
        let mut t = vec![];
        for _ in 0..6 {
            let keep = g.u8();
            t = big(keep, gas[last], len);
            if t.len() == want {
                break;
            }
            len = (len + want).saturating_sub(t.len());
        }
        txs[last] = t;
        g.class("near the byte limit");
    }
    let bytes: usize = txs.iter().map(|t| t.len()).sum();
    let mut b = Batch { transactions: txs, epoch, beneficiary: address(g), base_fee_per_gas: fee, worker_id: worker, received_at: None };
    if g.bool() {
        b.set_received_at(g.num());
    }
    match g.weighted(&[8, 1, 1, 1, 1]) {
        1 => {
            b.epoch = epoch.wrapping_add(*g.pick(&[1, u32::MAX, 2, 256]));
            broken.push(Rule::Epoch);
        }
        2 => {
            b.worker_id = worker.wrapping_add(*g.pick(&[1, u16::MAX, 256]));
            broken.push(Rule::Worker);
        }
        3 => {
            b.base_fee_per_gas = match g.below(4) {
                0 => fee.wrapping_add(1),
                1 => fee.wrapping_sub(1),
                2 => fee ^ 1 << 63,
                _ => fee.wrapping_add(1 << 32),
            };
            broken.push(Rule::Fee);
        }
        _ => {}
    }
    let mut sealed = b.clone().seal_slow();
    if g.chance(1, 8) {
        let mut d = sealed.digest.0;
        match g.below(3) {
            0 => d[g.usize(32)] ^= 1 << g.below(8),
            1 => d = [0; 32],
            _ => {
                let mut x = b.clone();
                x.base_fee_per_gas ^= 1;
                d = x.digest().0;
            }
        }
        sealed.digest = d.into();
        broken.push(Rule::Digest);
    }
    if n == 0 {
        broken.push(Rule::Empty);
    }
    if bytes > MAX_BYTES {
        broken.push(Rule::Size);
    }
    if total_gas > u64::MAX as u128 {
        broken.push(Rule::GasOverflow);
    } else if total_gas > MAX_GAS as u128 {
        broken.push(Rule::Gas);
    }
    g.nontrivial_if(n > 0);
    if broken.is_empty() {
        g.class("obeys every rule");
    }
    for r in &broken {
        g.class(match r {
            Rule::Digest => "digest",
            Rule::Worker => "worker",
            Rule::Epoch => "epoch",
            Rule::Empty => "empty",
            Rule::Size => "too many bytes",
            Rule::Decode => "transaction that does not decode",
            Rule::Type4844 => "blob transaction",
            Rule::Type => "other type",
            Rule::Gas => "too much gas",
            Rule::GasOverflow => "gas overflows",
            Rule::Fee => "base fee",
        });
    }
    let odd_one = b.transactions.get(at).map(|t| t[..t.len().min(4)].to_vec());
    g.note(|| format!("{n} transactions, {bytes} bytes, {total_gas} gas, oddity {odd} at {at}, which starts {odd_one:02x?}, breaks {broken:?}"));
    let v = validator(fee, epoch, worker);
    let judge = |s: SealedBatch, how: &str| -> R {
        match v.validate_batch(s) {
            Ok(()) => ensure!(broken.is_empty(), "a batch of {n} transactions, {bytes} bytes and {total_gas} gas that breaks {broken:?} is accepted, {how}"),
            Err(e) => {
                let r = broken_rule(&e);
                ensure!(
                    r.is_some_and(|r| broken.contains(&r)),
                    "a batch of {n} transactions, {bytes} bytes and {total_gas} gas that breaks {broken:?} is refused for {e}, {how}"
                );
            }
        }
        Ok(())
    };
    judge(sealed.clone(), "as built")?;
    let wire = encode(&sealed);
    let back: SealedBatch = try_decode(&wire).map_err(|e| e.to_string())?;
    ensure_eq!(back.digest, sealed.digest);
    judge(back, "from the wire")?;
    let alone: Batch = try_decode(&encode(&sealed.batch)).map_err(|e| e.to_string())?;
    judge(alone.seal(sealed.digest), "from the store")
}

/// A long transaction, quickly.
fn big(fill: u8, gas_limit: u64, input: usize) -> Vec<u8> {
    let t = TxLegacy { chain_id: None, nonce: 0, gas_price: 1, gas_limit, to: TxKind::Call(Address::ZERO), value: U256::ZERO, input: vec![fill; input].into() };
    let s = senders()[0].sign_hash(t.signature_hash());
    TransactionSigned::from(t.into_signed(s)).encoded_2718()
}

/// A transaction heard on the network goes to the pool of exactly one member, the same for all
/// transactions of one sender; bytes that are no transaction go nowhere.
fn mine(g: &mut G) -> R {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().map_err(|e| e.to_string())?;
    let size = if g.chance(1, 6) { g.range(1, 64) } else { g.range(1, 12) };
    let who = g.usize(8);
    let count = g.urange(1, 3);
    let mut homes = vec![];
    for _ in 0..count {
        let kind = *g.pick(&[Kind::Eip1559, Kind::Legacy, Kind::LegacyNoChain, Kind::Eip2930]);
        let gas = g.num();
        let len = g.usize(5);
        let mut t = tx_of(g, kind, gas, len, Sig::Good, Some(who));
        let bad = g.chance(1, 5);
        if bad {
            let cut = g.usize(t.len());
            t.truncate(cut);
        }
        let slots: Vec<u64> = (0..size).collect();
        let took = rt.block_on(async {
            let mut took = vec![];
            for slot in &slots {
                let tasks = TaskManager::default();
                let pool = WorkerTxPool::default();
                let v = BatchValidator::new(RethEnv { task_spawner: tasks.get_spawner() }, Some(pool.clone()), 0, 0, 0);
                v.submit_txn_if_mine(&t, size, *slot);
                for _ in 0..4 {
                    tokio::task::yield_now().await;
                }
                let added = pool.added.lock().unwrap();
                for a in added.iter() {
                    took.push((*slot, a.signer(), a.encoded_2718()));
                }
            }
            took
        });
        if bad {
            ensure!(took.is_empty(), "bytes that are no transaction reach a pool");
            continue;
        }
        ensure!(took.len() == 1, "a transaction reaches {} pools of a committee of {size}", took.len());
        ensure_eq!(took[0].1, senders()[who].address(), "the sender");
        ensure!(took[0].2 == t, "the pool is given another transaction");
        homes.push(took[0].0);
        g.nontrivial_if(size > 1);
    }
    homes.dedup();
    ensure!(homes.len() <= 1, "transactions of one sender go to slots {homes:?}");
    g.note(|| format!("{count} transactions, committee of {size}"));
    Ok(())
}

pub fn check(c: &mut Check) {
    c.assume("decoding and recovering one transaction is alloy's; reth's own wrapper around it is replaced by the same definition");
    c.sub("rules", Budget::new(60_000, 25), rules);
    c.sub("mine", Budget::new(8_000, 12), mine);
}
