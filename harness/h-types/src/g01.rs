//! G01: fees and rewards are computed exactly and without overflow.

use alloy::primitives::aliases::U184;
use std::collections::BTreeMap;
use tn_types::{gas_accumulator::*, *};
use vcore::{ensure, ensure_eq, Budget, Check, G, R};
use vgen::*;

#[path = "../../../crates-src/tn-reth/evm/utils.rs"]
#[allow(dead_code, unused)]
mod penalty;

pub const RULE: &str = "a history with at least two blocks or leaders, a fee strictly between floor and maximum with gas used, or a gas \
limit above the exemption";

const FLOOR: u64 = 7;

fn accumulate(g: &mut G) -> R {
    let mut n = g.urange(1, 4);
    let acc = GasAccumulator::new(n);
    let mut model = vec![(0u64, 0u64, 0u64, FLOOR); n];
    let steps = g.urange(1, 40);
    let mut blocks = 0;
    for _ in 0..steps {
        match g.weighted(&[10, 1, 2, 2]) {
            0 => {
                let w = g.usize(n);
                let used = if g.chance(1, 5) { 0 } else { g.below(1 << 50) };
                let limit = g.below(1 << 50);
                acc.inc_block(w as u16, used, limit);
                if used != 0 {
                    let m = &mut model[w];
                    m.0 += 1;
                    m.1 += used;
                    m.2 += limit;
                    blocks += 1;
                }
            }
            1 => {
                acc.clear();
                for m in &mut model {
                    (m.0, m.1, m.2) = (0, 0, 0);
                }
            }
            2 => {
                let w = g.usize(n);
                let f = g.num();
                acc.base_fee(w as u16).set_base_fee(f);
                model[w].3 = f;
            }
            _ => {
                let to = g.usize(5);
                acc.set_num_workers(to);
                n = to.max(1);
                model.resize(n, (0, 0, 0, FLOOR));
            }
        }
        ensure_eq!(acc.num_workers(), n);
        let view = acc.clone();
        for (w, m) in model.iter().enumerate() {
            ensure_eq!(view.get_values(w as u16), (m.0, m.1, m.2), "worker {w}");
            ensure_eq!(view.base_fee(w as u16).base_fee(), m.3, "base fee of worker {w}");
        }
    }
    g.nontrivial_if(blocks >= 2);
    Ok(())
}

/// EIP-1559 in wide arithmetic, with the documented bounds.
fn reference(cur: u64, used: u64, target: u64) -> u64 {
    if target == 0 {
        return cur.max(FLOOR);
    }
    let cur = cur.min(u64::MAX - u64::MAX / 8) as u128;
    let limit = (target as u128 * 2).min(u64::MAX as u128);
    let t = limit / 2;
    let used = (used as u128).min(limit);
    let next = match used.cmp(&t) {
        std::cmp::Ordering::Equal => cur,
        std::cmp::Ordering::Greater => cur + (cur * (used - t) / t / 8).max(1),
        std::cmp::Ordering::Less => cur - cur * (t - used) / t / 8,
    };
    (next as u64).max(FLOOR)
}

fn base_fee(g: &mut G) -> R {
    let cur = g.num();
    let target = g.num();
    let used = match g.below(5) {
        0 => target,
        1 => target.saturating_add(g.below(3)).saturating_sub(1),
        2 => target.saturating_mul(2).saturating_sub(g.below(3)),
        3 => (target as u128 * g.below(4096) as u128 / 1024).min(u64::MAX as u128) as u64,
        _ => g.num(),
    };
    g.note(|| format!("fee {cur}, used {used}, target {target}"));
    let next = compute_next_base_fee_eip1559(cur, used, target);
    ensure_eq!(next, reference(cur, used, target), "next base fee from {cur} with {used} of {target}");
    ensure!(next >= FLOOR, "below the floor");
    if cur > FLOOR && cur < u64::MAX - u64::MAX / 8 && target > 0 && target < 1 << 63 {
        g.nontrivial();
        let diff = next.abs_diff(cur);
        ensure!(diff <= (cur / 8).max(1), "moved by {diff} from {cur}");
        if used == target {
            ensure_eq!(next, cur, "unchanged at the target");
        } else if used > target {
            ensure!(next > cur, "above the target, but {cur} -> {next}");
        } else {
            ensure!(next <= cur, "below the target, but {cur} -> {next}");
        }
    }
    // more gas never means a lower fee
    let more = used.saturating_add(g.below(1 << 20));
    ensure!(compute_next_base_fee_eip1559(cur, more, target) >= next, "more gas used gives a lower fee");
    ensure_eq!(next_base_fee_for_config(WorkerFeeConfig::Eip1559 { target_gas: target }, cur, used), next);
    let fee = g.num();
    ensure_eq!(next_base_fee_for_config(WorkerFeeConfig::Static { fee }, cur, used), fee);
    // the fee a worker starts an epoch with
    let e = WorkerConfigEntry { config: WorkerFeeConfig::Static { fee }, data: U184::from(g.num()) };
    ensure_eq!(entry_fee_for_worker(0, &e), Ok(fee));
    let data = if g.chance(1, 4) { (U184::from(g.num()) << 64) + U184::from(g.num()) } else { U184::from(g.num()) };
    let e = WorkerConfigEntry { config: WorkerFeeConfig::Eip1559 { target_gas: target }, data };
    let got = entry_fee_for_worker(1, &e);
    if data > U184::from(u64::MAX) {
        ensure!(got.is_err(), "a recorded fee of {data} is taken as {got:?}");
    } else {
        ensure_eq!(got, Ok(data.to::<u64>().max(FLOOR)));
    }
    Ok(())
}

fn gas_penalty(g: &mut G) -> R {
    let limit = match g.below(4) {
        0 => 210_000 + g.below(5) - 2,
        1 => 210_001 + g.below(30_000_000),
        _ => g.num(),
    };
    let used = match g.below(5) {
        0 => (limit / 10).saturating_add(g.below(5)).saturating_sub(2),
        1 => limit.saturating_add(g.below(3)).saturating_sub(1),
        2 => 0,
        3 => (limit as u128 * g.below(1000) as u128 / 9999) as u64,
        _ => g.num(),
    };
    g.note(|| format!("limit {limit}, used {used}"));
    let p = penalty::calculate_gas_penalty(limit, used);
    let unused = limit.saturating_sub(used);
    ensure!(p <= unused, "penalty {p} of {unused} unused");
    if limit <= 210_000 || used as u128 * 10 >= limit as u128 {
        ensure_eq!(p, 0, "penalty for an honest estimate ({used} of {limit})");
    } else {
        g.nontrivial();
        // unused * (1 - 10 r)^2 in exact fixed point with nine digits
        let r = 1_000_000_000u128 * used as u128 / limit as u128;
        let d = if r >= 100_000_000 { 0 } else { 100_000_000 - r };
        let expect = d * d * unused as u128 / 10_000_000_000_000_000;
        ensure_eq!(p as u128, expect, "penalty");
        if used == 0 {
            ensure_eq!(p, limit, "nothing used: everything is charged");
        }
    }
    let more = used.saturating_add(1 + g.below(1 + limit / 50));
    ensure!(penalty::calculate_gas_penalty(limit, more) <= p, "using more gas raises the penalty");
    Ok(())
}

fn rewards(g: &mut G) -> R {
    let n = g.urange(2, 8);
    let idx = distinct(g, n);
    // several members may share an address
    let shared = g.bool();
    let addr = |i: usize| if shared { Address::with_last_byte((i % 3) as u8 + 1) } else { addr_of(i) };
    let mut b = CommitteeBuilder::new(1);
    for i in &idx {
        b.add_authority(keys()[*i].pk(), addr(*i));
    }
    let com = b.build();
    let acc = GasAccumulator::default();
    let r = acc.rewards_counter();
    let mut model: BTreeMap<usize, u32> = BTreeMap::new();
    let early = g.bool();
    if early {
        r.set_committee(com.clone());
    }
    let steps = g.urange(0, 40);
    for _ in 0..steps {
        match g.weighted(&[12, 1, 1]) {
            0 => {
                let i = idx[g.usize(n)];
                r.clone().inc_leader_count(&keys()[i].id());
                *model.entry(i).or_default() += 1;
            }
            1 => {
                // a leader of no committee is paid nothing
                let i = (0..KEYS).find(|i| !idx.contains(i)).expect("outsider");
                acc.rewards_counter().inc_leader_count(&keys()[i].id());
            }
            _ => {
                if g.bool() {
                    acc.clear();
                } else {
                    r.clear();
                }
                model.clear();
            }
        }
    }
    if !early {
        ensure!(r.get_address_counts().is_empty(), "rewards without a committee");
        ensure_eq!(r.generate_withdrawals().len(), 0);
        r.set_committee(com.clone());
    }
    g.nontrivial_if(model.len() >= 2);
    let mut expect: BTreeMap<Address, u32> = BTreeMap::new();
    for (i, c) in &model {
        *expect.entry(addr(*i)).or_default() += c;
    }
    ensure_eq!(acc.rewards_counter().get_address_counts(), expect);
    let w = acc.rewards_counter().generate_withdrawals();
    ensure_eq!(w.iter().map(|w| (w.address, w.amount as u32)).collect::<Vec<_>>(), expect.into_iter().collect::<Vec<_>>(), "withdrawals");
    for i in 0..KEYS {
        ensure_eq!(acc.get_authority_address(&keys()[i].id()), idx.contains(&i).then(|| addr(i)));
    }
    Ok(())
}

pub fn check_types(c: &mut Check) {
    c.sub("accumulate", Budget::new(100_000, 5), accumulate);
    c.sub("base-fee", Budget::new(1_000_000, 5), base_fee);
    c.sub("penalty", Budget::new(1_000_000, 4), gas_penalty);
    c.sub("rewards", Budget::new(50_000, 5), rewards);
}

pub fn check(c: &mut Check) {
    check_types(c);
}
