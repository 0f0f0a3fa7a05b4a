//! Retried operations, under a clock that stands still unless somebody waits.

use std::{
    cell::RefCell,
    time::Duration,
};
use tn_config::RetryConfig;
use vcore::{ensure, ensure_eq, Budget, Check, G, R};

#[derive(Clone, Copy, Debug)]
enum Outcome {
    Ok,
    Transient,
    After(Duration),
    Permanent,
}

fn ms(g: &mut G, max: u64) -> Duration {
    Duration::from_micros(g.below(max * 1000))
}

fn retry(g: &mut G) -> R {
    let default = g.chance(1, 4);
    let mut c = if default {
        RetryConfig::default()
    } else {
        let initial = ms(g, 2_000);
        RetryConfig {
            initial_retry_interval: initial,
            max_retry_interval: if g.chance(1, 8) { ms(g, 3_000) } else { initial + ms(g, 30_000) },
            retry_delay_multiplier: 1.0 + g.below(300) as f64 / 100.0,
            retry_delay_rand_factor: if g.chance(1, 4) { 0.0 } else { g.below(100) as f64 / 100.0 },
            retrying_max_elapsed_time: Some(ms(g, 60_000)),
        }
    };
    if g.chance(1, 5) {
        c.retrying_max_elapsed_time = None;
    }
    let mut plan = vec![];
    for _ in 0..g.urange(1, if c.retrying_max_elapsed_time.is_none() { 40 } else { 200 }) {
        plan.push(match g.below(40) {
            0 => Outcome::Ok,
            1 => Outcome::Permanent,
            2 => Outcome::After(ms(g, 5_000)),
            _ => Outcome::Transient,
        });
    }
    // what comes last ends it
    plan.push(if g.bool() { Outcome::Ok } else { Outcome::Permanent });
    let takes: Vec<Duration> = plan.iter().map(|_| if g.chance(1, 5) { ms(g, 3_000) } else { Duration::ZERO }).collect();
    g.nontrivial_if(!matches!(plan[0], Outcome::Ok | Outcome::Permanent));
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().map_err(|e| e.to_string())?;
    let _frozen = vclock::freeze();
    // (start, end) of every attempt
    let log: RefCell<Vec<(Duration, Duration)>> = RefCell::new(vec![]);
    let result = rt.block_on(async {
        let t0 = tokio::time::Instant::now();
        let seen = RefCell::new(Duration::ZERO);
        let sync = || {
            let now = t0.elapsed();
            vclock::advance(now - *seen.borrow());
            *seen.borrow_mut() = now;
            now
        };
        // nothing happens before the operation is wanted
        let (log, plan, takes, sync) = (&log, &plan, &takes, &sync);
        c.retry(move || async move {
            let i = log.borrow().len();
            let a = sync();
            log.borrow_mut().push((a, a));
            if takes[i] > Duration::ZERO {
                tokio::time::sleep(takes[i]).await;
            }
            let b = sync();
            log.borrow_mut()[i].1 = b;
            match plan[i] {
                Outcome::Ok => Ok(i),
                Outcome::Transient => Err(backoff::Error::transient(i)),
                Outcome::After(d) => Err(backoff::Error::retry_after(i, d)),
                Outcome::Permanent => Err(backoff::Error::permanent(i)),
            }
        })
        .await
    });
    let log = log.into_inner();
    let tick = Duration::from_millis(2); // the resolution of the timer
    let mut interval = c.initial_retry_interval.as_nanos() as f64;
    let cap = c.max_retry_interval.as_nanos() as f64;
    let n = log.len();
    for i in 0..n {
        let last = i + 1 == n;
        match plan[i] {
            Outcome::Ok => {
                ensure!(last, "called again after it succeeded");
                ensure_eq!(result, Ok(i));
            }
            Outcome::Permanent => {
                ensure!(last, "called again after a permanent error");
                ensure_eq!(result, Err(i));
            }
            Outcome::After(d) => {
                ensure!(!last, "gave up though told when to try again");
                let waited = log[i + 1].0 - log[i].1;
                ensure!(waited + tick >= d && waited <= d + tick, "waited {waited:?} instead of the {d:?} asked for");
            }
            Outcome::Transient => {
                let (lo, hi) = (interval * (1.0 - c.retry_delay_rand_factor), interval * (1.0 + c.retry_delay_rand_factor));
                let (lo, hi) = (Duration::from_nanos(lo as u64), Duration::from_nanos(hi as u64 + 2));
                if last {
                    ensure_eq!(result, Err(i), "the last outcome");
                    let Some(max) = c.retrying_max_elapsed_time else { return Err(format!("gave up after {n} attempts without a time limit")) };
                    ensure!(log[i].1 + hi + tick > max, "gave up after {:?} of {max:?}, the next attempt was due in at most {hi:?}", log[i].1);
                } else {
                    let waited = log[i + 1].0 - log[i].1;
                    ensure!(waited + tick >= lo && waited <= hi + tick, "waited {waited:?} before attempt {}, not {lo:?} to {hi:?}", i + 2);
                    if let Some(max) = c.retrying_max_elapsed_time {
                        ensure!(log[i + 1].0 <= max + tick, "attempt {} at {:?}, after the {max:?} allowed", i + 2, log[i + 1].0);
                    }
                }
                interval = if interval >= cap / c.retry_delay_multiplier { cap } else { interval * c.retry_delay_multiplier };
            }
        }
    }
    g.class(match plan[n - 1] {
        Outcome::Ok => "succeeded",
        Outcome::Permanent => "permanent error",
        _ => "gave up",
    });
    if default && c.retrying_max_elapsed_time.is_some() && plan[..n].iter().all(|o| matches!(o, Outcome::Transient)) && takes[..n].iter().all(|t| t.is_zero()) {
        // documented: 5-6 retries in about 30 s, give or take the jitter
        ensure!((5..=11).contains(&n), "{n} attempts by default");
        g.class("defaults to the end");
    }
    Ok(())
}

pub fn check(c: &mut Check) {
    c.sub("retry", Budget::new(40_000, 10), retry);
}
