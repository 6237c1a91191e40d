//! Executing one simulated run.

use std::panic::{catch_unwind, AssertUnwindSafe};

use crate::exec::Caught;
use crate::props::Prop;
use crate::sim::{self, Ended, Source, Violation};
use crate::{alloc, cb, env};

pub struct Outcome {
    pub violation: Option<Violation>,
    pub ended: Ended,
}

/// Every run has a thread of its own, so that it starts without thread-local
/// leftovers and a failing run is a function of its tape.
pub fn exec(p: &'static Prop, src: Source<'_>, verbose: bool, keep_stats: bool) -> Outcome {
    sim::begin(src, verbose, keep_stats);
    let f = p.run;
    let h = std::thread::Builder::new()
        .stack_size(4 << 20)
        .spawn(move || {
            alloc::reset_thread();
            let e = sim::draw(1 << 16);
            env::set_thread_seed(sim::mix(e, 0xe0));
            env::set_clock_base(sim::mix(e, 0xe1) % (1 << 60));
            env::set_env_salt(sim::mix(e, 0xe2));
            cb::reset();
            let r = catch_unwind(AssertUnwindSafe(f));
            alloc::reset_thread();
            cb::reset();
            let _b = alloc::bypass();
            match r {
                Ok(Ok(())) => None,
                Ok(Err(v)) => Some(v),
                Err(p) => Some(Violation::new("panic", format!("{:?}", Caught::from(p)))),
            }
        })
        .expect("spawn run");
    let v = match h.join() {
        Ok(v) => v,
        Err(_) => Some(Violation::new("panic", "the run's thread died")),
    };
    let mut ended = sim::end();
    let violation = match ended.pending.take() {
        Some(p) => Some(p),
        None => v,
    };
    Outcome { violation, ended }
}

pub fn run_seed(verif_seed: u64, prop: &str, idx: u64) -> u64 {
    sim::mix(sim::mix_str(sim::mix(verif_seed, 0x5eed), prop), idx)
}

/// Shrinks a failing tape: fewer choices, then simpler ones, as long as a
/// violation of the same class remains.
pub fn shrink(p: &'static Prop, tape: &[u32], class: &str, max_execs: u64, max_secs: u64) -> (Vec<u32>, u64) {
    let start = std::time::Instant::now();
    let mut execs = 0u64;
    let mut best = tape.to_vec();
    let try_tape = |t: &[u32], execs: &mut u64| -> Option<usize> {
        *execs += 1;
        let o = exec(p, Source::Tape(t), false, false);
        match o.violation {
            Some(v) if v.class == class => Some(o.ended.used),
            _ => None,
        }
    };
    match try_tape(&best, &mut execs) {
        Some(used) => best.truncate(used),
        None => return (best, execs),
    }
    let spent = |execs: u64| execs >= max_execs || start.elapsed().as_secs() >= max_secs;
    loop {
        let before = best.clone();
        // Delete chunks.
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut at = 0;
            while at + size <= best.len() && !spent(execs) {
                let mut c = best.clone();
                c.drain(at..at + size);
                if let Some(used) = try_tape(&c, &mut execs) {
                    c.truncate(used);
                    best = c;
                } else {
                    at += size;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // Zero chunks.
        let mut size = (best.len() / 4).max(1);
        loop {
            let mut at = 0;
            while at < best.len() && !spent(execs) {
                let end = (at + size).min(best.len());
                if best[at..end].iter().any(|v| *v != 0) {
                    let mut c = best.clone();
                    c[at..end].fill(0);
                    if let Some(used) = try_tape(&c, &mut execs) {
                        c.truncate(used.max(1).min(c.len()));
                        best = c;
                    }
                }
                at += size;
            }
            if size == 1 {
                break;
            }
            size = (size / 2).max(1);
        }
        // Smaller values.
        for i in 0..best.len() {
            while i < best.len() && best[i] > 0 && !spent(execs) {
                let mut done = true;
                for v in [best[i] / 2, best[i] - 1] {
                    let mut c = best.clone();
                    c[i] = v;
                    if let Some(used) = try_tape(&c, &mut execs) {
                        c.truncate(used.max(i + 1).min(c.len()));
                        best = c;
                        done = false;
                        break;
                    }
                }
                if done {
                    break;
                }
            }
        }
        if best == before || spent(execs) {
            while best.last() == Some(&0) {
                best.pop();
            }
            return (best, execs);
        }
    }
}
