//! C02: a failure while formatting is reported and stops the output.

use crate::cb::{self, Mode};
use crate::exec::{self, calm, diff, guarded, Case, Caught};
use crate::gen::GenCfg;
use crate::kits::{draw_kit, Kit, Wide};
use crate::props::Prop;
use crate::sim::{self, Res};
use crate::sink::{draw_hard_kind, HardKind, Plan, Sink};
use crate::{ensure, tr, viol, with_kit};

pub static PROP: Prop = Prop {
    id: "C02",
    run,
    quick: 1600000,
    thorough_factor: 50,
    cross_process: false,
    rule: "a run generates a stream and then fails, one attempt each, writer calls (every call of the fault-free run if there are at most 64, a sample otherwise), language callbacks likewise, and disk capacities; non-trivial if at least one such failure fired; distinct by the hash of its events",
};

fn run() -> Res {
    // The custom language has hooks and items that can fail.
    let k = if sim::flip(1, 3) { 11 } else { draw_kit() };
    with_kit!(k, K => one::<K>())
}

/// All of `0..n` if that is feasible, a sample of it otherwise.
pub fn indices(n: u64, all: u64, some: u64) -> Vec<u64> {
    if n <= all {
        (0..n).collect()
    } else {
        let mut v: Vec<u64> = vec![0, n - 1];
        for _ in 0..some {
            v.push(sim::draw(n));
        }
        v.sort();
        v.dedup();
        v
    }
}

struct Ref {
    data: Vec<u8>,
    calls: u64,
    callbacks: u64,
}

fn one<K: Kit>() -> Res {
    let max = if sim::flip(1, 200) { 100 } else { *sim::pick(&[4u64, 2, 8, 16]) };
    let _w = sim::flip(1, 50).then(Wide::new);
    let case = Case::<K>::gen(&GenCfg::full(max));
    let salt = sim::draw(1 << 12);
    let t = calm("building", || case.build(salt))?;
    let (cm, fc, file) = (&case.cm, &case.fc, case.file);
    let io = sim::flip(1, 2);
    let benign = if sim::flip(1, 3) { Plan::benign() } else { Plan::default() };

    // Without faults.
    cb::reset();
    let mut s = Sink::new(0, Plan::default()).bound(1 << 23);
    let r = exec::to_sink::<K>(&t, cm, fc, file, io, &mut s);
    ensure!(matches!(r, Ok(Ok(()))), "fault_free", "{}: fault-free formatting: {r:?}", K::NAME);
    let good = Ref { data: s.data, calls: s.calls, callbacks: cb::count() };
    tr!("fault-free: {} calls, {} callbacks, {:?}", good.calls, good.callbacks, String::from_utf8_lossy(&good.data));
    sim::hash_bytes("doc", &good.data);

    // The writer fails for good at one of its calls.
    let transient = sim::flip(1, 4);
    let torn = sim::flip(1, 3);
    for at in indices(good.calls, 64, 24) {
        let kind = draw_hard_kind(io, true);
        let plan = Plan { hard: Some((at, kind)), transient, torn, ..Plan::default() };
        let mut s = Sink::new(1, plan).bound(good.data.len());
        cb::reset();
        let r = exec::to_sink::<K>(&t, cm, fc, file, io, &mut s);
        after_write_failure::<K>(&r, &s, kind, &good, at)?;
    }

    // The disk is full after some bytes.
    let n = good.data.len() as u64;
    let caps = indices(n + 2, 24, 8);
    for cap in caps {
        let plan = Plan { capacity: Some(cap as usize), ..benign.clone() };
        let mut s = Sink::new(2, plan).bound(good.data.len());
        cb::reset();
        let r = exec::to_sink::<K>(&t, cm, fc, file, io, &mut s);
        if s.failed {
            let Ok(r) = &r else { viol!("panic", "{}: full disk: {r:?}", K::NAME) };
            ensure!(r.is_err(), "swallowed", "{}: disk full after {cap} of {n} bytes, formatting succeeded", K::NAME);
            ensure!(s.after_fail == 0, "write_after_failure", "{}: {} writes after the disk was full", K::NAME, s.after_fail);
            ensure!(
                good.data.starts_with(&s.data) && s.data.len() <= cap as usize,
                "not_a_prefix",
                "{}: disk full after {cap} bytes: {}",
                K::NAME,
                diff(&s.text(), &String::from_utf8_lossy(&good.data))
            );
        } else {
            ensure!(
                matches!(r, Ok(Ok(()))) && s.data == good.data,
                "fault_free",
                "{}: nothing failed, but {r:?}: {}",
                K::NAME,
                diff(&s.text(), &String::from_utf8_lossy(&good.data))
            );
        }
    }

    // A hook or item of the language fails.
    if K::CUSTOM {
        for at in indices(good.callbacks, 48, 24) {
            let crash = sim::flip(1, 4);
            let mode = if crash { Mode::Crash } else { Mode::Err };
            let target = sim::draw(4);
            cb::plan(Some(at), mode);
            let mut s = Sink::new(3, benign.clone()).bound(good.data.len());
            let r: Result<bool, Caught> = if target == 0 {
                guarded(|| exec::to_lines::<K>(&t, cm, fc, file).is_ok())
            } else {
                exec::to_sink::<K>(&t, cm, fc, file, io, &mut s).map(|r| r.is_ok())
            };
            let (fired, after) = (cb::poisoned(), cb::after());
            cb::reset();
            ensure!(fired || matches!(r, Ok(true)), "fault_free", "{}: nothing failed, but {r:?}", K::NAME);
            if !fired {
                continue;
            }
            match (&r, mode) {
                (Ok(true), _) => viol!("swallowed", "{}: callback {at} failed ({mode:?}), formatting succeeded", K::NAME),
                (Ok(false), _) => {}
                (Err(Caught::Injected(_)), Mode::Crash) => {}
                (Err(c), _) => viol!("panic", "{}: callback {at} failed ({mode:?}): {c:?}", K::NAME),
            }
            ensure!(after == 0, "write_after_failure", "{}: {after} uses of writer or hooks after callback {at} failed", K::NAME);
            ensure!(
                good.data.starts_with(&s.data),
                "not_a_prefix",
                "{}: callback {at} failed: {}",
                K::NAME,
                diff(&s.text(), &String::from_utf8_lossy(&good.data))
            );
        }
    }
    Ok(())
}

fn after_write_failure<K: Kit>(
    r: &Result<genco::fmt::Result, Caught>,
    s: &Sink,
    kind: HardKind,
    good: &Ref,
    at: u64,
) -> Res {
    let text = || diff(&s.text(), &String::from_utf8_lossy(&good.data));
    if !s.failed {
        // Torn writes may leave nothing to be written afterwards.
        ensure!(
            matches!(r, Ok(Ok(()))) && s.data == good.data,
            "fault_free",
            "{}: no failure was reported to the caller of write, but {r:?}: {}",
            K::NAME,
            text()
        );
        return Ok(());
    }
    match r {
        Ok(Ok(())) => viol!("swallowed", "{}: write call {at} failed with {kind:?}, formatting succeeded", K::NAME),
        Ok(Err(_)) => {}
        Err(Caught::Injected(_)) if kind == HardKind::Crash => {}
        Err(c) => viol!("panic", "{}: write call {at} failed with {kind:?}: {c:?}", K::NAME),
    }
    ensure!(
        s.after_fail == 0,
        "write_after_failure",
        "{}: {} writes after call {at} failed with {kind:?}",
        K::NAME,
        s.after_fail
    );
    ensure!(good.data.starts_with(&s.data), "not_a_prefix", "{}: call {at} failed with {kind:?}: {}", K::NAME, text());
    Ok(())
}
