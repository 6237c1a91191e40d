//! C05: generated files are reproducible byte for byte.

use crate::exec::{self, calm, diff, guarded, Case};
use crate::gen::GenCfg;
use crate::kits::{draw_kit, Kit, Wide};
use crate::props::{self, Prop};
use crate::sim::{self, Res, Violation};
use crate::sink::{Plan, Sink};
use crate::{alloc, ensure, env, tr, with_kit};

pub static PROP: Prop = Prop {
    id: "C05",
    run,
    quick: 1600000,
    thorough_factor: 50,
    cross_process: true,
    rule: "a run formats one stream several times, varying everything that must not matter: owned and static strings, thread, hash seeds, clock, environment, addresses, earlier work and writer; afterwards the same runs are compared between processes with different environments and pasts; non-trivial if at least one such variation was applied to a stream with imports; distinct by the hash of its events",
};

fn run() -> Res {
    let k = draw_kit();
    with_kit!(k, K => one::<K>())
}

struct Vary {
    salt: u64,
    thread: bool,
    hash_seed: u64,
    clock: u64,
    env: u64,
    shuffle: u64,
    past: u64,
    past_kit: u64,
    writer: u64,
}

fn draw_vary() -> Vary {
    let some = |n: u64| if sim::flip(1, 2) { 1 + sim::draw(n) } else { 0 };
    Vary {
        salt: some(1 << 12),
        thread: sim::flip(1, 2),
        hash_seed: some(1 << 12),
        clock: some(1 << 20),
        env: some(1 << 12),
        shuffle: some(1 << 12),
        past: some(3),
        past_kit: draw_kit(),
        writer: sim::draw(3),
    }
}

/// Unrelated work done earlier by the same thread.
fn past<J: Kit>(n: u64) -> Res {
    for _ in 0..n {
        let c = Case::<J>::gen(&GenCfg::full(5));
        let t = calm("earlier work", || c.build(1))?;
        if sim::flip(1, 3) {
            let plan = Plan { hard: Some((sim::draw(8), crate::sink::HardKind::FmtErr)), ..Plan::default() };
            let mut s = Sink::new(7, plan);
            let _ = exec::to_sink::<J>(&t, &c.cm, &c.fc, c.file, false, &mut s);
        } else {
            let _ = calm("earlier work", || exec::to_lines::<J>(&t, &c.cm, &c.fc, c.file))?;
        }
    }
    Ok(())
}

fn produce<K: Kit>(case: &Case<K>, v: &Vary) -> Res<Vec<u8>> {
    if v.past > 0 {
        sim::fault("earlier_work", v.past, v.past_kit);
        with_kit!(v.past_kit, J => past::<J>(v.past))?;
    }
    if v.env > 0 {
        env::set_env_salt(sim::mix(v.env, 3));
    }
    if v.clock > 0 {
        env::set_clock_base(sim::mix(v.clock, 4) % (1 << 61));
        sim::fault("clock_jump", v.clock, 0);
    }
    if v.shuffle > 0 {
        sim::fault("addresses_moved", v.shuffle, 0);
    }
    alloc::set_shuffle(v.shuffle);
    let r = guarded(|| {
        let t = case.build(v.salt);
        let mut s = Sink::new(0, Plan::default()).bound(1 << 20);
        let (cm, fc, file) = (&case.cm, &case.fc, case.file);
        let r = match v.writer {
            0 => exec::to_io::<K, _>(&t, cm, fc, file, &mut s),
            1 => exec::to_fmt::<K, _>(&t, cm, fc, file, &mut s),
            _ => exec::to_text::<K>(&t, cm, fc, file).map(|x| s.data = x.into_bytes()),
        };
        r.map(|_| s.data)
    });
    alloc::set_shuffle(0);
    match r {
        Ok(Ok(d)) => Ok(d),
        other => Err(Violation::new("error", format!("{}: {other:?}", K::NAME))),
    }
}

fn one<K: Kit>() -> Res {
    let max = if sim::flip(1, 100) { 150 } else { *sim::pick(&[6u64, 3, 20]) };
    let mut case = {
        let _w = (max == 150 || sim::flip(1, 30)).then(Wide::new);
        Case::<K>::gen(&GenCfg::full(max))
    };
    case.file = case.file || sim::flip(1, 2);
    let has_imports = !case.m.imports().is_empty();
    let variant = props::digest_mode();
    let base = Vary {
        salt: variant.unwrap_or(0),
        thread: false,
        hash_seed: 0,
        clock: 0,
        env: 0,
        shuffle: variant.unwrap_or(0),
        past: 0,
        past_kit: 0,
        writer: 0,
    };
    let first = produce::<K>(&case, &base)?;
    tr!("first: {:?}", String::from_utf8_lossy(&first));
    if variant.is_some() {
        props::add_digest(&first);
        return Ok(());
    }
    sim::hash_bytes("doc", &first);
    let n = sim::range(1, 3);
    for _ in 0..n {
        let v = draw_vary();
        sim::sched_ev("vary", v.salt ^ v.hash_seed << 12 ^ v.env << 24, v.shuffle ^ u64::from(v.thread) << 20);
        let got = if v.thread {
            sim::fault("other_thread", v.hash_seed, 0);
            std::thread::scope(|s| {
                s.spawn(|| {
                    alloc::reset_thread();
                    crate::cb::reset();
                    env::set_thread_seed(sim::mix(v.hash_seed, 9));
                    produce::<K>(&case, &v)
                })
                .join()
                .unwrap_or_else(|_| Err(Violation::new("panic", "the thread died")))
            })?
        } else {
            produce::<K>(&case, &v)?
        };
        if has_imports {
            sim::mark_nontrivial();
        }
        ensure!(
            got == first,
            "not_reproducible",
            "{}: {}",
            K::NAME,
            diff(&String::from_utf8_lossy(&got), &String::from_utf8_lossy(&first))
        );
    }
    if has_imports {
        sim::stat("streams_with_imports");
    }
    Ok(())
}
