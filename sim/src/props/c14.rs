//! C14: building and formatting release everything they took, however they end.
//!
//! The histories of the other properties are run here three times in a row with
//! the same choices, while every block of memory the thread takes is recorded.
//! What the third time leaves behind beyond the second has leaked.

use genco::fmt;
use genco::prelude::*;

use crate::exec::{self, calm, guarded, Case, Caught};
use crate::gen::{self, GenCfg};
use crate::kits::{draw_kit, Kit};
use crate::props::{self, Prop};
use crate::sim::{self, Res};
use crate::sink::{draw_hard_kind, Plan, Sink};
use crate::{alloc, cb, ensure, tr, viol, with_kit};

pub static PROP: Prop = Prop {
    id: "C14",
    run,
    quick: 240000,
    thorough_factor: 50,
    cross_process: false,
    rule: "a run executes one history (of building, formatting, walking, templates, iterators or damaged streams, with failures of writers, callbacks, iterators, clones and allocations) three times with the same choices and compares the memory held after each; non-trivial if a fault fired; distinct by the hash of its events",
};

fn run() -> Res {
    let which = sim::weighted(&[8, 4, 4, 4, 2, 2, 4, 4, 5, 5, 1, 3]);
    let f: fn() -> Res = match which {
        0 => lives,
        1 => props::c01::PROP.run,
        2 => props::c02::PROP.run,
        3 => props::c03::PROP.run,
        4 => props::c06::PROP.run,
        5 => props::c07::PROP.run,
        6 => props::c08::PROP.run,
        7 => props::c09::PROP.run,
        8 => props::c10::PROP.run,
        9 => props::c11::PROP.run,
        10 => props::c12::PROP.run,
        _ => props::c13::PROP.run,
    };
    sim::stat(["own", "c01", "c02", "c03", "c06", "c07", "c08", "c09", "c10", "c11", "c12", "c13"][which]);
    alloc::track(true);
    let mark = sim::mark();
    let mut held: Vec<(usize, usize)> = Vec::new();
    let mut end = 0;
    let mut rounds = 3;
    let more = |h: &[(usize, usize)], i: usize| h[i].0 > h[i - 1].0 || h[i].1 > h[i - 1].1;
    while held.len() < rounds {
        let round = held.len();
        if round > 0 {
            sim::rewind(mark, end);
        }
        tr!("round {round}");
        // What the history itself finds is not the question here.
        let r = std::panic::catch_unwind(f);
        alloc::reset_thread_but_tracking();
        cb::reset();
        drop(r);
        drop(sim::take_pending());
        if round == 0 {
            end = sim::mark();
        }
        held.push(alloc::tracked());
        // Something that is kept for later use would stop growing.
        if round == 2 && more(&held, 2) {
            rounds = 11;
        }
    }
    let sizes = alloc::tracked_sizes();
    alloc::track(false);
    sim::ev("rounds", rounds as u64, 0);
    if rounds > 3 {
        let grew = (3..rounds).filter(|i| more(&held, *i)).count();
        ensure!(
            grew < 7,
            "leak",
            "(blocks, bytes) held after each of {rounds} equal histories: {held:?}; sizes in the end: {:?}",
            sizes.iter().rev().take(40).collect::<Vec<_>>()
        );
    }
    Ok(())
}

/// A stream is born, copied, half used and dropped.
fn lives() -> Res {
    let k = draw_kit();
    with_kit!(k, K => life::<K>())
}

fn life<K: Kit>() -> Res {
    let case = Case::<K>::gen(&GenCfg::full(*sim::pick(&[8u64, 3, 20])));
    let salt = sim::draw(1 << 10);
    let (cm, fc) = (&case.cm, &case.fc);
    let n = case.m.items.len() as u64;
    let io = sim::flip(1, 2);
    let out = guarded(|| {
        let t = case.build(salt);
        let mut kept: Vec<Tokens<K::L>> = Vec::new();
        for _ in 0..sim::draw(6) {
            match sim::draw(10) {
                0 => kept.push(t.clone()),
                // Iterators which are not used up.
                1 => {
                    let mut i = t.clone().into_iter();
                    for _ in 0..sim::draw(n + 2) {
                        drop(i.next());
                    }
                    if sim::flip(1, 2) {
                        kept.push(i.collect());
                    }
                }
                2 => {
                    let mut w = t.walk_imports();
                    for _ in 0..sim::draw(n + 2) {
                        if w.next().is_none() {
                            break;
                        }
                    }
                }
                3 => {
                    let mut i = t.iter();
                    for _ in 0..sim::draw(n + 2) {
                        let _ = i.next();
                    }
                    if sim::flip(1, 2) {
                        kept.push(i.collect());
                    }
                }
                // Sessions which are given up, writers which are not asked for
                // their content.
                4 => {
                    let c = fc.config::<K::L>();
                    let cfg = K::cfg(cm);
                    let mut w = fmt::VecWriter::new();
                    let mut f = w.as_formatter(&c);
                    let _ = exec::fmt_with::<K>(&t, &mut f, &cfg, sim::flip(1, 2));
                    if sim::flip(1, 2) {
                        drop(w.into_vec());
                    }
                }
                5 => drop(exec::to_lines::<K>(&t, cm, fc, case.file)),
                6 => drop(exec::to_text::<K>(&t, cm, fc, case.file)),
                7 => {
                    let mut s = Sink::new(1, Plan { hard: Some((sim::draw(20), draw_hard_kind(io, true))), ..Plan::default() });
                    let r = exec::to_sink::<K>(&t, cm, fc, case.file, io, &mut s);
                    drop(r);
                }
                8 => {
                    let mut x = kept.pop().unwrap_or_default();
                    x.append(&t);
                    x.append(t.clone());
                    x.extend(t.iter().cloned());
                    kept.push(x);
                }
                _ => drop(kept.pop()),
            }
        }
        if sim::flip(1, 4) {
            kept.sort_by_key(|t| t.iter().count());
            kept.dedup();
        }
        if sim::flip(1, 4) {
            let all: Tokens<K::L> = kept.into_iter().flatten().collect();
            return vec![all];
        }
        kept
    });
    match out {
        Ok(kept) => drop(kept),
        Err(Caught::Panic(p)) => viol!("panic", "{p}"),
        Err(_) => {}
    }
    // The same under memory pressure.
    let sub = gen::flat::<K>(&case.ops);
    if sub.len() <= 12 {
        for _ in 0..sim::range(1, 3) {
            let at = sim::draw(40);
            alloc::set_fail_at(Some(at), false);
            let r = guarded(|| {
                let t = case.build(salt);
                let u = t.clone();
                drop(t);
                let text = exec::to_text::<K>(&u, cm, fc, false);
                (u, text)
            });
            if alloc::failed() > 0 {
                sim::fault("alloc_failure", at, 0);
            }
            alloc::set_fail_at(None, false);
            drop(r);
        }
    }
    let _ = calm("build", || drop(case.build(salt)))?;
    Ok(())
}
