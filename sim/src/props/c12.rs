//! C12: no token stream makes formatting panic, abort or hang.

use genco::fmt;
use genco::prelude::*;
use genco::tokens::Item;

use crate::custom::CustomK;
use crate::exec::{self, fmt_with, guarded, Caught, FmtCfg};
use crate::gen::{self, GenCfg};
use crate::kits::{raw_item, JsK, Kit, Lr, NixK};
use crate::model::{MItem, Unit};
use crate::props::Prop;
use crate::sim::{self, Res};
use crate::sink::{draw_hard_kind, Plan, Sink};
use crate::{alloc, cb, ensure, tr, viol, with_kit};

pub static PROP: Prop = Prop {
    id: "C12",
    run,
    quick: 50000,
    thorough_factor: 50,
    cross_process: false,
    rule: "a run makes one stream - random items, a well-formed stream with a few items deleted, doubled, swapped or inserted, deep evaluations, deep quotes, extreme indentation, very long streams, deeply nested Nix variables - and formats it several times in different ways, with and without faults of writer, hooks and allocator, also going on with the same formatter after an error; non-trivial if a fault fired or the stream is malformed; distinct by the hash of its events",
};

fn run() -> Res {
    match sim::weighted(&[8, 8, 3, 3, 4, 1, 1]) {
        0 => {
            let k = crate::kits::draw_kit();
            with_kit!(k, K => attempt::<K>(random::<K>(), true))
        }
        1 => {
            let k = crate::kits::draw_kit();
            with_kit!(k, K => attempt::<K>(damaged::<K>(), true))
        }
        2 => {
            let k = crate::kits::draw_kit();
            with_kit!(k, K => attempt::<K>(deep::<K>(), false))
        }
        3 => {
            let k = crate::kits::draw_kit();
            with_kit!(k, K => attempt::<K>(deep_quotes::<K>(), true))
        }
        4 => {
            let k = crate::kits::draw_kit();
            with_kit!(k, K => attempt::<K>(indented::<K>(), true))
        }
        5 => {
            if sim::flip(1, 2) {
                attempt::<CustomK>(long::<CustomK>(), false)
            } else {
                attempt::<JsK>(long::<JsK>(), false)
            }
        }
        _ => towers(),
    }
}

type Items<K> = Vec<MItem<<K as Kit>::S>>;

fn any_item<K: Kit>() -> MItem<K::S> {
    match sim::weighted(&[6, 3, 2, 3, 2, 2, 4, 4, 4, 4, 3, 2]) {
        0 => MItem::Lit(gen::gen_text().str().to_string()),
        1 => MItem::Space,
        2 => MItem::Push,
        3 => MItem::Line,
        4 => MItem::Ind(1),
        5 => MItem::Ind(-1),
        6 => MItem::OQ(sim::flip(1, 2)),
        7 => MItem::CQ,
        8 => MItem::OE,
        9 => MItem::CE,
        10 => MItem::Imp(K::gen_spec()),
        _ => MItem::Reg(K::gen_spec()),
    }
}

fn random<K: Kit>() -> Items<K> {
    let n = sim::draw(60);
    (0..n).map(|_| any_item::<K>()).collect()
}

/// A well-formed stream with a few scratches.
fn damaged<K: Kit>() -> Items<K> {
    let mut v = gen::flat::<K>(&gen::gen_ops::<K>(&GenCfg { deep: false, ..GenCfg::full(14) }));
    for _ in 0..sim::range(1, 4) {
        if v.is_empty() {
            v.push(any_item::<K>());
            continue;
        }
        let i = sim::draw(v.len() as u64) as usize;
        match sim::draw(5) {
            0 => {
                v.remove(i);
            }
            1 => v.insert(i, v[i].clone()),
            2 => {
                let j = sim::draw(v.len() as u64) as usize;
                v.swap(i, j);
            }
            3 => v.insert(i, any_item::<K>()),
            _ => v.truncate(i),
        }
    }
    v
}

/// Evaluations in strings in evaluations in strings.
fn deep<K: Kit>() -> Items<K> {
    let n = match sim::draw(4) {
        0 => sim::draw(20),
        1 => sim::draw(300),
        2 => sim::draw(3_000),
        _ => sim::draw(20_000),
    };
    let close = match sim::draw(3) {
        0 => n,
        1 => sim::draw(n + 2),
        _ => 0,
    };
    let text = sim::flip(1, 2);
    let mut v = Vec::new();
    for _ in 0..n {
        v.push(MItem::OQ(true));
        if text {
            v.push(MItem::Lit("x\"".into()));
        }
        v.push(MItem::OE);
    }
    for _ in 0..close {
        v.push(MItem::CE);
        if text {
            v.push(MItem::Lit("y".into()));
        }
        v.push(MItem::CQ);
    }
    v
}

/// Quotes in quotes, mixed with evaluations.
fn deep_quotes<K: Kit>() -> Items<K> {
    let n = match sim::draw(3) {
        0 => sim::draw(12),
        1 => sim::draw(200),
        _ => sim::draw(20_000),
    };
    let evals = sim::draw(3);
    let mut v: Items<K> = Vec::new();
    let mut stack = Vec::new();
    for i in 0..n {
        if evals == 1 || (evals == 2 && i % 3 == 0) {
            v.push(MItem::OQ(true));
            v.push(MItem::OE);
            stack.push(2);
        } else {
            v.push(MItem::OQ(false));
            stack.push(1);
        }
        if i < 12 && sim::flip(1, 3) {
            v.push(MItem::Lit("\"\\\n".into()));
        }
    }
    if sim::flip(2, 3) {
        let keep = if sim::flip(1, 2) { 0 } else { sim::draw(stack.len() as u64 + 1) as usize };
        while stack.len() > keep {
            if stack.pop() == Some(2) {
                v.push(MItem::CE);
            }
            v.push(MItem::CQ);
        }
    }
    v
}

fn indented<K: Kit>() -> Items<K> {
    let n = sim::range(1, 40);
    let mut v = Vec::new();
    let mut texts = 0;
    for _ in 0..n {
        v.push(match sim::weighted(&[4, 4, 2, 2, 1, 1, 1]) {
            0 => MItem::Ind(*sim::pick(&[1i16, -1, i16::MAX, i16::MIN, i16::MIN + 1, 101, -101, 0, 1000])),
            1 if texts < 4 => {
                texts += 1;
                MItem::Lit(gen::gen_text().str().to_string())
            }
            1 | 2 => MItem::Push,
            3 => MItem::Line,
            4 => MItem::OQ(false),
            5 => MItem::CQ,
            _ => MItem::Space,
        });
    }
    v
}

fn long<K: Kit>() -> Items<K> {
    let n = sim::range(1_000, 60_000);
    let mut v = Vec::new();
    let unit: Items<K> = (0..sim::range(1, 6)).map(|_| any_item::<K>()).collect();
    while (v.len() as u64) < n {
        v.extend(unit.iter().cloned());
    }
    // Indentation adds up.
    let (mut level, mut sum) = (0i64, 0i64);
    let keep = v.iter().position(|i| {
        if let MItem::Ind(n) = i {
            level += i64::from(*n);
        }
        sum += level.max(0);
        sum > 500_000
    });
    v.truncate(keep.unwrap_or(v.len()));
    v
}

/// No formatting of these items is longer than this.
fn at_most<K: Kit>(items: &[MItem<K::S>], unit: usize) -> usize {
    // Strings in strings have an indentation of their own.
    let nested = items.iter().filter(|i| matches!(i, MItem::OQ(_))).count() > 1;
    let mut level = 0i64;
    let mut all = 0usize;
    for i in items {
        all += match i {
            MItem::Lit(s) => 2048 * s.len(),
            MItem::Imp(_) | MItem::Reg(_) => 256 + 64 * format!("{i:?}").len(),
            _ => 256,
        };
        if let MItem::Ind(n) = i {
            level += if nested { i64::from(*n).max(0) } else { i64::from(*n) };
        }
        // Quotes which are still open when the items end are written then,
        // with the indentation reached by then.
        all += level.max(0) as usize * unit;
    }
    all + level.max(0) as usize * unit
}

fn extreme<K: Kit>(items: &[MItem<K::S>]) -> bool {
    items.iter().any(|i| matches!(i, MItem::Ind(n) if n.unsigned_abs() > 50)) || items.len() > 2_000
}

fn attempt<K: Kit>(items: Items<K>, faults: bool) -> Res {
    tr!("{}: {} items: {:?}", K::NAME, items.len(), items.iter().take(80).collect::<Vec<_>>());
    let salt = sim::draw(16);
    let by_extend = sim::flip(1, 2);
    let t = exec::calm("building", || {
        if by_extend {
            let mut lr = Lr::new(1, salt);
            items.iter().map(|i| raw_item::<K>(i, &mut lr)).collect::<Tokens<K::L>>()
        } else {
            gen::build_raw::<K>(&items, salt)
        }
    })?;
    sim::ev("items", items.len() as u64, t.iter().count() as u64);
    let cm = if sim::flip(1, 2) { K::gen_cfg() } else { K::CM::default() };
    let mut fc = FmtCfg::gen();
    if extreme::<K>(&items) && !matches!(fc.unit, Some(Unit::Space(0))) {
        fc.unit = *sim::pick(&[Some(Unit::Space(1)), Some(Unit::Tab), None, Some(Unit::Space(0))]);
    }
    let unit = match fc.unit {
        Some(Unit::Space(n)) => n.max(1),
        Some(Unit::Tab) => 1,
        None => 8,
    };
    let longest = at_most::<K>(&items, unit);
    let mut first: Option<(bool, Vec<u8>)> = None;
    for round in 0..2u64 {
        let file = round == 1 && sim::flip(1, 2);
        let io = sim::flip(1, 2);
        let mut sink = Sink::new(round, Plan::default()).bound(longest);
        let what = || format!("{}: formatting {} items (file {file}, io {io})", K::NAME, items.len());
        match exec::to_sink::<K>(&t, &cm, &fc, file, io, &mut sink) {
            Ok(r) => {
                sim::ev(if r.is_ok() { "ok" } else { "err" }, sink.calls, sink.data.len() as u64);
                if r.is_err() {
                    sim::mark_nontrivial();
                }
                if !file {
                    let this = (r.is_ok(), std::mem::take(&mut sink.data));
                    match &first {
                        Some(f) => ensure!(*f == this, "unstable", "{}: two attempts differ", what()),
                        None => first = Some(this),
                    }
                }
            }
            Err(c) => viol!("panic", "{}: {c:?}", what()),
        }
    }
    if let Err(c) = guarded(|| exec::to_lines::<K>(&t, &cm, &fc, false).map(drop)) {
        viol!("panic", "{}: formatting into lines: {c:?}", K::NAME);
    }
    // The imports are there to be listed, too.
    if let Err(c) = guarded(|| t.walk_imports().count()) {
        viol!("panic", "{}: walking imports: {c:?}", K::NAME);
    }
    if !faults {
        return Ok(());
    }
    // With faults.
    for _ in 0..sim::draw(3) {
        let file = sim::flip(1, 2);
        let io = sim::flip(1, 2);
        let mut plan = Plan::benign();
        let mut oom = None;
        match sim::draw(4) {
            0 => {}
            1 => plan.hard = Some((sim::draw(12), draw_hard_kind(io, true))),
            2 => {
                let mode = if sim::flip(1, 2) { cb::Mode::Err } else { cb::Mode::Crash };
                cb::plan(Some(sim::draw(12)), mode)
            }
            // Standard containers are not safe in this respect when large.
            _ if items.len() < 30 && !K::CUSTOM => oom = Some(sim::draw(30)),
            _ => {}
        }
        let mut sink = Sink::new(9, plan).bound(longest);
        alloc::set_fail_at(oom, false);
        let r = exec::to_sink::<K>(&t, &cm, &fc, file, io, &mut sink);
        let failed = alloc::failed();
        alloc::set_fail_at(None, false);
        cb::plan(None, cb::Mode::Err);
        if failed > 0 {
            sim::fault("alloc_failure", oom.unwrap_or(0), 0);
        }
        match r {
            Ok(_) => {}
            Err(Caught::Injected(_)) => {}
            Err(Caught::Oom) if failed > 0 => {}
            Err(c) => viol!("panic", "{}: formatting {} items with faults: {c:?}", K::NAME, items.len()),
        }
    }
    // Going on with a formatter that reported an error.
    let c = fc.config::<K::L>();
    let cfg = K::cfg(&cm);
    let clean: Tokens<K::L> = quote!(a { $("b") });
    let r = guarded(|| {
        let mut w = fmt::FmtWriter::new(String::new());
        let mut f = w.as_formatter(&c);
        for _ in 0..2 {
            let _ = fmt_with::<K>(&t, &mut f, &cfg, false);
            let _ = fmt_with::<K>(&clean, &mut f, &cfg, false);
            let _ = std::fmt::Write::write_str(&mut f, "text");
            let _ = fmt_with::<K>(&t, &mut f, &cfg, true);
        }
    });
    if let Err(c) = r {
        viol!("panic", "{}: formatting repeatedly: {c:?}", K::NAME);
    }
    Ok(())
}

/// Nix variables whose values use variables whose values use variables.
fn towers() -> Res {
    let n = match sim::draw(3) {
        0 => sim::draw(10),
        1 => sim::draw(100),
        _ => sim::draw(1_500),
    };
    tr!("tower of {n} variables");
    let same = sim::flip(1, 4);
    let scoped = sim::flip(1, 2);
    let mut t: nix::Tokens = quote!($(nix::inherit("a.b", "c")));
    for i in 0..n {
        let name = if same { "v".to_string() } else { format!("v{i}") };
        let mut next = nix::Tokens::new();
        next.append("x = ");
        next.append(Item::Lang(0, Box::new(nix::variable(name, t))));
        t = next;
    }
    let cfg = NixK::cfg(&scoped);
    let c = FmtCfg::DEFAULT.config::<genco::lang::Nix>();
    sim::ev("tower", n, 0);
    let r = guarded(|| {
        let mut w = fmt::FmtWriter::new(String::new());
        t.format_file(&mut w.as_formatter(&c), &cfg).is_ok()
    });
    match r {
        Ok(ok) => ensure!(ok, "tower", "a tower of {n} variables cannot be formatted"),
        Err(c) => viol!("panic", "a tower of {n} variables: {c:?}"),
    }
    Ok(())
}
