//! C11: any well-behaved iterator is an acceptable source of content.

use std::cell::Cell;
use std::rc::Rc;

use genco::prelude::*;
use genco::tokens::{from_fn, Item};

use crate::exec::{self, guarded, Caught, FmtCfg};
use crate::gen::{self, GenCfg};
use crate::history::{draw_hint, Hint};
use crate::kits::{raw_item, CsharpK, DartK, JavaK, Kit, Lr};
use crate::model::{MItem, MStream};
use crate::props::Prop;
use crate::sim::{self, Res, Violation};
use crate::sink::crash;
use crate::{alloc, ensure, tr, viol, with_kit};

pub static PROP: Prop = Prop {
    id: "C11",
    run,
    quick: 1600000,
    thorough_factor: 50,
    cross_process: false,
    rule: "a run feeds up to five iterators - exact, loose, absent and huge size hints, not fused, some crashing at a step, re-entering the library or hitting a failed allocation - to extend, collect, template loops, joins and comment helpers, under a memory budget per request, and compares stream, polls and requests; non-trivial if a hint was not exact, an iterator crashed or re-entered, or an allocation failed; distinct by the hash of its events",
};

fn run() -> Res {
    match sim::draw(6) {
        0 => comments::<JavaK>(),
        1 => comments::<CsharpK>(),
        2 => comments::<DartK>(),
        _ => {
            let k = crate::kits::draw_kit();
            with_kit!(k, K => streams::<K>())
        }
    }
}

/// What happened to a source, readable after it is gone.
#[derive(Default)]
struct Log {
    polls: Cell<u64>,
    yielded: Cell<usize>,
    ended: Cell<bool>,
    dropped: Cell<u64>,
}

struct Src<T> {
    items: std::vec::IntoIter<T>,
    /// What a second round would yield: nobody may ask for it.
    after: Option<T>,
    hint: Hint,
    die_at: Option<usize>,
    reenter: bool,
    log: Rc<Log>,
}

impl<T> Src<T> {
    fn new(items: Vec<T>, after: Option<T>, plan: &Plan) -> (Src<T>, Rc<Log>) {
        let log = Rc::new(Log::default());
        let s = Src {
            items: items.into_iter(),
            after,
            hint: plan.hint,
            die_at: plan.die_at,
            reenter: plan.reenter,
            log: log.clone(),
        };
        (s, log)
    }
}

impl<T> Drop for Src<T> {
    fn drop(&mut self) {
        self.log.dropped.set(self.log.dropped.get() + 1);
    }
}

fn reenter() {
    let mut t = rust::Tokens::new();
    t.extend((0..3).map(|n| Item::Literal(genco::tokens::ItemStr::from(format!("{n}")))));
    let other: rust::Tokens = quote!($(for x in 0..3 join (, ) => $x) $t);
    let s = other.to_string();
    if s.as_deref() != Ok("0, 1, 2 012") {
        sim::report(Violation::new("reentrancy", format!("a stream built while an iterator runs is {s:?}")));
    }
}

impl<T> Iterator for Src<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        let _d = alloc::disarm();
        let l = self.log.clone();
        let n = l.polls.get();
        l.polls.set(n + 1);
        sim::ev("poll", n, 0);
        if l.ended.get() {
            sim::report(Violation::new("polled_after_end", format!("the iterator is polled again after it ended ({n} polls)")));
            return self.after.take();
        }
        if self.reenter {
            sim::fault("reentrant_iterator", n, 0);
            reenter();
        }
        if self.die_at == Some(l.yielded.get()) {
            sim::fault("iterator_crash", n, 0);
            crash("crash in iterator");
        }
        match self.items.next() {
            Some(x) => {
                l.yielded.set(l.yielded.get() + 1);
                Some(x)
            }
            None => {
                l.ended.set(true);
                None
            }
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let left = self.items.len();
        match self.hint {
            Hint::Exact => {}
            _ => sim::fault("odd_size_hint", left as u64, 0),
        }
        self.hint.of(left)
    }
}

#[derive(Debug)]
struct Plan {
    hint: Hint,
    die_at: Option<usize>,
    reenter: bool,
    oom: Option<u64>,
}

fn draw_plan(n: usize) -> Plan {
    let hint = draw_hint();
    let (mut die_at, mut oom, mut reenter) = (None, None, false);
    match sim::weighted(&[5, 3, 2, 2]) {
        0 => {}
        1 => die_at = Some(sim::draw(n as u64 + 1) as usize),
        2 => oom = Some(sim::draw(n as u64 * 2 + 4)),
        _ => reenter = true,
    }
    Plan { hint, die_at, reenter, oom }
}

/// Largest request that what the iterators yield can explain: they yield at
/// most a few dozen small elements.
const BUDGET: usize = 256 << 10;

/// Feed, then compare. `cut[k]` is how many of `adds` are there for sure once
/// `k` elements have been yielded.
fn feed<K: Kit>(
    what: &str,
    t: &mut Tokens<K::L>,
    m: &mut MStream<K::S>,
    adds: &[MItem<K::S>],
    cut: &[usize],
    plan: &Plan,
    log: &Log,
    fresh: bool,
    f: impl FnOnce(&mut Tokens<K::L>),
) -> Res {
    tr!("{}: {what} with {} elements, {plan:?}", K::NAME, cut.len() - 1);
    match plan.oom {
        None => alloc::set_budget(BUDGET),
        Some(n) => alloc::set_fail_at(Some(n), false),
    }
    let r = guarded(|| f(t));
    let refused = alloc::refused();
    let failed = alloc::failed();
    alloc::set_budget(usize::MAX);
    alloc::set_fail_at(None, false);
    if failed > 0 {
        sim::fault("alloc_failure", plan.oom.unwrap_or(0), 0);
    }
    ensure!(
        refused == 0,
        "memory",
        "{}: {what} of {} elements ({:?}) asks for more than {BUDGET} bytes at once",
        K::NAME,
        cut.len() - 1,
        plan.hint
    );
    let n = cut.len() - 1;
    match r {
        Ok(()) => {
            ensure!(plan.die_at.is_none(), "swallowed", "{}: {what}: the iterator's crash disappeared", K::NAME);
            ensure!(
                log.ended.get() && log.polls.get() == n as u64 + 1,
                "polls",
                "{}: {what}: {} elements took {} polls",
                K::NAME,
                n,
                log.polls.get()
            );
            if fresh {
                *m = MStream::default();
            }
            m.add_all(adds);
            if let Err(e) = gen::same::<K>(t, m) {
                viol!("content", "{}: {what} ({:?}): {e}", K::NAME, plan.hint);
            }
        }
        Err(Caught::Panic(e)) => viol!("panic", "{}: {what} ({:?}): {e}", K::NAME, plan.hint),
        // Nothing is promised about a stream that ran out of memory.
        Err(_) if failed > 0 => {
            *t = Tokens::new();
            *m = MStream::default();
        }
        Err(_) => {
            let min = if fresh || plan.die_at.is_none() { 0 } else { cut[log.yielded.get().min(n)] };
            let adds = if fresh { &[] } else { adds };
            let before = m.clone();
            let mut k = 0;
            loop {
                if k >= min && gen::same::<K>(t, m).is_ok() {
                    break;
                }
                if k == adds.len() {
                    let got: Vec<String> = t.iter().map(|i| format!("{i:?}")).collect();
                    viol!(
                        "interrupted",
                        "{}: {what} interrupted after {} elements: stream holds {got:?}, expected {:?} plus at least {min} of {adds:?}",
                        K::NAME,
                        log.yielded.get(),
                        before.items
                    );
                }
                m.add(adds[k].clone());
                k += 1;
            }
        }
    }
    ensure!(log.dropped.get() == 1, "iterator_dropped", "{}: {what}: the iterator was dropped {} times", K::NAME, log.dropped.get());
    Ok(())
}

fn words(n: u64) -> Vec<String> {
    (0..n).map(|i| if sim::flip(1, 8) { String::new() } else { format!("w{i}{}", sim::pick(&["", "é", "\"x\"", " "])) }).collect()
}

fn streams<K: Kit>() -> Res {
    let salt = sim::draw(1 << 12);
    let mut t = Tokens::<K::L>::new();
    let mut m = MStream::<K::S>::default();
    let rounds = sim::range(1, 5);
    let g = GenCfg { imports: true, quotes: false, nest: false, deep: false, max: 24 };
    for _ in 0..rounds {
        let kind = sim::draw(9);
        sim::sched_ev("source", kind, 0);
        if kind < 4 {
            // Items.
            let items = gen::flat::<K>(&gen::gen_ops::<K>(&g));
            let plan = draw_plan(items.len());
            let mut lr = Lr::new(sim::draw(1 << 16) as u32, salt);
            let real: Vec<Item<K::L>> = items.iter().map(|i| raw_item::<K>(i, &mut lr)).collect();
            let cut: Vec<usize> = (0..=items.len()).collect();
            let after = Item::Literal("AFTER".into());
            match kind {
                0 => {
                    let (src, log) = Src::new(real, Some(after), &plan);
                    feed::<K>("extend", &mut t, &mut m, &items, &cut, &plan, &log, false, |t| t.extend(src))?;
                }
                1 => {
                    let (src, log) = Src::new(real, Some(after), &plan);
                    feed::<K>("collect", &mut t, &mut m, &items, &cut, &plan, &log, true, |t| *t = src.collect())?;
                }
                2 => {
                    let (src, log) = Src::new(real.iter().collect(), Some(&after), &plan);
                    feed::<K>("collect references", &mut t, &mut m, &items, &cut, &plan, &log, true, |t| *t = src.collect())?;
                }
                _ => {
                    let (src, log) = Src::new(real, Some(after), &plan);
                    feed::<K>("loop over items", &mut t, &mut m, &items, &cut, &plan, &log, false, |t| {
                        quote_in!(*t => $(for i in src => $i))
                    })?;
                }
            }
        } else {
            let n = sim::draw(30);
            let ws = words(n);
            let plan = draw_plan(ws.len());
            let (src, log) = Src::new(ws.clone(), Some("AFTER".to_string()), &plan);
            let mut adds: Vec<MItem<K::S>> = Vec::new();
            let mut cut = vec![0];
            let lit = |s: &str| MItem::Lit(s.to_string());
            match kind {
                4 => {
                    for w in &ws {
                        adds.push(lit(w));
                        adds.push(lit(";"));
                        cut.push(adds.len() - 1);
                    }
                    feed::<K>("loop", &mut t, &mut m, &adds, &cut, &plan, &log, false, |t| {
                        quote_in!(*t => $(for x in src => $x;))
                    })?;
                }
                5 => {
                    for (i, w) in ws.iter().enumerate() {
                        if i > 0 {
                            adds.push(lit(","));
                            adds.push(MItem::Space);
                        }
                        adds.push(lit(w));
                        cut.push(adds.len());
                    }
                    feed::<K>("join", &mut t, &mut m, &adds, &shift(&cut), &plan, &log, false, |t| {
                        quote_in!(*t => $(for x in src join (, ) => $x))
                    })?;
                }
                6 => {
                    for (i, w) in ws.iter().enumerate() {
                        if i > 0 {
                            adds.push(MItem::Line);
                        }
                        adds.push(lit("x"));
                        adds.push(MItem::Space);
                        adds.push(lit(w));
                        adds.push(lit(";"));
                        cut.push(adds.len() - 1);
                    }
                    feed::<K>("join with lines", &mut t, &mut m, &adds, &shift(&cut), &plan, &log, false, |t| {
                        quote_in! { *t =>
                            $(for x in src join ($['\n']) {
                                x $x;
                            })
                        }
                    })?;
                }
                7 => {
                    // Through adapters of the standard library, and a closure.
                    for (i, w) in ws.iter().enumerate() {
                        adds.push(lit(&i.to_string()));
                        adds.push(lit(":"));
                        adds.push(lit(w));
                        adds.push(MItem::Push);
                        cut.push(adds.len() - 1);
                    }
                    feed::<K>("closure", &mut t, &mut m, &adds, &cut, &plan, &log, false, |t| {
                        t.append(from_fn(|t: &mut Tokens<K::L>| {
                            for (i, x) in src.enumerate() {
                                t.append(i);
                                quote_in!(*t => :$x);
                                t.push();
                            }
                        }))
                    })?;
                }
                _ => {
                    // Streams of their own, as elements.
                    for w in &ws {
                        adds.push(lit("a"));
                        adds.push(MItem::Space);
                        adds.push(lit(w));
                        cut.push(adds.len());
                    }
                    feed::<K>("flattened", &mut t, &mut m, &adds, &cut_zero(&cut), &plan, &log, false, |t| {
                        t.extend(src.flat_map(|w| {
                            let s: Tokens<K::L> = quote!(a $w);
                            s
                        }))
                    })?;
                }
            }
        }
    }
    finish::<K>(&t, &m)
}

/// With a join the look-ahead comes first: of `k` yielded elements, the last one
/// may be waiting.
fn shift(cut: &[usize]) -> Vec<usize> {
    let mut v = vec![0];
    v.extend_from_slice(&cut[..cut.len() - 1]);
    v
}

fn cut_zero(cut: &[usize]) -> Vec<usize> {
    shift(cut)
}

fn finish<K: Kit>(t: &Tokens<K::L>, m: &MStream<K::S>) -> Res {
    let cm = K::CM::default();
    let want = exec::expected::<K>(m, &cm, &FmtCfg::DEFAULT, true).text;
    let got = exec::calm("formatting the result", || exec::to_text::<K>(t, &cm, &FmtCfg::DEFAULT, true))?;
    match got {
        Ok(got) => ensure!(got == want, "document", "{}: {}", K::NAME, exec::diff(&got, &want)),
        Err(_) => viol!("document", "{}: formatting the result fails", K::NAME),
    }
    Ok(())
}

/// Languages with helpers that turn lines into comments.
trait Comments: Kit {
    const FORMS: u64;
    fn comment(t: &mut Tokens<Self::L>, form: u64, src: Src<String>);
    fn borrowed(t: &mut Tokens<Self::L>, form: u64, src: Src<&'static str>);
    /// Items, and how many are there once `k` lines were yielded.
    fn expect(form: u64, lines: &[String]) -> (Vec<MItem<Self::S>>, Vec<usize>);
}

fn prefixed<S>(mark: &str, lines: &[String]) -> (Vec<MItem<S>>, Vec<usize>) {
    let mut v = Vec::new();
    let mut cut = vec![0];
    for l in lines {
        v.push(MItem::Push);
        v.push(MItem::Lit(mark.into()));
        v.push(MItem::Space);
        v.push(MItem::Lit(l.clone()));
        cut.push(v.len());
    }
    (v, cut)
}

impl Comments for JavaK {
    const FORMS: u64 = 1;
    fn comment(t: &mut Tokens<Java>, _: u64, src: Src<String>) {
        t.append(java::block_comment(src))
    }
    fn borrowed(t: &mut Tokens<Java>, _: u64, src: Src<&'static str>) {
        quote_in!(*t => $(java::block_comment(src)))
    }
    fn expect(_: u64, lines: &[String]) -> (Vec<MItem<Self::S>>, Vec<usize>) {
        let mut v = Vec::new();
        let mut cut = vec![0];
        if !lines.is_empty() {
            v.push(MItem::Push);
            v.push(MItem::Lit("/**".into()));
            v.push(MItem::Push);
            for l in lines {
                v.push(MItem::Space);
                v.push(MItem::Lit("*".into()));
                v.push(MItem::Space);
                v.push(MItem::Lit(l.clone()));
                cut.push(v.len());
                v.push(MItem::Push);
            }
            v.push(MItem::Space);
            v.push(MItem::Lit("*/".into()));
        }
        (v, cut)
    }
}

impl Comments for CsharpK {
    const FORMS: u64 = 2;
    fn comment(t: &mut Tokens<Csharp>, form: u64, src: Src<String>) {
        match form {
            0 => t.append(csharp::comment(src)),
            _ => t.append(csharp::block_comment(src)),
        }
    }
    fn borrowed(t: &mut Tokens<Csharp>, form: u64, src: Src<&'static str>) {
        match form {
            0 => quote_in!(*t => $(csharp::comment(src))),
            _ => quote_in!(*t => $(csharp::block_comment(src))),
        }
    }
    fn expect(form: u64, lines: &[String]) -> (Vec<MItem<Self::S>>, Vec<usize>) {
        prefixed(if form == 0 { "//" } else { "///" }, lines)
    }
}

impl Comments for DartK {
    const FORMS: u64 = 1;
    fn comment(t: &mut Tokens<Dart>, _: u64, src: Src<String>) {
        t.append(dart::doc_comment(src))
    }
    fn borrowed(t: &mut Tokens<Dart>, _: u64, src: Src<&'static str>) {
        quote_in!(*t => $(dart::doc_comment(src)))
    }
    fn expect(_: u64, lines: &[String]) -> (Vec<MItem<Self::S>>, Vec<usize>) {
        prefixed("///", lines)
    }
}

fn comments<K: Comments>() -> Res {
    let mut t = Tokens::<K::L>::new();
    let mut m = MStream::<K::S>::default();
    for _ in 0..sim::range(1, 3) {
        let form = sim::draw(K::FORMS);
        let owned = sim::flip(1, 2);
        if sim::flip(1, 2) {
            t.append("x");
            m.lit("x");
        }
        if sim::flip(1, 3) {
            t.space();
            m.space();
        }
        let n = sim::draw(12);
        let lines: Vec<String> = if owned {
            words(n)
        } else {
            (0..n).map(|_| sim::pick(&["a line", "", "*/", "日本"]).to_string()).collect()
        };
        let plan = draw_plan(lines.len());
        let (adds, cut) = K::expect(form, &lines);
        // The helpers may look one element ahead.
        let cut = shift(&cut);
        if owned {
            let (src, log) = Src::new(lines.clone(), Some("AFTER".to_string()), &plan);
            feed::<K>("comment", &mut t, &mut m, &adds, &cut, &plan, &log, false, |t| K::comment(t, form, src))?;
        } else {
            let stat: Vec<&'static str> =
                lines.iter().map(|l| *["a line", "", "*/", "日本"].iter().find(|s| *s == l).unwrap()).collect();
            let (src, log) = Src::new(stat, Some("AFTER"), &plan);
            feed::<K>("comment", &mut t, &mut m, &adds, &cut, &plan, &log, false, |t| K::borrowed(t, form, src))?;
        }
    }
    finish::<K>(&t, &m)
}
