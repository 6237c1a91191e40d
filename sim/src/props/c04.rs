//! C04: concurrent and re-entrant generators do not influence each other.

use std::sync::{Arc, Mutex};

use genco::prelude::*;

use crate::cb;
use crate::exec::{self, diff, guarded, Case, Doc};
use crate::gen::{self, GenCfg, Op};
use crate::kits::{draw_kit, Kit};
use crate::model::MStream;
use crate::props::Prop;
use crate::sched::{self, Task};
use crate::sim::{self, Res, Violation};
use crate::sink::{Plan, Sink};
use crate::{ensure, tr, viol, with_kit};

pub static PROP: Prop = Prop {
    id: "C04",
    run,
    quick: 500000,
    thorough_factor: 50,
    cross_process: false,
    rule: "a run starts two to four tasks under the baton scheduler that build, clone, edit and format shared and own streams; at writer calls, callbacks and (half the time) allocations the schedule decides who continues, and writers and items re-enter the library; non-trivial if at least one context switch or re-entry happened; distinct by the hash of its events",
};

/// The scheduler keeps all but one task still, so that this is sound for types
/// that are not `Send`; whether they are is checked separately.
struct AssumeSend<T>(T);
unsafe impl<T> Send for AssumeSend<T> {}
unsafe impl<T> Sync for AssumeSend<T> {}
impl<T> AssumeSend<T> {
    fn into(self) -> T {
        self.0
    }
}

mod detect {
    use std::marker::PhantomData;
    pub struct W<T>(pub PhantomData<T>);
    pub trait No {
        fn sendable(&self) -> bool {
            false
        }
    }
    impl<T> No for &W<T> {}
    pub trait Yes {
        fn sendable(&self) -> bool {
            true
        }
    }
    impl<T: Send + Sync> Yes for W<T> {}
}

fn send_sync() -> Result<(), &'static str> {
    #[allow(unused_imports)]
    use detect::{No as _, Yes as _, W};
    use std::marker::PhantomData;
    macro_rules! check {
        ($($t:ty),*) => {
            $( if !(&W::<$t>(PhantomData)).sendable() { return Err(stringify!($t)); } )*
        };
    }
    check!(
        rust::Tokens,
        java::Tokens,
        csharp::Tokens,
        js::Tokens,
        python::Tokens,
        go::Tokens,
        c::Tokens,
        dart::Tokens,
        swift::Tokens,
        nix::Tokens,
        Tokens<()>,
        genco::tokens::ItemStr,
        genco::fmt::Config
    );
    Ok(())
}

type Fails = Arc<Mutex<Vec<Violation>>>;

fn fail(f: &Fails, v: Violation) {
    let _b = crate::alloc::bypass();
    f.lock().unwrap_or_else(|e| e.into_inner()).push(v);
}

fn run() -> Res {
    if let Err(t) = send_sync() {
        viol!("not_send", "{t} cannot be used by several threads");
    }
    let k = if sim::flip(1, 3) { 11 } else { draw_kit() };
    with_kit!(k, K => start::<K>())
}

struct Shared<K: Kit> {
    case: Case<K>,
    t: Tokens<K::L>,
    doc: Doc,
}

fn start<K: Kit>() -> Res {
    let case = Case::<K>::gen(&GenCfg::full(*sim::pick(&[5u64, 2, 10])));
    let doc = case.doc();
    let t = case.build(3);
    tr!("shared document: {:?}", doc.text);
    let shared = Arc::new(AssumeSend(Shared { case, t, doc }));
    let fails: Fails = Arc::default();
    let n = if sim::flip(1, 40) { sim::range(5, 20) } else { sim::range(2, 4) };
    let policy = sched::draw_policy();
    let mut tasks: Vec<Task> = Vec::new();
    for i in 0..n {
        let other = if sim::flip(1, 3) { draw_kit() } else { 99 };
        let seed = sim::draw(1 << 12);
        let (shared, fails) = (shared.clone(), fails.clone());
        tr!("task {i}: other language {other}");
        tasks.push(Box::new(move || {
            let r = if other == 99 {
                task::<K>(i, seed, &shared.0, None)
            } else {
                with_kit!(other, J => other_task::<K, J>(i, seed, &shared.0))
            };
            if let Err(v) = r {
                fail(&fails, v);
            }
        }));
    }
    let env = sim::draw(1 << 12);
    let results = match sched::run(tasks, &policy, env) {
        Ok(r) => r,
        Err(e) => viol!("deadlock", "{}: {e}", K::NAME),
    };
    for r in results {
        if let Err(p) = r {
            viol!("panic", "{}: a task died: {:?}", K::NAME, exec::Caught::from(p));
        }
    }
    if let Some(v) = fails.lock().unwrap_or_else(|e| e.into_inner()).pop() {
        return Err(v);
    }
    // The stream everyone used is as it was.
    if let Err(e) = gen::same::<K>(&shared.0.t, &shared.0.case.m) {
        viol!("shared_changed", "{}: {e}", K::NAME);
    }
    Ok(())
}

/// Formats a whole other document in the middle of something, and in the middle
/// of that another one, and so on.
fn reenter<J: Kit>(nested: &Arc<AssumeSend<Shared<J>>>, fails: &Fails, depth: u64) {
    let s = &nested.0;
    sim::fault("reentry", s.doc.text.len() as u64, depth);
    let r = guarded(|| {
        if depth == 0 {
            return exec::to_text::<J>(&s.t, &s.case.cm, &s.case.fc, s.case.file);
        }
        let mut sink = Sink::new(77, Plan::default());
        let (n, f) = (nested.clone(), fails.clone());
        sink.hook = Some(Box::new(move |call| {
            if call == 1 {
                reenter::<J>(&n, &f, depth - 1);
            }
        }));
        exec::to_fmt::<J, _>(&s.t, &s.case.cm, &s.case.fc, s.case.file, &mut sink)?;
        Ok(sink.text())
    });
    match r {
        Ok(Ok(x)) if x == s.doc.text => {}
        Ok(Ok(x)) => fail(fails, Violation::new("interference", format!("re-entered {}: {}", J::NAME, diff(&x, &s.doc.text)))),
        other => fail(fails, Violation::new("interference", format!("re-entered {}: {other:?}", J::NAME))),
    }
}

fn depth() -> u64 {
    match sim::draw(24) {
        0..=15 => 0,
        16..=22 => sim::range(1, 3),
        _ => sim::range(4, 40),
    }
}

fn make<J: Kit>(seed: u64, max: u64) -> Shared<J> {
    let case = Case::<J>::gen(&GenCfg::full(max));
    let doc = case.doc();
    let t = case.build(seed);
    Shared { case, t, doc }
}

fn other_task<K: Kit, J: Kit>(i: u64, seed: u64, shared: &Shared<K>) -> Res {
    let own = Arc::new(AssumeSend(make::<J>(seed, 5)));
    if sim::flip(1, 2) {
        let fails: Fails = Arc::default();
        let (o, f) = (own.clone(), fails.clone());
        let every = sim::range(1, 6);
        let depth = depth();
        let hook: crate::sink::Hook = Box::new(move |n| {
            if n % every == 0 && n < 60 {
                reenter::<J>(&o, &f, depth);
            }
        });
        task::<K>(i, seed, shared, Some(hook))?;
        let v = fails.lock().unwrap_or_else(|e| e.into_inner()).pop();
        if let Some(v) = v {
            return Err(v);
        }
    }
    let o = &own.0;
    check::<J>(i, &o.t, &o.case, &o.doc, None, "own stream")
}

fn check<K: Kit>(
    i: u64,
    t: &Tokens<K::L>,
    case: &Case<K>,
    doc: &Doc,
    hook: Option<crate::sink::Hook>,
    what: &str,
) -> Res {
    let (cm, fc, file) = (&case.cm, &case.fc, case.file);
    let plan = if sim::flip(1, 2) { Plan { yields: true, ..Plan::default() } } else { Plan::benign() };
    let mut s = Sink::new(i, plan).bound(doc.text.len());
    s.hook = hook;
    let form = sim::draw(3);
    if form == 2 && s.hook.is_none() {
        return match guarded(|| exec::to_lines::<K>(t, cm, fc, file)) {
            Ok(Ok(l)) if l == doc.lines => Ok(()),
            other => Err(Violation::new(
                "interference",
                format!("task {i}, {} {what}: {other:?} instead of {:?}", K::NAME, doc.lines),
            )),
        };
    }
    match exec::to_sink::<K>(t, cm, fc, file, form == 0, &mut s) {
        Ok(Ok(())) => {}
        other => viol!("interference", "task {i}, {} {what}: {other:?}", K::NAME),
    }
    ensure!(
        s.data == doc.text.as_bytes(),
        "interference",
        "task {i}, {} {what}: {}",
        K::NAME,
        diff(&s.text(), &doc.text)
    );
    Ok(())
}

fn task<K: Kit>(i: u64, seed: u64, shared: &Shared<K>, mut hook: Option<crate::sink::Hook>) -> Res {
    let steps = sim::range(1, 4);
    for _ in 0..steps {
        if K::CUSTOM && sim::flip(1, 3) {
            // Items and hooks of the language format streams, too.
            let fails: Fails = Arc::default();
            let nested = Arc::new(AssumeSend(make::<crate::kits::JsK>(seed, 3)));
            let f = fails.clone();
            let mut budget = 6;
            let depth = depth();
            cb::set_hook(Some(Box::new(move |n| {
                if n % 3 == 0 && budget > 0 {
                    budget -= 1;
                    reenter(&nested, &f, depth);
                }
            })));
            let r = check::<K>(i, &shared.t, &shared.case, &shared.doc, None, "shared stream with re-entering items");
            cb::set_hook(None);
            r?;
            if let Some(v) = fails.lock().unwrap_or_else(|e| e.into_inner()).pop() {
                return Err(v);
            }
            continue;
        }
        match sim::draw(4) {
            0 => check::<K>(i, &shared.t, &shared.case, &shared.doc, hook.take(), "shared stream")?,
            // A clone is edited; the original is not.
            1 => {
                let ops: Vec<Op<K::S>> = gen::gen_ops::<K>(&GenCfg::full(4));
                let mut c = AssumeSend(shared.t.clone()).into();
                let mut m: MStream<K::S> = shared.case.m.clone();
                let r = guarded(|| gen::apply_ops::<K>(&ops, &mut c, seed));
                if let Err(c) = r {
                    viol!("panic", "task {i}: {c:?}");
                }
                gen::model_ops::<K>(&ops, &mut m);
                sim::ev("edited_clone", i, ops.len() as u64);
                let case = Case::<K> { ops, cm: shared.case.cm.clone(), fc: shared.case.fc, file: shared.case.file, m };
                let doc = case.doc();
                check::<K>(i, &c, &case, &doc, hook.take(), "edited clone")?;
                if let Err(e) = gen::same::<K>(&shared.t, &shared.case.m) {
                    viol!("shared_changed", "task {i}, {}: the original of an edited clone: {e}", K::NAME);
                }
            }
            // Everything from scratch.
            2 => {
                let case = Case::<K>::gen(&GenCfg::full(5));
                let doc = case.doc();
                let t = match guarded(|| case.build(seed)) {
                    Ok(t) => t,
                    Err(c) => viol!("panic", "task {i}: {c:?}"),
                };
                check::<K>(i, &t, &case, &doc, hook.take(), "own stream")?;
            }
            _ => {
                let mut n = 0;
                for _ in shared.t.walk_imports() {
                    sched::yield_point("walk", n);
                    n += 1;
                }
                ensure!(
                    n == shared.case.m.imports().len() as u64,
                    "interference",
                    "task {i}, {}: walked {n} imports of {}",
                    K::NAME,
                    shared.case.m.imports().len()
                );
            }
        }
    }
    Ok(())
}
