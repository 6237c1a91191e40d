//! C03: formatting never changes the stream; a failed attempt leaves no trace.

use genco::fmt;
use genco::prelude::*;

use crate::cb::{self, Mode};
use crate::exec::{self, calm, diff, guarded, Case, Doc, FmtCfg};
use crate::gen::GenCfg;
use crate::kits::{draw_kit, Kit};
use crate::props::Prop;
use crate::sim::{self, Res};
use crate::sink::{draw_hard_kind, Plan, Sink};
use crate::{alloc, ensure, tr, viol, with_kit};

pub static PROP: Prop = Prop {
    id: "C03",
    run,
    quick: 2000000,
    thorough_factor: 50,
    cross_process: false,
    rule: "a run builds streams of two languages and makes several attempts to format them, each ended by a writer error, a crash in writer or callback, an allocation failure or an abandoned session, with retries in between; non-trivial if at least one attempt was really ended that way; distinct by the hash of its events",
};

fn run() -> Res {
    let k = if sim::flip(1, 3) { 11 } else { draw_kit() };
    with_kit!(k, K => outer::<K>())
}

fn outer<K: Kit>() -> Res {
    match sim::draw(4) {
        0 => inner::<K, crate::custom::CustomK>(),
        1 => inner::<K, crate::kits::JsK>(),
        2 => inner::<K, crate::kits::JavaK>(),
        _ => inner::<K, crate::kits::NixK>(),
    }
}

pub struct Subject<K: Kit> {
    pub case: Case<K>,
    pub t: Tokens<K::L>,
    pub doc: Doc,
    before: Tokens<K::L>,
}

impl<K: Kit> Subject<K> {
    pub fn new(max: u64) -> Res<Self> {
        let mut case = Case::<K>::gen(&GenCfg::full(max));
        let mut set = case.m.imports();
        set.sort();
        set.dedup();
        if set.len() > if K::NAME == "nix" { 2 } else { 8 } {
            // Growing std's maps is not safe against allocation failures.
            case = Case { ops: Vec::new(), m: Default::default(), ..case };
        }
        let t = calm("building", || case.build(7))?;
        let before = calm("building", || case.build(7))?;
        let doc = case.doc();
        tr!("document ({}): {:?}", K::NAME, doc.text);
        Ok(Subject { case, t, doc, before })
    }

    fn unchanged(&self, when: &str) -> Res {
        ensure!(self.t == self.before, "stream_changed", "{}: the stream changed {when}: {:?}", K::NAME, self.t);
        if let Err(e) = crate::gen::same::<K>(&self.t, &self.case.m) {
            viol!("stream_changed", "{}: the stream changed {when}: {e}", K::NAME);
        }
        Ok(())
    }

    /// A clean attempt delivers the complete document.
    pub fn clean(&self, when: &str) -> Res {
        let (cm, fc, file) = (&self.case.cm, &self.case.fc, self.case.file);
        sim::ev("clean_attempt", 0, 0);
        let form = sim::draw(4);
        let got = match form {
            0 => {
                let mut s = Sink::new(9, Plan::default()).bound(self.doc.text.len());
                match calm("clean attempt", || exec::to_io::<K, _>(&self.t, cm, fc, file, &mut s))? {
                    Ok(()) => s.text(),
                    Err(e) => viol!("trace_left", "{} {when}: clean attempt returned {e:?}", K::NAME),
                }
            }
            1 => match calm("clean attempt", || exec::to_text::<K>(&self.t, cm, fc, file))? {
                Ok(s) => s,
                Err(e) => viol!("trace_left", "{} {when}: clean attempt returned {e:?}", K::NAME),
            },
            2 => match calm("clean attempt", || exec::to_lines::<K>(&self.t, cm, fc, file))? {
                Ok(l) => {
                    ensure!(l == self.doc.lines, "trace_left", "{} {when}: got {l:?}, expected {:?}", K::NAME, self.doc.lines);
                    self.doc.text.clone()
                }
                Err(e) => viol!("trace_left", "{} {when}: clean attempt returned {e:?}", K::NAME),
            },
            _ => {
                let mut s = Sink::new(8, Plan::default()).bound(self.doc.text.len());
                match calm("clean attempt", || exec::to_fmt::<K, _>(&self.t, cm, fc, file, &mut s))? {
                    Ok(()) => s.text(),
                    Err(e) => viol!("trace_left", "{} {when}: clean attempt returned {e:?}", K::NAME),
                }
            }
        };
        ensure!(got == self.doc.text, "trace_left", "{} {when}: {}", K::NAME, diff(&got, &self.doc.text));
        self.unchanged(when)
    }

    /// An attempt that is ended early, one way or another. Returns what ended it.
    pub fn doomed(&self) -> Res<&'static str> {
        let (cm, fc, file) = (&self.case.cm, &self.case.fc, self.case.file);
        let io = sim::flip(1, 2);
        let kind = sim::weighted(&[4, if K::CUSTOM { 5 } else { 0 }, 4, 2, 1]);
        let what = match kind {
            // The writer fails, for good or once.
            0 => {
                let n = 2 * self.doc.text.len() as u64 / 3 + 4;
                let at = if sim::flip(1, 2) { sim::draw(n) } else { sim::draw(12) };
                let plan = Plan {
                    hard: Some((at, draw_hard_kind(io, true))),
                    torn: sim::flip(1, 3),
                    transient: sim::flip(1, 3),
                    ..if sim::flip(1, 2) { Plan::benign() } else { Plan::default() }
                };
                let mut s = Sink::new(1, plan).bound(self.doc.text.len());
                let r = exec::to_sink::<K>(&self.t, cm, fc, file, io, &mut s);
                if let Err(c) = &r {
                    ensure!(c.expected(), "panic", "{}: {c:?}", K::NAME);
                }
                if s.failed { "after a failed write" } else { "after a successful attempt" }
            }
            // A callback fails.
            1 => {
                let at = sim::draw(24);
                cb::plan(Some(at), if sim::flip(1, 2) { Mode::Crash } else { Mode::Err });
                let target = sim::draw(3);
                let mut s = Sink::new(2, Plan::default()).bound(self.doc.text.len());
                let r = match target {
                    0 => guarded(|| exec::to_lines::<K>(&self.t, cm, fc, file).map(|_| ())),
                    1 => exec::to_sink::<K>(&self.t, cm, fc, file, io, &mut s),
                    _ => guarded(|| exec::to_text::<K>(&self.t, cm, fc, file).map(|_| ())),
                };
                cb::reset();
                if let Err(c) = &r {
                    ensure!(c.expected(), "panic", "{}: {c:?}", K::NAME);
                }
                "after a failed callback"
            }
            // Memory runs out.
            2 => {
                let at = sim::draw(30);
                let sticky = sim::flip(1, 3);
                let target = sim::draw(3);
                let mut s = Sink::new(3, Plan::default()).bound(self.doc.text.len());
                alloc::set_fail_at(Some(at), sticky);
                let r = match target {
                    0 => guarded(|| exec::to_lines::<K>(&self.t, cm, fc, file).map(|_| ())),
                    1 => guarded(|| exec::to_text::<K>(&self.t, cm, fc, file).map(|_| ())),
                    _ => exec::to_sink::<K>(&self.t, cm, fc, file, io, &mut s),
                };
                let failed = alloc::failed();
                alloc::set_fail_at(None, false);
                if failed > 0 {
                    sim::fault("alloc_failure", at, failed);
                }
                if let Err(c) = &r {
                    ensure!(c.expected(), "panic", "{}: {c:?}", K::NAME);
                }
                "after an allocation failure"
            }
            // A session is given up half-way.
            3 => {
                let cut = sim::draw(self.case.m.items.len() as u64 + 1) as usize;
                let head: Tokens<K::L> = self.t.iter().take(cut).collect();
                let c = fc.config::<K::L>();
                let cfg = K::cfg(cm);
                let mut s = Sink::new(4, Plan::default()).bound(2 * self.doc.text.len() + 64);
                let r = guarded(|| {
                    let mut w = fmt::IoWriter::new(&mut s);
                    let mut f = w.as_formatter(&c);
                    let r = exec::fmt_with::<K>(&head, &mut f, &cfg, false);
                    if r.is_ok() {
                        let _ = std::fmt::Write::write_str(&mut f, "left over");
                    }
                });
                sim::fault("abandoned_session", cut as u64, 0);
                if let Err(c) = &r {
                    ensure!(c.expected(), "panic", "{}: {c:?}", K::NAME);
                }
                "after an abandoned session"
            }
            // Another configuration.
            _ => {
                let other = FmtCfg::gen();
                let r = guarded(|| exec::to_lines::<K>(&self.t, &K::CM::default(), &other, !file).map(|_| ()));
                if let Err(c) = &r {
                    ensure!(c.expected(), "panic", "{}: {c:?}", K::NAME);
                }
                "after formatting with another configuration"
            }
        };
        self.unchanged(what)?;
        Ok(what)
    }
}

fn inner<K: Kit, J: Kit>() -> Res {
    let a = Subject::<K>::new(*sim::pick(&[5u64, 2, 12]))?;
    let b = Subject::<J>::new(4)?;
    sim::hash_bytes("doc", a.doc.text.as_bytes());
    if sim::flip(1, 2) {
        a.clean("before anything failed")?;
    }
    let n = sim::range(1, 5);
    for _ in 0..n {
        let what = if sim::flip(1, 4) { b.doomed()? } else { a.doomed()? };
        match sim::draw(4) {
            0 => a.clean(what)?,
            1 => b.clean(what)?,
            _ => {}
        }
    }
    a.clean("at the end")?;
    b.clean("at the end")?;
    a.clean("at the end, again")
}
