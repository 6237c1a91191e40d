//! C13: a document may be formatted piece by piece through one formatter.

use std::fmt::Write as _;

use genco::fmt;
use genco::prelude::*;

use crate::exec::{calm, diff, fmt_with, guarded, Caught, FmtCfg};
use crate::gen::{self, GenCfg};
use crate::kits::{self, draw_kit, Kit};
use crate::model::{MFmt, MItem, MStream, NL};
use crate::props::Prop;
use crate::sim::{self, Res};
use crate::sink::{draw_hard_kind, Plan, Sink};
use crate::{alloc, cb, ensure, tr, viol, with_kit};

pub static PROP: Prop = Prop {
    id: "C13",
    run,
    quick: 1600000,
    thorough_factor: 50,
    cross_process: false,
    rule: "a run opens one to four sessions, each with a writer, a configuration and one or two formatters, which get one to three streams, as files or cut into pieces outside of quotes and mixed with direct text writes, and a scheduler decides which session makes its next call; some sessions are ended by a failing writer, hook or crash; non-trivial if a document was really cut or a session failed; distinct by the hash of its events",
};

type Step = Box<dyn Fn(&mut fmt::Formatter<'_>) -> fmt::Result>;

struct Document {
    /// Written by the owner of the writer before the formatter exists.
    raw: Vec<(gen::Text, u8)>,
    steps: Vec<Step>,
    /// The whole, with `NL` for line breaks.
    out: String,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Target {
    Io,
    Fmt,
    Vec,
}

struct Session {
    name: &'static str,
    target: Target,
    config: fmt::Config,
    newline: &'static str,
    docs: Vec<Document>,
    hard: bool,
    callback: Option<(u64, cb::Mode)>,
}

enum Writer<'s> {
    Io(fmt::IoWriter<&'s mut Sink>),
    Fmt(fmt::FmtWriter<&'s mut Sink>),
    Vec(fmt::VecWriter),
}

/// Positions between items which are outside of quotes.
fn cuts<S>(items: &[MItem<S>]) -> Vec<usize> {
    let mut depth = 0i64;
    let mut v = vec![0];
    for (i, it) in items.iter().enumerate() {
        match it {
            MItem::OQ(_) => depth += 1,
            MItem::CQ => depth -= 1,
            _ => {}
        }
        if depth == 0 {
            v.push(i + 1);
        }
    }
    v
}

/// One formatter's work: one stream, or several in a row, some of them as files.
fn document<K: Kit>(cm: &K::CM, fc: &FmtCfg, lines: bool) -> Res<Document> {
    let mut mf: MFmt = fc.mfmt::<K>();
    let mut steps: Vec<Step> = Vec::new();
    let mut raw = Vec::new();
    if sim::flip(1, 5) {
        for _ in 0..sim::range(1, 3) {
            let t = gen::gen_text();
            tr!("before it, to the writer itself: {:?}", t.str());
            raw.push((t, sim::draw(4) as u8));
        }
    }
    let n = 1 + sim::weighted(&[6, 2, 1]);
    for i in 0..n {
        let file = sim::flip(1, if n > 1 { 2 } else { 8 });
        if i > 0 {
            sim::mark_nontrivial();
        }
        part::<K>(&mut mf, &mut steps, cm, *sim::pick(&[8u64, 3, 20]), file, lines)?;
    }
    let before: String = raw.iter().map(|x| x.0.str()).collect();
    Ok(Document { raw, steps, out: before + &mf.out })
}

fn raw_write(w: &mut dyn std::fmt::Write, (t, how): &(gen::Text, u8)) -> fmt::Result {
    match how {
        0 => w.write_str(t.str()),
        1 => t.str().chars().try_for_each(|c| w.write_char(c)),
        2 => write!(w, "{}", t.str()),
        _ => {
            // In two pieces and an argument between them.
            let c: Vec<char> = t.str().chars().collect();
            let (a, b) = c.split_at(c.len() / 2);
            let (a, b): (String, String) = (a.iter().collect(), b.iter().collect());
            write!(w, "{a}{b}")
        }
    }
}

fn part<K: Kit>(mf: &mut MFmt, steps: &mut Vec<Step>, cm: &K::CM, max: u64, file: bool, lines: bool) -> Res {
    let ops = gen::gen_ops::<K>(&GenCfg::full(max));
    let mut m = MStream::default();
    gen::model_ops::<K>(&ops, &mut m);
    let t = calm("building", || gen::build::<K>(&ops, 3))?;
    tr!("stream of {}: {:?} cfg {cm:?} file {file}", K::NAME, m.items);
    if file {
        let r = kits::render_file::<K>(mf, &m.items, cm);
        assert!(r.is_ok(), "harness: malformed");
        if lines {
            // A list of lines has no final line break.
            assert_eq!(mf.out.pop(), Some(NL), "harness: no line break");
        }
        let cfg = K::cfg(cm);
        steps.push(Box::new(move |f| fmt_with::<K>(&t, f, &cfg, true)));
        return Ok(());
    }
    // Where to cut, in order; the same place may be used more than once.
    let places = cuts(&m.items);
    let n = if sim::flip(1, 400) { sim::range(200, 700) } else { sim::draw(7) };
    let mut at: Vec<usize> = (0..n).map(|_| *sim::pick(&places)).collect();
    at.sort();
    at.push(m.items.len());
    let mut whole: Vec<MItem<K::S>> = Vec::new();
    let mut from = 0;
    for to in at {
        if sim::flip(1, 4) {
            let x = gen::gen_text();
            let s = x.str().to_string();
            let how = sim::draw(6);
            tr!("  direct write of {s:?}, form {how}");
            whole.push(MItem::Lit(match how {
                3 => "fixed (text);".into(),
                4 => format!("[{s:>9}|{:<5}]", from),
                5 => format!("{s:?}"),
                _ => s.clone(),
            }));
            match how {
                0 => steps.push(Box::new(move |f| f.write_str(&s))),
                1 => steps.push(Box::new(move |f| write!(f, "{s}"))),
                3 => steps.push(Box::new(move |f| write!(f, "fixed (text);"))),
                4 => steps.push(Box::new(move |f| write!(f, "[{s:>9}|{:<5}]", from))),
                5 => steps.push(Box::new(move |f| write!(f, "{s:?}"))),
                _ => steps.push(Box::new(move |f| s.chars().try_for_each(|c| f.write_char(c)))),
            }
        }
        tr!("  items {from}..{to}");
        if from > 0 && to > from {
            sim::mark_nontrivial();
        }
        whole.extend(m.items[from..to].iter().cloned());
        let piece: Tokens<K::L> = calm("cutting", || match sim::draw(3) {
            0 => t.iter().skip(from).take(to - from).cloned().collect(),
            1 => t.iter().skip(from).take(to - from).collect(),
            _ => t.clone().into_iter().skip(from).take(to - from).collect(),
        })?;
        let cfg = K::cfg(cm);
        steps.push(Box::new(move |f| fmt_with::<K>(&piece, f, &cfg, false)));
        from = to;
    }
    let r = kits::render_body::<K>(mf, &whole, cm);
    assert!(r.is_ok(), "harness: malformed");
    Ok(())
}

fn session<K: Kit>(i: u64) -> Res<(Session, Sink)> {
    let cm = if sim::flip(1, 2) { K::gen_cfg() } else { K::CM::default() };
    let fc = if sim::flip(1, 2) { FmtCfg::gen() } else { FmtCfg::DEFAULT };
    let target = *sim::pick(&[Target::Fmt, Target::Io, Target::Vec]);
    let n = 1 + usize::from(sim::flip(1, 4));
    let mut docs = Vec::new();
    for _ in 0..n {
        docs.push(document::<K>(&cm, &fc, target == Target::Vec)?);
    }
    let len: usize = docs.iter().map(|d| d.out.len()).sum();
    let mut plan = if sim::flip(1, 2) { Plan::benign() } else { Plan::default() };
    plan.yields = false;
    let mut hard = false;
    let mut callback = None;
    match sim::draw(8) {
        6 if target != Target::Vec => {
            hard = true;
            plan.hard = Some((sim::draw(len as u64 + 2), draw_hard_kind(target == Target::Io, true)));
            plan.torn = sim::flip(1, 3);
        }
        7 if K::CUSTOM => {
            callback = Some((sim::draw(12), if sim::flip(1, 2) { cb::Mode::Err } else { cb::Mode::Crash }));
        }
        _ => {}
    }
    let s = Session {
        name: K::NAME,
        target,
        config: fc.config::<K::L>(),
        newline: fc.newline.unwrap_or("\n"),
        docs,
        hard,
        callback,
    };
    Ok((s, Sink::new(i, plan).bound(len * 4)))
}

fn run() -> Res {
    let n = 1 + sim::weighted(&[4, 3, 2, 1]);
    let mut sessions = Vec::new();
    let mut sinks = Vec::new();
    for i in 0..n {
        let k = draw_kit();
        let (a, b) = with_kit!(k, K => session::<K>(i as u64))?;
        sessions.push(a);
        sinks.push(b);
    }
    let mut outs: Vec<Option<Vec<String>>> = (0..n).map(|_| None).collect();
    // How a session ended before its last step.
    let mut ended: Vec<Option<String>> = (0..n).map(|_| None).collect();
    {
        let mut writers: Vec<Writer<'_>> = sinks
            .iter_mut()
            .zip(&sessions)
            .map(|(s, x)| match x.target {
                Target::Io => Writer::Io(fmt::IoWriter::new(s)),
                Target::Fmt => Writer::Fmt(fmt::FmtWriter::new(s)),
                Target::Vec => Writer::Vec(fmt::VecWriter::new()),
            })
            .collect();
        let most = sessions.iter().map(|s| s.docs.len()).max().unwrap_or(0);
        // The second documents are written after the first, each by a formatter
        // of its own.
        for d in 0..most {
            for (i, w) in writers.iter_mut().enumerate() {
                let s = &sessions[i];
                if ended[i].is_some() || s.docs.len() <= d {
                    continue;
                }
                for x in &s.docs[d].raw {
                    let r = guarded(|| match w {
                        Writer::Io(w) => raw_write(w, x),
                        Writer::Fmt(w) => raw_write(w, x),
                        Writer::Vec(w) => raw_write(w, x),
                    });
                    match r {
                        Ok(Ok(())) => {}
                        Ok(Err(_)) | Err(Caught::Injected(_)) if s.hard => {
                            ended[i] = Some("direct write".into());
                            break;
                        }
                        r => viol!("direct", "{}: writing {:?} directly: {r:?}", s.name, x.0.str()),
                    }
                }
            }
            let mut fs: Vec<Option<fmt::Formatter<'_>>> = writers
                .iter_mut()
                .zip(&sessions)
                .map(|(w, s)| {
                    let c = &s.config;
                    Some(match w {
                        Writer::Io(w) => w.as_formatter(c),
                        Writer::Fmt(w) => w.as_formatter(c),
                        Writer::Vec(w) => w.as_formatter(c),
                    })
                })
                .collect();
            let mut next = vec![0usize; n];
            loop {
                let open: Vec<usize> = (0..n)
                    .filter(|i| ended[*i].is_none() && sessions[*i].docs.get(d).is_some_and(|x| next[*i] < x.steps.len()))
                    .collect();
                if open.is_empty() {
                    break;
                }
                let i = *sim::pick(&open);
                let s = &sessions[i];
                let step = &s.docs[d].steps[next[i]];
                sim::sched_ev("step", i as u64, next[i] as u64);
                next[i] += 1;
                let f = fs[i].as_mut().expect("open");
                if let Some((at, mode)) = s.callback {
                    cb::plan(Some(at), mode);
                }
                // Looking at it changes nothing.
                if sim::flip(1, 8) {
                    let _ = guarded(|| drop(format!("{f:?}")));
                }
                let r = guarded(|| step(f));
                let cb_failed = cb::poisoned();
                cb::plan(None, cb::Mode::Err);
                let bad = match r {
                    Ok(Ok(())) => {
                        ensure!(!cb_failed, "unreported", "{}: a callback failed, the call returned success", s.name);
                        None
                    }
                    Ok(Err(e)) => Some((format!("{e:?}"), true)),
                    Err(c @ Caught::Injected(_)) => Some((format!("{c:?}"), true)),
                    Err(c) => viol!("panic", "{}: {c:?}", s.name),
                };
                if let Some((how, _)) = bad {
                    ensure!(
                        s.hard || cb_failed,
                        "error",
                        "{}: step {} of document {d} returned {how}, nothing had failed",
                        s.name,
                        next[i] - 1
                    );
                    tr!("session {i} ended: {how}");
                    ended[i] = Some(how);
                    // Its formatter is given up at once, or stays around.
                    if sim::flip(1, 2) {
                        fs[i] = None;
                    }
                }
            }
        }
        for (i, w) in writers.into_iter().enumerate() {
            match w {
                Writer::Vec(w) => outs[i] = Some(w.into_vec()),
                Writer::Io(w) => {
                    let _ = w.into_inner();
                }
                Writer::Fmt(w) => {
                    let _ = w.into_inner();
                }
            }
        }
    }
    let _b = alloc::bypass();
    for (i, s) in sessions.iter().enumerate() {
        let want: String = s.docs.iter().map(|d| d.out.as_str()).collect();
        let sink = &sinks[i];
        let ok = ended[i].is_none();
        match &outs[i] {
            Some(lines) => {
                let text = lines.join(&NL.to_string());
                sim::hash_bytes("lines", text.as_bytes());
                if ok {
                    ensure!(text == want, "pieces", "{} session {i}, lines: {}", s.name, diff(&text, &want));
                } else {
                    ensure!(want.starts_with(&text), "prefix", "{} session {i}, lines: {}", s.name, diff(&text, &want));
                }
            }
            None => {
                let want = want.replace(NL, s.newline);
                let got = sink.text();
                sim::hash_bytes("text", &sink.data);
                if ok {
                    ensure!(!sink.failed, "unreported", "{} session {i}: the writer failed, no call returned an error", s.name);
                    ensure!(sink.data == want.as_bytes(), "pieces", "{} session {i}: {}", s.name, diff(&got, &want));
                } else {
                    ensure!(want.as_bytes().starts_with(&sink.data), "prefix", "{} session {i}: {}", s.name, diff(&got, &want));
                    ensure!(sink.after_fail == 0, "after_failure", "{} session {i}: written to after it failed", s.name);
                }
            }
        }
    }
    Ok(())
}
