//! Calls into genco: configurations, targets, outcomes.

use std::panic::{catch_unwind, AssertUnwindSafe};

use genco::fmt;
use genco::lang::Lang;
use genco::Tokens;

use crate::alloc;
use crate::gen::{self, GenCfg, Op};
use crate::kits::{self, Kit};
use crate::model::{MFmt, MItem, MStream, Unit};
use crate::sim::{self, Violation};
use crate::sink::{Injected, Sink};

#[derive(Clone, Copy, Debug)]
pub struct FmtCfg {
    pub unit: Option<Unit>,
    pub newline: Option<&'static str>,
}

impl FmtCfg {
    pub const DEFAULT: FmtCfg = FmtCfg { unit: None, newline: None };

    pub fn gen() -> FmtCfg {
        let unit = match sim::weighted(&[3, 2, 1, 1, 2, 1, 1, 3]) {
            0 => None,
            1 => Some(Unit::Space(2)),
            2 => Some(Unit::Space(1)),
            3 => Some(Unit::Space(0)),
            4 => Some(Unit::Space(8)),
            5 => Some(Unit::Space(50)),
            6 => Some(Unit::Space(101)),
            _ => Some(Unit::Tab),
        };
        let newline = *sim::pick(&[None, Some("\n"), Some("\r\n"), Some("<NL>"), Some("")]);
        FmtCfg { unit, newline }
    }
    pub fn config<L: Lang>(&self) -> fmt::Config {
        let mut c = fmt::Config::from_lang::<L>();
        match self.unit {
            None => {}
            Some(Unit::Tab) => c = c.with_indentation(fmt::Indentation::Tab),
            Some(Unit::Space(n)) => c = c.with_indentation(fmt::Indentation::Space(n)),
        }
        if let Some(n) = self.newline {
            c = c.with_newline(n);
        }
        c
    }
    pub fn mfmt<K: Kit>(&self) -> MFmt {
        let unit = self.unit.unwrap_or(Unit::Space(if K::CUSTOM { 3 } else { 4 }));
        MFmt::new(unit, self.newline.unwrap_or("\n"))
    }
}

/// What the model says the document is.
#[derive(Clone, Debug)]
pub struct Doc {
    pub text: String,
    pub lines: Vec<String>,
}

pub fn expected<K: Kit>(m: &MStream<K::S>, cm: &K::CM, fc: &FmtCfg, file: bool) -> Doc {
    let _b = alloc::bypass();
    let mut f = fc.mfmt::<K>();
    let r = if file {
        kits::render_file::<K>(&mut f, &m.items, cm)
    } else {
        kits::render_body::<K>(&mut f, &m.items, cm)
    };
    assert!(r.is_ok(), "harness: generated a malformed stream: {:?}", m.items);
    Doc { text: f.as_text(), lines: f.as_lines() }
}

/// How a call ended that did not return.
#[derive(Debug)]
pub enum Caught {
    /// An injected crash came out again.
    Injected(&'static str),
    /// An injected allocation failure.
    Oom,
    /// The code under test panicked.
    Panic(String),
}

impl Caught {
    pub fn expected(&self) -> bool {
        !matches!(self, Caught::Panic(_))
    }
    pub fn from(p: Box<dyn std::any::Any + Send>) -> Caught {
        if let Some(i) = p.downcast_ref::<Injected>() {
            return Caught::Injected(i.0);
        }
        if p.downcast_ref::<alloc::Oom>().is_some() {
            return Caught::Oom;
        }
        let msg = if let Some(s) = p.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = p.downcast_ref::<String>() {
            s.clone()
        } else {
            "unknown payload".to_string()
        };
        Caught::Panic(format!("{msg} {}", crate::last_panic_location()))
    }
}

/// Runs a call into genco with the allocator seam armed.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, Caught> {
    match catch_unwind(AssertUnwindSafe(|| {
        let _a = alloc::arm();
        f()
    })) {
        Ok(r) => Ok(r),
        Err(p) => {
            let _b = alloc::bypass();
            Err(Caught::from(p))
        }
    }
}

/// Same, for calls that have no business panicking.
pub fn calm<R>(what: &str, f: impl FnOnce() -> R) -> Result<R, Violation> {
    match guarded(f) {
        Ok(r) => Ok(r),
        Err(c) => Err(Violation::new("panic", format!("{what}: {c:?}"))),
    }
}

pub fn fmt_with<K: Kit>(
    t: &Tokens<K::L>,
    f: &mut fmt::Formatter<'_>,
    cfg: &<K::L as Lang>::Config,
    file: bool,
) -> fmt::Result {
    if file {
        t.format_file(f, cfg)
    } else {
        t.format(f, cfg, &Default::default())
    }
}

pub fn to_io<K: Kit, W: std::io::Write>(t: &Tokens<K::L>, cm: &K::CM, fc: &FmtCfg, file: bool, w: W) -> fmt::Result {
    let c = fc.config::<K::L>();
    let cfg = K::cfg(cm);
    let mut w = fmt::IoWriter::new(w);
    fmt_with::<K>(t, &mut w.as_formatter(&c), &cfg, file)
}

pub fn to_fmt<K: Kit, W: std::fmt::Write>(t: &Tokens<K::L>, cm: &K::CM, fc: &FmtCfg, file: bool, w: W) -> fmt::Result {
    let c = fc.config::<K::L>();
    let cfg = K::cfg(cm);
    let mut w = fmt::FmtWriter::new(w);
    fmt_with::<K>(t, &mut w.as_formatter(&c), &cfg, file)
}

pub fn to_lines<K: Kit>(t: &Tokens<K::L>, cm: &K::CM, fc: &FmtCfg, file: bool) -> Result<Vec<String>, fmt::Error> {
    let c = fc.config::<K::L>();
    let cfg = K::cfg(cm);
    let mut w = fmt::VecWriter::new();
    fmt_with::<K>(t, &mut w.as_formatter(&c), &cfg, file)?;
    Ok(w.into_vec())
}

pub fn to_text<K: Kit>(t: &Tokens<K::L>, cm: &K::CM, fc: &FmtCfg, file: bool) -> Result<String, fmt::Error> {
    let mut s = String::new();
    to_fmt::<K, _>(t, cm, fc, file, &mut s)?;
    Ok(s)
}

/// Format into a simulated sink.
pub fn to_sink<K: Kit>(
    t: &Tokens<K::L>,
    cm: &K::CM,
    fc: &FmtCfg,
    file: bool,
    io: bool,
    sink: &mut Sink,
) -> Result<fmt::Result, Caught> {
    guarded(|| if io { to_io::<K, _>(t, cm, fc, file, sink) } else { to_fmt::<K, _>(t, cm, fc, file, sink) })
}

/// A generated case: what is built, how it is configured, what it must become.
pub struct Case<K: Kit> {
    pub ops: Vec<Op<K::S>>,
    pub cm: K::CM,
    pub fc: FmtCfg,
    pub file: bool,
    pub m: MStream<K::S>,
}

impl<K: Kit> Case<K> {
    pub fn gen(g: &GenCfg) -> Case<K> {
        let ops = gen::gen_ops::<K>(g);
        let file = sim::flip(1, 2);
        let cm = if sim::flip(1, 2) { K::gen_cfg() } else { K::CM::default() };
        let fc = if sim::flip(2, 3) { FmtCfg::gen() } else { FmtCfg::DEFAULT };
        let mut m = MStream::default();
        gen::model_ops::<K>(&ops, &mut m);
        let c = Case { ops, cm, fc, file, m };
        crate::tr!("case: lang={} file={} cfg={:?} fmt={:?}", K::NAME, c.file, c.cm, c.fc);
        for o in &c.ops {
            crate::tr!("  op {o:?}");
        }
        c
    }
    /// The same, over and over: for what depends on size.
    pub fn repeat(&mut self, items: usize) {
        let net: i64 = self.m.items.iter().map(|i| if let MItem::Ind(n) = i { i64::from(*n) } else { 0 }).sum();
        let Ok(back) = i16::try_from(-net) else { return };
        if self.m.items.is_empty() || self.doc().text.len() > 2_000 {
            return;
        }
        let mut base = self.ops.clone();
        base.push(Op::RawInd(back));
        let mut one: Vec<MItem<K::S>> = Vec::new();
        gen::model_ops::<K>(&base, &mut one);
        let n = items / one.len().max(1) + 1;
        crate::tr!("repeated {n} times");
        self.ops = (0..n).flat_map(|_| base.iter().cloned()).collect();
        self.m = MStream::default();
        gen::model_ops::<K>(&self.ops, &mut self.m);
    }
    pub fn build(&self, salt: u64) -> Tokens<K::L> {
        gen::build::<K>(&self.ops, salt)
    }
    pub fn doc(&self) -> Doc {
        expected::<K>(&self.m, &self.cm, &self.fc, self.file)
    }
}

/// Where two texts differ, for messages.
pub fn diff(got: &str, want: &str) -> String {
    let at = got.bytes().zip(want.bytes()).take_while(|(a, b)| a == b).count();
    let mut s = at.saturating_sub(40);
    while s > 0 && !(got.is_char_boundary(s) && want.is_char_boundary(s)) {
        s -= 1;
    }
    let cut = |x: &str| -> String { x.get(s..).unwrap_or("").chars().take(120).collect() };
    format!("differs at byte {at}: got ..{:?}.. ({} bytes), expected ..{:?}.. ({} bytes)", cut(got), got.len(), cut(want), want.len())
}
