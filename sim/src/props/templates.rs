//! Quoted templates with probes in every interpolation, next to a hand-written
//! account of what they are documented to do.

#![allow(unreachable_code, unused, clippy::all)]

use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;

use genco::lang::{Lang, LangSupportsEval};
use genco::prelude::*;
use genco::tokens::from_fn;

use crate::model::{Adder, MItem, MStream};
use crate::sim::{self, Violation};
use crate::sink::crash;
use crate::{alloc, sched};

/// Whether the macros are run by a stable compiler.
pub const STABLE: bool = cfg!(feature = "stable-compiler");

/// The template was left early.
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum Left {
    Question,
    Crash,
    /// The template itself returns.
    Return,
}
pub type Flow<T = ()> = Result<T, Left>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum How {
    Question,
    Crash,
}

/// Observes and steers the evaluation of one template.
pub struct Pr {
    seed: u64,
    real: bool,
    at: Option<(u64, How)>,
    n: Cell<u64>,
    pub log: RefCell<Vec<(u32, u64)>>,
    occ: RefCell<BTreeMap<u32, u64>>,
    pub fired: Cell<bool>,
}

impl Pr {
    pub fn new(seed: u64, real: bool, at: Option<(u64, How)>) -> Pr {
        Pr {
            seed,
            real,
            at,
            n: Cell::new(0),
            log: RefCell::default(),
            occ: RefCell::default(),
            fired: Cell::new(false),
        }
    }
    pub fn count(&self) -> u64 {
        self.n.get()
    }
    fn hit(&self, id: u32, q: bool) -> Flow<u64> {
        let _d = alloc::disarm();
        let n = self.n.get();
        self.n.set(n + 1);
        let o = {
            let mut m = self.occ.borrow_mut();
            let e = m.entry(id).or_insert(0);
            *e += 1;
            *e
        };
        self.log.borrow_mut().push((id, o));
        if n > 5_000 {
            if self.real {
                sim::report(Violation::new("evaluations", format!("probe {id} is evaluated without end")));
            }
            crash("evaluated without end");
        }
        if self.real {
            sched::yield_point("probe", u64::from(id));
            sim::ev("probe", u64::from(id), o);
            if sim::mix(self.seed, n) % 24 == 0 {
                reenter(n);
            }
        }
        if let Some((at, how)) = self.at {
            if at == n {
                match how {
                    How::Crash => {
                        self.fired.set(true);
                        if self.real {
                            sim::fault("interpolation_crash", u64::from(id), n);
                            crash("crash in interpolation");
                        }
                        return Err(Left::Crash);
                    }
                    How::Question if q => {
                        self.fired.set(true);
                        if self.real {
                            sim::fault("interpolation_leaves", u64::from(id), n);
                        }
                        return Err(Left::Question);
                    }
                    _ => {}
                }
            }
        }
        Ok(sim::mix(self.seed ^ u64::from(id) << 32, o))
    }
    fn text(id: u32, v: u64) -> String {
        match v % 7 {
            0 => String::new(),
            1 => format!("‹{id}›"),
            _ => format!("v{id}_{}", v % 97),
        }
    }
    /// A value; may leave through `?`.
    pub fn q(&self, id: u32) -> Flow<String> {
        Ok(Pr::text(id, self.hit(id, true)?))
    }
    pub fn b(&self, id: u32) -> Flow<bool> {
        Ok(self.hit(id, true)? & 1 == 1)
    }
    /// True now and then.
    pub fn rare(&self, id: u32) -> Flow<bool> {
        Ok(self.hit(id, true)? % 5 == 0)
    }
    pub fn n(&self, id: u32, n: u64) -> Flow<u64> {
        Ok(self.hit(id, true)? % n)
    }
    pub fn opt(&self, id: u32) -> Flow<Option<String>> {
        let v = self.hit(id, true)?;
        Ok(if v & 1 == 0 { None } else { Some(Pr::text(id, v >> 1)) })
    }
    pub fn mark(&self, id: u32) -> Flow {
        self.hit(id, true).map(|_| ())
    }
    /// A value computed where only a crash can end the template (real side).
    pub fn c(&self, id: u32) -> String {
        match self.hit(id, false) {
            Ok(v) => Pr::text(id, v),
            Err(_) => unreachable!(),
        }
    }
    pub fn cb(&self, id: u32) -> bool {
        matches!(self.hit(id, false), Ok(v) if v & 1 == 1)
    }
    /// The same on the model side.
    pub fn mc(&self, id: u32) -> Flow<String> {
        Ok(Pr::text(id, self.hit(id, false)?))
    }
    pub fn mcb(&self, id: u32) -> Flow<bool> {
        Ok(self.hit(id, false)? & 1 == 1)
    }
    pub fn it(&self, id: u32) -> Flow<It<'_>> {
        let v = self.hit(id, true)?;
        Ok(It { pr: self, id: id + 1000, left: v % 5, ended: false, odd: v >> 8 })
    }
    /// Something that is added in several steps.
    pub fn multi(&self, id: u32) -> Flow<Multi<'_>> {
        self.hit(id, true)?;
        Ok(Multi { pr: self, id })
    }
    pub fn mmulti(&self, id: u32, m: &mut impl Adder<()>) -> Flow {
        self.hit(id, true)?;
        l(m, "<<");
        let s = self.mc(id + 3000)?;
        m.lit(s);
        sp(m);
        p(m);
        let s = self.mc(id + 3000)?;
        m.lit(s);
        l(m, ">>");
        Ok(())
    }
}

/// A caller's iterator: its ends and polls are part of the log, its size hints
/// are legal and useless.
pub struct It<'a> {
    pr: &'a Pr,
    id: u32,
    left: u64,
    ended: bool,
    odd: u64,
}

impl It<'_> {
    fn step(&mut self) -> Flow<Option<String>> {
        let _d = alloc::disarm();
        if self.ended && self.pr.real {
            sim::report(Violation::new(
                "polled_after_end",
                format!("iterator {} is polled again after it ended", self.id - 1000),
            ));
        }
        let v = self.pr.hit(self.id, false)?;
        if self.left == 0 {
            self.ended = true;
            return Ok(None);
        }
        self.left -= 1;
        Ok(Some(Pr::text(self.id, v)))
    }
}

impl Iterator for It<'_> {
    type Item = String;
    fn next(&mut self) -> Option<String> {
        match self.step() {
            Ok(v) => v,
            Err(_) => unreachable!(),
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        match self.odd % 4 {
            0 => (0, None),
            1 => (0, Some(usize::MAX)),
            2 => (self.left as usize, Some(self.left as usize)),
            _ => (self.left as usize / 2, Some(self.left as usize + 7)),
        }
    }
}

pub struct Multi<'a> {
    pr: &'a Pr,
    id: u32,
}

impl<L: Lang> FormatInto<L> for Multi<'_> {
    fn format_into(self, t: &mut Tokens<L>) {
        t.append("<<");
        t.append(self.pr.c(self.id + 3000));
        t.space();
        t.push();
        t.append(self.pr.c(self.id + 3000));
        t.append(">>");
    }
}

/// Another template is executed while one is being executed.
fn reenter(n: u64) {
    sim::ev("reenter", n, 0);
    let t: Tokens<genco::lang::JavaScript> = quote! {
        re $(n) {
            $(for i in 0..n % 3 join (, ) => [$i])
        }
        $[str](a $($(if n % 2 == 0 => $n)))
    };
    let got = t.to_file_string().unwrap_or_default();
    let l: Vec<String> = (0..n % 3).map(|i| format!("[{i}]")).collect();
    let l = l.join(", ");
    let e = if n % 2 == 0 { format!("{n}") } else { String::new() };
    let l = match (l.is_empty(), STABLE) {
        (true, false) => String::new(),
        (true, true) => " ".to_string(),
        (false, false) => format!("\n    {l}\n"),
        (false, true) => format!(" {l} "),
    };
    let nl = if STABLE { " " } else { "\n" };
    let want = format!("re {n} {{{l}}}{nl}`a ${{{e}}}`\n");
    if got != want {
        sim::report(Violation::new("reentrant", format!("a template within an interpolation makes {got:?} and should make {want:?}")));
    }
}

// Shorthands for the model.
fn l(m: &mut impl Adder<()>, s: &str) {
    m.lit(s.into())
}
fn sp(m: &mut impl Adder<()>) {
    m.add(MItem::Space)
}
fn p(m: &mut impl Adder<()>) {
    m.add(MItem::Push)
}
fn ln(m: &mut impl Adder<()>) {
    m.add(MItem::Line)
}
// The layout of a template. A stable compiler tells the macros how far apart two
// tokens are but not on which lines they are, so that all of it is a space.
fn layout(m: &mut impl Adder<()>, i: MItem<()>) {
    m.add(if STABLE { MItem::Space } else { i })
}
fn tp(m: &mut impl Adder<()>) {
    layout(m, MItem::Push)
}
fn tln(m: &mut impl Adder<()>) {
    layout(m, MItem::Line)
}
fn tind(m: &mut impl Adder<()>) {
    layout(m, MItem::Ind(1))
}
fn tun(m: &mut impl Adder<()>) {
    layout(m, MItem::Ind(-1))
}
/// Indentation which is still in place at the end.
fn tend(m: &mut impl Adder<()>) {
    if !STABLE {
        m.add(MItem::Ind(-1))
    }
}
fn oq(m: &mut impl Adder<()>, e: bool) {
    m.add(MItem::OQ(e))
}
fn cq(m: &mut impl Adder<()>) {
    m.add(MItem::CQ)
}
fn oe(m: &mut impl Adder<()>) {
    m.add(MItem::OE)
}
fn ce(m: &mut impl Adder<()>) {
    m.add(MItem::CE)
}
fn qs(m: &mut impl Adder<()>, s: &str) {
    oq(m, false);
    l(m, s);
    cq(m);
}

pub type MV = Vec<MItem<()>>;

/// A template, and what it is documented to do.
pub trait Template {
    const NAME: &'static str;
    fn real<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow;
    fn model(m: &mut MV, pr: &Pr) -> Flow;
}

/// A template written by tools/gen_templates.py.
pub struct Generated<L: Lang + 'static> {
    pub name: &'static str,
    pub real: fn(&mut Tokens<L>, &Pr) -> Flow,
    pub model: fn(&mut MV, &Pr) -> Flow,
}

include!("templates_list.rs");
include!("templates_gen.rs");
