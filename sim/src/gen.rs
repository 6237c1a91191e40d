//! Building operations: generated from the tape, applied to a real stream and
//! to the model.

use std::borrow::Cow;
use std::rc::Rc;

use genco::prelude::*;
use genco::tokens::{from_fn, static_literal, Item, ItemStr};

use crate::kits::{raw_item, Kit, Lr};
use crate::model::{Adder, MItem, MStream};
use crate::sim;

#[derive(Clone, Debug, PartialEq)]
pub enum Text {
    Stat(&'static str),
    Own(String),
}

impl Text {
    pub fn str(&self) -> &str {
        match self {
            Text::Stat(s) => s,
            Text::Own(s) => s,
        }
    }
}

const WORDS: [&str; 30] = [
    "a", "foo", "bar();", "x = y", "{", "}", "\"", "it's", "back\\slash", "line\nbreak", "tab\tbed", "", "日本語テキスト",
    "naïve", "🦀", "\r", "\0", "\x07\x08", "\u{b}\u{c}", "$dollar ${x}", "`tick`", "\u{85}", "\u{200b}zero", "end;",
    " lead", "trail ", "//", "0", "\u{7f}", "a-rather-long-literal-which-does-not-fit-into-small-buffers-0123456789-0123456789",
];

/// Where encodings and escapes change their length, and characters which are
/// classified in different ways.
const BOUNDS: [char; 28] = [
    '\0', '\x1f', ' ', '\x7e', '\x7f', '\u{80}', '\u{85}', '\u{9f}', '\u{a0}', '\u{ad}', '\u{ff}', '\u{100}', '\u{7ff}', '\u{800}', '\u{fff}',
    '\u{1000}', '\u{2028}', '\u{2029}', '\u{d7ff}', '\u{e001}', '\u{feff}', '\u{fffd}', '\u{ffff}', '\u{10000}', '\u{fffff}', '\u{100000}',
    '\u{e0001}', '\u{10ffff}',
];

pub fn gen_text() -> Text {
    match sim::weighted(&[6, 6, 2, 1]) {
        0 => Text::Stat(sim::pick(&WORDS[..6])),
        1 => {
            let w = *sim::pick(&WORDS);
            // Part of a word starts or ends where the word does.
            match sim::draw(12) {
                10 => Text::Stat(w.char_indices().nth(1).map_or(w, |(i, _)| &w[..i])),
                11 => Text::Stat(w.char_indices().nth(1).map_or(w, |(i, _)| &w[i..])),
                _ => Text::Stat(w),
            }
        }
        2 => {
            let n = sim::range(1, 8);
            let mut s = String::new();
            for _ in 0..n {
                let c = match sim::draw(7) {
                    0 => char::from(b'a' + sim::draw(26) as u8),
                    1 => char::from(sim::draw(128) as u8),
                    2 => char::from_u32(0x80 + sim::draw(0x100) as u32).unwrap(),
                    3 => char::from_u32(0x3040 + sim::draw(0x60) as u32).unwrap(),
                    4 => char::from_u32(0x1F600 + sim::draw(0x40) as u32).unwrap(),
                    5 => *sim::pick(&BOUNDS),
                    _ => *sim::pick(&['"', '\\', '\'', '$', '`', '\n', '{', '}', '<', '>']),
                };
                s.push(c);
            }
            Text::Own(s)
        }
        _ => {
            let n = match sim::draw(160) {
                157 => sim::range(1000, 1100) as usize,
                158 => sim::range(4000, 9000) as usize,
                159 => sim::range(65_000, 70_000) as usize,
                _ => sim::range(50, 400) as usize,
            };
            Text::Own(match sim::draw(4) {
                // Characters of every width, at every offset.
                0 => {
                    let mut s: String = "\u{feff}abc"[..3 + sim::draw(3) as usize].into();
                    s.extend("é日🦀x\u{feff}\"\\ \n".chars().cycle().take(n / 2));
                    s
                }
                1 => "é".repeat(n / 2),
                _ => (0..n).map(|i| char::from(b'a' + (i % 26) as u8)).collect(),
            })
        }
    }
}

#[derive(Clone, Debug)]
pub enum Op<S> {
    Lit(Text, u32),
    Num(u8, i128),
    Space,
    Push,
    Line,
    Indent,
    Unindent,
    RawInd(i16),
    /// So many spaces, kept apart by empty literals.
    Gap(u16),
    Imp(S, u32),
    Reg(S, u32),
    /// Several at once, as a tuple.
    RegAll(Vec<S>, u32),
    Quoted(Text, u32),
    /// A quoted string around a stream.
    QuotedOps(Vec<Op<S>>, u32),
    /// A string with evaluations.
    EvalStr(Vec<Part<S>>),
    /// A stream of its own that is then added to this one.
    Nest(Vec<Op<S>>, u32),
    /// A closure that adds to this stream directly.
    Direct(Vec<Op<S>>, u32),
}

#[derive(Clone, Debug)]
pub enum Part<S> {
    Lit(Text),
    EvalLit(Text),
    Eval(Vec<Op<S>>),
    Imp(S),
}

#[derive(Clone, Copy)]
pub struct GenCfg {
    pub imports: bool,
    pub quotes: bool,
    pub nest: bool,
    pub deep: bool,
    /// Literals may be empty or odd.
    pub max: u64,
}

impl GenCfg {
    pub fn full(max: u64) -> GenCfg {
        GenCfg { imports: true, quotes: true, nest: true, deep: true, max }
    }
}

fn how() -> u32 {
    sim::draw(1 << 16) as u32
}

/// Well-formed operations: quotes and evaluations are balanced.
pub fn gen_ops<K: Kit>(g: &GenCfg) -> Vec<Op<K::S>> {
    let n = sim::draw(g.max + 1);
    gen_seq::<K>(g, n, 0, 0)
}

fn gen_seq<K: Kit>(g: &GenCfg, n: u64, depth: u32, quotes: u32) -> Vec<Op<K::S>> {
    let mut v = Vec::new();
    for _ in 0..n {
        v.push(gen_op::<K>(g, depth, quotes));
    }
    v
}

fn gen_op<K: Kit>(g: &GenCfg, depth: u32, quotes: u32) -> Op<K::S> {
    let q = if g.quotes { 1 } else { 0 };
    let im = if g.imports { 1 } else { 0 };
    let ne = if g.nest && depth < 4 { 1 } else { 0 };
    let qd = if quotes < 4 { q } else { 0 };
    let k = sim::weighted(&[
        10,                // literal
        1,                 // number
        6,                 // space
        5,                 // push
        4,                 // line
        3,                 // indent
        3,                 // unindent
        1,                 // raw indentation
        8 * im,            // import
        3 * im,            // register
        3 * q,             // quoted text
        2 * qd * ne,       // quoted stream
        3 * qd * ne,       // string with evaluations
        4 * ne,            // nest
        2 * ne,            // direct
    ]);
    match k {
        0 => Op::Lit(gen_text(), how()),
        1 => Op::Num(sim::draw(13) as u8, gen_num()),
        2 if g.deep && sim::flip(1, 60) => Op::Gap(*sim::pick(&[3, 33, 99, 101, 260])),
        2 => Op::Space,
        3 => Op::Push,
        4 => Op::Line,
        5 => Op::Indent,
        6 => Op::Unindent,
        7 => Op::RawInd(if g.deep && sim::flip(1, 3) {
            *sim::pick(&[13i16, 26, 40, 101, -7, 300, -300])
        } else {
            sim::draw(7) as i16 - 3
        }),
        8 => Op::Imp(K::gen_spec(), how()),
        9 if sim::flip(1, 4) => {
            let n = sim::range(2, 8);
            Op::RegAll((0..n).map(|_| K::gen_spec()).collect(), how())
        }
        9 => Op::Reg(K::gen_spec(), how()),
        10 => Op::Quoted(gen_text(), how()),
        11 if g.deep && quotes == 0 && sim::flip(1, 8) => tower::<K>(g),
        11 => Op::QuotedOps(gen_quoted::<K>(g, depth + 1, quotes + 1), how()),
        12 => {
            let n = sim::draw(5);
            let mut parts = Vec::new();
            for _ in 0..n {
                parts.push(match sim::weighted(&[3, 3, 3, im * 2]) {
                    0 => Part::Lit(gen_text()),
                    1 => Part::EvalLit(gen_text()),
                    2 => {
                        let n = sim::draw(4);
                        Part::Eval(gen_seq::<K>(g, n, depth + 1, quotes + 1))
                    }
                    _ => Part::Imp(K::gen_spec()),
                });
            }
            Op::EvalStr(parts)
        }
        13 => {
            let n = sim::draw(6);
            Op::Nest(gen_seq::<K>(g, n, depth + 1, quotes), how())
        }
        _ => {
            let n = sim::draw(6);
            Op::Direct(gen_seq::<K>(g, n, depth + 1, quotes), how())
        }
    }
}

/// Strings in strings in strings, as deep as may be.
fn tower<K: Kit>(g: &GenCfg) -> Op<K::S> {
    let words = ["x", "", "\"", "é", "ab"];
    let some = |v: &mut Vec<Op<K::S>>| match sim::draw(4) {
        0 => v.push(Op::Lit(Text::Stat(*sim::pick(&words)), how())),
        1 if g.imports => v.push(Op::Imp(K::gen_spec(), how())),
        2 => v.push(*sim::pick(&[OpW::Push, OpW::Indent, OpW::Line]).to_op::<K::S>()),
        _ => {}
    };
    let mut v = Vec::new();
    some(&mut v);
    for _ in 0..sim::range(2, 8) {
        let mut inner = Vec::new();
        some(&mut inner);
        inner.push(Op::QuotedOps(std::mem::take(&mut v), how()));
        some(&mut v);
        v.push(Op::QuotedOps(inner, how()));
        some(&mut v);
    }
    Op::QuotedOps(v, how())
}

/// Content of a quoted stream: strings with evaluations may not occur directly.
fn gen_quoted<K: Kit>(g: &GenCfg, depth: u32, quotes: u32) -> Vec<Op<K::S>> {
    let n = sim::draw(5);
    let mut v = Vec::new();
    for _ in 0..n {
        let im = if g.imports { 1 } else { 0 };
        let ne = if quotes < 5 { 1 } else { 0 };
        v.push(match sim::weighted(&[5, 2, 2, 3 * im, 3, 2 * ne]) {
            0 => Op::Lit(gen_text(), how()),
            1 => Op::Space,
            2 => *sim::pick(&[OpW::Push, OpW::Indent, OpW::Unindent, OpW::Line]).to_op::<K::S>(),
            3 => Op::Imp(K::gen_spec(), how()),
            4 => Op::Quoted(gen_text(), how()),
            _ => {
                // Within a nested quote everything is allowed again.
                let n = sim::draw(4);
                Op::QuotedOps(gen_seq::<K>(g, n, depth + 1, quotes + 2), how())
            }
        });
    }
    v
}

#[derive(Clone, Copy)]
enum OpW {
    Push,
    Indent,
    Unindent,
    Line,
}
impl OpW {
    fn to_op<S>(self) -> Box<Op<S>> {
        Box::new(match self {
            OpW::Push => Op::Push,
            OpW::Indent => Op::Indent,
            OpW::Unindent => Op::Unindent,
            OpW::Line => Op::Line,
        })
    }
}

// ------------------------------------------------------------------ model

/// Applies operations to a model stream, or lists the items they add one by one.
pub fn model_ops<K: Kit>(ops: &[Op<K::S>], m: &mut impl Adder<K::S>) {
    for o in ops {
        model_op::<K>(o, m);
    }
}

pub fn flat<K: Kit>(ops: &[Op<K::S>]) -> Vec<MItem<K::S>> {
    let mut v = Vec::new();
    model_ops::<K>(ops, &mut v);
    v
}

pub fn model_op<K: Kit>(o: &Op<K::S>, m: &mut impl Adder<K::S>) {
    match o {
        Op::Lit(t, _) => m.lit(t.str().into()),
        Op::Num(_, n) => m.lit(n.to_string()),
        Op::Space => m.add(MItem::Space),
        Op::Push => m.add(MItem::Push),
        Op::Line => m.add(MItem::Line),
        Op::Indent => m.add(MItem::Ind(1)),
        Op::Unindent => m.add(MItem::Ind(-1)),
        Op::RawInd(n) => m.add(MItem::Ind(*n)),
        Op::Gap(n) => {
            for _ in 0..*n {
                m.add(MItem::Space);
                m.lit(String::new());
            }
        }
        Op::Imp(s, _) => m.add(MItem::Imp(s.clone())),
        Op::Reg(s, _) => m.add(MItem::Reg(s.clone())),
        Op::RegAll(v, _) => v.iter().for_each(|s| m.add(MItem::Reg(s.clone()))),
        Op::Quoted(t, _) => {
            m.add(MItem::OQ(false));
            m.lit(t.str().into());
            m.add(MItem::CQ);
        }
        Op::QuotedOps(ops, h) => {
            m.add(MItem::OQ(false));
            if h % 2 == 0 {
                let mut sub = MStream::default();
                model_ops::<K>(ops, &mut sub);
                m.add_all(&sub.items);
            } else {
                model_ops::<K>(ops, m);
            }
            m.add(MItem::CQ);
        }
        Op::EvalStr(parts) => {
            m.add(MItem::OQ(true));
            for p in parts {
                match p {
                    Part::Lit(t) => m.lit(t.str().into()),
                    Part::EvalLit(t) => {
                        m.add(MItem::OE);
                        m.lit(t.str().into());
                        m.add(MItem::CE);
                    }
                    Part::Eval(ops) => {
                        m.add(MItem::OE);
                        model_ops::<K>(ops, m);
                        m.add(MItem::CE);
                    }
                    Part::Imp(s) => m.add(MItem::Imp(s.clone())),
                }
            }
            m.add(MItem::CQ);
        }
        Op::Nest(ops, _) => {
            let mut sub = MStream::default();
            model_ops::<K>(ops, &mut sub);
            m.add_all(&sub.items);
        }
        Op::Direct(ops, _) => model_ops::<K>(ops, m),
    }
}


// ------------------------------------------------------------------ real

pub fn apply_ops<K: Kit>(ops: &[Op<K::S>], t: &mut Tokens<K::L>, salt: u64) {
    for o in ops {
        apply_op::<K>(o, t, salt);
    }
}

fn apply_lit<L: genco::lang::Lang>(t: &mut Tokens<L>, x: &Text, lr: &mut Lr) {
    let s = x.str();
    match (x, lr.n(30)) {
        (_, 0) => t.append(s),
        (_, 1) => t.append(s.to_string()),
        (_, 2) => t.append(&s.to_string()),
        (_, 3) => t.append(Rc::new(s.to_string())),
        (_, 4) => t.append(&Rc::new(s.to_string())),
        (_, 5) => t.append(Cow::Borrowed(s)),
        (_, 6) => t.append(&Cow::<'_, str>::Owned(s.to_string())),
        (_, 7) => t.append(format_args!("{s}")),
        (_, 8) => t.append(display(s)),
        (_, 9) => t.append(Some(s)),
        (_, 10) => t.append(vec![s]),
        (_, 11) => t.append(&vec![s.to_string()]),
        (_, 12) => t.append(&[s][..]),
        (_, 13) => t.append(Item::Literal(ItemStr::from(s))),
        (_, 14) => t.extend(vec![Item::Literal(ItemStr::from(s.to_string().into_boxed_str()))]),
        (_, 15) => quote_in!(*t => $s),
        (Text::Stat(s), 16) => t.append(static_literal(s)),
        (Text::Stat(s), 17) => t.append(ItemStr::Static(s)),
        (_, 18) => t.append(&ItemStr::from(s)),
        (_, 19) => t.append(display(Pieces(s, 1))),
        (_, 20) => t.append(format_args!("{}", Pieces(s, 3))),
        (_, 21) => quote_in!(*t => $(display(Pieces(s, 2)))),
        (_, 22) => t.append(Cow::<'_, str>::Owned(s.to_string())),
        (_, 23) => t.append(&Cow::Borrowed(s)),
        (_, 24) => t.append(Cow::<'_, [&str]>::Owned(vec![s])),
        (_, 25) => t.append(&Cow::<'_, [&str]>::Borrowed(&[s])),
        (_, 26) => t.append(ItemStr::from(&s)),
        (_, 27) => t.append(&Cow::<'_, [String]>::Owned(vec![s.to_string()])),
        (_, 28) => t.append(display(ItemStr::from(s))),
        (_, _) => t.append(from_fn(|t: &mut Tokens<L>| t.append(s))),
    }
}

fn apply_num<L: genco::lang::Lang>(t: &mut Tokens<L>, form: u8, n: i128) {
    macro_rules! forms {
        ($($f:literal $ty:ty,)*) => {
            match form {
                $($f => if let Ok(x) = <$ty>::try_from(n) {
                    return t.append(x);
                },)*
                _ => {}
            }
        };
    }
    forms!(0 u8, 1 u16, 2 u32, 3 u64, 4 u128, 5 i8, 6 i16, 7 i32, 9 isize, 10 usize, 11 i64,);
    t.append(n)
}

fn gen_num() -> i128 {
    match sim::draw(4) {
        0 | 1 => i128::from(sim::draw(300)) - 20,
        2 => {
            // Near the limits of the types.
            let bits = *sim::pick(&[7u32, 8, 15, 16, 31, 32, 63, 64, 126]);
            let d = i128::from(sim::draw(5)) - 2;
            let x = (1i128 << bits) + d;
            if sim::flip(1, 2) { x } else { -x }
        }
        _ => *sim::pick(&[0, i128::MAX, i128::MIN, i128::from(u64::MAX) * 3, 10_000_000_000_000_000_000, 1_000_000]),
    }
}

/// Writes itself in pieces.
struct Pieces<'a>(&'a str, usize);

impl std::fmt::Display for Pieces<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let mut part = String::new();
        for (i, c) in self.0.chars().enumerate() {
            part.push(c);
            if i % self.1 == 0 {
                f.write_str(&part)?;
                part.clear();
            }
        }
        f.write_str(&part)
    }
}

/// What a caller's own type adds to a stream.
#[derive(Clone)]
struct Own<'a, K: Kit>(&'a K::S);

impl<K: Kit> genco::tokens::Register<K::L> for Own<'_, K> {
    fn register(self, t: &mut Tokens<K::L>) {
        K::add(t, self.0, true, &mut Lr(0));
    }
}

fn register_all<K: Kit>(t: &mut Tokens<K::L>, v: &[K::S], lr: &mut Lr) {
    let o: Vec<Own<'_, K>> = v.iter().map(Own).collect();
    macro_rules! tuple {
        ($($x:ident)*) => {{
            let [$($x),*] = <[Own<'_, K>; _]>::try_from(o).ok().expect("length");
            match lr.n(3) {
                0 => t.register(($($x,)*)),
                1 => t.append(genco::tokens::register(($($x,)*))),
                _ => {
                    let r = genco::tokens::register(($($x,)*));
                    t.append(Some(r))
                }
            }
        }};
    }
    match v.len() {
        2 => tuple!(a b),
        3 => tuple!(a b c),
        4 => tuple!(a b c d),
        5 => tuple!(a b c d e),
        6 => tuple!(a b c d e f),
        7 => tuple!(a b c d e f g),
        8 => tuple!(a b c d e f g h),
        _ => o.into_iter().for_each(|x| t.register(x)),
    }
}

pub fn build<K: Kit>(ops: &[Op<K::S>], salt: u64) -> Tokens<K::L> {
    let mut t = Tokens::new();
    apply_ops::<K>(ops, &mut t, salt);
    t
}

/// Add a finished stream in one of the many ways there are.
pub fn add_stream<L: genco::lang::Lang>(t: &mut Tokens<L>, sub: Tokens<L>, lr: &mut Lr) {
    match lr.n(18) {
        0 => t.append(sub),
        1 => t.append(&sub),
        2 => t.extend(sub),
        3 => t.extend(sub.iter().cloned()),
        4 => {
            let c: Tokens<L> = sub.into_iter().collect();
            t.append(c)
        }
        5 => {
            let c: Tokens<L> = sub.iter().collect();
            t.append(c)
        }
        6 => t.append(Some(sub)),
        7 => t.append(vec![sub]),
        8 => t.append(&vec![sub]),
        9 => {
            let q: Tokens<L> = quote!($sub);
            t.append(q)
        }
        10 => quote_in!(*t => $(&sub)),
        11 => t.append(sub.clone()),
        12 => t.append(from_fn(move |t: &mut Tokens<L>| t.append(sub))),
        13 => {
            let n = sub.iter().count();
            let at = lr.n(n as u64 + 1) as usize;
            let a: Tokens<L> = sub.iter().take(at).collect();
            let b: Tokens<L> = sub.into_iter().skip(at).collect();
            t.append(vec![a, b]);
        }
        14 => {
            for i in sub {
                t.append(i);
            }
        }
        15 => t.append(Cow::<'_, [Tokens<L>]>::Owned(vec![sub])),
        16 => t.append(&Cow::<'_, [Tokens<L>]>::Borrowed(std::slice::from_ref(&sub))),
        _ => t.append(Cow::<'_, [Tokens<L>]>::Borrowed(std::slice::from_ref(&sub))),
    }
}

pub fn apply_op<K: Kit>(o: &Op<K::S>, t: &mut Tokens<K::L>, salt: u64) {
    match o {
        Op::Lit(x, h) => apply_lit(t, x, &mut Lr::new(*h, salt)),
        Op::Num(f, n) => apply_num(t, *f, *n),
        Op::Space => t.space(),
        Op::Push => t.push(),
        Op::Line => t.line(),
        Op::Indent => t.indent(),
        Op::Unindent => t.unindent(),
        Op::RawInd(n) => t.append(Item::Indentation(*n)),
        Op::Gap(n) => {
            for _ in 0..*n {
                t.space();
                t.append("");
            }
        }
        Op::Imp(s, h) => K::add(t, s, false, &mut Lr::new(*h, salt)),
        Op::Reg(s, h) => K::add(t, s, true, &mut Lr::new(*h, salt)),
        Op::RegAll(v, h) => register_all::<K>(t, v, &mut Lr::new(*h, salt)),
        Op::Quoted(x, h) => {
            let mut lr = Lr::new(*h, salt);
            let s = x.str();
            match lr.n(6) {
                0 => t.append(quoted(s)),
                1 => t.append(quoted(s.to_string())),
                2 => t.append(quoted(&s.to_string())),
                3 => quote_in!(*t => $(quoted(s))),
                4 => t.append(quoted(vec![s])),
                _ => {
                    t.append(Item::OpenQuote(false));
                    t.append(s);
                    t.append(Item::CloseQuote);
                }
            }
        }
        Op::QuotedOps(ops, h) => {
            let mut lr = Lr::new(*h, salt);
            if h % 2 == 0 {
                let sub = build::<K>(ops, salt);
                match lr.n(3) {
                    0 => t.append(quoted(sub)),
                    1 => t.append(quoted(&sub)),
                    _ => t.append(quoted(from_fn(|t: &mut Tokens<K::L>| add_stream(t, sub, &mut lr)))),
                }
            } else {
                t.append(quoted(from_fn(|t: &mut Tokens<K::L>| apply_ops::<K>(ops, t, salt))));
            }
        }
        Op::EvalStr(parts) => {
            t.append(Item::OpenQuote(true));
            for p in parts {
                match p {
                    Part::Lit(x) => t.append(x.str()),
                    Part::EvalLit(x) => {
                        t.append(Item::OpenEval);
                        t.append(x.str());
                        t.append(Item::CloseEval);
                    }
                    Part::Eval(ops) => {
                        t.append(Item::OpenEval);
                        apply_ops::<K>(ops, t, salt);
                        t.append(Item::CloseEval);
                    }
                    Part::Imp(s) => K::add(t, s, false, &mut Lr::new(0, salt)),
                }
            }
            t.append(Item::CloseQuote);
        }
        Op::Nest(ops, h) => {
            let sub = build::<K>(ops, salt);
            add_stream(t, sub, &mut Lr::new(*h, salt));
        }
        Op::Direct(ops, h) => {
            let mut lr = Lr::new(*h, salt);
            match lr.n(3) {
                0 => apply_ops::<K>(ops, t, salt),
                1 => t.append(from_fn(|t: &mut Tokens<K::L>| apply_ops::<K>(ops, t, salt))),
                _ => quote_in! { *t => $(ref o => apply_ops::<K>(ops, o, salt)) },
            }
        }
    }
}

/// Feed model items one by one.
pub fn build_raw<K: Kit>(items: &[MItem<K::S>], salt: u64) -> Tokens<K::L> {
    let mut t = Tokens::new();
    let mut lr = Lr::new(1, salt);
    for i in items {
        t.append(raw_item::<K>(i, &mut lr));
    }
    t
}

/// Does the stream hold exactly these items?
pub fn same<K: Kit>(t: &Tokens<K::L>, m: &MStream<K::S>) -> Result<(), String> {
    let mut lr = Lr(0);
    let mut n = 0;
    for (i, it) in t.iter().enumerate() {
        let Some(mi) = m.items.get(i) else {
            return Err(format!("item {i}: stream has {it:?}, the model ended"));
        };
        if !same_item::<K>(it, mi, &mut lr) {
            return Err(format!("item {i}: stream has {it:?}, the model {mi:?}"));
        }
        n += 1;
    }
    if n != m.items.len() {
        return Err(format!("stream ends after {n} items, the model goes on with {:?}", m.items[n]));
    }
    Ok(())
}

pub fn same_item<K: Kit>(it: &Item<K::L>, mi: &MItem<K::S>, lr: &mut Lr) -> bool {
    match (it, mi) {
        (Item::Literal(a), MItem::Lit(b)) => &**a == b.as_str(),
        (Item::Lang(_, a), MItem::Imp(b)) | (Item::Register(_, a), MItem::Reg(b)) => **a == K::item(b, lr),
        (Item::Push, MItem::Push) | (Item::Line, MItem::Line) | (Item::Space, MItem::Space) => true,
        (Item::Indentation(a), MItem::Ind(b)) => a == b,
        (Item::OpenQuote(a), MItem::OQ(b)) => a == b,
        (Item::CloseQuote, MItem::CQ) | (Item::OpenEval, MItem::OE) | (Item::CloseEval, MItem::CE) => true,
        _ => false,
    }
}
