//! C10: quoted templates evaluate what control flow reaches, once, in order.

use genco::lang::{Lang, LangSupportsEval};
use genco::tokens::Item;
use genco::Tokens;

use crate::exec::{self, guarded, Caught, FmtCfg};
use crate::kits::Kit;
use crate::model::{MItem, MStream};
use crate::props::templates::{self, Flow, Generated, How, Left, Pr, Template, MV};
use crate::props::Prop;
use crate::sim::{self, Res};
use crate::props::templates::with_template;
use crate::{ensure, tr, viol};

pub static PROP: Prop = Prop {
    id: if cfg!(feature = "stable-compiler") { "C15" } else { "C10" },
    run,
    quick: 1600000,
    thorough_factor: 50,
    cross_process: false,
    rule: "a run executes up to four of the templates (all constructs of the macro, with a probe in every interpolation) on one stream, each with a seeded choice of values and possibly one probe that crashes or leaves through `?`; the log of probes and the stream are compared with the hand-written account; non-trivial if a probe crashed or left; distinct by the hash of its events",
};

fn run() -> Res {
    match sim::draw(3) {
        0 => one::<crate::kits::JsK>(templates::generated0()),
        1 => one::<crate::custom::CustomK>(templates::generated1()),
        _ => one::<crate::kits::DartK>(templates::generated2()),
    }
}

/// Adjacent literals are one text; structure is kept apart from text.
const SPACE: u32 = 0x11_0001;
const PUSH: u32 = 0x11_0002;
const LINE: u32 = 0x11_0003;
const OQ: u32 = 0x11_0004;
const OQE: u32 = 0x11_0005;
const CQ: u32 = 0x11_0006;
const OE: u32 = 0x11_0007;
const CE: u32 = 0x11_0008;
/// An empty literal is invisible, but whitespace on its two sides stays apart.
const EMPTY: u32 = 0x11_0009;
const IND: u32 = 0x20_0000;

fn norm<L: Lang>(t: &Tokens<L>) -> Vec<u32> {
    let mut v = Vec::new();
    for i in t.iter() {
        v.push(match i {
            Item::Literal(s) if s.is_empty() => EMPTY,
            Item::Literal(s) => {
                v.extend(s.chars().map(u32::from));
                continue;
            }
            Item::Space => SPACE,
            Item::Push => PUSH,
            Item::Line => LINE,
            Item::OpenQuote(false) => OQ,
            Item::OpenQuote(true) => OQE,
            Item::CloseQuote => CQ,
            Item::OpenEval => OE,
            Item::CloseEval => CE,
            Item::Indentation(n) => IND + (i32::from(*n) + 40_000) as u32,
            _ => 0x1F_FFFF,
        });
    }
    v
}

fn code(i: &MItem<char>) -> u32 {
    match i {
        MItem::Imp(c) => u32::from(*c),
        MItem::Reg(_) => EMPTY,
        MItem::Space => SPACE,
        MItem::Push => PUSH,
        MItem::Line => LINE,
        MItem::OQ(false) => OQ,
        MItem::OQ(true) => OQE,
        MItem::CQ => CQ,
        MItem::OE => OE,
        MItem::CE => CE,
        MItem::Ind(n) => IND + (i32::from(*n) + 40_000) as u32,
        MItem::Lit(_) => 0x1F_FFFE,
    }
}

/// One item per character.
fn chars(v: &MV) -> Vec<MItem<char>> {
    let mut o = Vec::new();
    for i in v {
        o.push(match i {
            MItem::Lit(s) if s.is_empty() => MItem::Reg(' '),
            MItem::Lit(s) => {
                o.extend(s.chars().map(MItem::Imp));
                continue;
            }
            MItem::Space => MItem::Space,
            MItem::Push => MItem::Push,
            MItem::Line => MItem::Line,
            MItem::OQ(e) => MItem::OQ(*e),
            MItem::CQ => MItem::CQ,
            MItem::OE => MItem::OE,
            MItem::CE => MItem::CE,
            MItem::Ind(n) => MItem::Ind(*n),
            MItem::Imp(()) | MItem::Reg(()) => continue,
        });
    }
    o
}

fn equal(real: &[u32], m: &MStream<char>) -> bool {
    real.len() == m.items.len() && real.iter().zip(&m.items).all(|(a, b)| *a == code(b))
}

fn show(v: &[u32]) -> String {
    let mut s = String::new();
    for c in v {
        match *c {
            SPACE => s += "␣",
            PUSH => s += "⏎",
            EMPTY => s += "∅",
            LINE => s += "¶",
            OQ => s += "«",
            OQE => s += "«e",
            CQ => s += "»",
            OE => s += "⟦",
            CE => s += "⟧",
            c if c >= IND => s += &format!("⇥{}", c as i64 - i64::from(IND) - 40_000),
            c => s.push(char::from_u32(c).unwrap_or('?')),
        }
    }
    s
}

fn one<K: Kit>(generated: &[Generated<K::L>]) -> Res
where
    K::L: LangSupportsEval,
{
    let mut t = Tokens::<K::L>::new();
    let mut base = MStream::<char>::default();
    let n = sim::range(1, 4);
    for _ in 0..n {
        if sim::flip(2, 3) {
            step::<K>(sim::pick(generated), &mut t, &mut base)?;
        } else {
            let which = sim::draw(templates::TEMPLATES);
            with_template!(which, T => step::<K>(
                &Generated { name: T::NAME, real: T::real::<K::L>, model: T::model },
                &mut t,
                &mut base,
            )?);
        }
    }
    // What came out of it is a stream like any other.
    let mut depth = 0i32;
    let mut whole = true;
    let mut m = MStream::<K::S>::default();
    for i in &base.items {
        let item = match i {
            MItem::Imp(c) => {
                if let Some(MItem::Lit(s)) = m.items.last_mut() {
                    s.push(*c);
                    continue;
                }
                MItem::Lit(c.to_string())
            }
            MItem::Space => MItem::Space,
            MItem::Push => MItem::Push,
            MItem::Line => MItem::Line,
            MItem::OQ(e) => {
                depth += 1;
                MItem::OQ(*e)
            }
            MItem::CQ => {
                depth -= 1;
                MItem::CQ
            }
            MItem::OE => MItem::OE,
            MItem::CE => MItem::CE,
            MItem::Ind(n) => MItem::Ind(*n),
            MItem::Reg(_) => MItem::Lit(String::new()),
            MItem::Lit(_) => unreachable!(),
        };
        m.items.push(item);
        whole &= depth <= 1;
    }
    if !whole || depth != 0 {
        // Interrupted inside of a string: formatting it is C12's business.
        return Ok(());
    }
    // The account does not say how literals are cut, which matters where a lone
    // literal is evaluated in a shorter form.
    if K::eval_literal("x") != format!("{}x{}", K::open_eval(), K::close_eval()) {
        return Ok(());
    }
    let cm = K::CM::default();
    let want = exec::expected::<K>(&m, &cm, &FmtCfg::DEFAULT, false).text;
    let got = exec::calm("formatting the result", || exec::to_text::<K>(&t, &cm, &FmtCfg::DEFAULT, false))?;
    match got {
        Ok(got) => ensure!(got == want, "document", "{}: {}", K::NAME, exec::diff(&got, &want)),
        Err(_) => viol!("document", "{}: formatting the result of complete templates fails", K::NAME),
    }
    Ok(())
}

fn step<K: Kit>(g: &Generated<K::L>, t: &mut Tokens<K::L>, base: &mut MStream<char>) -> Res
where
    K::L: LangSupportsEval,
{
    let seed = sim::draw(1 << 32);
    // How many probes are there to fail at?
    let dry = Pr::new(seed, false, None);
    let mut items = MV::new();
    let _ = (g.model)(&mut items, &dry);
    let total = dry.count();
    let at = if sim::flip(2, 3) && total > 0 {
        Some((sim::draw(total), if sim::flip(1, 2) { How::Crash } else { How::Question }))
    } else {
        None
    };
    tr!("template {} seed {seed} of {total} probes, fault {at:?}", g.name);
    sim::sched_ev("template", seed, total);
    let mp = Pr::new(seed, false, at);
    items.clear();
    let want: Flow = (g.model)(&mut items, &mp);
    let rp = Pr::new(seed, true, at);
    let got: Flow = match guarded(|| (g.real)(t, &rp)) {
        Ok(f) => f,
        Err(Caught::Injected(_)) if rp.fired.get() => Err(Left::Crash),
        Err(c) => viol!("panic", "{}: {c:?}", g.name),
    };
    let (rl, ml) = (rp.log.borrow(), mp.log.borrow());
    if *rl != *ml {
        let i = rl.iter().zip(ml.iter()).take_while(|(a, b)| a == b).count();
        viol!(
            "evaluation_order",
            "{}: after {i} evaluations the template evaluates {:?}, expected {:?} (interpolation, occurrence)",
            g.name,
            rl.get(i),
            ml.get(i)
        );
    }
    ensure!(got == want, "outcome", "{}: ended with {got:?}, expected {want:?}", g.name);
    let real = norm(t);
    let add = chars(&items);
    base.add_all(&add);
    ensure!(
        equal(&real, base),
        if got.is_ok() { "stream" } else { "left_early" },
        "{} ended with {got:?}: stream is {} and should be {}",
        g.name,
        show(&real),
        show(&base.items.iter().map(code).collect::<Vec<_>>())
    );
    sim::ev("stream", real.len() as u64, rl.len() as u64);
    Ok(())
}
