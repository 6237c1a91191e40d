//! C06: the import preamble is complete, minimal and independent of assembly
//! order. Fragments are messages on a bus that reorders, duplicates, truncates
//! and redelivers.

use std::collections::BTreeSet;

use genco::prelude::*;
use genco::tokens::from_fn;

use crate::exec::{self, calm, diff, guarded, Doc, FmtCfg};
use crate::gen::{self, GenCfg, Op};
use crate::kits::{Kit, Lr, Wide};
use crate::model::{MItem, MStream};
use crate::props::Prop;
use crate::sim::{self, Res};
use crate::sink::crash;
use crate::{ensure, tr, viol, with_kit};

pub static PROP: Prop = Prop {
    id: "C06",
    run,
    quick: 1400000,
    thorough_factor: 50,
    cross_process: false,
    rule: "a run produces fragments with imports and assembles the same file from them several times over a bus that reorders, duplicates, truncates and redelivers them; non-trivial if the bus disturbed the delivery of at least one fragment with imports; distinct by the hash of its events",
};

fn run() -> Res {
    let k = sim::draw(10);
    with_kit!(k, K => one::<K>())
}

/// Separates preamble and body; no preamble contains it.
const MARK: &str = "\u{2603}body\u{2603}";

pub struct Built<K: Kit> {
    pub t: Tokens<K::L>,
    pub m: MStream<K::S>,
}

/// Deliver one fragment, whole.
fn deliver<K: Kit>(b: &mut Built<K>, f: &[Op<K::S>], salt: u64) -> Res {
    let mut lr = Lr::new(sim::draw(1 << 16) as u32, salt);
    if sim::flip(1, 2) {
        let sub = calm("fragment", || gen::build::<K>(f, salt))?;
        calm("adding a fragment", || gen::add_stream(&mut b.t, sub, &mut lr))?;
        let mut m = MStream::default();
        gen::model_ops::<K>(f, &mut m);
        b.m.add_all(&m.items);
    } else {
        let t = &mut b.t;
        calm("adding a fragment", || gen::apply_ops::<K>(f, t, salt))?;
        gen::model_ops::<K>(f, &mut b.m);
    }
    Ok(())
}

/// The producer dies while its fragment is being written.
fn deliver_part<K: Kit>(b: &mut Built<K>, f: &[Op<K::S>], at: usize, salt: u64) -> Res {
    sim::fault("producer_crash", at as u64, f.len() as u64);
    let t = &mut b.t;
    let r = guarded(|| {
        t.append(from_fn(|t: &mut Tokens<K::L>| {
            gen::apply_ops::<K>(&f[..at], t, salt);
            crash("producer");
        }))
    });
    match r {
        Err(c) if c.expected() => {}
        other => viol!("panic", "a crashing producer: {other:?}"),
    }
    gen::model_ops::<K>(&f[..at], &mut b.m);
    Ok(())
}

pub fn assemble<K: Kit>(frags: &[Vec<Op<K::S>>], disturb: bool) -> Res<Built<K>> {
    let mut b = Built::<K> { t: Tokens::new(), m: MStream::default() };
    b.t.append(MARK);
    b.m.lit(MARK);
    b.t.line();
    b.m.line();
    let salt = sim::draw(1 << 12);
    let mut queue: Vec<usize> = (0..frags.len()).collect();
    while !queue.is_empty() {
        let at = if disturb { sim::draw(queue.len() as u64) as usize } else { 0 };
        if at != 0 {
            sim::fault("reordered", at as u64, queue.len() as u64);
        }
        let i = queue[at];
        let f = &frags[i];
        if disturb && f.len() > 1 && sim::flip(1, 6) {
            // Stays in the queue: will be delivered again.
            let cut = sim::range(1, f.len() as u64 - 1) as usize;
            deliver_part::<K>(&mut b, f, cut, salt)?;
            continue;
        }
        deliver::<K>(&mut b, f, salt)?;
        if disturb && sim::flip(1, 6) {
            sim::fault("duplicated", i as u64, 0);
            continue;
        }
        queue.remove(at);
    }
    Ok(b)
}

pub fn render<K: Kit>(b: &Built<K>, cm: &K::CM, fc: &FmtCfg) -> Res<(String, Doc)> {
    let doc = exec::expected::<K>(&b.m, cm, fc, true);
    match calm("formatting", || exec::to_text::<K>(&b.t, cm, fc, true))? {
        Ok(s) => Ok((s, doc)),
        Err(e) => viol!("error", "{}: {e:?}", K::NAME),
    }
}

fn one<K: Kit>() -> Res {
    let n = sim::range(1, 5);
    let g = GenCfg { imports: true, quotes: true, nest: true, deep: false, max: *sim::pick(&[3u64, 1, 6]) };
    let mut frags: Vec<Vec<Op<K::S>>> = Vec::new();
    for _ in 0..n {
        let mut f = gen::gen_ops::<K>(&g);
        // Fragments are about imports.
        for _ in 0..sim::draw(3) {
            let s = K::gen_spec();
            f.push(if sim::flip(1, 3) { Op::Reg(s, 0) } else { Op::Imp(s, sim::draw(1 << 16) as u32) });
            f.push(Op::Space);
        }
        frags.push(f);
    }
    if sim::flip(1, 50) {
        // Something may only go wrong with many imports.
        let _w = Wide::new();
        let n = *sim::pick(&[20u64, 40, 80, 150]);
        for _ in 0..2 {
            let f = (0..sim::range(1, n))
                .map(|_| if sim::flip(1, 2) { Op::Reg(K::gen_spec(), 0) } else { Op::Imp(K::gen_spec(), 0) })
                .collect();
            frags.push(f);
        }
    }
    let cm = if sim::flip(1, 2) { K::gen_cfg() } else { K::CM::default() };
    let fc = if sim::flip(1, 4) { FmtCfg::gen() } else { FmtCfg::DEFAULT };
    for f in &frags {
        tr!("fragment {f:?}");
    }
    tr!("language {} config {cm:?} {fc:?}", K::NAME);
    let first = assemble::<K>(&frags, false)?;
    let (text, doc) = render::<K>(&first, &cm, &fc)?;
    ensure!(text == doc.text, "preamble", "{}: {}", K::NAME, diff(&text, &doc.text));
    sim::hash_bytes("doc", text.as_bytes());
    let Some(cut) = text.find(MARK) else { viol!("preamble", "{}: the body is gone: {text:?}", K::NAME) };
    let pre = &text[..cut];
    let imports: BTreeSet<K::S> = first.m.imports().into_iter().cloned().collect();
    for _ in 0..sim::range(1, 3) {
        let other = assemble::<K>(&frags, true)?;
        let again: BTreeSet<K::S> = other.m.imports().into_iter().cloned().collect();
        assert_eq!(imports, again, "harness: the bus lost imports");
        let (t2, d2) = render::<K>(&other, &cm, &fc)?;
        ensure!(t2 == d2.text, "preamble", "{}: disturbed delivery: {}", K::NAME, diff(&t2, &d2.text));
        ensure!(
            t2.get(..cut) == Some(pre) && t2[cut..].starts_with(MARK),
            "order_dependent",
            "{}: the preamble depends on the order of delivery: {}",
            K::NAME,
            diff(&t2, &text)
        );
    }
    // Nothing but imports matters to the preamble.
    if sim::flip(1, 3) {
        let mut only = Built::<K> { t: Tokens::new(), m: MStream::default() };
        only.t.append(MARK);
        only.m.lit(MARK);
        let mut lr = Lr::new(1, 5);
        for s in &imports {
            K::add(&mut only.t, s, sim::flip(1, 2), &mut lr);
            only.m.add(MItem::Imp(s.clone()));
        }
        let (t3, _) = match calm("formatting", || exec::to_text::<K>(&only.t, &cm, &fc, true))? {
            Ok(s) => (s, ()),
            Err(e) => viol!("error", "{}: {e:?}", K::NAME),
        };
        ensure!(
            t3.get(..cut) == Some(pre) && t3[cut..].starts_with(MARK),
            "order_dependent",
            "{}: registered and used imports differ: {}",
            K::NAME,
            diff(&t3, &text)
        );
    }
    Ok(())
}
