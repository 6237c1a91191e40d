//! Random histories over a few streams: building steps of every kind, some of
//! them interrupted half-way, with a model stream next to every real one.

use std::borrow::Cow;

use genco::prelude::*;
use genco::tokens::{from_fn, FormatInto, Item};

use crate::exec::{guarded, Caught};
use crate::gen::{self, GenCfg, Op};
use crate::kits::{raw_item, Kit, Lr};
use crate::model::{MItem, MStream};
use crate::sim::{self, Res, Violation};
use crate::sink::crash;
use crate::{alloc, cb, ensure, tr, viol};

pub struct Slot<K: Kit> {
    pub t: Tokens<K::L>,
    pub m: MStream<K::S>,
}

pub struct Hist<K: Kit> {
    pub slots: Vec<Slot<K>>,
    pub salt: u64,
    /// Some steps are interrupted.
    pub faults: bool,
    pub g: GenCfg,
}

/// A size hint that is legal, whatever else it is.
#[derive(Clone, Copy, Debug)]
pub enum Hint {
    Exact,
    None,
    Loose(usize),
    Huge,
    LowOnly,
}

pub fn draw_hint() -> Hint {
    match sim::draw(5) {
        0 => Hint::Exact,
        1 => Hint::None,
        2 => Hint::Loose(sim::range(1, 100_000) as usize),
        3 => Hint::Huge,
        _ => Hint::LowOnly,
    }
}

impl Hint {
    pub fn of(self, left: usize) -> (usize, Option<usize>) {
        match self {
            Hint::Exact => (left, Some(left)),
            Hint::None => (0, None),
            Hint::Loose(n) => (left / 2, Some(left.saturating_add(n))),
            Hint::Huge => (0, Some(usize::MAX)),
            Hint::LowOnly => (left, None),
        }
    }
}

/// An iterator that may die half-way.
pub struct Feed<I> {
    pub inner: I,
    pub left: usize,
    pub hint: Hint,
    pub die_at: Option<usize>,
    pub n: usize,
}

impl<I: Iterator> Iterator for Feed<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        let _d = alloc::disarm();
        if self.die_at == Some(self.n) {
            sim::fault("iterator_crash", self.n as u64, 0);
            crash("crash in iterator");
        }
        self.n += 1;
        self.left = self.left.saturating_sub(1);
        self.inner.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.hint.of(self.left)
    }
}

/// An element of a list which may crash.
struct Element<'a, K: Kit> {
    op: &'a Op<K::S>,
    salt: u64,
    die: bool,
    copying: bool,
}

impl<K: Kit> Clone for Element<'_, K> {
    fn clone(&self) -> Self {
        if self.die && self.copying {
            let _d = alloc::disarm();
            sim::fault("element_clone_crash", 0, 0);
            crash("crash while copying an element");
        }
        Element { ..*self }
    }
}

impl<K: Kit> FormatInto<K::L> for Element<'_, K> {
    fn format_into(self, t: &mut Tokens<K::L>) {
        if self.die && !self.copying {
            let _d = alloc::disarm();
            sim::fault("element_crash", 0, 0);
            crash("crash in an element");
        }
        gen::apply_op::<K>(self.op, t, self.salt);
    }
}

impl<K: Kit> Hist<K> {
    pub fn new(n: usize, g: GenCfg, faults: bool) -> Hist<K> {
        Hist {
            slots: (0..n).map(|_| Slot { t: Tokens::new(), m: MStream::default() }).collect(),
            salt: sim::draw(1 << 12),
            faults,
            g,
        }
    }

    fn slot(&self) -> usize {
        sim::draw(self.slots.len() as u64) as usize
    }

    fn ops(&self) -> Vec<Op<K::S>> {
        let g = GenCfg { max: 6, ..self.g };
        gen::gen_ops::<K>(&g)
    }

    /// An interrupted step put some prefix of its items on top of what was there.
    fn settle(&mut self, i: usize, adds: &[MItem<K::S>], what: &str) -> Res {
        let mut m = self.slots[i].m.clone();
        let mut k = 0;
        loop {
            if gen::same::<K>(&self.slots[i].t, &m).is_ok() {
                tr!("  settled on {k} of {} items", adds.len());
                self.slots[i].m = m;
                return Ok(());
            }
            if k == adds.len() {
                break;
            }
            m.add(adds[k].clone());
            k += 1;
        }
        let got: Vec<String> = self.slots[i].t.iter().map(|i| format!("{i:?}")).collect();
        viol!(
            "not_a_prefix",
            "{} after {what}: stream holds {got:?}, which is not {:?} plus a prefix of {adds:?}",
            K::NAME,
            self.slots[i].m.items
        );
    }

    /// Nothing is promised about a stream that ran out of memory while it was
    /// built, other than that it can be dropped and that no other stream is
    /// affected.
    fn lose(&mut self, i: usize) {
        tr!("  slot {i} ran out of memory and starts over");
        self.slots[i].t = Tokens::new();
        self.slots[i].m = MStream::default();
    }

    fn outcome(&self, r: Result<(), Caught>, what: &str) -> Res<bool> {
        match r {
            Ok(()) => Ok(true),
            Err(c) if c.expected() => Ok(false),
            Err(c) => Err(Violation::new("panic", format!("{} {what}: {c:?}", K::NAME))),
        }
    }

    pub fn step(&mut self) -> Res {
        let kind = sim::weighted(&[8, 4, 4, 3, 3, 3, 3, 2, 1, if self.faults { 8 } else { 0 }]);
        let i = self.slot();
        let j = self.slot();
        sim::sched_ev("step", kind as u64, (i * 8 + j) as u64);
        let salt = self.salt;
        match kind {
            // Operations applied directly.
            0 => {
                let ops = self.ops();
                tr!("slot {i}: apply {ops:?}");
                let t = &mut self.slots[i].t;
                let r = guarded(|| gen::apply_ops::<K>(&ops, t, salt));
                ensure!(self.outcome(r, "apply")?, "panic", "apply was interrupted for no reason");
                gen::model_ops::<K>(&ops, &mut self.slots[i].m);
            }
            // One stream added to another (or to itself).
            1 => {
                tr!("slot {i}: add slot {j}");
                let sub = self.slots[j].t.clone();
                let items = self.slots[j].m.items.clone();
                let mut lr = Lr::new(sim::draw(1 << 16) as u32, salt);
                let t = &mut self.slots[i].t;
                let r = guarded(|| gen::add_stream(t, sub, &mut lr));
                ensure!(self.outcome(r, "add stream")?, "panic", "add was interrupted for no reason");
                self.slots[i].m.add_all(&items);
            }
            // Items fed one by one through an iterator.
            2 => {
                let items = self.slots[j].m.items.clone();
                let hint = draw_hint();
                tr!("slot {i}: extend with slot {j}, {hint:?}");
                let src: Vec<Item<K::L>> = self.slots[j].t.iter().cloned().collect();
                let left = src.len();
                let t = &mut self.slots[i].t;
                let r = guarded(|| t.extend(Feed { inner: src.into_iter(), left, hint, die_at: None, n: 0 }));
                ensure!(self.outcome(r, "extend")?, "panic", "extend was interrupted for no reason");
                self.slots[i].m.add_all(&items);
            }
            // Collected, in parts.
            3 if sim::flip(1, 2) => self.select(i, j)?,
            // Collected.
            3 => {
                let hint = draw_hint();
                tr!("slot {i}: collect slot {j}, {hint:?}");
                let by_ref = sim::flip(1, 2);
                let src = &self.slots[j].t;
                let left = src.iter().count();
                let r = guarded(|| -> Tokens<K::L> {
                    if by_ref {
                        Feed { inner: src.iter(), left, hint, die_at: None, n: 0 }.collect()
                    } else {
                        Feed { inner: src.iter().cloned(), left, hint, die_at: None, n: 0 }.collect()
                    }
                });
                let t = match r {
                    Ok(t) => t,
                    Err(c) => viol!("panic", "{} collect: {c:?}", K::NAME),
                };
                self.slots[i].t = t;
                self.slots[i].m = self.slots[j].m.clone();
            }
            // Cloned.
            4 => {
                tr!("slot {i}: clone of slot {j}");
                let c = self.slots[j].t.clone();
                if sim::flip(1, 2) {
                    self.slots[i].t.clone_from(&c);
                } else {
                    self.slots[i].t = c;
                }
                self.slots[i].m = self.slots[j].m.clone();
            }
            // Taken apart and put together again.
            5 => {
                tr!("slot {i}: split, the rest to slot {j}");
                let t = std::mem::take(&mut self.slots[i].t);
                let m = std::mem::take(&mut self.slots[i].m);
                let at = sim::draw(m.items.len() as u64 + 1) as usize;
                let mut it = t.into_iter();
                let head: Tokens<K::L> = it.by_ref().take(at).collect();
                self.slots[i].t = head;
                self.slots[i].m.add_all(&m.items[..at]);
                let rest = &m.items[at..];
                if sim::flip(1, 2) {
                    self.slots[j].t.extend(it);
                    self.slots[j].m.add_all(rest);
                } else {
                    drop(it);
                }
            }
            // Raw items in any order.
            6 => {
                let mut lr = Lr::new(sim::draw(1 << 16) as u32, salt);
                let flat = gen::flat::<K>(&self.ops());
                tr!("slot {i}: raw items {flat:?}");
                for it in &flat {
                    let real = raw_item::<K>(it, &mut lr);
                    if lr.n(2) == 0 {
                        self.slots[i].t.append(real);
                    } else {
                        self.slots[i].t.extend(Some(real));
                    }
                    self.slots[i].m.add(it.clone());
                }
            }
            // Prepared with a capacity.
            7 => {
                let n = [0usize, 1, 3, 64][sim::draw(4) as usize];
                tr!("slot {i}: fresh, capacity {n}, then slot {j} moved in");
                let sub = std::mem::take(&mut self.slots[j].t);
                let m = std::mem::take(&mut self.slots[j].m);
                let mut t = Tokens::with_capacity(n);
                t.append(sub);
                self.slots[i].t = t;
                self.slots[i].m = MStream::default();
                self.slots[i].m.add_all(&m.items);
            }
            // Emptied.
            8 => {
                tr!("slot {i}: emptied");
                self.slots[i].t = Tokens::new();
                self.slots[i].m = MStream::default();
            }
            _ => self.interrupted(i, j)?,
        }
        Ok(())
    }

    /// A stream of some of the items of others.
    fn select(&mut self, i: usize, j: usize) -> Res {
        let k = self.slot();
        let (a, b) = (&self.slots[j], &self.slots[k]);
        let refs: Vec<&Item<K::L>> = a.t.iter().collect();
        let n = refs.len() as u64;
        // Which items, in which order; the second stream's come after.
        let mut idx: Vec<usize> = (0..refs.len()).collect();
        match sim::draw(6) {
            0 => idx.drain(..sim::draw(n + 1) as usize).for_each(drop),
            1 => idx.truncate(sim::draw(n + 1) as usize),
            2 => {
                let d = sim::range(2, 4) as usize;
                idx = idx.into_iter().step_by(d).collect();
            }
            3 => {
                let keep = sim::draw(3);
                idx.retain(|x| match keep {
                    0 => matches!(refs[*x], Item::Lang(..) | Item::Register(..)),
                    1 => !matches!(refs[*x], Item::Lang(..)),
                    _ => !matches!(refs[*x], Item::Register(..) | Item::Literal(..)),
                });
            }
            4 => idx.reverse(),
            _ => {
                let bits = sim::draw(1 << 16) as usize;
                idx.retain(|x| bits >> (x % 16) & 1 == 1);
            }
        }
        let chain = sim::flip(1, 3);
        let twice = sim::flip(1, 6);
        let mut flat = Vec::new();
        for _ in 0..1 + usize::from(twice) {
            flat.extend(idx.iter().map(|x| a.m.items[*x].clone()));
            if chain {
                flat.extend(b.m.items.iter().cloned());
            }
        }
        let form = sim::draw(4);
        let mut want = MStream::default();
        if form == 3 {
            let mid = flat.len() / 2;
            want.add_all(&flat[..mid]);
            let mut second = MStream::default();
            second.add_all(&flat[mid..]);
            want.add_all(&second.items);
        } else {
            want.add_all(&flat);
        }
        tr!("slot {i}: items {idx:?} of slot {j}, chain {chain} slot {k}, twice {twice}, form {form}");
        let mut list: Vec<&Item<K::L>> = idx.iter().map(|x| refs[*x]).collect();
        if chain {
            list.extend(b.t.iter());
        }
        if twice {
            list.extend(list.clone());
        }
        let left = list.len();
        let hint = draw_hint();
        let r = guarded(|| -> Tokens<K::L> {
            match form {
                0 => Feed { inner: list.into_iter(), left, hint, die_at: None, n: 0 }.collect(),
                1 => Feed { inner: list.into_iter().cloned(), left, hint, die_at: None, n: 0 }.collect(),
                2 => {
                    let mut t = Tokens::new();
                    t.extend(list.into_iter().cloned());
                    t
                }
                _ => {
                    // In two halves.
                    let mid = left / 2;
                    let mut t: Tokens<K::L> = list[..mid].iter().copied().collect();
                    let u: Tokens<K::L> = list[mid..].iter().copied().collect();
                    t.append(u);
                    t
                }
            }
        });
        match r {
            Ok(t) => self.slots[i] = Slot { t, m: want },
            Err(c) => viol!("panic", "{} collect: {c:?}", K::NAME),
        }
        Ok(())
    }

    fn interrupted(&mut self, i: usize, j: usize) -> Res {
        let salt = self.salt;
        let kind = sim::draw(7);
        match kind {
            // A closure crashes between two operations.
            0 | 1 => {
                let ops = self.ops();
                let at = sim::draw(ops.len() as u64 + 1) as usize;
                tr!("slot {i}: crash before operation {at} of {ops:?}");
                let adds = gen::flat::<K>(&ops);
                let t = &mut self.slots[i].t;
                let ops_ref = &ops;
                let r = guarded(|| {
                    let f = |o: &mut Tokens<K::L>| {
                        for (n, op) in ops_ref.iter().enumerate() {
                            if n == at {
                                sim::fault("closure_crash", n as u64, 0);
                                crash("crash in closure");
                            }
                            gen::apply_op::<K>(op, o, salt);
                        }
                    };
                    if kind == 0 {
                        t.append(from_fn(f))
                    } else {
                        quote_in! { *t => $(ref o => f(o)) }
                    }
                });
                if self.outcome(r, "crashing closure")? {
                    self.slots[i].m.add_all(&adds);
                    return Ok(());
                }
                self.settle(i, &adds, "a crash in a closure")
            }
            // An iterator crashes.
            2 => {
                let items = self.slots[j].m.items.clone();
                let at = sim::draw(items.len() as u64 + 1) as usize;
                let hint = draw_hint();
                tr!("slot {i}: iterator over slot {j} crashes at {at}, {hint:?}");
                let src: Vec<Item<K::L>> = self.slots[j].t.iter().cloned().collect();
                let left = src.len();
                let t = &mut self.slots[i].t;
                let r = guarded(|| t.extend(Feed { inner: src.into_iter(), left, hint, die_at: Some(at), n: 0 }));
                if self.outcome(r, "crashing iterator")? {
                    self.slots[i].m.add_all(&items);
                    return Ok(());
                }
                self.settle(i, &items, "a crash in an iterator")
            }
            // Copying an item crashes (only the custom language's items do).
            3 => {
                let items = self.slots[j].m.items.clone();
                let at = sim::draw(4);
                let src = self.slots[j].t.clone();
                tr!("slot {i}: clone {at} crashes while adding slot {j}");
                cb::plan_clone(Some(at));
                let t = &mut self.slots[i].t;
                let how = sim::draw(1 << 16) as u32;
                let r = guarded(|| match how % 3 {
                    0 => t.append(&src),
                    1 => t.extend(src.iter().cloned()),
                    _ => gen::add_stream(t, src, &mut Lr::new(how, salt)),
                });
                cb::plan_clone(None);
                if self.outcome(r, "crashing clone")? {
                    self.slots[i].m.add_all(&items);
                    return Ok(());
                }
                self.settle(i, &items, "a crash while cloning")
            }
            // Memory runs out.
            4 => {
                let ops = self.ops();
                let adds = gen::flat::<K>(&ops);
                let at = sim::draw(40);
                tr!("slot {i}: allocation {at} fails while applying {ops:?}");
                let t = &mut self.slots[i].t;
                alloc::set_fail_at(Some(at), false);
                let r = guarded(|| gen::apply_ops::<K>(&ops, t, salt));
                let failed = alloc::failed();
                alloc::set_fail_at(None, false);
                if failed > 0 {
                    sim::fault("alloc_failure", at, 0);
                }
                if self.outcome(r, "allocation failure")? {
                    self.slots[i].m.add_all(&adds);
                    return Ok(());
                }
                self.lose(i);
                Ok(())
            }
            // One element of a list crashes, while it is copied or while it
            // adds itself.
            5 => {
                let ops = self.ops();
                let at = sim::draw(ops.len() as u64 + 1) as usize;
                let copying = sim::flip(1, 2);
                let form = sim::draw(6);
                tr!("slot {i}: element {at} of list {ops:?} crashes, copying {copying}, form {form}");
                let adds = gen::flat::<K>(&ops);
                let t = &mut self.slots[i].t;
                let list: Vec<Element<'_, K>> =
                    ops.iter().enumerate().map(|(n, op)| Element { op, salt, die: n == at, copying }).collect();
                let r = guarded(|| match form {
                    0 => t.append(list),
                    1 => t.append(&list),
                    2 => t.append(&list[..]),
                    3 => t.append(Cow::Borrowed(&list[..])),
                    4 => t.append(&Cow::Borrowed(&list[..])),
                    _ => t.append(&Cow::<'_, [Element<'_, K>]>::Owned(list)),
                });
                if self.outcome(r, "crashing element")? {
                    self.slots[i].m.add_all(&adds);
                    return Ok(());
                }
                self.settle(i, &adds, "a crash in an element of a list")
            }
            // Memory runs out while one stream is added to another.
            _ => {
                let items = self.slots[j].m.items.clone();
                let sub = self.slots[j].t.clone();
                let mut lr = Lr::new(sim::draw(1 << 16) as u32, salt);
                let at = sim::draw(items.len() as u64 + 6);
                tr!("slot {i}: allocation {at} fails while adding slot {j}");
                let t = &mut self.slots[i].t;
                alloc::set_fail_at(Some(at), false);
                let r = guarded(|| gen::add_stream(t, sub, &mut lr));
                let failed = alloc::failed();
                alloc::set_fail_at(None, false);
                if failed > 0 {
                    sim::fault("alloc_failure", at, 1);
                }
                if self.outcome(r, "allocation failure")? {
                    self.slots[i].m.add_all(&items);
                    return Ok(());
                }
                self.lose(i);
                Ok(())
            }
        }
    }

    /// Makes a stream very long.
    pub fn grow(&mut self, i: usize) -> Res {
        let n = *sim::pick(&[70_000usize, 400, 5_000]);
        if self.slots[i].m.items.is_empty() {
            self.slots[i].t.append("x");
            self.slots[i].m.lit("x");
        }
        let mut last = 0;
        while self.slots[i].m.items.len() < n && self.slots[i].m.items.len() > last {
            last = self.slots[i].m.items.len();
            let s = &mut self.slots[i];
            let c = s.t.clone();
            let r = guarded(|| s.t.append(c));
            let items = s.m.items.clone();
            s.m.add_all(&items);
            ensure!(self.outcome(r, "growing")?, "panic", "append was interrupted for no reason");
        }
        tr!("slot {i}: grown to {} items", self.slots[i].m.items.len());
        sim::ev("grown", self.slots[i].m.items.len() as u64, 0);
        Ok(())
    }

    /// Bound the work: histories double streams.
    pub fn trim(&mut self) {
        for s in &mut self.slots {
            if s.m.items.len() > 300 {
                s.t = Tokens::new();
                s.m = MStream::default();
            }
        }
    }
}
