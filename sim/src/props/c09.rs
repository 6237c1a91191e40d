//! C09: streams keep their structural guarantees through any interrupted
//! history.

use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

use genco::tokens::{Item, ItemStr};
use genco::Tokens;

use crate::exec::{self, diff, FmtCfg};
use crate::gen::{self, GenCfg};
use crate::history::Hist;
use crate::kits::{draw_kit, Kit};
use crate::props::Prop;
use crate::sim::{self, Res};
use crate::{ensure, viol, with_kit};

pub static PROP: Prop = Prop {
    id: "C09",
    run,
    quick: 2000000,
    thorough_factor: 50,
    cross_process: false,
    rule: "a run is a history of up to 14 steps over three streams, some interrupted by a crash or failed allocation; after every step each stream is compared item by item with a model and against streams of the same content built another way; non-trivial if a step was interrupted; distinct by the hash of its events",
};

fn run() -> Res {
    let k = draw_kit();
    with_kit!(k, K => one::<K>())
}

fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn one<K: Kit>() -> Res {
    let g = GenCfg::full(6);
    let mut h = Hist::<K>::new(3, g, true);
    let n = sim::range(1, 14);
    for _ in 0..n {
        h.step()?;
        h.trim();
        for (i, s) in h.slots.iter().enumerate() {
            if let Err(e) = gen::same::<K>(&s.t, &s.m) {
                viol!("structure", "{} stream {i}: {e}", K::NAME);
            }
            ensure!(
                s.t.is_empty() == s.m.items.is_empty(),
                "structure",
                "{} stream {i}: is_empty() is {} with {} items",
                K::NAME,
                s.t.is_empty(),
                s.m.items.len()
            );
        }
        if sim::flip(1, 4) {
            let s = &h.slots[sim::draw(3) as usize];
            iterate(&s.t, s.m.items.len(), K::NAME)?;
        }
        if sim::flip(1, 3) {
            let i = sim::draw(3) as usize;
            let j = sim::draw(3) as usize;
            compare::<K>(&h, i, j)?;
        }
    }
    if sim::flip(1, 3000) {
        h.grow(0)?;
        let s = &h.slots[0];
        if let Err(e) = gen::same::<K>(&s.t, &s.m) {
            viol!("structure", "{} very long stream: {e}", K::NAME);
        }
        h.trim();
    }
    // Further use behaves as for a stream built without interruption.
    let i = sim::draw(3) as usize;
    let s = &h.slots[i];
    // (unless quotes were left open)
    let mut f = FmtCfg::DEFAULT.mfmt::<K>();
    let cm = K::CM::default();
    if crate::kits::render_file::<K>(&mut f, &s.m.items, &cm).is_ok() {
        let want = f.as_text();
        match exec::calm("formatting", || exec::to_text::<K>(&s.t, &cm, &FmtCfg::DEFAULT, true))? {
            Ok(x) => ensure!(x == want, "further_use", "{}: {}", K::NAME, diff(&x, &want)),
            Err(e) => viol!("further_use", "{}: {e:?}", K::NAME),
        }
    }
    Ok(())
}

/// Size hints are promises; a stream may be read with any of the usual methods.
fn iterate<L: genco::lang::Lang>(t: &Tokens<L>, n: usize, name: &str) -> Res {
    let mut by_ref = t.iter();
    let mut owned = t.clone().into_iter();
    for left in (0..=n).rev() {
        for (low, high) in [by_ref.size_hint(), owned.size_hint()] {
            ensure!(
                low <= left && high.is_none_or(|h| left <= h),
                "size_hint",
                "{name}: size hint ({low}, {high:?}) with {left} items left"
            );
        }
        let (a, b) = (by_ref.next(), owned.next());
        ensure!(a.is_some() == (left > 0) && a == b.as_ref(), "iterate", "{name}: {a:?} / {b:?} with {left} items left");
    }
    let at = sim::draw(n as u64 + 2) as usize;
    let item = t.iter().nth(at);
    ensure!(item == t.iter().collect::<Vec<_>>().get(at).copied(), "iterate", "{name}: nth({at}) is {item:?}");
    ensure!(t.iter().count() == n && t.into_iter().count() == n, "iterate", "{name}: count() is not {n}");
    ensure!(t.iter().last() == t.clone().into_iter().last().as_ref(), "iterate", "{name}: last() differs");
    ensure!(t.iter().skip(at).count() == n.saturating_sub(at), "iterate", "{name}: skip({at})");
    Ok(())
}

/// A stream and the list or slice of another stream's items.
fn unlike<L: genco::lang::Lang>(t: &Tokens<L>, items: &Vec<Item<L>>, differ: bool, name: &str) -> Res {
    let other = Tokens::from_iter(items.iter());
    let answers =
        [*t != *items, *items != *t, *t != items[..], items[..] != *t, t != &other, &other != t, t.iter().ne(other.iter()),
            t.iter().cmp(items.iter()).is_ne(), items.iter().cmp(t.iter()).is_ne()];
    ensure!(
        answers.iter().all(|&x| x == differ),
        "equality",
        "{name}: is {t:?} unlike {items:?}? It is said to be {answers:?} and is {differ}"
    );
    Ok(())
}

fn compare<K: Kit>(h: &Hist<K>, i: usize, j: usize) -> Res {
    let (a, b) = (&h.slots[i], &h.slots[j]);
    let twin = gen::build_raw::<K>(&a.m.items, sim::draw(1 << 12));
    ensure!(a.t == twin && twin == a.t, "equality", "{}: equal content compares unequal: {:?} / {twin:?}", K::NAME, a.t);
    ensure!(a.t.cmp(&twin) == Ordering::Equal, "equality", "{}: equal content orders as {:?}", K::NAME, a.t.cmp(&twin));
    ensure!(hash(&a.t) == hash(&twin), "equality", "{}: equal content hashes differently: {:?}", K::NAME, a.t);
    let items: Vec<Item<K::L>> = twin.iter().cloned().collect();
    ensure!(a.t == items && items == a.t, "equality", "{}: differs from the list of its items", K::NAME);
    ensure!(a.t == items[..] && items[..] == a.t, "equality", "{}: differs from the slice of its items", K::NAME);
    let others: Vec<Item<K::L>> = b.t.iter().cloned().collect();
    let differ = a.m.items != b.m.items;
    unlike(&a.t, &others, differ, K::NAME)?;
    unlike(&b.t, &items, differ, K::NAME)?;
    if !items.is_empty() {
        // One item less.
        let mut fewer = items.clone();
        let at = if sim::flip(1, 2) { items.len() - 1 } else { sim::draw(items.len() as u64) as usize };
        let gone = fewer.remove(at);
        if fewer.get(at) != Some(&gone) {
            unlike(&a.t, &fewer, true, K::NAME)?;
        }
        ensure!(
            items.cmp(&fewer) == fewer.cmp(&items).reverse() && (at + 1 < items.len() || items > fewer),
            "equality",
            "{}: ordering of items",
            K::NAME
        );
    }
    // One string cut short, or the other half of it.
    let own: Vec<Item<K::L>> = a.t.iter().cloned().collect();
    let texts: Vec<usize> =
        own.iter().enumerate().filter(|(_, i)| matches!(i, Item::Literal(s) if !s.is_empty())).map(|(i, _)| i).collect();
    if !texts.is_empty() {
        let at = *sim::pick(&texts);
        let Item::Literal(whole) = &own[at] else { unreachable!() };
        let cut = whole.char_indices().map(|(i, _)| i).filter(|_| sim::flip(1, 2)).last().unwrap_or(0);
        let part = match whole {
            ItemStr::Static(s) => ItemStr::Static(if cut > 0 && sim::flip(1, 2) { &s[cut..] } else { &s[..cut] }),
            s => ItemStr::from(&s[..cut]),
        };
        let mut shorter = own.clone();
        shorter[at] = Item::Literal(part);
        unlike(&a.t, &shorter, true, K::NAME)?;
    }
    let same = a.m == b.m;
    ensure!((a.t == b.t) == same, "equality", "{}: streams compare {} with content {:?} / {:?}", K::NAME, a.t == b.t, a.m.items, b.m.items);
    let (x, y) = (a.t.cmp(&b.t), b.t.cmp(&a.t));
    ensure!(x == y.reverse() && (x == Ordering::Equal) == same, "equality", "{}: ordering is not consistent: {x:?} {y:?} {same}", K::NAME);
    ensure!(a.t.partial_cmp(&b.t) == Some(x), "equality", "{}: partial ordering differs", K::NAME);
    // How a stream is nested does not matter, only what is added when.
    let mut t1: Tokens<K::L> = Tokens::new();
    t1.append(&a.t);
    t1.append(&b.t);
    let mut t2: Tokens<K::L> = a.t.clone();
    t2.extend(b.t.iter().cloned());
    ensure!(t1 == t2 && hash(&t1) == hash(&t2), "nesting", "{}: appending and extending differ: {t1:?} / {t2:?}", K::NAME);
    Ok(())
}
