//! C08: walking imports yields exactly the imports present, after any history.

use crate::exec::calm;
use crate::gen::GenCfg;
use crate::history::Hist;
use crate::kits::{Kit, Lr};
use crate::props::Prop;
use crate::sim::{self, Res};
use crate::{ensure, with_kit};

pub static PROP: Prop = Prop {
    id: "C08",
    run,
    quick: 2000000,
    thorough_factor: 50,
    cross_process: false,
    rule: "a run is a history of up to 14 steps over three streams (operations, extending, collecting, cloning, nesting, splitting), some interrupted by a crash or failed allocation; after every step the imports of all streams are walked; non-trivial if a step was interrupted; distinct by the hash of its events",
};

fn run() -> Res {
    let k = if sim::flip(1, 3) { 11 } else { sim::draw(12) };
    with_kit!(k, K => one::<K>())
}

pub fn walk_ok<K: Kit>(t: &genco::Tokens<K::L>, m: &crate::model::MStream<K::S>, when: &str) -> Res {
    let mut lr = Lr(0);
    let mut want: Vec<_> = m.imports().into_iter().map(|s| K::item(s, &mut lr)).collect();
    let limit = m.items.len() + 2;
    let mut got = calm("walking imports", || t.walk_imports().take(limit).collect::<Vec<_>>())?;
    ensure!(got.len() < limit, "endless", "{} {when}: walking yields more imports than there are items", K::NAME);
    want.sort();
    got.sort();
    ensure!(
        got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| **a == *b),
        "imports",
        "{} {when}: walked {got:?}, the stream holds {want:?}",
        K::NAME
    );
    Ok(())
}

fn one<K: Kit>() -> Res {
    let g = GenCfg { imports: true, quotes: true, nest: true, deep: false, max: 6 };
    let mut h = Hist::<K>::new(3, g, true);
    let n = sim::range(1, 14);
    for _ in 0..n {
        h.step()?;
        h.trim();
        for s in &h.slots {
            walk_ok::<K>(&s.t, &s.m, "after a step")?;
            if sim::flip(1, 4) {
                // A walk given up half-way, another one at the same time.
                let total = s.m.imports().len();
                let mut a = s.t.walk_imports();
                let mut b = s.t.walk_imports();
                let _ = a.next();
                let mut n = 0;
                while b.next().is_some() {
                    n += 1;
                    if n > total + 1 {
                        break;
                    }
                    if n % 2 == 0 {
                        let _ = a.next();
                    }
                }
                ensure!(n == total, "imports", "{}: interleaved walks: {n} of {total}", K::NAME);
                ensure!(b.next().is_none(), "endless", "{}: a finished walk goes on", K::NAME);
            }
        }
    }
    if sim::flip(1, 3000) {
        h.grow(0)?;
        walk_ok::<K>(&h.slots[0].t, &h.slots[0].m, "in a very long stream")?;
    }
    for s in &h.slots {
        walk_ok::<K>(&s.t.clone(), &s.m, "in a clone")?;
    }
    Ok(())
}
