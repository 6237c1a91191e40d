//! C01: successful formatting delivers exactly the document, however the writer
//! acts.

use std::io::{BufWriter, LineWriter};

use crate::exec::{self, calm, diff, Case, FmtCfg};
use crate::gen::GenCfg;
use crate::kits::{draw_kit, Kit, Wide};
use crate::props::Prop;
use crate::sim::{self, Res};
use crate::sink::{Plan, Sink};
use crate::{ensure, tr, viol, with_kit};

pub static PROP: Prop = Prop {
    id: "C01",
    run,
    quick: 2000000,
    thorough_factor: 50,
    cross_process: false,
    rule: "a run generates a well-formed token stream for one of 12 languages, a configuration and writers that accept everything eventually (partial, interrupted, slow writes); it is non-trivial if a writer fault was injected and the document is not empty; distinct by the hash of its events",
};

fn run() -> Res {
    let k = draw_kit();
    with_kit!(k, K => one::<K>())
}

fn one<K: Kit>() -> Res {
    let max = if sim::flip(1, 200) { 300 } else { *sim::pick(&[6u64, 3, 14, 40]) };
    let _w = sim::flip(1, 50).then(Wide::new);
    let mut case = Case::<K>::gen(&GenCfg::full(max));
    if sim::flip(1, 5000) {
        case.repeat(*sim::pick(&[70_000usize, 300, 5_000]));
    }
    let doc = case.doc();
    tr!("document: {:?}", doc.text);
    let salt = sim::draw(1 << 12);
    let t = calm("building", || case.build(salt))?;
    let (cm, fc, file) = (&case.cm, &case.fc, case.file);
    if !doc.text.is_empty() {
        sim::stat("documents");
    }
    sim::hash_bytes("doc", doc.text.as_bytes());
    let n = sim::range(1, 3);
    for _ in 0..n {
        match sim::draw(8) {
            // A file, pipe or socket.
            0 | 1 => {
                let mut s = Sink::new(0, Plan::benign()).bound(doc.text.len());
                let r = calm("io writer", || exec::to_io::<K, _>(&t, cm, fc, file, &mut s))?;
                ensure!(r.is_ok(), "error", "{}: io::Write accepted everything, formatting returned {r:?}", K::NAME);
                let got = String::from_utf8_lossy(&s.data).into_owned();
                ensure!(s.data == doc.text.as_bytes(), "document", "{} io: {}", K::NAME, diff(&got, &doc.text));
            }
            2 | 3 => {
                let mut s = Sink::new(1, Plan::benign()).bound(doc.text.len());
                let r = calm("fmt writer", || exec::to_fmt::<K, _>(&t, cm, fc, file, &mut s))?;
                ensure!(r.is_ok(), "error", "{}: fmt::Write accepted everything, formatting returned {r:?}", K::NAME);
                ensure!(s.data == doc.text.as_bytes(), "document", "{} fmt: {}", K::NAME, diff(&s.text(), &doc.text));
            }
            // Buffered by the caller.
            4 => {
                let s = Sink::new(2, Plan::benign()).bound(doc.text.len());
                let cap = *sim::pick(&[1usize, 0, 2, 7, 64, 4096]);
                let mut b = BufWriter::with_capacity(cap, s);
                let r = calm("buffered writer", || exec::to_io::<K, _>(&t, cm, fc, file, &mut b))?;
                ensure!(r.is_ok(), "error", "{}: buffered writer: {r:?}", K::NAME);
                let s = match b.into_inner() {
                    Ok(s) => s,
                    Err(e) => viol!("error", "flush: {}", e.error()),
                };
                ensure!(s.data == doc.text.as_bytes(), "document", "{} buffered: {}", K::NAME, diff(&s.text(), &doc.text));
            }
            5 => {
                let s = Sink::new(3, Plan::benign()).bound(doc.text.len());
                let mut b = LineWriter::with_capacity(*sim::pick(&[8usize, 1, 100]), s);
                let r = calm("line writer", || exec::to_io::<K, _>(&t, cm, fc, file, &mut b))?;
                ensure!(r.is_ok(), "error", "{}: line writer: {r:?}", K::NAME);
                let s = match b.into_inner() {
                    Ok(s) => s,
                    Err(e) => viol!("error", "flush: {}", e.error()),
                };
                ensure!(s.data == doc.text.as_bytes(), "document", "{} lines: {}", K::NAME, diff(&s.text(), &doc.text));
            }
            6 => {
                let r = calm("line list", || exec::to_lines::<K>(&t, cm, fc, file))?;
                match r {
                    Ok(l) => ensure!(l == doc.lines, "document", "{} lines: got {l:?}, expected {:?}", K::NAME, doc.lines),
                    Err(e) => viol!("error", "{}: list of lines: {e:?}", K::NAME),
                }
            }
            _ => {
                let r = calm("string", || exec::to_text::<K>(&t, cm, fc, file))?;
                match r {
                    Ok(s) => ensure!(s == doc.text, "document", "{} string: {}", K::NAME, diff(&s, &doc.text)),
                    Err(e) => viol!("error", "{}: string: {e:?}", K::NAME),
                }
            }
        }
    }
    // The convenience functions use the defaults.
    if sim::flip(1, 4) {
        let (cm, fc) = (K::CM::default(), FmtCfg::DEFAULT);
        let body = exec::expected::<K>(&case.m, &cm, &fc, false);
        let whole = exec::expected::<K>(&case.m, &cm, &fc, true);
        sim::ev("convenience", 0, 0);
        let e = |x: &str| format!("{} {x}", K::NAME);
        match calm("to_string", || t.to_string())? {
            Ok(s) => ensure!(s == body.text, "document", "{}: {}", e("to_string"), diff(&s, &body.text)),
            Err(x) => viol!("error", "{}: {x:?}", e("to_string")),
        }
        match calm("to_file_string", || t.to_file_string())? {
            Ok(s) => ensure!(s == whole.text, "document", "{}: {}", e("to_file_string"), diff(&s, &whole.text)),
            Err(x) => viol!("error", "{}: {x:?}", e("to_file_string")),
        }
        match calm("to_vec", || t.to_vec())? {
            Ok(l) => ensure!(l == body.lines, "document", "{}: {l:?} != {:?}", e("to_vec"), body.lines),
            Err(x) => viol!("error", "{}: {x:?}", e("to_vec")),
        }
        match calm("to_file_vec", || t.to_file_vec())? {
            Ok(l) => ensure!(l == whole.lines, "document", "{}: {l:?} != {:?}", e("to_file_vec"), whole.lines),
            Err(x) => viol!("error", "{}: {x:?}", e("to_file_vec")),
        }
    }
    Ok(())
}
