//! C07: same-named types from different packages are never confused. The
//! generated file is read back and every name resolved by the language's rules.

use std::collections::{BTreeMap, BTreeSet};

use genco::prelude::*;
use genco::tokens::{from_fn, ItemStr};

use crate::exec::{self, calm, guarded, FmtCfg};
use crate::gen;
use crate::kits::{istr, CsharpK, CsharpS, JavaK, JavaS, Kit, Lr};
use crate::props::Prop;
use crate::sim::{self, Res};
use crate::sink::crash;
use crate::{ensure, tr, viol};

pub static PROP: Prop = Prop {
    id: "C07",
    run,
    quick: 1600000,
    thorough_factor: 50,
    cross_process: false,
    rule: "a run assembles a Java or C# file from uses of equally named types of several packages, in several orders with duplicated, crashed and repeated fragments, then resolves every name in the generated text; non-trivial if two types share a simple name and the order of assembly was disturbed; distinct by the hash of its events",
};

/// Disjoint from all packages, so that `A.B` can only be a qualified name.
const NAMES: [&str; 9] = [
    "Alpha", "Beta", "Gamma", "Alph", "B", "ALPHA", "Ärger", "Alpha10", "ATypeWhoseNameIsQuiteLongAndDoesNotFitIntoSmallBuffers0123456789",
];
const MANY: [&str; 24] = [
    "A0", "A1", "A2", "A3", "A4", "A5", "A6", "A7", "A8", "A9", "B0", "B1", "B2", "B3", "B4", "B5", "B6", "B7", "B8", "B9", "Alpha",
    "Beta", "Gamma", "B",
];
const JPK: [&str; 15] = [
    "java.lang",
    "com.example",
    "org.other",
    "java.util",
    "com.example.sub",
    "com",
    "java.lang.reflect",
    "java",
    "zz",
    "aa.bb",
    "java.lang2",
    "com.examples",
    "com.example.sub.sub.a_package_whose_name_is_quite_long.and_then.some_more0123456789",
    "org",
    "com.Example",
];
const CNS: [&str; 15] = [
    "Foo.Bar",
    "System",
    "Foo",
    "Other",
    "Foo.Bar.Baz",
    "System.Text",
    "Foo.Ba",
    "Zed.Foo",
    "Aaa",
    "Foo.Bar.Baz.Qux",
    "Foo.Bars",
    "Foo.bar",
    "F",
    "Foo.Bar.Baz.Qux.ANamespaceWhoseNameIsQuiteLong.AndThen.SomeMore0123456789",
    "System.Texts",
];

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Ty {
    pkg: &'static str,
    name: &'static str,
    qualified: bool,
}

#[derive(Clone, Copy, Debug)]
enum Use {
    /// Written into the body.
    Here,
    /// Registered only.
    Registered,
    /// Inside of a quoted string.
    InString,
}

fn run() -> Res {
    let many = sim::flip(1, 40);
    let names = if many { MANY.len() as u64 } else { sim::range(1, NAMES.len() as u64) };
    let java = sim::flip(1, 2);
    let pkgs: &[&'static str] = if java { &JPK } else { &CNS };
    let npk = sim::range(2, pkgs.len() as u64);
    let own = match sim::draw(4) {
        0 => None,
        1 => Some(if java { "com.example" } else { "Foo.Bar" }),
        2 => Some(pkgs[sim::draw(npk) as usize]),
        _ => Some(*sim::pick(pkgs)),
    };
    let n = if many { sim::range(10, 70) } else { sim::range(2, 9) };
    let mut uses: Vec<(Ty, Use)> = Vec::new();
    for _ in 0..n {
        let t = Ty {
            pkg: pkgs[sim::draw(npk) as usize],
            name: if many { MANY[sim::draw(names) as usize] } else { NAMES[sim::draw(names) as usize] },
            qualified: !java && sim::flip(1, 8),
        };
        let u = *sim::pick(&[Use::Here, Use::Here, Use::Here, Use::Registered, Use::InString]);
        uses.push((t, u));
    }
    tr!("java={java} own={own:?} uses={uses:?}");
    let mut by_name: BTreeMap<&str, BTreeSet<&str>> = BTreeMap::new();
    for (t, _) in &uses {
        by_name.entry(t.name).or_default().insert(t.pkg);
    }
    let clash = by_name.values().any(|p| p.len() > 1);
    if clash {
        sim::stat("files_with_name_clash");
    }
    let mut spelled: Option<BTreeMap<Ty, String>> = None;
    for round in 0..sim::range(2, 4) {
        let text = if java {
            file::<JavaK>(&uses, own, round > 0, |t| JavaS { package: t.pkg, name: t.name }, |t, lr| {
                java::import(istr(t.pkg, lr), istr(t.name, lr)).into()
            })?
        } else {
            file::<CsharpK>(
                &uses,
                own,
                round > 0,
                |t| CsharpS { ns: t.pkg, name: t.name, qualified: t.qualified },
                |t, lr| {
                    let i = csharp::import(istr(t.pkg, lr), istr(t.name, lr));
                    if t.qualified { i.qualified() } else { i }.into()
                },
            )?
        };
        sim::hash_bytes("doc", text.as_bytes());
        let names = resolve_all(&text, java, own, &uses)?;
        match &spelled {
            None => spelled = Some(names),
            Some(first) => {
                for (t, s) in &names {
                    if let Some(f) = first.get(t) {
                        ensure!(
                            f == s,
                            "order_dependent",
                            "{t:?} is written {s:?} here and {f:?} when assembled in another order; file: {text:?}"
                        );
                    }
                }
            }
        }
    }
    if !clash {
        return Ok(());
    }
    sim::mark_nontrivial();
    Ok(())
}

fn file<K: Kit<CM = Option<&'static str>>>(
    uses: &[(Ty, Use)],
    own: Option<&'static str>,
    disturb: bool,
    spec: impl Fn(&Ty) -> K::S,
    _real: impl Fn(&Ty, &mut Lr) -> <K::L as genco::lang::Lang>::Item,
) -> Res<String> {
    let mut t: Tokens<K::L> = Tokens::new();
    let mut queue: Vec<usize> = (0..uses.len()).collect();
    let salt = sim::draw(1 << 12);
    while !queue.is_empty() {
        let at = if disturb { sim::draw(queue.len() as u64) as usize } else { 0 };
        if at > 0 {
            sim::fault("reordered", at as u64, queue.len() as u64);
        }
        let i = queue[at];
        let (ty, u) = &uses[i];
        let s = spec(ty);
        let mut lr = Lr::new(sim::draw(1 << 16) as u32, salt);
        let crashed = disturb && sim::flip(1, 8);
        let r = guarded(|| {
            let emit = |t: &mut Tokens<K::L>, lr: &mut Lr| match u {
                Use::Registered => K::add(t, &s, true, lr),
                Use::Here => {
                    t.append(ItemStr::from(format!("\u{ab}{i}:")));
                    K::add(t, &s, false, lr);
                    t.append("\u{bb}");
                    t.push();
                }
                Use::InString => {
                    t.append(quoted(from_fn(|t: &mut Tokens<K::L>| {
                        t.append("%%<");
                        t.append(ItemStr::from(format!("{i}:")));
                        K::add(t, &s, false, lr);
                        t.append(">%%");
                    })));
                    t.push();
                }
            };
            if crashed {
                t.append(from_fn(|t: &mut Tokens<K::L>| {
                    emit(t, &mut lr);
                    crash("producer");
                }));
            } else if lr.n(3) == 0 {
                let mut sub = Tokens::new();
                emit(&mut sub, &mut lr);
                gen::add_stream(&mut t, sub, &mut lr);
                t.push();
            } else {
                emit(&mut t, &mut lr);
            }
        });
        match r {
            Ok(()) if !crashed => {}
            Err(c) if crashed && c.expected() => {
                sim::fault("producer_crash", i as u64, 0);
                continue;
            }
            other => viol!("panic", "{other:?}"),
        }
        if disturb && sim::flip(1, 8) {
            sim::fault("duplicated", i as u64, 0);
            continue;
        }
        queue.remove(at);
    }
    match calm("formatting", || exec::to_text::<K>(&t, &own, &FmtCfg::DEFAULT, true))? {
        Ok(s) => Ok(s),
        Err(e) => viol!("error", "{e:?}"),
    }
}

fn resolve_all(text: &str, java: bool, own: Option<&str>, uses: &[(Ty, Use)]) -> Res<BTreeMap<Ty, String>> {
    // What the file declares.
    let mut singles: BTreeMap<&str, BTreeSet<&str>> = BTreeMap::new();
    let mut usings: BTreeSet<&str> = BTreeSet::new();
    let mut declared: Option<&str> = None;
    for l in text.lines() {
        let l = l.trim();
        if java {
            if let Some(p) = l.strip_prefix("package ").and_then(|l| l.strip_suffix(';')) {
                declared = Some(p);
            } else if let Some(i) = l.strip_prefix("import ").and_then(|l| l.strip_suffix(';')) {
                let Some((p, n)) = i.rsplit_once('.') else { viol!("resolve", "cannot read {l:?}") };
                singles.entry(n).or_default().insert(p);
            }
        } else if let Some(n) = l.strip_prefix("namespace ").and_then(|l| l.strip_suffix(" {")) {
            declared = Some(n);
        } else if let Some(n) = l.strip_prefix("using ").and_then(|l| l.strip_suffix(';')) {
            usings.insert(n);
        }
    }
    ensure!(declared == own, "resolve", "the file declares {declared:?} instead of {own:?}: {text:?}");
    // The types there are.
    let mut exists: BTreeSet<(&str, &str)> = uses.iter().map(|(t, _)| (t.pkg, t.name)).collect();
    for (n, ps) in &singles {
        for p in ps {
            exists.insert((p, n));
        }
        ensure!(ps.len() == 1, "resolve", "{n} is imported from several packages {ps:?}: {text:?}");
    }
    let mut spelled: BTreeMap<Ty, String> = BTreeMap::new();
    let mut check = |index: &str, name: &str| -> Res {
        let Some((ty, _)) = index.parse::<usize>().ok().and_then(|i| uses.get(i)) else {
            viol!("resolve", "cannot read {index:?} in {text:?}");
        };
        let found: Option<String> = if let Some((p, n)) = name.rsplit_once('.') {
            if n == ty.name { Some(p.to_string()) } else { None }
        } else if name != ty.name {
            None
        } else if java {
            if let Some(p) = singles.get(name) {
                p.iter().next().map(|p| p.to_string())
            } else if own.is_some_and(|o| exists.contains(&(o, name))) {
                own.map(str::to_string)
            } else if exists.contains(&("java.lang", name)) {
                Some("java.lang".into())
            } else {
                None
            }
        } else {
            let mut scope = own;
            let mut hit = None;
            while let Some(s) = scope {
                if exists.contains(&(s, name)) {
                    hit = Some(s.to_string());
                    break;
                }
                scope = s.rfind('.').map(|i| &s[..i]);
            }
            if hit.is_none() {
                let through: Vec<&&str> = usings.iter().filter(|u| exists.contains(&(**u, name))).collect();
                if through.len() > 1 {
                    viol!("ambiguous", "{name} is provided by {through:?}, meant is {}: {text:?}", ty.pkg);
                }
                hit = through.first().map(|s| s.to_string());
            }
            hit
        };
        ensure!(
            found.as_deref() == Some(ty.pkg),
            "confused",
            "{name:?} is meant to be {}.{} and resolves to {found:?}: {text:?}",
            ty.pkg,
            ty.name
        );
        if let Some(s) = spelled.get(ty) {
            ensure!(s == name, "confused", "{ty:?} is written both {s:?} and {name:?}: {text:?}");
        }
        spelled.insert(*ty, name.to_string());
        Ok(())
    };
    for (open, close) in [("\u{ab}", "\u{bb}"), ("%%<", ">%%")] {
        let mut rest = text;
        while let Some(i) = rest.find(open) {
            rest = &rest[i + open.len()..];
            let Some(j) = rest.find(close) else { break };
            let (index, name) = rest[..j].split_once(':').unwrap_or(("", ""));
            check(index, name)?;
            rest = &rest[j..];
        }
    }
    for (i, (t, u)) in uses.iter().enumerate() {
        if !matches!(u, Use::Registered) {
            ensure!(spelled.contains_key(t), "resolve", "use {i} of {t:?} is missing from {text:?}");
        }
    }
    Ok(spelled)
}
