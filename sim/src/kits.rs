//! The languages under test: for each one how to generate imports and
//! configurations, how to feed them to genco, and the reference model of the
//! file it has to produce.

use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use std::hash::Hash;

use genco::lang::Lang;
use genco::prelude::*;
use genco::tokens::{Item, ItemStr};
use relative_path::{RelativePath, RelativePathBuf};

use crate::model::{Cx, MFmt, MItem, MStream, Table};
use crate::sim;

/// A tiny generator for variations that must not influence results; it does not
/// consume the tape, and always yields zero for seed zero.
pub struct Lr(pub u64);
impl Lr {
    pub fn new(how: u32, salt: u64) -> Lr {
        if how == 0 && salt == 0 {
            Lr(0)
        } else {
            Lr(sim::mix(u64::from(how) + 1, salt))
        }
    }
    pub fn n(&mut self, k: u64) -> u64 {
        if self.0 == 0 {
            return 0;
        }
        sim::splitmix(&mut self.0) % k
    }
}

pub fn istr(s: &'static str, lr: &mut Lr) -> ItemStr {
    match lr.n(9) {
        0 => ItemStr::Static(s),
        1 => ItemStr::from(s),
        2 => ItemStr::from(s.to_string()),
        3 => ItemStr::from(&s.to_string()),
        4 => ItemStr::from(std::rc::Rc::new(s.to_string())),
        5 => ItemStr::from(std::borrow::Cow::<'_, str>::Owned(s.to_string())),
        6 => ItemStr::from(&s),
        7 => ItemStr::from(&std::borrow::Cow::<'_, str>::Owned(s.to_string())),
        _ => ItemStr::from(std::borrow::Cow::Borrowed(s)),
    }
}

pub trait Kit: Copy + Default + Debug + Send + Sync + Ord + 'static {
    type L: Lang<Config: Default>;
    type S: Clone + Debug + PartialEq + Eq + PartialOrd + Ord + Hash + Send + Sync + 'static;
    type CM: Clone + Debug + Default + Send + Sync + 'static;
    const NAME: &'static str;
    /// Whether the language's hooks and items can be made to fail.
    const CUSTOM: bool = false;

    fn gen_spec() -> Self::S;
    fn gen_cfg() -> Self::CM;
    fn cfg(cm: &Self::CM) -> <Self::L as Lang>::Config;
    fn item(s: &Self::S, lr: &mut Lr) -> <Self::L as Lang>::Item;
    /// Append / register the way a user would, in one of many equivalent ways.
    fn add(t: &mut Tokens<Self::L>, s: &Self::S, register: bool, lr: &mut Lr);

    fn open_quote(_eval: bool) -> &'static str {
        "\""
    }
    fn close_quote(_eval: bool) -> &'static str {
        "\""
    }
    fn open_eval() -> &'static str {
        ""
    }
    fn close_eval() -> &'static str {
        ""
    }
    fn eval_literal(s: &str) -> String {
        format!("{}{}{}", Self::open_eval(), s, Self::close_eval())
    }
    fn escape(s: &str) -> String;
    fn name_text(s: &Self::S, cx: &Cx<'_, Self>) -> String;
    fn render_item(f: &mut MFmt, s: &Self::S, cx: &Cx<'_, Self>) -> Result<(), ()> {
        let t = Self::name_text(s, cx);
        f.text(&t);
        Ok(())
    }
    /// The preamble required by a set of imports, and the table of names that
    /// decides how names are rendered.
    fn preamble(specs: &[&Self::S], cm: &Self::CM) -> (MStream<Self::S>, Table);
    /// Streams formatted one after the other to make up a file.
    fn file_parts(body: &[MItem<Self::S>], cm: &Self::CM) -> (Vec<MStream<Self::S>>, Table) {
        let m = MStream { items: body.to_vec() };
        let (p, table) = Self::preamble(&m.imports(), cm);
        (vec![p, m], table)
    }
}

pub fn render_body<K: Kit>(f: &mut MFmt, body: &[MItem<K::S>], cm: &K::CM) -> Result<(), ()> {
    let table = Table::new();
    f.render::<K>(body, &Cx { cm, table: &table })
}

pub fn render_file<K: Kit>(f: &mut MFmt, body: &[MItem<K::S>], cm: &K::CM) -> Result<(), ()> {
    let (parts, table) = K::file_parts(body, cm);
    let cx = Cx { cm, table: &table };
    for p in &parts {
        f.render::<K>(&p.items, &cx)?;
    }
    f.trailing();
    Ok(())
}

#[macro_export]
macro_rules! add_forms {
    ($L:ty, $t:expr, $val:expr, $register:expr, $lr:expr) => {{
        let v = $val;
        let t: &mut Tokens<$L> = $t;
        let lr: &mut Lr = $lr;
        let junk = [0usize, 1, 7, usize::MAX][lr.n(4) as usize];
        if $register {
            match lr.n(6) {
                0 => t.register(v),
                1 => t.register(&v),
                2 => t.append(genco::tokens::register(v)),
                3 => t.register((v,)),
                4 => {
                    let reg = genco::tokens::register(&v);
                    quote_in!(*t => $reg)
                }
                _ => t.append(Item::Register(junk, Box::new(v.into()))),
            }
        } else {
            match lr.n(8) {
                0 => t.append(v),
                1 => t.append(&v),
                2 => quote_in!(*t => $v),
                3 => t.append(Some(v)),
                4 => t.append(Item::Lang(junk, Box::new(v.into()))),
                5 => {
                    let rv = &v;
                    let q: Tokens<$L> = quote!($rv);
                    t.append(q)
                }
                6 => t.append(vec![v]),
                _ => t.extend(Some(Item::Lang(junk, Box::new(v.into())))),
            }
        }
    }};
}

pub fn c_escape(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '\x07' => o += "\\a",
            '\x08' => o += "\\b",
            '\x0c' => o += "\\f",
            '\n' => o += "\\n",
            '\r' => o += "\\r",
            '\t' => o += "\\t",
            '\x0b' => o += "\\v",
            '\'' => o += "\\'",
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            ' '..='~' => o.push(c),
            c if c < '\u{80}' => o += &format!("\\x{:02x}", c as u32),
            c if c <= '\u{ffff}' => o += &format!("\\u{:04x}", c as u32),
            c => o += &format!("\\U{:08x}", c as u32),
        }
    }
    o
}

const TYPES: [&str; 14] =
    ["Foo", "Bar", "List", "Map", "String", "Object", "Foo2", "Debug", "zed", "a", "Z", "Fooo", "Ärger", "x1"];

std::thread_local! {
    static WIDE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Many different names instead of few colliding ones, until dropped.
pub struct Wide(());
impl Wide {
    pub fn new() -> Wide {
        WIDE.with(|w| w.set(true));
        Wide(())
    }
}
impl Drop for Wide {
    fn drop(&mut self) {
        WIDE.with(|w| w.set(false));
    }
}

/// One of many names.
fn wide() -> &'static str {
    // Pairs whose order depends on what is compared, and how.
    const NAMES: [&str; 80] = {
        const A: &str = "w0w1w2w3w4w5w6w7w8w9wAwBwCwDwEwFwawbwcwdwewfv0v1v2v3v4v5v6v7v8v9u0u1u2u3u4u5u6u7u8u9\
            W0W1W2W3W4W5W6W7W8W9WAWBWCWDWEWFk0k1k2k3k4k5k6k7k8k9g0g1g2g3g4g5g6g7g8g9";
        let mut v = [""; 80];
        let mut i = 0;
        while i < 78 {
            v[i] = A.split_at(i * 2).1.split_at(2).0;
            i += 1;
        }
        v[78] = "w";
        v[79] = "w00";
        v
    };
    sim::pick(&NAMES)
}

/// Names unlike the ones above: long, deep, of other scripts, differing in little.
/// With a separator they are paths of one or more segments.
fn exotic(sep: &'static str) -> &'static str {
    type Pools = std::collections::BTreeMap<&'static str, Vec<&'static str>>;
    static POOLS: std::sync::OnceLock<Pools> = std::sync::OnceLock::new();
    const SEGS: [&str; 36] = [
        "foo", "FOO", "fOO", "Foo", "Foo1", "Foo01", "Foo10", "Foo9", "_", "_foo", "foo_", "__", "x", "X", "é", "e\u{301}", "日本", "\u{1F980}",
        "of", "as", "import", "type", "package", "default", "with", "in", "lang", "core", "std", "B", "ab", "aB", "a1b2",
        "a_rather_long_segment_0123456789_0123456789_0123456789",
        "aRatherLongSegmentWhichIsLongerThanSixtyFourBytesAndThenSomeMoreSoThatItIsLongerThanAHundred",
        "a_rather_long_segment_0123456789_0123456789_012345678",
    ];
    let pools = POOLS.get_or_init(|| {
        let _b = crate::alloc::bypass();
        let mut pools = Pools::new();
        for sep in ["", "::", ".", "/"] {
            let mut v: Vec<&'static str> = SEGS.to_vec();
            if sep.is_empty() {
                v.push(Box::leak("Long".repeat(70).into_boxed_str()));
                let long: &'static str = Box::leak("Long".repeat(80).into_boxed_str());
                // Strings at the same address are not the same strings.
                v.extend([long, &long[..4], &long[..8], &long[..12], &long[4..8]]);
            } else {
                let mut x = 1u64;
                for i in 0..100usize {
                    let mut path = String::new();
                    for j in 0..2 + i % 3 + if i % 25 == 0 { 20 } else { 0 } {
                        if j > 0 {
                            path += sep;
                        }
                        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                        // Few of them, so that paths share their beginnings and ends.
                        path += SEGS[(x >> 40) as usize % if i % 2 == 0 { 4 } else { SEGS.len() }];
                    }
                    v.push(Box::leak(path.into_boxed_str()));
                }
            }
            pools.insert(sep, v);
        }
        pools
    });
    sim::pick(&pools[sep])
}

fn odd() -> bool {
    sim::flip(1, 24)
}

fn alias() -> &'static str {
    if odd() { exotic("") } else { sim::pick(&ALIASES) }
}

fn ty() -> &'static str {
    if odd() {
        return exotic("");
    }
    if WIDE.with(|w| w.get()) && sim::flip(4, 5) {
        return wide();
    }
    // Mostly a few names, so that they collide.
    if sim::flip(1, 3) {
        sim::pick(&TYPES)
    } else {
        sim::pick(&TYPES[..4])
    }
}

fn few(xs: &[&'static str], n: usize, sep: &'static str) -> &'static str {
    if odd() {
        return exotic(sep);
    }
    if WIDE.with(|w| w.get()) && sim::flip(1, 2) {
        return wide();
    }
    if sim::flip(1, 3) {
        *sim::pick(xs)
    } else {
        *sim::pick(&xs[..n])
    }
}

const ALIASES: [&str; 6] = ["Al", "Bl", "foo_alias", "Foo", "x", "Zl"];

// ---------------------------------------------------------------- unit

#[derive(Clone, Copy, Default, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct UnitK;

impl Kit for UnitK {
    type L = ();
    type S = ();
    type CM = ();
    const NAME: &'static str = "unit";
    fn gen_spec() {}
    fn gen_cfg() {}
    fn cfg(_: &()) {}
    fn item(_: &(), _: &mut Lr) {}
    fn add(t: &mut Tokens<()>, _: &(), register: bool, lr: &mut Lr) {
        let junk = [0usize, 1, 7, usize::MAX][lr.n(4) as usize];
        match (register, lr.n(2)) {
            (true, 0) => t.append(Item::Register(junk, Box::new(()))),
            (true, _) => t.extend(Some(Item::Register(junk, Box::new(())))),
            (false, 0) => t.append(Item::Lang(junk, Box::new(()))),
            (false, _) => t.append(vec![Item::Lang(junk, Box::new(()))]),
        }
    }
    fn escape(s: &str) -> String {
        s.to_string()
    }
    fn name_text(_: &(), _: &Cx<'_, Self>) -> String {
        String::new()
    }
    fn preamble(_: &[&()], _: &()) -> (MStream<()>, Table) {
        (MStream::default(), Table::new())
    }
}

// ---------------------------------------------------------------- rust

#[derive(Clone, Copy, Default, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct RustK;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum RMode {
    Plain,
    Direct,
    Qualified,
    Alias(&'static str),
    ModuleAlias(&'static str),
    /// `with_module_alias(..)` of an import that has an alias already.
    AliasThenModuleAlias(&'static str, &'static str),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct RustS {
    pub module: &'static str,
    pub name: &'static str,
    pub mode: RMode,
}

const RMODS: [&str; 10] =
    ["std::fmt", "std", "a::b", "std::collections", "a", "a::b::c", "zz::y", "fmt", "crate::a::b", "std::fmtx"];

impl RustS {
    fn real(&self, lr: &mut Lr) -> rust::Import {
        let b = rust::import(istr(self.module, lr), istr(self.name, lr));
        // The last setting counts.
        let b = match (self.mode, lr.n(8)) {
            (RMode::Direct | RMode::Qualified | RMode::Alias(_), 5) => b.qualified(),
            (RMode::Direct | RMode::Qualified | RMode::Alias(_), 6) => b.direct(),
            (RMode::Alias(_) | RMode::AliasThenModuleAlias(..), 7) => b.with_alias("Unused"),
            (RMode::ModuleAlias(_), 5) => b.qualified(),
            (RMode::ModuleAlias(_), 6) => b.direct(),
            _ => b,
        };
        match self.mode {
            RMode::Plain => b,
            RMode::Direct => b.direct(),
            RMode::Qualified => b.qualified(),
            RMode::Alias(a) => b.with_alias(istr(a, lr)),
            RMode::ModuleAlias(m) => b.with_module_alias(istr(m, lr)),
            RMode::AliasThenModuleAlias(a, m) => b.with_alias(istr(a, lr)).with_module_alias(istr(m, lr)),
        }
    }
    fn qualified(&self, default_qualified: bool) -> bool {
        match self.mode {
            RMode::Plain => default_qualified,
            RMode::Qualified => true,
            _ => false,
        }
    }
}

impl Kit for RustK {
    type L = Rust;
    type S = RustS;
    /// Import names qualified by default.
    type CM = bool;
    const NAME: &'static str = "rust";
    fn gen_spec() -> RustS {
        let mode = match sim::weighted(&[6, 2, 3, 3, 2, 1]) {
            0 => RMode::Plain,
            1 => RMode::Direct,
            2 => RMode::Qualified,
            3 => RMode::Alias(alias()),
            4 => RMode::ModuleAlias(sim::pick(&["m", "ma", "zz", "fmt"])),
            _ => RMode::AliasThenModuleAlias(alias(), sim::pick(&["m", "ma"])),
        };
        RustS { module: few(&RMODS, 4, "::"), name: ty(), mode }
    }
    fn gen_cfg() -> bool {
        sim::flip(1, 2)
    }
    fn cfg(cm: &bool) -> rust::Config {
        rust::Config::default().with_default_import(if *cm { rust::ImportMode::Qualified } else { rust::ImportMode::Direct })
    }
    fn item(s: &RustS, lr: &mut Lr) -> rust::Import {
        s.real(lr)
    }
    fn add(t: &mut Tokens<Rust>, s: &RustS, register: bool, lr: &mut Lr) {
        crate::add_forms!(Rust, t, s.real(lr), register, lr)
    }
    fn escape(s: &str) -> String {
        let mut o = String::new();
        for c in s.chars() {
            match c {
                '\n' => o += "\\n",
                '\r' => o += "\\r",
                '\t' => o += "\\t",
                '\\' => o += "\\\\",
                '\0' => o += "\\0",
                '"' => o += "\\\"",
                c if !c.is_control() => o.push(c),
                c if c < '\u{80}' => o += &format!("\\x{:02x}", c as u32),
                c => o += &format!("\\u{{{:04x}}}", c as u32),
            }
        }
        o
    }
    fn name_text(s: &RustS, cx: &Cx<'_, Self>) -> String {
        match s.mode {
            RMode::ModuleAlias(m) | RMode::AliasThenModuleAlias(_, m) => format!("{m}::{}", s.name),
            _ if s.qualified(*cx.cm) => format!("{}::{}", s.module.rsplit("::").next().unwrap(), s.name),
            RMode::Alias(a) => a.to_string(),
            _ => s.name.to_string(),
        }
    }
    fn preamble(specs: &[&RustS], cm: &bool) -> (MStream<RustS>, Table) {
        #[derive(Default)]
        struct M {
            this: bool,
            this_as: BTreeSet<&'static str>,
            names: BTreeSet<(&'static str, Option<&'static str>)>,
        }
        let mut mods: BTreeMap<&str, M> = BTreeMap::new();
        for s in specs {
            let e = mods.entry(s.module).or_default();
            match s.mode {
                RMode::ModuleAlias(m) | RMode::AliasThenModuleAlias(_, m) => {
                    e.this_as.insert(m);
                }
                RMode::Alias(a) => {
                    e.names.insert((s.name, Some(a)));
                }
                _ if s.qualified(*cm) => e.this = true,
                _ => {
                    e.names.insert((s.name, None));
                }
            }
        }
        let mut p = MStream::default();
        let mut any = false;
        for (m, e) in mods {
            let mut parts: Vec<String> = Vec::new();
            if e.this && m.contains("::") {
                parts.push("self".into());
            }
            for a in e.this_as {
                parts.push(format!("self as {a}"));
            }
            for (n, a) in e.names {
                parts.push(match a {
                    Some(a) => format!("{n} as {a}"),
                    None => n.to_string(),
                });
            }
            if parts.is_empty() {
                continue;
            }
            any = true;
            p.push();
            if parts.len() > 1 {
                p.lit(format!("use {m}::{{{}}};", parts.join(", ")));
            } else if let Some(rest) = parts[0].strip_prefix("self") {
                // `self` is not valid on its own.
                if e.this || rest.starts_with(" as ") {
                    p.lit(format!("use {m}{rest};"));
                } else {
                    p.lit(format!("use {m}::{};", parts[0]));
                }
            } else {
                p.lit(format!("use {m}::{};", parts[0]));
            }
        }
        if any {
            p.line();
        }
        (p, Table::new())
    }
}

// ---------------------------------------------------------------- java

#[derive(Clone, Copy, Default, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct JavaK;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct JavaS {
    pub package: &'static str,
    pub name: &'static str,
}

pub const JPKGS: [&str; 9] = [
    "java.util",
    "java.lang",
    "com.example",
    "com.example.sub",
    "java.lang.reflect",
    "org",
    "com",
    "a.b",
    "zz.top",
];

impl Kit for JavaK {
    type L = Java;
    type S = JavaS;
    type CM = Option<&'static str>;
    const NAME: &'static str = "java";
    fn gen_spec() -> JavaS {
        JavaS { package: few(&JPKGS, 4, "."), name: ty() }
    }
    fn gen_cfg() -> Option<&'static str> {
        match sim::draw(4) {
            0 => None,
            1 => Some("com.example"),
            _ => Some(few(&JPKGS, JPKGS.len(), ".")),
        }
    }
    fn cfg(cm: &Option<&'static str>) -> java::Config {
        match cm {
            Some(p) => java::Config::default().with_package(*p),
            None => java::Config::default(),
        }
    }
    fn item(s: &JavaS, lr: &mut Lr) -> java::Import {
        java::import(istr(s.package, lr), istr(s.name, lr))
    }
    fn add(t: &mut Tokens<Java>, s: &JavaS, register: bool, lr: &mut Lr) {
        crate::add_forms!(Java, t, Self::item(s, lr), register, lr)
    }
    fn escape(s: &str) -> String {
        let mut o = String::new();
        for c in s.chars() {
            match c {
                '\t' => o += "\\t",
                '\x08' => o += "\\b",
                '\n' => o += "\\n",
                '\r' => o += "\\r",
                '\x0c' => o += "\\f",
                '\'' => o += "\\'",
                '"' => o += "\\\"",
                '\\' => o += "\\\\",
                ' '..='~' => o.push(c),
                c => {
                    for u in c.encode_utf16(&mut [0; 2]) {
                        o += &format!("\\u{u:04x}");
                    }
                }
            }
        }
        o
    }
    fn name_text(s: &JavaS, cx: &Cx<'_, Self>) -> String {
        let plain = match cx.table.get(s.name) {
            Some(p) => p == s.package,
            None => s.package == "java.lang" || *cx.cm == Some(s.package),
        };
        if plain {
            s.name.to_string()
        } else {
            format!("{}.{}", s.package, s.name)
        }
    }
    fn preamble(specs: &[&JavaS], cm: &Option<&'static str>) -> (MStream<JavaS>, Table) {
        let mut p = MStream::default();
        if let Some(pkg) = cm {
            p.lit(format!("package {pkg};"));
            p.line();
        }
        let set: BTreeSet<(&str, &str)> = specs.iter().map(|s| (s.package, s.name)).collect();
        let mut t = Table::new();
        if set.is_empty() {
            return (p, t);
        }
        for owner in cm.iter().copied().chain(["java.lang"]) {
            for (pkg, name) in &set {
                if *pkg == owner {
                    t.entry(name.to_string()).or_insert(pkg.to_string());
                }
            }
        }
        for (pkg, name) in set {
            if !t.contains_key(name) {
                p.lit(format!("import {pkg}.{name};"));
                p.push();
                t.insert(name.into(), pkg.into());
            }
        }
        p.line();
        (p, t)
    }
}

// ---------------------------------------------------------------- csharp

#[derive(Clone, Copy, Default, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct CsharpK;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct CsharpS {
    pub ns: &'static str,
    pub name: &'static str,
    pub qualified: bool,
}

pub const CSNS: [&str; 8] =
    ["System", "System.Collections", "Foo.Bar", "Foo", "Example.App", "Zed", "System.IO", "Foo.Bar.Baz"];

impl Kit for CsharpK {
    type L = Csharp;
    type S = CsharpS;
    type CM = Option<&'static str>;
    const NAME: &'static str = "csharp";
    fn gen_spec() -> CsharpS {
        CsharpS { ns: few(&CSNS, 4, "."), name: ty(), qualified: sim::flip(1, 5) }
    }
    fn gen_cfg() -> Option<&'static str> {
        match sim::draw(4) {
            0 => None,
            1 => Some("Foo.Bar"),
            _ => Some(few(&CSNS, CSNS.len(), ".")),
        }
    }
    fn cfg(cm: &Option<&'static str>) -> csharp::Config {
        match cm {
            Some(p) => csharp::Config::default().with_namespace(*p),
            None => csharp::Config::default(),
        }
    }
    fn item(s: &CsharpS, lr: &mut Lr) -> csharp::Import {
        let i = csharp::import(istr(s.ns, lr), istr(s.name, lr));
        if s.qualified {
            i.qualified()
        } else {
            i
        }
    }
    fn add(t: &mut Tokens<Csharp>, s: &CsharpS, register: bool, lr: &mut Lr) {
        crate::add_forms!(Csharp, t, Self::item(s, lr), register, lr)
    }
    fn escape(s: &str) -> String {
        c_escape(s)
    }
    fn name_text(s: &CsharpS, cx: &Cx<'_, Self>) -> String {
        let other = *cx.cm != Some(s.ns) && cx.table.get(s.name).is_some_and(|n| n != s.ns);
        if s.qualified || other {
            format!("{}.{}", s.ns, s.name)
        } else {
            s.name.to_string()
        }
    }
    fn preamble(specs: &[&CsharpS], cm: &Option<&'static str>) -> (MStream<CsharpS>, Table) {
        let set: BTreeSet<(&str, &str)> = specs.iter().map(|s| (s.ns, s.name)).collect();
        let mut p = MStream::default();
        let mut t = Table::new();
        if set.is_empty() {
            return (p, t);
        }
        // Visible without an import: the namespace of the file, then its parents.
        let mut scope = *cm;
        while let Some(ns) = scope {
            for (_, name) in set.iter().filter(|(n, _)| *n == ns) {
                t.entry(name.to_string()).or_insert(ns.to_string());
            }
            scope = ns.rfind('.').map(|i| &ns[..i]);
        }
        let mut used: Vec<&str> = Vec::new();
        for (ns, name) in &set {
            if t.contains_key(*name) {
                continue;
            }
            if used.last() != Some(ns) {
                p.lit(format!("using {ns};"));
                p.push();
                used.push(ns);
            }
            t.insert(name.to_string(), ns.to_string());
        }
        // Names visible through several imports belong to none of them.
        let mut seen: BTreeMap<&str, usize> = BTreeMap::new();
        for (ns, name) in &set {
            if used.contains(ns) {
                *seen.entry(name).or_default() += 1;
            }
        }
        for (name, n) in seen {
            if n > 1 && used.contains(&t[name].as_str()) {
                t.insert(name.into(), String::new());
            }
        }
        p.line();
        (p, t)
    }
    fn file_parts(body: &[MItem<CsharpS>], cm: &Option<&'static str>) -> (Vec<MStream<CsharpS>>, Table) {
        let m = MStream { items: body.to_vec() };
        let (mut p, table) = Self::preamble(&m.imports(), cm);
        match cm {
            None => (vec![p, m], table),
            Some(ns) => {
                p.lit(format!("namespace {ns} {{"));
                p.ind(1);
                p.add_all(body);
                p.ind(-1);
                p.lit("}");
                (vec![p], table)
            }
        }
    }
}

// ---------------------------------------------------------------- js

#[derive(Clone, Copy, Default, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct JsK;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum JsKind {
    Named(Option<&'static str>),
    Default,
    Wildcard,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct JsS {
    /// Modules that are paths relative to the root of the project.
    pub path: bool,
    pub module: &'static str,
    pub name: &'static str,
    pub kind: JsKind,
}

const JSGLOBALS: [&str; 6] = ["collections", "vec.js", "@scope/pkg", "a", "../up.js", "zed"];
const JSPATHS: [&str; 6] = ["foo/bar.js", "vec.js", "foo/baz.js", "foo/sub/x.js", "other/y.js", "a.js"];

impl JsS {
    fn real(&self, lr: &mut Lr) -> js::Import {
        let module = if self.path {
            js::Module::Path(RelativePathBuf::from(self.module))
        } else {
            match lr.n(4) {
                0 => js::Module::Global(ItemStr::Static(self.module)),
                1 => js::Module::from(self.module),
                2 => js::Module::from(self.module.to_string()),
                _ => js::Module::from(istr(self.module, lr)),
            }
        };
        let b = js::import(module, istr(self.name, lr));
        // The last setting counts.
        let b = match lr.n(8) {
            _ if self.kind == JsKind::Named(None) => b,
            5 => b.into_default(),
            6 => b.into_wildcard(),
            7 => b.with_alias("Unused"),
            _ => b,
        };
        match self.kind {
            JsKind::Named(None) => b,
            JsKind::Named(Some(a)) => b.with_alias(istr(a, lr)),
            JsKind::Default => b.into_default(),
            JsKind::Wildcard => b.into_wildcard(),
        }
    }
}

impl Kit for JsK {
    type L = JavaScript;
    type S = JsS;
    type CM = Option<&'static str>;
    const NAME: &'static str = "js";
    fn gen_spec() -> JsS {
        let kind = match sim::weighted(&[5, 3, 2, 2]) {
            0 => JsKind::Named(None),
            1 => JsKind::Named(Some(alias())),
            2 => JsKind::Default,
            _ => JsKind::Wildcard,
        };
        let path = sim::flip(1, 2);
        let module = if path { few(&JSPATHS, 3, "/") } else { few(&JSGLOBALS, 3, "/") };
        JsS { path, module, name: ty(), kind }
    }
    fn gen_cfg() -> Option<&'static str> {
        *sim::pick(&[None, Some("foo/main.js"), Some("main.js"), Some("foo/sub/deep/main.js"), Some("foo/bar.js")])
    }
    fn cfg(cm: &Option<&'static str>) -> js::Config {
        match cm {
            Some(p) => js::Config::default().with_module_path(RelativePathBuf::from(*p)),
            None => js::Config::default(),
        }
    }
    fn item(s: &JsS, lr: &mut Lr) -> js::Import {
        s.real(lr)
    }
    fn add(t: &mut Tokens<JavaScript>, s: &JsS, register: bool, lr: &mut Lr) {
        crate::add_forms!(JavaScript, t, s.real(lr), register, lr)
    }
    fn open_quote(eval: bool) -> &'static str {
        if eval {
            "`"
        } else {
            "\""
        }
    }
    fn close_quote(eval: bool) -> &'static str {
        Self::open_quote(eval)
    }
    fn open_eval() -> &'static str {
        "${"
    }
    fn close_eval() -> &'static str {
        "}"
    }
    fn escape(s: &str) -> String {
        let mut o = String::new();
        for c in s.chars() {
            match c {
                '\x08' => o += "\\b",
                '\x0c' => o += "\\f",
                '\n' => o += "\\n",
                '\r' => o += "\\r",
                '\t' => o += "\\t",
                '\x0b' => o += "\\v",
                '\0' => o += "\\0",
                '"' => o += "\\\"",
                '\\' => o += "\\\\",
                c if !c.is_control() => o.push(c),
                c => o += &format!("\\x{:02x}", c as u32),
            }
        }
        o
    }
    fn name_text(s: &JsS, _: &Cx<'_, Self>) -> String {
        match s.kind {
            JsKind::Named(Some(a)) => a.into(),
            _ => s.name.into(),
        }
    }
    fn preamble(specs: &[&JsS], cm: &Option<&'static str>) -> (MStream<JsS>, Table) {
        // Path modules come before global ones; paths compare by component.
        type Key = (bool, Vec<&'static str>, &'static str);
        let key = |s: &JsS| -> Key {
            if s.path {
                (false, s.module.split('/').collect(), s.module)
            } else {
                (true, vec![s.module], s.module)
            }
        };
        let from = |p: &mut MStream<JsS>, k: &Key| {
            p.lit(" from ");
            match cm {
                Some(base) if !k.0 => {
                    let rel = RelativePath::new(base).relative(RelativePath::new(k.2));
                    p.quoted(rel.as_str())
                }
                _ => p.quoted(k.2),
            }
            p.lit(";");
        };
        let mut wild: BTreeSet<(Key, &str)> = BTreeSet::new();
        let mut mods: BTreeMap<Key, (BTreeSet<&str>, BTreeSet<(bool, &str, &str)>)> = BTreeMap::new();
        for s in specs {
            match s.kind {
                JsKind::Wildcard => {
                    wild.insert((key(s), s.name));
                }
                JsKind::Default => {
                    mods.entry(key(s)).or_default().0.insert(s.name);
                }
                JsKind::Named(a) => {
                    mods.entry(key(s)).or_default().1.insert((a.is_some(), s.name, a.unwrap_or("")));
                }
            }
        }
        let mut p = MStream::default();
        if wild.is_empty() && mods.is_empty() {
            return (p, Table::new());
        }
        for (k, name) in wild {
            p.push();
            p.lit(format!("import * as {name}"));
            from(&mut p, &k);
        }
        for (k, (defaults, named)) in mods {
            let mut defaults = defaults.into_iter();
            let main = defaults.next();
            for d in defaults {
                p.push();
                p.lit(format!("import {d}"));
                from(&mut p, &k);
            }
            p.push();
            let mut what: Vec<String> = main.into_iter().map(String::from).collect();
            if !named.is_empty() {
                let names: Vec<String> = named
                    .into_iter()
                    .map(|(aliased, n, a)| if aliased { format!("{n} as {a}") } else { n.to_string() })
                    .collect();
                what.push(format!("{{{}}}", names.join(", ")));
            }
            p.lit(format!("import {}", what.join(", ")));
            from(&mut p, &k);
        }
        p.line();
        (p, Table::new())
    }
}

// ---------------------------------------------------------------- python

#[derive(Clone, Copy, Default, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct PythonK;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum PyKind {
    Plain,
    Alias(&'static str),
    Qualified,
    ModuleAlias(&'static str),
    Module(Option<&'static str>),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct PyS {
    pub module: &'static str,
    pub name: &'static str,
    pub kind: PyKind,
}

const PYMODS: [&str; 7] = ["collections", "a.b", "os", "os.path", "zed", "a", "typing"];

impl Kit for PythonK {
    type L = Python;
    type S = PyS;
    type CM = ();
    const NAME: &'static str = "python";
    fn gen_spec() -> PyS {
        let kind = match sim::weighted(&[5, 3, 2, 2, 3]) {
            0 => PyKind::Plain,
            1 => PyKind::Alias(alias()),
            2 => PyKind::Qualified,
            3 => PyKind::ModuleAlias(sim::pick(&["m", "aa", "zz"])),
            _ => PyKind::Module(*sim::pick(&[None, Some("m"), Some("zz")])),
        };
        let name = if matches!(kind, PyKind::Module(_)) { "" } else { ty() };
        PyS { module: few(&PYMODS, 3, "."), name, kind }
    }
    fn gen_cfg() {}
    fn cfg(_: &()) -> python::Config {
        python::Config::default()
    }
    fn item(s: &PyS, lr: &mut Lr) -> python::Any {
        let m = istr(s.module, lr);
        if let PyKind::Module(a) = s.kind {
            let b = python::import_module(m);
            return match a {
                None => b.into(),
                // The last setting counts.
                Some(a) if lr.n(8) == 5 => b.with_alias("unused").with_alias(istr(a, lr)).into(),
                Some(a) => b.with_alias(istr(a, lr)).into(),
            };
        }
        let b = python::import(m, istr(s.name, lr));
        // The last setting counts.
        let b = match (s.kind, lr.n(8)) {
            (PyKind::Plain, _) => b,
            (_, 5) => b.with_alias("unused"),
            (_, 6) => b.qualified(),
            (PyKind::Alias(_) | PyKind::ModuleAlias(_), 7) => b.with_module_alias("unused"),
            _ => b,
        };
        match s.kind {
            PyKind::Alias(a) => b.with_alias(istr(a, lr)),
            PyKind::Qualified => b.qualified(),
            PyKind::ModuleAlias(a) => b.with_module_alias(istr(a, lr)),
            _ => b,
        }
        .into()
    }
    fn add(t: &mut Tokens<Python>, s: &PyS, register: bool, lr: &mut Lr) {
        match Self::item(s, lr) {
            python::Any::Import(i) => crate::add_forms!(Python, t, i, register, lr),
            python::Any::ImportModule(i) => crate::add_forms!(Python, t, i, register, lr),
        }
    }
    fn escape(s: &str) -> String {
        c_escape(s)
    }
    fn name_text(s: &PyS, _: &Cx<'_, Self>) -> String {
        match s.kind {
            PyKind::Plain => s.name.into(),
            PyKind::Alias(a) => a.into(),
            PyKind::Qualified => format!("{}.{}", s.module, s.name),
            PyKind::ModuleAlias(a) => format!("{a}.{}", s.name),
            PyKind::Module(a) => a.unwrap_or(s.module).into(),
        }
    }
    fn preamble(specs: &[&PyS], _: &()) -> (MStream<PyS>, Table) {
        let mut from: BTreeMap<&str, BTreeSet<(&str, Option<&str>)>> = BTreeMap::new();
        let mut mods: BTreeSet<(&str, Option<&str>)> = BTreeSet::new();
        for s in specs {
            match s.kind {
                PyKind::Plain => {
                    from.entry(s.module).or_default().insert((s.name, None));
                }
                PyKind::Alias(a) => {
                    from.entry(s.module).or_default().insert((s.name, Some(a)));
                }
                PyKind::Qualified => {
                    mods.insert((s.module, None));
                }
                PyKind::ModuleAlias(a) => {
                    mods.insert((s.module, Some(a)));
                }
                PyKind::Module(a) => {
                    mods.insert((s.module, a));
                }
            }
        }
        let aliased = |(n, a): (&str, Option<&str>)| match a {
            Some(a) => format!("{n} as {a}"),
            None => n.to_string(),
        };
        let mut p = MStream::default();
        if from.is_empty() && mods.is_empty() {
            return (p, Table::new());
        }
        for (m, names) in from {
            p.push();
            let names: Vec<String> = names.into_iter().map(aliased).collect();
            p.lit(format!("from {m} import {}", names.join(", ")));
        }
        for m in mods {
            p.push();
            p.lit(format!("import {}", aliased(m)));
        }
        p.line();
        (p, Table::new())
    }
}

// ---------------------------------------------------------------- go

#[derive(Clone, Copy, Default, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct GoK;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct GoS {
    pub module: &'static str,
    pub name: &'static str,
}

const GOMODS: [&str; 7] = ["foo/bar", "fmt", "foo", "foo/bar/baz", "github.com/x/y", "zed", "a/b"];

impl Kit for GoK {
    type L = Go;
    type S = GoS;
    type CM = Option<&'static str>;
    const NAME: &'static str = "go";
    fn gen_spec() -> GoS {
        GoS { module: few(&GOMODS, 3, "/"), name: ty() }
    }
    fn gen_cfg() -> Option<&'static str> {
        *sim::pick(&[None, Some("main"), Some("foo")])
    }
    fn cfg(cm: &Option<&'static str>) -> go::Config {
        match cm {
            Some(p) => go::Config::default().with_package(*p),
            None => go::Config::default(),
        }
    }
    fn item(s: &GoS, lr: &mut Lr) -> go::Import {
        go::import(istr(s.module, lr), istr(s.name, lr))
    }
    fn add(t: &mut Tokens<Go>, s: &GoS, register: bool, lr: &mut Lr) {
        crate::add_forms!(Go, t, Self::item(s, lr), register, lr)
    }
    fn escape(s: &str) -> String {
        c_escape(s)
    }
    fn name_text(s: &GoS, _: &Cx<'_, Self>) -> String {
        format!("{}.{}", s.module.rsplit('/').next().unwrap(), s.name)
    }
    fn preamble(specs: &[&GoS], cm: &Option<&'static str>) -> (MStream<GoS>, Table) {
        let mut p = MStream::default();
        if let Some(pkg) = cm {
            p.lit(format!("package {pkg}"));
            p.line();
        }
        let set: BTreeSet<&str> = specs.iter().map(|s| s.module).collect();
        if !set.is_empty() {
            for m in set {
                p.lit("import ");
                p.quoted(m);
                p.push();
            }
            p.line();
        }
        (p, Table::new())
    }
}

// ---------------------------------------------------------------- c

#[derive(Clone, Copy, Default, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct CK;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct CS {
    pub path: &'static str,
    pub name: &'static str,
    pub system: bool,
}

const CPATHS: [&str; 6] = ["stdio.h", "foo/bar.h", "a.h", "z.h", "stdlib.h", "foo\\bar.h"];

impl Kit for CK {
    type L = C;
    type S = CS;
    type CM = ();
    const NAME: &'static str = "c";
    fn gen_spec() -> CS {
        CS { path: few(&CPATHS, 3, "/"), name: ty(), system: sim::flip(1, 2) }
    }
    fn gen_cfg() {}
    fn cfg(_: &()) -> c::Config {
        c::Config::default()
    }
    fn item(s: &CS, lr: &mut Lr) -> c::Import {
        if s.system {
            c::include_system(istr(s.path, lr), istr(s.name, lr))
        } else {
            c::include(istr(s.path, lr), istr(s.name, lr))
        }
    }
    fn add(t: &mut Tokens<C>, s: &CS, register: bool, lr: &mut Lr) {
        crate::add_forms!(C, t, Self::item(s, lr), register, lr)
    }
    fn escape(s: &str) -> String {
        c_escape(s)
    }
    fn name_text(s: &CS, _: &Cx<'_, Self>) -> String {
        s.name.into()
    }
    fn preamble(specs: &[&CS], _: &()) -> (MStream<CS>, Table) {
        let set: BTreeSet<(&str, bool)> = specs.iter().map(|s| (s.path, s.system)).collect();
        let mut p = MStream::default();
        if !set.is_empty() {
            for (path, system) in set {
                if system {
                    p.lit(format!("#include <{path}>"));
                } else {
                    p.lit("#include ");
                    p.quoted(path);
                }
                p.push();
            }
            p.line();
        }
        (p, Table::new())
    }
}

// ---------------------------------------------------------------- dart

#[derive(Clone, Copy, Default, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct DartK;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct DartS {
    pub path: &'static str,
    pub name: &'static str,
    pub alias: Option<&'static str>,
}

const DARTPATHS: [&str; 6] = ["dart:core", "dart:math", "package:http/http.dart", "a.dart", "zed.dart", "pkg:$x.dart"];

impl Kit for DartK {
    type L = Dart;
    type S = DartS;
    type CM = ();
    const NAME: &'static str = "dart";
    fn gen_spec() -> DartS {
        DartS {
            path: few(&DARTPATHS, 3, "/"),
            name: ty(),
            alias: if sim::flip(1, 2) { Some(sim::pick(&["m", "x", "zz", "core"])) } else { None },
        }
    }
    fn gen_cfg() {}
    fn cfg(_: &()) -> dart::Config {
        dart::Config::default()
    }
    fn item(s: &DartS, lr: &mut Lr) -> dart::Import {
        let b = dart::import(istr(s.path, lr), istr(s.name, lr));
        match s.alias {
            None => b,
            Some(a) if lr.n(8) == 5 => b.with_alias("unused").with_alias(istr(a, lr)),
            Some(a) => b.with_alias(istr(a, lr)),
        }
    }
    fn add(t: &mut Tokens<Dart>, s: &DartS, register: bool, lr: &mut Lr) {
        crate::add_forms!(Dart, t, Self::item(s, lr), register, lr)
    }
    fn open_eval() -> &'static str {
        "${"
    }
    fn close_eval() -> &'static str {
        "}"
    }
    fn eval_literal(s: &str) -> String {
        format!("${s}")
    }
    fn escape(s: &str) -> String {
        let mut o = String::new();
        for c in s.chars() {
            match c {
                '\x08' => o += "\\b",
                '\x0c' => o += "\\f",
                '\n' => o += "\\n",
                '\r' => o += "\\r",
                '\t' => o += "\\t",
                '\x0b' => o += "\\v",
                '"' => o += "\\\"",
                '\\' => o += "\\\\",
                '$' => o += "\\$",
                c if !c.is_control() => o.push(c),
                c => o += &format!("\\x{:02x}", c as u32),
            }
        }
        o
    }
    fn name_text(s: &DartS, _: &Cx<'_, Self>) -> String {
        match s.alias {
            Some(a) => format!("{a}.{}", s.name),
            None => s.name.into(),
        }
    }
    fn preamble(specs: &[&DartS], _: &()) -> (MStream<DartS>, Table) {
        let mut set: BTreeSet<(&str, Option<&str>)> = specs.iter().map(|s| (s.path, s.alias)).collect();
        // The core library is there without an import, unless one names it.
        let core_as = set.iter().any(|(p, a)| *p == "dart:core" && a.is_some());
        if core_as {
            set.insert(("dart:core", None));
        } else {
            set.remove(&("dart:core", None));
        }
        let mut p = MStream::default();
        if !set.is_empty() {
            for (path, alias) in set {
                p.lit("import ");
                p.quoted(path);
                p.lit(match alias {
                    Some(a) => format!(" as {a};"),
                    None => ";".into(),
                });
                p.push();
            }
            p.line();
        }
        (p, Table::new())
    }
}

// ---------------------------------------------------------------- swift

#[derive(Clone, Copy, Default, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct SwiftK;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct SwiftS {
    pub module: &'static str,
    pub name: &'static str,
}

const SWMODS: [&str; 6] = ["Foundation", "UIKit", "A", "Zed", "foo", "Found"];

impl Kit for SwiftK {
    type L = Swift;
    type S = SwiftS;
    type CM = ();
    const NAME: &'static str = "swift";
    fn gen_spec() -> SwiftS {
        SwiftS { module: few(&SWMODS, 3, "."), name: ty() }
    }
    fn gen_cfg() {}
    fn cfg(_: &()) -> swift::Config {
        swift::Config::default()
    }
    fn item(s: &SwiftS, lr: &mut Lr) -> swift::Import {
        swift::import(istr(s.module, lr), istr(s.name, lr))
    }
    fn add(t: &mut Tokens<Swift>, s: &SwiftS, register: bool, lr: &mut Lr) {
        crate::add_forms!(Swift, t, Self::item(s, lr), register, lr)
    }
    fn escape(s: &str) -> String {
        let mut o = String::new();
        for c in s.chars() {
            match c {
                '\0' => o += "\\0",
                '\\' => o += "\\\\",
                '\t' => o += "\\t",
                '\n' => o += "\\n",
                '\r' => o += "\\r",
                '\'' => o += "\\'",
                '"' => o += "\\\"",
                c if !c.is_control() => o.push(c),
                c => o += &format!("\\u{{{:x}}}", c as u32),
            }
        }
        o
    }
    fn name_text(s: &SwiftS, _: &Cx<'_, Self>) -> String {
        s.name.into()
    }
    fn preamble(specs: &[&SwiftS], _: &()) -> (MStream<SwiftS>, Table) {
        let set: BTreeSet<&str> = specs.iter().map(|s| s.module).collect();
        let mut p = MStream::default();
        for m in set {
            p.push();
            p.lit(format!("import {m}"));
        }
        p.line();
        (p, Table::new())
    }
}

// ---------------------------------------------------------------- nix

#[derive(Clone, Copy, Default, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct NixK;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum NixS {
    Argument(&'static str),
    Inherit(&'static str, &'static str),
    /// One of the fixed variables below.
    Variable(u8),
    With(&'static str, &'static str),
}

const NIXARGS: [&str; 6] = ["lib", "pkgs", "self", "inputs", "config", "zed"];
const NIXPATHS: [&str; 7] = ["lib", "pkgs.lib", "inputs.nixpkgs.lib", "pkgs", "config.x", "inputs.self", "zz.y"];

/// The value of a variable is a stream of its own, with imports of its own.
fn nix_value(n: u8) -> MStream<NixS> {
    let mut m = MStream::default();
    match n {
        0 => m.lit("1"),
        1 => {
            m.lit("f");
            m.space();
            m.add(MItem::Imp(NixS::Inherit("inputs.nixpkgs.lib", "mkIf")));
        }
        2 => {
            m.add(MItem::Imp(NixS::Variable(1)));
            m.space();
            m.lit("+");
            m.space();
            m.add(MItem::Imp(NixS::Argument("config")));
        }
        3 => {
            m.lit("{");
            m.ind(1);
            m.lit("x = ");
            m.quoted("a\"b");
            m.lit(";");
            m.push();
            m.add(MItem::Imp(NixS::With("deep.ns", "thing")));
            m.ind(-1);
            m.lit("}");
        }
        4 => {
            m.add(MItem::Reg(NixS::Variable(2)));
            m.add(MItem::Imp(NixS::Variable(3)));
        }
        // Not a good idea, but nothing may be dropped silently.
        6 => m.lit("2"),
        _ => {
            m.add(MItem::Imp(NixS::Inherit("zz.y", "q")));
            m.add(MItem::Imp(NixS::Argument("only_nested")));
        }
    }
    m
}
const NIXVARS: [&str; 7] = ["one", "v1", "a2", "block", "nested", "z", "one"];

fn nix_real(s: &NixS, lr: &mut Lr) -> nix::Import {
    match *s {
        NixS::Argument(a) => nix::argument(istr(a, lr)),
        NixS::Inherit(p, n) => nix::inherit(istr(p, lr), istr(n, lr)),
        NixS::With(a, n) => nix::with(istr(a, lr), istr(n, lr)),
        NixS::Variable(v) => {
            let mut t = nix::Tokens::new();
            for i in nix_value(v).items {
                t.append(raw_item::<NixK>(&i, lr));
            }
            nix::variable(istr(NIXVARS[v as usize], lr), t)
        }
    }
}

/// The item genco stores for a model item.
pub fn raw_item<K: Kit>(i: &MItem<K::S>, lr: &mut Lr) -> Item<K::L> {
    match i {
        MItem::Lit(s) => Item::Literal(ItemStr::from(s.as_str())),
        MItem::Imp(s) => Item::Lang(lr.n(3) as usize, Box::new(K::item(s, lr))),
        MItem::Reg(s) => Item::Register(lr.n(3) as usize, Box::new(K::item(s, lr))),
        MItem::Push => Item::Push,
        MItem::Line => Item::Line,
        MItem::Space => Item::Space,
        MItem::Ind(n) => Item::Indentation(*n),
        MItem::OQ(e) => Item::OpenQuote(*e),
        MItem::CQ => Item::CloseQuote,
        MItem::OE => Item::OpenEval,
        MItem::CE => Item::CloseEval,
    }
}

impl Kit for NixK {
    type L = Nix;
    type S = NixS;
    /// Scoped files have no arguments.
    type CM = bool;
    const NAME: &'static str = "nix";
    fn gen_spec() -> NixS {
        match sim::weighted(&[4, 4, 4, 3]) {
            0 => NixS::Argument(if odd() { exotic("") } else { sim::pick(&NIXARGS) }),
            1 => NixS::Inherit(few(&NIXPATHS, 3, "."), ty()),
            2 => NixS::Variable(sim::draw(7) as u8),
            _ => NixS::With(few(&NIXPATHS, 3, "."), ty()),
        }
    }
    fn gen_cfg() -> bool {
        sim::flip(1, 3)
    }
    fn cfg(cm: &bool) -> nix::Config {
        nix::Config::default().with_scoped(*cm)
    }
    fn item(s: &NixS, lr: &mut Lr) -> nix::Import {
        nix_real(s, lr)
    }
    fn add(t: &mut Tokens<Nix>, s: &NixS, register: bool, lr: &mut Lr) {
        crate::add_forms!(Nix, t, nix_real(s, lr), register, lr)
    }
    fn escape(s: &str) -> String {
        c_escape(s)
    }
    fn name_text(s: &NixS, _: &Cx<'_, Self>) -> String {
        match *s {
            NixS::Argument(a) => a.into(),
            NixS::Inherit(_, n) | NixS::With(_, n) => n.into(),
            NixS::Variable(v) => NIXVARS[v as usize].into(),
        }
    }
    fn preamble(specs: &[&NixS], cm: &bool) -> (MStream<NixS>, Table) {
        let mut all: BTreeSet<NixS> = BTreeSet::new();
        fn visit(s: &NixS, all: &mut BTreeSet<NixS>) {
            if all.insert(*s) {
                if let NixS::Variable(v) = s {
                    for i in nix_value(*v).imports() {
                        visit(i, all);
                    }
                }
            }
        }
        for s in specs {
            visit(s, &mut all);
        }
        let (mut args, mut withs, mut inherits, mut vars) =
            (BTreeSet::new(), BTreeSet::new(), BTreeSet::new(), BTreeSet::new());
        let head = |p: &'static str| p.split('.').next().unwrap();
        for s in all {
            match s {
                NixS::Argument(a) => {
                    args.insert(a);
                }
                NixS::Inherit(p, n) => {
                    args.insert(head(p));
                    inherits.insert((p, n));
                }
                NixS::With(a, _) => {
                    args.insert(head(a));
                    withs.insert(a);
                }
                NixS::Variable(v) => {
                    vars.insert((NIXVARS[v as usize], v));
                }
            }
        }
        let mut p = MStream::default();
        if !*cm {
            p.lit("{");
            p.ind(1);
            for a in args {
                p.lit(format!("{a},"));
                p.push();
            }
            p.lit("...");
            p.ind(-1);
            p.lit("}:");
            p.line();
        }
        if !withs.is_empty() {
            for w in withs {
                p.lit(format!("with {w};"));
                p.push();
            }
            p.line();
        }
        if !inherits.is_empty() || !vars.is_empty() {
            p.lit("let");
            p.ind(1);
            for (path, n) in inherits {
                p.lit(format!("inherit ({path}) {n};"));
                p.push();
            }
            for (n, v) in vars {
                p.lit(format!("{n} = "));
                p.add_all(&nix_value(v).items);
                p.lit(";");
                p.push();
            }
            p.ind(-1);
            p.lit("in");
            p.line();
        }
        (p, Table::new())
    }
}

// ---------------------------------------------------------------- dispatch

/// Runs `$e` with `$K` bound to the kit with the given index.
#[macro_export]
macro_rules! with_kit {
    ($idx:expr, $K:ident => $e:expr) => {
        match $idx {
            0 => { type $K = $crate::kits::RustK; $e }
            1 => { type $K = $crate::kits::JavaK; $e }
            2 => { type $K = $crate::kits::CsharpK; $e }
            3 => { type $K = $crate::kits::JsK; $e }
            4 => { type $K = $crate::kits::PythonK; $e }
            5 => { type $K = $crate::kits::GoK; $e }
            6 => { type $K = $crate::kits::CK; $e }
            7 => { type $K = $crate::kits::DartK; $e }
            8 => { type $K = $crate::kits::SwiftK; $e }
            9 => { type $K = $crate::kits::NixK; $e }
            10 => { type $K = $crate::kits::UnitK; $e }
            _ => { type $K = $crate::custom::CustomK; $e }
        }
    };
}

/// Index of a kit; the custom language gets extra weight.
pub fn draw_kit() -> u64 {
    sim::draw(14).min(11)
}

pub const KIT_NAMES: [&str; 12] =
    ["rust", "java", "csharp", "js", "python", "go", "c", "dart", "swift", "nix", "unit", "custom"];
