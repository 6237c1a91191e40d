//! A language defined outside of genco through `impl_lang!`, with hooks and
//! items that can fail, crash, yield, write in odd chunks, format streams of
//! their own and re-enter the library.

use std::collections::BTreeSet;
use std::fmt::Write as _;

use genco::fmt;
use genco::lang::LangSupportsEval;
use genco::prelude::*;
use genco::tokens::{Item, ItemStr};

use crate::cb;
use crate::kits::{istr, Kit, Lr};
use crate::model::{Cx, MFmt, MItem, MStream, Table};
use crate::sim;

#[derive(Debug, Default, Clone, Copy, PartialEq, Eq)]
pub struct CustomCfg {
    /// Print the imports on top of the file.
    pub header: bool,
    pub tag: &'static str,
}

#[derive(Debug, Default)]
pub struct CustomFormat {
    mode: u8,
}

impl LangSupportsEval for Sim {}

genco::impl_lang! {
    pub Sim {
        type Config = CustomCfg;
        type Format = CustomFormat;
        type Item = Any;

        fn default_indentation() -> fmt::Indentation {
            fmt::Indentation::Space(3)
        }

        fn open_quote(out: &mut fmt::Formatter<'_>, _: &CustomCfg, _: &CustomFormat, eval: bool) -> fmt::Result {
            cb::call("open_quote")?;
            out.write_str("")?;
            out.write_str(if eval { "<e|" } else { "<" })
        }

        fn close_quote(out: &mut fmt::Formatter<'_>, _: &CustomCfg, _: &CustomFormat, eval: bool) -> fmt::Result {
            out.write_str(if eval { "|e" } else { "" })?;
            cb::call("close_quote")?;
            out.write_char('>')
        }

        fn start_string_eval(out: &mut fmt::Formatter<'_>, _: &CustomCfg, _: &CustomFormat) -> fmt::Result {
            cb::call("start_eval")?;
            out.write_char('{')?;
            Ok(())
        }

        fn end_string_eval(out: &mut fmt::Formatter<'_>, _: &CustomCfg, _: &CustomFormat) -> fmt::Result {
            cb::call("end_eval")?;
            out.write_char('}')?;
            Ok(())
        }

        fn write_quoted(out: &mut fmt::Formatter<'_>, input: &str) -> fmt::Result {
            for c in input.chars() {
                match c {
                    '<' | '>' | '\\' | '\n' => {
                        cb::call("escape")?;
                        write!(out, "\\{:x}", c as u32)?
                    }
                    c => out.write_char(c)?,
                }
            }
            cb::call("write_quoted")
        }

        fn format_file(tokens: &Tokens<Sim>, out: &mut fmt::Formatter<'_>, config: &CustomCfg) -> fmt::Result {
            cb::call("format_file")?;
            let format = CustomFormat { mode: 1 };
            if config.header {
                let set: BTreeSet<&Any> = tokens.walk_imports().collect();
                let mut header = Tokens::<Sim>::new();
                for any in set {
                    header.append("need");
                    header.space();
                    header.append(any_text(any));
                    header.push();
                }
                header.line();
                header.format(out, config, &format)?;
            }
            tokens.format(out, config, &format)?;
            cb::call("format_file_end")?;
            Ok(())
        }
    }

    Word {
        fn format(&self, out: &mut fmt::Formatter<'_>, config: &CustomCfg, format: &CustomFormat) -> fmt::Result {
            cb::call("item")?;
            let t: &str = &self.text;
            match self.kind {
                0 => out.write_str(t),
                1 => {
                    for c in t.chars() {
                        out.write_char(c)?;
                    }
                    Ok(())
                }
                2 => {
                    out.write_str("")?;
                    let mut at = t.len() / 2;
                    while !t.is_char_boundary(at) {
                        at -= 1;
                    }
                    out.write_str(&t[..at])?;
                    cb::call("item_middle")?;
                    out.write_str("")?;
                    out.write_str(&t[at..])
                }
                3 => write!(out, "{}{}", t, config.tag),
                4 => write!(out, "{t}#{}", format.mode),
                5 => {
                    // A stream of its own, formatted into the same document.
                    let inner: Tokens<Sim> = quote! {
                        [
                            $t $(quoted(t))
                        ]
                    };
                    inner.format(out, config, format)
                }
                6 => {
                    // A document of its own, made while this one is.
                    let inner: rust::Tokens = quote! {
                        fn x() {
                            $t
                        }
                    };
                    let n = inner.to_vec()?.len();
                    write!(out, "{t}/{n}")
                }
                // Nothing at all.
                _ => Ok(()),
            }
        }
    }

    Mark {
        fn format(&self, out: &mut fmt::Formatter<'_>, _: &CustomCfg, _: &CustomFormat) -> fmt::Result {
            cb::call("mark")?;
            write!(out, "@{}", self.0)
        }
    }
}

#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Word {
    kind: u8,
    text: ItemStr,
}

impl Clone for Word {
    fn clone(&self) -> Word {
        cb::on_clone();
        Word { kind: self.kind, text: self.text.clone() }
    }
}

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Mark(u32);

fn any_text(a: &Any) -> String {
    match a {
        Any::Word(w) => format!("w{}:{}", w.kind, w.text),
        Any::Mark(m) => format!("m{}", m.0),
    }
}

#[derive(Clone, Copy, Default, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct CustomK;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum CustomS {
    Word(u8, &'static str),
    Mark(u32),
}

const TEXTS: [&str; 7] = ["alpha", "b", "日本語", "gamma delta", "", "é", "<x>"];

impl Kit for CustomK {
    type L = Sim;
    type S = CustomS;
    type CM = CustomCfg;
    const NAME: &'static str = "custom";
    const CUSTOM: bool = true;

    fn gen_spec() -> CustomS {
        if sim::flip(1, 5) {
            CustomS::Mark(sim::draw(12) as u32)
        } else {
            CustomS::Word(sim::draw(8) as u8, sim::pick(&TEXTS))
        }
    }
    fn gen_cfg() -> CustomCfg {
        CustomCfg { header: sim::flip(1, 2), tag: sim::pick(&["", "t", "~~"]) }
    }
    fn cfg(cm: &CustomCfg) -> CustomCfg {
        *cm
    }
    fn item(s: &CustomS, lr: &mut Lr) -> Any {
        match *s {
            CustomS::Word(kind, t) => Word { kind, text: istr(t, lr) }.into(),
            CustomS::Mark(n) => Mark(n).into(),
        }
    }
    fn add(t: &mut Tokens<Sim>, s: &CustomS, register: bool, lr: &mut Lr) {
        match Self::item(s, lr) {
            Any::Word(w) => crate::add_forms!(Sim, t, w, register, lr),
            Any::Mark(w) => crate::add_forms!(Sim, t, w, register, lr),
        }
    }
    fn open_quote(eval: bool) -> &'static str {
        if eval {
            "<e|"
        } else {
            "<"
        }
    }
    fn close_quote(eval: bool) -> &'static str {
        if eval {
            "|e>"
        } else {
            ">"
        }
    }
    fn open_eval() -> &'static str {
        "{"
    }
    fn close_eval() -> &'static str {
        "}"
    }
    fn escape(s: &str) -> String {
        let mut o = String::new();
        for c in s.chars() {
            match c {
                '<' => o += "\\3c",
                '>' => o += "\\3e",
                '\\' => o += "\\5c",
                '\n' => o += "\\a",
                c => o.push(c),
            }
        }
        o
    }
    fn name_text(_: &CustomS, _: &Cx<'_, Self>) -> String {
        unreachable!()
    }
    fn render_item(f: &mut MFmt, s: &CustomS, cx: &Cx<'_, Self>) -> Result<(), ()> {
        match *s {
            CustomS::Mark(n) => f.text(&format!("@{n}")),
            CustomS::Word(kind, t) => match kind {
                0..=2 => f.text(t),
                3 => f.text(&format!("{t}{}", cx.cm.tag)),
                4 => f.text(&format!("{t}#{}", if cx.table.is_empty() { 0 } else { 1 })),
                5 => {
                    let mut m = MStream::<CustomS>::default();
                    m.lit("[");
                    m.ind(1);
                    m.lit(t);
                    m.space();
                    m.quoted(t);
                    m.ind(-1);
                    m.lit("]");
                    return f.render::<CustomK>(&m.items, cx);
                }
                6 => f.text(&format!("{t}/{}", if t.is_empty() { 2 } else { 3 })),
                _ => {}
            },
        }
        Ok(())
    }
    fn preamble(specs: &[&CustomS], cm: &CustomCfg) -> (MStream<CustomS>, Table) {
        let mut p = MStream::default();
        // A non-empty table stands for the format used in files.
        let table: Table = [("file".to_string(), String::new())].into();
        if cm.header {
            let set: BTreeSet<&CustomS> = specs.iter().copied().collect();
            for s in set {
                p.lit("need");
                p.space();
                p.lit(match s {
                    CustomS::Word(k, t) => format!("w{k}:{t}"),
                    CustomS::Mark(n) => format!("m{n}"),
                });
                p.push();
            }
            p.line();
        }
        (p, table)
    }
}

/// Used by `raw` streams to check that a word's text is where it should be.
pub fn word(text: &'static str, kind: u8) -> Item<Sim> {
    Item::Lang(0, Box::new(Word { kind, text: ItemStr::Static(text) }.into()))
}

#[allow(dead_code)]
pub fn is_import(i: &MItem<CustomS>) -> bool {
    matches!(i, MItem::Imp(_) | MItem::Reg(_))
}
