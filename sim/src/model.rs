//! The executable reference model: what a stream contains after a sequence of
//! building operations, and the document it denotes. Written from the
//! documentation of genco, it shares no code with it.

use std::collections::BTreeMap;

use crate::kits::Kit;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum MItem<S> {
    Lit(String),
    Imp(S),
    Reg(S),
    Push,
    Line,
    Space,
    Ind(i16),
    OQ(bool),
    CQ,
    OE,
    CE,
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct MStream<S> {
    pub items: Vec<MItem<S>>,
}

impl<S> Default for MStream<S> {
    fn default() -> Self {
        MStream { items: Vec::new() }
    }
}

/// Something items are added to, one by one.
pub trait Adder<S> {
    fn add(&mut self, it: MItem<S>);
    fn lit(&mut self, s: String) {
        self.add(MItem::Lit(s))
    }
    fn add_all(&mut self, items: &[MItem<S>])
    where
        S: Clone,
    {
        for i in items {
            self.add(i.clone())
        }
    }
}

impl<S: Clone> Adder<S> for MStream<S> {
    fn add(&mut self, it: MItem<S>) {
        MStream::add(self, it)
    }
}

impl<S> Adder<S> for Vec<MItem<S>> {
    fn add(&mut self, it: MItem<S>) {
        self.push(it)
    }
}

impl<S: Clone> MStream<S> {
    /// Add an item following the documented coalescing rules.
    pub fn add(&mut self, it: MItem<S>) {
        let v = &mut self.items;
        match it {
            MItem::Space => {
                if !matches!(v.last(), Some(MItem::Space)) {
                    v.push(MItem::Space);
                }
            }
            MItem::Push => {
                let mut n = v.len();
                while n > 0 && matches!(v[n - 1], MItem::Space | MItem::Push) {
                    n -= 1;
                }
                let after_line = n > 0 && matches!(v[n - 1], MItem::Line);
                v.truncate(n);
                if !after_line {
                    v.push(MItem::Push);
                }
            }
            MItem::Line => {
                let mut n = v.len();
                while n > 0 && matches!(v[n - 1], MItem::Line | MItem::Push) {
                    n -= 1;
                }
                v.truncate(n);
                v.push(MItem::Line);
            }
            MItem::Ind(by) => {
                let mut by = i32::from(by);
                let mut n = v.len();
                while n > 0 {
                    match v[n - 1] {
                        MItem::Space | MItem::Push | MItem::Line => n -= 1,
                        MItem::Ind(x) => {
                            let sum = by + i32::from(x);
                            if !(-32768..=32767).contains(&sum) {
                                break;
                            }
                            by = sum;
                            n -= 1;
                        }
                        _ => break,
                    }
                }
                v.truncate(n);
                if by != 0 {
                    v.push(MItem::Ind(by as i16));
                }
            }
            other => v.push(other),
        }
    }
    pub fn add_all(&mut self, other: &[MItem<S>]) {
        for i in other {
            self.add(i.clone());
        }
    }
    pub fn lit(&mut self, s: impl Into<String>) {
        self.add(MItem::Lit(s.into()))
    }
    pub fn space(&mut self) {
        self.add(MItem::Space)
    }
    pub fn push(&mut self) {
        self.add(MItem::Push)
    }
    pub fn line(&mut self) {
        self.add(MItem::Line)
    }
    pub fn ind(&mut self, n: i16) {
        self.add(MItem::Ind(n))
    }
    pub fn quoted(&mut self, s: impl Into<String>) {
        self.add(MItem::OQ(false));
        self.lit(s);
        self.add(MItem::CQ);
    }
    /// Imports used or registered, in stream order.
    pub fn imports(&self) -> Vec<&S> {
        self.items
            .iter()
            .filter_map(|i| match i {
                MItem::Imp(s) | MItem::Reg(s) => Some(s),
                _ => None,
            })
            .collect()
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Unit {
    Space(usize),
    Tab,
}

/// Stands for one line break of the document.
pub const NL: char = '\u{E000}';

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Pending {
    Start,
    Nothing,
    Break(u8),
}

/// Renders a document.
pub struct MFmt {
    pub out: String,
    pending: Pending,
    spaces: usize,
    level: i64,
    unit: Unit,
    newline: &'static str,
    pub has_trailing: bool,
}

pub type Table = BTreeMap<String, String>;

pub struct Cx<'a, K: Kit> {
    pub cm: &'a K::CM,
    pub table: &'a Table,
}

impl MFmt {
    pub fn new(unit: Unit, newline: &'static str) -> MFmt {
        MFmt { out: String::new(), pending: Pending::Start, spaces: 0, level: 0, unit, newline, has_trailing: false }
    }

    pub fn text(&mut self, s: &str) {
        if s.is_empty() {
            return;
        }
        let breaks = match self.pending {
            Pending::Nothing => None,
            Pending::Start => Some(0),
            Pending::Break(n) => Some(n),
        };
        if let Some(n) = breaks {
            for _ in 0..n {
                self.out.push(NL);
            }
            let level = self.level.max(0) as usize;
            match self.unit {
                Unit::Space(n) => self.out.extend(std::iter::repeat_n(' ', n * level)),
                Unit::Tab => self.out.extend(std::iter::repeat_n('\t', level)),
            }
        }
        self.out.extend(std::iter::repeat_n(' ', self.spaces));
        self.pending = Pending::Nothing;
        self.spaces = 0;
        self.out.push_str(s);
    }

    fn brk(&mut self, n: u8) {
        self.spaces = 0;
        self.pending = match self.pending {
            Pending::Start => Pending::Start,
            Pending::Nothing => Pending::Break(n),
            Pending::Break(m) => Pending::Break(m.max(n)),
        };
    }

    fn indent(&mut self, n: i16) {
        self.brk(1);
        self.level += i64::from(n);
    }

    /// End of a file: the final line break. Whitespace nothing followed is dropped.
    pub fn trailing(&mut self) {
        self.pending = Pending::Nothing;
        self.spaces = 0;
        self.out.push(NL);
        self.has_trailing = true;
    }

    /// The document as bytes of a text file.
    pub fn as_text(&self) -> String {
        let mut s = String::with_capacity(self.out.len());
        for c in self.out.chars() {
            if c == NL {
                s.push_str(self.newline);
            } else {
                s.push(c);
            }
        }
        s
    }

    /// The document as a list of lines.
    pub fn as_lines(&self) -> Vec<String> {
        let body = if self.has_trailing { &self.out[..self.out.len() - NL.len_utf8()] } else { &self.out[..] };
        body.split(NL).map(str::to_string).collect()
    }

    /// Render items; `Err` if the stream is malformed.
    pub fn render<K: Kit>(&mut self, items: &[MItem<K::S>], cx: &Cx<'_, K>) -> Result<(), ()> {
        let mut pos = 0;
        match self.normal::<K>(items, &mut pos, cx, 0, false)? {
            End::Stream => Ok(()),
            End::CloseQuote | End::CloseEval => Err(()),
        }
    }

    fn normal<K: Kit>(
        &mut self,
        items: &[MItem<K::S>],
        pos: &mut usize,
        cx: &Cx<'_, K>,
        depth: usize,
        in_eval: bool,
    ) -> Result<End, ()> {
        while let Some(it) = items.get(*pos) {
            *pos += 1;
            match it {
                MItem::Lit(s) => self.text(s),
                MItem::OQ(e) => {
                    self.text(K::open_quote(*e));
                    match self.quoted::<K>(items, pos, cx, depth, *e)? {
                        End::CloseQuote => self.text(K::close_quote(*e)),
                        other => return Ok(other),
                    }
                }
                MItem::CQ if depth > 0 => return Ok(End::CloseQuote),
                MItem::CE if in_eval => return Ok(End::CloseEval),
                MItem::CQ | MItem::OE | MItem::CE => return Err(()),
                other => self.common::<K>(other, cx)?,
            }
        }
        Ok(End::Stream)
    }

    fn quoted<K: Kit>(
        &mut self,
        items: &[MItem<K::S>],
        pos: &mut usize,
        cx: &Cx<'_, K>,
        depth: usize,
        _eval: bool,
    ) -> Result<End, ()> {
        while let Some(it) = items.get(*pos) {
            *pos += 1;
            match it {
                MItem::Lit(s) => self.text(&K::escape(s)),
                MItem::OQ(true) => return Err(()),
                MItem::OQ(false) => {
                    if depth + 1 > 8 {
                        return Err(());
                    }
                    let mut inner = MFmt::new(self.unit, self.newline);
                    inner.text(K::open_quote(false));
                    let end = inner.normal::<K>(items, pos, cx, depth + 1, false)?;
                    if matches!(end, End::CloseEval) {
                        return Err(());
                    }
                    inner.text(K::close_quote(false));
                    let t = inner.as_text();
                    self.text(&K::escape(&t));
                }
                MItem::CQ => return Ok(End::CloseQuote),
                MItem::OE => {
                    if let (Some(MItem::Lit(s)), Some(MItem::CE)) = (items.get(*pos), items.get(*pos + 1)) {
                        *pos += 2;
                        let t = K::eval_literal(s);
                        self.text(&t);
                    } else {
                        self.text(K::open_eval());
                        match self.normal::<K>(items, pos, cx, depth, true)? {
                            End::CloseEval => self.text(K::close_eval()),
                            End::Stream => return Ok(End::Stream),
                            End::CloseQuote => return Err(()),
                        }
                    }
                }
                MItem::CE => return Err(()),
                other => self.common::<K>(other, cx)?,
            }
        }
        Ok(End::Stream)
    }

    fn common<K: Kit>(&mut self, it: &MItem<K::S>, cx: &Cx<'_, K>) -> Result<(), ()> {
        match it {
            MItem::Imp(s) => K::render_item(self, s, cx)?,
            MItem::Reg(_) => {}
            MItem::Push => self.brk(1),
            MItem::Line => self.brk(2),
            MItem::Space => self.spaces += 1,
            MItem::Ind(n) => {
                if *n != 0 {
                    self.indent(*n)
                }
            }
            _ => unreachable!(),
        }
        Ok(())
    }
}

enum End {
    Stream,
    CloseQuote,
    CloseEval,
}
