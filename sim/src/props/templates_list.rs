// Plain interpolations on one line.
pub struct Plain;
impl Template for Plain {
    const NAME: &'static str = "Plain";
    fn real<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
        quote_in! { *t => foo $(pr.q(1)?) bar$(pr.q(2)?)baz; $(pr.q(3)?) }
        Ok(())
    }
    fn model(m: &mut MV, pr: &Pr) -> Flow {
        l(m, "foo");
        sp(m);
        m.lit(pr.q(1)?);
        sp(m);
        l(m, "bar");
        m.lit(pr.q(2)?);
        l(m, "baz;");
        sp(m);
        m.lit(pr.q(3)?);
        Ok(())
    }
}

// Several lines with indentation, strings and delimiters.
pub struct Lines;
impl Template for Lines {
    const NAME: &'static str = "Lines";
    fn real<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
        quote_in! { *t =>
            fn $(pr.q(1)?)(a: [$(pr.q(2)?)]) {
                let x = "one \" two";
                $(pr.q(3)?);

                if $(pr.q(4)?) {
                    $(pr.multi(5)?)
                }
            }
            end $$ $(pr.q(6)?)
        }
        Ok(())
    }
    fn model(m: &mut MV, pr: &Pr) -> Flow {
        l(m, "fn");
        sp(m);
        m.lit(pr.q(1)?);
        l(m, "(a:");
        sp(m);
        l(m, "[");
        m.lit(pr.q(2)?);
        l(m, "])");
        sp(m);
        l(m, "{");
        tind(m);
        l(m, "let");
        sp(m);
        l(m, "x");
        sp(m);
        l(m, "=");
        sp(m);
        qs(m, "one \" two");
        l(m, ";");
        tp(m);
        m.lit(pr.q(3)?);
        l(m, ";");
        tln(m);
        l(m, "if");
        sp(m);
        m.lit(pr.q(4)?);
        sp(m);
        l(m, "{");
        tind(m);
        pr.mmulti(5, m)?;
        tun(m);
        l(m, "}");
        tun(m);
        l(m, "}");
        tp(m);
        l(m, "end");
        sp(m);
        l(m, "$");
        sp(m);
        m.lit(pr.q(6)?);
        Ok(())
    }
}

// Conditions.
pub struct Conditions;
impl Template for Conditions {
    const NAME: &'static str = "Conditions";
    fn real<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
        quote_in! { *t =>
            a $(if pr.b(1)? => yes $(pr.q(2)?)) b
            $(if pr.b(3)? { one $(pr.q(4)?) } else { two $(pr.q(5)?) }) c
            $(if let Some(x) = pr.opt(6)? { some $x } else { none $(pr.q(7)?) })
            $(if let (Some(x), true) = (pr.opt(8)?, pr.b(9)?) => both $x)
            $(if pr.b(10)? && pr.b(11)? || pr.b(12)? {
                $(if !pr.b(13)? { inner $(pr.q(14)?) })
            } else {
                other
            })
        }
        Ok(())
    }
    fn model(m: &mut MV, pr: &Pr) -> Flow {
        l(m, "a");
        sp(m);
        if pr.b(1)? {
            l(m, "yes");
            sp(m);
            m.lit(pr.q(2)?);
        }
        sp(m);
        l(m, "b");
        tp(m);
        if pr.b(3)? {
            l(m, "one");
            sp(m);
            m.lit(pr.q(4)?);
        } else {
            l(m, "two");
            sp(m);
            m.lit(pr.q(5)?);
        }
        sp(m);
        l(m, "c");
        tp(m);
        match pr.opt(6)? {
            Some(x) => {
                l(m, "some");
                sp(m);
                m.lit(x);
            }
            None => {
                l(m, "none");
                sp(m);
                m.lit(pr.q(7)?);
            }
        }
        tp(m);
        let (o, b) = (pr.opt(8)?, pr.b(9)?);
        if let (Some(x), true) = (o, b) {
            l(m, "both");
            sp(m);
            m.lit(x);
        }
        tp(m);
        let c = if pr.b(10)? {
            if pr.b(11)? {
                true
            } else {
                pr.b(12)?
            }
        } else {
            pr.b(12)?
        };
        if c {
            if !pr.b(13)? {
                l(m, "inner");
                sp(m);
                m.lit(pr.q(14)?);
            }
        } else {
            l(m, "other");
        }
        Ok(())
    }
}

// Loops, nested, with and without joins.
pub struct Loops;
impl Template for Loops {
    const NAME: &'static str = "Loops";
    fn real<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
        quote_in! { *t =>
            list($(for x in pr.it(1)? join (, ) => $x$(pr.q(2)?)));
            $(for x in pr.it(3)? {
                item $x: $(for y in pr.it(4)? join ( + $(pr.q(5)?) ) { $y });
            })
            $(for (a, b) in pr.it(6)?.zip(pr.it(7)?) join ($['\r']) => $a = $b $(pr.q(8)?))
            done
        }
        Ok(())
    }
    fn model(m: &mut MV, pr: &Pr) -> Flow {
        l(m, "list(");
        let mut it = pr.it(1)?;
        let mut next = it.step()?;
        while let Some(x) = next {
            m.lit(x);
            m.lit(pr.q(2)?);
            next = it.step()?;
            if next.is_some() {
                l(m, ",");
                sp(m);
            }
        }
        l(m, ");");
        tp(m);
        let mut it = pr.it(3)?;
        while let Some(x) = it.step()? {
            l(m, "item");
            sp(m);
            m.lit(x);
            l(m, ":");
            sp(m);
            let mut it = pr.it(4)?;
            let mut next = it.step()?;
            while let Some(y) = next {
                m.lit(y);
                next = it.step()?;
                if next.is_some() {
                    sp(m);
                    l(m, "+");
                    sp(m);
                    m.lit(pr.q(5)?);
                    sp(m);
                }
            }
            l(m, ";");
        }
        tp(m);
        let mut a = pr.it(6)?;
        let mut b = pr.it(7)?;
        let mut pair = || -> Flow<Option<(String, String)>> {
            let Some(x) = a.step()? else { return Ok(None) };
            let Some(y) = b.step()? else { return Ok(None) };
            Ok(Some((x, y)))
        };
        let mut next = pair()?;
        while let Some((x, y)) = next {
            m.lit(x);
            sp(m);
            l(m, "=");
            sp(m);
            m.lit(y);
            sp(m);
            m.lit(pr.q(8)?);
            next = pair()?;
            if next.is_some() {
                p(m);
            }
        }
        tp(m);
        l(m, "done");
        Ok(())
    }
}

// Leaving and continuing loops of the template.
pub struct Breaks;
impl Template for Breaks {
    const NAME: &'static str = "Breaks";
    fn real<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
        quote_in! { *t =>
            start
            $(for x in pr.it(1)? join (, ) {
                $(ref o {
                    if pr.rare(2)? {
                        o.append("!");
                        continue;
                    }
                    if pr.rare(3)? {
                        break;
                    }
                })
                x $x
            })
            $(for x in pr.it(4)? {
                [$x $({
                    if pr.rare(5)? {
                        break;
                    }
                    pr.q(6)?
                })]
            })
            end
        }
        Ok(())
    }
    fn model(m: &mut MV, pr: &Pr) -> Flow {
        l(m, "start");
        tp(m);
        let mut it = pr.it(1)?;
        // The look-ahead happens when an iteration ends normally.
        let mut ahead: Option<Option<String>> = None;
        loop {
            let cur = match ahead.take() {
                Some(v) => v,
                None => it.step()?,
            };
            let Some(x) = cur else { break };
            if pr.rare(2)? {
                l(m, "!");
                continue;
            }
            if pr.rare(3)? {
                break;
            }
            tp(m);
            l(m, "x");
            sp(m);
            m.lit(x);
            let n = it.step()?;
            if n.is_some() {
                l(m, ",");
                sp(m);
            }
            ahead = Some(n);
        }
        tp(m);
        let mut it = pr.it(4)?;
        while let Some(x) = it.step()? {
            l(m, "[");
            m.lit(x);
            sp(m);
            if pr.rare(5)? {
                break;
            }
            m.lit(pr.q(6)?);
            l(m, "]");
        }
        tp(m);
        l(m, "end");
        Ok(())
    }
}

// Matching.
pub struct Matches;
impl Template for Matches {
    const NAME: &'static str = "Matches";
    fn real<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
        quote_in! { *t =>
            $(match pr.n(1, 5)? {
                0 => zero,
                1 => { one $(pr.q(2)?) }
                2 if pr.b(3)? => ( two $(pr.q(4)?) ),
                2 | 3 => { $(match pr.opt(5)? { Some(x) => some $x, None => none $(pr.q(6)?) }) },
                n => n$(n)$(pr.q(7)?),
            }) tail
            $(match (pr.b(8)?, pr.b(9)?) {
                (true, _) => first $(pr.q(10)?),
                (_, true) if { pr.mark(11)?; true } => second,
                _ => {},
            })
            $(match pr.opt(12)?.as_deref() { Some(s) if s.is_empty() => empty, Some(s) => $s, None => ($['\n']) })
            end
        }
        Ok(())
    }
    fn model(m: &mut MV, pr: &Pr) -> Flow {
        match pr.n(1, 5)? {
            0 => l(m, "zero"),
            1 => {
                l(m, "one");
                sp(m);
                m.lit(pr.q(2)?);
            }
            n => {
                if n == 2 && pr.b(3)? {
                    sp(m);
                    l(m, "two");
                    sp(m);
                    m.lit(pr.q(4)?);
                    sp(m);
                } else if n == 2 || n == 3 {
                    match pr.opt(5)? {
                        Some(x) => {
                            l(m, "some");
                            sp(m);
                            m.lit(x);
                        }
                        None => {
                            l(m, "none");
                            sp(m);
                            m.lit(pr.q(6)?);
                        }
                    }
                } else {
                    l(m, "n4");
                    m.lit(pr.q(7)?);
                }
            }
        }
        sp(m);
        l(m, "tail");
        tp(m);
        let (a, b) = (pr.b(8)?, pr.b(9)?);
        if a {
            l(m, "first");
            sp(m);
            m.lit(pr.q(10)?);
        } else if b {
            pr.mark(11)?;
            l(m, "second");
        }
        tp(m);
        match pr.opt(12)? {
            Some(s) if s.is_empty() => l(m, "empty"),
            Some(s) => m.lit(s),
            None => ln(m),
        }
        tp(m);
        l(m, "end");
        Ok(())
    }
}

// Bindings.
pub struct Lets;
impl Template for Lets {
    const NAME: &'static str = "Lets";
    fn real<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
        quote_in! { *t =>
            a
            $(let x = pr.q(1)?)
            use $(&x) and $(&x)
            $(let (y, z) = (pr.q(2)?, pr.q(3)?))
            $(let x = format!("{x}{}", pr.q(4)?))
            $z$y$x
            $(for i in pr.it(5)? {
                $(let k = format!("{i}:{}", pr.q(6)?))
                $(&k) $k
            })
            $(let w = quote!(sub $(pr.q(7)?)))
            $(if pr.b(8)? => $(&w) $w)
        }
        Ok(())
    }
    fn model(m: &mut MV, pr: &Pr) -> Flow {
        l(m, "a");
        tp(m);
        let x = pr.q(1)?;
        tp(m);
        l(m, "use");
        sp(m);
        m.lit(x.clone());
        sp(m);
        l(m, "and");
        sp(m);
        m.lit(x.clone());
        tp(m);
        let (y, z) = (pr.q(2)?, pr.q(3)?);
        tp(m);
        let x = format!("{x}{}", pr.q(4)?);
        tp(m);
        m.lit(z);
        m.lit(y);
        m.lit(x);
        tp(m);
        let mut it = pr.it(5)?;
        while let Some(i) = it.step()? {
            let k = format!("{i}:{}", pr.q(6)?);
            tp(m);
            m.lit(k.clone());
            sp(m);
            m.lit(k);
        }
        tp(m);
        let mut w = MStream::<()>::default();
        Adder::lit(&mut w, "sub".into());
        w.space();
        Adder::lit(&mut w, pr.q(7)?);
        tp(m);
        if pr.b(8)? {
            m.add_all(&w.items);
            sp(m);
            m.add_all(&w.items);
        }
        Ok(())
    }
}

// Scopes.
pub struct Scopes;
impl Template for Scopes {
    const NAME: &'static str = "Scopes";
    fn real<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
        quote_in! { *t =>
            before
            $(ref o {
                o.append(pr.q(1)?);
                if pr.b(2)? {
                    quote_in!(*o => inner $(pr.q(3)?));
                }
                o.space();
            })mid $(pr.q(4)?)
            $(ref o => for _ in 0..pr.n(5, 3)? { o.append(pr.q(6)?); o.line(); })
            $(ref toks => quote_in! { *toks => $(ref deeper { deeper.append(pr.q(7)?) }) x })
            after
        }
        Ok(())
    }
    fn model(m: &mut MV, pr: &Pr) -> Flow {
        l(m, "before");
        tp(m);
        m.lit(pr.q(1)?);
        if pr.b(2)? {
            l(m, "inner");
            sp(m);
            m.lit(pr.q(3)?);
        }
        sp(m);
        l(m, "mid");
        sp(m);
        m.lit(pr.q(4)?);
        tp(m);
        for _ in 0..pr.n(5, 3)? {
            m.lit(pr.q(6)?);
            ln(m);
        }
        tp(m);
        m.lit(pr.q(7)?);
        sp(m);
        l(m, "x");
        tp(m);
        l(m, "after");
        Ok(())
    }
}

// A scope that does not use the stream.
pub struct Unbound;
impl Template for Unbound {
    const NAME: &'static str = "Unbound";
    fn real<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
        let log = RefCell::new(Vec::new());
        quote_in! { *t =>
            a $(pr.q(1)?) b
            $(ref _ { log.borrow_mut().push(pr.q(2)?); })
            c
            $(ref _ => if pr.b(3)? { log.borrow_mut().push(pr.q(4)?); })
            $(for x in log.into_inner() join (, ) => $x)
        }
        Ok(())
    }
    fn model(m: &mut MV, pr: &Pr) -> Flow {
        l(m, "a");
        sp(m);
        m.lit(pr.q(1)?);
        sp(m);
        l(m, "b");
        let mut log = Vec::new();
        tp(m);
        log.push(pr.q(2)?);
        tp(m);
        l(m, "c");
        tp(m);
        if pr.b(3)? {
            log.push(pr.q(4)?);
        }
        tp(m);
        let n = log.len();
        for (i, x) in log.into_iter().enumerate() {
            m.lit(x);
            if i + 1 < n {
                l(m, ",");
                sp(m);
            }
        }
        Ok(())
    }
}

// Interpolated strings.
pub struct Strings;
impl Template for Strings {
    const NAME: &'static str = "Strings";
    fn real<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
        let name = "raw";
        quote_in! { *t =>
            a $[str](plain text) b
            $[str](one $two three$(a.$(pr.q(1)?)+b) $$four)
            $[str](x $[const](pr.q(2)?) y $[const](name) $[const]("lit") z)
            $[str]($($(if pr.b(3)? { $(pr.q(4)?) } else { no })) and $($(for i in pr.it(5)? join (, ) => $i)))
            $("verbatim  text") $("") "quoted" $(quoted(pr.q(6)?))
            $[str]($($(pr.q(7)?.as_str())))$(pr.q(8)?)
        }
        Ok(())
    }
    fn model(m: &mut MV, pr: &Pr) -> Flow {
        l(m, "a");
        sp(m);
        qs(m, "plain text");
        sp(m);
        l(m, "b");
        tp(m);
        oq(m, true);
        l(m, "one ");
        oe(m);
        l(m, "two");
        ce(m);
        l(m, " three");
        oe(m);
        l(m, "a.");
        m.lit(pr.q(1)?);
        l(m, "+b");
        ce(m);
        l(m, " $four");
        cq(m);
        tp(m);
        oq(m, false);
        l(m, "x ");
        m.lit(pr.q(2)?);
        l(m, " y ");
        l(m, "raw");
        l(m, " lit z");
        cq(m);
        tp(m);
        oq(m, true);
        oe(m);
        if pr.b(3)? {
            m.lit(pr.q(4)?);
        } else {
            l(m, "no");
        }
        ce(m);
        l(m, " and ");
        oe(m);
        let mut it = pr.it(5)?;
        let mut next = it.step()?;
        while let Some(x) = next {
            m.lit(x);
            next = it.step()?;
            if next.is_some() {
                l(m, ",");
                sp(m);
            }
        }
        ce(m);
        cq(m);
        tp(m);
        l(m, "verbatim  text");
        sp(m);
        sp(m);
        qs(m, "quoted");
        sp(m);
        let q = pr.q(6)?;
        oq(m, false);
        m.lit(q);
        cq(m);
        tp(m);
        oq(m, true);
        oe(m);
        m.lit(pr.q(7)?);
        ce(m);
        cq(m);
        m.lit(pr.q(8)?);
        Ok(())
    }
}

// Streams inside of streams.
pub struct Nested;
impl Template for Nested {
    const NAME: &'static str = "Nested";
    fn real<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
        let sub: Tokens<L> = quote! {
            sub $(pr.q(1)?) {
                $(pr.q(2)?)
            }
        };
        quote_in! { *t =>
            $(&sub) and $(quote!(more $(pr.q(3)?) $(quote!(deep $(pr.q(4)?)))))
            $(vec![pr.q(5)?, pr.q(6)?]) $(Some(pr.q(7)?)) $(pr.opt(8)?)
            $(quoted(quote!(in $(pr.q(9)?))))
            $sub
        }
        Ok(())
    }
    fn model(m: &mut MV, pr: &Pr) -> Flow {
        let mut sub = MStream::<()>::default();
        {
            let s = &mut sub;
            l(s, "sub");
            sp(s);
            s.lit(pr.q(1)?);
            sp(s);
            l(s, "{");
            tind(s);
            s.lit(pr.q(2)?);
            tun(s);
            l(s, "}");
        }
        m.add_all(&sub.items);
        sp(m);
        l(m, "and");
        sp(m);
        let mut s = MStream::<()>::default();
        l(&mut s, "more");
        sp(&mut s);
        s.lit(pr.q(3)?);
        sp(&mut s);
        let mut d = MStream::<()>::default();
        l(&mut d, "deep");
        sp(&mut d);
        d.lit(pr.q(4)?);
        s.add_all(&d.items);
        m.add_all(&s.items);
        tp(m);
        let (a, b) = (pr.q(5)?, pr.q(6)?);
        m.lit(a);
        m.lit(b);
        sp(m);
        m.lit(pr.q(7)?);
        sp(m);
        if let Some(x) = pr.opt(8)? {
            m.lit(x);
        }
        tp(m);
        let mut s = MStream::<()>::default();
        l(&mut s, "in");
        sp(&mut s);
        s.lit(pr.q(9)?);
        oq(m, false);
        m.add_all(&s.items);
        cq(m);
        tp(m);
        m.add_all(&sub.items);
        Ok(())
    }
}

// Quoted functions run when they are added, and only then.
pub struct Functions;
impl Template for Functions {
    const NAME: &'static str = "Functions";
    fn real<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
        let f = quote_fn! {
            f $(pr.c(1)) {
                $(if pr.cb(2) => $(pr.c(3)))
            }
        };
        let unused = quote_fn!(never $(pr.c(4)));
        pr.mark(5)?;
        let g = from_fn(|t: &mut Tokens<L>| {
            t.append(pr.c(6));
            quote_in!(*t => g $(pr.c(7)));
        });
        let x = pr.q(8)?;
        let mv = quote_fn!(moved $x $(pr.c(9)));
        quote_in! { *t =>
            start
            $f $(pr.q(10)?) $g
            $(if pr.b(11)? => $unused)
            $mv
        }
        Ok(())
    }
    fn model(m: &mut MV, pr: &Pr) -> Flow {
        pr.mark(5)?;
        let x = pr.q(8)?;
        l(m, "start");
        tp(m);
        l(m, "f");
        sp(m);
        m.lit(pr.mc(1)?);
        sp(m);
        l(m, "{");
        tind(m);
        if pr.mcb(2)? {
            m.lit(pr.mc(3)?);
        }
        tun(m);
        l(m, "}");
        sp(m);
        m.lit(pr.q(10)?);
        sp(m);
        m.lit(pr.mc(6)?);
        l(m, "g");
        sp(m);
        m.lit(pr.mc(7)?);
        tp(m);
        if pr.b(11)? {
            l(m, "never");
            sp(m);
            m.lit(pr.mc(4)?);
        }
        tp(m);
        l(m, "moved");
        sp(m);
        m.lit(x);
        sp(m);
        m.lit(pr.mc(9)?);
        Ok(())
    }
}

// Many small templates on one stream, in a loop of the caller.
pub struct CallerLoop;
impl Template for CallerLoop {
    const NAME: &'static str = "CallerLoop";
    fn real<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
        'outer: for i in 0..pr.n(1, 5)? {
            for j in 0..2u32 {
                quote_in! { *t =>
                    a $i $({
                        if pr.rare(2)? {
                            break;
                        }
                        if pr.rare(3)? {
                            continue 'outer;
                        }
                        if pr.rare(4)? {
                            break 'outer;
                        }
                        pr.q(5)?
                    }) $j;
                };
                t.push();
            }
            quote_in!(*t => row $(pr.q(6)?););
            t.line();
        }
        if pr.rare(7)? {
            quote_in!(*t => bye $({ if pr.b(8)? { return Err(Left::Return); } "no" }) );
        }
        Ok(())
    }
    fn model(m: &mut MV, pr: &Pr) -> Flow {
        'outer: for i in 0..pr.n(1, 5)? {
            for j in 0..2u32 {
                l(m, "a");
                sp(m);
                m.lit(i.to_string());
                sp(m);
                if pr.rare(2)? {
                    break;
                }
                if pr.rare(3)? {
                    continue 'outer;
                }
                if pr.rare(4)? {
                    break 'outer;
                }
                m.lit(pr.q(5)?);
                sp(m);
                m.lit(j.to_string());
                l(m, ";");
                p(m);
            }
            l(m, "row");
            sp(m);
            m.lit(pr.q(6)?);
            l(m, ";");
            ln(m);
        }
        if pr.rare(7)? {
            l(m, "bye");
            sp(m);
            if pr.b(8)? {
                return Err(Left::Return);
            }
            l(m, "no");
        }
        Ok(())
    }
}

// The target of `quote_in!` is evaluated once.
pub struct Target;
impl Template for Target {
    const NAME: &'static str = "Target";
    fn real<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
        fn place<'a, L: Lang>(v: &'a mut Vec<Tokens<L>>, pr: &Pr, id: u32) -> Flow<&'a mut Tokens<L>> {
            let n = pr.n(id, 2)? as usize;
            Ok(&mut v[n])
        }
        /// Puts the stream back, however this ends.
        struct Back<'a, L: Lang>(&'a mut Tokens<L>, Vec<Tokens<L>>);
        impl<L: Lang> Drop for Back<'_, L> {
            fn drop(&mut self) {
                *self.0 = std::mem::take(&mut self.1[0]);
            }
        }
        let v = vec![std::mem::take(t), Tokens::new()];
        let mut b = Back(t, v);
        for _ in 0..3 {
            quote_in! { *place(&mut b.1, pr, 1)? =>
                one $(pr.q(2)?)
                $(for x in pr.it(3)? join (;) => $x)
                two
            };
            quote_in!(b.1[pr.n(4, 2)? as usize] => $(pr.q(5)?) $['\n']);
        }
        let other = b.1.pop();
        drop(b);
        quote_in!(*t => $other $(pr.q(6)?));
        Ok(())
    }
    fn model(m: &mut MV, pr: &Pr) -> Flow {
        let mut other = MStream::<()>::default();
        fn first(m: &mut impl Adder<()>, pr: &Pr) -> Flow {
            l(m, "one");
            sp(m);
            m.lit(pr.q(2)?);
            tp(m);
            let mut it = pr.it(3)?;
            let mut next = it.step()?;
            while let Some(x) = next {
                m.lit(x);
                next = it.step()?;
                if next.is_some() {
                    l(m, ";");
                }
            }
            tp(m);
            l(m, "two");
            Ok(())
        }
        fn second(m: &mut impl Adder<()>, pr: &Pr) -> Flow {
            m.lit(pr.q(5)?);
            sp(m);
            ln(m);
            Ok(())
        }
        for _ in 0..3 {
            if pr.n(1, 2)? == 0 {
                first(m, pr)?;
            } else {
                first(&mut other, pr)?;
            }
            if pr.n(4, 2)? == 0 {
                second(m, pr)?;
            } else {
                second(&mut other, pr)?;
            }
        }
        m.add_all(&other.items);
        sp(m);
        m.lit(pr.q(6)?);
        Ok(())
    }
}

// Controls and whitespace at the edges of things.
pub struct Edges;
impl Template for Edges {
    const NAME: &'static str = "Edges";
    fn real<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
        quote_in! { *t =>
            $['\n']$(pr.q(1)?)$[' ']$(pr.q(2)?)$['\r']x
                deep $(pr.q(3)?)
                    deeper
                $(if pr.b(4)? { back })
            out


            $(for x in pr.it(5)? join ( , $(pr.q(6)?)$['\r']) => $x)
            $[' ']tail$['\n']
        }
        quote_in!(*t => $(pr.q(7)?));
        quote_in!(*t =>    spaced $(pr.q(8)?)   );
        quote_in! { *t =>
        }
        Ok(())
    }
    fn model(m: &mut MV, pr: &Pr) -> Flow {
        ln(m);
        m.lit(pr.q(1)?);
        sp(m);
        m.lit(pr.q(2)?);
        p(m);
        l(m, "x");
        tind(m);
        l(m, "deep");
        sp(m);
        m.lit(pr.q(3)?);
        tind(m);
        l(m, "deeper");
        tun(m);
        if pr.b(4)? {
            l(m, "back");
        }
        tun(m);
        l(m, "out");
        tln(m);
        let mut it = pr.it(5)?;
        let mut next = it.step()?;
        while let Some(x) = next {
            m.lit(x);
            next = it.step()?;
            if next.is_some() {
                sp(m);
                l(m, ",");
                sp(m);
                m.lit(pr.q(6)?);
                p(m);
            }
        }
        tp(m);
        sp(m);
        l(m, "tail");
        ln(m);
        m.lit(pr.q(7)?);
        l(m, "spaced");
        sp(m);
        m.lit(pr.q(8)?);
        Ok(())
    }
}

// Everything inside of everything.
pub struct Mixed;
impl Template for Mixed {
    const NAME: &'static str = "Mixed";
    fn real<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
        quote_in! { *t =>
            class $(pr.q(1)?) {
                $(for f in pr.it(2)? join ($['\n']) {
                    $(match pr.n(3, 3)? {
                        0 => field $f,
                        1 => {
                            $(if pr.b(4)? {
                                method $f($(for a in pr.it(5)? join (, ) => $a: $(pr.q(6)?))) {
                                    $(let body = pr.q(7)?)
                                    return $body;
                                }
                            } else {
                                $(ref o { o.append(pr.multi(8)?); })
                            })
                        }
                        _ => $[str](text $($(pr.q(9)?))),
                    })
                })
            }
        }
        Ok(())
    }
    fn model(m: &mut MV, pr: &Pr) -> Flow {
        l(m, "class");
        sp(m);
        m.lit(pr.q(1)?);
        sp(m);
        l(m, "{");
        tind(m);
        let mut it = pr.it(2)?;
        let mut next = it.step()?;
        while let Some(f) = next {
            match pr.n(3, 3)? {
                0 => {
                    l(m, "field");
                    sp(m);
                    m.lit(f);
                }
                1 => {
                    if pr.b(4)? {
                        l(m, "method");
                        sp(m);
                        m.lit(f);
                        l(m, "(");
                        let mut it = pr.it(5)?;
                        let mut next = it.step()?;
                        while let Some(a) = next {
                            m.lit(a);
                            l(m, ":");
                            sp(m);
                            m.lit(pr.q(6)?);
                            next = it.step()?;
                            if next.is_some() {
                                l(m, ",");
                                sp(m);
                            }
                        }
                        l(m, ")");
                        sp(m);
                        l(m, "{");
                        tind(m);
                        let body = pr.q(7)?;
                        tp(m);
                        l(m, "return");
                        sp(m);
                        m.lit(body);
                        l(m, ";");
                        tun(m);
                        l(m, "}");
                    } else {
                        pr.mmulti(8, m)?;
                    }
                }
                _ => {
                    oq(m, true);
                    l(m, "text ");
                    oe(m);
                    m.lit(pr.q(9)?);
                    ce(m);
                    cq(m);
                }
            }
            next = it.step()?;
            if next.is_some() {
                ln(m);
            }
        }
        tun(m);
        l(m, "}");
        Ok(())
    }
}

// Joins with conditions, joins inside of joins.
pub struct Joins;
impl Template for Joins {
    const NAME: &'static str = "Joins";
    fn real<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
        quote_in! { *t =>
            $(for x in pr.it(1)? join ($(if pr.b(2)? { ; } else { , })) { $x })
            $(for x in pr.it(3)? join ($(for y in pr.it(4)? join (-) => $y)) => <$x>)
            $(for _ in pr.it(5)? join ($(pr.q(6)?)) => )
            $(for x in pr.it(7)?.filter(|x| { x.len() != 3 || pr.cb(8) }) join (|) => $(pr.q(9)?) $x)
        }
        Ok(())
    }
    fn model(m: &mut MV, pr: &Pr) -> Flow {
        let mut it = pr.it(1)?;
        let mut next = it.step()?;
        while let Some(x) = next {
            m.lit(x);
            next = it.step()?;
            if next.is_some() {
                if pr.b(2)? {
                    l(m, ";");
                } else {
                    l(m, ",");
                }
            }
        }
        tp(m);
        let mut it = pr.it(3)?;
        let mut next = it.step()?;
        while let Some(x) = next {
            l(m, "<");
            m.lit(x);
            l(m, ">");
            next = it.step()?;
            if next.is_some() {
                let mut it = pr.it(4)?;
                let mut next = it.step()?;
                while let Some(y) = next {
                    m.lit(y);
                    next = it.step()?;
                    if next.is_some() {
                        l(m, "-");
                    }
                }
            }
        }
        tp(m);
        let mut it = pr.it(5)?;
        let mut next = it.step()?;
        while next.is_some() {
            next = it.step()?;
            if next.is_some() {
                m.lit(pr.q(6)?);
            }
        }
        tp(m);
        let mut it = pr.it(7)?;
        let mut step = || -> Flow<Option<String>> {
            loop {
                match it.step()? {
                    None => return Ok(None),
                    Some(x) => {
                        if x.len() != 3 || pr.mcb(8)? {
                            return Ok(Some(x));
                        }
                    }
                }
            }
        };
        let mut next = step()?;
        while let Some(x) = next {
            m.lit(pr.q(9)?);
            sp(m);
            m.lit(x);
            next = step()?;
            if next.is_some() {
                l(m, "|");
            }
        }
        Ok(())
    }
}

macro_rules! with_template {
    ($idx:expr, $T:ident => $e:expr) => {{
        use $crate::props::templates as tt;
        match $idx {
            0 => { type $T = tt::Plain; $e }
            1 => { type $T = tt::Lines; $e }
            2 => { type $T = tt::Conditions; $e }
            3 => { type $T = tt::Loops; $e }
            4 => { type $T = tt::Breaks; $e }
            5 => { type $T = tt::Matches; $e }
            6 => { type $T = tt::Lets; $e }
            7 => { type $T = tt::Scopes; $e }
            8 => { type $T = tt::Unbound; $e }
            9 => { type $T = tt::Strings; $e }
            10 => { type $T = tt::Nested; $e }
            11 => { type $T = tt::Functions; $e }
            12 => { type $T = tt::CallerLoop; $e }
            13 => { type $T = tt::Target; $e }
            14 => { type $T = tt::Edges; $e }
            15 => { type $T = tt::Mixed; $e }
            _ => { type $T = tt::Joins; $e }
        }
    }};
}
pub(crate) use with_template;
pub const TEMPLATES: u64 = 17;
