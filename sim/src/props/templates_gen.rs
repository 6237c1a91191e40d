// Written by tools/gen_templates.py; do not edit.

fn real_0<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        a1 $(let v1 = pr.q(1)?)=	;       $(for v2 in pr.it(2)? join ($(vec![pr.q(3)?, pr.q(4)?]) ) {})while $(if let Some(v4) = pr.opt(5)? {})$(ref o5 => quote_in!(*o5 => $v1$[str](plain)))
        $(pr.multi(8)?)
    }
    Ok(())
}
fn model_0(m: &mut MV, pr: &Pr) -> Flow {
    l(m, "a1");
    sp(m);
    let v1 = pr.q(1)?;
    l(m, "=");
    sp(m);
    l(m, ";");
    sp(m);
    {
    let mut it3 = pr.it(2)?;
    let mut step = || -> Flow<Option<String>> { it3.step() };
    let mut next = step()?;
    while let Some(v2) = next {
    {
    }
    next = step()?;
    if next.is_some() {
    {
    { let x = pr.q(3)?; let y = pr.q(4)?; m.lit(x); m.lit(y); }
    sp(m);
    }
    }
    }
    }
    l(m, "while");
    sp(m);
    if let Some(v4) = pr.opt(5)? {
    }
    {
    m.lit(v1);
    qs(m, "plain");
    }
    tp(m);
    pr.mmulti(8, m)?;
    Ok(())
}
fn real_1<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        && {$(for v1 in pr.it(1)?.filter(|_| pr.cb(2)) {
            .       +
        })/**/$(ref _ { pr.mark(3)?; })  $(ref _ { pr.mark(4)?; })}
            $(let v3 = pr.q(5)?)$(for v4 in pr.it(6)? join ( $(pr.opt(7)?)  $(for v6 in pr.it(8)? { Self }) ) => $(ref _ { pr.mark(9)?; }))
                $(quoted(quote!($(match pr.opt(10)? { Some(v9) if v9.is_empty() || pr.b(11)? => { $(&v9) }, Some(v10) => { $("ä") } _ => <<= x {[$(pr.q(12)?.as_str())  ...] $(let v11 = pr.n(13, 9)?), $(for v12 in 0..pr.n(14, 4)? => nameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameame$(quoted(pr.q(15)?))nameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameame) $(match pr.q(16)? { v14 => { $(from_fn(|t| { t.append(pr.c(17)); t.space(); t.append(pr.c(18)); })) } })}, }) $(display(pr.n(19, 9)?)))))$(ref _ => if pr.b(20)? { pr.mark(21)?; }) $(&pr.q(22)?)
            $[' ']$(let mut v15 = pr.q(23)?) a1 ($(&v15))
    }
    Ok(())
}
fn model_1(m: &mut MV, pr: &Pr) -> Flow {
    l(m, "&&");
    sp(m);
    l(m, "{");
    {
    let mut it2 = pr.it(1)?;
    let mut step = || -> Flow<Option<String>> { while let Some(x) = it2.step()? { if pr.mcb(2)? { return Ok(Some(x)); } } Ok(None) };
    while let Some(v1) = step()? {
    l(m, ".");
    sp(m);
    l(m, "+");
    }
    }
    sp(m);
    pr.mark(3)?;
    sp(m);
    pr.mark(4)?;
    l(m, "}");
    tind(m);
    let v3 = pr.q(5)?;
    {
    let mut it5 = pr.it(6)?;
    let mut step = || -> Flow<Option<String>> { it5.step() };
    let mut next = step()?;
    while let Some(v4) = next {
    {
    pr.mark(9)?;
    }
    next = step()?;
    if next.is_some() {
    {
    sp(m);
    if let Some(x) = pr.opt(7)? { m.lit(x); }
    sp(m);
    {
    let mut it7 = pr.it(8)?;
    let mut step = || -> Flow<Option<String>> { it7.step() };
    while let Some(v6) = step()? {
    l(m, "Self");
    }
    }
    sp(m);
    }
    }
    }
    }
    tind(m);
    let mut s8 = MStream::<()>::default();
    {
    let m = &mut s8;
    match pr.opt(10)? {
    Some(v9) if v9.is_empty() || pr.b(11)? => {
    m.lit(v9.clone());
    }
    Some(v10) => {
    l(m, "ä");
    }
    _ => {
    l(m, "<<=");
    sp(m);
    l(m, "x");
    sp(m);
    l(m, "{");
    l(m, "[");
    m.lit(pr.q(12)?);
    sp(m);
    l(m, "...");
    l(m, "]");
    sp(m);
    let v11 = pr.n(13, 9)?;
    l(m, ",");
    sp(m);
    {
    let mut it13 = 0..pr.n(14, 4)?;
    let mut step = || -> Flow<Option<u64>> { Ok(it13.next()) };
    while let Some(v12) = step()? {
    l(m, "nameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameame");
    { let x = pr.q(15)?; oq(m, false); m.lit(x); cq(m); }
    l(m, "nameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameame");
    }
    }
    sp(m);
    match pr.q(16)? {
    v14 => {
    m.lit(pr.mc(17)?); sp(m); m.lit(pr.mc(18)?);
    }
    }
    l(m, "}");
    }
    }
    sp(m);
    m.lit(pr.n(19, 9)?.to_string());
    }
    oq(m, false);
    m.add_all(&s8.items);
    cq(m);
    if pr.b(20)? { pr.mark(21)?; }
    sp(m);
    m.lit(pr.q(22)?);
    tun(m);
    sp(m);
    let mut v15 = pr.q(23)?;
    sp(m);
    l(m, "a1");
    sp(m);
    l(m, "(");
    m.lit(v15.clone());
    l(m, ")");
    tend(m);
    Ok(())
}
fn real_2<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $({ if pr.b(1)? { "t" } else { "f" } })"lit"       $(quote! {
            $(for v2 in pr.opt(2)? {
                a1$(v2.clone())  $(let (v4, v5) = (pr.q(3)?, pr.n(4, 9)?)) (_y$(quoted(quote! {
                    $(pr.q(5)?)
                }))$({ if pr.b(6)? { "t" } else { "f" } }) /* between */ )
                        $(ref _ { pr.mark(7)?; })       {
                        }
            })$(for v7 in 0..pr.n(8, 4)? =>
                _y$(quoted(quote! {
                    _y$(if pr.b(9)? => "lit")
                    
                    // between
                    
                    
                    $(if pr.b(10)? {
                        'a $(pr.q(11)?) $$
                    })$(for v10 in 0..pr.n(12, 4)? join (	$(pr.q(13)?)) => &$(pr.n(14, 9)?)/**/$({ pr.mark(15)?; "blk" })) /* between */ $(display(pr.n(16, 9)?))
                })))
            $(match pr.b(17)? {
                true | false => $(ref o13 { o13.append(pr.q(18)?); o13.space(); o13.append(pr.q(19)?); })$({ pr.mark(20)?; "blk" })$[str](one three$[const](pr.q(21)?)) {$(ref o14 { o14.append(pr.q(22)?); o14.space(); o14.append(pr.q(23)?); }), _y $(quoted(quote!(a1/**/_y foo)))},
            })$(pr.q(24)?.as_str())/**/bar $(&pr.q(25)?)
        })$(ref _ => if pr.rare(26)? { return Err(Left::Return); })// note
        // between

        $(let v16 = pr.q(27)?) /* between */ $(pr.multi(28)?) ;
    }
    Ok(())
}
fn model_2(m: &mut MV, pr: &Pr) -> Flow {
    l(m, if pr.b(1)? { "t" } else { "f" });
    qs(m, "lit");
    sp(m);
    let mut s1 = MStream::<()>::default();
    {
    let m = &mut s1;
    {
    let mut it3 = pr.opt(2)?.into_iter();
    let mut step = || -> Flow<Option<String>> { Ok(it3.next()) };
    while let Some(v2) = step()? {
    l(m, "a1");
    m.lit(v2.clone());
    sp(m);
    let (v4, v5) = (pr.q(3)?, pr.n(4, 9)?);
    sp(m);
    l(m, "(");
    l(m, "_y");
    let mut s6 = MStream::<()>::default();
    {
    let m = &mut s6;
    m.lit(pr.q(5)?);
    }
    oq(m, false);
    m.add_all(&s6.items);
    cq(m);
    l(m, if pr.b(6)? { "t" } else { "f" });
    sp(m);
    l(m, ")");
    tind(m);
    pr.mark(7)?;
    sp(m);
    l(m, "{");
    tp(m);
    l(m, "}");
    tend(m);
    }
    }
    {
    let mut it8 = 0..pr.n(8, 4)?;
    let mut step = || -> Flow<Option<u64>> { Ok(it8.next()) };
    while let Some(v7) = step()? {
    l(m, "_y");
    let mut s9 = MStream::<()>::default();
    {
    let m = &mut s9;
    l(m, "_y");
    if pr.b(9)? {
    qs(m, "lit");
    }
    tln(m);
    if pr.b(10)? {
    l(m, "'a");
    sp(m);
    m.lit(pr.q(11)?);
    sp(m);
    l(m, "$");
    }
    {
    let mut it11 = 0..pr.n(12, 4)?;
    let mut step = || -> Flow<Option<u64>> { Ok(it11.next()) };
    let mut next = step()?;
    while let Some(v10) = next {
    {
    l(m, "&");
    m.lit(pr.n(14, 9)?.to_string());
    sp(m);
    pr.mark(15)?; l(m, "blk");
    }
    next = step()?;
    if next.is_some() {
    {
    sp(m);
    m.lit(pr.q(13)?);
    }
    }
    }
    }
    sp(m);
    m.lit(pr.n(16, 9)?.to_string());
    }
    oq(m, false);
    m.add_all(&s9.items);
    cq(m);
    }
    }
    tp(m);
    match pr.b(17)? {
    true | false => {
    m.lit(pr.q(18)?); sp(m); m.lit(pr.q(19)?);
    pr.mark(20)?; l(m, "blk");
    oq(m, false);
    l(m, "one three");
    m.lit(pr.q(21)?);
    cq(m);
    sp(m);
    l(m, "{");
    m.lit(pr.q(22)?); sp(m); m.lit(pr.q(23)?);
    l(m, ",");
    sp(m);
    l(m, "_y");
    sp(m);
    let mut s15 = MStream::<()>::default();
    {
    let m = &mut s15;
    l(m, "a1");
    sp(m);
    l(m, "_y");
    sp(m);
    l(m, "foo");
    }
    oq(m, false);
    m.add_all(&s15.items);
    cq(m);
    l(m, "}");
    }
    }
    m.lit(pr.q(24)?);
    sp(m);
    l(m, "bar");
    sp(m);
    m.lit(pr.q(25)?);
    }
    m.add_all(&s1.items);
    if pr.rare(26)? { return Err(Left::Return); }
    tln(m);
    let v16 = pr.q(27)?;
    sp(m);
    pr.mmulti(28, m)?;
    sp(m);
    l(m, ";");
    Ok(())
}
fn real_3<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(quote!($(pr.c(1))[$(let v2 = pr.q(2)?)foo$("ä")$(ref o3 { if pr.b(3)? { quote_in!(*o3 => $(let v4 = pr.q(4)?)       $(if pr.n(5, 3)? == 1 { a1 $(pr.n(6, 9)?) })); } o3.push(); })  ]))$(ref o5 { o5.append(pr.q(7)?); o5.space(); o5.append(pr.q(8)?); })
    }
    Ok(())
}
fn model_3(m: &mut MV, pr: &Pr) -> Flow {
    let mut s1 = MStream::<()>::default();
    {
    let m = &mut s1;
    m.lit(pr.mc(1)?);
    l(m, "[");
    let v2 = pr.q(2)?;
    l(m, "foo");
    l(m, "ä");
    if pr.b(3)? {
    let v4 = pr.q(4)?;
    sp(m);
    if pr.n(5, 3)? == 1 {
    l(m, "a1");
    sp(m);
    m.lit(pr.n(6, 9)?.to_string());
    }
    }
    p(m);
    sp(m);
    l(m, "]");
    }
    m.add_all(&s1.items);
    m.lit(pr.q(7)?); sp(m); m.lit(pr.q(8)?);
    Ok(())
}
fn real_4<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(ref _ { pr.mark(1)?; }){$(let (v1, v2) = (pr.q(2)?, pr.n(3, 9)?)) $(pr.opt(4)?)} while // note
        {while [$$ {$(pr.c(6)) {$$ $$ $(pr.n(5, 9)?)} a1} foo] $(&pr.q(7)?)}$(let v3 = pr.q(8)?)
    }
    Ok(())
}
fn model_4(m: &mut MV, pr: &Pr) -> Flow {
    pr.mark(1)?;
    l(m, "{");
    let (v1, v2) = (pr.q(2)?, pr.n(3, 9)?);
    sp(m);
    if let Some(x) = pr.opt(4)? { m.lit(x); }
    l(m, "}");
    sp(m);
    l(m, "while");
    tp(m);
    l(m, "{");
    l(m, "while");
    sp(m);
    l(m, "[");
    l(m, "$");
    sp(m);
    l(m, "{");
    m.lit(pr.mc(6)?);
    sp(m);
    l(m, "{");
    l(m, "$");
    sp(m);
    l(m, "$");
    sp(m);
    m.lit(pr.n(5, 9)?.to_string());
    l(m, "}");
    sp(m);
    l(m, "a1");
    l(m, "}");
    sp(m);
    l(m, "foo");
    l(m, "]");
    sp(m);
    m.lit(pr.q(7)?);
    l(m, "}");
    let v3 = pr.q(8)?;
    Ok(())
}
fn real_5<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        [	$(if let Some(v1) = pr.opt(1)? {
            $[str](plain) $(ref o2 { if pr.rare(3)? { o2.append(pr.q(4)?); return Err(Left::Return); } })x       {
            }	($(let v3 = pr.q(5)?) $(ref o4 { if pr.rare(6)? { o4.append(pr.q(7)?); return Err(Left::Return); } })+$(if pr.b(8)? {
                a1 a1	::
            })) $(for v5 in pr.it(9)?.filter(|_| pr.cb(10)) { $[str](plain)	$(if pr.b(11)? => $(vec![pr.q(12)?, pr.q(13)?])/**/$(vec![pr.q(14)?, pr.q(15)?])) }) a1       größe
        })$[str](a b  c) _y$(vec![pr.q(16)?, pr.q(17)?])]
    }
    Ok(())
}
fn model_5(m: &mut MV, pr: &Pr) -> Flow {
    l(m, "[");
    sp(m);
    if let Some(v1) = pr.opt(1)? {
    qs(m, "plain");
    sp(m);
    if pr.rare(3)? { m.lit(pr.q(4)?); return Err(Left::Return); }
    l(m, "x");
    sp(m);
    l(m, "{");
    tp(m);
    l(m, "}");
    sp(m);
    l(m, "(");
    let v3 = pr.q(5)?;
    sp(m);
    if pr.rare(6)? { m.lit(pr.q(7)?); return Err(Left::Return); }
    l(m, "+");
    if pr.b(8)? {
    l(m, "a1");
    sp(m);
    l(m, "a1");
    sp(m);
    l(m, "::");
    }
    l(m, ")");
    sp(m);
    {
    let mut it6 = pr.it(9)?;
    let mut step = || -> Flow<Option<String>> { while let Some(x) = it6.step()? { if pr.mcb(10)? { return Ok(Some(x)); } } Ok(None) };
    while let Some(v5) = step()? {
    qs(m, "plain");
    sp(m);
    if pr.b(11)? {
    { let x = pr.q(12)?; let y = pr.q(13)?; m.lit(x); m.lit(y); }
    sp(m);
    { let x = pr.q(14)?; let y = pr.q(15)?; m.lit(x); m.lit(y); }
    }
    }
    }
    sp(m);
    l(m, "a1");
    sp(m);
    l(m, "größe");
    }
    qs(m, "a b  c");
    sp(m);
    l(m, "_y");
    { let x = pr.q(16)?; let y = pr.q(17)?; m.lit(x); m.lit(y); }
    l(m, "]");
    Ok(())
}
fn real_6<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(for _ in pr.it(1)? join ($(if pr.n(2, 3)? == 1 { [$(quoted(pr.q(3)?)) {foo ($$ $(" lead") ,) $$} $(&pr.q(4)?)]$(for v3 in pr.opt(5)? => $(for (i7, v5) in pr.it(6)?.enumerate() join ($(pr.multi(7)?) ) { $$ $(pr.opt(8)?) a1 }))= })bar) => $[str](three))
    }
    Ok(())
}
fn model_6(m: &mut MV, pr: &Pr) -> Flow {
    {
    let mut it2 = pr.it(1)?;
    let mut step = || -> Flow<Option<String>> { it2.step() };
    let mut next = step()?;
    while let Some(_) = next {
    {
    oq(m, false);
    l(m, "three");
    cq(m);
    }
    next = step()?;
    if next.is_some() {
    {
    if pr.n(2, 3)? == 1 {
    l(m, "[");
    { let x = pr.q(3)?; oq(m, false); m.lit(x); cq(m); }
    sp(m);
    l(m, "{");
    l(m, "foo");
    sp(m);
    l(m, "(");
    l(m, "$");
    sp(m);
    l(m, " lead");
    sp(m);
    l(m, ",");
    l(m, ")");
    sp(m);
    l(m, "$");
    l(m, "}");
    sp(m);
    m.lit(pr.q(4)?);
    l(m, "]");
    {
    let mut it4 = pr.opt(5)?.into_iter();
    let mut step = || -> Flow<Option<String>> { Ok(it4.next()) };
    while let Some(v3) = step()? {
    {
    let mut it6 = pr.it(6)?;
    let mut at = 0u64;
    let mut step = || -> Flow<Option<(u64, String)>> { let x = it6.step()?; at += 1; Ok(x.map(|x| (at - 1, x))) };
    let mut next = step()?;
    while let Some((i7, v5)) = next {
    {
    l(m, "$");
    sp(m);
    if let Some(x) = pr.opt(8)? { m.lit(x); }
    sp(m);
    l(m, "a1");
    }
    next = step()?;
    if next.is_some() {
    {
    pr.mmulti(7, m)?;
    sp(m);
    }
    }
    }
    }
    }
    }
    l(m, "=");
    }
    l(m, "bar");
    }
    }
    }
    }
    Ok(())
}
fn real_7<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(for v1 in pr.opt(1)? join ($(if let Some(v3) = pr.opt(2)? => $[str](plain)	$(ref _ => if pr.rare(4)? { return Err(Left::Return); }))       ) => $(pr.n(5, 9)?)) $(for v4 in pr.it(6)? { $(let v6 = pr.n(7, 9)?) /* between */ $(pr.opt(8)?) })
    }
    Ok(())
}
fn model_7(m: &mut MV, pr: &Pr) -> Flow {
    {
    let mut it2 = pr.opt(1)?.into_iter();
    let mut step = || -> Flow<Option<String>> { Ok(it2.next()) };
    let mut next = step()?;
    while let Some(v1) = next {
    {
    m.lit(pr.n(5, 9)?.to_string());
    }
    next = step()?;
    if next.is_some() {
    {
    if let Some(v3) = pr.opt(2)? {
    qs(m, "plain");
    sp(m);
    if pr.rare(4)? { return Err(Left::Return); }
    }
    sp(m);
    }
    }
    }
    }
    sp(m);
    {
    let mut it5 = pr.it(6)?;
    let mut step = || -> Flow<Option<String>> { it5.step() };
    while let Some(v4) = step()? {
    let v6 = pr.n(7, 9)?;
    sp(m);
    if let Some(x) = pr.opt(8)? { m.lit(x); }
    }
    }
    Ok(())
}
fn real_8<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(for v1 in pr.it(1)? join (, ) => Self $(pr.q(3)?)  ([ $(quote!($(pr.q(4)?) "q\"uote";))$(ref o5 { if pr.b(5)? { quote_in!(*o5 => $(Some(pr.q(6)?))       =>foo); } o5.push(); }) /* between */ $(ref o6 {
            for _ in 0..pr.n(7, 3)? {
                quote_in! { *o6 =>
                    $(quoted(pr.q(8)?))bar
                        $({ pr.mark(9)?; "blk" })
                }
                o6.line();
            }
        })]$[str]($name-$[const](pr.q(10)?)$[const](pr.q(11)?)-)	$(let v7 = pr.q(12)?)$(pr.opt(13)?) ))
    }
    Ok(())
}
fn model_8(m: &mut MV, pr: &Pr) -> Flow {
    {
    let mut it2 = pr.it(1)?;
    let mut step = || -> Flow<Option<String>> { it2.step() };
    let mut next = step()?;
    while let Some(v1) = next {
    {
    l(m, "Self");
    sp(m);
    m.lit(pr.q(3)?);
    sp(m);
    l(m, "(");
    l(m, "[");
    sp(m);
    let mut s4 = MStream::<()>::default();
    {
    let m = &mut s4;
    m.lit(pr.q(4)?);
    sp(m);
    qs(m, "q\"uote");
    l(m, ";");
    }
    m.add_all(&s4.items);
    if pr.b(5)? {
    m.lit(pr.q(6)?);
    sp(m);
    l(m, "=>");
    l(m, "foo");
    }
    p(m);
    sp(m);
    for _ in 0..pr.n(7, 3)? {
    { let x = pr.q(8)?; oq(m, false); m.lit(x); cq(m); }
    l(m, "bar");
    tind(m);
    pr.mark(9)?; l(m, "blk");
    tend(m);
    ln(m);
    }
    l(m, "]");
    oq(m, true);
    oe(m);
    l(m, "name");
    ce(m);
    l(m, "-");
    m.lit(pr.q(10)?);
    m.lit(pr.q(11)?);
    l(m, "-");
    cq(m);
    sp(m);
    let v7 = pr.q(12)?;
    if let Some(x) = pr.opt(13)? { m.lit(x); }
    sp(m);
    l(m, ")");
    }
    next = step()?;
    if next.is_some() {
    {
    l(m, ",");
    sp(m);
    }
    }
    }
    }
    Ok(())
}
fn real_9<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $({ if pr.b(1)? { "t" } else { "f" } })	$[str](a b  c)[]{,$(for v1 in pr.it(2)? join (	$(pr.q(3)?.as_str()) ) { $(for v3 in 0..pr.n(4, 4)? { $(for v5 in [pr.q(5)?, pr.q(6)?] join (x) {
            $(format!("<{}>", pr.q(7)?))
                $(pr.n(8, 9)?)_y
            
            
            
                // between
                    bar
            
            
            
            
                    _y /* between */ :: (
                    )	$(&pr.q(9)?)       Self // note
                    $(quoted(pr.q(10)?)) while
            
                        bar "two words" [
            
                        ]
        }) $(match pr.b(11)? {
            true | false => $(Some(pr.q(12)?))/**/$(pr.opt(13)?)  a1,
        })$(if pr.b(14)? => $(pr.opt(15)?) $(pr.q(16)?)) })  $(pr.opt(17)?)$(quoted(pr.q(18)?)) })a1 x} {
        }
    }
    Ok(())
}
fn model_9(m: &mut MV, pr: &Pr) -> Flow {
    l(m, if pr.b(1)? { "t" } else { "f" });
    sp(m);
    qs(m, "a b  c");
    l(m, "[]");
    l(m, "{");
    l(m, ",");
    {
    let mut it2 = pr.it(2)?;
    let mut step = || -> Flow<Option<String>> { it2.step() };
    let mut next = step()?;
    while let Some(v1) = next {
    {
    {
    let mut it4 = 0..pr.n(4, 4)?;
    let mut step = || -> Flow<Option<u64>> { Ok(it4.next()) };
    while let Some(v3) = step()? {
    {
    let mut it6 = [pr.q(5)?, pr.q(6)?].into_iter();
    let mut step = || -> Flow<Option<String>> { Ok(it6.next()) };
    let mut next = step()?;
    while let Some(v5) = next {
    {
    m.lit(format!("<{}>", pr.q(7)?));
    tind(m);
    m.lit(pr.n(8, 9)?.to_string());
    l(m, "_y");
    tind(m);
    tln(m);
    l(m, "bar");
    tln(m);
    l(m, "_y");
    sp(m);
    l(m, "::");
    sp(m);
    l(m, "(");
    tp(m);
    l(m, ")");
    sp(m);
    m.lit(pr.q(9)?);
    sp(m);
    l(m, "Self");
    tp(m);
    { let x = pr.q(10)?; oq(m, false); m.lit(x); cq(m); }
    sp(m);
    l(m, "while");
    tind(m);
    tln(m);
    l(m, "bar");
    sp(m);
    qs(m, "two words");
    sp(m);
    l(m, "[");
    tln(m);
    l(m, "]");
    tend(m);
    tend(m);
    tend(m);
    }
    next = step()?;
    if next.is_some() {
    {
    l(m, "x");
    }
    }
    }
    }
    sp(m);
    match pr.b(11)? {
    true | false => {
    m.lit(pr.q(12)?);
    sp(m);
    if let Some(x) = pr.opt(13)? { m.lit(x); }
    sp(m);
    l(m, "a1");
    }
    }
    if pr.b(14)? {
    if let Some(x) = pr.opt(15)? { m.lit(x); }
    sp(m);
    m.lit(pr.q(16)?);
    }
    }
    }
    sp(m);
    if let Some(x) = pr.opt(17)? { m.lit(x); }
    { let x = pr.q(18)?; oq(m, false); m.lit(x); cq(m); }
    }
    next = step()?;
    if next.is_some() {
    {
    sp(m);
    m.lit(pr.q(3)?);
    sp(m);
    }
    }
    }
    }
    l(m, "a1");
    sp(m);
    l(m, "x");
    l(m, "}");
    sp(m);
    l(m, "{");
    tp(m);
    l(m, "}");
    Ok(())
}
fn real_10<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(pr.c(1)) $(ref _ => if pr.rare(2)? { return Err(Left::Return); })$(for v1 in pr.it(3)? join ( $(&pr.q(4)?)       ) => $(ref o3 { if pr.rare(5)? { o3.append(pr.q(6)?); break; } }) /* between */ $(match pr.n(7, 5)? { 0 => $(if let Some(v5) = pr.opt(8)? { $(for v6 in pr.it(10)?.filter(|_| pr.cb(11)) join ($(pr.q(12)?)	$({ pr.mark(13)?; "blk" })) => while$(pr.q(14)?)$({ if pr.b(15)? { "t" } else { "f" } })) } else { ( /* between */ "q\"uote"$(from_fn(|t| { t.append(pr.c(16)); t.space(); t.append(pr.c(17)); }))       ) })$(let mut v8 = pr.q(18)?) $(let v9 = pr.q(19)?), v4 => $(format!("<{}>", pr.q(20)?)), })/**/$(if pr.b(21)? => $(for _ in pr.it(22)? join ( $(ref o12 { if pr.rare(23)? { o12.append(pr.q(24)?); return Err(Left::Return); } })) { $$ /* between */ $(let v13 = pr.q(25)?) /* between */ $(ref _ => if pr.rare(26)? { return Err(Left::Return); }) }))) $(match pr.n(27, 9)? {
            v14 => ($(v14)  )
        })
    }
    Ok(())
}
fn model_10(m: &mut MV, pr: &Pr) -> Flow {
    m.lit(pr.mc(1)?);
    sp(m);
    if pr.rare(2)? { return Err(Left::Return); }
    {
    let mut it2 = pr.it(3)?;
    let mut step = || -> Flow<Option<String>> { it2.step() };
    let mut next = step()?;
    while let Some(v1) = next {
    {
    if pr.rare(5)? { m.lit(pr.q(6)?); break; }
    sp(m);
    match pr.n(7, 5)? {
    0 => {
    if let Some(v5) = pr.opt(8)? {
    {
    let mut it7 = pr.it(10)?;
    let mut step = || -> Flow<Option<String>> { while let Some(x) = it7.step()? { if pr.mcb(11)? { return Ok(Some(x)); } } Ok(None) };
    let mut next = step()?;
    while let Some(v6) = next {
    {
    l(m, "while");
    m.lit(pr.q(14)?);
    l(m, if pr.b(15)? { "t" } else { "f" });
    }
    next = step()?;
    if next.is_some() {
    {
    m.lit(pr.q(12)?);
    sp(m);
    pr.mark(13)?; l(m, "blk");
    }
    }
    }
    }
    } else {
    l(m, "(");
    sp(m);
    qs(m, "q\"uote");
    m.lit(pr.mc(16)?); sp(m); m.lit(pr.mc(17)?);
    sp(m);
    l(m, ")");
    }
    let mut v8 = pr.q(18)?;
    sp(m);
    let v9 = pr.q(19)?;
    }
    v4 => {
    m.lit(format!("<{}>", pr.q(20)?));
    }
    }
    sp(m);
    if pr.b(21)? {
    {
    let mut it11 = pr.it(22)?;
    let mut step = || -> Flow<Option<String>> { it11.step() };
    let mut next = step()?;
    while let Some(_) = next {
    {
    l(m, "$");
    sp(m);
    let v13 = pr.q(25)?;
    sp(m);
    if pr.rare(26)? { return Err(Left::Return); }
    }
    next = step()?;
    if next.is_some() {
    {
    sp(m);
    if pr.rare(23)? { m.lit(pr.q(24)?); return Err(Left::Return); }
    }
    }
    }
    }
    }
    }
    next = step()?;
    if next.is_some() {
    {
    sp(m);
    m.lit(pr.q(4)?);
    sp(m);
    }
    }
    }
    }
    sp(m);
    match pr.n(27, 9)? {
    v14 => {
    m.lit(v14.to_string());
    sp(m);
    }
    }
    Ok(())
}
fn real_11<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(match pr.opt(1)? { Some(v2) => { $(&pr.q(2)?)$v2/**/$(quoted(pr.q(3)?)) }, None => { $(for (i5, v3) in pr.it(4)?.enumerate() join ($[str]($($(if pr.b(5)? || !pr.b(6)? => $$ /* between */ _y$(pr.q(7)?)))$("lit"$(ref _ => if pr.rare(8)? { return Err(Left::Return); }) [])$[const]("con st"))$[str](1 + 2)/**/) => $(vec![pr.q(9)?, pr.q(10)?]))$(pr.q(11)?.as_str()) }, })  $(pr.q(12)?)
        $(for v6 in pr.it(13)? { $(let v8 = pr.n(14, 9)?)$(ref _ => if pr.b(15)? { pr.mark(16)?; })$(for v9 in pr.it(17)? join (	$(&pr.q(18)?)  ) { & }) })
    }
    Ok(())
}
fn model_11(m: &mut MV, pr: &Pr) -> Flow {
    match pr.opt(1)? {
    Some(v2) => {
    m.lit(pr.q(2)?);
    m.lit(v2);
    sp(m);
    { let x = pr.q(3)?; oq(m, false); m.lit(x); cq(m); }
    }
    None => {
    {
    let mut it4 = pr.it(4)?;
    let mut at = 0u64;
    let mut step = || -> Flow<Option<(u64, String)>> { let x = it4.step()?; at += 1; Ok(x.map(|x| (at - 1, x))) };
    let mut next = step()?;
    while let Some((i5, v3)) = next {
    {
    { let x = pr.q(9)?; let y = pr.q(10)?; m.lit(x); m.lit(y); }
    }
    next = step()?;
    if next.is_some() {
    {
    oq(m, true);
    oe(m);
    {
    if pr.b(5)? || !pr.b(6)? {
    l(m, "$");
    sp(m);
    l(m, "_y");
    m.lit(pr.q(7)?);
    }
    }
    ce(m);
    oe(m);
    {
    qs(m, "lit");
    if pr.rare(8)? { return Err(Left::Return); }
    sp(m);
    l(m, "[]");
    }
    ce(m);
    l(m, "con st");
    cq(m);
    qs(m, "1 + 2");
    sp(m);
    }
    }
    }
    }
    m.lit(pr.q(11)?);
    }
    }
    sp(m);
    m.lit(pr.q(12)?);
    tp(m);
    {
    let mut it7 = pr.it(13)?;
    let mut step = || -> Flow<Option<String>> { it7.step() };
    while let Some(v6) = step()? {
    let v8 = pr.n(14, 9)?;
    if pr.b(15)? { pr.mark(16)?; }
    {
    let mut it10 = pr.it(17)?;
    let mut step = || -> Flow<Option<String>> { it10.step() };
    let mut next = step()?;
    while let Some(v9) = next {
    {
    l(m, "&");
    }
    next = step()?;
    if next.is_some() {
    {
    sp(m);
    m.lit(pr.q(18)?);
    sp(m);
    }
    }
    }
    }
    }
    }
    Ok(())
}
fn real_12<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        0x1F $(" lead")$['\r']$(match pr.opt(1)? {
            _ if pr.b(2)? => $(quoted(pr.q(3)?))x [ $(ref o3 { o3.append(pr.q(4)?); o3.space(); o3.append(pr.q(5)?); })$(if pr.b(6)? || !pr.b(7)? => $(if let Some(v4) = pr.opt(8)? {} else { $({ if pr.b(10)? { "t" } else { "f" } }) })), $[' ']/**/],
            Some(v2) => { $(pr.n(11, 9)?) },
            _ => $(pr.q(14)?) /* between */ [x	$(vec![pr.q(15)?, pr.q(16)?])$(ref o5 => quote_in!(*o5 => $(let v6 = pr.q(18)?)))$(match pr.n(19, 9)? { v7 => { =>größe }, })] ( /* between */ $(ref o8 {
                for _ in 0..pr.n(20, 3)? {
                    quote_in! { *o8 =>
                        $(for v9 in pr.opt(21)? join (a1 ) =>
                            0x1F while  $(&pr.q(22)?) {
                            } $(from_fn(|t| { t.append(pr.c(23)); t.space(); t.append(pr.c(24)); }))$$ _y       bar /* between */ {// note
                                "two words"
                                // between
                            })$(if let Some(v11) = pr.opt(25)? {
                            Self
                            
                            // between
                             $(pr.q(27)?)foo
                             $(pr.multi(28)?)
                             ?   
                             $(pr.q(29)?.as_str())
                            
                             a1 bar
                        } else {
                            'a       x$({ pr.mark(30)?; "blk" }) /* between */ 0x1F _y x
                            // between
                            // between
                            // between
                            // between
                            $(vec![pr.q(31)?, pr.q(32)?]) foo a1  "two words"
                        })       $(from_fn(|t| { t.append(pr.c(33)); t.space(); t.append(pr.c(34)); }))/**/(
                        
                        // between
                        
                        
                        )
                        
                        
                        $(let v12 = pr.n(35, 9)?)
                        // between
                        identifier_identifier_identifier_identifier_end$(if pr.b(36)? {
                            ...
                                "lit"
                                // between
                                ?       $$
                                x$(pr.multi(37)?)
                        })
                    }
                    o8.line();
                }
            }) ,, $(display(pr.n(38, 9)?))&&)
        })
        1_000u64
        $({ if pr.b(39)? { "t" } else { "f" } })
    }
    Ok(())
}
fn model_12(m: &mut MV, pr: &Pr) -> Flow {
    l(m, "0x1F");
    sp(m);
    l(m, " lead");
    p(m);
    match pr.opt(1)? {
    _ if pr.b(2)? => {
    { let x = pr.q(3)?; oq(m, false); m.lit(x); cq(m); }
    l(m, "x");
    sp(m);
    l(m, "[");
    sp(m);
    m.lit(pr.q(4)?); sp(m); m.lit(pr.q(5)?);
    if pr.b(6)? || !pr.b(7)? {
    if let Some(v4) = pr.opt(8)? {
    } else {
    l(m, if pr.b(10)? { "t" } else { "f" });
    }
    }
    l(m, ",");
    sp(m);
    sp(m);
    sp(m);
    l(m, "]");
    }
    Some(v2) => {
    m.lit(pr.n(11, 9)?.to_string());
    }
    _ => {
    m.lit(pr.q(14)?);
    sp(m);
    l(m, "[");
    l(m, "x");
    sp(m);
    { let x = pr.q(15)?; let y = pr.q(16)?; m.lit(x); m.lit(y); }
    {
    let v6 = pr.q(18)?;
    }
    match pr.n(19, 9)? {
    v7 => {
    l(m, "=>");
    l(m, "größe");
    }
    }
    l(m, "]");
    sp(m);
    l(m, "(");
    sp(m);
    for _ in 0..pr.n(20, 3)? {
    {
    let mut it10 = pr.opt(21)?.into_iter();
    let mut step = || -> Flow<Option<String>> { Ok(it10.next()) };
    let mut next = step()?;
    while let Some(v9) = next {
    {
    l(m, "0x1F");
    sp(m);
    l(m, "while");
    sp(m);
    m.lit(pr.q(22)?);
    sp(m);
    l(m, "{");
    tp(m);
    l(m, "}");
    sp(m);
    m.lit(pr.mc(23)?); sp(m); m.lit(pr.mc(24)?);
    l(m, "$");
    sp(m);
    l(m, "_y");
    sp(m);
    l(m, "bar");
    sp(m);
    l(m, "{");
    tind(m);
    qs(m, "two words");
    tun(m);
    tln(m);
    l(m, "}");
    }
    next = step()?;
    if next.is_some() {
    {
    l(m, "a1");
    sp(m);
    }
    }
    }
    }
    if let Some(v11) = pr.opt(25)? {
    l(m, "Self");
    tind(m);
    tln(m);
    m.lit(pr.q(27)?);
    l(m, "foo");
    tp(m);
    pr.mmulti(28, m)?;
    tp(m);
    l(m, "?");
    tp(m);
    m.lit(pr.q(29)?);
    tln(m);
    l(m, "a1");
    sp(m);
    l(m, "bar");
    tend(m);
    } else {
    l(m, "'a");
    sp(m);
    l(m, "x");
    pr.mark(30)?; l(m, "blk");
    sp(m);
    l(m, "0x1F");
    sp(m);
    l(m, "_y");
    sp(m);
    l(m, "x");
    tln(m);
    { let x = pr.q(31)?; let y = pr.q(32)?; m.lit(x); m.lit(y); }
    sp(m);
    l(m, "foo");
    sp(m);
    l(m, "a1");
    sp(m);
    qs(m, "two words");
    }
    sp(m);
    m.lit(pr.mc(33)?); sp(m); m.lit(pr.mc(34)?);
    sp(m);
    l(m, "(");
    tln(m);
    l(m, ")");
    tln(m);
    let v12 = pr.n(35, 9)?;
    tln(m);
    l(m, "identifier_identifier_identifier_identifier_end");
    if pr.b(36)? {
    l(m, "...");
    tind(m);
    qs(m, "lit");
    tln(m);
    l(m, "?");
    sp(m);
    l(m, "$");
    tp(m);
    l(m, "x");
    pr.mmulti(37, m)?;
    tend(m);
    }
    ln(m);
    }
    sp(m);
    l(m, ",");
    l(m, ",");
    sp(m);
    m.lit(pr.n(38, 9)?.to_string());
    l(m, "&&");
    l(m, ")");
    }
    }
    tp(m);
    l(m, "1_000u64");
    tp(m);
    l(m, if pr.b(39)? { "t" } else { "f" });
    Ok(())
}
fn real_13<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $[str]($[const]("con st") one$[const]("con st")$name-$name- one$[const]("con st")$[const](pr.q(1)?)$$$$)       $(ref o1 { if pr.rare(2)? { o1.append(pr.q(3)?); return Err(Left::Return); } }) $(quoted(pr.q(4)?)) [

                [ /* between */ ;	$[str]($name-one$[const]("con st")),	$(ref o2 => quote_in!(*o2 => $(pr.q(6)?.as_str())$(ref o3 { if pr.b(7)? { quote_in!(*o3 => $(pr.q(8)?)$(match pr.opt(9)? { None if pr.b(10)? => a1? [$(&pr.q(11)?) /* between */ _y	foo ,, Self], Some(v5) => "lit" $(pr.c(12))/**/$(quoted(pr.q(13)?)) { :: .a1, $(pr.opt(14)?)}, _ => $$ $(pr.q(15)?) $({ pr.mark(16)?; "blk" }) (bar, Self	"lit"), })); } o3.push(); }),))]
        ]
    }
    Ok(())
}
fn model_13(m: &mut MV, pr: &Pr) -> Flow {
    oq(m, true);
    l(m, "con st onecon st");
    oe(m);
    l(m, "name");
    ce(m);
    l(m, "-");
    oe(m);
    l(m, "name");
    ce(m);
    l(m, "- onecon st");
    m.lit(pr.q(1)?);
    l(m, "$$");
    cq(m);
    sp(m);
    if pr.rare(2)? { m.lit(pr.q(3)?); return Err(Left::Return); }
    sp(m);
    { let x = pr.q(4)?; oq(m, false); m.lit(x); cq(m); }
    sp(m);
    l(m, "[");
    tind(m);
    tln(m);
    l(m, "[");
    sp(m);
    l(m, ";");
    sp(m);
    oq(m, true);
    oe(m);
    l(m, "name");
    ce(m);
    l(m, "-onecon st");
    cq(m);
    l(m, ",");
    sp(m);
    {
    m.lit(pr.q(6)?);
    if pr.b(7)? {
    m.lit(pr.q(8)?);
    match pr.opt(9)? {
    None if pr.b(10)? => {
    l(m, "a1");
    l(m, "?");
    sp(m);
    l(m, "[");
    m.lit(pr.q(11)?);
    sp(m);
    l(m, "_y");
    sp(m);
    l(m, "foo");
    sp(m);
    l(m, ",");
    l(m, ",");
    sp(m);
    l(m, "Self");
    l(m, "]");
    }
    Some(v5) => {
    qs(m, "lit");
    sp(m);
    m.lit(pr.mc(12)?);
    sp(m);
    { let x = pr.q(13)?; oq(m, false); m.lit(x); cq(m); }
    sp(m);
    l(m, "{");
    sp(m);
    l(m, "::");
    sp(m);
    l(m, ".");
    l(m, "a1");
    l(m, ",");
    sp(m);
    if let Some(x) = pr.opt(14)? { m.lit(x); }
    l(m, "}");
    }
    _ => {
    l(m, "$");
    sp(m);
    m.lit(pr.q(15)?);
    sp(m);
    pr.mark(16)?; l(m, "blk");
    sp(m);
    l(m, "(");
    l(m, "bar");
    l(m, ",");
    sp(m);
    l(m, "Self");
    sp(m);
    qs(m, "lit");
    l(m, ")");
    }
    }
    }
    p(m);
    l(m, ",");
    }
    l(m, "]");
    tun(m);
    l(m, "]");
    Ok(())
}
fn real_14<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        {$(for _ in pr.it(1)? {}) $['\r']/**/$(quote! {
            bar$['\r'] $(vec![pr.q(2)?, pr.q(3)?])// note
            foo /* between */ $(let v4 = pr.q(4)?)
            $$ /* between */ $(&pr.q(5)?)$(match pr.b(6)? {
                true | false => { $(&v4)$v4 $(for v6 in 0..pr.n(7, 4)? join (, ) {
                    1_000u64
                    $(pr.q(8)?)
                        $(format!("<{}>", pr.q(9)?)) $(format!("<{}>", pr.q(10)?)) (
                            $$  nameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameame
                            // between
                                $({ if pr.b(11)? { "t" } else { "f" } })$(pr.n(12, 9)?) [
                                ] $(pr.c(13))
                            Self
                        )
                }) },
            })
        })	$(match pr.n(14, 3)? {
            0..=1 => {
                $(vec![pr.q(16)?, pr.q(17)?])$(pr.n(18, 9)?)
                $(ref o10 => quote_in!(*o10 => $({ if pr.b(20)? { "t" } else { "f" } })))
                    $("ver batim")
                        $(let v11 = pr.q(21)?) $[str](a b  c)
                        // between
                $(if pr.b(22)? { = })
            },
            v8 if v8 > 1 && pr.b(15)? => { x }
            v9 => {
                $(quoted(pr.q(23)?))
                    a1	$(quoted(pr.q(24)?))$(let (v12, v13) = (pr.q(25)?, pr.n(26, 9)?))
                $(quote!($$ $$))$(ref _ { pr.mark(27)?; })a1
            },
        })}
        "q\"uote" $(ref o15 { if pr.rare(28)? { o15.append(pr.q(29)?); return Err(Left::Return); } })
    }
    Ok(())
}
fn model_14(m: &mut MV, pr: &Pr) -> Flow {
    l(m, "{");
    {
    let mut it2 = pr.it(1)?;
    let mut step = || -> Flow<Option<String>> { it2.step() };
    while let Some(_) = step()? {
    }
    }
    sp(m);
    p(m);
    sp(m);
    let mut s3 = MStream::<()>::default();
    {
    let m = &mut s3;
    l(m, "bar");
    p(m);
    sp(m);
    { let x = pr.q(2)?; let y = pr.q(3)?; m.lit(x); m.lit(y); }
    tp(m);
    l(m, "foo");
    sp(m);
    let v4 = pr.q(4)?;
    tp(m);
    l(m, "$");
    sp(m);
    m.lit(pr.q(5)?);
    match pr.b(6)? {
    true | false => {
    m.lit(v4.clone());
    m.lit(v4);
    sp(m);
    {
    let mut it7 = 0..pr.n(7, 4)?;
    let mut step = || -> Flow<Option<u64>> { Ok(it7.next()) };
    let mut next = step()?;
    while let Some(v6) = next {
    {
    l(m, "1_000u64");
    tp(m);
    m.lit(pr.q(8)?);
    tind(m);
    m.lit(format!("<{}>", pr.q(9)?));
    sp(m);
    m.lit(format!("<{}>", pr.q(10)?));
    sp(m);
    l(m, "(");
    tind(m);
    l(m, "$");
    sp(m);
    l(m, "nameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameame");
    tind(m);
    tln(m);
    l(m, if pr.b(11)? { "t" } else { "f" });
    m.lit(pr.n(12, 9)?.to_string());
    sp(m);
    l(m, "[");
    tp(m);
    l(m, "]");
    sp(m);
    m.lit(pr.mc(13)?);
    tun(m);
    l(m, "Self");
    tun(m);
    l(m, ")");
    tend(m);
    }
    next = step()?;
    if next.is_some() {
    {
    l(m, ",");
    sp(m);
    }
    }
    }
    }
    }
    }
    }
    m.add_all(&s3.items);
    sp(m);
    match pr.n(14, 3)? {
    0..=1 => {
    { let x = pr.q(16)?; let y = pr.q(17)?; m.lit(x); m.lit(y); }
    m.lit(pr.n(18, 9)?.to_string());
    tp(m);
    {
    l(m, if pr.b(20)? { "t" } else { "f" });
    }
    tind(m);
    l(m, "ver batim");
    tind(m);
    let v11 = pr.q(21)?;
    sp(m);
    qs(m, "a b  c");
    tun(m);
    tln(m);
    tun(m);
    tln(m);
    if pr.b(22)? {
    l(m, "=");
    }
    }
    v8 if v8 > 1 && pr.b(15)? => {
    l(m, "x");
    }
    v9 => {
    { let x = pr.q(23)?; oq(m, false); m.lit(x); cq(m); }
    tind(m);
    l(m, "a1");
    sp(m);
    { let x = pr.q(24)?; oq(m, false); m.lit(x); cq(m); }
    let (v12, v13) = (pr.q(25)?, pr.n(26, 9)?);
    tun(m);
    let mut s14 = MStream::<()>::default();
    {
    let m = &mut s14;
    l(m, "$");
    sp(m);
    l(m, "$");
    }
    m.add_all(&s14.items);
    pr.mark(27)?;
    l(m, "a1");
    }
    }
    l(m, "}");
    tp(m);
    qs(m, "q\"uote");
    sp(m);
    if pr.rare(28)? { m.lit(pr.q(29)?); return Err(Left::Return); }
    Ok(())
}
fn real_15<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(for v1 in pr.it(1)? => $(for v3 in pr.it(2)? join (/**/$(for v5 in pr.it(3)? => $(pr.n(4, 9)?)a1	$(pr.opt(5)?)) ) =>
            foo$[str](a b  c) $v3
            
            
              $(for v7 in pr.it(6)? { $(for v9 in [pr.q(7)?, pr.q(8)?] =>
                  a1       a1$(display(pr.n(9, 9)?))$(pr.q(10)?.as_str())
                  $(pr.n(11, 9)?) 1_000u64 $(quoted(pr.q(12)?))$(format!("<{}>", pr.q(13)?))$(pr.q(14)?) &1.5 while bar [
                   "q\"uote" {
                   }
                  ])       & $(ref o11 => quote_in!(*o11 => "lit";nameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameame)) })$(ref o12 => quote_in!(*o12 => $(quote!(while)))) ||
              $(for (i16, v14) in pr.it(17)?.enumerate() join ( $(quote!($$))  ) => $(for v18 in pr.it(18)? join (, ) { x	$(pr.q(19)?) bar })/**/$(ref o20 { if pr.rare(20)? { o20.append(pr.q(21)?); break; } })$(match pr.n(22, 9)? { v21 => { foo  $(pr.q(23)?) } })) $(if pr.b(24)? {
                  $(quoted(pr.q(25)?))
                  
                  $(let v22 = pr.q(26)?)
              } else {
                  $(quoted(quote!("two words")))$[str](1 + 2)/**/$(quoted(quote!(_y)))$(if pr.b(27)? { "two words" } else { & })
                      bar $[str](1 + 2) a1	$(from_fn(|t| { t.append(pr.c(28)); t.space(); t.append(pr.c(29)); }))
                      $(&pr.q(30)?) ; $({ if pr.b(31)? { "t" } else { "f" } })&$(Some(pr.q(32)?))$(Some(pr.q(33)?))       . a1
                  $({ pr.mark(34)?; "blk" })a1
              })
                         ||))& (
            r#type	"two words" $(pr.n(35, 9)?)"q\"uote"
        )
    }
    Ok(())
}
fn model_15(m: &mut MV, pr: &Pr) -> Flow {
    {
    let mut it2 = pr.it(1)?;
    let mut step = || -> Flow<Option<String>> { it2.step() };
    while let Some(v1) = step()? {
    {
    let mut it4 = pr.it(2)?;
    let mut step = || -> Flow<Option<String>> { it4.step() };
    let mut next = step()?;
    while let Some(v3) = next {
    {
    l(m, "foo");
    qs(m, "a b  c");
    sp(m);
    m.lit(v3);
    tind(m);
    tln(m);
    {
    let mut it8 = pr.it(6)?;
    let mut step = || -> Flow<Option<String>> { it8.step() };
    while let Some(v7) = step()? {
    {
    let mut it10 = [pr.q(7)?, pr.q(8)?].into_iter();
    let mut step = || -> Flow<Option<String>> { Ok(it10.next()) };
    while let Some(v9) = step()? {
    l(m, "a1");
    sp(m);
    l(m, "a1");
    m.lit(pr.n(9, 9)?.to_string());
    m.lit(pr.q(10)?);
    tp(m);
    m.lit(pr.n(11, 9)?.to_string());
    sp(m);
    l(m, "1_000u64");
    sp(m);
    { let x = pr.q(12)?; oq(m, false); m.lit(x); cq(m); }
    m.lit(format!("<{}>", pr.q(13)?));
    m.lit(pr.q(14)?);
    sp(m);
    l(m, "&");
    l(m, "1.5");
    sp(m);
    l(m, "while");
    sp(m);
    l(m, "bar");
    sp(m);
    l(m, "[");
    tind(m);
    qs(m, "q\"uote");
    sp(m);
    l(m, "{");
    tp(m);
    l(m, "}");
    tun(m);
    l(m, "]");
    }
    }
    sp(m);
    l(m, "&");
    sp(m);
    {
    qs(m, "lit");
    l(m, ";");
    l(m, "nameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameame");
    }
    }
    }
    {
    let mut s13 = MStream::<()>::default();
    {
    let m = &mut s13;
    l(m, "while");
    }
    m.add_all(&s13.items);
    }
    sp(m);
    l(m, "||");
    tp(m);
    {
    let mut it15 = pr.it(17)?;
    let mut at = 0u64;
    let mut step = || -> Flow<Option<(u64, String)>> { let x = it15.step()?; at += 1; Ok(x.map(|x| (at - 1, x))) };
    let mut next = step()?;
    while let Some((i16, v14)) = next {
    {
    {
    let mut it19 = pr.it(18)?;
    let mut step = || -> Flow<Option<String>> { it19.step() };
    let mut next = step()?;
    while let Some(v18) = next {
    {
    l(m, "x");
    sp(m);
    m.lit(pr.q(19)?);
    sp(m);
    l(m, "bar");
    }
    next = step()?;
    if next.is_some() {
    {
    l(m, ",");
    sp(m);
    }
    }
    }
    }
    sp(m);
    if pr.rare(20)? { m.lit(pr.q(21)?); break; }
    match pr.n(22, 9)? {
    v21 => {
    l(m, "foo");
    sp(m);
    m.lit(pr.q(23)?);
    }
    }
    }
    next = step()?;
    if next.is_some() {
    {
    sp(m);
    let mut s17 = MStream::<()>::default();
    {
    let m = &mut s17;
    l(m, "$");
    }
    m.add_all(&s17.items);
    sp(m);
    }
    }
    }
    }
    sp(m);
    if pr.b(24)? {
    { let x = pr.q(25)?; oq(m, false); m.lit(x); cq(m); }
    tln(m);
    let v22 = pr.q(26)?;
    } else {
    let mut s23 = MStream::<()>::default();
    {
    let m = &mut s23;
    qs(m, "two words");
    }
    oq(m, false);
    m.add_all(&s23.items);
    cq(m);
    qs(m, "1 + 2");
    sp(m);
    let mut s24 = MStream::<()>::default();
    {
    let m = &mut s24;
    l(m, "_y");
    }
    oq(m, false);
    m.add_all(&s24.items);
    cq(m);
    if pr.b(27)? {
    qs(m, "two words");
    } else {
    l(m, "&");
    }
    tind(m);
    l(m, "bar");
    sp(m);
    qs(m, "1 + 2");
    sp(m);
    l(m, "a1");
    sp(m);
    m.lit(pr.mc(28)?); sp(m); m.lit(pr.mc(29)?);
    tp(m);
    m.lit(pr.q(30)?);
    sp(m);
    l(m, ";");
    sp(m);
    l(m, if pr.b(31)? { "t" } else { "f" });
    l(m, "&");
    m.lit(pr.q(32)?);
    m.lit(pr.q(33)?);
    sp(m);
    l(m, ".");
    sp(m);
    l(m, "a1");
    tun(m);
    pr.mark(34)?; l(m, "blk");
    l(m, "a1");
    }
    tind(m);
    l(m, "||");
    tend(m);
    tend(m);
    }
    next = step()?;
    if next.is_some() {
    {
    sp(m);
    {
    let mut it6 = pr.it(3)?;
    let mut step = || -> Flow<Option<String>> { it6.step() };
    while let Some(v5) = step()? {
    m.lit(pr.n(4, 9)?.to_string());
    l(m, "a1");
    sp(m);
    if let Some(x) = pr.opt(5)? { m.lit(x); }
    }
    }
    sp(m);
    }
    }
    }
    }
    }
    }
    l(m, "&");
    sp(m);
    l(m, "(");
    tind(m);
    l(m, "r#type");
    sp(m);
    qs(m, "two words");
    sp(m);
    m.lit(pr.n(35, 9)?.to_string());
    qs(m, "q\"uote");
    tun(m);
    l(m, ")");
    Ok(())
}
fn real_16<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(match pr.n(1, 9)? {
            v1 => $(pr.multi(2)?)$(ref o2 { if pr.b(3)? { quote_in!(*o2 => $(if pr.b(4)? { $(vec![pr.q(5)?, pr.q(6)?])$(match (pr.b(7)?, pr.n(8, 3)?) { (true, 0) => { x$(format!("<{}>", pr.q(11)?)) }, (false, v3) if v3 < 2 && pr.b(9)? => ( 7 /* between */ Self $(pr.n(12, 9)?) /* between */ ), (_, 1) | (true, _) => a1$$ $(format!("<{}>", pr.q(13)?)), _ if pr.b(10)? => $(Some(pr.q(14)?)) $({ pr.mark(15)?; "blk" })$(&pr.q(16)?), _ => { $$ } }) $[str](a b  c) })$(ref _ => if pr.b(17)? { pr.mark(18)?; })$(pr.c(19))); } o2.push(); }) ["two words", $(ref _ => if pr.b(20)? { pr.mark(21)?; })a1 ],
        })$(display(pr.n(22, 9)?))/**/$(for _ in pr.it(23)? join ($(quoted(pr.q(24)?))	$(for v6 in pr.it(25)? => $(for _ in pr.it(26)? join ($(let v10 = pr.q(27)?)$(if let (Some(v11), _) = (pr.opt(28)?, pr.b(29)?) { $(pr.opt(30)?) $(pr.opt(31)?) })) { $(ref _ => if pr.b(32)? { pr.mark(33)?; }) }) $(let mut v12 = pr.q(34)?)) /* between */ ) {
            $(let v13 = pr.q(35)?) $(Some(pr.q(36)?)) {
            }
        })
    }
    Ok(())
}
fn model_16(m: &mut MV, pr: &Pr) -> Flow {
    match pr.n(1, 9)? {
    v1 => {
    pr.mmulti(2, m)?;
    if pr.b(3)? {
    if pr.b(4)? {
    { let x = pr.q(5)?; let y = pr.q(6)?; m.lit(x); m.lit(y); }
    match (pr.b(7)?, pr.n(8, 3)?) {
    (true, 0) => {
    l(m, "x");
    m.lit(format!("<{}>", pr.q(11)?));
    }
    (false, v3) if v3 < 2 && pr.b(9)? => {
    sp(m);
    l(m, "7");
    sp(m);
    l(m, "Self");
    sp(m);
    m.lit(pr.n(12, 9)?.to_string());
    sp(m);
    }
    (_, 1) | (true, _) => {
    l(m, "a1");
    l(m, "$");
    sp(m);
    m.lit(format!("<{}>", pr.q(13)?));
    }
    _ if pr.b(10)? => {
    m.lit(pr.q(14)?);
    sp(m);
    pr.mark(15)?; l(m, "blk");
    m.lit(pr.q(16)?);
    }
    _ => {
    l(m, "$");
    }
    }
    sp(m);
    qs(m, "a b  c");
    }
    if pr.b(17)? { pr.mark(18)?; }
    m.lit(pr.mc(19)?);
    }
    p(m);
    sp(m);
    l(m, "[");
    qs(m, "two words");
    l(m, ",");
    sp(m);
    if pr.b(20)? { pr.mark(21)?; }
    l(m, "a1");
    sp(m);
    l(m, "]");
    }
    }
    m.lit(pr.n(22, 9)?.to_string());
    sp(m);
    {
    let mut it5 = pr.it(23)?;
    let mut step = || -> Flow<Option<String>> { it5.step() };
    let mut next = step()?;
    while let Some(_) = next {
    {
    let v13 = pr.q(35)?;
    sp(m);
    m.lit(pr.q(36)?);
    sp(m);
    l(m, "{");
    tp(m);
    l(m, "}");
    }
    next = step()?;
    if next.is_some() {
    {
    { let x = pr.q(24)?; oq(m, false); m.lit(x); cq(m); }
    sp(m);
    {
    let mut it7 = pr.it(25)?;
    let mut step = || -> Flow<Option<String>> { it7.step() };
    while let Some(v6) = step()? {
    {
    let mut it9 = pr.it(26)?;
    let mut step = || -> Flow<Option<String>> { it9.step() };
    let mut next = step()?;
    while let Some(_) = next {
    {
    if pr.b(32)? { pr.mark(33)?; }
    }
    next = step()?;
    if next.is_some() {
    {
    let v10 = pr.q(27)?;
    if let (Some(v11), _) = (pr.opt(28)?, pr.b(29)?) {
    if let Some(x) = pr.opt(30)? { m.lit(x); }
    sp(m);
    if let Some(x) = pr.opt(31)? { m.lit(x); }
    }
    }
    }
    }
    }
    sp(m);
    let mut v12 = pr.q(34)?;
    }
    }
    sp(m);
    }
    }
    }
    }
    Ok(())
}
fn real_17<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(match (pr.b(1)?, pr.q(2)?) { (_, v1) => { ($(for v2 in [pr.q(3)?, pr.q(4)?] join (, ) => $[str](1 + 2)$(pr.c(7)))       $(if let Some(v4) = pr.opt(8)? { $(let v5 = pr.q(10)?) } else { 'a }) /* between */ )$(match pr.b(11)? { true | false => ($(for v7 in pr.it(12)? join (       $(if let Some(v9) = pr.opt(13)? { _y       Self } else { x =$(Some(pr.q(15)?)) }) ) { $(let mut v10 = pr.q(16)?)  $(match (pr.b(17)?, pr.n(18, 3)?) { (true, 0) => { $(Some(pr.q(21)?)) } (false, v11) if v11 < 2 && pr.b(19)? => { $(pr.n(22, 9)?) _y } _ if pr.b(20)? => ( + bar$(pr.n(23, 9)?)	), (..) => a1 }) $(quote!(Self  Self)) }) ), })$(if pr.b(24)? && pr.b(25)? { $[str](a b  c) $(if pr.n(26, 3)? == 1 => $(let v13 = pr.q(27)?)$(ref _ => if pr.b(28)? { pr.mark(29)?; })) [ $$       $(ref o14 { if pr.rare(30)? { o14.append(pr.q(31)?); return Err(Left::Return); } })       ] } else { $(let v15 = pr.q(32)?) }) }, })
    }
    Ok(())
}
fn model_17(m: &mut MV, pr: &Pr) -> Flow {
    match (pr.b(1)?, pr.q(2)?) {
    (_, v1) => {
    l(m, "(");
    {
    let mut it3 = [pr.q(3)?, pr.q(4)?].into_iter();
    let mut step = || -> Flow<Option<String>> { Ok(it3.next()) };
    let mut next = step()?;
    while let Some(v2) = next {
    {
    qs(m, "1 + 2");
    m.lit(pr.mc(7)?);
    }
    next = step()?;
    if next.is_some() {
    {
    l(m, ",");
    sp(m);
    }
    }
    }
    }
    sp(m);
    if let Some(v4) = pr.opt(8)? {
    let v5 = pr.q(10)?;
    } else {
    l(m, "'a");
    }
    sp(m);
    l(m, ")");
    match pr.b(11)? {
    true | false => {
    {
    let mut it8 = pr.it(12)?;
    let mut step = || -> Flow<Option<String>> { it8.step() };
    let mut next = step()?;
    while let Some(v7) = next {
    {
    let mut v10 = pr.q(16)?;
    sp(m);
    match (pr.b(17)?, pr.n(18, 3)?) {
    (true, 0) => {
    m.lit(pr.q(21)?);
    }
    (false, v11) if v11 < 2 && pr.b(19)? => {
    m.lit(pr.n(22, 9)?.to_string());
    sp(m);
    l(m, "_y");
    }
    _ if pr.b(20)? => {
    sp(m);
    l(m, "+");
    sp(m);
    l(m, "bar");
    m.lit(pr.n(23, 9)?.to_string());
    sp(m);
    }
    (..) => {
    l(m, "a1");
    }
    }
    sp(m);
    let mut s12 = MStream::<()>::default();
    {
    let m = &mut s12;
    l(m, "Self");
    sp(m);
    l(m, "Self");
    }
    m.add_all(&s12.items);
    }
    next = step()?;
    if next.is_some() {
    {
    sp(m);
    if let Some(v9) = pr.opt(13)? {
    l(m, "_y");
    sp(m);
    l(m, "Self");
    } else {
    l(m, "x");
    sp(m);
    l(m, "=");
    m.lit(pr.q(15)?);
    }
    sp(m);
    }
    }
    }
    }
    sp(m);
    }
    }
    if pr.b(24)? && pr.b(25)? {
    qs(m, "a b  c");
    sp(m);
    if pr.n(26, 3)? == 1 {
    let v13 = pr.q(27)?;
    if pr.b(28)? { pr.mark(29)?; }
    }
    sp(m);
    l(m, "[");
    sp(m);
    l(m, "$");
    sp(m);
    if pr.rare(30)? { m.lit(pr.q(31)?); return Err(Left::Return); }
    sp(m);
    l(m, "]");
    } else {
    let v15 = pr.q(32)?;
    }
    }
    }
    Ok(())
}
fn real_18<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(ref o1 {
            for _ in 0..pr.n(1, 3)? {
                quote_in! { *o1 =>
                    $(let v2 = pr.q(2)?)  $(match pr.opt(3)? {
                        None if pr.b(4)? => $(if pr.b(5)? { ($(pr.q(6)?)$(pr.multi(7)?)       ,  "q\"uote"  )	$(quoted(quote! {
                            &       $(pr.q(8)?)"two words" &1.5	a1
                            a1 -> [
                                x $(pr.n(9, 9)?)
                            ] $(vec![pr.q(10)?, pr.q(11)?])->'\\'
                        })) <<= })$(&v2) _y {$(for v6 in pr.it(12)? join ($(pr.n(13, 9)?)) { $(Some(pr.q(14)?))$(format!("<{}>", pr.q(15)?))$(Some(pr.q(16)?)) }) $[str]($(a1)three)$(ref o8 { if pr.b(17)? { quote_in!(*o8 => x	bar x); } o8.push(); }), $(ref o9 { if pr.rare(18)? { o9.append(pr.q(19)?); continue; } }) $(if pr.b(20)? => x $(pr.multi(21)?)+) },
                        Some(v4) => "q\"uote"$(let mut v10 = pr.q(22)?) [ $("ä")$(if pr.b(23)? {
                            $(from_fn(|t| { t.append(pr.c(24)); t.space(); t.append(pr.c(25)); }))$(pr.c(26))$(pr.c(27))$$
                        }), $(match pr.b(28)? {
                            true | false => => [while a1, $({ pr.mark(29)?; "blk" })$(pr.q(30)?.as_str())],
                        })  $[str](two three)],
                        None => {}
                    })
                }
                o1.line();
            }
        })
    }
    Ok(())
}
fn model_18(m: &mut MV, pr: &Pr) -> Flow {
    for _ in 0..pr.n(1, 3)? {
    let v2 = pr.q(2)?;
    sp(m);
    match pr.opt(3)? {
    None if pr.b(4)? => {
    if pr.b(5)? {
    l(m, "(");
    m.lit(pr.q(6)?);
    pr.mmulti(7, m)?;
    sp(m);
    l(m, ",");
    sp(m);
    qs(m, "q\"uote");
    sp(m);
    l(m, ")");
    sp(m);
    let mut s5 = MStream::<()>::default();
    {
    let m = &mut s5;
    l(m, "&");
    sp(m);
    m.lit(pr.q(8)?);
    qs(m, "two words");
    sp(m);
    l(m, "&");
    l(m, "1.5");
    sp(m);
    l(m, "a1");
    tp(m);
    l(m, "a1");
    sp(m);
    l(m, "->");
    sp(m);
    l(m, "[");
    tind(m);
    l(m, "x");
    sp(m);
    m.lit(pr.n(9, 9)?.to_string());
    tun(m);
    l(m, "]");
    sp(m);
    { let x = pr.q(10)?; let y = pr.q(11)?; m.lit(x); m.lit(y); }
    l(m, "->");
    l(m, "'\\\\'");
    }
    oq(m, false);
    m.add_all(&s5.items);
    cq(m);
    sp(m);
    l(m, "<<=");
    }
    m.lit(v2.clone());
    sp(m);
    l(m, "_y");
    sp(m);
    l(m, "{");
    {
    let mut it7 = pr.it(12)?;
    let mut step = || -> Flow<Option<String>> { it7.step() };
    let mut next = step()?;
    while let Some(v6) = next {
    {
    m.lit(pr.q(14)?);
    m.lit(format!("<{}>", pr.q(15)?));
    m.lit(pr.q(16)?);
    }
    next = step()?;
    if next.is_some() {
    {
    m.lit(pr.n(13, 9)?.to_string());
    }
    }
    }
    }
    sp(m);
    oq(m, true);
    oe(m);
    {
    l(m, "a1");
    }
    ce(m);
    l(m, "three");
    cq(m);
    if pr.b(17)? {
    l(m, "x");
    sp(m);
    l(m, "bar");
    sp(m);
    l(m, "x");
    }
    p(m);
    l(m, ",");
    sp(m);
    if pr.rare(18)? { m.lit(pr.q(19)?); continue; }
    sp(m);
    if pr.b(20)? {
    l(m, "x");
    sp(m);
    pr.mmulti(21, m)?;
    l(m, "+");
    }
    sp(m);
    l(m, "}");
    }
    Some(v4) => {
    qs(m, "q\"uote");
    let mut v10 = pr.q(22)?;
    sp(m);
    l(m, "[");
    sp(m);
    l(m, "ä");
    if pr.b(23)? {
    m.lit(pr.mc(24)?); sp(m); m.lit(pr.mc(25)?);
    m.lit(pr.mc(26)?);
    m.lit(pr.mc(27)?);
    l(m, "$");
    }
    l(m, ",");
    sp(m);
    match pr.b(28)? {
    true | false => {
    l(m, "=>");
    sp(m);
    l(m, "[");
    l(m, "while");
    sp(m);
    l(m, "a1");
    l(m, ",");
    sp(m);
    pr.mark(29)?; l(m, "blk");
    m.lit(pr.q(30)?);
    l(m, "]");
    }
    }
    sp(m);
    oq(m, false);
    l(m, "two three");
    cq(m);
    l(m, "]");
    }
    None => {
    }
    }
    ln(m);
    }
    Ok(())
}
fn real_19<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        while "q\"uote"
        x $(pr.opt(1)?){$$ [-> [$(vec![pr.q(5)?, pr.q(6)?]) [$$ {$(Some(pr.q(3)?)) [$$ $(pr.q(2)?.as_str()) ,] $({ if pr.b(4)? { "t" } else { "f" } })} $$] $(pr.q(7)?.as_str())] $$] $$}$(for v1 in pr.it(8)? => _y$(let v3 = pr.q(9)?))
        $(for v4 in pr.it(10)? join ($(let mut v6 = pr.q(11)?) ) => 'c')$(match pr.opt(12)? {
            Some(v8) => $(quoted(pr.q(13)?))$(ref _ => if pr.b(14)? { pr.mark(15)?; })a1,
            _ => { + ... },
        })

        $(for v9 in pr.it(16)?.filter(|_| pr.cb(17)) join (foo/**/) => &&$(let v11 = pr.q(18)?)){+ [$$ [x [$(pr.q(23)?) {"lit" {$(from_fn(|t| { t.append(pr.c(19)); t.space(); t.append(pr.c(20)); })) "lit" $(from_fn(|t| { t.append(pr.c(21)); t.space(); t.append(pr.c(22)); }))} ,} $$] $({ pr.mark(24)?; "blk" })] _y] $$}$(ref o12 { o12.append(pr.q(25)?); o12.space(); o12.append(pr.q(26)?); }) [
        ]
    }
    Ok(())
}
fn model_19(m: &mut MV, pr: &Pr) -> Flow {
    l(m, "while");
    sp(m);
    qs(m, "q\"uote");
    tp(m);
    l(m, "x");
    sp(m);
    if let Some(x) = pr.opt(1)? { m.lit(x); }
    l(m, "{");
    l(m, "$");
    sp(m);
    l(m, "[");
    l(m, "->");
    sp(m);
    l(m, "[");
    { let x = pr.q(5)?; let y = pr.q(6)?; m.lit(x); m.lit(y); }
    sp(m);
    l(m, "[");
    l(m, "$");
    sp(m);
    l(m, "{");
    m.lit(pr.q(3)?);
    sp(m);
    l(m, "[");
    l(m, "$");
    sp(m);
    m.lit(pr.q(2)?);
    sp(m);
    l(m, ",");
    l(m, "]");
    sp(m);
    l(m, if pr.b(4)? { "t" } else { "f" });
    l(m, "}");
    sp(m);
    l(m, "$");
    l(m, "]");
    sp(m);
    m.lit(pr.q(7)?);
    l(m, "]");
    sp(m);
    l(m, "$");
    l(m, "]");
    sp(m);
    l(m, "$");
    l(m, "}");
    {
    let mut it2 = pr.it(8)?;
    let mut step = || -> Flow<Option<String>> { it2.step() };
    while let Some(v1) = step()? {
    l(m, "_y");
    let v3 = pr.q(9)?;
    }
    }
    tp(m);
    {
    let mut it5 = pr.it(10)?;
    let mut step = || -> Flow<Option<String>> { it5.step() };
    let mut next = step()?;
    while let Some(v4) = next {
    {
    l(m, "'c'");
    }
    next = step()?;
    if next.is_some() {
    {
    let mut v6 = pr.q(11)?;
    sp(m);
    }
    }
    }
    }
    match pr.opt(12)? {
    Some(v8) => {
    { let x = pr.q(13)?; oq(m, false); m.lit(x); cq(m); }
    if pr.b(14)? { pr.mark(15)?; }
    l(m, "a1");
    }
    _ => {
    l(m, "+");
    sp(m);
    l(m, "...");
    }
    }
    tln(m);
    {
    let mut it10 = pr.it(16)?;
    let mut step = || -> Flow<Option<String>> { while let Some(x) = it10.step()? { if pr.mcb(17)? { return Ok(Some(x)); } } Ok(None) };
    let mut next = step()?;
    while let Some(v9) = next {
    {
    l(m, "&&");
    let v11 = pr.q(18)?;
    }
    next = step()?;
    if next.is_some() {
    {
    l(m, "foo");
    sp(m);
    }
    }
    }
    }
    l(m, "{");
    l(m, "+");
    sp(m);
    l(m, "[");
    l(m, "$");
    sp(m);
    l(m, "[");
    l(m, "x");
    sp(m);
    l(m, "[");
    m.lit(pr.q(23)?);
    sp(m);
    l(m, "{");
    qs(m, "lit");
    sp(m);
    l(m, "{");
    m.lit(pr.mc(19)?); sp(m); m.lit(pr.mc(20)?);
    sp(m);
    qs(m, "lit");
    sp(m);
    m.lit(pr.mc(21)?); sp(m); m.lit(pr.mc(22)?);
    l(m, "}");
    sp(m);
    l(m, ",");
    l(m, "}");
    sp(m);
    l(m, "$");
    l(m, "]");
    sp(m);
    pr.mark(24)?; l(m, "blk");
    l(m, "]");
    sp(m);
    l(m, "_y");
    l(m, "]");
    sp(m);
    l(m, "$");
    l(m, "}");
    m.lit(pr.q(25)?); sp(m); m.lit(pr.q(26)?);
    sp(m);
    l(m, "[");
    tp(m);
    l(m, "]");
    Ok(())
}
fn real_20<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        a1  $(if pr.b(1)? && pr.b(2)? {
            $(" lead")
        }) /* between */ $(quote!($(if pr.b(3)? || !pr.b(4)? { $(ref o2 { o2.append(pr.q(5)?); o2.space(); o2.append(pr.q(6)?); })$(if pr.b(7)? && pr.b(8)? { $(let v3 = pr.n(9, 9)?)       $(pr.q(10)?) } else { $("ä") })/**/a1 } else { $[str]($($(match pr.opt(11)? { Some(v4) if v4.is_empty() || pr.b(12)? => "q\"uote"$(Some(pr.q(13)?)) $(pr.opt(14)?), Some(v5) => { = } None => $(pr.opt(15)?)/**/$(pr.n(16, 9)?) [$(display(pr.n(17, 9)?))  $(pr.opt(18)?), Self ], })  $({ pr.mark(19)?; "blk" })$(" lead"))one -) }){$(if pr.b(20)? {})}x))       (
        ) $(let v6 = pr.q(21)?)nameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameame? {   
            $(&v6)
        }/**/$(pr.n(22, 9)?)
    }
    Ok(())
}
fn model_20(m: &mut MV, pr: &Pr) -> Flow {
    l(m, "a1");
    sp(m);
    if pr.b(1)? && pr.b(2)? {
    l(m, " lead");
    }
    sp(m);
    let mut s1 = MStream::<()>::default();
    {
    let m = &mut s1;
    if pr.b(3)? || !pr.b(4)? {
    m.lit(pr.q(5)?); sp(m); m.lit(pr.q(6)?);
    if pr.b(7)? && pr.b(8)? {
    let v3 = pr.n(9, 9)?;
    sp(m);
    m.lit(pr.q(10)?);
    } else {
    l(m, "ä");
    }
    sp(m);
    l(m, "a1");
    } else {
    oq(m, true);
    oe(m);
    {
    match pr.opt(11)? {
    Some(v4) if v4.is_empty() || pr.b(12)? => {
    qs(m, "q\"uote");
    m.lit(pr.q(13)?);
    sp(m);
    if let Some(x) = pr.opt(14)? { m.lit(x); }
    }
    Some(v5) => {
    l(m, "=");
    }
    None => {
    if let Some(x) = pr.opt(15)? { m.lit(x); }
    sp(m);
    m.lit(pr.n(16, 9)?.to_string());
    sp(m);
    l(m, "[");
    m.lit(pr.n(17, 9)?.to_string());
    sp(m);
    if let Some(x) = pr.opt(18)? { m.lit(x); }
    l(m, ",");
    sp(m);
    l(m, "Self");
    sp(m);
    l(m, "]");
    }
    }
    sp(m);
    pr.mark(19)?; l(m, "blk");
    l(m, " lead");
    }
    ce(m);
    l(m, "one -");
    cq(m);
    }
    l(m, "{");
    if pr.b(20)? {
    }
    l(m, "}");
    l(m, "x");
    }
    m.add_all(&s1.items);
    sp(m);
    l(m, "(");
    tp(m);
    l(m, ")");
    sp(m);
    let v6 = pr.q(21)?;
    l(m, "nameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameame");
    l(m, "?");
    sp(m);
    l(m, "{");
    tind(m);
    m.lit(v6.clone());
    tun(m);
    l(m, "}");
    sp(m);
    m.lit(pr.n(22, 9)?.to_string());
    Ok(())
}
fn real_21<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        7       while$(if let Some(v1) = pr.opt(1)? { $(pr.q(3)?) } else { $(let v2 = pr.q(4)?) })$(format!("<{}>", pr.q(5)?))
        $(pr.multi(6)?)$(&quote!($(for v4 in pr.it(7)?.filter(|_| pr.cb(8)) join ($(let v6 = pr.q(9)?) ) { _y })x)) '\\'{$(pr.q(13)?) [$(display(pr.n(11, 9)?)) ($(quoted(pr.q(10)?)) a1 $$) $(quoted(pr.q(12)?))] $$}
    }
    Ok(())
}
fn model_21(m: &mut MV, pr: &Pr) -> Flow {
    l(m, "7");
    sp(m);
    l(m, "while");
    if let Some(v1) = pr.opt(1)? {
    m.lit(pr.q(3)?);
    } else {
    let v2 = pr.q(4)?;
    }
    m.lit(format!("<{}>", pr.q(5)?));
    tp(m);
    pr.mmulti(6, m)?;
    let mut s3 = MStream::<()>::default();
    {
    let m = &mut s3;
    {
    let mut it5 = pr.it(7)?;
    let mut step = || -> Flow<Option<String>> { while let Some(x) = it5.step()? { if pr.mcb(8)? { return Ok(Some(x)); } } Ok(None) };
    let mut next = step()?;
    while let Some(v4) = next {
    {
    l(m, "_y");
    }
    next = step()?;
    if next.is_some() {
    {
    let v6 = pr.q(9)?;
    sp(m);
    }
    }
    }
    }
    l(m, "x");
    }
    m.add_all(&s3.items);
    sp(m);
    l(m, "'\\\\'");
    l(m, "{");
    m.lit(pr.q(13)?);
    sp(m);
    l(m, "[");
    m.lit(pr.n(11, 9)?.to_string());
    sp(m);
    l(m, "(");
    { let x = pr.q(10)?; oq(m, false); m.lit(x); cq(m); }
    sp(m);
    l(m, "a1");
    sp(m);
    l(m, "$");
    l(m, ")");
    sp(m);
    { let x = pr.q(12)?; oq(m, false); m.lit(x); cq(m); }
    l(m, "]");
    sp(m);
    l(m, "$");
    l(m, "}");
    Ok(())
}
fn real_22<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(for v1 in pr.opt(1)? join (, ) =>
            $(Some(pr.q(3)?)) $(format!("<{}>", pr.q(4)?))	größe/**/(
            // between
            
            
            // between
                {$(pr.opt(7)?) {$$ [_y [$$ [$$ ($$ $$ $({ pr.mark(5)?; "blk" })) $$] "q\"uote"] $(&pr.q(6)?)] "lit"} $$}$("ä"){, {$(display(pr.n(9, 9)?)) ($$ $("ver batim") $(pr.n(8, 9)?)) $$} $$}
            
            )) while (
                $(match pr.opt(10)? { Some(v3) if v3.is_empty() || pr.b(11)? => $(pr.c(14)) $(pr.multi(15)?) (_y, $(pr.q(16)?.as_str()) ::), None if pr.b(12)? => { $(from_fn(|t| { t.append(pr.c(17)); t.space(); t.append(pr.c(18)); })) } _ if pr.b(13)? => ( =>/**/bar$(pr.q(19)?)), Some(v4) => $(&quote!($$))bar/**/foo, _ => $({ if pr.b(20)? { "t" } else { "f" } }) }) $(if pr.b(21)? =>
                    $("ä")$$)$(pr.q(22)?)$[str](plain)
        )
    }
    Ok(())
}
fn model_22(m: &mut MV, pr: &Pr) -> Flow {
    {
    let mut it2 = pr.opt(1)?.into_iter();
    let mut step = || -> Flow<Option<String>> { Ok(it2.next()) };
    let mut next = step()?;
    while let Some(v1) = next {
    {
    m.lit(pr.q(3)?);
    sp(m);
    m.lit(format!("<{}>", pr.q(4)?));
    sp(m);
    l(m, "größe");
    sp(m);
    l(m, "(");
    tind(m);
    tln(m);
    l(m, "{");
    if let Some(x) = pr.opt(7)? { m.lit(x); }
    sp(m);
    l(m, "{");
    l(m, "$");
    sp(m);
    l(m, "[");
    l(m, "_y");
    sp(m);
    l(m, "[");
    l(m, "$");
    sp(m);
    l(m, "[");
    l(m, "$");
    sp(m);
    l(m, "(");
    l(m, "$");
    sp(m);
    l(m, "$");
    sp(m);
    pr.mark(5)?; l(m, "blk");
    l(m, ")");
    sp(m);
    l(m, "$");
    l(m, "]");
    sp(m);
    qs(m, "q\"uote");
    l(m, "]");
    sp(m);
    m.lit(pr.q(6)?);
    l(m, "]");
    sp(m);
    qs(m, "lit");
    l(m, "}");
    sp(m);
    l(m, "$");
    l(m, "}");
    l(m, "ä");
    l(m, "{");
    l(m, ",");
    sp(m);
    l(m, "{");
    m.lit(pr.n(9, 9)?.to_string());
    sp(m);
    l(m, "(");
    l(m, "$");
    sp(m);
    l(m, "ver batim");
    sp(m);
    m.lit(pr.n(8, 9)?.to_string());
    l(m, ")");
    sp(m);
    l(m, "$");
    l(m, "}");
    sp(m);
    l(m, "$");
    l(m, "}");
    tun(m);
    tln(m);
    l(m, ")");
    }
    next = step()?;
    if next.is_some() {
    {
    l(m, ",");
    sp(m);
    }
    }
    }
    }
    sp(m);
    l(m, "while");
    sp(m);
    l(m, "(");
    tind(m);
    match pr.opt(10)? {
    Some(v3) if v3.is_empty() || pr.b(11)? => {
    m.lit(pr.mc(14)?);
    sp(m);
    pr.mmulti(15, m)?;
    sp(m);
    l(m, "(");
    l(m, "_y");
    l(m, ",");
    sp(m);
    m.lit(pr.q(16)?);
    sp(m);
    l(m, "::");
    l(m, ")");
    }
    None if pr.b(12)? => {
    m.lit(pr.mc(17)?); sp(m); m.lit(pr.mc(18)?);
    }
    _ if pr.b(13)? => {
    sp(m);
    l(m, "=>");
    sp(m);
    l(m, "bar");
    m.lit(pr.q(19)?);
    }
    Some(v4) => {
    let mut s5 = MStream::<()>::default();
    {
    let m = &mut s5;
    l(m, "$");
    }
    m.add_all(&s5.items);
    l(m, "bar");
    sp(m);
    l(m, "foo");
    }
    _ => {
    l(m, if pr.b(20)? { "t" } else { "f" });
    }
    }
    sp(m);
    if pr.b(21)? {
    l(m, "ä");
    l(m, "$");
    }
    m.lit(pr.q(22)?);
    qs(m, "plain");
    tun(m);
    l(m, ")");
    Ok(())
}
fn real_23<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(match (pr.b(1)?, pr.q(2)?) { (_, v1) => { $(quoted(quote!($(let v3 = pr.n(3, 9)?) $(match pr.opt(4)? { Some(v4) if v4.is_empty() || pr.b(5)? => ||$v1$(Some(pr.q(7)?)) { /* between */ $$	$(pr.q(8)?) _y, ;/**/7}, None if pr.b(6)? => $(quote!($(format!("<{}>", pr.q(9)?))Self$(&pr.q(10)?)))$(&pr.q(11)?), Some(v5) => { Self } None => bar	$v3 {a1  ,, $(display(pr.n(12, 9)?))} })  $(quote!(&$(match pr.opt(13)? { Some(v9) => { while$(from_fn(|t| { t.append(pr.c(14)); t.space(); t.append(pr.c(15)); })) } _ => Self/**/x [/**/, $(pr.q(16)?), , /* between */ 1_000u64] }) $[str](plain)))))) } })()	$(if pr.b(17)? && pr.b(18)? =>
            $(for v10 in pr.it(19)? join (while= ) =>
                $(for v12 in pr.it(20)? { $(quoted(pr.q(21)?)) & /* between */ $(display(pr.n(22, 9)?)) })	$(ref o14 { if pr.b(23)? { quote_in!(*o14 => $(let v15 = pr.q(24)?)); } o14.push(); }) $(ref _ => if pr.b(25)? { pr.mark(26)?; })
                . /* between */ { // note
                
                     $(let mut v16 = pr.q(27)?)$[str](a b  c) { $(quoted(pr.q(28)?)) $(" lead")}$(if let (Some(v17), _) = (pr.opt(29)?, pr.b(30)?) {
                         Self$(pr.q(31)?)
                         
                           $[str](1 + 2)$(v17.clone())
                                      $(if pr.b(32)? && pr.b(33)? { while })
                         
                                      "two words"
                         
                                      =>
                     })
                })
            $(pr.opt(34)?) $(pr.n(35, 9)?) nameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameame
            
            
            
            
            $(pr.q(36)?)
                x)
    }
    Ok(())
}
fn model_23(m: &mut MV, pr: &Pr) -> Flow {
    match (pr.b(1)?, pr.q(2)?) {
    (_, v1) => {
    let mut s2 = MStream::<()>::default();
    {
    let m = &mut s2;
    let v3 = pr.n(3, 9)?;
    sp(m);
    match pr.opt(4)? {
    Some(v4) if v4.is_empty() || pr.b(5)? => {
    l(m, "||");
    m.lit(v1);
    m.lit(pr.q(7)?);
    sp(m);
    l(m, "{");
    sp(m);
    l(m, "$");
    sp(m);
    m.lit(pr.q(8)?);
    sp(m);
    l(m, "_y");
    l(m, ",");
    sp(m);
    l(m, ";");
    sp(m);
    l(m, "7");
    l(m, "}");
    }
    None if pr.b(6)? => {
    let mut s6 = MStream::<()>::default();
    {
    let m = &mut s6;
    m.lit(format!("<{}>", pr.q(9)?));
    l(m, "Self");
    m.lit(pr.q(10)?);
    }
    m.add_all(&s6.items);
    m.lit(pr.q(11)?);
    }
    Some(v5) => {
    l(m, "Self");
    }
    None => {
    l(m, "bar");
    sp(m);
    m.lit(v3.to_string());
    sp(m);
    l(m, "{");
    l(m, "a1");
    sp(m);
    l(m, ",");
    l(m, ",");
    sp(m);
    m.lit(pr.n(12, 9)?.to_string());
    l(m, "}");
    }
    }
    sp(m);
    let mut s7 = MStream::<()>::default();
    {
    let m = &mut s7;
    l(m, "&");
    match pr.opt(13)? {
    Some(v9) => {
    l(m, "while");
    m.lit(pr.mc(14)?); sp(m); m.lit(pr.mc(15)?);
    }
    _ => {
    l(m, "Self");
    sp(m);
    l(m, "x");
    sp(m);
    l(m, "[");
    sp(m);
    l(m, ",");
    sp(m);
    m.lit(pr.q(16)?);
    l(m, ",");
    sp(m);
    l(m, ",");
    sp(m);
    l(m, "1_000u64");
    l(m, "]");
    }
    }
    sp(m);
    qs(m, "plain");
    }
    m.add_all(&s7.items);
    }
    oq(m, false);
    m.add_all(&s2.items);
    cq(m);
    }
    }
    l(m, "()");
    sp(m);
    if pr.b(17)? && pr.b(18)? {
    {
    let mut it11 = pr.it(19)?;
    let mut step = || -> Flow<Option<String>> { it11.step() };
    let mut next = step()?;
    while let Some(v10) = next {
    {
    {
    let mut it13 = pr.it(20)?;
    let mut step = || -> Flow<Option<String>> { it13.step() };
    while let Some(v12) = step()? {
    { let x = pr.q(21)?; oq(m, false); m.lit(x); cq(m); }
    sp(m);
    l(m, "&");
    sp(m);
    m.lit(pr.n(22, 9)?.to_string());
    }
    }
    sp(m);
    if pr.b(23)? {
    let v15 = pr.q(24)?;
    }
    p(m);
    sp(m);
    if pr.b(25)? { pr.mark(26)?; }
    tp(m);
    l(m, ".");
    sp(m);
    l(m, "{");
    tind(m);
    tln(m);
    let mut v16 = pr.q(27)?;
    qs(m, "a b  c");
    sp(m);
    l(m, "{");
    sp(m);
    { let x = pr.q(28)?; oq(m, false); m.lit(x); cq(m); }
    sp(m);
    l(m, " lead");
    l(m, "}");
    if let (Some(v17), _) = (pr.opt(29)?, pr.b(30)?) {
    l(m, "Self");
    m.lit(pr.q(31)?);
    tind(m);
    tln(m);
    qs(m, "1 + 2");
    m.lit(v17.clone());
    tind(m);
    if pr.b(32)? && pr.b(33)? {
    l(m, "while");
    }
    tln(m);
    qs(m, "two words");
    tln(m);
    l(m, "=>");
    tend(m);
    tend(m);
    }
    tun(m);
    l(m, "}");
    }
    next = step()?;
    if next.is_some() {
    {
    l(m, "while");
    l(m, "=");
    sp(m);
    }
    }
    }
    }
    tp(m);
    if let Some(x) = pr.opt(34)? { m.lit(x); }
    sp(m);
    m.lit(pr.n(35, 9)?.to_string());
    sp(m);
    l(m, "nameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameame");
    tln(m);
    m.lit(pr.q(36)?);
    tind(m);
    l(m, "x");
    tend(m);
    }
    Ok(())
}
fn real_24<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        Self// note
            $(match pr.n(1, 4)? {
                0 | 2 => $(ref _ { pr.mark(2)?; }) -> $[str](1 + 2),
                _ => $(ref _ => if pr.rare(3)? { return Err(Left::Return); }) [foo bar 1_000u64, $(ref o1 { o1.append(pr.q(4)?); o1.space(); o1.append(pr.q(5)?); }) $("ver batim")]
            })"q\"uote"$(if pr.b(6)? { $(ref o2 { if pr.b(7)? { quote_in!(*o2 => $(for v3 in 0..pr.n(8, 4)? => $(if pr.b(9)? => $(pr.q(10)?)) $(for v5 in [pr.q(11)?, pr.q(12)?] => bar)$(ref o7 { if pr.b(13)? { quote_in!(*o7 => $(quoted(pr.q(14)?)) _y); } o7.push(); }))$(quoted(pr.q(15)?))$(ref o8 { o8.append(pr.q(16)?); o8.space(); o8.append(pr.q(17)?); })); } o2.push(); }) } else { $(from_fn(|t| { t.append(pr.c(18)); t.space(); t.append(pr.c(19)); })) bar })
                $$
    }
    Ok(())
}
fn model_24(m: &mut MV, pr: &Pr) -> Flow {
    l(m, "Self");
    tind(m);
    match pr.n(1, 4)? {
    0 | 2 => {
    pr.mark(2)?;
    sp(m);
    l(m, "->");
    sp(m);
    qs(m, "1 + 2");
    }
    _ => {
    if pr.rare(3)? { return Err(Left::Return); }
    sp(m);
    l(m, "[");
    l(m, "foo");
    sp(m);
    l(m, "bar");
    sp(m);
    l(m, "1_000u64");
    l(m, ",");
    sp(m);
    m.lit(pr.q(4)?); sp(m); m.lit(pr.q(5)?);
    sp(m);
    l(m, "ver batim");
    l(m, "]");
    }
    }
    qs(m, "q\"uote");
    if pr.b(6)? {
    if pr.b(7)? {
    {
    let mut it4 = 0..pr.n(8, 4)?;
    let mut step = || -> Flow<Option<u64>> { Ok(it4.next()) };
    while let Some(v3) = step()? {
    if pr.b(9)? {
    m.lit(pr.q(10)?);
    }
    sp(m);
    {
    let mut it6 = [pr.q(11)?, pr.q(12)?].into_iter();
    let mut step = || -> Flow<Option<String>> { Ok(it6.next()) };
    while let Some(v5) = step()? {
    l(m, "bar");
    }
    }
    if pr.b(13)? {
    { let x = pr.q(14)?; oq(m, false); m.lit(x); cq(m); }
    sp(m);
    l(m, "_y");
    }
    p(m);
    }
    }
    { let x = pr.q(15)?; oq(m, false); m.lit(x); cq(m); }
    m.lit(pr.q(16)?); sp(m); m.lit(pr.q(17)?);
    }
    p(m);
    } else {
    m.lit(pr.mc(18)?); sp(m); m.lit(pr.mc(19)?);
    sp(m);
    l(m, "bar");
    }
    tind(m);
    l(m, "$");
    tend(m);
    tend(m);
    Ok(())
}
fn real_25<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(quoted(quote!($(pr.q(1)?.as_str())bar)))$(ref _ => if pr.b(2)? { pr.mark(3)?; }) $(for v2 in pr.opt(4)? join ( $(if pr.b(5)? { $(quoted(quote!($(pr.opt(6)?)))) $(let v5 = pr.q(7)?)$(for (i8, v6) in pr.it(8)?.enumerate() { $(quote!(bar $(pr.multi(9)?)$$))  +$(if let Some(v10) = pr.opt(10)? => $(pr.q(12)?)) }) })$(ref o11 { if pr.b(13)? { quote_in!(*o11 => ;); } o11.push(); })) => Self /* between */ ($(for v12 in pr.it(14)? => $(for v14 in pr.it(15)?.filter(|_| pr.cb(16)) join ( /* between */ $(Some(pr.q(17)?)) Self) => while) /* between */ $(let mut v16 = pr.q(18)?)$(match pr.opt(19)? {
            Some(v17) if v17.is_empty() || pr.b(20)? => {
                while $(pr.q(22)?) $(pr.opt(23)?)foo +
            },
            _ if pr.b(21)? => 'c' ( Self $(pr.q(24)?), foo),
            Some(v18) => ($(Some(pr.q(25)?))= $(Some(pr.q(26)?))),
            _ => ?/**/$(pr.c(27)) {$(format!("<{}>", pr.q(28)?))       $(vec![pr.q(29)?, pr.q(30)?]), $(display(pr.n(31, 9)?)) ...}
        }))))
    }
    Ok(())
}
fn model_25(m: &mut MV, pr: &Pr) -> Flow {
    let mut s1 = MStream::<()>::default();
    {
    let m = &mut s1;
    m.lit(pr.q(1)?);
    l(m, "bar");
    }
    oq(m, false);
    m.add_all(&s1.items);
    cq(m);
    if pr.b(2)? { pr.mark(3)?; }
    sp(m);
    {
    let mut it3 = pr.opt(4)?.into_iter();
    let mut step = || -> Flow<Option<String>> { Ok(it3.next()) };
    let mut next = step()?;
    while let Some(v2) = next {
    {
    l(m, "Self");
    sp(m);
    l(m, "(");
    {
    let mut it13 = pr.it(14)?;
    let mut step = || -> Flow<Option<String>> { it13.step() };
    while let Some(v12) = step()? {
    {
    let mut it15 = pr.it(15)?;
    let mut step = || -> Flow<Option<String>> { while let Some(x) = it15.step()? { if pr.mcb(16)? { return Ok(Some(x)); } } Ok(None) };
    let mut next = step()?;
    while let Some(v14) = next {
    {
    l(m, "while");
    }
    next = step()?;
    if next.is_some() {
    {
    sp(m);
    m.lit(pr.q(17)?);
    sp(m);
    l(m, "Self");
    }
    }
    }
    }
    sp(m);
    let mut v16 = pr.q(18)?;
    match pr.opt(19)? {
    Some(v17) if v17.is_empty() || pr.b(20)? => {
    l(m, "while");
    sp(m);
    m.lit(pr.q(22)?);
    sp(m);
    if let Some(x) = pr.opt(23)? { m.lit(x); }
    l(m, "foo");
    sp(m);
    l(m, "+");
    }
    _ if pr.b(21)? => {
    l(m, "'c'");
    sp(m);
    l(m, "(");
    sp(m);
    l(m, "Self");
    sp(m);
    m.lit(pr.q(24)?);
    l(m, ",");
    sp(m);
    l(m, "foo");
    l(m, ")");
    }
    Some(v18) => {
    m.lit(pr.q(25)?);
    l(m, "=");
    sp(m);
    m.lit(pr.q(26)?);
    }
    _ => {
    l(m, "?");
    sp(m);
    m.lit(pr.mc(27)?);
    sp(m);
    l(m, "{");
    m.lit(format!("<{}>", pr.q(28)?));
    sp(m);
    { let x = pr.q(29)?; let y = pr.q(30)?; m.lit(x); m.lit(y); }
    l(m, ",");
    sp(m);
    m.lit(pr.n(31, 9)?.to_string());
    sp(m);
    l(m, "...");
    l(m, "}");
    }
    }
    }
    }
    l(m, ")");
    }
    next = step()?;
    if next.is_some() {
    {
    sp(m);
    if pr.b(5)? {
    let mut s4 = MStream::<()>::default();
    {
    let m = &mut s4;
    if let Some(x) = pr.opt(6)? { m.lit(x); }
    }
    oq(m, false);
    m.add_all(&s4.items);
    cq(m);
    sp(m);
    let v5 = pr.q(7)?;
    {
    let mut it7 = pr.it(8)?;
    let mut at = 0u64;
    let mut step = || -> Flow<Option<(u64, String)>> { let x = it7.step()?; at += 1; Ok(x.map(|x| (at - 1, x))) };
    while let Some((i8, v6)) = step()? {
    let mut s9 = MStream::<()>::default();
    {
    let m = &mut s9;
    l(m, "bar");
    sp(m);
    pr.mmulti(9, m)?;
    l(m, "$");
    }
    m.add_all(&s9.items);
    sp(m);
    l(m, "+");
    if let Some(v10) = pr.opt(10)? {
    m.lit(pr.q(12)?);
    }
    }
    }
    }
    if pr.b(13)? {
    l(m, ";");
    }
    p(m);
    }
    }
    }
    }
    Ok(())
}
fn real_26<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(for (i3, v1) in pr.it(1)?.enumerate() =>
            $(for v4 in pr.it(2)?.filter(|_| pr.cb(3)) join ($(&pr.q(4)?)) => $(&quote!($$))$(let v7 = pr.q(5)?)$(if let Some(v8) = pr.opt(6)? { $(ref o9 { if pr.b(8)? { quote_in!(*o9 => $(pr.multi(9)?)a1); } o9.push(); }) })) /* between */ (
            ))
        // between
        // between
        $[str]($name-$[const](pr.q(10)?)$($(if pr.b(11)? || !pr.b(12)? {}) $(let (v10, v11) = (pr.q(13)?, pr.n(14, 9)?))) one$name-$($(ref _ => if pr.rare(15)? { return Err(Left::Return); })[/**/$(if pr.b(16)? { $({ pr.mark(17)?; "blk" })$(ref _ { pr.mark(18)?; }) })$(ref _ => if pr.rare(19)? { return Err(Left::Return); })/**/]))$(pr.multi(20)?)

        // between


        $(let v12 = pr.q(21)?)  $(ref _ => if pr.b(22)? { pr.mark(23)?; })
    }
    Ok(())
}
fn model_26(m: &mut MV, pr: &Pr) -> Flow {
    {
    let mut it2 = pr.it(1)?;
    let mut at = 0u64;
    let mut step = || -> Flow<Option<(u64, String)>> { let x = it2.step()?; at += 1; Ok(x.map(|x| (at - 1, x))) };
    while let Some((i3, v1)) = step()? {
    {
    let mut it5 = pr.it(2)?;
    let mut step = || -> Flow<Option<String>> { while let Some(x) = it5.step()? { if pr.mcb(3)? { return Ok(Some(x)); } } Ok(None) };
    let mut next = step()?;
    while let Some(v4) = next {
    {
    let mut s6 = MStream::<()>::default();
    {
    let m = &mut s6;
    l(m, "$");
    }
    m.add_all(&s6.items);
    let v7 = pr.q(5)?;
    if let Some(v8) = pr.opt(6)? {
    if pr.b(8)? {
    pr.mmulti(9, m)?;
    l(m, "a1");
    }
    p(m);
    }
    }
    next = step()?;
    if next.is_some() {
    {
    m.lit(pr.q(4)?);
    }
    }
    }
    }
    sp(m);
    l(m, "(");
    tp(m);
    l(m, ")");
    }
    }
    tln(m);
    oq(m, true);
    oe(m);
    l(m, "name");
    ce(m);
    l(m, "-");
    m.lit(pr.q(10)?);
    oe(m);
    {
    if pr.b(11)? || !pr.b(12)? {
    }
    sp(m);
    let (v10, v11) = (pr.q(13)?, pr.n(14, 9)?);
    }
    ce(m);
    l(m, " one");
    oe(m);
    l(m, "name");
    ce(m);
    l(m, "-");
    oe(m);
    {
    if pr.rare(15)? { return Err(Left::Return); }
    l(m, "[");
    sp(m);
    if pr.b(16)? {
    pr.mark(17)?; l(m, "blk");
    pr.mark(18)?;
    }
    if pr.rare(19)? { return Err(Left::Return); }
    sp(m);
    l(m, "]");
    }
    ce(m);
    cq(m);
    pr.mmulti(20, m)?;
    tln(m);
    let v12 = pr.q(21)?;
    sp(m);
    if pr.b(22)? { pr.mark(23)?; }
    Ok(())
}
fn real_27<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(ref o1 { o1.append(pr.q(1)?); o1.space(); o1.append(pr.q(2)?); })$("ä") $(quote!($(&quote!($[str](a b  c)/**/$(if pr.b(3)? { $(ref o4 { if pr.rare(4)? { o4.append(pr.q(5)?); return Err(Left::Return); } })/**/$['\r'] } else { $(for v5 in pr.it(6)? join ( $(format!("<{}>", pr.q(7)?))       ./**/) { a1 => }) $[str]($(Self)$[const]("con st")$[const](pr.q(8)?)$[const]("con st")) })))$(if pr.b(9)? { $(if pr.b(10)? => $(if pr.b(11)? { $(from_fn(|t| { t.append(pr.c(12)); t.space(); t.append(pr.c(13)); })) /* between */ $$       $(pr.q(14)?.as_str()) }))$(ref o7 { o7.append(pr.q(15)?); o7.space(); o7.append(pr.q(16)?); }) } else { $(let (v8, v9) = (pr.q(17)?, pr.n(18, 9)?))	$[str]($[const](pr.q(19)?)$[const](pr.q(20)?)$$ $name-two$($(ref _ => if pr.b(21)? { pr.mark(22)?; })$(ref _ => if pr.rare(23)? { return Err(Left::Return); })$(if pr.n(24, 3)? == 1 { $(&pr.q(25)?)/**/$(pr.n(26, 9)?) }))three -)&& }))) $(let v10 = pr.q(27)?)
    }
    Ok(())
}
fn model_27(m: &mut MV, pr: &Pr) -> Flow {
    m.lit(pr.q(1)?); sp(m); m.lit(pr.q(2)?);
    l(m, "ä");
    sp(m);
    let mut s2 = MStream::<()>::default();
    {
    let m = &mut s2;
    let mut s3 = MStream::<()>::default();
    {
    let m = &mut s3;
    qs(m, "a b  c");
    sp(m);
    if pr.b(3)? {
    if pr.rare(4)? { m.lit(pr.q(5)?); return Err(Left::Return); }
    sp(m);
    p(m);
    } else {
    {
    let mut it6 = pr.it(6)?;
    let mut step = || -> Flow<Option<String>> { it6.step() };
    let mut next = step()?;
    while let Some(v5) = next {
    {
    l(m, "a1");
    sp(m);
    l(m, "=>");
    }
    next = step()?;
    if next.is_some() {
    {
    sp(m);
    m.lit(format!("<{}>", pr.q(7)?));
    sp(m);
    l(m, ".");
    sp(m);
    }
    }
    }
    }
    sp(m);
    oq(m, true);
    oe(m);
    {
    l(m, "Self");
    }
    ce(m);
    l(m, "con st");
    m.lit(pr.q(8)?);
    l(m, "con st");
    cq(m);
    }
    }
    m.add_all(&s3.items);
    if pr.b(9)? {
    if pr.b(10)? {
    if pr.b(11)? {
    m.lit(pr.mc(12)?); sp(m); m.lit(pr.mc(13)?);
    sp(m);
    l(m, "$");
    sp(m);
    m.lit(pr.q(14)?);
    }
    }
    m.lit(pr.q(15)?); sp(m); m.lit(pr.q(16)?);
    } else {
    let (v8, v9) = (pr.q(17)?, pr.n(18, 9)?);
    sp(m);
    oq(m, true);
    m.lit(pr.q(19)?);
    m.lit(pr.q(20)?);
    l(m, "$ ");
    oe(m);
    l(m, "name");
    ce(m);
    l(m, "-two");
    oe(m);
    {
    if pr.b(21)? { pr.mark(22)?; }
    if pr.rare(23)? { return Err(Left::Return); }
    if pr.n(24, 3)? == 1 {
    m.lit(pr.q(25)?);
    sp(m);
    m.lit(pr.n(26, 9)?.to_string());
    }
    }
    ce(m);
    l(m, "three -");
    cq(m);
    l(m, "&&");
    }
    }
    m.add_all(&s2.items);
    sp(m);
    let v10 = pr.q(27)?;
    Ok(())
}
fn real_28<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(if let Some(v1) = pr.opt(1)? { $$ } else { $(ref _ { pr.mark(3)?; }) /* between */ $[str]($($(let v2 = pr.n(4, 9)?)  $(if pr.b(5)? => $(match (pr.b(6)?, pr.n(7, 3)?) { (true, 0) => (.$(from_fn(|t| { t.append(pr.c(8)); t.space(); t.append(pr.c(9)); })) ), (_, 1) | (true, _) => &, (..) => bar$(pr.q(10)?.as_str()), }))a1)$($(format!("<{}>", pr.q(11)?)))$($(if pr.b(12)? || !pr.b(13)? { $(quoted(quote!($(pr.c(14))"q\"uote"))) } else { $(match (pr.b(15)?, pr.n(16, 3)?) { (true, 0) => { $({ if pr.b(18)? { "t" } else { "f" } }) } (_, 1) | (true, _) => { Self _y/**/1_000u64 }, _ if pr.b(17)? => = (  ..=, a1 ), _ => a1$(pr.opt(19)?) [ $(from_fn(|t| { t.append(pr.c(20)); t.space(); t.append(pr.c(21)); })), $(vec![pr.q(22)?, pr.q(23)?])], }) })) two) })

        1_000u64	$(ref o6 { o6.append(pr.q(24)?); o6.space(); o6.append(pr.q(25)?); })/**/$(&pr.q(26)?)
    }
    Ok(())
}
fn model_28(m: &mut MV, pr: &Pr) -> Flow {
    if let Some(v1) = pr.opt(1)? {
    l(m, "$");
    } else {
    pr.mark(3)?;
    sp(m);
    oq(m, true);
    oe(m);
    {
    let v2 = pr.n(4, 9)?;
    sp(m);
    if pr.b(5)? {
    match (pr.b(6)?, pr.n(7, 3)?) {
    (true, 0) => {
    l(m, ".");
    m.lit(pr.mc(8)?); sp(m); m.lit(pr.mc(9)?);
    sp(m);
    }
    (_, 1) | (true, _) => {
    l(m, "&");
    }
    (..) => {
    l(m, "bar");
    m.lit(pr.q(10)?);
    }
    }
    }
    l(m, "a1");
    }
    ce(m);
    oe(m);
    {
    m.lit(format!("<{}>", pr.q(11)?));
    }
    ce(m);
    oe(m);
    {
    if pr.b(12)? || !pr.b(13)? {
    let mut s4 = MStream::<()>::default();
    {
    let m = &mut s4;
    m.lit(pr.mc(14)?);
    qs(m, "q\"uote");
    }
    oq(m, false);
    m.add_all(&s4.items);
    cq(m);
    } else {
    match (pr.b(15)?, pr.n(16, 3)?) {
    (true, 0) => {
    l(m, if pr.b(18)? { "t" } else { "f" });
    }
    (_, 1) | (true, _) => {
    l(m, "Self");
    sp(m);
    l(m, "_y");
    sp(m);
    l(m, "1_000u64");
    }
    _ if pr.b(17)? => {
    l(m, "=");
    sp(m);
    l(m, "(");
    sp(m);
    l(m, "..=");
    l(m, ",");
    sp(m);
    l(m, "a1");
    sp(m);
    l(m, ")");
    }
    _ => {
    l(m, "a1");
    if let Some(x) = pr.opt(19)? { m.lit(x); }
    sp(m);
    l(m, "[");
    sp(m);
    m.lit(pr.mc(20)?); sp(m); m.lit(pr.mc(21)?);
    l(m, ",");
    sp(m);
    { let x = pr.q(22)?; let y = pr.q(23)?; m.lit(x); m.lit(y); }
    l(m, "]");
    }
    }
    }
    }
    ce(m);
    l(m, " two");
    cq(m);
    }
    tln(m);
    l(m, "1_000u64");
    sp(m);
    m.lit(pr.q(24)?); sp(m); m.lit(pr.q(25)?);
    sp(m);
    m.lit(pr.q(26)?);
    Ok(())
}
fn real_29<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(quote!(x)) /* between */ $(let v2 = pr.q(1)?)$(quote!($("ä")))
        $(pr.multi(2)?) größe [
        ] a1{$[str]($[const]("con st") $$)}// note
        $(for v4 in pr.it(3)? join (, ) {
            $(match (pr.b(5)?, pr.n(6, 3)?) {
                (true, 0) => $(for v7 in pr.it(9)? {
                    $({ pr.mark(10)?; "blk" })$(ref _ => if pr.b(11)? { pr.mark(12)?; })	$(let mut v9 = pr.q(13)?)$(let v10 = pr.q(14)?) (
                    )
                })(),
                (false, v6) if v6 < 2 && pr.b(7)? => $(vec![pr.q(15)?, pr.q(16)?])identifier_identifier_identifier_identifier_end,
                (_, 1) | (true, _) => (	{}  $[str]($[const]("con st")$[const](pr.q(17)?))),
                _ if pr.b(8)? => $[str](1 + 2),
                (..) => $(pr.n(18, 9)?)$(pr.c(19))$(pr.multi(20)?),
            }) [$[str](plain)/**/$[str]($[const]("con st") one)$$  ] {
            }
        }) [
        ]
    }
    Ok(())
}
fn model_29(m: &mut MV, pr: &Pr) -> Flow {
    let mut s1 = MStream::<()>::default();
    {
    let m = &mut s1;
    l(m, "x");
    }
    m.add_all(&s1.items);
    sp(m);
    let v2 = pr.q(1)?;
    let mut s3 = MStream::<()>::default();
    {
    let m = &mut s3;
    l(m, "ä");
    }
    m.add_all(&s3.items);
    tp(m);
    pr.mmulti(2, m)?;
    sp(m);
    l(m, "größe");
    sp(m);
    l(m, "[");
    tp(m);
    l(m, "]");
    sp(m);
    l(m, "a1");
    l(m, "{");
    oq(m, false);
    l(m, "con st $");
    cq(m);
    l(m, "}");
    tp(m);
    {
    let mut it5 = pr.it(3)?;
    let mut step = || -> Flow<Option<String>> { it5.step() };
    let mut next = step()?;
    while let Some(v4) = next {
    {
    match (pr.b(5)?, pr.n(6, 3)?) {
    (true, 0) => {
    {
    let mut it8 = pr.it(9)?;
    let mut step = || -> Flow<Option<String>> { it8.step() };
    while let Some(v7) = step()? {
    pr.mark(10)?; l(m, "blk");
    if pr.b(11)? { pr.mark(12)?; }
    sp(m);
    let mut v9 = pr.q(13)?;
    let v10 = pr.q(14)?;
    sp(m);
    l(m, "(");
    tp(m);
    l(m, ")");
    }
    }
    l(m, "()");
    }
    (false, v6) if v6 < 2 && pr.b(7)? => {
    { let x = pr.q(15)?; let y = pr.q(16)?; m.lit(x); m.lit(y); }
    l(m, "identifier_identifier_identifier_identifier_end");
    }
    (_, 1) | (true, _) => {
    sp(m);
    l(m, "{}");
    sp(m);
    oq(m, false);
    l(m, "con st");
    m.lit(pr.q(17)?);
    cq(m);
    }
    _ if pr.b(8)? => {
    qs(m, "1 + 2");
    }
    (..) => {
    m.lit(pr.n(18, 9)?.to_string());
    m.lit(pr.mc(19)?);
    pr.mmulti(20, m)?;
    }
    }
    sp(m);
    l(m, "[");
    qs(m, "plain");
    sp(m);
    oq(m, false);
    l(m, "con st one");
    cq(m);
    l(m, "$");
    sp(m);
    l(m, "]");
    sp(m);
    l(m, "{");
    tp(m);
    l(m, "}");
    }
    next = step()?;
    if next.is_some() {
    {
    l(m, ",");
    sp(m);
    }
    }
    }
    }
    sp(m);
    l(m, "[");
    tp(m);
    l(m, "]");
    Ok(())
}
fn real_30<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        "lit"$(let v1 = pr.q(1)?) (
            $(quote!($(pr.q(2)?)7)) $[str](plain)$['\r'] ,
            $(pr.q(3)?.as_str())

            "lit"$[str]($$ $[const](pr.q(4)?)two$[const](pr.q(5)?)$(bar)$[const]("con st") one$name-$name- three) $(match pr.q(6)? { v3 => ($(pr.multi(7)?) $(match pr.n(8, 3)? { 0 | 2 => { foo $(pr.n(9, 9)?) } 1..=2 => $("ä"), v4 => ($(if let (Some(v5), _) = (pr.opt(10)?, pr.b(11)?) { {	$(Some(pr.q(12)?)) }	$(let v6 = pr.q(13)?)$[str](a b  c) } else { $(if pr.b(14)? { bar$(pr.q(15)?) /* between */ $(pr.n(16, 9)?) })	$("ver batim") }) ) })  $(match (pr.b(17)?, pr.q(18)?) { (_, v7) => ( $(if pr.b(19)? || !pr.b(20)? => $(pr.n(21, 9)?) /* between */ $(match pr.b(22)? { true | false => ($(&pr.q(23)?)) })) /* between */ ) })), })$(quote!($(for v10 in [pr.q(24)?, pr.q(25)?] { $(match pr.opt(26)? { Some(v13) => { $(&pr.q(27)?) } None => { $[' ']       $("ä") }, })$(if pr.b(28)? { $[str]($[const]("con st"))$(match pr.n(29, 6)? { 0 if pr.b(30)? => _y bar $({ if pr.b(33)? { "t" } else { "f" } }), 1 if pr.b(31)? => $(display(pr.n(34, 9)?)), 2 => $(pr.q(35)?) $(quoted(pr.q(36)?)) $(pr.c(37)) ("q\"uote" ||bar, _y), 3 if pr.b(32)? => foo$(pr.n(38, 9)?), v14 => { $(pr.multi(39)?) $(pr.q(40)?) }, }) } else { Self }) })))

        )
    }
    Ok(())
}
fn model_30(m: &mut MV, pr: &Pr) -> Flow {
    qs(m, "lit");
    let v1 = pr.q(1)?;
    sp(m);
    l(m, "(");
    tind(m);
    let mut s2 = MStream::<()>::default();
    {
    let m = &mut s2;
    m.lit(pr.q(2)?);
    l(m, "7");
    }
    m.add_all(&s2.items);
    sp(m);
    qs(m, "plain");
    p(m);
    sp(m);
    l(m, ",");
    tp(m);
    m.lit(pr.q(3)?);
    tln(m);
    qs(m, "lit");
    oq(m, true);
    l(m, "$ ");
    m.lit(pr.q(4)?);
    l(m, "two");
    m.lit(pr.q(5)?);
    oe(m);
    {
    l(m, "bar");
    }
    ce(m);
    l(m, "con st one");
    oe(m);
    l(m, "name");
    ce(m);
    l(m, "-");
    oe(m);
    l(m, "name");
    ce(m);
    l(m, "- three");
    cq(m);
    sp(m);
    match pr.q(6)? {
    v3 => {
    pr.mmulti(7, m)?;
    sp(m);
    match pr.n(8, 3)? {
    0 | 2 => {
    l(m, "foo");
    sp(m);
    m.lit(pr.n(9, 9)?.to_string());
    }
    1..=2 => {
    l(m, "ä");
    }
    v4 => {
    if let (Some(v5), _) = (pr.opt(10)?, pr.b(11)?) {
    l(m, "{");
    sp(m);
    m.lit(pr.q(12)?);
    sp(m);
    l(m, "}");
    sp(m);
    let v6 = pr.q(13)?;
    qs(m, "a b  c");
    } else {
    if pr.b(14)? {
    l(m, "bar");
    m.lit(pr.q(15)?);
    sp(m);
    m.lit(pr.n(16, 9)?.to_string());
    }
    sp(m);
    l(m, "ver batim");
    }
    sp(m);
    }
    }
    sp(m);
    match (pr.b(17)?, pr.q(18)?) {
    (_, v7) => {
    sp(m);
    if pr.b(19)? || !pr.b(20)? {
    m.lit(pr.n(21, 9)?.to_string());
    sp(m);
    match pr.b(22)? {
    true | false => {
    m.lit(pr.q(23)?);
    }
    }
    }
    sp(m);
    }
    }
    }
    }
    let mut s9 = MStream::<()>::default();
    {
    let m = &mut s9;
    {
    let mut it11 = [pr.q(24)?, pr.q(25)?].into_iter();
    let mut step = || -> Flow<Option<String>> { Ok(it11.next()) };
    while let Some(v10) = step()? {
    match pr.opt(26)? {
    Some(v13) => {
    m.lit(pr.q(27)?);
    }
    None => {
    sp(m);
    sp(m);
    l(m, "ä");
    }
    }
    if pr.b(28)? {
    oq(m, false);
    l(m, "con st");
    cq(m);
    match pr.n(29, 6)? {
    0 if pr.b(30)? => {
    l(m, "_y");
    sp(m);
    l(m, "bar");
    sp(m);
    l(m, if pr.b(33)? { "t" } else { "f" });
    }
    1 if pr.b(31)? => {
    m.lit(pr.n(34, 9)?.to_string());
    }
    2 => {
    m.lit(pr.q(35)?);
    sp(m);
    { let x = pr.q(36)?; oq(m, false); m.lit(x); cq(m); }
    sp(m);
    m.lit(pr.mc(37)?);
    sp(m);
    l(m, "(");
    qs(m, "q\"uote");
    sp(m);
    l(m, "||");
    l(m, "bar");
    l(m, ",");
    sp(m);
    l(m, "_y");
    l(m, ")");
    }
    3 if pr.b(32)? => {
    l(m, "foo");
    m.lit(pr.n(38, 9)?.to_string());
    }
    v14 => {
    pr.mmulti(39, m)?;
    sp(m);
    m.lit(pr.q(40)?);
    }
    }
    } else {
    l(m, "Self");
    }
    }
    }
    }
    m.add_all(&s9.items);
    tun(m);
    tln(m);
    l(m, ")");
    Ok(())
}
fn real_31<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(let mut v1 = pr.q(1)?) while
             $v1       $(display(pr.n(2, 9)?))       {
               ( $(ref _ => if pr.rare(3)? { return Err(Left::Return); })$$ $(quote!($(ref o3 { o3.append(pr.q(4)?); o3.space(); o3.append(pr.q(5)?); })))	) $['\r']
                    bar	$(for v4 in pr.it(6)? join ($(quote!($(let v7 = pr.q(7)?)       $(let v8 = pr.q(8)?)))) =>
                        $[str]($name-$[const]("con st") -$[const]("con st"))foo)
                      $(ref _ { pr.mark(9)?; })  $(ref _ => if pr.rare(10)? { return Err(Left::Return); })
                      [/**/$(quote!($['\n']while))( $[str](plain) $(" lead"))]
               $(from_fn(|t| { t.append(pr.c(11)); t.space(); t.append(pr.c(12)); }))
                $[str]($[const](pr.q(13)?) three$[const](pr.q(14)?)three$[const](pr.q(15)?)$name-$($(let v10 = pr.q(16)?))$[const](pr.q(17)?)$[const](pr.q(18)?)$name-)



                // between
             }
    }
    Ok(())
}
fn model_31(m: &mut MV, pr: &Pr) -> Flow {
    let mut v1 = pr.q(1)?;
    sp(m);
    l(m, "while");
    tind(m);
    m.lit(v1);
    sp(m);
    m.lit(pr.n(2, 9)?.to_string());
    sp(m);
    l(m, "{");
    tind(m);
    l(m, "(");
    sp(m);
    if pr.rare(3)? { return Err(Left::Return); }
    l(m, "$");
    sp(m);
    let mut s2 = MStream::<()>::default();
    {
    let m = &mut s2;
    m.lit(pr.q(4)?); sp(m); m.lit(pr.q(5)?);
    }
    m.add_all(&s2.items);
    sp(m);
    l(m, ")");
    sp(m);
    p(m);
    tind(m);
    l(m, "bar");
    sp(m);
    {
    let mut it5 = pr.it(6)?;
    let mut step = || -> Flow<Option<String>> { it5.step() };
    let mut next = step()?;
    while let Some(v4) = next {
    {
    oq(m, true);
    oe(m);
    l(m, "name");
    ce(m);
    l(m, "-con st -con st");
    cq(m);
    l(m, "foo");
    }
    next = step()?;
    if next.is_some() {
    {
    let mut s6 = MStream::<()>::default();
    {
    let m = &mut s6;
    let v7 = pr.q(7)?;
    sp(m);
    let v8 = pr.q(8)?;
    }
    m.add_all(&s6.items);
    }
    }
    }
    }
    tind(m);
    pr.mark(9)?;
    sp(m);
    if pr.rare(10)? { return Err(Left::Return); }
    tp(m);
    l(m, "[");
    sp(m);
    let mut s9 = MStream::<()>::default();
    {
    let m = &mut s9;
    ln(m);
    l(m, "while");
    }
    m.add_all(&s9.items);
    l(m, "(");
    sp(m);
    qs(m, "plain");
    sp(m);
    l(m, " lead");
    l(m, ")");
    l(m, "]");
    tun(m);
    tun(m);
    m.lit(pr.mc(11)?); sp(m); m.lit(pr.mc(12)?);
    tind(m);
    oq(m, true);
    m.lit(pr.q(13)?);
    l(m, " three");
    m.lit(pr.q(14)?);
    l(m, "three");
    m.lit(pr.q(15)?);
    oe(m);
    l(m, "name");
    ce(m);
    l(m, "-");
    oe(m);
    {
    let v10 = pr.q(16)?;
    }
    ce(m);
    m.lit(pr.q(17)?);
    m.lit(pr.q(18)?);
    oe(m);
    l(m, "name");
    ce(m);
    l(m, "-");
    cq(m);
    tun(m);
    tln(m);
    tun(m);
    tln(m);
    l(m, "}");
    tend(m);
    Ok(())
}
fn real_32<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        0x1F$(match pr.opt(1)? {
            Some(v2) => { $v2 }
            None => { $(quote!(Self)) },
        })
        $(quote! {
            ->	$(ref _ { pr.mark(2)?; })
               {$(let v5 = pr.q(3)?) /* between */ }$(let (v6, v7) = (pr.q(4)?, pr.n(5, 9)?)) $(let v8 = pr.n(6, 9)?)   
            x  a1$(let mut v9 = pr.q(7)?) [
                 {, {$({ if pr.b(11)? { "t" } else { "f" } }) {$$ [while [$(Some(pr.q(9)?)) [$$ $("ver batim") $(pr.multi(8)?)] $(pr.q(10)?.as_str())] ,] $$} $$} $$}$(match pr.n(12, 5)? {
                     _ if pr.b(13)? => $(for v11 in pr.it(14)? => $(ref o13 { if pr.b(15)? { quote_in!(*o13 => $(pr.multi(16)?)); } o13.push(); })$(if pr.n(17, 3)? == 1 =>
                         "q\"uote" while "lit")) ($v6, $("ä")$(ref o14 => quote_in!(*o14 => $(pr.multi(19)?)$(Some(pr.q(20)?))))),
                     v10 => $[str]($[const]("con st")$name-$[const]("con st"))
                 })$(match pr.n(21, 3)? {
                     0 | 2 => $(match pr.opt(22)? { Some(v15) if v15.is_empty() || pr.b(23)? => $(&pr.q(24)?) (_y /* between */ 1_000u64	$({ pr.mark(25)?; "blk" }), x$(pr.multi(26)?)), Some(v16) => (       $(for v17 in pr.it(27)? => =)$(if pr.b(28)? => $(quoted(pr.q(29)?)))$(pr.q(30)?) ), _ => $(let v19 = pr.q(31)?) $[str](-$("q\"uote"/**/a1.)three three$[const](pr.q(32)?) - three$name- three$($({ pr.mark(33)?; "blk" }))$[const](pr.q(34)?)$$)Self {& /* between */ "q\"uote"$(display(pr.n(35, 9)?))., 1_000u64       }, })Self,
                     1 | 3 => {},
                     _ => { $v8 }
                 })$(quoted(quote! {
                     $(v7) [
                         $(display(pr.n(36, 9)?))/**/[
                         // between
                         // between
                     
                     
                             1.5 +	_y
                         ]
                     ]
                 }))
            ]
        })$(pr.multi(37)?)$(pr.q(38)?)$(pr.multi(39)?)

          Self
    }
    Ok(())
}
fn model_32(m: &mut MV, pr: &Pr) -> Flow {
    l(m, "0x1F");
    match pr.opt(1)? {
    Some(v2) => {
    m.lit(v2);
    }
    None => {
    let mut s3 = MStream::<()>::default();
    {
    let m = &mut s3;
    l(m, "Self");
    }
    m.add_all(&s3.items);
    }
    }
    tp(m);
    let mut s4 = MStream::<()>::default();
    {
    let m = &mut s4;
    l(m, "->");
    sp(m);
    pr.mark(2)?;
    tind(m);
    l(m, "{");
    let v5 = pr.q(3)?;
    sp(m);
    l(m, "}");
    let (v6, v7) = (pr.q(4)?, pr.n(5, 9)?);
    sp(m);
    let v8 = pr.n(6, 9)?;
    tun(m);
    l(m, "x");
    sp(m);
    l(m, "a1");
    let mut v9 = pr.q(7)?;
    sp(m);
    l(m, "[");
    tind(m);
    l(m, "{");
    l(m, ",");
    sp(m);
    l(m, "{");
    l(m, if pr.b(11)? { "t" } else { "f" });
    sp(m);
    l(m, "{");
    l(m, "$");
    sp(m);
    l(m, "[");
    l(m, "while");
    sp(m);
    l(m, "[");
    m.lit(pr.q(9)?);
    sp(m);
    l(m, "[");
    l(m, "$");
    sp(m);
    l(m, "ver batim");
    sp(m);
    pr.mmulti(8, m)?;
    l(m, "]");
    sp(m);
    m.lit(pr.q(10)?);
    l(m, "]");
    sp(m);
    l(m, ",");
    l(m, "]");
    sp(m);
    l(m, "$");
    l(m, "}");
    sp(m);
    l(m, "$");
    l(m, "}");
    sp(m);
    l(m, "$");
    l(m, "}");
    match pr.n(12, 5)? {
    _ if pr.b(13)? => {
    {
    let mut it12 = pr.it(14)?;
    let mut step = || -> Flow<Option<String>> { it12.step() };
    while let Some(v11) = step()? {
    if pr.b(15)? {
    pr.mmulti(16, m)?;
    }
    p(m);
    if pr.n(17, 3)? == 1 {
    qs(m, "q\"uote");
    sp(m);
    l(m, "while");
    sp(m);
    qs(m, "lit");
    }
    }
    }
    sp(m);
    l(m, "(");
    m.lit(v6);
    l(m, ",");
    sp(m);
    l(m, "ä");
    {
    pr.mmulti(19, m)?;
    m.lit(pr.q(20)?);
    }
    l(m, ")");
    }
    v10 => {
    oq(m, true);
    l(m, "con st");
    oe(m);
    l(m, "name");
    ce(m);
    l(m, "-con st");
    cq(m);
    }
    }
    match pr.n(21, 3)? {
    0 | 2 => {
    match pr.opt(22)? {
    Some(v15) if v15.is_empty() || pr.b(23)? => {
    m.lit(pr.q(24)?);
    sp(m);
    l(m, "(");
    l(m, "_y");
    sp(m);
    l(m, "1_000u64");
    sp(m);
    pr.mark(25)?; l(m, "blk");
    l(m, ",");
    sp(m);
    l(m, "x");
    pr.mmulti(26, m)?;
    l(m, ")");
    }
    Some(v16) => {
    sp(m);
    {
    let mut it18 = pr.it(27)?;
    let mut step = || -> Flow<Option<String>> { it18.step() };
    while let Some(v17) = step()? {
    l(m, "=");
    }
    }
    if pr.b(28)? {
    { let x = pr.q(29)?; oq(m, false); m.lit(x); cq(m); }
    }
    m.lit(pr.q(30)?);
    sp(m);
    }
    _ => {
    let v19 = pr.q(31)?;
    sp(m);
    oq(m, true);
    l(m, "-");
    oe(m);
    {
    qs(m, "q\"uote");
    sp(m);
    l(m, "a1");
    l(m, ".");
    }
    ce(m);
    l(m, "three three");
    m.lit(pr.q(32)?);
    l(m, " - three");
    oe(m);
    l(m, "name");
    ce(m);
    l(m, "- three");
    oe(m);
    {
    pr.mark(33)?; l(m, "blk");
    }
    ce(m);
    m.lit(pr.q(34)?);
    l(m, "$");
    cq(m);
    l(m, "Self");
    sp(m);
    l(m, "{");
    l(m, "&");
    sp(m);
    qs(m, "q\"uote");
    m.lit(pr.n(35, 9)?.to_string());
    l(m, ".");
    l(m, ",");
    sp(m);
    l(m, "1_000u64");
    sp(m);
    l(m, "}");
    }
    }
    l(m, "Self");
    }
    1 | 3 => {
    }
    _ => {
    m.lit(v8.to_string());
    }
    }
    let mut s20 = MStream::<()>::default();
    {
    let m = &mut s20;
    m.lit(v7.to_string());
    sp(m);
    l(m, "[");
    tind(m);
    m.lit(pr.n(36, 9)?.to_string());
    sp(m);
    l(m, "[");
    tind(m);
    tln(m);
    l(m, "1.5");
    sp(m);
    l(m, "+");
    sp(m);
    l(m, "_y");
    tun(m);
    l(m, "]");
    tun(m);
    l(m, "]");
    }
    oq(m, false);
    m.add_all(&s20.items);
    cq(m);
    tun(m);
    l(m, "]");
    }
    m.add_all(&s4.items);
    pr.mmulti(37, m)?;
    m.lit(pr.q(38)?);
    pr.mmulti(39, m)?;
    tind(m);
    tln(m);
    l(m, "Self");
    tend(m);
    Ok(())
}
fn real_33<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(let mut v1 = pr.q(1)?) [
        // between



        ]	$(match pr.opt(2)? { Some(v3) => $(for v4 in pr.it(3)? { $(ref o6 { o6.append(pr.q(4)?); o6.space(); o6.append(pr.q(5)?); })$(match pr.opt(6)? { Some(v8) => $(pr.n(7, 9)?)       $(match (pr.b(8)?, pr.n(9, 3)?) { (true, 0) => { =>  $(vec![pr.q(10)?, pr.q(11)?])  $(vec![pr.q(12)?, pr.q(13)?]) }, (..) => (       $(&pr.q(14)?) "two words" bar ) }) $(" lead") [$(pr.multi(15)?)$(pr.opt(16)?), _y], _ => $(pr.n(17, 9)?), }) })$(let v10 = pr.q(18)?)größe ($v1, Self$(for v11 in pr.it(19)? { $(match pr.n(20, 8)? { 0 | 20 => x, 1 => { $(pr.c(23))$({ if pr.b(24)? { "t" } else { "f" } }) }, 2 if pr.b(21)? => ..= (a1 $(Some(pr.q(25)?))0x1F, $(Some(pr.q(26)?))), 3 | 23 => ( while), 4 if pr.b(22)? => ($({ pr.mark(27)?; "blk" })$$ ), 5 | 25 => $(pr.opt(28)?) ( /* between */ $({ pr.mark(29)?; "blk" }) "lit"$(pr.q(30)?)/**/x, $({ if pr.b(31)? { "t" } else { "f" } }) ), _ => (.$(vec![pr.q(32)?, pr.q(33)?])$(quoted(pr.q(34)?)) ), }) })), _ => $(let v13 = pr.q(35)?) $("ä") $$ }) [
         ;
           $$ $(quoted(pr.q(36)?))

             $[str]($$one$name-)

             $[str]($name-)/**/$(vec![pr.q(37)?, pr.q(38)?])
        ]
    }
    Ok(())
}
fn model_33(m: &mut MV, pr: &Pr) -> Flow {
    let mut v1 = pr.q(1)?;
    sp(m);
    l(m, "[");
    tln(m);
    l(m, "]");
    sp(m);
    match pr.opt(2)? {
    Some(v3) => {
    {
    let mut it5 = pr.it(3)?;
    let mut step = || -> Flow<Option<String>> { it5.step() };
    while let Some(v4) = step()? {
    m.lit(pr.q(4)?); sp(m); m.lit(pr.q(5)?);
    match pr.opt(6)? {
    Some(v8) => {
    m.lit(pr.n(7, 9)?.to_string());
    sp(m);
    match (pr.b(8)?, pr.n(9, 3)?) {
    (true, 0) => {
    l(m, "=>");
    sp(m);
    { let x = pr.q(10)?; let y = pr.q(11)?; m.lit(x); m.lit(y); }
    sp(m);
    { let x = pr.q(12)?; let y = pr.q(13)?; m.lit(x); m.lit(y); }
    }
    (..) => {
    sp(m);
    m.lit(pr.q(14)?);
    sp(m);
    qs(m, "two words");
    sp(m);
    l(m, "bar");
    sp(m);
    }
    }
    sp(m);
    l(m, " lead");
    sp(m);
    l(m, "[");
    pr.mmulti(15, m)?;
    if let Some(x) = pr.opt(16)? { m.lit(x); }
    l(m, ",");
    sp(m);
    l(m, "_y");
    l(m, "]");
    }
    _ => {
    m.lit(pr.n(17, 9)?.to_string());
    }
    }
    }
    }
    let v10 = pr.q(18)?;
    l(m, "größe");
    sp(m);
    l(m, "(");
    m.lit(v1);
    l(m, ",");
    sp(m);
    l(m, "Self");
    {
    let mut it12 = pr.it(19)?;
    let mut step = || -> Flow<Option<String>> { it12.step() };
    while let Some(v11) = step()? {
    match pr.n(20, 8)? {
    0 | 20 => {
    l(m, "x");
    }
    1 => {
    m.lit(pr.mc(23)?);
    l(m, if pr.b(24)? { "t" } else { "f" });
    }
    2 if pr.b(21)? => {
    l(m, "..=");
    sp(m);
    l(m, "(");
    l(m, "a1");
    sp(m);
    m.lit(pr.q(25)?);
    l(m, "0x1F");
    l(m, ",");
    sp(m);
    m.lit(pr.q(26)?);
    l(m, ")");
    }
    3 | 23 => {
    sp(m);
    l(m, "while");
    }
    4 if pr.b(22)? => {
    pr.mark(27)?; l(m, "blk");
    l(m, "$");
    sp(m);
    }
    5 | 25 => {
    if let Some(x) = pr.opt(28)? { m.lit(x); }
    sp(m);
    l(m, "(");
    sp(m);
    pr.mark(29)?; l(m, "blk");
    sp(m);
    qs(m, "lit");
    m.lit(pr.q(30)?);
    sp(m);
    l(m, "x");
    l(m, ",");
    sp(m);
    l(m, if pr.b(31)? { "t" } else { "f" });
    sp(m);
    l(m, ")");
    }
    _ => {
    l(m, ".");
    { let x = pr.q(32)?; let y = pr.q(33)?; m.lit(x); m.lit(y); }
    { let x = pr.q(34)?; oq(m, false); m.lit(x); cq(m); }
    sp(m);
    }
    }
    }
    }
    l(m, ")");
    }
    _ => {
    let v13 = pr.q(35)?;
    sp(m);
    l(m, "ä");
    sp(m);
    l(m, "$");
    }
    }
    sp(m);
    l(m, "[");
    tind(m);
    l(m, ";");
    tind(m);
    l(m, "$");
    sp(m);
    { let x = pr.q(36)?; oq(m, false); m.lit(x); cq(m); }
    tind(m);
    tln(m);
    oq(m, true);
    l(m, "$one");
    oe(m);
    l(m, "name");
    ce(m);
    l(m, "-");
    cq(m);
    tln(m);
    oq(m, true);
    oe(m);
    l(m, "name");
    ce(m);
    l(m, "-");
    cq(m);
    sp(m);
    { let x = pr.q(37)?; let y = pr.q(38)?; m.lit(x); m.lit(y); }
    tun(m);
    tun(m);
    tun(m);
    l(m, "]");
    Ok(())
}
fn real_34<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(quoted(quote!($({ pr.mark(1)?; "blk" })$(if let (Some(v2), _) = (pr.opt(2)?, pr.b(3)?) { $(v2.as_str()) } else { $(let v3 = pr.q(4)?)$(ref _ => if pr.rare(5)? { return Err(Left::Return); }) }))))$[str]($[const]("con st")$[const]("con st"))$(match pr.n(6, 3)? { 0 => $(let v5 = pr.q(7)?)$(ref _ => if pr.b(8)? { pr.mark(9)?; }), v4 => {} })
    }
    Ok(())
}
fn model_34(m: &mut MV, pr: &Pr) -> Flow {
    let mut s1 = MStream::<()>::default();
    {
    let m = &mut s1;
    pr.mark(1)?; l(m, "blk");
    if let (Some(v2), _) = (pr.opt(2)?, pr.b(3)?) {
    m.lit(v2.clone());
    } else {
    let v3 = pr.q(4)?;
    if pr.rare(5)? { return Err(Left::Return); }
    }
    }
    oq(m, false);
    m.add_all(&s1.items);
    cq(m);
    oq(m, false);
    l(m, "con stcon st");
    cq(m);
    match pr.n(6, 3)? {
    0 => {
    let v5 = pr.q(7)?;
    if pr.b(8)? { pr.mark(9)?; }
    }
    v4 => {
    }
    }
    Ok(())
}
fn real_35<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(ref o1 => quote_in!(*o1 => $(ref o2 { o2.append(pr.q(2)?); o2.space(); o2.append(pr.q(3)?); })$(ref _ { pr.mark(4)?; })[ [x       $(quoted(pr.q(5)?))]$['\r'] $(if let (Some(v3), _) = (pr.opt(6)?, pr.b(7)?) {}) ])) [$(for v4 in pr.opt(8)? join (	$['\n'] $[str](1 + 2)) =>
            $(match (pr.b(9)?, pr.n(10, 3)?) {
                (true, 0) => $(for v7 in [pr.q(11)?, pr.q(12)?] =>
                    while/**/$({ if pr.b(13)? { "t" } else { "f" } })foo $(display(pr.n(14, 9)?))while
                    $(&pr.q(15)?)$(display(pr.n(16, 9)?))){x {$(pr.opt(18)?) {"lit" $("ver batim") $(pr.n(17, 9)?)} nameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameame} _y} { .x,, $(from_fn(|t| { t.append(pr.c(19)); t.space(); t.append(pr.c(20)); })) },
                _ => {}
            })$(pr.q(21)?) <<=  7
              $[str](three$name-$($(ref o9 { if pr.b(22)? { quote_in!(*o9 => a1); } o9.push(); }) $(display(pr.n(23, 9)?))) one$[const](pr.q(24)?)$[const](pr.q(25)?) three$name- -$[const]("con st")$[const](pr.q(26)?))	(
              )) $[str](1 + 2)$(display(pr.n(27, 9)?))]$(&quote!(bar))
    }
    Ok(())
}
fn model_35(m: &mut MV, pr: &Pr) -> Flow {
    {
    m.lit(pr.q(2)?); sp(m); m.lit(pr.q(3)?);
    pr.mark(4)?;
    l(m, "[");
    sp(m);
    l(m, "[");
    l(m, "x");
    sp(m);
    { let x = pr.q(5)?; oq(m, false); m.lit(x); cq(m); }
    l(m, "]");
    p(m);
    sp(m);
    if let (Some(v3), _) = (pr.opt(6)?, pr.b(7)?) {
    }
    sp(m);
    l(m, "]");
    }
    sp(m);
    l(m, "[");
    {
    let mut it5 = pr.opt(8)?.into_iter();
    let mut step = || -> Flow<Option<String>> { Ok(it5.next()) };
    let mut next = step()?;
    while let Some(v4) = next {
    {
    match (pr.b(9)?, pr.n(10, 3)?) {
    (true, 0) => {
    {
    let mut it8 = [pr.q(11)?, pr.q(12)?].into_iter();
    let mut step = || -> Flow<Option<String>> { Ok(it8.next()) };
    while let Some(v7) = step()? {
    l(m, "while");
    sp(m);
    l(m, if pr.b(13)? { "t" } else { "f" });
    l(m, "foo");
    sp(m);
    m.lit(pr.n(14, 9)?.to_string());
    l(m, "while");
    tp(m);
    m.lit(pr.q(15)?);
    m.lit(pr.n(16, 9)?.to_string());
    }
    }
    l(m, "{");
    l(m, "x");
    sp(m);
    l(m, "{");
    if let Some(x) = pr.opt(18)? { m.lit(x); }
    sp(m);
    l(m, "{");
    qs(m, "lit");
    sp(m);
    l(m, "ver batim");
    sp(m);
    m.lit(pr.n(17, 9)?.to_string());
    l(m, "}");
    sp(m);
    l(m, "nameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameame");
    l(m, "}");
    sp(m);
    l(m, "_y");
    l(m, "}");
    sp(m);
    l(m, "{");
    sp(m);
    l(m, ".");
    l(m, "x");
    l(m, ",");
    l(m, ",");
    sp(m);
    m.lit(pr.mc(19)?); sp(m); m.lit(pr.mc(20)?);
    sp(m);
    l(m, "}");
    }
    _ => {
    }
    }
    m.lit(pr.q(21)?);
    sp(m);
    l(m, "<<=");
    sp(m);
    l(m, "7");
    tind(m);
    oq(m, true);
    l(m, "three");
    oe(m);
    l(m, "name");
    ce(m);
    l(m, "-");
    oe(m);
    {
    if pr.b(22)? {
    l(m, "a1");
    }
    p(m);
    sp(m);
    m.lit(pr.n(23, 9)?.to_string());
    }
    ce(m);
    l(m, " one");
    m.lit(pr.q(24)?);
    m.lit(pr.q(25)?);
    l(m, " three");
    oe(m);
    l(m, "name");
    ce(m);
    l(m, "- -con st");
    m.lit(pr.q(26)?);
    cq(m);
    sp(m);
    l(m, "(");
    tp(m);
    l(m, ")");
    tend(m);
    }
    next = step()?;
    if next.is_some() {
    {
    sp(m);
    ln(m);
    sp(m);
    qs(m, "1 + 2");
    }
    }
    }
    }
    sp(m);
    qs(m, "1 + 2");
    m.lit(pr.n(27, 9)?.to_string());
    l(m, "]");
    let mut s10 = MStream::<()>::default();
    {
    let m = &mut s10;
    l(m, "bar");
    }
    m.add_all(&s10.items);
    Ok(())
}
fn real_36<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(ref o1 { if pr.rare(1)? { o1.append(pr.q(2)?); return Err(Left::Return); } })  $(match pr.n(3, 3)? { v2 if v2 > 0 && pr.b(4)? => { $(pr.multi(5)?) }, v3 => { $(pr.opt(6)?)$(ref _ => if pr.b(7)? { pr.mark(8)?; }) } })$({ if pr.b(9)? { "t" } else { "f" } })
    }
    Ok(())
}
fn model_36(m: &mut MV, pr: &Pr) -> Flow {
    if pr.rare(1)? { m.lit(pr.q(2)?); return Err(Left::Return); }
    sp(m);
    match pr.n(3, 3)? {
    v2 if v2 > 0 && pr.b(4)? => {
    pr.mmulti(5, m)?;
    }
    v3 => {
    if let Some(x) = pr.opt(6)? { m.lit(x); }
    if pr.b(7)? { pr.mark(8)?; }
    }
    }
    l(m, if pr.b(9)? { "t" } else { "f" });
    Ok(())
}
fn real_37<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        x{bar$(pr.multi(1)?)	} while
        $(for _ in pr.it(2)? join ( $(if let Some(v3) = pr.opt(3)? { $$       $(if let (Some(v4), _) = (pr.opt(5)?, pr.b(6)?) { $[str]($[const](pr.q(7)?)$("q\"uote"$(display(pr.n(8, 9)?)))$[const]("con st")) $({ pr.mark(9)?; "blk" }) } else { $(let mut v5 = pr.q(10)?) $(v3.clone()) })$(&quote!($(for (i9, v7) in pr.it(11)?.enumerate() join ($(Some(pr.q(12)?))) { x }))) }) $[str]($name- -)) {})	$(pr.opt(13)?) $(let mut v10 = pr.q(14)?)/**/[
            $(ref o11 { o11.append(pr.q(15)?); o11.space(); o11.append(pr.q(16)?); })$(Some(pr.q(17)?)) "lit"       foo
        ]
    }
    Ok(())
}
fn model_37(m: &mut MV, pr: &Pr) -> Flow {
    l(m, "x");
    l(m, "{");
    l(m, "bar");
    pr.mmulti(1, m)?;
    sp(m);
    l(m, "}");
    sp(m);
    l(m, "while");
    tp(m);
    {
    let mut it2 = pr.it(2)?;
    let mut step = || -> Flow<Option<String>> { it2.step() };
    let mut next = step()?;
    while let Some(_) = next {
    {
    }
    next = step()?;
    if next.is_some() {
    {
    sp(m);
    if let Some(v3) = pr.opt(3)? {
    l(m, "$");
    sp(m);
    if let (Some(v4), _) = (pr.opt(5)?, pr.b(6)?) {
    oq(m, true);
    m.lit(pr.q(7)?);
    oe(m);
    {
    qs(m, "q\"uote");
    m.lit(pr.n(8, 9)?.to_string());
    }
    ce(m);
    l(m, "con st");
    cq(m);
    sp(m);
    pr.mark(9)?; l(m, "blk");
    } else {
    let mut v5 = pr.q(10)?;
    sp(m);
    m.lit(v3.clone());
    }
    let mut s6 = MStream::<()>::default();
    {
    let m = &mut s6;
    {
    let mut it8 = pr.it(11)?;
    let mut at = 0u64;
    let mut step = || -> Flow<Option<(u64, String)>> { let x = it8.step()?; at += 1; Ok(x.map(|x| (at - 1, x))) };
    let mut next = step()?;
    while let Some((i9, v7)) = next {
    {
    l(m, "x");
    }
    next = step()?;
    if next.is_some() {
    {
    m.lit(pr.q(12)?);
    }
    }
    }
    }
    }
    m.add_all(&s6.items);
    }
    sp(m);
    oq(m, true);
    oe(m);
    l(m, "name");
    ce(m);
    l(m, "- -");
    cq(m);
    }
    }
    }
    }
    sp(m);
    if let Some(x) = pr.opt(13)? { m.lit(x); }
    sp(m);
    let mut v10 = pr.q(14)?;
    sp(m);
    l(m, "[");
    tind(m);
    m.lit(pr.q(15)?); sp(m); m.lit(pr.q(16)?);
    m.lit(pr.q(17)?);
    sp(m);
    qs(m, "lit");
    sp(m);
    l(m, "foo");
    tun(m);
    l(m, "]");
    Ok(())
}
fn real_38<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        while & (
        )
        $(if pr.b(1)? && pr.b(2)? => $(for v1 in pr.it(3)?.filter(|_| pr.cb(4)) join (, ) => $['\n']$(ref o3 => quote_in!(*o3 => $(let (v4, v5) = (pr.q(7)?, pr.n(8, 9)?)))))$(match pr.n(9, 9)? {
            v6 => { $[str]($$ $($(for v7 in [pr.q(10)?, pr.q(11)?] join (, ) { "lit" }))$$) $(for v9 in pr.it(14)? join ([/**/$(format!("<{}>", pr.q(15)?))]$({ if pr.b(16)? { "t" } else { "f" } }) ) => $$ $(pr.opt(17)?)) }
        })$(from_fn(|t| { t.append(pr.c(18)); t.space(); t.append(pr.c(19)); }))) Self$(ref o11 { if pr.rare(20)? { o11.append(pr.q(21)?); return Err(Left::Return); } })
    }
    Ok(())
}
fn model_38(m: &mut MV, pr: &Pr) -> Flow {
    l(m, "while");
    sp(m);
    l(m, "&");
    sp(m);
    l(m, "(");
    tp(m);
    l(m, ")");
    tp(m);
    if pr.b(1)? && pr.b(2)? {
    {
    let mut it2 = pr.it(3)?;
    let mut step = || -> Flow<Option<String>> { while let Some(x) = it2.step()? { if pr.mcb(4)? { return Ok(Some(x)); } } Ok(None) };
    let mut next = step()?;
    while let Some(v1) = next {
    {
    ln(m);
    {
    let (v4, v5) = (pr.q(7)?, pr.n(8, 9)?);
    }
    }
    next = step()?;
    if next.is_some() {
    {
    l(m, ",");
    sp(m);
    }
    }
    }
    }
    match pr.n(9, 9)? {
    v6 => {
    oq(m, true);
    l(m, "$ ");
    oe(m);
    {
    {
    let mut it8 = [pr.q(10)?, pr.q(11)?].into_iter();
    let mut step = || -> Flow<Option<String>> { Ok(it8.next()) };
    let mut next = step()?;
    while let Some(v7) = next {
    {
    qs(m, "lit");
    }
    next = step()?;
    if next.is_some() {
    {
    l(m, ",");
    sp(m);
    }
    }
    }
    }
    }
    ce(m);
    l(m, "$");
    cq(m);
    sp(m);
    {
    let mut it10 = pr.it(14)?;
    let mut step = || -> Flow<Option<String>> { it10.step() };
    let mut next = step()?;
    while let Some(v9) = next {
    {
    l(m, "$");
    sp(m);
    if let Some(x) = pr.opt(17)? { m.lit(x); }
    }
    next = step()?;
    if next.is_some() {
    {
    l(m, "[");
    sp(m);
    m.lit(format!("<{}>", pr.q(15)?));
    l(m, "]");
    l(m, if pr.b(16)? { "t" } else { "f" });
    sp(m);
    }
    }
    }
    }
    }
    }
    m.lit(pr.mc(18)?); sp(m); m.lit(pr.mc(19)?);
    }
    sp(m);
    l(m, "Self");
    if pr.rare(20)? { m.lit(pr.q(21)?); return Err(Left::Return); }
    Ok(())
}
fn real_39<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        {$[str](a b  c)       }	$(if let Some(v1) = pr.opt(1)? {
            $(for v2 in pr.it(3)?.filter(|_| pr.cb(4)) join (, ) {
                while
                
                
                    $(ref _ => if pr.rare(7)? { return Err(Left::Return); })x/**/$(match pr.n(8, 6)? {
                        0 | 20 => {}
                        1 => bar$$ $(pr.q(10)?) {while       0x1F	0x1F $$, x},
                        2 => { foo /* between */ "lit"	a1 }
                        3 => || [Self a1 a1  $(pr.multi(11)?), while],
                        v4 if v4 == 4 && pr.b(9)? => { $(from_fn(|t| { t.append(pr.c(12)); t.space(); t.append(pr.c(13)); })) a1 }
                        v5 => ( $("ver batim")       ),
                    }) $(ref o6 {
                        for _ in 0..pr.n(14, 3)? {
                            quote_in! { *o6 =>
                                $[str](plain)
                                while
                                $(pr.q(15)?)	$(ref _ => if pr.rare(16)? { continue; })$(for v7 in pr.it(17)?.filter(|_| pr.cb(18)) =>
                                    $(pr.q(19)?.as_str())$({ pr.mark(20)?; "blk" }))$['\n']
                                
                                  $[str](plain)$(ref _ { pr.mark(21)?; })$(display(pr.n(22, 9)?))/**/$(ref _ => if pr.rare(23)? { break; })/**/[ // note
                                  ]
                            }
                            o6.line();
                        }
                    })
                $(ref o9 { if pr.b(24)? { quote_in!(*o9 => $(for v10 in pr.it(25)? => =$(display(pr.n(26, 9)?))1.5)); } o9.push(); })$({ pr.mark(27)?; "blk" })$(for v12 in 0..pr.n(28, 4)? join ( $(pr.opt(29)?)$(for v14 in pr.it(30)? { while  x }) ) => $(pr.c(31)) $[str](a b  c)$(ref o16 => quote_in!(*o16 => _y $(pr.opt(33)?)"lit")))
                bar
            })$(pr.c(34))bar$(pr.q(35)?.as_str())
            =$(pr.c(36)) _y Self/**/( // note
            // between
            
                       <<= =>       [
                       ] $(pr.q(37)?)/**/{
                       }
            )
        })$(display(pr.n(38, 9)?)); (
        ) $(pr.n(39, 9)?)$(pr.q(40)?)&
    }
    Ok(())
}
fn model_39(m: &mut MV, pr: &Pr) -> Flow {
    l(m, "{");
    qs(m, "a b  c");
    sp(m);
    l(m, "}");
    sp(m);
    if let Some(v1) = pr.opt(1)? {
    {
    let mut it3 = pr.it(3)?;
    let mut step = || -> Flow<Option<String>> { while let Some(x) = it3.step()? { if pr.mcb(4)? { return Ok(Some(x)); } } Ok(None) };
    let mut next = step()?;
    while let Some(v2) = next {
    {
    l(m, "while");
    tind(m);
    tln(m);
    if pr.rare(7)? { return Err(Left::Return); }
    l(m, "x");
    sp(m);
    match pr.n(8, 6)? {
    0 | 20 => {
    }
    1 => {
    l(m, "bar");
    l(m, "$");
    sp(m);
    m.lit(pr.q(10)?);
    sp(m);
    l(m, "{");
    l(m, "while");
    sp(m);
    l(m, "0x1F");
    sp(m);
    l(m, "0x1F");
    sp(m);
    l(m, "$");
    l(m, ",");
    sp(m);
    l(m, "x");
    l(m, "}");
    }
    2 => {
    l(m, "foo");
    sp(m);
    qs(m, "lit");
    sp(m);
    l(m, "a1");
    }
    3 => {
    l(m, "||");
    sp(m);
    l(m, "[");
    l(m, "Self");
    sp(m);
    l(m, "a1");
    sp(m);
    l(m, "a1");
    sp(m);
    pr.mmulti(11, m)?;
    l(m, ",");
    sp(m);
    l(m, "while");
    l(m, "]");
    }
    v4 if v4 == 4 && pr.b(9)? => {
    m.lit(pr.mc(12)?); sp(m); m.lit(pr.mc(13)?);
    sp(m);
    l(m, "a1");
    }
    v5 => {
    sp(m);
    l(m, "ver batim");
    sp(m);
    }
    }
    sp(m);
    for _ in 0..pr.n(14, 3)? {
    qs(m, "plain");
    tp(m);
    l(m, "while");
    tp(m);
    m.lit(pr.q(15)?);
    sp(m);
    if pr.rare(16)? { continue; }
    {
    let mut it8 = pr.it(17)?;
    let mut step = || -> Flow<Option<String>> { while let Some(x) = it8.step()? { if pr.mcb(18)? { return Ok(Some(x)); } } Ok(None) };
    while let Some(v7) = step()? {
    m.lit(pr.q(19)?);
    pr.mark(20)?; l(m, "blk");
    }
    }
    ln(m);
    tind(m);
    tln(m);
    qs(m, "plain");
    pr.mark(21)?;
    m.lit(pr.n(22, 9)?.to_string());
    sp(m);
    if pr.rare(23)? { break; }
    sp(m);
    l(m, "[");
    tp(m);
    l(m, "]");
    tend(m);
    ln(m);
    }
    tun(m);
    if pr.b(24)? {
    {
    let mut it11 = pr.it(25)?;
    let mut step = || -> Flow<Option<String>> { it11.step() };
    while let Some(v10) = step()? {
    l(m, "=");
    m.lit(pr.n(26, 9)?.to_string());
    l(m, "1.5");
    }
    }
    }
    p(m);
    pr.mark(27)?; l(m, "blk");
    {
    let mut it13 = 0..pr.n(28, 4)?;
    let mut step = || -> Flow<Option<u64>> { Ok(it13.next()) };
    let mut next = step()?;
    while let Some(v12) = next {
    {
    m.lit(pr.mc(31)?);
    sp(m);
    qs(m, "a b  c");
    {
    l(m, "_y");
    sp(m);
    if let Some(x) = pr.opt(33)? { m.lit(x); }
    qs(m, "lit");
    }
    }
    next = step()?;
    if next.is_some() {
    {
    sp(m);
    if let Some(x) = pr.opt(29)? { m.lit(x); }
    {
    let mut it15 = pr.it(30)?;
    let mut step = || -> Flow<Option<String>> { it15.step() };
    while let Some(v14) = step()? {
    l(m, "while");
    sp(m);
    l(m, "x");
    }
    }
    sp(m);
    }
    }
    }
    }
    tp(m);
    l(m, "bar");
    }
    next = step()?;
    if next.is_some() {
    {
    l(m, ",");
    sp(m);
    }
    }
    }
    }
    m.lit(pr.mc(34)?);
    l(m, "bar");
    m.lit(pr.q(35)?);
    tp(m);
    l(m, "=");
    m.lit(pr.mc(36)?);
    sp(m);
    l(m, "_y");
    sp(m);
    l(m, "Self");
    sp(m);
    l(m, "(");
    tind(m);
    tln(m);
    l(m, "<<=");
    sp(m);
    l(m, "=>");
    sp(m);
    l(m, "[");
    tp(m);
    l(m, "]");
    sp(m);
    m.lit(pr.q(37)?);
    sp(m);
    l(m, "{");
    tp(m);
    l(m, "}");
    tun(m);
    l(m, ")");
    }
    m.lit(pr.n(38, 9)?.to_string());
    l(m, ";");
    sp(m);
    l(m, "(");
    tp(m);
    l(m, ")");
    sp(m);
    m.lit(pr.n(39, 9)?.to_string());
    m.lit(pr.q(40)?);
    l(m, "&");
    Ok(())
}
fn real_40<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(format!("<{}>", pr.q(1)?))$(if pr.n(2, 3)? == 1 => $$ $(pr.c(3)) $({ if pr.b(4)? { "t" } else { "f" } }))  $(ref _ { pr.mark(5)?; })
        // between



        $(match pr.b(6)? {
            true | false => {
                { $(let v2 = pr.q(7)?)	$(if let (Some(v3), _) = (pr.opt(8)?, pr.b(9)?) { $(for v4 in pr.it(10)? { $(quoted(pr.q(11)?))"two words" })/**/$(for v6 in pr.it(12)? join ( r#type) => $(display(pr.n(13, 9)?))) /* between */ $(from_fn(|t| { t.append(pr.c(14)); t.space(); t.append(pr.c(15)); })) })/**/$(for v8 in pr.it(16)? => $(quote!($(pr.multi(17)?)a1 /* between */ $(pr.q(18)?)))/**/:: /* between */ $(quote!($(vec![pr.q(19)?, pr.q(20)?]))))}$(for v12 in pr.opt(21)? => bar /* between */ a1$(vec![pr.q(22)?, pr.q(23)?]))
                $(ref _ => if pr.b(24)? { pr.mark(25)?; })$[str](1 + 2) (
                )
                // between
                           $(let v14 = pr.q(26)?)
            }
        })  [
           $(ref _ => if pr.rare(27)? { return Err(Left::Return); })/**/{
           }
        ]
    }
    Ok(())
}
fn model_40(m: &mut MV, pr: &Pr) -> Flow {
    m.lit(format!("<{}>", pr.q(1)?));
    if pr.n(2, 3)? == 1 {
    l(m, "$");
    sp(m);
    m.lit(pr.mc(3)?);
    sp(m);
    l(m, if pr.b(4)? { "t" } else { "f" });
    }
    sp(m);
    pr.mark(5)?;
    tln(m);
    match pr.b(6)? {
    true | false => {
    l(m, "{");
    sp(m);
    let v2 = pr.q(7)?;
    sp(m);
    if let (Some(v3), _) = (pr.opt(8)?, pr.b(9)?) {
    {
    let mut it5 = pr.it(10)?;
    let mut step = || -> Flow<Option<String>> { it5.step() };
    while let Some(v4) = step()? {
    { let x = pr.q(11)?; oq(m, false); m.lit(x); cq(m); }
    qs(m, "two words");
    }
    }
    sp(m);
    {
    let mut it7 = pr.it(12)?;
    let mut step = || -> Flow<Option<String>> { it7.step() };
    let mut next = step()?;
    while let Some(v6) = next {
    {
    m.lit(pr.n(13, 9)?.to_string());
    }
    next = step()?;
    if next.is_some() {
    {
    sp(m);
    l(m, "r#type");
    }
    }
    }
    }
    sp(m);
    m.lit(pr.mc(14)?); sp(m); m.lit(pr.mc(15)?);
    }
    sp(m);
    {
    let mut it9 = pr.it(16)?;
    let mut step = || -> Flow<Option<String>> { it9.step() };
    while let Some(v8) = step()? {
    let mut s10 = MStream::<()>::default();
    {
    let m = &mut s10;
    pr.mmulti(17, m)?;
    l(m, "a1");
    sp(m);
    m.lit(pr.q(18)?);
    }
    m.add_all(&s10.items);
    sp(m);
    l(m, "::");
    sp(m);
    let mut s11 = MStream::<()>::default();
    {
    let m = &mut s11;
    { let x = pr.q(19)?; let y = pr.q(20)?; m.lit(x); m.lit(y); }
    }
    m.add_all(&s11.items);
    }
    }
    l(m, "}");
    {
    let mut it13 = pr.opt(21)?.into_iter();
    let mut step = || -> Flow<Option<String>> { Ok(it13.next()) };
    while let Some(v12) = step()? {
    l(m, "bar");
    sp(m);
    l(m, "a1");
    { let x = pr.q(22)?; let y = pr.q(23)?; m.lit(x); m.lit(y); }
    }
    }
    tp(m);
    if pr.b(24)? { pr.mark(25)?; }
    qs(m, "1 + 2");
    sp(m);
    l(m, "(");
    tp(m);
    l(m, ")");
    tind(m);
    tln(m);
    let v14 = pr.q(26)?;
    tend(m);
    }
    }
    sp(m);
    l(m, "[");
    tind(m);
    if pr.rare(27)? { return Err(Left::Return); }
    sp(m);
    l(m, "{");
    tp(m);
    l(m, "}");
    tun(m);
    l(m, "]");
    Ok(())
}
fn real_41<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(for v1 in pr.it(1)? => $v1)  a1$[str](a b  c)$(ref o3 => quote_in!(*o3 => $['\n']while       $(match (pr.b(3)?, pr.q(4)?) { (_, v4) => $(let v5 = pr.q(5)?)$[str](a b  c) (,$(match pr.n(6, 7)? { 0 => { $(format!("<{}>", pr.q(10)?)) }, v6 if v6 == 1 && pr.b(7)? => ..=  $(pr.opt(11)?)7 ($$ /* between */ $(vec![pr.q(12)?, pr.q(13)?]), "two words" "q\"uote"), 2 if pr.b(8)? => { $(pr.multi(14)?) } 3 if pr.b(9)? => { a1 }, 4 => $$ /* between */ $(&pr.q(15)?) $$ [$(format!("<{}>", pr.q(16)?)) $(pr.q(17)?)$(pr.q(18)?.as_str())x, foo], v7 => ..= $$ })$(v5.clone()), $(for v8 in pr.it(19)? join (, ) { + ;	$({ pr.mark(21)?; "blk" }) }) ), }))) (
        )
        while$(&quote!($(quoted(quote!($(pr.q(22)?.as_str()))))$(display(pr.n(23, 9)?)) $(quoted(pr.q(24)?))))$({ if pr.b(25)? { "t" } else { "f" } })  $(ref _ { pr.mark(26)?; }) [
        ]
    }
    Ok(())
}
fn model_41(m: &mut MV, pr: &Pr) -> Flow {
    {
    let mut it2 = pr.it(1)?;
    let mut step = || -> Flow<Option<String>> { it2.step() };
    while let Some(v1) = step()? {
    m.lit(v1);
    }
    }
    sp(m);
    l(m, "a1");
    qs(m, "a b  c");
    {
    ln(m);
    l(m, "while");
    sp(m);
    match (pr.b(3)?, pr.q(4)?) {
    (_, v4) => {
    let v5 = pr.q(5)?;
    qs(m, "a b  c");
    sp(m);
    l(m, "(");
    l(m, ",");
    match pr.n(6, 7)? {
    0 => {
    m.lit(format!("<{}>", pr.q(10)?));
    }
    v6 if v6 == 1 && pr.b(7)? => {
    l(m, "..=");
    sp(m);
    if let Some(x) = pr.opt(11)? { m.lit(x); }
    l(m, "7");
    sp(m);
    l(m, "(");
    l(m, "$");
    sp(m);
    { let x = pr.q(12)?; let y = pr.q(13)?; m.lit(x); m.lit(y); }
    l(m, ",");
    sp(m);
    qs(m, "two words");
    sp(m);
    qs(m, "q\"uote");
    l(m, ")");
    }
    2 if pr.b(8)? => {
    pr.mmulti(14, m)?;
    }
    3 if pr.b(9)? => {
    l(m, "a1");
    }
    4 => {
    l(m, "$");
    sp(m);
    m.lit(pr.q(15)?);
    sp(m);
    l(m, "$");
    sp(m);
    l(m, "[");
    m.lit(format!("<{}>", pr.q(16)?));
    sp(m);
    m.lit(pr.q(17)?);
    m.lit(pr.q(18)?);
    l(m, "x");
    l(m, ",");
    sp(m);
    l(m, "foo");
    l(m, "]");
    }
    v7 => {
    l(m, "..=");
    sp(m);
    l(m, "$");
    }
    }
    m.lit(v5.clone());
    l(m, ",");
    sp(m);
    {
    let mut it9 = pr.it(19)?;
    let mut step = || -> Flow<Option<String>> { it9.step() };
    let mut next = step()?;
    while let Some(v8) = next {
    {
    l(m, "+");
    sp(m);
    l(m, ";");
    sp(m);
    pr.mark(21)?; l(m, "blk");
    }
    next = step()?;
    if next.is_some() {
    {
    l(m, ",");
    sp(m);
    }
    }
    }
    }
    sp(m);
    l(m, ")");
    }
    }
    }
    sp(m);
    l(m, "(");
    tp(m);
    l(m, ")");
    tp(m);
    l(m, "while");
    let mut s10 = MStream::<()>::default();
    {
    let m = &mut s10;
    let mut s11 = MStream::<()>::default();
    {
    let m = &mut s11;
    m.lit(pr.q(22)?);
    }
    oq(m, false);
    m.add_all(&s11.items);
    cq(m);
    m.lit(pr.n(23, 9)?.to_string());
    sp(m);
    { let x = pr.q(24)?; oq(m, false); m.lit(x); cq(m); }
    }
    m.add_all(&s10.items);
    l(m, if pr.b(25)? { "t" } else { "f" });
    sp(m);
    pr.mark(26)?;
    sp(m);
    l(m, "[");
    tp(m);
    l(m, "]");
    Ok(())
}
fn real_42<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $({ if pr.b(1)? { "t" } else { "f" } }) $(ref o1 => quote_in!(*o1 => $(match pr.opt(3)? { None if pr.b(4)? => $(&quote!($(Some(pr.q(10)?)) $(ref o8 { o8.append(pr.q(11)?); o8.space(); o8.append(pr.q(12)?); })  $[str]($(_y identifier_identifier_identifier_identifier_end?)one$[const]("con st")$[const]("con st")))), Some(v3) => { $(if pr.b(13)? { $({ if pr.b(14)? { "t" } else { "f" } }) $("ver batim") } else { $(display(pr.n(15, 9)?))	$(for v9 in [pr.q(16)?, pr.q(17)?] join ( x$(pr.q(18)?.as_str()) ) {}) ($(from_fn(|t| { t.append(pr.c(19)); t.space(); t.append(pr.c(20)); })) $(pr.multi(21)?)  ) })Self } _ => ($(for _ in pr.it(22)? join ( $(if pr.b(23)? || !pr.b(24)? { $(&pr.q(25)?) 1_000u64 } else { $(pr.opt(26)?) })) {}) $(for v13 in pr.it(27)? { $(pr.c(28)) $(ref o15 { if pr.rare(29)? { o15.append(pr.q(30)?); continue; } }) })/**/$(if pr.b(31)? { bar }) /* between */ ) })$(quote!($(format!("<{}>", pr.q(32)?)) "q\"uote"$(let v17 = pr.q(33)?)))))	(
            $(pr.n(34, 9)?)
        )
    }
    Ok(())
}
fn model_42(m: &mut MV, pr: &Pr) -> Flow {
    l(m, if pr.b(1)? { "t" } else { "f" });
    sp(m);
    {
    match pr.opt(3)? {
    None if pr.b(4)? => {
    let mut s7 = MStream::<()>::default();
    {
    let m = &mut s7;
    m.lit(pr.q(10)?);
    sp(m);
    m.lit(pr.q(11)?); sp(m); m.lit(pr.q(12)?);
    sp(m);
    oq(m, true);
    oe(m);
    {
    l(m, "_y");
    sp(m);
    l(m, "identifier_identifier_identifier_identifier_end");
    l(m, "?");
    }
    ce(m);
    l(m, "onecon stcon st");
    cq(m);
    }
    m.add_all(&s7.items);
    }
    Some(v3) => {
    if pr.b(13)? {
    l(m, if pr.b(14)? { "t" } else { "f" });
    sp(m);
    l(m, "ver batim");
    } else {
    m.lit(pr.n(15, 9)?.to_string());
    sp(m);
    {
    let mut it10 = [pr.q(16)?, pr.q(17)?].into_iter();
    let mut step = || -> Flow<Option<String>> { Ok(it10.next()) };
    let mut next = step()?;
    while let Some(v9) = next {
    {
    }
    next = step()?;
    if next.is_some() {
    {
    sp(m);
    l(m, "x");
    m.lit(pr.q(18)?);
    sp(m);
    }
    }
    }
    }
    sp(m);
    l(m, "(");
    m.lit(pr.mc(19)?); sp(m); m.lit(pr.mc(20)?);
    sp(m);
    pr.mmulti(21, m)?;
    sp(m);
    l(m, ")");
    }
    l(m, "Self");
    }
    _ => {
    {
    let mut it12 = pr.it(22)?;
    let mut step = || -> Flow<Option<String>> { it12.step() };
    let mut next = step()?;
    while let Some(_) = next {
    {
    }
    next = step()?;
    if next.is_some() {
    {
    sp(m);
    if pr.b(23)? || !pr.b(24)? {
    m.lit(pr.q(25)?);
    sp(m);
    l(m, "1_000u64");
    } else {
    if let Some(x) = pr.opt(26)? { m.lit(x); }
    }
    }
    }
    }
    }
    sp(m);
    {
    let mut it14 = pr.it(27)?;
    let mut step = || -> Flow<Option<String>> { it14.step() };
    while let Some(v13) = step()? {
    m.lit(pr.mc(28)?);
    sp(m);
    if pr.rare(29)? { m.lit(pr.q(30)?); continue; }
    }
    }
    sp(m);
    if pr.b(31)? {
    l(m, "bar");
    }
    sp(m);
    }
    }
    let mut s16 = MStream::<()>::default();
    {
    let m = &mut s16;
    m.lit(format!("<{}>", pr.q(32)?));
    sp(m);
    qs(m, "q\"uote");
    let v17 = pr.q(33)?;
    }
    m.add_all(&s16.items);
    }
    sp(m);
    l(m, "(");
    tind(m);
    m.lit(pr.n(34, 9)?.to_string());
    tun(m);
    l(m, ")");
    Ok(())
}
fn real_43<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(ref o1 {
            for _ in 0..pr.n(1, 3)? {
                quote_in! { *o1 =>
                    $(quoted(pr.q(2)?))$(ref o2 { if pr.b(3)? { quote_in!(*o2 => $(if let (Some(v3), _) = (pr.opt(4)?, pr.b(5)?) { "two words"$(v3.as_str())$['\r'] } else { $(let mut v4 = pr.q(6)?) })/**/$(ref o5 { o5.append(pr.q(7)?); o5.space(); o5.append(pr.q(8)?); })); } o2.push(); })$(let (v6, v7) = (pr.q(9)?, pr.n(10, 9)?))$v7 {
                               $$
                    }
                }
                o1.line();
            }
        })/**/$(pr.multi(11)?)$(let v8 = pr.q(12)?)
        r#type $(display(pr.n(13, 9)?)) $(if pr.b(14)? { [ $(match (pr.b(15)?, pr.n(16, 3)?) { (true, 0) => { $(for v10 in pr.it(18)?.filter(|_| pr.cb(19)) => $$ $(pr.multi(20)?)) $(quoted(quote!($(pr.q(21)?)$({ if pr.b(22)? { "t" } else { "f" } }) /* between */ ...))) } (false, v9) if v9 < 2 && pr.b(17)? => ; ( $(display(pr.n(23, 9)?)), ::  ), (_, 1) | (true, _) => { $({ if pr.b(24)? { "t" } else { "f" } })$[str]($[const](pr.q(25)?)) } (..) => { $(pr.q(26)?)$(Some(pr.q(27)?)) }, }) $(let v13 = pr.q(28)?)$[str](plain) ] })
        $({ if pr.b(29)? { "t" } else { "f" } })
    }
    Ok(())
}
fn model_43(m: &mut MV, pr: &Pr) -> Flow {
    for _ in 0..pr.n(1, 3)? {
    { let x = pr.q(2)?; oq(m, false); m.lit(x); cq(m); }
    if pr.b(3)? {
    if let (Some(v3), _) = (pr.opt(4)?, pr.b(5)?) {
    qs(m, "two words");
    m.lit(v3.clone());
    p(m);
    } else {
    let mut v4 = pr.q(6)?;
    }
    sp(m);
    m.lit(pr.q(7)?); sp(m); m.lit(pr.q(8)?);
    }
    p(m);
    let (v6, v7) = (pr.q(9)?, pr.n(10, 9)?);
    m.lit(v7.to_string());
    sp(m);
    l(m, "{");
    tind(m);
    l(m, "$");
    tun(m);
    l(m, "}");
    ln(m);
    }
    sp(m);
    pr.mmulti(11, m)?;
    let v8 = pr.q(12)?;
    tp(m);
    l(m, "r#type");
    sp(m);
    m.lit(pr.n(13, 9)?.to_string());
    sp(m);
    if pr.b(14)? {
    l(m, "[");
    sp(m);
    match (pr.b(15)?, pr.n(16, 3)?) {
    (true, 0) => {
    {
    let mut it11 = pr.it(18)?;
    let mut step = || -> Flow<Option<String>> { while let Some(x) = it11.step()? { if pr.mcb(19)? { return Ok(Some(x)); } } Ok(None) };
    while let Some(v10) = step()? {
    l(m, "$");
    sp(m);
    pr.mmulti(20, m)?;
    }
    }
    sp(m);
    let mut s12 = MStream::<()>::default();
    {
    let m = &mut s12;
    m.lit(pr.q(21)?);
    l(m, if pr.b(22)? { "t" } else { "f" });
    sp(m);
    l(m, "...");
    }
    oq(m, false);
    m.add_all(&s12.items);
    cq(m);
    }
    (false, v9) if v9 < 2 && pr.b(17)? => {
    l(m, ";");
    sp(m);
    l(m, "(");
    sp(m);
    m.lit(pr.n(23, 9)?.to_string());
    l(m, ",");
    sp(m);
    l(m, "::");
    sp(m);
    l(m, ")");
    }
    (_, 1) | (true, _) => {
    l(m, if pr.b(24)? { "t" } else { "f" });
    oq(m, false);
    m.lit(pr.q(25)?);
    cq(m);
    }
    (..) => {
    m.lit(pr.q(26)?);
    m.lit(pr.q(27)?);
    }
    }
    sp(m);
    let v13 = pr.q(28)?;
    qs(m, "plain");
    sp(m);
    l(m, "]");
    }
    tp(m);
    l(m, if pr.b(29)? { "t" } else { "f" });
    Ok(())
}
fn real_44<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $[str](two$[const]("con st")$$ $name-two$[const](pr.q(1)?))
        7 {
        // between



        } $(let mut v1 = pr.q(2)?)


        $(&quote! {
            $(&pr.q(3)?) (
            
            )
        })$(quote!($(for v4 in 0..pr.n(4, 4)? join (, ) { $(match pr.n(6, 5)? { v6 if v6 > 0 && pr.b(7)? => $[' '], _ if pr.b(8)? => $(ref o8 { if pr.rare(9)? { o8.append(pr.q(10)?); return Err(Left::Return); } })/**/$(ref o9 { if pr.rare(11)? { o9.append(pr.q(12)?); break; } })       $(for _ in pr.it(13)? join ($({ if pr.b(14)? { "t" } else { "f" } })bar) => foo _y), v7 => ($[str](a b  c)($$ {$(vec![pr.q(17)?, pr.q(18)?]) {, {x ($(pr.multi(16)?) [$(pr.q(15)?) $$ $$] Self) $$} $$} $(pr.multi(19)?)} $$)       ) })$(quote!($(for _ in pr.it(20)? { "two words" "q\"uote" })))$(display(pr.n(21, 9)?)) })  ($("ä") $(from_fn(|t| { t.append(pr.c(22)); t.space(); t.append(pr.c(23)); }))$(ref _ => if pr.rare(24)? { return Err(Left::Return); }) $[str](1 + 2) )))
         ->
    }
    Ok(())
}
fn model_44(m: &mut MV, pr: &Pr) -> Flow {
    oq(m, true);
    l(m, "twocon st$ ");
    oe(m);
    l(m, "name");
    ce(m);
    l(m, "-two");
    m.lit(pr.q(1)?);
    cq(m);
    tp(m);
    l(m, "7");
    sp(m);
    l(m, "{");
    tln(m);
    l(m, "}");
    sp(m);
    let mut v1 = pr.q(2)?;
    tln(m);
    let mut s2 = MStream::<()>::default();
    {
    let m = &mut s2;
    m.lit(pr.q(3)?);
    sp(m);
    l(m, "(");
    tln(m);
    l(m, ")");
    }
    m.add_all(&s2.items);
    let mut s3 = MStream::<()>::default();
    {
    let m = &mut s3;
    {
    let mut it5 = 0..pr.n(4, 4)?;
    let mut step = || -> Flow<Option<u64>> { Ok(it5.next()) };
    let mut next = step()?;
    while let Some(v4) = next {
    {
    match pr.n(6, 5)? {
    v6 if v6 > 0 && pr.b(7)? => {
    sp(m);
    }
    _ if pr.b(8)? => {
    if pr.rare(9)? { m.lit(pr.q(10)?); return Err(Left::Return); }
    sp(m);
    if pr.rare(11)? { m.lit(pr.q(12)?); break; }
    sp(m);
    {
    let mut it11 = pr.it(13)?;
    let mut step = || -> Flow<Option<String>> { it11.step() };
    let mut next = step()?;
    while let Some(_) = next {
    {
    l(m, "foo");
    sp(m);
    l(m, "_y");
    }
    next = step()?;
    if next.is_some() {
    {
    l(m, if pr.b(14)? { "t" } else { "f" });
    l(m, "bar");
    }
    }
    }
    }
    }
    v7 => {
    qs(m, "a b  c");
    l(m, "(");
    l(m, "$");
    sp(m);
    l(m, "{");
    { let x = pr.q(17)?; let y = pr.q(18)?; m.lit(x); m.lit(y); }
    sp(m);
    l(m, "{");
    l(m, ",");
    sp(m);
    l(m, "{");
    l(m, "x");
    sp(m);
    l(m, "(");
    pr.mmulti(16, m)?;
    sp(m);
    l(m, "[");
    m.lit(pr.q(15)?);
    sp(m);
    l(m, "$");
    sp(m);
    l(m, "$");
    l(m, "]");
    sp(m);
    l(m, "Self");
    l(m, ")");
    sp(m);
    l(m, "$");
    l(m, "}");
    sp(m);
    l(m, "$");
    l(m, "}");
    sp(m);
    pr.mmulti(19, m)?;
    l(m, "}");
    sp(m);
    l(m, "$");
    l(m, ")");
    sp(m);
    }
    }
    let mut s12 = MStream::<()>::default();
    {
    let m = &mut s12;
    {
    let mut it14 = pr.it(20)?;
    let mut step = || -> Flow<Option<String>> { it14.step() };
    while let Some(_) = step()? {
    qs(m, "two words");
    sp(m);
    qs(m, "q\"uote");
    }
    }
    }
    m.add_all(&s12.items);
    m.lit(pr.n(21, 9)?.to_string());
    }
    next = step()?;
    if next.is_some() {
    {
    l(m, ",");
    sp(m);
    }
    }
    }
    }
    sp(m);
    l(m, "(");
    l(m, "ä");
    sp(m);
    m.lit(pr.mc(22)?); sp(m); m.lit(pr.mc(23)?);
    if pr.rare(24)? { return Err(Left::Return); }
    sp(m);
    qs(m, "1 + 2");
    sp(m);
    l(m, ")");
    }
    m.add_all(&s3.items);
    tind(m);
    l(m, "->");
    tend(m);
    Ok(())
}
fn real_45<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(pr.multi(1)?)$(from_fn(|t| { t.append(pr.c(2)); t.space(); t.append(pr.c(3)); }))[$(if let (Some(v1), _) = (pr.opt(4)?, pr.b(5)?) {
            $(for _ in pr.it(6)? join (, ) {
                $[str](1 + 2)	_y   
                ;$(let mut v5 = pr.q(9)?)
            })	{
            }
        } else {
            $(quote!($(if let (Some(v7), _) = (pr.opt(10)?, pr.b(11)?) { $({ pr.mark(12)?; "blk" }) } else {})while))$(display(pr.n(13, 9)?))$(quoted(quote! {
                $(pr.multi(14)?)$(ref o9 { if pr.b(15)? { quote_in!(*o9 => $(pr.n(16, 9)?)); } o9.push(); })
            }))
        })$(pr.multi(17)?) ]/**/$(ref o10 { if pr.b(18)? { quote_in!(*o10 => nameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameame $(if pr.b(19)? {} else { $(pr.q(20)?) })$[str](1 + 2)); } o10.push(); })
    }
    Ok(())
}
fn model_45(m: &mut MV, pr: &Pr) -> Flow {
    pr.mmulti(1, m)?;
    m.lit(pr.mc(2)?); sp(m); m.lit(pr.mc(3)?);
    l(m, "[");
    if let (Some(v1), _) = (pr.opt(4)?, pr.b(5)?) {
    {
    let mut it3 = pr.it(6)?;
    let mut step = || -> Flow<Option<String>> { it3.step() };
    let mut next = step()?;
    while let Some(_) = next {
    {
    qs(m, "1 + 2");
    sp(m);
    l(m, "_y");
    tp(m);
    l(m, ";");
    let mut v5 = pr.q(9)?;
    }
    next = step()?;
    if next.is_some() {
    {
    l(m, ",");
    sp(m);
    }
    }
    }
    }
    sp(m);
    l(m, "{");
    tp(m);
    l(m, "}");
    } else {
    let mut s6 = MStream::<()>::default();
    {
    let m = &mut s6;
    if let (Some(v7), _) = (pr.opt(10)?, pr.b(11)?) {
    pr.mark(12)?; l(m, "blk");
    } else {
    }
    l(m, "while");
    }
    m.add_all(&s6.items);
    m.lit(pr.n(13, 9)?.to_string());
    let mut s8 = MStream::<()>::default();
    {
    let m = &mut s8;
    pr.mmulti(14, m)?;
    if pr.b(15)? {
    m.lit(pr.n(16, 9)?.to_string());
    }
    p(m);
    }
    oq(m, false);
    m.add_all(&s8.items);
    cq(m);
    }
    pr.mmulti(17, m)?;
    sp(m);
    l(m, "]");
    sp(m);
    if pr.b(18)? {
    l(m, "nameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameame");
    sp(m);
    if pr.b(19)? {
    } else {
    m.lit(pr.q(20)?);
    }
    qs(m, "1 + 2");
    }
    p(m);
    Ok(())
}
fn real_46<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(ref o1 { if pr.b(1)? { quote_in!(*o1 => $(let v2 = pr.n(2, 9)?)/**/$(if pr.b(3)? && pr.b(4)? => $("ä")	$(for v3 in 0..pr.n(5, 4)? { $(for v5 in pr.it(6)? { a1$(display(pr.n(7, 9)?))$(vec![pr.q(8)?, pr.q(9)?]) }) })$(ref o7 => quote_in!(*o7 => $(match (pr.b(11)?, pr.n(12, 3)?) { (true, 0) => $$, (_, 1) | (true, _) => { "lit"	$(pr.q(14)?.as_str()) }, _ if pr.b(13)? => { foo $({ pr.mark(15)?; "blk" }) "lit" }, (..) => {}, })$(v2))))x); } o1.push(); }) $(format!("<{}>", pr.q(16)?))
    }
    Ok(())
}
fn model_46(m: &mut MV, pr: &Pr) -> Flow {
    if pr.b(1)? {
    let v2 = pr.n(2, 9)?;
    sp(m);
    if pr.b(3)? && pr.b(4)? {
    l(m, "ä");
    sp(m);
    {
    let mut it4 = 0..pr.n(5, 4)?;
    let mut step = || -> Flow<Option<u64>> { Ok(it4.next()) };
    while let Some(v3) = step()? {
    {
    let mut it6 = pr.it(6)?;
    let mut step = || -> Flow<Option<String>> { it6.step() };
    while let Some(v5) = step()? {
    l(m, "a1");
    m.lit(pr.n(7, 9)?.to_string());
    { let x = pr.q(8)?; let y = pr.q(9)?; m.lit(x); m.lit(y); }
    }
    }
    }
    }
    {
    match (pr.b(11)?, pr.n(12, 3)?) {
    (true, 0) => {
    l(m, "$");
    }
    (_, 1) | (true, _) => {
    qs(m, "lit");
    sp(m);
    m.lit(pr.q(14)?);
    }
    _ if pr.b(13)? => {
    l(m, "foo");
    sp(m);
    pr.mark(15)?; l(m, "blk");
    sp(m);
    qs(m, "lit");
    }
    (..) => {
    }
    }
    m.lit(v2.to_string());
    }
    }
    l(m, "x");
    }
    p(m);
    sp(m);
    m.lit(format!("<{}>", pr.q(16)?));
    Ok(())
}
fn real_47<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $[str](a b  c) $(ref o1 { if pr.rare(1)? { o1.append(pr.q(2)?); return Err(Left::Return); } })       $(" lead") // note
        // between

        // between

        $({ pr.mark(3)?; "blk" })$(quote!($(if pr.b(4)? || !pr.b(5)? => $(if pr.b(6)? { $(let v3 = pr.q(7)?) })=$(for v4 in pr.it(8)?.filter(|_| pr.cb(9)) join ( $(match (pr.b(10)?, pr.n(11, 3)?) { (true, 0) => $(pr.q(13)?) {a1 $({ if pr.b(14)? { "t" } else { "f" } }),	,, $(quoted(pr.q(15)?))}, _ if pr.b(12)? => { $(pr.q(16)?.as_str())/**/x  0x1F } (..) => $(Some(pr.q(17)?)) ( $(Some(pr.q(18)?))$({ if pr.b(19)? { "t" } else { "f" } }), x) }) ) { $(for v7 in pr.opt(20)? join ($(pr.q(21)?) $({ if pr.b(22)? { "t" } else { "f" } })) => $$ $(from_fn(|t| { t.append(pr.c(23)); t.space(); t.append(pr.c(24)); })))/**/$(if pr.b(25)? && pr.b(26)? { $(pr.q(27)?.as_str())x } else {})$(&pr.q(28)?) }))$(let v9 = pr.n(29, 9)?)$[str](- -)))&$(vec![pr.q(30)?, pr.q(31)?])
        $[str](two)	(

        // between


        )
    }
    Ok(())
}
fn model_47(m: &mut MV, pr: &Pr) -> Flow {
    qs(m, "a b  c");
    sp(m);
    if pr.rare(1)? { m.lit(pr.q(2)?); return Err(Left::Return); }
    sp(m);
    l(m, " lead");
    tln(m);
    pr.mark(3)?; l(m, "blk");
    let mut s2 = MStream::<()>::default();
    {
    let m = &mut s2;
    if pr.b(4)? || !pr.b(5)? {
    if pr.b(6)? {
    let v3 = pr.q(7)?;
    }
    l(m, "=");
    {
    let mut it5 = pr.it(8)?;
    let mut step = || -> Flow<Option<String>> { while let Some(x) = it5.step()? { if pr.mcb(9)? { return Ok(Some(x)); } } Ok(None) };
    let mut next = step()?;
    while let Some(v4) = next {
    {
    {
    let mut it8 = pr.opt(20)?.into_iter();
    let mut step = || -> Flow<Option<String>> { Ok(it8.next()) };
    let mut next = step()?;
    while let Some(v7) = next {
    {
    l(m, "$");
    sp(m);
    m.lit(pr.mc(23)?); sp(m); m.lit(pr.mc(24)?);
    }
    next = step()?;
    if next.is_some() {
    {
    m.lit(pr.q(21)?);
    sp(m);
    l(m, if pr.b(22)? { "t" } else { "f" });
    }
    }
    }
    }
    sp(m);
    if pr.b(25)? && pr.b(26)? {
    m.lit(pr.q(27)?);
    l(m, "x");
    } else {
    }
    m.lit(pr.q(28)?);
    }
    next = step()?;
    if next.is_some() {
    {
    sp(m);
    match (pr.b(10)?, pr.n(11, 3)?) {
    (true, 0) => {
    m.lit(pr.q(13)?);
    sp(m);
    l(m, "{");
    l(m, "a1");
    sp(m);
    l(m, if pr.b(14)? { "t" } else { "f" });
    l(m, ",");
    sp(m);
    l(m, ",");
    l(m, ",");
    sp(m);
    { let x = pr.q(15)?; oq(m, false); m.lit(x); cq(m); }
    l(m, "}");
    }
    _ if pr.b(12)? => {
    m.lit(pr.q(16)?);
    sp(m);
    l(m, "x");
    sp(m);
    l(m, "0x1F");
    }
    (..) => {
    m.lit(pr.q(17)?);
    sp(m);
    l(m, "(");
    sp(m);
    m.lit(pr.q(18)?);
    l(m, if pr.b(19)? { "t" } else { "f" });
    l(m, ",");
    sp(m);
    l(m, "x");
    l(m, ")");
    }
    }
    sp(m);
    }
    }
    }
    }
    }
    let v9 = pr.n(29, 9)?;
    oq(m, false);
    l(m, "- -");
    cq(m);
    }
    m.add_all(&s2.items);
    l(m, "&");
    { let x = pr.q(30)?; let y = pr.q(31)?; m.lit(x); m.lit(y); }
    tp(m);
    oq(m, false);
    l(m, "two");
    cq(m);
    sp(m);
    l(m, "(");
    tln(m);
    l(m, ")");
    Ok(())
}
fn real_48<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(let v1 = pr.q(1)?)$(match pr.opt(2)? {
            Some(v2) if v2.is_empty() || pr.b(3)? => ([]$(" lead")	$(pr.q(5)?)       ),
            None if pr.b(4)? => "q\"uote" /* between */ $(if pr.b(6)? && pr.b(7)? { $[' ']$(ref _ => if pr.rare(8)? { return Err(Left::Return); }) } else {
                $("ä")
                // between
                
                $(ref o4 { if pr.b(9)? { quote_in!(*o4 => $(pr.q(10)?)); } o4.push(); })       (
                )
            }) /* between */ $(ref o5 { if pr.rare(11)? { o5.append(pr.q(12)?); return Err(Left::Return); } }),
            Some(v3) => { $(match pr.b(13)? {
                true | false => $(let (v7, v8) = (pr.q(14)?, pr.n(15, 9)?)) ($(&pr.q(16)?)       $(ref o9 => quote_in!(*o9 => $(pr.n(18, 9)?)bar$(vec![pr.q(19)?, pr.q(20)?])))	$(ref _ => if pr.rare(21)? { return Err(Left::Return); })  $(pr.multi(22)?), $(for v10 in pr.opt(23)? join ($(pr.multi(24)?)       &/**/) { $(format!("<{}>", pr.q(25)?)) })/**/"two words" )
            }) },
            _ => ( $(pr.opt(26)?)	),
        })/**/$[str](plain)	{x [bar [$(Some(pr.q(27)?)) ($$ foo $$) $$] while] $(format!("<{}>", pr.q(28)?))}       (
        )
    }
    Ok(())
}
fn model_48(m: &mut MV, pr: &Pr) -> Flow {
    let v1 = pr.q(1)?;
    match pr.opt(2)? {
    Some(v2) if v2.is_empty() || pr.b(3)? => {
    l(m, "[]");
    l(m, " lead");
    sp(m);
    m.lit(pr.q(5)?);
    sp(m);
    }
    None if pr.b(4)? => {
    qs(m, "q\"uote");
    sp(m);
    if pr.b(6)? && pr.b(7)? {
    sp(m);
    if pr.rare(8)? { return Err(Left::Return); }
    } else {
    l(m, "ä");
    tln(m);
    if pr.b(9)? {
    m.lit(pr.q(10)?);
    }
    p(m);
    sp(m);
    l(m, "(");
    tp(m);
    l(m, ")");
    }
    sp(m);
    if pr.rare(11)? { m.lit(pr.q(12)?); return Err(Left::Return); }
    }
    Some(v3) => {
    match pr.b(13)? {
    true | false => {
    let (v7, v8) = (pr.q(14)?, pr.n(15, 9)?);
    sp(m);
    l(m, "(");
    m.lit(pr.q(16)?);
    sp(m);
    {
    m.lit(pr.n(18, 9)?.to_string());
    l(m, "bar");
    { let x = pr.q(19)?; let y = pr.q(20)?; m.lit(x); m.lit(y); }
    }
    sp(m);
    if pr.rare(21)? { return Err(Left::Return); }
    sp(m);
    pr.mmulti(22, m)?;
    l(m, ",");
    sp(m);
    {
    let mut it11 = pr.opt(23)?.into_iter();
    let mut step = || -> Flow<Option<String>> { Ok(it11.next()) };
    let mut next = step()?;
    while let Some(v10) = next {
    {
    m.lit(format!("<{}>", pr.q(25)?));
    }
    next = step()?;
    if next.is_some() {
    {
    pr.mmulti(24, m)?;
    sp(m);
    l(m, "&");
    sp(m);
    }
    }
    }
    }
    sp(m);
    qs(m, "two words");
    sp(m);
    l(m, ")");
    }
    }
    }
    _ => {
    sp(m);
    if let Some(x) = pr.opt(26)? { m.lit(x); }
    sp(m);
    }
    }
    sp(m);
    qs(m, "plain");
    sp(m);
    l(m, "{");
    l(m, "x");
    sp(m);
    l(m, "[");
    l(m, "bar");
    sp(m);
    l(m, "[");
    m.lit(pr.q(27)?);
    sp(m);
    l(m, "(");
    l(m, "$");
    sp(m);
    l(m, "foo");
    sp(m);
    l(m, "$");
    l(m, ")");
    sp(m);
    l(m, "$");
    l(m, "]");
    sp(m);
    l(m, "while");
    l(m, "]");
    sp(m);
    m.lit(format!("<{}>", pr.q(28)?));
    l(m, "}");
    sp(m);
    l(m, "(");
    tp(m);
    l(m, ")");
    Ok(())
}
fn real_49<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $("ä")


        $(let v1 = pr.q(1)?)$(quoted(quote!($(match pr.n(2, 6)? { v3 if v3 > 0 && pr.b(3)? => { $(let mut v5 = pr.q(4)?) $(ref _ => if pr.rare(5)? { return Err(Left::Return); })$v3 }, v4 => { $(let v6 = pr.q(6)?) /* between */ $(for v7 in pr.it(7)? join ($[str]($name-) ) => foo       $(ref o9 { o9.append(pr.q(8)?); o9.space(); o9.append(pr.q(9)?); })       $[str]($name-$($(Some(pr.q(10)?)) x foo) one)) } }) $(ref o10 => quote_in!(*o10 => $[str]($[const](pr.q(12)?))$(ref _ { pr.mark(13)?; })<<=)) $(for v11 in pr.opt(14)? join (, ) { $(match (pr.b(27)?, pr.n(28, 3)?) { (true, 0) => $(format!("<{}>", pr.q(31)?))       $(Some(pr.q(32)?)) /* between */ $({ pr.mark(33)?; "blk" }), (false, v22) if v22 < 2 && pr.b(29)? => ; $$ 7, (_, 1) | (true, _) => { $(pr.q(34)?) }, _ if pr.b(30)? => { $({ if pr.b(35)? { "t" } else { "f" } }) } (..) => {}, }) $(ref o23 => quote_in!(*o23 => 1.5       a1)) }))))"two words"
    }
    Ok(())
}
fn model_49(m: &mut MV, pr: &Pr) -> Flow {
    l(m, "ä");
    tln(m);
    let v1 = pr.q(1)?;
    let mut s2 = MStream::<()>::default();
    {
    let m = &mut s2;
    match pr.n(2, 6)? {
    v3 if v3 > 0 && pr.b(3)? => {
    let mut v5 = pr.q(4)?;
    sp(m);
    if pr.rare(5)? { return Err(Left::Return); }
    m.lit(v3.to_string());
    }
    v4 => {
    let v6 = pr.q(6)?;
    sp(m);
    {
    let mut it8 = pr.it(7)?;
    let mut step = || -> Flow<Option<String>> { it8.step() };
    let mut next = step()?;
    while let Some(v7) = next {
    {
    l(m, "foo");
    sp(m);
    m.lit(pr.q(8)?); sp(m); m.lit(pr.q(9)?);
    sp(m);
    oq(m, true);
    oe(m);
    l(m, "name");
    ce(m);
    l(m, "-");
    oe(m);
    {
    m.lit(pr.q(10)?);
    sp(m);
    l(m, "x");
    sp(m);
    l(m, "foo");
    }
    ce(m);
    l(m, " one");
    cq(m);
    }
    next = step()?;
    if next.is_some() {
    {
    oq(m, true);
    oe(m);
    l(m, "name");
    ce(m);
    l(m, "-");
    cq(m);
    sp(m);
    }
    }
    }
    }
    }
    }
    sp(m);
    {
    oq(m, false);
    m.lit(pr.q(12)?);
    cq(m);
    pr.mark(13)?;
    l(m, "<<=");
    }
    sp(m);
    {
    let mut it12 = pr.opt(14)?.into_iter();
    let mut step = || -> Flow<Option<String>> { Ok(it12.next()) };
    let mut next = step()?;
    while let Some(v11) = next {
    {
    match (pr.b(27)?, pr.n(28, 3)?) {
    (true, 0) => {
    m.lit(format!("<{}>", pr.q(31)?));
    sp(m);
    m.lit(pr.q(32)?);
    sp(m);
    pr.mark(33)?; l(m, "blk");
    }
    (false, v22) if v22 < 2 && pr.b(29)? => {
    l(m, ";");
    sp(m);
    l(m, "$");
    sp(m);
    l(m, "7");
    }
    (_, 1) | (true, _) => {
    m.lit(pr.q(34)?);
    }
    _ if pr.b(30)? => {
    l(m, if pr.b(35)? { "t" } else { "f" });
    }
    (..) => {
    }
    }
    sp(m);
    {
    l(m, "1.5");
    sp(m);
    l(m, "a1");
    }
    }
    next = step()?;
    if next.is_some() {
    {
    l(m, ",");
    sp(m);
    }
    }
    }
    }
    }
    oq(m, false);
    m.add_all(&s2.items);
    cq(m);
    qs(m, "two words");
    Ok(())
}
fn real_50<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(ref o1 { if pr.b(1)? { quote_in!(*o1 => $(pr.n(2, 9)?)); } o1.push(); })$(format!("<{}>", pr.q(3)?)) $(for v2 in pr.it(4)? join ([]       "two words") => $(let mut v4 = pr.q(5)?)$(for v5 in pr.opt(6)? { {"q\"uote" ($(from_fn(|t| { t.append(pr.c(9)); t.space(); t.append(pr.c(10)); })) [$$ {$(display(pr.n(7, 9)?)) bar $(pr.n(8, 9)?)} ,] $(display(pr.n(11, 9)?))) bar}|| + }))$(" lead")
        $(quoted(pr.q(12)?))  $("ver batim")
        $(for v7 in 0..pr.n(13, 4)? { +$(if pr.b(14)? => 0x1F) $(for v9 in pr.it(15)? { $(display(pr.n(16, 9)?))/**/a1 }) })
    }
    Ok(())
}
fn model_50(m: &mut MV, pr: &Pr) -> Flow {
    if pr.b(1)? {
    m.lit(pr.n(2, 9)?.to_string());
    }
    p(m);
    m.lit(format!("<{}>", pr.q(3)?));
    sp(m);
    {
    let mut it3 = pr.it(4)?;
    let mut step = || -> Flow<Option<String>> { it3.step() };
    let mut next = step()?;
    while let Some(v2) = next {
    {
    let mut v4 = pr.q(5)?;
    {
    let mut it6 = pr.opt(6)?.into_iter();
    let mut step = || -> Flow<Option<String>> { Ok(it6.next()) };
    while let Some(v5) = step()? {
    l(m, "{");
    qs(m, "q\"uote");
    sp(m);
    l(m, "(");
    m.lit(pr.mc(9)?); sp(m); m.lit(pr.mc(10)?);
    sp(m);
    l(m, "[");
    l(m, "$");
    sp(m);
    l(m, "{");
    m.lit(pr.n(7, 9)?.to_string());
    sp(m);
    l(m, "bar");
    sp(m);
    m.lit(pr.n(8, 9)?.to_string());
    l(m, "}");
    sp(m);
    l(m, ",");
    l(m, "]");
    sp(m);
    m.lit(pr.n(11, 9)?.to_string());
    l(m, ")");
    sp(m);
    l(m, "bar");
    l(m, "}");
    l(m, "||");
    sp(m);
    l(m, "+");
    }
    }
    }
    next = step()?;
    if next.is_some() {
    {
    l(m, "[]");
    sp(m);
    qs(m, "two words");
    }
    }
    }
    }
    l(m, " lead");
    tp(m);
    { let x = pr.q(12)?; oq(m, false); m.lit(x); cq(m); }
    sp(m);
    l(m, "ver batim");
    tp(m);
    {
    let mut it8 = 0..pr.n(13, 4)?;
    let mut step = || -> Flow<Option<u64>> { Ok(it8.next()) };
    while let Some(v7) = step()? {
    l(m, "+");
    if pr.b(14)? {
    l(m, "0x1F");
    }
    sp(m);
    {
    let mut it10 = pr.it(15)?;
    let mut step = || -> Flow<Option<String>> { it10.step() };
    while let Some(v9) = step()? {
    m.lit(pr.n(16, 9)?.to_string());
    sp(m);
    l(m, "a1");
    }
    }
    }
    }
    Ok(())
}
fn real_51<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(ref o1 { if pr.rare(1)? { o1.append(pr.q(2)?); return Err(Left::Return); } })$(pr.q(3)?.as_str())$(match pr.b(4)? {
            true | false => {
                $(quote!($({ pr.mark(5)?; "blk" })))$(vec![pr.q(6)?, pr.q(7)?])&&$(ref o4 { o4.append(pr.q(8)?); o4.space(); o4.append(pr.q(9)?); })
                        $(pr.opt(10)?)
                        $(if let (Some(v5), _) = (pr.opt(11)?, pr.b(12)?) { _y })  $(quoted(quote!($(ref o7 { o7.append(pr.q(13)?); o7.space(); o7.append(pr.q(14)?); })))) $(pr.c(15)) /* between */ $(match pr.opt(16)? { Some(v9) => { = :: = }, _ => $(ref o10 { o10.append(pr.q(17)?); o10.space(); o10.append(pr.q(18)?); })$(if pr.b(19)? && pr.b(20)? { 'c'$(if let Some(v11) = pr.opt(21)? { while } else { $(vec![pr.q(23)?, pr.q(24)?])	& }) } else {}) {foo, $(for v12 in 0..pr.n(25, 4)? => $({ pr.mark(26)?; "blk" })  $(pr.opt(27)?))$(format!("<{}>", pr.q(28)?))} })$(pr.n(29, 9)?)
            }
        })	$['\r'] x (


        )
    }
    Ok(())
}
fn model_51(m: &mut MV, pr: &Pr) -> Flow {
    if pr.rare(1)? { m.lit(pr.q(2)?); return Err(Left::Return); }
    m.lit(pr.q(3)?);
    match pr.b(4)? {
    true | false => {
    let mut s3 = MStream::<()>::default();
    {
    let m = &mut s3;
    pr.mark(5)?; l(m, "blk");
    }
    m.add_all(&s3.items);
    { let x = pr.q(6)?; let y = pr.q(7)?; m.lit(x); m.lit(y); }
    l(m, "&&");
    m.lit(pr.q(8)?); sp(m); m.lit(pr.q(9)?);
    tind(m);
    if let Some(x) = pr.opt(10)? { m.lit(x); }
    tp(m);
    if let (Some(v5), _) = (pr.opt(11)?, pr.b(12)?) {
    l(m, "_y");
    }
    sp(m);
    let mut s6 = MStream::<()>::default();
    {
    let m = &mut s6;
    m.lit(pr.q(13)?); sp(m); m.lit(pr.q(14)?);
    }
    oq(m, false);
    m.add_all(&s6.items);
    cq(m);
    sp(m);
    m.lit(pr.mc(15)?);
    sp(m);
    match pr.opt(16)? {
    Some(v9) => {
    l(m, "=");
    sp(m);
    l(m, "::");
    sp(m);
    l(m, "=");
    }
    _ => {
    m.lit(pr.q(17)?); sp(m); m.lit(pr.q(18)?);
    if pr.b(19)? && pr.b(20)? {
    l(m, "'c'");
    if let Some(v11) = pr.opt(21)? {
    l(m, "while");
    } else {
    { let x = pr.q(23)?; let y = pr.q(24)?; m.lit(x); m.lit(y); }
    sp(m);
    l(m, "&");
    }
    } else {
    }
    sp(m);
    l(m, "{");
    l(m, "foo");
    l(m, ",");
    sp(m);
    {
    let mut it13 = 0..pr.n(25, 4)?;
    let mut step = || -> Flow<Option<u64>> { Ok(it13.next()) };
    while let Some(v12) = step()? {
    pr.mark(26)?; l(m, "blk");
    sp(m);
    if let Some(x) = pr.opt(27)? { m.lit(x); }
    }
    }
    m.lit(format!("<{}>", pr.q(28)?));
    l(m, "}");
    }
    }
    m.lit(pr.n(29, 9)?.to_string());
    tend(m);
    }
    }
    sp(m);
    p(m);
    sp(m);
    l(m, "x");
    sp(m);
    l(m, "(");
    tln(m);
    l(m, ")");
    Ok(())
}
fn real_52<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(vec![pr.q(1)?, pr.q(2)?])$(ref _ => if pr.b(3)? { pr.mark(4)?; }) $[str](plain) $(for _ in pr.it(5)? => $(ref _ => if pr.rare(6)? { return Err(Left::Return); })$$)
            $['\n'] $(pr.q(7)?.as_str())




            $(let mut v3 = pr.q(8)?)a1/**/(
            )
    }
    Ok(())
}
fn model_52(m: &mut MV, pr: &Pr) -> Flow {
    { let x = pr.q(1)?; let y = pr.q(2)?; m.lit(x); m.lit(y); }
    if pr.b(3)? { pr.mark(4)?; }
    sp(m);
    qs(m, "plain");
    sp(m);
    {
    let mut it2 = pr.it(5)?;
    let mut step = || -> Flow<Option<String>> { it2.step() };
    while let Some(_) = step()? {
    if pr.rare(6)? { return Err(Left::Return); }
    l(m, "$");
    }
    }
    tind(m);
    ln(m);
    sp(m);
    m.lit(pr.q(7)?);
    tln(m);
    let mut v3 = pr.q(8)?;
    l(m, "a1");
    sp(m);
    l(m, "(");
    tp(m);
    l(m, ")");
    tend(m);
    Ok(())
}
fn real_53<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        {       $(let v1 = pr.q(1)?) $(" lead")/**/$(if let (Some(v2), _) = (pr.opt(2)?, pr.b(3)?) { $['\n'] $(ref _ => if pr.rare(4)? { return Err(Left::Return); }) })$(pr.opt(5)?)}
                $[str](a b  c) /* between */ [
                ]       $(if pr.n(6, 3)? == 1 { $(if let Some(v3) = pr.opt(7)? => .){  $(for v4 in pr.it(9)? {
                    $(for v6 in pr.it(10)? { $(quoted(pr.q(11)?)) $({ if pr.b(12)? { "t" } else { "f" } }) && }) $(" lead")	{   
                        $(let v8 = pr.q(13)?) $({ pr.mark(14)?; "blk" })
                            $(if let (Some(v9), _) = (pr.opt(15)?, pr.b(16)?) { 'a x } else { $(Some(pr.q(17)?))$(pr.opt(18)?) /* between */ $(pr.opt(19)?) }) $(for v10 in pr.it(20)?.filter(|_| pr.cb(21)) join (	$(quoted(pr.q(22)?))	Self) {
                                $({ if pr.b(23)? { "t" } else { "f" } })
                            }) {
                            // between
                                ,$(pr.c(24))
                                    $(if pr.b(25)? {
                                        $(pr.opt(26)?)
                                        $(pr.c(27))	Self ?
                                        ;	Self$(pr.c(28))  identifier_identifier_identifier_identifier_end foo       while a1 $(pr.q(29)?) a1
                                        _y$(display(pr.n(30, 9)?))$(&pr.q(31)?) Self
                                    } else {
                                        'c'  "lit" /* between */ 0x1F {
                                            $(pr.c(32))  $$
                                        
                                        }
                                    })
                            }  $(if let Some(v12) = pr.opt(33)? { $({ pr.mark(35)?; "blk" }) $(pr.q(36)?) })$(pr.opt(37)?) // note
                    }
                })Self x, } }) $(&pr.q(38)?) x
    }
    Ok(())
}
fn model_53(m: &mut MV, pr: &Pr) -> Flow {
    l(m, "{");
    sp(m);
    let v1 = pr.q(1)?;
    sp(m);
    l(m, " lead");
    sp(m);
    if let (Some(v2), _) = (pr.opt(2)?, pr.b(3)?) {
    ln(m);
    sp(m);
    if pr.rare(4)? { return Err(Left::Return); }
    }
    if let Some(x) = pr.opt(5)? { m.lit(x); }
    l(m, "}");
    tind(m);
    qs(m, "a b  c");
    sp(m);
    l(m, "[");
    tp(m);
    l(m, "]");
    sp(m);
    if pr.n(6, 3)? == 1 {
    if let Some(v3) = pr.opt(7)? {
    l(m, ".");
    }
    l(m, "{");
    sp(m);
    {
    let mut it5 = pr.it(9)?;
    let mut step = || -> Flow<Option<String>> { it5.step() };
    while let Some(v4) = step()? {
    {
    let mut it7 = pr.it(10)?;
    let mut step = || -> Flow<Option<String>> { it7.step() };
    while let Some(v6) = step()? {
    { let x = pr.q(11)?; oq(m, false); m.lit(x); cq(m); }
    sp(m);
    l(m, if pr.b(12)? { "t" } else { "f" });
    sp(m);
    l(m, "&&");
    }
    }
    sp(m);
    l(m, " lead");
    sp(m);
    l(m, "{");
    tind(m);
    let v8 = pr.q(13)?;
    sp(m);
    pr.mark(14)?; l(m, "blk");
    tind(m);
    if let (Some(v9), _) = (pr.opt(15)?, pr.b(16)?) {
    l(m, "'a");
    sp(m);
    l(m, "x");
    } else {
    m.lit(pr.q(17)?);
    if let Some(x) = pr.opt(18)? { m.lit(x); }
    sp(m);
    if let Some(x) = pr.opt(19)? { m.lit(x); }
    }
    sp(m);
    {
    let mut it11 = pr.it(20)?;
    let mut step = || -> Flow<Option<String>> { while let Some(x) = it11.step()? { if pr.mcb(21)? { return Ok(Some(x)); } } Ok(None) };
    let mut next = step()?;
    while let Some(v10) = next {
    {
    l(m, if pr.b(23)? { "t" } else { "f" });
    }
    next = step()?;
    if next.is_some() {
    {
    sp(m);
    { let x = pr.q(22)?; oq(m, false); m.lit(x); cq(m); }
    sp(m);
    l(m, "Self");
    }
    }
    }
    }
    sp(m);
    l(m, "{");
    tind(m);
    tln(m);
    l(m, ",");
    m.lit(pr.mc(24)?);
    tind(m);
    if pr.b(25)? {
    if let Some(x) = pr.opt(26)? { m.lit(x); }
    tp(m);
    m.lit(pr.mc(27)?);
    sp(m);
    l(m, "Self");
    sp(m);
    l(m, "?");
    tp(m);
    l(m, ";");
    sp(m);
    l(m, "Self");
    m.lit(pr.mc(28)?);
    sp(m);
    l(m, "identifier_identifier_identifier_identifier_end");
    sp(m);
    l(m, "foo");
    sp(m);
    l(m, "while");
    sp(m);
    l(m, "a1");
    sp(m);
    m.lit(pr.q(29)?);
    sp(m);
    l(m, "a1");
    tp(m);
    l(m, "_y");
    m.lit(pr.n(30, 9)?.to_string());
    m.lit(pr.q(31)?);
    sp(m);
    l(m, "Self");
    } else {
    l(m, "'c'");
    sp(m);
    qs(m, "lit");
    sp(m);
    l(m, "0x1F");
    sp(m);
    l(m, "{");
    tind(m);
    m.lit(pr.mc(32)?);
    sp(m);
    l(m, "$");
    tun(m);
    tln(m);
    l(m, "}");
    }
    tun(m);
    tun(m);
    l(m, "}");
    sp(m);
    if let Some(v12) = pr.opt(33)? {
    pr.mark(35)?; l(m, "blk");
    sp(m);
    m.lit(pr.q(36)?);
    }
    if let Some(x) = pr.opt(37)? { m.lit(x); }
    tun(m);
    tun(m);
    l(m, "}");
    }
    }
    l(m, "Self");
    sp(m);
    l(m, "x");
    l(m, ",");
    sp(m);
    l(m, "}");
    }
    sp(m);
    m.lit(pr.q(38)?);
    sp(m);
    l(m, "x");
    tend(m);
    Ok(())
}
fn real_54<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        .$(match pr.q(1)? {
            v1 => { $(for v2 in pr.it(2)? join ( $(quote!(["lit"/**/$(pr.multi(3)?) ::]/**/$(match (pr.b(4)?, pr.n(5, 3)?) { (true, 0) => $(vec![pr.q(6)?, pr.q(7)?])$({ if pr.b(8)? { "t" } else { "f" } })       1_000u64, _ => bar })$(quote!($({ pr.mark(9)?; "blk" })$(pr.q(10)?))))){	x       bar	}) =>
                $(ref _ => if pr.rare(11)? { break; })
                $(pr.n(12, 9)?)/**/$(ref o7 { if pr.rare(13)? { o7.append(pr.q(14)?); return Err(Left::Return); } })$(v2.as_str()) r#type	(
                ) $(ref o8 { if pr.b(15)? { quote_in!(*o8 => $[str](a b  c)$(for (i11, v9) in pr.it(16)?.enumerate() join ($(Some(pr.q(17)?)) ) { while })); } o8.push(); })	$(display(pr.n(18, 9)?))) },
        }) /* between */ $(let mut v12 = pr.q(19)?)$(let v13 = pr.n(20, 9)?) $$
    }
    Ok(())
}
fn model_54(m: &mut MV, pr: &Pr) -> Flow {
    l(m, ".");
    match pr.q(1)? {
    v1 => {
    {
    let mut it3 = pr.it(2)?;
    let mut step = || -> Flow<Option<String>> { it3.step() };
    let mut next = step()?;
    while let Some(v2) = next {
    {
    if pr.rare(11)? { break; }
    tp(m);
    m.lit(pr.n(12, 9)?.to_string());
    sp(m);
    if pr.rare(13)? { m.lit(pr.q(14)?); return Err(Left::Return); }
    m.lit(v2.clone());
    sp(m);
    l(m, "r#type");
    sp(m);
    l(m, "(");
    tp(m);
    l(m, ")");
    sp(m);
    if pr.b(15)? {
    qs(m, "a b  c");
    {
    let mut it10 = pr.it(16)?;
    let mut at = 0u64;
    let mut step = || -> Flow<Option<(u64, String)>> { let x = it10.step()?; at += 1; Ok(x.map(|x| (at - 1, x))) };
    let mut next = step()?;
    while let Some((i11, v9)) = next {
    {
    l(m, "while");
    }
    next = step()?;
    if next.is_some() {
    {
    m.lit(pr.q(17)?);
    sp(m);
    }
    }
    }
    }
    }
    p(m);
    sp(m);
    m.lit(pr.n(18, 9)?.to_string());
    }
    next = step()?;
    if next.is_some() {
    {
    sp(m);
    let mut s4 = MStream::<()>::default();
    {
    let m = &mut s4;
    l(m, "[");
    qs(m, "lit");
    sp(m);
    pr.mmulti(3, m)?;
    sp(m);
    l(m, "::");
    l(m, "]");
    sp(m);
    match (pr.b(4)?, pr.n(5, 3)?) {
    (true, 0) => {
    { let x = pr.q(6)?; let y = pr.q(7)?; m.lit(x); m.lit(y); }
    l(m, if pr.b(8)? { "t" } else { "f" });
    sp(m);
    l(m, "1_000u64");
    }
    _ => {
    l(m, "bar");
    }
    }
    let mut s6 = MStream::<()>::default();
    {
    let m = &mut s6;
    pr.mark(9)?; l(m, "blk");
    m.lit(pr.q(10)?);
    }
    m.add_all(&s6.items);
    }
    m.add_all(&s4.items);
    l(m, "{");
    sp(m);
    l(m, "x");
    sp(m);
    l(m, "bar");
    sp(m);
    l(m, "}");
    }
    }
    }
    }
    }
    }
    sp(m);
    let mut v12 = pr.q(19)?;
    let v13 = pr.n(20, 9)?;
    sp(m);
    l(m, "$");
    Ok(())
}
fn real_55<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(&pr.q(1)?) (
            {identifier_identifier_identifier_identifier_end ($$ [$$ a1 $(quoted(pr.q(2)?))] $(display(pr.n(3, 9)?))) $(Some(pr.q(4)?))}{}

                $(let v1 = pr.q(5)?)$(pr.opt(6)?) {
                    $(ref o2 {
                        for _ in 0..pr.n(7, 3)? {
                            quote_in! { *o2 =>
                                $(ref _ => if pr.b(8)? { pr.mark(9)?; })$(for v3 in 0..pr.n(10, 4)? => while/**/$(pr.n(11, 9)?) $(ref _ => if pr.b(12)? { pr.mark(13)?; }))
                            }
                            o2.line();
                        }
                    })$(pr.multi(14)?)
                } $(Some(pr.q(15)?))
        )
    }
    Ok(())
}
fn model_55(m: &mut MV, pr: &Pr) -> Flow {
    m.lit(pr.q(1)?);
    sp(m);
    l(m, "(");
    tind(m);
    l(m, "{");
    l(m, "identifier_identifier_identifier_identifier_end");
    sp(m);
    l(m, "(");
    l(m, "$");
    sp(m);
    l(m, "[");
    l(m, "$");
    sp(m);
    l(m, "a1");
    sp(m);
    { let x = pr.q(2)?; oq(m, false); m.lit(x); cq(m); }
    l(m, "]");
    sp(m);
    m.lit(pr.n(3, 9)?.to_string());
    l(m, ")");
    sp(m);
    m.lit(pr.q(4)?);
    l(m, "}");
    l(m, "{}");
    tind(m);
    tln(m);
    let v1 = pr.q(5)?;
    if let Some(x) = pr.opt(6)? { m.lit(x); }
    sp(m);
    l(m, "{");
    tind(m);
    for _ in 0..pr.n(7, 3)? {
    if pr.b(8)? { pr.mark(9)?; }
    {
    let mut it4 = 0..pr.n(10, 4)?;
    let mut step = || -> Flow<Option<u64>> { Ok(it4.next()) };
    while let Some(v3) = step()? {
    l(m, "while");
    sp(m);
    m.lit(pr.n(11, 9)?.to_string());
    sp(m);
    if pr.b(12)? { pr.mark(13)?; }
    }
    }
    ln(m);
    }
    pr.mmulti(14, m)?;
    tun(m);
    l(m, "}");
    sp(m);
    m.lit(pr.q(15)?);
    tun(m);
    tun(m);
    l(m, ")");
    Ok(())
}
fn real_56<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(from_fn(|t| { t.append(pr.c(1)); t.space(); t.append(pr.c(2)); }))foo       $(pr.c(3))  $[str]($[const](pr.q(4)?)$name-$($(for v1 in pr.it(5)? { $(for _ in pr.it(6)? => $(for v5 in [pr.q(7)?, pr.q(8)?] join (  a1) => $(pr.n(9, 9)?) $(pr.q(10)?)$(from_fn(|t| { t.append(pr.c(11)); t.space(); t.append(pr.c(12)); })))/**/$(quoted(pr.q(13)?))) /* between */ $(vec![pr.q(14)?, pr.q(15)?])$(&quote!($(pr.opt(16)?)+ /* between */ $(let v8 = pr.q(17)?))) })$(for v9 in pr.it(18)? join (, ) => $(from_fn(|t| { t.append(pr.c(22)); t.space(); t.append(pr.c(23)); }))))$name-)
             &$(if let Some(v13) = pr.opt(24)? {})_y
    }
    Ok(())
}
fn model_56(m: &mut MV, pr: &Pr) -> Flow {
    m.lit(pr.mc(1)?); sp(m); m.lit(pr.mc(2)?);
    l(m, "foo");
    sp(m);
    m.lit(pr.mc(3)?);
    sp(m);
    oq(m, true);
    m.lit(pr.q(4)?);
    oe(m);
    l(m, "name");
    ce(m);
    l(m, "-");
    oe(m);
    {
    {
    let mut it2 = pr.it(5)?;
    let mut step = || -> Flow<Option<String>> { it2.step() };
    while let Some(v1) = step()? {
    {
    let mut it4 = pr.it(6)?;
    let mut step = || -> Flow<Option<String>> { it4.step() };
    while let Some(_) = step()? {
    {
    let mut it6 = [pr.q(7)?, pr.q(8)?].into_iter();
    let mut step = || -> Flow<Option<String>> { Ok(it6.next()) };
    let mut next = step()?;
    while let Some(v5) = next {
    {
    m.lit(pr.n(9, 9)?.to_string());
    sp(m);
    m.lit(pr.q(10)?);
    m.lit(pr.mc(11)?); sp(m); m.lit(pr.mc(12)?);
    }
    next = step()?;
    if next.is_some() {
    {
    sp(m);
    l(m, "a1");
    }
    }
    }
    }
    sp(m);
    { let x = pr.q(13)?; oq(m, false); m.lit(x); cq(m); }
    }
    }
    sp(m);
    { let x = pr.q(14)?; let y = pr.q(15)?; m.lit(x); m.lit(y); }
    let mut s7 = MStream::<()>::default();
    {
    let m = &mut s7;
    if let Some(x) = pr.opt(16)? { m.lit(x); }
    l(m, "+");
    sp(m);
    let v8 = pr.q(17)?;
    }
    m.add_all(&s7.items);
    }
    }
    {
    let mut it10 = pr.it(18)?;
    let mut step = || -> Flow<Option<String>> { it10.step() };
    let mut next = step()?;
    while let Some(v9) = next {
    {
    m.lit(pr.mc(22)?); sp(m); m.lit(pr.mc(23)?);
    }
    next = step()?;
    if next.is_some() {
    {
    l(m, ",");
    sp(m);
    }
    }
    }
    }
    }
    ce(m);
    oe(m);
    l(m, "name");
    ce(m);
    l(m, "-");
    cq(m);
    tind(m);
    l(m, "&");
    if let Some(v13) = pr.opt(24)? {
    }
    l(m, "_y");
    tend(m);
    Ok(())
}
fn real_57<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(for v1 in pr.it(1)? {
            $(ref o3 { if pr.rare(2)? { o3.append(pr.q(3)?); break; } })
            $(if pr.b(4)? { ; })
             $[str](1 + 2) (
             ) /* between */ $(quoted(pr.q(5)?))
                        $[str](a b  c) /* between */ $[str](one$[const](pr.q(6)?))
            $[str](1 + 2)/**/a1
            +
            
                       $(&quote! {
                           $(display(pr.n(7, 9)?))$(ref _ => if pr.rare(8)? { break; }) $[str]($name-) /* between */ $['\r'] x {
                               $(let v5 = pr.q(9)?)
                           
                           
                               $(ref o6 { if pr.b(10)? { quote_in!(*o6 => foo$(ref _ => if pr.rare(11)? { continue; })       $(ref o7 { if pr.rare(12)? { o7.append(pr.q(13)?); break; } })); } o6.push(); })
                           }
                       })// note
            
                       $(match pr.n(14, 9)? {
                           v8 => foo       x
                       }) $v1/**/{
                       }
        })/**/[
        ]
        // between

           $(pr.multi(15)?)       $(let v9 = pr.n(16, 9)?)
    }
    Ok(())
}
fn model_57(m: &mut MV, pr: &Pr) -> Flow {
    {
    let mut it2 = pr.it(1)?;
    let mut step = || -> Flow<Option<String>> { it2.step() };
    while let Some(v1) = step()? {
    if pr.rare(2)? { m.lit(pr.q(3)?); break; }
    tp(m);
    if pr.b(4)? {
    l(m, ";");
    }
    tind(m);
    qs(m, "1 + 2");
    sp(m);
    l(m, "(");
    tp(m);
    l(m, ")");
    sp(m);
    { let x = pr.q(5)?; oq(m, false); m.lit(x); cq(m); }
    tind(m);
    qs(m, "a b  c");
    sp(m);
    oq(m, false);
    l(m, "one");
    m.lit(pr.q(6)?);
    cq(m);
    tun(m);
    tun(m);
    qs(m, "1 + 2");
    sp(m);
    l(m, "a1");
    tp(m);
    l(m, "+");
    tind(m);
    tln(m);
    let mut s4 = MStream::<()>::default();
    {
    let m = &mut s4;
    m.lit(pr.n(7, 9)?.to_string());
    if pr.rare(8)? { break; }
    sp(m);
    oq(m, true);
    oe(m);
    l(m, "name");
    ce(m);
    l(m, "-");
    cq(m);
    sp(m);
    p(m);
    sp(m);
    l(m, "x");
    sp(m);
    l(m, "{");
    tind(m);
    let v5 = pr.q(9)?;
    tln(m);
    if pr.b(10)? {
    l(m, "foo");
    if pr.rare(11)? { continue; }
    sp(m);
    if pr.rare(12)? { m.lit(pr.q(13)?); break; }
    }
    p(m);
    tun(m);
    l(m, "}");
    }
    m.add_all(&s4.items);
    tln(m);
    match pr.n(14, 9)? {
    v8 => {
    l(m, "foo");
    sp(m);
    l(m, "x");
    }
    }
    sp(m);
    m.lit(v1);
    sp(m);
    l(m, "{");
    tp(m);
    l(m, "}");
    tend(m);
    }
    }
    sp(m);
    l(m, "[");
    tp(m);
    l(m, "]");
    tind(m);
    tln(m);
    pr.mmulti(15, m)?;
    sp(m);
    let v9 = pr.n(16, 9)?;
    tend(m);
    Ok(())
}
fn real_58<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $({ pr.mark(1)?; "blk" })
        $(ref o1 { o1.append(pr.q(2)?); o1.space(); o1.append(pr.q(3)?); })$(quote! {
            $(match pr.n(4, 9)? {
                v3 => { _y /* between */ () },
            }) (
            )
        }) $(if pr.n(5, 3)? == 1 => $(quote! {
            $(Some(pr.q(6)?)) (($(display(pr.n(11, 9)?)) [$(pr.q(9)?) {$(quoted(pr.q(8)?)) $(&pr.q(7)?) $$} $(quoted(pr.q(10)?))] $$))$(ref o5 {
                for _ in 0..pr.n(12, 3)? {
                    quote_in! { *o5 =>
                        nameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameame$(match pr.n(13, 11)? { v6 if v6 == 0 && pr.b(14)? => {} 1 => $(display(pr.n(18, 9)?))1_000u64/**/..=, v7 if v7 == 2 && pr.b(15)? => { $(pr.q(19)?) } 3 => ($$=	), 4 if pr.b(16)? => (	::	Self $(pr.c(20))), 5 => { $$ $(format!("<{}>", pr.q(21)?)) }, 6 | 26 => { bar }, 7 if pr.b(17)? => { $(pr.c(22))a1$(vec![pr.q(23)?, pr.q(24)?]) } 8 | 28 => _y 0x1F	a1, v8 => { $(&pr.q(25)?) }, })$(ref o9 { if pr.rare(26)? { o9.append(pr.q(27)?); break; } })$(ref o10 { o10.append(pr.q(28)?); o10.space(); o10.append(pr.q(29)?); })
                    }
                    o5.line();
                }
            })
            1_000u64
        })  $(for v11 in pr.it(30)?.filter(|_| pr.cb(31)) join ( $[str](a b  c)) { $(ref o13 => quote_in!(*o13 => $[str]($[const](pr.q(33)?) - -$name- - three$[const]("con st")$name-$name- -)))$(let v14 = pr.n(34, 9)?) })$(if pr.b(35)? || !pr.b(36)? { a1$(for v15 in pr.it(37)? join ( $(quote!("lit"$(pr.q(38)?.as_str())))) => $("ver batim")	$v15) $(pr.q(39)?.as_str()) }))  _y
    }
    Ok(())
}
fn model_58(m: &mut MV, pr: &Pr) -> Flow {
    pr.mark(1)?; l(m, "blk");
    tp(m);
    m.lit(pr.q(2)?); sp(m); m.lit(pr.q(3)?);
    let mut s2 = MStream::<()>::default();
    {
    let m = &mut s2;
    match pr.n(4, 9)? {
    v3 => {
    l(m, "_y");
    sp(m);
    l(m, "()");
    }
    }
    sp(m);
    l(m, "(");
    tp(m);
    l(m, ")");
    }
    m.add_all(&s2.items);
    sp(m);
    if pr.n(5, 3)? == 1 {
    let mut s4 = MStream::<()>::default();
    {
    let m = &mut s4;
    m.lit(pr.q(6)?);
    sp(m);
    l(m, "(");
    l(m, "(");
    m.lit(pr.n(11, 9)?.to_string());
    sp(m);
    l(m, "[");
    m.lit(pr.q(9)?);
    sp(m);
    l(m, "{");
    { let x = pr.q(8)?; oq(m, false); m.lit(x); cq(m); }
    sp(m);
    m.lit(pr.q(7)?);
    sp(m);
    l(m, "$");
    l(m, "}");
    sp(m);
    { let x = pr.q(10)?; oq(m, false); m.lit(x); cq(m); }
    l(m, "]");
    sp(m);
    l(m, "$");
    l(m, ")");
    l(m, ")");
    for _ in 0..pr.n(12, 3)? {
    l(m, "nameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameame");
    match pr.n(13, 11)? {
    v6 if v6 == 0 && pr.b(14)? => {
    }
    1 => {
    m.lit(pr.n(18, 9)?.to_string());
    l(m, "1_000u64");
    sp(m);
    l(m, "..=");
    }
    v7 if v7 == 2 && pr.b(15)? => {
    m.lit(pr.q(19)?);
    }
    3 => {
    l(m, "$");
    l(m, "=");
    sp(m);
    }
    4 if pr.b(16)? => {
    sp(m);
    l(m, "::");
    sp(m);
    l(m, "Self");
    sp(m);
    m.lit(pr.mc(20)?);
    }
    5 => {
    l(m, "$");
    sp(m);
    m.lit(format!("<{}>", pr.q(21)?));
    }
    6 | 26 => {
    l(m, "bar");
    }
    7 if pr.b(17)? => {
    m.lit(pr.mc(22)?);
    l(m, "a1");
    { let x = pr.q(23)?; let y = pr.q(24)?; m.lit(x); m.lit(y); }
    }
    8 | 28 => {
    l(m, "_y");
    sp(m);
    l(m, "0x1F");
    sp(m);
    l(m, "a1");
    }
    v8 => {
    m.lit(pr.q(25)?);
    }
    }
    if pr.rare(26)? { m.lit(pr.q(27)?); break; }
    m.lit(pr.q(28)?); sp(m); m.lit(pr.q(29)?);
    ln(m);
    }
    tp(m);
    l(m, "1_000u64");
    }
    m.add_all(&s4.items);
    sp(m);
    {
    let mut it12 = pr.it(30)?;
    let mut step = || -> Flow<Option<String>> { while let Some(x) = it12.step()? { if pr.mcb(31)? { return Ok(Some(x)); } } Ok(None) };
    let mut next = step()?;
    while let Some(v11) = next {
    {
    {
    oq(m, true);
    m.lit(pr.q(33)?);
    l(m, " - -");
    oe(m);
    l(m, "name");
    ce(m);
    l(m, "- - threecon st");
    oe(m);
    l(m, "name");
    ce(m);
    l(m, "-");
    oe(m);
    l(m, "name");
    ce(m);
    l(m, "- -");
    cq(m);
    }
    let v14 = pr.n(34, 9)?;
    }
    next = step()?;
    if next.is_some() {
    {
    sp(m);
    qs(m, "a b  c");
    }
    }
    }
    }
    if pr.b(35)? || !pr.b(36)? {
    l(m, "a1");
    {
    let mut it16 = pr.it(37)?;
    let mut step = || -> Flow<Option<String>> { it16.step() };
    let mut next = step()?;
    while let Some(v15) = next {
    {
    l(m, "ver batim");
    sp(m);
    m.lit(v15);
    }
    next = step()?;
    if next.is_some() {
    {
    sp(m);
    let mut s17 = MStream::<()>::default();
    {
    let m = &mut s17;
    qs(m, "lit");
    m.lit(pr.q(38)?);
    }
    m.add_all(&s17.items);
    }
    }
    }
    }
    sp(m);
    m.lit(pr.q(39)?);
    }
    }
    sp(m);
    l(m, "_y");
    Ok(())
}
fn real_59<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(pr.q(1)?)       $(ref o1 {
            for _ in 0..pr.n(2, 3)? {
                quote_in! { *o1 =>
                    $("ver batim") (
                     $({ pr.mark(3)?; "blk" }) $(if pr.b(4)? { $(pr.q(5)?)$(match pr.opt(6)? {
                         Some(v3) => ($(if pr.b(7)? { while } else { Self }) /* between */ ),
                         _ => $(ref o4 => quote_in!(*o4 => $(&pr.q(9)?))) ( while  $({ pr.mark(10)?; "blk" })&/**/"lit", $({ pr.mark(11)?; "blk" }) ),
                     })       $(ref o5 { if pr.b(12)? { quote_in!(*o5 => $("ver batim") 'a); } o5.push(); }) })$({ pr.mark(13)?; "blk" }) [
                      $(quoted(pr.q(14)?))
                      bar$[' ']/**/$[str]($$) $(quoted(pr.q(15)?))
                     ]
                    
                    )
                }
                o1.line();
            }
        })$(ref _ => if pr.b(16)? { pr.mark(17)?; }) // note
        $(pr.c(18))$(quote!($(ref _ { pr.mark(19)?; })/**/$(quote!($(match pr.b(20)? { true | false => { bar  $(for v9 in pr.it(21)? join ( x ) => while) } })$(if let (Some(v11), _) = (pr.opt(22)?, pr.b(23)?) { $(for v12 in pr.opt(24)? join ($({ pr.mark(25)?; "blk" })$$) { $(&pr.q(26)?) while }) } else { $(ref o14 { if pr.b(27)? { quote_in!(*o14 => $(Some(pr.q(28)?))$(&pr.q(29)?)$(pr.multi(30)?)); } o14.push(); }) $(for v15 in pr.it(31)? { $({ if pr.b(32)? { "t" } else { "f" } })       $(pr.q(33)?)/**/_y }) })))$(vec![pr.q(34)?, pr.q(35)?])))  +$(display(pr.n(36, 9)?))
        $(for v17 in pr.opt(37)? join (/**/$(ref _ { pr.mark(38)?; })) {})$(pr.multi(39)?)	[
        ]
    }
    Ok(())
}
fn model_59(m: &mut MV, pr: &Pr) -> Flow {
    m.lit(pr.q(1)?);
    sp(m);
    for _ in 0..pr.n(2, 3)? {
    l(m, "ver batim");
    sp(m);
    l(m, "(");
    tind(m);
    pr.mark(3)?; l(m, "blk");
    sp(m);
    if pr.b(4)? {
    m.lit(pr.q(5)?);
    match pr.opt(6)? {
    Some(v3) => {
    if pr.b(7)? {
    l(m, "while");
    } else {
    l(m, "Self");
    }
    sp(m);
    }
    _ => {
    {
    m.lit(pr.q(9)?);
    }
    sp(m);
    l(m, "(");
    sp(m);
    l(m, "while");
    sp(m);
    pr.mark(10)?; l(m, "blk");
    l(m, "&");
    sp(m);
    qs(m, "lit");
    l(m, ",");
    sp(m);
    pr.mark(11)?; l(m, "blk");
    sp(m);
    l(m, ")");
    }
    }
    sp(m);
    if pr.b(12)? {
    l(m, "ver batim");
    sp(m);
    l(m, "'a");
    }
    p(m);
    }
    pr.mark(13)?; l(m, "blk");
    sp(m);
    l(m, "[");
    tind(m);
    { let x = pr.q(14)?; oq(m, false); m.lit(x); cq(m); }
    tp(m);
    l(m, "bar");
    sp(m);
    sp(m);
    oq(m, false);
    l(m, "$");
    cq(m);
    sp(m);
    { let x = pr.q(15)?; oq(m, false); m.lit(x); cq(m); }
    tun(m);
    l(m, "]");
    tun(m);
    tln(m);
    l(m, ")");
    ln(m);
    }
    if pr.b(16)? { pr.mark(17)?; }
    tp(m);
    m.lit(pr.mc(18)?);
    let mut s6 = MStream::<()>::default();
    {
    let m = &mut s6;
    pr.mark(19)?;
    sp(m);
    let mut s7 = MStream::<()>::default();
    {
    let m = &mut s7;
    match pr.b(20)? {
    true | false => {
    l(m, "bar");
    sp(m);
    {
    let mut it10 = pr.it(21)?;
    let mut step = || -> Flow<Option<String>> { it10.step() };
    let mut next = step()?;
    while let Some(v9) = next {
    {
    l(m, "while");
    }
    next = step()?;
    if next.is_some() {
    {
    sp(m);
    l(m, "x");
    sp(m);
    }
    }
    }
    }
    }
    }
    if let (Some(v11), _) = (pr.opt(22)?, pr.b(23)?) {
    {
    let mut it13 = pr.opt(24)?.into_iter();
    let mut step = || -> Flow<Option<String>> { Ok(it13.next()) };
    let mut next = step()?;
    while let Some(v12) = next {
    {
    m.lit(pr.q(26)?);
    sp(m);
    l(m, "while");
    }
    next = step()?;
    if next.is_some() {
    {
    pr.mark(25)?; l(m, "blk");
    l(m, "$");
    }
    }
    }
    }
    } else {
    if pr.b(27)? {
    m.lit(pr.q(28)?);
    m.lit(pr.q(29)?);
    pr.mmulti(30, m)?;
    }
    p(m);
    sp(m);
    {
    let mut it16 = pr.it(31)?;
    let mut step = || -> Flow<Option<String>> { it16.step() };
    while let Some(v15) = step()? {
    l(m, if pr.b(32)? { "t" } else { "f" });
    sp(m);
    m.lit(pr.q(33)?);
    sp(m);
    l(m, "_y");
    }
    }
    }
    }
    m.add_all(&s7.items);
    { let x = pr.q(34)?; let y = pr.q(35)?; m.lit(x); m.lit(y); }
    }
    m.add_all(&s6.items);
    sp(m);
    l(m, "+");
    m.lit(pr.n(36, 9)?.to_string());
    tp(m);
    {
    let mut it18 = pr.opt(37)?.into_iter();
    let mut step = || -> Flow<Option<String>> { Ok(it18.next()) };
    let mut next = step()?;
    while let Some(v17) = next {
    {
    }
    next = step()?;
    if next.is_some() {
    {
    sp(m);
    pr.mark(38)?;
    }
    }
    }
    }
    pr.mmulti(39, m)?;
    sp(m);
    l(m, "[");
    tp(m);
    l(m, "]");
    Ok(())
}
fn real_60<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(&quote!($(if pr.b(1)? { a1$[str]($[const](pr.q(2)?)- two one$[const](pr.q(3)?)$(<<=  $(if let Some(v2) = pr.opt(4)? { x$(pr.c(6)) })) $$ $name-$[const](pr.q(7)?)$name-$[const](pr.q(8)?)) }) $(" lead") $(for v3 in 0..pr.n(9, 4)? { $[str](1 + 2)  $(ref _ { pr.mark(10)?; })$(&quote!($(for v6 in pr.it(11)?.filter(|_| pr.cb(12)) join (, ) => $(pr.multi(15)?).)$(if pr.b(16)? && pr.b(17)? {})$(display(pr.n(18, 9)?)))) })))  $(pr.multi(19)?):: {$(for v8 in pr.opt(20)? { $(for (i12, v10) in pr.it(21)?.enumerate() { $("ä")$(for v13 in pr.it(22)? => $(pr.opt(23)?)$(pr.q(24)?)$(display(pr.n(25, 9)?))) $(ref o15 { if pr.rare(26)? { o15.append(pr.q(27)?); break; } }) })$(if pr.b(28)? { $(ref o16 {
            for _ in 0..pr.n(29, 3)? {
                quote_in! { *o16 =>
                    $(pr.opt(30)?) größe r#type while
                    .       =>a1
                }
                o16.line();
            }
        }) $(ref _ => if pr.rare(31)? { return Err(Left::Return); }) })       $(for v17 in 0..pr.n(32, 4)? => $("ä")$(" lead")$(for v19 in pr.opt(33)? { bar })) })?$[str](1 + 2)}
    }
    Ok(())
}
fn model_60(m: &mut MV, pr: &Pr) -> Flow {
    let mut s1 = MStream::<()>::default();
    {
    let m = &mut s1;
    if pr.b(1)? {
    l(m, "a1");
    oq(m, true);
    m.lit(pr.q(2)?);
    l(m, "- two one");
    m.lit(pr.q(3)?);
    oe(m);
    {
    l(m, "<<=");
    sp(m);
    if let Some(v2) = pr.opt(4)? {
    l(m, "x");
    m.lit(pr.mc(6)?);
    }
    }
    ce(m);
    l(m, " $ ");
    oe(m);
    l(m, "name");
    ce(m);
    l(m, "-");
    m.lit(pr.q(7)?);
    oe(m);
    l(m, "name");
    ce(m);
    l(m, "-");
    m.lit(pr.q(8)?);
    cq(m);
    }
    sp(m);
    l(m, " lead");
    sp(m);
    {
    let mut it4 = 0..pr.n(9, 4)?;
    let mut step = || -> Flow<Option<u64>> { Ok(it4.next()) };
    while let Some(v3) = step()? {
    qs(m, "1 + 2");
    sp(m);
    pr.mark(10)?;
    let mut s5 = MStream::<()>::default();
    {
    let m = &mut s5;
    {
    let mut it7 = pr.it(11)?;
    let mut step = || -> Flow<Option<String>> { while let Some(x) = it7.step()? { if pr.mcb(12)? { return Ok(Some(x)); } } Ok(None) };
    let mut next = step()?;
    while let Some(v6) = next {
    {
    pr.mmulti(15, m)?;
    l(m, ".");
    }
    next = step()?;
    if next.is_some() {
    {
    l(m, ",");
    sp(m);
    }
    }
    }
    }
    if pr.b(16)? && pr.b(17)? {
    }
    m.lit(pr.n(18, 9)?.to_string());
    }
    m.add_all(&s5.items);
    }
    }
    }
    m.add_all(&s1.items);
    sp(m);
    pr.mmulti(19, m)?;
    l(m, "::");
    sp(m);
    l(m, "{");
    {
    let mut it9 = pr.opt(20)?.into_iter();
    let mut step = || -> Flow<Option<String>> { Ok(it9.next()) };
    while let Some(v8) = step()? {
    {
    let mut it11 = pr.it(21)?;
    let mut at = 0u64;
    let mut step = || -> Flow<Option<(u64, String)>> { let x = it11.step()?; at += 1; Ok(x.map(|x| (at - 1, x))) };
    while let Some((i12, v10)) = step()? {
    l(m, "ä");
    {
    let mut it14 = pr.it(22)?;
    let mut step = || -> Flow<Option<String>> { it14.step() };
    while let Some(v13) = step()? {
    if let Some(x) = pr.opt(23)? { m.lit(x); }
    m.lit(pr.q(24)?);
    m.lit(pr.n(25, 9)?.to_string());
    }
    }
    sp(m);
    if pr.rare(26)? { m.lit(pr.q(27)?); break; }
    }
    }
    if pr.b(28)? {
    for _ in 0..pr.n(29, 3)? {
    if let Some(x) = pr.opt(30)? { m.lit(x); }
    sp(m);
    l(m, "größe");
    sp(m);
    l(m, "r#type");
    sp(m);
    l(m, "while");
    tp(m);
    l(m, ".");
    sp(m);
    l(m, "=>");
    l(m, "a1");
    ln(m);
    }
    sp(m);
    if pr.rare(31)? { return Err(Left::Return); }
    }
    sp(m);
    {
    let mut it18 = 0..pr.n(32, 4)?;
    let mut step = || -> Flow<Option<u64>> { Ok(it18.next()) };
    while let Some(v17) = step()? {
    l(m, "ä");
    l(m, " lead");
    {
    let mut it20 = pr.opt(33)?.into_iter();
    let mut step = || -> Flow<Option<String>> { Ok(it20.next()) };
    while let Some(v19) = step()? {
    l(m, "bar");
    }
    }
    }
    }
    }
    }
    l(m, "?");
    qs(m, "1 + 2");
    l(m, "}");
    Ok(())
}
fn real_61<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        ()while $(format!("<{}>", pr.q(1)?))$(match (pr.b(2)?, pr.n(3, 3)?) { (true, 0) => $(quote!($(pr.multi(5)?)))[$(let v3 = pr.q(6)?) $(ref o4 { if pr.b(7)? { quote_in!(*o4 => $(for v5 in pr.it(8)?.filter(|_| pr.cb(9)) join ( . ) { $$ })); } o4.push(); })], (_, 1) | (true, _) => { $(let v7 = pr.q(10)?) /* between */ & } _ if pr.b(4)? => Self "lit", (..) => { $[str]($name-$name-) } })
        [$(Some(pr.q(11)?)) $(quote!(foo))]$(display(pr.n(12, 9)?))while $(format!("<{}>", pr.q(13)?)) {

         $({ if pr.b(14)? { "t" } else { "f" } }) (

         )
        }
    }
    Ok(())
}
fn model_61(m: &mut MV, pr: &Pr) -> Flow {
    l(m, "()");
    l(m, "while");
    sp(m);
    m.lit(format!("<{}>", pr.q(1)?));
    match (pr.b(2)?, pr.n(3, 3)?) {
    (true, 0) => {
    let mut s2 = MStream::<()>::default();
    {
    let m = &mut s2;
    pr.mmulti(5, m)?;
    }
    m.add_all(&s2.items);
    l(m, "[");
    let v3 = pr.q(6)?;
    sp(m);
    if pr.b(7)? {
    {
    let mut it6 = pr.it(8)?;
    let mut step = || -> Flow<Option<String>> { while let Some(x) = it6.step()? { if pr.mcb(9)? { return Ok(Some(x)); } } Ok(None) };
    let mut next = step()?;
    while let Some(v5) = next {
    {
    l(m, "$");
    }
    next = step()?;
    if next.is_some() {
    {
    sp(m);
    l(m, ".");
    sp(m);
    }
    }
    }
    }
    }
    p(m);
    l(m, "]");
    }
    (_, 1) | (true, _) => {
    let v7 = pr.q(10)?;
    sp(m);
    l(m, "&");
    }
    _ if pr.b(4)? => {
    l(m, "Self");
    sp(m);
    qs(m, "lit");
    }
    (..) => {
    oq(m, true);
    oe(m);
    l(m, "name");
    ce(m);
    l(m, "-");
    oe(m);
    l(m, "name");
    ce(m);
    l(m, "-");
    cq(m);
    }
    }
    tp(m);
    l(m, "[");
    m.lit(pr.q(11)?);
    sp(m);
    let mut s8 = MStream::<()>::default();
    {
    let m = &mut s8;
    l(m, "foo");
    }
    m.add_all(&s8.items);
    l(m, "]");
    m.lit(pr.n(12, 9)?.to_string());
    l(m, "while");
    sp(m);
    m.lit(format!("<{}>", pr.q(13)?));
    sp(m);
    l(m, "{");
    tind(m);
    tln(m);
    l(m, if pr.b(14)? { "t" } else { "f" });
    sp(m);
    l(m, "(");
    tln(m);
    l(m, ")");
    tun(m);
    l(m, "}");
    Ok(())
}
fn real_62<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(ref _ => if pr.rare(1)? { return Err(Left::Return); }) /* between */ $(let mut v1 = pr.q(2)?)
        $(pr.multi(3)?) $(&v1)$(match (pr.b(4)?, pr.q(5)?) { (_, v2) => { $(for v3 in pr.opt(6)? { $(&quote!($(ref _ => if pr.rare(7)? { break; }). $(ref o6 { if pr.b(8)? { quote_in!(*o6 => $(vec![pr.q(9)?, pr.q(10)?])); } o6.push(); }))) foo$[str](1 + 2) }) } })

            $$/**/$(ref o7 { if pr.rare(11)? { o7.append(pr.q(12)?); return Err(Left::Return); } }) $(v1.clone()) $(Some(pr.q(13)?))
            $(if pr.b(14)? { $[str](a b  c) } else {})$(ref o8 { if pr.rare(15)? { o8.append(pr.q(16)?); return Err(Left::Return); } })	$(ref o9 { if pr.rare(17)? { o9.append(pr.q(18)?); return Err(Left::Return); } })
    }
    Ok(())
}
fn model_62(m: &mut MV, pr: &Pr) -> Flow {
    if pr.rare(1)? { return Err(Left::Return); }
    sp(m);
    let mut v1 = pr.q(2)?;
    tp(m);
    pr.mmulti(3, m)?;
    sp(m);
    m.lit(v1.clone());
    match (pr.b(4)?, pr.q(5)?) {
    (_, v2) => {
    {
    let mut it4 = pr.opt(6)?.into_iter();
    let mut step = || -> Flow<Option<String>> { Ok(it4.next()) };
    while let Some(v3) = step()? {
    let mut s5 = MStream::<()>::default();
    {
    let m = &mut s5;
    if pr.rare(7)? { break; }
    l(m, ".");
    sp(m);
    if pr.b(8)? {
    { let x = pr.q(9)?; let y = pr.q(10)?; m.lit(x); m.lit(y); }
    }
    p(m);
    }
    m.add_all(&s5.items);
    sp(m);
    l(m, "foo");
    qs(m, "1 + 2");
    }
    }
    }
    }
    tind(m);
    tln(m);
    l(m, "$");
    sp(m);
    if pr.rare(11)? { m.lit(pr.q(12)?); return Err(Left::Return); }
    sp(m);
    m.lit(v1.clone());
    sp(m);
    m.lit(pr.q(13)?);
    tp(m);
    if pr.b(14)? {
    qs(m, "a b  c");
    } else {
    }
    if pr.rare(15)? { m.lit(pr.q(16)?); return Err(Left::Return); }
    sp(m);
    if pr.rare(17)? { m.lit(pr.q(18)?); return Err(Left::Return); }
    tend(m);
    Ok(())
}
fn real_63<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        {}       {$(match pr.q(1)? {
            v1 => $$ ( /* between */ $(ref o2 {
                for _ in 0..pr.n(2, 3)? {
                    quote_in! { *o2 =>
                        $(Some(pr.q(3)?))$$       $(&pr.q(4)?)	$$
                            $(display(pr.n(5, 9)?)) $(pr.n(6, 9)?) $(pr.n(7, 9)?) , $(from_fn(|t| { t.append(pr.c(8)); t.space(); t.append(pr.c(9)); }))$(format!("<{}>", pr.q(10)?)) $(&pr.q(11)?)
                    }
                    o2.line();
                }
            })$(pr.q(12)?), $(if pr.b(13)? => $(pr.opt(14)?)"lit")$(pr.q(15)?.as_str()))
        })$(ref _ => if pr.rare(16)? { return Err(Left::Return); })$(quoted(pr.q(17)?))} $(quoted(pr.q(18)?))

        $(match pr.b(19)? { true | false => { $(ref o4 { o4.append(pr.q(20)?); o4.space(); o4.append(pr.q(21)?); })       $(if let (Some(v5), _) = (pr.opt(22)?, pr.b(23)?) { <<=$(ref _ => if pr.rare(24)? { return Err(Left::Return); }) }) foo } }) $(ref _ => if pr.rare(25)? { return Err(Left::Return); })$(let (v6, v7) = (pr.q(26)?, pr.n(27, 9)?))
    }
    Ok(())
}
fn model_63(m: &mut MV, pr: &Pr) -> Flow {
    l(m, "{}");
    sp(m);
    l(m, "{");
    match pr.q(1)? {
    v1 => {
    l(m, "$");
    sp(m);
    l(m, "(");
    sp(m);
    for _ in 0..pr.n(2, 3)? {
    m.lit(pr.q(3)?);
    l(m, "$");
    sp(m);
    m.lit(pr.q(4)?);
    sp(m);
    l(m, "$");
    tind(m);
    m.lit(pr.n(5, 9)?.to_string());
    sp(m);
    m.lit(pr.n(6, 9)?.to_string());
    sp(m);
    m.lit(pr.n(7, 9)?.to_string());
    sp(m);
    l(m, ",");
    sp(m);
    m.lit(pr.mc(8)?); sp(m); m.lit(pr.mc(9)?);
    m.lit(format!("<{}>", pr.q(10)?));
    sp(m);
    m.lit(pr.q(11)?);
    tend(m);
    ln(m);
    }
    m.lit(pr.q(12)?);
    l(m, ",");
    sp(m);
    if pr.b(13)? {
    if let Some(x) = pr.opt(14)? { m.lit(x); }
    qs(m, "lit");
    }
    m.lit(pr.q(15)?);
    l(m, ")");
    }
    }
    if pr.rare(16)? { return Err(Left::Return); }
    { let x = pr.q(17)?; oq(m, false); m.lit(x); cq(m); }
    l(m, "}");
    sp(m);
    { let x = pr.q(18)?; oq(m, false); m.lit(x); cq(m); }
    tln(m);
    match pr.b(19)? {
    true | false => {
    m.lit(pr.q(20)?); sp(m); m.lit(pr.q(21)?);
    sp(m);
    if let (Some(v5), _) = (pr.opt(22)?, pr.b(23)?) {
    l(m, "<<=");
    if pr.rare(24)? { return Err(Left::Return); }
    }
    sp(m);
    l(m, "foo");
    }
    }
    sp(m);
    if pr.rare(25)? { return Err(Left::Return); }
    let (v6, v7) = (pr.q(26)?, pr.n(27, 9)?);
    Ok(())
}
fn real_64<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(for v1 in pr.opt(1)? join ($(if pr.b(2)? && pr.b(3)? { $[str](1 + 2) ("two words" /* between */ $(ref o3 { if pr.rare(4)? { o3.append(pr.q(5)?); return Err(Left::Return); } }) ) $(pr.opt(6)?) }) $(Some(pr.q(7)?))) {
            {$(" lead")$(let v4 = pr.q(8)?)bar}
            $(ref _ => if pr.rare(9)? { break; })$v1
            $(let v5 = pr.q(10)?)bar
        })
    }
    Ok(())
}
fn model_64(m: &mut MV, pr: &Pr) -> Flow {
    {
    let mut it2 = pr.opt(1)?.into_iter();
    let mut step = || -> Flow<Option<String>> { Ok(it2.next()) };
    let mut next = step()?;
    while let Some(v1) = next {
    {
    l(m, "{");
    l(m, " lead");
    let v4 = pr.q(8)?;
    l(m, "bar");
    l(m, "}");
    tp(m);
    if pr.rare(9)? { break; }
    m.lit(v1);
    tp(m);
    let v5 = pr.q(10)?;
    l(m, "bar");
    }
    next = step()?;
    if next.is_some() {
    {
    if pr.b(2)? && pr.b(3)? {
    qs(m, "1 + 2");
    sp(m);
    l(m, "(");
    qs(m, "two words");
    sp(m);
    if pr.rare(4)? { m.lit(pr.q(5)?); return Err(Left::Return); }
    sp(m);
    l(m, ")");
    sp(m);
    if let Some(x) = pr.opt(6)? { m.lit(x); }
    }
    sp(m);
    m.lit(pr.q(7)?);
    }
    }
    }
    }
    Ok(())
}
fn real_65<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(format!("<{}>", pr.q(1)?))foo  a1
        $(&quote!($(if let Some(v2) = pr.opt(2)? { [$$/**/]$(let mut v3 = pr.q(4)?)$(if pr.b(5)? { $(ref o4 { o4.append(pr.q(6)?); o4.space(); o4.append(pr.q(7)?); }) $[str](a b  c)$(ref o5 => quote_in!(*o5 => Self)) } else { $(format!("<{}>", pr.q(9)?))       $(match pr.b(10)? { true | false => $(pr.multi(11)?) $(format!("<{}>", pr.q(12)?))$(format!("<{}>", pr.q(13)?)) ("lit", while       $(pr.q(14)?) ) }) }) })  [$(vec![pr.q(15)?, pr.q(16)?]) $(if let Some(v7) = pr.opt(17)? { $(let v8 = pr.q(19)?) }) $(format!("<{}>", pr.q(20)?))$(match (pr.b(21)?, pr.q(22)?) { (_, v9) => { $(for v10 in [pr.q(23)?, pr.q(24)?] { bar })r#type $(quoted(quote!($(&pr.q(25)?)))) } }) ]))
    }
    Ok(())
}
fn model_65(m: &mut MV, pr: &Pr) -> Flow {
    m.lit(format!("<{}>", pr.q(1)?));
    l(m, "foo");
    sp(m);
    l(m, "a1");
    tp(m);
    let mut s1 = MStream::<()>::default();
    {
    let m = &mut s1;
    if let Some(v2) = pr.opt(2)? {
    l(m, "[");
    l(m, "$");
    sp(m);
    l(m, "]");
    let mut v3 = pr.q(4)?;
    if pr.b(5)? {
    m.lit(pr.q(6)?); sp(m); m.lit(pr.q(7)?);
    sp(m);
    qs(m, "a b  c");
    {
    l(m, "Self");
    }
    } else {
    m.lit(format!("<{}>", pr.q(9)?));
    sp(m);
    match pr.b(10)? {
    true | false => {
    pr.mmulti(11, m)?;
    sp(m);
    m.lit(format!("<{}>", pr.q(12)?));
    m.lit(format!("<{}>", pr.q(13)?));
    sp(m);
    l(m, "(");
    qs(m, "lit");
    l(m, ",");
    sp(m);
    l(m, "while");
    sp(m);
    m.lit(pr.q(14)?);
    sp(m);
    l(m, ")");
    }
    }
    }
    }
    sp(m);
    l(m, "[");
    { let x = pr.q(15)?; let y = pr.q(16)?; m.lit(x); m.lit(y); }
    sp(m);
    if let Some(v7) = pr.opt(17)? {
    let v8 = pr.q(19)?;
    }
    sp(m);
    m.lit(format!("<{}>", pr.q(20)?));
    match (pr.b(21)?, pr.q(22)?) {
    (_, v9) => {
    {
    let mut it11 = [pr.q(23)?, pr.q(24)?].into_iter();
    let mut step = || -> Flow<Option<String>> { Ok(it11.next()) };
    while let Some(v10) = step()? {
    l(m, "bar");
    }
    }
    l(m, "r#type");
    sp(m);
    let mut s12 = MStream::<()>::default();
    {
    let m = &mut s12;
    m.lit(pr.q(25)?);
    }
    oq(m, false);
    m.add_all(&s12.items);
    cq(m);
    }
    }
    sp(m);
    l(m, "]");
    }
    m.add_all(&s1.items);
    Ok(())
}
fn real_66<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(ref o1 {
            for _ in 0..pr.n(1, 3)? {
                quote_in! { *o1 =>
                    $(match pr.n(2, 10)? { 0 if pr.b(3)? => $(&quote!($({ pr.mark(6)?; "blk" }))), 1 => { 1_000u64 => $(pr.q(7)?) } 2 if pr.b(4)? => $(pr.q(8)?) ($("ver batim"), foo), 3 => $(&pr.q(9)?)$(Some(pr.q(10)?))$(pr.n(11, 9)?), 4 | 24 => { $(pr.q(12)?)Self } 5 | 25 => ( $(&quote!($(match pr.n(13, 9)? { v5 => $({ pr.mark(14)?; "blk" })$(pr.opt(15)?), })$(ref _ => if pr.rare(16)? { return Err(Left::Return); })$(let v6 = pr.q(17)?)))bar ), 6 => { $[str](1 + 2)$(for v7 in pr.it(18)? => $[str](three$name-$name-)$$  $(match pr.n(19, 5)? { 0 if pr.b(20)? => "q\"uote" { $(&pr.q(21)?)$(pr.q(22)?)a1	"q\"uote", bar a1  }, v9 => &1.5/**/while {$(pr.q(23)?.as_str()), $(pr.multi(24)?)} })) } v2 if v2 == 7 && pr.b(5)? => $(vec![pr.q(25)?, pr.q(26)?]), _ => $(pr.n(27, 9)?)       . {	$(pr.n(28, 9)?)  while  $(&pr.q(29)?)x, <<=$(pr.multi(30)?)}, })$[str]($(while) -$name-$[const](pr.q(31)?)$[const](pr.q(32)?)$(_y /* between */ $(quote!($[str](1 + 2)$(if let (Some(v11), _) = (pr.opt(33)?, pr.b(34)?) { $(Some(pr.q(35)?)) } else { "two words" $({ pr.mark(36)?; "blk" })$$ })  $(for v12 in 0..pr.n(37, 4)? join (/**/while	$(quoted(pr.q(38)?))) => $(pr.c(39))  bar)))$({ if pr.b(40)? { "t" } else { "f" } }))$[const]("con st")$[const]("con st")$name-$name-$[const]("con st"))
                }
                o1.line();
            }
        })


            foo x
    }
    Ok(())
}
fn model_66(m: &mut MV, pr: &Pr) -> Flow {
    for _ in 0..pr.n(1, 3)? {
    match pr.n(2, 10)? {
    0 if pr.b(3)? => {
    let mut s3 = MStream::<()>::default();
    {
    let m = &mut s3;
    pr.mark(6)?; l(m, "blk");
    }
    m.add_all(&s3.items);
    }
    1 => {
    l(m, "1_000u64");
    sp(m);
    l(m, "=>");
    sp(m);
    m.lit(pr.q(7)?);
    }
    2 if pr.b(4)? => {
    m.lit(pr.q(8)?);
    sp(m);
    l(m, "(");
    l(m, "ver batim");
    l(m, ",");
    sp(m);
    l(m, "foo");
    l(m, ")");
    }
    3 => {
    m.lit(pr.q(9)?);
    m.lit(pr.q(10)?);
    m.lit(pr.n(11, 9)?.to_string());
    }
    4 | 24 => {
    m.lit(pr.q(12)?);
    l(m, "Self");
    }
    5 | 25 => {
    sp(m);
    let mut s4 = MStream::<()>::default();
    {
    let m = &mut s4;
    match pr.n(13, 9)? {
    v5 => {
    pr.mark(14)?; l(m, "blk");
    if let Some(x) = pr.opt(15)? { m.lit(x); }
    }
    }
    if pr.rare(16)? { return Err(Left::Return); }
    let v6 = pr.q(17)?;
    }
    m.add_all(&s4.items);
    l(m, "bar");
    sp(m);
    }
    6 => {
    qs(m, "1 + 2");
    {
    let mut it8 = pr.it(18)?;
    let mut step = || -> Flow<Option<String>> { it8.step() };
    while let Some(v7) = step()? {
    oq(m, true);
    l(m, "three");
    oe(m);
    l(m, "name");
    ce(m);
    l(m, "-");
    oe(m);
    l(m, "name");
    ce(m);
    l(m, "-");
    cq(m);
    l(m, "$");
    sp(m);
    match pr.n(19, 5)? {
    0 if pr.b(20)? => {
    qs(m, "q\"uote");
    sp(m);
    l(m, "{");
    sp(m);
    m.lit(pr.q(21)?);
    m.lit(pr.q(22)?);
    l(m, "a1");
    sp(m);
    qs(m, "q\"uote");
    l(m, ",");
    sp(m);
    l(m, "bar");
    sp(m);
    l(m, "a1");
    sp(m);
    l(m, "}");
    }
    v9 => {
    l(m, "&");
    l(m, "1.5");
    sp(m);
    l(m, "while");
    sp(m);
    l(m, "{");
    m.lit(pr.q(23)?);
    l(m, ",");
    sp(m);
    pr.mmulti(24, m)?;
    l(m, "}");
    }
    }
    }
    }
    }
    v2 if v2 == 7 && pr.b(5)? => {
    { let x = pr.q(25)?; let y = pr.q(26)?; m.lit(x); m.lit(y); }
    }
    _ => {
    m.lit(pr.n(27, 9)?.to_string());
    sp(m);
    l(m, ".");
    sp(m);
    l(m, "{");
    sp(m);
    m.lit(pr.n(28, 9)?.to_string());
    sp(m);
    l(m, "while");
    sp(m);
    m.lit(pr.q(29)?);
    l(m, "x");
    l(m, ",");
    sp(m);
    l(m, "<<=");
    pr.mmulti(30, m)?;
    l(m, "}");
    }
    }
    oq(m, true);
    oe(m);
    {
    l(m, "while");
    }
    ce(m);
    l(m, " -");
    oe(m);
    l(m, "name");
    ce(m);
    l(m, "-");
    m.lit(pr.q(31)?);
    m.lit(pr.q(32)?);
    oe(m);
    {
    l(m, "_y");
    sp(m);
    let mut s10 = MStream::<()>::default();
    {
    let m = &mut s10;
    qs(m, "1 + 2");
    if let (Some(v11), _) = (pr.opt(33)?, pr.b(34)?) {
    m.lit(pr.q(35)?);
    } else {
    qs(m, "two words");
    sp(m);
    pr.mark(36)?; l(m, "blk");
    l(m, "$");
    }
    sp(m);
    {
    let mut it13 = 0..pr.n(37, 4)?;
    let mut step = || -> Flow<Option<u64>> { Ok(it13.next()) };
    let mut next = step()?;
    while let Some(v12) = next {
    {
    m.lit(pr.mc(39)?);
    sp(m);
    l(m, "bar");
    }
    next = step()?;
    if next.is_some() {
    {
    sp(m);
    l(m, "while");
    sp(m);
    { let x = pr.q(38)?; oq(m, false); m.lit(x); cq(m); }
    }
    }
    }
    }
    }
    m.add_all(&s10.items);
    l(m, if pr.b(40)? { "t" } else { "f" });
    }
    ce(m);
    l(m, "con stcon st");
    oe(m);
    l(m, "name");
    ce(m);
    l(m, "-");
    oe(m);
    l(m, "name");
    ce(m);
    l(m, "-con st");
    cq(m);
    ln(m);
    }
    tind(m);
    tln(m);
    l(m, "foo");
    sp(m);
    l(m, "x");
    tend(m);
    Ok(())
}
fn real_67<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(let mut v1 = pr.q(1)?) $(ref o2 { if pr.rare(2)? { o2.append(pr.q(3)?); return Err(Left::Return); } })$(if pr.b(4)? || !pr.b(5)? { $(if let (Some(v3), _) = (pr.opt(6)?, pr.b(7)?) { [$(for (i6, v4) in pr.it(8)?.enumerate() join (       $(pr.n(9, 9)?) $({ if pr.b(10)? { "t" } else { "f" } })) => ="q\"uote") ]       $(ref o7 { o7.append(pr.q(11)?); o7.space(); o7.append(pr.q(12)?); })while } else {}) })
    }
    Ok(())
}
fn model_67(m: &mut MV, pr: &Pr) -> Flow {
    let mut v1 = pr.q(1)?;
    sp(m);
    if pr.rare(2)? { m.lit(pr.q(3)?); return Err(Left::Return); }
    if pr.b(4)? || !pr.b(5)? {
    if let (Some(v3), _) = (pr.opt(6)?, pr.b(7)?) {
    l(m, "[");
    {
    let mut it5 = pr.it(8)?;
    let mut at = 0u64;
    let mut step = || -> Flow<Option<(u64, String)>> { let x = it5.step()?; at += 1; Ok(x.map(|x| (at - 1, x))) };
    let mut next = step()?;
    while let Some((i6, v4)) = next {
    {
    l(m, "=");
    qs(m, "q\"uote");
    }
    next = step()?;
    if next.is_some() {
    {
    sp(m);
    m.lit(pr.n(9, 9)?.to_string());
    sp(m);
    l(m, if pr.b(10)? { "t" } else { "f" });
    }
    }
    }
    }
    sp(m);
    l(m, "]");
    sp(m);
    m.lit(pr.q(11)?); sp(m); m.lit(pr.q(12)?);
    l(m, "while");
    } else {
    }
    }
    Ok(())
}
fn real_68<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $({ if pr.b(1)? { "t" } else { "f" } })$(format!("<{}>", pr.q(2)?))  & $(&quote! {
            $(for v2 in pr.it(3)?.filter(|_| pr.cb(4)) join ({ $(if let (Some(v4), _) = (pr.opt(5)?, pr.b(6)?) { $$ 0x1F } else { $(quoted(pr.q(7)?))?$(pr.multi(8)?) }) Self$({ pr.mark(9)?; "blk" })$[str](plain)} ) {
                $(for v5 in pr.it(10)?.filter(|_| pr.cb(11)) => $("ä")$(if pr.b(12)? { "q\"uote" } else { $(pr.q(13)?.as_str()) }))   
                    bar
                    $(for (i9, v7) in pr.it(14)?.enumerate() join ($("ä")	$(let v10 = pr.q(15)?)) {
                        $(ref _ { pr.mark(16)?; })
                            $(pr.opt(17)?){       + }$({ if pr.b(18)? { "t" } else { "f" } }) {
                            }
                    })Self{$(ref o11 { if pr.b(19)? { quote_in!(*o11 => x	foo /* between */ $(pr.n(20, 9)?)); } o11.push(); })}
                    $(let mut v12 = pr.q(21)?)	$(ref o13 {
                        for _ in 0..pr.n(22, 3)? {
                            quote_in! { *o13 =>
                                $(v12.as_str())$(if pr.b(23)? { while$(pr.c(24)) } else {
                                    ::$(pr.opt(25)?)x$$ +"q\"uote" "two words" while $(from_fn(|t| { t.append(pr.c(26)); t.space(); t.append(pr.c(27)); }))   
                                    _y/**/"q\"uote"$(vec![pr.q(28)?, pr.q(29)?])$(Some(pr.q(30)?))       bar&  "two words"
                                      $(from_fn(|t| { t.append(pr.c(31)); t.space(); t.append(pr.c(32)); }))a1	foo [
                                    
                                      // between
                                    
                                    
                                      ]
                                }) /* between */ $(pr.q(33)?.as_str()) /* between */ $(&pr.q(34)?)	{
                                }
                            }
                            o13.line();
                        }
                    }) foo
            })$(pr.q(35)?.as_str())       {
            }
        }) $({ pr.mark(36)?; "blk" })       ?a1 /* between */ {
            :: foo, /* between */ "two words"+ // note
        }
    }
    Ok(())
}
fn model_68(m: &mut MV, pr: &Pr) -> Flow {
    l(m, if pr.b(1)? { "t" } else { "f" });
    m.lit(format!("<{}>", pr.q(2)?));
    sp(m);
    l(m, "&");
    sp(m);
    let mut s1 = MStream::<()>::default();
    {
    let m = &mut s1;
    {
    let mut it3 = pr.it(3)?;
    let mut step = || -> Flow<Option<String>> { while let Some(x) = it3.step()? { if pr.mcb(4)? { return Ok(Some(x)); } } Ok(None) };
    let mut next = step()?;
    while let Some(v2) = next {
    {
    {
    let mut it6 = pr.it(10)?;
    let mut step = || -> Flow<Option<String>> { while let Some(x) = it6.step()? { if pr.mcb(11)? { return Ok(Some(x)); } } Ok(None) };
    while let Some(v5) = step()? {
    l(m, "ä");
    if pr.b(12)? {
    qs(m, "q\"uote");
    } else {
    m.lit(pr.q(13)?);
    }
    }
    }
    tind(m);
    l(m, "bar");
    tp(m);
    {
    let mut it8 = pr.it(14)?;
    let mut at = 0u64;
    let mut step = || -> Flow<Option<(u64, String)>> { let x = it8.step()?; at += 1; Ok(x.map(|x| (at - 1, x))) };
    let mut next = step()?;
    while let Some((i9, v7)) = next {
    {
    pr.mark(16)?;
    tind(m);
    if let Some(x) = pr.opt(17)? { m.lit(x); }
    l(m, "{");
    sp(m);
    l(m, "+");
    sp(m);
    l(m, "}");
    l(m, if pr.b(18)? { "t" } else { "f" });
    sp(m);
    l(m, "{");
    tp(m);
    l(m, "}");
    tend(m);
    }
    next = step()?;
    if next.is_some() {
    {
    l(m, "ä");
    sp(m);
    let v10 = pr.q(15)?;
    }
    }
    }
    }
    l(m, "Self");
    l(m, "{");
    if pr.b(19)? {
    l(m, "x");
    sp(m);
    l(m, "foo");
    sp(m);
    m.lit(pr.n(20, 9)?.to_string());
    }
    p(m);
    l(m, "}");
    tp(m);
    let mut v12 = pr.q(21)?;
    sp(m);
    for _ in 0..pr.n(22, 3)? {
    m.lit(v12.clone());
    if pr.b(23)? {
    l(m, "while");
    m.lit(pr.mc(24)?);
    } else {
    l(m, "::");
    if let Some(x) = pr.opt(25)? { m.lit(x); }
    l(m, "x");
    l(m, "$");
    sp(m);
    l(m, "+");
    qs(m, "q\"uote");
    sp(m);
    qs(m, "two words");
    sp(m);
    l(m, "while");
    sp(m);
    m.lit(pr.mc(26)?); sp(m); m.lit(pr.mc(27)?);
    tp(m);
    l(m, "_y");
    sp(m);
    qs(m, "q\"uote");
    { let x = pr.q(28)?; let y = pr.q(29)?; m.lit(x); m.lit(y); }
    m.lit(pr.q(30)?);
    sp(m);
    l(m, "bar");
    l(m, "&");
    sp(m);
    qs(m, "two words");
    tind(m);
    m.lit(pr.mc(31)?); sp(m); m.lit(pr.mc(32)?);
    l(m, "a1");
    sp(m);
    l(m, "foo");
    sp(m);
    l(m, "[");
    tln(m);
    l(m, "]");
    tend(m);
    }
    sp(m);
    m.lit(pr.q(33)?);
    sp(m);
    m.lit(pr.q(34)?);
    sp(m);
    l(m, "{");
    tp(m);
    l(m, "}");
    ln(m);
    }
    sp(m);
    l(m, "foo");
    tend(m);
    }
    next = step()?;
    if next.is_some() {
    {
    l(m, "{");
    sp(m);
    if let (Some(v4), _) = (pr.opt(5)?, pr.b(6)?) {
    l(m, "$");
    sp(m);
    l(m, "0x1F");
    } else {
    { let x = pr.q(7)?; oq(m, false); m.lit(x); cq(m); }
    l(m, "?");
    pr.mmulti(8, m)?;
    }
    sp(m);
    l(m, "Self");
    pr.mark(9)?; l(m, "blk");
    qs(m, "plain");
    l(m, "}");
    sp(m);
    }
    }
    }
    }
    m.lit(pr.q(35)?);
    sp(m);
    l(m, "{");
    tp(m);
    l(m, "}");
    }
    m.add_all(&s1.items);
    sp(m);
    pr.mark(36)?; l(m, "blk");
    sp(m);
    l(m, "?");
    l(m, "a1");
    sp(m);
    l(m, "{");
    tind(m);
    l(m, "::");
    sp(m);
    l(m, "foo");
    l(m, ",");
    sp(m);
    qs(m, "two words");
    l(m, "+");
    tun(m);
    l(m, "}");
    Ok(())
}
fn real_69<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(if pr.b(1)? => a1)$(ref o1 { o1.append(pr.q(2)?); o1.space(); o1.append(pr.q(3)?); })


        $(pr.q(4)?)$(vec![pr.q(5)?, pr.q(6)?])/**/(
                   $(ref o2 { if pr.rare(7)? { o2.append(pr.q(8)?); return Err(Left::Return); } })
                   ($(ref _ => if pr.b(9)? { pr.mark(10)?; }) $("ver batim")	$(pr.q(11)?)/**/) 7$(ref o3 { o3.append(pr.q(12)?); o3.space(); o3.append(pr.q(13)?); })
        )
    }
    Ok(())
}
fn model_69(m: &mut MV, pr: &Pr) -> Flow {
    if pr.b(1)? {
    l(m, "a1");
    }
    m.lit(pr.q(2)?); sp(m); m.lit(pr.q(3)?);
    tln(m);
    m.lit(pr.q(4)?);
    { let x = pr.q(5)?; let y = pr.q(6)?; m.lit(x); m.lit(y); }
    sp(m);
    l(m, "(");
    tind(m);
    if pr.rare(7)? { m.lit(pr.q(8)?); return Err(Left::Return); }
    tp(m);
    l(m, "(");
    if pr.b(9)? { pr.mark(10)?; }
    sp(m);
    l(m, "ver batim");
    sp(m);
    m.lit(pr.q(11)?);
    sp(m);
    l(m, ")");
    sp(m);
    l(m, "7");
    m.lit(pr.q(12)?); sp(m); m.lit(pr.q(13)?);
    tun(m);
    l(m, ")");
    Ok(())
}
fn real_70<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(pr.multi(1)?) $(for v1 in pr.it(2)? {
            $(for _ in pr.it(3)? {}) $[str](plain) x $(pr.n(4, 9)?)// note
            {$(match (pr.b(5)?, pr.n(6, 3)?) { (true, 0) => identifier_identifier_identifier_identifier_end$(ref o6 { if pr.b(7)? { quote_in!(*o6 => $(pr.c(8))); } o6.push(); }), (_, 1) | (true, _) => $(match pr.n(9, 9)? { v7 => (       &&a1  $$ /* between */ ), }) [ $(&pr.q(10)?) ,$(display(pr.n(11, 9)?))foo, =$(pr.opt(12)?) ], (..) => { while $(if pr.b(13)? { $(quoted(pr.q(14)?)) } else { Self$(Some(pr.q(15)?)) })$(ref o8 { if pr.b(16)? { quote_in!(*o8 => foo); } o8.push(); }) } })/**/$(if let Some(v9) = pr.opt(17)? { $(if pr.b(19)? {
                $(quoted(pr.q(20)?)) $(pr.c(21)) Self $(pr.n(22, 9)?)
                x // note
                bar$(Some(pr.q(23)?))
            } else { $(format!("<{}>", pr.q(24)?)) $(pr.c(25)) }) } else { $[' '] /* between */ r#type })}$(match (pr.b(26)?, pr.n(27, 3)?) { (true, 0) => { $(" lead") }, _ => { $(match pr.opt(28)? { Some(v12) => ($(pr.c(29))$(v12.clone()) $(let mut v13 = pr.q(30)?)), None => $(" lead") $(for v14 in pr.it(31)? => 1_000u64)$(&pr.q(32)?) }) } })$(ref o16 { if pr.b(33)? { quote_in!(*o16 => ?$(v1.clone())); } o16.push(); })$(ref _ => if pr.rare(34)? { break; })
            $(vec![pr.q(35)?, pr.q(36)?])$(pr.multi(37)?)"two words"       foo _y
        }) Self nameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameame
    }
    Ok(())
}
fn model_70(m: &mut MV, pr: &Pr) -> Flow {
    pr.mmulti(1, m)?;
    sp(m);
    {
    let mut it2 = pr.it(2)?;
    let mut step = || -> Flow<Option<String>> { it2.step() };
    while let Some(v1) = step()? {
    {
    let mut it4 = pr.it(3)?;
    let mut step = || -> Flow<Option<String>> { it4.step() };
    while let Some(_) = step()? {
    }
    }
    sp(m);
    qs(m, "plain");
    sp(m);
    l(m, "x");
    sp(m);
    m.lit(pr.n(4, 9)?.to_string());
    tp(m);
    l(m, "{");
    match (pr.b(5)?, pr.n(6, 3)?) {
    (true, 0) => {
    l(m, "identifier_identifier_identifier_identifier_end");
    if pr.b(7)? {
    m.lit(pr.mc(8)?);
    }
    p(m);
    }
    (_, 1) | (true, _) => {
    match pr.n(9, 9)? {
    v7 => {
    sp(m);
    l(m, "&&");
    l(m, "a1");
    sp(m);
    l(m, "$");
    sp(m);
    }
    }
    sp(m);
    l(m, "[");
    sp(m);
    m.lit(pr.q(10)?);
    sp(m);
    l(m, ",");
    m.lit(pr.n(11, 9)?.to_string());
    l(m, "foo");
    l(m, ",");
    sp(m);
    l(m, "=");
    if let Some(x) = pr.opt(12)? { m.lit(x); }
    sp(m);
    l(m, "]");
    }
    (..) => {
    l(m, "while");
    sp(m);
    if pr.b(13)? {
    { let x = pr.q(14)?; oq(m, false); m.lit(x); cq(m); }
    } else {
    l(m, "Self");
    m.lit(pr.q(15)?);
    }
    if pr.b(16)? {
    l(m, "foo");
    }
    p(m);
    }
    }
    sp(m);
    if let Some(v9) = pr.opt(17)? {
    if pr.b(19)? {
    { let x = pr.q(20)?; oq(m, false); m.lit(x); cq(m); }
    sp(m);
    m.lit(pr.mc(21)?);
    sp(m);
    l(m, "Self");
    sp(m);
    m.lit(pr.n(22, 9)?.to_string());
    tp(m);
    l(m, "x");
    tp(m);
    l(m, "bar");
    m.lit(pr.q(23)?);
    } else {
    m.lit(format!("<{}>", pr.q(24)?));
    sp(m);
    m.lit(pr.mc(25)?);
    }
    } else {
    sp(m);
    sp(m);
    l(m, "r#type");
    }
    l(m, "}");
    match (pr.b(26)?, pr.n(27, 3)?) {
    (true, 0) => {
    l(m, " lead");
    }
    _ => {
    match pr.opt(28)? {
    Some(v12) => {
    m.lit(pr.mc(29)?);
    m.lit(v12.clone());
    sp(m);
    let mut v13 = pr.q(30)?;
    }
    None => {
    l(m, " lead");
    sp(m);
    {
    let mut it15 = pr.it(31)?;
    let mut step = || -> Flow<Option<String>> { it15.step() };
    while let Some(v14) = step()? {
    l(m, "1_000u64");
    }
    }
    m.lit(pr.q(32)?);
    }
    }
    }
    }
    if pr.b(33)? {
    l(m, "?");
    m.lit(v1.clone());
    }
    p(m);
    if pr.rare(34)? { break; }
    tp(m);
    { let x = pr.q(35)?; let y = pr.q(36)?; m.lit(x); m.lit(y); }
    pr.mmulti(37, m)?;
    qs(m, "two words");
    sp(m);
    l(m, "foo");
    sp(m);
    l(m, "_y");
    }
    }
    sp(m);
    l(m, "Self");
    sp(m);
    l(m, "nameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameame");
    Ok(())
}
fn real_71<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $['\r'] x	{
            bar$[str](a b  c) $[str](plain)  $[str](a b  c)       $(match pr.opt(1)? {
                Some(v1) if v1.is_empty() || pr.b(2)? => $(Some(pr.q(5)?))nameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameame	"lit",
                None if pr.b(3)? => $(let mut v3 = pr.q(6)?),
                _ if pr.b(4)? => ($(&pr.q(7)?)&$$/**/),
                Some(v2) => ($(format!("<{}>", pr.q(8)?))$(quoted(pr.q(9)?))=),
                None => a1 {  <<= $(pr.c(10)), $({ pr.mark(11)?; "blk" }) .}
            }) // note
                $(quoted(pr.q(12)?))$(match pr.opt(13)? {
                    None if pr.b(14)? => $(pr.n(15, 9)?) $(pr.q(16)?),
                    Some(v5) => ($(if pr.n(17, 3)? == 1 { $("ä") })),
                    None => $(pr.q(18)?.as_str())$(for v6 in pr.it(19)? join (, ) {
                        "q\"uote"$(display(pr.n(21, 9)?))
                        // between
                        
                        =>$(match (pr.b(22)?, pr.n(23, 3)?) {
                            (true, 0) => { [$$ foo]  $(ref o9 { if pr.rare(24)? { o9.append(pr.q(25)?); break; } }) }
                            _ => $(let v10 = pr.q(26)?)       x$(ref o11 => quote_in!(*o11 => while while	$(vec![pr.q(28)?, pr.q(29)?]))) ( /* between */ x x/**/$(pr.q(30)?.as_str()), 1.5)
                        })/**/x $$ // note
                        $[str](1 + 2)
                    })
                })$(pr.n(31, 9)?)
        }
    }
    Ok(())
}
fn model_71(m: &mut MV, pr: &Pr) -> Flow {
    p(m);
    sp(m);
    l(m, "x");
    sp(m);
    l(m, "{");
    tind(m);
    l(m, "bar");
    qs(m, "a b  c");
    sp(m);
    qs(m, "plain");
    sp(m);
    qs(m, "a b  c");
    sp(m);
    match pr.opt(1)? {
    Some(v1) if v1.is_empty() || pr.b(2)? => {
    m.lit(pr.q(5)?);
    l(m, "nameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameame");
    sp(m);
    qs(m, "lit");
    }
    None if pr.b(3)? => {
    let mut v3 = pr.q(6)?;
    }
    _ if pr.b(4)? => {
    m.lit(pr.q(7)?);
    l(m, "&");
    l(m, "$");
    sp(m);
    }
    Some(v2) => {
    m.lit(format!("<{}>", pr.q(8)?));
    { let x = pr.q(9)?; oq(m, false); m.lit(x); cq(m); }
    l(m, "=");
    }
    None => {
    l(m, "a1");
    sp(m);
    l(m, "{");
    sp(m);
    l(m, "<<=");
    sp(m);
    m.lit(pr.mc(10)?);
    l(m, ",");
    sp(m);
    pr.mark(11)?; l(m, "blk");
    sp(m);
    l(m, ".");
    l(m, "}");
    }
    }
    tind(m);
    { let x = pr.q(12)?; oq(m, false); m.lit(x); cq(m); }
    match pr.opt(13)? {
    None if pr.b(14)? => {
    m.lit(pr.n(15, 9)?.to_string());
    sp(m);
    m.lit(pr.q(16)?);
    }
    Some(v5) => {
    if pr.n(17, 3)? == 1 {
    l(m, "ä");
    }
    }
    None => {
    m.lit(pr.q(18)?);
    {
    let mut it7 = pr.it(19)?;
    let mut step = || -> Flow<Option<String>> { it7.step() };
    let mut next = step()?;
    while let Some(v6) = next {
    {
    qs(m, "q\"uote");
    m.lit(pr.n(21, 9)?.to_string());
    tln(m);
    l(m, "=>");
    match (pr.b(22)?, pr.n(23, 3)?) {
    (true, 0) => {
    l(m, "[");
    l(m, "$");
    sp(m);
    l(m, "foo");
    l(m, "]");
    sp(m);
    if pr.rare(24)? { m.lit(pr.q(25)?); break; }
    }
    _ => {
    let v10 = pr.q(26)?;
    sp(m);
    l(m, "x");
    {
    l(m, "while");
    sp(m);
    l(m, "while");
    sp(m);
    { let x = pr.q(28)?; let y = pr.q(29)?; m.lit(x); m.lit(y); }
    }
    sp(m);
    l(m, "(");
    sp(m);
    l(m, "x");
    sp(m);
    l(m, "x");
    sp(m);
    m.lit(pr.q(30)?);
    l(m, ",");
    sp(m);
    l(m, "1.5");
    l(m, ")");
    }
    }
    sp(m);
    l(m, "x");
    sp(m);
    l(m, "$");
    tp(m);
    qs(m, "1 + 2");
    }
    next = step()?;
    if next.is_some() {
    {
    l(m, ",");
    sp(m);
    }
    }
    }
    }
    }
    }
    m.lit(pr.n(31, 9)?.to_string());
    tun(m);
    tun(m);
    l(m, "}");
    Ok(())
}
fn real_72<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(if pr.n(1, 3)? == 1 => $(for v1 in pr.it(2)? => a1$(pr.q(3)?.as_str()))/**/{$$ {$$ [$(pr.q(7)?.as_str()) {$$ ($({ if pr.b(4)? { "t" } else { "f" } }) $(" lead") $(format!("<{}>", pr.q(5)?))) $(pr.opt(6)?)} $(pr.q(8)?)] $$} $$})
    }
    Ok(())
}
fn model_72(m: &mut MV, pr: &Pr) -> Flow {
    if pr.n(1, 3)? == 1 {
    {
    let mut it2 = pr.it(2)?;
    let mut step = || -> Flow<Option<String>> { it2.step() };
    while let Some(v1) = step()? {
    l(m, "a1");
    m.lit(pr.q(3)?);
    }
    }
    sp(m);
    l(m, "{");
    l(m, "$");
    sp(m);
    l(m, "{");
    l(m, "$");
    sp(m);
    l(m, "[");
    m.lit(pr.q(7)?);
    sp(m);
    l(m, "{");
    l(m, "$");
    sp(m);
    l(m, "(");
    l(m, if pr.b(4)? { "t" } else { "f" });
    sp(m);
    l(m, " lead");
    sp(m);
    m.lit(format!("<{}>", pr.q(5)?));
    l(m, ")");
    sp(m);
    if let Some(x) = pr.opt(6)? { m.lit(x); }
    l(m, "}");
    sp(m);
    m.lit(pr.q(8)?);
    l(m, "]");
    sp(m);
    l(m, "$");
    l(m, "}");
    sp(m);
    l(m, "$");
    l(m, "}");
    }
    Ok(())
}
fn real_73<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(if pr.n(1, 3)? == 1 =>
            $(if pr.b(2)? { $(let v1 = pr.q(3)?)  bar$['\n'] } else {
                $(if let Some(v2) = pr.opt(4)? { $[str](a b  c)	$(pr.multi(6)?) })
                $[' ']  _y? $(&pr.q(7)?) $(pr.opt(8)?)	[$(pr.q(12)?) ['a {$(pr.c(10)) {$$ {$(pr.q(9)?.as_str()) [$$ $(" lead") $$] Self} while} $(quoted(pr.q(11)?))} $$] $(pr.q(13)?)] /* between */ foo
                    $(if pr.b(14)? {} else { $(let v3 = pr.q(15)?) })$(&pr.q(16)?)$(pr.multi(17)?)
                
                    $(if let Some(v4) = pr.opt(18)? => $(ref o5 { if pr.rare(20)? { o5.append(pr.q(21)?); return Err(Left::Return); } })) $("ä") bar/**/$['\n']
            })  {
            }) [

           $(ref o6 { o6.append(pr.q(22)?); o6.space(); o6.append(pr.q(23)?); })$(pr.q(24)?.as_str()) (
                $(&quote! {
                    $[str](1 + 2)$(match pr.opt(25)? { _ if pr.b(26)? => { $(" lead") } Some(v9) => { $(for v10 in pr.opt(27)? join (	$(for v12 in [pr.q(28)?, pr.q(29)?] { $(pr.multi(30)?) })/**/$(display(pr.n(31, 9)?))) { $(ref o14 { if pr.b(32)? { quote_in!(*o14 => $(pr.q(33)?)); } o14.push(); }) }) }, _ => {}, })$(pr.opt(34)?) /* between */ nameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameame /* between */ $(for v15 in pr.opt(35)? join (, ) { $(pr.n(38, 9)?) })
                    $[' '] . foo
                })
           )

        ]
    }
    Ok(())
}
fn model_73(m: &mut MV, pr: &Pr) -> Flow {
    if pr.n(1, 3)? == 1 {
    if pr.b(2)? {
    let v1 = pr.q(3)?;
    sp(m);
    l(m, "bar");
    ln(m);
    } else {
    if let Some(v2) = pr.opt(4)? {
    qs(m, "a b  c");
    sp(m);
    pr.mmulti(6, m)?;
    }
    tp(m);
    sp(m);
    sp(m);
    l(m, "_y");
    l(m, "?");
    sp(m);
    m.lit(pr.q(7)?);
    sp(m);
    if let Some(x) = pr.opt(8)? { m.lit(x); }
    sp(m);
    l(m, "[");
    m.lit(pr.q(12)?);
    sp(m);
    l(m, "[");
    l(m, "'a");
    sp(m);
    l(m, "{");
    m.lit(pr.mc(10)?);
    sp(m);
    l(m, "{");
    l(m, "$");
    sp(m);
    l(m, "{");
    m.lit(pr.q(9)?);
    sp(m);
    l(m, "[");
    l(m, "$");
    sp(m);
    l(m, " lead");
    sp(m);
    l(m, "$");
    l(m, "]");
    sp(m);
    l(m, "Self");
    l(m, "}");
    sp(m);
    l(m, "while");
    l(m, "}");
    sp(m);
    { let x = pr.q(11)?; oq(m, false); m.lit(x); cq(m); }
    l(m, "}");
    sp(m);
    l(m, "$");
    l(m, "]");
    sp(m);
    m.lit(pr.q(13)?);
    l(m, "]");
    sp(m);
    l(m, "foo");
    tind(m);
    if pr.b(14)? {
    } else {
    let v3 = pr.q(15)?;
    }
    m.lit(pr.q(16)?);
    pr.mmulti(17, m)?;
    tln(m);
    if let Some(v4) = pr.opt(18)? {
    if pr.rare(20)? { m.lit(pr.q(21)?); return Err(Left::Return); }
    }
    sp(m);
    l(m, "ä");
    sp(m);
    l(m, "bar");
    sp(m);
    ln(m);
    tend(m);
    }
    sp(m);
    l(m, "{");
    tp(m);
    l(m, "}");
    }
    sp(m);
    l(m, "[");
    tind(m);
    tln(m);
    m.lit(pr.q(22)?); sp(m); m.lit(pr.q(23)?);
    m.lit(pr.q(24)?);
    sp(m);
    l(m, "(");
    tind(m);
    let mut s7 = MStream::<()>::default();
    {
    let m = &mut s7;
    qs(m, "1 + 2");
    match pr.opt(25)? {
    _ if pr.b(26)? => {
    l(m, " lead");
    }
    Some(v9) => {
    {
    let mut it11 = pr.opt(27)?.into_iter();
    let mut step = || -> Flow<Option<String>> { Ok(it11.next()) };
    let mut next = step()?;
    while let Some(v10) = next {
    {
    if pr.b(32)? {
    m.lit(pr.q(33)?);
    }
    p(m);
    }
    next = step()?;
    if next.is_some() {
    {
    sp(m);
    {
    let mut it13 = [pr.q(28)?, pr.q(29)?].into_iter();
    let mut step = || -> Flow<Option<String>> { Ok(it13.next()) };
    while let Some(v12) = step()? {
    pr.mmulti(30, m)?;
    }
    }
    sp(m);
    m.lit(pr.n(31, 9)?.to_string());
    }
    }
    }
    }
    }
    _ => {
    }
    }
    if let Some(x) = pr.opt(34)? { m.lit(x); }
    sp(m);
    l(m, "nameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameame");
    sp(m);
    {
    let mut it16 = pr.opt(35)?.into_iter();
    let mut step = || -> Flow<Option<String>> { Ok(it16.next()) };
    let mut next = step()?;
    while let Some(v15) = next {
    {
    m.lit(pr.n(38, 9)?.to_string());
    }
    next = step()?;
    if next.is_some() {
    {
    l(m, ",");
    sp(m);
    }
    }
    }
    }
    tp(m);
    sp(m);
    sp(m);
    l(m, ".");
    sp(m);
    l(m, "foo");
    }
    m.add_all(&s7.items);
    tun(m);
    l(m, ")");
    tun(m);
    tln(m);
    l(m, "]");
    Ok(())
}
fn real_74<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(match pr.n(1, 6)? { 0 => { $(let v2 = pr.n(2, 9)?) } 1 | 3 => (  $(ref o3 { o3.append(pr.q(3)?); o3.space(); o3.append(pr.q(4)?); })), v1 => { $(quoted(quote!($(let mut v5 = pr.q(5)?)/**/$['\n']$(for (i8, v6) in pr.it(6)?.enumerate() { $(vec![pr.q(7)?, pr.q(8)?])$(ref o9 { if pr.rare(9)? { o9.append(pr.q(10)?); break; } }) }))))[$['\r'] ,$(ref o10 { o10.append(pr.q(11)?); o10.space(); o10.append(pr.q(12)?); })/**/] }, })$(ref o11 { if pr.b(13)? { quote_in!(*o11 => $[str]($name-$[const]("con st")$($(quoted(pr.q(14)?))$(pr.q(15)?)x))$[str](plain) $(quoted(pr.q(16)?))); } o11.push(); })x
            Self
    }
    Ok(())
}
fn model_74(m: &mut MV, pr: &Pr) -> Flow {
    match pr.n(1, 6)? {
    0 => {
    let v2 = pr.n(2, 9)?;
    }
    1 | 3 => {
    sp(m);
    m.lit(pr.q(3)?); sp(m); m.lit(pr.q(4)?);
    }
    v1 => {
    let mut s4 = MStream::<()>::default();
    {
    let m = &mut s4;
    let mut v5 = pr.q(5)?;
    sp(m);
    ln(m);
    {
    let mut it7 = pr.it(6)?;
    let mut at = 0u64;
    let mut step = || -> Flow<Option<(u64, String)>> { let x = it7.step()?; at += 1; Ok(x.map(|x| (at - 1, x))) };
    while let Some((i8, v6)) = step()? {
    { let x = pr.q(7)?; let y = pr.q(8)?; m.lit(x); m.lit(y); }
    if pr.rare(9)? { m.lit(pr.q(10)?); break; }
    }
    }
    }
    oq(m, false);
    m.add_all(&s4.items);
    cq(m);
    l(m, "[");
    p(m);
    sp(m);
    l(m, ",");
    m.lit(pr.q(11)?); sp(m); m.lit(pr.q(12)?);
    sp(m);
    l(m, "]");
    }
    }
    if pr.b(13)? {
    oq(m, true);
    oe(m);
    l(m, "name");
    ce(m);
    l(m, "-con st");
    oe(m);
    {
    { let x = pr.q(14)?; oq(m, false); m.lit(x); cq(m); }
    m.lit(pr.q(15)?);
    l(m, "x");
    }
    ce(m);
    cq(m);
    qs(m, "plain");
    sp(m);
    { let x = pr.q(16)?; oq(m, false); m.lit(x); cq(m); }
    }
    p(m);
    l(m, "x");
    tind(m);
    l(m, "Self");
    tend(m);
    Ok(())
}
fn real_75<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(ref o1 { if pr.rare(1)? { o1.append(pr.q(2)?); return Err(Left::Return); } }) $(for v2 in pr.it(3)? { $(pr.q(4)?)$(ref o4 { if pr.b(5)? { quote_in!(*o4 => $({ pr.mark(6)?; "blk" })); } o4.push(); })$(ref o5 => quote_in!(*o5 => ()$(ref _ => if pr.rare(8)? { continue; })  $(match pr.n(9, 5)? { _ if pr.b(10)? => { $(if let (Some(v6), _) = (pr.opt(11)?, pr.b(12)?) { "q\"uote" } else { "lit" }) }, 1 => { $(v2.as_str()) } 2..=3 => $(if pr.n(15, 3)? == 1 { foo  a1 }) {$({ if pr.b(16)? { "t" } else { "f" } })  ? $(from_fn(|t| { t.append(pr.c(17)); t.space(); t.append(pr.c(18)); })), while $(pr.c(19)) }, _ => $(match pr.n(20, 5)? { v7 if v7 > 0 && pr.b(21)? => { while "two words" } 1 if pr.b(22)? => { ..=_y } v8 if v8 > 2 && pr.b(23)? => { $(pr.c(24)) $(pr.c(25))0x1F }, v9 => (       $(pr.opt(26)?)$(Some(pr.q(27)?)) ) })/**/$(&pr.q(28)?) }))) })$(pr.c(29)) +
        $(let mut v10 = pr.q(30)?) $(display(pr.n(31, 9)?))$(v10.clone()) $(ref o11 { o11.append(pr.q(32)?); o11.space(); o11.append(pr.q(33)?); }) (
        )
    }
    Ok(())
}
fn model_75(m: &mut MV, pr: &Pr) -> Flow {
    if pr.rare(1)? { m.lit(pr.q(2)?); return Err(Left::Return); }
    sp(m);
    {
    let mut it3 = pr.it(3)?;
    let mut step = || -> Flow<Option<String>> { it3.step() };
    while let Some(v2) = step()? {
    m.lit(pr.q(4)?);
    if pr.b(5)? {
    pr.mark(6)?; l(m, "blk");
    }
    p(m);
    {
    l(m, "()");
    if pr.rare(8)? { continue; }
    sp(m);
    match pr.n(9, 5)? {
    _ if pr.b(10)? => {
    if let (Some(v6), _) = (pr.opt(11)?, pr.b(12)?) {
    qs(m, "q\"uote");
    } else {
    qs(m, "lit");
    }
    }
    1 => {
    m.lit(v2.clone());
    }
    2..=3 => {
    if pr.n(15, 3)? == 1 {
    l(m, "foo");
    sp(m);
    l(m, "a1");
    }
    sp(m);
    l(m, "{");
    l(m, if pr.b(16)? { "t" } else { "f" });
    sp(m);
    l(m, "?");
    sp(m);
    m.lit(pr.mc(17)?); sp(m); m.lit(pr.mc(18)?);
    l(m, ",");
    sp(m);
    l(m, "while");
    sp(m);
    m.lit(pr.mc(19)?);
    sp(m);
    l(m, "}");
    }
    _ => {
    match pr.n(20, 5)? {
    v7 if v7 > 0 && pr.b(21)? => {
    l(m, "while");
    sp(m);
    qs(m, "two words");
    }
    1 if pr.b(22)? => {
    l(m, "..=");
    l(m, "_y");
    }
    v8 if v8 > 2 && pr.b(23)? => {
    m.lit(pr.mc(24)?);
    sp(m);
    m.lit(pr.mc(25)?);
    l(m, "0x1F");
    }
    v9 => {
    sp(m);
    if let Some(x) = pr.opt(26)? { m.lit(x); }
    m.lit(pr.q(27)?);
    sp(m);
    }
    }
    sp(m);
    m.lit(pr.q(28)?);
    }
    }
    }
    }
    }
    m.lit(pr.mc(29)?);
    sp(m);
    l(m, "+");
    tp(m);
    let mut v10 = pr.q(30)?;
    sp(m);
    m.lit(pr.n(31, 9)?.to_string());
    m.lit(v10.clone());
    sp(m);
    m.lit(pr.q(32)?); sp(m); m.lit(pr.q(33)?);
    sp(m);
    l(m, "(");
    tp(m);
    l(m, ")");
    Ok(())
}
fn real_76<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $[str]($name-)$(let (v1, v2) = (pr.q(1)?, pr.n(2, 9)?))$(quote! {
            $(vec![pr.q(3)?, pr.q(4)?]);
            
            $(for v4 in pr.it(5)? => $(for v6 in 0..pr.n(6, 4)? => $['\n']$(for (i10, v8) in pr.it(7)?.enumerate() join (, ) { $(Some(pr.q(9)?))$(from_fn(|t| { t.append(pr.c(10)); t.space(); t.append(pr.c(11)); })) })/**/$(match pr.n(12, 5)? {
                0 | 2 => { $(pr.q(13)?)$(pr.q(14)?.as_str()) },
                _ => ( x 7 Self )
            }))$(vec![pr.q(15)?, pr.q(16)?]))$v2$(display(pr.n(17, 9)?))/**/$({ if pr.b(18)? { "t" } else { "f" } })
            $(vec![pr.q(19)?, pr.q(20)?])$({ pr.mark(21)?; "blk" }) $(ref o11 { if pr.rare(22)? { o11.append(pr.q(23)?); return Err(Left::Return); } }) {
            
               $(let v12 = pr.q(24)?)	{
               }
            }
        }) [$(display(pr.n(25, 9)?)) $("ä")] bar$(pr.q(26)?)
            $v1$("ver batim")  $(ref _ { pr.mark(27)?; }) $(pr.c(28))
    }
    Ok(())
}
fn model_76(m: &mut MV, pr: &Pr) -> Flow {
    oq(m, true);
    oe(m);
    l(m, "name");
    ce(m);
    l(m, "-");
    cq(m);
    let (v1, v2) = (pr.q(1)?, pr.n(2, 9)?);
    let mut s3 = MStream::<()>::default();
    {
    let m = &mut s3;
    { let x = pr.q(3)?; let y = pr.q(4)?; m.lit(x); m.lit(y); }
    l(m, ";");
    tln(m);
    {
    let mut it5 = pr.it(5)?;
    let mut step = || -> Flow<Option<String>> { it5.step() };
    while let Some(v4) = step()? {
    {
    let mut it7 = 0..pr.n(6, 4)?;
    let mut step = || -> Flow<Option<u64>> { Ok(it7.next()) };
    while let Some(v6) = step()? {
    ln(m);
    {
    let mut it9 = pr.it(7)?;
    let mut at = 0u64;
    let mut step = || -> Flow<Option<(u64, String)>> { let x = it9.step()?; at += 1; Ok(x.map(|x| (at - 1, x))) };
    let mut next = step()?;
    while let Some((i10, v8)) = next {
    {
    m.lit(pr.q(9)?);
    m.lit(pr.mc(10)?); sp(m); m.lit(pr.mc(11)?);
    }
    next = step()?;
    if next.is_some() {
    {
    l(m, ",");
    sp(m);
    }
    }
    }
    }
    sp(m);
    match pr.n(12, 5)? {
    0 | 2 => {
    m.lit(pr.q(13)?);
    m.lit(pr.q(14)?);
    }
    _ => {
    sp(m);
    l(m, "x");
    sp(m);
    l(m, "7");
    sp(m);
    l(m, "Self");
    sp(m);
    }
    }
    }
    }
    { let x = pr.q(15)?; let y = pr.q(16)?; m.lit(x); m.lit(y); }
    }
    }
    m.lit(v2.to_string());
    m.lit(pr.n(17, 9)?.to_string());
    sp(m);
    l(m, if pr.b(18)? { "t" } else { "f" });
    tp(m);
    { let x = pr.q(19)?; let y = pr.q(20)?; m.lit(x); m.lit(y); }
    pr.mark(21)?; l(m, "blk");
    sp(m);
    if pr.rare(22)? { m.lit(pr.q(23)?); return Err(Left::Return); }
    sp(m);
    l(m, "{");
    tind(m);
    tln(m);
    let v12 = pr.q(24)?;
    sp(m);
    l(m, "{");
    tp(m);
    l(m, "}");
    tun(m);
    l(m, "}");
    }
    m.add_all(&s3.items);
    sp(m);
    l(m, "[");
    m.lit(pr.n(25, 9)?.to_string());
    sp(m);
    l(m, "ä");
    l(m, "]");
    sp(m);
    l(m, "bar");
    m.lit(pr.q(26)?);
    tind(m);
    m.lit(v1);
    l(m, "ver batim");
    sp(m);
    pr.mark(27)?;
    sp(m);
    m.lit(pr.mc(28)?);
    tend(m);
    Ok(())
}
fn real_77<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(let v1 = pr.q(1)?)$(ref o2 { o2.append(pr.q(2)?); o2.space(); o2.append(pr.q(3)?); })$(from_fn(|t| { t.append(pr.c(4)); t.space(); t.append(pr.c(5)); }))$(ref o3 { if pr.rare(6)? { o3.append(pr.q(7)?); return Err(Left::Return); } })	$(if let Some(v4) = pr.opt(8)? => $(v1.as_str())$(" lead")) /* between */ "lit"
    }
    Ok(())
}
fn model_77(m: &mut MV, pr: &Pr) -> Flow {
    let v1 = pr.q(1)?;
    m.lit(pr.q(2)?); sp(m); m.lit(pr.q(3)?);
    m.lit(pr.mc(4)?); sp(m); m.lit(pr.mc(5)?);
    if pr.rare(6)? { m.lit(pr.q(7)?); return Err(Left::Return); }
    sp(m);
    if let Some(v4) = pr.opt(8)? {
    m.lit(v1.clone());
    l(m, " lead");
    }
    sp(m);
    qs(m, "lit");
    Ok(())
}
fn real_78<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(ref _ => if pr.rare(1)? { return Err(Left::Return); })(/**/$[str](one$($(if pr.b(2)? { $(" lead")  $(if pr.b(3)? && pr.b(4)? { $(pr.n(5, 9)?) foo }) } else { $(ref o1 => quote_in!(*o1 => $(pr.c(7)) $(Some(pr.q(8)?))$(pr.q(9)?)))$(quoted(quote!(a1       $(pr.multi(10)?)))) })7)$[const](pr.q(11)?) $$))$(let v3 = pr.q(12)?)  $[str](a b  c)$(ref o4 { if pr.b(13)? { quote_in!(*o4 => $(if pr.b(14)? && pr.b(15)? { $(let v5 = pr.q(16)?) })); } o4.push(); })
    }
    Ok(())
}
fn model_78(m: &mut MV, pr: &Pr) -> Flow {
    if pr.rare(1)? { return Err(Left::Return); }
    l(m, "(");
    sp(m);
    oq(m, true);
    l(m, "one");
    oe(m);
    {
    if pr.b(2)? {
    l(m, " lead");
    sp(m);
    if pr.b(3)? && pr.b(4)? {
    m.lit(pr.n(5, 9)?.to_string());
    sp(m);
    l(m, "foo");
    }
    } else {
    {
    m.lit(pr.mc(7)?);
    sp(m);
    m.lit(pr.q(8)?);
    m.lit(pr.q(9)?);
    }
    let mut s2 = MStream::<()>::default();
    {
    let m = &mut s2;
    l(m, "a1");
    sp(m);
    pr.mmulti(10, m)?;
    }
    oq(m, false);
    m.add_all(&s2.items);
    cq(m);
    }
    l(m, "7");
    }
    ce(m);
    m.lit(pr.q(11)?);
    l(m, " $");
    cq(m);
    l(m, ")");
    let v3 = pr.q(12)?;
    sp(m);
    qs(m, "a b  c");
    if pr.b(13)? {
    if pr.b(14)? && pr.b(15)? {
    let v5 = pr.q(16)?;
    }
    }
    p(m);
    Ok(())
}
fn real_79<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(pr.q(1)?)$(let v1 = pr.q(2)?)$(for v2 in pr.opt(3)? join ( $(vec![pr.q(4)?, pr.q(5)?])$$) => $("ä") $(ref o4 { if pr.rare(6)? { o4.append(pr.q(7)?); break; } }))$(for v5 in pr.it(8)? join ( $(ref o7 { if pr.b(9)? { quote_in!(*o7 => $(ref _ => if pr.b(10)? { pr.mark(11)?; }) $(ref _ => if pr.rare(12)? { return Err(Left::Return); })); } o7.push(); })	$("ä")) => $(quoted(pr.q(13)?)))
    }
    Ok(())
}
fn model_79(m: &mut MV, pr: &Pr) -> Flow {
    m.lit(pr.q(1)?);
    let v1 = pr.q(2)?;
    {
    let mut it3 = pr.opt(3)?.into_iter();
    let mut step = || -> Flow<Option<String>> { Ok(it3.next()) };
    let mut next = step()?;
    while let Some(v2) = next {
    {
    l(m, "ä");
    sp(m);
    if pr.rare(6)? { m.lit(pr.q(7)?); break; }
    }
    next = step()?;
    if next.is_some() {
    {
    sp(m);
    { let x = pr.q(4)?; let y = pr.q(5)?; m.lit(x); m.lit(y); }
    l(m, "$");
    }
    }
    }
    }
    {
    let mut it6 = pr.it(8)?;
    let mut step = || -> Flow<Option<String>> { it6.step() };
    let mut next = step()?;
    while let Some(v5) = next {
    {
    { let x = pr.q(13)?; oq(m, false); m.lit(x); cq(m); }
    }
    next = step()?;
    if next.is_some() {
    {
    sp(m);
    if pr.b(9)? {
    if pr.b(10)? { pr.mark(11)?; }
    sp(m);
    if pr.rare(12)? { return Err(Left::Return); }
    }
    p(m);
    sp(m);
    l(m, "ä");
    }
    }
    }
    }
    Ok(())
}
fn real_80<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        .../**/$(if let (Some(v1), _) = (pr.opt(1)?, pr.b(2)?) => foo$(pr.q(3)?)) // note
        $(Some(pr.q(4)?))foo$(pr.n(5, 9)?) ($(&pr.q(7)?) ($$ ($({ if pr.b(6)? { "t" } else { "f" } }) $("ver batim") $$) _y) $$)
        // between
            $(pr.opt(8)?) (
            ) $(quoted(quote!(a1       $(ref _ => if pr.b(9)? { pr.mark(10)?; })$[str]($($(&pr.q(11)?)	$(match pr.b(12)? { true | false => $$ ("q\"uote", r#type), }))))))  $(let v4 = pr.n(13, 9)?)
    }
    Ok(())
}
fn model_80(m: &mut MV, pr: &Pr) -> Flow {
    l(m, "...");
    sp(m);
    if let (Some(v1), _) = (pr.opt(1)?, pr.b(2)?) {
    l(m, "foo");
    m.lit(pr.q(3)?);
    }
    tp(m);
    m.lit(pr.q(4)?);
    l(m, "foo");
    m.lit(pr.n(5, 9)?.to_string());
    sp(m);
    l(m, "(");
    m.lit(pr.q(7)?);
    sp(m);
    l(m, "(");
    l(m, "$");
    sp(m);
    l(m, "(");
    l(m, if pr.b(6)? { "t" } else { "f" });
    sp(m);
    l(m, "ver batim");
    sp(m);
    l(m, "$");
    l(m, ")");
    sp(m);
    l(m, "_y");
    l(m, ")");
    sp(m);
    l(m, "$");
    l(m, ")");
    tind(m);
    tln(m);
    if let Some(x) = pr.opt(8)? { m.lit(x); }
    sp(m);
    l(m, "(");
    tp(m);
    l(m, ")");
    sp(m);
    let mut s2 = MStream::<()>::default();
    {
    let m = &mut s2;
    l(m, "a1");
    sp(m);
    if pr.b(9)? { pr.mark(10)?; }
    oq(m, true);
    oe(m);
    {
    m.lit(pr.q(11)?);
    sp(m);
    match pr.b(12)? {
    true | false => {
    l(m, "$");
    sp(m);
    l(m, "(");
    qs(m, "q\"uote");
    l(m, ",");
    sp(m);
    l(m, "r#type");
    l(m, ")");
    }
    }
    }
    ce(m);
    cq(m);
    }
    oq(m, false);
    m.add_all(&s2.items);
    cq(m);
    sp(m);
    let v4 = pr.n(13, 9)?;
    tend(m);
    Ok(())
}
fn real_81<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $[str]($name-$name- three)/**/a1       [

                   $(&pr.q(1)?) $(for v1 in pr.it(2)? =>
                       $("ver batim")1_000u64	x$(if pr.b(3)? => $(quote!($(for v4 in pr.it(4)? { größe "lit" 1_000u64 }))) $(if let (Some(v6), _) = (pr.opt(5)?, pr.b(6)?) {
                           $(for v7 in pr.it(7)? join ( foo$(&pr.q(8)?)  ) {
                               $(&pr.q(9)?)   
                                $(vec![pr.q(10)?, pr.q(11)?]) (
                               
                                   a1	.
                                           $(pr.multi(12)?)       , {
                                                $(pr.q(13)?)
                                           }/**/$(pr.opt(14)?) $(&pr.q(15)?)
                                )
                           }) $(let v9 = pr.q(16)?)
                       } else { $(if let (Some(v10), _) = (pr.opt(17)?, pr.b(18)?) {
                           "lit" /* between */ $$	$(from_fn(|t| { t.append(pr.c(19)); t.space(); t.append(pr.c(20)); })) $(pr.q(21)?)  $(Some(pr.q(22)?))_y$({ pr.mark(23)?; "blk" })
                           // between
                           
                           $(quoted(pr.q(24)?)) $(display(pr.n(25, 9)?))       (
                           // between
                           
                           )
                       } else { "two words"$(pr.q(26)?)	? }) }) /* between */ $(quote! {
                           $(match (pr.b(27)?, pr.q(28)?) {
                               (_, v12) => (x/**/)
                           }) $(pr.q(29)?)
                               $(v1.as_str()) (
                                   $(let v13 = pr.q(30)?) $(vec![pr.q(31)?, pr.q(32)?])$['\n'] while
                               )
                       }))       {   
                       }) ($[str](plain) "lit")
                   $(quoted(quote!($(quote!($(ref _ => if pr.rare(33)? { return Err(Left::Return); })/**/$(vec![pr.q(34)?, pr.q(35)?])"two words")))))	$(let v16 = pr.n(36, 9)?)


                   // between

        ]
    }
    Ok(())
}
fn model_81(m: &mut MV, pr: &Pr) -> Flow {
    oq(m, true);
    oe(m);
    l(m, "name");
    ce(m);
    l(m, "-");
    oe(m);
    l(m, "name");
    ce(m);
    l(m, "- three");
    cq(m);
    sp(m);
    l(m, "a1");
    sp(m);
    l(m, "[");
    tind(m);
    tln(m);
    m.lit(pr.q(1)?);
    sp(m);
    {
    let mut it2 = pr.it(2)?;
    let mut step = || -> Flow<Option<String>> { it2.step() };
    while let Some(v1) = step()? {
    l(m, "ver batim");
    l(m, "1_000u64");
    sp(m);
    l(m, "x");
    if pr.b(3)? {
    let mut s3 = MStream::<()>::default();
    {
    let m = &mut s3;
    {
    let mut it5 = pr.it(4)?;
    let mut step = || -> Flow<Option<String>> { it5.step() };
    while let Some(v4) = step()? {
    l(m, "größe");
    sp(m);
    qs(m, "lit");
    sp(m);
    l(m, "1_000u64");
    }
    }
    }
    m.add_all(&s3.items);
    sp(m);
    if let (Some(v6), _) = (pr.opt(5)?, pr.b(6)?) {
    {
    let mut it8 = pr.it(7)?;
    let mut step = || -> Flow<Option<String>> { it8.step() };
    let mut next = step()?;
    while let Some(v7) = next {
    {
    m.lit(pr.q(9)?);
    tind(m);
    { let x = pr.q(10)?; let y = pr.q(11)?; m.lit(x); m.lit(y); }
    sp(m);
    l(m, "(");
    tind(m);
    tln(m);
    l(m, "a1");
    sp(m);
    l(m, ".");
    tind(m);
    pr.mmulti(12, m)?;
    sp(m);
    l(m, ",");
    sp(m);
    l(m, "{");
    tind(m);
    m.lit(pr.q(13)?);
    tun(m);
    l(m, "}");
    sp(m);
    if let Some(x) = pr.opt(14)? { m.lit(x); }
    sp(m);
    m.lit(pr.q(15)?);
    tun(m);
    tun(m);
    l(m, ")");
    tend(m);
    }
    next = step()?;
    if next.is_some() {
    {
    sp(m);
    l(m, "foo");
    m.lit(pr.q(8)?);
    sp(m);
    }
    }
    }
    }
    sp(m);
    let v9 = pr.q(16)?;
    } else {
    if let (Some(v10), _) = (pr.opt(17)?, pr.b(18)?) {
    qs(m, "lit");
    sp(m);
    l(m, "$");
    sp(m);
    m.lit(pr.mc(19)?); sp(m); m.lit(pr.mc(20)?);
    sp(m);
    m.lit(pr.q(21)?);
    sp(m);
    m.lit(pr.q(22)?);
    l(m, "_y");
    pr.mark(23)?; l(m, "blk");
    tln(m);
    { let x = pr.q(24)?; oq(m, false); m.lit(x); cq(m); }
    sp(m);
    m.lit(pr.n(25, 9)?.to_string());
    sp(m);
    l(m, "(");
    tln(m);
    l(m, ")");
    } else {
    qs(m, "two words");
    m.lit(pr.q(26)?);
    sp(m);
    l(m, "?");
    }
    }
    sp(m);
    let mut s11 = MStream::<()>::default();
    {
    let m = &mut s11;
    match (pr.b(27)?, pr.q(28)?) {
    (_, v12) => {
    l(m, "x");
    sp(m);
    }
    }
    sp(m);
    m.lit(pr.q(29)?);
    tind(m);
    m.lit(v1.clone());
    sp(m);
    l(m, "(");
    tind(m);
    let v13 = pr.q(30)?;
    sp(m);
    { let x = pr.q(31)?; let y = pr.q(32)?; m.lit(x); m.lit(y); }
    ln(m);
    sp(m);
    l(m, "while");
    tun(m);
    l(m, ")");
    tend(m);
    }
    m.add_all(&s11.items);
    }
    sp(m);
    l(m, "{");
    tp(m);
    l(m, "}");
    }
    }
    sp(m);
    l(m, "(");
    qs(m, "plain");
    sp(m);
    qs(m, "lit");
    l(m, ")");
    tp(m);
    let mut s14 = MStream::<()>::default();
    {
    let m = &mut s14;
    let mut s15 = MStream::<()>::default();
    {
    let m = &mut s15;
    if pr.rare(33)? { return Err(Left::Return); }
    sp(m);
    { let x = pr.q(34)?; let y = pr.q(35)?; m.lit(x); m.lit(y); }
    qs(m, "two words");
    }
    m.add_all(&s15.items);
    }
    oq(m, false);
    m.add_all(&s14.items);
    cq(m);
    sp(m);
    let v16 = pr.n(36, 9)?;
    tun(m);
    tln(m);
    l(m, "]");
    Ok(())
}
fn real_82<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(for v1 in pr.it(1)? join ($(ref _ { pr.mark(2)?; })_y) {
            $(let v3 = pr.q(3)?)$(ref _ => if pr.rare(4)? { break; }) (
                $(Some(pr.q(5)?)) $[str]($name-one) $v1
            
                $(v3.clone()) $(let mut v4 = pr.q(6)?)$(let mut v5 = pr.q(7)?) $(let v6 = pr.n(8, 9)?)$(ref o7 { o7.append(pr.q(9)?); o7.space(); o7.append(pr.q(10)?); })$(display(pr.n(11, 9)?))
            
                ,$(ref o8 { if pr.b(12)? { quote_in!(*o8 => $(let v9 = pr.q(13)?) $(v6)); } o8.push(); })$(for v10 in pr.opt(14)? join (, ) { $(ref _ => if pr.b(17)? { pr.mark(18)?; })a1 }) $(if let (Some(v12), _) = (pr.opt(19)?, pr.b(20)?) {
                    $$ $(&quote!($(ref _ => if pr.b(21)? { pr.mark(22)?; }) $(let (v14, v15) = (pr.q(23)?, pr.n(24, 9)?))))
                })
            
            
            )
        }) $(pr.q(25)?.as_str())       $[str](a b  c)
        $("ver batim") /* between */ $(display(pr.n(26, 9)?)) (
         $(pr.multi(27)?)$[str]($[const](pr.q(28)?)$[const](pr.q(29)?)$[const](pr.q(30)?) $$)
        )
    }
    Ok(())
}
fn model_82(m: &mut MV, pr: &Pr) -> Flow {
    {
    let mut it2 = pr.it(1)?;
    let mut step = || -> Flow<Option<String>> { it2.step() };
    let mut next = step()?;
    while let Some(v1) = next {
    {
    let v3 = pr.q(3)?;
    if pr.rare(4)? { break; }
    sp(m);
    l(m, "(");
    tind(m);
    m.lit(pr.q(5)?);
    sp(m);
    oq(m, true);
    oe(m);
    l(m, "name");
    ce(m);
    l(m, "-one");
    cq(m);
    sp(m);
    m.lit(v1);
    tln(m);
    m.lit(v3.clone());
    sp(m);
    let mut v4 = pr.q(6)?;
    let mut v5 = pr.q(7)?;
    sp(m);
    let v6 = pr.n(8, 9)?;
    m.lit(pr.q(9)?); sp(m); m.lit(pr.q(10)?);
    m.lit(pr.n(11, 9)?.to_string());
    tln(m);
    l(m, ",");
    if pr.b(12)? {
    let v9 = pr.q(13)?;
    sp(m);
    m.lit(v6.to_string());
    }
    p(m);
    {
    let mut it11 = pr.opt(14)?.into_iter();
    let mut step = || -> Flow<Option<String>> { Ok(it11.next()) };
    let mut next = step()?;
    while let Some(v10) = next {
    {
    if pr.b(17)? { pr.mark(18)?; }
    l(m, "a1");
    }
    next = step()?;
    if next.is_some() {
    {
    l(m, ",");
    sp(m);
    }
    }
    }
    }
    sp(m);
    if let (Some(v12), _) = (pr.opt(19)?, pr.b(20)?) {
    l(m, "$");
    sp(m);
    let mut s13 = MStream::<()>::default();
    {
    let m = &mut s13;
    if pr.b(21)? { pr.mark(22)?; }
    sp(m);
    let (v14, v15) = (pr.q(23)?, pr.n(24, 9)?);
    }
    m.add_all(&s13.items);
    }
    tun(m);
    tln(m);
    l(m, ")");
    }
    next = step()?;
    if next.is_some() {
    {
    pr.mark(2)?;
    l(m, "_y");
    }
    }
    }
    }
    sp(m);
    m.lit(pr.q(25)?);
    sp(m);
    qs(m, "a b  c");
    tp(m);
    l(m, "ver batim");
    sp(m);
    m.lit(pr.n(26, 9)?.to_string());
    sp(m);
    l(m, "(");
    tind(m);
    pr.mmulti(27, m)?;
    oq(m, false);
    m.lit(pr.q(28)?);
    m.lit(pr.q(29)?);
    m.lit(pr.q(30)?);
    l(m, " $");
    cq(m);
    tun(m);
    l(m, ")");
    Ok(())
}
fn real_83<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(pr.c(1))
        $(ref _ => if pr.b(2)? { pr.mark(3)?; })/**/$(pr.c(4))a1 (
        )

        foo$(for v1 in 0..pr.n(5, 4)? { $[str]($[const](pr.q(6)?)$($(pr.multi(7)?)$(pr.multi(8)?))) }) $(ref o3 { if pr.rare(9)? { o3.append(pr.q(10)?); return Err(Left::Return); } })$({ pr.mark(11)?; "blk" }) $(pr.q(12)?.as_str())       $({ pr.mark(13)?; "blk" })[ $("ver batim")]bar $({ pr.mark(14)?; "blk" })
    }
    Ok(())
}
fn model_83(m: &mut MV, pr: &Pr) -> Flow {
    m.lit(pr.mc(1)?);
    tp(m);
    if pr.b(2)? { pr.mark(3)?; }
    sp(m);
    m.lit(pr.mc(4)?);
    l(m, "a1");
    sp(m);
    l(m, "(");
    tp(m);
    l(m, ")");
    tln(m);
    l(m, "foo");
    {
    let mut it2 = 0..pr.n(5, 4)?;
    let mut step = || -> Flow<Option<u64>> { Ok(it2.next()) };
    while let Some(v1) = step()? {
    oq(m, true);
    m.lit(pr.q(6)?);
    oe(m);
    {
    pr.mmulti(7, m)?;
    pr.mmulti(8, m)?;
    }
    ce(m);
    cq(m);
    }
    }
    sp(m);
    if pr.rare(9)? { m.lit(pr.q(10)?); return Err(Left::Return); }
    pr.mark(11)?; l(m, "blk");
    sp(m);
    m.lit(pr.q(12)?);
    sp(m);
    pr.mark(13)?; l(m, "blk");
    l(m, "[");
    sp(m);
    l(m, "ver batim");
    l(m, "]");
    l(m, "bar");
    sp(m);
    pr.mark(14)?; l(m, "blk");
    Ok(())
}
fn real_84<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(ref o1 { if pr.rare(1)? { o1.append(pr.q(2)?); return Err(Left::Return); } })       $(for v2 in pr.it(3)?.filter(|_| pr.cb(4)) { $(&v2) })  $(vec![pr.q(5)?, pr.q(6)?])	{
        }  {$$ ($(format!("<{}>", pr.q(8)?)) (bar {$$ ($$ ($$ ($$ $("ver batim") $$) 'c') $$) _y} $(&pr.q(7)?)) $(format!("<{}>", pr.q(9)?))) $$}$(quoted(pr.q(10)?)) [   
        ]
    }
    Ok(())
}
fn model_84(m: &mut MV, pr: &Pr) -> Flow {
    if pr.rare(1)? { m.lit(pr.q(2)?); return Err(Left::Return); }
    sp(m);
    {
    let mut it3 = pr.it(3)?;
    let mut step = || -> Flow<Option<String>> { while let Some(x) = it3.step()? { if pr.mcb(4)? { return Ok(Some(x)); } } Ok(None) };
    while let Some(v2) = step()? {
    m.lit(v2.clone());
    }
    }
    sp(m);
    { let x = pr.q(5)?; let y = pr.q(6)?; m.lit(x); m.lit(y); }
    sp(m);
    l(m, "{");
    tp(m);
    l(m, "}");
    sp(m);
    l(m, "{");
    l(m, "$");
    sp(m);
    l(m, "(");
    m.lit(format!("<{}>", pr.q(8)?));
    sp(m);
    l(m, "(");
    l(m, "bar");
    sp(m);
    l(m, "{");
    l(m, "$");
    sp(m);
    l(m, "(");
    l(m, "$");
    sp(m);
    l(m, "(");
    l(m, "$");
    sp(m);
    l(m, "(");
    l(m, "$");
    sp(m);
    l(m, "ver batim");
    sp(m);
    l(m, "$");
    l(m, ")");
    sp(m);
    l(m, "'c'");
    l(m, ")");
    sp(m);
    l(m, "$");
    l(m, ")");
    sp(m);
    l(m, "_y");
    l(m, "}");
    sp(m);
    m.lit(pr.q(7)?);
    l(m, ")");
    sp(m);
    m.lit(format!("<{}>", pr.q(9)?));
    l(m, ")");
    sp(m);
    l(m, "$");
    l(m, "}");
    { let x = pr.q(10)?; oq(m, false); m.lit(x); cq(m); }
    sp(m);
    l(m, "[");
    tp(m);
    l(m, "]");
    Ok(())
}
fn real_85<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        [, {$(pr.q(1)?) ($$ {$$ bar $$} while) $(from_fn(|t| { t.append(pr.c(2)); t.space(); t.append(pr.c(3)); }))} $(pr.q(4)?)]'a{$(pr.c(6)) {$$ {$(format!("<{}>", pr.q(5)?)) $("ver batim") ,} $$} Self}$(for v1 in 0..pr.n(7, 4)? join (, ) { . })
    }
    Ok(())
}
fn model_85(m: &mut MV, pr: &Pr) -> Flow {
    l(m, "[");
    l(m, ",");
    sp(m);
    l(m, "{");
    m.lit(pr.q(1)?);
    sp(m);
    l(m, "(");
    l(m, "$");
    sp(m);
    l(m, "{");
    l(m, "$");
    sp(m);
    l(m, "bar");
    sp(m);
    l(m, "$");
    l(m, "}");
    sp(m);
    l(m, "while");
    l(m, ")");
    sp(m);
    m.lit(pr.mc(2)?); sp(m); m.lit(pr.mc(3)?);
    l(m, "}");
    sp(m);
    m.lit(pr.q(4)?);
    l(m, "]");
    l(m, "'a");
    l(m, "{");
    m.lit(pr.mc(6)?);
    sp(m);
    l(m, "{");
    l(m, "$");
    sp(m);
    l(m, "{");
    m.lit(format!("<{}>", pr.q(5)?));
    sp(m);
    l(m, "ver batim");
    sp(m);
    l(m, ",");
    l(m, "}");
    sp(m);
    l(m, "$");
    l(m, "}");
    sp(m);
    l(m, "Self");
    l(m, "}");
    {
    let mut it2 = 0..pr.n(7, 4)?;
    let mut step = || -> Flow<Option<u64>> { Ok(it2.next()) };
    let mut next = step()?;
    while let Some(v1) = next {
    {
    l(m, ".");
    }
    next = step()?;
    if next.is_some() {
    {
    l(m, ",");
    sp(m);
    }
    }
    }
    }
    Ok(())
}
fn real_86<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $[str](one three$[const](pr.q(1)?)$[const]("con st")$[const]("con st")$[const]("con st")$[const]("con st"))
        $(pr.q(2)?)

                $(ref o1 { if pr.rare(3)? { o1.append(pr.q(4)?); return Err(Left::Return); } }) $(for v2 in pr.opt(5)? join ($(quote!($(ref _ => if pr.b(6)? { pr.mark(7)?; }) $(if pr.b(8)? || !pr.b(9)? => $(quoted(quote!($(pr.q(10)?))))	$(match (pr.b(11)?, pr.n(12, 3)?) { (true, 0) => ($(&pr.q(14)?)), (_, 1) | (true, _) => (while $(Some(pr.q(15)?)) Self), _ if pr.b(13)? => { $(Some(pr.q(16)?)) "lit" }, (..) => &&  $(pr.q(17)?)  $(display(pr.n(18, 9)?)) (/**/$(pr.q(19)?)       $(&pr.q(20)?)$(display(pr.n(21, 9)?)), $(pr.c(22)) ) }) $(quoted(pr.q(23)?)))))$(ref o7 => quote_in!(*o7 => 1.5 $(match pr.opt(25)? { Some(v9) => ($(pr.n(26, 9)?) $[str](a b  c)	$(v9.as_str())), None => { $(let v10 = pr.q(27)?) }, })$(Some(pr.q(28)?))))) { ;$[str](a b  c)$(pr.multi(29)?) }) $[str](a b  c)
    }
    Ok(())
}
fn model_86(m: &mut MV, pr: &Pr) -> Flow {
    oq(m, false);
    l(m, "one three");
    m.lit(pr.q(1)?);
    l(m, "con stcon stcon stcon st");
    cq(m);
    tp(m);
    m.lit(pr.q(2)?);
    tind(m);
    tln(m);
    if pr.rare(3)? { m.lit(pr.q(4)?); return Err(Left::Return); }
    sp(m);
    {
    let mut it3 = pr.opt(5)?.into_iter();
    let mut step = || -> Flow<Option<String>> { Ok(it3.next()) };
    let mut next = step()?;
    while let Some(v2) = next {
    {
    l(m, ";");
    qs(m, "a b  c");
    pr.mmulti(29, m)?;
    }
    next = step()?;
    if next.is_some() {
    {
    let mut s4 = MStream::<()>::default();
    {
    let m = &mut s4;
    if pr.b(6)? { pr.mark(7)?; }
    sp(m);
    if pr.b(8)? || !pr.b(9)? {
    let mut s5 = MStream::<()>::default();
    {
    let m = &mut s5;
    m.lit(pr.q(10)?);
    }
    oq(m, false);
    m.add_all(&s5.items);
    cq(m);
    sp(m);
    match (pr.b(11)?, pr.n(12, 3)?) {
    (true, 0) => {
    m.lit(pr.q(14)?);
    }
    (_, 1) | (true, _) => {
    l(m, "while");
    sp(m);
    m.lit(pr.q(15)?);
    sp(m);
    l(m, "Self");
    }
    _ if pr.b(13)? => {
    m.lit(pr.q(16)?);
    sp(m);
    qs(m, "lit");
    }
    (..) => {
    l(m, "&&");
    sp(m);
    m.lit(pr.q(17)?);
    sp(m);
    m.lit(pr.n(18, 9)?.to_string());
    sp(m);
    l(m, "(");
    sp(m);
    m.lit(pr.q(19)?);
    sp(m);
    m.lit(pr.q(20)?);
    m.lit(pr.n(21, 9)?.to_string());
    l(m, ",");
    sp(m);
    m.lit(pr.mc(22)?);
    sp(m);
    l(m, ")");
    }
    }
    sp(m);
    { let x = pr.q(23)?; oq(m, false); m.lit(x); cq(m); }
    }
    }
    m.add_all(&s4.items);
    {
    l(m, "1.5");
    sp(m);
    match pr.opt(25)? {
    Some(v9) => {
    m.lit(pr.n(26, 9)?.to_string());
    sp(m);
    qs(m, "a b  c");
    sp(m);
    m.lit(v9.clone());
    }
    None => {
    let v10 = pr.q(27)?;
    }
    }
    m.lit(pr.q(28)?);
    }
    }
    }
    }
    }
    sp(m);
    qs(m, "a b  c");
    tend(m);
    Ok(())
}
fn real_87<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(for v1 in pr.it(1)? join ( $(if pr.b(2)? && pr.b(3)? { $(match (pr.b(4)?, pr.n(5, 3)?) { (true, 0) => { & } _ => (	while       $("ver batim")), }) } else { $(ref _ => if pr.rare(6)? { return Err(Left::Return); })$(match pr.q(7)? { v4 => $(pr.n(8, 9)?) {"two words"$(&pr.q(9)?) $(quoted(pr.q(10)?))}$(let mut v5 = pr.q(11)?) [ $({ if pr.b(12)? { "t" } else { "f" } }) while,/**/,, 0x1F /* between */ r#type ], }) })$(pr.q(13)?.as_str())) { $(v1.clone()) })

            foo
            $(if pr.b(14)? && pr.b(15)? { _y } else { $(match pr.b(16)? {
                true | false => { $(ref o7 { o7.append(pr.q(17)?); o7.space(); o7.append(pr.q(18)?); })$(let (v8, v9) = (pr.q(19)?, pr.n(20, 9)?)) }
            }) })
    }
    Ok(())
}
fn model_87(m: &mut MV, pr: &Pr) -> Flow {
    {
    let mut it2 = pr.it(1)?;
    let mut step = || -> Flow<Option<String>> { it2.step() };
    let mut next = step()?;
    while let Some(v1) = next {
    {
    m.lit(v1.clone());
    }
    next = step()?;
    if next.is_some() {
    {
    sp(m);
    if pr.b(2)? && pr.b(3)? {
    match (pr.b(4)?, pr.n(5, 3)?) {
    (true, 0) => {
    l(m, "&");
    }
    _ => {
    sp(m);
    l(m, "while");
    sp(m);
    l(m, "ver batim");
    }
    }
    } else {
    if pr.rare(6)? { return Err(Left::Return); }
    match pr.q(7)? {
    v4 => {
    m.lit(pr.n(8, 9)?.to_string());
    sp(m);
    l(m, "{");
    qs(m, "two words");
    m.lit(pr.q(9)?);
    sp(m);
    { let x = pr.q(10)?; oq(m, false); m.lit(x); cq(m); }
    l(m, "}");
    let mut v5 = pr.q(11)?;
    sp(m);
    l(m, "[");
    sp(m);
    l(m, if pr.b(12)? { "t" } else { "f" });
    sp(m);
    l(m, "while");
    l(m, ",");
    sp(m);
    l(m, ",");
    l(m, ",");
    sp(m);
    l(m, "0x1F");
    sp(m);
    l(m, "r#type");
    sp(m);
    l(m, "]");
    }
    }
    }
    m.lit(pr.q(13)?);
    }
    }
    }
    }
    tind(m);
    tln(m);
    l(m, "foo");
    tp(m);
    if pr.b(14)? && pr.b(15)? {
    l(m, "_y");
    } else {
    match pr.b(16)? {
    true | false => {
    m.lit(pr.q(17)?); sp(m); m.lit(pr.q(18)?);
    let (v8, v9) = (pr.q(19)?, pr.n(20, 9)?);
    }
    }
    }
    tend(m);
    Ok(())
}
fn real_88<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(if pr.b(1)? { =$({ pr.mark(2)?; "blk" }) })$(quoted(pr.q(3)?))$(ref _ => if pr.b(4)? { pr.mark(5)?; })
        $(vec![pr.q(6)?, pr.q(7)?])	größe


        $(pr.c(8))

        $(if pr.b(9)? { $(quote!($(let v2 = pr.q(10)?)	$(pr.n(11, 9)?)foo))[ $(ref _ => if pr.rare(12)? { return Err(Left::Return); }) Self$(pr.c(13)) $(match pr.opt(14)? {
            Some(v3) if v3.is_empty() || pr.b(15)? => $(Some(pr.q(16)?))$("ver batim") [$({ if pr.b(17)? { "t" } else { "f" } }),, bar $$ ],
            Some(v4) => $(ref o5 { if pr.rare(18)? { o5.append(pr.q(19)?); return Err(Left::Return); } })$$ $(let v6 = pr.q(20)?) ($(pr.opt(21)?)"two words" Self	$$, $(from_fn(|t| { t.append(pr.c(22)); t.space(); t.append(pr.c(23)); }))$(pr.n(24, 9)?) ),
            None => $(for v7 in pr.it(25)?.filter(|_| pr.cb(26)) =>
                $(from_fn(|t| { t.append(pr.c(27)); t.space(); t.append(pr.c(28)); }))  $(from_fn(|t| { t.append(pr.c(29)); t.space(); t.append(pr.c(30)); }))$(pr.multi(31)?) [
                ]) $(pr.c(32)) $[str](a b  c) {$(&pr.q(33)?)$(display(pr.n(34, 9)?))	$(pr.multi(35)?)/**/"two words", $(vec![pr.q(36)?, pr.q(37)?])x}
        })]       "lit" } else {}) $(pr.multi(38)?)
    }
    Ok(())
}
fn model_88(m: &mut MV, pr: &Pr) -> Flow {
    if pr.b(1)? {
    l(m, "=");
    pr.mark(2)?; l(m, "blk");
    }
    { let x = pr.q(3)?; oq(m, false); m.lit(x); cq(m); }
    if pr.b(4)? { pr.mark(5)?; }
    tp(m);
    { let x = pr.q(6)?; let y = pr.q(7)?; m.lit(x); m.lit(y); }
    sp(m);
    l(m, "größe");
    tln(m);
    m.lit(pr.mc(8)?);
    tln(m);
    if pr.b(9)? {
    let mut s1 = MStream::<()>::default();
    {
    let m = &mut s1;
    let v2 = pr.q(10)?;
    sp(m);
    m.lit(pr.n(11, 9)?.to_string());
    l(m, "foo");
    }
    m.add_all(&s1.items);
    l(m, "[");
    sp(m);
    if pr.rare(12)? { return Err(Left::Return); }
    sp(m);
    l(m, "Self");
    m.lit(pr.mc(13)?);
    sp(m);
    match pr.opt(14)? {
    Some(v3) if v3.is_empty() || pr.b(15)? => {
    m.lit(pr.q(16)?);
    l(m, "ver batim");
    sp(m);
    l(m, "[");
    l(m, if pr.b(17)? { "t" } else { "f" });
    l(m, ",");
    l(m, ",");
    sp(m);
    l(m, "bar");
    sp(m);
    l(m, "$");
    sp(m);
    l(m, "]");
    }
    Some(v4) => {
    if pr.rare(18)? { m.lit(pr.q(19)?); return Err(Left::Return); }
    l(m, "$");
    sp(m);
    let v6 = pr.q(20)?;
    sp(m);
    l(m, "(");
    if let Some(x) = pr.opt(21)? { m.lit(x); }
    qs(m, "two words");
    sp(m);
    l(m, "Self");
    sp(m);
    l(m, "$");
    l(m, ",");
    sp(m);
    m.lit(pr.mc(22)?); sp(m); m.lit(pr.mc(23)?);
    m.lit(pr.n(24, 9)?.to_string());
    sp(m);
    l(m, ")");
    }
    None => {
    {
    let mut it8 = pr.it(25)?;
    let mut step = || -> Flow<Option<String>> { while let Some(x) = it8.step()? { if pr.mcb(26)? { return Ok(Some(x)); } } Ok(None) };
    while let Some(v7) = step()? {
    m.lit(pr.mc(27)?); sp(m); m.lit(pr.mc(28)?);
    sp(m);
    m.lit(pr.mc(29)?); sp(m); m.lit(pr.mc(30)?);
    pr.mmulti(31, m)?;
    sp(m);
    l(m, "[");
    tp(m);
    l(m, "]");
    }
    }
    sp(m);
    m.lit(pr.mc(32)?);
    sp(m);
    qs(m, "a b  c");
    sp(m);
    l(m, "{");
    m.lit(pr.q(33)?);
    m.lit(pr.n(34, 9)?.to_string());
    sp(m);
    pr.mmulti(35, m)?;
    sp(m);
    qs(m, "two words");
    l(m, ",");
    sp(m);
    { let x = pr.q(36)?; let y = pr.q(37)?; m.lit(x); m.lit(y); }
    l(m, "x");
    l(m, "}");
    }
    }
    l(m, "]");
    sp(m);
    qs(m, "lit");
    } else {
    }
    sp(m);
    pr.mmulti(38, m)?;
    Ok(())
}
fn real_89<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(quote!(bar$(quote!([$(match (pr.b(1)?, pr.n(2, 3)?) { (true, 0) => {}, (false, v3) if v3 < 2 && pr.b(3)? => $(quoted(pr.q(4)?)) {$(vec![pr.q(5)?, pr.q(6)?]), _y<<=}, (..) => $(quoted(pr.q(7)?))$(format!("<{}>", pr.q(8)?)) while, })	]))))
            $(pr.c(9)) /* between */ $(if pr.b(10)? => $(quoted(quote!($(ref _ { pr.mark(11)?; })$(pr.n(12, 9)?) $(ref o5 { if pr.rare(13)? { o5.append(pr.q(14)?); return Err(Left::Return); } })))) r#type)$(let mut v6 = pr.q(15)?)$(vec![pr.q(16)?, pr.q(17)?])
    }
    Ok(())
}
fn model_89(m: &mut MV, pr: &Pr) -> Flow {
    let mut s1 = MStream::<()>::default();
    {
    let m = &mut s1;
    l(m, "bar");
    let mut s2 = MStream::<()>::default();
    {
    let m = &mut s2;
    l(m, "[");
    match (pr.b(1)?, pr.n(2, 3)?) {
    (true, 0) => {
    }
    (false, v3) if v3 < 2 && pr.b(3)? => {
    { let x = pr.q(4)?; oq(m, false); m.lit(x); cq(m); }
    sp(m);
    l(m, "{");
    { let x = pr.q(5)?; let y = pr.q(6)?; m.lit(x); m.lit(y); }
    l(m, ",");
    sp(m);
    l(m, "_y");
    l(m, "<<=");
    l(m, "}");
    }
    (..) => {
    { let x = pr.q(7)?; oq(m, false); m.lit(x); cq(m); }
    m.lit(format!("<{}>", pr.q(8)?));
    sp(m);
    l(m, "while");
    }
    }
    sp(m);
    l(m, "]");
    }
    m.add_all(&s2.items);
    }
    m.add_all(&s1.items);
    tind(m);
    m.lit(pr.mc(9)?);
    sp(m);
    if pr.b(10)? {
    let mut s4 = MStream::<()>::default();
    {
    let m = &mut s4;
    pr.mark(11)?;
    m.lit(pr.n(12, 9)?.to_string());
    sp(m);
    if pr.rare(13)? { m.lit(pr.q(14)?); return Err(Left::Return); }
    }
    oq(m, false);
    m.add_all(&s4.items);
    cq(m);
    sp(m);
    l(m, "r#type");
    }
    let mut v6 = pr.q(15)?;
    { let x = pr.q(16)?; let y = pr.q(17)?; m.lit(x); m.lit(y); }
    tend(m);
    Ok(())
}
fn real_90<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(" lead")_y /* between */ _y$(if pr.b(1)? || !pr.b(2)? {
            $(for v1 in pr.it(3)?.filter(|_| pr.cb(4)) join ($(if pr.b(5)? { $(if pr.b(6)? { $(pr.multi(7)?) } else { x /* between */ ... _y })$(for v3 in pr.it(8)? { $(&pr.q(9)?) }) } else { foo $(pr.multi(10)?)$(for v5 in pr.it(11)? { while	a1       $(vec![pr.q(12)?, pr.q(13)?]) }) })  ) { $(let (v7, v8) = (pr.q(14)?, pr.n(15, 9)?))       $(format!("<{}>", pr.q(16)?))$(vec![pr.q(17)?, pr.q(18)?]) })$(" lead") {
            }
        })
    }
    Ok(())
}
fn model_90(m: &mut MV, pr: &Pr) -> Flow {
    l(m, " lead");
    l(m, "_y");
    sp(m);
    l(m, "_y");
    if pr.b(1)? || !pr.b(2)? {
    {
    let mut it2 = pr.it(3)?;
    let mut step = || -> Flow<Option<String>> { while let Some(x) = it2.step()? { if pr.mcb(4)? { return Ok(Some(x)); } } Ok(None) };
    let mut next = step()?;
    while let Some(v1) = next {
    {
    let (v7, v8) = (pr.q(14)?, pr.n(15, 9)?);
    sp(m);
    m.lit(format!("<{}>", pr.q(16)?));
    { let x = pr.q(17)?; let y = pr.q(18)?; m.lit(x); m.lit(y); }
    }
    next = step()?;
    if next.is_some() {
    {
    if pr.b(5)? {
    if pr.b(6)? {
    pr.mmulti(7, m)?;
    } else {
    l(m, "x");
    sp(m);
    l(m, "...");
    sp(m);
    l(m, "_y");
    }
    {
    let mut it4 = pr.it(8)?;
    let mut step = || -> Flow<Option<String>> { it4.step() };
    while let Some(v3) = step()? {
    m.lit(pr.q(9)?);
    }
    }
    } else {
    l(m, "foo");
    sp(m);
    pr.mmulti(10, m)?;
    {
    let mut it6 = pr.it(11)?;
    let mut step = || -> Flow<Option<String>> { it6.step() };
    while let Some(v5) = step()? {
    l(m, "while");
    sp(m);
    l(m, "a1");
    sp(m);
    { let x = pr.q(12)?; let y = pr.q(13)?; m.lit(x); m.lit(y); }
    }
    }
    }
    sp(m);
    }
    }
    }
    }
    l(m, " lead");
    sp(m);
    l(m, "{");
    tp(m);
    l(m, "}");
    }
    Ok(())
}
fn real_91<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(if pr.b(1)? || !pr.b(2)? {
            ($(for v1 in pr.it(3)? => $("ä")))$(pr.q(4)?.as_str())$(&quote!($(" lead")))$(ref o4 { if pr.rare(5)? { o4.append(pr.q(6)?); return Err(Left::Return); } })$[str](plain) [
            ]
        } else { (_y/**/'\\'$(Some(pr.q(7)?))) })
        a1 /* between */ $("ä") $(for (i7, v5) in pr.it(8)?.enumerate() join ( $(pr.n(9, 9)?)$({ if pr.b(10)? { "t" } else { "f" } })) => $(let v8 = pr.q(11)?)  $(if let Some(v9) = pr.opt(12)? { $(&pr.q(14)?) }))



        // between
                $(pr.q(15)?)
    }
    Ok(())
}
fn model_91(m: &mut MV, pr: &Pr) -> Flow {
    if pr.b(1)? || !pr.b(2)? {
    l(m, "(");
    {
    let mut it2 = pr.it(3)?;
    let mut step = || -> Flow<Option<String>> { it2.step() };
    while let Some(v1) = step()? {
    l(m, "ä");
    }
    }
    l(m, ")");
    m.lit(pr.q(4)?);
    let mut s3 = MStream::<()>::default();
    {
    let m = &mut s3;
    l(m, " lead");
    }
    m.add_all(&s3.items);
    if pr.rare(5)? { m.lit(pr.q(6)?); return Err(Left::Return); }
    qs(m, "plain");
    sp(m);
    l(m, "[");
    tp(m);
    l(m, "]");
    } else {
    l(m, "(");
    l(m, "_y");
    sp(m);
    l(m, "'\\\\'");
    m.lit(pr.q(7)?);
    l(m, ")");
    }
    tp(m);
    l(m, "a1");
    sp(m);
    l(m, "ä");
    sp(m);
    {
    let mut it6 = pr.it(8)?;
    let mut at = 0u64;
    let mut step = || -> Flow<Option<(u64, String)>> { let x = it6.step()?; at += 1; Ok(x.map(|x| (at - 1, x))) };
    let mut next = step()?;
    while let Some((i7, v5)) = next {
    {
    let v8 = pr.q(11)?;
    sp(m);
    if let Some(v9) = pr.opt(12)? {
    m.lit(pr.q(14)?);
    }
    }
    next = step()?;
    if next.is_some() {
    {
    sp(m);
    m.lit(pr.n(9, 9)?.to_string());
    l(m, if pr.b(10)? { "t" } else { "f" });
    }
    }
    }
    }
    tind(m);
    tln(m);
    m.lit(pr.q(15)?);
    tend(m);
    Ok(())
}
fn real_92<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(if let Some(v1) = pr.opt(1)? { bar/**/$(pr.multi(3)?)$$ })
        $(let mut v2 = pr.q(4)?)$(let (v3, v4) = (pr.q(5)?, pr.n(6, 9)?))  $(let mut v5 = pr.q(7)?)/**/foo
        $(if pr.b(8)? && pr.b(9)? => ($(ref o6 { o6.append(pr.q(10)?); o6.space(); o6.append(pr.q(11)?); }) while$("ver batim")$(ref _ => if pr.rare(12)? { return Err(Left::Return); })) $(&pr.q(13)?)$[str](one$name- one)) bar$(display(pr.n(14, 9)?))$(match pr.n(15, 9)? {
            v7 => $(let v8 = pr.q(16)?) $(Some(pr.q(17)?)) ($("ver batim"), $(pr.q(18)?.as_str()))
        })
        $[str](a b  c) .$(pr.q(19)?) {
        }
    }
    Ok(())
}
fn model_92(m: &mut MV, pr: &Pr) -> Flow {
    if let Some(v1) = pr.opt(1)? {
    l(m, "bar");
    sp(m);
    pr.mmulti(3, m)?;
    l(m, "$");
    }
    tp(m);
    let mut v2 = pr.q(4)?;
    let (v3, v4) = (pr.q(5)?, pr.n(6, 9)?);
    sp(m);
    let mut v5 = pr.q(7)?;
    sp(m);
    l(m, "foo");
    tp(m);
    if pr.b(8)? && pr.b(9)? {
    l(m, "(");
    m.lit(pr.q(10)?); sp(m); m.lit(pr.q(11)?);
    sp(m);
    l(m, "while");
    l(m, "ver batim");
    if pr.rare(12)? { return Err(Left::Return); }
    l(m, ")");
    sp(m);
    m.lit(pr.q(13)?);
    oq(m, true);
    l(m, "one");
    oe(m);
    l(m, "name");
    ce(m);
    l(m, "- one");
    cq(m);
    }
    sp(m);
    l(m, "bar");
    m.lit(pr.n(14, 9)?.to_string());
    match pr.n(15, 9)? {
    v7 => {
    let v8 = pr.q(16)?;
    sp(m);
    m.lit(pr.q(17)?);
    sp(m);
    l(m, "(");
    l(m, "ver batim");
    l(m, ",");
    sp(m);
    m.lit(pr.q(18)?);
    l(m, ")");
    }
    }
    tp(m);
    qs(m, "a b  c");
    sp(m);
    l(m, ".");
    m.lit(pr.q(19)?);
    sp(m);
    l(m, "{");
    tp(m);
    l(m, "}");
    Ok(())
}
fn real_93<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(for v1 in pr.opt(1)? {})	$['\r']/**/$(&pr.q(2)?) $(format!("<{}>", pr.q(3)?))/**/$(quote!($(for v4 in pr.it(4)? join ($(let v6 = pr.n(5, 9)?) $(ref o7 { if pr.rare(6)? { o7.append(pr.q(7)?); return Err(Left::Return); } })  ) { $({ if pr.b(8)? { "t" } else { "f" } })  $(quoted(quote!($(quote!($(pr.c(9))))  $(match pr.b(10)? { true | false => { $(pr.multi(11)?) /* between */ $(display(pr.n(12, 9)?)) } })_y))) }) $(for v11 in pr.it(13)? { 'a })))$[str](a b  c) $(quote!($[str](1 + 2)))
    }
    Ok(())
}
fn model_93(m: &mut MV, pr: &Pr) -> Flow {
    {
    let mut it2 = pr.opt(1)?.into_iter();
    let mut step = || -> Flow<Option<String>> { Ok(it2.next()) };
    while let Some(v1) = step()? {
    }
    }
    sp(m);
    p(m);
    sp(m);
    m.lit(pr.q(2)?);
    sp(m);
    m.lit(format!("<{}>", pr.q(3)?));
    sp(m);
    let mut s3 = MStream::<()>::default();
    {
    let m = &mut s3;
    {
    let mut it5 = pr.it(4)?;
    let mut step = || -> Flow<Option<String>> { it5.step() };
    let mut next = step()?;
    while let Some(v4) = next {
    {
    l(m, if pr.b(8)? { "t" } else { "f" });
    sp(m);
    let mut s8 = MStream::<()>::default();
    {
    let m = &mut s8;
    let mut s9 = MStream::<()>::default();
    {
    let m = &mut s9;
    m.lit(pr.mc(9)?);
    }
    m.add_all(&s9.items);
    sp(m);
    match pr.b(10)? {
    true | false => {
    pr.mmulti(11, m)?;
    sp(m);
    m.lit(pr.n(12, 9)?.to_string());
    }
    }
    l(m, "_y");
    }
    oq(m, false);
    m.add_all(&s8.items);
    cq(m);
    }
    next = step()?;
    if next.is_some() {
    {
    let v6 = pr.n(5, 9)?;
    sp(m);
    if pr.rare(6)? { m.lit(pr.q(7)?); return Err(Left::Return); }
    sp(m);
    }
    }
    }
    }
    sp(m);
    {
    let mut it12 = pr.it(13)?;
    let mut step = || -> Flow<Option<String>> { it12.step() };
    while let Some(v11) = step()? {
    l(m, "'a");
    }
    }
    }
    m.add_all(&s3.items);
    qs(m, "a b  c");
    sp(m);
    let mut s13 = MStream::<()>::default();
    {
    let m = &mut s13;
    qs(m, "1 + 2");
    }
    m.add_all(&s13.items);
    Ok(())
}
fn real_94<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(pr.c(1))
        $(ref _ => if pr.rare(2)? { return Err(Left::Return); })
        $(match pr.opt(3)? { Some(v2) => foo$(ref o3 { if pr.rare(4)? { o3.append(pr.q(5)?); return Err(Left::Return); } })       || [ $(for (i6, v4) in pr.it(6)?.enumerate() => $(let v7 = pr.n(7, 9)?)"q\"uote") [], "two words",], _ => { $(pr.q(8)?) } })/**/$(let v8 = pr.n(9, 9)?)_y  $(for _ in pr.it(10)? join (, ) {})$(for (i15, v13) in pr.it(15)?.enumerate() join ( /* between */ $(for v16 in pr.it(16)? join ($(ref o18 { o18.append(pr.q(17)?); o18.space(); o18.append(pr.q(18)?); })$(pr.opt(19)?)) => $(for v19 in 0..pr.n(20, 4)? join ( $(ref o21 => quote_in!(*o21 => "q\"uote"))$(" lead") ) { $(let v22 = pr.n(22, 9)?) })"lit"$(let v23 = pr.q(23)?)) /* between */ ) { $[str](plain) x /* between */ $(let (v24, v25) = (pr.q(24)?, pr.n(25, 9)?)) })$(ref o26 { if pr.rare(26)? { o26.append(pr.q(27)?); return Err(Left::Return); } })
            $(let v27 = pr.q(28)?)$[str](1 + 2)/**/[


            ]
    }
    Ok(())
}
fn model_94(m: &mut MV, pr: &Pr) -> Flow {
    m.lit(pr.mc(1)?);
    tp(m);
    if pr.rare(2)? { return Err(Left::Return); }
    tp(m);
    match pr.opt(3)? {
    Some(v2) => {
    l(m, "foo");
    if pr.rare(4)? { m.lit(pr.q(5)?); return Err(Left::Return); }
    sp(m);
    l(m, "||");
    sp(m);
    l(m, "[");
    sp(m);
    {
    let mut it5 = pr.it(6)?;
    let mut at = 0u64;
    let mut step = || -> Flow<Option<(u64, String)>> { let x = it5.step()?; at += 1; Ok(x.map(|x| (at - 1, x))) };
    while let Some((i6, v4)) = step()? {
    let v7 = pr.n(7, 9)?;
    qs(m, "q\"uote");
    }
    }
    sp(m);
    l(m, "[]");
    l(m, ",");
    sp(m);
    qs(m, "two words");
    l(m, ",");
    l(m, "]");
    }
    _ => {
    m.lit(pr.q(8)?);
    }
    }
    sp(m);
    let v8 = pr.n(9, 9)?;
    l(m, "_y");
    sp(m);
    {
    let mut it10 = pr.it(10)?;
    let mut step = || -> Flow<Option<String>> { it10.step() };
    let mut next = step()?;
    while let Some(_) = next {
    {
    }
    next = step()?;
    if next.is_some() {
    {
    l(m, ",");
    sp(m);
    }
    }
    }
    }
    {
    let mut it14 = pr.it(15)?;
    let mut at = 0u64;
    let mut step = || -> Flow<Option<(u64, String)>> { let x = it14.step()?; at += 1; Ok(x.map(|x| (at - 1, x))) };
    let mut next = step()?;
    while let Some((i15, v13)) = next {
    {
    qs(m, "plain");
    sp(m);
    l(m, "x");
    sp(m);
    let (v24, v25) = (pr.q(24)?, pr.n(25, 9)?);
    }
    next = step()?;
    if next.is_some() {
    {
    sp(m);
    {
    let mut it17 = pr.it(16)?;
    let mut step = || -> Flow<Option<String>> { it17.step() };
    let mut next = step()?;
    while let Some(v16) = next {
    {
    {
    let mut it20 = 0..pr.n(20, 4)?;
    let mut step = || -> Flow<Option<u64>> { Ok(it20.next()) };
    let mut next = step()?;
    while let Some(v19) = next {
    {
    let v22 = pr.n(22, 9)?;
    }
    next = step()?;
    if next.is_some() {
    {
    sp(m);
    {
    qs(m, "q\"uote");
    }
    l(m, " lead");
    sp(m);
    }
    }
    }
    }
    qs(m, "lit");
    let v23 = pr.q(23)?;
    }
    next = step()?;
    if next.is_some() {
    {
    m.lit(pr.q(17)?); sp(m); m.lit(pr.q(18)?);
    if let Some(x) = pr.opt(19)? { m.lit(x); }
    }
    }
    }
    }
    sp(m);
    }
    }
    }
    }
    if pr.rare(26)? { m.lit(pr.q(27)?); return Err(Left::Return); }
    tind(m);
    let v27 = pr.q(28)?;
    qs(m, "1 + 2");
    sp(m);
    l(m, "[");
    tln(m);
    l(m, "]");
    tend(m);
    Ok(())
}
fn real_95<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(ref o1 { if pr.rare(1)? { o1.append(pr.q(2)?); return Err(Left::Return); } }) $(if pr.b(3)? {})

        $(quote!($(quoted(quote!($(for (i6, v4) in pr.it(4)?.enumerate() join ($(match (pr.b(5)?, pr.n(6, 3)?) { (true, 0) => { bar$(display(pr.n(7, 9)?))$$ } (_, 1) | (true, _) => _y	a1, (..) => ("lit" ) })$(for v8 in pr.it(8)?.filter(|_| pr.cb(9)) => $(from_fn(|t| { t.append(pr.c(10)); t.space(); t.append(pr.c(11)); }))$(pr.opt(12)?)Self)  ) => $(match pr.q(13)? { v10 => while/**/$(&pr.q(14)?) bar, }) $(ref _ => if pr.b(15)? { pr.mark(16)?; })) $(let v11 = pr.q(17)?)       $(ref o12 { o12.append(pr.q(18)?); o12.space(); o12.append(pr.q(19)?); }))))bar)) $(if pr.n(20, 3)? == 1 => {})$(ref o13 { o13.append(pr.q(21)?); o13.space(); o13.append(pr.q(22)?); })$(Some(pr.q(23)?))$(let v14 = pr.q(24)?)
    }
    Ok(())
}
fn model_95(m: &mut MV, pr: &Pr) -> Flow {
    if pr.rare(1)? { m.lit(pr.q(2)?); return Err(Left::Return); }
    sp(m);
    if pr.b(3)? {
    }
    tln(m);
    let mut s2 = MStream::<()>::default();
    {
    let m = &mut s2;
    let mut s3 = MStream::<()>::default();
    {
    let m = &mut s3;
    {
    let mut it5 = pr.it(4)?;
    let mut at = 0u64;
    let mut step = || -> Flow<Option<(u64, String)>> { let x = it5.step()?; at += 1; Ok(x.map(|x| (at - 1, x))) };
    let mut next = step()?;
    while let Some((i6, v4)) = next {
    {
    match pr.q(13)? {
    v10 => {
    l(m, "while");
    sp(m);
    m.lit(pr.q(14)?);
    sp(m);
    l(m, "bar");
    }
    }
    sp(m);
    if pr.b(15)? { pr.mark(16)?; }
    }
    next = step()?;
    if next.is_some() {
    {
    match (pr.b(5)?, pr.n(6, 3)?) {
    (true, 0) => {
    l(m, "bar");
    m.lit(pr.n(7, 9)?.to_string());
    l(m, "$");
    }
    (_, 1) | (true, _) => {
    l(m, "_y");
    sp(m);
    l(m, "a1");
    }
    (..) => {
    qs(m, "lit");
    sp(m);
    }
    }
    {
    let mut it9 = pr.it(8)?;
    let mut step = || -> Flow<Option<String>> { while let Some(x) = it9.step()? { if pr.mcb(9)? { return Ok(Some(x)); } } Ok(None) };
    while let Some(v8) = step()? {
    m.lit(pr.mc(10)?); sp(m); m.lit(pr.mc(11)?);
    if let Some(x) = pr.opt(12)? { m.lit(x); }
    l(m, "Self");
    }
    }
    sp(m);
    }
    }
    }
    }
    sp(m);
    let v11 = pr.q(17)?;
    sp(m);
    m.lit(pr.q(18)?); sp(m); m.lit(pr.q(19)?);
    }
    oq(m, false);
    m.add_all(&s3.items);
    cq(m);
    l(m, "bar");
    }
    m.add_all(&s2.items);
    sp(m);
    if pr.n(20, 3)? == 1 {
    l(m, "{}");
    }
    m.lit(pr.q(21)?); sp(m); m.lit(pr.q(22)?);
    m.lit(pr.q(23)?);
    let v14 = pr.q(24)?;
    Ok(())
}
fn real_96<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $("ver batim")$(pr.q(1)?)$[str](1 + 2) $("ä")
        bar Self$(pr.multi(2)?);
        $(ref _ => if pr.b(3)? { pr.mark(4)?; })$(let v1 = pr.n(5, 9)?) [ $(for (i4, v2) in pr.it(6)?.enumerate() join ($(pr.c(7))$(let (v5, v6) = (pr.q(8)?, pr.n(9, 9)?))/**/) =>
            $("ver batim")	while
            
            $(quote! {
                $(for _ in pr.it(10)? {
                    a1
                    $({ if pr.b(11)? { "t" } else { "f" } })while$(pr.c(12)) /* between */ $(display(pr.n(13, 9)?))
                    _y  $(pr.multi(14)?)
                })=$(i4)
                
                "q\"uote"
            })$(pr.q(15)?) /* between */ $(pr.c(16))
            // between
            $(ref o10 { o10.append(pr.q(17)?); o10.space(); o10.append(pr.q(18)?); })	$v2	$(i4)$({ if pr.b(19)? { "t" } else { "f" } })
            { Self $[str](a b  c)       $(pr.q(20)?)$(for v11 in 0..pr.n(21, 4)? join (bar ) => $(pr.multi(22)?) $$)} $(" lead")$(ref _ { pr.mark(23)?; })/**/$(if let (Some(v13), _) = (pr.opt(24)?, pr.b(25)?) {
                $(ref o14 { if pr.rare(26)? { o14.append(pr.q(27)?); break; } })
            } else {
                $(if pr.n(28, 3)? == 1 =>
                    $(from_fn(|t| { t.append(pr.c(29)); t.space(); t.append(pr.c(30)); })) _y$(display(pr.n(31, 9)?))	$(pr.q(32)?))(foo||)
            }))	$(v1)] "two words"

        $v1$(quoted(pr.q(33)?))  $(ref o15 { o15.append(pr.q(34)?); o15.space(); o15.append(pr.q(35)?); })
    }
    Ok(())
}
fn model_96(m: &mut MV, pr: &Pr) -> Flow {
    l(m, "ver batim");
    m.lit(pr.q(1)?);
    qs(m, "1 + 2");
    sp(m);
    l(m, "ä");
    tp(m);
    l(m, "bar");
    sp(m);
    l(m, "Self");
    pr.mmulti(2, m)?;
    l(m, ";");
    tp(m);
    if pr.b(3)? { pr.mark(4)?; }
    let v1 = pr.n(5, 9)?;
    sp(m);
    l(m, "[");
    sp(m);
    {
    let mut it3 = pr.it(6)?;
    let mut at = 0u64;
    let mut step = || -> Flow<Option<(u64, String)>> { let x = it3.step()?; at += 1; Ok(x.map(|x| (at - 1, x))) };
    let mut next = step()?;
    while let Some((i4, v2)) = next {
    {
    l(m, "ver batim");
    sp(m);
    l(m, "while");
    tln(m);
    let mut s7 = MStream::<()>::default();
    {
    let m = &mut s7;
    {
    let mut it9 = pr.it(10)?;
    let mut step = || -> Flow<Option<String>> { it9.step() };
    while let Some(_) = step()? {
    l(m, "a1");
    tp(m);
    l(m, if pr.b(11)? { "t" } else { "f" });
    l(m, "while");
    m.lit(pr.mc(12)?);
    sp(m);
    m.lit(pr.n(13, 9)?.to_string());
    tp(m);
    l(m, "_y");
    sp(m);
    pr.mmulti(14, m)?;
    }
    }
    l(m, "=");
    m.lit(i4.to_string());
    tln(m);
    qs(m, "q\"uote");
    }
    m.add_all(&s7.items);
    m.lit(pr.q(15)?);
    sp(m);
    m.lit(pr.mc(16)?);
    tln(m);
    m.lit(pr.q(17)?); sp(m); m.lit(pr.q(18)?);
    sp(m);
    m.lit(v2);
    sp(m);
    m.lit(i4.to_string());
    l(m, if pr.b(19)? { "t" } else { "f" });
    tp(m);
    l(m, "{");
    sp(m);
    l(m, "Self");
    sp(m);
    qs(m, "a b  c");
    sp(m);
    m.lit(pr.q(20)?);
    {
    let mut it12 = 0..pr.n(21, 4)?;
    let mut step = || -> Flow<Option<u64>> { Ok(it12.next()) };
    let mut next = step()?;
    while let Some(v11) = next {
    {
    pr.mmulti(22, m)?;
    sp(m);
    l(m, "$");
    }
    next = step()?;
    if next.is_some() {
    {
    l(m, "bar");
    sp(m);
    }
    }
    }
    }
    l(m, "}");
    sp(m);
    l(m, " lead");
    pr.mark(23)?;
    sp(m);
    if let (Some(v13), _) = (pr.opt(24)?, pr.b(25)?) {
    if pr.rare(26)? { m.lit(pr.q(27)?); break; }
    } else {
    if pr.n(28, 3)? == 1 {
    m.lit(pr.mc(29)?); sp(m); m.lit(pr.mc(30)?);
    sp(m);
    l(m, "_y");
    m.lit(pr.n(31, 9)?.to_string());
    sp(m);
    m.lit(pr.q(32)?);
    }
    l(m, "(");
    l(m, "foo");
    l(m, "||");
    l(m, ")");
    }
    }
    next = step()?;
    if next.is_some() {
    {
    m.lit(pr.mc(7)?);
    let (v5, v6) = (pr.q(8)?, pr.n(9, 9)?);
    sp(m);
    }
    }
    }
    }
    sp(m);
    m.lit(v1.to_string());
    l(m, "]");
    sp(m);
    qs(m, "two words");
    tln(m);
    m.lit(v1.to_string());
    { let x = pr.q(33)?; oq(m, false); m.lit(x); cq(m); }
    sp(m);
    m.lit(pr.q(34)?); sp(m); m.lit(pr.q(35)?);
    Ok(())
}
fn real_97<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(ref o1 => quote_in!(*o1 => $(if let (Some(v2), _) = (pr.opt(2)?, pr.b(3)?) { $[str](plain) /* between */ $(quoted(pr.q(4)?))  x })/**/$[str](plain)))       $(match (pr.b(5)?, pr.q(6)?) {
            (_, v3) => $(if let Some(v4) = pr.opt(7)? { $(pr.q(9)?)/**/$(from_fn(|t| { t.append(pr.c(10)); t.space(); t.append(pr.c(11)); })) } else { $(match pr.opt(12)? { _ if pr.b(13)? => { ( Self$({ if pr.b(14)? { "t" } else { "f" } })/**/)	$(let v7 = pr.q(15)?)$(if pr.b(16)? || !pr.b(17)? => ?/**/$$) } Some(v6) => $[str]($[const](pr.q(18)?)one) []a1 {$(pr.q(19)?) $$, $(pr.multi(20)?)/**/$(&pr.q(21)?)       }, _ => $(for _ in pr.it(22)? join ($(pr.n(23, 9)?)/**/) { foo $(pr.multi(24)?) }) $[str]($[const](pr.q(25)?)) $[str](plain) }) "two words"$[str]($[const](pr.q(26)?)$($(v3.clone())a1)$name-$[const]("con st")) }) [7$(pr.q(27)?.as_str()), $(ref _ => if pr.b(28)? { pr.mark(29)?; })$(Some(pr.q(30)?))]
        })
    }
    Ok(())
}
fn model_97(m: &mut MV, pr: &Pr) -> Flow {
    {
    if let (Some(v2), _) = (pr.opt(2)?, pr.b(3)?) {
    qs(m, "plain");
    sp(m);
    { let x = pr.q(4)?; oq(m, false); m.lit(x); cq(m); }
    sp(m);
    l(m, "x");
    }
    sp(m);
    qs(m, "plain");
    }
    sp(m);
    match (pr.b(5)?, pr.q(6)?) {
    (_, v3) => {
    if let Some(v4) = pr.opt(7)? {
    m.lit(pr.q(9)?);
    sp(m);
    m.lit(pr.mc(10)?); sp(m); m.lit(pr.mc(11)?);
    } else {
    match pr.opt(12)? {
    _ if pr.b(13)? => {
    l(m, "(");
    sp(m);
    l(m, "Self");
    l(m, if pr.b(14)? { "t" } else { "f" });
    sp(m);
    l(m, ")");
    sp(m);
    let v7 = pr.q(15)?;
    if pr.b(16)? || !pr.b(17)? {
    l(m, "?");
    sp(m);
    l(m, "$");
    }
    }
    Some(v6) => {
    oq(m, false);
    m.lit(pr.q(18)?);
    l(m, "one");
    cq(m);
    sp(m);
    l(m, "[]");
    l(m, "a1");
    sp(m);
    l(m, "{");
    m.lit(pr.q(19)?);
    sp(m);
    l(m, "$");
    l(m, ",");
    sp(m);
    pr.mmulti(20, m)?;
    sp(m);
    m.lit(pr.q(21)?);
    sp(m);
    l(m, "}");
    }
    _ => {
    {
    let mut it9 = pr.it(22)?;
    let mut step = || -> Flow<Option<String>> { it9.step() };
    let mut next = step()?;
    while let Some(_) = next {
    {
    l(m, "foo");
    sp(m);
    pr.mmulti(24, m)?;
    }
    next = step()?;
    if next.is_some() {
    {
    m.lit(pr.n(23, 9)?.to_string());
    sp(m);
    }
    }
    }
    }
    sp(m);
    oq(m, false);
    m.lit(pr.q(25)?);
    cq(m);
    sp(m);
    qs(m, "plain");
    }
    }
    sp(m);
    qs(m, "two words");
    oq(m, true);
    m.lit(pr.q(26)?);
    oe(m);
    {
    m.lit(v3.clone());
    l(m, "a1");
    }
    ce(m);
    oe(m);
    l(m, "name");
    ce(m);
    l(m, "-con st");
    cq(m);
    }
    sp(m);
    l(m, "[");
    l(m, "7");
    m.lit(pr.q(27)?);
    l(m, ",");
    sp(m);
    if pr.b(28)? { pr.mark(29)?; }
    m.lit(pr.q(30)?);
    l(m, "]");
    }
    }
    Ok(())
}
fn real_98<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(&quote! {
            $(match pr.n(1, 3)? {
                _ if pr.b(2)? => x $(if pr.n(3, 3)? == 1 { $(format!("<{}>", pr.q(4)?)) $(pr.c(5)) } else {}) {$(pr.q(6)?.as_str()), $(pr.q(7)?) Self},
                _ => {
                    $(display(pr.n(8, 9)?))
                },
            })$[str](a b  c)
        })$(match pr.b(9)? { true | false => $(let v3 = pr.q(10)?)$(" lead") {$(ref o4 { if pr.b(11)? { quote_in!(*o4 => $(ref o5 { if pr.b(12)? { quote_in!(*o5 => $(pr.q(13)?)bar$(quoted(pr.q(14)?))); } o5.push(); })$(ref o6 { o6.append(pr.q(15)?); o6.space(); o6.append(pr.q(16)?); })); } o4.push(); }), $(quote!(Self))} })
    }
    Ok(())
}
fn model_98(m: &mut MV, pr: &Pr) -> Flow {
    let mut s1 = MStream::<()>::default();
    {
    let m = &mut s1;
    match pr.n(1, 3)? {
    _ if pr.b(2)? => {
    l(m, "x");
    sp(m);
    if pr.n(3, 3)? == 1 {
    m.lit(format!("<{}>", pr.q(4)?));
    sp(m);
    m.lit(pr.mc(5)?);
    } else {
    }
    sp(m);
    l(m, "{");
    m.lit(pr.q(6)?);
    l(m, ",");
    sp(m);
    m.lit(pr.q(7)?);
    sp(m);
    l(m, "Self");
    l(m, "}");
    }
    _ => {
    m.lit(pr.n(8, 9)?.to_string());
    }
    }
    qs(m, "a b  c");
    }
    m.add_all(&s1.items);
    match pr.b(9)? {
    true | false => {
    let v3 = pr.q(10)?;
    l(m, " lead");
    sp(m);
    l(m, "{");
    if pr.b(11)? {
    if pr.b(12)? {
    m.lit(pr.q(13)?);
    l(m, "bar");
    { let x = pr.q(14)?; oq(m, false); m.lit(x); cq(m); }
    }
    p(m);
    m.lit(pr.q(15)?); sp(m); m.lit(pr.q(16)?);
    }
    p(m);
    l(m, ",");
    sp(m);
    let mut s7 = MStream::<()>::default();
    {
    let m = &mut s7;
    l(m, "Self");
    }
    m.add_all(&s7.items);
    l(m, "}");
    }
    }
    Ok(())
}
fn real_99<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(for _ in pr.it(1)? { nameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameame$(ref o3 { if pr.rare(2)? { o3.append(pr.q(3)?); return Err(Left::Return); } }) })x /* between */ $(ref o4 => quote_in!(*o4 => {$(let v5 = pr.q(5)?)};)){Self ($(&pr.q(11)?) [$(from_fn(|t| { t.append(pr.c(9)); t.space(); t.append(pr.c(10)); })) ($(pr.q(7)?) ($$ [$(pr.q(6)?) $$ $$] $$) $(pr.q(8)?)) while] $(pr.q(12)?)) $$}
        $(display(pr.n(13, 9)?))$(let v6 = pr.q(14)?)while
    }
    Ok(())
}
fn model_99(m: &mut MV, pr: &Pr) -> Flow {
    {
    let mut it2 = pr.it(1)?;
    let mut step = || -> Flow<Option<String>> { it2.step() };
    while let Some(_) = step()? {
    l(m, "nameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameame");
    if pr.rare(2)? { m.lit(pr.q(3)?); return Err(Left::Return); }
    }
    }
    l(m, "x");
    sp(m);
    {
    l(m, "{");
    let v5 = pr.q(5)?;
    l(m, "}");
    l(m, ";");
    }
    l(m, "{");
    l(m, "Self");
    sp(m);
    l(m, "(");
    m.lit(pr.q(11)?);
    sp(m);
    l(m, "[");
    m.lit(pr.mc(9)?); sp(m); m.lit(pr.mc(10)?);
    sp(m);
    l(m, "(");
    m.lit(pr.q(7)?);
    sp(m);
    l(m, "(");
    l(m, "$");
    sp(m);
    l(m, "[");
    m.lit(pr.q(6)?);
    sp(m);
    l(m, "$");
    sp(m);
    l(m, "$");
    l(m, "]");
    sp(m);
    l(m, "$");
    l(m, ")");
    sp(m);
    m.lit(pr.q(8)?);
    l(m, ")");
    sp(m);
    l(m, "while");
    l(m, "]");
    sp(m);
    m.lit(pr.q(12)?);
    l(m, ")");
    sp(m);
    l(m, "$");
    l(m, "}");
    tp(m);
    m.lit(pr.n(13, 9)?.to_string());
    let v6 = pr.q(14)?;
    l(m, "while");
    Ok(())
}
fn real_100<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(let (v1, v2) = (pr.q(1)?, pr.n(2, 9)?))/**/$(for v3 in pr.it(3)? join ( $(ref _ => if pr.rare(4)? { return Err(Left::Return); })) => $(ref o5 { o5.append(pr.q(5)?); o5.space(); o5.append(pr.q(6)?); })$("ver batim")$(ref o6 { if pr.rare(7)? { o6.append(pr.q(8)?); break; } }))$(quote!($(if pr.b(9)? && pr.b(10)? => {$(ref _ { pr.mark(11)?; }),$(if pr.b(12)? { $(pr.q(13)?) '\\'  _y })  } /* between */ $(for v8 in 0..pr.n(14, 4)? => "lit"/**/{,       while} $(quote!(=>/**/x$(pr.q(15)?))))/**/a1)  $(quoted(pr.q(16)?)))) $(pr.n(17, 9)?)
        $(v1.clone())$(quoted(quote!($(v2))))while$(match pr.q(18)? { v12 => $(match pr.b(19)? { true | false => { ;$(if let Some(v14) = pr.opt(20)? { $(quoted(quote!($(pr.multi(22)?)$(display(pr.n(23, 9)?)))))"two words"($(format!("<{}>", pr.q(24)?))) }) }, }) })
    }
    Ok(())
}
fn model_100(m: &mut MV, pr: &Pr) -> Flow {
    let (v1, v2) = (pr.q(1)?, pr.n(2, 9)?);
    sp(m);
    {
    let mut it4 = pr.it(3)?;
    let mut step = || -> Flow<Option<String>> { it4.step() };
    let mut next = step()?;
    while let Some(v3) = next {
    {
    m.lit(pr.q(5)?); sp(m); m.lit(pr.q(6)?);
    l(m, "ver batim");
    if pr.rare(7)? { m.lit(pr.q(8)?); break; }
    }
    next = step()?;
    if next.is_some() {
    {
    sp(m);
    if pr.rare(4)? { return Err(Left::Return); }
    }
    }
    }
    }
    let mut s7 = MStream::<()>::default();
    {
    let m = &mut s7;
    if pr.b(9)? && pr.b(10)? {
    l(m, "{");
    pr.mark(11)?;
    l(m, ",");
    if pr.b(12)? {
    m.lit(pr.q(13)?);
    sp(m);
    l(m, "'\\\\'");
    sp(m);
    l(m, "_y");
    }
    sp(m);
    l(m, "}");
    sp(m);
    {
    let mut it9 = 0..pr.n(14, 4)?;
    let mut step = || -> Flow<Option<u64>> { Ok(it9.next()) };
    while let Some(v8) = step()? {
    qs(m, "lit");
    sp(m);
    l(m, "{");
    l(m, ",");
    sp(m);
    l(m, "while");
    l(m, "}");
    sp(m);
    let mut s10 = MStream::<()>::default();
    {
    let m = &mut s10;
    l(m, "=>");
    sp(m);
    l(m, "x");
    m.lit(pr.q(15)?);
    }
    m.add_all(&s10.items);
    }
    }
    sp(m);
    l(m, "a1");
    }
    sp(m);
    { let x = pr.q(16)?; oq(m, false); m.lit(x); cq(m); }
    }
    m.add_all(&s7.items);
    sp(m);
    m.lit(pr.n(17, 9)?.to_string());
    tp(m);
    m.lit(v1.clone());
    let mut s11 = MStream::<()>::default();
    {
    let m = &mut s11;
    m.lit(v2.to_string());
    }
    oq(m, false);
    m.add_all(&s11.items);
    cq(m);
    l(m, "while");
    match pr.q(18)? {
    v12 => {
    match pr.b(19)? {
    true | false => {
    l(m, ";");
    if let Some(v14) = pr.opt(20)? {
    let mut s15 = MStream::<()>::default();
    {
    let m = &mut s15;
    pr.mmulti(22, m)?;
    m.lit(pr.n(23, 9)?.to_string());
    }
    oq(m, false);
    m.add_all(&s15.items);
    cq(m);
    qs(m, "two words");
    l(m, "(");
    m.lit(format!("<{}>", pr.q(24)?));
    l(m, ")");
    }
    }
    }
    }
    }
    Ok(())
}
fn real_101<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(if pr.b(1)? => $(display(pr.n(2, 9)?))$(from_fn(|t| { t.append(pr.c(3)); t.space(); t.append(pr.c(4)); }))) $(if pr.b(5)? && pr.b(6)? { $(ref o1 => quote_in!(*o1 => $(let mut v2 = pr.q(8)?))) $(ref _ => if pr.rare(9)? { return Err(Left::Return); }) })$(format!("<{}>", pr.q(10)?))
    }
    Ok(())
}
fn model_101(m: &mut MV, pr: &Pr) -> Flow {
    if pr.b(1)? {
    m.lit(pr.n(2, 9)?.to_string());
    m.lit(pr.mc(3)?); sp(m); m.lit(pr.mc(4)?);
    }
    sp(m);
    if pr.b(5)? && pr.b(6)? {
    {
    let mut v2 = pr.q(8)?;
    }
    sp(m);
    if pr.rare(9)? { return Err(Left::Return); }
    }
    m.lit(format!("<{}>", pr.q(10)?));
    Ok(())
}
fn real_102<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        []$(if pr.b(1)? && pr.b(2)? { $(pr.q(3)?.as_str())$(pr.q(4)?.as_str()) } else { $(format!("<{}>", pr.q(5)?)) })?$(quoted(quote!($(ref o2 { if pr.b(6)? { quote_in!(*o2 => $(ref _ { pr.mark(7)?; })$[str](1 + 2)$(pr.q(8)?)); } o2.push(); }))))  {
        }
    }
    Ok(())
}
fn model_102(m: &mut MV, pr: &Pr) -> Flow {
    l(m, "[]");
    if pr.b(1)? && pr.b(2)? {
    m.lit(pr.q(3)?);
    m.lit(pr.q(4)?);
    } else {
    m.lit(format!("<{}>", pr.q(5)?));
    }
    l(m, "?");
    let mut s1 = MStream::<()>::default();
    {
    let m = &mut s1;
    if pr.b(6)? {
    pr.mark(7)?;
    qs(m, "1 + 2");
    m.lit(pr.q(8)?);
    }
    p(m);
    }
    oq(m, false);
    m.add_all(&s1.items);
    cq(m);
    sp(m);
    l(m, "{");
    tp(m);
    l(m, "}");
    Ok(())
}
fn real_103<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(if pr.b(1)? { $(let (v1, v2) = (pr.q(2)?, pr.n(3, 9)?)) }) /* between */ $("ä")	{}$({ if pr.b(4)? { "t" } else { "f" } })$(pr.opt(5)?) $(ref _ { pr.mark(6)?; })$(if let (Some(v3), _) = (pr.opt(7)?, pr.b(8)?) { foo $({ pr.mark(9)?; "blk" })  . }) $(ref _ => if pr.rare(10)? { return Err(Left::Return); }) (

            $(ref o4 => quote_in!(*o4 => $(for v5 in pr.it(12)? join ($(pr.q(13)?.as_str())) { $(&quote!($(from_fn(|t| { t.append(pr.c(14)); t.space(); t.append(pr.c(15)); })))) })/**/$(for v8 in pr.opt(16)? join ( $$  $(if let Some(v10) = pr.opt(17)? { "two words" 1.5 $(if pr.b(19)? { $(&pr.q(20)?) }) })) => $(let (v11, v12) = (pr.q(21)?, pr.n(22, 9)?))  +)$(pr.c(23))))$(if let Some(v13) = pr.opt(24)? =>
                $(ref _ => if pr.b(26)? { pr.mark(27)?; }))  ,
        )
    }
    Ok(())
}
fn model_103(m: &mut MV, pr: &Pr) -> Flow {
    if pr.b(1)? {
    let (v1, v2) = (pr.q(2)?, pr.n(3, 9)?);
    }
    sp(m);
    l(m, "ä");
    sp(m);
    l(m, "{}");
    l(m, if pr.b(4)? { "t" } else { "f" });
    if let Some(x) = pr.opt(5)? { m.lit(x); }
    sp(m);
    pr.mark(6)?;
    if let (Some(v3), _) = (pr.opt(7)?, pr.b(8)?) {
    l(m, "foo");
    sp(m);
    pr.mark(9)?; l(m, "blk");
    sp(m);
    l(m, ".");
    }
    sp(m);
    if pr.rare(10)? { return Err(Left::Return); }
    sp(m);
    l(m, "(");
    tind(m);
    tln(m);
    {
    {
    let mut it6 = pr.it(12)?;
    let mut step = || -> Flow<Option<String>> { it6.step() };
    let mut next = step()?;
    while let Some(v5) = next {
    {
    let mut s7 = MStream::<()>::default();
    {
    let m = &mut s7;
    m.lit(pr.mc(14)?); sp(m); m.lit(pr.mc(15)?);
    }
    m.add_all(&s7.items);
    }
    next = step()?;
    if next.is_some() {
    {
    m.lit(pr.q(13)?);
    }
    }
    }
    }
    sp(m);
    {
    let mut it9 = pr.opt(16)?.into_iter();
    let mut step = || -> Flow<Option<String>> { Ok(it9.next()) };
    let mut next = step()?;
    while let Some(v8) = next {
    {
    let (v11, v12) = (pr.q(21)?, pr.n(22, 9)?);
    sp(m);
    l(m, "+");
    }
    next = step()?;
    if next.is_some() {
    {
    sp(m);
    l(m, "$");
    sp(m);
    if let Some(v10) = pr.opt(17)? {
    qs(m, "two words");
    sp(m);
    l(m, "1.5");
    sp(m);
    if pr.b(19)? {
    m.lit(pr.q(20)?);
    }
    }
    }
    }
    }
    }
    m.lit(pr.mc(23)?);
    }
    if let Some(v13) = pr.opt(24)? {
    if pr.b(26)? { pr.mark(27)?; }
    }
    sp(m);
    l(m, ",");
    tun(m);
    l(m, ")");
    Ok(())
}
fn real_104<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        ...1_000u64
        // between

          $(match pr.n(1, 3)? {
              0..=1 => { $(for v2 in pr.opt(2)? join (, ) {
                  $(pr.multi(5)?) /* between */ $(vec![pr.q(6)?, pr.q(7)?])$(if pr.b(8)? && pr.b(9)? => $(ref o4 { if pr.rare(10)? { o4.append(pr.q(11)?); break; } })...)
              }) },
              1..=2 => { . $(from_fn(|t| { t.append(pr.c(12)); t.space(); t.append(pr.c(13)); }))$[str]($[const](pr.q(14)?)$[const]("con st")$($(ref o5 { if pr.rare(15)? { o5.append(pr.q(16)?); return Err(Left::Return); } }))) },
              v1 => (       $(for v6 in 0..pr.n(17, 4)? { $(if pr.b(18)? || !pr.b(19)? { $(ref _ { pr.mark(20)?; }) }) }) /* between */ ),
          }) [
          ]
    }
    Ok(())
}
fn model_104(m: &mut MV, pr: &Pr) -> Flow {
    l(m, "...");
    l(m, "1_000u64");
    tind(m);
    tln(m);
    match pr.n(1, 3)? {
    0..=1 => {
    {
    let mut it3 = pr.opt(2)?.into_iter();
    let mut step = || -> Flow<Option<String>> { Ok(it3.next()) };
    let mut next = step()?;
    while let Some(v2) = next {
    {
    pr.mmulti(5, m)?;
    sp(m);
    { let x = pr.q(6)?; let y = pr.q(7)?; m.lit(x); m.lit(y); }
    if pr.b(8)? && pr.b(9)? {
    if pr.rare(10)? { m.lit(pr.q(11)?); break; }
    l(m, "...");
    }
    }
    next = step()?;
    if next.is_some() {
    {
    l(m, ",");
    sp(m);
    }
    }
    }
    }
    }
    1..=2 => {
    l(m, ".");
    sp(m);
    m.lit(pr.mc(12)?); sp(m); m.lit(pr.mc(13)?);
    oq(m, true);
    m.lit(pr.q(14)?);
    l(m, "con st");
    oe(m);
    {
    if pr.rare(15)? { m.lit(pr.q(16)?); return Err(Left::Return); }
    }
    ce(m);
    cq(m);
    }
    v1 => {
    sp(m);
    {
    let mut it7 = 0..pr.n(17, 4)?;
    let mut step = || -> Flow<Option<u64>> { Ok(it7.next()) };
    while let Some(v6) = step()? {
    if pr.b(18)? || !pr.b(19)? {
    pr.mark(20)?;
    }
    }
    }
    sp(m);
    }
    }
    sp(m);
    l(m, "[");
    tp(m);
    l(m, "]");
    tend(m);
    Ok(())
}
fn real_105<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(pr.q(1)?.as_str())$(pr.opt(2)?) $(pr.q(3)?) $(quote!($(quote!($(format!("<{}>", pr.q(4)?))))+{$(match (pr.b(5)?, pr.n(6, 3)?) { (true, 0) => { $(&pr.q(7)?) } _ => ( $(match pr.n(8, 9)? { v4 => ($(Some(pr.q(9)?))       7 =/**/) }) $(match (pr.b(10)?, pr.n(11, 3)?) { (true, 0) => { $(from_fn(|t| { t.append(pr.c(13)); t.space(); t.append(pr.c(14)); }))/**/& + }, (false, v5) if v5 < 2 && pr.b(12)? => { $(pr.c(15))$(quoted(pr.q(16)?)) }, (..) => ?	$(Some(pr.q(17)?)), })$(match pr.n(18, 8)? { 0 if pr.b(19)? => { foo }, 1 if pr.b(20)? => { $(display(pr.n(23, 9)?)) } 2 => $(pr.multi(24)?) ($(pr.n(25, 9)?)$(from_fn(|t| { t.append(pr.c(26)); t.space(); t.append(pr.c(27)); })), a1), 3 if pr.b(21)? => { $(pr.n(28, 9)?) $(vec![pr.q(29)?, pr.q(30)?]) }, 4 => (?$(from_fn(|t| { t.append(pr.c(31)); t.space(); t.append(pr.c(32)); })) while ), 5 if pr.b(22)? => $(pr.q(33)?) ($(pr.multi(34)?), $(format!("<{}>", pr.q(35)?))_y), v6 => { $(Some(pr.q(36)?)) /* between */ Self "q\"uote" }, })/**/) })  $(let v7 = pr.q(37)?) /* between */ x$(let v8 = pr.n(38, 9)?)}))
    }
    Ok(())
}
fn model_105(m: &mut MV, pr: &Pr) -> Flow {
    m.lit(pr.q(1)?);
    if let Some(x) = pr.opt(2)? { m.lit(x); }
    sp(m);
    m.lit(pr.q(3)?);
    sp(m);
    let mut s1 = MStream::<()>::default();
    {
    let m = &mut s1;
    let mut s2 = MStream::<()>::default();
    {
    let m = &mut s2;
    m.lit(format!("<{}>", pr.q(4)?));
    }
    m.add_all(&s2.items);
    l(m, "+");
    l(m, "{");
    match (pr.b(5)?, pr.n(6, 3)?) {
    (true, 0) => {
    m.lit(pr.q(7)?);
    }
    _ => {
    sp(m);
    match pr.n(8, 9)? {
    v4 => {
    m.lit(pr.q(9)?);
    sp(m);
    l(m, "7");
    sp(m);
    l(m, "=");
    sp(m);
    }
    }
    sp(m);
    match (pr.b(10)?, pr.n(11, 3)?) {
    (true, 0) => {
    m.lit(pr.mc(13)?); sp(m); m.lit(pr.mc(14)?);
    sp(m);
    l(m, "&");
    sp(m);
    l(m, "+");
    }
    (false, v5) if v5 < 2 && pr.b(12)? => {
    m.lit(pr.mc(15)?);
    { let x = pr.q(16)?; oq(m, false); m.lit(x); cq(m); }
    }
    (..) => {
    l(m, "?");
    sp(m);
    m.lit(pr.q(17)?);
    }
    }
    match pr.n(18, 8)? {
    0 if pr.b(19)? => {
    l(m, "foo");
    }
    1 if pr.b(20)? => {
    m.lit(pr.n(23, 9)?.to_string());
    }
    2 => {
    pr.mmulti(24, m)?;
    sp(m);
    l(m, "(");
    m.lit(pr.n(25, 9)?.to_string());
    m.lit(pr.mc(26)?); sp(m); m.lit(pr.mc(27)?);
    l(m, ",");
    sp(m);
    l(m, "a1");
    l(m, ")");
    }
    3 if pr.b(21)? => {
    m.lit(pr.n(28, 9)?.to_string());
    sp(m);
    { let x = pr.q(29)?; let y = pr.q(30)?; m.lit(x); m.lit(y); }
    }
    4 => {
    l(m, "?");
    m.lit(pr.mc(31)?); sp(m); m.lit(pr.mc(32)?);
    sp(m);
    l(m, "while");
    sp(m);
    }
    5 if pr.b(22)? => {
    m.lit(pr.q(33)?);
    sp(m);
    l(m, "(");
    pr.mmulti(34, m)?;
    l(m, ",");
    sp(m);
    m.lit(format!("<{}>", pr.q(35)?));
    l(m, "_y");
    l(m, ")");
    }
    v6 => {
    m.lit(pr.q(36)?);
    sp(m);
    l(m, "Self");
    sp(m);
    qs(m, "q\"uote");
    }
    }
    sp(m);
    }
    }
    sp(m);
    let v7 = pr.q(37)?;
    sp(m);
    l(m, "x");
    let v8 = pr.n(38, 9)?;
    l(m, "}");
    }
    m.add_all(&s1.items);
    Ok(())
}
fn real_106<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        0x1F$(ref _ { pr.mark(1)?; })/**/$(let mut v1 = pr.q(2)?)$(v1.as_str())
         $(for v2 in pr.it(3)?.filter(|_| pr.cb(4)) { $(&quote!($(match (pr.b(5)?, pr.q(6)?) { (_, v5) => { $v5 $(v1.clone()) } }))) $(match pr.n(7, 3)? { 0 if pr.b(8)? => {} v6 if v6 > 1 && pr.b(9)? => { $(if pr.b(10)? { $(v1.as_str()) } else { $[str]($(bar) three$[const]("con st")$(&)$[const]("con st")three$($(pr.opt(11)?)/**/1_000u64$(pr.c(12)))$[const](pr.q(13)?)$[const]("con st") -$name-)$(pr.multi(14)?) }) $(match pr.opt(15)? { Some(v7) if v7.is_empty() || pr.b(16)? => ( $(quote!($(pr.c(18)) "lit" bar)) ), _ if pr.b(17)? => { () }, Some(v8) => { $['\r']$(ref _ { pr.mark(19)?; }) }, None => $(pr.q(20)?)  $(ref o10 { if pr.rare(21)? { o10.append(pr.q(22)?); break; } }) {x /* between */ $(Some(pr.q(23)?)), ,$(pr.q(24)?)  } })$(quoted(pr.q(25)?)) }, _ => $(ref _ { pr.mark(26)?; })x [  $(for v11 in pr.it(27)? join (while) => bar), $(match (pr.b(28)?, pr.n(29, 3)?) { (true, 0) => { while } _ => 7 bar {$(&pr.q(30)?) $({ if pr.b(31)? { "t" } else { "f" } })$(pr.multi(32)?) $(pr.q(33)?), $(vec![pr.q(34)?, pr.q(35)?]) } })], }) })while
    }
    Ok(())
}
fn model_106(m: &mut MV, pr: &Pr) -> Flow {
    l(m, "0x1F");
    pr.mark(1)?;
    sp(m);
    let mut v1 = pr.q(2)?;
    m.lit(v1.clone());
    tind(m);
    {
    let mut it3 = pr.it(3)?;
    let mut step = || -> Flow<Option<String>> { while let Some(x) = it3.step()? { if pr.mcb(4)? { return Ok(Some(x)); } } Ok(None) };
    while let Some(v2) = step()? {
    let mut s4 = MStream::<()>::default();
    {
    let m = &mut s4;
    match (pr.b(5)?, pr.q(6)?) {
    (_, v5) => {
    m.lit(v5);
    sp(m);
    m.lit(v1.clone());
    }
    }
    }
    m.add_all(&s4.items);
    sp(m);
    match pr.n(7, 3)? {
    0 if pr.b(8)? => {
    }
    v6 if v6 > 1 && pr.b(9)? => {
    if pr.b(10)? {
    m.lit(v1.clone());
    } else {
    oq(m, true);
    oe(m);
    {
    l(m, "bar");
    }
    ce(m);
    l(m, " threecon st");
    oe(m);
    {
    l(m, "&");
    }
    ce(m);
    l(m, "con stthree");
    oe(m);
    {
    if let Some(x) = pr.opt(11)? { m.lit(x); }
    sp(m);
    l(m, "1_000u64");
    m.lit(pr.mc(12)?);
    }
    ce(m);
    m.lit(pr.q(13)?);
    l(m, "con st -");
    oe(m);
    l(m, "name");
    ce(m);
    l(m, "-");
    cq(m);
    pr.mmulti(14, m)?;
    }
    sp(m);
    match pr.opt(15)? {
    Some(v7) if v7.is_empty() || pr.b(16)? => {
    sp(m);
    let mut s9 = MStream::<()>::default();
    {
    let m = &mut s9;
    m.lit(pr.mc(18)?);
    sp(m);
    qs(m, "lit");
    sp(m);
    l(m, "bar");
    }
    m.add_all(&s9.items);
    sp(m);
    }
    _ if pr.b(17)? => {
    l(m, "()");
    }
    Some(v8) => {
    p(m);
    pr.mark(19)?;
    }
    None => {
    m.lit(pr.q(20)?);
    sp(m);
    if pr.rare(21)? { m.lit(pr.q(22)?); break; }
    sp(m);
    l(m, "{");
    l(m, "x");
    sp(m);
    m.lit(pr.q(23)?);
    l(m, ",");
    sp(m);
    l(m, ",");
    m.lit(pr.q(24)?);
    sp(m);
    l(m, "}");
    }
    }
    { let x = pr.q(25)?; oq(m, false); m.lit(x); cq(m); }
    }
    _ => {
    pr.mark(26)?;
    l(m, "x");
    sp(m);
    l(m, "[");
    sp(m);
    {
    let mut it12 = pr.it(27)?;
    let mut step = || -> Flow<Option<String>> { it12.step() };
    let mut next = step()?;
    while let Some(v11) = next {
    {
    l(m, "bar");
    }
    next = step()?;
    if next.is_some() {
    {
    l(m, "while");
    }
    }
    }
    }
    l(m, ",");
    sp(m);
    match (pr.b(28)?, pr.n(29, 3)?) {
    (true, 0) => {
    l(m, "while");
    }
    _ => {
    l(m, "7");
    sp(m);
    l(m, "bar");
    sp(m);
    l(m, "{");
    m.lit(pr.q(30)?);
    sp(m);
    l(m, if pr.b(31)? { "t" } else { "f" });
    pr.mmulti(32, m)?;
    sp(m);
    m.lit(pr.q(33)?);
    l(m, ",");
    sp(m);
    { let x = pr.q(34)?; let y = pr.q(35)?; m.lit(x); m.lit(y); }
    sp(m);
    l(m, "}");
    }
    }
    l(m, "]");
    }
    }
    }
    }
    l(m, "while");
    tend(m);
    Ok(())
}
fn real_107<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(for v1 in pr.opt(1)? {
            "q\"uote"
            {$(from_fn(|t| { t.append(pr.c(2)); t.space(); t.append(pr.c(3)); })) $(match pr.b(4)? { true | false => { $(match pr.n(5, 6)? { 0 | 20 => { ? foo }, v4 if v4 == 1 && pr.b(6)? => { foo$(from_fn(|t| { t.append(pr.c(7)); t.space(); t.append(pr.c(8)); }))/**/$$ } 2 | 22 => { a1$(Some(pr.q(9)?))$(pr.q(10)?) }, 3 => foo $(pr.q(11)?)$(pr.q(12)?), v5 => while  $(pr.n(13, 9)?) ($(pr.c(14)), $(Some(pr.q(15)?)) ), })$(&quote!(..= $(format!("<{}>", pr.q(16)?))))/**/$(if let (Some(v7), _) = (pr.opt(17)?, pr.b(18)?) { bar } else { $(pr.n(19, 9)?)$(quoted(pr.q(20)?)) }) } }) $({ pr.mark(21)?; "blk" }) }
            $(v1.clone())$(let (v8, v9) = (pr.q(22)?, pr.n(23, 9)?))$(pr.q(24)?) 1.5
        })
        $(ref o10 { if pr.rare(25)? { o10.append(pr.q(26)?); return Err(Left::Return); } }) $(&pr.q(27)?)$(quoted(pr.q(28)?))
        $(match pr.n(29, 9)? {
            v11 => ;,
        }) /* between */ $['\r'] /* between */ $(format!("<{}>", pr.q(30)?))
    }
    Ok(())
}
fn model_107(m: &mut MV, pr: &Pr) -> Flow {
    {
    let mut it2 = pr.opt(1)?.into_iter();
    let mut step = || -> Flow<Option<String>> { Ok(it2.next()) };
    while let Some(v1) = step()? {
    qs(m, "q\"uote");
    tp(m);
    l(m, "{");
    m.lit(pr.mc(2)?); sp(m); m.lit(pr.mc(3)?);
    sp(m);
    match pr.b(4)? {
    true | false => {
    match pr.n(5, 6)? {
    0 | 20 => {
    l(m, "?");
    sp(m);
    l(m, "foo");
    }
    v4 if v4 == 1 && pr.b(6)? => {
    l(m, "foo");
    m.lit(pr.mc(7)?); sp(m); m.lit(pr.mc(8)?);
    sp(m);
    l(m, "$");
    }
    2 | 22 => {
    l(m, "a1");
    m.lit(pr.q(9)?);
    m.lit(pr.q(10)?);
    }
    3 => {
    l(m, "foo");
    sp(m);
    m.lit(pr.q(11)?);
    m.lit(pr.q(12)?);
    }
    v5 => {
    l(m, "while");
    sp(m);
    m.lit(pr.n(13, 9)?.to_string());
    sp(m);
    l(m, "(");
    m.lit(pr.mc(14)?);
    l(m, ",");
    sp(m);
    m.lit(pr.q(15)?);
    sp(m);
    l(m, ")");
    }
    }
    let mut s6 = MStream::<()>::default();
    {
    let m = &mut s6;
    l(m, "..=");
    sp(m);
    m.lit(format!("<{}>", pr.q(16)?));
    }
    m.add_all(&s6.items);
    sp(m);
    if let (Some(v7), _) = (pr.opt(17)?, pr.b(18)?) {
    l(m, "bar");
    } else {
    m.lit(pr.n(19, 9)?.to_string());
    { let x = pr.q(20)?; oq(m, false); m.lit(x); cq(m); }
    }
    }
    }
    sp(m);
    pr.mark(21)?; l(m, "blk");
    sp(m);
    l(m, "}");
    tp(m);
    m.lit(v1.clone());
    let (v8, v9) = (pr.q(22)?, pr.n(23, 9)?);
    m.lit(pr.q(24)?);
    sp(m);
    l(m, "1.5");
    }
    }
    tp(m);
    if pr.rare(25)? { m.lit(pr.q(26)?); return Err(Left::Return); }
    sp(m);
    m.lit(pr.q(27)?);
    { let x = pr.q(28)?; oq(m, false); m.lit(x); cq(m); }
    tp(m);
    match pr.n(29, 9)? {
    v11 => {
    l(m, ";");
    }
    }
    sp(m);
    p(m);
    sp(m);
    m.lit(format!("<{}>", pr.q(30)?));
    Ok(())
}
fn real_108<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(pr.n(1, 9)?)$(quote!($(ref o2 => quote_in!(*o2 => $(quoted(quote!($(match pr.n(3, 3)? { v4 if v4 > 0 && pr.b(4)? => 7	$(pr.q(6)?) {$(pr.c(7)) $(display(pr.n(8, 9)?))$(display(pr.n(9, 9)?)), while }, v5 if v5 > 1 && pr.b(5)? => { $(pr.q(10)?.as_str()) } 2..=3 => { nameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameame /* between */ ;$({ if pr.b(11)? { "t" } else { "f" } }) } v6 => $(pr.opt(12)?)$(Some(pr.q(13)?))	"q\"uote" [x $(display(pr.n(14, 9)?)) $(pr.multi(15)?) /* between */ =>, $(pr.n(16, 9)?) ] })))) $(pr.n(17, 9)?)))))$(ref o7 { if pr.rare(18)? { o7.append(pr.q(19)?); return Err(Left::Return); } }) /* between */ [// note
        ]
    }
    Ok(())
}
fn model_108(m: &mut MV, pr: &Pr) -> Flow {
    m.lit(pr.n(1, 9)?.to_string());
    let mut s1 = MStream::<()>::default();
    {
    let m = &mut s1;
    {
    let mut s3 = MStream::<()>::default();
    {
    let m = &mut s3;
    match pr.n(3, 3)? {
    v4 if v4 > 0 && pr.b(4)? => {
    l(m, "7");
    sp(m);
    m.lit(pr.q(6)?);
    sp(m);
    l(m, "{");
    m.lit(pr.mc(7)?);
    sp(m);
    m.lit(pr.n(8, 9)?.to_string());
    m.lit(pr.n(9, 9)?.to_string());
    l(m, ",");
    sp(m);
    l(m, "while");
    sp(m);
    l(m, "}");
    }
    v5 if v5 > 1 && pr.b(5)? => {
    m.lit(pr.q(10)?);
    }
    2..=3 => {
    l(m, "nameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameame");
    sp(m);
    l(m, ";");
    l(m, if pr.b(11)? { "t" } else { "f" });
    }
    v6 => {
    if let Some(x) = pr.opt(12)? { m.lit(x); }
    m.lit(pr.q(13)?);
    sp(m);
    qs(m, "q\"uote");
    sp(m);
    l(m, "[");
    l(m, "x");
    sp(m);
    m.lit(pr.n(14, 9)?.to_string());
    sp(m);
    pr.mmulti(15, m)?;
    sp(m);
    l(m, "=>");
    l(m, ",");
    sp(m);
    m.lit(pr.n(16, 9)?.to_string());
    sp(m);
    l(m, "]");
    }
    }
    }
    oq(m, false);
    m.add_all(&s3.items);
    cq(m);
    sp(m);
    m.lit(pr.n(17, 9)?.to_string());
    }
    }
    m.add_all(&s1.items);
    if pr.rare(18)? { m.lit(pr.q(19)?); return Err(Left::Return); }
    sp(m);
    l(m, "[");
    tp(m);
    l(m, "]");
    Ok(())
}
fn real_109<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(if pr.n(1, 3)? == 1 => $(" lead")$(ref _ => if pr.rare(2)? { return Err(Left::Return); }) $(ref o1 { if pr.rare(3)? { o1.append(pr.q(4)?); return Err(Left::Return); } }))$({ pr.mark(5)?; "blk" })
        $(if pr.b(6)? { $(ref o2 { if pr.rare(7)? { o2.append(pr.q(8)?); return Err(Left::Return); } }) }) ; while [   
        // between
        ] $(vec![pr.q(9)?, pr.q(10)?]) $(if let Some(v3) = pr.opt(11)? { $(ref _ => if pr.rare(13)? { return Err(Left::Return); }) })
    }
    Ok(())
}
fn model_109(m: &mut MV, pr: &Pr) -> Flow {
    if pr.n(1, 3)? == 1 {
    l(m, " lead");
    if pr.rare(2)? { return Err(Left::Return); }
    sp(m);
    if pr.rare(3)? { m.lit(pr.q(4)?); return Err(Left::Return); }
    }
    pr.mark(5)?; l(m, "blk");
    tp(m);
    if pr.b(6)? {
    if pr.rare(7)? { m.lit(pr.q(8)?); return Err(Left::Return); }
    }
    sp(m);
    l(m, ";");
    sp(m);
    l(m, "while");
    sp(m);
    l(m, "[");
    tln(m);
    l(m, "]");
    sp(m);
    { let x = pr.q(9)?; let y = pr.q(10)?; m.lit(x); m.lit(y); }
    sp(m);
    if let Some(v3) = pr.opt(11)? {
    if pr.rare(13)? { return Err(Left::Return); }
    }
    Ok(())
}
fn real_110<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        ;$(from_fn(|t| { t.append(pr.c(1)); t.space(); t.append(pr.c(2)); })) $(for v1 in 0..pr.n(3, 4)? =>
            $(pr.opt(4)?)$(for v3 in [pr.q(5)?, pr.q(6)?] join (  $(match pr.n(7, 11)? { 0 | 20 => $$ $(pr.opt(11)?)  while {größe /* between */ $(from_fn(|t| { t.append(pr.c(12)); t.space(); t.append(pr.c(13)); })), "q\"uote"  $(format!("<{}>", pr.q(14)?))	}, 1 => { $(format!("<{}>", pr.q(15)?)) } 2 if pr.b(8)? => { bar } v5 if v5 == 3 && pr.b(9)? => foo [$(Some(pr.q(16)?))$({ pr.mark(17)?; "blk" }) 1_000u64/**/$(vec![pr.q(18)?, pr.q(19)?]), $(display(pr.n(20, 9)?))$(format!("<{}>", pr.q(21)?)) /* between */ ], 4 if pr.b(10)? => { foo while $(display(pr.n(22, 9)?)) } 5 => { $(ref _ => if pr.b(23)? { pr.mark(24)?; }) }, 6 => ( while Self), 7 => { $(Some(pr.q(25)?)) /* between */ _y$({ pr.mark(26)?; "blk" }) }, 8 | 28 => $$ [/**/$(format!("<{}>", pr.q(27)?)) $(pr.q(28)?.as_str()), $(pr.multi(29)?)	bar], v6 => ( a1 bar) })  ) { $({ if pr.b(30)? { "t" } else { "f" } })$(v3.clone()) }))while

        $[str]($[const]("con st")$[const](pr.q(31)?)$$ $$)$(let v7 = pr.n(32, 9)?) {// note
        }/**/$(ref _ => if pr.rare(33)? { return Err(Left::Return); })
    }
    Ok(())
}
fn model_110(m: &mut MV, pr: &Pr) -> Flow {
    l(m, ";");
    m.lit(pr.mc(1)?); sp(m); m.lit(pr.mc(2)?);
    sp(m);
    {
    let mut it2 = 0..pr.n(3, 4)?;
    let mut step = || -> Flow<Option<u64>> { Ok(it2.next()) };
    while let Some(v1) = step()? {
    if let Some(x) = pr.opt(4)? { m.lit(x); }
    {
    let mut it4 = [pr.q(5)?, pr.q(6)?].into_iter();
    let mut step = || -> Flow<Option<String>> { Ok(it4.next()) };
    let mut next = step()?;
    while let Some(v3) = next {
    {
    l(m, if pr.b(30)? { "t" } else { "f" });
    m.lit(v3.clone());
    }
    next = step()?;
    if next.is_some() {
    {
    sp(m);
    match pr.n(7, 11)? {
    0 | 20 => {
    l(m, "$");
    sp(m);
    if let Some(x) = pr.opt(11)? { m.lit(x); }
    sp(m);
    l(m, "while");
    sp(m);
    l(m, "{");
    l(m, "größe");
    sp(m);
    m.lit(pr.mc(12)?); sp(m); m.lit(pr.mc(13)?);
    l(m, ",");
    sp(m);
    qs(m, "q\"uote");
    sp(m);
    m.lit(format!("<{}>", pr.q(14)?));
    sp(m);
    l(m, "}");
    }
    1 => {
    m.lit(format!("<{}>", pr.q(15)?));
    }
    2 if pr.b(8)? => {
    l(m, "bar");
    }
    v5 if v5 == 3 && pr.b(9)? => {
    l(m, "foo");
    sp(m);
    l(m, "[");
    m.lit(pr.q(16)?);
    pr.mark(17)?; l(m, "blk");
    sp(m);
    l(m, "1_000u64");
    sp(m);
    { let x = pr.q(18)?; let y = pr.q(19)?; m.lit(x); m.lit(y); }
    l(m, ",");
    sp(m);
    m.lit(pr.n(20, 9)?.to_string());
    m.lit(format!("<{}>", pr.q(21)?));
    sp(m);
    l(m, "]");
    }
    4 if pr.b(10)? => {
    l(m, "foo");
    sp(m);
    l(m, "while");
    sp(m);
    m.lit(pr.n(22, 9)?.to_string());
    }
    5 => {
    if pr.b(23)? { pr.mark(24)?; }
    }
    6 => {
    sp(m);
    l(m, "while");
    sp(m);
    l(m, "Self");
    }
    7 => {
    m.lit(pr.q(25)?);
    sp(m);
    l(m, "_y");
    pr.mark(26)?; l(m, "blk");
    }
    8 | 28 => {
    l(m, "$");
    sp(m);
    l(m, "[");
    sp(m);
    m.lit(format!("<{}>", pr.q(27)?));
    sp(m);
    m.lit(pr.q(28)?);
    l(m, ",");
    sp(m);
    pr.mmulti(29, m)?;
    sp(m);
    l(m, "bar");
    l(m, "]");
    }
    v6 => {
    sp(m);
    l(m, "a1");
    sp(m);
    l(m, "bar");
    }
    }
    sp(m);
    }
    }
    }
    }
    }
    }
    l(m, "while");
    tln(m);
    oq(m, false);
    l(m, "con st");
    m.lit(pr.q(31)?);
    l(m, "$ $");
    cq(m);
    let v7 = pr.n(32, 9)?;
    sp(m);
    l(m, "{");
    tp(m);
    l(m, "}");
    sp(m);
    if pr.rare(33)? { return Err(Left::Return); }
    Ok(())
}
fn real_111<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        {$$ ($$ [$(&pr.q(3)?) ($({ if pr.b(2)? { "t" } else { "f" } }) {$(pr.q(1)?) ? $$} $$) $$] ,) bar}$(let mut v1 = pr.q(4)?) (
            $(from_fn(|t| { t.append(pr.c(5)); t.space(); t.append(pr.c(6)); }))   
        )
            $(pr.q(7)?) $({ if pr.b(8)? { "t" } else { "f" } })
                größe$(ref o2 { if pr.b(9)? { quote_in!(*o2 => $(if pr.b(10)? { $(match (pr.b(11)?, pr.n(12, 3)?) { (true, 0) => ?  x, (false, v3) if v3 < 2 && pr.b(13)? => $(pr.multi(15)?), (_, 1) | (true, _) => $(v1.as_str()) $(if pr.b(16)? || !pr.b(17)? { $({ if pr.b(18)? { "t" } else { "f" } })$(quoted(pr.q(19)?)) $$ }) /* between */ $(ref o4 { o4.append(pr.q(20)?); o4.space(); o4.append(pr.q(21)?); }), _ if pr.b(14)? => (_y $(Some(pr.q(22)?))  ), (..) => ($$ ), })$(if pr.n(23, 3)? == 1 => $(if pr.b(24)? || !pr.b(25)? => $({ pr.mark(26)?; "blk" })  bar$(&pr.q(27)?))       $(ref _ => if pr.b(28)? { pr.mark(29)?; }) $(if pr.b(30)? { $(format!("<{}>", pr.q(31)?)) }))= })$(pr.q(32)?.as_str())); } o2.push(); })
        $['\n']
        $v1$(Some(pr.q(33)?))
        $(for v5 in [pr.q(34)?, pr.q(35)?] join (nameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameame ) {})while
    }
    Ok(())
}
fn model_111(m: &mut MV, pr: &Pr) -> Flow {
    l(m, "{");
    l(m, "$");
    sp(m);
    l(m, "(");
    l(m, "$");
    sp(m);
    l(m, "[");
    m.lit(pr.q(3)?);
    sp(m);
    l(m, "(");
    l(m, if pr.b(2)? { "t" } else { "f" });
    sp(m);
    l(m, "{");
    m.lit(pr.q(1)?);
    sp(m);
    l(m, "?");
    sp(m);
    l(m, "$");
    l(m, "}");
    sp(m);
    l(m, "$");
    l(m, ")");
    sp(m);
    l(m, "$");
    l(m, "]");
    sp(m);
    l(m, ",");
    l(m, ")");
    sp(m);
    l(m, "bar");
    l(m, "}");
    let mut v1 = pr.q(4)?;
    sp(m);
    l(m, "(");
    tind(m);
    m.lit(pr.mc(5)?); sp(m); m.lit(pr.mc(6)?);
    tun(m);
    l(m, ")");
    tind(m);
    m.lit(pr.q(7)?);
    sp(m);
    l(m, if pr.b(8)? { "t" } else { "f" });
    tind(m);
    l(m, "größe");
    if pr.b(9)? {
    if pr.b(10)? {
    match (pr.b(11)?, pr.n(12, 3)?) {
    (true, 0) => {
    l(m, "?");
    sp(m);
    l(m, "x");
    }
    (false, v3) if v3 < 2 && pr.b(13)? => {
    pr.mmulti(15, m)?;
    }
    (_, 1) | (true, _) => {
    m.lit(v1.clone());
    sp(m);
    if pr.b(16)? || !pr.b(17)? {
    l(m, if pr.b(18)? { "t" } else { "f" });
    { let x = pr.q(19)?; oq(m, false); m.lit(x); cq(m); }
    sp(m);
    l(m, "$");
    }
    sp(m);
    m.lit(pr.q(20)?); sp(m); m.lit(pr.q(21)?);
    }
    _ if pr.b(14)? => {
    l(m, "_y");
    sp(m);
    m.lit(pr.q(22)?);
    sp(m);
    }
    (..) => {
    l(m, "$");
    sp(m);
    }
    }
    if pr.n(23, 3)? == 1 {
    if pr.b(24)? || !pr.b(25)? {
    pr.mark(26)?; l(m, "blk");
    sp(m);
    l(m, "bar");
    m.lit(pr.q(27)?);
    }
    sp(m);
    if pr.b(28)? { pr.mark(29)?; }
    sp(m);
    if pr.b(30)? {
    m.lit(format!("<{}>", pr.q(31)?));
    }
    }
    l(m, "=");
    }
    m.lit(pr.q(32)?);
    }
    p(m);
    tun(m);
    tun(m);
    ln(m);
    tp(m);
    m.lit(v1);
    m.lit(pr.q(33)?);
    tp(m);
    {
    let mut it6 = [pr.q(34)?, pr.q(35)?].into_iter();
    let mut step = || -> Flow<Option<String>> { Ok(it6.next()) };
    let mut next = step()?;
    while let Some(v5) = next {
    {
    }
    next = step()?;
    if next.is_some() {
    {
    l(m, "nameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameame");
    sp(m);
    }
    }
    }
    }
    l(m, "while");
    Ok(())
}
fn real_112<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $[str](plain)x ; [
            1_000u64$(let (v1, v2) = (pr.q(1)?, pr.n(2, 9)?))$(match pr.b(3)? { true | false => $(match (pr.b(4)?, pr.n(5, 3)?) { (true, 0) => { =>$(" lead") } (false, v4) if v4 < 2 && pr.b(6)? => $(if pr.b(7)? => $(for v5 in pr.it(8)? { ...       . $$ })$(ref o7 { if pr.b(9)? { quote_in!(*o7 => $(display(pr.n(10, 9)?)) /* between */ _y); } o7.push(); }) "q\"uote") ($(for v8 in 0..pr.n(11, 4)? join (foo       a1) { $({ if pr.b(12)? { "t" } else { "f" } }) }) ) $['\n'], (..) => $(ref _ => if pr.b(13)? { pr.mark(14)?; }) }) (       $(ref o10 { if pr.b(15)? { quote_in!(*o10 => (Self foo foo	while)$(match (pr.b(16)?, pr.n(17, 3)?) { (true, 0) => $(pr.q(18)?.as_str())  $(pr.opt(19)?) Self ( /* between */ $(pr.n(20, 9)?), $(pr.multi(21)?)$(&pr.q(22)?) ), (_, 1) | (true, _) => $({ if pr.b(23)? { "t" } else { "f" } })x ($$, $(pr.c(24))  $(vec![pr.q(25)?, pr.q(26)?])), (..) => $(format!("<{}>", pr.q(27)?))x while (Self $(pr.n(28, 9)?) $(pr.n(29, 9)?), while /* between */ ) })$(&pr.q(30)?)); } o10.push(); }) $(&pr.q(31)?) {$(match pr.n(32, 9)? { v12 => $(format!("<{}>", pr.q(33)?)) }).}, $(if pr.b(34)? => $(let v13 = pr.n(35, 9)?) $(if pr.b(36)? => $({ pr.mark(37)?; "blk" }))	Self)), })       0x1F $(pr.n(38, 9)?)while$(quoted(pr.q(39)?)) [
            ]
        ]
    }
    Ok(())
}
fn model_112(m: &mut MV, pr: &Pr) -> Flow {
    qs(m, "plain");
    l(m, "x");
    sp(m);
    l(m, ";");
    sp(m);
    l(m, "[");
    tind(m);
    l(m, "1_000u64");
    let (v1, v2) = (pr.q(1)?, pr.n(2, 9)?);
    match pr.b(3)? {
    true | false => {
    match (pr.b(4)?, pr.n(5, 3)?) {
    (true, 0) => {
    l(m, "=>");
    l(m, " lead");
    }
    (false, v4) if v4 < 2 && pr.b(6)? => {
    if pr.b(7)? {
    {
    let mut it6 = pr.it(8)?;
    let mut step = || -> Flow<Option<String>> { it6.step() };
    while let Some(v5) = step()? {
    l(m, "...");
    sp(m);
    l(m, ".");
    sp(m);
    l(m, "$");
    }
    }
    if pr.b(9)? {
    m.lit(pr.n(10, 9)?.to_string());
    sp(m);
    l(m, "_y");
    }
    p(m);
    sp(m);
    qs(m, "q\"uote");
    }
    sp(m);
    l(m, "(");
    {
    let mut it9 = 0..pr.n(11, 4)?;
    let mut step = || -> Flow<Option<u64>> { Ok(it9.next()) };
    let mut next = step()?;
    while let Some(v8) = next {
    {
    l(m, if pr.b(12)? { "t" } else { "f" });
    }
    next = step()?;
    if next.is_some() {
    {
    l(m, "foo");
    sp(m);
    l(m, "a1");
    }
    }
    }
    }
    sp(m);
    l(m, ")");
    sp(m);
    ln(m);
    }
    (..) => {
    if pr.b(13)? { pr.mark(14)?; }
    }
    }
    sp(m);
    l(m, "(");
    sp(m);
    if pr.b(15)? {
    l(m, "(");
    l(m, "Self");
    sp(m);
    l(m, "foo");
    sp(m);
    l(m, "foo");
    sp(m);
    l(m, "while");
    l(m, ")");
    match (pr.b(16)?, pr.n(17, 3)?) {
    (true, 0) => {
    m.lit(pr.q(18)?);
    sp(m);
    if let Some(x) = pr.opt(19)? { m.lit(x); }
    sp(m);
    l(m, "Self");
    sp(m);
    l(m, "(");
    sp(m);
    m.lit(pr.n(20, 9)?.to_string());
    l(m, ",");
    sp(m);
    pr.mmulti(21, m)?;
    m.lit(pr.q(22)?);
    sp(m);
    l(m, ")");
    }
    (_, 1) | (true, _) => {
    l(m, if pr.b(23)? { "t" } else { "f" });
    l(m, "x");
    sp(m);
    l(m, "(");
    l(m, "$");
    l(m, ",");
    sp(m);
    m.lit(pr.mc(24)?);
    sp(m);
    { let x = pr.q(25)?; let y = pr.q(26)?; m.lit(x); m.lit(y); }
    l(m, ")");
    }
    (..) => {
    m.lit(format!("<{}>", pr.q(27)?));
    l(m, "x");
    sp(m);
    l(m, "while");
    sp(m);
    l(m, "(");
    l(m, "Self");
    sp(m);
    m.lit(pr.n(28, 9)?.to_string());
    sp(m);
    m.lit(pr.n(29, 9)?.to_string());
    l(m, ",");
    sp(m);
    l(m, "while");
    sp(m);
    l(m, ")");
    }
    }
    m.lit(pr.q(30)?);
    }
    p(m);
    sp(m);
    m.lit(pr.q(31)?);
    sp(m);
    l(m, "{");
    match pr.n(32, 9)? {
    v12 => {
    m.lit(format!("<{}>", pr.q(33)?));
    }
    }
    l(m, ".");
    l(m, "}");
    l(m, ",");
    sp(m);
    if pr.b(34)? {
    let v13 = pr.n(35, 9)?;
    sp(m);
    if pr.b(36)? {
    pr.mark(37)?; l(m, "blk");
    }
    sp(m);
    l(m, "Self");
    }
    l(m, ")");
    }
    }
    sp(m);
    l(m, "0x1F");
    sp(m);
    m.lit(pr.n(38, 9)?.to_string());
    l(m, "while");
    { let x = pr.q(39)?; oq(m, false); m.lit(x); cq(m); }
    sp(m);
    l(m, "[");
    tp(m);
    l(m, "]");
    tun(m);
    l(m, "]");
    Ok(())
}
fn real_113<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(for v1 in pr.it(1)? join ("lit"  ) =>
            $(ref _ => if pr.b(2)? { pr.mark(3)?; }); ||$(let (v3, v4) = (pr.q(4)?, pr.n(5, 9)?))) /* between */ $(match pr.opt(6)? {
            None if pr.b(7)? => ( $(ref _ => if pr.rare(8)? { return Err(Left::Return); })$$/**/$(pr.opt(9)?)),
            Some(v6) => $(pr.c(10)),
            None => ( $(if pr.b(11)? => $("ä")$(for _ in pr.it(12)? => $[str]($[const](pr.q(13)?)$[const]("con st")one$[const](pr.q(14)?)$(Self) $$) $(pr.multi(15)?)/**/$$)) )
        })
    }
    Ok(())
}
fn model_113(m: &mut MV, pr: &Pr) -> Flow {
    {
    let mut it2 = pr.it(1)?;
    let mut step = || -> Flow<Option<String>> { it2.step() };
    let mut next = step()?;
    while let Some(v1) = next {
    {
    if pr.b(2)? { pr.mark(3)?; }
    l(m, ";");
    sp(m);
    l(m, "||");
    let (v3, v4) = (pr.q(4)?, pr.n(5, 9)?);
    }
    next = step()?;
    if next.is_some() {
    {
    qs(m, "lit");
    sp(m);
    }
    }
    }
    }
    sp(m);
    match pr.opt(6)? {
    None if pr.b(7)? => {
    sp(m);
    if pr.rare(8)? { return Err(Left::Return); }
    l(m, "$");
    sp(m);
    if let Some(x) = pr.opt(9)? { m.lit(x); }
    }
    Some(v6) => {
    m.lit(pr.mc(10)?);
    }
    None => {
    sp(m);
    if pr.b(11)? {
    l(m, "ä");
    {
    let mut it8 = pr.it(12)?;
    let mut step = || -> Flow<Option<String>> { it8.step() };
    while let Some(_) = step()? {
    oq(m, true);
    m.lit(pr.q(13)?);
    l(m, "con stone");
    m.lit(pr.q(14)?);
    oe(m);
    {
    l(m, "Self");
    }
    ce(m);
    l(m, " $");
    cq(m);
    sp(m);
    pr.mmulti(15, m)?;
    sp(m);
    l(m, "$");
    }
    }
    }
    sp(m);
    }
    }
    Ok(())
}
fn real_114<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(if pr.b(1)? { $(for v1 in pr.it(2)?.filter(|_| pr.cb(3)) => $({ if pr.b(4)? { "t" } else { "f" } }))$[' '] })	$(let v3 = pr.q(5)?)
        ..= [	$(quote!($(let mut v5 = pr.q(6)?)$(for v6 in pr.it(7)?.filter(|_| pr.cb(8)) join ($(for v8 in pr.it(9)? join ( /* between */ $(pr.c(10))  "q\"uote") => bar  foo $(pr.multi(11)?)) /* between */ ) { $(ref _ { pr.mark(12)?; }) })/**/('a  $(&quote!("q\"uote"))       ($(Some(pr.q(13)?)) {$$ ($$ {..= while $$} =) bar} $(quoted(pr.q(14)?))) ))) $v3$(format!("<{}>", pr.q(15)?))/**/$("ä") ]$(match (pr.b(16)?, pr.n(17, 3)?) { (true, 0) => $(vec![pr.q(19)?, pr.q(20)?]) $(let (v12, v13) = (pr.q(21)?, pr.n(22, 9)?)), (false, v11) if v11 < 2 && pr.b(18)? => ([a1 [$$ ($(pr.c(24)) (+ ($$ $("ä") $(format!("<{}>", pr.q(23)?))) $$) $(display(pr.n(25, 9)?))) Self] $$] bar ), (..) => { $(if pr.b(26)? => $(&pr.q(27)?)$(let (v14, v15) = (pr.q(28)?, pr.n(29, 9)?))$("ver batim")) } }) /* between */ [
        ] $$ $(for v16 in pr.opt(30)? join (, ) => $(quote!($(quote!($("ver batim")       $(let v20 = pr.n(32, 9)?)))))$['\r']$v16)
    }
    Ok(())
}
fn model_114(m: &mut MV, pr: &Pr) -> Flow {
    if pr.b(1)? {
    {
    let mut it2 = pr.it(2)?;
    let mut step = || -> Flow<Option<String>> { while let Some(x) = it2.step()? { if pr.mcb(3)? { return Ok(Some(x)); } } Ok(None) };
    while let Some(v1) = step()? {
    l(m, if pr.b(4)? { "t" } else { "f" });
    }
    }
    sp(m);
    }
    sp(m);
    let v3 = pr.q(5)?;
    tp(m);
    l(m, "..=");
    sp(m);
    l(m, "[");
    sp(m);
    let mut s4 = MStream::<()>::default();
    {
    let m = &mut s4;
    let mut v5 = pr.q(6)?;
    {
    let mut it7 = pr.it(7)?;
    let mut step = || -> Flow<Option<String>> { while let Some(x) = it7.step()? { if pr.mcb(8)? { return Ok(Some(x)); } } Ok(None) };
    let mut next = step()?;
    while let Some(v6) = next {
    {
    pr.mark(12)?;
    }
    next = step()?;
    if next.is_some() {
    {
    {
    let mut it9 = pr.it(9)?;
    let mut step = || -> Flow<Option<String>> { it9.step() };
    let mut next = step()?;
    while let Some(v8) = next {
    {
    l(m, "bar");
    sp(m);
    l(m, "foo");
    sp(m);
    pr.mmulti(11, m)?;
    }
    next = step()?;
    if next.is_some() {
    {
    sp(m);
    m.lit(pr.mc(10)?);
    sp(m);
    qs(m, "q\"uote");
    }
    }
    }
    }
    sp(m);
    }
    }
    }
    }
    sp(m);
    l(m, "(");
    l(m, "'a");
    sp(m);
    let mut s10 = MStream::<()>::default();
    {
    let m = &mut s10;
    qs(m, "q\"uote");
    }
    m.add_all(&s10.items);
    sp(m);
    l(m, "(");
    m.lit(pr.q(13)?);
    sp(m);
    l(m, "{");
    l(m, "$");
    sp(m);
    l(m, "(");
    l(m, "$");
    sp(m);
    l(m, "{");
    l(m, "..=");
    sp(m);
    l(m, "while");
    sp(m);
    l(m, "$");
    l(m, "}");
    sp(m);
    l(m, "=");
    l(m, ")");
    sp(m);
    l(m, "bar");
    l(m, "}");
    sp(m);
    { let x = pr.q(14)?; oq(m, false); m.lit(x); cq(m); }
    l(m, ")");
    sp(m);
    l(m, ")");
    }
    m.add_all(&s4.items);
    sp(m);
    m.lit(v3);
    m.lit(format!("<{}>", pr.q(15)?));
    sp(m);
    l(m, "ä");
    sp(m);
    l(m, "]");
    match (pr.b(16)?, pr.n(17, 3)?) {
    (true, 0) => {
    { let x = pr.q(19)?; let y = pr.q(20)?; m.lit(x); m.lit(y); }
    sp(m);
    let (v12, v13) = (pr.q(21)?, pr.n(22, 9)?);
    }
    (false, v11) if v11 < 2 && pr.b(18)? => {
    l(m, "[");
    l(m, "a1");
    sp(m);
    l(m, "[");
    l(m, "$");
    sp(m);
    l(m, "(");
    m.lit(pr.mc(24)?);
    sp(m);
    l(m, "(");
    l(m, "+");
    sp(m);
    l(m, "(");
    l(m, "$");
    sp(m);
    l(m, "ä");
    sp(m);
    m.lit(format!("<{}>", pr.q(23)?));
    l(m, ")");
    sp(m);
    l(m, "$");
    l(m, ")");
    sp(m);
    m.lit(pr.n(25, 9)?.to_string());
    l(m, ")");
    sp(m);
    l(m, "Self");
    l(m, "]");
    sp(m);
    l(m, "$");
    l(m, "]");
    sp(m);
    l(m, "bar");
    sp(m);
    }
    (..) => {
    if pr.b(26)? {
    m.lit(pr.q(27)?);
    let (v14, v15) = (pr.q(28)?, pr.n(29, 9)?);
    l(m, "ver batim");
    }
    }
    }
    sp(m);
    l(m, "[");
    tp(m);
    l(m, "]");
    sp(m);
    l(m, "$");
    sp(m);
    {
    let mut it17 = pr.opt(30)?.into_iter();
    let mut step = || -> Flow<Option<String>> { Ok(it17.next()) };
    let mut next = step()?;
    while let Some(v16) = next {
    {
    let mut s18 = MStream::<()>::default();
    {
    let m = &mut s18;
    let mut s19 = MStream::<()>::default();
    {
    let m = &mut s19;
    l(m, "ver batim");
    sp(m);
    let v20 = pr.n(32, 9)?;
    }
    m.add_all(&s19.items);
    }
    m.add_all(&s18.items);
    p(m);
    m.lit(v16);
    }
    next = step()?;
    if next.is_some() {
    {
    l(m, ",");
    sp(m);
    }
    }
    }
    }
    Ok(())
}
fn real_115<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(pr.c(1))
            $(for v1 in pr.it(2)? {
                $(quoted(pr.q(3)?))	$v1$(quoted(pr.q(4)?)) $(" lead")// note
                $(if pr.n(5, 3)? == 1 { $(let mut v3 = pr.q(6)?) })$(if pr.b(7)? {})$(match pr.q(8)? {
                    v4 => $(if pr.b(9)? =>
                        while)foo {$['\n'], $[str]($[const](pr.q(10)?))},
                }) [
                ]
            })$(let v5 = pr.q(11)?)
    }
    Ok(())
}
fn model_115(m: &mut MV, pr: &Pr) -> Flow {
    m.lit(pr.mc(1)?);
    tind(m);
    {
    let mut it2 = pr.it(2)?;
    let mut step = || -> Flow<Option<String>> { it2.step() };
    while let Some(v1) = step()? {
    { let x = pr.q(3)?; oq(m, false); m.lit(x); cq(m); }
    sp(m);
    m.lit(v1);
    { let x = pr.q(4)?; oq(m, false); m.lit(x); cq(m); }
    sp(m);
    l(m, " lead");
    tp(m);
    if pr.n(5, 3)? == 1 {
    let mut v3 = pr.q(6)?;
    }
    if pr.b(7)? {
    }
    match pr.q(8)? {
    v4 => {
    if pr.b(9)? {
    l(m, "while");
    }
    l(m, "foo");
    sp(m);
    l(m, "{");
    ln(m);
    l(m, ",");
    sp(m);
    oq(m, false);
    m.lit(pr.q(10)?);
    cq(m);
    l(m, "}");
    }
    }
    sp(m);
    l(m, "[");
    tp(m);
    l(m, "]");
    }
    }
    let v5 = pr.q(11)?;
    tend(m);
    Ok(())
}
fn real_116<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(vec![pr.q(1)?, pr.q(2)?])	while$(if pr.n(3, 3)? == 1 => $(match pr.n(4, 6)? { _ if pr.b(5)? => { Self }, _ if pr.b(6)? => {} _ => { ($(pr.multi(7)?)$(ref _ => if pr.rare(8)? { return Err(Left::Return); }))	$(" lead") } }) $(pr.c(9)))	{

        // between


            $(quoted(pr.q(10)?))größe $(match pr.n(11, 9)? {
                v1 => $(for _ in pr.it(12)? => $(v1) $[str](a b  c))bar$(ref o4 { o4.append(pr.q(13)?); o4.space(); o4.append(pr.q(14)?); })
            })
        }
    }
    Ok(())
}
fn model_116(m: &mut MV, pr: &Pr) -> Flow {
    { let x = pr.q(1)?; let y = pr.q(2)?; m.lit(x); m.lit(y); }
    sp(m);
    l(m, "while");
    if pr.n(3, 3)? == 1 {
    match pr.n(4, 6)? {
    _ if pr.b(5)? => {
    l(m, "Self");
    }
    _ if pr.b(6)? => {
    }
    _ => {
    l(m, "(");
    pr.mmulti(7, m)?;
    if pr.rare(8)? { return Err(Left::Return); }
    l(m, ")");
    sp(m);
    l(m, " lead");
    }
    }
    sp(m);
    m.lit(pr.mc(9)?);
    }
    sp(m);
    l(m, "{");
    tind(m);
    tln(m);
    { let x = pr.q(10)?; oq(m, false); m.lit(x); cq(m); }
    l(m, "größe");
    sp(m);
    match pr.n(11, 9)? {
    v1 => {
    {
    let mut it3 = pr.it(12)?;
    let mut step = || -> Flow<Option<String>> { it3.step() };
    while let Some(_) = step()? {
    m.lit(v1.to_string());
    sp(m);
    qs(m, "a b  c");
    }
    }
    l(m, "bar");
    m.lit(pr.q(13)?); sp(m); m.lit(pr.q(14)?);
    }
    }
    tun(m);
    l(m, "}");
    Ok(())
}
fn real_117<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(vec![pr.q(1)?, pr.q(2)?]) $(ref o1 { if pr.rare(3)? { o1.append(pr.q(4)?); return Err(Left::Return); } }) (
            "lit"
                foo$(for v2 in [pr.q(5)?, pr.q(6)?] => $(&pr.q(7)?)/**/'a /* between */ x)


        )

            ;/**/$(pr.n(8, 9)?)
    }
    Ok(())
}
fn model_117(m: &mut MV, pr: &Pr) -> Flow {
    { let x = pr.q(1)?; let y = pr.q(2)?; m.lit(x); m.lit(y); }
    sp(m);
    if pr.rare(3)? { m.lit(pr.q(4)?); return Err(Left::Return); }
    sp(m);
    l(m, "(");
    tind(m);
    qs(m, "lit");
    tind(m);
    l(m, "foo");
    {
    let mut it3 = [pr.q(5)?, pr.q(6)?].into_iter();
    let mut step = || -> Flow<Option<String>> { Ok(it3.next()) };
    while let Some(v2) = step()? {
    m.lit(pr.q(7)?);
    sp(m);
    l(m, "'a");
    sp(m);
    l(m, "x");
    }
    }
    tun(m);
    tln(m);
    tun(m);
    tln(m);
    l(m, ")");
    tind(m);
    tln(m);
    l(m, ";");
    sp(m);
    m.lit(pr.n(8, 9)?.to_string());
    tend(m);
    Ok(())
}
fn real_118<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(quoted(pr.q(1)?))$(quote! {
            $[str]($name-$[const]("con st")$name-$[const]("con st"))$(let v2 = pr.q(2)?)$[str]($($(pr.c(3)) _y))/**/$(" lead") [ $(ref _ => if pr.b(4)? { pr.mark(5)?; })$[str]($[const](pr.q(6)?))$(quote! {
                1_000u64  $(quote!(x x))$(if pr.b(7)? {
                    $(from_fn(|t| { t.append(pr.c(8)); t.space(); t.append(pr.c(9)); }))/**/[
                    
                    
                    
                    
                        $(format!("<{}>", pr.q(10)?))"lit" $(pr.q(11)?)
                        _y {
                        }
                    ]
                })$(pr.opt(12)?)       $(let v5 = pr.q(13)?) $(for v6 in pr.it(14)? { $({ pr.mark(15)?; "blk" }) })$(if let (Some(v8), _) = (pr.opt(16)?, pr.b(17)?) {
                    x
                    
                    // between
                    "two words"       ; "q\"uote"
                       $(&pr.q(18)?)
                } else {
                    _y&	= ?
                })
                a1$(for v9 in pr.opt(19)? join (, ) { $$	nameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameame }) /* between */ foo
                  $(&quote!(a1))$(if pr.b(20)? || !pr.b(21)? {
                      $({ if pr.b(22)? { "t" } else { "f" } })größe/**/$(pr.q(23)?)
                  } else { "two words" $(pr.q(24)?.as_str()) })$(&v5)
                  $v2/**/$(if pr.n(25, 3)? == 1 { while })
            })größe]foo
            $(ref _ => if pr.rare(26)? { return Err(Left::Return); }) $(quote!($(pr.opt(27)?) $(pr.n(28, 9)?)while))/**/$(quoted(pr.q(29)?))
        })
            a1 {
                $({ pr.mark(30)?; "blk" })
                Self r#type

                    $({ if pr.b(31)? { "t" } else { "f" } })	"two words"
            }
    }
    Ok(())
}
fn model_118(m: &mut MV, pr: &Pr) -> Flow {
    { let x = pr.q(1)?; oq(m, false); m.lit(x); cq(m); }
    let mut s1 = MStream::<()>::default();
    {
    let m = &mut s1;
    oq(m, true);
    oe(m);
    l(m, "name");
    ce(m);
    l(m, "-con st");
    oe(m);
    l(m, "name");
    ce(m);
    l(m, "-con st");
    cq(m);
    let v2 = pr.q(2)?;
    oq(m, true);
    oe(m);
    {
    m.lit(pr.mc(3)?);
    sp(m);
    l(m, "_y");
    }
    ce(m);
    cq(m);
    sp(m);
    l(m, " lead");
    sp(m);
    l(m, "[");
    sp(m);
    if pr.b(4)? { pr.mark(5)?; }
    oq(m, false);
    m.lit(pr.q(6)?);
    cq(m);
    let mut s3 = MStream::<()>::default();
    {
    let m = &mut s3;
    l(m, "1_000u64");
    sp(m);
    let mut s4 = MStream::<()>::default();
    {
    let m = &mut s4;
    l(m, "x");
    sp(m);
    l(m, "x");
    }
    m.add_all(&s4.items);
    if pr.b(7)? {
    m.lit(pr.mc(8)?); sp(m); m.lit(pr.mc(9)?);
    sp(m);
    l(m, "[");
    tind(m);
    tln(m);
    m.lit(format!("<{}>", pr.q(10)?));
    qs(m, "lit");
    sp(m);
    m.lit(pr.q(11)?);
    tp(m);
    l(m, "_y");
    sp(m);
    l(m, "{");
    tp(m);
    l(m, "}");
    tun(m);
    l(m, "]");
    }
    if let Some(x) = pr.opt(12)? { m.lit(x); }
    sp(m);
    let v5 = pr.q(13)?;
    sp(m);
    {
    let mut it7 = pr.it(14)?;
    let mut step = || -> Flow<Option<String>> { it7.step() };
    while let Some(v6) = step()? {
    pr.mark(15)?; l(m, "blk");
    }
    }
    if let (Some(v8), _) = (pr.opt(16)?, pr.b(17)?) {
    l(m, "x");
    tln(m);
    qs(m, "two words");
    sp(m);
    l(m, ";");
    sp(m);
    qs(m, "q\"uote");
    tind(m);
    m.lit(pr.q(18)?);
    tend(m);
    } else {
    l(m, "_y");
    l(m, "&");
    sp(m);
    l(m, "=");
    sp(m);
    l(m, "?");
    }
    tp(m);
    l(m, "a1");
    {
    let mut it10 = pr.opt(19)?.into_iter();
    let mut step = || -> Flow<Option<String>> { Ok(it10.next()) };
    let mut next = step()?;
    while let Some(v9) = next {
    {
    l(m, "$");
    sp(m);
    l(m, "nameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameame");
    }
    next = step()?;
    if next.is_some() {
    {
    l(m, ",");
    sp(m);
    }
    }
    }
    }
    sp(m);
    l(m, "foo");
    tind(m);
    let mut s11 = MStream::<()>::default();
    {
    let m = &mut s11;
    l(m, "a1");
    }
    m.add_all(&s11.items);
    if pr.b(20)? || !pr.b(21)? {
    l(m, if pr.b(22)? { "t" } else { "f" });
    l(m, "größe");
    sp(m);
    m.lit(pr.q(23)?);
    } else {
    qs(m, "two words");
    sp(m);
    m.lit(pr.q(24)?);
    }
    m.lit(v5.clone());
    tp(m);
    m.lit(v2);
    sp(m);
    if pr.n(25, 3)? == 1 {
    l(m, "while");
    }
    tend(m);
    }
    m.add_all(&s3.items);
    l(m, "größe");
    l(m, "]");
    l(m, "foo");
    tp(m);
    if pr.rare(26)? { return Err(Left::Return); }
    sp(m);
    let mut s12 = MStream::<()>::default();
    {
    let m = &mut s12;
    if let Some(x) = pr.opt(27)? { m.lit(x); }
    sp(m);
    m.lit(pr.n(28, 9)?.to_string());
    l(m, "while");
    }
    m.add_all(&s12.items);
    sp(m);
    { let x = pr.q(29)?; oq(m, false); m.lit(x); cq(m); }
    }
    m.add_all(&s1.items);
    tind(m);
    l(m, "a1");
    sp(m);
    l(m, "{");
    tind(m);
    pr.mark(30)?; l(m, "blk");
    tp(m);
    l(m, "Self");
    sp(m);
    l(m, "r#type");
    tind(m);
    tln(m);
    l(m, if pr.b(31)? { "t" } else { "f" });
    sp(m);
    qs(m, "two words");
    tun(m);
    tun(m);
    l(m, "}");
    tend(m);
    Ok(())
}
fn real_119<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(ref o1 { o1.append(pr.q(1)?); o1.space(); o1.append(pr.q(2)?); }) $(Some(pr.q(3)?))
        $(pr.multi(4)?)$$ $[str](a b  c)
        a1
        & $(for v2 in 0..pr.n(5, 4)? => $(if pr.b(6)? && pr.b(7)? { $(quoted(quote!($(ref o5 { o5.append(pr.q(8)?); o5.space(); o5.append(pr.q(9)?); })$(pr.multi(10)?))))$({ pr.mark(11)?; "blk" })  $$ }))$(for v6 in [pr.q(12)?, pr.q(13)?] { bar $(quoted(pr.q(14)?)) })$(ref o8 { o8.append(pr.q(15)?); o8.space(); o8.append(pr.q(16)?); })
    }
    Ok(())
}
fn model_119(m: &mut MV, pr: &Pr) -> Flow {
    m.lit(pr.q(1)?); sp(m); m.lit(pr.q(2)?);
    sp(m);
    m.lit(pr.q(3)?);
    tp(m);
    pr.mmulti(4, m)?;
    l(m, "$");
    sp(m);
    qs(m, "a b  c");
    tp(m);
    l(m, "a1");
    tp(m);
    l(m, "&");
    sp(m);
    {
    let mut it3 = 0..pr.n(5, 4)?;
    let mut step = || -> Flow<Option<u64>> { Ok(it3.next()) };
    while let Some(v2) = step()? {
    if pr.b(6)? && pr.b(7)? {
    let mut s4 = MStream::<()>::default();
    {
    let m = &mut s4;
    m.lit(pr.q(8)?); sp(m); m.lit(pr.q(9)?);
    pr.mmulti(10, m)?;
    }
    oq(m, false);
    m.add_all(&s4.items);
    cq(m);
    pr.mark(11)?; l(m, "blk");
    sp(m);
    l(m, "$");
    }
    }
    }
    {
    let mut it7 = [pr.q(12)?, pr.q(13)?].into_iter();
    let mut step = || -> Flow<Option<String>> { Ok(it7.next()) };
    while let Some(v6) = step()? {
    l(m, "bar");
    sp(m);
    { let x = pr.q(14)?; oq(m, false); m.lit(x); cq(m); }
    }
    }
    m.lit(pr.q(15)?); sp(m); m.lit(pr.q(16)?);
    Ok(())
}
fn real_120<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $({ pr.mark(1)?; "blk" })$(let v1 = pr.q(2)?) $(match (pr.b(3)?, pr.n(4, 3)?) {
            (true, 0) => ( $(vec![pr.q(6)?, pr.q(7)?])$[str](plain)bar       ),
            _ if pr.b(5)? => $(for _ in pr.it(8)? join (, ) { x }) $v1,
            _ => $(from_fn(|t| { t.append(pr.c(12)); t.space(); t.append(pr.c(13)); })) {$(from_fn(|t| { t.append(pr.c(14)); t.space(); t.append(pr.c(15)); })), $(let mut v7 = pr.q(16)?)},
        })
        $(Some(pr.q(17)?))	$(if let Some(v8) = pr.opt(18)? =>
            $(&pr.q(20)?))
    }
    Ok(())
}
fn model_120(m: &mut MV, pr: &Pr) -> Flow {
    pr.mark(1)?; l(m, "blk");
    let v1 = pr.q(2)?;
    sp(m);
    match (pr.b(3)?, pr.n(4, 3)?) {
    (true, 0) => {
    sp(m);
    { let x = pr.q(6)?; let y = pr.q(7)?; m.lit(x); m.lit(y); }
    qs(m, "plain");
    l(m, "bar");
    sp(m);
    }
    _ if pr.b(5)? => {
    {
    let mut it4 = pr.it(8)?;
    let mut step = || -> Flow<Option<String>> { it4.step() };
    let mut next = step()?;
    while let Some(_) = next {
    {
    l(m, "x");
    }
    next = step()?;
    if next.is_some() {
    {
    l(m, ",");
    sp(m);
    }
    }
    }
    }
    sp(m);
    m.lit(v1);
    }
    _ => {
    m.lit(pr.mc(12)?); sp(m); m.lit(pr.mc(13)?);
    sp(m);
    l(m, "{");
    m.lit(pr.mc(14)?); sp(m); m.lit(pr.mc(15)?);
    l(m, ",");
    sp(m);
    let mut v7 = pr.q(16)?;
    l(m, "}");
    }
    }
    tp(m);
    m.lit(pr.q(17)?);
    sp(m);
    if let Some(v8) = pr.opt(18)? {
    m.lit(pr.q(20)?);
    }
    Ok(())
}
fn real_121<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(pr.opt(1)?) $(ref _ { pr.mark(2)?; })
        $(display(pr.n(3, 9)?))
        $(quote!($(for _ in pr.it(4)? join ($(ref o4 => quote_in!(*o4 => $(quoted(quote!($$ $({ pr.mark(6)?; "blk" })$(pr.c(7)))))$(ref _ => if pr.rare(8)? { return Err(Left::Return); }) =))  ) => $(ref _ => if pr.b(9)? { pr.mark(10)?; })/**/{$[str](1 + 2) $(pr.opt(11)?)$(let (v6, v7) = (pr.q(12)?, pr.n(13, 9)?))})))
        bar$(for (i10, v8) in pr.it(14)?.enumerate() join ( $(format!("<{}>", pr.q(15)?)) ) {}) $(ref _ { pr.mark(16)?; }) $(for v11 in pr.it(17)? {})
    }
    Ok(())
}
fn model_121(m: &mut MV, pr: &Pr) -> Flow {
    if let Some(x) = pr.opt(1)? { m.lit(x); }
    sp(m);
    pr.mark(2)?;
    tp(m);
    m.lit(pr.n(3, 9)?.to_string());
    tp(m);
    let mut s1 = MStream::<()>::default();
    {
    let m = &mut s1;
    {
    let mut it3 = pr.it(4)?;
    let mut step = || -> Flow<Option<String>> { it3.step() };
    let mut next = step()?;
    while let Some(_) = next {
    {
    if pr.b(9)? { pr.mark(10)?; }
    sp(m);
    l(m, "{");
    qs(m, "1 + 2");
    sp(m);
    if let Some(x) = pr.opt(11)? { m.lit(x); }
    let (v6, v7) = (pr.q(12)?, pr.n(13, 9)?);
    l(m, "}");
    }
    next = step()?;
    if next.is_some() {
    {
    {
    let mut s5 = MStream::<()>::default();
    {
    let m = &mut s5;
    l(m, "$");
    sp(m);
    pr.mark(6)?; l(m, "blk");
    m.lit(pr.mc(7)?);
    }
    oq(m, false);
    m.add_all(&s5.items);
    cq(m);
    if pr.rare(8)? { return Err(Left::Return); }
    sp(m);
    l(m, "=");
    }
    sp(m);
    }
    }
    }
    }
    }
    m.add_all(&s1.items);
    tp(m);
    l(m, "bar");
    {
    let mut it9 = pr.it(14)?;
    let mut at = 0u64;
    let mut step = || -> Flow<Option<(u64, String)>> { let x = it9.step()?; at += 1; Ok(x.map(|x| (at - 1, x))) };
    let mut next = step()?;
    while let Some((i10, v8)) = next {
    {
    }
    next = step()?;
    if next.is_some() {
    {
    sp(m);
    m.lit(format!("<{}>", pr.q(15)?));
    sp(m);
    }
    }
    }
    }
    sp(m);
    pr.mark(16)?;
    sp(m);
    {
    let mut it12 = pr.it(17)?;
    let mut step = || -> Flow<Option<String>> { it12.step() };
    while let Some(v11) = step()? {
    }
    }
    Ok(())
}
fn real_122<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $['\r']

            $(let v1 = pr.q(1)?)/**/$(quoted(quote! {
                $(if pr.b(2)? && pr.b(3)? { $(let mut v3 = pr.q(4)?)$(&pr.q(5)?)  $(for v4 in pr.it(6)? {}) } else {
                    $(match (pr.b(7)?, pr.n(8, 3)?) { (true, 0) => ($(match (pr.b(10)?, pr.n(11, 3)?) { (true, 0) => ($(pr.opt(13)?)$(from_fn(|t| { t.append(pr.c(14)); t.space(); t.append(pr.c(15)); })) ), _ if pr.b(12)? => $(pr.multi(16)?)$({ if pr.b(17)? { "t" } else { "f" } }) $(&pr.q(18)?) ( nameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameame$(from_fn(|t| { t.append(pr.c(19)); t.space(); t.append(pr.c(20)); }))=>, foo identifier_identifier_identifier_identifier_end), _ => { $(Some(pr.q(21)?))$(pr.q(22)?) + } }) /* between */ ), (false, v6) if v6 < 2 && pr.b(9)? => $v1 [a1$(display(pr.n(23, 9)?)), "q\"uote" a1], (_, 1) | (true, _) => $(pr.opt(26)?), _ => (/**/$[str](one)"q\"uote" $(pr.opt(27)?) ) }) // note
                    
                    
                    
                    
                    $(let v8 = pr.q(28)?)       $(&v8) bar [
                    ]
                })
                $(ref _ => if pr.rare(29)? { return Err(Left::Return); }) {
                }
            }))$(format!("<{}>", pr.q(30)?))$(ref _ => if pr.b(31)? { pr.mark(32)?; })
            $(pr.q(33)?.as_str()) $(let v9 = pr.q(34)?)$(let v10 = pr.q(35)?)       {
            }
    }
    Ok(())
}
fn model_122(m: &mut MV, pr: &Pr) -> Flow {
    p(m);
    tind(m);
    tln(m);
    let v1 = pr.q(1)?;
    sp(m);
    let mut s2 = MStream::<()>::default();
    {
    let m = &mut s2;
    if pr.b(2)? && pr.b(3)? {
    let mut v3 = pr.q(4)?;
    m.lit(pr.q(5)?);
    sp(m);
    {
    let mut it5 = pr.it(6)?;
    let mut step = || -> Flow<Option<String>> { it5.step() };
    while let Some(v4) = step()? {
    }
    }
    } else {
    match (pr.b(7)?, pr.n(8, 3)?) {
    (true, 0) => {
    match (pr.b(10)?, pr.n(11, 3)?) {
    (true, 0) => {
    if let Some(x) = pr.opt(13)? { m.lit(x); }
    m.lit(pr.mc(14)?); sp(m); m.lit(pr.mc(15)?);
    sp(m);
    }
    _ if pr.b(12)? => {
    pr.mmulti(16, m)?;
    l(m, if pr.b(17)? { "t" } else { "f" });
    sp(m);
    m.lit(pr.q(18)?);
    sp(m);
    l(m, "(");
    sp(m);
    l(m, "nameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameame");
    m.lit(pr.mc(19)?); sp(m); m.lit(pr.mc(20)?);
    l(m, "=>");
    l(m, ",");
    sp(m);
    l(m, "foo");
    sp(m);
    l(m, "identifier_identifier_identifier_identifier_end");
    l(m, ")");
    }
    _ => {
    m.lit(pr.q(21)?);
    m.lit(pr.q(22)?);
    sp(m);
    l(m, "+");
    }
    }
    sp(m);
    }
    (false, v6) if v6 < 2 && pr.b(9)? => {
    m.lit(v1);
    sp(m);
    l(m, "[");
    l(m, "a1");
    m.lit(pr.n(23, 9)?.to_string());
    l(m, ",");
    sp(m);
    qs(m, "q\"uote");
    sp(m);
    l(m, "a1");
    l(m, "]");
    }
    (_, 1) | (true, _) => {
    if let Some(x) = pr.opt(26)? { m.lit(x); }
    }
    _ => {
    sp(m);
    oq(m, false);
    l(m, "one");
    cq(m);
    qs(m, "q\"uote");
    sp(m);
    if let Some(x) = pr.opt(27)? { m.lit(x); }
    sp(m);
    }
    }
    tln(m);
    let v8 = pr.q(28)?;
    sp(m);
    m.lit(v8.clone());
    sp(m);
    l(m, "bar");
    sp(m);
    l(m, "[");
    tp(m);
    l(m, "]");
    }
    tp(m);
    if pr.rare(29)? { return Err(Left::Return); }
    sp(m);
    l(m, "{");
    tp(m);
    l(m, "}");
    }
    oq(m, false);
    m.add_all(&s2.items);
    cq(m);
    m.lit(format!("<{}>", pr.q(30)?));
    if pr.b(31)? { pr.mark(32)?; }
    tp(m);
    m.lit(pr.q(33)?);
    sp(m);
    let v9 = pr.q(34)?;
    let v10 = pr.q(35)?;
    sp(m);
    l(m, "{");
    tp(m);
    l(m, "}");
    tend(m);
    Ok(())
}
fn real_123<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $({ pr.mark(1)?; "blk" })

            $(match pr.n(2, 12)? { v1 if v1 == 0 && pr.b(3)? => { _y$(pr.opt(8)?) } 1 if pr.b(4)? => $(format!("<{}>", pr.q(9)?))$(pr.q(10)?.as_str()) $$, 2 | 22 => "two words" || [Self$(pr.c(11)) größe, $$ nameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameame], 3 if pr.b(5)? => & $({ pr.mark(12)?; "blk" }), 4 => { 1_000u64 $(ref o2 { o2.append(pr.q(13)?); o2.space(); o2.append(pr.q(14)?); }) $(ref _ => if pr.rare(15)? { return Err(Left::Return); }) }, 5 => ($(let v3 = pr.q(16)?) ), 6 | 26 => { $(ref o4 { o4.append(pr.q(17)?); o4.space(); o4.append(pr.q(18)?); }) }, 7 if pr.b(6)? => $(pr.multi(19)?), 8 if pr.b(7)? => ($(pr.c(20))'c'), 9 => ( _y$(pr.q(21)?.as_str()).), _ => ( $(Some(pr.q(22)?))"lit" $$ ) })while
    }
    Ok(())
}
fn model_123(m: &mut MV, pr: &Pr) -> Flow {
    pr.mark(1)?; l(m, "blk");
    tind(m);
    tln(m);
    match pr.n(2, 12)? {
    v1 if v1 == 0 && pr.b(3)? => {
    l(m, "_y");
    if let Some(x) = pr.opt(8)? { m.lit(x); }
    }
    1 if pr.b(4)? => {
    m.lit(format!("<{}>", pr.q(9)?));
    m.lit(pr.q(10)?);
    sp(m);
    l(m, "$");
    }
    2 | 22 => {
    qs(m, "two words");
    sp(m);
    l(m, "||");
    sp(m);
    l(m, "[");
    l(m, "Self");
    m.lit(pr.mc(11)?);
    sp(m);
    l(m, "größe");
    l(m, ",");
    sp(m);
    l(m, "$");
    sp(m);
    l(m, "nameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameame");
    l(m, "]");
    }
    3 if pr.b(5)? => {
    l(m, "&");
    sp(m);
    pr.mark(12)?; l(m, "blk");
    }
    4 => {
    l(m, "1_000u64");
    sp(m);
    m.lit(pr.q(13)?); sp(m); m.lit(pr.q(14)?);
    sp(m);
    if pr.rare(15)? { return Err(Left::Return); }
    }
    5 => {
    let v3 = pr.q(16)?;
    sp(m);
    }
    6 | 26 => {
    m.lit(pr.q(17)?); sp(m); m.lit(pr.q(18)?);
    }
    7 if pr.b(6)? => {
    pr.mmulti(19, m)?;
    }
    8 if pr.b(7)? => {
    m.lit(pr.mc(20)?);
    l(m, "'c'");
    }
    9 => {
    sp(m);
    l(m, "_y");
    m.lit(pr.q(21)?);
    l(m, ".");
    }
    _ => {
    sp(m);
    m.lit(pr.q(22)?);
    qs(m, "lit");
    sp(m);
    l(m, "$");
    sp(m);
    }
    }
    l(m, "while");
    tend(m);
    Ok(())
}
fn real_124<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $$	$(if pr.b(1)? {
            0x1F x$(Some(pr.q(2)?))
            $(ref o1 => quote_in!(*o1 => $['\n'] $(pr.n(4, 9)?)))$(if let (Some(v2), _) = (pr.opt(5)?, pr.b(6)?) => $(pr.q(7)?.as_str()))$(ref o3 {
                for _ in 0..pr.n(8, 3)? {
                    quote_in! { *o3 =>
                        {$[str](plain)_y $(for v4 in pr.it(9)?.filter(|_| pr.cb(10)) {
                            "two words"	$(pr.multi(11)?) /* between */ ::
                            .$(quoted(pr.q(12)?)) /* between */ $({ pr.mark(13)?; "blk" })_y
                        })/**/$(for v6 in pr.it(14)? { $({ pr.mark(15)?; "blk" }) $(pr.q(16)?)while })}
                    }
                    o3.line();
                }
            })
        }) [


        // between

        ]
    }
    Ok(())
}
fn model_124(m: &mut MV, pr: &Pr) -> Flow {
    l(m, "$");
    sp(m);
    if pr.b(1)? {
    l(m, "0x1F");
    sp(m);
    l(m, "x");
    m.lit(pr.q(2)?);
    tp(m);
    {
    ln(m);
    sp(m);
    m.lit(pr.n(4, 9)?.to_string());
    }
    if let (Some(v2), _) = (pr.opt(5)?, pr.b(6)?) {
    m.lit(pr.q(7)?);
    }
    for _ in 0..pr.n(8, 3)? {
    l(m, "{");
    qs(m, "plain");
    l(m, "_y");
    sp(m);
    {
    let mut it5 = pr.it(9)?;
    let mut step = || -> Flow<Option<String>> { while let Some(x) = it5.step()? { if pr.mcb(10)? { return Ok(Some(x)); } } Ok(None) };
    while let Some(v4) = step()? {
    qs(m, "two words");
    sp(m);
    pr.mmulti(11, m)?;
    sp(m);
    l(m, "::");
    tp(m);
    l(m, ".");
    { let x = pr.q(12)?; oq(m, false); m.lit(x); cq(m); }
    sp(m);
    pr.mark(13)?; l(m, "blk");
    l(m, "_y");
    }
    }
    sp(m);
    {
    let mut it7 = pr.it(14)?;
    let mut step = || -> Flow<Option<String>> { it7.step() };
    while let Some(v6) = step()? {
    pr.mark(15)?; l(m, "blk");
    sp(m);
    m.lit(pr.q(16)?);
    l(m, "while");
    }
    }
    l(m, "}");
    ln(m);
    }
    }
    sp(m);
    l(m, "[");
    tln(m);
    l(m, "]");
    Ok(())
}
fn real_125<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(let mut v1 = pr.q(1)?)$(match pr.q(2)? {
            v2 => $(quote!($(let v4 = pr.n(3, 9)?)	$(for v5 in 0..pr.n(4, 4)? => Self$(match pr.n(5, 5)? { 0 if pr.b(6)? => { $(display(pr.n(8, 9)?)) }, 1 if pr.b(7)? => { :: Self$(pr.q(9)?) } v7 => { bar/**/$$ $(vec![pr.q(10)?, pr.q(11)?]) }, })))) ($[str]($[const]("con st")- two$[const](pr.q(12)?)$[const]("con st")$[const](pr.q(13)?)one$($(quote!(while))$(match (pr.b(14)?, pr.n(15, 3)?) { (true, 0) => $(vec![pr.q(17)?, pr.q(18)?])$(Some(pr.q(19)?)) $(from_fn(|t| { t.append(pr.c(20)); t.space(); t.append(pr.c(21)); })), (false, v9) if v9 < 2 && pr.b(16)? => {} _ => { $(format!("<{}>", pr.q(22)?))$(&pr.q(23)?)_y }, }))$[const](pr.q(24)?)$[const]("con st")$($(if pr.b(25)? => x$(display(pr.n(26, 9)?))$$)$(ref o10 => quote_in!(*o10 => ..=7))))1_000u64$(" lead"), $(pr.opt(28)?) [$(let v11 = pr.q(29)?)$(ref o12 {
                for _ in 0..pr.n(30, 3)? {
                    quote_in! { *o12 =>
                        $({ if pr.b(31)? { "t" } else { "f" } })while	$$ [
                            Self x
                            $(pr.c(32))/**/$(pr.opt(33)?)while$(&pr.q(34)?)	$(format!("<{}>", pr.q(35)?))
                        ]
                    }
                    o12.line();
                }
            })$(pr.q(36)?){$(Some(pr.q(37)?))"two words"$(pr.multi(38)?)} /* between */ ])
        })$(from_fn(|t| { t.append(pr.c(39)); t.space(); t.append(pr.c(40)); }))
    }
    Ok(())
}
fn model_125(m: &mut MV, pr: &Pr) -> Flow {
    let mut v1 = pr.q(1)?;
    match pr.q(2)? {
    v2 => {
    let mut s3 = MStream::<()>::default();
    {
    let m = &mut s3;
    let v4 = pr.n(3, 9)?;
    sp(m);
    {
    let mut it6 = 0..pr.n(4, 4)?;
    let mut step = || -> Flow<Option<u64>> { Ok(it6.next()) };
    while let Some(v5) = step()? {
    l(m, "Self");
    match pr.n(5, 5)? {
    0 if pr.b(6)? => {
    m.lit(pr.n(8, 9)?.to_string());
    }
    1 if pr.b(7)? => {
    l(m, "::");
    sp(m);
    l(m, "Self");
    m.lit(pr.q(9)?);
    }
    v7 => {
    l(m, "bar");
    sp(m);
    l(m, "$");
    sp(m);
    { let x = pr.q(10)?; let y = pr.q(11)?; m.lit(x); m.lit(y); }
    }
    }
    }
    }
    }
    m.add_all(&s3.items);
    sp(m);
    l(m, "(");
    oq(m, true);
    l(m, "con st- two");
    m.lit(pr.q(12)?);
    l(m, "con st");
    m.lit(pr.q(13)?);
    l(m, "one");
    oe(m);
    {
    let mut s8 = MStream::<()>::default();
    {
    let m = &mut s8;
    l(m, "while");
    }
    m.add_all(&s8.items);
    match (pr.b(14)?, pr.n(15, 3)?) {
    (true, 0) => {
    { let x = pr.q(17)?; let y = pr.q(18)?; m.lit(x); m.lit(y); }
    m.lit(pr.q(19)?);
    sp(m);
    m.lit(pr.mc(20)?); sp(m); m.lit(pr.mc(21)?);
    }
    (false, v9) if v9 < 2 && pr.b(16)? => {
    }
    _ => {
    m.lit(format!("<{}>", pr.q(22)?));
    m.lit(pr.q(23)?);
    l(m, "_y");
    }
    }
    }
    ce(m);
    m.lit(pr.q(24)?);
    l(m, "con st");
    oe(m);
    {
    if pr.b(25)? {
    l(m, "x");
    m.lit(pr.n(26, 9)?.to_string());
    l(m, "$");
    }
    {
    l(m, "..=");
    l(m, "7");
    }
    }
    ce(m);
    cq(m);
    l(m, "1_000u64");
    l(m, " lead");
    l(m, ",");
    sp(m);
    if let Some(x) = pr.opt(28)? { m.lit(x); }
    sp(m);
    l(m, "[");
    let v11 = pr.q(29)?;
    for _ in 0..pr.n(30, 3)? {
    l(m, if pr.b(31)? { "t" } else { "f" });
    l(m, "while");
    sp(m);
    l(m, "$");
    sp(m);
    l(m, "[");
    tind(m);
    l(m, "Self");
    sp(m);
    l(m, "x");
    tp(m);
    m.lit(pr.mc(32)?);
    sp(m);
    if let Some(x) = pr.opt(33)? { m.lit(x); }
    l(m, "while");
    m.lit(pr.q(34)?);
    sp(m);
    m.lit(format!("<{}>", pr.q(35)?));
    tun(m);
    l(m, "]");
    ln(m);
    }
    m.lit(pr.q(36)?);
    l(m, "{");
    m.lit(pr.q(37)?);
    qs(m, "two words");
    pr.mmulti(38, m)?;
    l(m, "}");
    sp(m);
    l(m, "]");
    l(m, ")");
    }
    }
    m.lit(pr.mc(39)?); sp(m); m.lit(pr.mc(40)?);
    Ok(())
}
fn real_126<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        Self$(if pr.n(1, 3)? == 1 {
            $(if pr.n(2, 3)? == 1 =>
                $(ref o1 { if pr.rare(3)? { o1.append(pr.q(4)?); return Err(Left::Return); } })&       $(let v2 = pr.q(5)?)$(&pr.q(6)?)
                $(if pr.b(7)? || !pr.b(8)? => _y{       '\\'::  $(from_fn(|t| { t.append(pr.c(9)); t.space(); t.append(pr.c(10)); }))})$(pr.opt(11)?) $(ref o3 { if pr.rare(12)? { o3.append(pr.q(13)?); return Err(Left::Return); } }) /* between */ $[' ']
                    $(&pr.q(14)?) $(v2.as_str())$(let v4 = pr.q(15)?))
            .
        } else {
            $(if pr.b(16)? || !pr.b(17)? => $({ if pr.b(18)? { "t" } else { "f" } }) $(ref o5 { if pr.b(19)? { quote_in!(*o5 => $(pr.q(20)?)$(ref _ => if pr.rare(21)? { return Err(Left::Return); })); } o5.push(); }) $(quoted(quote!($(let v7 = pr.q(22)?)$(ref o8 { if pr.rare(23)? { o8.append(pr.q(24)?); return Err(Left::Return); } }))))) $(pr.opt(25)?)Self
        })
            $(if pr.b(26)? { r#type })$[str](two)

            $(let v9 = pr.q(27)?)       $(pr.c(28))
    }
    Ok(())
}
fn model_126(m: &mut MV, pr: &Pr) -> Flow {
    l(m, "Self");
    if pr.n(1, 3)? == 1 {
    if pr.n(2, 3)? == 1 {
    if pr.rare(3)? { m.lit(pr.q(4)?); return Err(Left::Return); }
    l(m, "&");
    sp(m);
    let v2 = pr.q(5)?;
    m.lit(pr.q(6)?);
    tp(m);
    if pr.b(7)? || !pr.b(8)? {
    l(m, "_y");
    l(m, "{");
    sp(m);
    l(m, "'\\\\'");
    l(m, "::");
    sp(m);
    m.lit(pr.mc(9)?); sp(m); m.lit(pr.mc(10)?);
    l(m, "}");
    }
    if let Some(x) = pr.opt(11)? { m.lit(x); }
    sp(m);
    if pr.rare(12)? { m.lit(pr.q(13)?); return Err(Left::Return); }
    sp(m);
    sp(m);
    tind(m);
    m.lit(pr.q(14)?);
    sp(m);
    m.lit(v2.clone());
    let v4 = pr.q(15)?;
    tend(m);
    }
    tp(m);
    l(m, ".");
    } else {
    if pr.b(16)? || !pr.b(17)? {
    l(m, if pr.b(18)? { "t" } else { "f" });
    sp(m);
    if pr.b(19)? {
    m.lit(pr.q(20)?);
    if pr.rare(21)? { return Err(Left::Return); }
    }
    p(m);
    sp(m);
    let mut s6 = MStream::<()>::default();
    {
    let m = &mut s6;
    let v7 = pr.q(22)?;
    if pr.rare(23)? { m.lit(pr.q(24)?); return Err(Left::Return); }
    }
    oq(m, false);
    m.add_all(&s6.items);
    cq(m);
    }
    sp(m);
    if let Some(x) = pr.opt(25)? { m.lit(x); }
    l(m, "Self");
    }
    tind(m);
    if pr.b(26)? {
    l(m, "r#type");
    }
    oq(m, false);
    l(m, "two");
    cq(m);
    tln(m);
    let v9 = pr.q(27)?;
    sp(m);
    m.lit(pr.mc(28)?);
    tend(m);
    Ok(())
}
fn real_127<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(&pr.q(1)?)
        $(&quote!($(match (pr.b(2)?, pr.n(3, 3)?) { (true, 0) => { "lit" } (_, 1) | (true, _) => { $(ref o3 => quote_in!(*o3 => $({ pr.mark(5)?; "blk" }))) }, _ => { $(quote!($(pr.q(6)?)$(from_fn(|t| { t.append(pr.c(7)); t.space(); t.append(pr.c(8)); })))) /* between */ while$(ref _ => if pr.rare(9)? { return Err(Left::Return); }) } })$(for (i7, v5) in pr.it(10)?.enumerate() join (, ) => $(ref _ => if pr.b(19)? { pr.mark(20)?; }) $(Some(pr.q(21)?))$i7))) foo$("ä")	(
        )
    }
    Ok(())
}
fn model_127(m: &mut MV, pr: &Pr) -> Flow {
    m.lit(pr.q(1)?);
    tp(m);
    let mut s1 = MStream::<()>::default();
    {
    let m = &mut s1;
    match (pr.b(2)?, pr.n(3, 3)?) {
    (true, 0) => {
    qs(m, "lit");
    }
    (_, 1) | (true, _) => {
    {
    pr.mark(5)?; l(m, "blk");
    }
    }
    _ => {
    let mut s4 = MStream::<()>::default();
    {
    let m = &mut s4;
    m.lit(pr.q(6)?);
    m.lit(pr.mc(7)?); sp(m); m.lit(pr.mc(8)?);
    }
    m.add_all(&s4.items);
    sp(m);
    l(m, "while");
    if pr.rare(9)? { return Err(Left::Return); }
    }
    }
    {
    let mut it6 = pr.it(10)?;
    let mut at = 0u64;
    let mut step = || -> Flow<Option<(u64, String)>> { let x = it6.step()?; at += 1; Ok(x.map(|x| (at - 1, x))) };
    let mut next = step()?;
    while let Some((i7, v5)) = next {
    {
    if pr.b(19)? { pr.mark(20)?; }
    sp(m);
    m.lit(pr.q(21)?);
    m.lit(i7.to_string());
    }
    next = step()?;
    if next.is_some() {
    {
    l(m, ",");
    sp(m);
    }
    }
    }
    }
    }
    m.add_all(&s1.items);
    sp(m);
    l(m, "foo");
    l(m, "ä");
    sp(m);
    l(m, "(");
    tp(m);
    l(m, ")");
    Ok(())
}
fn real_128<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(match (pr.b(1)?, pr.q(2)?) { (_, v1) => $(for v2 in 0..pr.n(3, 4)? => [$(let v4 = pr.q(4)?)$("ver batim")$(v1.as_str())]$(quoted(quote!(identifier_identifier_identifier_identifier_end))))  $(for (i8, v6) in pr.it(5)?.enumerate() { $(let v9 = pr.q(6)?) }) $(display(pr.n(7, 9)?)) })$("ver batim")
        $(vec![pr.q(8)?, pr.q(9)?])
        $(ref o10 { if pr.b(10)? { quote_in!(*o10 => $(let v11 = pr.q(11)?)); } o10.push(); })$({ if pr.b(12)? { "t" } else { "f" } })identifier_identifier_identifier_identifier_end
        $(if pr.n(13, 3)? == 1 { $(for v12 in pr.it(14)?.filter(|_| pr.cb(15)) join (, ) {}) }) $(for v14 in pr.opt(17)? { $(for v16 in pr.it(18)? join ($(ref o18 { o18.append(pr.q(19)?); o18.space(); o18.append(pr.q(20)?); }) ) { $(pr.q(21)?)$$ }) })$(let v19 = pr.n(22, 9)?)$(ref _ => if pr.rare(23)? { return Err(Left::Return); })
    }
    Ok(())
}
fn model_128(m: &mut MV, pr: &Pr) -> Flow {
    match (pr.b(1)?, pr.q(2)?) {
    (_, v1) => {
    {
    let mut it3 = 0..pr.n(3, 4)?;
    let mut step = || -> Flow<Option<u64>> { Ok(it3.next()) };
    while let Some(v2) = step()? {
    l(m, "[");
    let v4 = pr.q(4)?;
    l(m, "ver batim");
    m.lit(v1.clone());
    l(m, "]");
    let mut s5 = MStream::<()>::default();
    {
    let m = &mut s5;
    l(m, "identifier_identifier_identifier_identifier_end");
    }
    oq(m, false);
    m.add_all(&s5.items);
    cq(m);
    }
    }
    sp(m);
    {
    let mut it7 = pr.it(5)?;
    let mut at = 0u64;
    let mut step = || -> Flow<Option<(u64, String)>> { let x = it7.step()?; at += 1; Ok(x.map(|x| (at - 1, x))) };
    while let Some((i8, v6)) = step()? {
    let v9 = pr.q(6)?;
    }
    }
    sp(m);
    m.lit(pr.n(7, 9)?.to_string());
    }
    }
    l(m, "ver batim");
    tp(m);
    { let x = pr.q(8)?; let y = pr.q(9)?; m.lit(x); m.lit(y); }
    tp(m);
    if pr.b(10)? {
    let v11 = pr.q(11)?;
    }
    p(m);
    l(m, if pr.b(12)? { "t" } else { "f" });
    l(m, "identifier_identifier_identifier_identifier_end");
    tp(m);
    if pr.n(13, 3)? == 1 {
    {
    let mut it13 = pr.it(14)?;
    let mut step = || -> Flow<Option<String>> { while let Some(x) = it13.step()? { if pr.mcb(15)? { return Ok(Some(x)); } } Ok(None) };
    let mut next = step()?;
    while let Some(v12) = next {
    {
    }
    next = step()?;
    if next.is_some() {
    {
    l(m, ",");
    sp(m);
    }
    }
    }
    }
    }
    sp(m);
    {
    let mut it15 = pr.opt(17)?.into_iter();
    let mut step = || -> Flow<Option<String>> { Ok(it15.next()) };
    while let Some(v14) = step()? {
    {
    let mut it17 = pr.it(18)?;
    let mut step = || -> Flow<Option<String>> { it17.step() };
    let mut next = step()?;
    while let Some(v16) = next {
    {
    m.lit(pr.q(21)?);
    l(m, "$");
    }
    next = step()?;
    if next.is_some() {
    {
    m.lit(pr.q(19)?); sp(m); m.lit(pr.q(20)?);
    sp(m);
    }
    }
    }
    }
    }
    }
    let v19 = pr.n(22, 9)?;
    if pr.rare(23)? { return Err(Left::Return); }
    Ok(())
}
fn real_129<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(" lead") /* between */ $(pr.q(1)?.as_str())

        // between


        []/**/$(match pr.opt(2)? {
            Some(v1) if v1.is_empty() || pr.b(3)? => {
                $(from_fn(|t| { t.append(pr.c(4)); t.space(); t.append(pr.c(5)); }))$(match pr.opt(6)? { Some(v4) => (  $(&v1) /* between */ $(ref _ { pr.mark(7)?; }) $(display(pr.n(8, 9)?))), _ => $(" lead") {$(if let Some(v5) = pr.opt(9)? { "two words" ; $(display(pr.n(11, 9)?)) } else { $(quoted(pr.q(12)?)) }), $(if let (Some(v6), _) = (pr.opt(13)?, pr.b(14)?) { $({ pr.mark(15)?; "blk" }) }) $(match pr.n(16, 9)? { v7 => ($(quoted(pr.q(17)?)) ) })}, }) ?
                        $(match (pr.b(18)?, pr.q(19)?) { (_, v8) => ( $("ä") $(match (pr.b(20)?, pr.q(21)?) { (_, v9) => { $(for v10 in pr.opt(22)? => ... $(from_fn(|t| { t.append(pr.c(23)); t.space(); t.append(pr.c(24)); })) nameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameame)  $(quote!($(pr.q(25)?) 0x1F)) } })/**/), })
            }
            Some(v2) => { $v2$({ if pr.b(26)? { "t" } else { "f" } }) }
            None => ($[str]($[const](pr.q(27)?)$(1_000u64$(quoted(quote!($(pr.multi(28)?)	"lit" $(quote!($(pr.multi(29)?)  $({ if pr.b(30)? { "t" } else { "f" } }))))))$(let mut v15 = pr.q(31)?))$[const](pr.q(32)?))$(if let (Some(v16), _) = (pr.opt(33)?, pr.b(34)?) { $(let v17 = pr.q(35)?) })$(&pr.q(36)?)),
        })
        $(&pr.q(37)?) foo
    }
    Ok(())
}
fn model_129(m: &mut MV, pr: &Pr) -> Flow {
    l(m, " lead");
    sp(m);
    m.lit(pr.q(1)?);
    tln(m);
    l(m, "[]");
    sp(m);
    match pr.opt(2)? {
    Some(v1) if v1.is_empty() || pr.b(3)? => {
    m.lit(pr.mc(4)?); sp(m); m.lit(pr.mc(5)?);
    match pr.opt(6)? {
    Some(v4) => {
    sp(m);
    m.lit(v1.clone());
    sp(m);
    pr.mark(7)?;
    sp(m);
    m.lit(pr.n(8, 9)?.to_string());
    }
    _ => {
    l(m, " lead");
    sp(m);
    l(m, "{");
    if let Some(v5) = pr.opt(9)? {
    qs(m, "two words");
    sp(m);
    l(m, ";");
    sp(m);
    m.lit(pr.n(11, 9)?.to_string());
    } else {
    { let x = pr.q(12)?; oq(m, false); m.lit(x); cq(m); }
    }
    l(m, ",");
    sp(m);
    if let (Some(v6), _) = (pr.opt(13)?, pr.b(14)?) {
    pr.mark(15)?; l(m, "blk");
    }
    sp(m);
    match pr.n(16, 9)? {
    v7 => {
    { let x = pr.q(17)?; oq(m, false); m.lit(x); cq(m); }
    sp(m);
    }
    }
    l(m, "}");
    }
    }
    sp(m);
    l(m, "?");
    tind(m);
    match (pr.b(18)?, pr.q(19)?) {
    (_, v8) => {
    sp(m);
    l(m, "ä");
    sp(m);
    match (pr.b(20)?, pr.q(21)?) {
    (_, v9) => {
    {
    let mut it11 = pr.opt(22)?.into_iter();
    let mut step = || -> Flow<Option<String>> { Ok(it11.next()) };
    while let Some(v10) = step()? {
    l(m, "...");
    sp(m);
    m.lit(pr.mc(23)?); sp(m); m.lit(pr.mc(24)?);
    sp(m);
    l(m, "nameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameame");
    }
    }
    sp(m);
    let mut s12 = MStream::<()>::default();
    {
    let m = &mut s12;
    m.lit(pr.q(25)?);
    sp(m);
    l(m, "0x1F");
    }
    m.add_all(&s12.items);
    }
    }
    sp(m);
    }
    }
    tend(m);
    }
    Some(v2) => {
    m.lit(v2);
    l(m, if pr.b(26)? { "t" } else { "f" });
    }
    None => {
    oq(m, true);
    m.lit(pr.q(27)?);
    oe(m);
    {
    l(m, "1_000u64");
    let mut s13 = MStream::<()>::default();
    {
    let m = &mut s13;
    pr.mmulti(28, m)?;
    sp(m);
    qs(m, "lit");
    sp(m);
    let mut s14 = MStream::<()>::default();
    {
    let m = &mut s14;
    pr.mmulti(29, m)?;
    sp(m);
    l(m, if pr.b(30)? { "t" } else { "f" });
    }
    m.add_all(&s14.items);
    }
    oq(m, false);
    m.add_all(&s13.items);
    cq(m);
    let mut v15 = pr.q(31)?;
    }
    ce(m);
    m.lit(pr.q(32)?);
    cq(m);
    if let (Some(v16), _) = (pr.opt(33)?, pr.b(34)?) {
    let v17 = pr.q(35)?;
    }
    m.lit(pr.q(36)?);
    }
    }
    tp(m);
    m.lit(pr.q(37)?);
    sp(m);
    l(m, "foo");
    Ok(())
}
fn real_130<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(ref o1 { o1.append(pr.q(1)?); o1.space(); o1.append(pr.q(2)?); })$(from_fn(|t| { t.append(pr.c(3)); t.space(); t.append(pr.c(4)); }))[$(pr.q(5)?) $[str](three$[const]("con st") $$ $($({ if pr.b(6)? { "t" } else { "f" } }) $(pr.n(7, 9)?)$(display(pr.n(8, 9)?))))] $(pr.n(9, 9)?)$({ pr.mark(10)?; "blk" })// note
        $(ref _ => if pr.rare(11)? { return Err(Left::Return); })$(quoted(quote!($("ä")))) $("ä") $(ref o3 { if pr.rare(12)? { o3.append(pr.q(13)?); return Err(Left::Return); } })
    }
    Ok(())
}
fn model_130(m: &mut MV, pr: &Pr) -> Flow {
    m.lit(pr.q(1)?); sp(m); m.lit(pr.q(2)?);
    m.lit(pr.mc(3)?); sp(m); m.lit(pr.mc(4)?);
    l(m, "[");
    m.lit(pr.q(5)?);
    sp(m);
    oq(m, true);
    l(m, "threecon st $ ");
    oe(m);
    {
    l(m, if pr.b(6)? { "t" } else { "f" });
    sp(m);
    m.lit(pr.n(7, 9)?.to_string());
    m.lit(pr.n(8, 9)?.to_string());
    }
    ce(m);
    cq(m);
    l(m, "]");
    sp(m);
    m.lit(pr.n(9, 9)?.to_string());
    pr.mark(10)?; l(m, "blk");
    tp(m);
    if pr.rare(11)? { return Err(Left::Return); }
    let mut s2 = MStream::<()>::default();
    {
    let m = &mut s2;
    l(m, "ä");
    }
    oq(m, false);
    m.add_all(&s2.items);
    cq(m);
    sp(m);
    l(m, "ä");
    sp(m);
    if pr.rare(12)? { m.lit(pr.q(13)?); return Err(Left::Return); }
    Ok(())
}
fn real_131<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(pr.q(1)?) $(for (i3, v1) in pr.it(2)?.enumerate() => $(let mut v4 = pr.q(3)?)) $(match pr.b(4)? {
            true | false => $(ref _ => if pr.b(5)? { pr.mark(6)?; })$[str](1 + 2)
        })
        $("ä")$(match pr.n(7, 9)? {
            0 => ($(format!("<{}>", pr.q(12)?))foo ),
            v6 if v6 == 1 && pr.b(8)? => ($(from_fn(|t| { t.append(pr.c(13)); t.space(); t.append(pr.c(14)); })) ),
            2 => {
                "q\"uote"$({ pr.mark(15)?; "blk" })
                    _y /* between */ bar       {
                    }
                $(quoted(pr.q(16)?))$({ pr.mark(17)?; "blk" })
            }
            3 if pr.b(9)? => 'c' _y ($({ pr.mark(18)?; "blk" }) ;/**/$(pr.q(19)?.as_str()), a1  $(pr.multi(20)?)),
            4 => {}
            5 if pr.b(10)? => $(quote!($(for v8 in pr.it(21)?.filter(|_| pr.cb(22)) join (  $(ref _ => if pr.rare(23)? { return Err(Left::Return); })) => $[str](- three$name-$name- three$($$)$[const]("con st")-$[const]("con st")))$("ver batim")))	$(pr.q(24)?),
            6 if pr.b(11)? => r#type bar,
            _ => { $(Some(pr.q(25)?)) $(Some(pr.q(26)?)) }
        }) $(match pr.n(27, 9)? {
            v10 => (a1/**/"q\"uote"       .),
        })
    }
    Ok(())
}
fn model_131(m: &mut MV, pr: &Pr) -> Flow {
    m.lit(pr.q(1)?);
    sp(m);
    {
    let mut it2 = pr.it(2)?;
    let mut at = 0u64;
    let mut step = || -> Flow<Option<(u64, String)>> { let x = it2.step()?; at += 1; Ok(x.map(|x| (at - 1, x))) };
    while let Some((i3, v1)) = step()? {
    let mut v4 = pr.q(3)?;
    }
    }
    sp(m);
    match pr.b(4)? {
    true | false => {
    if pr.b(5)? { pr.mark(6)?; }
    qs(m, "1 + 2");
    }
    }
    tp(m);
    l(m, "ä");
    match pr.n(7, 9)? {
    0 => {
    m.lit(format!("<{}>", pr.q(12)?));
    l(m, "foo");
    sp(m);
    }
    v6 if v6 == 1 && pr.b(8)? => {
    m.lit(pr.mc(13)?); sp(m); m.lit(pr.mc(14)?);
    sp(m);
    }
    2 => {
    qs(m, "q\"uote");
    pr.mark(15)?; l(m, "blk");
    tind(m);
    l(m, "_y");
    sp(m);
    l(m, "bar");
    sp(m);
    l(m, "{");
    tp(m);
    l(m, "}");
    tun(m);
    { let x = pr.q(16)?; oq(m, false); m.lit(x); cq(m); }
    pr.mark(17)?; l(m, "blk");
    }
    3 if pr.b(9)? => {
    l(m, "'c'");
    sp(m);
    l(m, "_y");
    sp(m);
    l(m, "(");
    pr.mark(18)?; l(m, "blk");
    sp(m);
    l(m, ";");
    sp(m);
    m.lit(pr.q(19)?);
    l(m, ",");
    sp(m);
    l(m, "a1");
    sp(m);
    pr.mmulti(20, m)?;
    l(m, ")");
    }
    4 => {
    }
    5 if pr.b(10)? => {
    let mut s7 = MStream::<()>::default();
    {
    let m = &mut s7;
    {
    let mut it9 = pr.it(21)?;
    let mut step = || -> Flow<Option<String>> { while let Some(x) = it9.step()? { if pr.mcb(22)? { return Ok(Some(x)); } } Ok(None) };
    let mut next = step()?;
    while let Some(v8) = next {
    {
    oq(m, true);
    l(m, "- three");
    oe(m);
    l(m, "name");
    ce(m);
    l(m, "-");
    oe(m);
    l(m, "name");
    ce(m);
    l(m, "- three");
    oe(m);
    {
    l(m, "$");
    }
    ce(m);
    l(m, "con st-con st");
    cq(m);
    }
    next = step()?;
    if next.is_some() {
    {
    sp(m);
    if pr.rare(23)? { return Err(Left::Return); }
    }
    }
    }
    }
    l(m, "ver batim");
    }
    m.add_all(&s7.items);
    sp(m);
    m.lit(pr.q(24)?);
    }
    6 if pr.b(11)? => {
    l(m, "r#type");
    sp(m);
    l(m, "bar");
    }
    _ => {
    m.lit(pr.q(25)?);
    sp(m);
    m.lit(pr.q(26)?);
    }
    }
    sp(m);
    match pr.n(27, 9)? {
    v10 => {
    l(m, "a1");
    sp(m);
    qs(m, "q\"uote");
    sp(m);
    l(m, ".");
    }
    }
    Ok(())
}
fn real_132<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(quote!($[str](a b  c)$(quote!($(ref _ => if pr.rare(1)? { return Err(Left::Return); }) /* between */ $(if pr.b(2)? { $(let v3 = pr.q(3)?)$(quote!($$))$(match pr.n(4, 9)? { v5 => ( x r#type) }) })$[str](plain))){ $(quote!($(match pr.opt(5)? { Some(v8) => $(pr.q(6)?.as_str()), None => { r#type +$(format!("<{}>", pr.q(7)?)) } }))) "lit"$({ pr.mark(8)?; "blk" }) $(pr.q(9)?)})) $(ref _ => if pr.rare(10)? { return Err(Left::Return); })	$(match (pr.b(11)?, pr.n(12, 3)?) {
            (true, 0) => .$$       $(pr.q(15)?) ([$(for (i12, v10) in pr.it(16)?.enumerate() {})$(quote!($(display(pr.n(17, 9)?))$(&pr.q(18)?)))Self$(quote!($(pr.multi(19)?))) ] a1$(for v15 in pr.it(20)? join ( $("ver batim") ) => a1$(v15.clone())/**/[bar 1.5]), while $("ä") ),
            (false, v9) if v9 < 2 && pr.b(13)? => (& ($(let v17 = pr.q(21)?) $(pr.q(22)?.as_str())$(match pr.opt(23)? { _ if pr.b(24)? => $(" lead"), Some(v19) => { $(match pr.opt(25)? { _ if pr.b(26)? => { $(Some(pr.q(27)?))foo }, Some(v21) => $(vec![pr.q(28)?, pr.q(29)?]) [ x, "two words"       ,], None => { $(pr.n(30, 9)?) /* between */ ; }, }) ; }, _ => (	"q\"uote" => ), })$(vec![pr.q(31)?, pr.q(32)?])) ),
            _ if pr.b(14)? => { Self },
            _ => .bar	while {  $$ "q\"uote"$(Some(pr.q(33)?)), 0x1F  }
        })
        // between


        // between
                   $(quoted(pr.q(34)?))  $(quoted(pr.q(35)?))while _y	a1       $(pr.q(36)?)foo +
    }
    Ok(())
}
fn model_132(m: &mut MV, pr: &Pr) -> Flow {
    let mut s1 = MStream::<()>::default();
    {
    let m = &mut s1;
    qs(m, "a b  c");
    let mut s2 = MStream::<()>::default();
    {
    let m = &mut s2;
    if pr.rare(1)? { return Err(Left::Return); }
    sp(m);
    if pr.b(2)? {
    let v3 = pr.q(3)?;
    let mut s4 = MStream::<()>::default();
    {
    let m = &mut s4;
    l(m, "$");
    }
    m.add_all(&s4.items);
    match pr.n(4, 9)? {
    v5 => {
    sp(m);
    l(m, "x");
    sp(m);
    l(m, "r#type");
    }
    }
    }
    qs(m, "plain");
    }
    m.add_all(&s2.items);
    l(m, "{");
    sp(m);
    let mut s6 = MStream::<()>::default();
    {
    let m = &mut s6;
    match pr.opt(5)? {
    Some(v8) => {
    m.lit(pr.q(6)?);
    }
    None => {
    l(m, "r#type");
    sp(m);
    l(m, "+");
    m.lit(format!("<{}>", pr.q(7)?));
    }
    }
    }
    m.add_all(&s6.items);
    sp(m);
    qs(m, "lit");
    pr.mark(8)?; l(m, "blk");
    sp(m);
    m.lit(pr.q(9)?);
    l(m, "}");
    }
    m.add_all(&s1.items);
    sp(m);
    if pr.rare(10)? { return Err(Left::Return); }
    sp(m);
    match (pr.b(11)?, pr.n(12, 3)?) {
    (true, 0) => {
    l(m, ".");
    l(m, "$");
    sp(m);
    m.lit(pr.q(15)?);
    sp(m);
    l(m, "(");
    l(m, "[");
    {
    let mut it11 = pr.it(16)?;
    let mut at = 0u64;
    let mut step = || -> Flow<Option<(u64, String)>> { let x = it11.step()?; at += 1; Ok(x.map(|x| (at - 1, x))) };
    while let Some((i12, v10)) = step()? {
    }
    }
    let mut s13 = MStream::<()>::default();
    {
    let m = &mut s13;
    m.lit(pr.n(17, 9)?.to_string());
    m.lit(pr.q(18)?);
    }
    m.add_all(&s13.items);
    l(m, "Self");
    let mut s14 = MStream::<()>::default();
    {
    let m = &mut s14;
    pr.mmulti(19, m)?;
    }
    m.add_all(&s14.items);
    sp(m);
    l(m, "]");
    sp(m);
    l(m, "a1");
    {
    let mut it16 = pr.it(20)?;
    let mut step = || -> Flow<Option<String>> { it16.step() };
    let mut next = step()?;
    while let Some(v15) = next {
    {
    l(m, "a1");
    m.lit(v15.clone());
    sp(m);
    l(m, "[");
    l(m, "bar");
    sp(m);
    l(m, "1.5");
    l(m, "]");
    }
    next = step()?;
    if next.is_some() {
    {
    sp(m);
    l(m, "ver batim");
    sp(m);
    }
    }
    }
    }
    l(m, ",");
    sp(m);
    l(m, "while");
    sp(m);
    l(m, "ä");
    sp(m);
    l(m, ")");
    }
    (false, v9) if v9 < 2 && pr.b(13)? => {
    l(m, "&");
    sp(m);
    l(m, "(");
    let v17 = pr.q(21)?;
    sp(m);
    m.lit(pr.q(22)?);
    match pr.opt(23)? {
    _ if pr.b(24)? => {
    l(m, " lead");
    }
    Some(v19) => {
    match pr.opt(25)? {
    _ if pr.b(26)? => {
    m.lit(pr.q(27)?);
    l(m, "foo");
    }
    Some(v21) => {
    { let x = pr.q(28)?; let y = pr.q(29)?; m.lit(x); m.lit(y); }
    sp(m);
    l(m, "[");
    sp(m);
    l(m, "x");
    l(m, ",");
    sp(m);
    qs(m, "two words");
    sp(m);
    l(m, ",");
    l(m, "]");
    }
    None => {
    m.lit(pr.n(30, 9)?.to_string());
    sp(m);
    l(m, ";");
    }
    }
    sp(m);
    l(m, ";");
    }
    _ => {
    sp(m);
    qs(m, "q\"uote");
    sp(m);
    l(m, "=>");
    sp(m);
    }
    }
    { let x = pr.q(31)?; let y = pr.q(32)?; m.lit(x); m.lit(y); }
    l(m, ")");
    sp(m);
    }
    _ if pr.b(14)? => {
    l(m, "Self");
    }
    _ => {
    l(m, ".");
    l(m, "bar");
    sp(m);
    l(m, "while");
    sp(m);
    l(m, "{");
    sp(m);
    l(m, "$");
    sp(m);
    qs(m, "q\"uote");
    m.lit(pr.q(33)?);
    l(m, ",");
    sp(m);
    l(m, "0x1F");
    sp(m);
    l(m, "}");
    }
    }
    tind(m);
    tln(m);
    { let x = pr.q(34)?; oq(m, false); m.lit(x); cq(m); }
    sp(m);
    { let x = pr.q(35)?; oq(m, false); m.lit(x); cq(m); }
    l(m, "while");
    sp(m);
    l(m, "_y");
    sp(m);
    l(m, "a1");
    sp(m);
    m.lit(pr.q(36)?);
    l(m, "foo");
    sp(m);
    l(m, "+");
    tend(m);
    Ok(())
}
fn real_133<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $[str](1 + 2)   
        // between
        $(for v1 in pr.it(1)? join ($(ref _ => if pr.rare(2)? { return Err(Left::Return); }) ) {
            $(let mut v3 = pr.q(3)?)
            
            
              [$(ref o4 { if pr.rare(4)? { o4.append(pr.q(5)?); break; } })$(if let (Some(v5), _) = (pr.opt(6)?, pr.b(7)?) {} else { $(quote! {
                  $(quoted(pr.q(8)?))/**/$(quoted(pr.q(9)?))/**/$(display(pr.n(10, 9)?)) /* between */ $({ if pr.b(11)? { "t" } else { "f" } })
                  +/**/|| ... [
                  ]
              }) })$(for v7 in pr.it(12)? {
                  while$(pr.multi(13)?)
              }) $(ref _ { pr.mark(14)?; })       ] $(for v9 in pr.it(15)? => "two words"{$(match (pr.b(16)?, pr.n(17, 3)?) {
                  (true, 0) => ($(quoted(pr.q(19)?))$(pr.q(20)?.as_str())	while),
                  _ if pr.b(18)? => {
                      Self$(display(pr.n(21, 9)?))	[   
                          $(pr.q(22)?) $({ if pr.b(23)? { "t" } else { "f" } })$(pr.q(24)?) +
                          ,'\\'  r#type "two words"  (// note
                              $(pr.multi(25)?)a1  "q\"uote"
                          )
                      ]
                  }
                  (..) => ($(Some(pr.q(26)?))7 )
              }) $(quoted(quote!($$)))}$(let v13 = pr.n(27, 9)?)) /* between */ $(display(pr.n(28, 9)?))$(if pr.b(29)? { $(let v14 = pr.q(30)?)1_000u64 })
        })
    }
    Ok(())
}
fn model_133(m: &mut MV, pr: &Pr) -> Flow {
    qs(m, "1 + 2");
    tln(m);
    {
    let mut it2 = pr.it(1)?;
    let mut step = || -> Flow<Option<String>> { it2.step() };
    let mut next = step()?;
    while let Some(v1) = next {
    {
    let mut v3 = pr.q(3)?;
    tind(m);
    tln(m);
    l(m, "[");
    if pr.rare(4)? { m.lit(pr.q(5)?); break; }
    if let (Some(v5), _) = (pr.opt(6)?, pr.b(7)?) {
    } else {
    let mut s6 = MStream::<()>::default();
    {
    let m = &mut s6;
    { let x = pr.q(8)?; oq(m, false); m.lit(x); cq(m); }
    sp(m);
    { let x = pr.q(9)?; oq(m, false); m.lit(x); cq(m); }
    sp(m);
    m.lit(pr.n(10, 9)?.to_string());
    sp(m);
    l(m, if pr.b(11)? { "t" } else { "f" });
    tp(m);
    l(m, "+");
    sp(m);
    l(m, "||");
    sp(m);
    l(m, "...");
    sp(m);
    l(m, "[");
    tp(m);
    l(m, "]");
    }
    m.add_all(&s6.items);
    }
    {
    let mut it8 = pr.it(12)?;
    let mut step = || -> Flow<Option<String>> { it8.step() };
    while let Some(v7) = step()? {
    l(m, "while");
    pr.mmulti(13, m)?;
    }
    }
    sp(m);
    pr.mark(14)?;
    sp(m);
    l(m, "]");
    sp(m);
    {
    let mut it10 = pr.it(15)?;
    let mut step = || -> Flow<Option<String>> { it10.step() };
    while let Some(v9) = step()? {
    qs(m, "two words");
    l(m, "{");
    match (pr.b(16)?, pr.n(17, 3)?) {
    (true, 0) => {
    { let x = pr.q(19)?; oq(m, false); m.lit(x); cq(m); }
    m.lit(pr.q(20)?);
    sp(m);
    l(m, "while");
    }
    _ if pr.b(18)? => {
    l(m, "Self");
    m.lit(pr.n(21, 9)?.to_string());
    sp(m);
    l(m, "[");
    tind(m);
    m.lit(pr.q(22)?);
    sp(m);
    l(m, if pr.b(23)? { "t" } else { "f" });
    m.lit(pr.q(24)?);
    sp(m);
    l(m, "+");
    tp(m);
    l(m, ",");
    l(m, "'\\\\'");
    sp(m);
    l(m, "r#type");
    sp(m);
    qs(m, "two words");
    sp(m);
    l(m, "(");
    tind(m);
    pr.mmulti(25, m)?;
    l(m, "a1");
    sp(m);
    qs(m, "q\"uote");
    tun(m);
    l(m, ")");
    tun(m);
    l(m, "]");
    }
    (..) => {
    m.lit(pr.q(26)?);
    l(m, "7");
    sp(m);
    }
    }
    sp(m);
    let mut s12 = MStream::<()>::default();
    {
    let m = &mut s12;
    l(m, "$");
    }
    oq(m, false);
    m.add_all(&s12.items);
    cq(m);
    l(m, "}");
    let v13 = pr.n(27, 9)?;
    }
    }
    sp(m);
    m.lit(pr.n(28, 9)?.to_string());
    if pr.b(29)? {
    let v14 = pr.q(30)?;
    l(m, "1_000u64");
    }
    tend(m);
    }
    next = step()?;
    if next.is_some() {
    {
    if pr.rare(2)? { return Err(Left::Return); }
    sp(m);
    }
    }
    }
    }
    Ok(())
}
fn real_134<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $[str]($$ $($(pr.c(1)))$[const](pr.q(2)?) one $$ two$[const](pr.q(3)?))
        while $(ref o1 => quote_in!(*o1 => $(format!("<{}>", pr.q(5)?)))) $(from_fn(|t| { t.append(pr.c(6)); t.space(); t.append(pr.c(7)); })) $(if let Some(v2) = pr.opt(8)? => $v2$(pr.multi(10)?)$({ pr.mark(11)?; "blk" }))// note
        $(ref o3 {
            for _ in 0..pr.n(12, 3)? {
                quote_in! { *o3 =>
                    $("ver batim")=
                    
                      ?
                }
                o3.line();
            }
        })/**/$(ref o4 {
            for _ in 0..pr.n(13, 3)? {
                quote_in! { *o4 =>
                    $(match pr.q(14)? { v5 => $['\n'] $(if pr.b(15)? { $(format!("<{}>", pr.q(16)?)) $(quoted(quote!($(Some(pr.q(17)?))	$(pr.q(18)?))))$(quote!($(from_fn(|t| { t.append(pr.c(19)); t.space(); t.append(pr.c(20)); }))Self$({ if pr.b(21)? { "t" } else { "f" } }))) })&, }) +
                    $(let v8 = pr.n(22, 9)?)$(match pr.q(23)? {
                        v9 => $[str]($[const](pr.q(24)?))$(vec![pr.q(25)?, pr.q(26)?])
                    })       ?  1.5	$(let (v10, v11) = (pr.q(27)?, pr.n(28, 9)?))$(let v12 = pr.n(29, 9)?) [
                    ]
                }
                o4.line();
            }
        })
    }
    Ok(())
}
fn model_134(m: &mut MV, pr: &Pr) -> Flow {
    oq(m, true);
    l(m, "$ ");
    oe(m);
    {
    m.lit(pr.mc(1)?);
    }
    ce(m);
    m.lit(pr.q(2)?);
    l(m, " one $ two");
    m.lit(pr.q(3)?);
    cq(m);
    tp(m);
    l(m, "while");
    sp(m);
    {
    m.lit(format!("<{}>", pr.q(5)?));
    }
    sp(m);
    m.lit(pr.mc(6)?); sp(m); m.lit(pr.mc(7)?);
    sp(m);
    if let Some(v2) = pr.opt(8)? {
    m.lit(v2);
    pr.mmulti(10, m)?;
    pr.mark(11)?; l(m, "blk");
    }
    tp(m);
    for _ in 0..pr.n(12, 3)? {
    l(m, "ver batim");
    l(m, "=");
    tind(m);
    tln(m);
    l(m, "?");
    tend(m);
    ln(m);
    }
    sp(m);
    for _ in 0..pr.n(13, 3)? {
    match pr.q(14)? {
    v5 => {
    ln(m);
    sp(m);
    if pr.b(15)? {
    m.lit(format!("<{}>", pr.q(16)?));
    sp(m);
    let mut s6 = MStream::<()>::default();
    {
    let m = &mut s6;
    m.lit(pr.q(17)?);
    sp(m);
    m.lit(pr.q(18)?);
    }
    oq(m, false);
    m.add_all(&s6.items);
    cq(m);
    let mut s7 = MStream::<()>::default();
    {
    let m = &mut s7;
    m.lit(pr.mc(19)?); sp(m); m.lit(pr.mc(20)?);
    l(m, "Self");
    l(m, if pr.b(21)? { "t" } else { "f" });
    }
    m.add_all(&s7.items);
    }
    l(m, "&");
    }
    }
    sp(m);
    l(m, "+");
    tp(m);
    let v8 = pr.n(22, 9)?;
    match pr.q(23)? {
    v9 => {
    oq(m, false);
    m.lit(pr.q(24)?);
    cq(m);
    { let x = pr.q(25)?; let y = pr.q(26)?; m.lit(x); m.lit(y); }
    }
    }
    sp(m);
    l(m, "?");
    sp(m);
    l(m, "1.5");
    sp(m);
    let (v10, v11) = (pr.q(27)?, pr.n(28, 9)?);
    let v12 = pr.n(29, 9)?;
    sp(m);
    l(m, "[");
    tp(m);
    l(m, "]");
    ln(m);
    }
    Ok(())
}
fn real_135<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(pr.q(1)?.as_str()) $(&quote! {
            $(format!("<{}>", pr.q(2)?)) [
            ] $(let v2 = pr.q(3)?)
                $(match pr.opt(4)? {
                    Some(v3) if v3.is_empty() || pr.b(5)? => (/**/$(for v5 in pr.it(7)?.filter(|_| pr.cb(8)) => $['\r']  $(pr.q(9)?)) ),
                    None if pr.b(6)? => $(let v7 = pr.n(10, 9)?)$v7. {$(if pr.b(11)? && pr.b(12)? {
                        Self /* between */ $(pr.c(13))	(
                           $(quoted(pr.q(14)?)) $(quoted(pr.q(15)?))
                        )
                    } else {
                        $({ if pr.b(16)? { "t" } else { "f" } })
                        
                        identifier_identifier_identifier_identifier_end /* between */ [
                        ]
                    })/**/$(for v8 in pr.it(17)? {
                        x  +$$ while $(quoted(pr.q(18)?))/**/Self
                        $(pr.q(19)?)
                        $(pr.q(20)?)
                    })/**/$(quote! {
                        $(pr.n(21, 9)?)
                        
                        
                        
                        // between
                         $(pr.q(22)?.as_str())0x1F
                                 $$ /* between */ {
                                      $(pr.q(23)?)$(pr.q(24)?)
                                      $(display(pr.n(25, 9)?))
                                 }
                                    'a/**/{
                                       +
                                    } $({ pr.mark(26)?; "blk" }) /* between */ (
                                    )
                    }), $(ref _ => if pr.rare(27)? { return Err(Left::Return); })},
                    Some(v4) => { x },
                    None => ($(ref _ => if pr.rare(28)? { return Err(Left::Return); }) )
                })
        })/**/[

        ]
    }
    Ok(())
}
fn model_135(m: &mut MV, pr: &Pr) -> Flow {
    m.lit(pr.q(1)?);
    sp(m);
    let mut s1 = MStream::<()>::default();
    {
    let m = &mut s1;
    m.lit(format!("<{}>", pr.q(2)?));
    sp(m);
    l(m, "[");
    tp(m);
    l(m, "]");
    sp(m);
    let v2 = pr.q(3)?;
    tind(m);
    match pr.opt(4)? {
    Some(v3) if v3.is_empty() || pr.b(5)? => {
    sp(m);
    {
    let mut it6 = pr.it(7)?;
    let mut step = || -> Flow<Option<String>> { while let Some(x) = it6.step()? { if pr.mcb(8)? { return Ok(Some(x)); } } Ok(None) };
    while let Some(v5) = step()? {
    p(m);
    sp(m);
    m.lit(pr.q(9)?);
    }
    }
    sp(m);
    }
    None if pr.b(6)? => {
    let v7 = pr.n(10, 9)?;
    m.lit(v7.to_string());
    l(m, ".");
    sp(m);
    l(m, "{");
    if pr.b(11)? && pr.b(12)? {
    l(m, "Self");
    sp(m);
    m.lit(pr.mc(13)?);
    sp(m);
    l(m, "(");
    tind(m);
    { let x = pr.q(14)?; oq(m, false); m.lit(x); cq(m); }
    sp(m);
    { let x = pr.q(15)?; oq(m, false); m.lit(x); cq(m); }
    tun(m);
    l(m, ")");
    } else {
    l(m, if pr.b(16)? { "t" } else { "f" });
    tln(m);
    l(m, "identifier_identifier_identifier_identifier_end");
    sp(m);
    l(m, "[");
    tp(m);
    l(m, "]");
    }
    sp(m);
    {
    let mut it9 = pr.it(17)?;
    let mut step = || -> Flow<Option<String>> { it9.step() };
    while let Some(v8) = step()? {
    l(m, "x");
    sp(m);
    l(m, "+");
    l(m, "$");
    sp(m);
    l(m, "while");
    sp(m);
    { let x = pr.q(18)?; oq(m, false); m.lit(x); cq(m); }
    sp(m);
    l(m, "Self");
    tp(m);
    m.lit(pr.q(19)?);
    tp(m);
    m.lit(pr.q(20)?);
    }
    }
    sp(m);
    let mut s10 = MStream::<()>::default();
    {
    let m = &mut s10;
    m.lit(pr.n(21, 9)?.to_string());
    tind(m);
    tln(m);
    m.lit(pr.q(22)?);
    l(m, "0x1F");
    tind(m);
    l(m, "$");
    sp(m);
    l(m, "{");
    tind(m);
    m.lit(pr.q(23)?);
    m.lit(pr.q(24)?);
    tp(m);
    m.lit(pr.n(25, 9)?.to_string());
    tun(m);
    l(m, "}");
    tind(m);
    l(m, "'a");
    sp(m);
    l(m, "{");
    tind(m);
    l(m, "+");
    tun(m);
    l(m, "}");
    sp(m);
    pr.mark(26)?; l(m, "blk");
    sp(m);
    l(m, "(");
    tp(m);
    l(m, ")");
    tend(m);
    tend(m);
    tend(m);
    }
    m.add_all(&s10.items);
    l(m, ",");
    sp(m);
    if pr.rare(27)? { return Err(Left::Return); }
    l(m, "}");
    }
    Some(v4) => {
    l(m, "x");
    }
    None => {
    if pr.rare(28)? { return Err(Left::Return); }
    sp(m);
    }
    }
    tend(m);
    }
    m.add_all(&s1.items);
    sp(m);
    l(m, "[");
    tln(m);
    l(m, "]");
    Ok(())
}
fn real_136<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $[str]($[const]("con st")three$($(let v1 = pr.q(1)?){$(from_fn(|t| { t.append(pr.c(2)); t.space(); t.append(pr.c(3)); }))$(for v2 in pr.it(4)? { $(ref o4 => quote_in!(*o4 => $(from_fn(|t| { t.append(pr.c(6)); t.space(); t.append(pr.c(7)); })))) }) $(" lead") /* between */ } .))Self$({ if pr.b(8)? { "t" } else { "f" } })$[str]($[const](pr.q(9)?) two -two$[const](pr.q(10)?)$[const]("con st")$name-$[const]("con st") $$ -)	$[str](a b  c) /* between */ $(pr.q(11)?)// note
        $(pr.q(12)?.as_str())$(ref o5 { if pr.rare(13)? { o5.append(pr.q(14)?); return Err(Left::Return); } })
    }
    Ok(())
}
fn model_136(m: &mut MV, pr: &Pr) -> Flow {
    oq(m, true);
    l(m, "con stthree");
    oe(m);
    {
    let v1 = pr.q(1)?;
    l(m, "{");
    m.lit(pr.mc(2)?); sp(m); m.lit(pr.mc(3)?);
    {
    let mut it3 = pr.it(4)?;
    let mut step = || -> Flow<Option<String>> { it3.step() };
    while let Some(v2) = step()? {
    {
    m.lit(pr.mc(6)?); sp(m); m.lit(pr.mc(7)?);
    }
    }
    }
    sp(m);
    l(m, " lead");
    sp(m);
    l(m, "}");
    sp(m);
    l(m, ".");
    }
    ce(m);
    cq(m);
    l(m, "Self");
    l(m, if pr.b(8)? { "t" } else { "f" });
    oq(m, true);
    m.lit(pr.q(9)?);
    l(m, " two -two");
    m.lit(pr.q(10)?);
    l(m, "con st");
    oe(m);
    l(m, "name");
    ce(m);
    l(m, "-con st $ -");
    cq(m);
    sp(m);
    qs(m, "a b  c");
    sp(m);
    m.lit(pr.q(11)?);
    tp(m);
    m.lit(pr.q(12)?);
    if pr.rare(13)? { m.lit(pr.q(14)?); return Err(Left::Return); }
    Ok(())
}
fn real_137<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(vec![pr.q(1)?, pr.q(2)?]) $(display(pr.n(3, 9)?))	$(let v1 = pr.q(4)?) $$

                   $(ref o2 { if pr.b(5)? { quote_in!(*o2 => $(v1.clone()) $(&v1)$(vec![pr.q(6)?, pr.q(7)?])); } o2.push(); })$(" lead")$(quote!($(pr.n(8, 9)?).))

        foo
         $(vec![pr.q(9)?, pr.q(10)?]) (
         )
    }
    Ok(())
}
fn model_137(m: &mut MV, pr: &Pr) -> Flow {
    { let x = pr.q(1)?; let y = pr.q(2)?; m.lit(x); m.lit(y); }
    sp(m);
    m.lit(pr.n(3, 9)?.to_string());
    sp(m);
    let v1 = pr.q(4)?;
    sp(m);
    l(m, "$");
    tind(m);
    tln(m);
    if pr.b(5)? {
    m.lit(v1.clone());
    sp(m);
    m.lit(v1.clone());
    { let x = pr.q(6)?; let y = pr.q(7)?; m.lit(x); m.lit(y); }
    }
    p(m);
    l(m, " lead");
    let mut s3 = MStream::<()>::default();
    {
    let m = &mut s3;
    m.lit(pr.n(8, 9)?.to_string());
    l(m, ".");
    }
    m.add_all(&s3.items);
    tun(m);
    tln(m);
    l(m, "foo");
    tind(m);
    { let x = pr.q(9)?; let y = pr.q(10)?; m.lit(x); m.lit(y); }
    sp(m);
    l(m, "(");
    tp(m);
    l(m, ")");
    tend(m);
    Ok(())
}
fn real_138<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(let v1 = pr.n(1, 9)?)/**/$(for v2 in pr.it(2)? { $[str](a b  c) })while ->$(" lead")


        $(quoted(pr.q(3)?))

        $(ref _ => if pr.b(4)? { pr.mark(5)?; }) [

          {$({ pr.mark(9)?; "blk" }) {$$ {"lit" $(pr.multi(6)?) $(pr.n(7, 9)?)} $(&pr.q(8)?)} $(pr.multi(10)?)}
        ]
    }
    Ok(())
}
fn model_138(m: &mut MV, pr: &Pr) -> Flow {
    let v1 = pr.n(1, 9)?;
    sp(m);
    {
    let mut it3 = pr.it(2)?;
    let mut step = || -> Flow<Option<String>> { it3.step() };
    while let Some(v2) = step()? {
    qs(m, "a b  c");
    }
    }
    l(m, "while");
    sp(m);
    l(m, "->");
    l(m, " lead");
    tln(m);
    { let x = pr.q(3)?; oq(m, false); m.lit(x); cq(m); }
    tln(m);
    if pr.b(4)? { pr.mark(5)?; }
    sp(m);
    l(m, "[");
    tind(m);
    tln(m);
    l(m, "{");
    pr.mark(9)?; l(m, "blk");
    sp(m);
    l(m, "{");
    l(m, "$");
    sp(m);
    l(m, "{");
    qs(m, "lit");
    sp(m);
    pr.mmulti(6, m)?;
    sp(m);
    m.lit(pr.n(7, 9)?.to_string());
    l(m, "}");
    sp(m);
    m.lit(pr.q(8)?);
    l(m, "}");
    sp(m);
    pr.mmulti(10, m)?;
    l(m, "}");
    tun(m);
    l(m, "]");
    Ok(())
}
fn real_139<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        &	[ // note
            $(for (i3, v1) in pr.it(1)?.enumerate() {
                $(ref o4 => quote_in!(*o4 => while  $(Some(pr.q(3)?)))) $(ref _ { pr.mark(4)?; })
                $(ref o5 { if pr.rare(5)? { o5.append(pr.q(6)?); continue; } })$(for v6 in [pr.q(7)?, pr.q(8)?] { $(let mut v8 = pr.q(9)?)$$ [$(for v9 in pr.it(10)?.filter(|_| pr.cb(11)) =>
                    $(pr.multi(12)?)  [
                    ])  $(vec![pr.q(13)?, pr.q(14)?]) $(if pr.b(15)? || !pr.b(16)? {
                    ;/**/$(pr.multi(17)?)$(pr.multi(18)?)// note
                    // between
                    
                    a1 bar $(from_fn(|t| { t.append(pr.c(19)); t.space(); t.append(pr.c(20)); }))
                } else { $({ pr.mark(21)?; "blk" }). })] })
                ($(pr.n(22, 9)?)       $[str](a b  c)bar)
                $(&quote!($(for v12 in 0..pr.n(23, 4)? => $(pr.q(24)?))$(match (pr.b(25)?, pr.q(26)?) { (_, v14) => {} })))$[' ']$(i3) $i3$(let v15 = pr.q(27)?)$(Some(pr.q(28)?)) $(pr.q(29)?) $(ref o16 { if pr.rare(30)? { o16.append(pr.q(31)?); break; } })
            })Self/**/{
            // between
            }/**/$(if pr.b(32)? { $(display(pr.n(33, 9)?)) })$(format!("<{}>", pr.q(34)?))       $(let v17 = pr.q(35)?)$(ref _ => if pr.rare(36)? { return Err(Left::Return); })
            // between
        ]
    }
    Ok(())
}
fn model_139(m: &mut MV, pr: &Pr) -> Flow {
    l(m, "&");
    sp(m);
    l(m, "[");
    tind(m);
    {
    let mut it2 = pr.it(1)?;
    let mut at = 0u64;
    let mut step = || -> Flow<Option<(u64, String)>> { let x = it2.step()?; at += 1; Ok(x.map(|x| (at - 1, x))) };
    while let Some((i3, v1)) = step()? {
    {
    l(m, "while");
    sp(m);
    m.lit(pr.q(3)?);
    }
    sp(m);
    pr.mark(4)?;
    tp(m);
    if pr.rare(5)? { m.lit(pr.q(6)?); continue; }
    {
    let mut it7 = [pr.q(7)?, pr.q(8)?].into_iter();
    let mut step = || -> Flow<Option<String>> { Ok(it7.next()) };
    while let Some(v6) = step()? {
    let mut v8 = pr.q(9)?;
    l(m, "$");
    sp(m);
    l(m, "[");
    {
    let mut it10 = pr.it(10)?;
    let mut step = || -> Flow<Option<String>> { while let Some(x) = it10.step()? { if pr.mcb(11)? { return Ok(Some(x)); } } Ok(None) };
    while let Some(v9) = step()? {
    pr.mmulti(12, m)?;
    sp(m);
    l(m, "[");
    tp(m);
    l(m, "]");
    }
    }
    sp(m);
    { let x = pr.q(13)?; let y = pr.q(14)?; m.lit(x); m.lit(y); }
    sp(m);
    if pr.b(15)? || !pr.b(16)? {
    l(m, ";");
    sp(m);
    pr.mmulti(17, m)?;
    pr.mmulti(18, m)?;
    tln(m);
    l(m, "a1");
    sp(m);
    l(m, "bar");
    sp(m);
    m.lit(pr.mc(19)?); sp(m); m.lit(pr.mc(20)?);
    } else {
    pr.mark(21)?; l(m, "blk");
    l(m, ".");
    }
    l(m, "]");
    }
    }
    tp(m);
    l(m, "(");
    m.lit(pr.n(22, 9)?.to_string());
    sp(m);
    qs(m, "a b  c");
    l(m, "bar");
    l(m, ")");
    tp(m);
    let mut s11 = MStream::<()>::default();
    {
    let m = &mut s11;
    {
    let mut it13 = 0..pr.n(23, 4)?;
    let mut step = || -> Flow<Option<u64>> { Ok(it13.next()) };
    while let Some(v12) = step()? {
    m.lit(pr.q(24)?);
    }
    }
    match (pr.b(25)?, pr.q(26)?) {
    (_, v14) => {
    }
    }
    }
    m.add_all(&s11.items);
    sp(m);
    m.lit(i3.to_string());
    sp(m);
    m.lit(i3.to_string());
    let v15 = pr.q(27)?;
    m.lit(pr.q(28)?);
    sp(m);
    m.lit(pr.q(29)?);
    sp(m);
    if pr.rare(30)? { m.lit(pr.q(31)?); break; }
    }
    }
    l(m, "Self");
    sp(m);
    l(m, "{");
    tln(m);
    l(m, "}");
    sp(m);
    if pr.b(32)? {
    m.lit(pr.n(33, 9)?.to_string());
    }
    m.lit(format!("<{}>", pr.q(34)?));
    sp(m);
    let v17 = pr.q(35)?;
    if pr.rare(36)? { return Err(Left::Return); }
    tun(m);
    tln(m);
    l(m, "]");
    Ok(())
}
fn real_140<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(for v1 in pr.it(1)? => $[str](1 + 2)$(&v1))$[str](1 + 2)
        $[str]($($(pr.n(2, 9)?)$({ pr.mark(3)?; "blk" })))?$(for v3 in pr.opt(4)? join (/**/$(for v5 in 0..pr.n(5, 4)? => $(match pr.n(6, 3)? { _ if pr.b(7)? => { $(match pr.q(8)? { v8 => $(format!("<{}>", pr.q(9)?))$(pr.q(10)?.as_str()) 1_000u64, }) } 1 | 3 => ($(Some(pr.q(11)?)) /* between */ ), v7 => { $(&quote!($(quoted(pr.q(12)?))  a1)) }, })$(ref _ => if pr.rare(13)? { break; })$(for _ in pr.it(14)? join (, ) => $[' '] $[str](two$[const](pr.q(22)?)$[const]("con st")$($(quoted(pr.q(23)?)) $({ if pr.b(24)? { "t" } else { "f" } })) three$[const]("con st") three$[const](pr.q(25)?))  $(for v16 in 0..pr.n(26, 4)? join (, ) => foo nameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameame?))) /* between */ ) => $(let v18 = pr.q(27)?) $(let v19 = pr.q(28)?)) $(ref _ => if pr.b(29)? { pr.mark(30)?; }) foo$(pr.q(31)?)
        $(" lead") [       $(ref o20 { if pr.rare(32)? { o20.append(pr.q(33)?); return Err(Left::Return); } })$(ref o21 { if pr.b(34)? { quote_in!(*o21 => [$(from_fn(|t| { t.append(pr.c(35)); t.space(); t.append(pr.c(36)); }))  ]$(display(pr.n(37, 9)?))); } o21.push(); })] $(ref o22 { if pr.rare(38)? { o22.append(pr.q(39)?); return Err(Left::Return); } })
    }
    Ok(())
}
fn model_140(m: &mut MV, pr: &Pr) -> Flow {
    {
    let mut it2 = pr.it(1)?;
    let mut step = || -> Flow<Option<String>> { it2.step() };
    while let Some(v1) = step()? {
    qs(m, "1 + 2");
    m.lit(v1.clone());
    }
    }
    qs(m, "1 + 2");
    tp(m);
    oq(m, true);
    oe(m);
    {
    m.lit(pr.n(2, 9)?.to_string());
    pr.mark(3)?; l(m, "blk");
    }
    ce(m);
    cq(m);
    l(m, "?");
    {
    let mut it4 = pr.opt(4)?.into_iter();
    let mut step = || -> Flow<Option<String>> { Ok(it4.next()) };
    let mut next = step()?;
    while let Some(v3) = next {
    {
    let v18 = pr.q(27)?;
    sp(m);
    let v19 = pr.q(28)?;
    }
    next = step()?;
    if next.is_some() {
    {
    sp(m);
    {
    let mut it6 = 0..pr.n(5, 4)?;
    let mut step = || -> Flow<Option<u64>> { Ok(it6.next()) };
    while let Some(v5) = step()? {
    match pr.n(6, 3)? {
    _ if pr.b(7)? => {
    match pr.q(8)? {
    v8 => {
    m.lit(format!("<{}>", pr.q(9)?));
    m.lit(pr.q(10)?);
    sp(m);
    l(m, "1_000u64");
    }
    }
    }
    1 | 3 => {
    m.lit(pr.q(11)?);
    sp(m);
    }
    v7 => {
    let mut s9 = MStream::<()>::default();
    {
    let m = &mut s9;
    { let x = pr.q(12)?; oq(m, false); m.lit(x); cq(m); }
    sp(m);
    l(m, "a1");
    }
    m.add_all(&s9.items);
    }
    }
    if pr.rare(13)? { break; }
    {
    let mut it11 = pr.it(14)?;
    let mut step = || -> Flow<Option<String>> { it11.step() };
    let mut next = step()?;
    while let Some(_) = next {
    {
    sp(m);
    sp(m);
    oq(m, true);
    l(m, "two");
    m.lit(pr.q(22)?);
    l(m, "con st");
    oe(m);
    {
    { let x = pr.q(23)?; oq(m, false); m.lit(x); cq(m); }
    sp(m);
    l(m, if pr.b(24)? { "t" } else { "f" });
    }
    ce(m);
    l(m, " threecon st three");
    m.lit(pr.q(25)?);
    cq(m);
    sp(m);
    {
    let mut it17 = 0..pr.n(26, 4)?;
    let mut step = || -> Flow<Option<u64>> { Ok(it17.next()) };
    let mut next = step()?;
    while let Some(v16) = next {
    {
    l(m, "foo");
    sp(m);
    l(m, "nameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameame");
    l(m, "?");
    }
    next = step()?;
    if next.is_some() {
    {
    l(m, ",");
    sp(m);
    }
    }
    }
    }
    }
    next = step()?;
    if next.is_some() {
    {
    l(m, ",");
    sp(m);
    }
    }
    }
    }
    }
    }
    sp(m);
    }
    }
    }
    }
    sp(m);
    if pr.b(29)? { pr.mark(30)?; }
    sp(m);
    l(m, "foo");
    m.lit(pr.q(31)?);
    tp(m);
    l(m, " lead");
    sp(m);
    l(m, "[");
    sp(m);
    if pr.rare(32)? { m.lit(pr.q(33)?); return Err(Left::Return); }
    if pr.b(34)? {
    l(m, "[");
    m.lit(pr.mc(35)?); sp(m); m.lit(pr.mc(36)?);
    sp(m);
    l(m, "]");
    m.lit(pr.n(37, 9)?.to_string());
    }
    p(m);
    l(m, "]");
    sp(m);
    if pr.rare(38)? { m.lit(pr.q(39)?); return Err(Left::Return); }
    Ok(())
}
fn real_141<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(ref o1 {
            for _ in 0..pr.n(1, 3)? {
                quote_in! { *o1 =>
                    $[str](1 + 2)
                    $(&pr.q(2)?) $(for (i4, v2) in pr.it(3)?.enumerate() {
                        $(ref o5 { if pr.rare(4)? { o5.append(pr.q(5)?); return Err(Left::Return); } }) $[str]($name-)   
                        [] $(from_fn(|t| { t.append(pr.c(6)); t.space(); t.append(pr.c(7)); }))       $(let v6 = pr.n(8, 9)?) /* between */ [
                        ]/**/$(pr.q(9)?.as_str())
                    })       $(quoted(pr.q(10)?)) $(match pr.b(11)? {
                        true | false => $(&pr.q(12)?)[ ,()] {$[str](1 + 2)$(if pr.b(13)? || !pr.b(14)? => "q\"uote"$(pr.q(15)?)       $$)$(let v8 = pr.q(16)?)/**/$(for v9 in 0..pr.n(17, 4)? => $(&pr.q(18)?) Self	"q\"uote"), $(match pr.opt(19)? { Some(v12) => { $(pr.q(20)?) = }, None => Self; })	$(quoted(quote!(1.5)))},
                    })
                    
                    
                    
                    
                        $(pr.q(21)?) (
                        )
                }
                o1.line();
            }
        }) /* between */ $(Some(pr.q(22)?))       $(pr.q(23)?)

        $[str](plain)	$("ä")


                _y
    }
    Ok(())
}
fn model_141(m: &mut MV, pr: &Pr) -> Flow {
    for _ in 0..pr.n(1, 3)? {
    qs(m, "1 + 2");
    tp(m);
    m.lit(pr.q(2)?);
    sp(m);
    {
    let mut it3 = pr.it(3)?;
    let mut at = 0u64;
    let mut step = || -> Flow<Option<(u64, String)>> { let x = it3.step()?; at += 1; Ok(x.map(|x| (at - 1, x))) };
    while let Some((i4, v2)) = step()? {
    if pr.rare(4)? { m.lit(pr.q(5)?); return Err(Left::Return); }
    sp(m);
    oq(m, true);
    oe(m);
    l(m, "name");
    ce(m);
    l(m, "-");
    cq(m);
    tp(m);
    l(m, "[]");
    sp(m);
    m.lit(pr.mc(6)?); sp(m); m.lit(pr.mc(7)?);
    sp(m);
    let v6 = pr.n(8, 9)?;
    sp(m);
    l(m, "[");
    tp(m);
    l(m, "]");
    sp(m);
    m.lit(pr.q(9)?);
    }
    }
    sp(m);
    { let x = pr.q(10)?; oq(m, false); m.lit(x); cq(m); }
    sp(m);
    match pr.b(11)? {
    true | false => {
    m.lit(pr.q(12)?);
    l(m, "[");
    sp(m);
    l(m, ",");
    l(m, "()");
    l(m, "]");
    sp(m);
    l(m, "{");
    qs(m, "1 + 2");
    if pr.b(13)? || !pr.b(14)? {
    qs(m, "q\"uote");
    m.lit(pr.q(15)?);
    sp(m);
    l(m, "$");
    }
    let v8 = pr.q(16)?;
    sp(m);
    {
    let mut it10 = 0..pr.n(17, 4)?;
    let mut step = || -> Flow<Option<u64>> { Ok(it10.next()) };
    while let Some(v9) = step()? {
    m.lit(pr.q(18)?);
    sp(m);
    l(m, "Self");
    sp(m);
    qs(m, "q\"uote");
    }
    }
    l(m, ",");
    sp(m);
    match pr.opt(19)? {
    Some(v12) => {
    m.lit(pr.q(20)?);
    sp(m);
    l(m, "=");
    }
    None => {
    l(m, "Self");
    l(m, ";");
    }
    }
    sp(m);
    let mut s13 = MStream::<()>::default();
    {
    let m = &mut s13;
    l(m, "1.5");
    }
    oq(m, false);
    m.add_all(&s13.items);
    cq(m);
    l(m, "}");
    }
    }
    tind(m);
    tln(m);
    m.lit(pr.q(21)?);
    sp(m);
    l(m, "(");
    tp(m);
    l(m, ")");
    tend(m);
    ln(m);
    }
    sp(m);
    m.lit(pr.q(22)?);
    sp(m);
    m.lit(pr.q(23)?);
    tln(m);
    qs(m, "plain");
    sp(m);
    l(m, "ä");
    tind(m);
    tln(m);
    l(m, "_y");
    tend(m);
    Ok(())
}
fn real_142<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(pr.n(1, 9)?) $(display(pr.n(2, 9)?))
        // between
        $[str](1 + 2)  $(pr.q(3)?)x $(pr.c(4))

        a1 [$(quote!(&	$(if pr.b(5)? {}) $(if pr.b(6)? {} else { $(ref o2 { if pr.b(7)? { quote_in!(*o2 => $(pr.n(8, 9)?)); } o2.push(); }) })))&$(pr.c(9))]
        $(from_fn(|t| { t.append(pr.c(10)); t.space(); t.append(pr.c(11)); }))$(display(pr.n(12, 9)?))	{
        }
    }
    Ok(())
}
fn model_142(m: &mut MV, pr: &Pr) -> Flow {
    m.lit(pr.n(1, 9)?.to_string());
    sp(m);
    m.lit(pr.n(2, 9)?.to_string());
    tln(m);
    qs(m, "1 + 2");
    sp(m);
    m.lit(pr.q(3)?);
    l(m, "x");
    sp(m);
    m.lit(pr.mc(4)?);
    tln(m);
    l(m, "a1");
    sp(m);
    l(m, "[");
    let mut s1 = MStream::<()>::default();
    {
    let m = &mut s1;
    l(m, "&");
    sp(m);
    if pr.b(5)? {
    }
    sp(m);
    if pr.b(6)? {
    } else {
    if pr.b(7)? {
    m.lit(pr.n(8, 9)?.to_string());
    }
    p(m);
    }
    }
    m.add_all(&s1.items);
    l(m, "&");
    m.lit(pr.mc(9)?);
    l(m, "]");
    tp(m);
    m.lit(pr.mc(10)?); sp(m); m.lit(pr.mc(11)?);
    m.lit(pr.n(12, 9)?.to_string());
    sp(m);
    l(m, "{");
    tp(m);
    l(m, "}");
    Ok(())
}
fn real_143<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(let v1 = pr.n(1, 9)?)$[str]($($(let mut v2 = pr.q(2)?)       $(match pr.n(3, 9)? { v3 => $(if let (Some(v4), _) = (pr.opt(4)?, pr.b(5)?) => größe$(ref o5 { if pr.rare(6)? { o5.append(pr.q(7)?); return Err(Left::Return); } })a1)bar while {$(pr.q(8)?) $(for v6 in pr.it(9)? join ($(format!("<{}>", pr.q(10)?))) => x), $(for v8 in pr.opt(11)? => $(pr.q(12)?.as_str())) $(ref _ => if pr.b(13)? { pr.mark(14)?; })} }))one$[const]("con st")$[const](pr.q(15)?))$(quote!($(let mut v11 = pr.q(16)?)$(ref o12 => quote_in!(*o12 => $(for v13 in pr.opt(18)? {})$[str]($[const]("con st")$[const]("con st") two$[const]("con st"))))))
            $(" lead") $(ref _ { pr.mark(19)?; })
    }
    Ok(())
}
fn model_143(m: &mut MV, pr: &Pr) -> Flow {
    let v1 = pr.n(1, 9)?;
    oq(m, true);
    oe(m);
    {
    let mut v2 = pr.q(2)?;
    sp(m);
    match pr.n(3, 9)? {
    v3 => {
    if let (Some(v4), _) = (pr.opt(4)?, pr.b(5)?) {
    l(m, "größe");
    if pr.rare(6)? { m.lit(pr.q(7)?); return Err(Left::Return); }
    l(m, "a1");
    }
    l(m, "bar");
    sp(m);
    l(m, "while");
    sp(m);
    l(m, "{");
    m.lit(pr.q(8)?);
    sp(m);
    {
    let mut it7 = pr.it(9)?;
    let mut step = || -> Flow<Option<String>> { it7.step() };
    let mut next = step()?;
    while let Some(v6) = next {
    {
    l(m, "x");
    }
    next = step()?;
    if next.is_some() {
    {
    m.lit(format!("<{}>", pr.q(10)?));
    }
    }
    }
    }
    l(m, ",");
    sp(m);
    {
    let mut it9 = pr.opt(11)?.into_iter();
    let mut step = || -> Flow<Option<String>> { Ok(it9.next()) };
    while let Some(v8) = step()? {
    m.lit(pr.q(12)?);
    }
    }
    sp(m);
    if pr.b(13)? { pr.mark(14)?; }
    l(m, "}");
    }
    }
    }
    ce(m);
    l(m, "onecon st");
    m.lit(pr.q(15)?);
    cq(m);
    let mut s10 = MStream::<()>::default();
    {
    let m = &mut s10;
    let mut v11 = pr.q(16)?;
    {
    {
    let mut it14 = pr.opt(18)?.into_iter();
    let mut step = || -> Flow<Option<String>> { Ok(it14.next()) };
    while let Some(v13) = step()? {
    }
    }
    oq(m, false);
    l(m, "con stcon st twocon st");
    cq(m);
    }
    }
    m.add_all(&s10.items);
    tind(m);
    l(m, " lead");
    sp(m);
    pr.mark(19)?;
    tend(m);
    Ok(())
}
fn real_144<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(ref o1 { if pr.b(1)? { quote_in!(*o1 => $(for v2 in pr.it(2)? => $[str]($$ three$name-$($(v2.clone())$$ Self)$$)	$(" lead")$(ref o4 { if pr.b(3)? { quote_in!(*o4 => while$[str](plain)$(let v5 = pr.q(4)?)); } o4.push(); }))); } o1.push(); }) $(ref o6 { if pr.rare(5)? { o6.append(pr.q(6)?); return Err(Left::Return); } }) $(match pr.q(7)? {
            v7 => { $(let v8 = pr.q(8)?)_y },
        })$(pr.q(9)?) [
        ]
    }
    Ok(())
}
fn model_144(m: &mut MV, pr: &Pr) -> Flow {
    if pr.b(1)? {
    {
    let mut it3 = pr.it(2)?;
    let mut step = || -> Flow<Option<String>> { it3.step() };
    while let Some(v2) = step()? {
    oq(m, true);
    l(m, "$ three");
    oe(m);
    l(m, "name");
    ce(m);
    l(m, "-");
    oe(m);
    {
    m.lit(v2.clone());
    l(m, "$");
    sp(m);
    l(m, "Self");
    }
    ce(m);
    l(m, "$");
    cq(m);
    sp(m);
    l(m, " lead");
    if pr.b(3)? {
    l(m, "while");
    qs(m, "plain");
    let v5 = pr.q(4)?;
    }
    p(m);
    }
    }
    }
    p(m);
    sp(m);
    if pr.rare(5)? { m.lit(pr.q(6)?); return Err(Left::Return); }
    sp(m);
    match pr.q(7)? {
    v7 => {
    let v8 = pr.q(8)?;
    l(m, "_y");
    }
    }
    m.lit(pr.q(9)?);
    sp(m);
    l(m, "[");
    tp(m);
    l(m, "]");
    Ok(())
}
fn real_145<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        a1$(from_fn(|t| { t.append(pr.c(1)); t.space(); t.append(pr.c(2)); }))
        $({ pr.mark(3)?; "blk" })[$$ {$(pr.q(7)?) {$$ ($(pr.c(6)) [$$ $({ if pr.b(4)? { "t" } else { "f" } }) $(&pr.q(5)?)] ;) $$} $(Some(pr.q(8)?))} $(format!("<{}>", pr.q(9)?))]$(for (i3, v1) in pr.it(10)?.enumerate() {})$(display(pr.n(11, 9)?))
    }
    Ok(())
}
fn model_145(m: &mut MV, pr: &Pr) -> Flow {
    l(m, "a1");
    m.lit(pr.mc(1)?); sp(m); m.lit(pr.mc(2)?);
    tp(m);
    pr.mark(3)?; l(m, "blk");
    l(m, "[");
    l(m, "$");
    sp(m);
    l(m, "{");
    m.lit(pr.q(7)?);
    sp(m);
    l(m, "{");
    l(m, "$");
    sp(m);
    l(m, "(");
    m.lit(pr.mc(6)?);
    sp(m);
    l(m, "[");
    l(m, "$");
    sp(m);
    l(m, if pr.b(4)? { "t" } else { "f" });
    sp(m);
    m.lit(pr.q(5)?);
    l(m, "]");
    sp(m);
    l(m, ";");
    l(m, ")");
    sp(m);
    l(m, "$");
    l(m, "}");
    sp(m);
    m.lit(pr.q(8)?);
    l(m, "}");
    sp(m);
    m.lit(format!("<{}>", pr.q(9)?));
    l(m, "]");
    {
    let mut it2 = pr.it(10)?;
    let mut at = 0u64;
    let mut step = || -> Flow<Option<(u64, String)>> { let x = it2.step()?; at += 1; Ok(x.map(|x| (at - 1, x))) };
    while let Some((i3, v1)) = step()? {
    }
    }
    m.lit(pr.n(11, 9)?.to_string());
    Ok(())
}
fn real_146<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(quoted(pr.q(1)?))$(for v1 in pr.it(2)? join ( $[str]($[const](pr.q(3)?)$[const](pr.q(4)?)$[const]("con st")$name-) ) => =)
           $(pr.q(5)?)
           $(if pr.b(6)? || !pr.b(7)? {
               Self .
                  $[str]($[const]("con st")$$)
                     $[str]($[const]("con st")$name- -two) $(&pr.q(8)?)       $(pr.n(9, 9)?)$(let (v3, v4) = (pr.q(10)?, pr.n(11, 9)?))
           })
    }
    Ok(())
}
fn model_146(m: &mut MV, pr: &Pr) -> Flow {
    { let x = pr.q(1)?; oq(m, false); m.lit(x); cq(m); }
    {
    let mut it2 = pr.it(2)?;
    let mut step = || -> Flow<Option<String>> { it2.step() };
    let mut next = step()?;
    while let Some(v1) = next {
    {
    l(m, "=");
    }
    next = step()?;
    if next.is_some() {
    {
    sp(m);
    oq(m, true);
    m.lit(pr.q(3)?);
    m.lit(pr.q(4)?);
    l(m, "con st");
    oe(m);
    l(m, "name");
    ce(m);
    l(m, "-");
    cq(m);
    sp(m);
    }
    }
    }
    }
    tind(m);
    m.lit(pr.q(5)?);
    tp(m);
    if pr.b(6)? || !pr.b(7)? {
    l(m, "Self");
    sp(m);
    l(m, ".");
    tind(m);
    oq(m, false);
    l(m, "con st$");
    cq(m);
    tind(m);
    oq(m, true);
    l(m, "con st");
    oe(m);
    l(m, "name");
    ce(m);
    l(m, "- -two");
    cq(m);
    sp(m);
    m.lit(pr.q(8)?);
    sp(m);
    m.lit(pr.n(9, 9)?.to_string());
    let (v3, v4) = (pr.q(10)?, pr.n(11, 9)?);
    tend(m);
    tend(m);
    }
    tend(m);
    Ok(())
}
fn real_147<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(for v1 in pr.it(1)?.filter(|_| pr.cb(2)) join (, ) { $(ref o8 { if pr.b(19)? { quote_in!(*o8 => $(let (v9, v10) = (pr.q(20)?, pr.n(21, 9)?)) $(for (i13, v11) in pr.it(22)?.enumerate() join (foo) { $(for v14 in pr.opt(23)? join ($(&pr.q(24)?)) { $(pr.q(25)?.as_str())$(from_fn(|t| { t.append(pr.c(26)); t.space(); t.append(pr.c(27)); })) })$(ref _ => if pr.b(28)? { pr.mark(29)?; }) })$(for v16 in pr.it(30)? join (, ) { $(quoted(quote!($(pr.q(32)?.as_str()))))$(&quote!($(&pr.q(33)?)))  $(for v20 in [pr.q(34)?, pr.q(35)?] join (       foo ) { _y $(pr.c(36)) }) })); } o8.push(); }) })
    }
    Ok(())
}
fn model_147(m: &mut MV, pr: &Pr) -> Flow {
    {
    let mut it2 = pr.it(1)?;
    let mut step = || -> Flow<Option<String>> { while let Some(x) = it2.step()? { if pr.mcb(2)? { return Ok(Some(x)); } } Ok(None) };
    let mut next = step()?;
    while let Some(v1) = next {
    {
    if pr.b(19)? {
    let (v9, v10) = (pr.q(20)?, pr.n(21, 9)?);
    sp(m);
    {
    let mut it12 = pr.it(22)?;
    let mut at = 0u64;
    let mut step = || -> Flow<Option<(u64, String)>> { let x = it12.step()?; at += 1; Ok(x.map(|x| (at - 1, x))) };
    let mut next = step()?;
    while let Some((i13, v11)) = next {
    {
    {
    let mut it15 = pr.opt(23)?.into_iter();
    let mut step = || -> Flow<Option<String>> { Ok(it15.next()) };
    let mut next = step()?;
    while let Some(v14) = next {
    {
    m.lit(pr.q(25)?);
    m.lit(pr.mc(26)?); sp(m); m.lit(pr.mc(27)?);
    }
    next = step()?;
    if next.is_some() {
    {
    m.lit(pr.q(24)?);
    }
    }
    }
    }
    if pr.b(28)? { pr.mark(29)?; }
    }
    next = step()?;
    if next.is_some() {
    {
    l(m, "foo");
    }
    }
    }
    }
    {
    let mut it17 = pr.it(30)?;
    let mut step = || -> Flow<Option<String>> { it17.step() };
    let mut next = step()?;
    while let Some(v16) = next {
    {
    let mut s18 = MStream::<()>::default();
    {
    let m = &mut s18;
    m.lit(pr.q(32)?);
    }
    oq(m, false);
    m.add_all(&s18.items);
    cq(m);
    let mut s19 = MStream::<()>::default();
    {
    let m = &mut s19;
    m.lit(pr.q(33)?);
    }
    m.add_all(&s19.items);
    sp(m);
    {
    let mut it21 = [pr.q(34)?, pr.q(35)?].into_iter();
    let mut step = || -> Flow<Option<String>> { Ok(it21.next()) };
    let mut next = step()?;
    while let Some(v20) = next {
    {
    l(m, "_y");
    sp(m);
    m.lit(pr.mc(36)?);
    }
    next = step()?;
    if next.is_some() {
    {
    sp(m);
    l(m, "foo");
    sp(m);
    }
    }
    }
    }
    }
    next = step()?;
    if next.is_some() {
    {
    l(m, ",");
    sp(m);
    }
    }
    }
    }
    }
    p(m);
    }
    next = step()?;
    if next.is_some() {
    {
    l(m, ",");
    sp(m);
    }
    }
    }
    }
    Ok(())
}
fn real_148<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $$  $[str]($name-$name-one$($({ if pr.b(1)? { "t" } else { "f" } })       $(match pr.opt(2)? { Some(v2) => $(for v3 in pr.it(3)? => $(if pr.b(4)? {}))$(match pr.n(5, 9)? { v5 => ($(v2.as_str()) ), })$(pr.c(6)), None => x $("ver batim")$(pr.q(7)?) })/**/$(pr.c(8))))
        $(vec![pr.q(9)?, pr.q(10)?])
    }
    Ok(())
}
fn model_148(m: &mut MV, pr: &Pr) -> Flow {
    l(m, "$");
    sp(m);
    oq(m, true);
    oe(m);
    l(m, "name");
    ce(m);
    l(m, "-");
    oe(m);
    l(m, "name");
    ce(m);
    l(m, "-one");
    oe(m);
    {
    l(m, if pr.b(1)? { "t" } else { "f" });
    sp(m);
    match pr.opt(2)? {
    Some(v2) => {
    {
    let mut it4 = pr.it(3)?;
    let mut step = || -> Flow<Option<String>> { it4.step() };
    while let Some(v3) = step()? {
    if pr.b(4)? {
    }
    }
    }
    match pr.n(5, 9)? {
    v5 => {
    m.lit(v2.clone());
    sp(m);
    }
    }
    m.lit(pr.mc(6)?);
    }
    None => {
    l(m, "x");
    sp(m);
    l(m, "ver batim");
    m.lit(pr.q(7)?);
    }
    }
    sp(m);
    m.lit(pr.mc(8)?);
    }
    ce(m);
    cq(m);
    tp(m);
    { let x = pr.q(9)?; let y = pr.q(10)?; m.lit(x); m.lit(y); }
    Ok(())
}
fn real_149<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(pr.q(1)?.as_str())$(for v1 in 0..pr.n(2, 4)? { $(quote! {
            $(if pr.b(3)? { $(ref _ => if pr.rare(4)? { break; })$(let v4 = pr.n(5, 9)?)$(match pr.n(6, 3)? {
                0 | 2 => { 7$$ },
                v5 => _y
            }) })
              $(match pr.n(7, 9)? {
                  v6 => { $v6       $(ref _ => if pr.rare(8)? { return Err(Left::Return); }); },
              })/**/[
                      $(for v7 in 0..pr.n(9, 4)? join (, ) => $(ref o9 => quote_in!(*o9 => $(from_fn(|t| { t.append(pr.c(12)); t.space(); t.append(pr.c(13)); })))) $(if pr.b(14)? { foo /* between */ foo }))/**/$(let v10 = pr.q(15)?)
              ] $(if pr.b(16)? {} else {
                  $(let v11 = pr.n(17, 9)?)$(let v12 = pr.q(18)?)$[str](one$[const](pr.q(19)?)three$[const](pr.q(20)?))  $(for (i15, v13) in pr.it(21)?.enumerate() =>
                      x$(pr.q(22)?)a1
                      "lit" ;  x (
                          $({ pr.mark(23)?; "blk" })$(pr.q(24)?.as_str()) $(display(pr.n(25, 9)?))
                      )) (
                  
                  
                  // between
                  
                    $(pr.n(26, 9)?) $(pr.q(27)?.as_str())	$(quote!(; $({ if pr.b(28)? { "t" } else { "f" } })))$(ref o17 { o17.append(pr.q(29)?); o17.space(); o17.append(pr.q(30)?); })
                  
                  
                    $(if pr.b(31)? { ; } else { while }) $(ref o18 { if pr.b(32)? { quote_in!(*o18 => $(format!("<{}>", pr.q(33)?)) $$); } o18.push(); })$(for v19 in 0..pr.n(34, 4)? => Self  $(pr.q(35)?.as_str()) $$)
                    $v11
                  
                    // between
                  
                  
                  )
              })
        }) nameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameame })$({ pr.mark(36)?; "blk" })a1
    }
    Ok(())
}
fn model_149(m: &mut MV, pr: &Pr) -> Flow {
    m.lit(pr.q(1)?);
    {
    let mut it2 = 0..pr.n(2, 4)?;
    let mut step = || -> Flow<Option<u64>> { Ok(it2.next()) };
    while let Some(v1) = step()? {
    let mut s3 = MStream::<()>::default();
    {
    let m = &mut s3;
    if pr.b(3)? {
    if pr.rare(4)? { break; }
    let v4 = pr.n(5, 9)?;
    match pr.n(6, 3)? {
    0 | 2 => {
    l(m, "7");
    l(m, "$");
    }
    v5 => {
    l(m, "_y");
    }
    }
    }
    tind(m);
    match pr.n(7, 9)? {
    v6 => {
    m.lit(v6.to_string());
    sp(m);
    if pr.rare(8)? { return Err(Left::Return); }
    l(m, ";");
    }
    }
    sp(m);
    l(m, "[");
    tind(m);
    {
    let mut it8 = 0..pr.n(9, 4)?;
    let mut step = || -> Flow<Option<u64>> { Ok(it8.next()) };
    let mut next = step()?;
    while let Some(v7) = next {
    {
    {
    m.lit(pr.mc(12)?); sp(m); m.lit(pr.mc(13)?);
    }
    sp(m);
    if pr.b(14)? {
    l(m, "foo");
    sp(m);
    l(m, "foo");
    }
    }
    next = step()?;
    if next.is_some() {
    {
    l(m, ",");
    sp(m);
    }
    }
    }
    }
    sp(m);
    let v10 = pr.q(15)?;
    tun(m);
    l(m, "]");
    sp(m);
    if pr.b(16)? {
    } else {
    let v11 = pr.n(17, 9)?;
    let v12 = pr.q(18)?;
    oq(m, false);
    l(m, "one");
    m.lit(pr.q(19)?);
    l(m, "three");
    m.lit(pr.q(20)?);
    cq(m);
    sp(m);
    {
    let mut it14 = pr.it(21)?;
    let mut at = 0u64;
    let mut step = || -> Flow<Option<(u64, String)>> { let x = it14.step()?; at += 1; Ok(x.map(|x| (at - 1, x))) };
    while let Some((i15, v13)) = step()? {
    l(m, "x");
    m.lit(pr.q(22)?);
    l(m, "a1");
    tp(m);
    qs(m, "lit");
    sp(m);
    l(m, ";");
    sp(m);
    l(m, "x");
    sp(m);
    l(m, "(");
    tind(m);
    pr.mark(23)?; l(m, "blk");
    m.lit(pr.q(24)?);
    sp(m);
    m.lit(pr.n(25, 9)?.to_string());
    tun(m);
    l(m, ")");
    }
    }
    sp(m);
    l(m, "(");
    tind(m);
    tln(m);
    m.lit(pr.n(26, 9)?.to_string());
    sp(m);
    m.lit(pr.q(27)?);
    sp(m);
    let mut s16 = MStream::<()>::default();
    {
    let m = &mut s16;
    l(m, ";");
    sp(m);
    l(m, if pr.b(28)? { "t" } else { "f" });
    }
    m.add_all(&s16.items);
    m.lit(pr.q(29)?); sp(m); m.lit(pr.q(30)?);
    tln(m);
    if pr.b(31)? {
    l(m, ";");
    } else {
    l(m, "while");
    }
    sp(m);
    if pr.b(32)? {
    m.lit(format!("<{}>", pr.q(33)?));
    sp(m);
    l(m, "$");
    }
    p(m);
    {
    let mut it20 = 0..pr.n(34, 4)?;
    let mut step = || -> Flow<Option<u64>> { Ok(it20.next()) };
    while let Some(v19) = step()? {
    l(m, "Self");
    sp(m);
    m.lit(pr.q(35)?);
    sp(m);
    l(m, "$");
    }
    }
    tp(m);
    m.lit(v11.to_string());
    tun(m);
    tln(m);
    l(m, ")");
    }
    tend(m);
    }
    m.add_all(&s3.items);
    sp(m);
    l(m, "nameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameame");
    }
    }
    pr.mark(36)?; l(m, "blk");
    l(m, "a1");
    Ok(())
}
fn real_150<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(ref o1 { o1.append(pr.q(1)?); o1.space(); o1.append(pr.q(2)?); }) x$(for v2 in pr.it(3)? { $(let v4 = pr.q(4)?) })
        $(if pr.b(5)? => $[str]($[const](pr.q(6)?)$($(if let (Some(v5), _) = (pr.opt(7)?, pr.b(8)?) { $(if pr.b(9)? { 1.5 } else { $(from_fn(|t| { t.append(pr.c(10)); t.space(); t.append(pr.c(11)); }))       $(quoted(pr.q(12)?)) })$(ref o6 { if pr.rare(13)? { o6.append(pr.q(14)?); return Err(Left::Return); } }) })))/**/$(ref _ => if pr.rare(15)? { return Err(Left::Return); })) $(ref o7 { if pr.rare(16)? { o7.append(pr.q(17)?); return Err(Left::Return); } })
    }
    Ok(())
}
fn model_150(m: &mut MV, pr: &Pr) -> Flow {
    m.lit(pr.q(1)?); sp(m); m.lit(pr.q(2)?);
    sp(m);
    l(m, "x");
    {
    let mut it3 = pr.it(3)?;
    let mut step = || -> Flow<Option<String>> { it3.step() };
    while let Some(v2) = step()? {
    let v4 = pr.q(4)?;
    }
    }
    tp(m);
    if pr.b(5)? {
    oq(m, true);
    m.lit(pr.q(6)?);
    oe(m);
    {
    if let (Some(v5), _) = (pr.opt(7)?, pr.b(8)?) {
    if pr.b(9)? {
    l(m, "1.5");
    } else {
    m.lit(pr.mc(10)?); sp(m); m.lit(pr.mc(11)?);
    sp(m);
    { let x = pr.q(12)?; oq(m, false); m.lit(x); cq(m); }
    }
    if pr.rare(13)? { m.lit(pr.q(14)?); return Err(Left::Return); }
    }
    }
    ce(m);
    cq(m);
    sp(m);
    if pr.rare(15)? { return Err(Left::Return); }
    }
    sp(m);
    if pr.rare(16)? { m.lit(pr.q(17)?); return Err(Left::Return); }
    Ok(())
}
fn real_151<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        bar $(ref o1 { if pr.b(1)? { quote_in!(*o1 => $(pr.multi(2)?)$(match pr.n(3, 5)? { v2 if v2 > 0 && pr.b(4)? => ([$("ver batim") $(quoted(pr.q(6)?))$(pr.q(7)?.as_str()) /* between */ $[str](1 + 2)]$("ä") ), v3 if v3 > 1 && pr.b(5)? => ( $(quote!($(&pr.q(8)?)$(if pr.b(9)? || !pr.b(10)? { $(format!("<{}>", pr.q(11)?))/**/$(pr.n(12, 9)?) }))) bar/**/), _ => (($(match pr.opt(13)? { Some(v5) if v5.is_empty() || pr.b(14)? => { _y $(format!("<{}>", pr.q(16)?))	$(from_fn(|t| { t.append(pr.c(17)); t.space(); t.append(pr.c(18)); })) } None if pr.b(15)? => { $(pr.q(19)?) } Some(v6) => $(pr.q(20)?)	"lit", None => { $(Some(pr.q(21)?)) $(quoted(pr.q(22)?)) } })$(format!("<{}>", pr.q(23)?)) $[str]($[const]("con st")$name-two)$(for v7 in pr.it(24)?.filter(|_| pr.cb(25)) => $(display(pr.n(26, 9)?))$$ $(Some(pr.q(27)?))))  $(if pr.b(28)? || !pr.b(29)? { $(let v9 = pr.q(30)?)$$ })$(" lead")) })); } o1.push(); })$(display(pr.n(31, 9)?))
        _y
    }
    Ok(())
}
fn model_151(m: &mut MV, pr: &Pr) -> Flow {
    l(m, "bar");
    sp(m);
    if pr.b(1)? {
    pr.mmulti(2, m)?;
    match pr.n(3, 5)? {
    v2 if v2 > 0 && pr.b(4)? => {
    l(m, "[");
    l(m, "ver batim");
    sp(m);
    { let x = pr.q(6)?; oq(m, false); m.lit(x); cq(m); }
    m.lit(pr.q(7)?);
    sp(m);
    qs(m, "1 + 2");
    l(m, "]");
    l(m, "ä");
    sp(m);
    }
    v3 if v3 > 1 && pr.b(5)? => {
    sp(m);
    let mut s4 = MStream::<()>::default();
    {
    let m = &mut s4;
    m.lit(pr.q(8)?);
    if pr.b(9)? || !pr.b(10)? {
    m.lit(format!("<{}>", pr.q(11)?));
    sp(m);
    m.lit(pr.n(12, 9)?.to_string());
    }
    }
    m.add_all(&s4.items);
    sp(m);
    l(m, "bar");
    sp(m);
    }
    _ => {
    l(m, "(");
    match pr.opt(13)? {
    Some(v5) if v5.is_empty() || pr.b(14)? => {
    l(m, "_y");
    sp(m);
    m.lit(format!("<{}>", pr.q(16)?));
    sp(m);
    m.lit(pr.mc(17)?); sp(m); m.lit(pr.mc(18)?);
    }
    None if pr.b(15)? => {
    m.lit(pr.q(19)?);
    }
    Some(v6) => {
    m.lit(pr.q(20)?);
    sp(m);
    qs(m, "lit");
    }
    None => {
    m.lit(pr.q(21)?);
    sp(m);
    { let x = pr.q(22)?; oq(m, false); m.lit(x); cq(m); }
    }
    }
    m.lit(format!("<{}>", pr.q(23)?));
    sp(m);
    oq(m, true);
    l(m, "con st");
    oe(m);
    l(m, "name");
    ce(m);
    l(m, "-two");
    cq(m);
    {
    let mut it8 = pr.it(24)?;
    let mut step = || -> Flow<Option<String>> { while let Some(x) = it8.step()? { if pr.mcb(25)? { return Ok(Some(x)); } } Ok(None) };
    while let Some(v7) = step()? {
    m.lit(pr.n(26, 9)?.to_string());
    l(m, "$");
    sp(m);
    m.lit(pr.q(27)?);
    }
    }
    l(m, ")");
    sp(m);
    if pr.b(28)? || !pr.b(29)? {
    let v9 = pr.q(30)?;
    l(m, "$");
    }
    l(m, " lead");
    }
    }
    }
    p(m);
    m.lit(pr.n(31, 9)?.to_string());
    tp(m);
    l(m, "_y");
    Ok(())
}
fn real_152<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(if pr.n(1, 3)? == 1 => $(if pr.n(2, 3)? == 1 {
            $(ref o1 { o1.append(pr.q(3)?); o1.space(); o1.append(pr.q(4)?); }) $(format!("<{}>", pr.q(5)?))
            $(ref o2 { if pr.rare(6)? { o2.append(pr.q(7)?); return Err(Left::Return); } })&
        }))/**/$(for v3 in pr.it(8)? =>
            $(ref _ { pr.mark(9)?; })	'\\'
                "two words"/**/$(for v5 in pr.it(10)? join (, ) {})
                $({ pr.mark(20)?; "blk" })$[str]($[const]("con st"))
                $(pr.opt(21)?)$(for v13 in pr.opt(22)? { $(let v15 = pr.q(23)?) }) a1) [
             $(pr.multi(24)?) $(ref o16 { if pr.rare(25)? { o16.append(pr.q(26)?); return Err(Left::Return); } })
        ]       $(let mut v17 = pr.q(27)?)  [
                   foo$(format!("<{}>", pr.q(28)?))
                     $(format!("<{}>", pr.q(29)?))
        ]  $(ref o18 { if pr.rare(30)? { o18.append(pr.q(31)?); return Err(Left::Return); } })
    }
    Ok(())
}
fn model_152(m: &mut MV, pr: &Pr) -> Flow {
    if pr.n(1, 3)? == 1 {
    if pr.n(2, 3)? == 1 {
    m.lit(pr.q(3)?); sp(m); m.lit(pr.q(4)?);
    sp(m);
    m.lit(format!("<{}>", pr.q(5)?));
    tp(m);
    if pr.rare(6)? { m.lit(pr.q(7)?); return Err(Left::Return); }
    l(m, "&");
    }
    }
    sp(m);
    {
    let mut it4 = pr.it(8)?;
    let mut step = || -> Flow<Option<String>> { it4.step() };
    while let Some(v3) = step()? {
    pr.mark(9)?;
    sp(m);
    l(m, "'\\\\'");
    tind(m);
    qs(m, "two words");
    sp(m);
    {
    let mut it6 = pr.it(10)?;
    let mut step = || -> Flow<Option<String>> { it6.step() };
    let mut next = step()?;
    while let Some(v5) = next {
    {
    }
    next = step()?;
    if next.is_some() {
    {
    l(m, ",");
    sp(m);
    }
    }
    }
    }
    tp(m);
    pr.mark(20)?; l(m, "blk");
    oq(m, false);
    l(m, "con st");
    cq(m);
    tp(m);
    if let Some(x) = pr.opt(21)? { m.lit(x); }
    {
    let mut it14 = pr.opt(22)?.into_iter();
    let mut step = || -> Flow<Option<String>> { Ok(it14.next()) };
    while let Some(v13) = step()? {
    let v15 = pr.q(23)?;
    }
    }
    sp(m);
    l(m, "a1");
    tend(m);
    }
    }
    sp(m);
    l(m, "[");
    tind(m);
    pr.mmulti(24, m)?;
    sp(m);
    if pr.rare(25)? { m.lit(pr.q(26)?); return Err(Left::Return); }
    tun(m);
    l(m, "]");
    sp(m);
    let mut v17 = pr.q(27)?;
    sp(m);
    l(m, "[");
    tind(m);
    l(m, "foo");
    m.lit(format!("<{}>", pr.q(28)?));
    tind(m);
    m.lit(format!("<{}>", pr.q(29)?));
    tun(m);
    tun(m);
    l(m, "]");
    sp(m);
    if pr.rare(30)? { m.lit(pr.q(31)?); return Err(Left::Return); }
    Ok(())
}
fn real_153<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(ref o1 {
            for _ in 0..pr.n(1, 3)? {
                quote_in! { *o1 =>
                    $(pr.n(2, 9)?) 7 // note
                    1_000u64
                    
                        $(ref o2 { if pr.rare(3)? { o2.append(pr.q(4)?); break; } })
                            $(ref _ { pr.mark(5)?; })
                    
                    $(if pr.b(6)? && pr.b(7)? {
                        $(for v3 in pr.it(8)?.filter(|_| pr.cb(9)) join (, ) => $[str]($[const]("con st")) /* between */ $(for v6 in pr.opt(11)? join (, ) => a1 $(&pr.q(12)?)1_000u64))$(ref o8 { if pr.rare(13)? { o8.append(pr.q(14)?); break; } })$(ref o9 { if pr.rare(15)? { o9.append(pr.q(16)?); break; } }) $(quoted(quote!($(ref _ { pr.mark(17)?; }) ...)))
                    } else {})
                    a1 ?
                }
                o1.line();
            }
        }) $(for v11 in [pr.q(18)?, pr.q(19)?] join ($(let v13 = pr.n(20, 9)?)$[str]($name- one$[const](pr.q(21)?))) => $(let v14 = pr.q(22)?)$(ref o15 {
            for _ in 0..pr.n(23, 3)? {
                quote_in! { *o15 =>
                    $(Some(pr.q(24)?))       $(let mut v16 = pr.q(25)?) $(if let (Some(v17), _) = (pr.opt(26)?, pr.b(27)?) { $(ref o18 {
                        for _ in 0..pr.n(28, 3)? {
                            quote_in! { *o18 =>
                                .$({ pr.mark(29)?; "blk" }) x bar$(vec![pr.q(30)?, pr.q(31)?]) /* between */ $(quoted(pr.q(32)?)) foo+
                                
                                
                                
                                
                                x$(quoted(pr.q(33)?))
                                $(pr.q(34)?)
                            }
                            o18.line();
                        }
                    })$(v14.clone()) x })$(quoted(quote! {
                        $(let v20 = pr.q(35)?)$[str]($($(display(pr.n(36, 9)?)) bar /* between */ $$)$("q\"uote"/**/$$ $(Some(pr.q(37)?)))){$(Some(pr.q(38)?))}	(
                        )
                    })) (
                    )
                }
                o15.line();
            }
        }) $("ä"))
        foo
    }
    Ok(())
}
fn model_153(m: &mut MV, pr: &Pr) -> Flow {
    for _ in 0..pr.n(1, 3)? {
    m.lit(pr.n(2, 9)?.to_string());
    sp(m);
    l(m, "7");
    tp(m);
    l(m, "1_000u64");
    tind(m);
    tln(m);
    if pr.rare(3)? { m.lit(pr.q(4)?); break; }
    tind(m);
    pr.mark(5)?;
    tun(m);
    tln(m);
    tun(m);
    tln(m);
    if pr.b(6)? && pr.b(7)? {
    {
    let mut it4 = pr.it(8)?;
    let mut step = || -> Flow<Option<String>> { while let Some(x) = it4.step()? { if pr.mcb(9)? { return Ok(Some(x)); } } Ok(None) };
    let mut next = step()?;
    while let Some(v3) = next {
    {
    oq(m, false);
    l(m, "con st");
    cq(m);
    sp(m);
    {
    let mut it7 = pr.opt(11)?.into_iter();
    let mut step = || -> Flow<Option<String>> { Ok(it7.next()) };
    let mut next = step()?;
    while let Some(v6) = next {
    {
    l(m, "a1");
    sp(m);
    m.lit(pr.q(12)?);
    l(m, "1_000u64");
    }
    next = step()?;
    if next.is_some() {
    {
    l(m, ",");
    sp(m);
    }
    }
    }
    }
    }
    next = step()?;
    if next.is_some() {
    {
    l(m, ",");
    sp(m);
    }
    }
    }
    }
    if pr.rare(13)? { m.lit(pr.q(14)?); break; }
    if pr.rare(15)? { m.lit(pr.q(16)?); break; }
    sp(m);
    let mut s10 = MStream::<()>::default();
    {
    let m = &mut s10;
    pr.mark(17)?;
    sp(m);
    l(m, "...");
    }
    oq(m, false);
    m.add_all(&s10.items);
    cq(m);
    } else {
    }
    tp(m);
    l(m, "a1");
    sp(m);
    l(m, "?");
    ln(m);
    }
    sp(m);
    {
    let mut it12 = [pr.q(18)?, pr.q(19)?].into_iter();
    let mut step = || -> Flow<Option<String>> { Ok(it12.next()) };
    let mut next = step()?;
    while let Some(v11) = next {
    {
    let v14 = pr.q(22)?;
    for _ in 0..pr.n(23, 3)? {
    m.lit(pr.q(24)?);
    sp(m);
    let mut v16 = pr.q(25)?;
    sp(m);
    if let (Some(v17), _) = (pr.opt(26)?, pr.b(27)?) {
    for _ in 0..pr.n(28, 3)? {
    l(m, ".");
    pr.mark(29)?; l(m, "blk");
    sp(m);
    l(m, "x");
    sp(m);
    l(m, "bar");
    { let x = pr.q(30)?; let y = pr.q(31)?; m.lit(x); m.lit(y); }
    sp(m);
    { let x = pr.q(32)?; oq(m, false); m.lit(x); cq(m); }
    sp(m);
    l(m, "foo");
    l(m, "+");
    tln(m);
    l(m, "x");
    { let x = pr.q(33)?; oq(m, false); m.lit(x); cq(m); }
    tp(m);
    m.lit(pr.q(34)?);
    ln(m);
    }
    m.lit(v14.clone());
    sp(m);
    l(m, "x");
    }
    let mut s19 = MStream::<()>::default();
    {
    let m = &mut s19;
    let v20 = pr.q(35)?;
    oq(m, true);
    oe(m);
    {
    m.lit(pr.n(36, 9)?.to_string());
    sp(m);
    l(m, "bar");
    sp(m);
    l(m, "$");
    }
    ce(m);
    oe(m);
    {
    qs(m, "q\"uote");
    sp(m);
    l(m, "$");
    sp(m);
    m.lit(pr.q(37)?);
    }
    ce(m);
    cq(m);
    l(m, "{");
    m.lit(pr.q(38)?);
    l(m, "}");
    sp(m);
    l(m, "(");
    tp(m);
    l(m, ")");
    }
    oq(m, false);
    m.add_all(&s19.items);
    cq(m);
    sp(m);
    l(m, "(");
    tp(m);
    l(m, ")");
    ln(m);
    }
    sp(m);
    l(m, "ä");
    }
    next = step()?;
    if next.is_some() {
    {
    let v13 = pr.n(20, 9)?;
    oq(m, true);
    oe(m);
    l(m, "name");
    ce(m);
    l(m, "- one");
    m.lit(pr.q(21)?);
    cq(m);
    }
    }
    }
    }
    tp(m);
    l(m, "foo");
    Ok(())
}
fn real_154<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(display(pr.n(1, 9)?))while/**/($$ ($(pr.opt(5)?) ($$ $(from_fn(|t| { t.append(pr.c(2)); t.space(); t.append(pr.c(3)); })) $(Some(pr.q(4)?))) $$) $(quoted(pr.q(6)?)))	[
             ||$(ref _ => if pr.rare(7)? { return Err(Left::Return); }) $({ pr.mark(8)?; "blk" })
        ]
    }
    Ok(())
}
fn model_154(m: &mut MV, pr: &Pr) -> Flow {
    m.lit(pr.n(1, 9)?.to_string());
    l(m, "while");
    sp(m);
    l(m, "(");
    l(m, "$");
    sp(m);
    l(m, "(");
    if let Some(x) = pr.opt(5)? { m.lit(x); }
    sp(m);
    l(m, "(");
    l(m, "$");
    sp(m);
    m.lit(pr.mc(2)?); sp(m); m.lit(pr.mc(3)?);
    sp(m);
    m.lit(pr.q(4)?);
    l(m, ")");
    sp(m);
    l(m, "$");
    l(m, ")");
    sp(m);
    { let x = pr.q(6)?; oq(m, false); m.lit(x); cq(m); }
    l(m, ")");
    sp(m);
    l(m, "[");
    tind(m);
    l(m, "||");
    if pr.rare(7)? { return Err(Left::Return); }
    sp(m);
    pr.mark(8)?; l(m, "blk");
    tun(m);
    l(m, "]");
    Ok(())
}
fn real_155<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(for v1 in pr.opt(1)? => $(match pr.n(2, 11)? { 0 => $$ { $(quoted(pr.q(8)?)) $(display(pr.n(9, 9)?))$(format!("<{}>", pr.q(10)?)), bar}, 1 | 21 => ($$), 2 if pr.b(3)? => ([] ), 3 => { $(display(pr.n(11, 9)?)) }, 4 => foo$(format!("<{}>", pr.q(12)?))$(format!("<{}>", pr.q(13)?)), 5 if pr.b(4)? => { while  while } 6 if pr.b(5)? => ($(Some(pr.q(14)?))/**/), 7 if pr.b(6)? => foo $(format!("<{}>", pr.q(15)?))	&, 8 if pr.b(7)? => a1       $({ pr.mark(16)?; "blk" })$({ pr.mark(17)?; "blk" }), v3 => { =       $(pr.q(18)?); } }) {$$ ($$ ($$ [$$ [, $(Some(pr.q(19)?)) $(display(pr.n(20, 9)?))] =] $$) $(display(pr.n(21, 9)?))) a1})
            $(pr.c(22)) [

            ]
    }
    Ok(())
}
fn model_155(m: &mut MV, pr: &Pr) -> Flow {
    {
    let mut it2 = pr.opt(1)?.into_iter();
    let mut step = || -> Flow<Option<String>> { Ok(it2.next()) };
    while let Some(v1) = step()? {
    match pr.n(2, 11)? {
    0 => {
    l(m, "$");
    sp(m);
    l(m, "{");
    sp(m);
    { let x = pr.q(8)?; oq(m, false); m.lit(x); cq(m); }
    sp(m);
    m.lit(pr.n(9, 9)?.to_string());
    m.lit(format!("<{}>", pr.q(10)?));
    l(m, ",");
    sp(m);
    l(m, "bar");
    l(m, "}");
    }
    1 | 21 => {
    l(m, "$");
    }
    2 if pr.b(3)? => {
    l(m, "[]");
    sp(m);
    }
    3 => {
    m.lit(pr.n(11, 9)?.to_string());
    }
    4 => {
    l(m, "foo");
    m.lit(format!("<{}>", pr.q(12)?));
    m.lit(format!("<{}>", pr.q(13)?));
    }
    5 if pr.b(4)? => {
    l(m, "while");
    sp(m);
    l(m, "while");
    }
    6 if pr.b(5)? => {
    m.lit(pr.q(14)?);
    sp(m);
    }
    7 if pr.b(6)? => {
    l(m, "foo");
    sp(m);
    m.lit(format!("<{}>", pr.q(15)?));
    sp(m);
    l(m, "&");
    }
    8 if pr.b(7)? => {
    l(m, "a1");
    sp(m);
    pr.mark(16)?; l(m, "blk");
    pr.mark(17)?; l(m, "blk");
    }
    v3 => {
    l(m, "=");
    sp(m);
    m.lit(pr.q(18)?);
    l(m, ";");
    }
    }
    sp(m);
    l(m, "{");
    l(m, "$");
    sp(m);
    l(m, "(");
    l(m, "$");
    sp(m);
    l(m, "(");
    l(m, "$");
    sp(m);
    l(m, "[");
    l(m, "$");
    sp(m);
    l(m, "[");
    l(m, ",");
    sp(m);
    m.lit(pr.q(19)?);
    sp(m);
    m.lit(pr.n(20, 9)?.to_string());
    l(m, "]");
    sp(m);
    l(m, "=");
    l(m, "]");
    sp(m);
    l(m, "$");
    l(m, ")");
    sp(m);
    m.lit(pr.n(21, 9)?.to_string());
    l(m, ")");
    sp(m);
    l(m, "a1");
    l(m, "}");
    }
    }
    tind(m);
    m.lit(pr.mc(22)?);
    sp(m);
    l(m, "[");
    tln(m);
    l(m, "]");
    tend(m);
    Ok(())
}
fn real_156<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(match (pr.b(1)?, pr.n(2, 3)?) { (true, 0) => +	Self$$, (false, v1) if v1 < 2 && pr.b(3)? => $(for v2 in pr.it(5)? join ($(vec![pr.q(6)?, pr.q(7)?])) => $$ $(let (v4, v5) = (pr.q(8)?, pr.n(9, 9)?))) $(ref _ => if pr.rare(10)? { return Err(Left::Return); }), (_, 1) | (true, _) => $(pr.n(11, 9)?) bar [ ,$(display(pr.n(12, 9)?))$(pr.q(13)?), $(quoted(pr.q(14)?))], _ if pr.b(4)? => r#type$(pr.opt(15)?) /* between */ $(format!("<{}>", pr.q(16)?)) {  foo, , 'a}, (..) => { $$ $(from_fn(|t| { t.append(pr.c(17)); t.space(); t.append(pr.c(18)); })) _y }, })
    }
    Ok(())
}
fn model_156(m: &mut MV, pr: &Pr) -> Flow {
    match (pr.b(1)?, pr.n(2, 3)?) {
    (true, 0) => {
    l(m, "+");
    sp(m);
    l(m, "Self");
    l(m, "$");
    }
    (false, v1) if v1 < 2 && pr.b(3)? => {
    {
    let mut it3 = pr.it(5)?;
    let mut step = || -> Flow<Option<String>> { it3.step() };
    let mut next = step()?;
    while let Some(v2) = next {
    {
    l(m, "$");
    sp(m);
    let (v4, v5) = (pr.q(8)?, pr.n(9, 9)?);
    }
    next = step()?;
    if next.is_some() {
    {
    { let x = pr.q(6)?; let y = pr.q(7)?; m.lit(x); m.lit(y); }
    }
    }
    }
    }
    sp(m);
    if pr.rare(10)? { return Err(Left::Return); }
    }
    (_, 1) | (true, _) => {
    m.lit(pr.n(11, 9)?.to_string());
    sp(m);
    l(m, "bar");
    sp(m);
    l(m, "[");
    sp(m);
    l(m, ",");
    m.lit(pr.n(12, 9)?.to_string());
    m.lit(pr.q(13)?);
    l(m, ",");
    sp(m);
    { let x = pr.q(14)?; oq(m, false); m.lit(x); cq(m); }
    l(m, "]");
    }
    _ if pr.b(4)? => {
    l(m, "r#type");
    if let Some(x) = pr.opt(15)? { m.lit(x); }
    sp(m);
    m.lit(format!("<{}>", pr.q(16)?));
    sp(m);
    l(m, "{");
    sp(m);
    l(m, "foo");
    l(m, ",");
    sp(m);
    l(m, ",");
    sp(m);
    l(m, "'a");
    l(m, "}");
    }
    (..) => {
    l(m, "$");
    sp(m);
    m.lit(pr.mc(17)?); sp(m); m.lit(pr.mc(18)?);
    sp(m);
    l(m, "_y");
    }
    }
    Ok(())
}
fn real_157<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        ($(match pr.n(1, 3)? {
            0 | 2 => $(&quote! {
                $({ pr.mark(2)?; "blk" })$(for v2 in pr.it(3)? join (, ) {
                    +
                    
                    _y$(Some(pr.q(5)?))	[ // note
                    
                        $(from_fn(|t| { t.append(pr.c(6)); t.space(); t.append(pr.c(7)); }))// note
                    
                    
                        ?$(pr.q(8)?)
                            $(display(pr.n(9, 9)?))
                    ]
                }) bar
            }) [ /* between */ $(if pr.b(10)? { $(pr.q(11)?.as_str()) })Self, $(pr.q(12)?)       $(ref _ => if pr.b(13)? { pr.mark(14)?; })],
            _ => $(ref o4 { if pr.b(15)? { quote_in!(*o4 => $(for v5 in 0..pr.n(16, 4)? join (, ) { $({ if pr.b(17)? { "t" } else { "f" } })$(&pr.q(18)?) })  Self); } o4.push(); })$(from_fn(|t| { t.append(pr.c(19)); t.space(); t.append(pr.c(20)); })) ($(from_fn(|t| { t.append(pr.c(21)); t.space(); t.append(pr.c(22)); }))$(let v7 = pr.q(23)?)$(quoted(pr.q(24)?)) a1, while $(match pr.q(25)? {
                v8 => $(&pr.q(26)?)       $(pr.n(27, 9)?) x ( /* between */ $({ pr.mark(28)?; "blk" }) $(quoted(pr.q(29)?)), "lit"       , /* between */ )
            })       )
        }) )/**/(   
        // between

        )
    }
    Ok(())
}
fn model_157(m: &mut MV, pr: &Pr) -> Flow {
    l(m, "(");
    match pr.n(1, 3)? {
    0 | 2 => {
    let mut s1 = MStream::<()>::default();
    {
    let m = &mut s1;
    pr.mark(2)?; l(m, "blk");
    {
    let mut it3 = pr.it(3)?;
    let mut step = || -> Flow<Option<String>> { it3.step() };
    let mut next = step()?;
    while let Some(v2) = next {
    {
    l(m, "+");
    tln(m);
    l(m, "_y");
    m.lit(pr.q(5)?);
    sp(m);
    l(m, "[");
    tind(m);
    tln(m);
    m.lit(pr.mc(6)?); sp(m); m.lit(pr.mc(7)?);
    tln(m);
    l(m, "?");
    m.lit(pr.q(8)?);
    tind(m);
    m.lit(pr.n(9, 9)?.to_string());
    tun(m);
    tun(m);
    l(m, "]");
    }
    next = step()?;
    if next.is_some() {
    {
    l(m, ",");
    sp(m);
    }
    }
    }
    }
    sp(m);
    l(m, "bar");
    }
    m.add_all(&s1.items);
    sp(m);
    l(m, "[");
    sp(m);
    if pr.b(10)? {
    m.lit(pr.q(11)?);
    }
    l(m, "Self");
    l(m, ",");
    sp(m);
    m.lit(pr.q(12)?);
    sp(m);
    if pr.b(13)? { pr.mark(14)?; }
    l(m, "]");
    }
    _ => {
    if pr.b(15)? {
    {
    let mut it6 = 0..pr.n(16, 4)?;
    let mut step = || -> Flow<Option<u64>> { Ok(it6.next()) };
    let mut next = step()?;
    while let Some(v5) = next {
    {
    l(m, if pr.b(17)? { "t" } else { "f" });
    m.lit(pr.q(18)?);
    }
    next = step()?;
    if next.is_some() {
    {
    l(m, ",");
    sp(m);
    }
    }
    }
    }
    sp(m);
    l(m, "Self");
    }
    p(m);
    m.lit(pr.mc(19)?); sp(m); m.lit(pr.mc(20)?);
    sp(m);
    l(m, "(");
    m.lit(pr.mc(21)?); sp(m); m.lit(pr.mc(22)?);
    let v7 = pr.q(23)?;
    { let x = pr.q(24)?; oq(m, false); m.lit(x); cq(m); }
    sp(m);
    l(m, "a1");
    l(m, ",");
    sp(m);
    l(m, "while");
    sp(m);
    match pr.q(25)? {
    v8 => {
    m.lit(pr.q(26)?);
    sp(m);
    m.lit(pr.n(27, 9)?.to_string());
    sp(m);
    l(m, "x");
    sp(m);
    l(m, "(");
    sp(m);
    pr.mark(28)?; l(m, "blk");
    sp(m);
    { let x = pr.q(29)?; oq(m, false); m.lit(x); cq(m); }
    l(m, ",");
    sp(m);
    qs(m, "lit");
    sp(m);
    l(m, ",");
    sp(m);
    l(m, ")");
    }
    }
    sp(m);
    l(m, ")");
    }
    }
    sp(m);
    l(m, ")");
    sp(m);
    l(m, "(");
    tln(m);
    l(m, ")");
    Ok(())
}
fn real_158<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(ref _ => if pr.b(1)? { pr.mark(2)?; })$(let v1 = pr.n(3, 9)?)$(for v2 in 0..pr.n(4, 4)? join (, ) => ;)$(if let (Some(v15), _) = (pr.opt(31)?, pr.b(32)?) { $(display(pr.n(33, 9)?)) $(let v16 = pr.q(34)?) })
    }
    Ok(())
}
fn model_158(m: &mut MV, pr: &Pr) -> Flow {
    if pr.b(1)? { pr.mark(2)?; }
    let v1 = pr.n(3, 9)?;
    {
    let mut it3 = 0..pr.n(4, 4)?;
    let mut step = || -> Flow<Option<u64>> { Ok(it3.next()) };
    let mut next = step()?;
    while let Some(v2) = next {
    {
    l(m, ";");
    }
    next = step()?;
    if next.is_some() {
    {
    l(m, ",");
    sp(m);
    }
    }
    }
    }
    if let (Some(v15), _) = (pr.opt(31)?, pr.b(32)?) {
    m.lit(pr.n(33, 9)?.to_string());
    sp(m);
    let v16 = pr.q(34)?;
    }
    Ok(())
}
fn real_159<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(let (v1, v2) = (pr.q(1)?, pr.n(2, 9)?))/**/$(match (pr.b(3)?, pr.n(4, 3)?) { (true, 0) => ( $v2 ), (_, 1) | (true, _) => $(for (i6, v4) in pr.it(6)?.enumerate() { $(if pr.b(7)? { Self } else {})$v2 })	&$("ä") [  ($(pr.multi(9)?) ($$ [$$ ($$ {$$ {a1 $(pr.q(8)?.as_str()) $$} $$} $$) $$] 'a) $(pr.q(10)?))/**/$(ref o7 { if pr.rare(11)? { o7.append(pr.q(12)?); return Err(Left::Return); } }), bar], _ if pr.b(5)? => {} _ => { $(match pr.opt(13)? { _ if pr.b(14)? => { $("ver batim")	$(ref o10 => quote_in!(*o10 => $(&quote!(+  $(Some(pr.q(16)?))))$(ref _ => if pr.rare(17)? { return Err(Left::Return); }))) } Some(v9) => $(format!("<{}>", pr.q(18)?)) ($(pr.multi(19)?) ||$({ if pr.b(20)? { "t" } else { "f" } }), $(v1.clone()) ), None => { $(pr.c(21)) } }) }, }) {

            $(match pr.n(22, 5)? {
                0 if pr.b(23)? => ($(display(pr.n(25, 9)?))$(let v13 = pr.q(26)?)),
                v12 if v12 > 1 && pr.b(24)? => {}
                _ => ( $v2 $(ref o14 => quote_in!(*o14 => $(ref _ => if pr.rare(28)? { return Err(Left::Return); })))$(vec![pr.q(29)?, pr.q(30)?])),
            })$(ref o15 { o15.append(pr.q(31)?); o15.space(); o15.append(pr.q(32)?); })$(ref o16 { if pr.rare(33)? { o16.append(pr.q(34)?); return Err(Left::Return); } }) $v2$(" lead")$(&pr.q(35)?) [
                $({ if pr.b(36)? { "t" } else { "f" } })
            ]
        }
    }
    Ok(())
}
fn model_159(m: &mut MV, pr: &Pr) -> Flow {
    let (v1, v2) = (pr.q(1)?, pr.n(2, 9)?);
    sp(m);
    match (pr.b(3)?, pr.n(4, 3)?) {
    (true, 0) => {
    sp(m);
    m.lit(v2.to_string());
    sp(m);
    }
    (_, 1) | (true, _) => {
    {
    let mut it5 = pr.it(6)?;
    let mut at = 0u64;
    let mut step = || -> Flow<Option<(u64, String)>> { let x = it5.step()?; at += 1; Ok(x.map(|x| (at - 1, x))) };
    while let Some((i6, v4)) = step()? {
    if pr.b(7)? {
    l(m, "Self");
    } else {
    }
    m.lit(v2.to_string());
    }
    }
    sp(m);
    l(m, "&");
    l(m, "ä");
    sp(m);
    l(m, "[");
    sp(m);
    l(m, "(");
    pr.mmulti(9, m)?;
    sp(m);
    l(m, "(");
    l(m, "$");
    sp(m);
    l(m, "[");
    l(m, "$");
    sp(m);
    l(m, "(");
    l(m, "$");
    sp(m);
    l(m, "{");
    l(m, "$");
    sp(m);
    l(m, "{");
    l(m, "a1");
    sp(m);
    m.lit(pr.q(8)?);
    sp(m);
    l(m, "$");
    l(m, "}");
    sp(m);
    l(m, "$");
    l(m, "}");
    sp(m);
    l(m, "$");
    l(m, ")");
    sp(m);
    l(m, "$");
    l(m, "]");
    sp(m);
    l(m, "'a");
    l(m, ")");
    sp(m);
    m.lit(pr.q(10)?);
    l(m, ")");
    sp(m);
    if pr.rare(11)? { m.lit(pr.q(12)?); return Err(Left::Return); }
    l(m, ",");
    sp(m);
    l(m, "bar");
    l(m, "]");
    }
    _ if pr.b(5)? => {
    }
    _ => {
    match pr.opt(13)? {
    _ if pr.b(14)? => {
    l(m, "ver batim");
    sp(m);
    {
    let mut s11 = MStream::<()>::default();
    {
    let m = &mut s11;
    l(m, "+");
    sp(m);
    m.lit(pr.q(16)?);
    }
    m.add_all(&s11.items);
    if pr.rare(17)? { return Err(Left::Return); }
    }
    }
    Some(v9) => {
    m.lit(format!("<{}>", pr.q(18)?));
    sp(m);
    l(m, "(");
    pr.mmulti(19, m)?;
    sp(m);
    l(m, "||");
    l(m, if pr.b(20)? { "t" } else { "f" });
    l(m, ",");
    sp(m);
    m.lit(v1.clone());
    sp(m);
    l(m, ")");
    }
    None => {
    m.lit(pr.mc(21)?);
    }
    }
    }
    }
    sp(m);
    l(m, "{");
    tind(m);
    tln(m);
    match pr.n(22, 5)? {
    0 if pr.b(23)? => {
    m.lit(pr.n(25, 9)?.to_string());
    let v13 = pr.q(26)?;
    }
    v12 if v12 > 1 && pr.b(24)? => {
    }
    _ => {
    sp(m);
    m.lit(v2.to_string());
    sp(m);
    {
    if pr.rare(28)? { return Err(Left::Return); }
    }
    { let x = pr.q(29)?; let y = pr.q(30)?; m.lit(x); m.lit(y); }
    }
    }
    m.lit(pr.q(31)?); sp(m); m.lit(pr.q(32)?);
    if pr.rare(33)? { m.lit(pr.q(34)?); return Err(Left::Return); }
    sp(m);
    m.lit(v2.to_string());
    l(m, " lead");
    m.lit(pr.q(35)?);
    sp(m);
    l(m, "[");
    tind(m);
    l(m, if pr.b(36)? { "t" } else { "f" });
    tun(m);
    l(m, "]");
    tun(m);
    l(m, "}");
    Ok(())
}
fn real_160<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        x1$(&pr.q(1)?);
        ab $(pr.q(2)?);
        ; $['\n']
        ;$("ver batim")z_
        ;$(if pr.n(3, 3)? == 1 { $(from_fn(|t| { t.append(pr.c(4)); t.space(); t.append(pr.c(5)); }))_y } else { $(match pr.opt(6)? { _ if pr.b(7)? => $({ if pr.b(8)? { "t" } else { "f" } }), Some(v2) => $$, _ => (/**/$(pr.n(9, 9)?)/**/) }) $(pr.q(10)?)$(Some(pr.q(11)?)) }).
    }
    Ok(())
}
fn model_160(m: &mut MV, pr: &Pr) -> Flow {
    l(m, "x1");
    m.lit(pr.q(1)?);
    l(m, ";");
    tp(m);
    l(m, "ab");
    sp(m);
    m.lit(pr.q(2)?);
    l(m, ";");
    tp(m);
    l(m, ";");
    sp(m);
    ln(m);
    tp(m);
    l(m, ";");
    l(m, "ver batim");
    l(m, "z_");
    tp(m);
    l(m, ";");
    if pr.n(3, 3)? == 1 {
    m.lit(pr.mc(4)?); sp(m); m.lit(pr.mc(5)?);
    l(m, "_y");
    } else {
    match pr.opt(6)? {
    _ if pr.b(7)? => {
    l(m, if pr.b(8)? { "t" } else { "f" });
    }
    Some(v2) => {
    l(m, "$");
    }
    _ => {
    sp(m);
    m.lit(pr.n(9, 9)?.to_string());
    sp(m);
    }
    }
    sp(m);
    m.lit(pr.q(10)?);
    m.lit(pr.q(11)?);
    }
    l(m, ".");
    Ok(())
}
fn real_161<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        ab$(for v1 in pr.it(1)? => $$);
        x1$(match (pr.b(2)?, pr.n(3, 3)?) { (true, 0) => { $(let (v4, v5) = (pr.q(5)?, pr.n(6, 9)?))$(for v6 in pr.it(7)? join (/**/while) => & /* between */ $(from_fn(|t| { t.append(pr.c(8)); t.space(); t.append(pr.c(9)); })) $(pr.q(10)?)) }, (false, v3) if v3 < 2 && pr.b(4)? => ( $(let v8 = pr.n(11, 9)?)$[str]($(a1 ->/**/$(quoted(pr.q(12)?)))$[const](pr.q(13)?)one$[const]("con st"))$(pr.n(14, 9)?) ), (_, 1) | (true, _) => $(&pr.q(15)?)$(format!("<{}>", pr.q(16)?)) { $(pr.c(17)), $(pr.q(18)?)       }, _ => _y {	$(display(pr.n(19, 9)?)) /* between */ while, "lit"}, })yz
        + $(match pr.opt(20)? { Some(v9) if v9.is_empty() || pr.b(21)? => ( $(ref o11 { if pr.rare(23)? { o11.append(pr.q(24)?); return Err(Left::Return); } })$(v9.as_str())	$(pr.multi(25)?)), None if pr.b(22)? => (       $("ver batim")$(for (i14, v12) in pr.it(26)?.enumerate() { $(format!("<{}>", pr.q(27)?)) })$("ä")), Some(v10) => { = } _ => $(pr.c(28)) [$(pr.multi(29)?)  _y ||, foo$(vec![pr.q(30)?, pr.q(31)?]) /* between */ ], }).
        x1$(let v15 = pr.n(32, 9)?);
        ab$(ref o16 { if pr.b(33)? { quote_in!(*o16 => $("ver batim") /* between */ $v15$(pr.c(34))); } o16.push(); })yz
    }
    Ok(())
}
fn model_161(m: &mut MV, pr: &Pr) -> Flow {
    l(m, "ab");
    {
    let mut it2 = pr.it(1)?;
    let mut step = || -> Flow<Option<String>> { it2.step() };
    while let Some(v1) = step()? {
    l(m, "$");
    }
    }
    l(m, ";");
    tp(m);
    l(m, "x1");
    match (pr.b(2)?, pr.n(3, 3)?) {
    (true, 0) => {
    let (v4, v5) = (pr.q(5)?, pr.n(6, 9)?);
    {
    let mut it7 = pr.it(7)?;
    let mut step = || -> Flow<Option<String>> { it7.step() };
    let mut next = step()?;
    while let Some(v6) = next {
    {
    l(m, "&");
    sp(m);
    m.lit(pr.mc(8)?); sp(m); m.lit(pr.mc(9)?);
    sp(m);
    m.lit(pr.q(10)?);
    }
    next = step()?;
    if next.is_some() {
    {
    sp(m);
    l(m, "while");
    }
    }
    }
    }
    }
    (false, v3) if v3 < 2 && pr.b(4)? => {
    sp(m);
    let v8 = pr.n(11, 9)?;
    oq(m, true);
    oe(m);
    {
    l(m, "a1");
    sp(m);
    l(m, "->");
    sp(m);
    { let x = pr.q(12)?; oq(m, false); m.lit(x); cq(m); }
    }
    ce(m);
    m.lit(pr.q(13)?);
    l(m, "onecon st");
    cq(m);
    m.lit(pr.n(14, 9)?.to_string());
    sp(m);
    }
    (_, 1) | (true, _) => {
    m.lit(pr.q(15)?);
    m.lit(format!("<{}>", pr.q(16)?));
    sp(m);
    l(m, "{");
    sp(m);
    m.lit(pr.mc(17)?);
    l(m, ",");
    sp(m);
    m.lit(pr.q(18)?);
    sp(m);
    l(m, "}");
    }
    _ => {
    l(m, "_y");
    sp(m);
    l(m, "{");
    sp(m);
    m.lit(pr.n(19, 9)?.to_string());
    sp(m);
    l(m, "while");
    l(m, ",");
    sp(m);
    qs(m, "lit");
    l(m, "}");
    }
    }
    l(m, "yz");
    tp(m);
    l(m, "+");
    sp(m);
    match pr.opt(20)? {
    Some(v9) if v9.is_empty() || pr.b(21)? => {
    sp(m);
    if pr.rare(23)? { m.lit(pr.q(24)?); return Err(Left::Return); }
    m.lit(v9.clone());
    sp(m);
    pr.mmulti(25, m)?;
    }
    None if pr.b(22)? => {
    sp(m);
    l(m, "ver batim");
    {
    let mut it13 = pr.it(26)?;
    let mut at = 0u64;
    let mut step = || -> Flow<Option<(u64, String)>> { let x = it13.step()?; at += 1; Ok(x.map(|x| (at - 1, x))) };
    while let Some((i14, v12)) = step()? {
    m.lit(format!("<{}>", pr.q(27)?));
    }
    }
    l(m, "ä");
    }
    Some(v10) => {
    l(m, "=");
    }
    _ => {
    m.lit(pr.mc(28)?);
    sp(m);
    l(m, "[");
    pr.mmulti(29, m)?;
    sp(m);
    l(m, "_y");
    sp(m);
    l(m, "||");
    l(m, ",");
    sp(m);
    l(m, "foo");
    { let x = pr.q(30)?; let y = pr.q(31)?; m.lit(x); m.lit(y); }
    sp(m);
    l(m, "]");
    }
    }
    l(m, ".");
    tp(m);
    l(m, "x1");
    let v15 = pr.n(32, 9)?;
    l(m, ";");
    tp(m);
    l(m, "ab");
    if pr.b(33)? {
    l(m, "ver batim");
    sp(m);
    m.lit(v15.to_string());
    m.lit(pr.mc(34)?);
    }
    p(m);
    l(m, "yz");
    Ok(())
}
fn real_162<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        +$(&quote! {
            $(match pr.n(1, 5)? { v2 if v2 > 0 && pr.b(2)? => (       $(pr.n(3, 9)?)bar ), v3 => foo :: ( Self $(vec![pr.q(4)?, pr.q(5)?]), 'c' /* between */ ) })   
                $(match pr.n(6, 5)? { 0..=1 => ( $(display(pr.n(8, 9)?)) a1  ), v4 if v4 > 1 && pr.b(7)? => $$  _y x [       $$ Self$(pr.q(9)?.as_str()) $(from_fn(|t| { t.append(pr.c(10)); t.space(); t.append(pr.c(11)); })), ,$(quoted(pr.q(12)?))], 2 | 4 => { Self $(pr.q(13)?) } _ => { $(pr.multi(14)?) }, })./**/(
                    Self /* between */ while
                )       _y $(pr.multi(15)?)
                foo
                while ||   
            
                a1       Self
                $(pr.opt(16)?)bar
            
                    && [
                    ]
        }).
        +$[str]($name- two$($({ if pr.b(17)? { "t" } else { "f" } }))$[const]("con st")$name-$[const]("con st")$[const]("con st")$($(match pr.q(18)? { v5 => {}, })$(for v6 in pr.it(19)? { '\\'$({ pr.mark(20)?; "blk" }) }))$[const](pr.q(21)?));
        $(&pr.q(22)?) ;
        ;$(pr.q(23)?);
        x1 $['\r']yz
    }
    Ok(())
}
fn model_162(m: &mut MV, pr: &Pr) -> Flow {
    l(m, "+");
    let mut s1 = MStream::<()>::default();
    {
    let m = &mut s1;
    match pr.n(1, 5)? {
    v2 if v2 > 0 && pr.b(2)? => {
    sp(m);
    m.lit(pr.n(3, 9)?.to_string());
    l(m, "bar");
    sp(m);
    }
    v3 => {
    l(m, "foo");
    sp(m);
    l(m, "::");
    sp(m);
    l(m, "(");
    sp(m);
    l(m, "Self");
    sp(m);
    { let x = pr.q(4)?; let y = pr.q(5)?; m.lit(x); m.lit(y); }
    l(m, ",");
    sp(m);
    l(m, "'c'");
    sp(m);
    l(m, ")");
    }
    }
    tind(m);
    match pr.n(6, 5)? {
    0..=1 => {
    sp(m);
    m.lit(pr.n(8, 9)?.to_string());
    sp(m);
    l(m, "a1");
    sp(m);
    }
    v4 if v4 > 1 && pr.b(7)? => {
    l(m, "$");
    sp(m);
    l(m, "_y");
    sp(m);
    l(m, "x");
    sp(m);
    l(m, "[");
    sp(m);
    l(m, "$");
    sp(m);
    l(m, "Self");
    m.lit(pr.q(9)?);
    sp(m);
    m.lit(pr.mc(10)?); sp(m); m.lit(pr.mc(11)?);
    l(m, ",");
    sp(m);
    l(m, ",");
    { let x = pr.q(12)?; oq(m, false); m.lit(x); cq(m); }
    l(m, "]");
    }
    2 | 4 => {
    l(m, "Self");
    sp(m);
    m.lit(pr.q(13)?);
    }
    _ => {
    pr.mmulti(14, m)?;
    }
    }
    l(m, ".");
    sp(m);
    l(m, "(");
    tind(m);
    l(m, "Self");
    sp(m);
    l(m, "while");
    tun(m);
    l(m, ")");
    sp(m);
    l(m, "_y");
    sp(m);
    pr.mmulti(15, m)?;
    tp(m);
    l(m, "foo");
    tp(m);
    l(m, "while");
    sp(m);
    l(m, "||");
    tln(m);
    l(m, "a1");
    sp(m);
    l(m, "Self");
    tp(m);
    if let Some(x) = pr.opt(16)? { m.lit(x); }
    l(m, "bar");
    tind(m);
    tln(m);
    l(m, "&&");
    sp(m);
    l(m, "[");
    tp(m);
    l(m, "]");
    tend(m);
    tend(m);
    }
    m.add_all(&s1.items);
    l(m, ".");
    tp(m);
    l(m, "+");
    oq(m, true);
    oe(m);
    l(m, "name");
    ce(m);
    l(m, "- two");
    oe(m);
    {
    l(m, if pr.b(17)? { "t" } else { "f" });
    }
    ce(m);
    l(m, "con st");
    oe(m);
    l(m, "name");
    ce(m);
    l(m, "-con stcon st");
    oe(m);
    {
    match pr.q(18)? {
    v5 => {
    }
    }
    {
    let mut it7 = pr.it(19)?;
    let mut step = || -> Flow<Option<String>> { it7.step() };
    while let Some(v6) = step()? {
    l(m, "'\\\\'");
    pr.mark(20)?; l(m, "blk");
    }
    }
    }
    ce(m);
    m.lit(pr.q(21)?);
    cq(m);
    l(m, ";");
    tp(m);
    m.lit(pr.q(22)?);
    sp(m);
    l(m, ";");
    tp(m);
    l(m, ";");
    m.lit(pr.q(23)?);
    l(m, ";");
    tp(m);
    l(m, "x1");
    sp(m);
    p(m);
    l(m, "yz");
    Ok(())
}
fn real_163<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        ;$("ä")yz
        $(if let (Some(v1), _) = (pr.opt(1)?, pr.b(2)?) {
            foo$(&quote!($({ if pr.b(3)? { "t" } else { "f" } })?       =))$[str](plain)( $(pr.n(4, 9)?)Self )
            ?_y
              größe
              $(&pr.q(5)?)$(pr.n(6, 9)?)  $(pr.c(7)) $(pr.q(8)?)_y $(pr.multi(9)?) {
              }
        }) yz
        ;$(for v3 in [pr.q(10)?, pr.q(11)?] => $(quoted(pr.q(12)?))identifier_identifier_identifier_identifier_end/**/$(if pr.n(13, 3)? == 1 { $(&pr.q(14)?) } else { ?	$(quoted(pr.q(15)?))Self }))yz
        + $(match pr.opt(16)? { Some(v6) => { $[str]($(Self $$ $(display(pr.n(17, 9)?)))$[const](pr.q(18)?)$[const](pr.q(19)?)) "lit"       = }, None => ; ( /* between */ Self  ,, $(pr.q(22)?)), })
        ab$(match (pr.b(23)?, pr.n(24, 3)?) { (true, 0) => a1 $(ref o8 => quote_in!(*o8 => $(pr.opt(26)?)$(pr.n(27, 9)?) $(from_fn(|t| { t.append(pr.c(28)); t.space(); t.append(pr.c(29)); })))) $(if pr.b(30)? && pr.b(31)? { $(pr.opt(32)?) } else { ?$(pr.c(33)) }), _ => { $(pr.opt(34)?) } })yz
    }
    Ok(())
}
fn model_163(m: &mut MV, pr: &Pr) -> Flow {
    l(m, ";");
    l(m, "ä");
    l(m, "yz");
    tp(m);
    if let (Some(v1), _) = (pr.opt(1)?, pr.b(2)?) {
    l(m, "foo");
    let mut s2 = MStream::<()>::default();
    {
    let m = &mut s2;
    l(m, if pr.b(3)? { "t" } else { "f" });
    l(m, "?");
    sp(m);
    l(m, "=");
    }
    m.add_all(&s2.items);
    qs(m, "plain");
    l(m, "(");
    sp(m);
    m.lit(pr.n(4, 9)?.to_string());
    l(m, "Self");
    sp(m);
    l(m, ")");
    tp(m);
    l(m, "?");
    l(m, "_y");
    tind(m);
    l(m, "größe");
    tp(m);
    m.lit(pr.q(5)?);
    m.lit(pr.n(6, 9)?.to_string());
    sp(m);
    m.lit(pr.mc(7)?);
    sp(m);
    m.lit(pr.q(8)?);
    l(m, "_y");
    sp(m);
    pr.mmulti(9, m)?;
    sp(m);
    l(m, "{");
    tp(m);
    l(m, "}");
    tend(m);
    }
    sp(m);
    l(m, "yz");
    tp(m);
    l(m, ";");
    {
    let mut it4 = [pr.q(10)?, pr.q(11)?].into_iter();
    let mut step = || -> Flow<Option<String>> { Ok(it4.next()) };
    while let Some(v3) = step()? {
    { let x = pr.q(12)?; oq(m, false); m.lit(x); cq(m); }
    l(m, "identifier_identifier_identifier_identifier_end");
    sp(m);
    if pr.n(13, 3)? == 1 {
    m.lit(pr.q(14)?);
    } else {
    l(m, "?");
    sp(m);
    { let x = pr.q(15)?; oq(m, false); m.lit(x); cq(m); }
    l(m, "Self");
    }
    }
    }
    l(m, "yz");
    tp(m);
    l(m, "+");
    sp(m);
    match pr.opt(16)? {
    Some(v6) => {
    oq(m, true);
    oe(m);
    {
    l(m, "Self");
    sp(m);
    l(m, "$");
    sp(m);
    m.lit(pr.n(17, 9)?.to_string());
    }
    ce(m);
    m.lit(pr.q(18)?);
    m.lit(pr.q(19)?);
    cq(m);
    sp(m);
    qs(m, "lit");
    sp(m);
    l(m, "=");
    }
    None => {
    l(m, ";");
    sp(m);
    l(m, "(");
    sp(m);
    l(m, "Self");
    sp(m);
    l(m, ",");
    l(m, ",");
    sp(m);
    m.lit(pr.q(22)?);
    l(m, ")");
    }
    }
    tp(m);
    l(m, "ab");
    match (pr.b(23)?, pr.n(24, 3)?) {
    (true, 0) => {
    l(m, "a1");
    sp(m);
    {
    if let Some(x) = pr.opt(26)? { m.lit(x); }
    m.lit(pr.n(27, 9)?.to_string());
    sp(m);
    m.lit(pr.mc(28)?); sp(m); m.lit(pr.mc(29)?);
    }
    sp(m);
    if pr.b(30)? && pr.b(31)? {
    if let Some(x) = pr.opt(32)? { m.lit(x); }
    } else {
    l(m, "?");
    m.lit(pr.mc(33)?);
    }
    }
    _ => {
    if let Some(x) = pr.opt(34)? { m.lit(x); }
    }
    }
    l(m, "yz");
    Ok(())
}
fn real_164<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        x1 $(let v1 = pr.q(1)?)z_
        ;$(ref o2 { o2.append(pr.q(2)?); o2.space(); o2.append(pr.q(3)?); })z_
        ab$(&quote! {
            $(pr.q(4)?)
                $(if let (Some(v4), _) = (pr.opt(5)?, pr.b(6)?) { $(pr.n(7, 9)?)+ a1 } else { $(from_fn(|t| { t.append(pr.c(8)); t.space(); t.append(pr.c(9)); })) $(from_fn(|t| { t.append(pr.c(10)); t.space(); t.append(pr.c(11)); })) }) $(&v1) // note
                    $(for v5 in pr.it(12)? {
                        while$(pr.opt(13)?)$(vec![pr.q(14)?, pr.q(15)?])
                        
                        
                         $({ if pr.b(16)? { "t" } else { "f" } })
                         ;$({ if pr.b(17)? { "t" } else { "f" } })$({ pr.mark(18)?; "blk" }) + [
                         ]
                    })
                    // between
            $(pr.q(19)?)$(pr.multi(20)?)
            $(pr.multi(21)?) [
            ]
        })
        +$[str](1 + 2);
        ab $(pr.n(22, 9)?) ;
    }
    Ok(())
}
fn model_164(m: &mut MV, pr: &Pr) -> Flow {
    l(m, "x1");
    sp(m);
    let v1 = pr.q(1)?;
    l(m, "z_");
    tp(m);
    l(m, ";");
    m.lit(pr.q(2)?); sp(m); m.lit(pr.q(3)?);
    l(m, "z_");
    tp(m);
    l(m, "ab");
    let mut s3 = MStream::<()>::default();
    {
    let m = &mut s3;
    m.lit(pr.q(4)?);
    tind(m);
    if let (Some(v4), _) = (pr.opt(5)?, pr.b(6)?) {
    m.lit(pr.n(7, 9)?.to_string());
    l(m, "+");
    sp(m);
    l(m, "a1");
    } else {
    m.lit(pr.mc(8)?); sp(m); m.lit(pr.mc(9)?);
    sp(m);
    m.lit(pr.mc(10)?); sp(m); m.lit(pr.mc(11)?);
    }
    sp(m);
    m.lit(v1.clone());
    tind(m);
    {
    let mut it6 = pr.it(12)?;
    let mut step = || -> Flow<Option<String>> { it6.step() };
    while let Some(v5) = step()? {
    l(m, "while");
    if let Some(x) = pr.opt(13)? { m.lit(x); }
    { let x = pr.q(14)?; let y = pr.q(15)?; m.lit(x); m.lit(y); }
    tind(m);
    tln(m);
    l(m, if pr.b(16)? { "t" } else { "f" });
    tp(m);
    l(m, ";");
    l(m, if pr.b(17)? { "t" } else { "f" });
    pr.mark(18)?; l(m, "blk");
    sp(m);
    l(m, "+");
    sp(m);
    l(m, "[");
    tp(m);
    l(m, "]");
    tend(m);
    }
    }
    tun(m);
    tln(m);
    tun(m);
    tln(m);
    m.lit(pr.q(19)?);
    pr.mmulti(20, m)?;
    tp(m);
    pr.mmulti(21, m)?;
    sp(m);
    l(m, "[");
    tp(m);
    l(m, "]");
    }
    m.add_all(&s3.items);
    tp(m);
    l(m, "+");
    qs(m, "1 + 2");
    l(m, ";");
    tp(m);
    l(m, "ab");
    sp(m);
    m.lit(pr.n(22, 9)?.to_string());
    sp(m);
    l(m, ";");
    Ok(())
}
fn real_165<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        ab$(from_fn(|t| { t.append(pr.c(1)); t.space(); t.append(pr.c(2)); })).
        x1$[' '];
        $(" lead")z_
        x1$(if pr.b(3)? {
            $(pr.q(4)?)       $(quoted(quote! {
                $(pr.opt(5)?)= // note
                $(from_fn(|t| { t.append(pr.c(6)); t.space(); t.append(pr.c(7)); })) /* between */ foo
                 Self (
                  $(from_fn(|t| { t.append(pr.c(8)); t.space(); t.append(pr.c(9)); }))/**/$(pr.opt(10)?)
                  // between
                  $(display(pr.n(11, 9)?))
                 )
                 $(pr.multi(12)?) $(pr.q(13)?)
            })) $$
        })z_
        x1$(for v2 in 0..pr.n(14, 4)? join (, ) => $[str](-$[const](pr.q(20)?)) $(for (i7, v5) in pr.it(21)?.enumerate() join (, ) => a1$(pr.n(22, 9)?)$(quoted(pr.q(23)?)))a1) yz
    }
    Ok(())
}
fn model_165(m: &mut MV, pr: &Pr) -> Flow {
    l(m, "ab");
    m.lit(pr.mc(1)?); sp(m); m.lit(pr.mc(2)?);
    l(m, ".");
    tp(m);
    l(m, "x1");
    sp(m);
    l(m, ";");
    tp(m);
    l(m, " lead");
    l(m, "z_");
    tp(m);
    l(m, "x1");
    if pr.b(3)? {
    m.lit(pr.q(4)?);
    sp(m);
    let mut s1 = MStream::<()>::default();
    {
    let m = &mut s1;
    if let Some(x) = pr.opt(5)? { m.lit(x); }
    l(m, "=");
    tp(m);
    m.lit(pr.mc(6)?); sp(m); m.lit(pr.mc(7)?);
    sp(m);
    l(m, "foo");
    tind(m);
    l(m, "Self");
    sp(m);
    l(m, "(");
    tind(m);
    m.lit(pr.mc(8)?); sp(m); m.lit(pr.mc(9)?);
    sp(m);
    if let Some(x) = pr.opt(10)? { m.lit(x); }
    tln(m);
    m.lit(pr.n(11, 9)?.to_string());
    tun(m);
    l(m, ")");
    tp(m);
    pr.mmulti(12, m)?;
    sp(m);
    m.lit(pr.q(13)?);
    tend(m);
    }
    oq(m, false);
    m.add_all(&s1.items);
    cq(m);
    sp(m);
    l(m, "$");
    }
    l(m, "z_");
    tp(m);
    l(m, "x1");
    {
    let mut it3 = 0..pr.n(14, 4)?;
    let mut step = || -> Flow<Option<u64>> { Ok(it3.next()) };
    let mut next = step()?;
    while let Some(v2) = next {
    {
    oq(m, false);
    l(m, "-");
    m.lit(pr.q(20)?);
    cq(m);
    sp(m);
    {
    let mut it6 = pr.it(21)?;
    let mut at = 0u64;
    let mut step = || -> Flow<Option<(u64, String)>> { let x = it6.step()?; at += 1; Ok(x.map(|x| (at - 1, x))) };
    let mut next = step()?;
    while let Some((i7, v5)) = next {
    {
    l(m, "a1");
    m.lit(pr.n(22, 9)?.to_string());
    { let x = pr.q(23)?; oq(m, false); m.lit(x); cq(m); }
    }
    next = step()?;
    if next.is_some() {
    {
    l(m, ",");
    sp(m);
    }
    }
    }
    }
    l(m, "a1");
    }
    next = step()?;
    if next.is_some() {
    {
    l(m, ",");
    sp(m);
    }
    }
    }
    }
    sp(m);
    l(m, "yz");
    Ok(())
}
fn real_166<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        ;$(match pr.n(1, 5)? {
            0 | 2 => { $(for v3 in pr.it(3)? {
                foo       +7 r#type
            })$("ver batim") },
            v1 if v1 > 1 && pr.b(2)? => {},
            v2 => { $(if pr.b(4)? { $(pr.opt(5)?) }) = $(let (v5, v6) = (pr.q(6)?, pr.n(7, 9)?)) }
        })yz
        ;$(match pr.opt(8)? { Some(v7) if v7.is_empty() || pr.b(9)? => $(for _ in pr.it(10)? join (, ) { "two words"$(display(pr.n(13, 9)?))	Self }) {,, $(pr.opt(14)?)}, Some(v8) => $(pr.multi(15)?)$(let (v11, v12) = (pr.q(16)?, pr.n(17, 9)?)), None => { $(ref _ { pr.mark(18)?; })       foo + } })z_
        ;$(let v13 = pr.q(19)?)
        + $(ref _ => if pr.b(20)? { pr.mark(21)?; }) yz
        + $(quote!($(" lead")$(v13.clone())))z_
    }
    Ok(())
}
fn model_166(m: &mut MV, pr: &Pr) -> Flow {
    l(m, ";");
    match pr.n(1, 5)? {
    0 | 2 => {
    {
    let mut it4 = pr.it(3)?;
    let mut step = || -> Flow<Option<String>> { it4.step() };
    while let Some(v3) = step()? {
    l(m, "foo");
    sp(m);
    l(m, "+");
    l(m, "7");
    sp(m);
    l(m, "r#type");
    }
    }
    l(m, "ver batim");
    }
    v1 if v1 > 1 && pr.b(2)? => {
    }
    v2 => {
    if pr.b(4)? {
    if let Some(x) = pr.opt(5)? { m.lit(x); }
    }
    sp(m);
    l(m, "=");
    sp(m);
    let (v5, v6) = (pr.q(6)?, pr.n(7, 9)?);
    }
    }
    l(m, "yz");
    tp(m);
    l(m, ";");
    match pr.opt(8)? {
    Some(v7) if v7.is_empty() || pr.b(9)? => {
    {
    let mut it10 = pr.it(10)?;
    let mut step = || -> Flow<Option<String>> { it10.step() };
    let mut next = step()?;
    while let Some(_) = next {
    {
    qs(m, "two words");
    m.lit(pr.n(13, 9)?.to_string());
    sp(m);
    l(m, "Self");
    }
    next = step()?;
    if next.is_some() {
    {
    l(m, ",");
    sp(m);
    }
    }
    }
    }
    sp(m);
    l(m, "{");
    l(m, ",");
    l(m, ",");
    sp(m);
    if let Some(x) = pr.opt(14)? { m.lit(x); }
    l(m, "}");
    }
    Some(v8) => {
    pr.mmulti(15, m)?;
    let (v11, v12) = (pr.q(16)?, pr.n(17, 9)?);
    }
    None => {
    pr.mark(18)?;
    sp(m);
    l(m, "foo");
    sp(m);
    l(m, "+");
    }
    }
    l(m, "z_");
    tp(m);
    l(m, ";");
    let v13 = pr.q(19)?;
    tp(m);
    l(m, "+");
    sp(m);
    if pr.b(20)? { pr.mark(21)?; }
    sp(m);
    l(m, "yz");
    tp(m);
    l(m, "+");
    sp(m);
    let mut s14 = MStream::<()>::default();
    {
    let m = &mut s14;
    l(m, " lead");
    m.lit(v13.clone());
    }
    m.add_all(&s14.items);
    l(m, "z_");
    Ok(())
}
fn real_167<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        ;$[str](three $$ $name- -$[const](pr.q(1)?)two$[const]("con st")$($(let v1 = pr.q(2)?)$(if let Some(v2) = pr.opt(3)? { Self /* between */ "q\"uote" } else { $(Some(pr.q(5)?)) }) $(match (pr.b(6)?, pr.n(7, 3)?) { (true, 0) => $({ pr.mark(9)?; "blk" })$(display(pr.n(10, 9)?)), (false, v3) if v3 < 2 && pr.b(8)? => { $(Some(pr.q(11)?)) } _ => $(pr.q(12)?)  $(pr.c(13))a1 }))$[const]("con st"))z_
        +$(from_fn(|t| { t.append(pr.c(14)); t.space(); t.append(pr.c(15)); }));
        x1 $(from_fn(|t| { t.append(pr.c(16)); t.space(); t.append(pr.c(17)); })) ;
        x1 $['\n'] z_
        +$(" lead")yz
    }
    Ok(())
}
fn model_167(m: &mut MV, pr: &Pr) -> Flow {
    l(m, ";");
    oq(m, true);
    l(m, "three $ ");
    oe(m);
    l(m, "name");
    ce(m);
    l(m, "- -");
    m.lit(pr.q(1)?);
    l(m, "twocon st");
    oe(m);
    {
    let v1 = pr.q(2)?;
    if let Some(v2) = pr.opt(3)? {
    l(m, "Self");
    sp(m);
    qs(m, "q\"uote");
    } else {
    m.lit(pr.q(5)?);
    }
    sp(m);
    match (pr.b(6)?, pr.n(7, 3)?) {
    (true, 0) => {
    pr.mark(9)?; l(m, "blk");
    m.lit(pr.n(10, 9)?.to_string());
    }
    (false, v3) if v3 < 2 && pr.b(8)? => {
    m.lit(pr.q(11)?);
    }
    _ => {
    m.lit(pr.q(12)?);
    sp(m);
    m.lit(pr.mc(13)?);
    l(m, "a1");
    }
    }
    }
    ce(m);
    l(m, "con st");
    cq(m);
    l(m, "z_");
    tp(m);
    l(m, "+");
    m.lit(pr.mc(14)?); sp(m); m.lit(pr.mc(15)?);
    l(m, ";");
    tp(m);
    l(m, "x1");
    sp(m);
    m.lit(pr.mc(16)?); sp(m); m.lit(pr.mc(17)?);
    sp(m);
    l(m, ";");
    tp(m);
    l(m, "x1");
    sp(m);
    ln(m);
    sp(m);
    l(m, "z_");
    tp(m);
    l(m, "+");
    l(m, " lead");
    l(m, "yz");
    Ok(())
}
fn real_168<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        ab$(if let Some(v1) = pr.opt(1)? => $[str](plain) $(let v2 = pr.n(3, 9)?) while);
        +$(for v3 in pr.it(4)?.filter(|_| pr.cb(5)) join (	$(for v5 in pr.it(6)? join ($(&pr.q(7)?)$$ ) { $(pr.q(8)?) })$(for v7 in pr.it(9)? => ;       $(pr.q(10)?) $(format!("<{}>", pr.q(11)?)))  ) { $(ref _ { pr.mark(12)?; })$(quoted(pr.q(13)?))$(if pr.n(14, 3)? == 1 => $(vec![pr.q(15)?, pr.q(16)?])) });
        x1$(match pr.n(17, 9)? {
            v9 => {},
        }) .
        ab$(match (pr.b(18)?, pr.n(19, 3)?) {
            (true, 0) => $[' ']$(pr.q(22)?),
            (false, v10) if v10 < 2 && pr.b(20)? => {}
            (_, 1) | (true, _) => x       $(&pr.q(23)?) "lit",
            _ if pr.b(21)? => $(match pr.opt(24)? { Some(v11) if v11.is_empty() || pr.b(25)? => bar/**/größe $(vec![pr.q(26)?, pr.q(27)?]) [ $(pr.c(28))/**/$(vec![pr.q(29)?, pr.q(30)?]) x, $(Some(pr.q(31)?))], Some(v12) => { $(pr.c(32)) } None => {} }) {	while	bar, $({ pr.mark(33)?; "blk" })$(pr.q(34)?)},
            (..) => (       $(format!("<{}>", pr.q(35)?))"lit" 7)
        })z_
        x1$(let (v13, v14) = (pr.q(36)?, pr.n(37, 9)?)) .
    }
    Ok(())
}
fn model_168(m: &mut MV, pr: &Pr) -> Flow {
    l(m, "ab");
    if let Some(v1) = pr.opt(1)? {
    qs(m, "plain");
    sp(m);
    let v2 = pr.n(3, 9)?;
    sp(m);
    l(m, "while");
    }
    l(m, ";");
    tp(m);
    l(m, "+");
    {
    let mut it4 = pr.it(4)?;
    let mut step = || -> Flow<Option<String>> { while let Some(x) = it4.step()? { if pr.mcb(5)? { return Ok(Some(x)); } } Ok(None) };
    let mut next = step()?;
    while let Some(v3) = next {
    {
    pr.mark(12)?;
    { let x = pr.q(13)?; oq(m, false); m.lit(x); cq(m); }
    if pr.n(14, 3)? == 1 {
    { let x = pr.q(15)?; let y = pr.q(16)?; m.lit(x); m.lit(y); }
    }
    }
    next = step()?;
    if next.is_some() {
    {
    sp(m);
    {
    let mut it6 = pr.it(6)?;
    let mut step = || -> Flow<Option<String>> { it6.step() };
    let mut next = step()?;
    while let Some(v5) = next {
    {
    m.lit(pr.q(8)?);
    }
    next = step()?;
    if next.is_some() {
    {
    m.lit(pr.q(7)?);
    l(m, "$");
    sp(m);
    }
    }
    }
    }
    {
    let mut it8 = pr.it(9)?;
    let mut step = || -> Flow<Option<String>> { it8.step() };
    while let Some(v7) = step()? {
    l(m, ";");
    sp(m);
    m.lit(pr.q(10)?);
    sp(m);
    m.lit(format!("<{}>", pr.q(11)?));
    }
    }
    sp(m);
    }
    }
    }
    }
    l(m, ";");
    tp(m);
    l(m, "x1");
    match pr.n(17, 9)? {
    v9 => {
    }
    }
    sp(m);
    l(m, ".");
    tp(m);
    l(m, "ab");
    match (pr.b(18)?, pr.n(19, 3)?) {
    (true, 0) => {
    sp(m);
    m.lit(pr.q(22)?);
    }
    (false, v10) if v10 < 2 && pr.b(20)? => {
    }
    (_, 1) | (true, _) => {
    l(m, "x");
    sp(m);
    m.lit(pr.q(23)?);
    sp(m);
    qs(m, "lit");
    }
    _ if pr.b(21)? => {
    match pr.opt(24)? {
    Some(v11) if v11.is_empty() || pr.b(25)? => {
    l(m, "bar");
    sp(m);
    l(m, "größe");
    sp(m);
    { let x = pr.q(26)?; let y = pr.q(27)?; m.lit(x); m.lit(y); }
    sp(m);
    l(m, "[");
    sp(m);
    m.lit(pr.mc(28)?);
    sp(m);
    { let x = pr.q(29)?; let y = pr.q(30)?; m.lit(x); m.lit(y); }
    sp(m);
    l(m, "x");
    l(m, ",");
    sp(m);
    m.lit(pr.q(31)?);
    l(m, "]");
    }
    Some(v12) => {
    m.lit(pr.mc(32)?);
    }
    None => {
    }
    }
    sp(m);
    l(m, "{");
    sp(m);
    l(m, "while");
    sp(m);
    l(m, "bar");
    l(m, ",");
    sp(m);
    pr.mark(33)?; l(m, "blk");
    m.lit(pr.q(34)?);
    l(m, "}");
    }
    (..) => {
    sp(m);
    m.lit(format!("<{}>", pr.q(35)?));
    qs(m, "lit");
    sp(m);
    l(m, "7");
    }
    }
    l(m, "z_");
    tp(m);
    l(m, "x1");
    let (v13, v14) = (pr.q(36)?, pr.n(37, 9)?);
    sp(m);
    l(m, ".");
    Ok(())
}
fn real_169<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        ab $(ref o1 { o1.append(pr.q(1)?); o1.space(); o1.append(pr.q(2)?); })z_
        +$(quote!(..=/**/$(pr.q(3)?)/**/$(if let Some(v3) = pr.opt(4)? => bar)))yz
        +$[str](plain);
        +$(from_fn(|t| { t.append(pr.c(6)); t.space(); t.append(pr.c(7)); })).
        ;$(display(pr.n(8, 9)?)).
    }
    Ok(())
}
fn model_169(m: &mut MV, pr: &Pr) -> Flow {
    l(m, "ab");
    sp(m);
    m.lit(pr.q(1)?); sp(m); m.lit(pr.q(2)?);
    l(m, "z_");
    tp(m);
    l(m, "+");
    let mut s2 = MStream::<()>::default();
    {
    let m = &mut s2;
    l(m, "..=");
    sp(m);
    m.lit(pr.q(3)?);
    sp(m);
    if let Some(v3) = pr.opt(4)? {
    l(m, "bar");
    }
    }
    m.add_all(&s2.items);
    l(m, "yz");
    tp(m);
    l(m, "+");
    qs(m, "plain");
    l(m, ";");
    tp(m);
    l(m, "+");
    m.lit(pr.mc(6)?); sp(m); m.lit(pr.mc(7)?);
    l(m, ".");
    tp(m);
    l(m, ";");
    m.lit(pr.n(8, 9)?.to_string());
    l(m, ".");
    Ok(())
}
fn real_170<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        x1$['\r']yz
        ab$("ver batim")yz
        x1 $(if pr.n(1, 3)? == 1 { $(for v1 in pr.opt(2)? join (+ ) => Self /* between */ "two words"$(pr.opt(3)?))  $(for (i5, v3) in pr.it(4)?.enumerate() { $(display(pr.n(5, 9)?))$(display(pr.n(6, 9)?)) }) }).
        +$(for v6 in pr.it(7)? join (/**/$[str](a b  c)$(pr.q(8)?)) { $(if pr.b(9)? {
            $({ if pr.b(10)? { "t" } else { "f" } }) /* between */ x$$ {
            }
        })  $(v6.as_str()) {$(pr.multi(11)?);$(display(pr.n(12, 9)?)) } }).
        x1$(match (pr.b(13)?, pr.n(14, 3)?) {
            (true, 0) => { $(quoted(pr.q(17)?)) $(match (pr.b(18)?, pr.n(19, 3)?) {
                (true, 0) => a1/**/x/**/$(from_fn(|t| { t.append(pr.c(21)); t.space(); t.append(pr.c(22)); })) [ $(pr.c(23)) 7 & /* between */ 1_000u64, '\\'	$(quoted(pr.q(24)?))],
                (false, v9) if v9 < 2 && pr.b(20)? => => /* between */ $({ pr.mark(25)?; "blk" }),
                (_, 1) | (true, _) => { $(&pr.q(26)?)"lit" }
                _ => { $(pr.q(27)?.as_str()) }
            })_y },
            (false, v8) if v8 < 2 && pr.b(15)? => $(pr.n(28, 9)?)0x1F /* between */ $(pr.c(29)) [größe$(Some(pr.q(30)?))$(pr.q(31)?)       $(pr.opt(32)?), ||],
            (_, 1) | (true, _) => nameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameame$({ if pr.b(33)? { "t" } else { "f" } }) Self [$(pr.multi(34)?)	$(&pr.q(35)?), $(quoted(pr.q(36)?))],
            _ if pr.b(16)? => 1.5$(display(pr.n(37, 9)?)) $(format!("<{}>", pr.q(38)?)) ["lit", foo$(pr.q(39)?) ],
            _ => { $$ }
        }) ;
    }
    Ok(())
}
fn model_170(m: &mut MV, pr: &Pr) -> Flow {
    l(m, "x1");
    p(m);
    l(m, "yz");
    tp(m);
    l(m, "ab");
    l(m, "ver batim");
    l(m, "yz");
    tp(m);
    l(m, "x1");
    sp(m);
    if pr.n(1, 3)? == 1 {
    {
    let mut it2 = pr.opt(2)?.into_iter();
    let mut step = || -> Flow<Option<String>> { Ok(it2.next()) };
    let mut next = step()?;
    while let Some(v1) = next {
    {
    l(m, "Self");
    sp(m);
    qs(m, "two words");
    if let Some(x) = pr.opt(3)? { m.lit(x); }
    }
    next = step()?;
    if next.is_some() {
    {
    l(m, "+");
    sp(m);
    }
    }
    }
    }
    sp(m);
    {
    let mut it4 = pr.it(4)?;
    let mut at = 0u64;
    let mut step = || -> Flow<Option<(u64, String)>> { let x = it4.step()?; at += 1; Ok(x.map(|x| (at - 1, x))) };
    while let Some((i5, v3)) = step()? {
    m.lit(pr.n(5, 9)?.to_string());
    m.lit(pr.n(6, 9)?.to_string());
    }
    }
    }
    l(m, ".");
    tp(m);
    l(m, "+");
    {
    let mut it7 = pr.it(7)?;
    let mut step = || -> Flow<Option<String>> { it7.step() };
    let mut next = step()?;
    while let Some(v6) = next {
    {
    if pr.b(9)? {
    l(m, if pr.b(10)? { "t" } else { "f" });
    sp(m);
    l(m, "x");
    l(m, "$");
    sp(m);
    l(m, "{");
    tp(m);
    l(m, "}");
    }
    sp(m);
    m.lit(v6.clone());
    sp(m);
    l(m, "{");
    pr.mmulti(11, m)?;
    l(m, ";");
    m.lit(pr.n(12, 9)?.to_string());
    sp(m);
    l(m, "}");
    }
    next = step()?;
    if next.is_some() {
    {
    sp(m);
    qs(m, "a b  c");
    m.lit(pr.q(8)?);
    }
    }
    }
    }
    l(m, ".");
    tp(m);
    l(m, "x1");
    match (pr.b(13)?, pr.n(14, 3)?) {
    (true, 0) => {
    { let x = pr.q(17)?; oq(m, false); m.lit(x); cq(m); }
    sp(m);
    match (pr.b(18)?, pr.n(19, 3)?) {
    (true, 0) => {
    l(m, "a1");
    sp(m);
    l(m, "x");
    sp(m);
    m.lit(pr.mc(21)?); sp(m); m.lit(pr.mc(22)?);
    sp(m);
    l(m, "[");
    sp(m);
    m.lit(pr.mc(23)?);
    sp(m);
    l(m, "7");
    sp(m);
    l(m, "&");
    sp(m);
    l(m, "1_000u64");
    l(m, ",");
    sp(m);
    l(m, "'\\\\'");
    sp(m);
    { let x = pr.q(24)?; oq(m, false); m.lit(x); cq(m); }
    l(m, "]");
    }
    (false, v9) if v9 < 2 && pr.b(20)? => {
    l(m, "=>");
    sp(m);
    pr.mark(25)?; l(m, "blk");
    }
    (_, 1) | (true, _) => {
    m.lit(pr.q(26)?);
    qs(m, "lit");
    }
    _ => {
    m.lit(pr.q(27)?);
    }
    }
    l(m, "_y");
    }
    (false, v8) if v8 < 2 && pr.b(15)? => {
    m.lit(pr.n(28, 9)?.to_string());
    l(m, "0x1F");
    sp(m);
    m.lit(pr.mc(29)?);
    sp(m);
    l(m, "[");
    l(m, "größe");
    m.lit(pr.q(30)?);
    m.lit(pr.q(31)?);
    sp(m);
    if let Some(x) = pr.opt(32)? { m.lit(x); }
    l(m, ",");
    sp(m);
    l(m, "||");
    l(m, "]");
    }
    (_, 1) | (true, _) => {
    l(m, "nameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameame");
    l(m, if pr.b(33)? { "t" } else { "f" });
    sp(m);
    l(m, "Self");
    sp(m);
    l(m, "[");
    pr.mmulti(34, m)?;
    sp(m);
    m.lit(pr.q(35)?);
    l(m, ",");
    sp(m);
    { let x = pr.q(36)?; oq(m, false); m.lit(x); cq(m); }
    l(m, "]");
    }
    _ if pr.b(16)? => {
    l(m, "1.5");
    m.lit(pr.n(37, 9)?.to_string());
    sp(m);
    m.lit(format!("<{}>", pr.q(38)?));
    sp(m);
    l(m, "[");
    qs(m, "lit");
    l(m, ",");
    sp(m);
    l(m, "foo");
    m.lit(pr.q(39)?);
    sp(m);
    l(m, "]");
    }
    _ => {
    l(m, "$");
    }
    }
    sp(m);
    l(m, ";");
    Ok(())
}
fn real_171<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        ; $(match pr.n(1, 4)? {
            0 if pr.b(2)? => { $(match (pr.b(5)?, pr.n(6, 3)?) {
                (true, 0) => (/**/'\\' /* between */ _y$(pr.q(8)?)),
                _ if pr.b(7)? => . {$(display(pr.n(9, 9)?)) identifier_identifier_identifier_identifier_end x, 'c' $(display(pr.n(10, 9)?)) },
                _ => ($(pr.multi(11)?))
            }) }
            v1 if v1 > 1 && pr.b(3)? => (	./**/_y),
            2 if pr.b(4)? => {
                $(pr.c(12))
            }
            _ => _y$(format!("<{}>", pr.q(13)?)) {$(pr.opt(14)?)$(vec![pr.q(15)?, pr.q(16)?])_y Self, $(vec![pr.q(17)?, pr.q(18)?])},
        });
        ;$(let mut v3 = pr.q(19)?);
        +$(ref o4 { if pr.b(20)? { quote_in!(*o4 => $(ref _ { pr.mark(21)?; })$(quote!($$))); } o4.push(); })
        + $(quote!(||)).
        ;$[str]($($(for v7 in 0..pr.n(22, 4)? join (, ) => Self	foo) $("ä") $(ref _ => if pr.rare(23)? { return Err(Left::Return); })) $$ $[const]("con st")$name-$$ $(while$(for v9 in 0..pr.n(24, 4)? join (, ) => $(pr.n(25, 9)?)) "two words")$($(pr.n(26, 9)?)1.5)$(x$({ if pr.b(27)? { "t" } else { "f" } }))$(Self /* between */ Self)$[const](pr.q(28)?)$$).
    }
    Ok(())
}
fn model_171(m: &mut MV, pr: &Pr) -> Flow {
    l(m, ";");
    sp(m);
    match pr.n(1, 4)? {
    0 if pr.b(2)? => {
    match (pr.b(5)?, pr.n(6, 3)?) {
    (true, 0) => {
    sp(m);
    l(m, "'\\\\'");
    sp(m);
    l(m, "_y");
    m.lit(pr.q(8)?);
    }
    _ if pr.b(7)? => {
    l(m, ".");
    sp(m);
    l(m, "{");
    m.lit(pr.n(9, 9)?.to_string());
    sp(m);
    l(m, "identifier_identifier_identifier_identifier_end");
    sp(m);
    l(m, "x");
    l(m, ",");
    sp(m);
    l(m, "'c'");
    sp(m);
    m.lit(pr.n(10, 9)?.to_string());
    sp(m);
    l(m, "}");
    }
    _ => {
    pr.mmulti(11, m)?;
    }
    }
    }
    v1 if v1 > 1 && pr.b(3)? => {
    sp(m);
    l(m, ".");
    sp(m);
    l(m, "_y");
    }
    2 if pr.b(4)? => {
    m.lit(pr.mc(12)?);
    }
    _ => {
    l(m, "_y");
    m.lit(format!("<{}>", pr.q(13)?));
    sp(m);
    l(m, "{");
    if let Some(x) = pr.opt(14)? { m.lit(x); }
    { let x = pr.q(15)?; let y = pr.q(16)?; m.lit(x); m.lit(y); }
    l(m, "_y");
    sp(m);
    l(m, "Self");
    l(m, ",");
    sp(m);
    { let x = pr.q(17)?; let y = pr.q(18)?; m.lit(x); m.lit(y); }
    l(m, "}");
    }
    }
    l(m, ";");
    tp(m);
    l(m, ";");
    let mut v3 = pr.q(19)?;
    l(m, ";");
    tp(m);
    l(m, "+");
    if pr.b(20)? {
    pr.mark(21)?;
    let mut s5 = MStream::<()>::default();
    {
    let m = &mut s5;
    l(m, "$");
    }
    m.add_all(&s5.items);
    }
    p(m);
    tp(m);
    l(m, "+");
    sp(m);
    let mut s6 = MStream::<()>::default();
    {
    let m = &mut s6;
    l(m, "||");
    }
    m.add_all(&s6.items);
    l(m, ".");
    tp(m);
    l(m, ";");
    oq(m, true);
    oe(m);
    {
    {
    let mut it8 = 0..pr.n(22, 4)?;
    let mut step = || -> Flow<Option<u64>> { Ok(it8.next()) };
    let mut next = step()?;
    while let Some(v7) = next {
    {
    l(m, "Self");
    sp(m);
    l(m, "foo");
    }
    next = step()?;
    if next.is_some() {
    {
    l(m, ",");
    sp(m);
    }
    }
    }
    }
    sp(m);
    l(m, "ä");
    sp(m);
    if pr.rare(23)? { return Err(Left::Return); }
    }
    ce(m);
    l(m, " $ con st");
    oe(m);
    l(m, "name");
    ce(m);
    l(m, "-$ ");
    oe(m);
    {
    l(m, "while");
    {
    let mut it10 = 0..pr.n(24, 4)?;
    let mut step = || -> Flow<Option<u64>> { Ok(it10.next()) };
    let mut next = step()?;
    while let Some(v9) = next {
    {
    m.lit(pr.n(25, 9)?.to_string());
    }
    next = step()?;
    if next.is_some() {
    {
    l(m, ",");
    sp(m);
    }
    }
    }
    }
    sp(m);
    qs(m, "two words");
    }
    ce(m);
    oe(m);
    {
    m.lit(pr.n(26, 9)?.to_string());
    l(m, "1.5");
    }
    ce(m);
    oe(m);
    {
    l(m, "x");
    l(m, if pr.b(27)? { "t" } else { "f" });
    }
    ce(m);
    oe(m);
    {
    l(m, "Self");
    sp(m);
    l(m, "Self");
    }
    ce(m);
    m.lit(pr.q(28)?);
    l(m, "$");
    cq(m);
    l(m, ".");
    Ok(())
}
fn real_172<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        ab$(pr.multi(1)?).
        + $(pr.n(2, 9)?)yz
        x1$['\r']z_
        ab$("ä") yz
        +$(if pr.n(3, 3)? == 1 =>
            $['\n'] /* between */ { $(vec![pr.q(4)?, pr.q(5)?])}$(ref _ => if pr.rare(6)? { return Err(Left::Return); })
              $(match (pr.b(7)?, pr.n(8, 3)?) {
                  (true, 0) => (identifier_identifier_identifier_identifier_end ),
                  (..) => ( /* between */ foo)
              })$(ref o2 { if pr.rare(9)? { o2.append(pr.q(10)?); return Err(Left::Return); } }) $(for v3 in pr.it(11)? => $(pr.multi(12)?)       $({ if pr.b(13)? { "t" } else { "f" } })  $(&pr.q(14)?))).
    }
    Ok(())
}
fn model_172(m: &mut MV, pr: &Pr) -> Flow {
    l(m, "ab");
    pr.mmulti(1, m)?;
    l(m, ".");
    tp(m);
    l(m, "+");
    sp(m);
    m.lit(pr.n(2, 9)?.to_string());
    l(m, "yz");
    tp(m);
    l(m, "x1");
    p(m);
    l(m, "z_");
    tp(m);
    l(m, "ab");
    l(m, "ä");
    sp(m);
    l(m, "yz");
    tp(m);
    l(m, "+");
    if pr.n(3, 3)? == 1 {
    ln(m);
    sp(m);
    l(m, "{");
    sp(m);
    { let x = pr.q(4)?; let y = pr.q(5)?; m.lit(x); m.lit(y); }
    l(m, "}");
    if pr.rare(6)? { return Err(Left::Return); }
    tind(m);
    match (pr.b(7)?, pr.n(8, 3)?) {
    (true, 0) => {
    l(m, "identifier_identifier_identifier_identifier_end");
    sp(m);
    }
    (..) => {
    sp(m);
    l(m, "foo");
    }
    }
    if pr.rare(9)? { m.lit(pr.q(10)?); return Err(Left::Return); }
    sp(m);
    {
    let mut it4 = pr.it(11)?;
    let mut step = || -> Flow<Option<String>> { it4.step() };
    while let Some(v3) = step()? {
    pr.mmulti(12, m)?;
    sp(m);
    l(m, if pr.b(13)? { "t" } else { "f" });
    sp(m);
    m.lit(pr.q(14)?);
    }
    }
    tend(m);
    }
    l(m, ".");
    Ok(())
}
fn real_173<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        ab $(for v1 in pr.it(1)?.filter(|_| pr.cb(2)) join (, ) => $[str](1 + 2)$(ref _ => if pr.rare(4)? { return Err(Left::Return); })).
        ;$(match pr.n(5, 9)? { v4 => (	=>       $(pr.q(6)?)       ) })yz
        x1$(match pr.opt(7)? { _ if pr.b(8)? => $(quote!(while  _y $$))$(match pr.n(9, 3)? { 0 => (while$(&pr.q(10)?)$(from_fn(|t| { t.append(pr.c(11)); t.space(); t.append(pr.c(12)); })) ), v8 => { $(pr.opt(13)?)while }, })$(for v9 in pr.it(14)? join (, ) { r#type $(pr.opt(16)?) + }), Some(v6) => ($(pr.q(17)?) foo _y), None => { $(vec![pr.q(18)?, pr.q(19)?]) $(pr.opt(20)?) }, }) .
        +$(let mut v11 = pr.q(21)?)yz
        ;$(ref _ => if pr.b(22)? { pr.mark(23)?; });
    }
    Ok(())
}
fn model_173(m: &mut MV, pr: &Pr) -> Flow {
    l(m, "ab");
    sp(m);
    {
    let mut it2 = pr.it(1)?;
    let mut step = || -> Flow<Option<String>> { while let Some(x) = it2.step()? { if pr.mcb(2)? { return Ok(Some(x)); } } Ok(None) };
    let mut next = step()?;
    while let Some(v1) = next {
    {
    qs(m, "1 + 2");
    if pr.rare(4)? { return Err(Left::Return); }
    }
    next = step()?;
    if next.is_some() {
    {
    l(m, ",");
    sp(m);
    }
    }
    }
    }
    l(m, ".");
    tp(m);
    l(m, ";");
    match pr.n(5, 9)? {
    v4 => {
    sp(m);
    l(m, "=>");
    sp(m);
    m.lit(pr.q(6)?);
    sp(m);
    }
    }
    l(m, "yz");
    tp(m);
    l(m, "x1");
    match pr.opt(7)? {
    _ if pr.b(8)? => {
    let mut s7 = MStream::<()>::default();
    {
    let m = &mut s7;
    l(m, "while");
    sp(m);
    l(m, "_y");
    sp(m);
    l(m, "$");
    }
    m.add_all(&s7.items);
    match pr.n(9, 3)? {
    0 => {
    l(m, "while");
    m.lit(pr.q(10)?);
    m.lit(pr.mc(11)?); sp(m); m.lit(pr.mc(12)?);
    sp(m);
    }
    v8 => {
    if let Some(x) = pr.opt(13)? { m.lit(x); }
    l(m, "while");
    }
    }
    {
    let mut it10 = pr.it(14)?;
    let mut step = || -> Flow<Option<String>> { it10.step() };
    let mut next = step()?;
    while let Some(v9) = next {
    {
    l(m, "r#type");
    sp(m);
    if let Some(x) = pr.opt(16)? { m.lit(x); }
    sp(m);
    l(m, "+");
    }
    next = step()?;
    if next.is_some() {
    {
    l(m, ",");
    sp(m);
    }
    }
    }
    }
    }
    Some(v6) => {
    m.lit(pr.q(17)?);
    sp(m);
    l(m, "foo");
    sp(m);
    l(m, "_y");
    }
    None => {
    { let x = pr.q(18)?; let y = pr.q(19)?; m.lit(x); m.lit(y); }
    sp(m);
    if let Some(x) = pr.opt(20)? { m.lit(x); }
    }
    }
    sp(m);
    l(m, ".");
    tp(m);
    l(m, "+");
    let mut v11 = pr.q(21)?;
    l(m, "yz");
    tp(m);
    l(m, ";");
    if pr.b(22)? { pr.mark(23)?; }
    l(m, ";");
    Ok(())
}
fn real_174<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        ab $(&quote!($(if pr.b(1)? || !pr.b(2)? { a1 Self/**/$(vec![pr.q(3)?, pr.q(4)?]) })$(ref o2 { if pr.rare(5)? { o2.append(pr.q(6)?); return Err(Left::Return); } }) $(for (i5, v3) in pr.it(7)?.enumerate() join ( $(format!("<{}>", pr.q(8)?))	$({ pr.mark(9)?; "blk" })) => while $(pr.multi(10)?))));
        + $[str](plain) z_
        ab$(Some(pr.q(11)?))yz
        +$(pr.q(12)?.as_str())yz
        $['\n'].
    }
    Ok(())
}
fn model_174(m: &mut MV, pr: &Pr) -> Flow {
    l(m, "ab");
    sp(m);
    let mut s1 = MStream::<()>::default();
    {
    let m = &mut s1;
    if pr.b(1)? || !pr.b(2)? {
    l(m, "a1");
    sp(m);
    l(m, "Self");
    sp(m);
    { let x = pr.q(3)?; let y = pr.q(4)?; m.lit(x); m.lit(y); }
    }
    if pr.rare(5)? { m.lit(pr.q(6)?); return Err(Left::Return); }
    sp(m);
    {
    let mut it4 = pr.it(7)?;
    let mut at = 0u64;
    let mut step = || -> Flow<Option<(u64, String)>> { let x = it4.step()?; at += 1; Ok(x.map(|x| (at - 1, x))) };
    let mut next = step()?;
    while let Some((i5, v3)) = next {
    {
    l(m, "while");
    sp(m);
    pr.mmulti(10, m)?;
    }
    next = step()?;
    if next.is_some() {
    {
    sp(m);
    m.lit(format!("<{}>", pr.q(8)?));
    sp(m);
    pr.mark(9)?; l(m, "blk");
    }
    }
    }
    }
    }
    m.add_all(&s1.items);
    l(m, ";");
    tp(m);
    l(m, "+");
    sp(m);
    qs(m, "plain");
    sp(m);
    l(m, "z_");
    tp(m);
    l(m, "ab");
    m.lit(pr.q(11)?);
    l(m, "yz");
    tp(m);
    l(m, "+");
    m.lit(pr.q(12)?);
    l(m, "yz");
    tp(m);
    ln(m);
    l(m, ".");
    Ok(())
}
fn real_175<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        ab$(" lead") ;
        x1 $(if pr.b(1)? || !pr.b(2)? => $("ä")$(Some(pr.q(3)?))).
        ;$(for v1 in pr.it(4)? => x)yz
        ab$(match pr.n(5, 9)? { v3 => { $['\n'] } }) yz
        +$(match pr.opt(6)? {
            Some(v4) if v4.is_empty() || pr.b(7)? => ( /* between */ $(ref o6 { if pr.b(9)? { quote_in!(*o6 => foo); } o6.push(); }) $(if let Some(v7) = pr.opt(10)? { $(Some(pr.q(12)?)) } else { $(pr.n(13, 9)?) 0x1F })$(pr.multi(14)?)  ),
            None if pr.b(8)? => x$({ if pr.b(15)? { "t" } else { "f" } }),
            Some(v5) => $(for v8 in pr.it(20)? {
                $(pr.c(21))&& /* between */ a1 größe       (
                  $(Some(pr.q(22)?))$(vec![pr.q(23)?, pr.q(24)?]),$(pr.multi(25)?) [
                  ]
                )
            })$({ pr.mark(26)?; "blk" }) {,, $(quoted(pr.q(27)?))},
            _ => (  $(pr.q(28)?) /* between */ $(pr.q(29)?.as_str())),
        }) yz
    }
    Ok(())
}
fn model_175(m: &mut MV, pr: &Pr) -> Flow {
    l(m, "ab");
    l(m, " lead");
    sp(m);
    l(m, ";");
    tp(m);
    l(m, "x1");
    sp(m);
    if pr.b(1)? || !pr.b(2)? {
    l(m, "ä");
    m.lit(pr.q(3)?);
    }
    l(m, ".");
    tp(m);
    l(m, ";");
    {
    let mut it2 = pr.it(4)?;
    let mut step = || -> Flow<Option<String>> { it2.step() };
    while let Some(v1) = step()? {
    l(m, "x");
    }
    }
    l(m, "yz");
    tp(m);
    l(m, "ab");
    match pr.n(5, 9)? {
    v3 => {
    ln(m);
    }
    }
    sp(m);
    l(m, "yz");
    tp(m);
    l(m, "+");
    match pr.opt(6)? {
    Some(v4) if v4.is_empty() || pr.b(7)? => {
    sp(m);
    if pr.b(9)? {
    l(m, "foo");
    }
    p(m);
    sp(m);
    if let Some(v7) = pr.opt(10)? {
    m.lit(pr.q(12)?);
    } else {
    m.lit(pr.n(13, 9)?.to_string());
    sp(m);
    l(m, "0x1F");
    }
    pr.mmulti(14, m)?;
    sp(m);
    }
    None if pr.b(8)? => {
    l(m, "x");
    l(m, if pr.b(15)? { "t" } else { "f" });
    }
    Some(v5) => {
    {
    let mut it9 = pr.it(20)?;
    let mut step = || -> Flow<Option<String>> { it9.step() };
    while let Some(v8) = step()? {
    m.lit(pr.mc(21)?);
    l(m, "&&");
    sp(m);
    l(m, "a1");
    sp(m);
    l(m, "größe");
    sp(m);
    l(m, "(");
    tind(m);
    m.lit(pr.q(22)?);
    { let x = pr.q(23)?; let y = pr.q(24)?; m.lit(x); m.lit(y); }
    l(m, ",");
    pr.mmulti(25, m)?;
    sp(m);
    l(m, "[");
    tp(m);
    l(m, "]");
    tun(m);
    l(m, ")");
    }
    }
    pr.mark(26)?; l(m, "blk");
    sp(m);
    l(m, "{");
    l(m, ",");
    l(m, ",");
    sp(m);
    { let x = pr.q(27)?; oq(m, false); m.lit(x); cq(m); }
    l(m, "}");
    }
    _ => {
    sp(m);
    m.lit(pr.q(28)?);
    sp(m);
    m.lit(pr.q(29)?);
    }
    }
    sp(m);
    l(m, "yz");
    Ok(())
}
fn real_176<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        ab$(let mut v1 = pr.q(1)?)yz
        ab$(ref _ { pr.mark(2)?; })z_
        x1$(quoted(quote! {
            $(for v3 in pr.it(3)? join ( größe$(pr.opt(4)?) /* between */ ) {
                foo$$ _y$(pr.opt(5)?)
            })
            // between
            $(&v1)$(for v5 in 0..pr.n(6, 4)? join ($({ if pr.b(7)? { "t" } else { "f" } })) =>
                bar/**/nameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameame $({ if pr.b(8)? { "t" } else { "f" } }))x 'c'
            
            
                    $(pr.n(9, 9)?) $(pr.c(10))$(quoted(pr.q(11)?))$({ if pr.b(12)? { "t" } else { "f" } })/**/Self  $(pr.q(13)?.as_str())..=$(pr.q(14)?.as_str()) $(quoted(pr.q(15)?))
                    $$ /* between */ $(Some(pr.q(16)?))$(Some(pr.q(17)?))_y/**/{
                    }
        }));
        x1$[str](1 + 2).
        $(pr.multi(18)?)yz
    }
    Ok(())
}
fn model_176(m: &mut MV, pr: &Pr) -> Flow {
    l(m, "ab");
    let mut v1 = pr.q(1)?;
    l(m, "yz");
    tp(m);
    l(m, "ab");
    pr.mark(2)?;
    l(m, "z_");
    tp(m);
    l(m, "x1");
    let mut s2 = MStream::<()>::default();
    {
    let m = &mut s2;
    {
    let mut it4 = pr.it(3)?;
    let mut step = || -> Flow<Option<String>> { it4.step() };
    let mut next = step()?;
    while let Some(v3) = next {
    {
    l(m, "foo");
    l(m, "$");
    sp(m);
    l(m, "_y");
    if let Some(x) = pr.opt(5)? { m.lit(x); }
    }
    next = step()?;
    if next.is_some() {
    {
    sp(m);
    l(m, "größe");
    if let Some(x) = pr.opt(4)? { m.lit(x); }
    sp(m);
    }
    }
    }
    }
    tln(m);
    m.lit(v1.clone());
    {
    let mut it6 = 0..pr.n(6, 4)?;
    let mut step = || -> Flow<Option<u64>> { Ok(it6.next()) };
    let mut next = step()?;
    while let Some(v5) = next {
    {
    l(m, "bar");
    sp(m);
    l(m, "nameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameame");
    sp(m);
    l(m, if pr.b(8)? { "t" } else { "f" });
    }
    next = step()?;
    if next.is_some() {
    {
    l(m, if pr.b(7)? { "t" } else { "f" });
    }
    }
    }
    }
    l(m, "x");
    sp(m);
    l(m, "'c'");
    tind(m);
    tln(m);
    m.lit(pr.n(9, 9)?.to_string());
    sp(m);
    m.lit(pr.mc(10)?);
    { let x = pr.q(11)?; oq(m, false); m.lit(x); cq(m); }
    l(m, if pr.b(12)? { "t" } else { "f" });
    sp(m);
    l(m, "Self");
    sp(m);
    m.lit(pr.q(13)?);
    l(m, "..=");
    m.lit(pr.q(14)?);
    sp(m);
    { let x = pr.q(15)?; oq(m, false); m.lit(x); cq(m); }
    tp(m);
    l(m, "$");
    sp(m);
    m.lit(pr.q(16)?);
    m.lit(pr.q(17)?);
    l(m, "_y");
    sp(m);
    l(m, "{");
    tp(m);
    l(m, "}");
    tend(m);
    }
    oq(m, false);
    m.add_all(&s2.items);
    cq(m);
    l(m, ";");
    tp(m);
    l(m, "x1");
    qs(m, "1 + 2");
    l(m, ".");
    tp(m);
    pr.mmulti(18, m)?;
    l(m, "yz");
    Ok(())
}
fn real_177<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        ;$(pr.q(1)?);
        ;$['\r']yz
        +$(" lead")z_
        ab$(if pr.b(2)? { $(vec![pr.q(3)?, pr.q(4)?])$(match pr.opt(5)? { Some(v1) if v1.is_empty() || pr.b(6)? => ($(pr.q(9)?.as_str()) "two words"/**/"q\"uote" ), None if pr.b(7)? => $(&pr.q(10)?)= (.bar $({ pr.mark(11)?; "blk" }) $(Some(pr.q(12)?)), $(quoted(pr.q(13)?))), _ if pr.b(8)? => $(vec![pr.q(14)?, pr.q(15)?])       ||, Some(v2) => { $(vec![pr.q(16)?, pr.q(17)?])$$ } None => {} })  . } else { $(pr.opt(18)?) }) ;
        ab $(for v3 in 0..pr.n(19, 4)? => $(if pr.b(20)? { $(pr.c(21)) } else { "two words" $(pr.opt(22)?) })).
    }
    Ok(())
}
fn model_177(m: &mut MV, pr: &Pr) -> Flow {
    l(m, ";");
    m.lit(pr.q(1)?);
    l(m, ";");
    tp(m);
    l(m, ";");
    p(m);
    l(m, "yz");
    tp(m);
    l(m, "+");
    l(m, " lead");
    l(m, "z_");
    tp(m);
    l(m, "ab");
    if pr.b(2)? {
    { let x = pr.q(3)?; let y = pr.q(4)?; m.lit(x); m.lit(y); }
    match pr.opt(5)? {
    Some(v1) if v1.is_empty() || pr.b(6)? => {
    m.lit(pr.q(9)?);
    sp(m);
    qs(m, "two words");
    sp(m);
    qs(m, "q\"uote");
    sp(m);
    }
    None if pr.b(7)? => {
    m.lit(pr.q(10)?);
    l(m, "=");
    sp(m);
    l(m, "(");
    l(m, ".");
    l(m, "bar");
    sp(m);
    pr.mark(11)?; l(m, "blk");
    sp(m);
    m.lit(pr.q(12)?);
    l(m, ",");
    sp(m);
    { let x = pr.q(13)?; oq(m, false); m.lit(x); cq(m); }
    l(m, ")");
    }
    _ if pr.b(8)? => {
    { let x = pr.q(14)?; let y = pr.q(15)?; m.lit(x); m.lit(y); }
    sp(m);
    l(m, "||");
    }
    Some(v2) => {
    { let x = pr.q(16)?; let y = pr.q(17)?; m.lit(x); m.lit(y); }
    l(m, "$");
    }
    None => {
    }
    }
    sp(m);
    l(m, ".");
    } else {
    if let Some(x) = pr.opt(18)? { m.lit(x); }
    }
    sp(m);
    l(m, ";");
    tp(m);
    l(m, "ab");
    sp(m);
    {
    let mut it4 = 0..pr.n(19, 4)?;
    let mut step = || -> Flow<Option<u64>> { Ok(it4.next()) };
    while let Some(v3) = step()? {
    if pr.b(20)? {
    m.lit(pr.mc(21)?);
    } else {
    qs(m, "two words");
    sp(m);
    if let Some(x) = pr.opt(22)? { m.lit(x); }
    }
    }
    }
    l(m, ".");
    Ok(())
}
fn real_178<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(match pr.n(1, 3)? { v1 if v1 > 0 && pr.b(2)? => $(quoted(quote!($(vec![pr.q(4)?, pr.q(5)?])       $(Some(pr.q(6)?)))))	$(ref o4 { o4.append(pr.q(7)?); o4.space(); o4.append(pr.q(8)?); }) [while x, <<=], _ if pr.b(3)? => { $(vec![pr.q(9)?, pr.q(10)?]) } 2..=3 => $(for v5 in pr.it(11)? join ( ..= ./**/) => 1.5$(Some(pr.q(12)?))) [	r#type       "q\"uote"$(pr.q(13)?), Self ], v2 => 'c' "lit" $(pr.c(14)) })yz
        $(match pr.opt(15)? {
            _ if pr.b(16)? => {},
            Some(v8) => {
                $(for _ in pr.it(17)? =>
                    ..=_y $(display(pr.n(18, 9)?))  $(quoted(pr.q(19)?)))
                $(for v11 in [pr.q(20)?, pr.q(21)?] join ($(pr.n(22, 9)?) /* between */ $(display(pr.n(23, 9)?)) ) => $(pr.opt(24)?)) Self
            },
            _ => $$ [.	_y, "q\"uote"$(pr.q(25)?)]
        })z_
        ;$(let v13 = pr.q(26)?).
        $(ref _ { pr.mark(27)?; }) yz
        $(quote!($("ä")))z_
    }
    Ok(())
}
fn model_178(m: &mut MV, pr: &Pr) -> Flow {
    match pr.n(1, 3)? {
    v1 if v1 > 0 && pr.b(2)? => {
    let mut s3 = MStream::<()>::default();
    {
    let m = &mut s3;
    { let x = pr.q(4)?; let y = pr.q(5)?; m.lit(x); m.lit(y); }
    sp(m);
    m.lit(pr.q(6)?);
    }
    oq(m, false);
    m.add_all(&s3.items);
    cq(m);
    sp(m);
    m.lit(pr.q(7)?); sp(m); m.lit(pr.q(8)?);
    sp(m);
    l(m, "[");
    l(m, "while");
    sp(m);
    l(m, "x");
    l(m, ",");
    sp(m);
    l(m, "<<=");
    l(m, "]");
    }
    _ if pr.b(3)? => {
    { let x = pr.q(9)?; let y = pr.q(10)?; m.lit(x); m.lit(y); }
    }
    2..=3 => {
    {
    let mut it6 = pr.it(11)?;
    let mut step = || -> Flow<Option<String>> { it6.step() };
    let mut next = step()?;
    while let Some(v5) = next {
    {
    l(m, "1.5");
    m.lit(pr.q(12)?);
    }
    next = step()?;
    if next.is_some() {
    {
    sp(m);
    l(m, "..=");
    sp(m);
    l(m, ".");
    sp(m);
    }
    }
    }
    }
    sp(m);
    l(m, "[");
    sp(m);
    l(m, "r#type");
    sp(m);
    qs(m, "q\"uote");
    m.lit(pr.q(13)?);
    l(m, ",");
    sp(m);
    l(m, "Self");
    sp(m);
    l(m, "]");
    }
    v2 => {
    l(m, "'c'");
    sp(m);
    qs(m, "lit");
    sp(m);
    m.lit(pr.mc(14)?);
    }
    }
    l(m, "yz");
    tp(m);
    match pr.opt(15)? {
    _ if pr.b(16)? => {
    }
    Some(v8) => {
    {
    let mut it10 = pr.it(17)?;
    let mut step = || -> Flow<Option<String>> { it10.step() };
    while let Some(_) = step()? {
    l(m, "..=");
    l(m, "_y");
    sp(m);
    m.lit(pr.n(18, 9)?.to_string());
    sp(m);
    { let x = pr.q(19)?; oq(m, false); m.lit(x); cq(m); }
    }
    }
    tp(m);
    {
    let mut it12 = [pr.q(20)?, pr.q(21)?].into_iter();
    let mut step = || -> Flow<Option<String>> { Ok(it12.next()) };
    let mut next = step()?;
    while let Some(v11) = next {
    {
    if let Some(x) = pr.opt(24)? { m.lit(x); }
    }
    next = step()?;
    if next.is_some() {
    {
    m.lit(pr.n(22, 9)?.to_string());
    sp(m);
    m.lit(pr.n(23, 9)?.to_string());
    sp(m);
    }
    }
    }
    }
    sp(m);
    l(m, "Self");
    }
    _ => {
    l(m, "$");
    sp(m);
    l(m, "[");
    l(m, ".");
    sp(m);
    l(m, "_y");
    l(m, ",");
    sp(m);
    qs(m, "q\"uote");
    m.lit(pr.q(25)?);
    l(m, "]");
    }
    }
    l(m, "z_");
    tp(m);
    l(m, ";");
    let v13 = pr.q(26)?;
    l(m, ".");
    tp(m);
    pr.mark(27)?;
    sp(m);
    l(m, "yz");
    tp(m);
    let mut s14 = MStream::<()>::default();
    {
    let m = &mut s14;
    l(m, "ä");
    }
    m.add_all(&s14.items);
    l(m, "z_");
    Ok(())
}
fn real_179<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        x1$[str](one$($(if pr.b(1)? { $$ } else { $(from_fn(|t| { t.append(pr.c(2)); t.space(); t.append(pr.c(3)); }))  while })$(&quote!($(display(pr.n(4, 9)?)) Self...)) $(pr.q(5)?)) two$($(pr.q(6)?){ identifier_identifier_identifier_identifier_end $(display(pr.n(7, 9)?))} $(format!("<{}>", pr.q(8)?))));
        ;$(&pr.q(9)?) ;
        +$({ pr.mark(10)?; "blk" }).
        ;$['\r']
        x1$(" lead").
    }
    Ok(())
}
fn model_179(m: &mut MV, pr: &Pr) -> Flow {
    l(m, "x1");
    oq(m, true);
    l(m, "one");
    oe(m);
    {
    if pr.b(1)? {
    l(m, "$");
    } else {
    m.lit(pr.mc(2)?); sp(m); m.lit(pr.mc(3)?);
    sp(m);
    l(m, "while");
    }
    let mut s1 = MStream::<()>::default();
    {
    let m = &mut s1;
    m.lit(pr.n(4, 9)?.to_string());
    sp(m);
    l(m, "Self");
    l(m, "...");
    }
    m.add_all(&s1.items);
    sp(m);
    m.lit(pr.q(5)?);
    }
    ce(m);
    l(m, " two");
    oe(m);
    {
    m.lit(pr.q(6)?);
    l(m, "{");
    sp(m);
    l(m, "identifier_identifier_identifier_identifier_end");
    sp(m);
    m.lit(pr.n(7, 9)?.to_string());
    l(m, "}");
    sp(m);
    m.lit(format!("<{}>", pr.q(8)?));
    }
    ce(m);
    cq(m);
    l(m, ";");
    tp(m);
    l(m, ";");
    m.lit(pr.q(9)?);
    sp(m);
    l(m, ";");
    tp(m);
    l(m, "+");
    pr.mark(10)?; l(m, "blk");
    l(m, ".");
    tp(m);
    l(m, ";");
    p(m);
    tp(m);
    l(m, "x1");
    l(m, " lead");
    l(m, ".");
    Ok(())
}
fn real_180<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        ;$(if let (Some(v1), _) = (pr.opt(1)?, pr.b(2)?) {});
        $(for (i4, v2) in pr.it(3)?.enumerate() join ( /* between */ $[str](-$[const]("con st")one one$[const]("con st")$[const](pr.q(4)?)) ) { $[' '] $(pr.q(5)?) });
        x1$(match pr.b(6)? {
            true | false => (       $(display(pr.n(7, 9)?))  a1 )
        }).
        +$(match pr.opt(8)? { _ if pr.b(9)? => ( $(for (i10, v8) in pr.it(10)?.enumerate() join ( $(pr.c(11)) /* between */ ) => $(pr.q(12)?) Self ?)), Some(v7) => $(if pr.b(13)? && pr.b(14)? { $({ if pr.b(15)? { "t" } else { "f" } })  $({ pr.mark(16)?; "blk" })$$ } else { $(quoted(pr.q(17)?)) }), None => ({ , bar/**/_y }), })z_
        ab$(let v11 = pr.n(18, 9)?);
    }
    Ok(())
}
fn model_180(m: &mut MV, pr: &Pr) -> Flow {
    l(m, ";");
    if let (Some(v1), _) = (pr.opt(1)?, pr.b(2)?) {
    }
    l(m, ";");
    tp(m);
    {
    let mut it3 = pr.it(3)?;
    let mut at = 0u64;
    let mut step = || -> Flow<Option<(u64, String)>> { let x = it3.step()?; at += 1; Ok(x.map(|x| (at - 1, x))) };
    let mut next = step()?;
    while let Some((i4, v2)) = next {
    {
    sp(m);
    sp(m);
    m.lit(pr.q(5)?);
    }
    next = step()?;
    if next.is_some() {
    {
    sp(m);
    oq(m, false);
    l(m, "-con stone onecon st");
    m.lit(pr.q(4)?);
    cq(m);
    sp(m);
    }
    }
    }
    }
    l(m, ";");
    tp(m);
    l(m, "x1");
    match pr.b(6)? {
    true | false => {
    sp(m);
    m.lit(pr.n(7, 9)?.to_string());
    sp(m);
    l(m, "a1");
    sp(m);
    }
    }
    l(m, ".");
    tp(m);
    l(m, "+");
    match pr.opt(8)? {
    _ if pr.b(9)? => {
    sp(m);
    {
    let mut it9 = pr.it(10)?;
    let mut at = 0u64;
    let mut step = || -> Flow<Option<(u64, String)>> { let x = it9.step()?; at += 1; Ok(x.map(|x| (at - 1, x))) };
    let mut next = step()?;
    while let Some((i10, v8)) = next {
    {
    m.lit(pr.q(12)?);
    sp(m);
    l(m, "Self");
    sp(m);
    l(m, "?");
    }
    next = step()?;
    if next.is_some() {
    {
    sp(m);
    m.lit(pr.mc(11)?);
    sp(m);
    }
    }
    }
    }
    }
    Some(v7) => {
    if pr.b(13)? && pr.b(14)? {
    l(m, if pr.b(15)? { "t" } else { "f" });
    sp(m);
    pr.mark(16)?; l(m, "blk");
    l(m, "$");
    } else {
    { let x = pr.q(17)?; oq(m, false); m.lit(x); cq(m); }
    }
    }
    None => {
    l(m, "{");
    sp(m);
    l(m, ",");
    sp(m);
    l(m, "bar");
    sp(m);
    l(m, "_y");
    sp(m);
    l(m, "}");
    }
    }
    l(m, "z_");
    tp(m);
    l(m, "ab");
    let v11 = pr.n(18, 9)?;
    l(m, ";");
    Ok(())
}
fn real_181<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        x1$(ref _ { pr.mark(1)?; }) ;
        ab$(&quote!($(for v2 in pr.it(2)? => Self) /* between */ $(match pr.opt(3)? { Some(v4) if v4.is_empty() || pr.b(4)? => $$ {$(Some(pr.q(6)?))$(from_fn(|t| { t.append(pr.c(7)); t.space(); t.append(pr.c(8)); })) /* between */ $(pr.opt(9)?)	$(from_fn(|t| { t.append(pr.c(10)); t.space(); t.append(pr.c(11)); })), _y}, None if pr.b(5)? => &&$(pr.q(12)?), Some(v5) => ('\\'$(pr.multi(13)?)/**/$(pr.q(14)?.as_str())), _ => $(pr.q(15)?)$({ pr.mark(16)?; "blk" }) { while, $(Some(pr.q(17)?))} })$({ if pr.b(18)? { "t" } else { "f" } }))) ;
        ;$[str](two $$two)z_
        ab$(from_fn(|t| { t.append(pr.c(19)); t.space(); t.append(pr.c(20)); }));
        x1$(pr.q(21)?).
    }
    Ok(())
}
fn model_181(m: &mut MV, pr: &Pr) -> Flow {
    l(m, "x1");
    pr.mark(1)?;
    sp(m);
    l(m, ";");
    tp(m);
    l(m, "ab");
    let mut s1 = MStream::<()>::default();
    {
    let m = &mut s1;
    {
    let mut it3 = pr.it(2)?;
    let mut step = || -> Flow<Option<String>> { it3.step() };
    while let Some(v2) = step()? {
    l(m, "Self");
    }
    }
    sp(m);
    match pr.opt(3)? {
    Some(v4) if v4.is_empty() || pr.b(4)? => {
    l(m, "$");
    sp(m);
    l(m, "{");
    m.lit(pr.q(6)?);
    m.lit(pr.mc(7)?); sp(m); m.lit(pr.mc(8)?);
    sp(m);
    if let Some(x) = pr.opt(9)? { m.lit(x); }
    sp(m);
    m.lit(pr.mc(10)?); sp(m); m.lit(pr.mc(11)?);
    l(m, ",");
    sp(m);
    l(m, "_y");
    l(m, "}");
    }
    None if pr.b(5)? => {
    l(m, "&&");
    m.lit(pr.q(12)?);
    }
    Some(v5) => {
    l(m, "'\\\\'");
    pr.mmulti(13, m)?;
    sp(m);
    m.lit(pr.q(14)?);
    }
    _ => {
    m.lit(pr.q(15)?);
    pr.mark(16)?; l(m, "blk");
    sp(m);
    l(m, "{");
    sp(m);
    l(m, "while");
    l(m, ",");
    sp(m);
    m.lit(pr.q(17)?);
    l(m, "}");
    }
    }
    l(m, if pr.b(18)? { "t" } else { "f" });
    }
    m.add_all(&s1.items);
    sp(m);
    l(m, ";");
    tp(m);
    l(m, ";");
    oq(m, false);
    l(m, "two $two");
    cq(m);
    l(m, "z_");
    tp(m);
    l(m, "ab");
    m.lit(pr.mc(19)?); sp(m); m.lit(pr.mc(20)?);
    l(m, ";");
    tp(m);
    l(m, "x1");
    m.lit(pr.q(21)?);
    l(m, ".");
    Ok(())
}
fn real_182<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        ab$['\n']yz
        ; $("ä").
        +$(if pr.b(1)? && pr.b(2)? {}).
        $(for v1 in pr.it(3)?.filter(|_| pr.cb(4)) join ( $(let mut v3 = pr.q(5)?)) => $(if let Some(v4) = pr.opt(6)? { _y }) $(match (pr.b(8)?, pr.n(9, 3)?) { (true, 0) => { x }, (false, v5) if v5 < 2 && pr.b(10)? => { $({ if pr.b(12)? { "t" } else { "f" } }) while }, _ if pr.b(11)? => a1 $(quoted(pr.q(13)?))       Self, (..) => { bar } })).
        x1 $(match pr.q(14)? { v6 => $(if pr.b(15)? { $({ pr.mark(16)?; "blk" })a1 } else { $$ $(&pr.q(17)?) /* between */ $(pr.c(18)) })($$/**/a1)$(if let Some(v7) = pr.opt(19)? { $(pr.c(21)) }), }).
    }
    Ok(())
}
fn model_182(m: &mut MV, pr: &Pr) -> Flow {
    l(m, "ab");
    ln(m);
    l(m, "yz");
    tp(m);
    l(m, ";");
    sp(m);
    l(m, "ä");
    l(m, ".");
    tp(m);
    l(m, "+");
    if pr.b(1)? && pr.b(2)? {
    }
    l(m, ".");
    tp(m);
    {
    let mut it2 = pr.it(3)?;
    let mut step = || -> Flow<Option<String>> { while let Some(x) = it2.step()? { if pr.mcb(4)? { return Ok(Some(x)); } } Ok(None) };
    let mut next = step()?;
    while let Some(v1) = next {
    {
    if let Some(v4) = pr.opt(6)? {
    l(m, "_y");
    }
    sp(m);
    match (pr.b(8)?, pr.n(9, 3)?) {
    (true, 0) => {
    l(m, "x");
    }
    (false, v5) if v5 < 2 && pr.b(10)? => {
    l(m, if pr.b(12)? { "t" } else { "f" });
    sp(m);
    l(m, "while");
    }
    _ if pr.b(11)? => {
    l(m, "a1");
    sp(m);
    { let x = pr.q(13)?; oq(m, false); m.lit(x); cq(m); }
    sp(m);
    l(m, "Self");
    }
    (..) => {
    l(m, "bar");
    }
    }
    }
    next = step()?;
    if next.is_some() {
    {
    sp(m);
    let mut v3 = pr.q(5)?;
    }
    }
    }
    }
    l(m, ".");
    tp(m);
    l(m, "x1");
    sp(m);
    match pr.q(14)? {
    v6 => {
    if pr.b(15)? {
    pr.mark(16)?; l(m, "blk");
    l(m, "a1");
    } else {
    l(m, "$");
    sp(m);
    m.lit(pr.q(17)?);
    sp(m);
    m.lit(pr.mc(18)?);
    }
    l(m, "(");
    l(m, "$");
    sp(m);
    l(m, "a1");
    l(m, ")");
    if let Some(v7) = pr.opt(19)? {
    m.lit(pr.mc(21)?);
    }
    }
    }
    l(m, ".");
    Ok(())
}
fn real_183<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        +$(match (pr.b(1)?, pr.n(2, 3)?) { (true, 0) => (  $[str](a b  c)/**/$(pr.q(4)?) /* between */ ), (false, v1) if v1 < 2 && pr.b(3)? => { 1_000u64$(ref o2 { if pr.rare(5)? { o2.append(pr.q(6)?); return Err(Left::Return); } }) /* between */ $(let v3 = pr.q(7)?) } (_, 1) | (true, _) => { $(pr.q(8)?.as_str())$(for (i6, v4) in pr.it(9)?.enumerate() join ( $(display(pr.n(10, 9)?))$({ if pr.b(11)? { "t" } else { "f" } }) ) { "lit" }) }, (..) => ( /* between */ $("ä") ), }) .
        +$(let (v7, v8) = (pr.q(12)?, pr.n(13, 9)?)).
        ab$(ref _ => if pr.b(14)? { pr.mark(15)?; }).
        ;$(&quote!($(match pr.opt(16)? { Some(v10) if v10.is_empty() || pr.b(17)? => { +  Self } Some(v11) => $$ (  $(from_fn(|t| { t.append(pr.c(18)); t.space(); t.append(pr.c(19)); }))/**/$(pr.multi(20)?)_y, $({ if pr.b(21)? { "t" } else { "f" } }) $(format!("<{}>", pr.q(22)?)) ), None => $(pr.multi(23)?) {$(pr.n(24, 9)?), $(vec![pr.q(25)?, pr.q(26)?])foo}, })$(pr.n(27, 9)?))).
        +$[str]($$ $[const](pr.q(28)?)$($(if pr.b(29)? { $(display(pr.n(30, 9)?)) })/**/$(let mut v12 = pr.q(31)?)) one two$($(for (i15, v13) in pr.it(32)?.enumerate() { bar $(format!("<{}>", pr.q(33)?)) })$(match pr.n(34, 9)? { v16 => ($(pr.multi(35)?)$(pr.opt(36)?)  $(pr.n(37, 9)?)) }))) z_
    }
    Ok(())
}
fn model_183(m: &mut MV, pr: &Pr) -> Flow {
    l(m, "+");
    match (pr.b(1)?, pr.n(2, 3)?) {
    (true, 0) => {
    sp(m);
    qs(m, "a b  c");
    sp(m);
    m.lit(pr.q(4)?);
    sp(m);
    }
    (false, v1) if v1 < 2 && pr.b(3)? => {
    l(m, "1_000u64");
    if pr.rare(5)? { m.lit(pr.q(6)?); return Err(Left::Return); }
    sp(m);
    let v3 = pr.q(7)?;
    }
    (_, 1) | (true, _) => {
    m.lit(pr.q(8)?);
    {
    let mut it5 = pr.it(9)?;
    let mut at = 0u64;
    let mut step = || -> Flow<Option<(u64, String)>> { let x = it5.step()?; at += 1; Ok(x.map(|x| (at - 1, x))) };
    let mut next = step()?;
    while let Some((i6, v4)) = next {
    {
    qs(m, "lit");
    }
    next = step()?;
    if next.is_some() {
    {
    sp(m);
    m.lit(pr.n(10, 9)?.to_string());
    l(m, if pr.b(11)? { "t" } else { "f" });
    sp(m);
    }
    }
    }
    }
    }
    (..) => {
    sp(m);
    l(m, "ä");
    sp(m);
    }
    }
    sp(m);
    l(m, ".");
    tp(m);
    l(m, "+");
    let (v7, v8) = (pr.q(12)?, pr.n(13, 9)?);
    l(m, ".");
    tp(m);
    l(m, "ab");
    if pr.b(14)? { pr.mark(15)?; }
    l(m, ".");
    tp(m);
    l(m, ";");
    let mut s9 = MStream::<()>::default();
    {
    let m = &mut s9;
    match pr.opt(16)? {
    Some(v10) if v10.is_empty() || pr.b(17)? => {
    l(m, "+");
    sp(m);
    l(m, "Self");
    }
    Some(v11) => {
    l(m, "$");
    sp(m);
    l(m, "(");
    sp(m);
    m.lit(pr.mc(18)?); sp(m); m.lit(pr.mc(19)?);
    sp(m);
    pr.mmulti(20, m)?;
    l(m, "_y");
    l(m, ",");
    sp(m);
    l(m, if pr.b(21)? { "t" } else { "f" });
    sp(m);
    m.lit(format!("<{}>", pr.q(22)?));
    sp(m);
    l(m, ")");
    }
    None => {
    pr.mmulti(23, m)?;
    sp(m);
    l(m, "{");
    m.lit(pr.n(24, 9)?.to_string());
    l(m, ",");
    sp(m);
    { let x = pr.q(25)?; let y = pr.q(26)?; m.lit(x); m.lit(y); }
    l(m, "foo");
    l(m, "}");
    }
    }
    m.lit(pr.n(27, 9)?.to_string());
    }
    m.add_all(&s9.items);
    l(m, ".");
    tp(m);
    l(m, "+");
    oq(m, true);
    l(m, "$ ");
    m.lit(pr.q(28)?);
    oe(m);
    {
    if pr.b(29)? {
    m.lit(pr.n(30, 9)?.to_string());
    }
    sp(m);
    let mut v12 = pr.q(31)?;
    }
    ce(m);
    l(m, " one two");
    oe(m);
    {
    {
    let mut it14 = pr.it(32)?;
    let mut at = 0u64;
    let mut step = || -> Flow<Option<(u64, String)>> { let x = it14.step()?; at += 1; Ok(x.map(|x| (at - 1, x))) };
    while let Some((i15, v13)) = step()? {
    l(m, "bar");
    sp(m);
    m.lit(format!("<{}>", pr.q(33)?));
    }
    }
    match pr.n(34, 9)? {
    v16 => {
    pr.mmulti(35, m)?;
    if let Some(x) = pr.opt(36)? { m.lit(x); }
    sp(m);
    m.lit(pr.n(37, 9)?.to_string());
    }
    }
    }
    ce(m);
    cq(m);
    sp(m);
    l(m, "z_");
    Ok(())
}
fn real_184<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(display(pr.n(1, 9)?));
        ab$(Some(pr.q(2)?))yz
        + $['\r'];
        +$("ä") .
        +$(if let Some(v1) = pr.opt(3)? => $(&quote! {
            foo x [
            ]
        })$(quote! {
            +/**/$({ if pr.b(5)? { "t" } else { "f" } })1_000u64 x
            
            1_000u64$(pr.opt(6)?)
            
            $(from_fn(|t| { t.append(pr.c(7)); t.space(); t.append(pr.c(8)); }))
            // between
            // between
            ;'a/**/$(pr.n(9, 9)?)$(pr.q(10)?.as_str()) /* between */ "lit" =
        }) $(format!("<{}>", pr.q(11)?))).
    }
    Ok(())
}
fn model_184(m: &mut MV, pr: &Pr) -> Flow {
    m.lit(pr.n(1, 9)?.to_string());
    l(m, ";");
    tp(m);
    l(m, "ab");
    m.lit(pr.q(2)?);
    l(m, "yz");
    tp(m);
    l(m, "+");
    sp(m);
    p(m);
    l(m, ";");
    tp(m);
    l(m, "+");
    l(m, "ä");
    sp(m);
    l(m, ".");
    tp(m);
    l(m, "+");
    if let Some(v1) = pr.opt(3)? {
    let mut s2 = MStream::<()>::default();
    {
    let m = &mut s2;
    l(m, "foo");
    sp(m);
    l(m, "x");
    sp(m);
    l(m, "[");
    tp(m);
    l(m, "]");
    }
    m.add_all(&s2.items);
    let mut s3 = MStream::<()>::default();
    {
    let m = &mut s3;
    l(m, "+");
    sp(m);
    l(m, if pr.b(5)? { "t" } else { "f" });
    l(m, "1_000u64");
    sp(m);
    l(m, "x");
    tln(m);
    l(m, "1_000u64");
    if let Some(x) = pr.opt(6)? { m.lit(x); }
    tln(m);
    m.lit(pr.mc(7)?); sp(m); m.lit(pr.mc(8)?);
    tln(m);
    l(m, ";");
    l(m, "'a");
    sp(m);
    m.lit(pr.n(9, 9)?.to_string());
    m.lit(pr.q(10)?);
    sp(m);
    qs(m, "lit");
    sp(m);
    l(m, "=");
    }
    m.add_all(&s3.items);
    sp(m);
    m.lit(format!("<{}>", pr.q(11)?));
    }
    l(m, ".");
    Ok(())
}
fn real_185<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        $(for v1 in 0..pr.n(1, 4)? join (.) {
            $[str]($name-$[const](pr.q(2)?))  $[' ']
        });
        +$(match (pr.b(3)?, pr.n(4, 3)?) { (true, 0) => $(from_fn(|t| { t.append(pr.c(6)); t.space(); t.append(pr.c(7)); })) ($({ if pr.b(8)? { "t" } else { "f" } }), a1	$(quoted(pr.q(9)?)) ), (false, v3) if v3 < 2 && pr.b(5)? => $(for v4 in pr.opt(10)? join (       _y ) => $(&pr.q(11)?)) [/**/identifier_identifier_identifier_identifier_end$(pr.q(12)?.as_str())$({ pr.mark(13)?; "blk" }) x, $(pr.q(14)?.as_str()),], _ => $(pr.q(15)?.as_str())$(Some(pr.q(16)?)) (while foo$(from_fn(|t| { t.append(pr.c(17)); t.space(); t.append(pr.c(18)); })), 7), }).
        +$(match (pr.b(19)?, pr.q(20)?) { (_, v6) => $(ref o7 { o7.append(pr.q(21)?); o7.space(); o7.append(pr.q(22)?); }) [$(pr.multi(23)?)/**/$(pr.q(24)?), ...] }) yz
        ab $(let v8 = pr.n(25, 9)?)
        +$(ref _ { pr.mark(26)?; });
    }
    Ok(())
}
fn model_185(m: &mut MV, pr: &Pr) -> Flow {
    {
    let mut it2 = 0..pr.n(1, 4)?;
    let mut step = || -> Flow<Option<u64>> { Ok(it2.next()) };
    let mut next = step()?;
    while let Some(v1) = next {
    {
    oq(m, true);
    oe(m);
    l(m, "name");
    ce(m);
    l(m, "-");
    m.lit(pr.q(2)?);
    cq(m);
    sp(m);
    sp(m);
    }
    next = step()?;
    if next.is_some() {
    {
    l(m, ".");
    }
    }
    }
    }
    l(m, ";");
    tp(m);
    l(m, "+");
    match (pr.b(3)?, pr.n(4, 3)?) {
    (true, 0) => {
    m.lit(pr.mc(6)?); sp(m); m.lit(pr.mc(7)?);
    sp(m);
    l(m, "(");
    l(m, if pr.b(8)? { "t" } else { "f" });
    l(m, ",");
    sp(m);
    l(m, "a1");
    sp(m);
    { let x = pr.q(9)?; oq(m, false); m.lit(x); cq(m); }
    sp(m);
    l(m, ")");
    }
    (false, v3) if v3 < 2 && pr.b(5)? => {
    {
    let mut it5 = pr.opt(10)?.into_iter();
    let mut step = || -> Flow<Option<String>> { Ok(it5.next()) };
    let mut next = step()?;
    while let Some(v4) = next {
    {
    m.lit(pr.q(11)?);
    }
    next = step()?;
    if next.is_some() {
    {
    sp(m);
    l(m, "_y");
    sp(m);
    }
    }
    }
    }
    sp(m);
    l(m, "[");
    sp(m);
    l(m, "identifier_identifier_identifier_identifier_end");
    m.lit(pr.q(12)?);
    pr.mark(13)?; l(m, "blk");
    sp(m);
    l(m, "x");
    l(m, ",");
    sp(m);
    m.lit(pr.q(14)?);
    l(m, ",");
    l(m, "]");
    }
    _ => {
    m.lit(pr.q(15)?);
    m.lit(pr.q(16)?);
    sp(m);
    l(m, "(");
    l(m, "while");
    sp(m);
    l(m, "foo");
    m.lit(pr.mc(17)?); sp(m); m.lit(pr.mc(18)?);
    l(m, ",");
    sp(m);
    l(m, "7");
    l(m, ")");
    }
    }
    l(m, ".");
    tp(m);
    l(m, "+");
    match (pr.b(19)?, pr.q(20)?) {
    (_, v6) => {
    m.lit(pr.q(21)?); sp(m); m.lit(pr.q(22)?);
    sp(m);
    l(m, "[");
    pr.mmulti(23, m)?;
    sp(m);
    m.lit(pr.q(24)?);
    l(m, ",");
    sp(m);
    l(m, "...");
    l(m, "]");
    }
    }
    sp(m);
    l(m, "yz");
    tp(m);
    l(m, "ab");
    sp(m);
    let v8 = pr.n(25, 9)?;
    tp(m);
    l(m, "+");
    pr.mark(26)?;
    l(m, ";");
    Ok(())
}
fn real_186<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        +$(quoted(quote! {
            $[str](three) /* between */ $(match pr.b(1)? {
                true | false => { "lit"$(format!("<{}>", pr.q(2)?))$$ },
            })"lit" // note
            // between
                $(match pr.opt(3)? { Some(v4) => ( $(pr.q(4)?)$(pr.q(5)?) _y ), None => _y })       $(pr.q(6)?.as_str())x "two words"       a1 foo$(Some(pr.q(7)?))
                a1 $(pr.opt(8)?) $(pr.n(9, 9)?) _y
        }));
        ;$[str](a b  c)z_
        x1$(display(pr.n(10, 9)?)) ;
        x1$(display(pr.n(11, 9)?));
        +$['\r']yz
    }
    Ok(())
}
fn model_186(m: &mut MV, pr: &Pr) -> Flow {
    l(m, "+");
    let mut s1 = MStream::<()>::default();
    {
    let m = &mut s1;
    oq(m, false);
    l(m, "three");
    cq(m);
    sp(m);
    match pr.b(1)? {
    true | false => {
    qs(m, "lit");
    m.lit(format!("<{}>", pr.q(2)?));
    l(m, "$");
    }
    }
    qs(m, "lit");
    tind(m);
    tln(m);
    match pr.opt(3)? {
    Some(v4) => {
    sp(m);
    m.lit(pr.q(4)?);
    m.lit(pr.q(5)?);
    sp(m);
    l(m, "_y");
    sp(m);
    }
    None => {
    l(m, "_y");
    }
    }
    sp(m);
    m.lit(pr.q(6)?);
    l(m, "x");
    sp(m);
    qs(m, "two words");
    sp(m);
    l(m, "a1");
    sp(m);
    l(m, "foo");
    m.lit(pr.q(7)?);
    tp(m);
    l(m, "a1");
    sp(m);
    if let Some(x) = pr.opt(8)? { m.lit(x); }
    sp(m);
    m.lit(pr.n(9, 9)?.to_string());
    sp(m);
    l(m, "_y");
    tend(m);
    }
    oq(m, false);
    m.add_all(&s1.items);
    cq(m);
    l(m, ";");
    tp(m);
    l(m, ";");
    qs(m, "a b  c");
    l(m, "z_");
    tp(m);
    l(m, "x1");
    m.lit(pr.n(10, 9)?.to_string());
    sp(m);
    l(m, ";");
    tp(m);
    l(m, "x1");
    m.lit(pr.n(11, 9)?.to_string());
    l(m, ";");
    tp(m);
    l(m, "+");
    p(m);
    l(m, "yz");
    Ok(())
}
fn real_187<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        ;$("ver batim") z_
        ab$(if pr.b(1)? { {,x       $(&pr.q(2)?) "q\"uote"} } else { $(pr.opt(3)?)/**/$[str]($($(pr.q(4)?))$[const]("con st")) })
        +$(for v1 in 0..pr.n(5, 4)? join ($(ref o3 { if pr.rare(6)? { o3.append(pr.q(7)?); return Err(Left::Return); } })) { Self$[str]($($(from_fn(|t| { t.append(pr.c(8)); t.space(); t.append(pr.c(9)); }))'c'/**/&&))$(if let Some(v4) = pr.opt(10)? { $$ & } else { =/**/$(pr.q(12)?.as_str())x }) })z_
        x1$(match (pr.b(13)?, pr.n(14, 3)?) { (true, 0) => $(pr.multi(17)?) $(pr.n(18, 9)?) { $(pr.q(19)?)1_000u64, $(quoted(pr.q(20)?))}, (false, v5) if v5 < 2 && pr.b(15)? => $(pr.multi(21)?) _y, (_, 1) | (true, _) => foo/**/$(Some(pr.q(22)?))       _y ( $(from_fn(|t| { t.append(pr.c(23)); t.space(); t.append(pr.c(24)); })), $(&pr.q(25)?)), _ if pr.b(16)? => { a1 $(pr.multi(26)?) }, _ => { $(pr.c(27))$(Some(pr.q(28)?)) } }) z_
        ab $(match pr.b(29)? { true | false => { $(for (i9, v7) in pr.it(30)?.enumerate() join (, ) { $(pr.q(31)?) }) $(from_fn(|t| { t.append(pr.c(32)); t.space(); t.append(pr.c(33)); }))       $(match (pr.b(34)?, pr.n(35, 3)?) { (true, 0) => Self $(pr.n(37, 9)?), _ if pr.b(36)? => { $(&pr.q(38)?) } (..) => ($(format!("<{}>", pr.q(39)?))$(pr.n(40, 9)?) ) }) } }) .
    }
    Ok(())
}
fn model_187(m: &mut MV, pr: &Pr) -> Flow {
    l(m, ";");
    l(m, "ver batim");
    sp(m);
    l(m, "z_");
    tp(m);
    l(m, "ab");
    if pr.b(1)? {
    l(m, "{");
    l(m, ",");
    l(m, "x");
    sp(m);
    m.lit(pr.q(2)?);
    sp(m);
    qs(m, "q\"uote");
    l(m, "}");
    } else {
    if let Some(x) = pr.opt(3)? { m.lit(x); }
    sp(m);
    oq(m, true);
    oe(m);
    {
    m.lit(pr.q(4)?);
    }
    ce(m);
    l(m, "con st");
    cq(m);
    }
    tp(m);
    l(m, "+");
    {
    let mut it2 = 0..pr.n(5, 4)?;
    let mut step = || -> Flow<Option<u64>> { Ok(it2.next()) };
    let mut next = step()?;
    while let Some(v1) = next {
    {
    l(m, "Self");
    oq(m, true);
    oe(m);
    {
    m.lit(pr.mc(8)?); sp(m); m.lit(pr.mc(9)?);
    l(m, "'c'");
    sp(m);
    l(m, "&&");
    }
    ce(m);
    cq(m);
    if let Some(v4) = pr.opt(10)? {
    l(m, "$");
    sp(m);
    l(m, "&");
    } else {
    l(m, "=");
    sp(m);
    m.lit(pr.q(12)?);
    l(m, "x");
    }
    }
    next = step()?;
    if next.is_some() {
    {
    if pr.rare(6)? { m.lit(pr.q(7)?); return Err(Left::Return); }
    }
    }
    }
    }
    l(m, "z_");
    tp(m);
    l(m, "x1");
    match (pr.b(13)?, pr.n(14, 3)?) {
    (true, 0) => {
    pr.mmulti(17, m)?;
    sp(m);
    m.lit(pr.n(18, 9)?.to_string());
    sp(m);
    l(m, "{");
    sp(m);
    m.lit(pr.q(19)?);
    l(m, "1_000u64");
    l(m, ",");
    sp(m);
    { let x = pr.q(20)?; oq(m, false); m.lit(x); cq(m); }
    l(m, "}");
    }
    (false, v5) if v5 < 2 && pr.b(15)? => {
    pr.mmulti(21, m)?;
    sp(m);
    l(m, "_y");
    }
    (_, 1) | (true, _) => {
    l(m, "foo");
    sp(m);
    m.lit(pr.q(22)?);
    sp(m);
    l(m, "_y");
    sp(m);
    l(m, "(");
    sp(m);
    m.lit(pr.mc(23)?); sp(m); m.lit(pr.mc(24)?);
    l(m, ",");
    sp(m);
    m.lit(pr.q(25)?);
    l(m, ")");
    }
    _ if pr.b(16)? => {
    l(m, "a1");
    sp(m);
    pr.mmulti(26, m)?;
    }
    _ => {
    m.lit(pr.mc(27)?);
    m.lit(pr.q(28)?);
    }
    }
    sp(m);
    l(m, "z_");
    tp(m);
    l(m, "ab");
    sp(m);
    match pr.b(29)? {
    true | false => {
    {
    let mut it8 = pr.it(30)?;
    let mut at = 0u64;
    let mut step = || -> Flow<Option<(u64, String)>> { let x = it8.step()?; at += 1; Ok(x.map(|x| (at - 1, x))) };
    let mut next = step()?;
    while let Some((i9, v7)) = next {
    {
    m.lit(pr.q(31)?);
    }
    next = step()?;
    if next.is_some() {
    {
    l(m, ",");
    sp(m);
    }
    }
    }
    }
    sp(m);
    m.lit(pr.mc(32)?); sp(m); m.lit(pr.mc(33)?);
    sp(m);
    match (pr.b(34)?, pr.n(35, 3)?) {
    (true, 0) => {
    l(m, "Self");
    sp(m);
    m.lit(pr.n(37, 9)?.to_string());
    }
    _ if pr.b(36)? => {
    m.lit(pr.q(38)?);
    }
    (..) => {
    m.lit(format!("<{}>", pr.q(39)?));
    m.lit(pr.n(40, 9)?.to_string());
    sp(m);
    }
    }
    }
    }
    sp(m);
    l(m, ".");
    Ok(())
}
fn real_188<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        ab$(let v1 = pr.q(1)?).
        ;$(ref o2 {
            for _ in 0..pr.n(2, 3)? {
                quote_in! { *o2 =>
                    a1
                    $(ref o3 {
                        for _ in 0..pr.n(3, 3)? {
                            quote_in! { *o3 =>
                                Self       '\\'
                            }
                            o3.line();
                        }
                    }) $(if pr.n(4, 3)? == 1 { $(pr.n(5, 9)?) $(quoted(pr.q(6)?)) } else {
                        _y	"lit"$(quoted(pr.q(7)?))
                        .$(display(pr.n(8, 9)?)) x$$
                        a1$$ $(pr.n(9, 9)?) {
                        // between
                                'c'$(format!("<{}>", pr.q(10)?))$(quoted(pr.q(11)?))bar$$ $(vec![pr.q(12)?, pr.q(13)?])
                        }
                    })	$(pr.n(14, 9)?)'c'
                    $(display(pr.n(15, 9)?))	=$(pr.q(16)?.as_str())$(pr.n(17, 9)?)
                    $(vec![pr.q(18)?, pr.q(19)?])"two words"$({ pr.mark(20)?; "blk" }) foo
                }
                o2.line();
            }
        })z_
        + $(quote!(.))
        x1$[str](one $$ $[const](pr.q(21)?) $$two$name- one$name-) ;
        ;$(format!("<{}>", pr.q(22)?));
    }
    Ok(())
}
fn model_188(m: &mut MV, pr: &Pr) -> Flow {
    l(m, "ab");
    let v1 = pr.q(1)?;
    l(m, ".");
    tp(m);
    l(m, ";");
    for _ in 0..pr.n(2, 3)? {
    l(m, "a1");
    tp(m);
    for _ in 0..pr.n(3, 3)? {
    l(m, "Self");
    sp(m);
    l(m, "'\\\\'");
    ln(m);
    }
    sp(m);
    if pr.n(4, 3)? == 1 {
    m.lit(pr.n(5, 9)?.to_string());
    sp(m);
    { let x = pr.q(6)?; oq(m, false); m.lit(x); cq(m); }
    } else {
    l(m, "_y");
    sp(m);
    qs(m, "lit");
    { let x = pr.q(7)?; oq(m, false); m.lit(x); cq(m); }
    tp(m);
    l(m, ".");
    m.lit(pr.n(8, 9)?.to_string());
    sp(m);
    l(m, "x");
    l(m, "$");
    tp(m);
    l(m, "a1");
    l(m, "$");
    sp(m);
    m.lit(pr.n(9, 9)?.to_string());
    sp(m);
    l(m, "{");
    tind(m);
    tln(m);
    l(m, "'c'");
    m.lit(format!("<{}>", pr.q(10)?));
    { let x = pr.q(11)?; oq(m, false); m.lit(x); cq(m); }
    l(m, "bar");
    l(m, "$");
    sp(m);
    { let x = pr.q(12)?; let y = pr.q(13)?; m.lit(x); m.lit(y); }
    tun(m);
    l(m, "}");
    }
    sp(m);
    m.lit(pr.n(14, 9)?.to_string());
    l(m, "'c'");
    tp(m);
    m.lit(pr.n(15, 9)?.to_string());
    sp(m);
    l(m, "=");
    m.lit(pr.q(16)?);
    m.lit(pr.n(17, 9)?.to_string());
    tp(m);
    { let x = pr.q(18)?; let y = pr.q(19)?; m.lit(x); m.lit(y); }
    qs(m, "two words");
    pr.mark(20)?; l(m, "blk");
    sp(m);
    l(m, "foo");
    ln(m);
    }
    l(m, "z_");
    tp(m);
    l(m, "+");
    sp(m);
    let mut s4 = MStream::<()>::default();
    {
    let m = &mut s4;
    l(m, ".");
    }
    m.add_all(&s4.items);
    tp(m);
    l(m, "x1");
    oq(m, true);
    l(m, "one $ ");
    m.lit(pr.q(21)?);
    l(m, " $two");
    oe(m);
    l(m, "name");
    ce(m);
    l(m, "- one");
    oe(m);
    l(m, "name");
    ce(m);
    l(m, "-");
    cq(m);
    sp(m);
    l(m, ";");
    tp(m);
    l(m, ";");
    m.lit(format!("<{}>", pr.q(22)?));
    l(m, ";");
    Ok(())
}
fn real_189<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        +$(format!("<{}>", pr.q(1)?));
        ;$['\n']z_
        x1$("ä");
        +$(if pr.b(2)? {
            $(pr.opt(3)?)$[str]($[const](pr.q(4)?)two two$($(pr.q(5)?)_y $(quoted(pr.q(6)?)))three$name-$("lit"$(pr.opt(7)?)  _y)three) $(if pr.b(8)? { "lit"/**/::$(quoted(pr.q(9)?)) } else { <<= })foo
            $(quoted(pr.q(10)?))$({ pr.mark(11)?; "blk" })=
        } else { Self }).
        ab$(for v1 in 0..pr.n(12, 4)? join (, ) {
            $(display(pr.n(15, 9)?))/**/$(if pr.b(16)? {
                $(pr.n(17, 9)?) $(pr.multi(18)?) $(vec![pr.q(19)?, pr.q(20)?])
                   $(pr.c(21))
            } else {
                "two words"$(pr.q(22)?) $(format!("<{}>", pr.q(23)?)) foo
                // between
                .$(vec![pr.q(24)?, pr.q(25)?])x $({ if pr.b(26)? { "t" } else { "f" } })
                x
            }) $(pr.opt(27)?)=
        })yz
    }
    Ok(())
}
fn model_189(m: &mut MV, pr: &Pr) -> Flow {
    l(m, "+");
    m.lit(format!("<{}>", pr.q(1)?));
    l(m, ";");
    tp(m);
    l(m, ";");
    ln(m);
    l(m, "z_");
    tp(m);
    l(m, "x1");
    l(m, "ä");
    l(m, ";");
    tp(m);
    l(m, "+");
    if pr.b(2)? {
    if let Some(x) = pr.opt(3)? { m.lit(x); }
    oq(m, true);
    m.lit(pr.q(4)?);
    l(m, "two two");
    oe(m);
    {
    m.lit(pr.q(5)?);
    l(m, "_y");
    sp(m);
    { let x = pr.q(6)?; oq(m, false); m.lit(x); cq(m); }
    }
    ce(m);
    l(m, "three");
    oe(m);
    l(m, "name");
    ce(m);
    l(m, "-");
    oe(m);
    {
    qs(m, "lit");
    if let Some(x) = pr.opt(7)? { m.lit(x); }
    sp(m);
    l(m, "_y");
    }
    ce(m);
    l(m, "three");
    cq(m);
    sp(m);
    if pr.b(8)? {
    qs(m, "lit");
    sp(m);
    l(m, "::");
    { let x = pr.q(9)?; oq(m, false); m.lit(x); cq(m); }
    } else {
    l(m, "<<=");
    }
    l(m, "foo");
    tp(m);
    { let x = pr.q(10)?; oq(m, false); m.lit(x); cq(m); }
    pr.mark(11)?; l(m, "blk");
    l(m, "=");
    } else {
    l(m, "Self");
    }
    l(m, ".");
    tp(m);
    l(m, "ab");
    {
    let mut it2 = 0..pr.n(12, 4)?;
    let mut step = || -> Flow<Option<u64>> { Ok(it2.next()) };
    let mut next = step()?;
    while let Some(v1) = next {
    {
    m.lit(pr.n(15, 9)?.to_string());
    sp(m);
    if pr.b(16)? {
    m.lit(pr.n(17, 9)?.to_string());
    sp(m);
    pr.mmulti(18, m)?;
    sp(m);
    { let x = pr.q(19)?; let y = pr.q(20)?; m.lit(x); m.lit(y); }
    tind(m);
    m.lit(pr.mc(21)?);
    tend(m);
    } else {
    qs(m, "two words");
    m.lit(pr.q(22)?);
    sp(m);
    m.lit(format!("<{}>", pr.q(23)?));
    sp(m);
    l(m, "foo");
    tln(m);
    l(m, ".");
    { let x = pr.q(24)?; let y = pr.q(25)?; m.lit(x); m.lit(y); }
    l(m, "x");
    sp(m);
    l(m, if pr.b(26)? { "t" } else { "f" });
    tp(m);
    l(m, "x");
    }
    sp(m);
    if let Some(x) = pr.opt(27)? { m.lit(x); }
    l(m, "=");
    }
    next = step()?;
    if next.is_some() {
    {
    l(m, ",");
    sp(m);
    }
    }
    }
    }
    l(m, "yz");
    Ok(())
}
fn real_190<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        +$(match pr.b(1)? {
            true | false => { $(pr.q(2)?.as_str()){$$ ($$ ($$ $("ä") $(pr.q(3)?)) nameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameame) &}$(for v2 in [pr.q(4)?, pr.q(5)?] { $(pr.n(6, 9)?) }) },
        })z_
        $(match pr.n(7, 3)? {
            0 => { $(if pr.b(8)? || !pr.b(9)? {
                +  foo$(pr.q(10)?.as_str())$(pr.opt(11)?)  {
                // between
                }
            })$(if pr.b(12)? => ; &) },
            1 => {
                $(ref o4 { if pr.rare(13)? { o4.append(pr.q(14)?); return Err(Left::Return); } })  $("ver batim")
                // between
                
                
                
                $(match pr.q(15)? {
                    v5 => { +a1 },
                })foo [
                ]
            }
            _ => {
                $(from_fn(|t| { t.append(pr.c(16)); t.space(); t.append(pr.c(17)); }))  (
                
                // between
                // between
                
                )  "two words"
                 $(format!("<{}>", pr.q(18)?)) $(pr.q(19)?)
                 $(display(pr.n(20, 9)?))
                 $$
            }
        }).
        ab$(let v6 = pr.q(21)?) ;
        x1$(ref o7 { o7.append(pr.q(22)?); o7.space(); o7.append(pr.q(23)?); })
        ab$(quote!($(let v9 = pr.q(24)?)$(quote!($(pr.multi(25)?) größe))))
    }
    Ok(())
}
fn model_190(m: &mut MV, pr: &Pr) -> Flow {
    l(m, "+");
    match pr.b(1)? {
    true | false => {
    m.lit(pr.q(2)?);
    l(m, "{");
    l(m, "$");
    sp(m);
    l(m, "(");
    l(m, "$");
    sp(m);
    l(m, "(");
    l(m, "$");
    sp(m);
    l(m, "ä");
    sp(m);
    m.lit(pr.q(3)?);
    l(m, ")");
    sp(m);
    l(m, "nameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameameame");
    l(m, ")");
    sp(m);
    l(m, "&");
    l(m, "}");
    {
    let mut it3 = [pr.q(4)?, pr.q(5)?].into_iter();
    let mut step = || -> Flow<Option<String>> { Ok(it3.next()) };
    while let Some(v2) = step()? {
    m.lit(pr.n(6, 9)?.to_string());
    }
    }
    }
    }
    l(m, "z_");
    tp(m);
    match pr.n(7, 3)? {
    0 => {
    if pr.b(8)? || !pr.b(9)? {
    l(m, "+");
    sp(m);
    l(m, "foo");
    m.lit(pr.q(10)?);
    if let Some(x) = pr.opt(11)? { m.lit(x); }
    sp(m);
    l(m, "{");
    tln(m);
    l(m, "}");
    }
    if pr.b(12)? {
    l(m, ";");
    sp(m);
    l(m, "&");
    }
    }
    1 => {
    if pr.rare(13)? { m.lit(pr.q(14)?); return Err(Left::Return); }
    sp(m);
    l(m, "ver batim");
    tln(m);
    match pr.q(15)? {
    v5 => {
    l(m, "+");
    l(m, "a1");
    }
    }
    l(m, "foo");
    sp(m);
    l(m, "[");
    tp(m);
    l(m, "]");
    }
    _ => {
    m.lit(pr.mc(16)?); sp(m); m.lit(pr.mc(17)?);
    sp(m);
    l(m, "(");
    tln(m);
    l(m, ")");
    sp(m);
    qs(m, "two words");
    tind(m);
    m.lit(format!("<{}>", pr.q(18)?));
    sp(m);
    m.lit(pr.q(19)?);
    tp(m);
    m.lit(pr.n(20, 9)?.to_string());
    tp(m);
    l(m, "$");
    tend(m);
    }
    }
    l(m, ".");
    tp(m);
    l(m, "ab");
    let v6 = pr.q(21)?;
    sp(m);
    l(m, ";");
    tp(m);
    l(m, "x1");
    m.lit(pr.q(22)?); sp(m); m.lit(pr.q(23)?);
    tp(m);
    l(m, "ab");
    let mut s8 = MStream::<()>::default();
    {
    let m = &mut s8;
    let v9 = pr.q(24)?;
    let mut s10 = MStream::<()>::default();
    {
    let m = &mut s10;
    pr.mmulti(25, m)?;
    sp(m);
    l(m, "größe");
    }
    m.add_all(&s10.items);
    }
    m.add_all(&s8.items);
    Ok(())
}
fn real_191<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        ab$[str]($name-$($(ref o1 { if pr.rare(1)? { o1.append(pr.q(2)?); return Err(Left::Return); } }) /* between */ ::$(if pr.b(3)? || !pr.b(4)? => $({ pr.mark(5)?; "blk" })$(vec![pr.q(6)?, pr.q(7)?])$(quoted(pr.q(8)?)))));
        x1$(quoted(pr.q(9)?)).
        ab$(pr.multi(10)?)yz
        +$['\n'];
        +$(" lead") yz
    }
    Ok(())
}
fn model_191(m: &mut MV, pr: &Pr) -> Flow {
    l(m, "ab");
    oq(m, true);
    oe(m);
    l(m, "name");
    ce(m);
    l(m, "-");
    oe(m);
    {
    if pr.rare(1)? { m.lit(pr.q(2)?); return Err(Left::Return); }
    sp(m);
    l(m, "::");
    if pr.b(3)? || !pr.b(4)? {
    pr.mark(5)?; l(m, "blk");
    { let x = pr.q(6)?; let y = pr.q(7)?; m.lit(x); m.lit(y); }
    { let x = pr.q(8)?; oq(m, false); m.lit(x); cq(m); }
    }
    }
    ce(m);
    cq(m);
    l(m, ";");
    tp(m);
    l(m, "x1");
    { let x = pr.q(9)?; oq(m, false); m.lit(x); cq(m); }
    l(m, ".");
    tp(m);
    l(m, "ab");
    pr.mmulti(10, m)?;
    l(m, "yz");
    tp(m);
    l(m, "+");
    ln(m);
    l(m, ";");
    tp(m);
    l(m, "+");
    l(m, " lead");
    sp(m);
    l(m, "yz");
    Ok(())
}
fn real_192<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        +$(if let Some(v1) = pr.opt(1)? { + } else { $(quoted(quote!(a1 größe$(format!("<{}>", pr.q(3)?)))))  $(if pr.b(4)? {
            while /* between */ {
             ;bar
            }
        }) })
        ab$(for v3 in pr.it(5)? { foo }).
        x1$(match pr.n(6, 4)? {
            0 | 2 => $(vec![pr.q(7)?, pr.q(8)?])$(format!("<{}>", pr.q(9)?)) { "q\"uote" $(vec![pr.q(10)?, pr.q(11)?]) "q\"uote" /* between */ $({ pr.mark(12)?; "blk" }), 0x1F,},
            _ => { $(format!("<{}>", pr.q(13)?))$(for (i7, v5) in pr.it(14)?.enumerate() =>
                $({ pr.mark(15)?; "blk" })       ?)$(pr.q(16)?) }
        })
        $(match pr.n(17, 4)? { _ if pr.b(18)? => a1 (bar  foo)$(for v8 in pr.it(19)? join (Self) {}), 1 => { $(for (i12, v10) in pr.it(20)?.enumerate() => a1) } _ => { + $(pr.multi(21)?)$(if let Some(v13) = pr.opt(22)? { a1 } else { $(pr.q(24)?) }) } }) .
        x1$(let v14 = pr.q(25)?)z_
    }
    Ok(())
}
fn model_192(m: &mut MV, pr: &Pr) -> Flow {
    l(m, "+");
    if let Some(v1) = pr.opt(1)? {
    l(m, "+");
    } else {
    let mut s2 = MStream::<()>::default();
    {
    let m = &mut s2;
    l(m, "a1");
    sp(m);
    l(m, "größe");
    m.lit(format!("<{}>", pr.q(3)?));
    }
    oq(m, false);
    m.add_all(&s2.items);
    cq(m);
    sp(m);
    if pr.b(4)? {
    l(m, "while");
    sp(m);
    l(m, "{");
    tind(m);
    l(m, ";");
    l(m, "bar");
    tun(m);
    l(m, "}");
    }
    }
    tp(m);
    l(m, "ab");
    {
    let mut it4 = pr.it(5)?;
    let mut step = || -> Flow<Option<String>> { it4.step() };
    while let Some(v3) = step()? {
    l(m, "foo");
    }
    }
    l(m, ".");
    tp(m);
    l(m, "x1");
    match pr.n(6, 4)? {
    0 | 2 => {
    { let x = pr.q(7)?; let y = pr.q(8)?; m.lit(x); m.lit(y); }
    m.lit(format!("<{}>", pr.q(9)?));
    sp(m);
    l(m, "{");
    sp(m);
    qs(m, "q\"uote");
    sp(m);
    { let x = pr.q(10)?; let y = pr.q(11)?; m.lit(x); m.lit(y); }
    sp(m);
    qs(m, "q\"uote");
    sp(m);
    pr.mark(12)?; l(m, "blk");
    l(m, ",");
    sp(m);
    l(m, "0x1F");
    l(m, ",");
    l(m, "}");
    }
    _ => {
    m.lit(format!("<{}>", pr.q(13)?));
    {
    let mut it6 = pr.it(14)?;
    let mut at = 0u64;
    let mut step = || -> Flow<Option<(u64, String)>> { let x = it6.step()?; at += 1; Ok(x.map(|x| (at - 1, x))) };
    while let Some((i7, v5)) = step()? {
    pr.mark(15)?; l(m, "blk");
    sp(m);
    l(m, "?");
    }
    }
    m.lit(pr.q(16)?);
    }
    }
    tp(m);
    match pr.n(17, 4)? {
    _ if pr.b(18)? => {
    l(m, "a1");
    sp(m);
    l(m, "(");
    l(m, "bar");
    sp(m);
    l(m, "foo");
    l(m, ")");
    {
    let mut it9 = pr.it(19)?;
    let mut step = || -> Flow<Option<String>> { it9.step() };
    let mut next = step()?;
    while let Some(v8) = next {
    {
    }
    next = step()?;
    if next.is_some() {
    {
    l(m, "Self");
    }
    }
    }
    }
    }
    1 => {
    {
    let mut it11 = pr.it(20)?;
    let mut at = 0u64;
    let mut step = || -> Flow<Option<(u64, String)>> { let x = it11.step()?; at += 1; Ok(x.map(|x| (at - 1, x))) };
    while let Some((i12, v10)) = step()? {
    l(m, "a1");
    }
    }
    }
    _ => {
    l(m, "+");
    sp(m);
    pr.mmulti(21, m)?;
    if let Some(v13) = pr.opt(22)? {
    l(m, "a1");
    } else {
    m.lit(pr.q(24)?);
    }
    }
    }
    sp(m);
    l(m, ".");
    tp(m);
    l(m, "x1");
    let v14 = pr.q(25)?;
    l(m, "z_");
    Ok(())
}
fn real_193<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        ab$(ref _ => if pr.b(1)? { pr.mark(2)?; })yz
        ;$(&quote!($(ref o2 { if pr.b(3)? { quote_in!(*o2 => $(quoted(pr.q(4)?)). $(Some(pr.q(5)?))); } o2.push(); }) $(for _ in pr.it(6)? { $(display(pr.n(7, 9)?)) })))z_
        x1$[str](plain)z_
        x1$(pr.q(8)?).
        ;$(format!("<{}>", pr.q(9)?)) ;
    }
    Ok(())
}
fn model_193(m: &mut MV, pr: &Pr) -> Flow {
    l(m, "ab");
    if pr.b(1)? { pr.mark(2)?; }
    l(m, "yz");
    tp(m);
    l(m, ";");
    let mut s1 = MStream::<()>::default();
    {
    let m = &mut s1;
    if pr.b(3)? {
    { let x = pr.q(4)?; oq(m, false); m.lit(x); cq(m); }
    l(m, ".");
    sp(m);
    m.lit(pr.q(5)?);
    }
    p(m);
    sp(m);
    {
    let mut it4 = pr.it(6)?;
    let mut step = || -> Flow<Option<String>> { it4.step() };
    while let Some(_) = step()? {
    m.lit(pr.n(7, 9)?.to_string());
    }
    }
    }
    m.add_all(&s1.items);
    l(m, "z_");
    tp(m);
    l(m, "x1");
    qs(m, "plain");
    l(m, "z_");
    tp(m);
    l(m, "x1");
    m.lit(pr.q(8)?);
    l(m, ".");
    tp(m);
    l(m, ";");
    m.lit(format!("<{}>", pr.q(9)?));
    sp(m);
    l(m, ";");
    Ok(())
}
fn real_194<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        x1 $[' ']z_
        ab$(" lead");
        $(if pr.n(1, 3)? == 1 { $(for v1 in pr.it(2)? { $(format!("<{}>", pr.q(3)?))a1$(vec![pr.q(4)?, pr.q(5)?]) })$(if pr.b(6)? && pr.b(7)? { $(format!("<{}>", pr.q(8)?))a1$(pr.multi(9)?) } else { bar  $(pr.q(10)?) }) }) .
        ;$(for v3 in pr.it(11)? => $v3$(quote!(& &))$(if pr.b(12)? || !pr.b(13)? { $({ pr.mark(14)?; "blk" }) } else {})).
        $(match (pr.b(15)?, pr.q(16)?) { (_, v6) => ($(format!("<{}>", pr.q(17)?)) $(match pr.opt(18)? { Some(v8) => { $(pr.q(19)?) }, None => $(pr.n(20, 9)?)a1 ( $(&pr.q(21)?), $(&pr.q(22)?)  ) })$(let v9 = pr.q(23)?)	) })yz
    }
    Ok(())
}
fn model_194(m: &mut MV, pr: &Pr) -> Flow {
    l(m, "x1");
    sp(m);
    sp(m);
    l(m, "z_");
    tp(m);
    l(m, "ab");
    l(m, " lead");
    l(m, ";");
    tp(m);
    if pr.n(1, 3)? == 1 {
    {
    let mut it2 = pr.it(2)?;
    let mut step = || -> Flow<Option<String>> { it2.step() };
    while let Some(v1) = step()? {
    m.lit(format!("<{}>", pr.q(3)?));
    l(m, "a1");
    { let x = pr.q(4)?; let y = pr.q(5)?; m.lit(x); m.lit(y); }
    }
    }
    if pr.b(6)? && pr.b(7)? {
    m.lit(format!("<{}>", pr.q(8)?));
    l(m, "a1");
    pr.mmulti(9, m)?;
    } else {
    l(m, "bar");
    sp(m);
    m.lit(pr.q(10)?);
    }
    }
    sp(m);
    l(m, ".");
    tp(m);
    l(m, ";");
    {
    let mut it4 = pr.it(11)?;
    let mut step = || -> Flow<Option<String>> { it4.step() };
    while let Some(v3) = step()? {
    m.lit(v3);
    let mut s5 = MStream::<()>::default();
    {
    let m = &mut s5;
    l(m, "&");
    sp(m);
    l(m, "&");
    }
    m.add_all(&s5.items);
    if pr.b(12)? || !pr.b(13)? {
    pr.mark(14)?; l(m, "blk");
    } else {
    }
    }
    }
    l(m, ".");
    tp(m);
    match (pr.b(15)?, pr.q(16)?) {
    (_, v6) => {
    m.lit(format!("<{}>", pr.q(17)?));
    sp(m);
    match pr.opt(18)? {
    Some(v8) => {
    m.lit(pr.q(19)?);
    }
    None => {
    m.lit(pr.n(20, 9)?.to_string());
    l(m, "a1");
    sp(m);
    l(m, "(");
    sp(m);
    m.lit(pr.q(21)?);
    l(m, ",");
    sp(m);
    m.lit(pr.q(22)?);
    sp(m);
    l(m, ")");
    }
    }
    let v9 = pr.q(23)?;
    sp(m);
    }
    }
    l(m, "yz");
    Ok(())
}
fn real_195<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        +$(match pr.q(1)? {
            v1 => $(v1.clone()) {$(pr.q(2)?), $(pr.multi(3)?)}
        }).
        +$(let (v2, v3) = (pr.q(4)?, pr.n(5, 9)?))z_
        x1$(ref o4 { if pr.b(6)? { quote_in!(*o4 => $(quoted(pr.q(7)?))$(for _ in pr.it(8)? join (, ) => $({ if pr.b(9)? { "t" } else { "f" } }) /* between */ =)); } o4.push(); }).
        ;$(quoted(quote!($("ä"))));
        ;$[str](a b  c)yz
    }
    Ok(())
}
fn model_195(m: &mut MV, pr: &Pr) -> Flow {
    l(m, "+");
    match pr.q(1)? {
    v1 => {
    m.lit(v1.clone());
    sp(m);
    l(m, "{");
    m.lit(pr.q(2)?);
    l(m, ",");
    sp(m);
    pr.mmulti(3, m)?;
    l(m, "}");
    }
    }
    l(m, ".");
    tp(m);
    l(m, "+");
    let (v2, v3) = (pr.q(4)?, pr.n(5, 9)?);
    l(m, "z_");
    tp(m);
    l(m, "x1");
    if pr.b(6)? {
    { let x = pr.q(7)?; oq(m, false); m.lit(x); cq(m); }
    {
    let mut it6 = pr.it(8)?;
    let mut step = || -> Flow<Option<String>> { it6.step() };
    let mut next = step()?;
    while let Some(_) = next {
    {
    l(m, if pr.b(9)? { "t" } else { "f" });
    sp(m);
    l(m, "=");
    }
    next = step()?;
    if next.is_some() {
    {
    l(m, ",");
    sp(m);
    }
    }
    }
    }
    }
    p(m);
    l(m, ".");
    tp(m);
    l(m, ";");
    let mut s7 = MStream::<()>::default();
    {
    let m = &mut s7;
    l(m, "ä");
    }
    oq(m, false);
    m.add_all(&s7.items);
    cq(m);
    l(m, ";");
    tp(m);
    l(m, ";");
    qs(m, "a b  c");
    l(m, "yz");
    Ok(())
}
fn real_196<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        x1$({ if pr.b(1)? { "t" } else { "f" } })z_
        ;$(pr.q(2)?.as_str());
        x1 $['\n'];
        ;$("ver batim") .
        ;$(if pr.b(3)? { $({ pr.mark(4)?; "blk" }) $(ref o1 { if pr.rare(5)? { o1.append(pr.q(6)?); return Err(Left::Return); } }) $(format!("<{}>", pr.q(7)?)) } else { $(match pr.q(8)? { v2 => {}, }) }).
    }
    Ok(())
}
fn model_196(m: &mut MV, pr: &Pr) -> Flow {
    l(m, "x1");
    l(m, if pr.b(1)? { "t" } else { "f" });
    l(m, "z_");
    tp(m);
    l(m, ";");
    m.lit(pr.q(2)?);
    l(m, ";");
    tp(m);
    l(m, "x1");
    sp(m);
    ln(m);
    l(m, ";");
    tp(m);
    l(m, ";");
    l(m, "ver batim");
    sp(m);
    l(m, ".");
    tp(m);
    l(m, ";");
    if pr.b(3)? {
    pr.mark(4)?; l(m, "blk");
    sp(m);
    if pr.rare(5)? { m.lit(pr.q(6)?); return Err(Left::Return); }
    sp(m);
    m.lit(format!("<{}>", pr.q(7)?));
    } else {
    match pr.q(8)? {
    v2 => {
    }
    }
    }
    l(m, ".");
    Ok(())
}
fn real_197<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        ab$(for v1 in pr.it(1)? => $(display(pr.n(2, 9)?))$(ref o3 { if pr.b(3)? { quote_in!(*o3 => x); } o3.push(); })/**/$(match pr.n(4, 6)? { 0 if pr.b(5)? => while /* between */ $$?, v4 if v4 > 1 && pr.b(6)? => bar$(pr.c(7)) ($(quoted(pr.q(8)?))0x1F a1 x, ;), v5 => { = } }))
        ;$(match (pr.b(9)?, pr.n(10, 3)?) { (true, 0) => $(pr.n(12, 9)?)$(pr.multi(13)?)$(pr.q(14)?), _ if pr.b(11)? => {} (..) => (	$(for _ in pr.it(15)? { $(&pr.q(16)?) /* between */ $(display(pr.n(17, 9)?)) })$(if pr.b(18)? { Self$(pr.c(19)) })), }) ;
        ;$(match (pr.b(20)?, pr.n(21, 3)?) { (true, 0) => { $(pr.c(22)) $(ref _ => if pr.rare(23)? { return Err(Left::Return); }) }, _ => { $[str](1 + 2)  $(ref o10 { if pr.b(24)? { quote_in!(*o10 => $(pr.q(25)?.as_str()) while); } o10.push(); }) }, })z_
        $(let (v11, v12) = (pr.q(26)?, pr.n(27, 9)?)) .
        ; $(ref o13 => quote_in!(*o13 => $['\n']  $(for v14 in pr.it(29)?.filter(|_| pr.cb(30)) { $(pr.n(31, 9)?) })$(ref o16 { if pr.rare(32)? { o16.append(pr.q(33)?); return Err(Left::Return); } })))z_
    }
    Ok(())
}
fn model_197(m: &mut MV, pr: &Pr) -> Flow {
    l(m, "ab");
    {
    let mut it2 = pr.it(1)?;
    let mut step = || -> Flow<Option<String>> { it2.step() };
    while let Some(v1) = step()? {
    m.lit(pr.n(2, 9)?.to_string());
    if pr.b(3)? {
    l(m, "x");
    }
    p(m);
    sp(m);
    match pr.n(4, 6)? {
    0 if pr.b(5)? => {
    l(m, "while");
    sp(m);
    l(m, "$");
    l(m, "?");
    }
    v4 if v4 > 1 && pr.b(6)? => {
    l(m, "bar");
    m.lit(pr.mc(7)?);
    sp(m);
    l(m, "(");
    { let x = pr.q(8)?; oq(m, false); m.lit(x); cq(m); }
    l(m, "0x1F");
    sp(m);
    l(m, "a1");
    sp(m);
    l(m, "x");
    l(m, ",");
    sp(m);
    l(m, ";");
    l(m, ")");
    }
    v5 => {
    l(m, "=");
    }
    }
    }
    }
    tp(m);
    l(m, ";");
    match (pr.b(9)?, pr.n(10, 3)?) {
    (true, 0) => {
    m.lit(pr.n(12, 9)?.to_string());
    pr.mmulti(13, m)?;
    m.lit(pr.q(14)?);
    }
    _ if pr.b(11)? => {
    }
    (..) => {
    sp(m);
    {
    let mut it8 = pr.it(15)?;
    let mut step = || -> Flow<Option<String>> { it8.step() };
    while let Some(_) = step()? {
    m.lit(pr.q(16)?);
    sp(m);
    m.lit(pr.n(17, 9)?.to_string());
    }
    }
    if pr.b(18)? {
    l(m, "Self");
    m.lit(pr.mc(19)?);
    }
    }
    }
    sp(m);
    l(m, ";");
    tp(m);
    l(m, ";");
    match (pr.b(20)?, pr.n(21, 3)?) {
    (true, 0) => {
    m.lit(pr.mc(22)?);
    sp(m);
    if pr.rare(23)? { return Err(Left::Return); }
    }
    _ => {
    qs(m, "1 + 2");
    sp(m);
    if pr.b(24)? {
    m.lit(pr.q(25)?);
    sp(m);
    l(m, "while");
    }
    p(m);
    }
    }
    l(m, "z_");
    tp(m);
    let (v11, v12) = (pr.q(26)?, pr.n(27, 9)?);
    sp(m);
    l(m, ".");
    tp(m);
    l(m, ";");
    sp(m);
    {
    ln(m);
    sp(m);
    {
    let mut it15 = pr.it(29)?;
    let mut step = || -> Flow<Option<String>> { while let Some(x) = it15.step()? { if pr.mcb(30)? { return Ok(Some(x)); } } Ok(None) };
    while let Some(v14) = step()? {
    m.lit(pr.n(31, 9)?.to_string());
    }
    }
    if pr.rare(32)? { m.lit(pr.q(33)?); return Err(Left::Return); }
    }
    l(m, "z_");
    Ok(())
}
fn real_198<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        ;$(&quote!($(match (pr.b(1)?, pr.q(2)?) { (_, v2) => { foo$(pr.q(3)?) bar } })$(match (pr.b(4)?, pr.n(5, 3)?) { (true, 0) => { $(pr.multi(8)?)= ; } (false, v3) if v3 < 2 && pr.b(6)? => { $(vec![pr.q(9)?, pr.q(10)?])       foo $(Some(pr.q(11)?)) } (_, 1) | (true, _) => $(from_fn(|t| { t.append(pr.c(12)); t.space(); t.append(pr.c(13)); })), _ if pr.b(7)? => _y bar, _ => (	x bar/**/$({ if pr.b(14)? { "t" } else { "f" } })), })))yz
        $[str]($name-)yz
        x1$(quoted(pr.q(15)?)).
        x1$(pr.opt(16)?)
        ;$['\n']yz
    }
    Ok(())
}
fn model_198(m: &mut MV, pr: &Pr) -> Flow {
    l(m, ";");
    let mut s1 = MStream::<()>::default();
    {
    let m = &mut s1;
    match (pr.b(1)?, pr.q(2)?) {
    (_, v2) => {
    l(m, "foo");
    m.lit(pr.q(3)?);
    sp(m);
    l(m, "bar");
    }
    }
    match (pr.b(4)?, pr.n(5, 3)?) {
    (true, 0) => {
    pr.mmulti(8, m)?;
    l(m, "=");
    sp(m);
    l(m, ";");
    }
    (false, v3) if v3 < 2 && pr.b(6)? => {
    { let x = pr.q(9)?; let y = pr.q(10)?; m.lit(x); m.lit(y); }
    sp(m);
    l(m, "foo");
    sp(m);
    m.lit(pr.q(11)?);
    }
    (_, 1) | (true, _) => {
    m.lit(pr.mc(12)?); sp(m); m.lit(pr.mc(13)?);
    }
    _ if pr.b(7)? => {
    l(m, "_y");
    sp(m);
    l(m, "bar");
    }
    _ => {
    sp(m);
    l(m, "x");
    sp(m);
    l(m, "bar");
    sp(m);
    l(m, if pr.b(14)? { "t" } else { "f" });
    }
    }
    }
    m.add_all(&s1.items);
    l(m, "yz");
    tp(m);
    oq(m, true);
    oe(m);
    l(m, "name");
    ce(m);
    l(m, "-");
    cq(m);
    l(m, "yz");
    tp(m);
    l(m, "x1");
    { let x = pr.q(15)?; oq(m, false); m.lit(x); cq(m); }
    l(m, ".");
    tp(m);
    l(m, "x1");
    if let Some(x) = pr.opt(16)? { m.lit(x); }
    tp(m);
    l(m, ";");
    ln(m);
    l(m, "yz");
    Ok(())
}
fn real_199<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {
    quote_in! { *t =>
        x1$(" lead")z_
        $(if pr.b(1)? && pr.b(2)? { $[str](a b  c) })yz
        $(for v1 in 0..pr.n(3, 4)? => $(&pr.q(4)?) (foo	$({ pr.mark(5)?; "blk" })))
        ; $(match (pr.b(6)?, pr.n(7, 3)?) { (true, 0) => $(format!("<{}>", pr.q(9)?))$['\r'] x [_y 1.5	while, $(format!("<{}>", pr.q(10)?))       ], _ if pr.b(8)? => $(ref o4 { if pr.rare(11)? { o4.append(pr.q(12)?); return Err(Left::Return); } }) ($({ pr.mark(13)?; "blk" })foo, 0x1F$$ ), (..) => (  $(pr.q(14)?.as_str())) })yz
        x1$(match pr.n(15, 9)? { v5 => $(if pr.b(16)? || !pr.b(17)? { while$(pr.q(18)?)foo } else {}) /* between */ $(ref _ => if pr.b(19)? { pr.mark(20)?; }) [ $(vec![pr.q(21)?, pr.q(22)?]) $(display(pr.n(23, 9)?))  x, $(Some(pr.q(24)?))] })z_
    }
    Ok(())
}
fn model_199(m: &mut MV, pr: &Pr) -> Flow {
    l(m, "x1");
    l(m, " lead");
    l(m, "z_");
    tp(m);
    if pr.b(1)? && pr.b(2)? {
    qs(m, "a b  c");
    }
    l(m, "yz");
    tp(m);
    {
    let mut it2 = 0..pr.n(3, 4)?;
    let mut step = || -> Flow<Option<u64>> { Ok(it2.next()) };
    while let Some(v1) = step()? {
    m.lit(pr.q(4)?);
    sp(m);
    l(m, "(");
    l(m, "foo");
    sp(m);
    pr.mark(5)?; l(m, "blk");
    l(m, ")");
    }
    }
    tp(m);
    l(m, ";");
    sp(m);
    match (pr.b(6)?, pr.n(7, 3)?) {
    (true, 0) => {
    m.lit(format!("<{}>", pr.q(9)?));
    p(m);
    sp(m);
    l(m, "x");
    sp(m);
    l(m, "[");
    l(m, "_y");
    sp(m);
    l(m, "1.5");
    sp(m);
    l(m, "while");
    l(m, ",");
    sp(m);
    m.lit(format!("<{}>", pr.q(10)?));
    sp(m);
    l(m, "]");
    }
    _ if pr.b(8)? => {
    if pr.rare(11)? { m.lit(pr.q(12)?); return Err(Left::Return); }
    sp(m);
    l(m, "(");
    pr.mark(13)?; l(m, "blk");
    l(m, "foo");
    l(m, ",");
    sp(m);
    l(m, "0x1F");
    l(m, "$");
    sp(m);
    l(m, ")");
    }
    (..) => {
    sp(m);
    m.lit(pr.q(14)?);
    }
    }
    l(m, "yz");
    tp(m);
    l(m, "x1");
    match pr.n(15, 9)? {
    v5 => {
    if pr.b(16)? || !pr.b(17)? {
    l(m, "while");
    m.lit(pr.q(18)?);
    l(m, "foo");
    } else {
    }
    sp(m);
    if pr.b(19)? { pr.mark(20)?; }
    sp(m);
    l(m, "[");
    sp(m);
    { let x = pr.q(21)?; let y = pr.q(22)?; m.lit(x); m.lit(y); }
    sp(m);
    m.lit(pr.n(23, 9)?.to_string());
    sp(m);
    l(m, "x");
    l(m, ",");
    sp(m);
    m.lit(pr.q(24)?);
    l(m, "]");
    }
    }
    l(m, "z_");
    Ok(())
}
pub const GENERATED: usize = 200;

pub fn generated0<L: Lang + LangSupportsEval>() -> &'static [Generated<L>] {
    &[
        Generated { name: "generated 0", real: real_0::<L>, model: model_0 },
        Generated { name: "generated 3", real: real_3::<L>, model: model_3 },
        Generated { name: "generated 6", real: real_6::<L>, model: model_6 },
        Generated { name: "generated 9", real: real_9::<L>, model: model_9 },
        Generated { name: "generated 12", real: real_12::<L>, model: model_12 },
        Generated { name: "generated 15", real: real_15::<L>, model: model_15 },
        Generated { name: "generated 18", real: real_18::<L>, model: model_18 },
        Generated { name: "generated 21", real: real_21::<L>, model: model_21 },
        Generated { name: "generated 24", real: real_24::<L>, model: model_24 },
        Generated { name: "generated 27", real: real_27::<L>, model: model_27 },
        Generated { name: "generated 30", real: real_30::<L>, model: model_30 },
        Generated { name: "generated 33", real: real_33::<L>, model: model_33 },
        Generated { name: "generated 36", real: real_36::<L>, model: model_36 },
        Generated { name: "generated 39", real: real_39::<L>, model: model_39 },
        Generated { name: "generated 42", real: real_42::<L>, model: model_42 },
        Generated { name: "generated 45", real: real_45::<L>, model: model_45 },
        Generated { name: "generated 48", real: real_48::<L>, model: model_48 },
        Generated { name: "generated 51", real: real_51::<L>, model: model_51 },
        Generated { name: "generated 54", real: real_54::<L>, model: model_54 },
        Generated { name: "generated 57", real: real_57::<L>, model: model_57 },
        Generated { name: "generated 60", real: real_60::<L>, model: model_60 },
        Generated { name: "generated 63", real: real_63::<L>, model: model_63 },
        Generated { name: "generated 66", real: real_66::<L>, model: model_66 },
        Generated { name: "generated 69", real: real_69::<L>, model: model_69 },
        Generated { name: "generated 72", real: real_72::<L>, model: model_72 },
        Generated { name: "generated 75", real: real_75::<L>, model: model_75 },
        Generated { name: "generated 78", real: real_78::<L>, model: model_78 },
        Generated { name: "generated 81", real: real_81::<L>, model: model_81 },
        Generated { name: "generated 84", real: real_84::<L>, model: model_84 },
        Generated { name: "generated 87", real: real_87::<L>, model: model_87 },
        Generated { name: "generated 90", real: real_90::<L>, model: model_90 },
        Generated { name: "generated 93", real: real_93::<L>, model: model_93 },
        Generated { name: "generated 96", real: real_96::<L>, model: model_96 },
        Generated { name: "generated 99", real: real_99::<L>, model: model_99 },
        Generated { name: "generated 102", real: real_102::<L>, model: model_102 },
        Generated { name: "generated 105", real: real_105::<L>, model: model_105 },
        Generated { name: "generated 108", real: real_108::<L>, model: model_108 },
        Generated { name: "generated 111", real: real_111::<L>, model: model_111 },
        Generated { name: "generated 114", real: real_114::<L>, model: model_114 },
        Generated { name: "generated 117", real: real_117::<L>, model: model_117 },
        Generated { name: "generated 120", real: real_120::<L>, model: model_120 },
        Generated { name: "generated 123", real: real_123::<L>, model: model_123 },
        Generated { name: "generated 126", real: real_126::<L>, model: model_126 },
        Generated { name: "generated 129", real: real_129::<L>, model: model_129 },
        Generated { name: "generated 132", real: real_132::<L>, model: model_132 },
        Generated { name: "generated 135", real: real_135::<L>, model: model_135 },
        Generated { name: "generated 138", real: real_138::<L>, model: model_138 },
        Generated { name: "generated 141", real: real_141::<L>, model: model_141 },
        Generated { name: "generated 144", real: real_144::<L>, model: model_144 },
        Generated { name: "generated 147", real: real_147::<L>, model: model_147 },
        Generated { name: "generated 150", real: real_150::<L>, model: model_150 },
        Generated { name: "generated 153", real: real_153::<L>, model: model_153 },
        Generated { name: "generated 156", real: real_156::<L>, model: model_156 },
        Generated { name: "generated 159", real: real_159::<L>, model: model_159 },
        Generated { name: "generated 162", real: real_162::<L>, model: model_162 },
        Generated { name: "generated 165", real: real_165::<L>, model: model_165 },
        Generated { name: "generated 168", real: real_168::<L>, model: model_168 },
        Generated { name: "generated 171", real: real_171::<L>, model: model_171 },
        Generated { name: "generated 174", real: real_174::<L>, model: model_174 },
        Generated { name: "generated 177", real: real_177::<L>, model: model_177 },
        Generated { name: "generated 180", real: real_180::<L>, model: model_180 },
        Generated { name: "generated 183", real: real_183::<L>, model: model_183 },
        Generated { name: "generated 186", real: real_186::<L>, model: model_186 },
        Generated { name: "generated 189", real: real_189::<L>, model: model_189 },
        Generated { name: "generated 192", real: real_192::<L>, model: model_192 },
        Generated { name: "generated 195", real: real_195::<L>, model: model_195 },
        Generated { name: "generated 198", real: real_198::<L>, model: model_198 },
    ]
}
pub fn generated1<L: Lang + LangSupportsEval>() -> &'static [Generated<L>] {
    &[
        Generated { name: "generated 1", real: real_1::<L>, model: model_1 },
        Generated { name: "generated 4", real: real_4::<L>, model: model_4 },
        Generated { name: "generated 7", real: real_7::<L>, model: model_7 },
        Generated { name: "generated 10", real: real_10::<L>, model: model_10 },
        Generated { name: "generated 13", real: real_13::<L>, model: model_13 },
        Generated { name: "generated 16", real: real_16::<L>, model: model_16 },
        Generated { name: "generated 19", real: real_19::<L>, model: model_19 },
        Generated { name: "generated 22", real: real_22::<L>, model: model_22 },
        Generated { name: "generated 25", real: real_25::<L>, model: model_25 },
        Generated { name: "generated 28", real: real_28::<L>, model: model_28 },
        Generated { name: "generated 31", real: real_31::<L>, model: model_31 },
        Generated { name: "generated 34", real: real_34::<L>, model: model_34 },
        Generated { name: "generated 37", real: real_37::<L>, model: model_37 },
        Generated { name: "generated 40", real: real_40::<L>, model: model_40 },
        Generated { name: "generated 43", real: real_43::<L>, model: model_43 },
        Generated { name: "generated 46", real: real_46::<L>, model: model_46 },
        Generated { name: "generated 49", real: real_49::<L>, model: model_49 },
        Generated { name: "generated 52", real: real_52::<L>, model: model_52 },
        Generated { name: "generated 55", real: real_55::<L>, model: model_55 },
        Generated { name: "generated 58", real: real_58::<L>, model: model_58 },
        Generated { name: "generated 61", real: real_61::<L>, model: model_61 },
        Generated { name: "generated 64", real: real_64::<L>, model: model_64 },
        Generated { name: "generated 67", real: real_67::<L>, model: model_67 },
        Generated { name: "generated 70", real: real_70::<L>, model: model_70 },
        Generated { name: "generated 73", real: real_73::<L>, model: model_73 },
        Generated { name: "generated 76", real: real_76::<L>, model: model_76 },
        Generated { name: "generated 79", real: real_79::<L>, model: model_79 },
        Generated { name: "generated 82", real: real_82::<L>, model: model_82 },
        Generated { name: "generated 85", real: real_85::<L>, model: model_85 },
        Generated { name: "generated 88", real: real_88::<L>, model: model_88 },
        Generated { name: "generated 91", real: real_91::<L>, model: model_91 },
        Generated { name: "generated 94", real: real_94::<L>, model: model_94 },
        Generated { name: "generated 97", real: real_97::<L>, model: model_97 },
        Generated { name: "generated 100", real: real_100::<L>, model: model_100 },
        Generated { name: "generated 103", real: real_103::<L>, model: model_103 },
        Generated { name: "generated 106", real: real_106::<L>, model: model_106 },
        Generated { name: "generated 109", real: real_109::<L>, model: model_109 },
        Generated { name: "generated 112", real: real_112::<L>, model: model_112 },
        Generated { name: "generated 115", real: real_115::<L>, model: model_115 },
        Generated { name: "generated 118", real: real_118::<L>, model: model_118 },
        Generated { name: "generated 121", real: real_121::<L>, model: model_121 },
        Generated { name: "generated 124", real: real_124::<L>, model: model_124 },
        Generated { name: "generated 127", real: real_127::<L>, model: model_127 },
        Generated { name: "generated 130", real: real_130::<L>, model: model_130 },
        Generated { name: "generated 133", real: real_133::<L>, model: model_133 },
        Generated { name: "generated 136", real: real_136::<L>, model: model_136 },
        Generated { name: "generated 139", real: real_139::<L>, model: model_139 },
        Generated { name: "generated 142", real: real_142::<L>, model: model_142 },
        Generated { name: "generated 145", real: real_145::<L>, model: model_145 },
        Generated { name: "generated 148", real: real_148::<L>, model: model_148 },
        Generated { name: "generated 151", real: real_151::<L>, model: model_151 },
        Generated { name: "generated 154", real: real_154::<L>, model: model_154 },
        Generated { name: "generated 157", real: real_157::<L>, model: model_157 },
        Generated { name: "generated 160", real: real_160::<L>, model: model_160 },
        Generated { name: "generated 163", real: real_163::<L>, model: model_163 },
        Generated { name: "generated 166", real: real_166::<L>, model: model_166 },
        Generated { name: "generated 169", real: real_169::<L>, model: model_169 },
        Generated { name: "generated 172", real: real_172::<L>, model: model_172 },
        Generated { name: "generated 175", real: real_175::<L>, model: model_175 },
        Generated { name: "generated 178", real: real_178::<L>, model: model_178 },
        Generated { name: "generated 181", real: real_181::<L>, model: model_181 },
        Generated { name: "generated 184", real: real_184::<L>, model: model_184 },
        Generated { name: "generated 187", real: real_187::<L>, model: model_187 },
        Generated { name: "generated 190", real: real_190::<L>, model: model_190 },
        Generated { name: "generated 193", real: real_193::<L>, model: model_193 },
        Generated { name: "generated 196", real: real_196::<L>, model: model_196 },
        Generated { name: "generated 199", real: real_199::<L>, model: model_199 },
    ]
}
pub fn generated2<L: Lang + LangSupportsEval>() -> &'static [Generated<L>] {
    &[
        Generated { name: "generated 2", real: real_2::<L>, model: model_2 },
        Generated { name: "generated 5", real: real_5::<L>, model: model_5 },
        Generated { name: "generated 8", real: real_8::<L>, model: model_8 },
        Generated { name: "generated 11", real: real_11::<L>, model: model_11 },
        Generated { name: "generated 14", real: real_14::<L>, model: model_14 },
        Generated { name: "generated 17", real: real_17::<L>, model: model_17 },
        Generated { name: "generated 20", real: real_20::<L>, model: model_20 },
        Generated { name: "generated 23", real: real_23::<L>, model: model_23 },
        Generated { name: "generated 26", real: real_26::<L>, model: model_26 },
        Generated { name: "generated 29", real: real_29::<L>, model: model_29 },
        Generated { name: "generated 32", real: real_32::<L>, model: model_32 },
        Generated { name: "generated 35", real: real_35::<L>, model: model_35 },
        Generated { name: "generated 38", real: real_38::<L>, model: model_38 },
        Generated { name: "generated 41", real: real_41::<L>, model: model_41 },
        Generated { name: "generated 44", real: real_44::<L>, model: model_44 },
        Generated { name: "generated 47", real: real_47::<L>, model: model_47 },
        Generated { name: "generated 50", real: real_50::<L>, model: model_50 },
        Generated { name: "generated 53", real: real_53::<L>, model: model_53 },
        Generated { name: "generated 56", real: real_56::<L>, model: model_56 },
        Generated { name: "generated 59", real: real_59::<L>, model: model_59 },
        Generated { name: "generated 62", real: real_62::<L>, model: model_62 },
        Generated { name: "generated 65", real: real_65::<L>, model: model_65 },
        Generated { name: "generated 68", real: real_68::<L>, model: model_68 },
        Generated { name: "generated 71", real: real_71::<L>, model: model_71 },
        Generated { name: "generated 74", real: real_74::<L>, model: model_74 },
        Generated { name: "generated 77", real: real_77::<L>, model: model_77 },
        Generated { name: "generated 80", real: real_80::<L>, model: model_80 },
        Generated { name: "generated 83", real: real_83::<L>, model: model_83 },
        Generated { name: "generated 86", real: real_86::<L>, model: model_86 },
        Generated { name: "generated 89", real: real_89::<L>, model: model_89 },
        Generated { name: "generated 92", real: real_92::<L>, model: model_92 },
        Generated { name: "generated 95", real: real_95::<L>, model: model_95 },
        Generated { name: "generated 98", real: real_98::<L>, model: model_98 },
        Generated { name: "generated 101", real: real_101::<L>, model: model_101 },
        Generated { name: "generated 104", real: real_104::<L>, model: model_104 },
        Generated { name: "generated 107", real: real_107::<L>, model: model_107 },
        Generated { name: "generated 110", real: real_110::<L>, model: model_110 },
        Generated { name: "generated 113", real: real_113::<L>, model: model_113 },
        Generated { name: "generated 116", real: real_116::<L>, model: model_116 },
        Generated { name: "generated 119", real: real_119::<L>, model: model_119 },
        Generated { name: "generated 122", real: real_122::<L>, model: model_122 },
        Generated { name: "generated 125", real: real_125::<L>, model: model_125 },
        Generated { name: "generated 128", real: real_128::<L>, model: model_128 },
        Generated { name: "generated 131", real: real_131::<L>, model: model_131 },
        Generated { name: "generated 134", real: real_134::<L>, model: model_134 },
        Generated { name: "generated 137", real: real_137::<L>, model: model_137 },
        Generated { name: "generated 140", real: real_140::<L>, model: model_140 },
        Generated { name: "generated 143", real: real_143::<L>, model: model_143 },
        Generated { name: "generated 146", real: real_146::<L>, model: model_146 },
        Generated { name: "generated 149", real: real_149::<L>, model: model_149 },
        Generated { name: "generated 152", real: real_152::<L>, model: model_152 },
        Generated { name: "generated 155", real: real_155::<L>, model: model_155 },
        Generated { name: "generated 158", real: real_158::<L>, model: model_158 },
        Generated { name: "generated 161", real: real_161::<L>, model: model_161 },
        Generated { name: "generated 164", real: real_164::<L>, model: model_164 },
        Generated { name: "generated 167", real: real_167::<L>, model: model_167 },
        Generated { name: "generated 170", real: real_170::<L>, model: model_170 },
        Generated { name: "generated 173", real: real_173::<L>, model: model_173 },
        Generated { name: "generated 176", real: real_176::<L>, model: model_176 },
        Generated { name: "generated 179", real: real_179::<L>, model: model_179 },
        Generated { name: "generated 182", real: real_182::<L>, model: model_182 },
        Generated { name: "generated 185", real: real_185::<L>, model: model_185 },
        Generated { name: "generated 188", real: real_188::<L>, model: model_188 },
        Generated { name: "generated 191", real: real_191::<L>, model: model_191 },
        Generated { name: "generated 194", real: real_194::<L>, model: model_194 },
        Generated { name: "generated 197", real: real_197::<L>, model: model_197 },
    ]
}
