#!/usr/bin/env python3
"""Writes sim/src/props/templates_gen.rs: random templates of every construct of the
macros, each with a program which says what it is documented to do.

    gen_templates.py [SEED [COUNT]]

The result is committed; it is a fixed set of test programs (templates are
compiled, so they can not be drawn at run time). What varies at run time are
values, control flow and faults.
"""
import os, random, sys

SEED = int(sys.argv[1]) if len(sys.argv) > 1 else 20240611
COUNT = int(sys.argv[2]) if len(sys.argv) > 2 else 200
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'sim', 'src', 'props', 'templates_gen.rs')


class El:
    """An element of a line: its source (lines), its model (lines), and what may
    stand directly before and after it."""
    def __init__(self, src, model, first, last):
        self.src = src if isinstance(src, list) else [src]
        self.model = model if isinstance(model, list) else [model]
        self.first, self.last = first, last


class Gen:
    def __init__(self, rng):
        self.r = rng
        self.id = 0
        self.name = 0
        # visible variables: (name, copy?, loop id)
        self.vars = []
        # enclosing loops: 'join' or 'plain' or 'barrier'
        self.loops = []
        self.loop_id = [0]
        self.next_loop = 1
        self.budget = 60
        # groups of delimiters around the current position, inside of the current construct
        self.groups = 0

    def pid(self):
        self.id += 1
        return self.id

    def var(self, p='v'):
        self.name += 1
        return f'{p}{self.name}'

    def ch(self, *a):
        return self.r.choice(a)

    def p(self, n, d):
        return self.r.randrange(d) < n

    # ---------------------------------------------------------------- probes
    def cond(self):
        c = self.r.randrange(7)
        b = lambda: f'pr.b({self.pid()})?'
        if c <= 3: return b()
        if c == 4: return f'{b()} && {b()}'
        if c == 5: return f'{b()} || !{b()}'
        return f'pr.n({self.pid()}, 3)? == 1'

    # ---------------------------------------------------------------- elements
    def word(self):
        k = self.r.randrange(12)
        if k == 10:
            w = self.ch('7', '1.5', '0x1F', '1_000u64', 'r#type', 'größe', 'identifier_' * 4 + 'end', 'n' + 'ame' * 60)
            return El(w, f'l(m, "{w}");', 'i', 'i')
        if k == 11:
            w, lit, a, b = self.ch(*[(w, w, 'p', 'p') for w in ('->', '::', '=>', '..=', '<<=', '&&', '||', '...')],
                                   ("'a", "'a", '"', 'i'), ("'c'", "'c'", '"', '"'), (r"'\\'", r"'\\\\'", '"', '"'))
            return El(w, f'l(m, "{lit}");', a, b)
        if k < 6:
            w = self.ch('foo', 'bar', 'x', 'while', 'Self', '_y', 'a1')
            return El(w, f'l(m, "{w}");', 'i', 'i')
        if k < 8:
            w = ',' if self.groups and self.p(2, 3) else self.ch(';', '=', '.', '+', '?', '&')
            return El(w, f'l(m, "{w}");', 'p', 'p')
        if k == 8:
            return El('$$', 'l(m, "$");', '$', '$')
        w = self.ch('lit', 'two words', 'q\\"uote')
        return El(f'"{w}"', f'qs(m, "{w}");', '"', '"')

    def value(self):
        n = self.pid()
        k = self.r.randrange(16)
        src, mod = {
            0: (f'pr.q({n})?', f'm.lit(pr.q({n})?);'),
            1: (f'pr.q({n})?', f'm.lit(pr.q({n})?);'),
            2: (f'pr.c({n})', f'm.lit(pr.mc({n})?);'),
            3: (f'pr.opt({n})?', f'if let Some(x) = pr.opt({n})? {{ m.lit(x); }}'),
            4: (f'pr.multi({n})?', f'pr.mmulti({n}, m)?;'),
            5: (f'quoted(pr.q({n})?)', f'{{ let x = pr.q({n})?; oq(m, false); m.lit(x); cq(m); }}'),
            6: (f'pr.n({n}, 9)?', f'm.lit(pr.n({n}, 9)?.to_string());'),
            7: (f'pr.q({n})?.as_str()', f'm.lit(pr.q({n})?);'),
            8: (f'&pr.q({n})?', f'm.lit(pr.q({n})?);'),
            9: (f'display(pr.n({n}, 9)?)', f'm.lit(pr.n({n}, 9)?.to_string());'),
            10: (f'format!("<{{}}>", pr.q({n})?)', f'm.lit(format!("<{{}}>", pr.q({n})?));'),
            11: (f'Some(pr.q({n})?)', f'm.lit(pr.q({n})?);'),
            12: (f'if pr.b({n})? {{ "t" }} else {{ "f" }}', None),
        }.get(k, (None, None))
        if k == 12:
            # An expression in braces, not a condition of the macro.
            src, mod = f'{{ if pr.b({n})? {{ "t" }} else {{ "f" }} }}', f'l(m, if pr.b({n})? {{ "t" }} else {{ "f" }});'
        if k == 13:
            n2 = self.pid()
            src = f'vec![pr.q({n})?, pr.q({n2})?]'
            mod = f'{{ let x = pr.q({n})?; let y = pr.q({n2})?; m.lit(x); m.lit(y); }}'
        if k == 14:
            n2 = self.pid()
            src = f'from_fn(|t| {{ t.append(pr.c({n})); t.space(); t.append(pr.c({n2})); }})'
            mod = f'm.lit(pr.mc({n})?); sp(m); m.lit(pr.mc({n2})?);'
        if k == 15:
            src = f'{{ pr.mark({n})?; "blk" }}'
            mod = f'pr.mark({n})?; l(m, "blk");'
        return El(f'$({src})', mod, '$', ')')

    def use_var(self):
        if not self.vars:
            return self.value()
        i = self.r.randrange(len(self.vars))
        name, copy, loop = self.vars[i]
        if copy:
            return self._copyvar(name)
        if loop == self.loop_id[-1] and self.p(1, 3):
            del self.vars[i]
            return El(f'${name}', f'm.lit({name});', '$', 'i')
        f = self.ch(f'&{name}', f'{name}.as_str()', f'{name}.clone()')
        return El(f'$({f})', f'm.lit({name}.clone());', '$', ')')

    def _copyvar(self, name):
        if self.p(1, 2):
            return El(f'${name}', f'm.lit({name}.to_string());', '$', 'i')
        return El(f'$({name})', f'm.lit({name}.to_string());', '$', ')')

    def control(self):
        c, f = self.ch((" ", 'sp'), ("\\n", 'ln'), ("\\r", 'p'))
        return El(f"$['{c}']", f'{f}(m);', '$', ']')

    def verbatim(self):
        w = self.ch('ver batim', 'ä', ' lead')
        return El(f'$("{w}")', f'l(m, "{w}");', '$', ')')

    def outside(self, f, *a):
        """Commas are kept to the groups which start inside of a construct."""
        hold, self.groups = self.groups, 0
        r = f(*a)
        self.groups = hold
        return r

    def string(self, *a): return self.outside(self.string_, *a)
    def stream(self, *a): return self.outside(self.stream_, *a)
    def body(self, *a): return self.outside(self.body_, *a)
    def loop(self, *a): return self.outside(self.loop_, *a)
    def match(self, *a): return self.outside(self.match_, *a)
    def condition(self, *a): return self.outside(self.condition_, *a)

    def string_(self, depth):
        if self.p(1, 2):
            # spelled out with its parts
            src, mod, ev = '', [], False
            lit = ''
            def flush():
                nonlocal lit
                if lit:
                    mod.append(f'l(m, "{lit}");')
                    lit = ''
            for i in range(self.r.randrange(1, 5) if self.p(2, 3) else self.r.randrange(5, 14)):
                k = self.r.randrange(6)
                if k <= 1:
                    if i and self.p(1, 2):
                        src += ' '; lit += ' '
                    if src and (src[-1].isalnum() or src[-1] == '_'):
                        src += ' '; lit += ' '
                    w = self.ch('one', 'two', 'three', '-', '$$')
                    src += w; lit += '$' if w == '$$' else w
                    continue
                if src.endswith('$$'):
                    src += ' '; lit += ' '
                if k == 2:
                    n = self.pid()
                    src += f'$[const](pr.q({n})?)'
                    flush()
                    mod.append(f'm.lit(pr.q({n})?);')
                elif k == 3:
                    src += '$[const]("con st")'
                    lit += 'con st'
                elif k == 4:
                    ev = True
                    flush()
                    src += '$name-'
                    mod += ['oe(m);', 'l(m, "name");', 'ce(m);']
                    lit += '-'
                else:
                    ev = True
                    flush()
                    saved = list(self.vars)
                    inner = self.line(depth + 1, self.r.randrange(1, 4), oneline=True, nostr=True)
                    self.vars = [v for v in self.vars if v in saved]
                    src += f'$({inner.src[0]})'
                    mod += ['oe(m);'] + ['{'] + inner.model + ['}'] + ['ce(m);']
            flush()
            return El(f'$[str]({src})', [f'oq(m, {str(ev).lower()});'] + mod + ['cq(m);'], '$', ')')
        w = self.ch('plain', 'a b  c', '1 + 2')
        return El(f'$[str]({w})', f'qs(m, "{w}");', '$', ')')

    def group(self, depth, oneline, comma=False):
        """A group of delimiters, with a comma in the middle of it if so desired."""
        o, c = self.ch('()', '[]', '{}')
        if comma:
            pass
        elif self.p(1, 6):
            return El(o + c, f'l(m, "{o}{c}");', o, c)
        saved = list(self.vars)
        self.groups += 1
        inner = self.line(depth + 1, self.r.randrange(1, 5), oneline=oneline)
        if comma:
            e = self.line(depth + 1, self.r.randrange(1, 3), oneline=oneline)
            inner = El(self.glue(inner.src, e.src, ', '), inner.model + ['l(m, ",");', 'sp(m);'] + e.model, inner.first, e.last)
        self.groups -= 1
        self.vars = [v for v in self.vars if v in saved]
        a, b = self.p(1, 3), self.p(1, 3)
        src = list(inner.src)
        src[0] = o + (self.gap() if a else '') + src[0]
        src[-1] = src[-1] + (self.gap() if b else '') + c
        mod = [f'l(m, "{o}");'] + (['sp(m);'] if a else []) + inner.model + (['sp(m);'] if b else []) + [f'l(m, "{c}");']
        return El(src, mod, o, c)

    def deep(self, depth, oneline):
        """Groups in groups."""
        e = self.ch(self.value, self.word, self.verbatim, lambda: El('$$', 'l(m, "$");', '$', '$'))()
        self.groups += 1
        for _ in range(self.r.randrange(3, 8)):
            o, c = self.ch('()', '[]', '{}')
            x = self.ch(self.value, self.word, lambda: El('$$', 'l(m, "$");', '$', '$'))()
            y = self.ch(self.value, self.word, lambda: El('$$', 'l(m, "$");', '$', '$'))()
            src = [f'{o}{x.src[0]} {e.src[0]} {y.src[0]}{c}']
            e = El(src, [f'l(m, "{o}");'] + x.model + ['sp(m);'] + e.model + ['sp(m);'] + y.model + [f'l(m, "{c}");'], o, c)
        self.groups -= 1
        return e

    def stream_(self, depth, oneline):
        """A stream made by another template."""
        s = self.var('s')
        saved = (list(self.vars), list(self.loops))
        if oneline or self.p(2, 3):
            inner = self.line(depth + 1, self.r.randrange(1, 4), oneline=True)
            src, mod = [f'quote!({inner.src[0]})'], inner.model
        else:
            ls, mod = self.block(depth + 1)
            src = ['quote! {'] + ['    ' + x for x in ls] + ['}']
        self.vars = [v for v in self.vars if v in saved[0]]
        mod = [f'let mut {s} = MStream::<()>::default();', '{', f'let m = &mut {s};'] + mod + ['}']
        k = self.r.randrange(4)
        if k <= 1:
            pre, post = '$(', ')'
            tail = [f'm.add_all(&{s}.items);']
        elif k == 2:
            pre, post = '$(&', ')'
            tail = [f'm.add_all(&{s}.items);']
        else:
            pre, post = '$(quoted(', '))'
            tail = ['oq(m, false);', f'm.add_all(&{s}.items);', 'cq(m);']
        src[0] = pre + src[0]
        src[-1] += post
        return El(src, mod + tail, '$', ')')

    def body_(self, depth, oneline, kinds):
        """The content of a construct. Returns (kind, source lines, model)."""
        kind = self.ch(*kinds)
        saved = list(self.vars)
        if kind == 'paren':
            inner = self.line(depth + 1, self.r.randrange(1, 4), oneline=True)
            a, b = self.p(1, 2), self.p(1, 2)
            src = ['(' + (self.gap() if a else '') + inner.src[0] + (self.gap() if b else '') + ')']
            mod = (['sp(m);'] if a else []) + inner.model + (['sp(m);'] if b else [])
        elif kind == 'bare':
            inner = self.line(depth + 1, self.r.randrange(1, 4), oneline=oneline, first=('i', 'p', '$', '"'), nocomma=True)
            if self.p(1, 2):
                if inner.src[-1].endswith("']"):
                    # what follows a control would be taken for its argument
                    e = self.word()
                    inner = El(self.glue(inner.src, e.src, ' '), inner.model + ['sp(m);'] + e.model, inner.first, e.last)
                e = self.group(depth + 1, oneline, comma=True)
                inner = El(self.glue(inner.src, e.src, ' '), inner.model + ['sp(m);'] + e.model, inner.first, e.last)
            src, mod = inner.src, inner.model
        elif kind == 'arrow':
            if oneline or self.p(2, 3):
                inner = self.line(depth + 1, self.r.randrange(1, 4), oneline=oneline)
                src, mod = list(inner.src), inner.model
                src[0] = '=> ' + src[0]
            else:
                ls, mod = self.block(depth + 1)
                src = ['=>'] + ['    ' + x for x in ls]
        else:
            if self.p(1, 12):
                src, mod = ['{}'], []
            elif oneline or self.p(1, 2):
                inner = self.line(depth + 1, self.r.randrange(1, 4), oneline=oneline)
                src, mod = list(inner.src), inner.model
                src[0] = '{ ' + src[0]
                src[-1] += ' }'
            else:
                ls, mod = self.block(depth + 1)
                src = ['{'] + ['    ' + x for x in ls] + ['}']
        self.vars = [v for v in self.vars if v in saved]
        return kind, src, mod

    @staticmethod
    def glue(a, b, sep=' '):
        a = list(a)
        a[-1] = a[-1] + sep + b[0]
        return a + list(b[1:])

    def condition_(self, depth, oneline):
        saved = list(self.vars)
        if self.p(1, 3):
            v = self.var()
            n = self.pid()
            head = self.ch(f'if let Some({v}) = pr.opt({n})?', f'if let (Some({v}), _) = (pr.opt({n})?, pr.b({self.pid()})?)')
            self.vars.append((v, False, self.loop_id[-1]))
        else:
            head = 'if ' + self.cond()
        kind, src, mod = self.body(depth, oneline, ['arrow', 'brace', 'brace', 'brace'])
        self.vars = [v for v in self.vars if v in saved]
        out = self.glue(['$(' + head], src)
        model = [head + ' {'] + mod + ['}']
        if kind == 'brace' and self.p(1, 2):
            _, src, mod = self.body(depth, oneline, ['brace'])
            out = self.glue(out, ['else'])
            out = self.glue(out, src)
            model[-1] = '} else {'
            model += mod + ['}']
        out[-1] += ')'
        return El(out, model, '$', ')')

    def loop_(self, depth, oneline):
        saved = list(self.vars)
        n = self.pid()
        v = self.var()
        join = self.p(1, 2)
        k = self.r.randrange(9)
        it = self.var('it')
        pat, copy = v, False
        pre = []
        if k <= 2:
            expr = f'pr.it({n})?'
            pre = [f'let mut {it} = pr.it({n})?;', f'let mut step = || -> Flow<Option<String>> {{ {it}.step() }};']
        elif k == 3:
            expr = f'0..pr.n({n}, 4)?'
            copy = True
            pre = [f'let mut {it} = 0..pr.n({n}, 4)?;', f'let mut step = || -> Flow<Option<u64>> {{ Ok({it}.next()) }};']
        elif k == 4:
            n2 = self.pid()
            expr = f'[pr.q({n})?, pr.q({n2})?]'
            pre = [f'let mut {it} = [pr.q({n})?, pr.q({n2})?].into_iter();', f'let mut step = || -> Flow<Option<String>> {{ Ok({it}.next()) }};']
        elif k == 5:
            n2 = self.pid()
            expr = f'pr.it({n})?.filter(|_| pr.cb({n2}))'
            pre = [f'let mut {it} = pr.it({n})?;',
                   f'let mut step = || -> Flow<Option<String>> {{ while let Some(x) = {it}.step()? {{ if pr.mcb({n2})? {{ return Ok(Some(x)); }} }} Ok(None) }};']
        elif k == 6:
            i = self.var('i')
            pat = f'({i}, {v})'
            expr = f'pr.it({n})?.enumerate()'
            pre = [f'let mut {it} = pr.it({n})?;', 'let mut at = 0u64;',
                   f'let mut step = || -> Flow<Option<(u64, String)>> {{ let x = {it}.step()?; at += 1; Ok(x.map(|x| (at - 1, x))) }};']
        elif k == 7:
            expr = f'pr.opt({n})?'
            pre = [f'let mut {it} = pr.opt({n})?.into_iter();', f'let mut step = || -> Flow<Option<String>> {{ Ok({it}.next()) }};']
        else:
            pat = '_'
            expr = f'pr.it({n})?'
            pre = [f'let mut {it} = pr.it({n})?;', f'let mut step = || -> Flow<Option<String>> {{ {it}.step() }};']
        head = f'for {pat} in {expr}'
        jsrc, jmod = '', []
        if join:
            # the join sees neither the bindings of the body nor its loop's pattern
            # in a way that matters; keep it to probes and text
            hold, self.vars = self.vars, []
            self.loops.append('barrier')
            j = self.line(depth + 1, self.r.randrange(1, 3), oneline=True)
            self.loops.pop()
            self.vars = hold
            a, b = self.p(1, 2), self.p(1, 2)
            if self.p(1, 3):
                jsrc, jmod = ' join (, )', ['l(m, ",");', 'sp(m);']
            else:
                jsrc = ' join (' + (self.gap() if a else '') + j.src[0] + (self.gap() if b else '') + ')'
                jmod = (['sp(m);'] if a else []) + j.model + (['sp(m);'] if b else [])
        lid = self.next_loop
        self.next_loop += 1
        self.loop_id.append(lid)
        self.loops.append('join' if join else 'plain')
        if pat != '_':
            self.vars.append((v, copy, lid))
            if pat != v:
                self.vars.append((i, True, lid))
        _, src, mod = self.body(depth, oneline, ['arrow', 'arrow', 'brace', 'brace'])
        self.loops.pop()
        self.loop_id.pop()
        self.vars = [x for x in self.vars if x in saved]
        out = self.glue(['$(' + head + jsrc], src)
        out[-1] += ')'
        model = ['{'] + pre
        if join:
            model += ['let mut next = step()?;', f'while let Some({pat}) = next {{']
            model += ['{'] + mod + ['}']
            model += ['next = step()?;', 'if next.is_some() {'] + ['{'] + jmod + ['}'] + ['}', '}']
        else:
            model += [f'while let Some({pat}) = step()? {{'] + mod + ['}']
        model += ['}']
        return El(out, model, '$', ')')

    def match_(self, depth, oneline):
        n = self.pid()
        arms = []      # (pattern text, variable or None)
        kind = self.r.randrange(4)
        if kind == 3:
            # a single arm
            c = self.r.randrange(4)
            v = self.var()
            if c == 0:
                head, pats = f'match pr.q({n})?', [(v, (v, False), False)]
            elif c == 1:
                head, pats = f'match pr.n({n}, 9)?', [(v, (v, True), False)]
            elif c == 2:
                head, pats = f'match (pr.b({n})?, pr.q({self.pid()})?)', [(f'(_, {v})', (v, False), False)]
            else:
                head, pats = f'match pr.b({n})?', [('true | false', None, False)]
        elif kind == 0:
            many = self.p(1, 3)
            arms = self.r.randrange(4, 12) if many else self.r.randrange(1, 4)
            k = arms + self.r.randrange(1, 3) if many else self.r.randrange(3, 7)
            head = f'match pr.n({n}, {k})?'
            pats = []
            for i in range(arms):
                c = self.ch(0, 0, 1, 3, 5, 5, 5) if many else self.r.randrange(6)
                if c == 0: pats.append((f'{i}', None, True))
                elif c == 1: pats.append((f'{i} | {i + 20}' if many else f'{i} | {i + 2}', None, True))
                elif c == 2: pats.append((f'{i}..={i + 1}', None, True))
                elif c == 3:
                    v = self.var()
                    pats.append((f'{v} if {v} {"==" if many else ">"} {i} && pr.b({self.pid()})?', (v, True), False))
                elif c == 4: pats.append((f'_ if pr.b({self.pid()})?', None, False))
                else: pats.append((f'{i} if pr.b({self.pid()})?', None, False))
            if self.p(1, 2):
                pats.append(('_', None, False))
            else:
                v = self.var()
                pats.append((v, (v, True), False))
        elif kind == 1:
            head = f'match pr.opt({n})?'
            v = self.var()
            w = self.var()
            pats = []
            if self.p(1, 2):
                pats.append((f'Some({v}) if {v}.is_empty() || pr.b({self.pid()})?', (v, False), False))
            if self.p(1, 3):
                pats.append((f'None if pr.b({self.pid()})?', None, False))
            if self.p(1, 4):
                pats.append((f'_ if pr.b({self.pid()})?', None, False))
            pats.append((f'Some({w})', (w, False), False))
            pats.append((self.ch('None', '_'), None, False))
        else:
            n2 = self.pid()
            head = f'match (pr.b({n})?, pr.n({n2}, 3)?)'
            v = self.var()
            pats = [(f'(true, 0)', None, False)]
            if self.p(1, 2):
                pats.append((f'(false, {v}) if {v} < 2 && pr.b({self.pid()})?', (v, True), False))
            if self.p(1, 2):
                pats.append(('(_, 1) | (true, _)', None, False))
            if self.p(1, 2):
                pats.append((f'_ if pr.b({self.pid()})?', None, False))
            pats.append(('(..)' if self.p(1, 2) else '_', None, False))
        one = oneline or self.p(1, 3)
        src = ['$(' + head + ' {']
        model = [head + ' {']
        for i, (pat, var, _) in enumerate(pats):
            saved = list(self.vars)
            if var:
                self.vars.append((var[0], var[1], self.loop_id[-1]))
            d = depth if len(pats) <= 4 or self.p(1, 3) else 4
            k, b, mod = self.body(d, one, ['bare', 'bare', 'paren', 'brace', 'brace'])
            self.vars = [x for x in self.vars if x in saved]
            arm = self.glue([pat + ' =>'], b)
            last = i + 1 == len(pats)
            if k == 'bare' or k == 'paren':
                # a comma unless the last
                if not last or self.p(1, 2):
                    arm[-1] += ','
            elif self.p(1, 2):
                arm[-1] += ','
            if one:
                src = self.glue(src, arm)
            else:
                src += ['    ' + x for x in arm]
            model += [pat + ' => {'] + mod + ['}']
        if one:
            src[-1] += ' })'
        else:
            src.append('})')
        model.append('}')
        return El(src, model, '$', ')')

    def let(self):
        v = self.var()
        n = self.pid()
        k = self.r.randrange(6)
        if k == 0:
            w = self.var()
            n2 = self.pid()
            t = f'let ({v}, {w}) = (pr.q({n})?, pr.n({n2}, 9)?)'
            self.vars += [(v, False, self.loop_id[-1]), (w, True, self.loop_id[-1])]
        elif k == 1:
            t = f'let {v} = pr.n({n}, 9)?'
            self.vars.append((v, True, self.loop_id[-1]))
        elif k == 2:
            t = f'let mut {v} = pr.q({n})?'
            self.vars.append((v, False, self.loop_id[-1]))
        else:
            t = f'let {v} = pr.q({n})?'
            self.vars.append((v, False, self.loop_id[-1]))
        return El(f'$({t})', t + ';', '$', ')')

    def scope(self, depth, oneline):
        k = self.r.randrange(6)
        n = self.pid()
        if k == 0:
            return El(f'$(ref _ {{ pr.mark({n})?; }})', f'pr.mark({n})?;', '$', ')')
        if k == 1:
            n2 = self.pid()
            return El(f'$(ref _ => if pr.b({n})? {{ pr.mark({n2})?; }})', f'if pr.b({n})? {{ pr.mark({n2})?; }}', '$', ')')
        if k == 2:
            n2 = self.pid()
            o = self.var('o')
            return El(f'$(ref {o} {{ {o}.append(pr.q({n})?); {o}.space(); {o}.append(pr.q({n2})?); }})',
                      f'm.lit(pr.q({n})?); sp(m); m.lit(pr.q({n2})?);', '$', ')')
        o = self.var('o')
        saved = list(self.vars)
        if oneline or k <= 4:
            inner = self.line(depth + 1, self.r.randrange(1, 4), oneline=True)
            self.vars = [v for v in self.vars if v in saved]
            if k == 3:
                return El(f'$(ref {o} => quote_in!(*{o} => {inner.src[0]}))', ['{'] + inner.model + ['}'], '$', ')')
            return El(f'$(ref {o} {{ if pr.b({n})? {{ quote_in!(*{o} => {inner.src[0]}); }} {o}.push(); }})',
                      [f'if pr.b({n})? {{'] + inner.model + ['}', 'p(m);'], '$', ')')
        self.loops.append('plain')
        self.loop_id.append(self.next_loop)
        self.next_loop += 1
        ls, mod = self.block(depth + 1)
        self.loops.pop()
        self.loop_id.pop()
        self.vars = [v for v in self.vars if v in saved]
        src = [f'$(ref {o} {{', f'    for _ in 0..pr.n({n}, 3)? {{', f'        quote_in! {{ *{o} =>'] + ['            ' + x for x in ls] + ['        }', f'        {o}.line();', '    }', '})']
        return El(src, [f'for _ in 0..pr.n({n}, 3)? {{'] + mod + ['ln(m);', '}'], '$', ')')

    def leave(self):
        n = self.pid()
        opts = ['return Err(Left::Return);']
        if self.loops and self.loops[-1] in ('plain', 'join'):
            opts += ['break;', 'break;']
        if self.loops and self.loops[-1] == 'plain':
            opts += ['continue;']
        how = self.ch(*opts)
        if self.p(1, 2):
            return El(f'$(ref _ => if pr.rare({n})? {{ {how} }})', f'if pr.rare({n})? {{ {how} }}', '$', ')')
        n2 = self.pid()
        o = self.var('o')
        return El(f'$(ref {o} {{ if pr.rare({n})? {{ {o}.append(pr.q({n2})?); {how} }} }})',
                  f'if pr.rare({n})? {{ m.lit(pr.q({n2})?); {how} }}', '$', ')')

    def element(self, depth, oneline, nostr=False):
        self.budget -= 1
        if depth >= 4 or self.budget <= 0:
            k = self.r.randrange(2)
            return self.word() if k else self.value()
        w = [10, 9, 5, 1, 2, 0 if nostr else 4, 3, 3, 7, 7, 6, 5, 5, 3, 0 if nostr else 1]
        f = [self.word, self.value, self.use_var, self.control, self.verbatim,
             lambda: self.string(depth), lambda: self.group(depth, oneline), lambda: self.stream(depth, oneline),
             lambda: self.condition(depth, oneline), lambda: self.loop(depth, oneline), lambda: self.match(depth, oneline),
             self.let, lambda: self.scope(depth, oneline), self.leave, lambda: self.deep(depth, oneline)]
        return self.r.choices(f, w)[0]()

    def line(self, depth, n, oneline=False, first=None, nocomma=False, nostr=False):
        """Elements on one line (though constructs may span several)."""
        els = []
        for i in range(n):
            for _ in range(50):
                saved = (list(self.vars), self.id, self.name, self.next_loop, self.budget)
                e = self.element(depth, oneline, nostr)
                if i == 0 and first and e.first not in first:
                    self.vars, _, _, _, self.budget = saved
                    continue
                break
            else:
                self.vars = saved[0]
                e = self.word()
                while e.first not in first:
                    e = self.word()
            els.append(e)
        src, mod = list(els[0].src), list(els[0].model)
        for a, b in zip(els, els[1:]):
            bad = {('i', 'i'), ('i', '"'), ('"', 'i'), ('"', '"'), ('$', 'i'), ('$', '$'), ('$', '('), ('$', '['), ('$', '{'),
                   ('p', 'p'), ('i', '('), ('i', '[') }
            sep = self.gap()
            if (a.last, b.first) not in bad and self.p(1, 2):
                sep = ''
            src = self.glue(src, b.src, sep)
            if sep:
                mod.append('sp(m);')
            mod += b.model
        return El(src, mod, els[0].first, els[-1].last)

    def gap(self):
        """What may stand between two tokens that are apart."""
        return self.ch(' ', ' ', ' ', ' ', ' ', ' ', '  ', '       ', '\t', ' /* between */ ', '/**/')

    def block(self, depth):
        """Several lines. Returns (source lines, model)."""
        src, mod = [], []
        level = 0
        # Columns of the levels, and what is open: its level, how it ends, and the variables before.
        cols, opened = [0], []
        odd = self.p(1, 2)
        stairs = self.p(1, 10)

        def move(new, blank):
            nonlocal level
            if blank:
                for _ in range(self.ch(1, 1, 1, 2, 4)):
                    src.append(self.ch('', '', '', ' ' * cols[level] + '// between'))
            if new == level:
                mod.append('tln(m);' if blank else 'tp(m);')
            elif new > level:
                cols.append(cols[level] + (self.ch(1, 2, 3, 5, 8, 11) if odd else 4))
                mod.append('tind(m);')
                if blank: mod.append('tln(m);')
            else:
                for _ in range(level - new):
                    mod.append('tun(m);')
                    if blank: mod.append('tln(m);')
                del cols[new + 1:]
            level = new

        def close():
            at, c, saved = opened.pop()
            self.groups -= 1
            self.vars = [v for v in self.vars if v in saved]
            move(at, self.p(1, 5))
            mod.append(f'l(m, "{c}");')
            src.append(' ' * cols[level] + c)

        n = self.r.randrange(5, 10) if stairs else self.r.randrange(1, 5)
        for i in range(n):
            started = False
            if i:
                blank = self.p(1, 4)
                low = opened[-1][0] + 1 if opened else 0
                if opened and self.p(1, 3):
                    close()
                    started = True
                    if self.p(1, 3):
                        continue
                else:
                    c = self.r.randrange(4)
                    if level < low: new = low
                    elif c <= 1: new = level
                    elif c == 2 or (stairs and i < 6): new = level + 1
                    else: new = self.r.randrange(low, level + 1)
                    if level > low + 1 and self.p(1, 3):
                        # Several levels at once, often over a blank line.
                        new, blank = self.r.randrange(low, level - 1), self.p(1, 2)
                    move(new, blank)
            ln = self.line(depth, self.r.randrange(1, 3) if stairs else self.r.randrange(1, 5) if self.p(9, 10) else self.r.randrange(5, 10))
            if started:
                # goes on behind the delimiter
                src[-1] += self.gap() + ln.src[0]
                mod.append('sp(m);')
                src += [' ' * cols[level] + x for x in ln.src[1:]]
            else:
                src += [' ' * cols[level] + x for x in ln.src]
            mod += ln.model
            if self.p(1, 5):
                if src[-1].endswith("']"):
                    src[-1] += ' x'
                    mod += ['sp(m);', 'l(m, "x");']
                o, c = self.ch('()', '[]', '{}')
                src[-1] += self.gap() + o
                mod += ['sp(m);', f'l(m, "{o}");']
                self.groups += 1
                opened.append((level, c, list(self.vars)))
            if (i + 1 < n or opened) and self.p(1, 12):
                src[-1] += self.ch(' // note', '// note', '   ')
        while opened:
            close()
        mod += ['tend(m);'] * level
        return src, mod


# Every kind of construct, directly between two pieces of text.
GLUED = ['condition', 'loop', 'match', 'match', 'let', 'scope', 'stream', 'string', 'value', 'use_var', 'control', 'verbatim']


def glued(g, at):
    src, mod = [], []
    for n in range(5):
        kind = GLUED[(at * 5 + n) % len(GLUED)]
        f = getattr(g, kind)
        g.budget = 12
        if kind in ('condition', 'loop', 'match', 'scope', 'stream'):
            e = f(2, g.p(1, 2))
        elif kind == 'string':
            e = f(2)
        else:
            e = f()
        a, b = g.ch('ab', 'x1', ';', '+'), g.ch('yz', 'z_', '.', ';')
        left, right = g.p(4, 5), g.p(4, 5)
        if e.last == 'i' and b.isidentifier():
            right = False
        ln = list(e.src)
        m = list(e.model)
        if g.p(9, 10):
            ln[0] = a + ('' if left else ' ') + ln[0]
            m = [f'l(m, "{a}");'] + ([] if left else ['sp(m);']) + m
        if g.p(9, 10):
            ln[-1] += ('' if right else ' ') + b
            m += ([] if right else ['sp(m);']) + [f'l(m, "{b}");']
        if n:
            mod.append('tp(m);')
        src += ln
        mod += m
    return src, mod


def template(i):
    for attempt in range(1000):
        g = Gen(random.Random(SEED * 100003 + i * 1009 + attempt))
        if i >= COUNT - COUNT // 5:
            src, mod = glued(g, i)
        else:
            src, mod = g.block(0)
        if 8 <= g.id <= 40:
            break
    else:
        sys.exit(f'no template {i}')
    o = [f'fn real_{i}<L: Lang + LangSupportsEval>(t: &mut Tokens<L>, pr: &Pr) -> Flow {{',
         '    quote_in! { *t =>']
    o += [('        ' + x) if x else '' for x in src]
    o += ['    }', '    Ok(())', '}', f'fn model_{i}(m: &mut MV, pr: &Pr) -> Flow {{']
    o += ['    ' + x for x in mod]
    o += ['    Ok(())', '}']
    return o


out = ['// Written by tools/gen_templates.py; do not edit.', '']
for i in range(COUNT):
    out += template(i)
out += [f'pub const GENERATED: usize = {COUNT};', '']
for l in range(3):
    out += ['pub fn generated%d<L: Lang + LangSupportsEval>() -> &\'static [Generated<L>] {' % l, '    &[']
    out += [f'        Generated {{ name: "generated {i}", real: real_{i}::<L>, model: model_{i} }},' for i in range(l, COUNT, 3)]
    out += ['    ]', '}']
text = '\n'.join(out) + '\n'
open(OUT, 'w').write(text)
