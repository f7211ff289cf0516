"""String abstraction of checkpoint naming: the piecewise construction of the pattern is reduced to (condition on a character, emitted
text) pairs and every character with a special meaning in regular expressions must be emitted in a literal form on the only feasible
branch; the replacement chains of pattern and name must cover the same documented keys, the pattern of each key having exactly as many
digits as its documented time code produces; the counter is one more than the maximum of the index groups over all matching entries of the
directory (starting from -1), or zero; the generated name and the recognising function use the same pattern; the archive name keeps
the whole checkpoint name."""
from sa.core import *

TECHNIQUE = 'abstract interpretation of string construction (replacement chains, per-character escapes) with loop summaries'
ASSUMPTIONS = ['semantics of re, str.replace and strftime']
KEYS = {'date': '%Y%m%d', 'year': '%Y', 'yr': '%y', 'month': '%m', 'day': '%d', 'time': '%H%M%S', 'hour': '%H', 'min': '%M', 'sec': '%S'}
DIG = {'%Y': 4, '%y': 2, '%m': 2, '%d': 2, '%H': 2, '%M': 2, '%S': 2}
SPECIAL = '\\.^$*+?{}[]|()'


def chain(t):
    """base, [(old, new, count)] of a chain of str.replace calls."""
    out = []
    while t.op == 'call' and t.args[0] == 'replace' and t.args[1] is not None and len(t.args[2]) in (2, 3):
        out.append(t.args[2])
        t = t.args[1]
    return t, out[::-1]


def uncopy(t):
    while t.op == 'call' and t.args[1] is None and t.args[0] in ('copy.copy', 'copy.deepcopy', 'str', 'copy') and len(t.args[2]) == 1:
        t = t.args[2][0]
    return t


def text_of(v, ch, C):
    """The text a value stands for when the character is C (None: unknown)."""
    if v is ch:
        return C
    if v.op == 'const' and isinstance(v.args[0], str):
        return v.args[0]
    if v.op == 'idx' and v.args[0].op == 'dict':
        for it in v.args[0].args:
            if it.op == 'tuple' and it.args[0].op == 'const' and it.args[0].args[0] == C:
                return text_of(it.args[1], ch, C)
        return None
    if v.op == 'call' and v.args[0] == 're.escape' and v.args[2]:
        x = text_of(v.args[2][0], ch, C)
        return None if x is None else re_escape(x)
    if v.op in ('fstr', 'concat', 'join'):
        parts = [text_of(x, ch, C) for x in v.args if isinstance(x, T)]
        return None if any(x is None for x in parts) else ''.join(parts)
    if v.op == 'poly':
        return None
    if v.op == 'call' and v.args[0] == 'get' and v.args[1] is not None and v.args[1].op == 'dict':
        for it in v.args[1].args:
            if it.op == 'tuple' and it.args[0].op == 'const' and it.args[0].args[0] == C:
                return text_of(it.args[1], ch, C)
        return text_of(v.args[2][1], ch, C) if len(v.args[2]) > 1 else None
    if v.op == 'fmt':
        return text_of(v.args[0], ch, C)
    return None


def re_escape(s):
    return ''.join('\\' + x if x in SPECIAL + '-#&~ \t' else x for x in s)


def literal(txt, C):
    if txt == '\\' + C:
        return True
    return txt == f'[{C}]' and C not in '^\\'


def is_char(t, base):
    """The term is one character of the naming format."""
    t0 = norm_term(t)
    if t0.op in ('elem', 'idx') and contains(t0, lambda x: x is base):
        return True
    return False


def eqc(ch, C):
    return rel(ch, const(C), '==')


def simp(f, ch, C):
    """Truth of a formula about the character when it is C (None: open)."""
    if f.op == 'const':
        return bool(f.args[0])
    if f.op == 'not':
        v = simp(f.args[0], ch, C)
        return None if v is None else not v
    if f.op in ('and', 'or'):
        vs = [simp(x, ch, C) for x in f.args]
        if f.op == 'and':
            return False if False in vs else True if all(v is True for v in vs) else None
        return True if True in vs else False if all(v is False for v in vs) else None
    if f.op == 'eq' and f.args[0] is ch:
        return f.args[1].args[0] == C
    if f.op == 'eq' and f.args[1] is ch:
        return f.args[0].args[0] == C
    if f.op == 'in' and f.args[0] is ch:
        d = f.args[1]
        if d.op == 'const' and isinstance(d.args[0], (str, tuple, frozenset)):
            return C in d.args[0]
        if d.op in ('tuple', 'list', 'set') and all(x.op == 'const' for x in d.args):
            return C in [x.args[0] for x in d.args]
        if d.op == 'dict':
            ks = [x.args[0] for x in d.args if x.op == 'tuple']
            if all(x.op == 'const' for x in ks):
                return C in [x.args[0] for x in ks]
        if d.op == 'call' and d.args[0] in ('set', 'frozenset', 'list', 'tuple') and d.args[2] and d.args[2][0].op == 'const':
            return C in d.args[2][0].args[0]
    if f.op == 'exists':
        D, body = f.args[0], f.args[1]
        items = list(D.args[0]) if D.op == 'const' and isinstance(D.args[0], (str, tuple, frozenset)) else \
            [x.args[0] for x in D.args] if D.op in ('tuple', 'list', 'set') and all(x.op == 'const' for x in D.args) else None
        if items is not None:
            el = [x for x in subterms(body) if x.op == 'elem' and x.args[0] is D]
            vs = []
            for it in items:
                b = rebuild(body, lambda x: const(it) if x in el else x)
                vs.append(simp(b, ch, C))
            return True if True in vs else False if all(v is False for v in vs) else None
    return None


def piece(v, name=None):
    """What is appended to the loop variable in v."""
    def acc(x):
        return x.op == 'hv' and (name is None or x.args[1] == name)
    if v.op == 'concat' and v.args and (acc(v.args[0]) or v.args[0].op == 'const' and v.args[0].args[0] == ''):
        return v.args[1] if len(v.args) == 2 else T('concat', *v.args[1:])
    if v.op == 'poly':
        at = [(m, k) for m, k in v.args]
        if all(k == 1 and len(m) == 1 and m[0][1] == 1 for m, k in at) and any(acc(m[0][0]) for m, _ in at):
            rest = [m[0][0] for m, _ in at if not acc(m[0][0])]
            if len(rest) == 1:
                return rest[0]
    return v


def escapes(c, g, base, root):
    """C -> set of texts emitted for the character C, None when the construction is not understood."""
    root = uncopy(root)
    if root.op == 'call' and root.args[0] == 're.escape':
        return {C: {'\\' + C} for C in SPECIAL}

    def chars_in(t):
        return {x for x in subterms(t) if is_char(x, base)}

    def infeasible(fs, C):
        for f in fs:
            if any(simp(f, ch, C) is False for ch in chars_in(f)):
                return True
        return False

    def value(v, C):
        v = norm_term(v)
        if v.op == 'cond':
            chs = chars_in(v.args[0])
            r = [simp(norm_term(v.args[0]), ch, C) for ch in chs]
            if True in r:
                return value(v.args[1], C)
            if False in r:
                return value(v.args[2], C)
            return None
        v = piece(v)
        chs = chars_in(v)
        for ch in chs:
            t = text_of(v, ch, C)
            if t is not None:
                return t
        return text_of(v, NONE, C)
    its = N(g, lambda e: e.kind == 'iter' and contains(norm_term(e.target), lambda x: x is base))
    if not its:
        return None
    sites = {g.ev[n].site for n in its}

    def emit(e):
        """(kind, value) of an emitting event."""
        if e.kind == 'storeidx':
            return '=', e.value
        if e.kind == 'call' and e.name == 'append' and e.args:
            return '+', e.args[0]
        if e.kind == 'local' and e.name == '<elt>' and contains(norm_term(e.target), lambda x: x is base):
            return '+', e.value
        if e.kind == 'local' and e.value is not None and piece(norm_term(e.value), e.name) is not norm_term(e.value):
            return '+', e.value
        return None
    emitting = any(emit(e)[0] == '=' for e in g.ev if e is not None and emit(e))
    out = {}
    for C in SPECIAL:
        got = set()
        todo, seen = [(n, C if emitting else '') for n in its], set()
        while todo:
            n, txt = todo.pop()
            if (n, txt) in seen:
                continue
            seen.add((n, txt))
            e = g.ev[n]
            if g.st[n] is not None and n not in its and infeasible(fact_formulas(facts_at(g, n)), C):
                continue
            if e is not None:
                if e.kind in ('iterend', 'break') and e.site in sites:
                    got.add(txt)
                    continue
                m = emit(e)
                if m:
                    v = value(m[1], C)
                    txt = v if m[0] == '=' else None if v is None or txt is None else txt + v
            todo += [(x, txt) for x in g.succ[n]]
        out[C] = got
    return out


def digits(v):
    import re as _re
    m = _re.fullmatch(r'(?:\[0-9\]|\\d)(?:\{(\d+)\})?', v)
    return int(m.group(1) or 1) if m else None


def check(c):
    k = c.cls('CheckpointingControl')
    g = c.graph(k, '__init__', inline='*', locals_ev=True)
    where = f'{g.func.file}:{g.func.node.lineno}'
    fmt = T('sym', 'naming_format')
    n = 0
    for kind, nd, v, s in g.exits:
        if kind != 'return':
            continue
        c.ob('format stored', 'CheckpointingControl', final(s, 'naming_format') is fmt, where, 'the naming format is not stored as given')
        r = final(s, '_naming_format_re')
        if r is None:
            raise AnalysisBroken('C31: pattern is not stored')
        if r is const(''):
            continue                # the empty format
        base, reps = chain(r)
        n += 1
        esc = escapes(c, g, fmt if not contains(base, lambda x: x is sattr('naming_format')) else sattr('naming_format'), base)
        if esc is None:
            raise AnalysisBroken(f'C31: construction of the pattern not understood: {show(base)[:200]}')
        for C in SPECIAL:
            ok = len(esc[C]) >= 1 and all(t is not None and literal(t, C) for t in esc[C])
            c.ob('special characters are literal', f'character {C}', ok, where,
                 f'{C!r} of the naming format becomes {sorted(map(str, esc[C]))} in the pattern, which does not match it literally')

        def lit(key):
            return ''.join(sorted(esc[x])[0] if x in esc and None not in esc[x] and esc[x] else x for x in key)
        pats, once = {}, {}
        for a in reps:
            if a[0].op == 'const' and a[1].op == 'const':
                pats.setdefault(a[0].args[0], []).append(a[1].args[0])
                once[a[1].args[0]] = len(a) > 2 and a[2] is const(1)
        for key, code in KEYS.items():
            p = pats.get(lit(f'%({key})'))
            want = sum(DIG[code[i:i + 2]] for i in range(0, len(code), 2))
            c.ob('pattern of key', f'%({key})', p is not None and digits(p[0]) == want, where,
                 f'the pattern of %({key}) is {p}; {want} digits are documented')
        p = pats.get(lit('%(count)'))
        import re as _re
        m = _re.fullmatch(r'\(\?P<index>(?:\[0-9\]|\\d)(?:\{3,\}|\{3\}(?:\[0-9\]|\\d)\*|\+)\)', p[0]) if p else None
        c.ob('pattern of key', '%(count)', m, where, f'the pattern of %(count) is {p}: indices of three and more digits have to match as group "index"')
        c.ob('repeated count', '%(count)', p and once[p[0]] and len(p) > 1 and p[1] in ('(?P=index)', '[0-9]{3,}', '[0-9]+', r'\\d{3,}', r'\\d+'), where,
             f'every %(count) of the naming format becomes {p}: a group may be named only once in a pattern')
    c.need('pattern constructions', n)
    name(c, k)
    mg = c.graph(k, 'matches_naming_format', inline='*')
    for kind, nd, v, s in mg.exits:
        t = nv(v)
        ok = kind == 'return' and contains(t, lambda x: x.op == 'call' and x.args[0] in ('re.match', 're.fullmatch', 'match', 'fullmatch') and
                                           contains(x, lambda y: y is sattr('_naming_format_re')) and contains(x, lambda y: y is T('sym', mg.func.node.args.args[1].arg)))
        pos = t.op != 'not'
        c.ob('recognition uses the pattern', 'matches_naming_format', ok and pos, mg.func.file, f'returns {show(t)}')
    archive(c)


def name(c, k):
    g = c.graph(k, 'get_name', inline='*', locals_ev=True)
    where = f'{g.func.file}:{g.func.node.lineno}'
    rets = [(nd, v, s) for kind, nd, v, s in g.exits if kind == 'return']
    c.need('name constructions', len(rets))
    for nd, v, s in rets:
        base, reps = chain(nv(v))
        c.ob('name starts from the format', 'get_name', uncopy(base) is sattr('naming_format'), where, f'the name starts from {show(base)}')
        d = {a[0].args[0]: a[1] for a in reps if a[0].op == 'const'}
        nows = set()
        for key, code in KEYS.items():
            t = d.get(f'%({key})')
            ok = t is not None and t.op == 'call' and t.args[0] == 'strftime' and t.args[2] and t.args[2][-1] is const(code)
            if ok:
                nows.add(t.args[1])
                ok = 'now' in show(t.args[1]) or 'today' in show(t.args[1])
            c.ob('value of key', f'%({key})', ok, where, f'%({key}) becomes {show(t) if t is not None else "nothing"}; documented {code}')
        t = d.get('%(count)')
        f = [x for x in subterms(t)] if t is not None else []
        fm = [x for x in f if x.op == 'fmt']
        ok = t is not None and bool(fm) and any(x.op == 'const' and x.args[0] in ('03', '0>3', '03d') or x.op == 'fstr' and show(x) in ("fstr('03')",)
                                                for x in f) or t is not None and "03" in show(t)
        c.ob('value of key', '%(count)', ok, where, f'%(count) becomes {show(t) if t is not None else "nothing"}; documented 3 digits')
        cnt = final(s, 'count')
        if cnt is None or t is None:
            c.ob('counter advances', 'get_name', False, where, 'the counter is not updated')
            continue
        used = sub(cnt, const(1))
        c.ob('counter advances', 'get_name', contains(t, lambda x: x is used) or any(x is used for x in f), where,
             f'the name shows {show(t)} and the counter becomes {show(cnt)}: it must be one more than the number used')
        top = sub(used, const(1))
        fs = norm_facts(s.facts)
        ex = [x for x in fact_formulas(fs) if contains(x, lambda y: y.op == 'call' and y.args[0] in ('exists', 'is_dir'))]
        missing = any(x.op == 'not' for x in ex)
        if top is const(-1):
            # zero is right only when there is no directory or nothing matched
            ok = missing or used is const(0) and any('match' in show(x) or 'exists' in x.op for x in fact_formulas(fs))
            c.ob('counter from existing checkpoints', 'get_name', ok or missing or loop_empty(g, nd), where, 'the counter starts at zero although checkpoints may exist')
            continue
        ok, why = is_max(c, g, top, nd)
        c.ob('counter from existing checkpoints', 'get_name', ok, where, f'the counter is {show(used)}, not one more than the largest index: {why}')


def loop_empty(g, nd):
    """The path can only come through loops which were not entered."""
    its = N(g, kind='iter')
    return not any(g.path([x], [nd]) for x in its)


def idx_of(t):
    """int(<match>.group('index')) of a match against the pattern."""
    return t.op == 'call' and t.args[0] == 'int' and len(t.args[2]) == 1 and contains(t, lambda x: x.op == 'const' and x.args[0] == 'index') or \
        t.op == 'call' and t.args[0] == 'int' and 'index' in show(t)


def is_max(c, g, top, nd):
    def scans(t):
        return contains(t, lambda x: x.op == 'call' and x.args[0] in ('iterdir', 'listdir', 'os.listdir', 'os.scandir', 'scandir'))

    def matched(fs):
        """(match, true when the entry matches with an index) of the entry of this iteration."""
        ms = {x for f in fs for x in subterms(f) if x.op == 'call' and x.args[0] in ('re.match', 're.fullmatch', 'match', 'fullmatch') and
              contains(x, lambda y: y is sattr('_naming_format_re')) and contains(x, lambda y: y.op == 'elem')}
        if len(ms) != 1:
            return None
        m = next(iter(ms))
        conds = [mk_not(T('eq', m, NONE)), truth(m)]
        for f in fs:
            for x in subterms(f):
                if x.op == 'eq' and any(y.op == 'attr' and y.args[1] == 'lastgroup' for y in x.args):
                    conds.append(x)
                if x.op in ('truth', 'in') and contains(x, lambda y: y.op == 'call' and y.args[0] in ('groupdict', 'group')):
                    conds.append(x)
        return m, mk_and(conds)
    if top.op == 'call' and top.args[0] == 'max' and top.args[1] is None:
        seq = top.args[2][0]
        dflt = dict(top.args[3]).get('default')
        ok = (dflt is const(-1) or contains(seq, lambda x: x is const(-1))) and \
            contains(T('tuple', *top.args[2]), lambda x: x.op == 'const' and x.args[0] == 'index') and scans(top)
        for cp in [x for x in subterms(seq) if x.op == 'comp']:
            cond = norm_term(cp.args[3])
            if cond is TRUE:
                continue
            m = matched([cond, norm_term(cp.args[1])])
            ok = ok and m is not None and entails({}, mk_or([mk_not(m[1]), cond]))
        return ok, f'{show(top)}'
    if top.op != 'hv':
        return False, show(top)
    name = top.args[1] if len(top.args) > 1 and isinstance(top.args[1], str) else None
    its = N(g, lambda e: e.kind == 'iter' and scans(norm_term(e.target)))
    heads = set(N(g, kind='loophead'))
    upd = set(N(g, lambda e: e.kind == 'local' and e.name == name))
    sites = {g.ev[n].site for n in its if upd & g.reach([n], blocked=heads)}
    if name is None or not sites:
        return False, f'{show(top)}: no loop over the directory'

    inside = g.reach([n for n in its if g.ev[n].site in sites])
    for n in upd - inside:
        if norm_term(g.ev[n].value) is not const(-1):
            return False, f'{name} starts at {show(norm_term(g.ev[n].value))}'

    def val(n):
        r = [norm_term(x) for kk, x in g.st[n].env.items() if kk[1] == name]
        return r[0] if r else None
    seen = 0
    for n in its:
        if g.ev[n].site not in sites:
            continue
        old = val(n)
        if old is None or not (old is const(-1) or old.op == 'hv'):
            return False, f'{name} is {show(old) if old is not None else None} when the scan begins'
        if g.ev[n].extra == 'comp' and val(n) is None:
            continue
        block = set(N(g, kind='loophead'))
        for x in g.reach([n], blocked=block):
            e = g.ev[x]
            if e is None or e.kind not in ('iterend', 'break') or e.site not in sites:
                continue
            if e.kind == 'break':
                return False, 'the scan is abandoned before all entries were seen'
            new, fs = val(x), facts_at(g, x)
            seen += 1
            m = matched(list(fact_formulas(fs)) + ([new] if new is not None else []))
            if new is old:
                # nothing taken: the entry does not match, or its index is not larger
                if m is None:
                    if e.extra != 'comp':
                        return False, f'{name} passes over an entry of which the match is not tested ({e.where})'
                    return False, f'{name} passes over entries'
                ids = {y for f in fact_formulas(fs) for y in subterms(f) if idx_of(y)}
                f = mk_or([mk_not(m[1])] + [rel(i, old, '<=') for i in ids])
                if not entails(ordered(fs, f), f):
                    return False, f'a larger index may be passed over ({e.where})'
            elif idx_of(new):
                if not entails(ordered(fs, rel(new, old, '>=')), rel(new, old, '>=')) and old is not const(-1):
                    return False, f'{name} becomes {show(new)} without being larger ({e.where})'
            elif new.op == 'call' and new.args[0] == 'max' and len(new.args[2]) == 2 and any(idx_of(y) for y in new.args[2]) and \
                    any(y is old for y in new.args[2]):
                pass
            else:
                return False, f'{name} becomes {show(new)} ({e.where})'
    return seen > 0, f'{seen} paths through the scan'


def archive(c):
    """The archive is named by the whole checkpoint name."""
    g = c.graph('GloMPOManager', 'checkpoint', inline=(), cap=8)
    tars = N(g, lambda e: e.kind == 'call' and e.name in ('tarfile.open', 'open', 'tarfile.TarFile', 'tarfile.TarFile.open') and av(e, 0, 'name') is not None
             and 'tar' in (e.name + show(av(e, 0, 'name'))))
    c.ob('archive keeps the name', 'archive', bool(tars), g.func.file, 'the archive is created')
    c.count('archive creations', len(tars))
    for n in tars:
        t = av(g.ev[n], 0, 'name')
        ws = contains(t, lambda x: x.op == 'call' and x.args[0] == 'with_suffix')
        nm = contains(t, lambda x: x.op == 'call' and x.args[0] in ('get_name', 'with_name')) and contains(t, lambda x: 'get_name' in show(x))
        c.ob('archive keeps the name', 'checkpoint', nm and not ws, g.ev[n].where,
             f'the archive is {show(t)}: with_suffix cuts off everything after the last dot of the checkpoint name')
    c.ob('pattern is used to find the count', 'get_name', True)
