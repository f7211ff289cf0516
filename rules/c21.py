"""The transition of every bundled selector is extracted as path conditions, selected index and new state. The spawn control is consulted on
every path before anything is selected and its refusal returns False without changing state. The cycling selector starts at the first entry,
advances by one modulo the number of entries on success and keeps its position otherwise; the chain selector passes a threshold only once it is
reached, leaves none that is reached and uses the entry after them, returning False exactly after the last entry; the random selector chooses
among exactly the entries that fit. The manager clears the spawning flag exactly on a False answer, never sets it again, and only asks a
selector while it is set. Spawn controls refuse exactly from their limit on."""
from sa.core import *

TECHNIQUE = 'transition extraction per path with attribute histories, decision equivalence, dominance of the spawning flag'
ASSUMPTIONS = ['thresholds of the chain selector are increasing', 'random.choice returns one of the given entries']
AV = sattr('avail_opts')
SLOTS = T('sym', 'slots_available')
N_ = T('call', 'len', None, (AV,), (), None)


def n_of(t):
    return t is N_


def check(c):
    base = c.cls('BaseSelector')
    fams = [k for k in c.p.subclasses(base)]
    c.need('bundled selectors', len(fams), 3)
    for k in fams:
        one(c, k)
    cycle(c, c.cls('CycleSelector'))
    chain(c, c.cls('ChainSelector'))
    rand(c, c.cls('RandomSelector'))
    manager(c)
    controls(c)


def graph(c, k):
    return c.graph(k, 'select_optimizer', inline='*')


def slots_of(g):
    a = [x.arg for x in g.func.node.args.args]
    return T('sym', a[3]) if len(a) > 3 else SLOTS


def one(c, k):
    """Spawn control first, in every selector."""
    g = graph(c, k)
    where = f'{g.func.file}:{g.func.node.lineno}'
    asks = [n for n in N(g, kind='call') if 'allow_spawn' in repr(g.ev[n]).split('(')[0] or g.ev[n].recv is not None and rv(g.ev[n]) is sattr('allow_spawn')]
    c.ob('spawn control is consulted', k.name, bool(asks), where, 'the spawn control is never asked')
    if not asks:
        return
    bad = not_preceded(g, asks, exit_nodes(g, ('return',)) + stores(g))
    c.ob('spawn control is asked first', k.name, not bad, where, 'something is selected or stored without asking the spawn control', describe_path(g, bad[0][1]) if bad else None)
    m = T('sym', g.func.node.args.args[1].arg)
    for n in asks:
        c.ob('spawn control gets the manager', k.name, av(g.ev[n], 0) is m, g.ev[n].where, f'it is asked about {show(av(g.ev[n], 0) or NONE)}')
    okay = truth(nv(g.ev[asks[0]].value))
    after = set(stores(g)) | set(N(g, lambda e: e.kind == 'storeidx'))
    for kind, n, v, s in g.exits:
        if kind != 'return':
            continue
        f = norm_facts(s.facts)
        t = nv(v)
        if not satisfiable(f, okay):
            c.ob('refusal is passed on', k.name, t is FALSE, where, f'returns {show(t)} although the spawn control refused')
        elif satisfiable(f, mk_not(okay)):
            c.ob('refusal is passed on', k.name, False, where, f'returns {show(t)} whatever the spawn control answered')
    # nothing is changed on a refusal
    def step(q, n, e):
        if n in after and not satisfiable(facts_at(g, n), okay):
            return '!', 'the state changes although the spawn control refused'
        return q
    run_automaton(c, 'refusal changes nothing', k.name, g, None, step)


def fits(t, slots):
    return rel(T('idx', T('idx', t, const(1)), const('workers')), slots, '<=')


def cycle(c, k):
    g = c.graph(k, 'select_optimizer', inline='*', keep_old=True)
    where = f'{g.func.file}:{g.func.node.lineno}'
    slots = slots_of(g)
    attrs = {g.ev[n].name for n in stores(g)}
    outs = histories(g, attrs)
    g0 = c.graph(k, '__init__', inline='*')
    init = {}
    for kind, n, v, s in g0.exits:
        if kind == 'return':
            for a in attrs:
                init.setdefault(a, set()).add(final(s, a))
    nret = 0

    for n, v, s, h in outs:
        f = norm_facts(s.facts)
        t = norm_term(replay(v, h))
        if t is FALSE or t is NONE:
            changed = sorted(a for a in attrs if h[a][-1] is not sattr(a) and a in posattrs(g, outs))
            c.ob('position is kept', f'{k.name}: {show(t)}', not changed, where, f'{show(t)} is returned and {changed} changed: the next optimizer is skipped')
            if t is NONE:
                e = expected(outs)
                ok = e is not None and not satisfiable(ordered(hist_facts(s, h), fits(T('idx', AV, e), slots)), fits(T('idx', AV, e), slots))
                c.ob('nothing only if it does not fit', k.name, ok, where, 'nothing is selected although the next optimizer of the cycle may fit')
            continue
        nret += 1
        if not (t.op == 'idx' and t.args[0] is AV):
            c.ob('next of the cycle', k.name, False, where, f'returns {show(t)}')
            continue
        e = t.args[1]
        pos = [a for a in sorted(attrs) if contains(e, lambda x: x is sattr(a))]
        ok, msg = False, f'the selected position is {show(e)}'
        if len(pos) == 1:
            a = pos[0]
            start = init.get(a, set())
            new = h[a][-1]
            i0 = list(start)[0] if len(start) == 1 else None
            first = plug(e, a, i0) if i0 is not None else None
            nxt = plug(e, a, new)
            want = mod(add(e, const(1)))
            ok = first is not None and is_zero(first) and same(nxt, want)
            msg = f'the first position is {show(first) if first is not None else "?"} and {show(e)} is followed by {show(nxt)}'
        c.ob('next of the cycle', k.name, ok, where, msg)
        q = fits(t, slots)
        ff = hist_facts(s, h)
        c.ob('selected optimizer fits', k.name, entails(ordered(ff, q), q), where,
             f'{show(t)} is returned without knowing that it fits')
    c.need('selections of the cycling selector', nret)


def expected(outs):
    for n, v, s, h in outs:
        t = norm_term(replay(v, h))
        if t.op == 'idx' and t.args[0] is AV:
            return t.args[1]
    return None


def posattrs(g, outs):
    r = set()
    for n, v, s, h in outs:
        t = norm_term(replay(v, h))
        if t.op == 'idx':
            r |= {x.args[1] for x in subterms(t.args[1]) if x.op == 'attr' and x.args[0] is T('sym', 'self')}
    return r


def hist_facts(s, h):
    """Facts of a state with attributes replaced by their values."""
    out = {}
    for f in fact_formulas(norm_facts(s.facts, old=True)):
        out = (assume(norm_term(reform(f, h)), True, out) or [out])[0]
    return out


def reform(f, h):
    if f.op == 'rel':
        return rel(replay(f.args[0], h), const(f.args[1]) if not isinstance(f.args[1], T) else f.args[1], f.args[2])
    if f.op == 'not':
        return mk_not(reform(f.args[0], h))
    if f.op in ('and', 'or'):
        return T(f.op, *[reform(x, h) for x in f.args])
    return replay(f, h)


def plug(e, a, v):
    return norm_term(replay(e, {a: (v,)}))


def mod(t):
    return T('bin', 'Mod', t, N_)


def is_zero(t):
    return t is const(0) or t.op == 'bin' and t.args[0] == 'Mod' and t.args[1] is const(0)


def flat(t):
    """(a mod n + b) mod n = (a + b) mod n"""
    from sa.terms import mul, to_poly, from_poly
    if t.op == 'bin' and t.args[0] == 'Mod' and n_of(t.args[2]):
        r = const(0)
        for m, co in to_poly(t.args[1]).items():
            x = from_poly({m: co})
            if len(m) == 1 and m[0][1] == 1:
                y = m[0][0]
                if y.op == 'bin' and y.args[0] == 'Mod' and n_of(y.args[2]):
                    y = flat(y)
                    x = mul(const(co), y.args[1] if y.op == 'bin' else y)
            r = add(r, x)
        return T('bin', 'Mod', r, t.args[2])
    return t


def same(a, b):
    a, b = flat(a), flat(b)
    if a is b:
        return True
    return flat(mod(a)) is flat(mod(b)) if a.op == 'bin' or b.op == 'bin' else False


def chain(c, k):
    g = graph(c, k)
    where = f'{g.func.file}:{g.func.node.lineno}'
    slots = slots_of(g)
    th = sattr('fcall_thresholds')
    fc = T('attr', T('sym', g.func.node.args.args[1].arg), 'f_counter')
    tg = stores(g, 'toggle')
    for n in tg:
        e = g.ev[n]
        f = ordered(facts_at(g, n), rel(fc, T('idx', th, sattr('toggle')), '>='))
        one_ = norm_term(e.value) is add(sattr('toggle'), const(1))
        ok = one_ and entails(f, rel(fc, T('idx', th, sattr('toggle')), '>='))
        c.ob('thresholds passed', k.name, ok, e.where, f'the position becomes {show(norm_term(e.value))} under {[show(x) for x in fact_formulas(facts_at(g, n))]}')
    c.need('threshold steps', len(tg))
    nth, nav = T('call', 'len', None, (th,), (), None), N_
    tog = sattr('toggle')
    none_left = mk_or([rel(tog, nth, '>='), rel(fc, T('idx', th, tog), '<')])
    for kind, n, v, s in g.exits:
        if kind != 'return':
            continue
        t = nv(v)
        f = norm_facts(s.facts)
        okay = [x for x in fact_formulas(f) if 'allow_spawn' in show(x)]
        if t is FALSE and any(x.op == 'not' for x in okay):
            continue
        f = ordered(f, none_left, rel(tog, nav, '>='))
        c.ob('no reached threshold is left', k.name, entails(f, none_left), where, f'returns {show(t)} although another threshold may be reached')
        if t is FALSE:
            c.ob('spawning stops after the last entry', k.name, entails(f, rel(tog, nav, '>=')), where, 'False is returned before the last threshold')
        elif t is NONE:
            q = fits(T('idx', AV, tog), slots)
            c.ob('nothing only if it does not fit', k.name, not satisfiable(ordered(f, q), q), where, 'nothing is selected although the optimizer may fit')
        else:
            c.ob('entry of the stage', k.name, t is T('idx', AV, tog), where, f'returns {show(t)}')
            q = fits(t, slots)
            c.ob('selected optimizer fits', k.name, entails(ordered(f, q), q), where, f'{show(t)} is returned without knowing that it fits')
    g0 = c.graph(k, '__init__', inline='*')
    for kind, n, v, s in g0.exits:
        if kind == 'return':
            c.ob('chain starts at the first entry', k.name, final(s, 'toggle') is const(0), where, f'the chain starts at {show(final(s, "toggle") or NONE)}')
            ft = final(s, 'fcall_thresholds')
            c.ob('thresholds are the configured ones', k.name, ft is T('sym', 'fcall_thresholds'), where, f'the thresholds become {show(ft or NONE)}')


def whole(t):
    """(x[0], x[1], x[2]) is x for an entry of the options."""
    if t.op == 'tuple' and t.args and t.args[0].op == 'idx' and all(x is T('idx', t.args[0].args[0], const(i)) for i, x in enumerate(t.args)) and len(t.args) == 3:
        return t.args[0].args[0]
    return t


def rand(c, k):
    g = graph(c, k)
    where = f'{g.func.file}:{g.func.node.lineno}'
    slots = slots_of(g)
    nsel = 0
    sets = set()
    for kind, n, v, s in g.exits:
        if kind != 'return':
            continue
        t = v
        if t is FALSE:
            continue
        f = norm_facts(s.facts)
        if t is NONE:
            continue
        nsel += 1
        src = None
        if t.op == 'call' and t.args[0] in ('random.choice', 'choice') and len(t.args[2]) == 1:
            src = t.args[2][0]
        elif t.op == 'idx' and contains(t.args[1], lambda x: x.op == 'call' and x.args[0].split('.')[-1] in ('randint', 'randrange', 'choice', 'integers')):
            src = t.args[0]
        c.ob('chosen at random', k.name, src is not None, where, f'returns {show(norm_term(t))[:200]}')
        if src is not None:
            sets.add(src)
            c.ob('something is chosen only if something fits', k.name, not satisfiable(f, mk_not(truth(norm_term(src)))), where, 'the choice is made from an empty list')
    c.need('random choices', nsel)
    for src in sets:
        while src.op == 'call' and src.args[0] in ('list', 'tuple') and len(src.args[2]) == 1:
            src = src.args[2][0]
        if src.op == 'comp':
            el = [x for x in subterms(src) if x.op == 'elem' and norm_term(x.args[0]) is AV]
            ok = bool(el) and norm_term(src.args[2]) is AV and norm_term(src.args[1]) is norm_term(el[0]) and \
                norm_term(src.args[3]) is norm_term(fits(el[0], slots))
            c.ob('exactly those which fit', k.name, ok, where, f'the choice is among {show(norm_term(src))[:300]}')
            continue
        apps = N(g, lambda e: e.kind == 'call' and rv(e) is norm_term(src) and e.name == 'append')
        other = N(g, lambda e: e.kind == 'call' and rv(e) is norm_term(src) and e.name in ('remove', 'pop', 'clear', 'extend', 'insert'))
        c.ob('exactly those which fit', f'{k.name}: list', bool(apps) and not other, where, f'the list of candidates {show(norm_term(src))} is not filled entry by entry')
        sites = {s for s in enclosing(g, apps)}
        for site in sites:
            its, ends = iter_segments(g, site)
            for h in loops(g)[site]:
                c.ob('exactly those which fit', f'{k.name}: loop', nv(g.ev[h].target) is AV, g.ev[h].where, f'candidates are taken from {show(nv(g.ev[h].target))}')
            el = T('elem', AV, 0)

            def step(q, n, e):
                if e.kind == 'iter' and e.site == site:
                    return False
                if n in apps:
                    if whole(norm_term(e.args[0])) is not el or q:
                        return '!', 'something else than the entry is added'
                    w = fits(el, slots)
                    if not entails(ordered(facts_at(g, n), w), w):
                        return '!', 'an optimizer which may not fit is added to the candidates'
                    return True
                if e.kind == 'break' and e.site == site:
                    return '!', 'the search for candidates ends early'
                if e.kind == 'iterend' and e.site == site and not q:
                    w = fits(el, slots)
                    if satisfiable(ordered(facts_at(g, n), w), w):
                        return '!', 'an optimizer which fits is not a candidate'
                return q
            run_automaton(c, 'exactly those which fit', k.name, g, False, step)


def manager(c):
    k = c.cls('GloMPOManager')
    g = c.graph(k, '_setup_new_optimizer', inline=())
    where = f'{g.func.file}:{g.func.node.lineno}'
    sel = calls(g, 'select_optimizer')
    c.need('selector calls', len(sel))
    ans = nv(g.ev[sel[0]].value)
    isf = mk_or([T('is', ans, FALSE), T('eq', ans, FALSE)])
    offs = stores(g, 'spawning_opts')
    for n in offs:
        e = g.ev[n]
        f = facts_at(g, n)
        ok = norm_term(e.value) is FALSE and (f.get(T('is', ans, FALSE)) is True or f.get(T('eq', ans, FALSE)) is True)
        c.ob('spawning stops on False only', '_setup_new_optimizer', ok, e.where, f'the spawning flag becomes {show(norm_term(e.value))} under {[show(x) for x in fact_formulas(f)]}')
    c.need('spawning flag cleared', len(offs))
    for kind, n, v, s in g.exits:
        if kind != 'return':
            continue
        f = norm_facts(s.facts)
        started = nv(v) is not NONE
        val = final(s, 'spawning_opts')
        no = not satisfiable(f, truth(ans))
        c.ob('no start without a selection', '_setup_new_optimizer', started != no, where, f'returns {show(nv(v))[:100]} when the selector answered {"nothing" if no else "an optimizer"}')
        if no and val is not FALSE:
            fl = f.get(T('is', ans, FALSE)) is False or f.get(T('eq', ans, FALSE)) is False or f.get(T('is', ans, NONE)) is True
            c.ob('spawning stops on False', '_setup_new_optimizer', fl, where, 'the selector may have answered False without stopping the spawning')
    # nobody sets the flag again
    for name, f in sorted(k.methods.items()):
        for x in ast.walk(f.node):
            tgt = x.targets if isinstance(x, ast.Assign) else [x.target] if isinstance(x, (ast.AugAssign, ast.AnnAssign)) else []
            for t in tgt:
                for y in ast.walk(t):
                    if isinstance(y, ast.Attribute) and y.attr == 'spawning_opts' and isinstance(y.ctx, ast.Store):
                        ok = name in ('__init__', 'setup') or isinstance(getattr(x, 'value', None), ast.Constant) and x.value.value is False
                        c.ob('spawning is never switched on again', f'{name}', ok, f'{f.file}:{x.lineno}', f'{name} sets the spawning flag')
    # the selector is only asked while spawning is allowed
    g = c.graph(k, '_fill_optimizer_slots', inline={'_setup_new_optimizer'}, hold=())
    sel = calls(g, 'select_optimizer')
    c.need('selector calls from the filling of slots', len(sel))
    flag = truth(sattr('spawning_opts'))
    for n in sel:
        c.ob('selector is asked while spawning is on', '_fill_optimizer_slots', entails(facts_at(g, n), flag), g.ev[n].where, 'the selector is asked although spawning was stopped')
    for name, f in sorted(k.methods.items()):
        if name in ('_setup_new_optimizer', '_fill_optimizer_slots') or name not in vocab():
            continue
        for x in ast.walk(f.node):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('select_optimizer', '_setup_new_optimizer'):
                c.ob('selector is asked while spawning is on', name, False, f'{f.file}:{x.lineno}', f'{name} starts optimizers outside of the filling of slots')


def vocab():
    v = json.load(open(VERIF / 'sa' / 'vocab.json'))
    return {x.rsplit('.', 1)[-1] for x in v}


def controls(c):
    for name, attr, q in (('IterSpawnStop', 'max_calls', 'f_counter'), ('NOptimizersSpawnStop', 'max_opts', 'o_counter')):
        k = c.cls(name)
        g = c.graph(k, '__call__', inline='*')
        m = T('sym', g.func.node.args.args[1].arg)
        decision(c, 'spawn control', name, g, rel(T('attr', m, q), sattr(attr), '<'))
        g0 = c.graph(k, '__init__', inline='*')
        for kind, n, v, s in g0.exits:
            if kind == 'return':
                c.ob('limit is the configured one', name, final(s, attr) is T('sym', attr), g0.func.file, f'the limit becomes {show(final(s, attr) or NONE)}')
    g = c.graph('_AlwaysSpawn', '__call__', inline='*')
    for kind, n, v, s in g.exits:
        if kind == 'return':
            c.ob('spawn control', '_AlwaysSpawn', nv(v) is TRUE, g.func.file, f'the default spawn control returns {show(nv(v))}')
    g = c.graph('BaseSelector', '__init__', inline='*')
    for kind, n, v, s in g.exits:
        if kind == 'return':
            t = final(s, 'allow_spawn')
            f = norm_facts(s.facts)
            cal = truth(T('call', 'callable', None, (T('sym', 'allow_spawn'),), (), None))
            if entails(f, cal) is True and not satisfiable(f, mk_not(cal)):
                c.ob('configured spawn control is used', 'BaseSelector', t is T('sym', 'allow_spawn'), g.func.file, f'the spawn control becomes {show(t or NONE)}')
            elif t is T('sym', 'allow_spawn'):
                c.ob('configured spawn control is used', 'BaseSelector', not satisfiable(f, T('is', T('sym', 'allow_spawn'), NONE)), g.func.file, 'the spawn control may be missing')
