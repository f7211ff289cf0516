"""Decision tables and data provenance: for every bundled hunting criterion the truth value returned on each path is compared with the
documented comparison as a formula over log reads (which optimizer, which quantity, how many last evaluations), the remembered value
equals the returned one, constructors store their parameters, all with helpers inlined. ParameterDistance and StepSize are decided on
the structure of their loops (set compared with, own identity excluded, threshold)."""
from sa.core import *
from sa.terms import FLIP, _mkey, div, from_poly, mul, neg, add

ASSUMPTIONS = ['tol, calls, n_iters are positive as documented', 'compared quantities are not nan']
OPQ = ('distance', 'get_history', 'len', 'get_best_iter', 'get_metadata', 'n_optimizers')
RAND = T('sym', '$rand')


def _hist(t):
    return t.op == 'call' and t.args[0] == 'get_history'


def nf(x):
    """One step of the normal form."""
    o, a = x.op, x.args
    if o == 'call':
        name, recv, args, kw, site = a
        mod = recv.args[0] if recv is not None and recv.op in ('ext', 'module') else None
        full = name if recv is None else f'{mod}.{name}' if mod else None
        if recv is None or mod:
            base = name.split('.')[-1]
            if base in ('array', 'asarray', 'list', 'tuple', 'float') and len(args) == 1:
                return args[0]
            if base in ('absolute', 'fabs', 'abs') and len(args) == 1:
                return absval(args[0])
            if base == 'uniform' and len(args) == 2:
                return add(args[0], mul(sub(args[1], args[0]), RAND))
            if base in ('random', 'rand', 'random_sample') and not args:
                return RAND
            if base == 'len' and len(args) == 1 and _hist(args[0]):
                return T('call', 'len', args[0].args[1], (args[0].args[2][0],), (), None)
            if base in ('amin', 'nanmin') and len(args) == 1:
                return T('call', 'min', None, args, (), None)
            if base == 'min' and len(args) == 1:
                return T('call', 'min', None, args, (), None)
            if base in ('std', 'mean', 'exp', 'log', 'isfinite', 'any', 'all', 'isnan', 'isinf'):
                return T('call', base, None, args, kw, None)
        elif name in ('any', 'all', 'mean', 'std', 'min') and not args:
            return T('call', name, None, (recv,), (), None)
        elif _hist(x) and name == 'get_history' and kw:
            return T('call', name, recv, tuple(args) + tuple(v for _, v in kw), (), None)
    if o in ('list', 'tuple') and len(a) == 1 and a[0].op == 'star':
        return a[0].args[0]
    if o == 'slice' and len(a) == 4 and a[3] is not NONE and a[3].op == 'const' and a[3].args[0] == 1:
        return T('slice', a[0], a[1], a[2], NONE)
    if o == 'truth':
        return finite(a[0], True)
    if o == 'not' and a[0].op == 'not':
        return a[0].args[0]
    if o == 'exists':
        return x
    if o == 'rel':
        return relnf(x)
    return x


def finite(t, pos):
    """any(isfinite(X)) in one form."""
    if t.op == 'call' and t.args[1] is None and len(t.args[2]) == 1:
        n, y = t.args[0], t.args[2][0]
        if y.op in ('invert', 'not') or y.op == 'call' and y.args[0].endswith(('logical_not', 'invert')):
            z = y.args[0] if y.op in ('invert', 'not') else y.args[2][0]
            if n == 'all':
                return mk_not(T('truth', T('call', 'any', None, (z,), (), None)))
            if n == 'any':
                return mk_not(T('truth', T('call', 'all', None, (z,), (), None)))
    return T('truth', t)


def absval(t):
    """abs of a polynomial: canonical sign; monomials are split into factors."""
    p = dict(t.args) if t.op == 'poly' else None
    if is_num(t):
        return const(abs(t.args[0]))
    if p is None:
        return t if nonneg(t) else T('call', 'abs', None, (t,), (), None)
    neg_ = {}
    for m, c in p.items():
        for x, e in m:
            if e < 0:
                neg_[x] = min(neg_.get(x, 0), e)
    if neg_:
        q = t
        out = const(1)
        for x, e in neg_.items():
            for _ in range(-e):
                q = mul(q, x)
                out = div(out, absval(x))
        return mul(absval(q), out)
    if len(p) == 1:
        (m, c), = p.items()
        out = const(abs(c) if abs(c).denominator != 1 else int(abs(c)))
        for x, e in m:
            for _ in range(abs(e)):
                out = mul(out, absval(x)) if e > 0 else div(out, absval(x))
        return out
    lead = sorted(p, key=_mkey)[0]
    if p[lead] < 0:
        t = from_poly({m: -c for m, c in p.items()})
    return T('call', 'abs', None, (t,), (), None)


def nonneg(t):
    return t.op == 'attr' and t.args[1] in ('tol', 'relative_distance', 'trans_space_dist', 'crit_ratio') or \
        t.op == 'call' and t.args[0] in ('abs', 'len', 'exp', 'std') or t is RAND


def relnf(x):
    p, c, S = x.args
    if p.op == 'poly':
        d = dict(p.args)
        # positive denominators
        den = {}
        for m in d:
            for y, e in m:
                if e < 0 and nonneg(y):
                    den[y] = min(den.get(y, 0), e)
        if den:
            a, b = p, const(c)
            for y, e in den.items():
                for _ in range(-e):
                    a, b = mul(a, y), mul(b, y)
            return rel(a, b, S) if not isinstance(S, str) else x
        # length of the last n entries against n
        for m, v in list(d.items()):
            if len(m) == 1 and m[0][1] == 1:
                y = m[0][0]
                if y.op == 'call' and y.args[0] == 'len' and y.args[1] is None and y.args[2][0].op == 'slice':
                    s = y.args[2][0]
                    n = neg(s.args[1]) if s.args[1] is not NONE else None
                    if n is not None and s.args[2] is NONE and sub(mul(const(v), sub(y, n)), sub(p, const(c))) is const(0):
                        S1 = S - {'U'} if v > 0 else frozenset(FLIP[q] for q in S - {'U'})
                        new = {frozenset('EG'): '>=', frozenset('E'): '>=', frozenset('L'): '<', frozenset('LG'): '<'}.get(frozenset(S1))
                        if new:
                            base = s.args[0]
                            ln = T('call', 'len', base.args[1], (base.args[2][0],), (), None) if _hist(base) else \
                                T('call', 'len', None, (base,), (), None)
                            return rel(ln, n, new)
    return x


def norm(t):
    for _ in range(4):
        t2 = rebuild(t, nf)
        if t2 is t:
            return t
        t = t2
    return t


def normed(facts):
    out = {}
    for f in fact_formulas(norm_facts(facts)):
        r = assume(norm(f), True, out)
        out = r[0] if r else out
    return out


SPEC = {
    'BestUnmoving': ("log.len(victim) > self.calls and abs(min(log.get_history(victim, 'fx')) - min(log.get_history(victim, 'fx')[:-self.calls])) "
                     "<= abs(min(log.get_history(victim, 'fx')[:-self.calls]) * self.tol)", ['calls', 'tol']),
    'EvaluationsUnmoving': ("log.len(victim) >= self.calls and np.std(log.get_history(victim, 'fx')[-self.calls:]) "
                            "<= abs(log.get_history(victim, 'fx')[-1] * self.tol)", ['calls', 'tol']),
    'LastPointsInvalid': ("log.len(victim) >= self.n_iters and not np.any(np.isfinite(log.get_history(victim, 'fx')[-self.n_iters:]))", ['n_iters']),
    'MinFuncCalls': ('log.len(victim) >= self.min_pts', ['min_pts']),
    'StepSize': (None, ['calls', ('tol', 'relative_tol')]),
    'ParameterDistance': (None, ['relative_distance', 'test_all']),
    'TimeAnnealing': ('random.uniform(0, self.crit_ratio) > log.len(hunter) / log.len(victim)', ['crit_ratio']),
    'TypeHunter': ("self.opt_to_kill == log.get_metadata(victim, 'opt_type')", []),
    'ValueAnnealing': ("log.get_best_iter(hunter)['fx'] != 0 and log.get_best_iter(victim)['fx'] > log.get_best_iter(hunter)['fx'] and "
                       "np.random.uniform(0, 1) > np.exp(abs((log.get_best_iter(hunter)['fx'] - log.get_best_iter(victim)['fx']) / "
                       "log.get_best_iter(hunter)['fx']) * self.strictness)", ['med_kill_chance']),
}


def check(c):
    n = 0
    for name, (text, params) in SPEC.items():
        k = c.cls(name)
        pd = name == 'ParameterDistance'
        g = c.graph(k, '__call__', inline='*', exc='try' if pd else 'none', opaque=OPQ, idx_exc=pd)
        ar = [a.arg for a in g.func.node.args.args]
        if len(ar) != 4:
            raise AnalysisBroken(f'{name}.__call__ has other parameters')
        log, hunter, victim = (T('sym', a) for a in ar[1:])
        b = {'log': log, 'hunter': hunter, 'victim': victim}
        n += 1
        where = f'{g.func.file}:{g.func.node.lineno}'
        if text:
            spec = norm(c.formula(text, k, b))
            for kind, nd, v, s in g.exits:
                if kind != 'return':
                    continue
                f = normed(s.facts)
                val = norm(truth(nv(v)))
                f = ordered(f, val, spec)
                c.ob('documented comparison', name, entails(f, iff(val, spec)), where,
                     f'returns {show(val)} under {", ".join(show(x) for x in fact_formulas(f))[:400] or "no condition"}; documented: {show(spec)}')
        for kind, nd, v, s in g.exits:
            if kind != 'return':
                continue
            r = final(s, '_last_result')
            c.ob('answer remembered', name, r is not None and entails(norm_facts(s.facts), iff(truth(r), truth(nv(v)))), where,
                 f'returns {show(nv(v))} but remembers {show(r) if r is not None else "nothing"}')
        # a criterion may not raise when the victim is too young
        ig = c.graph(k, '__init__', inline='*', opaque=OPQ)
        for kind, nd, v, s in ig.exits:
            if kind != 'return':
                continue
            for p in params:
                at, arg = p if isinstance(p, tuple) else (p, p)
                c.ob('constructor stores parameter', f'{name}.{at}', final(s, at) is T('sym', arg), ig.func.file,
                     f'{name} stores {show(final(s, at)) if final(s, at) is not None else "nothing"} as {at}')
            if name in ('StepSize', 'ParameterDistance'):
                t = final(s, 'trans_space_dist')
                if t is None:
                    # only missing when the bounds were refused
                    c.ob('largest distance', name, any(contains(x, lambda y: y.op == 'call' and y.args[0] == 'is_bounds_valid')
                                                       for x in fact_formulas(s.facts)), ig.func.file, 'the largest distance is never stored')
                else:
                    ok = t.op == 'call' and t.args[0] == 'distance' and len(t.args[2]) == 2 and \
                        all(contains(y, lambda q: q.op == 'sym' and q.args[0] == 'bounds') for y in t.args[2]) and t.args[2][0] is not t.args[2][1]
                    c.ob('largest distance', name, ok, ig.func.file,
                         f'the largest distance is {show(t)}, not the distance between lower and upper bounds')
            if name == 'TypeHunter':
                t = final(s, 'opt_to_kill')
                c.ob('constructor stores parameter', 'TypeHunter.opt_to_kill', t is T('attr', T('sym', 'opt_to_kill'), '__name__'),
                     ig.func.file, f'the targeted type is stored as {show(t) if t is not None else "nothing"}')
            if name == 'ValueAnnealing':
                t = final(s, 'strictness')
                ok = t is not None and norm(t) is norm(c.expr('np.log(med_kill_chance)', k))
                c.ob('constructor stores parameter', 'ValueAnnealing.strictness', ok, ig.func.file,
                     f'strictness is {show(t) if t is not None else "nothing"}')
        if name == 'StepSize':
            step_size(c, g, k, b, where)
        if pd:
            parameter_distance(c, g, k, b, where)
    c.need('hunting criteria', n, 9)
    others = [k.name for k in c.p.subclasses(c.cls('BaseHunter')) if k.name not in SPEC and not k.name.startswith('_')]
    c.count('other hunting criteria (not bundled when specified)', len(others))
    # writer of the type read by TypeHunter
    m = c.graph('GloMPOManager', '_setup_new_optimizer')
    put = N(m, lambda e: e.kind == 'call' and e.name == 'add_optimizer')
    c.ob('type recorded', '_setup_new_optimizer', put and all('__name__' in show(av(m.ev[x], 1, 'opt_type') or NONE) for x in put), m.func.file,
         'the name of the class of an optimizer is not recorded in the log when it is created')


def step_size(c, g, k, b, where):
    H = norm(c.expr("log.get_history(victim, 'x')", k, b))
    enough = norm(c.formula('log.len(victim) >= self.calls', k, b))
    last = norm(c.expr("log.get_history(victim, 'x')[-self.calls:]", k, b))
    for kind, nd, v, s in g.exits:
        if kind != 'return':
            continue
        f = normed(s.facts)
        val = norm(truth(nv(v)))
        young = satisfiable(f, mk_not(enough))
        if young:
            h = assume(enough, False, f)
            c.ob('spares young optimizers', 'StepSize', all(entails(ordered(x, val), mk_not(val)) for x in h), where,
                 f'returns {show(val)} for a victim with fewer evaluations than calls')
        if satisfiable(f, enough):
            lim = norm(c.expr('self.tol * self.trans_space_dist', k, b))
            ok = val.op == 'rel'
            msg = f'returns {show(val)} with enough evaluations'
            if ok:
                p = sub(val.args[0], const(val.args[1]))
                m = [x for x in subterms(p) if x.op == 'call' and x.args[0] == 'mean']
                S = val.args[2] - {'U'}
                ok = len(m) == 1 and (rel(m[0], lim, '<=').args[0] is val.args[0]) and S == rel(m[0], lim, '<=').args[2]
                if ok:
                    src = m[0]
                    reads = {x for x in subterms(src) if x.op == 'call' and x.args[0] == 'get_history'}
                    pts = [x for x in subterms(src) if x is last]
                    ok = reads == {H} and bool(pts) and contains(src, lambda y: y.op == 'func' and str(y.args[0]).endswith('distance') or
                                                                 y.op == 'call' and y.args[0] == 'distance')
                    msg += f': {show(src)} is not the mean distance between consecutive ones of the last `calls` points of the victim'
                    # consecutive points: the same sequence with and without its first / last entry
                    if ok and contains(src, lambda y: y.op == 'call' and y.args[0] == 'map'):
                        seqs = {y for y in subterms(src) if y.op == 'slice' and y.args[0] is last}
                        want = {norm(c.expr("log.get_history(victim, 'x')[-self.calls:][1:]", k, b)),
                                norm(c.expr("log.get_history(victim, 'x')[-self.calls:][:-1]", k, b))}
                        ok = bool(seqs) and seqs <= want and (len(seqs) == 2 or contains(src, lambda y: y.op == 'call' and y.args[0] == 'map' and last in y.args[2]))
            c.ob('documented comparison', 'StepSize', ok, where, msg + f'; documented: mean step <= {show(lim)}')


def parameter_distance(c, g, k, b, where):
    hunter, victim = b['hunter'], b['victim']
    n = norm(c.expr('log.n_optimizers', k, b))
    D = N(g, lambda e: e.kind == 'call' and e.name == 'distance')
    c.need('distance comparisons', len(D))
    ta = c.formula('self.test_all', k, b)
    seen = {True: False, False: False}
    for d in D:
        e = g.ev[d]
        f = facts_at(g, d)
        ids = []
        for a in e.args:
            hs = [x for x in subterms(norm(norm_term(a))) if x.op == 'call' and x.args[0] == 'get_history']
            ok = len(hs) == 1 and norm(norm_term(a)) is T('idx', hs[0], const(-1)) and hs[0].args[2][1] is const('x')
            c.ob('compares last points', 'ParameterDistance', ok, e.where, f'{show(a)} is not the last vector of an optimizer')
            ids.append(hs[0].args[2][0] if hs else None)
        c.ob('victim is compared', 'ParameterDistance', victim in ids, e.where, 'the victim is not part of the comparison')
        oth = [x for x in ids if x is not victim and x is not None]
        if len(oth) != 1:
            c.ob('victim is compared with others', 'ParameterDistance', False, e.where, f'compares optimizers {ids}')
            continue
        o = oth[0]
        c.ob('never compared with itself', 'ParameterDistance', entails(f, rel(o, victim, '!=')), e.where,
             'the victim may be compared with itself')
        for val in (True, False):
            for h in assume(ta, val, f):
                seen[val] = True
                if val:
                    it = o.args[0] if o.op == 'elem' else None
                    rng = it is not None and it.op == 'call' and it.args[0] == 'range' and \
                        tuple(norm(y) for y in it.args[2]) == (const(1), add(const(1), n))
                    c.ob('set compared with', 'ParameterDistance test_all', rng, e.where,
                         f'with test_all optimizers {show(it) if it else show(o)} are compared instead of 1..n_optimizers')
                else:
                    isel = o is hunter or o.op == 'elem' and o.args[0].op in ('list', 'tuple', 'set') and set(o.args[0].args) == {hunter}
                    c.ob('set compared with', 'ParameterDistance hunter', isel, e.where, f'compared with {show(o)} instead of the hunter')
    for val in (True, False):
        c.ob('set compared with', f'ParameterDistance test_all={val}', seen[val], where, f'nothing is compared with test_all={val}')
    lim = T('attr', T('sym', 'self'), 'relative_distance')
    size = T('attr', T('sym', 'self'), 'trans_space_dist')

    def threshold(x):
        """The comparison of a distance with the limit, at most, in any arrangement."""
        x = norm(x)
        if x.op == 'not':
            x = mk_not(x.args[0])
        ds = [y for y in subterms(x) if y.op == 'call' and y.args[0] == 'distance']
        if len(ds) != 1 or x.op != 'rel':
            return None
        want = norm(rel(div(ds[0], size), lim, '<='))
        x = ordered_rel(x)
        if x is ordered_rel(want):
            return True
        if x is ordered_rel(mk_not(want)):
            return False
        return None

    def ordered_rel(r):
        return T('rel', r.args[0], r.args[1], r.args[2] - {'U'})

    def satisfied(g, x):
        return any(threshold(f) is True for f in fact_formulas(facts_at(g, x)) if contains(f, lambda y: y.op == 'call' and y.args[0] == 'distance'))

    for kind, nd, v, s in g.exits:
        if kind != 'return':
            continue
        val = norm(truth(nv(v)))
        fs = [f for f in fact_formulas(norm_facts(s.facts)) if contains(f, lambda y: y.op == 'call' and y.args[0] == 'distance')]
        if val is FALSE and satisfiable(norm_facts(s.facts), ta):
            brk = [x for x in N(g, kind='break') if g.path([x], [nd]) and not satisfied(g, x)]
            c.ob('all are compared', 'ParameterDistance', not brk, where, 'the search ends before all optimizers were compared')
        if val is FALSE:
            c.ob('documented comparison', 'ParameterDistance negative', not any(threshold(f) is True for f in fs), where,
                 'returns false although a distance is at most the limit')
        else:
            t = threshold(val) if val is not TRUE else any(threshold(f) is True for f in fs)
            c.ob('documented comparison', 'ParameterDistance positive', bool(t), where,
                 f'returns {show(val)} where distance <= relative_distance * largest distance is documented')
            # a value which may be false must not end the search
            if val is not TRUE and t:
                c.ob('all are compared', 'ParameterDistance', entails(ordered(normed(s.facts), val), val) or not satisfiable(norm_facts(s.facts), ta),
                     where, 'the search ends at the first optimizer that is far enough away')
    # an optimizer without evaluations is passed over, not fatal: its last vector is read under a test that it has some, or where the
    # IndexError is handled
    caught = N(g, lambda e: e.kind == 'exc' and e.name == 'idx')
    handler = N(g, lambda e: e.kind == 'catch' and e.name in ('IndexError', 'LookupError', 'Exception', 'BaseException'))
    escapes = [n for n in caught if not g.reach([n], blocked=[]) & set(handler)]
    for d in D:
        f = facts_at(g, d)
        ok = bool(caught) and not escapes
        for a in g.ev[d].args:
            for x in subterms(norm_term(a)):
                if x.op == 'call' and x.args[0] == 'get_history' and x.args[2][0] is not victim:
                    n_ = T('call', 'len', x.args[1], (x.args[2][0],), (), None)
                    ok = ok or entails(f, truth(x)) or entails(ordered(f, rel(n_, const(0), '>')), rel(n_, const(0), '>'))
        c.ob('optimizers without evaluations are passed over', 'ParameterDistance', ok, g.ev[d].where,
             'an optimizer without evaluations raises out of the criterion')
