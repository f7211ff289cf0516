"""Every value returned by the generate method of every bundled generator is shown to be a point within the bounds by an inference over the
returned expression: uniform draws and blending weights are variables between 0 and 1, the expression is expanded to a polynomial, and at
every vertex of these variables it must be a convex combination of the bounds and of points known to be within them (previous points of
the log, the result, points given by the user). Clipping to the bounds and truncated draws are evaluated by their limits. A vector taken
from a record of the log is a point only where the path or the selection establishes that the record has a valid value, because it is
empty otherwise. Attributes stand for what the constructor stored in them. The manager hands the generated point on unchanged."""
from itertools import product

from sa.core import *
from sa.terms import from_poly, mul, to_poly

TECHNIQUE = 'interval inference: multilinear vertex check of the returned expressions over symbolic draws, guarded use of recorded points'
ASSUMPTIONS = ['points given to a generator by the user and evaluated points lie within the bounds', 'numpy and scipy draws have their documented support',
               'scipy dual annealing keeps its current location within the bounds it was given',
               'exp(-inf) is less than a uniform random number']
WRAP = {'numpy.array', 'list', 'tuple', 'copy', 'copy.copy', 'copy.deepcopy', 'numpy.copy', 'tolist', 'astype', 'numpy.squeeze', 'numpy.ravel', 'flatten'}
DRAW = {'numpy.random.random', 'numpy.random.rand', 'numpy.random.random_sample', 'numpy.random.sample', 'numpy.random.ranf'}
DRAW_M = {'random', 'rand', 'random_sample'}
INF = const(float('inf'))
ALLS = T('sliceobj', NONE, NONE, NONE)


def unwrap(t):
    while t.op == 'call' and t.args[0] in WRAP:
        if t.args[1] is not None and t.args[0] in ('copy', 'tolist', 'astype', 'flatten'):
            t = t.args[1]
        elif t.args[2]:
            t = t.args[2][0]
        else:
            break
    if t.op in ('list', 'tuple') and len(t.args) == 1 and t.args[0].op == 'star':
        return unwrap(t.args[0].args[0])
    return t


class Geo:
    def __init__(self, c, k):
        self.c, self.k = c, k
        self.vals, self.seen = {}, set()
        self.why = ''
        g = c.graph(k, '__init__', inline='*')
        self.g0 = g
        self.params = [a.arg for a in g.func.node.args.args[1:]]
        for n in stores(g):
            e = g.ev[n]
            if rv(e) is T('sym', 'self'):
                self.vals.setdefault(e.name, []).append((e.value, n))
        for a in self.vals:
            u = {}
            for v, n in self.vals[a]:
                u.setdefault(v, n)
            self.vals[a] = list(u.items())

    def attr(self, t):
        """Values of an attribute of self."""
        if t.op == 'attr' and t.args[0] is T('sym', 'self') and t.args[1] in self.vals:
            return self.vals[t.args[1]]
        return None

    # ---------------------------------------------------------------- bounds
    def array(self, t):
        """n x 2 array of bounds."""
        t = unwrap(t)
        if t is T('sym', 'bounds') or t.op == 'attr' and t.args[1] == 'bounds' and t.args[0].op == 'sym' and t.args[0].args[0] != 'self':
            return True
        v = self.attr(t)
        return bool(v) and all(self.array(x) for x, _ in v)

    def turned(self, t):
        t = unwrap(t)
        if t.op == 'attr' and t.args[1] == 'T':
            return self.array(t.args[0])
        if t.op == 'call' and t.args[0] in ('numpy.transpose', 'transpose'):
            return self.array(t.args[2][0] if t.args[2] else t.args[1])
        if t.op == 'call' and t.args[0] == 'zip' and len(t.args[2]) == 1 and t.args[2][0].op == 'star':
            return self.array(t.args[2][0].args[0])
        v = self.attr(t)
        return bool(v) and all(self.turned(x) for x, _ in v)

    def bound(self, t, depth=0):
        """('LB' | 'UB', index)"""
        t = unwrap(t)
        if t.op == 'idx':
            b, i = t.args
            if i.op == 'tuple' and len(i.args) == 2 and is_const(i.args[1]) and i.args[1].args[0] in (0, 1, -1, -2) and self.array(b):
                r = 'LB' if i.args[1].args[0] in (0, -2) else 'UB'
                return (r, None) if i.args[0] is ALLS else (r, i.args[0])
            if is_const(i) and i.args[0] in (0, 1, -1, -2):
                r = 'LB' if i.args[0] in (0, -2) else 'UB'
                if self.turned(b):
                    return r, None
                if b.op == 'idx' and self.array(b.args[0]):
                    return r, b.args[1]
                if b.op == 'elem' and self.array(b.args[0]):
                    return r, T('elem', T('pos'), 0)
            x = self.bound(b, depth + 1) if depth < 4 else None
            if x and x[1] is None:
                return x[0], i
        if t.op == 'elem':
            x = self.bound(t.args[0], depth + 1) if depth < 4 else None
            if x and x[1] is None:
                return x[0], T('elem', T('pos'), t.args[1])
        v = self.attr(t)
        if v:
            r = {self.bound(x, depth + 1) for x, _ in v} if depth < 4 else {None}
            if len(r) == 1:
                return r.pop()
        if t.op == 'comp' and t.args[0] == 'list' and t.args[3] is TRUE and depth < 4:
            x = self.bound(t.args[1], depth + 1)
            if x and self.array(t.args[2]):
                return x[0], None
        return None

    # ---------------------------------------------------------------- numbers between 0 and 1
    def draw(self, t):
        return t.op == 'call' and (t.args[0] in DRAW and t.args[1] is None or t.args[0] in DRAW_M and t.args[1] is not None)

    def unit(self, t):
        t = unwrap(t)
        if self.draw(t):
            return True
        if t.op == 'bin' and t.args[0] == 'Pow':
            return self.unit(t.args[1]) and self.positive(t.args[2])
        a = self.limits(t)
        if a:
            x, lo, hi = a
            return (lo is not None and norm_term(lo) is const(0) or self.nonneg(x)) and hi is not None and norm_term(hi) is const(1)
        if t.op == 'const':
            return isinstance(t.args[0], (int, float)) and 0 <= t.args[0] <= 1
        return t.op == 'call' and t.args[0] in ('numpy.random.beta',)

    def limits(self, t):
        """(x, lo, hi) when t is x limited to [lo, hi]."""
        if t.op == 'call' and t.args[0] == 'numpy.clip' or t.op == 'call' and t.args[0] == 'clip' and t.args[1] is not None:
            a = ([t.args[1]] if t.args[0] == 'clip' else []) + list(t.args[2])
            kw = dict(t.args[3])
            if len(a) == 2 and a[1].op == 'star':
                s = a[1].args[0]
                if self.turned(s):
                    return a[0], T('idx', s, const(0)), T('idx', s, const(1))
                return None
            lo = a[1] if len(a) > 1 else kw.get('a_min', kw.get('min'))
            hi = a[2] if len(a) > 2 else kw.get('a_max', kw.get('max'))
            return (a[0], lo, hi) if a and lo is not None and hi is not None else None

        def two(x, names):
            if x.op == 'call' and x.args[0] in names:
                a = list(x.args[2])
                if len(a) == 1 and a[0].op in ('list', 'tuple'):
                    a = list(a[0].args)
                return a if len(a) == 2 else None
            return None
        MIN, MAX = ('min', 'numpy.minimum'), ('max', 'numpy.maximum')
        for o, i, flip in ((MIN, MAX, False), (MAX, MIN, True)):
            a = two(t, o)
            if a:
                for x, y in (a, a[::-1]):
                    b = two(x, i)
                    if b:
                        for u, v in (b, b[::-1]):
                            if is_const(v) or self.bound(v):
                                return (u, y, v) if flip else (u, v, y)
                if not flip:
                    for x, y in (a, a[::-1]):
                        if is_const(y):
                            return x, None, y
        return None

    def nonneg(self, x):
        p = to_poly(x)
        return bool(p) and all(c > 0 and all(a.op == 'attr' and (a.args[1].endswith('counter') or self.positive(a) or a.args[1].startswith('max_')) or self.draw(a)
                                             for a, e in m) for m, c in p.items())

    def positive(self, t):
        """The constructor only accepts positive values for the attribute."""
        if is_const(t):
            return isinstance(t.args[0], (int, float)) and t.args[0] > 0
        v = self.attr(t)
        if not v:
            return False
        for x, _ in v:
            for kind, n, r, s in self.g0.exits:
                if kind == 'return':
                    f = norm_facts(s.facts)
                    q = rel(norm_term(x), const(0), '>')
                    if not entails(ordered(f, q), q):
                        return False
        return True

    # ---------------------------------------------------------------- points
    def record(self, t, facts):
        """t is the vector of a record of the log."""
        t = unwrap(t)
        if t.op == 'idx' and t.args[1] is const('x'):
            r = t.args[0]
            key = None
            if r.op == 'attr' and r.args[1] == '_best_iter':
                key = ()
            elif r.op == 'idx' and r.args[0].op == 'attr' and r.args[0].args[1] == '_best_iters':
                key = (r.args[1],)
            elif r.op == 'call' and r.args[0] == 'get_best_iter':
                key = tuple(r.args[2])
            if key is None:
                return None
            return True if self.valid(r, key, facts) else False
        if t.op == 'attr' and t.args[1] == 'x' and t.args[0].op == 'attr' and t.args[0].args[1] == 'result':
            nt = norm_term(t)
            fx = T('attr', nt.args[0], 'fx')
            ok = not satisfiable(facts, mk_not(truth(nt))) or not satisfiable(facts, T('is', nt, NONE)) and \
                not satisfiable(facts, rel(T('call', 'len', None, (nt,), (), None), const(0), '==')) or \
                not satisfiable(facts, mk_not(truth(T('call', 'numpy.isfinite', None, (fx,), (), None))))
            return bool(ok)
        return None

    def valid(self, r, key, facts):
        r = norm_term(r)
        fx = T('idx', r, const('fx'))
        x = T('idx', r, const('x'))
        if not satisfiable(facts, T('eq', fx, INF)) or not satisfiable(facts, rel(fx, INF, '==')) or not satisfiable(facts, mk_not(truth(x))):
            return True
        if not satisfiable(facts, mk_not(truth(T('call', 'numpy.isfinite', None, (fx,), (), None)))):
            return True
        for f in fact_formulas(facts):
            if f.op == 'rel':
                p = to_poly(f.args[0])
                for m, c in p.items():
                    if m == ((fx, 1),) and f.args[2] <= (frozenset('L') if c > 0 else frozenset('G')):
                        return True
            # Metropolis: exp(-(fx - best)) >= random is never true of an infinite value
            if f.op == 'rel' and f.args[2] <= frozenset('EG') and any(y.op == 'call' and y.args[0] == 'numpy.exp' and self.falling(y, fx) for y in subterms(f)):
                return True
        for q in key:
            if any(y.op == 'call' and y.args[0] in ('numpy.isfinite', 'math.isfinite', 'isfinite') and 'fx' in show(y) for y in subterms(norm_term(q))):
                return True
            for y in subterms(norm_term(q)):
                if y.op == 'comp' and y.args[3] is not TRUE and 'fx' in show(y.args[3]):
                    return True
        return False

    @staticmethod
    def falling(y, fx):
        """exp(.. - fx ..)"""
        for z in subterms(y):
            if z.op == 'poly' or z.op == 'idx':
                for m, c in to_poly(z).items():
                    if any(a is fx for a, e in m):
                        return c < 0
        return False

    def atom(self, t, facts):
        """Key of a term which is a point (or an entry of one), None when it is unknown."""
        t = unwrap(t)
        b = self.bound(t)
        if b:
            return b
        if t.op == 'idx':
            a = self.atom(t.args[0], facts)
            if a and a[1] is None:
                return a[0], t.args[1]
        if t.op == 'elem':
            a = self.atom(t.args[0], facts)
            if a and a[1] is None:
                return a[0], T('elem', T('pos'), t.args[1])
        r = self.record(t, facts)
        if r is False:
            self.why = f'{show(norm_term(t))} is empty while the record has no valid value'
        if r:
            return norm_term(t), None
        if t.op == 'sym' and t.args[0] in self.params and t.args[0].startswith('x'):
            return t, None
        v = self.attr(t)
        if v and norm_term(t) not in self.seen:
            self.seen.add(norm_term(t))
            try:
                ok = all(self.inside(x, norm_facts(self.g0.st[n].facts) if self.g0.st[n] is not None else {}) for x, n in v)
            finally:
                self.seen.discard(norm_term(t))
            if ok:
                return norm_term(t), None
        if t.op == 'attr' and t.args[1] == 'current_location':
            w = self.attr(t.args[0]) or []
            if w and all(x.op == 'call' and x.args[0].endswith('EnergyState') and len(x.args[2]) > 1 and (self.bound(x.args[2][0]) or '0')[0] == 'LB' and
                         (self.bound(x.args[2][1]) or '0')[0] == 'UB' for x, _ in w):
                return norm_term(t), None
        return None

    def inside(self, t, facts):
        t = unwrap(t)
        if t.op == 'call' and (t.args[0] in ('numpy.random.uniform', 'random.uniform') or t.args[0] == 'uniform' and t.args[1] is not None):
            t = self.expand(t)
        a = self.limits(t)
        if a and a[1] is not None:
            for x in subterms(a[0]):
                if self.record(x, facts) is False:
                    self.why = f'{show(norm_term(x))} is empty while the record has no valid value'
                    return False
            lo, hi = self.bound(a[1]), self.bound(a[2])
            if lo and hi and lo[0] == 'LB' and hi[0] == 'UB' and lo[1] == hi[1]:
                return True
        if t.op == 'call' and t.args[0].endswith('truncnorm.rvs'):
            kw = dict(t.args[3])
            p = list(t.args[2]) + [None] * 4
            lo, hi = p[0] or kw.get('a'), p[1] or kw.get('b')
            mu, sg = p[2] or kw.get('loc', const(0)), p[3] or kw.get('scale', const(1))
            if lo is None or hi is None:
                return False
            L = self.poly(add(mu, mul(lo, sg)), facts) and self.index
            U = self.poly(add(mu, mul(hi, sg)), facts) and self.index
            if L and U and L != U:
                self.why = 'entries of different parameters are mixed'
            return bool(L and U and L == U)
        if t.op == 'call' and t.args[0] == 'numpy.where' and len(t.args[2]) == 3:
            return all(self.inside(x, facts) for x in t.args[2][1:])
        if t.op == 'comp' and t.args[0] in ('list', 'gen', 'tuple') and t.args[3] is TRUE:
            return self.inside(t.args[1], facts)
        return self.poly(t, facts)

    def expand(self, t):
        """uniform(a, b) = a + u (b - a)"""
        kw = dict(t.args[3])
        p = list(t.args[2])
        lo = p[0] if p else kw.get('low', const(0))
        hi = p[1] if len(p) > 1 else kw.get('high', const(1))
        u = T('call', 'random', T('sym', 'draw'), tuple(p[2:]), (), t.args[4])
        return add(lo, mul(u, sub(hi, lo)))

    def poly(self, t, facts):
        t = rebuild(t, lambda x: self.expand(x) if x.op == 'call' and x.args[0] in ('numpy.random.uniform', 'random.uniform') else x)
        # attributes which are neither bounds nor points nor weights stand for their value
        for _ in range(4):
            sub_ = {}
            for m, co in to_poly(t).items():
                for a, e in m:
                    v = self.attr(a)
                    if v and len(v) == 1 and not self.bound(a) and not self.unit(a) and v[0][0].op not in ('sym', 'const') and not self.atom(a, facts):
                        sub_[a] = v[0][0]
            if not sub_:
                break
            r = const(0)
            for m, co in to_poly(t).items():
                x = const(co)
                for a, e in m:
                    x = mul(x, sub_[a]) if e == 1 and a in sub_ else mul(x, from_poly({((a, e),): 1}))
                r = add(r, x)
            t = r
        self.why = ''
        p = to_poly(t)
        units, index = [], set()
        rows = []
        for m, co in p.items():
            us, pt = [], None
            for a, e in m:
                if self.unit(a) and e == 1:
                    us.append(a)
                    continue
                k = self.atom(a, facts) if e == 1 else None
                if k is None or pt is not None:
                    self.why = self.why or f'nothing is known about the limits of {show(norm_term(a))}'
                    return False
                pt = k
            if pt is None:
                self.why = self.why or 'a term does not depend on the bounds or a known point'
                return False
            index.add(pt[1])
            rows.append((us, pt, co))
            units += [u for u in us if u not in units]
        if not rows:
            self.why = 'the point does not depend on the bounds'
            return False
        index = {norm_term(i) if i is not None else None for i in index}
        if len(index) > 1:
            self.why = 'entries of different parameters are mixed'
            return False
        self.index = index
        if len(units) > 12:
            return False
        for vs in product((0, 1), repeat=len(units)):
            val = dict(zip(units, vs))
            w = {}
            for us, pt, co in rows:
                x = co
                for u in us:
                    x *= val[u]
                w[pt] = w.get(pt, 0) + x
            if any(x < -1e-12 for x in w.values()) or abs(sum(w.values()) - 1) > 1e-9:
                self.why = 'at an end of the range of the random numbers the point is ' + ' + '.join(f'{x} * {y[0] if isinstance(y[0], str) else show(y[0])}' for y, x in w.items() if x)
                return False
        return True


def check(c):
    base = c.cls('BaseGenerator')
    fams = [k for k in c.p.subclasses(base) if not any(n in k.methods and 'abstractmethod' in ast.dump(k.methods[n].node) for n in ('generate',))]
    c.need('bundled generators', len(fams), 5)
    nret = 0
    for k in fams:
        geo = Geo(c, k)
        g = c.graph(k, 'generate', inline='*', opaque=('get_best_iter',))
        where = f'{g.func.file}:{g.func.node.lineno}'
        for kind, n, v, s in g.exits:
            if kind != 'return':
                continue
            facts = norm_facts(s.facts)
            geo.why = ''
            t = unwrap(v)
            nret += 1
            if t.op == 'new':
                ok = filled(g, t, geo, facts)
            else:
                ok = geo.inside(t, facts)
            c.ob('point within the bounds', k.name, ok, where, f'returns {show(norm_term(v))[:300]}: {geo.why}' +
                 (f' (under {", ".join(show(x) for x in fact_formulas(facts))[:300]})' if facts else ''))
        # the attributes the argument rests on are set by the constructor only
        used = {x.args[1] for kind, n, v, s in g.exits if v is not None for x in subterms(v) if x.op == 'attr' and x.args[0] is T('sym', 'self')}
        used |= {x.args[1] for a in list(used) for w, _ in geo.vals.get(a, ()) for x in subterms(w) if x.op == 'attr' and x.args[0] is T('sym', 'self')}
        used = {a for a in used if any(q(sattr(a)) for q in (geo.array, geo.turned, geo.bound)) or geo.atom(sattr(a), {})}
        for name, f in sorted(k.methods.items()):
            if name == '__init__' or name.startswith('__'):
                continue
            gg = c.run(f, cls=k, inline='*', opaque=('get_best_iter',))
            for n in N(gg, lambda e: e.kind in ('store', 'storeidx') and e.recv is not None):
                e = gg.ev[n]
                a = e.name if e.kind == 'store' and rv(e) is T('sym', 'self') else None
                if e.kind == 'storeidx' and rv(e).op == 'attr' and rv(e).args[0] is T('sym', 'self'):
                    a = rv(e).args[1]
                if a in used:
                    ok = e.kind == 'store' and geo.inside(e.value, facts_at(gg, n))
                    c.ob('bounds are kept', f'{k.name}.{name}', ok, e.where, f'{k.name}.{name} changes {a}: {e!r}')
        # points handed to the annealing state
        for n in calls(g, 'update_current') + calls(g, 'update_best'):
            e = g.ev[n]
            geo.why = ''
            ok = geo.inside(e.args[1], facts_at(g, n))
            c.ob('point within the bounds', f'{k.name}: {e.name}', ok, e.where, f'{show(norm_term(e.args[1]))} is handed to the annealing state: {geo.why}')
        for n in N(geo.g0, lambda e: e.kind == 'call' and e.name.endswith('VisitingDistribution')):
            e = geo.g0.ev[n]
            ok = len(e.args) > 1 and (geo.bound(e.args[0]) or '0')[0] == 'LB' and (geo.bound(e.args[1]) or '0')[0] == 'UB'
            c.ob('bounds of the annealing', k.name, ok, e.where, f'the visiting distribution is built for {[show(norm_term(x)) for x in e.args[:2]]}')
    c.need('returned points', nret, 8)
    handed_on(c)


def filled(g, t, geo, facts):
    """A list filled in a loop over the parameters with exactly one entry within the bounds per iteration."""
    apps = N(g, lambda e: e.kind == 'call' and e.recv is t and e.name in ('append', 'insert', 'extend', '__setitem__', 'pop', 'remove', 'clear') or e.kind == 'storeidx' and e.recv is t)
    apps = apps or N(g, lambda e: e.kind == 'call' and rv(e) is norm_term(t) and e.name in ('append', 'insert', 'extend', 'pop', 'remove', 'clear'))
    if not apps or any(g.ev[n].kind != 'call' or g.ev[n].name != 'append' for n in apps):
        geo.why = 'the list is not filled entry by entry'
        return False
    sites = enclosing(g, apps)
    if len(sites) != 1:
        geo.why = 'the list is not filled in one loop over the parameters'
        return False
    site = sites.pop()
    its, ends = iter_segments(g, site)
    for i in its:
        if not_followed(g, [i], apps, set(ends)):
            geo.why = 'an iteration adds no entry'
            return False
        seen = g.reach([i], blocked=set(ends))
        for a in apps:
            if a in seen and set(apps) & g.reach(g.succ[a], blocked=set(ends)):
                geo.why = 'an iteration adds two entries'
                return False
    if any(g.ev[n].kind == 'break' for n in ends):
        geo.why = 'the loop over the parameters ends early'
        return False
    for n in apps:
        if not geo.inside(g.ev[n].args[0], facts_at(g, n)):
            return False
    return True


def handed_on(c):
    """The generated point reaches the optimizer unchanged."""
    g = c.graph('GloMPOManager', '_start_new_job', inline=())
    gen = calls(g, 'generate')
    c.need('points generated for new optimizers', len(gen))
    procs = N(g, lambda e: e.kind == 'call' and any(k == 'args' for k, _ in e.kw))
    c.need('workers created', len(procs))
    for n in procs:
        e = g.ev[n]
        a = dict(e.kw)['args']
        pts = [x for x in a.args if x.op == 'call' and x.args[0] == 'generate'] if a.op == 'tuple' else []
        ok = bool(pts) and len(a.args) > 1 and unwrap(a.args[1]) in pts
        c.ob('generated point is used', '_start_new_job', ok, e.where, f'the optimizer starts at {show(norm_term(a))[:200]}')
    for n in gen:
        c.ob('generator gets the manager', '_start_new_job', av(g.ev[n], 0) is T('sym', 'self'), g.ev[n].where, 'the generator is called with something else than the manager')
