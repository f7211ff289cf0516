"""Queries over event graphs, obligations, reports and evidence shared by all property rules."""
import ast
import json
import time
from collections import deque
from pathlib import Path

from . import engine
from .engine import Ev, Frame, Graph, Interp, State, assume, chain_id, decide, fact_formulas
from .project import AnalysisBroken, Class, Func, Project
from .terms import (FALSE, NONE, T, TRUE, add, attrs_in, const, contains, is_const, is_num, mk_and, mk_not, mk_or, rebuild, rel, show,
                    strip, sub, subterms, truth)

VERIF = Path(__file__).resolve().parent.parent

_NORM = {}


def norm_term(t):
    r = _NORM.get(t)
    if r is None:
        def f(x):
            if x.op == 'call' and x.args[4] is not None:
                return T('call', *x.args[:4], None)
            if x.op in ('inst', 'exc') and x.args[-1] not in (None, 0):
                return T(x.op, *x.args[:-1], 0)
            if x.op == 'elem':
                return T('elem', x.args[0], 0)
            if x.op == 'new':
                return T('new', x.args[0], 0)
            if x.op == 'comp':
                return T('comp', *x.args[:4], 0)
            return x
        r = _NORM[t] = rebuild(t, f)
    return r


def norm_facts(facts, old=False):
    """Facts with call sites removed; where the same condition was tested more than once, the latest answer counts."""
    out = {}
    for k, v in facts.items():
        if isinstance(k, tuple):
            if not old and contains(k[1], lambda x: x.op == 'old'):
                continue
            kk = ('p', norm_term(k[1]))
            out.pop(kk, None)
            out[kk] = v
        else:
            if not old and contains(k, lambda x: x.op == 'old'):
                continue
            kk = norm_term(k)
            if kk.op == 'const':
                continue
            out.pop(kk, None)
            out[kk] = v
    return out


def unget(t):
    """d.get('key', default) read as d['key'] (for dictionaries known to have it)."""
    def f(x):
        if x.op == 'call' and x.args[0] == 'get' and x.args[1] is not None and x.args[2]:
            return T('idx', x.args[1], x.args[2][0])
        return x
    return rebuild(t, f)


def map_facts(facts, fn):
    out = {}
    for k, v in facts.items():
        kk = ('p', fn(k[1])) if isinstance(k, tuple) else fn(k)
        out.pop(kk, None)
        out[kk] = v
    return out


def entails(facts, f):
    d = decide(f, facts)
    if d is not None:
        return d
    return not assume(f, False, facts)


def satisfiable(facts, f):
    return bool(assume(f, True, facts))


def iff(a, b):
    return mk_or([mk_and([a, b]), mk_and([mk_not(a), mk_not(b)])])


class Ctx:
    """One run of the rules of one property."""

    def __init__(self, pid, tier='quick', project=None):
        self.pid, self.tier = pid, tier
        self.p = project or Project()
        self.obs = []            # obligations
        self.viol = {}           # key -> report
        self.counts = {}
        self.funcs = {}          # analysed functions
        self.t0 = time.time()
        self._graphs = {}
        self.notes = []

    # -------------------------------------------------------------- analysed things
    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def need(self, what, n, least=1):
        """Instances confirmed by hand: fewer means that the rule no longer sees the code."""
        self.counts[what] = n
        if n < least:
            raise AnalysisBroken(f'{self.pid}: expected at least {least} x {what}, found {n}')

    def cls(self, name):
        return self.p.cls(name)

    def meth(self, cls, name):
        c = self.p.cls(cls) if isinstance(cls, str) else cls
        f = self.p.find_method(c, name)
        if f is None:
            for w in ('get', 'set'):
                f = f or self.p.find_prop(c, name, w)
        if f is None:
            raise AnalysisBroken(f'{self.pid}: {c.name}.{name} not found')
        return f

    def run(self, func, cls=None, args=None, **opts):
        key = (func.qual, cls.qual if cls else None, tuple(sorted((k, str(v) if callable(v) is False else id(v)) for k, v in opts.items())),
               tuple(sorted((args or {}).items(), key=str)))
        if key not in self._graphs:
            it = Interp(self.p, **opts)
            g = it.run(func, cls=cls, args=args)
            g.interp = it
            g.func = func
            g.cls = cls or func.cls
            self._graphs[key] = g
            n = sum(1 for e in g.ev if e is not None and e.kind not in ('join', 'entry'))
            self.funcs[func.qual if cls is None or cls is func.cls else f'{func.qual} as {cls.name}'] = n
            for q in it.inlined:
                self.funcs.setdefault(q if isinstance(q, str) else q.qual, 'inlined')
        return self._graphs[key]

    def graph(self, cls, name, **opts):
        c = self.p.cls(cls) if isinstance(cls, str) else cls
        return self.run(self.meth(c, name), cls=c, **opts)

    # -------------------------------------------------------------- formulas
    def expr(self, text, cls=None, binds=None, module=None):
        """A term from Python source; names are taken from binds, `self` of class `cls`."""
        tree = ast.parse(text, mode='eval').body
        it = Interp(self.p, exc='none')
        it.g = Graph()
        it.closures, it.raised, it.tries, it.yields, it.callstack, it.curexc = [], [], [], [], [], []
        it.nstmts = 0
        root = it.g.new(Ev('entry'), None)
        c = self.p.cls(cls) if isinstance(cls, str) else cls
        mod = module or (c.module if c else self.p.modules['glompo.core.manager'])
        fr = Frame(-7, None, module=mod, cls=c, defcls=c)
        env = {}
        if c is not None:
            s = T('sym', 'self')
            it.types[s] = c
            env[(-7, 'self')] = s
            fr.self_term = s
        for k, v in (binds or {}).items():
            if isinstance(v, tuple):
                v, ty = v
                it.types[v] = self.p.cls(ty) if isinstance(ty, str) else ty
            env[(-7, k)] = v
        for n in ast.walk(tree):
            if isinstance(n, ast.Name) and (-7, n.id) not in env and n.id not in ('self',):
                if n.id in mod.consts or n.id in mod.multi or n.id in mod.imports or n.id in mod.classes or n.id in mod.funcs or n.id in dir(__builtins__) or n.id in __builtins__ \
                        if isinstance(__builtins__, dict) else hasattr(__builtins__, n.id):
                    continue
                env[(-7, n.id)] = T('sym', n.id)
        st = State(env, {}, {}, root)

        def go(e):
            if isinstance(e, ast.BoolOp):
                fs = [truth(go(x)) for x in e.values]
                return mk_and(fs) if isinstance(e.op, ast.And) else mk_or(fs)
            if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
                return mk_not(truth(go(e.operand)))
            r = it.ev(e, st, fr)
            if len(r) != 1:
                raise AnalysisBroken(f'formula {text!r} forks')
            return r[0][1]
        return norm_term(go(tree))

    def formula(self, text, cls=None, binds=None, module=None):
        return truth(self.expr(text, cls, binds, module))

    # -------------------------------------------------------------- obligations
    def ob(self, rule, construct, ok, where='', msg='', path=None):
        """Records one obligation; construct names the function / call site / instance."""
        self.obs.append((rule, construct, bool(ok)))
        if not ok:
            key = f'{rule}|{construct}'
            if key not in self.viol:
                self.viol[key] = {'rule': rule, 'construct': construct, 'where': where, 'message': msg, 'path': path or []}
        return ok


# ------------------------------------------------------------------------------------------------- graph queries
def N(g, pred=None, kind=None, name=None):
    """Node ids of events."""
    return [i for i, _ in g.events((lambda i, e: pred(e)) if pred else None, kind, name)]


def calls(g, name=None, pred=None, recv=None):
    """Call events; recv: attribute name (or set) the receiver ends with."""
    def ok(e):
        if recv is not None:
            r = e.recv
            rs = recv if isinstance(recv, (set, tuple, frozenset)) else (recv,)
            if r is None or not (r.op == 'attr' and r.args[1] in rs or r.op == 'sym' and r.args[0] in rs):
                return False
        return pred is None or pred(e)
    return N(g, ok, 'call', name)


def stores(g, attr=None, pred=None):
    return N(g, pred, 'store', attr)


def describe_path(g, nodes, keep=None, limit=40):
    out, last = [], None
    for n in nodes or ():
        e = g.ev[n]
        if e is None or e.kind in ('join', 'entry', 'local', 'enter', 'leave', 'finally'):
            continue
        if keep is not None and not keep(e) and n is not nodes[-1]:
            continue
        s = repr(e)
        if s != last:
            out.append(s[:240])
        last = s
    if len(out) > limit:
        out = out[:limit // 2] + ['...'] + out[-limit // 2:]
    return out


def exit_nodes(g, kinds=('return', 'raise')):
    return [n for k, n, v, s in g.exits if k in kinds]


def not_preceded(g, A, B):
    """Nodes of B reachable from the entry without passing a node of A (with a witness path)."""
    A, B = set(A), set(B)
    seen = g.reach([0], blocked=A - B)
    # a node which is both A and B needs no predecessor
    bad = [b for b in B if b in seen and b not in A]
    # witness paths for the first few only
    return [(b, g.path([0], [b], blocked=A) if i < 3 else None) for i, b in enumerate(sorted(bad))]


def not_followed(g, A, B, ends):
    """Nodes of A from which one of `ends` is reachable without passing B."""
    B, ends = set(B), set(ends)
    out = []
    for a in A:
        nxt = [x for x in g.succ[a] if x not in B]
        seen = g.reach(nxt, blocked=B) if nxt else set()
        if seen & ends:
            out.append((a, g.path(nxt, seen & ends, blocked=B)))
    return out


def loops(g, pred=None):
    """Loop head nodes grouped by site."""
    d = {}
    for i, e in g.events(kind='loophead'):
        if pred is None or pred(e):
            d.setdefault(e.site, []).append(i)
    return d


def iter_segments(g, site):
    """(iter nodes, nodes ending an iteration: iterend / break / exits) of the loop at a site."""
    its = N(g, lambda e: e.site == site, 'iter')
    ends = N(g, lambda e: e.site == site and e.kind in ('iterend', 'break'))
    return its, ends


def enclosing(g, nodes):
    """Sites of the loops whose iterations contain one of the nodes."""
    out, nodes = set(), set(nodes)
    for site in loops(g):
        its = N(g, lambda e: e.site == site, 'iter')
        ends = set(N(g, lambda e: e.site == site and e.kind in ('iterend', 'break', 'loophead', 'loopexit')))
        inside = nodes & g.reach(its, blocked=ends)
        inside = inside - g.reach([0], blocked=set(its)) if inside else inside
        if inside:
            back = {n for n in ends if g.ev[n].kind in ('iterend', 'break', 'loophead')}
            heads = {n for n in back if g.ev[n].kind == 'loophead'}
            if any(g.reach([n]) & (back if n not in heads else heads) for n in inside) or not back - heads:
                out.add(site)
    return out


def facts_at(g, n, old=False):
    st = g.st[n]
    return norm_facts(st.facts, old) if st is not None else {}


def rv(e):
    return norm_term(e.recv) if e.recv is not None else None


def av(e, i, name=None):
    a = e.arg(i, name)
    return norm_term(a) if a is not None else None


def nv(t):
    return norm_term(t) if t is not None else None


def sattr(name):
    return T('attr', T('sym', 'self'), name)


def is_self_attr(t, name):
    return t is not None and t.op == 'attr' and t.args[1] == name and t.args[0].op == 'sym' and t.args[0].args[0] == 'self'


def ordered(facts, *fs):
    """Adds that the compared quantities are ordered (no nan), for every comparison in the formulas."""
    f = dict(facts)
    for t in list(fs) + [k[1] if isinstance(k, tuple) else k for k in facts]:
        for x in subterms(t):
            if x.op == 'rel':
                k = ('p', x.args[0])
                cur = dict((c, S) for c, S in f.get(k, ()))
                cur[x.args[1]] = cur.get(x.args[1], frozenset('LEGU')) - {'U'}
                f[k] = tuple(sorted(cur.items(), key=lambda z: (z[0], sorted(z[1]))))
    for k, v in facts.items():
        if isinstance(k, tuple):
            f[k] = tuple(sorted({**dict(f.get(k, ())), **{c: S - {'U'} for c, S in v}}.items(), key=lambda z: (z[0], sorted(z[1]))))
    return f


def final(s, name, base=None):
    """Value of an attribute of self at an exit; None when it was not assigned on the path."""
    v = s.heap.get((base or T('sym', 'self'), name))
    return nv(v) if v is not None else None


def dict_items(st, name):
    """(key, value) of a dictionary kept in an attribute of self, at an exit; None if it is something else."""
    d = final(st, name)
    if d is None or d.op not in ('dict', 'new'):
        return None
    out = [(x.args[0], x.args[1]) if x.op == 'tuple' else (None, x) for x in (d.args if d.op == 'dict' else ())]
    bases = {d, T('attr', T('sym', 'self'), name), st.heap.get((T('sym', 'self'), name))}
    for k, v in st.heap.items():
        if len(k) == 3 and k[1] == '[]' and (k[0] in bases or nv(k[0]) in bases):
            out = [x for x in out if x[0] is not nv(k[2])] + [(nv(k[2]), nv(v))]
    return out


def decision(c, rule, construct, g, spec, nan=False, extra=()):
    """Every return of g is true exactly when spec is, under the facts of its path."""
    for kind, n, v, s in g.exits:
        if kind != 'return':
            continue
        f = norm_facts(s.facts)
        val = truth(nv(v))
        if not nan:
            f = ordered(f, val, spec, *extra)
        ok = entails(f, iff(val, spec))
        msg = ''
        if not ok:
            msg = f'returns {show(val)} under {", ".join(show(x) for x in fact_formulas(norm_facts(s.facts)))[:300] or "no condition"}; specified: {show(spec)}'
        c.ob(rule, construct, ok, f'{g.func.file}:{g.func.node.lineno}', msg)


def run_automaton(c, rule, construct, g, init, step, where=None, keep=None):
    """Runs a property automaton over all paths; step(q, n, e) -> new state, or ('!', message) for a violation. Records one obligation
    (with a witness path for the first violation)."""
    bad = {}

    def st(q, n, e):
        r = step(q, n, e)
        if isinstance(r, list):
            rs = r
        else:
            rs = [r]
        out = []
        for x in rs:
            if isinstance(x, tuple) and x and x[0] == '!':
                bad.setdefault(x[1], (n, q))
            else:
                out.append(x)
        return out
    at, parent = g.automaton(init, st)
    for msg, (n, q) in sorted(bad.items()):
        nodes, k = [], (n, q)
        while k is not None:
            nodes.append(k[0])
            k = parent.get(k)
        e = g.ev[n]
        w = e.where if e is not None and e.func is not None else (where or g.func.file)
        c.ob(rule, f'{construct}: {msg}', False, w, msg, describe_path(g, nodes[::-1], keep))
    if not bad:
        c.ob(rule, construct, True)
    return at


def replay(t, hist, off=0):
    """Rewrites a term to the values of attributes of self given by their histories (oldest first); old(x) is the value one store ago."""
    if not isinstance(t, T):
        return tuple(replay(x, hist, off) for x in t) if isinstance(t, tuple) else t
    if t.op == 'old':
        return replay(t.args[0], hist, off + 1)
    if t.op == 'attr' and t.args[0] is T('sym', 'self') and t.args[1] in hist:
        h = hist[t.args[1]]
        return h[max(0, len(h) - 1 - off)]
    if t.op == 'const':
        return t
    if t.op == 'poly':
        from .terms import from_poly, mul, to_poly
        r = const(0)
        for m, c in to_poly(t).items():
            x = const(c)
            for a, e in m:
                b = replay(a, hist, off)
                x = mul(x, b if e == 1 else from_poly({((b, e),): 1}))
            r = add(r, x)
        return r
    return T(t.op, *[replay(x, hist, off) for x in t.args])


def histories(g, attrs):
    """All (return node, state, histories of the attributes of self) reachable at returns; None when a history grows without bound."""
    def step(q, n, e):
        if e.kind == 'store' and e.name in attrs and rv(e) is T('sym', 'self'):
            h = dict(q)
            v = norm_term(replay(e.value, h))
            if len(h[e.name]) > 12:
                return [q]
            h[e.name] = h[e.name] + (v,)
            return [tuple(sorted(h.items()))]
        return [q]
    at, _ = g.automaton(tuple(sorted((a, (sattr(a),)) for a in attrs)), step)
    return [(n, v, s, dict(q)) for kind, n, v, s in g.exits if kind == 'return' for q in at[n]]


def nested(f):
    """The functions defined inside a function; their free variables stay unknown names."""
    out = []
    for n in ast.walk(f.node):
        if n is not f.node and isinstance(n, (ast.FunctionDef, ast.Lambda)) and isinstance(n, ast.FunctionDef):
            out.append(Func(n.name, f.qual + '.' + n.name, f.module, None, n))
    return out
