"""Path-sensitive abstract interpreter over the syntax tree.

A function is interpreted over symbolic terms; every feasible (as far as the collected facts can tell) path becomes a path in an
explicit event graph.  Helpers which did not exist when the rules were written (not in VOCAB) are always inlined, so extracting
code into functions does not change the graph.  Nothing is executed.
"""
import ast
import builtins
import json
import os
from pathlib import Path

from .project import AnalysisBroken, Class, Func, Project
from .terms import (ALL, FALSE, NONE, T, TRUE, FLIP, add, attrs_in, const, contains, div, is_const, is_num, mk_and, mk_not,
                    mk_or, mul, neg, rebuild, rel, show, strip, sub, subterms, truth, to_poly)

HERE = Path(__file__).resolve().parent
VOCAB_FILE = HERE / 'vocab.json'
VOCAB = set(json.loads(VOCAB_FILE.read_text())) if VOCAB_FILE.exists() else set()

PURE_FUNCS = {'len', 'int', 'float', 'str', 'isinstance', 'issubclass', 'callable', 'hasattr', 'abs', 'min', 'max', 'sum', 'round',
              'type', 'repr', 'sorted', 'list', 'tuple', 'set', 'dict', 'frozenset', 'zip', 'range', 'enumerate', 'reversed',
              'map', 'filter', 'any', 'all', 'bool', 'pathlib.Path', 'copy.copy', 'copy.deepcopy', 'id', 'slice', 'iter', 'dir',
              'pow', 'functools.wraps', 'datetime.timedelta', 're.match', 're.escape', 're.fullmatch', 'getattr', 'format'}
PURE_METHODS = {'copy', 'items', 'keys', 'values', 'get', 'split', 'replace', 'strip', 'startswith', 'endswith', 'join', 'format',
                'lower', 'upper', 'union', 'difference', 'intersection', 'issubset', 'with_suffix', 'resolve', 'absolute',
                'total_seconds', 'any', 'all', 'min', 'max', 'mean', 'std', 'sum', 'tolist', 'astype', 'flatten', 'index',
                'count', 'rsplit', 'partition', 'relative_to', 'transpose', 'with_name', 'is_absolute', 'issuperset',
                'symmetric_difference', 'isdigit', 'lstrip', 'rstrip', 'zfill', 'encode', 'decode'}
CANON = {'numpy.abs': 'abs', 'numpy.absolute': 'abs', 'math.fabs': 'abs', 'numpy.min': 'min', 'numpy.amin': 'min',
         'numpy.max': 'max', 'numpy.amax': 'max', 'numpy.sum': 'sum', 'numpy.asarray': 'numpy.array', 'math.isfinite': 'numpy.isfinite',
         'math.log': 'numpy.log', 'math.exp': 'numpy.exp', 'math.sqrt': 'numpy.sqrt'}
METH2FUNC = {'any': 'numpy.any', 'all': 'numpy.all', 'min': 'min', 'max': 'max', 'mean': 'numpy.mean', 'std': 'numpy.std', 'sum': 'sum',
             'transpose': 'numpy.transpose'}
MUTATORS = {'add', 'append', 'remove', 'discard', 'pop', 'clear', 'update', 'insert', 'extend', 'setdefault', 'sort', 'reverse',
            'popitem', 'difference_update', 'intersection_update', 'symmetric_difference_update'}
QUIET = {'print', 'warnings.warn', 'time.time', 'datetime.datetime.now', 'datetime.now', 'logging.getLogger'}
LOGM = {'debug', 'info', 'warning', 'error', 'critical', 'exception', 'isEnabledFor', 'log'}
FRESH = {'list', 'dict', 'set', 'tuple'}


def is_fact_rel(k):
    return isinstance(k, tuple)


class Ev:
    __slots__ = ('kind', 'name', 'recv', 'args', 'kw', 'value', 'site', 'node', 'func', 'target', 'chain', 'extra')

    def __init__(self, kind, name='', recv=None, args=(), kw=(), value=None, site=None, node=None, func=None, target=None,
                 chain=(), extra=None):
        self.kind, self.name, self.recv, self.args, self.kw, self.value = kind, name, recv, tuple(args), tuple(kw), value
        self.site, self.node, self.func, self.target, self.chain, self.extra = site, node, func, target, chain, extra

    def kwd(self):
        return dict(self.kw)

    def arg(self, i, name=None):
        if i is not None and i < len(self.args):
            return self.args[i]
        return dict(self.kw).get(name)

    @property
    def where(self):
        f = self.func.file if self.func else '?'
        return f'{f}:{getattr(self.node, "lineno", "?")}'

    def __repr__(self):
        a = ', '.join([show(x) for x in self.args] + [f'{k}={show(v)}' for k, v in self.kw])
        r = show(self.recv) + '.' if self.recv is not None else ''
        t = f' := {show(self.value)}' if self.value is not None and self.kind in ('store', 'storeidx', 'return', 'raise', 'local', 'yield') else ''
        tg = f'{show(self.target)}' if self.target is not None else ''
        return f'{self.kind} {tg}{r}{self.name}({a}){t}  <{self.where}>'


class State:
    __slots__ = ('env', 'heap', 'facts', 'node', '_key')

    def __init__(self, env, heap, facts, node):
        self.env, self.heap, self.facts, self.node, self._key = env, heap, facts, node, None

    def but(self, env=None, heap=None, facts=None, node=None):
        return State(self.env if env is None else env, self.heap if heap is None else heap,
                     self.facts if facts is None else facts, self.node if node is None else node)

    def key(self):
        if self._key is None:
            self._key = (frozenset(self.env.items()), frozenset(self.heap.items()), frozenset(self.facts.items()))
        return self._key


# ------------------------------------------------------------------------------------------------- facts
def rel_poss(facts, p, c):
    poss = set('LEGU')
    for c0, S in facts.get(('p', p), ()):
        q = set()
        for o in S:
            if c0 == c:
                q.add(o)
            elif c > c0:
                q |= {'L'} if o in 'LE' else {'L', 'E', 'G'} if o == 'G' else {'U'}
            else:
                q |= {'G'} if o in 'GE' else {'L', 'E', 'G'} if o == 'L' else {'U'}
        poss &= q
    t = facts.get(T('truth', p))
    if t is not None and c == 0:
        if t is False:
            poss &= {'E'}
        else:
            poss -= {'E'}
    return poss


def decide(f, facts):
    """True / False / None under the facts."""
    o = f.op
    if o == 'const':
        return bool(f.args[0])
    if o == 'not':
        r = decide(f.args[0], facts)
        return None if r is None else not r
    if o == 'and':
        rs = [decide(x, facts) for x in f.args]
        return False if False in rs else True if all(r is True for r in rs) else None
    if o == 'or':
        rs = [decide(x, facts) for x in f.args]
        return True if True in rs else False if all(r is False for r in rs) else None
    if o == 'rel':
        p, c, S = f.args
        poss = rel_poss(facts, p, c)
        return True if poss <= S else False if not (poss & S) else None
    if f in facts:
        return facts[f]
    if o == 'is':
        a, b = f.args
        if a is b:
            return True
        if is_const(a) and is_const(b) and (a in (NONE, TRUE, FALSE) or b in (NONE, TRUE, FALSE)):
            return False
        if b is NONE:
            if a.op in ('ntup', 'inst', 'tuple', 'list', 'set', 'dict', 'new', 'func', 'class', 'closure', 'comp', 'fstr', 'poly',
                        'rel', 'and', 'or', 'not', 'in', 'is', 'eq', 'truth', 'exists', 'bound', 'join'):
                return False
            if facts.get(T('truth', a)) is True or facts.get(('p', a)):
                return False
        if b in (TRUE, FALSE):
            if a.op in ('rel', 'and', 'or', 'not', 'in', 'is', 'eq', 'exists'):
                r = decide(a, facts)
                return None if r is None else r == b.args[0]
            t = facts.get(truth(a))
            if t is not None and t != b.args[0]:
                return False
            if a.op in ('ntup', 'inst', 'tuple', 'list', 'new'):
                return False
        return None
    if o == 'truth':
        x = f.args[0]
        if facts.get(T('is', x, NONE)) is True or facts.get(T('is', x, FALSE)) is True:
            return False
        if facts.get(T('is', x, TRUE)) is True:
            return True
        poss = rel_poss({k: v for k, v in facts.items() if k == ('p', x)}, x, 0)
        if poss == {'E'}:
            return False
        if ('p', x) in facts and 'E' not in poss:
            return True
        for k, v in facts.items():
            if v is True and isinstance(k, T):
                if k.op == 'eq' and k.args[0] is x:
                    return bool(k.args[1].args[0])
                if k.op == 'in' and k.args[1] is x:
                    return True
                if k.op == 'exists' and k.args[0] is x:
                    return True
        return None
    if o == 'eq':
        x, c = f.args
        for k, v in facts.items():
            if v is True and isinstance(k, T) and k.op == 'eq' and k.args[0] is x:
                return k.args[1] is c
        t = facts.get(T('truth', x))
        if t is not None and t != bool(c.args[0]):
            return False
        if facts.get(T('is', x, NONE)) is True:
            return False
        return None
    if o == 'in':
        if facts.get(T('truth', f.args[1])) is False:
            return False
        return None
    if o == 'exists':
        if facts.get(T('truth', f.args[0])) is False:
            return False
        if decide(f.args[1], {}) is True:
            return decide(truth(f.args[0]), facts)
        return None
    return None


def assume(f, val, facts):
    """Returns list of fact dicts (disjunction) in which formula f has value val."""
    d = decide(f, facts)
    if d is not None:
        return [facts] if d == val else []
    o = f.op
    if o == 'not':
        return assume(f.args[0], not val, facts)
    if o in ('and', 'or'):
        if (o == 'and') == val:   # all must hold
            out = [facts]
            for x in f.args:
                out = [g for h in out for g in assume(x, val, h)]
            return out
        out, cur = [], [facts]
        for x in f.args:          # first that decides
            nxt = []
            for h in cur:
                out += assume(x, val, h)
                nxt += assume(x, not val, h)
            cur = nxt
        return out
    if o == 'rel':
        p, c, S = f.args
        poss = rel_poss(facts, p, c)
        keep = frozenset(poss & S if val else poss - S)
        g = dict(facts)
        old = tuple(x for x in facts.get(('p', p), ()) if x[0] != c)
        g[('p', p)] = tuple(sorted(old + ((c, keep),), key=lambda x: (x[0], sorted(x[1]))))
        return [g]
    g = dict(facts)
    g[f] = val
    if o == 'is' and val and f.args[1] in (NONE, FALSE):
        g[T('truth', f.args[0])] = False
    elif o == 'is' and val and f.args[1] is TRUE:
        g[T('truth', f.args[0])] = True
    elif o == 'in' and val and f.args[1].op not in ('tuple', 'list', 'set'):
        t = truth(f.args[1])
        if t.op == 'truth':
            g[t] = True
    elif o == 'exists' and val:
        t = truth(f.args[0])
        if t.op == 'truth':
            g[t] = True
    return [g]


def fact_formulas(facts):
    for k, v in facts.items():
        if isinstance(k, tuple):
            for c, S in v:
                yield T('rel', k[1], c, S)
        else:
            yield k if v else T('not', k)


# ------------------------------------------------------------------------------------------------- graph
class Graph:
    def __init__(self):
        self.ev, self.st, self.succ, self.pred = [], [], [], []
        self._index = (-1, {}, [])
        self.exits = []      # (kind, node, value, state)

    def new(self, ev, st):
        self.ev.append(ev)
        self.st.append(st)
        self.succ.append(set())
        self.pred.append(set())
        return len(self.ev) - 1

    def edge(self, a, b):
        self.succ[a].add(b)
        self.pred[b].add(a)

    def events(self, pred=None, kind=None, name=None):
        if self._index[0] != len(self.ev):
            by = {}
            for i, e in enumerate(self.ev):
                if e is not None and e.kind not in ('join', 'entry'):
                    by.setdefault(e.kind, []).append(i)
            self._index = (len(self.ev), by, sorted(x for v in by.values() for x in v))
        for i in self._index[1].get(kind, ()) if kind else self._index[2]:
            e = self.ev[i]
            if name and e.name != name and not (isinstance(name, (set, tuple, frozenset)) and e.name in name):
                continue
            if pred and not pred(i, e):
                continue
            yield i, e

    def reach(self, starts, blocked=(), forward=True, include_start=True):
        blocked = set(blocked)
        adj = self.succ if forward else self.pred
        seen = set()
        todo = []
        for s in starts:
            if include_start:
                if s not in blocked:
                    todo.append(s)
            else:
                todo += [x for x in adj[s] if x not in blocked]
        while todo:
            n = todo.pop()
            if n in seen:
                continue
            seen.add(n)
            todo += [x for x in adj[n] if x not in blocked and x not in seen]
        return seen

    def path(self, starts, goals, blocked=()):
        """A shortest path (list of nodes) from starts to goals avoiding blocked."""
        from collections import deque
        blocked, goals = set(blocked), set(goals)
        prev = {}
        q = deque()
        for s in starts:
            if s not in blocked:
                prev[s] = None
                q.append(s)
        while q:
            n = q.popleft()
            if n in goals:
                out = []
                while n is not None:
                    out.append(n)
                    n = prev[n]
                return out[::-1]
            for x in self.succ[n]:
                if x not in prev and x not in blocked:
                    prev[x] = n
                    q.append(x)
        return None

    def automaton(self, init, step):
        """Propagates automaton states through the graph. step(q, node, ev) -> iterable of new states."""
        at = {0: {init}}
        todo = [(0, init)]
        parent = {(0, init): None}
        while todo:
            n, q = todo.pop()
            e = self.ev[n]
            qs = [q] if e is None or e.kind == 'join' else step(q, n, e)
            for r in qs:
                for m in self.succ[n]:
                    if r not in at.setdefault(m, set()):
                        at[m].add(r)
                        parent[(m, r)] = (n, q)
                        todo.append((m, r))
        return at, parent

    def dump(self):
        out = []
        for i, e in enumerate(self.ev):
            out.append(f'{i} -> {sorted(self.succ[i])}: {e}')
        return '\n'.join(out)


class Frame:
    def __init__(self, fid, func, parent=None, self_term=None, cls=None, defcls=None, module=None, chain=()):
        self.fid, self.func, self.parent, self.self_term, self.cls, self.defcls = fid, func, parent, self_term, cls, defcls
        self.module, self.chain = module, chain
        self.always = set()


class Out:
    __slots__ = ('next', 'ret', 'exc', 'brk', 'cont')

    def __init__(self):
        self.next, self.ret, self.exc, self.brk, self.cont = [], [], [], [], []

    def absorb(self, o):
        self.ret += o.ret
        self.exc += o.exc
        self.brk += o.brk
        self.cont += o.cont


_CHAINS = {}


def chain_id(c):
    return _CHAINS.setdefault(c, len(_CHAINS))


EXC_PARENTS = {n: [c.__name__ for c in getattr(builtins, n).__mro__[1:]] for n in dir(builtins)
               if isinstance(getattr(builtins, n), type) and issubclass(getattr(builtins, n), BaseException)}
EXC_PARENTS.update({'Empty': ['Exception', 'BaseException'], 'Full': ['Exception', 'BaseException'],
                    'TarError': ['Exception', 'BaseException'], 'PickleError': ['Exception', 'BaseException'],
                    'PicklingError': ['PickleError', 'Exception', 'BaseException'],
                    'HDF5ExtError': ['RuntimeError', 'Exception', 'BaseException']})
EXC_ALIAS = {'IOError': 'OSError', 'EnvironmentError': 'OSError'}


class Names(set):
    """Names assigned in a loop; inplace: those only changed by |=, &= and -=."""
    inplace = frozenset()


class Interp:
    """opts:
       inline : set of names / quals of existing functions to inline, or '*' (all project functions resolvable)
       opaque : names never inlined
       exc    : 'none' no implicit exceptions, 'try' implicit exceptions of calls inside try statements
       hold   : names of calls whose results stay known after the branch that tests them
       keep   : None (keep all facts) or predicate(term)->bool of atoms whose facts are kept
       raises : function(name, recv, args, kw) -> names of the exceptions an external call is taken to raise (in addition to exc)
       dirs   : names which dir(self) / vars(self) are taken to consist of (partial evaluation for given attributes)
       silent : predicate(ev)-> True to drop an event from the graph
    """

    def __init__(self, project, inline=(), opaque=(), exc='try', keep=None, max_nodes=120000, max_states=600, locals_ev=False, augs=False,
                 idx_exc=False, types=None, cap=160, keep_old=False, assume=(), hold=(), sets=False, dirs=None, entry_cap=None, raises=None, clobber=None, watch=()):
        self.watch = set(watch)      # module level names whose evaluation is an event ('use')
        self.dirs, self.raises = dirs, raises
        self.clobber = clobber or {}      # name of a call -> attributes it may set in ways the call graph does not show ('m()': results of m)
        self.sets, self.setvars = sets, set()
        self.keep_old, self.assumed, self.hold = keep_old, assume, set(hold)
        self.cap, self.widened, self.max_heads, self.entry_cap = cap, 0, 10, entry_cap
        self.p = project
        self.inline, self.opaque, self.exc, self.keep = inline, set(opaque), exc, keep
        self.max_nodes, self.max_states = max_nodes, max_states
        self.locals_ev = locals_ev
        self.augs = augs      # in-place operators as events
        self.idx_exc = idx_exc
        self.types = types or {}
        self.inlined = set()
        self.opaque_called = {}

    # ------------------------------------------------------------------ driver
    def run(self, func, cls=None, args=None, closure_of=None):
        self.g = Graph()
        self.closures = []
        self.raised = []
        self.tries = []
        self.yields = []
        self.callstack = []
        self.nstmts = 0
        self.curexc = []
        if isinstance(func, str):
            raise AnalysisBroken('func expected')
        cls = cls or func.cls
        fr = Frame(chain_id(()), func, module=func.module, cls=cls, defcls=func.cls)
        root = self.g.new(Ev('entry', func=func, node=func.node), None)
        st = State({}, {}, {}, root)
        self.root = root
        a = func.node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        env = {}
        for i, n in enumerate(names):
            if i == 0 and func.cls is not None and func.kind != 'static':
                v = T('sym', 'self') if func.kind != 'class' else T('class', cls.qual)
                fr.self_term = v
                self.types[v] = cls
            else:
                v = (args or {}).get(n, T('sym', n))
            env[(fr.fid, n)] = v
            ann = self._annot(func, n)
            if ann is not None and v not in self.types:
                self.types[v] = ann
        if a.vararg:
            env[(fr.fid, a.vararg.arg)] = T('sym', '*' + a.vararg.arg)
        if a.kwarg:
            env[(fr.fid, a.kwarg.arg)] = (args or {}).get(a.kwarg.arg, T('sym', '**' + a.kwarg.arg))
        st = st.but(env=env)
        fs = [{}]
        for f in self.assumed:
            fs = [x for y in fs for x in assume(f, True, y)]
        out = self.exec_function_body(func.node, fr, [st.but(facts=f) for f in fs])
        for s in out.next:
            out.ret.append((s, NONE))
        for s, v in out.ret:
            n = self.emit(s, Ev('exit', 'return', value=v, func=func, node=func.node)).node
            self.g.exits.append(('return', n, v, s))
        for s, v in out.exc:
            n = self.emit(s, Ev('exit', 'raise', value=v, func=func, node=func.node)).node
            self.g.exits.append(('raise', n, v, s))
        if not self.g.exits:
            raise AnalysisBroken(f'{func.qual}: no exit reached')
        return self.g

    def _annot(self, func, name):
        a = func.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            if x.arg == name and x.annotation is not None:
                return self._annot_cls(func.module, x.annotation)
        return None

    def _annot_cls(self, module, ann):
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            try:
                ann = ast.parse(ann.value, mode='eval').body
            except SyntaxError:
                return None
        if isinstance(ann, ast.Subscript) and isinstance(ann.value, ast.Name) and ann.value.id == 'Optional':
            return self._annot_cls(module, ann.slice)
        if isinstance(ann, ast.Name):
            r = self.p.resolve(module, ann.id)
            if isinstance(r, Class):
                return r
            if self.p.has_cls(ann.id):
                return self.p.cls(ann.id)
        return None

    def typeof(self, t):
        """Class of a term, where annotations tell."""
        if t in self.types:
            return self.types[t]
        r = None
        if t.op == 'inst' or t.op == 'ntup':
            r = self._cls_by_qual(t.args[0])
        elif t.op == 'old':
            r = self.typeof(t.args[0])
        elif t.op == 'attr':
            c = self.typeof(t.args[0])
            if c is not None:
                r = self._attr_type(c, t.args[1])
        elif t.op == 'idx':
            r = self._elem_type(t.args[0])
        elif t.op == 'elem':
            r = self._elem_type(t.args[0])
        self.types[t] = r
        return r

    def _cls_by_qual(self, q):
        m, n = q.split(':')
        return self.p.modules[m].classes.get(n) if m in self.p.modules else None

    def _annots(self, c):
        cache = getattr(c, '_selfann', None)
        if cache is None:
            cache = {}
            for k in reversed([x for x in self.p.mro(c) if isinstance(x, Class)]):
                for m in k.methods.values():
                    for n in ast.walk(m.node):
                        if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Attribute):
                            cache.setdefault(n.target.attr, (k.module, n.annotation))
                for a, e in k.annots.items():
                    cache[a] = (k.module, e)
            c._selfann = cache
        return cache

    def _attr_type(self, c, name):
        a = self._annots(c).get(name)
        return self._annot_cls(*a) if a else None

    def _elem_type(self, d):
        if d.op == 'attr':
            c = self.typeof(d.args[0])
            if c is not None:
                a = self._annots(c).get(d.args[1])
                if a and isinstance(a[1], ast.Subscript):
                    s = a[1].slice
                    s = s.elts[-1] if isinstance(s, ast.Tuple) else s
                    return self._annot_cls(a[0], s)
        return None

    def is_ntup(self, c):
        return c is not None and any(b == 'NamedTuple' for b in c.bases)

    # ------------------------------------------------------------------ basics
    def emit(self, st, ev):
        if len(self.g.ev) > self.max_nodes:
            raise AnalysisBroken(f'event graph too large ({len(self.g.ev)} nodes)')
        n = self.g.new(ev, st)
        self.g.edge(st.node, n)
        return st.but(node=n)

    def known(self, s):
        """Keeps what is known on entry of a loop, some of which is forgotten in it."""
        if self.keep is not None and self.g.st[s.node] is not None and any(self.g.st[s.node].facts.get(k) != v for k, v in s.facts.items()):
            return self.emit(s, Ev('known'))
        return s

    def merge(self, states, live=None, fr=None):
        if len(states) <= 1:
            return states
        groups = {}
        for s in states:
            groups.setdefault(s.key(), []).append(s)
        out = []
        for g in groups.values():
            nodes = {s.node for s in g}
            if len(nodes) == 1:
                out.append(g[0])
            else:
                j = self.g.new(Ev('join'), g[0])
                for n in nodes:
                    self.g.edge(n, j)
                out.append(g[0].but(node=j))
        if len(out) > self.cap:
            out = self.widen(out)
        if len(out) > self.max_states:
            raise AnalysisBroken(f'too many abstract states ({len(out)})')
        return out

    def widen(self, states, cap=None):
        """Joins states which only differ in what is known about them, then those which differ in a few values."""
        self.widened += 1
        cap = cap or self.cap
        for level in (0, 1, 2):
            groups = {}
            for s in states:
                k = (frozenset(s.env.items()), frozenset(s.heap.items())) if level == 0 else frozenset(x for x in s.env.items() if is_const(x[1])) if level == 1 else 0
                groups.setdefault(k, []).append(s)
            if level == 1 and len(groups) > cap:
                continue
            states = [self._join(g) for g in groups.values()]
            if len(states) <= cap:
                break
        return states

    def _join(self, g):
        if len(g) == 1:
            return g[0]
        a = g[0]
        facts = {k: v for k, v in a.facts.items() if all(s.facts.get(k) == v for s in g[1:])}
        for s in g:             # a true value is not None
            for k, v in s.facts.items():
                if isinstance(k, T) and k.op == 'is' and v is False and k.args[1] is NONE and k not in facts and \
                        all(x.facts.get(k) is False or x.facts.get(T('truth', k.args[0])) is True for x in g):
                    facts[k] = False
        for k in a.facts:       # orderings: union of the possibilities at the same constant
            if isinstance(k, tuple) and k not in facts and all(k in s.facts for s in g):
                cs = set.intersection(*[{c for c, _ in s.facts[k]} for s in g])
                v = tuple(sorted(((c, frozenset().union(*[S for s in g for c0, S in s.facts[k] if c0 == c])) for c in cs),
                                 key=lambda x: (x[0], sorted(x[1]))))
                v = tuple((c, S) for c, S in v if S != ALL)
                if v:
                    facts[k] = v
        env, heap, gone = {}, {}, set()
        for k in a.env:
            if all(k in s.env for s in g):
                vs = {s.env[k] for s in g}
                env[k] = a.env[k] if len(vs) == 1 else T('hv', ('join',) + k, k[1])
                if len(vs) > 1:
                    gone.add(env[k])
        for k, v in a.heap.items():
            if all(s.heap.get(k) is v for s in g):
                heap[k] = v
        if gone:
            about = lambda k: contains(k[1] if isinstance(k, tuple) else k, lambda x: x in gone)
            facts = {k: v for k, v in facts.items() if not about(k)}
            heap = {k: v for k, v in heap.items() if not contains(v, lambda x: x in gone)}
        r = State(env, heap, facts, None)
        j = self.g.new(Ev('join'), r)
        for s in g:
            if len(s.facts) != len(facts) and self.g.st[s.node] is not None and self.g.st[s.node].facts != s.facts:
                n = self.g.new(Ev('known'), s)       # what is known on this path before it is joined
                self.g.edge(s.node, n)
                self.g.edge(n, j)
            else:
                self.g.edge(s.node, j)
        return r.but(node=j)

    def branch(self, st, f):
        """-> list of (state, bool)"""
        d = decide(f, st.facts)
        if d is not None:
            return [(st, d)]
        out = []
        for v in (True, False):
            for g in assume(f, v, st.facts):
                if self.keep is not None:
                    g = self._filter(g, st.facts)
                out.append((st.but(facts=g), v))
        return out

    def _filter(self, g, base):
        return {k: v for k, v in g.items() if k in base and base[k] == v or self.keep(k[1] if isinstance(k, tuple) else k)}

    def kill(self, st, pred):
        """Drops facts whose atoms satisfy pred."""
        f = {k: v for k, v in st.facts.items() if not pred(k[1] if isinstance(k, tuple) else k)}
        return st.but(facts=f) if len(f) != len(st.facts) else st

    def kill_attrs(self, st, stored, mutated):
        """Effect of a call that may store `stored` / mutate containers in `mutated` (attribute names)."""
        if not stored and not mutated:
            return st
        names = set(stored) | set(mutated)
        st = self.kill(st, lambda k: bool(attrs_in(k) & names))
        heap = {k: v for k, v in st.heap.items() if not (k[1] in stored if k[1] != '[]' else attrs_in(k[0]) & names)}

        def sb(v):
            if attrs_in(v) & stored:
                return rebuild(v, lambda x: T('old', x, 0) if x.op == 'attr' and x.args[1] in stored else x)
            return v
        stored = set(stored)
        env = {k: sb(v) for k, v in st.env.items()}
        heap = {k: sb(v) for k, v in heap.items()}
        return st.but(env=env, heap=heap)

    def site(self, fr, node):
        return chain_id((fr.fid, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), type(node).__name__))

    # ------------------------------------------------------------------ names
    def lookup(self, fr, st, name):
        f = fr
        while f is not None:
            if (f.fid, name) in st.env:
                return st.env[(f.fid, name)]
            f = f.parent
        m = fr.module
        r = self.p.resolve(m, name)
        if isinstance(r, Class):
            return T('class', r.qual)
        if isinstance(r, Func):
            return T('func', r.qual)
        if isinstance(r, tuple):
            v = self.const_expr(r[1], r[2])
            if v is not None:
                return v
            return T('sym', f'{r[1].name}:{name}')
        if name in m.imports:
            mod, attr = m.imports[name]
            return T('ext', f'{mod}.{attr}' if attr else mod)
        if name in m.multi or name in m.consts:
            return T('sym', f'{m.name}:{name}')
        return T('ext', name)

    def const_expr(self, module, e):
        try:
            v = ast.literal_eval(e)
        except (ValueError, TypeError, SyntaxError):
            if isinstance(e, ast.Dict):
                fr = Frame(-1, None, module=module)
                try:
                    return self.literal(e, fr)
                except Exception:
                    return None
            return None
        return self.lift(v)

    def literal(self, e, fr):
        items = []
        for k, v in zip(e.keys, e.values):
            st = State({}, {}, {}, 0)
            items.append(T('tuple', self.lift(ast.literal_eval(k)), self.lookup(fr, st, v.id) if isinstance(v, ast.Name) else self.lift(ast.literal_eval(v))))
        return T('dict', *items)

    def lift(self, v):
        if isinstance(v, (str, bytes, int, float, bool, type(None), complex)):
            return const(v)
        if isinstance(v, tuple):
            return T('tuple', *[self.lift(x) for x in v])
        if isinstance(v, list):
            return T('list', *[self.lift(x) for x in v])
        if isinstance(v, (set, frozenset)):
            return T('set', *[self.lift(x) for x in sorted(v, key=repr)])
        if isinstance(v, dict):
            return T('dict', *[T('tuple', self.lift(k), self.lift(x)) for k, x in v.items()])
        return const(repr(v))

    # ------------------------------------------------------------------ expressions: each returns [(state, term)]
    def evs(self, exprs, st, fr):
        out = [(st, [])]
        for e in exprs:
            nxt = []
            for s, acc in out:
                for s2, v in self.ev(e, s, fr):
                    nxt.append((s2, acc + [v]))
            out = nxt
        return out

    def ev(self, e, st, fr):
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is None:
            raise AnalysisBroken(f'{fr.func.qual if fr.func else "?"}: cannot interpret {type(e).__name__} at line {e.lineno}')
        return m(e, st, fr)

    def ev_Constant(self, e, st, fr):
        if e.value is Ellipsis:
            return [(st, T('sym', '...'))]
        return [(st, const(e.value))]

    def ev_Name(self, e, st, fr):
        if e.id in self.watch:
            v = self.lookup(fr, st, e.id)
            if v.op in ('ext', 'sym'):
                st = self.emit(st, Ev('use', e.id, value=v, node=e, func=fr.func))
            return [(st, v)]
        return [(st, self.lookup(fr, st, e.id))]

    def ev_JoinedStr(self, e, st, fr):
        parts = []
        for v in e.values:
            parts.append(v.value if isinstance(v, ast.FormattedValue) else v)
        out = []
        for s, vs in self.evs(parts, st, fr):
            fs = []
            for v, x in zip(vs, e.values):
                if isinstance(x, ast.FormattedValue) and x.format_spec is not None:
                    v = T('fmt', v, ast.unparse(x.format_spec))
                fs.append(v)
            if all(is_const(v) for v in fs):
                out.append((s, const(''.join(str(v.args[0]) for v in fs))))
            else:
                out.append((s, T('fstr', *fs)))
        return out

    def ev_Tuple(self, e, st, fr, op='tuple'):
        out = []
        exprs = [x.value if isinstance(x, ast.Starred) else x for x in e.elts]
        for s, vs in self.evs(exprs, st, fr):
            items = []
            for x, v in zip(e.elts, vs):
                if isinstance(x, ast.Starred):
                    if v.op in ('tuple', 'list'):
                        items += v.args
                    else:
                        items.append(T('star', v))
                else:
                    items.append(v)
            if self.sets and op in ('list', 'set') and len(items) == 1 and items[0].op == 'star' and self.setlike(items[0].args[0]):
                out.append(self.newset(s, fr, e, 'copy', items[0].args[0]))
                continue
            if self.sets and not items and op == 'list' and isinstance(e, ast.List):
                out.append(self.newset(s, fr, e, 'empty'))
            elif not items and op in ('list', 'set', 'dict'):
                out.append((s, T('new', op, self.site(fr, e))))
            else:
                out.append((s, T(op, *items)))
        return out

    def ev_List(self, e, st, fr):
        return self.ev_Tuple(e, st, fr, 'list')

    def ev_Set(self, e, st, fr):
        return self.ev_Tuple(e, st, fr, 'set')

    def ev_Dict(self, e, st, fr):
        if not e.keys:
            return [(st, T('new', 'dict', self.site(fr, e)))]
        out = []
        ks = [k for k in e.keys if k is not None]
        for s, kv in self.evs(ks, st, fr):
            for s2, vv in self.evs(e.values, s, fr):
                it = iter(kv)
                items = []
                for k, v in zip(e.keys, vv):
                    if k is None:
                        if v.op == 'dict':
                            items += v.args
                        else:
                            items.append(T('star', v))
                    else:
                        kk = next(it)
                        items = [x for x in items if not (x.op == 'tuple' and x.args[0] is kk)]
                        items.append(T('tuple', kk, v))
                out.append((s2, T('dict', *items)))
        return out

    def ev_Starred(self, e, st, fr):
        return [(s, T('star', v)) for s, v in self.ev(e.value, st, fr)]

    def ev_NamedExpr(self, e, st, fr):
        out = []
        for s, v in self.ev(e.value, st, fr):
            out.append((self.bind(s, fr, e.target.id, v), v))
        return out

    def ev_Lambda(self, e, st, fr):
        return [(st, self.mk_closure(e, fr))]

    def mk_closure(self, node, fr):
        for i, (n, f) in enumerate(self.closures):
            if n is node and f.fid == fr.fid:
                return T('closure', i)
        self.closures.append((node, fr))
        return T('closure', len(self.closures) - 1)

    def ev_Await(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def ev_Yield(self, e, st, fr):
        out = []
        for s, v in (self.ev(e.value, st, fr) if e.value else [(st, NONE)]):
            if self.yields and self.yields[-1] is not None:
                for s2 in self.yields[-1](s, v):
                    out.append((s2, NONE))
            else:
                out.append((self.emit(s, Ev('yield', value=v, node=e, func=fr.func)), NONE))
        return out

    def ev_YieldFrom(self, e, st, fr):
        out = []
        for s, v in self.ev(e.value, st, fr):
            out.append((self.emit(s, Ev('yieldfrom', value=v, node=e, func=fr.func)), NONE))
        return out

    def ev_Attribute(self, e, st, fr):
        out = []
        for s, b in self.ev(e.value, st, fr):
            out += self.load_attr(s, b, e.attr, fr, e)
        return out

    def load_attr(self, s, b, name, fr, node):
        if b.op == 'ext':
            return [(s, T('ext', f'{b.args[0]}.{name}'))]
        if b.op == 'ntup':
            for f, v in b.args[1]:
                if f == name:
                    return [(s, v)]
        if b.op == 'class':
            c = self._cls_by_qual(b.args[0])
            r = c and self.p.find_class_attr(c, name)
            if r:
                v = self.const_expr(r[0].module, r[1])
                if v is not None:
                    return [(s, v)]
        if name == '__dict__' and self.dirs is not None and b is T('sym', 'self'):
            return [(s, T('dict', *[T('tuple', const(x), T('attr', b, x)) for x in self.dirs]))]
        if (b, name) in s.heap:
            return [(s, s.heap[(b, name)])]
        c = self.typeof(b)
        if c is not None:
            pr = self.p.find_prop(c, name, 'get')
            if pr is not None and self.may_inline(pr, prop=True):
                return self.call_func(pr, s, fr, [], {}, node, self_term=b, cls=c)
            mt = self.p.find_method(c, name)
            if mt is not None:
                return [(s, T('bound', b, mt.qual))]
            if name not in self._annots(c) and not self._assigned(c, name):
                r = self.p.find_class_attr(c, name)
                if r:
                    v = self.const_expr(r[0].module, r[1])
                    if v is not None:
                        return [(s, v)]
        return [(s, T('attr', b, name))]

    def _assigned(self, c, name):
        cache = getattr(c, '_assigned', None)
        if cache is None:
            cache = set()
            for k in self.p.mro(c):
                if isinstance(k, Class):
                    for m in k.methods.values():
                        cache |= {n.attr for n in ast.walk(m.node) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)}
            c._assigned = cache
        return name in cache

    def ev_Subscript(self, e, st, fr):
        out = []
        for s, b in self.ev(e.value, st, fr):
            if isinstance(e.slice, ast.Slice):
                parts = [x for x in (e.slice.lower, e.slice.upper, e.slice.step) if x is not None]
                for s2, vs in self.evs(parts, s, fr):
                    it = iter(vs)
                    lo, hi, stp = [next(it) if x is not None else NONE for x in (e.slice.lower, e.slice.upper, e.slice.step)]
                    if b.op in ('tuple', 'list') and all(x is NONE or is_num(x) for x in (lo, hi, stp)) and not any(x.op == 'star' for x in b.args):
                        sl = slice(*[None if x is NONE else int(x.args[0]) for x in (lo, hi, stp)])
                        out.append((s2, T(b.op, *b.args[sl])))
                    else:
                        out.append((s2, T('slice', b, lo, hi, stp)))
            else:
                for s2, k in self.ev(e.slice, s, fr):
                    if self.idx_exc and self.tries and b.op not in ('tuple', 'list', 'ntup'):
                        self.implicit_raise(s2, fr, e, 'idx')
                    out.append((s2, self.load_idx(s2, b, k)))
        return out

    def load_idx(self, s, b, k):
        if (b, '[]', k) in s.heap:
            return s.heap[(b, '[]', k)]
        if b.op in ('tuple', 'list') and is_num(k) and not any(x.op == 'star' for x in b.args):
            i = int(k.args[0])
            if -len(b.args) <= i < len(b.args):
                return b.args[i]
        if b.op == 'dict' and is_const(k):
            for it in reversed(b.args):
                if it.op == 'star':
                    break
                if it.args[0] is k:
                    return it.args[1]
        if b.op == 'ntup' and is_num(k):
            i = int(k.args[0])
            if -len(b.args[1]) <= i < len(b.args[1]):
                return b.args[1][i][1]
        if is_num(k):
            c = self.typeof(b)
            if self.is_ntup(c):
                fields = list(c.annots)
                i = int(k.args[0])
                if -len(fields) <= i < len(fields):
                    return T('attr', b, fields[i])
        if b.op == 'comp' and b.args[0] == 'dict' and b.args[1].op == 'tuple' and len(b.args[1].args) == 2:
            key, val = b.args[1].args     # {k: v for k, v in d.items() if cond}[x] is d[x] if the condition holds for x
            if key.op == 'elem' and key.args[0] is b.args[2] and val is T('idx', b.args[2], key) and \
                    (b.args[3] is TRUE or decide(rebuild(b.args[3], lambda t: k if t is key else rel(*t.args, '==') if t.op == 'eq' else mk_not(*t.args) if t.op == 'not' else t), s.facts) is True):
                return self.load_idx(s, b.args[2], k)
        return T('idx', b, k)

    def ev_Slice(self, e, st, fr):
        parts = [x for x in (e.lower, e.upper, e.step) if x is not None]
        out = []
        for s, vs in self.evs(parts, st, fr):
            it = iter(vs)
            out.append((s, T('sliceobj', *[next(it) if x is not None else NONE for x in (e.lower, e.upper, e.step)])))
        return out

    def ev_UnaryOp(self, e, st, fr):
        out = []
        if isinstance(e.op, ast.Not):
            for s, v in self.ev(e.operand, st, fr):
                out.append((s, mk_not(truth(v))))
            return out
        for s, v in self.ev(e.operand, st, fr):
            if isinstance(e.op, ast.USub):
                if is_const(v) and isinstance(v.args[0], float) and not is_num(v):
                    out.append((s, const(-v.args[0])))
                else:
                    out.append((s, neg(v)))
            elif isinstance(e.op, ast.UAdd):
                out.append((s, v))
            else:
                out.append((s, T('invert', v)))
        return out

    def arith(self, op, a, b):
        n = type(op).__name__
        stringy = ('fstr', 'concat', 'join', 'list', 'tuple')

        def is_str(x):
            return x.op in stringy or is_const(x) and isinstance(x.args[0], (str, bytes))
        if n == 'Add':
            if is_const(a) and is_const(b) and isinstance(a.args[0], str) and isinstance(b.args[0], str):
                return const(a.args[0] + b.args[0])
            if a.op in ('list', 'tuple') and b.op == a.op:
                return T(a.op, *a.args, *b.args)
            if is_str(a) or is_str(b):
                x = a.args if a.op == 'concat' else (a,)
                y = b.args if b.op == 'concat' else (b,)
                return T('concat', *x, *y)
            return add(a, b)
        if n == 'Sub':
            if a.op == 'new' or b.op == 'new':
                return T('setop', '-', a, b)
            return sub(a, b)
        if n == 'Mult':
            if is_str(a) or is_str(b):
                return T('repeat', a, b)
            return mul(a, b)
        if n == 'Div':
            if is_str(b) or a.op == 'join' or b.op == 'join':
                x = a.args if a.op == 'join' else (a,)
                return T('join', *x, b)
            return div(a, b)
        if n == 'BitOr' and a.op == 'dict' and b.op == 'dict':
            return T('dict', *[x for x in a.args if all(y.args[0] is not x.args[0] for y in b.args if y.op == 'tuple')], *b.args)
        if n == 'Pow' and is_num(b) and b.args[0] == 2:
            return mul(a, a)
        if n in ('BitAnd', 'BitOr', 'BitXor'):
            if all(x.op in ('rel', 'truth', 'not', 'and', 'or', 'in', 'is', 'eq', 'exists') or x in (TRUE, FALSE) for x in (a, b)):
                if n == 'BitAnd':
                    return mk_and([a, b])
                if n == 'BitOr':
                    return mk_or([a, b])
                return mk_or([mk_and([a, mk_not(b)]), mk_and([mk_not(a), b])])
            x, y = sorted((a, b), key=lambda t: t.key())
            return T('setop', {'BitAnd': '&', 'BitOr': '|', 'BitXor': '^'}[n], x, y)
        return T('bin', n, a, b)

    def ev_BinOp(self, e, st, fr):
        out = []
        for s, (a, b) in self.evs([e.left, e.right], st, fr):
            o = {ast.BitAnd: '&', ast.BitOr: '|', ast.Sub: '-'}.get(type(e.op))
            if self.sets and o and (self.setlike(a) or self.setlike(b)):
                out.append(self.newset(s, fr, e, o, a, b))
            else:
                out.append((s, self.arith(e.op, a, b)))
        return out

    def setlike(self, t):
        return t in self.setvars or t.op == 'new' and t.args[0] in ('set', 'list', 'dict', 'deque') or t.op == 'set' and len(t.args) == 1 and t.args[0].op == 'star' or \
            t.op == 'call' and t.args[0] in ('keys', 'items', 'list', 'set') and self.setlike(t.args[1] if t.args[1] is not None else t.args[2][0] if t.args[2] else NONE)

    def newset(self, s, fr, e, how, *src, value=None):
        """(option sets) A new container derived from others, recorded as an event."""
        x = T('new', 'set', self.site(fr, e))
        s = s.but(facts={f: v for f, v in s.facts.items() if not contains(f[1] if isinstance(f, tuple) else f, lambda y: y is x)})
        return self.emit(s, Ev('setop', how, target=x, args=tuple(src), value=value, node=e, func=fr.func)), x

    def compare(self, op, a, b):
        n = type(op).__name__
        if n in ('Lt', 'LtE', 'Gt', 'GtE', 'Eq', 'NotEq'):
            o = {'Lt': '<', 'LtE': '<=', 'Gt': '>', 'GtE': '>=', 'Eq': '==', 'NotEq': '!='}[n]
            if o in ('==', '!='):
                if a.op in ('tuple', 'list') and b.op == a.op and len(a.args) == len(b.args):
                    f = mk_and([self.compare(ast.Eq(), x, y) for x, y in zip(a.args, b.args)])
                    return f if o == '==' else mk_not(f)
                if a in (TRUE, FALSE) or b in (TRUE, FALSE):
                    x, c = (a, b) if b in (TRUE, FALSE) else (b, a)
                    if x.op in ('rel', 'and', 'or', 'not', 'in', 'is', 'eq', 'exists', 'truth'):
                        f = x if c is TRUE else mk_not(x)
                        return f if o == '==' else mk_not(f)
            return rel(a, b, o)
        if n in ('Is', 'IsNot'):
            if is_const(a) and not is_const(b):
                a, b = b, a
            f = T('is', a, b)
            return f if n == 'Is' else mk_not(f)
        f = self.member(a, b)
        return f if n == 'In' else mk_not(f)

    def member(self, a, d):
        while True:
            if d.op == 'call' and d.args[0] in ('keys', 'copy') and d.args[1] is not None and not d.args[2]:
                d = d.args[1]
            elif d.op == 'call' and d.args[0] in ('list', 'tuple', 'set', 'sorted', 'dict') and d.args[1] is None and len(d.args[2]) == 1:
                d = d.args[2][0]
            elif d.op in ('list', 'tuple', 'set') and len(d.args) == 1 and d.args[0].op == 'star':
                d = d.args[0].args[0]
            else:
                break
        if d.op in ('tuple', 'list', 'set') and not any(x.op == 'star' for x in d.args):
            return mk_or([rel(a, x, '==') for x in d.args])
        if d.op == 'dict' and not any(x.op == 'star' for x in d.args):
            return mk_or([rel(a, x.args[0], '==') for x in d.args])
        if d.op == 'setop':
            o, x, y = d.args
            if o == '-':
                return mk_and([self.member(a, x), mk_not(self.member(a, y))])
            if o == '&':
                return mk_and([self.member(a, x), self.member(a, y)])
            if o == '|':
                return mk_or([self.member(a, x), self.member(a, y)])
        if is_const(a) and is_const(d) and isinstance(d.args[0], str) and isinstance(a.args[0], str):
            return const(a.args[0] in d.args[0])
        return T('in', a, d)

    def ev_Compare(self, e, st, fr):
        out = []
        for s, vs in self.evs([e.left] + e.comparators, st, fr):
            xs = [e.left] + e.comparators
            fs = []
            for i, (o, a, b) in enumerate(zip(e.ops, vs, vs[1:])):
                if isinstance(o, (ast.Eq, ast.NotEq)) and a is b and not is_const(a) and ast.dump(xs[i]) == ast.dump(xs[i + 1]):
                    nan = truth(T('call', 'numpy.isnan', None, (a,), (), None))       # x == x is how nan is recognised
                    fs.append(mk_not(nan) if isinstance(o, ast.Eq) else nan)
                else:
                    fs.append(self.compare(o, a, b))
            out.append((s, mk_and(fs)))
        return out

    def ev_BoolOp(self, e, st, fr):
        # value semantics with short circuit
        is_and = isinstance(e.op, ast.And)
        cur = [st]
        out = []
        for i, x in enumerate(e.values):
            nxt = []
            last = i == len(e.values) - 1
            for s in cur:
                for s1, v in self.ev(x, s, fr):
                    if last:
                        out.append((s1, v))
                        continue
                    for s2, b in self.branch(s1, truth(v)):
                        if b == is_and:
                            nxt.append(s2)
                        else:
                            out.append((s2, const(b) if v.op in ('rel', 'and', 'or', 'not', 'in', 'is', 'eq', 'exists', 'truth') else v))
            cur = nxt
        return out

    def cond(self, e, st, fr):
        """-> [(state, bool)] with short-circuiting"""
        if isinstance(e, ast.BoolOp):
            is_and = isinstance(e.op, ast.And)
            cur, out = [st], []
            for x in e.values:
                nxt = []
                for s in cur:
                    for s1, b in self.cond(x, s, fr):
                        (nxt if b == is_and else out).append(s1 if b == is_and else (s1, b))
                cur = nxt
            return out + [(s, is_and) for s in cur]
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(s, not b) for s, b in self.cond(e.operand, st, fr)]
        out = []
        for s, v in self.ev(e, st, fr):
            out += self.branch(s, truth(v))
        return out

    def ev_IfExp(self, e, st, fr):
        out = []
        for s, b in self.cond(e.test, st, fr):
            out += self.ev(e.body if b else e.orelse, s, fr)
        return out

    # comprehension ------------------------------------------------------------
    def ev_ListComp(self, e, st, fr):
        return self.comp('list', e, e.elt, st, fr)

    def ev_SetComp(self, e, st, fr):
        return self.comp('set', e, e.elt, st, fr)

    def ev_GeneratorExp(self, e, st, fr):
        return self.comp('list', e, e.elt, st, fr)

    def ev_DictComp(self, e, st, fr):
        return self.comp('dict', e, ast.Tuple([e.key, e.value], ast.Load(), lineno=e.lineno, col_offset=e.col_offset), st, fr)

    def unfiltered(f):
        """Conditions of comprehensions are kept whole, whatever facts are kept."""
        def g(self, *a):
            keep, self.keep = self.keep, None
            try:
                r = f(self, *a)
            finally:
                self.keep = keep
            if keep is None:
                return r
            return [(s if all(keep(k[1] if isinstance(k, tuple) else k) for k in s.facts) else s.but(facts=self._filter(s.facts, {})), v) for s, v in r]
        return g

    @unfiltered
    def comp(self, kind, e, elt, st, fr):
        gens = e.generators
        sub = Frame(chain_id((fr.fid, 'comp', e.lineno, e.col_offset)), fr.func, parent=fr, self_term=fr.self_term, cls=fr.cls,
                    defcls=fr.defcls, module=fr.module, chain=fr.chain)
        out = []
        for s0, it in self.ev(gens[0].iter, st, fr):
            few = self.iter_spec(s0, it) if self.dirs is not None and len(gens) == 1 else ('gen',)
            if few[0] == 'unroll' and len(few[1]) <= 1:
                # partial evaluation: path by path
                cur, done = [s0] if few[1] else [], [] if few[1] else [(s0, T(kind))]
                cur = [x for y in cur for x in self.assign(y, sub, gens[0].target, few[1][0], e)]
                for cnd in gens[0].ifs:
                    nxt = []
                    for x in cur:
                        for s1, b in self.cond(cnd, x, sub):
                            if b:
                                nxt.append(s1)
                            else:
                                done.append((s1, T(kind)))
                    cur = nxt
                done += [(s1, T(kind, v)) for x in cur for s1, v in self.ev(elt, x, sub)]
                out += [(x.but(env={k: v for k, v in x.env.items() if k[0] != sub.fid}), v) for x, v in done]
                continue
            acc = []          # (elt, delta formula, ordinal)

            def inner(gi, s, base):
                """evaluates conditions of generator gi and the following generators"""
                g = gens[gi]
                cur = [s]
                rejected = []
                for c in g.ifs:
                    nxt = []
                    for x in cur:
                        for s1, b in self.cond(c, x, sub):
                            (nxt if b else rejected).append(s1)
                    cur = nxt
                done = []
                for x in cur:
                    if gi + 1 < len(gens):
                        for s1, it1 in self.ev(gens[gi + 1].iter, x, sub):
                            o = self.loop(s1, it1, gens[gi + 1].target, lambda y: inner(gi + 1, y, base), sub, gens[gi + 1].iter, live=None)
                            done += o.next
                    else:
                        for s1, v in self.ev(elt, x, sub):
                            d = [f for f in fact_formulas({k: w for k, w in s1.facts.items() if base.get(k) != w})]
                            acc.append((v, mk_and(sorted(d, key=lambda t: t.key()))))
                            if self.locals_ev:
                                s1 = self.emit(s1, Ev('local', '<elt>', value=v, target=it, node=elt, func=fr.func))
                            done.append(s1)
                o = Out()
                o.next = done + rejected
                return o

            base = s0.facts
            o = self.loop(s0, it, gens[0].target, lambda y: inner(0, y, y.facts), sub, gens[0].iter, live=None)
            spec = self.iter_spec(s0, it)
            for s in self.merge([x.but(env={k: v for k, v in x.env.items() if k[0] != sub.fid}) for x in o.next]):
                if spec[0] == 'unroll' and not any(True for _ in ()):
                    # literal iterable: keep order; conditions must be decided
                    if all(c is TRUE or decide(c, s.facts) is True for _, c in acc) and len(acc) <= 64:
                        items = []
                        for v, _ in acc:
                            if v not in items or kind == 'list':
                                items.append(v)
                        n = len(spec[1])
                        if len(items) == n or kind != 'list':
                            out.append((s, T(kind, *items) if items else T('new', kind, self.site(fr, e))))
                            continue
                    elts = tuple(dict.fromkeys(T('cond', c, v) for v, c in acc))
                    out.append((s, T('comp', kind, T('phi', *elts), it, TRUE, self.site(fr, e))))
                    continue
                elts = list(dict.fromkeys(v for v, _ in acc))
                cnd = mk_or(list(dict.fromkeys(c for _, c in acc)))
                el = elts[0] if len(elts) == 1 else T('phi', *elts)
                base_it = spec[1] if spec[0] == 'gen' else it
                if spec[0] == 'comp':
                    base_it = spec[1].args[2]
                if kind == 'list' and cnd is TRUE and spec[0] == 'gen' and isinstance(elt, ast.Name) and len(gens) == 1 \
                        and isinstance(gens[0].target, ast.Name) and gens[0].target.id == elt.id:
                    out.append((s, T('list', T('star', it))))
                    continue
                if self.sets and kind in ('set', 'list') and len(gens) == 1 and el.op in ('elem', 'idx') and \
                        (self.setlike(base_it) or spec[0] == 'gen' and base_it.op == 'attr'):
                    out.append(self.newset(s, fr, e, 'filter', base_it, el, value=cnd))
                    continue
                out.append((s, T('comp', kind, el, base_it, cnd, self.site(fr, e))))
        return out

    # iteration ----------------------------------------------------------------
    def iter_spec(self, st, t):
        """('unroll', [terms]) | ('comp', comp) | ('gen', D, mode)   mode: elem/items/values/enum/zip"""
        wrap = None
        while True:
            if t.op == 'call':
                name, recv, args, kw, site = t.args
                if recv is not None and name in ('keys', 'copy') and not args:
                    t = recv
                    continue
                if recv is None and name in ('list', 'tuple', 'set', 'sorted', 'iter', 'reversed', 'dict', 'frozenset') and len(args) == 1:
                    t = args[0]
                    continue
                if recv is not None and name == 'items' and not args:
                    sp = self.iter_spec(st, recv)
                    if recv.op == 'dict' and not any(x.op == 'star' for x in recv.args):
                        return ('unroll', list(recv.args))
                    if sp[0] == 'gen':
                        return ('gen', sp[1], 'items')
                    return ('gen', recv, 'items')
                if recv is not None and name == 'values' and not args:
                    if recv.op == 'dict' and not any(x.op == 'star' for x in recv.args):
                        return ('unroll', [x.args[1] for x in recv.args])
                    sp = self.iter_spec(st, recv)
                    return ('gen', sp[1] if sp[0] == 'gen' else recv, 'values')
                if recv is None and name == 'enumerate' and args:
                    sp = self.iter_spec(st, args[0])
                    if sp[0] == 'unroll':
                        return ('unroll', [T('tuple', const(i), x) for i, x in enumerate(sp[1])])
                    return ('gen', t, 'enum')
                if recv is None and name == 'zip':
                    sps = [self.iter_spec(st, a) for a in args]
                    if sps and all(s[0] == 'unroll' for s in sps):
                        return ('unroll', [T('tuple', *x) for x in zip(*[s[1] for s in sps])])
                    return ('gen', t, 'zip')
                if recv is None and name == 'range' and args and all(is_num(a) for a in args):
                    r = range(*[int(a.args[0]) for a in args])
                    if len(r) <= 12:
                        return ('unroll', [const(i) for i in r])
            if t.op in ('list', 'tuple', 'set'):
                if len(t.args) == 1 and t.args[0].op == 'star':
                    t = t.args[0].args[0]
                    continue
                if not any(x.op == 'star' for x in t.args) and len(t.args) <= 24:
                    return ('unroll', list(t.args))
            if t.op == 'dict' and not any(x.op == 'star' for x in t.args):
                return ('unroll', [x.args[0] for x in t.args])
            if t.op == 'comp':
                if t.args[1].op != 'phi':
                    return ('comp', t)
            if t.op == 'genf':
                return ('genf', t)
            return ('gen', t, 'elem')

    def elem_value(self, st, D, mode, site):
        if mode == 'enum':
            x = D.args[2][0]
            sp = self.iter_spec(st, x)
            el = self.elem_value(st, sp[1], sp[2], site) if sp[0] == 'gen' else T('elem', x, site)
            return T('tuple', T('hv', site, 'i'), el)
        if mode == 'zip':
            vs = []
            for a in D.args[2]:
                sp = self.iter_spec(st, a)
                vs.append(self.elem_value(st, sp[1], sp[2], site) if sp[0] == 'gen' else T('elem', a, site))
            return T('tuple', *vs)
        k = T('elem', D, site)
        if mode == 'elem':
            return k
        v = self.load_idx(st, D, k)
        return v if mode == 'values' else T('tuple', k, v)

    def loop(self, st, it, target, body, fr, node, live, orelse=None):
        """Runs a for loop; body(state)->Out. Returns Out whose next are states after the loop."""
        spec = self.iter_spec(st, it)
        res = Out()
        site = self.site(fr, node)
        if spec[0] == 'unroll':
            cur = [st]
            for v in spec[1]:
                nxt = []
                for s in cur:
                    s = self.bind_target(s, fr, target, v)
                    o = body(s)
                    nxt += o.next + o.cont
                    res.ret += o.ret
                    res.exc += o.exc
                    res.next += o.brk
                cur = self.merge(nxt)
            fin = cur
            if orelse:
                o = self.block(orelse, fin, fr, live)
                fin = o.next
                res.absorb(o)
            res.next += fin
            return res
        if spec[0] == 'genf':
            return self.loop_genfunc(st, spec[1], target, body, fr, node, live, orelse)
        names, stored, mutated, mvars = self.loop_mods(node, fr)
        D = spec[1] if spec[0] == 'gen' else spec[1].args[2]

        def havoc(s):
            return self.havoc(s, fr, names, stored, mutated, mvars, site)
        heads = {}     # key -> (facts, node, state)
        base_facts = st.facts
        st = self.known(st)
        todo = [st]
        exits = []
        while todo:
            s = todo.pop()
            h = havoc(s)
            h = self.kill(h, lambda k: contains(k, lambda x: x.op == 'elem' and x.args[1] == site))
            env = {k: (T('hv', site, k[1]) if contains(v, lambda x: x.op == 'elem' and x.args[1] == site) else v) for k, v in h.env.items()}
            h = h.but(env=env)
            if isinstance(getattr(node, '_loop', None), ast.For):
                h = self.drop_dead(h, fr, node._loop, live)
            if len(heads) > self.max_heads:
                h = self.generalise(h, st, site)
            key = (frozenset(h.env.items()), frozenset(h.heap.items()))
            facts = h.facts
            if key in heads:
                f0, n0 = heads[key]
                common = {k: v for k, v in f0.items() if facts.get(k) == v}
                if len(common) == len(f0):
                    self.g.edge(h.node, n0)
                    continue
                facts = common
            else:
                facts = {k: v for k, v in facts.items() if base_facts.get(k) == v or self._boolish(k)}
            h = h.but(facts=facts)
            h = self.emit(h, Ev('loophead', target=D, node=node, func=fr.func, site=site))
            heads[key] = (facts, h.node)
            if len(heads) > 40:
                raise AnalysisBroken('loop does not stabilise')
            # exhausted
            x = self.emit(h, Ev('loopexit', target=D, node=node, func=fr.func, site=site))
            exits.append(x)
            # next iteration
            b = self.emit(h, Ev('iter', target=D, node=node, func=fr.func, site=site, extra=spec[2] if spec[0] == 'gen' else 'comp'))
            if spec[0] == 'comp':
                cmp_ = spec[1]
                el = T('elem', D, site)

                def ren(x, D=D, el=el):
                    return rebuild(x, lambda y: el if y.op == 'elem' and y.args[0] is D else y)
                cnd, val = ren(cmp_.args[3]), ren(cmp_.args[1])
                if cmp_.args[0] == 'dict' and val.op == 'tuple':
                    val = val.args[0]
                inb = []
                for s1, ok in self.branch(b, cnd):
                    if ok:
                        inb.append(self.bind_target(s1, fr, target, val))
                    else:
                        e = self.emit(s1, Ev('iterend', target=D, node=node, func=fr.func, site=site, extra='filtered'))
                        todo.append(e)
            else:
                v = self.elem_value(b, D, spec[2], site)
                inb = [self.bind_target(b, fr, target, v)]
            for s1 in inb:
                o = body(s1)
                res.ret += o.ret
                res.exc += o.exc
                for s2 in o.brk:
                    res.next.append(self.emit(s2, Ev('break', target=D, node=node, func=fr.func, site=site)))
                for s2 in self.merge(o.next + o.cont):
                    todo.append(self.emit(s2, Ev('iterend', target=D, node=node, func=fr.func, site=site)))
        clean = lambda s: self.kill(s, lambda k: contains(k, lambda x: x.op == 'elem' and x.args[1] == site))
        fin = self.merge(exits)
        if orelse:
            o = self.block(orelse, fin, fr, live)
            fin = o.next
            res.absorb(o)
        res.next = self.merge([*fin, *res.next])
        return res

    def generalise(self, h, base, site):
        """Forgets how a state differs from the one before the loop."""
        gone = set()
        env = {}
        for k, v in h.env.items():
            if base.env.get(k) is not v:
                v = T('hv', site, k[1])
                gone.add(v)
            env[k] = v
        heap = {k: v for k, v in h.heap.items() if base.heap.get(k) is v and not contains(v, lambda x: x in gone)}
        h = h.but(env=env, heap=heap)
        h = h.but(facts={k: v for k, v in h.facts.items() if base.facts.get(k) == v})
        return self.kill(h, lambda k: contains(k, lambda x: x in gone)) if gone else h

    def _boolish(self, k):
        return False

    def loop_genfunc(self, st, t, target, body, fr, node, live, orelse):
        """for x in generator_helper(...): the helper body is run with the loop body at its yields."""
        qual, self_term, args, kw = t.args[:4]
        func = next((f for f in self.p.all_funcs() if f.qual == qual), None)
        res = Out()
        brk = []

        def on_yield(s, v):
            self.yields.append(None)
            s = self.bind_target(s, fr, target, v)
            o = body(s)
            self.yields.pop()
            res.ret.extend(o.ret)
            self.raised.extend(o.exc)
            brk.extend(o.brk)
            return self.merge(o.next + o.cont)
        self.yields.append(on_yield)
        r = self.call_func(func, st, fr, list(args), dict(kw), node, self_term=self_term, cls=self.typeof(self_term) if self_term is not None else None, force=True)
        self.yields.pop()
        fin = [s for s, _ in r]
        if orelse:
            o = self.block(orelse, fin, fr, live)
            fin = o.next
            res.absorb(o)
        res.next = self.merge(fin + brk)
        return res

    def loop_mods(self, node, fr):
        """(local names, stored attrs, mutated attrs, mutated local vars) of the loop whose iter/test expr is `node`."""
        stmt = getattr(node, '_loop', None)
        if stmt is None:      # comprehension
            return set(), set(), set(), set()
        cache = getattr(stmt, '_mods', None)
        if cache is not None and cache[0] == (fr.cls.qual if fr.cls else None):
            return cache[1]
        names, mvars = set(), set()
        body = stmt.body + ([] if isinstance(stmt, ast.For) else [stmt.test])
        tgt = [stmt.target] if isinstance(stmt, ast.For) else []
        stored, mutated = set(), set()
        for b in body:
            s, m = self._trans_mods(b, fr)
            stored |= s
            mutated |= m
        for b in body + tgt:
            for n in ast.walk(b):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    names.add(n.id)
                elif isinstance(n, ast.NamedExpr):
                    names.add(n.target.id)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                    v = n.func.value
                    while isinstance(v, (ast.Subscript, ast.Attribute)):
                        v = v.value
                    if isinstance(v, ast.Name):
                        mvars.add(v.id)
                    # an argument list passed to helpers may be mutated as well
                elif isinstance(n, ast.Call):
                    for a in n.args:
                        if isinstance(a, ast.Name):
                            mvars.add(a.id)
                elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    v = n.value
                    while isinstance(v, (ast.Subscript, ast.Attribute)):
                        v = v.value
                    if isinstance(v, ast.Name):
                        mvars.add(v.id)
        aug = {n.target.id for b in body for n in ast.walk(b) if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and
               isinstance(n.op, (ast.BitOr, ast.Sub, ast.BitAnd))}
        ids = {id(n.target) for b in body for n in ast.walk(b) if isinstance(n, ast.AugAssign)}
        names = Names(names)
        names.inplace = aug - {n.id for b in body + tgt for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and id(n) not in ids}
        r = (names, stored, mutated, mvars)
        stmt._mods = ((fr.cls.qual if fr.cls else None), r)
        return r

    def _trans_mods(self, node, fr, seen=None):
        seen = seen if seen is not None else set()
        s, m, called = self.p.direct_mods(node)
        for name in called:
            fs = []
            if fr.cls is not None:
                f = self.p.find_method(fr.cls, name)
                if f:
                    fs.append(f)
            r = self.p.resolve(fr.module, name)
            if isinstance(r, Func):
                fs.append(r)
            for n, f2 in self.closures:
                if isinstance(n, ast.FunctionDef) and n.name == name:
                    a, b = self.p.direct_mods(n)[:2]
                    s |= a
                    m |= b
            for f in fs:
                if f.qual not in seen:
                    seen.add(f.qual)
                    a, b = self._trans_mods(f.node, Frame(0, f, cls=fr.cls, module=f.module), seen)
                    s |= a
                    m |= b
        if fr.cls is not None:
            for n in ast.walk(node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    pr = self.p.find_prop(fr.cls, n.attr, 'set')
                    if pr and pr.qual not in seen:
                        seen.add(pr.qual)
                        a, b = self._trans_mods(pr.node, Frame(0, pr, cls=fr.cls, module=pr.module), seen)
                        s |= a
                        m |= b
        return s, m

    def havoc(self, st, fr, names, stored, mutated, mvars, site):
        st = self.kill_attrs(st, stored, mutated)
        env = dict(st.env)
        gone, copies = set(), []
        for (fid, n), v in st.env.items():
            if fid == fr.fid and n in names:
                if is_const(v) and (isinstance(v.args[0], (bool, str)) or v.args[0] is None):
                    continue
                if v.op == 'hv' and v.args == (site, n):
                    gone.add(v)
                    continue
                if self.sets and self.setlike(v) and n in getattr(names, 'inplace', ()):
                    gone.add(v)
                    continue
                env[(fid, n)] = T('hv', site, n)
                gone.add(T('hv', site, n))
                if self.sets and self.setlike(v):
                    self.setvars.add(env[(fid, n)])
                    copies.append((env[(fid, n)], v))
        for x, v in copies:
            st = self.emit(st, Ev('setop', 'copy', target=x, args=(v,), func=fr.func))
        conts = set()
        for n in mvars:
            f = fr
            while f is not None:
                if (f.fid, n) in st.env:
                    conts.add(st.env[(f.fid, n)])
                    break
                f = f.parent
        bad = gone | {c for c in conts if not is_const(c)}
        for k, v in list(env.items()):
            if v.op in ('list', 'set') and v.args and v in conts:
                env[k] = T('hv', site, k[1])
        st = st.but(env=env)
        if bad:
            # facts about re-bound variables die entirely, facts about mutated containers die when they concern their content
            st = self.kill(st, lambda k: contains(k, lambda x: x in gone) or any(self._about_content(k, c) for c in conts))
            heap = {k: v for k, v in st.heap.items() if not (k[1] == '[]' and k[0] in conts or contains(v, lambda x: x in gone))}
            st = st.but(heap=heap)
        return st

    @staticmethod
    def _about_content(k, c):
        return contains(k, lambda x: x.op in ('in', 'truth', 'idx', 'call', 'exists', 'comp', 'elem', 'eq', 'rel', 'poly') and
                        any(y is c for y in subterms(x)))

    # ------------------------------------------------------------------ binding / stores
    def bind(self, st, fr, name, v):
        f = fr
        # comprehension frames bind locally; nested scopes only rebind with nonlocal
        env = dict(st.env)
        env[(f.fid, name)] = v
        return st.but(env=env)

    def assign_name(self, st, fr, name, v, node):
        f = fr
        if name in getattr(fr, 'nonlocals', ()):
            f = fr.parent
            while f is not None and (f.fid, name) not in st.env:
                f = f.parent
            f = f or fr
        env = dict(st.env)
        env[(f.fid, name)] = v
        st = st.but(env=env)
        if self.locals_ev:
            st = self.emit(st, Ev('local', name, value=v, node=node, func=fr.func))
        return st

    def bind_target(self, st, fr, target, v):
        """Binding which cannot raise or fork (loop targets, with targets)."""
        r = self.assign(st, fr, target, v, target)
        return r[0] if r else st

    def unpack(self, st, v, n):
        if v.op in ('tuple', 'list') and not any(x.op == 'star' for x in v.args) and len(v.args) == n:
            return list(v.args)
        if v.op == 'ntup' and len(v.args[1]) == n:
            return [x for _, x in v.args[1]]
        return [self.load_idx(st, v, const(i)) for i in range(n)]

    def assign(self, st, fr, target, v, node):
        """-> [states]"""
        if isinstance(target, ast.Name):
            return [self.assign_name(st, fr, target.id, v, node)]
        if isinstance(target, (ast.Tuple, ast.List)):
            elts = target.elts
            star = [i for i, x in enumerate(elts) if isinstance(x, ast.Starred)]
            if star:
                i = star[0]
                if v.op in ('tuple', 'list') and not any(x.op == 'star' for x in v.args) and len(v.args) >= len(elts) - 1:
                    k = len(v.args) - (len(elts) - 1)
                    vals = list(v.args[:i]) + [T('list', *v.args[i:i + k])] + list(v.args[i + k:])
                else:
                    vals = [self.load_idx(st, v, const(j)) for j in range(i)] + \
                           [T('slice', v, const(i), NONE if i == len(elts) - 1 else const(i - len(elts) + 1), NONE)] + \
                           [self.load_idx(st, v, const(j - len(elts))) for j in range(i + 1, len(elts))]
                elts = [x.value if isinstance(x, ast.Starred) else x for x in elts]
            else:
                vals = self.unpack(st, v, len(elts))
            cur = [st]
            for t, x in zip(elts, vals):
                cur = [s2 for s in cur for s2 in self.assign(s, fr, t, x, node)]
            return cur
        if isinstance(target, ast.Attribute):
            out = []
            for s, b in self.ev(target.value, st, fr):
                out += self.store_attr(s, fr, b, target.attr, v, node)
            return out
        if isinstance(target, ast.Subscript):
            out = []
            for s, b in self.ev(target.value, st, fr):
                for s2, k in self.ev(target.slice, s, fr):
                    out.append(self.store_idx(s2, fr, b, k, v, node))
            return out
        raise AnalysisBroken(f'assignment target {type(target).__name__}')

    def store_attr(self, st, fr, b, name, v, node):
        c = self.typeof(b)
        if c is not None:
            pr = self.p.find_prop(c, name, 'set')
            if pr is not None and self.may_inline(pr, prop=True):
                return [s for s, _ in self.call_func(pr, st, fr, [v], {}, node, self_term=b, cls=c)]
        cur = T('attr', b, name)
        st = self.emit(st, Ev('store', name, target=cur, value=v, node=node, func=fr.func, recv=b))
        selfref = contains(v, lambda x: x is cur)

        def sb(t):
            return rebuild(t, lambda x: T('old', x, 0) if x is cur else x) if name in attrs_in(t) else t
        env = {k: sb(x) for k, x in st.env.items()}
        heap = {k: sb(x) for k, x in st.heap.items() if k != (b, name) and not (k[0] is not None and name in attrs_in(k[0]) and contains(k[0], lambda x: x is cur))}
        kept = {}
        if self.keep_old:
            for k, x in st.facts.items():
                t = k[1] if isinstance(k, tuple) else k
                if name in attrs_in(t) and contains(t, lambda y: y is cur):
                    kept[('p', sb(t)) if isinstance(k, tuple) else sb(t)] = x
        st = self.kill(st.but(env=env, heap=heap), lambda k: name in attrs_in(k) and contains(k, lambda x: x is cur or x.op == 'attr' and x.args[1] == name and x.args[0].op != 'sym' and b.op != 'sym'))
        if kept:
            st = st.but(facts={**st.facts, **kept})
        if not selfref:
            heap = dict(st.heap)
            heap[(b, name)] = v
            st = st.but(heap=heap)
        return [st]

    def store_idx(self, st, fr, b, k, v, node):
        st = self.emit(st, Ev('storeidx', target=T('idx', b, k), recv=b, args=(k,), value=v, node=node, func=fr.func))
        cur = T('idx', b, k)
        selfref = contains(v, lambda x: x is cur)
        # other keys of the same container become unknown (they may be equal), membership in k is known
        heap = {h: x for h, x in st.heap.items() if not (h[1] == '[]' and h[0] is b and not (is_const(h[2]) and is_const(k) and h[2] is not k))}
        def sb(t):
            return rebuild(t, lambda x: T('old', x, 0) if x.op == 'idx' and x.args[0] is b and not (is_const(x.args[1]) and is_const(k) and x.args[1] is not k) else x)
        env = {h: (sb(x) if contains(x, lambda y: y.op == 'idx' and y.args[0] is b) else x) for h, x in st.env.items()}
        st = st.but(env=env)
        if not selfref:
            heap[(b, '[]', k)] = v
        st = self.kill(st.but(heap=heap), lambda f: contains(f, lambda x: x.op == 'idx' and x.args[0] is b or x.op in ('comp', 'exists') and contains(x, lambda y: y is b)) or
                       (f.op == 'in' and f.args[1] is b and f.args[0] is not k and st.facts.get(f) is False) or
                       (f.op == 'truth' and f.args[0] is b) or (f.op in ('poly', 'call') and self._about_content(f, b)))
        facts = dict(st.facts)
        if b.op not in ('tuple', 'list'):
            facts[T('in', k, b)] = True
        return st.but(facts=facts)

    def mutate(self, st, b, name, args):
        """Effect of a mutator method on facts about container b."""
        x = args[0] if args else None
        facts = {}
        for f, v in st.facts.items():
            a = f[1] if isinstance(f, tuple) else f
            if not isinstance(f, tuple) and a.op == 'in' and a.args[1] is b:
                if name in ('add', 'append', 'insert', 'setdefault', 'update', 'extend') and v is True:
                    facts[f] = v
                elif name in ('remove', 'discard', 'pop', 'clear', 'popitem', 'difference_update') and v is False:
                    facts[f] = v
                elif name in ('sort', 'reverse'):
                    facts[f] = v
                continue
            if self._about_content(a, b):
                if name in ('sort', 'reverse') and not isinstance(f, tuple) and a.op == 'truth':
                    facts[f] = v
                continue
            facts[f] = v
        if name in ('add', 'append') and x is not None:
            facts[T('in', x, b)] = True
            if truth(b).op == 'truth':
                facts[truth(b)] = True
        elif name in ('remove', 'discard') and x is not None:
            facts[T('in', x, b)] = False
        elif name == 'pop' and x is not None and not is_num(x):
            facts[T('in', x, b)] = False
        elif name == 'clear' and truth(b).op == 'truth':
            facts[truth(b)] = False
        heap = {h: v for h, v in st.heap.items() if not (h[1] == '[]' and h[0] is b)}
        return st.but(facts=facts, heap=heap)

    # ------------------------------------------------------------------ calls
    def may_inline(self, func, prop=False):
        if func.name in self.opaque or func.qual in self.opaque:
            return False
        if self.p.is_abstract(func):
            return False
        if func in self.callstack or len(self.callstack) > 7:
            return False
        if func.qual not in VOCAB:
            return True
        if prop:
            return True
        if self.inline == '*':
            return True
        return func.name in self.inline or func.qual in self.inline

    def bind_args(self, fnode, args, kw, skip_self, fr, st, self_term, module):
        """Returns dict param->term or None if not bindable statically."""
        a = fnode.args
        params = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        pos = list(args)
        if skip_self and params:
            env[params[0]] = self_term
            params = params[1:]
        if any(x.op == 'star' for x in pos):
            ex = []
            for x in pos:
                if x.op == 'star' and x.args[0].op in ('tuple', 'list') and not any(y.op == 'star' for y in x.args[0].args):
                    ex += x.args[0].args
                elif x.op == 'star' and x.args[0].op == 'ntup':
                    ex += [v for _, v in x.args[0].args[1]]
                elif x.op == 'star':
                    rest = len(params) - len(ex) - len([k for k in kw if k in params])
                    req = params[len(ex):]
                    tail = len(pos) - pos.index(x) - 1
                    n = max(0, len(req) - tail - len([k for k in kw if k in req]))
                    ex += [self.load_idx(st, x.args[0], const(i)) for i in range(n)] if not a.vararg else []
                    if a.vararg:
                        ex.append(x)
                else:
                    ex.append(x)
            pos = ex
        extra = []
        for i, v in enumerate(pos):
            if i < len(params) and v.op != 'star':
                env[params[i]] = v
            else:
                extra.append(v)
        kwo = [x.arg for x in a.kwonlyargs]
        rest = {}
        for k, v in kw.items():
            if k in params or k in kwo:
                env[k] = v
            else:
                rest[k] = v
        if a.vararg:
            env[a.vararg.arg] = T('tuple', *extra) if extra != [] else T('tuple')
            if len(extra) == 1 and extra[0].op == 'star':
                env[a.vararg.arg] = extra[0].args[0]
        elif extra:
            return None
        if a.kwarg:
            if list(rest) == ['**'] and rest['**'].op != 'dict':
                env[a.kwarg.arg] = rest['**']
            else:
                env[a.kwarg.arg] = T('dict', *[T('star', v) if k == '**' else T('tuple', const(k), v) for k, v in rest.items()]) \
                    if rest else T('new', 'dict', 0)
        elif rest and not (list(rest) == ['**']):
            return None
        # defaults
        defs = dict(zip([x.arg for x in (a.posonlyargs + a.args)][::-1], a.defaults[::-1]))
        defs.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for k, d in defs.items():
            if k not in env:
                v = self.const_expr(module, d)
                if v is None:
                    v = T('sym', f'default:{k}')
                    if isinstance(d, ast.UnaryOp) or isinstance(d, ast.Call):
                        f2 = Frame(-2, None, module=module)
                        try:
                            v = self.ev(d, st, f2)[0][1]
                        except Exception:
                            pass
                env[k] = v
        for p in params + kwo:
            if p not in env:
                if '**' in rest:
                    env[p] = T('idx', rest['**'], const(p))
                else:
                    return None
        return env

    def call_func(self, func, st, fr, args, kw, node, self_term=None, cls=None, force=False):
        """Inlines func. -> [(state, term)]"""
        is_m = func.cls is not None and func.kind != 'static'
        env = self.bind_args(func.node, args, kw, is_m, fr, st, self_term, func.module)
        if env is None:
            return self.opaque_call(st, fr, func.name, self_term, args, kw, node, func=func)
        if not force and any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in self._own_nodes(func.node)):
            return [(st, T('genf', func.qual, self_term, tuple(args), tuple(sorted(kw.items())), self.site(fr, node)))]
        fid = chain_id((fr.fid, 'call', getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), func.qual))
        nf = Frame(fid, func, self_term=self_term, cls=cls if cls is not None else func.cls, defcls=func.cls, module=func.module, chain=fr.chain + (node,))
        e = dict(st.env)
        for k, v in env.items():
            e[(fid, k)] = v
            ann = self._annot(func, k)
            if ann is not None and self.types.get(v) is None and v.op not in ('const',):
                self.types[v] = ann
        self.inlined.add(func.qual)
        self.callstack.append(func)
        try:
            o = self.exec_function_body(func.node, nf, [st.but(env=e)])
        finally:
            self.callstack.pop()
        return self._finish_call(o, fid)

    @staticmethod
    def _own_nodes(fnode):
        todo = list(fnode.body) if isinstance(fnode.body, list) else [fnode.body]
        while todo:
            n = todo.pop()
            yield n
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            todo.extend(ast.iter_child_nodes(n))

    def _finish_call(self, o, fid):
        res = []

        def drop(s, v=None):
            if any(f.fid == fid for _, f in self.closures):
                return s
            return s.but(env={k: x for k, x in s.env.items() if k[0] != fid})
        for s, v in o.exc:
            self.raised.append((drop(s), v))
        groups = {}
        for s, v in o.ret + [(s, NONE) for s in o.next]:
            groups.setdefault(v, []).append(drop(s))
        for v, ss in groups.items():
            for s in self.merge(ss):
                res.append((s, v))
        return res

    def call_closure(self, t, st, fr, args, kw, node):
        cn, cf = self.closures[t.args[0]]
        if cn in self.callstack or len(self.callstack) > 8:
            return self.opaque_call(st, fr, 'closure', None, args, kw, node)
        env = self.bind_args(cn, args, kw, False, fr, st, None, cf.module)
        if env is None:
            return self.opaque_call(st, fr, 'closure', None, args, kw, node)
        fid = chain_id((fr.fid, 'clo', getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), t.args[0]))
        nf = Frame(fid, cf.func, parent=cf, self_term=cf.self_term, cls=cf.cls, defcls=cf.defcls, module=cf.module)
        e = dict(st.env)
        for k, v in env.items():
            e[(fid, k)] = v
        self.callstack.append(cn)
        try:
            if isinstance(cn, ast.Lambda):
                r = self.ev(cn.body, st.but(env=e), nf)
                return [(s.but(env={k: x for k, x in s.env.items() if k[0] != fid}), v) for s, v in r]
            o = self.exec_function_body(cn, nf, [st.but(env=e)])
        finally:
            self.callstack.pop()
        return self._finish_call(o, fid)

    def implicit_raise(self, st, fr, node, what):
        if self.exc == 'none' or not self.tries:
            return
        t = self.exc_state(st)
        s = self.emit(t, Ev('exc', what, node=node, func=fr.func))
        self.raised.append((s, T('exc', '?', 0)))
        if any('KeyboardInterrupt' in x or 'BaseException' in x or '*' in x for x in self.tries):
            s = self.emit(t, Ev('exc', 'KeyboardInterrupt', node=node, func=fr.func))
            self.raised.append((s, T('exc', 'KeyboardInterrupt', 0)))

    def exc_state(self, st):
        """Generalises a state for an exceptional edge: volatile facts are irrelevant for handlers."""
        return self.kill(st, lambda k: contains(k, lambda x: x.op == 'call' and x.args[4] is not None)
                         and not contains(k, lambda x: x.op == 'call' and x.args[0] in self.hold))

    def opaque_call(self, st, fr, name, recv, args, kw, node, func=None, pure=False, ret=None):
        """An external or deliberately opaque call: event, effects, result term."""
        if name == 'update' and recv is not None and func is None and (kw or len(args) == 1 and args[0].op == 'dict') and len(args) < 2 and \
                all(x.op == 'dict' and all(y.op == 'tuple' and is_const(y.args[0]) for y in x.args) for x in args) and '**' not in kw:
            # dict.update with known keys is a sequence of stores
            items = [(y.args[0], y.args[1]) for x in args for y in x.args] + [(const(k), v) for k, v in kw.items()]
            for k, v in items:
                st = self.store_idx(st, fr, recv, k, v, node)
            return [(st, NONE)]
        kwt = tuple(sorted(kw.items()))
        a = list(args)
        if func is not None:
            b = self.bind_args(func.node, args, kw, func.cls is not None and func.kind != 'static', fr, st, recv, func.module)
            if b is not None:
                pa = [x.arg for x in func.node.args.posonlyargs + func.node.args.args]
                if func.cls is not None and func.kind != 'static':
                    pa = pa[1:]
                kwt = tuple((k, b[k]) for k in sorted(b) if k in pa or k in [x.arg for x in func.node.args.kwonlyargs])
                vs = [b.get(k) for k in pa]
                if func.node.args.vararg:
                    va = b.get(func.node.args.vararg.arg)
                    if va is not None and va.op == 'tuple':
                        vs += va.args
                    elif va is not None:
                        vs.append(T('star', va))
                a = vs
                self.opaque_called[func.qual] = self.opaque_called.get(func.qual, 0) + 1
                if func.node.args.kwarg:
                    kwt += tuple(sorted((k, v) for k, v in kw.items() if k not in b))
        site = None if pure else self.site(fr, node)
        res = T('call', name, recv, tuple(a), kwt if func is None else (), site)
        if pure:
            return [(st, res)]
        if name not in QUIET:
            self.implicit_raise(st, fr, node, name)
        if self.raises is not None and (func is None or getattr(self.raises, 'all', False)):
            for x in self.raises(name, recv, a, dict(kwt)):
                self.raised.append((self.emit(self.exc_state(st), Ev('exc', name, recv=recv, args=a, kw=kwt, node=node, func=fr.func, extra=x)), T('exc', x, 0)))
        # re-evaluation: forget what was known about the previous result of this site
        st = self.kill(st, lambda k: contains(k, lambda x: x is res))
        if any(contains(v, lambda x: x is res) for v in st.env.values()):
            st = st.but(env={k: (rebuild(v, lambda x: T('old', x, 0) if x is res else x) if contains(v, lambda x: x is res) else v) for k, v in st.env.items()})
        if any(contains(v, lambda x: x is res) for v in st.heap.values()):
            st = st.but(heap={k: (rebuild(v, lambda x: T('old', x, 0) if x is res else x) if contains(v, lambda x: x is res) else v) for k, v in st.heap.items()})
        st = self.emit(st, Ev('call', name, recv=recv, args=a, kw=kwt, value=res, site=site, node=node, func=fr.func,
                              extra=func.qual if func is not None else None))
        if func is not None and func.cls is not None and fr.cls is not None and recv is not None and recv is fr.self_term:
            s, m = self._trans_mods(func.node, Frame(0, func, cls=fr.cls, module=func.module))
            st = self.kill_attrs(st, s, m)
        elif func is not None and func.cls is None:
            s, m = self.p.direct_mods(func.node)[:2]
            st = self.kill_attrs(st, s, m)
        if name in self.clobber:
            what = set(self.clobber[name])
            st = self.kill_attrs(st, what, set())
            st = self.kill(st, lambda k: contains(k, lambda x: x.op == 'call' and x.args[0] + '()' in what))
        if recv is not None and name in MUTATORS and func is None:
            st = self.mutate(st, recv, name, a)
            if recv.op in ('list', 'set') and name not in ('sort', 'reverse'):
                st = self.redisplay(st, fr, recv, name, a, node, site)
        return [(st, ret if ret is not None else res)]

    @staticmethod
    def redisplay(st, fr, recv, name, a, node, site):
        """A variable bound to a literal list (set) which is changed in place no longer stands for the literal."""
        flat = not any(x.op == 'star' for x in recv.args + tuple(a))
        v = T('hv', site, name)
        if name in ('append', 'add') and len(a) == 1 and flat:
            v = T(recv.op, *recv.args, a[0])
        elif name in ('extend', 'update') and len(a) == 1 and flat and a[0].op in ('list', 'tuple', 'set'):
            v = T(recv.op, *recv.args, *a[0].args)
        who = node.func.value.id if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and isinstance(node.func.value, ast.Name) else None
        env = dict(st.env)
        for (fid, n), x in st.env.items():
            if x is recv:
                env[(fid, n)] = v if n == who or who is None else T('hv', site, n)
        heap = {k: v if x is recv else x for k, x in st.heap.items()}
        return st.but(env=env, heap=heap)

    @staticmethod
    def _impure(n):
        for c in ast.walk(n):
            if isinstance(c, ast.Call):
                f = c.func
                if not (isinstance(f, ast.Name) and f.id in PURE_FUNCS or isinstance(f, ast.Attribute) and f.attr in PURE_METHODS):
                    return True
        return False

    def lazy_search(self, e, st, fr):
        """any / all / next over a generator expression stop early: interpreted as the loop they stand for."""
        name, g = e.func.id, e.args[0]
        cl = getattr(e, '_lazy', None)
        if cl is None:
            def ret(v):
                return ast.Return(value=v)
            if name == 'next':
                leaf = ret(g.elt)
                last = ret(e.args[1])
            else:
                t = g.elt if name == 'any' else ast.UnaryOp(op=ast.Not(), operand=g.elt)
                leaf = ast.If(test=t, body=[ret(ast.Constant(value=name == 'any'))], orelse=[])
                last = ret(ast.Constant(value=name == 'all'))
            body = leaf
            for gen in reversed(g.generators):
                for c in reversed(gen.ifs):
                    body = ast.If(test=c, body=[body], orelse=[])
                body = ast.For(target=gen.target, iter=gen.iter, body=[body], orelse=[])
            cl = ast.FunctionDef(name='<lazy>', args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]),
                                 body=[body, last], decorator_list=[])
            for n in ast.walk(cl):
                if not hasattr(n, 'lineno') and isinstance(n, (ast.stmt, ast.expr)):
                    n.lineno, n.col_offset, n.end_lineno, n.end_col_offset = e.lineno, e.col_offset, e.lineno, e.col_offset
            e._lazy = cl
        return self.call_closure(self.mk_closure(cl, fr), st, fr, [], {}, e)

    def ev_Call(self, e, st, fr):
        f = e.func
        if isinstance(f, ast.Name) and not e.keywords and e.args and isinstance(e.args[0], ast.GeneratorExp) and \
                (f.id in ('any', 'all') and len(e.args) == 1 or f.id == 'next' and len(e.args) == 2) and self._impure(e.args[0]):
            return self.lazy_search(e, st, fr)
        # super().method(...)
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super':
            fn = self.p.find_method(fr.cls, f.attr, after=fr.defcls) if fr.cls and fr.defcls else None
            out = []
            for s, args, kw in self.eval_args(e, st, fr):
                if fn is not None and self.may_inline(fn):
                    out += self.call_func(fn, s, fr, args, kw, e, self_term=fr.self_term, cls=fr.cls)
                else:
                    out += self.opaque_call(s, fr, f.attr, T('super', fr.self_term or NONE), args, kw, e, func=None if fn is None or f.attr == '__init__' and False else fn)
            return out
        if isinstance(f, ast.Attribute):
            out = []
            for s, b in self.ev(f.value, st, fr):
                out += self.call_method(e, s, fr, b, f.attr)
            return out
        out = []
        for s, fv in self.ev(f, st, fr):
            for s2, args, kw in self.eval_args(e, s, fr):
                out += self.call_value(fv, s2, fr, args, kw, e)
        return out

    def eval_args(self, e, st, fr):
        out = []
        pos = [a.value if isinstance(a, ast.Starred) else a for a in e.args]
        for s, vs in self.evs(pos, st, fr):
            args = []
            for a, v in zip(e.args, vs):
                if isinstance(a, ast.Starred):
                    if v.op in ('tuple', 'list') and not any(x.op == 'star' for x in v.args):
                        args += v.args
                    else:
                        args.append(T('star', v))
                else:
                    args.append(v)
            for s2, kvs in self.evs([k.value for k in e.keywords], s, fr):
                kw = {}
                for k, v in zip(e.keywords, kvs):
                    if k.arg is not None:
                        kw[k.arg] = v
                    elif v.op == 'dict' and all(x.op == 'tuple' and is_const(x.args[0]) for x in v.args):
                        for x in v.args:
                            kw[x.args[0].args[0]] = x.args[1]
                    else:
                        kw['**'] = v
                out.append((s2, args, kw))
        return out

    def find_func(self, qual):
        for f in self.p.all_funcs():
            if f.qual == qual:
                return f
        return None

    def call_value(self, fv, s, fr, args, kw, e):
        if fv.op == 'closure':
            return self.call_closure(fv, s, fr, args, kw, e)
        if fv.op == 'bound':
            func = self.find_func(fv.args[1])
            return self.call_project(func, s, fr, args, kw, e, fv.args[0], self.typeof(fv.args[0]))
        if fv.op == 'boundx':
            return self.call_method_v(e, s, fr, fv.args[0], fv.args[1], args, kw)
        if fv.op == 'func':
            func = self.find_func(fv.args[0])
            return self.call_project(func, s, fr, args, kw, e, None, None)
        if fv.op == 'class':
            return self.instantiate(self._cls_by_qual(fv.args[0]), s, fr, args, kw, e)
        if fv.op == 'ext':
            return self.call_ext(fv.args[0], s, fr, args, kw, e)
        if fv.op == 'attr':     # calling a stored callable
            return self.opaque_call(s, fr, fv.args[1], fv.args[0], args, kw, e)
        return self.opaque_call(s, fr, '__call__', fv, args, kw, e)

    def instantiate(self, c, s, fr, args, kw, e):
        if self.is_ntup(c) and '**' not in kw:
            fields = list(c.annots)
            ex = []
            for x in args:
                if x.op == 'star':
                    v = x.args[0]
                    if v.op == 'ntup':
                        ex += [y for _, y in v.args[1]]
                    elif len(args) == 1:
                        ex += [self.load_idx(s, v, const(i)) for i in range(len(fields) - len(kw))]
                    else:
                        ex.append(x)
                else:
                    ex.append(x)
            d = dict(zip(fields, ex))
            d.update(kw)
            if set(d) == set(fields):
                return [(s, T('ntup', c.qual, tuple((k, d[k]) for k in fields)))]
        site = self.site(fr, e)
        t = T('inst', c.qual, tuple(args), tuple(sorted(kw.items())), site)
        self.types[t] = c
        self.implicit_raise(s, fr, e, c.name)
        if self.raises is not None and getattr(self.raises, 'all', False):
            for x in self.raises(c.name, None, args, kw):
                self.raised.append((self.emit(self.exc_state(s), Ev('exc', c.name, args=args, kw=tuple(sorted(kw.items())), node=e, func=fr.func, extra=x)), T('exc', x, 0)))
        s = self.emit(s, Ev('call', c.name, args=args, kw=tuple(sorted(kw.items())), value=t, site=site, node=e, func=fr.func, extra=c.qual))
        return [(s, t)]

    def call_project(self, func, s, fr, args, kw, e, self_term, cls):
        if self.may_inline(func):
            return self.call_func(func, s, fr, args, kw, e, self_term=self_term, cls=cls)
        return self.opaque_call(s, fr, func.name, self_term, args, kw, e, func=func)

    def call_method(self, e, s, fr, b, name):
        out = []
        for s2, args, kw in self.eval_args(e, s, fr):
            out += self.call_method_v(e, s2, fr, b, name, args, kw)
        return out

    def call_method_v(self, e, s, fr, b, name, args, kw):
        if b.op == 'ext':
            return self.call_ext(f'{b.args[0]}.{name}', s, fr, args, kw, e)
        if b.op == 'class':
            c = self._cls_by_qual(b.args[0])
            fn = self.p.find_method(c, name) if c else None
            if fn is not None:
                if fn.kind == 'method':       # Class.method(obj, ...)
                    if args:
                        return self.call_project(fn, s, fr, args[1:], kw, e, args[0], self.typeof(args[0]))
                return self.call_project(fn, s, fr, args, kw, e, b if fn.kind == 'class' else None, c)
            return self.opaque_call(s, fr, name, b, args, kw, e)
        if name in LOGM and (b.op == 'attr' and b.args[1] == 'logger' or b.op == 'sym' and b.args[0].endswith('logger') or
                             b.op == 'call' and b.args[0] == 'logging.getLogger'):
            if name == 'isEnabledFor':
                return [(s, T('call', name, b, tuple(args), (), None))]
            s = self.emit(s, Ev('log', name, recv=b, args=args, kw=tuple(sorted(kw.items())), node=e, func=fr.func))
            return [(s, NONE)]
        if (b, name) in s.heap:
            return self.call_value(s.heap[(b, name)], s, fr, args, kw, e)
        c = self.typeof(b)
        if c is not None:
            fn = self.p.find_method(c, name)
            if fn is not None:
                return self.call_project(fn, s, fr, args, kw, e, b, c)
        if name in METH2FUNC and not args and not kw and c is None and b.op not in ('attr',) or name in METH2FUNC and not args and not kw and name in ('any', 'all', 'mean', 'std'):
            return [(s, T('call', METH2FUNC[name], None, (b,), (), None))]
        if name == 'get' and b.op == 'dict' and args and is_const(args[0]) and not any(x.op == 'star' for x in b.args):
            v = self.load_idx(s, b, args[0])
            return [(s, v if v.op != 'idx' else (args[1] if len(args) > 1 else NONE))]
        if self.sets and name in ('copy', 'union', 'intersection', 'difference') and not kw and (self.setlike(b) or b.op == 'attr') and len(args) < 2:
            return [self.newset(s, fr, e, {'copy': 'copy', 'union': '|', 'intersection': '&', 'difference': '-'}[name], b, *args)]
        if name in PURE_METHODS and c is None and not (name == 'join' and (not args or kw or b.op == 'attr' and b.args[1] == 'process')) \
                and not (name == 'replace' and len(args) + len(kw) == 1):
            if name in ('union', 'intersection', 'difference') and len(args) == 1:
                o = {'union': '|', 'intersection': '&', 'difference': '-'}[name]
                x, y = (b, args[0]) if o == '-' else sorted((b, args[0]), key=lambda t: t.key())
                if o == '-':
                    return [(s, sub(x, y) if not (x.op == 'new' or y.op == 'new') else T('setop', '-', x, y))]
                return [(s, T('setop', o, x, y))]
            if is_const(b) and isinstance(b.args[0], str) and all(is_const(a) for a in args) and not kw and name in ('replace', 'lower', 'upper', 'strip', 'startswith', 'endswith', 'lstrip', 'rstrip'):
                return [(s, const(getattr(b.args[0], name)(*[a.args[0] for a in args])))]
            if name == 'joinpath':
                pass
            return self.opaque_call(s, fr, name, b, args, kw, e, pure=True)
        if name == 'joinpath':
            x = b.args if b.op == 'join' else (b,)
            return [(s, T('join', *x, *args))]
        return self.opaque_call(s, fr, name, b, args, kw, e)

    def call_ext(self, name, s, fr, args, kw, e):
        name = CANON.get(name, name)
        one = len(args) == 1 and not kw and args[0].op != 'star'
        if name == 'len' and one:
            x = args[0]
            if x.op in ('tuple', 'list', 'set', 'dict') and not any(y.op == 'star' for y in x.args) and x.op != 'set':
                return [(s, const(len(x.args)))]
            while True:
                if x.op in ('list', 'tuple') and len(x.args) == 1 and x.args[0].op == 'star':
                    x = x.args[0].args[0]
                elif x.op == 'call' and x.args[0] in ('list', 'tuple', 'sorted') and x.args[1] is None and len(x.args[2]) == 1:
                    x = x.args[2][0]
                elif x.op == 'call' and x.args[0] in ('keys', 'values', 'items', 'copy') and x.args[1] is not None and not x.args[2]:
                    x = x.args[1]
                elif x.op == 'comp' and x.args[0] == 'list' and x.args[3] is TRUE:
                    x = x.args[2]
                else:
                    break
            return [(s, T('call', 'len', None, (x,), (), None))]
        if name == 'sum' and one and args[0].op == 'comp':
            # counting the elements which satisfy a condition
            kind, el, D, cnd, cs = args[0].args
            if el.op in ('rel', 'and', 'or', 'not', 'in', 'is', 'eq', 'exists', 'truth') or el.op == 'call' and el.args[0] in ('is_alive', 'exists', 'is_set', 'empty', 'poll'):
                cnd, el = mk_and([cnd, truth(el)]), const(1)
            if el is const(1) and kind != 'set':
                if cnd is TRUE:
                    return [(s, T('call', 'len', None, (D,), (), None))]
                return [(s, T('call', 'len', None, (T('comp', 'list', el, D, cnd, cs),), (), None))]
        if name == 'bool' and one:
            return [(s, truth(args[0]))]
        if name in ('any', 'all') and one:
            x = args[0]
            neg_ = name == 'all'
            if x.op in ('list', 'tuple', 'set') and not any(y.op == 'star' for y in x.args):
                return [(s, (mk_and if neg_ else mk_or)([truth(y) for y in x.args]))]
            if x.op == 'new':
                return [(s, const(neg_))]
            if x.op == 'comp':
                _, el, D, cnd, _ = x.args
                if el.op == 'phi':
                    fs = [mk_and([y.args[0], truth(y.args[1]) if not neg_ else mk_not(truth(y.args[1]))]) for y in el.args if y.op == 'cond']
                    if len(fs) == len(el.args) and self.iter_spec(s, D)[0] == 'unroll':
                        f = mk_or(fs)
                        return [(s, mk_not(f) if neg_ else f)]
                body = mk_and([cnd, mk_not(truth(el)) if neg_ else truth(el)])
                f = T('exists', D, body)
                return [(s, mk_not(f) if neg_ else f)]
            return [(s, T('call', name, None, (x,), (), None))]
        if name == 'float' and one and is_const(args[0]):
            try:
                return [(s, const(float(args[0].args[0])))]
            except (ValueError, TypeError):
                pass
        if name == 'int' and one and is_num(args[0]):
            return [(s, const(int(args[0].args[0])))]
        if self.sets and one and (name in ('set', 'frozenset') and (self.setlike(args[0]) or args[0].op == 'attr') or
                                  name in ('list', 'tuple', 'sorted') and self.setlike(args[0])):
            return [self.newset(s, fr, e, 'copy', args[0])]
        if name in ('list', 'dict', 'set', 'tuple') and not args and not kw:
            if self.sets and name in ('set', 'list'):
                return [self.newset(s, fr, e, 'empty')]
            return [(s, T('new', name, self.site(fr, e)) if name != 'tuple' else T('tuple'))]
        if name == 'dict' and len(args) < 2 and kw and '**' not in kw and not (args and args[0].op in ('comp', 'list', 'tuple')):
            return [(s, T('dict', *[T('star', x) for x in args], *[T('tuple', const(k), v) for k, v in kw.items()]))]
        if name in ('list', 'tuple') and one and args[0].op in ('list', 'tuple'):
            return [(s, T(name, *args[0].args))]
        if name == 'list' and one and args[0].op == 'comp' and args[0].args[0] == 'list':
            return [(s, args[0])]
        if name == 'set' and one and args[0].op == 'comp':
            return [(s, T('comp', 'set', *args[0].args[1:]))]
        if self.dirs is not None and args and args[0] is T('sym', 'self'):
            if name == 'dir' and one:
                return [(s, T('tuple', *[const(x) for x in self.dirs]))]
            if name == 'vars' and one:
                return [(s, T('dict', *[T('tuple', const(x), T('attr', args[0], x)) for x in self.dirs]))]
            if name in ('getattr', 'hasattr') and len(args) >= 2 and is_const(args[1]) and args[1].args[0] in self.dirs:
                return [(s, T('attr', args[0], args[1].args[0]) if name == 'getattr' else TRUE)]
        if name == 'getattr' and len(args) >= 2 and is_const(args[1]) and isinstance(args[1].args[0], str) and len(args) == 2:
            return self.load_attr(s, args[0], args[1].args[0], fr, e)
        if name == 'setattr' and len(args) == 3 and is_const(args[1]):
            return [(x, NONE) for x in self.store_attr(s, fr, args[0], args[1].args[0], args[2], e)]
        if name in ('filter', 'map') and len(args) == 2 and not kw:
            return self.filter_map(name, s, fr, args[0], args[1], e)
        if name == 'isinstance' and len(args) == 2:
            x, c = args
            cs = c.args if c.op == 'tuple' else (c,)
            k = None
            if x.op in ('inst', 'ntup'):
                k = self._cls_by_qual(x.args[0])
                mro = [m.qual for m in self.p.mro(k) if isinstance(m, Class)] if k else []
                if any(y.op == 'class' and y.args[0] in mro for y in cs):
                    return [(s, TRUE)]
                if all(y.op == 'class' for y in cs):
                    return [(s, FALSE)]
            if x.op == 'exc' and x.args[0] not in ('?',):
                names = [self.exc_name(y) for y in cs]
                if any(self.exc_is(x.args[0], n) for n in names):
                    return [(s, TRUE)]
                return [(s, FALSE)]
            if is_const(x):
                tn = type(x.args[0]).__name__
                names = [y.args[0] if y.op == 'ext' else None for y in cs]
                if tn in names or tn == 'bool' and 'int' in names:
                    return [(s, TRUE)]
                if None not in names:
                    return [(s, FALSE)]
            return [(s, mk_or([T('truth', T('call', 'isinstance', None, (x, y), (), None)) for y in cs]))]
        if name in ('super', 'locals', 'globals', 'vars'):
            return [(s, T('call', name, None, tuple(args), (), None))]
        if name == 'callable' and one:
            return [(s, T('truth', T('call', 'callable', None, (args[0],), (), None)))]
        pure = name in PURE_FUNCS or name.startswith('numpy.') and '.random' not in name or name.startswith('math.') or name.startswith('os.path.')
        if kw and name == 'sorted':
            pure = True
        return self.opaque_call(s, fr, name, None, args, kw, e, pure=pure)

    @unfiltered
    def filter_map(self, name, s, fr, fn, it, e):
        spec = self.iter_spec(s, it)
        if spec[0] not in ('gen', 'comp'):
            if spec[0] == 'unroll' and name == 'map':
                cur = [(s, [])]
                for v in spec[1]:
                    cur = [(s3, acc + [r]) for s2, acc in cur for s3, r in self.call_value(fn, s2, fr, [v], {}, e)]
                return [(s2, T('list', *acc)) for s2, acc in cur]
            return self.opaque_call(s, fr, name, None, [fn, it], {}, e, pure=True)
        if fn is NONE:
            return self.opaque_call(s, fr, name, None, [fn, it], {}, e, pure=True)
        # interpret like a comprehension
        nm = f'__fm{e.lineno}_{e.col_offset}'
        sub = Frame(chain_id((fr.fid, 'fm', e.lineno, e.col_offset)), fr.func, parent=fr, self_term=fr.self_term, cls=fr.cls,
                    defcls=fr.defcls, module=fr.module, chain=fr.chain)
        acc = []
        tgt = ast.copy_location(ast.Name(nm, ast.Store()), e)

        def body(y):
            x = y.env[(sub.fid, nm)]
            o = Out()
            for s1, v in self.call_value(fn, y, sub, [x], {}, e):
                if name == 'map':
                    acc.append((v, mk_and(sorted(fact_formulas({k: w for k, w in s1.facts.items() if y.facts.get(k) != w}), key=lambda t: t.key()))))
                    o.next.append(s1)
                else:
                    for s2, b in self.branch(s1, truth(v)):
                        if b:
                            acc.append((x, mk_and(sorted(fact_formulas({k: w for k, w in s2.facts.items() if y.facts.get(k) != w}), key=lambda t: t.key()))))
                        o.next.append(s2)
            return o
        o = self.loop(s, it, tgt, body, sub, e, live=None)
        base = spec[1] if spec[0] == 'gen' else spec[1].args[2]
        elts = list(dict.fromkeys(v for v, _ in acc))
        el = elts[0] if len(elts) == 1 else T('phi', *elts)
        cnd = mk_or(list(dict.fromkeys(c for _, c in acc)))
        return [(x.but(env={k: v for k, v in x.env.items() if k[0] != sub.fid}), T('comp', 'list', el, base, cnd, self.site(fr, e))) for x in self.merge(o.next)]

    # ------------------------------------------------------------------ statements
    def exec_function_body(self, fnode, fr, states):
        fr.always = set()
        fr.nonlocals = set()
        for n in ast.walk(fnode):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not fnode:
                fr.always |= {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}
            if isinstance(n, (ast.Nonlocal, ast.Global)):
                fr.nonlocals |= set(n.names)
        out = self.block(fnode.body, states, fr, set())
        return out

    @staticmethod
    def loads(node):
        c = getattr(node, '_loads', None)
        if c is None:
            c = {x.id for x in ast.walk(node) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Load, ast.Del))}
            c |= {x.target.id for x in ast.walk(node) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name)}
            node._loads = c
        return c

    @classmethod
    def exposed(cls, stmts):
        """-> (names which may be read before they are written, names which are certainly written) in straight execution."""
        exp, sure = set(), set()
        for st in stmts:
            d = set()
            if isinstance(st, (ast.Assign, ast.AnnAssign)) and st.value is not None:
                ts = st.targets if isinstance(st, ast.Assign) else [st.target]
                u = cls.loads(st.value)
                for t in ts:
                    u = u | cls.loads(t)
                    d |= {x.id for x in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]) if isinstance(x, ast.Name)}
            elif isinstance(st, ast.If):
                (a, da), (b, db) = cls.exposed(st.body), cls.exposed(st.orelse)
                u, d = cls.loads(st.test) | a | b, da & db
            elif isinstance(st, ast.For):
                a, _ = cls.exposed(st.body)
                b, _ = cls.exposed(st.orelse)
                t = st.target
                u = cls.loads(st.iter) | (a - {x.id for x in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]) if isinstance(x, ast.Name)}) | b
            elif isinstance(st, ast.While):
                u = cls.loads(st.test) | cls.exposed(st.body)[0] | cls.exposed(st.orelse)[0]
            else:
                u = cls.loads(st)
            exp |= u - sure
            sure |= d
        return exp, sure

    def drop_dead(self, h, fr, st, live):
        """Forgets, at the head of a loop, the variables which are written again before they are read."""
        if live is None:
            return h
        e = getattr(st, '_exposed', None)
        if e is None:
            e = st._exposed = self.exposed([st])[0]
        keep = live | e | fr.always | {'self', 'cls'}
        gone = [k for k in h.env if k[0] == fr.fid and k[1] not in keep]
        return h.but(env={k: v for k, v in h.env.items() if k not in gone}) if gone else h

    def block(self, stmts, states, fr, live):
        """live: names (of this frame) needed after the block; None = keep everything."""
        out = Out()
        cur = states
        suffix = []
        acc = set(live) if live is not None else None
        for st in reversed(stmts):
            suffix.append(acc)
            acc = acc | self.loads(st) if acc is not None else None
        suffix.reverse()
        for st, lv in zip(stmts, suffix):
            if not cur:
                break
            nxt = []
            if isinstance(st, ast.While) and len(cur) > 1:
                # states which only differ in what the loop overwrites are the same at its entry
                st.test._loop = st
                site = self.site(fr, st)
                mods = self.loop_mods(st.test, fr)
                cur = self.merge([self.drop_dead(self.havoc(self.known(s), fr, *mods, site), fr, st, lv) for s in cur])
            if self.entry_cap and isinstance(st, (ast.While, ast.Try)) and len(cur) > self.entry_cap:
                cur = self.widen(cur, self.entry_cap)
            for s in cur:
                o = self.stmt(st, s, fr, lv)
                out.absorb(o)
                nxt += o.next
            if lv is not None:
                keep = lv | fr.always | {'self', 'cls'}
                nxt = [s if all(k[0] != fr.fid or k[1] in keep for k in s.env) else
                       s.but(env={k: v for k, v in s.env.items() if k[0] != fr.fid or k[1] in keep}) for s in nxt]
            cur = self.merge(nxt)
        out.next = cur
        return out

    def stmt(self, st, s, fr, live):
        saved, self.raised = self.raised, []
        m = getattr(self, 'st_' + type(st).__name__, None)
        if m is None:
            raise AnalysisBroken(f'cannot interpret statement {type(st).__name__}')
        self.nstmts += 1
        o = m(st, s, fr, live)
        o.exc += self.raised
        self.raised = saved
        return o

    @staticmethod
    def nxt(states):
        o = Out()
        o.next = list(states)
        return o

    def st_Expr(self, st, s, fr, live):
        if isinstance(st.value, ast.Constant):
            return self.nxt([s])
        return self.nxt([x for x, _ in self.ev(st.value, s, fr)])

    def st_Pass(self, st, s, fr, live):
        return self.nxt([s])

    st_Global = st_Nonlocal = st_ClassDef = st_Pass

    def st_Import(self, st, s, fr, live):
        for a in st.names:
            self.implicit_raise(s, fr, st, 'import')
            s = self.emit(s, Ev('import', a.name, node=st, func=fr.func))
            nm = a.asname or a.name.split('.')[0]
            s = self.bind(s, fr, nm, T('ext', a.name if a.asname else nm))
        return self.nxt([s])

    def st_ImportFrom(self, st, s, fr, live):
        self.implicit_raise(s, fr, st, 'import')
        base = st.module or ''
        m = fr.module
        if st.level:
            parts = m.name.split('.')
            up = st.level - (1 if m.path.name == '__init__.py' else 0)
            parts = parts[:len(parts) - up] if up else parts
            base = '.'.join(parts + ([st.module] if st.module else []))
        s = self.emit(s, Ev('import', base, node=st, func=fr.func))
        for a in st.names:
            v = None
            if base in self.p.modules:
                r = self.p.resolve(self.p.modules[base], a.name)
                v = T('class', r.qual) if isinstance(r, Class) else T('func', r.qual) if isinstance(r, Func) else None
            s = self.bind(s, fr, a.asname or a.name, v if v is not None else T('ext', f'{base}.{a.name}'))
        return self.nxt([s])

    def st_FunctionDef(self, st, s, fr, live):
        c = self.mk_closure(st, fr)
        fr.always.add(st.name)
        return self.nxt([self.assign_name(s, fr, st.name, c, st)])

    def st_Assign(self, st, s, fr, live):
        out = []
        for s1, v in self.ev(st.value, s, fr):
            cur = [s1]
            for t in st.targets:
                cur = [y for x in cur for y in self.assign(x, fr, t, v, st)]
            out += cur
        return self.nxt(out)

    def st_AnnAssign(self, st, s, fr, live):
        if st.value is None:
            return self.nxt([s])
        return self.nxt([y for x, v in self.ev(st.value, s, fr) for y in self.assign(x, fr, st.target, v, st)])

    def st_AugAssign(self, st, s, fr, live):
        out = []
        load = ast.copy_location(ast.parse(ast.unparse(st.target), mode='eval').body, st.target)
        for n in ast.walk(load):
            if hasattr(n, 'lineno'):
                n.lineno, n.col_offset = st.lineno, st.col_offset
        for s1, cur in self.ev(load, s, fr):
            for s2, v in self.ev(st.value, s1, fr):
                if isinstance(st.op, ast.Add) and (cur.op == 'new' and cur.args[0] == 'list' or cur.op == 'list' and isinstance(st.target, ast.Name)):
                    if v.op in ('list', 'tuple') and len(v.args) and not any(x.op == 'star' for x in v.args) and cur.op == 'new':
                        for x in v.args:
                            s2 = self.opaque_call(s2, fr, 'append', cur, [x], {}, st)[0][0]
                        out.append(s2)
                        continue
                    if cur.op == 'new':
                        out.append(self.opaque_call(s2, fr, 'extend', cur, [v], {}, st)[0][0])
                        continue
                if isinstance(st.op, ast.BitOr) and (cur.op == 'new' or self.sets and self.setlike(cur)):
                    out.append(self.opaque_call(s2, fr, 'update', cur, [v], {}, st)[0][0])
                    continue
                if self.sets and self.setlike(cur) and isinstance(st.op, (ast.BitAnd, ast.Sub)):
                    w = 'difference_update' if isinstance(st.op, ast.Sub) else 'intersection_update'
                    out.append(self.opaque_call(s2, fr, w, cur, [v], {}, st)[0][0])
                    continue
                nv = self.arith(st.op, cur, v)
                if self.augs:
                    s2 = self.emit(s2, Ev('aug', type(st.op).__name__, recv=cur, args=(v,), node=st, func=fr.func))
                for y in self.assign(s2, fr, st.target, nv, st):
                    out.append(y)
        return self.nxt(out)

    def st_Delete(self, st, s, fr, live):
        cur = [s]
        for t in st.targets:
            nxt = []
            for x in cur:
                if isinstance(t, ast.Subscript):
                    for s1, b in self.ev(t.value, x, fr):
                        for s2, k in self.ev(t.slice, s1, fr):
                            self.implicit_raise(s2, fr, t, 'del')
                            s3 = self.emit(s2, Ev('del', recv=b, args=(k,), target=T('idx', b, k), node=st, func=fr.func))
                            nxt.append(self.mutate(s3, b, 'remove', [k]))
                elif isinstance(t, ast.Attribute):
                    for s1, b in self.ev(t.value, x, fr):
                        nxt.append(self.emit(s1, Ev('delattr', t.attr, recv=b, node=st, func=fr.func)))
                else:
                    nxt.append(x)
            cur = nxt
        return self.nxt(cur)

    def st_Assert(self, st, s, fr, live):
        o = Out()
        for s1, b in self.cond(st.test, s, fr):
            if b:
                o.next.append(s1)
            else:
                n = self.emit(s1, Ev('raise', 'AssertionError', value=T('exc', 'AssertionError', 0), node=st, func=fr.func))
                o.exc.append((n, T('exc', 'AssertionError', 0)))
        return o

    def st_If(self, st, s, fr, live):
        o = Out()
        a, b = [], []
        for s1, v in self.cond(st.test, s, fr):
            (a if v else b).append(s1)
        oa = self.block(st.body, self.merge(a), fr, live) if a else Out()
        ob = self.block(st.orelse, self.merge(b), fr, live) if b else Out()
        o.absorb(oa)
        o.absorb(ob)
        nxt = oa.next + ob.next
        if oa.next and ob.next:
            # volatile call results consulted by the test are not consulted again: forget them when both branches continue
            l1, l2 = getattr(st.test, 'lineno', 0), getattr(st.test, 'end_lineno', 0)
            held = set()
            for x in nxt:
                for v in list(x.env.values()) + list(x.heap.values()):
                    held |= {y for y in subterms(v) if y.op == 'call'}
            sites = {self.site(fr, n) for n in ast.walk(st.test) if isinstance(n, ast.Call)}

            def volatile(k):
                return contains(k, lambda y: y.op == 'call' and y.args[4] in sites and y not in held and y.args[0] not in self.hold)
            less = [self.kill(x, volatile) for x in nxt]
            if len({x.key() for x in less}) < len({x.key() for x in nxt}) or len(nxt) > 6:
                nxt = less
        o.next = self.merge(nxt)
        return o

    def st_For(self, st, s, fr, live):
        st.iter._loop = st
        st.target._loop = st
        o = Out()
        lv = None if live is None else live | self.loads(st)
        for s1, it in self.ev(st.iter, s, fr):
            if it.op == 'genf':
                pass
            r = self.loop(s1, it, st.target, lambda y: self.block(st.body, [y], fr, lv), fr, st.iter, live, st.orelse)
            o.absorb(r)
            o.next += r.next
        o.next = self.merge(o.next)
        return o

    def st_While(self, st, s, fr, live):
        st.test._loop = st
        site = self.site(fr, st)
        names, stored, mutated, mvars = self.loop_mods(st.test, fr)
        lv = None if live is None else live | self.loads(st)
        s = self.known(s)
        heads, todo, exits = {}, [s], []
        o = Out()
        base_facts = s.facts
        first = True
        while todo:
            x = todo.pop()
            h = self.drop_dead(self.havoc(x, fr, names, stored, mutated, mvars, site), fr, st, live)
            if len(heads) > self.max_heads:
                h = self.generalise(h, s, site)
            key = (frozenset(h.env.items()), frozenset(h.heap.items()))
            facts = h.facts
            if key in heads:
                f0, n0 = heads[key]
                common = {k: v for k, v in f0.items() if facts.get(k) == v}
                if len(common) == len(f0):
                    self.g.edge(h.node, n0)
                    continue
                facts = common
            else:
                facts = {k: v for k, v in facts.items() if base_facts.get(k) == v}
            h = self.emit(h.but(facts=facts), Ev('loophead', node=st, func=fr.func, site=site))
            heads[key] = (facts, h.node)
            if len(heads) > 40:
                raise AnalysisBroken('loop does not stabilise')
            for s1, b in self.cond(st.test, h, fr):
                if not b:
                    exits.append(self.emit(s1, Ev('loopexit', node=st, func=fr.func, site=site)))
                    continue
                s1 = self.emit(s1, Ev('iter', node=st, func=fr.func, site=site))
                r = self.block(st.body, [s1], fr, lv)
                o.ret += r.ret
                o.exc += r.exc
                o.next += [self.emit(y, Ev('break', node=st, func=fr.func, site=site)) for y in r.brk]
                for y in self.merge(r.next + r.cont):
                    todo.append(self.emit(y, Ev('iterend', node=st, func=fr.func, site=site)))
            # exceptions raised by the condition
            if self.raised:
                o.exc += self.raised
                self.raised = []
        fin = self.merge(exits)
        if st.orelse and fin:
            r = self.block(st.orelse, fin, fr, live)
            fin = r.next
            o.absorb(r)
        o.next = self.merge(o.next + fin)
        return o

    def st_Break(self, st, s, fr, live):
        o = Out()
        o.brk.append(s)
        return o

    def st_Continue(self, st, s, fr, live):
        o = Out()
        o.cont.append(s)
        return o

    def st_Return(self, st, s, fr, live):
        o = Out()
        for s1, v in (self.ev(st.value, s, fr) if st.value else [(s, NONE)]):
            s1 = self.emit(s1, Ev('return', value=v, node=st, func=fr.func))
            o.ret.append((s1, v))
        return o

    def exc_name(self, t):
        if t.op == 'ext':
            return t.args[0].split('.')[-1]
        if t.op == 'class':
            return t.args[0].split(':')[-1]
        return '?'

    def st_Raise(self, st, s, fr, live):
        o = Out()
        if st.exc is None:
            v = self.curexc[-1] if self.curexc else T('exc', '?', 0)
            s = self.emit(s, Ev('raise', v.args[0], value=v, node=st, func=fr.func, extra='reraise'))
            o.exc.append((s, v))
            return o
        for s1, v in self.ev(st.exc, s, fr):
            if v.op == 'call':
                nm = v.args[0].split('.')[-1]
                x = T('exc', nm, 0)
            elif v.op == 'inst':
                nm = v.args[0].split(':')[-1]
                x = T('exc', nm, 0)
            elif v.op == 'exc':
                x, nm = v, v.args[0]
            elif v.op in ('ext', 'class'):
                nm = self.exc_name(v)
                x = T('exc', nm, 0)
            else:
                x, nm = T('exc', '?', 0), '?'
            s1 = self.emit(s1, Ev('raise', nm, value=x, node=st, func=fr.func))
            o.exc.append((s1, x))
        return o

    def exc_is(self, name, h):
        """Is exception type `name` a subtype of handler type h (names)."""
        name, h = EXC_ALIAS.get(name, name), EXC_ALIAS.get(h, h)
        if name == h or h == 'BaseException':
            return True
        if name in EXC_PARENTS:
            return h in EXC_PARENTS[name]
        if self.p.has_cls(name):
            for b in self.p.mro(self.p.cls(name))[1:]:
                bn = b.name if isinstance(b, Class) else b
                if bn == h or bn in EXC_PARENTS and h in EXC_PARENTS[bn]:
                    return True
            return False
        return h == 'Exception'

    def handler_types(self, h, s, fr):
        if h.type is None:
            return ['BaseException']
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = []
        for t in ts:
            v = self.ev(t, s, fr)[0][1]
            if v.op == 'tuple':
                out += [self.exc_name(x) for x in v.args]
            else:
                out.append(self.exc_name(v))
        return out

    def st_Try(self, st, s, fr, live):
        o = Out()
        after = None if live is None else set(live)
        fin_loads = set()
        for x in st.finalbody:
            fin_loads |= self.loads(x)
        h_loads = set(fin_loads)
        for h in st.handlers:
            h_loads |= self.loads(h)
        lv_body = None if live is None else live | h_loads | set().union(*[self.loads(x) for x in st.orelse], set())
        names = set()
        for h in st.handlers:
            names |= set(self.handler_types(h, s, fr))
        if st.finalbody:
            names.add('*')
        self.tries.append(names)
        b = self.block(st.body, [s], fr, lv_body)
        self.tries.pop()
        if st.finalbody:
            self.tries.append({'*'})
        pend = Out()
        pend.ret, pend.brk, pend.cont = b.ret, b.brk, b.cont
        nxt = b.next
        if st.orelse and nxt:
            r = self.block(st.orelse, nxt, fr, None if live is None else live | fin_loads)
            nxt = r.next
            pend.absorb(r)
        # handlers
        keep = None if live is None else live | h_loads | fr.always | {'self', 'cls'}
        groups = {}
        for x, e in b.exc:
            if keep is not None:
                x = x.but(env={k: v for k, v in x.env.items() if k[0] != fr.fid or k[1] in keep})
            groups.setdefault(e, []).append(x)
        htypes = [self.handler_types(h, s, fr) for h in st.handlers]
        for e, xs in groups.items():
            xs = self.merge(xs)
            tn = e.args[0]
            rest = True
            for h, types in zip(st.handlers, htypes):
                if tn == '?':
                    if any(t in ('Exception', 'BaseException') for t in types):
                        match, definite = True, True
                    elif any(t == 'KeyboardInterrupt' for t in types) and len(types) == 1:
                        match, definite = False, False
                    else:
                        match, definite = True, False
                else:
                    match = any(self.exc_is(tn, t) for t in types)
                    definite = match
                if not match:
                    continue
                ys = []
                for x in xs:
                    x = self.emit(x, Ev('catch', '/'.join(types), value=e, node=h, func=fr.func))
                    if h.name:
                        ev = e if tn != '?' or len(types) > 1 or types[0] in ('Exception', 'BaseException') else T('exc', types[0], 0)
                        x = self.bind(x, fr, h.name, ev)
                    ys.append(x)
                self.curexc.append(e if tn != '?' or len(types) > 1 or types[0] in ('Exception', 'BaseException') else T('exc', types[0], 0))
                r = self.block(h.body, ys, fr, None if live is None else live | fin_loads)
                self.curexc.pop()
                nxt = nxt + r.next
                pend.absorb(r)
                if definite:
                    rest = False
                    break
            if rest:
                pend.exc += [(x, e) for x in xs]
        if st.finalbody:
            self.tries.pop()
        if not st.finalbody:
            o.absorb(pend)
            o.next = self.merge(nxt)
            return o
        # finally: run for every outcome
        def fin(states):
            return self.block(st.finalbody, states, fr, live)
        if nxt:
            r = fin(self.merge(nxt))
            o.next += r.next
            o.absorb(r)
        for lst, dest, withval in ((pend.ret, o.ret, True), (pend.exc, o.exc, True), (pend.brk, o.brk, False), (pend.cont, o.cont, False)):
            gr = {}
            for x in lst:
                x, v = x if withval else (x, None)
                gr.setdefault(v, []).append(x)
            for v, xs in gr.items():
                xs = [self.emit(x, Ev('finally', 'exc' if lst is pend.exc else 'other', value=v if withval else None, node=st, func=fr.func)) for x in self.merge(xs)]
                r = fin(self.merge(xs))
                o.absorb(r)
                dest += [(y, v) for y in r.next] if withval else r.next
        o.next = self.merge(o.next)
        return o

    st_TryStar = st_Try

    def st_With(self, st, s, fr, live):
        return self._with(st, 0, s, fr, live)

    st_AsyncWith = st_With

    def _with(self, st, i, s, fr, live):
        if i == len(st.items):
            return self.block(st.body, [s], fr, live)
        it = st.items[i]
        o = Out()
        for s1, v in self.ev(it.context_expr, s, fr):
            s1 = self.emit(s1, Ev('enter', recv=v, node=st, func=fr.func))
            if it.optional_vars is not None:
                s1 = self.bind_target(s1, fr, it.optional_vars, v)
            r = self._with(st, i + 1, s1, fr, live)
            ex = lambda x: self.emit(x, Ev('leave', recv=v, node=st, func=fr.func))
            suppress = v.op == 'call' and v.args[0] == 'contextlib.suppress'
            o.next += [ex(x) for x in r.next]
            o.brk += [ex(x) for x in r.brk]
            o.cont += [ex(x) for x in r.cont]
            o.ret += [(ex(x), w) for x, w in r.ret]
            if suppress:
                types = [self.exc_name(a) for a in v.args[2]]
                for x, w in r.exc:
                    sure = w.args[0] != '?' and any(self.exc_is(w.args[0], t) for t in types) or any(t in ('Exception', 'BaseException') for t in types)
                    maybe = sure or w.args[0] == '?'
                    if maybe:
                        o.next.append(self.emit(ex(x), Ev('catch', '/'.join(types), value=w, node=st, func=fr.func)))
                    if not sure:
                        o.exc.append((ex(x), w))
            else:
                o.exc += [(ex(x), w) for x, w in r.exc]
        o.next = self.merge(o.next)
        return o
