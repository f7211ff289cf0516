"""Every saver is partially evaluated once per attribute of its object (the listing of attributes is taken to consist of that attribute): this
decides, for plain and for callable values, whether the attribute reaches the saved record. Every attribute assigned by the code must be saved
except a fixed list of process-bound handles, which must be assigned again by the constructor, the loader or the restart path of the optimizer;
methods and read-only properties must not be saved. The loaders must set every item of the record on the object under its own name, read the
file which the saver writes, and afterwards overwrite only the per-session attributes (with their specified values) and the user's overrides.
Restored optimizers must be built from the file, pipe, queue, event, slots and type of their own identity, be marked as resumed, and be filed
under it; the manager counts as initialised only after everything was restored, and every failure on the way to that raises
CheckpointingError. The restart path of an optimizer must not reach a raise with the arguments the loader passes."""
from sa.core import *
from sa.mgr import *
from rules.c13 import cpath
import ast

TECHNIQUE = 'partial evaluation of the savers per attribute; automata over loaders; set comparison of saved, dropped and rebuilt names'
ASSUMPTIONS = ['objects which dill accepts are restored equal', 'user defined optimizers follow the documented naming convention',
               'ScipyOptimizeWrapper is documented not to support checkpoints']
MGR_DROP = {'logger', '_process', '_mp_manager', '_optimizer_packs', 'scope', 'task', 'optimizer_queue', 'opt_log', '_is_restart'}
LOG_DROP = {'pytab_file', '_tables', '_groups'}
SCOPE_DROP = {'_writer', 'logger', '_is_setup'}
OPT_DROP = {'logger', '_opt_id', '_signal_pipe', '_results_queue', '_pause_signal', '_backend', '_is_restart', '_from_manager_signal_dict'}
NOT_SUPPORTED = {'ScipyOptimizeWrapper'}
MUT = {'append', 'add', 'remove', 'discard', 'clear', 'pop', 'popitem', 'update', 'extend', 'insert', 'setdefault', 'sort', 'reverse'}


# ---------------------------------------------------------------- attributes of a class, from its text
def assigned(c, k):
    """Names of attributes of self which methods of the class (and its bases in the project) assign."""
    out = {}
    for m in c.p.mro(k):
        node = getattr(m, 'node', None)
        if node is None:
            continue
        for f in ast.walk(node):
            if not isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)) or not f.args.args:
                continue
            me = f.args.args[0].arg
            if any(isinstance(d, ast.Name) and d.id in ('classmethod', 'staticmethod') for d in f.decorator_list):
                continue
            for n in ast.walk(f):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == me:
                    out.setdefault(n.attr, []).append((m, f, n))
    return out


def functions_of(c, k):
    """name -> function node, for methods and properties of the class and its bases."""
    out = {}
    for m in c.p.mro(k):
        for n in getattr(getattr(m, 'node', None), 'body', ()):
            if isinstance(n, ast.FunctionDef):
                out.setdefault(n.name, []).append(n)
    return out


def kinds(c, k):
    """(methods, read-only properties, writable properties)"""
    meth, ro, rw = set(), set(), set()
    for name, fs in functions_of(c, k).items():
        decs = [ast.unparse(d) for f in fs for d in f.decorator_list]
        if any(d.endswith('.setter') for d in decs):
            rw.add(name)
        elif any(d == 'property' or d.endswith('cached_property') for d in decs):
            ro.add(name)
        else:
            meth.add(name)
    return meth, ro - rw, rw


def maybe_callable(c, k, name, sites):
    """The attribute may hold a callable: it is called, or an instance of a class with __call__ or a bound function is assigned."""
    for m in c.p.mro(k):
        for n in ast.walk(getattr(m, 'node', None) or ast.Pass()):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == name and isinstance(n.func.value, ast.Name) \
                    and n.func.value.id == 'self':
                return True
    for m, f, n in sites:
        for a in ast.walk(f):
            if isinstance(a, ast.Assign) and n in a.targets and isinstance(a.value, ast.Call) and isinstance(a.value.func, ast.Name):
                x = m.module.classes.get(a.value.func.id) if hasattr(m.module, 'classes') else None
                x = x if not isinstance(x, str) else None
                if x is not None and c.p.find_method(x, '__call__'):
                    return True
    return False


# ---------------------------------------------------------------- savers
def has(cont, t):
    """Constants known to be in a local container or display."""
    if t.op == 'new':
        return {v for k, v in cont if k is t}
    if t.op in ('list', 'tuple', 'set'):
        return {x.args[0] for x in t.args if x.op == 'const'} if all(x.op == 'const' for x in t.args) else None
    if t.op == 'dict':
        return {x.args[0].args[0] for x in t.args if x.op == 'tuple' and x.args[0].op == 'const'}
    return None


def settle(f, cont):
    """Truth of a fact about the content of local containers (None: open)."""
    if f.op == 'not':
        v = settle(f.args[0], cont)
        return None if v is None else not v
    if f.op in ('and', 'or'):
        vs = [settle(x, cont) for x in f.args]
        if f.op == 'and':
            return False if False in vs else True if all(v is True for v in vs) else None
        return True if True in vs else False if all(v is False for v in vs) else None
    if f.op == 'in' and f.args[0].op == 'const':
        h = has(cont, f.args[1])
        return None if h is None else f.args[0].args[0] in h
    if f.op == 'truth' and f.args[0].op == 'new':
        return bool(has(cont, f.args[0]))
    if f.op == 'exists':
        h = has(cont, f.args[0])
        if h is None:
            return None
        b = f.args[1]
        if b.op == 'eq':
            x = [y for y in b.args if y.op == 'const']
            e = [y for y in b.args if y.op == 'elem']
            if x and e:
                return x[0].args[0] in h
    return None


def said(g, p):
    return '; '.join(map(str, describe_path(g, p)))[:600]


def aslist(x):
    return x if isinstance(x, list) else [x]


class Saver:
    def __init__(self, c, k, name, args=None):
        self.c, self.k, self.func, self.args = c, k, c.meth(k, name), args or {}
        self.label = f'{k.name}.{name}'
        self.cache = {}
        self.where = f'{self.func.file}:{self.func.node.lineno}'
        self.files = set()

    def record(self, A):
        """{(value callable, value bound method): set of outcomes} - outcomes: 'kept', 'dropped', 'other' (other value saved), 'none' (no record)"""
        if A in self.cache:
            return self.cache[A]
        g = self.c.run(self.func, cls=self.k, args=self.args, inline=('checkpoint_save',), dirs=(A,))
        val = T('attr', SELF, A)
        out = {(a, b): set() for a, b in ((False, False), (True, False), (True, True))}

        def flags(n):
            fs = facts_at(g, n)
            bad = set()
            for f in fact_formulas(fs):
                neg = f.op == 'not'
                x = f.args[0] if neg else f
                if x.op == 'truth' and x.args[0].op == 'call' and x.args[0].args[2] and x.args[0].args[2][0] is val:
                    n_ = x.args[0].args[0].split('.')[-1]
                    ar = x.args[0].args[2]
                    for combo in out:
                        if n_ == 'callable':
                            v = combo[0]
                        elif n_ in ('hasattr',) and len(ar) > 1 and ar[1] in (const('__self__'), const('__func__')) or n_ == 'ismethod':
                            v = combo[1]
                        elif n_ == 'hasattr' and len(ar) > 1 and ar[1] is const('__call__'):
                            v = combo[0]
                        else:
                            continue
                        if v is neg:
                            bad.add(combo)
            return [x for x in out if x not in bad]

        def step(q, n, e):
            st, kept = q
            fs = g.st[n]
            if fs is not None and e.kind not in ('call', 'storeidx', 'del'):
                for f in fact_formulas(fs.facts):
                    if settle(f, st) is False:
                        return []
            if e.kind == 'storeidx' and e.recv is not None and e.recv.op == 'new' and e.args and e.args[0].op == 'const':
                good = nv(e.value) is val
                if e.args[0] is const(A):
                    return (st | {(e.recv, A if good else ('!', A))}, kept)
                return (st | {(e.recv, e.args[0].args[0])}, kept)
            if e.kind == 'del' and e.recv is not None and e.args and e.args[0].op == 'const':
                return (frozenset(x for x in st if x != (e.recv, e.args[0].args[0])), kept)
            if e.kind == 'call':
                r = e.recv
                nm = e.name.split('.')[-1]
                if r is not None and r.op == 'new':
                    cs = [a.args[0] for a in e.args if a.op == 'const']
                    if nm in ('append', 'add'):
                        st = st | {(r, x) for x in cs}
                    elif nm in ('extend', 'update'):
                        for a in e.args:
                            if a.op == 'dict':
                                for it in a.args:
                                    if it.op == 'tuple' and it.args[0] is const(A):
                                        st = st | {(r, A if nv(it.args[1]) is val else ('!', A))}
                            st = st | {(r, x) for x in (has(st, a) or ())}
                    elif nm in ('remove', 'discard', 'pop'):
                        st = frozenset(x for x in st if x[0] is not r or x[1] not in cs)
                if nm in ('dump', 'dumps') and e.args:
                    d = e.args[0]
                    h = None
                    if d.op == 'new':
                        h = {v for k_, v in st if k_ is d}
                    elif d.op == 'dict':
                        h = {it.args[0].args[0] for it in d.args if it.op == 'tuple' and it.args[0].op == 'const' and nv(it.args[1]) is val}
                        h |= {('!', A) for it in d.args if it.op == 'tuple' and it.args[0] is const(A) and nv(it.args[1]) is not val}
                    elif d.op == 'call' and d.args[0] in ('dict', 'copy', 'copy.copy') and (d.args[1] or d.args[2]):
                        b = d.args[1] if d.args[1] is not None else d.args[2][0]
                        h = {v for k_, v in st if k_ is b}
                    if h is not None:
                        if len(e.args) > 1:
                            self.files.add(opened(e.args[1]))
                        return (st, 'kept' if A in h and ('!', A) not in h else 'other' if ('!', A) in h else 'dropped')
            return (st, kept)
        at, _ = g.automaton((frozenset(), None), lambda q, n, e: aslist(step(q, n, e)))
        for kind, n, v, s in g.exits:
            if kind != 'return':
                continue
            for st, kept in at.get(n, ()):
                for combo in flags(n):
                    out[combo].add(kept or 'none')
        self.cache[A] = out
        return out

    def kept(self, A, combo=(False, False)):
        return self.record(A)[combo] == {'kept'}

    def dropped(self, A, combo=(False, False)):
        return not self.record(A)[combo] & {'kept', 'other'}


def opened(t):
    """Canonical path of an open file."""
    t = norm_term(t)
    if t.op == 'call' and t.args[0].split('.')[-1] == 'open':
        p = t.args[1] if t.args[1] is not None and t.args[1].op != 'ext' else t.args[2][0] if t.args[2] else t
        return cpath(p)
    return cpath(t)


def leaf(p):
    """Name of a file in the folder it belongs to: the part below the folder variable."""
    out = []
    while p.op == 'join':
        out = list(p.args[1:]) + out
        p = p.args[0]
    if p.op == 'call' and p.args[0].split('.')[-1] in ('Path', 'PurePath'):
        out = list(p.args[2][1:]) + out
    return tuple(out)


def check_saver(c, S, drop, cond=lambda a: True, noncall=False, extra=lambda a: False):
    """Every assigned attribute is saved unless in drop; returns the dropped ones."""
    attrs = assigned(c, S.k)
    meth, ro, rw = kinds(c, S.k)
    gone = set()
    c.count(f'attributes of {S.k.name}', len(attrs))
    for a in sorted(attrs):
        if a in rw or a in ro:
            continue
        combos = [(False, False)] if not noncall else [(False, False), (True, False)]
        if not noncall and extra(a):
            combos.append((True, False))
        if a in drop:
            gone.add(a)
            continue
        for combo in combos:
            ok = S.kept(a, combo)
            if not ok and combo == (False, False) and not cond(a):
                gone.add(a)
                continue
            if not ok and combo == (True, False):
                gone.add((a, True))
                if not noncall:
                    continue
            c.ob('attribute saved', f'{S.label}: {a}{" (callable)" if combo[0] else ""}', ok, S.where,
                 f'{a} is not saved on every path: outcomes {sorted(map(str, S.record(a)[combo]))}')
        if not S.kept(a) and not S.dropped(a):
            c.ob('attribute saved', f'{S.label}: {a}', False, S.where, f'{a} is saved on some paths only: {sorted(map(str, S.record(a)[(False, False)]))}')
    for a in sorted(ro):
        c.ob('read-only name not saved', f'{S.label}: {a}', all(S.dropped(a, x) for x in ((False, False),)), S.where, f'property {a} is saved but cannot be set on loading')
    for a in sorted(meth)[:6] + ['__class__', '__weakref__']:
        call = (False, False) if a == '__weakref__' else (True, True)
        c.ob('method not saved', f'{S.label}: {a}', S.dropped(a, call), S.where, f'{a} is saved as part of the state')
    for a in sorted(drop & set(attrs)):
        r = S.record(a)[(False, False)]
        if a in MGR_DROP | LOG_DROP | SCOPE_DROP | OPT_DROP and a not in ('_is_restart', '_is_setup'):
            c.ob('process-bound handle not saved', f'{S.label}: {a}', not r & {'kept', 'other'}, S.where, f'{a} is bound to the process and must not be saved')
    return gone


# ---------------------------------------------------------------- loaders
def setting(e, n=None):
    """(object, key term, value term) of a dynamic attribute assignment, raw terms."""
    if e.kind != 'call':
        return None
    if e.name == 'setattr' and len(e.args) == 3:
        return e.args
    if e.name.split('.')[-1] == '__setattr__' and e.recv is not None and len(e.args) == 2:
        return (e.recv,) + tuple(e.args)
    return None


def item_of(key, val, D):
    """Both belong to the same item of the record D."""
    key, val = norm_term(key), norm_term(val)
    src = {D, T('call', 'items', D, (), (), None), T('call', 'keys', D, (), (), None)}
    for d in list(src):
        src.add(T('call', 'list', None, (d,), (), None))
    if key.op == 'elem' and key.args[0] in src:
        return val is T('idx', D, key) or val.op == 'idx' and val.args[0] is D and val.args[1] is key
    if key.op == 'idx' and key.args[0].op == 'elem' and key.args[0].args[0] in src and key.args[1] is const(0):
        return val is T('idx', key.args[0], const(1))
    return False


def records(g):
    """Terms of unpickled records."""
    return {conv1(e) for e in g.ev if e is not None and e.kind == 'call' and e.name.split('.')[-1] == 'load' and e.args}


def conv1(e):
    r = rv(e)
    return T('call', e.name, r if r is not None and r.op != 'ext' else None, tuple(nv(a) for a in e.args), (), None)


def check_loader(c, label, g, obj, fname, skip=()):
    """All items of the record in the file fname are set on obj, under their own names."""
    where = f'{g.func.file}:{g.func.node.lineno}'
    Ds = [d for d in records(g) if any(fname(opened(a)) for a in d.args[2])]
    c.ob('loads the saved file', label, bool(Ds), where, 'no record is read from the file written by the saver: read ' +
         ', '.join(sorted(show(opened(a)) for d in records(g) for a in d.args[2])))
    for D in Ds:
        def bulk(e):
            return e.kind == 'call' and e.name.split('.')[-1] == 'update' and e.recv is not None and e.args and nv(e.args[0]) is D and \
                (rv(e) is T('attr', obj, '__dict__') or rv(e).op == 'call' and rv(e).args[0] == 'vars' and rv(e).args[2] == (obj,))

        def over(t):
            t = norm_term(t) if t is not None else None
            while t is not None and t.op == 'call' and t.args[0] in ('items', 'keys', 'list', 'tuple', 'sorted'):
                t = t.args[1] if t.args[1] is not None else t.args[2][0]
            return t is D
        sets = [n for n, e in enumerate(g.ev) if e is not None and setting(e) and norm_term(setting(e)[0]) is obj and
                item_of(setting(e)[1], setting(e)[2], D)]
        wrong = [n for n, e in enumerate(g.ev) if e is not None and setting(e) and norm_term(setting(e)[0]) is obj and n not in sets and
                 contains(norm_term(setting(e)[1]), lambda x: x is D)]
        bulks = [n for n, e in enumerate(g.ev) if e is not None and bulk(e)]
        c.ob('items set under their name', label, not wrong, where, 'an item is set under another name or value: ' + '; '.join(repr(g.ev[n])[:120] for n in wrong[:2]))
        sites = {g.ev[n].site for n in N(g, lambda e: over(e.target), 'iter')}
        if not bulks:
            c.ob('items set', label, bool(sets), where, 'the items of the record are not set on the object')
        for site in sites:
            its, ends = iter_segments(g, site)
            if not any(x in g.reach(its, blocked=set(ends)) for x in sets):
                continue
            miss = not_followed_through(g, its, set(sets), set(ends), D, skip)
            c.ob('every item set', label, not miss, where, 'an iteration over the record ends without setting the item' +
                 (': ' + said(g, miss[0]) if miss else ''))
            # the loop is not left early
            br = [n for n, e in enumerate(g.ev) if e is not None and e.kind == 'break' and e.site == site]
            c.ob('every item set', label + ' (loop)', not br, where, 'the loop over the record is left early')
        rets = [n for k, n, v, s in g.exits if k == 'return']
        done = N(g, lambda e: True, 'loopexit')
        done = [n for n in done if g.ev[n].site in sites] + bulks
        loads = [n for n, e in enumerate(g.ev) if e is not None and e.kind == 'call' and e.name.split('.')[-1] == 'load' and conv1(e) is D]
        p = not_followed(g, loads, done, rets)
        c.ob('every item set', label + ' (all paths)', not p, where, 'the record is read but its items are not set on a path' + (': ' + said(g, p[0][1]) if p else ''))


def not_followed_through(g, its, sets, ends, D, skip):
    out = []
    for it in its:
        nxt = [it]
        seen = g.reach(nxt, blocked=sets)
        for n in seen & ends:
            fs = facts_at(g, n)
            # items that may be left out on purpose
            if skip and any(f.op == 'eq' and any(x.op == 'const' and x.args[0] in skip for x in f.args) and any(x.op in ('elem', 'idx') for x in f.args)
                            for f in fact_formulas(fs)):
                continue
            if skip and any(f.op == 'in' and f.args[0].op in ('elem', 'idx') and f.args[1].op in ('tuple', 'list', 'set') and
                            all(x.op == 'const' and x.args[0] in skip for x in f.args[1].args) for f in fact_formulas(fs)):
                continue
            out.append(g.path(nxt, {n}, blocked=sets))
    return out


def savers(c):
    return {'manager': Saver(c, c.cls('GloMPOManager'), '_checkpoint_manager'),
            'BaseLogger': Saver(c, c.cls('BaseLogger'), 'checkpoint_save', {'block': NONE}),
            'FileLogger': Saver(c, c.cls('FileLogger'), 'checkpoint_save', {'block': NONE}),
            'scope': Saver(c, c.cls('GloMPOScope'), 'checkpoint_save'),
            **{k.name: Saver(c, k, 'checkpoint_save', {'force': NONE}) for k in optimizers(c)}}


def optimizers(c):
    base = c.cls('BaseOptimizer')
    return [k for k in c.p.subclasses(base) if k.name not in NOT_SUPPORTED and k is not base]


def check(c):
    S = savers(c)
    gone = saved(c, S)
    rebuilt(c, S, gone)
    loaders(c, S)
    manager_load(c, S)
    overrides(c)
    optimizer_build(c, S)
    restart_paths(c)


def saved(c, S):
    gone = {'manager': check_saver(c, S['manager'], MGR_DROP, noncall=True)}
    check_saver(c, S['BaseLogger'], set())
    gone['FileLogger'] = check_saver(c, S['FileLogger'], LOG_DROP)
    gone['scope'] = check_saver(c, S['scope'], SCOPE_DROP)
    for k in optimizers(c):
        at = assigned(c, k)
        call = {a for a in at if maybe_callable(c, k, a, at[a])}
        gone[k.name] = check_saver(c, S[k.name], OPT_DROP, cond=lambda a: not a.startswith('_'), extra=lambda a: a in call)
        # saving leaves the optimizer as it was: it goes on minimising
        g = c.run(c.meth(k, 'checkpoint_save'), cls=k, inline=('checkpoint_save',), dirs=())
        def last(q, n, e):
            if e.kind == 'store' and rv(e) is not None and contains(rv(e), lambda y: y is SELF):
                return [frozenset(x for x in q if x[0] != (rv(e), e.name)) | {((rv(e), e.name), nv(e.value))}]
            return [q]
        at, _ = g.automaton(frozenset(), last)
        for (b, a), x in sorted({x for kd, n, v, s in g.exits if kd == 'return' for q in at.get(n, ()) for x in q}, key=str):
            c.ob('saving leaves the optimizer as it was', f'{k.name}: {show(b)}.{a}', x is T('attr', b, a) or x.op == 'old' and x.args[0] is T('attr', b, a) or x is SELF and b is not SELF,
                 S[k.name].where, f'{show(b)}.{a} is {show(x)} after the optimizer was saved')
    for name, s in S.items():
        c.ob('record written', s.label, len(s.files) == 1, s.where, f'the record goes to {sorted(show(f) for f in s.files)}')
    return gone


def must_store(g, attr, obj=SELF, ends=None):
    """A path on which the attribute is not assigned before one of the ends (default: returns)."""
    st = [n for n, e in enumerate(g.ev) if e is not None and e.kind == 'store' and e.name == attr and rv(e) is obj]
    ends = set(ends if ends is not None else [n for k, n, v, s in g.exits if k == 'return'])
    seen = g.reach([0], blocked=set(st))
    return g.path([0], seen & ends, blocked=set(st)) if seen & ends else None


# ---------------------------------------------------------------- what is left out is rebuilt
def rebuilt(c, S, gone):
    g0 = c.graph('GloMPOManager', '__init__')
    for a in sorted(x for x in gone['manager'] if isinstance(x, str)):
        c.ob('left out, assigned again', f'GloMPOManager.{a}', must_store(g0, a) is None, S['manager'].where,
             f'{a} is not saved and the constructor does not assign it')
    g = load_graph(c)
    for a in ('task', 'opt_log', '_optimizer_packs'):
        ends = [n for n, e in enumerate(g.ev) if e is not None and e.kind == 'store' and e.name == '_is_restart' and rv(e) is SELF and e.value is TRUE]
        p = must_store(g, a, ends=ends)
        c.ob('left out, assigned again', f'GloMPOManager.load_checkpoint: {a}', p is None, S['manager'].where, f'{a} is not restored on a path' + (': ' + said(g, p) if p else ''))
    # file logger: the file and the mirrors of its content
    go = c.graph('FileLogger', 'open')
    for a in sorted(x for x in gone['FileLogger'] if isinstance(x, str)):
        c.ob('left out, assigned again', f'FileLogger.{a}', must_store(go, a) is None, S['FileLogger'].where, f'{a} is not saved and not assigned when the log is opened')
    for a in sorted({x for x in gone['scope'] if isinstance(x, str)} - {'_is_setup'}):
        ok = must_store(c.graph('GloMPOScope', '__init__', cap=8, keep=lambda f: False), a) is None or a == '_writer'
        c.ob('left out, assigned again', f'GloMPOScope.{a}', ok, S['scope'].where, f'{a} is not saved and not assigned by the constructor')
    gl = c.graph('GloMPOScope', 'load_state', inline=('setup_moviemaker', '_new_writer'))
    for kind, n, v, s in gl.exits:
        if kind == 'return':
            fs = norm_facts(s.facts)
            ok = entails(fs, mk_not(truth(sattr('record_movie')))) or (SELF, '_writer') in s.heap
            c.ob('left out, assigned again', 'GloMPOScope._writer', ok, f'{gl.func.file}:{gl.func.node.lineno}', 'a recording scope is restored without a movie writer')
    # optimizers
    gb = c.graph('BaseOptimizer', '__init__')
    for a in sorted(OPT_DROP):
        if a in assigned(c, c.cls('BaseOptimizer')):
            c.ob('left out, assigned again', f'BaseOptimizer.{a}', must_store(gb, a) is None, f'{gb.func.file}:{gb.func.node.lineno}', f'{a} is not saved and not assigned by the constructor')
    for k in optimizers(c):
        refilled(c, k)
        names = sorted({x if isinstance(x, str) else x[0] for x in gone[k.name]} - OPT_DROP)
        if not names:
            continue
        gm = restart_graph(c, k)
        heads = N(gm, lambda e: True, 'loophead') + [n for kd, n, v, s in gm.exits if kd == 'return']
        first = [n for n in heads]
        for a in names:
            p = must_store(gm, a, ends=first)
            c.ob('left out, assigned again', f'{k.name}.{a}', p is None, S[k.name].where,
                 f'{a} is not saved and the restart path of minimize does not assign it' + (': ' + said(gm, p) if p else ''))


def emptied(c, k):
    """Attributes of parts of the optimizer which are None in the saved file."""
    g = c.run(c.meth(k, 'checkpoint_save'), cls=k, inline=('checkpoint_save',), dirs=())
    out = set()
    for n, e in enumerate(g.ev):
        if e is not None and e.kind == 'call' and e.name.split('.')[-1] == 'dump' and g.st[n] is not None:
            out |= {(norm_term(b), a) for (b, a), x in g.st[n].heap.items() if nv(x) is NONE and norm_term(b) is not SELF and contains(b, lambda y: y is SELF)}
    return out


def refilled(c, k):
    """What was emptied for saving is set again by the restart path, with the arguments of a resume."""
    for b, a in sorted(emptied(c, k), key=str):
        g = resume_graph(c, k)

        def step(q, n, e):
            if e.kind == 'store' and e.name == a and rv(e) is b:
                return [nv(e.value) is not NONE]
            if e.kind == 'store' and T('attr', rv(e), e.name) is b:
                return [True]
            return [q]
        at, _ = g.automaton(False, step)
        ok = all(all(at.get(n, ())) for kd, n, v, s in g.exits if kd == 'return')
        c.ob('part emptied for saving is filled again', f'{k.name}: {show(b)}.{a}', ok, f'{g.func.file}:{g.func.node.lineno}',
             f'{show(b)}.{a} is None in the file and stays None, or is set to None, in the resumed optimizer')


def restart_graph(c, k):
    flag = T('attr', SELF, '_is_restart')
    return c.run(c.meth(k, 'minimize'), cls=k, assume=(truth(flag),), cap=20)


# ---------------------------------------------------------------- loading
def load_graph(c):
    return c.run(c.meth('GloMPOManager', 'load_checkpoint'), cls=c.cls('GloMPOManager'), args={'glompo_kwargs': T('dict')}, cap=40, keep=wanted)


def wanted(f):
    """Facts that loading needs: those about the task, the kind of log and the number of jobs."""
    for x in subterms(f):
        if x is const('_is_restart'):
            return True
        if x.op == 'attr' and x.args[0] is SELF and x.args[1] in ('max_jobs', 'summary_files'):
            return True
        if x.op == 'elem':
            return any(y.op == 'const' and isinstance(y.args[0], str) for y in subterms(f)) and f.op in ('eq', 'not', 'in')
    return False


def new_object(g):
    """The object under construction (returned)."""
    return {nv(v) for k, n, v, s in g.exits if k == 'return'}


def loaders(c, S):
    # log
    for name in ('BaseLogger', 'FileLogger'):
        g = c.graph(name, 'checkpoint_load')
        objs = new_object(g)
        c.ob('one object', f'{name}.checkpoint_load', len(objs) == 1, f'{g.func.file}:{g.func.node.lineno}', 'different objects are returned')
        for o in objs:
            ok = o.op == 'call' and o.args[0] == '__new__' or o.op == 'inst'
            c.ob('new object', f'{name}.checkpoint_load', ok, f'{g.func.file}:{g.func.node.lineno}', f'returns {show(o)}')
            check_loader(c, f'{name}.checkpoint_load', g, o, lambda p: leaf(p) == ())
    g = load_graph(c)
    # scope
    gs = c.graph('GloMPOScope', 'load_state', inline=('setup_moviemaker', '_new_writer'))
    files = {leaf(p) for p in S['scope'].files}
    check_loader(c, 'GloMPOScope.load_state', gs, SELF, lambda p: leaf(p) in files)
    # the stores after it may only concern the movie writer
    for n, e in enumerate(gs.ev):
        if e is not None and e.kind == 'store' and rv(e) is SELF:
            c.ob('restored value kept', f'GloMPOScope.load_state: {e.name}', e.name in ('_writer', '_is_setup', '_writer_kwargs'), e.where, f'{e.name} is overwritten after it was restored')
    # optimizers
    for k in optimizers(c):
        go = c.graph(k, 'checkpoint_load')
        where = f'{go.func.file}:{go.func.node.lineno}'
        objs = new_object(go)
        c.ob('one object', f'{k.name}.checkpoint_load', len(objs) == 1, where, 'different objects are returned')
        for o in objs:
            check_loader(c, f'{k.name}.checkpoint_load', go, o, lambda p: leaf(p) == ())
            init = [n for n, e in enumerate(go.ev) if e is not None and e.kind == 'call' and e.name.split('.')[-1] in ('__init__', 'BaseOptimizer') and
                    any(a == '**' and nv(b).op == 'sym' or a in ('_signal_pipe', '**') for a, b in e.kw)]
            if o.op == 'inst' or o.op == 'call' and o.args[0] != '__new__':
                init = init or [n for n, e in enumerate(go.ev) if e is not None and e.kind == 'call' and e.kw and any(a == '**' for a, b in e.kw)]
            sets = [n for n, e in enumerate(go.ev) if e is not None and (setting(e) and norm_term(setting(e)[0]) is o or
                                                                        e.kind == 'call' and e.name.split('.')[-1] == 'update' and rv(e) is T('attr', o, '__dict__'))]
            rets = [n for kd, n, v, s in go.exits if kd == 'return']
            p = not_preceded(go, init, rets)
            c.ob('handles supplied', f'{k.name}.checkpoint_load', bool(init) and not p, where, 'the process-bound arguments are not given to the constructor')
            p = [n for n in init if go.reach(sets) & {n}]
            c.ob('state after handles', f'{k.name}.checkpoint_load', not p, where, 'the constructor runs after the state was restored and resets it')
            for kd, n, v, s in go.exits:
                if kd != 'return':
                    continue
                fl = [nv(x) for (b, a), x in s.heap.items() if a == '_is_restart' and norm_term(b) is o]
                c.ob('restored optimizer knows it is resumed', f'{k.name}.checkpoint_load', fl == [TRUE], where, 'the optimizer is returned without being marked as resumed')
            for n, e in enumerate(go.ev):
                if e is not None and e.kind == 'store' and rv(e) is o and e.name not in OPT_DROP and go.reach(sets) & {n}:
                    c.ob('restored value kept', f'{k.name}.checkpoint_load: {e.name}', False, e.where, f'{e.name} is overwritten after it was restored')
    gr = c.graph('BaseOptimizer', 'is_restart')
    for kd, n, v, s in gr.exits:
        if kd == 'return':
            c.ob('restored optimizer knows it is resumed', 'BaseOptimizer.is_restart', nv(v) is sattr('_is_restart'), f'{gr.func.file}:{gr.func.node.lineno}', f'reports {show(nv(v))}')


PER_SESSION = {'t_start': NONE, 't_end': NONE, 'opt_crashed': FALSE, 'last_opt_spawn': T('tuple', const(0), const(0))}
NANS = ('cpu_history', 'mem_history', 'load_history')


def manager_load(c, S):
    g = load_graph(c)
    where = f'{g.func.file}:{g.func.node.lineno}'
    lab = 'GloMPOManager.load_checkpoint'
    mfile = {leaf(p) for p in S['manager'].files}
    skip = {'_is_restart'}
    check_loader(c, lab, g, SELF, lambda p: leaf(p) in mfile, skip)
    k = c.cls('GloMPOManager')
    meth, ro, rw = kinds(c, k)
    attrs = assigned(c, k)
    sets = [n for n, e in enumerate(g.ev) if e is not None and setting(e) and norm_term(setting(e)[0]) is SELF]
    done = [n for n, e in enumerate(g.ev) if e is not None and e.kind == 'store' and e.name == '_is_restart' and rv(e) is SELF and e.value is TRUE]
    c.ob('initialised at the end', lab, bool(done), where, 'the manager is never marked as initialised')

    # ------------------------------------------------ nothing restored is lost
    for n, e in enumerate(g.ev):
        if e is None:
            continue
        if e.kind == 'store' and rv(e) is SELF:
            a, v = e.name, nv(e.value)
            if a in MGR_DROP or a in rw or not S['manager'].kept(a):
                continue
            if a in PER_SESSION:
                ok, why = v is PER_SESSION[a], f'{a} starts as {show(v)} instead of {show(PER_SESSION[a])}'
            elif a == 't_used':
                ok, why = True, ''        # decided by C29
            elif a == 'converged':
                ok = v is FALSE or v.op == 'truth' and contains(v, lambda x: x.op == 'call') or v.op == 'call' and v.args[0] in ('convergence_checker', '__call__', 'bool')
                why = f'converged is set to {show(v)}'
            elif a == 'scope':
                continue
            elif a == 'visualisation' and v in (FALSE, NONE):
                # given up when matplotlib is missing (C23)
                gone = [m for m, x in enumerate(g.ev) if x is not None and x.kind == 'catch' and {'ImportError', 'ModuleNotFoundError'} & set(x.name.split('/'))]
                ok, why = not not_preceded(g, gone, [n]), f'{a} is overwritten with {show(v)} after it was restored'
            else:
                ok, why = False, f'{a} is overwritten with {show(v)} after it was restored'
            c.ob('restored value kept', f'{lab}: {a}', ok, e.where, why)
        elif e.kind == 'call' and e.name in MUT and rv(e) is not None and rv(e).op == 'attr' and rv(e).args[0] is SELF and rv(e).args[1] in attrs:
            a = rv(e).args[1]
            ok = e.name == 'append' and a in NANS and only_nan(nv(e.args[0])) if e.args else False
            c.ob('restored value kept', f'{lab}: {a}.{e.name}', ok, e.where, f'{a} is changed after it was restored')
        elif e.kind in ('storeidx', 'del') and rv(e) is not None and rv(e).op == 'attr' and rv(e).args[0] is SELF and rv(e).args[1] in attrs and rv(e).args[1] not in MGR_DROP:
            c.ob('restored value kept', f'{lab}: {rv(e).args[1]}[]', False, e.where, f'{rv(e).args[1]} is changed after it was restored')
    rets = set(done)
    for a, _ in PER_SESSION.items():
        p = must_store(g, a, ends=rets)
        if a in ('t_end', 'opt_crashed', 't_start'):
            c.ob('session state reset', f'{lab}: {a}', p is None, where, f'{a} of the previous session is kept')
    p = must_store(g, 't_used', ends=rets)
    c.ob('time of the previous sessions', lab, p is None, where, 't_used is not recalculated')
    for a in NANS:
        st = [n for n, e in enumerate(g.ev) if e is not None and e.kind == 'call' and e.name == 'append' and rv(e) is sattr(a)]
        p = not_preceded(g, st, done)
        c.ob('break marked in the histories', f'{lab}: {a}', not p, where, f'no break is marked in {a}')

    # ------------------------------------------------ initialised exactly when everything is restored
    packs = [n for n, e in enumerate(g.ev) if e is not None and (e.kind == 'store' and rv(e) is SELF and e.name != '_is_restart' or e.kind == 'storeidx' and is_pack(e))]
    late = [n for n in packs if g.reach(done) & {n}]
    c.ob('initialised at the end', lab + ' (order)', not late, where, 'the manager counts as initialised before it is completely restored')
    rd = [x for x in g.exits if x[0] == 'raise' and g.reach(done) & {x[1]}]
    c.ob('initialised at the end', lab + ' (errors)', not rd, where, 'an error is raised although the manager counts as initialised')
    if S['manager'].record('_is_restart')[(False, False)] & {'kept', 'other'}:
        half_restored(c, g, lab, sets, where)
    # ------------------------------------------------ errors are raised
    bad_content(c, S, g, lab, where)


def only_nan(v):
    if v.op == 'const':
        return v.args[0] != v.args[0]
    if v.op == 'ext':
        return v.args[0] in ('numpy.nan', 'math.nan')
    if v.op in ('tuple', 'list', 'repeat'):
        return all(only_nan(x) for x in v.args if not (v.op == 'repeat' and x is v.args[1]))
    return show(v) == 'nan'


def half_restored(c, g, lab, sets, where):
    """The flag which says that the manager is initialised is part of the record: it must not be taken over before everything is restored."""
    def step(q, n, e):
        if q != 'end' and g.st[n] is not None and any(f.op == 'not' and f.args[0].op == 'in' and f.args[0].args[0] is const('_is_restart') for f in fact_formulas(g.st[n].facts)):
            q = 'removed'
        if e.kind == 'call' and e.name == 'pop' and e.args and e.args[0] is const('_is_restart'):
            return 'removed'
        if e.kind == 'del' and e.args and e.args[0] is const('_is_restart'):
            return 'removed'
        if e.kind == 'store' and e.name == '_is_restart' and rv(e) is SELF:
            return 'end' if e.value is TRUE else q if q == 'removed' else 'clean'
        if n in S_ and q not in ('removed', 'end'):
            fs = fact_formulas(facts_at(g, n))
            key = nv(setting(e)[1])
            if any(f.op == 'not' and f.args[0].op == 'eq' and key in f.args[0].args and const('_is_restart') in f.args[0].args for f in fs) or \
                    any(f.op == 'not' and f.args[0].op == 'in' and f.args[0].args[0] is key and contains(f.args[0].args[1], lambda x: x is const('_is_restart')) for f in fs):
                return q
            return 'dirty'
        return q
    S_ = set(sets)
    at, parent = g.automaton('clean', lambda q, n, e: [step(q, n, e)])
    for kind, n, v, s in g.exits:
        if kind == 'raise':
            c.ob('a failed load leaves the manager uninitialised', lab, 'dirty' not in at.get(n, ()), where,
                 'the flag of the saved manager is taken over: after an error the half-restored manager counts as initialised and can be started')


def bad_content(c, S, g, lab, where):
    mf = {leaf(p) for p in S['manager'].files}
    # reading or setting the manager's variables fails
    def of_manager(e):
        return e.kind == 'call' and e.name.split('.')[-1] == 'load' and e.args and leaf(opened(e.args[0])) in mf
    exc = []
    for n, e in enumerate(g.ev):
        if e is None or e.kind != 'exc':
            continue
        sib = [m for m, x in enumerate(g.ev) if x is not None and x.kind == 'call' and x.node is e.node and (of_manager(x) or m_setting(x))]
        if sib and e.name != 'KeyboardInterrupt':
            exc.append(n)
    c.ob('unusable manager state is an error', lab, all(ends_in(g, n, 'raise') for n in exc), where, 'a failure to restore the variables of the manager is not reported')
    # the task
    gt = c.run(c.meth('GloMPOManager', 'load_checkpoint'), cls=c.cls('GloMPOManager'), args={'glompo_kwargs': T('dict')}, cap=200, keep=about_task, hold={'dill.load', 'load', 'callable', 'task_loader'})

    def tstep(q, n, e):
        v, some = q
        if e.kind == 'store' and e.name == 'task' and rv(e) is SELF:
            v, some = nv(e.value), False
        if g_st(gt, n) is not None and v is not None and not some:
            fs = norm_facts(gt.st[n].facts)
            for x in (v, sattr('task')):
                if x is NONE:
                    continue
                if decide(truth(x), fs) is True or decide(T('is', x, NONE), fs) is False or decide(truth(T('call', 'callable', None, (x,), (), None)), fs) is True:
                    some = True
                if x is v and decide(T('is', x, NONE), fs) is True:
                    return []
        return [(v, some)]
    at, _ = gt.automaton((None, False), tstep)
    done = [n for n, e in enumerate(gt.ev) if e is not None and e.kind == 'store' and e.name == '_is_restart' and rv(e) is SELF and e.value is TRUE]
    bad = sorted({show(v) if v is not None else 'nothing' for n in done for v, some in at.get(n, ()) if not some})
    c.ob('a missing task is an error', lab, not bad, where, f'the manager can be initialised although the task is {bad}')
    vals = {v for n in done for v, some in at.get(n, ())}
    for v in vals:
        if v is not None and v.op == 'call':
            ok = v.args[0].split('.')[-1] in ('load', '__call__', 'task_loader') or v.args[0] == 'task_loader'
        else:
            ok = v is not None and v.op == 'sym' and v.args[0] == 'task'
        c.ob('task from the checkpoint or the caller', f'{lab}: {show(v)[:60] if v is not None else None}', ok, where, f'the task is {show(v) if v is not None else None}')
    tf = {leaf(p) for p in task_files(c)}
    lf = {leaf(opened(a)) for d in records(gt) for a in d.args[2]}
    c.ob('task file', lab, tf <= lf and bool(tf), where, f'the task is saved to {tf} and read from {lf}')
    # no optimizer could be rebuilt
    gp = c.run(c.meth('GloMPOManager', 'load_checkpoint'), cls=c.cls('GloMPOManager'), args={'glompo_kwargs': T('dict')}, cap=12, keep=about_packs)
    done = [n for n, e in enumerate(gp.ev) if e is not None and e.kind == 'store' and e.name == '_is_restart' and rv(e) is SELF and e.value is TRUE]
    for n in done:
        fs = fact_formulas(norm_facts(gp.st[n].facts))
        ok = any(contains(f, lambda x: x.op == 'new' and x.args[0] == 'dict' or x is PACKS) for f in fs)
        c.ob('no optimizer restorable is an error', lab, ok, where, 'the manager is initialised without checking that an optimizer could be rebuilt')
    final_log(c, S, g, lab, where)


def g_st(g, n):
    return g.st[n]


def m_setting(e):
    s = setting(e)
    return s is not None and norm_term(s[0]) is SELF


def ends_in(g, n, kind):
    ends = {m: k for k, m, v, s in g.exits}
    return all(ends[m] == kind for m in g.reach([n]) if m in ends)


def about_task(f):
    return not contains(f, lambda x: x.op == 'const' and isinstance(x.args[0], str) and x.args[0] != 'task' and f.op in ('in', 'not')) and any(x is sattr('task') or x.op == 'call' and x.args[0].split('.')[-1] == 'load' or x.op == 'sym' and x.args[0] in ('task', 'task_loader')
               for x in subterms(f)) and not contains(f, lambda x: x.op in ('elem', 'comp', 'hv'))


def about_packs(f):
    return contains(f, lambda x: x.op == 'new' and x.args[0] == 'dict' or x is PACKS)


def final_log(c, S, g, lab, where):
    def step(q, n, e):
        if e.kind == 'store' and e.name == 'opt_log' and rv(e) is SELF:
            return [nv(e.value)]
        return [q]
    at, _ = g.automaton(None, step)
    sf = {leaf(p) for p in S['BaseLogger'].files | S['FileLogger'].files}
    files = sattr('summary_files')
    for n, e in enumerate(g.ev):
        if e is None or e.kind != 'store' or e.name != '_is_restart' or e.value is not TRUE:
            continue
        for v in at.get(n, ()):
            ok = v is not None and v.op == 'call' and v.args[0].split('.')[-1] == 'checkpoint_load' and len(v.args[2]) == 1 and leaf(cpath(v.args[2][0])) in sf
            c.ob('log restored', lab, ok, where, f'the log is {show(v)[:150] if v is not None else "missing"}')
    kinds_ = {'FileLogger': rel(files, const(2), '>'), 'BaseLogger': rel(files, const(2), '<=')}
    for n, e in enumerate(g.ev):
        if e is not None and e.kind == 'store' and e.name == 'opt_log' and rv(e) is SELF:
            v = nv(e.value)
            cl = [x.args[0].split(':')[-1] for x in subterms(v) if x.op == 'class']
            for x in cl:
                fs = ordered(norm_facts(g.st[n].facts), kinds_.get(x, TRUE))
                c.ob('kind of log', f'{lab}: {x}', x in kinds_ and entails(fs, kinds_[x]), e.where, f'{x} is restored with other settings than the ones a fresh start uses it for')


def task_files(c):
    g = c.graph('GloMPOManager', '_checkpoint_task')
    return {opened(e.args[1]) for e in g.ev if e is not None and e.kind == 'call' and e.name.split('.')[-1] == 'dump' and len(e.args) > 1 and nv(e.args[0]) is sattr('task')}


# ---------------------------------------------------------------- overrides by the caller
def overrides(c):
    k = c.cls('GloMPOManager')
    V = T('sym', 'V')
    lab = 'GloMPOManager.load_checkpoint override'
    specs = {'backend': {'proc_backend': 'contains', 'opts_daemonic': 'forced'},
             'force_terminations_after': {'allow_forced_terminations': rel(V, const(0), '>'), '_too_long': V},
             'working_dir': {'working_dir': 'path'}, 'end_timeout': {'end_timeout': V}}
    for key, spec in specs.items():
        g = c.run(c.meth(k, 'load_checkpoint'), cls=k, args={'glompo_kwargs': T('dict', T('tuple', const(key), V))}, cap=8, keep=lambda f: False, dirs=(key,))
        where = f'{g.func.file}:{g.func.node.lineno}'
        got, at = {}, {}
        done = [n for n, e in enumerate(g.ev) if e is not None and e.kind == 'store' and e.name == '_is_restart' and rv(e) is SELF and e.value is TRUE]
        for n, e in enumerate(g.ev):
            if e is None:
                continue
            if e.kind == 'store' and rv(e) is SELF:
                at.setdefault(e.name, []).append(n)
            elif setting(e) and norm_term(setting(e)[0]) is SELF and setting(e)[1].op == 'const':
                at.setdefault(setting(e)[1].args[0], []).append(n)
            if e.kind == 'store' and rv(e) is SELF and contains(nv(e.value), lambda x: x is V):
                got.setdefault(e.name, set()).add(nv(e.value))
            elif setting(e) and norm_term(setting(e)[0]) is SELF and contains(norm_term(setting(e)[2]), lambda x: x is V):
                got.setdefault(str(setting(e)[1].args[0]) if setting(e)[1].op == 'const' else show(setting(e)[1]), set()).add(nv(setting(e)[2]))
        for a, want in spec.items():
            vs = got.pop(a, set())
            if key == 'end_timeout' and not vs:
                ok = False
            elif want == 'contains':
                ok = bool(vs) and all(truth(v) is T('in', const('processes'), V) for v in vs)
            elif want == 'forced':
                ok = bool(vs) and all(truth(v) is mk_not(rel(V, const('processes_forced'), '==')) for v in vs)
            elif want == 'path':
                ok = bool(vs) and all(cpath(v) is V for v in vs)
            else:
                ok = bool(vs) and all(v is want or want.op != 'sym' and iffs(v, want) for v in vs)
            if ok and not_preceded(g, at.get(a, ()), done):
                c.ob('override', f'{lab}: {key} -> {a}', False, where, f'{key} does not set {a} on a path')
            c.ob('override', f'{lab}: {key} -> {a}', ok, where, f'{key} sets {a} to {sorted(show(v) for v in vs)}')
        c.ob('override', f'{lab}: {key}', not got, where, f'{key} also changes {sorted(got)}')


def iffs(v, want):
    return truth(v) is truth(want) or entails(ordered({}, truth(v), truth(want)), iff(truth(v), truth(want)))


# ---------------------------------------------------------------- rebuilding the optimizers
def is_pack(e):
    return e.kind == 'storeidx' and e.value is not None and e.value.op == 'ntup' and e.value.args[0].endswith('ProcessPackage')


def optimizer_build(c, S):
    g = load_graph(c)
    where = f'{g.func.file}:{g.func.node.lineno}'
    lab = 'GloMPOManager.load_checkpoint'
    packs = [n for n, e in enumerate(g.ev) if e is not None and is_pack(e)]
    c.ob('optimizers rebuilt', lab, bool(packs), where, 'no package is made for the restored optimizers')
    chk = saved_name(c)
    groups = {}
    for n in packs:
        groups.setdefault((nv(g.ev[n].args[0]), tuple((a, nv(b)) for a, b in g.ev[n].value.args[1])), []).append(n)
    inner = enclosing(g, packs)
    its = [m for site in inner for m in N(g, lambda x: x.site == site, 'iter')]
    for (I, f), ns in groups.items():
        f = dict(f)
        w = g.ev[ns[0]].where
        tgt = {x for x in subterms(f.get('process', NONE)) if x.op == 'call' and x.args[0].split('.')[-1] == 'checkpoint_load'}
        c.ob('package of the restored optimizer', lab, len(tgt) == 1, w, 'the process of the package does not run a restored optimizer')
        for o in tgt:
            kw = dict(o.args[3])
            if o.args[2]:
                kw.setdefault('path', o.args[2][0])
            own = T('idx', sattr('_opt_checkpoints'), I)
            c.ob('type of its own identity', lab, o.args[1] is T('attr', own, 'opt_type') or o.args[1] is T('idx', own, const(0)), w, f'built by {show(o.args[1])[:120] if o.args[1] is not None else None}')
            c.ob('own identity', lab, kw.get('_opt_id') is I, w, f'the identity passed is {show(kw["_opt_id"])[:100] if "_opt_id" in kw else "missing"}')
            p = cpath(kw['path']) if 'path' in kw else None
            lf = leaf(p) if p is not None else None
            ok = lf is not None and (same_name(lf, chk, I) or p.op == 'elem' and int_name(I) is p)
            c.ob('own file', lab, ok, w, f'restored from {show(p)[:150] if p is not None else None}')
            a, b = kw.get('_signal_pipe'), f.get('signal_pipe')
            ok = a is not None and b is not None and a.op == b.op == 'idx' and a.args[0] is b.args[0] and {a.args[1], b.args[1]} == {const(0), const(1)} and \
                a.args[0].op == 'call' and a.args[0].args[0].endswith('Pipe')
            c.ob('own pipe', lab, ok, w, 'optimizer and package do not hold the two ends of one pipe')
            ok = kw.get('_pause_flag') is not None and kw.get('_pause_flag') is f.get('allow_run_event')
            c.ob('own event', lab, ok, w, 'optimizer and package do not share the pause event')
            c.ob('results queue', lab, kw.get('_results_queue') is sattr('optimizer_queue'), w, 'the optimizer does not get the results queue')
            slots = f.get('slots')
            c.ob('own slots', lab, slots_of(slots, I), w, f'slots are {show(slots)[:120] if slots is not None else None}')
            wk = [m for m, x in enumerate(g.ev) if x is not None and x.kind == 'store' and x.name == 'workers' and rv(x) is o and nv(x.value) is slots]
            c.ob('own slots', lab + ' (workers)', bool(wk) and not set(ns) & g.reach(its or [0], blocked=set(wk)), w, 'the number of workers of the restored optimizer is not that of its package')
            pr = f['process']
            args = {x for x in subterms(pr) if x.op == 'tuple' and x.args and x.args[0] is sattr('task')}
            c.ob('restored task', lab, bool(args), w, 'the process does not minimise the restored task')
            # pipe and event are new for every optimizer
            for nm, t in (('pipe', a.args[0] if a is not None and a.op == 'idx' else None), ('event', f.get('allow_run_event'))):
                if t is None or t.op != 'call':
                    continue
                mk = [m for m, x in enumerate(g.ev) if x is not None and x.kind == 'call' and x.name == t.args[0] and conv1(x) is T('call', *t.args[:3], (), None)]
                c.ob(f'own {nm}', lab + ' (new for each)', bool(mk) and not set(ns) & g.reach(its, blocked=set(mk)), w, f'the {nm} is shared by several optimizers')
            st = [m for m, x in enumerate(g.ev) if x is not None and x.kind == 'call' and x.name == 'set' and rv(x) is f.get('allow_run_event')]
            c.ob('not paused', lab, bool(st) and not set(ns) & g.reach(its or [0], blocked=set(st)), w, 'the restored optimizer starts paused')
    # no optimizer of the checkpoint is left out silently
    ids = {nv(g.ev[n].args[0]) for n in packs}
    for I in ids:
        src = I.args[0] if I.op == 'elem' else I
        c.ob('every optimizer of the checkpoint', lab, unfiltered(src), where, f'the optimizers are taken from {show(src)[:200]}')
    for site in inner:
        its, ends = iter_segments(g, site)
        if any(g.ev[x].kind == 'iter' and contains(nv(g.ev[x].target), lambda t: t in {i.args[0] for i in ids if i.op == 'elem'}) for x in its):
            exc = {m for m, x in enumerate(g.ev) if x is not None and x.kind in ('exc', 'catch')}
            seen = g.reach(its, blocked=set(packs) | exc)
            c.ob('every optimizer of the checkpoint', lab + ' (loop)', not seen & set(ends), where, 'an iteration ends without a package and without an error')
            warn = {m for m, x in enumerate(g.ev) if x is not None and x.kind == 'call' and (x.name.split('.')[-1] in ('warn', 'error', 'critical', 'warning', 'exception'))}
            seen = g.reach(its, blocked=set(packs) | warn)
            c.ob('failed optimizer reported', lab, not seen & set(ends), where, 'an optimizer which cannot be restored is dropped silently')


def unfiltered(t):
    """The identities of all files in the folder of optimizers."""
    while t.op == 'call' and t.args[0] in ('items', 'keys', 'sorted', 'list', 'copy', 'tuple', 'dict'):
        t = t.args[1] if t.args[1] is not None else t.args[2][0]
    if t.op == 'comp':
        if t.args[3] is not TRUE:
            return False
        return unfiltered(t.args[2])
    if t.op == 'call' and t.args[0].split('.')[-1] in ('iterdir', 'listdir', 'glob', 'scandir'):
        return True
    return t.op in ('new', 'hv') or t is sattr('_opt_checkpoints') or t.op == 'attr'


def slots_of(t, I):
    """The recorded slots of the optimizer, or the equal share of the new limit."""
    if t is None:
        return False
    rec = {T('attr', T('idx', sattr('_opt_checkpoints'), I), 'slots'), T('idx', T('idx', sattr('_opt_checkpoints'), I), const(1))}
    if t in rec:
        return True
    return t.op == 'idx' and t.args[1] is I or contains(t, lambda x: x is sattr('max_jobs'))


def int_name(I):
    """The file whose name gives the identity."""
    for x in subterms(I):
        if x.op == 'attr' and x.args[1] in ('name', 'stem') and x.args[0].op == 'elem':
            return x.args[0]
    return None


def saved_name(c):
    """(folder parts, name term, identity) under which an optimizer is told to save itself."""
    g = c.graph('GloMPOManager', '_checkpoint_optimizers', inline=(), cap=8, keep=lambda f: False)
    out = set()
    for e in g.ev:
        if e is None or e.kind != 'call' or e.name not in ('_send_signal', 'send'):
            continue
        m = av(e, 1, 'signal') if e.name == '_send_signal' else av(e, 0)
        who = av(e, 0, 'opt_id') if e.name == '_send_signal' else None
        if m is not None and m.op == 'tuple' and m.args and m.args[0] is const(0) and len(m.args) > 1:
            out.add((leaf(cpath(m.args[1])), who))
    return out


def same_name(lf, saved, I):
    for names, who in saved:
        ren = tuple(rebuild(x, lambda y: cpath(I) if y is who else y) if isinstance(x, T) else x for x in names)
        if ren == lf or tuple(map(show_name, ren)) == tuple(map(show_name, lf)):
            return True
    return False


def show_name(t):
    return t.args[0] if t.op == 'const' else t


# ---------------------------------------------------------------- restart paths of the optimizers
def part_types(c, k):
    """Classes of the parts of an object, from the constructor calls assigned to them."""
    out = {}
    for a, sites in assigned(c, k).items():
        for m, f, n in sites:
            for x in ast.walk(f):
                if isinstance(x, ast.Assign) and n in x.targets and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Name):
                    t = m.module.classes.get(x.value.func.id)
                    if t is not None and not isinstance(t, str):
                        out[T('attr', SELF, a)] = t
    return out


def resume_graph(c, k):
    """minimize as a resumed optimizer runs it: only function, x0 and bounds are given."""
    f = c.meth(k, 'minimize')
    a = f.node.args
    dflt = {}
    pos = a.posonlyargs + a.args
    for x, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
        if isinstance(d, ast.Constant):
            dflt[x.arg] = const(d.value)
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if isinstance(d, ast.Constant):
            dflt[x.arg] = const(d.value)
    passed = {x.arg for x in pos[1:4]}
    args = {x: v for x, v in dflt.items() if x not in passed}
    return c.run(f, cls=k, args=args, assume=(truth(T('attr', SELF, '_is_restart')),), cap=20, types=part_types(c, k))


def restart_paths(c):
    for k in optimizers(c):
        f = c.meth(k, 'minimize')
        g = resume_graph(c, k)
        rs = [(n, v) for kd, n, v, s in g.exits if kd == 'raise']
        own = rs
        p = g.path([0], {own[0][0]}) if own else None
        c.ob('resumed optimizer does not fail on missing arguments', f'{k.name}.minimize', not own, f'{f.file}:{f.node.lineno}',
             'with the arguments of a resume the restart path raises ' + (show(own[0][1]) + ': ' + said(g, p) if own else ''))

