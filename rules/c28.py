"""An ownership analysis: every container or object written to (item and attribute assignment, deletion, in-place operators and mutating
methods) in the selectors, optimizers, generators and the manager's spawning code is traced back to where it comes from; it may not be an
object the user handed in, nor an element of one, unless a copy was made first. The settings which reach each started optimizer are followed
from the selected entry to the constructor, to the package and to the new process or thread: nothing is added, lost or changed, and unless
processes are used they are a deep copy."""
import ast

from sa.core import *
from sa.mgr import *
from sa.engine import VOCAB

TECHNIQUE = 'ownership (escape/effect) analysis of every write over all paths; term provenance of the settings'
ASSUMPTIONS = ['calls of user code and of other packages do not modify their arguments', 'NumPy operations other than in-place ones return new arrays']
MUTATORS = {'append', 'extend', 'insert', 'remove', 'pop', 'popitem', 'clear', 'update', 'setdefault', 'sort', 'reverse', 'add', 'discard', 'fill',
            'resize', 'intersection_update', 'difference_update', 'symmetric_difference_update', '__setitem__', '__delitem__', '__setattr__',
            'appendleft', 'popleft', 'rotate', 'itemset', 'partition'}
ON_FIRST = {'random.shuffle', 'numpy.random.shuffle', 'setattr', 'delattr', 'operator.setitem', 'operator.delitem', 'heapq.heappush', 'heapq.heappop',
            'heapq.heapify', 'bisect.insort', 'numpy.put', 'numpy.copyto', 'numpy.fill_diagonal', 'numpy.place', 'numpy.putmask'}
SHALLOW = {'copy.copy', 'dict', 'list', 'tuple', 'set', 'frozenset', 'sorted', 'reversed', 'iter', 'zip', 'enumerate', 'map', 'filter', 'copy'}
VIEWS = {'numpy.asarray', 'numpy.asanyarray', 'numpy.ravel', 'numpy.reshape', 'numpy.transpose', 'numpy.atleast_1d', 'numpy.atleast_2d', 'numpy.squeeze',
         'ravel', 'reshape', 'view', 'transpose', 'squeeze'}
GIVE = {'get', 'values', 'items', 'pop', 'setdefault', 'popitem', '__getitem__', 'random.choice', 'next', 'numpy.random.choice'}
NOT_THEIRS = {'manager', 'mng', 'log', 'function', 'logger', 'self', 'path', 'parent'}
PLAIN = {'int', 'float', 'str', 'bool', 'Optional[int]', 'Optional[float]', 'Optional[str]', 'Optional[bool]', 'bytes'}
FRESH = (False, False)
BOTH = (True, True)


def params(func):
    a = func.node.args
    out = {}
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        if x.arg in NOT_THEIRS or x.arg.startswith('_') or x.annotation is not None and ast.unparse(x.annotation).replace('typing.', '') in PLAIN:
            continue
        out[x.arg] = BOTH
    for x in (a.vararg, a.kwarg):
        if x is not None:
            out[x.arg] = out['*' + x.arg] = out['**' + x.arg] = (False, True)   # The container belongs to the call
    return out


class Owner:
    """(is the user's object, holds objects of the user)"""

    def __init__(self, par, attrs, news, extra):
        self.par, self.attrs, self.news, self.extra = par, attrs, news, extra

    def own(self, t, d=0):
        if t is None or d > 40 or not isinstance(t, T):
            return FRESH
        go = lambda x: self.own(x, d + 1)
        x = self.extra(t)
        if x is not None:
            return x
        if t.op == 'sym':
            return self.par.get(t.args[0], FRESH)
        if t.op == 'attr' and t.args[0] is SELF:
            return self.attrs.get(t.args[1], FRESH)
        if t.op == 'attr':
            return BOTH if go(t.args[0])[0] or go(t.args[0])[1] and t.args[0].op != 'inst' else FRESH
        if t.op in ('idx', 'elem'):
            return BOTH if go(t.args[0])[1] else FRESH
        if t.op == 'slice':
            return False, go(t.args[0])[1]
        if t.op == 'new':
            return False, t in self.news
        if t.op in ('dict', 'list', 'tuple', 'set'):
            held = False
            for x in t.args:
                if x.op == 'star':
                    held = held or go(x.args[0])[1]
                elif t.op == 'dict' and x.op == 'tuple' and len(x.args) == 2:
                    held = held or any(go(x.args[1]))
                else:
                    held = held or any(go(x))
            return False, held
        if t.op == 'ntup':
            return False, any(any(go(x)) for _, x in t.args[1])
        if t.op in ('ite', 'phi'):
            k = [go(x) for x in (t.args[1:] if t.op == 'ite' else t.args) if isinstance(x, T)]
            return any(x[0] for x in k), any(x[1] for x in k)
        if t.op == 'comp':
            return False, any(go(t.args[1]))
        if t.op == 'call':
            name, recv, args = t.args[:3]
            if name == 'copy.deepcopy' or name == 'deepcopy':
                return FRESH
            if name in SHALLOW:
                x = [go(y) for y in ([recv] if recv is not None and recv.op != 'ext' else []) + list(args)]
                return False, any(y[1] for y in x)
            if name in VIEWS:
                x = [go(y) for y in ([recv] if recv is not None and recv.op != 'ext' else []) + list(args[:1])]
                return any(y[0] for y in x), any(y[1] for y in x)
            if name in GIVE:
                x = [go(y) for y in ([recv] if recv is not None and recv.op != 'ext' else list(args[:1]))]
                return (BOTH if any(y[1] for y in x) else FRESH)
        return FRESH


def writes(g):
    """(event, object written to, objects put there)"""
    for e in g.ev:
        if e is None:
            continue
        if e.kind == 'storeidx':
            yield e, nv(e.recv), [nv(e.value)]
        elif e.kind in ('del', 'aug', 'delattr'):
            yield e, nv(e.recv), []
        elif e.kind == 'store' and rv(e) is not SELF and e.recv is not None:
            yield e, rv(e), [nv(e.value)]
        elif e.kind == 'call':
            if e.name in ON_FIRST and e.args:
                yield e, nv(e.args[0]), [nv(x) for x in e.args[1:]]
            elif e.name in MUTATORS and e.recv is not None:
                yield e, rv(e), [nv(x) for x in e.args]


def extra_for(c):
    def f(t):
        if t.op == 'call' and t.args[0] == 'select_optimizer':
            return BOTH
    return f


def methods(c, k, skip=()):
    out = {}
    for b in c.p.mro(k):
        if hasattr(b, 'methods'):
            for n, f in b.methods.items():
                if n not in skip and n not in out:
                    out[n] = f
    return out


def scan(c, k, names=None, inline='*', skip=(), par=True, **opts):
    graphs = []
    for n, f in sorted(methods(c, k, skip).items()):
        if names is not None and n not in names or f.qual not in VOCAB:
            continue                        # Helpers are followed where they are called
        if any(isinstance(d, ast.Name) and d.id in ('abstractmethod', 'staticmethod', 'classmethod') or isinstance(d, ast.Attribute) for d in f.node.decorator_list):
            continue
        graphs.append((n, f, c.run(f, cls=k, inline=inline, exc='none', augs=True, **opts)))
    attrs = {}
    news = set()
    extra = extra_for(c)
    for _ in range(6):                                 # What the attributes hold, over all methods
        before = dict(attrs), set(news)
        for n, f, g in graphs:
            o = Owner(params(f), attrs, news, extra)
            for e in g.ev:
                if e is not None and e.kind == 'store' and rv(e) is SELF:
                    a, b = attrs.get(e.name, FRESH), o.own(nv(e.value))
                    attrs[e.name] = (a[0] or b[0], a[1] or b[1])
            for e, t, put in writes(g):
                if any(any(o.own(x)) for x in put):
                    if t.op == 'new':
                        news.add(t)
                    if t.op == 'attr' and t.args[0] is SELF:
                        attrs[t.args[1]] = (attrs.get(t.args[1], FRESH)[0], True)
        if before == (attrs, news):
            break
    total = 0
    for n, f, g in graphs:
        o = Owner(params(f), attrs, news, extra)
        for e, t, put in writes(g):
            if e.kind == 'aug' and t.op in ('poly', 'const', 'fstr'):
                continue
            total += 1
            c.ob('objects of the user are not modified', f'{k.name}.{n}', not o.own(t)[0], e.where,
                 f'{e.name or e.kind} changes {show(t)[:120]}, which belongs to the user')
    c.count(f'methods of {k.name}', len(graphs))
    return total


def check(c):
    total = 0
    for base in ('BaseSelector', 'BaseOptimizer', 'BaseGenerator'):
        for k in [c.cls(base)] + c.p.subclasses(c.cls(base)):
            skip = {'checkpoint_save', 'checkpoint_load'} if base == 'BaseOptimizer' else ()
            total += scan(c, k, skip=skip)
    m = c.cls('GloMPOManager')
    total += scan(c, m, names={'setup', '_setup_new_optimizer', '_start_new_job'}, inline=(), entry_cap=8)
    held(c, m)
    c.need('writes traced', total, 20)
    settings(c)
    entries(c)


def held(c, k):
    """What the user gave the manager stays as it is while the manager runs."""
    theirs = {'bounds', 'opt_selector', 'visualisation_args', 'task'}
    for n, f in sorted(methods(c, k).items()):
        if n in ('setup', '__init__'):
            continue
        for x in ast.walk(f.node):
            t = None
            if isinstance(x, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Delete)):
                ts = x.targets if isinstance(x, (ast.Assign, ast.Delete)) else [x.target]
                for y in ts:
                    for z in ast.walk(y):
                        if isinstance(z, (ast.Subscript, ast.Attribute)) and isinstance(z.ctx, (ast.Store, ast.Del)) and base_attr(z.value) in theirs:
                            t = z
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS and base_attr(x.func.value) in theirs:
                t = x.func
            c.ob('objects of the user are not modified', f'GloMPOManager.{n}', t is None, f'{f.file}:{getattr(t, "lineno", f.node.lineno)}',
                 f'{ast.unparse(t)[:80] if t is not None else ""} changes what the user handed to the manager')


def base_attr(e):
    while isinstance(e, (ast.Subscript, ast.Attribute)):
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == 'self':
            return e.attr
        e = e.value


# ------------------------------------------------------------------ the settings of an optimizer
def peel(t, dropped):
    """Copies are removed; returns (source, deep)."""
    deep = False
    while True:
        if t.op == 'dict' and len(t.args) == 1 and t.args[0].op == 'star':
            t = t.args[0].args[0]
        elif t.op == 'call' and t.args[0] in ('copy.copy', 'copy.deepcopy', 'dict', 'copy', 'deepcopy') and not (len(t.args) > 3 and t.args[3]):
            deep = deep or t.args[0].endswith('deepcopy')
            t = t.args[2][0] if t.args[2] else t.args[1]
            if t is None:
                return NONE, deep
        elif t.op == 'comp' and t.args[1] is not None:
            kv = t.args[1]
            src = t.args[2]
            if kv.op == 'phi' and len(kv.args) == 2:
                kv = T('tuple', *kv.args)
            if src.op == 'call' and src.args[0] == 'items':
                src = src.args[1]
            if kv.op != 'tuple' or len(kv.args) != 2:
                return t, deep
            v = kv.args[1]
            if v.op == 'call' and v.args[0].endswith('deepcopy'):
                deep, v = True, v.args[2][0]
            key, cond = kv.args[0], t.args[3]
            same = v.op == 'idx' and v.args[1] is key and contains(key, lambda x: x is src) or \
                v.op == 'idx' and key.op == 'idx' and v.args[0] is key.args[0] and (key.args[1], v.args[1]) == (const(0), const(1))
            if not same:
                return t, deep
            if cond is not TRUE:
                names = {x.args[0] for x in subterms(cond) if x.op == 'const' and isinstance(x.args[0], str)}
                if cond.op in ('not', 'ne') and len(names) == 1:
                    dropped |= names
                else:
                    return t, deep
            t = src
        else:
            return t, deep


def settings(c):
    k = c.cls('GloMPOManager')
    m = '_setup_new_optimizer'
    g = c.graph(k, m, inline=(), exc='none')
    chosen = {nv(e.value) for e in g.ev if e is not None and e.kind == 'call' and e.name == 'select_optimizer'}
    part_of = lambda t, i: t is not None and t.op == 'idx' and t.args[0] in chosen and t.args[1] is const(i)
    made = N(g, lambda e: e.kind == 'call' and e.name == '__call__' and part_of(rv(e), 0))
    c.need('optimizers constructed', len(made))
    ours = {'_opt_id', '_signal_pipe', '_results_queue', '_pause_flag', 'is_log_detailed'}
    threads = mk_not(truth(sattr('proc_backend')))

    def is_deep(n, deep, what, where):
        f = facts_at(g, n)
        c.ob('each thread has its own settings', what, deep or entails(f, truth(sattr('proc_backend'))), where,
             f'with threads the {what} of the selected entry are used without a deep copy')
    emptied = []
    for i, e in enumerate(g.ev):
        if e is None or e.kind not in ('del', 'storeidx', 'call') or e.kind == 'call' and e.name not in MUTATORS or e.recv is None:
            continue
        s, _ = peel(rv(e), set())
        if e.kind == 'del' or e.name == 'pop':
            emptied.append((i, rv(e)))
        if part_of(s, 1) or part_of(s, 2):
            key = nv(e.args[0]) if e.args else NONE
            ok = e.kind == 'del' or e.name == 'pop'
            c.ob('the settings selected are the settings used', 'only the backend is taken out', ok and key is const('backend') and part_of(s, 1), e.where,
                 f'{e.name or e.kind} {show(key)[:60]} changes the settings of the selected entry')
    for n in made:
        e = g.ev[n]
        kw = dict(e.kw)
        star = nv(kw.pop('**', None)) if kw.get('**') is not None else None
        dropped = set()
        s, deep = peel(star, dropped) if star is not None else (None, False)
        c.ob('the settings selected are the settings used', 'constructor', part_of(s, 1) and not dropped - {'backend'}, e.where,
             f'the optimizer is constructed with {show(star or NONE)[:120]}')
        is_deep(n, deep, 'constructor arguments', e.where)
        for name in kw:
            c.ob('the settings selected are the settings used', f'argument {name}', name in ours or name == 'backend', e.where,
                 f'{name} is set for every optimizer, whatever was configured')
        b = nv(kw['backend']) if 'backend' in kw else None
        if b is not None and not b.op == 'const':
            src = b.args[0] if b.op == 'idx' else b.args[1] if b.op == 'call' and b.args[0] in ('get', 'pop') else b
            s, _ = peel(src, set())
            c.ob('the settings selected are the settings used', 'backend', part_of(s, 1), e.where, f'the backend is {show(b)[:80]}')
        elif b is not None:
            f = facts_at(g, n)
            ok = any(entails(f, mk_not(y)) for x in fact_formulas(f) for y in subterms(x) if y.op == 'in' and y.args[0] is const('backend') and
                     y.args[1] not in {t for i, t in emptied if reaches(g, i, n)} and part_of(peel(y.args[1], set())[0], 1))
            c.ob('the settings selected are the settings used', 'configured backend', ok, e.where, 'a configured backend is replaced')
    for kind, n, v, st in g.exits:
        if kind != 'return':
            continue
        t = nv(v)
        if t is NONE:
            continue
        f = dict(t.args[1]) if t.op == 'ntup' else {}
        where = f'{g.func.file}:{g.func.node.lineno}'
        ck = f.get('call_kwargs')
        fs = norm_facts(st.facts)
        if ck is not None and ck.op in ('dict', 'new') and (ck.op == 'new' or not ck.args):
            empty = any(entails(fs, mk_not(x)) for z in fact_formulas(fs) for x in subterms(z) if x.op == 'truth' and part_of(peel(x.args[0], set())[0], 2))
            c.ob('the settings selected are the settings used', 'call arguments', empty, where, 'the configured call arguments are dropped')
            continue
        s, deep = peel(ck, set()) if ck is not None else (None, False)
        c.ob('the settings selected are the settings used', 'call arguments', part_of(s, 2), where, f'the call arguments are {show(ck or NONE)[:100]}')
        c.ob('each thread has its own settings', 'call arguments', deep or entails(fs, truth(sattr('proc_backend'))), where,
             'with threads the call arguments of the selected entry are used without a deep copy')
    g = c.graph(k, '_start_new_job', inline=(), exc='none')
    arg = T('sym', 'call_kwargs')
    started = N(g, lambda e: e.kind == 'call' and (e.name.endswith('Process') or e.name.endswith('CustomThread')) or
                e.kind == 'call' and keyword(e, 'target') is not None)
    c.need('processes and threads made', len(started))
    for n in started:
        e = g.ev[n]
        t = keyword(e, 'kwargs')
        s = peel(t, set())[0] if t is not None else None
        c.ob('the settings selected are the settings used', 'call of minimize', s is arg, e.where, f'minimize is called with {show(t or NONE)[:100]}')


def reaches(g, a, b):
    seen, todo = set(), [a]
    while todo:
        x = todo.pop()
        if x == b:
            return True
        if x not in seen:
            seen.add(x)
            todo += g.succ[x]
    return False


def keyword(e, name):
    kw = dict(e.kw)
    if name in kw:
        return nv(kw[name])
    t = nv(kw['**']) if kw.get('**') is not None else None
    for x in (t.args if t is not None and t.op == 'dict' else ()):
        if x.op == 'tuple' and x.args[0] is const(name):
            return x.args[1]


def entries(c):
    """Entries of the list of optimizers: what the user gave, completed."""
    k = c.cls('BaseSelector')
    g = c.graph(k, '__init__', inline='*', exc='none')
    where = f'{g.func.file}:{g.func.node.lineno}'
    lists = {nv(e.value) for e in g.ev if e is not None and e.kind == 'store' and e.name == 'avail_opts'}
    adds = N(g, lambda e: e.kind == 'call' and e.name in ('append', 'insert') and (rv(e) in lists or is_self_attr(rv(e), 'avail_opts')))
    c.need('entries recorded', len(adds))
    one = lambda t: t.op == 'elem' and t.args[0].op == 'sym'
    for n in adds:
        e = g.ev[n]
        t = nv(e.args[-1])
        f = facts_at(g, n)
        ok = t.op == 'tuple' and len(t.args) == 3
        c.ob('entries are completed, not changed', 'entry', ok, e.where, f'an entry is {show(t)[:100]}')
        if not ok:
            continue
        a, b, d = t.args
        single = one(a)
        c.ob('entries are completed, not changed', 'type', single or a.op == 'idx' and one(a.args[0]) and a.args[1] is const(0), e.where, f'the type is {show(a)[:80]}')
        item = a if single else a.args[0] if a.op == 'idx' else NONE
        work = T('tuple', const('workers'), const(1))

        def base_of(x, i):
            """The user's part i of the item, or an empty one if nothing was given."""
            while x.op == 'call' and x.args[0] in ('dict', 'copy.copy', 'copy', 'copy.deepcopy'):
                x = x.args[2][0] if x.args[2] else x.args[1] or T('dict')
            given = T('idx', item, const(i))
            if x.op == 'ite':
                return base_of(x.args[1], i) and base_of(x.args[2], i)
            if x is given or x.op == 'dict' and x.args == (T('star', given),):
                return not single
            if x.op == 'new' or x.op == 'dict' and not x.args:
                return single or entails(f, T('is', given, NONE)) or entails(f, mk_not(truth(given)))
            return False
        ok = base_of(d, 2)
        c.ob('entries are completed, not changed', 'call arguments', ok, e.where, f'the call arguments recorded are {show(d)[:80]}')
        if b.op == 'dict' and work in b.args:
            rest = [x for x in b.args if x is not work]
            had = [x for x in rest if x.op == 'star']
            ok = len(rest) == len(had) <= 1 and (not rest and (single or base_of(T('dict'), 1)) or bool(rest) and base_of(rest[0].args[0], 1))
            if ok and rest:
                src = rest[0].args[0]
                ok = b.args[0] is work or any(entails(f, mk_not(y)) for z in fact_formulas(f) for y in subterms(z) if y.op == 'in' and y.args[0] is const('workers')) \
                    or src.op == 'new'
        else:
            ok = base_of(b, 1)
        c.ob('entries are completed, not changed', 'constructor arguments', ok, e.where, f'the constructor arguments recorded are {show(b)[:100]}')
    c.ob('entries are completed, not changed', 'list', bool(lists), where, 'no list of optimizers is made')
