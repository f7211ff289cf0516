"""The filling of slots is executed symbolically: along every path the value of each local variable is expressed in the slots occupied by
living optimizers, and every request for an optimizer must offer at most the maximum less the slots occupied at that moment, including
those of the optimizers started before in the same call. Selectors may return an entry only under facts which entail that it fits. The
number of slots an optimizer is accounted with is followed as a term from the entry of the selector to the package of its process; when a
checkpoint is resumed it is the number the optimizer is restarted with, and the facts of the path must entail that all of them fit, or that
each is an equal, non zero share. Packages are only made there, removed only when dead, and restarted processes run before slots are filled."""
from sa.core import *
from sa.mgr import *
from rules.c28 import peel
from sa.engine import VOCAB, assume
from sa.terms import div, rebuild, to_poly

TECHNIQUE = 'symbolic linear accounting on all paths; term provenance of worker counts; guard entailment; effect scan'
ASSUMPTIONS = ['user selectors keep the documented contract', 'an optimizer started is alive until it ends (process creation is not delayed)']
M, OCC, SLOTS = sattr('max_jobs'), T('sym', 'occupied'), T('sym', 'slots')


def source(t, sels):
    dropped = set()
    t, _ = peel(nv(t), dropped)
    return any(t is T('idx', s, const(1)) for s in sels) and 'workers' not in dropped


def check(c):
    k = c.cls('GloMPOManager')
    slots = {'_setup_new_optimizer': setup(c, k), '_start_new_job': start(c, k)}
    accounting(c, k, slots)
    base = c.cls('BaseSelector')
    selectors(c, base)
    entries(c, base)
    resume(c, k)
    order(c, k)
    elsewhere(c, k)


# ------------------------------------------------------------------ the slots of one optimizer
def plain(t):
    """Copies of a dictionary stand for the dictionary."""
    def f(x):
        if x.op == 'call' and x.args[0] in ('copy.deepcopy', 'copy.copy', 'dict') and len(x.args[2]) == 1:
            return x.args[2][0]
        if x.op == 'call' and x.args[0] == 'copy' and x.args[1] is not None:
            return x.args[1]
        if x.op == 'dict' and len(x.args) == 1 and x.args[0].op == 'star':
            return x.args[0].args[0]
        if x.op == 'call' and x.args[0] == 'get' and x.args[1] is not None and x.args[2][:1] == (const('workers'),):
            return T('idx', x.args[1], const('workers'))
        return x
    return rebuild(t, f)


def workers_of(sel):
    return T('idx', T('idx', sel, const(1)), const('workers'))


def field(t, name):
    """Value of a field of a (named) tuple."""
    if t is not None and t.op == 'ntup':
        return dict(t.args[1]).get(name)
    return None


def setup(c, k):
    """A new optimizer: term of the slots in what is returned, given the answer of the selector."""
    m = '_setup_new_optimizer'
    if m not in k.methods:
        return None
    g = c.run(c.meth(k, m), cls=k, inline=(), exc='none')
    where = f'{g.func.file}:{g.func.node.lineno}'
    asks = calls(g, 'select_optimizer')
    offer = None
    params = [a.arg for a in g.func.node.args.args][1:]
    for n in asks:
        e = g.ev[n]
        a = av(e, 2, 'slots_available')
        ok = a is not None and a.op == 'sym' and a.args[0] in params
        offer = a if ok else offer
        c.ob('the free slots are offered', m, ok, e.where, f'the selector is offered {show(a or NONE)[:100]}')
        ok = av(e, 0) is SELF
        c.ob('the free slots are offered', f'{m}: asked', ok, e.where, 'the selector is not asked about this manager')
    sels = {nv(g.ev[n].value) for n in asks}
    made = {}

    def right(t):
        t = plain(norm_term(t)) if t is not None else None
        return t is not None and any(t is workers_of(s) for s in sels)
    for n in N(g, lambda e: e.kind == 'call' and e.name == '__call__' and any(rv(e) is T('idx', s, const(0)) for s in sels)):
        e = g.ev[n]
        kw = dict(e.kw)
        w = kw.get('workers')
        star = kw.get('**')
        ok = right(w) if w is not None else star is not None and (any(plain(norm_term(star)) is T('idx', s, const(1)) for s in sels) or source(star, sels))
        c.ob('an optimizer uses the workers it was configured with', m, ok, e.where, f'it is made with {show(norm_term(w if w is not None else star or NONE))[:120]}')
        made[n] = e
    c.count('optimizers made', len(made))
    for n in N(g, lambda e: e.kind == 'storeidx' and rv(e) is sattr('_opt_checkpoints')):
        v = field(g.ev[n].value, 'slots')
        c.ob('slots are remembered for checkpoints', m, right(v), g.ev[n].where, f'{show(norm_term(v or NONE))[:120]} slots are remembered')
    for kind, n, v, s in g.exits:
        if kind != 'return' or nv(v) is NONE:
            continue
        w = field(v, 'slots')
        c.ob('slots are the configured workers', m, right(w), where, f'an optimizer is accounted with {show(norm_term(w if w is not None else v))[:160]} slots')
    return offer


def start(c, k):
    """Term (over its parameters) of the slots a started optimizer is recorded with."""
    m = '_start_new_job'
    if m not in k.methods:
        return None
    g = c.run(c.meth(k, m), cls=k, inline=(), exc='none')
    puts = N(g, lambda e: e.kind == 'storeidx' and rv(e) is PACKS)
    terms = {nv(field(g.ev[n].value, 'slots')) for n in puts if field(g.ev[n].value, 'slots') is not None}
    c.ob('started optimizers are recorded', m, len(terms) == 1 and all(field(g.ev[n].value, 'slots') is not None for n in puts), g.func.file,
         f'an optimizer is recorded with slots {[show(t)[:80] for t in terms]}')
    pre = not_preceded(g, puts, exit_nodes(g, ('return',)))
    c.ob('started optimizers are recorded', f'{m}: always', not pre, g.func.file, 'an optimizer may be started without being recorded', describe_path(g, pre[0][1]) if pre else None)
    return list(terms)[0] if len(terms) == 1 else None


# ------------------------------------------------------------------ the filling of slots
def total(t):
    """Is this the sum of the slots of (at least) all living optimizers."""
    if t.op != 'call' or t.args[0] not in ('sum', 'numpy.sum') or not t.args[2]:
        return False
    if len(t.args[2]) > 1 and t.args[2][1] is not const(0):
        return False
    x = t.args[2][0]
    while x.op == 'call' and x.args[0] in ('list', 'tuple') and x.args[1] is None and len(x.args[2]) == 1:
        x = x.args[2][0]
    if x.op != 'comp' or x.args[0] == 'set' or not everyone(x.args[2]):
        return False
    o = {y for y in subterms(x.args[1]) if y.op == 'idx' and y.args[0] is PACKS}
    if len(o) != 1:
        return False
    pack = list(o)[0]
    if x.args[1] is not T('attr', pack, 'slots'):
        return False
    alive = truth(T('call', 'is_alive', T('attr', pack, 'process'), (), (), None))
    return entails({alive: True}, x.args[3]) if x.args[3] is not TRUE else True


def accounting(c, k, slots):
    m = '_fill_optimizer_slots'
    g = c.run(c.meth(k, m), cls=k, inline=(), exc='none', locals_ev=True, keep=lambda f: contains(f, lambda x: x.op == 'call' and x.args[0] == 'is_alive'))
    defs = {n: k.methods[n].node for n in ('_setup_new_optimizer', '_start_new_job') if n in k.methods}

    def canon(t):
        """Slots of the optimizer which has just been set up are one symbol."""
        def f(x):
            if x.op == 'attr' and x.args[1] == 'slots' and made(x.args[0]):
                return SLOTS
            if x.op == 'idx' and x.args[1] in (const(5), const(-1)) and made(x.args[0]):
                return SLOTS
            if x.op == 'idx' and x.args[1] is const('workers') and x.args[0].op == 'idx' and x.args[0].args[1] is const(1) and \
                    x.args[0].args[0].op == 'call' and x.args[0].args[0].args[0] == 'select_optimizer':
                return SLOTS
            if total(x):
                return T('sym', 'total')
            return x
        return rebuild(plain(norm_term(t)), f)

    def made(x):
        return x.op == 'call' and x.args[0] == '_setup_new_optimizer'

    def bound(e, name):
        """Arguments of a call of an analysed method by parameter."""
        ps = [a.arg for a in defs[name].args.args][1:]
        out = {p: e.args[i] for i, p in enumerate(ps) if i < len(e.args)}
        out.update({p: v for p, v in e.kw if p in ps})
        return out

    def value(t, env, tot):
        """Value of a term in the current slots occupied; None if it is not known."""
        e = dict(env)

        def f(x):
            if x.op == 'hv' and len(x.args) == 2 and isinstance(x.args[1], str):
                return e.get(x.args[1], x) or x
            if x.op == 'sym' and x.args[0] == 'total':
                return tot
            return x
        return rebuild(canon(t), f)

    def grows(e):
        """Does a local variable grow (shrink) by the slots of the optimizer at hand."""
        x = canon(e.value)
        if x.op != 'poly':
            return None
        hv = [y for y in subterms(x) if y.op == 'hv' and y.args[1] == e.name]
        el = [y for y in subterms(x) if y.op == 'attr' and y.args[1] == 'slots' and part(y, 'slots') is not None]
        if len(hv) != 1 or len(el) != 1:
            return None
        return e.name if sub(x, add(hv[0], el[0])) is const(0) else '-' + e.name if sub(x, sub(hv[0], el[0])) is const(0) else None
    growing = set()
    for n in N(g, None, 'local'):
        if grows(g.ev[n]):
            growing |= {(y.args[0], grows(g.ev[n])) for y in subterms(canon(g.ev[n].value)) if y.op == 'hv' and y.args[1] == g.ev[n].name}

    now = T('sym', 'before')

    def step(q, n, e):
        """(values of local variables, value of the last evaluated total, accumulators of the current loop over all optimizers)"""
        env, tot, acc = q
        if e.kind == 'local':
            v = value(e.value, env, tot)
            d = dict(env)
            x = grows(e)
            if acc is not None and x is not None:
                return (env, tot, (acc[0], acc[1], acc[2] | {x}))
            if not simple(v):
                d.pop(e.name, None)
            else:
                d[e.name] = v
            return (tuple(sorted(d.items(), key=lambda z: z[0])), tot, acc)
        if e.kind == 'iter' and e.target is not None and everyone(nv(e.target)):
            return (env, tot, (e.site, acc[1] if acc and acc[0] == e.site else None, frozenset()))
        if e.kind == 'iterend' and e.target is not None and everyone(nv(e.target)) and acc is not None:
            f = facts_at(g, n)
            dead = any(entails(f, mk_not(truth(y))) for z in fact_formulas(f) for y in subterms(z) if y.op == 'call' and y.args[0] == 'is_alive')
            if not dead:
                return (env, tot, (acc[0], (acc[1] & acc[2]) if acc[1] is not None else acc[2], frozenset()))
            return q
        if e.kind in ('loopexit', 'break') and e.target is not None and everyone(nv(e.target)):
            d = dict(env)
            none = acc is None or acc[1] is None        # no optimizer lives: nothing is occupied
            for x in () if e.kind == 'break' else [x for o, x in growing if o == e.site] if none else acc[1]:
                s = x.lstrip('-')
                if s in d:
                    d[s] = add(d[s], OCC) if x == s else sub(d[s], OCC)
            return (tuple(sorted(d.items(), key=lambda z: z[0])), OCC if e.kind == 'loopexit' else tot, None)
        if e.kind == 'call' and e.name in ('_setup_new_optimizer', 'select_optimizer'):
            a = bound(e, '_setup_new_optimizer').get(slots['_setup_new_optimizer'].args[0]) if e.name[0] == '_' and slots['_setup_new_optimizer'] is not None else \
                av(e, 2, 'slots_available') if e.name[0] != '_' else av(e, 0)
            if a is None:
                return '!', 'the free slots are not offered'
            v = value(a, env, tot)
            d = sub(v, sub(M, OCC))
            if nonpos(d):
                return q
            return '!', f'the slots offered are {show(sub(v, sub(M, OCC)))[:80]} more than those which are free' if not any(y.op == 'hv' for y in subterms(v)) else \
                f'the slots offered are {show(v)[:80]}, which need not be free'
        w = None
        if e.kind == 'call' and e.name == '_start_new_job':
            st = slots['_start_new_job']
            if st is not None:
                b = bound(e, '_start_new_job')
                w = canon(rebuild(st, lambda x: b.get(x.args[0], x) if x.op == 'sym' else x))
            else:
                w = NONE
        elif e.kind == 'storeidx' and rv(e) is PACKS and field(e.value, 'slots') is not None:
            w = canon(field(e.value, 'slots'))
        if w is not None:
            if w is not SLOTS:
                return '!', f'an optimizer is started with {show(w)[:80]} slots'
            def sh(t):
                t = rebuild(t, lambda x: now if x is OCC else x) if t is not None else None
                t = rebuild(t, lambda x: sub(OCC, SLOTS) if x is now else x) if t is not None else None
                return t if t is not None and simple(t) else None
            return (tuple((a, sh(b)) for a, b in env if sh(b) is not None), sh(tot), acc)
        return q
    c.need('requests for optimizers', len(N(g, lambda e: e.name in ('_setup_new_optimizer', 'select_optimizer'), 'call')))
    run_automaton(c, 'no more slots are offered than are free', m, g, ((), None, None), step, keep=lambda e: e.kind == 'local' or e.name.startswith('_') and e.kind == 'call')


def size(t):
    return sum(1 for _ in subterms(t))


def simple(t):
    """Linear in the limit and the slots occupied, with small coefficients."""
    if is_const(t):
        return isinstance(t.args[0], (int, float)) and abs(t.args[0]) <= 4
    if t.op == 'call' and t.args[0] in ('min', 'max') and t.args[1] is None:
        return 0 < len(t.args[2]) < 4 and all(simple(x) for x in t.args[2])
    if t in (M, OCC, SLOTS):
        return True
    return t.op == 'poly' and all((k == () or len(k) == 1 and k[0][0] in (M, OCC, SLOTS) and k[0][1] == 1) and abs(v) <= 2 for k, v in to_poly(t).items())


def nonpos(d):
    """Is a difference at most zero (slots are positive, the slots occupied are not negative)."""
    if is_const(d):
        return d.args[0] <= 0
    if d.op == 'poly':
        return all((len(m) == 1 and m[0][0] in (SLOTS,) and m[0][1] == 1 and v <= 0) or (m == () and v <= 0) for m, v in to_poly(d).items())
    if d.op == 'call' and d.args[0] == 'min' and d.args[1] is None:
        return any(nonpos(x) for x in d.args[2])
    return False


# ------------------------------------------------------------------ selectors
def fits(t, s):
    return rel(workers_of(t), s, '<=')


def selectors(c, base):
    for k in c.p.subclasses(base):
        f = k.methods.get('select_optimizer')
        if f is None:
            continue
        g = c.graph(k, 'select_optimizer', inline='*', keep_old=True)
        where = f'{g.func.file}:{g.func.node.lineno}'
        a = [x.arg for x in g.func.node.args.args]
        s = T('sym', a[3] if len(a) > 3 else 'slots_available')
        n_ret = 0
        for kind, n, v, st in g.exits:
            if kind != 'return':
                continue
            for t, cond in cases(v):
                if t in (NONE, FALSE):
                    continue
                n_ret += 1
                fs = dict(st.facts)
                x = entry(t)
                ok = fit_known(g, x, s, fs, cond)
                c.ob('a selected optimizer fits', k.name, ok, where, f'{show(norm_term(x))[:120]} is returned, which may need more than the slots available')
        c.need(f'{k.name}: selections', n_ret)


def cases(t, cond=()):
    if t.op == 'ite':
        return cases(t.args[1], cond + (t.args[0],)) + cases(t.args[2], cond + (mk_not(t.args[0]),))
    return [(t, cond)]


def entry(t):
    """(x[0], x[1], x[2]) is x."""
    if t.op == 'tuple' and len(t.args) == 3 and t.args[0].op == 'idx' and all(x is T('idx', t.args[0].args[0], const(i)) for i, x in enumerate(t.args)):
        return t.args[0].args[0]
    return t


def fit_known(g, t, s, facts, cond):
    for raw in (False, True):
        nf = {norm_term(a): b for a, b in facts.items()} if not raw else facts
        x = norm_term(t) if not raw else t
        q = fits(x, s)
        f = dict(nf)
        for y in cond:
            f[norm_term(y) if not raw else y] = True
        if entails(ordered(f, q), q):
            return True
    # chosen from a collection of which every element fits
    src = None
    if t.op == 'call' and t.args[0] in ('random.choice', 'choice') and len(t.args[2]) == 1:
        src = t.args[2][0]
    elif t.op == 'idx' and (t.args[0].op in ('new', 'comp', 'list')):
        src = t.args[0]
    elif t.op == 'call' and t.args[0] in ('next', 'max', 'min') and t.args[2]:
        src = t.args[2][0]
    while src is not None and src.op == 'call' and src.args[0] in ('list', 'tuple', 'iter', 'sorted') and len(src.args[2]) == 1:
        src = src.args[2][0]
    if src is None:
        return False
    src_n = norm_term(src)
    if src_n.op == 'comp':
        el, q = src_n.args[1], None
        q = fits(entry(el), s)
        return all(entails(ordered(f, q), q) for f in assume(src_n.args[3], True, {}))
    apps = N(g, lambda e: e.kind == 'call' and rv(e) is src_n and e.name in ('append', 'add', 'extend', 'insert', 'update'))
    if not apps:
        return False
    for n in apps:
        e = g.ev[n]
        if e.name not in ('append', 'add'):
            return False
        q = fits(norm_term(entry(e.args[0])), s)
        if not entails(ordered(facts_at(g, n), q), q):
            return False
    return True


def entries(c, base):
    """Every entry has a number of workers."""
    g = c.run(c.meth(base, '__init__'), cls=base, inline=(), exc='none')
    av_ = sattr('avail_opts')
    vals = {nv(g.ev[n].value) for n in stores(g, 'avail_opts')} | {av_}
    apps = N(g, lambda e: e.kind == 'call' and e.name == 'append' and rv(e) in vals)
    c.need('entries of selectors', len(apps))
    for n in apps:
        e = g.ev[n]
        t = norm_term(e.args[0])
        d = t.args[1] if t.op == 'tuple' and len(t.args) == 3 else None
        ok = False
        if d is not None:
            one = lambda x: x.op == 'tuple' and x.args[0] is const('workers')
            if d.op == 'dict' and any(one(x) for x in d.args):
                ok = all(x.args[1] is const(1) for x in d.args if one(x))
                ks = [i for i, x in enumerate(d.args) if one(x)]
                over = [x for x in d.args if x.op == 'star']
                # a default must not replace a number given by the user
                if ok and over and d.args.index(over[-1]) < ks[-1]:
                    f = facts_at(g, n)
                    ok = all(entails(f, mk_not(T('in', const('workers'), x.args[0]))) for x in over)
            else:
                ok = entails(facts_at(g, n), T('in', const('workers'), d))
        c.ob('every entry has its number of workers', 'BaseSelector', ok, e.where, f'an entry is {show(t)[:160]}')


# ------------------------------------------------------------------ resuming
def resume(c, k):
    m = 'load_checkpoint'
    g = c.run(c.meth(k, m), cls=k, inline=(), exc='none', entry_cap=4, cap=16,
              keep=lambda f: contains(f, lambda x: x.op == 'attr' and x.args[1] in ('max_jobs', 'slots')))
    packs = {nv(g.ev[n].value) for n in stores(g, '_optimizer_packs')} | {PACKS}
    puts = N(g, lambda e: e.kind == 'storeidx' and e.value is not None and e.value.op == 'ntup' and rv(e) in packs)
    c.need('optimizers restarted', len(puts))
    colls = {}
    for n in puts:
        w = field(nv(g.ev[n].value), 'slots')
        d = w.args[0] if w is not None and w.op == 'idx' else None
        ok = d is not None and w.args[1].op == 'elem' and base_of(w.args[1].args[0]) is base_of(d)
        c.ob('restarted with the slots planned', m, ok, g.ev[n].where, f'an optimizer is restarted with {show(w or NONE)[:160]} slots')
        if ok:
            colls[n] = (d, w)
    ds = {d for d, w in colls.values()}

    def known(n, d, e=None):
        """Do the facts say that all planned slots fit."""
        f = facts_at(g, n)
        for z in fact_formulas(f):
            for y in subterms(z):
                if y.op == 'call' and y.args[0] in ('sum', 'numpy.sum') and y.args[2] and plan(y.args[2][0], d):
                    q = rel(y, M, '<=')
                    if entails(ordered(f, q), q):
                        return True
        v = value_of(d)
        if v is not None and share(v, d):
            q = rel(v, const(1), '>=')
            if entails(ordered(f, q), q):
                return True
        return False
    rel_nodes = {}

    def fitting(n):
        if n not in rel_nodes:
            rel_nodes[n] = frozenset(d for d in ds if g.st[n] is not None and g.st[n].facts and known(n, d))
        return rel_nodes[n]

    def step(q, n, e):
        q = q | fitting(n)
        if n in colls and colls[n][0] not in q:
            return '!', 'the optimizers of a checkpoint may be restarted with more slots than allowed'
        return q
    run_automaton(c, 'restarted optimizers fit', m, g, frozenset(), step, keep=lambda e: e.kind == 'known' or e.name == 'checkpoint_load')
    # the optimizer itself uses this number
    sets = N(g, lambda e: e.kind == 'store' and e.name == 'workers')
    made = N(g, lambda e: e.kind == 'call' and e.name == 'checkpoint_load' and ('workers' in dict(e.kw) or '_opt_id' in dict(e.kw)))
    for n in sets:
        v = nv(g.ev[n].value)
        c.ob('restarted with the slots planned', f'{m}: workers', any(v is w for d, w in colls.values()), g.ev[n].where, f'the optimizer is told to use {show(v)[:120]} workers')

    def told(q, n, e):
        if n in made:
            return False
        if n in sets:
            return True
        if n in colls and not q:
            return '!', 'a restarted optimizer keeps the number of workers of the checkpoint'
        return q
    run_automaton(c, 'restarted with the slots planned', f'{m}: told', g, False, told, keep=lambda e: e.name in ('workers', 'checkpoint_load'))


def base_of(t):
    while t.op == 'call' and t.args[0] in ('items', 'keys', 'values', 'list', 'tuple', 'sorted', 'copy'):
        t = t.args[1] if t.args[1] is not None else t.args[2][0]
    return t


def plan(t, d):
    """Is this the collection of the slots planned."""
    while t.op == 'call' and t.args[0] in ('list', 'tuple', 'values') and (t.args[1] is not None or len(t.args[2]) == 1):
        t = t.args[1] if t.args[1] is not None else t.args[2][0]
    if t is d:
        return True
    if t.op == 'comp' and t.args[0] != 'set' and d.op == 'comp' and t.args[2] is d.args[2] and t.args[3] is d.args[3]:
        v = value_of(d)
        return t.args[1] is v or t.args[0] == 'dict' and value_of(t) is v
    if t.op == 'comp' and t.args[0] != 'set' and base_of(t.args[2]) is d and t.args[3] is TRUE:
        return t.args[1] is T('idx', d, T('elem', t.args[2], 0)) or t.args[1] is T('idx', d, T('elem', d, 0))
    return False


def value_of(d):
    return d.args[1].args[1] if d.op == 'comp' and d.args[0] == 'dict' and d.args[1].op == 'tuple' and len(d.args[1].args) == 2 else None


def share(v, d):
    """max_jobs divided by the number of optimizers, rounded down."""
    if v.op == 'call' and v.args[0] in ('int', 'math.floor', 'floor', 'numpy.floor') and len(v.args[2]) == 1:
        x = v.args[2][0]
        ls = [y for y in subterms(x) if y.op == 'call' and y.args[0] == 'len' and len(y.args[2]) == 1]
        return any(size_of(y, d) and x is div(M, y) for y in ls)
    return v.op == 'bin' and v.args[0] == 'FloorDiv' and v.args[1] is M and v.args[2].op == 'call' and v.args[2].args[0] == 'len' and \
        len(v.args[2].args[2]) == 1 and size_of(v.args[2], d)


def size_of(y, d):
    x = base_of(y.args[2][0])
    return x is d or x.op == 'comp' and x.args[0] in ('dict', 'list') and d.op == 'comp' and x.args[2] is d.args[2] and x.args[3] is d.args[3] or d.op == 'comp' and base_of(d.args[2]) is x


# ------------------------------------------------------------------ the rest of the manager
def order(c, k):
    m = 'start_manager'
    flag = truth(sattr('_is_restart'))
    g = c.run(c.meth(k, m), cls=k, inline=(), exc='none', entry_cap=4, cap=16, keep=lambda f: contains(f, lambda x: x is sattr('_is_restart')))
    starts = N(g, lambda e: e.kind == 'call' and e.name == 'start' and rv(e) is not None and part(rv(e), 'process') is not None)
    sites = enclosing(g, starts)

    def step(q, n, e):
        if q is False and g.st[n] is not None and entails(facts_at(g, n), mk_not(flag)):
            return True
        if e.kind == 'loopexit' and e.site in sites and e.target is not None:
            return True
        if e.kind == 'call' and e.name == '_fill_optimizer_slots' and not q:
            return '!', 'slots are filled before the optimizers of the checkpoint run'
        return q
    if starts:
        run_automaton(c, 'restarted optimizers occupy their slots first', m, g, False, step, keep=lambda e: e.name in ('start', '_fill_optimizer_slots'))
    else:
        c.ob('restarted optimizers occupy their slots first', m, False, g.func.file, 'optimizers of a checkpoint are not started')
    g2 = c.run(c.meth(k, m), cls=k, inline=(), exc='none', entry_cap=4, cap=16, hold=('is_alive',),
               keep=lambda f: contains(f, lambda x: x.op == 'call' and x.args[0] == 'is_alive'))
    for n in N(g2, lambda e: (e.kind == 'del' or e.kind == 'call' and e.name in ('pop', 'popitem', 'clear')) and rv(e) is PACKS):
        e = g2.ev[n]
        x = av(e, 0)
        f = facts_at(g2, n)
        ok = x is not None and e.name not in ('clear', 'popitem') and \
            entails(f, mk_not(truth(T('call', 'is_alive', T('attr', T('idx', PACKS, x), 'process'), (), (), None))))
        c.ob('only dead optimizers are forgotten', m, ok, e.where, 'an optimizer which may be alive is forgotten: its slots would be used again')


MAKERS = {'_start_new_job', 'load_checkpoint'}


def elsewhere(c, k):
    """Nothing else starts or forgets optimizers or changes the limit."""
    n_ = 0
    for name, f in sorted(k.methods.items()):
        if f.qual not in VOCAB or name in ('start_manager',):
            continue
        stored = {'max_jobs', '_optimizer_packs'}
        for x in ast.walk(f.node):
            n_ += 1
            tgt = x.targets if isinstance(x, (ast.Assign, ast.Delete)) else [x.target] if isinstance(x, (ast.AugAssign, ast.AnnAssign)) else []
            for t in tgt:
                for y in ast.walk(t):
                    if isinstance(y, ast.Attribute) and isinstance(y.value, ast.Name) and y.value.id == 'self' and y.attr in stored:
                        if y.attr == 'max_jobs' and isinstance(y.ctx, ast.Store) and name not in ('__init__', 'setup', 'load_checkpoint'):
                            c.ob('the limit is fixed', name, False, f'{f.file}:{x.lineno}', f'{name} changes the maximum number of jobs')
                        if y.attr == '_optimizer_packs' and name not in ('__init__', 'setup', 'load_checkpoint', '_start_new_job'):
                            c.ob('only dead optimizers are forgotten', name, False, f'{f.file}:{x.lineno}', f'{name} changes the optimizers which are managed')
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('pop', 'popitem', 'clear', 'update', 'setdefault') and \
                    isinstance(x.func.value, ast.Attribute) and x.func.value.attr == '_optimizer_packs':
                c.ob('only dead optimizers are forgotten', name, False, f'{f.file}:{x.lineno}', f'{name} changes the optimizers which are managed')
            if isinstance(x, ast.Name) and x.id == 'ProcessPackage' and name not in MAKERS and isinstance(x.ctx, ast.Load) and not annotation(f.node, x):
                c.ob('optimizers are started in known places', name, False, f'{f.file}:{x.lineno}', f'{name} makes processes of optimizers')
    c.ob('nothing else changes what occupies slots', 'GloMPOManager', n_ > 0, k.file if hasattr(k, 'file') else '', '')


def annotation(fn, x):
    for y in ast.walk(fn):
        if isinstance(y, ast.AnnAssign) and any(z is x for z in ast.walk(y.annotation)):
            return True
    return False

