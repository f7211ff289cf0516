"""Vocabulary of the manager shared by its rules: optimizers, their pipes and processes, closing and killing them."""
from .core import *

PACKS, GRAVE, VICTIMS, LOG = sattr('_optimizer_packs'), sattr('_graveyard'), sattr('hunt_victims'), sattr('opt_log')
SELF = T('sym', 'self')
METHODS = ('_start_hunt', '_is_manual_shutdowns', '_check_signals', '_inspect_children', '_checkpoint_optimizers', '_stop_all_children',
           '_process_results', '_fill_optimizer_slots', 'checkpoint', 'start_manager')


def opts(t):
    """Identities of the optimizers whose package a term goes through."""
    return {x.args[1] for x in subterms(t) if x.op == 'idx' and x.args[0] is PACKS} if t is not None else set()


def part(t, name):
    """Identity X if the term is self._optimizer_packs[X].name, else None."""
    if t is not None and t.op == 'attr' and t.args[1] == name:
        b = t.args[0]
        if b.op == 'idx' and b.args[0] is PACKS:
            return b.args[1]
        return b
    return None


def is_send(e):
    return e.kind == 'call' and e.name == 'send' and part(rv(e), 'signal_pipe') is not None


def signal(e):
    """Key of the signal sent (None when it is not a constant)."""
    m = av(e, 0)
    if m is not None and m.op == 'tuple' and m.args:
        m = m.args[0]
    return m.args[0] if m is not None and m.op == 'const' else None


def signals(e):
    """All possible keys of the sent signal; contains None for an unknown one."""
    out = set()

    def go(m):
        if m is None:
            out.add(None)
        elif m.op == 'ite':
            go(m.args[1])
            go(m.args[2])
        elif m.op == 'tuple' and m.args:
            go(m.args[0])
        elif m.op == 'const':
            out.add(m.args[0])
        else:
            out.add(None)
    go(av(e, 0))
    return out


def is_force(e):
    """Forced end of a process: terminate / kill of an optimizer process."""
    return e.kind == 'call' and e.name in ('terminate', 'kill') and rv(e) is not None and (part(rv(e), 'process') is not None or opts(rv(e)))


def force_of(e):
    r = rv(e)
    p = part(r, 'process')
    if p is not None:
        return p
    o = opts(r)
    return list(o)[0] if len(o) == 1 else None


def is_bury(e):
    return e.kind == 'call' and e.name in ('add', 'update') and rv(e) is GRAVE


def bury_of(e):
    a = av(e, 0)
    if e.name == 'update' and a is not None and a.op in ('set', 'list', 'tuple') and len(a.args) == 1:
        return a.args[0]
    return a


def is_victim(e):
    return e.kind == 'storeidx' and rv(e) is VICTIMS


def is_meta(e, key=None):
    return e.kind == 'call' and e.name == 'put_metadata' and (key is None or meta(e)[1] == key)


def meta(e):
    """(optimizer, key, value) of a put_metadata call."""
    a = [av(e, i, n) for i, n in enumerate(('opt_id', 'key', 'value'))]
    k = a[1].args[0] if a[1] is not None and a[1].op == 'const' else None
    return a[0], k, a[2]


def buried(x):
    return T('in', x, GRAVE)


def alive_terms(fs, x):
    return [f for f in fact_formulas(fs) if any(y.op == 'call' and y.args[0] == 'is_alive' and (part(y.args[1], 'process') is x) for y in subterms(f))]


def alive(x):
    return truth(T('call', 'is_alive', T('attr', T('idx', PACKS, x), 'process'), (), (), None))


def facts_m(g, n):
    """Facts at a node with d.get(k) read as d[k]; d.get(k) being None or not says whether k is in d."""
    f = facts_at(g, n)
    if not any(contains(k[1] if isinstance(k, tuple) else k, lambda x: x.op == 'call' and x.args[0] == 'get') for k in f):
        return f
    out = map_facts(f, unget)
    for k, v in f.items():
        if isinstance(k, tuple):
            continue
        w = None
        y = k.args[0] if k.op in ('is', 'truth') else None
        if y is not None and y.op == 'call' and y.args[0] == 'get' and y.args[1] is not None and len(y.args[2]) == 1:
            if k.op == 'is' and k.args[1] is NONE:
                w = not v
            elif k.op == 'truth' and v:
                w = True
            z = T('in', y.args[2][0], y.args[1])
            if w is not None:
                if f.get(z, w) != w:
                    return None         # cannot happen
                out[z] = w
    return out


def vocab():
    v = json.load(open(VERIF / 'sa' / 'vocab.json'))
    return {x.rsplit('.', 1)[-1] for x in v}


def everyone(t):
    """The iterable consists of every optimizer (perhaps filtered: the filter is then checked on the paths)."""
    if t is PACKS:
        return True
    if t.op == 'call' and t.args[0] in ('items', 'keys', 'values', 'list', 'tuple', 'sorted', 'dict', 'copy', 'set', 'reversed'):
        return any(everyone(x) for x in ([t.args[1]] if t.args[1] is not None else []) + list(t.args[2]))
    if t.op in ('list', 'tuple', 'set') and len(t.args) == 1 and t.args[0].op == 'star':
        return everyone(t.args[0].args[0])
    return t.op == 'comp' and everyone(t.args[2])


FAILURES = ('OSError', 'EOFError', 'ConnectionError', 'BrokenPipeError', 'ConnectionResetError', 'IOError', 'Exception', 'BaseException', '')
CLOSING = ('_start_hunt', '_is_manual_shutdowns', '_check_signals', '_inspect_children', '_checkpoint_optimizers', '_stop_all_children')


def closing_graph(c, m):
    return c.graph('GloMPOManager', m, inline={'_shutdown_job', '_send_signal', '_check_signals'}, hold={'is_alive'})


def conv(e):
    """Change of the number of converged optimizers: the amount added (None when it is something else)."""
    if e.kind == 'store' and e.name == 'conv_counter' and rv(e) is SELF:
        d = sub(norm_term(e.value), sattr('conv_counter'))
        return d.args[0] if d.op == 'const' and isinstance(d.args[0], (int, float)) else '?'
    return False


def mark(e):
    """(kind, optimizer) of a primitive effect on the record of an optimizer."""
    if e.kind == 'storeidx' and rv(e) is VICTIMS:
        return 'victim', norm_term(e.args[0])
    if is_bury(e):
        return 'bury', bury_of(e)
    if is_meta(e) and meta(e)[1] in ('t_stop', 'end_cond'):
        return meta(e)[1], meta(e)[0]
    if is_force(e):
        return 'force', force_of(e)
    if is_send(e) and 1 in signals(e):
        return 'stop', part(rv(e), 'signal_pipe')
    if e.kind == 'call' and e.name == 'recv' and part(rv(e), 'signal_pipe') is not None:
        return 'recv', part(rv(e), 'signal_pipe')
    if e.kind == 'call' and e.name == 'join' and part(rv(e), 'process') is not None:
        return 'join', part(rv(e), 'process')
    if e.kind == 'call' and e.name == 'get_metadata' and av(e, 1, 'key') is not None and av(e, 1, 'key').op == 'const':
        return 'has_' + str(av(e, 1, 'key').args[0]), av(e, 0, 'opt_id')
    return None


def opt_sites(g, marks):
    """Loops whose elements are (or lead to) the optimizers concerned: site -> identity of the optimizer of an iteration."""
    out = {}
    ids = {x for k, x in marks.values() if x is not None}
    for site, hs in loops(g).items():
        for h in hs:
            t = nv(g.ev[h].target)
            if t is None:
                continue
            el = T('elem', t, 0)
            if everyone(t):
                el2 = T('elem', PACKS, 0)
                if el in ids or el2 in ids or ids & {T('idx', el, const(0))}:
                    out[site] = el2 if el2 in ids or el not in ids else el
            for x in ids:
                if contains(x, lambda y: y is el) and site not in out:
                    out[site] = x
    return out


def zero(f, what):
    """A received key or an exit code known to be zero."""
    for z in fact_formulas(f):
        for y in subterms(z):
            if what == 'recv':
                ok = y.op == 'idx' and y.args[1] is const(0) and y.args[0].op == 'call' and y.args[0].args[0] == 'recv'
            else:
                ok = y.op == 'attr' and y.args[1] == 'exitcode'
            if ok and entails(f, rel(y, const(0), '==')):
                return y
    return None


def segments(c, g, rule, construct, on_end, on_mark=None, hint=None):
    """Collects the effects of each iteration over optimizers (or of the whole call) and hands them to on_end(marks, n, e, x) at its end,
    on_mark(marks, kind, x, n, e) at each effect; both return a message for a violation or None."""
    marks = {n: mark(g.ev[n]) for n in N(g) if mark(g.ev[n]) is not None}
    for n in N(g):
        d = conv(g.ev[n])
        if d is not False and d != 0:
            marks[n] = ('conv' if d == 1 else f'conv by {d}', None)
    sites = opt_sites(g, marks)
    ids = {}

    def noted(q, n, x):
        """Knowledge about the optimizer that a path passes through before it is closed."""
        if x is None:
            return frozenset()
        k = (n, x)
        if k not in ids:
            f = facts_m(g, n)
            if f is None:
                return frozenset([('impossible', x)])
            s = set()
            if f:
                if entails(f, buried(x)):
                    s.add(('closed', x))
                if entails(f, mk_not(buried(x))):
                    s.add(('open', x))
                if entails(f, T('in', x, VICTIMS)):
                    s.add(('hunted', x))
                if entails(f, alive(x)):
                    s.add(('alive', x))
                if entails(f, mk_not(alive(x))):
                    s.add(('dead', x))
            ids[k] = frozenset(s)
        return ids[k]

    def cur(site):
        if site is not None:
            return sites[site]
        return T('sym', g.func.node.args.args[1].arg) if g.func.name in ('_check_signals', '_shutdown_job') or hint == 'param' else None

    def step(q, n, e):
        ms, site = q
        x = cur(site)
        if e.kind == 'iter' and e.site in sites:
            return (frozenset(), e.site)
        if e.kind == 'exc':
            if e.name in ('get_metadata',):
                return (ms | {('missing', x)}, site)
            if e.name in ('recv', 'poll', 'send', 'terminate', 'join', 'is_alive', ''):
                return (ms | {('failed', e.name)}, site)
            return []       # other failures end in the crash handling of the run (C08)
        if e.kind == 'catch' and any(z[0] == 'failed' for z in ms) and not set(e.name.split('/')) & set(FAILURES):
            return []       # pipes and processes do not raise anything else
        if n in marks:
            k, y = marks[n]
            if not any(z[0] in ('bury', 't_stop', 'end_cond', 'victim', 'force', 'stop') or str(z[0]).startswith('conv') for z in ms):
                ms = ms | noted(q, n, y if y is not None else x)
            if on_mark:
                m = on_mark(ms, k, y, n, e)
                if m:
                    return '!', m
            if k == 'force' and ('dead', y) in ms and entails(facts_at(g, n), alive(y)):
                return []       # a process does not come back to life
            if k == 'bury' or k.startswith('conv'):
                f = facts_at(g, n)
                if zero(f, 'recv') or zero(f, 'exitcode'):
                    ms = ms | {('own', None)}
            if k.startswith('conv') and (k, y) in ms:
                k = 'conv again'
            return (ms | {(k, y)}, site)
        if e.kind in ('iterend', 'break') and e.site in sites and e.site == site:
            m = on_end(ms, n, e, x)
            if m:
                return '!', m
            return (frozenset(), None)
        if e.kind == 'exit' and e.name == 'return' and (site is None or True):
            m = on_end(ms, n, e, x)
            if m:
                return '!', m
            return q
        if x is not None and not any(z[0] in ('bury', 'force') for z in ms):
            ms = ms | noted(q, n, x)
        return (ms, site)
    run_automaton(c, rule, construct, g, (frozenset(), None), step, keep=lambda e: mark(e) is not None or e.kind in ('exc', 'iter', 'iterend') or conv(e) is not False)
    return marks, sites
