"""The checkpoint protocol is decided for one arbitrary optimizer: an automaton over all paths of the synchronisation tracks, for this
representative, its membership in every local set (sets, copies, unions and differences are followed as they are built and changed), which
iteration of every loop handles it, whether it is known to be alive or dead, and which signals it was sent and answered with. When a save is
sent to anybody the representative has paused, ended or died and nothing is left in the results queue; at the end it was told to save exactly
if it did not end, and its save was awaited and found. On the level above, order automata require synchronisation before the log, manager and
task are saved, all of that before the archive is built, and the release of the optimizers on every way out; the side of the optimizer is an automaton as well."""
from sa.core import *
from sa.mgr import *
from sa.terms import rebuild
from types import SimpleNamespace

TECHNIQUE = 'typestate automaton with a representative optimizer and set membership tracking; order automata; path facts'
ASSUMPTIONS = ['an optimizer which confirmed the pause sends no results until it is released (C10)',
               'the end of an optimizer seen while results are processed is among the identities returned by the processing']
_NN = {}


def nn(t):
    """norm_term which keeps the identity of local containers."""
    r = _NN.get(t)
    if r is None:
        def f(x):
            if x.op == 'call' and x.args[4] is not None:
                return T('call', *x.args[:4], None)
            if x.op in ('inst', 'exc') and x.args[-1] not in (None, 0):
                return T(x.op, *x.args[:-1], 0)
            if x.op == 'elem':
                return T('elem', x.args[0], 0)
            if x.op == 'comp':
                return T('comp', *x.args[:4], 0)
            return x
        r = _NN[t] = rebuild(t, f)
    return r


WORDS = ('is_alive', 'is_set', 'empty', 'has_cache', 'recv', 'exists', 'is_file', 'is_dir', 'poll', 'qsize')


def wanted(f):
    return any(x.op in ('in', 'new', 'hv') or x.op == 'call' and x.args[0] in WORDS for x in subterms(f))


def results_of(t):
    """0 / 1: identities closed / killed while results were processed."""
    if t.op == 'idx' and t.args[0].op == 'call' and t.args[0].args[0] == '_process_results' and t.args[1] in (const(0), const(1)):
        return T('res', t.args[1].args[0])
    return None


def key(t):
    """Container iterated over, copied or tested, as tracked by the automaton."""
    while True:
        if everyone(t):
            return PACKS
        if results_of(t) is not None:
            return results_of(t)
        if t.op == 'call' and t.args[0] in ('copy', 'keys') and t.args[1] is not None:
            t = t.args[1]
        elif t.op == 'call' and t.args[0] in ('list', 'tuple', 'sorted', 'set', 'frozenset', 'reversed', 'enumerate') and len(t.args[2]) >= 1:
            t = t.args[2][0]
        elif t.op in ('list', 'set', 'tuple') and len(t.args) == 1 and t.args[0].op == 'star':
            t = t.args[0].args[0]
        elif t.op == 'comp':
            t = t.args[2]
        else:
            return t


def check(c):
    sync(c)
    order(c)
    release(c)
    pause(c)


def representative(g):
    """One arbitrary optimizer followed through a graph: functions over states (containers it is in, containers it is not in, current
    iterations and whether they handle it, iterations which have handled it, flags)."""
    facts, whos = {}, {}

    def fa(n):
        if n not in facts:
            st = g.st[n]
            facts[n] = map_facts(st.facts, nn) if st is not None else {}
        return facts[n]

    def who(x, cur):
        """True: the representative; False: another optimizer; None: no optimizer of an iteration."""
        if x is None:
            return None
        for y in whos.setdefault(x, [key(z.args[0]) for z in subterms(nn(x)) if z.op == 'elem']):
            for t, b in cur:
                if t is y:
                    return b
        return None

    cond = {}

    def known(n):
        """What the facts at a node say about the optimizers of the iterations: [(kind, term of the optimizer, value)]."""
        if n not in cond:
            out = set()
            f = fa(n)
            for z in fact_formulas(f):
                for y in subterms(z):
                    if y.op == 'in':
                        v = decide_(f, y)
                        if v is not None:
                            out.add(('in', y.args[0], key(y.args[1]), v))
                    elif y.op in ('exists', 'forall'):
                        v = decide_(f, y)
                        if v is (y.op == 'forall'):
                            out.add(('all', y.args[1] if v else mk_not(y.args[1]), y.args[0], True))
                    elif y.op == 'truth' and y.args[0].op in ('new', 'hv'):
                        v = decide_(f, y)
                        if v is False:
                            out.add(('empty', None, y.args[0], True))
                    elif y.op == 'call' and y.args[0] == 'is_alive' and part(y.args[1], 'process') is not None:
                        v = decide_(f, truth(y))
                        if v is not None:
                            out.add(('alive', part(y.args[1], 'process'), None, v))
                    elif y.op == 'call' and y.args[0] == 'is_set':
                        v = decide_(f, truth(y))
                        if v is not None and opts(y):
                            out.add(('running', list(opts(y))[0], None, v))
                    elif y.op == 'call' and y.args[0] in ('exists', 'is_file', 'is_dir') and y.args[1] is not None:
                        v = decide_(f, truth(y))
                        if v:
                            out.add(('exists', y.args[1], None, v))
                    elif y.op == 'idx' and y.args[1] is const(0) and y.args[0].op == 'call' and y.args[0].args[0] == 'recv':
                        for k in (0, 1):
                            if entails(f, rel(y, const(k), '==')):
                                out.add(('recv', part(y.args[0].args[1], 'signal_pipe'), None, k))
            q = [y for z in fact_formulas(f) for y in subterms(z) if y.op == 'call' and y.args[1] is not None and y.args[1].op == 'attr' and
                 y.args[1].args[1] == 'optimizer_queue']
            e = any(y.args[0] == 'empty' and decide_(f, truth(y)) is True or y.args[0] == 'qsize' and decide_(f, rel(y, const(0), '==')) for y in q)
            h = any(y.args[0] == 'has_cache' and decide_(f, truth(y)) is False for y in q)
            cond[n] = (sorted(out, key=repr), e, h)
        return cond[n]

    def decide_(f, x):
        if entails(f, x):
            return True
        if entails(f, mk_not(x)):
            return False
        return None

    def learn(q, n):
        """New state after the facts at a node, or None if it contradicts them."""
        mem, non, cur, seen, fl = q
        ks, e, h = known(n)
        for kind, x, s, v in ks:
            if kind == 'empty':
                if s in mem:
                    return None
                non = non | {s}
                continue
            if kind == 'all':
                r = (mem, non, cur, seen, fl)
                if member(r, s, cur) == (True,):
                    out = assume(r, x)
                    if not out:
                        return None
                    fl = frozenset.intersection(*[y[4] for y in out])
                continue
            w = who(x, cur)
            if w is not True:
                continue
            if kind == 'in':
                if v and s in non or not v and s in mem:
                    return None
                if v:
                    mem = mem | {s}
                else:
                    non = non | {s}
                if s is GRAVE and v and 'asked' not in fl:
                    fl = fl | {'ended'}
            elif kind == 'alive':
                if v and 'dead' in fl:
                    return None
                fl = fl | {'alive' if v else 'dead'}
            elif kind == 'running' and not v and fl & {'saved', 'passed'}:
                fl = fl | {'done'}
            elif kind == 'exists' and 'saved' in fl:
                fl = fl | {'found'}
            elif kind == 'recv':
                fl = fl | ({'ended', 'finished'} if v == 0 else {'paused'})
        if 'dead' in fl and 'saved' in fl:
            fl = fl | {'done'}
        if e and h:
            fl = fl | {'drained'}
        return mem, non, cur, seen, fl

    def put(q, s, v):
        mem, non, cur, seen, fl = q
        return (mem | {s}, non - {s}, cur, seen, fl) if v else (mem - {s}, non | {s}, cur, seen, fl)

    def member(q, t, cur):
        """Possible memberships of the representative in a container."""
        t = key(nn(t))
        mem, non = q[0], q[1]
        if t.op == 'setop':
            a, b = member(q, t.args[1], cur), member(q, t.args[2], cur)
            o = t.args[0]
            return tuple({x and y if o == '&' else x or y if o == '|' else x and not y for x in a for y in b})
        if t in mem or t is PACKS:
            return (True,)
        if t in non:
            return (False,)
        if t.op == 'set':
            ws = [who(x, cur) for x in t.args if x.op != 'star']
            if any(w is True for w in ws):
                return (True,)
            st = [y for x in t.args if x.op == 'star' for y in member(q, x.args[0], cur)]
            return tuple(set(st)) if st else (False,)
        return (True, False)

    def move(q, n, e):
        """Effect of an event on the state: new state(s), or None if the event is of another kind."""
        mem, non, cur, seen, fl = q
        k = e.kind
        if k == 'setop':
            t = nn(e.target)
            src = e.args
            if e.name == 'empty':
                return put(q, t, False)
            if e.name in ('copy', 'filter'):
                out = []
                for v in member(q, src[0], cur):
                    if v and e.name == 'filter':
                        f = nn(e.value)
                        out += [put(x, t, True) for x in assume(q, f)] + [put(x, t, False) for x in assume(q, mk_not(f))]
                    else:
                        out.append(put(q, t, v))
                return out
            out = []
            for a in member(q, src[0], cur):
                for b in member(q, src[1], cur):
                    v = {'&': a and b, '|': a or b, '-': a and not b}[e.name]
                    out.append(put(split(split(q, src[0], a), src[1], b), t, v))
            return out
        if k == 'loophead' and e.target is not None:
            t = key(nn(e.target))
            if any(x[0] is t for x in cur):     # the previous loop was left from within (a search which found something)
                return mem, non, tuple(x for x in cur if x[0] is not t), seen - {t}, fl
            return q
        if k == 'iterend' and e.target is not None:
            t = key(nn(e.target))
            return mem, non, tuple(x for x in cur if x[0] is not t), seen, fl
        if k == 'iter' and e.target is not None:
            t = key(nn(e.target))
            cur = tuple(x for x in cur if x[0] is not t)
            out = [(mem, non, cur + ((t, False),), seen, fl)]
            if t not in seen and True in member(q, t, cur):
                q2 = put(q, t, True) if t is not PACKS else q
                out.append((q2[0], q2[1], cur + ((t, True),), seen | {t}, fl))
            return out
        if k in ('loopexit', 'break') and e.target is not None:
            t = key(nn(e.target))
            if k == 'loopexit' and t not in seen and member(q, t, cur) == (True,):
                return []       # it has been handled in one of the iterations
            cur = tuple(x for x in cur if x[0] is not t)
            seen = seen - {t}
            if k == 'loopexit' and t not in mem and t.op == 'res':
                pass
            return (mem, non, cur, seen, fl)
        if k == 'call' and e.name == '_process_results':
            r0, r1 = T('res', 0), T('res', 1)
            base = (mem - {r0, r1}, (non | {r0, r1}), cur, seen, fl - {'drained'})
            out = [base]
            if 'ended' not in fl and 'dead' not in fl:
                out.append((base[0] | {r0}, base[1] - {r0}, cur, seen, base[4] | {'ended', 'finished'}))
                out.append((base[0] | {r1, GRAVE}, base[1] - {r1, GRAVE}, cur, seen, base[4] | {'ended'}))
            return out
        if k == 'call' and e.recv is not None and e.name in ('add', 'append', 'remove', 'discard', 'update', 'clear', 'pop', 'extend',
                                                             'difference_update', 'intersection_update'):
            s = key(nn(e.recv))
            if s.op not in ('new', 'hv') and s is not GRAVE:
                return q
            a = nn(e.args[0]) if e.args else None
            if e.name in ('add', 'append', 'remove', 'discard'):
                if who(a, cur):
                    q = put(q, s, e.name in ('add', 'append'))
                return q
            if e.name == 'clear':
                return put(q, s, False)
            if e.name == 'pop':
                return [q, put(q, s, False)]
            out = []
            for v in member(q, a, cur):
                x = split(q, a, v)
                if e.name in ('update', 'extend') and v:
                    x = put(x, s, True)
                if e.name == 'difference_update' and v or e.name == 'intersection_update' and not v:
                    x = put(x, s, False)
                out.append(x)
            return out
        return None

    def split(q, t, v):
        t = key(nn(t))
        return put(q, t, v) if t is not PACKS else q

    def who_site(e, cur):
        return any(b for t, b in cur)

    def assume(q, f):
        """Possible states in which a formula holds for the representative."""
        if f is FALSE:
            return []
        if f.op == 'not' and f.args[0].op in ('and', 'or'):
            x = [mk_not(y) for y in f.args[0].args]
            f = T('or' if f.args[0].op == 'and' else 'and', *x)
        if f.op == 'or':
            return list(dict.fromkeys(y for x in f.args for y in assume(q, x)))
        if f.op == 'and':
            qs = [q]
            for x in f.args:
                qs = [z for y in qs for z in assume(y, x)]
            return list(dict.fromkeys(qs))
        v, a = f.op != 'not', f.args[0] if f.op == 'not' else f
        if v not in eval_(a, q, None):
            return []
        if a.op == 'in' and contains(a.args[0], lambda y: y.op == 'elem'):
            return [split(q, a.args[1], v)]
        x = a.args[0] if a.op == 'truth' else None
        if x is not None and x.op == 'call' and x.args[0] == 'is_alive':
            fl = q[4] | {'alive' if v else 'dead'}
            return [(*q[:4], fl | {'done'} if {'dead', 'saved'} <= fl else fl)]
        if x is not None and x.op == 'call' and x.args[0] == 'is_set' and not v and q[4] & {'saved', 'passed'}:
            return [(*q[:4], q[4] | {'done'})]
        return [q]

    def eval_(f, q, el):
        """Possible values of a filter for the representative."""
        if f is TRUE:
            return (True,)
        if f.op == 'not':
            return tuple(not v for v in eval_(f.args[0], q, el))
        if f.op in ('and', 'or'):
            rs = [eval_(x, q, el) for x in f.args]
            out = {()}
            vals = set()
            import itertools
            for z in itertools.product(*rs):
                vals.add(all(z) if f.op == 'and' else any(z))
            return tuple(vals)
        if f.op == 'in' and contains(f.args[0], lambda y: y.op == 'elem'):
            return member(q, f.args[1], q[2])
        if f.op == 'truth' and f.args[0].op == 'call' and f.args[0].args[0] == 'is_alive':
            return (False,) if 'dead' in q[4] else (True,) if 'alive' in q[4] else (True, False)
        return (True, False)
    return SimpleNamespace(learn=learn, put=put, member=member, move=move, who=who, eval=eval_, who_site=who_site, facts=fa)


START = (frozenset(), frozenset(), (), frozenset(), frozenset())


def protocol_graph(c, m='_checkpoint_optimizers'):
    return c.graph('GloMPOManager', m, inline={'_send_signal'}, sets=True, hold={'is_alive', 'is_set'}, keep=wanted)


def sync(c):
    m = '_checkpoint_optimizers'
    g = protocol_graph(c)
    c.count('events of the protocol', len(g.ev))
    r = representative(g)

    def step(q, n, e):
        q = r.learn(q, n)
        if q is None:
            return []
        if e.kind == 'entry':
            return [r.put(q, GRAVE, True), r.put(q, GRAVE, False)]
        if GRAVE in q[0] and 'ended' not in q[4]:
            q = (*q[:4], q[4] | {'ended'})
        x = r.move(q, n, e)
        if x is not None:
            return x
        mem, non, cur, seen, fl = q
        k = e.kind
        if is_send(e):
            w = r.who(part(nn(e.recv), 'signal_pipe'), cur)
            ss = signals(e)
            if None in ss:
                return '!', f'unknown signal {show(av(e, 0))[:80]} in the checkpoint protocol'
            if 0 in ss:
                if 'drained' not in fl:
                    return '!', 'optimizers are told to save while results may be waiting in the queue or cache'
                if 'asked' in fl and not fl & {'paused', 'finished', 'dead'}:
                    return '!', 'optimizers are told to save before every optimizer asked to pause has answered, finished or died'
                if 'asked' not in fl and 'dead' not in fl:
                    return '!', 'optimizers are told to save while a living optimizer was not asked to pause'
            if w is True:
                if 2 in ss:
                    fl = fl | {'asked'}
                if 0 in ss:
                    if 'asked' not in fl:
                        return '!', 'an optimizer is told to save without being asked to pause'
                    if 'ended' in fl:
                        return '!', 'an optimizer which finished or was killed is told to save'
                    if 'saved' in fl:
                        return '!', 'an optimizer is told to save twice'
                    fl = fl | {'saved'}
                if 3 in ss:
                    if 'saved' in fl:
                        return '!', 'an optimizer told to save is told to pass as well'
                    fl = fl | {'passed'}
            return (mem, non, cur, seen, fl)
        if k == 'exc' and e.name not in ('recv', 'poll', 'send'):
            return []
        if k == 'exc' and e.name == 'send':
            return (mem, non, cur, seen, fl | {'dead'}) if r.who_site(e, cur) else q
        if k == 'call' and e.name in ('exists', 'is_file', 'is_dir') and e.recv is not None and contains(nn(e.recv), lambda y: y.op == 'elem'):
            if 'saved' in fl and 'done' not in fl:
                return '!', 'saves are looked for before all optimizers told to save have finished'
        if k == 'exit' and e.name == 'return':
            if 'asked' in fl and not fl & {'dead', 'ended'} and 'saved' not in fl:
                return '!', 'a paused optimizer is not told to save'
            if fl >= {'asked', 'paused', 'ended'} and not fl & {'dead', 'saved', 'passed'}:
                return '!', 'a paused optimizer which ended is not told to pass'
            if 'saved' in fl and 'done' not in fl:
                return '!', 'the checkpoint continues before the saves are finished'
            if 'saved' in fl and 'found' not in fl:
                return '!', 'a missing optimizer save does not fail the checkpoint'
            if 'drained' not in fl:
                return '!', 'results in flight are not processed'
        return (mem, non, cur, seen, fl)

    run_automaton(c, 'protocol', m, g, START, step,
                  keep=lambda e: e.kind in ('iter', 'call', 'setop', 'loopexit'))
    fails = [(k, n, v) for k, n, v, s in g.exits if k == 'raise' and any(y.op == 'call' and y.args[0] in ('exists', 'is_file', 'is_dir') for z in
                                                                         fact_formulas(s.facts) for y in subterms(z))]
    ok = [v for k, n, v in fails if v is not None and 'CheckpointingError' in show(v)]
    c.ob('a missing save fails the checkpoint', m, len(ok) == len(fails) and bool(ok) or not fails, g.func.file, 'a missing save does not raise CheckpointingError')


def order(c):
    m = 'checkpoint'
    g = c.graph('GloMPOManager', m, keep=lambda f: False)
    STEPS = {'_checkpoint_optimizers': 'sync', '_checkpoint_manager': 'manager', '_checkpoint_task': 'task'}

    def kind(e):
        if e.kind != 'call':
            return None
        if e.name in STEPS and rv(e) is SELF:
            return STEPS[e.name]
        if e.name == 'checkpoint_save' and rv(e) is LOG:
            return 'log'
        if e.name == 'flush' and rv(e) is LOG:
            return 'flush'
        if e.name == 'checkpoint_save':
            return 'scope'
        if e.name == 'add' and e.recv is not None and 'tarfile' in show(e.recv) or e.name in ('make_archive', 'shutil.make_archive'):
            return 'archive'
        return None
    n = {k for k in (kind(e) for e in g.ev if e is not None) if k}
    for k in ('sync', 'log', 'manager', 'task', 'archive', 'flush'):
        c.ob('parts of a checkpoint', f'{m}: {k}', k in n, g.func.file, f'no step for the {k} in the construction of a checkpoint')

    def step(q, n, e):
        k = kind(e)
        if e.kind == 'exc':
            return q | {'failed'}
        if 'failed' in q:
            return q
        if k is None:
            if e.kind == 'exit' and e.name == 'return' and not {'sync', 'log', 'manager', 'task', 'archive'} <= q:
                return '!', 'a checkpoint is reported as made without all of its parts'
            return q
        if k == 'sync' and q & {'log', 'manager', 'task', 'flush', 'scope'}:
            return '!', 'state is saved before the optimizers are synchronised and results processed'
        if k != 'sync' and 'sync' not in q:
            return '!', f'the {k} is saved before the optimizers are synchronised and results processed'
        if k == 'log' and 'flush' not in q:
            return '!', 'the log is saved before it is flushed'
        if k == 'archive' and not {'sync', 'log', 'manager', 'task'} <= q:
            return '!', f'the archive is built before the {sorted({"sync", "log", "manager", "task"} - q)[0]} is saved'
        if k in q and k not in ('flush',):
            return '!', f'{k} done twice'
        return q | {k}
    run_automaton(c, 'order of construction', m, g, frozenset(), step, keep=lambda e: kind(e) is not None or e.kind in ('exc', 'catch'))
    # all parts are written to the same folder
    paths = {}
    for i in N(g):
        e = g.ev[i]
        if kind(e) in ('sync', 'log', 'manager', 'task', 'scope', 'archive'):
            paths.setdefault(av(e, 0), []).append(kind(e))
    c.ob('one folder', m, len(paths) == 1, g.func.file, f'the parts are written to different places: { {show(k): v for k, v in paths.items()} }'[:300])


def release(c):
    """Optimizers are released on every way out."""
    m = 'checkpoint'
    g = c.graph('GloMPOManager', m, keep=lambda f: any(x.op == 'attr' and x.args[1] == 'converged' for x in subterms(f)) or
                any(x.op == 'call' and x.args[0] == 'is_alive' for x in subterms(f)), inline={'_send_signal', '_toggle_optimizers'}, hold={'is_alive'})
    sync_ = {n for n in N(g, lambda e: e.kind in ('call', 'exc') and e.name == '_checkpoint_optimizers')}
    CONV = truth(sattr('converged'))

    def on_all(pred, what, need=None):
        """After the synchronisation every path to an exit goes through a loop in which every living optimizer gets it."""
        ns = [n for n in N(g) if pred(g.ev[n])]
        enc = enclosing(g, ns)
        good = set()
        for s in enc:
            hd = loops(g)[s][0]
            if not everyone(nv(g.ev[hd].target) or NONE):
                continue
            good.add(s)

        def step(q, n, e):
            done, cur = q
            if n in sync_:
                return (0, cur)
            if e.kind == 'loophead' and e.site in good and cur is None:
                return (done, 'loop')
            if e.kind == 'iter' and e.site in good:
                return (done, 'waiting')
            if n in ns:
                return (done, 'given')
            if e.kind in ('iterend', 'break') and e.site in good:
                f = facts_at(g, n)
                x = T('elem', PACKS, 0)
                if cur == 'waiting' and not (need is not None and entails(f, mk_not(need))) and not any(z.op == 'not' for z in alive_terms(f, x)) and not any(z.op == 'not' and contains(z, lambda y: y.op == 'call' and y.args[0] == 'is_alive') for z in fact_formulas(f)):
                    return '!', f'a living optimizer is not {what} after a checkpoint'
                return (done, 'loop') if e.kind == 'iterend' else ('!', 'not all optimizers are considered')
            if e.kind == 'loopexit' and e.site in good:
                return (1, None)
            if e.kind == 'exc' and e.name in ('is_alive', 'set', 'is_set'):
                return []
            if n in exits and done == 0:
                if need is None or entails(facts_at(g, n), need):
                    return '!', f'optimizers are not {what} after a checkpoint' + (' (it failed)' if exits[n] == 'raise' else '')
                if need is not None and not entails(facts_at(g, n), mk_not(need)):
                    return '!', f'optimizers are not {what} after a checkpoint'
            return q
        exits = {n: k for k, n, v, s in g.exits}

        def st(q, n, e):
            q, unsent = q
            if e.kind == 'exc' and e.name == 'send':
                return (q if q[1] != 'waiting' else (q[0], 'given'), True)
            if unsent and (e.kind == 'catch' and not set(e.name.split('/')) & set(FAILURES) or n in exits and exits[n] == 'raise'):
                return []       # pipes do not raise anything else
            r = step(q, n, e)
            if r == []:
                return []
            if isinstance(r, tuple) and r[0] == '!':
                return r
            return (r, unsent and e.kind != 'catch')
        run_automaton(c, f'optimizers are {what} in all cases', m, g, ((2, None), False), st, keep=lambda e: e.kind in ('exc', 'catch', 'call'))
    on_all(lambda e: e.kind == 'call' and e.name == 'set' and part(rv(e), 'allow_run_event') is not None, 'released')
    on_all(lambda e: is_send(e) and 1 in signals(e), 'stopped at convergence', CONV)


def pause(c):
    """The optimizer's side: confirms the pause once, executes what it is told, and only then reports to be done and waits to be released."""
    m = '_prepare_checkpoint'
    k = c.cls('BaseOptimizer')
    own = [x for x in [k] + list(c.p.subclasses(k)) if m in x.methods]
    c.count('implementations of the pause', len(own))
    for k in own:
        g = c.graph(k, m, inline={'message_manager'})
        P = sattr('_pause_signal')

        def told(e):
            if e.kind == 'call' and e.name == 'send' and rv(e) is sattr('_signal_pipe'):
                a = av(e, 0)
                return a.args[0].args[0] if a is not None and a.op == 'tuple' and a.args[0].op == 'const' else '?'
            return None
        listens = [n for n in N(g) if g.ev[n].kind == 'call' and g.ev[n].name in ('check_messages', 'recv')]
        ready = [n for n in N(g) if g.ev[n].kind == 'call' and g.ev[n].name == 'clear' and rv(g.ev[n]) is P]
        c.ob('save finishes before it is reported', f'{k.name}.{m}', bool(ready) and bool(listens), g.func.file, 'the end of a save is not reported to the manager')
        seen = set()
        for n in ready:
            f = facts_at(g, n)
            ins = [y for z in fact_formulas(f) for y in subterms(z) if y.op == 'in' and y.args[0] in (const(0), const(3))]
            ok = True
            for v in {y.args[1] for y in ins}:
                i0, i3 = T('in', const(0), v), T('in', const(3), v)
                ok = ok and not satisfiable(f, mk_and([mk_not(i0), mk_not(i3)]))
                if satisfiable(f, mk_and([i0, mk_not(i3)])):
                    seen.add(0)
                if satisfiable(f, mk_and([mk_not(i0), i3])):
                    seen.add(3)
            if not ins:
                ok = any(contains(z, lambda y: y is const(0)) and contains(z, lambda y: y is const(3)) for z in fact_formulas(f))
                seen |= {0, 3}
            c.ob('save finishes before it is reported', f'{k.name}.{m}: instruction', ok, g.ev[n].where, 'reports to be done before the instruction to save or pass was executed')
        c.ob('both instructions end the pause', f'{k.name}.{m}', seen == {0, 3} or not ready, g.func.file, f'waits only for the signals {sorted(seen)} of 0 (save) and 3 (pass)')

        def step(q, n, e):
            t = told(e)
            if t is not None:
                if t != 1:
                    return '!', f'sends {t} instead of the confirmation of the pause'
                if 'told' in q:
                    return '!', 'the pause is confirmed twice'
                return q | {'told'}
            if n in listens and 'told' not in q:
                return '!', 'waits for instructions before the pause was confirmed'
            if n in ready:
                if 'waited' in q:
                    return '!', 'reports to be done after waiting'
                return q | {'ready'}
            if e.kind == 'call' and e.name == 'set' and rv(e) is P:
                return '!', 'the optimizer releases itself'
            if e.kind == 'call' and e.name == 'wait' and rv(e) is P:
                if 'ready' not in q:
                    return '!', 'waits to be released before it reported to be done'
                return q | {'waited'}
            if e.kind == 'exit' and e.name == 'return' and not q >= {'told', 'ready', 'waited'}:
                return '!', 'the optimizer goes on without waiting to be released'
            return q
        run_automaton(c, 'pause of an optimizer', f'{k.name}.{m}', g, frozenset(), step)
