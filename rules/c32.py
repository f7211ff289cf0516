"""The main loop is analysed with its helpers inlined. An automaton over the paths of one iteration requires that each duty (filling slots,
reading the signals of every optimizer, processing results, both kinds of user requests, inspecting optimizers) is done unconditionally
before the stopping criterion is evaluated, which happens exactly once; the flag which ends the loop is then, on every path, equivalent to
"the criterion is true, or no managed optimizer is alive and spawning is off", decided symbolically under the facts of the path. The loop
is left exactly when the flag is set. Periodic checkpoints are made on a path exactly if its facts say that the time or the number of
evaluations since the last one has passed, and the time (number) of the last one is updated before; checkpoints at the initialisation and
at the end are made exactly if configured."""
from sa.core import *
from sa.mgr import *

TECHNIQUE = 'automaton over iterations of the main loop; decision equivalence under path facts'
ASSUMPTIONS = ['no event arrives between the parts of one decision', 'a checkpoint due in time may replace one due in evaluations']
NOW = T('call', 'time.time', None, (), (), None)
CONV, SPAWN, CC = sattr('converged'), truth(sattr('spawning_opts')), sattr('checkpoint_control')
CHECK = truth(T('call', 'convergence_checker', SELF, (SELF,), (), None))
ALIVE = truth(T('call', 'is_alive', T('attr', T('idx', PACKS, T('elem', PACKS)), 'process'), (), (), None))
DUTIES = {'_fill_optimizer_slots': 'free slots are filled', '_process_results': 'results are processed', '_is_manual_shutdowns': 'requests to stop optimizers are served',
          '_is_manual_checkpoints': 'requests for checkpoints are served', '_inspect_children': 'optimizers are inspected'}


def about(*names):
    return lambda f: contains(f, lambda x: x.op == 'attr' and x.args[1] in names)


end_facts = lambda f: about('converged', 'spawning_opts', '_is_restart')(f) or contains(f, lambda x: x.op == 'call' and (
    x.args[0] in ('is_alive', 'convergence_checker') or x.args[0] == 'len' and x.args[2] and x.args[2][0] is PACKS) or x.op in ('exists', 'forall')) or f.op == 'truth' and f.args[0] is PACKS
ck_facts = about('checkpoint_control', 'last_time_checkpoint', 'last_iter_checkpoint', 'checkpoint_at_init', 'checkpoint_at_conv')


def main_loop(c, keep=end_facts, cap=16):
    k = c.cls('GloMPOManager')
    g = c.run(c.meth(k, 'start_manager'), cls=k, inline=(), cap=cap, entry_cap=1, hold=('time.time',), exc='none', keep=keep)
    work = N(g, lambda e: e.name == '_process_results', 'call')
    sites = enclosing(g, work)
    # the outermost loop
    best = None
    for s in sites:
        if best is None or set(loops(g)[best]) & g.reach(iter_segments(g, s)[0], blocked=set(N(g, lambda e: e.site == s, 'loopexit'))):
            best = s
    return g, best


def is_check(e):
    return e.kind == 'call' and (e.name == 'convergence_checker' and rv(e) is SELF or e.name == '__call__' and rv(e) is sattr('convergence_checker'))


def duties(c, g, site, names, rule, check_too=False):
    """Every iteration of the main loop performs the duties unconditionally before the criterion is evaluated."""
    where = f'{g.func.file}:{g.func.node.lineno}'
    sig = {s for s in enclosing(g, N(g, lambda e: e.name == '_check_signals', 'call')) if s != site and
           all(g.ev[h].target is not None and everyone(nv(g.ev[h].target)) for h in loops(g)[s])}

    def step(q, n, e):
        """(in the loop, duties done, evaluations of the criterion, signals of the current optimizer read)"""
        inside, done, n_check, cur = q
        if e.kind == 'iter' and e.site == site:
            return (True, frozenset(), 0, None)
        if not inside:
            return q
        if e.kind == 'loopexit' and e.site == site:
            return (False, frozenset(), 0, None)
        if e.kind == 'call' and e.name in DUTIES:
            return (True, done | {e.name}, n_check, cur)
        if e.kind == 'iter' and e.site in sig:
            return (True, done, n_check, e.site)
        if e.kind == 'call' and e.name == '_check_signals':
            return (True, done, n_check, None if cur else cur)
        if e.kind == 'break' and e.site in sig and check_too:
            return '!', 'the signals of some optimizers are not read'
        if e.kind == 'iterend' and e.site == cur and check_too:
            return '!', 'the signals of an optimizer are not read'
        if e.kind == 'loopexit' and e.site in sig:
            return (True, done | {'_check_signals'}, n_check, None)
        if is_check(e) or e.kind in ('iterend', 'break') and e.site == site and n_check == 0:
            for d in names:
                if d not in done:
                    return '!', ('not always: ' if e.kind == 'call' else 'an iteration ends but not always: ') + DUTIES.get(d, 'signals of optimizers are read') + ' before the criterion is evaluated'
            if is_check(e) and check_too:
                if av(e, 0) is not SELF:
                    return '!', 'the criterion is not evaluated for the manager'
                if n_check:
                    return '!', 'the criterion is evaluated more than once in an iteration'
            return (True, done, 1, cur) if is_check(e) else (True, done, n_check, cur) if not check_too else ('!', 'an iteration ends without evaluating the stopping criterion')
        return q
    run_automaton(c, rule, 'start_manager', g, (False, frozenset(), 0, None), step, where)


def check(c):
    g, site = main_loop(c)
    where = f'{g.func.file}:{g.func.node.lineno}'
    c.ob('main loop', 'start_manager', site is not None, where, 'no loop processes results')
    if site is None:
        return
    duties(c, g, site, list(DUTIES) + ['_check_signals'], 'every iteration', True)
    decision(c, g, site, where)
    ends(c, g, site, where)
    abort(c, g, site, where)
    g, site = main_loop(c, ck_facts, 40)
    periodic(c, g, site, where)
    at_conv(c, g, site, where)
    at_init(c)
    control(c)


# ---------------------------------------------------------------- the end of the run
SOME = truth(T('sym', 'some optimizer is alive'))


def _some(t):
    if t.op == 'exists' and everyone(t.args[0]) and contains(t.args[1], lambda x: x.op == 'call' and x.args[0] == 'is_alive') and t.args[1].op == 'truth':
        return SOME
    return t


def canon(t):
    """The different ways of saying that some optimizer is alive, read as one formula."""
    return rebuild(t, _some)


def formula(v):
    return canon(truth(norm_term(v)))


def one_alive(f):
    """This optimizer is alive."""
    return f.op == 'truth' and f.args[0].op == 'call' and f.args[0].args[0] == 'is_alive' and contains(f, lambda x: x is PACKS)


def spec():
    return mk_or([CHECK, mk_and([mk_not(SOME), mk_not(SPAWN)])])


def decision(c, g, site, where):
    """The flag is stored, in every iteration, after the criterion is evaluated, and is equivalent to the rule. What the path knows
    about optimizers being alive counts if it was looked up after the slots were filled."""
    its, _ = iter_segments(g, site)
    inside = g.reach(its, blocked=set(N(g, lambda e: e.site == site and e.kind in ('loopexit', 'break'))))
    st = [n for n in stores(g, 'converged') if n in inside]
    c.ob('end of the run', 'start_manager: decided', bool(st), where, 'the loop never decides that the run ends')
    call_sites = lambda t: {x.args[4] for x in subterms(t) if x.op == 'call' and x.args[0] == 'is_alive'}
    looks = {}
    for s in loops(g):
        if s != site and all(g.ev[h].target is not None and everyone(nv(g.ev[h].target)) and hasattr(g.ev[h].node, '_loop') for h in loops(g)[s]):
            body = g.reach(iter_segments(g, s)[0], blocked=set(N(g, lambda e: e.site == s and e.kind in ('loopexit', 'iterend', 'break'))))
            looks[s] = {g.ev[n].site for n in body if g.ev[n] is not None and g.ev[n].name == 'is_alive'}
    looks = {s: v for s, v in looks.items() if v}
    # a collection without elements asks nobody
    within = {}
    for s in loops(g):
        if s != site and not hasattr(g.ev[loops(g)[s][0]].node, '_loop'):
            body = g.reach(iter_segments(g, s)[0], blocked=set(N(g, lambda e: e.site == s and e.kind in ('loopexit', 'iterend', 'break'))))
            within[s] = {g.ev[n].site for n in body if g.ev[n] is not None and g.ev[n].name == 'is_alive'}

    def alive(n):
        """What is known at this event about the current optimizer."""
        fs = [f for f in fact_formulas(facts_at(g, n))]
        return True if any(one_alive(f) for f in fs) else False if any(f.op == 'not' and one_alive(f.args[0]) for f in fs) else None

    def step(q, n, e):
        """(in an iteration, criterion evaluated, lookups after filling, current scan, is the current one alive, result of the scan)"""
        on, asked, fresh, scan, cur, some = q
        if e.kind == 'iter' and e.site == site:
            return (True, 0, frozenset(), None, None, None)
        if not on:
            return q
        if e.kind in ('iterend', 'break') and e.site == site:
            return '!', 'an iteration ends without deciding whether the run ends'
        if e.kind == 'loopexit' and e.site == site:
            return (False, 0, frozenset(), None, None, None)
        if is_check(e):
            return (on, 1, fresh, scan, cur, some)
        if e.kind == 'call' and e.name == '_fill_optimizer_slots':
            return (on, asked, frozenset(), scan, cur, None)
        if e.kind in ('loophead', 'call') and e.site in within:
            fresh = fresh | within[e.site]
            some = None if within[e.site] and scan is None else some
        if e.kind == 'call' and e.name == 'is_alive':
            fresh = fresh | {e.site}
            if scan is not None:
                return (on, asked, fresh, scan, None, some)
        if e.kind == 'loophead' and e.site in looks:
            if scan == e.site:
                return q
            return (on, asked, fresh | looks[e.site], e.site, True, 'none')
        if scan is not None:
            k = alive(n) if g.st[n] is not None else None
            if e.kind == 'iter' and e.site == scan:
                cur = None
            elif k is True and cur is not False:
                cur, some = True, 'some'
            elif k is False and cur is None:
                cur = False
            if e.kind == 'iterend' and e.site == scan:
                if cur is not False and some == 'none':
                    some = None
            if e.kind == 'loopexit' and e.site == scan or e.kind == 'break' and e.site == scan:
                if some == 'none' and e.kind == 'break':
                    some = None
                scan = None
        if n in st:
            fs = norm_facts({k: v for k, v in g.st[n].facts.items() if call_sites(k[1] if isinstance(k, tuple) else k) <= fresh})
            fs = {(('p', canon(k[1])) if isinstance(k, tuple) else canon(k)): v for k, v in fs.items()}
            if some is not None:
                fs[SOME] = some == 'some'
            if any(one_alive(f) for f in fact_formulas(fs)):
                fs[SOME] = True
            v = truth(norm_term(e.value))
            v = canon(v) if call_sites(e.value) <= fresh else v
            if not entails(fs, iff(v, spec())):
                known = [show(f)[:120] for f in fact_formulas(fs) if not contains(f, lambda x: x.op == 'attr' and x.args[1] == '_is_restart')]
                return '!', f'the run ends with {show(v)[:200]} under {known[:6]}: not exactly if the criterion is true, or nothing is alive and spawning is off'
            if not asked:
                return '!', 'the end of the run is decided before the criterion is evaluated'
            return (False, 0, frozenset(), None, None, None)
        return (on, asked, fresh, scan, cur, some)
    run_automaton(c, 'end of the run', 'start_manager', g, (False, 0, frozenset(), None, None, None), step, where)


def ends(c, g, site, where):
    """The loop is left exactly when the flag is set."""
    def conv(n):
        fs = facts_at(g, n)
        v = g.st[n].heap.get((SELF, 'converged'))
        f = truth(nv(v)) if v is not None else None
        for z in (truth(CONV), f):
            if z is not None and entails(fs, z):
                return True
            if z is not None and entails(fs, mk_not(z)):
                return False
        return None

    def step(q, n, e):
        if e.kind in ('loopexit', 'break') and e.site == site:
            if conv(n) is not True:
                return '!', 'the loop is left although the run has not converged'
            return None
        if e.kind == 'iterend' and e.site == site:
            return ('end', conv(n))
        if e.kind == 'iter' and e.site == site:
            if q is not None and q[1] is not False and conv(n) is not False:
                return '!', 'the loop goes on although the run has converged'
            return None
        return q
    run_automaton(c, 'the loop ends with the decision', 'start_manager', g, None, step, where)


def abort(c, g, site, where):
    """Before the start the run is only abandoned when it has converged, or the manager is not initialised."""
    heads = set(loops(g)[site])
    none = mk_not(mk_or([truth(PACKS), rel(T('call', 'len', None, (PACKS,), (), None), const(0), '>')]))
    zero = rel(T('call', 'len', None, (PACKS,), (), None), const(0), '==')
    ok_s = mk_or([CHECK, mk_and([mk_or([zero, mk_not(truth(PACKS))]), mk_not(SPAWN)])])
    pre = g.reach([0], blocked=heads)
    for kk, n, v, s in g.exits:
        if kk != 'return' or n not in pre:
            continue
        fs = norm_facts(s.facts)
        init = T('is', sattr('_is_restart'), NONE)
        c.ob('no start without need', 'start_manager', entails(fs, mk_or([init, ok_s, truth(CONV)])), where, 'a run ends before its start although it has neither converged nor is uninitialised')
    n = [n for n in stores(g, 'converged') if n in pre]
    for m in n:
        fs = facts_at(g, m)
        v = formula(g.ev[m].value)
        if v.op == 'const' or v.op == 'false' or entails(fs, mk_not(v)):
            continue
        c.ob('no start without need', 'start_manager: decision', entails(fs, mk_or([mk_not(v), ok_s])), g.ev[m].where, f'converged before the start: {show(v)[:150]}')


# ---------------------------------------------------------------- checkpoints
def due(kind, strict):
    f = T('attr', CC, f'checkpoint_{kind}_frequency')
    now, last = (NOW, sattr('last_time_checkpoint')) if kind == 'time' else (sattr('f_counter'), sattr('last_iter_checkpoint'))
    return rel(sub(now, last), f, '>' if strict else '>=')


def periodic(c, g, site, where):
    T1, I1 = due('time', False), due('iter', False)     # due in the wide sense
    T0, I0 = due('time', True), due('iter', True)       # due in the strict sense
    ctrl = truth(CC)
    ck = [n for n in N(g, kind='call') if g.ev[n].name == 'checkpoint' and rv(g.ev[n]) is SELF]

    def know(q, n):
        if g.st[n] is None:
            return q
        fs = facts_at(g, n)
        out = set(q)
        if decide(ctrl, fs) is True:
            out.add('control')
        elif decide(ctrl, fs) is False:
            out.add('off')
        for name, wide, strict in (('time', T1, T0), ('iter', I1, I0)):
            for f in (wide, strict):
                if name not in out and relevant(fs, f) and entails(ordered(fs, wide), wide):
                    out.add(name)
                if '-' + name not in out and relevant(fs, f) and entails(ordered(fs, strict), mk_not(strict)):
                    out.add('-' + name)
        return frozenset(out)

    def step(q, n, e):
        inside, k, done = q
        if e.kind == 'iter' and e.site == site:
            return (True, know(frozenset(), n), frozenset())
        if not inside:
            return q
        if e.kind == 'loopexit' and e.site == site or e.kind == 'break' and e.site == site:
            return (False, frozenset(), frozenset())
        k = know(k, n)
        if e.kind == 'store' and rv(e) is SELF and e.name in ('last_time_checkpoint', 'last_iter_checkpoint'):
            right = NOW if 'time' in e.name else sattr('f_counter')
            if norm_term(e.value) is not right:
                return '!', f'{e.name} becomes {show(norm_term(e.value))[:80]}'
            done = done | {e.name}
        if n in ck:
            if 'control' not in k:
                return '!', 'a checkpoint may be made without checkpointing being configured'
            if not k & {'time', 'iter'}:
                return '!', 'a checkpoint is made although none is due'
            if 'time' in k and 'last_time_checkpoint' not in done and 'iter' not in k or 'iter' in k and 'last_iter_checkpoint' not in done and 'time' not in k:
                return '!', 'the time (number of evaluations) of the last checkpoint is not updated: the checkpoint is repeated, also after a resume'
            return (True, k, done | {'made'})
        if e.kind == 'iterend' and e.site == site:
            if 'made' not in done and 'off' not in k and not {'-time', '-iter'} <= k:
                return '!', 'an iteration makes no checkpoint although one may be due'
            return (False, frozenset(), frozenset())
        return (inside, k, done)
    c.ob('periodic checkpoints', 'start_manager: made', any(n in g.reach(iter_segments(g, site)[0], blocked=set(N(g, lambda e: e.site == site and e.kind in ('loopexit', 'break')))) for n in ck), where,
         'no checkpoints are made during the optimization')
    run_automaton(c, 'periodic checkpoints', 'start_manager', g, (False, frozenset(), frozenset()), step, where)
    # the clock starts with the session
    heads = loops(g)[site]
    st = [n for n in stores(g, 'last_time_checkpoint') if n in g.reach([0], blocked=set(heads))]
    ok = bool(st) and not set(heads[:1]) & g.reach([0], blocked=set(st)) and all(nv(g.ev[n].value) in (NOW, sattr('t_start')) for n in st)
    c.ob('periodic checkpoints', 'start_manager: clock starts with the session', ok, where, 'the first checkpoint is not made one period after the start of the session')


def relevant(fs, f):
    at = {x for x in subterms(f) if x.op == 'attr' and x.args[1].startswith('checkpoint_')}
    return any(contains(z, lambda x: x in at) for z in fact_formulas(fs))


def at_conv(c, g, site, where):
    """Between the loop and the stopping of optimizers."""
    out = N(g, lambda e: e.site == site and e.kind in ('loopexit', 'break'))
    want = mk_and([truth(CC), truth(T('attr', CC, 'checkpoint_at_conv'))])
    once(c, g, out, lambda e: e.kind == 'call' and e.name == '_stop_all_children', want, 'start_manager: convergence', where)


def once(c, g, start, end, want, construct, where):
    start = set(start)

    def step(q, n, e):
        on, k, made = q
        if n in start:
            on = True
        if not on:
            return q
        if g.st[n] is not None:
            d = decide(want, facts_at(g, n))
            if d is None and entails(facts_at(g, n), mk_not(want)):
                d = False
            elif d is None and entails(facts_at(g, n), want):
                d = True
            k = d if d is not None else k
        if e.kind == 'call' and e.name == 'checkpoint' and rv(e) is SELF:
            if k is not True:
                return '!', 'a checkpoint is made without being configured'
            return (on, k, True)
        if end(e):
            if not made and k is not False:
                return '!', 'the configured checkpoint is not made'
            return (False, None, False)
        return (on, k, made)
    run_automaton(c, 'configured checkpoints', construct, g, (False, None, False), step, where)


def at_init(c):
    k = c.cls('GloMPOManager')
    g = c.run(c.meth(k, 'setup'), cls=k, inline=(), cap=8, exc='none', keep=ck_facts)
    where = f'{g.func.file}:{g.func.node.lineno}'
    # the state saved is complete: nothing is stored afterwards
    ck = [n for n in N(g, kind='call') if g.ev[n].name == 'checkpoint' and rv(g.ev[n]) is SELF]
    late = [n for n in N(g, kind='store') if rv(g.ev[n]) is SELF and n in g.reach(ck)]
    c.ob('configured checkpoints', 'setup: state is complete', not late, g.ev[late[0]].where if late else where, 'the state is still changed after the initial checkpoint')
    control_ = truth(CC)

    def val(n):
        h = g.st[n].heap.get((SELF, 'checkpoint_control'))
        return nv(h) if h is not None else CC

    def step(q, n, e):
        k, made, on = q
        if e.kind == 'store' and e.name == '_is_restart':
            on = True
        if g.st[n] is not None:
            v = val(n)
            want = mk_and([truth(v), truth(T('attr', v, 'checkpoint_at_init'))])
            fs = facts_at(g, n)
            if entails(fs, want):
                k = True
            elif entails(fs, mk_not(want)):
                k = False
        if n in ck:
            if k is not True:
                return '!', 'a checkpoint is made without being configured'
            return (k, True, on)
        if e.kind == 'exit' and e.name == 'return':
            if on and not made and k is not False:
                return '!', 'the configured checkpoint is not made'
        return (k, made, on)
    run_automaton(c, 'configured checkpoints', 'setup', g, (None, False, False), step, where)


def control(c):
    """The settings are kept as given."""
    g = c.graph('CheckpointingControl', '__init__', exc='none', inline=(), keep=lambda f: False, cap=8)
    for a in ('checkpoint_time_frequency', 'checkpoint_iter_frequency', 'checkpoint_at_init', 'checkpoint_at_conv'):
        st = stores(g, a)
        ok = bool(st) and all(nv(g.ev[n].value) is T('sym', a) or nv(g.ev[n].value) is truth(T('sym', a)) for n in st)
        c.ob('settings are kept', f'CheckpointingControl: {a}', ok, g.ev[st[0]].where if st else g.func.file, f'{a} is changed')
