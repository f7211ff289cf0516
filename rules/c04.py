"""The hunt is analysed down to its primitive effects (recording a victim, closing, signalling, terminating, logging an end). On every path
of an iteration over the optimizers the first of these effects happens under facts which say that this optimizer is not closed, has
evaluations, is not the hunter, and that the configured killing conditions were true for (log, hunter, this optimizer); and every
iteration which ends without evaluating the conditions has facts excluding one of the requirements, every one in which they were true has
killed. In the processing of results a hunt starts exactly when the holder of the refreshed result exists, conditions are configured, and
the number of evaluations since the last hunt has reached the frequency; the hunter is that holder; every hunt stores the current count.
No other method starts hunts."""
from sa.core import *
from sa.mgr import *

TECHNIQUE = 'path facts at the effects of a kill, converse automaton over iterations, decision equivalence of starting a hunt'
ASSUMPTIONS = ['an optimizer is running exactly as long as it has not been closed (C05, C06)', 'identities of optimizers are positive (C05)']
KC = sattr('killing_conditions')


def effect(e):
    """Optimizer a primitive effect of a kill concerns, or None."""
    if is_victim(e):
        return norm_term(e.args[0])
    if is_bury(e):
        return bury_of(e)
    if is_send(e):
        return part(rv(e), 'signal_pipe')
    if is_force(e):
        return force_of(e)
    if is_meta(e):
        return meta(e)[0]
    if e.kind == 'call' and e.name in ('_shutdown_job', '_send_signal'):
        return av(e, 0)
    return None


def check(c):
    hunt(c)
    start(c)
    others(c)


def hunt(c):
    g = c.graph('GloMPOManager', '_start_hunt', inline={'_shutdown_job', '_send_signal'}, hold={'has_iter_history', 'killing_conditions'})
    where = f'{g.func.file}:{g.func.node.lineno}'
    hunter = T('sym', g.func.node.args.args[1].arg)
    eff = {n: effect(g.ev[n]) for n in N(g) if effect(g.ev[n]) is not None}
    cond = [n for n in N(g, kind='call') if asks(g.ev[n])]
    c.ob('conditions are evaluated', '_start_hunt', bool(cond), where, 'the killing conditions are never evaluated')
    for n in cond:
        e = g.ev[n]
        ok = len(e.args) == 3 and av(e, 0) is LOG and av(e, 1) is hunter and from_packs(av(e, 2))
        c.ob('conditions see log, hunter and victim', '_start_hunt', ok, e.where, f'evaluated with {[show(norm_term(x)) for x in e.args]}')
    sites = enclosing(g, list(eff) + cond)
    for s in sites:
        for h in loops(g)[s]:
            t = nv(g.ev[h].target)
            c.ob('all optimizers are considered', '_start_hunt', everyone(t) or local_list(t), g.ev[h].where, f'the hunt goes through {show(t)[:200]}')
    outer = {s for s in sites if all(everyone(nv(g.ev[h].target)) for h in loops(g)[s])}

    def true_for(x):
        return truth(T('call', 'killing_conditions', SELF, (LOG, hunter, x), (), None))

    def required(x):
        return [('is not closed', mk_not(buried(x))), ('has evaluations', truth(T('call', 'has_iter_history', LOG, (x,), (), None))),
                ('is not the hunter', mk_not(rel(x, hunter, '==')))]

    def met(f, x):
        """Requirement not known to hold."""
        for name, q in required(x):
            if not holds(f, q):
                return name
        if not any(contains(z, lambda y: kc_call(y, hunter, x)) and z.op != 'not' for z in fact_formulas(f)):
            return 'satisfies the killing conditions'
        return None

    def step(q, n, e):
        asked, killed, full = q
        if e.kind == 'iter' and e.site in outer:
            return (None, frozenset(), full)
        if n in eff:
            x = eff[n]
            if x not in killed:
                miss = met(facts_at(g, n), x)
                if miss:
                    return '!', f'an optimizer can be killed without knowing that it {miss}'
            return (asked, killed | {x}, full)
        if n in condset:
            return (av(e, 2), killed, full)
        if e.kind in ('iterend', 'break') and e.site in outer:
            if e.kind == 'break':
                return '!', 'the hunt ends before all optimizers were considered'
            f = facts_at(g, n)
            x = ident(g, n, e)
            if asked is None and x is not None and all(satisfiable(f, r) for _, r in required(x)) and \
                    satisfiable_all(f, [r for _, r in required(x)]):
                return '!', 'an eligible optimizer is passed over'
            if asked is not None and not killed and satisfiable_all(f, [r for _, r in required(asked)]) and not any(z.op == 'not' and contains(z, lambda y: kc_call(y, hunter, asked)) for z in fact_formulas(f)):
                return '!', 'an optimizer which satisfies the conditions is not killed'
            return (None, frozenset(), full)
        if e.kind == 'loopexit' and e.site in outer:
            return (None, frozenset(), True)
        if e.kind == 'exit' and e.name == 'return' and not full:
            return '!', 'optimizers are not considered'
        return q
    condset = set(cond)
    run_automaton(c, 'kills of a hunt', '_start_hunt', g, (None, frozenset(), False), step)
    c.need('effects of a kill', len(eff))
    # every kill effect is a victim recorded and a stop sent
    vic = {n for n in eff if is_victim(g.ev[n])}
    c.ob('victims are recorded', '_start_hunt', bool(vic), where, 'no victim is ever recorded')
    stop = [n for n in eff if is_force(g.ev[n]) or is_send(g.ev[n])]
    c.ob('victims are stopped', '_start_hunt', bool(stop), where, 'no victim is ever told to stop')
    for n in stop:
        e = g.ev[n]
        if is_send(e):
            c.ob('stop signal', '_start_hunt', signals(e) == {1}, e.where, f'the signal sent is {show(av(e, 0))}')
    # returned set and bookkeeping
    st = stores(g, 'last_hunt')
    for kind, n, v, s in g.exits:
        if kind == 'return':
            c.ob('time of the hunt is kept', '_start_hunt', final(s, 'last_hunt') is sattr('f_counter'), where,
                 f'after a hunt the evaluation of the last hunt is {show(final(s, "last_hunt") or sattr("last_hunt"))}')
    c.need('stores of the last hunt', len(st))


def kc_call(y, hunter, x):
    return y.op == 'call' and y.args[0] == 'killing_conditions' and y.args[2] == (LOG, hunter, x)


def asks(e):
    return e.name == 'killing_conditions' and rv(e) is SELF or rv(e) is KC and e.name in ('__call__', '')


def from_packs(t):
    return t is not None and (t.op == 'elem' and everyone(t.args[0]) or t.op == 'elem' and local_list(t.args[0]))


def local_list(t):
    return t.op in ('comp', 'new')


def ident(g, n, e):
    ts = [x for h in loops(g)[e.site] for x in [nv(g.ev[h].target)]]
    return T('elem', ts[0] if ts and ts[0].op == 'comp' else PACKS, 0)


def holds(f, q):
    if entails(f, q):
        return True
    return False


def satisfiable_all(f, qs):
    return satisfiable(f, mk_and(list(qs)))


def with_(f, q):
    r = assume(q, True, f)
    return r[0] if r else f


def relevant(f):
    return contains(f, lambda x: x is KC or x.op == 'attr' and x.args[1] in ('last_hunt', 'hunt_frequency', 'origin') or
                    x.op == 'call' and x.args[0] in ('_update_best_result', 'get_best_iter'))


def start(c):
    k = c.cls('GloMPOManager')
    g = c.graph(k, '_process_results', inline=(), keep=relevant)
    where = f'{g.func.file}:{g.func.node.lineno}'
    hs = calls(g, '_start_hunt')
    c.ob('hunts are started', '_process_results', bool(hs), where, 'no hunt is ever started')
    best = T('call', '_update_best_result', SELF, (), (), None)
    org = T('attr', best, 'origin')
    bid = T('idx', org, const('opt_id'))
    positive = rel(bid, const(0), '>=')
    since = sub(sattr('f_counter'), sattr('last_hunt'))
    spec = [('the holder of the best result exists', rel(bid, const(0), '>')), ('killing conditions are configured', truth(KC)),
            ('the hunting frequency has been reached', rel(since, sattr('hunt_frequency'), '>='))]
    full = mk_and([f for _, f in spec])
    for n in hs:
        e = g.ev[n]
        f = with_(ordered(map_facts(facts_at(g, n), unget), full), positive)
        for name, q in spec:
            c.ob('hunts start only when', name, entails(f, q), e.where, f'a hunt can start although not {name}', describe_path(g, g.path([0], [n]), lambda e: e.kind in ('store', 'storeidx')))
        h = av(e, 0) or av(e, None, 'hunter_id')
        h = unget(h) if h is not None else h
        c.ob('the holder of the best result hunts', '_process_results', h is bid, e.where, f'the hunter is {show(h) if h else None}')
    hset = set(hs)

    # converse: after every refreshed result a hunt is started if due
    def step(q, n, e):
        if e.kind == 'store' and e.name == 'result' and nv(e.value) is best:
            return 'due'
        if n in hset:
            return None if q else ('!', 'a hunt is started without a refreshed result')
        if q and (e.kind in ('iterend', 'break') and e.site in inner or e.kind == 'exit' and e.name == 'return'):
            f = ordered(map_facts(facts_at(g, n), unget), full)
            if satisfiable(f, mk_and([full, rel(bid, const(1), '>='), truth(org), mk_not(T('is', org, NONE))])):
                return '!', 'a hunt which is due is not started'
            return None
        return q
    st = [n for n in stores(g, 'result') if nv(g.ev[n].value) is best]
    c.ob('result is refreshed', '_process_results', bool(st), where, 'the result is never refreshed')
    inner = enclosing(g, st)
    run_automaton(c, 'due hunts are started', '_process_results', g, None, step)


def others(c):
    k = c.cls('GloMPOManager')
    v = vocab()
    for name, f in sorted(k.methods.items()):
        if name not in v:
            continue
        for x in ast.walk(f.node):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == '_start_hunt':
                c.ob('hunts are started by the processing of results', name, name == '_process_results', f'{f.file}:{x.lineno}', f'{name} starts a hunt')
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == '_shutdown_job':
                c.ob('optimizers are killed by hunts and user requests', name, name in ('_start_hunt', '_is_manual_shutdowns'), f'{f.file}:{x.lineno}', f'{name} kills optimizers')
            tgt = x.targets if isinstance(x, ast.Assign) else [x.target] if isinstance(x, ast.AugAssign) else []
            for t in tgt:
                for y in ast.walk(t):
                    if isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store) and y.attr == 'last_hunt':
                        c.ob('time of the hunt', name, name in ('_start_hunt', '__init__', 'setup'), f'{f.file}:{x.lineno}', f'{name} changes the evaluation of the last hunt')
