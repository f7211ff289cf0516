"""For each bundled optimizer with a loop of its own the outermost loops in which the task is evaluated are found, with helpers followed. An
automaton runs through every path: an iteration which is not known to run without a manager reads the signals and waits at the pause flag
before the next begins; what a stop request sets (read from the class's callstop) is tested between reading the signals and the next
evaluation, and nothing takes it back in between; a path through a managed minimization sends exactly one convergence message. Everything
which talks to the manager is reached only where the facts show that there is one. Nevergrad's iterations are calls of a registered object,
for which the same is decided."""
import ast

from sa.core import *
from sa.mgr import SELF

TECHNIQUE = 'typestate automata over all paths of the optimizer loops with facts (must-occur per iteration, exactly-once, guarded use)'
ASSUMPTIONS = ['CMA stops when callbackstop is set, Nevergrad when its budget has been asked for', 'methods of SciPy cannot be interrupted between iterations',
               'a results queue exists exactly when there is a manager']
MANAGED = truth(sattr('_results_queue'))
TALK = {'check_messages', 'message_manager'}
LINKS = {'_signal_pipe', '_pause_signal', '_results_queue'}


def check(c):
    n = 0
    for k in c.p.subclasses(c.cls('BaseOptimizer')):
        g, stop = graph(c, k)
        n += bool(looping(c, k, g, stop))
        said = guarded(c, k.name, g, lambda fs: entails(fs, MANAGED))
        if k.name != 'Nevergrad':
            c.ob('alone, no manager is contacted', k.name, said > 0, f'{g.func.file}:{g.func.node.lineno}', 'nothing is ever said to the manager')
            reported(c, k, g)
    nevergrad(c)
    c.need('optimizers with loops', n, 3)


def graph(c, k):
    stop = stops(c, k)
    names = {a for b, a, v in stop}

    def keep(f):
        return contains(f, lambda x: x.op == 'attr' and (x.args[1] in names or x.args[1] == '_results_queue') or x.op == 'call' and x.args[0] == 'stop')
    inl = {n for b in c.p.mro(k) if hasattr(b, 'methods') for n in b.methods} - TALK - {'callstop', 'minimize', '_minimize', '__init__', 'checkpoint_save'}
    return c.graph(k, 'minimize', exc='none', inline=tuple(sorted(inl)), opaque=('check_messages', 'message_manager', 'callstop'), entry_cap=3, keep=keep,
                   clobber={'check_messages': names | {'stop()'}, 'callstop': names | {'stop()'}}), stop


def stops(c, k):
    """(object, attribute, value) which a stop request sets, on every path."""
    f = c.meth(k, 'callstop')
    a = f.node.args
    given = {x.arg: const(d.value) for x, d in zip(a.args[len(a.args) - len(a.defaults):], a.defaults) if isinstance(d, ast.Constant)}
    g = c.run(f, cls=k, args=given, inline='*', exc='none')
    where = f'{f.file}:{f.node.lineno}'
    every = None
    for kind, n, v, st in g.exits:
        if kind == 'return':
            now = {(nv(key[0]), key[1], nv(val)) for key, val in st.heap.items() if len(key) == 2 and decide(truth(nv(val)), norm_facts(st.facts)) is True}
            every = now if every is None else every & now
    every = {x for x in every or () if x[1] not in ('result', 'success')}
    if k.name != 'ScipyOptimizeWrapper':
        c.ob('a request to stop is remembered', f'{k.name}.callstop', bool(every), where, 'a request to stop leaves no trace')
    return every


def evaluations(c, k, g):
    fn = T('sym', g.func.node.args.args[1].arg)
    wrapped = {nv(e.value) for e in g.ev if e is not None and e.kind == 'store' and contains(nv(e.value), lambda x: x is fn)}
    its = {T('attr', SELF, e.name) for e in g.ev if e is not None and e.kind == 'store' and nv(e.value) in wrapped and rv(e) is SELF}

    def hit(e):
        if e.kind != 'call' or e.name in ('partial', 'functools.partial'):
            return False
        own = [rv(e)] if e.recv is not None and e.name == '__call__' else []
        return e.name == fn.args[0] and e.recv is None or any(t is not None and (t is fn or t in its or t in wrapped) for t in own + [nv(x) for x in e.args] + [rv(e)])
    return set(N(g, hit))


def looping(c, k, g, stop):
    evals = evaluations(c, k, g)
    where = f'{g.func.file}:{g.func.node.lineno}'
    c.ob('the task is minimized', k.name, bool(evals), where, 'the task is never evaluated')
    sites = enclosing(g, evals)
    outer = set()
    for s in sites:
        its = N(g, lambda e: e.site == s, 'iter')
        if not enclosing(g, its) - {s}:
            outer.add(s)
    outer = {s for s in outer if any(g.ev[n].target is None or True for n in N(g, lambda e: e.site == s, 'iter'))}
    if not outer or k.name == 'Nevergrad':
        return 0
    checks = set(N(g, lambda e: e.kind == 'call' and e.name == 'check_messages' and rv(e) is SELF))
    waits = set(N(g, lambda e: e.kind == 'call' and e.name == 'wait' and rv(e) is sattr('_pause_signal')))
    alone = {}

    def is_alone(n):
        if n not in alone:
            alone[n] = entails(facts_at(g, n), mk_not(MANAGED))
        return alone[n]
    for s in outer:
        def step(q, n, e):
            if e.site == s and e.kind in ('loophead', 'iterend') and q is not None:
                if not all(q) and not is_alone(n):
                    return '!', 'an iteration ends without ' + ('reading the signals' if not q[0] else 'waiting at the pause flag')
                return None
            if e.site == s and e.kind == 'iter':
                return False, False
            if e.site == s and e.kind in ('break', 'loopexit'):
                return None
            if q is None:
                return q
            if n in checks:
                q = (True, q[1])
            if n in waits:
                q = (q[0], True)
            if is_alone(n):
                q = (True, True)
            return q
        run_automaton(c, 'every iteration reads the signals and can be paused', k.name, g, None, step)
    stopped(c, k, g, stop, evals, checks, is_alone)
    return len(outer)


def stopped(c, k, g, stop, evals, checks, is_alone):
    tests = {}

    def tested(n):
        if n not in tests:
            fs = facts_at(g, n)
            ok = False
            for base, attr, val in stop:
                a = T('attr', base, attr)
                ok = ok or entails(fs, mk_not(truth(a))) or entails(fs, mk_not(rel(a, val, '==')))
                if base.op == 'attr' and base.args[1] == 'es':
                    ok = ok or any(entails(fs, mk_not(y)) for z in fact_formulas(fs) for y in subterms(z) if y.op == 'truth' and y.args[0].op == 'call' and
                                   y.args[0].args[0] == 'stop' and y.args[0].args[1] is base)
            tests[n] = ok
        return tests[n]
    pairs = {(b, a) for b, a, v in stop}

    def step(q, n, e):
        if n in checks:
            return 'asked'
        if q != 'asked':
            return q
        if n in evals:
            return '!', 'the task is evaluated again without testing whether a stop was requested'
        if e.kind == 'store' and (rv(e), e.name) in pairs and decide(truth(nv(e.value)), facts_at(g, n)) is not True:
            return '!', f'{show(rv(e))}.{e.name} is overwritten before it is known whether a stop was requested'
        if tested(n):
            return 'go'
        return q
    run_automaton(c, 'the loop ends once a stop is requested', k.name, g, 'go', step)


def guarded(c, name, g, managed):
    total = 0
    for n in N(g, lambda e: e.kind == 'call'):
        e = g.ev[n]
        r = rv(e)
        if e.name in TALK and e.recv is not None or r is not None and r.op == 'attr' and r.args[1] in LINKS:
            total += 1
            c.ob('alone, no manager is contacted', f'{name}: {e.name}', managed(facts_at(g, n)), e.where, f'{show(r)[:60]}.{e.name} is used although there may be no manager')
    return total


def reported(c, k, g):
    sends = set(N(g, lambda e: e.kind == 'call' and e.name == 'message_manager'))
    where = f'{g.func.file}:{g.func.node.lineno}'
    alone = {}

    def is_alone(n):
        if n not in alone:
            alone[n] = entails(facts_at(g, n), mk_not(MANAGED))
        return alone[n]

    def step(q, n, e):
        if n in sends and av(e, 0, 'key') is const(0):
            return ('!', 'convergence is reported twice') if q == 'sent' else 'sent'
        if q is None and is_alone(n):
            return 'alone'
        return q
    at = run_automaton(c, 'convergence is reported once', k.name, g, None, step, keep=lambda e: e.name == 'message_manager')
    for kind, n, v, st in g.exits:
        if kind == 'return':
            for q in at.get(n, ()):
                ok = q is not None or entails(norm_facts(st.facts), mk_not(MANAGED))
                c.ob('convergence is reported once', k.name, ok, where, 'a minimization run by a manager can end without a report')


def nevergrad(c):
    k = c.cls('Nevergrad')
    w = c.cls('_NevergradCallbacksWrapper')
    parent = sattr('parent')
    attr = lambda x: T('attr', parent, x)
    stop = [(a, v) for b, a, v in stops(c, k) if b is SELF]
    managed = truth(attr('_results_queue'))
    m = '_NevergradCallbacksWrapper.__call__'

    g = c.graph(w, '__call__', exc='none', inline='*', opaque=('check_messages', 'message_manager', 'callstop'), keep=lambda f: True,
                clobber={'check_messages': {a for a, v in stop}, 'callstop': {a for a, v in stop}})
    where = f'{g.func.file}:{g.func.node.lineno}'
    guarded(c, m, g, lambda fs: entails(fs, managed))
    memo = {}

    def facts(n):
        if n not in memo:
            fs = facts_at(g, n)
            memo[n] = (entails(fs, mk_not(managed)), any(entails(fs, truth(attr(a))) for a, v in stop), any(entails(fs, mk_not(truth(attr(a)))) for a, v in stop))
        return memo[n]

    def step(q, n, e):
        entry, read, waited, asked, ended, sent, alone = q
        no_mgr, is_stop, not_stop = facts(n)
        alone = alone or no_mgr
        if entry is None and is_stop:
            entry = 'stopped'
        if entry is None and not_stop:
            entry = 'running'
        if e.kind == 'call' and e.name == 'check_messages':
            read, asked = True, 'unknown'
        elif asked == 'unknown':
            asked = 'stop' if is_stop else 'no' if not_stop else asked
        if e.kind == 'call' and e.name == 'wait' and rv(e) is attr('_pause_signal'):
            waited = True
        if e.kind == 'store' and e.name == '_num_ask':
            ended = True
        if e.kind == 'call' and e.name == 'message_manager' and av(e, 0, 'key') is const(0):
            if sent:
                return '!', 'convergence is reported twice'
            if entry != 'running':
                return '!', 'convergence can be reported again by a later call'
            sent = True
        if e.kind == 'store' and rv(e) is parent and (e.name in [a for a, v in stop]):
            t = decide(truth(nv(e.value)), facts_at(g, n))
            if t is not True:
                return '!', f'parent.{e.name} is taken back'
            sent = 'marked' if sent is True else 'mark' if sent is False else sent
        return entry, read, waited, asked, ended, sent, alone

    def start(q, n, e):
        entry, read, waited, asked, ended, sent, alone = q
        if e.kind == 'call' and e.name == 'message_manager' and sent in ('mark',):
            q = entry, read, waited, asked, ended, False, alone
            r = step(q, n, e)
            return r[:5] + ('marked',) + r[6:] if len(r) == 7 else r
        return step(q, n, e)
    at = run_automaton(c, 'every iteration reads the signals and can be paused', m, g, (None, False, False, None, False, False, False), start)
    for kind, n, v, st in g.exits:
        if kind != 'return':
            continue
        fs = norm_facts(st.facts)
        for q in at.get(n, ()):
            entry, read, waited, asked, ended, sent, alone = q
            if entry == 'stopped' or alone or entails(fs, mk_not(managed)) or entry is None and any(entails(fs, truth(attr(a))) for a, v in stop):
                continue
            c.ob('every iteration reads the signals and can be paused', m, read and waited, where,
                 'an iteration ends without ' + ('reading the signals' if not read else 'waiting at the pause flag'))
            if asked == 'unknown':
                asked = 'stop' if any(entails(fs, truth(attr(a))) for a, v in stop) else 'no' if any(entails(fs, mk_not(truth(attr(a)))) for a, v in stop) else asked
            if not ended:
                c.ob('the loop ends once a stop is requested', m, asked == 'no' or not read, where, 'a stop may have been requested, but the optimizer is not ended')
            c.ob('convergence is reported once', m, (sent == 'marked') == ended and sent in ('marked', False), where,
                 'the optimizer is ended without a report, or reports without being ended and marked as stopped')
    g = c.graph(k, 'minimize', exc='none', inline='*', opaque=('check_messages', 'message_manager', 'callstop'))
    runs = N(g, lambda e: e.kind == 'call' and e.name == 'minimize' and rv(e) is not SELF)
    c.need('runs of Nevergrad', len(runs))

    def step3(q, n, e):
        if e.kind == 'call' and e.name == 'register_callback' and av(e, 0) is const('tell'):
            t = av(e, 1)
            ours = t is sattr('ng_callbacks') or t.op == 'inst' and t.args[0].endswith('_NevergradCallbacksWrapper')
            return True if ours else q
        if n in runs and not q:
            return '!', 'Nevergrad runs without the object which reads the signals'
        return q
    run_automaton(c, 'every iteration reads the signals and can be paused', 'Nevergrad.minimize', g, False, step3)
    for n in N(g, lambda e: e.kind == 'call' and e.name == 'register_callback'):
        t = av(g.ev[n], 1)
        if t is not None and t.op == 'inst':
            c.ob('every iteration reads the signals and can be paused', 'Nevergrad: parent', bool(t.args[1]) and t.args[1][0] is SELF, g.ev[n].where, 'the object does not know its optimizer')
