"""Every call in the package which ends a process by force is found by a census; each one reached in the manager (helpers analysed inline)
is checked against the facts of all paths leading to it: the backend is processes; in the inspection of optimizers forced terminations are
enabled, the process is alive, and either the optimizer was not stopped and its last feedback, or it was stopped and its stop signal, is
longer ago than the configured silence; for a kill the aggressive mode is on and otherwise the stop signal is sent; at the end of a run the
process was asked to stop, waited for and is still alive. The times compared are kept up to date: the feedback of an optimizer is set to the
current time when it is started and whenever a signal or result of it is received. The settings are derived from the configured values."""
from sa.core import *
from sa.mgr import *

TECHNIQUE = 'call census, path facts at every forced termination, precedence automaton, transfer of settings'
ASSUMPTIONS = ['the backend of a run is decided once when it is set up or loaded']
PB = truth(sattr('proc_backend'))
AF = truth(sattr('allow_forced_terminations'))
LONG = sattr('_too_long')
NOW = T('call', 'time.time', None, (), (), None)
SITES = ('_inspect_children', '_start_hunt', '_is_manual_shutdowns', '_stop_all_children')


def check(c):
    now = c.expr('time()', 'GloMPOManager')
    n = census(c)
    for m in SITES:
        g = closing_graph(c, m)
        fs = [i for i in N(g) if is_force(g.ev[i])]
        c.count(f'forced terminations in {m}', len(fs))
        for i in fs:
            e = g.ev[i]
            x = force_of(e)
            f = facts_m(g, i)
            if f is None:
                continue
            w = e.where
            if x is None:
                c.ob('terminated process belongs to an optimizer', m, False, w, f'terminates {show(rv(e))}')
                continue
            p = describe_path(g, g.path([0], [i]), lambda z: mark(z) is not None or z.kind == 'iter')
            c.ob('only processes are terminated', m, entails(f, PB), w, 'a forced termination can be attempted on a thread', p)
            if m == '_inspect_children':
                inspect(c, m, g, i, x, f, now, w, p)
            elif m == '_stop_all_children':
                c.ob('only living processes are terminated', m, knows_alive(f, x), w, 'an optimizer which may be finished is terminated')
            else:
                c.ob('forced kills only if aggressive', m, entails(f, truth(sattr('aggressive_kill'))), w, 'an optimizer is terminated although aggressive killing may be off', p)
    c.need('forced terminations', n)
    kills(c)
    ending(c)
    feedback(c, now)
    settings(c)
    backend(c)


def knows_alive(f, x):
    return any(z.op != 'not' for z in alive_terms(f, x))


def inspect(c, m, g, i, x, f, now, w, p):
    c.ob('forced terminations are enabled', m, entails(f, AF), w, 'an optimizer is terminated although forced terminations may be disabled', p)
    c.ob('only living processes are terminated', m, knows_alive(f, x), w, 'an optimizer which may be finished is terminated')
    lf = T('idx', sattr('_last_feedback'), x)
    hv = T('idx', VICTIMS, x)
    hunted = T('in', x, VICTIMS)
    silent = mk_and([mk_not(hunted), mk_or([rel(sub(now, lf), LONG, '>'), rel(const(0), LONG, '>')])])
    ignored = mk_and([hunted, rel(sub(now, hv), LONG, '>')])
    spec = mk_or([silent, ignored])
    c.ob('silence exceeded', m, entails(ordered(f, spec), spec), w,
         f'terminated without knowing that the silence since the last feedback, or the stop signal, was exceeded: {[show(z) for z in fact_formulas(f)]}'[:600], p)


def census(c):
    n = 0
    k = c.cls('GloMPOManager')
    v = vocab()
    for f in c.p.all_funcs():
        q = f.qual
        for x in ast.walk(f.node):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('terminate', 'kill', 'killpg', '_exit', 'abort'):
                n += 1
                name = f.node.name
                ok = f.cls is not None and f.cls.name == 'GloMPOManager' and x.func.attr in ('terminate', 'kill') and (name in SITES + ('_shutdown_job',) or name not in v)
                c.ob('processes are only terminated by the manager where allowed', q.split(':')[-1], ok, f'{f.file}:{x.lineno}', f'{q} ends a process by force')
    return n


def kills(c):
    """A kill uses force only in aggressive mode with processes, and the stop signal otherwise."""
    for m in ('_start_hunt', '_is_manual_shutdowns'):
        g = closing_graph(c, m)

        def on_end(ms, n, e, x, m=m):
            kinds = {z[0] for z in ms}
            if 'victim' in kinds and not kinds & {'stop', 'force'} and ('failed', 'send') not in ms:
                return 'a killed optimizer gets neither the stop signal nor is it terminated'
            return None
        segments(c, g, 'killed optimizers are stopped', m, on_end)


def ending(c):
    """At the end of a run: asked to stop, waited for, still alive."""
    m = '_stop_all_children'
    g = closing_graph(c, m)
    sends = [n for n in N(g) if is_send(g.ev[n])]
    asked = enclosing(g, sends)
    c.ob('optimizers are asked to stop', m, bool(sends), g.func.file, 'no stop signal is sent at the end of a run')
    closers = {s for s in loops(g) if s not in asked}

    def step(q, n, e):
        told, joined = q
        if e.kind == 'loopexit' and e.site in asked or e.kind == 'catch' and not told:
            return (True, joined)
        if e.kind == 'iter':
            return (told, frozenset())
        if e.kind == 'call' and e.name == 'join' and part(rv(e), 'process') is not None:
            return (told, joined - {('alive', part(rv(e), 'process'))} | {part(rv(e), 'process')})
        if e.kind == 'call' and e.name == 'is_alive' and part(rv(e), 'process') in joined:
            return (told, joined | {('alive', part(rv(e), 'process'))})
        if is_force(e):
            if not told:
                return '!', 'a process is terminated before it was asked to stop'
            if force_of(e) not in joined:
                return '!', 'a process is terminated without waiting for it'
            if ('alive', force_of(e)) not in joined:
                return '!', 'a process is terminated without knowing that it is still alive after waiting'
        return q
    run_automaton(c, 'force is the last resort', m, g, (False, frozenset()), step)
    for n in sends:
        e = g.ev[n]
        c.ob('stop is requested', m, signals(e) == {1}, e.where, f'the message sent is {show(av(e, 0))}')


def feedback(c, now):
    """The last feedback is refreshed when an optimizer starts and when something is received from it."""
    k = c.cls('GloMPOManager')
    lf = sattr('_last_feedback')

    def sets(g):
        out = []
        for n in N(g, kind='storeidx'):
            e = g.ev[n]
            if rv(e) is lf:
                out.append(n)
                v = norm_term(e.value)
                c.ob('feedback is the current time', g.func.name, v is now, e.where, f'the last feedback becomes {show(v)}')
        return out
    g = c.graph(k, '_start_new_job', inline=())
    st = calls(g, 'start')
    c.ob('optimizers are started', '_start_new_job', bool(st), g.func.file, 'nothing is started')
    miss = not_followed(g, st, sets(g), exit_nodes(g, ('return',)))
    c.ob('feedback is set at the start', '_start_new_job', not miss, g.func.file, 'an optimizer starts without feedback time', describe_path(g, miss[0][1]) if miss else None)
    g = c.graph(k, 'start_manager', cap=8, keep=lambda f: False)
    st = [n for n in calls(g, 'start') if part(rv(g.ev[n]), 'process') is not None]
    c.need('restarts of optimizers', len(st))
    ss = sets(g)
    its = N(g, kind='iterend')
    miss = not_followed(g, st, ss, its + exit_nodes(g, ('return',)))
    c.ob('feedback is set at the restart', 'start_manager', not miss, g.func.file, 'a restarted optimizer has no feedback time')
    g = c.graph(k, '_check_signals', inline=())
    rc = [n for n in calls(g, 'recv')]
    miss = not_followed(g, rc, sets(g), exit_nodes(g, ('return',)))
    c.ob('feedback is refreshed by signals', '_check_signals', not miss, g.func.file, 'a signal is received without refreshing the feedback')
    g = c.graph(k, '_process_results', inline=(), keep=lambda f: False)
    put = calls(g, 'put_iteration')
    ss = sets(g)
    res = {av(g.ev[n], 0) for n in put}
    ok = []
    for n in ss:
        x = norm_term(g.ev[n].args[0])
        if any(x is T('attr', r, 'opt_id') for r in res):
            ok.append(n)
    sites = enclosing(g, put)

    def step(q, n, e):
        if e.kind == 'iter' and e.site in sites:
            return frozenset()
        if n in okset:
            return q | {'fed'}
        if n in putset:
            return q | {'put'}
        if e.kind == 'iterend' and e.site in sites and q == {'put'}:
            return '!', 'a result is recorded without refreshing the feedback'
        return q
    okset, putset = set(ok), set(put)
    run_automaton(c, 'feedback is refreshed by results', '_process_results', g, frozenset(), step)


def settings(c):
    k = c.cls('GloMPOManager')
    for m in ('setup', 'load_checkpoint'):
        f = c.meth(k, m)
        par = {a.arg for a in f.node.args.args + f.node.args.kwonlyargs}
        src = T('sym', 'force_terminations_after')
        n = 0
        for x in ast.walk(f.node):
            if isinstance(x, ast.Assign):
                for t in x.targets:
                    if isinstance(t, ast.Attribute) and t.attr in ('_too_long', 'allow_forced_terminations'):
                        n += 1
                        try:
                            v = c.expr(ast.unparse(x.value), k)
                        except Exception:
                            continue
                        v = rebuild(v, lambda y: src if y.op == 'idx' and y.args[1] is const('force_terminations_after') else y)
                        if t.attr == '_too_long':
                            ok = v is src or contains(v, lambda y: y is src)
                        else:
                            fv = truth(v)
                            ok = entails(ordered({}, fv, rel(src, const(0), '>')), iff(fv, rel(src, const(0), '>'))) or entails(ordered({}, fv), iff(fv, rel(sattr('_too_long'), const(0), '>')))
                        c.ob('configured silence', f'{m}: {t.attr}', ok, f'{f.file}:{x.lineno}', f'{t.attr} becomes {show(v)}')


def backend(c):
    """Optimizers are processes exactly if the backend says so."""
    k = c.cls('GloMPOManager')
    for m in ('_start_new_job', 'load_checkpoint'):
        g = c.graph(k, m, inline=(), cap=8, keep=lambda f: contains(f, lambda x: x is sattr('proc_backend'))) if m == 'load_checkpoint' else c.graph(k, m, inline=())
        n = 0
        for i in N(g, kind='call'):
            e = g.ev[i]
            nm = e.name.split('.')[-1]
            if nm == 'Process' or nm == 'CustomThread':
                n += 1
                want = PB if nm == 'Process' else mk_not(PB)
                c.ob('kind of the backend', m, entails(facts_at(g, i), want), e.where, f'{nm} is used although the backend may be {"threads" if nm == "Process" else "processes"}')
        c.need(f'{m}: creation of processes and threads', n, 2)
