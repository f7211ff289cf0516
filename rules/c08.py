"""The whole run is analysed with an exceptional edge (an error and an interrupt) at every call inside its try statements. An automaton
follows each path from the entry of the optimization loop: after at most one fault anywhere, all optimizers must have been stopped, then
the summary saved and the log closed, once, before the run returns; no path raises. The reason given to the summary, the stopping of
optimizers and the result must tell an interrupt and an error from a regular end. The stopping itself is analysed path by path: every
living optimizer is asked to stop before the queue is purged, the queue is purged before any is waited for, every living one is waited for
with a time limit, failures of asking and purging prevent neither, and processes which do not react are terminated."""
from sa.core import *
from sa.mgr import *

TECHNIQUE = 'single-fault exceptional control-flow graph with a must-follow automaton; path facts in the stopping of optimizers'
ASSUMPTIONS = ['logging and warnings do not raise', 'at most one fault between the entry of the loop and the end of the run; faults of the clean-up itself are not covered']
RES = sattr('result')


def check(c):
    run(c)
    stop(c)


def is_close(e):
    return e.kind == 'call' and e.name == 'close' and rv(e) is LOG


def run(c):
    k = c.cls('GloMPOManager')
    f = c.meth(k, 'start_manager')
    where = f'{f.file}:{f.node.lineno}'
    g = c.run(f, cls=k, inline=(), cap=10, exc='try', keep=lambda f: False)
    work = N(g, lambda e: e.name == '_process_results', 'call')
    main = set()
    for s in enclosing(g, work):
        main |= {n for n in loops(g)[s]}
    c.ob('optimization loop', 'start_manager', bool(main), where, 'results are not processed in a loop')
    k = {'normal': 0, 'error': 0, 'interrupt': 0}

    def step(q, n, e):
        """(entered, fault, stopped, saved, closed)"""
        ent, fault, stopped, saved, closed = q
        if n in main or e.kind == 'call' and e.name == 'start' and part(rv(e), 'process') is not None:
            return (True, fault, stopped, saved, closed)
        if not ent:
            return q
        if e.kind == 'exc' or e.kind == 'raise':
            if fault:
                return []
            return (ent, 'interrupt' if e.name == 'KeyboardInterrupt' else 'error', stopped, saved, closed)
        if e.kind == 'call' and e.name == '_stop_all_children':
            r = av(e, 0, 'crash_reason')
            if fault and (r is None or r is NONE or r.op == 'const' and not r.args[0]):
                return '!', f'after an {fault} the optimizers are stopped as if the run had converged'
            if not fault and r is not None and r is not NONE:
                return '!', 'after a regular end the optimizers are stopped as if the run had crashed'
            return (ent, fault, True, saved, closed)
        if e.kind == 'call' and e.name == '_save_log':
            if not stopped:
                return '!', f'the summary is saved before the optimizers are stopped ({fault or "regular end"})'
            if closed:
                return '!', 'the summary is saved when the log is already closed'
            k[fault or 'normal'] += 1
            why, exc = av(e, 1, 'reason'), av(e, 2, 'caught_exception')
            if av(e, 4, 'summary_files') is not sattr('summary_files'):
                return '!', 'not the requested summary is saved'
            m = told(why, exc, fault)
            return ('!', m) if m else (ent, fault, stopped, why, closed)
        if e.kind == 'store' and e.name == 'result' and rv(e) is SELF and saved:
            m = complete(norm_term(e.value), saved)
            return ('!', m) if m else (ent, fault, stopped, saved, closed)
        if is_close(e):
            if not stopped or not saved:
                return '!', 'the log is closed before the optimizers are stopped and the summary is saved'
            return (ent, fault, stopped, saved, True)
        if closed and e.kind == 'call' and rv(e) is LOG:
            return '!', f'the log is used ({e.name}) after it was closed'
        if e.kind == 'exit':
            if e.name == 'raise':
                return '!', f'an {fault or "error"} leaves the run'
            for ok, m in ((stopped, 'without stopping the optimizers'), (saved, 'without saving the summary'), (closed, 'without closing the log')):
                if not ok:
                    return '!', f'the run ends ({fault or "regular end"}) {m}'
        return q
    run_automaton(c, 'every end of a run is cleaned up', 'start_manager', g, (False, None, False, None, False), step, where)
    for name, n in k.items():
        c.ob('every kind of end is analysed', f'start_manager: {name}', n > 0, where, f'no end of a run by {name} reaches the summary')
    ent = g.reach([n for n in main])
    last = N(g, lambda e: e.name == 'result' and rv(e) is SELF and 'end_cond' in show(nv(e.value)), 'store')
    c.ob('result carries the reason', 'start_manager', bool(last) and not not_preceded_from(g, main, last, [n for kk, n, v, s in g.exits if n in ent]), where, 'a run ends without recording its reason in the result')
    for kk, n, v, s in g.exits:
        if kk == 'return' and n in ent:
            v = norm_term(v)
            ok = v is RES or v is nv(s.heap.get((SELF, 'result'), RES))
            c.ob('result is returned', 'start_manager', ok, where, f'returns {show(v)[:100]}')


def not_preceded_from(g, src, mid, ends):
    """Ends reachable from the sources without passing mid, on paths without fault in the clean-up."""
    return set(ends) & g.reach(list(src), blocked=set(mid))


def told(why, exc, fault):
    """The reason and the exception given to the summary fit the way the run ended."""
    none = exc is None or exc is NONE
    text = str(why.args[0]).lower() if why is not None and why.op == 'const' else None
    if why is None or why.op == 'const' and (not isinstance(why.args[0], str) or text in ('', 'none')):
        return f'no reason is given for the end of a run ({fault or "regular end"})'
    if not fault:
        if not none:
            return 'a regular end is reported with an exception'
        if text and ('crash' in text or 'interrupt' in text):
            return 'a regular end is reported as a crash'
        return None
    if none:
        return f'an {fault} is reported without exception'
    if text is None or ('interrupt' if fault == 'interrupt' else 'crash') not in text:
        return f'an {fault} is not reported as such'
    if fault == 'error' and not contains(exc, lambda x: x.op == 'exc' or x.op == 'call' and 'format_exc' in x.args[0]):
        return 'the exception reported is not the one caught'
    return None


def complete(v, why):
    """The final result keeps the best point and gets the reason."""
    if contains(v, lambda x: x.op == 'old' and x.args[0] is RES):
        v = rebuild(v, lambda x: x.args[0] if x.op == 'old' else x)
    if v.op != 'ntup':
        return 'the final result is not a result'
    d = dict(v.args[1])
    if norm_term(d.get('fx')) is not T('attr', RES, 'fx'):
        return 'the value of the result changes when the run ends'
    if norm_term(d.get('origin')) is not T('attr', RES, 'origin'):
        return 'the origin of the result changes when the run ends'
    x = norm_term(d.get('x'))
    if x is not NONE and not contains(x, lambda y: y is T('attr', RES, 'x')):
        return 'the point of the result changes when the run ends'
    if not contains(norm_term(d.get('stats')), lambda y: y.op == 'tuple' and len(y.args) == 2 and y.args[0] is const('end_cond') and norm_term(y.args[1]) is norm_term(why)):
        return 'the result does not carry the reason given to the summary'
    return None


# ---------------------------------------------------------------- stopping
def stop(c):
    m = '_stop_all_children'
    g = closing_graph(c, m)
    where = f'{g.func.file}:{g.func.node.lineno}'
    crash = T('sym', g.func.node.args.args[1].arg)
    sends = [n for n in N(g) if is_send(g.ev[n])]
    joins = [n for n in N(g, kind='call') if g.ev[n].name == 'join' and part(rv(g.ev[n]), 'process') is not None]
    purge = [n for n in N(g, kind='call') if g.ev[n].name in ('get', 'get_nowait', 'empty', 'qsize') and rv(g.ev[n]) is sattr('optimizer_queue')]
    takes = [n for n in purge if g.ev[n].name.startswith('get')]
    for what, l in (('optimizers are asked to stop', sends), ('the queue is purged', takes), ('optimizers are waited for', joins)):
        c.ob(what, m, bool(l), where, 'never happens')
    asked, waited = enclosing(g, sends), enclosing(g, joins)
    for site in asked | waited:
        if any(everyone(nv(g.ev[h].target)) for h in loops(g)[site] if g.ev[h].target is not None):
            its, ends = iter_segments(g, site)
            c.ob('all optimizers', m, not any(g.ev[n].kind == 'break' for n in ends), where, 'the loop over the optimizers is left early')
        else:
            c.ob('all optimizers', m, all(any(contains(nv(g.ev[h].target), lambda x: x.op in ('new', 'hv', 'comp')) for h in loops(g)[site] if g.ev[h].target is not None) or
                                          g.ev[h].target is None for h in loops(g)[site]), where,
                 'not all optimizers are considered')
    full = {s for s in asked | waited if any(everyone(nv(g.ev[h].target)) for h in loops(g)[s] if g.ev[h].target is not None)}
    c.ob('all optimizers', m + ' (asking)', bool(asked & full), where, 'asking does not go through all optimizers')
    c.ob('all optimizers', m + ' (waiting)', bool(waited & full), where, 'waiting does not go through all optimizers')

    def dead(fs, x=None):
        return any(f.op == 'not' and contains(f, lambda y: y.op == 'call' and y.args[0] == 'is_alive') for f in fact_formulas(fs))

    def lived(fs):
        return any(f.op != 'not' and contains(f, lambda y: y.op == 'call' and y.args[0] == 'is_alive') for f in fact_formulas(fs))

    def step(q, n, e):
        """(phase, the current optimizer has been asked / waited for, or is dead)"""
        told, purged, cur, site = q
        if cur == 'joined' and g.st[n] is not None and e.kind == 'call' and e.name == 'is_alive':
            cur = 'looked'
        elif cur == 'looked' and g.st[n] is not None and dead(facts_at(g, n)):
            cur = 'gone'        # may look again, but a finished process stays so
        if e.kind == 'loopexit' and e.site in asked or e.kind == 'catch' and not told:
            told = True
        if n in purge and not told and n in takes:
            return '!', 'the queue is purged before the optimizers are asked to stop: they can block on it again before they look for signals'
        if e.kind == 'exc' and n not in joins and told and not purged and e.name in ('empty', 'get_nowait', 'get', 'qsize'):
            purged = True
        if e.kind == 'call' and e.name in ('empty', 'qsize') and n in purge or n in takes:
            purged = True
        if e.kind == 'iter' and e.site in full:
            return (told, purged, None, e.site)
        if e.kind == 'call' and e.name == 'is_alive':
            return (told, purged, cur, site)
        if n in sends:
            return (told, purged, 'asked' if cur is None else cur, site)
        if e.kind == 'exc' and e.name == 'send':
            return (told, purged, 'asked', site)
        if n in joins:
            if not told:
                return '!', 'an optimizer is waited for before all were asked to stop'
            if not purged:
                return '!', 'an optimizer is waited for although it may be blocked by the full queue'
            t = av(e, 0, 'timeout')
            if t is None or t is NONE:
                return '!', 'an optimizer is waited for without time limit'
            return (told, purged, 'joined', site)
        if is_force(e):
            return (told, purged, 'forced', site)
        if e.kind in ('iterend', 'break') and e.site in full and site == e.site:
            fs = facts_at(g, n)
            if cur is None and not dead(fs):
                return '!', 'a living optimizer is not asked to stop' if e.site in asked and e.site not in waited else 'a living optimizer is not waited for'
            if cur in ('joined', 'looked') and e.site in waited and not dead(fs) and not lacks_backend(fs):
                return '!', 'a process which is still alive after waiting is not terminated'
            return (told, purged, None, None)
        return (told, purged, cur, site)
    run_automaton(c, 'stopping of optimizers', m, g, (False, False, None, None), step, where)
    # a failure to ask or purge does not end the clean-up
    bad = []
    late = g.reach([n for s_ in waited for n in iter_segments(g, s_)[0]])
    pre = [n for n in N(g, kind='exc') if n not in late]
    for kk, n, v, s in g.exits:
        if kk == 'raise' and v.op == 'exc' and v.args[0] == '?' and n in g.reach(pre, blocked=set(joins) | {h for s_ in waited for h in loops(g)[s_]}):
            bad.append(n)
    c.ob('failures of asking do not end the clean-up', m, not bad, where, 'an error of a pipe or the queue leaves the other optimizers running',
         describe_path(g, g.path(pre, set(bad)) or []) if bad else None)
    tries = [n for n in takes if not any(g.ev[p].kind == 'exc' for p in N(g, kind='exc') if g.ev[p].node is g.ev[n].node)]
    c.ob('failures of purging do not end the clean-up', m, not tries, where, 'the queue may be broken in a crash: reading from it must not end the clean-up')



def lacks_backend(fs):
    return decide(truth(sattr('proc_backend')), fs) is False
