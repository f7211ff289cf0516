"""Every method of the manager which notices or causes the end of an optimizer is analysed with its helpers down to primitive effects:
adding to the closed set, recording the stop time and recording the end condition. On every path of an iteration (or call) these three
occur together for the same optimizer, stop time and condition may only occur again without closing where the optimizer is known closed and
force is used on it. Before the first of them the path proves that the optimizer is not closed or that its record is missing. A received
end signal, a dead process which is not closed, and clean-up at the end of a run all lead to closing; no optimizer is passed over, and a
package is only dropped for an optimizer which is closed and dead. Nothing ever removes an optimizer from the closed set."""
from sa.core import *
from sa.mgr import *

TECHNIQUE = 'typestate automaton over primitive record effects per iteration, path facts of the closed set'
ASSUMPTIONS = ['recording metadata in the log does not fail (C25); failures of pipes and processes are followed',
               'an optimizer which died with an unread message is dealt with in a later round, when the message has been read']
REC = ('bury', 't_stop', 'end_cond')


def check(c):
    total = 0
    for m in CLOSING:
        g = closing_graph(c, m)
        seen = [0]

        def on_end(ms, n, e, x, m=m):
            for y in {z[1] for z in ms if z[0] in REC or z[0] == 'force'}:
                got = {z[0] for z in ms if z[1] is y}
                rec = got & set(REC)
                closed = ('closed', y) in ms or ('hunted', y) in ms
                kept = 'has_end_cond' in got and not any(z[0] == 'missing' for z in ms)
                if rec and not {'t_stop', 'end_cond'} <= rec:
                    return f'an optimizer is {word(rec)} without recording {word({"t_stop", "end_cond"} - rec)}'
                if {'t_stop', 'end_cond'} <= rec and 'bury' not in rec and not closed:
                    return 'an end is recorded without closing the optimizer'
                if {'t_stop', 'end_cond'} <= rec and not (('open', y) in ms or any(z[0] == 'missing' for z in ms) or 'force' in got):
                    return 'the recorded end of a closed optimizer can be overwritten'
                if 'force' in got and not rec and not kept:
                    return 'an optimizer is terminated without recording its end'
            return completeness(m, ms, n, e, x, facts_at(g, n))
        marks, sites = segments(c, g, 'end is recorded and closed together', m, on_end)
        k = [x for x in marks.values() if x[0] in REC]
        total += len(k)
        c.ob('ends are recorded', m, len({x[0] for x in k}) == 3, f'{g.func.file}:{g.func.node.lineno}', f'{m} records only {sorted({x[0] for x in k})}')
        for n, (kind, x) in marks.items():
            e = g.ev[n]
            if kind == 't_stop':
                c.ob('time of the end', m, contains(meta(e)[2], lambda y: y.op == 'call' and y.args[0].split('.')[-1] == 'now'), e.where, f'the stop time is {show(meta(e)[2])}')
            if kind == 'end_cond':
                v = meta(e)[2]
                c.ob('reason of the end', m, not (v.op == 'const' and not v.args[0]), e.where, f'the end condition is {show(v)}')
        if m in ('_inspect_children', '_stop_all_children'):
            whole(c, g, m, sites)
    c.need('record effects', total, 30)
    reasons(c)
    dropping(c)
    forever(c)


def word(s):
    w = {'bury': 'closed', 't_stop': 'a stop time', 'end_cond': 'an end condition'}
    return ' and '.join(w[x] for x in sorted(s))


def completeness(m, ms, n, e, x, f):
    kinds = {z[0] for z in ms}
    if m in ('_check_signals', '_checkpoint_optimizers'):
        for t in ended(f):
            if 'recv' in kinds and not kinds & {'bury', 'closed'} and ('failed', 'recv') not in ms:
                return 'the end signal of an optimizer is not acted upon'
    if m == '_inspect_children' and x is not None and e.kind != 'exit':
        if not kinds & {'bury', 'closed', 'alive', 'recv', 'hunted'}:
            return 'a dead optimizer can be passed over without closing it'
    return None


def ended(f):
    """Facts saying that the key of a received message is 0."""
    out = []
    for z in fact_formulas(f):
        for y in subterms(z):
            if y.op == 'idx' and y.args[1] is const(0) and y.args[0].op == 'call' and y.args[0].args[0] == 'recv' and entails(f, rel(y, const(0), '==')):
                out.append(y)
    return out


def whole(c, g, m, sites):
    """The loop closing optimizers visits all of them."""
    where = f'{g.func.file}:{g.func.node.lineno}'
    recs = [n for n in N(g) if mark(g.ev[n]) and mark(g.ev[n])[0] in REC]
    outer = {s for s in enclosing(g, recs) if s in sites}
    c.ob('all optimizers are inspected', m, bool(outer), where, 'the optimizers are not gone through')
    for s in outer:
        for h in loops(g)[s]:
            c.ob('all optimizers are inspected', m, everyone(nv(g.ev[h].target)), g.ev[h].where, f'only {show(nv(g.ev[h].target))[:200]} are inspected')

    def step(q, n, e):
        if e.kind == 'loopexit' and e.site in outer:
            return True
        if e.kind == 'break' and e.site in outer:
            return '!', 'the loop over the optimizers ends early'
        if e.kind == 'exit' and e.name == 'return' and not q:
            return '!', 'the optimizers are not gone through'
        return q
    run_automaton(c, 'all optimizers are inspected', f'{m}: loop', g, False, step)
    if m != '_stop_all_children':
        return
    # at the end of a run every optimizer has a recorded end

    def step(q, n, e):
        if e.kind == 'iter' and e.site in outer:
            return frozenset()
        k = mark(e)
        if e.kind == 'exc' and e.name == 'get_metadata':
            return q - {'has_end_cond', 'has_t_stop'} | {'missing'}
        if k:
            return q | {k[0]}
        if e.kind in ('iterend', 'break') and e.site in outer and not ('end_cond' in q or 'has_end_cond' in q and 'missing' not in q or q & {'known'}):
            f = facts_at(g, n)
            return '!', 'an optimizer may be left without a recorded end'
        if any(entails(facts_at(g, n), buried(sites[s])) for s in outer):
            return q | {'known'}
        return q
    run_automaton(c, 'every optimizer has a recorded end', m, g, frozenset(), step)


def reasons(c):
    """An announced convergence is recorded with the reason which the optimizer gave."""
    for m in ('_check_signals', '_checkpoint_optimizers'):
        g = closing_graph(c, m)
        for n in N(g):
            e = g.ev[n]
            if is_meta(e, 'end_cond'):
                f = facts_at(g, n)
                ts = ended(f)
                if ts:
                    want = {T('idx', t.args[0], const(1)) for t in ts}
                    c.ob('reason given by the optimizer', m, meta(e)[2] in want, e.where, f'the end condition of a converged optimizer is {show(meta(e)[2])}')
                elif ('recv' in {mark(g.ev[k])[0] for k in g.path([0], [n]) or () if g.ev[k] is not None and mark(g.ev[k])}):
                    c.ob('closed by its end signal only', m, False, e.where, 'an end is recorded although the optimizer did not announce it')


def relevant(f):
    return contains(f, lambda x: x is GRAVE or x.op == 'call' and x.args[0] == 'is_alive')


def dropping(c):
    g = c.graph('GloMPOManager', 'start_manager', cap=8, keep=relevant, hold={'is_alive'})
    n = 0
    for i in N(g, kind='del') + N(g, lambda e: e.kind == 'call' and e.name in ('pop', 'popitem', 'clear') and rv(e) is PACKS):
        e = g.ev[i]
        if e.kind == 'del' and not contains(nv(e.target), lambda y: y is PACKS):
            continue
        n += 1
        x = norm_term(e.args[0]) if e.args else None
        ok = x is not None and entails(facts_at(g, i), buried(x)) and any(z.op == 'not' for z in alive_terms(facts_at(g, i), x))
        c.ob('only closed and dead optimizers are dropped', 'start_manager', ok, e.where, 'the package of an optimizer which may be running or not closed is dropped')
    c.count('places where packages are dropped', n)


def forever(c):
    k = c.cls('GloMPOManager')
    for name, f in sorted(k.methods.items()):
        for x in ast.walk(f.node):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Attribute) and x.func.value.attr == '_graveyard':
                c.ob('closed for good', name, x.func.attr not in ('remove', 'discard', 'clear', 'pop', 'difference_update', 'intersection_update', 'symmetric_difference_update'),
                     f'{f.file}:{x.lineno}', f'{name} takes optimizers out of the closed set')
            tgt = x.targets if isinstance(x, ast.Assign) else [x.target] if isinstance(x, (ast.AnnAssign,)) else []
            for t in tgt:
                for y in ast.walk(t):
                    if isinstance(y, ast.Attribute) and isinstance(y.ctx, ast.Store) and y.attr == '_graveyard':
                        c.ob('closed for good', name, name in ('__init__', 'setup'), f'{f.file}:{x.lineno}', f'{name} replaces the closed set')
    for name, f in sorted(k.methods.items()):
        if name not in vocab() or name in CLOSING + ('_shutdown_job', '_process_results'):
            continue
        for x in ast.walk(f.node):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and (
                    x.func.attr == 'put_metadata' and any(isinstance(a, ast.Constant) and a.value in ('t_stop', 'end_cond') for a in list(x.args) + [y.value for y in x.keywords]) or
                    x.func.attr in ('add', 'update') and isinstance(x.func.value, ast.Attribute) and x.func.value.attr == '_graveyard'):
                c.ob('ends are recorded where they are noticed', name, False, f'{f.file}:{x.lineno}', f'{name} records the end of an optimizer')
