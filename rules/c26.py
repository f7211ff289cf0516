"""The update of the best result is analysed under each combination of: sharing enabled or not, no previous best value or a previous one
(of any value, zero included), the new best value strictly better or not. With sharing and an improvement every iteration over the
optimizers either sends (4, vector, value) of the best record to the signal pipe of that optimizer or the path proves that it is the
finder or no longer alive, and no path skips or leaves the loop early; otherwise no send is reachable. The update runs once per result.
The signal table maps 4 to a method of the same arity which stores vector and value under their names; the dispatcher hands all arguments
of the message on in order."""
from sa.core import *

TECHNIQUE = 'assume/guarantee path analysis of the sharing decision and its loop, message/handler signature matching'
ASSUMPTIONS = ['a signal which cannot be delivered because the optimizer has closed (OSError) counts as sent to a dead optimizer',
               'an optimizer whose process is alive is living']


def is_alive_formula(t):
    return contains(t, lambda x: x.op == 'call' and x.args[0] == 'is_alive')


def check(c):
    k = c.cls('GloMPOManager')
    f = c.meth(k, '_update_best_result')
    where = f'{f.file}:{f.node.lineno}'
    best = T('attr', sattr('opt_log'), '_best_iter')
    bfx, bx, bid = (T('idx', best, const(z)) for z in ('fx', 'x', 'opt_id'))
    prev = T('attr', sattr('result'), 'fx')
    share = truth(sattr('incumbent_sharing'))
    inf = c.expr("float('inf')")
    better = rel(bfx, prev, '<')
    none = T('is', prev, NONE)
    found = rel(bfx, inf, '<')
    n = 0
    for name, want, asm in (
            ('first value', True, [share, none, found]),
            ('strict improvement', True, [share, mk_not(none), better]),
            ('strict improvement of zero', True, [share, mk_not(none), rel(prev, const(0), '=='), better]),
            ('sharing disabled, first value', False, [mk_not(share), none]),
            ('sharing disabled, improvement', False, [mk_not(share), mk_not(none), better]),
            ('no improvement', False, [share, mk_not(none), mk_not(better)]),
            ('no improvement of zero', False, [share, mk_not(none), rel(prev, const(0), '=='), rel(prev, bfx, '==')])):
        g = c.run(f, cls=k, inline='*', assume=tuple(asm), hold=('is_alive',))
        sends = N(g, lambda e: e.kind == 'call' and e.name in ('send', 'put', 'put_nowait'))
        n += len(g.exits)
        if not want:
            c.ob('nothing is sent', name, not sends, g.ev[sends[0]].where if sends else where, f'{name}: a message is sent to an optimizer',
                 describe_path(g, g.path([0], sends)) if sends else None)
            continue
        for i in sends:
            e = g.ev[i]
            m = av(e, 0)
            r = rv(e)
            ok = m.op == 'tuple' and len(m.args) == 3 and m.args[0] is const(4) and copy_of(m.args[1], bx) and m.args[2] is bfx
            c.ob('incumbent message', name, ok, e.where, f'the message is {show(m)[:200]}')
            c.ob('incumbent pipe', name, r is not None and r.op == 'attr' and r.args[1] == 'signal_pipe', e.where, f'the message goes to {show(r)[:200]}')
            ids = [x.args[1] for x in subterms(r) if x.op == 'idx' and x.args[0] is sattr('_optimizer_packs')] + [x for x in subterms(r) if x.op == 'elem']
            if ids and not contains(r, lambda x: x.op == 'new'):
                fs = facts_at(g, i)
                idt = [x for x in ids if not is_const(x)]
                ok = bool(idt) and any(entails(fs, mk_not(rel(x, bid, '=='))) for x in idt)
                c.ob('not to the finder', name, ok, e.where, 'the incumbent is sent to an optimizer which may be the one that found it')
        loops_ = [s for s in loops(g) if any(contains(nv(g.ev[x].target), lambda y: y is sattr('_optimizer_packs')) for x in loops(g)[s])]
        outer = enclosing(g, sends)
        done = set()

        def step(q, n, e):
            inside, sent, full = q
            if e.kind == 'iter' and e.site in outer:
                return (e.site, False, full)
            if e.kind == 'call' and n in sends_:
                if not inside:
                    return '!', 'a message is sent outside of the loop over the optimizers'
                if sent:
                    return '!', 'an optimizer gets the incumbent twice'
                return (inside, True, full)
            if e.kind == 'exc' and inside and e.name in ('send', 'put', 'put_nowait'):
                return (inside, True, full)     # the attempt failed because the optimizer has closed
            if e.kind in ('iterend', 'break') and e.site == inside:
                if e.kind == 'break':
                    return '!', 'the loop over the optimizers ends early'
                if not sent and not skipped(facts_at(g, n), bid):
                    return '!', 'an optimizer which is alive and not the finder can be passed over'
                return (None, False, full)
            if e.kind == 'loopexit' and e.site in outer:
                return (None, False, True)
            if e.kind == 'exit' and e.name == 'return' and not full:
                return '!', 'the incumbent is not shared'
            return q
        sends_ = set(sends)
        run_automaton(c, 'sent to everybody else', name, g, (None, False, False), step)
        # the optimizers looped over are all of them
        for s in outer:
            for h in loops(g)[s]:
                t = nv(g.ev[h].target)
                c.ob('all optimizers are visited', name, everyone(t, bid), g.ev[h].where, f'the loop visits {show(t)[:200]}')
        c.need('sends in the sharing loop', len(sends))
    c.need('paths of the update', n)
    once(c, k)
    receive(c)


def copy_of(t, x):
    return t is x or t.op == 'call' and t.args[0] in ('list', 'tuple', 'copy', 'copy.copy', 'copy.deepcopy', 'numpy.array') and contains(t, lambda y: y is x) or \
        t.op in ('list', 'tuple') and len(t.args) == 1 and t.args[0].op == 'star' and t.args[0].args[0] is x


def skipped(fs, bid):
    """The facts prove that the optimizer of this iteration is the finder or dead."""
    for f in fact_formulas(fs):
        if f.op == 'not' and is_alive_formula(f.args[0]):
            return True
        if f.op == 'not' and f.args[0].op == 'truth' and is_alive_formula(f):
            return True
        if contains(f, lambda x: x is bid):
            for x in subterms(f):
                if (x.op in ('elem', 'sym') or x.op == 'idx' and x.args[0].op == 'elem') and entails(fs, rel(x, bid, '==')):
                    return True
    return False


def everyone(t, bid):
    packs = sattr('_optimizer_packs')
    if t is packs:
        return True
    if t.op == 'call' and t.args[0] in ('items', 'keys', 'values', 'list', 'tuple', 'sorted', 'dict', 'copy'):
        return any(everyone(x, bid) for x in ([t.args[1]] if t.args[1] is not None else []) + list(t.args[2]))
    if t.op in ('list', 'tuple', 'set') and len(t.args) == 1 and t.args[0].op == 'star':
        return everyone(t.args[0].args[0], bid)
    return t.op == 'comp' and contains(t, lambda x: x is packs)


def once(c, k):
    g = c.graph(k, '_process_results', inline=())
    up = calls(g, '_update_best_result')

    def step(q, n, e):
        if e.kind == 'call' and e.name == '_update_best_result':
            return ('!', 'the result is updated twice for one evaluation') if q else True
        if e.kind == 'store' and e.name == 'result':
            v = nv(e.value)
            if v.op == 'call' and v.args[0] == '_update_best_result':
                return False
        if q and e.kind in ('iterend', 'exit') and (e.kind != 'exit' or e.name == 'return'):
            return '!', 'the updated result is not kept, the same incumbent would be shared again'
        return q
    if up:
        run_automaton(c, 'one update per evaluation', '_process_results', g, False, step)


def receive(c):
    b = c.cls('BaseOptimizer')
    g = c.graph(b, '__init__', inline='*')
    st = stores(g, '_from_manager_signal_dict')
    c.need('signal tables', len(st))
    target = set()
    for kind, n, v, x in g.exits:
        if kind == 'return':
            target |= {y for k, y in dict_items(x, '_from_manager_signal_dict') or () if k is const(4)}
    names = {x.args[1] for x in target if x.op == 'attr'} or {x.args[0].rsplit('.')[-1] for x in target if x.op in ('func', 'bound') and isinstance(x.args[0], str)}
    if not names:
        names = {m for m in b.methods if any(show(x).endswith(m) or f'{m}' in show(x).replace(')', '.').replace(',', '.').split('.') for x in target)}
    c.ob('handler of the incumbent signal', 'signal 4', names == {'inject'}, g.func.file, f'signal 4 is handled by {sorted(names) or [show(x) for x in target]}')
    # every optimizer class: vector and value are stored unchanged
    fams = [b] + [x for x in c.p.subclasses(b)] if hasattr(c.p, 'subclasses') else [b]
    for kk in fams:
        if kk is not b and 'inject' not in kk.methods:
            continue
        g = c.graph(kk, 'inject', inline='*')
        a = [x.arg for x in g.func.node.args.args[1:]]
        for kind, n, v, s in g.exits:
            if kind != 'return':
                continue
            t = final(s, 'incumbent')
            d = {x.args[0].args[0]: x.args[1] for x in t.args if x.op == 'tuple' and x.args[0].op == 'const'} if t is not None and t.op == 'dict' else {}
            for z in ('x', 'fx'):
                h = s.heap.get((sattr('incumbent'), '[]', const(z)))
                if h is not None:
                    d[z] = nv(h)
            ok = len(a) == 2 and d.get('x') is not None and d.get('fx') is T('sym', a[1]) and copy_of(d['x'], T('sym', a[0])) and not (set(d) - {'x', 'fx'})
            c.ob('incumbent stored', f'{kk.name}.inject', ok, g.func.file, f'the incumbent becomes {({kx: show(y) for kx, y in d.items()})}')
    # dispatch: key and all arguments of the received message
    g = c.graph(b, 'check_messages', inline=())
    n = 0
    for i in N(g, lambda e: e.kind == 'call' and (e.recv is None or True) and any(contains(x, lambda y: y.op == 'attr' and y.args[1] == '_from_manager_signal_dict')
                                                  for x in ([e.recv] if e.recv is not None else []) + [e.value] if x is not None)):
        e = g.ev[i]
        t = nv(e.value)
        if not any(y.op == 'star' for y in subterms(t)) and not e.args:
            continue
        if any(a.op == 'star' for a in e.args) or e.args:
            s = [nv(a) for a in e.args]
            t = s[0].args[0] if len(s) == 1 and s[0].op == 'star' else NONE
            while t.op == 'call' and t.args[0] in ('list', 'tuple') and len(t.args[2]) == 1:
                t = t.args[2][0]
            ok = t.op == 'slice' and t.args[0].op == 'call' and t.args[0].args[0] == 'recv' and t.args[1:] == (const(1), NONE, NONE)
            n += 1
            c.ob('arguments of the signal', 'check_messages', ok, e.where, f'the handler is called with {[show(x) for x in s]}')
    c.need('dispatch of signals with arguments', n)
