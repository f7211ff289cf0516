"""The recording of an evaluation is analysed twice, once assuming that it is strictly better than a stored best record and once that it is
not (worse, equal or nan): in the first case every path stores vector, value and evaluation number of this evaluation in the optimizer's
record and makes the overall record the same record (or a record with the same content), in the second no path touches them. No other
method changes the records except their creation (value infinite) and the restoring of a checkpoint. The result is built from one record
only, and every recorded evaluation is followed by an update of the result before a hunt, the next evaluation or the return. The final
result keeps vector, value and origin."""
from sa.core import *

TECHNIQUE = 'assume/guarantee path analysis of the record update (orderings including nan), provenance of result fields, must-follow'
ASSUMPTIONS = ['the best record of an optimizer is never better than the overall best record (shown by induction from the checked updates)']
REC = ('x', 'fx', 'call_id')


NUMBER = T('sym', 'number of this evaluation')


def current(v, cnt):
    if cnt == 1 and v is sattr('_f_counter') or cnt == 0 and v is add(sattr('_f_counter'), const(1)):
        return NUMBER
    return v


def check(c):
    k = c.cls('BaseLogger')
    it = T('sym', c.meth(k, 'put_iteration').node.args.args[1].arg)
    fx = T('attr', it, 'fx')
    own = T('idx', T('attr', T('sym', 'self'), '_best_iters'), T('attr', it, 'opt_id'))
    ovr = sattr('_best_iter')
    own_fx, ovr_fx = T('idx', own, const('fx')), T('idx', ovr, const('fx'))
    better = rel(fx, own_fx, '<')
    best = rel(fx, ovr_fx, '<')
    recs = [(own, better), (ovr, best)]
    f = c.meth(k, 'put_iteration')
    where = f'{f.file}:{f.node.lineno}'
    want = {'x': T('attr', it, 'x'), 'fx': fx}

    def state_of(g, assumption):
        """Runs the record automaton, returns (final states, messages)."""
        def step(q, n, e):
            o, b, cnt = dict(q[0]), q[1], q[2]
            if e.kind == 'store' and e.name == '_f_counter' and rv(e) is T('sym', 'self'):
                cnt = cnt + 1 if norm_term(e.value) is add(sattr('_f_counter'), const(1)) else 99
            if e.kind == 'storeidx' and rv(e) is own or e.kind == 'call' and e.name == '__setitem__' and rv(e) is own:
                kk = norm_term(e.args[0])
                o[kk.args[0] if kk.op == 'const' else show(kk)] = current(norm_term(e.value), cnt)
            elif e.kind == 'storeidx' and rv(e) is sattr('_best_iters') and norm_term(e.args[0]) is own.args[1]:
                d = entries(norm_term(e.value))
                if d is not None:
                    o.update({a: current(v, cnt) for a, v in d.items() if a in REC or v is not T('idx', own, const(a))})
                else:
                    o['?'] = norm_term(e.value)
            elif e.kind == 'call' and e.name == 'update' and rv(e) in (own, ovr):
                d = entries(norm_term(e.args[0])) if e.args else {}
                d = {**(d or {'?': NONE}), **{x: norm_term(y) for x, y in e.kw}}
                if rv(e) is own:
                    o.update(d)
                else:
                    b = tuple(sorted(d.items()))
            elif e.kind == 'store' and e.name == '_best_iter':
                v = norm_term(e.value)
                if v is own or contains(v, lambda x: x is own) and v.op == 'call' and v.args[0] in ('dict', 'copy', 'copy.copy', 'copy.deepcopy', 'deepcopy'):
                    b = 'own' if v is own else ('copy', tuple(sorted(o.items(), key=str)))
                elif entries(v) is not None:
                    b = tuple(sorted((a, current(x, cnt)) for a, x in entries(v).items()))
                else:
                    b = ('?', show(v))
            elif e.kind == 'storeidx' and rv(e) is ovr:
                bb = dict(b) if isinstance(b, tuple) and b and isinstance(b[0], tuple) else {}
                kk = norm_term(e.args[0])
                bb[kk.args[0] if kk.op == 'const' else show(kk)] = norm_term(e.value)
                b = tuple(sorted(bb.items(), key=str))
            elif e.kind == 'store' and e.name == '_best_iters':
                o['?'] = norm_term(e.value)
            return tuple(sorted(o.items(), key=str)), b, cnt
        at, _ = g.automaton(((), None, 0), lambda q, n, e: [step(q, n, e)])
        out = []
        for kind, n, v, s in g.exits:
            if kind == 'return':
                for q in at[n]:
                    out.append((q, s))
        return out

    def entries(d):
        if d.op != 'dict':
            return None
        r = {}
        for x in d.args:
            if x.op == 'star' and not r and (x.args[0] is own or x.args[0].op == 'old' and x.args[0].args[0] is own):
                r.update({kk: T('idx', own, const(kk)) for kk in ('opt_id', 'type')})
                continue
            if x.op != 'tuple' or x.args[0].op != 'const':
                return None
            r[x.args[0].args[0]] = x.args[1]
        return r

    def good(o, s):
        if '?' in o:
            return f'the record becomes {show(o["?"])}'
        for kk, t in want.items():
            if o.get(kk) is not t and not (kk == 'x' and o.get(kk) is not None and contains(o[kk], lambda y: y is t)):
                return f'{kk} of the record becomes {show(o[kk]) if kk in o else "nothing"}'
        cid = o.get('call_id')
        if cid is not NUMBER:
            return f'the evaluation number of the record becomes {show(cid) if cid is not None else "nothing"}'
        return None

    n = 0
    for better_own in (True, False):
        for better_all in (True, False):
            if better_all and not better_own:
                continue        # excluded: the overall best is at least as good
            asm = (better if better_own else mk_not(better), best if better_all else mk_not(best))
            g = c.run(f, cls=k, inline='*', assume=asm)
            name = ('better' if better_own else 'not better') + ' than own, ' + ('better' if better_all else 'not better') + ' than overall record'
            for (o, b, cnt), s in state_of(g, asm):
                n += 1
                o = dict(o)
                if better_own:
                    m = good(o, s)
                    c.ob('record of the optimizer', name, m is None, where, f'{name}: {m}')
                else:
                    c.ob('record of the optimizer', name, not o, where, f'{name}, but the record is changed: {sorted(map(str, o))}')
                if better_all:
                    if b == 'own':
                        ok, m = True, ''
                    elif b is None:
                        ok, m = False, 'the overall best is not updated'
                    elif b[0] == 'copy':
                        m = good(dict(b[1]), s)
                        ok = m is None
                    elif b[0] == '?':
                        ok, m = False, f'the overall best becomes {b[1]}'
                    else:
                        m = good(dict(b), s)
                        ok = m is None and all(x in dict(b) for x in ('opt_id', 'type'))
                    c.ob('overall record', name, ok, where, f'{name}: {m}')
                else:
                    c.ob('overall record', name, b is None, where, f'{name}, but the overall best becomes {b}')
                c.ob('evaluation number', name, cnt == 1, where, 'the evaluation counter is not increased by one')
    c.need('paths of the record update', n)
    creation(c, k)
    only_there(c, k)
    reading(c, k)
    result(c)


def creation(c, k):
    inf = ('float("inf")', "float('inf')")
    for m in ('__init__', 'add_optimizer'):
        g = c.graph(k, m, inline='*')
        where = g.func.file
        seen = 0
        for n in N(g, lambda e: e.kind == 'store' and e.name in ('_best_iter', '_best_iters') or e.kind == 'storeidx' and rv(e) is sattr('_best_iters')):
            e = g.ev[n]
            v = norm_term(e.value)
            ds = [x for x in subterms(v) if x.op == 'dict' and any(y.op == 'tuple' and y.args[0] is const('fx') for y in x.args)]
            if not ds and e.kind == 'store' and e.name == '_best_iters':
                continue
            for d in ds or [v]:
                r = {x.args[0].args[0]: x.args[1] for x in d.args if x.op == 'tuple' and x.args[0].op == 'const'} if d.op == 'dict' else {}
                fxv = r.get('fx')
                ok = fxv is not None and (fxv.op == 'const' and fxv.args[0] == float('inf') or 'inf' in show(fxv) and '-inf' not in show(fxv))
                c.ob('record starts at infinity', m, ok, e.where, f'a new record has the value {show(fxv) if fxv is not None else show(d)}')
                seen += 1
                if m == 'add_optimizer':
                    a = [x.arg for x in g.func.node.args.args]
                    c.ob('record of the right optimizer', m, norm_term(e.args[0]) is T('sym', a[1]) and r.get('opt_id') is T('sym', a[1]) and
                         r.get('type') is T('sym', a[2]), e.where, f'the record of {show(e.args[0])} is {show(d)}')
        c.need(f'records created in {m}', seen)


def only_there(c, k):
    """Nobody else changes the records."""
    allowed = {'__init__', 'add_optimizer', 'put_iteration', 'checkpoint_load'}
    for kk in (k, c.cls('FileLogger')):
        for name, f in sorted(kk.methods.items()):
            if name in allowed or name.startswith('__') or name.startswith('_') and name not in ():
                continue
            g = c.run(f, cls=kk, inline=())
            for n in N(g, lambda e: e.kind in ('store', 'storeidx', 'call')):
                e = g.ev[n]
                hit = e.kind == 'store' and e.name in ('_best_iter', '_best_iters') or \
                    e.kind in ('storeidx',) and e.recv is not None and contains(rv(e), lambda x: x in (sattr('_best_iter'), sattr('_best_iters'))) or \
                    e.kind == 'call' and e.name in ('pop', 'clear', 'update', 'popitem', 'setdefault', '__delitem__') and e.recv is not None and \
                    contains(rv(e), lambda x: x in (sattr('_best_iter'), sattr('_best_iters')))
                c.ob('records only change when evaluations are recorded', f'{kk.name}.{name}', not hit, e.where, f'{kk.name}.{name} changes the records: {e!r}') if hit else None
            c.ob('records only change when evaluations are recorded', f'{kk.name}.{name}', True)
    # the file logger records through the same method
    g = c.graph('FileLogger', 'put_iteration', inline='*')
    # an evaluation whose memory record is gone (KeyError) has been recorded in the best record before
    n = N(g, lambda e: e.kind == 'store' and e.name == '_f_counter')
    bad = not_preceded(g, n, [x for kd, x, v, s in g.exits if kd == 'return'])
    c.ob('file logger updates the records', 'FileLogger.put_iteration', n and not bad, g.func.file, 'an evaluation is written to the file without updating the best records',
         describe_path(g, bad[0][1]) if bad else None)


def reading(c, k):
    for kk in (k, c.cls('FileLogger')):
        g = c.graph(kk, 'get_best_iter', inline='*')
        a = T('sym', g.func.node.args.args[1].arg)
        for kind, n, v, s in g.exits:
            if kind != 'return':
                continue
            t = nv(v)
            fs = norm_facts(s.facts)
            if t is sattr('_best_iter'):
                ok = not satisfiable(fs, mk_and([truth(a), rel(a, const(0), '>')]))
            else:
                ok = t is T('idx', sattr('_best_iters'), a) and not satisfiable(fs, T('is', a, NONE))
            c.ob('best record returned', f'{kk.name}.get_best_iter', ok, g.func.file, f'returns {show(t)} under {[show(x) for x in fact_formulas(fs)]}')


def fields(t):
    if t.op == 'ntup':
        return dict(t.args[1])
    return None


def base_of(t, key):
    """The record r when t is r[key]."""
    for x in subterms(t):
        if x.op == 'idx' and x.args[1] is const(key):
            return x.args[0]
    return None


def result(c):
    g = c.graph('GloMPOManager', '_process_results', inline={'_update_best_result', 'get_best_iter'}, cap=8)
    where = g.func.file
    puts = calls(g, 'put_iteration')
    c.need('recordings of evaluations', len(puts))
    upd = stores(g, 'result')
    okv = {}
    for n in upd:
        e = g.ev[n]
        f = fields(norm_term(e.value))
        if f is None:
            okv[n] = False
            c.ob('result is one record', '_process_results', False, e.where, f'the result becomes {show(norm_term(e.value))[:200]}')
            continue
        o = f['origin']
        od = {x.args[0].args[0]: x.args[1] for x in o.args if x.op == 'tuple'} if o.op == 'dict' else {}
        bs = [base_of(f['x'], 'x'), base_of(f['fx'], 'fx'), base_of(od.get('opt_id', NONE), 'opt_id'), base_of(od.get('type', NONE), 'type')]
        logbest = lambda t: t is not None and (t.op == 'attr' and t.args[1] == '_best_iter' and t.args[0] is sattr('opt_log') or
                                               t.op == 'call' and t.args[0] == 'get_best_iter' and not t.args[2] and not t.args[3])
        ok = len(set(bs)) == 1 and logbest(bs[0]) and f['fx'].op == 'idx'
        okv[n] = ok
        c.ob('result is one record', '_process_results', ok, e.where, f'vector, value and origin of the result come from {[show(b) if b is not None else None for b in bs]}')
    ends = enclosing(g, puts)

    def step(q, n, e):
        if e.kind == 'call' and e.name == 'put_iteration':
            if q:
                return '!', 'the next evaluation is recorded before the result was updated'
            return True
        if e.kind == 'store' and e.name == 'result':
            return False
        if q and e.kind == 'call' and e.name == '_start_hunt':
            return '!', 'a hunt starts before the result was updated'
        if q and (e.kind == 'exit' and e.name == 'return' or e.kind in ('iterend', 'break') and e.site in ends):
            return '!', 'the result is not updated after an evaluation was recorded'
        return q
    run_automaton(c, 'result follows every evaluation', '_process_results', g, False, step)
    # nothing else touches the result, the end of the run keeps it
    k = c.cls('GloMPOManager')
    init = 0
    for name, f in sorted(k.methods.items()):
        src = {x for x in ast.walk(f.node) if isinstance(x, ast.Attribute) and x.attr == 'result' and isinstance(x.ctx, ast.Store)}
        if not src or name.startswith('_') and name not in c_names() and not name.startswith('__'):
            continue
        opts = dict(cap=8, keep=KEEP) if name in ('start_manager', 'load_checkpoint') else dict(cap=8)
        g = c.run(f, cls=k, inline=(), **opts)
        for n in stores(g, 'result'):
            e = g.ev[n]
            if rv(e) is not T('sym', 'self') or name == '_process_results':
                continue
            v = norm_term(e.value)
            ff = fields(v)
            if ff is None:
                ok = v.op == 'call' and v.args[0] in ('_update_best_result', 'getattr') or name == 'load_checkpoint'
            elif name in ('__init__',):
                ok = ff['fx'] is NONE
                init += 1
            else:
                old = sattr('result')
                src = lambda t: {x.args[1] for x in subterms(t) if x.op == 'attr' and x.args[0] is old}
                ok = ff['fx'] is T('attr', old, 'fx') and ff['origin'] is T('attr', old, 'origin') and \
                    (src(ff['x']) == {'x'} or ff['x'] is NONE and not satisfiable(facts_at(g, n), truth(T('attr', old, 'x')))) 
            c.ob('result is kept', name, ok, e.where, f'{name} sets the result to {show(v)[:250]}')


def KEEP(f):
    return contains(f, lambda x: x.op == 'attr' and x.args[1] == 'result')


def c_names():
    import json
    v = json.load(open(VERIF / 'sa' / 'vocab.json'))
    return {x.rsplit('.', 1)[-1] for x in v}
