"""Decision tables over the event graphs of every concrete combination class (_OrHunter, _AndHunter, _OrChecker, _AndChecker):
truth of the returned and remembered value against or/and of the two operand results on every path, lazy evaluation (second operand
called iff the first does not decide), clearing of both operands before the first call, who constructs the combination and with which
operands in which order, counting of yields per operand in the iteration."""
from sa.core import *

OPN = ('_base1', '_base2')


def operand(t):
    """0/1 when the term is an operand (or an iteration over it), else None."""
    t = norm_term(t)
    while True:
        if t.op == 'call' and t.args[1] is None and t.args[0] in ('list', 'tuple', 'iter') and len(t.args[2]) == 1:
            t = t.args[2][0]
        elif t.op == 'call' and t.args[1] is not None and t.args[0] in ('_bases', '__iter__') and not t.args[2]:
            t = t.args[1]
        elif t.op in ('list', 'tuple') and len(t.args) == 1 and t.args[0].op == 'star':
            t = t.args[0].args[0]
        elif t.op == 'genf' and t.args[1] is not None:
            t = t.args[1]
        else:
            break
    for i, n in enumerate(OPN):
        if is_self_attr(t, n):
            return i
    return None


def generator_graph(c, cls, name):
    """The graph which produces the iteration of cls.name, and the sequence when it is a plain container."""
    for _ in range(4):
        g = c.graph(cls, name, inline='*')
        vals = [v for k, n, v, s in g.exits if k == 'return']
        gf = [v for v in vals if v.op == 'genf']
        if vals and len(gf) == len(vals) and len({v.args[0] for v in gf}) == 1 and gf[0].args[1] is not None and \
                gf[0].args[1].op == 'sym' and gf[0].args[1].args[0] == 'self':
            name = gf[0].args[0].split('.')[-1]
            continue
        return g, name
    raise AnalysisBroken('C17: generator chain')


def check(c):
    core = c.cls('_CoreBase')
    combis = [k for k in c.p.subclasses(c.cls('_CombiCore')) if c.p.subclasses(k) == [] or k.name.startswith('_') and k.name not in ('_CombiCore',)]
    ors, ands = set(c.p.subclasses(c.cls('_OrCore'))), set(c.p.subclasses(c.cls('_AndCore')))
    conc = [k for k in combis if k in ors | ands]
    c.need('concrete combination classes', len(conc), 4)
    for k in conc:
        isor = k in ors
        g = c.graph(k, '__call__', inline='*')
        b = []
        for i, n in enumerate(OPN):
            cs = N(g, lambda e: e.kind == 'call' and (is_self_attr(T('attr', e.recv, e.name) if e.recv is not None else None, n) or
                                                      e.recv is not None and is_self_attr(e.recv, n) and e.name == '__call__'))
            b.append(cs)
            c.ob('operand called', f'{k.name}.__call__ {n}', cs, g.func.file, f'{n} is never evaluated by {k.name}')
        if not all(b):
            continue
        rets = [x for x in g.exits if x[0] == 'return']
        names = [x.arg for x in g.func.node.args.args[1:]] + [a.arg for a in (g.func.node.args.vararg, g.func.node.args.kwarg) if a]
        for i, cs in enumerate(b):
            for n in cs:
                e = g.ev[n]
                got = {show(x).strip('*') for a in list(e.args) + [v for _, v in e.kw] for x in subterms(a) if x.op == 'sym'}
                c.ob('operands get the arguments', f'{k.name} {OPN[i]}', got >= set(names), e.where,
                     f'{OPN[i]} is evaluated without the arguments of the combination (got {got}, needs {names})')
        # cleared first
        for i, n in enumerate(OPN):
            clear = N(g, lambda e: e.kind == 'call' and e.name == 'reset' and e.recv is not None and is_self_attr(e.recv, n))
            own = N(g, lambda e: e.kind == 'store' and e.name in ('_last_result', 'last_result') and e.value is NONE and is_self_attr(e.recv, n))
            bad = not_preceded(g, clear, b[0] + b[1])
            for m, p in bad[:1]:
                c.ob('operands cleared before evaluation', f'{k.name} {n}', False, g.ev[m].where,
                     f'{k.name} evaluates an operand before {n}.reset()', describe_path(g, p))
            if not bad:
                c.ob('operands cleared before evaluation', f'{k.name} {n}', True)
            # the operand itself forgets its result: here, or in the reset of combinations
            rg = c.graph(k, 'reset', inline='*')
            selfclear = N(rg, lambda e: e.kind == 'store' and e.name == '_last_result' and e.value is NONE and e.recv.op == 'sym')
            ok = not not_preceded(g, own, b[0] + b[1]) or not not_preceded(rg, selfclear, exit_nodes(rg, ('return',)))
            c.ob('nested result cleared', f'{k.name} {n}', ok, g.func.file, f'the remembered result of a nested combination in {n} is not cleared')
            # recursion of reset
            rr = N(rg, lambda e: e.kind == 'call' and e.name == 'reset' and e.recv is not None and is_self_attr(e.recv, n))
            c.ob('reset is recursive', f'{k.name} {n}', rr and not not_preceded(rg, rr, exit_nodes(rg, ('return',))), rg.func.file,
                 f'{k.name}.reset does not reset {n}')
        r1 = {nv(g.ev[n].value) for n in b[0]}
        r2 = {nv(g.ev[n].value) for n in b[1]}
        if len(r1) > 1 or len(r2) > 1:
            c.ob('operand evaluated at most once', k.name, False, g.func.file, 'an operand is evaluated with different arguments')
            continue
        x1, x2 = r1.pop(), r2.pop()
        t1, t2 = truth(x1), truth(x2)
        need2 = mk_not(t1) if isor else t1
        # count evaluations
        def step(q, n, e):
            q = list(q)
            for i in (0, 1):
                if n in b[i]:
                    q[i] = min(q[i] + 1, 2)
            return [tuple(q)]
        at, par = g.automaton((0, 0), step)
        for kind, n, v, s in rets:
            f = norm_facts(s.facts)
            for q in at.get(n, ()):
                c.ob('first operand evaluated exactly once', k.name, q[0] == 1, g.func.file, f'{OPN[0]} evaluated {q[0]} times')
                if q[1] == 0:
                    c.ob('second operand skipped only if decided', k.name, entails(f, mk_not(need2)), g.func.file,
                         f'{k.name} skips {OPN[1]} although {OPN[0]} does not decide the result')
                    spec = t1
                else:
                    c.ob('second operand evaluated at most once', k.name, q[1] == 1, g.func.file, f'{OPN[1]} evaluated twice')
                    spec = mk_or([t1, t2]) if isor else mk_and([t1, t2])
                c.ob('result', f'{k.name}', entails(f, iff(truth(nv(v)), spec)), g.func.file,
                     f'{k.name} returns {show(nv(v))} where {show(spec)} is specified')
            st = s.heap.get((T('sym', 'self'), '_last_result'))
            c.ob('result remembered', k.name, st is not None and entails(f, iff(truth(nv(st)), truth(nv(v)))), g.func.file,
                 f'{k.name} does not remember the result it returns (remembers {show(nv(st)) if st is not None else "nothing"})')
        for n in b[1]:
            # the first result is known when the second is called
            f = facts_at(g, n)
            c.ob('second operand only if needed', k.name, entails(f, need2), g.ev[n].where,
                 f'{k.name} evaluates {OPN[1]} although {OPN[0]} decides the result')
        # iteration
        ig, nm = generator_graph(c, k, '__iter__')
        isc = lambda i: c.formula(f'isinstance(self.{OPN[i]}, _CombiCore)', k, module=c.cls('_CombiCore').module)
        vals = [nv(v) for kk, n, v, s in ig.exits if kk == 'return']
        ys = N(ig, lambda e: e.kind in ('yield', 'yieldfrom'))
        c.ob('iteration defined', k.name, bool(ys) or all(v.op in ('call', 'list', 'tuple', 'concat') for v in vals), ig.func.file,
             f'{k.name}.__iter__ yields nothing')
        if ys:
            def stepi(q, n, e):
                q = dict(q)
                if e.kind == 'yield' and e.value is not None:
                    v = norm_term(e.value)
                    i = operand(v)
                    if i is not None:
                        q['o%d' % i] = min(q.get('o%d' % i, 0) + 1, 2)
                    elif v.op == 'elem' and operand(v.args[0]) is not None:
                        q['y'] = min(q.get('y', 0) + 1, 2)
                    else:
                        q['bad'] = 1
                elif e.kind == 'yieldfrom':
                    i = operand(e.value)
                    if i is None:
                        q['bad'] = 1
                    else:
                        q['a%d' % i] = min(q.get('a%d' % i, 0) + 1, 2)
                elif e.kind == 'iter' and operand(e.target) is not None if e.target is not None else False:
                    q['y'] = 0
                elif e.kind in ('iterend', 'break') and e.target is not None and operand(e.target) is not None:
                    if q.get('y') != 1 or e.kind == 'break' or e.extra == 'filtered':
                        q['bad'] = 2
                    q.pop('y', None)
                elif e.kind == 'loopexit' and e.target is not None and operand(e.target) is not None:
                    i = operand(e.target)
                    q['a%d' % i] = min(q.get('a%d' % i, 0) + 1, 2)
                return [tuple(sorted(q.items()))]
            at, par = ig.automaton((), stepi)
            for kind, n, v, s in ig.exits:
                f = norm_facts(s.facts)
                for q in at.get(n, ()):
                    q = dict(q)
                    for i in (0, 1):
                        one, al = q.get(f'o{i}', 0), q.get(f'a{i}', 0)
                        ok = not q.get('bad') and one + al == 1 and \
                            (one == 0 or not satisfiable(f, isc(i)))
                        c.ob('iteration yields every leaf exactly once', f'{k.name} {OPN[i]}', ok, ig.func.file,
                             f'on a path, operand {OPN[i]} is yielded {one} times itself and {al} times through its own iteration')
        else:
            for v in vals:
                parts = []
                def flat(t):
                    if t.op == 'call' and t.args[0] in ('iter', 'list', 'tuple', 'itertools.chain') and t.args[1] is None:
                        for y in t.args[2]:
                            flat(y) if operand(y) is None else parts.append(operand(y))
                    elif t.op in ('list', 'tuple', 'concat'):
                        for y in t.args:
                            if y.op == 'star':
                                y = y.args[0]
                            flat(y) if operand(y) is None else parts.append(operand(y))
                    else:
                        parts.append(None)
                flat(v)
                c.ob('iteration yields every leaf exactly once', k.name, sorted(parts, key=str) == [0, 1], ig.func.file, f'__iter__ gives {show(v)}')
        # report
        rg = c.graph(k, 'str_with_result', inline='*')
        for kind, n, v, s in rg.exits:
            for i, o in enumerate(OPN):
                has = contains(v, lambda x: x.op == 'call' and x.args[0] == 'str_with_result' and x.args[1] is not None and is_self_attr(x.args[1], o))
                c.ob('report shows both operands', f'{k.name} {o}', has, rg.func.file, f'str_with_result of {k.name} does not show the result of {o}')
        # operator order and constructor
        ig = c.graph(k, '__init__', inline='*')
        ps = [a.arg for a in ig.func.node.args.args][1:3]
        for kind, n, v, s in ig.exits:
            if kind == 'return':
                for o, pn in zip(OPN, ps):
                    st = s.heap.get((T('sym', 'self'), o))
                    c.ob('operands stored', f'{k.name} {o}', st is T('sym', pn), ig.func.file, f'{o} is set to {st and show(st)}, not to {pn}')
                    f = norm_facts(s.facts)
                    c.ob('operand types checked', f'{k.name} {pn}', entails(f, c.formula(f'isinstance({pn}, _CoreBase)', k, {pn: T('sym', pn)}, module=core.module)),
                         ig.func.file, f'{k.name} accepts an operand which is not a hunter/checker')
    for base in ('BaseHunter', 'BaseChecker'):
        for op, kinds in (('__or__', ors), ('__and__', ands)):
            g = c.graph(base, op, inline='*')
            for kind, n, v, s in g.exits:
                v = nv(v)
                ok = kind == 'return' and v.op == 'inst' and any(v.args[0] == k.qual for k in kinds) and \
                    c.cls(base) in c.p.mro(next(k for k in kinds if k.qual == v.args[0]))
                order = ok and [show(x) for x in list(v.args[1]) + [y for _, y in v.args[2]]]
                other = g.func.node.args.args[1].arg
                c.ob('operator builds its combination in order', f'{base}.{op}', ok and order == ['self', other], g.func.file,
                     f'{base}.{op} returns {show(v)}')
    # leaves
    g = c.graph(core, 'reset', inline='*')
    st = N(g, lambda e: e.kind == 'store' and e.name == '_last_result' and e.value is NONE)
    c.ob('leaf reset', '_CoreBase.reset', st and not not_preceded(g, st, exit_nodes(g, ('return',))), g.func.file, 'reset does not clear the last result')
    for k in c.p.subclasses(core):
        if 'reset' in k.methods and k not in combis and k.name != '_CombiCore':
            g = c.graph(k, 'reset', inline='*')
            st = N(g, lambda e: e.kind == 'store' and e.name == '_last_result' and e.value is NONE)
            c.ob('leaf reset', f'{k.name}.reset', st and not not_preceded(g, st, exit_nodes(g, ('return',))), g.func.file, 'reset does not clear the last result')
    g = c.graph(core, 'str_with_result', inline='*')
    for kind, n, v, s in g.exits:
        c.ob('leaf report shows last result', '_CoreBase.str_with_result', contains(v, lambda x: is_self_attr(x, '_last_result')), g.func.file,
             f'str_with_result is {show(v)}')
    g, nm = generator_graph(c, core, '__iter__')
    ys = N(g, kind='yield')
    for kind, n, v, s in g.exits:
        v = nv(v)
        one = v.op == 'call' and v.args[0] == 'iter' and len(v.args[2]) == 1 and v.args[2][0].op in ('list', 'tuple') and \
            [show(x) for x in v.args[2][0].args] == ['self'] or len(ys) == 1 and show(nv(g.ev[ys[0]].value)) == 'self'
        c.ob('leaf iteration', '_CoreBase.__iter__', one, g.func.file, f'a leaf does not iterate over itself once: {show(v)}')
