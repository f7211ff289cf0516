"""Three links are followed. In the wrapper of the task every path to a return contains one evaluation at the vector given and one put of an
IterationResult whose fields are the number of the optimizer, a copy of the vector, the value and the extra values of that evaluation; what
is returned is that same value. In the result loop an automaton follows each element of each chunk: on every path a chunk is worked through
completely, an element which the facts show to be a result of an optimizer which has not been killed is handed to the log once and counted
once, any other neither. In the logs each record adds one to the counter once and appends one row with the fields of the record. Nothing else
counts or records."""
from sa.core import *
from sa.mgr import *
from sa.engine import VOCAB

TECHNIQUE = 'at-most-once/must-follow automata over all paths with facts; term provenance; effect scan'
ASSUMPTIONS = ['tasks do not change the vector they are given', 'evaluations made for generators (annealing) are counted by the generator itself',
               'an error which ends the session may interrupt the work on a chunk']
QUEUE = sattr('optimizer_queue')
COPIES = {'copy.copy', 'copy.deepcopy', 'numpy.array', 'numpy.copy', 'list', 'tuple', 'copy', 'numpy.asarray'} - {'numpy.asarray'}


def check(c):
    sender(c)
    wrapped(c)
    receiver(c)
    logs(c)
    flushed(c)
    elsewhere(c)


# ------------------------------------------------------------------ one evaluation, one result
def sender(c):
    k = c.cls('_MessagingWrapper')
    for m, full in (('__call__', False), ('detailed_call', True)):
        g = c.graph(k, m, inline='*')
        where = f'{g.func.file}:{g.func.node.lineno}'
        x = T('sym', g.func.node.args.args[1].arg)
        copied = lambda t: t is not None and t.op == 'call' and t.args[0] in COPIES and (t.args[1] is x or len(t.args[2]) == 1 and t.args[2][0] is x) or \
            t is not None and t.op in ('list', 'tuple') and t.args == (T('star', x),) or \
            t is not None and t.op == 'slice' and t.args[0] is x and all(y in (NONE, None) for y in t.args[1:])
        evals = N(g, lambda e: e.kind == 'call' and (rv(e) is sattr('func') or e.name == 'func' and rv(e) in (SELF, None)))
        puts = N(g, lambda e: e.kind == 'call' and e.name in ('put', 'put_nowait') and rv(e) is sattr('results_queue'))
        for n in evals:
            a = av(g.ev[n], 0)
            c.ob('the vector given is evaluated', m, (a is x or copied(a)) and len(g.ev[n].args) == 1, g.ev[n].where, f'the task is evaluated at {show(a or NONE)[:80]}')

        def step(q, n, e):
            value, put = q
            if n in evals:
                return ('!', 'the task is evaluated twice') if value is not None else (nv(e.value), put)
            if n in puts:
                if put:
                    return '!', 'an evaluation is sent twice'
                f = dict(nv(e.args[0]).args[1]) if e.args and nv(e.args[0]).op == 'ntup' else {}
                if value is None:
                    return '!', 'something is sent which has not been evaluated'
                fx = value if value.args[0] == 'func' or value.args[1] is None else T('idx', value, const(0))
                if f.get('opt_id') is not sattr('opt_id'):
                    return '!', f'a result is sent with the number {show(f.get("opt_id", NONE))[:60]}'
                if not copied(f.get('x')):
                    return '!', f'the vector sent is {show(f.get("x", NONE))[:60]}, not a copy of what was evaluated'
                if f.get('fx') is not fx:
                    return '!', f'the value sent is {show(f.get("fx", NONE))[:80]}'
                rest = f.get('extras')
                ok = rest is not None and (rest in (T('tuple'), T('list')) if fx is value else tail(rest, value))
                if not ok:
                    return '!', f'the extra values sent are {show(rest or NONE)[:80]}'
                return value, True
            return q
        at = run_automaton(c, 'one result is sent per evaluation', m, g, (None, False), step, keep=lambda e: e.name in ('put', 'put_nowait', 'func', 'detailed_call'))
        for kind, n, v, st in g.exits:
            if kind != 'return':
                continue
            for q in at.get(n, ()):
                value, put = q
                c.ob('one result is sent per evaluation', f'{m}: always', value is not None and put, where, 'an evaluation is not sent to the manager')
                if value is not None:
                    fx = value if value.args[0] == 'func' or value.args[1] is None else T('idx', value, const(0))
                    want = {value} if full else {fx}
                    if full and fx is value:
                        want = {T('tuple', value)}
                    t = nv(v)
                    while full and t.op == 'call' and t.args[0] in ('tuple', 'list') and len(t.args[2]) == 1:
                        t = t.args[2][0]
                    c.ob('the optimizer receives the value sent', m, t in want, where, f'the optimizer is given {show(nv(v))[:80]}')


def tail(t, value):
    """Everything in a sequence after the first."""
    while t.op == 'call' and t.args[0] in ('list', 'tuple') and len(t.args[2]) == 1 or t.op in ('list', 'tuple') and len(t.args) == 1 and t.args[0].op == 'star':
        t = t.args[2][0] if t.op == 'call' else t.args[0].args[0]
    return t.op == 'slice' and t.args[0] is value and t.args[1] is const(1) and t.args[2] in (NONE, None) and t.args[3] in (NONE, None, const(1))


def wrapped(c):
    """Optimizers are handed the wrapper, which knows their number and their channel."""
    k = c.cls('BaseOptimizer')
    g = c.graph(k, '_minimize', inline='*')
    fn = T('sym', g.func.node.args.args[1].arg)
    mins = N(g, lambda e: e.kind == 'call' and e.name == 'minimize' and rv(e) is SELF)
    c.need('calls of minimize', len(mins))
    init = [a.arg for a in c.meth(c.cls('_MessagingWrapper'), '__init__').node.args.args][1:]
    for n in mins:
        e = g.ev[n]
        a = av(e, 0, 'function')
        f = {}
        if a is not None and a.op == 'inst' and a.args[0].endswith(':_MessagingWrapper'):
            f = dict(zip(init, a.args[1]))
            f.update(dict(a.args[2]) if a.args[2] else {})
        want = {'func': fn, 'results_queue': sattr('_results_queue'), 'opt_id': sattr('_opt_id'), 'is_log_detailed': sattr('is_log_detailed')}
        for name, t in want.items():
            c.ob('optimizers use the wrapped task', f'_minimize: {name}', f.get(name) is t, e.where,
                 f'the optimizer is given {show(a or NONE)[:120]}')


# ------------------------------------------------------------------ results
def receiver(c):
    k = c.cls('GloMPOManager')
    m = '_process_results'

    def of_interest(f):
        return contains(f, lambda x: x.op == 'attr' and x.args[1] == 'hunt_victims' or x.op == 'call' and x.args[0] == 'isinstance' or x.op == 'isinstance')
    g = c.run(c.meth(k, m), cls=k, inline=(), exc='try', keep=of_interest)
    gets = set(N(g, lambda e: e.kind == 'call' and e.name in ('get', 'get_nowait') and rv(e) is QUEUE))
    c.need('chunks taken from the queue', len(gets))

    def chunk(e):
        return e.target is not None and contains(nv(e.target), lambda x: x.op == 'call' and x.args[0] in ('get', 'get_nowait') and x.args[1] is QUEUE)

    def elem_of(t):
        """The result itself."""
        return t is not None and t.op == 'elem' and contains(t.args[0], lambda x: x.op == 'call' and x.args[0] in ('get', 'get_nowait') and x.args[1] is QUEUE)
    seen = {}

    def evidence(n):
        """(is a number, has been killed); None if not known."""
        if n not in seen:
            a = b = None
            f = facts_at(g, n)
            for z in fact_formulas(f):
                for y in subterms(z):
                    if y.op == 'truth' and y.args[0].op in ('isinstance', 'call') and contains(y, elem_of) and contains(y, lambda x: x is T('ext', 'int')):
                        a = True if entails(f, y) else False if entails(f, mk_not(y)) else a
                    if y.op == 'truth' and contains(y, elem_of) and contains(y, lambda x: x.op == 'cls' and x.args[0].endswith('IterationResult')):
                        a = False if entails(f, y) else True if entails(f, mk_not(y)) else a
                    if y.op == 'in' and y.args[1] is VICTIMS and elem_of(strip_id(y.args[0])):
                        b = True if entails(f, y) else False if entails(f, mk_not(y)) else b
            seen[n] = (a, b)
        return seen[n]

    def strip_id(t):
        return t.args[0] if t.op == 'attr' and t.args[1] == 'opt_id' else t.args[0] if t.op == 'idx' and t.args[1] is const(0) else t
    one = add(sattr('f_counter'), const(1))

    def step(q, n, e):
        left, at, number, dead, puts, counts = q
        if n in gets:
            return ('!', 'a chunk of results is not worked through') if left else (True, None, None, None, 0, 0)
        if e.kind == 'iter' and chunk(e):
            return (True, e.site, None, None, 0, 0)
        if e.kind == 'loopexit' and chunk(e):
            return (False, None, None, None, 0, 0)
        if at is not None:
            a, b = evidence(n)
            number = a if number is None else number
            dead = b if dead is None else dead
        if e.kind == 'call' and e.name == 'put_iteration' and rv(e) is LOG:
            if at is None or not elem_of(av(e, 0)):
                return '!', f'{show(av(e, 0) or NONE)[:80]} is recorded, which is not one of the results'
            if dead is not False:
                return '!', 'an evaluation of an optimizer which may have been killed is recorded'
            if puts:
                return '!', 'an evaluation is recorded twice'
            puts = 1
        if e.kind == 'store' and e.name == 'f_counter' and rv(e) is SELF:
            if nv(e.value) is not one or at is None:
                return '!', f'the evaluations used are set to {show(nv(e.value))[:60]}'
            if dead is not False:
                return '!', 'an evaluation of an optimizer which may have been killed is counted'
            if counts:
                return '!', 'an evaluation is counted twice'
            counts = 1
        if e.kind == 'iterend' and at is not None and e.site == at:
            if number or dead:
                if puts or counts:
                    return '!', 'something which is not a result of a living optimizer is recorded or counted'
            elif not puts:
                return '!', 'an evaluation is not recorded'
            elif not counts:
                return '!', 'an evaluation is not counted'
            return (True, at, None, None, 0, 0)
        if left and n in ends:
            return '!', 'a chunk of results is not worked through'
        return (left, at, number, dead, puts, counts)
    ends = set(exit_nodes(g, ('return',)))
    run_automaton(c, 'each result is recorded and counted once', m, g, (False, None, None, None, 0, 0), step,
                  keep=lambda e: e.name in ('get', 'put_iteration', 'f_counter') or e.kind in ('iter', 'iterend') and chunk(e))
    c.count('nodes of the result loop', len(g.ev))


# ------------------------------------------------------------------ logs
def logs(c):
    base = c.cls('BaseLogger')
    g = c.graph(base, 'put_iteration', inline='*', exc='none')
    rec = T('sym', g.func.node.args.args[1].arg)
    fld = lambda name: T('attr', rec, name)
    cnt = [n for n in stores(g, '_f_counter')]
    for n in cnt:
        c.ob('each record is counted by the log', 'BaseLogger', nv(g.ev[n].value) is add(sattr('_f_counter'), const(1)), g.ev[n].where,
             f'the counter of the log is set to {show(nv(g.ev[n].value))[:80]}')

    def step(q, n, e):
        if n in cnt:
            return ('!', 'a record is counted twice') if q else True
        if n in ends and not q:
            return '!', 'a record is not counted'
        return q
    ends = set(exit_nodes(g, ('return',)))
    run_automaton(c, 'each record is counted by the log', 'BaseLogger', g, False, step, keep=lambda e: e.name == '_f_counter')
    for k in c.p.subclasses(base):
        f = k.methods.get('put_iteration')
        if f is None or k is base:
            continue
        g = c.graph(k, 'put_iteration', inline='*', exc='try', idx_exc=True)
        one = add(sattr('_f_counter'), const(1))
        rec = T('sym', f.node.args.args[1].arg)
        adds = N(g, lambda e: e.kind == 'call' and e.name in ('append', 'extend') and rv(e).op == 'idx' and rv(e).args[0] is sattr('_writing_chunk'))
        for n in adds:
            e = g.ev[n]
            t = nv(e.args[0])
            rows = t.args if t.op == 'list' else ()
            row = rows[0] if len(rows) == 1 and e.name == 'append' else None
            if row is not None and e.name == 'append' and row.op == 'tuple':
                have = row.args
                ok = len(have) == 4 and have[1] is T('attr', rec, 'x') and have[2] is T('attr', rec, 'fx') and have[3] is T('star', T('attr', rec, 'extras'))
            else:
                ok = False
            c.ob('a record is one row', k.name, ok, e.where, f'the row is {show(t)[:160]}')

        def step2(q, n, e):
            if n in adds:
                return ('!', 'a record is written twice') if q else True
            if n in ends2 and not q:
                return '!', 'a record is not written'
            return q
        ends2 = set(exit_nodes(g, ('return',)))
        run_automaton(c, 'a record is one row', k.name, g, False, step2, keep=lambda e: e.name == 'append')
        up = stores(g, '_f_counter')
        pre = not_preceded(g, up, adds)
        c.ob('a record is numbered before it is written', k.name, not pre, f'{f.file}:{f.node.lineno}', 'a row is written before its number is known',
             describe_path(g, pre[0][1]) if pre else None)

        def step3(q, n, e):
            if n in up:
                return ('!', 'a record is counted twice') if q or nv(e.value) is not one else True
            return q
        run_automaton(c, 'each record is counted by the log', k.name, g, False, step3, keep=lambda e: e.name == '_f_counter')


def flushed(c):
    """Rows are forgotten when they have been written, and only then."""
    k = c.cls('FileLogger')
    buf = sattr('_writing_chunk')
    for m in ('flush', 'clear_cache'):
        if k.methods.get(m) is None:
            continue
        g = c.run(k.methods[m], cls=k, inline='*', exc='none') if m == 'flush' else \
            c.run(k.methods[m], cls=k, inline=(), exc='none', keep=lambda f: contains(f, lambda x: x is buf))
        row = lambda t: t is not None and t.op == 'idx' and t.args[0] is buf
        writes = set(N(g, lambda e: e.kind == 'call' and e.name == 'append' and row(av(e, 0)) and not row(rv(e))))
        drops = set(N(g, lambda e: e.kind in ('storeidx', 'del') and rv(e) is buf or e.kind == 'call' and e.name in ('clear', 'pop') and (row(rv(e)) or rv(e) is buf)))
        ends = set(exit_nodes(g, ('return',)))
        size = lambda x: T('call', 'len', None, (x,), (), None)

        def empty(n):
            f = facts_at(g, n)
            xs = {y for z in fact_formulas(f) for y in subterms(z) if row(y)}
            return any(entails(f, rel(size(x), const(0), '<=')) or entails(f, rel(size(x), const(0), '==')) or entails(f, mk_not(truth(x))) for x in xs)

        def step(q, n, e):
            if m != 'flush' and e.kind == 'call' and e.name == 'flush' and rv(e) is SELF:
                return ('flushed', av(e, 0, 'opt_id'))
            if isinstance(q, tuple) and n in drops:
                x = av(e, 0)
                return 'clean' if q[1] in (None, NONE) or q[1] is x else ('!', 'rows of another optimizer are dropped')
            if q is None and empty(n):
                q = 'clean'
            if n in writes:
                return ('!', 'rows may be written twice') if q == 'written' else 'written'
            if n in drops:
                return 'clean' if q is not None else ('!', 'rows which have not been written are dropped')
            if e.kind in ('iterend',) or n in ends:
                if q == 'written':
                    return '!', 'rows which have been written are kept: they would be written again'
                return None if e.kind == 'iterend' and e.target is not None else q
            return q
        run_automaton(c, 'rows are written once', f'{k.name}.{m}', g, None, step, keep=lambda e: e.name in ('append', '_writing_chunk') or e.kind in ('storeidx', 'del'))
        c.ob('rows are written once', f'{k.name}.{m}: written', bool(writes) or m != 'flush', f'{g.func.file}:{g.func.node.lineno}', 'rows are never written')


# ------------------------------------------------------------------ the rest
def elsewhere(c):
    """Nothing else counts or records evaluations."""
    fs = list(c.p.all_funcs())
    hits = {}
    for f in fs:
        for x in ast.walk(f.node):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'put_iteration' and not \
                    (isinstance(x.func.value, ast.Call) and isinstance(x.func.value.func, ast.Name) and x.func.value.func.id == 'super'):
                hits.setdefault(f, (x.lineno, 'records evaluations'))
            if isinstance(x, (ast.Assign, ast.AugAssign)):
                for t in x.targets if isinstance(x, ast.Assign) else [x.target]:
                    for y in ast.walk(t):
                        if isinstance(y, ast.Attribute) and y.attr == 'f_counter' and isinstance(y.ctx, ast.Store) and isinstance(y.value, ast.Name) and y.value.id == 'self' \
                                and f.cls is not None and getattr(f.cls, 'name', f.cls) == 'GloMPOManager':
                            hits.setdefault(f, (x.lineno, 'changes the number of evaluations used'))
    home = {'_process_results', '__init__', 'load_checkpoint'}
    n_ = 0
    for f, (line, what) in hits.items():
        n_ += 1
        todo, users = [f], set()
        while todo:                  # functions which are part of others are judged there
            x = todo.pop()
            if x.qual in VOCAB:
                users.add(x.name)
                continue
            for y in fs:
                if y not in users and y is not x and any(isinstance(z, ast.Attribute) and z.attr == x.name or isinstance(z, ast.Name) and z.id == x.name for z in ast.walk(y.node)):
                    if (x, y) not in users:
                        users.add((x, y))
                        todo.append(y)
        names = {u for u in users if isinstance(u, str)}
        c.ob('nothing else records or counts', f.name, names <= home, f'{f.file}:{line}', f'{f.name} {what}')
    c.count('places which record or count', n_)
