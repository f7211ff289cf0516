"""Every exception edge of the wrapper around an optimizer is followed, for each class of exceptions which can come out of the optimizer (and
out of setting up its evaluation wrapper), with helpers inlined: no way out of the wrapper leaves out the closing message put in the queue,
exactly once and after the optimizer ended; errors send one message with the traceback and leave the wrapper as the same exception; interrupts
leave it quietly. The thread class and the redirecting wrapper let the error through and the exit code distinguishes it; each worker is started
on the wrapper. In the manager: the crash message is always recorded and never forgotten, a worker which died in error is not written off
before its last message was read, none of this raises; under the assumption that five and more optimizers were started and crashed without an
evaluation no path starts another and every path raises, and the count of optimizers since the last evaluation is not reset before one."""
import ast

from sa.core import *
from sa.mgr import GRAVE, PACKS, SELF, alive, is_bury, bury_of, part

TECHNIQUE = 'exception-edge analysis of the optimizer wrapper; path feasibility of the crash loop under assumed facts; effect census'
ASSUMPTIONS = ['putting in the results queue with put delivers', 'the optimizer sends no message with key 9 of its own',
               'exceptions which are not errors (SystemExit) only owe the closing message']
ERRORS = ('Exception', 'ValueError', 'RuntimeError', 'AttributeError', 'OSError', 'EOFError', 'ImportError', 'KeyError', 'ZeroDivisionError',
          'MemoryError', 'StopIteration', 'NotImplementedError', 'TypeError', 'ConnectionResetError', 'FileNotFoundError', 'AssertionError')
INTERRUPTS = ('KeyboardInterrupt', 'BrokenPipeError')
OTHER = ('SystemExit', 'GeneratorExit')
TRACE = 'Traceback (most recent call last)'
QUEUE, PIPE = sattr('_results_queue'), sattr('_signal_pipe')


def check(c):
    wrapper(c)
    thread(c)
    targets(c)
    received(c)
    written_off(c)
    crash_loop(c)


# ------------------------------------------------------------------ the wrapper
def wrapper(c):
    k = c.cls('BaseOptimizer')
    ids = {sattr('_opt_id'), sattr('opt_id')}
    for where_from in ('minimize', '_MessagingWrapper'):
        for x in ERRORS + INTERRUPTS + OTHER:
            for second in ((), ('send',)) if x in ERRORS else ((),):
                one(c, k, where_from, x, second, ids)


def one(c, k, source, x, second, ids):
    def raises(name, recv, a, kw):
        return (x,) if name == source else ('BrokenPipeError',) if name in second else ()
    raises.all = True
    g = c.graph(k, '_minimize', exc='none', inline='*', raises=raises)
    where = f'{g.func.file}:{g.func.node.lineno}'
    puts = set(N(g, lambda e: e.kind == 'call' and e.name == 'put' and rv(e) is QUEUE and av(e, 0) in ids))
    runs = set(N(g, lambda e: e.kind in ('call', 'exc') and e.name == 'minimize' and rv(e) is SELF))
    if source == 'minimize' and not second:
        c.need('runs of the optimizer', len(runs))
        for n in N(g, lambda e: e.kind == 'call' and rv(e) is QUEUE and e.name != 'put'):
            c.ob('the manager is told that no more results follow', f'_minimize: {g.ev[n].name}', False, g.ev[n].where, 'the closing message may stay in the cache of the queue')

    def step(q, n, e):
        fault, put, sent = q
        if e.kind == 'exc' and e.name == source:
            fault = True
        if n in runs and put:
            return '!', 'the manager is told that no more results follow before the optimizer has ended'
        if n in puts:
            if put:
                return '!', 'the closing message is put twice'
            put = True
        if e.kind in ('call', 'exc') and e.name == 'send' and rv(e) is PIPE:
            m = av(e, 0) if e.args else None
            key = m.args[0] if m is not None and m.op == 'tuple' and m.args else m
            if key is const(9):
                if not fault or x not in ERRORS:
                    return '!', 'a crash is reported although there was no error'
                if sent and e.kind == 'call':
                    return '!', 'the crash is reported twice'
                if not any(y.op == 'call' and y.args[0].rsplit('.', 1)[-1] in ('format', 'format_exc', 'format_exception', 'format_tb', 'print_exc') for z in m.args for y in subterms(z)):
                    return '!', 'the traceback is not sent'
                sent = True
        return fault, put, sent
    at = run_automaton(c, 'the manager is told that no more results follow', '_minimize', g, (False, False, False), step)
    failed = 0
    for kind, n, v, st in g.exits:
        for fault, put, sent in at.get(n, ()):
            c.ob('the manager is told that no more results follow', f'_minimize: {kind}', put, where, f'no closing message when {source} ' + (f'raises {x}' if fault else 'ends'))
            if not fault:
                c.ob('an optimizer which ends is not a crash', '_minimize', kind == 'return', where, 'an optimizer which ended raises')
                continue
            failed += 1
            if x in INTERRUPTS and source == 'minimize':
                c.ob('an interrupt ends the worker quietly', f'_minimize: {x}', kind == 'return', where, f'{x} is not handled')
            elif x in ERRORS:
                c.ob('an error is announced', f'_minimize: {x}', sent, where, f'the manager does not learn of {x}')
                same = kind == 'raise' and nv(v).op == 'exc' and nv(v).args[0] in ((x,) if not second else (x, 'BrokenPipeError'))
                c.ob('an error ends the worker in error', f'_minimize: {x}', same, where, f'{x} does not leave the worker' if kind == 'return' else f'{x} leaves the worker as {show(nv(v))}')
    if not failed:
        c.ob('the manager is told that no more results follow', '_minimize', False, where, f'{x} raised by {source} is never seen')


# ------------------------------------------------------------------ workers
def thread(c):
    k = c.cls('CustomThread')
    init = c.graph(k, '__init__', exc='none', inline='*')
    ok = bool(init.exits)
    for kind, n, v, st in init.exits:
        ok = ok and nv(st.heap.get((SELF, 'exitcode'))) is const(0) if (SELF, 'exitcode') in st.heap else False
    c.ob('the exit code tells an error', 'CustomThread.__init__', ok, f'{init.func.file}:{init.func.node.lineno}', 'a thread does not begin with exit code 0')
    for x in (None,) + ERRORS:
        def raises(name, recv, a, kw):
            return (x,) if x and name == 'run' else ()
        raises.all = True
        g = c.graph(k, 'run', exc='none', inline='*', raises=raises)
        where = f'{g.func.file}:{g.func.node.lineno}'
        runs = N(g, lambda e: e.kind == 'call' and e.name == 'run')
        c.ob('the worker runs the optimizer', 'CustomThread.run', bool(runs), where, 'the thread never runs its target')

        def step(q, n, e):
            return q or e.kind == 'exc' and e.name == 'run'
        at = run_automaton(c, 'the exit code tells an error', 'CustomThread.run', g, False, step)
        for kind, n, v, st in g.exits:
            code = nv(st.heap[(SELF, 'exitcode')]) if (SELF, 'exitcode') in st.heap else const(0)
            for fault in at.get(n, ()):
                if fault:
                    c.ob('the exit code tells an error', f'CustomThread.run: {x}', code.op == 'const' and bool(code.args[0]), where, f'after {x} the exit code is {show(code)}')
                    c.ob('an error ends the worker in error', f'CustomThread.run: {x}', kind == 'raise', where, f'{x} is swallowed')
                elif kind == 'return' and x is None:
                    c.ob('the exit code tells an error', 'CustomThread.run', code is const(0), where, 'a thread which ended well does not have the exit code 0')
    f = next(y for y in c.p.all_funcs() if y.name == 'process_print_redirect')
    target = f.node.args.args[2].arg
    for x in ERRORS[:4] + INTERRUPTS:
        def raises(name, recv, a, kw):
            return (x,) if name == target else ()
        raises.all = True
        hit = 0
        for w in nested(f):
            g = c.run(w, exc='none', inline='*', raises=raises)
            if not N(g, lambda e: e.kind == 'call' and e.name == target):
                continue
            hit += 1

            def step(q, n, e):
                return q or e.kind == 'exc' and e.name == target
            at = run_automaton(c, 'an error ends the worker in error', 'process_print_redirect', g, False, step)
            for kind, n, v, st in g.exits:
                if True in at.get(n, ()):
                    c.ob('an error ends the worker in error', f'process_print_redirect: {x}', kind == 'raise', f'{f.file}:{w.node.lineno}', f'{x} is swallowed')
        c.ob('the worker runs the optimizer', 'process_print_redirect', hit > 0, f'{f.file}:{f.node.lineno}', 'the redirected function is never called')


def targets(c):
    """Every worker is started on the wrapper."""
    total = 0
    for m in ('_start_new_job', 'load_checkpoint'):
        g = c.graph('GloMPOManager', m, exc='none', inline=('_start_new_job',) if m != '_start_new_job' else (), entry_cap=4)
        for n in N(g, lambda e: e.kind == 'call' and e.name is not None and e.name.rsplit('.', 1)[-1] in ('Process', 'CustomThread', 'Thread')):
            e = g.ev[n]
            kw = {k: nv(v) for k, v in (e.kw.items() if isinstance(e.kw, dict) else e.kw or ())}
            t = kw.get('target')
            if t is None:
                d = kw.get('**')
                t = next((y.args[1] for y in d.args if y.op == 'tuple' and y.args[0] is const('target')), None) if d is not None and d.op == 'dict' else None
            total += 1
            c.ob('workers run the wrapper', f'{m}: {e.name}', t is not None and wraps(t), e.where, f'a worker is started on {show(t)[:80]}' if t is not None else 'the target of a worker is not known')
    c.need('workers started', total, 2)


def wraps(t):
    if t.op == 'ite':
        return wraps(t.args[1]) and wraps(t.args[2])
    if t.op == 'call' and t.args[0] == 'process_print_redirect':
        return any(wraps(x) for x in t.args[2]) or any(wraps(v) for k, v in t.args[3] or () if isinstance(v, T))
    if t.op == 'bound':
        return str(t.args[1]).endswith('._minimize')
    return t.op == 'attr' and t.args[1] == '_minimize' or t.op == 'closure'


# ------------------------------------------------------------------ the manager
def received(c):
    """The crash message is recorded; what is known of a crash is not forgotten."""
    total = 0
    old = truth(sattr('opt_crashed'))
    for m in ('_check_signals', '_checkpoint_optimizers'):
        g = c.graph('GloMPOManager', m, exc='none', inline=('_check_signals',), entry_cap=4)
        for n in N(g, lambda e: e.kind == 'store' and e.name == 'opt_crashed'):
            e = g.ev[n]
            total += 1
            fs = facts_at(g, n)
            v = nv(e.value)
            text = [y for y in subterms(v) if y.op == 'in' and y.args[0].op == 'const' and str(y.args[0].args[0]) in TRACE]
            for f in fact_formulas(fs):
                text += [y for y in subterms(f) if y.op == 'in' and y.args[0].op == 'const' and str(y.args[0].args[0]) in TRACE]
            c.ob('a crash is remembered', f'{m}: forgotten', not satisfiable(fs, mk_and([old, mk_not(truth(v))])), e.where, 'a later message can take back that an optimizer crashed')
            ok = decide(truth(v), fs) is True or bool(text) and all(not satisfiable(fs, mk_and([y, mk_not(truth(v))])) for y in text)
            c.ob('a crash is remembered', f'{m}: noticed', ok, e.where, 'a message with a traceback does not count as a crash')
        crash = 0
        for n in N(g, lambda e: e.kind == 'call' and e.name == 'recv'):
            crash += 1
        c.need(f'messages received in {m}', crash)
        key9(c, m, g)
    c.ob('a crash is remembered', 'GloMPOManager', total > 0, '', 'no crash is ever remembered')
    for f in c.p.all_funcs():
        for node in ast.walk(f.node):
            for t in (node.targets if isinstance(node, ast.Assign) else [node.target] if isinstance(node, (ast.AnnAssign, ast.AugAssign)) else ()):
                for z in ast.walk(t):
                    if isinstance(z, ast.Attribute) and z.attr == 'opt_crashed' and f.name not in ('__init__', 'load_checkpoint', 'setup'):
                        val = getattr(node, 'value', None)
                        c.ob('a crash is remembered', f'{f.name}: census', not isinstance(val, ast.Constant) or bool(val.value), f'{f.file}:{node.lineno}', 'it is forgotten that an optimizer crashed')


def key9(c, m, g):
    """On every path on which a message with key 9 is handled it is logged and tested for a crash."""
    recv = [nv(g.ev[n].value) for n in N(g, lambda e: e.kind == 'call' and e.name == 'recv')]
    is9 = [rel(T('idx', r, const(0)), const(9), '==') for r in recv]

    def step(q, n, e):
        if e.kind == 'call' and e.name == 'recv':
            return 'got'
        if q in ('got', 'nine') and e.kind == 'store' and e.name == 'opt_crashed':
            return 'noted'
        fs = facts_at(g, n)
        if q == 'got' and any(entails(fs, f) for f in is9):
            q = 'nine'
        if q == 'nine' and any(y.op == 'in' and y.args[0].op == 'const' and str(y.args[0].args[0]) in TRACE and entails(fs, mk_not(y)) for f in fact_formulas(fs) for y in subterms(f)):
            q = 'noted'
        if q == 'nine' and e.kind == 'iterend':
            return '!', 'a crash message is dropped without noting that an optimizer crashed'
        return q
    at = run_automaton(c, 'a crash is remembered', m, g, None, step)
    for kind, n, v, st in g.exits:
        c.ob('a crash is remembered', f'{m}: noted', 'nine' not in at.get(n, ()), f'{g.func.file}:{g.func.node.lineno}', 'a crash message is dropped without noting that an optimizer crashed')
    if not N(g, lambda e: any(entails(facts_at(g, N(g, lambda y: y is e)[0]), f) for f in is9) if e.kind == 'store' and e.name == 'opt_crashed' else False):
        c.ob('a crash is remembered', f'{m}: key', False, f'{g.func.file}:{g.func.node.lineno}', 'crash messages (key 9) are not noted')


def written_off(c):
    """The last messages of a worker which died in error are read before it is written off; none of it raises."""
    g = c.graph('GloMPOManager', '_inspect_children', exc='none', inline=('_check_signals',), hold={'is_alive'})
    where = f'{g.func.file}:{g.func.node.lineno}'

    def code(fs, x):
        """True: died in error."""
        for f in fact_formulas(fs):
            for y in subterms(f):
                if y.op == 'attr' and y.args[1] == 'exitcode' and part(y.args[0], 'process') is x:
                    if entails(fs, mk_not(rel(y, const(0), '=='))):
                        return True
        return False

    def step(q, n, e):
        if e.kind in ('iter', 'iterend', 'loopexit'):
            return frozenset()
        if e.kind == 'call' and e.name == 'poll':
            x = part(rv(e), 'signal_pipe')
            return q | {x} if x is not None else q
        if is_bury(e):
            x = bury_of(e)
            if x not in q and code(facts_at(g, n), x):
                return '!', 'a worker which died in error is written off before its last messages are read'
        return q
    run_automaton(c, 'the traceback of a crash is received', '_inspect_children', g, frozenset(), step)
    dead = [n for n in N(g, is_bury) if code(facts_at(g, n), bury_of(g.ev[n]))]
    c.ob('an error in a worker is noticed', '_inspect_children', bool(dead), where, 'a worker with a failure code is never written off')
    for n in dead:
        x = bury_of(g.ev[n])
    for m in ('_inspect_children', '_check_signals'):
        h = c.graph('GloMPOManager', m, exc='none', inline=('_check_signals',))
        c.ob('an error in a worker does not stop the manager', m, not any(kind == 'raise' for kind, *_ in h.exits), f'{h.func.file}:{h.func.node.lineno}', 'the manager raises when a worker failed')


def crash_loop(c):
    m = '_fill_optimizer_slots'
    last = sattr('last_opt_spawn')
    l0, l1, fc, oc = T('idx', last, const(0)), T('idx', last, const(1)), sattr('f_counter'), sattr('o_counter')
    crashed = truth(sattr('opt_crashed'))
    loop = [crashed, rel(l0, fc, '=='), rel(oc, add(l1, const(1000)), '>')]
    g = c.graph('GloMPOManager', m, exc='none', assume=tuple(loop), entry_cap=4)
    where = f'{g.func.file}:{g.func.node.lineno}'
    starts = N(g, lambda e: e.kind == 'call' and e.name in ('_start_new_job', 'start'))
    c.ob('crashing at start-up ends', m, not starts, where, 'optimizers are started although all before crashed at once')
    c.ob('crashing at start-up ends', m + ': raised', bool(g.exits) and all(k == 'raise' for k, *_ in g.exits), where, 'the run goes on although optimizers crash at once')
    g = c.graph('GloMPOManager', m, exc='none', entry_cap=4)
    starts = N(g, lambda e: e.kind == 'call' and e.name in ('_start_new_job', 'start'))
    c.need('starts of optimizers', len(starts))
    # without a crash only a selector which offers nothing while nothing runs is an error
    for name, f in (('no crash', mk_not(crashed)), ('evaluations since', rel(l0, fc, '!=')), ('few optimizers', rel(oc, l1, '<='))):
        g = c.graph('GloMPOManager', m, exc='none', assume=(f,), entry_cap=4)
        asks = set(N(g, lambda e: e.kind == 'call' and e.name == '_setup_new_optimizer'))
        c.ob('a crash does not stop the manager', f'{m}: {name}', bool(asks), where, f'no optimizers are started ({name})')
        sites = set(enclosing(g, asks))
        early = [n for n in N(g, lambda e: e.kind == 'raise') if not seen(g, asks | set(N(g, lambda e: e.kind == 'loopexit' and e.site in sites)), n)]
        for n in early:
            c.ob('a crash does not stop the manager', f'{m}: {name}', False, g.ev[n].where, f'the manager is stopped although there was no crash loop ({name})')
    # the count begins at the last evaluation
    for name, f, want in (('kept', rel(l0, fc, '=='), None), ('renewed', rel(l0, fc, '!='), fc)):
        g = c.graph('GloMPOManager', m, exc='none', assume=(f,), entry_cap=4)
        any_start = set(N(g, lambda e: e.kind == 'call' and e.name in ('_start_new_job', 'start')))
        for kind, n, v, st in g.exits:
            if kind != 'return':
                continue
            t = nv(st.heap[(SELF, 'last_opt_spawn')]) if (SELF, 'last_opt_spawn') in st.heap else last
            if want is None:
                c.ob('crashing at start-up ends', f'{m}: {name}', same(t, last), where, f'the count of optimizers since the last evaluation restarts without one ({show(t)[:80]})')
            elif t is not last:
                ok = t.op == 'tuple' and len(t.args) == 2 and t.args[0] is fc
                c.ob('crashing at start-up ends', f'{m}: {name}', ok or same(t, last), where, f'the last start is recorded as {show(t)[:80]}')


def same(t, last):
    if t is last:
        return True
    return t.op == 'tuple' and len(t.args) == 2 and all(x is T('idx', last, const(i)) for i, x in enumerate(t.args))


def seen(g, marks, n):
    """Some node of marks lies on every path to n."""
    return not not_preceded(g, marks, {n})
