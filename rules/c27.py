"""Every method of the manager is analysed with the exceptions which operations on a pipe (or queue) of a dead optimizer raise: sending and
receiving get extra exceptional edges for exactly these exceptions, and no such edge may leave the method or end the run. On every path a
signal is received only after a poll of the same pipe (with a time limit) which the facts of the path say was positive, and results are
only awaited with a time limit; once it has run out nothing is awaited again before the loop is left. Loops which wait for optimizers are
decided with one arbitrary optimizer which dies before an iteration: its membership in the sets which control the loop is followed through
the iteration, and when the loop goes on it must not be waited for any more."""
from sa.core import *
from sa.mgr import *
from sa.engine import VOCAB
from rules import c12

TECHNIQUE = 'exception edge analysis; typestate of pipes on paths; representative dead optimizer followed through waiting loops'
ASSUMPTIONS = ['poll does not raise (POSIX pipes)', 'joining a process which is alive may wait for as long as the user configured']
POLLERS = ('multiprocessing.connection.wait', 'connection.wait', 'wait')


def pipe(t):
    """Term of the pipe of an optimizer, or None."""
    return t if t is not None and (part(t, 'signal_pipe') is not None or t.op == 'elem' and contains(t, lambda x: x.op == 'attr' and x.args[1] == 'signal_pipe')) else None


def results(t):
    return t is not None and t.op == 'attr' and t.args[1] == 'optimizer_queue'


def is_get(name):
    return name in ('get', 'get_nowait')


def raises(name, recv, args, kw):
    r = norm_term(recv) if recv is not None else None
    if name == 'send' and pipe(r) is not None:
        return 'BrokenPipeError', 'ConnectionResetError'
    if name in ('recv', 'recv_bytes') and pipe(r) is not None:
        return 'EOFError', 'ConnectionResetError'
    if is_get(name) and results(r):
        return 'Empty',
    return ()


def keep(f):
    return contains(f, lambda x: x.op == 'call' and x.args[0] in ('poll', 'empty') + POLLERS)


def check(c):
    k = c.cls('GloMPOManager')
    known = [m for m in sorted(k.methods) if k.methods[m].qual in VOCAB]
    for m in known:
        f = k.methods[m]
        g = c.run(f, cls=k, inline={'_send_signal'}, exc='none', raises=raises, hold={'poll', 'empty'} | set(POLLERS), keep=keep, cap=16, entry_cap=4)
        if N(g, lambda e: e.kind == 'exc'):
            faults(c, g, m, f)
            reading(c, g, m)
            results_awaited(c, g, m)
        if m != 'start_manager' and N(g, lambda e: e.kind == 'iter' and isinstance(e.node, ast.While)) and N(g, of_optimizer):
            waiting(c, k, m)


def faults(c, g, m, f):
    outer = {h for t in f.node.body if isinstance(t, ast.Try) for h in t.handlers} if m == 'start_manager' else set()
    inner = {}

    def inside(h):
        if h not in inner:
            inner[h] = set(ast.walk(h))
        return inner[h]
    what = {'send': 'sending to', 'recv': 'reading from', 'recv_bytes': 'reading from'}

    def step(q, n, e):
        if e.kind == 'exc':
            return ('exc', e.name, e.extra)
        if q is None:
            return q
        doing = what.get(q[1], 'awaiting results of')
        if q[0] == 'exc':
            if e.kind == 'catch':
                if e.node in outer:
                    return '!', f'{q[2]} while {doing} a closed optimizer ends the optimization'
                return ('catch', *q[1:], e.node)
            if e.kind == 'exit':
                return '!', f'{q[2]} while {doing} a closed optimizer is not caught'
            return q
        if e.kind == 'raise' and e.node in inside(q[3]):
            return '!', f'{q[2]} while {doing} a closed optimizer is raised again'
        return q if e.node is None or e.node in inside(q[3]) or e.kind in ('known', 'join') else None
    c.count('operations on pipes and queues', len({g.ev[n].node for n in N(g, lambda e: e.kind == 'exc')}))
    run_automaton(c, 'closed optimizers are expected', m, g, None, step, keep=lambda e: e.kind in ('exc', 'catch', 'raise'))


def limit(e, i, name):
    """Is the time limit of a wait finite: a number (0 when it is left out where that means not to wait)."""
    v = av(e, i, name)
    return v is not None and finite(v)


def finite(v):
    if v.op == 'const':
        return isinstance(v.args[0], (int, float)) and not v.args[0] == float('inf')
    if v.op == 'ite':
        return finite(v.args[1]) and finite(v.args[2])
    return v.op not in ('none',) and v is not NONE and not contains(v, lambda x: x is NONE)


def reading(c, g, m):
    def polled(f, p):
        """Do the facts say that the pipe was found ready."""
        for z in fact_formulas(f):
            for y in subterms(z):
                if y.op == 'call' and y.args[0] == 'poll' and y.args[1] is p and entails(f, truth(y)):
                    return True
        return False

    def step(fresh, n, e):
        if e.kind in ('iter', 'loopexit'):
            return frozenset()
        if e.kind != 'call':
            return fresh
        if e.name == 'poll' and pipe(rv(e)) is not None:
            if (e.args or e.kw) and not limit(e, 0, 'timeout'):
                return '!', 'a signal is awaited without a time limit'
            return fresh | {rv(e)}
        if e.name in POLLERS and any(contains(nv(a), lambda x: x.op == 'attr' and x.args[1] == 'signal_pipe') for a in e.args):
            if not limit(e, 1, 'timeout'):
                return '!', 'signals are awaited without a time limit'
            return fresh
        if e.name in ('recv', 'recv_bytes') and pipe(rv(e)) is not None:
            p = rv(e)
            if p.op == 'elem' and p.args[0].op == 'call' and p.args[0].args[0] in POLLERS:
                return fresh
            if p not in fresh or not polled(facts_at(g, n), p):
                return '!', 'a signal is read which may not be there'
            return fresh - {p}
        return fresh
    if N(g, lambda e: e.name in ('recv', 'recv_bytes', 'poll') and e.kind == 'call'):
        run_automaton(c, 'signals are read when present', m, g, frozenset(), step, keep=lambda e: e.name in ('poll', 'recv'))


def results_awaited(c, g, m):
    def not_empty(f):
        for z in fact_formulas(f):
            for y in subterms(z):
                if y.op == 'call' and y.args[0] == 'empty' and results(y.args[1]) and entails(f, mk_not(truth(y))):
                    return True
        return False

    def step(q, n, e):
        if e.kind == 'exc' and e.extra == 'Empty':
            return 'starved'
        if e.kind in ('loopexit', 'break'):
            return None
        if e.kind == 'call' and is_get(e.name) and results(rv(e)):
            block, t = av(e, 0, 'block'), av(e, 1, 'timeout')
            now = e.name == 'get_nowait' or block is const(False)
            if not now and (t is None or not finite(t)):
                return '!', 'results are awaited without a time limit'
            if q == 'starved' and not not_empty(facts_at(g, n)):
                return '!', 'results are awaited again and again when there are none'
        return q
    if N(g, lambda e: e.kind == 'call' and is_get(e.name) and results(rv(e))):
        run_automaton(c, 'results are awaited with a time limit', m, g, None, step, keep=lambda e: is_get(e.name))


def of_optimizer(e):
    return e.kind == 'call' and (e.name in ('poll', 'recv') and pipe(rv(e)) is not None or e.name in ('is_set', 'is_alive', 'wait') and rv(e) is not None and opts(rv(e)))


def waiting(c, k, m):
    """Loops which wait for optimizers give up on those which are dead."""
    g = c12.protocol_graph(c, m)
    waits = {e.site for e in (g.ev[n] for n in N(g, lambda e: e.kind == 'iter' and e.target is None)) if isinstance(e.node, ast.While)}
    if not waits:
        return
    work = set(N(g, lambda e: of_optimizer(e) and e.name != 'is_alive'))
    inside = enclosing(g, work)
    tests = {s for s in waits if work & g.reach(N(g, lambda e: e.site == s, 'loophead'), blocked=set(N(g, lambda e: e.site == s and e.kind in ('iter', 'loopexit'))))}
    waits = waits & (inside | tests)
    if not waits:
        return
    r = c12.representative(g)

    def sets(n, positive=True):
        """Containers which the facts at a node say are not empty (empty); and formulas over all waited optimizers."""
        f, out, forms = r.facts(n), set(), []
        for z in fact_formulas(f):
            for y in subterms(z):
                if y.op == 'truth' and y.args[0].op in ('new', 'hv', 'setop'):
                    if entails(f, y if positive else mk_not(y)):
                        out.add(y.args[0])
                elif y.op == 'call' and y.args[0] == 'len' and len(y.args[2]) == 1 and y.args[2][0].op in ('new', 'hv', 'setop'):
                    if entails(f, rel(y, const(0), '!=' if positive else '==')):
                        out.add(y.args[2][0])
                elif y.op == 'exists' and entails(f, y if positive else mk_not(y)):
                    forms.append(y)
        return out, forms

    def still(q, n):
        """Why the dead optimizer may still be waited for, or None."""
        out, forms = sets(n)
        if g.ev[n].site in tests:
            return 'the condition of the loop may hold for it' if any(b for t, b in q[2]) else None
        for x in forms:
            if True in r.member(q, x.args[0], q[2]) and True in r.eval(x.args[1], q, None):
                return 'the condition of the loop may hold for it'
        left = [s for s in out if True in r.member(q, s, q[2])]
        if left:
            return f'it may still be in {show(left[0])[:60]}'
        if not out and not forms:
            return 'the loop does not depend on the optimizers which are left'
        return None

    def step(q, n, e):
        s, w = q
        s = r.learn(s, n)
        if s is None:
            return []
        if e.kind == 'entry':
            return [(r.put(s, GRAVE, True), None), (r.put(s, GRAVE, False), None)]
        if e.kind == 'iter' and e.site in waits:
            if w is not None and w[0] == e.site:
                x = still(s, n) if any(sets(n)) or e.site in tests else w[1]
                return ('!', f'a loop waits for an optimizer which has died: {x}') if x else []
            if w is None and 'dead' not in s[4]:
                return [(s, None), ((*s[:4], s[4] | {'dead'} - {'alive'}), (e.site, None))]
            return (s, w or (e.site, None))
        if w is not None and e.site == w[0]:
            if e.kind == 'iterend':
                return (s, (w[0], still(s, n)))
            if e.kind in ('loopexit', 'break'):
                return []
        x = r.move(s, n, e)
        if x is None:
            return (s, w)
        return [(y, w) for y in (x if isinstance(x, list) else [x])]
    c.count('waiting loops', len(waits))
    run_automaton(c, 'waiting loops give up on dead optimizers', m, g, (c12.START, None), step, keep=lambda e: e.kind in ('iter', 'setop', 'loopexit') or e.name in ('is_alive', 'remove'))
