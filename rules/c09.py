"""The table of signals each optimizer class builds is read from its constructor; every message the manager puts into a signal pipe, on every
path, has a key of that table and as many values as the method found there takes in that class. Every message an optimizer puts into its pipe
is a pair with a key for which each place where the manager reads a pipe does, on every path, what the key calls for. In the loop which reads
the signals an automaton follows each message: a known one is executed once, with the values it carries, and reported; only one for which the
facts show that it is not known is left out, with a warning, and reading continues until nothing is waiting."""
import ast

from sa.core import *
from sa.mgr import *
from sa.engine import VOCAB

TECHNIQUE = 'agreement of send sites and dispatch tables (term provenance, arity); exactly-once automaton over all paths of the receiving loops'
ASSUMPTIONS = ['pipes keep the order of messages', 'signals executed do not raise', 'the table of an optimizer is not replaced by classes of the user']
TABLE = sattr('_from_manager_signal_dict')
PIPE = sattr('_signal_pipe')


def check(c):
    tables = dispatch(c)
    sent = manager_sends(c, tables)
    keys = optimizer_sends(c)
    manager_reads(c, keys)
    reading(c)
    prepare(c)
    c.need('signals of the manager', len(sent), 4)
    c.need('signals of optimizers', len(keys), 3)


def concrete(c):
    return c.p.subclasses(c.cls('BaseOptimizer'))


# ------------------------------------------------------------------ manager to optimizer
def dispatch(c):
    """class -> {key: (least, most values, name)}"""
    out = {}
    for k in concrete(c):
        g = c.graph(k, '__init__', inline='*', exc='none')
        where = f'{g.func.file}:{g.func.node.lineno}'
        tabs = []
        for kind, n, v, st in g.exits:
            if kind == 'return':
                t = dict_items(st, '_from_manager_signal_dict')
                c.ob('optimizers know their signals', k.name, t is not None, where, 'there is no table of signals')
                tabs += [x for x in t or () if x not in tabs]
        table = {}
        for key, x in tabs:
            ok = key is not None and key.op == 'const' and x.op == 'bound' and x.args[0] is SELF
            c.ob('optimizers know their signals', k.name, ok, where, f'the table of signals contains {show(x)[:80]}')
            if ok:
                name = str(x.args[1]).split(':')[-1].split('.')[-1]
                table[key.args[0]] = arity(c.p.find_method(k, name)) + (name,)
        out[k] = table
        later = [f'{f.file}:{n.lineno}' for b in c.p.mro(k) if hasattr(b, 'methods') for m, f in b.methods.items() for n in ast.walk(f.node)
                 if isinstance(n, ast.Attribute) and n.attr == '_from_manager_signal_dict' and isinstance(n.ctx, (ast.Store, ast.Del)) and m != '__init__']
        c.ob('optimizers know their signals', f'{k.name}: later', not later, (later or [where])[0], 'the table of signals is replaced later')
    return out


def arity(f):
    a = f.node.args
    pos = len(a.posonlyargs + a.args)
    static = any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in f.node.decorator_list)
    own = 0 if static else 1
    least = pos - len(a.defaults) - own + sum(d is None for d in a.kw_defaults) * 1000
    return least, 1000 if a.vararg else pos - own


def reaching(c, k, hit):
    """Methods which contain a hit, or call one which does (by name)."""
    inside = {}
    for n, f in k.methods.items():
        calls = {x.func.attr for x in ast.walk(f.node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute)}
        inside[n] = (f, any(hit(x) for x in ast.walk(f.node)), calls)
    direct = {n for n, (_, h, _) in inside.items() if h}
    return inside, direct


def manager_sends(c, tables):
    k = c.cls('GloMPOManager')
    inside, direct = reaching(c, k, is_sending)
    c.need('methods which send', len(direct))
    passing = {n for n in direct if any(is_sending(x) and any(isinstance(y, ast.Name) and y.id in params(inside[n][0]) for z in x.args for y in ast.walk(z))
                                        for x in ast.walk(inside[n][0].node))}       # Helpers which send what they are given
    near = passing | {m for m in direct if m not in VOCABULARY}
    sent = {}
    total = 0
    for n, (f, h, calls) in sorted(inside.items()):
        if not h and not calls & near and not calls - VOCABULARY & set(inside):
            continue
        g = c.run(f, cls=k, inline=tuple(passing), exc='none', entry_cap=16)
        ps = {T('sym', a) for a in params(f)}
        for x in N(g, lambda e: e.kind == 'call' and e.name in ('send', 'send_bytes')):
            e = g.ev[x]
            msgs = flat(av(e, 0))
            if n in near and any(t in ps or t.op == 'tuple' and set(t.args) & ps for t in msgs):
                continue                # What it sends is judged where it is called
            total += 1
            for t in msgs:
                key, count = (t, 0) if t.op != 'tuple' else (t.args[0] if t.args else NONE, len(t.args) - 1)
                ok = key.op == 'const' and isinstance(key.args[0], int) and not any(y.op == 'star' for y in t.args if isinstance(y, T))
                c.ob('optimizers understand what they are sent', n, ok, e.where, f'{show(t)[:80]} is sent, whose key is not known')
                if not ok:
                    continue
                key = int(key.args[0])
                sent.setdefault(key, set()).add(count)
                for o, table in tables.items():
                    known = key in table
                    c.ob('optimizers understand what they are sent', f'{n}: signal {key} to {o.name}', known, e.where, f'{o.name} does not know the signal {key}')
                    if known:
                        lo, hi, name = table[key]
                        c.ob('optimizers understand what they are sent', f'{n}: values of signal {key} for {o.name}', lo <= count <= hi, e.where,
                             f'{o.name}.{name} takes {lo} to {hi} values, {count} are sent with signal {key}')
    c.count('messages of the manager', total)
    return sent


def params(f):
    return {a.arg for a in f.node.args.args[1:]}


def is_sending(x):
    return isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('send', 'send_bytes')


VOCABULARY = {q.split('.')[-1] for q in VOCAB if 'GloMPOManager.' in q}


def flat(t):
    if t is None:
        return [NONE]
    if t.op == 'ite':
        return flat(t.args[1]) + flat(t.args[2])
    if t.op == 'phi':
        return [y for x in t.args for y in flat(x)]
    return [t]


# ------------------------------------------------------------------ optimizer to manager
def optimizer_sends(c):
    keys = {}
    classes = [c.cls('BaseOptimizer')] + concrete(c)
    others = [k for m in c.p.modules.values() for k in m.classes.values() if k not in classes and any(k.module is o.module for o in classes)]
    for k in classes + others:
        have = {n for b in c.p.mro(k) if hasattr(b, 'methods') for n in b.methods}
        for n, f in sorted(k.methods.items()):
            names = {x.func.attr for x in ast.walk(f.node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute)}
            if n == 'message_manager' or not names & {'send', 'message_manager'} | names - VOCABULARY_O & have:
                continue
            g = c.run(f, cls=k, inline=(), opaque=('message_manager',), exc='try', entry_cap=16)
            ps = {T('sym', a) for a in params(f)}
            for x in N(g, lambda e: e.kind == 'call' and (e.name == 'message_manager' or e.name in ('send', 'send_bytes') and rv(e) is not None and
                                                          contains(rv(e), lambda t: t.op == 'attr' and t.args[1] == '_signal_pipe'))):
                e = g.ev[x]
                t = T('tuple', av(e, 0, 'key') or NONE, av(e, 1, 'message') or NONE) if e.name == 'message_manager' else av(e, 0)
                for t in flat(t):
                    if n not in VOCABULARY_O and (t in ps or t.op == 'tuple' and t.args and t.args[0] in ps):
                        continue        # A helper, judged where it is called
                    ok = t.op == 'tuple' and len(t.args) == 2 and all(y.op == 'const' and isinstance(y.args[0], int) for y in flat(t.args[0]))
                    c.ob('the manager understands what it is sent', f'{k.name}.{n}', ok, e.where, f'{show(t)[:80]} is sent, a key and a message are expected')
                    if ok:
                        for y in flat(t.args[0]):
                            keys.setdefault(int(y.args[0]), []).append((k, n, e.where))
    for key, sites in keys.items():
        for k, n, where in sites:
            c.ob('the manager understands what it is sent', f'{k.name}.{n}: key {key}', key in (0, 1, 9), where, f'the manager has no use for the key {key}')
    # The message channel itself
    g = c.graph('BaseOptimizer', 'message_manager', inline='*', exc='none')
    a = [T('sym', x.arg) for x in g.func.node.args.args[1:3]]
    pair = N(g, lambda e: e.kind == 'call' and e.name == 'send' and rv(e) is PIPE and av(e, 0) is T('tuple', *a))
    where = f'{g.func.file}:{g.func.node.lineno}'
    once(c, 'the manager understands what it is sent', 'message_manager', g, pair, N(g, lambda e: e.kind == 'call' and e.name == 'send'), where,
         'a message is not passed on once, as key and message')
    for k in concrete(c):
        c.ob('the manager understands what it is sent', f'message_manager of {k.name}', c.p.find_method(k, 'message_manager') is g.func, where,
             'the channel to the manager is replaced')
    return keys


VOCABULARY_O = {q.split('.')[-1] for q in VOCAB}


def once(c, rule, what, g, right, every, where, msg):
    def step(q, n, e):
        if n in right:
            return q + 1 if q < 2 else 2
        if n in every:
            return '!', msg
        return q
    at = run_automaton(c, rule, what, g, 0, step)
    for kind, n, v, st in g.exits:
        if kind == 'return':
            for q in at.get(n, ()):
                c.ob(rule, what, q == 1, where, msg)


def manager_reads(c, keys):
    """Each place which takes a message out of a pipe acts on every key."""
    k = c.cls('GloMPOManager')
    found = 0
    received = lambda t: t.op == 'call' and t.args[0] == 'recv'
    part_of = lambda t, i: t is not None and t.op == 'idx' and t.args[1] is const(i) and received(t.args[0])
    lost = lambda name, recv, args, kw: ('EOFError',) if name == 'recv' else ()
    for m, f in sorted(k.methods.items()):
        if not any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'recv' for x in ast.walk(f.node)):
            continue
        where = f'{f.file}:{f.node.lineno}'
        g = c.run(f, cls=k, inline=(), exc='none', raises=lost, entry_cap=16,
                  keep=lambda z: contains(z, lambda x: received(x) or x.op == 'in' and x.args[1] is GRAVE))
        recvs = set(N(g, lambda e: e.kind == 'call' and e.name == 'recv'))
        found += bool(recvs)
        loop = bool(enclosing(g, recvs))
        possible = {}

        def can(fs, key):
            """False if the facts exclude that the message has this key."""
            for t in {y for z in fact_formulas(fs) for y in subterms(z) if part_of(y, 0)}:
                if not satisfiable(fs, rel(t, const(key), '==')):
                    return False
            return True

        def can_at(n, key):
            if (n, key) not in possible:
                possible[n, key] = can(facts_at(g, n), key)
            return possible[n, key]

        def ended(n):
            fs = facts_at(g, n)
            return any(y.op == 'in' and y.args[1] is GRAVE and entails(fs, y) for z in fact_formulas(fs) for y in subterms(z))
        want = {0: ('a convergence is recorded', lambda e: e.kind == 'call' and e.name == 'add' and rv(e) is GRAVE),
                9: ('a message is logged', lambda e: e.kind == 'call' and e.name == 'put_message' and any(part_of(nv(x), 1) for x in e.args)),
                1: ('the reply is registered', lambda e: e.kind == 'call' and e.name in ('remove', 'discard', 'difference_update') or e.kind == 'del')}
        for key in sorted(keys):
            if key not in want or key == 1 and not loop:
                continue            # Outside of a checkpoint nobody waits for a reply
            what, hit = want[key]
            hits = set(N(g, hit))
            c.ob('the manager acts on what it is sent', f'{m}: {what}', bool(hits), where, f'no path reacts to the key {key}')

            def step(q, n, e):
                if n in recvs:
                    return ('!', 'a message is read before the one before has been dealt with') if q == 'got' else 'got'
                if q != 'got':
                    return q
                if n in hits:
                    return 'done'
                if not can_at(n, key):
                    return []
                if key == 0 and ended(n):
                    return 'done'
                if e.kind == 'raise':
                    return []
                return q
            at = run_automaton(c, 'the manager acts on what it is sent', f'{m}: {what}', g, None, step)
            for kind, n, v, st in g.exits:
                if kind == 'return':
                    for q in at.get(n, ()):
                        c.ob('the manager acts on what it is sent', f'{m}: {what}', q != 'got' or not can(norm_facts(st.facts), key), where,
                             f'a message with the key {key} is dropped')
    c.need('places where the manager reads signals', found, 2)


# ------------------------------------------------------------------ the receiving loop of an optimizer
def reading(c):
    done = set()
    for k in [c.cls('BaseOptimizer')] + concrete(c):
        f = c.meth(k, 'check_messages')
        if f.qual in done:
            continue
        done.add(f.qual)
        one_reader(c, k, f)


def one_reader(c, k, f):
    m = 'check_messages' if k.name == 'BaseOptimizer' else f'{k.name}.check_messages'
    where = f'{f.file}:{f.node.lineno}'
    of_message = lambda z: contains(z, lambda x: x.op == 'call' and x.args[0] in ('recv', 'poll') or x is TABLE)
    g = c.run(f, cls=k, inline='*', exc='try', keep=of_message)
    recvs = set(N(g, lambda e: e.kind == 'call' and e.name == 'recv' and rv(e) is PIPE))
    c.need('signals read', len(recvs))
    msg = {nv(g.ev[n].value) for n in recvs}
    runs = {}
    for n in N(g, lambda e: e.kind == 'call' and e.recv is not None):
        e = g.ev[n]
        r = rv(e)
        h = r if e.name == '__call__' else None
        if h is not None and (h.op == 'idx' and h.args[0] is TABLE or h.op == 'call' and h.args[0] == 'get' and h.args[1] is TABLE):
            runs[n] = h.args[1] if h.op == 'idx' else h.args[2][0]
    c.ob('signals are executed', m, bool(runs), where, 'signals are never executed')
    results = {nv(v) for kind, n, v, st in g.exits if kind == 'return'}
    reports = set(N(g, lambda e: e.kind == 'call' and e.name in ('append', 'add') and rv(e) in results))
    warned = set(N(g, lambda e: e.kind == 'call' and (e.name in ('warnings.warn', 'warn') or e.name in ('warning', 'error', 'critical') and rv(e) is not None and
                                                       contains(rv(e), lambda x: x.op == 'attr' and x.args[1] == 'logger'))))

    def shape(n, t, q=None):
        """Whether the message may be a known key / a tuple with a known key."""
        fs = facts_at(g, n)
        number, pair = (T('truth', T('call', 'isinstance', None, (t, T('ext', x)), (), None)) for x in ('int', 'tuple'))
        return satisfiable(fs, mk_and([number, mk_not(pair), T('in', t, TABLE)])), satisfiable(fs, mk_and([pair, mk_not(number), T('in', T('idx', t, const(0)), TABLE)]))

    def step(q, n, e):
        state, key, told, warn, known = q
        if n in recvs:
            if state:
                return '!', 'a signal is read before the one before has been dealt with'
            return 'got', None, None, False, True
        if n in runs:
            if state is None:
                return '!', 'something is executed which was not received'
            if key is not None:
                return '!', 'a signal is executed twice'
            x = runs[n]
            t = next(iter(msg))
            whole, first = x in msg, x.op == 'idx' and x.args[0] in msg and x.args[1] is const(0)
            if not whole and not first:
                return '!', f'{show(x)[:80]} is executed, not the signal received'
            args = tuple(nv(a) for a in e.args)
            if first:
                ok = len(args) == 1 and args[0].op == 'star' and rest(args[0].args[0], msg)
            else:
                ok = not args
            if not ok or e.kw:
                return '!', 'the values which came with the signal are not passed on'
            return state, x, told, warn, known
        if n in reports:
            if state is None:
                return '!', 'a signal is reported which was not received'
            if told is not None:
                return '!', 'a signal is reported twice'
            return state, key, nv(e.args[0]), warn, known
        if n in warned and state:
            return state, key, told, True, known
        if state == 'got' and known and key is None:
            a, b = shape(n, next(iter(msg)))
            known = a or b
            return state, key, told, warn, known
        return q

    def finish(q):
        state, key, told, warn, known = q
        if state is None:
            return None
        if key is None and known:
            return 'a known signal is not executed'
        if key is None and told is not None:
            return 'a signal is reported which was not executed'
        if key is None and not warn:
            return 'an unknown signal is ignored without a warning'
        if key is not None and told is not key:
            return 'an executed signal is not reported'

    def full(q, n, e):
        if e.kind == 'loophead' or e.kind == 'call' and e.name == 'poll':
            bad = finish(q)
            if bad:
                return '!', bad
            return (None, None, None, False, False)
        return step(q, n, e)
    at = run_automaton(c, 'signals are executed once and reported', m, g, (None, None, None, False, False), full)
    for kind, n, v, st in g.exits:
        if kind == 'return':
            fs = norm_facts(st.facts)
            for q in at.get(n, ()):
                bad = finish(q)
                c.ob('signals are executed once and reported', m, bad is None, where, bad or '')
            polls = [nv(e.value) for e in g.ev if e is not None and e.kind == 'call' and e.name == 'poll' and rv(e) is PIPE]
            ok = any(entails(fs, mk_not(truth(p))) for p in polls)
            c.ob('all signals are read', m, ok, where, 'reading ends although signals are waiting')
    for n in N(g, lambda e: e.kind == 'call' and e.name == 'poll' and rv(e) is PIPE):
        e = g.ev[n]
        c.ob('reading does not block', m, not e.args and not e.kw or av(e, 0, 'timeout') is const(0) or av(e, 0) is not None and is_num(av(e, 0)), e.where,
             'the optimizer waits for a signal')
    for n in recvs:
        fs = facts_at(g, n)
        ok = any(entails(fs, truth(nv(e.value))) for e in g.ev if e is not None and e.kind == 'call' and e.name == 'poll' and rv(e) is PIPE)
        c.ob('reading does not block', f'{m}: receive', ok, g.ev[n].where, 'a signal is awaited which may never come')


def rest(t, msg):
    while t.op == 'call' and t.args[0] in ('list', 'tuple') and len(t.args[2]) == 1:
        t = t.args[2][0]
    return t.op == 'slice' and t.args[0] in msg and t.args[1] is const(1) and t.args[2] in (NONE, None) and t.args[3] in (NONE, None, const(1))


def prepare(c):
    """The reply to the request for a checkpoint, the wait for the decision and the pause, in this order."""
    k = c.cls('BaseOptimizer')
    m = '_prepare_checkpoint'
    g = c.graph(k, m, inline='*', opaque=('check_messages',), exc='none')
    where = f'{g.func.file}:{g.func.node.lineno}'
    flag = sattr('_pause_signal')

    def step(q, n, e):
        if e.kind != 'call':
            return q
        if e.name == 'send' and rv(e) is PIPE:
            t = av(e, 0)
            if t.op != 'tuple' or t.args[0] is not const(1):
                return '!', f'{show(t)[:60]} is sent in reply'
            return 1 if q == 0 else ('!', 'the reply is sent again')
        if e.name == 'check_messages':
            return 2 if q in (1, 2) else ('!', 'signals are read before the reply is sent or after the pause')
        if e.name == 'clear' and rv(e) is flag:
            if q not in (1, 2):
                return '!', 'the optimizer pauses before it has replied or twice'
            fs = facts_at(g, n)
            ins = {y for z in fact_formulas(fs) for y in subterms(z) if y.op == 'in'}
            if q == 1 and not satisfiable(fs, mk_and([mk_not(y) for y in ins if y.args[1].op == 'new'])):
                return []               # Nothing is in an empty list
            got = any(entails(fs, mk_or([T('in', const(0), t), T('in', const(3), t)])) for t in {y.args[1] for y in ins} if t.op != 'new')
            return 3 if got else ('!', 'the optimizer pauses before the decision has come')
        if e.name == 'wait' and rv(e) is flag:
            return 4 if q == 3 else ('!', 'the optimizer waits without having paused')
        return q
    at = run_automaton(c, 'a checkpoint is answered and awaited', m, g, 0, step)
    for kind, n, v, st in g.exits:
        if kind == 'return':
            for q in at.get(n, ()):
                c.ob('a checkpoint is answered and awaited', m, q == 4, where, 'the optimizer goes on without waiting for the checkpoint')
