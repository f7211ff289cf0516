"""Every path through `start_manager` (with helpers inlined, and with an exception at every place which may raise inside the try block)
is followed by an automaton over the changes of the two lists of session times: a path which starts a session appends exactly one start
time, and one end time is stored before the path ends: replaced if the facts of the path say that the lists are equally long (a checkpoint
has already stored it), appended if they say that they are not. The same is required of `checkpoint` before the manager is saved. In
`load_checkpoint` the value of the time used is compared symbolically with the sum over all pairs of times, and the session clock is
cleared after the state is restored. The time criterion is compared, path by path, with its definition. No other function changes any of
these attributes."""
from sa.core import *
from sa.mgr import *

TECHNIQUE = 'automaton over list mutations on all paths incl. exceptional ones; symbolic comparison of sums and criteria; effect scan'
ASSUMPTIONS = ['nothing raises (or is interrupted) between the entry of the protected block and the recording of the start time', 'a manager runs one session (start_manager is not called twice on the same object)', 'checkpoints are made within a session']
STARTS, ENDS = sattr('dt_starts'), sattr('dt_ends')
LEN = lambda x: T('call', 'len', None, (x,), (), None)
NOW = T('call', 'time.time', None, (), (), None)
ATTRS = ('dt_starts', 'dt_ends', 't_start', 't_end', 't_used')
OPEN = rel(sub(LEN(STARTS), LEN(ENDS)), const(0), '!=')
PAIRED = rel(sub(LEN(STARTS), LEN(ENDS)), const(0), '==')


def keep(f):
    return contains(f, lambda x: x.op == 'attr' and x.args[1] in ATTRS)


def check(c):
    k = c.cls('GloMPOManager')
    session(c, k)
    saved(c, k)
    resumed(c, k)
    criterion(c)
    elsewhere(c, k)


def is_now(v, t_end=False):
    """datetime of the current time (of the end of the session)."""
    if v.op == 'call' and v.args[0].endswith('datetime.now'):
        return True
    if v.op == 'call' and v.args[0].endswith('fromtimestamp') and len(v.args[2]) == 1:
        x = v.args[2][0]
        return x is NOW or x is sattr('t_end' if t_end else 't_start')
    return False


def change(e):
    """('starts'|'ends', kind, value) for changes of the two lists."""
    if e.kind == 'store' and rv(e) is SELF and e.name in ('dt_starts', 'dt_ends'):
        return e.name[3:], 'store', nv(e.value)
    if e.kind == 'call' and rv(e) in (STARTS, ENDS) and e.name in ('append', 'extend', 'insert', 'pop', 'remove', 'clear', 'reverse', 'sort', '__setitem__', '__delitem__'):
        return rv(e).args[1][3:], e.name, av(e, 0) if e.args else None
    if e.kind in ('storeidx', 'del') and rv(e) in (STARTS, ENDS):
        return rv(e).args[1][3:], e.kind, nv(e.value) if e.value is not None else None
    return None


def end_stored(e, fs, value_ok):
    """None if this stores the end time of the current session in place; otherwise what is wrong."""
    which, kind, v = change(e)
    if kind == 'append':
        if not value_ok(v):
            return f'the end time stored is {show(v)[:80]}'
        return None if entails(fs, OPEN) else 'a second end time may be added to a session'
    if kind == 'storeidx':
        key = nv(e.args[0])
        if not value_ok(v):
            return f'the end time stored is {show(v)[:80]}'
        last = key in (const(-1), sub(LEN(ENDS), const(1)), sub(LEN(STARTS), const(1)))
        if not last:
            return f'the end time of session {show(key)[:60]} is changed'
        q = rel(sub(LEN(STARTS), LEN(ENDS)), const(0), '<=')
        return None if entails(ordered(fs, q), q) else 'the end time of an earlier session may be replaced'
    return f'end times are changed by {kind}'


def session(c, k):
    g = c.run(c.meth(k, 'start_manager'), cls=k, inline=(), cap=16, entry_cap=1, exc='try', keep=keep)
    where = f'{g.func.file}:{g.func.node.lineno}'
    c.count('changes of session times', sum(change(g.ev[n]) is not None for n in N(g)))

    clocks = {x.args[4] for n in stores(g, 't_start') for x in subterms(g.ev[n].value) if x.op == 'call'}

    def step(q, n, e):
        """(session started, clock started, end stored, end of session known)"""
        started, clock, ended, t_end = q
        if e.kind == 'exc' and not started:
            return []
        fs = facts_at(g, n) if g.st[n] is not None else {}
        if t_end is None and entails(fs, truth(sattr('t_end'))) and truth(sattr('t_end')) in fs:
            t_end = True
        if e.kind == 'store' and rv(e) is SELF and e.name == 't_start':
            if nv(e.value) is not NOW:
                return '!', f'the session clock starts at {show(nv(e.value))[:60]}'
            return (started, True, ended, t_end)
        if e.kind == 'store' and rv(e) is SELF and e.name == 't_end':
            return (started, clock, ended, True if nv(e.value) is NOW else None)
        if e.kind == 'store' and rv(e) is SELF and e.name == 't_used':
            return '!', 'the time used in earlier sessions is changed'
        ch = change(e)
        if ch and ch[0] == 'starts':
            if ch[1] != 'append':
                return '!', f'start times are changed by {ch[1]}'
            if started:
                return '!', 'a session may have two start times'
            if not is_now(ch[2]):
                return '!', f'the start time stored is {show(ch[2])[:80]}'
            return (True, clock, ended, t_end)
        if ch:
            if not started:
                return '!', 'an end time is stored although no session was started'
            if ended:
                return '!', 'the end time of a session is stored twice at its end'
            bad = end_stored(e, fs, lambda v: is_now(v, True))
            if bad:
                return '!', bad
            if {x.args[4] for x in subterms(e.value if e.value is not None else e.args[0]) if x.op == 'call' and x.args[0] == 'time.time'} & clocks:
                return '!', 'the end time of the session is the time of its start'
            if contains(ch[2], lambda x: x is sattr('t_end')) and not t_end:
                return '!', 'the end of the session may not have been determined when it is stored'
            return (started, clock, True, t_end)
        if e.kind == 'call' and e.name in ('_fill_optimizer_slots', 'start') and not (started and clock):
            return '!', 'optimizers are started before the session is'
        if e.kind == 'exit' or e.kind == 'call' and e.name == '_save_log':
            if started and not ended:
                return '!', ('the session has no end time when the log is written' if e.kind == 'call' else 'a session ends without an end time')
        return (started, clock, ended, t_end)
    started = [n for n in N(g) if (change(g.ev[n]) or ('', ''))[0] == 'starts']
    run_automaton(c, 'one start and one end per session', 'start_manager', g, (False, False, False, None), step, where)
    c.ob('one start and one end per session', 'start_manager: session starts', bool(started), where, 'no start time is stored')


def saved(c, k):
    g = c.run(c.meth(k, 'checkpoint'), cls=k, inline=(), cap=16, exc='none', keep=keep)
    where = f'{g.func.file}:{g.func.node.lineno}'
    none = [mk_not(truth(STARTS)), rel(LEN(STARTS), const(0), '<='), rel(LEN(STARTS), const(0), '==')]

    def step(q, n, e):
        fs = facts_at(g, n) if g.st[n] is not None else {}
        if q is None and any(entails(fs, f) for f in none):
            q = 'no session'
        ch = change(e)
        if ch and ch[0] == 'starts':
            return '!', 'a checkpoint changes the start times'
        if e.kind == 'store' and rv(e) is SELF and e.name in ('t_start', 't_used'):
            return '!', f'a checkpoint changes {e.name}'
        if ch:
            if q == 'stored':
                return '!', 'a checkpoint stores the end time twice'
            bad = end_stored(e, fs, lambda v: v.op == 'call' and v.args[0].endswith('datetime.now') or v.op == 'call' and v.args[0].endswith('fromtimestamp') and v.args[2] == (NOW,))
            if bad:
                return '!', bad + ' (at a checkpoint)'
            return 'stored'
        if e.kind == 'call' and e.name == '_checkpoint_manager' and q is None:
            return '!', 'the manager is saved without the end time of its session'
        return q
    run_automaton(c, 'checkpoints store the end of the session', 'checkpoint', g, None, step, where)


# ---------------------------------------------------------------- resume
def pair_sum(v, g):
    """Is this the sum of the lengths of all sessions?"""
    if v.op == 'call' and v.args[0] == 'total_seconds' and v.args[1] is not None:
        return total(v.args[1], False)
    return total(v, True)


def total(v, seconds):
    if v.op != 'call' or v.args[0] not in ('sum', 'math.fsum', 'fsum') or v.args[1] is not None or not v.args[2]:
        return False
    x = v.args[2][0]
    if len(v.args[2]) > 1 and not (v.args[2][1] is const(0) or v.args[2][1].op == 'call' and 'timedelta' in v.args[2][1].args[0]):
        return False
    while x.op == 'call' and x.args[0] in ('list', 'tuple') and x.args[1] is None and len(x.args[2]) == 1:
        x = x.args[2][0]
    if x.op != 'comp' or x.args[3] is not TRUE or x.args[0] == 'set':
        return False
    return length(x.args[1], x.args[2], seconds)


def length(el, D, seconds):
    """end - start of one element of zip(starts, ends)"""
    if seconds:
        if el.op == 'call' and el.args[0] == 'total_seconds' and el.args[1] is not None:
            el = el.args[1]
        elif el.op == 'poly':
            ts = [T('call', 'timestamp', x, (), (), None) for x in both(D)] if both(D) else None
            return bool(ts) and el is norm_term(sub(ts[1], ts[0]))
        else:
            return False
    b = both(D)
    return bool(b) and el is norm_term(sub(b[1], b[0]))


def both(D):
    """(start, end) of the current session when iterating over D."""
    while D.op == 'call' and D.args[0] in ('list', 'tuple') and D.args[1] is None and len(D.args[2]) == 1:
        D = D.args[2][0]
    if D.op == 'call' and D.args[0] == 'zip' and len(D.args[2]) == 2:
        a, b = D.args[2]
        if {a, b} == {STARTS, ENDS}:
            return T('elem', STARTS, 0), T('elem', ENDS, 0)
    if D.op == 'call' and D.args[0] == 'range' and D.args[2] in ((LEN(STARTS),), (LEN(ENDS),)):
        return tuple(norm_term(T('idx', x, T('elem', D, 0))) for x in (STARTS, ENDS))
    return None


def resumed(c, k):
    g = c.run(c.meth(k, 'load_checkpoint'), cls=k, inline=(), cap=8, entry_cap=2, exc='none', keep=lambda f: False, locals_ev=True)
    where = f'{g.func.file}:{g.func.node.lineno}'
    dyn = [n for n in N(g) if g.ev[n].kind == 'call' and g.ev[n].name in ('setattr', 'builtins.setattr', '__setattr__') or g.ev[n].kind == 'call' and g.ev[n].name == 'update' and rv(g.ev[n]) is not None and contains(rv(g.ev[n]), lambda x: x.op == 'attr' and x.args[1] == '__dict__')]
    c.count('restored attributes', len(dyn))
    for a in ('t_start', 't_end', 't_used'):
        st = stores(g, a)
        ok = bool(st)
        c.ob('resume', f'load_checkpoint: {a} is set', ok, where, f'{a} keeps the value of the earlier session')
        if not ok:
            continue
        # on every path to the end, after everything restored
        def step(q, n, e, st=st):
            if n in st:
                return True
            if n in dyn:
                return False
            if e.kind == 'exit' and e.name == 'return' and not q:
                return '!', f'{a} may keep the value of the earlier session'
            return q
        run_automaton(c, 'resume', f'load_checkpoint: {a} after restoring', g, True, step, where)
        for n in st:
            v = nv(g.ev[n].value)
            if a == 't_used':
                good = pair_sum(v, g) or accumulated(g, v, n) or in_place(g, st)
            else:
                good = v is NONE or v is const(0)
            c.ob('resume', f'load_checkpoint: value of {a}', good, g.ev[n].where, f'{a} becomes {show(v)[:150]}')
    for n in N(g):
        ch = change(g.ev[n])
        if ch:
            c.ob('resume', f'load_checkpoint: {ch[0]}', False, g.ev[n].where, f'the times of earlier sessions are changed ({ch[1]})')


def accumulated(g, v, at):
    """A loop over all sessions which adds each length."""
    if v.op != 'hv':
        return False
    name = v.args[1]
    loc = [n for n in N(g, kind='local') if g.ev[n].name == name]
    adds, site = set(), None
    for n in loc:
        x = nv(g.ev[n].value)
        if is_zero(x) or x.op == 'call' and 'timedelta' in x.args[0] and not x.args[2]:
            continue
        for s in loops(g):
            D = nv(g.ev[loops(g)[s][0]].target) if g.ev[loops(g)[s][0]].target is not None else None
            b = both(D) if D is not None else None
            if b and (site in (None, s)):
                d = sub(x, T('call', 'total_seconds', norm_term(sub(b[1], b[0])), (), (), None))
                if d.op == 'hv' and d.args[1] == name or is_zero(d):
                    adds.add(n)
                    site = s
        if n not in adds:
            return False
    if not adds:
        return False
    its, _ = iter_segments(g, site)
    skip = g.reach(its, blocked=adds | set(N(g, lambda e: e.site == site and e.kind == 'loopexit')))
    again = g.reach([m for n in adds for m in g.succ[n]], blocked=set(N(g, lambda e: e.site == site and e.kind in ('iterend', 'loopexit'))))
    return not any(m in skip and g.ev[m].kind in ('iterend', 'break') and g.ev[m].site == site for m in N(g)) and not adds & again


def in_place(g, st):
    """The attribute itself is set to zero, and then each length is added to it in a loop over all sessions."""
    zero = {n for n in st if is_zero(nv(g.ev[n].value))}
    adds, site = set(st) - zero, None
    for n in adds:
        x, good = nv(g.ev[n].value), False
        for s in loops(g):
            b = both(nv(g.ev[loops(g)[s][0]].target)) if g.ev[loops(g)[s][0]].target is not None else None
            if b and site in (None, s) and sub(x, T('call', 'total_seconds', norm_term(sub(b[1], b[0])), (), (), None)) in (sattr('t_used'), const(0)):
                site, good = s, True
        if not good:
            return False
    if not adds or not zero or zero & g.reach([m for n in adds for m in g.succ[n]]):
        return False
    heads = set(loops(g)[site])
    if heads & g.reach([0], blocked=zero):
        return False
    its, _ = iter_segments(g, site)
    skip = g.reach(its, blocked=adds | set(N(g, lambda e: e.site == site and e.kind == 'loopexit')))
    return not any(m in skip and g.ev[m].kind in ('iterend', 'break') and g.ev[m].site == site for m in N(g))


def is_zero(x):
    return is_const(x) and x.args[0] == 0


# ---------------------------------------------------------------- criterion
def criterion(c):
    k = c.cls('MaxSeconds')
    g = c.run(c.meth(k, '__call__'), cls=k, inline=('*',), exc='none')
    where = f'{g.func.file}:{g.func.node.lineno}'
    m = T('sym', 'manager')
    t0, used = T('attr', m, 't_start'), T('attr', m, 't_used')
    over, sess = sattr('overall_max'), sattr('session_max')
    n_ = 0
    for kk, n, v, s in g.exits:
        if kk != 'return':
            continue
        n_ += 1
        fs = norm_facts(s.facts)
        v = truth(norm_term(v))
        ok = False
        for run, t in ((truth(t0), sub(NOW, t0)), (mk_not(truth(t0)), const(0))):
            for which, tt, lim in ((truth(over), add(t, used), over), (mk_not(truth(over)), t, sess)):
                if entails(fs, mk_not(run)) or entails(fs, mk_not(which)) or False:
                    continue
                # the two limits exclude each other
                w2 = mk_not(truth(sess)) if which.op == 'truth' else truth(sess)
                if entails(fs, mk_not(w2)):
                    continue
                fs2 = dict(fs)
                for f in (run, which, w2):
                    if f.op == 'not':
                        fs2[f.args[0]] = False
                    else:
                        fs2[f] = True
                good = any(entails(ordered(fs2, q), iff(v, q))  for q in (rel(tt, lim, '>='), rel(tt, lim, '>')))
                c.ob('time limits', 'MaxSeconds: ' + ('overall' if lim is over else 'session') + (', running' if run.op == 'truth' else ', not started'), good, where,
                     f'the criterion is {show(v)[:150]} under {[show(f)[:60] for f in fact_formulas(fs2)]}')
    c.ob('time limits', 'MaxSeconds', n_ > 0, where, 'never answers')
    g = c.run(c.meth(k, '__init__'), cls=k, inline=('*',), exc='none')
    for a in ('session_max', 'overall_max'):
        st = stores(g, a)
        c.ob('time limits', f'MaxSeconds: {a}', bool(st) and all(nv(g.ev[n].value) is T('sym', a) for n in st), g.func.file, f'{a} is changed')
    for kk, n, v, s in g.exits:
        if kk == 'return':
            fs = norm_facts(s.facts)
            a, b = truth(T('sym', 'session_max')), truth(T('sym', 'overall_max'))
            c.ob('time limits', 'MaxSeconds: exactly one limit', entails(fs, mk_or([mk_and([a, mk_not(b)]), mk_and([b, mk_not(a)])])), g.func.file, 'both or none of the limits may be used')


# ---------------------------------------------------------------- nowhere else
def elsewhere(c, k):
    init = c.meth(k, '__init__')
    bad, covered = 0, {q.split(' as ')[0] for q in c.funcs}
    for f in c.p.all_funcs():
        for x in ast.walk(f.node):
            a = None
            if isinstance(x, ast.Attribute) and x.attr in ATTRS and isinstance(x.ctx, (ast.Store, ast.Del)):
                a = x
            elif isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)) and isinstance(x.value, ast.Attribute) and x.value.attr in ATTRS:
                a = x.value
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Attribute) and x.func.value.attr in ('dt_starts', 'dt_ends') and \
                    x.func.attr in ('append', 'extend', 'insert', 'pop', 'remove', 'clear', 'reverse', 'sort'):
                a = x.func.value
            if a is None or f.node is init.node or f.qual in covered:
                continue
            if f.cls is not None and k not in c.p.mro(f.cls) and isinstance(a.value, ast.Name) and a.value.id == 'self':
                continue        # attribute of another kind of object
            bad += 1
            c.ob('nowhere else', f'{f.qual}: {a.attr}', False, f'{f.file}:{x.lineno}', f'{a.attr} is changed outside sessions, checkpoints and resumes')
    c.ob('nowhere else', 'all functions', not bad, '', 'see above')
    g = c.run(init, cls=k, inline=(), exc='none', keep=lambda f: False, cap=4)
    want = {'dt_starts': ('list', 'new'), 'dt_ends': ('list', 'new'), 't_start': (NONE,), 't_end': (NONE,), 't_used': (const(0),)}
    for a, w in want.items():
        st = stores(g, a)
        ok = bool(st) and all((nv(g.ev[n].value).op in w and len(nv(g.ev[n].value).args) <= 2) if a.startswith('dt') else nv(g.ev[n].value) in w for n in st)
        c.ob('nowhere else', f'__init__: {a}', ok, g.ev[st[0]].where if st else init.file, 'initial value is wrong')
