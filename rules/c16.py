"""All paths through the handling of stop files are analysed with helpers inlined to the primitive effects on optimizers: an automaton per
iteration over the files found requires that what is stopped is exactly the optimizer named by the file, known on the path to be managed and
not closed, that the file is removed once when (and only when) its optimizer is stopped, that nothing else is skipped, and that every file is
looked at. The conversion of the name is an escape analysis: it lies inside handlers for its failure, in every calling context. The handling
of checkpoint requests is an automaton over the request file, the checkpoint and the settings, run once assuming settings and once
assuming none."""
from sa.core import *
from sa.mgr import *

TECHNIQUE = 'typestate automata over all paths, path facts, exception escape analysis of the name parsing'
ASSUMPTIONS = ['files appear and disappear only through the user and the manager', 'optimizers are numbered by integers']
CC = sattr('checkpoint_control')
WD = sattr('working_dir')
PARSED = ('match', 'fullmatch', 'isdigit', 'isdecimal', 'isnumeric', 'search', 'split', 'partition', 'rpartition', 'count', 'len', 're.match', 're.fullmatch')


def is_glob(t):
    return contains(t, lambda x: x.op == 'call' and x.args[0] in ('glob', 'iglob', 'glob.glob') and x.args[1] is WD and
                    x.args[2] == (const('STOP_*'),))


def check(c):
    stops(c)
    parsing(c)
    requests(c)
    served(c)


def stops(c):
    m = '_is_manual_shutdowns'
    g = closing_graph(c, m)
    sites = {s: nv(g.ev[h[0]].target) for s, h in loops(g).items() if is_glob(nv(g.ev[h[0]].target) or NONE)}
    c.ob('stop files are looked for', m, bool(sites), g.func.file, 'no loop over the STOP_* files of the working directory')
    c.count('loops over stop files', len(sites))
    if not sites:
        return
    marks = {}
    for n in N(g):
        k = mark(g.ev[n])
        if k and k[0] in ('victim', 'bury', 'force', 'stop', 't_stop', 'end_cond'):
            marks[n] = k
        e = g.ev[n]
        if e.kind == 'call' and e.name in ('unlink', 'remove', 'os.remove', 'os.unlink', 'rename', 'replace', 'move'):
            f = rv(e) if e.name in ('unlink', 'rename', 'replace') else av(e, 0)
            marks[n] = ('consume', f)
    c.count('effects of stop files', len(marks))

    def of_file(x, site):
        return x is not None and contains(x, lambda y: is_file(y, sites[site]))

    def step(q, n, e):
        site, done, stopped, used = q
        if e.kind == 'iter' and e.site in sites:
            return (e.site, frozenset(), None, 0)
        if e.kind == 'exc' and site is not None:
            if e.name in ('send', 'terminate', 'kill'):
                return (site, done | {'failed'}, stopped, used)
            return []
        if e.kind == 'catch' and 'failed' in done and not set(e.name.split('/')) & set(FAILURES):
            return []       # pipes and processes do not raise anything else
        if site is not None and n in marks:
            k, x = marks[n]
            if k == 'consume':
                if x is None or not is_file(x, sites[site]):
                    return '!', f'a file other than the one being handled is removed: {show(x)}'
                if used:
                    return '!', 'the stop file is removed twice'
                return (site, done, stopped, 1)
            if stopped is None and k in ('victim', 'bury', 'force', 'stop'):
                if not of_file(x, site):
                    return '!', f'the stopped optimizer is not the one named by the file: {show(x)}'
                fs = facts_m(g, n)
                if fs is None:
                    return []
                if not entails(fs, T('in', x, PACKS)):
                    return '!', 'a file naming an unknown optimizer stops something or fails'
                if not entails(fs, mk_not(buried(x))):
                    return '!', 'a closed optimizer is stopped again'
                stopped = x
            elif stopped is not None and x is not None and x is not stopped:
                return '!', 'another optimizer than the one named by the file is stopped or recorded'
            if k == 'end_cond':
                v = meta(e)[2]
                if not any(s.op == 'const' and isinstance(s.args[0], str) and 'user stop' in s.args[0].lower() for s in subterms(v)):
                    return '!', f'the end is not recorded as a user stop: {show(v)[:120]}'
            return (site, done | {k}, stopped, used)
        if site is not None and e.kind in ('iterend', 'break') and e.site == site:
            if stopped is not None and not used:
                return '!', 'the file of a stopped optimizer is not removed'
            if stopped is None and used:
                return '!', 'a stop file is removed without stopping its optimizer'
            if stopped is not None and not {'victim', 'bury', 'end_cond'} <= done:
                return '!', 'the stopped optimizer is not recorded as stopped by the user'
            if stopped is not None and not done & {'force', 'stop', 'failed'}:
                return '!', 'the optimizer named by the file gets no stop signal'
            if stopped is None:
                fs = facts_m(g, n)
                if fs is not None and not excused(fs, sites[site]):
                    return '!', 'a stop file is passed over although its optimizer may be running'
            if e.kind == 'break':
                return '!', 'the remaining stop files are not looked at'
            return (None, frozenset(), None, 0)
        if e.kind == 'exit' and e.name == 'return' and site is not None:
            return '!', 'the remaining stop files are not looked at'
        return q
    run_automaton(c, 'a stop file stops its optimizer once', m, g, (None, frozenset(), None, 0), step,
                  keep=lambda e: mark(e) is not None or e.kind in ('iter', 'iterend'))
    ex = [n for s in sites for n in N(g, lambda e: e.kind == 'loopexit' and e.site == s)]
    miss = not_preceded(g, ex, exit_nodes(g, ('return',)))
    c.ob('stop files are always looked for', m, not miss or not ex, g.func.file, 'stop files may not be looked at', describe_path(g, miss[0][1]) if miss else None)


def is_file(x, t):
    """The file handled in an iteration over t."""
    if x.op == 'elem' and x.args[0] is t and t.op == 'call' and t.args[0] != 'range':
        return True
    return x.op == 'idx' and is_glob(x.args[0]) and x.args[1].op == 'elem' and x.args[1].args[0] is t and t.op == 'call' and t.args[0] == 'range' or \
        x.op == 'idx' and x.args[0].op == 'elem' and x.args[0].args[0] is t and t.op == 'call' and t.args[0] == 'enumerate' and x.args[1] is const(1)


def excused(fs, f):
    for z in fact_formulas(fs):
        for y in subterms(z):
            if y.op == 'in' and contains(y.args[0], lambda k: is_file(k, f)):
                if y.args[1] is PACKS and entails(fs, mk_not(y)) or y.args[1] is GRAVE and entails(fs, y):
                    return True
        if contains(z, lambda y: is_file(y, f)) and any(y.op == 'call' and y.args[0] in PARSED for y in subterms(z)) and not \
                any(y.op == 'in' and y.args[1] in (PACKS, GRAVE) for y in subterms(z)):
            return True
        if z.op == 'or' and all(excused({w if w.op != 'not' else w.args[0]: w.op != 'not'}, f) for w in z.args):
            return True
    return False


def parsing(c):
    """The conversion of a file name never fails unhandled."""
    m = '_is_manual_shutdowns'
    g = closing_graph(c, m)
    k = c.cls('GloMPOManager')
    fs = {g.func.qual: g.func}
    for q in g.interp.inlined:
        f = q if not isinstance(q, str) else next((x for x in c.p.all_funcs() if x.qual == q), None)
        if f is not None:
            fs[f.qual] = f
    parents = {}
    for f in fs.values():
        for x in ast.walk(f.node):
            for y in ast.iter_child_nodes(x):
                parents[y] = (x, f)

    def handled(x, kinds, seen=()):
        while x in parents:
            p, f = parents[x]
            if isinstance(p, ast.Try) and x in p.body:
                for h in p.handlers:
                    names = {'BaseException'} if h.type is None else {y.id if isinstance(y, ast.Name) else getattr(y, 'attr', '') for y in ast.walk(h.type)}
                    if names & kinds:
                        return True
            if isinstance(p, (ast.With,)) and x in p.body:
                for i in p.items:
                    if isinstance(i.context_expr, ast.Call) and getattr(i.context_expr.func, 'attr', getattr(i.context_expr.func, 'id', '')) == 'suppress' and \
                            any(getattr(a, 'id', '') in kinds for a in i.context_expr.args):
                        return True
            if isinstance(p, (ast.FunctionDef, ast.Lambda)) and p is f.node:
                if f is g.func or f.qual in seen:
                    return False
                sites = [y for h in fs.values() for y in ast.walk(h.node) if isinstance(y, ast.Call) and
                         getattr(y.func, 'attr', getattr(y.func, 'id', '')) == f.node.name]
                return bool(sites) and all(handled(y, kinds, seen + (f.qual,)) for y in sites)
            x = p
        return False
    n = 0
    skip = {'_shutdown_job', '_send_signal'}
    for f in fs.values():
        if f.node.name in skip:
            continue
        for x in ast.walk(f.node):
            what = None
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'int':
                n += 1
                what = 'the number in the name of a stop file is converted without handling a failure'
            elif isinstance(x, ast.Assign) and isinstance(x.targets[0], (ast.Tuple, ast.List)) and isinstance(x.value, ast.Call) and \
                    getattr(x.value.func, 'attr', '') in ('split', 'rsplit'):
                what = 'the name of a stop file is split without handling an unexpected number of parts'
            if what and not handled(x, {'ValueError', 'Exception', 'BaseException'}):
                # safe when the path established that the name parses
                ok = False
                if isinstance(x, ast.Call):
                    evs = [i for i in N(g) if mark(g.ev[i]) and mark(g.ev[i])[0] in ('victim', 'bury', 'force', 'stop')]
                    ok = bool(evs) and all(guarded(facts_m(g, i) or {}) for i in evs)
                c.ob('unparsable names are handled', m, ok, f'{f.file}:{x.lineno}', what)
    c.ob('names are parsed', m, n > 0 or not parents, g.func.file, 'the name of a stop file is never converted to an optimizer number')
    c.count('conversions of names', n)


def guarded(fs):
    return any(z.op in ('truth', 'not') and any(y.op == 'call' and y.args[0] in ('isdigit', 'isdecimal', 'match', 'fullmatch', 're.match', 're.fullmatch')
                                                for y in subterms(z)) and entails(fs, z) and z.op == 'truth' for z in fact_formulas(fs))


def requests(c):
    m = '_is_manual_checkpoints'
    k = c.cls('GloMPOManager')
    ex = None
    n = 0
    for has in (True, False):
        a = truth(CC) if has else mk_not(truth(CC))
        g = c.graph(k, m, keep_old=True, assume=(a,), opaque={'checkpoint'})

        def is_req(t):
            return t is not None and contains(t, lambda x: x is WD) and contains(t, lambda x: x is const('CHKPT')) and not contains(t, lambda x: x.op == 'old')
        exists = {y for i in N(g) for y in [rv(g.ev[i])] if g.ev[i].kind == 'call' and g.ev[i].name in ('exists', 'is_file', 'unlink') and is_req(y)}
        for i in N(g, kind='call', name='checkpoint'):
            n += 1
        dill = c.formula('HAS_DILL', k)

        def requested(f, y):
            return any(entails(f, truth(T('call', w, y, (), (), None))) for w in ('exists', 'is_file'))

        def absent(f, y):
            return any(entails(f, mk_not(truth(T('call', w, y, (), (), None)))) for w in ('exists', 'is_file'))

        def step(q, n, e):
            used, made, ctl, gone = q
            if e.kind == 'exc':
                if e.name in ('unlink',):
                    return (used, made, ctl, True)
                if e.name in ('checkpoint',):
                    return (used, 1, ctl, gone)
                return []
            if e.kind == 'call' and e.name == 'unlink' and is_req(rv(e)):
                if used:
                    return '!', 'the request is removed twice'
                return (1, made, ctl, gone)
            if e.kind == 'call' and e.name == 'checkpoint' and rv(e) is SELF:
                f = facts_at(g, n)
                if made:
                    return '!', 'more than one checkpoint is made for a request'
                if gone or not any(requested(f, y) for y in exists) and not used:
                    return '!', 'a checkpoint is made without a request'
                if ctl == 'none':
                    return '!', 'a checkpoint is made without settings'
                if not has and ctl != 'temporary':
                    return '!', 'a checkpoint is made without settings'
                return (used, 1, ctl, gone)
            if e.kind == 'store' and e.name == 'checkpoint_control' and rv(e) is SELF:
                v = norm_term(e.value)
                if v is NONE or v is FALSE or v.op == 'old' and v.args[0] is CC:
                    if has and not (v.op == 'old'):
                        return '!', 'the configured checkpoint settings are removed'
                    return (used, made, 'given' if has else 'none', gone)
                if v is CC:
                    return q
                if has:
                    return '!', 'the configured checkpoint settings are replaced'
                if v.op == 'inst' and str(v.args[0]).endswith('CheckpointingControl'):
                    if any(len(x) for x in v.args[1:3] if isinstance(x, tuple)):
                        return '!', 'the temporary settings are not the defaults'
                    return (used, made, 'temporary', gone)
                return '!', f'the checkpoint settings become {show(v)}'
            if e.kind == 'exit' and e.name == 'return':
                f = facts_at(g, n)
                if ctl == 'temporary':
                    return '!', 'the temporary settings stay after the checkpoint (they enable periodic checkpoints)'
                if made and not used:
                    return '!', 'the request is not consumed (a checkpoint is made again and again)'
                asked = any(requested(f, y) for y in exists)
                if asked and not used:
                    return '!', 'the request is not consumed'
                if (asked or used and not gone) and not made and not entails(f, mk_not(dill)):
                    return '!', 'a request is consumed without making a checkpoint'
                if not asked and not used and not gone and not any(absent(f, y) for y in exists):
                    return '!', 'requests are not looked for'
            return q
        run_automaton(c, 'a request makes one checkpoint', f'{m} ' + ('with' if has else 'without') + ' settings', g,
                      (0, 0, 'given' if has else 'none', False), step, keep=lambda e: e.kind in ('call', 'store'))
    c.count('checkpoints on request', n)


def served(c):
    """The main loop looks for both kinds of requests in every iteration."""
    from rules.c32 import main_loop, duties
    g, site = main_loop(c, keep=lambda f: False)
    c.ob('requests are served', 'start_manager', site is not None, g.func.file, 'no loop processes results')
    if site is not None:
        duties(c, g, site, ['_is_manual_shutdowns', '_is_manual_checkpoints'], 'requests are served')
        c.count('events of the main loop', len(g.ev))
