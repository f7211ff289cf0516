"""The start of a run is analysed separately for fresh and for resumed runs. An automaton follows whether permission is established - overwriting
is allowed, or the search for old results found nothing - and every event which creates, truncates or deletes a file, or starts an optimizer, needs
it. Names of all outputs written by the run must be matched by the patterns searched for; only found files are deleted, the iteration log never in
a resumed run. A resumed run opens the existing log for appending, and touches it only after its checksum was compared equal to the one of
the checkpoint; evaluations are cut at the first one after the counter of the checkpoint, in every table, and every group of an optimizer
newer than the checkpoint is removed. All other deletions in the code must belong to the files of checkpoints or user requests."""
import ast
from fnmatch import fnmatch

from sa.core import *
from sa.mgr import *
from rules.c13 import cpath, deleted

TECHNIQUE = 'permission automaton over file operations; matching of written names against searched patterns; guard entailment'
ASSUMPTIONS = ['Path.glob lists every matching file', 'console streams of optimizers and movies are not protected results: they are replaced by design']
WD = sattr('working_dir')
OVER = truth(sattr('overwrite_existing'))
FLAG = sattr('_is_restart')


def strings(t):
    """A sample of the names a term stands for, '~' for unknown parts."""
    t = norm_term(t)
    if t.op == 'const':
        return str(t.args[0])
    if t.op in ('concat', 'fstr'):
        return ''.join(strings(x) if isinstance(x, T) else str(x) for x in t.args)
    if t.op == 'slice' and t.args[0].op == 'const' and isinstance(t.args[0].args[0], str) and all(x.op == 'const' for x in t.args[1:]):
        return t.args[0].args[0][slice(*[x.args[0] for x in t.args[1:]])]
    return '~'


def in_dir(p, base):
    """Name of a file directly in a folder."""
    p = cpath(p)
    return p.args[1] if p.op == 'join' and p.args[0] is base else None


def globs(t):
    """Patterns searched for in the working folder, in a term."""
    out = set()
    for x in subterms(t):
        if x.op == 'call' and x.args[0] in ('glob', 'rglob') and x.args[1] is not None and cpath(x.args[1]) is WD and x.args[2] and x.args[2][0].op == 'const':
            out.add(x.args[2][0].args[0])
    return out


def existence(t):
    """Names whose existence in the working folder a term tests."""
    out = set()
    for x in subterms(t):
        if x.op == 'call' and x.args[0] in ('exists', 'is_file') and x.args[1] is not None:
            n = in_dir(x.args[1], WD)
            if n is not None and n.op == 'const':
                out.add(n.args[0])
    return out


def keep(f):
    return contains(f, lambda x: x.op == 'attr' and x.args[1] in ('overwrite_existing', '_is_restart', '_checksum', 'checksum', 'f_counter', 'o_counter', 'nrows', '_v_name') or
                    x.op == 'call' and x.args[0] in ('glob', 'rglob', 'exists', 'is_file', 'open_file') or x.op in ('new', 'hv', 'elem'))


def ext(e):
    return e.name.split('.')[-1]


def log_open(e):
    return e.kind == 'call' and e.name == 'open' and rv(e) is sattr('opt_log')


def starts(e):
    return e.kind == 'call' and e.name == 'start' and rv(e) is not None and rv(e).op == 'attr' and rv(e).args[1] == 'process'


def check(c):
    k = c.cls('GloMPOManager')
    f = c.meth(k, 'start_manager')
    where = f'{f.file}:{f.node.lineno}'
    G = {}
    for restart in (False, True):
        flag = truth(FLAG)
        asm = (flag,) if restart else (mk_not(flag),)
        G[restart] = c.run(f, cls=k, inline=('_purge_old_results',), assume=asm, cap=16, exc='none', keep=keep)
        permission(c, G[restart], restart, where)
    resumed(c, G[True], where)
    for r in G:
        modes(c, G[r], r, where)
    logger(c)
    sites(c)


# ---------------------------------------------------------------- permission
def outputs(c, g, restart):
    """Names of the files the run writes into the working folder."""
    out = {}
    for e in g.ev:
        if e is not None and log_open(e):
            n = in_dir(nv(av(e, 0, 'path')), WD)
            out[strings(n) if n is not None else show(nv(av(e, 0, 'path')))] = e.where
    s = c.run(c.meth('GloMPOManager', '_save_log'), cls=c.cls('GloMPOManager'), args={'dump_dir': WD}, cap=8, exc='none', keep=lambda f: False)
    for e in s.ev:
        if e is None or e.kind != 'call':
            continue
        p = None
        if ext(e) == 'open' and rv(e) is not None and rv(e).op != 'ext' and not log_open(e):
            m = av(e, 0, 'mode')
            if m is not None and nv(m).op == 'const' and set(str(nv(m).args[0])) & set('wxa'):
                p = rv(e)
        elif e.name in ('open', 'io.open') and len(e.args) > 1:
            p = nv(e.args[0])
        elif ext(e) in ('plot_trajectory', 'plot_optimizer_trajs', 'savefig', 'write_text', 'write_bytes'):
            p = rv(e) if ext(e).startswith('write') else nv(e.args[0]) if e.args else nv(dict(e.kw).get('title', NONE))
        if p is not None:
            n = in_dir(p, WD)
            out[strings(n) if n is not None else show(p)] = e.where
    for e in g.ev:
        if e is not None and e.kind == 'call' and e.name == '_save_log':
            d = av(e, 3, 'dump_dir')
            c.ob('output folder', 'start_manager: _save_log', d is not None and cpath(nv(d)) is WD, e.where, 'the summary is saved elsewhere, where old results were not searched')
    return out


def permission(c, g, restart, where):
    lab = 'start_manager, ' + ('resumed' if restart else 'fresh')
    searched = set()
    for e in g.ev:
        if e is not None and e.kind == 'call':
            searched |= globs(conv(e)) | existence(conv(e))
    own = outputs(c, g, restart)
    c.need(f'output files ({lab})', len(own), 2)
    log = {strings(in_dir(nv(av(e, 0, 'path')), WD) or const('~')) for e in g.ev if e is not None and log_open(e)}
    for n, w in sorted(own.items()):
        if restart and n in log:
            continue
        c.ob('output searched for', f'{lab}: {n}', any(fnmatch(n, p) for p in searched), w, f'{n} is written but old files of this name are not searched for; searched: {sorted(searched)}')

    def nothing(fs):
        """Nothing was found: a negated fact about the findings."""
        return {x for f_ in fact_formulas(fs) for x in [f_] if f_.op == 'not' and (globs(f_) or existence(f_) or contains(f_, lambda y: y.op == 'new' and y.args[0] in ('list', 'set')))}

    def step(q, n, e):
        if not q and g.st[n] is not None:
            fs = g.st[n].facts
            if decide(OVER, fs) is True or decide(T('truth', sattr('overwrite_existing')), fs) is True:
                return ['allowed']
            none = nothing(fs)
            if none and (covers(none, own, log if restart else ())):
                return ['none found']
        return [q]
    at, parent = g.automaton(None, step)
    touch = [n for n, e in enumerate(g.ev) if e is not None and (deleted(e) is not None or log_open(e) or starts(e) or e.kind == 'call' and e.name == '_save_log'
                                                               or e.kind == 'call' and ext(e) in ('remove_rows', 'remove_node', 'open_file') or
                                                               e.kind == 'call' and ext(e) in ('write_text', 'write_bytes', 'touch'))]
    c.need(f'file operations ({lab})', len(touch), 3)
    for n in touch:
        e = g.ev[n]
        what = 'deletion' if deleted(e) is not None else e.name
        bad = None in at.get(n, ())
        c.ob('old results are protected', f'{lab}: {what}', not bad, e.where, 'reached although old results may be present and overwriting was not allowed',
             describe_path(g, g.path([0], {n})) if bad else None)
        if deleted(e) is not None:
            c.ob('deletion needs permission', f'{lab}: {show(deleted(e))[:60]}', at.get(n, set()) <= {'allowed'}, e.where, 'old results are deleted without permission')
    # refusal raises
    for kind, n, v, s in g.exits:
        if kind == 'raise' and None in at.get(n, ()) and v.op == 'exc':
            c.ob('refusal is an error', f'{lab}: {v.args[0]}', 'Error' in v.args[0], where, '')
    # what is deleted was searched for
    for n in touch:
        p = deleted(g.ev[n])
        if p is None:
            continue
        if ext(g.ev[n]) == 'rmtree':
            nm = in_dir(p, WD)
            c.ob('only old results are deleted', f'{lab}: {show(p)[:60]}', nm is not None and strings(nm) == 'glompo_optimizer_printstreams', g.ev[n].where, f'removes {show(p)}')
            continue
        pats = globs(p)
        direct = in_dir(p, WD)
        if direct is not None and direct.op == 'const':
            pats = {direct.args[0]}
        if p.op == 'elem' and not pats and contains(p, lambda x: x.op in ('new', 'hv')):
            pats = {x for e in g.ev if e is not None and e.kind == 'call' for x in globs(conv(e))}
        c.ob('only old results are deleted', f'{lab}: {show(p)[:60]}', bool(pats) and (p.op == 'elem' or direct is not None), g.ev[n].where, f'deletes {show(p)}')
        known = [o for o in own if o not in (log if restart else ())]
        for pat in sorted(pats):
            c.ob('only old results are deleted', f'{lab}: {pat}', any(fnmatch(o, pat) for o in known) or pat in ('opt*_parms.png',), g.ev[n].where, f'files named {pat} are no output of a run')
            if restart:
                c.ob('log of a resumed run is kept', f'{lab}: {pat}', not any(fnmatch(x, pat) for x in log), g.ev[n].where, f'the iteration log matches {pat} and is deleted when resuming')
        # all of them
        for site in enclosing(g, [n]):
            its, ends = iter_segments(g, site)
            dl = {m for m in touch if deleted(g.ev[m]) is not None}
            c.ob('allowed: old results removed', lab, not set(ends) & g.reach(its, blocked=dl) and not any(g.ev[m].kind == 'break' for m in ends), g.ev[n].where,
                 'some of the old results found are not removed')


def conv(e):
    r = rv(e)
    return T('call', e.name, r if r is not None and r.op != 'ext' else None, tuple(nv(a) for a in e.args if a is not None), (), None)


def covers(none, own, skip):
    """The negated findings cover all outputs (if they name patterns at all)."""
    pats = set()
    for f in none:
        pats |= globs(f) | existence(f)
        if not (globs(f) or existence(f)):
            return True
    return all(any(fnmatch(o, p) for p in pats) for o in own if o not in skip)


# ---------------------------------------------------------------- the log of a resumed run
def modes(c, g, restart, where):
    lab = 'start_manager, ' + ('resumed' if restart else 'fresh')
    for n, e in enumerate(g.ev):
        if e is None or not log_open(e):
            continue
        m = nv(av(e, 1, 'mode'))
        p = cpath(nv(av(e, 0, 'path')))
        there = T('call', 'exists', p, (), (), None)
        known = {x: cpath(x.args[1]) for f in fact_formulas(norm_facts(g.st[n].facts)) for x in subterms(f) if x.op == 'call' and x.args[0] in ('exists', 'is_file') and x.args[1] is not None}
        v = {decide(truth(x), norm_facts(g.st[n].facts)) for x, q in known.items() if q is p}
        if m is const('a'):
            c.ob('mode of the log', f'{lab}: a', restart, e.where, 'a fresh run appends to an existing log')
        elif m is const('w'):
            c.ob('mode of the log', f'{lab}: w', not restart or False in v, e.where, 'a resumed run truncates an existing log')
        else:
            c.ob('mode of the log', f'{lab}: {show(m)[:40]}', False, e.where, f'the log is opened in mode {show(m)[:80]}')


def peeked(g):
    """Terms of the log opened by the manager itself."""
    return {conv(e) for e in g.ev if e is not None and e.kind == 'call' and e.name in ('tables.open_file', 'tables.file.open_file')}


def resumed(c, g, where):
    lab = 'start_manager, resumed'
    P = peeked(g)
    c.ob('log compared with the checkpoint', lab, bool(P), where, 'an existing log is not inspected when resuming')
    for p in P:
        nm = in_dir(p.args[2][0], WD)
        logs = {cpath(nv(av(e, 0, 'path'))) for e in g.ev if e is not None and log_open(e)}
        c.ob('same log', lab, logs == {cpath(p.args[2][0])}, where, 'another file than the one continued is inspected')
    mine = sattr('_checksum')
    his = {T('attr', T('attr', T('attr', p, 'root'), '_v_attrs'), 'checksum') for p in P}

    def step(q, n, e):
        if not q and g.st[n] is not None:
            for f in fact_formulas(norm_facts(g.st[n].facts)):
                for h in his:
                    if entails({}, mk_or([mk_not(f), rel(h, mine, '==')])) if contains(f, lambda x: x is h) else False:
                        return [True]
        return [q]
    at, _ = g.automaton(False, step)
    cut, drop = [], []
    for n, e in enumerate(g.ev):
        if e is None or e.kind != 'call':
            continue
        if log_open(e) and nv(av(e, 1, 'mode')) is not const('w') or ext(e) in ('remove_rows', 'remove_node', '_f_remove', 'truncate', 'modify_column'):
            c.ob('checksum matches', f'{lab}: {e.name}', False not in at.get(n, ()), e.where, 'an existing log is changed or continued without its checksum matching the one of the checkpoint')
        if ext(e) in ('remove_rows', 'truncate'):
            cut.append(n)
        elif ext(e) in ('remove_node', '_f_remove'):
            drop.append(n)
    opens = [n for n, e in enumerate(g.ev) if e is not None and log_open(e) and nv(av(e, 1, 'mode')) is const('a')]
    # a store to the checksum before the comparison would make it meaningless
    st = stores(g, '_checksum')
    c.ob('checksum of the checkpoint', lab, not [n for n in st if False in at.get(n, ()) and not any_write(g, n)], where, 'the checksum is replaced before it was compared')

    # ---------------------------------------------------------- evaluations after the checkpoint
    c.ob('log rolled back', f'{lab}: evaluations', bool(cut), where, 'evaluations newer than the checkpoint are not cut off')
    c.ob('log rolled back', f'{lab}: optimizers', bool(drop), where, 'optimizers newer than the checkpoint are not removed')
    fc = {T('attr', T('attr', T('attr', p, 'root'), '_v_attrs'), 'f_counter') for p in P}
    mf = sattr('f_counter')
    for n in cut:
        e = g.ev[n]
        tab = rv(e)
        a = [nv(x) for x in e.args] + [nv(x) for _, x in e.kw or ()]
        ok = tab is not None and tab.op == 'elem' and tab.args[0].op == 'call' and tab.args[0].args[0] == 'walk_nodes' and tab.args[0].args[1] in P and \
            const('/') in tab.args[0].args[2] or tab is not None and tab.op == 'elem' and tab.args[0].op == 'call' and tab.args[0].args[0] == 'walk_nodes' and tab.args[0].args[1] in P
        ok = ok and (const('Table') in tab.args[0].args[2] or any(x is const('Table') for _, x in tab.args[0].args[3] or ()))
        c.ob('every table', lab, ok, e.where, f'only {show(tab)[:120]} is cut')
        ok = bool(a) and first_after(a[0], tab, mf) and all(x is NONE or x is T('attr', tab, 'nrows') for x in a[1:])
        c.ob('cut exactly after the checkpoint', lab, ok, e.where, f'rows are removed from {", ".join(show(x)[:120] for x in a)}')
        for site in enclosing(g, [n]):
            its, ends = iter_segments(g, site)
            if any(contains(nv(g.ev[i].target), lambda x: x.op == 'call' and x.args[0] == 'walk_nodes') for i in its if g.ev[i].target is not None):
                rest = [m for m in set(ends) & g.reach(its, blocked=set(cut))]
                bad = [m for m in rest if not short(g, m, tab, mf)]
                c.ob('every table', lab + ' (loop)', not bad, e.where, 'a table is left as it is')
    heads = loop_heads(g, cut)
    p = bypass(g, opens, heads, at, lambda fs: any(entails(ordered(fs, rel(x, mf, '<=')), rel(x, mf, '<=')) for x in fc))
    c.ob('log rolled back', f'{lab}: evaluations, always', not p, where, 'a log with more evaluations than the checkpoint is continued without cutting them off', p)
    oc = sattr('o_counter')
    for n in drop:
        e = g.ev[n]
        names = {x for a in list(e.args) + [rv(e)] if a is not None for x in subterms(nv(a)) if x.op == 'elem'}
        grp = [x for x in names if x.args[0].op == 'call' and x.args[0].args[0] in ('iter_nodes', 'list_nodes', '_f_iter_nodes', 'walk_groups')]
        c.ob('every group', lab, bool(grp), e.where, 'the removed node is not one of the groups of the log')
        for x in grp:
            num = number_of(g, n, x)
            fs = norm_facts(g.st[n].facts)
            ok = any(entails(ordered(fs, rel(i, oc, '>')), rel(i, oc, '>')) for i in num)
            c.ob('only newer optimizers', lab, ok, e.where, 'a group is removed although its optimizer is not newer than the checkpoint')
            for site in enclosing(g, [n]):
                its, ends = iter_segments(g, site)
                for m in set(ends) & g.reach(its, blocked=set(drop)):
                    fs = norm_facts(g.st[m].facts)
                    ok = any(entails(ordered(fs, rel(i, oc, '<=')), rel(i, oc, '<=')) for i in num)
                    c.ob('every newer optimizer', lab, ok, e.where, 'the group of an optimizer newer than the checkpoint is kept')
    heads = loop_heads(g, drop)
    p = bypass(g, opens, heads, at, lambda fs: False)
    c.ob('log rolled back', f'{lab}: optimizers, always', not p, where,
         'a log is continued without removing the optimizers which are newer than the checkpoint: new ones with the same number cannot be logged', p)


def any_write(g, n):
    """The store happens where no log exists."""
    fs = norm_facts(g.st[n].facts)
    return any(f.op == 'not' and contains(f, lambda x: x.op == 'call' and x.args[0] in ('exists', 'is_file')) for f in fact_formulas(fs))


def number_of(g, n, grp):
    """Terms which give the number in the name of a group."""
    out = set()
    for f in fact_formulas(norm_facts(g.st[n].facts)):
        for x in subterms(f):
            if x.op == 'call' and x.args[0] == 'int' and contains(x, lambda y: y is grp) and contains(x, lambda y: y.op == 'attr' and y.args[1] in ('_v_name', '_v_pathname')):
                out.add(x)
    return out


def first_after(t, tab, mf):
    """Index of the first row of the table whose call number exceeds the counter."""
    col = T('call', 'col', tab, (const('call_id'),), (), None)
    cols = {col, T('attr', T('attr', tab, 'cols'), 'call_id'), T('idx', tab, const('call_id'))}
    if t.op == 'call' and t.args[0] == 'int' and len(t.args[2]) == 1:
        t = t.args[2][0]
    if t.op == 'call' and t.args[0].split('.')[-1] in ('searchsorted', 'bisect_right', 'bisect'):
        a = list(t.args[2])
        kw = dict(t.args[3] or ())
        if t.args[1] is not None and t.args[1].op != 'ext':
            a = [t.args[1]] + a
        side = a[2] if len(a) > 2 else kw.get('side')
        right = side is const('right') or t.args[0].split('.')[-1].startswith('bisect')
        one = [x for x in a[1:2]]
        plus = one and one[0] is norm_term(add(mf, const(1)))
        return bool(a) and a[0] in cols and bool(one) and (one[0] is mf and right or plus and side in (None, const('left')))
    if t.op == 'call' and t.args[0].split('.')[-1] in ('sum', 'count_nonzero') and len(t.args[2]) == 1:
        x = t.args[2][0]
        return x.op == 'rel' or contains(x, lambda y: y in cols) and contains(x, lambda y: y is mf)
    return False


def short(g, n, tab, mf):
    fs = norm_facts(g.st[n].facts)
    return any(contains(f, lambda x: x is tab) for f in fact_formulas(fs))


def loop_heads(g, nodes):
    out = set()
    for site in enclosing(g, nodes):
        out |= {n for n, e in enumerate(g.ev) if e is not None and e.kind == 'loopexit' and e.site == site}
    return out


def bypass(g, ends, through, at, fine):
    """A path to the end which neither passes the loop nor is shown to need none."""
    def step(q, n, e):
        if q:
            return [q]
        if n in through:
            return [True]
        if g.st[n] is not None and fine(norm_facts(g.st[n].facts)):
            return [True]
        return [q]
    a, _ = g.automaton(False, step)
    bad = [n for n in ends if False in a.get(n, ())]
    return describe_path(g, g.path([0], set(bad), blocked=through) or []) or ['path'] if bad else None


def logger(c):
    """The log carries the checksum of the session, and continues the groups it finds."""
    g = c.graph('FileLogger', 'open', exc='none')
    where = f'{g.func.file}:{g.func.node.lineno}'
    st = [n for n, e in enumerate(g.ev) if e is not None and (e.kind == 'store' and e.name == 'checksum' and nv(e.value) is T('sym', 'checksum') or
                                                            e.kind == 'storeidx' and e.args and e.args[0] is const('checksum') and nv(e.value) is T('sym', 'checksum'))]
    c.ob('log carries the checksum', 'FileLogger.open', bool(st) and not not_preceded(g, st, exit_nodes(g, ('return',))), where, 'the checksum is not written into the log')
    for e in g.ev:
        if e is not None and e.kind == 'call' and ext(e) == 'open_file':
            ok = len(e.args) > 1 and nv(e.args[1]) is T('sym', 'mode') or nv(dict(e.kw).get('mode', NONE)) is T('sym', 'mode')
            p = nv(e.args[0]) if e.args else NONE
            c.ob('mode of the log', 'FileLogger.open', ok, e.where, 'the log is not opened in the given mode')
            c.ob('same log', 'FileLogger.open', cpath(p) is T('sym', 'path'), e.where, f'opens {show(p)}')
    m = c.cls('GloMPOManager')
    gs = c.run(c.meth(m, 'start_manager'), cls=m, inline=('_purge_old_results',), assume=(truth(FLAG),), cap=12, exc='none')
    for n, e in enumerate(gs.ev):
        if e is not None and log_open(e):
            v = av(e, 2, 'checksum')
            ok = v is not None and nv(v) is nv(gs.st[n].heap.get((SELF, '_checksum'), sattr('_checksum')))
            c.ob('log carries the checksum', 'start_manager', ok, e.where, 'the log gets another checksum than the one checkpoints will save')


def sites(c):
    """Every deletion in the code belongs to a mechanism whose targets are decided elsewhere, or is guarded here."""
    owner = {}
    for f in c.p.all_funcs():
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call):
                nm = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else ''
                base = ast.unparse(n.func.value) if isinstance(n.func, ast.Attribute) else ''
                if nm in ('unlink', 'rmtree', 'rmdir') or nm in ('remove', 'removedirs', 'truncate') and base == 'os':
                    owner.setdefault(f.qual, []).append((f, n))
    c.count('functions which delete files', len(owner))
    roots = {'start_manager': 'C15', 'checkpoint': 'C13', '_checkpoint_task': 'C13', '_is_manual_shutdowns': 'C16', '_is_manual_checkpoints': 'C16'}
    k = c.cls('GloMPOManager')
    seen = set()
    for r in roots:
        f = c.meth(k, r)
        g = c.run(f, cls=k, inline=('_purge_old_results',), cap=8, keep=lambda f: False)
        seen |= {(id(e.node)) for e in g.ev if e is not None and e.kind == 'call'}
    used = {x.attr if isinstance(x, ast.Attribute) else x.id for f in c.p.all_funcs() for x in ast.walk(f.node) if isinstance(x, (ast.Attribute, ast.Name))}
    for q, l in sorted(owner.items()):
        for f, n in l:
            if f.name.startswith('_') and f.name not in used:
                continue
            c.ob('deletions are accounted for', f'{q}', id(n) in seen, f'{f.file}:{n.lineno}', f'{ast.unparse(n)[:80]} deletes files outside of the mechanisms which guard deletions')
