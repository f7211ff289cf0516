"""A file-state automaton runs over all paths of the checkpoint construction, including the exception and interrupt edges of every step. It
tracks the content of the archive under its final name (absent, older archive, partial, complete), of every file it is moved to, the working
folder and the entry in the history. At every exit the name refers to nothing, to the older archive or to a complete one; the older one was
not lost unless the new one is complete, nothing temporary is left, the history lists exactly complete ones, a failure is a warning or, if so
configured (or for interrupts), the error. Deletions of other files need: the new archive is complete, a limit is set, they are files, match
the naming pattern, and come after the allowed number in the listing sorted newest first. A task which cannot be pickled does not fail a checkpoint."""
from sa.core import *
from sa.mgr import *
from sa.terms import rebuild

TECHNIQUE = 'file-state automaton over all paths including exception edges; provenance of deleted names'
ASSUMPTIONS = ['one fault per checkpoint: no second failure while the first is cleaned up',
               'Path.exists and Path.is_file answer truthfully', 'no temporary files of an earlier, killed run are in the checkpoint folder']
CC = T('attr', SELF, 'checkpoint_control')
DIR = T('attr', CC, 'checkpointing_dir')
_C = {}


def call0(t, *names):
    return t.op == 'call' and t.args[0].split('.')[-1] in names


def cpath(t):
    """Canonical form of a path."""
    r = _C.get(t)
    if r is None:
        r = _C[t] = rebuild(norm_term(t), _cp)
    return r


def _cp(t):
    if t.op == 'call':
        n, recv, args = t.args[0].split('.')[-1], t.args[1], t.args[2]
        if n in ('resolve', 'absolute', 'expanduser', 'as_posix') and recv is not None and not args:
            return recv
        if n in ('str', 'Path', 'PurePath', 'fspath', 'abspath', 'realpath') and recv is None and len(args) == 1:
            return args[0]
        if n == 'joinpath' and recv is not None or n in ('join', 'Path', 'PurePath') and recv is None:
            parts = ([recv] if n == 'joinpath' else []) + list(args)
            if parts and not any(x.op == 'star' for x in parts):
                r = parts[0]
                for x in parts[1:]:
                    r = T('join', r, x)
                return r
        if n == 'with_name' and recv is not None and len(args) == 1:
            return _cp(T('join', _cp(T('attr', recv, 'parent')), args[0]))
        if n == 'basename' and len(args) == 1:
            return _cp(T('attr', args[0], 'name'))
        if n == 'dirname' and len(args) == 1:
            return _cp(T('attr', args[0], 'parent'))
    if t.op == 'poly' and len(t.args) == 1 and t.args[0][1] == 1:
        m = dict(t.args[0][0])
        up = [x for x, k in m.items() if k == 1]
        dn = [x for x, k in m.items() if k == -1]
        if len(up) == 1 and len(dn) == 1 and len(m) == 2:
            return T('join', up[0], dn[0])
    if t.op == 'attr' and t.args[0].op == 'join' and t.args[1] in ('parent', 'name'):
        return t.args[0].args[0 if t.args[1] == 'parent' else 1]
    if t.op in ('fstr', 'concat') and len(t.args) == 2 and isinstance(t.args[0], T):
        a, b = t.args
        b = b if isinstance(b, T) else const(b)
        if a.op == 'join':
            return T('join', a.args[0], _cp(T('fstr', a.args[1], b)))
        if t.op == 'concat' or b is not t.args[1]:
            return T('fstr', a, b)
    if t.op == 'fstr' and len(t.args) == 3 and all(isinstance(x, T) for x in t.args):       # f"{dir}/{name}"
        a, sep, b = t.args
        if sep is const('/'):
            return T('join', a, b)
    return t


def moved(e):
    """(source, destination) of a file being moved."""
    if e.kind != 'call':
        return None
    n = e.name.split('.')[-1]
    r = rv(e)
    if n in ('replace', 'rename') and r is not None and r.op != 'ext' and len(e.args) + len(e.kw or ()) == 1:
        return cpath(r), cpath(nv(av(e, 0, 'target')))
    if n in ('replace', 'rename', 'move') and len(e.args) >= 2 and (r is None or r.op == 'ext'):
        return cpath(nv(e.args[0])), cpath(nv(e.args[1]))
    return None


def deleted(e):
    if e.kind != 'call':
        return None
    n = e.name.split('.')[-1]
    r = rv(e)
    if n in ('unlink', 'rmdir') and r is not None and r.op != 'ext':
        return cpath(r)
    if e.name in ('os.remove', 'os.unlink', 'os.rmdir', 'shutil.rmtree') and e.args:
        return cpath(nv(e.args[0]))
    return None


def tar_open(e):
    return e.kind == 'call' and e.name in ('tarfile.open', 'tarfile.TarFile.open', 'tarfile.TarFile')


def exists_of(f):
    """Terms of the existence tests in a formula: {term: path}"""
    return {x: cpath(x.args[1]) if x.args[1] is not None else cpath(x.args[2][0]) for x in subterms(f)
            if x.op == 'call' and (x.args[0] in ('exists', 'is_file') and x.args[1] is not None
                                   or x.args[0] in ('os.path.exists', 'os.path.isfile') and len(x.args[2]) == 1)}


def conv0(e):
    """The value of a call event."""
    r = rv(e)
    return T('call', e.name, norm_term(r) if r is not None and r.op != 'ext' else None, tuple(norm_term(nv(a)) for a in e.args), (), None)


class Prune:
    """Deletion of an older checkpoint."""

    def __init__(self, c, g, n, p):
        self.why = None
        nm = p
        if p.op == 'join' and p.args[0] is DIR:
            nm = p.args[1]
        while nm.op == 'attr' and nm.args[1] == 'name':
            nm = nm.args[0]
        if nm.op == 'idx' and nm.args[0].op in ('slice', 'sorted'):
            nm = T('elem', nm.args[0], 0)
        if nm.op != 'elem':
            self.why = f'deletes {show(p)}'
            return
        src = nm.args[0]
        lo = hi = None
        if src.op == 'slice':
            src, lo, hi = src.args[:3]
        elif src.op == 'idx' and src.args[1].op == 'slice':
            lo, hi = src.args[1].args[0:2]
            src = src.args[0]
        self.lo, self.hi = lo, hi
        rev = False
        while src.op == 'call' and src.args[0] in ('list', 'tuple', 'reversed', 'sorted') or src.op == 'sorted':
            if call0(src, 'sorted') or src.op == 'sorted':
                kw = dict(src.args[3]) if src.op == 'call' else {}
                r = kw.get('reverse', FALSE)
                if r not in (TRUE, FALSE):
                    self.why = 'order of the older checkpoints is not understood'
                    return
                rev = rev != (r is TRUE)
                src = src.args[2][0] if src.op == 'call' else src.args[0]
                self.sorted = True
            else:
                if src.args[0] == 'reversed':
                    rev = not rev
                src = src.args[2][0]
        self.newest_first = rev
        for e in g.ev:
            if e is not None and e.kind == 'call' and e.name == 'sort' and rv(e) is not None and norm_term(rv(e)) is src:
                r = av(e, 9, 'reverse')
                self.sorted, self.newest_first = True, r is TRUE
        if not getattr(self, 'sorted', False):
            self.why = 'the older checkpoints are not ordered'
            return
        conds, s = [], src
        while s.op == 'comp' or call0(s, 'filter') or s.op in ('list', 'tuple', 'star') and len(s.args) == 1 \
                or s.op == 'call' and s.args[0] in ('list', 'tuple', 'set') and len(s.args[2]) == 1:
            if s.op == 'comp':
                conds += [x for x in subterms(s.args[3])] if isinstance(s.args[3], T) else []
                s = s.args[2]
            elif call0(s, 'filter'):
                f = s.args[2][0]
                conds.append(T('call', f.args[1] if f.op == 'attr' else f.args[0].split('.')[-1], f.args[0] if f.op == 'attr' else None, (), (), None))
                s = s.args[2][1]
            else:
                s = s.args[0] if s.op != 'call' else s.args[2][0]
        self.listing = s
        self.conds = {x.args[0].split('.')[-1] for x in conds if x.op == 'call'}
        if not (call0(s, 'iterdir', 'glob') and s.args[1] is not None and cpath(s.args[1]) is DIR or call0(s, 'listdir') and s.args[2] and cpath(s.args[2][0]) is DIR):
            self.why = f'the deleted files are not those of the checkpoint folder: {show(s)}'


def check(c):
    cls, m = 'GloMPOManager', 'checkpoint'
    g = c.graph(cls, m, max_states=3000, cap=3000, hold={'exists', 'is_file', 'os.path.exists', 'os.path.isfile'}, keep=lambda f: any(x.op == 'attr' and x.args[1] in ('raise_checkpoint_fail', 'keep_past') or x.op == 'call' and x.args[0] in (
        'exists', 'is_file', 'os.path.exists', 'os.path.isfile', 'matches_naming_format', 'isinstance', 'endswith') for x in subterms(f)))
    opens = [n for n, e in enumerate(g.ev) if e is not None and tar_open(e)]
    c.ob('C13.content', 'archive', bool(opens), g.func.file, 'the archive is written with tarfile')
    if not opens:
        return
    adds = [n for n, e in enumerate(g.ev) if e is not None and e.kind == 'call' and e.name == 'add' and rv(e) is not None
            and call0(norm_term(rv(e)), 'open', 'TarFile')]
    works = {cpath(nv(av(g.ev[n], 0, 'name'))) for n in adds}
    W = works.pop() if len(works) == 1 else None
    c.ob('C13.content', 'the archive holds the working folder', W is not None, g.func.file, 'one folder is added to the archive')
    if W is None or W.op != 'join':
        c.ob('C13.content', 'the working folder is a folder of the checkpoint folder', False, g.func.file, show(W) if W is not None else 'no folder')
        return
    TP = T('join', W.args[0], T('fstr', W.args[1], const('.tar.gz')))
    c.ob('C13.content', 'working folder', W.args[0] is DIR and call0(W.args[1], 'get_name'), g.func.file, f'{show(W)} is the next name in the checkpoint folder')
    finals = set()
    handled = {id(e.node) for e in g.ev if e is not None and e.kind == 'exc'}
    count = [0, 0, 0]
    facts = {}

    def known(n):
        r = facts.get(n)
        if r is None:
            fm = facts_m(g, n)
            ex = {}
            for f in fact_formulas(fm):
                for t, p in exists_of(f).items():
                    if entails(fm, truth(t)):
                        ex[p] = True
                    elif entails(fm, mk_not(truth(t))):
                        ex[p] = False
            fatal = truth(T('attr', CC, 'raise_checkpoint_fail'))
            odd = [mk_not(x if x.op != 'call' else truth(x)) for x in (y for f in fact_formulas(fm) for y in subterms(f)) if x.op == 'call' and x.args[0] == 'isinstance'
                   and any(y.op in ('ext', 'sym', 'class') and str(y.args[0]).split('.')[-1] == 'Exception' for y in subterms(x))]
            fa = True if entails(fm, mk_or([fatal] + odd)) else False if entails(fm, mk_not(fatal)) else None
            r = facts[n] = (ex, fa, fm)
        return r

    # state: contents, working folder, listed, failed, warned, fatal, lost, added, paths whose existence was tested since the last change
    def step(q, n, e):
        cont = dict(q[0])
        _, work, listed, failed, warned, fatal, lost, added, asked = q
        ex0, fa, fm = known(n)
        ex = {p: v for p, v in ex0.items() if p in asked}
        if fa is not None and failed:
            fatal = fa
        for p, v in ex.items():
            if p is TP:
                x = cont.get(TP, 'A')
                if x == 'U':
                    cont[TP] = 'E' if v else 'A'
                elif v and x == 'A' or not v and x in ('E', 'C'):
                    return []
                elif not v and x in ('P',):
                    cont[TP] = 'A'
                elif not v and x == 'PU':
                    cont[TP] = 'A'
            elif p in cont and not v:
                return []
            elif p in temps and p not in cont and v:
                return []            # nothing is left from earlier

        def out():
            return (tuple(sorted(((p, v) for p, v in cont.items() if v is not None), key=lambda x: x[0].key())), work, listed, failed, warned, fatal, lost, added, asked)
        if e.kind == 'call' and (moved(e) or deleted(e) is not None or tar_open(e) or e.name == 'mkdir'):
            asked = frozenset()
        elif e.kind == 'call':
            for p in exists_of(truth(conv0(e))).values():
                asked = asked | {p}
        if e.kind == 'exc':
            if failed:
                return []
            failed = True
            if e.name in ('tarfile.open', 'open', 'tarfile.TarFile.open', 'tarfile.TarFile'):
                for s in opened_at.get(id(e.node), ()):
                    p, w = s
                    x = cont.get(p, 'A')
                    if w and p is TP and x in ('U', 'E'):
                        lost = True
                    cont[p] = x if x == 'E' and not w else 'PU' if x == 'U' and not w else 'P'
            return out()
        if e.kind == 'raise' and not failed:
            failed = True
            return out()
        if e.kind == 'call':
            mv, dl = moved(e), deleted(e)
            if e.name == 'mkdir' and rv(e) is not None and cpath(rv(e)) is W:
                work = 'made'
                return out()
            if e.name == 'os.makedirs' and e.args and cpath(nv(e.args[0])) is W:
                work = 'made'
                return out()
            if tar_open(e):
                count[0] += 1
                p = cpath(nv(av(e, 0, 'name')))
                w = not mode(e).startswith('x')
                x = cont.get(p, 'A')
                if p is TP and w and x in ('U', 'E'):
                    lost = True
                cont[p] = 'PU' if x == 'U' and not w else 'P'
                added = False
                return out()
            if n in addset:
                if not failed:
                    added = True
                return out()
            if e.name == 'close' and rv(e) is not None and call0(norm_term(rv(e)), 'open', 'TarFile') and not failed:
                return done(cont, out, added)
            if mv is not None:
                count[1] += 1
                a, b = mv
                x = cont.get(a, 'A')
                y = cont.get(b, 'A')
                if a is not TP and x == 'A':
                    return ('!', f'{show(a)[:80]} is moved, which this construction has not made')
                if b is TP and x in ('P', 'PU'):
                    return ('!', 'an incomplete archive is moved to the name of the checkpoint')
                if b is TP and y in ('U', 'E') and x != 'C':
                    lost = True
                if y == 'O' and b is not TP:
                    lost = True
                cont[b] = {'U': 'O', 'E': 'O'}.get(x, x) if a is TP else ('E' if x == 'O' and b is TP else x)
                if x == 'O' and b is TP:
                    lost = False
                cont[a] = None if a is not TP else 'A'
                return out()
            if dl is not None:
                count[2] += 1
                if dl is W:
                    work = 'none'
                    return out()
                if dl is TP:
                    x = cont.get(TP, 'A')
                    if x in ('E', 'U', 'PU'):
                        lost = True
                    cont[TP] = 'A'
                    return out()
                if dl in cont:
                    if cont[dl] == 'O' and cont.get(TP, 'A') != 'C':
                        return ('!', 'the older checkpoint of the same name is deleted although the new one is not complete')
                    cont[dl] = None
                    return out()
                if dl in temps or dl.op == 'join' and dl.args[0] is DIR and dl.args[1].op == 'const':
                    return out()          # nothing there on this path
                if cont.get(TP, 'A') != 'C' or failed:
                    return ('!', f'{show(dl)[:80]} is deleted although the new checkpoint is not complete')
                pr = prunes.get(n) or prunes.setdefault(n, Prune(c, g, n, dl))
                if pr.why:
                    return ('!', pr.why)
                if not pr.newest_first:
                    return ('!', 'the newest checkpoints are deleted instead of the oldest')
                if 'matches_naming_format' not in pr.conds and not any(
                        x.op == 'call' and x.args[0] == 'matches_naming_format' for f in fact_formulas(fm) for x in subterms(f) if entails(fm, truth(x))):
                    return ('!', 'files which do not match the naming pattern are deleted')
                kp = T('attr', CC, 'keep_past')
                if not entails(fm, rel(kp, const(-1), '>')) and not entails(fm, rel(kp, const(0), '>=')) and not entails(fm, rel(kp, const(-1), '!=')):
                    return ('!', 'checkpoints are deleted although no limit was set')
                files_only = bool({'is_file', 'endswith'} & pr.conds)
                want = add(kp, const(1 if files_only or work == 'none' else 2))
                if pr.lo is None or norm_term(pr.lo) is not norm_term(want) or pr.hi not in (None, NONE):
                    return ('!', f'checkpoints are deleted from position {show(pr.lo) if pr.lo is not None else 0} of the newest on, must be {show(want)}')
                if not files_only and not ex0.get(dl):
                    return ('!', 'something that is not a file is deleted')
                return out()
            if e.name in ('add', 'discard', 'remove') and rv(e) is not None and norm_term(rv(e)) is T('attr', SELF, 'checkpoint_history'):
                p = cpath(nv(e.args[0]))
                finals.add(p)
                if p is not TP:
                    return ('!', f'the history is told about {show(p)[:80]}, which is not the archive')
                if e.name == 'add':
                    listed = True
                else:
                    if e.name == 'remove' and not listed:
                        return ('!', 'the history entry is removed on a path where it was not made (KeyError hides the failure)')
                    listed = False
                return out()
            if e.name == 'warnings.warn' and failed:
                warned = True
            return out()
        if e.kind == 'log' and e.name.endswith('warning') and failed:
            warned = True
            return out()
        if e.kind == 'leave' and call0(norm_term(rv(e)) if rv(e) is not None else NONE, 'open', 'TarFile') and not failed:
            return done(cont, out, added)
        if e.kind == 'exit':
            t = cont.get(TP, 'A')
            rest = [p for p in cont if p is not TP and cont[p] is not None]
            if t in ('P', 'PU'):
                return ('!', 'an incomplete archive is left under the name of the checkpoint')
            if lost and t != 'C':
                return ('!', 'an older checkpoint of the same name was lost although the new one is not complete')
            if any(cont[p] == 'O' for p in rest) and t != 'C':
                return ('!', 'an older checkpoint of the same name is not restored')
            if rest:
                return ('!', f'a temporary file is left: {show(rest[0])[:80]}')
            if work == 'made':
                return ('!', 'the working folder is left')
            if listed and t != 'C':
                return ('!', 'a failed checkpoint is listed in the history')
            if e.name == 'return':
                if not failed and (t != 'C' or not listed):
                    return ('!', 'a checkpoint is reported as made without a complete archive which is listed in the history')
                if failed and not warned:
                    return ('!', 'a failed checkpoint gives no warning')
                if failed and fatal is not False:
                    return ('!', 'a failure is ignored although it was configured to be fatal')
            else:
                v = e.value
                ki = v is not None and v.op == 'exc' and v.args[0] in ('KeyboardInterrupt', 'SystemExit', 'GeneratorExit')
                if failed and not ki and fatal is not True:
                    return ('!', 'a failure ends the run although it was not configured to be fatal')
            return out()
        return out()

    def done(cont, out, added):
        for p, v in cont.items():
            if v in ('P', 'PU'):
                if not added:
                    return ('!', 'the archive is closed without the working folder in it')
                cont[p] = 'C'
        return out()

    def mode(e):
        m = av(e, 1, 'mode')
        return m.args[0] if m is not None and m.op == 'const' and isinstance(m.args[0], str) else 'w'

    opened_at, temps, prunes, addset = {}, set(), {}, set(adds)
    for n in opens:
        e = g.ev[n]
        opened_at.setdefault(id(e.node), set()).add((cpath(nv(av(e, 0, 'name'))), not mode(e).startswith('x')))
        temps.add(cpath(nv(av(e, 0, 'name'))))
    for n, e in enumerate(g.ev):
        if e is not None and e.kind == 'call':
            mv = moved(e)
            if mv:
                temps |= set(mv)
    temps.discard(TP)
    steps = ('_checkpoint_optimizers', '_checkpoint_manager', '_checkpoint_task', 'checkpoint_save', 'flush')
    for n, e in enumerate(g.ev):
        if e is not None and e.kind == 'call' and (e.name in steps or e.name == 'mkdir' or tar_open(e) or n in addset or moved(e)):
            if id(e.node) not in handled:
                c.ob('C13.handled', f'failure of {e.name}', False, e.where, f'an error of {e.name} is not handled: debris, history entry and configuration are ignored')
                break
    else:
        c.ob('C13.handled', 'every step of the construction is inside the error handling', True)
    init = (((TP, 'U'),), 'none', False, False, False, None, False, False, frozenset())
    run_automaton(c, 'C13.atomic', 'checkpoint construction', g, init, step)
    c.need('archives opened', count[0])
    c.count('files moved', count[1])
    c.need('files deleted', count[2])

    # a task which cannot be pickled
    cls, m = 'GloMPOManager', '_checkpoint_task'
    g2 = c.graph(cls, m)
    dumps = [n for n, e in enumerate(g2.ev) if e is not None and e.kind == 'call' and e.name.split('.')[-1] == 'dump']
    c.count('task dumps', len(dumps))
    for k, n, v, s in g2.exits:
        c.ob('C13.task', f'{k} of _checkpoint_task', k != 'raise' or v.op == 'exc' and v.args[0] == 'KeyboardInterrupt', g2.func.file,
             'a task which cannot be saved is left out, it does not fail the checkpoint')

    def tstep(q, n, e):
        if e.kind == 'exc' and e.name.split('.')[-1] == 'dump':
            return 'bad'
        if e.kind == 'call' and deleted(e) is not None:
            return None
        if e.kind == 'exit' and e.name == 'return' and q == 'bad':
            return ('!', 'a partially written task is left in the checkpoint')
        return q
    run_automaton(c, 'C13.task', 'partial task file', g2, None, tstep)
