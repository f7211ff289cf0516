"""Which packages are optional is read from the source (imports which are neither the standard library nor required by setup.py), as is what
each module can rely on: names bound by a guarded import exist when everything imported before them in the same block exists, a flag stands
for the packages imported before it is set. At every use of such a name, every import inside a function and every call of a function which
relies on its caller, the facts of the path must establish the package: by the flag, by the decorator, by a handler of the failing import, or by
a setting which is only ever made under the flag (that is checked too). Modules every user imports import none unguarded. The decorator calls
its function only after the import succeeded and otherwise warns; refused settings are switched off with a warning."""
import ast
import re
import sys

from sa.core import *
from sa.engine import VOCAB
from sa.mgr import SELF

TECHNIQUE = 'guard entailment at every use of an optional package with interprocedural summaries; import graph; path rules for the fall-backs'
ASSUMPTIONS = ['an importable package offers what is used of it', 'modules named after one package (listed FEATURE) are only imported by users who have it',
               'a failure while a checkpoint is saved or loaded is reported by that operation (C12, C14)']
FEATURE = {'glompo.generators.annealing': 'scipy', 'glompo.core.scope': 'matplotlib', 'glompo.optimizers.cmawrapper': 'cma', 'glompo.optimizers.gfls': 'optsam', 'glompo.optimizers.nevergrad': 'nevergrad',
           'glompo.optimizers.scipy': 'scipy', 'glompo.generators.peterbation': 'scipy', 'glompo.interfaces.params': 'scm'}
MISSING = {'ModuleNotFoundError', 'ImportError', 'Exception', 'BaseException', ''}
BROAD = {'Exception', 'BaseException', ''}
REPORTS = {'load_checkpoint', 'checkpoint'}
ALIAS = {'pyyaml': 'yaml'}
TESTED = {'checkpoint_control': 'dill', 'visualisation': 'matplotlib', '_process': 'psutil', 'scope': 'matplotlib'}


def check(c):
    opt = optional(c)
    c.need('optional packages', len(opt), 4)
    env = {m.name: module(c, m, opt) for m in c.p.modules.values()}
    uses(c, opt, env)
    decorator(c)
    fallbacks(c)


def optional(c):
    req = {'numpy', 'yaml', 'tables'}
    f = c.p.root / 'setup.py'
    if f.exists():
        m = re.search(r'install_requires=\[(.*?)\]', f.read_text(), re.S)
        if m:
            req = {ALIAS.get(x.lower(), x.lower()) for x in re.findall(r"['\"]([A-Za-z0-9_\-]+)", m.group(1))}
    out = set()
    for m in c.p.modules.values():
        for n in ast.walk(m.tree):
            names = [a.name for a in n.names] if isinstance(n, ast.Import) else [n.module] if isinstance(n, ast.ImportFrom) and not n.level and n.module else []
            out |= {x.split('.')[0] for x in names}
    return {x for x in out if x not in sys.stdlib_module_names and x not in req and x != 'glompo' and x not in ('collections', '__future__')}


def imported(m, n, opt):
    """[(local name, package)] of an import statement, also of the package's own feature modules."""
    out = []
    if isinstance(n, ast.Import):
        for a in n.names:
            p = a.name.split('.')[0]
            out.append((a.asname or p, p if p in opt else FEATURE.get(a.name)))
    elif isinstance(n, ast.ImportFrom):
        base = n.module or ''
        if n.level:
            parts = m.name.split('.')
            up = n.level - (1 if m.path.name == '__init__.py' else 0)
            parts = parts[:len(parts) - up] if up else parts
            base = '.'.join(parts + ([n.module] if n.module else []))
        for a in n.names:
            p = base.split('.')[0]
            k = p if p in opt else FEATURE.get(base) or FEATURE.get(f'{base}.{a.name}')
            out.append((a.asname or a.name, k))
    return out


def catches(t, what):
    for h in t.handlers:
        ts = [] if h.type is None else h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        names = {ast.unparse(x).split('.')[-1] for x in ts} if ts else {''}
        if names & what:
            return True
    return False


class Env:
    def __init__(self):
        self.sure, self.names, self.flags = set(), {}, {}


def module(c, m, opt):
    e = Env()
    for n in m.tree.body:
        if isinstance(n, ast.Try) and catches(n, MISSING):
            have = set()
            for b in n.body:
                if isinstance(b, (ast.Import, ast.ImportFrom)):
                    for name, p in imported(m, b, opt):
                        if p:
                            have.add(p)
                            e.names[name] = frozenset(have)
                elif isinstance(b, ast.Assign) and have and isinstance(b.targets[0], ast.Name) and not falsy(b.value):
                    if not b.targets[0].id.startswith('HAS') and not any(isinstance(x, ast.Assign) and ast.unparse(x.targets[0]) == b.targets[0].id for h in n.handlers for x in h.body):
                        continue
                    no = [x for h in n.handlers for x in h.body if isinstance(x, ast.Assign) and ast.unparse(x.targets[0]) == b.targets[0].id]
                    plain = isinstance(b.value, ast.Constant) or have & {y.id for y in ast.walk(b.value) if isinstance(y, ast.Name)}
                    ok = bool(no) and all(falsy(x.value) for x in no) and bool(plain)
                    c.ob('a flag tells whether the package is there', f'{m.name}: {b.targets[0].id}', ok, f'{m.rel}:{b.lineno}', f'{b.targets[0].id} does not tell that the package is missing')
                    if ok:
                        e.flags[b.targets[0].id] = frozenset(have)
            continue
        for b in ast.walk(n) if not isinstance(n, (ast.FunctionDef, ast.ClassDef)) else ():
            if isinstance(b, (ast.Import, ast.ImportFrom)):
                for name, p in imported(m, b, opt):
                    if not p or isinstance(n, ast.If) and 'TYPE_CHECKING' in ast.unparse(n.test):
                        continue
                    e.sure.add(p)
                    c.ob('modules import without optional packages', m.name, m.name in FEATURE, f'{m.rel}:{b.lineno}', f'{m.name} cannot be imported without {p}')
    # modules under a guard elsewhere are judged there; flags written anywhere else are not flags
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Global):
            for x in n.names:
                e.flags.pop(x, None)
    for n in m.tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in e.flags and not falsy(n.value):
            c.ob('a flag tells whether the package is there', f'{m.name}: {n.targets[0].id}', False, f'{m.rel}:{n.lineno}', f'{n.targets[0].id} is set although the package may be missing')
    return e


def falsy(x):
    return isinstance(x, ast.Constant) and not x.value


def decorators(f):
    out = set()
    for d in f.node.decorator_list:
        if isinstance(d, ast.Call) and ast.unparse(d.func).split('.')[-1] == 'needs_optional_package' and d.args and isinstance(d.args[0], ast.Constant):
            out.add(str(d.args[0].value).split('.')[0])
    return out


def parents(tree):
    up = {}
    for n in ast.walk(tree):
        for x in ast.iter_child_nodes(n):
            up[x] = n
    return up


def in_try(up, node, what, stop):
    """Within the body of a try statement with a handler of `what`."""
    while node in up and node is not stop:
        p = up[node]
        if isinstance(p, ast.Try) and node in p.body and catches(p, what):
            return True
        node = p
    return False


def tested(fs, env, modname):
    """Packages the facts of a path establish."""
    got = set()
    for name, ps in env.flags.items():
        if entails(fs, truth(T('sym', f'{modname}:{name}'))):
            got |= ps
    for a, p in TESTED.items():
        t = sattr(a)
        if entails(fs, truth(t)) or decide(T('is', t, NONE), fs) is False:
            got.add(p)
    return got


def uses(c, opt, env):
    funcs = [f for f in c.p.all_funcs() if f.module.name.startswith('glompo')]
    allnames = set().union(*[set(e.names) for e in env.values()])
    need, sites = {}, {}
    calls_of = {}
    up = {m.name: parents(m.tree) for m in c.p.modules.values()}
    interesting = {}
    for f in funcs:
        e = env[f.module.name]
        body = list(ast.walk(f.node))
        direct = [n for n in body if isinstance(n, ast.Name) and n.id in e.names] + \
                 [n for n in body if isinstance(n, (ast.Import, ast.ImportFrom)) and any(p for _, p in imported(f.module, n, opt))] + \
                 [n for n in body if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Attribute) and n.value.attr in ('_process', 'scope') and
                  isinstance(n.value.value, ast.Name) and n.value.value.id == 'self']
        if direct:
            interesting[f] = direct
    total = 0
    # summaries: packages which the callers of a function have to establish
    todo, done = list(interesting), set()
    while todo:
        f = todo.pop(0)
        if f in done:
            continue
        done.add(f)
        callers = [h for h in funcs if h is not f and any(isinstance(n, ast.Call) and (isinstance(n.func, ast.Attribute) and n.func.attr == f.name or isinstance(n.func, ast.Name) and n.func.id == f.name) for n in ast.walk(h.node))]
        helper = f.qual not in VOCAB and callers and not decorators(f)
        got = residual(c, f, opt, env, up, interesting.get(f, []), need)
        total += 1
        if not got:
            continue
        need[f] = got
        for h in callers:
            done.discard(h)
            if h not in todo:
                todo.append(h)
            interesting.setdefault(h, [])
        if not callers or f.cls is not None and (f.name == '__init__' or not f.name.startswith('_')) and f.module.name not in FEATURE:
            for p, where in got.items():
                c.ob('a package is only used where it is known to be there', f'{f.qual.split(":")[-1]}: {p}', False, where, f'{p} is used although it may be missing')
    for f in done:
        c.ob('a package is only used where it is known to be there', f.qual.split(':')[-1], True, '')
    c.need('functions with optional packages', total, 8)


def residual(c, f, opt, env, up, direct, need):
    """{package: place} which are used in the function without being established there."""
    m = f.module
    e = env[m.name]
    have = set(decorators(f)) | set(e.sure if m.name in FEATURE else ())
    if m.name in FEATURE:
        have.add(FEATURE[m.name])
    out = {}
    items = []        # (ast node, packages, kind)
    for n in direct:
        if isinstance(n, ast.Name):
            items.append((n, e.names[n.id], 'use'))
        elif isinstance(n, ast.Attribute):
            items.append((n, {TESTED[n.value.attr]}, 'attr'))
        else:
            items.append((n, {p for _, p in imported(m, n, opt) if p}, 'import'))
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call):
            nm = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else None
            for h, ps in need.items():
                if h.name == nm and (isinstance(n.func, ast.Name) and h.cls is None or isinstance(n.func, ast.Attribute) and
                                     (h.cls is None or isinstance(n.func.value, ast.Name) and n.func.value.id in ('self', 'cls') and f.cls is not None and (h.cls is f.cls or h.cls in c.p.mro(f.cls) or f.cls in c.p.mro(h.cls)) or
                                      not (isinstance(n.func.value, ast.Name) and n.func.value.id in ('self', 'cls')) and h.name not in COMMON)):
                    items.append((n, set(ps), 'call'))
    items = [(n, ps, k) for n, ps, k in items if not annotation(up[m.name], n, f.node) and set(ps) - have]
    if not items:
        return out
    g = None
    for n, ps, k in items:
        left = set(ps) - have
        # handlers
        if k == 'import' and in_try(up[m.name], n, MISSING, f.node):
            continue
        if f.name in REPORTS and in_try(up[m.name], n, BROAD, f.node):
            continue
        left -= syntactic(up[m.name], n, f.node, e)
        if left and k in ('use', 'call', 'attr', 'import'):
            if g is None:
                g = c.run(f, cls=f.cls, exc='try', inline=(), entry_cap=4, watch=set(e.names) | set(e.flags), keep=lambda x: contains(x, lambda y: y.op == 'sym' and y.args[0].split(':')[-1] in e.flags or y.op == 'attr' and y.args[1] in TESTED))
                marks = {}
                for i, ev in enumerate(g.ev):
                    if ev is not None and ev.node is not None:
                        marks.setdefault(id(ev.node), []).append(i)
            stmt, at = n, []
            while stmt is not f.node and not at:
                at = marks.get(id(stmt), [])
                stmt = up[m.name][stmt]
            if at:
                est = [tested(facts_at(g, i), e, m.name) for i in at]
                left -= set.intersection(*est)
        for p in left:
            out.setdefault(p, f'{f.file}:{n.lineno}')
    return out


COMMON = {'checkpoint_save', 'checkpoint_load', 'load_state', 'minimize', 'close', 'run', 'put', 'flush', 'generate', 'callstop', 'checkpoint'}


def annotation(up, n, stop):
    """Annotations of local variables are never evaluated; those of the signature are strings or names of feature modules."""
    while n in up and n is not stop:
        p = up[n]
        if isinstance(p, ast.AnnAssign) and n is p.annotation or isinstance(p, ast.arg) and n is p.annotation or isinstance(p, ast.FunctionDef) and n is p.returns:
            return True
        n = p
    return False


def syntactic(up, n, stop, e):
    """Packages established by conditions around an expression (A and B, A if B else C, if B: A)."""
    got = set()

    def flags(t):
        if isinstance(t, ast.Name) and t.id in e.flags:
            return set(e.flags[t.id])
        if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And):
            return set().union(*[flags(x) for x in t.values])
        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self' and t.attr in TESTED:
            return {TESTED[t.attr]}
        return set()
    while n in up and n is not stop:
        p = up[n]
        if isinstance(p, ast.BoolOp) and isinstance(p.op, ast.And):
            for x in p.values[:p.values.index(n)]:
                got |= flags(x)
        if isinstance(p, ast.IfExp) and n is p.body or isinstance(p, ast.If) and n in p.body:
            got |= flags(p.test)
        n = p
    return got


# ------------------------------------------------------------------ the decorator
def decorator(c):
    f = next((y for y in c.p.all_funcs() if y.name == 'needs_optional_package'), None)
    if f is None:
        c.ob('the decorator lets a function run only with its package', 'needs_optional_package', False, '', 'there is no decorator')
        return
    inner = nested(f)
    target = {a.arg for n in inner for a in n.node.args.args}
    hit = 0
    for fault in (None, 'ModuleNotFoundError', 'ImportError'):
        def raises(name, recv, a, kw):
            return (fault,) if fault and name.split('.')[-1] in ('import_module', '__import__', 'find_spec') else ()
        raises.all = True
        for w in inner:
            if w.node.args.vararg is None:
                continue
            g = c.run(w, exc='none', inline='*', raises=raises)
            imports = set(N(g, lambda e: e.kind == 'call' and e.name.split('.')[-1] in ('import_module', '__import__')))
            runs = set(N(g, lambda e: e.kind == 'call' and e.name in target))
            if not runs:
                continue
            hit += 1
            where = f'{f.file}:{w.node.lineno}'
            c.ob('the decorator lets a function run only with its package', 'needs_optional_package: import', not not_preceded(g, imports, runs), where, 'the function runs although its package was not looked for')
            pk = f.node.args.args[0].arg
            for n in imports:
                c.ob('the decorator lets a function run only with its package', 'needs_optional_package: package', contains(av(g.ev[n], 0), lambda x: x.op in ('ext', 'sym') and x.args[0] == pk), g.ev[n].where, 'another package is looked for')

            def step(q, n, e):
                if e.kind == 'exc':
                    return 'missing'
                if q == 'missing' and n in runs:
                    return '!', 'the function runs without its package'
                if q == 'missing' and e.kind == 'call' and e.name.split('.')[-1] in ('warn', 'warning'):
                    return 'warned'
                if q is None and n in runs:
                    return 'ran'
                return q
            at = run_automaton(c, 'the decorator lets a function run only with its package', 'needs_optional_package', g, None, step, keep=lambda e: e.kind == 'exc')
            for kind, n, v, st in g.exits:
                for q in at.get(n, ()):
                    if q in ('missing', 'warned') or fault is None and q is None:
                        c.ob('a missing package is a warning', 'needs_optional_package', q == 'warned' and kind == 'return', where, f'without the package the call ends with {kind} and ' + ('a' if q == 'warned' else 'no') + ' warning')
                    if q == 'ran' and kind == 'return':
                        c.ob('the decorator changes nothing else', 'needs_optional_package', nv(v).op == 'call' and nv(v).args[0] in target, where, 'the result of the function is lost')
    c.ob('the decorator lets a function run only with its package', 'needs_optional_package', hit > 0, f'{f.file}:{f.node.lineno}', 'the decorated function is never run')


# ------------------------------------------------------------------ what happens without
def fallbacks(c):
    k = c.cls('GloMPOManager')
    flag = T('sym', f'{k.module.name}:HAS_DILL')
    flag = truth(flag)
    ctl = T('sym', 'checkpoint_control')
    for f in k.methods.values():
        if not any(isinstance(n, ast.Attribute) and n.attr == 'checkpoint_control' and isinstance(n.ctx, ast.Store) for n in ast.walk(f.node)):
            continue
        g = c.run(f, cls=k, exc='none', inline=(), entry_cap=8, assume=(mk_not(flag),), keep=lambda x: contains(x, lambda y: y.op == 'sym' and 'HAS_' in y.args[0]))
        mine = N(g, lambda e: e.kind == 'store' and e.name == 'checkpoint_control' and rv(e) is SELF)
        none = {n for n in mine if decide(truth(nv(g.ev[n].value)), facts_at(g, n)) is False or iff_safe(nv(g.ev[n].value), flag)}
        ends = {n for kind, n, v, st in g.exits if kind == 'return'}
        for n in mine:
            ok = n in none or not not_followed(g, [n], none - {n}, ends)
            c.ob('checkpointing is only set up with its package', f'{f.name}', ok, g.ev[n].where, 'checkpointing is set up although dill may be missing')
    given = c.formula('isinstance(checkpoint_control, CheckpointingControl)', k, {'checkpoint_control': ctl})
    g = c.graph(k, 'setup', exc='none', entry_cap=8, assume=(mk_not(flag), given), keep=lambda x: contains(x, lambda y: y.op == 'sym' and ('HAS_' in y.args[0] or y.args[0] == 'checkpoint_control')))
    warned(c, g, 'setup', set(N(g, lambda e: e.kind == 'store' and e.name == 'checkpoint_control')))
    g = c.graph(k, '_is_manual_checkpoints', exc='none', assume=(mk_not(flag),))
    c.ob('serialisation is not attempted without its package', '_is_manual_checkpoints', not calls_named(g, 'checkpoint'), f'{g.func.file}:{g.func.node.lineno}', 'a checkpoint is attempted although dill is missing')
    warned(c, g, '_is_manual_checkpoints', set(N(g, lambda e: e.kind == 'call' and e.name == 'unlink')))
    # a scope exists whenever there is a visualisation
    for m in ('setup', 'load_checkpoint'):
        g = c.graph(k, m, exc='try', inline=(), entry_cap=4, cap=60, keep=lambda x: contains(x, lambda y: y.op == 'attr' and y.args[1] in ('visualisation', 'scope') or y is T('sym', 'visualisation')))
        where = f'{g.func.file}:{g.func.node.lineno}'
        imp = [n for n in N(g, lambda e: e.kind == 'exc' and e.name == 'import')]
        stores = set(N(g, lambda e: e.kind == 'store' and e.name == 'scope' and rv(e) is SELF))
        off = set(N(g, lambda e: e.kind == 'store' and e.name == 'visualisation' and rv(e) is SELF and decide(truth(nv(e.value)), {}) is False))
        warns = set(N(g, lambda e: e.kind == 'call' and e.name.split('.')[-1] == 'warn'))
        ends = {n for kind, n, v, st in g.exits if kind == 'return'}
        raised = {n for kind, n, v, st in g.exits if kind == 'raise'}
        c.ob('visualisation is skipped without its package', f'{m}: import', bool(imp), where, 'the visualisation is imported where a missing package is not handled')
        for n in imp:
            for what, marks, text in (('off', off, 'the visualisation stays switched on'), ('warned', warns, 'there is no warning')):
                bad = not_followed(g, [n], marks, ends)
                c.ob('visualisation is skipped without its package', f'{m}: {what}', not bad, where, f'without matplotlib {text}')
    g = c.graph(k, 'start_manager', exc='none', inline=(), entry_cap=3, keep=lambda x: contains(x, lambda y: y.op == 'sym' and 'HAS_' in y.args[0]))
    sets = set(N(g, lambda e: e.kind == 'call' and e.name == '_setup_system_monitoring' or e.kind == 'store' and e.name == '_process'))
    ps = mk_not(truth(T('sym', f'{k.module.name}:HAS_PSUTIL')))
    off = {n for n in range(len(g.ev)) if g.ev[n] is not None and g.st[n] is not None and entails(facts_at(g, n), ps)}
    uses = set(N(g, lambda e: e.kind == 'call' and e.name == '_build_status_message'))
    c.ob('monitoring is set up before it is used', 'start_manager', not not_preceded(g, sets | off, uses - off), f'{g.func.file}:{g.func.node.lineno}', 'the load is reported before monitoring was set up')


def iff_safe(v, flag):
    """A conditional value which is only something when the flag holds."""
    if v.op != 'ite':
        return False
    return entails(norm_facts(assume(v.args[0], True, {})[0]), flag) and v.args[2] is NONE or entails(norm_facts((assume(v.args[0], False, {}) or [{}])[0]), flag) and v.args[1] is NONE


def calls_named(g, name):
    return N(g, lambda e: e.kind == 'call' and e.name == name and rv(e) is SELF)


def warned(c, g, m, marks):
    where = f'{g.func.file}:{g.func.node.lineno}'
    warns = set(N(g, lambda e: e.kind == 'call' and e.name.split('.')[-1] == 'warn'))
    ends = {n for kind, n, v, st in g.exits if kind == 'return'}
    c.ob('a missing package is a warning', m, bool(warns), where, 'nothing is said about the missing package')
    both = not_preceded(g, warns, marks)
    bad = [n for n in marks if not_followed(g, [n], warns, ends)] if both else []
    bad = [n for n in bad if n in {b for b, _ in both}]
    c.ob('a missing package is a warning', m + ': said', not bad, where, 'checkpointing is refused without a warning')
