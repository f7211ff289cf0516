"""In every method which closes optimizers the counter of converged optimizers and the table of killed ones are followed as primitive effects
along every path of an iteration (or call). The counter increases exactly once, and only together with closing an optimizer which the path
proves not to be closed already and for which the path received an end signal or found a clean exit; closing an optimizer for any other
reason never changes it. The time of the stop is entered for exactly the optimizers closed by a hunt or by the user, together with the stop
sent, and nowhere else; neither the counter nor the table is changed by any other code."""
from sa.core import *
from sa.mgr import *

TECHNIQUE = 'typestate automaton over primitive record effects per iteration with path facts; whole-class effect census'
ASSUMPTIONS = ['an optimizer signals its own end at most once (C10)']
KILL = ('_start_hunt', '_is_manual_shutdowns')


def check(c):
    n_conv = n_vic = 0
    for m in CLOSING:
        g = closing_graph(c, m)

        def on_end(ms, n, e, x, m=m):
            kinds = {z[0] for z in ms}
            odd = [k for k in kinds if str(k).startswith('conv') and k != 'conv']
            if odd:
                return 'one end of an optimizer counts more than once'
            own = 'own' in kinds
            if 'conv' in kinds:
                if 'bury' not in kinds:
                    return 'an end is counted without closing the optimizer'
                y = [z[1] for z in ms if z[0] == 'bury'][0]
                if ('open', y) not in ms:
                    return 'an optimizer which is already closed can be counted as converged'
                if kinds & {'victim', 'force'} or m in KILL:
                    return 'a stopped optimizer is counted as converged'
                if not own:
                    return 'an optimizer is counted as converged although it did not finish on its own'
            elif 'bury' in kinds and own and not kinds & {'victim', 'force'}:
                y = [z[1] for z in ms if z[0] == 'bury'][0]
                if ('open', y) in ms or ('closed', y) not in ms:
                    return 'an optimizer which finished on its own is not counted'
            vs, bs, ss = ({z[1] for z in ms if z[0] in k} for k in (('victim',), ('bury',), ('stop', 'force')))
            if m in KILL:
                if vs != bs:
                    return 'an optimizer is stopped without counting it as killed' if bs - vs else 'an optimizer is counted as killed without closing it'
                if vs and not (ss >= vs or ('failed', 'send') in ms):
                    return 'an optimizer is counted as killed without being told to stop'
                if ss - vs:
                    return 'an optimizer is stopped without counting it as killed'
            elif vs:
                return 'an optimizer is counted as killed although neither a hunt nor the user stopped it'
            return None
        marks, _ = segments(c, g, 'counted once for its own end', m, on_end)
        n_conv += sum(1 for k, x in marks.values() if str(k).startswith('conv'))
        for n, (k, x) in marks.items():
            if k == 'victim':
                n_vic += 1
                v = norm_term(g.ev[n].value)
                c.ob('time of the stop', m, v.op == 'call' and v.args[0].split('.')[-1] == 'time', g.ev[n].where, f'the time of the stop is {show(v)}')
            if m in ('_check_signals', '_inspect_children', '_checkpoint_optimizers') and k == 'conv':
                pass
        if m in ('_check_signals', '_inspect_children', '_checkpoint_optimizers'):
            c.ob('own ends are counted', m, any(k == 'conv' for k, x in marks.values()), f'{g.func.file}:{g.func.node.lineno}', f'{m} never counts a converged optimizer')
        if m in KILL:
            c.ob('kills are counted', m, any(k == 'victim' for k, x in marks.values()), f'{g.func.file}:{g.func.node.lineno}', f'{m} never counts a killed optimizer')
    c.need('increments and stop times', n_conv + n_vic, 5)
    census(c)
    stats(c)


def census(c):
    """No other code changes the counter or the table."""
    k = c.cls('GloMPOManager')
    v = vocab()
    for name, f in sorted(k.methods.items()):
        for x in ast.walk(f.node):
            tgt = x.targets if isinstance(x, (ast.Assign, ast.Delete)) else [x.target] if isinstance(x, (ast.AugAssign, ast.AnnAssign)) else []
            for t in tgt:
                for y in ast.walk(t):
                    if isinstance(y, ast.Attribute) and y.attr in ('conv_counter', 'hunt_victims') and not isinstance(y.ctx, ast.Load) and name in v:
                        ok = name == '__init__' or y.attr == 'conv_counter' and name in CLOSING
                        c.ob('counted only where ends are noticed', f'{name}: {y.attr}', ok, f'{f.file}:{x.lineno}', f'{name} sets {y.attr}')
                    if isinstance(y, ast.Attribute) and y.attr == 'hunt_victims' and isinstance(y.ctx, ast.Load) and name in v:
                        ok = isinstance(x, ast.Assign) and name in ('_shutdown_job',) + KILL
                        c.ob('killed only by hunts and user stops', name, ok, f'{f.file}:{x.lineno}', f'{name} changes the table of killed optimizers')
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Attribute) and x.func.value.attr == 'hunt_victims':
                ok = x.func.attr in ('keys', 'values', 'items', 'get', 'copy', '__contains__') or x.func.attr == 'update' and name in ('_shutdown_job',) + KILL
                c.ob('killed only by hunts and user stops', name, ok, f'{f.file}:{x.lineno}', f'{name} changes the table of killed optimizers')
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == '_shutdown_job':
                c.ob('killed only by hunts and user stops', name, name in KILL or name not in v, f'{f.file}:{x.lineno}', f'{name} kills optimizers')


def stats(c):
    """The counts reported are these."""
    k = c.cls('GloMPOManager')
    want = {'opts_killed': T('call', 'len', None, (VICTIMS,), (), None), 'opts_conv': sattr('conv_counter'), 'opts_started': sattr('o_counter')}
    g = c.graph(k, '_update_best_result', inline='*')
    n = 0
    for kind, i, v, s in g.exits:
        if kind != 'return':
            continue
        for d in subterms(nv(v)):
            if d.op == 'dict':
                for it in d.args:
                    if it.op == 'tuple' and it.args[0].op == 'const' and it.args[0].args[0] in want:
                        n += 1
                        key = it.args[0].args[0]
                        c.ob('reported counts', key, it.args[1] is want[key], f'{g.func.file}:{g.func.node.lineno}', f'{key} is reported as {show(it.args[1])}')
    f = c.meth(k, 'start_manager')
    for x in ast.walk(f.node):
        if isinstance(x, ast.Dict):
            for kk, vv in zip(x.keys, x.values):
                if isinstance(kk, ast.Constant) and kk.value in want:
                    n += 1
                    t = None
                    try:
                        t = c.expr(ast.unparse(vv), k)
                    except Exception:
                        continue
                    if not contains(t, lambda y: y.op == 'sym' and y.args[0] != 'self'):
                        c.ob('reported counts', f'final {kk.value}', t is want[kk.value], f'{f.file}:{x.lineno}', f'{kk.value} is reported as {show(t)}')
    c.need('reported counts', n, 3)
