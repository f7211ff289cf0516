"""Decision tables: on every path of every bundled stopping criterion the returned truth value is compared, under the conditions of
the path, with the documented threshold condition for all orderings of the compared quantities; the remembered value equals the
returned one; constructors store their thresholds; state changes of KillsAfterConvergence are compared with its transition table."""
from sa.core import *

SPEC = {
    'MaxFuncCalls': ('manager.f_counter >= self.fmax', ['fmax']),
    'MaxKills': ('len(manager.hunt_victims) >= self.kills_max', ['kills_max']),
    'MaxOptsStarted': ('manager.o_counter >= self.omax', ['omax']),
    'NOptConverged': ('manager.conv_counter >= self.nconv', ['nconv']),
    'TargetCost': ('manager.result.fx is not None and manager.result.fx <= self.target + self.atol', ['target', 'atol']),
    'MaxSeconds': ('(self.overall_max and (manager.t_start and time() - manager.t_start + manager.t_used >= self.overall_max or '
                   'not manager.t_start and manager.t_used >= self.overall_max)) or '
                   '(not self.overall_max and (manager.t_start and time() - manager.t_start >= self.session_max or '
                   'not manager.t_start and 0 >= self.session_max))', ['session_max', 'overall_max']),
    'KillsAfterConvergence': (None, ['n_killed', 'n_converged']),
}
ASSUMPTIONS = ['compared quantities are not nan', 'time() is the wall clock']


def check(c):
    n = 0
    for name, (text, params) in SPEC.items():
        k = c.cls(name)
        g = c.graph(k, '__call__', inline='*', keep_old=True)
        mp = g.func.node.args.args[1].arg
        mgr = T('sym', mp)
        n += 1
        if text:
            spec = c.formula(text, k, {'manager': mgr})
            if name == 'MaxSeconds':    # the constructor ensures that exactly one limit is given
                xor = c.formula('self.session_max and not self.overall_max or not self.session_max and self.overall_max', k)
                for x in g.exits:
                    if x[0] == 'return':
                        f = ordered(norm_facts(x[3].facts), truth(nv(x[2])), spec)
                        c.ob('threshold', name, entails(f, mk_or([mk_not(xor), iff(truth(nv(x[2])), spec)])), g.func.file, f'returns {show(truth(nv(x[2])))}; specified: {show(spec)[:300]}')
            else:
                decision(c, 'threshold', name, g, spec)
        else:
            en0 = c.formula('self.enough_conv', k)
            reach = c.formula('manager.conv_counter >= self.n_converged', k, {'manager': mgr})
            now = mk_or([en0, reach])
            first = mk_and([reach, mk_not(en0)])
            vict = c.expr('len(manager.hunt_victims)', k, {'manager': mgr})
            kc = sattr('kill_count')
            for kind, nd, v, s in g.exits:
                f = ordered(norm_facts(s.facts), now)
                # the flag is stored as True: facts about its old value are phrased on the attribute before the store
                fo = ordered({(T('attr', T('sym', 'self'), 'enough_conv') if 0 else q): w for q, w in norm_facts(s.facts, old=True).items()}, now)
                fo = {rb(q): w for q, w in fo.items()}
                e1, k1 = final(s, 'enough_conv'), final(s, 'kill_count')
                e1t = truth(rbt(e1)) if e1 is not None else en0
                c.ob('enabling by convergence', name, entails(fo, iff(e1t, now)), g.func.file,
                     f'counting of kills is enabled as {show(e1t)} where {show(now)} is specified')
                for case, want in ((first, vict), (mk_not(first), kc)):
                    if satisfiable(fo, case):
                        for h in assume(case, True, fo):
                            c.ob('kills before convergence', name, (rbt(k1) if k1 is not None else kc) is want, g.func.file,
                                 f'base of the kill count is {show(k1) if k1 is not None else "unchanged"} where {show(want)} is specified')
                            d = sub(vict, want)
                            spec = mk_and([now, rel(d, T('attr', T('sym', 'self'), 'n_killed'), '>=')])
                            val = truth(rbt(nv(v)))
                            hh = ordered(h, val, spec)
                            c.ob('threshold', name, entails(hh, iff(val, spec)), g.func.file,
                                 f'returns {show(val)}; specified {show(spec)}')
            ig = c.graph(k, '__init__', inline='*')
            for kind, nd, v, s in ig.exits:
                c.ob('initially disabled', name, final(s, 'enough_conv') is FALSE, ig.func.file, 'counting of kills is enabled from the start')
        for kind, nd, v, s in g.exits:
            r = final(s, '_last_result')
            c.ob('last answer remembered', name, r is not None and entails(norm_facts(s.facts), iff(truth(r), truth(nv(v)))), g.func.file,
                 f'returns {show(nv(v))} but remembers {show(r) if r is not None else "nothing"}')
            c.ob('never raises', name, kind == 'return', g.func.file, 'the criterion raises')
        ig = c.graph(k, '__init__', inline='*')
        for kind, nd, v, s in ig.exits:
            if kind != 'return':
                continue
            for p in params:
                c.ob('constructor stores threshold', f'{name}.{p}', final(s, p) is T('sym', p), ig.func.file,
                     f'{name} stores {final(s, p) and show(final(s, p))} as {p}')
            if name == 'MaxSeconds':
                f = norm_facts(s.facts)
                xor = c.formula('session_max and not overall_max or not session_max and overall_max', k)
                c.ob('exactly one time limit', name, entails(f, xor), ig.func.file,
                     'MaxSeconds accepts both or neither time limit')
    c.need('criteria', n, 7)


def rbt(t):
    """Old values of the state attributes are the values at entry."""
    return rebuild(t, lambda x: x.args[0] if x.op == 'old' else x) if t is not None else None


def rb(q):
    return ('p', rbt(q[1])) if isinstance(q, tuple) else rbt(q)

