#!/usr/bin/env python3
"""python3 /verif/check.py <property> [--tier quick|thorough]

Static analysis of /repo (SA_REPO) for one property. Exit 0: holds; 1: VIOLATION; 2: the analysis itself is broken.
"""
import argparse
import importlib
import json
import os
import sys
import time
import traceback
from pathlib import Path

VERIF = Path(__file__).resolve().parent
sys.path.insert(0, str(VERIF))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)


def known():
    out = {}
    f = VERIF / 'known_findings.txt'
    for line in f.read_text().splitlines() if f.exists() else ():
        if line.startswith('finding:'):
            d = dict(x.split('=', 1) for x in line[8:].split(' | ') if '=' in x)
            out[(d['property'].strip(), d['key'].strip())] = d.get('what', '').strip()
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    pid = a.property
    t0 = time.time()
    from sa.core import Ctx
    from sa.project import AnalysisBroken
    try:
        mod = importlib.import_module(f'rules.{pid.lower()}')
        c = Ctx(pid, tier)
        kn = known()
        try:
            mod.check(c)
        except AnalysisBroken as e:
            # what was found before counts; without a violation the run is no answer
            if not [k for k in c.viol if (pid, k) not in kn]:
                raise
            print(f'analysis incomplete: {e}')
        if not c.obs:
            raise AnalysisBroken('no obligation was generated')
    except Exception as e:
        traceback.print_exc()
        print(f'ANALYSIS-BROKEN property={pid} {type(e).__name__}: {e}')
        return 2
    new = []
    for k, r in sorted(c.viol.items()):
        if (pid, k) in kn:
            print(f'KNOWN-FINDING: property={pid} {kn[(pid, k)] or k}')
        else:
            new.append(r)
    nob = len(c.obs)
    good = sum(1 for o in c.obs if o[2])
    distinct = len({(o[0], o[1]) for o in c.obs})
    rules = {}
    for o in c.obs:
        rules[o[0]] = rules.get(o[0], 0) + 1
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'other',
          'coverage': {'explanation': (mod.__doc__ or '').strip(),
                       'obligations': nob, 'discharged': good, 'distinct_obligations': distinct,
                       'obligations_per_rule': rules,
                       'instances': c.counts,
                       'functions_analysed': {k: v for k, v in sorted(c.funcs.items())},
                       'events_analysed': sum(v for v in c.funcs.values() if isinstance(v, int)),
                       'samples': [f'{o[0]}: {o[1]} -> {"ok" if o[2] else "VIOLATED"}' for o in c.obs[:12]]},
          'assumptions': getattr(mod, 'ASSUMPTIONS', []),
          'wall_s': round(time.time() - t0, 3), 'violations': len(new)}
    EV = Path(os.environ.get('SA_EVIDENCE', VERIF / 'evidence'))
    EV.mkdir(exist_ok=True)
    (EV / f'{pid}.json').write_text(json.dumps(ev, indent=1))
    print(f'{pid} [{tier}]: {nob} obligations ({distinct} distinct), {good} discharged; {len(c.funcs)} functions, '
          f'{ev["coverage"]["events_analysed"]} events; {ev["wall_s"]} s')
    for k, v in c.counts.items():
        print(f'    {k}: {v}')
    if new:
        rp = EV / f'{pid}.report.txt'
        lines = []
        for r in new:
            lines.append(f'rule      : {r["rule"]}\nconstruct : {r["construct"]}\nwhere     : {r["where"]}\nviolation : {r["message"]}')
            if r['path']:
                lines.append('path      :')
                lines += [f'    {x}' for x in r['path']]
            lines.append('')
        rp.write_text('\n'.join(lines))
        print('\n'.join(lines))
        print(f'VIOLATION property={pid} replay={rp}')
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
