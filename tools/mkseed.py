"""Writes and confirms planted bugs: python3 tools/mkseed.py SPEC.py [id...]

SPEC.py defines S = [(id, property, needs, what_it_breaks, [(file relative to /repo, old, new), ...], demo source)].
Each one is applied in a scratch copy of /repo; the demonstration has to pass without it and fail with it, and the stable tests have
to pass with it.
"""
import concurrent.futures
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path

V = Path(__file__).resolve().parent.parent
PY = '/opt/venv-pypy/bin/python'
HEAD = '''import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
sys.getsizeof = lambda *a, **k: 10
'''


def env(d):
    return dict(os.environ, PYTHONPATH=str(d), PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='agg', MPLCONFIGDIR='/opt/glompo-env/mpl',
                OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1')


def one(spec):
    sid, prop, needs, breaks, edits, demo = spec
    out = V / 'seeded' / sid
    d = Path(tempfile.mkdtemp(prefix='seed_'))
    try:
        for side in 'ab':
            shutil.copytree('/repo', d / side, ignore=shutil.ignore_patterns('.git', '__pycache__', 'docs'))
        for f, old, new in edits:
            p = d / 'b' / f
            s = p.read_text()
            if s.count(old) != 1:
                return sid, f'{f}: {s.count(old)} matches of {old[:50]!r}'
            p.write_text(s.replace(old, new))
            compile(p.read_text(), f, 'exec')
        out.mkdir(parents=True, exist_ok=True)
        diff = subprocess.run(['diff', '-ruN', 'a', 'b'], cwd=d, capture_output=True, text=True).stdout
        lines = [l.split('\t')[0] if l.startswith(('--- ', '+++ ')) else l for l in diff.splitlines() if not l.startswith('diff ')]
        (out / 'patch.diff').write_text('\n'.join(lines) + '\n')
        r = subprocess.run(['git', '-C', '/repo', 'apply', '--check', str(out / 'patch.diff')], capture_output=True, text=True)
        if r.returncode:
            return sid, 'patch does not apply: ' + r.stderr
        (out / 'demo.sh').write_text(f'#!/bin/bash\nexec {PY} "$(dirname "$0")/demo.py"\n')
        (out / 'demo.py').write_text(HEAD + demo.lstrip('\n'))
        (out / 'meta.json').write_text(json.dumps({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, indent=1) + '\n')
        rcs = []
        for side in 'ab':
            r = subprocess.run(['bash', str(out / 'demo.sh')], cwd=d / side, capture_output=True, text=True, timeout=300, env=dict(os.environ))
            rcs.append(r.returncode)
            if (r.returncode == 0) != (side == 'a'):
                return sid, f'demo on {side}: rc {r.returncode}\n{(r.stdout + r.stderr)[-2000:]}'
        base = d / 'base'
        base.mkdir()
        subprocess.run([PY, '-m', 'pytest', '-q', '--run-minimize', '-o', f'cache_dir={d}/cache', f'--basetemp={base}/t', '--timeout=120',
                        '--continue-on-collection-errors', f'--junitxml={d}/j.xml', 'tests'], cwd=d / 'b', env=env(d / 'b'), capture_output=True, timeout=330)
        subprocess.run(['/usr/bin/python3', '/opt/vp/results.py', str(d / 'o.json'), f'junit:{d}/j.xml'], capture_output=True)
        good = set(json.load(open(d / 'o.json'))['passed'])
        fails = [n for n in json.load(open('/opt/vp/BASELINE.json'))['stable'] if n not in good]
        if fails:
            return sid, f'stable tests fail: {len(fails)} {fails[:5]}'
        return sid, 'confirmed'
    except Exception as e:
        return sid, f'{type(e).__name__}: {e}'
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    sp = importlib.util.spec_from_file_location('spec', sys.argv[1])
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    todo = [s for s in m.S if not sys.argv[2:] or s[0] in sys.argv[2:]]
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        for sid, res in ex.map(one, todo):
            print(sid, res, flush=True)


main()
