"""Runs the checks of every planted bug on a copy of /repo with the patch: python3 tools/seedcheck.py [id...] (own property, then all)."""
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path
V = Path(__file__).resolve().parent.parent
ALL = [c['property'] for c in json.loads((V / 'MANIFEST.json').read_text())['checks']]
FULL = '--all' in sys.argv
args = [a for a in sys.argv[1:] if a != '--all']


def one(s):
    d = Path(tempfile.mkdtemp(prefix='sc_'))
    try:
        shutil.copytree('/repo/glompo', d / 'glompo', ignore=shutil.ignore_patterns('__pycache__'))
        r = subprocess.run(['patch', '-p1', '-s', '-i', str(s / 'patch.diff')], cwd=d, capture_output=True, text=True)
        if r.returncode:
            return s.name, 'PATCH', r.stdout
        prop = json.loads((s / 'meta.json').read_text())['property']
        res = {}
        for c in (ALL if FULL else [prop]):
            if c in ALL:
                r = subprocess.run([sys.executable, str(V / 'check.py'), c], capture_output=True, text=True, env=dict(os.environ, SA_REPO=str(d), SA_EVIDENCE=str(d)))
                if r.returncode:
                    res[c] = (r.returncode, [l.split(':', 1)[1].strip() for l in r.stdout.splitlines() if l.startswith(('rule ', 'construct '))][:2])
        return s.name, prop, res
    finally:
        shutil.rmtree(d, ignore_errors=True)


with concurrent.futures.ThreadPoolExecutor(8) as ex:
    miss = 0
    for n, p, r in ex.map(one, sorted(x for x in (V / 'seeded').iterdir() if x.is_dir() and (not args or any(a in x.name for a in args)))):
        ok = isinstance(r, dict) and r.get(p, (0,))[0] == 1
        miss += not ok
        print('caught' if ok else 'MISSED' if p in ALL else 'no check', n, p, r)
    print(miss, 'missed')
