#!/usr/bin/env python3
"""Runs checks on scratch variants of /repo: selftest/variants/*.py list edits which break a property (the named checks have to
report them) and edits which keep the behaviour (every check has to stay silent).

    python3 selftest/run.py [substring...]         e.g. c17, ok_

A variant file defines V = [(id, kind, checks, [(file, old, new), ...]), ...] with kind 'bug' or 'ok'; checks for 'ok' variants may be
'*' (all registered checks).
"""
import concurrent.futures
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path

V = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get('SA_REPO', '/repo'))


def one(job):
    vid, kind, checks, edits = job
    d = Path(tempfile.mkdtemp(prefix='sa_var_'))
    try:
        shutil.copytree(REPO / 'glompo', d / 'glompo', ignore=shutil.ignore_patterns('__pycache__'))
        for f, old, new in edits:
            p = d / 'glompo' / f
            s = p.read_text()
            if s.count(old) < 1:
                return vid, kind, 'STALE', f'{f}: text not found: {old[:60]!r}'
            s = s.replace(old, new, 1)
            p.write_text(s)
            compile(s, f, 'exec')
        out = []
        for c in checks:
            env = dict(os.environ, SA_REPO=str(d), SA_EVIDENCE=str(d))
            r = subprocess.run([sys.executable, str(V / 'check.py'), c], capture_output=True, text=True, env=env, timeout=900)
            out.append((c, r.returncode, r.stdout + r.stderr))
        if kind == 'bug':
            ok = any(rc == 1 for _, rc, _ in out)
            rules = [l for _, rc, o in out if rc == 1 for l in o.splitlines() if l.startswith(('rule', 'construct'))][:2]
            det = '; '.join(rules) if ok else ' '.join(f'{c}={rc}' for c, rc, _ in out) + ' ' + out[0][2][-300:] * (not ok and any(rc == 2 for _, rc, _ in out))
        else:
            ok = all(rc == 0 for _, rc, _ in out)
            det = '' if ok else '\n'.join(o[:1500] for c, rc, o in out if rc != 0)
        return vid, kind, 'ok' if ok else 'FAIL', det
    except Exception as e:
        return vid, kind, 'ERROR', f'{type(e).__name__}: {e}'
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    allc = sorted(p.stem.upper() for p in (V / 'rules').glob('c[0-9]*.py'))
    jobs = []
    for f in sorted((V / 'selftest' / 'variants').glob('*.py')):
        spec = importlib.util.spec_from_file_location(f.stem, f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        for vid, kind, checks, edits in m.V:
            checks = allc if checks == '*' else checks.split()
            vid = f'{f.stem}/{vid}'
            if not sys.argv[1:] or any(a in vid for a in sys.argv[1:]):
                jobs.append((vid, kind, checks, edits))
    bad = 0
    with concurrent.futures.ProcessPoolExecutor(8) as ex:
        for vid, kind, res, det in ex.map(one, jobs):
            if res != 'ok':
                bad += 1
            print(f'{res:6} {kind:4} {vid}  {det}')
    print(f'{len(jobs)} variants, {bad} failed')
    return bad > 0


if __name__ == '__main__':
    sys.exit(main())
