"""Writes /verif/MANIFEST.json from properties.jsonl and the rule modules."""
import ast
import json
from pathlib import Path

V = Path(__file__).resolve().parent.parent
NA = {
    'N01': 'A statement about the probability that stochastic search finds a minimum: it quantifies over function values at run time, which no static argument over the source bounds.',
    'N02': 'Requires evaluating numerical functions at real points and bounding them over a box; the source only gives the formula, and deciding it is numerical analysis or testing, not static analysis.',
    'N03': 'The distribution of random draws is produced by library generators at run time; the source shows which generator is called (checked in C19-C21 where it matters) but not the distribution of the outcome.',
    'N04': 'An elapsed time bound depends on the duration of user code and on the scheduler; statically only the presence of time limits on waits can be decided, which C27 and C08 do.',
    'N05': 'Measured resource figures are those of psutil and the operating system at run time.',
    'N06': 'Equality of two executions depends on scheduling and on third party optimizer state; the static part (all state saved and restored) is C14.',
}
checks, na = [], []
for line in (V / 'properties.jsonl').read_text().splitlines():
    p = json.loads(line)
    i = p['id']
    f = V / 'rules' / f'{i.lower()}.py'
    if i in NA:
        na.append({'property': i, 'reason': NA[i]})
    elif not f.exists():
        na.append({'property': i, 'reason': 'No check has been built yet; nothing is claimed for it.'})
    else:
        t = ast.parse(f.read_text())
        doc = ' '.join(ast.get_docstring(t).split())
        c = {s.targets[0].id: ast.literal_eval(s.value) for s in t.body if isinstance(s, ast.Assign) and len(s.targets) == 1 and
             isinstance(s.targets[0], ast.Name) and s.targets[0].id in ('TECHNIQUE', 'ASSUMPTIONS')}
        note = doc + (' Assumes: ' + '; '.join(c['ASSUMPTIONS']) + '.' if c.get('ASSUMPTIONS') else '')
        checks.append({'property': i, 'quick_cmd': f'python3 check.py {i} --tier quick', 'thorough_cmd': f'python3 check.py {i} --tier thorough',
                       'technique': c.get('TECHNIQUE', 'path-sensitive dataflow over symbolic event graphs of the source, compared with decision tables'),
                       'level': 'other', 'level_note': note})
m = {'version': 1, 'setup_cmd': 'python3 -c "import sys; assert sys.version_info >= (3, 9)"', 'checks': checks, 'not_applicable': na,
     'notes': 'Pure static analysis: the checks parse /repo/glompo on every run and never import or execute it. No hooks in /repo; fix commits are listed in known_findings.txt.'}
(V / 'MANIFEST.json').write_text(json.dumps(m, indent=1) + '\n')
print(len(checks), 'checks', len(na), 'not applicable')
