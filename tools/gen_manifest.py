"""Writes MANIFEST.json from the registered checks (props/tasks.py)."""
import json
import pathlib
import sys

HERE = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(HERE))
sys.dont_write_bytecode = True
from props import tasks  # noqa: E402

NOTE = ('Bounded: for every class shape in the list, z3 shows the property for all values within the stated bounds '
        '(paths of the real code executed symbolically, every branch and obligation an SMT query); nothing is claimed '
        'outside the bounds. Trusts the models of struct, io, bytes, int, float and codecs in sx/ (checked against '
        'CPython by selftest.py and by replaying path witnesses on the unmodified package), z3, and CPython 3.12. '
        'Counterexamples are reported only after they reproduce on the unmodified package.')
titles = {}
for line in (HERE / 'properties.jsonl').read_text().splitlines():
    p = json.loads(line)
    titles[p['id']] = p['title']
checks, missing = [], []
for pid in titles:
    if pid not in tasks.PROPERTIES:
        missing.append({'property': pid, 'reason': 'no check built yet'})
        continue
    spec = tasks.PROPERTIES[pid]
    checks.append({
        'property': pid,
        'quick_cmd': f'python3-vt check.py {pid} --tier quick',
        'thorough_cmd': f'python3-vt check.py {pid} --tier thorough',
        'technique': 'symbolic execution of the real source with z3 (all paths, obligations discharged as SMT queries)',
        'level': 'model_checking',
        'level_note': NOTE + ' Bounds: ' + '; '.join(spec['bounds']) + '.',
    })
(HERE / 'MANIFEST.json').write_text(json.dumps({
    'version': 1,
    'setup_cmd': 'python3-vt selftest.py',
    'checks': checks,
    'not_applicable': missing,
    'notes': 'No hooks in /repo. See DESIGN.md. known-findings.txt lists repaired defects and open findings.',
}, indent=1) + '\n')
print(len(checks), 'checks;', len(missing), 'without one')
