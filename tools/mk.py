#!/opt/venv/bin/python
"""writes properties.jsonl and MANIFEST.json from the table below (python tools/mk.py)"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []      # claimed
NA = []     # stated but not claimed
OVER = ['inputs']


def prop(id, title, statement, quant, why, files, mech, over=('inputs', 'configurations'), na=None, observe=None, note=''):
    assert len(title) <= 80, id
    d = {'id': id, 'title': title, 'statement': statement,
         'quantifier': {'over': list(over), 'text': quant},
         'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}}
    if observe:
        d['anchors']['observe_at'] = observe
    (P if na is None else NA).append((d, na or note))


exec(open(HERE + '/tools/props_table.py').read())

ids = [d['id'] for d, _ in P + NA]
assert len(ids) == len(set(ids))
with open(HERE + '/properties.jsonl', 'w') as f:
    for d, _ in sorted(P + NA, key=lambda x: x[0]['id']):
        f.write(json.dumps(d) + '\n')
PY = '/opt/venv/bin/python check.py '
NOTE = ('Every path of the compiled code and of the Python layer above it is followed symbolically; the solver decides each assertion for all values of the stated '
        'bounds. Trusted: clang front end, the IR executor (each run replays solver-chosen traces on a native build and compares), z3, the nanobind/TBB shims. ')
m = {'version': 1,
     'setup_cmd': 'true',
     'checks': [{'property': d['id'], 'quick_cmd': PY + d['id'] + ' --tier quick', 'thorough_cmd': PY + d['id'] + ' --tier thorough',
                 'technique': 'symbolic execution of the compiled C++ (LLVM IR) and the Python layer, assertions decided by z3',
                 'level': 'model_checking', 'level_note': NOTE + note} for d, note in sorted(P, key=lambda x: x[0]['id'])],
     'not_applicable': [{'property': d['id'], 'reason': r} for d, r in sorted(NA, key=lambda x: x[0]['id'])],
     'notes': 'Bounds per property: props/*.py and DESIGN.md; findings: known_findings.jsonl.'}
with open(HERE + '/MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(P), 'claimed', len(NA), 'not applicable')
