#!/opt/venv/bin/python
"""rewrites the parts of DESIGN.md below '## Properties' (python tools/design.py)"""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sym import registry
registry.load_props()
exec(open(HERE + '/tools/design_notes.py').read())
text = open(HERE + '/DESIGN.md').read()
head = text[:text.index('## Properties')]
props = [json.loads(l) for l in open(HERE + '/properties.jsonl')]
man = json.load(open(HERE + '/MANIFEST.json'))
na = {d['property']: d['reason'] for d in man['not_applicable']}
out = ['## Properties\n\nStatements are in properties.jsonl, scenarios in props/*.py. Quick checks explore for at most 20 to 25 s (fewer cases), thorough ones up to 13 minutes and more cases.\n'
       'All are decided by symbolic execution and z3 as described above; all exclude what the listed assumptions exclude.\n']
for d in props:
    if d['id'] in na:
        continue
    r = registry.REG[d['id']]
    sc = ', '.join(s.name for s in r.scens)
    o, w = N[d['id']]
    out.append(f"**{d['id']}** {d['title']}.\n\n* Oracle: {o}\n* Bounds: {r.bounds}." + (f"\n* Assumed: {'; '.join(r.assumptions)}." if r.assumptions else '')
               + f"\n* Scenarios: {sc}.\n* Beyond tests: {w}\n")
out.append('### Not applicable\n')
for k, v in na.items():
    out.append(f'* {k}: {v}')
out.append('\n' + FINDINGS)
out.append('## Planted changes\n\nAll build and pass the 802 stable tests; each demo fails with the change only. "Caught" means by the quick check of the property named.\n')
out.append('| change | property | needs | result |\n|---|---|---|---|')
for n in sorted(os.listdir(HERE + '/seeded')):
    m = json.load(open(HERE + f'/seeded/{n}/meta.json'))
    out.append(f"| {n} | {m['property']} | {m['needs']} | {MISSED.get(n, 'caught')} |")
out.append('\n' + STRENGTHENED)
open(HERE + '/DESIGN.md', 'w').write(head + '\n'.join(out))
