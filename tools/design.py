#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design_head.md, one section per property (tools/props.py, BOUND of the
check, ORACLE below), known_findings.json, the table of planted bugs (SEEDS) and tools/design_tail.md."""
import ast
import json
import os
import sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from props import P
from design_data import ORACLE, MISSED

out = [open(os.path.join(here, 'design_head.md')).read()]
for p in P:
    t = ast.parse(open(os.path.join(root, 'checks', p['id'] + '.py')).read())
    bound = [ast.literal_eval(n.value) for n in t.body if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == 'BOUND'][0]
    orc, cost = ORACLE[p['id']]
    out.append('### %s: %s\n\n- *Specified*: %s\n- *Enumerated* (quick): %s.\n- *Thorough*: %s.\n- *Oracle*: %s\n- *Beyond the tests*: %s\n'
               '- *Limits*: %s\n- *Cost of quick*: about %s on 8 cores.\n' %
               (p['id'], p['title'], p['statement'], bound['quick'], bound['thorough'], orc, p['why'], p['note'], cost))
k = json.load(open(os.path.join(root, 'known_findings.json')))
out.append('## Defects found in the code\n\nEach was shown on the real code by the check named, and repaired by the commit named '
           '(`known_findings.json`). Nothing found was left unrepaired%s.\n\n' % ('' if not k['findings'] else ' except the listed findings') +
           '\n'.join('- ' + x for x in k['fixed'] + [json.dumps(x) for x in k['findings']]) + '\n')
rows = []
seeded = os.path.join(root, 'seeded')
for d in sorted(os.listdir(seeded)):
    m = json.load(open(os.path.join(seeded, d, 'meta.json')))
    rows.append('| %s | %s | %s | %s | %s |' % (d, m['property'], m['what_it_breaks'], m['needs'], MISSED.get(d, 'caught')))
out.append('## Planted bugs\n\nEach was written from the text of a property and the code, builds, passes the tests, and has a demonstration '
           '(`seeded/<id>/`). The last column says whether the quick check of the property caught it at once, and otherwise how the check was strengthened '
           'until it did.\n\n| id | property | what it breaks | what it needs | result |\n|---|---|---|---|---|\n' + '\n'.join(rows) + '\n')
out.append(open(os.path.join(here, 'design_tail.md')).read())
with open(os.path.join(root, 'DESIGN.md'), 'w') as f:
    f.write('\n'.join(out))
