#!/usr/bin/env python3
"""add_fixed.py PROP 'what failed' [commit]: records a repaired defect in known_findings.json (default: /repo HEAD)."""
import json, sys, subprocess
p = '/verif/known_findings.json'
d = json.load(open(p))
c = sys.argv[3] if len(sys.argv) > 3 else subprocess.check_output(['git', '-C', '/repo', 'log', '-1', '--format=%h'], text=True).strip()
d['findings'].append(dict(property=sys.argv[1], id=f'fix-{len(d["findings"])+1}', status='fixed', commit=c, what=f'fixed: property={sys.argv[1]} {c} {sys.argv[2]}'))
with open(p, 'w') as f:
    f.write('{"findings": [\n' + ',\n'.join(' ' + json.dumps(x) for x in d['findings']) + '\n]}\n')
