#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from docs/props.txt (one source for both)."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, cur, key = [], None, None
for line in open(os.path.join(V, 'docs/props.txt')):
    line = line.rstrip('\n')
    if not line.strip() or line.startswith('#'):
        continue
    m = re.match(r'== (\w+) (.*)', line)
    if m:
        cur = dict(id=m.group(1), title=m.group(2), mech=[])
        P.append(cur)
        continue
    m = re.match(r'(statement|over|quant|why|files|mech|level|note|na|observe): ?(.*)', line)
    if m:
        key = m.group(1)
        if key == 'mech':
            cur['mech'].append(m.group(2))
        else:
            cur[key] = m.group(2)
    else:
        assert line.startswith('  '), line
        if key == 'mech':
            cur['mech'][-1] += ' ' + line.strip()
        else:
            cur[key] += ' ' + line.strip()
P.sort(key=lambda p: p['id'])
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        n = len(re.findall(r'[.!?](?:\s|$)', p['statement']))
        assert n <= 3, (p['id'], n)
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
            quantifier=dict(over=p['over'].split(), text=p['quant']), why_tests_cant=p['why'],
            anchors=dict(files=p['files'].split(), mechanism=[dict(name=m.split(' @ ')[0], where=m.split(' @ ')[1]) for m in p['mech']],
                         observe_at=[p['observe']] if 'observe' in p else [], hook_needed=None)), ensure_ascii=False) + '\n')
TECH = 'function contracts on the real code, discharged by Kani/CBMC (SAT and SMT back ends) over symbolic inputs'
checks = [dict(property=p['id'], quick_cmd='python3 bin/check.py %s' % p['id'], thorough_cmd='VERIF_TIER=thorough python3 bin/check.py %s' % p['id'],
               technique=TECH, level=p.get('level', 'proof'), level_note=p['note']) for p in P if 'na' not in p]
json.dump(dict(version=1, setup_cmd='bash bin/setup.sh', checks=checks,
               not_applicable=[dict(property=p['id'], reason=p['na']) for p in P if 'na' in p],
               notes='Contracts and harnesses are in kani/, one file per source file; see DESIGN.md. No hooks in /repo: contracts are placed on a copy of the current source on every run.'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
