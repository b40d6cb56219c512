#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props_*.py (run by hand when properties change)."""
import glob, json, os, runpy
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props, claimed, na = [], {}, []
for f in sorted(glob.glob(os.path.join(ROOT, 'tools', 'props_*.py'))):
    for p in runpy.run_path(f)['PROPS']:
        p = dict(p)
        c = p.pop('claim', None)
        n = p.pop('not_applicable', None)
        props.append(p)
        if c: claimed[p['id']] = c
        else: na.append(dict(property=p['id'], reason=n or 'no check yet'))
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in props:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
TECH = 'TLA+ specification checked with TLC; behaviours of the real code recorded under model-generated and random scripts validated against it by TLC'
man = dict(version=1, setup_cmd='bash lib/setup.sh',
           checks=[dict(property=i, quick_cmd='python3 bin/check.py %s quick' % i, thorough_cmd='python3 bin/check.py %s thorough' % i,
                        technique=c.get('technique', TECH), level='model_checking', level_note=c['note']) for i, c in claimed.items()],
           not_applicable=na,
           notes='No hooks: the drivers in harness/ use the interfaces the components are given. Repairs are "fix:" commits in /repo, listed in known_findings.json.')
json.dump(man, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(props), 'properties', len(claimed), 'claimed')
