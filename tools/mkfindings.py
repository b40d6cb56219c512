#!/usr/bin/env python3
"""Writes known_findings.json: repairs made in /repo, and defects recorded but not repaired."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = {'d71dacd': 'M02', '51d0c44': 'M01', '2f351fd': 'M02', '39b9b56': 'M03', '30594f0': 'M04', 'dcf96c8': 'M05', 'dcb0aa6': 'M02', '5331549': 'M06',
     '3120702': 'M07', '22b43d8': 'M07', '149e03b': 'R04', 'de6476b': 'R04', 'c446b0e': 'R04', '4c8c7ef': 'R04', '914ab74': 'R01', 'addb77d': 'R02',
     '118a83f': 'K01', '4310920': 'K02', 'bfde53c': 'R04', 'e93a765': 'R01', '7fe9f15': 'R02', 'c43a06f': 'R04', 'aca256c': 'M06', '88197f3': 'K02',
     '6319c9d': 'U10', '04259ed': 'U10', 'a0fadf8': 'C01', '73f10b4': 'U10', 'cf54273': 'U01', 'e61404a': 'U02', 'c5d8ee2': 'U01', '3242a33': 'U10',
     '7e29fad': 'U03', '5d6ccc9': 'U03', '92259cc': 'U06', 'd2cd5f5': 'U03'}
extra = {}
f = os.path.join(ROOT, 'tools', 'findings_extra.json')
if os.path.exists(f):
    extra = json.load(open(f))
P.update(extra.get('fixed', {}))
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True).splitlines()
fixed = []
for l in log:
    h, s = l.split(' ', 1)
    if s.startswith('fix:'):
        fixed.append('fixed: property=%s %s %s' % (P[h[:7]], h, s[5:]))
json.dump(dict(known=extra.get('known', []), fixed=fixed), open(os.path.join(ROOT, 'known_findings.json'), 'w'), indent=1)
print(len(fixed))
