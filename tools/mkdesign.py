#!/usr/bin/env python3
"""Refresh the table of planted changes in DESIGN.md."""
import glob, json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| change | property | needs | breaks |', '|---|---|---|---|']
for d in sorted(glob.glob(R + '/seeded/*/meta.json')):
    m = json.load(open(d))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), m['property'], m['needs'], m['what_it_breaks']))
p = R + '/DESIGN.md'
t = open(p).read()
t = t.replace('SEEDTABLE', '<!-- seeds -->\n<!-- /seeds -->')
t = re.sub(r'<!-- seeds -->.*?<!-- /seeds -->', lambda _: '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->', t, flags=re.S)
open(p, 'w').write(t)
