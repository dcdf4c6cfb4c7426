#!/usr/bin/env python3
"""Regenerates the seeded-bug table of DESIGN.md (between the markers) from seeded/*/meta.json."""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| change | property | needs | breaks | caught by |', '|---|---|---|---|---|']
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append('| %s | %s | %s | %s | %s |' % (f.split('/')[-2], m['property'], m['needs'], m['what_it_breaks'], m.get('caught_by', m['property'])))
p = V + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'(<!-- seeded -->\n).*?(<!-- /seeded -->)', lambda x: x.group(1) + '\n'.join(rows) + '\n' + x.group(2), s, flags=re.S)
open(p, 'w').write(s)
