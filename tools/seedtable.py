#!/usr/bin/env python3
"""Lists the planted bugs in DESIGN.md"""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| bug | what it breaks | needs |', '|---|---|---|']
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append('| %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/')))
p = V + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'(<!-- seeds -->\n).*?(<!-- end -->)', lambda m: m.group(1) + '\n'.join(rows) + '\n' + m.group(2), s, flags=re.S)
open(p, 'w').write(s)
