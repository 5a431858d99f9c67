"""Rewrites the table of planted bugs in DESIGN.md (between the markers)."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(os.path.join(V, 'tools', 'seed_results.json'))) if os.path.exists(os.path.join(V, 'tools', 'seed_results.json')) else {}
rows = ['<!-- seeds -->', '| planted bug | breaks | needs | caught by |', '|---|---|---|---|']
for i in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', i, 'meta.json')))
    rows.append('| %s | %s | %s | %s |' % (i, m['what_it_breaks'], m['needs'], res.get(i, '?')))
rows.append('<!-- /seeds -->')
p = os.path.join(V, 'DESIGN.md')
s = open(p).read()
t = '\n'.join(rows)
s = s.replace('SEEDTABLE', t) if 'SEEDTABLE' in s else re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda m: t, s, flags=re.S)
open(p, 'w').write(s)
