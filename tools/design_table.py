"""Rewrite the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and the last recorded verdicts.

Verdicts are read from tools/detected.json {bug: [checks that report it]}, which tools/detect.py writes.
"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
det = json.load(open(os.path.join(V, 'tools', 'detected.json')))
rows = ['| planted bug | property | needs | reported by |', '|---|---|---|---|']
for b in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', b, 'meta.json')))
    rows.append('| %s | %s | %s | %s |' % (b, m['property'], m['needs'].replace('|', '/').replace('\n', ' '), ', '.join(det.get(b, [])) or '-'))
p = os.path.join(V, 'DESIGN.md')
s = open(p).read()
a, z = '<!-- planted bugs -->\n', '<!-- end of planted bugs -->'
i, j = s.index(a) + len(a), s.index(z)
open(p, 'w').write(s[:i] + '\n'.join(rows) + '\n' + s[j:])
