"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(H, 'DESIGN.md')
s = open(p).read().split('## Planted bugs')[0].rstrip() + '\n\n## Planted bugs\n\n'
s += 'Each is caught by the check of its property (quick tier).\n\n| seeded/ | check that catches it | needs |\n|---|---|---|\n'
for d in sorted(os.listdir(os.path.join(H, 'seeded'))):
    m = json.load(open(os.path.join(H, 'seeded', d, 'meta.json')))
    s += '| %s | %s | %s |\n' % (d, m['property'], m['needs'].replace('|', '/'))
open(p, 'w').write(s)
