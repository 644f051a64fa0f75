"""appends the table of planted bugs to DESIGN.md from seeded/*/meta.json (python3 tools/design.py)"""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(ROOT, 'DESIGN.md')
s = open(p).read()
mark = '<!-- planted -->\n'
s = s[:s.index(mark)] if mark in s else s.rstrip('\n') + '\n\n'
rows = []
for d in sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
    m = json.load(open(os.path.join(ROOT, 'seeded', d, 'meta.json')))
    rows.append((m['property'], d, m['needs'], m.get('caught', True)))
s += mark + '### Planted bugs (seeded/)\n\n%d of %d are reported by the check of their own property.\n\n| property | bug | needs | caught |\n|---|---|---|---|\n' % (
    sum(1 for r in rows if r[3]), len(rows))
s += ''.join('| %s | %s | %s | %s |\n' % (a, b, n, 'yes' if c else 'no') for a, b, n, c in sorted(rows))
open(p, 'w').write(s)
