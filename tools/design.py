"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (run by hand)."""
import glob, json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in sorted(glob.glob(ROOT + '/seeded/*/meta.json')):
    d = json.load(open(m))
    rows.append((d['property'], os.path.basename(os.path.dirname(m)), d['needs'], d.get('caught_by', d['property'])))
rows.sort()
t = '| planted bug | property | what it needs | caught by |\n|---|---|---|---|\n'
t += ''.join('| %s | %s | %s | %s |\n' % (b, a, c, k) for a, b, c, k in rows)
p = ROOT + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'<!-- seeded -->.*<!-- /seeded -->', lambda m: '<!-- seeded -->\n' + t + '<!-- /seeded -->', s, flags=re.S)
open(p, 'w').write(s)
