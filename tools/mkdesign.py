"""DESIGN.md from tools/design_head.md and the planted changes"""
import glob, json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = {}
for f in sorted(glob.glob(R + '/seeded/*/meta.json')):
    m = json.load(open(f)); by.setdefault(m['property'], []).append((f.split('/')[-2], m['needs']))
out = ['| check | changes it catches (what they need to show) |', '|---|---|']
for p in sorted(by): out.append('| %s | %s |' % (p, '; '.join('`%s` (%s)' % (a, b.replace('|', '/')) for a, b in by[p])))
n = sum(l.startswith('fixed:') for l in open(R + '/KNOWN_FINDINGS.txt'))
t = open(R + '/tools/design_head.md').read().replace('%SEEDS%', '\n'.join(out)).replace('%FIXES%', str(n))
open(R + '/DESIGN.md', 'w').write(t)
