"""Fill the generated table of DESIGN.md (units and functions under contract per property)."""
import importlib, json, os, re, sys
from collections import defaultdict
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, ROOT + '/props']
sys.setrecursionlimit(20000)
import spec_table
from cxxvc import spec
for m in spec_table.MODULES:
    importlib.import_module(m)
d = defaultdict(list)
for u in spec.UNITS:
    for p in u.props:
        d[p].append(u)
titles = {}
for l in open(ROOT + '/properties.jsonl'):
    p = json.loads(l)
    titles[p['id']] = p['title']
seeds = defaultdict(list)
sd = ROOT + '/seeded'
for s in sorted(os.listdir(sd)) if os.path.isdir(sd) else ():
    seeds[json.load(open('%s/%s/meta.json' % (sd, s)))['property']].append(s)
out = []
for p in sorted(titles):
    if p in spec_table.NA:
        out.append('| %s | %s | not applicable | | |' % (p, titles[p]))
        continue
    us = d[p]
    fns = sorted({f.split('::', 1)[-1] if f.startswith('buildcc::') else f for u in us for f in u.fns})
    names = ', '.join(u.name for u in us) if len(us) <= 14 else ', '.join(u.name for u in us[:5]) + ', … (%d units, `props/%s.py`)' % (len(us), us[0].name.split('.')[0])
    out.append('| %s | %s | %s | %d | %s |' % (p, titles[p], names, len(fns), ', '.join(seeds[p]) or '–'))
t = open(ROOT + '/DESIGN.md').read()
t = re.sub(r'(<!-- table -->\n).*?(<!-- end -->)', lambda m: m.group(1) + '| id | property | units | functions named | planted bugs caught |\n|---|---|---|---|---|\n' + '\n'.join(out) + '\n' + m.group(2), t, flags=re.S)
open(ROOT + '/DESIGN.md', 'w').write(t)
