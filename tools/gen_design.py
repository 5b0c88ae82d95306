#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_*.md, the seeded bugs table and the harnesses registered in props/."""
import glob, importlib, json, os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path[:0] = [ROOT]
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
rd = lambda f: open(os.path.join(HERE, f)).read()
out = [rd('design_head.md'), rd('design_props.md'), '\n']
fx = len(json.load(open(os.path.join(ROOT, 'known_findings.json')))['fixed'])
out.append(rd('design_tail.md').replace('FIXCOUNT', str(fx)))
out.append(rd('design_seeds.md'))
seeds = []
for f in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    seeds.append('| `%s` | %s | %s | %s |\n' % (os.path.basename(os.path.dirname(f)), m['property'], m['what_it_breaks'], m['needs']))
out.append('| change | caught by | what it breaks | what it needs |\n| --- | --- | --- | --- |\n' + ''.join(seeds))
out.append(rd('design_mutation.md'))
out.append('\n## 8. Harnesses and bounds\n\n')
for f in sorted(glob.glob(os.path.join(ROOT, 'props', 'C*.py'))):
    nm = os.path.basename(f)[:-3]
    m = importlib.import_module('props.' + nm)
    seen = {}
    for h in m.R.h:
        k = h.name.split('[')[0].split('(')[0]
        q, t, b = seen.get(k, (0, 0, ''))
        quick = 'quick' in h.tiers
        seen[k] = (q + quick, t + 1, h.bound or b)
    out.append('**%s**\n\n' % nm)
    for k, (q, t, b) in seen.items():
        out.append('* `%s` — %d cases (thorough %d): %s\n' % (k, q, t, b))
    out.append('\n')
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write(''.join(out))
