#!/usr/bin/env python3
"""Generate DESIGN.md from design.in.md, the check modules and the planted bugs."""
import glob, importlib, json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
text = open(os.path.join(here, 'design.in.md')).read()
gen = []
for l in open(os.path.join(here, 'properties.jsonl')):
    p = json.loads(l)
    m = importlib.import_module('kdmon.checks.' + p['id'].lower())
    gen.append('**%s %s** (`kdmon/checks/%s.py`)\n\n* workload: %s.' % (p['id'], p['title'], p['id'].lower(), m.RULE))
    if getattr(m, 'ASSUME', None):
        gen[-1] += '\n* assumes: ' + '; '.join(m.ASSUME) + '.'
    gen[-1] += '\n* at least, per quick run: ' + ', '.join('%s %d' % (k.replace('_', ' '), v) for k, v in m.MINIMUM.items()) + '.'
seeds = []
for f in glob.glob(os.path.join(here, 'seeded', '*', 'meta.json')):
    d = json.load(open(f))
    seeds.append((d['property'], os.path.basename(os.path.dirname(f)), d['needs'], d['what_it_breaks'], d.get('caught', 'yes')))
rows = ['| planted bug | caught by | needs |', '|-|-|-|']
for p, i, n, w, c in sorted(seeds):
    rows.append('| %s | %s | %s |' % (i, p if c == 'yes' else c, n))
text = (text.replace('GENERATED', '\n\n'.join(gen)).replace('SEEDTABLE', '\n'.join(rows))
        .replace('SEEDCOUNT', str(len(seeds))).replace('\nEXTRA\n', '').replace('MISSED.', '.'))
open(os.path.join(here, 'DESIGN.md'), 'w').write(text)
