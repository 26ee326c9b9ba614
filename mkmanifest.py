#!/usr/bin/env python3
"""Generate MANIFEST.json from the check modules that exist."""
import importlib, json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
NA = {}
checks = []
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
na = []
for p in props:
    i = p['id']
    if not os.path.exists(os.path.join(here, 'kdmon/checks/%s.py' % i.lower())):
        na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
        continue
    m = importlib.import_module('kdmon.checks.' + i.lower())
    checks.append(dict(property=i, quick_cmd='./run.sh ' + i, thorough_cmd='VERIF_TIER=thorough ./run.sh ' + i,
                       technique=getattr(m, 'TECHNIQUE', 'runtime monitoring: online comparison of real executions with a reference model'),
                       level=getattr(m, 'LEVEL', 'exploration'),
                       level_note=getattr(m, 'LEVEL_NOTE', 'Held on the executions generated (counts in the evidence); nothing is claimed about inputs outside the generator. Trusts h5py/numpy and the reference model. ') + ' Assumes: ' + '; '.join(getattr(m, 'ASSUME', []) or ['nothing further'])))
man = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
           notes='All checks import karabo_data from /repo directly; no hooks in /repo are used. Replay a violation with ./run.sh <ID> --replay <file>.')
json.dump(man, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
