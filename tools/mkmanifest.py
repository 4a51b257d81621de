#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py: one check per property that has runs."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
import checks
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
out = dict(version=1, setup_cmd='python3 -c "import run"', checks=[], not_applicable=[],
           notes='run.py drives every check, checks.py says what is built and run for each property, harness/ holds the monitored programs. No hooks in /repo: the programs observe through recording allocators, --wrap of the C heap, sanitizers and shadow models.')
for i in ids:
    c = checks.CHECKS.get(i)
    if not c:
        continue
    out['checks'].append(dict(property=i, quick_cmd='python3 run.py --property ' + i, thorough_cmd='VERIF_TIER=thorough python3 run.py --property ' + i,
                              technique=c['technique'], level='exploration', level_note=c['note']))
json.dump(out, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
missing = [i for i in ids if i not in checks.CHECKS]
print('checks:', len(out['checks']), 'missing:', missing)
