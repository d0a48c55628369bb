#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks that exist."""
import glob, importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + '/lib', V + '/checks']
sys.dont_write_bytecode = True
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
NA = {}
checks, na = [], []
for p in props:
    if os.path.exists('%s/checks/%s.py' % (V, p.lower())):
        c = importlib.import_module(p.lower()).CHECK
        checks.append(dict(property=p, quick_cmd='python3 run.py %s --tier quick' % p,
                           thorough_cmd='python3 run.py %s --tier thorough' % p,
                           evidence_file='evidence/%s.json' % p,
                           technique='TLA+ specification checked with TLC; traces of the real code, driven by '
                                     'behaviours TLC generates, validated against it',
                           level='model_checking', level_note=c.note))
    else:
        na.append(dict(property=p, reason=NA.get(p, 'check not built yet')))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na), open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
