#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table of claimed checks below."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + '/properties.jsonl')]
LOCK = ("explicit-state exhaustive enumeration of bounded instruction/state spaces; every model "
        "transition is replayed on the real Cpu in lockstep (conformance of the reference model)")
CLAIMED = json.load(open(here + '/tools/claims.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if i in CLAIMED:
        c = CLAIMED[i]
        checks.append({'property': i, 'quick_cmd': f'./check.sh {i} quick',
                       'thorough_cmd': f'./check.sh {i} thorough',
                       'technique': c.get('technique', LOCK), 'level': 'model_checking',
                       'level_note': c['note']})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': 'bash setup.sh',
     'hooks': {'guard': 'cfg(verif)', 'enable': 'RUSTFLAGS="--cfg verif"',
               'source_commits': ['25d4d1140f3e8117ab597620cd2eb15198addbce']},
     'checks': checks, 'not_applicable': na}
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1)
open(here + '/MANIFEST.json', 'a').write('\n')
