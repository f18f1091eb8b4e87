#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the properties the harness registers (ids given by `verif list`)."""
import json, subprocess, sys, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
have = set(subprocess.check_output([sys.argv[1], 'list'], text=True).split())
info = json.load(open(os.path.join(here, 'tools', 'techniques.json')))
checks, na = [], []
for l in open(os.path.join(here, 'properties.jsonl')):
    p = json.loads(l)
    i = p['id']
    if i not in have:
        na.append({'property': i, 'reason': 'the check is not written yet'})
        continue
    t = info[i]
    checks.append({
        'property': i,
        'quick_cmd': 'bash check.sh %s' % i,
        'thorough_cmd': 'VERIF_TIER=thorough bash check.sh %s' % i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': t['technique'],
        'level': t.get('level', 'exploration'),
        'level_note': t['note'],
    })
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks: the harness is a separate Go module that replaces github.com/akito0107/xsqlparser by /repo, so every run compiles /repo as it is.'}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(here, 'MANIFEST.json'), 'a').write('\n')
print(len(checks), 'checks', [x['property'] for x in na])
