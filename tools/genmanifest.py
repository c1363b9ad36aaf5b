#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
TECH = json.load(open(os.path.join(here, 'tools', 'techniques.json')))
mod = open(os.path.join(here, 'harness/src/props/mod.rs')).read()
done = set(re.findall(r'::(C\d\d)\b', mod))
checks, na = [], []
for p in props:
    i = p['id']
    if i in done:
        t = TECH[i]
        checks.append({
            'property': i,
            'quick_cmd': f'./check.sh {i}',
            'thorough_cmd': f'VERIF_TIER=thorough VH_LIMIT=14000 ./check.sh {i}',
            'evidence_file': f'evidence/{i}.json',
            'technique': t['technique'],
            'level': 'exploration',
            'level_note': t['note'],
        })
    else:
        na.append({'property': i, 'reason': 'check under construction'})
m = {
    'version': 1,
    'setup_cmd': './check.sh build',
    'checks': checks,
    'not_applicable': na,
    'notes': 'One Rust harness (harness/) holds all generators and oracles. No hooks in /repo are used: all checks are black-box on the public API, the HTTP interface and the server binary.',
}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
