#!/usr/bin/env python3
"""Writes MANIFEST.json from spec/checks.json and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
spec = json.load(open(V + '/spec/checks.json'))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in spec['properties']:
        d = spec['properties'][i]
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i,
                       'technique': 'contracts on the extracted functions of /repo, discharged by Verus (deductive verification)',
                       'level': d.get('level', 'proof'), 'level_note': d['note']})
    else:
        na.append({'property': i, 'reason': spec['not_applicable'][i]})
json.dump({'version': 1, 'setup_cmd': 'python3 check.py setup', 'checks': checks, 'not_applicable': na,
           'notes': 'Every check extracts the functions under contract from /repo, verifies them with Verus, and replays random inputs against the real code to find failing inputs. See DESIGN.md.'},
          open(V + '/MANIFEST.json', 'w'), indent=1)
