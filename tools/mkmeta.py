#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from spec/meta/*.json (one file per property, hand written)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props, checks, na = [], [], []
for p in sorted(glob.glob(V + '/spec/meta/*.json')):
    d = json.load(open(p))
    pid = os.path.basename(p)[:-5]
    props.append({'id': pid, 'title': d['title'], 'statement': d['statement'],
                  'quantifier': {'over': d['over'], 'text': d['quantifier']},
                  'why_tests_cant': d['why_tests_cant'],
                  'anchors': {'files': d['files'], 'mechanism': [{'name': a, 'where': b} for a, b in d['mechanism']]}})
    assert len(d['title']) <= 80, pid
    if 'na' in d:
        na.append({'property': pid, 'reason': d['na']})
    else:
        c = 'python3 checks/run.py ' + pid
        checks.append({'property': pid, 'quick_cmd': c, 'thorough_cmd': c, 'technique': d['technique'], 'level': d['level'], 'level_note': d['note']})
with open(V + '/properties.jsonl', 'w') as f:
    for p in props:
        f.write(json.dumps(p) + '\n')
json.dump({'version': 1, 'setup_cmd': 'python3 checks/setup.py', 'checks': checks, 'not_applicable': na,
           'notes': 'Static analysis only. Every check recompiles the library sources of /repo to LLVM IR (or parses its headers) and judges the result; see DESIGN.md.'},
          open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
print(len(props), 'properties', len(checks), 'claimed', len(na), 'not applicable')
