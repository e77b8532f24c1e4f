#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json: `tools/catalog.py` rewrites both."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, CHECKS, NA = [], [], []

def prop(id, title, statement, over, qtext, why, files, mech, technique=None, level='proof', note='', na=None):
    assert len(title) <= 80, title
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext},
              'why_tests_cant': why, 'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}})
    if na:
        NA.append({'property': id, 'reason': na})
    else:
        CHECKS.append({'property': id, 'quick_cmd': 'python3 vp/run.py %s --tier quick' % id,
                       'thorough_cmd': 'python3 vp/run.py %s --tier thorough' % id,
                       'evidence_file': 'evidence/%s.json' % id, 'technique': technique, 'level': level, 'level_note': note})

exec(open(os.path.join(V, 'tools', 'catalog_data.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
m = {'version': 1, 'setup_cmd': 'bash vp/setup.sh', 'checks': CHECKS, 'not_applicable': NA,
     'notes': 'All checks: vp/run.py compiles harness + real /repo sources with goto-cc on every run and discharges the obligations with CBMC. No hooks were added to /repo; the fix: commits are listed in known_findings.json.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties', len(CHECKS), 'checks', len(NA), 'n/a')
