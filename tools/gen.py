#!/opt/venv/bin/python
"""Regenerates properties.jsonl and MANIFEST.json from meta.py (authoring aid;
no check depends on it)."""
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(ROOT)
sys.path.insert(0, ROOT)
import meta

TECH = ("symbolic execution of the real Python code with z3 (path exploration; every assertion decided for all "
        "values within the bounds; counterexamples replayed on the unpatched code)")
with open('properties.jsonl', 'w') as fh:
    for p in meta.PROPS:
        d = {k: p[k] for k in ('id', 'title', 'statement')}
        assert len(d['title']) <= 80, d
        d['quantifier'] = {'over': p['over'], 'text': p['qtext']}
        d['why_tests_cant'] = p['why']
        d['anchors'] = {'files': p['files'],
                        'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']],
                        'observe_at': p.get('observe', []), 'hook_needed': None}
        fh.write(json.dumps(d) + '\n')
checks = []
for p in meta.PROPS:
    if p.get('na'):
        continue
    checks.append({
        'property': p['id'],
        'quick_cmd': './run.py check %s --tier quick' % p['id'],
        'thorough_cmd': './run.py check %s --tier thorough' % p['id'],
        'evidence_file': 'evidence/%s.json' % p['id'],
        'technique': TECH,
        'level': 'model_checking',
        'level_note': p['note'],
    })
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks,
     'not_applicable': [{'property': p['id'], 'reason': p['na']} for p in meta.PROPS if p.get('na')],
     'notes': 'Single framework (symrun/) for all checks; see DESIGN.md. No hooks in /repo.'}
with open('MANIFEST.json', 'w') as fh:
    json.dump(m, fh, indent=1)
    fh.write('\n')
