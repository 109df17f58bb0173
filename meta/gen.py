#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables in meta/*.py (committed; run by hand)."""
import json, glob, os, runpy
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
props, na = [], []
for f in sorted(glob.glob(here + '/p_*.py')):
    g = runpy.run_path(f)
    props += g['PROPS']; na += g.get('NOT_APPLICABLE', [])
ids = [p['id'] for p in props]; assert len(ids) == len(set(ids))
with open(root + '/properties.jsonl', 'w') as o:
    for p in props:
        assert len(p['title']) <= 80, p['title']
        q = {k: p[k] for k in ['id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors']}
        o.write(json.dumps(q) + '\n')
naids = {n['property'] for n in na}
checks = []
for p in props:
    if p['id'] in naids or not glob.glob(root + '/mc*/*/src/bin/' + p['id'].lower() + '.rs'):
        if p['id'] not in naids: print('no check yet:', p['id'])
        continue
    checks.append({'property': p['id'], 'quick_cmd': f"./run.sh {p['id']} quick", 'thorough_cmd': f"./run.sh {p['id']} thorough",
                   'evidence_file': f"evidence/{p['id']}.json", 'technique': p['technique'], 'level': 'model_checking', 'level_note': p['level_note']})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the checks drive public interfaces; operating system calls, clocks and schedules are decided by stand-ins linked into the harness (see DESIGN.md).'}
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)
print(len(props), 'properties', len(checks), 'checks')
