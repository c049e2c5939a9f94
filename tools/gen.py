#!/usr/bin/env python3
import json, os, sys, subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
import meta
na = getattr(meta, 'NOT_APPLICABLE', [])
with open(H + '/properties.jsonl', 'w') as f:
    for p in sorted(meta.PROPS, key=lambda p: p['id']): f.write(json.dumps(p) + '\n')
    for p in getattr(meta, 'NA_PROPS', []): f.write(json.dumps(p) + '\n')
checks = [{'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i, 'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
           'evidence_file': 'evidence/%s.json' % i, 'technique': c['technique'], 'level': c['level'], 'level_note': c['note'] + ' Bounds: ' + c['bounds']}
          for i, c in sorted(meta.CHECKS.items())]
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'Every check compiles the harness against /repo working tree headers and explores exhaustively within stated bounds; no hooks in /repo are needed.'}
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    for l in open(H + '/properties.jsonl'): jsonschema.validate(json.loads(l), json.load(open('/root/.vp/PROPERTIES.schema.json')))
    print('schemas ok', len(checks))
except ImportError: print('no jsonschema here')
for p in meta.PROPS:
    n = p['statement'].count('. ') + 1
    if n > 3: print('statement of', p['id'], 'has', n, 'sentences')
    if len(p['title']) > 80: print('title too long', p['id'])
