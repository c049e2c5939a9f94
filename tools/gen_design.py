#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design/*.md, meta.py, known_findings.txt and seeded/*/meta.json."""
import glob, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, HERE)
import meta
D = os.path.join(HERE, 'tools', 'design')
oracle = {}
cur = None
for line in open(os.path.join(D, 'oracles.md')):
    if line.startswith('# '): cur = line[2:].strip(); oracle[cur] = ''
    elif cur: oracle[cur] += line
out = open(os.path.join(D, 'head.md')).read() + '\n## 2. Properties\n'
for p in meta.PROPS:
    c = meta.CHECKS[p['id']]
    out += '\n### %s — %s\n\n%s\n\n' % (p['id'], p['title'], p['statement'])
    out += '* **Enumerated**: %s.\n* **Bounds**: %s.\n' % (p['quantifier']['text'].rstrip('.'), c['bounds'].rstrip('.'))
    out += '* **Deciding method**: %s. %s\n' % (c['technique'], c['note'])
    out += '* **Oracle**: %s\n' % oracle.get(p['id'], '(see harness)').strip()
    out += '* **Why tests cannot settle it**: %s\n' % p['why_tests_cant']
    out += '* **Units**: %s.\n' % ', '.join('`%s` (%s)' % (u['name'], ' '.join([u['src']] + [f for f in u.get('flags', []) if f.startswith('-D') or f == '-fopenmp'])) for u in c['units'])
tail = open(os.path.join(D, 'tail.md')).read()
fixes = [l.strip()[len('fixed: property='):] for l in open(os.path.join(HERE, 'known_findings.txt')) if l.startswith('fixed:')]
tail = tail.replace('@@FIXES@@', '\n' + '\n'.join('* %s' % f for f in fixes))
seeds = []
for m in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    j = json.load(open(m)); n = os.path.basename(os.path.dirname(m))
    seeds.append('| %s | %s | %s | %s |' % (n, j['property'], j['what_it_breaks'].replace('|', '/'), j['needs'].replace('|', '/')))
tail = tail.replace('@@SEEDS@@', '\n| change | caught by | what it breaks | needs |\n|---|---|---|---|\n' + '\n'.join(seeds))
open(os.path.join(HERE, 'DESIGN.md'), 'w').write(out + '\n' + tail)
