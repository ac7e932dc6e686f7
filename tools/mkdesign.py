#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design/*.md, the bounds in props.py, properties.jsonl, known_findings.json and seeded/*/meta.json."""
import json, os, glob, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + '/tools')
from props import PROPS
D = V + '/tools/design/'
rd = lambda n: open(D + n).read().rstrip() + '\n'
how = {}
for blk in rd('how.md').split('\n## ')[0:]:
    blk = blk.strip().lstrip('# ').strip()
    if blk: k, t = blk.split('\n', 1); how[k.strip()] = t.strip()
o = [rd('head.md'), '\n## 5. The properties one by one\n\nEach is decided by symbolic execution of the functions named in `properties.jsonl` (anchors) as section 1 describes. '
     'Below: what is executed and against which oracle; the bounds of the quick tier (thorough in brackets); what lies outside.\n']
for l in open(V + '/properties.jsonl'):
    p = json.loads(l); k = p['id']; P = PROPS[k]
    o.append('### %s %s\n\n%s\n\n* Bounds: %s\n* Outside: %s.\n* Entries: %s.\n' % (k, p['title'], how[k], P['bounds'], P['outside'], ', '.join(sorted({'`%s:%s`' % (j.harness, j.entry) if hasattr(j, 'harness') else '`%s`' % j.entry for j in P['jobs']}))))
o.append(rd('cost.md'))
o.append('\n## 6. Defects found in onex and repaired\n\nEach was reported by a check with a replayed counterexample, repaired by one `fix:` commit in /repo, and is listed in `known_findings.json` (all entries are "fixed"; nothing is suppressed).\n')
for f in json.load(open(V + '/known_findings.json'))['findings']: o.append('* ' + f['fixed'][7:].strip().replace('property=', '')); 
o.append('\n' + rd('alarms.md'))
o.append('\n' + rd('bugs.md'))
o.append('\n| id | property | what breaks | needs | caught by (quick) |\n|---|---|---|---|---|')
caught = json.load(open(D + 'caught.json')) if os.path.exists(D + 'caught.json') else {}
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    i = os.path.basename(os.path.dirname(m)); d = json.load(open(m)); o.append('| %s | %s | %s | %s | %s |' % (i, d['property'], d['what_it_breaks'], d['needs'], caught.get(i, '')))
o.append('\n' + rd('tail.md'))
open(V + '/DESIGN.md', 'w').write('\n'.join(o).replace('\n\n\n', '\n\n'))
