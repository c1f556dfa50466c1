#!/usr/bin/env python3
"""assembles DESIGN.md"""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rules = {}
for f in sorted(glob.glob(V + '/harness/h_*.cpp')):
    for m in re.finditer(r'^P_?\((\w+), (\w+), (\d+), (\d+),.*?"((?:[^"\\]|\\.)*)"\)', open(f).read(), re.M):
        rules.setdefault(m.group(1), []).append((m.group(2), m.group(3), m.group(4), m.group(5), os.path.basename(f)))
notes = {}
for b in re.split(r'^## ', open(V + '/tools/design_notes.md').read(), flags=re.M)[1:]:
    k, t = b.split('\n', 1); notes[k.strip()] = t.strip()
seeds = {}
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    j = json.load(open(m)); seeds.setdefault(j['property'], []).append((os.path.basename(os.path.dirname(m)), j['needs']))
res = {}
p = V + '/tools/caught.txt'
if os.path.exists(p):
    for l in open(p):
        if l.strip(): a = l.split(None, 1); res[a[0]] = a[1].strip()
out = [open(V + '/tools/design_head.md').read().rstrip(), '', '## The properties', '']
for l in open(V + '/properties.jsonl'):
    p = json.loads(l); i = p['id']
    out += ['### %s  %s' % (i, p['title']), '', notes.get(i, '(no note)'), '', 'Why tests cannot: ' + p['why_tests_cant'], '']
    for n, q, t, r, f in rules.get(i, []): out += ['* `%s` (%s; quick %s, thorough %s cases): %s' % (n, f, q, t, r)]
    if seeds.get(i): out += ['* planted bugs: ' + '; '.join('%s (%s)' % (s, res.get(s, 'not run')) for s, _ in seeds[i])]
    out += ['']
miss = [l for l in notes if l not in [json.loads(x)['id'] for x in open(V + '/properties.jsonl')]]
out += ['## Planted bugs', '', 'Each lies in `seeded/<id>/` (patch, demonstration, what it needs to manifest). `tools/mkseed.py ID --check` rebuilds one, confirms it and runs the check against it.', '', '| bug | property | needs | check |', '|---|---|---|---|']
for i in sorted(seeds):
    for s, n in seeds[i]: out += ['| %s | %s | %s | %s |' % (s, i, n.replace('|', '/'), res.get(s, 'not run'))]
open(V + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
if miss: print('notes without property:', miss)
print([json.loads(x)['id'] for x in open(V + '/properties.jsonl') if json.loads(x)['id'] not in notes])
