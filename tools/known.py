#!/usr/bin/env python3
"""regenerates KNOWN_FINDINGS.txt: fixed lines from /repo's fix: commits (property by tools/fixmap.json), findings from tools/findings.txt"""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = json.load(open(V + '/tools/fixmap.json'))
out = ['# Genuine defects of zerotao/libzt found by these checks.',
       '# "KNOWN-FINDING: property=<id> <what fails>" lines are defects left in place (printed by the check, not a failure).',
       '# "fixed: property=<id> <commit> <what failed>" lines are defects repaired by a fix: commit in /repo; they suppress nothing.']
p = V + '/tools/findings.txt'
if os.path.exists(p): out += [l.rstrip() for l in open(p) if l.strip()]
for l in subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], stdout=subprocess.PIPE, text=True).stdout.splitlines():
    h, s = l.split(' ', 1)
    if not s.startswith('fix: '): continue
    s = s[5:]; k = [M[k] for k in sorted(M, key=len, reverse=True) if s.startswith(k)]
    if not k: print('unmapped:', s); continue
    out.append('fixed: property=%s %s %s' % (k[0], h, s))
open(V + '/KNOWN_FINDINGS.txt', 'w').write('\n'.join(out) + '\n')
