#!/usr/bin/env python3
"""unfix.py [HASH-or-word...]: takes each fix: commit back in /repo's working tree and confirms that the property's check reports it again"""
import subprocess, sys, re
sel = sys.argv[1:]; V = '/verif'
def run(c, t=900): return subprocess.run(c, shell=True, cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=t)
for l in open(V + '/KNOWN_FINDINGS.txt'):
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
    if not m: continue
    p, h, s = m.groups()
    if sel and not any(x in (p, h) or x in s for x in sel): continue
    a = run('git -C /repo show %s | git -C /repo apply -R -3 -' % h)
    try:
        if a.returncode: print(p, h, 'does not revert cleanly:', s[:60]); continue
        c = run('python3 run.py %s' % p)
        print(p, h, 'CAUGHT' if c.returncode == 1 and 'VIOLATION property=%s ' % p in c.stdout else 'MISSED rc=%d' % c.returncode, s[:70])
    finally: run('git -C /repo reset -q --hard'); sys.stdout.flush()
