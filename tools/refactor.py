#!/usr/bin/env python3
"""Apply every edit of tools/refactors/*.py that keeps the behaviour to a scratch clone, build and test it,
and run all checks against it: any alarm is a false one.  usage: refactor.py DIR [-k FILE-SUBSTR] [--only P1,P2] [--norun]"""
import sys, os, subprocess, glob, json, importlib.util
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = sys.argv[1]; a = sys.argv[2:]
opt = lambda k, d=None: a[a.index(k) + 1] if k in a else d
sub = opt('-k', '')
subprocess.run(f'rm -rf {D}; git clone -q /repo {D}', shell=True, check=True)
n = 0
for f in sorted(glob.glob(V + '/tools/refactors/*.py')):
    s = importlib.util.spec_from_file_location('x', f); m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
    for fn, old, new in m.R:
        if sub not in fn: continue
        p = f'{D}/src/libzt/{fn}'; t = open(p, encoding='latin-1').read()
        if t.count(old) < 1: print('NO MATCH', fn, old[:70]); continue
        open(p, 'w', encoding='latin-1').write(t.replace(old, new, 1)); n += 1
print(n, 'edits', flush=True)
subprocess.run(f'cd {D} && git -c user.name=x -c user.email=x@x commit -qam refactored', shell=True, check=True)
for s in ('build', 'test'):
    t = open(f'/opt/vp/{s}.sh').read().replace('/repo', D)
    open(f'{D}-{s}.sh', 'w').write(t)
r = subprocess.run(f'bash {D}-build.sh && bash {D}-test.sh {D}-out.json', shell=True, capture_output=True, text=True)
print((r.stdout + r.stderr).strip().splitlines()[-1:] if r.returncode == 0 else r.stdout[-3000:] + r.stderr[-2000:], flush=True)
if '--norun' in a: sys.exit()
props = [c['property'] for c in json.load(open(V + '/MANIFEST.json'))['checks']] if not opt('--only') else opt('--only').split(',')
env = dict(os.environ, VERIF_REPO=D, VERIF_KEEP='1')
for p in props:
    r = subprocess.run(['python3', V + '/run.py', p], env=env, capture_output=True, text=True, cwd=V)
    bad = [l for l in (r.stdout + r.stderr).splitlines() if 'VIOLATION' in l or 'FAIL' in l or 'rror' in l]
    print(p, r.returncode, '' if r.returncode == 0 else '\n   '.join(bad[:6]), flush=True)
