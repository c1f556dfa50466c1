#!/usr/bin/env python3
"""mkseed.py [ID...]: (re)builds /verif/seeded/<id>/ from tools/seeds/*.py and confirms each planted bug in a scratch copy
(builds, stable tests pass, demo passes without and fails with the change). --check also runs the property's check against it in /repo."""
import sys, os, subprocess, json, shutil, glob, re, textwrap
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R = os.environ.get('VERIF_REPO', '/repo'); W = '/tmp/sw'
SEEDS = {}
DEMO = '''#!/bin/bash
# exit 0: behaviour as specified; nonzero: broken
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d) || exit 99
trap 'rm -rf "$t"' EXIT
B=_build/src/libzt
gcc -w -g -O1 -DNDEBUG -DHAVE_CONFIG_H -DHAVE_LONG_LONG -DWITH_THREADS -D_GNU_SOURCE %s -Isrc -I_build/src -Icompat "$d/demo.c" $B/libzt_unit.a $B/libzt_gc.a $B/libzt.a -lpthread -ldl -lm -o "$t/demo" || exit 99
cd "$t" && timeout 100 ./demo
'''
def seed(id, prop, edits, needs, breaks, demo, flags=''):
    SEEDS[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, flags=flags)
for f in sorted(glob.glob(V + '/tools/seeds/*.py')): exec(open(f).read())
def run(cmd, cwd=None, t=300): return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=t)
def rec(id, r):
    p = V + '/tools/caught.txt'; t = dict(l.split(None, 1) for l in open(p).read().splitlines()) if os.path.exists(p) else {}
    t[id] = r; open(p, 'w').write(''.join('%s %s\n' % (k, t[k]) for k in sorted(t)))
def main():
    args = [a for a in sys.argv[1:] if not a.startswith('-')]; chk = '--check' in sys.argv; only = '--checkonly' in sys.argv
    for id, s in SEEDS.items():
        if args and id not in args and s['prop'] not in args: continue
        d = V + '/seeded/' + id
        if not only:
            os.makedirs(d, exist_ok=True)
            if not os.path.exists(W): run('cp -a /repo %s' % W)
            run('git checkout -q --detach && git fetch -q %s HEAD && git reset -q --hard FETCH_HEAD' % R, W)
            for f, a, b in s['edits']:
                p = W + '/' + f; t = open(p, newline='').read()
                if t.count(a) != 1: print(id, 'EDIT DOES NOT MATCH ONCE', t.count(a), f, a[:60]); break
                open(p, 'w', newline='').write(t.replace(a, b))
            else:
                open(d + '/patch.diff', 'w').write(run('git diff', W).stdout)
                for f in {e[0] for e in s['edits']}:   # a planted bug has to change lines of the original repository
                    ours = {l.split()[0].lstrip('^') for l in run('git log --format=%h --abbrev=40 b144f6e..HEAD', W).stdout.split()}
                    old = [int(x) for h in re.findall(r'^@@ -(\d+(?:,\d+)?)', run('git diff -U0', W).stdout if len(s['edits']) == 1 else run('git diff -U0 -- ' + f, W).stdout, re.M) for x in (lambda a, n=1: range(int(a), int(a) + int(n)))(*h.split(','))]
                    bl = run('git blame -s -l HEAD -- ' + f, W).stdout.splitlines(); mine = [n for n in old if bl[n - 1].split()[0].lstrip('^') in ours]
                    if mine or not old: print(id, 'NOTE: lines of fixes changed' if mine else 'NOTE: only adds', f, mine, 'of', len(old))
                open(d + '/demo.c', 'w').write(s['demo'].lstrip('\n')); open(d + '/demo.sh', 'w').write(DEMO % s['flags']); os.chmod(d + '/demo.sh', 0o755)
                json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
                sed = lambda x: x.replace('/repo', W)
                bs = sed(open('/opt/vp/build.sh').read()); b = run(bs, W)
                if b.returncode: print(id, 'DOES NOT BUILD', b.stdout[-800:]); continue
                ts = run("sed 's#/repo#%s#g' /opt/vp/test.sh > /tmp/sw-test.sh; bash /tmp/sw-test.sh /tmp/sw.json" % W); tests = ts.stdout.strip().splitlines()[-1] if ts.stdout.strip() else '?'
                bad = run('bash %s/demo.sh' % d, W); good = run('bash %s/demo.sh' % d, '/repo')
                ok = bad.returncode not in (0, 99) and good.returncode == 0 and '45 passed, 0 failed' in tests
                print(id, s['prop'], 'OK' if ok else 'BAD', 'tests:', tests, 'demo bad/good:', bad.returncode, good.returncode, '' if ok else (bad.stdout[-300:] + '|' + good.stdout[-300:]))
        if chk or only:
            a = run('git -C %s apply %s/patch.diff' % (R, d))
            try: c = run('python3 run.py %s --tier quick' % s['prop'], V, 900) if a.returncode == 0 else a
            finally: run('git -C %s checkout -- .' % R)
            hit = 'VIOLATION property=%s ' % s['prop'] in c.stdout and c.returncode == 1
            rec(id, 'caught' if hit else 'MISSED')
            print('   check', s['prop'], 'CAUGHT' if hit else 'MISSED rc=%d' % c.returncode, [l for l in c.stdout.splitlines() if 'minimal' in l or 'BUILD' in l or 'INCON' in l][:2]); sys.stdout.flush()
main()
