#!/usr/bin/env python3
"""Line coverage of /repo's sources by all checks together: python3 tools/cov.py [SCALE] [PROP...]   (report in /tmp/ztcov)"""
import sys, os, json, subprocess, glob, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import run
scale = sys.argv[1] if len(sys.argv) > 1 else '0.2'; props = sys.argv[2:] or sorted(run.PROPS)
out = '/tmp/ztcov'; shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
os.environ['VERIF_KEEP'] = '1'
exes = {}
for pr in props:
    p = run.PROPS[pr]; h = p['harness']
    if h not in exes: exes[h] = run.build(h, 'cov', p.get('assert', False))
    env = dict(os.environ, **run.ENV); env.update(LC_ALL='C', TZ='UTC', LLVM_PROFILE_FILE='%s/%s-%s.profraw%%c' % (out, h, pr))
    try: r = subprocess.run([exes[h], '--prop', pr, '--tier', 'quick', '--seed', '1', '--evidence', out + '/ev.json', '--replaydir', out, '--scale', scale], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=600)
    except subprocess.TimeoutExpired: print(pr, 'timeout'); continue
    print(pr, r.returncode, r.stdout.strip().split('\n')[-1][:150] if r.returncode else '')
prof = []
for h in exes:
    f = '%s/%s.profdata' % (out, h); raws = glob.glob('%s/%s-*.profraw*' % (out, h))
    subprocess.run(['llvm-profdata-18', 'merge', '-failure-mode=all', '-o', f] + raws, check=False); prof.append(f)
subprocess.run(['llvm-profdata-18', 'merge', '-o', out + '/all.profdata'] + [f for f in prof if os.path.exists(f)])
objs = []
for e in exes.values(): objs += ['-object', e]
for cmd, o in (('report', 'report.txt'), ('show', 'show.txt')):
    with open(out + '/' + o, 'w') as f: subprocess.run(['llvm-cov-18', cmd, '-instr-profile', out + '/all.profdata'] + objs[1:] + ['-ignore-filename-regex', 'verif|/usr'], stdout=f, stderr=subprocess.DEVNULL)
