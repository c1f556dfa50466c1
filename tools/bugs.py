#!/usr/bin/env python3
"""bugs.py FILE.py.. [-k SUBSTR]: apply each bug(prop, file, old, new) of the files to a scratch clone, build, run the repository's tests and the property's quick check"""
import sys, os, subprocess, threading, queue
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = []
def bug(prop, f, *ed):
    B.append((prop, f if f.startswith(('src', 'compat')) else 'src/libzt/' + f, [(ed[i], ed[i + 1]) for i in range(0, len(ed), 2)]))
args = [a for a in sys.argv[1:] if a.endswith('.py')]; k = sys.argv[sys.argv.index('-k') + 1] if '-k' in sys.argv else ''
for a in args: exec(compile(open(a).read(), a, 'exec'))
def sh(c, t=900, **kw):
    p = subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', start_new_session=True, **kw)
    try: return (lambda o: (p.returncode, o))(p.communicate(timeout=t)[0])
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.communicate(); return 124, 'timeout'
q = queue.Queue(); L = threading.Lock()
for i, b in enumerate(B):
    if k in b[0] or k in b[1]: q.put((i, b))
def work(w):
    W = os.environ.get('BG', '/tmp/bg') + '%d' % w; sh(['rm', '-rf', W]); subprocess.run(['git', 'clone', '-q', os.environ.get('BUGSRC', '/repo'), W], check=True)
    for s in ('build', 'test'): open(W + '-%s.sh' % s, 'w').write(open('/opt/vp/%s.sh' % s).read().replace('/repo', W))
    env = dict(os.environ, VERIF_REPO=W, VERIF_KEEP='1', VERIF_BUILD=W + 'build')
    while True:
        try: i, (prop, f, eds) = q.get_nowait()
        except queue.Empty: return
        sh(['git', '-C', W, 'checkout', '-q', '.']); p = W + '/' + f; s = open(p, newline='').read(); ok = True; res = ''
        for a, b in eds:
            if s.count(a) != 1: res = 'NOMATCH %d: %s' % (s.count(a), a[:60]); ok = False; break
            s = s.replace(a, b)
        if ok:
            open(p, 'w', newline='').write(s); r, o = sh(['bash', W + '-build.sh'], 300)
            if r: res = 'NOBUILD ' + o[-300:]
            else:
                r, o = sh(['bash', W + '-test.sh', W + '.json'], 300); t = '0 failed' in o
                r, o = sh(['python3', 'run.py', prop], 900, cwd=V, env=env); v = [l for l in o.splitlines() if 'VIOLATION' in l or l.startswith('  ')]
                res = ('caught' if r == 1 else 'MISSED' if r == 0 else 'ODD %d %s' % (r, o[-300:])) + ('' if t else ' (tests fail)')
        with L: print('%3d %s %s %s | %s' % (i, prop, os.path.basename(f), res, eds[0][1].strip().replace('\n', ' ')[:90]), flush=True)
T = [threading.Thread(target=work, args=(w,)) for w in range(int(os.environ.get('JOBS', '3')))]
[t.start() for t in T]; [t.join() for t in T]
