#!/usr/bin/env python3
"""mutate_h.py HEADER[,HEADER..] [-n MAX] [-s SEED]: mutation testing of macros and inline functions; like mutate.py, but everything is rebuilt (run.py) for each mutant, in /tmp/muth."""
import sys, os, re, random, json, subprocess, shutil, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); W = '/tmp/muth'; B = '/tmp/muthbuild'
src = open(V + '/tools/mutate.py').read().rsplit('\nmain()', 1)[0]; exec(src.replace("'/tmp/mutbuild'", repr(B)).replace("W = '/tmp/mut'", "W = '/tmp/muth'").replace('os.path.abspath(__file__)', repr(V + '/tools/x')))
def hm(text):
    out = []; lines = text.split('\n'); prev = False
    for n, l in enumerate(lines):
        s = l.strip(); body = prev or l[:1].isspace(); d = re.match(r'#\s*define\s+\w+\([^)]*\)\s*(.*)', l); prev = l.endswith('\\') and (prev or bool(d) or s.startswith('#'))
        if d: k = d.start(1)
        elif body and not s.startswith(('*', '/*', '//', '#')): k = 0
        else: continue
        seg = l[k:]
        for a, bs in (('<', ['<=']), ('<=', ['<']), ('>', ['>=']), ('>=', ['>']), ('==', ['!=']), ('!=', ['==']), ('&&', ['||']), ('||', ['&&']), (' + ', [' - ']), (' - ', [' + ']), ('<<', ['>>']), ('>>', ['<<']), (' & ', [' | ']), (' | ', [' & ']), ('++', ['--']), ('--', ['++']), (' * ', [' + ']), (' / ', [' * ']), (' % ', [' / ']), ('next', ['prev']), ('prev', ['next']), ('head', ['tail']), ('tail', ['head']), ('left', ['right']), ('right', ['left'])):
            for m in re.finditer(r'(?<![-<>=+!&|])' + re.escape(a) + r'(?![-<>=+&|])' if not a.isalpha() and ' ' not in a else re.escape(a), seg):
                for b in bs: out.append((n, l[:k] + seg[:m.start()] + b + seg[m.end():]))
        for m in re.finditer(r'(?<![\w.])(\d+)(?![\w.])', seg):
            v = int(m.group(1))
            for w in ([v + 1, v - 1] if v else [1]): out.append((n, l[:k] + seg[:m.start()] + str(w) + seg[m.end():]))
        for m in re.finditer(r'\((\w+)\)(?!\s*->|\w)', seg): out.append((n, l[:k] + seg[:m.start()] + m.group(1) + seg[m.end():]))
        for m in re.finditer(r'!(?=[\w(])', seg): out.append((n, l[:k] + seg[:m.start()] + seg[m.end():]))
        if k == 0 and re.match(r'\s+(\(?\*?[\w>()-]+(\[[^]]*\])?\s*[-+|&^]?=[^=]|[\w]+\(.*\);).*;\s*\\?$', l): out.append((n, ';' + (' \\' if l.endswith('\\') else '')))
    return lines, [x for x in out if x[1] != lines[x[0]]]
def go():
    a = sys.argv[1:]; n = int(a[a.index('-n') + 1]) if '-n' in a else 40; seed = int(a[a.index('-s') + 1]) if '-s' in a else 1
    sh(['rm', '-rf', W], 60); subprocess.run(['git', 'clone', '-q', '/repo', W], check=True)
    P = {}
    for l in open(V + '/properties.jsonl'):
        j = json.loads(l)
        for f in j['anchors']['files']: P.setdefault(f, []).append(j['id'])
    open('/tmp/muth-build.sh', 'w').write(open('/opt/vp/build.sh').read().replace('/repo', W)); open('/tmp/muth-test.sh', 'w').write(open('/opt/vp/test.sh').read().replace('/repo', W))
    print(sh(['bash', '/tmp/muth-build.sh'], 300)[0], 'build')
    for f in a[0].split(','):
        f = 'src/libzt/' + f; props = P.get(f, []); txt = open(W + '/' + f, newline='').read(); lines, ms = hm(txt); random.Random(seed).shuffle(ms); ms = ms[:n]; c = s = d = 0; t0 = time.time()
        print(f, len(ms), props); sys.stdout.flush()
        for ln, new in ms:
            L = list(lines); old = L[ln]; L[ln] = new; open(W + '/' + f, 'w', newline='').write('\n'.join(L)); hit = None
            rc, out = sh(['bash', '/tmp/muth-build.sh'], 300)
            if not rc: rc, out = sh(['bash', '/tmp/muth-test.sh', '/tmp/muth.json'], 120); rc = '45 passed, 0 failed' not in out
            if rc: d += 1
            else:
                for p in props:
                    rc, out = sh(['python3', V + '/run.py', p, '--scale', '0.4', '--nofuzz', '--evidence', '/tmp/muth-ev.json'] if 0 else ['python3', V + '/run.py', p, '--scale', '0.4', '--nofuzz'], 400)
                    if rc == 1 and 'VIOLATION' in out: hit = p; break
                    if rc not in (0, 1): hit = p; print('   odd', ln + 1, new.strip(), rc, out[-300:]); break
                if hit: c += 1
                else: s += 1; print('SURVIVOR %s:%d\n   - %s\n   + %s' % (f, ln + 1, old.strip(), new.strip())); sys.stdout.flush()
            sh(['bash', '-c', 'rm -rf %s/*-asan %s/*-tsan %s/*-fuzz' % (B, B, B)])
            open(W + '/' + f, 'w', newline='').write(txt)
        print('== %s: %d caught, %d survive, %d dead (%s) %.0fs' % (f, c, s, d, ','.join(props), time.time() - t0)); sys.stdout.flush()
go()
