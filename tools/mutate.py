#!/usr/bin/env python3
"""mutate.py FILE|all [-n MAX] [-s SEED] [-j PROPS,..]: mutation testing of the checks in a scratch copy (/tmp/mut).
A mutant that builds, passes the repository's tests and is not reported by any check of a property anchored in its file is printed as a survivor."""
import sys, os, re, subprocess, random, json, glob, shutil, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); W = os.environ.get('MUT_DIR', '/tmp/mut')
sys.path.insert(0, V); os.environ['VERIF_REPO'] = W; os.environ['VERIF_KEEP'] = '1'; os.environ['VERIF_BUILD'] = W + 'build'
import run as R
def sub(l, i, a, b): return l[:i] + b + l[i + len(a):]
def mutants(text):
    out = []; incom = False; depth = 0
    lines = text.split('\n'); cont = False
    for n, l in enumerate(lines):
        s = l.strip(); c = cont; cont = l.endswith('\\')
        if incom:
            if '*/' in l: incom = False
            continue
        if s.startswith('/*') and '*/' not in l: incom = True; continue
        if s.startswith('/*') or s.startswith('//') or s.startswith('#') or s.startswith('zt_assert') or not s: continue
        if not l[:1].isspace() and '(' in l: continue        # signatures
        code = re.sub(r'"(\\.|[^"\\])*"', lambda m: '"' * len(m.group(0)), l); code = re.sub(r"/\*.*?\*/", lambda m: ' ' * len(m.group(0)), code)
        if not c and not l[:1].isspace(): continue
        def add(i, a, b): out.append((n, sub(l, i, a, b)))
        for a, bs in ((' < ', [' <= ']), (' <= ', [' < ']), (' > ', [' >= ']), (' >= ', [' > ']), (' == ', [' != ']), (' != ', [' == ']), (' && ', [' || ']), (' || ', [' && ']), (' + ', [' - ']), (' - ', [' + ']),
                      (' << ', [' >> ']), (' >> ', [' << ']), (' & ', [' | ']), (' | ', [' & ']), (' += ', [' -= ', ' = ']), (' -= ', [' += ', ' = ']), (' |= ', [' = ', ' &= ']), ('++', ['--']), ('--', ['++']), (' * ', [' + ']), (' / ', [' * ']), (' % ', [' / '])):
            for m in re.finditer(re.escape(a), code):
                for b in bs: add(m.start(), a, b)
        for m in re.finditer(r'(?<![\w.])(\d+)(?![\w.])', code):
            v = int(m.group(1)); add(m.start(), m.group(1), str(v + 1))
            if v: add(m.start(), m.group(1), str(v - 1))
        for m in re.finditer(r'(?<=[(&|] )!|(?<=\()!', code): add(m.start(), '!', '')
        m = re.match(r'\s*(if|while) \((.*)\) \{', code)
        if m and l.count('(') == l.count(')'):
            k = m.start(2); out.append((n, l[:k] + '1 || (' + l[k:m.end(2)] + ')' + l[m.end(2):])); out.append((n, l[:k] + '0 && (' + l[k:m.end(2)] + ')' + l[m.end(2):]))
        if s.endswith(';') and not c and re.match(r'(\*?\(?[\w>.*\[\]()-]+(\[[^;]*\])?\s*([-+|&^*/]|<<|>>)?=[^=]|\w+\(.*\);|[\w>.-]+(\+\+|--);|(\+\+|--)[\w>.-]+;|break;|continue;|goto )', s) and not re.match(r'(return|static|const|unsigned|int|char|size_t|ssize_t|void|struct|zt_\w+ +\*?\w+ *=)', s):
            out.append((n, re.sub(r'\S.*', ';', l, 1)))
        for m in re.finditer(r'\((?:unsigned char|uint8_t|unsigned|uint32_t|uint64_t|size_t|long|ssize_t)\)', code): add(m.start(), m.group(0), '')
    return lines, out
NARROW = {'size_t': 'uint', 'unsigned int': 'uint', 'unsigned long': 'uint', 'uint32_t': 'uint', 'uint64_t': 'uint', 'unsigned': 'uint', 'ssize_t': 'int', 'int': 'int', 'long': 'int', 'int32_t': 'int', 'int64_t': 'int', 'off_t': 'int', 'intmax_t': 'int'}
def narrow(text):
    # locals, members and parameters kept in 8 or 16 bits: a survivor shows what sizes the generators reach
    lines = text.split('\n'); out = []; ty = '|'.join(sorted(NARROW, key=len, reverse=True)); sig = ''
    for n, l in enumerate(lines):
        if l.lstrip().startswith(('#', '/*', '*', '//', 'static const', 'typedef')): continue
        m = re.match(r'(\s+)(%s)(\s+\w+\s*(=|;|,|:|\[).*)' % ty, l)
        if m and l[:1].isspace() and not l.rstrip().endswith('\\') and not l.rstrip().endswith((') {', ')')): 
            for b in (8, 16): out.append((n, '%s%s%d_t%s' % (m[1], NARROW[m[2]], b, m[3])))
        if not l[:1].isspace() and l[:1] not in '{}': sig = sig + l if sig and not sig.rstrip().endswith((';', '}')) else l
        elif sig and l[:1].isspace() and '{' not in sig: sig += l
        if '{' in l and sig and '(' in sig and not sig.strip().startswith(('struct', 'enum', 'union')) and '=' not in sig.split('(')[0]:
            for q in re.finditer(r'[(,]\s*(?:const )?(%s)\s+(\w+)(?=\s*[,)])' % ty, sig.split('{')[0]):
                for b in (8, 16): out.append((n, l.replace('{', '{ %s = (%s%d_t)%s;' % (q[2], NARROW[q[1]], b, q[2]), 1)))
            sig = ''
        if l.startswith('}'): sig = ''
    return lines, out
def sh(c, t=60, **k):
    p = subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', start_new_session=True, **k)
    try: o = p.communicate(timeout=t)[0]
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.communicate(); return 124, 'timeout'
    return p.returncode, o
def main():
    a = sys.argv[1:]; n = int(a[a.index('-n') + 1]) if '-n' in a else 40; seed = int(a[a.index('-s') + 1]) if '-s' in a else 1; only = a[a.index('-j') + 1].split(',') if '-j' in a else None
    scale = a[a.index('--scale') + 1] if '--scale' in a else '0.4'
    sh(['rm', '-rf', W], 60); subprocess.run(['git', 'clone', '-q', '/repo', W], check=True)
    P = {}
    for l in open(V + '/properties.jsonl'):
        j = json.loads(l)
        for f in j['anchors']['files']: P.setdefault(f, []).append(j['id'])
    fs = sorted(f for f in P if f.endswith('.c') and os.path.exists(W + '/' + f)) if a[0] == 'all' else [x if x.startswith('src') else 'src/libzt/' + x for x in a[0].split(',')]
    bs = open('/opt/vp/build.sh').read().replace('/repo', W); open(W + '-build.sh', 'w').write(bs); open(W + '-test.sh', 'w').write(open('/opt/vp/test.sh').read().replace('/repo', W))
    print(sh(['bash', W + '-build.sh'], 300)[0], 'build')
    cfg = R.config()
    sc = R.PROPS
    for f in fs:
        src = open(W + '/' + f, newline='').read(); lines, ms = narrow(src) if '--narrow' in a else mutants(src); rnd = random.Random(seed); rnd.shuffle(ms); ms = ms[:n]
        props = only or [p for p in P.get(f, []) if sc[p]['harness'] != '*']; surv = 0; caught = 0; dead = 0; t0 = time.time()
        hs = sorted({(sc[p]['harness'], sc[p].get('variant', 'asan'), sc[p].get('assert', False)) for p in props})
        exes = {h: R.build(*h) for h in hs}; d = {v: os.path.dirname(exes[h]) for h in hs for v in [h[1]]}
        try:
            for ln, new in ms:
                L = list(lines); old = L[ln]; L[ln] = new; open(W + '/' + f, 'w', newline='').write('\n'.join(L))
                ok = True; hit = None; ex = {}
                for h in hs:
                    v = h[1]; o = W + '-%s.o' % v
                    if h == hs[0] or v not in [x[1] for x in ex]:
                        defs = list(cfg['defs']); defs += [] if '-DNDEBUG' in defs else ['-DNDEBUG']
                        rc, out = sh(['clang'] + R.LAX + ['-w', '-g1', '-O1', '-fPIC', '-pthread'] + R.SAN[v] + defs + ['-I' + W + '/src', '-I' + d[v] + '/inc/src', '-I' + W + '/compat', '-c', W + '/' + f, '-o', o])
                        if rc: ok = False; break
                        lib = W + '-%s.a' % v; shutil.copy(d[v] + '/libzt.a', lib); sh(['ar', 'd', lib, f.replace('/', '_') + '.o']); os.makedirs(W + 'o', exist_ok=True); os.rename(o, W + 'o/' + f.replace('/', '_') + '.o'); sh(['ar', 'r', lib, W + 'o/' + f.replace('/', '_') + '.o'])
                    e = W + '-' + h[0]; objs = sorted(glob.glob(exes[h] + '.*.o'))
                    rc, out = sh(['clang++', '-g1', '-pthread'] + R.SAN[v] + R.LDFLAGS.get(h[0], []) + objs + [W + '-%s.a' % v, '-ldl', '-o', e])
                    if rc: ok = False; break
                    ex[h] = e
                if not ok: dead += 1; continue
                env = dict(os.environ); env.update(R.ENV); env.update(LC_ALL='C', TZ='UTC', PBT_SHRINK='0.2')
                for p in props:
                    h = (sc[p]['harness'], sc[p].get('variant', 'asan'), sc[p].get('assert', False))
                    rc, out = sh([ex[h], '--prop', p, '--tier', 'quick', '--seed', '1', '--replaydir', '/tmp', '--scale', scale], 200, env=env)
                    if rc == 1 and 'VIOLATION' in out: hit = p; break
                    if rc not in (0, 1): hit = p + '(rc %d)' % rc; print('   odd', f, ln + 1, rc, out[-200:]); break
                if hit: caught += 1; continue
                rc, out = sh(['bash', W + '-build.sh'], 300)
                if rc: dead += 1; continue
                rc, out = sh(['bash', W + '-test.sh', W + '.json'], 120)
                if '45 passed, 0 failed' not in out: dead += 1; continue
                surv += 1; print('SURVIVOR %s:%d\n   - %s\n   + %s' % (f, ln + 1, old.strip(), new.strip())); sys.stdout.flush()
        finally: open(W + '/' + f, 'w', newline='').write(src)
        print('== %s: %d caught, %d survive, %d dead (%s) %.0fs' % (f, caught, surv, dead, ','.join(props), time.time() - t0)); sys.stdout.flush()
main()
