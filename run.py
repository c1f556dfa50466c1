#!/usr/bin/env python3
"""run.py PROP [--tier quick|thorough] [--seed N] | --replay FILE | --build NAME
Builds /repo's current tree and the harness of PROP (sanitized), then runs the search."""
import hashlib, json, os, shutil, subprocess, sys, glob, time, argparse, tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
HARN = os.path.join(V, 'harness')
CACHE = os.path.join(V, 'cache')
BUILD = os.environ.get('VERIF_BUILD') or os.path.join(V, '.build')
PROPS = json.load(open(os.path.join(V, 'checks.json')))   # property -> {harness, ...}

SAN = {'asan': ['-fsanitize=address,bounds', '-fno-sanitize-recover=bounds', '-fno-omit-frame-pointer'],
       'tsan': ['-fsanitize=thread', '-fno-omit-frame-pointer'],
       'dbg': ['-fsanitize=address,bounds', '-fno-sanitize-recover=bounds', '-fno-omit-frame-pointer'],
       'plain': [],
       'cov': ['-fsanitize=address', '-fprofile-instr-generate', '-fcoverage-mapping', '-mllvm', '-runtime-counter-relocation'],   # tools/cov.py
       'fuzz': ['-fsanitize=address,bounds,fuzzer-no-link', '-fno-sanitize-recover=bounds', '-fno-omit-frame-pointer']}

LAX = ['-Wno-error=' + x for x in ('implicit-function-declaration', 'implicit-int', 'int-conversion', 'incompatible-function-pointer-types')]   # what the gcc of the build only warns about

def cmake_inputs():
    fs = []
    for d, ds, ns in os.walk(REPO):
        ds[:] = [x for x in ds if x not in ('_build', '.git')]
        fs += [os.path.join(d, n) for n in ns if n == 'CMakeLists.txt' or n.endswith('.cmake') or n.endswith('.in')]
    h = hashlib.sha256()
    for f in sorted(fs):
        h.update(os.path.relpath(f, REPO).encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()

def configure(out):
    """run cmake, record library sources, definitions and the generated headers"""
    b = tempfile.mkdtemp(prefix='ztv-cmake-')
    try:
        env = dict(os.environ, LC_ALL='C.UTF-8'); [env.pop(k, None) for k in ('CFLAGS', 'CXXFLAGS', 'LDFLAGS')]
        subprocess.run(['cmake', '-S', REPO, '-B', b, '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=RelWithDebInfo', '-DCMAKE_POLICY_VERSION_MINIMUM=3.5',
                        '-DCMAKE_C_COMPILER=gcc', '-DCMAKE_CXX_COMPILER=g++', '-DCMAKE_C_FLAGS=-Wno-error', '-DCMAKE_CXX_FLAGS=-Wno-error',
                        '-DCMAKE_EXPORT_COMPILE_COMMANDS=ON'], check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env)
        srcs, defs = [], []
        for e in json.load(open(b + '/compile_commands.json')):
            if not e['file'].startswith(REPO + '/src/libzt/'): continue
            srcs.append(os.path.relpath(e['file'], REPO))
            for a in e['command'].split():
                if a.startswith('-D') and a not in defs: defs.append(a)
        hdr = {os.path.relpath(f, b): open(f).read() for f in glob.glob(b + '/src/libzt/*.h')}
        r = {'key': cmake_inputs(), 'sources': sorted(set(srcs)), 'defs': defs, 'headers': hdr}
        json.dump(r, open(out, 'w'), indent=1, sort_keys=True)
        return r
    finally:
        shutil.rmtree(b, ignore_errors=True)

def config():
    k = cmake_inputs()
    p = os.path.join(CACHE, 'cmake.json')
    if os.path.exists(p):
        c = json.load(open(p))
        if c['key'] == k: return c
    p = os.path.join(BUILD, 'cmake-%s.json' % k[:16])
    if os.path.exists(p): return json.load(open(p))
    os.makedirs(BUILD, exist_ok=True)
    return configure(p)

def tree_hash(cfg):
    h = hashlib.sha256(cfg['key'].encode())
    fs = []
    for top in ('src', 'compat'):
        for d, ds, ns in os.walk(os.path.join(REPO, top)): fs += [os.path.join(d, n) for n in ns]
    for f in sorted(fs):
        h.update(os.path.relpath(f, REPO).encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()

def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if r.returncode:
        print('BUILD FAILED:', cmd[0], cmd[-3:]); print(r.stdout[-2500:]); sys.exit(2)

LDFLAGS = {'h_oom': ['-Wl,' + ','.join('--wrap=' + f for f in ('malloc', 'calloc', 'realloc', 'strdup', 'strndup', 'abort'))]}

def build(harness, variant='asan', keepassert=False, fuzzbin=False):
    cfg = config()
    th = tree_hash(cfg)
    d = os.path.join(BUILD, '%s-%s' % (th[:16], variant))
    os.makedirs(d, exist_ok=True)
    if os.environ.get('VERIF_KEEP') != '1':      # drop builds of other trees
        for o in glob.glob(BUILD + '/*'):
            if os.path.isdir(o) and not os.path.basename(o).startswith(th[:16]): shutil.rmtree(o, ignore_errors=True)
    inc = os.path.join(d, 'inc')
    for rel, txt in cfg['headers'].items():
        p = os.path.join(inc, rel); os.makedirs(os.path.dirname(p), exist_ok=True)
        if not os.path.exists(p): open(p, 'w').write(txt)
    defs = list(cfg['defs'])          # "assert": the assertions of the headers are on in the harness only
    if variant == 'dbg': defs = [x for x in defs if x != '-DNDEBUG'] + ['-DDEBUG']; keepassert = True   # a build with assertions
    elif '-DNDEBUG' not in defs: defs.append('-DNDEBUG')
    base = ['-w', '-g1', '-O1', '-fPIC', '-pthread'] + SAN[variant] + defs + ['-I' + REPO + '/src', '-I' + inc + '/src', '-I' + REPO + '/compat']
    lib = os.path.join(d, 'libzt.a')
    jobs = []
    if not os.path.exists(lib):
        objs = []
        for s in cfg['sources']:
            o = os.path.join(d, s.replace('/', '_') + '.o'); objs.append(o)
            cc = ['clang++', '-std=c++17'] if s.endswith('.cpp') else ['clang'] + LAX
            jobs.append(cc + base + ['-c', os.path.join(REPO, s), '-o', o])
    hs = os.path.join(HARN, harness + '.cpp')
    hh = hashlib.sha256()
    for f in [hs, os.path.join(HARN, 'pbt.cpp'), os.path.join(HARN, 'pbt.h'), os.path.join(HARN, 'zthdr.h')] + sorted(glob.glob(os.path.join(HARN, 'ref*.h'))) + sorted(glob.glob(os.path.join(HARN, harness + '_*.c'))): hh.update(open(f, 'rb').read())
    hk = hh.hexdigest()[:12]
    exe = os.path.join(d, '%s-%s%s' % (harness, hk, '-fuzz' if fuzzbin else ''))
    hobjs = []
    if not os.path.exists(exe):
        hb = [x for x in base if x != '-DNDEBUG'] + ['-I' + HARN] + (['-DPBT_FUZZ'] if fuzzbin else [])
        po = exe + '.pbt.o'; ho = exe + '.h.o'
        jobs.append(['clang++', '-std=c++17'] + hb + ['-c', os.path.join(HARN, 'pbt.cpp'), '-o', po])
        jobs.append(['clang++', '-std=c++17'] + hb + (['-DNDEBUG'] if not keepassert else []) + ['-c', hs, '-o', ho])
        hobjs = [po, ho]
        for c in sorted(glob.glob(os.path.join(HARN, harness + '_*.c'))):
            o = exe + '.' + os.path.basename(c) + '.o'; hobjs.append(o)
            jobs.append(['clang', '-D_GNU_SOURCE'] + hb + (['-DNDEBUG'] if not keepassert else []) + ['-c', c, '-o', o])
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex: list(ex.map(sh, jobs))
    if not os.path.exists(lib):
        tmp = lib + '.%d' % os.getpid(); sh(['ar', 'rcs', tmp] + objs); os.rename(tmp, lib)
    if hobjs:
        san = SAN[variant] if not fuzzbin else ['-fsanitize=address,bounds,fuzzer']
        tmp = exe + '.%d' % os.getpid()
        sh(['clang++', '-g1', '-pthread'] + san + LDFLAGS.get(harness, []) + hobjs + [lib, '-ldl', '-o', tmp]); os.rename(tmp, exe)
    return exe

ENV = {'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:max_allocation_size_mb=2048:hard_rss_limit_mb=4000:malloc_fill_byte=190:max_malloc_fill_size=65536:handle_abort=0:detect_stack_use_after_return=1:strict_memcmp=0:quarantine_size_mb=8:exitcode=77',
       'TSAN_OPTIONS': 'halt_on_error=1:exitcode=66', 'UBSAN_OPTIONS': 'print_stacktrace=1'}

def known(prop):
    out = []
    p = os.path.join(V, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('KNOWN-FINDING: property=%s ' % prop): out.append(l.strip())
    return out

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1)); ap.add_argument('--replay'); ap.add_argument('--setup', action='store_true')
    ap.add_argument('--only'); ap.add_argument('--scale', default='1'); ap.add_argument('--configure', action='store_true'); ap.add_argument('--nofuzz', action='store_true')
    a = ap.parse_args()
    if a.configure: os.makedirs(CACHE, exist_ok=True); configure(os.path.join(CACHE, 'cmake.json')); return 0
    if a.setup:
        config()
        for h in sorted({(p['harness'], p.get('variant', 'asan'), p.get('assert', False)) for p in PROPS.values() if p['harness'] != '*'}): build(*h)
        return 0
    env = dict(os.environ); env.update(ENV); env['LC_ALL'] = 'C'; env['TZ'] = 'UTC'
    if a.replay:
        hn = None
        for l in open(a.replay):
            if l.startswith('prop '): a.prop = l.split()[1]
            if l.startswith('harness '): hn = l.split()[1]
    p = PROPS[a.prop]
    if p['harness'] == '*':
        if a.replay and p.get('mode') == 'debug':
            try: exe = build(hn, 'dbg', everywhere()[hn])
            except SystemExit: print(a.prop, 'FAILS: the library does not compile with assertions enabled'); return 1
            if not any(l.startswith('test ') for l in open(a.replay)): print(a.prop, 'passes'); return 0
            return subprocess.run([exe, '--debug', a.prop, '--replay', a.replay], env=env).returncode
        if a.replay: return subprocess.run([build(hn, 'asan', everywhere()[hn]), '--leak', a.prop, '--replay', a.replay], env=env).returncode
        return across(a, env)
    exe = build(p['harness'], p.get('variant', 'asan'), p.get('assert', False))
    if a.replay: return subprocess.run([exe, '--replay', a.replay], env=env).returncode
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    ev = os.path.join(V, 'evidence', a.prop + '.json')
    if os.path.exists(ev): os.unlink(ev)
    cmd = [exe, '--prop', a.prop, '--tier', a.tier, '--seed', str(a.seed), '--evidence', ev, '--replaydir', os.path.join(V, 'evidence'), '--scale', a.scale]
    if a.only: cmd += ['--only', a.only]
    for k in known(a.prop): print(k)
    sys.stdout.flush()
    rc = subprocess.run(cmd, env=env).returncode
    if rc not in (0, 1) and p.get('variant') == 'tsan':    # no room for the race detector here: the results still tell
        rc = subprocess.run([build(p['harness'], 'asan', p.get('assert', False))] + cmd[1:], env=env).returncode
    if rc == 0 and a.tier == 'thorough' and p.get('fuzz') and not a.nofuzz: rc = fuzz(a, p, exe, env, ev)
    if rc not in (0, 1): print('check error: exit', rc); return 2
    return rc

def everywhere(): return {p['harness']: p.get('assert', False) for p in PROPS.values() if p['harness'] != '*' and p.get('variant', 'asan') == 'asan'}

def across(a, env):
    """a property decided over the cases of every harness: each case is repeated and must not use more every time (leak), or runs in a build with assertions (debug)"""
    dbg = PROPS[a.prop].get('mode') == 'debug'
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True); ev = os.path.join(V, 'evidence', a.prop + '.json')
    if os.path.exists(ev): os.unlink(ev)
    for k in known(a.prop): print(k)
    tot = None; rc = 0; t0 = time.time()
    for h, asr in sorted(everywhere().items()):
        sys.stdout.flush(); e = ev + '.' + h
        how = ['--leak', a.prop]; exe = build(h, 'asan', asr)
        if dbg:
            how = ['--debug', a.prop, '--plain', exe]
            try: exe = build(h, 'dbg', asr)
            except SystemExit:
                rp = os.path.join(V, 'evidence', 'replay-%s-build.txt' % a.prop); open(rp, 'w').write('# the library does not compile with assertions enabled\nprop %s\nharness %s\n' % (a.prop, h))
                print('the library does not compile with assertions enabled'); print('VIOLATION property=%s replay=%s' % (a.prop, rp)); return 1
        cmd = [exe] + how + ['--harness', h, '--tier', a.tier, '--seed', str(a.seed), '--evidence', e, '--replaydir', os.path.join(V, 'evidence'), '--scale', a.scale] + (['--only', a.only] if a.only else [])
        r = subprocess.run(cmd, env=env).returncode
        if r == 2 and not os.path.exists(e): continue       # no test of this harness is repeated
        if r not in (0, 1): print('check error: exit', r); return 2
        j = json.load(open(e)); os.unlink(e); rc = rc or r
        if tot is None: tot = j
        else:
            c, d = tot['coverage'], j['coverage']; c['evaluations'] += d['evaluations']; c['distinct_nontrivial'] += d['distinct_nontrivial']; c['rule'] += ' || ' + d['rule']; c['samples'] = c['samples'][:20] + d['samples'][:3]; c['checks'].update(d['checks']); c['inconclusive'] += d['inconclusive']; c['failures'] += d['failures']; tot['violations'] += j['violations']
        if rc: break
    tot['wall_s'] = round(time.time() - t0, 2); json.dump(tot, open(ev, 'w')); return rc

def fuzz(a, p, exe, env, ev):
    """coverage-guided part of the thorough tier: libFuzzer drives the same checks"""
    fx = build(p['harness'], 'fuzz', p.get('assert', False), True)
    t0 = time.time(); rc = 0; info = {}
    for test in p['fuzz']:
        d = tempfile.mkdtemp(prefix='ztv-fuzz-')
        try:
            corp = d + '/corpus'; os.mkdir(corp)
            e = dict(env, PBT_PROP=a.prop, PBT_TEST=test)
            secs = p.get('fuzz_seconds', 120)
            procs = []
            for i in range(min(8, os.cpu_count() or 4)):
                lg = open(d + '/log%d' % i, 'w')
                procs.append(subprocess.Popen([fx, '-seed=%d' % (a.seed * 100 + i + 1), '-max_total_time=%d' % secs, '-artifact_prefix=%s/art%d-' % (d, i), '-max_len=2048', '-len_control=20', '-timeout=60', '-rss_limit_mb=3000', '-reload=1', corp],
                                              env=e, stdout=lg, stderr=lg, cwd=d))
            for q in procs: q.wait()
            runs = 0; cov = 0
            for f in glob.glob(d + '/log*'):
                for l in open(f, errors='replace'):
                    if l.startswith('#') and 'cov:' in l:
                        try: n = int(l[1:].split()[0]); cov = max(cov, int(l.split('cov:')[1].split()[0]))
                        except ValueError: n = 0
                runs += n if 'n' in dir() else 0
            info[test] = {'runs': runs, 'edges_covered': cov, 'corpus': len(os.listdir(corp))}
            for art in sorted(glob.glob(d + '/art*')):
                if 'slow-unit' in art or 'oom' in os.path.basename(art): continue
                r = subprocess.run([exe, '--prop', a.prop, '--only', test, '--bytes', art, '--replaydir', os.path.join(V, 'evidence'), '--tier', 'thorough'], env=env).returncode
                if r == 1: rc = 1; break
        finally: shutil.rmtree(d, ignore_errors=True)
        if rc: break
    j = json.load(open(ev)); j['coverage']['libfuzzer'] = info; j['wall_s'] = round(j['wall_s'] + time.time() - t0, 2)
    json.dump(j, open(ev, 'w')); return rc

if __name__ == '__main__': sys.exit(main())
