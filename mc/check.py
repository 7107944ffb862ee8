#!/usr/bin/env python3
"""Build one property's harness from /repo's working tree, explore, write evidence, report.

usage: check.py PXX [quick|thorough] [--replay FILE] [--suite NAME] [--repo DIR]
exit 0: held on everything explored; 1: VIOLATION printed; 2: the check itself could not run.
"""
import sys, os, re, json, glob, hashlib, subprocess, tempfile, shutil, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS

def sh(cmd):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

def lib_sources(repo):
    """Library sources in the order the library is linked (its CMake list), then any not listed."""
    out = []
    for d in ('PlatformSupport', 'DotNetLibrary', 'DotNetLibrarySupport'):
        have = sorted(glob.glob(f'{repo}/{d}/*.cpp') + glob.glob(f'{repo}/{d}/src/**/*.cpp', recursive=True))
        have = [h for h in have if os.path.basename(h) != 'dllmain.cpp']
        try: listed = re.findall(r'^\s*([\w./-]+\.cpp)\s*$', open(f'{repo}/{d}/CMakeLists.txt').read(), re.M)
        except OSError: listed = []
        first = [os.path.normpath(f'{repo}/{d}/{l}') for l in listed]
        out += [f for f in first if f in have] + [h for h in have if h not in first]
    return out

def build(repo, prop, variant=''):
    conf = PROPS[prop]
    cache = os.path.join(VERIF, 'build', 'cache'); os.makedirs(cache, exist_ok=True)
    inc = [f'{repo}/DotNetLibrary/include', f'{repo}/PlatformSupport', f'{repo}/DotNetLibrarySupport']
    incs = [f'-I{i}' for i in inc]
    base = ['g++', '-g1', '-O1', '-fno-omit-frame-pointer', '-w', '-ffp-contract=off']
    asan = [] if conf.get('noasan') else ['-fsanitize=address', '-fno-sanitize-address-use-after-scope']
    if os.environ.get('MC_COV'): asan += ['--coverage']
    hdr = hashlib.sha256()
    for d in inc:
        for f in sorted(glob.glob(d + '/**/*.h', recursive=True)): hdr.update(f[len(repo):].encode()); hdr.update(open(f, 'rb').read())
    mine = hashlib.sha256()
    for f in sorted(glob.glob(HERE + '/*.h')): mine.update(open(f, 'rb').read())
    jobs = []
    for s in lib_sources(repo): jobs.append((s, base + asan + ['-ftrivial-auto-var-init=pattern', '-std=c++11', '-fPIC', '-fvisibility=default'] + incs, hdr.hexdigest()))
    jobs.append((f'{HERE}/mc.cpp', base + asan + ['-std=c++17'], mine.hexdigest()))
    for s in conf['src']: jobs.append((f'{HERE}/{s}', base + asan + ['-std=c++17', '-fno-sized-deallocation', '-fpermissive', f'-I{HERE}'] + incs, hdr.hexdigest() + mine.hexdigest()))
    def one(j):
        src, flags, extra = j
        key = hashlib.sha256((repr([f.replace(repo, 'R') for f in flags]) + extra + os.path.basename(src)).encode() + open(src, 'rb').read()).hexdigest()[:32]
        o = f'{cache}/{key}.o'
        if not os.path.exists(o) or os.environ.get('MC_COV'):
            t = f'{cache}/{key}.{os.getpid()}.tmp.o'
            r = sh(flags + ['-c', src, '-o', o if os.environ.get('MC_COV') else t])
            if r.returncode: return None, f'{src}:\n{r.stdout}'
            if not os.environ.get('MC_COV'): os.replace(t, o)
        else: os.utime(o)
        return o, None
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex: res = list(ex.map(one, jobs))
    errs = [e for _, e in res if e]
    if errs: return None, '\n'.join(errs)
    exe = os.path.join(VERIF, 'build', f'{prop}.{os.getpid()}')
    wraps = ['malloc', 'free', 'calloc', 'realloc', 'time', 'clock_gettime', 'gettimeofday', 'clock', '_ZNSt6chrono3_V212system_clock3nowEv', 'timespec_get']
    r = sh(['g++', '-g1'] + asan + [o for o, _ in res] + ['-o', exe] + [f'-Wl,--wrap={w}' for w in wraps] + ['-lm'])
    if r.returncode: return None, r.stdout
    # keep the object cache small
    objs = sorted(glob.glob(cache + '/*.o'), key=os.path.getmtime)
    for o in objs[:-600]:
        try: os.remove(o)
        except OSError: pass
    return exe, None

def known_findings(prop):
    """(key, text) of the recorded, unrepaired findings of this property."""
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line)
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3).strip()))
    return out

def main():
    a = sys.argv[1:]; prop = a.pop(0); tier = os.environ.get('VERIF_TIER', 'quick'); replay = suite = None; repo = '/repo'
    while a:
        x = a.pop(0)
        if x in ('quick', 'thorough'): tier = x
        elif x == '--replay': replay = a.pop(0)
        elif x == '--suite': suite = a.pop(0)
        elif x == '--repo': repo = a.pop(0)
    t0 = time.time()
    exe, err = build(repo, prop)
    if not exe: print('build failed:\n' + err[-6000:]); return 2
    tmp = tempfile.mkdtemp(prefix=f'mc-{prop}-')
    try:
        cmd = [exe, '--property', prop, '--errdir', tmp, '--out', tmp + '/out.json']
        known = known_findings(prop)
        for k, _ in known: cmd += ['--known', k]
        if tier == 'thorough': cmd += ['--thorough']
        if suite: cmd += ['--suite', suite]
        if os.environ.get('MC_JOBS'): cmd += ['--jobs', os.environ['MC_JOBS']]
        if replay: return subprocess.run(cmd + ['--replay', replay]).returncode
        left = 860 - (time.time() - t0)
        rdir = os.path.join(VERIF, 'build', 'replays'); os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, f'{prop}-{tier}' + ('' if repo == '/repo' else f'.{os.getpid()}') + '.replay')
        cmd += ['--replay-out', rp, '--deadline', str(int(max(60, left - 40)) if tier == 'quick' else int(os.environ.get('MC_DEADLINE', '800')))]
        env = dict(os.environ, TZ='UTC0', LC_ALL='C')
        r = subprocess.run(cmd, env=env)
        rc = r.returncode
        try: res = json.load(open(tmp + '/out.json'))
        except Exception as e: print('no result from the explorer:', e); return 2
        for k in res['known']:
            text = dict(known).get(k['key'], '')
            print(f"KNOWN-FINDING: property={prop} {k['key']}: {text} ({k['count']} explored cases; e.g. {k['what'][:300]})")
        if not suite and repo == '/repo':
            samples = []
            for s in res['suites']:
                for x in s['samples']: samples.append({'suite': s['suite'], 'trace': x})
            conf = PROPS[prop]
            ev = {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'model_checking',
                  'coverage': {
                      'states': res['distinct_states'], 'transitions': res['operations'], 'traces_validated_against_impl': res['executions'],
                      'exhaustive': (not res['capped']) and rc == 0,
                      'rule': 'states: distinct canonical model states / observed outcomes hashed during the run; transitions: operations executed on the real code whose result was compared with the reference model; traces: complete executions of the driver on the real code, one per combination of choices, no sampling',
                      'suites': [{k: v for k, v in s.items() if k != 'samples'} for s in res['suites']],
                      'known_findings_hit': res['known'],
                      'samples': samples or [{'note': 'stopped at a violation before sampling'}]},
                  'assumptions': conf['assumptions'], 'wall_s': round(time.time() - t0, 2), 'violations': res['violations']}
            os.makedirs(VERIF + '/evidence', exist_ok=True)
            with open(f'{VERIF}/evidence/{prop}.json', 'w') as f: json.dump(ev, f, indent=1)
        return rc if rc in (0, 1) else 2
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
        try: os.remove(exe)
        except OSError: pass

if __name__ == '__main__': sys.exit(main())
