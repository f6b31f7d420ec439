#!/usr/bin/env python3
"""Build a check from /repo's current tree and run it.  usage: run.py PROPERTY [--replay FILE] | --build-all | --list"""
import glob, hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(V, 'build')
S = os.path.join(V, 'standin')
INC = [f'-I{REPO}/include', f'-I{S}/include', f'-I{S}/mri/include', f'-I{S}/CrashCatcher/include', f'-I{S}/CrashCatcher/Core/src']
WRAPPED = '''malloc calloc realloc free strdup strndup fopen fclose fread fseek rewind ftell fgets ferror feof fprintf printf vfprintf
vprintf puts putchar fputs fputc putc fwrite fflush perror exit abort __assert_fail read write select poll memset'''.split()
CFLAGS = '-g -std=gnu90 -w -O2 -fno-pie -fexceptions -fno-stack-protector -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -fno-common'.split()
CXXFLAGS = '-g -std=gnu++17 -O1 -fno-pie -Wall -Wextra -Wno-unused-parameter -Wno-unused-function -Wno-clobbered'.split()
VARIANTS = {'plain': [], 'asan': ['-fsanitize=address', '-fno-omit-frame-pointer']}
SETS = {
    'app': ['libCrashDebug/src/*.c', 'libcommon/src/*.c', 'main/*.c', S + '/mri/core/*.c'],
    'mocks': ['libmocks/src/*.c', 'libcommon/src/*.c'],
    'doubles': ['libCrashDebug/mocks/*.c', 'libCrashDebug/mocks/*.cpp', 'libmocks/src/*.c', 'libcommon/src/*.c'],
}

class Fail(Exception): pass

def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode: raise Fail(' '.join(cmd) + '\n' + p.stdout[-4000:])
    return p.stdout

def sha(files, extra=''):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode()); h.update(b'\0')
        with open(f, 'rb') as fh: h.update(fh.read())
    return h.hexdigest()[:20]

def tree(*pats):
    out = []
    for p in pats:
        p = p if p.startswith('/') else os.path.join(REPO, p)
        out += [f for f in glob.glob(p, recursive=True) if os.path.isfile(f)]
    return sorted(out)

def cut_sources(cset):
    return tree(*SETS[cset])

def headers():
    return tree('include/**', 'libCrashDebug/src/*.h', 'libcommon/src/*.h', 'libmocks/src/*.h', 'libCrashDebug/mocks/*.h', 'main/*.h', S + '/**')

def atomic_dir(path, fill):
    if os.path.isdir(path): return path
    tmp = path + '.tmp%d' % os.getpid()
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    try:
        fill(tmp)
        try: os.rename(tmp, path)
        except OSError:
            if not os.path.isdir(path): raise
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return path

def build_cut(cset, variant, pool):
    src = cut_sources(cset)
    inc = INC + ([f'-I{REPO}/libCrashDebug/src'] if cset == 'app' else ['-include', 'stdlib.h'])   # the mocks get it from CppUTest's forced include
    if cset == 'doubles': inc = inc + [f'-I{REPO}/libCrashDebug/mocks']
    key = sha(src + headers(), cset + variant + ' '.join(CFLAGS + inc + WRAPPED))
    path = os.path.join(BUILD, f'cut-{cset}-{variant}-{key}')
    def fill(tmp):
        def one(i):
            f = src[i]
            o = os.path.join(tmp, '%02d-%s.o' % (i, os.path.splitext(os.path.basename(f))[0]))
            d = ['-Dmain=cut_main'] if f.startswith(REPO + '/main/') else []
            cmd = VARIANTS[variant] + d + inc + ['-c', f, '-o', o]
            if f.endswith('.cpp'):
                run(['g++'] + [x for x in CFLAGS if not x.startswith('-std')] + cmd)
                return o
            try: run(['gcc'] + CFLAGS + cmd)
            except Fail:                                      # a file written in a later dialect of C
                try: run(['gcc'] + [x.replace('gnu90', 'gnu17') for x in CFLAGS] + cmd)
                except Fail: run(['gcc'] + CFLAGS + cmd)
            return o
        objs = list(pool.map(one, range(len(src))))
        run(['ld', '-r', '-o', tmp + '/all.o'] + objs)
        with open(tmp + '/syms', 'w') as fh:
            for w in WRAPPED: fh.write(f'{w} cut_{w}\n')
            fh.write('__asan_memset cut_asan_memset\n')
        run(['objcopy', '--redefine-syms=' + tmp + '/syms', '--rename-section', '.data=cut_data', '--rename-section', '.bss=cut_bss', tmp + '/all.o', tmp + '/cut.o'])
        for o in objs + [tmp + '/all.o']: os.remove(o)
    return atomic_dir(path, fill) + '/cut.o'

def build_engine(variant, pool):
    eng = tree(V + '/engine/*')
    key = sha(eng + headers(), variant + ' '.join(CXXFLAGS + CFLAGS))
    path = os.path.join(BUILD, f'engine-{variant}-{key}')
    def fill(tmp):
        jobs = [['g++'] + CXXFLAGS + [f'-DMC_VARIANT="{variant}"', f'-I{V}/engine', '-c', f'{V}/engine/{n}.cpp', '-o', f'{tmp}/{n}.o'] for n in ('mc', 'rt')]
        jobs.append(['gcc'] + CFLAGS + INC + ['-c', f'{V}/engine/shim.c', '-o', f'{tmp}/shim.o'])
        list(pool.map(run, jobs))
    return [f'{atomic_dir(path, fill)}/{n}.o' for n in ('mc', 'rt', 'shim')]

def config(prop):
    return json.load(open(f'{V}/checks/config.json'))[prop]

def build(prop, variant, pool):
    c = config(prop)
    cset = c.get('set', 'app')
    if os.path.isdir(f'{REPO}/mri/include') or os.path.isdir(f'{REPO}/CrashCatcher/include'):
        print('note: submodules present in /repo are ignored; the stand-ins are used', file=sys.stderr)
    f1 = pool2.submit(build_cut, cset, variant, pool)
    f2 = pool2.submit(build_engine, variant, pool)
    harness = f'{V}/checks/{c["harness"]}'
    csrc = [f'{V}/checks/{n}' for n in c.get('csrc', [])]     # C parts, compiled with the repository's headers like its own code
    deps = tree(V + '/checks/*.h', V + '/engine/*.h') + [harness] + csrc + headers()
    key = sha(deps, prop + variant + ' '.join(CXXFLAGS + CFLAGS + c.get('defs', [])))
    inc = INC + {'app': [f'-I{REPO}/libCrashDebug/src'], 'doubles': [f'-I{REPO}/libCrashDebug/mocks']}.get(cset, [])
    def fillobj(tmp):
        run(['g++'] + CXXFLAGS + [f'-DPROP="{prop}"', f'-DPROP_{prop}=1'] + c.get('defs', []) + [f'-I{V}/engine', f'-I{V}/checks'] + inc + ['-c', harness, '-o', tmp + ('/h1.o' if csrc else '/h.o')])
        for i, n in enumerate(csrc):
            run(['gcc'] + CFLAGS + VARIANTS[variant] + INC + [f'-I{V}/checks', '-c', n, '-o', f'{tmp}/c{i}.o'])
        if csrc: run(['ld', '-r', '-o', tmp + '/h.o', tmp + '/h1.o'] + [f'{tmp}/c{i}.o' for i in range(len(csrc))])
    hobj = atomic_dir(os.path.join(BUILD, f'h-{prop}-{variant if csrc else "any"}-{key}'), fillobj) + '/h.o'
    cut, eng = f1.result(), f2.result()
    key2 = sha([cut, hobj] + eng, variant)
    def fill(tmp):
        run(['g++', '-no-pie', '-o', tmp + '/check'] + VARIANTS[variant] + eng + [hobj, cut])
    return atomic_dir(os.path.join(BUILD, f'{prop}-{variant}-{key2}'), fill) + '/check'

pool = ThreadPoolExecutor(16)
pool2 = ThreadPoolExecutor(16)

def prune_builds():
    try:
        ds = sorted(((os.path.getmtime(os.path.join(BUILD, d)), d) for d in os.listdir(BUILD)), reverse=True)
        for t, d in ds[500:]: shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
    except OSError: pass

def known(prop):
    out = []
    p = f'{V}/known-findings.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) key="([^"]*)" (.*)', l.strip())
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3)))
    return out

def main():
    args = sys.argv[1:]
    os.makedirs(BUILD, exist_ok=True)
    cfg = json.load(open(f'{V}/checks/config.json'))
    if args and args[0] == '--build-all':
        bad = 0
        for prop in sorted(cfg):
            for v in cfg[prop].get('variants', ['plain', 'asan']):
                try: build(prop, v, pool)
                except Fail as e: print(f'{prop} {v}: {e}'); bad = 1
        return bad
    prop = args[0]
    c = cfg[prop]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in args: tier = args[args.index('--tier') + 1]
    t0 = time.time()
    variants = c.get('variants', ['plain', 'asan'])
    env = dict(os.environ)
    env['ASAN_OPTIONS'] = 'detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=99:handle_abort=0:detect_stack_use_after_return=0:max_malloc_fill_size=0:symbolize=1:quarantine_size_mb=4:malloc_context_size=4'
    env['ASAN_SYMBOLIZER_PATH'] = ''
    try:
        bins = dict(zip(variants, pool2.map(lambda v: build(prop, v, pool), variants)))
    except Fail as e:
        print('BUILD FAILED', e); return 2
    outdir = f'{V}/out'; os.makedirs(outdir + '/replay', exist_ok=True)
    if '--replay' in args:
        r = json.load(open(args[args.index('--replay') + 1]))
        f = f'{outdir}/replay-input-{os.getpid()}.txt'
        open(f, 'w').write(r['model'] + '\n' + ' '.join(map(str, r['choices'])) + '\n')
        rc = subprocess.call([bins[r['variant']], '--tier', r['tier'], '--replay', f], env=env)
        os.remove(f)
        return rc
    # The first variant runs the tier's bounds; each further variant runs the bounds given in config (default: same).
    results, viol = [], None
    limit = 800 if tier == 'quick' else int(c.get('thorough_limit', 3600))
    kn = known(prop)
    err = False
    for v in variants:
        left = limit - (time.time() - t0)
        out = f'{outdir}/{prop}-{v}-{os.getpid()}.json'
        cmd = [bins[v], '--tier', tier, '--out', out, '--workers', str(os.environ.get('MC_WORKERS', '8')), '--limit', str(max(20, left / (len(variants) - len(results))))]
        if '--model' in args: cmd += ['--model', args[args.index('--model') + 1]]
        for k, _ in kn: cmd += ['--known', k]
        p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        if not os.path.exists(out):
            print('CHECK FAILED', p.returncode, p.stdout[-3000:]); return 2
        r = json.load(open(out)); os.remove(out)
        results.append(r)
        if r['error']: err = True; print(p.stdout[-2000:])
        if r['violation']:
            viol = dict(r['violation'], variant=v, tier=tier, property=prop); break
    ev = evidence(prop, c, tier, results, viol, time.time() - t0)
    os.makedirs(f'{V}/evidence', exist_ok=True)
    if '--model' not in args:
        with open(f'{V}/evidence/{prop}.json', 'w') as fh: json.dump(ev, fh, indent=1)
    hits = sorted({k for r in results for m in r['models'] for k in m['known']})
    for k in hits:
        print(f'KNOWN-FINDING: property={prop} {k}: ' + next(t for kk, t in kn if kk == k))
    cov = ev['coverage']
    print(f"{prop} {tier}: executions={cov['traces_validated_against_impl']} states={cov['states']} transitions={cov['transitions']} outcomes={cov['distinct_outcomes']} exhaustive={cov['exhaustive']} wall={ev['wall_s']}s")
    if viol:
        path = f'{outdir}/replay/{prop}-{hashlib.sha1(json.dumps(viol["choices"]).encode()).hexdigest()[:10]}.json'
        with open(path, 'w') as fh: json.dump(viol, fh, indent=1)
        print(f"violated: model {viol['model']} ({viol['variant']}): {viol['key']}: {viol['message']}")
        print('\n'.join(viol['trace'].split('\n')[-40:]))
        print(f'replay with: python3 {V}/run.py {prop} --replay {path}')
        print(f'VIOLATION property={prop} replay={path}')
        return 1
    prune_builds()
    return 2 if err else 0

def evidence(prop, c, tier, results, viol, wall):
    ms = [(r['variant'], m) for r in results for m in r['models']]
    first = [m for v, m in ms if v == results[0]['variant']]
    samples = []
    for m in first:
        samples += [{'model': m['model'], 'execution': s} for s in m['samples'][:2]]
    tot = lambda k, xs: sum(m[k] for m in xs)
    cov = {
        'states': tot('states', first),
        'transitions': tot('transitions', first),
        'traces_validated_against_impl': sum(m['executions'] for _, m in ms),
        'evaluations': tot('executions', first),
        'distinct_nontrivial': tot('outcomes', first),
        'distinct_outcomes': tot('outcomes', first),
        'rule': 'executions are all sequences of harness choices (bounds in DESIGN.md), run on the real code; states are distinct hashes of the reference-model state, distinct outcomes are distinct hashes of everything an execution observed',
        'executions_with_injected_faults': tot('with_faults', first),
        'exhaustive': not viol and all(not m['capped'] and not m['overflow'] for _, m in ms),
        'models': [dict({k: m[k] for k in ('model', 'what', 'executions', 'pruned', 'states', 'outcomes', 'transitions', 'with_faults', 'max_choices', 'capped', 'wall_s')}, variant=v) for v, m in ms],
        'samples': samples[:6],
    }
    return {'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': c['level'], 'coverage': cov,
            'assumptions': c.get('assumptions', []) + ['gcc 13 x86-64 builds (-O2 plain and -O2 -fsanitize=address) represent the program', 'the mri core and CrashCatcher.h stand-ins in /verif/standin represent the missing submodules'],
            'wall_s': round(wall, 2), 'violations': 1 if viol else 0}

sys.exit(main())
