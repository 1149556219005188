#!/usr/bin/env python3
"""Runs the check of one property: builds the drivers from /repo's working tree, runs them, judges what they observed.

usage: run.py PROPERTY [quick|thorough]
exit: 0 - held on everything observed, 1 - violated (with VIOLATION lines), 3 - the check itself failed.
"""
import sys, os, re, json, time, shutil, signal, subprocess, tempfile, hashlib, itertools
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'src'))
import jobs as J

REPO = os.environ.get('VERIF_REPO', '/repo')
CPUS = int(os.environ.get('VERIF_CPUS', '8'))

SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
CONFIGS = {
    # name: (compiler and flags, description)
    'a':   (['clang++', '-std=c++11', '-O0', '-g1', '-DNDEBUG'] + SAN, 'C++11, no assertions, ASan+UBSan'),
    'b':   (['clang++', '-std=c++20', '-O0', '-g1'] + SAN, 'C++20, assertions, ASan+UBSan'),
    'bn':  (['clang++', '-std=c++20', '-O0', '-g1', '-DCXON_USE_SIMD=0'] + SAN, 'C++20, assertions, no SIMD, ASan+UBSan'),
    'c':   (['clang++', '-std=c++17', '-O0', '-g1'] + SAN, 'C++17, assertions, ASan+UBSan'),
    'v':   (['clang++', '-std=c++17', '-O0', '-g1', '-gdwarf-4'], 'C++17, assertions, under valgrind memcheck'),
    't':   (['clang++', '-std=c++17', '-O1', '-g1', '-fsanitize=thread'], 'C++17, assertions, ThreadSanitizer'),
    't11': (['clang++', '-std=c++11', '-O1', '-g1', '-DNDEBUG', '-fsanitize=thread'], 'C++11, no assertions, ThreadSanitizer'),
    'p':   (['clang++', '-std=c++17', '-O1', '-g1'], 'C++17, assertions, no sanitizer'),
    'o':   (['g++', '-std=c++20', '-O2', '-g1', '-w', '-DNDEBUG'] + SAN, 'g++ C++20 -O2, no assertions, ASan+UBSan'),
    'o11': (['g++', '-std=c++11', '-O2', '-g1', '-w'] + SAN, 'g++ C++11 -O2, assertions, ASan+UBSan'),
    'o17': (['clang++', '-std=c++17', '-O2', '-g1', '-DNDEBUG'] + SAN, 'clang++ C++17 -O2, no assertions, ASan+UBSan'),
}
ENV = dict(os.environ,
    ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=1:max_allocation_size_mb=2000',
    UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1:exitcode=77',
    TSAN_OPTIONS='halt_on_error=1:exitcode=77:second_deadlock_stack=1',
    LC_ALL='C', TMPDIR='/tmp')

class Broken(Exception): pass

def sh(cmd, timeout, **kw):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, start_new_session=True, **kw)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode('latin-1'), e.decode('latin-1'), False
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        o, e = p.communicate()
        return p.returncode, o.decode('latin-1'), e.decode('latin-1'), True

# ------------------------------------------------------------------ building

def build_id(job, cfg, defs): return '%s.%s.%s' % (job['src'].replace('.cxx', ''), cfg, '_'.join('%s%s' % d for d in defs))

def build(unit, tmp):
    job, cfg, defs = unit
    exe = os.path.join(tmp, build_id(job, cfg, defs))
    cmd = CONFIGS[cfg][0] + ['-D%s=%s' % d for d in defs] + job.get('flags', []) + \
        ['-I', os.path.join(REPO, 'src'), '-I', os.path.join(HERE, 'src'), '-w', os.path.join(HERE, 'src', job['src']), '-o', exe] + job.get('libs', [])
    t = time.time()
    rc, o, e, tmo = sh(cmd, 800)
    if rc != 0 or tmo:
        rows = [l for l in e.split('\n') if 'error' in l][:8] or e.split('\n')[-8:]
        raise Broken('building %s failed:\n%s\n%s' % (os.path.basename(exe), ' '.join(cmd), '\n'.join(rows)))
    return exe, time.time() - t

# ------------------------------------------------------------------ running

def crash_kind(rc, err):
    for pat, name in (
        (r'ERROR: AddressSanitizer: ([\w-]+)', 'asan:'), (r'runtime error: ([^\n]*)', 'ubsan:'), (r'WARNING: ThreadSanitizer: ([^\n(]*)', 'tsan:'),
        (r"Assertion `([^\n]*)' failed", 'assert:'), (r'MON: terminate:? ?([^\n]*)', 'terminate:'), (r'==\d+== (Conditional jump[^\n]*|Use of uninit[^\n]*|Invalid [^\n]*|Syscall param[^\n]*|Process terminating[^\n]*|Source and destination[^\n]*|Argument [^\n]*|Invalid free[^\n]*|Mismatched free[^\n]*)', 'memcheck:')):
        m = re.search(pat, err)
        if m: return name + re.sub(r'0x[0-9a-f]+|\d{3,}', '#', m.group(1)).strip()[:120]
    if rc == -signal.SIGALRM: return 'hang'
    if rc == -signal.SIGKILL: return 'killed'
    if rc < 0: return 'signal:' + signal.Signals(-rc).name
    return None

def read_rec(path):
    try:
        d = open(path, 'rb').read()
        idx = int.from_bytes(d[0:8], 'little'); site = d[8:200].split(b'\0')[0].decode('latin-1')
        n = int.from_bytes(d[200:204], 'little'); return idx, site, d[204:204 + min(n, 65536)].hex()
    except Exception:
        return None, '', ''

def run_shard(sh_, tmp, seed, deadline):
    job, cfg, defs, exe, mode, start, count, n = sh_
    base = os.path.join(tmp, 'run.%d' % n)
    out, rec, dig = base + '.out', base + '.rec', base + '.dig'
    cmd = [exe, mode, '--seed', str(seed), '--start', str(start), '--count', str(count), '--out', out, '--rec', rec, '--alarm', str(job.get('alarm', 60))]
    if job.get('arg'): cmd += ['--arg', job['arg']]
    if job.get('digests'): cmd += ['--digests', dig]
    if cfg == 'v': cmd = ['valgrind', '-q', '--error-exitcode=99', '--exit-on-first-error=yes', '--leak-check=no', '--undef-value-errors=yes'] + cmd
    if job.get('prlimit'): cmd = ['prlimit'] + job['prlimit'] + ['--'] + cmd
    r = dict(job=job, cfg=cfg, defs=defs, mode=mode, start=start, count=count, viols=[], stats=None, dig=dig if job.get('digests') else None, cmd=cmd)
    left = deadline - time.time()
    rc, o, e, tmo = sh(cmd, max(5, left))
    ev = []
    try:
        for l in open(out, encoding='latin-1'):
            try: ev.append(json.loads(l))
            except ValueError: pass
    except FileNotFoundError: pass
    for x in ev:
        if x['ev'] == 'viol': r['viols'].append(x)
        else: r['stats'] = x
    if tmo: r['inconclusive'] = 'out of time'; return r
    if rc != 0:
        kind = crash_kind(rc, e)
        idx, site, inp = read_rec(rec)
        if kind is None or kind == 'killed' or idx is None or (site == '' and inp == '' and rc in (64, 65)):
            r['inconclusive'] = 'exit %s: %s' % (rc, (o + e)[-600:])
        else:
            det = e[-3000:] if cfg == 'v' else e[:3000]
            if kind == 'hang': # confirm
                only = [x for x in cmd]; i = only.index('--start'); only[i:i + 4] = ['--only', str(idx)]
                j = only.index('--alarm'); only[j + 1] = str(2 * job.get('alarm', 60))
                rc2, o2, e2, t2 = sh(only, 4 * job.get('alarm', 60))
                if rc2 == 0: r['inconclusive'] = 'case %d took too long once' % idx; return r
            r['viols'].append(dict(key='crash:' + kind, mode=mode, idx=idx, seed=seed, site=site, input=inp, detail=det))
    elif r['stats'] is None:
        r['inconclusive'] = 'no statistics'
    if os.path.exists(out): os.unlink(out)
    if os.path.exists(rec): os.unlink(rec)
    return r

# ------------------------------------------------------------------ known findings

def known_findings():
    ks = []
    for l in open(os.path.join(HERE, 'known-findings.txt'), encoding='utf-8'):
        m = re.match(r'finding: property=(\S+) key=(\S+) site=(".*?") input=(\S*) (.*)', l.strip())
        if m: ks.append(dict(property=m.group(1), key=m.group(2), site=json.loads(m.group(3)), input=m.group(4), what=m.group(5), hit=0))
    return ks

def main():
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    limit = 840 if tier == 'quick' else int(os.environ.get('VERIF_LIMIT', '5400'))
    spec = J.PROPS[prop]
    js = [dict(j) for j in spec['jobs'] if tier in j.get('tiers', ('quick', 'thorough'))]
    tmp = tempfile.mkdtemp(prefix='verif.%s.' % prop)
    try:
        return check(prop, tier, seed, t0, limit, spec, js, tmp)
    finally:
        if os.environ.get('VERIF_KEEP'): print('kept', tmp)
        else: shutil.rmtree(tmp, ignore_errors=True)

def check(prop, tier, seed, t0, limit, spec, js, tmp):
    units = {}
    for j in js:
        j['cfgs_'] = j['cfgs'] + (j.get('tcfgs', []) if tier == 'thorough' else [])
        for cfg in j['cfgs_']:
            for defs in j['defs']:
                if (cfg, defs) in j.get('skip', ()): continue
                units.setdefault(build_id(j, cfg, defs), (j, cfg, defs))
    deadline = t0 + limit
    results, built = [], {}
    n = itertools.count()
    with ThreadPoolExecutor(CPUS) as ex:
        # the most expensive to build first
        order = sorted(units.items(), key=lambda u: -u[1][0].get('cost', 1) * (3 if u[1][1].startswith('o') else 1))
        bf = {k: ex.submit(build, u, tmp) for k, u in order}
        try:
            for k, f in bf.items(): built[k] = f.result()
        except Broken as b:
            for f in bf.values(): f.cancel()
            print('ERROR', b); return 3
        tb = time.time()
        shards = []
        for j in js:
            for cfg in j['cfgs_']:
                for defs in j['defs']:
                    k = build_id(j, cfg, defs)
                    if k not in built: continue
                    for mode in j['modes']:
                        c = j['n'] if tier == 'quick' else j.get('t', j['n'] * 20)
                        if isinstance(c, dict): c = c[mode]
                        if cfg == 'v': c = max(1, c // 40) if 'nv' not in j else (j['nv'] if tier == 'quick' else j['nv'] * 10)
                        s = j.get('shards', 1 if len(j['defs']) * len(j['cfgs_']) * len(j['modes']) >= 12 else 4) if tier == 'quick' else j.get('tshards', 8)
                        s = max(1, min(s, c))
                        for i in range(s):
                            a, b = c * i // s, c * (i + 1) // s
                            shards.append((j, cfg, defs, built[k][0], mode, a, b - a, next(n)))
        shards.sort(key=lambda s: -(s[0].get('weight', 1) * (30 if s[1] == 'v' else 1)))
        results = list(ex.map(lambda s: run_shard(s, tmp, seed, deadline), shards))
    tr = time.time()

    viols, inconclusive = [], []
    for r in results:
        keys = r['job'].get('keys'); no = r['job'].get('nokeys')
        for v in r['viols']:
            v['cfg'] = r['cfg']; v['defs'] = r['defs']; v['src'] = r['job']['src']; v['arg'] = r['job'].get('arg'); v['alarm'] = r['job'].get('alarm', 60)
            if v['key'].startswith('crash:') or ((not keys or re.match(keys, v['key'])) and not (no and re.match(no, v['key']))): viols.append(v)
        if 'inconclusive' in r: inconclusive.append('%s %s %s %s: %s' % (r['job']['src'], r['cfg'], r['defs'], r['mode'], r['inconclusive']))

    # the same cases in different builds must have been observed the same
    compared = 0
    groups = {}
    for r in results:
        if r['dig'] and os.path.exists(r['dig']): groups.setdefault((r['job']['src'], r['defs'], r['mode'], r['start']), []).append(r)
    for g in groups.values():
        ref = None
        for r in g:
            d = {}
            for l in open(r['dig']):
                a = l.split()
                if len(a) == 3: d.setdefault((a[0], a[1]), []).append(a[2])
            if ref is None: ref, ref_r = d, r; continue
            bad = [k for k in d if k in ref and d[k] != ref[k]] + ([k for k in d if k not in ref] + [k for k in ref if k not in d] if 'inconclusive' not in r and 'inconclusive' not in ref_r and not r['viols'] and not ref_r['viols'] else [])
            compared += len([k for k in d if k in ref])
            for k in sorted(bad)[:2]:
                viols.append(dict(key='builds-differ', mode=r['mode'], idx=int(k[0]), seed=seed, site='%s vs %s' % (ref_r['cfg'], r['cfg']), input='', detail='the observation (tag %s) differs between the builds %s and %s' % (k[1], CONFIGS[ref_r['cfg']][1], CONFIGS[r['cfg']][1]), cfg=r['cfg'], defs=r['defs'], src=r['job']['src'], arg=r['job'].get('arg'), alarm=60))

    # verdict
    known = [k for k in known_findings() if k['property'] == prop]
    fresh = []
    for v in viols:
        k = next((k for k in known if k['key'] == v['key'] and k['site'] == v['site'] and k['input'] == v['input']), None)
        if k: k['hit'] += 1
        else: fresh.append(v)
    for k in known:
        if k['hit']: print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    ev, di, counters, samples, modes = 0, {}, {}, [], set()
    for r in results:
        s = r['stats']
        if not s: continue
        ev += s['evaluations']
        kk = (r['job']['src'], r['defs'], r['mode'], r['start']); di[kk] = max(di.get(kk, 0), s['distinct'])
        for c, m in s['counters'].items(): counters[c] = counters.get(c, 0) + m
        modes.add((r['job']['src'], r['mode'], r['cfg']))
        if len(samples) < 24: samples += ['%s: %s' % (r['mode'], x) for x in s['samples'][(3 * len(samples)) % max(1, len(s['samples'])):][:1]]
    evid = dict(property=prop, tier=tier, seed=seed, level=spec.get('level', 'exploration'),
        coverage=dict(evaluations=ev, distinct_nontrivial=sum(di.values()), rule=spec['rule'], samples=samples or ['none'], counters=counters,
            runs=sorted('%s %s (%s)' % (s, m, CONFIGS[c][1]) for s, m, c in modes), shards=len(results), builds=len(built), cross_build_comparisons=compared,
            inconclusive_shards=inconclusive, build_s=round(tb - t0, 1), run_s=round(tr - tb, 1)),
        assumptions=spec.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=len(fresh))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f: json.dump(evid, f, indent=1)

    if fresh:
        seen = set(); os.makedirs(os.path.join(HERE, 'replay'), exist_ok=True)
        for v in fresh:
            k = (v['key'], v['site'])
            if k in seen or len(seen) >= 12: continue
            seen.add(k)
            path = os.path.join(HERE, 'replay', '%s-%s.json' % (prop, hashlib.sha1(repr(k).encode()).hexdigest()[:10]))
            v['property'] = prop; v['config'] = ' '.join(CONFIGS[v['cfg']][0])
            v['how'] = 'python3 /verif/replay.py ' + path
            with open(path, 'w') as f: json.dump(v, f, indent=1)
            print('  %s [%s] %s %s: %s' % (v['key'], v['site'], v['src'], v['cfg'], v['detail'][:1500].replace('\n', '\n    ')))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if inconclusive:
        print('ERROR inconclusive:', *inconclusive[:10], sep='\n  '); return 3
    need = spec.get('need', {})
    for c, m in need.items():
        if sum(x for y, x in counters.items() if re.match(c, y)) < m: print('ERROR too little observed: %s < %d' % (c, m)); return 3
    if not ev or not di: print('ERROR nothing observed'); return 3
    print('%s %s: held on %d evaluations (%d distinct), build %.0f s, run %.0f s' % (prop, tier, ev, sum(di.values()), tb - t0, tr - tb))
    return 0

if __name__ == '__main__':
    try: sys.exit(main())
    except Exception as e:
        import traceback; traceback.print_exc(); sys.exit(3)
