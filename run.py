#!/usr/bin/env python3
"""usage: run.py PROPERTY [quick|thorough]      decide one property on /repo's current tree
          run.py --replay FILE                  run one recorded violation again, with its trace
Exit 0: held on everything explored.  Exit 1: VIOLATION line.  Anything else: the check itself failed."""
import atexit, sys, os, json, subprocess, time, shutil, glob, hashlib
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
OUT = os.path.join(HERE, 'out')
from checks import CHECKS, BUILDS

CXX = 'g++-10'
BASE = ['-std=c++11', '-g1', '-w', '-DMG_ERRROR_LOG=1', '-I' + REPO + '/src', '-I' + REPO + '/src/b64/include', '-I' + HERE + '/lib', '-I' + HERE + '/harness']

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **kw)
    if r.returncode:
        sys.stdout.write('BUILD FAILED: %s\n%s\n' % (' '.join(cmd), r.stdout[-6000:]))
        sys.exit(2)
    return r.stdout

def repo_sources(kind):
    g = lambda p: sorted(glob.glob(os.path.join(REPO, 'src', p)))
    if kind == 'core':
        return g('mg/core/*.cpp') + g('mg/core/nx/*.cpp')
    if kind == 'b64':
        return g('b64/src/*.cpp')
    if kind == 'crc':
        return g('mg/media/wincrc.cpp')
    raise KeyError(kind)

# calls of the code under test that the virtual runtime takes over
REDIRECT = ['pthread_mutex_init', 'pthread_mutex_destroy', 'pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_mutex_trylock',
            'pthread_mutexattr_init', 'pthread_mutexattr_destroy', 'pthread_mutexattr_settype',
            'pthread_cond_init', 'pthread_cond_destroy', 'pthread_cond_signal', 'pthread_cond_broadcast', 'pthread_cond_wait', 'pthread_cond_timedwait',
            'pthread_create', 'pthread_join', 'pthread_self', 'sched_yield', 'usleep', 'nanosleep',
            'memcpy', 'memmove', 'memset']

def build(name, dirp):
    b = BUILDS[name]
    mode = b['mode']
    os.makedirs(dirp, exist_ok=True)
    if mode == 'asan':
        fl = ['-O1', '-fsanitize=address', '-fno-omit-frame-pointer']
        lib = [HERE + '/lib/mc.cpp']
        instr, plain = [], lib
        link = ['-fsanitize=address', '-luv', '-lpthread', '-ldl']
    elif mode == 'vs':
        fl = ['-O1', '-fno-builtin', '-fno-inline-small-functions', '-fsanitize=thread']
        plain = [HERE + '/lib/mc.cpp', HERE + '/lib/vs.cpp']
        link = ['-lpthread', '-ldl', '-rdynamic']
    elif mode == 'opt':
        fl = ['-O2']
        plain = [HERE + '/lib/mc.cpp']
        link = ['-luv', '-lpthread', '-ldl']
    extra = b.get('flags', [])
    gen_inc = []
    if b.get('gen'):
        gen_inc = b['gen'](dirp, REPO, HERE, sh)
    srcs = [os.path.join(HERE, 'harness', s) for s in b['src']]
    for k in b.get('repo', []):
        srcs += repo_sources(k)
    for s in b.get('repo_files', []):
        srcs.append(os.path.join(REPO, s))
    for s in b.get('gen_src', []):
        srcs += sorted(glob.glob(os.path.join(dirp, s)))
    jobs = []
    for s in srcs:
        o = os.path.join(dirp, hashlib.md5(s.encode()).hexdigest()[:8] + '_' + os.path.basename(s) + '.o')
        jobs.append((s, o, fl, True))
    for s in plain:
        o = os.path.join(dirp, os.path.basename(s) + '.o')
        jobs.append((s, o, ['-O2'] + (['-fno-omit-frame-pointer'] if mode == 'vs' else []), False))
    def one(j):
        s, o, f, redirect = j
        sh([CXX] + BASE + f + extra + gen_inc + ['-c', s, '-o', o])
        if mode == 'vs' and redirect:
            cmd = ['objcopy']
            for r in REDIRECT:
                cmd += ['--redefine-sym', '%s=vs_%s' % (r, r)]
            sh(cmd + [o])
        return o
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, jobs))
    exe = os.path.join(dirp, name)
    sh([CXX] + objs + link + b.get('link', []) + ['-o', exe])
    return exe

def env():
    e = dict(os.environ)
    e['ASAN_OPTIONS'] = 'detect_leaks=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=1:max_allocation_size_mb=1024'
    e['LANG'] = 'C.UTF-8'; e['TZ'] = 'UTC'
    s = '/dev/shm/verif.%d' % os.getpid()       # scratch files of the command line tool: in memory where possible
    try:
        f = os.statvfs('/dev/shm')
        if f.f_bavail * f.f_frsize < 4 << 30: return e       # too small: beside the build
        if not os.path.isdir(s): os.mkdir(s, 0o700); atexit.register(shutil.rmtree, s, ignore_errors=True)
        e['VERIF_SCRATCH'] = s + '/'
    except OSError: pass
    return e

def findings():
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p): return []
    return json.load(open(p)).get('known', [])

def main():
    if len(sys.argv) >= 3 and sys.argv[1] == '--replay':
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    c = CHECKS[prop]
    t0 = time.time()
    total = {'executions': 0, 'transitions': 0, 'states': 0, 'outcomes': 0, 'units': 0, 'complete': 0, 'incomplete': 0, 'max_choices': 0}
    samples, units, viols = [], [], []
    budget = float(os.environ.get('VERIF_BUDGET', '640' if tier == 'quick' else '780'))
    for bname in c['builds']:
        d = os.path.join(OUT, prop, bname)
        shutil.rmtree(d, ignore_errors=True)
        exe = build(bname, d)
        left = max(30.0, budget - (time.time() - t0))
        cmd = [exe, '--prop', prop, '--tier', tier, '--seed', str(seed), '--dir', d, '--out', d + '/result.json', '--budget', '%.0f' % left]
        r = subprocess.run(cmd, env=env(), cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
        if r.returncode not in (0, 1):
            print('CHECK ERROR %s: exit %d\n%s' % (bname, r.returncode, r.stdout[-4000:]))
            sys.exit(2)
        res = json.load(open(d + '/result.json'))
        for k in ('executions', 'transitions', 'states', 'outcomes', 'units', 'complete', 'incomplete'):
            total[k] += res[k]
        total['max_choices'] = max(total['max_choices'], res['max_choices'])
        samples += res['samples']
        units += res['unit_list']
        for v in res['violations']:
            v['build'] = bname
            viols.append(v)
        if viols: break
    known = [k for k in findings() if k['property'] == prop]
    reported = []
    for v in viols:
        reported.append(v)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': c['level'], 'wall_s': round(time.time() - t0, 2), 'violations': len(reported),
          'assumptions': c.get('assumptions', []),
          'coverage': {'exhaustive': total['incomplete'] == 0, 'samples': samples[:6] or [{'note': 'stopped at a violation'}],
                       'states': total['states'], 'transitions': total['transitions'], 'traces_validated_against_impl': total['executions'],
                       'evaluations': total['executions'], 'distinct_nontrivial': total['outcomes'], 'rule': c['rule'],
                       'distinct_outcomes': total['outcomes'], 'units': total['units'], 'units_complete': total['complete'], 'units_capped': total['incomplete'],
                       'longest_choice_sequence': total['max_choices'], 'unit_list': units[:80], 'bounds': c['bounds'][tier] if isinstance(c.get('bounds'), dict) else c.get('bounds', '')}}
    os.makedirs(HERE + '/evidence', exist_ok=True)
    json.dump(ev, open(HERE + '/evidence/%s.json' % prop, 'w'), indent=1)
    for b in c['builds']:
        d = os.path.join(OUT, prop, b)
        if not reported:
            shutil.rmtree(d, ignore_errors=True)
    print('%s %s: units=%d (capped %d) executions=%d transitions=%d states=%d outcomes=%d wall=%.1fs' % (prop, tier, total['units'], total['incomplete'], total['executions'], total['transitions'], total['states'], total['outcomes'], time.time() - t0))
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    if reported:
        for i, v in enumerate(reported):
            rp = os.path.join(OUT, 'replay', '%s-%d.json' % (prop, i))
            os.makedirs(os.path.dirname(rp), exist_ok=True)
            json.dump({'property': prop, 'build': v['build'], 'unit': v['unit'], 'message': v['message'], 'trail': v['trail'], 'aux': v['aux'], 'tier': tier, 'trace': v['trace'].split('\n')}, open(rp, 'w'), indent=1)
            print('  unit %s: %s' % (v['unit'], v['message'][:1500]))
            print('VIOLATION property=%s replay=%s' % (prop, rp))
        sys.exit(1)
    sys.exit(0)

def replay(path):
    v = json.load(open(path))
    d = os.path.join(OUT, 'replay', 'build')
    shutil.rmtree(d, ignore_errors=True)
    exe = build(v['build'], d)
    tf = d + '/trail.txt'
    with open(tf, 'w') as f:
        f.write(v['unit'] + '\n')
        f.write('aux %d %s\n' % (len(v['aux']), ' '.join(map(str, v['aux']))))
        for n, x, dev in v['trail']: f.write('%d %d %d\n' % (n, x, dev))
    r = subprocess.run([exe, '--prop', v['property'], '--tier', v['tier'], '--dir', d, '--replay', tf], env=env(), cwd=d)
    sys.exit(r.returncode)

if __name__ == '__main__':
    main()
