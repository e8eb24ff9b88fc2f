#!/usr/bin/env python3
"""Builds the harness of one property from /repo's working tree, runs it and judges the result.

  check.py <ID> [--tier quick|thorough]     decide one property
  check.py --replay FILE                    run the case of a replay file again
  check.py --setup                          check the toolchain

Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.  Anything else: error of the check.
"""
import array, fcntl, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(ROOT, 'build')
H = os.path.join(ROOT, 'harness')
sys.path.insert(0, os.path.join(ROOT, 'tools'))
from table import PROPS
from modules import MODULES

NCPU = os.cpu_count() or 8
LIBDIR = '/usr/lib/x86_64-linux-gnu'
BASE = ['-DTORSION_HAVE_CONFIG', '-DTORSION_HAVE_PTHREAD', '-DTORSION_TLS=__thread', '-DTORSION_HAVE_RNG', '-D_GNU_SOURCE']
D64 = BASE + ['-DTORSION_HAVE_ASM', '-DTORSION_HAVE_INT128']
LIMB32 = ['-include', H + '/limb32.h']   # 32-bit backends get 32-bit limbs too
D32 = BASE + LIMB32
DBG = ['-DTORSION_DEBUG', '-DTORSION_VERIFY', '-DBUILDING_NODE_EXTENSION']
SAN = ['-O1', '-g', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize-recover=all']
MSAN = ['-O1', '-g', '-fno-omit-frame-pointer', '-fsanitize=memory', '-fsanitize-memory-track-origins', '-fno-sanitize-recover=all']
TSAN = ['-O1', '-g', '-fno-omit-frame-pointer', '-fsanitize=thread']
CONFIGS = {
    # name: compiler, C++ compiler, flags (library and harness), library defines, sanitizer?
    'san64': ('clang', 'clang++', SAN, D64 + DBG, True),
    'san32': ('clang', 'clang++', SAN, D32 + DBG, True),
    'fast64': ('gcc', 'g++', ['-O2', '-g1'], D64, False),
    'fast32': ('gcc', 'g++', ['-O2', '-g1'], D32, False),
    'clang64': ('clang', 'clang++', ['-O3', '-g1'], D64, False),
    'clang32': ('clang', 'clang++', ['-O2', '-g1'], D32, False),
    'asm32': ('gcc', 'g++', ['-O3', '-g1'], BASE + ['-DTORSION_HAVE_ASM'], False),
    'lock64': ('gcc', 'g++', ['-O2', '-g1'], [d for d in D64 if 'TORSION_TLS' not in d] + ['-DTORSION_HAVE_RNG'], False),   # one shared generator behind a mutex
    'msan64': ('clang', 'clang++', MSAN, [d for d in D64 if d != '-DTORSION_HAVE_ASM'] + DBG, True),
    'msan32': ('clang', 'clang++', MSAN, D32 + DBG, True),
    'port64': ('gcc', 'g++', ['-O3', '-g1'], [d for d in D64 if d != '-DTORSION_HAVE_ASM'], False),   # 64-bit code without assembly
    'plain': ('clang', 'clang++', ['-O0', '-g1'], BASE, False),   # whatever the headers choose by themselves
    'tsan64': ('clang', 'clang++', TSAN, D64, True),
    'tsan32': ('clang', 'clang++', TSAN, D32, True),
    'tsanlock': ('clang', 'clang++', TSAN, [d for d in D64 if 'TORSION_TLS' not in d], True),
}
LIBS = ['-lcrypto', '-lgmp', LIBDIR + '/libgcrypt.so.20', LIBDIR + '/libnettle.so.8', '-lcrypt', '-lpthread', '-ldl']


class CheckError(Exception):
    pass


def tree_hash():
    h = hashlib.sha256()
    for d in ('src', 'include'):
        for base, dirs, files in os.walk(os.path.join(REPO, d)):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(base, f)
                h.update(os.path.relpath(p, REPO).encode() + b'\0')
                with open(p, 'rb') as fh:
                    h.update(fh.read())
                h.update(b'\0')
    return h.hexdigest()[:16]


def harness_hash(files):
    h = hashlib.sha256()
    for p in sorted(files):
        with open(p, 'rb') as fh:
            h.update(p.encode() + b'\0' + fh.read())
    return h.hexdigest()[:16]


def flag_hash(*parts):
    with open(H + '/limb32.h') as f:
        return hashlib.sha256(repr((parts, f.read())).encode()).hexdigest()[:8]


def lib_sources():
    src = sorted(glob.glob(REPO + '/src/*.c') + glob.glob(REPO + '/src/entropy/*.c'))
    if not src:
        raise CheckError('no library sources in ' + REPO)
    return src


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def compile_one(job):
    cmd, out = job
    if os.path.exists(out):
        return None
    tmp = '%s.%d.tmp' % (out, os.getpid())
    r = run(cmd + ['-o', tmp])
    if r.returncode:
        return '%s\n%s' % (' '.join(cmd), r.stdout[-3000:])
    os.rename(tmp, out)
    return None


def prune():
    try:
        dirs = [os.path.join(BUILD, d) for d in os.listdir(BUILD) if d.startswith('t-')]
        dirs.sort(key=os.path.getmtime)
        for d in dirs[:-6]:
            shutil.rmtree(d, ignore_errors=True)
    except OSError:
        pass


def build(mods, configs, extra=None):
    """Builds module executables. mods: list of module names. Returns {(module, config): path}."""
    os.makedirs(BUILD, exist_ok=True)
    th = tree_hash()
    tdir = os.path.join(BUILD, 't-' + th)
    os.makedirs(tdir, exist_ok=True)
    os.utime(tdir)
    prune()
    hdrs = glob.glob(H + '/*.hpp') + glob.glob(H + '/*.h')
    hh = harness_hash(hdrs)
    jobs, link = [], []
    missing = []
    late = []
    for cname in configs:
        cc, cxx, flags, defs, san = CONFIGS[cname]
        cdir = os.path.join(tdir, cname + '-' + flag_hash(cc, flags, defs))
        os.makedirs(cdir, exist_ok=True)
        objs = []
        for s in lib_sources():
            o = os.path.join(cdir, os.path.relpath(s, REPO + '/src').replace('/', '_')[:-2] + '.o')
            job = ([cc] + flags + defs + ['-I' + REPO + '/include', '-c', s], o)
            objs.append(o)
            if all(os.path.basename(s) in MODULES[m].get('skip', []) for m in mods):
                late.append(job)
            else:
                jobs.append(job)
        for m in mods:
            spec = MODULES[m]
            mo = []
            for s in ['vh.cpp'] + spec['src']:
                sp = os.path.join(H, s)
                with open(sp, 'rb') as fh:
                    key = hashlib.sha256(fh.read() + hh.encode() + repr((spec.get('defs', []), spec.get('clang'))).encode()).hexdigest()[:12]
                o = os.path.join(cdir, 'h_%s_%s.o' % (s.replace('.', '_'), key))
                comp = cxx if s.endswith('.cpp') else cc
                std = ['-std=c++17'] if s.endswith('.cpp') else []
                hflags = flags
                if spec.get('clang') and comp == 'g++':      # one compiler for the harness: the order of evaluation of its own arguments must not differ
                    comp = 'clang++'
                if cname.startswith('san'):
                    hflags = [f.replace('address,undefined', 'address') for f in flags]
                if cname.startswith('msan'):
                    hflags = flags + ['-fsanitize-ignorelist=' + H + '/msan.ignore']
                job = ([comp] + std + hflags + spec.get('defs', []) + defs + ['-I' + REPO + '/include', '-I' + H, '-DREPO_SRC="%s/src"' % REPO, '-c', sp], o)
                if s in spec.get('optional', []):
                    missing.append((job, mo))
                else:
                    jobs.append(job)
                    mo.append(o)
            exe = os.path.join(cdir, 'm_%s_%s' % (m, hashlib.sha256((''.join(mo) + hh).encode()).hexdigest()[:12]))
            link.append((m, cname, cxx, flags, mo, objs, exe, spec))
    seen, uniq = set(), []
    order = {'ecc.o': 0, 'cipher.o': 1, 'mpi.o': 2, 'hash.o': 3}
    for cmd, o in jobs:
        if o not in seen:
            seen.add(o)
            uniq.append((cmd, o))
    uniq.sort(key=lambda j: (order.get(os.path.basename(j[1]), 4) if 'h_' not in os.path.basename(j[1]) else 1))
    with ThreadPoolExecutor(NCPU) as ex:
        optres = [ex.submit(compile_one, j) for j, mo in missing]
        errs = [e for e in ex.map(compile_one, uniq) if e]
        notes = []
        for (j, mo), r in zip(missing, optres):
            e = r.result()
            if e:
                notes.append('optional white-box part not built: ' + e.splitlines()[-1] if e else '')
            else:
                mo.append(j[1])
    if errs:
        raise CheckError('compilation failed:\n' + errs[0])
    out = {}

    def do_link(l):
        m, cname, cxx, flags, mo, objs, exe, spec = l
        exe += hashlib.sha256(''.join(mo).encode()).hexdigest()[:6]
        if not os.path.exists(exe):
            tmp = '%s.%d.tmp' % (exe, os.getpid())
            lobjs = [o for o in objs if os.path.basename(o) not in spec.get('replaces', [])] if any('h_' + x.replace('.', '_') in ' '.join(mo) for x in spec.get('optional_replaces', ['?'])) else objs
            r = run([cxx] + flags + mo + [o for o in lobjs if os.path.exists(o)] + ['-o', tmp] + spec.get('libs', LIBS) + ['-Wl,--wrap=' + w for w in spec.get('wrap', [])])
            if r.returncode and late:
                # the files left out turned out to be needed
                e = [x for x in map(compile_one, [j for j in late if os.path.dirname(j[1]) == os.path.dirname(exe)]) if x]
                r = run([cxx] + flags + mo + lobjs + ['-o', tmp] + spec.get('libs', LIBS) + ['-Wl,--wrap=' + w for w in spec.get('wrap', [])])
            if r.returncode:
                return (m, cname), None, r.stdout[-3000:]
            os.rename(tmp, exe)
        return (m, cname), exe, None
    with ThreadPoolExecutor(NCPU) as ex:
        for k, exe, e in ex.map(do_link, link):
            if e:
                raise CheckError('link failed for %s:\n%s' % (k, e))
            out[k] = exe
    return out, notes


def san_env():
    e = dict(os.environ)
    sup = os.path.join(ROOT, 'tools', 'ubsan.supp')
    e['ASAN_OPTIONS'] = 'abort_on_error=0:exitcode=95:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1:strict_string_checks=1'
    e['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1:exitcode=95'
    e['MSAN_OPTIONS'] = 'exitcode=95:halt_on_error=1'
    e['TSAN_OPTIONS'] = 'exitcode=95:halt_on_error=1:second_deadlock_stack=1'
    e['LC_ALL'] = 'C'
    e.pop('OPENSSL_CONF', None)
    e['OPENSSL_CONF'] = '/dev/null'
    return e


def summarize_crash(err, rc):
    m = re.search(r'(AddressSanitizer|MemorySanitizer|ThreadSanitizer|UndefinedBehaviorSanitizer): ([a-zA-Z-]+)', err)
    if 'VH-HANG' in err:
        return 'hang'
    m2 = re.search(r'runtime error: ([a-z A-Z-]+)', err)
    where = ''
    for l in err.splitlines():
        mm = re.search(r'#\d+ 0x[0-9a-f]+ in (\S+) (\S*/src/\S+?):', l)
        if mm:
            where = mm.group(1)
            break
    if m2:
        return 'ubsan:%s:%s' % (m2.group(1).strip().replace(' ', '-')[:40], where)
    if m:
        return '%s:%s:%s' % (m.group(1).replace('Sanitizer', '').lower(), m.group(2), where)
    m = re.search(r'(ASSERT|Assertion|assert)[^\n]*', err)
    if m or rc == -signal.SIGABRT:
        return 'abort'
    return 'exit:%d' % rc


class Result:
    def __init__(self):
        self.evaluations = 0
        self.distinct = set()
        self.events = {}
        self.per_test = {}
        self.per_config = {}
        self.samples = []
        self.viols = []       # dicts: key, detail, replay
        self.notes = []
        self.errors = []      # inconclusive parts; only fatal when nothing was refuted

    def add_events(self, ev):
        for k, v in ev.items():
            self.events[k] = self.events.get(k, 0) + v


def replay_cmd(exe_args):
    return exe_args


def run_harness(mod, cname, exe, tier, seed, nshards, mult, scale, work, res, cpu=60, timeout=3600):
    """Runs all shards of one module/config; returns list of futures-like results."""
    san = CONFIGS[cname][4]
    jobs = []
    for sh in range(nshards):
        out = os.path.join(work, '%s-%s-%d' % (mod, cname, sh))
        args = ['--seed', str(seed), '--shard', str(sh), '--nshards', str(nshards), '--mult', str(mult), '--scale', str(scale),
                '--config', cname, '--out', out, '--progress', out + '.prog', '--cpu', str(cpu)]
        if san:
            args.append('--san')
        jobs.append((mod, cname, exe, args, out, timeout))
    return jobs


def run_job(exe, args, out, timeout, env=None):
    with open(out + '.err', 'wb') as ef:
        try:
            return subprocess.run([exe] + args, stdout=subprocess.DEVNULL, stderr=ef, env=dict(san_env(), **(env or {})), timeout=timeout, cwd=os.path.dirname(out)).returncode
        except subprocess.TimeoutExpired:
            return 'timeout'


def died_at(out):
    pr = open(out + '.prog', 'rb').read() if os.path.exists(out + '.prog') else b''
    return pr[:64].split(b'\0')[0].decode(), int.from_bytes(pr[64:72], 'little') if len(pr) >= 72 else 0


def exec_job(job):
    mod, cname, exe, args, out, timeout = job
    t0 = time.time()
    rc = run_job(exe, args, out, timeout)
    if rc == 97:
        # a case used up its CPU budget: a hang only if it does so again, alone and with three times the budget
        test, idx = died_at(out)
        opt = dict(zip(args[::2], args[1::2]))
        cpu = int(opt['--cpu'])
        rc2, _ = single(mod, cname, exe, int(opt['--seed']), test, idx, int(opt['--scale']), cpu * 3, os.path.dirname(out))
        if rc2 != 97:
            args = [str(cpu * 9) if i and args[i - 1] == '--cpu' else x for i, x in enumerate(args)]
            rc = run_job(exe, args, out, timeout)
    return rc, time.time() - t0


def single(mod, cname, exe, seed, test, idx, scale, cpu, work):
    out = os.path.join(work, 'single-%s-%s-%s-%d' % (mod, cname, test, idx))
    args = ['--seed', str(seed), '--config', cname, '--test', test, '--idx', str(idx), '--scale', str(scale), '--out', out, '--cpu', str(cpu), '--mult', '1e9']
    if CONFIGS[cname][4]:
        args.append('--san')
    try:
        p = subprocess.run([exe] + args, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=san_env(), timeout=cpu * 10 + 60, cwd=work)
    except subprocess.TimeoutExpired:
        return 'timeout', ''
    return p.returncode, p.stderr.decode('utf8', 'replace')


def harness_property(pid, spec, tier, seed, res, work):
    mods = spec['modules']
    mult0 = spec.get('mult', 1.0)
    configs = spec.get('configs', ['san64', 'san32', 'fast64', 'fast32'])
    exes, notes = build(mods, configs)
    res.notes += notes
    mult = mult0 * (spec.get('thorough', 12) if tier == 'thorough' else 1)
    scale = 3 if tier == 'thorough' else 1
    per = spec.get('shards', 2)
    if tier == 'thorough':
        per = max(per, 4)
    jobs = []
    for m in mods:
        for c in configs:
            jobs += run_harness(m, c, exes[(m, c)], tier, seed, per, mult, scale, work, res, cpu=spec.get('cpu', 30), timeout=spec.get('timeout', 780 if tier == 'quick' else 5400))
    jobs.sort(key=lambda j: 0 if CONFIGS[j[1]][4] else 1)
    with ThreadPoolExecutor(NCPU) as ex:
        outs = list(ex.map(exec_job, jobs))
    for job, (rc, dt) in zip(jobs, outs):
        mod, cname, exe, args, out, _ = job
        err = open(out + '.err', 'rb').read().decode('utf8', 'replace')
        if rc in (0, 98):
            j = json.load(open(out + '.json'))
            if j['cases'] and not j['evaluations']:
                raise CheckError('%s/%s observed nothing' % (mod, cname))
            res.evaluations += j['evaluations']
            a = array.array('Q')
            with open(out + '.dist', 'rb') as f:
                a.frombytes(f.read())
            res.distinct.update(a)
            res.add_events(j['events'])
            for k, v in j['per_test'].items():
                res.per_test[k] = res.per_test.get(k, 0) + v
            pc = res.per_config.setdefault(cname, {'evaluations': 0, 'cases': 0, 'cpu_wall_s': 0})
            pc['evaluations'] += j['evaluations']
            pc['cases'] += j['cases']
            pc['cpu_wall_s'] = round(pc['cpu_wall_s'] + dt, 1)
            for s in j['samples']:
                if len(res.samples) < 24 and s.split(':')[0] not in [x.split('] ')[1].split(':')[0] for x in res.samples]:
                    res.samples.append('[%s] %s' % (cname, s))
        if os.path.exists(out + '.viol'):
            for l in open(out + '.viol'):
                try:
                    v = json.loads(l)
                except ValueError:
                    continue
                v.update(module=mod, config=cname, seed=seed, scale=scale)
                res.viols.append(v)
        if rc in (0, 98):
            continue
        if rc == 'timeout':
            res.errors.append('%s/%s: wall-clock watchdog fired (inconclusive)' % (mod, cname))
            continue
        # the process died: find the case, run it alone once more
        test, idx = died_at(out)
        if not test or test == 'done' or rc == 96:
            raise CheckError('%s/%s: harness error rc=%s\n%s' % (mod, cname, rc, err[-2000:]))
        what = summarize_crash(err, rc)
        if what == 'hang':
            rc2, err2 = rc, err
        else:
            rc2, err2 = single(mod, cname, exe, seed, test, idx, scale, spec.get('cpu', 30) * 3, work)
        res.viols.append({'key': '%s:crash:%s' % (test, what), 'test': test, 'idx': idx, 'detail': (err2 or err)[-3000:], 'module': mod,
                          'config': cname, 'seed': seed, 'scale': scale, 'reproduced': rc2 not in (0,)})
    check_minimum(spec, res)


def check_minimum(spec, res):
    for k, n in spec.get('min_events', {}).items():
        if res.events.get(k, 0) < n and not res.viols and not res.errors:
            raise CheckError('monitor observed too few %s events: %d < %d' % (k, res.events.get(k, 0), n))


def load_known():
    p = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get('findings', [])


def decide(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    prop = [p for p in PROPS if p['id'] == pid][0]
    from specs import SPECS
    spec = SPECS[pid]
    res = Result()
    os.makedirs(BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix='run-%s-' % pid, dir=BUILD)
    try:
        runner = harness_property
        if 'runner' in spec:
            import runners
            runner = getattr(runners, spec['runner'])
        runner(pid, spec, tier, seed, res, work)
    finally:
        if not os.environ.get('VERIF_KEEP'):
            shutil.rmtree(work, ignore_errors=True)
    if res.evaluations == 0 and not res.viols and not res.errors:
        raise CheckError('no oracle evaluations')
    known = [k for k in load_known() if k['property'] == pid]
    hit, new = {}, {}
    for v in res.viols:
        k = next((k for k in known if re.fullmatch(k['key'], v['key'])), None)
        if k is not None:
            hit[k['key']] = k
        else:
            new.setdefault(v['key'], v)
    if res.errors and not new:
        raise CheckError('; '.join(res.errors))
    for k in hit.values():
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    rdir = os.path.join(ROOT, 'evidence', 'replay')
    shown = 0
    os.makedirs(rdir, exist_ok=True)
    for key in sorted(new):
        v = new[key]
        path = os.path.join(rdir, '%s-%s.json' % (pid, hashlib.sha256(key.encode()).hexdigest()[:10]))
        v['property'] = pid
        v['tier'] = tier
        with open(path, 'w') as f:
            json.dump(v, f, indent=1)
        if shown < 20:
            print('VIOLATION property=%s replay=%s' % (pid, path))
            print('  %s [%s] %s' % (key, v.get('config', ''), v.get('detail', '')[-600:].replace('\n', '\n  ')))
        shown += 1
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': prop.get('level', 'exploration'),
        'coverage': {
            'evaluations': res.evaluations, 'distinct_nontrivial': len(res.distinct), 'rule': spec['rule'],
            'samples': res.samples, 'events': res.events, 'per_test': res.per_test, 'per_config': res.per_config, 'notes': res.notes,
        },
        'assumptions': spec.get('assumptions', []) + ['Verdict: held on the executions counted here; says nothing about executions not produced.'],
        'wall_s': round(time.time() - t0, 1), 'violations': len(new),
    }
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d evaluations, %d distinct, %d new violations, %.0fs' % (pid, tier, res.evaluations, len(res.distinct), len(new), time.time() - t0))
    return 1 if new else 0


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    if a[0] == '--setup':
        for t in ('gcc', 'g++', 'clang', 'clang++', 'valgrind'):
            if not shutil.which(t):
                print('missing', t)
                return 2
        os.makedirs(BUILD, exist_ok=True)
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        print('setup ok')
        return 0
    if a[0] == '--build':
        exes, _ = build([a[1]], [a[2]])
        link = os.path.join(BUILD, 'last-%s-%s' % (a[1], a[2]))
        if os.path.lexists(link):
            os.unlink(link)
        os.symlink(exes[(a[1], a[2])], link)
        print(link)
        return 0
    if a[0] == '--replay':
        v = json.load(open(a[1]))
        if v.get('replay_cmd'):
            print('run:', v['replay_cmd'])
            return subprocess.call(v['replay_cmd'], shell=True)
        exes, _ = build([v['module']], [v['config']])
        work = tempfile.mkdtemp(dir=BUILD)
        rc, err = single(v['module'], v['config'], exes[(v['module'], v['config'])], v['seed'], v['test'], v['idx'], v['scale'], 180, work)
        print(err[-4000:])
        p = os.path.join(work, 'single-%s-%s-%s-%d.viol' % (v['module'], v['config'], v['test'], v['idx']))
        if os.path.exists(p):
            print(open(p).read())
        shutil.rmtree(work)
        print('reproduced' if rc else 'not reproduced', rc)
        return 1 if rc else 0
    pid = a[0]
    tier = 'quick'
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    try:
        return decide(pid, tier)
    except CheckError as e:
        print('CHECK-ERROR %s: %s' % (pid, e))
        return 2


if __name__ == '__main__':
    sys.path.insert(0, os.path.join(ROOT, 'tools'))
    sys.modules['check'] = sys.modules['__main__']
    sys.exit(main())
