"""Checks that are more than one run of one harness."""
import os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
import check

MEMORY = re.compile(r'.*:(crash:.*|buffer-overrun|input-modified|output-length|.*-overrun)')


def memory(pid, spec, tier, seed, res, work):
    """C23: the whole-API workload under ASan+UBSan and MSan, then every other harness under ASan+UBSan; C29: ownership of memory, in the same
    two stages. Only memory verdicts count."""
    judged = re.compile(spec['judged']) if 'judged' in spec else MEMORY
    for stage in spec['stages']:
        sub = dict(spec, min_events={}, **stage)
        before = len(res.viols)
        w = os.path.join(work, str(spec['stages'].index(stage)))
        os.makedirs(w)
        check.harness_property(pid, sub, tier, seed, res, w)
        keep = [v for v in res.viols[before:] if judged.fullmatch(v['key'])]
        other = len(res.viols) - before - len(keep)
        if other:
            res.notes.append('%d functional violations seen on the way belong to other properties' % other)
        res.viols[before:] = keep
    check.check_minimum(spec, res)


def transcripts(pid, spec, tier, seed, res, work):
    """C28: the same cases in every build; the transcripts of all results must agree case by case."""
    configs = spec['configs']
    exes, notes = check.build(['api'], configs)
    res.notes += notes
    mult = spec.get('mult', 1.0) * (spec.get('thorough', 12) if tier == 'thorough' else 1)
    shards = 2 if tier == 'quick' else 4
    jobs = []
    for c in configs:
        for j in check.run_harness('api', c, exes[('api', c)], tier, seed, shards, mult, 1, work, res, cpu=60, timeout=780 if tier == 'quick' else 5400):
            args = ['x' if i and j[3][i - 1] == '--config' else a for i, a in enumerate(j[3])]
            jobs.append(j[:3] + (args,) + j[4:])

    def go(j):
        return check.run_job(j[2], j[3], j[4], j[5], {'VH_TRANSCRIPT': j[4] + '.tr'})
    with ThreadPoolExecutor(check.NCPU) as ex:
        rcs = list(ex.map(go, jobs))
    import json
    tr = {c: {} for c in configs}
    for j, rc in zip(jobs, rcs):
        mod, c, exe, args, out, _ = j
        if rc not in (0, 98):
            test, idx = check.died_at(out)
            err = open(out + '.err', 'rb').read().decode('utf8', 'replace')
            if rc in ('timeout', 96) or not test or test == 'done':
                res.errors.append('api/%s: rc=%s %s' % (c, rc, err[-500:]))
            else:
                res.viols.append({'key': '%s:crash:%s' % (test, check.summarize_crash(err, rc)), 'test': test, 'idx': idx, 'detail': err[-2000:], 'module': 'api',
                                  'config': c, 'seed': seed, 'scale': 1})
        else:
            st = json.load(open(out + '.json'))
            res.add_events({'calls': st['events'].get('calls', 0), 'calls_accepted': st['events'].get('calls_accepted', 0)})
            pc = res.per_config.setdefault(c, {'cases': 0})
            pc['cases'] += st['cases']
            if c == configs[0]:
                for s in st['samples'][:24]:
                    if len(res.samples) < 24:
                        res.samples.append(s)
        if os.path.exists(out + '.tr'):
            for l in open(out + '.tr'):
                f = l.split()
                if len(f) == 3 and len(f[2]) == 16:
                    tr[c][(f[0], int(f[1]))] = f[2]
    ref = configs[0]
    shown = {}
    for key in sorted(tr[ref]):
        vals = {c: tr[c][key] for c in configs if key in tr[c]}
        if len(vals) < 2:
            continue
        res.evaluations += len(vals) - 1
        res.per_test[key[0]] = res.per_test.get(key[0], 0) + 1
        res.distinct.add(int(vals[ref], 16))
        if len(set(vals.values())) > 1:
            # the odd one out is shown against the majority
            maj = max(set(vals.values()), key=lambda v: (list(vals.values()).count(v), v == vals[ref]))
            good = next(c for c in vals if vals[c] == maj)
            for c in vals:
                if vals[c] != maj and shown.setdefault((key[0], c), 0) < 3:
                    shown[(key[0], c)] += 1
                    tag, detail = first_difference(exes, good, c, seed, key, work)
                    res.viols.append({'key': '%s:differs:%s' % (key[0], tag), 'test': key[0], 'idx': key[1], 'detail': detail, 'module': 'api', 'config': c, 'seed': seed, 'scale': 1})
    res.events['cases_compared'] = len(tr[ref])
    res.events['configurations'] = len(configs)
    check.check_minimum(spec, res)


def first_difference(exes, a, b, seed, key, work):
    logs = []
    for c in (a, b):
        p = os.path.join(work, 'log-%s' % c)
        args = ['--seed', str(seed), '--config', 'x', '--test', key[0], '--idx', str(key[1]), '--mult', '1e9', '--cpu', '200', '--out', p]
        subprocess.run([exes[('api', c)]] + args, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=dict(check.san_env(), VH_TRANSCRIPT_LOG=p))
        logs.append(open(p).read().splitlines() if os.path.exists(p) else [])
    for i, (x, y) in enumerate(zip(*logs)):
        if x != y:
            tag = x.split(' ')[0]
            return tag, 'case %s#%d item %d: %s gives %s, %s gives %s' % (key[0], key[1], i, a, x[:600], b, y[:600])
    if len(logs[0]) != len(logs[1]):
        return 'length', 'case %s#%d: %s records %d items, %s %d' % (key[0], key[1], a, len(logs[0]), b, len(logs[1]))
    return 'unstable', 'case %s#%d: the difference between %s and %s did not show again in the replay' % (key[0], key[1], a, b)


def taint(pid, spec, tier, seed, res, work):
    """C24: every operation with its secrets marked undefined, under valgrind memcheck, on optimised builds."""
    configs = spec['configs']
    exes, notes = check.build(['ct'], configs)
    res.notes += notes
    mult = spec.get('mult', 1.0) * (spec.get('thorough', 10) if tier == 'thorough' else 1)
    tests = [l.split()[0] for l in subprocess.run([exes[('ct', configs[0])], '--list'], capture_output=True, text=True).stdout.splitlines()]
    jobs = []
    for c in configs:
        for t in tests:
            n = 4 if t == 'weierstrass' else 2 if t == 'edwards' else 1
            for sh in range(n):
                jobs.append((c, t, sh, n, os.path.join(work, 'ct-%s-%s-%d' % (c, t, sh))))
    jobs.sort(key=lambda j: (j[1] != 'weierstrass', j[1] != 'edwards'))
    limit = 700 if tier == 'quick' else 5400

    def go(j):
        c, t, sh, n, out = j
        args = ['--seed', str(seed), '--config', c, '--test', t, '--mult', str(mult), '--shard', str(sh), '--nshards', str(n), '--out', out, '--cpu', '600', '--progress', out + '.prog']
        vg = ['valgrind', '-q', '--error-limit=no', '--num-callers=16', '--log-file=' + out + '.vg', '--error-exitcode=0']
        try:
            p = subprocess.run(vg + [exes[('ct', c)]] + args, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=limit)
            return p.returncode, p.stderr.decode('utf8', 'replace')
        except subprocess.TimeoutExpired:
            return 'timeout', ''
    with ThreadPoolExecutor(check.NCPU) as ex:
        rcs = list(ex.map(go, jobs))
    import array, json
    for j, (rc, err) in zip(jobs, rcs):
        c, t, sh, n, out = j
        if rc == 'timeout':
            res.errors.append('%s/%s: wall-clock watchdog fired (inconclusive)' % (c, t))
            continue
        if rc not in (0, 98):
            test, idx = check.died_at(out)
            if rc == 96 or not test:
                raise check.CheckError('ct/%s/%s: rc=%s %s' % (c, t, rc, err[-1500:]))
            res.viols.append({'key': '%s:crash:%s' % (t, check.summarize_crash(err, rc)), 'test': t, 'idx': idx, 'detail': err[-2000:], 'module': 'ct', 'config': c, 'seed': seed, 'scale': 1})
            continue
        st = json.load(open(out + '.json'))
        res.evaluations += st['evaluations']
        a = array.array('Q')
        a.frombytes(open(out + '.dist', 'rb').read())
        res.distinct.update(x ^ (configs.index(c) + 1) * 0x9e3779b97f4a7c15 & (2 ** 64 - 1) for x in a)
        res.add_events(st['events'])
        for k, v in st['per_test'].items():
            res.per_test[k] = res.per_test.get(k, 0) + v
        pc = res.per_config.setdefault(c, {'evaluations': 0, 'cases': 0})
        pc['evaluations'] += st['evaluations']
        pc['cases'] += st['cases']
        vg = open(out + '.vg', errors='replace').read()
        for l in open(out + '.viol'):
            v = json.loads(l)
            v.update(module='ct', config=c, seed=seed, scale=1)
            v['detail'] += '\n' + '\n'.join(re.sub(r'^==\d+== ', '', x) for x in vg.splitlines()[:24])
            v['replay_cmd'] = 'cd %s && python3 tools/check.py --build ct %s && valgrind --error-limit=no build/last-ct-%s --seed %d --config %s --test %s --idx %d --mult 1e9' % (
                check.ROOT, c, c, seed, c, v['test'], v['idx'])
            res.viols.append(v)
    if not res.samples:
        res.samples = ['operations observed per test: %s' % json.dumps(res.per_test)]
    check.check_minimum(spec, res)


def residue(pid, spec, tier, seed, res, work):
    """C25: what stays on a dead stack also depends on frame layout, so a stack finding counts only when two builds show it."""
    check.harness_property(pid, spec, tier, seed, res, work)
    builds = {}
    for v in res.viols:
        builds.setdefault(v['key'], set()).add(v['config'])
    keep = [v for v in res.viols if ':stack:' not in v['key'] or len(builds[v['key']]) > 1]
    if len(keep) != len(res.viols):
        res.notes.append('stack residue seen in one build only (not counted): %s' % ', '.join(sorted(k for k in builds if ':stack:' in k and len(builds[k]) < 2)))
    res.viols[:] = keep
