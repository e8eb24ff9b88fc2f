#!/usr/bin/env python3
"""Confirm planted changes: seedtest.py [--demo-only] ID...   (applies each to /repo, undoes it straight afterwards)

Prints per change: demo on the clean tree, build, stable tests, demo with the change, the check's verdict.
"""
import json, os, subprocess, sys, shutil, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, timeout=1800, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, **kw)


def clean():
    return not sh(['git', '-C', '/repo', 'status', '--porcelain']).stdout.strip()


def demo(d):
    t = tempfile.mkdtemp(prefix='seed-')
    try:
        for f in os.listdir(d):
            if not f.endswith(('.diff', '.patch')) and f != 'meta.json':
                shutil.copy(os.path.join(d, f), t)
        return sh(['bash', os.path.join(t, 'demo.sh')], 300, cwd='/repo')
    finally:
        shutil.rmtree(t)


def main():
    args = sys.argv[1:]
    nocheck = '--no-check' in args
    args = [a for a in args if not a.startswith('--')]
    assert clean(), '/repo is not clean'
    stable = json.load(open('/opt/vp/BASELINE.json'))
    stable = set(stable.get('passed') or stable.get('stable') or stable.get('tests') or [])
    assert sh(['bash', '/opt/vp/build.sh']).returncode == 0
    for i in args:
        d = os.path.join(V, 'seeded', i)
        r = demo(d)
        print('%-28s clean demo %s' % (i, 'ok' if r.returncode == 0 else 'FAILS\n' + r.stdout[-800:]), flush=True)
    for i in args:
        d = os.path.join(V, 'seeded', i)
        meta = json.load(open(os.path.join(d, 'meta.json')))
        out = []
        try:
            a = sh(['git', '-C', '/repo', 'apply', os.path.join(d, 'patch.diff')])
            if a.returncode:
                print(i, 'patch does not apply', a.stdout)
                continue
            t = sh(['bash', '/opt/vp/test.sh', '/tmp/seed-out.json'])
            o = json.load(open('/tmp/seed-out.json'))
            miss = sorted(stable - set(o['passed']))
            out.append('tests %s' % ('pass' if not miss else 'FAIL %d: %s' % (len(miss), miss[:4])))
            r = demo(d)
            out.append('demo %s' % ('fails as it should' if r.returncode else 'PASSES'))
            if not nocheck:
                t0 = time.time()
                c = sh(['python3', os.path.join(V, 'tools/check.py'), meta['property']], 1200)
                v = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION property=%s' % meta['property'])]
                first = [l.strip()[:110] for l in c.stdout.splitlines() if l.startswith('  ')][:1]
                out.append('%s %s in %.0fs %s' % (meta['property'], 'CAUGHT' if c.returncode == 1 and v else 'missed (exit %d)' % c.returncode, time.time() - t0, first))
        finally:
            sh(['git', '-C', '/repo', 'checkout', '--', '.'])
        print('%-28s %s' % (i, '; '.join(out)), flush=True)
    sh(['bash', '/opt/vp/build.sh'])


main()
