#!/usr/bin/env python3
"""Self-test of the checks on scratch variants of /repo (never part of a registered check).

selftest/cases/*.py hold lists BAD and GOOD of (properties, file, old, new): BAD variants must make
one of the named checks report, GOOD ones (same behaviour) must leave all of them quiet.
run.py [-p PID ...] [--bad|--good]
"""
import argparse, concurrent.futures as cf, importlib.util, os, shutil, subprocess, sys, tempfile, glob
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)


def variant(case, kind, pids, i):
    props, edits = case[0].split(), case[1:]
    d = tempfile.mkdtemp(prefix='csvwlint-')
    try:
        shutil.copytree('/repo/src', d + '/src', ignore=shutil.ignore_patterns('__pycache__', '*.egg-info'))
        for f, old, new in zip(edits[0::3], edits[1::3], edits[2::3]):
            fn = '{}/src/csvw/{}'.format(d, f)
            s = open(fn).read()
            if s.count(old) != 1:
                return 'BROKEN-CASE {} {!r} occurs {} times'.format(f, old[:60], s.count(old))
            open(fn, 'w').write(s.replace(old, new))
            try:
                compile(s.replace(old, new), fn, 'exec')
            except SyntaxError as e:
                return 'BROKEN-CASE {} {!r}: {}'.format(f, new[:60], e)
        res = {}
        for p in props:
            if pids and p not in pids:
                continue
            r = subprocess.run([sys.executable, V + '/check.py', p], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True,
                               env=dict(os.environ, CSVWLINT_REPO=d, CSVWLINT_EVIDENCE=d + '/ev'))
            res[p] = (r.returncode, r.stdout)
        if not res:
            return None
        what = '{} {!r} -> {!r}'.format(edits[0], edits[1][:70], edits[2][:90])
        if kind == 'bad':
            if any(rc == 1 for rc, _ in res.values()):
                return None
            return 'MISSED {} {}: {}\n{}'.format(props, {k: v[0] for k, v in res.items()}, what,
                '\n'.join(l for v in res.values() for l in v[1].splitlines()[-3:]))
        if all(rc == 0 for rc, _ in res.values()):
            if any('INCONCLUSIVE' in o for _, o in res.values()):
                return 'inconclusive (quiet) {} {}\n{}'.format(props, what, '\n'.join(
                    l[:300] for _, o in res.values() for l in o.splitlines() if 'INCONC' in l)[:900])
            return None
        return 'ALARM {} {}: {}\n{}'.format(props, {k: v[0] for k, v in res.items()}, what,
            '\n'.join(o[:1500] for rc, o in res.values() if rc))
    finally:
        shutil.rmtree(d)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('-p', nargs='*', default=[])
    ap.add_argument('--kind', default='')
    a = ap.parse_args()
    jobs = []
    for fn in sorted(glob.glob(HERE + '/cases/*.py')):
        spec = importlib.util.spec_from_file_location('c', fn)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        for kind in ('bad', 'good'):
            if a.kind and kind != a.kind:
                continue
            for i, c in enumerate(getattr(m, kind.upper(), [])):
                if a.p and not set(c[0].split()) & set(a.p):
                    continue
                jobs.append((c, kind, a.p, i))
    n = 0
    with cf.ThreadPoolExecutor(8) as ex:
        for r in ex.map(lambda j: variant(*j), jobs):
            if r:
                n += 1
                print(r)
    print('{} variants, {} problems'.format(len(jobs), n))


if __name__ == '__main__':
    main()
