"""mkseed.py [id...]: build and validate /verif/seeded/<id> from tools/seedspecs/*.py (SEEDS lists of
dict(id, property, needs, breaks, edits=[(file, old, new)...], demo=python source))."""
import glob
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def stable():
    b = json.load(open('/opt/vp/BASELINE.json'))
    for k in ('stable_pass', 'passed', 'tests', 'stable'):
        if k in b:
            v = b[k]
            return set(v if isinstance(v, list) else v.keys())
    raise SystemExit(list(b))


def run_tests(copy):
    env = dict(os.environ, PYTHONPATH=copy + '/src', PYTHONDONTWRITEBYTECODE='1', TZ='UTC',
               PATH='/opt/venv/bin:' + os.environ['PATH'])
    r = sh(PY + ' -m pytest -q -x --no-cov -p no:cacheprovider --ignore=tests/test_conformance.py', cwd=copy, env=env)
    return r.returncode == 0, r.stdout[-1500:]


def demo(copy, d):
    env = dict(os.environ, PATH='/opt/venv/bin:' + os.environ['PATH'])
    return sh('bash {}/demo.sh'.format(d), cwd=copy, env=env)


def main():
    specs = []
    for fn in sorted(glob.glob(os.path.join(HERE, 'tools/seedspecs/*.py'))):
        sp = importlib.util.spec_from_file_location('x', fn)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        specs += m.SEEDS
    want = sys.argv[1:]
    bad = 0
    for s in specs:
        if want and s['id'] not in want:
            continue
        if not want and os.path.exists(os.path.join(HERE, 'seeded', s['id'], 'patch.diff')):
            continue
        tmp = tempfile.mkdtemp(prefix='seed')
        copy = tmp + '/repo'
        shutil.copytree('/repo', copy, symlinks=True)
        d = os.path.join(HERE, 'seeded', s['id'])
        os.makedirs(d, exist_ok=True)
        with open(d + '/demo.py', 'w') as f:
            f.write('import os\nimport sys\nsys.path.insert(0, os.path.join(os.getcwd(), "src"))\n'
                    'sys.dont_write_bytecode = True\n' + s['demo'].lstrip('\n'))
        with open(d + '/demo.sh', 'w') as f:
            f.write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']),
                  open(d + '/meta.json', 'w'), indent=1)
        r0 = demo(copy, d)
        for file, old, new in s['edits']:
            p = os.path.join(copy, 'src/csvw', file)
            t = open(p).read()
            assert t.count(old) == 1, (s['id'], file, t.count(old), old)
            open(p, 'w').write(t.replace(old, new))
        diff = sh('git diff', cwd=copy).stdout
        open(d + '/patch.diff', 'w').write(diff)
        ok, out = run_tests(copy)
        r1 = demo(copy, d)
        good = r0.returncode == 0 and ok and r1.returncode != 0
        print('{} {}: demo on clean {}, tests with patch {}, demo with patch {}'.format(
            'OK ' if good else 'BAD', s['id'], r0.returncode, 'pass' if ok else 'FAIL', r1.returncode))
        if not good:
            bad += 1
            print(r0.stdout[-800:] if r0.returncode else '', out if not ok else '', r1.stdout[-300:])
            shutil.rmtree(d)
        shutil.rmtree(tmp)
    return bad


if __name__ == '__main__':
    sys.exit(main())
