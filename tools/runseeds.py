"""runseeds.py [-a] [id...]: which checks catch which seeded changes (in scratch copies)."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(sid, allchecks):
    d = os.path.join(HERE, 'seeded', sid)
    pid = json.load(open(d + '/meta.json'))['property']
    tmp = tempfile.mkdtemp(prefix='runseed')
    shutil.copytree('/repo/src', tmp + '/repo/src')
    subprocess.check_call(['git', 'init', '-q'], cwd=tmp + '/repo')
    r = subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=tmp + '/repo', stderr=subprocess.STDOUT, stdout=subprocess.PIPE, text=True)
    if r.returncode:
        shutil.rmtree(tmp)
        return sid, pid, 'DOES NOT APPLY ' + r.stdout, ''
    pids = [c['property'] for c in json.load(open(HERE + '/MANIFEST.json'))['checks']]
    res = {}
    for p in (pids if allchecks else [pid]):
        if p not in pids:
            res[p] = 'unclaimed'
            continue
        env = dict(os.environ, CSVWLINT_REPO=tmp + '/repo', CSVWLINT_EVIDENCE=tmp + '/ev')
        r = subprocess.run([sys.executable, 'check.py', p], cwd=HERE, env=env, stdout=subprocess.PIPE, text=True)
        res[p] = r.returncode
    shutil.rmtree(tmp)
    return sid, pid, 'caught' if res.get(pid) == 1 else 'MISSED ({})'.format(res.get(pid)), \
        ' '.join(p for p, c in res.items() if c == 1 and p != pid) + ''.join(' {}:broken'.format(p) for p, c in res.items() if c == 2)


if __name__ == '__main__':
    a = '-a' in sys.argv
    ids = [x for x in sys.argv[1:] if x != '-a'] or sorted(os.listdir(HERE + '/seeded'))
    with ThreadPoolExecutor(8) as ex:
        for r in ex.map(lambda s: one(s, a), ids):
            print('{:32} {} {} {}'.format(*r))
