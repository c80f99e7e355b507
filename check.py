#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decide one property of /repo's current source.

exit 0: held on everything analysed; exit 1: VIOLATION lines; exit 2: the analysis is broken.
"""
import argparse
import hashlib
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from csvwlint.harness import Check, REPO  # noqa: E402


def known_findings():
    res = {}
    fn = os.path.join(HERE, 'KNOWN_FINDINGS')
    for line in open(fn, encoding='utf8') if os.path.exists(fn) else ():
        line = line.strip()
        if not line.startswith('known: '):
            continue
        # known: property=P07 | rule | construct | what fails
        head, rule, construct, what = [x.strip() for x in line[len('known: '):].split(' | ', 3)]
        res[(head.split('=')[1], rule, construct)] = what
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    pid = a.property
    manifest = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
    level = next((c['level'] for c in manifest['checks'] if c['property'] == pid), 'other')
    C = Check(pid, a.tier, seed)
    mod = importlib.import_module('checks.' + pid)
    crash = None
    try:
        (mod.rules if hasattr(mod, 'rules') else mod.run)(C)
    except Exception:
        crash = traceback.format_exc()
        C.broken.append('analyser error: ' + crash)
    known = known_findings()
    out = []
    for (rule, construct), d in sorted(C.violations.items()):
        k = known.get((pid, rule, construct))
        if k is not None:
            print('KNOWN-FINDING: property={} {} [{}] {}'.format(pid, rule, construct, k))
            continue
        out.append((rule, construct, d))
    edir = os.environ.get('CSVWLINT_EVIDENCE') or os.path.join(HERE, 'evidence')
    os.makedirs(os.path.join(edir, 'replay'), exist_ok=True)
    for rule, construct, d in out:
        h = hashlib.sha1('{}|{}'.format(rule, construct).encode()).hexdigest()[:8]
        rp = os.path.join(edir, 'replay', '{}-{}.txt'.format(pid, h))
        with open(rp, 'w', encoding='utf8') as f:
            f.write('property {}\nrule {}\nconstruct {}\n{}\n\nabstract path:\n{}\n'.format(
                pid, rule, construct, d['message'], '\n'.join('  ' + x for x in d['path'])))
        print('VIOLATION property={} replay={}'.format(pid, rp))
        print('  rule {}; construct {}: {}'.format(rule, construct, d['message'][:600]))
        for x in d['path'][:25]:
            print('    ' + x[:160])
    nunk = 0
    for (rule, construct), why in sorted(C.unknown.items()):
        nunk += 1
        print('INCONCLUSIVE property={} rule {}; construct {}: {}'.format(
            pid, rule, construct, '; '.join(sorted(why))[:400 if not a.v else 100000]))
    for b in C.broken:
        print('ANALYSIS-BROKEN property={} {}'.format(pid, b))
    nok = sum(C.ok.values())
    fns = sorted(C.analysed)
    ev = {
        'property': pid, 'tier': a.tier, 'seed': seed, 'level': level,
        'wall_s': round(time.time() - C.t0, 3),
        'coverage': {
            'explanation': 'Static analysis of /repo/src/csvw as found on this run: every abstract '
                           'path of the listed functions was compared with the rule; an obligation '
                           'is one (path, rule, construct) comparison that was decided.',
            'explored': nok, 'unit': 'obligations decided',
            'rules': C.rules,
            'abstract_paths': C.paths,
            'obligations_met': {'{} [{}]'.format(*k): n for k, n in sorted(C.ok.items())},
            'obligations_undecided': {'{} [{}]'.format(*k): sorted(v)[:5]
                                      for k, v in sorted(C.unknown.items())},
            'functions_analysed': ['{} ({}:{})'.format(
                f, os.path.relpath(C.analysed[f][0], REPO), C.analysed[f][1]) for f in fns],
            'external_calls_uninterpreted': sorted(C.unmodelled),
            'known_findings': ['{} [{}]'.format(*k) for k in sorted(C.violations)
                               if (pid,) + k in known],
            'broken': C.broken,
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'violations': len(out),
    }
    with open(os.path.join(edir, pid + '.json'), 'w', encoding='utf8') as f:
        json.dump(ev, f, indent=1)
    print('property={} tier={}: {} obligations met on {} abstract paths, {} undecided, {} violated '
          '({} functions analysed, {:.1f}s)'.format(
              pid, a.tier, nok, C.paths, nunk, len(out), len(fns), time.time() - C.t0))
    if out:
        return 1
    # parts of the analysis that gave no answer are reported above; no answer at all is an error
    return 2 if C.broken and (not nok or crash) else 0


if __name__ == '__main__':
    sys.exit(main())
