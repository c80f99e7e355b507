"""Writes DESIGN.md."""
import glob
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from design.methods import M  # noqa: E402


def read(*p):
    return open(os.path.join(HERE, *p), encoding='utf8').read()


out = [read('design', 'head.md').rstrip(), '', '## 2. The properties', '']
man = json.loads(read('MANIFEST.json'))
na = {x['property']: x['reason'] for x in man['not_applicable']}
caught = json.loads(read('design', 'caught.json')) if os.path.exists(os.path.join(HERE, 'design', 'caught.json')) else {}
for line in read('properties.jsonl').splitlines():
    p = json.loads(line)
    pid = p['id']
    out += ['### {} {}'.format(pid, p['title']), '']
    if pid in na:
        out += ['Not applicable: ' + na[pid], '']
        continue
    m = importlib.import_module('checks.' + pid)
    out += [M[pid], '']
    ass = getattr(m, 'ASSUMPTIONS', [])
    if ass:
        out += ['Within / assuming: ' + '; '.join(ass) + '.', '']
    out += ['Quantifies over {}; entry points and anchors: {}.'.format(
        p['quantifier']['text'], ', '.join('`' + x['where'].split('/')[-1] + '`' for x in p['anchors']['mechanism'])), '']
    out += ['Why tests cannot: ' + p['why_tests_cant'], '']
    s = importlib.import_module('selftest.cases.' + pid.lower()) if os.path.exists(
        os.path.join(HERE, 'selftest', 'cases', pid.lower() + '.py')) else None
    if s:
        out += ['Self-test: {} breaking edits, {} refactorings.'.format(len(getattr(s, 'BAD', [])), len(getattr(s, 'GOOD', []))), '']
out += ['## 3. Not applicable', '',
        'Round trips of concrete numbers, dates and templates (P33–P36) compare unbounded texts computed digit by digit by '
        'library code; P12 and P31 claim what static analysis can decide of them (both directions are built from the same '
        'format), and P06/P07/P29 how they compose.', '']
for k, v in na.items():
    out += ['- {}: {}'.format(k, v)]
out += ['', '## 4. Defects found in cldf/csvw', '', '| status | property | what |', '|---|---|---|']
for line in read('KNOWN_FINDINGS').splitlines():
    if line.startswith('fixed: '):
        a, b, c = line[len('fixed: property='):].split(' ', 2)
        out.append('| fixed {} | {} | {} |'.format(b, a, c.replace('|', '\\|')))
    elif line.startswith('known: '):
        a, b, c, d = line[len('known: property='):].split(' | ', 3)
        out.append('| known finding (rule {}, construct {}) | {} | {} |'.format(b, c, a, d.replace('|', '\\|')))
out += ['', 'The known finding stays unrepaired because it needs a decision on how times are to be stored (and a new format of '
        'the values in the database), which is no small repair.', '',
        '## 5. Planted bugs and what catches them', '',
        'Written from the text of the properties and the code; all are kept, caught or not (`tools/runseeds.py`).', '',
        '| bug | property | what it breaks | needs | caught by |', '|---|---|---|---|---|']
for f in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    d = json.load(open(f))
    n = os.path.basename(os.path.dirname(f))
    c = caught.get(n)
    out.append('| {} | {} | {} | {} | {} |'.format(n, d['property'], d['what_it_breaks'], d['needs'],
                                                   c if c else ('**missed**' if n in caught else d['property'])))
with open(os.path.join(HERE, 'DESIGN.md'), 'w', encoding='utf8') as f:
    f.write('\n'.join(out) + '\n')
