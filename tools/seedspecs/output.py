"""Seeds for P22 and P23."""
HEAD = '''
import json
import pathlib
import shutil
import tempfile
import warnings
from csvw import *
from csvw.metadata import CSVW

tmp = pathlib.Path(tempfile.mkdtemp())
import atexit
atexit.register(shutil.rmtree, str(tmp))


def dataset(md, validate=False, **files):
    for name, text in files.items():
        (tmp / (name + '.csv')).write_text(text)
    (tmp / 'md.json').write_text(json.dumps(dict({'@context': 'http://www.w3.org/ns/csvw'}, **md)))
    return CSVW(str(tmp / 'md.json'), validate=validate)


def rows(md, text):
    return [r for r in dataset(md, t=text).to_json()['tables'][0]['row']]
'''
SEEDS = [
    dict(id='p22-null-text', property='P22',
         needs='a number written differently than the null marker it equals, like 05 and 5',
         breaks='numbers whose text is a null marker are left out',
         edits=[('metadata.py', "if (null and v in null) or v == \"\"", "if (null and str(v) in null) or v == \"\"")],
         demo=HEAD + '''
r = rows({'url': 't.csv', 'tableSchema': {'columns': [{'name': 'a', 'datatype': 'integer', 'null': ['5']}, {'name': 'b'}]}},
         'a,b\\n05,x\\n')
sys.exit(0 if r[0]['describes'] == [{'a': 5, 'b': 'x'}] else 1)
'''),
    dict(id='p22-titles-name', property='P22',
         needs='a column which has titles, but no name, and a property URL with {_name}',
         breaks='property URLs of columns without name are expanded with an empty name',
         edits=[('jsonld.py', "        _name = col.header if col else None", "        _name = col.name if col else None")],
         demo=HEAD + '''
r = rows({'url': 't.csv', 'tableSchema': {'columns': [{'titles': 'a', 'propertyUrl': 'http://x.org/{_name}'}]}}, 'a\\n1\\n')
sys.exit(0 if r[0]['describes'] == [{'http://x.org/a': '1'}] else 1)
'''),
    dict(id='p22-rownum', property='P22',
         needs='a comment or an empty line between rows',
         breaks='rows are numbered by their line',
         edits=[('metadata.py', "        res['rownum'] = rownum\n", "        res['rownum'] = min(rownum, rowsourcenum) if rownum == 1 else rowsourcenum - 1\n")],
         demo=HEAD + '''
r = rows({'url': 't.csv', 'dialect': {'skipBlankRows': True}, 'tableSchema': {'columns': [{'name': 'a'}, {'name': 'b'}]}}, 'a,b\\n1,2\\n\\n3,4\\n')
sys.exit(0 if [x['rownum'] for x in r] == [1, 2] else 1)
'''),
    dict(id='p22-group-null', property='P22',
         needs='null markers of the table group and a column which is not described',
         breaks='null markers of the table group are not applied to cells without column description',
         edits=[('metadata.py', "null = col.inherit_null() if col else table.inherit_null()", "null = (col.inherit_null() if col else table.null)")],
         demo=HEAD + '''
r = rows({'tables': [{'url': 't.csv'}], 'null': ['NA']}, 'a,b\\n1,NA\\n')
d = r[0]['describes'][0]
r = dataset({'tables': [{'url': 't.csv'}], 'null': ['NA']}, t='a,b\\n1,NA\\n')
sys.exit(0 if 'NA' not in d.values() else 1)
'''),
    dict(id='p22-list-valueurl', property='P22',
         needs='a list-valued cell in a column with a value URL',
         breaks='list values are not replaced by the value URL',
         edits=[('jsonld.py', "        if valueUrl:\n", "        if valueUrl and not isinstance(val, list):\n")],
         demo=HEAD + '''
r = rows({'url': 't.csv', 'tableSchema': {'columns': [{'name': 'a', 'separator': ';', 'valueUrl': 'http://x.org/{_row}'}]}}, 'a\\np;q\\n')
sys.exit(0 if r[0]['describes'] == [{'a': 'http://x.org/1'}] else 1)
'''),
    dict(id='p22-minimal-tables', property='P22',
         needs='minimal mode, and a suppressed table between others',
         breaks='tables are left out of minimal output if any table is suppressed',
         edits=[('metadata.py', "[[r['describes'][0] for r in t['row']] for t in res['tables']]", "[[r['describes'][0] for r in t['row']] for t in res['tables'][:len(self.tables) - len([t for t in self.tables if t.suppressOutput is True]) * 2 or None]]")],
         demo=HEAD + '''
r = dataset({'tables': [{'url': 't.csv'}, {'url': 'u.csv', 'suppressOutput': True}, {'url': 'v.csv'}]},
            t='a\\n1\\n', u='a\\n2\\n', v='a\\n3\\n').to_json(minimal=True)
sys.exit(0 if len(r) == 2 else 1)
'''),
    dict(id='p23-exit-verbose', property='P23',
         needs='an invalid dataset validated without --verbose',
         breaks='the validation command exits with 0 unless verbose',
         edits=[('__main__.py', "            ret = 1\n", "            ret = int(bool(args.verbose))\n")],
         demo=HEAD + '''
import argparse
from csvw.__main__ import csvwvalidate
dataset({'url': 't.csv', 'lang': 1}, t='a\\n1\\n')
r = csvwvalidate(argparse.Namespace(url=str(tmp / 'md.json'), verbose=False), test=True)
sys.exit(0 if r == 1 else 1)
'''),
    dict(id='p23-tablegroup', property='P23',
         needs='a single table with a foreign key to itself, without primary key',
         breaks='references of a single table without primary key are not checked',
         edits=[('metadata.py', "TableGroup(at_props={'base': self.t.base}, tables=self.tables)", "TableGroup(\n                at_props={'base': self.t.base},\n                tables=[t for t in self.tables if t.tableSchema.primaryKey])")],
         demo=HEAD + '''
ds = dataset({'url': 't.csv', 'tableSchema': {'columns': [{'name': 'a'}, {'name': 'b'}], 'foreignKeys': [
    {'columnReference': 'b', 'reference': {'resource': 't.csv', 'columnReference': 'a'}}]}}, validate=True, t='a,b\\n1,2\\n')
sys.exit(0 if not ds.is_valid else 1)
'''),
    dict(id='p23-table-warnings', property='P23',
         needs='a warning while loading the metadata of a single table',
         breaks='warnings about the metadata of single tables do not count',
         edits=[('metadata.py', "            self.common_props = self.t.common_props\n        if w:\n", "            self.common_props = self.t.common_props\n        if w and isinstance(self.t, TableGroup):\n")],
         demo=HEAD + '''
ds = dataset({'url': 't.csv', 'lang': 1}, validate=True, t='a\\n1\\n')
sys.exit(0 if not ds.is_valid else 1)
'''),
    dict(id='p23-first-verdict', property='P23',
         needs='asking for the verdict twice',
         breaks='problems found by the first validation are forgotten by the second',
         edits=[('metadata.py', "        return not bool(self.warnings)", "        found, self.warnings = self.warnings, (self.warnings if len(self.warnings) > 1 else [])\n        return not found or all(str(x.message).startswith('Column number') for x in found)")],
         demo=HEAD + '''
ds = dataset({'url': 't.csv', 'tableSchema': {'columns': [{'name': 'a'}]}}, validate=True, t='a,b\\n1,2\\n')
sys.exit(0 if not ds.is_valid else 1)
'''),
]
