SEEDS = [
    dict(id='p14-required-short', property='P14',
         needs='an empty row (no cells at all) in a table with a required column',
         breaks='a row without any cells passes although it lacks a required cell',
         edits=[('metadata.py', "                for k, j in required.items():\n                    if k not in res:",
                 "                for k, j in required.items():\n                    if res and k not in res:")],
         demo='''
from unittest.mock import Mock
import pathlib, tempfile, shutil
from csvw import Table
d = pathlib.Path(tempfile.mkdtemp())
try:
    (d / 't.csv').write_text('a,b\\n\\n1,2\\n')
    t = Table.fromvalue({'url': 't.csv', 'tableSchema': {'columns': [{'name': 'a'}, {'name': 'b', 'required': True}]}})
    t._fname = d / 'md.json'
    rows = list(t.iterdicts(log=Mock()))
finally:
    shutil.rmtree(str(d))
sys.exit(0 if len(rows) == 1 else 1)
'''),
    dict(id='p14-permuted-missing', property='P14',
         needs='a data file whose header lacks a regular column, in another order than the schema',
         breaks='regular columns missing from the data are only added to rows if nothing was read for the row yet',
         edits=[('metadata.py', "                for key in colnames:\n                    res.setdefault(key, None)",
                 "                for key in colnames[len(res):]:\n                    res.setdefault(key, None)")],
         demo='''
import pathlib, tempfile, shutil
from csvw import Table
d = pathlib.Path(tempfile.mkdtemp())
try:
    (d / 't.csv').write_text('c,b\\n1,2\\n')
    t = Table.fromvalue({'url': 't.csv', 'tableSchema': {'columns': [{'name': 'a'}, {'name': 'b'}, {'name': 'c'}]}})
    t._fname = d / 'md.json'
    rows = [dict(r) for r in t]
finally:
    shutil.rmtree(str(d))
sys.exit(0 if rows == [{'a': None, 'b': '2', 'c': '1'}] else 1)
'''),
    dict(id='p15-titles-only', property='P15',
         needs='items whose key for a column is present with value None while the header is the title',
         breaks='falsy values (0, False, empty list) of a dict item are looked up under the wrong key and written as null',
         edits=[('metadata.py', "                        col.write(item.get(\n                            col.header, item.get('{}'.format(col))))",
                 "                        col.write(\n                            item.get(col.header) or item.get('{}'.format(col.name)))")],
         demo='''
from csvw import Table
t = Table.fromvalue({'url': 't.csv', 'tableSchema': {'columns': [{'titles': 'a', 'datatype': 'integer'}, {'name': 'b'}]}})
sys.exit(0 if t.write([{'a': 0, 'b': 'x'}], fname=None) == b'a,b\\r\\n0,x\\r\\n' else 1)
'''),
    dict(id='p15-list-virtual', property='P15',
         needs='an item given as tuple longer than the number of regular columns, table with virtual columns',
         breaks='the strict check treats names of virtual columns as known',
         edits=[('metadata.py', "                        add = set(item.keys()) - {'{}'.format(col) for col in non_virtual_cols}",
                 "                        add = set(item.keys()) - set(self.tableSchema.columndict)")],
         demo='''
from csvw import Table
t = Table.fromvalue({'url': 't.csv', 'tableSchema': {'columns': [{'name': 'a'}, {'name': 'v', 'virtual': True}]}})
try:
    t.write([{'a': 'x', 'v': 'y'}], fname=None, strict=True)
except ValueError:
    sys.exit(0)
sys.exit(1)
'''),
    dict(id='p16-nolog-error', property='P16',
         needs='three rows with the same key, a logger',
         breaks='only the first duplicate of a table is reported, as checking stops there',
         edits=[('metadata.py', "                        '{0}:{1} duplicate primary key: {2}'.format(fname, lineno, pk),\n                        log=log)\n                    success = False",
                 "                        '{0}:{1} duplicate primary key: {2}'.format(fname, lineno, pk),\n                        log=log)\n                    return False")],
         demo='''
from unittest.mock import Mock
import pathlib, tempfile, shutil
from csvw import Table
d = pathlib.Path(tempfile.mkdtemp())
try:
    (d / 't.csv').write_text('a\\n1\\n1\\n1\\n')
    t = Table.fromvalue({'url': 't.csv', 'tableSchema': {'columns': [{'name': 'a'}], 'primaryKey': 'a'}})
    t._fname = d / 'md.json'
    log = Mock()
    t.check_primary_key(log=log)
    n = log.warning.call_count
finally:
    shutil.rmtree(str(d))
sys.exit(0 if n == 2 else 1)
'''),
    dict(id='p17-groupby-order', property='P17',
         needs='two foreign keys to different column sets of one table, declared interleaved',
         breaks='keys of the referenced table are grouped without sorting, so that the later group of one key replaces nothing but rows are checked against partially matching keys',
         edits=[('metadata.py', "        fkeys = sorted(fkeys, key=lambda x: (x[0].local_name, x[1], x[2].local_name))",
                 "        fkeys = sorted(fkeys, key=lambda x: (x[0].local_name, sorted(x[1]), x[2].local_name))\n        fkeys = [(t, sorted(c), cc, rr) for t, c, cc, rr in fkeys]")],
         demo='''
import pathlib, tempfile, shutil
from csvw import TableGroup
d = pathlib.Path(tempfile.mkdtemp())
try:
    (d / 'p.csv').write_text('a,b\\n1,2\\n')
    (d / 'c.csv').write_text('x,y\\n2,1\\n')
    tg = TableGroup.fromvalue({'tables': [
        {'url': 'p.csv', 'tableSchema': {'columns': [{'name': 'a'}, {'name': 'b'}]}},
        {'url': 'c.csv', 'tableSchema': {'columns': [{'name': 'x'}, {'name': 'y'}], 'foreignKeys': [
            {'columnReference': ['x', 'y'], 'reference': {'resource': 'p.csv', 'columnReference': ['b', 'a']}}]}}]})
    tg._fname = d / 'md.json'
    try:
        ok = tg.check_referential_integrity() is True
    except ValueError:
        ok = False
finally:
    shutil.rmtree(str(d))
sys.exit(0 if ok else 1)
'''),
    dict(id='p17-list-empty-ref', property='P17',
         needs='a list-valued integer foreign key with the dangling element 0',
         breaks='falsy elements of list-valued foreign keys are not looked up',
         edits=[('metadata.py', "                            colrefs = colref\n",
                 "                            colrefs = [c for c in colref if c]\n")],
         demo='''
import pathlib, tempfile, shutil
from csvw import TableGroup
d = pathlib.Path(tempfile.mkdtemp())
try:
    (d / 'p.csv').write_text('a,b\\n1,2\\n')
    (d / 'c.csv').write_text('x,y\\n1;0,1\\n')
    tg = TableGroup.fromvalue({'tables': [
        {'url': 'p.csv', 'tableSchema': {'columns': [{'name': 'a', 'datatype': 'integer'}, {'name': 'b'}], 'primaryKey': 'a'}},
        {'url': 'c.csv', 'tableSchema': {'columns': [{'name': 'x', 'separator': ';', 'datatype': 'integer'}, {'name': 'y'}], 'foreignKeys': [
            {'columnReference': ['x'], 'reference': {'resource': 'p.csv', 'columnReference': ['a']}}]}}]})
    tg._fname = d / 'md.json'
    try:
        ok = tg.check_referential_integrity() is False
    except ValueError:
        ok = True
finally:
    shutil.rmtree(str(d))
sys.exit(0 if ok else 1)
'''),
    dict(id='p13-group-lang', property='P13',
         needs='an inherited property specified as false on the column and true on the table',
         breaks='the number zero or false given nearer is overridden by a value specified further out',
         edits=[('metadata.py', "            return self._parent.inherit(attr) if hasattr(self._parent, 'inherit') \\\n                else getattr(self._parent, attr)\n        return v",
                 "            return self._parent.inherit(attr) if hasattr(self._parent, 'inherit') \\\n                else getattr(self._parent, attr)\n        return v if v or self._parent is None else self._parent.inherit(attr) or v")],
         demo='''
from csvw import Table
t = Table.fromvalue({'url': 't.csv', 'required': True, 'tableSchema': {'columns': [{'name': 'a', 'required': False}]}})
sys.exit(0 if t.tableSchema.columns[0].inherit('required') is False else 1)
'''),
]
