HEAD = '''
import sqlite3, pathlib, tempfile, shutil
from csvw import TableGroup
from csvw.db import *
'''
SEEDS = [
    dict(id='p24-quote-column', property='P24',
         needs='a column whose name contains a backtick and is a member of the primary key',
         breaks='names of primary key columns are put into the statement without escaping',
         edits=[('db.py', """            clauses.append('PRIMARY KEY({0})'.format(quoted(
                *[col_translate(c) for c in self.primary_key])))""",
                 """            clauses.append('PRIMARY KEY({0})'.format(
                ','.join('`{0}`'.format(col_translate(c)) for c in self.primary_key)))""")],
         demo=HEAD + '''
tg = TableGroup.fromvalue({'tables': [{'url': 'a.csv', 'tableSchema': {
    'columns': [{'name': 'a`b', 'datatype': 'string'}], 'primaryKey': ['a`b']}}]})
db = Database(tg)
try:
    db.write(**{'a.csv': [{'a`b': 'x'}]})
    ok = db.read()['a.csv'][0]['a`b'] == 'x'
except sqlite3.Error:
    ok = False
sys.exit(0 if ok else 1)
'''),
    dict(id='p24-select-brackets', property='P24',
         needs='a table name containing a closing bracket',
         breaks='the name of the table read is quoted by brackets without escaping',
         edits=[('db.py', """cu = db.execute("SELECT * FROM {0}".format(quoted(table)))""",
                 """cu = db.execute("SELECT * FROM [{0}]".format(table))""")],
         demo=HEAD + '''
tg = TableGroup.fromvalue({'tables': [{'url': 'a].csv', 'tableSchema': {'columns': [{'name': 'id'}]}}]})
db = Database(tg)
try:
    db.write(**{'a].csv': [{'id': '1'}]})
    ok = db.read()['a].csv'][0]['id'] == '1'
except sqlite3.Error:
    ok = False
sys.exit(0 if ok else 1)
'''),
    dict(id='p25-inherit-required', property='P25',
         needs='required specified on the table or group, inherited by the columns',
         breaks='only columns with an own required property are NOT NULL',
         edits=[('db.py', "required=c.inherit('required'),", "required=c.required,")],
         demo=HEAD + '''
tg = TableGroup.fromvalue({'tables': [{'url': 'a.csv', 'tableSchema': {'required': True, 'columns': [{'name': 'id'}]}}]})
db = Database(tg)
try:
    db.write(**{'a.csv': [{'id': None}]})
    ok = False
except sqlite3.IntegrityError:
    ok = True
sys.exit(0 if ok else 1)
'''),
    dict(id='p25-selfref-name', property='P25',
         needs='drop_self_referential_fks=True and a composite self-referential key',
         breaks='foreign keys of several columns to the table itself are not dropped',
         edits=[('db.py', "elif not (drop_self_referential_fks and fk.reference.resource.string == spec.name):",
                 "elif not (drop_self_referential_fks and len(fk.columnReference) == 1\n                          and fk.reference.resource.string == spec.name):")],
         demo=HEAD + '''
tg = TableGroup.fromvalue({'tables': [{'url': 'a.csv', 'tableSchema': {'columns': [
    {'name': n} for n in ['a', 'b', 'c', 'd']], 'primaryKey': ['a', 'b'], 'foreignKeys': [
    {'columnReference': ['c', 'd'], 'reference': {'resource': 'a.csv', 'columnReference': ['a', 'b']}}]}}]})
db = Database(tg)
try:
    db.write(**{'a.csv': [dict(a='1', b='1', c='2', d='2'), dict(a='2', b='2', c=None, d=None)]})
    ok = len(db.read()['a.csv']) == 2
    schema_ = schema(tg)[0].foreign_keys
    ok = ok and not schema_
except sqlite3.Error:
    ok = False
sys.exit(0 if ok else 1)
'''),
    dict(id='p25-assoc-other', property='P25',
         needs='a list-valued foreign key referencing a column of another name than the primary key of the referencing table',
         breaks='the second foreign key of an association table references the wrong column',
         edits=[('db.py', "([bfk.name], btable, [bpk]),", "([bfk.name], btable, [apk if atable == btable else bpk]),")],
         demo=HEAD + '''
tg = TableGroup.fromvalue({'tables': [{'url': 'a.csv', 'tableSchema': {'columns': [
    {'name': 'id'}, {'name': 'key'}, {'name': 'l', 'separator': ';'}], 'primaryKey': ['id'], 'foreignKeys': [
    {'columnReference': ['l'], 'reference': {'resource': 'a.csv', 'columnReference': ['key']}}]}}]})
at = [t for t in schema(tg) if t.name != 'a.csv'][0]
sys.exit(0 if at.foreign_keys[1][2] == ['key'] else 1)
'''),
    dict(id='p26-self-association', property='P26',
         needs='three tables in which a table references two others, one of them created already',
         breaks='a table is created as soon as one of its referenced tables exists',
         edits=[('db.py', "if all((ref[1] in ordered) or ref[1] == table for ref in tables[table].foreign_keys):",
                 "refs = {ref[1] for ref in tables[table].foreign_keys} - {table}\n            if not refs or (len(refs) > 2 and len(refs & set(ordered)) > 1) or refs <= set(ordered):")],
         demo=HEAD + '''
cols = [{'name': n} for n in ['id', 'a', 'b', 'c']]
fk = lambda c, t: {'columnReference': [c], 'reference': {'resource': t, 'columnReference': ['id']}}
T = lambda n, *fks: {'url': n, 'tableSchema': {'columns': cols, 'primaryKey': ['id'], 'foreignKeys': list(fks)}}
tg = TableGroup.fromvalue({'tables': [
    T('a'), T('b', fk('a', 'a')), T('d', fk('a', 'a'), fk('b', 'b'), fk('c', 'c')), T('c', fk('a', 'a'))]})
names = [t.name for t in schema(tg)]
sys.exit(0 if names.index('c') < names.index('d') else 1)
'''),
    dict(id='p27-skip-extra-rest', property='P27',
         needs='a data column not in the schema followed by further columns, with _skip_extra',
         breaks='an unspecified column ends the reading of the row: columns after it are lost',
         edits=[('db.py', """                                if _skip_extra:
                                    continue""", """                                if _skip_extra:
                                    break""")],
         demo=HEAD + '''
tg = TableGroup.fromvalue({'tables': [{'url': 'a.csv', 'tableSchema': {'columns': [
    {'name': 'id'}, {'name': 'key'}]}}]})
db = Database(tg)
db.write(_skip_extra=True, **{'a.csv': [{'id': '1', 'x': '2', 'key': '3'}]})
r = dict(db.read()['a.csv'][0])
sys.exit(0 if r == {'id': '1', 'key': '3'} else 1)
'''),
    dict(id='p27-context', property='P27',
         needs='a list-valued foreign key whose items are not strings or are padded',
         breaks='keys of association rows are stripped of whitespace: the element is not what is inserted',
         edits=[('db.py', "        return fkey, column\n", "        return (fkey.strip() if isinstance(fkey, str) else fkey), column\n")],
         demo=HEAD + '''
tg = TableGroup.fromvalue({'tables': [
  {'url': 'a.csv', 'tableSchema': {'columns': [{'name': 'id'}], 'primaryKey': ['id']}},
  {'url': 'b.csv', 'tableSchema': {'columns': [{'name': 'id'}, {'name': "x", 'separator': ';'}],
   'primaryKey': ['id'],
   'foreignKeys': [{'columnReference': "x", 'reference': {'resource': 'a.csv', 'columnReference': 'id'}}]}}]})
db = Database(tg)
try:
    db.write(**{'a.csv': [{'id': ' 1'}], 'b.csv': [{'id': '2', "x": [' 1']}]})
    ok = db.read()['b.csv'][0]["x"] == [' 1']
except sqlite3.Error:
    ok = False
sys.exit(0 if ok else 1)
'''),
    dict(id='p28-insert-swallow', property='P28',
         needs='a row duplicating the primary key of another row',
         breaks='a row which cannot be inserted is printed and dropped',
         edits=[('db.py', """                print(sql)
                print(rows)
                raise
""", """                print(sql)
                print(rows)
                if 'UNIQUE' not in str(sys.exc_info()[1]):
                    raise  # Duplicates are dropped.
"""), ('db.py', 'import json\nimport typing', 'import sys\nimport json\nimport typing')],
         demo=HEAD + '''
tg = TableGroup.fromvalue({'tables': [{'url': 'a.csv', 'tableSchema': {'columns': [
    {'name': 'id'}, {'name': 'key'}], 'primaryKey': ['id']}}]})
db = Database(tg)
try:
    db.write(**{'a.csv': [{'id': '1', 'key': '2'}, {'id': '1', 'key': '3'}]})
    ok = False
except sqlite3.IntegrityError:
    ok = True
sys.exit(0 if ok else 1)
'''),
    dict(id='p28-commit', property='P28',
         needs='a database file and data without a single item of a list-valued foreign key',
         breaks='the last transaction is only committed if rows of association tables were written',
         edits=[('db.py', "                    for row in rows])\n\n            db.commit()", "                    for row in rows])\n                db.commit()")],
         demo=HEAD + '''
d = pathlib.Path(tempfile.mkdtemp())
try:
    tg = TableGroup.fromvalue({'tables': [{'url': 'a.csv', 'tableSchema': {'columns': [{'name': 'id'}]}}]})
    db = Database(tg, fname=d / 'db.sqlite')
    db.write(**{'a.csv': [{'id': '1'}]})
    ok = len(db.read()['a.csv']) == 1
finally:
    shutil.rmtree(str(d))
sys.exit(0 if ok else 1)
'''),
    dict(id='p29-decimal-float', property='P29',
         needs='a decimal value which is not exact as a double',
         breaks='decimals are read as Decimal of the binary fraction',
         edits=[('db.py', "lambda s: s if s is None else decimal.Decimal(str(s))),", "lambda s: s if s is None else decimal.Decimal(s)),")],
         demo=HEAD + '''
from decimal import Decimal
tg = TableGroup.fromvalue({'tables': [{'url': 'a.csv', 'tableSchema': {'columns': [
    {'name': 'id', 'datatype': 'decimal'}]}}]})
db = Database(tg)
db.write(**{'a.csv': [{'id': Decimal('0.1')}]})
sys.exit(0 if db.read()['a.csv'][0]['id'] == Decimal('0.1') else 1)
'''),
    dict(id='p29-falsy', property='P29',
         needs='a value stored as 0, e.g. false or 0 in a non-list column',
         breaks='false, 0 and empty strings are read as missing values',
         edits=[('db.py', "d[k] = convert[k][1](v) if v is not None else None", "d[k] = convert[k][1](v) if v is not None and v != '' else None")],
         demo=HEAD + '''
tg = TableGroup.fromvalue({'tables': [{'url': 'a.csv', 'tableSchema': {'columns': [
    {'name': 'id', 'datatype': 'string'}]}}]})
db = Database(tg)
db.write(**{'a.csv': [{'id': ''}, {'id': None}]})
sys.exit(0 if [r['id'] for r in db.read()['a.csv']] == ['', None] else 1)
'''),
    dict(id='p29-refs-key', property='P29',
         needs='a table whose primary key column is renamed by the translator, with a list-valued foreign key',
         breaks='the key of a row is looked up by its csvw name: items of list-valued foreign keys are lost',
         edits=[('db.py', "pk = d[self.translate(tname, table.primary_key[0])] \\\n", "pk = d.get(table.primary_key[0]) \\\n")],
         demo=HEAD + '''
tg = TableGroup.fromvalue({'tables': [
  {'url': 'a.csv', 'tableSchema': {'columns': [{'name': 'id'}], 'primaryKey': ['id']}},
  {'url': 'b.csv', 'tableSchema': {'columns': [{'name': 'id'}, {'name': "x", 'separator': ';'}],
   'primaryKey': ['id'],
   'foreignKeys': [{'columnReference': "x", 'reference': {'resource': 'a.csv', 'columnReference': 'id'}}]}}]})
db = Database(tg, translate=lambda t, c=None: 'c_' + c if c else t)
db.write(**{'a.csv': [{'id': '1'}], 'b.csv': [{'id': '2', "x": ['1']}]})
sys.exit(0 if db.read()['b.csv'][0]["c_x"] == ['1'] else 1)
'''),
]
