"""Seeds for P30 and P32."""
HEAD = '''
import copy
import json
import pathlib
import tempfile
import warnings
from csvw import *
from csvw.metadata import Dialect, Schema
from csvw.frictionless import DataPackage


def package(schema, **kw):
    return {'resources': [dict({
        'name': 'r', 'path': 'r.csv', 'scheme': 'file', 'format': 'csv', 'schema': schema}, **kw)]}


def table(schema, **kw):
    return DataPackage(package(schema, **kw)).to_tablegroup().tables[0]
'''
F, M = 'frictionless.py', 'metadata.py'
SEEDS = [
    dict(id='p30-zero-bound', property='P30',
         needs='a bound or length which is 0',
         breaks='bounds and lengths of 0 are dropped when importing a data package',
         edits=[(F, "        if prop in constraints:\n", "        if constraints.get(prop):\n")],
         demo=HEAD + '''
t = table({'fields': [{'name': 'a', 'type': 'integer', 'constraints': {'minimum': 0}}]})
sys.exit(0 if t.tableSchema.columns[0].datatype.minimum == 0 else 1)
'''),
    dict(id='p30-no-missing-values', property='P30',
         needs='an empty list of missing values: the empty cell is an empty string',
         breaks='an empty list of missing values is replaced by the default',
         edits=[(F, "        if prop in schema:\n            res[toprop] = schema[prop]\n", "        if schema.get(prop):\n            res[toprop] = schema[prop]\n")],
         demo=HEAD + '''
t = table({'fields': [{'name': 'a'}], 'missingValues': []})
sys.exit(0 if t.tableSchema.columns[0].inherit_null() == [] else 1)
'''),
    dict(id='p30-no-header', property='P30',
         needs='a CSV dialect with header or doubleQuote set to false',
         breaks='false options of the dialect are dropped',
         edits=[(F, "        if prop in d:\n            res[prop] = d[prop]\n", "        if d.get(prop):\n            res[prop] = d[prop]\n")],
         demo=HEAD + '''
t = table({'fields': [{'name': 'a'}]}, dialect={'header': False})
sys.exit(0 if t.dialect.header is False else 1)
'''),
    dict(id='p30-key-order', property='P30',
         needs='a foreign key with several fields in another order than in the table',
         breaks='the fields of foreign keys are sorted, which changes what they refer to',
         edits=[(F, "        columnReference=fk['fields'],\n",
                 "        columnReference=sorted([fk['fields']] if isinstance(fk['fields'], str) else fk['fields']),\n")],
         demo=HEAD + '''
t = table({'fields': [{'name': n} for n in 'abcd'], 'foreignKeys': [
    {'fields': ['b', 'a'], 'reference': {'resource': '', 'fields': ['c', 'd']}}]})
fk = t.tableSchema.foreignKeys[0]
sys.exit(0 if list(zip(fk.columnReference, fk.reference.columnReference)) == [('b', 'c'), ('a', 'd')] else 1)
'''),
    dict(id='p30-json-length', property='P30',
         needs='a geojson field with a length or a pattern',
         breaks='constraints of geojson fields are lost',
         edits=[(F, "            res['datatype']['base'] = 'json'\n            res['datatype']['dc:format'] = 'application/geo+json'\n",
                 "            res['datatype'] = {'base': 'json', 'dc:format': 'application/geo+json'}\n            spec = {k: v for k, v in spec.items() if k != 'constraints'}\n")],
         demo=HEAD + '''
t = table({'fields': [{'name': 'a', 'type': 'geojson', 'constraints': {'required': True, 'maxLength': 5}}]})
c = t.tableSchema.columns[0]
sys.exit(0 if c.required is True and c.datatype.maxLength == 5 else 1)
'''),
    dict(id='p30-first-schema-key', property='P30',
         needs='a self-reference in a resource which is not the first',
         breaks='self-references refer to the first table of the package',
         edits=[(F, "tableSchema=convert_table_schema(rsc.get('name'), schema, resource_map)",
                 "tableSchema=convert_table_schema(resources[0].get('name'), schema, resource_map)")],
         demo=HEAD + '''
p = package({'fields': [{'name': 'a'}]})
p['resources'].append(dict(p['resources'][0], name='s', path='s.csv', schema={
    'fields': [{'name': 'x'}, {'name': 'y'}], 'foreignKeys': [{'fields': 'x', 'reference': {'resource': '', 'fields': 'y'}}]}))
t = DataPackage(p).to_tablegroup().tables[1]
sys.exit(0 if t.tableSchema.foreignKeys[0].reference.resource.string == 's.csv' else 1)
'''),
    dict(id='p30-encoding', property='P30',
         needs='a resource with an encoding but without dialect',
         breaks='the encoding of resources without dialect is lost',
         edits=[(F, "    if rsc.get('encoding'):\n", "    if rsc.get('encoding') and d:\n")],
         demo=HEAD + '''
t = table({'fields': [{'name': 'a'}]}, encoding='latin-1')
sys.exit(0 if t.dialect.encoding == 'latin-1' else 1)
'''),
    dict(id='p32-sort-primary-key', property='P32',
         needs='primary keys whose columns are not in alphabetical order',
         breaks='checking the primary key sorts the primary key of the description',
         edits=[(M, "            get_pk = operator.itemgetter(*self.tableSchema.primaryKey)\n",
                 "            self.tableSchema.primaryKey.sort()\n            get_pk = operator.itemgetter(*self.tableSchema.primaryKey)\n")],
         demo=HEAD + '''
with tempfile.TemporaryDirectory() as d:
    d = pathlib.Path(d)
    d.joinpath('t.csv').write_text('a,b\\n1,2\\n', encoding='utf8')
    d.joinpath('md.json').write_text(json.dumps({'@context': 'http://www.w3.org/ns/csvw', 'url': 't.csv', 'tableSchema': {
        'columns': [{'name': 'a'}, {'name': 'b'}], 'primaryKey': ['b', 'a']}}), encoding='utf8')
    t = Table.from_file(d / 'md.json')
    t.check_primary_key()
    sys.exit(0 if t.tableSchema.primaryKey == ['b', 'a'] else 1)
'''),
    dict(id='p32-write-list', property='P32',
         needs='a list given as value of a column with separator',
         breaks='lists in rows given by the caller are changed when written',
         edits=[(M, "            return sep.join(fmt(vv) for vv in v or [])\n",
                 "            v = v if isinstance(v, list) else list(v or [])\n            for i, vv in enumerate(v):\n                v[i] = fmt(vv)\n            return sep.join(v)\n")],
         demo=HEAD + '''
t = Table.fromvalue({'url': 't.csv', 'tableSchema': {'columns': [{'name': 'a', 'separator': ';', 'datatype': 'integer'}]}})
rows = [{'a': [1, 2]}]
t.write(rows, fname=None)
sys.exit(0 if rows == [{'a': [1, 2]}] else 1)
'''),
    dict(id='p32-lenient-name', property='P32',
         needs='lenient reading of a column without name which only matches by its position',
         breaks='lenient reading renames columns of the description',
         edits=[(M, "                            if isinstance(res, str) and res.split",
                 "                            if not col.name:\n                                col.name = name\n                            if isinstance(res, str) and res.split")],
         demo=HEAD + '''
warnings.simplefilter('ignore')
with tempfile.TemporaryDirectory() as d:
    p = pathlib.Path(d) / 't.csv'
    p.write_text('x\\n1\\n', encoding='utf8')
    t = Table.fromvalue({'url': 't.csv', 'tableSchema': {'columns': [{'titles': ['y']}]}})
    list(t.iterdicts(fname=p, strict=False))
    sys.exit(0 if t.tableSchema.columns[0].name is None else 1)
'''),
    dict(id='p32-package-dialect', property='P32',
         needs='a package converted and used afterwards',
         breaks='foreign keys of the package are replaced by converted ones, so that a second conversion fails',
         edits=[(F, "                res[toprop] = [convert_foreignKey(rsc_name, fk, resource_map) for fk in res[toprop]]\n",
                 "                for i, fk in enumerate(res[toprop]):\n                    res[toprop][i] = convert_foreignKey(rsc_name, fk, resource_map)\n")],
         demo=HEAD + '''
p = package({'fields': [{'name': 'a'}, {'name': 'b'}], 'foreignKeys': [{'fields': 'a', 'reference': {'resource': '', 'fields': 'b'}}]})
before = copy.deepcopy(p)
DataPackage(p).to_tablegroup()
sys.exit(0 if p == before else 1)
'''),
    dict(id='p32-null-shared', property='P32',
         needs='null markers taken from the group, and a second table which has none',
         breaks='writing stores the inherited null markers in the column',
         edits=[(M, "        sep = self.inherit('separator')\n        null = self.inherit_null()\n",
                 "        sep = self.inherit('separator')\n        null = self.null = self.inherit_null()\n")],
         demo=HEAD + '''
tg = TableGroup.fromvalue({'@context': 'http://www.w3.org/ns/csvw', 'null': ['NA'], 'tables': [
    {'url': 't.csv', 'tableSchema': {'columns': [{'name': 'a'}]}}]})
before = tg.asdict()
tg.tables[0].write([{'a': None}], fname=None)
sys.exit(0 if tg.asdict() == before else 1)
'''),
]
