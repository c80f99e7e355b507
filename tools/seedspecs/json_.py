"""Seeds for P18."""
HEAD = '''
import json
import pathlib
import warnings
from csvw import *
from csvw.metadata import Dialect, Schema


def again(cls, d):
    a = cls.fromvalue(json.loads(json.dumps(d)))
    j = json.loads(json.dumps(a.asdict()))
    return a, j, cls.fromvalue(json.loads(json.dumps(j)))
'''
SEEDS = [
    dict(id='p18-zero-default', property='P18',
         needs='a dialect with a count of 0 header rows, or a datatype with length 0',
         breaks='properties which are 0 are not written',
         edits=[('utils.py', "            if not (omit_defaults and value == defs[field.name]):\n",
                 "            if not (omit_defaults and (value == defs[field.name] or value == 0 and value is not False)):\n")],
         demo=HEAD + '''
a, j, b = again(Table, {'url': 't.csv', 'dialect': {'headerRowCount': 0}})
sys.exit(0 if j['dialect'] == {'headerRowCount': 0} and a == b else 1)
'''),
    dict(id='p18-titles-one-language', property='P18',
         needs='titles in a single language which has several titles',
         breaks='the language of titles in one language is lost',
         edits=[('metadata.py', "        if list(self) == [None]:\n            if len(self[None]) == 1:\n                return self.getfirst()\n            return self[None]\n",
                 "        if len(self) == 1 and len(list(self.values())[0]) > 1:\n            return list(self.values())[0]\n        if list(self) == [None] and len(self[None]) == 1:\n            return self.getfirst()\n        if list(self) == [None]:\n            return self[None]\n")],
         demo=HEAD + '''
a, j, b = again(Column, {'titles': {'en': ['x', 'y']}})
sys.exit(0 if a == b else 1)
'''),
    dict(id='p18-datatype-id', property='P18',
         needs='a datatype with an @id or common properties, and nothing else but its base',
         breaks='@id and common properties of datatypes without facets are lost',
         edits=[('metadata.py', "        if len(res) == 1 and 'base' in res:\n", "        if 'base' in res and not any(k in res for k in attr.fields_dict(Datatype) if k != 'base'):\n")],
         demo=HEAD + '''
a, j, b = again(Column, {'name': 'a', 'datatype': {'@id': 'http://example.org/x', 'base': 'string'}})
sys.exit(0 if a == b else 1)
'''),
    dict(id='p18-schema-reference', property='P18',
         needs='a foreign key which refers to a schema instead of a table',
         breaks='schema references of foreign keys are lost',
         edits=[('metadata.py', "        res['reference'] = utils.attr_asdict(res['reference'], **kw)\n",
                 "        res['reference'] = {\n            k: v for k, v in utils.attr_asdict(res['reference'], **kw).items()\n            if k in ('resource', 'columnReference')}\n")],
         demo=HEAD + '''
d = {'columns': [{'name': 'a'}], 'foreignKeys': [{'columnReference': ['a'], 'reference': {
    'schemaReference': 'http://example.org/s', 'columnReference': ['b']}}]}
try:
    a, j, b = again(Schema, d)
except ValueError:
    sys.exit(1)
sys.exit(0 if a == b and j == d else 1)
'''),
    dict(id='p18-bound-format', property='P18',
         needs='a maximum in a datatype with decimal commas',
         breaks='exclusive bounds are written without regard to the format of the datatype',
         edits=[('metadata.py', "                res[attr_] = self.formatted(res[attr_])\n",
                 "                res[attr_] = self.formatted(res[attr_]) if 'Exclusive' not in attr_ else str(res[attr_])\n")],
         demo=HEAD + '''
try:
    a, j, b = again(Column, {'name': 'a', 'datatype': {'base': 'decimal', 'maxExclusive': '1,5',
                                                       'format': {'decimalChar': ',', 'groupChar': '.'}}})
except ValueError:
    sys.exit(1)
sys.exit(0 if a == b else 1)
'''),
    dict(id='p18-single-note', property='P18',
         needs='a list of one text as common property',
         breaks='lists of one plain value become that value',
         edits=[('metadata.py', "                return [_asdict_single(vv) for vv in v]\n            return _asdict_single(v)\n",
                 "                v = [_asdict_single(vv) for vv in v]\n                return v[0] if len(v) == 1 and isinstance(v[0], (int, float)) else v\n            return _asdict_single(v)\n")],
         demo=HEAD + '''
a, j, b = again(Column, {'name': 'a', 'dc:x': [5]})
sys.exit(0 if a == b else 1)
'''),
]
