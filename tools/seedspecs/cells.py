SEEDS = [
    dict(id='p06-default-before-required', property='P06',
         needs='a required list column whose separator is set on the schema, with a null marker as cell',
         breaks='a required cell holding a null marker is accepted if the column is list-valued',
         edits=[('metadata.py', "        if required and v in null:\n            if not strict:",
                 "        if required and v in null and not (separator and v):\n            if not strict:")],
         demo='''
from csvw.metadata import Column
c = Column.fromvalue({'name': 'a', 'separator': ';', 'required': True, 'null': ['', '-']})
try:
    c.read('-')
except ValueError:
    sys.exit(0)
sys.exit(1)
'''),
    dict(id='p06-element-default', property='P06',
         needs='a list column with a default, and an empty element',
         breaks='empty elements of a list are no longer replaced by the default',
         edits=[('metadata.py', "v = (vv or default for vv in v.split(separator))",
                 "v = (vv or (default if len(null) > 1 else '') for vv in v.split(separator))")],
         demo='''
from csvw.metadata import Column
c = Column.fromvalue({'name': 'a', 'separator': ';', 'default': 'x', 'null': ['-']})
sys.exit(0 if c.read('a;;b') == ['a', 'x', 'b'] else 1)
'''),
    dict(id='p07-null-in-list', property='P07',
         needs='a list-valued column with a null marker that is not empty, and a missing element',
         breaks='missing list elements are written as the last instead of the first null marker',
         edits=[('metadata.py', "return sep.join(fmt(vv) for vv in v or [])",
                 "return sep.join((null or [''])[-1] if vv is None else fmt(vv) for vv in v or [])")],
         demo='''
from csvw.metadata import Column
c = Column.fromvalue({'name': 'a', 'separator': ';', 'null': ['-', 'NA']})
sys.exit(0 if c.write(['a', None, 'b']) == 'a;-;b' else 1)
'''),
    dict(id='p08-min-exclusive-zero', property='P08',
         needs='a minExclusive facet equal to zero and the value zero',
         breaks='a value equal to a falsy exclusive bound is accepted',
         edits=[('metadata.py', "if self.minExclusive is not None and v <= self.minExclusive:",
                 "if self.minExclusive is not None and (\n"
                 "                    v < self.minExclusive or (v and v == self.minExclusive)):")],
         demo='''
from csvw.metadata import Datatype
d = Datatype.fromvalue({'base': 'integer', 'minExclusive': 0})
try:
    d.read('0')
except ValueError:
    sys.exit(0)
sys.exit(1)
'''),
    dict(id='p08-length-empty', property='P08',
         needs='an empty list-free string value with a minimal length, read with no null marker',
         breaks='the minimal length is not applied to empty strings',
         edits=[('metadata.py', "            if self.minLength is not None and l_ < self.minLength:\n                raise ValueError('value must have at least",
                 "            if self.minLength is not None and 0 < l_ < self.minLength:\n                raise ValueError('value must have at least")],
         demo='''
from csvw.metadata import Column
c = Column.fromvalue({'name': 'a', 'datatype': {'base': 'string', 'minLength': 2}, 'null': ['-']})
try:
    c.read('')
except ValueError:
    sys.exit(0)
sys.exit(1)
'''),
    dict(id='p13-falsy-inherit', property='P13',
         needs='ordered or required set to false on the column and true on the schema',
         breaks='a falsy value specified on the column is overridden by the schema',
         edits=[('metadata.py', "        v = getattr(self, attr)\n",
                 "        v = getattr(self, attr) if attr in ('default', 'lang') else (\n            getattr(self, attr) or None)\n")],
         demo='''
from csvw.metadata import Schema
s = Schema.fromvalue({'required': True, 'columns': [{'name': 'a', 'required': False}]})
sys.exit(0 if s.columns[0].inherit('required') is False else 1)
'''),
    dict(id='p13-null-group', property='P13',
         needs='null markers given on the table group only',
         breaks='null markers of the table group do not reach the columns',
         edits=[('metadata.py', "            if self._parent and hasattr(self._parent, 'inherit_null'):\n                return self._parent.inherit_null()",
                 "            if self._parent and hasattr(self._parent, 'inherit_null'):\n                return self._parent.inherit_null() if isinstance(\n                    self._parent, Schema) else self._parent.null")],
         demo='''
from csvw.metadata import TableGroup
tg = TableGroup.fromvalue({'null': ['-'], 'tables': [{'url': 'x', 'tableSchema': {'columns': [{'name': 'a'}]}}]})
sys.exit(0 if tg.tables[0].tableSchema.columns[0].inherit_null() == ['-'] else 1)
'''),
]
