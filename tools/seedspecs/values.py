"""Seeds for P19."""
HEAD = '''
import warnings
from csvw import *
from csvw.metadata import Dialect, Schema


def loaded(fn):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        return fn(), len(w)


def table(**kw):
    return Table.fromvalue(dict({'url': 'x.csv'}, **kw))
'''
SEEDS = [
    dict(id='p19-bool-number', property='P19',
         needs='true as number of rows to skip, in a dialect of a table of a group',
         breaks='booleans count as numbers',
         edits=[('utils.py', "(type_ == int and isinstance(s, bool))", "(type_ == int and s is False)"),],
         demo=HEAD + '''
t, w = loaded(lambda: table(dialect={'skipRows': True, 'headerRowCount': True, 'skipColumns': True}))
sys.exit(0 if w >= 3 and t.dialect.skipRows == 0 and t.dialect.skipRows is not True
         and t.dialect.skipColumns is not True and w else 1)
'''),
    dict(id='p19-null-some', property='P19',
         needs='a list of null markers with a member which is not a string after one which is',
         breaks='only the first of the null markers is checked',
         edits=[('metadata.py', "    if not all(isinstance(vv, str) for vv in res):\n        warnings.warn('Invalid null", "    if not all(isinstance(vv, str) for vv in res[:1]):\n        warnings.warn('Invalid null")],
         demo=HEAD + '''
c, w = loaded(lambda: Column.fromvalue({'name': 'a', 'null': ['NA', 5]}))
sys.exit(0 if w and c.null == [''] else 1)
'''),
    dict(id='p19-direction', property='P19',
         needs='textDirection given as part of a valid keyword',
         breaks='parts of the keywords are valid text directions',
         edits=[('metadata.py', 'cond=lambda v: v in [None, "ltr", "rtl", "auto", "inherit"])', 'cond=lambda v: v is None or v in "ltr rtl auto inherit")')],
         demo=HEAD + '''
c, w = loaded(lambda: Column.fromvalue({'name': 'a', 'textDirection': 'her'}))
ok = w and c.textDirection is None
c, w = loaded(lambda: Column.fromvalue({'name': 'a', 'textDirection': 'inherit'}))
sys.exit(0 if ok and not w and c.textDirection == 'inherit' else 1)
'''),
    dict(id='p19-skip-zero', property='P19',
         needs='a header row count of zero in a dialect with other properties',
         breaks='zero header rows are invalid',
         edits=[('dsv_dialects.py', "        converter=functools.partial(utils.converter, int, 1, cond=lambda s: s >= 0),", "        converter=functools.partial(utils.converter, int, 1, cond=lambda s: s > 0),")],
         demo=HEAD + '''
t, w = loaded(lambda: table(dialect={'headerRowCount': 0, 'header': False}))
sys.exit(0 if not w and t.dialect.headerRowCount == 0 else 1)
'''),
    dict(id='p19-unknown-quiet', property='P19',
         needs='a property of another kind of description which exists for columns, in a schema',
         breaks='properties known for columns give no warning in schemas',
         edits=[('metadata.py', "                    warnings.warn('Invalid property {} for {}'.format(k, type_name))", "                    if k not in ('name', 'titles', 'url'):\n                        warnings.warn('Invalid property {} for {}'.format(k, type_name))")],
         demo=HEAD + '''
s, w = loaded(lambda: Schema.fromvalue({'columns': [], 'titles': 'x'}))
sys.exit(0 if w else 1)
'''),
]
