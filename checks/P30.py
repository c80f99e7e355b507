"""Importing a Frictionless data package."""
from .common import *
from . import P19
from .P19 import ANYSTR, py
from .P20 import doc
from csvwlint.path import _NO

ASSUMPTIONS = ['packages are valid: fields have names, bounds and lengths leave some value, foreign keys refer to '
               'tabular resources by name; paths are single strings; dialects and schemas are given inline',
               'bounds are JSON numbers or dates and times in ISO 8601; numbers are '
               'bare; patterns are for fields whose values are no numbers, booleans, dates or times',
               'of several tokens for true or false the first counts; date formats and enum, unique, lineTerminator, '
               'escapeChar, nullSequence are not supported',
               'json.loads gives the data of the document']
MODS = ['csvw', 'csvw.metadata', 'csvw.frictionless', 'csvw.datatypes', 'csvw.utils', 'csvw.dsv_dialects']

BASES = {'year': 'gYear', 'yearmonth': 'gYearMonth', 'object': 'json', 'array': 'json', 'geojson': 'json',
         'any': 'string', 'geopoint': 'string', None: 'string'}
SAME = ['string', 'number', 'integer', 'boolean', 'date', 'time', 'datetime', 'duration']
TYPES = [None] + SAME + ['year', 'yearmonth', 'object', 'array', 'geojson', 'any', 'geopoint']
FORMATS = {'binary': 'binary', 'uri': 'anyURI', 'email': 'string', 'uuid': 'string', 'default': 'string'}
TEXT = ['string', 'object', 'array', 'geojson', 'any', 'geopoint', None, 'year', 'yearmonth']
BOUND = {'integer': [0, 5, -3], 'number': [0, 1.5, -2], 'date': ['2020-01-02', '2021-01-02'],
         'time': ['10:00:00', '11:00:00'], 'datetime': ['2020-01-01T10:00:00', '2021-01-01T10:00:00'], 'duration': ['P1Y', 'P2Y']}


def base_of(f):
    if f.get('type') == 'string' and f.get('format'):
        return FORMATS[f['format']]
    return BASES.get(f.get('type'), f.get('type'))


def prepare(eng):
    P19.prepare(eng)


def pick(P, what, vals):
    return vals[P.choose(what, len(vals))]


def package(*resources, **kw):
    return dict(kw, resources=list(resources))


def resource(schema, name='r', path='r.csv', **kw):
    return dict({'name': name, 'path': path, 'scheme': 'file', 'format': 'csv', 'schema': schema}, **kw)


def convert(eng, p, entry=None):
    d = doc(eng, p)

    def f():
        dp = eng.call(find(eng, 'csvw.frictionless.DataPackage'), [d])
        return eng.call(eng.getattr(dp, 'to_tablegroup'), [])

    def g():
        return eng.call(eng.getattr(find(eng, 'csvw.metadata.TableGroup'), 'from_frictionless_datapackage'), [d])
    return run(eng, g if entry else f)


def opaque_truth(v):
    return isinstance(v, V)


def tables(eng, tg):
    return thaw_items(eng.getattr(tg, 'tables')) or []


def columns(eng, t):
    return thaw_items(eng.getattr(eng.getattr(t, 'tableSchema'), 'columns'))


def eq(eng, got, want):
    """values: python data or symbols"""
    if isinstance(want, (list, tuple)):
        items = list(got) if isinstance(got, (tuple, list)) else thaw_items(got)
        return items is not None and len(items) == len(want) and all(eq(eng, a, b) for a, b in zip(items, want))
    if isinstance(want, dict):
        return isinstance(got, VDict) and not got.rest and len(got.keys()) == len(want) and all(
            k in want and eq(eng, v, want[k]) for k, v in got.pairs())
    if want is None or isinstance(want, bool):
        return got is want
    return same(eng, got, want) is True


def get(eng, obj, *path):
    for p in path:
        if obj is None:
            return None
        obj = eng.getattr(obj, p)
    return obj


def titles_of(eng, col):
    t = get(eng, col, 'titles')
    if t is None:
        return []
    res = []
    for _, v in (t.payload or t).pairs():
        res.extend(thaw_items(v))
    return res


def link(eng, v):
    return v.attrs.get('string') if isinstance(v, Inst) else v


def uri(eng, v):
    if v is None or not isinstance(v, Inst):
        return v
    return v.attrs.get('uri') if 'uri' in v.attrs else (v.attrs.get('__ext_args__') or [None])[0]


def check_field(eng, ob, what, col, f):
    """a column for the field"""
    c = f.get('constraints', {})

    def claim(x, got, want):
        ob(eq(eng, got, want), '{}: {}'.format(what, x), lambda: '{} of {} is {} instead of {}'.format(
            x, f, show(got) if not isinstance(got, list) else [show(g) for g in got], want))
    claim('name', get(eng, col, 'name'), f['name'])
    claim('type', get(eng, col, 'datatype', 'base'), base_of(f))
    claim('title', titles_of(eng, col), [f['title']] if f.get('title') else [])
    desc = get(eng, get(eng, col, 'common_props'), 'get')
    d = eng.call(desc, ['dc:description'])
    if 'description' in f:
        ok = eq(eng, d, f['description']) or eq(eng, d, [f['description']])
        ob(ok, what + ': description', lambda: 'the description of {} is {}'.format(f, show(d)))
    elif d is not None:
        claim('description', d, None)
    if 'rdfType' in f:
        claim('rdfType', uri(eng, get(eng, col, 'propertyUrl')), f['rdfType'])
    for k in ('minLength', 'maxLength'):
        claim(k, get(eng, col, 'datatype', k), c.get(k))
    for k in ('minimum', 'maximum'):
        got = get(eng, col, 'datatype', k)
        if k not in c:
            claim(k, got, None)
        else:
            dt = get(eng, col, 'datatype')
            want = call(eng, dt, 'parse', c[k])
            ob(want.returned and got is not None and same(eng, got, want.value) is True, '{}: {}'.format(what, k), lambda: (
                '{} of {} is {}'.format(k, f, show(got))))
    req = get(eng, col, 'required')
    want = c.get('required')
    ob(same(eng, req, want) is True if isinstance(want, V) else
       (req is want if want else req in (None, False)), what + ': required', lambda: '{} is required: {}'.format(f, show(req)))
    fmt = get(eng, col, 'datatype', 'format')
    if f.get('type') in ('number', 'integer'):
        want = {k: f[k] for k in ('decimalChar', 'groupChar') if f.get(k)}
        if want:
            claim('characters of numbers', fmt, want)
        else:
            claim('format', fmt, None)
    elif f.get('type') == 'boolean':
        if f.get('trueValues') or f.get('falseValues'):
            claim('tokens', fmt, '{}|{}'.format((f.get('trueValues') or ['true'])[0], (f.get('falseValues') or ['false'])[0]))
        else:
            claim('format', fmt, None)
    elif f.get('type') in ('date', 'time', 'datetime'):
        claim('format', fmt, None)
    else:
        claim('pattern', fmt, c.get('pattern'))


# -- fields --------------------------------------------------------------------------------
def one(eng, ob, f, what, schema=None):
    o = convert(eng, package(resource(dict(schema or {}, fields=[f]))))
    if not o.returned:
        ob(False, what + ': valid', lambda: 'importing {} {}'.format(f, o.describe(eng)))
        return
    ts = tables(eng, o.value)
    cols = columns(eng, ts[0]) if len(ts) == 1 else []
    ob(len(cols) == 1, what + ': field', lambda: 'field {} gives {} columns'.format(f, len(cols)))
    for c in cols[:1]:
        check_field(eng, ob, what, c, f)


def some(P, what, vals):
    """a value or none"""
    i = P.choose(what, len(vals) + 1)
    return {} if not i else {what.split()[-1]: vals[i - 1]}


def any_str(name):
    return S(name, 'str', notnone=True, truthy=True)


def types(eng, ob):
    """each type with the constraints it may have"""
    prepare(eng)
    P = eng.path
    t = pick(P, 'type', TYPES)
    f = dict({'name': 'a'}, **({} if t is None else {'type': t}))
    if t == 'string':
        f.update(some(P, 'format', sorted(FORMATS)))
    c = {}
    if P.choose('constraints', 2):
        c.update(some(P, 'required', [True, False]))
        if t in TEXT:
            lengths = pick(P, 'lengths', [{}, {'minLength': 0}, {'minLength': 2}, {'maxLength': 0}, {'maxLength': 5}, {'minLength': 0, 'maxLength': 7}])
            c.update(lengths)
            c.update(some(P, 'pattern', ['x*', '']))
        elif t in BOUND:
            bs = BOUND[t]
            # the order of dates and times is not modelled
            both = [{'minimum': min(bs), 'maximum': max(bs)}] if t in ('integer', 'number') else []
            c.update(pick(P, 'bounds', [{}] + [{k: b} for k in ('minimum', 'maximum') for b in bs] + both))
            if t == 'duration':
                c.update(some(P, 'pattern', ['x*']))
        f['constraints'] = c
    one(eng, ob, f, 'type')


def order(eng, ob):
    """the order in which constraints and properties are given does not matter"""
    prepare(eng)
    P = eng.path
    c = [('required', True), ('minLength', 1), ('maxLength', 9), ('pattern', 'x*'), ('unique', True), ('enum', ['x'])]
    c = dict(pick(P, 'order', [c, c[::-1], c[3:] + c[:3]]))
    f = [('name', 'a'), ('type', 'string'), ('format', 'email'), ('title', 't'), ('description', 'd'), ('rdfType', 'http://x.org/y'),
         ('constraints', c), ('example', 'x')]
    f = pick(P, 'order of properties', [f, f[::-1]])
    drop = pick(P, 'without', [None, 'type', 'format', 'title', 'description', 'rdfType', 'constraints', 'unique', 'pattern', 'required'])
    f = {k: {x: y for x, y in v.items() if x != drop} if k == 'constraints' else v for k, v in f if k != drop}
    if f.get('format') and 'type' not in f:
        f.pop('format')
    one(eng, ob, f, 'field')


def numbers(eng, ob):
    prepare(eng)
    P = eng.path
    f = {'name': 'a', 'type': pick(P, 'type', ['number', 'integer'])}
    f.update(some(P, 'decimalChar', [',', '.']))
    f.update(some(P, 'groupChar', [',', ' ', '.']))
    f.update(some(P, 'bareNumber', [True]))
    c = {}
    c.update(some(P, 'minimum', [0, 3]))
    c.update(some(P, 'maximum', [9]))
    c.update(some(P, 'required', [True]))
    if c or P.choose('empty constraints', 2):
        f['constraints'] = c
    one(eng, ob, f, 'number')


def booleans(eng, ob):
    prepare(eng)
    P = eng.path
    f = {'name': 'a', 'type': 'boolean'}
    f.update(some(P, 'trueValues', [['Y'], ['ja', 'Y'], ['1', 'true'], []]))
    f.update(some(P, 'falseValues', [['N'], ['nein', 'N'], ['0'], []]))
    if P.choose('constraints', 2):
        f['constraints'] = dict(some(P, 'required', [True]))
    one(eng, ob, f, 'boolean')


def patterns(eng, ob):
    """a pattern is no obstacle for fields whose format is no regular expression"""
    prepare(eng)
    P = eng.path
    t = pick(P, 'type', ['number', 'integer', 'boolean', 'date', 'time', 'datetime'])
    c = {'pattern': pick(P, 'pattern', ['[a-z]{3}', '00', 'x|y', '.*']), 'required': True}
    f = {'name': 'a', 'type': t, 'constraints': c}
    o = convert(eng, package(resource({'fields': [f]})))
    ob(o.returned, 'pattern: valid', lambda: 'importing {} {}'.format(f, o.describe(eng)))
    if o.returned:
        col = columns(eng, tables(eng, o.value)[0])[0]
        ob(eq(eng, get(eng, col, 'datatype', 'base'), t), 'pattern: type', 'the type is ' + show(get(eng, col, 'datatype', 'base')))
        ob(get(eng, col, 'required') is True, 'pattern: required', 'required is lost')


def years(eng, ob):
    """bounds of years"""
    prepare(eng)
    P = eng.path
    t, b = pick(P, 'type', [('year', 1990), ('year', '1990'), ('yearmonth', '1990-01')])
    k = pick(P, 'bound', ['minimum', 'maximum'])
    f = {'name': 'a', 'type': t, 'constraints': {k: b}}
    o = convert(eng, package(resource({'fields': [f]})))
    if not o.returned:
        ob(False, 'bounds', lambda: 'importing {} {}'.format(f, o.describe(eng)))
        return
    col = columns(eng, tables(eng, o.value)[0])[0]
    got = get(eng, col, 'datatype', k)
    ob(got is not None, 'bounds', lambda: '{} of {} is lost'.format(k, f))


def symbolic(eng, ob):
    """arbitrary texts"""
    prepare(eng)
    P = eng.path
    f = {'name': any_str('name'), 'title': any_str('title'), 'description': any_str('description')}
    t = pick(P, 'type', [None, 'string', 'integer', 'date', 'array'])
    if t:
        f['type'] = t
    if t in (None, 'string', 'array'):
        f['constraints'] = {'pattern': any_str('pattern'), 'minLength': S('n', 'int', notnone=True)} if t != 'array' else {
            'pattern': any_str('pattern')}
    drop = pick(P, 'without', [None, 'title', 'description'])
    f.pop(drop, None)
    o = convert(eng, package(resource({'fields': [f]})))
    if not o.returned:
        ob(None if o.is_exc(eng, 'ValueError') else False, 'texts', lambda: o.describe(eng))
        return
    cols = columns(eng, tables(eng, o.value)[0])
    ob(len(cols) == 1, 'texts: field', '{} columns for a field'.format(len(cols)))
    for c in cols[:1]:
        check_field(eng, ob, 'texts', c, f)


# -- schemas ---------------------------------------------------------------------------------
FIELDS = [{'name': 'a', 'type': 'integer'}, {'name': 'b', 'constraints': {'required': True}}, {'name': 'c', 'type': 'boolean', 'trueValues': ['Y'], 'falseValues': ['N']},
          {'name': 'd', 'type': 'number', 'decimalChar': ','}, {'name': 'e', 'constraints': {'pattern': 'x'}, 'title': 'E', 'description': 'text'},
          {'name': 'A'}, {'name': '0'}]
ORDERS = [[0, 1, 2, 3, 4, 5, 6], [6, 5, 4, 3, 2, 1, 0], [4, 1], [1], [], [2, 6, 0, 3]]


def fields(eng, ob):
    """all fields in order"""
    prepare(eng)
    P = eng.path
    fs = [FIELDS[i] for i in pick(P, 'fields', ORDERS)]
    o = convert(eng, package(resource({'fields': fs})), entry=P.choose('how', 2))
    if not o.returned:
        ob(False, 'fields: valid', lambda: o.describe(eng))
        return
    ts = tables(eng, o.value)
    cols = columns(eng, ts[0]) if len(ts) == 1 else []
    ob(len(cols) == len(fs), 'fields', lambda: '{} columns for {} fields'.format(len(cols), len(fs)))
    for c, f in zip(cols, fs):
        check_field(eng, ob, 'fields', c, f)


def aslist(x):
    return x if isinstance(x, list) else [x]


def schemas(eng, ob):
    """missing values and primary keys"""
    prepare(eng)
    P = eng.path
    s = {'fields': [{'name': 'a'}, {'name': 'b'}, {'name': 'c', 'type': 'integer'}]}
    s.update(some(P, 'missingValues', [[], [''], ['NA'], ['', 'NA'], ['-', 'n/a', ''], [any_str('missing')]]))
    s.update(some(P, 'primaryKey', ['a', ['a'], ['b', 'a'], ['a', 'c'], ['c', 'b', 'a'], []]))
    if P.choose('order', 2):
        s = dict(reversed(list(s.items())))
    o = convert(eng, package(resource(s)))
    if not o.returned:
        ob(False, 'schema: valid', lambda: o.describe(eng))
        return
    t = tables(eng, o.value)[0]
    ts = eng.getattr(t, 'tableSchema')
    for i, c in enumerate(columns(eng, t)):
        n = call(eng, c, 'inherit_null')
        ob(n.returned and eq(eng, n.value, s.get('missingValues', [''])), 'schema: missing values', lambda: (
            'missing values of column {} are {} instead of {}'.format(i, show(n.value), s.get('missingValues', ['']))))
    pk = get(eng, ts, 'primaryKey')
    want = aslist(s.get('primaryKey', []))
    ob(eq(eng, pk, want) or not want and pk is None, 'schema: primary key', lambda: 'the primary key is {} instead of {}'.format(show(pk), want))
    ob(len(thaw_items(get(eng, ts, 'foreignKeys'))) == 0, 'schema: no foreign keys', 'there are foreign keys')


KEYS = [
    ('r', {'fields': 'a', 'reference': {'resource': '', 'fields': 'b'}}, ['a'], 'r.csv', ['b']),
    ('r', {'fields': ['a'], 'reference': {'fields': ['b'], 'resource': ''}}, ['a'], 'r.csv', ['b']),
    ('r', {'reference': {'fields': ['b']}, 'fields': ['a']}, ['a'], 'r.csv', ['b']),
    ('r', {'fields': ['a'], 'reference': {'resource': 'r', 'fields': ['b']}}, ['a'], 'r.csv', ['b']),
    ('r', {'fields': 'a', 'reference': {'resource': 's', 'fields': 'x'}}, ['a'], 'dir/s.csv', ['x']),
    ('r', {'fields': ['a', 'b'], 'reference': {'resource': 's', 'fields': ['y', 'x']}}, ['a', 'b'], 'dir/s.csv', ['y', 'x']),
    ('s', {'fields': ['x'], 'reference': {'resource': 'r', 'fields': ['a']}}, ['x'], 'r.csv', ['a']),
    ('s', {'fields': ['x', 'y'], 'reference': {'resource': '', 'fields': ['y', 'x']}}, ['x', 'y'], 'dir/s.csv', ['y', 'x']),
    ('r', {'fields': ['b', 'a'], 'reference': {'resource': 's', 'fields': ['x', 'y']}}, ['b', 'a'], 'dir/s.csv', ['x', 'y']),
    ('s', {'fields': 'y', 'reference': {'resource': 'q', 'fields': 'a'}}, ['y'], 'q', ['a'])]


def foreign_keys(eng, ob):
    prepare(eng)
    P = eng.path
    n = P.choose('number', 3) + 1
    ks = [pick(P, 'key {}'.format(i), KEYS if n < 3 or i < 1 else KEYS[3:6]) for i in range(n)]
    res = {'r': ('r.csv', [{'name': 'a'}, {'name': 'b'}]), 's': ('dir/s.csv', [{'name': 'x'}, {'name': 'y'}]), 'q': ('q', [{'name': 'a'}])}
    order_ = pick(P, 'order', [['r', 's', 'q'], ['q', 's', 'r']])
    rs = []
    for name in order_:
        path, fs = res[name]
        s = {'fields': fs}
        own = [k[1] for k in ks if k[0] == name]
        if own or name == 'q':
            s['foreignKeys'] = own
        rs.append(resource(s, name, path))
    o = convert(eng, package(*rs))
    if not o.returned:
        ob(False, 'foreign keys: valid', lambda: o.describe(eng))
        return
    ts = tables(eng, o.value)
    ob([link(eng, get(eng, t, 'url')) for t in ts] == [res[x][0] for x in order_], 'tables', lambda: 'tables are {} instead of {}'.format(
        [link(eng, get(eng, t, 'url')) for t in ts], [res[x][0] for x in order_]))
    for name, t in zip(order_, ts):
        want = [k[2:] for k in ks if k[0] == name]
        got = []
        for fk in thaw_items(get(eng, t, 'tableSchema', 'foreignKeys')):
            ref = get(eng, fk, 'reference')
            ob(get(eng, ref, 'schemaReference') is None, 'foreign keys: schema', 'a schema is referenced')
            got.append((thaw_items(get(eng, fk, 'columnReference')), link(eng, get(eng, ref, 'resource')),
                        thaw_items(get(eng, ref, 'columnReference'))))
        ob(got == want, 'foreign keys', lambda: 'foreign keys of {} are {} instead of {}'.format(name, got, want))
    v = call(eng, o.value, 'validate_schema')
    ob(v.returned, 'foreign keys: group', lambda: 'the keys of the group are invalid: {}'.format(v.describe(eng)))


def unnamed(eng, ob):
    """a self-reference of the only resource, with symbolic names"""
    prepare(eng)
    P = eng.path
    a, b, path, name = any_str('a'), any_str('b'), any_str('path'), any_str('name')
    P.assume(T('eq', a, b, typ='bool'), False)
    P.assume(T('eq', b, a, typ='bool'), False)
    ref = {'resource': ['', name][P.choose('resource', 2)], 'fields': [b]}
    s = {'fields': [{'name': a}, {'name': b}], 'foreignKeys': [{'fields': a, 'reference': ref}], 'primaryKey': [b]}
    o = convert(eng, package(resource(s, name, path)))
    if not o.returned:
        ob(None if o.is_exc(eng, 'ValueError') else False, 'names', lambda: o.describe(eng))
        return
    t = tables(eng, o.value)[0]
    fk = thaw_items(get(eng, t, 'tableSchema', 'foreignKeys'))
    ob(len(fk) == 1 and eq(eng, get(eng, fk[0], 'columnReference'), [a]) and eq(
        eng, link(eng, get(eng, fk[0], 'reference', 'resource')), path) and eq(
        eng, get(eng, fk[0], 'reference', 'columnReference'), [b]), 'names: foreign key', lambda: show(fk))
    ob(eq(eng, get(eng, t, 'tableSchema', 'primaryKey'), [b]), 'names: primary key', lambda: show(get(eng, t, 'tableSchema', 'primaryKey')))
    ob(eq(eng, link(eng, get(eng, t, 'url')), path), 'names: path', lambda: show(get(eng, t, 'url')))


# -- resources ---------------------------------------------------------------------------------
DEFAULT = {'delimiter': ',', 'quoteChar': '"', 'doubleQuote': True, 'skipInitialSpace': False, 'header': True,
           'commentPrefix': None, 'encoding': 'utf-8'}
OPTIONS = [('delimiter', ';'), ('delimiter', '\t'), ('quoteChar', "'"), ('quoteChar', '"'), ('doubleQuote', False),
           ('doubleQuote', True), ('skipInitialSpace', True), ('skipInitialSpace', False), ('header', False), ('header', True),
           ('commentChar', '#'), ('commentChar', '%')]


def dialects(eng, ob):
    prepare(eng)
    P = eng.path
    n = P.choose('options', 3)
    d = {}
    if n == 2:
        d = {'delimiter': '|', 'quoteChar': "'", 'doubleQuote': False, 'skipInitialSpace': True, 'header': False, 'commentChar': '#'}
        drop = pick(P, 'without', [None] + sorted(d))
        d.pop(drop, None)
    else:
        for i in range(n):
            k, v = pick(P, 'option', OPTIONS)
            d[k] = v
    if P.choose('more', 2):
        d = dict({'lineTerminator': '\r\n', 'caseSensitiveHeader': True, 'csvddfVersion': 1.2}, **d)
    given = pick(P, 'where', ['dialect', 'csv', 'none'] if not d else ['dialect', 'csv'])
    kw = {'dialect': {'dialect': d, 'csv': {'csv': d}}[given]} if given != 'none' else {}
    kw.update(some(P, 'encoding', ['utf-8', 'latin-1', 'utf-16']))
    rs = [resource({'fields': [{'name': 'a'}]}, **kw), resource({'fields': [{'name': 'a'}]}, 's', 's.csv', dialect={'delimiter': '!'})]
    o = convert(eng, package(*rs[::pick(P, 'order', [1, -1])]))
    if not o.returned:
        ob(False, 'dialect: valid', lambda: '{} {}'.format(kw, o.describe(eng)))
        return
    want = dict(DEFAULT, **{'commentPrefix' if k == 'commentChar' else k: v for k, v in d.items() if k in dict(OPTIONS)})
    if 'encoding' in kw:
        want['encoding'] = kw['encoding']
    for t in tables(eng, o.value):
        if link(eng, get(eng, t, 'url')) != 'r.csv':
            continue
        dia = call(eng, t, '_get_dialect')
        for k, v in want.items():
            got = get(eng, dia.value, k)
            ob(eq(eng, got, v), 'dialect: ' + k, lambda: '{} of {} is {}'.format(k, kw, show(got)))


SKIPPED = [{'name': 'x', 'path': 'x.pdf', 'format': 'pdf', 'scheme': 'file'}, {'name': 'x', 'data': [[1]], 'schema': {'fields': []}},
           {'name': 'x', 'path': 'x.json', 'scheme': 'file', 'format': 'json', 'schema': {'fields': [{'name': 'a'}]}},
           {'name': 'x', 'path': 'x.csv', 'scheme': 'file', 'format': 'csv'}]


def resources(eng, ob):
    """a table for each tabular resource, in order"""
    prepare(eng)
    P = eng.path
    fs = [{'fields': [{'name': n} for n in ns]} for ns in (['a', 'b'], ['c'], [])]
    some_ = [resource(fs[0], 'one', 'z.csv'), resource(fs[1], 'two', 'sub/b.csv'), resource(fs[2], 'three', 'a.csv', profile='tabular-data-resource')]
    n = P.choose('resources', 4)
    rs = (some_ if P.choose('order', 2) else some_[::-1])[:n]
    want = [r['path'] for r in rs]
    at = P.choose('position', n + 1)
    other = P.choose('other resource', len(SKIPPED) + 1)
    if other:
        rs = rs[:at] + [SKIPPED[other - 1]] + rs[at:]
    p = package(*rs)
    props = P.choose('properties', 3)
    if props == 2:
        p.update(name='n')
    elif props:
        p.update(name='p', title='t', keywords=['x'], licenses=[{'name': 'x', 'path': 'http://x.org'}], contributors=[{'title': 'me'}],
                 description='d', homepage='http://x.org', created='2020-01-01', profile='tabular-data-package', image='x', sources=[{'title': 's', 'path': 'y'}])
    if P.choose('id', 2):
        p['id'] = 'i'
    o = convert(eng, p)
    if not o.returned:
        ob(False, 'resources: valid', lambda: o.describe(eng))
        return
    ts = tables(eng, o.value)
    got = [link(eng, get(eng, t, 'url')) for t in ts]
    ob(got == want, 'resources', lambda: 'tables of {} are {} instead of {}'.format(p, got, want))
    for t, r in zip(ts, [r for r in rs if r.get('path') in want]):
        names = [get(eng, c, 'name') for c in columns(eng, t)]
        ob(names == [f['name'] for f in r['schema']['fields']], 'resources: columns', lambda: 'columns of {} are {}'.format(r['path'], names))
    o2 = call(eng, o.value, 'asdict')
    ob(o2.returned, 'resources: JSON', lambda: o2.describe(eng))


def sources(eng, ob):
    """packages given as data, text, file or package"""
    prepare(eng)
    P = eng.path
    p = package(resource({'fields': [{'name': 'a', 'constraints': {'required': True}}]}), name='n')
    read = []

    def loads(e, a, k):
        read.append(show(a[0]))
        return doc(e, p)
    eng.ext_overrides['json.loads'] = loads
    eng.ext_overrides['json.load'] = loads
    how = pick(P, 'how', ['data', 'text', 'path', 'package of data', 'package of path'])
    where = pick(P, 'directory', [None, 'x', T('pathlib.Path', 'x', typ='path')])
    path = T('pathlib.Path', 'd/datapackage.json', typ='path')
    spec = {'data': lambda: doc(eng, p), 'text': lambda: S('text', 'str', notnone=True), 'path': lambda: path}[how.split()[-1]]()
    C = find(eng, 'csvw.frictionless.DataPackage')
    kw = {} if where is None else {'directory': where}
    o = run(eng, lambda: eng.call(C, [spec], kw))
    if o.returned and 'package' in how:
        first = o.value
        o = run(eng, lambda: eng.call(C, [first]))
    tg = call(eng, o.value, 'to_tablegroup') if o.returned else o
    if not tg.returned:
        ob(False, 'source: ' + how, lambda: tg.describe(eng))
        return
    ts = tables(eng, tg.value)
    ob(len(ts) == 1 and link(eng, get(eng, ts[0], 'url')) == 'r.csv', 'source: ' + how, 'the table is missing')
    f = show(get(eng, tg.value, '_fname'))
    ob(('x' in f) == (where is not None) and ('d/' in f or 'd\'' in f or where is not None or 'path' not in how), 'source: directory', lambda: (
        'the metadata of a package given as {} with directory {} is at {}'.format(how, show(where), f)))


def rules(C):
    for h, n, s in [
        (types, 300, 'fields of each type with the constraints of the type'),
        (order, 100, 'all properties of a field at once, and without any of them'),
        (numbers, 300, 'numbers with their characters'), (booleans, 100, 'tokens of booleans'),
        (patterns, 24, 'patterns for numbers, booleans, dates'), (years, 0, 'bounds of years'),
        (symbolic, 50, 'arbitrary names, titles, descriptions, patterns'), (fields, 50, 'all fields, in order'),
        (schemas, 100, 'missing values and primary keys'), (foreign_keys, 300, 'foreign keys between tables and in a table'),
        (unnamed, 3, 'arbitrary names of fields and resources'), (dialects, 500, 'dialects and encodings'),
        (resources, 100, 'tables for tabular resources only'), (sources, 10, 'ways to give a package')]:
        C.explore(h.__name__.replace('_', '-'), h, mods=MODS, min_ok=n, statement=s)
