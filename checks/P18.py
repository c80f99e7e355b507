"""Metadata survives being written out and read back."""
import decimal
import re

from .common import *
from .P19 import PROPS, ANYSTR, ANYINT, ANYBOOL, hashable, value, word, prepare, place, target, py, diff, FK
from .P20 import doc, GOOD
from csvwlint.path import _NO

ASSUMPTIONS = ['language_tags.tags.check decides whether a language tag is valid',
               'json.dump and json.load give back what is JSON',
               'dialects have no @- or common properties, bounds that are dates have no time zone',
               'values are strings, numbers, booleans, lists and objects of JSON; strings and whole numbers are '
               'arbitrary where no concrete value is given; documents of up to three tables and columns are analysed']
MODS = ['csvw', 'csvw.metadata', 'csvw.utils', 'csvw.dsv_dialects']
NUMBER = re.compile(r'-?[0-9.]+')
NS = 'http://www.w3.org/ns/csvw'

INHERITED = dict(aboutUrl=None, datatype=None, default='', lang='und', null=[''], ordered=None, propertyUrl=None,
                 required=None, separator=None, textDirection=None, valueUrl=None)
LIKE = dict(INHERITED, dialect=None, notes=[], tableDirection='auto', tableSchema={}, transformations=[], url=None)
DEFAULTS = {
    'Dialect': dict(commentPrefix=None, delimiter=',', doubleQuote=True, encoding='utf-8', header=True,
                    headerRowCount=1, lineTerminators=['\r\n', '\n'], quoteChar='"', skipBlankRows=False, skipColumns=0,
                    skipInitialSpace=False, skipRows=0, trim='false'),
    'Column': dict(INHERITED, name=None, suppressOutput=False, titles=None, virtual=False),
    'Schema': dict(INHERITED, columns=[], foreignKeys=[], primaryKey=None, rowTitles=[]),
    'Table': dict(LIKE, suppressOutput=False), 'TableGroup': dict(LIKE, tables=[]),
    'Datatype': dict(base=None, format=None, length=None, minLength=None, maxLength=None, minimum=None,
                     maximum=None, minInclusive=None, maxInclusive=None, minExclusive=None, maxExclusive=None),
    'ForeignKey': dict(columnReference=None, reference=None),
    'Reference': dict(resource=None, schemaReference=None, columnReference=None)}
SUB = {('TableGroup', 'tables'): 'Table', ('Table', 'tableSchema'): 'Schema', ('TableGroup', 'tableSchema'): 'Schema',
       ('Table', 'dialect'): 'Dialect', ('TableGroup', 'dialect'): 'Dialect', ('Schema', 'columns'): 'Column',
       ('Schema', 'foreignKeys'): 'ForeignKey', ('ForeignKey', 'reference'): 'Reference'}
SUB.update({(c, 'datatype'): 'Datatype' for c in ['TableGroup', 'Table', 'Schema', 'Column']})
COMMON = ['x', 5, 0, False, True, None, '', 1.5, [], {}, [[]], [{}], {'a': {'b': []}}, ['x', []], ['x'], [5], [0], [1.5], [True], [None], [{'a': 1}], [ANYSTR], ANYSTR, ANYINT] + [
    v for v in GOOD if isinstance(v, dict) and v]
LINKS = ['http://example.org/{a}', '#{a}', 'x', '']
MORE = dict(aboutUrl=LINKS, propertyUrl=['schema:name', '#x', 'http://example.org/x'], valueUrl=LINKS,
            required=[True, False], datatype=[
                'string', 'integer', 'any', {'base': 'integer'}, {}, {'base': 'string', 'format': 'a*'},
                {'base': 'boolean', 'format': 'Y|N'}, {'base': 'date', 'format': 'dd.MM.yyyy'},
                {'base': 'decimal', 'format': '0.0'},
                {'base': 'decimal', 'format': {'pattern': '0.0', 'decimalChar': ',', 'groupChar': '.'}},
                {'base': 'decimal', 'format': {'decimalChar': ','}},
                {'@id': 'http://example.org/x', 'base': 'string'}, {'@id': 'http://example.org/x'}, {'dc:title': 'x'},
                {'dc:title': [], 'base': 'integer'}])
TEXTS = [{'length': 0}, {'length': 5}, {'minLength': 0, 'maxLength': 0}, {'minLength': 1}, {'maxLength': 7},
         {'minLength': 1, 'maxLength': 7, 'format': '[a-z]*'}, {'length': 3, 'minLength': 3}]
BOUNDS = [('integer', '0', '5'), ('integer', 0, 5), ('integer', -5, 0), ('decimal', '-0.5', '1.25'),
          ('decimal', 0, 1.5), ('nonNegativeInteger', '0', '10'), ('float', 0, 2), ('number', '0', '1.5'),
          ('date', '2020-01-01', '2020-12-31'), ('datetime', '2020-01-01T00:00:00', '2020-01-02T03:04:05')]
TRAFOS = [[{'url': 'x', 'targetFormat': 'http://x', 'scriptFormat': 'http://y', 'titles': 't', 'source': 'json'}]]
VALUES = {}
for _c in PROPS:
    VALUES[_c] = {k: [x for x in v[0] if not (hashable(x) and x is ANYBOOL)] for k, v in PROPS[_c].items()}
    if _c not in ('Dialect', 'Datatype'):
        VALUES[_c].update(MORE)
    if _c != 'Dialect':
        VALUES[_c].update({'dc:title': COMMON, '@id': ['http://example.org/x', 'x']})
VALUES['Column']['titles'] = ['x', '', ['x'], ['x', 'y'], [], {'en': 'x'}, {'en': ['x'], 'de': ['y', 'z']}, {},
                              {'en': ['x', 'y'], 'de': []}, {'und': 'x'}, {'de': 'x', 'en': 'y'}, ANYSTR]
VALUES['Schema']['foreignKeys'] = [
    [], [FK], [FK, {'columnReference': ['b', 'a'], 'reference': {'resource': 'v.csv', 'columnReference': ['y', 'x']}}],
    [{'columnReference': ['a'], 'reference': {'schemaReference': 'http://example.org/s', 'columnReference': 'x'}}]]
VALUES['Schema']['columns'] = [[], [{}], [{'name': 'a'}], [{'name': 'b'}, {'titles': 'x'}, {'virtual': True, 'name': 'v'}]]
for _c in ('Table', 'TableGroup'):
    VALUES[_c].update(notes=[[], ['x'], [{'a': 1}, []], [None, 5]], transformations=[[]] + TRAFOS, dialect=[
        {}, {'header': False}, {'delimiter': ';', 'commentPrefix': '#', 'trim': True, 'skipRows': 2}, {'quoteChar': None}])
    VALUES[_c]['@context'] = [NS, [NS, {'@language': 'en'}], [NS, {'@base': 'http://example.org/'}], [NS]]
    VALUES[_c]['@type'] = [_c]
VALUES['TableGroup']['tableSchema'] = VALUES['Table']['tableSchema']
VALUES['TableGroup']['tables'] = [[], [{'url': 'x.csv'}], [{'url': 'x.csv'}, {'url': 'y.csv', 'null': []}]]
VALUES['Datatype'] = {'dt': [dict(base=b, **t) for b in ('string', 'hexBinary', 'anyURI') for t in TEXTS]}
VALUES['Datatype']['dt'] += [
    {'base': b, lo: x, hi: y} for b, x, y in BOUNDS for lo in ('minimum', 'minInclusive', 'minExclusive')
    for hi in ('maximum', 'maxInclusive', 'maxExclusive')]
COMMA = {'decimalChar': ',', 'groupChar': '.'}
VALUES['Datatype']['dt'] += [
    dict({'base': 'decimal', 'format': f}, **{n: x}) for f in (COMMA, {'decimalChar': ','})
    for x in ('1,5', '-0,25', '7') for n in ('minimum', 'minInclusive', 'minExclusive', 'maximum', 'maxInclusive',
                                             'maxExclusive') if x == '1,5' or n[1:] == 'inimum']
VALUES['Datatype']['dt'] += [{'base': b, n: x} for b, x, y in BOUNDS for n in ('minimum', 'maxExclusive')]
VALUES['Datatype']['dt'] += [dict(x, **{'dc:title': 'x', '@id': 'http://example.org/d'}) for x in TEXTS[:3]]
OWN = {'Dialect': {}, 'Column': {'name': 'a', 'separator': '|', 'dc:x': 'y'},
       'Schema': {'columns': [{'name': 'a'}], 'dc:x': {'@id': 'http://x'}}, 'Table': {'url': 't.csv'},
       'TableGroup': {'tables': [{'url': 't.csv'}]}, 'Datatype': {}}


def fill(x):
    """symbols instead of placeholders"""
    if hashable(x):
        return value(x)
    if isinstance(x, dict):
        return {k: fill(v) for k, v in x.items()}
    if isinstance(x, list):
        return [fill(v) for v in x]
    return x


def canonical(cls, prop, v):
    if prop in ('null', 'primaryKey', 'rowTitles', 'columnReference') and not isinstance(v, list):
        return [v]
    if prop == 'trim' and isinstance(v, bool):
        return str(v).lower()
    if prop == 'titles':
        v = {None: v} if not isinstance(v, dict) else v
        return {k: x if isinstance(x, list) else [x] for k, x in v.items()}
    if prop == 'datatype':
        v = {'base': v} if not isinstance(v, dict) else v
        return v if v.get('base') else dict(v, base='string')
    if prop in ('minimum', 'maximum', 'minInclusive', 'maxInclusive', 'minExclusive', 'maxExclusive'):
        # numbers are compared as numbers
        return None if v is None else decimal.Decimal(str(v)) if not isinstance(v, V) and NUMBER.fullmatch(
            str(v)) else 'a bound'
    return v


def kind(v):
    return ('bool' if isinstance(v, bool) else 'number' if isinstance(v, (int, float)) else type(v).__name__)


def alike(eng, a, b):
    """a, b: data as given and in the JSON form"""
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(alike(eng, v, b[k]) for k, v in a.items())
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(alike(eng, x, y) for x, y in zip(a, b))
    if isinstance(a, (dict, list)) or isinstance(b, (dict, list)):
        return False
    if is_const(a) and is_const(b):
        return a == b and kind(a) == kind(b)
    return same(eng, a, b) is True


def default(eng, cls, prop, v):
    if ':' in prop or prop.startswith('@'):
        return False
    return alike(eng, v, DEFAULTS[cls][prop]) if prop in DEFAULTS[cls] else False


def compare(eng, cls, given, got, complete, path=''):
    """what is wrong with `got`, the JSON form of the description `given` of the class"""
    if cls == 'Datatype':
        given, got = canonical(cls, 'datatype', given), canonical(cls, 'datatype', got)
    if not isinstance(got, dict):
        return '{}: {!r} instead of an object'.format(path or cls, show(got) if isinstance(got, V) else got)
    for k, v in list(given.items()):
        w = got.get(k, given)
        v = canonical(cls, k, v)
        if w is given:
            if default(eng, cls, k, v) or (cls, k) == ('TableGroup', 'tableSchema') and not v:
                continue
            return '{}{} {!r} is lost'.format(path, k, v)
        sub = SUB.get((cls, k))
        w = canonical(cls, k, w)
        if sub and isinstance(v, list):
            if not isinstance(w, list) or len(w) != len(v):
                return '{}{} is {!r} instead of {!r}'.format(path, k, w, v)
            for i, (x, y) in enumerate(zip(v, w)):
                r = compare(eng, sub, x, y, complete, '{}{}[{}].'.format(path, k, i))
                if r:
                    return r
        elif sub:
            r = compare(eng, sub, v, w, complete, path + k + '.')
            if r:
                return r
        elif not alike(eng, v, w):
            return '{}{} is {!r} instead of {!r}'.format(path, k, w, v)
    for k, w in got.items():
        if k in given:
            continue
        w_ = canonical(cls, k, w) if w is not None else None
        if not complete or not (default(eng, cls, k, w_) or default(eng, cls, k, w) or (
                k == 'header' and w is True)):
            return '{}{} {!r} was not specified'.format(path, k, w)
    return None


def data(eng, v):
    """an abstract value as JSON data (None if it is none)"""
    if isinstance(v, VDict):
        if v.rest:
            raise Imprecise('unknown keys')
        return {e[0]: data(eng, e[1]) for e in v.d.values()}
    if isinstance(v, Inst) and v.payload is not None and eng.dict_like(v.cls):
        return data(eng, v.payload)
    items = thaw_items(v) if not isinstance(v, tuple) else list(v)
    if items is not None:
        if any(isinstance(x, Rest) for x in items):
            raise Imprecise('a list of unknown length')
        return [data(eng, x) for x in items]
    if isinstance(v, (Inst, Cls, Func, decimal.Decimal, re.Pattern, bytes, complex)) or eng.path.typ(v) in (
            'decimal', 'datetime', 'path', 'bytes', 'set', 'func'):
        raise TypeError(show(v))
    return v


def agree(eng, a, b):
    """descriptions (as given by py) which are equal, given the facts of the path"""
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(agree(eng, v, b[k]) for k, v in a.items())
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(agree(eng, x, y) for x, y in zip(a, b))
    if a == b and kind(a) == kind(b):
        return True
    for x, y in ((a, b), (b, a)):
        for typ in ('str', 'int', 'bool'):
            v = S('value', typ, notnone=True)
            if x == repr(key(v)):
                return same(eng, v, y) is True
    return False


def load(eng, d, cls='TableGroup'):
    start = len(eng.path.events)
    o = run(eng, lambda: eng.call(eng.getattr(find(eng, 'csvw.metadata.' + cls), 'fromvalue'), [doc(eng, d)]))
    return o, len(events(eng, 'warnings.warn', start))


def roundtrip(eng, ob, d, what, cls='TableGroup', omit=True, dates=False):
    o, w = load(eng, d, cls)
    if not o.returned:
        if not dates:
            ob(None, what, lambda: 'loading {}: {}'.format(d, o.describe(eng)))
        return None
    before = py(o.value)
    j = call(eng, o.value, 'asdict') if omit is None else call(eng, o.value, 'asdict', omit_defaults=omit)
    if not j.returned:
        ob(False, what, lambda: 'the JSON form of {}: {}'.format(d, j.describe(eng)))
        return None
    try:
        got = data(eng, j.value)
    except TypeError as e:
        ob(False, what, lambda: 'the JSON form of {} has {}, which is no JSON'.format(d, e))
        return None
    r = compare(eng, cls, d, got, omit is False)
    ob(r is None, what, lambda: 'JSON form of {}: {}'.format(d, r))
    if dates:
        return None
    o2, w2 = load(eng, got, cls)
    if not o2.returned:
        ob(False, what + ' again', lambda: 'the JSON form {} of {}: {}'.format(got, d, o2.describe(eng)))
        return None
    a, b = before, py(o2.value)
    ob(agree(eng, a, b), what + ' again', lambda: 'the JSON form {} of {} describes something else: {} instead of {}'.format(
        got, d, diff(b, a), diff(a, b)))
    ob(w2 == w, what + ' again', lambda: 'the JSON form {} of {} gives a warning'.format(got, d))
    ob(py(o.value) == a, what + ' unchanged', 'writing changes the description')
    return o.value


def single(cls, omits):
    def h(eng, ob):
        prepare(eng)
        P = eng.path
        props = VALUES[cls]
        prop = sorted(props)[P.choose('property', len(props))]
        vals = props[prop]
        v = fill(vals[P.choose('value', len(vals))])
        omit = omits[P.choose('omit_defaults', len(omits))]
        own = {k: x for k, x in OWN[cls].items() if k != prop}
        d = v if cls == 'Datatype' and prop == 'dt' else dict(own, **{prop: v})
        roundtrip(eng, ob, place(cls, d), '{} {}'.format(cls, prop), omit=omit,
                  dates='date' in str(d))     # the order of dates is not decided
    return h


def alone(eng, ob):
    """JSON forms of single descriptions"""
    prepare(eng)
    P = eng.path
    cls = ['Table', 'Schema', 'Column', 'Datatype'][P.choose('description', 4)]
    omit = P.choose('omit_defaults', 2) == 0
    d = {'Table': {'url': 't.csv', 'dc:x': [], 'dialect': {}, 'tableSchema': {'columns': [{'name': 'a'}]}},
         'Schema': {'columns': [{'name': 'a'}], 'primaryKey': [], 'null': []},
         'Column': {'titles': {'en': 'x'}, 'null': [], 'datatype': {'base': 'integer', 'minimum': 0}},
         'Datatype': {'base': 'integer', 'maximum': 0, 'dc:x': {}}}[cls]
    drop = sorted(d)[P.choose('without', len(d))] if P.choose('less', 2) == 0 else None
    d = {k: v for k, v in d.items() if k != drop or k in ('url', 'base')}
    roundtrip(eng, ob, d, cls, cls=cls, omit=omit)


FULL = {
    '@context': [NS, {'@language': 'en'}], '@id': 'http://example.org/g', '@type': 'TableGroup', 'dc:title': 'group',
    'schema:x': [], 'null': ['NA'], 'lang': 'de', 'notes': [{'a': [1]}], 'dialect': {'delimiter': ';', 'header': False},
    'tableDirection': 'ltr', 'transformations': TRAFOS[0], 'aboutUrl': '#{a}',
    'tables': [
        {'url': 'a.csv', '@type': 'Table', '@id': 'http://example.org/t', 'dc:title': {'@value': 'x', '@language': 'en'},
         'suppressOutput': True, 'dialect': {}, 'tableDirection': 'rtl', 'notes': ['n'], 'separator': ';',
         'tableSchema': {
             '@id': 'http://example.org/s', '@type': 'Schema', 'dc:x': {}, 'primaryKey': ['a', 'b'], 'rowTitles': ['b'],
             'foreignKeys': [{'columnReference': 'c', 'reference': {'resource': 'b.csv', 'columnReference': ['x']}},
                             {'columnReference': ['b', 'a'], 'reference': {
                                 'schemaReference': 'http://example.org/s2', 'columnReference': ['y', 'z']}}],
             'columns': [
                 {'name': 'a', 'titles': {'en': ['A', 'AA'], 'de': 'B'}, 'datatype': {'base': 'integer', 'minimum': 0},
                  'required': True, 'null': [], 'dc:x': 'y', '@id': 'http://example.org/c', '@type': 'Column'},
                 {'name': 'b', 'titles': ['x', 'y'], 'datatype': 'date', 'lang': 'en', 'default': 'd', 'ordered': True},
                 {'titles': 'c', 'separator': '|', 'valueUrl': '#{c}', 'textDirection': 'rtl', 'suppressOutput': True,
                  'datatype': {'@id': 'http://example.org/dt', '@type': 'Datatype', 'base': 'string', 'length': 0}},
                 {'virtual': True, 'propertyUrl': 'dc:type', 'valueUrl': 'http://example.org/x'}]}},
        {'url': 'b.csv', 'tableSchema': {'columns': [{'name': 'x'}, {}], 'propertyUrl': '#p'}},
        {'url': 'c.csv'}]}


def full(eng, ob):
    """everything at once, and without any one of the parts"""
    prepare(eng)
    P = eng.path
    omit = P.choose('omit_defaults', 2) == 0

    def less(x, where):
        return {k: v for k, v in x.items() if k != where}
    d = dict(FULL)
    part = P.choose('less in', 5)
    if part == 1:
        d = less(d, (sorted(d) + [None])[P.choose('without', len(d) + 1)])
        d.setdefault('tables', [{'url': 'x.csv'}])
    elif part:
        t = dict(d['tables'][0])
        s = dict(t['tableSchema'])
        if part == 2:
            k = sorted(t)[P.choose('without', len(t))]
            t = less(t, k) if k != 'url' else t
        elif part == 3:
            t['tableSchema'] = less(s, sorted(s)[P.choose('without', len(s))])
        else:
            i = P.choose('column', 4)
            c = s['columns'][i]
            k = sorted(c)[P.choose('without', len(c))]
            c = less(c, k) if k != 'virtual' else c
            t['tableSchema'] = dict(s, columns=s['columns'][:i] + [c] + s['columns'][i + 1:])
        d['tables'] = [d['tables'][1], t, d['tables'][2]] if P.choose('order', 2) else [t] + d['tables'][1:]
    roundtrip(eng, ob, d, 'complete description', omit=omit)


CHANGES = [('Column', 'null', []), ('Column', 'null', ['x']), ('Column', 'required', True), ('Column', 'separator', ';'),
           ('Column', 'name', 'zz'), ('Column', 'lang', 'de'), ('Column', 'titles', {'de': ['y', 'z']}),
           ('Column', 'datatype', 'integer'), ('Schema', 'primaryKey', ['a']), ('Schema', 'rowTitles', ['a']),
           ('Schema', 'foreignKeys', [FK]), ('Schema', 'columns', [{'name': 'n'}]), ('Table', 'notes', ['x']), ('Table', 'suppressOutput', True),
           ('Table', 'dialect', {'header': False}), ('TableGroup', 'dialect', {}), ('TableGroup', 'tables', [{'url': 'z.csv'}]),
           ('Table', 'tableSchema', {'columns': [{'name': 'z'}]}), ('Table', 'url', 'x.csv')]


def changed(eng, ob):
    """the JSON form is that of the description as it is"""
    prepare(eng)
    P = eng.path
    cls, prop, v = CHANGES[P.choose('change', len(CHANGES))]
    d0 = dict(OWN[cls], **({'titles': 'x', 'separator': '|'} if cls == 'Column' else {}))
    d1 = dict(d0, **{prop: v})
    o0, _ = load(eng, place(cls, d0))
    o1, _ = load(eng, place(cls, d1))
    if not (o0.returned and o1.returned):
        ob(None, 'changed', 'loading fails')
        return
    before = P.choose('written before', 2) == 0
    if before:
        call(eng, o0.value, 'asdict')
    x = eng.getattr(target(eng, o1.value, cls), prop)
    how = P.choose('how', 2)
    o = run(eng, lambda: eng.setattr(target(eng, o0.value, cls), prop, x))
    j = call(eng, o0.value, 'asdict')
    if not (o.returned and j.returned):
        ob(None, 'changed', (j if o.returned else o).describe(eng))
        return
    r = compare(eng, 'TableGroup', place(cls, d1), data(eng, j.value), False)
    ob(r is None, 'changed', lambda: 'JSON form after setting {} {} to {}: {}'.format(cls, prop, v, r))


def common_changed(eng, ob):
    """common and @-properties which are added, changed or removed later"""
    prepare(eng)
    P = eng.path
    cls = ['Column', 'Schema', 'Table', 'TableGroup'][P.choose('description', 4)]
    d0 = dict({k: v for k, v in OWN[cls].items() if k != 'dc:x'}, **{'dc:a': 'x', 'dc:b': 'y'})
    o0, _ = load(eng, place(cls, d0))
    if P.choose('written before', 2) == 0:
        call(eng, o0.value, 'asdict')
    t = target(eng, o0.value, cls)
    v = [5, [], {}, 'z', ANYSTR][P.choose('value', 5)]
    w = fill(v)
    call(eng, eng.getattr(t, 'common_props'), '__setitem__', 'dc:b', doc(eng, w))
    call(eng, eng.getattr(t, 'common_props'), '__setitem__', 'dc:c', doc(eng, w))
    call(eng, eng.getattr(t, 'at_props'), '__setitem__', 'id', 'http://example.org/z')
    j = call(eng, o0.value, 'asdict')
    if not j.returned:
        ob(False, 'changed common properties', lambda: j.describe(eng))
        return
    d1 = dict(d0, **{'dc:b': w, 'dc:c': w, '@id': 'http://example.org/z'})
    r = compare(eng, 'TableGroup', place(cls, d1), data(eng, j.value), False)
    ob(r is None, 'changed common properties', lambda: 'JSON form after changing common properties: {}'.format(r))


def added(eng, ob):
    """titles which are added later"""
    prepare(eng)
    P = eng.path
    v = ['x', ['x', 'y'], {'en': 'x'}, {'en': ['x'], 'de': ['y']}, []][P.choose('titles', 5)]
    o, _ = load(eng, place('Column', {'name': 'a', 'titles': v}))
    t = eng.getattr(target(eng, o.value, 'Column'), 'titles')
    want = canonical('Column', 'titles', v)
    for i in range(P.choose('added', 3)):
        lang = [None, 'en', 'de'][P.choose('language', 3)]
        a = run(eng, lambda: eng.call(eng.getattr(t, 'add'), ['t{}'.format(i)], {'lang': lang} if lang else {}))
        if not a.returned:
            ob(False, 'titles added', lambda: 'adding a title ' + a.describe(eng))
            return
        want.setdefault(lang, want.pop(lang, []) + ['t{}'.format(i)])
    j = call(eng, o.value, 'asdict')
    if not j.returned:
        ob(False, 'titles added', lambda: j.describe(eng))
        return
    got = data(eng, j.value)['tables'][0]['tableSchema']['columns'][-1].get('titles', [])
    got = {(None if k == 'und' else k): x for k, x in canonical('Column', 'titles', got).items()}
    ob(got == want, 'titles added', lambda: '{} instead of {}'.format(got, want))


def files(eng, ob):
    """to_file writes the JSON form, from_file reads what the file has"""
    prepare(eng)
    P = eng.path
    cls = ['TableGroup', 'Table'][P.choose('class', 2)]
    omit = [None, True, False][P.choose('omit_defaults', 3)]
    aspath = P.choose('path object', 2) == 0
    tab = {'url': 't.csv', 'dc:x': ['\u00e4', []], 'tableSchema': {'columns': [{'name': 'a', 'null': []}]}}
    d = tab if cls == 'Table' else {'tables': [tab], 'dc:y': S('text', 'str', notnone=True)}
    written, opened = [], []

    def dump(e, a, k):
        written.append((a[0], a[1], k))
        return None

    def dumps(e, a, k):
        t = S('text{}'.format(len(written)), 'str')
        written.append((a[0], t, k))
        return t
    eng.ext_overrides['json.dump'] = dump
    eng.ext_overrides['json.dumps'] = dumps
    eng.ext_overrides['json.load'] = lambda e, a, k: doc(e, d)
    eng.ext_overrides['json.loads'] = lambda e, a, k: doc(e, d)
    fn = 'dir/metadata.json'
    fname = eng.call(Ext('pathlib.Path'), [fn]) if aspath else fn
    start = len(P.events)
    o = run(eng, lambda: eng.call(eng.getattr(find(eng, 'csvw.metadata.' + cls), 'from_file'), [fname]))
    if not o.returned:
        ob(False, 'from_file', lambda: o.describe(eng))
        return
    l, _ = load(eng, d, cls)
    ob(py(o.value) == py(l.value), 'from_file', lambda: 'a file describes {} instead of {}'.format(
        diff(py(o.value), py(l.value)), diff(py(l.value), py(o.value))))
    kw = {} if omit is None else {'omit_defaults': omit}
    w = call(eng, o.value, 'to_file', fname, **kw)
    if not w.returned:
        ob(False, 'to_file', lambda: w.describe(eng))
        return
    if len(written) != 1:
        ob(None if not written else False, 'to_file', lambda: '{} objects are written'.format(len(written)))
        return
    r = compare(eng, cls, d, data(eng, written[0][0]), omit is False)
    ob(r is None, 'to_file', lambda: 'the file of {}: {}'.format(d, r))


def rules(C):
    for cls in sorted(VALUES):
        omits = (True, False, None) if C.thorough else (True,) if cls == 'Datatype' else (True, False)
        C.explore('properties of ' + cls, single(cls, omits), mods=MODS, min_ok=100, statement='each property which is '
                  'specified, and nothing else, is written, and describes the same')
    C.explore('alone', alone, mods=MODS, min_ok=30, statement='JSON forms of single descriptions')
    C.explore('full', full, mods=MODS, min_ok=200, statement='all properties of nested descriptions together')
    C.explore('changed', changed, mods=MODS, min_ok=30, statement='the JSON form is that of the current description')
    C.explore('common-changed', common_changed, mods=MODS, min_ok=30, statement='common and @-properties changed later')
    C.explore('titles-added', added, mods=MODS, min_ok=60, statement='titles added later are written')
    C.explore('files', files, mods=MODS, min_ok=24, statement='files have the JSON form')
