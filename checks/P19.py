"""Invalid property values are replaced by the default, with a warning."""
import ast

from .common import *
from .P20 import doc

ASSUMPTIONS = ['language_tags.tags.check decides whether a language tag is valid',
               'values are strings, numbers, booleans, lists and objects of JSON, nested up to two levels; strings '
               'and whole numbers are arbitrary where no concrete value is given']
MODS = ['csvw', 'csvw.metadata', 'csvw.utils', 'csvw.dsv_dialects']

ANYSTR, ANYINT, ANYBOOL = object(), object(), object()
WORDS = {ANYSTR: 'any string', ANYINT: 'any whole number', ANYBOOL: 'any boolean'}

NOTSTR = [True, False, 0, 5, 1.5, ANYINT, [], ['x'], [['x']], {}, {'a': 1}, [5]]
NOTBOOL = [0, 1, 1.5, '', 'x', 'true', ANYSTR, ANYINT, [], [True], {}, {'a': True}]
NOTCOUNT = [True, False, 1.5, -1, '', '1', ANYSTR, [], [1], {}, {'a': 1}]
NOTLIST = [True, 0, 5, 1.5, '', 'x', ANYSTR, {}, {'a': 1}]


def strings(valid=(ANYSTR, 'x', ';')):
    return list(valid), NOTSTR


BOOLS = ([True, False, ANYBOOL], NOTBOOL)
COUNTS = ([0, 1, 5], NOTCOUNT)


def enum(*vals):
    return list(vals), NOTSTR + ['', 'x', vals[0].upper(), vals[0] + ' ']


NAMES = (['a', ['a'], ['a', 'b'], []], [True, 0, 5, 1.5, {}, {'a': 'b'}, [5], ['a', 5], [['a']], [{}]])
FK = {'columnReference': 'a', 'reference': {'resource': 'u.csv', 'columnReference': 'x'}}

INHERITED = {
    'default': strings(),
    'lang': (['en', 'de'], ['no tag', '', True, 5, 1.5, [], ['en'], {}]),
    'null': (['x', '', [], ['x'], ['', 'NA'], ANYSTR], [True, 0, 5, 1.5, {}, {'a': 'x'}, [5], ['x', 5], [['x']]]),
    'ordered': BOOLS,
    'separator': strings(),
    'textDirection': enum('ltr', 'rtl', 'auto', 'inherit'),
}
PROPS = {
    'Dialect': {
        'encoding': (['utf-8', 'UTF-8', 'latin-1', 'UTF-8-BOM', 'utf-16'], NOTSTR + ['no encoding', '']),
        'lineTerminators': (['\n', ['\n'], ['\r\n', '\n'], ANYSTR], [True, 0, 5, 1.5, {}, {'\n': 1}, [5], ['\n', 5]]),
        'quoteChar': strings(), 'commentPrefix': strings(), 'delimiter': strings(),
        'doubleQuote': BOOLS, 'header': BOOLS, 'skipBlankRows': BOOLS, 'skipInitialSpace': BOOLS,
        'skipRows': COUNTS, 'headerRowCount': COUNTS, 'skipColumns': COUNTS,
        'trim': (['true', 'false', 'start', 'end', True, False],
                 ['', 'x', 'True', 'both', 0, 1, 5, 1.5, [], ['true'], [True], {}, {'a': 1}]),
    },
    'Column': dict(INHERITED, name=strings(('y', 'b', 'x-y', '\u00e4')), suppressOutput=BOOLS, virtual=BOOLS, titles=(
        ['x', ['x', 'y'], {'en': 'x'}, {'en': ['x', 'y'], 'de': 'z'}, ANYSTR],
        [True, 0, 5, 1.5, {'no tag': 'x'}, [5], ['x', 5]])),
    'Schema': dict(INHERITED, columns=([[], [{'name': 'c'}]], NOTLIST), foreignKeys=([[], [FK]], NOTLIST),
                   primaryKey=NAMES, rowTitles=NAMES),
    'Table': dict(INHERITED, suppressOutput=BOOLS, tableDirection=enum('rtl', 'ltr', 'auto'),
                  tableSchema=([{'columns': [{'name': 'c'}]}, {}], [True, 0, 5, 1.5, [], ['x'], [{}]]),
                  dialect=([{}, {'header': False}], [True, 0, 5, 1.5, [], ['x'], [{}]]),
                  transformations=([[]], NOTLIST)),
    'TableGroup': dict(INHERITED, tableDirection=enum('rtl', 'ltr', 'auto'),
                       dialect=([{}, {'header': False}], [True, 0, 5, 1.5, [], ['x'], [{}]]),
                       tables=([[], [{'url': 'x.csv'}]], NOTLIST), transformations=([[]], NOTLIST)),
    'Datatype': {'base': (['string', 'integer', 'anyURI'], NOTSTR + ['x', '', 'Integer'])},
}
OWN = {'Dialect': {'delimiter': ';', 'skipRows': 2}, 'Column': {'name': 'a', 'separator': '|'},
       'Schema': {'columns': [{'name': 'a'}]}, 'Table': {'url': 't.csv'},
       'TableGroup': {'tables': [{'url': 't.csv'}]}, 'Datatype': {'dc:title': 'x'}}


def sym(v, name='value'):
    return S(name, {ANYSTR: 'str', ANYINT: 'int', ANYBOOL: 'bool'}[v], notnone=True) if v in (
        ANYSTR, ANYINT, ANYBOOL) else v


def hashable(v):
    try:
        return v in WORDS
    except TypeError:
        return False


def value(v):
    return sym(v) if hashable(v) else v


def word(v):
    return WORDS[v] if hashable(v) else repr(v)


def prepare(eng):
    def check(e, a, k):
        return a[0] in ('en', 'de', 'und') if isinstance(a[0], str) else False if is_const(a[0]) else _no(e, a[0])

    def _no(e, v):
        return False if isinstance(v, (VList, VDict)) else T('valid tag', v, typ='bool')
    eng.ext_overrides['language_tags.tags.check'] = check
    eng.unroll = 200


def place(cls, props):
    """a document with a description of these properties"""
    if cls == 'TableGroup':
        return props
    if cls == 'Table':
        return {'tables': [props]}
    if cls == 'Dialect':
        return {'tables': [{'url': 't.csv', 'dialect': props}]}
    if cls == 'Schema':
        return {'tables': [{'url': 't.csv', 'tableSchema': props}]}
    if cls == 'Column':
        return {'tables': [{'url': 't.csv', 'tableSchema': {'columns': [{'name': 'x'}, props]}}]}
    return {'tables': [{'url': 't.csv', 'tableSchema': {'columns': [{'name': 'x', 'datatype': props}]}}]}


def load(eng, d):
    start = len(eng.path.events)
    o = run(eng, lambda: eng.call(eng.getattr(find(eng, 'csvw.metadata.TableGroup'), 'fromvalue'), [doc(eng, d)]))
    return o, len(events(eng, 'warnings.warn', start))


def target(eng, obj, cls):
    """the description of interest"""
    if cls == 'TableGroup':
        return obj
    t = thaw_items(eng.getattr(obj, 'tables'))[0]
    if cls == 'Table':
        return t
    if cls == 'Dialect':
        return eng.getattr(t, 'dialect')
    s = eng.getattr(t, 'tableSchema')
    if cls == 'Schema':
        return s
    c = thaw_items(eng.getattr(s, 'columns'))[-1]
    return c if cls == 'Column' else eng.getattr(c, 'datatype')


def py(v, skip=()):
    """a description as python data"""
    if isinstance(v, VDict):
        return {show(e[0]) if not is_const(e[0]) else e[0]: py(e[1]) for e in v.d.values()}
    if isinstance(v, (list, VList)):
        return [py(x) for x in (v.items if isinstance(v, VList) else v)]
    if isinstance(v, Inst):
        res = {k: py(x) for k, x in v.attrs.items() if not k.startswith('_') and k != 'value'}
        if v.payload is not None:
            res['payload'] = py(v.payload)
        return {v.cls.name: {k: x for k, x in res.items() if k not in skip}}
    if isinstance(v, (Sym, Term)):
        return repr(key(v))
    if isinstance(v, (str, int, float, bool, type(None), tuple)):
        return v
    return repr(v)


def expected(eng, prop, cls, v):
    """a valid value as it is kept"""
    if prop in ('null', 'primaryKey', 'rowTitles') and not isinstance(v, list):
        return [py(value(v))]
    if prop == 'trim' and isinstance(v, bool):
        return str(v).lower()
    return py(value(v))


def invalid(eng, ob):
    prepare(eng)
    P = eng.path
    cls = sorted(PROPS)[P.choose('description', len(PROPS))]
    props = PROPS[cls]
    prop = sorted(props)[P.choose('property', len(props))]
    bad = props[prop][1]
    v = bad[P.choose('value', len(bad))]
    own = {k: x for k, x in OWN[cls].items() if k != prop}
    o0, w0 = load(eng, place(cls, own))
    first = P.choose('first', 2) == 0
    o, w = load(eng, place(cls, dict({prop: value(v)}, **own) if first else dict(own, **{prop: value(v)})))
    what = '{} {}'.format(cls, prop)
    if not o0.returned or w0:
        ob(False, what, lambda: 'a valid description {} {}'.format(own, o0.describe(eng)))
        return
    if not o.returned:
        ob(False, what, lambda: '{} as {}: {}'.format(word(v), what, o.describe(eng)))
        return
    a, b = py(o0.value), py(o.value)
    if cls not in ('TableGroup',):
        a, b = py(target(eng, o0.value, cls)), py(target(eng, o.value, cls))
    if prop == 'titles':
        # titles without any text are no titles
        for x in (a, b):
            t = x['Column']['titles']
            if t is not None and not t['NaturalLanguage']['payload']:
                x['Column']['titles'] = None
    if (cls, prop) == ('Datatype', 'base'):
        a = b if b['Datatype']['base'] == 'string' else a
    ob(a == b, what, lambda: '{} as {} is not ignored: {} instead of {}'.format(word(v), what, diff(b, a), diff(a, b)))
    ob(w > 0, what + ' warning', lambda: '{} as {} gives no warning'.format(word(v), what))


def diff(a, b):
    if isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b) and a != b:
        return {k: diff(a[k], b[k]) for k in a if a[k] != b[k]}
    return a


def valid(eng, ob):
    prepare(eng)
    P = eng.path
    cls = sorted(PROPS)[P.choose('description', len(PROPS))]
    props = PROPS[cls]
    prop = sorted(props)[P.choose('property', len(props))]
    good = props[prop][0]
    v = good[P.choose('value', len(good))]
    own = {k: x for k, x in OWN[cls].items() if k != prop}
    o0, w0 = load(eng, place(cls, own))
    o, w = load(eng, place(cls, dict(own, **{prop: value(v)})))
    what = '{} {}'.format(cls, prop)
    if not o0.returned or not o.returned:
        ob(False, what, lambda: '{} as {}: {}'.format(word(v), what, o.describe(eng)))
        return
    t = target(eng, o.value, cls)
    got = py(eng.getattr(t, prop))
    if prop in ('columns', 'tables', 'foreignKeys', 'tableSchema', 'dialect', 'titles'):
        ok = (got == [] if isinstance(v, list) else isinstance(got, dict)) if not v else bool(got)
        if prop == 'titles':
            pl = got and got['NaturalLanguage']['payload']
            w_ = {k: x if isinstance(x, list) else [x] for k, x in (
                v.items() if isinstance(v, dict) else [(None, v if isinstance(v, list) else py(value(v)))])}
            ok = pl == w_
        elif v and isinstance(v, dict):
            k, x = list(v.items())[0]
            ok = got and (list(got.values())[0][k] == x if prop == 'dialect' else len(
                list(got.values())[0]['columns']) == 1)
        elif v:
            ok = len(got) == len(v)
    else:
        ok = got == expected(eng, prop, cls, v)
    ob(ok, what, lambda: '{} as {} is not kept, but gives {}'.format(word(v), what, got))
    a, b = (py(target(eng, x.value, cls), skip=(prop,)) for x in (o0, o))
    if prop == 'headerRowCount':
        # rows of the header imply a header
        a['Dialect'].pop('header'), b['Dialect'].pop('header')
    if prop == 'encoding' or prop == 'trim':
        pass
    ob(a == b, what + ' rest', lambda: '{} as {} changes other properties: {} instead of {}'.format(
        word(v), what, diff(b, a), diff(a, b)))
    ob(w == 0, what + ' warning', lambda: '{} as {} gives a warning'.format(word(v), what))


def counts(eng, ob):
    """any whole number as count"""
    prepare(eng)
    P = eng.path
    prop = ['skipRows', 'headerRowCount', 'skipColumns'][P.choose('property', 3)]
    n = S('number', 'int', notnone=True)
    d = {prop: n, 'delimiter': ';'}
    o, w = load(eng, place('Dialect', d))
    if not o.returned:
        ob(False, prop, lambda: 'any number as {}: {}'.format(prop, o.describe(eng)))
        return
    dia = target(eng, o.value, 'Dialect')
    got = eng.getattr(dia, prop)
    nonneg = peek(eng, lambda: P.truth(eng.compare(ast.GtE(), n, 0)))
    default = 1 if prop == 'headerRowCount' else 0
    if same(eng, got, n) is True and key(got) == key(n):
        ob(nonneg if nonneg is not None else None, prop, lambda: 'a negative number is kept as {}'.format(prop))
        ob(w == 0, prop + ' warning', lambda: 'a valid {} gives a warning'.format(prop))
    else:
        ob(not nonneg and same(eng, got, default) is True, prop, lambda: '{} instead of {}'.format(show(got), default))
        ob(w > 0, prop + ' warning', lambda: 'a negative {} gives no warning'.format(prop))
    ob(same(eng, eng.getattr(dia, 'delimiter'), ';') is True, prop + ' rest', 'other properties change')


MEMBERS = {
    ('Schema', 'columns'): ([{'name': 'a'}, {'titles': 'b'}], [5, 'x', True, None, [], [{'name': 'z'}], 1.5]),
    ('Schema', 'foreignKeys'): ([FK, dict(FK, columnReference='b')], [5, 'x', True, None, [], [FK], 1.5]),
    ('TableGroup', 'tables'): ([{'url': 'a.csv'}, {'url': 'b.csv'}], [5, 'x', True, None, [], [{'url': 'z'}], 1.5]),
}


def members(eng, ob):
    """members of the wrong type are left out, the others are kept in order"""
    prepare(eng)
    P = eng.path
    cls, prop = sorted(MEMBERS)[P.choose('property', len(MEMBERS))]
    good, bad = MEMBERS[cls, prop]
    own = {k: x for k, x in OWN[cls].items() if k != prop}
    at = P.choose('position', 3)
    v = bad[P.choose('value', len(bad))]
    o0, w0 = load(eng, place(cls, dict(own, **{prop: good})))
    o, w = load(eng, place(cls, dict(own, **{prop: good[:at] + [v] + good[at:]})))
    what = '{} {} members'.format(cls, prop)
    if not o.returned or not o0.returned:
        ob(False, what, lambda: '{!r} among the {}: {}'.format(v, prop, o.describe(eng)))
        return
    a, b = py(o0.value), py(o.value)
    ob(a == b, what, lambda: '{!r} among the {} is not left out: {} instead of {}'.format(
        v, prop, diff(b, a), diff(a, b)))
    ob(w > w0, what + ' warning', lambda: '{!r} among the {} gives no warning'.format(v, prop))


def title_members(eng, ob):
    """titles which are no strings are not kept"""
    prepare(eng)
    P = eng.path
    lang = ['en', 'und'][P.choose('language', 2)]
    bad = [5, None, True, {}, ['x'], 1.5][P.choose('value', 6)]
    good = [['t'], ['t', 'u'], []][P.choose('titles', 3)]
    at = P.choose('position', 3)
    v = good[:at] + [bad] + good[at:]
    if len(v) == 1 and not isinstance(bad, list) and P.choose('single', 2):
        v = bad
    t = {lang: v, 'de': 'f'} if P.choose('more', 2) else {lang: v}
    o, w = load(eng, place('Column', {'name': 'a', 'lang': 'en', 'titles': t}))
    if not o.returned:
        ob(False, 'title members', lambda: '{!r} as titles: {}'.format(t, o.describe(eng)))
        return
    col = py(target(eng, o.value, 'Column'))['Column']
    got = col['titles'] and col['titles']['NaturalLanguage']['payload']
    kept = [x for xs in (got or {}).values() for x in xs]
    want = good + ['f'] * (len(t) > 1)
    ob(kept == want or kept == want[len(good):], 'title members', lambda: '{!r} as titles gives {}'.format(t, got))
    ob(w > 0, 'title members warning', lambda: '{!r} as titles gives no warning'.format(t))
    ob(col['name'] == 'a' and col['lang'] == 'en', 'title members rest', 'other properties change')


UNKNOWN = ['foo', 'Name', 'base_', '_parent', '_fname', '_number', 'common_props', 'at_props', 'parent', 'fname',
           'number', 'columnReference', 'uriTemplate', '', 'x y']
FOREIGN = {'Dialect': ['name', 'lang', 'null', 'separator', 'url', 'datatype'], 'Column': ['columns', 'url', 'encoding'],
           'Schema': ['tables', 'name', 'titles', 'url', 'delimiter'], 'Table': ['tables', 'columns', 'name', 'header'],
           'TableGroup': ['columns', 'name', 'primaryKey', 'encoding'],
           'Datatype': ['name', 'null', 'titles', 'required', 'lang']}
VALUES = ['x', 5, True, None, [], {}, {'name': 'x'}]


def unknown(eng, ob):
    """unknown properties are ignored"""
    prepare(eng)
    P = eng.path
    cls = sorted(PROPS)[P.choose('description', len(PROPS))]
    names = FOREIGN[cls] + UNKNOWN
    name = names[P.choose('property', len(names))]
    v = VALUES[P.choose('value', len(VALUES))]
    first = P.choose('first', 2) == 0
    own = OWN[cls]
    o0, w0 = load(eng, place(cls, own))
    o, w = load(eng, place(cls, dict({name: v}, **own) if first else dict(own, **{name: v})))
    if not o.returned or not o0.returned:
        ob(False, cls + ' unknown', lambda: 'an unknown property {!r} of {}: {}'.format(name, cls, o.describe(eng)))
        return
    a, b = py(o0.value), py(o.value)
    ob(a == b, cls + ' unknown', lambda: 'the unknown property {!r} of {} is not ignored: {} instead of {}'.format(
        name, cls, diff(b, a), diff(a, b)))
    ob(w > w0, cls + ' unknown warning', lambda: 'the unknown property {!r} of {} gives no warning'.format(name, cls))


def inherit(eng, ob):
    """with an invalid value, the one of the schema, table or group is inherited"""
    prepare(eng)
    P = eng.path
    prop = ['default', 'lang', 'null', 'ordered', 'separator', 'textDirection'][P.choose('property', 6)]
    up = {'default': 'd', 'lang': 'de', 'null': ['NA'], 'ordered': True, 'separator': '|', 'textDirection': 'rtl'}[prop]
    bad = INHERITED[prop][1]
    v = bad[P.choose('value', len(bad))]
    level = ['Schema', 'Table', 'TableGroup'][P.choose('given at', 3)]
    col = {'name': 'a', prop: value(v)}
    sch = {'columns': [col]}
    tab = {'url': 't.csv', 'tableSchema': sch}
    grp = {'tables': [tab]}
    {'Schema': sch, 'Table': tab, 'TableGroup': grp}[level][prop] = up
    o, w = load(eng, grp)
    if not o.returned:
        ob(False, prop, lambda: '{} as {}: {}'.format(word(v), prop, o.describe(eng)))
        return
    c = target(eng, o.value, 'Column')
    o = call(eng, c, 'inherit_null') if prop == 'null' else call(eng, c, 'inherit', prop)
    got = py(o.value) if o.returned else o.describe(eng)
    ob(got == up, prop + ' inherited', lambda: 'a column with {} as {} has {} instead of {}, as given for the {}'.format(
        word(v), prop, got, up, level))


def dialects(eng, ob):
    """a table with an invalid dialect has the one of its group"""
    prepare(eng)
    P = eng.path
    vals = [True, 0, 5, 1.5, [], ['x'], [{'delimiter': '|'}], None]
    v = vals[P.choose('value', len(vals))]
    o, w = load(eng, {'dialect': {'delimiter': ';'}, 'tables': [{'url': 't.csv', 'dialect': v}]})
    if not o.returned:
        ob(False, 'dialect', lambda: '{!r} as dialect: {}'.format(v, o.describe(eng)))
        return
    t = target(eng, o.value, 'Table')
    o = call(eng, t, '_get_dialect')
    ob(o.returned and same(eng, eng.getattr(o.value, 'delimiter'), ';') is True, 'dialect of the group', lambda:
       'a table with {!r} as dialect is not read by the dialect of its group'.format(v))
    ob((w > 0) == (v is not None), 'dialect warning', lambda: '{!r} as dialect: {} warnings'.format(v, w))


HEADERS = [('header', False), ('headerRowCount', 0)]


def header(eng, ob):
    """an invalid number of header rows does not imply a header"""
    prepare(eng)
    P = eng.path
    v = NOTCOUNT[P.choose('value', len(NOTCOUNT))]
    o, w = load(eng, place('Dialect', {'header': False, 'headerRowCount': value(v)}))
    if not o.returned:
        ob(False, 'headerRowCount', lambda: '{} as headerRowCount: {}'.format(word(v), o.describe(eng)))
        return
    d = target(eng, o.value, 'Dialect')
    ob(same(eng, eng.getattr(d, 'header'), False) is True, 'no header', lambda: 'data without header is given one by '
       '{} as headerRowCount'.format(word(v)))


def rules(C):
    C.explore('invalid', invalid, mods=MODS, min_ok=1000, statement='a warning, and the default')
    C.explore('valid', valid, mods=MODS, min_ok=300, statement='kept without warning')
    C.explore('counts', counts, mods=MODS, min_ok=12, statement='negative counts are replaced')
    C.explore('members', members, mods=MODS, min_ok=100, statement='invalid members are left out')
    C.explore('title members', title_members, mods=MODS, min_ok=100, statement='titles which are no strings are left out')
    C.explore('unknown', unknown, mods=MODS, min_ok=1000, statement='unknown properties are ignored')
    C.explore('inherit', inherit, mods=MODS, min_ok=150, statement='as if not given')
    C.explore('dialects', dialects, mods=MODS, min_ok=14, statement='as if not given')
    C.explore('header', header, mods=MODS, min_ok=11, statement='as if not given')
