"""Structurally invalid metadata is rejected with ValueError; other metadata is accepted."""
from .common import *

ASSUMPTIONS = ['language_tags.tags.check decides whether a language tag is valid',
               'nesting is enumerated up to depth 3, each kind of nesting at each level',
               'documents of up to three columns are analysed']
MODS = ['csvw', 'csvw.metadata', 'csvw.utils']
NS = 'http://www.w3.org/ns/csvw'


def doc(eng, x):
    """dicts and lists as values of the analysed program"""
    if isinstance(x, dict):
        return eng.VD([(k, doc(eng, v)) for k, v in x.items()])
    if isinstance(x, list):
        return eng.VL([doc(eng, v) for v in x])
    return x


def prepare(eng):
    eng.ext_overrides['language_tags.tags.check'] = lambda e, a, k: a[0] in ('en', 'de')
    eng.unroll = 200


def load(eng, x, cls='TableGroup'):
    prepare(eng)
    return run(eng, lambda: eng.call(eng.getattr(find(eng, 'csvw.metadata.' + cls), 'fromvalue'), [doc(eng, x)]))


def verdict(eng, ob, x, bad, what, cls='TableGroup'):
    """bad: None - must be accepted; text: must be rejected, because of this fault"""
    o = load(eng, x, cls)
    if bad:
        ob(o.is_exc(eng, 'ValueError'), what, lambda: '{} must be rejected with ValueError, but loading '
           '{} {}'.format(bad, x, 'is accepted' if o.returned else o.describe(eng)))
    else:
        ob(o.returned, what, lambda: 'loading {} {}'.format(x, o.describe(eng)))
    return o


# The places of a document where properties may be added.
PLACES = ['TableGroup', 'Table', 'Schema', 'Column', 'Datatype', 'Column of a Table', 'Dialect', 'Template']


def place(name, props):
    """a document with the properties at the place, and the class to load it with"""
    cls = 'TableGroup'
    dt, col, sch, tab, grp, dia, tra = ({} for _ in range(7))
    {'TableGroup': grp, 'Table': tab, 'Schema': sch, 'Column': col, 'Datatype': dt, 'Column of a Table': col,
     'Dialect': dia, 'Template': tra}[name].update(props)
    col = dict({'name': 'a'}, **col)
    if name == 'Datatype':
        col['datatype'] = dict({'base': 'string'}, **dt)
    tab = dict({'url': 't.csv', 'tableSchema': dict({'columns': [{'name': 'x'}, col]}, **sch)}, **tab)
    grp = dict({'tables': [{'url': 'u.csv'}, tab]}, **grp)
    if name == 'Dialect':
        tab['dialect'] = dict({'header': False}, **dia)
    if name == 'Template':
        tab['transformations'] = [dict({'url': 't.js', 'titles': 'x'}, **tra)]
    if name == 'Column of a Table':
        return tab, 'Table'
    return grp, cls


def types(eng, ob):
    """an @type must be the kind of description"""
    name = PLACES[eng.path.choose('place', len(PLACES))]
    kind = name.split()[0]
    vals = [kind, kind.lower(), 'Table' if kind != 'Table' else 'TableGroup', 'Template' if kind != 'Template'
            else 'Table', NS + '#' + kind, 5, None, [kind], S('type', 'str')]
    v = vals[eng.path.choose('value', len(vals))]
    d, cls = place(name, {'@type': v})
    bad = None
    if isinstance(v, Sym):
        o = load(eng, d, cls)
        eq = same(eng, v, kind)
        ob(None if eq is None else o.returned if eq else o.is_exc(eng, 'ValueError'), kind + ' @type', lambda:
           'some @type, which is {}the kind, for {}: {}'.format('' if eq else 'not ', kind, o.describe(eng)))
        return
    if v != kind:
        bad = '@type {} for {}'.format(v, kind)
    verdict(eng, ob, d, bad, kind + ' @type', cls)


def ids(eng, ob):
    """no @id is a blank node"""
    name = PLACES[eng.path.choose('place', len(PLACES))]
    s = S('id', 'str')
    vals = [('_:x', 1), ('_:', 1), (T('cat', '_:', s, typ='str'), 1), ('http://example.org', 0), ('x', 0),
            (T('cat', 'http://x/', s, typ='str'), 0), ('x_:', 0)]
    v, bad = vals[eng.path.choose('value', len(vals))]
    d, cls = place(name, {'@id': v})
    verdict(eng, ob, d, 'a blank node as @id' if bad else None, name.split()[0] + ' @id', cls)


# JSON values of common properties with and without faults
OTHER = ['@context', '@base', '@graph', '@list', '@set', '@Value', '@']
GOOD = ['x', 5, 1.5, True, None, [], {}, ['x', 1], {'dc:a': 'b', 'x': 1}, {'@id': 'http://x'},
        {'@id': 'http://x', '@type': 'schema:Person', 'schema:name': 'y'},
        {'@value': 'x'}, {'@value': 5}, {'@value': 1.5}, {'@value': True}, {'@value': False}, {'@value': 0},
        {'@value': '', '@language': 'en'}, {'@value': 'x', '@language': 'en'},
        {'@value': 'x', '@type': 'xsd:string'}, {'@value': 1.5, '@type': 'xsd:decimal'},
        {'@value': 0, '@type': 'http://www.w3.org/2001/XMLSchema#integer'},
        {'@type': 'Table'}, {'@type': 'https://example.org/x'}, {'@type': 'http://example.org/_:x'},
        {'@type': ['Table', 'dc:x']}, {'@type': []}, {'@type': 'foaf:Person', 'foaf:name': 'x'}]
BAD = [{k: 'x'} for k in OTHER] + [{'@id': 'http://x', k: 'x', 'dc:a': 1} for k in OTHER[:3]] + [
    {'@value': 'x', 'dc:a': 'b'}, {'@value': 'x', '@id': 'http://x'}, {'@value': 'x', 'a': 'b'},
    {'@value': 'x', '@language': 'en', '@type': 'xsd:string'},
    {'@value': 'x', '@language': 'en', 'a': 1}, {'@value': 'x', '@type': 'xsd:string', 'a': 1},
    {'@value': []}, {'@value': {}}, {'@value': ['x']}, {'@value': ['x'], '@language': 'en'},
    {'@value': {'x': 1}, '@type': 'xsd:string'}, {'@value': {'x': 1}, 'a': 1}, {'@value': None, '@language': 'en'},
    {'@language': 'en'}, {'@language': 'en', 'dc:a': 'b'}, {'@language': 'en', '@id': 'http://x'},
    {'@language': 'en', '@type': 'dc:x'},
    {'@type': '_:x'}, {'@type': '_:x', '@value': 'x'}, {'@type': 'foo'}, {'@type': 'foo:bar'},
    {'@type': 'table'}, {'@type': ''}, {'@type': 'dcx:y'}, {'@type': 'a dc:x'}, {'@type': 'xschema:y'}, {'@type': 'foo', '@value': 'x'}, {'@type': 5}, {'@type': 1.5},
    {'@type': True}, {'@type': ['_:x']}, {'@type': ['Table', 'foo']}, {'@type': ['foo:Table', 'dc:x']},
    {'@id': '_:x'}, {'@id': '_:x', 'dc:a': 'b'}, {'@id': '_:x', '@type': 'Table'}]
WRAP = [('list', lambda v: [v]), ('list with others', lambda v: ['x', 5, v, {'a': 'b'}]),
        ('dict', lambda v: {'dc:x': v}), ('dict with others', lambda v: {'@type': 'dc:T', 'a': 'x', 'b': v, 'c': []})]


def common(depth, values, bad):
    def h(eng, ob):
        P = eng.path
        v = values[P.choose('value', len(values))]
        text = v
        how = []
        for i in range(depth):
            n, f = WRAP[P.choose('nesting', len(WRAP))]
            v = f(v)
            how.append(n)
        name = PLACES[P.choose('place', 6)] if depth < 2 else PLACES[P.choose('place', 2) + 1]
        d, cls = place(name, {'dc:other': 'x', 'schema:prop': v})
        verdict(eng, ob, d, text if bad else None, '{} common property{}'.format(
            name, ' in ' + how[0] if how else ''), cls)
    return h


def urls(eng, ob):
    """every table has a URL"""
    P = eng.path
    n = P.choose('tables', 3) + 1
    missing = P.choose('table without URL', n + 1)
    how = P.choose('how', 2)
    schema = P.choose('schema', 2) == 0
    alone = P.choose('loaded as table', 2) == 0 and n == 1
    tabs = []
    for i in range(n):
        t = {'url': 't{}.csv'.format(i)}
        if schema:
            t['tableSchema'] = {'columns': [{'name': 'a'}]}
        if i + 1 == missing:
            if how:
                t['url'] = None
            else:
                del t['url']
        tabs.append(t)
    verdict(eng, ob, tabs[0] if alone else {'tables': tabs}, 'a table without URL' if missing else None,
            'url', 'Table' if alone else 'TableGroup')


CONTEXTS = [(NS, 0), ([NS], 0), ([NS, {'@base': 'http://x/'}], 0), ([NS, {'@language': 'en'}], 0),
            ([NS, {'@language': 'de', '@base': 'x/'}], 0), ([NS, {}], 0),
            ([NS, {'@vocab': 'x'}], 1), ([NS, {'@language': 'en', 'dc': 'http://x'}], 1),
            ([NS, {'@base': 'x', '@language': 'en', '@id': 'x'}], 1), ([NS, {'base': 'x'}], 1),
            (['http://example.org'], 1), ([NS, 'http://example.org'], 1), ([NS + '#', {'@language': 'en'}], 1),
            (['http://example.org', {'@language': 'en'}], 1)]


def contexts(eng, ob):
    P = eng.path
    v, bad = CONTEXTS[P.choose('context', len(CONTEXTS))]
    cls = ['TableGroup', 'Table'][P.choose('loaded as', 2)]
    t = {'url': 't.csv'}
    d = dict({'@context': v}, **(t if cls == 'Table' else {'tables': [t]}))
    verdict(eng, ob, d, 'the context' if bad else None, cls + ' @context', cls)


def opened(eng, ob):
    """what is opened as dataset has the CSVW context and tables"""
    P = eng.path
    ctxs = [(NS, 0), ([NS, {'@language': 'en'}], 0), (None, 1), ('http://example.org', 1), (['http://example.org'], 1),
            ('', 1), ([], 1)]
    ctx, bad1 = ctxs[P.choose('context', len(ctxs))]
    tabs = [([{'url': 't.csv', 'tableSchema': {'columns': [{'name': 'a'}]}}], 0), ([], 1), ({'url': 't.csv'}, 1),
            (None, 1), ('x', 1), ('no tables', 0)]
    tab, bad2 = tabs[P.choose('tables', len(tabs))]
    validate = P.choose('validate', 2) == 0
    d = {'tables': tab}
    if tab == 'no tables':
        d = {'url': 't.csv', 'tableSchema': {'columns': [{'name': 'a'}]}}
    if ctx is not None:
        d['@context'] = ctx
    prepare(eng)
    eng.overrides['csvw.metadata.get_json'] = lambda e, a, k: doc(e, d)
    o = run(eng, lambda: eng.call(find(eng, 'csvw.metadata.CSVW'), ['dir/metadata.json'], {'validate': validate}))
    bad = bad1 or bad2
    ob(o.is_exc(eng, 'ValueError') if bad else o.returned, 'dataset ' + (
        'context' if bad1 else 'tables'), lambda: 'opening {} {}'.format(d, o.describe(eng)))


def columns(eng, ob):
    """virtual columns come last, and no two of the other columns have the same name"""
    P = eng.path
    n = P.choose('columns', 4)
    how = P.choose('loaded as', 3) if n < 3 else 0
    cols, names, last, bad = [], [], False, []
    syms, hidden = ['a', 'b'], []
    for i in range(n):
        c = {}
        v = P.choose('virtual: no, yes, false', 3)
        if v:
            c['virtual'] = v == 1
        if last and v != 1:
            bad.append('a regular after a virtual column')
        last = last or v == 1
        k = P.choose('name', 4)
        if k < 2:
            c['name'] = syms[k]
        elif k == 2:
            c['titles'] = 'a'
        if 'name' in c and v != 1 and not last:
            if c['name'] in names:
                bad.append('two columns of the same name')
            names.append(c['name'])
        if 'name' in c and v == 1:
            hidden.append(c['name'])
        cols.append(c)
    if not bad and len(set(names + hidden)) < len(names + hidden):
        return          # the names of virtual columns
    if how == 2:
        verdict(eng, ob, {'columns': cols}, ', '.join(bad), 'columns', 'Schema')
        return
    t = {'url': 't.csv', 'tableSchema': {'columns': cols}}
    verdict(eng, ob, t if how else {'tables': [t]}, ', '.join(bad), 'columns', 'Table' if how else 'TableGroup')


def symbolic_names(eng, ob):
    """names are compared as they are"""
    a, b = S('name1', 'str', truthy=True), S('name2', 'str', truthy=True)
    mid = eng.path.choose('column between', 2) == 0
    cols = [{'name': a}] + ([{'name': 'mid', 'titles': 'm'}] if mid else []) + [{'name': b}]
    o = load(eng, {'columns': cols}, 'Schema')
    eq = same(eng, a, b)
    if mid and (same(eng, a, 'mid') is True or same(eng, b, 'mid') is True):
        eq = True
    ob(None if eq is None else o.is_exc(eng, 'ValueError') if eq else o.returned, 'names', lambda:
       'two names, which are {}equal: {}'.format('' if eq else 'not ', o.describe(eng)))


def foreign_keys(eng, ob):
    P = eng.path
    col = ['a', ['a'], ['a', 'b'], 'missing'][P.choose('columns', 4)]
    res = P.choose('resource', 2) == 0
    sref = P.choose('schema reference', 2) == 0
    rcol = ['x', ['x', 'y']][P.choose('referenced', 2)]
    surplus = ['', 'fk', 'reference', 'common', 'no reference', 'not an object'][P.choose('surplus', 6)]
    d = {'columnReference': col, 'reference': {'columnReference': rcol}}
    if col == 'missing':
        del d['columnReference']
    if res:
        d['reference']['resource'] = 'u.csv'
    if sref:
        d['reference']['schemaReference'] = 'http://example.org/schema'
    if surplus == 'fk':
        d['resource'] = 'u.csv'
    elif surplus == 'reference':
        d['reference']['name'] = 'x'
    elif surplus == 'common':
        d['dc:title'] = 'x'
    elif surplus == 'no reference':
        del d['reference']
    elif surplus == 'not an object':
        d['reference'] = 'u.csv'
    other = {'columnReference': 'b', 'reference': {'resource': 'u.csv', 'columnReference': 'x'}}
    pos = P.choose('position', 3)
    fks = [[d], [d, other], [other, d]][pos]
    how = P.choose('loaded as', 2)
    t = {'url': 't.csv', 'tableSchema': {'columns': [{'name': 'a'}, {'name': 'b'}], 'foreignKeys': fks}}
    bad = surplus and 'foreign key: ' + surplus or (res and sref and 'resource and schemaReference') or None
    verdict(eng, ob, t if how else {'tables': [{'url': 'u.csv'}, t]}, bad, 'foreign key',
            'Table' if how else 'TableGroup')


def rules(C):
    C.explore('types', types, mods=MODS, min_ok=60, statement='@type is the kind of description')
    C.explore('ids', ids, mods=MODS, min_ok=50, statement='no @id is a blank node')
    C.explore('urls', urls, mods=MODS, min_ok=20, statement='tables have URLs')
    C.explore('contexts', contexts, mods=MODS, min_ok=28, statement='contexts are those of CSVW')
    C.explore('opened', opened, mods=MODS, min_ok=80, statement='datasets have the CSVW context and tables')
    C.explore('columns', columns, mods=MODS, min_ok=1000, statement='virtual columns last, unique names')
    C.explore('names', symbolic_names, mods=MODS, min_ok=3, statement='names are compared as they are')
    C.explore('foreign-keys', foreign_keys, mods=MODS, min_ok=500, statement='foreign keys have no surplus properties')
    for depth in range(4 if C.thorough else 3):
        C.explore('rejected-{}'.format(depth), common(depth, BAD, True), mods=MODS, min_ok=len(BAD) * 4 ** depth,
                  statement='misused @-keys are rejected at any depth')
        C.explore('accepted-{}'.format(depth), common(depth, GOOD, False), mods=MODS, min_ok=len(GOOD) * 4 ** depth,
                  statement='valid common properties are accepted')
