"""JSON conversion outputs every non-null, unsuppressed cell once."""
import decimal
import re
from urllib.parse import urljoin

from .tables import *
from .P20 import doc
from csvwlint.path import _NO

ASSUMPTIONS = ['Table.iterdicts gives the rows of the table, as P14 has it',
               'URI templates are expanded as RFC 6570 has it for simple {name} expressions, variables being the '
               'columns, _row and _name',
               'virtual columns have a value URL; no property is rdf:type; cells in templates are plain ASCII names',
               'rows of up to four cells and tables of up to three rows are analysed']
MODS = ['csvw', 'csvw.metadata', 'csvw.utils', 'csvw.jsonld']
NS = 'http://www.w3.org/ns/csvw'
BASE = 'http://example.org/d/'


def subst(e, tmpl, ctx):
    parts = []
    for i, x in enumerate(re.split(r'\{(\w+)\}', tmpl)):
        if i % 2 == 0:
            parts.append(x)
        elif x in ctx and ctx[x] is not None:
            parts.append(ctx[x] if is_const(ctx[x]) else None)
    if None in parts:
        return None
    return ''.join(map(str, parts))


def setup(eng, location, document, rows):
    """rows(url) -> list of (source line, {name: value}) of the table with this url"""
    given_rows(eng, [])
    eng.unroll = 200

    def get_json(e, a, k):
        return doc(e, document)
    eng.overrides['csvw.metadata.get_json'] = get_json
    for f in ('.is_dir', 'os.path.isdir'):
        eng.ext_overrides[f] = lambda e, a, k: True if plain_text(a[0]) == 'dir' else _NO

    def expand(e, a, k):
        obj = a[0].args[0] if isinstance(a[0], Term) and a[0].op == 'inst' else a[0]
        if not isinstance(obj, Inst):
            return _NO
        tmpl = obj.attrs.get('__ext_args__') or [None]
        ctx = {}
        if len(a) > 1 and isinstance(a[1], (VDict, Inst)):
            ctx.update((a[1].payload if isinstance(a[1], Inst) else a[1]).pairs())
        ctx.update(k)
        res = subst(e, tmpl[0], ctx) if isinstance(tmpl[0], str) else None
        return _NO if res is None else res
    eng.ext_overrides['.expand'] = expand

    def iterdicts(e, a, k):
        self = a[0]
        kw = dict(zip(['log', 'with_metadata', 'fname', '_Row', 'strict'], a[1:]), **k)
        url = self.attrs['url'].attrs['string']
        e.event('iterdicts', [self], kw)

        def gen():
            for line, row in rows(url):
                d = e.VD(list(row.items()), cls='OrderedDict')
                yield (url, line, d) if kw.get('with_metadata') else d
        return e.register(Iter(gen(), 'rows'), 'rows')
    eng.overrides['csvw.metadata.Table.iterdicts'] = iterdicts
    o = run(eng, lambda: eng.call(find(eng, 'csvw.metadata.CSVW'), [location]))
    return o


def data(v):
    """JSON data; what is not known stays as it is"""
    if isinstance(v, Inst) and v.payload is not None:
        v = v.payload
    if isinstance(v, VDict):
        if v.rest:
            return v
        return {k: data(x) for k, x in v.pairs()}
    if isinstance(v, VList):
        items = thaw_items(v)
        return v if items is None or any(isinstance(x, Rest) for x in items) else [data(x) for x in items]
    if isinstance(v, (list, tuple)):
        return [data(x) for x in v]
    return v


def equal(eng, a, b):
    """True / False / None"""
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return False
        rs = [equal(eng, a[k], b[k]) for k in a]
    elif isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return False
        rs = [equal(eng, x, y) for x, y in zip(a, b)]
    elif isinstance(a, (dict, list)) or isinstance(b, (dict, list)):
        return None if isinstance(a, (VDict, VList)) or isinstance(b, (VDict, VList)) else False
    else:
        if isinstance(a, (bool, int, float, str, type(None))) and isinstance(b, (bool, int, float, str, type(None))):
            return type(a) is type(b) and a == b
        r = same(eng, a, b)
        # distinct opaque values are different for some inputs
        return r if r is not None else False
    return False if False in rs else None if None in rs else True


def convert(eng, ob, ds, minimal=None):
    o = call(eng, ds, 'to_json', **({} if minimal is None else {'minimal': minimal}))
    if not o.returned:
        ob(False, 'conversion', lambda: 'to_json ' + o.describe(eng))
        return None
    return data(o.value)


def opened(eng, ob, o, document):
    if not o.returned:
        ob(False, 'opening', lambda: 'opening {} {}'.format(document, o.describe(eng)))
    return o.returned


# --- tables and rows

def tables(eng, ob):
    """an entry for each table not suppressed; rows in order with their numbers"""
    P = eng.path
    local = P.choose('local', 2) == 0
    loc = 'dir/md.json' if local else BASE + 'md.json'
    n = 1 + P.choose('tables', 3)
    group = n > 1 or P.choose('group', 2) == 0
    minimal = P.choose('minimal', 2) == 0
    sup = [P.choose('suppress', 2 if i else 3) for i in range(n)]       # 0: yes, 1: no, 2: not given
    nrows = [[0, 2, 1, 3][P.choose('rows', 2 if n > 2 else 4 if n == 1 else 3)] for i in range(n)]
    tabs, rows = [], {}
    for i in range(n):
        t = {'url': 't{}.csv'.format(i), 'tableSchema': {'columns': [{'name': 'a'}]}}
        if sup[i] < 2:
            t['suppressOutput'] = sup[i] == 0
        tabs.append(t)
        lines = [S('line{}_{}'.format(i, j), 'int', notnone=True) for j in range(nrows[i])]
        rows[t['url']] = [(x, {'a': 10 * i + j}) for j, x in enumerate(lines)]
    d = dict({'@context': NS}, **({'tables': tabs} if group else tabs[0]))
    o = setup(eng, loc, d, lambda url: rows[url])
    if not opened(eng, ob, o, d):
        return
    keep = [i for i in range(n) if sup[i] != 0]
    for again in range(2):
        got = convert(eng, ob, o.value, [minimal, True if minimal else None][again])
        if got is None:
            return
        if minimal:
            want = [{'a': v['a']} for i in keep for _, v in rows['t{}.csv'.format(i)]]
            ob(equal(eng, got, want), 'minimal mode', lambda: 'expected {}, got {}'.format(want, show(got)))
            continue
        tt = got.get('tables') if isinstance(got, dict) else None
        if not isinstance(tt, list):
            ob(None if not isinstance(got, dict) else False, 'tables', lambda: 'no tables in ' + show(got))
            return
        ob(len(tt) == len(keep), 'tables', lambda: 'tables {} of {} are not suppressed, but {} are in the output'
           .format(keep, n, len(tt)))
        if len(tt) != len(keep):
            return
        for i, t in zip(keep, tt):
            url = 't{}.csv'.format(i)
            want = ('dir/' if local else BASE) + url
            u = t.get('url')
            ob(plain_text(u) == want, 'table url', lambda: 'table {} has the url {}'.format(want, show(u)))
            rr = t.get('row')
            if not isinstance(rr, list):
                ob(None if isinstance(rr, (VList, Term, Sym)) else False, 'rows', lambda: 'rows are ' + show(rr))
                continue
            ob(len(rr) == nrows[i], 'rows', lambda: '{} of {} rows in the output'.format(len(rr), nrows[i]))
            for j, (r, (line, vals)) in enumerate(zip(rr, rows[url])):
                ob(equal(eng, r.get('rownum'), j + 1), 'row number', lambda: 'row {} has the number {}'.format(
                    j + 1, show(r.get('rownum'))))
                ob(row_url(r.get('url'), want, line), 'source line number', lambda: 'row {} of line {} has the url '
                   '{}'.format(j + 1, line.name, show(r.get('url'))))
                ob(equal(eng, r.get('describes'), [vals]), 'described objects', lambda: 'row {} describes {}'.format(
                    vals, show(r.get('describes'))))


def plain_text(v):
    while isinstance(v, Term) and v.op in ('str', 'pathlib.Path', 'os.fspath', '.as_posix') and len(v.args) == 1:
        v = v.args[0]
    return v if isinstance(v, str) else None


def flat(v):
    """the pieces of a text"""
    if isinstance(v, Term) and v.op in ('cat', 'str', 'format', 'pathlib.Path') and not isinstance(v, Sym):
        return [x for a in v.args for x in flat(a)]
    return [v]


def row_url(v, url, line):
    parts = flat(v)
    txt = ''.join(x if isinstance(x, str) else '\0' for x in parts)
    rest = [x for x in parts if not isinstance(x, str)]
    return txt == url + '#row=\0' and len(rest) == 1 and key(rest[0]) == key(line)


# --- cells

ROW = {'k': 'K', 'z': 'Z'}


def resolve(u):
    return urljoin(BASE + 't.csv', u)


def given(P, name, levels, make):
    """choose at most one level to give a property; -> (level or None, value)"""
    n = P.choose(name, len(levels) + 1)
    return (None, None) if n == len(levels) else (levels[n], make(n))


def cell_value(eng, kind):
    """(value, value in JSON or _NO if it is left out), the null markers being NA and x"""
    s = S('text', 'str')
    if kind == 'text':
        for x in ('', 'NA', 'x', 'http://example.org/d/k'):
            eng.path.assume(T('eq', s, x, typ='bool'), False)
        return s, s
    if kind == 'decimal':
        return decimal.Decimal('1.25'), 1.25
    return {
        'none': (None, _NO), 'empty': ('', _NO), 'null': ('NA', _NO), 'int': (5, 5), 'zero': (0, 0),
        'false': (False, False), 'list': (['p', 'q'], ['p', 'q']), 'one': (['p'], ['p']), 'nolist': ([], _NO),
        'url': ('http://example.org/other', 'http://example.org/other'),
    }[kind]


KINDS = ['text', 'int', 'zero', 'false', 'none', 'empty', 'null', 'url', 'list', 'one', 'nolist']


def cells(eng, ob):
    """which cells are output, under which name, with which value"""
    P = eng.path
    kind = KINDS[P.choose('cell', len(KINDS))]
    focus = ['null', 'property', 'value', 'suppress', 'again'][P.choose('focus', 5)]
    col, sch, tab, grp = {'name': 'c'}, {}, {}, {}
    where = dict(column=col, schema=sch, table=tab, group=grp)
    if 'list' in kind or kind == 'one':
        lv, _ = given(P, 'separator', ['column', 'schema'], lambda n: ';')
        if lv is None:
            return
        where[lv]['separator'] = ';'
    if kind == 'null':
        lv, _ = given(P, 'null', ['column'] if focus != 'null' else ['column', 'schema', 'table', 'group'], lambda n: 1)
        if lv:
            where[lv]['null'] = ['x', 'NA']
    else:
        lv = 'column'
    v, j = cell_value(eng, kind)
    if kind == 'null' and lv is None:
        j = v
    if kind == 'text' and focus == 'null' and P.choose('null markers', 2) == 0:
        col['null'] = ['NA', 'x']
    pl, purl = given(P, 'propertyUrl', [] if focus in ('null', 'value') else ['column', 'group'] if focus != 'property'
                     else ['column', 'schema', 'table', 'group'],
                     lambda n: ['http://p.org/{_name}', '#{_name}', 'schema:name', 'http://p.org/x#p'][P.choose('pt', 4 if focus == 'property' else 1)])
    name = 'c'
    if pl:
        where[pl]['propertyUrl'] = purl
        name = {'http://p.org/{_name}': 'http://p.org/c', '#{_name}': BASE + 't.csv#c', 'schema:name': 'schema:name',
                'http://p.org/x#p': 'http://p.org/x#p'}[purl]
    vl, vurl = given(P, 'valueUrl', [] if focus in ('null', 'property') else ['column', 'schema'],
                     lambda n: ['http://v.org/{k}/{_row}', 'v{_name}'][P.choose('vt', 2)])
    if vl:
        where[vl]['valueUrl'] = vurl
        if j is not _NO:
            j = {'http://v.org/{k}/{_row}': 'http://v.org/K/2', 'v{_name}': BASE + 'vc'}[vurl]
    if kind in ('int', 'zero', 'false') and focus == 'null':
        # a value is not null just because its text is
        col['null'] = ['5', '0', 'False', '']
    if focus == 'property' and P.choose('titles only', 2) == 1:
        col.pop('name')
        col['titles'] = 'c' if P.choose('titles', 2) else ['c', 'other']
    sup = P.choose('suppressOutput', 3) if focus in ('suppress', 'null') else 2
    if sup < 2:
        col['suppressOutput'] = sup == 0
    if sup == 0:
        j = _NO
    want = [{}, {}, {}]
    for w, i in zip(want, (1, 2, 3)):
        other = {'k': 'K', 'z': 'Z'}
        for n in 'kz':
            pn = n if not pl or pl == 'column' else {
                'http://p.org/{_name}': 'http://p.org/' + n, '#{_name}': BASE + 't.csv#' + n,
                'schema:name': 'schema:name', 'http://p.org/x#p': 'http://p.org/x#p'}[purl]
            vv = other[n] if vl != 'schema' else {'http://v.org/{k}/{_row}': 'http://v.org/K/' + str(i),
                                                  'v{_name}': BASE + 'v' + n}[vurl]
            w.setdefault(pn, []).append(vv)
            if n == 'k' and i == 2 and j is not _NO:
                w.setdefault(name, []).append(j)
    want = [{k: (x[0] if len(x) == 1 else [z for y in x for z in (y if isinstance(y, list) else [y])])
             for k, x in w.items()} for w in want]
    sch['columns'] = [{'name': 'k'}, col, {'name': 'z'}]
    tab.update(url='t.csv', tableSchema=sch)
    d = dict({'@context': NS, 'tables': [tab]}, **grp)
    mine = dict([('k', 'K'), ('c', mkv(eng, v)), ('z', 'Z')])
    none = dict([('k', 'K'), ('c', None), ('z', 'Z')])
    o = setup(eng, BASE + 'md.json', d, lambda url: [(2, none), (3, mine), (4, none)])
    if not opened(eng, ob, o, d):
        return
    for again in range(2 if focus == 'again' else 1):
        got = convert(eng, ob, o.value)
        check_rows(eng, ob, got, [[w] for w in want], '{} cell{}'.format(kind, ' with valueUrl' if vl else ''), d)


def mkv(eng, v):
    return eng.VL(list(v)) if isinstance(v, list) else v


def check_rows(eng, ob, got, want, what, d):
    try:
        rr = got['tables'][0]['row']
        have = [r['describes'] for r in rr]
    except (TypeError, KeyError, IndexError):
        ob(None if not isinstance(got, dict) else False, what, lambda: 'no rows in ' + show(got))
        return
    ob(equal(eng, have, want), what, lambda: 'rows of {} must describe {}, but describe {}'.format(d, want, [
        show(h) for h in have]))


def decimals(eng, ob):
    """numbers and items of lists are JSON numbers"""
    P = eng.path
    v, j = cell_value(eng, 'decimal')
    listy = P.choose('list', 2) == 0
    level = ['column', 'schema'][P.choose('level', 2)]
    col, sch = {'name': 'c'}, {}
    for t in ([col] if level == 'column' else [sch]):
        t['datatype'] = 'decimal'
        if listy:
            t['separator'] = ';'
    sch['columns'] = [col]
    d = {'@context': NS, 'url': 't.csv', 'tableSchema': sch}
    o = setup(eng, BASE + 'md.json', d, lambda url: [(2, {'c': eng.VL([v, 7]) if listy else v})])
    if not opened(eng, ob, o, d):
        return
    got = convert(eng, ob, o.value)
    try:
        c = got['tables'][0]['row'][0]['describes'][0]['c']
    except (TypeError, KeyError, IndexError):
        ob(False, 'decimals', lambda: 'no cell in ' + show(got))
        return
    want = [j, 7] if listy else j
    ob(equal(eng, c, want), 'decimals',
       lambda: 'the decimal{} is converted to {}'.format(' in a list' if listy else '', show(c)))


def undescribed(eng, ob):
    """cells of columns without description"""
    P = eng.path
    tab = {'url': 't.csv', 'tableSchema': {'columns': [{'name': 'a'}]}}
    purl = P.choose('propertyUrl', 3)
    if purl < 2:
        (tab if purl == 0 else tab['tableSchema'])['propertyUrl'] = 'http://p.org/p'
    null = P.choose('null', 4)
    grp = {}
    if null < 3:
        (tab, tab['tableSchema'], grp)[null]['null'] = ['NA']
    null = null in (0, 2)
    vals = [None, '', 'NA', 'v', 'http://x.org/v']
    v = vals[P.choose('cell', len(vals))]
    w = vals[P.choose('other cell', len(vals))]
    d = dict({'@context': NS}, **(dict(grp, tables=[tab]) if grp or P.choose('group', 2) else tab))
    o = setup(eng, BASE + 'md.json', d, lambda url: [(2, {'a': 1, 'b': v, '_col.3': w})])
    if not opened(eng, ob, o, d):
        return
    got = convert(eng, ob, o.value)
    left = [(n, x) for n, x in [('b', v), ('_col.3', w)] if x not in (None, '') and not (null and x == 'NA')]
    if purl == 0:
        want = {'http://p.org/p': [1] + [x for _, x in left] if left else 1}
    elif purl == 1:     # that of the schema may or may not apply
        want = dict({'http://p.org/p': 1}, **dict(left))
    else:
        want = dict({'a': 1}, **dict(left))
    check_rows(eng, ob, got, [[want]], 'cell without description', d)


def no_columns(eng, ob):
    """tables without any column description"""
    P = eng.path
    n = 1 + P.choose('columns', 3)
    vals = [None, '', 'v', 'http://x.org/v']
    row = {'h{}'.format(i): vals[P.choose('cell', len(vals))] for i in range(n)}
    d = {'@context': NS, 'url': 't.csv', 'dc:title': 'x'}
    o = setup(eng, BASE + 'md.json', d, lambda url: [(2, row)])
    if not opened(eng, ob, o, d):
        return
    got = convert(eng, ob, o.value)
    try:
        have = got['tables'][0]['row'][0]['describes']
        vv = [v for x in have for v in x.values()]
    except (TypeError, KeyError, IndexError, AttributeError):
        ob(False, 'no columns', lambda: 'no cells in ' + show(got))
        return
    ob(len(have) == 1 and equal(eng, vv, [v for v in row.values() if v]), 'no columns', lambda: 'the row {} without '
       'described columns gives {}'.format(row, show(have)))


def virtuals(eng, ob):
    """virtual columns come after the others"""
    P = eng.path
    cols, want = [{'name': 'k'}], {'k': 'K'}
    if P.choose('first', 2) == 0:
        want = {}
        cols[0]['suppressOutput'] = True
    for i in range(1 + P.choose('virtual', 2)):
        c = {'name': 'v{}'.format(i), 'virtual': True, 'valueUrl': ['http://v.org/{k}/{_row}', 'x{_name}'][
            P.choose('valueUrl', 2)]}
        name = c['name']
        if P.choose('propertyUrl', 2) == 0:
            c['propertyUrl'] = 'http://p.org/' + ('{_name}' if P.choose('pt', 2) == 0 else 'p')
            name = 'http://p.org/' + (c['name'] if '{' in c['propertyUrl'] else 'p')
        s = P.choose('suppressOutput', 3)
        if s < 2:
            c['suppressOutput'] = s == 0
        if s != 0:
            v = 'http://v.org/K/1' if '{k}' in c['valueUrl'] else BASE + 'x' + c['name']
            want[name] = [want[name], v] if name in want else v
        cols.append(c)
    d = {'@context': NS, 'tables': [{'url': 't.csv', 'tableSchema': {'columns': cols}}]}
    row = dict([('k', 'K')] + [(c['name'], 'http://of.org/iterdicts') for c in cols[1:]])
    o = setup(eng, BASE + 'md.json', d, lambda url: [(7, row)])
    if not opened(eng, ob, o, d):
        return
    for again in range(2):
        got = convert(eng, ob, o.value)
        check_rows(eng, ob, got, [[want]], 'virtual column', d)


# --- objects

SUBJECTS = [None, 'http://s.org/1', 'http://s.org/{k}', BASE + 't.csv#K']
EXPANDED = {None: None, 'http://s.org/1': 'http://s.org/1', 'http://s.org/{k}': 'http://s.org/K',
            BASE + 't.csv#K': BASE + 't.csv#K', '#{k}': BASE + 't.csv#K'}


def nodes_of(objs, top=None):
    """[(subject, property, value)] of the described objects, references being the subject's name"""
    res = []

    def walk(o):
        sid = o.get('@id')
        for p, v in o.items():
            if p == '@id':
                continue
            for x in v if isinstance(v, list) else [v]:
                if isinstance(x, dict):
                    res.append((sid, p, x.get('@id')))
                    walk(x)
                else:
                    res.append((sid, p, x))
    for o in objs:
        walk(o)
    return res


def objects(eng, ob, thorough=False):
    """every cell is a property of its subject, and every object is described once"""
    P = eng.path
    n = 3
    about = [None, '#{k}', 'http://s.org/{k}'][P.choose('subject of the row', 3)]
    cols, cells_ = [], []
    small = P.choose('values', 2) == 0
    for i in range(n):
        c = {'name': 'c{}'.format(i)}
        s = SUBJECTS[P.choose('subject of c{}'.format(i), (4 if thorough else 2) if i == 0 else 4)]
        if s:
            c['aboutUrl'] = s
        vals = [['http://s.org/K', 4], [5, 'http://s.org/1', 'http://s.org/K'], [6, 'http://s.org/1', 'http://s.org/K']] \
            if small else [['x'], [['p', 'q'], 'y'], [['r'], True]]
        v = vals[i][P.choose('value of c{}'.format(i), len(vals[i]))]
        if i == 2 or i == 1 and P.choose('property of c1', 1 if small else 2):
            c['propertyUrl'] = 'http://p.org/p'
        if isinstance(v, list):
            c['separator'] = ';'
        cols.append(c)
        cells_.append(v)
    # the key used by the templates is in a suppressed column
    cols.append({'name': 'k', 'suppressOutput': True})
    sch = {'columns': cols}
    if about:
        sch['aboutUrl'] = about
    d = {'@context': NS, 'url': 't.csv', 'tableSchema': sch}
    row = dict([(c['name'], mkv(eng, v)) for c, v in zip(cols, cells_)], k='K')
    o = setup(eng, BASE + 'md.json', d, lambda url: [(2, row)])
    if not opened(eng, ob, o, d):
        return
    subj = EXPANDED[about]
    found = [EXPANDED[c.get('aboutUrl')] for c in cols[:n]]
    others = {s for s in found if s and s != subj}
    default = subj
    if subj is None and len(others) == 1:
        default = list(others)[0]
    want = []
    for c, s, v in zip(cols, found, cells_):
        for x in v if isinstance(v, list) else [v]:
            want.append((s or default, c.get('propertyUrl') or c['name'], x))
    got = convert(eng, ob, o.value)
    try:
        have = got['tables'][0]['row'][0]['describes']
        triples = nodes_of(have)
    except (TypeError, KeyError, IndexError, AttributeError):
        ob(False, 'objects', lambda: 'no cells in ' + show(got))
        return
    fmt = lambda t: sorted(repr(x) for x in t)  # noqa: E731
    ob(fmt(triples) == fmt(want), 'objects', lambda: 'cells {} of {} must give {}, but give {}'.format(
        cells_, d, want, triples))
    ids = []

    def walk(x):
        if isinstance(x, dict):
            ids.append(x.get('@id'))
            for y in x.values():
                walk(y)
        elif isinstance(x, list):
            for y in x:
                walk(y)
    walk(have)
    ob(len(ids) == len(set(ids)), 'objects described once', lambda: 'objects {} in {}'.format(ids, have))
    refs = [v for s, _, v in want if v != s]
    root = default is not None and any(s == default for s, _, _ in want) and default not in refs
    if root and subj is not None:
        ob(have[0].get('@id') == default, 'first object', lambda: 'the first object of the row with subject {} is '
           '{}'.format(default, show(have[0])))
    least = call(eng, o.value, 'to_json', minimal=True)
    ob(least.returned and equal(eng, data(least.value), have[:1]), 'minimal mode', lambda: 'minimal mode gives {}, '
       'the described objects being {}'.format(least.describe(eng), have))


LEVELS = ['group', 'table', 'schema', 'column']
TEMPLATES = ['http://x.org/{_row}', '#r{_row}-{_name}', 'http://x.org/{k}/{_name}/{_row}', '{k}#{_row}']


def templates(eng, ob):
    """templates are expanded with the cells and number of the row and the name of the column, for each row"""
    P = eng.path
    prop = ['aboutUrl', 'propertyUrl', 'valueUrl', 'virtual valueUrl', 'virtual propertyUrl', 'virtual aboutUrl'][P.choose('property', 6)]
    level = LEVELS[P.choose('level', 4)] if ' ' not in prop else 'column'
    t = TEMPLATES[P.choose('template', len(TEMPLATES))]
    if prop == 'aboutUrl' and level != 'column':
        t = t.replace('{_name}', 'n')   # there is no column
    group = P.choose('group', 2) == 0 or level == 'group'
    cols = [{'name': 'a'}, {'name': 'k', 'suppressOutput': True}]
    v = {'name': 'v', 'virtual': True, 'valueUrl': 'http://val.org/', 'propertyUrl': 'http://prop.org/', 'aboutUrl': 'http://sub.org/'}
    virtual = prop.startswith('virtual')
    if virtual:
        cols.append(dict(v, **{prop.split()[1]: t}))
    sch = {'columns': cols}
    tab = {'url': 't.csv', 'tableSchema': sch}
    d = dict({'@context': NS}, **({'tables': [tab]} if group else tab))
    if not group:
        tab = d
    if not virtual:
        {'group': d, 'table': tab, 'schema': sch, 'column': cols[0]}[level][prop] = t
    lines = [(2, {'a': 5, 'k': 'K1'}), (5, {'a': 6, 'k': 'K2'}), (6, {'a': 7, 'k': 'K3'})]
    o = setup(eng, BASE + 'md.json', d, lambda url: [(n, dict(r)) for n, r in lines])
    if not opened(eng, ob, o, d):
        return
    want = []
    for i, (n, r) in enumerate(lines, start=1):
        x = t.replace('{_row}', str(i)).replace('{_name}', 'v' if virtual else 'a').replace('{k}', r['k'])
        x = x if x.startswith('http') else BASE + 't.csv' + x if x.startswith('#') else BASE + x
        if not virtual:
            obj = {x if prop == 'propertyUrl' else 'a': x if prop == 'valueUrl' else r['a']}
            want.append([dict({'@id': x}, **obj) if prop == 'aboutUrl' else obj])
        else:
            sub, pr, val = (x if prop.endswith(k) else 'http://{}.org/'.format(k[:3] if k != 'aboutUrl' else 'sub') for k in (
                'aboutUrl', 'propertyUrl', 'valueUrl'))
            pr = x if prop == 'virtual propertyUrl' else 'http://prop.org/'
            want.append([{'a': r['a']}, {'@id': sub, pr: val}])
    got = convert(eng, ob, o.value)
    try:
        have = [r['describes'] for r in got['tables'][0]['row']]
    except (TypeError, KeyError, IndexError):
        ob(False, 'templates', lambda: 'no rows in ' + show(got))
        return
    if virtual:
        # the cell without subject may be part of the only other object
        alt = [[dict(w[1], **w[0])] for w in want]
        ok = equal(eng, have, want) or equal(eng, have, alt)
    else:
        ok = equal(eng, have, want)
    ob(ok, 'templates: ' + prop, lambda: '{} {} of the {} must give {}, but gives {}'.format(prop, t, level, want, have))


def rules(C):
    C.explore('tables', tables, mods=MODS, min_ok=1000, statement='an entry per table which is not suppressed, '
              'with all rows in order, numbered from 1, with their source lines; minimal mode: one object per row')
    C.explore('cells', cells, mods=MODS, min_ok=1000, statement='all cells which are not null, empty or suppressed, '
              'under their property, with their value or value URL')
    C.explore('decimals', decimals, mods=MODS, min_ok=4, statement='decimals are JSON numbers')
    C.explore('undescribed', undescribed, mods=MODS, min_ok=100, statement='cells without column description')
    C.explore('no-columns', no_columns, mods=MODS, min_ok=50, statement='tables without column descriptions')
    C.explore('virtual', virtuals, mods=MODS, min_ok=100, statement='unsuppressed virtual columns follow')
    C.explore('objects', lambda e, ob: objects(e, ob, C.tier == 'thorough'), mods=MODS, min_ok=1000, statement='every cell belongs to its subject, every subject '
              'is described once, minimal mode gives the first object')
    C.explore('templates', templates, mods=MODS, min_ok=80, statement='templates are expanded for each row')
