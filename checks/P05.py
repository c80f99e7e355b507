"""Rows read as dicts or namedtuples are complete and aligned."""
from .tables import *
from csvwlint.values import Iter

ASSUMPTIONS = ['headers of up to three columns with different (normalised) names',
               'csv.reader yields the rows of the file']
NAMES = ['a', 'b-c', 'class']
FIELDS = ['a', 'b_c', 'class_']


def feed(eng, rows):
    given_rows(eng, rows)

    def reader(e, a, k):
        e.event('csv.reader', a, k)
        n = [0]

        def gen():
            for r in rows:
                n[0] += 1
                yield e.VL(list(r))
        it = e.register(Iter(gen(), 'csv.reader'), 'iter')
        it.attrs = {'line_num': lambda e: n[0]}
        return it
    eng.ext_overrides['csv.reader'] = reader


def row(i, n):
    return [S('c{}{}'.format(i, j), 'str') for j in range(n)]


def pairs_of(d):
    if not isinstance(d, VDict) or d.rest:
        return None
    return [tuple(x) for x in d.d.values()]


def want_dict(names, r, restkey, restval):
    res = [(n, r[i] if i < len(r) else restval) for i, n in enumerate(names)]
    if len(r) > len(names):
        res.append((restkey, list(r[len(names):])))
    return res


def show_pairs(ps):
    return '{' + ', '.join('{}: {}'.format(show(a), show(b) if not isinstance(b, list) else [
        show(x) for x in b]) for a, b in ps) + '}'


def cell_same(eng, g, w):
    if isinstance(w, list):
        items = g.keys() if isinstance(g, VDict) else thaw_items(g)
        return items is not None and len(items) == len(w) and all(
            same(eng, x, y) is True for x, y in zip(items, w))
    return same(eng, g, w) is True


def compare(eng, ob, what, g, w):
    got = pairs_of(g)
    ob(None if got is None else len(got) == len(w) and all(
        same(eng, a, c) is True and cell_same(eng, b, d) for (a, b), (c, d) in zip(got, w)),
       what, lambda: 'the row must be {}, but is {}'.format(show_pairs(w), show_pairs(got or [])))


def dicts(n, kind):
    def h(eng, ob):
        P = eng.path
        ncols = 1 + P.choose('columns', 3)
        named = kind == 'NamedTupleReader'
        names = NAMES[:ncols] + ['the rest'] if named else distinct(eng, 'h', ncols + 1)
        names, rest = names[:-1], names[-1]
        given = P.choose('field names given', 2) == 1
        rows = []
        for i in range(n):
            k = P.choose('length of row {}'.format(i + 1), ncols + 3)
            rows.append(row(i, k))
        feed(eng, ([] if given else [names]) + rows)
        kw = {}
        if given:
            kw['fieldnames'] = eng.VL(list(names))
        restkey = restval = None
        if P.choose('rest key and value given', 2) == 1:
            restkey, restval = rest, S('restval', 'str')
            kw.update(restkey=restkey, restval=restval)
        o = run(eng, lambda: eng.enter(eng.call(find(eng, 'csvw.dsv.' + kind), [S('path', 'str')], kw)))
        if not o.returned:
            ob(False, kind, o.describe(eng))
            return
        if P.choose('field names asked for first', 2) == 1:
            f = run(eng, lambda: eng.getattr(o.value, 'fieldnames'))
            fs = thaw_items(f.value) if f.returned else None
            ob(fs is not None and len(fs) == ncols and all(
                same(eng, x, y) is True for x, y in zip(fs, names)), kind + ': field names',
               lambda: f.describe(eng))
        items, end = collect(eng, o.value)
        ob(end is None, kind + ': end', lambda: 'reading fails: ' + end.describe(eng))
        want = [want_dict(names, r, restkey, restval) for r in rows if r]
        ob(len(items) == len(want), kind + ': rows', lambda: 'of {} rows, {} must be read, but '
           '{} are'.format(len(rows), len(want), len(items)))
        for g, w in zip(items, want):
            if not named:
                compare(eng, ob, kind + ': row', g, w)
                continue
            cls = g.cls if isinstance(g, Inst) else None
            fields = getattr(cls, 'namedtuple', None)
            ob(None if fields is None else list(fields) == FIELDS[:ncols], kind + ': fields',
               lambda: 'fields must be {}, but are {}'.format(FIELDS[:ncols], fields))
            for f, (c, v) in zip(fields or [], w):
                ob(same(eng, g.attrs.get(f, 'MISSING'), v), kind + ': value',
                   lambda: 'field {} must be {}, but is {}'.format(
                       f, show(v), show(g.attrs.get(f, 'MISSING'))))
    return h


def factory(eng, ob):
    """iterrows gives what the readers give"""
    P = eng.path
    n = P.choose('length of row', 5)
    data = [NAMES[:2], row(0, n), row(1, 2)]
    feed(eng, data)
    i = P.choose('kind', 4)
    kw = [{}, {'dicts': True}, {'namedtuples': True}, {'namedtuples': True, 'dicts': True}][i]
    g = run(eng, lambda: eng.call(find(eng, 'csvw.dsv.iterrows'), [S('path', 'str')], kw))
    items, end = collect(eng, g.value) if g.returned else ([], g)
    if i == 3:
        ob(end is not None and end.is_exc(eng, 'ValueError') and not items, 'iterrows: both',
           'dicts and namedtuples at once must be rejected with ValueError')
        return
    ob(end is None, 'iterrows: end', lambda: 'reading fails: ' + end.describe(eng))
    want = data if i == 0 else [r for r in data[1:] if r]
    ob(len(items) == len(want), 'iterrows: rows', lambda: '{} rows instead of {}'.format(
        len(items), len(want)))
    for v, w in zip(items, want):
        if i == 0:
            ob(cell_same(eng, v, w), 'iterrows: list', lambda: show(v))
        elif i == 1:
            compare(eng, ob, 'iterrows: dict', v, want_dict(NAMES[:2], w, None, None))
        else:
            exp = want_dict(NAMES[:2], w, None, None)[:2]
            ob(isinstance(v, Inst) and all(same(eng, v.attrs.get(f), x) is True for f, (_, x) in zip(
                FIELDS, exp)), 'iterrows: namedtuple', lambda: show(v))


def written(eng, ob):
    """dicts given to the writer: one row of keys, then the values"""
    P = eng.path
    names = distinct(eng, 'h', 2)
    rows = [row(i, 2) for i in range(P.choose('rows', 4))]
    before = P.choose('a row was written before', 2) == 1
    as_dict = P.choose('rows are', 2) == 0
    o = run(eng, lambda: eng.enter(eng.call(find(eng, 'csvw.dsv.UnicodeWriter'), [S('path', 'str')])))
    if not o.returned:
        ob(False, 'writer', o.describe(eng))
        return
    if before:
        call(eng, o.value, 'writerow', eng.VL(list(names)))
    start = len(P.events)
    r = call(eng, o.value, 'writerows', eng.VL([
        eng.VD(list(zip(names, r))) if as_dict else eng.VL(list(r)) for r in rows]))
    got = []
    for e in P.events[start:]:
        if e.name == '.writerow':
            got.append(e.args[-1])
        elif e.name == '.writerows':
            got.extend(thaw_items(e.args[-1]) or [S('unknown')])
    want = ([names] if as_dict and rows and not before else []) + rows
    ob(r.returned and len(got) == len(want) and all(cell_same(eng, g, list(w)) for g, w in zip(
        got, want)), 'writer: dicts' if as_dict else 'writer: lists',
       lambda: 'rows written: {}, but must be {}'.format(
           [show(g) for g in got], [[show(c) for c in w] for w in want]))


def rules(C):
    n = 3 if C.thorough else 2
    C.explore('dict-rows', dicts(n, 'UnicodeDictReader'), min_ok=200)
    C.explore('namedtuple-rows', dicts(n, 'NamedTupleReader'), min_ok=200)
    C.explore('iterrows', factory, min_ok=20)
    C.explore('writer', written, min_ok=10)
