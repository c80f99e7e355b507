"""Foreign keys: every dangling reference, and nothing else, is reported."""
import itertools

from .tables import *

ASSUMPTIONS = ['Table.iterdicts gives the rows of the table, as P14 has it',
               'groups of up to four tables with up to three rows are analysed, with keys of up to '
               'two columns, for all patterns of equal, different and missing values',
               'values of the referenced columns are no lists; foreign keys given by schemaReference '
               'are not checked by the package']


class Group:
    """tables: {url: (columns, list-valued columns)}; fks: (child, columns, parent, columns)"""
    def __init__(self, tables, fks, order=None, types=()):
        self.tables, self.fks, self.order = tables, fks, order or sorted(tables)
        self.types = dict(types)

    def build(self, eng, data):
        ts = []
        for u in self.order:
            names, listy = self.tables[u]
            t = simple_table(eng, u, names, None, [
                (c, p, pc) for ch, c, p, pc in self.fks if ch == u], listy)
            for c in t.attrs['tableSchema'].attrs['columns'].items:
                dt = self.types.get((u, c.attrs['name']))
                if dt:
                    c.attrs['datatype'] = eng.call(find(eng, 'csvw.metadata.Datatype'), [],
                                                   {'base': dt})
            ts.append(t)
        g = mk(eng, 'csvw.metadata.TableGroup', tables=eng.VL(ts))
        for t in ts:
            t.attrs['_parent'] = g
        table_rows(eng, lambda t: data[t.attrs['url'].attrs['string']])
        return g


def conv(eng, vals, v):
    if v is None:
        return None
    if isinstance(v, tuple):
        return eng.VL([vals[x] for x in v])
    return vals[v]


def check(group, rows_of, stricts=(False,), nvals=3):
    """rows_of: list of alternatives {table: [row tuples]} with numbers (distinct values), None, or
    tuples of numbers (list values)"""
    def h(eng, ob):
        P = eng.path
        alt = rows_of[P.choose('data', len(rows_of))]
        vals = distinct(eng, 'val', nvals)
        data = {}
        for u, (names, listy) in group.tables.items():
            data[u] = [r if r == 'invalid' else {n: conv(eng, vals, v) for n, v in zip(names, r)}
                       for r in alt.get(u, [])]
        g = group.build(eng, data)
        log = logger(eng) if P.choose('a logger is given', 2) == 0 else None
        if log is None and any(r == 'invalid' for rr in alt.values() for r in rr):
            return
        strict = stricts[P.choose('strict', len(stricts))] if len(stricts) > 1 else stricts[0]
        start = len(P.events)
        o = run(eng, lambda: eng.call(eng.getattr(g, 'check_referential_integrity'), [], {
            'log': log, 'strict': strict}))
        what = 'foreign keys {}, rows {}: '.format(
            ['{}.{} -> {}.{}'.format(a, '/'.join(b), c, '/'.join(d)) for a, b, c, d in group.fks], alt)
        null = dup = False
        dangling = set()
        for ch, cc, pa, pc in group.fks:
            ci = [group.tables[ch][0].index(c) for c in cc]
            pi = [group.tables[pa][0].index(c) for c in pc]
            keys = [tuple(r[i] for i in pi) for r in alt.get(pa, []) if r != 'invalid']
            dup = dup or len(set(keys)) < len(keys)
            for i, r in enumerate(alt.get(ch, [])):
                if r == 'invalid':
                    continue
                ref = tuple(r[j] for j in ci)
                if None in ref:
                    null = True
                    continue
                refs = [(x,) for x in ref[0]] if len(ref) == 1 and isinstance(ref[0], tuple) else [ref]
                if any(x not in keys for x in refs):
                    dangling.add((ch, i + 2, pa))
        if strict and null:
            ob(o.is_exc(eng, 'ValueError'), 'strict: missing reference', lambda: what +
               'a missing reference must raise ValueError in strict mode, but ' + o.describe(eng))
            return
        if dangling and log is None:
            ob(o.is_exc(eng, 'ValueError'), 'dangling reference', lambda: what + 'ValueError '
               'expected, but ' + o.describe(eng))
            if o.is_exc(eng, 'ValueError'):
                t = text_of(o.raised.exc).replace('\0', '')
                ob(any('{}:{} '.format(c, n) in t and p in t for c, n, p in dangling),
                   'dangling reference: message', lambda: what + t)
            return
        exp = not dangling and not (strict and dup)
        ob(o.returned and same(eng, o.value, exp) is True, 'result', lambda: what + 'the check must '
           'return {}, but {}'.format(exp, o.describe(eng)))
        got = set()
        for e in events(eng, 'log', start):
            t = text_of(e.args[1]).replace('\0', '')
            hits = {(c, n, p) for c in group.tables for n in range(2, 6) for p in group.tables
                    if 'dir/{}:{} '.format(c, n) in t and 'table {}'.format(p) in t}
            if not hits and 'dir/' not in t:
                continue     # a message about something else
            got |= hits or {('unclear message', t, '')}
        if log is not None:
            ob(got == dangling, 'reports', lambda: what + 'dangling references (table, line, '
               'referenced table) are {}, but reported are {}'.format(
                   sorted(dangling), sorted(got, key=str)))
    return h


def product(rows, values, width):
    return list(itertools.product(itertools.product(values, repeat=width), repeat=rows))


def schema_fault(kind):
    def h(eng, ob):
        tables = {'c.csv': (['r', 'q'], []), 'p.csv': (['id', 'k'], [])}
        types, fk = (), ('c.csv', ['r'], 'p.csv', ['id'])
        if kind == 'missing table':
            fk = ('c.csv', ['r'], 'x.csv', ['id'])
        elif kind == 'missing source column':
            fk = ('c.csv', ['nope'], 'p.csv', ['id'])
        elif kind == 'missing target column':
            fk = ('c.csv', ['r'], 'p.csv', ['nope'])
        elif kind == 'missing column of a composite key':
            fk = ('c.csv', ['r', 'q'], 'p.csv', ['id', 'nope'])
        elif kind == 'number of columns':
            fk = ('c.csv', ['r'], 'p.csv', ['id', 'k'])
        elif kind == 'datatypes':
            types = ((('c.csv', 'r'), 'integer'), (('p.csv', 'id'), 'string'))
        elif kind == 'datatypes of a composite key':
            types = ((('c.csv', 'q'), 'integer'), (('p.csv', 'k'), 'string'))
            fk = ('c.csv', ['r', 'q'], 'p.csv', ['id', 'k'])
        P = eng.path
        g = Group(tables, [fk], types=types)
        v = distinct(eng, 'val', 1)[0]
        n = P.choose('rows', 2)
        t = g.build(eng, {u: [{c: v for c in cc[0]}] * n for u, cc in tables.items()})
        log = logger(eng) if P.choose('a logger is given', 2) == 0 else None
        start = len(P.events)
        o = run(eng, lambda: eng.call(eng.getattr(t, 'check_referential_integrity'), [],
                                      {'log': log}))
        if log is None:
            ob(o.is_exc(eng, 'ValueError'), kind, lambda: 'an inconsistent schema must raise '
               'ValueError, but ' + o.describe(eng))
        else:
            ob(ret(eng, o, False) and bool(events(eng, 'log', start)), kind, lambda: 'an inconsistent '
               'schema must be logged and the result be false, but ' + o.describe(eng))
    return h


def rules(C):
    N = None
    one = Group({'c.csv': (['id', 'r'], []), 'p.csv': (['id', 'k'], [])},
                [('c.csv', ['r'], 'p.csv', ['id'])])
    alts = [{'p.csv': [(x, 0) for x in pk], 'c.csv': [(0, a), (1, b), (2, c)][:n]}
            for pk in [(), (0,), (0, 1)] for n in range(4)
            for a, b, c in itertools.product((0, 1, 2, N), repeat=3)
            if n == 3 or n == 2 and c == 0 or n == 1 and b == c == 0 or n == a == b == c == 0]
    C.explore('single-column', check(one, alts), min_ok=100)
    C.explore('unreadable-rows', check(one, [
        {'p.csv': [(0, 0), 'invalid', (1, 0)], 'c.csv': [(0, 1), 'invalid', (0, a)]}
        for a in range(3)]), min_ok=6)
    strict = [{'p.csv': [(x, 0) for x in pk], 'c.csv': [(0, a), (1, b)]}
              for pk in [(0,), (0, 1), (0, 0), (0, 1, 0)] for a, b in itertools.product((0, 1, 2, N), repeat=2)]
    C.explore('strict', check(one, strict, (True, False)), min_ok=100)
    comp = Group({'c.csv': (['b', 'a'], []), 'p.csv': (['x', 'y'], [])},
                 [('c.csv', ['a', 'b'], 'p.csv', ['x', 'y'])])
    C.explore('composite', check(comp, [
        {'p.csv': pr, 'c.csv': cr} for pr in [((0, 1),), ((0, 1), (1, 0)), ((0, 0), (1, 1)), ()]
        for cr in product(1, (0, 1, N), 2) + [((0, 1), (1, 0)), ((1, 0), (0, N)), ((N, N), (0, 0))]],
        (False, True)), min_ok=60)
    rev = Group({'c.csv': (['a', 'b'], []), 'p.csv': (['x', 'y'], [])},
                [('c.csv', ['a', 'b'], 'p.csv', ['y', 'x'])])
    C.explore('composite-order', check(rev, [
        {'p.csv': pr, 'c.csv': cr} for pr in [((0, 1),), ((0, 1), (1, 1))]
        for cr in product(1, (0, 1), 2)]), min_ok=10)
    listy = Group({'c.csv': (['id', 'r'], ['r']), 'p.csv': (['id'], [])},
                  [('c.csv', ['r'], 'p.csv', ['id'])])
    lists = [(), (0,), (1,), (2,), (0, 1), (0, 2), (2, 0), (1, 2, 0), N]
    C.explore('list-valued', check(listy, [
        {'p.csv': [(x,) for x in pk], 'c.csv': [(0, a), (1, b)]} for pk in [(), (0,), (0, 1)]
        for a, b in itertools.product(lists, repeat=2)]), min_ok=100)
    # several keys: a shared target with two keys, two targets, a self-reference; in all table orders
    many = {'a.csv': (['id', 'b', 'x'], []), 'b.csv': (['id', 'k'], []), 'c.csv': (['r', 'q'], [])}
    fks = [('a.csv', ['b'], 'b.csv', ['id']), ('c.csv', ['r'], 'b.csv', ['id']),
           ('c.csv', ['q'], 'b.csv', ['k']), ('b.csv', ['k'], 'b.csv', ['id']),
           ('a.csv', ['x'], 'a.csv', ['id']), ('c.csv', ['q'], 'a.csv', ['id'])]
    orders = list(itertools.permutations(sorted(many)))
    for i, order in enumerate(orders if C.thorough else orders[:4]):
        C.explore('many-keys-{}'.format(i + 1), check(Group(many, fks, list(order)), [
            {'a.csv': [(0, a, 0), (1, 1, x)], 'b.csv': [(0, 0), (1, k)], 'c.csv': [(r, 0), (0, q)]}
            for a in (0, 2) for x in (0, 2) for k in (1, 2) for r in (1, 2, N) for q in (1, 2)]),
            min_ok=50)
    same_fk = Group({'c.csv': (['r', 'q'], []), 'd.csv': (['r'], []), 'p.csv': (['id'], [])},
                    [('c.csv', ['r'], 'p.csv', ['id']), ('c.csv', ['q'], 'p.csv', ['id']),
                     ('d.csv', ['r'], 'p.csv', ['id'])])
    C.explore('shared-key', check(same_fk, [
        {'p.csv': [(0,)], 'c.csv': [(a, b)], 'd.csv': [(c,)]}
        for a, b, c in itertools.product((0, 1, N), repeat=3)]), min_ok=40)
    far = Group({'b.csv': (['id', 'r'], []), 'c.csv': (['r', 'q'], []), 'a.csv': (['id'], []),
                 'd.csv': (['id'], [])},
                [('c.csv', ['r'], 'd.csv', ['id']), ('c.csv', ['q'], 'a.csv', ['id']),
                 ('b.csv', ['r'], 'd.csv', ['id'])], ['c.csv', 'd.csv', 'b.csv', 'a.csv'])
    C.explore('interleaved', check(far, [
        {'d.csv': [(0,)], 'a.csv': [(1,)], 'b.csv': [(0, a)], 'c.csv': [(b, c)]}
        for a, b, c in itertools.product((0, 1), repeat=3)]), min_ok=14)
    C.explore('no-keys', check(Group({'a.csv': (['id'], [])}, []), [{'a.csv': [(0,), (0,)]}]), min_ok=2)
    for kind in ('missing table', 'missing source column', 'missing target column',
                 'missing column of a composite key', 'number of columns', 'datatypes',
                 'datatypes of a composite key'):
        C.explore('inconsistent-schema', schema_fault(kind), min_ok=1)
