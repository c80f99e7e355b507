"""Database tables are created in dependency order, for any schema size."""
from .database import *
from csvwlint.path import Diverges

ASSUMPTIONS = ['dependency graphs of up to 3 tables (4 in the thorough tier) are enumerated, with '
               'plain and list-valued references; longer chains stand for larger ones']


def build(eng, n, edges):
    """tables t0..tn-1; edges: {(i, j): 'plain' | 'list'}, i referring to j"""
    ts = []
    for i in range(n):
        cols = [column(eng, 'id', 1)]
        fks = []
        for j in range(n):
            kind = edges.get((i, j))
            if kind:
                cols.append(column(eng, 'r{}'.format(j), len(cols) + 1, **(
                    {'separator': ';'} if kind == 'list' else {})))
                fks.append((['r{}'.format(j)], 't{}'.format(j), ['id']))
        ts.append(table(eng, 't{}'.format(i), cols, pk=['id'], fks=fks))
    eng.overrides['csvw.metadata.Table.local_name'] = lambda e, a, k: a[0].attrs['url'].attrs['string']
    return group(eng, ts)


def cyclic(n, edges):
    """are there cyclic plain references, apart from self-references?"""
    left = set(range(n))
    while left:
        ok = [i for i in left if not any((i, j) in edges and edges[(i, j)] == 'plain' and j in left and j != i
                                         for j in range(n))]
        if not ok:
            return True
        left -= set(ok)
    return False


def judge(eng, ob, n, edges, what):
    Server(eng)
    eng.diverging = True
    eng.max_depth = 200
    tg = build(eng, n, edges)
    try:
        drop = any(i == j for i, j in edges) and eng.path.choose('drop self-references', 2) == 0
        o = run(eng, lambda: database(eng, tg, translate=translator(), drop_self_referential_fks=drop))
        cyc = cyclic(n, edges)
        ob(o.returned if not cyc else o.is_exc(eng, 'ValueError'), what + ': result', lambda: '{} references '
           '{}: {}'.format('cyclic' if cyc else 'acyclic', edges, o.describe(eng)))
        if not o.returned or cyc:
            return
        start = len(eng.path.events)
        o = call(eng, o.value, 'write')
    except Diverges as e:
        ob(False, what + ': end', 'references {}: {}'.format(edges, e))
        return
    ob(o.returned, what + ': write', lambda: 'writing ' + o.describe(eng))
    order = []
    for ev in sql_events(eng, start):
        try:
            kind, toks, _ = sql_statement(eng, ev)
            if kind == 'CREATE':
                order.append(Created(toks))
        except NotSQL as e:
            ob(None, 'statement', str(e))
            return
    names = [key(t.name) for t in order]
    want = {key(tr('t{}'.format(i))) for i in range(n)}
    ob(len(set(names)) == len(names) and want <= set(names), what + ': tables', lambda: 'references {}: '
       'created {}'.format(edges, [show(t.name) for t in order]))
    nlist = len([1 for k in edges.values() if k == 'list'])
    ob(len(names) == n + nlist, what + ': tables', lambda: 'references {}: {} tables, {} lists, but '
       'created {}'.format(edges, n, nlist, [show(t.name) for t in order]))
    done = set()
    bad = []
    for t in order:
        done.add(key(t.name))
        bad.extend((show(t.name), show(fk[1])) for fk in t.fks if key(fk[1]) not in done)
    ob(not bad, what + ': order', lambda: 'references {}: {} is created before {}'.format(edges, *bad[0]))


def graphs(n, kinds, selfs):
    def h(eng, ob):
        edges = {}
        for i in range(n):
            for j in range(n):
                if i == j and not selfs:
                    continue
                k = eng.path.choose('reference {} -> {}'.format(i, j), len(kinds))
                if kinds[k]:
                    edges[(i, j)] = kinds[k]
        judge(eng, ob, n, edges, '{} tables'.format(n))
    return h


PERMS = [[0, 1, 2, 3], [3, 2, 1, 0], [0, 1, 3, 2], [1, 0, 2, 3], [2, 3, 0, 1], [3, 0, 1, 2]]


def dags(eng, ob):
    """acyclic references of four tables, listed in different orders"""
    P = eng.path
    perm = PERMS[P.choose('order of the tables', len(PERMS))]
    edges = {}
    for i in range(4):
        for j in range(i):
            if P.choose('reference {} -> {}'.format(i, j), 2) == 0:
                edges[(perm[i], perm[j])] = 'plain'
    judge(eng, ob, 4, edges, '4 tables')


def dense(n):
    """each table references all tables before it but for one, in every cyclic order of the tables"""
    def h(eng, ob):
        rot = eng.path.choose('first table', n)
        back = eng.path.choose('order', 2)
        at = [(i + rot) % n if not back else (rot - i) % n for i in range(n)]
        edges = {(at[i], at[j]): 'plain' for i in range(n) for j in range(i) if (i + j) % 5}
        judge(eng, ob, n, edges, 'dense')
    return h


def chain(n, order):
    def h(eng, ob):
        if order == 'forward':      # the first table is referenced by the second, and so on
            edges = {(i + 1, i): 'plain' for i in range(n - 1)}
        elif order == 'backward':
            edges = {(i, i + 1): 'plain' for i in range(n - 1)}
        else:
            edges = {(i, n - 1): 'plain' for i in range(n - 1)}
        judge(eng, ob, n, edges, 'chain')
    return h


def rules(C):
    text = 'all tables are created once, after those they reference; cycles raise ValueError'
    C.explore('graphs-2', graphs(2, [None, 'plain', 'list'], True), mods=MODS, min_ok=50, statement=text)
    C.explore('graphs-3', graphs(3, [None, 'plain', 'list'], False), mods=MODS, min_ok=500, statement=text)
    C.explore('graphs-3-self', graphs(3, [None, 'plain'], True), mods=MODS, min_ok=500, statement=text)
    C.explore('graphs-4-acyclic', dags, mods=MODS, min_ok=300, statement=text)
    C.explore('dense', dense(7), mods=MODS, min_ok=14, statement=text)
    if C.thorough:
        C.explore('graphs-4', graphs(4, [None, 'plain'], False), mods=MODS, min_ok=2000, statement=text)
    for order in ('forward', 'backward', 'star'):
        for n in (60, 130, 250) if C.thorough else (130,):
            C.explore('chain-{}-{}'.format(order, n), chain(n, order), mods=MODS, min_ok=3, statement=text)
