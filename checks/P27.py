"""Each value is inserted into the column it belongs to."""
import itertools

from .database import *

ASSUMPTIONS = ['up to three rows per table with all subsets and orders of up to four keys stand for '
               'any number of rows and keys', 'conversion of values is the subject of P29']


def inserted(eng, ob, start=0):
    """[(table, {column: value})] of all inserted rows, in order; None if not known"""
    res = []
    for ev in sql_events(eng, start):
        if getattr(ev, 'raised', None):
            continue
        try:
            kind, toks, _ = sql_statement(eng, ev)
            if kind != 'INSERT':
                continue
            ins = Inserted(toks)
        except NotSQL as e:
            ob(None, 'statement', str(e))
            return None
        rows = thaw_items(ev.args[2]) if ev.args[3] else [ev.args[2]]
        for row in rows or []:
            vals = thaw_items(row)
            if vals is None or any(isinstance(v, Rest) for v in vals) or ins.columns is None:
                ob(None, 'row', lambda: 'unknown row ' + show(row))
                return None
            if len(vals) != len(ins.columns) or ins.nparams != len(vals):
                ob(False, 'row', lambda: '{} values for {} columns'.format(len(vals), len(ins.columns)))
                return None
            if len({key(c) for c in ins.columns}) != len(ins.columns):
                ob(False, 'row', lambda: 'a column is named twice: {}'.format(ins.columns))
                return None
            res.append((ins.table, {key(c): v for c, v in zip(ins.columns, vals)}))
    return res


def compare(eng, ob, what, got, want):
    """want: [(table, {column: value})]; the order matters within a table only"""
    if got is None:
        return
    for t in {key(t): t for t, _ in got + want}.values():
        g = [r for x, r in got if key(x) == key(t)]
        w = [r for x, r in want if key(x) == key(t)]
        ok = len(g) == len(w)
        ob(ok, what + ': rows', lambda: '{} rows of {} instead of {}'.format(len(g), show(t), len(w)))
        for a, b in zip(g, w):
            b = {key(c): v for c, v in b.items()}
            for c in set(a) | set(b):
                x, y = a.get(c), b.get(c)
                ob(x is None and y is None or same(eng, x, y) is True, what + ': value', lambda: (
                    '{} is stored in column {}, instead of {}'.format(show(x), c, show(y))))


def world(eng, swap=False):
    a, b, c, d = names(eng, 'c', 4)
    x, = names(eng, 'p', 1)
    parent = table(eng, 'parent', [column(eng, x, 1)], pk=[x])
    child = table(eng, 'child', [column(eng, a, 1), column(eng, b, 2), column(eng, c, 3, separator=';'),
                                 column(eng, d, 4, separator=';')], pk=[a], fks=[([d], 'parent', [x])])
    eng.overrides['csvw.metadata.Table.local_name'] = lambda e, a, k: a[0].attrs['url'].attrs['string']
    return group(eng, [child, parent] if swap and eng.path.choose('order of the tables', 2) == 0 else [
        parent, child]), x, (a, b, c, d)


def val(name, typ='str'):
    return S(name, typ, notnone=True, truthy=True)


def write(eng, tg, items, fromtg=False, **kw):
    Server(eng)
    db = database(eng, tg, translate=translator())
    start = len(eng.path.events)
    if fromtg:
        eng.overrides['csvw.metadata.TableGroup.read'] = lambda e, a, k: eng.VD(list(items.items()))
        return start, call(eng, db, 'write_from_tg', **kw)
    return start, call(eng, db, 'write', **dict(items, **kw))


def subsets(n, orders):
    """rows with all subsets and orders of keys, in all combinations"""
    def h(eng, ob):
        tg, x, cols = world(eng)
        P = eng.path
        cols = list(cols[:3])
        rows, want = [], []
        for i in range(n):
            keys = cols
            if orders:
                perms = list(itertools.permutations(cols))[i::2 if n < 3 else 1]
                keys = list(perms[P.choose('order of the keys of row {}'.format(i), len(perms))])
            present = [k for k in keys if k is cols[0] or P.choose('{} in row {}'.format(show(k), i), 2) == 0]
            row, w = [], {}
            for k in present:
                v = val('v{}{}'.format(i, cols.index(k)))
                if k is cols[2]:
                    w_ = val('w{}'.format(i))
                    row.append((k, eng.VL([v, w_])))
                    w[tr('child', k)] = eng.ext.cat(eng, [v, ';', w_])
                else:
                    row.append((k, v))
                    w[tr('child', k)] = v
                # not a missing item
            rows.append(eng.VD(row))
            want.append((tr('child'), w))
        start, o = write(eng, tg, {'child': eng.VL(rows)})
        ob(o.returned, 'write', lambda: 'writing ' + o.describe(eng))
        if o.returned:
            compare(eng, ob, 'subsets', inserted(eng, ob, start), want)
    return h


def missing(eng, ob):
    """missing values stay missing, whatever the type of the column"""
    P = eng.path
    kinds = ['string', 'integer', 'boolean', 'decimal', 'date', 'hexBinary', 'float', 'anyURI', 'duration']
    kind = kinds[P.choose('datatype', len(kinds))]
    a, b = names(eng, 'c', 2)
    sep = P.choose('list', 2) == 0
    t = table(eng, 'child', [column(eng, a, 1), column(eng, b, 2, datatype=kind, separator=';' if sep else None)])
    eng.overrides['csvw.metadata.Table.local_name'] = lambda e, a, k: a[0].attrs['url'].attrs['string']
    v, w = val('v'), val('w')
    start, o = write(eng, group(eng, [t]), {'child': eng.VL([
        eng.VD([(a, v), (b, None)]), eng.VD([(a, w)])])})
    ob(o.returned, 'write', lambda: 'writing ' + o.describe(eng))
    if o.returned:
        compare(eng, ob, 'missing', inserted(eng, ob, start), [
            (tr('child'), {tr('child', a): v}), (tr('child'), {tr('child', a): w})])


def relations(eng, ob):
    """list-valued foreign keys"""
    P = eng.path
    tg, x, (a, b, c, d) = world(eng, True)
    rows, want = [], []
    for i in range(2):
        pk = val('pk{}'.format(i))
        kind = P.choose('references of row {}: none, empty, one, two'.format(i), 5)
        row = [(a, pk)] if P.choose('key first', 2) == 0 else []
        fs = [val('f{}{}'.format(i, j)) for j in range(max(0, kind - 2))]
        if kind == 1:
            row.append((d, None))
        elif kind >= 2:
            row.append((d, eng.VL(fs)))
        if not row or row[0][0] is not a:
            row.append((a, pk))
        rows.append(eng.VD(row))
        want.append((tr('child'), {tr('child', a): pk}))
        for f in fs:
            want.append((tr('child_parent'), {
                tr('child_parent', eng.ext.cat(eng, ['child_', a])): pk,
                tr('child_parent', eng.ext.cat(eng, ['parent_', x])): f,
                tr('child_parent', 'context'): d}))
    u, v = val('u'), val('v')
    items = {'child': eng.VL(rows), 'parent': eng.VL([eng.VD([(x, u)]), eng.VD([(x, v)])])}
    want += [(tr('parent'), {tr('parent', x): u}), (tr('parent'), {tr('parent', x): v})]
    start, o = write(eng, tg, items, fromtg=P.choose('from the table group', 2) == 0)
    ob(o.returned, 'write', lambda: 'writing ' + o.describe(eng))
    if o.returned:
        compare(eng, ob, 'relations', inserted(eng, ob, start), want)


def two_relations(eng, ob):
    """two list-valued foreign keys to the same table, told apart by the context"""
    a, d, e_ = names(eng, 'c', 3)
    x, = names(eng, 'p', 1)
    parent = table(eng, 'parent', [column(eng, x, 1)], pk=[x])
    child = table(eng, 'child', [column(eng, a, 1), column(eng, d, 2, separator=';'), column(eng, e_, 3, separator=';')],
                  pk=[a], fks=[([d], 'parent', [x]), ([e_], 'parent', [x])])
    eng.overrides['csvw.metadata.Table.local_name'] = lambda e, a, k: a[0].attrs['url'].attrs['string']
    pk, f, g = val('pk'), val('f'), val('g')
    start, o = write(eng, group(eng, [parent, child]), {'child': eng.VL([eng.VD([
        (a, pk), (d, eng.VL([f])), (e_, eng.VL([g]))])])})
    ob(o.returned, 'write', lambda: 'writing ' + o.describe(eng))
    at = lambda n, v: (tr('child_parent'), {  # noqa: E731
        tr('child_parent', eng.ext.cat(eng, ['child_', a])): pk,
        tr('child_parent', eng.ext.cat(eng, ['parent_', x])): v, tr('child_parent', 'context'): n})
    if o.returned:
        compare(eng, ob, 'two relations', inserted(eng, ob, start), [
            (tr('child'), {tr('child', a): pk}), at(d, f), at(e_, g)])


def unknown(eng, ob):
    P = eng.path
    tg, x, (a, b, c, d) = world(eng)
    u, = names(eng, 'u', 1)
    for n in (a, b, c, d):
        eng.path.assume(T('eq', u, n, typ='bool'), False)
    skip = P.choose('skip unknown keys', 2) == 0
    fromtg = P.choose('from the table group', 2) == 0
    v, w, z = val('v'), val('w'), val('z')
    pos = P.choose('position of the unknown key', 3)
    row = [(a, v), (b, w)]
    row.insert(pos, (u, [z, None, eng.VL([z])][P.choose('value: text, missing, list', 3)]))
    rows = [eng.VD(row), eng.VD([(a, val('v2')), (b, val('w2'))])]
    if P.choose('unknown key in the second row', 2) == 0:
        rows.reverse()
    kw = {'_skip_extra': True} if skip else {}
    start, o = write(eng, tg, {'child': eng.VL(rows)}, fromtg=fromtg, **kw)
    if not skip:
        ob(o.is_exc(eng, 'ValueError'), 'unknown key', lambda: 'a row with an unknown key: ' + o.describe(eng))
        return
    ob(o.returned, 'unknown key skipped', lambda: 'a row with an unknown key: ' + o.describe(eng))
    want = [(tr('child'), {tr('child', a): v, tr('child', b): w}),
            (tr('child'), {tr('child', a): val('v2'), tr('child', b): val('w2')})]
    if o.returned:
        compare(eng, ob, 'unknown key', inserted(eng, ob, start), want if key(
            rows[0].d[key(a)][1]) == key(v) else want[::-1])


def rules(C):
    text = 'each value is bound to the column of its key; all rows are inserted'
    C.explore('subsets', subsets(3 if C.thorough else 2, False), mods=MODS, min_ok=50, statement=text)
    C.explore('orders', subsets(2, True), mods=MODS, min_ok=50, statement=text)
    C.explore('missing', missing, mods=MODS, min_ok=20, statement=text)
    C.explore('relations', relations, mods=MODS, min_ok=50,
              statement='one association row per element, with the key of its row')
    C.explore('two-relations', two_relations, mods=MODS, min_ok=5, statement='contexts are kept apart')
    C.explore('unknown', unknown, mods=MODS, min_ok=10,
              statement='unknown keys raise ValueError, or are skipped on request')
