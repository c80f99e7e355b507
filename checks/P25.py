"""The database schema carries the constraints of the metadata."""
from .database import *

ASSUMPTIONS = ['names of tables, columns and association tables do not collide after translation',
               'SQLite compares a TEXT column with a number as text, unless it is cast']
TEXT, INTEGER, REAL, BLOB = 'TEXT', 'INTEGER', 'REAL', 'BLOB'
# datatype -> acceptable types
TYPES = {
    'string': {TEXT}, 'integer': {INTEGER}, 'boolean': {INTEGER}, 'decimal': {REAL, 'NUMERIC'},
    'hexBinary': {BLOB}, 'date': {TEXT}, 'datetime': {TEXT}, 'duration': {TEXT}, 'float': {TEXT, REAL},
    'int': {TEXT, INTEGER}, 'anyURI': {TEXT}, 'normalizedString': {TEXT}, 'json': {TEXT},
    'dateTimeStamp': {TEXT}, 'base64Binary': {TEXT, BLOB}, 'nonNegativeInteger': {TEXT, INTEGER},
    'double': {TEXT, REAL}, 'number': {TEXT, REAL}, 'dateTime': {TEXT}, 'time': {TEXT},
    'xml': {TEXT}, 'gYear': {TEXT}, 'yearMonthDuration': {TEXT}, 'QName': {TEXT},
}
NUMBERS = ('integer', 'decimal', 'float', 'int', 'nonNegativeInteger', 'double', 'number')
TIMES = {'date': 'date', 'datetime': 'datetime', 'dateTimeStamp': 'datetime', 'dateTime': 'datetime'}
RANGE = [('minimum', '>='), ('minInclusive', '>='), ('minExclusive', '>'),
         ('maximum', '<='), ('maxInclusive', '<='), ('maxExclusive', '<')]
LENGTH = [('length', '='), ('minLength', '>='), ('maxLength', '<=')]


def created(eng, ob, tables, drop_self_referential_fks=None, **kw):
    """Created objects by table, in order, as executed by Database.write()"""
    Server(eng)
    eng.overrides['csvw.metadata.Table.local_name'] = lambda e, a, k: a[0].attrs['url'].attrs['string']
    tg = group(eng, tables, **kw)
    opts = {} if drop_self_referential_fks is None else {
        'drop_self_referential_fks': drop_self_referential_fks}
    o = run(eng, lambda: database(eng, tg, translate=translator(), **opts))
    if not o.returned:
        ob(False, 'schema', lambda: 'a valid schema ' + o.describe(eng))
        return None
    start = len(eng.path.events)
    o = call(eng, o.value, 'write')
    if not o.returned:
        ob(False, 'schema', lambda: 'writing ' + o.describe(eng))
        return None
    res = []
    for ev in sql_events(eng, start):
        try:
            kind, toks, bad = sql_statement(eng, ev)
            if kind == 'CREATE':
                res.append(Created(toks))
        except NotSQL as e:
            ob(None, 'statement', str(e))
            return None
    return res


def by_name(eng, tables, name):
    res = [t for t in tables if key(t.name) == key(name)]
    return res[0] if len(res) == 1 else None


def one_column(kind, facets=()):
    """One column of a datatype, with or without facets, separator, and required"""
    def h(eng, ob):
        P = eng.path
        opts = {}
        sep, req = [(False, 0), (False, 1), (False, 2), (True, 2)][P.choose(
            'required: true, false, absent, absent with separator', 4)]
        if sep:
            opts['separator'] = ';'
        if req < 2:
            opts['required'] = req == 0
        dt = {'base': kind}
        given = []
        for f, op in facets:
            how = P.choose('{}: absent, zero, some value'.format(f), 3)
            if how:
                if kind in TIMES:
                    v = S(f, 'datetime', notnone=True)
                else:
                    v = S(f, 'int' if f in dict(LENGTH) else 'decimal', notnone=True)
                    if how == 1:
                        v = 0
                dt[f] = v
                given.append((f, op, v))
        name, other = names(eng, 'col', 2)
        col = column(eng, name, 2, datatype=dt, **opts)
        t = table(eng, 'tbl', [column(eng, other, 1), col])
        res = created(eng, ob, [t])
        if res is None:
            return
        what = kind
        if len(res) != 1 or len(res[0].columns) != 2:
            ob(False, what + ' columns', lambda: 'columns: {}'.format([
                r.columns for r in res]))
            return
        c = res[0].columns[1]
        ob(key(c[0]) == key(tr('tbl', name)), what + ' name', lambda: 'named ' + show(c[0]))
        types = {TEXT} if sep else TYPES[kind]
        ob(c[1] in types, what + ' type', lambda: '{}{} is stored as {}'.format(
            'a list of ' if sep else '', kind, c[1]))
        ob(c[2] is (req == 0), what + ' required', lambda: '{} column is {}nullable'.format(
            'a required' if req == 0 else 'an optional', 'not ' if c[2] else ''))
        ob(res[0].columns[0][2] is False, what + ' other', 'the other column is NOT NULL')
        constraints(eng, ob, what, res[0], tr('tbl', name), c[1], kind, [] if sep else given, sep)
    return h


def constraints(eng, ob, what, t, cname, typ, kind, given, sep):
    got = [x for x in t.checks]
    for f, op, v in given:
        hit = [x for x in got if x[1] == op and matches(eng, x, cname, typ, kind, f, v)]
        ob(bool(hit), '{} {}'.format(what, f), lambda: '{} {} is not enforced: {}'.format(
            f, show(v), ' and '.join(str(x) for x in got) or 'no CHECK'))
    for x in got:
        if not any(x[1] == op and matches(eng, x, cname, typ, kind, f, v) for f, op, v in given):
            ob(False, what + ' surplus', lambda: 'CHECK {} has no reason{}'.format(
                x, ' in a list-valued column' if sep else ''))
    ob(not (t.unique), what + ' unique', 'surplus UNIQUE')


def matches(eng, cond, cname, typ, kind, facet, v):
    left, op, right = cond

    def iscol(x):
        return x[0] == 'col' and key(x[1]) == key(cname)

    def isval(x, kinds):
        if x[0] not in kinds:
            return False
        return same(eng, x[1], v) is True or (is_const(v) and x[1] == str(v)) or \
            same(eng, x[1], T('.isoformat', v)) is True
    if facet in dict(LENGTH):
        return left[0] == 'length' and iscol(left[1]) and isval(right, ('num',))
    if kind in TIMES:
        fs = (TIMES[kind],) if kind != 'date' else ('date', 'datetime')
        return left[0] in fs and iscol(left[1]) and right[0] == left[0] and isval(right[1], ('str',))
    if typ == TEXT:
        return left[0] == 'cast' and left[2] in ('NUMERIC', 'REAL', 'DECIMAL', 'FLOAT', 'DOUBLE') \
            and iscol(left[1]) and isval(right, ('num',))
    return (iscol(left) or left[0] == 'cast' and left[2] in ('NUMERIC', 'REAL') and iscol(left[1])) \
        and isval(right, ('num',))


def inherited(eng, ob):
    """datatype, separator and required of the column may come from schema, table or group"""
    P = eng.path
    name, = names(eng, 'col', 1)
    where = P.choose('inherited from', 3)
    what = ['datatype', 'required', 'separator'][P.choose('property', 3)]
    val = {'datatype': mk(eng, 'csvw.metadata.Datatype', base='integer'), 'required': True,
           'separator': ';'}[what]
    t = table(eng, 'tbl', [column(eng, name, 1, **({'datatype': 'integer'} if what == 'separator' else {}))])
    if where < 2:
        (t, t.attrs['tableSchema'])[where].attrs[what] = val
    res = created(eng, ob, [t], **({what: val} if where == 2 else {}))
    if not res or len(res[0].columns) != 1:
        ob(False, 'inherited ' + what, 'wrong number of tables or columns')
        return
    c = res[0].columns[0]
    exp = {'datatype': ('INTEGER', False), 'required': ('TEXT', True), 'separator': ('TEXT', False)}[what]
    ob((c[1], c[2]) == exp, 'inherited ' + what, lambda: 'a column inheriting {} is {}{}'.format(
        what, c[1], ' NOT NULL' if c[2] else ''))


def keys(eng, ob):
    """primary and foreign keys, single, composite, and referring to the table itself"""
    P = eng.path
    a, b, x = names(eng, 'p', 3)
    c, d, e_, f = names(eng, 'c', 4)
    npk = P.choose('columns of the primary key of the parent', 2) + 1
    ppk = [[a], [a, b]][npk - 1] if P.choose('order', 2) == 0 else [[a], [b, a]][npk - 1]
    parent = table(eng, 'parent', [column(eng, a, 1), column(eng, b, 2), column(eng, x, 3)], pk=ppk)
    fks = []
    if P.choose('first foreign key', 2) == 0:
        fks.append((([d, c] if P.choose('fk order', 2) == 0 else [c, d])[:npk], 'parent', ppk))
    if P.choose('second foreign key', 2) == 0:
        fks.append(([e_, f][:npk], 'parent', ppk))
    selfref = P.choose('foreign key to itself', 2) == 0
    pk = [c] if P.choose('primary key', 2) == 0 else None
    allfks = list(fks)
    if selfref:
        allfks.append(([f], 'child', [c]))
    child = table(eng, 'child', [column(eng, n, i + 1) for i, n in enumerate([c, d, e_, f])], pk=pk,
                  fks=allfks)
    res = created(eng, ob, [child, parent])
    if res is None:
        return
    p, ch = by_name(eng, res, tr('parent')), by_name(eng, res, tr('child'))
    ob(bool(p and ch) and len(res) == 2, 'tables', lambda: 'tables {}'.format([show(r.name) for r in res]))
    if not (p and ch):
        return
    ks = lambda v: key(tuple(v)) if v is not None else None  # noqa: E731
    ob(ks(p.pk) == ks([tr('parent', n) for n in ppk]), 'primary key', lambda: 'primary key {} became {}'.format(
        ppk, p.pk))
    ob(ks(ch.pk) == (ks([tr('child', n) for n in pk]) if pk else None), 'primary key',
       lambda: 'primary key {} became {}'.format(pk, ch.pk))
    pairs = lambda cols, ref, rcols: (key(ref), frozenset(zip(  # noqa: E731
        map(key, cols), map(key, rcols or []))))
    want = [pairs([tr('child', n) for n in cols], tr(ref), [tr(ref, n) for n in rcols])
            for cols, ref, rcols in fks]
    got = [pairs(*fk) for fk in ch.fks if key(fk[1]) != key(tr('child'))]
    ob(sorted(want, key=repr) == sorted(got, key=repr) or set(want) == set(got) and len(got) == len(want),
       'foreign keys', lambda: 'foreign keys {} became {}'.format(fks, ch.fks))
    ob(not p.fks, 'foreign keys', 'the parent has foreign keys')
    ob(all(len(fk[0]) == len(fk[2] or fk[0]) for fk in ch.fks), 'foreign keys', 'unpaired columns')
    ob(all(t == 'TEXT' and not nn for n, t, nn in ch.columns + p.columns) and len(ch.columns) == 4 and
       len(p.columns) == 3, 'columns', lambda: 'columns {} {}'.format(ch.columns, p.columns))


def selfref(eng, ob):
    """references of a table to itself are enforced if asked for, whatever other keys there are"""
    P = eng.path
    drop = P.choose('drop self-references', 2) == 0
    n = P.choose('columns of the key', 3) + 1
    other = P.choose('foreign key to another table', 3)
    ps, cs, (x, y) = names(eng, 'p', n), names(eng, 'c', n), names(eng, 'x', 2)
    fks = [(cs, 'tbl', ps)]
    if other:
        fks.insert(0 if other == 1 else 1, ([x], 'other', [y]))
    t = table(eng, 'tbl', [column(eng, c, i + 1) for i, c in enumerate(ps + cs + [x])], pk=ps, fks=fks)
    o = table(eng, 'other', [column(eng, y, 1)], pk=[y])
    res = created(eng, ob, [t, o], drop_self_referential_fks=drop)
    if res is None:
        return
    t = by_name(eng, res, tr('tbl'))
    if t is None:
        ob(False, 'self-reference', lambda: 'tables {}'.format([show(r.name) for r in res]))
        return
    own = [fk for fk in t.fks if key(fk[1]) == key(tr('tbl'))]
    ob(len(own) == (0 if drop else 1), 'self-reference', lambda: 'a foreign key of {} column(s) to the own '
       'table is {}'.format(n, 'kept' if own else 'lost'))
    for fk in own:
        ob(len(fk[0]) == n and set(zip(map(key, fk[0]), map(key, fk[2] or ()))) ==
           {(key(tr('tbl', c)), key(tr('tbl', p))) for c, p in zip(cs, ps)}, 'self-reference', lambda:
           'the foreign key became {}'.format(fk))
    ob(len(t.fks) - len(own) == (1 if other else 0), 'other reference', lambda: 'foreign keys {}'.format(t.fks))


def self_association(eng, ob):
    """a list-valued foreign key to another column of the same table, or to its key"""
    P = eng.path
    a, b, c = names(eng, 'p', 3)
    ref = [a, b][P.choose('column referenced', 2)]
    drop = P.choose('drop self-references', 2) == 0
    kinds = ['string', 'integer']
    t = table(eng, 'tbl', [column(eng, a, 1, datatype=kinds[0]), column(eng, b, 2, datatype=kinds[1]),
                           column(eng, c, 3, separator=';')], pk=[a], fks=[([c], 'tbl', [ref])])
    res = created(eng, ob, [t], drop_self_referential_fks=drop)
    if res is None:
        return
    own = by_name(eng, res, tr('tbl'))
    at = [r for r in res if r is not own]
    ob(own is not None and len(at) == 1, 'association table', lambda: 'tables: {}'.format([show(r.name) for r in res]))
    if own is None or len(at) != 1:
        return
    at = at[0]
    ob(len(at.columns) == 3 and len({key(n) for n, _, _ in at.columns}) == 3, 'association columns',
       lambda: str(at.columns))
    ok = len(at.fks) == 2 and all(key(fk[1]) == key(tr('tbl')) and len(fk[0]) == 1 and len(fk[2] or ()) == 1
                                  for fk in at.fks) and key(at.fks[0][0][0]) != key(at.fks[1][0][0])
    ob(ok, 'association table', lambda: 'its foreign keys are {}'.format(at.fks))
    if ok:
        ob(sorted(str(key(fk[2][0])) for fk in at.fks) == sorted(str(key(tr('tbl', n))) for n in (a, ref)),
           'association table', lambda: 'columns {} are referenced instead of {}'.format(
               [show(fk[2][0]) for fk in at.fks], [show(a), show(ref)]))
        types = {key(n): ty for n, ty, _ in at.columns}
        for fk in at.fks:
            kind = kinds[0] if key(fk[2][0]) == key(tr('tbl', a)) else kinds[1]
            ob(types.get(key(fk[0][0])) in TYPES[kind], 'association types', lambda: 'a key of type {} is '
               'stored as {}'.format(kind, types.get(key(fk[0][0]))))


def many_to_many(eng, ob):
    """list-valued foreign keys get an association table"""
    P = eng.path
    a, b = names(eng, 'p', 2)
    c, d, e_ = names(eng, 'c', 3)
    kinds = ['string', 'integer', 'date']
    pk_kind, ck_kind = kinds[P.choose('type of the parent key', 3)], kinds[P.choose('type of the own key', 3)]
    parent = table(eng, 'parent', [column(eng, a, 1, datatype=pk_kind), column(eng, b, 2)], pk=[a])
    fks = [([d], 'parent', [a])]
    second = P.choose('another foreign key', 2) == 0
    if second:
        fks.append(([e_], 'parent', [a]))
    child = table(eng, 'child', [column(eng, c, 1, datatype=ck_kind),
                                 column(eng, d, 2, datatype=pk_kind, separator=';',
                                        required=True if P.choose('required', 2) == 0 else None),
                                 column(eng, e_, 3, datatype=pk_kind)], pk=[c], fks=fks)
    res = created(eng, ob, [parent, child] if P.choose('order', 2) == 0 else [child, parent])
    if res is None:
        return
    ch, p = by_name(eng, res, tr('child')), by_name(eng, res, tr('parent'))
    at = [t for t in res if t not in (ch, p)]
    ob(len(at) == 1, 'association table', lambda: 'tables: {}'.format([show(t.name) for t in res]))
    if len(at) != 1 or not ch:
        return
    at = at[0]
    ob([key(n[0]) for n in ch.columns] == [key(tr('child', c)), key(tr('child', e_))],
       'columns of the child', lambda: 'columns {}'.format(ch.columns))
    ob(len(ch.fks) == (1 if second else 0), 'foreign keys of the child', lambda: str(ch.fks))
    refs = {key(fk[1]): fk for fk in at.fks}
    ok = len(at.fks) == 2 and set(refs) == {key(tr('child')), key(tr('parent'))}
    ob(ok, 'association table', lambda: 'its foreign keys are {}'.format(at.fks))
    if not ok:
        return
    types = {key(n): t for n, t, _ in at.columns}
    for tname, col, kind in (('child', c, ck_kind), ('parent', a, pk_kind)):
        fk = refs[key(tr(tname))]
        ob(len(fk[0]) == 1 and [key(x) for x in fk[2] or ()] == [key(tr(tname, col))],
           'association table', lambda: '{} is referenced as {}'.format(tname, fk))
        ob(key(fk[0][0]) in types and types[key(fk[0][0])] in TYPES[kind], 'association types',
           lambda: 'the key of type {} of {} is stored as {}'.format(kind, tname, types.get(key(fk[0][0]))))
    ob(len(at.columns) == 3, 'association columns', lambda: str(at.columns))


def rules(C):
    text = 'each column with its type, NOT NULL iff required, and a CHECK for exactly the facets given'
    for kind in TYPES:
        C.explore('column-' + kind, one_column(kind), mods=MODS, min_ok=10, statement=text)
    for kind in NUMBERS:
        if C.thorough or kind in ('integer', 'decimal', 'float', 'nonNegativeInteger'):
            C.explore('range-' + kind, one_column(kind, RANGE[:1] + RANGE[4:5]), mods=MODS, min_ok=10,
                      statement=text)
            C.explore('range2-' + kind, one_column(kind, RANGE[1:2] + RANGE[3:4]), mods=MODS, min_ok=10,
                      statement=text)
            C.explore('range3-' + kind, one_column(kind, RANGE[2:3] + RANGE[5:6]), mods=MODS, min_ok=10,
                      statement=text)
    for kind in TIMES:
        if kind in TYPES:
            C.explore('range-' + kind, one_column(kind, RANGE[:1] + RANGE[5:]), mods=MODS, min_ok=10, statement=text)
            C.explore('range2-' + kind, one_column(kind, RANGE[1:2] + RANGE[4:5]), mods=MODS, min_ok=10,
                      statement=text)
            C.explore('range3-' + kind, one_column(kind, RANGE[2:4]), mods=MODS, min_ok=10, statement=text)
    for kind in ('string', 'hexBinary', 'normalizedString', 'xml'):
        C.explore('length-' + kind, one_column(kind, LENGTH), mods=MODS, min_ok=10, statement=text)
    C.explore('inherited', inherited, mods=MODS, min_ok=9, statement=text)
    C.explore('keys', keys, mods=MODS, min_ok=50,
              statement='the same primary key, and foreign keys pairing the same columns')
    C.explore('self-reference', selfref, mods=MODS, min_ok=18)
    C.explore('self-association', self_association, mods=MODS, min_ok=4)
    C.explore('many-to-many', many_to_many, mods=MODS, min_ok=20,
              statement='an association table references both tables')
