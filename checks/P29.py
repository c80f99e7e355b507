"""Values read from the database are the values written."""
from .P27 import *
from csvwlint.path import _NO

ASSUMPTIONS = ['the text of a value made by a datatype is read by the same datatype as the value '
               '(subject of P08, P10, P11, P12 and P31)',
               'items of string lists are not empty and do not contain the separator',
               'decimals have the precision of double floats']
KINDS = {'string': 'str', 'integer': 'int', 'boolean': 'bool', 'decimal': 'decimal', 'hexBinary': 'bytes',
         'float': 'float', 'int': 'int', 'nonNegativeInteger': 'int', 'double': 'float', 'number': 'float',
         'date': 'datetime', 'datetime': 'datetime', 'dateTime': 'datetime', 'dateTimeStamp': 'datetime',
         'duration': None, 'anyURI': None, 'base64Binary': 'bytes', 'normalizedString': 'str', 'json': None,
         'gYear': 'str', 'xml': 'str', 'time': None, 'byte': 'int', 'yearMonthDuration': None, 'html': None,
         'binary': 'bytes', 'long': 'int', 'positiveInteger': 'int', 'QName': 'str', 'unsignedShort': 'int'}


def datatype_functions(eng):
    """qualified names of the conversions of all datatypes, and the pairs which are inverse"""
    res, pairs = {}, {}
    dts = eng.getattr(eng.modules['csvw.datatypes'], 'DATATYPES')
    for k, (name, cls) in dts.d.items():
        pair = []
        for f in ('to_string', 'to_python'):
            fn = eng.getattr(cls, f)
            fn = getattr(fn, 'func', fn)
            res[fn.qualname] = f
            pair.append(fn.qualname)
        pairs[name] = tuple(pair)
    return res, pairs


def opaque_conversions(eng, kind):
    funcs, pairs = datatype_functions(eng)

    def conv(q):
        def f(e, a, k):
            a = [x for x in a if not isinstance(x, (Cls, Inst))]
            v = T('conv', q, a[0], typ='str')
            if not e.path.truths.get(('truth', key(v))):
                e.path.truths[('truth', key(v))] = True
            return v
        return f

    def back(q):
        def f(e, a, k):
            x = plain([x for x in a if not isinstance(x, (Cls, Inst))][0])
            if kind == 'json' and isinstance(x, Term) and x.op == 'json.dumps':
                return x.args[0]
            if isinstance(x, Term) and x.op == 'conv' and (x.args[0], q) == pairs[kind]:
                return x.args[1]
            return T('read as ' + q.split('.')[-2], x)
        return f
    for q, what in funcs.items():
        eng.overrides[q] = conv(q) if what == 'to_string' else back(q)


def arithmetic(eng):
    def dec(e, a, k):
        x = plain(a[0]) if a else None
        if isinstance(x, Term) and x.op == 'repr':
            x = x.args[0]
            return x.args[0] if isinstance(x, Term) and x.op == 'float' else _NO
        if isinstance(x, Term) and x.op == 'float':
            # the value is exact only if it is read from the shortest text of the float
            return x.args[0] if key(x) != key(a[0]) else T('noisy', x, typ='decimal')
        return _NO

    def flt(e, a, k):
        if a and e.path.typ(a[0]) == 'decimal':
            return T('float', a[0], typ='float')
        return _NO

    def dumps(e, a, k):
        items = thaw_items(a[0])
        if items is None:
            return _NO
        for x in items:
            if x is not None and e.path.typ(x) not in ('str', 'int', 'float', 'bool'):
                e.raise_ext('TypeError', ('not JSON serializable',))
        v = T('json', *items, typ='str')
        e.path.truths[('truth', key(v))] = True
        return v

    def loads(e, a, k):
        x = a[0]
        if isinstance(x, Term) and x.op == 'json':
            return e.VL(list(x.args))
        return _NO

    def split(e, a, k):
        if len(a) < 2:
            return _NO
        res = [[]]
        for p in parts_of(a[0]):
            if key(p) == key(a[1]):
                res.append([])
            elif isinstance(p, str) and isinstance(a[1], str) and a[1]:
                x = p.split(a[1])
                res[-1].append(x[0])
                res.extend([y] for y in x[1:])
            else:
                res[-1].append(p)
        return e.VL([e.ext.cat(e, r) for r in res])

    eng.ext_overrides.update({
        'decimal.Decimal': dec, 'float': flt, 'json.dumps': dumps, 'json.loads': loads, '.split': split})


class Store:
    """Content of the database, by what has been executed"""
    def __init__(self, eng, ob):
        self.eng, self.ob = eng, ob
        self.types, self.rows, self.order = {}, {}, {}

    def put(self, typ, v):
        eng = self.eng
        if v is None:
            return None
        t = eng.path.typ(v)
        if t in ('list', 'dict', 'decimal', 'tuple', 'set') or isinstance(v, (VList, VDict, tuple)):
            eng.raise_ext('sqlite3.ProgrammingError', ('type not supported',))
        if t in ('datetime', 'timedelta'):
            return T('adapted', v, typ='str')
        if isinstance(v, bool):
            v = int(v)
            t = 'int'
        if typ == 'TEXT' and t in ('int', 'float', 'bool'):
            r = T('text', v, typ='str')
            eng.path.truths[('truth', key(r))] = True
            return r
        if typ in ('INTEGER', 'REAL', 'NUMERIC') and t == 'str':
            return T('number of text', v)
        if typ == 'REAL' and t == 'int':
            return T('real', v, typ='float')
        return v

    def __call__(self, eng, ev):
        kind, toks, _ = sql_statement(eng, ev)
        if kind == 'CREATE':
            c = Created(toks)
            self.types[key(c.name)] = {key(n): t for n, t, _ in c.columns}
            self.order[key(c.name)] = [n for n, _, _ in c.columns]
            self.rows.setdefault(key(c.name), [])
        elif kind == 'INSERT':
            ins = Inserted(toks)
            types = self.types[key(ins.table)]
            for row in (thaw_items(ev.args[2]) if ev.args[3] else [ev.args[2]]):
                self.rows[key(ins.table)].append({
                    key(c): self.put(types[key(c)], v) for c, v in zip(ins.columns, thaw_items(row))})
        elif kind == 'SELECT':
            return self.select(toks, ev)
        return {'columns': [], 'rows': []}

    def select(self, toks, ev):
        depth, fi = 0, None
        for i, t in enumerate(toks):
            if t.kind == 'word' and t.val == 'FROM':
                fi = i
                break
        if fi is None:
            raise NotSQL('FROM expected')
        p = Parser(toks)
        p.i = fi + 1
        tname = p.ident()
        if key(tname) not in self.rows:
            self.eng.raise_ext('sqlite3.OperationalError', ('no such table',))
        rows = list(self.rows[key(tname)])
        params = thaw_items(ev.args[2]) if ev.args[2] is not None else []
        if p.maybe('WHERE'):
            while True:
                c = p.ident()
                p.take('=')
                if p.maybe('?'):
                    v = params.pop(0)
                else:
                    v = p.toks[p.i].val
                    p.i += 1
                rows = [r for r in rows if r.get(self.col(tname, c)) is not None and
                        self.eng.equal(r.get(self.col(tname, c)), v)]
                if not p.maybe('AND'):
                    break
        if p.maybe('ORDER', 'BY'):
            p.ident()
            p.maybe('ASC')
        if p.i < len(toks):
            raise NotSQL('select: {}'.format(toks[p.i:]))
        sel = toks[1:fi]
        if len(sel) == 1 and sel[0].val == '*':
            cols = self.order[key(tname)]
            return {'columns': cols, 'rows': [[r.get(key(c)) for c in cols] for r in rows]}
        cols, cur, depth = [], [], 0
        for t in sel + [Tok('op', ',')]:
            if t.kind == 'op' and t.val in '()':
                depth += 1 if t.val == '(' else -1
            if t.kind == 'op' and t.val == ',' and depth == 0:
                cols.append([x for x in cur if not (x.kind == 'word' and x.val == 'COALESCE') and
                             x.kind != 'op'])
                cur = []
            else:
                cur.append(t)
        get = lambda r, c: r.get(self.col(tname, c[0].val if c[0].kind == 'id' else c[0].val.lower()))  # noqa: E731
        return {'columns': [c[0].val for c in cols], 'rows': [[
            get(r, c) if get(r, c) is not None or len(c) == 1 else c[1].val for c in cols] for r in rows]}

    def col(self, tname, c):
        if key(c) not in self.types[key(tname)] and c != 'rowid':
            self.eng.raise_ext('sqlite3.OperationalError', ('no such column',))
        return key(c)


def roundtrip(eng, ob, tables, items, want, what):
    """want: {(table): [{column: value}]}"""
    store = Store(eng, ob)
    Server(eng, answer=store)
    arithmetic(eng)
    tg = group(eng, tables)
    eng.overrides['csvw.metadata.Table.local_name'] = lambda e, a, k: a[0].attrs['url'].attrs['string']
    try:
        db = database(eng, tg, translate=translator())
        o = call(eng, db, 'write', **items)
        ob(o.returned, what + ': write', lambda: 'writing ' + o.describe(eng))
        if not o.returned:
            return
        o = call(eng, db, 'read')
    except NotSQL as e:
        ob(None, 'statement', str(e))
        return
    ob(o.returned, what + ': read', lambda: 'reading ' + o.describe(eng))
    if not o.returned:
        return
    if not isinstance(o.value, VDict):
        ob(None, what, lambda: 'reading ' + o.describe(eng))
        return
    got = {k: thaw_items(v) for k, v in ((x[0], x[1]) for x in o.value.d.values())}
    for t, rows in want.items():
        g = [v for k, v in got.items() if key(k) == key(tr(t))]
        ob(len(g) == 1 and g[0] is not None and len(g[0]) == len(rows), what + ': rows', lambda: (
            '{} rows of {} read as {}'.format(len(rows), t, g)))
        if len(g) != 1 or g[0] is None or len(g[0]) != len(rows):
            continue
        for a, b in zip(g[0], rows):
            for c, v in b.items():
                x = [e[1] for e in a.d.values() if key(e[0]) == key(tr(t, c))]
                ob(bool(x) and equal(eng, x[0], v), what + ': value', lambda: '{} is read back as {}'.format(
                    show(v), show(x[0]) if x else 'nothing (column {})'.format(show(c))))
            ob(len(a.d) == len(b), what + ': columns', lambda: 'columns {}'.format(
                [show(e[0]) for e in a.d.values()]))


def equal(eng, x, y):
    if x is None or y is None:
        return x is y
    ix, iy = thaw_items(x), thaw_items(y)
    if (ix is None) != (iy is None):
        return False
    if iy is not None:
        return len(ix) == len(iy) and all(equal(eng, a, b) for a, b in zip(ix, iy)) and isinstance(x, VList)
    if isinstance(x, bool) != isinstance(y, bool):
        return False
    return same(eng, x, y) is True


def scalar(kind):
    def h(eng, ob):
        P = eng.path
        opaque_conversions(eng, kind)
        a, b = names(eng, 'c', 2)
        v = item(eng, kind, 'v')
        if P.choose('missing', 2) == 0:
            v = None
        w = item(eng, kind, 'w')
        t = table(eng, 'tbl', [column(eng, a, 1), column(eng, b, 2, datatype=kind)])
        rows = [[(a, val('a0')), (b, v)], [(a, val('a1')), (b, w)], [(a, val('a2'))]]
        want = [{a: val('a0'), b: v}, {a: val('a1'), b: w}, {a: val('a2'), b: None}]
        roundtrip(eng, ob, [t], {'tbl': eng.VL([eng.VD(r) for r in rows])}, {'tbl': want}, kind)
    return h


def item(eng, kind, name):
    if kind == 'boolean':
        return eng.path.choose(name, 2) == 0
    return S(name, KINDS.get(kind) or ('datetime' if kind != 'json' else None), notnone=True, truthy=None if KINDS.get(kind) in (
        'int', 'float', 'decimal', 'bytes', 'str') and not name.startswith('item') else True)


def lists(kind):
    def h(eng, ob):
        P = eng.path
        opaque_conversions(eng, kind)
        a, b = names(eng, 'c', 2)
        v, w = item(eng, kind, 'item1'), item(eng, kind, 'item2')
        vals = [None, [], [v], [v, w]] + ([[None], [v, None]] if kind != 'string' else [])
        items = vals[P.choose('value', len(vals))]
        t = table(eng, 'tbl', [column(eng, a, 1), column(eng, b, 2, datatype=kind, separator=S(
            'sep', 'str', truthy=True, notnone=True))])
        x = val('a0')
        roundtrip(eng, ob, [t], {'tbl': eng.VL([eng.VD([
            (a, x), (b, None if items is None else eng.VL(items))]), eng.VD([(a, val('a1'))])])},
            {'tbl': [{a: x, b: items if items is None else eng.VL(items)}, {a: val('a1'), b: None}]},
            'list of ' + kind)
    return h


def relations_back(kind, own):
    def h(eng, ob):
        P = eng.path
        opaque_conversions(eng, kind if kind not in TYPED else own)
        p, = names(eng, 'p', 1)
        a, b, c = names(eng, 'c', 3)
        f, g = S('f', KINDS[kind], notnone=True, truthy=True), S('g', KINDS[kind], notnone=True, truthy=True)
        if P.choose('keys equal', 2) == 0:
            g = f
        k1, k2, k3 = [S('k{}'.format(i), KINDS[own], notnone=True, truthy=True) for i in range(3)]
        for x, y in ((k1, k2), (k1, k3), (k2, k3)):
            P.assume(T('eq', x, y, typ='bool'), False)
        parent = table(eng, 'parent', [column(eng, p, 1, datatype=kind)], pk=[p])
        same_ = P.choose('two foreign keys', 2) == 0
        child = table(eng, 'child', [
            column(eng, a, 1, datatype=own), column(eng, b, 2, datatype=kind, separator=';'),
            column(eng, c, 3, datatype=kind, separator=';')], pk=[a],
            fks=[([b], 'parent', [p])] + ([([c], 'parent', [p])] if same_ else []))
        vals = [[], [f], [f, g], [g, f]]
        v1, v2 = vals[P.choose('first row', 4)], vals[P.choose('other column', 2)]
        rows = [[(a, k1), (b, v1), (c, v2)], [(a, k2), (b, []), (c, [])], [(a, k3), (b, [g]), (c, v1)]]
        items = {'parent': eng.VL([eng.VD([(p, f)]), eng.VD([(p, g)])]), 'child': eng.VL([
            eng.VD([(n, eng.VL(v) if isinstance(v, list) else v) for n, v in r]) for r in rows])}
        want = {'parent': [{p: f}, {p: g}], 'child': [
            {n: eng.VL(v) if isinstance(v, list) else v for n, v in r} for r in rows]}
        roundtrip(eng, ob, [parent, child], items, want, 'relation')
    return h


TYPED = ('string', 'integer', 'boolean', 'decimal', 'hexBinary')


def convertible(eng, ob):
    """the conversions used work for all values of the datatype"""
    dts = eng.getattr(eng.modules['csvw.datatypes'], 'DATATYPES')
    kinds = [k for _, (k, _) in dts.d.items()]
    kind = kinds[eng.path.choose('datatype', len(kinds))]
    spec = eng.call(find(eng, 'csvw.db.ColSpec'), ['c', kind], {})
    v = S('v', KINDS.get(kind) or ('datetime' if kind == 'time' else None), notnone=True)
    o = run(eng, lambda: eng.call(eng.getattr(spec, 'convert'), [v], {}))
    bad = not o.returned and o.exc_name(eng) in ('AttributeError', 'NameError', 'KeyError') and not eng.path.notes
    ob(not bad, 'conversion of ' + kind, lambda: 'converting a value ' + o.describe(eng))
    if kind == 'time':
        x = S('x', 'str', notnone=True)
        o = run(eng, lambda: eng.call(eng.getattr(spec, 'read'), [x], {}))
        ob(o.returned or o.is_exc(eng, 'ValueError'), 'reading of ' + kind, lambda: 'reading a value ' +
           o.describe(eng))


def rules(C):
    text = 'the conversions of writing and reading are inverse to each other, through the column types'
    for kind in KINDS:
        C.explore('scalar-' + kind, scalar(kind), mods=MODS, min_ok=6, statement=text)
        C.explore('list-' + kind, lists(kind), mods=MODS, min_ok=12, statement=text)
    for kind in ('string', 'integer', 'date'):
        for own in ('string', 'integer', 'date'):
            if C.thorough or kind == own or kind == 'string' or own == 'string':
                C.explore('relation-{}-{}'.format(kind, own), relations_back(kind, own), mods=MODS,
                          min_ok=20, statement='list-valued foreign keys are read back for the right column')
    C.explore('convertible', convertible, mods=MODS, min_ok=5)
