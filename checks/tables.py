"""Tables with given rows, for the rules about reading and checking tables."""
from .common import *
from csvwlint.path import _NO

CELLS = ('csvw.dsv', 'csvw.metadata')


def cell(name):
    return S(name, 'str')


def given_rows(eng, rows):
    """csv.reader yields these rows (lists of cells); the data file exists and holds no line
    breaks in cells."""
    def reader(e, a, k):
        src = a[0]
        e.event('csv.reader', a, k)
        rr = rows(src) if callable(rows) else rows
        return e.get_iter(e.VL([e.VL(list(r)) for r in rr]))
    eng.ext_overrides['csv.reader'] = reader
    eng.ext_overrides['.exists'] = lambda e, a, k: True
    eng.ext_overrides['os.path.exists'] = lambda e, a, k: True
    eng.ext_overrides['.is_file'] = lambda e, a, k: True
    eng.ext_overrides['.count'] = lambda e, a, k: 0 if a[1:] == ['\n'] else _NO
    eng.ext_overrides['language_tags.tags.check'] = lambda e, a, k: True
    eng.unroll = 30


def collect(eng, gen, limit=20):
    """items of a generator until it ends or raises"""
    items = []
    it = eng.get_iter(gen)
    for _ in range(limit):
        o = run(eng, lambda: next1(eng, it))
        if not o.returned:
            return items, o
        if o.value is _NO:
            return items, None
        items.append(o.value)
    return items, None


def next1(eng, it):
    try:
        return eng.next_value(it)
    except StopIteration:
        return _NO


def reading(eng, readable=True):
    """Column.read as an arbitrary function that may reject a cell with ValueError"""
    def read(e, a, k):
        col, v = a[0], a[1]
        name = e.getattr(col, 'header')
        e.event('Column.read', [name, v, k.get('strict', a[2] if len(a) > 2 else True)])
        if readable and not e.path.truth(T('readable', name, v, typ='bool')):
            e.raise_ext('ValueError', ('bad',), origin='Column.read')
        return T('read', name, v)
    eng.overrides['csvw.metadata.Column.read'] = read


def logger(eng, name='log'):
    def rec(level):
        def f(e, a, k):
            e.event('log', [level] + list(a), k)
        return f
    return S(name, truthy=True, notnone=True, methods={
        x: rec(x) for x in ('debug', 'info', 'warning', 'warn', 'error', 'critical', 'exception')})


def text_of(v):
    """constant parts of a message"""
    if isinstance(v, str):
        return v
    if isinstance(v, Term):
        return '\0'.join(text_of(a) for a in v.args)
    if isinstance(v, (int, float)):
        return str(v)
    if isinstance(v, Sym):
        return '<{}>'.format(v.name)
    if isinstance(v, Exc):
        return '\0'.join(text_of(a) for a in v.args)
    if isinstance(v, (tuple, list)):
        return '\0'.join(text_of(a) for a in v)
    return ''


def distinct(eng, name, n, typ='str'):
    """n unknown values known to be different from each other"""
    vals = [S('{}{}'.format(name, i), typ, notnone=True) for i in range(n)]
    for i, a in enumerate(vals):
        for b in vals[:i]:
            eng.path.assume(T('eq', a, b, typ='bool'), False)
            eng.path.assume(T('eq', b, a, typ='bool'), False)
    return vals


def table_rows(eng, data):
    """Table.iterdicts yields given rows.  data(table) -> list of dicts, or 'invalid' for rows that
    cannot be read"""
    def iterdicts(e, a, k):
        self = a[0]
        names = ['log', 'with_metadata', 'fname', '_Row', 'strict']
        kw = dict(zip(names, a[1:]), **k)
        log = kw.get('log')
        e.event('iterdicts', [self], kw)

        def gen():
            for i, row in enumerate(data(self)):
                if row == 'invalid':
                    if log is None:
                        e.raise_ext('ValueError', ('invalid row',), origin='iterdicts')
                    e.call(e.getattr(log, 'warning'), ['invalid row'], {})
                    continue
                d = e.VD(list(row.items()), cls='OrderedDict')
                yield ('dir/' + self.attrs['url'].attrs['string'], i + 2, d) if kw.get('with_metadata') else d
        return e.register(Iter(gen(), 'rows'), 'rows')
    eng.overrides['csvw.metadata.Table.iterdicts'] = iterdicts
    eng.unroll = 30


def simple_table(eng, url, names, pk=None, fks=(), listy=(), required=()):
    cols = [mk(eng, 'csvw.metadata.Column', name=n, _number=i + 1, separator=';' if n in listy else None,
               required=True if n in required else None)
            for i, n in enumerate(names)]
    link = find(eng, 'csvw.metadata.Link')
    t = mk(eng, 'csvw.metadata.Table', url=eng.call(link, [url]))
    fkeys = []
    for child, target, parent in fks:
        ref = mk(eng, 'csvw.metadata.Reference', resource=eng.call(link, [target]),
                 columnReference=eng.VL(list(parent)))
        fkeys.append(mk(eng, 'csvw.metadata.ForeignKey', columnReference=eng.VL(list(child)),
                        reference=ref))
    s = mk(eng, 'csvw.metadata.Schema', _parent=t, columns=eng.VL(cols),
           primaryKey=eng.VL(list(pk)) if pk is not None else None, foreignKeys=eng.VL(fkeys))
    for c in cols:
        c.attrs['_parent'] = s
    t.attrs['tableSchema'] = s
    return t
