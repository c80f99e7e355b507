"""Writing a table: a row per item with all non-virtual columns."""
from .tables import *

ASSUMPTIONS = ['Column.write is an arbitrary function of column and value (its rules are P07)',
               'tables of up to three columns and two items are analysed']


def columns(eng, spec):
    """spec: list of (kind, name or title)"""
    cols = []
    for i, (kind, name) in enumerate(spec):
        kw = {'name': name} if kind in ('named', 'virtual') else {}
        if kind == 'titled':
            kw['titles'] = eng.call(find(eng, 'csvw.metadata.NaturalLanguage'), [name])
        cols.append(mk(eng, 'csvw.metadata.Column', _number=i + 1, virtual=True if kind == 'virtual'
                       else None, **kw))
    return cols


def table(eng, spec, header, **kw):
    t = mk(eng, 'csvw.metadata.Table', url=eng.call(find(eng, 'csvw.metadata.Link'), [
        kw.pop('url', 'data.csv')]), **kw)
    if header is not None:
        t.attrs['dialect'] = mk(eng, 'csvw.metadata.Dialect', header=header)
    cols = columns(eng, spec)
    s = mk(eng, 'csvw.metadata.Schema', _parent=t, columns=eng.VL(cols))
    for c in cols:
        c.attrs['_parent'] = s
    t.attrs['tableSchema'] = s
    return t


def writing(eng):
    def write(e, a, k):
        v = a[1] if len(a) > 1 else k.get('v')
        e.event('Column.write', a, k)
        return T('written', e.getattr(a[0], 'header'), v)
    eng.overrides['csvw.metadata.Column.write'] = write
    eng.ext_overrides['language_tags.tags.check'] = lambda e, a, k: True
    eng.unroll = 30


def written_rows(eng, start):
    got = []
    for e in eng.path.events[start:]:
        if e.name == '.writerow':
            got.append(e.args[-1])
        elif e.name == '.writerows':
            got.extend(thaw_items(e.args[-1]) or [S('unknown')])
    return got


def check_rows(eng, ob, what, got, want):
    ob(len(got) == len(want), what + ': rows', lambda: '{} rows must be written, but {} are: {}'.format(
        len(want), len(got), [show(g) for g in got]))
    for i, (g, w) in enumerate(zip(got, want)):
        items = g.keys() if isinstance(g, VDict) else thaw_items(g)
        ob(None if items is None else len(items) == len(w) and all(
            same(eng, x, y) is True for x, y in zip(items, w)), what + (
                ': header' if i == 0 and isinstance(w[0], str) else ': cells'),
           lambda: 'the row must be {}, but is {}'.format([show(x) for x in w], show(g)))


SPECS = [
    [('named', 'a'), ('named', 'b')],
    [('virtual', 'v'), ('named', 'a'), ('named', 'b')],
    [('named', 'b'), ('virtual', 'v'), ('titled', 'A')],
    [('named', 'b'), ('named', 'a'), ('virtual', 'v')],
    [('none', None), ('named', 'b')],
]


def names_of(spec):
    return [n if k != 'none' else '_col.{}'.format(i + 1) for i, (k, n) in enumerate(spec)
            if k != 'virtual']


def items(eng, ob):
    P = eng.path
    writing(eng)
    spec = SPECS[P.choose('schema', len(SPECS))]
    names = names_of(spec)
    header = [True, False, None][P.choose('dialect with header', 3)]
    parent = P.choose('dialect of the group', 3) if header is None else 0
    t = table(eng, spec, header)
    if parent:
        g = mk(eng, 'csvw.metadata.TableGroup', tables=eng.VL([t]), dialect=mk(
            eng, 'csvw.metadata.Dialect', header=parent == 1))
        t.attrs['_parent'] = g
        header = parent == 1
    n = P.choose('items', 3)
    data, want, bad = [], [], False
    strict = P.choose('strict', 2) == 1
    for i in range(n):
        vals = [S('c{}{}'.format(i, j)) for j in range(len(names))]
        kinds = ['dict', 'extra', 'list'] if i else [
            'dict', 'partial', 'extra', 'list', 'tuple', 'reordered', 'empty', 'virtual']
        k = kinds[P.choose('item {}'.format(i + 1), len(kinds))]
        if k == 'list':
            data.append(eng.VL(vals))
        elif k == 'tuple':
            data.append(tuple(vals))
        elif k == 'partial':
            data.append(eng.VD([(names[0], vals[0])]))
            vals = vals[:1] + [None] * (len(names) - 1)
        elif k == 'empty':
            data.append(eng.VD([]))
            vals = [None] * len(names)
        elif k == 'extra':
            data.append(eng.VD(list(zip(names, vals)) + [('unknown', S('x'))]))
            bad = bad or strict
        elif k == 'virtual':
            data.append(eng.VD(list(zip(names, vals)) + [('v', S('x'))]))
            bad = bad or strict
        elif k == 'reordered':
            data.append(eng.VD(list(zip(names, vals))[::-1]))
        else:
            data.append(eng.VD(list(zip(names, vals)), cls='OrderedDict'))
        want.append([T('written', h, v) for h, v in zip(names, vals)])
    fname = S('out', 'str')
    P.assume(fname, True)
    memory = P.choose('target', 2) == 1
    kw = {'fname': None if memory else fname}
    if strict:
        kw['strict'] = True
    before = eng.VL(list(data))
    frozen = [freeze(d) for d in data]
    src = before if P.choose('items given as', 2) == 0 else eng.get_iter(before)
    start = len(P.events)
    o = run(eng, lambda: eng.call(eng.getattr(t, 'write'), [src], kw))
    if bad:
        ob(o.is_exc(eng, 'ValueError'), 'strict', lambda: 'items with unknown keys must be rejected '
           'with ValueError: ' + o.describe(eng))
        return
    if not o.returned:
        ob(False, 'write', o.describe(eng))
        return
    w = events(eng, 'csv.writer', start)
    ob(len(w) == 1, 'write: writer', '{} writers'.format(len(w)))
    check_rows(eng, ob, 'write', written_rows(eng, start),
               ([names] if header is not False else []) + want)
    if memory:
        ob(isinstance(o.value, Term) and o.value.op == '.encode' and any(
            isinstance(x, Term) and x.op.split('#')[0] in ('.read', '.getvalue') for x in o.value.args),
           'write: content', lambda: 'without a file the content must be returned: ' + show(o.value))
        ob(not events(eng, 'open', start), 'write: content', 'a file is opened')
    else:
        ob(same(eng, o.value, n), 'write: count', lambda: '{} items are written, {} is returned'.format(
            n, show(o.value)))
        opened = events(eng, 'open', start)
        ob(len(opened) == 1 and same(eng, opened[0].kw.get('file'), fname) is True, 'write: file',
           lambda: 'file written: {}'.format([show(e.kw.get('file')) for e in opened]))
    for d, f in zip(data, frozen):
        ob(key(freeze(d)) == key(f), 'write: items', 'the items are changed')


def zipped(eng, ob):
    P = eng.path
    writing(eng)
    t = table(eng, SPECS[0], True)
    start = len(P.events)
    o = run(eng, lambda: eng.call(eng.getattr(t, 'write'), [eng.VL([
        eng.VL([S('x'), S('y')])])], {'fname': 'd/data.csv', '_zipped': True}))
    ob(o.returned and same(eng, o.value, 1), 'zipped: count', lambda: o.describe(eng))
    evs = P.events[start:]
    z = [e for e in evs if e.name == 'zipfile.ZipFile']
    ob(len(z) == 1 and text_of(z[0].args[0] if z[0].args else z[0].kw.get('file')).endswith(
        'data.csv.zip'), 'zipped: archive', lambda: 'archives written: {}'.format(
            [[show(a) for a in e.args] for e in z]))
    writes = [i for i, e in enumerate(evs) if e.name == '.write' and z and key(e.args[0]) == key(
        z[0].result)]
    gone = [i for i, e in enumerate(evs) if e.name in ('.unlink', 'os.remove', 'os.unlink')]
    closed = [i for i, e in enumerate(evs) if e.name in ('.close', '__exit__') and z and key(
        e.args[0]) == key(z[0].result)]
    full = [i for i, e in enumerate(evs) if e.name == '.close']
    ob(len(writes) == 1, 'zipped: member', '{} members are written'.format(len(writes)))
    for i in writes:
        e = evs[i]
        arc = e.kw.get('arcname', e.args[2] if len(e.args) > 2 else None)
        ob(None if arc is None else text_of(arc) == 'data.csv' or (
            isinstance(arc, Term) and arc.op == 'attr:name'), 'zipped: member',
           lambda: 'member name ' + show(arc))
        ob(any(j < i for j in full), 'zipped: complete',
           'the data file is archived before it is written completely')
    for i in gone:
        ob(any(j < i for j in writes) and any(j < i for j in closed), 'zipped: removal',
           'the data file is removed before the archive is complete')


def group(eng, ob):
    P = eng.path
    writing(eng)
    n = P.choose('tables given', 4)
    calls = []

    def write(e, a, k):
        names = ['items', 'fname', 'base', 'strict', '_zipped']
        kw = dict(zip(names, a[1:]), **k)
        calls.append((a[0], kw))
        e.event('Table.write', a, k)
        return 1
    eng.overrides['csvw.metadata.Table.write'] = write
    ts = [table(eng, SPECS[i], True, url=u) for i, u in enumerate(['x.csv', 'y.csv'])]
    g = mk(eng, 'csvw.metadata.TableGroup', tables=eng.VL(ts))
    for t in ts:
        t.attrs['_parent'] = g
    rows = [S('rows1', 'list'), S('rows2', 'list')]
    given = [[], [0], [1], [1, 0]][n]
    kw = {['x.csv', 'y.csv'][i]: rows[i] for i in given}
    strict = P.choose('strict', 2) == 1
    start = len(P.events)
    o = run(eng, lambda: eng.call(eng.getattr(g, 'write'), ['d/md.json'], dict(
        kw, **({'strict': True} if strict else {}))))
    if not o.returned:
        ob(False, 'group', o.describe(eng))
        return
    got = {key(t): k for t, k in calls}
    ob(len(calls) == len(given) and set(got) == {key(ts[i]) for i in given}, 'group: tables',
       '{} tables are written instead of {}'.format(len(calls), len(given)))
    for i in given:
        k = got.get(key(ts[i]))
        if k is None:
            continue
        ob(same(eng, k.get('items'), rows[i]), 'group: rows', lambda: 'table {} gets {}'.format(
            i, show(k.get('items'))))
        ob(same(eng, eng.path.truth(k.get('strict', False)), strict), 'group: strict', 'option strict')
        f = k.get('fname')
        if f is None or isinstance(f, Sym):
            b = k.get('base')
            ob(b is not None and text_of(b) != '' and 'md.json' not in text_of(b) or (isinstance(
                b, Term) and b.op == 'attr:parent'), 'group: directory', lambda: 'tables are written '
               'relative to {}, not to the directory of the metadata file'.format(show(b)))
    opened = [e for e in P.events[start:] if e.name == 'open']
    ob(len(opened) == 1 and text_of(opened[0].kw.get('file')) == 'd/md.json', 'group: metadata',
       lambda: 'the metadata must be written to its file, but files written are {}'.format(
           [show(e.kw.get('file')) for e in opened]))


def target(eng, ob):
    """where a table's data goes if no file is given"""
    P = eng.path
    writing(eng)
    t = table(eng, SPECS[0], True)
    base = S('base', 'str')
    eng.ext_overrides['.is_dir'] = lambda e, a, k: True    # the directory of the metadata
    P.assume(base, True)
    given = P.choose('base given', 2) == 1
    t.attrs['_fname'] = T('pathlib.Path', 'd/md.json', typ='path')
    start = len(P.events)
    o = run(eng, lambda: eng.call(eng.getattr(t, 'write'), [eng.VL([])], {'base': base} if given else {}))
    opened = events(eng, 'open', start)
    if not o.returned or len(opened) != 1:
        ob(False, 'target', o.describe(eng))
        return
    f = show(opened[0].kw.get('file'))
    ob('data.csv' in f and ('base' in f if given else 'd/md.json' in f and 'parent' in f or 'd/data' in f),
       'target', lambda: 'the data is written to ' + f)


def rules(C):
    C.explore('items', items, min_ok=500)
    C.explore('zipped', zipped, min_ok=4)
    C.explore('group', group, min_ok=10)
    C.explore('target', target, min_ok=2)
