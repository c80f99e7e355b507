"""File handles opened by the package are closed on every exit."""
from .tables import *
from csvwlint.path import _NO
from .P03 import world, rewrite_rows

ASSUMPTIONS = ['operations may fail: reading a row, converting a cell, visiting or writing a row, '
               'closing; a failing close is taken to have closed its handle',
               'closing a text wrapper closes the file it wraps; an archive is closed separately',
               'handles opened by a call that fails while opening are not considered']
OPENERS = ('open', 'zipfile.ZipFile', 'io.TextIOWrapper', 'gzip.open', 'codecs.open',
           'sqlite3.connect', 'urllib.request.urlopen', 'tempfile.NamedTemporaryFile',
           'tempfile.TemporaryFile')
FAULTS = ('read', '.writerow', '.writerows', '.close', '__exit__', 'visit', 'cell', '.write')


def policy(e, name, args):
    if name in FAULTS and not any(getattr(ev, 'raised', None) for ev in e.path.events):
        return ['OSError'] if name != 'cell' else ['ValueError']
    return []


def faults(eng, on):
    eng.raise_policy = policy if on else None


def handles(eng, start):
    """(opened, closed, wraps): all handles opened since start by what opened them"""
    opened, closed, wraps, zips = {}, set(), {}, set()
    for e in eng.path.events[start:]:
        if e.name in OPENERS and getattr(e, 'raised', None) is None and e.result is not None:
            opened[key(e.result)] = e
            if e.name == 'zipfile.ZipFile':
                zips.add(key(e.result))
            if e.name == 'io.TextIOWrapper':
                src = e.args[0] if e.args else e.kw.get('buffer')
                wraps[key(e.result)] = key(src)
        elif e.name == '.open' and e.args and key(e.args[0]) in zips and e.result is not None:
            opened[key(e.result)] = e
        elif e.name in ('.close', '__exit__') and e.args:
            closed.add(key(e.args[0]))
    for w, src in wraps.items():
        if w in closed:
            closed.add(src)
    return opened, closed


def check(eng, ob, what, start, own=()):
    opened, closed = handles(eng, start)
    for k, e in opened.items():
        ob(k in closed, '{}: {}'.format(what, e.name), lambda: 'the handle opened by {} is not '
           'closed'.format(describe(e)))
    for f in own:
        ob(key(f) not in closed, what + ': file of the caller', 'a file object passed in by the '
           'caller is closed')
    return opened


def describe(e):
    return '{}({})'.format(e.name, ', '.join([show(a) for a in e.args] + [
        '{}={}'.format(k, show(v)) for k, v in sorted((e.kw or {}).items())]))


def managers(eng, ob):
    """reader and writer as context managers"""
    P = eng.path
    cls = ['UnicodeReader', 'UnicodeWriter', 'UnicodeDictReader', 'NamedTupleReader',
           'UnicodeReaderWithLineNumber'][P.choose('class', 5)]
    world(eng, rewrite_rows(2), False)
    fobj = S('fileobj', typ='file', truthy=True, notnone=True)
    i = P.choose('source', 4 if cls != 'UnicodeWriter' else 3)
    f = [S('path', 'str'), T('pathlib.Path', S('p', 'str'), typ='path'), fobj,
         eng.VL([S('line', 'str')])][i]
    start = len(P.events)
    cm = run(eng, lambda: eng.call(find(eng, 'csvw.dsv.' + cls), [f], {}))
    if not cm.returned:
        ob(False, cls, cm.describe(eng))
        return
    faults(eng, True)
    o = run(eng, lambda: eng.enter(cm.value))
    if not o.returned:
        ob(False, cls, o.describe(eng))
        return
    if P.choose('used', 2) == 0:
        if cls == 'UnicodeWriter':
            call(eng, o.value, 'writerow', eng.VL([S('c', 'str')]))
        else:
            collect(eng, o.value)
    if P.choose('body fails', 2) == 1:
        x = run(eng, lambda: eng.raise_ext('KeyError', ('x',)))
        o2 = run(eng, lambda: eng.exit(cm.value, x.raised))
        ob(not (o2.returned and o2.value is True), cls + ': exception',
           'an exception of the body is swallowed')
    else:
        run(eng, lambda: eng.exit(cm.value, None))
    faults(eng, False)
    got = check(eng, ob, cls, start, [fobj])
    ob(len(got) == (1 if i < 2 else 0), cls + ': opened', '{} files opened'.format(len(got)))


def functions(eng, ob):
    P = eng.path
    what = ['rewrite', 'add_rows', 'filter_rows_as_dict'][P.choose('function', 3)]
    world(eng, rewrite_rows(2), False)

    def visit(e, a, k):
        ev = e.event('visit', a)
        e.maybe_raise('visit', a, ev)
        return a[1] if len(a) > 1 else True
    v = S('visitor', call=visit, truthy=True, notnone=True)
    faults(eng, True)
    start = len(P.events)
    run(eng, lambda: eng.call(find(eng, 'csvw.dsv.' + what), [S('fname', 'str')] + (
        [eng.VL([S('new', 'str')])] if what == 'add_rows' else [v])))
    faults(eng, False)
    got = check(eng, ob, what, start)
    ob(len(got) >= 1, what + ': opened', 'no file is opened')


def consume(eng, gen):
    """take rows of a generator: all, or some and close it"""
    n = eng.path.choose('rows taken', 4)
    if n == 3:
        return collect(eng, gen)
    it = eng.get_iter(gen)
    for _ in range(n):
        o = run(eng, lambda: next1(eng, it))
        if not o.returned or o.value is _NO:
            break
    faults(eng, False)
    run(eng, lambda: eng.call(eng.getattr(it, 'close'), []))


def rows(eng, ob):
    P = eng.path
    world(eng, [['a', 'b']] + rewrite_rows(2), False)
    faults(eng, True)
    fobj = S('fileobj', typ='file', truthy=True, notnone=True)
    kw = [{}, {'dicts': True}, {'namedtuples': True}][P.choose('kind', 3)]
    src = [S('path', 'str'), fobj][P.choose('source', 2)]
    start = len(P.events)
    g = run(eng, lambda: eng.call(find(eng, 'csvw.dsv.iterrows'), [src], kw))
    if g.returned:
        consume(eng, g.value)
    faults(eng, False)
    check(eng, ob, 'iterrows', start, [fobj])


def table(eng):
    t = simple_table(eng, 'data.csv', ['a', 'b'])
    t.attrs['dialect'] = mk(eng, 'csvw.metadata.Dialect', header=True)
    return t


def places(eng, zipped):
    eng.ext_overrides['.exists'] = lambda e, a, k: text_of(a[0]).endswith('.zip') == zipped
    eng.ext_overrides['.namelist'] = lambda e, a, k: e.VL(['x/data.csv'])
    reading(eng, readable=False)
    old = eng.overrides['csvw.metadata.Column.read']

    def read(e, a, k):
        ev = e.event('cell', a)
        e.maybe_raise('cell', a, ev)
        return old(e, a, k)
    eng.overrides['csvw.metadata.Column.read'] = read


def table_rows_(eng, ob):
    P = eng.path
    world(eng, [['a', 'b']] + rewrite_rows(2), False)
    t = table(eng)
    i = P.choose('data', 4)
    places(eng, i == 1)
    fobj = S('fileobj', typ='file', truthy=True, notnone=True)
    fname = ['d/data.csv', 'd/data.csv', 'http://example.org/data.csv', fobj][i]
    kw = {'fname': fname}
    if P.choose('log', 2) == 1:
        kw['log'] = logger(eng)
    if P.choose('strict', 2) == 1:
        kw['strict'] = False
    faults(eng, True)
    start = len(P.events)
    g = run(eng, lambda: eng.call(eng.getattr(t, 'iterdicts'), [], kw))
    if g.returned:
        consume(eng, g.value)
    faults(eng, False)
    what = 'Table.iterdicts, ' + ['file', 'archive', 'URL', 'file object'][i]
    check(eng, ob, what, start, [fobj])


def table_write(eng, ob):
    P = eng.path
    world(eng, [], False)
    t = table(eng)
    eng.ext_overrides.pop('.exists', None)

    def write(e, a, k):
        ev = e.event('cell', a)
        e.maybe_raise('cell', a, ev)
        return T('written', a[1])
    eng.overrides['csvw.metadata.Column.write'] = write
    items = eng.VL([eng.VD([('a', S('x')), ('b', S('y'))]) for _ in range(2)])
    kw = {'fname': [S('out', 'str'), None][P.choose('target', 2)]}
    if kw['fname'] is not None:
        P.assume(kw['fname'], True)
    if P.choose('strict', 2) == 1:
        kw['strict'] = True
        items.items.append(eng.VD([('z', 1)]))
    if P.choose('zipped', 2) == 1:
        kw['_zipped'] = True
    faults(eng, True)
    start = len(P.events)
    run(eng, lambda: eng.call(eng.getattr(t, 'write'), [items], kw))
    faults(eng, False)
    check(eng, ob, 'Table.write', start)


def metadata(eng, ob):
    P = eng.path
    i = P.choose('function', 2)
    eng.ext_overrides['json.load'] = lambda e, a, k: (e.maybe_raise('read', (), e.event('read', ())),
                                                     e.VD(()))[1]
    eng.ext_overrides['json.dump'] = lambda e, a, k: e.maybe_raise('.write', (), e.event('.write', ()))
    faults(eng, True)
    start = len(P.events)
    if i == 0:
        run(eng, lambda: eng.call(find(eng, 'csvw.metadata.get_json'), ['d/md.json']))
        what = 'get_json'
    else:
        t = table(eng)
        run(eng, lambda: eng.call(eng.getattr(t, 'to_file'), ['d/md.json']))
        what = 'to_file'
    faults(eng, False)
    got = check(eng, ob, what, start)
    ob(len(got) == 1, what + ': opened', '{} files opened'.format(len(got)))


def rules(C):
    C.explore('context-managers', managers, min_ok=50)
    C.explore('functions', functions, min_ok=50)
    C.explore('row-generator', rows, min_ok=50)
    C.explore('table-rows', table_rows_, min_ok=100)
    C.explore('table-write', table_write, min_ok=30)
    C.explore('metadata', metadata, min_ok=4)
