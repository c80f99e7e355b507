"""Rewriting a file in place is all or nothing."""
from .tables import *
from csvwlint.values import Iter

ASSUMPTIONS = ['moving the finished temporary file over the target is atomic',
               'operations may fail: opening, reading a row, visiting a row, writing a row, closing, '
               'moving']
MOVES = ('shutil.move', 'os.replace', 'os.rename', '.replace', '.rename')
DESTRUCTIVE = ('shutil.copy', 'shutil.copyfile', 'shutil.copy2', '.write_text', '.write_bytes',
               '.unlink', 'os.remove', 'os.unlink', '.touch', '.truncate', 'os.truncate',
               'shutil.copyfileobj')
FAULTS = ('open', 'read', '.writerow', '.writerows', '.close', 'visit', 'io.open') + MOVES


def plain_path(v):
    while isinstance(v, Term) and v.op in ('str', 'pathlib.Path', 'os.fspath') and len(v.args) == 1:
        v = v.args[0]
    return v


def world(eng, rows, fault):
    """files with given rows; one operation may fail"""
    given_rows(eng, rows)

    def reader(e, a, k):
        e.event('csv.reader', a, k)

        def gen():
            for r in rows:
                ev = e.event('read', ())
                e.maybe_raise('read', (), ev)
                yield e.VL(list(r))
        return e.register(Iter(gen(), 'csv.reader'), 'iter')
    eng.ext_overrides['csv.reader'] = reader

    def policy(e, name, args):
        if name in FAULTS and fault and not any(
                getattr(ev, 'raised', None) for ev in e.path.events):
            return ['OSError']
        return []
    eng.raise_policy = policy


def rewrite_rows(n):
    return [[S('c{}{}'.format(i, j), 'str') for j in range(2)] for i in range(n)]


def check(eng, ob, what, fname, o, start, want, failed_visit=False):
    """want: rows of the result (None: not checked)"""
    evs = eng.path.events[start:]
    is_target = lambda v: key(plain_path(v)) == key(fname)  # noqa: E731
    failed = any(getattr(e, 'raised', None) for e in evs)
    ob(bool(o.returned) != failed, what + ': failure', lambda: 'a failure must be raised, and '
       'nothing else: ' + o.describe(eng))
    moved = []
    writers = {}       # file -> last event of writing
    closed = {}
    wrote_to = None
    for i, e in enumerate(evs):
        if e.name == 'open':
            mode = e.kw.get('mode', 'r')
            if is_target(e.kw.get('file')):
                ob(isinstance(mode, str) and not set(mode) & set('wax+'), what + ': target opened',
                   lambda: 'the file itself is opened with mode {}'.format(show(mode)))
        elif e.name in ('csv.writer',):
            wrote_to = e.args[0]
        elif e.name in ('.writerow', '.writerows'):
            writers[key(wrote_to)] = i
        elif e.name in ('.close', '__exit__') and e.args:
            if not getattr(e, 'raised', None):
                closed.setdefault(key(e.args[0]), i)
        elif e.name in MOVES and len(e.args) > 1 and is_target(e.args[1]):
            moved.append((i, e))
        elif (e.name in MOVES and is_target(e.args[0])) or (
                e.name in DESTRUCTIVE and e.args and any(is_target(a) for a in e.args)):
            ob(False, what + ': target changed', 'the file itself is changed by ' + e.name)
    errors = [e for e in evs if getattr(e, 'raised', None) and e.name not in MOVES]
    if errors:
        ob(not moved, what + ': target after failure', lambda: 'the file is replaced although {} '
           'failed'.format(errors[0].name))
        return
    ob(len(moved) == 1, what + ': replaced', lambda: 'the file is replaced {} times'.format(
        len(moved)))
    for i, e in moved:
        src = [x for x in evs if x.name == 'open' and key(plain_path(x.kw.get('file'))) == key(
            plain_path(e.args[0])) and x.result is not None]
        src = [x for x in src if key(x.result) == key(wrote_to)]
        ob(bool(src), what + ': replacement', lambda: 'the file is replaced with {}, which is not '
           'what was written'.format(show(e.args[0])))
        for x in src:
            k = key(x.result)
            ob(closed.get(k, 10 ** 6) < i and not any(j > closed.get(k, 10 ** 6) for j in [
                writers.get(k, -1)]), what + ': complete',
               'the file is replaced before the new content is completely written and closed')
    if want is None or not o.returned:
        return
    got = []
    for e in evs:
        if e.name == '.writerow':
            got.append(e.args[-1])
        elif e.name == '.writerows':
            got.extend(thaw_items(e.args[-1]) or [S('unknown')])
    ob(len(got) == len(want) and all(rows_same(eng, g, w) for g, w in zip(got, want)),
       what + ': rows', lambda: 'the result must have the rows {}, but has {}'.format(
           [show(eng.VL(w)) for w in want], [show(g) for g in got]))
    formats(eng, ob, what, evs)


def formats(eng, ob, what, evs):
    r = [e for e in evs if e.name == 'csv.reader']
    w = [e for e in evs if e.name == 'csv.writer']
    for a in r:
        for b in w:
            for k in sorted(set(a.kw or {}) | set(b.kw or {})):
                x, y = (a.kw or {}).get(k), (b.kw or {}).get(k)
                if k != 'lineterminator':
                    ob(same(eng, x, y), what + ': format', lambda: 'read with {}={}, but written '
                       'with {}'.format(k, show(x), show(y)))


def rows_same(eng, g, w):
    items = thaw_items(g)
    return items is not None and len(items) == len(w) and all(
        same(eng, x, y) is True for x, y in zip(items, w))


def rewrite(n):
    def h(eng, ob):
        P = eng.path
        rows = rewrite_rows(n)
        fault = P.choose('a failure', 2) == 1
        world(eng, rows, fault)
        fname = S('fname', 'str')
        want, seen = [], []

        def visit(e, a, k):
            ev = e.event('visit', a)
            e.maybe_raise('visit', a, ev)
            i, row = a
            seen.append((i, row))
            c = P.choose('visitor', 4)
            r = [row, None, e.VL([S('new{}'.format(i), 'str')]), e.VL([])][c]
            if c != 1:
                want.append([x for x in thaw_items(r)])
            return r
        kw = {'delimiter': '|'} if P.choose('options', 2) == 1 else {}
        start = len(P.events)
        o = run(eng, lambda: eng.call(find(eng, 'csvw.dsv.rewrite'), [
            fname if P.choose('path', 2) == 0 else T('pathlib.Path', fname, typ='path'),
            S('visitor', call=visit, notnone=True, truthy=True)], kw))
        check(eng, ob, 'rewrite', fname, o, start, want)
        if o.returned:
            ob(len(seen) == n and all(same(eng, i, j) is True and rows_same(eng, r, rows[j])
                                      for j, (i, r) in enumerate(seen)), 'rewrite: visits',
               'each row must be visited once, with its number: ' + str([
                   (show(i), show(r)) for i, r in seen]))
    return h


def append(eng, ob):
    P = eng.path
    rows = [[S('c{}{}'.format(i, j), 'str') for j in range(2)] for i in range(2)]
    exists = P.choose('the file exists', 2) == 0
    world(eng, rows, P.choose('a failure', 2) == 1)
    eng.ext_overrides['.exists'] = lambda e, a, k: exists
    eng.ext_overrides['.is_file'] = lambda e, a, k: exists
    new = [[S('n{}'.format(i), 'str')] for i in range(P.choose('rows added', 3))]
    fname = S('fname', 'str')
    start = len(P.events)
    o = run(eng, lambda: eng.call(find(eng, 'csvw.dsv.add_rows'), [fname] + [
        eng.VL(list(r)) for r in new]))
    check(eng, ob, 'add_rows', fname, o, start, (rows if exists else []) + new)


def filtered(n):
    def h(eng, ob):
        P = eng.path
        head = distinct(eng, 'h', 2)
        rows = [head]
        for i in range(n):
            k = ['full', 'empty', 'short', 'long'][P.choose('row {}'.format(i + 1), 4)]
            rows.append([S('c{}{}'.format(i, j), 'str') for j in range(
                {'full': 2, 'empty': 0, 'short': 1, 'long': 3}[k])])
        world(eng, rows, P.choose('a failure', 2) == 1)
        fname = S('fname', 'str')
        want, rejected, asked = [rows[0]], [], []

        def keep(e, a, k):
            ev = e.event('visit', a)
            e.maybe_raise('visit', a, ev)
            asked.append(a[0])
            i = [j for j in range(1, n + 1) if rows[j]][len(asked) - 1:]
            # any value may be returned, only its truth counts
            r = [True, False, S('true{}'.format(len(asked)), truthy=True), 0][
                P.choose('filter', 4)]
            if r is False or r == 0 and not isinstance(r, V):
                rejected.append(i[0] if i else None)
            elif i:
                want.append(rows[i[0]])
            return r
        start = len(P.events)
        o = run(eng, lambda: eng.call(find(eng, 'csvw.dsv.filter_rows_as_dict'), [
            fname, S('filter', call=keep, notnone=True, truthy=True)]))
        check(eng, ob, 'filter_rows_as_dict', fname, o, start, want)
        if not o.returned:
            return
        data = [r for r in rows[1:] if r]
        ob(len(asked) == len(data), 'filter_rows_as_dict: filtered', lambda: '{} rows are filtered, '
           'of {}'.format(len(asked), len(data)))
        for d, r in zip(asked, data):
            items = d.pairs() if hasattr(d, 'pairs') else None
            exp = list(zip(head, r))
            got = None if not isinstance(d, VDict) or d.rest else [tuple(x) for x in d.d.values()]
            ob(None if got is None else len(got) == len(exp) and all(
                same(eng, a, c) is True and same(eng, b, e) is True
                for (a, b), (c, e) in zip(got, exp)), 'filter_rows_as_dict: row as dict',
               lambda: 'the filter must be given {}, but is {}'.format(
                   [(show(a), show(b)) for a, b in exp], show(d)))
        ob(same(eng, o.value, len(rejected)), 'filter_rows_as_dict: count',
           lambda: '{} rows are removed, but {} is returned'.format(len(rejected), show(o.value)))
    return h


def rules(C):
    n = 2 if C.thorough else 1
    C.explore('rewrite', rewrite(n + 1), min_ok=200)
    C.explore('append', append, min_ok=50)
    C.explore('filter', filtered(n + 1), min_ok=200)
