"""Rows are skipped, trimmed and numbered as the dialect says."""
from .tables import *
from csvwlint import ext

ASSUMPTIONS = ['csv.reader yields the rows of the text, line breaks within cells being \\n']
KINDS = ['data', 'comment', 'empty', 'blank', 'multiline', 'space', 'late']
PREFIX = '#'


def row_of(kind, i):
    """(cells, number of line breaks within cells)"""
    a, b, c = (S('c{}{}'.format(i, j), 'str') for j in range(3))
    x, y = T('cat', 'x', a, typ='str'), T('cat', 'y', b, typ='str')
    if kind == 'data':
        return [x, y, c], {}
    if kind == 'comment':
        return [T('cat', PREFIX, a, typ='str'), y], {}
    if kind == 'empty':
        return [], {}
    if kind == 'blank':
        return ['', ''], {}
    if kind == 'multiline':
        return [x, y], {key(x): 1, key(y): 2}
    if kind == 'space':
        return [' ', ''], {}
    return [x, T('cat', PREFIX, b, typ='str')], {}   # the prefix not at the start


TRIM = {'true': 'strip', 'start': 'lstrip', 'end': 'rstrip'}


def trimmed(eng, v, how):
    return ext.call_method(eng, v, TRIM[how], [], {}) if how in TRIM else v


def read_rows(eng, ob, cls, rows, breaks, dialect, opts):
    given_rows(eng, rows)

    def count(e, a, k):
        if a[1:] != ['\n']:
            return _NO
        v = a[0]
        if isinstance(v, (VList, tuple)):
            items = thaw_items(v)     # the characters of a cell
            if len(items) == 1 and isinstance(items[0], Rest):
                v = items[0].src
            elif all(isinstance(x, str) for x in items):
                v = ''.join(items)
            else:
                return _NO
        if isinstance(v, str):
            return v.count('\n')
        return breaks.get(key(v), 0)
    eng.ext_overrides['.count'] = count
    kw = {} if dialect is None else {'dialect': dialect}
    o = run(eng, lambda: eng.enter(eng.call(find(eng, 'csvw.dsv.' + cls), [S('path', 'str')], kw)))
    if not o.returned:
        ob(False, cls, o.describe(eng))
        return
    items, end = collect(eng, o.value)
    # what should come out
    want, dropped, line = [], 0, 0
    for r in rows:
        line += 1 + sum(breaks.get(key(c), 0) for c in r)
        first = r[0] if r else ''
        lead = first if isinstance(first, str) else first.args[0]
        if opts is not None:
            if opts['commentPrefix'] and r and lead.startswith(opts['commentPrefix']):
                dropped += 1
                continue
            if line <= opts['skipRows']:
                continue
            if opts['skipBlankRows'] and all(c == '' for c in r):
                continue
            cells = [trimmed(eng, c, opts['trim']) for c in r][opts['skipColumns']:]
        else:
            cells = list(r)
        want.append((line, cells))
    ob(end is None, cls + ': end', lambda: 'reading fails: ' + end.describe(eng))
    got = []
    for v in items:
        if cls == 'UnicodeReaderWithLineNumber':
            v = thaw_items(v) if not isinstance(v, tuple) else list(v)
            got.append((v[0], thaw_items(v[1])))
        else:
            got.append((None, thaw_items(v)))
    shown = lambda rs: [[show(c) for c in r[1] or ['?']] for r in rs]  # noqa: E731
    ob(len(got) == len(want), cls + ': rows',
       lambda: 'of the rows {}, {} must be read, but {} are'.format(
           shown([(0, r) for r in rows]), shown(want), shown(got)))
    for (n, g), (line, w) in zip(got, want):
        ok = None if g is None else len(g) == len(w) and all(
            same(eng, x, y) is True for x, y in zip(g, w))
        ob(ok, cls + ': cells', lambda: 'the row must be read as {}, but is {}'.format(
            [show(x) for x in w], [show(x) for x in g or ['?']]))
        if n is not None:
            ob(same(eng, n, line), cls + ': line number',
               lambda: 'the row ends on line {}, but line {} is reported; rows {}'.format(
                   line, show(n), shown([(0, r) for r in rows])))
    if opts is not None:
        c = run(eng, lambda: eng.getattr(o.value, 'comments'))
        cs = thaw_items(c.value) if c.returned else None
        ob(cs is not None and len(cs) >= dropped and (
            len(cs) == dropped or opts['skipRows'] > 0), cls + ': comments',
           lambda: '{} rows are comments, {} are recorded'.format(
               dropped, 'none' if cs is None else len(cs)))


def build(eng, meta, opts):
    return eng.call(find(eng, meta), [], dict(opts))


def reader(cls, meta, n, kinds=KINDS):
    def h(eng, ob):
        P = eng.path
        opts = dict(commentPrefix=[None, PREFIX][P.choose('comment prefix', 2)],
                    skipBlankRows=P.choose('skip blank rows', 2) == 1,
                    skipRows=P.choose('rows to skip', 3),
                    skipColumns=P.choose('columns to skip', 2),
                    trim=['false', 'true'][P.choose('trim', 2)])
        given(eng, ob, cls, meta, n, opts, kinds)
    return h


def given(eng, ob, cls, meta, n, opts, kinds):
    P = eng.path
    rows, breaks = [], {}
    for i in range(n):
        r, b = row_of(kinds[P.choose('row {}'.format(i + 1), len(kinds))], i)
        rows.append(r)
        breaks.update(b)
    read_rows(eng, ob, cls, rows, breaks, build(eng, meta, opts), opts)


def cells(cls, meta):
    """all modes of trimming and any number of columns to skip"""
    def h(eng, ob):
        P = eng.path
        opts = dict(commentPrefix=PREFIX, skipBlankRows=P.choose('skip blank rows', 2) == 1,
                    skipRows=[0, 5][P.choose('rows to skip', 2)],
                    skipColumns=P.choose('columns to skip', 4),
                    trim=['false', 'true', 'start', 'end', True, False][P.choose('trim', 6)])
        d = build(eng, meta, opts)
        opts['trim'] = str(opts['trim']).lower()
        rows, breaks = [], {}
        for i, k in enumerate(['multiline', 'comment', 'space', 'data', 'blank', 'data']):
            r, b = row_of(k, i)
            rows.append(r)
            breaks.update(b)
        read_rows(eng, ob, cls, rows, breaks, d, opts)
    return h


def plain(eng, ob):
    P = eng.path
    cls = ['UnicodeReader', 'UnicodeReaderWithLineNumber'][P.choose('reader', 2)]
    rows, breaks = [], {}
    for i in range(3):
        r, b = row_of(KINDS[P.choose('row {}'.format(i + 1), len(KINDS))], i)
        rows.append(r)
        breaks.update(b)
    read_rows(eng, ob, cls, rows, breaks, None, None)


def rules(C):
    n = 3 if C.thorough else 2
    D = 'csvw.dsv_dialects.Dialect', 'csvw.metadata.Dialect'
    C.explore('rows', reader('UnicodeReaderWithLineNumber', D[0], n), min_ok=1000)
    C.explore('rows-metadata-dialect', reader('UnicodeReader', D[1], n), min_ok=1000)
    C.explore('rows-sequence', lambda eng, ob: given(
        eng, ob, 'UnicodeReaderWithLineNumber', D[1], n + 1,
        dict(commentPrefix=PREFIX, skipBlankRows=True,
             skipRows=eng.path.choose('rows to skip', 3), skipColumns=0, trim='false'),
        KINDS[:5]), min_ok=500)
    for d in D:
        C.explore('cells-' + d.split('.')[1], cells('UnicodeReaderWithLineNumber', d), min_ok=100)
    C.explore('no-dialect', plain, min_ok=500)
