"""Reading and writing with one dialect use the same CSV format."""
import codecs
import csv

from .tables import *

ASSUMPTIONS = ['csv.reader and csv.writer implement the format their parameters describe '
               '(csv.writer escapes escape characters, as it does since Python 3.10)']
DEFAULTS = dict(delimiter=',', doublequote=True, escapechar=None, lineterminator='\r\n',
                quotechar='"', skipinitialspace=False, strict=False, quoting=csv.QUOTE_MINIMAL)
CODECS = {'utf-8': 'utf-8', 'UTF-8': 'utf-8', 'UTF-8-BOM': 'utf-8-sig', 'latin-1': 'iso8859-1', 'utf-16': 'utf-16'}


def codec_name(v):
    if not isinstance(v, str):
        return v
    try:
        return codecs.lookup(v).name
    except LookupError:
        return v


def fmt(eng, name, start):
    """the format handed to csv.reader or csv.writer, and its source or target"""
    ev = [e for e in eng.path.events[start:] if e.name == name]
    if len(ev) != 1:
        return None, None
    kw = dict(ev[0].kw or {})
    args = list(ev[0].args)
    f = args.pop(0) if args else kw.pop('csvfile', None)
    if args:
        kw['dialect'] = args[0]
    return kw, f


def enter(eng, cls, f, *a, **kw):
    return run(eng, lambda: eng.enter(eng.call(find(eng, 'csvw.dsv.' + cls), [f] + list(a), kw)))


def dialects(meta):
    def h(eng, ob):
        P = eng.path
        (delim, delim2), quote = distinct(eng, 'delimiter', 2), S('quote', 'str')
        for x in (delim, delim2, quote):
            P.assume(x, True)
        strictly = P.choose('initial spaces skipped', 2) == 1
        q = [quote, None][P.choose('quote character given', 2)]
        dq = P.choose('quotes doubled', 2) == 0
        lt = [['\n'], '\r', ['\r\n', '\n']][P.choose('line terminators', 3)]
        enc = list(CODECS)[P.choose('encoding', len(CODECS))]
        d = mk(eng, meta, delimiter=delim, quoteChar=q, doubleQuote=dq, skipInitialSpace=strictly,
               lineTerminators=eng.VL(lt) if isinstance(lt, list) else lt, encoding=enc,
               trim=['false', 'start'][P.choose('trim', 2)], skipBlankRows=True)
        over = {}
        if P.choose('an option is overridden', 2) == 1:
            over = {'delimiter': delim2}
        want = dict(DEFAULTS, delimiter=over.get('delimiter', delim), doublequote=dq, quotechar=q,
                    skipinitialspace=strictly, strict=True,
                    escapechar='\\' if not dq and q is not None else None,
                    lineterminator=lt[0])
        codec = CODECS[enc]
        both(eng, ob, want, codec, 'utf-8-sig' if codec == 'utf-8' else codec,
             dict(over, dialect=d), 'dialect')
    return h


def both(eng, ob, want, wcodec, rcodec, kw, what):
    P = eng.path
    for cls, lib, mode, codec in (('UnicodeWriter', 'csv.writer', 'w', wcodec),
                                  ('UnicodeReader', 'csv.reader', 'r', rcodec)):
        path = S('path', 'str') if P.choose('a path is given as text', 2) == 0 else T(
            'pathlib.Path', S('p', 'str'), typ='path')
        start = len(P.events)
        o = enter(eng, cls, path, **kw)
        if not o.returned:
            ob(False, cls + ': ' + what, o.describe(eng))
            continue
        got, f = fmt(eng, lib, start)
        if got is None:
            ob(None, cls + ': ' + what, 'no single call of ' + lib)
            continue
        if got.get('dialect') is not None and 'dialect' not in want:
            ob(None, cls + ': ' + what, 'a dialect object is used')
            continue
        for k in sorted(set(want) | set(got)):
            if lib == 'csv.reader' and k == 'lineterminator':
                continue
            if k == 'quoting' and k not in want:
                continue
            w = want.get(k, DEFAULTS.get(k))
            g = got.get(k, DEFAULTS.get(k))
            if k == 'quoting' and want.get('quotechar', '') is None:
                w = csv.QUOTE_NONE if k in got else w
            ob(same(eng, g, w), '{}: {}'.format(cls, k), lambda: '{}: {} must be {}, but is {}'.format(
                what, k, show(w), show(g)))
        opens = events(eng, 'open', start)
        if len(opens) != 1:
            ob(False if len(opens) > 1 else None, cls + ': file', '{} files opened'.format(len(opens)))
            continue
        k = opens[0].kw
        ob(same(eng, codec_name(k.get('encoding')), codec), cls + ': encoding', lambda: 'the file must be opened '
           'with encoding {}, but {} is used'.format(codec, show(k.get('encoding'))))
        ob(same(eng, k.get('newline'), ''), cls + ': newlines', lambda: 'line breaks must not be '
           'translated, but newline={}'.format(show(k.get('newline'))))
        m = k.get('mode', 'r')
        ob(isinstance(m, str) and 'b' not in m and mode in m and '+' not in m, cls + ': mode',
           lambda: 'file mode ' + show(m))
        ob(key(f) == key(opens[0].result), cls + ': file used', lambda: show(f))


def options(eng, ob):
    """options given without a dialect"""
    P = eng.path
    names = ['delimiter', 'quotechar', 'escapechar']
    kw = {n: S(n, 'str') for n in names if P.choose(n + ' given', 2) == 0}
    for v in kw.values():
        P.assume(v, True)
    if P.choose('quoting', 2) == 1:
        kw['quoting'] = csv.QUOTE_NONE
    want = dict(DEFAULTS, **kw)
    rc = wc = 'utf-8'
    if P.choose('encoding given', 2) == 1:
        kw['encoding'], rc, wc = 'latin-1', 'iso8859-1', 'iso8859-1'
    both(eng, ob, want, wc, 'utf-8-sig' if rc == 'utf-8' else rc, kw, 'options')


def named(eng, ob):
    both(eng, ob, {'dialect': 'excel-tab'}, 'utf-8', 'utf-8-sig', {'dialect': 'excel-tab'}, 'name')


def memory(eng, ob):
    """text in memory, file objects of the caller"""
    P = eng.path
    start = len(P.events)
    o = enter(eng, 'UnicodeWriter', None)
    got, f = fmt(eng, 'csv.writer', start)
    made = [e for e in P.events[start:] if e.name in ('io.StringIO',)]
    ob(o.returned and len(made) == 1 and key(f) == key(made[0].result) and
       same(eng, (made[0].kw or {}).get('newline', made[0].args[1] if len(made[0].args) > 1 else '\n'), '')
       is True if made else None, 'UnicodeWriter: memory',
       lambda: 'without target, the data must be collected in memory, with line breaks kept')
    fobj = S('fileobj', typ='file', methods={'read': lambda e, a, k: S('content', 'str'),
                                 'write': lambda e, a, k: None}, notnone=True, truthy=True)
    for cls, lib in (('UnicodeReader', 'csv.reader'),):
        start = len(P.events)
        o = enter(eng, cls, fobj)
        got, f = fmt(eng, lib, start)
        ob(o.returned and got is not None and key(f) == key(fobj), cls + ': file object',
           lambda: 'the file object must be read, but ' + show(f))
        ob(not events(eng, 'open', start), cls + ': file object', 'a file is opened')
    a, b = S('line1', 'str'), S('line2', 'bytes')
    start = len(P.events)
    o = enter(eng, 'UnicodeReader', eng.VL([a, b]))
    got, f = fmt(eng, 'csv.reader', start)
    items = thaw_items(f) if f is not None else None
    ob(items is not None and len(items) == 2 and key(items[0]) == key(a) and isinstance(
        items[1], Term) and 'decode' in items[1].op and key(items[1].args[0]) == key(b),
       'UnicodeReader: lines', lambda: 'lines must be read as text, but ' + show(f))


def rows_written(eng, ob):
    """cells go to csv.writer as they are"""
    P = eng.path
    kw = {}
    if P.choose('escape character', 2) == 1:
        kw['escapechar'] = '\\'
    if P.choose('quoting', 2) == 1:
        kw['quoting'] = csv.QUOTE_NONE
    if P.choose('dialect', 2) == 1:
        kw = {'dialect': mk(eng, 'csvw.dsv_dialects.Dialect', doubleQuote=False)}
    row = [S('c1', 'str'), None, S('c2', 'int'), S('c3', 'str')]
    start = len(P.events)
    o = enter(eng, 'UnicodeWriter', S('path', 'str'), **kw)
    if not o.returned:
        ob(False, 'writerow', o.describe(eng))
        return
    if P.choose('several rows', 2) == 0:
        r = call(eng, o.value, 'writerow', eng.VL(row))
        n = 1
    else:
        r = call(eng, o.value, 'writerows', eng.VL([eng.VL(row), eng.VL(row)]))
        n = 2
    got = [e.args[-1] for e in P.events[start:] if e.name == '.writerow']
    for e in P.events[start:]:
        if e.name == '.writerows':
            got.extend(thaw_items(e.args[-1]) or [S('unknown')])
    ob(r.returned and len(got) == n, 'writerow: rows', lambda: '{} rows written instead of {}; {}'.format(
        len(got), n, r.describe(eng)))
    for g in got:
        items = thaw_items(g)
        ob(None if items is None else len(items) == len(row) and all(
            same(eng, x, y) is True for x, y in zip(items, row)), 'writerow: cells',
           lambda: 'cells {} are written as {}'.format([show(x) for x in row], show(g)))


def rules(C):
    C.explore('dialect', dialects('csvw.dsv_dialects.Dialect'), min_ok=500)
    C.explore('metadata-dialect', dialects('csvw.metadata.Dialect'), min_ok=500)
    C.explore('options', options, min_ok=200)
    C.explore('named-dialect', named, min_ok=3)
    C.explore('memory', memory, min_ok=4)
    C.explore('cells', rows_written, min_ok=10)
