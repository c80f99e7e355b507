"""Reading a table: rows, columns, errors."""
import itertools

from .tables import *

ASSUMPTIONS = ['csv.reader yields the rows of the file', 'Column.read is an arbitrary function of '
               'the cell that may raise ValueError (its rules are P06)',
               'cells contain no line breaks (line numbers with them: P02)',
               'tables of up to three described columns and two rows are analysed']


def describe_columns(eng, spec):
    """spec: list of (name, title, required, virtual)"""
    cols = []
    names = [n for n, _, _, v in spec if not v]
    for i, (name, title, req, virt) in enumerate(spec):
        kw = dict(name=name, required=req or None, virtual=virt)
        if title:
            kw['titles'] = eng.call(find(eng, 'csvw.metadata.NaturalLanguage'), [title])
        c = mk(eng, 'csvw.metadata.Column', _number=i + 1, **kw)
        if virt:
            c.attrs['valueUrl'] = S('url:' + str(name), truthy=True, notnone=True, methods={
                'expand': lambda e, a, k, name=name: T(
                    'expanded', name, *[k.get(n, 'NOT GIVEN') for n in names])})
        cols.append(c)
    return cols


def table(eng, cols, header, **kw):
    d = mk(eng, 'csvw.metadata.Dialect', header=header)
    t = mk(eng, 'csvw.metadata.Table', dialect=d, url=eng.call(
        find(eng, 'csvw.metadata.Link'), ['data.csv']), **kw)
    s = mk(eng, 'csvw.metadata.Schema', _parent=t, columns=eng.VL(cols))
    for c in cols:
        c.attrs['_parent'] = s
    t.attrs['tableSchema'] = s
    return t


def expect_rows(P, spec, header, rows, strict):
    """What reading must give: list of ('row', lineno, {name: value}) / ('error', lineno, column
    number, name); or 'rejected'"""
    regular = [(n or t, t, r) for n, t, r, v in spec if not v]
    virtual = [n for n, t, r, v in spec if v]
    names = [n for n, _, _ in regular]
    if header is None:
        head = list(names)
        base = 1
    else:
        head = list(header)
        base = 2
    # which column each cell belongs to
    if head == names or (not strict and spec):
        assigned = [regular[i] if i < len(regular) else None for i in range(len(head))]
        if not strict:
            keys = [a[0] if a else '_col.{}'.format(i + 1) for i, a in enumerate(assigned)]
        else:
            keys = names
    else:
        assigned, keys = [], []
        for h in head:
            c = next((c for c in regular if c[0] == h), None) or next(
                (c for c in regular if c[1] == h), None)
            assigned.append(c)
            keys.append(c[0] if c else h)
    if {n for n, _, r in regular if r} - {a[0] for a in assigned if a}:
        return 'rejected'
    out = []
    if header is None and not spec and rows and rows[0]:
        keys = ['_col.{}'.format(i + 1) for i in range(len(rows[0]))]
        assigned, head = [(k, None, False) for k in keys], keys
    for i, row in enumerate(rows):
        vals, errors = {}, []
        for j, (k, a, v) in enumerate(zip(keys, assigned, row)):
            typed = a or (header is None and not spec) or (not strict and header is not None and spec)
            if typed:
                if P.truth(T('readable', k, v, typ='bool')):
                    vals[k] = T('read', k, v)
                elif strict:
                    errors.append((j + 1, head[j] if head else k))
                else:
                    vals[k] = v
            else:
                vals[k] = v
        for j, (k, a) in enumerate(zip(keys, assigned)):
            if a and a[2] and j >= len(row):
                errors.append((j + 1, head[j]))
        for n in names:
            vals.setdefault(n, None)
        for n in virtual:
            vals[n] = T('expanded', n, *[vals[x] for x in names])
        out.append((base + i, errors, vals))
    return out


def check_row(eng, ob, what, got, want, lineno, fname, meta):
    if meta:
        parts = thaw_items(got)
        if not parts or len(parts) != 3:
            ob(False, what + ': metadata', lambda: 'rows must come with file and line: ' + show(got))
            return
        ob(same(eng, parts[1], lineno), what + ': line number',
           lambda: 'row of line {} is reported as line {}'.format(lineno, show(parts[1])))
        ob(same(eng, parts[0], fname), what + ': file name', lambda: show(parts[0]))
        got = parts[2]
    d = got.payload if isinstance(got, Inst) else got
    if not isinstance(d, VDict):
        ob(None if isinstance(got, (Sym, Term)) else False, what, lambda: 'row is ' + show(got))
        return
    have = dict(d.pairs())
    ok = d.rest == [] if isinstance(d.rest, list) else not d.rest
    ob(ok and set(have) == set(want), what + ': columns', lambda: 'a row has the columns {}, but '
       'must have {}'.format(sorted(map(str, have)), sorted(want)))
    for n in want:
        if n in have:
            ob(same(eng, have[n], want[n]), what + ': cells', lambda: 'column {} must hold {}, but '
               'holds {}'.format(n, show(want[n]), show(have[n])))


def scenario(specs, headers, lengths, stricts=(True, False), logs=(True, False), metas=(True,),
             blank=False):
    def h(eng, ob):
        P = eng.path

        def pick(label, xs):
            xs = list(xs)
            return xs[P.choose(label, len(xs))] if len(xs) > 1 else xs[0]
        spec = pick('columns', specs)
        header = pick('header', headers)
        strict = pick('strict', stricts)
        log = logger(eng) if pick('log', logs) else None
        meta = pick('with metadata', metas)
        n = len(header) if header is not None else len([c for c in spec if not c[3]])
        regular = [c for c in spec if not c[3]]
        if not strict and header is not None:
            # out of scope: leniently read tables whose header contradicts the description
            if n > len(regular) < len(spec):
                return
            if any(c[2] for c in spec) and any(h not in c[:2] for h, c in zip(header, regular)):
                return
        rows = [[cell('r{}c{}'.format(i, j)) for j in range(max(0, n + d))]
                for i, d in enumerate(pick('row lengths', lengths))]
        for r in rows:
            for c in r:
                if not blank:
                    P.assume(c, True)
        fname = 'dir/data.csv'
        given_rows(eng, ([] if header is None else [list(header)]) + rows)
        reading(eng)
        cols = describe_columns(eng, spec)
        t = table(eng, cols, header is not None)
        start = len(P.events)
        o = run(eng, lambda: eng.call(eng.getattr(t, 'iterdicts'), [], {
            'fname': fname, 'strict': strict, 'log': log, 'with_metadata': meta}))
        if not o.returned:
            ob(False, 'iterdicts', o.describe(eng))
            return
        got, end = collect(eng, o.value)
        exp = expect_rows(P, spec, header, rows, strict)
        desc = 'columns {}, header {}, rows of {} cells, {}: '.format(
            [c[0] for c in spec], header, [len(r) for r in rows], 'strict' if strict else 'lenient')
        if exp == 'rejected':
            ob(end is not None and end.is_exc(eng, 'ValueError') and not got,
               'a required column lacks', lambda: desc + 'must be rejected, but {} rows come and {}'.format(
                   len(got), end.describe(eng) if end else 'reading ends'))
            return
        logged = [e for e in events(eng, 'log', start)]
        want, errs, raised = [], [], None
        for lineno, errors, vals in exp:
            if errors:
                if log is None:
                    raised = (lineno, errors[0])
                    break
                errs.extend((lineno, e) for e in errors)
            else:
                want.append((lineno, vals))
        if raised:
            ob(end is not None and end.is_exc(eng, 'ValueError'), 'invalid cell: error',
               lambda: desc + 'an invalid row must raise ValueError, but ' + (
                   end.describe(eng) if end else 'reading goes on'))
            if end is not None and end.is_exc(eng, 'ValueError'):
                located(ob, 'invalid cell: message', text_of(end.raised.exc), fname, *raised)
        else:
            ob(end is None, 'reading goes on', lambda: desc + 'reading ends early: ' + end.describe(eng))
            ob(len(logged) == len(errs), 'errors logged', lambda: desc + '{} errors logged instead of '
               '{}'.format(len(logged), len(errs)))
            for e, (lineno, err) in zip(logged, errs):
                located(ob, 'errors logged: message', text_of(e.args[1]), fname, lineno, err)
        ob(len(got) == len(want), 'number of rows', lambda: desc + '{} rows read instead of {}'.format(
            len(got), len(want)))
        for g, (lineno, w) in zip(got, want):
            check_row(eng, ob, 'row', g, w, lineno, fname, meta)
        unspec = strict and header is not None and [
            h for h in header if not any(h in (c[0], c[1]) for c in spec if not c[3])]
        anyrow = [r for r in rows]
        if unspec and rows and not raised and all(len(r) >= n for r in anyrow):
            ob(warned(eng, start), 'unspecified column: warning', lambda: desc + 'no warning')
        if strict and not unspec and len(set(spec)) == len(spec):
            ob(not warned(eng, start), 'no spurious warning', lambda: desc + 'warns')
    return h


def located(ob, what, text, fname, lineno, err):
    j, name = err
    t = text.replace('\0', '')
    ob(fname in t and str(lineno) in t and str(j) in t and str(name) in t, what,
       lambda: 'the message must name file {}, line {}, column {} ({}): {!r}'.format(
           fname, lineno, j, name, t))


def rules(C):
    A, B = ('a', None, False, False), ('b', 'T', False, False)
    AR, BR = ('a', None, True, False), ('b', 'T', True, False)
    V, W = ('v', None, False, True), ('w', None, False, True)
    heads = [None, ('a', 'b'), ('b', 'a'), ('a', 'T'), ('T', 'a'), ('a',), ('b',), ('T',),
             ('a', 'x', 'b'), ('b', 'x', 'a'), ('x',), ('x', 'y'), ('a', 'b', 'x')]
    lens = [(), (0,), (-1,), (1,), (0, 0), (-1, 0), (-9, 0)]
    C.explore('cells', scenario([[A, B]], [None, ('b', 'a')], [(0, 0)], blank=True), min_ok=1000,
              max_paths=100000)
    C.explore('headers', scenario([[A, B, V, W]], heads, [(0,), (-1,)], blank=True), min_ok=1000,
              max_paths=100000)
    C.explore('required', scenario([[AR, B], [A, BR], [AR, BR, V]], heads, [(), (0,), (-1,)]),
              min_ok=1000, max_paths=100000)
    C.explore('row-lengths', scenario([[A, B], [AR, BR, V]], [None, ('b', 'a')] + (
        heads[1:] if C.thorough else []), [(), (1,), (-1, 0), (-9, 0), (0, -1)]), min_ok=1000,
        max_paths=500000)
    C.explore('plain-rows', scenario([[A, B], [A, B, V]], [None, ('b', 'a')], [(0, 0)],
                                     metas=(False,)), min_ok=100)
    C.explore('undescribed', scenario([[]], [('a', 'b')], [(0,), (0, 0)]), min_ok=5)
    C.explore('bare', scenario([[]], [None], [(2,), (2, 2), (2, 1)], logs=(True,)), min_ok=5)
