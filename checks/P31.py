"""Date and time formats: parser and formatter are built from the same pattern."""
import itertools
import re
try:
    from re import _parser as sre
except ImportError:     # Python < 3.11
    import sre_parse as sre

from .common import *
from .P10 import conditions

ASSUMPTIONS = ['babel formats, and dateutil parses ISO 8601, as documented']
DATES = ['yyyy-MM-dd', 'yyyyMMdd', 'dd-MM-yyyy', 'd-M-yyyy', 'MM-dd-yyyy', 'M-d-yyyy', 'dd/MM/yyyy',
         'd/M/yyyy', 'MM/dd/yyyy', 'M/d/yyyy', 'dd.MM.yyyy', 'd.M.yyyy', 'MM.dd.yyyy', 'M.d.yyyy']
TIMES = ['HH:mm:ss', 'HHmmss', 'HH:mm', 'HHmm']
FIELDS = {'yyyy': ('year', 4, 4), 'MM': ('month', 2, 2), 'dd': ('day', 2, 2), 'M': ('month', 1, 2),
          'd': ('day', 1, 2), 'HH': ('hour', 2, 2), 'mm': ('minute', 2, 2), 'ss': ('second', 2, 2)}
TZ = ['X', 'XX', 'XXX', 'x', 'xx', 'xxx', ' XXX', ' x']


def tokens(fmt):
    """fields and literals of a pattern without fraction and time zone"""
    res = []
    for m in re.finditer('y+|M+|d+|H+|m+|s+|.', fmt):
        res.append(FIELDS.get(m.group(), m.group()))
    return res


def digits(p):
    """(min, max) of a repetition of decimal digits"""
    if len(p) != 1:
        return None
    op, av = p[0]
    if str(op) not in ('MAX_REPEAT',):
        return (1, 1) if is_digit(op, av) else None
    lo, hi, sub = av
    return (lo, hi if hi < 10 ** 6 else None) if len(sub) == 1 and is_digit(*sub[0]) else None


def is_digit(op, av):
    if str(op) != 'IN':
        return False
    got = set()
    for o, a in av:
        if str(o) == 'RANGE':
            got |= set(range(a[0], a[1] + 1))
        elif str(o) == 'LITERAL':
            got.add(a)
        elif str(o) == 'CATEGORY' and str(a) == 'CATEGORY_DIGIT':
            got |= set(range(48, 58))
        else:
            return False
    return got == set(range(48, 58))


VALID = {'year': ['{:04d}'.format(i) for i in range(1, 10000)], 'month': range(1, 13),
         'day': range(1, 32), 'hour': range(24), 'minute': range(60), 'second': range(60)}


def language(p):
    """the texts a part of a pattern matches, if it consists of few digits"""
    res = {''}
    for op, av in p:
        n = str(op)
        if n == 'LITERAL':
            alt = {chr(av)}
        elif n == 'IN':
            alt = set()
            for o, a in av:
                if str(o) == 'RANGE' and a[1] - a[0] < 20:
                    alt |= {chr(i) for i in range(a[0], a[1] + 1)}
                elif str(o) == 'LITERAL':
                    alt.add(chr(a))
                elif str(o) == 'CATEGORY' and str(a) == 'CATEGORY_DIGIT':
                    alt |= set('0123456789')
                else:
                    return None
        elif n in ('MAX_REPEAT', 'MIN_REPEAT') and av[1] <= 6:
            sub = language(av[2])
            if sub is None:
                return None
            alt, cur = set(), {''}
            for i in range(av[1] + 1):
                if i >= av[0]:
                    alt |= cur
                cur = {x + y for x in cur for y in sub}
                if len(cur) > 20000:
                    return None
        elif n == 'SUBPATTERN':
            alt = language(av[-1])
        elif n == 'BRANCH':
            alt = set()
            for b in av[1]:
                sub = language(b)
                if sub is None:
                    return None
                alt |= sub
        else:
            return None
        if alt is None:
            return None
        res = {x + y for x in res for y in alt}
        if len(res) > 20000:
            return None
    return frozenset(res)


def fits(got, exp):
    """does the parser have the field (or literal) the format has?"""
    if isinstance(got, tuple) and isinstance(exp, tuple) and len(got) == 2 and isinstance(
            got[1], frozenset):
        name, lo, hi = exp[:3]
        if got[0] != name or name not in VALID:
            return False
        want = {v if isinstance(v, str) else ('0' + str(v) if i and v < 10 else str(v))
                for v in VALID[name] for i in (0, 1)}
        return {w for w in want if lo <= len(w) <= hi} <= got[1] and all(
            w.isdigit() and lo <= len(w) <= hi for w in got[1])
    return got == exp


def structure(pat):
    """A pattern as sequence of literals, fields and (optional) fractions; None if it is something
    else."""
    names = {i: n for n, i in pat.groupindex.items()}
    out = []

    def walk(p, opt):
        for op, av in p:
            n = str(op)
            if n == 'LITERAL':
                out.append(chr(av) if not opt else ('?', chr(av)))
            elif n == 'ANY':
                out.append(('any', opt))
            elif n == 'IN' and len(av) == 1 and str(av[0][0]) == 'LITERAL':
                out.append(chr(av[0][1]) if not opt else ('?', chr(av[0][1])))
            elif n == 'SUBPATTERN':
                if av[0] in names:
                    d = digits(av[-1])
                    if d is None:
                        lang = None if opt else language(av[-1])
                        if lang is None:
                            return False
                        out.append((names[av[0]], lang))
                        continue
                    out.append((names[av[0]],) + d + (('?',) if opt else ()))
                elif not walk(av[-1], opt):
                    return False
            elif n == 'MAX_REPEAT' and av[0] == 0 and av[1] == 1:
                if not walk(av[2], True):
                    return False
            elif n in ('ASSERT_NOT', 'ASSERT', 'AT'):
                pass
            else:
                return False
        return True
    return out if walk(sre.parse(pat.pattern), False) else None


def all_formats(thorough):
    for d in DATES:
        yield 'date', d, '', ''
    for t in TIMES:
        yield 'time', t, '', ''
        yield 'time', t, 'SSS', ''
    for i, (d, t) in enumerate(itertools.product(DATES, TIMES)):
        for s in 'T ':
            yield 'datetime', d + s + t, '', ''
            if thorough or i % 5 == 0:
                for n in range(1, 8) if thorough else (1, 3, 6, 7):
                    yield 'datetime', d + s + t, 'S' * n, ''
                for tz in TZ:
                    yield 'datetime', d + s + t, '', tz
                    yield 'datetime', d + s + t, 'SSS', tz
    for tz in TZ:
        yield 'time', 'HH:mm:ss', '', tz
        yield 'time', 'HHmm', 'SS', tz
        yield 'date', 'dd.MM.yyyy', '', tz


def describe(base, body, frac, tz, wrap=False):
    fmt = body + ('.' + frac if frac else '') + tz

    def h(eng, ob):
        P = eng.path
        eng.overrides = {}
        f = eng.VD([('pattern', fmt)]) if wrap else fmt
        start = len(P.events)
        o = run(eng, lambda: eng.getattr(eng.call(
            find(eng, 'csvw.metadata.Datatype'), [], {'base': base, 'format': f}), 'derived_description'))
        what = '{} format'.format(base)
        if warned(eng, start) or not o.returned or not isinstance(o.value, VDict):
            ob(False, what, lambda: 'the format {} is supported, but {}'.format(
                fmt, 'replaced with a warning' if o.returned else o.describe(eng)))
            return
        d = {k: v for k, v in o.value.pairs()}
        ob(d.get('pattern') == fmt, what + ': written pattern', lambda: 'values must be written in '
           'format {}, but the pattern is {}'.format(fmt, show(d.get('pattern'))))
        pat = d.get('regex')
        if not isinstance(pat, re.Pattern):
            ob(False if pat is None else None, what, 'no parser for ' + fmt)
            return
        exp = tokens(body)
        if frac:
            exp += [('?', '.'), ('microsecond', 1, len(frac), '?')]
        got = structure(pat)
        if got is None:
            ob(None, what, 'parser of unknown form')
            return
        extra = got[len(exp):]
        ok = len(got) >= len(exp) and all(fits(g, x) for g, x in zip(got, exp)) and (not extra or bool(frac) and extra == [
            ('?', '.'), ('extramicroseconds', len(frac) + 1, None, '?')])
        ob(ok, what + ': parser', lambda: 'format {} has the fields {}, but its parser has {}'.format(
            fmt, exp, got))
        ob(bool(d.get('tz_marker')) == bool(tz) and (not tz or d['tz_marker'].strip() == tz.strip()),
           what + ': time zone', lambda: 'the time zone marker of {} is recorded as {!r}'.format(
               fmt, d.get('tz_marker')))
    return h


def unsupported():
    for p in itertools.permutations(['yyyy', 'MM', 'dd']):
        for sep in ['-', '/', '.', '']:
            f = sep.join(p)
            if f not in DATES:
                yield 'date', f
                yield 'datetime', f + 'THH:mm'
    for f in ['yyyy', 'yy-MM-dd', 'yyyy-M-d', 'yyyy_MM_dd', 'yyyy-MM-dd X', 'MMMM d, yyyy', 'd-M.yyyy',
              'dd-M-yyyy']:
        if f != 'yyyy-MM-dd X':
            yield 'date', f
    for f in ['HH', 'hh:mm', 'HH:mm:s', 'mm:HH', 'ss:mm:HH', 'HH.mm', 'HH-mm', 'HHmm:ss', 'HH:mm:ss.',
              'HH:mm:ss.SSA', 'HH:mm:ss.ss', 'HH:mmxX', 'HH:mmXx', 'HH:mm XxX']:
        yield 'time', f
        yield 'datetime', 'yyyy-MM-ddT' + f
    for f in ['yyyy-MM-dd_HH:mm', 'yyyy-MM-ddHH:mm', 'yyyy-MM-ddTHH', 'foo', 'yyyy-MM-ddTHH:mm T']:
        yield 'datetime', f
    for f in ['yyyy-MM-ddTHH:mm:ss', 'yyyy-MM-dd', 'HH:mmX']:
        yield 'dateTimeStamp', f if f != 'HH:mmX' else 'HHX:mm'


def reject(base, fmt):
    def h(eng, ob):
        P = eng.path
        eng.overrides = {}
        start = len(P.events)
        o = run(eng, lambda: eng.call(find(eng, 'csvw.metadata.Datatype'), [],
                                      {'base': base, 'format': fmt}))
        ob(o.is_exc(eng, 'ValueError') or base == 'date' and warned(eng, start),
           '{}: unsupported format'.format(base),
           lambda: 'the format {} is not supported, but {}'.format(fmt, o.describe(eng)))
    return h


def groups_of(t, pats):
    """names of the pattern groups a term is computed from"""
    res = set()

    def walk(x):
        if isinstance(x, Term):
            if x.op == 'group' and isinstance(x.args[0], Term) and isinstance(
                    x.args[0].args[0], re.Pattern):
                names = {i: n for n, i in x.args[0].args[0].groupindex.items()}
                res.add(names.get(x.args[1], x.args[1]))
                if names:
                    pats.add(x.args[0].args[0])
                return
            for a in x.args:
                walk(a)
        elif isinstance(x, tuple):
            for a in x:
                walk(a)
    walk(t)
    return res


def field_kws(t):
    """field -> value of the (first) datetime built in a term"""
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, Term):
            if x.op == 'datetime.datetime':
                kw = {}
                pos = iter(['year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond', 'tzinfo'])
                for a in x.args:
                    if isinstance(a, Term) and a.op.startswith('kw:'):
                        kw[a.op[3:]] = a.args[0]
                    else:
                        kw[next(pos, '?')] = a
                inner = None
                for k, a in kw.items():
                    if isinstance(a, Term) and a.op in ('.' + k, 'attr:' + k, 'getattr') and a.args:
                        inner = inner or field_kws(a.args[0])
                        if inner is not None:
                            kw[k] = inner.get(k, 0)
                return kw
            stack.extend(reversed(x.args))
    return None


def reading(base, body, frac, tz):
    fmt = body + ('.' + frac if frac else '') + tz

    def h(eng, ob):
        P = eng.path
        eng.overrides = {}
        eng.raise_policy = lambda e, n, a: ['ValueError'] if n == 'dateutil.parser.isoparse' else []
        try:
            dt = mk(eng, 'csvw.metadata.Datatype', base=base, format=fmt)
            o = call(eng, dt, 'parse', S('v', 'str'))
        finally:
            eng.raise_policy = None
        what = base + ' reading'
        exp = [t[0] for t in tokens(body) if isinstance(t, tuple)] + (['microsecond'] if frac else [])
        matched = any('.match(' in t[0] and 'isnone' not in t[0] and t[2] == 0 for t in P.trail)
        if not o.returned:
            nomatch = any('match(' in t[0] for t in P.trail)
            ob(True if o.is_exc(eng, 'ValueError') and nomatch else None, what, o.describe(eng))
            return
        conds = conditions(eng, o)
        if conds is not None and 'isoparse' in show(o.value):
            ob(any(t for _, _, t in conds), what + ': tested', lambda: (
                'cells which are not in format {} are accepted: {}'.format(fmt, o.describe(eng))))
        kw = field_kws(o.value)
        if kw is None:
            return      # parsed by dateutil
        pats = set()
        srcs = {k: groups_of(v, pats) for k, v in kw.items()}
        if not pats or any('isoparse' in show(v) for v in kw.values()):
            return
        bad = [(k, s) for k, s in srcs.items() if s and k != 'tzinfo' and s != {k}]
        took = [f for f in exp if f != 'microsecond']
        missing = [f for f in took if f in srcs and not srcs[f] or f not in srcs]
        if missing and any(k not in FIELDNAMES for k in srcs):
            ob(None, what, 'date built in unknown ways: ' + show(o.value))
            return
        ob(not bad and not missing, what + ': fields', lambda: 'reading format {}: {}'.format(
            fmt, '; '.join(['{} is taken from {}'.format(k, ', '.join(map(str, s))) for k, s in bad]
                           + ['{} is not taken from the text'.format(f) for f in missing])))
        if 'microsecond' in exp and srcs.get('microsecond'):
            m = kw['microsecond']
            ok = pads(m)
            ob(ok, what + ': fraction', lambda: 'a fraction of a second must be padded to microseconds '
               'on the right, but is ' + show(m))
    return h


FIELDNAMES = ('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond', 'tzinfo')


def pads(t):
    """int of a text cut and padded with zeros to 6 digits; None if unknown"""
    seen = []
    while isinstance(t, Term):
        seen.append((t.op, t.args[1:]))
        if t.op == 'group':
            break
        t = t.args[0]
    ops = [o for o, _ in seen]
    for o, a in seen:
        if o in ('.ljust', '.rjust', '.zfill'):
            return o == '.ljust' and tuple(a) == (6, '0')
        if o == 'slice' and tuple(a[:2]) != (None, 6):
            return None
    if set(ops) <= {'int', 'group', 'slice'}:
        return False
    return None


def zone(base, body, frac, tz):
    """with a time zone marker the time zone of the text is kept"""
    fmt = body + ('.' + frac if frac else '') + tz

    def h(eng, ob):
        P = eng.path
        eng.overrides = {}
        eng.raise_policy = lambda e, n, a: ['ValueError'] if n == 'dateutil.parser.isoparse' else []
        try:
            dt = mk(eng, 'csvw.metadata.Datatype', base=base, format=fmt)
            o = call(eng, dt, 'parse', S('v', 'str'))
        finally:
            eng.raise_policy = None
        if not o.returned:
            return
        t = show(o.value)
        ob(True if 'tzinfo' in t or 'isoparse' in t or t.startswith('dateutil.parser.parse') else
           (False if field_kws(o.value) is not None else None), base + ': time zone',
           lambda: 'reading format {} gives {} without time zone'.format(fmt, t))
    return h


def strings(t):
    """the string constants in a term"""
    res, stack = [], [t]
    while stack:
        x = stack.pop()
        if isinstance(x, str):
            res.append(x)
        elif isinstance(x, Term):
            stack.extend(x.args)
        elif isinstance(x, (tuple, list)):
            stack.extend(x)
    return res


def trailing(base, cell, marker):
    """a time zone following the text of a time or date without marker in its format is kept"""
    def h(eng, ob):
        P = eng.path
        eng.overrides = {}
        eng.raise_policy = lambda e, n, a: []
        try:
            dt = mk(eng, 'csvw.metadata.Datatype', base=base)
            o = call(eng, dt, 'parse', cell + marker)
        finally:
            eng.raise_policy = None
        if o.is_exc(eng, 'ValueError'):
            ob(False, base + ': trailing time zone', lambda: '{!r} is not accepted as {}: {}'.format(
                cell + marker, base, o.describe(eng)))
            return
        t = o.value if o.returned else None
        if not isinstance(t, Term):
            ob(None, base + ': trailing time zone', o.describe(eng))
            return
        text = show(t)
        texts = strings(t)
        known = not any(w in text for w in ('tz', 'timezone', 'offset'))
        ob(True if any(s.endswith(marker) for s in texts) else
           (False if known or any(s.endswith(marker[1:]) for s in texts if len(marker) > 1) else None),
           base + ': trailing time zone',
           lambda: 'the time zone of the {} {!r} is lost: it is read as {}'.format(
               base, cell + marker, text))
        if base == 'time':
            kw = field_kws(t)
            got = [kw.get(k) for k in ('hour', 'minute', 'second')] if kw else None
            if got and all(isinstance(x, int) for x in got):
                ob(got == [10, 20, 30], base + ': fields before a time zone',
                   lambda: 'the time {!r} is read as {}'.format(cell + marker, text))
    return h


WRITERS = {'date': 'babel.dates.format_date', 'time': 'babel.dates.format_time',
           'datetime': 'babel.dates.format_datetime'}


def writing(base, body, frac, tz):
    fmt = body + ('.' + frac if frac else '') + tz

    def h(eng, ob):
        P = eng.path
        eng.overrides = {}
        dt = mk(eng, 'csvw.metadata.Datatype', base=base, format=fmt)
        v = S('v', 'datetime')
        o = call(eng, dt, 'formatted', v)
        what = base + ' writing'
        t = o.value if o.returned else None
        if not isinstance(t, Term) or t.op not in WRITERS.values():
            ob(False if not o.returned or isinstance(t, Term) and t.op == '.isoformat' else None, what,
               'writing a value in format {} {}'.format(fmt, o.describe(eng)))
            return
        kw = {a.op[3:]: a.args[0] for a in t.args if isinstance(a, Term) and a.op.startswith('kw:')}
        pos = [a for a in t.args if not (isinstance(a, Term) and a.op.startswith('kw:'))]
        f = kw.get('format', pos[1] if len(pos) > 1 else None)
        subj = pos[0] if pos else next(iter(kw.values()), None)
        ob(t.op == WRITERS[base], what + ': kind',
           lambda: 'a {} must be written by {}, but is by {}'.format(base, WRITERS[base], t.op))
        ob(f == fmt, what + ': pattern', lambda: 'a value must be written in format {}, but is in '
           '{}'.format(fmt, show(f)))
        ob(same(eng, subj, v) is True, what + ': value', lambda: 'another value is written: ' + show(subj))
        if base != 'date':
            z = kw.get('tzinfo', pos[2] if len(pos) > 2 else None)
            ob(True if z is not None and show(z) == 'v.tzinfo' or z is not None and
               'tzinfo' in show(z) else (False if tz else None), what + ': time zone',
               lambda: 'the time zone of the value must be written, but is ' + show(z))
    return h


def rules(C):
    eng = C.engine()
    fmts = list(all_formats(C.thorough))
    for i, (base, body, frac, tz) in enumerate(fmts):
        n = '{} {}{}{}'.format(base, body, '.' + frac if frac else '', tz)
        C.explore('describe ' + n, describe(base, body, frac, tz), min_ok=2, eng=eng)
        if not tz and (C.thorough or i % 3 == 0 or not frac):
            C.explore('read ' + n, reading(base, body, frac, tz), eng=eng, min_ok=1)
        if tz and base != 'date' and (not frac or i % 5 == 0 or C.thorough):
            C.explore('zone ' + n, zone(base, body, frac, tz), eng=eng, min_ok=1)
        C.explore('write ' + n, writing(base, body, frac, tz), eng=eng, min_ok=2)
    for base, cell in [('time', '10:20:30'), ('date', '2020-01-02')]:
        for m in ['Z', '+02:00', '-11:30']:
            C.explore('trailing {} {}'.format(base, m), trailing(base, cell, m), eng=eng)
    C.explore('describe dict', describe('datetime', 'yyyy-MM-dd HH:mm', '', '', wrap=True), eng=eng,
              min_ok=2)
    for base, f in unsupported():
        C.explore('reject {} {}'.format(base, f), reject(base, f), eng=eng, min_ok=1)
