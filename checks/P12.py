"""Boolean tokens, decimal and group characters: reading and writing use the same ones."""
import decimal
import re

from csvwlint.values import Match
from .common import *

ASSUMPTIONS = ['decimal.Decimal parses plain decimal notation, format and babel write "." and ","',
               'decimal and group character are distinct characters other than digits, signs, % and e']
CONFIGS = [(None, None), ('.', ','), (' ', ','), (' ', None), ("'", '.'), (None, ','), (',', '.'),
           ('_', ','), ('.', '\u066b'), ('*', ','), ('$', '.'), ('\u00a0', ',')]


def image(eng, t, base, c):
    """What becomes of character c of `base` in the string t computed from it; None if unknown."""
    if key(t) == key(base):
        return c
    if not isinstance(t, Term):
        return None
    if t.op == '.replace' and len(t.args) == 3:
        x, a, b = t.args
        s = image(eng, x, base, c)
        if s is None or not isinstance(a, str) or not isinstance(b, str) or len(a) != 1:
            return None
        return s.replace(a, b)
    if t.op == 're.sub' and len(t.args) == 3 or t.op == '.sub' and len(t.args) == 3:
        pat, rep, x = t.args
        s = image(eng, x, base, c)
        if s is None:
            return None
        try:
            pat = re.compile(pat) if isinstance(pat, str) else pat
            if not isinstance(pat, re.Pattern):
                return None
            if any(len(m.group()) != 1 for m in pat.finditer('.,' + s + 'x1-')):
                return None
            if isinstance(rep, str):
                return pat.sub(rep, s)
            out = ''
            for ch in s:
                m = pat.match(ch)
                if not m:
                    out += ch
                    continue
                r = eng.call(rep, [Match(m)], {})
                if not isinstance(r, str):
                    return None if r is not None else out
                out += r
            return out
        except re.error:
            return None
        except Raised as e:
            return '({})'.format(show(eng.exc_class(e.exc)))
    if t.op == '.translate' and len(t.args) == 2 and isinstance(t.args[1], Term) \
            and t.args[1].op == 'dict':
        s = image(eng, t.args[0], base, c)
        tab = {}
        for a in t.args[1].args:
            if isinstance(a, Rest):
                return None
            tab[a[0]] = a[1]
        if s is None or not all(isinstance(x, (str, int, type(None))) for x in tab.values()):
            return None
        return s.translate(tab)
    if t.op in ('join', '.join') and len(t.args) == 2 and isinstance(t.args[0], str) and isinstance(
            t.args[1], Term) and t.args[1].op == '.split' and len(t.args[1].args) == 2:
        x, a = t.args[1].args
        s = image(eng, x, base, c)
        if s is None or not isinstance(a, str) or len(a) != 1:
            return None
        return s.replace(a, t.args[0])
    if t.op in ('str', '.strip') and len(t.args) == 1:
        return image(eng, t.args[0], base, c)
    return None


def fmtdict(eng, g, d, pattern=None):
    items = [('groupChar', g), ('decimalChar', d), ('pattern', pattern)]
    return eng.VD([(k, v) for k, v in items if v is not None])


def check_map(eng, ob, t, base, expected, what, side):
    for c, exp in expected.items():
        got = image(eng, t, base, c)
        if got is None:
            ob(None, what, 'text computed in unknown ways: ' + show(t))
            return
        if got != exp:
            ob(False, what, lambda: '{} must turn {!r} into {!r}, but it becomes {!r} (in {})'.format(
                side, c, exp, got, show(t)))
            return
    ob(True, what)


def reading(base, g, d, pattern):
    def h(eng, ob):
        P = eng.path

        def is_valid(e, a, k):
            e.event('is_valid', [a[-1]])
            return True
        eng.overrides = {'csvw.datatypes.NumberPattern.is_valid': is_valid}
        fmt = fmtdict(eng, g, d, pattern)
        dt = mk(eng, 'csvw.metadata.Datatype', base=base, **({'format': fmt} if fmt.d else {}))
        v = S('v', 'str')
        P.assume(T('in', 'e', T('.lower', v, typ='str'), typ='bool'), False)
        for s in ('INF', '-INF', 'NaN'):
            P.assume(T('eq', v, s, typ='bool'), False)
        o = call(eng, dt, 'parse', v)
        what = 'reading with group {!r}, decimal {!r}{}'.format(g, d, ', pattern' if pattern else '')
        plain = {c: c for c in '0123456789+-'}
        for e in events(eng, 'is_valid'):
            check_map(eng, ob, e.args[0], v, dict(plain, **{g or ',': ',', d or '.': '.'}),
                      what + ': pattern test', 'comparing a cell with its pattern')
        if not o.returned:
            repeated = any(('{' in t[0] or 'search' in t[0] or 'in v' in t[0] or 'match' in t[0])
                           for t in P.trail)
            ob(True if o.is_exc(eng, 'ValueError') and repeated else None, what, o.describe(eng))
            return
        r = o.value
        if isinstance(r, Term) and r.op == 'mul' and isinstance(r.args[1], decimal.Decimal):
            factor, r = r.args[1], r.args[0]
        elif isinstance(r, Term) and r.op == 'mul' and isinstance(r.args[0], decimal.Decimal):
            factor, r = r.args[0], r.args[1]
        elif isinstance(r, Term) and r.op in ('truediv', 'div') and isinstance(
                r.args[1], (int, decimal.Decimal)):
            factor, r = 1 / decimal.Decimal(r.args[1]), r.args[0]
        else:
            factor = decimal.Decimal(1)
        if not (isinstance(r, Term) and r.op == 'decimal.Decimal' and len(r.args) == 1):
            ob(None, what, 'computed in unknown ways: ' + show(r))
            return
        t = r.args[0]
        exp = dict(plain)
        gone = g if g else (',' if pattern and ',' in pattern else None)
        if gone:
            exp[gone] = ''
        point = d or '.'
        exp[point] = '.'
        # scaling
        pos = {c: None for c in '%‰'}
        for tr in P.trail:
            for c in pos:
                if tr[0].startswith("'{}' in ".format(c)):
                    pos[c] = tr[2] == 0
        possible = {decimal.Decimal('0.01'): pos['%'] is not False,
                    decimal.Decimal('0.001'): pos['‰'] is not False and not (pos['%'] and not pos['‰']),
                    decimal.Decimal(1): not (pos['%'] or pos['‰'])}
        labels = ' '.join(tr[0] for tr in P.trail)
        for c in pos:
            if pos[c] is None and c not in labels and not (pos['%'] or pos['‰']) and factor == 1:
                # the cell may contain the sign as well
                possible[factor] = False
        if not possible.get(factor):
            ob(False, what + ': scale', lambda: 'a cell {} must be scaled by {}, but is by {}'.format(
                ', '.join('{} {}'.format('with' if p else 'perhaps with' if p is None else 'without', c)
                          for c, p in pos.items()),
                ' or '.join(str(f) for f, p in possible.items() if p) or 'its sign', factor))
        elif list(possible.values()).count(True) > 1 and not (pos['%'] and pos['‰']):
            ob(None, what + ': scale', 'scaling decided in unknown ways')
        else:
            for c in pos:
                if pos[c] and factor == (decimal.Decimal('0.01') if c == '%' else decimal.Decimal('0.001')):
                    exp[c] = ''
            ob(True, what + ': scale')
        check_map(eng, ob, t, v, exp, what, 'reading')
    return h


def writing(base, g, d, pattern):
    def h(eng, ob):
        P = eng.path
        eng.overrides = {}
        fmt = fmtdict(eng, g, d, pattern)
        dt = mk(eng, 'csvw.metadata.Datatype', base=base, **({'format': fmt} if fmt.d else {}))
        v = S('v', 'decimal' if base == 'decimal' else 'int')
        for s in ('Infinity', '-Infinity', 'NaN'):
            P.assume(T('eq', T('str', v, typ='str'), s, typ='bool'), False)
        o = call(eng, dt, 'formatted', v)
        what = 'writing with group {!r}, decimal {!r}{}'.format(g, d, ', pattern' if pattern else '')
        if not o.returned:
            ob(False, what, 'writing a number ' + o.describe(eng))
            return
        root = source(o.value)
        if root is None:
            ob(None, what, 'computed in unknown ways: ' + show(o.value))
            return
        if pattern and root.op != 'babel.numbers.format_decimal' or \
                not pattern and root.op not in ('fmt', 'str'):
            ob(None, what, 'written in unknown ways: ' + show(root))
            return
        if not pattern:
            spec = root.args[1] if root.op == 'fmt' and len(root.args) > 1 else ''
            grouped = isinstance(spec, str) and (',' in spec or '_' in spec)
            if grouped != (g is not None):
                ob(False, what + ': grouping', lambda: 'digits must {}be grouped, but are written '
                   'as {}'.format('' if g else 'not ', show(root)))
            else:
                ob(True, what + ': grouping')
        exp = {c: c for c in '0123456789-'}
        exp['.'] = d or '.'
        exp[','] = g or ','
        if not pattern and g is None:
            del exp[',']
        check_map(eng, ob, o.value, root, exp, what, 'writing')
    return h


def source(t):
    """the formatted number a string is computed from"""
    while isinstance(t, Term):
        if t.op in ('fmt', 'babel.numbers.format_decimal') or t.op == 'str' and not (
                isinstance(t.args[0], Term) and t.args[0].typ == 'str'):
            return t
        if t.op in ('.replace', '.translate', 'str', '.strip'):
            t = t.args[0]
        elif t.op in ('re.sub', '.sub') and len(t.args) == 3:
            t = t.args[2]
        elif t.op in ('join', '.join') and isinstance(t.args[1], Term) and t.args[1].op == '.split':
            t = t.args[1].args[0]
        else:
            return None
    return None


def boolean(fmt):
    def h(eng, ob):
        P = eng.path
        eng.overrides = {}
        f = S('format', 'str') if fmt is Ellipsis else fmt
        if fmt is Ellipsis:
            P.assume(f, True)
            P.assume(T('eq', T('.count', f, '|', typ='int'), 1, typ='bool'), True)
            sp = T('.split', f, '|', typ='list', elemtyp='str')
            true, false = [eng.item(sp, 0)], [eng.item(sp, 1)]
        else:
            true, false = [[x] for x in fmt.split('|')] if fmt else (['true', '1'], ['false', '0'])
        dt = mk(eng, 'csvw.metadata.Datatype', base='boolean', **({'format': f} if f else {}))
        w = P.choose('operation', 3)
        if w:
            b = w == 1
            o = call(eng, dt, 'formatted', b)
            exp = (true if b else false)[0]
            ob(ret(eng, o, exp), 'writing {}'.format(b).lower(), lambda: '{} must be written as {}, but '
               '{}'.format(b, show(exp), o.describe(eng)))
            return
        v = S('v', 'str')
        o = call(eng, dt, 'read', v)
        if any(P.eq(v, x) for x in true):
            ob(ret(eng, o, True), 'reading a true token', lambda: 'a true token ' + o.describe(eng))
        elif any(P.eq(v, x) for x in false):
            ob(ret(eng, o, False), 'reading a false token', lambda: 'a false token ' + o.describe(eng))
        else:
            ob(o.is_exc(eng, 'ValueError'), 'reading another token',
               lambda: 'a text which is neither of the two tokens ' + o.describe(eng))
    return h


def rules(C):
    eng = C.engine()
    for i, f in enumerate([None, 'Y|N', '1|0', Ellipsis]):
        C.explore('boolean-{}'.format(i), boolean(f), min_ok=5, eng=eng,
                  statement='exactly the two tokens are read, and written for the same values')
    for base in ['decimal', 'integer'] if C.thorough else ['decimal']:
        for g, d in CONFIGS:
            for pattern in (None, '#,##0.0#' if g else '0.0#'):
                n = '{}-{}-{}{}'.format(base, g, d, '-pattern' if pattern else '')
                if base == 'decimal':
                    C.explore('read-' + n, reading(base, g, d, pattern), min_ok=1, eng=eng,
                              statement='group removed, decimal character becomes a point, % and ‰ scale')
                C.explore('write-' + n, writing(base, g, d, pattern), min_ok=1, eng=eng,
                          statement='point and comma become decimal and group character')
