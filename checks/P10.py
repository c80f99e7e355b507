"""Built-in datatypes: names, kinds of values, integer ranges, formats of text types."""
import decimal
import re

from csvwlint.path import mentions
from .common import *
from .P08 import TEXT

ASSUMPTIONS = ['decimal.Decimal.as_integer_ratio gives the value in lowest terms',
               'the regular expression engine is that of Python']
INF = float('inf')
RANGES = {
    'integer': (-INF, INF), 'int': (-INF, INF),
    'nonNegativeInteger': (0, INF), 'positiveInteger': (1, INF),
    'nonPositiveInteger': (-INF, 0), 'negativeInteger': (-INF, -1),
    'byte': (-2 ** 7, 2 ** 7 - 1), 'short': (-2 ** 15, 2 ** 15 - 1),
    'long': (-2 ** 63, 2 ** 63 - 1),
    'unsignedByte': (0, 2 ** 8 - 1), 'unsignedShort': (0, 2 ** 16 - 1),
    'unsignedInt': (0, 2 ** 32 - 1), 'unsignedLong': (0, 2 ** 64 - 1),
}
KINDS = {
    'float': ['float'], 'number': ['float'], 'double': ['float'],
    'decimal': ['decimal.Decimal'],
    'json': ['json.loads', 'json.JSONDecoder'],
    'base64Binary': ['base64.decodebytes', 'base64.b64decode', 'base64.standard_b64decode',
                     'binascii.a2b_base64'],
    'hexBinary': ['binascii.unhexlify', 'binascii.a2b_hex', 'bytes.fromhex'],
    'duration': ['isodate.parse_duration'],
}
KINDS['binary'] = KINDS['base64Binary']
KINDS['dayTimeDuration'] = KINDS['yearMonthDuration'] = KINDS['duration']
PLAIN = 'string xml html QName gDay gMonth gMonthDay gYear gYearMonth'.split()
OTHER = 'anyURI NMTOKEN normalizedString boolean date time datetime dateTime dateTimeStamp'.split()
FORMATTED = PLAIN + ['anyURI', 'NMTOKEN', 'normalizedString']
MATCH = ('.match', '.fullmatch', '.search', 're.match', 're.fullmatch', 're.search')
PROBES = ['a', 'ab', 'abx', 'xa', 'xab', 'a\n', 'ab\n', 'b', 'aa', 'x', 'a b', 'ba', 'a\nab', 'x\na',
          'ab\nx', 'A', 'AB', 'aab']


def ratio(base):
    lo, hi = RANGES[base]

    def h(eng, ob):
        P = eng.path
        num, den = S('numerator', 'int'), S('denominator', 'int')
        P.assume(T('lt', den, 1, typ='bool'), False)
        d = S('parsed', 'decimal', methods={'as_integer_ratio': lambda e, a, k: (num, den)})
        eng.overrides = {'csvw.datatypes.decimal.to_python': lambda e, a, k: d}
        dt = mk(eng, 'csvw.metadata.Datatype', base=base)
        o = call(eng, dt, 'read', S('v', 'str'))
        what = '{} range'.format(base)
        if not P.eq(den, 1):
            good = False
        else:
            good = not (lo > -INF and P.lt(num, int(lo))) and not (hi < INF and P.lt(int(hi), num))
        # a decision on the parsed number which is not about these two integers
        other = any('parsed' in t[0] for t in P.trail)
        if good:
            exact = ret(eng, o, num)
            derived = o.returned and isinstance(o.value, V) and not mentions(o.value, num.key())
            ob(True if exact else (
                False if o.returned and o.value is d else None if other or derived else False), what,
               lambda: 'an integer from {} to {} must be accepted as it is, but {}'.format(
                   lo, hi, o.describe(eng)))
        else:
            ob(True if o.is_exc(eng, 'ValueError') else (None if other else False), what,
               lambda: 'a number which is no integer from {} to {} must be rejected with ValueError, '
               'but {}'.format(lo, hi, o.describe(eng)))
    return h


def kind(base):
    def h(eng, ob):
        P = eng.path
        eng.overrides = {}
        v = S('v', 'str')
        dt = mk(eng, 'csvw.metadata.Datatype', base=base)
        o = call(eng, dt, 'read', v)
        if not o.returned:
            return
        r = o.value
        what = 'kind of ' + base
        if base in PLAIN:
            ob(same(eng, r, v) is True, what, lambda: 'a {} must be the text itself, but is {}'.format(
                base, show(r)))
            return
        ops = KINDS[base]
        while isinstance(r, Term) and r.op in ('mul', 'Mult', 'binop:Mult', '.normalize'):
            r = r.args[0]
        if isinstance(r, Term):
            ok = any(r.op == x or r.op.startswith(x + '#') for x in ops)
            foreign = r.op in [x for k in KINDS.values() for x in k] + ['int', 'str']
            ob(True if ok else (False if foreign else None), what,
               lambda: 'a {} must be parsed by {}, but is {}'.format(base, ops[0], show(r)))
        else:
            ok = base == 'decimal' and isinstance(r, decimal.Decimal)
            ob(True if ok else (False if same(eng, r, v) is True else None), what,
               lambda: 'a {} must be parsed, but is {}'.format(base, show(r)))
    return h


def conditions(eng, o):
    """(pattern, method, truth) of the regular expression tests on this path"""
    P = eng.path
    res = []
    for e in P.events:
        if e.name not in MATCH or getattr(e, 'result', None) is None:
            continue
        pat = e.args[0]
        t = known(eng, e.result)
        if t is None:
            continue
        if isinstance(pat, str):
            try:
                pat = re.compile(pat)
            except re.error:
                continue
        if not isinstance(pat, re.Pattern):
            return None
        if len(e.args) != 2:
            return None
        res.append((pat, e.name.split('.')[-1], t))
    return res


def tested(fmt, base, good, probes, what):
    """accepted values are exactly those fulfilling `good`, as far as the probes tell"""
    def h(eng, ob):
        P = eng.path
        eng.overrides = {}
        v = S('v', 'str')
        P.assume(v, True)
        dt = mk(eng, 'csvw.metadata.Datatype', base=base, **({'format': fmt} if fmt else {}))
        o = call(eng, dt, 'read', v)
        conds = conditions(eng, o)
        if conds is None:
            ob(None, what, 'test of unknown form')
            return
        if not o.returned and not o.is_exc(eng, 'ValueError'):
            ob(False, what, o.describe(eng))
            return
        if not conds and quantified(P):
            ob(None, what, 'test of unknown form')
            return
        for s in probes:
            if all(bool(getattr(p, m)(s)) == t for p, m, t in conds):
                # this path may be taken for s
                if good(s) != o.returned:
                    ob(False, what, lambda: '{!r} must {}be accepted as {}{}, but {}'.format(
                        s, '' if good(s) else 'not ', base,
                        ' with format ' + fmt if fmt else '', o.describe(eng)))
                    return
        ob(True, what)
    return h


def quantified(P):
    """does the path depend on tests of other kinds than regular expressions?"""
    return any('match' not in t[0] and 'search' not in t[0] and t[1] > 1 and t[0] != 'v' and
               not t[0].endswith('.strip()') for t in P.trail)


EXPONENTS = ['1e3', '1E3', '-1E+2', '1.5e0', '0E0', '12E-1', '1,000e1']
SPACES = [('a b', 'a b'), ('a\tb', 'a b'), (' a', 'a'), ('a\n', 'a'), ('a\r\nb', 'a  b'), ('\t', ''), ('a  b', 'a  b'), (' ', '')]


def concrete(eng, ob):
    """numbers with exponents, whitespace of normalized strings"""
    P = eng.path
    eng.overrides = {}
    bases = ['decimal'] + sorted(RANGES)
    i = P.choose('base', len(bases) + 1)
    if i < len(bases):
        cell = EXPONENTS[P.choose('cell', len(EXPONENTS))]
        dt = mk(eng, 'csvw.metadata.Datatype', base=bases[i])
        o = call(eng, dt, 'read', cell)
        ob(o.is_exc(eng, 'ValueError'), 'exponent', lambda: '{!r} as {} must be rejected with ValueError, but {}'.format(
            cell, bases[i], o.describe(eng)))
        return
    cell, want = SPACES[P.choose('cell', len(SPACES))]
    o = call(eng, mk(eng, 'csvw.metadata.Datatype', base='normalizedString'), 'read', cell)
    ob(ret(eng, o, want), 'normalizedString', lambda: '{!r} as normalizedString must give {!r}, but {}'.format(
        cell, want, o.describe(eng)))


def names(eng):
    got = set(find(eng, 'csvw.datatypes.DATATYPES').keys())
    for n in sorted(set(RANGES) | set(KINDS) | set(PLAIN) | set(OTHER)):
        yield n in got, 'name ' + n, 'the datatype {} is not known'.format(n)


def rules(C):
    eng = C.engine()
    C.table('names', names(eng), min_ok=40, statement='all datatypes are registered')
    got = set(find(eng, 'csvw.datatypes.DATATYPES').keys())
    for base in RANGES:
        if base in got:
            C.explore('range-' + base, ratio(base), min_ok=1, eng=eng,
                      statement='accepted iff integer and in range')
    for base in list(KINDS) + PLAIN:
        if base in got:
            C.explore('kind-' + base, kind(base), eng=eng, min_ok=1)
    for fmt in ['ab|a', '[ab]+', 'a']:
        for base in FORMATTED:
            if base in got and (C.thorough or fmt == 'ab|a' or base == 'string'):
                probes = [s for s in PROBES if base not in ('normalizedString', 'NMTOKEN', 'anyURI') or
                          ' ' not in s and '\n' not in s]
                C.explore('format-{}-{}'.format(base, fmt), tested(
                    fmt, base, lambda s: bool(re.fullmatch(fmt, s)), probes, base + ' format'),
                    eng=eng, min_ok=1, statement='accepted iff the format matches the whole value')
    C.explore('token', tested(None, 'NMTOKEN', lambda s: bool(re.fullmatch(r'[\w.:-]+', s)),
                              ['a', 'a b', 'a,b', 'a\n', 'é', '1-2', 'a:b', 'a.b', 'a;b', 'a\tb', '_a',
                               'a\nb', ' a', 'a/b', '-', '.', ',', ' ', '\n'], 'NMTOKEN'),
              eng=eng, min_ok=1, statement='accepted iff it has name characters only')
    C.explore('concrete', concrete, eng=eng, min_ok=90, statement='numbers have no exponents; whitespace is replaced by '
              'spaces and trimmed')
