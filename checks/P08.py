"""Facets: a value is accepted iff it satisfies every length and bound facet, with its strictness."""
from .common import *

ASSUMPTIONS = ['values of one datatype are totally ordered', 'bounds have the type of the values']
LENGTHS = [('length', 'ne'), ('minLength', 'lt'), ('maxLength', 'gt')]
BOUNDS = [('minimum', 'lt'), ('minInclusive', 'lt'), ('minExclusive', 'le'),
          ('maximum', 'gt'), ('maxInclusive', 'gt'), ('maxExclusive', 'ge')]
# datatypes whose values are ordered numbers, times
ORDERED = ('decimal integer int unsignedInt unsignedShort unsignedLong unsignedByte short long byte '
           'nonNegativeInteger positiveInteger nonPositiveInteger negativeInteger float number '
           'double datetime dateTime date dateTimeStamp time').split()
TEXT = ('string normalizedString NMTOKEN xml html json anyURI QName gDay gMonth gMonthDay gYear '
        'gYearMonth base64Binary binary hexBinary').split()


def broken(P, v, f, rel):
    if rel == 'ne':
        return not P.eq(v, f)
    if rel == 'lt':
        return P.lt(v, f)
    if rel == 'le':
        return P.le(v, f)
    if rel == 'gt':
        return P.lt(f, v)
    return P.le(f, v)


def judge(eng, ob, o, v, viol, what):
    if viol:
        ob(o.is_exc(eng, 'ValueError'), what + ' ' + viol,
           lambda: 'a value violating {} must be rejected with ValueError, but {}'.format(
               viol, o.describe(eng)))
    else:
        ob(ret(eng, o, v), what, lambda: 'a value satisfying all facets must be accepted, but '
           + o.describe(eng))


def ordered(base, names):
    def h(eng, ob):
        P = eng.path
        facets = {n: S(n, 'decimal') for n, _ in BOUNDS
                  if n in names and P.choose(n + ' given', 2) == 0}
        dt = mk(eng, 'csvw.metadata.Datatype', base=base, **facets)
        v = S('v', 'decimal')
        o = call(eng, dt, 'validate', v)
        viol = next((n for n, rel in BOUNDS if n in facets and broken(P, v, facets[n], rel)), None)
        judge(eng, ob, o, v, viol, base if len(names) == 1 else 'bounds')
    return h


def text(eng, ob):
    P = eng.path
    facets = {n: S(n, 'int') for n, _ in LENGTHS if P.choose(n + ' given', 2) == 0}
    for s in facets.values():
        P.assume(T('lt', s, 0, typ='bool'), False)
    dt = mk(eng, 'csvw.metadata.Datatype', base='string', **facets)
    v = S('v', 'str')
    o = call(eng, dt, 'validate', v)
    ln = T('len', v, typ='int') if P.truth(v) else 0
    viol = next((n for n, rel in LENGTHS if n in facets and broken(P, ln, facets[n], rel)), None)
    judge(eng, ob, o, v, viol, 'length')


def simple(base, typ, name):
    def h(eng, ob):
        P = eng.path
        f = S(name, 'int' if typ == 'str' else 'decimal')
        dt = mk(eng, 'csvw.metadata.Datatype', base=base, **{name: f})
        v = S('v', typ)
        if typ == 'str':
            P.assume(v, True)
        o = call(eng, dt, 'validate', v)
        x = T('len', v, typ='int') if typ == 'str' else v
        viol = name if broken(P, x, f, dict(LENGTHS + BOUNDS)[name]) else None
        judge(eng, ob, o, v, viol, base)
    return h


def none(eng, ob):
    P = eng.path
    base = ['string', 'decimal'][P.choose('base', 2)]
    facets = {n: S(n, 'int') for n, _ in (LENGTHS if base == 'string' else BOUNDS)}
    dt = mk(eng, 'csvw.metadata.Datatype', base=base, **facets)
    o = call(eng, dt, 'validate', None)
    ob(ret(eng, o, None), 'None', lambda: 'a missing value ' + o.describe(eng))


def read_validates(eng, ob):
    """What read returns went through the facets."""
    P = eng.path
    eng.overrides['csvw.datatypes.string.to_python'] = lambda e, a, k: T('parsed', a[0], typ='str')
    ml = S('minLength', 'int')
    dt = mk(eng, 'csvw.metadata.Datatype', base='string', minLength=ml)
    v = S('v', 'str')
    P.assume(v, True)
    o = call(eng, dt, 'read', v)
    pv = T('parsed', v, typ='str')
    ln = T('len', pv, typ='int') if P.truth(pv) else 0
    judge(eng, ob, o, pv, 'minLength' if P.lt(ln, ml) else None, 'read')


def run(C):
    names = [n for n, _ in BOUNDS]
    C.explore('bounds', ordered('decimal', names), min_ok=200,
              statement='ValueError iff some bound is violated, else the value')
    C.explore('lengths', text, min_ok=20,
              statement='ValueError iff some length facet is violated, else the value')
    C.explore('missing', none, min_ok=2)
    C.explore('read', read_validates, min_ok=2)
    eng = C.engine()
    dts = set(x for x in find(eng, 'csvw.datatypes.DATATYPES').keys())
    for base in ORDERED:
        if base not in dts:
            raise Missing('datatype ' + base)
        for n in (names if C.thorough else ['minimum', 'maxExclusive']):
            C.explore('{}-{}'.format(base, n), simple(base, 'decimal', n), min_ok=2, eng=eng)
    for base in TEXT:
        for n, _ in (LENGTHS if C.thorough else LENGTHS[1:]):
            C.explore('{}-{}'.format(base, n), simple(base, 'str', n), min_ok=2, eng=eng)
