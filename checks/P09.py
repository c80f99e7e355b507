"""Datatype descriptions: contradictory facets are rejected, consistent ones accepted unchanged."""
from .common import *
from .P08 import BOUNDS, LENGTHS, ORDERED

ASSUMPTIONS = ['bounds of one datatype are totally ordered after parsing']
LOWER = ['minimum', 'minInclusive', 'minExclusive']
UPPER = ['maximum', 'maxInclusive', 'maxExclusive']
NO_ORDER = ('string normalizedString NMTOKEN xml html json anyURI QName boolean base64Binary binary '
            'hexBinary').split()
NO_LENGTH = ORDERED + ['boolean']
LENGTH = 'string normalizedString NMTOKEN xml html anyURI QName base64Binary hexBinary binary'.split()
XSD = 'http://www.w3.org/2001/XMLSchema#'


def make(eng, **kw):
    at = kw.pop('at_props', None)
    if at is not None:
        kw['at_props'] = eng.VD(list(at.items()))
    return run(eng, lambda: eng.call(find(eng, 'csvw.metadata.Datatype'), [], kw))


def parsed(v):
    return T('parsed', v, typ='decimal')


def stub(eng, base):
    """parsing a bound is an arbitrary function"""
    dts = find(eng, 'csvw.datatypes.DATATYPES')
    cls = eng.ext.getitem(eng, dts, base)
    f = eng.class_attr(cls, 'to_python')
    f = getattr(f, 'func', f)

    def to_python(e, a, k):
        v = a[-1]
        return parsed(v)
    eng.overrides = {f.qualname: to_python}


def judge(eng, ob, o, bad, what, exp):
    if bad:
        ob(o.is_exc(eng, 'ValueError'), what + ': ' + bad,
           lambda: '{} must be rejected with ValueError, but {}'.format(bad, o.describe(eng)))
        return
    ok = o.returned and isinstance(o.value, Inst)
    if ok:
        for n, v in exp.items():
            r = same(eng, o.value.attrs.get(n), v)
            if r is not True:
                ok = False
    ob(ok, what + ': consistent', lambda: 'a consistent description must be accepted unchanged, but '
       + (o.describe(eng) if not ok and not o.returned else 'a facet changed'))


def bounds(base, names):
    def h(eng, ob):
        P = eng.path
        stub(eng, base)
        given = {n: S(n, 'decimal') for n in names}
        o = make(eng, base=base, **given)
        bad = None
        for side in (LOWER, UPPER):
            if side[1] in given and side[2] in given:
                bad = '{} and {}'.format(side[1], side[2])
        for lo in LOWER:
            for up in UPPER:
                if bad or lo not in given or up not in given:
                    continue
                a, b = parsed(given[lo]), parsed(given[up])
                empty = P.le(b, a) if 'Exclusive' in lo + up else P.lt(b, a)
                if empty:
                    bad = '{} above {}'.format(lo, up)
        judge(eng, ob, o, bad, '/'.join(names), {n: parsed(v) for n, v in given.items()})
    return h


def lengths(eng, ob):
    P = eng.path
    given = {n: S(n, 'int') for n, _ in LENGTHS if P.choose(n + ' given', 2) == 0}
    o = make(eng, base='string', **given)
    bad = None
    g = given.get
    if g('length') and g('minLength') and P.lt(g('length'), g('minLength')):
        bad = 'length below minLength'
    elif g('length') and g('maxLength') and P.lt(g('maxLength'), g('length')):
        bad = 'length above maxLength'
    elif g('minLength') and g('maxLength') and P.lt(g('maxLength'), g('minLength')):
        bad = 'minLength above maxLength'
    judge(eng, ob, o, bad, 'lengths', given)


def facet_kind(base, name, typ, allowed):
    def h(eng, ob):
        if name not in dict(LENGTHS):
            stub(eng, base)
        v = S(name, typ)
        o = make(eng, base=base, **{name: v})
        if allowed:
            ob(o.returned, '{} for {}'.format(name, base),
               lambda: '{} is allowed for {}, but {}'.format(name, base, o.describe(eng)))
        else:
            ob(o.is_exc(eng, 'ValueError'), '{} for {}'.format(name, base),
               lambda: '{} must be rejected for {}, but {}'.format(name, base, o.describe(eng)))
        eng.overrides = {}
    return h


def ids(eng, ob):
    P = eng.path
    names = find(eng, 'csvw.datatypes.DATATYPES').keys()
    i = P.choose('id', len(names) + 1)
    if i < len(names):
        o = make(eng, base='string', at_props={'id': XSD + names[i]})
        ob(o.is_exc(eng, 'ValueError'), '@id',
           lambda: 'the id of the built-in datatype {} must be rejected, but {}'.format(
               names[i], o.describe(eng)))
    else:
        o = make(eng, base='string', at_props={'id': 'http://example.org/x'})
        ob(o.returned, '@id', lambda: 'another id must be accepted, but ' + o.describe(eng))


def bases(eng, ob):
    P = eng.path
    names = find(eng, 'csvw.datatypes.DATATYPES').keys()
    cls = find(eng, 'csvw.metadata.Datatype')
    i = P.choose('base', len(names) + 1)
    how = P.choose('constructed', 3)
    b = names[i] if i < len(names) else 'no-such-datatype'
    start = len(P.events)
    if how == 0:
        o = run(eng, lambda: eng.call(cls, [], {'base': b}))
    else:
        o = call(eng, cls, 'fromvalue', b if how == 1 else eng.VD([('base', b)]))
    got = o.value.attrs.get('base') if o.returned and isinstance(o.value, Inst) else None
    if i < len(names):
        ob(got == b and not warned(eng, start), 'known base',
           lambda: 'base {} must be kept without warning, but {}, {}'.format(b, got, o.describe(eng)))
    else:
        ob(got == 'string' and warned(eng, start), 'unknown base',
           lambda: 'an unknown base must be replaced by string with a warning, but {} {}'.format(
               show(got), o.describe(eng)))


def default_base(eng, ob):
    cls = find(eng, 'csvw.metadata.Datatype')
    fmt = S('fmt', 'str')
    o = call(eng, cls, 'fromvalue', eng.VD([('minLength', 3)]))
    ob(o.returned and isinstance(o.value, Inst) and o.value.attrs.get('base') == 'string'
       and o.value.attrs.get('minLength') == 3,
       'no base', lambda: 'a description without base is based on string, but ' + o.describe(eng))


def rules(C):
    C.explore('lengths', lengths, min_ok=8,
              statement='ValueError iff two length facets contradict each other')
    names = [n for n, _ in BOUNDS]
    eng = C.engine()
    combos = [(n,) for n in names]
    for i, a in enumerate(names):
        for j in range(i + 1, len(names)):
            combos.append((a, names[j]))
            if C.thorough:
                for k in range(j + 1, len(names)):
                    combos.append((a, names[j], names[k]))
                    for m in range(k + 1, len(names)):
                        combos.append((a, names[j], names[k], names[m]))
    for c in combos:
        C.explore('bounds-' + '-'.join(c), bounds('decimal', c), min_ok=1, eng=eng,
                  statement='ValueError iff the bounds contradict each other')
    eng.overrides = {}
    for base in NO_ORDER:
        for n in names:
            C.explore('kind-{}-{}'.format(n, base), facet_kind(base, n, 'str', False), min_ok=1, eng=eng)
    for base in ORDERED:
        for n in names if C.thorough else names[:1]:
            C.explore('kind-{}-{}'.format(n, base), facet_kind(base, n, 'str', True), min_ok=1, eng=eng)
    for base in NO_LENGTH:
        for n, _ in LENGTHS:
            C.explore('kind-{}-{}'.format(n, base), facet_kind(base, n, 'int', False), min_ok=1, eng=eng)
    for base in LENGTH:
        for n, _ in LENGTHS:
            C.explore('kind-{}-{}'.format(n, base), facet_kind(base, n, 'int', True), min_ok=1, eng=eng)
    eng.overrides = {}
    C.explore('ids', ids, min_ok=20, eng=eng, statement='ids of built-in datatypes are rejected')
    C.explore('bases', bases, min_ok=60, eng=eng, statement='unknown bases become string, with a warning')
    C.explore('default-base', default_base, min_ok=1, eng=eng)
