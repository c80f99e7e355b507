"""Cell parsing: the decision table of Column.read."""
from .common import *

ASSUMPTIONS = [
    'datatype parsing is an arbitrary function of the text that may reject it with ValueError',
    'null is a list of strings, default and separator are strings (separator may be None)',
]


def dt_sym(eng):
    def read(e, a, k):
        v = a[0]
        if e.path.isnone(v):
            return None
        e.event('dt.read', [v])
        if e.path.truth(T('readable', v, typ='bool')):
            return T('dt.read', v)
        e.raise_ext('ValueError', ('unreadable',), origin='dt.read')
    return S('datatype', methods={
        'read': read,
        'parse': lambda e, a, k: T('dt.parse', *a),
        'validate': lambda e, a, k: T('dt.validate', *a),
    }, truthy=True, notnone=True)


def harness(eng, ob, where='column'):
    P = eng.path
    C = 'Column.read'
    dt = dt_sym(eng) if P.choose('a datatype is given', 2) == 0 else None
    null = S('null', 'list', elemtyp='str')
    sep = S('separator', 'str') if P.choose('a separator is given', 2) == 0 else None
    default = S('default', 'str')
    req = S('required')
    v = S('v', 'str')
    strict = S('strict', 'bool')
    col = mk(eng, 'csvw.metadata.Column', datatype=dt, null=null, separator=sep, default=default,
             required=req)
    o = call(eng, col, 'read', v, strict=strict)
    eff = v if P.truth(v) else default

    def got():
        return o.describe(eng)

    if P.truth(req) and P.in_(eff, null):
        ob(o.is_exc(eng, 'ValueError'), C + ': required',
           lambda: 'a null value in a required column must be rejected, but ' + got())
        return
    if sep is not None and P.truth(sep):
        if not P.truth(eff):
            ob(o.returned and thaw_items(o.value) == [], C + ': empty list',
               lambda: 'an empty separated cell must give the empty list, but ' + got())
            return
        if P.in_(eff, null):
            ob(ret(eng, o, None), C + ': null list',
               lambda: 'a null separated cell must give None, but ' + got())
            return
        return elements(eng, ob, o, eff, sep, default, null, dt, strict)
    if P.in_(eff, null):
        ob(ret(eng, o, None), C + ': null', lambda: 'a null cell must give None, but ' + got())
        return
    if dt is None:
        ob(ret(eng, o, eff), C + ': plain', lambda: 'expected {}, but {}'.format(show(eff), got()))
    elif P.truth(T('readable', eff, typ='bool')):
        ob(ret(eng, o, T('dt.read', eff)), C + ': typed',
           lambda: 'expected datatype.read({}), but {}'.format(show(eff), got()))
    else:
        ob(o.is_exc(eng, 'ValueError'), C + ': invalid',
           lambda: 'a value the datatype rejects must be rejected, but ' + got())


def elements(eng, ob, o, eff, sep, default, null, dt, strict):
    P = eng.path
    C = 'Column.read'
    src = T('.split', eff, sep, typ='list', elemtyp='str')
    srcs = [e.args[0] for e in events(eng, 'loop') if isinstance(e.args[0], Term)
            and e.args[0].op == '.split']
    if not all(key(s) == key(src) for s in srcs) or not srcs:
        ob(False, C + ': split', lambda: 'the cell must be split at every separator; split: {}'.format(
            ', '.join(show(s) for s in srcs) or o.describe(eng)))
        return
    el = T('elem', srcs[0], typ='str')
    e2 = el if P.truth(el) else default
    isnull = P.in_(e2, null)
    raw = None if isnull else e2
    # elements the datatype rejected on this path (the last one, or an earlier one)
    rejected = [e.args[0] for e in events(eng, 'dt.read')
                if known(eng, T('readable', e.args[0], typ='bool')) is False]
    if dt is None or isnull or not rejected and P.truth(T('readable', e2, typ='bool')):
        if o.returned and not rejected:
            exp = raw if dt is None or isnull else T('dt.read', e2)
            ob(last_is_map(eng, o.value, src, exp), C + ': element',
               lambda: 'the element must become {}, but the cell {}'.format(
                   show(exp), o.describe(eng)))
            return
    if not rejected:
        if o.is_exc(eng, 'ValueError') and dt is not None:
            rejected = [e2]
        else:
            ob(False, C + ': element', lambda: 'element not converted: ' + o.describe(eng))
            return
    if P.truth(strict):
        ob(o.is_exc(eng, 'ValueError'), C + ': invalid element',
           lambda: 'strict reading must reject an invalid list element, but ' + o.describe(eng))
    else:
        ob(o.returned and last_is_map(eng, o.value, src, raw) and warned(eng),
           C + ': invalid element, lenient',
           lambda: 'lenient reading must warn and keep the unconverted list, but ' + o.describe(eng))


def run(C):
    C.explore('cell-decision-table', harness, min_ok=100,
              statement='the outcome of Column.read equals the cell parsing rules on every path')
