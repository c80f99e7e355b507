"""Inherited properties: the nearest description that specifies one decides."""
from .common import *

ASSUMPTIONS = ['a description "specifies" an inherited property if its value differs from the '
               'value an absent property gets (None; [""] for null, "" for default, "und" for lang)']
LEVELS = ['column', 'schema', 'table', 'group']
NOPARENT = object()


def chain(eng, prop, values, **col):
    """column -> schema -> table -> table group with `prop` set on some of them"""
    kw = [{} if v is NOPARENT else {prop: v} for v in values]
    group = mk(eng, 'csvw.metadata.TableGroup', **kw[3])
    table = mk(eng, 'csvw.metadata.Table', _parent=group, **kw[2])
    schema = mk(eng, 'csvw.metadata.Schema', _parent=table, **kw[1])
    kw[0].update(col)
    column = mk(eng, 'csvw.metadata.Column', _parent=schema, **kw[0])
    schema.attrs['columns'] = eng.VL([column])
    table.attrs['tableSchema'] = schema
    group.attrs['tables'] = eng.VL([table])
    return column


def given(eng, prop, make):
    """choose where the property is given; returns the values and the effective one"""
    P = eng.path
    vals, eff, lvl = [], NOPARENT, None
    for lv in LEVELS:
        if P.choose('{} given on the {}'.format(prop, lv), 2) == 0:
            v = make(lv)
            if eff is NOPARENT:
                eff, lvl = v, lv
        else:
            v = NOPARENT
        vals.append(v)
    return vals, eff, lvl


def dt(lv):
    return S('datatype@' + lv, truthy=True, notnone=True, attrs={'name': lv}, methods={
        'read': lambda e, a, k: None if e.path.isnone(a[0]) else T('dt.read@' + lv, *a),
        'formatted': lambda e, a, k: T('dt.formatted@' + lv, *a, typ='str'),
        'parse': lambda e, a, k: T('dt.parse@' + lv, *a),
    })


def nonempty(eng, name, typ='str', **kw):
    s = S(name, typ, **kw)
    eng.path.assume(s, True)
    if name.startswith('lang@'):
        eng.path.assume(T('eq', s, 'und', typ='bool'), False)
    return s


def read_datatype(eng, ob):
    vals, eff, lvl = given(eng, 'datatype', dt)
    col = chain(eng, 'datatype', vals)
    v = nonempty(eng, 'v')
    o = call(eng, col, 'read', v)
    exp = v if eff is NOPARENT else T('dt.read@' + lvl, v)
    ob(ret(eng, o, exp), 'datatype (read)', lambda: 'expected {}, but {}'.format(show(exp), o.describe(eng)))


def write_datatype(eng, ob):
    vals, eff, lvl = given(eng, 'datatype', dt)
    col = chain(eng, 'datatype', vals)
    v = S('v', notnone=True)
    o = call(eng, col, 'write', v)
    exp = v if eff is NOPARENT else T('dt.formatted@' + lvl, v, typ='str')
    ob(ret(eng, o, exp), 'datatype (write)', lambda: 'expected {}, but {}'.format(show(exp), o.describe(eng)))


def read_separator(eng, ob):
    vals, eff, lvl = given(eng, 'separator', lambda lv: nonempty(eng, 'separator@' + lv))
    col = chain(eng, 'separator', vals)
    v = nonempty(eng, 'v')
    o = call(eng, col, 'read', v)
    if eff is NOPARENT:
        ob(ret(eng, o, v), 'separator (read)', lambda: o.describe(eng))
        return
    srcs = [e.args[0] for e in events(eng, 'loop')]
    exp = T('.split', v, eff, typ='list')
    ob(o.returned and bool(srcs) and all(key(s) == key(exp) for s in srcs), 'separator (read)',
       lambda: 'expected the parts of {}, but {}'.format(show(exp), o.describe(eng)))


def write_separator(eng, ob):
    vals, eff, lvl = given(eng, 'separator', lambda lv: nonempty(eng, 'separator@' + lv))
    col = chain(eng, 'separator', vals)
    if eff is NOPARENT:
        v = S('v', 'str')
        o = call(eng, col, 'write', v)
        ob(ret(eng, o, v), 'separator (write)', lambda: o.describe(eng))
        return
    a, b = S('a', 'str'), S('b', 'str')
    o = call(eng, col, 'write', eng.VL([a, b]))
    exp = eng.ext.cat(eng, [a, eff, b])
    ob(ret(eng, o, exp), 'separator (write)', lambda: 'expected {}, but {}'.format(
        show(exp), o.describe(eng)))


def read_null(eng, ob):
    vals, eff, lvl = given(eng, 'null', lambda lv: eng.VL([nonempty(eng, 'null@' + lv)]))
    col = chain(eng, 'null', vals)
    v = nonempty(eng, 'v')
    o = call(eng, col, 'read', v)
    isnull = False if eff is NOPARENT else eng.path.eq(v, eff.items[0])
    ob(ret(eng, o, None if isnull else v), 'null (read)', lambda: 'a value {} the null markers of '
       'the nearest description that has them {}'.format('in' if isnull else 'not in', o.describe(eng)))


def write_null(eng, ob):
    vals, eff, lvl = given(eng, 'null', lambda lv: eng.VL([nonempty(eng, 'null@' + lv)]))
    col = chain(eng, 'null', vals)
    o = call(eng, col, 'write', None)
    ob(ret(eng, o, '' if eff is NOPARENT else eff.items[0]), 'null (write)',
       lambda: 'None ' + o.describe(eng))


def read_required(eng, ob):
    vals, eff, lvl = given(eng, 'required', lambda lv: eng.path.choose(
        'required: true on the ' + lv, 2) == 0)
    col = chain(eng, 'required', vals)
    o = call(eng, col, 'read', '')
    if eff is True:
        ob(o.is_exc(eng, 'ValueError'), 'required (read)', lambda: 'empty required cell ' + o.describe(eng))
    else:
        ob(ret(eng, o, None), 'required (read)', lambda: 'empty optional cell ' + o.describe(eng))


def read_default(eng, ob):
    vals, eff, lvl = given(eng, 'default', lambda lv: nonempty(eng, 'default@' + lv))
    col = chain(eng, 'default', vals)
    o = call(eng, col, 'read', '')
    ob(ret(eng, o, None if eff is NOPARENT else eff), 'default (read)',
       lambda: 'an empty cell must get the default of the nearest description that has one, but '
       + o.describe(eng))


PROPS = ['aboutUrl', 'datatype', 'ordered', 'propertyUrl', 'required', 'separator',
         'textDirection', 'valueUrl', 'lang', 'default']


def inherit(prop):
    def h(eng, ob):
        vals, eff, lvl = given(eng, prop, lambda lv: nonempty(
            eng, prop + '@' + lv, 'bool' if prop in ('ordered', 'required') else 'str', notnone=True))
        col = chain(eng, prop, vals)
        o = call(eng, col, 'inherit', prop)
        if eff is NOPARENT:
            ob(o.returned and (o.value is None or prop in ('lang', 'default')), 'inherit ' + prop,
               lambda: 'nothing specified, but ' + o.describe(eng))
        else:
            ob(ret(eng, o, eff), 'inherit ' + prop, lambda: 'expected {}, but {}'.format(
                show(eff), o.describe(eng)))
    return h


def falsy(prop, val):
    """An explicitly given falsy value is a value."""
    def h(eng, ob):
        vals = [val, nonempty(eng, prop + '@schema', 'bool', notnone=True), NOPARENT, NOPARENT]
        col = chain(eng, prop, vals)
        o = call(eng, col, 'inherit', prop)
        ob(ret(eng, o, val), 'inherit falsy ' + prop, lambda: 'expected {}, but {}'.format(
            show(val), o.describe(eng)))
    return h


def run(C):
    for f in (read_datatype, write_datatype, read_separator, write_separator, read_null, write_null,
              read_required, read_default):
        C.explore(f.__name__, f, min_ok=10,
                  statement='the effective property is that of the nearest description specifying it')
    for p in PROPS:
        C.explore('inherit-' + p, inherit(p), min_ok=10)
    for p, v in (('ordered', False), ('required', False)):
        C.explore('inherit-falsy-' + p, falsy(p, v), min_ok=1)
