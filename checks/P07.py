"""Cell writing: the decision table of Column.write."""
from .common import *

ASSUMPTIONS = ['null is a list of strings; formatting by the datatype is an arbitrary function']


def dt_sym():
    return S('datatype', methods={
        'formatted': lambda e, a, k: T('dt.formatted', *a, typ='str'),
    }, truthy=True, notnone=True)


def cell(eng, v, null, dt):
    """acceptable texts for the value v; None stands for 'the first null marker'"""
    P = eng.path
    if P.isnone(v):
        return None
    return v if dt is None else T('dt.formatted', v, typ='str')


def is_null_marker(eng, x, null):
    if not eng.path.truth(null):
        return same(eng, x, '') is True
    if isinstance(x, Term) and x.op == 'elem' and key(x.args[0]) == key(null):
        return None     # which one?
    return same(eng, x, eng.ext.getitem(eng, null, 0)) is True


def good(eng, x, exp, null):
    if exp is None:
        return is_null_marker(eng, x, null)
    return same(eng, x, exp) is True


def harness(eng, ob):
    P = eng.path
    C = 'Column.write'
    dt = dt_sym() if P.choose('a datatype is given', 2) == 0 else None
    null = S('null', 'list', elemtyp='str')
    listy = P.choose('a separator is given', 2) == 0
    sep = S('separator', 'str') if listy else None
    if listy:
        P.assume(sep, True)
    v = S('v', 'list') if listy else S('v')
    if listy and P.choose('value is None', 2) == 1:
        v = None
    col = mk(eng, 'csvw.metadata.Column', datatype=dt, null=null, separator=sep)
    o = call(eng, col, 'write', v)

    def got():
        return o.describe(eng)

    if not listy:
        exp = cell(eng, v, null, dt)
        ob(o.returned and good(eng, o.value, exp, null), C + (': null' if exp is None else ': value'),
           lambda: 'writing {} must give {}, but {}'.format(
               show(v), 'the first null marker' if exp is None else show(exp), got()))
        return
    if v is None or not P.truth(v):
        ob(ret(eng, o, ''), C + ': empty list', lambda: 'no elements must give an empty cell, but ' + got())
        return
    if not o.returned:
        ob(False, C + ': list', got)
        return
    el = eng.elem(v)
    exp = cell(eng, el, null, dt)
    x, later = join_last(eng, o.value, sep)
    ob(False if x is None else good(eng, x, exp, null), C + ': list',
       lambda: 'the element must be written as {}, but {}'.format(
           'the first null marker' if exp is None else show(exp), got()))


def join_last(eng, v, sep):
    """last joined part of a separated text, and whether there are more"""
    if isinstance(v, Term) and v.op == 'join' and key(v.args[0]) == key(sep):
        src = v.args[1]
        if isinstance(src, Term) and src.op == 'list':
            last = src.args[-1]
            if isinstance(last, Rest):
                return eng.elem(last.src), True
            return last, len(src.args) > 1
        return eng.elem(src), True
    if isinstance(v, Term) and v.op == 'cat':
        return v.args[-1], True
    return v, False


def run(C):
    C.explore('write-decision-table', harness, min_ok=15,
              statement='the outcome of Column.write equals the cell writing rules on every path')
