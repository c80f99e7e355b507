"""Abstract inputs and comparators shared by the checks."""
from csvwlint.harness import *  # noqa: F401,F403
from csvwlint.harness import (
    V, Sym, Term, Rest, VList, VDict, Inst, Func, Bound, Cls, Ext, Exc, Iter, is_const, key, freeze,
    show, Out, run, call, same, peek, thaw_items, mk, find, Missing, Raised, Infeasible, Imprecise)
from csvwlint.values import Native, Partial


def S(name, typ=None, **kw):
    return Sym(name, typ=typ, **kw)


def T(op, *args, **kw):
    return Term(op, args, **kw)


def known(eng, pred):
    """truth of a predicate as far as the facts go: True/False/None"""
    return peek(eng, lambda: eng.path.truth(pred))


def ret(eng, o, expected):
    """Does the outcome return exactly the expected value?"""
    return o.returned and same(eng, o.value, expected) is True


def events(eng, name, start=0):
    return [e for e in eng.path.events[start:] if e.name == name]


def warned(eng, start=0):
    return bool(events(eng, 'warnings.warn', start))


def last_is_map(eng, value, src, expected):
    """value is a list holding one image per element of src; the image of the element of the
    analysed (arbitrary) iteration is `expected`."""
    items = thaw_items(value)
    if items is None:
        return False
    if not items:
        return False
    last = items[-1]
    if isinstance(last, Rest):
        if isinstance(last.src, Term) and last.src.op == 'map':
            last = last.src.args[1]
        elif last.template is None and isinstance(last.src, (Sym, Term)):
            last = eng.elem(last.src)
    later = any(isinstance(x, Rest) for x in items) or any(
        m == 'later' for _, m in eng.path.loopmodes)
    if isinstance(last, Rest) or same(eng, last, expected) is not True:
        return False
    return later or len(items) == 1
