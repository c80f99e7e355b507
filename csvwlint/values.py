"""Abstract values of the analyser.

Immutable Python constants stand for themselves.  Everything else is either

- ``Sym``   an unknown input, named, with an optional type tag and optional members;
- ``Term``  the result of an operation the domain does not interpret (congruent: equal operator and
            equal arguments give the same abstract value), which doubles as its provenance;
- a heap object (``Inst``, ``VList``, ``VDict``, ``VSet``, closures, classes ...).
"""
import re
import decimal

CONST_TYPES = (str, int, float, bool, type(None), bytes, decimal.Decimal, re.Pattern, type(Ellipsis),
               type(NotImplemented), complex)


def is_const(v):
    if isinstance(v, CONST_TYPES):
        return True
    if isinstance(v, tuple):
        return all(is_const(x) for x in v)
    return isinstance(v, frozenset) or isinstance(v, Match)


class Match:
    """A match object obtained by folding a regex operation on constants."""
    def __init__(self, m):
        self.m = m

    def __repr__(self):
        return 'Match({!r})'.format(self.m.group(0))


def key(v):
    if isinstance(v, V):
        return v.key()
    if isinstance(v, tuple):
        return ('t',) + tuple(key(x) for x in v)
    if isinstance(v, float) and v != v:
        return ('c', 'float', 'nan')
    try:
        hash(v)
        return ('c', type(v).__name__, v)
    except TypeError:
        return ('id', id(v))


def freeze(v):
    """Snapshot mutable containers, so that they may be arguments of terms."""
    if isinstance(v, VList):
        return Term('list', tuple(freeze(x) for x in v.items), typ='list')
    if isinstance(v, VDict):
        if v.isset:
            return Term('set', tuple(sorted((freeze(e[0]) for e in v.d.values()), key=show)) + tuple(
                freeze(r) for r in v.rest), typ='set')
        return Term('dict', tuple((freeze(e[0]), freeze(e[1])) for e in v.d.values()) + tuple(
            freeze(r) for r in v.rest), typ='dict')
    if isinstance(v, Rest):
        return Rest(freeze(v.src))
    if isinstance(v, tuple):
        return tuple(freeze(x) for x in v)
    return v


class V:
    typ = None

    def key(self):
        raise NotImplementedError

    def __repr__(self):
        return show(self)


class Sym(V):
    """Unknown input. ``attrs``/``methods`` describe members a harness fixes."""
    def __init__(self, name, typ=None, attrs=None, methods=None, truthy=None, elem=None, call=None,
                 setter=None, elemtyp=None, notnone=False, ext=None):
        self.name, self.typ = name, typ
        self.attrs = attrs or {}
        self.methods = methods or {}
        self.truthy = truthy
        self.elem = elem        # factory for elements when iterated
        self.call = call        # python callable (eng, args, kw) when called
        self.elemtyp = elemtyp
        self.notnone = notnone
        self.ext = ext          # name of an external class this is an instance of
        self._k = ('s', name)

    def key(self):
        return self._k


class Term(V):
    __slots__ = ('op', 'args', 'typ', '_k', 'elemtyp', 'ext')

    def __init__(self, op, args=(), typ=None, elemtyp=None, ext=None):
        self.op = op
        self.args = tuple(freeze(a) for a in args)
        self.typ = typ
        self.elemtyp = elemtyp
        self.ext = ext
        self._k = ('T', op) + tuple(key(a) for a in self.args)

    def key(self):
        return self._k


class Rest(V):
    """Splice marker in a list: zero or more unknown elements of `src`."""
    def __init__(self, src, template=None):
        self.src = src
        self.template = template    # list of values known to be representative elements

    def key(self):
        return ('rest', key(self.src))


class Heap(V):
    oid = None
    birth = 0
    base = False

    def key(self):
        return ('o', self.oid)


class VList(Heap):
    typ = 'list'

    def __init__(self, items=()):
        self.items = list(items)

    def snap(self):
        return list(self.items)

    def restore(self, s):
        self.items = s

    def exact(self):
        return not any(isinstance(x, Rest) for x in self.items)


class VDict(Heap):
    """dict or set (isset=True). rest: unknown further content"""
    def __init__(self, pairs=(), isset=False, rest=(), default=None, cls='dict'):
        self.d = {}
        self.isset = isset
        self.rest = list(rest)
        self.default = default
        self.cls = cls
        for k, v in pairs:
            self.d[key(k)] = [k, v]

    @property
    def typ(self):
        return 'set' if self.isset else 'dict'

    def snap(self):
        return {k: list(e) for k, e in self.d.items()}, list(self.rest)

    def restore(self, s):
        self.d, self.rest = s

    def keys(self):
        return [e[0] for e in self.d.values()]

    def values(self):
        return [e[1] for e in self.d.values()]

    def pairs(self):
        return [(e[0], e[1]) for e in self.d.values()]


class Inst(Heap):
    def __init__(self, cls, attrs=None):
        self.cls = cls
        self.attrs = dict(attrs or {})
        self.payload = None     # VDict for subclasses of dict

    def snap(self):
        return dict(self.attrs)

    def restore(self, s):
        self.attrs = s


class Env(Heap):
    def __init__(self, module, parent=None, name='', func=None, isclass=False):
        self.module, self.parent, self.name, self.func = module, parent, name, func
        self.vars = {}
        self.isclass = isclass
        self.globals_, self.nonlocals_ = set(), set()
        self.cls = None     # class the executing method was defined in (for super())
        self.self_ = None

    def snap(self):
        return dict(self.vars)

    def restore(self, s):
        self.vars = s


class Module(Heap):
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.env = None

    def key(self):
        return ('m', self.name)


class Func(Heap):
    typ = 'func'

    def __init__(self, node, env, name, qualname, defaults, kwdefaults, cls=None):
        self.node, self.env, self.name, self.qualname = node, env, name, qualname
        self.defaults, self.kwdefaults, self.cls = defaults, kwdefaults, cls
        self.attrs = {}
        self.isgen = False

    def snap(self):
        return dict(self.attrs)

    def restore(self, s):
        self.attrs = s


class Bound(V):
    typ = 'func'

    def __init__(self, func, self_):
        self.func, self.self_ = func, self_

    def key(self):
        return ('b', key(self.func), key(self.self_))


class Cls(Heap):
    typ = 'type'

    def __init__(self, name, bases, ns, module, qualname):
        self.name, self.bases, self.ns, self.module, self.qualname = \
            name, bases, ns, module, qualname
        self.fields = None      # attrs fields
        self.mro = None

    def key(self):
        return ('k', self.qualname, self.oid)

    def snap(self):
        return dict(self.ns)

    def restore(self, s):
        self.ns = s


class Ext(V):
    """An external (non-repository) module, class or function, by dotted name."""
    typ = 'func'

    def __init__(self, name):
        self.name = name

    def key(self):
        return ('x', self.name)


class BMethod(V):
    """Method `name` of a non-instance value."""
    typ = 'func'

    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def key(self):
        return ('bm', key(self.obj), self.name)


class Native(V):
    """A callable implemented in the analyser: fn(eng, args, kwargs)"""
    typ = 'func'

    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def key(self):
        return ('n', self.name, id(self.fn))


class Partial(V):
    typ = 'func'

    def __init__(self, func, args, kw):
        self.func, self.args, self.kw = func, tuple(args), dict(kw)

    def key(self):
        return ('p', key(self.func), tuple(key(freeze(a)) for a in self.args),
                tuple((k, key(freeze(v))) for k, v in sorted(self.kw.items())))


class Descr(V):
    """property / staticmethod / classmethod / cached_property"""
    def __init__(self, kind, func, setter=None):
        self.kind, self.func, self.setter = kind, func, setter

    def key(self):
        return ('d', self.kind, key(self.func))


class Attrib(V):
    """attr.ib(...)"""
    def __init__(self, kw):
        self.kw = kw
        self.name = None
        self.validators = []

    def key(self):
        return ('ab', id(self))


class Iter(Heap):
    """An iterator. gen: python generator of abstract values."""
    typ = 'iter'

    def __init__(self, gen, desc, src=None):
        self.gen, self.desc, self.src = gen, desc, src


class Super(V):
    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_

    def key(self):
        return ('super', key(self.cls), key(self.self_))


class Exc(V):
    """An exception instance of an external class (repository classes give Inst)."""
    def __init__(self, cls, args=(), kw=None, origin=None):
        self.cls, self.args, self.kw, self.origin = cls, tuple(args), kw or {}, origin
        self.attrs = {}

    def key(self):
        return ('e', self.cls.name, tuple(key(freeze(a)) for a in self.args))


def show(v, depth=0):
    if depth > 6:
        return '..'
    if isinstance(v, Sym):
        return v.name
    if isinstance(v, Term):
        if v.op.startswith('.'):
            return '{}{}({})'.format(show(v.args[0], depth + 1), v.op, ', '.join(
                show(a, depth + 1) for a in v.args[1:]))
        return '{}({})'.format(v.op, ', '.join(show(a, depth + 1) for a in v.args))
    if isinstance(v, Rest):
        return '*' + show(v.src, depth + 1)
    if isinstance(v, VList):
        return '[{}]'.format(', '.join(show(x, depth + 1) for x in v.items))
    if isinstance(v, tuple):
        return '({})'.format(', '.join(show(x, depth + 1) for x in v))
    if isinstance(v, VDict):
        if v.isset:
            return '{' + ', '.join(
                [show(e[0], depth + 1) for e in v.d.values()] + [
                    show(r, depth + 1) for r in v.rest]) + '}'
        return '{' + ', '.join(
            ['{}: {}'.format(show(e[0], depth + 1), show(e[1], depth + 1)) for e in v.d.values()]
            + [show(r, depth + 1) for r in v.rest]) + '}'
    if isinstance(v, Inst):
        return '<{}>'.format(v.oid or v.cls.name)
    if isinstance(v, Func):
        return v.qualname
    if isinstance(v, Bound):
        return '{}.{}'.format(show(v.self_, depth + 1), getattr(v.func, 'name', '?'))
    if isinstance(v, Cls):
        return v.qualname
    if isinstance(v, Ext):
        return v.name
    if isinstance(v, BMethod):
        return '{}.{}'.format(show(v.obj, depth + 1), v.name)
    if isinstance(v, Exc):
        return '{}({})'.format(v.cls.name, ', '.join(show(a, depth + 1) for a in v.args))
    if isinstance(v, Module):
        return 'module ' + v.name
    if isinstance(v, Iter):
        return 'iter({})'.format(v.desc)
    if isinstance(v, V):
        return '<{}>'.format(type(v).__name__)
    return repr(v)
