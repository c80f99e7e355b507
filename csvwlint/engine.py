"""Trace-partitioned abstract interpretation of a Python package, from its source.

Nothing of the analysed package is imported or run: modules are parsed, their top level is evaluated
abstractly (giving classes, registries, attrs fields, converters), and an entry point is analysed on
abstract arguments.  Calls inside the package are inlined, calls leaving it become terms (or follow a
model), loops over unknown sequences are brought to a fixpoint: one arbitrary iteration is analysed
from a state in which everything the loop writes has been generalised.
"""
import ast
import time
import os
import random
import sys
import builtins
import importlib
import itertools

from .values import *  # noqa: F401,F403
from .values import (
    V, Sym, Term, Rest, Heap, VList, VDict, Inst, Env, Module, Func, Bound, Cls, Ext, BMethod,
    Native, Partial, Descr, Attrib, Iter, Super, Exc, Match, is_const, key, freeze, show)
from .path import Path, Event, Infeasible, Imprecise, Diverges, Budget, neg, seq_items, _NO

sys.setrecursionlimit(20000)


class Raised(Exception):
    """An exception of the analysed program."""
    def __init__(self, exc):
        self.exc = exc
        self.loc = None
        self.stack = ()


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


STDLIB_OK = set(sys.stdlib_module_names)
_ext_cache = {}


def resolve_ext(name):
    """The real object of the standard library behind a dotted name (None if unknown)."""
    if name in _ext_cache:
        return _ext_cache[name]
    res = None
    parts = name.split('.')
    if hasattr(builtins, parts[0]) and parts[0] not in STDLIB_OK:
        obj = getattr(builtins, parts[0])
        rest = parts[1:]
        try:
            for p in rest:
                obj = getattr(obj, p)
            res = obj
        except AttributeError:
            res = None
    elif parts[0] in STDLIB_OK and parts[0] not in ('antigravity', 'this', 'idlelib'):
        for i in range(len(parts), 0, -1):
            try:
                obj = importlib.import_module('.'.join(parts[:i]))
            except Exception:
                continue
            try:
                for p in parts[i:]:
                    obj = getattr(obj, p)
                res = obj
            except AttributeError:
                res = None
            break
    _ext_cache[name] = res
    return res


class LoopCtx:
    def __init__(self, k, birth):
        self.key, self.birth, self.writes, self.start = k, birth, {}, {}


class Frame:
    __slots__ = ('name', 'func', 'node', 'module', 'env')

    def __init__(self, name, func, module, env):
        self.name, self.func, self.node, self.module, self.env = name, func, None, module, env


UNBOUND = {'str', 'list', 'dict', 'set', 'bytes', 'collections.OrderedDict', 'pathlib.Path'}


SAMPLE = 4000    # paths looked at beyond the maximal number of paths enumerated


class Engine:
    def __init__(self, root, package='csvw'):
        self.root, self.package = root, package
        self.modules = {}
        self.base_phase = True
        self.max_decisions = 4000
        self.max_steps = 400000
        self.max_paths = 20000
        self.max_depth = 60
        self.path = None
        self.frames = []
        self.journal = {}
        self.overrides = {}        # qualname -> python callable(eng, args, kw) or None
        self.ext_overrides = {}    # the same for external functions and '.methods'
        self.unroll = 0            # iterations to follow loops without fixpoint for
        self.deadline = None
        self.diverging = False     # report long concrete loops as Diverges
        self.injective = set()     # operators of terms which are equal only if their arguments are
        self.partial = self.truncated = False   # give up silently after max_paths paths
        self.raise_policy = None   # fn(eng, name, args) -> list of exception class names
        self.havoc = {}
        self.symbolic_loops = set()
        self.changed = False
        self.analysed = {}         # qualname -> (file, line), functions visited
        self.unmodelled = {}
        self.serial = 0
        self.basecount = {}
        self.path = Path(self, ())
        self.path_count = 0
        from . import ext
        self.ext = ext

    # ============================================================================ modules
    def modpath(self, name):
        parts = name.split('.')
        p = os.path.join(self.root, *parts)
        if os.path.isdir(p):
            return os.path.join(p, '__init__.py')
        return p + '.py'

    def is_repo(self, name):
        return name.split('.')[0] == self.package and os.path.exists(self.modpath(name))

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        fn = self.modpath(name)
        with open(fn, encoding='utf8') as f:
            src = f.read()
        tree = ast.parse(src, fn)
        m = Module(name, fn)
        self.modules[name] = m
        m.env = Env(m, None, name)
        self.register(m.env, 'module:' + name)
        self.setvar(m.env, '__name__', name)
        self.setvar(m.env, '__file__', fn)
        self.push_frame(name + ':<module>', None, m, m.env)
        saved = self.base_phase
        self.base_phase = True
        try:
            for _ in self.block(tree.body, m.env):
                pass
        finally:
            self.pop_frame()
            self.base_phase = saved
        # submodules are attributes of the package
        if '.' in name:
            pkg, _, last = name.rpartition('.')
            if pkg in self.modules:
                self.modules[pkg].env.vars[last] = m
        return m

    def start(self, *mods):
        for m in mods:
            self.load(m)
        self.base_phase = False
        return self

    # ============================================================================ bookkeeping
    def register(self, obj, hint):
        self.serial += 1
        obj.birth = self.serial
        sig = hint
        if self.frames:
            sig = '{}@{}'.format(hint, self.frames[-1].name)
        p = self.path
        n = p.alloc.get(sig, 0)
        p.alloc[sig] = n + 1
        obj.oid = sig if n == 0 else '{}#{}'.format(sig, n)
        if self.base_phase:
            obj.oid = 'B:' + obj.oid
            obj.base = True
        else:
            p.objs[obj.oid] = obj
        return obj

    def mut(self, obj, field):
        """Called before every write to a heap object."""
        if obj.base and not self.base_phase and id(obj) not in self.journal:
            self.journal[id(obj)] = (obj, obj.snap())
            self.path.objs[obj.oid] = obj
        if self.path.loops:
            for ctx in self.path.loops:
                if obj.birth < ctx.birth and (obj.oid, field) not in ctx.writes:
                    ctx.writes[(obj.oid, field)] = self.read_loc(obj, field)

    def read_loc(self, obj, field):
        if field == '[]':
            return tuple(obj.items)
        if field == '{}':
            return {k: e[1] for k, e in obj.d.items()}
        if isinstance(obj, Env):
            return obj.vars.get(field, _NO)
        if isinstance(obj, Inst):
            return obj.attrs.get(field, _NO)
        if isinstance(obj, Iter):
            return getattr(obj, 'pos', 0)
        if isinstance(obj, Sym):
            return obj.attrs.get(field, _NO)
        return _NO

    def write_loc(self, obj, field, v):
        if isinstance(obj, Env):
            obj.vars[field] = v
        elif isinstance(obj, Inst):
            obj.attrs[field] = v
        elif isinstance(obj, Iter):
            obj.pos = v

    def undo(self):
        for obj, s in self.journal.values():
            obj.restore(s)
        self.journal = {}

    def push_frame(self, name, func, module, env):
        if len(self.frames) > self.max_depth:
            raise Imprecise('call depth exceeded at ' + name)
        self.frames.append(Frame(name, func, module, env))

    def pop_frame(self):
        self.frames.pop()

    def loc(self):
        for f in reversed(self.frames):
            if f.node is not None:
                return '{}:{} ({})'.format(
                    os.path.relpath(f.module.path, self.root), getattr(f.node, 'lineno', 0), f.name)
        return '?'

    def stack(self):
        return tuple(f.name for f in self.frames)

    def event(self, name, args=(), kw=None):
        p = self.path
        e = Event(name, tuple(args), dict(kw or {}), self.loc(), tuple(c.key for c in p.loops),
                  self.stack(), len(p.events))
        p.events.append(e)
        return e

    def VL(self, items=()):
        return self.register(VList(items), 'list:{}'.format(self.site()))

    def VD(self, pairs=(), **kw):
        return self.register(VDict(pairs, **kw), 'dict:{}'.format(self.site()))

    def site(self):
        n = self.frames[-1].node if self.frames else None
        return '{}:{}'.format(getattr(n, 'lineno', 0), getattr(n, 'col_offset', 0)) if n is not None \
            else '-'

    def raise_ext(self, name, args=(), origin=None):
        if name in ('TypeError', 'AttributeError') and self.path.soft_none:
            self.path.note('result of {} assumed to be None'.format(self.path.soft_none[0]))
        raise self.raised(Exc(Ext(name), args, origin=origin))

    def raised(self, exc):
        r = Raised(exc)
        r.loc = self.loc()
        r.stack = self.stack()
        return r

    # ============================================================================ exploration
    def explore(self, harness, label=''):
        """harness(eng) -> anything; runs it on every abstract path; returns list of Path."""
        self.havoc = {}
        self.symbolic_loops = set()
        for round_ in range(25):
            self.changed = False
            paths = self.explore_once(harness)
            if not self.changed:
                self.path = Path(self, ())
                return paths
        raise Budget('loop fixpoint not reached: ' + label)

    def explore_once(self, harness):
        res, dec, n = [], [], 0
        sample, rnd, last = False, None, 0
        while True:
            n += 1
            self.path_count += 1
            if n > self.max_paths and self.partial:
                self.truncated = True
                return res
            if self.deadline and n > 1 and time.time() > self.deadline:
                if self.changed:
                    raise Budget('time is up')
                self.truncated = True
                return res
            if n > self.max_paths and not sample:
                # too many paths to enumerate: look at a sample of the remaining ones
                self.truncated = True
                sample, rnd, last = True, random.Random(1), n + SAMPLE
            if sample and n > last:
                return res
            p = Path(self, () if sample else dec)
            p.rnd = rnd
            self.path = p
            serial = self.serial
            self.frames = []
            self.journal = {}
            try:
                p.value = harness(self)
                p.outcome = 'done'
            except Infeasible:
                p.outcome = 'infeasible'
            except Imprecise as e:
                p.outcome = 'imprecise'
                p.note('{} [{}]'.format(e, self.loc()))
            except Raised as e:
                p.outcome = 'imprecise'
                p.note('harness raised {} at {}'.format(show(e.exc), e.loc))
            except RecursionError:
                p.outcome = 'imprecise'
                p.note('analyser recursion limit')
            finally:
                for c in list(getattr(p, 'open_gens', ())):
                    try:
                        c.close()
                    except BaseException:
                        pass
                self.undo()
                self.serial = serial
            if p.outcome != 'infeasible':
                res.append(p)
            # next decision vector
            if sample:
                continue
            dec = p.dec[:p.i]
            trail = p.trail
            i = len(trail) - 1
            while i >= 0 and trail[i][2] + 1 >= trail[i][1]:
                i -= 1
            if i < 0:
                return res
            dec = [t[2] for t in trail[:i]] + [trail[i][2] + 1]

    # ============================================================================ calls
    def call(self, f, args=(), kw=None):
        kw = kw or {}
        args = list(args)
        if isinstance(f, Bound):
            return self.call(f.func, [f.self_] + args, kw)
        if isinstance(f, Func):
            return self.call_func(f, args, kw)
        if isinstance(f, Native):
            return f.fn(self, args, kw)
        if isinstance(f, Partial):
            return self.call(f.func, list(f.args) + args, dict(f.kw, **kw))
        if isinstance(f, Cls):
            return self.instantiate(f, args, kw)
        if isinstance(f, Ext):
            return self.call_ext(f.name, args, kw)
        if isinstance(f, BMethod):
            return self.ext.call_method(self, f.obj, f.name, args, kw)
        if isinstance(f, Inst):
            m = self.class_attr(f.cls, '__call__')
            if m is not None:
                return self.call(m, [f] + args, kw)
        if isinstance(f, Descr):
            return self.call(f.func, args, kw)
        if isinstance(f, Sym) and f.call:
            return f.call(self, args, kw)
        if isinstance(f, (Sym, Term)):
            if self.path.isnone(f):
                self.raise_ext('TypeError', ("'NoneType' object is not callable",))
            e = self.event('call:' + show(f), args, kw)
            e.result = self.mkterm('call', [f] + args, kw)
            self.maybe_raise('call:' + show(f), args, e)
            return e.result
        raise Imprecise('call of {}'.format(show(f)))

    def mkterm(self, op, args, kw=None, typ=None, elemtyp=None, ext=None):
        a = [x for x in args]
        for k in sorted(kw or {}):
            a.append(Term('kw:' + k, (kw[k],)))
        return Term(op, a, typ=typ, elemtyp=elemtyp, ext=ext)

    def maybe_raise(self, name, args, e=None):
        if self.raise_policy is None or self.base_phase:
            return
        excs = self.raise_policy(self, name, args)
        if excs:
            c = self.path.choose('{} raises one of {}'.format(name, excs), 1 + len(excs))
            if c:
                exc = Exc(Ext(excs[c - 1]), (), origin=name)
                if e is not None:
                    e.raised = exc
                raise self.raised(exc)

    def call_ext(self, name, args, kw):
        m = self.ext_overrides.get(name)
        if m is not None:
            r = m(self, args, kw)
            if r is not _NO:
                return r
        m = self.ext.MODELS.get(name)
        if m is not None:
            return m(self, args, kw)
        cls, _, meth = name.rpartition('.')
        if cls in UNBOUND and args and meth not in ('fromkeys', 'maketrans', '__new__', '__init__'):
            return self.ext.call_method(self, args[0], meth, args[1:], kw)
        real = resolve_ext(name)
        if isinstance(real, type) and issubclass(real, BaseException):
            return Exc(Ext(name), args, kw)
        if name in self.ext.EXT_EXC:
            return Exc(Ext(name), args, kw)
        if name in self.ext.FOLD and real is not None:
            r = self.ext.fold(self, real, args, kw)
            if r is not _NO:
                return r
        e = self.event(name, args, kw)
        self.unmodelled[name] = self.unmodelled.get(name, 0) + 1
        self.maybe_raise(name, args, e)
        typ, elemtyp, ext = self.ext.RESULT.get(name, (None, None, None))
        if name in self.ext.FRESH:
            n = self.path.fresh.get(name, 0)
            self.path.fresh[name] = n + 1
            e.result = self.mkterm('{}#{}'.format(name, n), args, kw, typ, elemtyp, ext)
        else:
            e.result = self.mkterm(name, args, kw, typ, elemtyp, ext)
        return e.result

    def call_func(self, f, args, kw):
        ov = self.overrides.get(f.qualname)
        if ov is not None and not self.base_phase:
            return ov(self, args, kw)
        node = f.node
        env = Env(f.env.module, f.env, f.qualname, f)
        env.cls = f.cls
        rec = sum(1 for fr in self.frames if fr.func is f)
        if rec >= 3 and not self.base_phase:
            if rec >= 12 or any(isinstance(a, (Sym, Term)) for a in args):
                self.path.note('recursion cut: ' + f.qualname)
                return self.mkterm('rec:' + f.qualname, args, kw)
        self.register(env, 'env:' + f.qualname)
        self.bind(f, node.args, env, args, kw)
        if args and f.cls is not None:
            env.self_ = args[0]
        self.analysed[f.qualname] = (f.env.module.path, node.lineno)
        if isinstance(node, ast.Lambda):
            self.push_frame(f.qualname, f, f.env.module, env)
            try:
                return self.eval(node.body, env)
            finally:
                self.pop_frame()
        if f.isgen:
            return self.make_generator(f, env)
        self.push_frame(f.qualname, f, f.env.module, env)
        try:
            for _ in self.block(node.body, env):
                raise Imprecise('yield outside generator')
            return None
        except _Return as r:
            return r.v
        finally:
            self.pop_frame()

    def make_generator(self, f, env):
        eng = self
        mod = f.env.module

        def run():
            frame = Frame(f.qualname, f, mod, env)
            body = eng.block(f.node.body, env)
            try:
                while True:
                    eng.frames.append(frame)
                    try:
                        try:
                            v = next(body)
                        except StopIteration:
                            return
                        except _Return:
                            return
                    finally:
                        # remove our frame (top-most occurrence)
                        for i in range(len(eng.frames) - 1, -1, -1):
                            if eng.frames[i] is frame:
                                del eng.frames[i:]
                                break
                    try:
                        yield v
                    except GeneratorExit:
                        eng.frames.append(frame)
                        try:
                            body.close()
                        finally:
                            if eng.frames and eng.frames[-1] is frame:
                                eng.frames.pop()
                        raise
                    except Raised as exc:
                        # thrown into the generator (contextmanager)
                        eng.frames.append(frame)
                        try:
                            try:
                                v = body.throw(exc)
                            except StopIteration:
                                return
                            except _Return:
                                return
                        finally:
                            if eng.frames and eng.frames[-1] is frame:
                                eng.frames.pop()
                        yield v
            finally:
                pass
        it = Iter(run(), 'gen:' + f.qualname)
        it.isgen = True
        return self.register(it, 'gen:' + f.qualname)

    def bind(self, f, a, env, args, kw):
        params = [x.arg for x in a.posonlyargs + a.args]
        kw = dict(kw)
        star = kw.pop('**', None)
        if isinstance(star, VDict) and not a.kwarg:
            star = freeze(star)
        nd = len(f.defaults)
        rest = None
        vals = {}
        pos = []
        for v in args:
            if isinstance(v, Rest):
                rest = v
                continue
            pos.append(v)
        for i, p in enumerate(params):
            if i < len(pos):
                vals[p] = pos[i]
        extra = pos[len(params):]
        if rest is not None and not a.vararg:
            raise Imprecise('unknown number of arguments for ' + f.qualname)
        if extra and not a.vararg:
            self.raise_ext('TypeError', ('{}() takes {} positional arguments'.format(
                f.name, len(params)),))
        kwonly = [x.arg for x in a.kwonlyargs]
        posonly = {x.arg for x in a.posonlyargs}
        extrakw = []
        for k, v in kw.items():
            if k in params and k not in posonly or k in kwonly:
                if k in vals:
                    self.raise_ext('TypeError', ("multiple values for argument '{}'".format(k),))
                vals[k] = v
            else:
                extrakw.append((k, v))
        if extrakw and not a.kwarg:
            self.raise_ext('TypeError', ("{}() got an unexpected keyword argument '{}'".format(
                f.name, extrakw[0][0]),))
        for i, p in enumerate(params):
            if p not in vals:
                j = i - (len(params) - nd)
                if j >= 0:
                    vals[p] = f.defaults[j]
                elif rest is not None:
                    raise Imprecise('unknown arguments')
                else:
                    self.raise_ext('TypeError', ("{}() missing argument '{}'".format(f.name, p),))
        for p in kwonly:
            if p not in vals:
                if p in f.kwdefaults:
                    vals[p] = f.kwdefaults[p]
                else:
                    self.raise_ext('TypeError', ("{}() missing argument '{}'".format(f.name, p),))
        for k, v in vals.items():
            env.vars[k] = v
        if a.vararg:
            if rest is not None:
                env.vars[a.vararg.arg] = self.VL(extra + [rest])
            else:
                env.vars[a.vararg.arg] = tuple(extra)
        if a.kwarg:
            d = self.VD(extrakw)
            if isinstance(star, VDict) and not star.rest:
                for k, v in star.d.values():
                    self.ext.dict_set(self, d, k, v)
            elif star is not None:
                d.rest.append(Rest(freeze(star)))
            env.vars[a.kwarg.arg] = d
        elif star is not None:
            raise Imprecise('unknown keyword arguments for ' + f.qualname)

    # ============================================================================ classes
    def compute_mro(self, cls):
        def mro(c):
            if isinstance(c, Cls):
                return c.mro
            return [c]
        seqs = [list(mro(b)) for b in cls.bases] + [list(cls.bases)]
        res = [cls]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                return res
            for s in seqs:
                cand = s[0]
                if not any(key(cand) in [key(x) for x in t[1:]] for t in seqs):
                    break
            else:
                raise Imprecise('inconsistent mro')
            res.append(cand)
            for s in seqs:
                if key(s[0]) == key(cand):
                    del s[0]

    def class_attr(self, cls, name, after=None):
        mro = cls.mro
        if after is not None:
            for i, c in enumerate(mro):
                if c is after:
                    mro = mro[i + 1:]
                    break
        for c in mro:
            if isinstance(c, Cls) and name in c.ns:
                return c.ns[name]
        return None

    def ext_bases(self, cls):
        return [c for c in cls.mro if isinstance(c, Ext) and c.name != 'object']

    def dict_like(self, cls):
        for b in self.ext_bases(cls):
            if b.name in ('dict', 'collections.OrderedDict', 'collections.UserDict'):
                return True
        return False

    def instantiate(self, cls, args, kw):
        ov = self.overrides.get(cls.qualname)
        if ov is not None and not self.base_phase:
            return ov(self, args, kw)
        ns = [c for c in cls.mro if isinstance(c, Cls) and getattr(c, 'namedtuple', None)]
        inst = self.register(Inst(cls), 'inst:' + cls.qualname)
        if self.dict_like(cls):
            inst.payload = self.VD((), cls='OrderedDict')
        init = self.class_attr(cls, '__init__')
        if init is not None:
            self.call(init, [inst] + list(args), kw)
        elif ns:
            for n, v in zip(ns[0].namedtuple, args):
                inst.attrs[n] = v
            inst.attrs.update(kw)
        else:
            bases = self.ext_bases(cls)
            if bases:
                real = resolve_ext(bases[0].name)
                if isinstance(real, type) and issubclass(real, BaseException):
                    inst.attrs['args'] = tuple(args)
                else:
                    inst.attrs['__ext_args__'] = tuple(args)
                    e = self.event(bases[0].name, args, kw)
                    self.maybe_raise(bases[0].name, args, e)
                    if inst.payload is not None and args:
                        self.ext.dict_update(self, inst.payload, args[0])
            elif args or kw:
                self.raise_ext('TypeError', ('{}() takes no arguments'.format(cls.name),))
        return inst

    def inst_truth(self, inst):
        m = self.class_attr(inst.cls, '__bool__')
        if m is not None:
            return self.path.truth(self.call(m, [inst]))
        m = self.class_attr(inst.cls, '__len__')
        if m is not None:
            return self.path.truth(self.call(m, [inst]))
        if inst.payload is not None:
            return self.path.truth(inst.payload)
        return True

    def isinstance_known(self, x, t):
        if isinstance(t, Sym) or isinstance(t, Term):
            return None
        if isinstance(x, Inst):
            if isinstance(t, Cls):
                return any(c is t for c in x.cls.mro)
            if isinstance(t, Ext):
                for b in self.ext_bases(x.cls):
                    if b.name == t.name:
                        return True
                    rb, rt = resolve_ext(b.name), resolve_ext(t.name)
                    if isinstance(rb, type) and isinstance(rt, type) and issubclass(rb, rt):
                        return True
                return t.name == 'object'
            return None
        real = resolve_ext(t.name) if isinstance(t, Ext) else None
        if isinstance(x, Exc):
            if isinstance(t, Cls):
                return False
            return self.exc_match(x, t)
        py = None
        if isinstance(x, tuple):
            py = tuple
        elif is_const(x):
            if isinstance(real, type):
                return isinstance(x, real)
            if isinstance(t, Cls):
                return False
            return False if isinstance(t, Ext) else None
        elif isinstance(x, VList):
            py = list
        elif isinstance(x, VDict):
            import collections
            py = (set if x.cls != 'frozenset' else frozenset) if x.isset else (
                collections.OrderedDict if x.cls == 'OrderedDict' else
                collections.defaultdict if x.cls == 'defaultdict' else dict)
        elif isinstance(x, (Func, Bound, Native, Partial, BMethod, Descr, Iter, Module)):
            return False if isinstance(real, type) or isinstance(t, Cls) else None
        elif isinstance(x, (Cls,)):
            return real is type
        elif isinstance(x, Ext):
            rx = resolve_ext(x.name)
            if rx is not None and isinstance(real, type):
                return isinstance(rx, real)
            return None
        elif isinstance(x, (Sym, Term)):
            if x.ext:
                if isinstance(t, Cls):
                    return False
                if x.ext == t.name:
                    return True
                rx = resolve_ext(x.ext)
                if isinstance(rx, type) and isinstance(real, type):
                    return issubclass(rx, real)
                if isinstance(real, type):
                    return False
                return False
            ty = self.path.typ(x)
            if ty is None:
                return None
            if isinstance(t, Cls):
                return False
            py = self.ext.TYP_REAL.get(ty)
        if py is not None and isinstance(real, type):
            return issubclass(py, real)
        if py is not None:
            return False
        return None

    # ============================================================================ exceptions
    def real(self, x):
        """something comparable by identity, for a type"""
        return x if isinstance(x, Cls) else resolve_ext(x.name)

    def exc_class(self, exc):
        if isinstance(exc, Inst):
            return exc.cls
        if isinstance(exc, Exc):
            return exc.cls
        if isinstance(exc, (Cls, Ext)):
            return exc
        return None

    def exc_bases(self, c):
        """Names / Cls an exception class is an instance of; None if unknown"""
        if isinstance(c, Cls):
            res = []
            for m in c.mro:
                res += [m] if isinstance(m, Cls) else self.exc_bases(m)
            return res
        real = resolve_ext(c.name)
        if isinstance(real, type) and issubclass(real, BaseException):
            return list(real.__mro__)
        return [c.name] + [b for n in self.ext.EXT_EXC.get(c.name, ['Exception'])
                           for b in self.exc_bases(Ext(n))]

    def exc_match(self, exc, handler):
        if isinstance(handler, tuple):
            return any(self.exc_match(exc, h) for h in handler)
        if isinstance(handler, (VList,)):
            return any(self.exc_match(exc, h) for h in handler.items)
        c = self.exc_class(exc)
        if c is None:
            return self.path.truth(Term('excmatch', (exc, handler), typ='bool'))
        bases = self.exc_bases(c)
        if isinstance(handler, Cls):
            return any(b is handler for b in bases)
        if isinstance(handler, Ext):
            real = resolve_ext(handler.name)
            if real is not None:
                return real in bases
            return handler.name in bases
        return False

    # ============================================================================ attributes
    def getattr(self, obj, name, default=_NO):
        if isinstance(obj, Inst):
            return self.inst_getattr(obj, name, default)
        if isinstance(obj, Cls):
            if name == '__name__':
                return obj.name
            if name == '__qualname__':
                return obj.qualname
            if name == '__mro__':
                return tuple(obj.mro)
            if name == '__dict__':
                return self.VD(list(obj.ns.items()))
            if name == '__module__':
                return obj.module
            v = self.class_attr(obj, name)
            if v is not None or any(isinstance(c, Cls) and name in c.ns for c in obj.mro):
                if isinstance(v, Descr):
                    if v.kind == 'staticmethod':
                        return v.func
                    if v.kind == 'classmethod':
                        return Bound(v.func, obj)
                    return v
                return v
            for b in self.ext_bases(obj):
                return Ext(b.name + '.' + name)
            if default is not _NO:
                return default
            self.raise_ext('AttributeError', ("type object '{}' has no attribute '{}'".format(
                obj.name, name),))
        if isinstance(obj, Module):
            if name in obj.env.vars:
                return obj.env.vars[name]
            sub = obj.name + '.' + name
            if self.is_repo(sub):
                return self.load(sub)
            if default is not _NO:
                return default
            self.raise_ext('AttributeError', ("module has no attribute '{}'".format(name),))
        if isinstance(obj, Ext):
            return self.ext_attr(obj, name)
        if isinstance(obj, Super):
            return self.super_getattr(obj, name)
        if isinstance(obj, Sym):
            if name in obj.attrs:
                v = obj.attrs[name]
                return v(self) if callable(v) and not isinstance(v, V) else v
            if name in obj.methods:
                fn = obj.methods[name]
                return Native('{}.{}'.format(obj.name, name), fn)
            if name == '__class__' and obj.ext:
                return Ext(obj.ext)
            if self.path.isnone(obj):
                if default is not _NO:
                    return default
                self.raise_ext('AttributeError', ("'NoneType' object has no attribute '{}'".format(
                    name),))
            return BMethod(obj, name)
        if isinstance(obj, Term):
            if self.path.isnone(obj):
                if default is not _NO:
                    return default
                self.raise_ext('AttributeError', ("'NoneType' object has no attribute '{}'".format(
                    name),))
            return BMethod(obj, name)
        if isinstance(obj, Exc):
            if name == 'args':
                return tuple(obj.args)
            if name in obj.attrs:
                return obj.attrs[name]
            if name == 'value' and obj.cls.name == 'StopIteration':
                return obj.args[0] if obj.args else None
            if name in ('message', 'msg', 'code', 'errno', 'filename'):
                return Term('attr:' + name, (obj,))
            if name in ('with_traceback',):
                return Native('with_traceback', lambda e, a, k: obj)
            if name == '__class__':
                return obj.cls
            if default is not _NO:
                return default
            return Term('attr:' + name, (obj,))
        if isinstance(obj, Iter) and name in getattr(obj, 'attrs', ()):
            return obj.attrs[name](self)
        if isinstance(obj, (VList, VDict, Iter, tuple)) or is_const(obj):
            if name == '__class__':
                return self.ext.type_of(self, obj)
            if name == 'default_factory' and isinstance(obj, VDict):
                return obj.default
            if obj is None:
                if default is not _NO:
                    return default
                self.raise_ext('AttributeError', ("'NoneType' object has no attribute '{}'".format(
                    name),))
            if not self.ext.has_member(obj, name):
                if default is not _NO:
                    return default
                self.raise_ext('AttributeError', ("no attribute '{}'".format(name),))
            d = self.ext.data_member(self, obj, name)
            if d is not _NO:
                return d
            return BMethod(obj, name)
        if isinstance(obj, Func):
            if name in ('__name__', '__qualname__'):
                return obj.name
            if name == '__doc__':
                return None
            if name in obj.attrs:
                return obj.attrs[name]
            if name == '__get__':
                return Native('__get__', lambda e, a, k: Bound(obj, a[0]))
        if isinstance(obj, Bound):
            if name == '__self__':
                return obj.self_
            if name == '__func__':
                return obj.func
            return self.getattr(obj.func, name, default)
        if isinstance(obj, Descr):
            if name in ('setter', 'getter', 'deleter'):
                def mk(e, a, k):
                    if name == 'setter':
                        return Descr(obj.kind, obj.func, setter=a[0])
                    return Descr(obj.kind, a[0] if name == 'getter' else obj.func, obj.setter)
                return Native('property.' + name, mk)
            if name in ('fget', 'func', '__func__'):
                return obj.func
        if isinstance(obj, Attrib):
            if name == 'validator':
                def deco(e, a, k):
                    obj.validators.append(a[0])
                    return a[0]
                return Native('attr.validator', deco)
            if name == 'default':
                def deco2(e, a, k):
                    obj.kw['default'] = ('method', a[0])
                    return a[0]
                return Native('attr.default', deco2)
        if isinstance(obj, (Native, Partial, BMethod)):
            if name in ('func', 'args', 'keywords') and isinstance(obj, Partial):
                return {'func': obj.func, 'args': obj.args, 'keywords': self.VD(
                    list(obj.kw.items()))}[name]
            if isinstance(obj, BMethod) and isinstance(obj.obj, (Sym, Term)):
                return BMethod(self.force_attr(obj), name)
        if default is not _NO:
            return default
        raise Imprecise('attribute {} of {}'.format(name, show(obj)))

    def force_attr(self, bm):
        """An attribute of an unknown object that is used as a value, not called."""
        if isinstance(bm, BMethod) and isinstance(bm.obj, (Sym, Term)):
            return self.ext.attr_term(self, bm.obj, bm.name)
        return bm

    def ext_attr(self, obj, name):
        full = obj.name + '.' + name
        if full in self.ext.MODELS or full in self.ext.CONSTS:
            return self.ext.CONSTS.get(full, Ext(full))
        real = resolve_ext(full)
        if real is not None and is_const(real) and not isinstance(real, type):
            return real
        if isinstance(real, (list, set, frozenset)) and all(is_const(x) for x in real):
            return tuple(real)
        return Ext(full)

    def inst_getattr(self, obj, name, default=_NO):
        if name == '__class__':
            return obj.cls
        if name == '__dict__':
            return self.VD(list(obj.attrs.items()))
        v = None
        found = any(isinstance(c, Cls) and name in c.ns for c in obj.cls.mro)
        if found:
            v = self.class_attr(obj.cls, name)
            if isinstance(v, Descr) and v.kind == 'property':
                return self.call(v.func, [obj])
        if name in obj.attrs:
            return obj.attrs[name]
        if found:
            return self.bind_attr(v, obj)
        if obj.payload is not None and self.ext.has_member(obj.payload, name):
            return BMethod(obj.payload, name)
        g = self.class_attr(obj.cls, '__getattr__')
        if g is not None:
            return self.call(g, [obj, name])
        bases = self.ext_bases(obj.cls)
        if bases:
            real = resolve_ext(bases[0].name)
            if name == 'args' and isinstance(real, type) and issubclass(real, BaseException):
                return obj.attrs.get('args', ())
            if name == 'uri' and bases[0].name == 'uritemplate.URITemplate' and obj.attrs.get('__ext_args__'):
                return obj.attrs['__ext_args__'][0]
            if real is None:
                # unknown base: member of unknown kind
                return BMethod(Term('inst', (obj,), ext=bases[0].name), name)
            if hasattr(real, name):
                return BMethod(Term('inst', (obj,), ext=bases[0].name), name)
        if default is not _NO:
            return default
        self.raise_ext('AttributeError', ("'{}' object has no attribute '{}'".format(
            obj.cls.name, name),))

    def bind_attr(self, v, obj):
        if isinstance(v, Func):
            return Bound(v, obj)
        if isinstance(v, Native):
            return Bound(v, obj)
        if isinstance(v, Descr):
            if v.kind == 'staticmethod':
                return v.func
            if v.kind == 'classmethod':
                return Bound(v.func, obj.cls)
            if v.kind == 'cached_property':
                r = self.call(v.func, [obj])
                nm = v.func.name if isinstance(v.func, Func) else None
                if nm:
                    self.mut(obj, nm)
                    obj.attrs[nm] = r
                return r
            if v.kind == 'property':
                return self.call(v.func, [obj])
        return v

    def super_getattr(self, sup, name):
        self_ = sup.self_
        cls = self_.cls if isinstance(self_, Inst) else self_
        found = None
        seen = False
        for c in cls.mro:
            if c is sup.cls:
                seen = True
                continue
            if not seen:
                continue
            if isinstance(c, Cls) and name in c.ns:
                found = c.ns[name]
                break
            if isinstance(c, Ext) and c.name != 'object':
                inst = self_
                if name == '__init__':
                    def init(e, a, k):
                        if isinstance(inst, Inst):
                            inst.attrs['__ext_args__'] = tuple(a)
                            if inst.payload is not None:
                                if a:
                                    e.ext.dict_update(e, inst.payload, a[0])
                                for kk, vv in k.items():
                                    e.ext.dict_set(e, inst.payload, kk, vv)
                            else:
                                e.event(c.name, a, k)
                        return None
                    return Native('super.__init__', init)
                if isinstance(inst, Inst) and inst.payload is not None and self.ext.has_member(
                        inst.payload, name):
                    return BMethod(inst.payload, name)
                return BMethod(Term('super', (self_,), ext=c.name), name)
        if found is None:
            if name in ('__init__', '__init_subclass__', '__setattr__', '__attrs_post_init__'):
                if name == '__setattr__':
                    return Native('object.__setattr__', lambda e, a, k: e.setattr(
                        self_, a[0], a[1]))
                return Native('object.' + name, lambda e, a, k: None)
            self.raise_ext('AttributeError', ('super has no ' + name,))
        if isinstance(found, (Func, Native)):
            return Bound(found, self_)
        if isinstance(found, Descr):
            if found.kind == 'property':
                return self.call(found.func, [self_])
            if found.kind == 'classmethod':
                return Bound(found.func, cls)
            if found.kind == 'staticmethod':
                return found.func
        return found

    def setattr(self, obj, name, v):
        if isinstance(obj, Inst):
            d = self.class_attr(obj.cls, name)
            if isinstance(d, Descr) and d.kind == 'property':
                if d.setter is None:
                    self.raise_ext('AttributeError', ("can't set attribute '{}'".format(name),))
                self.call(d.setter, [obj, v])
                return
            self.mut(obj, name)
            obj.attrs[name] = v
            self.path.events.append(self._quiet('setattr', (obj, name, v)))
            return
        if isinstance(obj, Cls):
            self.mut(obj, name)
            obj.ns[name] = v
            return
        if isinstance(obj, Module):
            self.setvar(obj.env, name, v)
            return
        if isinstance(obj, Func):
            self.mut(obj, name)
            obj.attrs[name] = v
            return
        if isinstance(obj, Sym):
            self.event('setattr', (obj, name, v))
            obj.attrs[name] = v
            return
        if isinstance(obj, (Term, Ext, BMethod)):
            self.event('setattr', (obj, name, v))
            return
        if isinstance(obj, Exc):
            obj.attrs[name] = v
            return
        raise Imprecise('setattr on {}'.format(show(obj)))

    def _quiet(self, name, args):
        p = self.path
        return Event(name, tuple(args), {}, self.loc(), tuple(c.key for c in p.loops), self.stack(),
                     len(p.events))

    def hasattr(self, obj, name):
        if isinstance(obj, Sym):
            if name in obj.attrs or name in obj.methods:
                return True
            if self.path.isnone(obj):
                return False
        if isinstance(obj, (Sym, Term)):
            t = self.path.typ(obj)
            py = self.ext.TYP_REAL.get(t)
            if py is not None:
                return hasattr(py, name)
            if obj.ext:
                real = resolve_ext(obj.ext)
                if isinstance(real, type):
                    return hasattr(real, name)
            return self.path.atom_truth(Term('hasattr', (obj, name), typ='bool'))
        try:
            self.getattr(obj, name)
            return True
        except Raised as e:
            if self.exc_match(e.exc, Ext('AttributeError')):
                return False
            raise

    # ============================================================================ variables
    def setvar(self, env, name, v):
        if name in env.globals_:
            env = env.module.env
        elif name in env.nonlocals_:
            e = env.parent
            while e is not None and name not in e.vars:
                e = e.parent
            env = e or env
        self.mut(env, name)
        env.vars[name] = v

    def lookup(self, env, name):
        e = env
        if name in env.globals_:
            e = env.module.env
        first = True
        while e is not None:
            if not (e.isclass and not first) and name in e.vars:
                return e.vars[name]
            first = False
            e = e.parent
        m = env.module.env
        if name in m.vars:
            return m.vars[name]
        if hasattr(builtins, name):
            o = getattr(builtins, name)
            if is_const(o):
                return o
            return Ext(name)
        if name == '__class__' and env.cls is not None:
            return env.cls
        self.raise_ext('NameError', ("name '{}' is not defined".format(name),))

    # ============================================================================ loops
    def loopkey(self, hint=''):
        fr = self.frames[-1] if self.frames else None
        sig = '/'.join('{}:{}'.format(f.name, getattr(f.node, 'lineno', 0)) for f in self.frames[-6:])
        return '{}|{}|{}'.format(sig, self.site(), hint)

    def enter_loop(self, k, mode):
        if mode == 'later':
            self.apply_havoc(k)
        self.serial += 1
        ctx = LoopCtx(k, self.serial)
        for (oid, field), h in self.havoc.get(k, {}).items():
            obj = self.path.objs.get(oid)
            if obj is not None:
                ctx.start[(oid, field)] = self.read_loc(obj, field)
        self.path.loops.append(ctx)
        return ctx

    def leave_loop(self, ctx, completed):
        if ctx in self.path.loops:
            self.path.loops.remove(ctx)
        if not completed:
            return
        hv = self.havoc.setdefault(ctx.key, {})
        for loc, before in ctx.writes.items():
            oid, field = loc
            obj = self.path.objs.get(oid)
            if obj is None:
                continue
            after = self.read_loc(obj, field)
            start = ctx.start.get(loc, before)
            if field in ('[]', '{}'):
                same = _same_content(start, after)
            else:
                same = _k(start) == _k(after)
            h = hv.get(loc)
            if same:
                if h is not None and not h['maybe']:
                    h['maybe'] = True
                    self.changed = True
                continue
            if h is None:
                h = hv[loc] = {'maybe': False, 'consts': {}, 'opaque': False, 'typ': set(),
                               'inc': True, 'template': {}}
                self.changed = True
            if field == '[]':
                if tuple(_k(x) for x in after[:len(start)]) == tuple(_k(x) for x in start):
                    for x in after[len(start):]:
                        fx = freeze(x)
                        if _k(fx) not in h['template']:
                            if len(h['template']) < 6:
                                h['template'][_k(fx)] = fx
                else:
                    if h['inc']:
                        h['inc'] = False
                        self.changed = True
                continue
            if field == '{}':
                for kk in list(start):
                    if kk not in after or _k(after[kk]) != _k(start[kk]):
                        if kk not in h['template']:
                            h['template'][kk] = True
                            self.changed = True
                continue
            if isinstance(start, V) or not is_const(after):
                pass
            if is_const(after) and not isinstance(after, (int, float)) or isinstance(after, bool):
                if _k(after) not in h['consts']:
                    if len(h['consts']) < 6:
                        h['consts'][_k(after)] = after
                        self.changed = True
                    elif not h['opaque']:
                        h['opaque'] = True
                        self.changed = True
            else:
                if not h['opaque']:
                    h['opaque'] = True
                    self.changed = True
                inc = isinstance(after, (int, float)) and isinstance(start, (int, float)) and \
                    after > start or (
                        isinstance(after, Term) and after.op == 'add' and
                        _k(after.args[0]) == _k(start) and is_const(after.args[1]) and
                        after.args[1] > 0)
                if h['inc'] and not inc:
                    h['inc'] = False
                    self.changed = True
                t = self.path.typ(after) or '?'
                if t not in h['typ']:
                    h['typ'].add(t)
                    self.changed = True
        for loc, h in hv.items():
            if loc not in ctx.writes and not h['maybe']:
                if self.path.objs.get(loc[0]) is not None:
                    h['maybe'] = True
                    self.changed = True

    def apply_havoc(self, k):
        p = self.path
        for (oid, field), h in list(self.havoc.get(k, {}).items()):
            obj = p.objs.get(oid)
            if obj is None:
                continue
            if obj.base and id(obj) not in self.journal:
                self.journal[id(obj)] = (obj, obj.snap())
            self.mut(obj, field)
            nm = 'phi({}.{})'.format(oid, field)
            if field == '[]':
                src = Sym('acc({})'.format(oid), typ='list')
                r = Rest(src, template=list(h['template'].values()))
                if h['inc']:
                    obj.items = list(obj.items) + [r]
                else:
                    obj.items = [r]
                if not h['maybe'] and h['inc']:
                    p.truths[('truth', src.key())] = True
                continue
            if field == '{}':
                src = Sym('acc({})'.format(oid), typ='dict' if not obj.isset else 'set')
                for kk in h['template']:
                    if kk in obj.d:
                        # deleted or overwritten: unknown from here on
                        del obj.d[kk]
                obj.rest = list(obj.rest) + [Rest(src)]
                continue
            v0 = self.read_loc(obj, field)
            opts = list(h['consts'].values())
            if h['maybe'] and v0 is not _NO and not any(_k(o) == _k(v0) for o in opts):
                opts.append(v0)
            if h['opaque']:
                t = next(iter(h['typ'])) if len(h['typ']) == 1 else None
                if t == '?' or t == 'none':
                    t = None
                s = Sym(nm, typ=t)
                if t in ('func', 'type', 'iter'):
                    s = Sym(nm, typ=None)
                if h['inc'] and isinstance(v0, (int, float)) and t in ('int', 'float'):
                    p.lo[s.key()] = (v0 + 1, False) if t == 'int' and isinstance(v0, int) else (
                        v0, True)
                opts.append(s)
            if not opts:
                continue
            i = p.choose('value of {} in a later iteration'.format(nm), len(opts)) \
                if len(opts) > 1 else 0
            self.write_loc(obj, field, opts[i])

    def elem(self, src):
        if isinstance(src, Sym) and src.elem:
            return src.elem(self)
        if isinstance(src, Term) and src.op in ('map', 'filtermap'):
            return src.args[1]
        et = src.elemtyp if isinstance(src, (Sym, Term)) else None
        if et is None and self.path.typ(src) == 'str':
            et = 'str'
        t, sub = (et[0], et[1]) if isinstance(et, tuple) else (et, None)
        return Term('elem', (src,), typ=t, elemtyp=sub)

    def opaque_iter(self, src, pos=0, hint=''):
        """One arbitrary iteration over an unknown sequence (see module doc)."""
        p = self.path
        if p.isnone(src):
            self.raise_ext('TypeError', ("'NoneType' object is not iterable",))
        if not self.more(src, pos):
            return
        k = self.loopkey('{}@{}'.format(hint, pos))
        modes = ['first', 'later'] if self.havoc.get(k) else ['first']
        mode = modes[p.choose('iteration of loop over {}: {}'.format(show(src), modes), len(modes))] \
            if len(modes) > 1 else 'first'
        if isinstance(src, Term) and src.op == 'dictitems':
            el = (Term('elem', (Term('.keys', (src.args[0],)),), typ='str'),
                  Term('elem', (Term('.values', (src.args[0],)),)))
        else:
            el = self.elem(src)
        ctx = self.enter_loop(k, mode)
        ctx.mode = mode
        ctx.src = src
        p.loopmodes.append((key(src), mode))
        self.event('loop', (src, mode))
        try:
            yield (mode, el)
        except BaseException:
            self.event('loop-exit', (src, mode))
            self.leave_loop(ctx, False)
            raise
        self.event('loop-end', (src, mode))
        # a search that went through the whole sequence: the value is not in it
        for sk, xk in p.not_elem:
            if sk == key(src):
                if p.truths.get(('in', xk, sk)) is True:
                    raise Infeasible()
                p.truths[('in', xk, sk)] = False
        p.not_elem = [x for x in p.not_elem if x[0] != key(src)]
        self.leave_loop(ctx, True)

    def more(self, src, pos):
        """is there an element at index pos?"""
        p = self.path
        if isinstance(src, Sym) and getattr(src, 'minlen', 0) > pos:
            return True
        if isinstance(src, Term) and src.op == 'map':
            return self.more(src.args[0], pos)
        if pos == 0 and p.typ(src) in ('str', 'list', 'tuple', 'dict', 'set', 'bytes'):
            return p.truth(src)
        if p.typ(src) in ('str', 'list', 'tuple', 'dict', 'set', 'bytes'):
            return p.lt(pos, self.length(src))
        return p.atom_truth(Term('more', (src, pos), typ='bool'))

    def length(self, v):
        if isinstance(v, (str, bytes)) or isinstance(v, tuple):
            return len(v)
        if isinstance(v, VList):
            n = sum(1 for x in v.items if not isinstance(x, Rest))
            res = n
            for x in v.items:
                if isinstance(x, Rest):
                    l_ = Term('len', (x.src,), typ='int')
                    res = l_ if res == 0 else Term('add', (l_, res), typ='int')
            return res
        if isinstance(v, VDict):
            if not v.rest:
                if v.isset and 1 < len(v.d) <= 12 and not all(
                        is_const(e[0]) or isinstance(e[0], (Func, Cls, Inst)) for e in v.d.values()):
                    kept = []       # unknown elements may be equal
                    for e in v.d.values():
                        if not any(self.equal(x, e[0]) for x in kept):
                            kept.append(e[0])
                    return len(kept)
                return len(v.d)
            return Term('len', (freeze(v),), typ='int')
        if isinstance(v, Inst):
            m = self.class_attr(v.cls, '__len__')
            if m is not None:
                return self.call(m, [v])
            if v.payload is not None:
                return self.length(v.payload)
        if isinstance(v, Term) and v.op in ('list', 'set', 'dict') and not any(
                isinstance(x, Rest) for x in v.args):
            return len(v.args)
        if isinstance(v, Term) and v.op in ('sorted', 'list_of', 'tuple_of', 'map', 'reversed'):
            if isinstance(v.args[0], (Term, Sym)) and self.path.typ(v.args[0]) not in ('set',):
                return self.length(v.args[0])
        if v is None or isinstance(v, (int, float, decimal.Decimal)):
            self.raise_ext('TypeError', ('object of type has no len()',))
        if isinstance(v, (Sym, Term)):
            if self.path.isnone(v):
                self.raise_ext('TypeError', ('NoneType has no len()',))
            t = self.path.typ(v)
            if t in ('int', 'float', 'decimal', 'bool', 'datetime', 'func', 'iter'):
                self.raise_ext('TypeError', ('object of type has no len()',))
            lenable = t in ('str', 'bytes', 'list', 'tuple', 'dict', 'set')
            if not lenable and isinstance(v, Sym) and v.typ is None and getattr(
                    v, 'maybe_unsized', False):
                if not self.path.atom_truth(Term('sized', (v,), typ='bool')):
                    self.raise_ext('TypeError', ('object of type has no len()',))
            return Term('len', (v,), typ='int')
        if isinstance(v, Iter):
            self.raise_ext('TypeError', ('object of type generator has no len()',))
        raise Imprecise('len of {}'.format(show(v)))

    def iterate(self, v, hint=''):
        """python generator over the abstract elements"""
        if isinstance(v, Sym) and '__iter__' in v.methods:
            v = v.methods['__iter__'](self, [], {})
        if isinstance(v, VList):
            i = 0
            while i < len(v.items):
                x = v.items[i]
                i += 1
                if isinstance(x, Rest):
                    yield from self.iterate_rest(x, hint)
                else:
                    yield x
            return
        if isinstance(v, tuple):
            yield from list(v)
            return
        if isinstance(v, VDict):
            for e in list(v.d.values()):
                if key(e[0]) in v.d:
                    yield e[0]
            for r in list(v.rest):
                yield from self.iterate_rest(r, hint)
            return
        if isinstance(v, (str,)):
            yield from v
            return
        if isinstance(v, bytes):
            yield from v
            return
        if isinstance(v, frozenset):
            yield from sorted(v, key=repr)
            return
        if isinstance(v, Iter):
            if v.src is not None:
                for mode, el in self.opaque_iter(v.src, getattr(v, 'pos', 0), hint):
                    yield el
                return
            while True:
                try:
                    x = next(v.gen)
                except StopIteration:
                    return
                try:
                    yield x
                except GeneratorExit:
                    if getattr(v, 'isgen', False) and not getattr(v, 'shared', False):
                        v.gen.close()
                    raise
        if isinstance(v, Inst):
            m = self.class_attr(v.cls, '__iter__')
            if m is not None:
                r = self.call(m, [v])
                if isinstance(r, Inst) and self.class_attr(r.cls, '__next__') is not None:
                    yield from self.iterate_next(r, hint)
                else:
                    yield from self.iterate(r, hint)
                return
            if v.payload is not None:
                yield from self.iterate(v.payload, hint)
                return
            if self.class_attr(v.cls, '__next__') is not None:
                yield from self.iterate_next(v, hint)
                return
            raise Imprecise('iteration over {}'.format(show(v)))
        if isinstance(v, Cls):
            raise Imprecise('iteration over a class')
        if v is None or isinstance(v, (int, float)):
            self.raise_ext('TypeError', ('object is not iterable',))
        if isinstance(v, Term) and v.op in ('list', 'set', 'dict'):
            for x in v.args:
                if isinstance(x, Rest):
                    yield from self.iterate_rest(x, hint)
                else:
                    yield x[0] if v.op == 'dict' else x
            return
        if isinstance(v, BMethod):
            v = self.force_attr(v)
        if isinstance(v, (Sym, Term)):
            for mode, el in self.opaque_iter(v, 0, hint):
                yield el
            return
        raise Imprecise('iteration over {}'.format(show(v)))

    def iterate_rest(self, r, hint):
        if r.template:
            # known element shapes: analyse an iteration for each
            if not self.path.nonempty(r.src):
                return
            i = self.path.choose('element of {}'.format(show(r.src)), len(r.template)) if len(
                r.template) > 1 else 0
            k = self.loopkey(hint + 'rest')
            modes = ['first', 'later'] if self.havoc.get(k) else ['first']
            mode = modes[self.path.choose('iteration: {}'.format(modes), len(modes))] \
                if len(modes) > 1 else 'first'
            ctx = self.enter_loop(k, mode)
            try:
                yield r.template[i]
            except BaseException:
                self.event('loop-exit', (r.src, mode))
                self.leave_loop(ctx, False)
                raise
            self.leave_loop(ctx, True)
            return
        yield from self.iterate(r.src, hint)

    def iterate_next(self, inst, hint):
        """for-loop over an object with __next__"""
        nxt = self.class_attr(inst.cls, '__next__')
        if self.unroll:
            for _ in range(self.unroll):
                try:
                    x = self.call(nxt, [inst])
                except Raised as e:
                    if self.exc_match(e.exc, Ext('StopIteration')):
                        return
                    raise
                yield x
            raise Imprecise('more than {} iterations'.format(self.unroll))
        k = self.loopkey(hint + 'next')
        modes = ['first', 'later'] if self.havoc.get(k) else ['first']
        mode = modes[self.path.choose('iteration: {}'.format(modes), len(modes))] \
            if len(modes) > 1 else 'first'
        ctx = self.enter_loop(k, mode)
        ctx.mode = mode
        ctx.src = inst
        try:
            x = self.call(nxt, [inst])
        except Raised as e:
            self.leave_loop(ctx, False)
            if self.exc_match(e.exc, Ext('StopIteration')):
                return
            raise
        except BaseException:
            self.leave_loop(ctx, False)
            raise
        try:
            yield x
        except BaseException:
            self.leave_loop(ctx, False)
            raise
        self.leave_loop(ctx, True)

    def get_iter(self, v):
        if isinstance(v, Sym) and '__iter__' in v.methods:
            v = v.methods['__iter__'](self, [], {})
        if isinstance(v, Iter):
            return v
        if isinstance(v, Inst):
            m = self.class_attr(v.cls, '__iter__')
            if m is not None:
                r = self.call(m, [v])
                return r
            if v.payload is not None:
                return self.get_iter(v.payload)
            raise Imprecise('iter of {}'.format(show(v)))
        if isinstance(v, (Sym, Term)) and not (isinstance(v, Term) and v.op in (
                'list', 'set', 'dict')):
            if self.path.typ(v) == 'iter' or (isinstance(v, (Sym, Term)) and v.ext in (
                    'csv.reader',)):
                it = self.iters().get(key(v))
                if it is None:
                    it = self.register(Iter(None, show(v), src=v), 'iter')
                    it.pos = 0
                    self.iters()[key(v)] = it
                return it
            it = self.register(Iter(None, show(v), src=v), 'iter')
            it.pos = 0
            return it
        it = Iter(self.iterate(v, 'iter'), show(v) if not isinstance(v, Heap) else type(v).__name__)
        return self.register(it, 'iter')

    def iters(self):
        if not hasattr(self.path, 'iter_objs'):
            self.path.iter_objs = {}
        return self.path.iter_objs

    def next_value(self, it):
        """next(it): raises python StopIteration at the end"""
        if isinstance(it, Inst):
            m = self.class_attr(it.cls, '__next__')
            if m is None:
                raise Imprecise('next of {}'.format(show(it)))
            try:
                return self.call(m, [it])
            except Raised as e:
                if self.exc_match(e.exc, Ext('StopIteration')):
                    raise StopIteration()
                raise
        if isinstance(it, (Sym, Term)):
            it = self.get_iter(it)
        if not isinstance(it, Iter):
            raise Imprecise('next of {}'.format(show(it)))
        if it.src is not None:
            pos = it.pos
            e = self.event('next', (it.src, pos))
            self.maybe_raise('next', (it.src,), e)
            if not self.more(it.src, pos):
                raise StopIteration()
            self.mut(it, 'pos')
            it.pos = pos + 1 if isinstance(pos, int) else Term('add', (pos, 1), typ='int')
            return self.item(it.src, pos)
        return next(it.gen)

    def item(self, src, i):
        if isinstance(src, Sym) and src.elem:
            return src.elem(self)
        et = src.elemtyp if isinstance(src, (Sym, Term)) else None
        if et is None and self.path.typ(src) == 'str':
            et = 'str'
        t, sub = (et[0], et[1]) if isinstance(et, tuple) else (et, None)
        return Term('getitem', (src, i), typ=t, elemtyp=sub)

    # ============================================================================ statements
    def block(self, stmts, env):
        for s in stmts:
            yield from self.stmt(s, env)

    def stmt(self, node, env):
        if self.frames:
            self.frames[-1].node = node
        self.path.steps += 1
        if self.path.steps > self.max_steps:
            raise Imprecise('step budget exhausted')
        m = getattr(self, 's_' + type(node).__name__, None)
        if m is None:
            raise Imprecise('statement {}'.format(type(node).__name__))
        r = m(node, env)
        if r is not None:
            yield from r

    def s_Expr(self, node, env):
        if isinstance(node.value, ast.Yield):
            return self.do_yield(node.value, env)
        if isinstance(node.value, ast.YieldFrom):
            return self.do_yield_from(node.value, env)
        self.eval(node.value, env)

    def do_yield(self, node, env):
        v = self.eval(node.value, env) if node.value else None
        fr = self.frames[-1] if self.frames else None
        yield v
        if self.frames:
            self.frames[-1].node = node

    def do_yield_from(self, node, env):
        it = self.eval(node.value, env)
        for x in self.iterate(it, 'yf'):
            yield x

    def s_Assign(self, node, env):
        if isinstance(node.value, ast.Yield):
            def g():
                yield from self.do_yield(node.value, env)
                for t in node.targets:
                    self.assign(t, None, env)
            return g()
        v = self.eval(node.value, env)
        for t in node.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, node, env):
        if node.value is not None:
            self.assign(node.target, self.eval(node.value, env), env)

    def s_AugAssign(self, node, env):
        t = node.target
        if isinstance(t, ast.Name):
            cur = self.lookup(env, t.id)
            v = self.augop(node.op, cur, self.eval(node.value, env))
            self.setvar(env, t.id, v)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            cur = self.getattr_value(o, t.attr)
            v = self.augop(node.op, cur, self.eval(node.value, env))
            self.setattr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            i = self.eval_index(t.slice, env)
            cur = self.ext.getitem(self, o, i)
            v = self.augop(node.op, cur, self.eval(node.value, env))
            self.ext.setitem(self, o, i, v)
        else:
            raise Imprecise('augmented assignment')

    def augop(self, op, a, b):
        if isinstance(a, VList) and isinstance(op, ast.Add):
            self.ext.list_extend(self, a, b)
            return a
        if isinstance(a, VDict) and isinstance(op, ast.BitOr):
            if a.isset:
                self.ext.set_update(self, a, b)
            else:
                self.ext.dict_update(self, a, b)
            return a
        if isinstance(a, VDict) and a.isset and isinstance(op, ast.Sub):
            for x in list(self.iterate(b, 'sub')):
                self.ext.call_method(self, a, 'discard', [x], {})
            return a
        return self.binop(op, a, b)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.setvar(env, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, t.elts)
            for tt, vv in zip(t.elts, vals):
                if isinstance(tt, ast.Starred):
                    self.assign(tt.value, vv, env)
                else:
                    self.assign(tt, vv, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            self.ext.setitem(self, o, self.eval_index(t.slice, env), v)
        else:
            raise Imprecise('assignment target {}'.format(type(t).__name__))

    def unpack(self, v, elts):
        n = len(elts)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if isinstance(v, (Sym, Term)) and not (isinstance(v, Term) and v.op == 'list'):
            if star:
                i = star[0]
                after = n - i - 1
                pre = [self.item(v, j) for j in range(i)]
                mid = self.VL([Rest(Term('slice', (v, i, -after if after else None, None), typ='list'))])
                post = [self.item(v, j - after) for j in range(after)]
                return pre + [mid] + post
            if self.path.typ(v) in ('list', 'str', 'tuple') and self.raise_policy is not None:
                if not self.path.eq(self.length(v), n):
                    self.raise_ext('ValueError', ('not enough/too many values to unpack',))
            return [self.item(v, j) for j in range(n)]
        items = []
        if isinstance(v, VList) and any(isinstance(x, Rest) for x in v.items):
            if star:
                i = star[0]
                items = v.items
                after = n - i - 1
                pre = items[:i]
                post = items[len(items) - after:] if after else []
                mid = items[i:len(items) - after]
                if any(isinstance(x, Rest) for x in pre + post):
                    raise Imprecise('unpacking')
                return pre + [self.VL(mid)] + post
            f = freeze(v)
            return [self.ext.getitem(self, v, j) for j in range(n)]
        for x in self.iterate(v, 'unpack'):
            items.append(x)
            if len(items) > n + 50:
                break
        if star:
            i = star[0]
            after = n - i - 1
            if len(items) < n - 1:
                self.raise_ext('ValueError', ('not enough values to unpack',))
            return items[:i] + [self.VL(items[i:len(items) - after])] + (
                items[len(items) - after:] if after else [])
        if len(items) != n:
            self.raise_ext('ValueError', ('not enough/too many values to unpack',))
        return items

    def s_Delete(self, node, env):
        for t in node.targets:
            if isinstance(t, ast.Name):
                self.mut(env, t.id)
                env.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                self.ext.delitem(self, self.eval(t.value, env), self.eval_index(t.slice, env))
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, env)
                if isinstance(o, Inst):
                    self.mut(o, t.attr)
                    o.attrs.pop(t.attr, None)
                else:
                    raise Imprecise('del attribute')
            else:
                raise Imprecise('del')

    def s_Pass(self, node, env):
        pass

    def s_Global(self, node, env):
        env.globals_ |= set(node.names)

    def s_Nonlocal(self, node, env):
        env.nonlocals_ |= set(node.names)

    def s_Return(self, node, env):
        raise _Return(self.eval(node.value, env) if node.value else None)

    def s_Break(self, node, env):
        raise _Break()

    def s_Continue(self, node, env):
        raise _Continue()

    def s_Raise(self, node, env):
        if node.exc is None:
            cur = getattr(self.path, 'handling', None)
            if cur:
                raise cur[-1]
            self.raise_ext('RuntimeError', ('No active exception to reraise',))
        v = self.eval(node.exc, env)
        if node.cause is not None:
            self.eval(node.cause, env)
        if isinstance(v, (Cls, Ext)):
            v = self.call(v, [])
        if v is None or is_const(v):
            self.raise_ext('TypeError', ('exceptions must derive from BaseException',))
        raise self.raised(v)

    def s_Assert(self, node, env):
        if not self.path.truth(self.eval(node.test, env)):
            args = (self.eval(node.msg, env),) if node.msg else ()
            self.raise_ext('AssertionError', args)

    def s_If(self, node, env):
        if self.path.truth(self.eval(node.test, env)):
            return self.block(node.body, env)
        return self.block(node.orelse, env)

    def s_For(self, node, env):
        src = self.eval(node.iter, env)
        it = self.iterate(src, 'for')
        broke = False
        try:
            while True:
                if self.frames:
                    self.frames[-1].node = node
                try:
                    v = next(it)
                except StopIteration:
                    break
                self.assign(node.target, v, env)
                try:
                    yield from self.block(node.body, env)
                except _Break:
                    broke = True
                    break
                except _Continue:
                    pass
        finally:
            it.close()
        if not broke:
            yield from self.block(node.orelse, env)

    def s_While(self, node, env):
        k = self.loopkey('while')
        symbolic = k in self.symbolic_loops
        n = 0
        if symbolic:
            modes = ['first', 'later'] if self.havoc.get(k) else ['first']
            mode = modes[self.path.choose('iteration: {}'.format(modes), len(modes))] \
                if len(modes) > 1 else 'first'
            ctx = self.enter_loop(k, mode)
            ctx.mode = mode
            completed = False
            try:
                if not self.path.truth(self.eval(node.test, env)):
                    if mode == 'later':
                        raise Infeasible()
                    done = True
                else:
                    done = False
                    try:
                        yield from self.block(node.body, env)
                    except _Break:
                        return
                    except _Continue:
                        pass
                    completed = True
            finally:
                self.leave_loop(ctx, completed)
            if not done:
                if self.path.truth(self.eval(node.test, env)):
                    raise Infeasible()
            yield from self.block(node.orelse, env)
            return
        while True:
            before = self.path.i
            if not self.path.truth(self.eval(node.test, env)):
                break
            if n > 300 and self.diverging:
                raise Diverges('a loop does not end after {} iterations'.format(n))
            if self.path.i != before and n >= max(1, self.unroll) or n > 300:
                self.symbolic_loops.add(k)
                self.changed = True
                raise Infeasible()
            n += 1
            b2 = self.path.i
            try:
                yield from self.block(node.body, env)
            except _Break:
                return
            except _Continue:
                pass
        yield from self.block(node.orelse, env)

    def s_FunctionDef(self, node, env):
        f = self.make_func(node, env)
        v = f
        for d in reversed(node.decorator_list):
            v = self.call(self.eval(d, env), [v])
        self.setvar(env, node.name, v)

    def make_func(self, node, env, name=None):
        name = name or getattr(node, 'name', '<lambda>')
        q = []
        e = env
        while e is not None and e.parent is not None or (e is not None and e.isclass):
            q.append(e.name)
            e = e.parent
            break
        if env.isclass:
            qual = '{}.{}'.format(env.name, name)
        elif env.func is not None:
            qual = '{}.{}'.format(env.func.qualname, name)
        else:
            qual = '{}.{}'.format(env.module.name, name)
        a = node.args
        defaults = [self.eval(d, env) for d in a.defaults]
        kwdefaults = {x.arg: self.eval(d, env) for x, d in zip(a.kwonlyargs, a.kw_defaults)
                      if d is not None}
        f = Func(node, env, name, qual, defaults, kwdefaults)
        e = env
        while e is not None:
            if e.isclass:
                f.cls = 'pending' if env.isclass else None
                break
            if e.cls is not None:
                f.cls = e.cls
                break
            e = e.parent
        f.isgen = not isinstance(node, ast.Lambda) and _is_generator(node)
        return self.register(f, 'func:' + qual)

    def s_ClassDef(self, node, env):
        bases = [self.eval(b, env) for b in node.bases]
        bases = [b for b in bases if not (isinstance(b, Ext) and b.name in (
            'typing.Protocol', 'typing.Generic', 'object'))]
        bases = [b for b in bases if isinstance(b, (Cls, Ext))]
        cenv = Env(env.module, env, '', env.func, isclass=True)
        qual = '{}.{}'.format(
            env.func.qualname if env.func is not None else (
                env.name if env.isclass else env.module.name), node.name)
        cenv.name = qual
        self.register(cenv, 'classenv:' + qual)
        for _ in self.block(node.body, cenv):
            raise Imprecise('yield in class body')
        cls = Cls(node.name, bases, cenv.vars, env.module, qual)
        self.register(cls, 'class:' + qual)
        cls.node = node
        cls.mro = self.compute_mro(cls)
        for v in list(cls.ns.values()):
            f = v.func if isinstance(v, Descr) else v
            if isinstance(f, Func) and f.cls == 'pending':
                f.cls = cls
            if isinstance(v, Descr) and isinstance(v.setter, Func) and v.setter.cls == 'pending':
                v.setter.cls = cls
        v = cls
        for d in reversed(node.decorator_list):
            v = self.call(self.eval(d, env), [v])
        self.setvar(env, node.name, v)

    def s_Import(self, node, env):
        for a in node.names:
            top = a.name.split('.')[0]
            if top == self.package:
                m = self.load(a.name if self.is_repo(a.name) else top)
                self.setvar(env, a.asname or top, m if a.asname else self.load(top))
            else:
                self.setvar(env, a.asname or top, Ext(a.name if a.asname else top))

    def s_ImportFrom(self, node, env):
        mod = node.module or ''
        if node.level:
            base = env.module.name.split('.')
            ispkg = env.module.path.endswith('__init__.py')
            up = node.level - (1 if ispkg else 0)
            base = base[:len(base) - up] if up else base
            mod = '.'.join(base + ([mod] if mod else []))
        for a in node.names:
            if mod.split('.')[0] == self.package:
                m = self.load(mod)
                if a.name == '*':
                    for k, v in list(m.env.vars.items()):
                        if not k.startswith('_'):
                            self.setvar(env, k, v)
                    continue
                if a.name in m.env.vars:
                    v = m.env.vars[a.name]
                elif self.is_repo(mod + '.' + a.name):
                    v = self.load(mod + '.' + a.name)
                else:
                    self.raise_ext('ImportError', (a.name,))
            else:
                v = self.ext_attr(Ext(mod), a.name)
            self.setvar(env, a.asname or a.name, v)

    def s_Try(self, node, env):
        p = self.path
        try:
            try:
                yield from self.block(node.body, env)
            except Raised as r:
                handled = False
                for h in node.handlers:
                    if h.type is not None:
                        t = self.eval(h.type, env)
                        if not self.exc_match(r.exc, t):
                            continue
                    handled = True
                    if h.name:
                        self.setvar(env, h.name, r.exc)
                    if not hasattr(p, 'handling'):
                        p.handling = []
                    p.handling.append(r)
                    try:
                        yield from self.block(h.body, env)
                    finally:
                        p.handling.remove(r)
                    break
                if not handled:
                    raise
            else:
                yield from self.block(node.orelse, env)
        except (Infeasible, Imprecise, Budget):
            raise
        except GeneratorExit:
            for _ in self.block(node.finalbody, env):
                raise Imprecise('yield in finally while closing')
            raise
        except BaseException:
            if node.finalbody:
                yield from self.block(node.finalbody, env)
            raise
        else:
            yield from self.block(node.finalbody, env)

    def s_With(self, node, env):
        return self.with_items(node.items, node.body, env)

    def with_items(self, items, body, env):
        if not items:
            yield from self.block(body, env)
            return
        cm = self.eval(items[0].context_expr, env)
        v = self.enter(cm)
        if items[0].optional_vars is not None:
            self.assign(items[0].optional_vars, v, env)
        try:
            yield from self.with_items(items[1:], body, env)
        except (Infeasible, Imprecise, Budget):
            raise
        except Raised as r:
            if not self.exit(cm, r):
                raise
        except BaseException:
            self.exit(cm, None)
            raise
        else:
            self.exit(cm, None)

    def enter(self, cm):
        if isinstance(cm, Inst):
            m = self.class_attr(cm.cls, '__enter__')
            if m is None:
                raise Imprecise('context manager without __enter__')
            return self.call(m, [cm])
        return self.ext.enter(self, cm)

    def exit(self, cm, raised):
        """True if the exception is swallowed"""
        if isinstance(cm, Inst):
            m = self.class_attr(cm.cls, '__exit__')
            if raised is None:
                a = [None, None, None]
            else:
                a = [self.exc_class(raised.exc) or Sym('exc_type', truthy=True), raised.exc,
                     Sym('traceback', truthy=True)]
            return self.path.truth(self.call(m, [cm] + a))
        return self.ext.exit(self, cm, raised)

    # ============================================================================ expressions
    def eval(self, node, env):
        m = getattr(self, 'e_' + type(node).__name__, None)
        if m is None:
            raise Imprecise('expression {}'.format(type(node).__name__))
        return m(node, env)

    def e_Constant(self, node, env):
        return node.value

    def e_Name(self, node, env):
        return self.lookup(env, node.id)

    def e_NamedExpr(self, node, env):
        v = self.eval(node.value, env)
        self.assign(node.target, v, env)
        return v

    def getattr_value(self, o, name):
        v = self.getattr(o, name)
        if isinstance(v, BMethod) and isinstance(v.obj, (Sym, Term)):
            return self.ext.attr_term(self, v.obj, v.name)
        return v

    def e_Attribute(self, node, env):
        o = self.eval(node.value, env)
        return self.getattr_value(o, node.attr)

    def e_Tuple(self, node, env):
        out = self.eval_elts(node.elts, env)
        if any(isinstance(x, Rest) for x in out):
            return self.VL(out)
        return tuple(out)

    def e_List(self, node, env):
        return self.VL(self.eval_elts(node.elts, env))

    def eval_elts(self, elts, env):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.eval(e.value, env)
                out += self.ext.splice(self, v)
            else:
                out.append(self.eval(e, env))
        return out

    def e_Set(self, node, env):
        d = self.VD((), isset=True)
        for x in self.eval_elts(node.elts, env):
            if isinstance(x, Rest):
                d.rest.append(x)
            else:
                d.d[key(x)] = [x, x]
        return d

    def e_Dict(self, node, env):
        d = self.VD(())
        for k, v in zip(node.keys, node.values):
            if k is None:
                self.ext.dict_update(self, d, self.eval(v, env))
            else:
                kk = self.eval(k, env)
                self.ext.dict_set(self, d, kk, self.eval(v, env))
        return d

    def e_JoinedStr(self, node, env):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value, env)
                spec = self.eval(v.format_spec, env) if v.format_spec else ''
                parts.append(self.ext.fmt_value(self, x, spec, chr(v.conversion)
                                                if v.conversion != -1 else None))
        return self.ext.cat(self, parts)

    def e_FormattedValue(self, node, env):
        x = self.eval(node.value, env)
        return self.ext.fmt_value(self, x, '', None)

    def e_BoolOp(self, node, env):
        isand = isinstance(node.op, ast.And)
        v = None
        for i, e in enumerate(node.values):
            v = self.eval(e, env)
            if i == len(node.values) - 1:
                return v
            t = self.path.truth(v)
            if t != isand:
                return v
        return v

    def e_UnaryOp(self, node, env):
        v = self.eval(node.operand, env)
        if isinstance(node.op, ast.Not):
            if is_const(v):
                return not v
            if isinstance(v, (Sym, Term)):
                return neg(v)
            return not self.path.truth(v)
        if isinstance(node.op, ast.USub):
            if is_const(v):
                return -v
            return Term('neg', (v,), typ=self.path.typ(v))
        if isinstance(node.op, ast.UAdd):
            return v
        if isinstance(node.op, ast.Invert):
            if is_const(v):
                return ~v
        raise Imprecise('unary operator')

    def e_BinOp(self, node, env):
        a = self.eval(node.left, env)
        b = self.eval(node.right, env)
        return self.binop(node.op, a, b)

    def binop(self, op, a, b):
        return self.ext.binop(self, op, a, b)

    def e_Compare(self, node, env):
        a = self.eval(node.left, env)
        res = True
        for i, (op, r) in enumerate(zip(node.ops, node.comparators)):
            b = self.eval(r, env)
            c = self.compare(op, a, b)
            if i == len(node.ops) - 1:
                return c
            if not self.path.truth(c):
                return False
            a = b
        return res

    def compare(self, op, a, b):
        if isinstance(a, BMethod):
            a = self.force_attr(a)
        if isinstance(b, BMethod):
            b = self.force_attr(b)
        n = type(op).__name__
        if n == 'Is':
            return self.is_value(a, b)
        if n == 'IsNot':
            return neg(self.is_value(a, b))
        if n == 'Eq':
            return self.eq_value(a, b)
        if n == 'NotEq':
            return neg(self.eq_value(a, b))
        if n in ('In', 'NotIn'):
            v = self.in_value(a, b)
            return v if n == 'In' else neg(v)
        return self.ext.order(self, n, a, b)

    def is_value(self, a, b):
        if is_const(a) and is_const(b):
            return self.path.is_(a, b)
        if not isinstance(a, (Sym, Term)) and not isinstance(b, (Sym, Term)):
            return a is b or key(a) == key(b)
        return Term('is', (a, b), typ='bool')

    def eq_value(self, a, b):
        if is_const(a) and is_const(b):
            return self.path.eq(a, b)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Inst):
                m = self.class_attr(x.cls, '__eq__')
                if m is not None:
                    return self.call(m, [x, y])
                if isinstance(y, Inst) and x.payload is not None:
                    return self.path.eq(x.payload, y.payload)
                if isinstance(y, Inst):
                    if x is y:
                        return True
                    if x.cls.fields is not None and x.cls is y.cls:
                        return all(self.equal(
                            x.attrs.get(n), y.attrs.get(n)) for n, f in x.cls.fields.items()
                            if f.kw.get('eq', True))
                    return False
                if is_const(y) or isinstance(y, (VList, VDict, tuple)):
                    if x.payload is not None and isinstance(y, VDict):
                        return self.path.eq(x.payload, y)
                    return False
        if isinstance(a, (VList, VDict, tuple)) or isinstance(b, (VList, VDict, tuple)):
            if not isinstance(a, (Sym, Term)) and not isinstance(b, (Sym, Term)):
                if isinstance(a, VDict) and isinstance(b, VDict) and not a.isset and not b.isset \
                        and not a.rest and not b.rest:
                    if all(is_const(e[0]) for e in list(a.d.values()) + list(b.d.values())):
                        if set(a.d) != set(b.d):
                            return False
                        return all(self.equal(a.d[k][1], b.d[k][1]) for k in a.d)
                return self.path.eq(a, b)
        return Term('eq', (a, b), typ='bool')

    def equal(self, a, b):
        return self.path.truth(self.eq_value(a, b))

    def in_value(self, x, c):
        if is_const(x) and is_const(c):
            try:
                return x in c
            except TypeError:
                self.raise_ext('TypeError', ())
        if isinstance(c, Inst):
            m = self.class_attr(c.cls, '__contains__')
            if m is not None:
                return self.call(m, [c, x])
            if c.payload is not None:
                c = c.payload
            else:
                for y in self.iterate(c, 'in'):
                    if self.equal(x, y):
                        return True
                return False
        if isinstance(c, VDict):
            if isinstance(x, (VList, VDict)) and not isinstance(x, tuple):
                self.raise_ext('TypeError', ('unhashable type',))
            if key(x) in c.d:
                return True
            if is_const(x) and all(is_const(e[0]) for e in c.d.values()):
                if not c.rest:
                    return False
                return Term('in', (x, Term('set', tuple(c.rest), typ='set')), typ='bool')
            if not c.d and not c.rest:
                return False
            return Term('in', (x, Term(
                'set', tuple(e[0] for e in c.d.values()) + tuple(c.rest), typ='set')), typ='bool')
        if isinstance(c, VList):
            if c.exact() and is_const(x) and all(is_const(y) for y in c.items):
                return x in c.items
            if not c.items:
                return False
            if isinstance(x, Inst) or any(isinstance(y, Inst) for y in c.items):
                for y in c.items:
                    if isinstance(y, Rest):
                        if self.path.in_src(x, y.src):
                            return True
                    elif self.equal(x, y):
                        return True
                return False
            return Term('in', (x, c), typ='bool')
        if isinstance(c, tuple):
            if is_const(x) and all(is_const(y) for y in c):
                return x in c
            return Term('in', (x, c), typ='bool')
        if isinstance(c, Iter):
            for y in self.iterate(c, 'in'):
                if self.equal(x, y):
                    return True
            return False
        if isinstance(c, Sym) and '__contains__' in c.methods:
            return c.methods['__contains__'](self, [x], {})
        if c is None or (isinstance(c, (Sym, Term)) and self.path.isnone(c)):
            self.raise_ext('TypeError', ("argument of type 'NoneType' is not iterable",))
        if isinstance(c, Ext):
            real = resolve_ext(c.name)
        return Term('in', (x, c), typ='bool')

    def e_Call(self, node, env):
        fn = node.func
        if self.frames:
            self.frames[-1].node = node
        if isinstance(fn, ast.Name) and fn.id == 'super' and not node.args:
            e = env
            while e is not None and e.cls is None:
                e = e.parent
            return Super(e.cls, e.self_ if e.self_ is not None else self.first_arg(e))
        if isinstance(fn, ast.Attribute):
            o = self.eval(fn.value, env)
            f = self.getattr(o, fn.attr)
        else:
            f = self.eval(fn, env)
        args = []
        for a in node.args:
            if isinstance(a, ast.Starred):
                args += self.ext.splice(self, self.eval(a.value, env))
            else:
                args.append(self.eval(a, env))
        kw = {}
        for k in node.keywords:
            if k.arg is None:
                v = self.eval(k.value, env)
                self.ext.kw_update(self, kw, v)
            else:
                kw[k.arg] = self.eval(k.value, env)
        if self.frames:
            self.frames[-1].node = node
        if isinstance(f, Ext) and f.name in ('locals', 'globals', 'vars', 'eval', 'exec'):
            if f.name == 'locals':
                return self.VD(list(env.vars.items()))
            if f.name == 'globals':
                return self.VD(list(env.module.env.vars.items()))
        r = self.call(f, args, kw)
        if self.frames:
            self.frames[-1].node = node
        return r

    def first_arg(self, e):
        for k, v in e.vars.items():
            return v

    def eval_index(self, s, env):
        if isinstance(s, ast.Slice):
            return slice(*[self.eval(x, env) if x is not None else None
                           for x in (s.lower, s.upper, s.step)])
        return self.eval(s, env)

    def e_Subscript(self, node, env):
        o = self.eval(node.value, env)
        i = self.eval_index(node.slice, env)
        return self.ext.getitem(self, o, i)

    def e_Slice(self, node, env):
        return slice(*[self.eval(x, env) if x is not None else None
                       for x in (node.lower, node.upper, node.step)])

    def e_IfExp(self, node, env):
        if self.path.truth(self.eval(node.test, env)):
            return self.eval(node.body, env)
        return self.eval(node.orelse, env)

    def e_Lambda(self, node, env):
        return self.make_func(node, env, '<lambda>')

    def e_Starred(self, node, env):
        raise Imprecise('starred expression')

    # comprehensions
    def comp_env(self, env, kind):
        e = Env(env.module, env, env.name, env.func)
        e.cls, e.self_ = env.cls, env.self_
        return self.register(e, 'comp')

    def comp_gen(self, gens, env, ev, first=None):
        """python generator of the values of a comprehension"""
        if not gens:
            yield ev(env)
            return
        g = gens[0]
        src = first if first is not None else self.eval(g.iter, env)
        it = self.iterate(src, 'comp{}'.format(len(gens)))
        try:
            for v in it:
                self.assign(g.target, v, env)
                if all(self.path.truth(self.eval(c, env)) for c in g.ifs):
                    yield from self.comp_gen(gens[1:], env, ev)
        finally:
            it.close()

    def comp_src(self, node, env):
        return self.eval(node.generators[0].iter, env)

    def e_ListComp(self, node, env):
        cenv = self.comp_env(env, 'lc')
        src = self.comp_src(node, env)
        out = self.VL(())
        self.collect(node, src, cenv, env, lambda e: self.eval(node.elt, e),
                     lambda v: self.ext.list_append(self, out, v))
        return self.ext.map_result(self, node, src, out)

    def collect(self, node, src, cenv, env, ev, add):
        for v in self.comp_gen(node.generators, cenv, ev, first=src):
            add(v)

    def e_SetComp(self, node, env):
        cenv = self.comp_env(env, 'sc')
        src = self.comp_src(node, env)
        out = self.VD((), isset=True)
        self.collect(node, src, cenv, env, lambda e: self.eval(node.elt, e),
                     lambda v: self.ext.set_add(self, out, v))
        return self.ext.map_result(self, node, src, out)

    def e_DictComp(self, node, env):
        cenv = self.comp_env(env, 'dc')
        src = self.comp_src(node, env)
        out = self.VD(())
        self.collect(node, src, cenv, env,
                     lambda e: (self.eval(node.key, e), self.eval(node.value, e)),
                     lambda kv: self.ext.dict_set(self, out, kv[0], kv[1]))
        return self.ext.map_result(self, node, src, out)

    def e_GeneratorExp(self, node, env):
        cenv = self.comp_env(env, 'ge')
        src = self.comp_src(node, env)
        g = self.comp_gen(node.generators, cenv, lambda e: self.eval(node.elt, e), first=src)
        it = Iter(g, 'genexp')
        it.isgen = True
        it.comp = (node, src)
        return self.register(it, 'genexp')

    def e_Yield(self, node, env):
        raise Imprecise('yield as a sub-expression')

    def e_Await(self, node, env):
        raise Imprecise('await')


def _k(v):
    if v is _NO:
        return ('no',)
    return key(v)


def _same_content(a, b):
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b) and all(
            _k(a[k]) == _k(b[k]) for k in a)
    return tuple(_k(x) for x in a) == tuple(_k(x) for x in b)


def _is_generator(node):
    stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False
