"""Rules, obligations and verdicts on top of the abstract interpreter."""
import json
import os
import time
import traceback

from .values import *  # noqa: F401,F403
from .values import (
    V, Sym, Term, Rest, VList, VDict, Inst, Func, Bound, Cls, Ext, Exc, Iter, is_const, key, freeze,
    show)
from .path import Infeasible, Imprecise, Budget, seq_items, _NO
from .engine import Engine, Raised

REPO = os.environ.get('CSVWLINT_REPO', '/repo')


class NeedFork(Exception):
    pass


def peek(eng, f):
    """f() if it can be decided from the facts of the path, else None (never splits)."""
    p = eng.path
    real = p.choose

    def no(label, n):
        raise NeedFork()
    p.choose = no
    try:
        return f()
    except NeedFork:
        return None
    finally:
        del p.choose
        assert p.choose == real


class Out:
    """Outcome of calling analysed code."""
    def __init__(self, kind, value=None, raised=None):
        self.kind, self.value, self.raised = kind, value, raised

    @property
    def returned(self):
        return self.kind == 'return'

    def is_exc(self, eng, *names):
        return self.kind == 'raise' and any(
            eng.exc_match(self.raised.exc, Ext(n)) for n in names)

    def exc_name(self, eng):
        c = eng.exc_class(self.raised.exc)
        return show(c) if c is not None else show(self.raised.exc)

    def describe(self, eng):
        if self.returned:
            return 'returns {}'.format(show(self.value))
        return 'raises {} at {}'.format(self.exc_name(eng), self.raised.loc)


def run(eng, f):
    try:
        return Out('return', f())
    except Raised as r:
        return Out('raise', None, r)


def call(eng, obj, name, *args, **kw):
    return run(eng, lambda: eng.call(eng.getattr(obj, name), list(args), kw))


def same(eng, a, b):
    """Are the two abstract values equal, given the facts of the path?  True / False / None"""
    if key(freeze(a)) == key(freeze(b)):
        return True
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    for x, y in ((a, b), (b, a)):
        # a predicate of the inputs is decided both ways
        if isinstance(x, bool) and isinstance(y, Term) and (
                eng.path.typ(y) == 'bool' or y.op in ('not', 'and', 'or')):
            return eng.path.truth(y) is x
    ta, tb = eng.path.typ(a), eng.path.typ(b)
    if {ta, tb} == {'list', 'tuple'} or {ta, tb} == {'none', 'list'}:
        return False
    return peek(eng, lambda: eng.path.eq(a, b))


def thaw_items(v):
    """items of a list-like value, Rest markers included; None if it is not a list"""
    if isinstance(v, VList):
        return list(v.items)
    if isinstance(v, tuple):
        return list(v)
    if isinstance(v, Term) and v.op in ('list', 'tuple'):
        return list(v.args)
    return None


def mk(eng, qual, **attrs):
    """An instance of a repository class with given attributes, the others at their defaults."""
    cls = find(eng, qual)
    inst = eng.register(Inst(cls), 'inst:' + qual)
    for n, f in (cls.fields or {}).items():
        if n in attrs:
            inst.attrs[n] = attrs.pop(n)
        else:
            inst.attrs[n] = eng.ext.field_default(eng, f, inst)
    for n, v in attrs.items():
        inst.attrs[n] = v
    if eng.dict_like(cls):
        inst.payload = eng.VD((), cls='OrderedDict')
    return inst


def find(eng, qual):
    """module member by dotted name; Missing if the anchor vanished"""
    parts = qual.split('.')
    for i in range(len(parts), 0, -1):
        m = '.'.join(parts[:i])
        if m in eng.modules:
            obj = eng.modules[m]
            try:
                for p in parts[i:]:
                    obj = obj.ns[p] if isinstance(obj, Cls) and p in obj.ns else eng.getattr(obj, p)
                return obj
            except (Raised, KeyError):
                raise Missing(qual)
    raise Missing(qual)


BUDGET = 600     # seconds; rules running longer count for what they have explored until then


class Missing(Exception):
    """An anchor of a rule does not exist any more."""


class Check:
    """One run of the rules of one property."""
    def __init__(self, pid, tier='quick', seed=1):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == 'thorough'
        self.t0 = time.time()
        self.rules = []          # dicts
        self.violations = {}     # (rule, construct) -> detail
        self.unknown = {}        # (rule, construct) -> set of reasons
        self.ok = {}             # (rule, construct) -> count
        self.broken = []
        self.analysed = {}
        self.unmodelled = {}
        self.paths = 0
        self.assumptions = []

    # -- abstract interpretation rules -----------------------------------------------------
    def engine(self, *mods):
        eng = Engine(os.path.join(REPO, 'src'))
        eng.start(*(mods or ('csvw', 'csvw.metadata')))
        eng.check = self
        return eng

    def explore(self, rule, harness, mods=(), setup=None, min_ok=1, max_paths=None, eng=None,
                statement='', partial=False):
        """Run `harness(eng, ob)` on all abstract paths; ob(ok, construct, msg) files obligations."""
        t0 = time.time()
        info = {'rule': rule, 'statement': statement}
        self.rules.append(info)
        nok = 0
        try:
            eng = eng or self.engine(*mods)
            saved = eng.max_paths
            eng.max_paths = max_paths or eng.max_paths
            eng.partial, eng.truncated = partial, False
            eng.deadline = self.t0 + BUDGET
            if setup:
                setup(eng)

            def h(eng):
                obs = []
                eng.path.obs = obs

                def ob(ok, construct, msg=''):
                    obs.append((ok, construct, msg() if callable(msg) and ok is not True else
                                ('' if callable(msg) else msg)))
                    return ok
                harness(eng, ob)
            try:
                paths = eng.explore(h, rule)
            finally:
                eng.max_paths, eng.partial = saved, False
            if eng.truncated:
                info['explored'] = 'the first {} paths only'.format(len(paths))
                if not partial:
                    self.unknown.setdefault((rule, 'budget'), set()).add(
                        'only a part of all paths could be analysed')
        except Missing as e:
            self.broken.append('{}: anchor {} not found'.format(rule, e))
            info['error'] = 'anchor {} vanished'.format(e)
            return
        except Exception as e:
            if not isinstance(e, Budget):
                self.broken.append('{}: analyser error: {}'.format(rule, traceback.format_exc()))
            self.unknown.setdefault((rule, 'budget'), set()).add(str(e))
            info['error'] = str(e)
            return
        info['paths'] = len(paths)
        self.paths += len(paths)
        n_imprecise = 0
        bad = {}
        for p in paths:
            obs = getattr(p, 'obs', [])
            if p.outcome == 'imprecise':
                n_imprecise += 1
                for n in p.notes:
                    self.unknown.setdefault((rule, 'path'), set()).add(n)
            for ok, construct, msg in obs:
                if ok is True:
                    nok += 1
                    self.ok[(rule, construct)] = self.ok.get((rule, construct), 0) + 1
                elif ok is False and not p.notes:
                    if (rule, construct) not in bad:
                        bad[(rule, construct)] = (msg, [
                            '{} -> {}'.format(t[0], 'yes' if t[1] == 2 and t[2] == 0 else (
                                'no' if t[1] == 2 else t[2])) for t in p.trail])
                else:
                    self.unknown.setdefault((rule, construct), set()).add(
                        msg + (' [{}]'.format('; '.join(p.notes)) if p.notes else ''))
        for k, (msg, trail) in bad.items():
            self.violations[k] = {'message': msg, 'path': trail}
        info.update(obligations_met=nok, imprecise_paths=n_imprecise,
                    violations=len(bad), seconds=round(time.time() - t0, 2))
        self.analysed.update(eng.analysed)
        self.unmodelled.update(eng.unmodelled)
        if nok < min_ok and not bad:
            info['error'] = 'only {} of at least {} obligations decided'.format(nok, min_ok)
            self.broken.append('{}: {} ({})'.format(rule, info['error'], '; '.join(
                sorted(x for k, s in self.unknown.items() if k[0] == rule for x in s))[:600]))
        return paths

    # -- plain rules (syntax tree, tables) --------------------------------------------------
    def table(self, rule, items, min_ok=1, statement=''):
        """items: iterable of (ok, construct, message)"""
        info = {'rule': rule, 'statement': statement}
        self.rules.append(info)
        n = bad = 0
        try:
            for ok, construct, msg in items:
                if ok is True:
                    n += 1
                    self.ok[(rule, construct)] = self.ok.get((rule, construct), 0) + 1
                elif ok is False:
                    bad += 1
                    self.violations.setdefault((rule, construct), {'message': msg, 'path': []})
                else:
                    self.unknown.setdefault((rule, construct), set()).add(msg)
        except Missing as e:
            self.broken.append('{}: anchor {} not found'.format(rule, e))
            info['error'] = str(e)
            return
        info.update(obligations_met=n, violations=bad)
        if n < min_ok and not bad:
            info['error'] = 'only {} of at least {} instances decided'.format(n, min_ok)
            self.broken.append('{}: {}'.format(rule, info['error']))
