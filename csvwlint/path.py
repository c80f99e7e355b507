"""The path state: trace-partitioned facts about abstract values.

Facts live in small finite domains (truth, nullness, equality to constants, type tags, integer bounds
and the ordering of a pair of values as a subset of {<,=,>}).  A predicate the facts do not decide is
split: both outcomes are analysed, each with the predicate (or its negation) added to the facts.
"""
import decimal

from .values import *  # noqa: F401,F403
from .values import V, Sym, Term, Rest, VList, VDict, Inst, Func, Native, Cls, Ext, Iter, is_const, key, freeze, show, Exc

NUM = {'int', 'float', 'decimal', 'bool'}
CONTAINER = {'str', 'bytes', 'list', 'tuple', 'dict', 'set'}
ALWAYS_TRUE = {'func', 'type', 'file', 'path', 'match', 'iter', 'pattern', 'obj', 'datetime'}
SUPERTYPES = {
    'bool': {'bool', 'int', 'numbers.Number'},
    'int': {'int'},
    'OrderedDict': {'dict', 'collections.OrderedDict'},
    'path': {'pathlib.Path', 'pathlib.PurePath', 'os.PathLike', 'path'},
    'decimal': {'decimal.Decimal', 'decimal'},
    'datetime': {'datetime.datetime', 'datetime.date', 'datetime'},
    'none': {'NoneType'},
}


class Infeasible(Exception):
    """The path is impossible or is covered by another one."""


class Imprecise(Exception):
    """A construct the analyser does not understand: no verdict for this path."""


class Diverges(Imprecise):
    """A loop over known values does not end."""


class Budget(Exception):
    pass


def const_typ(v):
    if v is None:
        return 'none'
    if isinstance(v, decimal.Decimal):
        return 'decimal'
    if isinstance(v, tuple):
        return 'tuple'
    return type(v).__name__


class Event:
    __slots__ = ('name', 'args', 'kw', 'result', 'loc', 'loops', 'stack', 'raised', 'n', 'data')

    def __init__(self, name, args, kw, loc, loops, stack, n):
        self.name, self.args, self.kw = name, args, kw
        self.loc, self.loops, self.stack, self.n = loc, loops, stack, n
        self.result = None
        self.raised = None
        self.data = None

    def __repr__(self):
        return '{}({}{}) @{}'.format(
            self.name, ', '.join(show(a) for a in self.args),
            ''.join(', {}={}'.format(k, show(v)) for k, v in self.kw.items()), self.loc)


class Path:
    def __init__(self, eng, decisions=()):
        self.eng = eng
        self.dec = list(decisions)
        self.i = 0
        self.trail = []
        self.truths = {}
        self.atoms = {}
        self.dom = {}
        self.types = {}
        self.nottypes = {}
        self.lo, self.hi = {}, {}
        self.events = []
        self.loops = []
        self.serial = 0
        self.alloc = {}
        self.objs = {}
        self.notes = []
        self.steps = 0
        self.outcome = None
        self.origin_pred = None
        self.fresh = {}
        self.loopmodes = []
        self.not_elem = []
        self.soft_none = []
        self.rnd = None

    # -- decisions -------------------------------------------------------------------------
    def choose(self, label, n):
        if self.eng.base_phase:
            raise Imprecise('undetermined predicate at module level: {}'.format(label))
        if self.i < len(self.dec):
            c = self.dec[self.i]
        else:
            c = self.rnd.randrange(n) if self.rnd else 0
            self.dec.append(c)
        self.trail.append((label, n, c, self.eng.loc()))
        self.i += 1
        if self.i > self.eng.max_decisions:
            raise Imprecise('too many decisions on one path')
        return c

    def note(self, s):
        if s not in self.notes:
            self.notes.append(s)

    # -- types -----------------------------------------------------------------------------
    def typ(self, v):
        if isinstance(v, V):
            t = self.types.get(v.key())
            if t:
                return t
            if isinstance(v, (Sym, Term)) and v.typ is None:
                if self.truths.get(('isnone', v.key())):
                    return 'none'
            return v.typ
        return const_typ(v)

    def isnone(self, v):
        if v is None:
            return True
        if not isinstance(v, (Sym, Term)):
            return False
        t = self.typ(v)
        if t:
            return t == 'none'
        if isinstance(v, Sym) and (v.notnone or v.ext):
            return False
        if isinstance(v, Term) and v.ext:
            return False
        k = v.key()
        b = self.truths.get(('isnone', k))
        if b is not None:
            return b
        if self.truths.get(('truth', k)):
            return False
        for (kind, kk, c), b in list(self.eqs(k)):
            if b:
                return False
        if any(nt is None for nt in ()):  # pragma: no cover
            return False
        if k in self.lo or k in self.hi:
            return False
        r = self.split(('isnone', k), 'isnone({})'.format(show(v)), v)
        if r and isinstance(v, Term) and v.op.split('#')[0] in self.eng.unmodelled:
            # nothing is known about this library function
            self.soft_none.append(v.op)
        return r

    def eqs(self, k):
        for a, b in self.truths.items():
            if a[0] == 'eq' and a[1] == k:
                yield a, b

    def known_const(self, v):
        """The constant v is known to equal (or the _NO marker)."""
        if is_const(v):
            return v
        k = key(v)
        for a, b in self.eqs(k):
            if b and a[2][0] == 'c':
                return a[2][2]
        return _NO

    def split(self, atom, label, *vals):
        c = self.choose(label, 2)
        b = c == 0
        self.truths[atom] = b
        self.atoms[atom] = label
        return b

    # -- truth -----------------------------------------------------------------------------
    def truth(self, v):
        if is_const(v):
            if isinstance(v, (re_Pattern, Match)):
                return True
            return bool(v)
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, VList):
            if any(not isinstance(x, Rest) for x in v.items):
                return True
            return any([self.nonempty(x.src) for x in v.items])
        if isinstance(v, VDict):
            if v.d:
                return True
            return any([self.nonempty(r.src) for r in v.rest])
        if isinstance(v, Inst):
            return self.eng.inst_truth(v)
        if isinstance(v, Sym):
            return self.sym_truth(v)
        if isinstance(v, Term):
            return self.term_truth(v)
        return True

    def nonempty(self, src):
        t = self.typ(src)
        if isinstance(src, (VList, VDict, tuple, str, bytes)) or t in CONTAINER:
            return self.truth(src)
        return self.atom_truth(Term('nonempty', (src,)))

    def sym_truth(self, v):
        if v.truthy is not None:
            return v.truthy
        return self.atom_truth(v)

    def atom_truth(self, v):
        k = v.key()
        b = self.truths.get(('truth', k))
        if b is not None:
            return b
        t = self.typ(v)
        if t == 'none':
            return False
        if t in ALWAYS_TRUE:
            return True
        if isinstance(v, (Sym, Term)) and v.ext and t is None:
            return True
        if self.truths.get(('isnone', k)):
            return False
        for a, b in self.eqs(k):
            if b and a[2][0] == 'c':
                return bool(a[2][2])
        if t in NUM or k in self.lo or k in self.hi:
            lo, hi = self.lo.get(k), self.hi.get(k)
            if (lo is not None and (lo[0] > 0 or (lo[0] == 0 and lo[1]))) or \
                    (hi is not None and (hi[0] < 0 or (hi[0] == 0 and hi[1]))):
                return True
        if t in CONTAINER:
            lk = Term('len', (v,), typ='int').key()
            lo, hi = self.lo.get(lk), self.hi.get(lk)
            if lo is not None and lo[0] > 0:
                return True
            if hi is not None and hi[0] <= 0:
                return False
            for a, b in self.eqs(lk):
                if b and a[2][0] == 'c':
                    return a[2][2] > 0
        return self.split(('truth', k), show(v), v)

    def assume(self, v, b):
        """Add a fact (used by harnesses); infeasible if it contradicts."""
        # implemented through the normal query, then dropping the other branch
        if self.truth(v) != b:
            raise Infeasible()

    def term_truth(self, v):
        op, a = v.op, v.args
        if op == 'not':
            return not self.truth(a[0])
        if op == 'bool':
            return self.truth(a[0])
        if op == 'eq':
            return self.eq(a[0], a[1])
        if op == 'is':
            return self.is_(a[0], a[1])
        if op == 'lt':
            return self.lt(a[0], a[1])
        if op == 'le':
            return self.le(a[0], a[1])
        if op == 'in':
            return self.in_(a[0], a[1])
        if op == 'isinst':
            return self.isinst(a[0], a[1])
        if op == 'and':
            return all(self.truth(x) for x in a)
        if op == 'or':
            return any(self.truth(x) for x in a)
        if op == 'len' and (self.typ(a[0]) in CONTAINER or isinstance(a[0], Term) and a[0].op in (
                'list', 'set', 'dict')):
            return self.truth(a[0])
        if op in ('list', 'set', 'dict'):
            if any(not isinstance(x, Rest) for x in a):
                return True
            return any([self.nonempty(x.src) for x in a])
        if op == 'all':
            return self.forall(a[0], a[1], True)
        if op == 'any':
            return not self.forall(a[0], neg(a[1]), True)
        if op == 'cat':
            if any(isinstance(x, str) and x for x in a):
                return True
            if any(self.truths.get(('truth', key(x))) for x in a):
                return True
            return any([self.truth(x) if self.typ(x) == 'str' else self.atom_truth(x) for x in a])
        if op in ('tuple_of', 'set_of', 'list_of') and self.typ(a[0]) in CONTAINER:
            return self.truth(a[0])
        if op == 'map':
            return self.nonempty(a[0])
        if op in ('nonempty', 'more') and self.typ(a[0]) in CONTAINER and op == 'nonempty':
            return self.truth(a[0])
        return self.atom_truth(v)

    # -- quantifiers over unknown sequences --------------------------------------------------
    def forall(self, src, pred, b):
        """truth of: every element of src satisfies pred (a predicate over elem(src))"""
        if self.typ(src) in CONTAINER and self.truths.get(('truth', key(src))) is False:
            return True
        # normalise the truth of a string element: not elem == ''
        pred = self.norm_pred(pred)
        if isinstance(pred, Term) and pred.op == 'not' and isinstance(
                pred.args[0], Term) and pred.args[0].op == 'eq':
            e_, x_ = pred.args[0].args
            for e_, x_ in ((e_, x_), (x_, e_)):
                if isinstance(e_, Term) and e_.op == 'elem' and key(e_.args[0]) == key(src) and \
                        not mentions(x_, e_):
                    if x_ == '' and self.typ(src) == 'str':
                        break
                    return not self.in_(x_, src)
        if pred is False:
            return not self.nonempty(src)
        if pred is True:
            return True
        atom = ('all', key(src), key(pred))
        known = self.truths.get(atom)
        if known is not None:
            return known
        return self.split(atom, 'all({} in {})'.format(show(pred), show(src)))

    def norm_pred(self, p):
        if isinstance(p, Term) and p.op == 'not':
            return neg(self.norm_pred(p.args[0]))
        if isinstance(p, Term) and p.op == 'eq':
            a, b = p.args
            if is_const(a) and not is_const(b):
                a, b = b, a
            return Term('eq', (a, b), typ='bool')
        if isinstance(p, Term) and p.op in ('lt', 'le') and p.args[0] == 0 and isinstance(
                p.args[1], Term) and p.args[1].op == 'len' and p.op == 'lt':
            return self.norm_pred(p.args[1].args[0])
        if isinstance(p, Term) and p.op == 'len':
            return self.norm_pred(p.args[0])
        if isinstance(p, (Sym, Term)) and self.typ(p) == 'str':
            return neg(Term('eq', (p, ''), typ='bool'))
        if isinstance(p, Term) and p.op == 'bool':
            return self.norm_pred(p.args[0])
        return p

    # -- equality ----------------------------------------------------------------------------
    def is_(self, a, b):
        if a is None or b is None:
            return self.isnone(b if a is None else a)
        if isinstance(a, bool) or isinstance(b, bool):
            c, x = (a, b) if isinstance(a, bool) else (b, a)
            if is_const(x):
                return x is c
            if self.typ(x) == 'bool':
                return self.truth(x) == c
            return self.eq_atom(x, c, kind='is')
        if is_const(a) and is_const(b):
            return type(a) is type(b) and a == b
        if key(a) == key(b):
            return True
        if isinstance(a, (Sym, Term)) and isinstance(b, (Sym, Term)):
            return self.eq_atom(a, b, kind='is')
        if isinstance(a, (Sym, Term)) or isinstance(b, (Sym, Term)):
            x, o = (a, b) if isinstance(a, (Sym, Term)) else (b, a)
            if isinstance(o, (Inst, VList, VDict)) and not isinstance(x, Term):
                return False
            return self.eq_atom(x, o, kind='is')
        return False

    def typ_conflict(self, ta, tb):
        if ta is None or tb is None or ta == tb:
            return False
        if ta in NUM and tb in NUM:
            return False
        known = {'str', 'bytes', 'list', 'tuple', 'dict', 'set', 'none', 'func', 'type'} | NUM
        if {ta, tb} == {'dict', 'OrderedDict'}:
            return False
        return ta in known and tb in known

    def eq(self, a, b):
        if is_const(a) and is_const(b):
            try:
                return bool(a == b)
            except Exception:
                return False
        if a is None or b is None:
            return self.isnone(b if a is None else a)
        if key(a) == key(b):
            return True
        if isinstance(a, (Func, Native, Cls, Ext)) and isinstance(b, (Func, Native)) \
                or isinstance(a, (Func, Native)) and isinstance(b, (Cls, Ext)):
            return False
        if isinstance(a, (Ext, Cls)) and isinstance(b, (Ext, Cls)):
            ra, rb = [self.eng.real(x) for x in (a, b)]
            if ra is not None and rb is not None:
                return ra is rb
        if isinstance(a, Term) and isinstance(b, Term) and a.op == b.op == 'cat':
            x, y = a.args[0], b.args[0]
            if isinstance(x, str) and isinstance(y, str) and not x.startswith(y) \
                    and not y.startswith(x):
                return False
            x, y = a.args[-1], b.args[-1]
            if isinstance(x, str) and isinstance(y, str) and not x.endswith(y) \
                    and not y.endswith(x):
                return False
        if isinstance(a, Term) and isinstance(b, Term) and a.op == b.op \
                and a.op in self.eng.injective:
            return len(a.args) == len(b.args) and all(
                self.eq(x, y) for x, y in zip(a.args, b.args))
        ia = seq_items(a)
        ib = seq_items(b)
        if ia is not None and ib is not None:
            ta, tb = self.typ(a), self.typ(b)
            if {ta, tb} == {'list', 'tuple'}:
                return False
            if ta in ('set', 'frozenset') or tb in ('set', 'frozenset'):
                return self.set_eq(a, b)
            if len(ia) != len(ib):
                return False
            return all(self.eng.equal(x, y) for x, y in zip(ia, ib))
        if isinstance(a, (VList, VDict)) or isinstance(b, (VList, VDict)):
            a, b = freeze(a), freeze(b)
            if key(a) == key(b):
                return True
        ta, tb = self.typ(a), self.typ(b)
        if self.typ_conflict(ta, tb):
            return False
        if 'set' in (ta, tb):
            return self.set_eq(a, b)
        # empty container comparisons are truth tests
        for x, y in ((a, b), (b, a)):
            if (is_const(y) and y in ('', b'', ())) or (
                    isinstance(y, (VList, VDict)) and not (y.items if isinstance(y, VList) else (
                        y.d or y.rest))) or (
                    isinstance(y, Term) and y.op in ('list', 'dict') and not y.args):
                if self.typ(x) in CONTAINER:
                    return not self.truth(x)
            if isinstance(y, bool) and self.typ(x) == 'bool':
                return self.truth(x) == y
            if is_const(y) and isinstance(y, int) and not isinstance(y, bool) and isinstance(
                    x, Term) and x.op == 'len' and y == 0:
                return not self.truth(x)
        return self.eq_atom(a, b)

    def set_eq(self, a, b):
        for x, y in ((a, b), (b, a)):
            iy = seq_items(y)
            fx = freeze(x)
            if iy is not None and isinstance(fx, Term) and fx.op == 'set' and len(fx.args) == 1 \
                    and isinstance(fx.args[0], Rest):
                src = fx.args[0].src
                if len(iy) == 0:
                    return not self.nonempty(src)
                if len(iy) == 1:
                    el = self.eng.elem(src)
                    return self.nonempty(src) and self.forall(
                        src, Term('eq', (el, iy[0]), typ='bool'), True)
        ia, ib = seq_items(a), seq_items(b)
        if ia is not None and ib is not None and all(is_const(x) for x in ia + ib):
            return set(ia) == set(ib)
        if ia is not None and ib is not None:
            return all(any(self.eng.equal(x, y) for y in ib) for x in ia) and \
                all(any(self.eng.equal(x, y) for x in ia) for y in ib)
        return self.eq_atom(freeze(a), freeze(b))

    def eq_atom(self, a, b, kind='eq'):
        if is_const(a) or (not is_const(b) and repr(key(b)) < repr(key(a))):
            a, b = b, a
        ka, kb = key(a), key(b)
        atom = (kind, ka, kb)
        if atom in self.truths:
            return self.truths[atom]
        if kind == 'is' and self.truths.get(('eq', ka, kb)) is False:
            return False
        pair = self.dom.get((ka, kb))
        if pair is not None:
            if pair == {'='}:
                return True
            if '=' not in pair:
                return False
        if is_const(b):
            if self.truths.get(('isnone', ka)):
                return False
            for at, v in self.eqs(ka):
                if v and at[2][0] == 'c':
                    return at[2][2] == b
            t = self.truths.get(('truth', ka))
            if t is not None and isinstance(b, (str, int, float, bool, bytes)) and bool(b) != t:
                return False
            if t is False and b and isinstance(b, (str, int)):
                return False
            if isinstance(b, (int, float, decimal.Decimal)) and not isinstance(b, bool):
                lo, hi = self.lo.get(ka), self.hi.get(ka)
                if lo is not None and (b < lo[0] or (b == lo[0] and lo[1])):
                    return False
                if hi is not None and (b > hi[0] or (b == hi[0] and hi[1])):
                    return False
            if isinstance(b, str) and isinstance(a, Term) and a.op == 'cat':
                consts = [x for x in a.args if isinstance(x, str)]
                if isinstance(a.args[0], str) and not b.startswith(a.args[0]):
                    return False
                if isinstance(a.args[-1], str) and not b.endswith(a.args[-1]):
                    return False
                if sum(len(x) for x in consts) > len(b):
                    return False
        found = None
        for e_, x_ in ((a, b), (b, a)):
            if kind == 'eq' and isinstance(e_, Term) and e_.op == 'elem' and not mentions(x_, e_):
                found = (e_, x_)
                i_ = self.truths.get(('in', key(x_), key(e_.args[0])))
                if i_ is False:
                    return False
                break
        res = self.split(atom, '{} {} {}'.format(show(a), '==' if kind == 'eq' else 'is', show(b)))
        if found:
            if res:
                self.truths[('in', key(found[1]), key(found[0].args[0]))] = True
            else:
                self.not_elem.append((key(found[0].args[0]), key(found[1])))
        d = self.dom.setdefault((ka, kb), {'<', '=', '>'})
        if kind == 'eq':
            self.dom[(ka, kb)] = {'='} if res else d - {'='}
        if kind == 'is' and res:
            self.truths[('eq', ka, kb)] = True
        if res and is_const(b):
            self.truths[('isnone', ka)] = False
            if isinstance(b, (str, int, float, bool, bytes)):
                self.truths[('truth', ka)] = bool(b)
                if self.typ(a) is None and kind == 'eq' and isinstance(b, str):
                    self.types[ka] = 'str'
        return res

    # -- order -------------------------------------------------------------------------------
    def lt(self, a, b):
        return self.order(a, b, {'<'})

    def le(self, a, b):
        return self.order(a, b, {'<', '='})

    def order(self, a, b, want):
        if is_const(a) and is_const(b):
            try:
                return a < b if want == {'<'} else a <= b
            except TypeError:
                self.eng.raise_ext('TypeError', ())
        if key(a) == key(b):
            return '=' in want
        a, b = shift(a, b)
        if is_const(a) and is_const(b):
            return a < b if want == {'<'} else a <= b
        # constants: bounds
        for x, c, flip in ((a, b, False), (b, a, True)):
            if isinstance(c, (int, float, decimal.Decimal)) and not isinstance(c, bool) \
                    and not is_const(x):
                return self.const_order(x, c, want, flip)
        ka, kb = key(a), key(b)
        flip = False
        if repr(kb) < repr(ka):
            ka, kb, flip = kb, ka, True
            want = {{'<': '>', '>': '<', '=': '='}[w] for w in want}
        d = self.dom.get((ka, kb), {'<', '=', '>'})
        e = self.truths.get(('eq', ka, kb))
        if e is not None:
            d = d & {'='} if e else d - {'='}
        if not d:
            raise Infeasible()
        if d <= want:
            return True
        if not d & want:
            return False
        c = self.choose('{} {} {}'.format(
            show(b if flip else a), ''.join(sorted(want)), show(a if flip else b)), 2)
        self.dom[(ka, kb)] = (d & want) if c == 0 else (d - want)
        self.atoms[('ord', ka, kb)] = '{} vs {} in {}'.format(
            show(b if flip else a), show(a if flip else b), self.dom[(ka, kb)])
        if self.dom[(ka, kb)] == {'='}:
            self.truths[('eq', ka, kb)] = True
        elif '=' not in self.dom[(ka, kb)]:
            self.truths[('eq', ka, kb)] = False
        return c == 0

    def const_order(self, x, c, want, flip):
        """x (<|<=) c, or, with flip, c (<|<=) x"""
        k = key(x)
        isint = self.typ(x) in ('int', 'bool')
        if isinstance(x, Term) and x.op == 'len':
            isint = True
            self.lo.setdefault(k, (0, False))
            if self.typ(x.args[0]) in CONTAINER:
                t = self.truths.get(('truth', key(x.args[0])))
                if t is True and self.lo[k][0] < 1:
                    self.lo[k] = (1, False)
                if t is False:
                    self.hi[k] = (0, False)
        if isint and isinstance(c, float) and c in (float('inf'), float('-inf')):
            return (c > 0) != flip
        strict = '=' not in want
        for at, v in self.eqs(k):
            if v and at[2][0] == 'c' and isinstance(at[2][2], (int, float, decimal.Decimal)):
                val = at[2][2]
                a, b = (c, val) if flip else (val, c)
                return a < b if strict else a <= b
        lo, hi = self.lo.get(k), self.hi.get(k)
        # predicate in terms of x: not flip: x < c / x <= c ; flip: x > c / x >= c
        if not flip:
            if hi is not None and (hi[0] < c or (hi[0] == c and (not strict or hi[1]))):
                return True
            if lo is not None and (lo[0] > c or (lo[0] == c and (strict or lo[1]))):
                return False
            ne = self.truths.get(('eq', k, key(c)))
            if ne is False and hi is not None and hi[0] == c and strict:
                return True
        else:
            if lo is not None and (lo[0] > c or (lo[0] == c and (not strict or lo[1]))):
                return True
            if hi is not None and (hi[0] < c or (hi[0] == c and (strict or hi[1]))):
                return False
            ne = self.truths.get(('eq', k, key(c)))
            if ne is False and lo is not None and lo[0] == c and strict:
                return True
        if c == 0 and isinstance(x, Term) and x.op == 'len' and (flip and strict):
            return self.truth(x)
        r = self.choose('{} {}{} {}'.format(
            show(x), '>' if flip else '<', '' if strict else '=', show(c)), 2) == 0
        # x < c True -> hi=(c,open)
        up = (not flip) == r     # resulting bound is an upper bound
        openb = strict if r else not strict
        bound = (c, openb)
        if isint and openb and isinstance(c, int):
            bound = (c - 1, False) if up else (c + 1, False)
        if up:
            self.hi[k] = bound
        else:
            self.lo[k] = bound
        self.atoms[('bnd', k, r, c, flip, strict)] = '{}{} {}{} {}'.format(
            '' if r else 'not ', show(x), '>' if flip else '<', '' if strict else '=', show(c))
        self.truths[('isnone', k)] = False
        lo, hi = self.lo.get(k), self.hi.get(k)
        if lo is not None and hi is not None:
            if lo[0] > hi[0] or (lo[0] == hi[0] and (lo[1] or hi[1])):
                raise Infeasible()
            if lo[0] == hi[0]:
                self.truths[('eq', k, key(lo[0]))] = True
                self.truths[('truth', k)] = bool(lo[0])
        return r

    # -- membership --------------------------------------------------------------------------
    def in_(self, x, c):
        if is_const(c) and is_const(x):
            try:
                return x in c
            except TypeError:
                self.eng.raise_ext('TypeError', ())
        if isinstance(c, str) and not is_const(x):
            if len(c) and self.typ(x) == 'str' and False:
                pass
        if isinstance(c, Term) and c.op in ('list', 'set', 'dict'):
            items = []
            rests = []
            for it in c.args:
                if isinstance(it, Rest):
                    rests.append(it)
                else:
                    items.append(it[0] if c.op == 'dict' else it)
            for it in items:
                if self.eng.equal(x, it):
                    return True
            for r in rests:
                if self.in_src(x, r.src):
                    return True
            return False
        if isinstance(c, tuple):
            return any(self.eng.equal(x, it) for it in c)
        if isinstance(c, frozenset):
            return any(self.eng.equal(x, it) for it in c)
        return self.in_src(x, c)

    def in_src(self, x, c):
        if isinstance(c, Term) and c.op in ('list_of', 'set_of', 'tuple_of', '.keys', 'sorted'):
            return self.in_src(x, c.args[0])
        k = ('in', key(x), key(c))
        if k in self.truths:
            return self.truths[k]
        if isinstance(c, (Sym, Term)):
            if self.truths.get(('truth', key(c))) is False:
                return False
            if self.typ(c) == 'str' and x == '':
                return True
            # x equal to a known value with a known membership
            for (kind, kk, cc), b in list((a, b) for a, b in self.truths.items() if a[0] == 'in'):
                if cc == key(c):
                    if self.truths.get(('eq', key(x), kk)) or self.truths.get(('eq', kk, key(x))):
                        return b
        r = self.split(k, '{} in {}'.format(show(x), show(c)))
        if r and isinstance(c, (Sym, Term)) and (self.typ(c) in ('list', 'dict', 'set', 'tuple') or (
                self.typ(c) == 'str' and is_const(x) and x)):
            self.truths[('truth', key(c))] = True
        return r

    # -- types -------------------------------------------------------------------------------
    def isinst(self, x, t):
        if isinstance(t, tuple):
            return any(self.isinst(x, tt) for tt in t)
        if isinstance(t, (VList,)):
            raise Imprecise('isinstance with list')
        if isinstance(t, Term) and t.op == 'tuple_of':
            t = t.args[0]
        if isinstance(t, Term) and t.op == 'list':
            return any(self.isinst(x, tt) for tt in t.args)
        r = self.eng.isinstance_known(x, t)
        if r is not None:
            return r
        name = show(t)
        k = key(x)
        atom = ('isinst', k, name)
        if atom in self.truths:
            return self.truths[atom]
        if self.truths.get(('isnone', k)):
            return False
        r = self.split(atom, 'isinstance({}, {})'.format(show(x), name))
        if r:
            self.truths[('isnone', k)] = False
            if isinstance(t, Ext) and k not in self.types:
                tn = TYPE_TAG.get(t.name, None)
                if tn:
                    self.types[k] = tn
        return r


TYPE_TAG = {
    'str': 'str', 'bytes': 'bytes', 'int': 'int', 'bool': 'bool', 'float': 'float', 'list': 'list',
    'tuple': 'tuple', 'dict': 'dict', 'set': 'set', 'pathlib.Path': 'path',
    'decimal.Decimal': 'decimal', 'datetime.datetime': 'datetime',
}


class _No:
    def __repr__(self):
        return '<unknown>'


_NO = _No()


def mentions(v, part):
    if isinstance(v, V) and key(v) == key(part):
        return True
    if isinstance(v, Term):
        return any(mentions(a, part) for a in v.args)
    if isinstance(v, tuple):
        return any(mentions(a, part) for a in v)
    if isinstance(v, Rest):
        return mentions(v.src, part)
    return False


def neg(p):
    if isinstance(p, bool):
        return not p
    if isinstance(p, Term) and p.op == 'not':
        return p.args[0]
    return Term('not', (p,), typ='bool')


def seq_items(v):
    """The elements if exactly known."""
    if isinstance(v, VList):
        return None if any(isinstance(x, Rest) for x in v.items) else list(v.items)
    if isinstance(v, VDict) and v.isset:
        return None if v.rest else v.keys()
    if isinstance(v, Term) and v.op in ('list', 'set'):
        return None if any(isinstance(x, Rest) for x in v.args) else list(v.args)
    if isinstance(v, tuple):
        return list(v)
    return None


def shift(a, b):
    """add(x, c) against a constant, or against add(x, d)"""
    def lin(v):
        if isinstance(v, Term) and v.op == 'add' and len(v.args) == 2 and isinstance(
                v.args[1], int) and not isinstance(v.args[1], bool):
            return v.args[0], v.args[1]
        return v, 0
    xa, ca = lin(a)
    xb, cb = lin(b)
    if not (ca or cb):
        return a, b
    if is_const(xa) and not is_const(xb):
        return xa + ca - cb, xb
    if is_const(xb) and not is_const(xa):
        return xa, xb + cb - ca
    if key(xa) == key(xb):
        return ca, cb
    if ca == cb:
        return xa, xb
    return a, b


import re  # noqa: E402
re_Pattern = re.Pattern
from .values import Match, Ext  # noqa: E402
