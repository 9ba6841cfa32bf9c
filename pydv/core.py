"""Symbolic values, path exploration, state rollback and merging."""
import sys
import math
from fractions import Fraction
_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _VT not in sys.path:
    sys.path.append(_VT)
import z3  # noqa: E402
import numpy as np  # noqa: E402


class Unsupported(Exception):
    """construct outside the executor's subset: the contract is undecided"""


class MergeError(Exception):
    """two values cannot be merged into one symbolic value"""


class Restart(BaseException):
    """re-run the current path (an `if` turned out not to be mergeable)"""


class Infeasible(BaseException):
    """the current path is infeasible"""


class PyRaise(Exception):
    pass


# ------------------------------------------------------------------ context
class Ctx:
    cur = None
    in_axiom = False

    def __init__(self):
        self.reset()
        self.nomerge = set()
        self.stats = dict(feas=0, paths=0, unknown=0)
        self._feas_cache = {}

    def reset(self):
        self.pc = []            # z3 Bools
        self.obl = []           # obligations of this run
        self.trail = []         # undo log
        self.expl = []          # explorer stack
        self.counter = {}
        self.inst = {}          # decl name -> fn(args)->list of z3 Bool (lemma instances)
        self.row_axioms = []    # fn(row term) -> z3 Bool
        self.row_decls = set()  # names of decls whose first arg is a row
        self.events = []
        self.counted = {}       # masks: number of true entries and length of their index sequence
        self.counted_keep = []
        self.fits = []         # straight lines fitted (x, y, weights, parameters, covariance)
        self.svds = []          # (matrix, factors) of every decomposition
        self.loopvars = []      # stack of (z3 const i, n)
        self.assumed_lib = set()
        self.lemmas = self.assumed_lib
        self.used_fns = set()
        self.sums = {}
        self.loops = []         # symbolic loops being summarised
        self.mutated = {}       # attribute -> number of in-place modifications
        self.touched_args = set()
        self.ns = {}            # id -> NativeState
        self.created = {}       # id -> (container, serial of the loop it was made in)
        self.stored = {}        # id -> container stored in the lattice by reference
        self.inverse = {}       # decl name -> fn(row term) -> (z3 cond, argument position, argument term)
        self.empties = {}       # id of a length -> (length, fact about a member)
        self.tainted = None
        self.merging = 0
        self.merge_site = None
        self.dec = set()        # positions in pc that are decisions
        self.rings = []

    def fresh(self, name):
        k = self.counter.get(name, 0)
        self.counter[name] = k + 1
        tr = '/'.join(''.join('1' if b else '0' for b, _, forced in e.prefix[:e.pos] if not forced) for e in self.expl).strip('/')
        # the decisions taken so far are part of the name: different paths may define it differently
        return (f'{name}!{k}' if k else name) + (f'@{tr}' if tr else '')

    def env(self):
        e = Ctx.__new__(Ctx)
        e.inst, e.row_axioms, e.row_decls, e.empties = self.inst, self.row_axioms, self.row_decls, self.empties
        return e

    def log(self, obj, state):
        self.trail.append((obj, state))

    def fresh_fn(self, name, *sorts):
        """fresh uninterpreted function (last sort: result) that also depends on the indices of the loops being summarised"""
        name = self.fresh(name)
        extra = [L.k for L in self.loops]
        if not extra and len(sorts) == 1:
            c = z3.Const(name, sorts[0])
            return lambda: c
        f = z3.Function(name, *(list(sorts[:-1]) + [INT] * len(extra) + [sorts[-1]]))
        return lambda *a: f(*(list(a) + extra))

    def changed(self, mark):
        """{id: (obj, entry state)} of everything modified since mark"""
        out = {}
        for o, st in self.trail[mark[0]:]:
            if id(o) not in out:
                out[id(o)] = (o, st)
        return out

    def mark(self):
        return (len(self.trail), len(self.events))

    def rollback(self, mark):
        n, ne = mark
        while len(self.trail) > n:
            o, st = self.trail.pop()
            o._set_state(st)
        del self.events[ne:]

    # path condition
    def assume(self, b):
        b = zb(b)
        if z3.is_true(b):
            return
        self.pc.append(b)

    def feasible(self, extra, timeout=1500):
        """False only when pc & extra is unsatisfiable"""
        e = z3.simplify(extra)
        if z3.is_false(e):
            return False
        for p in self.pc:
            if p.eq(e):
                if True:
                    break
        key = (tuple(p.get_id() for p in self.pc), e.get_id(), self.in_axiom)
        hit = self._feas_cache.get(key)
        if hit is not None:
            return hit[0]
        self.stats['feas'] += 1
        s = z3.Solver()
        s.set('timeout', timeout if self.stats['unknown'] < 12 else timeout // 8)
        fs = list(self.pc) + [e]
        for f in fs:
            s.add(f)
        for f in instances(self, fs, 2):
            s.add(f)
        r = s.check()
        self.stats['unknown'] = min(self.stats['unknown'] + 4, 60) if r == z3.unknown else max(self.stats['unknown'] - 1, 0)
        r = r != z3.unsat
        self._feas_cache[key] = (r, list(self.pc), e)
        return r

    def entails(self, b, timeout=1500):
        b = z3.simplify(zb(b))
        if z3.is_true(b):
            return True
        if z3.is_false(b):
            return not self.feasible(z3.BoolVal(True))
        for p in self.pc:
            if p.eq(b):
                return True
        return not self.feasible(z3.Not(b), timeout)

    def decide(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        for p in self.pc:
            if p.eq(cond):
                return True
        nc = z3.simplify(z3.Not(cond))
        for p in self.pc:
            if p.eq(nc):
                return False
        ex = self.expl[-1] if self.expl else None
        hit = ex.replay(cond) if ex is not None else None
        if hit is None:
            one = False if not self.feasible(cond) else True if not self.feasible(nc) else None
            if one is not None:
                if ex is not None:
                    ex.forced(one, cond)
                return one
            if ex is None:
                raise Unsupported('branch outside exploration')
            v = ex.decide(cond)
        else:
            v, _, forced = hit
            if forced:
                return v
        self.dec.add(len(self.pc))
        self.pc.append(cond if v else nc)
        return v

    def cut(self, base):
        """drop the path condition from position base on; returns [(formula, is decision)]"""
        out = [(f, (base + i) in self.dec) for i, f in enumerate(self.pc[base:])]
        del self.pc[base:]
        self.dec = {i for i in self.dec if i < base}
        return out


def ctx() -> Ctx:
    return Ctx.cur


class Explorer:
    """depth-first enumeration of decision sequences"""
    def __init__(self, limit=400):
        self.prefix = []
        self.pos = 0
        self.count = 0
        self.limit = limit
        self.trace = []

    def begin(self):
        self.pos = 0
        self.trace = []
        self.count += 1
        if self.count > self.limit:
            raise Unsupported('too many paths')

    # entries: (value, condition, forced: the only feasible one)
    def replay(self, cond):
        """the entry of an earlier run of this path for the same condition"""
        for i in range(self.pos, len(self.prefix)):
            e = self.prefix[i]
            if e[1].eq(cond):
                self.pos = i + 1
                return e
            if not e[2]:
                return None
        return None

    def forced(self, v, cond):
        if self.pos >= len(self.prefix):
            self.prefix.append((v, cond, True))
            self.pos += 1

    def decide(self, cond):
        while self.pos < len(self.prefix) and self.prefix[self.pos][2]:
            self.pos += 1
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos][0]
        else:
            v = True
            self.prefix.append((True, cond, False))
        self.pos += 1
        return v

    def next(self):
        del self.prefix[self.pos:]
        while self.prefix and (self.prefix[-1][2] or not self.prefix[-1][0]):
            self.prefix.pop()
        if not self.prefix:
            return False
        self.prefix[-1] = (False, self.prefix[-1][1], False)
        return True


# ------------------------------------------------------------------ scalars
def is_num(x):
    return isinstance(x, (int, float, bool, np.integer, np.floating, np.bool_))


def zlift(x):
    """python number -> (z3 term, nan flag or None)"""
    if isinstance(x, S):
        return x.t, x.nan
    if isinstance(x, (bool, np.bool_)):
        return z3.BoolVal(bool(x)), None
    if isinstance(x, (int, np.integer)):
        return z3.IntVal(int(x)), None
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if math.isnan(x):
            return z3.RealVal(0), z3.BoolVal(True)
        if math.isinf(x):
            raise Unsupported('infinity in symbolic arithmetic')
        f = Fraction(x)
        return z3.RealVal(f"{f.numerator}/{f.denominator}"), None
    if isinstance(x, Fraction):
        return z3.RealVal(f"{x.numerator}/{x.denominator}"), None
    if z3.is_expr(x):
        return x, None
    if hasattr(x, 'scalar0'):
        return zlift(x.scalar0())
    raise Unsupported(f'cannot lift {type(x).__name__}')


def zb(x):
    """value -> z3 Bool (truth value)"""
    if isinstance(x, S):
        t = x.t
        if z3.is_bool(t):
            return t
        r = t != 0
        if x.nan is not None:
            r = z3.Or(x.nan, r)
        return r
    if z3.is_expr(x):
        return x if z3.is_bool(x) else x != 0
    if hasattr(x, 'scalar0'):
        return zb(x.scalar0())
    return z3.BoolVal(bool(x))


def arith(t):
    if z3.is_bool(t):
        if z3.is_true(t):
            return z3.IntVal(1)
        if z3.is_false(t):
            return z3.IntVal(0)
        return z3.If(t, z3.IntVal(1), z3.IntVal(0))
    return t


def real(t):
    t = arith(t)
    if z3.is_int(t):
        if z3.is_int_value(t):
            return z3.RealVal(t.as_long())
        return z3.ToReal(t)
    return t


def both(a, b):
    a, b = arith(a), arith(b)
    if z3.is_int(a) and z3.is_int(b):
        return a, b
    return real(a), real(b)


def nor(a, b):
    if a is None:
        return b
    if b is None:
        return a
    if a is b or a.eq(b):
        return a
    return z3.Or(a, b)


def is_zero(t):
    return (z3.is_int_value(t) and t.as_long() == 0) or (z3.is_rational_value(t) and t.numerator_as_long() == 0)


def is_one(t):
    return (z3.is_int_value(t) and t.as_long() == 1) or \
        (z3.is_rational_value(t) and t.numerator_as_long() == t.denominator_as_long())


def const_val(t):
    """python value of a constant z3 term or None"""
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    return None


REAL, INT, BOOL = z3.RealSort(), z3.IntSort(), z3.BoolSort()
_uf = {}


def uf(name, *sorts):
    key = (name,) + tuple(str(s) for s in sorts)
    f = _uf.get(key)
    if f is None:
        f = _uf[key] = z3.Function(name, *sorts)
    return f


F_SQRT = uf('sqrt', REAL, REAL)
def trig(f, t):
    """cos or sin of t, of an argument with positive leading term"""
    a = z3.simplify(z3.ToReal(t) if z3.is_int(t) else t, som=True)
    if z3.is_rational_value(a) and a.numerator_as_long() == 0:
        return z3.RealVal(1 if f is F_COS else 0)
    if _neg(a):
        a = z3.simplify(-a, som=True)
        return f(a) if f is F_COS else -f(a)
    return f(a)


F_COS = uf('cos', REAL, REAL)
F_SIN = uf('sin', REAL, REAL)
F_EXP = uf('expr', REAL, REAL)


def S_(t, nan=None):
    if nan is not None:
        if z3.is_false(nan):
            nan = None
    return S(t, nan)


def norm(v):
    """symbolic value -> python constant when constant"""
    if isinstance(v, S) and v.nan is None:
        c = const_val(v.t)
        if c is not None:
            if isinstance(c, Fraction):
                return v
            return c
    return v


def simp(v):
    if isinstance(v, S):
        return S_(z3.simplify(v.t), None if v.nan is None else z3.simplify(v.nan))
    return v


class S:
    __slots__ = ('t', 'nan', '__weakref__')
    __array_ufunc__ = None
    __array_priority__ = 1e6

    def __init__(self, t, nan=None):
        self.t = t
        self.nan = nan

    @property
    def kind(self):
        return 'b' if z3.is_bool(self.t) else ('i' if z3.is_int(self.t) else 'f')

    # --- truth and conversions
    def __bool__(self):
        return ctx().decide(zb(self))

    def __index__(self):
        c = const_val(z3.simplify(self.t))
        if isinstance(c, int):
            return int(c)
        raise Unsupported('symbolic integer used as native index')

    def __int__(self):
        return self.__index__()

    def __float__(self):
        c = const_val(z3.simplify(self.t))
        if c is not None and self.nan is None:
            return float(c)
        raise Unsupported('symbolic real used as native float')

    def __hash__(self):
        c = const_val(self.t)
        if c is not None and self.nan is None:
            return hash(c)
        raise Unsupported('hash of a symbolic value')

    def __format__(self, spec):
        return '<sym>'

    def __repr__(self):
        return f'S({self.t}{"" if self.nan is None else ", nan=" + str(self.nan)})'
    __str__ = __repr__

    # --- arithmetic
    def _bin(self, o, op, rev=False):
        if not (isinstance(o, (S, int, float, np.integer, np.floating, np.bool_, Fraction))):
            return NotImplemented
        if isinstance(o, (float, np.floating)) and math.isinf(o):
            raise Unsupported('infinity in symbolic arithmetic')
        ot, on = zlift(o)
        a, an, b, bn = (ot, on, self.t, self.nan) if rev else (self.t, self.nan, ot, on)
        a, b = both(a, b)
        n = nor(an, bn)
        if op == '+':
            r = b if is_zero(a) else (a if is_zero(b) else a + b)
        elif op == '-':
            r = a if is_zero(b) else (-b if is_zero(a) else a - b)
        elif op == '*':
            if is_zero(a) or is_zero(b):
                r = a if is_zero(a) else b
            else:
                r = b if is_one(a) else (a if is_one(b) else a * b)
        elif op == '/':
            a, b = real(a), real(b)
            r = a if is_one(b) else (a if is_zero(a) and const_val(b) else a / b)
        elif op == '//':
            if z3.is_int(a):
                if const_val(b) is None or const_val(b) <= 0:
                    raise Unsupported('floor division by non-constant')
                r = a / b
            else:
                r = z3.ToReal(z3.ToInt(a / b))
        elif op == '%':
            if z3.is_int(a):
                if const_val(b) is None or const_val(b) <= 0:
                    raise Unsupported('modulo non-constant')
                r = a % b
            else:
                r = a - b * z3.ToReal(z3.ToInt(a / b))
        else:
            raise Unsupported(op)
        c = r
        if z3.is_app(c) and c.num_args() and all(const_val(x) is not None for x in c.children()):
            r = z3.simplify(r)
        return S_(r, n)

    def __add__(self, o): return self._bin(o, '+')
    def __radd__(self, o): return self._bin(o, '+', True)
    def __sub__(self, o): return self._bin(o, '-')
    def __rsub__(self, o): return self._bin(o, '-', True)
    def __mul__(self, o): return self._bin(o, '*')
    def __rmul__(self, o): return self._bin(o, '*', True)
    def __truediv__(self, o): return self._bin(o, '/')
    def __rtruediv__(self, o): return self._bin(o, '/', True)
    def __floordiv__(self, o): return self._bin(o, '//')
    def __rfloordiv__(self, o): return self._bin(o, '//', True)
    def __mod__(self, o): return self._bin(o, '%')
    def __rmod__(self, o): return self._bin(o, '%', True)

    def __neg__(self):
        a = arith(self.t)
        return S_(-a, self.nan)

    def __pos__(self):
        return self

    def __abs__(self):
        a = arith(self.t)
        return S_(z3.If(a >= 0, a, -a), self.nan)

    def __pow__(self, e):
        if isinstance(e, S):
            c = const_val(z3.simplify(e.t))
            e = c if c is not None else e
        if isinstance(e, Fraction) and e.denominator == 1:
            e = int(e)
        if isinstance(e, (float, np.floating)) and float(e).is_integer():
            e = int(e)
        if isinstance(e, (int, np.integer)):
            e = int(e)
            if e == 0:
                return 1
            if e < 0:
                return 1 / (self ** (-e))
            r = self
            for _ in range(e - 1):
                r = r * self
            return r
        if e == 0.5:
            return self.sqrt()
        raise Unsupported('power')

    def __rpow__(self, b):
        if b == -1 or b == -1.0:
            a = arith(self.t)
            return S_(z3.If(a % 2 == 0, z3.IntVal(1), z3.IntVal(-1)))
        raise Unsupported('power with symbolic exponent')

    def sqrt(self):
        a = real(self.t)
        c = const_val(z3.simplify(a))
        if c is not None and c >= 0:
            f = Fraction(math.isqrt(c.numerator), math.isqrt(c.denominator))
            if f * f == c:
                return S_(zlift(f)[0], self.nan)
        r = F_SQRT(a)
        return S_(r, nor(self.nan, z3.simplify(a < 0)))

    def cos(self):
        return S_(trig(F_COS, self.t), self.nan)

    def sin(self):
        return S_(trig(F_SIN, self.t), self.nan)

    # --- comparisons
    def _cmp(self, o, op):
        if isinstance(o, (float, np.floating)) and (math.isinf(o) or math.isnan(o)):
            if math.isnan(o):
                return op == '!='
            pos = o > 0
            r = {'<': pos, '<=': pos, '>': not pos, '>=': not pos, '==': False, '!=': True}[op]
            if self.nan is None or op == '!=':
                return r
            return S_(z3.And(z3.Not(self.nan), z3.BoolVal(r)))
        if o is None or isinstance(o, str):
            if op == '==':
                return False
            if op == '!=':
                return True
            raise TypeError('comparison')
        if not isinstance(o, (S, int, float, np.integer, np.floating, np.bool_, Fraction)):
            return NotImplemented
        ot, on = zlift(o)
        n = nor(self.nan, on)
        if op in ('==', '!=') and z3.is_bool(self.t) and z3.is_bool(ot):
            r = self.t == ot
            if op == '!=':
                r = z3.Not(r)
        else:
            a, b = both(self.t, ot)
            r = {'<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b, '>=': lambda: a >= b,
                 '==': lambda: a == b, '!=': lambda: a != b}[op]()
        if n is not None:
            r = z3.Or(n, r) if op == '!=' else z3.And(z3.Not(n), r)
        r = z3.simplify(r)
        return S_(r)

    def __lt__(self, o): return self._cmp(o, '<')
    def __le__(self, o): return self._cmp(o, '<=')
    def __gt__(self, o): return self._cmp(o, '>')
    def __ge__(self, o): return self._cmp(o, '>=')
    def __eq__(self, o): return self._cmp(o, '==')
    def __ne__(self, o): return self._cmp(o, '!=')

    # --- logic
    def __and__(self, o):
        if not isinstance(o, (S, bool, np.bool_)):
            return NotImplemented
        return mk_and(self, o)
    __rand__ = __and__

    def __or__(self, o):
        if not isinstance(o, (S, bool, np.bool_)):
            return NotImplemented
        return mk_or(self, o)
    __ror__ = __or__

    def __xor__(self, o):
        return S_(z3.Xor(zb(self), zb(o)))
    __rxor__ = __xor__

    def __invert__(self):
        if z3.is_bool(self.t):
            return mk_not(self)
        return S_(-arith(self.t) - 1)

    # numpy-scalar look-alikes
    ndim = 0
    shape = ()
    size = 1

    def copy(self):
        return self

    def item(self):
        return self

    def ravel(self):
        from . import arr
        return arr.NP.ravel(self)

    def astype(self, t):
        from . import arr
        return arr.cast(self, t)

    def any(self):
        return S_(zb(self))
    all = any

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def split_merge(site, why):
    """a merged reference cannot be used: fork at the branch that merged it"""
    c = ctx()
    if site is None or site in c.nomerge:
        raise Unsupported(why)
    c.nomerge.add(site)
    raise Restart()


def ret(b):
    """z3 bool -> python bool if constant else S"""
    b = z3.simplify(b)
    if z3.is_true(b):
        return True
    if z3.is_false(b):
        return False
    return S_(b)


def mk_and(*xs):
    return ret(z3.And(*[zb(x) for x in xs]))


def mk_or(*xs):
    return ret(z3.Or(*[zb(x) for x in xs]))


def mk_not(x):
    return ret(z3.Not(zb(x)))


def ite(c, a, b):
    """merge two values; MergeError when impossible"""
    if isinstance(c, (bool, np.bool_)):
        return a if c else b
    ct = z3.simplify(zb(c))
    if z3.is_true(ct):
        return a
    if z3.is_false(ct):
        return b
    if a is b:
        return a
    return merge(ct, a, b)


def merge(ct, a, b):
    if a is b:
        return a
    if hasattr(type(a), '_merge'):
        return type(a)._merge(ct, a, b)
    if hasattr(type(b), '_merge'):
        return type(b)._merge(ct, a, b)
    if isinstance(a, (float, np.floating)) and math.isinf(a) or isinstance(b, (float, np.floating)) and math.isinf(b):
        if is_num(a) and is_num(b) and a == b:
            return a
        raise MergeError('infinity')
    if isinstance(a, str) and isinstance(b, str):
        if a == b:
            return a
        return SymStr.of(a)._merge(ct, SymStr.of(a), SymStr.of(b))
    if (isinstance(a, S) or is_num(a)) and (isinstance(b, S) or is_num(b)):
        at, an = zlift(a)
        bt, bn = zlift(b)
        if not (z3.is_bool(at) and z3.is_bool(bt)):
            at, bt = both(at, bt)
        if at.eq(bt):
            t = at
        else:
            t = z3.If(ct, at, bt)
        if an is None and bn is None:
            n = None
        else:
            n = z3.If(ct, an if an is not None else z3.BoolVal(False), bn if bn is not None else z3.BoolVal(False))
            n = z3.simplify(n)
        return S_(t, n)
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(merge(ct, x, y) for x, y in zip(a, b))
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        r = [merge(ct, x, y) for x, y in zip(a, b)]
        return r
    try:
        if type(a) is type(b) and not isinstance(a, np.ndarray) and a == b:
            return a
    except Exception:
        pass
    raise MergeError(f'{type(a).__name__} / {type(b).__name__}')


class SymStr:
    """string from a finite domain: code term + domain"""
    table = []
    codes = {}

    def __init__(self, t, domain):
        self.t = t          # z3 Int (code)
        self.domain = domain  # dict code -> str

    @classmethod
    def code(cls, s):
        if s not in cls.codes:
            cls.codes[s] = len(cls.table)
            cls.table.append(s)
        return cls.codes[s]

    @classmethod
    def of(cls, s):
        if isinstance(s, SymStr):
            return s
        return cls(z3.IntVal(cls.code(s)), {cls.code(s): s})

    @staticmethod
    def _merge(ct, a, b):
        if not isinstance(a, (str, SymStr)) or not isinstance(b, (str, SymStr)):
            raise MergeError('str')
        a, b = SymStr.of(a), SymStr.of(b)
        return SymStr(z3.If(ct, a.t, b.t), {**a.domain, **b.domain})

    def eq(self, o):
        if isinstance(o, SymStr):
            return ret(self.t == o.t)
        if not isinstance(o, str):
            return False
        c = SymStr.code(o)
        if c not in self.domain:
            return False
        return ret(self.t == c)

    def __eq__(self, o):
        return self.eq(o)

    def __ne__(self, o):
        return mk_not(self.eq(o))

    def __hash__(self):
        raise Unsupported('hash of a symbolic string')

    def map(self, f):
        out = None
        dom = {}
        for c, s in self.domain.items():
            r = f(s)
            if not isinstance(r, str):
                raise Unsupported('string map')
            dom[SymStr.code(r)] = r
            v = z3.IntVal(SymStr.code(r))
            out = v if out is None else z3.If(self.t == c, v, out)
        return SymStr(out, dom)

    def pred(self, f):
        cs = [self.t == c for c, s in self.domain.items() if f(s)]
        if len(cs) == len(self.domain):
            return True
        return ret(z3.Or(*cs)) if cs else False

    def __add__(self, o):
        if isinstance(o, str):
            return self.map(lambda s: s + o)
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, str):
            return self.map(lambda s: o + s)
        return NotImplemented

    def __getitem__(self, k):
        return self.map(lambda s: s[k])

    def __len__(self):
        raise Unsupported('len of symbolic string')

    def __contains__(self, o):
        return bool(self.pred(lambda s: o in s))

    def __format__(self, spec):
        return '<symstr>'

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        if name in ('replace', 'upper', 'lower', 'strip', 'removesuffix', 'removeprefix', 'capitalize', 'title',
                    'lstrip', 'rstrip'):
            return lambda *a: self.map(lambda s: getattr(s, name)(*a))
        if name in ('startswith', 'endswith', 'isdigit'):
            return lambda *a: self.pred(lambda s: getattr(s, name)(*a))
        raise Unsupported(f'str.{name}')


# ------------------------------------------------------------------ lemma instantiation
def walk(terms):
    seen = set()
    stack = list(terms)
    while stack:
        t = stack.pop()
        if not z3.is_expr(t):
            continue
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        yield t
        if z3.is_quantifier(t):
            stack.append(t.body())
        else:
            stack.extend(t.children())


def has_var(t):
    """a bound variable occurs free in the term"""
    return _depth(t, {}) > 0


def _depth(t, memo):
    """number of enclosing binders the term refers to"""
    k = t.get_id()
    if k in memo:
        return memo[k]
    if z3.is_var(t):
        r = z3.get_var_index(t) + 1
    elif z3.is_quantifier(t):
        r = max(0, _depth(t.body(), memo) - t.num_vars())
    elif z3.is_app(t):
        r = max([_depth(x, memo) for x in t.children()], default=0)
    else:
        r = 0
    memo[k] = r
    return r


def instances(c, terms, depth=3, limit=4000):
    """instances of the registered lemmas for the terms occurring in `terms`"""
    out = []
    done = set()
    frontier = list(terms)
    for _ in range(depth):
        new = []
        for t in walk(frontier):
            if not z3.is_app(t) or t.num_args() == 0:
                continue
            d = t.decl()
            if d.kind() != z3.Z3_OP_UNINTERPRETED:
                continue
            k = t.get_id()
            if k in done:
                continue
            done.add(k)
            name = d.name()
            args = t.children()
            if any(has_var(a) for a in args):
                continue
            fs = []
            if name == 'sqrt':
                a = args[0]
                fs += [z3.Implies(a >= 0, z3.And(t >= 0, t * t == a))]
            elif name in ('cos', 'sin'):
                a = args[0]
                fs += [F_COS(a) * F_COS(a) + F_SIN(a) * F_SIN(a) == 1, F_COS(a) <= 1, F_COS(a) >= -1,
                       F_SIN(a) <= 1, F_SIN(a) >= -1]
                na = z3.simplify(-a, som=True)
                if na.get_id() != a.get_id():
                    fs += [z3.And(F_COS(na) == F_COS(a), F_SIN(na) == -F_SIN(a))] if _neg(a) else []
                fs += [z3.Implies(a == 0, z3.And(F_COS(a) == 1, F_SIN(a) == 0))]
            for fn in c.inst.get(name, ()):
                fs += fn(*args)
            if name in c.row_decls and not c.in_axiom:
                r = args[0]
                rk = ('row', r.get_id())
                if rk not in done:
                    done.add(rk)
                    for ax in c.row_axioms:
                        c.in_axiom = True
                        try:
                            f = zb(ax(S_(r)))
                        finally:
                            c.in_axiom = False
                        if not z3.is_true(f):
                            fs.append(f)
            for f in fs:
                new.append(f)
        if not new:
            break
        out += new
        frontier = new
        if len(out) > limit:
            break
    return out


def _neg(a):
    s = a.sexpr()
    return s.startswith('(- ') or s.startswith('(* (- ') or s.startswith('(+ (* (- ')
