"""Symbolic arrays (any length) and the trusted numpy model."""
import math
import numpy as np
import z3
from .core import (split_merge, S, S_, Ctx, ctx, Unsupported, MergeError, SymStr, is_num, zlift, zb, ite, merge, mk_and, mk_or, mk_not,
                   ret, real, arith, nor, norm, simp, uf, REAL, INT, BOOL, const_val, Fraction, is_zero)


# ------------------------------------------------------------------ helpers
def keyof(i):
    return i if not isinstance(i, S) else ('s', i.t.get_id())


def is_scalar(x):
    return is_num(x) or isinstance(x, (S, Fraction))


def deq(a, b):
    """dims syntactically equal"""
    if isinstance(a, S) or isinstance(b, S):
        at, bt = zlift(a)[0], zlift(b)[0]
        return at.eq(bt) or z3.simplify(at).eq(z3.simplify(bt))
    return a == b


def dim(x):
    x = norm(simp(x)) if isinstance(x, S) else x
    return int(x) if isinstance(x, np.integer) else x


def dims_equal(a, b):
    if deq(a, b):
        return True
    if not isinstance(a, S) and not isinstance(b, S):
        return False
    return bool(S_(zlift(a)[0] == zlift(b)[0]))     # forks when undetermined


def le(a, b):
    if not isinstance(a, S) and not isinstance(b, S):
        return a <= b
    return (a <= b)


def prove(b):
    """syntactically / solver entailed now"""
    if isinstance(b, (bool, np.bool_)):
        return bool(b)
    return ctx().entails(zb(b))


def smin(a, b):
    if not isinstance(a, S) and not isinstance(b, S):
        return min(a, b)
    if prove(le(a, b)):
        return a
    if prove(le(b, a)):
        return b
    return ite(a < b, a, b)


def smax(a, b):
    if not isinstance(a, S) and not isinstance(b, S):
        return max(a, b)
    if prove(le(a, b)):
        return b
    if prove(le(b, a)):
        return a
    return ite(a >= b, a, b)


# ------------------------------------------------------------------ sums over symbolic ranges
SUM = uf('SUM', z3.ArraySort(INT, REAL), INT, REAL)


def _contains(t, k):
    kid = k.get_id()
    for x in _walk(t):
        if x.get_id() == kid:
            return True
    return False


def _walk(t):
    st, seen = [t], set()
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        yield x
        if z3.is_quantifier(x):
            st.append(x.body())
        elif z3.is_app(x):
            st.extend(x.children())


def _monomials(t):
    t = z3.simplify(t, som=True)
    return list(t.children()) if z3.is_add(t) else [t]


def _factors(t):
    if z3.is_mul(t):
        out = []
        for c in t.children():
            out += _factors(c)
        return out
    if z3.is_app_of(t, z3.Z3_OP_UMINUS):
        return [z3.RealVal(-1)] + _factors(t.arg(0))
    if z3.is_div(t) and not z3.is_rational_value(t.arg(0)):       # a / b = a (1 / b)
        return _factors(t.arg(0)) + [z3.RealVal(1) / t.arg(1)]
    return [t]


def sum_term(n, body, k):
    """SUM_{0<=k<n} body (z3 Real containing const k) in linear normal form"""
    n = z3.simplify(n)
    total = []
    for m in _monomials(real(body)):
        fs = _factors(m)
        const, var = [], []
        delta = None
        for f in fs:
            (var if _contains(f, k) else const).append(f)
        # delta rule: factor If(k == c, a, 0) with k not in c
        for f in list(var):
            if not z3.is_app_of(f, z3.Z3_OP_ITE):
                continue
            if is_zero(f.arg(2)):
                conds, x0 = (f.arg(0).children() if z3.is_and(f.arg(0)) else [f.arg(0)]), f.arg(1)
            elif is_zero(f.arg(1)):
                conds = f.arg(0).children() if z3.is_or(f.arg(0)) else [f.arg(0)]
                conds, x0 = [z3.simplify(z3.Not(q)) for q in conds], f.arg(2)
            else:
                continue
            for q in conds:
                if not z3.is_eq(q):
                    continue
                l, r = q.children()
                c = r if l.eq(k) else (l if r.eq(k) else None)
                if c is not None and not _contains(c, k):
                    rest = [x for x in var if x is not f] + [x0]
                    v = z3.RealVal(1)
                    for x in rest:
                        v = v * x
                    v = z3.substitute(v, (k, c))
                    more = [z3.substitute(x, (k, c)) for x in conds if x is not q]
                    delta = z3.If(z3.And(c >= 0, c < n, *more), v, z3.RealVal(0))
                    break
            if delta is not None:
                break
        if delta is not None:
            r = delta
        elif not var:
            r = z3.ToReal(n) if not z3.is_int_value(n) else z3.RealVal(n.as_long())
        else:
            # pull ite conditions not depending on k
            v = var[0]
            for x in var[1:]:
                v = v * x
            v = z3.simplify(v, som=True)
            if any(z3.is_app_of(x, z3.Z3_OP_ITE) for x in _walk(v)):
                v = z3.simplify(z3.simplify(v, local_ctx=True, elim_and=True), som=True)
            r = None
            if z3.is_app_of(v, z3.Z3_OP_ITE):
                if not _contains(v.arg(0), k):
                    r = z3.If(v.arg(0), sum_term(n, v.arg(1), k), sum_term(n, v.arg(2), k))
            if r is None:
                kk = z3.Int('kbound')
                r = SUM(z3.Lambda([kk], z3.substitute(v, (k, kk))), n)
        for f in const:
            r = f * r
        total.append(r)
    out = total[0]
    for x in total[1:]:
        out = out + x
    return out


def in_range(v, k, n):
    """v with the comparisons of k that follow from 0 <= k < n replaced"""
    if not isinstance(v, S):
        return v
    return S_(*[x if x is None else range_term(x, k.t, zlift(n)[0]) for x in (v.t, v.nan)])


def range_term(t, kt, nt):
    sub = []
    for a in _walk(t):
        if z3.is_app(a) and a.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT):
            l, r = a.children()
            op = a.decl().kind()
            if op in (z3.Z3_OP_GE, z3.Z3_OP_GT):
                l, r, op = r, l, z3.Z3_OP_LE if op == z3.Z3_OP_GE else z3.Z3_OP_LT
            if r.eq(kt) and z3.is_int_value(l):            # c <= k, c < k
                c = l.as_long()
                if c <= 0 and op == z3.Z3_OP_LE or c < 0:
                    sub.append((a, z3.BoolVal(True)))
            elif l.eq(kt) and r.eq(nt):
                if op == z3.Z3_OP_LT:
                    sub.append((a, z3.BoolVal(True)))
                else:
                    sub.append((a, z3.BoolVal(True)))
            elif l.eq(nt) and r.eq(kt):                    # n <= k, n < k
                sub.append((a, z3.BoolVal(False)))
            elif l.eq(kt) and z3.is_int_value(r):          # k <= c, k < c
                c = r.as_long()
                if c < 0 or c == 0 and op == z3.Z3_OP_LT:
                    sub.append((a, z3.BoolVal(False)))
    return z3.simplify(z3.substitute(t, *sub)) if sub else t


_kc = [0]


def fresh_k():
    _kc[0] += 1
    return z3.Int(f'k#{_kc[0]}')


def Sum(n, fn):
    """sum of fn(k), k in [0,n); NaN if any summand is NaN"""
    if not isinstance(n, S):
        n = int(n)
        r = 0.0
        for i in range(n):
            r = r + fn(i)
        return r
    k = fresh_k()
    v = in_range(fn(S_(k)), S_(k), n)
    vt, vn = zlift(v)
    t = sum_term(n.t, vt, k)
    nan = None
    if vn is not None:
        vn = z3.simplify(vn)
        if not z3.is_false(vn):
            nan = closed_exists(k, z3.And(k >= 0, k < n.t, vn))
    if z3.is_int(arith(vt)) and not z3.is_real(arith(vt)):
        pass
    return S_(t, nan)


def Count(n, fn):
    """number of k in [0,n) with fn(k): integer valued"""
    if not isinstance(n, S):
        r = 0
        for i in range(int(n)):
            r = r + ite(fn(i), 1, 0)
        return r
    k = fresh_k()
    b = zb(fn(S_(k)))
    b = z3.simplify(range_term(b, k, n.t))
    if z3.is_true(b):
        return n
    if z3.is_false(b):
        return 0
    t = sum_term(n.t, z3.If(b, z3.RealVal(1), z3.RealVal(0)), k)
    ti = z3.ToInt(t)
    c = ctx()
    c.assume(z3.ToReal(ti) == t)
    c.assume(z3.And(ti >= 0, ti <= n.t))
    same_count(b, k, n, 'count', ti)
    return S_(ti)


def closed_exists(k, b):
    """exists k. b, with one name for every bound variable: equal formulas are equal terms"""
    q = z3.Int('kq')
    return z3.Exists([q], z3.substitute(b, (k, q)))


def symbols(b):
    """names of the functions applied in a term"""
    out, seen, stack = set(), set(), [b]
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t):
            if t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(t.decl().name())
            stack += t.children()
    return out


def counted_entry(b, n):
    """counts and index sequences known for a mask (equivalent bodies share them)"""
    c = ctx()
    key = (b.get_id(), n.t.get_id())
    ent = c.counted.get(key)
    if ent is None:
        kb = z3.Int('kbound')
        for e in c.counted.values():
            b2, n2 = e['keep']
            if n2.t.eq(n.t) and symbols(b) == symbols(b2) and not c.feasible(z3.And(kb >= 0, kb < n.t, b != b2)):
                ent = e
                break
        else:
            ent = dict(keep=(b, n))
        c.counted[key] = ent
        c.counted_keep.append((b, n))
    return ent


def same_count(b, k, n, what, t):
    """the number of true entries of a mask is the length of the sequence of their indices"""
    c = ctx()
    b = z3.substitute(b, (k, z3.Int('kbound')))
    ent = counted_entry(b, n)
    other = ent.get('nz' if what == 'count' else 'count')
    ent[what] = t
    if other is not None:
        c.assume(S_(other == t))


def Exists(n, fn):
    if not isinstance(n, S):
        return mk_or(*[fn(i) for i in range(int(n))]) if int(n) else False
    k = fresh_k()
    b = z3.simplify(range_term(zb(fn(S_(k))), k, n.t))
    if z3.is_false(b):
        return False
    if not _contains(b, k):
        return ret(z3.And(n.t > 0, b))

    return S_(closed_exists(k, z3.And(k >= 0, k < n.t, b)))


def Forall(n, fn):
    return mk_not(Exists(n, lambda k: mk_not(fn(k))))


# ------------------------------------------------------------------ immutable array values
class Seq:
    """structure of a 1-D integer array: at(i), inverse pos(x), membership"""
    def __init__(self, n, at, pos, member, distinct=True, is_sorted=False):
        self.n, self.at, self.pos, self.member = n, at, pos, member
        self.distinct, self.is_sorted = distinct, is_sorted


class AVal:
    __slots__ = ('shape', '_fn', 'dt', 'seq', 'cache', 'mask', 'tag', 'src', 'wr', 'loop')

    def __init__(self, shape, fn, dt='f', seq=None, mask=None, tag=None, src=None):
        self.shape = tuple(dim(d) for d in shape)
        self._fn = fn
        self.dt = dt
        self.seq = seq
        self.cache = {}
        self.mask = mask       # AVal of bool (masked arrays)
        self.tag = tag
        self.src = src
        self.wr = None         # (base AVal, ((cond(idx), val(idx)), ...)): structured writes
        self.loop = None

    def over(self, cond, val):
        """self with val(idx) where cond(idx)"""
        base, wr = self.wr if self.wr is not None else (self, ())
        return AVal.from_writes(base, wr + ((cond, val),), self.shape, self.dt)

    @staticmethod
    def from_writes(base, wr, shape, dt):
        def fn(idx):
            pend = []
            last = None
            for c, v in reversed(wr):
                q = c(idx)
                if isinstance(q, S):
                    q = norm(simp(q))
                if q is False:
                    continue
                if q is True:
                    last = v(idx)
                    break
                pend.append((q, v))
            else:
                last = base(idx)
            for q, v in reversed(pend):
                last = ite(q, v(idx), last)
            return last
        r = AVal(shape, fn, dt)
        r.wr = (base, wr)
        return r

    @staticmethod
    def merge_writes(ct, entry, a, b):
        eb, ew_ = entry.wr if entry.wr is not None else (entry, ())
        ab, aw = a.wr if a.wr is not None else (a, ())
        bb, bw = b.wr if b.wr is not None else (b, ())
        if ab is not eb and ab.loop is not None and ab.loop[1] is entry:
            if b is entry:
                b, bb, bw = ab, ab, ()
            entry, eb, ew_ = ab, ab, ()
        elif bb is not eb and bb.loop is not None and bb.loop[1] is entry:
            if a is entry:
                a, ab, aw = bb, bb, ()
            entry, eb, ew_ = bb, bb, ()
        n = len(ew_)
        if ab is eb and bb is eb and aw[:n] == ew_ and bw[:n] == ew_:
            cs = S_(ct)
            nc = mk_not(cs)
            wr = ew_ + tuple(((lambda idx, c=c: mk_and(cs, c(idx))), v) for c, v in aw[n:]) + \
                tuple(((lambda idx, c=c: mk_and(nc, c(idx))), v) for c, v in bw[n:])
            return AVal.from_writes(eb, wr, entry.shape, entry.dt)
        return AVal._merge(ct, a, b)

    def __call__(self, idx):
        key = tuple(keyof(i) for i in idx)
        h = self.cache.get(key)
        if h is None:
            h = (self._fn(idx), idx)
            self.cache[key] = h
        return h[0]

    @property
    def ndim(self):
        return len(self.shape)

    @staticmethod
    def _merge(ct, a, b):
        a, b = toaval(a), toaval(b)
        if len(a.shape) != len(b.shape):
            raise MergeError('ndim')
        shape = tuple(x if deq(x, y) else merge(ct, x, y) for x, y in zip(a.shape, b.shape))
        if (a.seq is None) != (b.seq is None) or (a.mask is None) != (b.mask is None):
            raise MergeError('seq')
        if a.seq is not None and a.seq is not b.seq:
            raise MergeError('seq')
        if a.mask is not None and a.mask is not b.mask:
            raise MergeError('mask')

        def fn(idx):
            return merge(ct, a(idx), b(idx))
        return AVal(shape, fn, a.dt if a.dt == b.dt else 'f', a.seq, a.mask)


def concrete_aval(x):
    x = np.asarray(x)
    dt = {'f': 'f', 'i': 'i', 'u': 'i', 'b': 'b', 'O': 'o', 'c': 'c', 'U': 'o'}[x.dtype.kind]

    def fn(idx):
        if all(not isinstance(i, S) for i in idx):
            v = x[tuple(idx)]
            return v.item() if hasattr(v, 'item') else v
        # symbolic index into concrete data
        out = None
        for pos in np.ndindex(*x.shape):
            v = x[pos]
            v = v.item() if hasattr(v, 'item') else v
            if out is None:
                out = v
            else:
                out = ite(mk_and(*[S_(zlift(i)[0] == p) for i, p in zip(idx, pos)]), v, out)
        if out is None:
            raise Unsupported('symbolic index into empty array')
        return out
    return AVal(x.shape, fn, dt)


def toaval(x):
    if isinstance(x, AVal):
        return x
    if isinstance(x, Arr):
        return x.aval()
    if isinstance(x, np.ndarray):
        return concrete_aval(x)
    if is_scalar(x) or isinstance(x, (str, SymStr)):
        return AVal((), lambda idx: x, dtype_of(x))
    if isinstance(x, (list, tuple, range)):
        return list_aval(list(x))
    if hasattr(x, '__aval__'):
        return x.__aval__()
    raise Unsupported(f'array from {type(x).__name__}')


def dtype_of(x):
    if isinstance(x, S):
        return x.kind
    if isinstance(x, (bool, np.bool_)):
        return 'b'
    if isinstance(x, (int, np.integer)):
        return 'i'
    if isinstance(x, (float, np.floating, Fraction)):
        return 'f'
    return 'o'


def join_dt(*ds):
    for d in ('o', 'c', 'f', 'i', 'b'):
        if d in ds:
            return d
    return 'f'


def list_aval(items):
    if not items:
        return AVal((0,), lambda idx: 0.0, 'f')
    vals = [toaval(i) for i in items]
    nd = vals[0].ndim
    if any(v.ndim != nd for v in vals):
        raise Unsupported('ragged array')
    shape = vals[0].shape
    for v in vals[1:]:
        for a, b in zip(shape, v.shape):
            if not dims_equal(a, b):
                raise ValueError('inhomogeneous shape')

    def fn(idx):
        i, rest = idx[0], tuple(idx[1:])
        if not isinstance(i, S):
            return vals[i](rest)
        out = vals[-1](rest)
        for j in range(len(vals) - 2, -1, -1):
            out = ite(S_(i.t == j), vals[j](rest), out)
        return out
    return AVal((len(items),) + shape, fn, join_dt(*[v.dt for v in vals]), src=(vals[0] if len(vals) == 1 else None))


# ------------------------------------------------------------------ mutable arrays
_serial = [0]


def next_serial():
    _serial[0] += 1
    return _serial[0]


class LocalLoc:
    def __init__(self, val, owner=None):
        self.val = val
        self.owner = owner        # name of the contract argument it belongs to
        self.published = None     # (attribute, mutation count) when stored into a lattice column by reference
        self.serial = next_serial()
        self.site = None          # the branch that merged it
        self.origins = ()         # locations this one may alias (merged references)
        self.rings = ()           # lattices (attributes) it is stored in

    def get(self):
        c = ctx()
        if self.published is not None and c.mutated.get(self.published[0], 0) != self.published[1]:
            raise Unsupported('array read after it was stored in the lattice and the lattice modified in place')
        for o in self.origins:
            if o[0].val is not o[1]:
                split_merge(self.site, 'merged reference read after one of its originals changed')
        if c.loops:
            for L in c.loops:
                if self.serial < L.serial and self.val is not None:
                    L.wrap_loc(self)
        return self.val

    def put(self, v):
        c = ctx()
        if self.published is not None:
            raise Unsupported('array modified after it was stored in the lattice')
        if self.origins:
            split_merge(self.site, 'array modified through a merged reference')
        c.log(self, self.val)
        self.val = v
        if self.owner is not None:
            c.touched_args.add(self.owner)

    def publish(self, attr, ring):
        for r, a in self.rings:
            r.shared.add(a)
            ring.shared.add(attr)
            if r is not ring:
                r.cross.add(a)
                ring.cross.add(attr)
        if self.owner is not None:
            ring.cross.add(attr)
        if self.owner is not None or any(self.serial < L.serial for L in ctx().loops):
            ring.shared.add(attr)
        self.rings = self.rings + ((ring, attr),)
        self.published = (attr, ctx().mutated.get(attr, 0))
        for o in self.origins:
            o[0].publish(attr, ring)

    def _get_state(self):
        return self.val

    def _set_state(self, v):
        self.val = v

    def _merge_state(self, ct, entry, a, b):
        return a if a is b else AVal.merge_writes(ct, entry, a, b)


class View:
    __slots__ = ('shape', 'fwd', 'inv')

    def __init__(self, shape, fwd, inv):
        self.shape = tuple(dim(d) for d in shape)
        self.fwd = fwd
        self.inv = inv


def _same_view(v, w):
    return v is w


class Arr:
    __array_ufunc__ = None
    __array_priority__ = 1e6
    __slots__ = ('loc', 'view', '_av', '_avsrc', '__weakref__')

    def __init__(self, val, view=None, loc=None):
        self.loc = loc if loc is not None else LocalLoc(val)
        self.view = view
        self._av = None
        self._avsrc = None

    # ---- values
    def aval(self):
        base = self.loc.get()
        if self.view is None:
            return base
        if self._avsrc is base:
            return self._av
        fwd = self.view.fwd
        mask = None
        if base.mask is not None:
            bm = base.mask
            mask = AVal(self.view.shape, lambda idx: bm(fwd(idx)), 'b')
        self._av = AVal(self.view.shape, lambda idx: base(fwd(idx)), base.dt, mask=mask)
        self._avsrc = base
        return self._av

    @property
    def shape(self):
        return self.view.shape if self.view is not None else self.loc.get().shape

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        r = 1
        for d in self.shape:
            r = r * d
        return r

    @property
    def dtype(self):
        return DType(self.aval().dt)

    @property
    def T(self):
        return NP.transpose(self)

    @property
    def mask(self):
        return Arr(self.aval().mask)

    def scalar0(self):
        a = self.aval()
        if any(not (isinstance(d, int) and d == 1) for d in a.shape):
            raise Unsupported('array used as scalar')
        return a((0,) * a.ndim)

    def __len__(self):
        n = self.shape[0]
        if isinstance(n, S):
            raise Unsupported('native len of symbolic array')
        return n

    def __bool__(self):
        a = self.aval()
        if a.ndim == 0 or all(isinstance(d, int) and d == 1 for d in a.shape):
            return bool(a((0,) * a.ndim))
        raise ValueError('truth value of an array is ambiguous')

    def __float__(self):
        return float(self.scalar0())

    def __int__(self):
        return int(self.scalar0())

    def __index__(self):
        s = self.scalar0()
        return s.__index__()

    def __format__(self, spec):
        return '<arr>'

    def __repr__(self):
        return f'Arr{self.shape}'

    def __hash__(self):
        raise TypeError('unhashable')

    def __iter__(self):
        n = self.shape[0]
        if isinstance(n, S):
            raise Unsupported('native iteration over symbolic array')
        for i in range(n):
            yield self[i]

    def __contains__(self, x):
        return bool(contains(self, x))

    # ---- indexing
    def __getitem__(self, key):
        a_shape = self.shape
        kind, data = compile_index(a_shape, key, self)
        if kind == 'view':
            v = data
            if len(v.shape) == 0:
                base = self.loc.get()
                b = v.fwd(())
                if self.view is not None:
                    b = self.view.fwd(b)
                if base.mask is not None and base.mask(b) is not False:
                    raise Unsupported('masked element')
                return base(b)
            return Arr(None, compose(self.view, v), self.loc)
        if kind == 'gather':      # copy
            shape, fwd, seq = data
            av = self.aval()
            return Arr(AVal(shape, lambda idx: av(fwd(idx)), av.dt, None))
        if kind == 'mask':
            raise Unsupported('multi-dimensional mask read')
        raise Unsupported('index')

    def __setitem__(self, key, value):
        kind, data = compile_index(self.shape, key, self)
        base = self.loc.get()
        if kind in ('view', 'gather'):
            if kind == 'view':
                v = data
                shape, inv = v.shape, v.inv
                if isinstance(value, Arr) and value.loc is self.loc and value.view is not None and \
                        getattr(value, '_inplace', None) is self:
                    return
            else:
                shape, fwd, seq = data
                inv = seq
                if inv is None:
                    raise Unsupported('fancy assignment')
            val = toaval(value)
            bc = broadcast_to(val, shape)
            self._assign(inv, bc)
            return
        if kind == 'mask':
            # data: (cond(idx)->bool, n_axes, scatter shape) ; value scalar (or broadcast along leading axes)
            cond = data
            val = toaval(value)
            if val.ndim != 0:
                raise Unsupported('mask assignment of arrays')
            v0 = val(())

            def inv(idx):
                return cond(idx), ()
            self._assign(inv, AVal((), lambda idx: v0, val.dt))
            return
        raise Unsupported('index')

    def _assign(self, inv, val):
        base = self.loc.get()
        view = self.view
        if base.dt == 'i' and val.dt == 'f':
            raise Unsupported('assignment of reals into an integer array')

        memo = {}

        def locate(idx):
            key = tuple(keyof(i) for i in idx)
            h = memo.get(key)
            if h is None:
                if view is not None:
                    c0, vidx = view.inv(idx)
                else:
                    c0, vidx = True, idx
                if c0 is False:
                    h = (False, None, idx)
                else:
                    c1, sx = inv(vidx)
                    h = (mk_and(c0, c1) if c1 is not False else False, sx, idx)
                memo[key] = h
            return h
        self.loc.put(base.over(lambda idx: locate(idx)[0], lambda idx: val(locate(idx)[1])))

    # ---- arithmetic
    def _b(self, o, f, rev=False):
        if isinstance(o, (complex, CArr)):
            if f is not mul or isinstance(o, CArr):
                raise Unsupported('arithmetic of complex arrays')
            return CArr(0.0 if o.real == 0 else self * o.real, self * o.imag)
        if not isinstance(o, (Arr, S, np.ndarray, list, tuple, Fraction)) and not is_num(o):
            return NotImplemented
        return ew(f, o, self) if rev else ew(f, self, o)

    def __add__(self, o): return self._b(o, add)
    def __radd__(self, o): return self._b(o, add, True)
    def __sub__(self, o): return self._b(o, sub)
    def __rsub__(self, o): return self._b(o, sub, True)
    def __mul__(self, o): return self._b(o, mul)
    def __rmul__(self, o): return self._b(o, mul, True)
    def __truediv__(self, o): return self._b(o, div)
    def __rtruediv__(self, o): return self._b(o, div, True)
    def __floordiv__(self, o): return self._b(o, lambda a, b: a // b)
    def __mod__(self, o): return self._b(o, lambda a, b: a % b)
    def __pow__(self, o): return self._b(o, lambda a, b: a ** b)
    def __rpow__(self, o): return self._b(o, lambda a, b: a ** b, True)
    def __neg__(self): return ew(lambda a: -a, self)
    def __pos__(self): return self
    def __abs__(self): return ew(abs, self)
    def __lt__(self, o): return self._b(o, lambda a, b: a < b)
    def __le__(self, o): return self._b(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._b(o, lambda a, b: a > b)
    def __ge__(self, o): return self._b(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        r = self._b(o, lambda a, b: a == b)
        x = o.scalar0() if isinstance(o, Arr) and o.ndim == 0 else o
        if is_scalar(x) and isinstance(r, Arr):
            q = self.aval().seq
            if q is not None and q.distinct and q.pos is not None:
                r.aval().tag = ('eqs', q, x)
        return r

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return self._b(o, lambda a, b: a != b)

    def __and__(self, o): return self._b(o, lambda a, b: a & b)
    def __rand__(self, o): return self._b(o, lambda a, b: a & b, True)
    def __or__(self, o): return self._b(o, lambda a, b: a | b)
    def __ror__(self, o): return self._b(o, lambda a, b: a | b, True)
    def __xor__(self, o): return self._b(o, lambda a, b: a ^ b)
    def __invert__(self): return NP.logical_not(self) if self.aval().dt == 'b' else ew(lambda a: ~a, self)
    def __matmul__(self, o): return NP.dot(self, o)
    def __rmatmul__(self, o): return NP.dot(o, self)

    def _iop(self, o, f):
        val = ew(f, self, o).aval() if not (is_scalar(self)) else None
        me = self.aval()
        if me.dt == 'i' and val.dt == 'f':
            raise TypeError('Cannot cast ufunc output from float64 to int64')
        if val.ndim != me.ndim:
            raise ValueError('non-broadcastable output operand')
        for a, b in zip(val.shape, me.shape):
            if not dims_equal(a, b):
                raise ValueError('non-broadcastable output operand')
        self._assign(lambda idx: (True, idx), val)
        return self

    def __iadd__(self, o): return self._iop(o, add)
    def __isub__(self, o): return self._iop(o, sub)
    def __imul__(self, o): return self._iop(o, mul)
    def __itruediv__(self, o): return self._iop(o, div)

    # ---- methods
    def copy(self, *a):
        return Arr(self.aval())

    def __copy__(self):
        return Arr(self.aval())

    def __deepcopy__(self, memo):
        return Arr(self.aval())

    def ravel(self, *a): return NP.ravel(self)
    def flatten(self): return NP.ravel(self).copy()
    def reshape(self, *s): return NP.reshape(self, s[0] if len(s) == 1 and isinstance(s[0], (tuple, list)) else s)
    def sum(self, axis=None, **k): return NP.sum(self, axis=axis, **k)
    def mean(self, axis=None, **k): return NP.mean(self, axis=axis, **k)
    def max(self, axis=None): return NP.max(self, axis=axis)
    def min(self, axis=None): return NP.min(self, axis=axis)
    def any(self, axis=None): return NP.any(self, axis=axis)
    def all(self, axis=None): return NP.all(self, axis=axis)
    def dot(self, o): return NP.dot(self, o)
    def transpose(self, *a): return NP.transpose(self, a[0] if len(a) == 1 else (a or None))
    def astype(self, t, **k): return NP.array(self, dtype=t)
    def squeeze(self): raise Unsupported('squeeze')
    def nonzero(self): return NP.nonzero(self)
    def std(self, axis=None): return NP.std(self, axis=axis)
    def var(self, axis=None): return NP.var(self, axis=axis)
    def argmax(self): return NP.argmax(self)
    def repeat(self, n): return NP.repeat(self, n)

    def item(self):
        return self.scalar0()

    def tolist(self):
        if all(isinstance(d, int) for d in self.shape) and self.ndim == 1:
            return [self[i] for i in range(self.shape[0])]
        raise Unsupported('tolist')

    def fill(self, v):
        self[...] = v

    def filled(self, v):
        a = self.aval()
        if a.mask is None:
            return Arr(a)
        m = a.mask
        return Arr(AVal(a.shape, lambda idx: ite(m(idx), v, a(idx)), a.dt))

    @staticmethod
    def _merge(ct, a, b):
        if not isinstance(a, (Arr, np.ndarray)) or not isinstance(b, (Arr, np.ndarray)):
            raise MergeError('array/scalar')
        if isinstance(a, Arr) and isinstance(b, Arr) and a.loc is b.loc and a.view is None and b.view is None:
            return a
        if isinstance(a, Arr) and isinstance(b, Arr):
            return MergedArr(ct, a, b)
        return Arr(AVal._merge(ct, toaval(a), toaval(b)))


def MergedArr(ct, a, b):
    m = Arr(AVal._merge(ct, a.aval(), b.aval()))
    # a merged reference: in-place writes through it would have to reach both originals
    m.loc.origins = tuple((x.loc, x.loc.get()) for x in (a, b) if isinstance(x.loc, LocalLoc))
    if len(m.loc.origins) < 2:
        m.loc.origins += ((LocalLoc(None), None),)
    m.loc.site = ctx().merge_site
    return m


def add(a, b): return a + b
def sub(a, b): return a - b
def mul(a, b): return a * b


def div(a, b):
    if is_num(b) and not isinstance(b, S) and b == 0:
        if is_num(a) and not isinstance(a, S):
            a = float(a)
            return float('nan') if a == 0 or math.isnan(a) else math.copysign(float('inf'), a)
        raise Unsupported('division by zero')
    return a / b


def compose(outer, inner):
    if outer is None:
        return inner
    of, oi = outer.fwd, outer.inv

    def fwd(idx):
        return of(inner.fwd(idx))

    def inv(bidx):
        c0, v = oi(bidx)
        if c0 is False:
            return False, None
        c1, w = inner.inv(v)
        return mk_and(c0, c1), w
    return View(inner.shape, fwd, inv)


def sidx(i, n):
    """normalise an integer index"""
    if isinstance(i, Arr):
        i = i.scalar0()
    if isinstance(i, S):
        i = norm(simp(i))
    if isinstance(i, (bool, np.bool_)):
        raise Unsupported('bool index')
    if isinstance(i, (int, np.integer)):
        i = int(i)
        if i < 0:
            j = n + i
            if not isinstance(j, S) and j < 0:
                raise IndexError('index out of bounds')
            if isinstance(j, S) and not prove(j >= 0):
                if bool(j < 0):
                    raise IndexError('index out of bounds')
            return j
        if not isinstance(n, S):
            if i >= n:
                raise IndexError('index out of bounds')
        elif not prove(S_(z3.IntVal(i) < n.t)):
            if not bool(S_(z3.IntVal(i) < n.t)):
                raise IndexError('index out of bounds')
        return i
    if isinstance(i, S):
        if i.kind != 'i':
            raise IndexError('only integers are valid indices')
        ok = mk_and(i >= 0, i < n)
        if prove(ok):
            return i
        neg = mk_and(i < 0, i >= -n)
        if prove(neg):
            return i + n
        if bool(ok):
            return i
        if bool(neg):
            return i + n
        raise IndexError('index out of bounds')
    raise Unsupported(f'index {type(i).__name__}')


def slice_bounds(s, n):
    step = 1 if s.step is None else s.step
    if isinstance(step, S) or step not in (1, -1):
        if not isinstance(n, S) and not any(isinstance(x, S) for x in (s.start, s.stop, s.step)):
            r = range(*s.indices(n))
            return ('list', list(r))
        raise Unsupported('slice step')

    def scal(x):
        if isinstance(x, Arr):
            x = x.scalar0()
        return norm(simp(x)) if isinstance(x, S) else x
    start, stop = scal(s.start), scal(s.stop)
    if step == -1:
        if start is None and stop is None:
            return ('rev', n)
        raise Unsupported('slice step')

    def clamp(x, default):
        if x is None:
            return default
        if not isinstance(x, S) and not isinstance(n, S):
            x = int(x)
            if x < 0:
                x = max(0, n + x)
            return min(x, n)
        if not isinstance(x, S):
            x = int(x)
            if x == 0:
                return 0
            if x < 0:
                return smax(n + x, 0)
            return smin(x, n)
        if prove(x >= 0):
            return smin(x, n)
        if prove(x < 0):
            return smax(n + x, 0)
        if bool(x >= 0):
            return smin(x, n)
        return smax(n + x, 0)
    a, b = clamp(start, 0), clamp(stop, n)
    ln = b - a if not (isinstance(a, int) and a == 0) else b
    if isinstance(ln, S):
        if not prove(ln >= 0):
            ln = smax(ln, 0)
    else:
        ln = max(0, ln)
    return ('range', a, dim(ln))


class NZ:
    """one axis of np.nonzero(mask)"""
    def __init__(self, mask, axis):
        self.mask, self.axis = mask, axis
        self._arr = None

    def arr(self):
        if self._arr is None:
            if self.mask.ndim != 1:
                raise Unsupported('index array of a multi-dimensional nonzero')
            self._arr = nonzero_seq(self.mask)
        return self._arr

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return getattr(self.arr(), n)

    def __aval__(self):
        return self.arr().aval()

    def __getitem__(self, k):
        return self.arr()[k]

    def __len__(self):
        return len(self.arr())

    def __iter__(self):
        return iter(self.arr())


def nonzero_seq(mask):
    """sorted indices with mask true"""
    n = mask.shape[0]
    c = ctx()
    if mask.tag and mask.tag[0] == 'eqs' and prove(mask.tag[1].member(mask.tag[2])):
        return Arr(list_aval([mask.tag[1].pos(mask.tag[2])]))
    if not isinstance(n, S):
        vals = [mask((i,)) for i in range(n)]
        if all(isinstance(v, (bool, np.bool_)) for v in vals):
            return Arr(concrete_aval(np.array([i for i, v in enumerate(vals) if v], dtype=int)))
    ent = None
    if isinstance(n, S) and not c.loops:
        k = fresh_k()
        b = z3.simplify(range_term(z3.simplify(zb(mask((S_(k),)))), k, n.t))
        if not (z3.is_true(b) or z3.is_false(b)):
            ent = counted_entry(z3.substitute(b, (k, z3.Int('kbound'))), n)
            if 'seq' in ent:
                return Arr(ent['seq'])
    name = c.fresh('nz')
    memf = lambda x: mk_and(x >= 0, x < n, mask((x,)))
    out = Arr(new_seq(name, memf, is_sorted=True, bound=n))
    if ent is not None:
        ent['seq'] = out.aval()
    if isinstance(n, S):
        k = fresh_k()
        b = z3.simplify(range_term(z3.simplify(zb(mask((S_(k),)))), k, n.t))
        if not c.loops and not (z3.is_true(b) or z3.is_false(b)):
            same_count(b, k, n, 'nz', zlift(out.aval().shape[0])[0])
    else:
        r = 0
        for v in vals:
            r = r + ite(v, 1, 0)
        c.assume(out.aval().shape[0] == r)
    return out


def new_seq(name, member, is_sorted=False, bound=None, n=None, extra=None):
    """fresh duplicate-free integer sequence whose elements are exactly the x with member(x)"""
    c = ctx()
    at, pos = uf(name + '.at', INT, INT), uf(name + '.pos', INT, INT)
    if n is None:
        n = S_(z3.Int(name + '.n'))
    nt = zlift(n)[0]
    c.assume(nt >= 0)
    if bound is not None:
        c.assume(nt <= zlift(bound)[0])

    def inst_at(i):
        a = at(i)
        rng = z3.And(i >= 0, i < nt)
        fs = [z3.Implies(rng, z3.And(zb(member(S_(a))), pos(a) == i))]
        if is_sorted:
            fs += [z3.Implies(z3.And(rng, i + 1 < nt), at(i) < at(i + 1))] if not str(i).count('+') else []
        return fs

    def inst_pos(x):
        p = pos(x)
        return [z3.Implies(zb(member(S_(x))), z3.And(p >= 0, p < nt, at(p) == x))]
    c.inst.setdefault(name + '.at', []).append(inst_at)
    c.inst.setdefault(name + '.pos', []).append(inst_pos)
    c.empties[nt.get_id()] = (nt, lambda x: z3.Implies(zb(member(S_(x))), nt >= 1))
    c.inverse[name + '.at'] = lambda rhs, x: (zb(member(S_(rhs))), pos(rhs), 0)
    seq = Seq(n, lambda i: S_(at(zlift(i)[0])), lambda x: S_(pos(zlift(x)[0])), member, True, is_sorted)
    return AVal((n,), lambda idx: seq.at(idx[0]), 'i', seq)


def is_bool_arr(k):
    return isinstance(k, Arr) and k.aval().dt == 'b' or isinstance(k, np.ndarray) and k.dtype == bool


def compile_index(shape, key, arr=None):
    if not isinstance(key, tuple):
        key = (key,)
    key = tuple(k.scalar0() if isinstance(k, Arr) and k.ndim == 0 else k for k in key)
    # plain python lists -> arrays
    key = tuple(np.array(k) if isinstance(k, list) and all(is_num(x) and not isinstance(x, S) for x in k) else
                (Arr(list_aval(k)) if isinstance(k, list) else k) for k in key)
    key = tuple(Arr(list_aval([q.arr() if isinstance(q, NZ) else q for q in k])) if isinstance(k, tuple) and k else k for k in key)
    nidx = sum(1 for k in key if k is not None and k is not Ellipsis and not is_bool_arr(k))
    nidx += sum((k.ndim if isinstance(k, (Arr, np.ndarray)) else 1) for k in key if is_bool_arr(k))
    if Ellipsis in [k for k in key if not isinstance(k, (Arr, S, np.ndarray, NZ))]:
        p = [i for i, k in enumerate(key) if k is Ellipsis][0]
        key = key[:p] + (slice(None),) * (len(shape) - nidx) + key[p + 1:]
    else:
        key = key + (slice(None),) * (len(shape) - nidx)
    if nidx > len(shape):
        raise IndexError('too many indices for array')
    # nonzero tuples
    nzs = [k for k in key if isinstance(k, NZ)]
    if nzs and len(nzs) > 1:
        m = nzs[0].mask
        if all(k.mask is m for k in nzs) and [k.axis for k in nzs] == list(range(m.ndim)) == list(range(len(nzs))):
            pos = [i for i, k in enumerate(key) if isinstance(k, NZ)]
            if all(isinstance(k, slice) and k == slice(None) for i, k in enumerate(key) if i not in pos):
                return 'mask', (lambda idx: m(tuple(idx[p] for p in pos)))
        raise Unsupported('nonzero index')
    key = tuple(k.arr() if isinstance(k, NZ) else k for k in key)
    masks = [k for k in key if is_bool_arr(k)]
    if masks:
        if len(masks) > 1:
            raise Unsupported('several masks')
        m = toaval(masks[0])
        p = [i for i, k in enumerate(key) if is_bool_arr(k)][0]
        rest = [k for i, k in enumerate(key) if i != p]
        conc = all(not isinstance(d, S) for d in m.shape) and m.ndim == 1
        if conc:
            vals = [m((i,)) for i in range(m.shape[0])]
            if len(vals) <= 4 and arr is not None and arr.aval().dt == 'i':
                vals = [v if isinstance(v, (bool, np.bool_)) else bool(v) for v in vals]
            if all(isinstance(v, (bool, np.bool_)) for v in vals):
                key = key[:p] + (np.array([i for i, v in enumerate(vals) if v], dtype=int),) + key[p + 1:]
                masks = None
        if masks:
            simple = all(isinstance(k, slice) and k == slice(None) for k in rest)
            n_before = p
            if m.ndim == 1 and simple:
                mm = MaskIndex(m)
                return _fancy(shape, key, p, mm)
            if simple:
                return 'mask', (lambda idx: m(tuple(idx[n_before:n_before + m.ndim])))
            if m.ndim > 1 and all(isinstance(k, slice) and k == slice(None) or not isinstance(k, (slice, type(None), Arr, np.ndarray)) for k in rest):
                lead = [(i, sidx(k, shape[i])) for i, k in enumerate(key[:p]) if not isinstance(k, slice)]
                tail = [(i + p + m.ndim, sidx(k, shape[i + p + m.ndim])) for i, k in enumerate(key[p + 1:]) if not isinstance(k, slice)]
                return 'mask', (lambda idx: mk_and(*[eqi(idx[i], k) for i, k in lead + tail], m(tuple(idx[n_before:n_before + m.ndim]))))
            # mask on one axis with integer/slices elsewhere
            if m.ndim == 1:
                return _fancy(shape, key, p, MaskIndex(m))
            raise Unsupported('mask index')
    fancy = [i for i, k in enumerate(key) if isinstance(k, (Arr, np.ndarray))]
    if fancy:
        if len(fancy) > 1:
            raise Unsupported('several index arrays')
        return _fancy(shape, key, fancy[0], key[fancy[0]])
    return 'view', basic_view(shape, key)


class MaskIndex:
    def __init__(self, m):
        self.m = m


def basic_view(shape, key):
    out_shape, maps = [], []       # maps: per base axis ('int', v) | ('sl', a, outaxis) | ('rev', n, outaxis)
    ax = 0
    for k in key:
        if k is None:
            out_shape.append(1)
            continue
        n = shape[ax]
        if isinstance(k, slice):
            sb = slice_bounds(k, n)
            if sb[0] == 'range':
                maps.append(('sl', sb[1], len(out_shape)))
                out_shape.append(sb[2])
            elif sb[0] == 'rev':
                maps.append(('rev', sb[1], len(out_shape)))
                out_shape.append(sb[1])
            else:
                maps.append(('list', sb[1], len(out_shape)))
                out_shape.append(len(sb[1]))
        else:
            maps.append(('int', sidx(k, n)))
        ax += 1
    nout = len(out_shape)

    def fwd(idx):
        r = []
        for m in maps:
            if m[0] == 'int':
                r.append(m[1])
            elif m[0] == 'sl':
                i = idx[m[2]]
                r.append(i if isinstance(m[1], int) and m[1] == 0 else i + m[1])
            elif m[0] == 'list':
                i = idx[m[2]]
                if isinstance(i, S):
                    raise Unsupported('strided slice')
                r.append(m[1][i])
            else:
                r.append(m[1] - 1 - idx[m[2]])
        return tuple(r)

    def inv(b):
        conds = []
        out = [0] * nout
        for m, x in zip(maps, b):
            if m[0] == 'int':
                conds.append(eqi(x, m[1]))
            elif m[0] == 'sl':
                o = x if isinstance(m[1], int) and m[1] == 0 else x - m[1]
                out[m[2]] = o
                conds.append(inrange(o, out_shape[m[2]]))
            elif m[0] == 'list':
                if isinstance(x, S):
                    raise Unsupported('strided slice')
                if x in m[1]:
                    out[m[2]] = m[1].index(x)
                else:
                    conds.append(False)
            else:
                out[m[2]] = m[1] - 1 - x
            if conds and conds[-1] is False:
                return False, None
        c = mk_and(*conds) if conds else True
        return c, tuple(out)
    return View(out_shape, fwd, inv)


def eqi(a, b):
    if not isinstance(a, S) and not isinstance(b, S):
        return a == b
    return ret(zlift(a)[0] == zlift(b)[0])


def inrange(o, n):
    if not isinstance(o, S) and not isinstance(n, S):
        return 0 <= o < n
    return mk_and(o >= 0 if isinstance(o, S) else (o >= 0), (o < n) if isinstance(o, S) else ret(z3.IntVal(int(o)) < n.t))


def _fancy(shape, key, p, k):
    """one 1-D (or 2-D concrete) integer index array at position p, basic elsewhere"""
    others = list(key)
    others[p] = slice(None)
    axes_before = sum(1 for q in others[:p] if isinstance(q, slice) or q is None)
    baseaxis = sum(1 for q in key[:p] if q is not None)
    if isinstance(k, MaskIndex):
        seqarr = nonzero_seq(k.m)
        av = seqarr.aval()
        maskmember = k.m
    else:
        av = toaval(k)
        maskmember = None
    v = basic_view(shape, others)
    if any(not isinstance(q, (slice, type(None))) for q in others) and axes_before == 0 and p > 0:
        pass
    out_shape = list(v.shape)
    out_shape[axes_before:axes_before + 1] = list(av.shape)
    nd = av.ndim
    n = shape[baseaxis]

    def fwd(idx):
        sub_ = idx[axes_before:axes_before + nd]
        i = av(tuple(sub_))
        if isinstance(i, S):
            pass
        elif i < 0:
            i = n + i
        r = list(idx[:axes_before]) + [i] + list(idx[axes_before + nd:])
        return v.fwd(tuple(r))
    inv = None
    if av.seq is not None or maskmember is not None:
        sq = av.seq

        def inv(b):
            c, o = v.inv(b)
            if c is False:
                return False, None
            x = o[axes_before]
            mem = sq.member(x) if sq is not None else mk_and(inrange(x, n), maskmember((x,)))
            c = mk_and(c, mem)
            if c is False:
                return False, None
            return c, tuple(list(o[:axes_before]) + [sq.pos(x)] + list(o[axes_before + 1:]))
    elif nd == 1 and not isinstance(av.shape[0], S):
        cnt = av.shape[0]

        def inv(b):
            c, o = v.inv(b)
            if c is False:
                return False, None
            x = o[axes_before]
            posv, mem = 0, False
            for j in range(cnt):      # later entries win
                e = av((j,))
                if not isinstance(e, S) and e < 0:
                    e = n + e
                q = eqi(x, e)
                posv = ite(q, j, posv)
                mem = mk_or(mem, q)
            c = mk_and(c, mem)
            return c, tuple(list(o[:axes_before]) + [posv] + list(o[axes_before + 1:]))
    return 'gather', (tuple(out_shape), fwd, inv)


def contains(seq, x):
    a = toaval(seq)
    if a.seq is not None:
        return a.seq.member(x if isinstance(x, S) else x)
    if a.ndim == 1 and not isinstance(a.shape[0], S):
        return mk_or(*[_eqv(a((i,)), x) for i in range(a.shape[0])]) if a.shape[0] else False
    if a.ndim == 1:
        return Exists(a.shape[0], lambda i: _eqv(a((i,)), x))
    raise Unsupported('membership')


def _eqv(a, b):
    r = (a == b)
    return r


# ------------------------------------------------------------------ elementwise
def broadcast_shapes(shapes):
    nd = max(len(s) for s in shapes)
    out = []
    for ax in range(nd):
        d = 1
        for s in shapes:
            i = ax - (nd - len(s))
            if i < 0:
                continue
            e = s[i]
            if isinstance(e, int) and e == 1:
                continue
            if isinstance(d, int) and d == 1:
                d = e
                continue
            if deq(d, e):
                continue
            if not isinstance(d, S) and not isinstance(e, S):
                raise ValueError('operands could not be broadcast together')
            if dims_equal(d, e):
                d = d if not isinstance(d, S) else (e if not isinstance(e, S) else d)
                continue
            if bool(_eqv(e, 1)):
                continue
            if bool(_eqv(d, 1)):
                d = e
                continue
            raise ValueError('operands could not be broadcast together')
        out.append(d)
    return tuple(out)


def bidx(shape, idx):
    """index into an operand of `shape` for the broadcast index idx"""
    off = len(idx) - len(shape)
    return tuple(0 if (isinstance(d, int) and d == 1) else idx[off + i] for i, d in enumerate(shape))


def broadcast_to(av, shape):
    shp = broadcast_shapes([av.shape, shape])
    if len(shp) != len(shape):
        # leading ones may be dropped when assigning
        extra = len(shp) - len(shape)
        if all(isinstance(d, int) and d == 1 for d in shp[:extra]):
            return AVal(shape, lambda idx: av((0,) * extra + tuple(bidx(av.shape[extra:], idx))), av.dt)
        raise ValueError('could not broadcast input array')
    for a, b in zip(shp, shape):
        if not dims_equal(a, b):
            raise ValueError('could not broadcast input array')
    return AVal(shape, lambda idx: av(bidx(av.shape, idx)), av.dt)


def ew(f, *args, dt=None):
    if all(is_scalar(a) for a in args):
        return f(*args)
    avs = [toaval(a) for a in args]
    shape = broadcast_shapes([a.shape for a in avs])
    probe_dt = dt or _result_dt(f, avs)
    masks = [a for a in avs if a.mask is not None]
    mask = None
    if masks:
        mask = AVal(shape, lambda idx: mk_or(*[a.mask(bidx(a.shape, idx)) for a in masks]), 'b')

    def fn(idx):
        return f(*[a(bidx(a.shape, idx)) for a in avs])
    r = AVal(shape, fn, probe_dt, mask=mask)
    if not shape:
        return fn(())
    return Arr(r)


class CArr:
    """complex array: real and imaginary part (the real part may be the number 0)"""
    def __init__(self, re, im):
        self.re, self.im = re, im

    def __mul__(self, o):
        if isinstance(o, (complex, CArr)):
            raise Unsupported('product of complex arrays')
        return CArr(0.0 if self._imaginary() else self.re * o, self.im * o)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, (complex, CArr)):
            raise Unsupported('ratio of complex arrays')
        return CArr(0.0 if self._imaginary() else self.re / o, self.im / o)

    def _imaginary(self):
        return isinstance(self.re, float) and self.re == 0

    @property
    def shape(self):
        return toaval(self.im).shape

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        if name == 'real':
            return self.re
        if name == 'imag':
            return self.im
        raise Unsupported('complex array: ' + name)


F_ATAN2 = uf('atan2', REAL, REAL, REAL)


def atan2_(y, x):
    if not isinstance(y, S) and not isinstance(x, S):
        return math.atan2(y, x)
    (a, an), (b, bn) = zlift(y), zlift(x)
    return S_(F_ATAN2(real(a), real(b)), nor(an, bn))


_probe = {'f': lambda: S_(z3.Real('probe.f')), 'i': lambda: S_(z3.Int('probe.i')), 'b': lambda: S_(z3.Bool('probe.b'))}


def _result_dt(f, avs):
    try:
        vals = []
        for n, a in enumerate(avs):
            vals.append({'f': S_(z3.Real(f'probe.f{n}')), 'i': S_(z3.Int(f'probe.i{n}')),
                         'b': S_(z3.Bool(f'probe.b{n}'))}[a.dt])
        v = f(*vals)
        return dtype_of(v)
    except Exception:
        return join_dt(*[a.dt for a in avs])


class DType:
    def __init__(self, c):
        self.kind = c

    def __eq__(self, o):
        return isinstance(o, DType) and o.kind == self.kind or kind_of(o) == self.kind

    def __hash__(self):
        return hash(self.kind)


def kind_of(t):
    if isinstance(t, DType):
        return t.kind
    if t in (float, np.float64, 'float', np.float32) or t is None:
        return 'f'
    if t in (int, np.int64, 'int', np.int32):
        return 'i'
    if t in (bool, np.bool_, 'bool'):
        return 'b'
    if t in (complex,):
        return 'c'
    if t is object:
        return 'o'
    try:
        return {'f': 'f', 'i': 'i', 'b': 'b', 'c': 'c', 'O': 'o', 'u': 'i'}[np.dtype(t).kind]
    except Exception:
        raise Unsupported('dtype')


def cast(v, t):
    k = kind_of(t)
    if isinstance(v, S):
        if k == v.kind:
            return v
        if k == 'f':
            return S_(real(v.t), v.nan)
        if k == 'i':
            if v.kind == 'b':
                return S_(arith(v.t))
            # truncation towards zero
            a = real(v.t)
            return S_(z3.If(a >= 0, z3.ToInt(a), -z3.ToInt(-a)))
        if k == 'b':
            return S_(zb(v))
    elif is_num(v):
        return {'f': float, 'i': int, 'b': bool, 'c': complex, 'o': lambda x: x}[k](v)
    if k == 'o':
        return v
    raise Unsupported('cast')


def isnan_(v):
    if isinstance(v, S):
        if v.nan is None:
            return False
        return ret(v.nan)
    return math.isnan(v)


def sign_(v):
    if isinstance(v, S):
        a = arith(v.t)
        one, z, m = (z3.IntVal(1), z3.IntVal(0), z3.IntVal(-1)) if z3.is_int(a) else \
            (z3.RealVal(1), z3.RealVal(0), z3.RealVal(-1))
        return S_(z3.If(a > 0, one, z3.If(a < 0, m, z)), v.nan)
    return float(np.sign(v)) if isinstance(v, float) else int(np.sign(v))


def sqrt_(v):
    if isinstance(v, S):
        return v.sqrt()
    return math.sqrt(v) if v >= 0 else float('nan')


def cos_(v):
    return v.cos() if isinstance(v, S) else math.cos(v)


def sin_(v):
    return v.sin() if isinstance(v, S) else math.sin(v)


def has_sym(x):
    if isinstance(x, (Arr, S, AVal, SymStr, NZ)):
        return True
    if isinstance(x, (list, tuple)):
        return any(has_sym(i) for i in x)
    if isinstance(x, dict):
        return any(has_sym(i) for i in x.values())
    return False


def concretise(x):
    """native value of a fully concrete array; Unsupported otherwise"""
    if isinstance(x, (Arr, AVal, NZ)):
        a = toaval(x)
        if any(isinstance(d, S) for d in a.shape):
            raise Unsupported('symbolic shape')
        out = np.empty(a.shape, dtype={'f': float, 'i': int, 'b': bool, 'o': object, 'c': complex}[a.dt])
        for i in np.ndindex(*a.shape):
            v = a(i)
            if isinstance(v, S):
                v = float(v) if a.dt == 'f' else int(v)
            out[i] = v
        return out
    if isinstance(x, S):
        c = const_val(z3.simplify(x.t))
        if c is None or x.nan is not None:
            raise Unsupported('symbolic value')
        return float(c) if isinstance(c, Fraction) else c
    if isinstance(x, list):
        return [concretise(i) for i in x]
    if isinstance(x, tuple):
        return tuple(concretise(i) for i in x)
    if isinstance(x, dict):
        return {k: concretise(v) for k, v in x.items()}
    return x


def wrap(x):
    if isinstance(x, np.ndarray):
        return Arr(concrete_aval(x))
    if isinstance(x, tuple) and not hasattr(x, '_fields'):
        return tuple(wrap(i) for i in x)
    return x


from .npmodel import NP  # noqa: E402
