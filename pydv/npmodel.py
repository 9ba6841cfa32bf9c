"""Trusted model of the numpy functions used by pySC, over symbolic arrays."""
import math
import numpy as np
import z3
from . import arr as A
from .core import (S, S_, ctx, Unsupported, is_num, zlift, zb, ite, mk_and, mk_or, mk_not, ret, real, uf, REAL, INT, BOOL,
                   const_val, Fraction, norm, simp)


def _int(x):
    return isinstance(x, (int, np.integer)) and not isinstance(x, bool)


def V(x):
    return A.toaval(x)


def out(av):
    if av.ndim == 0:
        return av(())
    return A.Arr(av)


def conc(d):
    return not isinstance(d, S)


def axes_of(axis, nd):
    if axis is None:
        return tuple(range(nd))
    if isinstance(axis, (tuple, list)):
        return tuple(int(a) % nd for a in axis)
    return (int(axis) % nd,)


def reduce(av, axis, keepdims, red, dt='f'):
    """red(n, fn) over each axis in turn"""
    axs = axes_of(axis, av.ndim)
    keep = [i for i in range(av.ndim) if i not in axs]

    def full(outidx, redidx):
        idx = [None] * av.ndim
        for i, k in enumerate(keep):
            idx[k] = outidx[i]
        for i, k in enumerate(axs):
            idx[k] = redidx[i]
        return tuple(idx)

    def rec(outidx, pre):
        j = len(pre)
        if j == len(axs):
            return av(full(outidx, pre))
        return red(av.shape[axs[j]], lambda k: rec(outidx, pre + (k,)))
    if keepdims:
        shape = tuple(1 if i in axs else d for i, d in enumerate(av.shape))
        return A.AVal(shape, lambda idx: rec(tuple(idx[k] for k in keep), ()), dt)
    return A.AVal(tuple(av.shape[k] for k in keep), lambda idx: rec(tuple(idx), ()), dt)


def num(v):
    """bool -> 0/1"""
    if isinstance(v, S) and v.kind == 'b':
        return ite(v, 1, 0)
    if isinstance(v, (bool, np.bool_)):
        return int(v)
    return v


def nanzero(v):
    if isinstance(v, S) and v.nan is not None:
        return S_(z3.If(v.nan, z3.RealVal(0), real(v.t)))
    if isinstance(v, float) and math.isnan(v):
        return 0.0
    return v


def total(av, axis=None, keepdims=False):
    if av.dt == 'b':
        if len(axes_of(axis, av.ndim)) == 1:
            return reduce(av, axis, keepdims, A.Count, 'i')

        def red(n, fn):
            if conc(n):
                r = 0
                for i in range(n):
                    r = r + num(fn(i))
                return r
            v = fn(S_(z3.Int('probe')))
            if isinstance(v, (S, bool)) and (isinstance(v, bool) or v.kind == 'b'):
                return A.Count(n, fn)
            return A.Sum(n, lambda k: num(fn(k)))
        return reduce(av, axis, keepdims, red, 'i')

    def red2(n, fn):
        if conc(n):
            r = 0 if av.dt == 'i' else 0.0
            for i in range(n):
                r = r + fn(i)
            return r
        r = A.Sum(n, fn)
        if av.dt == 'i' and isinstance(r, S):
            c = ctx()
            ti = z3.ToInt(r.t)
            c.assume(z3.ToReal(ti) == r.t)
            return S_(ti)
        return r
    return reduce(av, axis, keepdims, red2, av.dt)


def masked_total(av, axis=None, keepdims=False):
    m = av.mask
    return total(A.AVal(av.shape, lambda idx: ite(m(idx), 0.0, av(idx)), 'f'), axis, keepdims)


class _Linalg:
    def inv(self, m):
        a = V(m)
        n = a.shape[0]
        if not conc(n) or n > 6:
            raise Unsupported('inverse of a symbolic-size matrix')
        c = ctx()
        name = c.fresh('inv')
        c.assumed_lib.add('numpy.linalg.inv: two-sided inverse of a non-singular matrix')
        made = []
        values = lambda: (made or made.append(self._inverse(c, a, n, name)) or made)[0]
        return A.Arr(A.AVal((n, n), lambda idx: values()[idx[0]][idx[1]] if all(not isinstance(i, S) for i in idx) else
                            _bad('inv'), 'f', tag=('inv', a)))

    def solve(self, m, b):
        """x with m x = b"""
        a, v = V(m), V(b)
        n = a.shape[0]
        if not conc(n) or n > 6 or v.ndim != 1:
            raise Unsupported('linear system of symbolic size')
        c = ctx()
        c.assumed_lib.add('numpy.linalg.inv / solve: solution of a non-singular system')
        name = c.fresh('lin')
        xs = [S_(z3.Real(f'{name}!{i}')) for i in range(n)]
        for i in range(n):
            s = 0.0
            for k in range(n):
                s = s + a((i, k)) * xs[k]
            c.assume(s == v((i,)))
        return A.Arr(A.list_aval(xs))

    def lstsq(self, a, b, rcond=None):
        """some solution of the least-squares problem (left open: any numbers, not-a-number possible)"""
        m, v = V(a), V(b)
        if m.ndim != 2 or v.ndim not in (1, 2) or not A.prove(A.eqi(m.shape[0], v.shape[0])):
            raise Unsupported('lstsq of these shapes')
        c = ctx()
        c.assumed_lib.add('numpy.linalg.lstsq: returns a solution of the right shape (values left open)')
        shape = (m.shape[1],) + tuple(v.shape[1:])
        f, g = (c.fresh_fn(nm, *([INT] * len(shape)), ty) for nm, ty in (('lstsq', REAL), ('lstsq.nan', BOOL)))
        z = lambda idx: [zlift(i)[0] for i in idx]
        x = A.Arr(A.AVal(shape, lambda idx: S_(f(*z(idx)), g(*z(idx))), 'f'))
        return x, None, None, None

    def _inverse(self, c, a, n, name):
        vals = [[S_(z3.Real(f'{name}_{i}_{j}')) for j in range(n)] for i in range(n)]
        for i in range(n):
            for j in range(n):
                s1 = 0.0
                s2 = 0.0
                for k in range(n):
                    s1 = s1 + vals[i][k] * a((k, j))
                    s2 = s2 + a((i, k)) * vals[k][j]
                c.assume(s1 == (1.0 if i == j else 0.0))
                c.assume(s2 == (1.0 if i == j else 0.0))
        return vals

    def svd(self, m, full_matrices=True):
        if full_matrices:
            raise Unsupported('full svd')
        a = V(m)
        c = ctx()
        r, q = a.shape
        k = A.smin(r, q)
        U, s, W = c.fresh_fn('svd.U', INT, INT, REAL), c.fresh_fn('svd.s', INT, REAL), c.fresh_fn('svd.Vt', INT, INT, REAL)
        name = s(z3.IntVal(0)).decl().name()
        c.inst.setdefault(name, []).append(lambda i, *l: [z3.Implies(z3.And(i >= 0, i < zlift(k)[0]), s(i) >= 0)] if not l else [])
        c.assumed_lib.add('numpy.linalg.svd: thin factors of the given matrix, non-negative singular values')
        L = lambda i: zlift(i)[0]
        out = (A.Arr(A.AVal((r, k), lambda i: S_(U(L(i[0]), L(i[1]))), 'f')),
               A.Arr(A.AVal((k,), lambda i: S_(s(L(i[0]))), 'f')),
               A.Arr(A.AVal((k, q), lambda i: S_(W(L(i[0]), L(i[1]))), 'f')))
        c.svds.append((a, [x.aval() for x in out]))
        return out

    def eig(self, m):
        a = V(m)
        c = ctx()
        n = a.shape[0]
        if not conc(n) or n > 6 or a.shape[1] != n:
            raise Unsupported('eigenvalues of a symbolic-size matrix')
        if all(A._eqv(a((i, j)), 0) is True for i in range(n) for j in range(n) if i != j):      # LAPACK: exact for a diagonal matrix
            for i in range(n):
                c.assume(a((i, i)) >= 0)
            return A.Arr(A.list_aval([a((i, i)) for i in range(n)])), A.wrap(np.eye(n))
        V_, L_ = c.fresh_fn('eig.V', INT, REAL), c.fresh_fn('eig.L', INT, INT, REAL)
        I = z3.IntVal
        for i in range(n):
            c.assume(S_(V_(I(i)) >= 0))
            for k in range(n):
                c.assume(S_(z3.Sum(*[L_(I(i), I(j)) * V_(I(j)) * L_(I(k), I(j)) for j in range(n)]) == zlift(a((i, k)))[0]))
        c.assumed_lib.add('numpy.linalg.eigh of a symmetric positive semi-definite matrix A: L diag(V) L^T = A, V >= 0')
        L = lambda i: zlift(i)[0]
        return (A.Arr(A.AVal((n,), lambda i: S_(V_(L(i[0]))), 'f')),
                A.Arr(A.AVal((n, n), lambda i: S_(L_(L(i[0]), L(i[1]))), 'f')))

    eigh = eig

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)

        def f(*args, **kw):
            args, kw = A.concretise(args), A.concretise(kw)
            return A.wrap(getattr(np.linalg, name)(*args, **kw))
        return f


def _bad(w):
    raise Unsupported(w)


class _Ma:
    def array(self, data, mask=None, **kw):
        a = V(data)
        if mask is None:
            return A.Arr(a)
        m = V(mask)
        m = A.broadcast_to(m, a.shape)
        am = a.mask
        mm = m if am is None else A.AVal(a.shape, lambda idx: mk_or(m(idx), am(idx)), 'b')
        return A.Arr(A.AVal(a.shape, lambda idx: a(idx), a.dt, mask=mm))

    def average(self, a, axis=None, weights=None, returned=False, keepdims=False):
        return NP.average(a, axis=axis, weights=weights, returned=returned, keepdims=keepdims, _ma=True)

    def getmaskarray(self, a):
        a = V(a)
        m = a.mask
        return A.Arr(A.AVal(a.shape, (lambda idx: m(idx)) if m is not None else (lambda idx: False), 'b'))

    def count(self, a, axis=None, keepdims=False):
        m = V(self.getmaskarray(a))
        return out(reduce(A.AVal(m.shape, lambda idx: ite(m(idx), 0, 1), 'i'), axis, keepdims, A.Sum, 'i'))

    def masked_invalid(self, a):
        return self.array(a, mask=NP.isnan(a))

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported('np.ma.' + name)


class _Random:
    """numpy.random under contract: every draw is an arbitrary real number"""
    def randn(self, *shape):
        c = ctx()
        name = c.fresh('randn')
        f = uf(name, *([INT] * len(shape)), REAL) if shape else None
        if not shape:
            return S_(z3.Real(name))
        shape = tuple(A.dim(s) if isinstance(s, S) else int(s) for s in shape)
        return A.Arr(A.AVal(shape, lambda idx: S_(f(*[zlift(i)[0] for i in idx])), 'f'))

    def standard_normal(self, size=None):
        if size is None:
            return self.randn()
        return self.randn(*(size if isinstance(size, tuple) else (size,)))

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self.standard_normal(size)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported('np.random.' + name)


class NPModel:
    ndarray = A.Arr
    newaxis = None
    pi, inf, nan, e = np.pi, np.inf, np.nan, np.e
    float64, int64, bool_, integer, floating, number = np.float64, np.int64, np.bool_, np.integer, np.floating, np.number
    linalg = _Linalg()
    ma = _Ma()
    random = _Random()

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        real_fn = getattr(np, name)
        if not callable(real_fn) or isinstance(real_fn, type):
            return real_fn

        def f(*args, **kw):
            try:
                args, kw = A.concretise(args), A.concretise(kw)
            except Unsupported as e:
                raise Unsupported(f'np.{name}: {e}')
            return A.wrap(real_fn(*args, **kw))
        return f

    # ---- creation
    def array(self, x, dtype=None, **kw):
        a = V(x)
        if a.ndim == 0 and not A.is_scalar(x) and not isinstance(x, str):
            pass
        k = A.kind_of(dtype) if dtype is not None else a.dt
        if k != a.dt:
            src = a
            a = A.AVal(src.shape, lambda idx: A.cast(src(idx), dtype), k, src.seq, src.mask, src=src.src)
        return A.Arr(a)

    def asarray(self, x, dtype=None):
        if isinstance(x, A.Arr) and (dtype is None or A.kind_of(dtype) == x.aval().dt):
            return x
        return self.array(x, dtype)

    def copy(self, x):
        return A.Arr(V(x))

    def _shape(self, s):
        if isinstance(s, (A.Arr,)):
            if s.ndim == 0:
                s = (s.scalar0(),)
            else:
                s = tuple(s[i] for i in range(len(s)))
        if not isinstance(s, (tuple, list)):
            s = (s,)
        r = []
        for d in s:
            d = norm(simp(d)) if isinstance(d, S) else d
            if isinstance(d, S) and d.kind != 'i':
                raise TypeError('float shape')
            if isinstance(d, S):
                if not A.prove(d >= 0):
                    if not bool(d >= 0):
                        raise ValueError('negative dimensions')
            elif int(d) < 0:
                raise ValueError('negative dimensions')
            r.append(d if isinstance(d, S) else int(d))
        return tuple(r)

    def full(self, shape, v, dtype=None):
        k = A.kind_of(dtype) if dtype is not None else A.dtype_of(v)
        v = A.cast(v, dtype) if dtype is not None else v
        return A.Arr(A.AVal(self._shape(shape), lambda idx: v, k))

    def zeros(self, shape, dtype=float):
        return self.full(shape, 0.0, dtype)

    def ones(self, shape, dtype=float):
        return self.full(shape, 1.0, dtype)

    def empty(self, shape, dtype=float):
        c = ctx()
        shp = self._shape(shape)
        f = uf(c.fresh('empty'), *([INT] * max(1, len(shp))), REAL)
        return A.Arr(A.AVal(shp, lambda idx: S_(f(*[zlift(i)[0] for i in idx])), A.kind_of(dtype)))

    def zeros_like(self, x, dtype=None):
        a = V(x)
        return self.full(a.shape, 0.0 if (dtype or a.dt) == 'f' else 0, dtype)

    def ones_like(self, x, dtype=None):
        a = V(x)
        return self.full(a.shape, 1.0 if a.dt == 'f' else 1, dtype)

    def full_like(self, x, v, dtype=None):
        return self.full(V(x).shape, v, dtype)

    def arange(self, *args, dtype=None):
        args = [norm(simp(a)) if isinstance(a, S) else a for a in args]
        if all(not isinstance(a, (S, A.Arr)) for a in args):
            return A.wrap(np.arange(*args, dtype=dtype))
        args = [a.scalar0() if isinstance(a, A.Arr) else a for a in args]
        lo, hi = (0, args[0]) if len(args) == 1 else (args[0], args[1])
        if len(args) > 2:
            raise Unsupported('arange step')
        n = hi - lo if not (isinstance(lo, int) and lo == 0) else hi
        n = A.smax(n, 0) if not A.prove(n >= 0) else n
        n = A.dim(n)
        seq = A.Seq(n, lambda i: lo + i, lambda x: x - lo, lambda x: A.inrange(x - lo, n), True, True)
        return A.Arr(A.AVal((n,), lambda idx: lo + idx[0], 'i', seq))

    def linspace(self, a, b, n, **kw):
        if kw:
            raise Unsupported('linspace options')
        if not any(isinstance(x, (S, A.Arr)) for x in (a, b, n)):
            return A.wrap(np.linspace(a, b, n))
        if isinstance(n, S):
            return A.Arr(A.AVal((n,), lambda idx: a + (b - a) * idx[0] / (n - 1), 'f'))
        if n == 1:
            return A.Arr(A.AVal((1,), lambda idx: a, 'f'))
        return A.Arr(A.AVal((n,), lambda idx: a + (b - a) * idx[0] / (n - 1), 'f'))

    def polyfit(self, x, y, deg, w=None, cov=False):
        xs, ys = V(x), V(y)
        ws = None if w is None else V(w)
        if deg != 1 or cov != 'unscaled' or ws is None or not (xs.ndim == ys.ndim == ws.ndim == 1):
            raise Unsupported('polyfit options')
        if not (A.prove(A.eqi(xs.shape[0], ys.shape[0])) and A.prove(A.eqi(xs.shape[0], ws.shape[0]))):
            raise Unsupported('polyfit of arrays of different length')
        c = ctx()
        if c.loops:
            raise Unsupported('polyfit in a loop')
        c.assumed_lib.add('numpy.polyfit: (parameters, covariance) of the weighted straight line, depending on nothing but its arguments')
        f, g = c.fresh_fn('fit', INT, REAL), c.fresh_fn('fitcov', INT, INT, REAL)
        z = lambda i: zlift(i)[0]
        p = A.Arr(A.AVal((2,), lambda idx: S_(f(z(idx[0]))), 'f'))
        cv = A.Arr(A.AVal((2, 2), lambda idx: S_(g(z(idx[0]), z(idx[1]))), 'f'))
        for i in (0, 1):
            c.assume(S_(g(z3.IntVal(i), z3.IntVal(i)) >= 0))
        c.fits.append((xs, ys, ws, p, cv))
        return p, cv

    # ---- shape
    def shape(self, x):
        if A.is_scalar(x):
            return ()
        return V(x).shape

    def size(self, x):
        r = 1
        for d in V(x).shape:
            r = r * d
        return r

    def ndim(self, x):
        return V(x).ndim

    def ravel(self, x):
        a = V(x)
        if a.ndim == 0:
            v = a(())
            return A.Arr(A.AVal((1,), lambda idx: v, a.dt))
        if a.ndim == 1:
            return x if isinstance(x, A.Arr) else A.Arr(a)
        return self.reshape(x, (self.size(a),))

    def reshape(self, x, shape):
        a = V(x)
        if not isinstance(shape, (tuple, list)):
            shape = (shape,)
        shape = list(shape)
        if any((not isinstance(d, S)) and d == -1 for d in shape):
            p = [i for i, d in enumerate(shape) if not isinstance(d, S) and d == -1][0]
            restp = 1
            for i, d in enumerate(shape):
                if i != p:
                    restp = restp * d
            # cancel equal symbolic dims
            src = list(a.shape)
            ok = True
            rem = 1
            for i, d in enumerate(shape):
                if i == p or (not isinstance(d, S) and d == 1):
                    continue
                hit = [j for j, e in enumerate(src) if A.deq(e, d)]
                if hit:
                    src.pop(hit[0])
                else:
                    ok = False
            if ok:
                for e in src:
                    rem = rem * e
                shape[p] = rem
            elif all(conc(d) for d in a.shape) and conc(restp):
                shape[p] = int(np.prod(a.shape)) // restp
            else:
                raise Unsupported('reshape -1')
        shape = tuple(A.dim(d) for d in shape)
        # drop unit dims and compare
        s1 = [(i, d) for i, d in enumerate(a.shape) if not (conc(d) and d == 1)]
        s2 = [(i, d) for i, d in enumerate(shape) if not (conc(d) and d == 1)]

        def arr_of(fn, seq=None, mask=None):
            r = A.AVal(shape, fn, a.dt, seq, mask)
            return r
        if len(s1) == len(s2) and all(A.deq(p[1], q[1]) or A.dims_equal(p[1], q[1]) for p, q in zip(s1, s2)):
            def fwd(idx):
                r = [0] * a.ndim
                for p, q in zip(s1, s2):
                    r[p[0]] = idx[q[0]]
                return tuple(r)

            def inv(b):
                r = [0] * len(shape)
                for p, q in zip(s1, s2):
                    r[q[0]] = b[p[0]]
                return True, tuple(r)
            seq = None
            if len(shape) == 1:
                seq = a.seq if a.ndim == 1 else (a.src.seq if a.src is not None and a.src.ndim == 1 else None)
            if isinstance(x, A.Arr) and seq is None:
                return A.Arr(None, A.compose(x.view, A.View(shape, fwd, inv)), x.loc)
            return A.Arr(arr_of(lambda idx: a(fwd(idx)), seq, None if a.mask is None else
                                A.AVal(shape, lambda idx: a.mask(fwd(idx)), 'b')))
        if all(conc(d) for d in a.shape) and all(conc(d) for d in shape):
            if int(np.prod(a.shape)) != int(np.prod(shape)):
                raise ValueError('cannot reshape array')
            st1, st2 = a.shape, shape

            def fwd2(idx):
                if any(isinstance(i, S) for i in idx):
                    raise Unsupported('symbolic index into reshaped array')
                return np.unravel_index(np.ravel_multi_index(idx, st2), st1) if st2 else ()

            def inv2(b):
                if any(isinstance(i, S) for i in b):
                    raise Unsupported('symbolic index into reshaped array')
                return True, tuple(int(v) for v in np.unravel_index(np.ravel_multi_index(b, st1), st2))
            f2 = lambda idx: tuple(int(v) for v in fwd2(idx))
            if isinstance(x, A.Arr):
                return A.Arr(None, A.compose(x.view, A.View(shape, f2, inv2)), x.loc)
            return A.Arr(A.AVal(shape, lambda idx: a(f2(idx)), a.dt))
        # mixed radix with symbolic dims
        n1, n2 = self.size(a), 1
        for d in shape:
            n2 = n2 * d
        if not A.deq(n1, n2):
            n1s, n2s = z3.simplify(zlift(n1)[0], som=True), z3.simplify(zlift(n2)[0], som=True)
            if not n1s.eq(n2s):
                if not A.prove(S_(n1s == n2s)):
                    if not bool(S_(n1s == n2s)):
                        raise ValueError('cannot reshape array')
        return A.Arr(A.AVal(shape, lambda idx: a(unflatten(flatten_index(idx, shape), a.shape)), a.dt))

    def transpose(self, x, axes=None):
        a = V(x)
        if a.ndim < 2:
            return x if isinstance(x, A.Arr) else A.Arr(a)
        if axes is None:
            axes = tuple(reversed(range(a.ndim)))
        axes = tuple(int(i) % a.ndim for i in axes)
        shape = tuple(a.shape[i] for i in axes)

        def fwd(idx):
            r = [None] * a.ndim
            for i, ax in enumerate(axes):
                r[ax] = idx[i]
            return tuple(r)

        def inv(b):
            return True, tuple(b[ax] for ax in axes)
        if isinstance(x, A.Arr):
            return A.Arr(None, A.compose(x.view, A.View(shape, fwd, inv)), x.loc)
        return A.Arr(A.AVal(shape, lambda idx: a(fwd(idx)), a.dt))

    def _joined(self, vs, offs, fn, dt):
        """sequences without repeats and without common elements: together again one"""
        c = ctx()
        qs = [v.seq for v in vs]
        if len(vs) < 2 or c.loops or any(q is None or not q.distinct or q.pos is None for q in qs):
            return None
        x = z3.Int('kjoin')
        for i, q in enumerate(qs):
            for r in qs[:i]:
                if c.feasible(z3.And(zb(q.member(S_(x))), zb(r.member(S_(x))))):
                    return None
        name = c.fresh('joined')
        av = A.new_seq(name, lambda x: mk_or(*[q.member(x) for q in qs]), n=offs[-1])
        at, pos = uf(name + '.at', INT, INT), uf(name + '.pos', INT, INT)

        def place(x):
            r = offs[len(qs) - 1] + qs[-1].pos(S_(x))
            for j in reversed(range(len(qs) - 1)):
                r = ite(qs[j].member(S_(x)), offs[j] + qs[j].pos(S_(x)), r)
            return zlift(r)[0]
        c.inst[name + '.at'].append(lambda i: [z3.Implies(z3.And(i >= 0, i < zlift(offs[-1])[0]), at(i) == zlift(fn((S_(i),)))[0])])
        c.inst[name + '.pos'].append(lambda x: [z3.Implies(zb(mk_or(*[q.member(S_(x)) for q in qs])), pos(x) == place(x))])
        return av

    def concatenate(self, parts, axis=0):
        if isinstance(parts, A.Arr):
            parts = [parts[i] for i in range(len(parts))]
        vs = [V(p) for p in parts]
        nd = vs[0].ndim
        if nd == 0:
            raise ValueError('zero-dimensional arrays cannot be concatenated')
        if any(v.ndim != nd for v in vs):
            raise ValueError('all the input array dimensions except for the concatenation axis must match')
        axis = int(axis) % nd
        for v in vs[1:]:
            for i in range(nd):
                if i != axis and not A.dims_equal(v.shape[i], vs[0].shape[i]):
                    raise ValueError('all the input array dimensions except for the concatenation axis must match')
        offs = [0]
        for v in vs:
            offs.append(offs[-1] + v.shape[axis])
        shape = list(vs[0].shape)
        shape[axis] = offs[-1]
        dt = A.join_dt(*[v.dt for v in vs if not (v.ndim == 1 and conc(v.shape[0]) and v.shape[0] == 0 and v.dt == 'f')] or ['f'])

        def fn(idx):
            i = idx[axis]

            def sub(j):
                o = i - offs[j] if not (conc(offs[j]) and offs[j] == 0) else i
                return vs[j](idx[:axis] + (o,) + idx[axis + 1:])
            last = [j for j in range(len(vs)) if not (conc(vs[j].shape[axis]) and vs[j].shape[axis] == 0)]
            if not last:
                raise Unsupported('empty concatenation')
            r = None
            for j in reversed(last):
                if r is None:
                    if conc(i) and conc(offs[j]) and j != last[0] and i < offs[j]:
                        continue
                    r = (lambda jj=j: sub(jj))()
                    if conc(i) and conc(offs[j]) and i >= offs[j]:
                        return r
                    continue
                hi = offs[j + 1]
                if conc(i) and conc(hi):
                    if i < hi:
                        r = sub(j) if not (conc(offs[j]) and i < offs[j]) else r
                    continue
                r = ite(i < hi if isinstance(i, S) else ret(z3.IntVal(i) < zlift(hi)[0]), sub(j), r)
            return r
        seqs = None
        if nd == 1 and dt == 'i':
            members = [v.seq.member if v.seq is not None else (lambda x, v=v: A.contains(v, x)) for v in vs]
            seqs = A.Seq(offs[-1], None, None, lambda x: mk_or(*[m(x) for m in members]), False, False)
            seqs.pos = None
            whole = self._joined(vs, offs, fn, dt)
            if whole is not None:
                return A.Arr(whole)
        av = A.AVal(tuple(shape), fn, dt)
        av.tag = ('concat', seqs) if seqs is not None else None
        return A.Arr(av)

    def hstack(self, parts):
        vs = [V(p) for p in parts]
        return self.concatenate(parts, axis=0 if vs[0].ndim == 1 else 1)

    def vstack(self, parts):
        ps = [self.reshape(p, (1,) + V(p).shape) if V(p).ndim == 1 else p for p in parts]
        return self.concatenate(ps, axis=0)

    def stack(self, parts, axis=0):
        if axis != 0:
            raise Unsupported('stack axis')
        return A.Arr(A.list_aval(list(parts)))

    def unique(self, x, **kw):
        a = V(x)
        if kw == dict(return_index=True) and a.ndim == 1 and (not conc(a.shape[0]) or A.has_sym([x])):
            return self._first_occurrences(a)
        if kw:
            A_ = A.concretise(x)
            return A.wrap(np.unique(A_, **kw))
        if conc(a.shape[0]) and a.ndim == 1:
            vals = [a((i,)) for i in range(a.shape[0])]
            if all(conc(v) for v in vals):
                return A.wrap(np.unique(np.array(vals, dtype=int if a.dt == 'i' else None)))
        if a.dt != 'i':
            raise Unsupported('unique of reals')
        if a.seq is not None and a.seq.is_sorted and a.seq.distinct:
            return A.Arr(a)
        if a.seq is not None:
            mem, bound = a.seq.member, a.shape[0]
        elif a.tag and a.tag[0] == 'concat':
            mem, bound = a.tag[1].member, a.shape[0]
        else:
            aa = a if a.ndim == 1 else V(self.ravel(x))
            mem, bound = (lambda v: A.contains(aa, v)), aa.shape[0]
        ctx().assumed_lib.add('numpy.unique: sorted, duplicate-free, same members')
        return A.Arr(A.new_seq(ctx().fresh('uniq'), mem, True, bound))

    def _first_occurrences(self, a):
        """np.unique(a, return_index=True): sorted distinct values and the first index of each"""
        c = ctx()
        n = zlift(a.shape[0])[0]
        b, pos = c.fresh_fn('first', INT, INT), c.fresh_fn('pos', INT, INT)
        m = z3.Int(c.fresh('distinct'))
        j, e = A.fresh_k(), A.fresh_k()
        at = lambda i: zlift(a((S_(i),)))
        if at(e)[1] is not None and not z3.is_false(z3.simplify(at(e)[1])):
            raise Unsupported('unique of data that may be not-a-number')
        val = lambda i: at(i)[0]
        c.assume(z3.And(m >= z3.If(n > 0, 1, 0), m <= n))
        c.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < m), z3.And(b(j) >= 0, b(j) < n, pos(b(j)) == j)), patterns=[b(j)]))
        body = z3.Implies(z3.And(e >= 0, e < n), z3.And(pos(e) >= 0, pos(e) < m, val(b(pos(e))) == val(e), b(pos(e)) <= e))
        pats = [pos(e)]
        v = val(e)
        if z3.is_app(v) and v.num_args() and any(v.arg(i).eq(e) for i in range(v.num_args())) \
                and v.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            pats.append(v)
        c.assume(z3.ForAll([e], body, patterns=pats))
        i, k = A.fresh_k(), A.fresh_k()
        c.assume(z3.ForAll([i, k], z3.Implies(z3.And(i >= 0, i < k, k < m), val(b(i)) < val(b(k))),
                           patterns=[z3.MultiPattern(b(i), b(k))]))
        c.assumed_lib.add('numpy.unique: sorted distinct values and their first positions')
        grid = A.AVal((S_(m),), lambda idx: a((S_(b(zlift(idx[0])[0])),)), a.dt)
        index = A.AVal((S_(m),), lambda idx: S_(b(zlift(idx[0])[0])), 'i', tag=('first', a))
        return A.Arr(grid), A.Arr(index)

    def repeat(self, x, n, axis=None):
        a = V(x)
        if axis is not None:
            raise Unsupported('repeat axis')
        if a.ndim == 1 and conc(a.shape[0]) and a.shape[0] == 1:
            v = a((0,))
            return A.Arr(A.AVal((n,), lambda idx: v, a.dt))
        if a.ndim == 0:
            v = a(())
            return A.Arr(A.AVal((n,), lambda idx: v, a.dt))
        if not isinstance(n, S) and n == 1:
            return A.Arr(a)
        if not isinstance(n, S) and conc(a.shape[0]):
            return A.Arr(A.list_aval([a((i,)) for i in range(a.shape[0]) for _ in range(n)]))
        if a.ndim == 1:
            if bool(A._eqv(a.shape[0], 1)):
                return A.Arr(A.AVal((n,), lambda idx: a((0,)), a.dt))
        raise Unsupported('repeat')

    def tile(self, x, reps):
        a = V(x)
        if isinstance(reps, A.Arr):
            reps = tuple(reps[i] for i in range(len(reps))) if reps.ndim else (reps.scalar0(),)
        if not isinstance(reps, (tuple, list)):
            reps = (reps,)
        reps = tuple(reps)
        nd = max(len(reps), a.ndim)
        reps = (1,) * (nd - len(reps)) + reps
        shp = (1,) * (nd - a.ndim) + a.shape
        newshape = tuple(s if (conc(r) and r == 1) else (r if (conc(s) and s == 1) else s * r) for s, r in zip(shp, reps))

        def fn(idx):
            r = []
            for i, s, rp in zip(idx, shp, reps):
                if conc(s) and s == 1:
                    r.append(0)
                elif conc(rp) and rp == 1:
                    r.append(i)
                else:
                    if isinstance(s, S):
                        raise Unsupported('tile of symbolic dims')
                    r.append(i % s)
            return a(tuple(r[nd - a.ndim:]))
        return A.Arr(A.AVal(newshape, fn, a.dt))

    def roll(self, x, shift, axis=None):
        a = V(x)
        if axis is not None or a.ndim != 1 or not conc(a.shape[0]) or isinstance(shift, S):
            raise Unsupported('roll')
        n = a.shape[0]
        return A.Arr(A.list_aval([a(((i - shift) % n,)) for i in range(n)]))

    def flip(self, x):
        a = V(x)
        n = a.shape[0]
        return A.Arr(A.AVal(a.shape, lambda idx: a((n - 1 - idx[0],) + idx[1:]), a.dt))

    def diff(self, x, axis=-1):
        a = V(x)
        axis %= a.ndim
        shape = list(a.shape)
        shape[axis] = shape[axis] - 1

        def fn(idx):
            j = idx[:axis] + (idx[axis] + 1,) + idx[axis + 1:]
            return a(j) - a(idx)
        return A.Arr(A.AVal(tuple(shape), fn, a.dt))

    def outer(self, x, y):
        a, b = V(self.ravel(x)), V(self.ravel(y))
        return A.Arr(A.AVal((a.shape[0], b.shape[0]), lambda i: a((i[0],)) * b((i[1],)), A.join_dt(a.dt, b.dt)))

    # ---- elementwise
    def isnan(self, x): return A.ew(A.isnan_, x, dt='b')
    def isfinite(self, x): return A.ew(lambda v: mk_not(A.isnan_(v)), x, dt='b')
    def sign(self, x): return A.ew(A.sign_, x)
    def abs(self, x): return A.ew(abs, x)
    absolute = abs
    fabs = abs
    def sqrt(self, x): return A.ew(A.sqrt_, x, dt='f')
    def square(self, x): return A.ew(lambda v: v * v, x)
    def cos(self, x): return A.ew(A.cos_, x, dt='f')
    def arctan2(self, y, x): return A.ew(A.atan2_, y, x, dt='f')

    def exp(self, x):
        if not isinstance(x, A.CArr):
            return self.__getattr__('exp')(x)
        if not x._imaginary():
            raise Unsupported('exponential of a complex array')
        return A.CArr(self.cos(x.im), self.sin(x.im))

    def angle(self, z, deg=False):
        if not isinstance(z, A.CArr) or deg:
            raise Unsupported('np.angle')
        return self.arctan2(z.im, z.re)
    def sin(self, x): return A.ew(A.sin_, x, dt='f')
    def add(self, x, y): return A.ew(A.add, x, y)
    def subtract(self, x, y): return A.ew(A.sub, x, y)
    def multiply(self, x, y): return A.ew(A.mul, x, y)
    def divide(self, x, y): return A.ew(A.div, x, y)
    true_divide = divide
    def negative(self, x): return A.ew(lambda v: -v, x)
    def power(self, x, y): return A.ew(lambda a, b: a ** b, x, y)
    def remainder(self, x, y):
        def f(a, b):
            if isinstance(a, S) or isinstance(b, S):
                if A.prove(mk_and(b > 0, -b < a, a < b)):
                    return ite(a < 0, a + b, a)
            return a % b
        return A.ew(f, x, y)
    mod = remainder
    def floor_divide(self, x, y): return A.ew(lambda a, b: a // b, x, y)

    def floor(self, x):
        return A.ew(lambda v: S_(z3.ToReal(z3.ToInt(real(v.t))), v.nan) if isinstance(v, S) else math.floor(v), x)

    def logical_not(self, x): return A.ew(lambda v: mk_not(v), x, dt='b')
    def logical_and(self, x, y): return A.ew(lambda a, b: mk_and(a, b), x, y, dt='b')
    def logical_or(self, x, y): return A.ew(lambda a, b: mk_or(a, b), x, y, dt='b')
    def invert(self, x): return ~x
    def maximum(self, x, y): return A.ew(lambda a, b: _mx(a, b), x, y)
    def minimum(self, x, y): return A.ew(lambda a, b: -_mx(-a, -b), x, y)
    def real(self, x): return x.real
    def greater(self, x, y): return A.ew(lambda a, b: a > b, x, y, dt='b')
    def less(self, x, y): return A.ew(lambda a, b: a < b, x, y, dt='b')
    def equal(self, x, y): return A.ew(lambda a, b: a == b, x, y, dt='b')
    def not_equal(self, x, y): return A.ew(lambda a, b: a != b, x, y, dt='b')

    def clip(self, x, a_min=None, a_max=None):
        r = x
        if a_min is not None:
            r = self.maximum(r, a_min)
        if a_max is not None:
            r = self.minimum(r, a_max)
        return r

    def nan_to_num(self, x):
        return A.ew(lambda v: nanzero(v), x)

    def where(self, c, x=None, y=None):
        if x is None:
            return self.nonzero(c)
        return A.ew(lambda cc, a, b: ite(cc, a, b), c, x, y)

    def copysign(self, x, y):
        def f(a, b):
            aa = abs(a)
            return ite(b >= 0, aa, -aa)
        return A.ew(f, x, y)

    def nonzero(self, x):
        a = V(x)
        m = a if a.dt == 'b' else A.AVal(a.shape, lambda idx: a(idx) != 0, 'b')
        return tuple(A.NZ(m, i) for i in range(max(1, a.ndim)))

    def flatnonzero(self, x):
        return self.nonzero(self.ravel(x))[0].arr()

    def argwhere(self, x):
        a = V(x)
        m = a if a.dt == 'b' else A.AVal(a.shape, lambda idx: a(idx) != 0, 'b')
        if all(conc(d) for d in m.shape):
            vals = {i: m(i) for i in np.ndindex(*m.shape)}
            if len(vals) <= 4 and not ctx().loops:        # one path per outcome
                vals = {i: bool(v) for i, v in vals.items()}
            if all(isinstance(v, (bool, np.bool_)) for v in vals.values()):
                return A.wrap(np.array([i for i, v in vals.items() if v], dtype=int).reshape(-1, m.ndim))
        return ArgWhere(m)

    def isin(self, x, y):
        a = V(x)
        b = V(self.ravel(y))
        return A.Arr(A.AVal(a.shape, lambda idx: A.contains(b, a(idx)), 'b'))
    in1d = isin

    def count_nonzero(self, x):
        t = V(x).tag
        if t and t[0] == 'eqs':
            return A.ite(t[1].member(t[2]), 1, 0)
        return self.sum(self.not_equal(x, 0) if V(x).dt != 'b' else x)

    def array_equal(self, x, y):
        a, b = V(x), V(y)
        if a is b:
            return True
        if a.ndim != b.ndim:
            return False
        for p, q in zip(a.shape, b.shape):
            if not A.dims_equal(p, q):
                return False
        return self.all(self.equal(x, y))

    # ---- reductions
    def sum(self, x, axis=None, keepdims=False):
        a = V(x) if not isinstance(x, (list, tuple)) or not x or not isinstance(x[0], A.Arr) else A.list_aval(list(x))
        if a.mask is not None:
            if axis is not None:
                raise Unsupported('masked sum axis')
            return out(masked_total(a, axis, keepdims))
        return out(total(a, axis, keepdims))

    def nansum(self, x, axis=None, keepdims=False):
        a = V(x)
        return out(total(A.AVal(a.shape, lambda idx: nanzero(a(idx)), 'f'), axis, keepdims))

    def _n(self, a, axis):
        n = 1
        for i in axes_of(axis, a.ndim):
            n = n * a.shape[i]
        return n

    def mean(self, x, axis=None, keepdims=False):
        a = V(x)
        if a.mask is not None:
            raise Unsupported('masked mean')
        n = self._n(a, axis)
        if conc(n) and n == 0:
            t = total(a, axis, keepdims)
            return out(A.AVal(t.shape, lambda idx: float('nan'), 'f'))
        b = A.AVal(a.shape, lambda idx: ite(a(idx), 1.0, 0.0), 'f') if a.dt == 'b' else a
        t = total(b, axis, keepdims)
        r = A.AVal(t.shape, lambda idx: t(idx) / n, 'f')
        if isinstance(n, S) and not A.prove(n > 0):
            empty = n == 0
            r0 = r
            r = A.AVal(t.shape, lambda idx: ite(empty, float('nan'), r0(idx)), 'f')
        return out(r)

    def nanmean(self, x, axis=None, keepdims=False):
        a = V(x)
        cnt = total(A.AVal(a.shape, lambda idx: ite(A.isnan_(a(idx)), 0.0, 1.0), 'f'), axis, keepdims)
        t = total(A.AVal(a.shape, lambda idx: nanzero(a(idx)), 'f'), axis, keepdims)

        def fn(idx):
            c = cnt(idx)
            return ite(c == 0, float('nan'), t(idx) / c if isinstance(c, S) or c != 0 else float('nan'))
        return out(A.AVal(t.shape, fn, 'f'))

    def _positive(self, w, mask=None):
        """provably some weight along every line and every weight that counts positive: no sum of weights is zero"""
        c = ctx()
        base = len(c.pc)
        try:
            idx = tuple(S_(A.fresh_k()) for _ in w.shape)
            for k, d in zip(idx, w.shape):
                if not A.prove(A.le(1, d) if isinstance(d, S) else bool(d >= 1)):
                    return False
                c.pc.append(zb(mk_and(k >= 0, k < d)))
            if mask is not None:
                c.pc.append(zb(mk_not(mask(idx))))
            v = w(idx)
            return A.prove(mk_and(A._eqv(v, v), v > 0))
        finally:
            c.cut(base)

    def average(self, x, axis=None, weights=None, returned=False, keepdims=False, _ma=False):
        if isinstance(x, A.CArr):
            if returned:
                raise Unsupported('weights of a complex average')
            return A.CArr(*[self.average(v, axis, weights, False, keepdims, _ma) for v in (x.re, x.im)])
        a = V(x)
        if weights is None:
            if a.mask is not None:
                m = a.mask
                cnt = total(A.AVal(a.shape, lambda idx: ite(m(idx), 0.0, 1.0), 'f'), axis, keepdims)
            else:
                n = self._n(a, axis)
                t0 = total(a, axis, keepdims)
                cnt = A.AVal(t0.shape, lambda idx: n, 'f')
            w = None
        else:
            w = V(weights)
            if w.ndim != a.ndim:
                if w.ndim == 1 and axis is not None:
                    ax = axes_of(axis, a.ndim)
                    if len(ax) != 1 or not A.dims_equal(w.shape[0], a.shape[ax[0]]):
                        raise ValueError('Length of weights not compatible with specified axis.')
                    w1 = w
                    w = A.AVal(a.shape, lambda idx: w1((idx[ax[0]],)), w1.dt)
                else:
                    raise TypeError('1D weights expected when shapes of a and weights differ.')
            else:
                for p, q in zip(w.shape, a.shape):
                    if not A.dims_equal(p, q):
                        raise TypeError('Axis must be specified when shapes of a and weights differ.')
            if a.mask is not None and (w.mask is None or w.mask is not a.mask):
                m1, m2 = a.mask, w.mask
                m = A.AVal(a.shape, lambda idx: mk_or(m1(idx), m2(idx) if m2 is not None else False), 'b')
            else:
                m = a.mask if a.mask is not None else w.mask
        if a.mask is not None or (w is not None and w.mask is not None):
            if w is None:
                m = a.mask
            wv = (lambda idx: w(idx)) if w is not None else (lambda idx: 1.0)
            if not _ma and w is not None:      # np.average: only the weights' own mask counts, zero weights are an error
                wm = w.mask
                den0 = total(A.AVal(a.shape, lambda idx: wv(idx) if wm is None else ite(wm(idx), 0.0, wv(idx)), 'f'), axis, keepdims)
                gone = reduce(wm, axis, keepdims, lambda n, fn: A.Forall(n, fn), 'b') if wm is not None else (lambda idx: False)
                zero = out(A.AVal(den0.shape, lambda idx: mk_and(mk_not(gone(idx)), A._eqv(den0(idx), 0)), 'b'))
                if not self._positive(w, wm) and bool(self.any(zero)):
                    raise ZeroDivisionError("Weights sum to zero, can't be normalized")
            num_ = total(A.AVal(a.shape, lambda idx: ite(m(idx), 0.0, _prod(wv(idx), a(idx))), 'f'), axis, keepdims)
            den = total(A.AVal(a.shape, lambda idx: ite(m(idx), 0.0, wv(idx)), 'f'), axis, keepdims) if _ma or w is None else den0
            allm = reduce(m, axis, keepdims, lambda n, fn: A.Forall(n, fn), 'b')
            # masked result where everything is masked or the weights add up to zero
            mk = A.AVal(num_.shape, lambda idx: mk_or(allm(idx), den(idx) == 0), 'b')
            r = A.AVal(num_.shape, lambda idx: num_(idx) / den(idx), 'f', mask=mk)
            if returned:
                return A.Arr(r), A.Arr(A.AVal(den.shape, den._fn, 'f', mask=mk))
            return A.Arr(r)
        if w is None:
            t = total(a, axis, keepdims)
            r = A.AVal(t.shape, lambda idx: t(idx) / cnt(idx), 'f')
            if returned:
                return out(r), out(A.AVal(t.shape, lambda idx: cnt(idx) * 1.0, 'f'))
            return out(r)
        num_ = total(A.AVal(a.shape, lambda idx: _prod(a(idx), w(idx)), 'f'), axis, keepdims)
        den = total(A.AVal(a.shape, lambda idx: w(idx), 'f'), axis, keepdims)
        if not _ma and not self._positive(w):
            if bool(self.any(out(A.AVal(den.shape, lambda idx: A._eqv(den(idx), 0), 'b')))):
                raise ZeroDivisionError("Weights sum to zero, can't be normalized")
        r = A.AVal(num_.shape, lambda idx: num_(idx) / den(idx), 'f')
        if returned:
            return out(r), out(den)
        return out(r)

    def var(self, x, axis=None):
        a = V(x)
        if axis is None and a.ndim > 1:
            return self.var(self.ravel(x))
        m = V(self.mean(x, axis=axis, keepdims=True)) if a.ndim else None
        d = A.AVal(a.shape, lambda idx: (a(idx) - m(A.bidx(m.shape, idx))) * (a(idx) - m(A.bidx(m.shape, idx))), 'f')
        return self.mean(A.Arr(d), axis=axis)

    def std(self, x, axis=None):
        return self.sqrt(self.var(x, axis=axis))

    def any(self, x, axis=None):
        if isinstance(x, (list, tuple)):
            return mk_or(*x) if len(x) else False
        a = V(x)
        b = a if a.dt == 'b' else A.AVal(a.shape, lambda idx: a(idx) != 0, 'b')
        if a.mask is not None:       # masked entries do not count
            b0 = b
            b = A.AVal(a.shape, lambda idx: mk_and(mk_not(a.mask(idx)), b0(idx)), 'b')
        return out(reduce(b, axis, False, A.Exists, 'b'))

    def all(self, x, axis=None):
        if isinstance(x, (list, tuple)):
            return mk_and(*x) if len(x) else True
        a = V(x)
        b = a if a.dt == 'b' else A.AVal(a.shape, lambda idx: a(idx) != 0, 'b')
        if a.mask is not None:
            b0 = b
            b = A.AVal(a.shape, lambda idx: mk_or(a.mask(idx), b0(idx)), 'b')
        return out(reduce(b, axis, False, A.Forall, 'b'))

    def prod(self, x, axis=None):
        if isinstance(x, (tuple, list)):
            r = 1
            for v in x:
                r = r * v
            return r
        a = V(x)
        if a.ndim == 0:
            return a(())
        if any(isinstance(d, S) for d in a.shape):
            raise Unsupported('prod of symbolic length')

        def red(n, fn):
            r = 1
            for i in range(n):
                r = r * fn(i)
            return r
        return out(reduce(a, axis, False, red, a.dt))

    def max(self, x, axis=None):
        return self._ext(x, axis, 1)

    def min(self, x, axis=None):
        return self._ext(x, axis, -1)
    amax, amin = max, min

    def _ext(self, x, axis, sgn):
        a = V(x)

        def red(n, fn):
            if conc(n):
                if n == 0:
                    raise ValueError('zero-size array to reduction operation')
                r = fn(0)
                for i in range(1, n):
                    v = fn(i)
                    r = _mx(r, v) if sgn > 0 else -_mx(-r, -v)
                return r
            raise Unsupported('max over symbolic length')
        if a.ndim == 1 and isinstance(a.shape[0], S):
            return self._ext_sym(a, sgn)
        return out(reduce(a, axis, False, red, a.dt))

    def _ext_sym(self, a, sgn):
        n = a.shape[0]
        if not A.prove(n > 0):
            if not bool(n > 0):
                raise ValueError('zero-size array to reduction operation')
        c = ctx()
        w = c.fresh_fn('ext', INT)()
        m = a((S_(w),))
        c.assume(mk_and(S_(w) >= 0, S_(w) < n))
        k = A.fresh_k()
        v = a((S_(k),))
        b = zb((v <= m) if sgn > 0 else (v >= m))
        nm, nv = zlift(m)[1], zlift(v)[1]
        if nv is not None:        # not-a-number if any value is
            b = z3.Or(nm if nm is not None else z3.BoolVal(False), z3.And(z3.Not(nv), b))
        c.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n.t), b)))
        return m

    def argmax(self, x):
        a = V(x)
        if a.ndim != 1:
            raise Unsupported('argmax nd')
        n = a.shape[0]
        if conc(n):
            best, bi = a((0,)), 0
            for i in range(1, n):
                v = a((i,))
                c = v > best
                nv, nb = zlift(v)[1], zlift(best)[1]
                if nv is not None or nb is not None:
                    f = z3.BoolVal(False)
                    nv, nb = f if nv is None else nv, f if nb is None else nb
                    c = S_(z3.And(z3.Not(nb), z3.Or(nv, zb(c))))
                bi, best = ite(c, i, bi), ite(c, v, best)
            return bi
        if not A.prove(n > 0) and not bool(n > 0):
            raise ValueError('attempt to get argmax of an empty sequence')
        c = ctx()
        w = S_(c.fresh_fn('argmax', INT)())
        k = A.fresh_k()
        m, v = a((w,)), a((S_(k),))
        c.assume(mk_and(w >= 0, w < n))
        nm, nv = zlift(m)[1], zlift(v)[1]
        b, first = zb(v <= m), zb(v < m)
        if nv is not None:        # the first not-a-number if there is one
            bad = nm if nm is not None else z3.BoolVal(False)
            b, first = z3.Or(bad, z3.And(z3.Not(nv), b)), z3.And(z3.Not(nv), z3.Or(bad, first))
        c.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n.t), z3.And(b, z3.Implies(k < w.t, first)))))
        return w

    # ---- linear algebra
    def dot(self, x, y):
        if A.is_scalar(x) or A.is_scalar(y):
            return x * y
        a, b = V(x), V(y)
        if a.ndim == 0 or b.ndim == 0:
            return A.ew(A.mul, x, y)
        if a.tag and a.tag[0] == 'inv' and b.ndim == 1:
            return self.linalg.solve(a.tag[1], y)
        n = a.shape[-1]
        m = b.shape[0] if b.ndim == 1 else b.shape[-2]
        if not A.dims_equal(n, m):
            raise ValueError('shapes not aligned')
        shape = a.shape[:-1] + (b.shape[:-2] + b.shape[-1:] if b.ndim > 1 else ())
        na = a.ndim - 1

        def fn(idx):
            ia, ib = idx[:na], idx[na:]
            if b.ndim == 1:
                return A.Sum(n, lambda k: a(ia + (k,)) * b((k,)))
            return A.Sum(n, lambda k: a(ia + (k,)) * b(ib[:-1] + (k,) + ib[-1:]))
        r = A.AVal(shape, fn, 'f')
        return out(r)
    matmul = dot
    inner = dot

    def diag(self, x):
        a = V(x)
        if a.ndim == 1:
            n = a.shape[0]
            return A.Arr(A.AVal((n, n), lambda i: ite(A.eqi(i[0], i[1]), a((i[0],)), 0.0), a.dt))
        if a.ndim == 2:
            return A.Arr(A.AVal((A.smin(*a.shape),), lambda i: a((i[0], i[0])), a.dt))
        raise ValueError('Input must be 1- or 2-d.')

    def einsum(self, spec, *ops):
        ins, o = spec.replace(' ', '').split('->')
        ins = ins.split(',')
        vs = [V(x) for x in ops]
        dims = {}
        for s, v in zip(ins, vs):
            if len(s) != v.ndim:
                raise ValueError('einsum')
            for ch, d in zip(s, v.shape):
                if ch in dims and not A.dims_equal(dims[ch], d):
                    raise ValueError('operands could not be broadcast together')
                dims.setdefault(ch, d)
        summed = [ch for ch in dims if ch not in o]

        def fn(idx):
            env = dict(zip(o, idx))

            def rec(j):
                if j == len(summed):
                    r = None
                    for s, v in zip(ins, vs):
                        e = v(tuple(env[ch] for ch in s))
                        r = e if r is None else r * e
                    return r
                ch = summed[j]

                def f(k):
                    env[ch] = k
                    return rec(j + 1)
                return A.Sum(dims[ch], f)
            return rec(0)
        return out(A.AVal(tuple(dims[ch] for ch in o), fn, 'f'))

    def trace(self, x):
        return self.sum(self.diag(x))

    def interp(self, x, xp, fp):
        xs, p, f = V(x), V(xp), V(fp)
        n = p.shape[0]
        if not conc(n):
            return self._interp(xs, p, f)

        def one(v):
            r = f((n - 1,))
            for j in range(n - 2, -1, -1):
                lin = f((j,)) + (f((j + 1,)) - f((j,))) * (v - p((j,))) / (p((j + 1,)) - p((j,)))
                r = ite(v < p((j + 1,)), lin, r)
            return ite(v < p((0,)), f((0,)), r)
        ctx().assumed_lib.add('numpy.interp: piecewise linear interpolation, clamped at the ends')
        if xs.ndim == 0:
            return one(xs(()))
        return A.Arr(A.AVal(xs.shape, lambda idx: one(xs(idx)), 'f'))

    def _interp(self, xs, p, f):
        """on a strictly increasing grid of symbolic size: the value of a grid point that is hit, something else between them"""
        c = ctx()
        n = p.shape[0]
        i, k = S_(A.fresh_k()), S_(A.fresh_k())
        base = len(c.pc)
        try:
            c.pc.append(zb(mk_and(i >= 0, i < k, k < n)))
            if not A.prove(p((i,)) < p((k,))):
                raise Unsupported('interp on a symbolic grid that is not known to increase')
        finally:
            c.cut(base)
        hit, between = c.fresh_fn('hit', REAL, INT), c.fresh_fn('between', REAL, REAL)
        j = A.fresh_k()
        x = real(zlift(p((S_(j),)))[0])
        c.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zlift(n)[0]), hit(x) == j)))
        c.assumed_lib.add('numpy.interp: the value of the grid point where one is hit')

        def one(v):
            t = real(zlift(v)[0])
            h = S_(hit(t))
            return ite(mk_and(h >= 0, h < n, p((h,)) == v), f((h,)), S_(between(t)))
        return out(A.AVal(xs.shape, lambda idx: one(xs(idx)), 'f'))

    def lexsort(self, keys):
        ks = [V(k) for k in keys]
        n = ks[0].shape[0]
        if conc(n) and n <= 4 and A.has_sym(list(keys)):
            def less(i, j):
                for k in reversed(ks):
                    a, b = k((i,)), k((j,))
                    if bool(a < b):
                        return True
                    if bool(b < a):
                        return False
                return False
            order = []
            for i in range(n):
                p = len(order)
                while p > 0 and less(i, order[p - 1]):
                    p -= 1
                order.insert(p, i)
            return A.wrap(np.array(order, dtype=int))
        return A.wrap(np.lexsort(A.concretise(keys)))


def _mx(a, b):
    if conc(a) and conc(b):
        return max(a, b)
    q = (a >= b) if isinstance(a, S) else (b <= a)
    if (conc(b) or conc(a)) and isinstance(q, S) and A.prove(q):
        return a
    return ite(q, a, b)


def _prod(a, b):
    if isinstance(a, float) and a == 1.0:
        return b
    return a * b


class ArgWhere:
    """np.argwhere(mask) of a symbolic mask: rows are the index tuples of true entries"""
    def __init__(self, mask):
        self.mask = mask
        self.shape = (None, mask.ndim)

    def __len__(self):
        raise Unsupported('len of argwhere')

    def parts(self):
        m = self.mask
        if m.ndim == 1:
            s = A.nonzero_seq(m)
            return [(s.shape[0], lambda k: A.Arr(A.list_aval([s[k]])))]
        if m.ndim != 2 or not conc(m.shape[0]):
            raise Unsupported('argwhere of a symbolic number of rows')
        res = []
        for p in range(m.shape[0]):
            s = A.nonzero_seq(A.AVal((m.shape[1],), lambda idx, p=p: m((p, idx[0])), 'b'))
            res.append((s.shape[0], lambda k, p=p, s=s: A.Arr(A.list_aval([p, s[k]]))))
        return res


def flatten_index(idx, shape):
    """flat index as a structured value: list of (index, dim)"""
    return [(i, d) for i, d in zip(idx, shape)]


def unflatten(flat, shape):
    """re-split a row-major structured index into `shape`"""
    src = [(i, d) for i, d in flat if not (not isinstance(d, S) and d == 1)]
    dst = [(j, d) for j, d in enumerate(shape) if not (not isinstance(d, S) and d == 1)]
    res = [0] * len(shape)
    src = list(src)
    # match from the right: single dims or products
    while dst:
        j, d = dst.pop()
        if not src:
            raise Unsupported('reshape')
        i, e = src.pop()
        if A.deq(d, e):
            res[j] = i
            continue
        # src dim e = (.. * d): split  i -> (i // d, i % d)
        prodsrc = e
        # dst dim d covers several source dims
        q, acc, idx = e, e, i
        ok = False
        while src:
            i2, e2 = src.pop()
            idx = i2 * acc + idx
            acc = e2 * acc
            if _peq(acc, d):
                ok = True
                break
        if ok:
            res[j] = idx
            continue
        # otherwise the source dim e is a product of dst dims
        if len(src) == 0:
            group = [(j, d)] + [x for x in reversed(dst)]
            tot = 1
            for _, dd in group:
                tot = tot * dd
            if _peq(tot, acc):
                return _split(idx, group, res)
        raise Unsupported('reshape of symbolic dimensions')
    return tuple(res)


def _peq(a, b):
    return z3.simplify(zlift(a)[0], som=True).eq(z3.simplify(zlift(b)[0], som=True))


_FD, _FM = uf('fdiv', INT, INT, INT), uf('fmod', INT, INT, INT)


def _split(idx, group, res):
    """idx = mixed radix number with digits for group (innermost first)"""
    c = ctx()
    cur = idx
    for n, (j, d) in enumerate(group):
        if n == len(group) - 1:
            res[j] = cur
            break
        # cur = q*d + r, 0<=r<d ; recognise syntactically  a*d + b
        q, r = _divmod(cur, d)
        top = group[-1][1]
        if n == len(group) - 2 and isinstance(top, int) and top <= 4 and zlift(q)[0].decl().eq(_FD):
            q, r = 0, cur          # few rows: which one by comparison
            for k in range(1, top):
                q, r = ite(cur >= k * d, k, q), ite(cur >= k * d, cur - k * d, r)
        res[j] = r
        cur = q
    return tuple(res)


def _divmod(cur, d):
    if not isinstance(cur, S) and not isinstance(d, S):
        return divmod(cur, d)
    c = ctx()
    t, dt_ = zlift(cur)[0], zlift(d)[0]
    q, r = _FD(t, dt_), _FM(t, dt_)

    def inst(a, b):
        return [z3.Implies(b > 0, z3.And(_FD(a, b) * b + _FM(a, b) == a, _FM(a, b) >= 0, _FM(a, b) < b))]
    if '_fdiv' not in c.__dict__ or c.__dict__['_fdiv'] is not c.inst:
        c.__dict__['_fdiv'] = c.inst
        c.inst.setdefault('fdiv', []).append(inst)
    # syntactic recognition of a*d + b with 0 <= b < d provable
    ts = z3.simplify(t, som=True)
    parts = list(ts.children()) if z3.is_add(ts) else [ts]
    qs, rs = [], []
    for p in parts:
        fs = []
        st = [p]
        while st:
            x = st.pop()
            if z3.is_mul(x):
                st.extend(x.children())
            else:
                fs.append(x)
        hit = [i for i, f in enumerate(fs) if f.eq(dt_)]
        if hit:
            fs.pop(hit[0])
            m = z3.IntVal(1)
            for f in fs:
                m = m * f
            qs.append(z3.simplify(m))
        else:
            rs.append(p)
    qq = z3.simplify(z3.Sum(qs)) if qs else z3.IntVal(0)
    rr = z3.simplify(z3.Sum(rs)) if rs else z3.IntVal(0)
    if A.prove(mk_and(S_(rr) >= 0, S_(rr) < d)):
        return norm(S_(qq)), norm(S_(rr))
    return S_(q), S_(r)


NP = NPModel()
