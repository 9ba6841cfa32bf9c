"""Contracts: one specification text per function, interpreted three ways

  SymB    every input symbolic, any sizes  -> proof obligations over the instrumented real source
  ConcB   random inputs of bounded size    -> run against the real, unmodified modules
  ModelB  inputs from a solver model       -> replay of a counterexample against the real modules
"""
import copy
import importlib
import math
import os
import random
import sys
import time
import traceback
import numpy as np
import z3
from .core import (S, S_, Ctx, ctx, Unsupported, MergeError, Restart, Infeasible, Explorer, SymStr, is_num, zlift, zb, ite, mk_and,
                   mk_or, mk_not, ret, real, norm, simp, uf, REAL, INT, BOOL, const_val, Fraction, instances)
from . import arr as A
from .arr import Arr, AVal
from . import heap as H
from . import shadow as SH
from . import rt
from . import sig as SG
from . import solve

TOL = 1e-9


class Skip(Exception):
    """the drawn input violates a precondition"""


class Contract:
    def __init__(self, fn, name, targets, params, opts):
        self.fn, self.name, self.targets, self.params, self.opts = fn, name, targets, params, opts

    def scenarios(self):
        out = [{}]
        for k, vs in self.params.items():
            out = [dict(o, **{k: v}) for o in out for v in vs]
        flt = self.opts.get('only')
        return [o for o in out if flt is None or flt(**o)]


REG = {}


def contract(*targets, params=None, **opts):
    """declare a contract for the given functions of /repo"""
    def deco(f):
        mod = f.__module__.rsplit('.', 1)[-1]
        REG.setdefault(mod, []).append(Contract(f, f.__name__, targets, params or {}, opts))
        return f
    return deco


def borrow(into, mod, keep, pick):
    """contracts of another property, of which only the obligations selected by name belong to this one.
    pick: {contract name: parameter values of the scenarios run in the quick tier}"""
    into = into.rsplit('.', 1)[-1]
    for c in REG.get(mod.__name__.rsplit('.', 1)[-1], []):
        if c.name in pick:
            q0, some = c.opts.get('quick'), pick[c.name]

            def quick(q0=q0, some=some, **kw):
                return (q0 is None or q0(**kw)) and all(kw[k] == v for k, v in some.items())
            REG.setdefault(into, []).append(Contract(c.fn, c.name, c.targets, c.params, dict(c.opts, keep=keep, quick=quick)))


class Outcome:
    def __init__(self, value=None, exc=None):
        self.value, self.exc = value, exc
        self.ok = exc is None

    def raised(self, *types):
        return self.exc is not None and isinstance(self.exc, types or (Exception,))


# ==================================================================== symbolic
ENGINE_NAMES = ("'Arr'", "'S'", "'NZ'", "'SymList'", "'SymIter'", "'Row'", "'SymRing'", "'AVal'", "'SymStr'", "'Dummy'", "'NPModel'",
                "'_Random'", "'_Linalg'", "'_Ma'", "'AtModel'", "'_Unb'", "'_Carried'", "'ShallowRing'", "'DType'", "'ArgWhere'")


def engine_error(e):
    """was the exception caused by a gap of the executor rather than by the code under contract?"""
    if isinstance(e, (z3.Z3Exception, RecursionError, MergeError, NotImplementedError)):
        return True
    msg = str(e)
    if any(n in msg for n in ENGINE_NAMES):
        return True
    tb = e.__traceback__
    last = None
    while tb is not None:
        last = tb
        tb = tb.tb_next
    if last is not None and '/pydv/' in last.tb_frame.f_code.co_filename:
        if isinstance(e, (TypeError, KeyError, NameError, AssertionError)) and not getattr(e, '_modelled', False):
            return 'cannot reshape' not in msg and 'shapes differ' not in msg and 'Cannot cast' not in msg
        if isinstance(e, AttributeError):
            return 'element has no attribute' not in msg
    return False


class Old:
    """state of a lattice at a point in time"""
    def __init__(self, ring):
        self.ring = ring


class SymB:
    keep = None

    symbolic = True

    def __init__(self, c):
        self.c = c
        self.obl = []
        self.sizes = []
        self.shadow = SH.shadow()
        self.stubs = []
        c.at_hooks = {}
        self.pre_events = []
        self.drawn = set()
        self.local = []       # what the spec has assumed so far inside Or, And

    # ---- modules
    def mod(self, name):
        return self.shadow.get(name)

    def stub(self, mod, attr, sym=None, conc=None):
        if sym is None:
            return
        m = self.mod(mod)
        parts = attr.split('.')
        o = m
        for p in parts[:-1]:
            o = getattr(o, p)
        self.stubs.append((o, parts[-1], o.__dict__.get(parts[-1], None)))
        setattr(o, parts[-1], sym)

    def hook_at(self, name, sym=None, conc=None):
        if sym is not None:
            self.c.at_hooks[name] = sym

    def close(self):
        for m, a, v in reversed(self.stubs):
            setattr(m, a, v)
        self.stubs = []

    # ---- inputs
    def size(self, name, lo=0, hi=None):
        """any number from lo on (hi: of the concrete runs only)"""
        n = S_(z3.Int(name))
        self.c.assume(n >= lo)
        self.sizes.append(n)
        return n

    def int(self, name, lo=None, hi=None):
        n = S_(z3.Int(name))
        if lo is not None:
            self.c.assume(n >= lo)
        if hi is not None:
            self.c.assume(n < hi if isinstance(hi, S) else n < hi)
        return n

    def real(self, name, lo=None, hi=None, nz=False, sample=None):
        """sample: range of the concrete runs only"""
        x = S_(z3.Real(name))
        if lo is not None:
            self.c.assume(x >= lo)
        if hi is not None:
            self.c.assume(x <= hi)
        if nz:
            self.c.assume(x != 0)
        return x

    def bool(self, name):
        return S_(z3.Bool(name))

    def arr(self, name, shape, lo=None, hi=None, nan=False, kind='f'):
        srt = {'f': REAL, 'i': INT, 'b': BOOL}[kind]
        f = uf(name, *([INT] * len(shape)), srt)
        nf = uf(name + '.nan', *([INT] * len(shape)), BOOL) if nan else None
        if lo is not None or hi is not None:
            def inst(*a):
                t = f(*a)
                return ([t >= zlift(lo)[0]] if lo is not None else []) + ([t <= zlift(hi)[0]] if hi is not None else [])
            self.c.inst.setdefault(name, []).append(inst)

        def fn(idx):
            a = [zlift(i)[0] for i in idx]
            return S_(f(*a), nf(*a) if nf is not None else None)
        r = Arr(AVal(shape, fn, kind))
        r.loc.owner = name
        return r

    def vec(self, name, n, **k):
        return self.arr(name, (n,), **k)

    nan = S_(z3.RealVal(0), z3.BoolVal(True))

    def build(self, shape, f):
        return Arr(AVal(shape, lambda idx: f(*idx), 'f'))

    def counter(self):
        return SymCounter(self.c)

    def const(self, x):
        return A.wrap(np.array(x))

    def ring(self, name='RING', n=None, kinds=None, attrs=None, absent=()):
        n = self.size(name + '.n', 1) if n is None else n
        return H.SymRing(name, n, kinds=kinds, absent=absent)

    def ords(self, name, ring, must=None, sort=False, lo=0, within=None, axioms=None, repair=None, n=None, without=None):
        """distinct element indices; every addressed element carries the attributes in must"""
        c = self.c
        P = uf(name + '.in', INT, BOOL)
        c.row_decls.add(P.name())
        if within is None:
            mem = lambda x: mk_and(x >= 0, x < ring.n, S_(P(zlift(x)[0])))
        else:
            w = A.toaval(within).seq
            mem = lambda x: mk_and(w.member(x), S_(P(zlift(x)[0])))
        if without is not None:
            some = mem
            mem = lambda x: mk_and(some(x), mk_not(A.contains(without, x)))
        if n is not None:
            return self._few(name, ring, n, must, axioms, without)
        av = A.new_seq(name, mem, is_sorted=sort, bound=ring.n)
        if lo:
            c.assume(av.shape[0] >= lo)
        self.sizes.append(av.shape[0])
        r = Arr(av)
        r.loc.owner = name
        self.must(ring, mem, must or {})
        if axioms is not None:
            self.state_axiom(mem, axioms)
        return r

    def grid(self, name, ring, rows, must=None, lo=0):
        """rows x n element indices, distinct within each row"""
        n = self.size(name + '.n', lo)
        out = []
        for p in range(rows):
            P = uf(f'{name}{p}.in', INT, BOOL)
            self.c.row_decls.add(P.name())
            mem = lambda x, P=P: mk_and(x >= 0, x < ring.n, S_(P(zlift(x)[0])))
            out.append(Arr(A.new_seq(f'{name}{p}', mem, bound=ring.n, n=n)))
            self.must(ring, mem, must or {})
        r = Arr(A.list_aval(out))
        r.loc.owner = name
        return r, out

    def _few(self, name, ring, n, must, axioms, without=None):
        """a fixed number n of distinct element indices"""
        xs = [S_(z3.Int(f'{name}.{j}')) for j in range(n)]
        for j, x in enumerate(xs):
            self.c.assume(mk_and(x >= 0, x < ring.n))
            for y in xs[:j]:
                self.c.assume(x != y)
            if without is not None:
                self.c.assume(mk_not(A.contains(without, x)))
        mem = lambda x: mk_or(*[x == y for y in xs]) if xs else False
        self.must(ring, mem, must or {})
        if axioms is not None:
            self.state_axiom(mem, axioms)
        r = Arr(A.list_aval(xs)) if xs else A.wrap(np.zeros(0, dtype=int))
        r.loc.owner = name
        return r

    def subseq(self, name, n, lo=0, real=None):
        """increasing sequence of indices below n (real() gives it when the code runs on numbers)"""
        P = uf(name + '.in', INT, BOOL)
        av = A.new_seq(name, lambda x: mk_and(x >= 0, x < n, S_(P(zlift(x)[0]))), is_sorted=True, bound=n)
        if lo:
            self.c.assume(av.shape[0] >= lo)
        self.sizes.append(av.shape[0])
        return Arr(av)

    def must(self, ring, pred, attrs):
        for attr, k in attrs.items():
            st = ring.col(attr).state
            lo = k[2] if k[0] == 'vec' and k[1] is None else None

            def ax(x, st=st, lo=lo):
                p, v = st.lookup(x)
                fs = [p]
                if lo is not None:
                    fs.append(v().shape[0] >= lo)
                return mk_or(mk_not(pred(x)), mk_and(*fs))
            self.c.row_axioms.append(ax)

    def maybe(self, ring, attrs):
        pass

    def state_axiom(self, mem, axioms):
        """axioms(x) for every member x, about the state at this moment"""
        c = self.c
        x = z3.Int(c.fresh('row'))
        was, c.in_axiom = c.in_axiom, True
        base = len(c.pc)
        try:
            f = zb(mk_or(mk_not(mem(S_(x))), axioms(S_(x))))
        finally:
            c.in_axiom = was
            extra = [g for g, d in c.cut(base)]
        if any(A._contains(g, x) for g in extra):
            raise Unsupported('facts needed by an axiom')
        for g in extra:
            c.assume(g)
        c.row_axioms.append(lambda r: S_(z3.substitute(f, (x, zlift(r)[0]))))

    def member(self, ords, x):
        return A.contains(ords, x)

    def index_of(self, ords, x):
        a = A.toaval(ords)
        if a.seq is None or a.seq.pos is None:
            if a.ndim == 1 and not isinstance(a.shape[0], S):
                p = 0
                for j in range(a.shape[0]):
                    p = ite(a((j,)) == x, j, p)
                return p
            raise Unsupported('position in a sequence')
        return a.seq.pos(x)

    def machine(self, ring=None, ideal=None, sig=None, **ords):
        m = self.mod('pySC.core.simulated_commissioning')
        cl = self.mod('pySC.core.classes')
        SC = object.__new__(m.SimulatedCommissioning)
        SC.RING = ring if ring is not None else self.ring()
        SC.IDEALRING = ideal if ideal is not None else H.SymRing('IDEAL', SC.RING.n, kinds=SC.RING.kinds, absent=SC.RING.absent)
        SC.INJ = cl.Injection()
        SC.SIG = cl.Sigmas()
        SC.ORD = cl.Indices()
        SC.plot = False
        for k, v in ords.items():
            SC.ORD[k] = v
        for k, v in (sig or {}).items():
            SC.SIG[k] = SG.SigTab(k, SC.RING.n, v)
        return SC

    def sigs(self, SC, kind):
        """uncertainties of one kind of elements as a lattice-like store (attribute '@': the element has an entry)"""
        return self.snapshot(SC.SIG[kind].store)

    def as_input(self, x):
        return x

    # ---- execution
    def assume(self, b):
        b = simp(b) if isinstance(b, S) else b
        if b is False:
            raise Infeasible()
        self.c.assume(b)

    def feasible_pre(self, name='precondition'):
        pass

    def snapshot(self, ring):
        o = H.SymRing(ring.name, ring.n, kinds=ring.kinds, absent=ring.absent)
        for a, col in ring.cols.items():
            o.cols[a] = H.Col(o, a, col.get())
        return o

    def copy(self, x):
        return Arr(A.toaval(x)) if isinstance(x, (Arr, AVal, A.NZ)) else copy.deepcopy(x)

    def call(self, f, *a, **k):
        try:
            return Outcome(f(*a, **k))
        except Unsupported:
            raise
        except Exception as e:
            if engine_error(e):
                raise Unsupported(f'{type(e).__name__}: {e}').with_traceback(e.__traceback__)
            self.last_tb = ''.join(traceback.format_exception(e)[-3:])
            return Outcome(exc=e)

    def get(self, ring, attr, r):
        v = ring.value(attr, r)
        return Arr(v) if isinstance(v, AVal) else v

    def has(self, ring, attr, r):
        return ring.has(attr, r)

    def table(self, ring, attr, r):
        """[(key, array)] of a table attribute"""
        t = H.SymTab.of(ring.value(attr, r))
        return [(k, Arr(t.lookup(k))) for k in t.keys()]

    def table_has(self, ring, attr, r, key):
        return H.SymTab.of(ring.value(attr, r)).has(key)

    def table_get(self, ring, attr, r, key):
        return Arr(H.SymTab.of(ring.value(attr, r)).lookup(key))

    def forall_keys(self, rings, attr, r, f):
        return f(S_(A.fresh_k()))

    # ---- random draws
    def draws(self):
        """the code under contract is checked against the contract of randnc, proved from its body under C08"""
        c = self.c

        def randnc(cut_off=2, shape=(1,)):
            shape = tuple(A.cast(s, int) for s in (shape if isinstance(shape, (tuple, list)) else A.NP.array(shape)))
            f = c.fresh_fn('draw', *([INT] * len(shape) + [REAL]))
            t = f(*[z3.IntVal(0)] * len(shape))
            name = t.decl().name()
            self.drawn.add(name)
            c.inst.setdefault(name, []).append(lambda *a, d=t.decl(): [d(*a) >= -1, d(*a) <= 1])
            cut = abs(cut_off)
            if not shape:
                return cut * S_(t)
            return Arr(AVal(shape, lambda idx: cut * S_(f(*[zlift(i)[0] for i in idx])), 'f'))
        self.stub('pySC.utils.sc_tools', 'randnc', sym=randnc)

    def within(self, x, bound):
        """|x| <= bound for a multiple x of one draw u (|u| <= 1): x is c u with c = x(u=1) - x(u=0), and |c| <= bound"""
        if not isinstance(x, S):
            return abs(x) <= bound
        x = under(self.c.pc + self.local, x)
        if not isinstance(x, S):
            return abs(x) <= bound
        us = draws_in(x, self.drawn)
        held = steering(x, us)
        us = [u for u in us if u.get_id() not in held]
        best = None
        for u in us:
            c = c0 = z3.simplify(z3.substitute(x.t, (u, z3.RealVal(1)))) - z3.simplify(z3.substitute(x.t, (u, z3.RealVal(0))))
            c = solve.cancelled(c)
            c = z3.simplify(c0) if c is None else c
            if any(w.get_id() == u.get_id() for w in A._walk(c)):
                continue
            bt = zlift(bound)[0]
            q = mk_and(S_(x.t == c * u), S_(c <= bt), S_(-c <= bt))
            best = q if best is None else mk_or(best, q)
        return abs(x) <= bound if best is None or len(us) > 3 else best

    def drawn_from(self, x, scale):
        """x is one draw (|u| <= 1) times the scale"""
        x = A.toaval(x)(()) if isinstance(x, (Arr, AVal)) else x
        if isinstance(x, S):
            x = under(self.c.pc + self.local, x)
        if not isinstance(x, S):
            return mk_and(self.eq(x, 0), self.eq(scale, 0))
        us = draws_in(x, self.drawn)
        held = steering(x, us)
        best, bt = False, zlift(scale)[0]
        for u in us:
            if u.get_id() in held or len(us) > 4:
                continue
            c0 = z3.simplify(z3.substitute(x.t, (u, z3.RealVal(1))) - z3.substitute(x.t, (u, z3.RealVal(0))))
            c = solve.cancelled(c0)
            c = c0 if c is None else c
            if not any(w.get_id() == u.get_id() for w in A._walk(c)):
                best = mk_or(best, mk_and(S_(x.t == c * u), S_(z3.Or(c == bt, -c == bt))))
        return best

    def svd(self, m):
        """thin singular value decomposition of the matrix, the one the code used"""
        if len(self.c.svds) != 1 or not self.eq(Arr(self.c.svds[0][0]), m) is True:
            raise Unsupported('decomposition of another matrix')
        return [Arr(x) for x in self.c.svds[0][1]]

    def scalar(self, x):
        return A.toaval(x)(()) if isinstance(x, (Arr, AVal)) else x

    def moment(self, x, y):
        """sum over the draws of the product of their coefficients in x and y (both linear in the draws)"""
        dx, dy = draws_in(x, self.drawn), draws_in(y, self.drawn)
        zero = lambda t, us: z3.substitute(t, *[(u, z3.RealVal(0)) for u in us]) if us else t

        def coeff(v, us, u):
            rest = [w for w in us if not w.eq(u)]
            t = zero(v.t, rest)
            return z3.simplify(z3.substitute(t, (u, z3.RealVal(1))) - z3.substitute(t, (u, z3.RealVal(0))))
        for v, us in ((x, dx), (y, dy)):
            if not isinstance(v, S):
                return 0.0
            lin = zero(v.t, us)
            for u in us:
                lin = lin + coeff(v, us, u) * u
            if not z3.simplify(lin - v.t, som=True).eq(z3.RealVal(0)):
                raise Unsupported('not linear in the draws')
        tot = z3.RealVal(0)
        for u in dx:
            for w in dy:
                c = coeff(x, dx, u) * coeff(y, dy, w)
                if u.eq(w):
                    tot = tot + unroot(self.c, c)
                elif u.decl().name() == w.decl().name():
                    same = z3.simplify(z3.And(*[a == b for a, b in zip(u.children(), w.children())]))
                    if not z3.is_false(same):
                        tot = tot + z3.If(same, unroot(self.c, c), z3.RealVal(0))
        return S_(z3.simplify(tot))

    def spread_bound(self, x, bound):
        """|x| <= bound for x linear in the draws: the coefficients add up to at most the bound"""
        if not isinstance(x, S):
            return abs(x) <= bound
        us = draws_in(x, self.drawn)
        tot = z3.RealVal(0)
        zero = lambda t, ws: z3.substitute(t, *[(w, z3.RealVal(0)) for w in ws]) if ws else t
        lin = zero(x.t, us)
        tot = z3.If(lin >= 0, lin, -lin)
        for u in us:
            t = zero(x.t, [w for w in us if not w.eq(u)])
            c = z3.simplify(z3.substitute(t, (u, z3.RealVal(1))) - z3.substitute(t, (u, z3.RealVal(0))))
            tot = tot + z3.If(c >= 0, c, -c)
            lin = lin + c * u
        if not z3.simplify(lin - x.t, som=True).eq(z3.RealVal(0)):
            raise Unsupported('not linear in the draws')
        return S_(tot) <= bound

    def tracking(self):
        """at.lattice_track under contract: any positions, each coordinate a number or not-a-number; a lost particle has no horizontal
        position (and nothing is known about its other coordinates)"""
        tr = SymTracked(self.c)
        self.hook_at('lattice_track', sym=tr.track)
        self.c.assumed_lib.add('at.lattice_track: positions (6, particles, references, turns), depending on nothing else')
        return tr

    def orbit(self):
        """at.find_orbit6 under contract: any closed orbit (numbers) or none (not-a-number everywhere)"""
        tr = SymOrbit(self.c)
        self.hook_at('find_orbit6', sym=tr.find)
        self.c.assumed_lib.add('at.find_orbit6: closed orbit at the reference points, depending on nothing else')
        return tr

    def independent(self, a, b, scale=None):
        """the two values depend on draws, and have none in common"""
        da, db = draws_in(a, self.drawn), draws_in(b, self.drawn)
        if not da or not db or any(x.eq(y) for x in da for y in db):
            raise Unsupported('draws possibly shared')
        return True

    def loop_position(self):
        """(index, length) of the innermost loop over any number of items that is running, None outside"""
        return (S_(self.c.loops[-1].k), self.c.loops[-1].n) if self.c.loops else None

    def same_size(self, a, b):
        return A.deq(a, b)

    def known(self, b):
        """True or False where decided, else None"""
        b = norm(simp(b)) if isinstance(b, S) else b
        if not isinstance(b, S):
            return bool(b)
        return True if self.c.entails(zb(b)) else False if self.c.entails(zb(mk_not(b))) else None

    def unsupported(self, msg): return Unsupported(msg)

    def of_iteration(self, arr, ks, k, idx):
        """element idx of an array made in a loop (loop indices ks), for iteration k of the innermost one"""
        v = self.at(arr, *idx)
        if k is None:
            return v
        sub = (ks[-1], zlift(k)[0])
        f = lambda t: z3.substitute(t, sub) if z3.is_expr(t) else t
        return S(f(v.t), f(v.nan) if v.nan is not None else None) if isinstance(v, S) else v

    def ravel(self, x):
        a = A.toaval(x)
        return x if len(a.shape) == 1 else Arr(AVal((a.shape[0],), lambda idx: a((idx[0],) + (0,) * (len(a.shape) - 1)), 'f'))

    def index(self, name, n):
        i = S_(z3.Int(name))
        self.c.assume(mk_and(i >= 0, i < n))
        return i

    # ---- logic
    def _lazy(self, xs, stop):
        out = []
        base = len(self.local)
        try:
            for x in xs:
                if callable(x) and not isinstance(x, S):
                    x = x()
                if isinstance(x, (bool, np.bool_)) and bool(x) is stop:
                    return stop
                if isinstance(x, S):
                    self.local.append(z3.Not(zb(x)) if stop else zb(x))
                out.append(x)
        finally:
            del self.local[base:]
        return out

    def And(self, *xs):
        xs = self._lazy(xs, False)
        return xs if xs is False else mk_and(*xs)

    def Or(self, *xs):
        xs = self._lazy(xs, True)
        return xs if xs is True else mk_or(*xs)

    def Not(self, x): return mk_not(x)

    def Implies(self, a, b):
        a = norm(simp(a)) if isinstance(a, S) else a
        if a is False:
            return True
        return mk_or(mk_not(a), b() if callable(b) and not isinstance(b, S) else b)

    def max(self, a, b):
        return max(a, b) if not isinstance(a, S) and not isinstance(b, S) else ite(a >= b, a, b)

    def min(self, a, b):
        return min(a, b) if not isinstance(a, S) and not isinstance(b, S) else ite(a <= b, a, b)

    def count(self, n, f):
        return A.Count(n, f)

    def filtered(self, got, had, keep):
        """got holds exactly the entries of had whose index is kept, in order"""
        nz = A.nonzero_seq(A.AVal((self.len(had),), lambda idx: keep(idx[0]), 'b'))
        return self.And(self.eq(self.len(got), self.len(nz)), lambda: self.forall(self.len(nz), lambda i: self.eq(
            self.at(got, i), self.at(had, self.at(nz, i)))))

    def exists(self, n, f):
        """(any position)"""
        return A.Exists(n, f)

    def every(self, n, f):
        """(any position)"""
        return A.Forall(n, f)

    def unknown(self, name, shape=(), nan=False, lo=None):
        """a new arbitrary number or array at every call (from a stub); nan='last': not-a-number depends on the last index only"""
        f = self.c.fresh_fn(name, *([INT] * len(shape)), REAL)
        g = self.c.fresh_fn(name + '.nan', *([INT] * (1 if nan == 'last' else len(shape))), BOOL) if nan else None
        z = lambda idx: [zlift(i)[0] for i in idx]
        val = lambda idx: S_(f(*z(idx)), g(*z(idx[-1:] if nan == 'last' else idx)) if nan else None)
        if not shape:
            v = val(())
            if lo is not None:
                self.c.assume(v >= lo)
            return v
        if lo is not None:
            k = [S_(A.fresh_k()) for _ in shape]
            self.c.assume(z3.ForAll([x.t for x in k], f(*[x.t for x in k]) >= lo))
        return Arr(AVal(tuple(shape), val, 'f'))

    def coin(self, name):
        """an arbitrary decision (from a stub)"""
        return bool(S_(self.c.fresh_fn(name, BOOL)()))

    def select(self, n, keep):
        return A.nonzero_seq(A.AVal((n,), lambda idx: keep(idx[0]), 'b'))

    def linfit(self, n, x, y, w):
        """the straight line fitted by numpy.polyfit (recorded) to the n points with weights: (the data are these, (slope, intercept),
        their variances)"""
        if not self.c.fits:
            return False, (0.0, 0.0), (0.0, 0.0)
        if len(self.c.fits) > 1:
            raise Unsupported('number of fits')
        fx, fy, fw, p, cov = self.c.fits[0]
        same = self.And(self.eq(fx.shape[0], n), lambda: self.forall(n, lambda i: self.And(
            self.eq(fx((i,)), x(i)), self.eq(fy((i,)), y(i)), self.eq(fw((i,)), w(i)))))
        return same, (self.at(p, 0), self.at(p, 1)), (self.at(cov, 0, 0), self.at(cov, 1, 1))

    def congruent(self, x, y, m):
        """x - y is a whole multiple of m (witnessed by the whole number of m in x or a neighbour)"""
        q = S_(z3.ToReal(z3.ToInt(real(zlift(x / m)[0]))))
        return self.Or(*[self.eq(y, x - m * (q + j)) for j in (0, 1, -1)])

    def If(self, c, a, b):
        """a / b may be functions, evaluated only when needed"""
        cs = simp(c) if isinstance(c, S) else c
        cs = norm(cs) if isinstance(cs, S) else cs
        if not isinstance(cs, S):
            v = a if cs else b
            return v() if callable(v) else v
        if self.c.entails(zb(cs)):
            return a() if callable(a) else a
        if self.c.entails(zb(mk_not(cs))):
            return b() if callable(b) else b
        return ite(cs, a() if callable(a) else a, b() if callable(b) else b)

    def isnan(self, x): return A.isnan_(x)
    def abs(self, x): return abs(x)
    def sqrt(self, x): return A.sqrt_(x)
    def cos(self, x): return A.cos_(x)
    def sin(self, x): return A.sin_(x)
    def atan2(self, y, x): return A.atan2_(y, x)
    def sum(self, n, f): return A.Sum(n, f)
    def lemma_linear(self, name, n, h, terms):
        """sum of h = sum over (c, f) of c * sum of f, after proving the identity for every summand"""
        self.ensure(f'lemma {name}: summand identity', self.forall(n, lambda k: self.eq(h(k), sum((c * f(k) for c, f in terms), 0.0))))
        self.c.lemmas.add('finite sums are linear')
        self.c.assume(self.eq(A.Sum(n, h), sum((c * A.Sum(n, f) for c, f in terms), 0.0)))

    def len(self, x): return rt.RT.b_len(x)
    def shape(self, x): return A.toaval(x).shape
    def at(self, a, *idx):
        return A.toaval(a)(tuple(idx))

    def vecat(self, a, i, default=0.0):
        """component i of a vector, default beyond its end"""
        a = A.toaval(a)
        n = a.shape[0]
        inr = A.inrange(i, n)
        if inr is True:
            return a((i,))
        if inr is False:
            return default
        return ite(inr, a((i,)), default)

    def eq(self, a, b):
        """mathematical equality (NaN equals NaN)"""
        if isinstance(a, (SymStr, str)) or isinstance(b, (SymStr, str)):
            return a == b if isinstance(a, SymStr) else b == a
        if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
            return mk_and(*[self.eq(x, y) for x, y in zip(a, b)]) if a else True
        if isinstance(a, (Arr, AVal, np.ndarray)) or isinstance(b, (Arr, AVal, np.ndarray)):
            return self.veq(a, b)
        if isinstance(a, H.SymTab) and isinstance(b, H.SymTab):
            if a is b:
                return True
            try:
                ka, kb = a.keys(), b.keys()
            except Unsupported:
                k = S_(A.fresh_k())
                h = a.has(k)
                return mk_and(mk_or(mk_not(h), b.has(k)), mk_or(h, mk_not(b.has(k))),
                              self.Implies(h, lambda: self.Implies(b.has(k), lambda: lambda_tab(self, a, b, k))))
            if len(ka) != len(kb):
                return False
            return mk_and(*[mk_and(b.has(k), lambda_tab(self, a, b, k)) for k in ka]) if ka else True
        if isinstance(a, H.Opaque) and isinstance(b, H.Opaque):
            return a.same(b)
        if a is None or b is None or isinstance(a, H.Opaque) or isinstance(b, H.Opaque):
            return a is b
        at_, an = zlift(a)
        bt, bn = zlift(b)
        if z3.is_bool(at_) != z3.is_bool(bt) or not z3.is_bool(at_):
            from .core import both
            at_, bt = both(at_, bt)
        e = at_ == bt
        if an is None and bn is None:
            return ret(e)
        an = an if an is not None else z3.BoolVal(False)
        bn = bn if bn is not None else z3.BoolVal(False)
        return ret(z3.And(an == bn, z3.Or(an, e)))

    def le(self, a, b, tol=0):
        return a <= b

    def veq(self, a, b):
        a, b = A.toaval(a), A.toaval(b)
        if a is b:
            return True
        if a.ndim != b.ndim:
            return False
        shp = mk_and(*[A.eqi(p, q) for p, q in zip(a.shape, b.shape)]) if a.ndim else True
        if shp is False:
            return False
        idx, rng = [], []
        for d in a.shape:
            if isinstance(d, S):
                k = S_(A.fresh_k())
                idx.append([k])
                rng.append(mk_and(k >= 0, k < d))
            else:
                idx.append(list(range(d)))
        out = [shp]
        import itertools
        for ix in itertools.product(*idx):
            e = self.eq(a(ix), b(ix))
            out.append(mk_or(mk_not(mk_and(*rng)), e) if rng else e)
        return mk_and(*out)

    def forall(self, n, f):
        """universally quantified goal (positive positions only)"""
        if not isinstance(n, S):
            return mk_and(*[f(i) for i in range(n)]) if n else True
        k = S_(A.fresh_k())
        rng = mk_and(k >= 0, k < n)
        base = len(self.c.pc)
        self.c.pc.append(zb(rng))
        try:
            v = f(k)
        finally:
            xs = self.c.cut(base)[1:]
        for x, d in xs:
            self.c.pc.append(z3.Implies(zb(rng), x))
        return mk_or(mk_not(rng), A.in_range(v, k, n))

    def forall_rows(self, ring, f):
        return self.forall(ring.n, f)

    # ---- obligations
    def ensure(self, name, cond, info=None):
        if self.keep is not None and not self.keep(name):
            return
        if callable(cond):
            cond = cond()
        self.obl.append((name, list(self.c.pc), zb(cond) if not isinstance(cond, bool) else z3.BoolVal(cond), self.c.env()))

    def rows(self, name, ring, f):
        self.ensure(name, self.forall(ring.n, f))

    def frame(self, name, ring, old, allowed=None):
        """every attribute of every element equals its old value, except allowed {attr: predicate of the row}"""
        allowed = allowed or {}
        attrs = sorted(set(ring.cols) | set(old.cols))
        self.ensure(f'{name}: elements', self.eq(ring.n, old.n))
        for attr in attrs:
            st = ring.cols[attr].get() if attr in ring.cols else None
            so = old.cols[attr].get() if attr in old.cols else None
            if st is so:
                continue
            al = allowed.get(attr)
            if al is True:
                continue

            def one(r, attr=attr, al=al):
                if al is not None:
                    a = al(r)
                    if a is True:
                        return True
                else:
                    a = False
                pn, po = self.has(ring, attr, r), self.has(old, attr, r)
                e = self.And(self.eq(pn, po), self.Implies(pn, lambda_eq(self, ring, old, attr, r)))
                return self.Or(a, e)
            try:
                self.ensure(f'{name}:{attr}', self.forall(ring.n, one))
            except MergeError as e:
                raise Unsupported(str(e))

    def unchanged(self, name, x, old):
        self.ensure(name, self.eq(x, old))

    def isolated(self, SC, ideal):
        self.frame('design lattice', SC.IDEALRING, ideal)
        self.ensure('design lattice shares nothing with the machine', lambda: self.disjoint(SC.RING, SC.IDEALRING))

    def args_untouched(self, *names):
        for n in names:
            self.ensure(f'argument {n} not modified', n not in self.c.touched_args)

    def same_object(self, a, b):
        return a is b

    def disjoint(self, a, b):
        """the two lattices share neither elements nor storage"""
        return H.disjoint(a, b)

    def separate(self, a, b):
        """the two arrays share no storage"""
        return separate(a, b)

    def last_of(self, x, v):
        """lemma: a member v of an increasing sequence is at most its last entry"""
        q = A.toaval(x).seq
        if q is None or not q.is_sorted:
            return
        self.c.assume(mk_or(mk_not(q.member(v)), mk_and(q.pos(v) >= 0, q.pos(v) < q.n, A.eqi(q.at(q.pos(v)), v), v <= q.at(q.n - 1))))

    def increasing(self, x):
        """strictly increasing"""
        a = A.toaval(x)
        n = a.shape[0]
        if not isinstance(n, S):
            return mk_and(*[a((i,)) < a((i + 1,)) for i in range(n - 1)]) if n > 1 else True
        i = S_(A.fresh_k())
        return mk_or(mk_not(mk_and(i >= 0, i + 1 < n)), a((i,)) < a((i + 1,)))

    def same_members(self, x, pred):
        k = S_(A.fresh_k())
        m = A.contains(x, k)
        return mk_and(mk_or(mk_not(m), pred(k)), mk_or(mk_not(pred(k)), m))

    def repeated(self, ords):
        return ords

    def const_rows(self, a, i):
        return Arr(A.AVal(A.toaval(a).shape[1:], lambda idx: A.toaval(a)((i,) + tuple(idx)), 'f'))


class SymCounter:
    """number of the call: the index of the loop it is made in"""
    def __init__(self, c):
        self.c, self.n, self.in_loop = c, 0, None

    def next(self):
        ks = [L.k for L in self.c.loops]
        if len(ks) > 1 or self.in_loop not in (None, bool(ks)) or (self.n and ks):
            raise Unsupported('number of the call')
        self.in_loop = bool(ks)
        self.n += 1
        return S_(ks[0]) if ks else self.n - 1


class ConcCounter:
    def __init__(self):
        self.n = -1

    def next(self):
        self.n += 1
        return self.n


class SymTracked:
    def __init__(self, c):
        self.c = c
        self.calls = []

    def track(self, lattice, r_in, nturns=1, refpts=None, keep_lattice=False, in_place=False, use_mp=False, **kw):
        c = self.c
        if in_place:
            raise Unsupported('tracking in place')
        rin, refs = A.toaval(r_in), A.toaval(A.NP.ravel(refpts))
        if rin.ndim != 2:
            raise Unsupported('tracking of other shapes')
        P = rin.shape[1]
        val = c.fresh_fn('track', INT, INT, INT, INT, REAL)
        bad = c.fresh_fn('track.nan', INT, INT, INT, INT, BOOL)
        self.calls.append(dict(val=val, bad=bad, P=P, turns=nturns, r_in=rin, refs=refs, ring=lattice))
        z = lambda i: zlift(i)[0]

        def fn(idx):
            a = [z(idx[0]), z(idx[1]), z(refs((idx[2],))), z(idx[3])]
            n0 = bad(z3.IntVal(0), *a[1:])
            return S_(val(*a), n0 if isinstance(idx[0], int) and idx[0] == 0 else z3.If(a[0] == 0, n0, z3.And(n0, bad(*a))))
        return (Arr(AVal((6, P, refs.shape[0], nturns), fn, 'f')), None, None)

    def one(self):
        if len(self.calls) != 1:
            raise Unsupported('number of tracking calls')
        return self.calls[0]

    def at(self, coord, p, ord, turn, shot):
        """coordinate of particle p at the entrance of element ord at the given turn and shot; not-a-number when the particle is lost"""
        call = self.one()
        z = lambda i: zlift(i)[0]
        a = [z(coord), z(p), z(ord), z(turn)]
        v, b = call['val'](*a), call['bad'](z3.IntVal(0), *a[1:])
        if v.num_args() > 5:
            raise Unsupported('tracking in nested loops')
        if v.num_args() == 5:
            v, b = v.decl()(*a, z(shot)), b.decl()(z3.IntVal(0), *a[1:], z(shot))
        return S_(v, b)


class SymOrbit:
    def __init__(self, c):
        self.c = c
        self.calls = []

    def find(self, ring=None, refpts=None, keep_lattice=False, **kw):
        c = self.c
        val = c.fresh_fn('orbit', INT, INT, REAL)
        bad = c.fresh_fn('orbit.nan', BOOL)
        z = lambda i: zlift(i)[0]
        self.calls.append(dict(val=val, bad=bad, refs=refpts, ring=ring, first=lambda: Arr(
            AVal((6,), lambda idx: S_(val(z3.IntVal(0), z(idx[0])), bad()), 'f'))))
        first = Arr(AVal((6,), lambda idx: S_(val(z3.IntVal(0), z(idx[0])), bad()), 'f'))
        if refpts is None:
            return first, Arr(AVal((0, 6), lambda idx: 0.0, 'f'))
        refs = A.toaval(A.NP.ravel(refpts))
        return first, Arr(AVal((refs.shape[0], 6), lambda idx: S_(val(z(refs((idx[0],))), z(idx[1])), bad()), 'f'))

    def first(self):
        return self.calls[0]['first']()

    def at(self, coord, ord, shot):
        if len(self.calls) != 1:
            raise Unsupported('number of orbit searches')
        call = self.calls[0]
        z = lambda i: zlift(i)[0]
        f = call['val'](z(ord), z(coord))
        b = call['bad']()
        if f.num_args() > 2:
            f = f.decl()(z(ord), z(coord), z(shot))
            b = b.decl()(z(shot))
        return S_(f, b)


def under(pc, x):
    """x with the atoms decided by the path condition replaced"""
    sub, todo = [], list(pc)
    while todo:
        f = z3.simplify(todo.pop())
        if z3.is_and(f):
            todo.extend(f.children())
        elif z3.is_not(f) and z3.is_or(f.arg(0)):
            todo.extend(z3.Not(g) for g in f.arg(0).children())
        elif z3.is_not(f) and not z3.is_true(f.arg(0)):
            sub.append((f.arg(0), z3.BoolVal(False)))
        elif not z3.is_true(f) and not z3.is_false(f) and not z3.is_or(f) and not z3.is_quantifier(f):
            sub.append((f, z3.BoolVal(True)))
    t, b = z3.simplify(x.t), x.nan
    for _ in range(3):
        t0 = t
        t = z3.simplify(z3.substitute(t, *sub)) if sub else t
        if b is not None and not isinstance(b, bool):
            b = z3.simplify(z3.substitute(z3.simplify(b), *sub))
        if t.eq(t0):
            break
    return S_(t, b)


def unroot(c, t):
    """sqrt(a) sqrt(a) -> a in a product, where a >= 0 is known"""
    prove = A.prove
    out = []
    for m in A._monomials(t):
        fs = A._factors(m)
        done, i = [], 0
        fs.sort(key=lambda f: f.get_id())
        while i < len(fs):
            f = fs[i]
            if z3.is_app(f) and f.decl().name() == 'sqrt' and i + 1 < len(fs) and fs[i + 1].eq(f) and prove(S_(f.arg(0) >= 0)):
                done.append(f.arg(0))
                i += 2
                continue
            if z3.is_app_of(f, z3.Z3_OP_POWER) and z3.is_app(f.arg(0)) and f.arg(0).decl().name() == 'sqrt' and z3.is_rational_value(
                    f.arg(1)) and f.arg(1).as_long() == 2 and prove(S_(f.arg(0).arg(0) >= 0)):
                f = f.arg(0).arg(0)
            done.append(f)
            i += 1
        out.append(z3.Product(*done) if len(done) > 1 else done[0])
    return z3.Sum(*out) if len(out) > 1 else out[0]


def steering(x, us):
    """ids of the draws that occur in a condition or in a denominator of x"""
    ids, out = {u.get_id() for u in us}, set()
    for t in A._walk(x.t):
        parts = []
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            parts = [t.arg(0)]
        elif z3.is_app_of(t, z3.Z3_OP_DIV):
            parts = [t.arg(1)]
        elif z3.is_app_of(t, z3.Z3_OP_POWER):
            parts = [t.arg(0)]
        for q in parts:
            out.update(w.get_id() for w in A._walk(q) if w.get_id() in ids)
    return out


def draws_in(v, names):
    out, seen, todo = [], set(), [v.t if isinstance(v, S) else z3.RealVal(0)]
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t) and t.decl().name() in names:
            out.append(t)
        todo.extend(t.children())
    return out


def pieces(x, out):
    """mutable objects reachable from x"""
    if isinstance(x, Arr):
        out.append(x.loc)
        out.extend(o[0] for o in getattr(x.loc, 'origins', ()))
    elif isinstance(x, SG.SigTab):
        out.extend((x, x.store, *x.store.cols.values()))
        if x.store.shared:
            raise Unsupported('storage shared by uncertainties')
    elif isinstance(x, (S, SymStr, AVal)):
        pass
    elif isinstance(x, np.ndarray):
        out.append(x)
        if x.dtype == object:
            for y in x.ravel():
                pieces(y, out)
    elif isinstance(x, dict):
        out.append(x)
        for y in x.values():
            pieces(y, out)
    elif isinstance(x, (list, tuple, set)):
        if not isinstance(x, tuple):
            out.append(x)
        for y in x:
            pieces(y, out)
    elif hasattr(x, '__dict__') and not isinstance(x, type) and not callable(x):
        out.append(x)
        for y in vars(x).values():
            pieces(y, out)
    return out


def separate(a, b):
    pa, pb = pieces(a, []), pieces(b, [])
    ids = {id(x) for x in pa}
    if any(id(x) in ids for x in pb):
        return False
    spans = sorted((x.__array_interface__['data'][0], x.__array_interface__['data'][0] + x.nbytes, w)
                   for w, p in ((0, pa), (1, pb)) for x in p if isinstance(x, np.ndarray) and x.nbytes)
    end = {0: -1, 1: -1}
    for lo, hi, w in spans:
        if lo < end[1 - w] :
            return False
        end[w] = max(end[w], hi)
    return True


def lambda_tab(B, a, b, k):
    return B.eq(Arr(a.lookup(k)), Arr(b.lookup(k)))


def lambda_eq(B, ring, old, attr, r):
    a, b = B.get(ring, attr, r), B.get(old, attr, r)
    return B.eq(a, b)


# ==================================================================== concrete
REAL_MODULES = {}


def real_mod(name):
    return importlib.import_module(name)


def fin(x):
    try:
        return bool(np.all(np.isfinite(np.asarray(x, dtype=float))))
    except (TypeError, ValueError):
        return True


def lattice(els):
    import at
    lat = at.Lattice([at.Marker('M') for _ in els], energy=3e9, periodicity=1)
    for i, e in enumerate(els):
        lat[i] = e
    return lat


def put(el, attr, v):
    """set an attribute of a real element without the cross-attribute validation of at"""
    if attr in ('PolynomA', 'PolynomB'):
        el.__dict__[attr] = np.asarray(v, dtype=float)
    elif attr == 'MaxOrder':
        el.__dict__[attr] = int(v)
    else:
        setattr(el, attr, v)


def settle(el):
    """the maximum order never exceeds the field or setpoint lengths (at requires it)"""
    ns = [len(v) for a in ('PolynomA', 'PolynomB', 'SetPointA', 'SetPointB') if (v := el.__dict__.get(a)) is not None]
    if ns and el.__dict__.get('MaxOrder', 0) > min(ns) - 1:
        el.__dict__['MaxOrder'] = max(min(ns) - 1, 0)


class Entry:
    """uncertainties of one element"""


class ConcTracked:
    def __init__(self, B):
        self.B = B
        self.calls = []

    def track(self, lattice, r_in, nturns=1, refpts=None, keep_lattice=False, in_place=False, use_mp=False, **kw):
        rng = self.B.nprng
        refs = np.ravel(refpts)
        P = np.asarray(r_in).shape[1]
        out = rng.randn(6, P, len(refs), nturns)
        mode = self.B.rng.random()
        if mode < 0.2:
            lost = np.zeros((P, len(refs), nturns), dtype=bool)
        elif mode < 0.4:
            lost = rng.rand(P, len(refs), nturns) < 0.3
        else:       # particles lost for good, in turn and lattice order
            when = rng.rand(P) * 1.5 * nturns
            lost = (np.arange(nturns)[None, None, :] + (refs / (max(refs, default=0) + 1.0))[None, :, None]) > when[:, None, None]
        out[0][lost] = np.nan
        for c in range(1, 6):
            out[c][lost & (rng.rand(*lost.shape) < 0.7)] = np.nan
        self.calls.append((refs, out.copy(), np.array(r_in)))
        return out, None, None

    def at(self, coord, p, ord, turn, shot):
        refs, v, _ = self.calls[shot]
        i = [k for k, x in enumerate(refs) if x == ord]
        if not i:
            return -12345.0
        return float('nan') if np.isnan(v[0, p, i[0], turn]) else float(v[coord, p, i[0], turn])


class ConcOrbit:
    def __init__(self, B):
        self.B = B
        self.calls = []

    def find(self, ring=None, refpts=None, keep_lattice=False, **kw):
        refs = np.array([], dtype=int) if refpts is None else np.ravel(refpts)
        out = self.B.nprng.randn(len(refs), 6)
        if self.B.rng.random() < 0.3:
            out[:] = np.nan
        self.calls.append((refs, out.copy()))
        self.one = self.B.nprng.randn(6)
        return self.one.copy(), out

    def first(self):
        return self.one

    def at(self, coord, ord, shot):
        refs, v = self.calls[shot]
        i = [k for k, x in enumerate(refs) if x == ord]
        return float(v[i[0], coord]) if i else -12345.0


class ConcB:
    keep = None

    symbolic = False

    def __init__(self, seed, nmax=7):
        self.seed = seed
        self.rng = random.Random(seed)
        self.nprng = np.random.RandomState(seed % (2 ** 31))
        self.nmax = nmax
        self.obl = []
        self.stubs = []
        self.inputs = []
        self.c = None

    def mod(self, name):
        return real_mod(name)

    def stub(self, mod, attr, sym=None, conc=None):
        if conc is None:
            return
        m = self.mod(mod)
        o = m
        parts = attr.split('.')
        for p in parts[:-1]:
            o = getattr(o, p)
        self.stubs.append((o, parts[-1], o.__dict__[parts[-1]]))
        setattr(o, parts[-1], conc)

    def hook_at(self, name, sym=None, conc=None):
        if conc is not None:
            import at
            self.stubs.append((at, name, getattr(at, name)))
            setattr(at, name, conc)

    def close(self):
        for m, a, v in reversed(self.stubs):
            setattr(m, a, v)
        self.stubs = []

    # ---- inputs
    def size(self, name, lo=0, hi=None):
        return self.rng.randint(lo, max(lo, min(self.nmax, hi if hi is not None else self.nmax)))

    def int(self, name, lo=None, hi=None):
        lo = -3 if lo is None else lo
        hi = lo + 6 if hi is None else hi
        if hi <= lo:
            raise Skip()
        return self.rng.randrange(lo, hi)

    def num(self):
        r = self.rng.random()
        if r < 0.1:
            return 0.0
        if r < 0.25:
            return float(self.rng.randint(-3, 3))
        if r < 0.35:
            return self.rng.gauss(0, 1) * 1e-3
        return self.rng.gauss(0, 1) * 2

    def real(self, name, lo=None, hi=None, nz=False, sample=None):
        for _ in range(1000):
            if sample is not None:
                x = self.rng.uniform(*sample)
            elif lo is not None and hi is not None:
                x = self.rng.choice([lo, hi]) if self.rng.random() < 0.1 else self.rng.uniform(lo, hi)
            else:
                x = self.num()
                if lo is not None and x < lo:
                    x = lo + abs(x)
                if hi is not None and x > hi:
                    x = hi - abs(x)
            if not (nz and abs(x) < 1e-6):
                return x
        raise Skip()

    def bool(self, name):
        return self.rng.random() < 0.5

    def arr(self, name, shape, lo=None, hi=None, nan=False, kind='f'):
        if kind == 'b':
            return np.array([self.rng.random() < 0.5 for _ in range(int(np.prod(shape)))], dtype=bool).reshape(shape)
        if kind == 'i':
            return np.array([self.int(name, lo, None if hi is None else hi + 1) for _ in range(int(np.prod(shape)))],
                            dtype=int).reshape(shape)
        a = np.array([self.real(name, lo, hi) for _ in range(int(np.prod(shape)))], dtype=float).reshape(shape)
        if nan and a.size:
            p = self.rng.choice([0, 0.2, 0.6])
            m = np.array([self.rng.random() < p for _ in range(a.size)]).reshape(shape)
            a[m] = np.nan
        return a

    nan = float('nan')

    def build(self, shape, f):
        out = np.zeros(shape)
        for idx in np.ndindex(*shape):
            out[idx] = f(*idx)
        return out

    def counter(self):
        return ConcCounter()

    def vec(self, name, n, **k):
        return self.arr(name, (n,), **k)

    def const(self, x):
        return np.array(x)

    def kind_value(self, attr, kind, lo=0, length=None):
        k = kind[0]
        if k == 'real':
            if attr == 'Length':
                return abs(self.num()) + self.rng.choice([0.1, 0.5, 1.0])
            return self.num()
        if k == 'int':
            return self.rng.randint(0, 4)
        if k == 'bool':
            return self.rng.random() < 0.6
        if k == 'str':
            return self.rng.choice(kind[1])
        if k == 'vec':
            n = kind[1] if kind[1] is not None else max(lo, kind[2], length or self.rng.randint(1, 4))
            return np.array([self.num() for _ in range(n)])
        if k == 'mat':
            return self.nprng.randn(*kind[1:])
        if k == 'ilist':
            return np.array([], dtype=int)
        if k == 'sysdict':
            from pySC.core.classes import DotDict
            d = DotDict()
            for q in self.rng.sample(range(4), kind[1]):
                d[q] = np.array([self.num() for _ in range(self.rng.randint(1, 4))])
            return d
        raise Skip(f'kind {kind}')

    def ring(self, name='RING', n=None, kinds=None, attrs=(), absent=()):
        import at
        n = self.size(name + '.n', 2) if n is None else n
        els = []
        for i in range(n):
            r = self.rng.random()
            L = abs(self.num()) + 0.1
            nm = f'E{i}'
            if r < 0.2:
                e = at.Drift(nm, L)
            elif r < 0.4:
                o = self.rng.randint(1, 3)
                e = at.Multipole(nm, L, [self.num() for _ in range(o)], [self.num() for _ in range(o)])
                e.PassMethod = self.rng.choice(H.PASS[4:10])
            elif r < 0.55:
                e = at.Dipole(nm, L, self.num() * 0.1)
                e.PassMethod = self.rng.choice(H.PASS[4:10])
            elif r < 0.65:
                e = at.Corrector(nm, self.rng.choice([0.0, L]), [self.num(), self.num()])
                e.PolynomB = [0.0]
                e.PolynomA = [0.0]
            elif r < 0.8:
                e = at.RFCavity(nm, L, 1e3 * self.rng.random(), 1e6 * self.rng.random() + 1e5, 10, 3e9)
                e.TimeLag = self.num()
            elif r < 0.9:
                e = at.Monitor(nm)
            else:
                e = at.Marker(nm)
            els.append(e)
        lat = lattice(els)
        for i in range(n):
            for a in attrs:
                if self.rng.random() < 0.5:
                    put(lat[i], a, self.kind_value(a, (kinds or {}).get(a) or H.KINDS[a]))
        return lat

    def ords(self, name, ring, must=None, sort=False, lo=0, within=None, axioms=None, repair=None, n=None, without=None):
        pool = list(range(len(ring))) if within is None else [int(i) for i in within]
        pool = [i for i in pool if without is None or i not in [int(j) for j in np.ravel(without)]]
        if len(pool) < lo:
            raise Skip()
        k = self.rng.randint(lo, len(pool)) if n is None else n
        if k > len(pool):
            raise Skip()
        sel = self.rng.sample(pool, k)
        if sort:
            sel.sort()
        s = set(sel)
        self.must(ring, lambda x: x in s, must or {})
        r = np.array(sel, dtype=int)
        self.track(name, r)
        if repair is not None:
            for x in sel:
                repair(self.rng, ring[x])
                settle(ring[x])
        if axioms is not None:
            for x in sel:
                if not axioms(x):
                    raise Skip()
        return r

    def grid(self, name, ring, rows, must=None, lo=0):
        if len(ring) < lo:
            raise Skip()
        n = self.rng.randint(lo, len(ring))
        r = np.array([self.rng.sample(range(len(ring)), n) for _ in range(rows)], dtype=int).reshape(rows, n)
        for row in r:
            self.must(ring, lambda x, s=set(row): x in s, must or {})
        self.track(name, r)
        return r, list(r)

    def subseq(self, name, n, lo=0, real=None):
        x = real()
        if len(x) < lo:
            raise Skip
        return x

    def track(self, name, x):
        self.inputs.append((name, x, copy.deepcopy(x)))

    def must(self, ring, pred, attrs):
        for i in range(len(ring)):
            if not pred(i):
                continue
            el = ring[i]
            length = self.rng.randint(1, 4)
            for attr, k in attrs.items():
                kind, lo = k, (k[2] if k[0] == 'vec' else 0)
                if hasattr(el, attr) and self.rng.random() < 0.5:
                    v = getattr(el, attr)
                    if not (isinstance(v, np.ndarray) and len(v) < lo):
                        continue
                put(el, attr, self.kind_value(attr, kind, lo, max(lo, length)))
            settle(el)

    def maybe(self, ring, attrs):
        for i in range(len(ring)):
            if self.rng.random() < 0.5:
                self.must(ring, lambda x: x == i, attrs)

    def row_axiom(self, f):
        pass

    def member(self, ords, x):
        return any(int(o) == x for o in np.ravel(ords))

    def index_of(self, ords, x):
        p = [i for i, o in enumerate(np.ravel(ords)) if int(o) == x]
        return p[-1] if p else 0

    def machine(self, ring=None, ideal=None, sig=None, **ords):
        m = self.mod('pySC.core.simulated_commissioning')
        ring = ring if ring is not None else self.ring()
        SC = m.SimulatedCommissioning(ring)
        SC.RING = ring
        if ideal is not None:
            SC.IDEALRING = ideal
        for k, v in ords.items():
            SC.ORD[k] = np.sort(v) if k in ('RF', 'BPM', 'Magnet', 'HCM', 'VCM', 'SkewQuad') else v
        for k, v in (sig or {}).items():
            self.sig_fill(SC, k, v, len(ring))
        return SC

    def sig_fill(self, SC, tab, fields, n):
        from pySC.core.classes import DotDict
        for i in range(n):
            if self.rng.random() < 0.5:
                SC.SIG[tab][i] = DotDict()
                for f, k in fields.items():
                    if self.rng.random() < 0.4:
                        SC.SIG[tab][i][f] = self.sig_value(f, k)

    def sig_value(self, f, k):
        if k[0] == 'cut':
            return [abs(self.kind_value(f, k[1])), self.rng.choice([1, 1.5, 0.5])]
        return abs(self.kind_value(f, k))

    def sigs(self, SC, kind):
        out = [Entry() for _ in range(len(SC.RING))]
        for i, row in SC.SIG[kind].items():
            out[i].__dict__['@'] = True
            for f, v in row.items():
                out[i].__dict__[f] = copy.copy(v)
        return out

    def as_input(self, x):
        """an equivalent spelling of an array argument"""
        r = self.rng.random()
        if isinstance(x, np.ndarray) and x.ndim == 1:
            if r < 0.3:
                return [v.item() for v in x]
            if x.size == 1 and r < 0.6:
                return x[0].item()
        return x

    # ---- execution
    def assume(self, b):
        if not bool(b):
            raise Skip()

    def snapshot(self, ring):
        return [copy.deepcopy(el) for el in ring]

    def copy(self, x):
        return copy.deepcopy(x)

    def call(self, f, *a, **k):
        import warnings
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                np.random.seed(self.rng.randrange(2 ** 31))
                return Outcome(f(*a, **k))
        except Skip:
            raise
        except Exception as e:
            self.last_tb = ''.join(traceback.format_exception(e)[-3:])
            return Outcome(exc=e)

    def get(self, ring, attr, r):
        return getattr(ring[r], attr, None)

    def has(self, ring, attr, r):
        return hasattr(ring[r], attr)

    def table(self, ring, attr, r):
        return list(getattr(ring[r], attr).items())

    def table_has(self, ring, attr, r, key):
        return key in getattr(ring[r], attr)

    def table_get(self, ring, attr, r, key):
        return getattr(ring[r], attr)[key]

    def forall_keys(self, rings, attr, r, f):
        return all(f(k) for k in {k for R in rings for k in getattr(R[r], attr, {})} | {0, 7})

    def draws(self):
        pass

    def within(self, x, bound):
        return self.le(abs(x), bound)

    spread_bound = within

    def drawn_from(self, x, scale):
        return np.ndim(x) == 0 and bool(abs(x) <= scale * (1 + 1e-9) and (x != 0 or scale == 0))

    def svd(self, m):
        return np.linalg.svd(np.asarray(m), full_matrices=False)

    def scalar(self, x):
        return x.item() if isinstance(x, np.ndarray) and x.ndim == 0 else x

    def tracking(self):
        tr = ConcTracked(self)
        self.hook_at('lattice_track', conc=tr.track)
        return tr

    def orbit(self):
        tr = ConcOrbit(self)
        self.hook_at('find_orbit6', conc=tr.find)
        return tr

    def independent(self, a, b, scale=None):
        return bool(a != b)

    def ravel(self, x): return np.ravel(x)

    def index(self, name, n):
        if n < 1:
            raise Skip
        return self.rng.randrange(n)

    # ---- logic
    def And(self, *xs): return all(bool(x() if callable(x) else x) for x in xs)
    def Or(self, *xs): return any(bool(x() if callable(x) else x) for x in xs)
    def Not(self, x): return not x
    def Implies(self, a, b): return (not a) or bool(b() if callable(b) else b)

    def If(self, c, a, b):
        v = a if c else b
        return v() if callable(v) else v

    def isnan(self, x): return bool(np.isnan(x))
    def max(self, a, b): return max(a, b)
    def min(self, a, b): return min(a, b)
    def count(self, n, f): return sum(1 for i in range(n) if f(i))

    def filtered(self, got, had, keep):
        want = [had[i] for i in range(len(had)) if keep(i)]
        return len(got) == len(want) and all(self.eq(a, b) for a, b in zip(got, want))

    def exists(self, n, f):
        return any(bool(f(i)) for i in range(n))

    def every(self, n, f):
        return all(bool(f(i)) for i in range(n))

    def unknown(self, name, shape=(), nan=False, lo=None):
        v = np.array([self.num() for _ in range(int(np.prod(shape)))]).reshape(shape) if shape else self.num()
        if lo is not None:
            v = lo + abs(v)
        if nan:
            if shape:
                v[self.nprng.rand(*shape) < 0.15 if nan != 'last' else np.broadcast_to(
                    self.nprng.rand(shape[-1]) < self.rng.choice([0, 0, 0.15]), shape)] = np.nan
            elif self.rng.random() < 0.15:
                v = float('nan')
        return v

    def coin(self, name):
        return self.rng.random() < 0.5

    def select(self, n, keep):
        return np.array([i for i in range(n) if keep(i)], dtype=int)

    def linfit(self, n, x, y, w):
        X, Y, W = (np.array([float(f(i)) for i in range(n)]) for f in (x, y, w))
        W = W ** 2
        sw, sx, sy = W.sum(), (W * X).sum(), (W * Y).sum()
        mx, my = sx / sw, sy / sw
        sxx = (W * (X - mx) ** 2).sum()
        a = (W * (X - mx) * (Y - my)).sum() / sxx
        return True, (a, my - a * mx), (1 / sxx, 1 / sw + mx ** 2 / sxx)

    def congruent(self, x, y, m):
        q = float(x - y) / m
        return abs(q - round(q)) < 1e-6
    def abs(self, x): return abs(x)
    def sqrt(self, x): return math.sqrt(x) if x >= 0 else float('nan')
    def cos(self, x): return math.cos(x)
    def sin(self, x): return math.sin(x)
    def atan2(self, y, x): return math.atan2(y, x)
    def sum(self, n, f): return sum((f(i) for i in range(n)), 0.0)
    def lemma_linear(self, name, n, h, terms): pass
    def len(self, x): return len(x)
    def shape(self, x): return np.shape(x)
    def at(self, a, *idx): return np.asarray(a)[tuple(idx)]

    def vecat(self, a, i, default=0.0):
        a = np.asarray(a)
        return a[i] if 0 <= i < len(a) else default

    def eq(self, a, b):
        if a is None or b is None:
            return a is b
        if isinstance(a, str) or isinstance(b, str):
            return a == b
        if isinstance(a, dict) or isinstance(b, dict):
            return isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b) and all(self.eq(a[k], b[k]) for k in a)
        if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
            return all(self.eq(x, y) for x, y in zip(a, b))
        if isinstance(a, (np.ndarray, list, tuple)) or isinstance(b, (np.ndarray, list, tuple)):
            return self.veq(a, b)
        try:
            x, y = complex(a), complex(b)
        except TypeError:
            return a is b or a == b
        if np.isnan(x) or np.isnan(y):
            return bool(np.isnan(x) and np.isnan(y))
        if np.isinf(x) or np.isinf(y):
            return x == y
        return abs(x - y) <= self.tol * (1 + abs(x) + abs(y))
    tol = TOL

    def le(self, a, b, tol=TOL):
        return a <= b + tol * (1 + abs(a) + abs(b))

    def veq(self, a, b):
        if np.shape(a) != np.shape(b):
            return False
        a, b = np.asarray(a), np.asarray(b)
        if a.dtype == object or b.dtype == object or a.dtype.kind in 'US':
            return all(self.eq(x, y) for x, y in zip(a.ravel(), b.ravel()))
        return all(self.eq(x.item(), y.item()) for x, y in zip(a.ravel(), b.ravel()))

    def forall(self, n, f):
        return all(bool(f(i)) for i in range(n))

    def forall_rows(self, ring, f):
        return self.forall(len(ring), f)

    # ---- obligations
    def ensure(self, name, cond, info=None):
        if self.keep is not None and not self.keep(name):
            return
        if callable(cond):
            cond = cond()
        self.obl.append((name, bool(cond), info))

    def rows(self, name, ring, f):
        bad = [i for i in range(len(ring)) if not f(i)]
        self.ensure(name, not bad, f'elements {bad}' if bad else None)

    def frame(self, name, ring, old, allowed=None):
        allowed = allowed or {}
        if len(ring) != len(old):
            self.ensure(f'{name}:number of elements', False)
            return
        bad = []
        for i in range(len(ring)):
            da, db = dict(ring[i].__dict__), dict(old[i].__dict__)
            for attr in set(da) | set(db):
                al = allowed.get(attr)
                if al is True or (al is not None and al(i)):
                    continue
                if attr not in da or attr not in db or not self.eq(da[attr], db[attr]):
                    bad.append((i, attr))
        for attr in {a for _, a in bad}:
            self.ensure(f'{name}:{attr}', False, f'elements {[i for i, a in bad if a == attr]}')
        self.ensure(name, not bad)

    def unchanged(self, name, x, old):
        self.ensure(name, self.eq(x, old))

    def isolated(self, SC, ideal):
        self.frame('design lattice', SC.IDEALRING, ideal)
        self.ensure('design lattice shares nothing with the machine', lambda: self.disjoint(SC.RING, SC.IDEALRING))

    def args_untouched(self, *names):
        for n, x, x0 in self.inputs:
            if n in names:
                self.ensure(f'argument {n} not modified', self.eq(x, x0))

    def same_object(self, a, b):
        return a is b

    def disjoint(self, a, b):
        return separate([a[i] for i in range(len(a))], [b[i] for i in range(len(b))])

    def separate(self, a, b):
        return separate(a, b)

    def last_of(self, x, v):
        pass

    def increasing(self, x):
        return all(a < b for a, b in zip(x[:-1], x[1:]))

    def same_members(self, x, pred):
        s = {int(i) for i in x}
        return all(pred(i) for i in s) and all(i in s for i in range(-2, 40) if pred(i))

    def const_rows(self, a, i):
        return np.asarray(a)[i]

    def repeated(self, ords):
        """the same elements, some of them several times"""
        if len(ords) and self.rng.random() < 0.5:
            extra = [self.rng.choice(list(ords)) for _ in range(self.rng.randint(1, 3))]
            out = list(ords) + extra
            self.rng.shuffle(out)
            return np.array(out, dtype=int)
        return ords


# ==================================================================== model replay
def mval(m, t):
    v = m.eval(t, model_completion=True)
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    if z3.is_algebraic_value(v):
        return float(v.approx(20).as_fraction())
    raise Skip('model value')


class ModelB(ConcB):
    """inputs read from a solver model"""
    def __init__(self, model, attrs, nmax=12):
        super().__init__(0)
        self.m = model
        self.attrs = attrs
        self.nmax = nmax
        self.log = {}

    def size(self, name, lo=0, hi=None):
        n = mval(self.m, z3.Int(name))
        if n > self.nmax:
            raise Skip('large')
        self.log[name] = n
        return n

    def int(self, name, lo=None, hi=None):
        self.log[name] = mval(self.m, z3.Int(name))
        return self.log[name]

    def real(self, name, lo=None, hi=None, nz=False, sample=None):
        self.log[name] = mval(self.m, z3.Real(name))
        return self.log[name]

    def bool(self, name):
        return mval(self.m, z3.Bool(name))

    def arr(self, name, shape, lo=None, hi=None, nan=False, kind='f'):
        f = uf(name, *([INT] * len(shape)), {'f': REAL, 'i': INT, 'b': BOOL}[kind])
        nf = uf(name + '.nan', *([INT] * len(shape)), BOOL)
        out = np.zeros(shape, dtype={'f': float, 'i': int, 'b': bool}[kind])
        for ix in np.ndindex(*shape):
            a = [z3.IntVal(i) for i in ix]
            out[ix] = mval(self.m, f(*a))
            if nan and mval(self.m, nf(*a)):
                out[ix] = np.nan
        self.log[name] = out.tolist()
        self.track(name, out)
        return out

    def ring(self, name='RING', n=None, kinds=None, attrs=(), absent=()):
        import at
        n = self.size(name + '.n') if n is None else n
        els = []
        L = []
        for i in range(n):
            e = at.Element(f'E{i}', Length=0.0)
            d = {}
            for attr in self.attrs.get(name, ()):
                k = (kinds or {}).get(attr) or H.KINDS.get(attr)
                if k is None or k[0] in ('opaque', 'unknown', 'const'):
                    continue
                if attr not in H.ALWAYS and not mval(self.m, uf(f'{name}.{attr}?', INT, BOOL)(i)):
                    continue
                F = lambda *a: uf(f'{name}.{attr}', *a)
                if k[0] in ('real', 'int', 'bool'):
                    v = mval(self.m, F(INT, {'real': REAL, 'int': INT, 'bool': BOOL}[k[0]])(i))
                elif k[0] == 'str':
                    code = mval(self.m, F(INT, INT)(i))
                    v = SymStr.table[code] if 0 <= code < len(SymStr.table) and SymStr.table[code] in k[1] else k[1][-1]
                elif k[0] == 'vec':
                    ln = k[1] if k[1] is not None else mval(self.m, uf(f'{name}.len.{attr}', INT, INT)(i))
                    if ln > 12 or ln < 0:
                        raise Skip('large')
                    v = np.array([mval(self.m, F(INT, INT, REAL)(i, j)) for j in range(ln)], dtype=float)
                elif k[0] == 'ilist':
                    v = np.array([mval(self.m, F(INT, INT, INT)(i, j)) for j in range(k[1])], dtype=int)
                elif k[0] == 'sysdict':
                    from pySC.core.classes import DotDict
                    v = DotDict()
                    for j in range(k[1] if len(k) > 1 else 0):
                        ln = mval(self.m, uf(f'{name}.len.{attr}', INT, INT, INT)(i, j))
                        if not 0 <= ln <= 12:
                            raise Skip('large')
                        v[mval(self.m, uf(f'{name}.key.{attr}', INT, INT, INT)(i, j))] = np.array(
                            [mval(self.m, F(INT, INT, INT, REAL)(i, j, q)) for q in range(ln)], dtype=float)
                elif k[0] == 'mat':
                    v = np.array([[mval(self.m, F(INT, INT, INT, REAL)(i, p, q)) for q in range(k[2])] for p in range(k[1])],
                                 dtype=float)
                setattr(e, attr, v)
                d[attr] = v.tolist() if isinstance(v, np.ndarray) else v
            L.append(d)
            els.append(e)
        self.log[name] = L
        return lattice(els)

    def sig_fill(self, SC, tab, fields, n):
        from pySC.core.classes import DotDict
        name = 'SIG.' + tab
        for i in range(n):
            if not mval(self.m, uf(f'{name}.@?', INT, BOOL)(i)):
                continue
            SC.SIG[tab][i] = DotDict()
            for f, k in fields.items():
                if mval(self.m, uf(f'{name}.{f}?', INT, BOOL)(i)):
                    if k[0] != 'real':
                        raise Skip('kind')
                    SC.SIG[tab][i][f] = mval(self.m, uf(f'{name}.{f}', INT, REAL)(i))

    def ords(self, name, ring, must=None, sort=False, lo=0, within=None, axioms=None, repair=None, n=None, without=None):
        if n is not None:
            sel = [mval(self.m, z3.Int(f'{name}.{j}')) for j in range(n)]
        else:
            n = mval(self.m, z3.Int(name + '.n'))
            if n > self.nmax:
                raise Skip('large')
            f = uf(name + '.at', INT, INT)
            sel = [mval(self.m, f(i)) for i in range(n)]
        if len(set(sel)) != n or any(not 0 <= s < len(ring) for s in sel):
            raise Skip('inconsistent model')
        for s in sel:
            for attr, k in (must or {}).items():
                if not hasattr(ring[s], attr):
                    raise Skip('inconsistent model')
        r = np.array(sel, dtype=int)
        self.log[name] = sel
        self.track(name, r)
        return r

    def grid(self, name, ring, rows, must=None, lo=0):
        n = mval(self.m, z3.Int(name + '.n'))
        if n > self.nmax:
            raise Skip('large')
        out = []
        for p in range(rows):
            f = uf(f'{name}{p}.at', INT, INT)
            sel = [mval(self.m, f(i)) for i in range(n)]
            if len(set(sel)) != n or any(not 0 <= s < len(ring) or not all(hasattr(ring[s], a) for a in must or {}) for s in sel):
                raise Skip('inconsistent model')
            out.append(sel)
        r = np.array(out, dtype=int).reshape(rows, n)
        self.log[name] = out
        self.track(name, r)
        return r, list(r)

    def must(self, ring, pred, attrs):
        pass

    def maybe(self, ring, attrs):
        pass

    def as_input(self, x):
        return x


# ==================================================================== exploration
class PathRec:
    __slots__ = ('obl',)


def explore(con, params, limit=300, deadline=None):
    """symbolic execution of a contract: ([(name, pc, goal, info)], ctx, status, note)"""
    c = Ctx()
    Ctx.cur = c
    restarts = 0
    while True:
        ex = Explorer(limit)
        allobl = []
        npaths = 0
        attrs = {}
        try:
            while True:
                if deadline is not None and time.time() > deadline:
                    raise Unsupported('time limit of the symbolic execution')
                c.reset()
                c.expl = [ex]
                ex.begin()
                B = SymB(c)
                c.B = B
                try:
                    B.keep = con.opts.get('keep')
                    con.fn(B, **params)
                    if c.tainted:
                        raise Unsupported(c.tainted)
                    npaths += 1
                    for o in B.obl:
                        allobl.append(o)
                except Infeasible:
                    pass
                finally:
                    B.close()
                    for r in c.rings:
                        attrs.setdefault(r.name, set()).update(r.cols)
                if not ex.next():
                    break
            return allobl, c, 'ok', f'{npaths} paths', attrs, npaths
        except Restart:
            restarts += 1
            if restarts > 60:
                return allobl, c, 'unsupported', 'too many restarts', attrs, npaths
            continue
        except Unsupported as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = [f'{f.filename.split("/")[-1]}:{f.lineno}' for f in tb if '/repo' in f.filename or 'contracts' in f.filename][-1:]
            return allobl, c, 'unsupported', f'{e} ({", ".join(where)})', attrs, npaths
        except RecursionError as e:
            if os.environ.get('PYDV_TB'):
                traceback.print_exception(e, limit=-40, file=open('/tmp/tb.txt','w'))
            return allobl, c, 'unsupported', 'recursion', attrs, npaths
        except MergeError as e:
            return allobl, c, 'unsupported', f'merge {e}', attrs, npaths


def run_concrete(con, params, seed, nmax=7):
    """one random run on the real modules: (obligation results, note) or None when the draw violates a precondition"""
    B = ConcB(seed, nmax)
    try:
        B.keep = con.opts.get('keep')
        con.fn(B, **params)
    except Skip:
        return None
    except Exception:
        if all(ok for _, ok, _ in B.obl):
            raise
    finally:
        B.close()
    return B


def run_model(con, params, model, attrs):
    B = ModelB(model, attrs)
    try:
        B.keep = con.opts.get('keep')
        con.fn(B, **params)
    except Skip:
        return None
    finally:
        B.close()
    return B
