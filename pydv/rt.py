"""Runtime of the instrumented code: branches, loops, stores and builtins over symbolic values."""
import sys
import builtins
import copy
import operator
import z3
import numpy as np
from .core import (S, S_, Ctx, ctx, Unsupported, Infeasible, MergeError, Restart, Explorer, SymStr, is_num, zlift, zb, ite, merge, mk_and,
                   mk_or, mk_not, ret, real, arith, norm, simp, REAL, INT, BOOL, const_val, Fraction)
from . import arr as A
from .arr import Arr, AVal, LocalLoc, toaval, NZ
from . import heap as H
from .heap import Col, ColState, SymRing, Row, subst


def difference(t, c0):
    """t - c0, pushed into conditionals"""
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        return z3.If(t.arg(0), difference(t.arg(1), c0), difference(t.arg(2), c0))
    if z3.is_add(t):
        xs = t.children()
        for i, x in enumerate(xs):
            if A._contains(x, c0) and not builtins.any(A._contains(y, c0) for j, y in enumerate(xs) if j != i):
                return z3.Sum(*([difference(x, c0)] + xs[:i] + xs[i + 1:]))
    return z3.simplify(t - c0, som=True)


class _Unb:
    """an unbound local variable"""
    def _u(self, *a, **k):
        raise Unsupported('possibly unbound local variable')
    __call__ = __getitem__ = __iter__ = __len__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _u
    __bool__ = __lt__ = __gt__ = __le__ = __ge__ = __truediv__ = __rtruediv__ = __neg__ = __contains__ = _u
    __index__ = __float__ = __int__ = __pow__ = __and__ = __or__ = __setitem__ = __matmul__ = _u
    __array_ufunc__ = None

    def __getattr__(self, n):
        raise Unsupported('possibly unbound local variable')

    def __setattr__(self, n, v):
        raise Unsupported('possibly unbound local variable')


UNB = _Unb()


class _Carried(_Unb):
    """a local rebound in a loop to a value the executor cannot generalise"""


# ------------------------------------------------------------------ native containers with undo
class NativeState:
    def __init__(self, obj):
        self.obj = obj

    def _get_state(self):
        o = self.obj
        if isinstance(o, dict):
            return dict(o)
        if isinstance(o, (list, set)):
            return type(o)(o)
        return dict(o.__dict__)

    def _set_state(self, st):
        o = self.obj
        if isinstance(o, dict):
            dict.clear(o)
            dict.update(o, st)
        elif isinstance(o, list):
            o[:] = st
        elif isinstance(o, set):
            o.clear()
            o.update(st)
        else:
            o.__dict__.clear()
            o.__dict__.update(st)

    def _merge_state(self, ct, entry, a, b):
        if isinstance(a, list):
            if len(a) != len(b):
                raise MergeError('list length')
            return [merge(ct, x, y) for x, y in zip(a, b)]
        if isinstance(a, dict):
            if set(a) != set(b):
                raise MergeError('dict keys')
            return {k: merge(ct, a[k], b[k]) for k in a}
        if a == b:
            return a
        raise MergeError('set')


def native(obj):
    c = ctx()
    if id(obj) in c.stored:
        raise Unsupported('python container modified after it was stored in the lattice')
    ns = c.ns.get(id(obj))
    if ns is None:
        ns = c.ns[id(obj)] = NativeState(obj)
    c.log(ns, ns._get_state())
    return ns


# ------------------------------------------------------------------ branches
def truth(t):
    return bool(t)


def lazy_bool(t):
    """truth value of t as python bool or z3 Bool"""
    if isinstance(t, S):
        b = z3.simplify(zb(t))
        if z3.is_true(b):
            return True
        if z3.is_false(b):
            return False
        return b
    if isinstance(t, Arr) and (t.ndim == 0 or builtins.all(not isinstance(d, S) and d == 1 for d in t.shape)):
        return lazy_bool(t.scalar0())
    return bool(t)


class MIf:
    def __init__(self, test, loc):
        c = ctx()
        b = lazy_bool(test)
        self.loc = loc
        self.phase = 0
        self.final = None
        if not isinstance(b, bool):
            if loc in c.nomerge:
                b = c.decide(b)
            elif c.entails(b):
                b = True
            elif c.entails(z3.Not(b)):
                b = False
        self.native = isinstance(b, bool)
        self.b = b
        self.side = b if self.native else True
        self.rec = []

    def step(self, loc):
        c = ctx()
        if self.native:
            self.phase += 1
            return self.phase == 1
        if self.phase == 0:
            self.l0 = dict(loc)
            self.base = len(c.pc)
            self.mark = c.mark()
        if self.phase < 2:
            self.side = self.phase == 0
            c.pc.append(self.b if self.side else z3.simplify(z3.Not(self.b)))
            self.phase += 1
            return True
        self.merge()
        return False

    def restore(self, names):
        if self.native:
            fl = sys._getframe(1).f_locals
            return tuple(fl.get(n, UNB) for n in names)
        self.names = names
        return tuple(self.l0.get(n, UNB) for n in names)

    def exc(self, e):
        if self.native or isinstance(e, Unsupported):
            raise e
        ctx().nomerge.add(self.loc)
        raise Restart()

    def leave(self, loc):
        if self.native:
            return
        c = ctx()
        if len(c.events) != self.mark[1]:
            c.nomerge.add(self.loc)
            raise Restart()
        ch = {i: (o, st, o._get_state()) for i, (o, st) in c.changed(self.mark).items()}
        c.rollback(self.mark)
        extra = c.cut(self.base)[1:]
        self.rec.append((dict(loc), ch, extra))

    def merge(self):
        c = ctx()
        (la, ca, xa), (lb, cb, xb) = self.rec
        ct = self.b
        c.merge_site = self.loc
        try:
            for i in list(ca) + [i for i in cb if i not in ca]:
                o = (ca.get(i) or cb.get(i))[0]
                entry = (ca.get(i) or cb.get(i))[1]
                a = ca[i][2] if i in ca else entry
                b = cb[i][2] if i in cb else entry
                st = o._merge_state(ct, entry, a, b)
                c.log(o, entry)
                o._set_state(st)
            res = {}
            for n in self.names:
                a, b = la.get(n, UNB), lb.get(n, UNB)
                if a is UNB or b is UNB:
                    res[n] = b if a is UNB else a
                else:
                    res[n] = merge(ct, a, b)
        except MergeError:
            c.nomerge.add(self.loc)
            raise Restart()
        nt = z3.simplify(z3.Not(ct))
        for g, xs in ((ct, xa), (nt, xb)):
            for f, d in xs:
                if d:
                    c.dec.add(len(c.pc))
                c.pc.append(z3.Implies(g, f))
        self.res = res

    def result(self, names):
        if self.native:
            fl = sys._getframe(1).f_locals
            return tuple(fl.get(n, UNB) for n in names)
        return tuple(self.res[n] for n in names)


# ------------------------------------------------------------------ symbolic sequences
class SymIter:
    """finite sequence of symbolic length: item(k)"""
    def __init__(self, n, item):
        self.n, self.item = n, item


class SymList(SymIter):
    """list produced by a comprehension over a symbolic sequence"""
    def __init__(self, n, item, av=None):
        super().__init__(n, item)
        self._av = av

    def __aval__(self):
        if self._av is None:
            k = S_(A.fresh_k())
            v = self.item(k)
            if A.is_scalar(v):
                self._av = AVal((self.n,), lambda idx: self.item(idx[0]), A.dtype_of(v))
            elif isinstance(v, (Arr, AVal, np.ndarray, list, tuple)):
                a = toaval(v)
                if builtins.any(isinstance(d, S) and A._contains(zlift(d)[0], k.t) for d in a.shape):
                    raise Unsupported('ragged array')
                self._av = AVal((self.n,) + a.shape, lambda idx: toaval(self.item(idx[0]))(tuple(idx[1:])), a.dt)
            else:
                raise Unsupported('array of objects')
        return self._av

    def __len__(self):
        raise Unsupported('native len of a symbolic list')

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i == slice(None):
                return self
            raise Unsupported('slice of a symbolic list')
        return self.item(A.sidx(i, self.n))

    def copy(self):
        return self

    def __iter__(self):
        raise Unsupported('native iteration over a symbolic list')

    def __bool__(self):
        return bool(self.n > 0) if isinstance(self.n, S) else self.n > 0


def sym_iter(it):
    """SymIter for a sequence of symbolic length, None for native iteration"""
    if isinstance(it, SymIter):
        return it if isinstance(it.n, S) else None
    if isinstance(it, NZ):
        it = it.arr()
    if isinstance(it, Arr):
        if it.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        n = it.shape[0]
        return SymIter(n, lambda k: it[k]) if isinstance(n, S) else None
    if isinstance(it, SymRing):
        return SymIter(it.n, lambda k: Row(it, k)) if isinstance(it.n, S) else None
    if hasattr(it, '_symiter'):
        return it._symiter()
    return None


def py_iter(it):
    if isinstance(it, SymIter):
        return builtins.iter([it.item(k) for k in builtins.range(it.n)])
    if isinstance(it, SymRing):
        return builtins.iter([Row(it, k) for k in builtins.range(it.n)])
    return builtins.iter(it)


# ------------------------------------------------------------------ loops
_lserial = [0]


def same_value(a, b):
    """the two values are equal (condition)"""
    if isinstance(a, (A.Arr, A.AVal)) or isinstance(b, (A.Arr, A.AVal)):
        x, y = A.toaval(a), A.toaval(b)
        if x is y:
            return True
        if x.ndim != y.ndim or x.dt != y.dt:
            return False
        ix = tuple(S_(z3.Int(ctx().fresh('ix'))) for _ in range(x.ndim))
        return mk_and(*[A.eqi(i, j) for i, j in zip(x.shape, y.shape)],
                      mk_or(mk_not(mk_and(*[A.inrange(i, d) for i, d in zip(ix, x.shape)])), same_value(x(ix), y(ix))))
    if isinstance(a, (S, int, float, np.number)) and isinstance(b, (S, int, float, np.number)):
        (s, sn), (t, tn) = zlift(a), zlift(b)
        if z3.is_bool(s) != z3.is_bool(t):
            return False
        if not z3.is_bool(s) and s.sort() != t.sort():
            s, t = real(s), real(t)
        e = S_(s == t)
        if sn is None and tn is None:
            return e
        sn, tn = (z3.BoolVal(False) if x is None else x for x in (sn, tn))
        return mk_and(S_(sn == tn), mk_or(S_(sn), e))
    if isinstance(a, (str, SymStr)) and isinstance(b, (str, SymStr)):
        return a == b if isinstance(a, SymStr) else b == a
    return a is b


class Loop:
    def __init__(self, it, loc):
        self.loc = loc
        self.sym = sym_iter(it)
        self.native = self.sym is None
        self.poison = set()
        if self.native:
            self.it = py_iter(it)
        else:
            self.n = self.sym.n
            if not ctx().feasible(self.n.t > 0):
                self.native = True
                self.it = builtins.iter(())
        self.started = self.done = self.skip = False

    # ---- protocol
    def step(self, loc):
        if self.native:
            try:
                self.item = next(self.it)
                return True
            except StopIteration:
                return False
        if not self.started:
            self.started = True
            self.l0 = dict(loc)
            self.start()
            return True
        if self.done:
            return False
        if self.skip:
            self.skip = False
            return True
        # end of a path of the generic iteration
        self.record('next', dict(loc))
        r = self.advance()
        self.skip = False
        self.done = not r
        return r

    def start(self):
        c = ctx()
        self.serial = A.next_serial()
        self.k = z3.Int(c.fresh('k'))
        self.S = S_(self.k)
        c.loops.append(self)
        self.base = len(c.pc)
        self.mark = c.mark()
        self.ex = Explorer(200)
        c.expl.append(self.ex)
        self.counter0 = dict(c.counter)
        self.again()

    def again(self):
        self.paths = []
        self.ex.prefix = []
        self.begin()

    def begin(self):
        c = ctx()
        self.ex.begin()
        self.reads = []
        self.wraps = {}
        self.c0 = {}
        c.counter = dict(self.counter0)
        c.pc.append(z3.And(self.k >= 0, self.k < self.n.t))
        self.item = self.sym.item(self.S)

    def restore(self, names):
        if self.native:
            fl = sys._getframe(1).f_locals
            return tuple(fl.get(n, UNB) for n in names)
        self.names = names
        out = []
        for n in names:
            v = self.l0.get(n, UNB)
            if v is UNB:
                out.append(UNB)
            elif n in self.poison:
                out.append(_Carried())
            elif (is_num(v) and not isinstance(v, (bool, np.bool_))) or (isinstance(v, S) and v.kind != 'b'):
                if isinstance(v, S) and v.nan is not None:
                    out.append(_Carried())
                    continue
                t = zlift(v)[0]
                kn = self.k.decl().name()
                c0 = z3.Const(f'{kn}.{n}', REAL if (n in self.realc) else t.sort())
                self.c0[n] = c0
                out.append(S_(c0))
            else:
                out.append(v)
        return tuple(out)

    realc = frozenset()

    def exc(self, e):
        if self.native or isinstance(e, Unsupported):
            raise e
        self.record('raise', None, e)
        if self.advance():
            self.skip = True
            return
        self.done = True

    def brk(self):
        if not self.native:
            raise Unsupported('break in a loop over a symbolic sequence')

    def ret(self, v):
        if not self.native:
            raise Unsupported('return inside a loop over a symbolic sequence')
        return v

    def result(self, names):
        if self.native:
            fl = sys._getframe(1).f_locals
            return tuple(fl.get(n, UNB) for n in names)
        return tuple(self.res.get(n, UNB) for n in names)

    # ---- generic iteration bookkeeping
    def record(self, kind, loc, e=None):
        c = ctx()
        if len(c.events) != self.mark[1]:
            raise Unsupported('events in a loop over a symbolic sequence')
        ch = {i: (o, st, o._get_state()) for i, (o, st) in c.changed(self.mark).items()}
        c.rollback(self.mark)
        xs = c.cut(self.base)[1:]
        decs = [f for f, d in xs if d]
        self.paths.append(dict(kind=kind, loc=loc, e=e, ch=ch, xs=xs, cond=z3.And(*decs) if decs else z3.BoolVal(True),
                               c0=dict(self.c0), reads=self.reads, wraps=self.wraps))

    def advance(self):
        """start the next path (True) or finish (False)"""
        if self.ex.next():
            self.begin()
            self.skip = True
            return True
        # re-run with poisoned locals when object-valued locals are rebound
        new = set()
        for p in self.paths:
            if p['kind'] != 'next':
                continue
            for n in self.names:
                v0 = self.l0.get(n, UNB)
                if v0 is UNB or n in p['c0'] or n in self.poison:
                    continue
                if p['loc'].get(n, UNB) is not v0:
                    new.add(n)
        realc = set()
        for p in self.paths:
            if p['kind'] == 'next':
                for n, c0 in p['c0'].items():
                    v = p['loc'].get(n)
                    if z3.is_int(c0) and isinstance(v, (S, float, np.floating)) and z3.is_real(zlift(v)[0]):
                        realc.add(n)
        if new or realc - set(self.realc):
            self.poison |= new
            self.realc = set(self.realc) | realc
            self.again()
            return True
        self.finish()
        return False

    def wrap_col(self, col):
        st = col.state
        b = st.base
        while len(b) == 3:
            if b[3 - 1] is not None and getattr(b, 'loop', None) is self:
                return
            b = b[2].base
        w = self.wraps.get(id(col))
        if w is None:
            reads = self.reads
            c = ctx()

            def pres(r):
                reads.append((col, (r,), list(c.pc[self.base + 1:])))
                return st.lookup(r)[0]

            def val(r):
                return st.lookup(r)[1]()
            base = WrapBase((pres, val, st))
            base.loop = self
            w = self.wraps[id(col)] = (col, ColState(base), st)
        if w[2] is not st:
            raise Unsupported('column re-wrapped')
        ctx().log(col, col._get_state())
        col.state = w[1]

    def wrap_loc(self, loc):
        v = loc.val
        b = v.wr[0] if v.wr is not None else v
        while b.loop is not None:
            if b.loop[0] is self:
                return
            b = b.loop[1]
            b = b.wr[0] if b.wr is not None else b
        w = self.wraps.get(id(loc))
        if w is None:
            reads = self.reads
            c = ctx()

            def fn(idx):
                reads.append((loc, tuple(idx), list(c.pc[self.base + 1:])))
                return v(idx)
            nv = AVal(v.shape, fn, v.dt, v.seq, v.mask, v.tag, v.src)
            nv.loop = (self, v)
            w = self.wraps[id(loc)] = (loc, nv, v)
        if w[2] is not v:
            raise Unsupported('array re-wrapped')
        ctx().log(loc, loc.val)
        loc.val = w[1]

    # ---- generalisation
    def finish(self):
        c = ctx()
        c.loops.pop()
        c.expl.pop()
        k, n = self.k, self.n.t
        rng = lambda t: z3.And(t >= 0, t < n)
        nxt = [p for p in self.paths if p['kind'] == 'next']
        rs = [p for p in self.paths if p['kind'] == 'raise']
        # closed forms of carried numbers
        closed, endv = {}, {}
        todo = {}
        for nme in self.names:
            ps = [p for p in nxt if nme in p['c0']]
            if not ps:
                continue
            c0 = ps[0]['c0'][nme]
            try:
                v = ps[-1]['loc'][nme]
                for p in reversed(ps[:-1]):
                    v = merge(p['cond'], p['loc'][nme], v)
            except (MergeError, Unsupported):
                v = None
            todo[nme] = (c0, v)
        pairs = []
        progress = True
        while todo and progress:
            progress = False
            for nme in list(todo):
                c0, v = todo[nme]
                pre = self.l0[nme]
                if v is None or not (is_num(v) or isinstance(v, S)):
                    continue
                vt, vn = zlift(v)
                vt = arith(vt)
                if z3.is_real(c0):
                    vt = real(vt)
                others = [o[0] for m, o in todo.items() if m != nme]
                vt = z3.simplify(z3.substitute(vt, *pairs)) if pairs else z3.simplify(vt)
                if vt.eq(c0):
                    closed[nme] = (lambda kk, pre=pre: pre)
                    endv[nme] = pre
                elif builtins.any(A._contains(vt, o) for o in others):
                    continue
                else:
                    d = z3.simplify(vt - c0, som=True)
                    if A._contains(d, c0):
                        d = z3.simplify(difference(vt, c0))
                    if not A._contains(d, c0) and vn is None:
                        def cf(kk, pre=pre, d=d):
                            cv = const_val(d)
                            if cv is not None or not A._contains(d, k):
                                dd = S_(d)
                                return pre + kk * norm(dd)
                            if not isinstance(kk, S):
                                kk = S_(z3.IntVal(kk))
                            s = A.sum_term(kk.t, d, k)
                            if z3.is_int(d):
                                s = z3.ToInt(s)
                            return pre + S_(s)
                        closed[nme] = cf
                        endv[nme] = cf(self.n)
                    elif not A._contains(vt, c0):
                        v2 = S_(vt, vn)
                        closed[nme] = (lambda kk, pre=pre, v2=v2: ite(kk == 0, pre, subst(v2, [(k, zlift(kk - 1)[0])])))
                        endv[nme] = ite(self.n > 0, subst(v2, [(k, (self.n - 1).t)]), pre)
                    else:
                        continue
                cl = zlift(closed[nme](self.S))[0]
                cl = real(cl) if z3.is_real(c0) else arith(cl)
                if z3.is_int(c0) and z3.is_real(cl):
                    raise Unsupported('integer carried variable')
                pairs = [(a, z3.substitute(b, (c0, cl))) for a, b in pairs] + [(c0, cl)]
                del todo[nme]
                progress = True
        used_bad = [o[0] for o in todo.values()]

        def sub(v):
            return subst(v, pairs) if pairs else v
        for p in self.paths:
            p['cond'] = z3.simplify(sub(p['cond']))
            if builtins.any(A._contains(p['cond'], o) for o in used_bad):
                raise Unsupported('loop-carried variable without closed form')
        # facts assumed during the generic iteration hold for every k
        for p in self.paths:
            pre = []
            for f, d in p['xs']:
                f = sub(f)
                if d:
                    pre.append(f)
                    continue
                g = z3.Implies(z3.And(*pre), f) if pre else f
                if A._contains(g, k):
                    c.assume(z3.ForAll([k], z3.Implies(rng(k), g)))
                else:
                    c.assume(z3.Implies(n > 0, g))
        # raising iterations
        wrote = builtins.any(self.writes_of(p) for p in self.paths)
        if rs:
            anyc = z3.simplify(z3.Or(*[p['cond'] for p in rs]))
            ex = A.closed_exists(k, z3.And(rng(k), anyc)) if A._contains(anyc, k) else z3.And(n > 0, anyc)
            if z3.is_true(anyc):
                ex = n > 0
            if c.decide(ex):
                if wrote:
                    c.tainted = 'a loop raised after earlier iterations changed state'
                for p in rs[:-1]:
                    kk = A.closed_exists(k, z3.And(rng(k), p['cond']))
                    if type(p['e']) is type(rs[-1]['e']) or c.decide(kk):
                        raise p['e']
                raise rs[-1]['e']
        # state
        alltargets = {}
        for p in nxt:
            for tgt, ws in self.writes_of(p):
                alltargets.setdefault(id(tgt), (tgt, []))[1].append((p, ws))
        def build(drop):
            gens = []
            for key, (tgt, lst) in alltargets.items():
                if key in drop:
                    continue
                gen = []
                for p, ws in lst:
                    trivial = len(self.paths) == 1 or z3.is_true(p['cond'])
                    for w in ws:
                        gen.append(self.generalise(tgt, w, None if trivial else p['cond'], sub, used_bad))
                gens.append((tgt, gen))
            self.check_reads(gens, nxt, sub, used_bad)
            return gens
        try:
            gens = build(())
        except Unsupported:
            # invariant: what an iteration changed and put back is as before the loop at the start of every iteration
            drop = {key for key, (tgt, lst) in alltargets.items() if isinstance(tgt, Col) and builtins.all(
                self.restored(tgt, p, sub) for p, _ in lst)}
            if not drop:
                raise
            gens = build(drop)
        for tgt, gen in gens:
            if isinstance(tgt, Col):
                st = tgt.get()
                c.log(tgt, tgt._get_state())
                rb = [g for g in gen if g[3]]
                if rb:
                    tgt.rebinds.append((None, st))
                tgt.state = ColState(st.base, st.writes + tuple((g[0], g[1], g[2]) for g in gen))
            else:
                v = tgt.get()
                base, wr = v.wr if v.wr is not None else (v, ())
                tgt.put(AVal.from_writes(base, wr + tuple((g[0], g[1]) for g in gen), v.shape, v.dt))
        # locals after the loop
        self.res = {}
        for nme in self.names:
            if nme in endv:
                self.res[nme] = endv[nme]
                continue
            if nme in todo:
                self.res[nme] = _Carried()
                continue
            v0 = self.l0.get(nme, UNB)
            if nme in self.poison or v0 is UNB:
                try:
                    vals = [(p['cond'], p['loc'].get(nme, UNB)) for p in nxt]
                    vals = [x for x in vals if x[1] is not UNB]
                    if not vals:
                        self.res[nme] = v0
                        continue
                    v = vals[-1][1]
                    for q, x in reversed(vals[:-1]):
                        v = merge(q, x, v)
                    v = subst(sub(v), [(k, (self.n - 1).t)])
                    if v0 is not UNB:
                        v = ite(self.n > 0, v, v0)
                    self.res[nme] = v
                except (MergeError, Unsupported):
                    self.res[nme] = _Carried()
            else:
                self.res[nme] = v0

    def restored(self, col, p, sub):
        """the column is at the end of the iteration what it was at its start"""
        c = ctx()
        st1, st0 = p['ch'][id(col)][2][0] if id(col) in p['ch'] else None, p['wraps'][id(col)][1]
        n0 = len(p['reads'])
        base = len(c.pc)
        try:
            c.pc += [z3.And(self.k >= 0, self.k < self.n.t), p['cond'], *[sub(f) for f, _ in p['xs']]]
            r = S_(z3.Int(c.fresh('row')))
            p1, v1 = st1.lookup(r)
            p0, v0 = st0.lookup(r)
            if not c.entails(zb(sub(same_value(p0, p1)))):
                return False
            if p1 is False:
                return True
            if p1 is not True:
                c.pc.append(zb(sub(p1)))
            return c.entails(zb(sub(same_value(v0(), v1()))))
        except (MergeError, Unsupported):
            return False
        finally:
            c.cut(base)
            del p['reads'][n0:]

    def writes_of(self, p):
        out = []
        for o, st0, st1 in p['ch'].values():
            if isinstance(o, Col):
                ws = st1[0].writes if id(o) in p['wraps'] else ()
                if id(o) not in p['wraps']:
                    if o.serial > self.serial:
                        continue
                    raise Unsupported('unwrapped column')
                if ws:
                    out.append((o, [(w[0], w[1], w[2], st1[1] > st0[1]) for w in ws]))
            elif isinstance(o, LocalLoc):
                if o.serial > self.serial or st0 is None:
                    continue
                if id(o) not in p['wraps']:
                    raise Unsupported('unwrapped array')
                if st1 is p['wraps'][id(o)][1]:
                    continue
                if st1.wr is None or st1.wr[0] is not p['wraps'][id(o)][1]:
                    raise Unsupported('array replaced in a loop')
                out.append((o, [(w[0], w[1], None, False) for w in st1.wr[1]]))
            elif isinstance(o, NativeState):
                if id(o.obj) in ctx().created and ctx().created[id(o.obj)][1] >= self.serial:
                    continue            # made in this iteration
                if p['kind'] == 'raise':
                    out.append((o, [None]))
                elif o._get_state() != st1:
                    raise Unsupported('python container modified in a loop over a symbolic sequence')
        return out

    def generalise(self, tgt, w, pathcond, sub, bad):
        k, n = self.k, self.n.t
        cond, a, b, rebind = w
        nidx = 1 if isinstance(tgt, Col) else len(tgt.val.shape)
        q = [z3.Int(f'q#{i}') for i in range(nidx)]
        arg = S_(q[0]) if isinstance(tgt, Col) else tuple(S_(x) for x in q)
        ct = zb(cond(arg))
        ct = z3.simplify(z3.substitute(ct, *[(x, y) for x, y in ()]) if False else ct)
        ct = sub(ct)
        if pathcond is not None:
            ct = z3.And(ct, pathcond)
        ct = z3.simplify(ct)
        if builtins.any(A._contains(ct, o) for o in bad):
            raise Unsupported('loop-carried variable without closed form')
        sol = solve_for(ct, k, q)
        if sol is None:
            if A._contains(ct, k):
                raise Unsupported('write position cannot be inverted')
            kt, side = n - 1, [n > 0]
        else:
            kt, side = sol
        full = z3.And(kt >= 0, kt < n, *side, z3.substitute(ct, (k, kt)))
        full = z3.simplify(full)
        if isinstance(tgt, Col):
            def at(v, r):
                rt = zlift(r)[0]
                return subst(v, [(k, z3.substitute(kt, (q[0], rt)))])
            gc = lambda r: ret(z3.substitute(full, (q[0], zlift(r)[0])))
            return gc, (lambda r: at(sub(a(r)), r)), (lambda r: at(sub(b(r)), r)), rebind, ct

        def kv(idx):
            return z3.substitute(kt, *[(x, zlift(i)[0]) for x, i in zip(q, idx)])
        gc = lambda idx: ret(z3.substitute(full, *[(x, zlift(i)[0]) for x, i in zip(q, idx)]))
        return gc, (lambda idx: subst(sub(a(idx)), [(k, kv(idx))])), None, False, ct

    def check_reads(self, gens, paths, sub, bad):
        """no iteration reads what an earlier iteration wrote"""
        c = ctx()
        k, n = self.k, self.n.t
        j = z3.Int('j#' + self.k.decl().name())
        done = set()
        for p in paths:
            for tgt, idx, pc in p['reads']:
                for t2, gen in gens:
                    if t2 is not tgt:
                        continue
                    q = [z3.Int(f'q#{i}') for i in range(len(idx))]
                    it = [sub(zlift(i)[0]) for i in idx]
                    for g in gen:
                        ct = g[4]
                        key = (tuple(x.get_id() for x in it), ct.get_id(), id(tgt))
                        if key in done:
                            continue
                        done.add(key)
                        wj = z3.substitute(ct, (k, j), *zip(q, it))
                        bad_ = z3.And(j >= 0, j < k, k < n, z3.substitute(ct, (k, j)) if False else wj)
                        pcs = [sub(f) for f in pc]
                        if c.feasible(z3.simplify(z3.And(bad_, *pcs))):
                            raise Unsupported('iteration may read what an earlier iteration wrote')


class GLoop:
    """loop over a fixed list of items, each present under a condition (for x in xs == if g1: body(x1); if g2: body(x2) ...)"""
    native = False

    def __init__(self, it, loc):
        self.loc = loc
        self.todo = it.guarded()
        self.m = None
        self.cur = {}
        self.names = ()

    def step(self, loc):
        if self.m is not None:
            m = self.m
            if not m.native:
                m.leave(loc)
                m.step(loc)             # the side without the item
                m.leave(dict(m.l0))
                m.step(loc)
                self.cur.update(m.res)
            else:
                self.cur.update({n: loc.get(n, UNB) for n in self.names})
            self.m = None
        elif not self.cur:
            self.l0 = dict(loc)
        while self.todo:
            g, v = self.todo.pop(0)
            m = MIf(g, f'{self.loc}#{len(self.todo)}')
            if m.native and not m.side:
                continue
            self.m = m
            base = dict(self.l0)
            base.update({n: x for n, x in self.cur.items() if x is not UNB})
            m.step(base)
            self.raw = v
            return True
        return False

    def restore(self, names):
        self.names = names
        self.item = self.raw.resolve() if hasattr(self.raw, 'resolve') else self.raw
        if self.m.native:
            return tuple(self.cur.get(n, self.l0.get(n, UNB)) for n in names)
        return self.m.restore(names)

    def exc(self, e):
        if isinstance(e, Unsupported) or self.m is None or self.m.native:
            raise e
        self.m.exc(e)

    def brk(self):
        if not self.m.native:
            raise Unsupported('break in a loop over optional items')

    def ret(self, v):
        if not self.m.native:
            raise Unsupported('return in a loop over optional items')
        return v

    def result(self, names):
        return tuple(self.cur.get(n, self.l0.get(n, UNB)) for n in names)


class PartsLoop:
    """loop over several sequences one after the other"""
    native = False

    def __init__(self, it, loc):
        self.loc = loc
        self.todo = [SymIter(n, f) for n, f in it.parts()]
        self.cur, self.names = None, ()

    def step(self, loc):
        loc = dict(loc)
        while True:
            if self.cur is not None:
                self.now = loc
                if self.cur.step(loc):
                    return True
                if self.started and not self.cur.native:
                    loc.update(zip(self.names, self.cur.result(self.names)))
                loc = {n: v for n, v in loc.items() if v is not UNB}
            if not self.todo:
                self.last = loc
                return False
            self.cur, self.started = Loop(self.todo.pop(0), f'{self.loc}#{len(self.todo)}'), False

    def restore(self, names):
        self.names, self.started = names, True
        if self.cur.native:
            return tuple(self.now.get(n, UNB) for n in names)
        return self.cur.restore(names)

    item = property(lambda self: self.cur.item)

    def exc(self, e):
        return self.cur.exc(e)

    def brk(self):
        raise Unsupported('break in a loop over several sequences')

    def ret(self, v):
        return self.cur.ret(v)

    def result(self, names):
        return tuple(self.last.get(n, UNB) for n in names)


class WrapBase(tuple):
    loop = None


def conjuncts(t):
    if z3.is_and(t):
        out = []
        for x in t.children():
            out += conjuncts(x)
        return out
    return [t]


def solve_for(ct, k, q):
    """k as a function of q from an equation in the conjunction ct: (term, side conditions)"""
    c = ctx()
    for e in conjuncts(ct):
        if not z3.is_eq(e):
            continue
        l, r = e.children()
        if not z3.is_int(l):
            continue
        d = z3.simplify(l - r, som=True)
        parts = list(d.children()) if z3.is_add(d) else [d]
        kp = [x for x in parts if A._contains(x, k)]
        rest = [x for x in parts if not A._contains(x, k)]
        if len(kp) != 1 or not rest or not builtins.any(A._contains(x, y) for x in rest for y in q):
            continue
        x = kp[0]
        rhs = z3.IntVal(0)
        for y in rest:
            rhs = rhs - y
        sign = 1
        if z3.is_mul(x) and len(x.children()) == 2 and z3.is_int_value(x.arg(0)) and abs(x.arg(0).as_long()) == 1:
            if x.arg(0).as_long() == -1:
                rhs = -rhs
            x = x.arg(1)
        side = []
        rhs = z3.simplify(rhs)
        ok = True
        while not x.eq(k):
            if z3.is_app(x) and x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in c.inverse:
                mem, pos, argp = c.inverse[x.decl().name()](rhs, x)
                side.append(mem)
                x, rhs = x.arg(argp), pos
            elif z3.is_add(x):
                ks = [y for y in x.children() if A._contains(y, k)]
                if len(ks) != 1:
                    ok = False
                    break
                for y in x.children():
                    if not A._contains(y, k):
                        rhs = rhs - y
                x = ks[0]
            else:
                ok = False
                break
        if ok:
            return z3.simplify(rhs), side
    return None


class WLoop:
    """while loop: native as long as its test is a concrete value, otherwise abstracted by its last iteration: the loop ends before its
    first iteration, or after one iteration from an arbitrary state (every variable assigned and every array reachable from a local
    variable is arbitrary, with its shape and kind) in which the test held"""
    def __init__(self, loc):
        self.loc = loc
        self.phase = 0
        self.count = 0
        self.again = False
        self.env = None
        self.names = ()
        self.serial = A.next_serial()

    def step(self, loc):
        self.count += 1
        if self.count > 64:
            raise Unsupported('while loop without bound')
        self.l0 = loc
        return True

    def restore(self, names):
        fl = sys._getframe(1).f_locals
        self.names = names
        if self.env is not None:
            env, self.env = self.env, None
            return tuple(env.get(n, UNB) for n in names)
        return tuple(fl.get(n, UNB) for n in names)

    def result(self, names):
        fl = sys._getframe(1).f_locals
        return tuple(fl.get(n, UNB) for n in names)

    def test(self, t):
        self.again = False
        b = lazy_bool(t)
        c = ctx()
        if self.phase == 0:
            if isinstance(b, bool):
                return b
            if not c.decide(b):
                return False
            self.havoc()
            self.again = True
            return True
        bs = zb(b) if isinstance(b, S) else z3.BoolVal(b) if isinstance(b, bool) else b
        if self.phase == 1:
            self.take(bs)
            self.phase = 2
            return True
        self.check()
        self.take(z3.Not(bs))
        return False

    def take(self, b):
        c = ctx()
        b = z3.simplify(b)
        if z3.is_false(b) or not c.feasible(b):
            raise Infeasible()
        c.assume(S_(b))

    def havoc(self):
        c = ctx()
        self.phase = 1
        self.mark = c.mark()
        self.locs, self.env = {}, {}
        for n, v in self.l0.items():
            if n.startswith('_pvt_'):
                continue
            if isinstance(v, Arr):
                if n in self.names:
                    if v.view is not None:
                        v = Arr(v.aval())
                    self.env[n] = v = Arr(None, None, v.loc)
                self.fuzz(v.loc, n)
            elif n in self.names:
                self.env[n] = self.fuzz_value(v, n)
            elif isinstance(v, (list, dict, set)) and any(not is_num(x) and not isinstance(x, str) for x in v):
                raise Unsupported('container in scope of a while loop with a symbolic test')
        self.kinds = {n: self.kind(v) for n, v in self.env.items()}
        self.alias = self.aliases({**self.l0, **self.env})

    @staticmethod
    def kind(v):
        if isinstance(v, Arr):
            av = v.aval()
            return ('arr', av.dt, av.shape)
        if isinstance(v, S):
            return str(v.t.sort())
        return type(v)

    def aliases(self, env):
        by = {}
        for n, v in env.items():
            if isinstance(v, Arr) and not n.startswith('_pvt_'):
                by.setdefault(id(v.loc), set()).add(n)
        return {frozenset(x) for x in by.values() if len(x) > 1}

    def fuzz(self, loc, n):
        if id(loc) in self.locs:
            return
        self.locs[id(loc)] = loc
        old = loc.get()
        f = ctx().fresh_fn('loop_' + n, *([INT] * old.ndim + [{'f': REAL, 'i': INT, 'b': BOOL}[old.dt]]))
        loc.put(AVal(old.shape, lambda idx: S_(f(*[zlift(i)[0] for i in idx])), old.dt))

    def fuzz_value(self, v, n):
        if isinstance(v, (bool, np.bool_)):
            srt = BOOL
        elif isinstance(v, (int, np.integer)):
            srt = INT
        elif isinstance(v, (float, np.floating)):
            srt = REAL
        elif isinstance(v, S):
            srt = v.t.sort()
        else:
            raise Unsupported('variable of a while loop with a symbolic test')
        return S_(ctx().fresh_fn('loop_' + n, srt)())

    def check(self):
        fl = self.l0
        for o, _ in ctx().changed(self.mark).values():
            if not (isinstance(o, A.LocalLoc) and (id(o) in self.locs or o.serial > self.serial)):
                raise Unsupported('state changed by a while loop with a symbolic test')
        for n, k in self.kinds.items():
            j = self.kind(fl.get(n, UNB))
            if isinstance(k, tuple):
                ok = isinstance(j, tuple) and j[1] == k[1] and len(j[2]) == len(k[2]) and builtins.all(
                    A.prove(A.eqi(x, y)) for x, y in zip(j[2], k[2]))
            else:
                ok = j == k
            if not ok:
                raise Unsupported('kind or shape of a variable changed by a while loop with a symbolic test')
        if self.aliases(fl) - self.alias:
            raise Unsupported('arrays aliased by a while loop with a symbolic test')

    def exc(self, e):
        raise e

    def brk(self):
        pass

    def ret(self, v):
        return v


def map_k(n, fn, pure=True):
    """value function k -> fn(k) evaluated once on a generic k; (value fn, list of raise conditions)"""
    L = Loop(SymIter(n, lambda k: k), 'comp')
    if L.native:
        return lambda kk: UNB
    L.l0 = {}
    L.started = True
    L.names = ()
    L.start()
    while True:
        try:
            v = fn(L.item)
        except Unsupported:
            raise
        except Exception as e:
            L.record('raise', None, e)
            if not L.advance():
                break
            continue
        L.record('next', {'_v': v})
        if not L.advance():
            break
    nxt = [p for p in L.paths if p['kind'] == 'next']
    if not nxt:
        return lambda kk: UNB
    v = nxt[-1]['loc']['_v']
    for p in reversed(nxt[:-1]):
        v = merge(p['cond'], p['loc']['_v'], v)
    if pure and builtins.any(L.writes_of(p) for p in nxt):
        raise Unsupported('comprehension with side effects')
    if isinstance(v, Arr):
        v = v.aval()
    k = L.k
    return lambda kk: subst(v, [(k, zlift(kk)[0])]) if not isinstance(v, AVal) else Arr(subst(v, [(k, zlift(kk)[0])]))


# ------------------------------------------------------------------ the API used by instrumented code
class RT:
    mif = staticmethod(lambda test, loc: MIf(test, loc))
    loop = staticmethod(lambda it, loc: GLoop(it, loc) if hasattr(it, 'guarded') else PartsLoop(it, loc) if hasattr(it, 'parts') else Loop(it, loc))
    wloop = staticmethod(lambda loc: WLoop(loc))
    truth = staticmethod(truth)

    def __init__(self):
        self.b_isinstance = self._isinstance

    # ---- stores
    @staticmethod
    def unpack(v, n):
        if isinstance(v, (tuple, list)):
            if len(v) != n:
                raise ValueError('unpack')
            return v
        if isinstance(v, Arr):
            if isinstance(v.shape[0], S):
                if not bool(v.shape[0] == n):
                    raise ValueError('unpack')
            elif v.shape[0] != n:
                raise ValueError('unpack')
            return tuple(v[i] for i in builtins.range(n))
        return v

    @staticmethod
    def setattr_(obj, name, v):
        if isinstance(obj, (Row, Arr)) or not hasattr(obj, '__dict__') and not isinstance(obj, dict):
            builtins.setattr(obj, name, v)
            return
        if isinstance(obj, SymRing):
            raise Unsupported('lattice attribute assignment')
        native(obj)
        builtins.setattr(obj, name, v)

    @staticmethod
    def new(x):
        c = ctx()
        if c.loops and isinstance(x, (dict, list, set)):
            c.created[id(x)] = (x, c.loops[-1].serial)
        return x

    @staticmethod
    def setitem(obj, key, v):
        if isinstance(obj, np.ndarray):
            raise Unsupported('assignment into a native array')
        if isinstance(obj, (list, dict)):
            native(obj)
            if isinstance(obj, list) and isinstance(key, S):
                key = int(key)
        obj[key] = v

    @staticmethod
    def getitem(obj, key):
        if isinstance(obj, np.ndarray) and A.has_sym(key):
            return A.wrap(obj)[key]
        if isinstance(obj, NZ):
            obj = obj.arr()
        if isinstance(obj, (list, tuple)):
            if isinstance(key, Arr):
                key = key.scalar0()
            if isinstance(key, S):
                cv = const_val(z3.simplify(key.t))
                if cv is not None:
                    return obj[int(cv)]
                r = None
                n = len(obj)
                if not ctx().entails(z3.And(key.t >= 0, key.t < n)):
                    raise Unsupported('symbolic list index')
                for i in builtins.range(n - 1, -1, -1):
                    r = obj[i] if r is None else ite(key == i, obj[i], r)
                return r
            if isinstance(key, slice):
                return obj[conc_slice(key)]
        if isinstance(obj, str) and isinstance(key, slice):
            return obj[conc_slice(key)]
        if isinstance(obj, dict) and isinstance(key, (S, SymStr)):
            return dict_get(obj, key)
        return obj[key]

    @staticmethod
    def augitem(obj, key, op, v):
        cur = RT.getitem(obj, key)
        if isinstance(cur, Arr) and isinstance(obj, Arr):
            new = iop(op, cur, v)
            if not (isinstance(new, Arr) and new.loc is obj.loc):
                RT.setitem(obj, key, new)
            return
        new = iop(op, cur, v)
        RT.setitem(obj, key, new)

    @staticmethod
    def augattr(obj, name, op, v):
        cur = builtins.getattr(obj, name)
        new = iop(op, cur, v)
        RT.setattr_(obj, name, new)

    @staticmethod
    def iop(op, x, v):
        return iop(op, x, v)

    @staticmethod
    def delitem(obj, key):
        if isinstance(obj, (list, dict)):
            native(obj)
        del obj[key]

    @staticmethod
    def mcall(obj, name, *args, **kw):
        if isinstance(obj, (list, dict, set)):
            native(obj)
            if name in ('extend', 'update') and args and sym_iter(args[0]) is not None:
                raise Unsupported('extend with a symbolic sequence')
        return builtins.getattr(obj, name)(*args, **kw)

    # ---- logic
    @staticmethod
    def and_(a, *rest):
        for f in rest:
            b = lazy_bool(a)
            if b is False:
                return a
            if b is True:
                a = f()
                continue
            c = ctx()
            nb = f_guarded(f, b)
            if nb is FORK:
                if not c.decide(b):
                    return a
                a = f()
                continue
            a = mk_and(S_(b), nb)
        return a

    @staticmethod
    def or_(a, *rest):
        for f in rest:
            b = lazy_bool(a)
            if b is True:
                return a
            if b is False:
                a = f()
                continue
            c = ctx()
            nb = f_guarded(f, z3.Not(b))
            if nb is FORK:
                if c.decide(b):
                    return a
                a = f()
                continue
            a = mk_or(S_(b), nb)
        return a

    @staticmethod
    def not_(x):
        b = lazy_bool(x)
        return (not b) if isinstance(b, bool) else S_(z3.simplify(z3.Not(b)))

    @staticmethod
    def ifexp(t, fa, fb, loc):
        m = MIf(t, loc)
        if m.native:
            return fa() if m.side else fb()
        vals = []
        m.names = ()
        while m.step({}):
            try:
                v = fa() if m.side else fb()
            except Unsupported:
                raise
            except Exception as e:
                m.exc(e)
            vals.append(v)
            m.leave({})
        ctx().merge_site = loc
        try:
            return merge(m.b, vals[0], vals[1])
        except MergeError:
            ctx().nomerge.add(loc)
            raise Restart()

    @staticmethod
    def in_(x, cont):
        if isinstance(cont, SymRing):
            raise Unsupported('membership in a lattice')
        if isinstance(cont, (Arr, NZ, SymList)):
            if isinstance(x, Arr) and x.ndim == 0:
                x = x.scalar0()
            return A.contains(cont, x)
        if hasattr(cont, '_contains'):
            return cont._contains(x)
        if isinstance(cont, np.ndarray) and isinstance(x, S):
            return A.contains(cont, x)
        if isinstance(x, (S, SymStr)):
            if isinstance(cont, str):
                if isinstance(x, SymStr):
                    return x.pred(lambda s: s in cont)
            its = list(cont)
            return mk_or(*[x == i for i in its]) if its else False
        if isinstance(cont, SymStr):
            return cont.pred(lambda s: x in s)
        if isinstance(cont, (list, tuple)) and A.has_sym(cont):
            return mk_or(*[x == i for i in cont])
        return x in cont

    @staticmethod
    def eq(a, b):
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and (A.has_sym(a) or A.has_sym(b)):
            if len(a) != len(b) or type(a) is not type(b):
                return False
            return mk_and(*[RT.eq(x, y) for x, y in zip(a, b)]) if a else True
        return a == b

    @staticmethod
    def ne(a, b):
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and (A.has_sym(a) or A.has_sym(b)):
            return mk_not(RT.eq(a, b))
        return a != b

    @staticmethod
    def chain(ops, vals):
        r = True
        for o, a, b in zip(ops, vals, vals[1:]):
            if o == 'in':
                v = RT.in_(a, b)
            elif o == 'not in':
                v = RT.not_(RT.in_(a, b))
            elif o == 'is':
                v = a is b
            elif o == 'is not':
                v = a is not b
            else:
                v = {'<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge, '==': operator.eq,
                     '!=': operator.ne}[o](a, b)
            r = v if r is True else mk_and(r, v)
        return r

    @staticmethod
    def comp(kind, it, fn, cond, nunpack):
        si = sym_iter(it)
        if si is None:
            out = []
            for x in py_iter(it):
                args = RT.unpack(x, nunpack) if nunpack else (x,)
                if cond is not None and not truth(cond(*args)):
                    continue
                out.append(fn(*args))
            return out if kind == 'list' else (set(out) if kind == 'set' else dict(out))
        if kind != 'list':
            raise Unsupported('comprehension over a symbolic sequence')

        def call(f):
            def g(k):
                x = si.item(k)
                args = RT.unpack(x, nunpack) if nunpack else (x,)
                return f(*args)
            return g
        if cond is None:
            return SymList(si.n, map_k(si.n, call(fn)))
        bf = map_k(si.n, lambda k: S_(zb(call(cond)(k))))
        probe = S_(A.fresh_k())
        memf = lambda x: mk_and(x >= 0, x < si.n, bf(x))
        nz = A.new_seq(ctx().fresh('filt'), memf, is_sorted=True, bound=si.n)
        m = nz.shape[0]
        vf = map_k(m, lambda k: call(fn)(nz((k,))))
        # the elements themselves form a known sequence when they are the positions or the items
        v = vf(probe)
        av = None
        if isinstance(v, S) and v.kind == 'i':
            if v.t.eq(zlift(nz((probe,)))[0]):
                av = nz
            elif z3.is_app(v.t) and v.t.num_args() == 1 and v.t.arg(0).eq(zlift(nz((probe,)))[0]) and \
                    v.t.decl().name() in ctx().inverse:
                d = v.t.decl()
                inv = ctx().inverse[d.name()]

                def member(x):
                    mem, pos, _ = inv(zlift(x)[0], v.t)
                    return mk_and(S_(mem), memf(S_(pos)))

                def pos(x):
                    _, pp, _ = inv(zlift(x)[0], v.t)
                    return nz.seq.pos(S_(pp))
                sq = A.Seq(m, lambda i: S_(d(zlift(nz((i,)))[0])), pos, member, True, False)
                av = AVal((m,), lambda idx: sq.at(idx[0]), 'i', sq)
        return SymList(m, vf if av is None else (lambda k: av((k,))), av)

    @staticmethod
    def fmt(v, spec, conv):
        if isinstance(v, (S, Arr, SymStr, SymList, Row, NZ)) or A.has_sym(v):
            if isinstance(v, SymStr) and not spec and conv == -1:
                return v
            return '<sym>'
        if conv == 114:
            v = repr(v)
        elif conv == 115:
            v = str(v)
        try:
            return format(v, spec if isinstance(spec, str) else '')
        except Exception:
            return '<val>'

    @staticmethod
    def fstr(*parts):
        r = ''
        for p in parts:
            r = r + p
        return r

    # ---- builtins
    @staticmethod
    def b_len(x):
        if isinstance(x, SymRing):
            return x.n
        if isinstance(x, SymIter):
            return x.n
        if isinstance(x, NZ):
            x = x.arr()
        if isinstance(x, Arr):
            if x.ndim == 0:
                raise TypeError('len() of unsized object')
            return x.shape[0]
        if hasattr(x, '_len'):
            return x._len()
        return len(x)

    @staticmethod
    def b_range(*a):
        a = [x.scalar0() if isinstance(x, Arr) else x for x in a]
        a = [norm(simp(x)) if isinstance(x, S) else x for x in a]
        if not builtins.any(isinstance(x, S) for x in a):
            return range(*[int(x) for x in a])
        if len(a) == 3:
            raise Unsupported('range step')
        lo, hi = (0, a[0]) if len(a) == 1 else a
        n = hi - lo if not (isinstance(lo, int) and lo == 0) else hi
        if not A.prove(n >= 0):
            n = ite(n >= 0, n, 0)
        nn = n
        seq = A.Seq(nn, lambda i: lo + i, lambda x: x - lo, lambda x: mk_and(x >= lo, x < hi), True, True)
        av = AVal((nn,), lambda idx: lo + idx[0] if not (isinstance(lo, int) and lo == 0) else idx[0], 'i', seq)
        return SymList(nn, lambda k: av((k,)), av)

    @staticmethod
    def b_enumerate(x, start=0):
        si = sym_iter(x)
        if si is None:
            return enumerate(list(py_iter(x)), start)
        return SymIter(si.n, lambda k: (k + start if start else k, si.item(k)))

    @staticmethod
    def b_zip(*xs):
        sis = [sym_iter(x) for x in xs]
        if builtins.all(s is None for s in sis):
            return zip(*[list(py_iter(x)) for x in xs])
        if builtins.any(s is None for s in sis):
            raise Unsupported('zip of native and symbolic sequences')
        n = sis[0].n
        for s in sis[1:]:
            n = A.smin(n, s.n)
        return SymIter(n, lambda k: tuple(s.item(k) for s in sis))

    def _isinstance(self, x, t):
        ts = t if isinstance(t, tuple) else (t,)
        for q in ts:
            if q is Arr or q is np.ndarray:
                if isinstance(x, (Arr, np.ndarray)):
                    return True
            elif isinstance(x, S):
                k = x.kind
                if (q is float and k == 'f') or (q is int and k in 'ib') or (q is bool and k == 'b') or \
                        (q in (np.floating, np.float64) and k == 'f') or (q in (np.integer, np.int64) and k == 'i') or \
                        (q is np.number and k in 'fi') or q is object:
                    return True
            elif isinstance(x, SymStr):
                if q is str:
                    return True
            elif isinstance(x, SymList):
                if q is list:
                    return True
            elif isinstance(q, type) and isinstance(x, q):
                return True
        return False

    @staticmethod
    def b_abs(x):
        return abs(x)

    @staticmethod
    def b_max(*a, **k):
        return extremum(a, k, 1)

    @staticmethod
    def b_min(*a, **k):
        return extremum(a, k, -1)

    @staticmethod
    def b_sum(x, start=0):
        si = sym_iter(x)
        if si is not None:
            return A.NP.sum(x if isinstance(x, Arr) else Arr(toaval(x)))
        r = start
        for v in py_iter(x):
            r = r + v
        return r

    @staticmethod
    def b_any(x):
        si = sym_iter(x)
        if si is not None:
            return A.Exists(si.n, lambda k: si.item(k))
        xs = list(py_iter(x))
        return mk_or(*xs) if A.has_sym(xs) else any(xs)

    @staticmethod
    def b_all(x):
        si = sym_iter(x)
        if si is not None:
            return A.Forall(si.n, lambda k: si.item(k))
        xs = list(py_iter(x))
        return mk_and(*xs) if A.has_sym(xs) else all(xs)

    @staticmethod
    def b_hasattr(o, n):
        if isinstance(o, Row):
            if isinstance(n, SymStr):
                raise Unsupported('symbolic attribute name')
            return o._has(n)
        return hasattr(o, n)

    @staticmethod
    def b_getattr(o, n, *d):
        if isinstance(n, SymStr):
            raise Unsupported('symbolic attribute name')
        if isinstance(o, Row) and d:
            p = o._has(n)
            if p is False:
                return d[0]
            if p is not True and not bool(p):
                return d[0]
        return getattr(o, n, *d)

    @staticmethod
    def b_setattr(o, n, v):
        if isinstance(n, SymStr):
            raise Unsupported('symbolic attribute name')
        RT.setattr_(o, n, v)

    @staticmethod
    def b_delattr(o, n):
        if not isinstance(o, Row):
            native(o)
        delattr(o, n)

    @staticmethod
    def b_int(x=0, *a):
        if isinstance(x, Arr):
            x = x.scalar0()
        return A.cast(x, int) if isinstance(x, S) else int(x, *a)

    @staticmethod
    def b_float(x=0.0):
        if isinstance(x, Arr):
            x = x.scalar0()
        return A.cast(x, float) if isinstance(x, S) else float(x)

    @staticmethod
    def b_bool(x=False):
        b = lazy_bool(x)
        return b if isinstance(b, bool) else S_(b)

    @staticmethod
    def b_complex(*a):
        return complex(*a)

    @staticmethod
    def b_list(x=()):
        si = sym_iter(x)
        if si is not None:
            return SymList(si.n, si.item, toaval(x) if isinstance(x, (Arr, SymList)) and not isinstance(x, SymIter) else None)
        return list(py_iter(x))

    @staticmethod
    def b_tuple(x=()):
        if sym_iter(x) is not None:
            return RT.b_list(x)
        return tuple(py_iter(x))

    @staticmethod
    def b_set(x=()):
        if sym_iter(x) is not None:
            raise Unsupported('set of a symbolic sequence')
        return set(py_iter(x))

    @staticmethod
    def b_sorted(x, **k):
        if sym_iter(x) is not None:
            a = toaval(x)
            if k:
                raise Unsupported('sorted')
            if a.seq is not None and a.seq.distinct:
                return SymList(a.shape[0], None, A.NP.unique(Arr(a)).aval())
            raise Unsupported('sorted')
        return sorted(py_iter(x), **k)

    @staticmethod
    def b_reversed(x):
        si = sym_iter(x)
        if si is not None:
            return SymIter(si.n, lambda k: si.item(si.n - 1 - k))
        return reversed(list(py_iter(x)))

    @staticmethod
    def b_map(f, *xs):
        if builtins.any(sym_iter(x) is not None for x in xs):
            si = sym_iter(RT.b_zip(*xs))
            return SymList(si.n, map_k(si.n, lambda k: f(*si.item(k))))
        return map(f, *[list(py_iter(x)) for x in xs])

    @staticmethod
    def b_filter(f, x):
        if sym_iter(x) is not None:
            return RT.comp('list', x, lambda v: v, f if f is not None else (lambda v: v), 0)
        return filter(f, list(py_iter(x)))

    @staticmethod
    def b_print(*a, **k):
        return None

    @staticmethod
    def b_round(x, *a):
        if isinstance(x, S):
            raise Unsupported('round')
        return round(x, *a)

    b_dict = staticmethod(dict)
    b_divmod = staticmethod(divmod)
    b_callable = staticmethod(callable)
    b_vars = staticmethod(vars)
    b_iter = staticmethod(lambda x, *a: iter(x, *a) if a else py_iter(x))
    b_next = staticmethod(next)
    b_pow = staticmethod(lambda x, y, *a: x ** y if not a else pow(x, y, *a))

    @staticmethod
    def b_str(x=''):
        if isinstance(x, (S, Arr)):
            return '<sym>'
        return x if isinstance(x, SymStr) else str(x)

    @staticmethod
    def b_type(x, *a):
        if isinstance(x, S):
            return {'f': float, 'i': int, 'b': bool}[x.kind]
        if isinstance(x, SymStr):
            return str
        return type(x, *a) if a else type(x)


FORK = object()


def f_guarded(f, guard):
    """truth value of f() evaluated under guard, FORK when it must not be evaluated otherwise"""
    c = ctx()
    base, mark = len(c.pc), c.mark()
    pos = c.expl[-1].pos if c.expl else 0
    c.pc.append(guard)
    try:
        v = f()
        b = lazy_bool(v)
    except Unsupported:
        raise
    except Exception:
        c.rollback(mark)
        c.cut(base)
        return FORK
    xs = c.cut(base)[1:]
    if len(c.trail) != mark[0]:
        c.rollback(mark)
        return FORK
    for x, d in xs:
        if d:
            c.dec.add(len(c.pc))
        c.pc.append(z3.Implies(guard, x))
    return b if isinstance(b, bool) else S_(b)


def conc_slice(s):
    def g(x):
        if isinstance(x, Arr):
            x = x.scalar0()
        return int(x) if isinstance(x, S) else x
    return slice(g(s.start), g(s.stop), g(s.step))


def dict_get(obj, key):
    items = list(obj.items())
    c = ctx()
    for k, v in items:
        e = (key == k)
        if e is True or (e is not False and bool(e)):
            return v
    raise KeyError('symbolic key')


OPF = {'+': operator.iadd, '-': operator.isub, '*': operator.imul, '/': operator.itruediv, '//': operator.ifloordiv,
       '%': operator.imod, '**': operator.ipow, '&': operator.iand, '|': operator.ior, '^': operator.ixor,
       '@': operator.imatmul}


def iop(op, x, v):
    if isinstance(x, np.ndarray) and A.has_sym(v):
        raise Unsupported('in-place operation on a native array')
    if isinstance(x, list):
        native(x)
    return OPF[op](x, v)


def extremum(a, k, sgn):
    if k:
        if A.has_sym(a):
            raise Unsupported('max/min options')
        return (max if sgn > 0 else min)(*a, **k)
    xs = a
    if len(a) == 1:
        si = sym_iter(a[0])
        if si is not None:
            return A.NP._ext(a[0] if isinstance(a[0], Arr) else Arr(toaval(a[0])), None, sgn)
        xs = list(py_iter(a[0]))
    if not A.has_sym(xs):
        return (max if sgn > 0 else min)(xs)
    r = xs[0]
    for v in xs[1:]:
        # python semantics: keep the earlier one on ties
        r = ite(v > r, v, r) if sgn > 0 else ite(v < r, v, r)
    return r


PV = RT()
