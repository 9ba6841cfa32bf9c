"""Symbolic heap: lattices with any number of elements (one column per attribute) and uncertainty tables."""
import copy
import z3
import numpy as np
from .core import (S, S_, ctx, Unsupported, MergeError, SymStr, is_num, zlift, zb, ite, merge, mk_and, mk_or, mk_not, ret,
                   norm, simp, uf, REAL, INT, BOOL, const_val)
from . import arr as A
from .arr import Arr, AVal, LocalLoc, toaval


# ------------------------------------------------------------------ kinds of attributes
REAL_K, INT_K, BOOL_K = ('real',), ('int',), ('bool',)


def vec(n=None, lo=0):
    return ('vec', n, lo)


def mat(n, m):
    return ('mat', n, m)


def string(*dom):
    return ('str', dom)


PASS = ('DriftPass', 'RFCavityPass', 'IdentityPass', 'CorrectorPass', 'BndMPoleSymplectic4Pass', 'BndMPoleSymplectic4E2Pass',
        'StrMPoleSymplectic4Pass', 'BndMPoleSymplectic4RadPass', 'BndMPoleSymplectic4E2RadPass',
        'StrMPoleSymplectic4RadPass', 'CavityPass', 'OtherPass')

KINDS = dict(Length=REAL_K, PassMethod=string(*PASS), BendingAngle=REAL_K, PolynomA=vec(lo=1), PolynomB=vec(lo=1),
             SetPointA=vec(lo=1), SetPointB=vec(lo=1), NomPolynomA=vec(lo=1), NomPolynomB=vec(lo=1), CalErrorA=vec(lo=1),
             CalErrorB=vec(lo=1), PolynomAOffset=vec(lo=1), PolynomBOffset=vec(lo=1), BendingAngleError=REAL_K,
             CombinedFunction=BOOL_K, SkewQuadLimit=REAL_K, CMlimit=vec(2), KickAngle=vec(2), MaxOrder=INT_K,
             MagnetOffset=vec(3), MagnetRoll=vec(3), SupportOffset=vec(3), SupportRoll=vec(3), T1=vec(6), T2=vec(6),
             R1=mat(6, 6), R2=mat(6, 6), Noise=vec(2), NoiseCO=vec(2), Offset=vec(2), Roll=REAL_K, CalError=vec(2),
             SumError=REAL_K, EApertures=vec(2), RApertures=vec(4), MasterOf=('ilist', 2), FamName=('opaque',))
for _p in ('Voltage', 'Frequency', 'TimeLag'):
    for _s in ('', 'SetPoint', 'Offset', 'CalError'):
        KINDS[_p + _s] = REAL_K
for _t in ('Section', 'Plinth', 'Girder'):
    KINDS[_t + 'Offset'] = vec(3)
    KINDS[_t + 'Roll'] = vec(3)
for _t in 'AB':
    for _s in 'AB':
        KINDS[f'SysPol{_t}From{_s}'] = ('sysdict',)
CONV_ARR = {'PolynomA', 'PolynomB', 'T1', 'T2', 'R1', 'R2', 'KickAngle', 'EApertures', 'RApertures'}
CONV_REAL = {'Length', 'BendingAngle', 'Voltage', 'Frequency', 'TimeLag'}
ALWAYS = {'Length', 'PassMethod', 'FamName'}


class SymTab:
    """table {integer: array} as a sequence of guarded entries, later ones win"""
    def __init__(self, entries=()):
        self.entries = tuple(entries)       # (condition, key, AVal)

    @staticmethod
    def of(v):
        if isinstance(v, SymTab):
            return v
        if isinstance(v, TabRef):
            return v.get()
        if isinstance(v, dict):
            return SymTab([(True, k, toaval(x)) for k, x in v.items()])
        raise Unsupported('table')

    def set(self, k, v):
        return SymTab(self.entries + ((True, k, toaval(v)),))

    def has(self, k):
        return mk_or(*[mk_and(c, A.eqi(q, k)) for c, q, _ in self.entries]) if self.entries else False

    def lookup(self, k):
        cur = None
        for c, q, v in self.entries:
            e = mk_and(c, A.eqi(q, k))
            if e is False:
                continue
            cur = v if e is True or cur is None else ite(e, v, cur)
        if cur is None:
            raise KeyError('table entry')
        return cur

    def keys(self):
        ks = []
        for c, q, _ in self.entries:
            if c is not True:
                raise Unsupported('keys of a guarded table')
            for o in ks:
                if not A.prove(mk_not(A.eqi(q, o))):
                    if A.prove(A.eqi(q, o)):
                        break
                    raise Unsupported('keys of a table that may coincide')
            else:
                ks.append(q)
        return ks

    def _subst(self, pairs):
        return SymTab([(subst(c, pairs), subst(k, pairs), subst(v, pairs)) for c, k, v in self.entries])

    @staticmethod
    def _merge(ct, a, b):
        a, b = SymTab.of(a), SymTab.of(b)
        n = 0
        while n < len(a.entries) and n < len(b.entries) and a.entries[n] is b.entries[n]:
            n += 1
        if n < len(a.entries) and n < len(b.entries) and len(a.entries) == len(b.entries) and n == 0 and \
                all(keq(x[1], y[1]) and x[0] is True and y[0] is True for x, y in zip(a.entries, b.entries)):
            return SymTab([(True, x[1], merge(ct, x[2], y[2])) for x, y in zip(a.entries, b.entries)])
        cs, nc = S_(ct), S_(z3.simplify(z3.Not(ct)))
        return SymTab(a.entries[:n] + tuple((mk_and(cs, c), k, v) for c, k, v in a.entries[n:]) +
                      tuple((mk_and(nc, c), k, v) for c, k, v in b.entries[n:]))


def keq(a, b):
    e = A.eqi(a, b)
    return e is True


class TabRef:
    """reference to the table attribute of one element"""
    def __init__(self, col, row):
        self.col, self.row = col, row

    def get(self):
        return self.col.get().lookup(self.row)[1]()

    def keys(self):
        return self.get().keys()

    def items(self):
        t = self.get()
        return [(k, Arr(t.lookup(k))) for k in t.keys()]

    def values(self):
        return [v for _, v in self.items()]

    def __iter__(self):
        return iter(self.keys())

    def _len(self):
        return len(self.keys())

    def _contains(self, k):
        return self.get().has(k)

    def __contains__(self, k):
        h = self.get().has(k)
        return h if isinstance(h, bool) else bool(h)

    def __getitem__(self, k):
        t = self.get()
        h = t.has(k)
        if h is not True and not bool(h):
            raise KeyError(k)
        return Arr(t.lookup(k))

    def __setitem__(self, k, v):
        t = self.get().set(k, v)
        if isinstance(v, Arr):
            v.loc.publish(self.col.attr, self.col.ring)
        self.col.write(self.row, lambda r: True, lambda r: t, rebind=False)

    def copy(self):
        return TabVal(self.get())

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    @staticmethod
    def _merge(ct, a, b):
        raise MergeError('table reference')


class TabVal(TabRef):
    """a table that is not stored in a lattice"""
    def __init__(self, tab):
        self.tab = tab

    def get(self):
        return self.tab

    def __setitem__(self, k, v):
        ctx().log(self, self.tab)
        self.tab = self.tab.set(k, v)

    def _get_state(self):
        return self.tab

    def _set_state(self, t):
        self.tab = t

    def _merge_state(self, ct, entry, a, b):
        return a if a is b else SymTab._merge(ct, a, b)


class Opaque:
    def __init__(self, name, row=None):
        self.name, self.row = name, row

    def same(self, o):
        if self is o:
            return True
        if not isinstance(o, Opaque) or self.name != o.name or self.row is None or o.row is None:
            return False
        return ret(self.row == o.row)

    def __format__(self, spec):
        return self.name

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)


def leaf(name, attr, kind):
    """(presence fn, value fn) of an unconstrained column"""
    c = ctx()
    if attr in ALWAYS:
        pres = lambda r: True
    else:
        P = uf(f'{name}.{attr}?', INT, BOOL)
        c.row_decls.add(P.name())
        pres = lambda r: S_(P(zlift(r)[0]))

    k = kind[0]
    if k in ('real', 'int', 'bool'):
        F = uf(f'{name}.{attr}', INT, {'real': REAL, 'int': INT, 'bool': BOOL}[k])
        c.row_decls.add(F.name())
        val = lambda r: S_(F(zlift(r)[0]))
    elif k == 'str':
        F = uf(f'{name}.{attr}', INT, INT)
        c.row_decls.add(F.name())
        dom = {SymStr.code(s): s for s in kind[1]}
        c.inst.setdefault(F.name(), []).append(lambda r: [z3.Or(*[F(r) == d for d in dom])])
        val = lambda r: SymStr(F(zlift(r)[0]), dom)
    elif k == 'vec':
        E = uf(f'{name}.{attr}', INT, INT, REAL)
        c.row_decls.add(E.name())
        if kind[1] is not None:
            ln = lambda r: kind[1]
        else:
            Ln = uf(f'{name}.len.{attr}', INT, INT)
            c.row_decls.add(Ln.name())
            lo = kind[2]
            c.inst.setdefault(Ln.name(), []).append(lambda r: [Ln(r) >= lo])
            ln = lambda r: S_(Ln(zlift(r)[0]))

        def val(r):
            rt = zlift(r)[0]
            return AVal((ln(r),), lambda idx: S_(E(rt, zlift(idx[0])[0])), 'f')
    elif k == 'mat':
        E = uf(f'{name}.{attr}', INT, INT, INT, REAL)
        c.row_decls.add(E.name())

        def val(r):
            rt = zlift(r)[0]
            return AVal(kind[1:], lambda idx: S_(E(rt, zlift(idx[0])[0], zlift(idx[1])[0])), 'f')
    elif k == 'ilist':
        E = uf(f'{name}.{attr}', INT, INT, INT)
        c.row_decls.add(E.name())

        def val(r):
            rt = zlift(r)[0]
            return AVal((kind[1],), lambda idx: S_(E(rt, zlift(idx[0])[0])), 'i')
    elif k == 'sysdict':
        K = uf(f'{name}.key.{attr}', INT, INT, INT)
        E = uf(f'{name}.{attr}', INT, INT, INT, REAL)
        Ln = uf(f'{name}.len.{attr}', INT, INT, INT)
        for f in (K, E, Ln):
            c.row_decls.add(f.name())
        c.inst.setdefault(Ln.name(), []).append(lambda r, j: [Ln(r, j) >= 1])
        m = kind[1] if len(kind) > 1 else 0
        c.inst.setdefault(K.name(), []).append(
            lambda r, j: [K(r, z3.IntVal(i)) != K(r, z3.IntVal(q)) for i in range(m) for q in range(i)] + [K(r, j) >= 0])

        def val(r):
            rt = zlift(r)[0]

            def vec_(j):
                return AVal((S_(Ln(rt, z3.IntVal(j))),), lambda idx: S_(E(rt, z3.IntVal(j), zlift(idx[0])[0])), 'f')
            return SymTab([(True, S_(K(rt, z3.IntVal(j))), vec_(j)) for j in range(m)])
    elif k == 'opaque':
        def val(r):
            return Opaque(f'{name}.{attr}', zlift(r)[0])
    elif k == 'const':
        val = lambda r: kind[1]
    elif k == 'cut':         # [value, cut-off]
        inner = leaf(name, attr + '.value', kind[1])[1]
        F = uf(f'{name}.{attr}.cut', INT, REAL)
        c.row_decls.add(F.name())
        c.inst.setdefault(F.name(), []).append(lambda r: [F(r) > 0])

        def val(r):
            v = inner(r)
            return [Arr(v) if isinstance(v, AVal) else v, S_(F(zlift(r)[0]))]
    else:
        def val(r):
            raise Unsupported(f'attribute kind {k} ({attr})')
    return pres, val


class ColState:
    __slots__ = ('base', 'writes', 'cache')

    def __init__(self, base, writes=()):
        self.base = base
        self.writes = writes
        self.cache = {}

    def lookup(self, r):
        if type(self.base) is not tuple:        # inside the loop being summarised: every read is recorded where it happens
            return self._lookup(r)
        key = A.keyof(r)
        h = self.cache.get(key)
        if h is None:
            h = (self._lookup(r), r)
            self.cache[key] = h
        return h[0]

    def _lookup(self, r):
        pend = []
        for w in reversed(self.writes):
            q = w[0](r)
            if isinstance(q, S):
                q = norm(simp(q))
            if q is False:
                continue
            if q is True:
                cur = (w[1](r), w[2])
                break
            pend.append((q, w))
        else:
            if pend and type(self.base) is not tuple:
                c = ctx()
                base = len(c.pc)
                c.pc += [z3.Not(zb(q)) for q, _ in pend]
                try:
                    cur = (self.base[0](r), self.base[1])
                finally:
                    del c.pc[base:]
            else:
                cur = (self.base[0](r), self.base[1])
        if not pend:
            return cur[0], Lazy(cur[1], r)
        pres = cur[0]
        for q, w in reversed(pend):
            pres = ite(q, w[1](r), pres)
        last = cur[1]

        def val(rr):
            v = last(rr) if cur[0] is not False else None
            for q, w in reversed(pend):
                p = w[1](r)
                if p is False:
                    continue
                nv = w[2](rr)
                if v is None:
                    v = nv
                    continue
                try:
                    v = ite(q, nv, v)
                except MergeError:
                    if ctx().entails(zb(q)):
                        v = nv
                    elif not ctx().entails(zb(mk_not(q))):
                        raise Unsupported('values of different kinds in one column')
            return v
        return pres, Lazy(val, r)

    def write(self, cond, pres, val):
        return ColState(self.base, self.writes + ((cond, pres, val),))


class Lazy:
    __slots__ = ('fn', 'r', 'v', 'done')

    def __init__(self, fn, r):
        self.fn, self.r, self.done, self.v = fn, r, False, None

    def __call__(self):
        if not self.done:
            self.v = self.fn(self.r)
            self.done = True
        return self.v


class Col:
    """one attribute of all elements of one lattice"""
    def __init__(self, ring, attr, state):
        self.ring, self.attr, self.state = ring, attr, state
        self.serial = ring.serial
        self.rebinds = []       # (row, state before) of attribute assignments

    def _get_state(self):
        return (self.state, len(self.rebinds))

    def _set_state(self, st):
        self.state = st[0]
        del self.rebinds[st[1]:]

    def _merge_state(self, ct, entry, a, b):
        e, sa, sb = entry[0], a[0], b[0]
        n = len(e.writes)
        for x in (sa, sb):
            if x.base is not e.base and len(x.base) == 3 and x.base[2] is e:
                w = ColState(x.base)
                sa = w if sa is e else sa
                sb = w if sb is e else sb
                e, n = w, 0
                break
        if sa.base is not e.base or sb.base is not e.base or sa.writes[:n] != e.writes or sb.writes[:n] != e.writes:
            raise MergeError('column states')
        cs, nc = S_(ct), S_(z3.simplify(z3.Not(ct)))

        def guard(g, w):
            return ((lambda r: mk_and(g, w[0](r))), w[1], w[2])
        ws = e.writes + tuple(guard(cs, w) for w in sa.writes[n:]) + tuple(guard(nc, w) for w in sb.writes[n:])
        return (ColState(e.base, ws), entry[1])

    def get(self):
        c = ctx()
        if c.loops:
            for L in c.loops:
                if self.serial < L.serial:
                    L.wrap_col(self)
        return self.state

    def put(self, st):
        c = ctx()
        self.get()
        c.log(self, self._get_state())
        self.state = st

    def write(self, row, pres, val, rebind=True):
        self.get()
        c = ctx()
        c.log(self, self._get_state())
        st = self.state
        if rebind:
            self.rebinds.append((row, st))
        self.state = st.write(lambda r: A.eqi(r, row), pres, val)


class ColLoc:
    """storage of an array attribute of one element"""
    def __init__(self, col, row):
        self.col, self.row = col, row
        self.seen = len(col.rebinds)
        self.frozen = None

    def _sync(self):
        if self.frozen is not None:
            return
        c = ctx()
        rb = self.col.rebinds
        if len(rb) < self.seen:
            self.seen = len(rb)
        while self.seen < len(rb):
            row, st = rb[self.seen]
            e = A.eqi(row, self.row)
            if e is True or (e is not False and c.entails(zb(e))):
                self.frozen = toaval(st.lookup(self.row)[1]())
                return
            if e is not False and not c.entails(zb(mk_not(e))):
                raise Unsupported('array reference possibly replaced')
            self.seen += 1

    def get(self):
        self._sync()
        if self.frozen is not None:
            return self.frozen
        return toaval(self.col.get().lookup(self.row)[1]())

    def put(self, v):
        self._sync()
        if self.frozen is not None:
            raise Unsupported('write to an array that is no longer stored in the lattice')
        c = ctx()
        a = self.col.attr
        if a in self.col.ring.shared:
            raise Unsupported(f'in-place change of {a}, whose storage may be shared')
        c.mutated[a] = c.mutated.get(a, 0) + 1
        self.col.write(self.row, lambda r: True, lambda r: v, rebind=False)

    def publish(self, attr, ring):
        # the same array is now stored in two places
        mine = self.col.ring
        ring.shared.add(attr)
        mine.shared.add(self.col.attr)
        if ring is not mine:
            ring.cross.add(attr)
            mine.cross.add(self.col.attr)


class SymRing:
    def __init__(self, name, n, cols=None, kinds=None, absent=()):
        self.name, self.n = name, n
        self.cols = {} if cols is None else cols
        self.kinds = kinds if kinds is not None else {}
        self.serial = A.next_serial()
        self.shared = set()
        self.sites = {self.serial}      # where its elements were created; elements of different sites share nothing
        self.doubled = set()            # sites of elements stored more than once
        self.cross = set()              # attributes whose storage may also be used outside this lattice
        ctx().rings.append(self)
        self.absent = set(absent)
        self.methods = {}

    def kind(self, attr):
        return self.kinds.get(attr) or KINDS.get(attr)

    def col(self, attr):
        c = self.cols.get(attr)
        if c is None:
            k = self.kind(attr)
            if k is None:
                k = ('unknown',)
            base = leaf(self.name, attr, k)
            if attr in self.absent:
                base = ((lambda r: False), base[1])
            c = self.cols[attr] = Col(self, attr, ColState(base))
        return c

    def has(self, attr, r):
        if attr in self.absent and attr not in self.cols:
            return False
        return self.col(attr).get().lookup(r)[0]

    def value(self, attr, r):
        return self.col(attr).get().lookup(r)[1]()

    def __len__(self):
        raise Unsupported('native len of a lattice')

    def __getitem__(self, i):
        return Row(self, A.sidx(i, self.n))

    def __setitem__(self, i, v):
        i = A.sidx(i, self.n)
        if not isinstance(v, Row):
            raise Unsupported('lattice element replaced')
        src = object.__getattribute__(v, '_ring')
        srow = object.__getattribute__(v, '_row')
        if src is self and prove_eq(srow, i):
            return
        own = object.__getattribute__(v, '_own')
        if own is None:
            raise Unsupported('lattice element replaced by an element of another lattice')
        L = ctx().loops
        if any(own.serial < l.serial for l in L):
            raise Unsupported('one copied element stored in several iterations')
        if own.serial in own.stored_sites:
            self.doubled.add(own.serial)
        own.stored_sites.add(own.serial)
        self.sites.add(own.serial)
        self.shared |= own.shared
        # a copied element: all attributes replaced
        for attr in set(self.cols) | set(own.cols):
            st = own.col(attr).get() if attr in own.cols else None
            s0 = own.col(attr).get()
            c = self.col(attr)
            p, l = s0.lookup(srow)
            c.write(i, (lambda r, p=p: p), (lambda r, l=l: l()))

    def deepcopy(self):
        r = SymRing(self.name, self.n, kinds=self.kinds, absent=self.absent)
        for a, c in self.cols.items():
            r.cols[a] = Col(r, a, c.get())
        r.shared = set(self.shared)
        r.doubled = set(self.doubled)
        r.stored_sites = set()
        r.lazy_from = self
        r.origin = self.__dict__.get('origin', self)
        return r

    def copy(self):
        return ShallowRing(self)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.deepcopy()

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        m = self.__dict__.get('methods', {})
        if name in m:
            return m[name]
        raise Unsupported(f'lattice attribute {name}')


class ShallowRing:
    def __init__(self, ring):
        self.ring = ring


def prove_eq(a, b):
    e = A.eqi(a, b)
    return e is True or (e is not False and ctx().entails(zb(e)))


class Row:
    """one lattice element"""
    __slots__ = ('_ring', '_row', '_own')

    def __init__(self, ring, row, own=None):
        object.__setattr__(self, '_ring', ring)
        object.__setattr__(self, '_row', row)
        object.__setattr__(self, '_own', own)

    def _has(self, attr):
        return self._ring.has(attr, self._row)

    def __getattr__(self, attr):
        if attr.startswith('__') or attr in ('_ipython_display_',):
            raise AttributeError(attr)
        if attr == 'deepcopy':
            return lambda: row_copy(self)
        if attr == 'copy':
            raise Unsupported('shallow copy of an element')
        if attr in ('items', 'keys', 'update'):
            raise Unsupported(f'element.{attr}')
        ring, row = self._ring, self._row
        p = self._has(attr)
        if p is False or (p is not True and not bool(p)):
            raise AttributeError(f'element has no attribute {attr}')
        col = ring.col(attr)
        v = col.get().lookup(row)[1]()
        if isinstance(v, AVal):
            return Arr(None, loc=ColLoc(col, row))
        if isinstance(v, SymTab):
            return TabRef(col, row)
        return v

    def __setattr__(self, attr, v):
        ring, row = self._ring, self._row
        v = convert(attr, v)
        col = ring.col(attr)
        if isinstance(v, Arr):
            av = v.aval()
            if v.view is None or v.view is not None:
                loc = v.loc
                if isinstance(loc, ColLoc) and loc.col is col and prove_eq(loc.row, row) and v.view is None and \
                        loc.frozen is None:
                    loc._sync()
                    if loc.frozen is None:
                        return        # self assignment
                loc.publish(attr, ring)
                if v.view is not None or isinstance(loc, ColLoc):
                    ring.shared.add(attr)
            v = av
        elif isinstance(v, np.ndarray):
            v = A.concrete_aval(v)
        elif (ring.kind(attr) or ('',))[0] == 'sysdict' and isinstance(v, (dict, TabRef)):
            if isinstance(v, TabRef) and not isinstance(v, TabVal):
                if v.col is col and prove_eq(v.row, row):
                    return
                ring.shared.add(attr)
                if v.col.ring is not ring:
                    ring.cross.add(attr)
                    v.col.ring.cross.add(v.col.attr)
            if isinstance(v, dict):
                ctx().stored[id(v)] = v
                for x in v.values():
                    if isinstance(x, Arr):
                        x.loc.publish(attr, ring)
            v = SymTab.of(v)
        elif isinstance(v, (list, dict, set)):
            v = copy.deepcopy(v) if not A.has_sym(v) else v
        col.write(row, lambda r: True, lambda r: v)

    def __delattr__(self, attr):
        self._ring.col(attr).write(self._row, lambda r: False, lambda r: None)

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)

    @staticmethod
    def _merge(ct, a, b):
        if isinstance(a, Row) and isinstance(b, Row) and a._ring is b._ring:
            return Row(a._ring, merge(ct, a._row, b._row))
        raise MergeError('rows')


def disjoint(a, b):
    """no element and no array is stored in both"""
    if a is b:
        return False
    if not isinstance(a, SymRing) or not isinstance(b, SymRing):
        raise Unsupported('lattice sharing')
    if (a.sites & b.sites) or (a.cross | b.cross):
        raise Unsupported('possibly shared lattice elements')
    return True


def row_copy(r):
    ring = r._ring.deepcopy() if r._own is None else r._own
    return Row(ring, r._row, own=ring)


def convert(attr, v):
    if attr in CONV_ARR:
        if isinstance(v, Arr):
            if v.aval().dt != 'f':
                v = A.NP.array(v, dtype=float)
        elif isinstance(v, (list, tuple, np.ndarray)) or A.is_scalar(v):
            v = A.NP.array(v, dtype=float)
    elif attr in CONV_REAL:
        if isinstance(v, Arr):
            v = v.scalar0()
        v = A.cast(v, float)
    elif attr == 'MaxOrder':
        if isinstance(v, Arr):
            v = v.scalar0()
        v = A.cast(v, int)
    return v


# ------------------------------------------------------------------ substitution in values
def subst(v, pairs):
    """value with integer constants replaced"""
    if v is None or isinstance(v, (str, int, float, bool, np.generic)) or not pairs:
        return v
    if isinstance(v, S):
        t = z3.substitute(v.t, *pairs)
        n = None if v.nan is None else z3.substitute(v.nan, *pairs)
        return norm(S_(t, n)) if not t.eq(v.t) else S_(t, n)
    if z3.is_expr(v):
        return z3.substitute(v, *pairs)
    if isinstance(v, SymStr):
        return SymStr(z3.substitute(v.t, *pairs), v.domain)
    if isinstance(v, AVal):
        shape = tuple(subst(d, pairs) for d in v.shape)
        r = AVal(shape, lambda idx: subst(v(idx), pairs), v.dt)
        if v.mask is not None:
            r.mask = subst(v.mask, pairs)
        return r
    if isinstance(v, Arr):
        return Arr(subst(v.aval(), pairs))
    if isinstance(v, Row):
        return Row(v._ring, subst(v._row, pairs))
    if isinstance(v, tuple):
        return tuple(subst(x, pairs) for x in v)
    if isinstance(v, list):
        return [subst(x, pairs) for x in v]
    if isinstance(v, dict):
        return type(v)({k: subst(x, pairs) for k, x in v.items()})
    if hasattr(v, '_subst'):
        return v._subst(pairs)
    return v
