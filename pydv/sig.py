"""Symbolic tables of uncertainties: {element index: {field: value}} with symbolic presence of every entry."""
from .core import S, S_, ctx, Unsupported, MergeError, mk_and, mk_or, mk_not, zb, zlift, uf, INT
from . import arr as A
from . import heap as H


class GuardIter:
    """a sequence of items, each present under a condition"""
    def __init__(self, items, contains=None):
        self.items_ = items
        self._has = contains

    def guarded(self):
        return list(self.items_)

    def __iter__(self):
        out = []
        for g, v in self.items_:
            if g is True or (g is not False and bool(g)):
                out.append(v)
        return iter(out)

    def _contains(self, x):
        return mk_or(*[mk_and(g, x == v) for g, v in self.items_]) if self._has is None else self._has(x)

    def _len(self):
        n = 0
        for g, _ in self.items_:
            n = n + (A.ite(g, 1, 0) if isinstance(g, S) else int(bool(g)))
        return n


class SigTab:
    """table of one kind of elements, backed by a lattice-like store named SIG.<name>; column '@' says that a row exists"""
    def __init__(self, name, n, kinds):
        self.fields = list(kinds)
        self.store = H.SymRing('SIG.' + name, n, kinds=dict(kinds, **{'@': ('const', True)}))
        st = self.store

        def ax(r):
            fs = [mk_or(mk_not(st.col(f).state0[0](r)), st.col('@').state0[0](r)) for f in self.fields]
            return mk_and(*fs)
        for f in self.fields + ['@']:
            c = st.col(f)
            c.state0 = c.state.base
        ctx().row_axioms.append(ax)

    # ---- the dict interface used by the code
    def _contains(self, k):
        return mk_and(k >= 0, k < self.store.n, self.store.has('@', k))

    def __contains__(self, k):
        h = self._contains(k)
        return h if isinstance(h, bool) else bool(h)

    def keys(self):
        return SigKeys(self)

    def _len(self):
        c = ctx()
        n = S_(__import__('z3').Int(c.fresh('siglen')))
        c.assume(n >= 0)
        st = self.store.col('@').get()
        c.row_axioms.append(lambda r: mk_or(mk_not(mk_and(r >= 0, r < self.store.n, st.lookup(r)[0])), n >= 1))
        w = S_(__import__('z3').Int(c.fresh('sigwit')))
        c.assume(mk_or(n == 0, mk_and(w >= 0, w < self.store.n, st.lookup(w)[0])))
        return n

    def _bool(self):
        return self._len() > 0

    def __getitem__(self, k):
        h = self._contains(k)
        if h is False or (h is not True and not bool(h)):
            raise KeyError(k)
        return SigRow(self, k)

    def get(self, k, d=None):
        h = self._contains(k)
        if h is False or (h is not True and not bool(h)):
            return d
        return SigRow(self, k)

    def __setitem__(self, k, v):
        if isinstance(v, SigRow):
            if v.tab is self and H.prove_eq(v.k, k):
                return
            raise Unsupported('row of an uncertainty table stored twice')
        if not isinstance(v, dict) or any(not isinstance(f, str) for f in v):
            raise Unsupported('value of an uncertainty table')
        bad = [f for f in v if f not in self.fields]
        if bad:
            raise Unsupported(f'unexpected uncertainty {bad}')
        row = H.Row(self.store, k)
        setattr(row, '@', True)
        for f in self.fields:
            if f in v:
                setattr(row, f, v[f])
            else:
                delattr(row, f)

    def setdefault(self, k, v):
        h = self._contains(k)
        if h is False or (h is not True and not bool(h)):
            self[k] = v
        return SigRow(self, k)

    def __deepcopy__(self, memo):
        new = object.__new__(SigTab)
        new.fields = list(self.fields)
        new.store = self.store.deepcopy()
        memo[id(self)] = new
        return new

    def __copy__(self):
        raise Unsupported('shallow copy of an uncertainty table')

    def __iter__(self):
        raise Unsupported('iteration over an uncertainty table')
    items = values = __iter__

    @staticmethod
    def _merge(ct, a, b):
        raise MergeError('uncertainty table')


class SigKeys:
    def __init__(self, tab):
        self.tab = tab

    def _contains(self, k):
        return self.tab._contains(k)

    def _len(self):
        return self.tab._len()

    def __iter__(self):
        raise Unsupported('iteration over the keys of an uncertainty table')


class SigRow:
    __slots__ = ('tab', 'k')

    def __init__(self, tab, k):
        object.__setattr__(self, 'tab', tab)
        object.__setattr__(self, 'k', k)

    def _row(self):
        return H.Row(self.tab.store, self.k)

    def _has(self, f):
        if isinstance(f, str):
            return self.tab.store.has(f, self.k) if f in self.tab.fields else False
        return mk_or(*[mk_and(self.tab.store.has(g, self.k), f == g) for g in self.tab.fields])

    _contains = _has

    def __contains__(self, f):
        h = self._has(f)
        return h if isinstance(h, bool) else bool(h)

    def keys(self):
        return GuardIter([(self._has(f), f) for f in self.tab.fields], self._has)

    __iter__ = None

    def guarded(self):
        return self.keys().guarded()

    def items(self):
        return GuardIter([(self._has(f), LazyPair(self, f)) for f in self.tab.fields])

    def values(self):
        return GuardIter([(self._has(f), LazyPair(self, f, True)) for f in self.tab.fields])

    def _len(self):
        return self.keys()._len()

    def _at(self, f):
        v = getattr(self._row(), f)
        return v

    def __getitem__(self, f):
        if not isinstance(f, str):
            raise Unsupported('symbolic field name')
        h = self._has(f)
        if h is False or (h is not True and not bool(h)):
            raise KeyError(f)
        return self._at(f)

    def get(self, f, d=None):
        h = self._has(f)
        if h is False or (h is not True and not bool(h)):
            return d
        return self._at(f)

    def __getattr__(self, f):
        if f.startswith('__'):
            raise AttributeError(f)
        try:
            return self[f]
        except KeyError:
            raise AttributeError(f)

    def __setitem__(self, f, v):
        if f not in self.tab.fields:
            raise Unsupported(f'unexpected uncertainty {f}')
        setattr(self._row(), f, v)

    def __setattr__(self, f, v):
        self[f] = v

    def __delitem__(self, f):
        if f not in self:
            raise KeyError(f)
        delattr(self._row(), f)

    def pop(self, f, *d):
        if f not in self:
            if d:
                return d[0]
            raise KeyError(f)
        v = self._at(f)
        delattr(self._row(), f)
        return v

    def update(self, *a, **kw):
        for x in a:
            if not isinstance(x, dict):
                raise Unsupported('update of an uncertainty row')
            for f, v in x.items():
                self[f] = v
        for f, v in kw.items():
            self[f] = v

    def setdefault(self, f, v):
        h = self._has(f)
        if h is False or (h is not True and not bool(h)):
            self[f] = v
        return self._at(f)

    def copy(self):
        raise Unsupported('copy of an uncertainty row')
    __copy__ = copy

    @staticmethod
    def _merge(ct, a, b):
        if isinstance(a, SigRow) and isinstance(b, SigRow) and a.tab is b.tab:
            if a.k is b.k:
                return a
            return SigRow(a.tab, A.ite(S_(ct), a.k, b.k))
        raise MergeError('rows')

    def _subst(self, pairs):
        return SigRow(self.tab, H.subst(self.k, pairs))


class LazyPair:
    """(field, value), unpacked only when the field is present"""
    def __init__(self, row, f, only=False):
        self.row, self.f, self.only = row, f, only

    def resolve(self):
        v = self.row._at(self.f)
        return v if self.only else (self.f, v)
