"""C21: multipole error tables are stored per component and accumulate correctly."""
from pydv.contract import contract
from pydv.heap import vec

AB = 'AB'
SYS = tuple(f'SysPol{t}From{s}' for t in AB for s in AB)
COL = dict(A=1, B=0)


def table(B):
    n = B.size('rows', 1)
    return n, B.arr('BA', (n, 2))


@contract('SimulatedCommissioning.set_systematic_multipole_errors', params=dict(skewness=(False, True), order=(0, 1, 2), m=(0, 1, 2), fresh=(False, True)),
          quick=lambda skewness, order, m, fresh: m < 2)
def systematic(B, skewness, order, m, fresh):
    """m: number of stored entries; fresh: the driving plane has no table yet"""
    src = 'A' if skewness else 'B'
    mine = tuple(f'SysPol{t}From{src}' for t in AB)
    kinds = {a: ('sysdict', m) for a in SYS}
    ring = B.ring(kinds=kinds, attrs=() if fresh else SYS, absent=mine if fresh else ())
    ords = B.ords('ords', ring)
    SC = B.machine(ring)
    n, BA = table(B)
    B.assume(n > order)
    t0, o0 = B.copy(BA), B.copy(ords)
    old, ideal = B.snapshot(SC.RING), B.snapshot(SC.IDEALRING)
    out = B.call(SC.set_systematic_multipole_errors, ords, BA, order, skewness)
    B.ensure('accepted', out.ok)
    if not out.ok:
        return
    R = SC.RING
    sel = lambda r: B.member(o0, r)
    for t in AB:
        a = f'SysPol{t}From{src}'
        c = COL[t]
        drop = order if t == src else -1
        B.rows(f'{a}: entry of the driving order', R, lambda r: B.Implies(sel(r), lambda: B.And(
            B.has(R, a, r), lambda: B.table_has(R, a, r, order), lambda: column(B, B.table_get(R, a, r, order), t0, n, c, drop))))
        B.rows(f'{a}: entries of other orders kept, no others added', R, lambda r: B.Implies(sel(r), lambda: B.forall_keys(
            (R, old), a, r, lambda k: B.Or(B.eq(k, order), lambda: kept(B, R, old, a, r, k, fresh)))))
    B.frame('frame', R, old, {a: sel for a in mine})
    B.isolated(SC, ideal)
    B.unchanged("caller's table unchanged", BA, t0)
    B.unchanged('ordinates unchanged', ords, o0)


def kept(B, R, old, a, r, k, fresh):
    now = B.table_has(R, a, r, k)
    if fresh:
        return B.Not(now)
    was = B.And(B.has(old, a, r), lambda: B.table_has(old, a, r, k))
    return B.And(B.eq(now, was), lambda: B.Implies(was, lambda: B.eq(B.table_get(R, a, r, k), B.table_get(old, a, r, k))))


def column(B, v, t, n, c, drop):
    return B.And(B.eq(B.len(v), n), lambda: B.forall(n, lambda i: B.eq(B.at(v, i), B.If(B.eq(i, drop), 0.0, lambda: B.at(t, i, c)))))


@contract('SimulatedCommissioning.set_random_multipole_errors', 'add_padded', params=dict(have=('both', 'some', 'none')))
def random_errors(B, have):
    offs = tuple(f'Polynom{t}Offset' for t in AB)
    ring = B.ring(absent=offs if have == 'none' else ())
    B.maybe(ring, {} if have != 'some' else {a: vec(lo=1) for a in offs})
    ords = B.ords('ords', ring, must={a: vec(lo=1) for a in offs} if have == 'both' else None, lo=1)
    SC = B.machine(ring)
    n, BA = table(B)
    B.draws()
    t0, o0 = B.copy(BA), B.copy(ords)
    old, ideal = B.snapshot(SC.RING), B.snapshot(SC.IDEALRING)
    out = B.call(SC.set_random_multipole_errors, ords, BA)
    B.ensure('accepted', out.ok)
    if not out.ok:
        return
    R = SC.RING
    sel = lambda r: B.member(o0, r)
    for t in AB:
        a = f'Polynom{t}Offset'

        def was(r, i):
            return B.If(B.has(old, a, r), lambda: B.vecat(B.get(old, a, r), i), 0.0)
        size = lambda r: B.If(B.has(old, a, r), lambda: B.max(n, B.len(B.get(old, a, r))), n)
        B.rows(f'{a}: length', R, lambda r: B.Implies(sel(r), lambda: B.And(B.has(R, a, r), lambda: B.eq(B.len(B.get(R, a, r)), size(r)))))
        B.rows(f'{a}: bounded addition to the present offset', R, lambda r: B.Implies(sel(r), lambda: B.forall(size(r), lambda i: B.le(
            B.abs(B.vecat(B.get(R, a, r), i) - was(r, i)), 2 * B.abs(B.If(i < n, lambda: B.at(t0, i, COL[t]), 0.0))))))
        one, other = B.index('one', B.len(ords)), B.index('other', B.len(ords))
        i = B.index('component', n)
        r, q = B.at(o0, one), B.at(o0, other)
        B.ensure(f'{a}: magnets get independent draws', B.Or(one == other, lambda: B.eq(B.at(t0, i, COL[t]), 0.0), lambda: B.independent(
            B.vecat(B.get(R, a, r), i) - was(r, i), B.vecat(B.get(R, a, q), i) - was(q, i), B.at(t0, i, COL[t]))))
    B.frame('frame', R, old, {a: sel for a in offs})
    B.isolated(SC, ideal)
    B.unchanged("caller's table unchanged", BA, t0)
    B.unchanged('ordinates unchanged', ords, o0)


@contract('SimulatedCommissioning.set_systematic_multipole_errors', 'SimulatedCommissioning.set_random_multipole_errors',
          params=dict(shape=('vector', 'wide', 'cube'), random=(False, True)))
def rejected(B, shape, random):
    ring = B.ring()
    ords = B.ords('ords', ring)
    SC = B.machine(ring)
    n = B.size('rows', 3)
    BA = B.arr('BA', dict(vector=(n,), wide=(n, 3), cube=(n, 2, 2))[shape])
    old = B.snapshot(SC.RING)
    B.draws()
    out = B.call(SC.set_random_multipole_errors, ords, BA) if random else B.call(SC.set_systematic_multipole_errors, ords, BA, 1, False)
    B.ensure('rejected with ValueError', out.raised(ValueError))
    B.frame('nothing changed', SC.RING, old)
