"""C01: actual magnet fields are a fixed function of setpoints and errors."""
from pydv.contract import contract
from pydv.heap import REAL_K, BOOL_K, INT_K, vec

MUST = {a + x: vec(lo=1) for a in ('SetPoint', 'CalError', 'Polynom') for x in 'AB'}
MUST['MaxOrder'] = INT_K
OFFS = {f'Polynom{x}Offset': vec(lo=1) for x in 'AB'}
BEND = {'BendingAngle': REAL_K, 'BendingAngleError': REAL_K, 'CombinedFunction': BOOL_K, 'NomPolynomB': vec(lo=1)}
SYS = [f'SysPol{x}From{y}' for x in 'AB' for y in 'AB']


def base(B, R, s, x, i):
    """setpoint times (1 + calibration error), component i"""
    return B.vecat(B.get(R, f'SetPoint{x}', s), i) * (1 + B.vecat(B.get(R, f'CalError{x}', s), i))


def bending(B, R, s, t):
    d = B.If(B.has(R, 'BendingAngleError', s),
             lambda: B.get(R, 'BendingAngleError', s) * B.get(R, 'BendingAngle', t) / B.get(R, 'Length', t), 0.0)

    def comb():
        alpha = base(B, R, s, 'B', 1) / B.at(B.get(R, 'NomPolynomB', s), 1)
        return (alpha * B.get(R, 'BendingAngle', t) - B.get(R, 'BendingAngle', t)) / B.get(R, 'Length', t)
    return d + B.If(combined(B, R, s), comb, 0.0)


def combined(B, R, s):
    return B.And(B.has(R, 'BendingAngle', s), B.has(R, 'CombinedFunction', s), lambda: B.get(R, 'CombinedFunction', s))


def field(B, R, s, t, x, i, tables):
    """component i of Polynom<x> of element t driven by the setpoints of element s"""
    v = base(B, R, s, x, i)
    v = v + B.If(B.has(R, f'Polynom{x}Offset', t), lambda: B.vecat(B.get(R, f'Polynom{x}Offset', t), i), 0.0)
    for y in 'AB':
        attr = f'SysPol{x}From{y}'
        if attr in tables:
            def sysp(attr=attr, y=y):
                w = 0.0
                for k, tab in B.table(R, attr, t):
                    w = w + base(B, R, s, y, k) * B.vecat(tab, i)
                return w
            v = v + B.If(B.has(R, attr, t), sysp, 0.0)
    if x == 'B':
        v = v + B.If(B.eq(i, 0), lambda: bending(B, R, s, t), 0.0)
    return v


def length(B, R, s, t, x, tables):
    n = B.len(B.get(R, f'SetPoint{x}', s))
    n = B.If(B.has(R, f'Polynom{x}Offset', t), lambda: B.max(n, B.len(B.get(R, f'Polynom{x}Offset', t))), n)
    for y in 'AB':
        attr = f'SysPol{x}From{y}'
        if attr in tables:
            def ext(n=n, attr=attr):
                for _, tab in B.table(R, attr, t):
                    n = B.max(n, B.len(tab))
                return n
            n = B.If(B.has(R, attr, t), ext, n)
    return n


def source_ok(B, R, s, tables):
    """well-formed magnet: calibration errors not longer than the setpoints, combined-function fields defined"""
    fs = []
    for x in 'AB':
        fs.append(B.len(B.get(R, f'CalError{x}', s)) <= B.len(B.get(R, f'SetPoint{x}', s)))
    fs.append(B.Implies(combined(B, R, s), lambda: B.And(
        B.has(R, 'NomPolynomB', s), lambda: B.len(B.get(R, 'CalErrorB', s)) >= 2,
        lambda: B.len(B.get(R, 'NomPolynomB', s)) >= 2, lambda: B.Not(B.eq(B.at(B.get(R, 'NomPolynomB', s), 1), 0)))))
    return B.And(*fs)


def pair_ok(B, R, s, t, tables):
    fs = [B.Implies(B.Or(B.has(R, 'BendingAngleError', s), combined(B, R, s)),
                    lambda: B.And(B.has(R, 'BendingAngle', t), B.get(R, 'Length', t) != 0))]
    for attr in tables:
        y = attr[-1]
        fs.append(B.Implies(B.has(R, attr, t), lambda attr=attr, y=y: B.And(*[
            B.And(k >= 0, k < B.len(B.get(R, f'SetPoint{y}', s))) for k, _ in B.table(R, attr, t)])))
    return B.And(*fs)


def fix(rng, el):
    """makes a randomly drawn element well-formed"""
    import numpy as np
    for x in 'AB':
        sp = getattr(el, f'SetPoint{x}')
        ce = getattr(el, f'CalError{x}')
        setattr(el, f'CalError{x}', ce[:len(sp)])
        for a in SYS:
            if a[-1] == x and hasattr(el, a):
                d = getattr(el, a)
                bad = [k for k in d if k >= len(sp)]
                for k in bad:
                    free = [q for q in range(len(sp)) if q not in d]
                    if free:
                        d[free[0]] = d[k]
                    del d[k]
    if hasattr(el, 'BendingAngleError') and not hasattr(el, 'BendingAngle'):
        el.BendingAngle = rng.gauss(0, 0.3)
    if hasattr(el, 'BendingAngle') and getattr(el, 'CombinedFunction', False):
        el.SetPointB = np.array([rng.gauss(0, 1) for _ in range(max(2, len(el.SetPointB)))])
        el.CalErrorB = np.array([rng.gauss(0, 0.1) for _ in range(len(el.SetPointB))])
        el.NomPolynomB = np.array([rng.gauss(0, 1) for _ in range(len(el.SetPointB))])
    # real at elements reject a skew field shorter than the normal one
    n = {x: max([len(getattr(el, f'SetPoint{x}'))] + [len(getattr(el, a)) for a in (f'Polynom{x}Offset',) if hasattr(el, a)]
                + [len(v) for y in 'AB' for v in getattr(el, f'SysPol{x}From{y}', {}).values()]) for x in 'AB'}
    el.SetPointA = np.concatenate([el.SetPointA, np.zeros(max(0, n['B'] - len(el.SetPointA)))])
    if el.Length == 0 and (hasattr(el, 'BendingAngleError') or hasattr(el, 'BendingAngle')):
        el.Length = 0.3


def law(B, R, old, s, t, tables):
    """the field law for element t driven by element s"""
    fs = []
    for x in 'AB':
        P = B.get(R, f'Polynom{x}', t)
        n = length(B, old, s, t, x, tables)
        fs.append(B.eq(B.len(P), n))
        fs.append(B.forall(n, lambda i, P=P, x=x: B.eq(B.vecat(P, i), field(B, old, s, t, x, i, tables))))
    return B.And(*fs)


def derived(B, R, s, t):
    return B.And(B.eq(B.get(R, 'MaxOrder', t), B.len(B.get(R, 'PolynomB', t)) - 1),
                 B.Implies(B.eq(B.get(R, 'PassMethod', s), 'CorrectorPass'), lambda: B.And(
                     B.has(R, 'KickAngle', t),
                     lambda: B.eq(B.at(B.get(R, 'KickAngle', t), 0), B.at(B.get(R, 'PolynomB', t), 0)),
                     lambda: B.eq(B.at(B.get(R, 'KickAngle', t), 1), B.at(B.get(R, 'PolynomA', t), 0)))))


def tables_of(tab):
    return {'none': (), 'AA': ('SysPolAFromA',), 'BB': ('SysPolBFromB',), 'AB': ('SysPolAFromB',), 'BA': ('SysPolBFromA',),
            'Ax': ('SysPolAFromA', 'SysPolAFromB'), 'Bx': ('SysPolBFromA', 'SysPolBFromB')}[tab]


@contract('SimulatedCommissioning.update_magnets', 'SimulatedCommissioning._update_magnets', 'add_padded',
          params=dict(given=(True, False), tab=('none', 'AA', 'BB', 'AB', 'BA', 'Ax'), m=(0, 1, 2)),
          only=lambda given, tab, m: (tab == 'none') == (m == 0) and (given or m == 1 or tab == 'none') and not (tab[1] == 'x' and (m == 2 or not given)),
          cost=2)
def update_magnets(B, given, tab, m):
    update(B, given, tables_of(tab), m)


@contract('SimulatedCommissioning.update_magnets', 'SimulatedCommissioning._update_magnets', params=dict(given=(True, False), m=(1, 2, 3)),
          bounded=True, runs=60)
def update_magnets_all_tables(B, given, m):
    """all four systematic tables at once"""
    update(B, given, tuple(SYS), m)


def update(B, given, tables, m):
    kinds = {a: ('sysdict', m) for a in tables}
    ring = B.ring(kinds=kinds, absent=tuple(a for a in SYS if a not in tables) + ('MasterOf',))
    opt = dict(OFFS, **BEND, **kinds)
    ok = lambda x: B.And(source_ok(B, ring0, x, tables), pair_ok(B, ring0, x, x, tables))
    ring0 = ring
    B.maybe(ring, opt)
    ords = B.ords('ords', ring, must=MUST, sort=not given, axioms=ok, repair=fix)
    SC = B.machine(ring) if given else B.machine(ring, Magnet=ords)
    old, ideal, o0 = B.snapshot(SC.RING), B.snapshot(SC.IDEALRING), B.copy(ords)
    out = B.call(SC.update_magnets, ords) if given else B.call(SC.update_magnets)
    B.ensure('accepted', out.ok)
    if not out.ok:
        return
    sel = lambda r: B.member(ords, r)
    for x in 'AB':
        P = lambda t, x=x: B.get(SC.RING, f'Polynom{x}', t)
        B.rows(f'length of Polynom{x}', SC.RING, lambda t, x=x: B.Implies(sel(t), lambda: B.eq(
            B.len(P(t)), length(B, old, t, t, x, tables))))
        B.rows(f'field law of Polynom{x}', SC.RING, lambda t, x=x: B.Implies(sel(t), lambda: B.forall(
            length(B, old, t, t, x, tables), lambda i: B.eq(B.vecat(P(t), i), field(B, old, t, t, x, i, tables)))))
    B.rows('maximum order and kick angles', SC.RING, lambda t: B.Implies(sel(t), lambda: derived(B, SC.RING, t, t)))
    thin = lambda r: B.And(sel(r), lambda: B.eq(B.get(old, 'PassMethod', r), 'CorrectorPass'))
    B.frame('frame', SC.RING, old, dict(PolynomA=sel, PolynomB=sel, MaxOrder=sel, KickAngle=thin))
    B.isolated(SC, ideal)
    B.unchanged('caller\'s ordinates unchanged', ords, o0)
    if not B.symbolic:
        again = B.snapshot(SC.RING)
        B.call(SC.update_magnets, ords)
        B.frame('repeated update changes nothing', SC.RING, again)


@contract('SimulatedCommissioning.update_magnets', 'SimulatedCommissioning._update_magnets',
          params=dict(m=(1, 2), tab=('none', 'AB', 'BB')), only=lambda m, tab: m == 1 or tab != 'BB', cost=2)
def split_magnets(B, m, tab):
    """one master magnet with m children: every child obeys the law with the setpoints of its master"""
    tables = tables_of(tab)
    kinds = dict({a: ('sysdict', 1) for a in tables}, MasterOf=('ilist', m))
    ring = B.ring(kinds=kinds, absent=tuple(a for a in SYS if a not in tables))
    B.maybe(ring, dict(OFFS, **BEND, **{a: kinds[a] for a in tables}))
    ords = B.ords('master', ring, must=MUST, n=1, axioms=lambda x: B.And(source_ok(B, ring, x, tables), pair_ok(B, ring, x, x, tables)),
                  repair=fix)
    s = B.at(ords, 0)
    child = B.ords('child', ring, must=dict(PolynomA=vec(lo=1), PolynomB=vec(lo=1), MaxOrder=INT_K, BendingAngle=REAL_K), n=m,
                   without=ords, axioms=lambda x: pair_ok(B, ring, s, x, tables), repair=lambda rng, el: fix_child(rng, el, ring[s]))
    ring[s].MasterOf = B.copy(child)
    SC = B.machine(ring, Magnet=ords)
    old, ideal = B.snapshot(SC.RING), B.snapshot(SC.IDEALRING)
    out = B.call(SC.update_magnets)
    B.ensure('accepted', out.ok)
    if not out.ok:
        return
    for j in range(m):
        t = B.at(child, j)
        B.ensure(f'field law of child {j}', law(B, SC.RING, old, s, t, tables))
        B.ensure(f'maximum order and kick angles of child {j}', derived(B, SC.RING, s, t))
    B.ensure('field law of the master', law(B, SC.RING, old, s, s, tables))
    sel = lambda r: B.Or(r == s, *[r == B.at(child, j) for j in range(m)])
    B.frame('frame', SC.RING, old, dict(PolynomA=sel, PolynomB=sel, MaxOrder=sel, KickAngle=sel))
    B.isolated(SC, ideal)


def fix_child(rng, el, master):
    import numpy as np
    for a in SYS:
        if hasattr(el, a):
            d, n = getattr(el, a), len(getattr(master, f'SetPoint{a[-1]}'))
            for k in [k for k in d if k >= n]:
                v = d.pop(k)
                d[rng.randrange(n)] = v
    n = {x: max([len(getattr(master, f'SetPoint{x}'))] + [len(getattr(el, a)) for a in (f'Polynom{x}Offset',) if hasattr(el, a)]
                + [len(v) for y in 'AB' for v in getattr(el, f'SysPol{x}From{y}', {}).values()]) for x in 'AB'}
    if n['A'] < n['B']:
        el.PolynomAOffset = np.concatenate([getattr(el, 'PolynomAOffset', np.zeros(0)), np.zeros(n['B'])])[:n['B']]
    el.__dict__['MaxOrder'] = 0
    if el.Length == 0:
        el.Length = 0.3
