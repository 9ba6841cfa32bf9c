"""C04: magnet setpoints: modes, skew-quadrupole limit and dipole compensation."""
from pydv.contract import contract
from pydv.heap import REAL_K, vec
from . import c01, c03


def setup(B, order, letter, extra=None, axiom=None, repair=None, sort=False, absent=()):
    ring = B.ring(kinds={'CMlimit': vec(2)}, absent=tuple(c01.SYS) + ('MasterOf',) + tuple(absent))
    B.maybe(ring, dict(c01.OFFS, **c01.BEND))
    B.maybe(ring, {'SkewQuadLimit': REAL_K})
    must = dict(c01.MUST, **{'NomPolynomA': vec(lo=1), 'NomPolynomB': vec(lo=1)}, **(extra or {}))
    must[f'SetPoint{letter}'] = vec(lo=order + 1)
    must[f'NomPolynom{letter}'] = vec(lo=order + 1)

    def ok(r):
        return B.And(c01.source_ok(B, ring, r, ()), c01.pair_ok(B, ring, r, r, ()),
                     B.Implies(B.has(ring, 'SkewQuadLimit', r), lambda: B.get(ring, 'SkewQuadLimit', r) >= 0),
                     axiom(ring, r) if axiom else True)

    def fix(rng, el):
        import numpy as np
        c01.fix(rng, el)
        if el.Length == 0:
            el.Length = 0.25
        for x in 'AB':
            for pre in ('SetPoint', 'NomPolynom'):
                v = getattr(el, f'{pre}{x}')
                if x == letter and len(v) <= order:
                    setattr(el, f'{pre}{x}', np.concatenate([v, np.array([rng.gauss(0, 1) for _ in range(order + 1 - len(v))])]))
        el.SetPointA = np.concatenate([el.SetPointA, np.zeros(max(0, len(el.SetPointB) - len(el.SetPointA)))])
        if hasattr(el, 'SkewQuadLimit'):
            el.SkewQuadLimit = abs(el.SkewQuadLimit)
        if repair:
            repair(rng, el)
    ords = B.ords('ords', ring, must=must, axioms=ok, repair=fix, sort=sort)
    return ring, ords


def wanted(B, old, s0, method, letter, order, skewness, ords, single):
    def want(r):
        v = B.at(s0, 0 if single else B.index_of(ords, r))
        if method == 'rel':
            v = v * B.at(B.get(old, f'NomPolynom{letter}', r), order)
        if method == 'add':
            v = v + B.at(B.get(old, f'SetPoint{letter}', r), order)
        if skewness and order == 1:
            u = v
            v = B.If(B.has(old, 'SkewQuadLimit', r), lambda: c03.clip(B, u, B.get(old, 'SkewQuadLimit', r)), u)
        return v
    return want


def stored(B, R, old, x, r, comps, want):
    """setpoint array of element r: the components in comps {index: value}, everything else unchanged"""
    a, b = B.get(R, f'SetPoint{x}', r), B.get(old, f'SetPoint{x}', r)
    return B.And(B.eq(B.len(a), B.len(b)), *[B.eq(B.at(a, c), want) for c in comps],
                 B.forall(B.len(b), lambda i: B.Or(*[B.eq(i, c) for c in comps], lambda: B.eq(B.vecat(a, i), B.vecat(b, i)))))


def fields(B, SC, now, old, sel):
    for y in 'AB':
        P = lambda t, y=y: B.get(SC.RING, f'Polynom{y}', t)
        B.rows(f'field law of Polynom{y}', SC.RING, lambda t, y=y: B.Implies(sel(t), lambda: B.forall(
            c01.length(B, now, t, t, y, ()), lambda i: B.eq(B.vecat(P(t), i), c01.field(B, now, t, t, y, i, ())))))
    B.rows('maximum order and kick angles', SC.RING, lambda t: B.Implies(sel(t), lambda: c01.derived(B, SC.RING, t, t)))


@contract('SimulatedCommissioning.set_magnet_setpoints', 'check_input_and_setpoints', 'atgetfieldvalues',
          'SimulatedCommissioning.update_magnets', 'SimulatedCommissioning._update_magnets',
          params=dict(method=('abs', 'rel', 'add'), skewness=(False, True), order=(0, 1, 2), single=(True, False)),
          only=lambda method, skewness, order, single: (single or order == 1))
def set_magnet_setpoints(B, method, skewness, order, single):
    letter = 'A' if skewness else 'B'
    ring, ords = setup(B, order, letter)
    SC = B.machine(ring)
    n = B.len(ords)
    setp = B.vec('setpoints', 1 if single else n)
    s0, o0 = B.copy(setp), B.copy(ords)
    old, ideal = B.snapshot(SC.RING), B.snapshot(SC.IDEALRING)
    sel = lambda r: B.member(ords, r)
    out = B.call(SC.set_magnet_setpoints, B.as_input(ords), B.as_input(setp), skewness, order, method)
    B.ensure('accepted', out.ok)
    if not out.ok:
        return
    want = wanted(B, old, s0, method, letter, order, skewness, ords, single)
    B.rows('stored setpoint', SC.RING, lambda r: B.Implies(sel(r), lambda: stored(B, SC.RING, old, letter, r, [order], want(r))))
    fields(B, SC, B.snapshot(SC.RING), old, sel)
    thin = lambda r: B.And(sel(r), lambda: B.eq(B.get(old, 'PassMethod', r), 'CorrectorPass'))
    B.frame('frame', SC.RING, old, {f'SetPoint{letter}': sel, 'PolynomA': sel, 'PolynomB': sel, 'MaxOrder': sel, 'KickAngle': thin})
    B.isolated(SC, ideal)
    B.unchanged('caller\'s setpoints unchanged', setp, s0)
    B.unchanged('caller\'s ordinates unchanged', ords, o0)


@contract('SimulatedCommissioning.set_magnet_setpoints', 'SimulatedCommissioning._dipole_compensation',
          'SimulatedCommissioning.set_cm_setpoints', params=dict(method=('abs', 'rel', 'add'), skewness=(False, True), order=(1, 2)),
          only=lambda method, skewness, order: (not skewness and order == 1) or method == 'abs')
def dipole_compensation(B, method, skewness, order):
    """normal quadrupole changes of bending correctors change the horizontal kick by the same bending, nothing else does"""
    letter = 'A' if skewness else 'B'
    bend = lambda R, r: B.And(B.has(R, 'BendingAngle', r), lambda: B.get(R, 'BendingAngle', r) != 0)

    def axiom(R, r):
        return B.And(B.Not(B.eq(B.get(R, 'PassMethod', r), 'CorrectorPass')), B.get(R, 'Length', r) != 0,
                     B.Implies(bend(R, r), lambda: B.And(B.len(B.get(R, 'NomPolynomB', r)) >= 2, B.len(B.get(R, 'SetPointB', r)) >= 2,
                                                         lambda: B.at(B.get(R, 'NomPolynomB', r), 1) != 0)))

    def repair(rng, el):
        import numpy as np
        el.PassMethod = 'StrMPoleSymplectic4Pass'
        if getattr(el, 'BendingAngle', 0) != 0:
            for a in ('NomPolynomB', 'SetPointB', 'SetPointA'):
                v = getattr(el, a)
                setattr(el, a, np.concatenate([v, np.array([0.7 + rng.random() for _ in range(2 - len(v))])]))
            if el.NomPolynomB[1] == 0:
                el.NomPolynomB[1] = 0.6
    ring, ords = setup(B, order, letter, axiom=axiom, repair=repair, absent=('CMlimit',))
    hcm = B.ords('hcm', ring)
    SC = B.machine(ring, HCM=hcm)
    n = B.len(ords)
    setp = B.vec('setpoints', n)
    s0 = B.copy(setp)
    old, ideal = B.snapshot(SC.RING), B.snapshot(SC.IDEALRING)
    sel = lambda r: B.member(ords, r)
    out = B.call(SC.set_magnet_setpoints, ords, setp, skewness, order, method, dipole_compensation=True)
    B.ensure('accepted', out.ok)
    if not out.ok:
        return
    R = SC.RING
    want = wanted(B, old, s0, method, letter, order, skewness, ords, False)
    active = order == 1 and not skewness

    def comp(r):
        a, b = B.get(R, f'SetPoint{letter}', r), B.get(old, f'SetPoint{letter}', r)
        return B.And(B.eq(B.at(a, order), want(r)), B.eq(B.len(a), B.len(b)),
                     B.forall(B.len(b), lambda i: B.Or(B.eq(i, order), B.eq(i, 0) if active else False,
                                                       lambda: B.eq(B.vecat(a, i), B.vecat(b, i)))))
    B.rows('stored setpoint', R, lambda r: B.Implies(sel(r), lambda: comp(r)))
    if active:
        def kick(r):
            change = (want(r) - B.at(B.get(old, 'SetPointB', r), 1)) / B.at(B.get(old, 'NomPolynomB', r), 1) * B.get(old, 'BendingAngle', r)
            return c03.kick(B, old, 'B', r) + change
        on = lambda r: B.And(bend(old, r), B.member(hcm, r))
        B.rows('compensating kick', R, lambda r: B.Implies(sel(r), lambda: B.If(
            on(r), lambda: B.eq(c03.kick(B, R, 'B', r), kick(r)),
            lambda: B.eq(B.at(B.get(R, 'SetPointB', r), 0), B.at(B.get(old, 'SetPointB', r), 0)))))
    fields(B, SC, B.snapshot(R), old, sel)
    B.frame('frame', R, old, {f'SetPoint{letter}': sel, 'PolynomA': sel, 'PolynomB': sel, 'MaxOrder': sel})
    B.isolated(SC, ideal)
    B.unchanged('caller\'s setpoints unchanged', setp, s0)


@contract('check_input_and_setpoints', 'SimulatedCommissioning.set_magnet_setpoints', params=dict(why=('mode', 'length'), skewness=(False, True)))
def rejected(B, why, skewness):
    ring, ords = setup(B, 1, 'A' if skewness else 'B')
    SC = B.machine(ring)
    n = B.len(ords)
    m = n if why == 'mode' else B.size('m', 0)
    setp = B.vec('setpoints', m)
    if why == 'length':
        B.assume(B.And(m != 1, m != n))
    old = B.snapshot(SC.RING)
    out = B.call(SC.set_magnet_setpoints, ords, setp, skewness, 1, 'relative' if why == 'mode' else 'add')
    B.ensure('rejected with ValueError', out.raised(ValueError))
    B.frame('nothing changed', SC.RING, old)
