"""C03: corrector setpoints are kicks, with correct sign, scaling and clipping."""
from pydv.contract import contract
from pydv.heap import vec
from . import c01

LIM = {'CMlimit': vec(2)}


def kick(B, R, x, r):
    """setpoint of corrector r in plane x in radian"""
    sp = B.at(B.get(R, f'SetPoint{x}', r), 0)
    return B.If(B.eq(B.get(R, 'PassMethod', r), 'CorrectorPass'), lambda: sp,
                lambda: sp * B.get(R, 'Length', r) * (-1.0 if x == 'B' else 1.0))


def ok(B, R, r):
    return B.And(B.Or(B.eq(B.get(R, 'PassMethod', r), 'CorrectorPass'), B.get(R, 'Length', r) != 0),
                 B.Implies(B.has(R, 'CMlimit', r), lambda: B.And(B.at(B.get(R, 'CMlimit', r), 0) >= 0,
                                                                 B.at(B.get(R, 'CMlimit', r), 1) >= 0)),
                 c01.source_ok(B, R, r, ()), c01.pair_ok(B, R, r, r, ()))


def fix(rng, el):
    c01.fix(rng, el)
    if el.Length == 0:
        el.Length = 0.25
    if hasattr(el, 'CMlimit'):
        el.CMlimit = abs(el.CMlimit)


def setup(B):
    ring = B.ring(kinds={'CMlimit': vec(2)}, absent=tuple(c01.SYS) + ('MasterOf',))
    B.maybe(ring, dict(c01.OFFS, **c01.BEND))
    B.maybe(ring, LIM)
    ords = B.ords('ords', ring, must=c01.MUST, axioms=lambda x: ok(B, ring, x), repair=fix)
    return ring, ords


def clip(B, v, lim):
    return B.If(B.abs(v) > lim, lambda: B.If(v > 0, lambda: lim, lambda: B.If(v < 0, lambda: -lim, 0.0)), v)


@contract('SimulatedCommissioning.set_cm_setpoints', 'SimulatedCommissioning.get_cm_setpoints', 'check_input_and_setpoints',
          'SimulatedCommissioning.update_magnets', 'SimulatedCommissioning._update_magnets',
          params=dict(method=('abs', 'rel', 'add'), skewness=(False, True), single=(True, False)))
def set_cm_setpoints(B, method, skewness, single):
    ring, ords = setup(B)
    SC = B.machine(ring)
    n = B.len(ords)
    setp = B.vec('setpoints', 1 if single else n)
    s0, o0 = B.copy(setp), B.copy(ords)
    old, ideal = B.snapshot(SC.RING), B.snapshot(SC.IDEALRING)
    x = 'A' if skewness else 'B'
    sel = lambda r: B.member(ords, r)
    out = B.call(SC.set_cm_setpoints, B.as_input(ords), B.as_input(setp), skewness, method)
    B.ensure('accepted', out.ok)
    if not out.ok:
        return

    def want(r):
        v = B.at(s0, 0 if single else B.index_of(ords, r))
        cur = kick(B, old, x, r)
        v = v if method == 'abs' else (v * cur if method == 'rel' else v + cur)
        return B.If(B.has(old, 'CMlimit', r), lambda: clip(B, v, B.at(B.get(old, 'CMlimit', r), int(skewness))), v)
    B.rows('stored kick', SC.RING, lambda r: B.Implies(sel(r), lambda: B.eq(kick(B, SC.RING, x, r), want(r))))
    B.rows('other components of the setpoint', SC.RING, lambda r: B.Implies(sel(r), lambda: B.And(
        B.eq(B.len(B.get(SC.RING, f'SetPoint{x}', r)), B.len(B.get(old, f'SetPoint{x}', r))),
        B.forall(B.len(B.get(old, f'SetPoint{x}', r)), lambda i: B.Or(B.eq(i, 0), B.eq(
            B.vecat(B.get(SC.RING, f'SetPoint{x}', r), i), B.vecat(B.get(old, f'SetPoint{x}', r), i)))))))
    now = B.snapshot(SC.RING)
    for y in 'AB':
        P = lambda t, y=y: B.get(SC.RING, f'Polynom{y}', t)
        B.rows(f'field law of Polynom{y}', SC.RING, lambda t, y=y: B.Implies(sel(t), lambda: B.forall(
            c01.length(B, now, t, t, y, ()), lambda i: B.eq(B.vecat(P(t), i), c01.field(B, now, t, t, y, i, ())))))
    B.rows('maximum order and kick angles', SC.RING, lambda t: B.Implies(sel(t), lambda: c01.derived(B, SC.RING, t, t)))
    thin = lambda r: B.And(sel(r), lambda: B.eq(B.get(old, 'PassMethod', r), 'CorrectorPass'))
    B.frame('frame', SC.RING, old, {f'SetPoint{x}': sel, 'PolynomA': sel, 'PolynomB': sel, 'MaxOrder': sel, 'KickAngle': thin})
    B.isolated(SC, ideal)
    B.unchanged('caller\'s setpoints unchanged', setp, s0)
    B.unchanged('caller\'s ordinates unchanged', ords, o0)


@contract('SimulatedCommissioning.get_cm_setpoints', params=dict(skewness=(False, True)))
def get_cm_setpoints(B, skewness):
    ring, ords = setup(B)
    SC = B.machine(ring)
    x = 'A' if skewness else 'B'
    old, o0 = B.snapshot(SC.RING), B.copy(ords)
    out = B.call(SC.get_cm_setpoints, ords, skewness)
    B.ensure('accepted', out.ok)
    if not out.ok:
        return
    n = B.len(ords)
    B.ensure('one kick per corrector', B.eq(B.shape(out.value)[0], n))
    B.ensure('kicks read back', B.forall(n, lambda i: B.eq(B.at(out.value, i), kick(B, old, x, B.at(o0, i)))))
    B.frame('reading changes nothing', SC.RING, old)
    B.unchanged('caller\'s ordinates unchanged', ords, o0)


@contract('check_input_and_setpoints', 'SimulatedCommissioning.set_cm_setpoints', params=dict(why=('mode', 'length'), skewness=(False, True)))
def rejected(B, why, skewness):
    ring, ords = setup(B)
    SC = B.machine(ring)
    n = B.len(ords)
    m = n if why == 'mode' else B.size('m', 0)
    setp = B.vec('setpoints', m)
    if why == 'length':
        B.assume(B.And(m != 1, m != n))
    old = B.snapshot(SC.RING)
    out = B.call(SC.set_cm_setpoints, ords, setp, skewness, 'relative' if why == 'mode' else 'add')
    B.ensure('rejected with ValueError', out.raised(ValueError))
    B.frame('nothing changed', SC.RING, old)
