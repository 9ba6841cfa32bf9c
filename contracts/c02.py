"""C02: cavity voltage, frequency and time lag follow their setpoints."""
from pydv.contract import contract
from pydv.heap import REAL_K

PROPS = ('Voltage', 'Frequency', 'TimeLag')
FIELDS = {p + s: REAL_K for p in PROPS for s in ('', 'SetPoint', 'Offset', 'CalError')}


def fields_follow(B, SC, sel):
    """actual = setpoint * (1 + calibration error) + offset for every addressed cavity"""
    for p in PROPS:
        B.rows(f'{p} = setpoint * (1 + calibration error) + offset', SC.RING,
               lambda r, p=p: B.Implies(sel(r), lambda: B.eq(
                   B.get(SC.RING, p, r),
                   B.get(SC.RING, p + 'SetPoint', r) * (1 + B.get(SC.RING, p + 'CalError', r)) + B.get(SC.RING, p + 'Offset', r))))


@contract('SimulatedCommissioning.set_cavity_setpoints', 'SimulatedCommissioning.update_cavities', 'check_input_and_setpoints',
          params=dict(method=('abs', 'rel', 'add'), param=PROPS, single=(True, False)))
def set_cavity_setpoints(B, method, param, single):
    ring = B.ring()
    ords = B.ords('ords', ring, must=FIELDS)
    B.maybe(ring, FIELDS)
    SC = B.machine(ring)
    n = B.len(ords)
    setp = B.vec('setpoints', 1 if single else n)
    s0, o0 = B.copy(setp), B.copy(ords)
    old, ideal = B.snapshot(SC.RING), B.snapshot(SC.IDEALRING)
    out = B.call(SC.set_cavity_setpoints, B.as_input(ords), B.as_input(setp), param, method)
    B.ensure('accepted', out.ok)
    if not out.ok:
        return
    sel = lambda r: B.member(ords, r)
    attr = param + 'SetPoint'

    def want(r):
        v = B.at(s0, 0 if single else B.index_of(ords, r))
        cur = B.get(old, attr, r)
        return v if method == 'abs' else (v * cur if method == 'rel' else v + cur)
    B.rows('stored setpoint', SC.RING, lambda r: B.Implies(sel(r), lambda: B.eq(B.get(SC.RING, attr, r), want(r))))
    fields_follow(B, SC, sel)
    B.frame('frame', SC.RING, old, {attr: sel, **{p: sel for p in PROPS}})
    B.isolated(SC, ideal)
    B.unchanged('caller\'s setpoints unchanged', setp, s0)
    B.unchanged('caller\'s ordinates unchanged', ords, o0)


@contract('SimulatedCommissioning.update_cavities', params=dict(given=(True, False)))
def update_cavities(B, given):
    ring = B.ring()
    ords = B.ords('ords', ring, must=FIELDS, sort=not given)
    B.maybe(ring, FIELDS)
    SC = B.machine(ring) if given else B.machine(ring, RF=ords)
    old, ideal = B.snapshot(SC.RING), B.snapshot(SC.IDEALRING)
    out = B.call(SC.update_cavities, ords) if given else B.call(SC.update_cavities)
    B.ensure('accepted', out.ok)
    sel = lambda r: B.member(ords, r)
    fields_follow(B, SC, sel)
    B.frame('frame', SC.RING, old, {p: sel for p in PROPS})
    B.isolated(SC, ideal)


@contract('check_input_and_setpoints', 'SimulatedCommissioning.set_cavity_setpoints', params=dict(why=('mode', 'length')))
def rejected(B, why):
    ring = B.ring()
    ords = B.ords('ords', ring, must=FIELDS)
    SC = B.machine(ring)
    n = B.len(ords)
    m = n if why == 'mode' else B.size('m', 0)
    setp = B.vec('setpoints', m)
    if why == 'length':
        B.assume(B.And(m != 1, m != n))
    old = B.snapshot(SC.RING)
    out = B.call(SC.set_cavity_setpoints, ords, setp, 'Voltage', 'relative' if why == 'mode' else 'add')
    B.ensure('rejected with ValueError', out.raised(ValueError))
    B.frame('nothing changed', SC.RING, old)
