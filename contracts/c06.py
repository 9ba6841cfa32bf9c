"""C06: design lattice, caller's lattice and copies stay isolated from the machine."""
from pydv.contract import contract, borrow, put
from pydv.heap import REAL_K, vec
from contracts import c01, c02, c03, c04, c05

AB = 'AB'
RFP = ('Voltage', 'Frequency', 'TimeLag')
PHYS = dict(Length=REAL_K, PassMethod=None)


@contract('SimulatedCommissioning.__init__')
def init(B):
    m = B.mod('pySC.core.simulated_commissioning')
    ring = B.ring(attrs=('PolynomA', 'PolynomB', 'KickAngle', 'MasterOf'))
    old = B.snapshot(ring)
    out = B.call(m.SimulatedCommissioning, ring)
    B.ensure('accepted', out.ok)
    if not out.ok:
        return
    SC = out.value
    B.frame("caller's lattice unchanged", ring, old)
    B.frame('machine starts as the given lattice', SC.RING, old)
    B.frame('design lattice is the given lattice', SC.IDEALRING, old)
    B.ensure("machine and caller's lattice share nothing", lambda: B.disjoint(SC.RING, ring))
    B.ensure("design and caller's lattice share nothing", lambda: B.disjoint(SC.IDEALRING, ring))
    B.ensure('machine and design lattice share nothing', lambda: B.disjoint(SC.RING, SC.IDEALRING))


ORDS = ('BPM', 'RF', 'Magnet', 'HCM', 'VCM', 'SkewQuad')
INJ = ('Z0ideal', 'Z0', 'beamSize', 'randomInjectionZ', 'staticInjectionZ')


@contract('SimulatedCommissioning.very_deep_copy')
def very_deep_copy(B):
    ring = B.ring(attrs=('PolynomA', 'PolynomB', 'SetPointA', 'SetPointB', 'Offset', 'MasterOf', 'SysPolAFromB'), kinds=dict(SysPolAFromB=('sysdict', 1)))
    ords = {k: B.ords('o' + k, ring, sort=True) for k in ORDS}
    SC = B.machine(ring, sig=dict(BPM=c05.sigk(('Roll', 'Noise')), RF=c05.sigk(('VoltageOffset',)),
                                  Magnet=c05.sigk(('CalErrorA', 'MagnetOffset'))), **ords)
    for f in INJ:
        setattr(SC.INJ, f, B.arr('INJ' + f, (6, 6) if f == 'beamSize' else (6,)))
    SC.INJ.nParticles, SC.INJ.nTurns, SC.INJ.nShots = B.int('np', 1), B.int('nt', 1), B.int('ns', 1)
    SC.SIG.randomInjectionZ = B.arr('rz', (6,))
    SC.SIG.staticInjectionZ = B.arr('sz', (6,))
    old, ideal = B.snapshot(SC.RING), B.snapshot(SC.IDEALRING)
    sig = {t: B.sigs(SC, t) for t in ('BPM', 'RF', 'Magnet')}
    o0 = {k: B.copy(SC.ORD[k]) for k in ORDS}
    i0 = {k: B.copy(getattr(SC.INJ, k)) for k in INJ}
    r0, s0 = B.copy(SC.SIG.randomInjectionZ), B.copy(SC.SIG.staticInjectionZ)
    out = B.call(SC.very_deep_copy)
    B.ensure('accepted', out.ok)
    if not out.ok:
        return
    C = out.value
    for what, X in (('copy', C), ('original', SC)):
        # at.Lattice sets or removes Energy in every copy, depending on the pass method
        B.frame(f'{what}: same machine', X.RING, old, dict(Energy=True) if X is C else None)
        B.frame(f'{what}: same design lattice', X.IDEALRING, ideal, dict(Energy=True) if X is C else None)
        for t in sig:
            B.frame(f'{what}: same uncertainties {t}', B.sigs(X, t), sig[t])
        for k in ORDS:
            B.unchanged(f'{what}: same indices {k}', X.ORD[k], o0[k])
        for k in INJ:
            B.unchanged(f'{what}: same injection {k}', getattr(X.INJ, k), i0[k])
        B.unchanged(f'{what}: same jitter', X.SIG.randomInjectionZ, r0)
        B.unchanged(f'{what}: same static injection error', X.SIG.staticInjectionZ, s0)
    for n, a, b in (('machines', C.RING, SC.RING), ('design lattices', C.IDEALRING, SC.IDEALRING),
                    ('copied machine and design lattice', C.RING, C.IDEALRING),
                    ('copied machine and original design lattice', C.RING, SC.IDEALRING),
                    ('copied design lattice and original machine', C.IDEALRING, SC.RING)):
        B.ensure(f'{n} share nothing', lambda a=a, b=b: B.disjoint(a, b))
    B.ensure('indices not shared', B.separate(C.ORD, SC.ORD))
    B.ensure('uncertainties not shared', B.separate(C.SIG, SC.SIG))
    B.ensure('injection not shared', B.separate(C.INJ, SC.INJ))


AP = ('EApertures', 'RApertures')


def fix(rng, el):
    for x in AB:
        put(el, 'SetPoint' + x, [rng.uniform(-2, 2) for _ in getattr(el, 'Polynom' + x)])


@contract('SCgetModelRING', params=dict(aperture=(False, True)))
def model_ring(B, aperture):
    m = B.mod('pySC.lattice_properties.response_model')
    ring = B.ring(attrs=AP)
    B.ords('mag', ring, must={f'{f}{x}': vec(lo=1) for f in ('SetPoint', 'Polynom') for x in AB}, repair=fix)
    rf = B.ords('rf', ring, sort=True)
    SC = B.machine(ring, RF=rf)
    nrf = B.len(rf)
    B.must(ring, lambda r: B.And(nrf > 0, lambda: B.has(ring, 'Frequency', r)), {f'{p}SetPoint': REAL_K for p in RFP})
    old, ideal = B.snapshot(SC.RING), B.snapshot(SC.IDEALRING)
    out = B.call(m.SCgetModelRING, SC, includeAperture=aperture)
    B.ensure('accepted', out.ok)
    if not out.ok:
        return
    M = out.value
    mag = lambda r: B.And(B.has(old, 'SetPointA', r), lambda: B.has(old, 'SetPointB', r))
    cav = lambda r: B.And(nrf > 0, lambda: B.has(old, 'Frequency', r))
    for x in AB:
        B.rows(f'Polynom{x} = set point without dipole', M, lambda r, x=x: B.Implies(mag(r), lambda: B.And(
            B.has(M, 'Polynom' + x, r), lambda: no_dipole(B, B.get(M, 'Polynom' + x, r), B.get(old, 'SetPoint' + x, r)))))
    for p in RFP:
        B.rows(f'{p} = set point', M, lambda r, p=p: B.Implies(cav(r), lambda: B.And(
            B.has(M, p, r), lambda: B.eq(B.get(M, p, r), B.get(old, p + 'SetPoint', r)))))
    allowed = {**{f'Polynom{x}': mag for x in AB}, **{p: cav for p in RFP}}
    allowed['Energy'] = True        # at.Lattice sets or removes it in every copy, depending on the pass method
    if aperture:
        for a in AP:
            B.rows(f'{a} of the machine', M, lambda r, a=a: B.Implies(B.has(old, a, r), lambda: B.And(
                B.has(M, a, r), lambda: B.eq(B.get(M, a, r), B.get(old, a, r)))))
            allowed[a] = lambda r, a=a: B.has(old, a, r)
    B.frame('otherwise the design lattice', M, ideal, allowed)
    B.frame('machine unchanged', SC.RING, old)
    B.frame('design lattice unchanged', SC.IDEALRING, ideal)
    B.ensure('model and machine share nothing', lambda: B.disjoint(M, SC.RING))
    B.ensure('model and design lattice share nothing', lambda: B.disjoint(M, SC.IDEALRING))


def no_dipole(B, p, s):
    return B.And(B.eq(B.len(p), B.len(s)), lambda: B.eq(B.at(p, 0), 0.0),
                 lambda: B.forall(B.len(s) - 1, lambda k: B.eq(B.at(p, k + 1), B.at(s, k + 1))))


# no operation changes the design lattice (the same contracts decide the operations' own properties elsewhere)
DESIGN = lambda name: name.startswith('design lattice')
PICK = dict(
    update_magnets=dict(), split_magnets=dict(m=1, tab='none'), set_cavity_setpoints=dict(param='Voltage', single=False), update_cavities=dict(),
    set_cm_setpoints=dict(single=False), set_magnet_setpoints=dict(single=False, order=1), dipole_compensation=dict(),
    register_bpms=dict(), register_cavities=dict(), register_magnets=dict(opt='all'), register_supports=dict(n=1, old=1))
for mod in (c01, c02, c03, c04, c05):
    borrow(__name__, mod, DESIGN, PICK)
