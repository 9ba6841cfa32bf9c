"""C13: measurement procedures leave the machine as they found it."""
import numpy as np
from pydv.contract import contract, borrow
from . import c01, c03, c04, c20

MEAS = 'pySC.lattice_properties.response_measurement'
LOCO = 'pySC.correction.loco'
TRUSTED = []


class Readings:
    """bpm_reading by contract: any numbers or not-a-number of the right shape, nothing changed"""

    def __init__(self, B, mod, SC, points, seen=None):
        self.B, self.SC, self.n, self.seen, self.calls = B, SC, points, seen, 0
        B.stub(mod, 'bpm_reading', sym=self.read, conc=self.read)

    def read(self, SC, bpm_ords=None, *a, **k):
        self.calls += 1
        if self.seen is not None:
            self.seen(SC, bpm_ords)
        return self.B.unknown('reading', (2, self.n), nan=True), self.B.unknown('transmission', (self.n,))


@contract('dispersion', 'SimulatedCommissioning.set_cavity_setpoints', 'SimulatedCommissioning.update_cavities',
          params=dict(given=(True, False), two=(True, False)))
def dispersion(B, given, two):
    """the frequency of the cavities is stepped and put back, whatever is read"""
    SC, cav, bpm = c20.setup(B, given)
    n = B.size('points', 1, 5)
    Readings(B, MEAS, SC, n)
    step = B.real('rf_step', nz=True)
    z0, old, ideal = B.copy(SC.INJ.Z0), B.snapshot(SC.RING), B.snapshot(SC.IDEALRING)
    kw = dict(cav_ords=cav, bpm_ords=bpm) if given else {}
    if not two:
        m = B.size('steps', 1, 6)
        B.assume(m != 2)
        kw['n_steps'] = m
    out = B.call(B.mod(MEAS).dispersion, SC, step, **kw)
    B.ensure('accepted', out.ok, repr(out.exc))
    if not out.ok:
        return
    B.ensure('a value per reading', B.eq(B.len(out.value), 2 * n))
    c20.final(B, SC, cav, old, ideal, 'Frequency', None, z0)


def correctors(B, errors, sort=False):
    """horizontal and vertical correctors within their limits"""
    ring = B.ring(kinds={'CMlimit': c03.vec(2)}, absent=tuple(c01.SYS) + ('MasterOf',) + (() if errors == 'bend' else tuple(c01.BEND)))
    B.maybe(ring, c01.BEND if errors == 'bend' else c01.OFFS)
    if errors == 'bend':
        B.must(ring, lambda r: True, c01.OFFS)
    B.maybe(ring, c03.LIM)

    def within(p):
        return lambda r: B.And(c03.ok(B, ring, r), lambda: B.Implies(B.has(ring, 'CMlimit', r), lambda: B.le(
            B.abs(c03.kick(B, ring, 'BA'[p], r)), B.at(B.get(ring, 'CMlimit', r), p))))

    def fix(p):
        def f(rng, el):
            c03.fix(rng, el)
            if hasattr(el, 'CMlimit'):
                for q in range(2):
                    x = 'BA'[q]
                    k = getattr(el, f'SetPoint{x}')[0] * (1 if el.PassMethod == 'CorrectorPass' else el.Length)
                    el.CMlimit[q] = max(el.CMlimit[q], abs(k) * (1 + 1e-12) if rng.random() < 0.5 else abs(k) * 1.00001)
        return f
    hcm = B.ords('hcm', ring, must=c01.MUST, sort=sort, axioms=within(0), repair=fix(0))
    vcm = B.ords('vcm', ring, must=c01.MUST, sort=sort, axioms=within(1), repair=fix(1))
    return ring, hcm, vcm


def magnets_restored(B, SC, old, ideal, sel):
    """all setpoints as before; the fields of the addressed magnets follow them (C01), nothing else changed"""
    now = B.snapshot(SC.RING)
    for y in 'AB':
        P = lambda t, y=y: B.get(SC.RING, f'Polynom{y}', t)
        B.rows(f'field law of Polynom{y}', SC.RING, lambda t, y=y: B.Implies(sel(t), lambda: B.forall(
            c01.length(B, now, t, t, y, ()), lambda i: B.eq(B.vecat(P(t), i), c01.field(B, now, t, t, y, i, ())))))
    thin = lambda r: B.And(sel(r), lambda: B.eq(B.get(old, 'PassMethod', r), 'CorrectorPass'))
    B.frame('machine as before', SC.RING, old, {'PolynomA': sel, 'PolynomB': sel, 'MaxOrder': sel, 'KickAngle': thin})
    B.isolated(SC, ideal)


@contract('measure_closed_orbit_response_matrix', 'SimulatedCommissioning.set_cm_setpoints', 'SimulatedCommissioning.get_cm_setpoints',
          'SimulatedCommissioning.update_magnets', params=dict(errors=('offsets', 'bend')))
def closed_orbit_matrix(B, errors):
    """every corrector is put back, also when it clips at its limit"""
    ring, hcm, vcm = correctors(B, errors)
    bpm = B.ords('bpms', ring, lo=1)
    SC = B.machine(ring)
    Readings(B, LOCO, SC, B.len(bpm))
    old, ideal = B.snapshot(SC.RING), B.snapshot(SC.IDEALRING)
    z0, turns = B.copy(SC.INJ.Z0), SC.INJ.nTurns
    h0, v0 = B.copy(hcm), B.copy(vcm)
    out = B.call(B.mod(LOCO).measure_closed_orbit_response_matrix, SC, bpm, [hcm, vcm], B.real('dkick', nz=True))
    B.ensure('accepted', out.ok, repr(out.exc))
    if not out.ok:
        return
    B.ensure('a column per corrector', B.And(len(B.shape(out.value)) == 2, lambda: B.eq(B.shape(out.value)[0], 2 * B.len(bpm)),
                                             lambda: B.eq(B.shape(out.value)[1], B.len(hcm) + B.len(vcm))))
    magnets_restored(B, SC, old, ideal, lambda r: B.Or(B.member(hcm, r), lambda: B.member(vcm, r)))
    B.unchanged('injected trajectory as before', SC.INJ.Z0, z0)
    B.ensure('number of turns as before', B.eq(SC.INJ.nTurns, turns))
    B.unchanged('corrector ordinates unchanged', hcm, h0)
    B.unchanged('vertical corrector ordinates unchanged', vcm, v0)


# ---------------------------------------------------------------- beam-based alignment
BBA = 'pySC.correction.bba'


def bending(B, R, r):
    return B.And(B.has(R, 'BendingAngle', r), lambda: B.get(R, 'BendingAngle', r) != 0)


def magnets(B, name, order, letter, bend, ring=None, n=None, without=None):
    """magnets within their skew limit; with bend, also combined-function magnets (dipole compensation may clip)"""
    if ring is None:
        ring = B.ring(kinds={'CMlimit': c03.vec(2)}, absent=tuple(c01.SYS) + ('MasterOf',) + (() if bend else tuple(c01.BEND)[:3]))
        B.maybe(ring, dict(c01.OFFS, SkewQuadLimit=c04.REAL_K))
        B.maybe(ring, c03.LIM)
        if bend:
            B.maybe(ring, c01.BEND)
    must = dict(c01.MUST, NomPolynomA=c03.vec(lo=1), NomPolynomB=c03.vec(lo=1))
    must[f'SetPoint{letter}'] = must[f'NomPolynom{letter}'] = c03.vec(lo=order + 1)

    def axioms(r):
        return B.And(c03.ok(B, ring, r), B.Not(B.eq(B.get(ring, 'PassMethod', r), 'CorrectorPass')) if bend else True,
                     B.Implies(B.has(ring, 'SkewQuadLimit', r), lambda: B.And(
                         B.get(ring, 'SkewQuadLimit', r) >= 0,
                         B.abs(B.vecat(B.get(ring, 'SetPointA', r), 1)) <= B.get(ring, 'SkewQuadLimit', r))),
                     B.Implies(bending(B, ring, r), lambda: B.And(
                         B.len(B.get(ring, 'NomPolynomB', r)) >= 2, B.len(B.get(ring, 'SetPointB', r)) >= 2,
                         lambda: B.at(B.get(ring, 'NomPolynomB', r), 1) != 0)) if bend else True)

    def repair(rng, el):
        if bend:
            el.PassMethod = 'StrMPoleSymplectic4Pass'
        c03.fix(rng, el)
        need = {f'{pre}{letter}': order + 1 for pre in ('SetPoint', 'NomPolynom')}
        if getattr(el, 'BendingAngle', 0) != 0:
            need = {a: max(2, need.get(a, 0)) for a in ('NomPolynomB', 'SetPointB', 'SetPointA', *need)}
        for a, m in need.items():
            v = getattr(el, a)
            setattr(el, a, np.concatenate([v, np.array([0.7 + rng.random() for _ in range(m - len(v))])]))
        if getattr(el, 'BendingAngle', 0) != 0:
            if el.NomPolynomB[1] == 0:
                el.NomPolynomB[1] = 0.6
            if hasattr(el, 'CMlimit') and rng.random() < 0.7:
                el.CMlimit[0] = abs(el.SetPointB[0] * el.Length) + 1e-3 * rng.random()
        el.SetPointA = np.concatenate([el.SetPointA, np.zeros(max(0, len(el.SetPointB) - len(el.SetPointA)))])
        if hasattr(el, 'SkewQuadLimit'):
            el.SkewQuadLimit = max(abs(el.SkewQuadLimit), abs(el.SetPointA[1]) if len(el.SetPointA) > 1 else 0)
    return ring, B.ords(name, ring, must=must, axioms=axioms, repair=repair, n=n, without=without)


def at_rest(B, SC, old, ideal, sel, z0, turns, extra=None):
    """every setpoint as before"""
    thin = lambda r: B.And(sel(r), lambda: B.eq(B.get(old, 'PassMethod', r), 'CorrectorPass'))
    now = B.snapshot(SC.RING)
    for y in 'AB':
        P = lambda t, y=y: B.get(SC.RING, f'Polynom{y}', t)
        B.rows(f'field law of Polynom{y}', SC.RING, lambda t, y=y: B.Implies(sel(t), lambda: B.forall(
            c01.length(B, now, t, t, y, ()), lambda i: B.eq(B.vecat(P(t), i), c01.field(B, now, t, t, y, i, ())))))
    B.frame('machine as before', SC.RING, old, dict({'PolynomA': sel, 'PolynomB': sel, 'MaxOrder': sel, 'KickAngle': thin}, **(extra or {})))
    B.isolated(SC, ideal)
    B.unchanged('injected trajectory as before', SC.INJ.Z0, z0)
    B.ensure('number of turns as before', B.eq(SC.INJ.nTurns, turns))


def beam(SC, B, plane, points, what='any'):
    """bpm_reading by contract: any readings"""
    B.stub(BBA, 'bpm_reading', sym=lambda *a, **k: read(), conc=lambda *a, **k: read())

    def read():
        lost = B.build((2, points), lambda i, j: B.nan) if what == 'lost' else None
        return lost if lost is not None else B.unknown('reading', (2, points), nan=what == 'any'), B.unknown('transmission', (points,))


@contract('_data_measurement_tbt', 'SimulatedCommissioning.set_magnet_setpoints', 'SimulatedCommissioning._dipole_compensation',
          'SimulatedCommissioning.set_cm_setpoints', 'SimulatedCommissioning.update_magnets',
          params=dict(bend=(False, True), plane=(0, 1), skewness=(False, True), order=(1, 2), method=('abs', 'rel', 'add'), strengths=(1, 2, 3)),
          only=lambda bend, plane, skewness, order, method, strengths: (not bend or (not skewness and order == 1)) and (plane == 0 or method == 'rel')
          and (bend or order == 1 or not skewness) and (strengths == 2 or method == 'rel') and (strengths < 3 or not bend),
          quick=lambda bend, plane, skewness, order, method, strengths: strengths == 2 or not bend and strengths == 3 and order == 1)
def alignment_scan(B, bend, plane, skewness, order, method, strengths):
    """one magnet is scanned against the injected trajectory and put back"""
    ring, ords = magnets(B, 'magnet', order, 'A' if skewness else 'B', bend, n=1)
    hcm = B.ords('hcm', ring)
    bpm = B.ords('bpms', ring, lo=1)
    SC = B.machine(ring, HCM=hcm, BPM=bpm)
    SC.INJ.nTurns, SC.INJ.trackMode = 2, 'TBT'
    n = B.len(bpm)
    beam(SC, B, plane, 2 * n)
    steps, down = B.size('steps', 1, 4), B.size('downstream', 1, 4)
    B.assume(down <= n)
    if not B.symbolic:
        down = min(down, n)
    where = B.index('adjacent', n)
    par = B.mod('pySC.core.classes').DotDict(dict(
        n_steps=steps, magnet_order=order, skewness=skewness, setpoint_method=method, num_downstream_bpms=down, dipole_compensation=bend,
        max_injection_pos_angle=B.vec('angles', 2), magnet_strengths=B.arr('strengths', (2, 1, strengths))))
    z0, turns = B.copy(SC.INJ.Z0), SC.INJ.nTurns
    old, ideal = B.snapshot(SC.RING), B.snapshot(SC.IDEALRING)
    s0 = B.copy(par.magnet_strengths)
    out = B.call(B.mod(BBA)._data_measurement_tbt, SC, B.at(ords, 0), where, 0, plane, B.real('scaling'), par)
    B.ensure('accepted', out.ok, repr(out.exc))
    if not out.ok:
        return
    at_rest(B, SC, old, ideal, lambda r: B.member(ords, r), z0, turns)
    B.unchanged('scan range unchanged', par.magnet_strengths, s0)


@contract('_scale_injection_to_reach_bpms', params=dict(plane=(0, 1), what=('good', 'lost')))
def injection_scan(B, plane, what):
    """beam reaching all monitors at once, or never (anything in between below)"""
    scan(B, plane, what)


@contract('_scale_injection_to_reach_bpms', params=dict(plane=(0, 1)), bounded=True, runs=300)
def injection_scan_any(B, plane):
    scan(B, plane, 'any')


def scan(B, plane, what):
    ring = B.ring()
    bpm = B.ords('bpms', ring, lo=1)
    SC = B.machine(ring, BPM=bpm)
    turns = SC.INJ.nTurns = B.int('turns', 1, 4)
    n = B.len(bpm)
    beam(SC, B, plane, n, what)
    z0, old, ideal = B.copy(SC.INJ.Z0), B.snapshot(SC.RING), B.snapshot(SC.IDEALRING)
    angles = B.vec('angles', 2)
    a0 = B.copy(angles)
    out = B.call(B.mod(BBA)._scale_injection_to_reach_bpms, SC, plane, B.index('last', n), angles)
    B.ensure('accepted', out.ok, repr(out.exc))
    if not out.ok:
        return
    B.ensure('scaled down', B.And(out.value[0] > 0, out.value[0] <= 1))
    B.ensure('a range per monitor', B.eq(B.len(out.value[1]), n))
    B.frame('machine as before', SC.RING, old)
    B.isolated(SC, ideal)
    B.unchanged('injected trajectory as before', SC.INJ.Z0, z0)
    B.ensure('number of turns as before', B.eq(SC.INJ.nTurns, turns))
    B.unchanged('angles unchanged', angles, a0)


def injection_contract(B, n):
    """_scale_injection_to_reach_bpms by contract (proved above): a factor and the ranges, nothing changed"""
    f = lambda *a, **k: (B.unknown('scaling'), B.unknown('range', (n,), lo=0.0))
    B.stub(BBA, '_scale_injection_to_reach_bpms', sym=f, conc=f)


@contract('_phase_advance_injection_scan', 'SimulatedCommissioning.set_magnet_setpoints', 'SimulatedCommissioning._dipole_compensation',
          'SimulatedCommissioning.set_cm_setpoints', 'SimulatedCommissioning.update_magnets', params=dict(bend=(False, True), settings=(1, 2, 3)),
          only=lambda bend, settings: not bend or settings < 3, quick=lambda bend, settings: settings == 3 - bend)
def phase_scan(B, bend, settings):
    ring, quads = magnets(B, 'quads', 1, 'B', bend)
    hcm = B.ords('hcm', ring)
    bpm = B.ords('bpms', ring, lo=1)
    SC = B.machine(ring, HCM=hcm, BPM=bpm)
    n = B.len(bpm)
    injection_contract(B, n)
    changes = B.vec('settings', settings)
    par = B.mod('pySC.core.classes').DotDict(dict(q_ord_phase=quads, q_ord_setpoints=changes, max_injection_pos_angle=B.vec('angles', 2)))
    z0, turns = B.copy(SC.INJ.Z0), SC.INJ.nTurns
    old, ideal = B.snapshot(SC.RING), B.snapshot(SC.IDEALRING)
    q0, c0 = B.copy(quads), B.copy(changes)
    out = B.call(B.mod(BBA)._phase_advance_injection_scan, SC, 0, B.index('last', n), par)
    B.ensure('accepted', out.ok, repr(out.exc))
    if not out.ok:
        return
    at_rest(B, SC, old, ideal, lambda r: B.member(quads, r), z0, turns)
    B.unchanged('quadrupole ordinates unchanged', quads, q0)
    B.unchanged('settings unchanged', changes, c0)


@contract('trajectory_bba', '_check_input', '_phase_advance_injection_scan', '_data_measurement_tbt', 'apply_bpm_offsets', 'is_bba_errored',
          'SimulatedCommissioning.set_magnet_setpoints', params=dict(planes=(1, 2), quads=(False, True)),
          only=lambda planes, quads: planes == 1 or not quads)
def whole_alignment(B, planes, quads):
    """one monitor per plane: everything put back, only offsets of the given monitors change"""
    ring, mags = magnets(B, 'magnets', 1, 'B', False, n=planes)
    q = magnets(B, 'quads', 1, 'B', False, ring)[1] if quads else None
    bpm = B.ords('bpms', ring, lo=1, must=dict(Offset=c03.vec(2)))
    SC = B.machine(ring, BPM=bpm)
    SC.INJ.nTurns, SC.INJ.trackMode = 2, 'TBT'
    n = B.len(bpm)
    j = [B.index(f'adjacent{p}', n) for p in range(planes)]
    beam(SC, B, 0, 2 * n)
    injection_contract(B, n)
    found = []

    def evaluate(*a, **k):
        found.append((B.unknown('offset', nan=True), B.unknown('error', lo=0.0)))
        return found[-1]
    B.stub(BBA, '_data_evaluation', sym=evaluate, conc=evaluate)
    bords = B.const([[0]] * planes)
    for p in range(planes):
        bords[p, 0] = B.at(bpm, j[p])
    mords = B.const([[0]] * planes)
    for p in range(planes):
        mords[p, 0] = B.at(mags, p)
    z0, turns = B.copy(SC.INJ.Z0), SC.INJ.nTurns
    old, ideal = B.snapshot(SC.RING), B.snapshot(SC.IDEALRING)
    kw = dict(q_ord_phase=q, q_ord_setpoints=B.vec('settings', 1)) if quads else {}
    out = B.call(B.mod(BBA).trajectory_bba, SC, bords, mords, n_steps=2, num_downstream_bpms=1, magnet_strengths=B.vec('strengths', 2), **kw)
    B.ensure('accepted', out.ok, repr(out.exc))
    if not out.ok:
        return
    R = SC.RING
    hit = lambda p, r: B.eq(B.at(bpm, j[p]), r)
    at_rest(B, SC, old, ideal, lambda r: B.Or(B.member(mags, r), lambda: B.member(q, r) if quads else False), z0, turns,
            dict(Offset=lambda r: B.Or(*[hit(p, r) for p in range(planes)])))
    for p in range(2):
        def f(r, p=p):
            had, now = B.at(B.get(old, 'Offset', r), p), B.at(B.get(R, 'Offset', r), p)
            if p >= planes:
                return B.eq(now, had)
            off, err = found[p]
            use = B.And(hit(p, r), lambda: B.eq(B.isnan(off), False), lambda: B.abs(off) <= 1.5e-3, lambda: B.abs(off) >= 2.5 * err)
            return B.If(use, lambda: B.eq(now, had + off), lambda: B.eq(now, had))
        B.rows(f'{"xy"[p]}: offset of the monitor', R, lambda r, f=f: B.Implies(B.member(bpm, r), lambda: f(r)))


TUNE = 'pySC.correction.tune'


@contract('tune_scan', 'SimulatedCommissioning.set_magnet_setpoints', 'SimulatedCommissioning.update_magnets',
          params=dict(points=(1,), full=(False, True)))
def tune(B, points, full):
    tune_contract(B, points, full)


@contract('tune_scan', 'SimulatedCommissioning.set_magnet_setpoints', params=dict(points=(2, 3), full=(False, True)), bounded=True, runs=150)
def tune_some(B, points, full):
    tune_contract(B, points, full)


def tune_contract(B, points, full):
    """a scan without any transmission leaves the machine as it was, otherwise exactly the reported setting is applied"""
    ring, q1 = magnets(B, 'first', 1, 'B', False)
    q2 = magnets(B, 'second', 1, 'B', False, ring, without=q1)[1]
    B.assume(B.And(B.len(q1) >= 1, B.len(q2) >= 1))
    SC = B.machine(ring)
    m = [B.size('m0', 1, 4), B.size('m1', 1, 4)]
    changes = [B.vec('change0', m[0]), B.vec('change1', m[1])]
    turns = B.size('turns', 1, 4)
    SC.INJ.nTurns = 1
    inds = B.const([[0] * points] * 2)
    for p in range(2):
        for i in range(points):
            inds[p, i] = B.index(f'ind{p}{i}', m[p])
    B.stub(TUNE, '_golden_donut_inds', sym=lambda *a, **k: inds, conc=lambda *a, **k: inds)
    inj = B.copy(SC.INJ.Z0)

    def transmission(S, *a, **k):
        lost = B.coin('lost')
        t = 0 if lost else B.unknown('turns', lo=0.0)
        f = B.unknown('fraction', (turns,), lo=0.0)
        return t, f * 0.0 if lost else f
    B.stub(TUNE, 'beam_transmission', sym=transmission, conc=transmission)
    target = B.real('target')
    old, ideal = B.snapshot(SC.RING), B.snapshot(SC.IDEALRING)
    c0 = [B.copy(x) for x in changes]
    out = B.call(B.mod(TUNE).tune_scan, SC, [q1, q2], changes, target=target, n_points=points, nTurns=turns, full_scan=full)
    failed = out.raised(RuntimeError)
    B.ensure('applied or failed', B.Or(out.ok, failed))
    R = SC.RING
    sel = lambda r: B.Or(B.member(q1, r), lambda: B.member(q2, r))
    at_rest(B, SC, old, ideal, sel, inj, 1, None if failed else dict(SetPointB=sel))
    for a, b in zip(changes, c0):
        B.unchanged('scan range unchanged', a, b)
    if not out.ok:
        return
    _, got, most, trans = out.value
    for p, q in enumerate((q1, q2)):
        def f(r, p=p):
            a, b = B.get(R, 'SetPointB', r), B.get(old, 'SetPointB', r)
            return B.And(B.eq(B.len(a), B.len(b)), B.eq(B.at(a, 1), got[p] * B.at(B.get(old, 'NomPolynomB', r), 1)),
                         B.forall(B.len(b), lambda i: B.Or(B.eq(i, 1), lambda: B.eq(B.vecat(a, i), B.vecat(b, i)))))
        B.rows(f'family {p}: the reported setting', R, lambda r, f=f, q=q: B.Implies(B.member(q, r), lambda: f(r)))
    last = lambda i: B.at(trans, B.at(inds, 0, i), B.at(inds, 1, i), turns - 1)
    seen = lambda i: B.at(most, B.at(inds, 0, i), B.at(inds, 1, i))
    at = lambda i: B.And(B.eq(got[0], B.at(changes[0], B.at(inds, 0, i))), B.eq(got[1], B.at(changes[1], B.at(inds, 1, i))))
    every = range(points)
    reached = lambda i: B.And(not full, B.eq(B.isnan(last(i)), False), lambda: last(i) >= target)
    none = B.And(*[B.eq(last(k), 0.0) for k in every])
    B.ensure('a scanned setting that reached the target, or the best', B.Or(*[B.And(at(i), B.Or(
        reached(i), lambda: B.And(*[B.eq(B.isnan(last(k)), False) for k in every], lambda: B.If(
            none, lambda: B.And(*[seen(i) >= seen(k) for k in every]), lambda: B.And(*[last(i) >= last(k) for k in every])))))
        for i in every]))


KEEP = ('as before', 'exactly the step', 'otherwise', 'setpoint * (1', 'design lattice', 'fails only')
borrow(__name__, c20, lambda name: any(k in name for k in KEEP), dict(rf_frequency={}, rf_phase={}))
