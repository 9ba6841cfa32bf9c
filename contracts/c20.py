"""C20: the RF phase and frequency correction step is the fitted zero crossing."""
import numpy as np
from pydv.contract import contract
from pydv.heap import REAL_K

PROPS = ('Voltage', 'Frequency', 'TimeLag')
FIELDS = {p + s: REAL_K for p in PROPS for s in ('', 'SetPoint', 'Offset', 'CalError')}
RF = 'pySC.correction.rf'
TRUSTED = []


@contract('_fold_phase', params=dict(array=(False, True)))
def fold(B, array):
    """the representative within half a wavelength"""
    x, lamb = B.real('shift'), B.real('wavelength')
    B.assume(lamb > 0)
    arg = B.build((1,), lambda i: x) if array else x
    a0 = B.copy(arg) if array else None
    out = B.call(B.mod(RF)._fold_phase, arg, lamb)
    B.ensure('accepted', out.ok)
    if not out.ok:
        return
    if array:
        B.ensure('one value', B.And(len(B.shape(out.value)) == 1, lambda: B.eq(B.len(out.value), 1)))
        v = B.at(out.value, 0)
        B.unchanged('argument unchanged', arg, a0)
    else:
        v = out.value
    B.ensure('within half a wavelength', B.le(B.abs(v), lamb / 2))
    B.ensure('equal modulo one wavelength', B.congruent(x, v, lamb))


@contract('_check_data', params=dict(default=(True, False)))
def check_data(B, default):
    """exactly the valid points, in order; too few are rejected"""
    n = B.size('n', 0, 9)
    x, s, e = B.vec('x', n), B.arr('shift', (n,), nan=True), B.arr('error', (n,), nan=True)
    m = 6 if default else B.int('minimum', 0, 6)
    x0, s0, e0 = B.copy(x), B.copy(s), B.copy(e)
    f = B.mod(RF)._check_data
    out = B.call(f, x, s, e) if default else B.call(f, x, s, e, min_num_points=m)
    valid = B.count(n, lambda k: B.Not(B.isnan(B.at(s0, k))))
    B.ensure('rejected exactly when too few points are valid', B.eq(out.raised(RuntimeError), valid < m))
    B.ensure('accepted otherwise', B.Implies(B.eq(valid >= m, True), out.ok))
    if out.ok:
        for what, got, had in zip(('settings', 'shifts', 'errors'), out.value, (x0, s0, e0)):
            B.ensure(f'{what} of the valid points', B.And(len(B.shape(got)) == 1, lambda: B.filtered(
                got, had, lambda k: B.Not(B.isnan(B.at(s0, k))))))
    for what, a, b in (('settings', x, x0), ('shifts', s, s0), ('errors', e, e0)):
        B.unchanged(f'{what} unchanged', a, b)


def shots(B, T, n):
    """bpm_reading by contract: (2, turns * BPMs) numbers or not-a-number; returns the log of its calls and the reading"""
    calls = []
    read = B.arr('reading', (2, T * n), nan=True)

    def reading(SC, bpm_ords=None, *a, **k):
        calls.append((SC, bpm_ords, a, k))
        return B.copy(read), None
    B.stub(RF, 'bpm_reading', sym=reading, conc=reading)
    return calls, read


@contract('_get_tbt_energy_shift')
def energy_shift(B):
    """slope of the mean horizontal position change over the turns at which every BPM read a value"""
    ring = B.ring()
    bpm = B.ords('bpms', ring, lo=1)
    SC = B.machine(ring)
    n, T = B.len(bpm), B.size('turns', 3, 6)
    SC.INJ.nTurns = T
    calls, read = shots(B, T, n)
    if not B.symbolic:
        read[:] = np.where(np.isnan(read) & (B.nprng.rand(*read.shape) < 0.2), np.nan, B.nprng.randn(*read.shape))
    b0, old, ideal = B.copy(bpm), B.snapshot(SC.RING), B.snapshot(SC.IDEALRING)
    out = B.call(B.mod(RF)._get_tbt_energy_shift, SC, bpm)
    B.ensure('accepted', out.ok)
    if not out.ok:
        return
    B.ensure('one reading of the given BPMs', len(calls) == 1 and calls[0][0] is SC and calls[0][1] is bpm)
    slope, err, mean = out.value
    x = lambda t, j: B.at(read, 0, t * n + j)
    lost = lambda t: B.exists(n, lambda j: B.Or(B.isnan(x(t, j)), lambda: B.isnan(x(0, j))))
    change = lambda t: B.sum(n, lambda j: x(t, j) - x(0, j)) / n
    B.ensure('one change per turn', B.And(len(B.shape(mean)) == 1, lambda: B.eq(B.len(mean), T)))
    B.ensure('not-a-number for turns with a missing value', B.forall(T, lambda t: B.eq(B.isnan(B.at(mean, t)), lost(t))))
    B.ensure('mean position change relative to the first turn', B.forall(T, lambda t: B.Implies(
        B.Not(lost(t)), lambda: B.eq(B.at(mean, t), change(t)))))
    turns = B.select(T, lambda t: B.Not(B.isnan(B.at(mean, t))))
    m = B.len(turns)
    few = m < 3
    B.ensure('too few turns: no value', B.Implies(few, lambda: B.And(B.isnan(slope), B.isnan(err))))

    def fitted():
        at = lambda i: B.at(turns, i)
        centre = lambda t: B.sum(n, lambda j: x(t, j)) / n
        rms = lambda t: B.sqrt(B.sum(n, lambda j: (x(t, j) - centre(t)) * (x(t, j) - centre(t))) / n) / B.sqrt(n)
        ok, p, v = B.linfit(m, lambda i: at(i), lambda i: B.at(mean, at(i)), lambda i: 1 / (rms(at(i)) + 1e-9))
        return ok, p, v
    if not B.symbolic and few:
        return
    ok, p, v = fitted()
    B.ensure('fit of position changes over turns weighted with their errors', B.Implies(B.Not(few), ok))
    B.ensure('slope', B.Implies(B.Not(few), lambda: B.eq(slope, p[0])))
    B.ensure('error of the slope', B.Implies(B.Not(few), lambda: B.eq(err, B.sqrt(v[0]))))
    B.unchanged('BPM ordinates unchanged', bpm, b0)
    B.frame('frame', SC.RING, old)
    B.isolated(SC, ideal)


@contract('_check_inputs', params=dict(given=(True, False), mode=('TBT', 'ORB', 'PORB')))
def inputs(B, given, mode):
    """accepted exactly with turn-by-turn tracking, enough turns and steps, and cavities switched on"""
    ring = B.ring()
    bpm = B.ords('bpms', ring, sort=not given)
    cav = B.ords('cavities', ring, lo=1, sort=not given)
    SC = B.machine(ring, RF=cav, BPM=bpm)
    SC.INJ.trackMode = mode
    T, steps = B.size('turns', 0, 8), B.size('steps', 0, 12)
    SC.INJ.nTurns = T
    if not B.symbolic:
        for c in cav:
            if B.rng.random() < 0.7:
                SC.RING[c].Frequency, SC.RING[c].PassMethod = 5e8, B.rng.choice(['RFCavityPass', 'RFCavityPass', 'CavityPass', 'IdentityPass'])
    old = B.snapshot(SC.RING)
    f = B.mod(RF)._check_inputs
    out = B.call(f, SC, cav if given else None, bpm if given else None, steps)
    R = SC.RING
    on = B.every(B.len(cav), lambda i: B.And(B.has(R, 'Frequency', B.at(cav, i)), lambda: B.Or(
        B.eq(B.get(R, 'PassMethod', B.at(cav, i)), 'CavityPass'), B.eq(B.get(R, 'PassMethod', B.at(cav, i)), 'RFCavityPass'))))
    fine = B.And(mode == 'TBT', T >= 3, steps >= 6, on)
    B.ensure('rejected exactly when not usable', B.eq(out.raised(ValueError), B.Not(fine)))
    B.ensure('accepted otherwise', B.Implies(fine, out.ok))
    if out.ok:
        got_cav, got_bpm = out.value
        B.unchanged('cavities', got_cav, cav)
        B.unchanged('BPMs', got_bpm, bpm)
    B.frame('frame', SC.RING, old)


@contract('phase_and_energy_error', '_fold_phase')
def phase_error(B):
    """difference between closed orbit and injection; the phase modulo one period and within half a period"""
    ring = B.ring(kinds=dict(Frequency=REAL_K, FrequencySetPoint=REAL_K))
    cav = B.ords('cavities', ring, must=dict(Frequency=REAL_K, FrequencySetPoint=REAL_K), lo=1)
    SC = B.machine(ring)
    f0 = B.get(SC.RING, 'Frequency', B.at(cav, 0))
    if not B.symbolic:
        for c in cav:
            SC.RING[c].Frequency = B.rng.choice([5e8, 1e3, 7.0])
        f0 = SC.RING[cav[0]].Frequency
    B.assume(f0 > 0)
    SC.INJ.Z0 = B.vec('Z0', 6)
    z0 = B.copy(SC.INJ.Z0)
    tr = B.orbit()
    old, ideal = B.snapshot(SC.RING), B.snapshot(SC.IDEALRING)
    out = B.call(B.mod(RF).phase_and_energy_error, SC, cav)
    if not tr.calls:
        B.ensure('accepted', False, repr(out.exc))
        return
    found = tr.first()
    B.assume(B.Not(B.isnan(B.at(found, 0))))
    B.ensure('accepted', out.ok)
    if not out.ok:
        return
    ph, en = out.value
    lamb = 299792458.0 / f0
    B.ensure('within half a period', B.le(B.abs(ph), 180))
    B.ensure('phase offset of orbit and injection modulo one period', B.congruent(
        (B.at(found, 5) - B.at(z0, 5)), ph * lamb / 360, lamb))
    B.ensure('energy offset', B.eq(en, B.at(z0, 4) - B.at(found, 4)))
    B.ensure('one orbit search of the machine', len(tr.calls) == 1)
    B.unchanged('injection unchanged', SC.INJ.Z0, z0)
    B.frame('frame', SC.RING, old, dict(Energy=True))
    B.isolated(SC, ideal)


def setup(B, given):
    """a machine with cavities switched on whose fields follow their setpoints (C02)"""
    ring = B.ring()

    def follows(r):
        return B.And(B.eq(B.get(ring, 'PassMethod', r), 'RFCavityPass'), lambda: B.get(ring, 'FrequencySetPoint', r) > 0, *[B.eq(
            B.get(ring, p, r), B.get(ring, p + 'SetPoint', r) * (1 + B.get(ring, p + 'CalError', r)) + B.get(ring, p + 'Offset', r))
            for p in PROPS])

    def fix(rng, el):
        el.PassMethod = 'RFCavityPass'
        el.FrequencySetPoint = rng.choice([5e8, 1e8, 2e7])
        for p in PROPS:
            setattr(el, p, getattr(el, p + 'SetPoint') * (1 + getattr(el, p + 'CalError')) + getattr(el, p + 'Offset'))
    cav = B.ords('cavities', ring, must=FIELDS, lo=1, sort=not given, axioms=follows, repair=fix)
    bpm = B.ords('bpms', ring, lo=1, sort=not given)
    SC = B.machine(ring, RF=cav, BPM=bpm)
    SC.INJ.trackMode = 'TBT'
    SC.INJ.nTurns = B.size('turns', 3, 5)
    SC.INJ.Z0 = B.vec('Z0', 6)
    return SC, cav, bpm


class Sampling:
    """the turn-by-turn energy shifts by contract (any number or not-a-number), the valid points by the contract of _check_data"""

    def __init__(self, B, SC, bpm):
        self.B, self.calls, self.checked, self.fit, self.root = B, [], None, None, None
        B.stub(RF, '_get_tbt_energy_shift', sym=self.shift, conc=self.shift)
        B.stub(RF, '_check_data', sym=self.check, conc=self.check)
        self.SC, self.bpm = SC, bpm

    def shift(self, SC, bpm):
        self.calls.append((SC is self.SC, bpm))
        return self.B.unknown('shift', nan=True), self.B.unknown('shift.err', nan=True, lo=1e-3), None

    def check(self, x, s, e, min_num_points=6):
        B = self.B
        self.checked = (B.copy(x), min_num_points)
        if B.coin('few'):
            raise RuntimeError('Not enough data points for fit.')
        n = B.size('valid', 6, 8)
        self.n = n
        self.data = tuple(B.copy(v) for v in (B.vec('vx', n), B.vec('vs', n), B.vec('ve', n, lo=1e-3)))
        if not B.symbolic:
            self.data = (np.cumsum(np.abs(self.data[0]) + 0.1),) + self.data[1:]
        return tuple(B.copy(v) for v in self.data)


def final(B, SC, cav, old, ideal, attr, step, z0):
    """exactly one step added to the setpoint of every given cavity (None: none), fields follow, nothing else changed"""
    sel = lambda r: B.member(cav, r)
    if step is not None:
        B.rows('exactly the step is added', SC.RING, lambda r: B.Implies(sel(r), lambda: B.eq(
            B.get(SC.RING, attr + 'SetPoint', r), B.get(old, attr + 'SetPoint', r) + step)))
        for p in PROPS:
            B.rows(f'{p} = setpoint * (1 + calibration error) + offset', SC.RING, lambda r, p=p: B.Implies(sel(r), lambda: B.eq(
                B.get(SC.RING, p, r), B.get(SC.RING, p + 'SetPoint', r) * (1 + B.get(SC.RING, p + 'CalError', r)) + B.get(SC.RING, p + 'Offset', r))))
    B.frame('machine as before' if step is None else 'otherwise as before', SC.RING, old, {} if step is None else {attr: sel, attr + 'SetPoint': sel})
    B.isolated(SC, ideal)
    B.unchanged('injected trajectory as before', SC.INJ.Z0, z0)


def procedure(B, given, fun, attr, **kw):
    SC, cav, bpm = setup(B, given)
    S = Sampling(B, SC, bpm)
    steps = B.size('steps', 6, 9)
    z0, turns, old, ideal = B.copy(SC.INJ.Z0), SC.INJ.nTurns, B.snapshot(SC.RING), B.snapshot(SC.IDEALRING)
    c0, b0 = B.copy(cav), B.copy(bpm)
    out = B.call(getattr(B.mod(RF), fun), SC, **(dict(cav_ords=cav, bpm_ords=bpm) if given else {}), n_steps=steps, **kw)
    B.unchanged('cavity ordinates unchanged', cav, c0)
    B.unchanged('BPM ordinates unchanged', bpm, b0)
    B.ensure('number of turns as before', B.eq(SC.INJ.nTurns, turns))
    B.ensure('tracking mode as before', SC.INJ.trackMode == 'TBT')
    return SC, cav, old, ideal, z0, S, steps, out


@contract('correct_rf_frequency', '_check_inputs', 'SimulatedCommissioning.set_cavity_setpoints', 'SimulatedCommissioning.update_cavities',
          params=dict(given=(True, False)))
def rf_frequency(B, given):
    """the step is the zero of the fitted line, none if insignificant; errors leave the machine as it was"""
    lo, hi = B.real('f_lo'), B.real('f_hi')
    SC, cav, old, ideal, z0, S, steps, out = procedure(B, given, 'correct_rf_frequency', 'Frequency', f_range=(lo, hi))
    if S.checked is None:
        B.ensure('fails only for lack of data or a fit', False, repr(out.exc))
        return
    x, m = S.checked
    B.ensure('settings scanned', B.And(B.eq(B.len(x), steps), lambda: B.forall(steps, lambda i: B.eq(
        B.at(x, i), lo + (hi - lo) * i / (steps - 1)))))
    B.ensure('at least three points', B.eq(m, 3))
    if not out.ok:
        B.ensure('RuntimeError', out.raised(RuntimeError) or out.raised(ZeroDivisionError))
        return final(B, SC, cav, old, ideal, 'Frequency', None, z0)
    at = lambda k: lambda i: B.at(S.data[k], i)
    same, (a, b), (va, vb) = B.linfit(S.n, at(0), at(1), lambda i: 1 / at(2)(i))
    B.ensure('line fitted to the valid points weighted with their errors', same)
    weak = B.Or(B.abs(a) < 2 * B.sqrt(va), lambda: B.abs(b) < 2 * B.sqrt(vb))
    if not B.symbolic and min(abs(abs(a) - 2 * va ** 0.5) / abs(a), abs(abs(b) - 2 * vb ** 0.5) / abs(b)) < 1e-6:
        return
    step = B.If(weak, 0.0, lambda: -b / a)
    final(B, SC, cav, old, ideal, 'Frequency', step, z0)
    B.ensure('returns the machine', out.value is SC)


@contract('correct_rf_phase', '_check_inputs', '_fold_phase', 'SimulatedCommissioning.set_cavity_setpoints', 'SimulatedCommissioning.update_cavities',
          params=dict(given=(True, False)))
def rf_phase(B, given):
    """the step is the root found of the fitted sinusoid, folded into half a wavelength; none if insignificant"""
    fits, roots = [], []

    def curve_fit(f, x, y, **k):
        fits.append((f, B.copy(x), B.copy(y), k))
        p, cov = B.unknown('parameter', (3,)), B.unknown('covariance', (3, 3), lo=0)
        fits.append((B.copy(p), B.copy(cov)))
        return p, cov

    def fsolve(f, x0, **k):
        roots.append((f, B.unknown('root') if B.symbolic else float(x0) + B.rng.gauss(0, 1)))
        return B.build((1,), lambda i: roots[0][1])
    B.stub(RF, 'curve_fit', sym=curve_fit, conc=curve_fit)
    B.stub(RF, 'fsolve', sym=fsolve, conc=fsolve)
    SC, cav, old, ideal, z0, S, steps, out = procedure(B, given, 'correct_rf_phase', 'TimeLag')
    lamb = 299792458.0 / B.get(old, 'FrequencySetPoint', B.at(cav, 0))
    if S.checked is None:
        B.ensure('fails only for lack of data or a fit', False, repr(out.exc))
        return
    x, m = S.checked
    B.ensure('settings scanned: one wavelength', B.And(B.eq(B.len(x), steps), lambda: B.forall(steps, lambda i: B.eq(
        B.at(x, i), lamb * (i / (steps - 1) - 0.5)))))
    B.ensure('at least six points', B.eq(m, 6))
    if not fits:
        B.ensure('RuntimeError', out.raised(RuntimeError))
        return final(B, SC, cav, old, ideal, 'TimeLag', None, z0)
    f, fx, fy, k = fits[0]
    par, cov = fits[1]
    a, b, c = (B.at(par, i) for i in range(3))
    wave = lambda t, a, b, c: a * B.sin(2 * np.pi * t + b) + c
    t, ta, tb, tc = B.real('t'), B.real('ta'), B.real('tb'), B.real('tc')
    if B.symbolic and not hasattr(f, '__call__'):
        return
    B.ensure('sinusoid with the period of one wavelength', B.eq(f(t, ta, tb, tc), wave(t, ta, tb, tc)))
    B.ensure('fitted to the valid points', B.And(B.eq(B.len(fx), S.n), B.eq(B.len(fy), S.n), lambda: B.forall(S.n, lambda i: B.And(
        B.eq(B.at(fx, i), B.at(S.data[0], i) / lamb), B.eq(B.at(fy, i), B.at(S.data[1], i))))))
    B.ensure('weighted with their errors', B.And(k.get('absolute_sigma') is True, lambda: B.eq(k['sigma'], S.data[2])))
    if out.raised(RuntimeError):
        B.ensure('rejected only without zero crossing', B.abs(c) > B.abs(a))
        return final(B, SC, cav, old, ideal, 'TimeLag', None, z0)
    B.ensure('accepted', out.ok, repr(out.exc))
    if not out.ok:
        return
    B.ensure('rejected without zero crossing', B.abs(c) <= B.abs(a))
    weak = B.Or(B.abs(a) < 2 * B.sqrt(B.at(cov, 0, 0)), lambda: B.abs(c) < 2 * B.sqrt(B.at(cov, 2, 2)))
    g, z = roots[0]
    B.ensure('root of the fitted sinusoid', B.eq(g(t), wave(t / lamb, a, b, c)))
    r0 = B.at(cav, 0)
    step = B.get(SC.RING, 'TimeLagSetPoint', r0) - B.get(old, 'TimeLagSetPoint', r0)
    B.ensure('no step for an insignificant measurement', B.Implies(weak, lambda: B.eq(step, 0.0)))
    B.ensure('within half a wavelength', B.le(B.abs(step), lamb / 2))
    B.ensure('the root modulo one wavelength', B.Implies(B.Not(weak), lambda: B.congruent(z, step, lamb)))
    final(B, SC, cav, old, ideal, 'TimeLag', step, z0)
    B.ensure('returns the machine', out.value is SC)
