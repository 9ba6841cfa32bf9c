"""Trajectory-based alignment on synthetic measurements with known centres: the right offset reaches the right BPM."""
import numpy as np
from pydv.bounded import bounded, need
from bounded.util import lattice, rstate, where


@bounded('synthetic alignment scans on rings of up to 5 cells, one or two planes, linear and quadratic fits', quick=40, thorough=600, secs=(30, 200))
def alignment(rng):
    from pySC.core.simulated_commissioning import SimulatedCommissioning
    from pySC.correction import bba
    SC = SimulatedCommissioning(lattice(rng))
    r = SC.RING
    bpm = where(r, 'BPM')
    SC.register_bpms(bpm, Offset=1e-4 * np.ones(2), Roll=1e-3)
    SC.register_magnets(where(r, 'QF'), MagnetOffset=1e-4 * np.ones(3))
    SC.register_magnets(where(r, 'S'), MagnetOffset=1e-4 * np.ones(3))
    SC.apply_errors()
    SC.INJ.trackMode, SC.INJ.nTurns = 'TBT', 2
    planes = rng.choice([1, 2, 2])
    n = rng.randint(1, len(bpm))
    pairs = [rng.sample(range(len(bpm)), n) for _ in range(planes)]
    bpm_ords = np.array([[int(bpm[k]) for k in row] for row in pairs])
    mag_ords = np.array([[int(where(r, rng.choice(['QF', 'S']))[k]) for k in row] for row in pairs])
    order = rng.choice([1, 1, 2])
    dipcomp = rng.random() < 0.7
    cases = {}
    for p in range(planes):
        for j in range(n):
            cases[p, j] = (rng.choice(['good', 'good', 'far', 'weak', 'lost']), rng.uniform(2e-4, 1e-3) * rng.choice([-1, 1]))
    seen = []
    real_scan, real_meas = bba._phase_advance_injection_scan, bba._data_measurement_tbt

    def scan(SC_, n_dim, last, par):
        return par.q_ord_setpoints, np.ones(1), np.ones((1, len(SC.ORD.BPM)))

    def measure(SC_, m_ord, bpm_ind, j_bpm, n_dim, scaling, par):
        kind, x0 = cases[n_dim, j_bpm]
        need(SC.ORD.BPM[bpm_ind] == bpm_ords[n_dim, j_bpm] and m_ord == mag_ords[n_dim, j_bpm], 'BPM and magnet of the pair', n_dim, j_bpm)
        seen.append((n_dim, j_bpm))
        if kind == 'far':
            x0 *= 4 if abs(x0) > 5e-4 else 10
        q = par.magnet_strengths[n_dim, j_bpm]
        x = np.linspace(-1e-3, 1e-3, par.n_steps)
        wob = np.array([(-1) ** k for k in range(len(q))]) * 1e-7
        pos = x[:, None] + wob[None, :]
        down = par.num_downstream_bpms
        g = np.array([rng.choice([-1, 1]) * rng.uniform(1, 3) for _ in range(down)])
        shape = (x - x0) if order == 1 else (x - x0) ** 2 * 1e3
        tra = shape[:, None, None] * (q - np.mean(q))[None, :, None] * g
        if kind == 'weak':
            tra = tra * 0 + nprng.randn(*tra.shape) * 1e-4
        if kind == 'lost':
            tra = tra * np.nan
        return pos, tra
    nprng = np.random.RandomState(rng.randrange(2 ** 31))
    bba._phase_advance_injection_scan, bba._data_measurement_tbt = scan, measure
    before = [np.array(r[i].Offset) for i in bpm]
    others = rstate(r)
    b0, m0 = bpm_ords.copy(), mag_ords.copy()
    try:
        with np.errstate(all='ignore'):
            res = bba.trajectory_bba(SC, bpm_ords, mag_ords, fit_order=order, n_steps=rng.choice([5, 10]), dipole_compensation=dipcomp)
    finally:
        bba._phase_advance_injection_scan, bba._data_measurement_tbt = real_scan, real_meas
    SC2, off, err = res
    need(SC2 is SC and off.shape == bpm_ords.shape and err.shape == bpm_ords.shape, 'returned values')
    need(sorted(seen) == sorted(cases), 'every pair measured once', seen)
    expect = {int(i): before[k].copy() for k, i in enumerate(bpm)}
    for (p, j), (kind, x0) in cases.items():
        extra = 0
        if not dipcomp and p == 0 and r[mag_ords[p, j]].NomPolynomB[1] != 0:
            e = r[mag_ords[p, j]]
            extra = getattr(e, 'BendingAngle', 0) / e.NomPolynomB[1] / e.Length
        o, s = off[p, j], err[p, j]
        if kind == 'good':
            need(abs(o - x0 - extra) < 1e-6, 'measured centre', p, j, o, x0)
        if kind == 'lost':
            need(np.isnan(o), 'no number without beam', p, j, o)
        trust = o == o and abs(o) <= 1.5e-3 and not abs(o) < 2.5 * s
        if kind == 'far':
            need(not trust, 'outlier trusted', o)
        if trust:
            expect[int(bpm_ords[p, j])][p] += o
    for i in bpm:
        need(np.array_equal(r[i].Offset, expect[int(i)]), 'BPM offset', int(i), r[i].Offset, expect[int(i)])
        r[i].Offset = before[list(bpm).index(i)]
    need(rstate(r) == others, 'something else changed')
    need(np.array_equal(b0, bpm_ords) and np.array_equal(m0, mag_ords), 'ordinates changed')
