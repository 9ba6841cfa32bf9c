"""Error application on complete machines with supports: exactly the configured fields, bounded, everything updated afterwards."""
import numpy as np
from pydv.bounded import bounded, need, Skip
from bounded.util import lattice, rstate, state, where

CUT = lambda rng: rng.choice([0.3, 1.0, 2.0, 2.7])


def value(rng, n):
    v = abs(rng.gauss(0, 1e-4)) if n == 0 else np.array([abs(rng.gauss(0, 1e-4)) for _ in range(n)])
    return v


def maybe(rng, SC, fn, ords, kinds):
    """registers with a random subset of uncertainties, some with their own cut-off"""
    kw = {}
    for f, n in kinds.items():
        if rng.random() < 0.6:
            v = value(rng, n)
            kw[f] = [v, CUT(rng)] if rng.random() < 0.3 and not f.startswith('Noise') else v
    fn(ords, **kw)


@bounded('random uncertainties on rings of up to 42 elements with up to two kinds of supports, real updates', quick=40, thorough=800, secs=(30, 240))
def applied(rng):
    from pySC.core.simulated_commissioning import SimulatedCommissioning
    SC = SimulatedCommissioning(lattice(rng))
    r = SC.RING
    bpm = where(r, 'BPM')
    k = rng.randint(0, len(bpm))
    for sel in (bpm[:k], bpm[k:]):
        if len(sel):
            maybe(rng, SC, SC.register_bpms, sel, dict(Noise=2, NoiseCO=2, Offset=2, Roll=0, CalError=2, SumError=0))
    if rng.random() < 0.8:
        maybe(rng, SC, SC.register_cavities, where(r, 'CAV')[:rng.randint(1, 2)], dict(VoltageOffset=0, FrequencyOffset=0, TimeLagCalError=0))
    for f in ('QF', 'B', 'S', 'C'):
        if rng.random() < 0.8:
            n = len(r[where(r, f)[0]].PolynomB)
            maybe(rng, SC, SC.register_magnets, where(r, f), dict(MagnetOffset=3, MagnetRoll=3, CalErrorA=n, CalErrorB=n, **(
                dict(BendingAngle=0) if f == 'B' else {})))
    ends = {}
    for t, first, last in (('Section', where(r, 'QF'), where(r, 'QF') + 4), ('Girder', where(r, 'M'), where(r, 'C'))):
        if rng.random() < 0.6:      # structures of one kind have no end points in common
            pairs = np.vstack((first, last))[:, :rng.randint(1, len(first))]
            kw = {}
            two = rng.random() < 0.5
            if rng.random() < 0.8:
                v = abs(np.random.randn(2, 3) if two else np.random.randn(3)) * 1e-4
                kw['Offset'] = [v, CUT(rng)] if rng.random() < 0.3 else v
            if rng.random() < 0.8:
                v = np.array([1e-4, 0, 0]) if two and 'Offset' in kw else abs(np.random.randn(3)) * 1e-4
                kw['Roll'] = [v, CUT(rng)] if rng.random() < 0.3 else v
            SC.register_supports(pairs, t, **kw)
            ends[t] = (pairs, kw)
    SC.INJ.Z0ideal, SC.SIG.staticInjectionZ = np.random.randn(6) * 1e-4, abs(np.random.randn(6)) * 1e-4
    SC.SIG.randomInjectionZ = abs(np.random.randn(6)) * 1e-5
    SC.SIG.Circumference = rng.choice([0.0, 1e-5])
    nsig = rng.choice([0.5, 1.0, 2.0, 3.0])
    before, sig0, ideal0, C0 = [dict(e.__dict__) for e in SC.RING.deepcopy()], state(SC.SIG), rstate(SC.IDEALRING), SC.RING.get_s_pos(len(r))[0]
    z0 = SC.INJ.Z0ideal.copy()
    SC.apply_errors(nsig)
    need(state(SC.SIG) == sig0, 'uncertainties changed')
    need(rstate(SC.IDEALRING) == ideal0, 'design lattice changed')
    derived = {'T1', 'T2', 'R1', 'R2', 'SupportOffset', 'SupportRoll', 'PolynomA', 'PolynomB', 'MaxOrder', 'KickAngle', 'Voltage', 'Frequency',
               'TimeLag', 'Energy', 'NumIntSteps'}
    errors = {}
    for tab in ('BPM', 'RF', 'Magnet'):
        for i, row in SC.SIG[tab].items():
            for f, v in row.items():
                dest = 'BendingAngleError' if f == 'BendingAngle' else f
                errors.setdefault(i, set()).add(dest)
                need(hasattr(SC.RING[i], dest), f'{dest} not assigned', i)
                got = getattr(SC.RING[i], dest)
                if f.startswith('Noise'):
                    need(np.array_equal(got, v), f'{f} not copied', i)
                    continue
                s, c = (v[0], v[1]) if isinstance(v, list) else (v, nsig)
                need(np.shape(got) == np.shape(s), f'{f}: shape', i, got)
                need(np.all(abs(got) <= c * np.asarray(s) * (1 + 1e-12)) and np.all((got != 0) | (np.asarray(s) == 0)), f'{f}: beyond the cut-off', i, got, s, c)
    sup = {}
    for t, (pairs, kw) in ends.items():
        for i in pairs.ravel():
            sup.setdefault(int(i), set()).update({t + 'Offset', t + 'Roll'})
    for i, e in enumerate(SC.RING):
        for f in set(e.__dict__) | set(before[i]):
            if f in derived or f in errors.get(i, ()) or f in sup.get(i, ()):
                continue
            if f == 'Length' and e.PassMethod == 'DriftPass':
                continue
            need(f in e.__dict__ and f in before[i] and state(e.__dict__[f]) == state(before[i][f]), f'{f} changed without uncertainty', i)
    need(np.all(abs(SC.INJ.Z0 - z0) <= nsig * SC.SIG.staticInjectionZ * (1 + 1e-12)), 'injected trajectory', SC.INJ.Z0)
    need(np.array_equal(SC.INJ.randomInjectionZ, SC.SIG.randomInjectionZ), 'jitter level')
    C1 = SC.RING.get_s_pos(len(r))[0]
    need(abs(C1 / C0 - 1) <= nsig * SC.SIG.Circumference + 1e-12, 'circumference', C1, C0)
    done = rstate(SC.RING)
    close = lambda a, b: len(a) == len(b) and all(_close(x.__dict__, y) for x, y in zip(SC.RING, b))
    snap = [dict(e.__dict__) for e in SC.RING.deepcopy()]
    SC.update_supports()
    SC.update_magnets()
    SC.update_cavities()
    need(close(SC.RING, snap), 'magnets, cavities or supports were not up to date with the errors')
    # independent storage: changing the noise of one BPM leaves the others and the uncertainties alone
    if len(bpm) > 1 and len(SC.ORD.BPM):
        i = rng.choice([int(b) for b in bpm])
        sig1, others = state(SC.SIG), [state(SC.RING[j].Noise) for j in bpm if j != i]
        SC.RING[i].Noise[:] = 7.0
        need(state(SC.SIG) == sig1 and others == [state(SC.RING[j].Noise) for j in bpm if j != i], 'BPMs share the storage of their noise', i)


def _close(a, b):
    if set(a) != set(b):
        return False
    for k, v in a.items():
        if isinstance(v, np.ndarray) and v.dtype.kind == 'f':
            if v.shape != b[k].shape or not np.allclose(v, b[k], rtol=1e-9, atol=1e-15):
                return False
        elif isinstance(v, float) and not np.isclose(v, b[k], rtol=1e-9, atol=1e-15):
            return False
    return True


@bounded('truncated draws of up to 10000 entries', quick=200, thorough=5000, secs=(10, 60))
def truncation(rng):
    from pySC.utils.sc_tools import randnc
    shape = rng.choice([(), (1,), (7,), (3, 4), (100, 100), (2, 3, 4)])
    cut = rng.choice([0.1, 0.5, 1.0, 2.0, 3.0])
    v = randnc(cut, shape)
    need(np.shape(v) == shape, 'shape', np.shape(v), shape)
    need(np.all(np.abs(v) <= cut), 'beyond the cut-off', np.max(np.abs(v)), cut)
    if np.size(v) >= 10000:
        from math import erf, exp, pi, sqrt
        s = sqrt(1 - 2 * cut * exp(-cut * cut / 2) / sqrt(2 * pi) / erf(cut / sqrt(2)))
        need(abs(np.std(v) / s - 1) < 0.06 and abs(np.mean(v)) < 0.06, 'not a truncated normal distribution', np.mean(v), np.std(v), s)
