"""A small random machine for the bounded layer (real code, real lattice)."""
import copy
import logging
import numpy as np
logging.disable(logging.CRITICAL)


def lattice(rng, cells=None):
    from at import Lattice, elements as el
    els = []
    for i in range(cells or rng.randint(3, 5)):
        els.append(el.Marker(f'M{i}'))
        els.append(el.Quadrupole(f'QF{i}', 0.5, 1.2, PolynomA=[0, 0, 0, 0], PolynomB=[0, 1.2, 0, 0], MaxOrder=3))
        els.append(el.Drift(f'D{i}', 1.0))
        els.append(el.Monitor(f'BPM{i}'))
        els.append(el.Dipole(f'B{i}', 1.0, np.pi / 3, -0.3, PolynomA=[0, 0, 0, 0], PolynomB=[0, -0.3, 0, 0], MaxOrder=3))
        els.append(el.Drift(f'D2{i}', 0.7))
        els.append(el.Sextupole(f'S{i}', 0.2, 3.0, PolynomA=[0, 0, 0, 0], PolynomB=[0, 0, 3.0, 0], MaxOrder=3))
        els.append(el.Corrector(f'C{i}', 0.0, np.zeros(2), PolynomA=[0, 0], PolynomB=[0, 0], MaxOrder=1))
    els.append(el.RFCavity('CAV', 0, 1e6, 5e8, 20, 2.5e9))
    els.append(el.RFCavity('CAV2', 0, 1e6, 5e8, 20, 2.5e9))
    return Lattice(els, name='demo', energy=2.5e9)


def where(ring, start):
    return np.array([i for i, e in enumerate(ring) if e.FamName.startswith(start) and not (start == 'C' and e.FamName.startswith('CAV'))
                     and not (start == 'B' and e.FamName.startswith('BPM')) and not (start == 'D' and e.FamName.startswith('D2'))])


def state(x):
    """comparable image of an object"""
    if isinstance(x, np.ndarray):
        return ('a', x.shape, str(x.dtype), x.tobytes()) if x.dtype != object else ('o', x.shape, tuple(state(y) for y in x.ravel()))
    if isinstance(x, dict):
        return ('d', tuple(sorted((str(k), state(v)) for k, v in x.items())))
    if isinstance(x, (list, tuple)):
        return ('l', tuple(state(v) for v in x))
    if isinstance(x, (int, float, str, bool, complex, type(None), np.generic)):
        return x if not (isinstance(x, float) and x != x) else 'nan'
    if callable(x):
        return repr(x)
    if hasattr(x, '__dict__'):
        return (type(x).__name__, tuple(sorted((k, state(v)) for k, v in vars(x).items())))
    return repr(x)


def rstate(ring):
    return [state({k: v for k, v in e.__dict__.items() if k != 'Energy'}) for e in ring]


def register(rng, SC):
    """register everything with random uncertainties"""
    r = SC.RING
    SC.register_bpms(where(r, 'BPM'), Offset=rng.uniform(0, 1e-3) * np.ones(2), Roll=1e-3, CalError=1e-2 * np.ones(2), SumError=0.1,
                     Noise=1e-5 * np.ones(2), NoiseCO=1e-6 * np.ones(2))
    SC.register_cavities(where(r, 'CAV'), VoltageOffset=1e3, FrequencyCalError=1e-6, TimeLagOffset=1e-3)
    SC.register_magnets(where(r, 'QF'), SkewQuad=rng.uniform(0.1, 1), CalErrorB=np.array([0, 1e-3]), MagnetOffset=1e-4 * np.ones(3),
                        MagnetRoll=1e-4 * np.array([1, 0, 0]))
    SC.register_magnets(where(r, 'B'), HCM=rng.uniform(1e-4, 1e-3), CF=1, BendingAngle=1e-3, CalErrorB=np.array([1e-3, 1e-3]))
    SC.register_magnets(where(r, 'S'), CalErrorB=np.array([0, 0, 1e-3]))
    SC.register_magnets(where(r, 'C'), HCM=1e-3, VCM=1e-3, CalErrorA=1e-3 * np.ones(1), CalErrorB=1e-3 * np.ones(2))
    m = where(r, 'M')
    SC.register_supports(np.vstack((m, np.roll(m, -1))), 'Girder', Offset=1e-4 * np.ones(3), Roll=1e-4 * np.array([1, 0, 0]))


def machine(rng, errors=True, cells=None):
    from pySC.core.simulated_commissioning import SimulatedCommissioning
    SC = SimulatedCommissioning(lattice(rng, cells))
    register(rng, SC)
    SC.INJ.Z0ideal = np.array([1e-4, 0, 1e-4, 0, 0, 0])
    SC.INJ.Z0 = SC.INJ.Z0ideal.copy()
    SC.SIG.staticInjectionZ = 1e-4 * np.ones(6)
    SC.SIG.randomInjectionZ = 1e-5 * np.ones(6)
    if errors:
        SC.apply_errors()
    return SC
