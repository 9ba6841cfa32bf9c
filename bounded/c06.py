"""Random histories of operations on the real machine: the design lattice, the caller's lattice and copies never change."""
import copy
import numpy as np
from pydv.bounded import bounded, need
from pydv.contract import separate
from bounded.util import lattice, register, rstate, state, where


def operations(SC, rng):
    from pySC.lattice_properties.response_model import SCgetModelRING
    r = SC.RING
    quads, bends, sext, cor, cav, bpm = (where(r, x) for x in ('QF', 'B', 'S', 'C', 'CAV', 'BPM'))

    def model():
        m = SCgetModelRING(SC, includeAperture=rng.random() < 0.5)
        need(separate(list(m), list(SC.RING)), 'model shares storage with the machine')
        need(separate(list(m), list(SC.IDEALRING)), 'model shares storage with the design lattice')
        for e in m:
            for v in e.__dict__.values():
                if isinstance(v, np.ndarray) and v.size and v.dtype.kind == 'f':
                    v += 1.0
    T = ('abs', 'rel', 'add')
    one = lambda a: rng.choice(list(a))
    return dict(
        register=lambda: register(rng, SC),
        apply_errors=lambda: SC.apply_errors(rng.uniform(0.5, 3)),
        update=lambda: (SC.update_supports(), SC.update_magnets(), SC.update_cavities()),
        cavity=lambda: SC.set_cavity_setpoints(cav, rng.uniform(0.5, 2), rng.choice(['Voltage', 'Frequency', 'TimeLag']), method=rng.choice(T)),
        cm=lambda: SC.set_cm_setpoints(one(cor), rng.uniform(-2e-3, 2e-3), skewness=rng.random() < 0.5, method=rng.choice(T)),
        cmb=lambda: SC.set_cm_setpoints(one(bends), rng.uniform(-2e-3, 2e-3), skewness=False, method=rng.choice(T)),
        magnet=lambda: SC.set_magnet_setpoints(quads, rng.uniform(0.9, 1.1), rng.random() < 0.5, 1, method=rng.choice(T)),
        comp=lambda: SC.set_magnet_setpoints(bends, rng.uniform(0.9, 1.1), False, 1, method='rel', dipole_compensation=True),
        systematic=lambda: SC.set_systematic_multipole_errors(sext, np.array([[0, 0], [0, 0], [1, 0], [0, 1e-3]]), 2, False),
        random=lambda: SC.set_random_multipole_errors(quads, 1e-4 * np.ones((4, 2))),
        apertures=lambda: [setattr(SC.RING[i], 'EApertures', np.array([0.01, 0.01])) for i in quads],
        model=model,
    )


@bounded('random histories of up to 12 operations on a ring of up to 42 elements, with a deep copy taken in between', quick=25, thorough=400, secs=(25, 240))
def histories(rng):
    from pySC.core.simulated_commissioning import SimulatedCommissioning
    ring = lattice(rng)
    r0 = rstate(ring)
    SC = SimulatedCommissioning(ring)
    need(rstate(SC.RING) == r0 and rstate(SC.IDEALRING) == r0, 'a new machine is not the given lattice')
    register(rng, SC)
    log = ['register']
    other = None
    for step in range(rng.randint(1, 12)):
        if other is None and rng.random() < 0.25:
            log.append('very_deep_copy')
            copied = SC.very_deep_copy()
            need(state(copied.ORD) == state(SC.ORD) and state(copied.SIG) == state(SC.SIG) and state(copied.INJ) == state(SC.INJ),
                 'the copy carries other bookkeeping', log)
            need(rstate(copied.RING) == rstate(SC.RING) and rstate(copied.IDEALRING) == r0, 'the copy is another machine', log)
            need(separate([list(copied.RING), list(copied.IDEALRING), copied.ORD, copied.SIG, copied.INJ],
                          [list(SC.RING), list(SC.IDEALRING), SC.ORD, SC.SIG, SC.INJ, list(ring)]), 'the copy shares storage', log)
            SC, other = (SC, copied) if rng.random() < 0.5 else (copied, SC)
            frozen = (rstate(other.RING), rstate(other.IDEALRING), state(other.SIG), state(other.ORD), state(other.INJ))
        ops = operations(SC, rng)
        name = rng.choice(sorted(ops))
        log.append(name)
        ops[name]()
        need(rstate(ring) == r0, "the caller's lattice changed", log)
        need(rstate(SC.IDEALRING) == r0, 'the design lattice changed', log)
        need(separate(list(SC.RING), list(SC.IDEALRING) + list(ring)), "machine shares storage with the design or the caller's lattice", log)
        if other is not None:
            need((rstate(other.RING), rstate(other.IDEALRING), state(other.SIG), state(other.ORD), state(other.INJ)) == frozen,
                 'an operation on one machine changed the other', log)
