"""C19: injected bunches and tracking modes follow the injection settings."""
import numpy as np
from pydv.contract import contract

TRUSTED = ['numpy.linalg.eigh of a symmetric positive semi-definite matrix A: L diag(V) L^T = A, V >= 0 (up to rounding)']
FIELDS = ('beamLostAt', 'nParticles', 'nTurns', 'nShots', 'trackMode')
VECS = ('Z0', 'Z0ideal', 'beamSize', 'randomInjectionZ', 'staticInjectionZ')


def settings(B, size=None):
    SC = B.machine()
    SC.INJ.nTurns = B.size('turns', 1, 4)
    SC.INJ.nParticles = B.size('particles', 1, 4)
    SC.INJ.nShots = B.size('shots', 1, 4)
    SC.INJ.beamLostAt = B.real('lost', sample=(0.01, 0.99))
    SC.INJ.Z0 = B.arr('Z0', (6,))
    SC.INJ.Z0ideal = B.arr('Z0ideal', (6,))
    SC.INJ.randomInjectionZ = B.arr('jitter', (6,), lo=0)
    SC.INJ.staticInjectionZ = B.arr('static', (6,))
    SC.INJ.beamSize = size if size is not None else B.arr('beamSize', (6, 6))
    return SC


def held(B, SC):
    return [getattr(SC.INJ, f) for f in FIELDS], [B.copy(getattr(SC.INJ, f)) for f in VECS]


def untouched(B, SC, before):
    for f, v in zip(FIELDS, before[0]):
        B.ensure(f'{f} unchanged', B.eq(getattr(SC.INJ, f), v))
    for f, v in zip(VECS, before[1]):
        B.unchanged(f'{f} unchanged', getattr(SC.INJ, f), v)


@contract('generate_bunches', params=dict(given=(False, True), one=(True, False), post=(False, True)))
def bunch(B, given, one, post):
    """number of particles, centroid within the jitter, post-processing"""
    widths = B.arr('widths', (6,), lo=0)
    SC = settings(B, B.build((6, 6), lambda i, j: B.If(B.eq(i, j), lambda: B.at(widths, i) * B.at(widths, i), 0.0)))
    n = 1 if one else B.size('bunch', 2, 5)
    if not given:
        SC.INJ.nParticles = n
    gain, add = B.real('gain'), B.real('add')
    seen = []
    if post:
        SC.INJ.postFun = lambda Z: seen.append(Z) or gain * Z + add
    B.draws()
    old, before = B.snapshot(SC.RING), held(B, SC)
    m = B.mod('pySC.core.beam')
    out = B.call(m.generate_bunches, SC, n) if given else B.call(m.generate_bunches, SC)
    B.ensure('accepted', out.ok)
    if not out.ok:
        return
    Z = out.value
    if post:
        B.ensure('post-processing applied once', len(seen) == 1)
        if len(seen) != 1:
            return
        B.ensure('post-processing last', B.eq(B.len(B.shape(Z)), 2) and B.forall(6, lambda i: B.forall(n, lambda p: B.eq(
            B.at(Z, i, p), gain * B.at(seen[0], i, p) + add))))
        Z = seen[0]
    sh = B.shape(Z)
    B.ensure('six coordinates of every particle', B.And(len(sh) == 2, lambda: B.eq(sh[0], 6), lambda: B.eq(sh[1], n)))
    jit = lambda i: 2 * B.at(SC.INJ.randomInjectionZ, i)
    if one:
        B.ensure('a single particle sits at the centroid', B.forall(6, lambda i: B.within(B.at(Z, i, 0) - B.at(SC.INJ.Z0, i), jit(i))))
    else:
        B.ensure('within jitter and beam size', B.forall(6, lambda i: B.forall(n, lambda p: B.spread_bound(
            B.at(Z, i, p) - B.at(SC.INJ.Z0, i), jit(i) + 3 * B.at(widths, i)))))
        B.ensure('the same jitter for all particles', B.forall(6, lambda i: B.forall(n, lambda p: B.forall(n, lambda q: B.spread_bound(
            B.at(Z, i, p) - B.at(Z, i, q), 6 * B.at(widths, i))))))
    untouched(B, SC, before)
    B.frame('machine unchanged', SC.RING, old)


@contract('generate_bunches', params=dict(rank=(6, 2)), only=lambda rank: True)
def sigma_matrix(B, rank):
    """second moments of the deviations are the beam sigma matrix (also a degenerate one), particles are independent"""
    root = B.arr('root', (6, rank))
    A = B.build((6, 6), lambda i, j: B.sum(rank, lambda k: B.at(root, i, k) * B.at(root, j, k)))
    SC = settings(B, A)
    if B.symbolic:
        n = B.size('bunch', 2, 5)
        B.draws()
    else:
        n = 6
        B.stub('pySC.utils.sc_tools', 'randnc', conc=lambda cut, shape: np.eye(6) if shape == (6, 6) else np.zeros(shape))
    out = B.call(B.mod('pySC.core.beam').generate_bunches, SC, n)
    B.ensure('accepted', out.ok)
    if not out.ok:
        return
    Z = out.value
    dev = lambda i, p: B.at(Z, i, p) - B.at(SC.INJ.Z0, i)
    for i, k in ((0, 0), (1, 0), (3, 1), (5, 5), (5, 2)) if B.symbolic else [(i, k) for i in range(6) for k in range(i + 1)]:
        if B.symbolic:       # jitter: draws of two sigma; deviations: draws of three sigma
            jit = 4 * B.at(SC.INJ.randomInjectionZ, i) * B.at(SC.INJ.randomInjectionZ, k) if i == k else 0.0
            B.ensure(f'second moment {i},{k}', B.forall(n, lambda p: B.eq(9 * B.at(A, i, k) + jit, B.moment(dev(i, p), dev(k, p)))))
            B.ensure(f'different particles {i},{k}', B.forall(n, lambda p: B.forall(n, lambda q: B.Or(
                B.eq(p, q), lambda: B.eq(jit, B.moment(dev(i, p), dev(k, q)))))))
        else:
            B.ensure(f'second moment {i},{k}', B.eq(B.at(A, i, k), sum(dev(i, p) * dev(k, p) for p in range(6))))


@contract('trackMode', params=dict(mode=('TBT', 'ORB', 'PORB', 'other', 'lower'), start=('TBT', 'ORB', 'PORB')))
def modes(B, mode, start):
    SC = settings(B)
    SC.INJ._trackMode = start
    name = dict(other='XYZ', lower='orb').get(mode, mode)
    before = held(B, SC)
    out = B.call(lambda: setattr(SC.INJ, 'trackMode', name))
    if mode in ('other', 'lower'):
        B.ensure('unknown mode rejected', not out.ok)
        B.ensure('rejected with AttributeError', out.raised(AttributeError))
        return untouched(B, SC, before)
    B.ensure('accepted', out.ok)
    B.ensure('mode set', SC.INJ.trackMode == name)
    if mode == 'ORB':
        B.ensure('one turn', B.eq(SC.INJ.nTurns, 1))
        B.ensure('one particle', B.eq(SC.INJ.nParticles, 1))
        SC.INJ.nTurns, SC.INJ.nParticles = before[0][2], before[0][1]
    SC.INJ._trackMode = start
    untouched(B, SC, before)


@contract('beam_transmission', params=dict(given=(False, True)))
def transmission(B, given):
    SC = settings(B)
    tr = B.tracking()
    n = B.size('bunch', 1, 5) if given else SC.INJ.nParticles
    T = B.size('number', 1, 5) if given else SC.INJ.nTurns
    bunches = B.arr('bunches', (6, n))
    asked = []

    def generate(SC_, nParticles=None):
        asked.append((SC_, nParticles))
        return bunches
    B.stub('pySC.core.beam', 'generate_bunches', sym=generate, conc=generate)
    old, before, end = B.snapshot(SC.RING), held(B, SC), B.len(SC.RING)
    m = B.mod('pySC.core.beam')
    out = B.call(m.beam_transmission, SC, nParticles=n, nTurns=T) if given else B.call(m.beam_transmission, SC)
    B.ensure('accepted', out.ok)
    if not out.ok:
        return
    turns, frac = out.value
    B.ensure('one bunch of the requested size', len(asked) == 1 and asked[0][0] is SC and (
        asked[0][1] is not None and B.eq(asked[0][1], n) if given else (asked[0][1] is None or B.eq(asked[0][1], n))))
    B.ensure('one fraction per turn', B.And(len(B.shape(frac)) == 1, lambda: B.eq(B.len(frac), T)))
    alive = lambda t: B.sum(n, lambda p: B.If(B.isnan(tr.at(0, p, end, t, 0)), 0.0, 1.0))
    B.ensure('fraction of particles alive', B.forall(T, lambda t: B.eq(B.at(frac, t) * n, alive(t))))
    B.ensure('turns with a loss below the allowed one', B.eq(turns, B.sum(T, lambda t: B.If(
        alive(t) / n > 1 - SC.INJ.beamLostAt, 1.0, 0.0))))
    untouched(B, SC, before)
    B.frame('machine unchanged', SC.RING, old, dict(Energy=True))
