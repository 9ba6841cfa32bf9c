"""C07: BPM readings are the documented function of the beam and the BPM errors."""
import numpy as np
from pydv.contract import contract
from pydv.heap import REAL_K, vec

BPM = dict(Noise=vec(2), NoiseCO=vec(2), Offset=vec(2), SupportOffset=vec(2), CalError=vec(2), Roll=REAL_K, SupportRoll=REAL_K, SumError=REAL_K)
TRUSTED = []
X, Y = 0, 1


def setup(B, mode, shots=None, one_turn=False):
    ring = B.ring(kinds=BPM)
    bpm = B.ords('bpm', ring, must=BPM, sort=True, lo=1)
    SC = B.machine(ring, BPM=bpm)
    P = 1 if mode == 'ORB' else B.size('particles', 1, 5)
    T = 1 if mode == 'ORB' or one_turn else B.size('turns', 1, 4)
    S = B.size('shots', 1, 4) if shots is None else shots
    SC.INJ.trackMode = mode
    SC.INJ.nParticles, SC.INJ.nTurns, SC.INJ.nShots = P, T, S
    SC.INJ.beamLostAt = B.real('lost', sample=(0.01, 0.99))
    B.assume(B.And(SC.INJ.beamLostAt > 0, SC.INJ.beamLostAt < 1))
    SC.INJ.Z0 = B.arr('Z0', (6,))
    return ring, bpm, SC, P, T, S


ENERGY = dict(Energy=True)       # at.Lattice sets or removes it when a lattice is copied for tracking


def shaped(B, what, x, n):
    sh = B.shape(x)
    B.ensure(f'{what}: two planes', len(sh) == 2 and sh[0] == 2)
    B.ensure(f'{what}: one value per turn and BPM', len(sh) == 2 and B.eq(sh[1], n))


class Beam:
    """what the beam does at each shot, as far as a BPM can see it"""
    def __init__(self, B, tr, mode, P):
        self.B, self.tr, self.mode, self.P = B, tr, mode, P

    def pos(self, c, p, ord, t, s):
        return self.tr.at(2 * c, ord, s) if self.mode == 'ORB' else self.tr.at(2 * c, p, ord, t, s)

    def alive(self, ord, t, s):
        B = self.B
        return B.sum(self.P, lambda p: B.If(B.isnan(self.pos(X, p, ord, t, s)), 0.0, 1.0))

    def frac(self, ord, t, s):
        return self.alive(ord, t, s) / self.P

    def total(self, c, ord, t, s):
        B = self.B
        return B.sum(self.P, lambda p: B.If(B.isnan(self.pos(c, p, ord, t, s)), 0.0, lambda: self.pos(c, p, ord, t, s)))

    def mean(self, c, ord, t, s):
        """mean over the surviving particles; only meaningful when there are some"""
        return self.total(c, ord, t, s) / self.alive(ord, t, s)


def law(B, R, r, mean, c):
    """the reading without noise"""
    a = B.get(R, 'Roll', r) + B.get(R, 'SupportRoll', r)
    x = B.cos(a) * mean(X) - B.sin(a) * mean(Y) if c == X else B.sin(a) * mean(X) + B.cos(a) * mean(Y)
    off = B.at(B.get(R, 'Offset', r), c) + B.at(B.get(R, 'SupportOffset', r), c)
    return (x - off) * (1 + B.at(B.get(R, 'CalError', r), c))


@contract('bpm_reading', '_real_bpm_reading', '_tracking', params=dict(mode=('TBT', 'ORB', 'PORB'), given=(False, True)))
def single_shot(B, mode, given):
    """everything at once, one shot: position, transmission, noise and sum-signal errors"""
    ring, bpm, SC, P, T, S = setup(B, mode, shots=1, one_turn=mode == 'PORB')
    B.draws()
    tr = B.orbit() if mode == 'ORB' else B.tracking()
    m = B.mod('pySC.core.beam')
    if given:        # the request goes through the contract of _only_registered_bpms (proved below)
        req = B.ords('request', ring)
        ix = B.subseq('inds', B.len(bpm), lo=1, real=lambda: np.flatnonzero([int(o) in set(map(int, req)) for o in SC.ORD.BPM]))
        asked = []
        B.stub('pySC.core.beam', '_only_registered_bpms', sym=lambda *a: asked.append(a) or ix)
        n = B.len(ix)
        ordn = lambda k: B.at(bpm, B.at(ix, k))
    else:
        n = B.len(bpm)
        ordn = lambda k: B.at(bpm, k)
    old, ideal = B.snapshot(SC.RING), B.snapshot(SC.IDEALRING)
    b0, r0 = B.copy(bpm), B.copy(req) if given else None
    out = B.call(m.bpm_reading, SC, bpm_ords=req) if given else B.call(m.bpm_reading, SC)
    B.ensure('accepted', out.ok)
    if not out.ok:
        return
    if given:
        B.ensure('the request is looked up', all(a[0] is SC and a[1] is req and len(a) == 2 for a in asked))
    read, sums = out.value
    shaped(B, 'readings', read, T * n)
    shaped(B, 'sum signals', sums, T * n)
    beam = Beam(B, tr, mode, P)
    lost = SC.INJ.beamLostAt
    noise = 'NoiseCO' if mode == 'ORB' else 'Noise'

    def each(f):
        return B.forall(T, lambda t: B.forall(n, lambda k: f(t * n + k, ordn(k), t)))
    for c in (X, Y):
        pl = 'xy'[c]
        B.ensure(f'{pl}: sum signal is the surviving fraction within its error', each(lambda j, r, t: B.Or(
            B.eq(B.at(sums, c, j), 0.0), lambda: B.le(B.abs(B.at(sums, c, j) - beam.frac(r, t, 0)),
                                                        2 * B.abs(B.get(old, 'SumError', r)) * beam.frac(r, t, 0)))))
        B.ensure(f'{pl}: sum signal zero or not below the limit', each(lambda j, r, t: B.Or(
            B.eq(B.at(sums, c, j), 0.0), lambda: B.at(sums, c, j) >= 1 - lost)))
        B.ensure(f'{pl}: not-a-number exactly when the sum signal is too low', each(lambda j, r, t: B.eq(
            B.isnan(B.at(read, c, j)), B.eq(B.at(sums, c, j), 0.0))))
        B.ensure(f'{pl}: lost only if the sum signal may be too low', each(lambda j, r, t: B.Implies(
            B.eq(B.at(sums, c, j), 0.0), lambda: beam.frac(r, t, 0) * (1 - 2 * B.abs(B.get(old, 'SumError', r))) <= 1 - lost)))
        B.ensure(f'{pl}: reading within the noise of the documented position', each(lambda j, r, t: B.Or(
            B.isnan(B.at(read, c, j)), lambda: B.within(
                (B.at(read, c, j) - law(B, old, r, lambda q: beam.mean(q, r, t, 0), c)) * B.at(sums, c, j),
                2 * B.abs(B.at(B.get(old, noise, r), c))))))
    B.frame('machine unchanged', SC.RING, old, ENERGY)
    B.isolated(SC, ideal)
    B.unchanged('registered BPMs unchanged', SC.ORD.BPM, b0)
    if given:
        B.unchanged('request unchanged', req, r0)


@contract('_only_registered_bpms')
def registered(B):
    """the registered ones among the requested elements, in ring order"""
    ring = B.ring(kinds=BPM)
    bpm = B.ords('bpm', ring, must=BPM, sort=True)
    req = B.ords('request', ring)
    SC = B.machine(ring, BPM=bpm)
    b0, r0, old = B.copy(bpm), B.copy(req), B.snapshot(SC.RING)
    out = B.call(B.mod('pySC.core.beam')._only_registered_bpms, SC, req)
    n = B.len(b0)
    none = B.forall(n, lambda i: B.Not(B.member(r0, B.at(b0, i))))
    if out.ok:
        B.ensure('indices in ring order', B.increasing(out.value))
        B.ensure('exactly the requested registered ones', B.same_members(
            out.value, lambda i: B.And(i >= 0, lambda: i < n, lambda: B.member(r0, B.at(b0, i)))))
    else:
        B.ensure('rejected with ValueError', out.raised(ValueError))
        B.ensure('rejected only without any registered BPM', none)
    B.ensure('no registered BPM is rejected', B.Or(B.Not(out.ok), lambda: B.len(out.value) >= 1))
    B.frame('machine unchanged', SC.RING, old, ENERGY)
    B.unchanged('registered BPMs unchanged', SC.ORD.BPM, b0)
    B.unchanged('request unchanged', req, r0)


@contract('_real_bpm_reading', params=dict(mode=('TBT', 'ORB', 'PORB')))
def one_reading(B, mode):
    """what callers rely on: both planes are not-a-number together with the sum signal, which is the same for both planes and positive"""
    ring, bpm, SC, P, T, S = setup(B, mode, shots=1)
    B.draws()
    n = B.len(bpm)
    pos, lost = B.arr('pos', (2, P, n, T)), B.arr('lost', (2, P, n, T), kind='b')    # a lost particle has no horizontal position
    gone = lambda c, p, k, t: B.at(lost, 0, p, k, t) if c == 0 else B.And(B.at(lost, 0, p, k, t), lambda: B.at(lost, 1, p, k, t))
    track = B.build((2, P, n, T), lambda c, p, k, t: B.If(B.Or(B.And(B.eq(c, 0), lambda: gone(0, p, k, t)), lambda: gone(1, p, k, t)), B.nan,
                                                         lambda: B.at(pos, c, p, k, t)))
    SC.INJ.trackMode = mode
    out = B.call(B.mod('pySC.core.beam')._real_bpm_reading, SC, track)
    B.ensure('accepted', out.ok)
    if not out.ok:
        return
    read, sums = out.value
    for what, x in (('readings', read), ('sum signals', sums)):
        sh = B.shape(x)
        B.ensure(f'{what}: planes, BPMs, turns', B.And(len(sh) == 3 and sh[0] == 2, lambda: B.eq(sh[1], n), lambda: B.eq(sh[2], T)))

    def each(f):
        return B.forall(n, lambda k: B.forall(T, lambda t: f(k, t)))
    B.ensure('same sum signal in both planes', each(lambda k, t: B.And(
        B.eq(B.isnan(B.at(sums, 0, k, t)), B.isnan(B.at(sums, 1, k, t))),
        lambda: B.Or(B.isnan(B.at(sums, 0, k, t)), lambda: B.eq(B.at(sums, 0, k, t), B.at(sums, 1, k, t))))))
    for c in (X, Y):
        B.ensure(f'{"xy"[c]}: reading lost together with the sum signal', each(lambda k, t: B.eq(
            B.isnan(B.at(read, c, k, t)), B.isnan(B.at(sums, c, k, t)))))
        B.ensure(f'{"xy"[c]}: sum signal positive', each(lambda k, t: B.Or(
            B.isnan(B.at(sums, c, k, t)), lambda: B.at(sums, c, k, t) > 0)))


def averages(B, mode, errors):
    ring, bpm, SC, P, T, S = setup(B, mode)
    SC.INJ.trackMode = mode
    n = B.len(bpm)
    r = B.arr('reading', (S, 2, n, T))
    q = B.arr('sum', (S, n, T), lo=0.01, hi=2, nan=True)
    calls = B.counter()

    def single(SC_, track, inds=None):
        s = calls.next()
        return (B.build((2, n, T), lambda c, k, t: B.If(B.isnan(B.at(q, s, k, t)), B.nan, lambda: B.at(r, s, c, k, t))),
                B.build((2, n, T), lambda c, k, t: B.at(q, s, k, t)))
    B.stub('pySC.core.beam', '_tracking', sym=lambda *a: None, conc=lambda *a: None)
    B.stub('pySC.core.beam', '_real_bpm_reading', sym=single, conc=single)
    out = B.call(B.mod('pySC.core.beam').bpm_reading, SC, calculate_errors=errors)
    B.ensure('accepted', out.ok)
    if not out.ok:
        return
    B.ensure('number of results', len(out.value) == (3 if errors else 2))
    read, sums = out.value[:2]
    w = lambda k, t, s: B.If(B.isnan(B.at(q, s, k, t)), 0.0, lambda: B.at(q, s, k, t))
    rw = lambda c, k, t, s: B.If(B.isnan(B.at(q, s, k, t)), 0.0, lambda: B.at(q, s, k, t) * B.at(r, s, c, k, t))
    W = lambda k, t: B.sum(S, lambda s: w(k, t, s))
    M = lambda c, k, t: B.sum(S, lambda s: rw(c, k, t, s))
    if mode == 'PORB':
        W1, M1 = W, M
        W = lambda k, t: B.sum(T, lambda u: W1(k, u))
        M = lambda c, k, t: B.sum(T, lambda u: B.If(B.eq(W1(k, u), 0.0), 0.0, lambda: M1(c, k, u)))
        N = 1
    else:
        N = T

    def each(f):
        return B.forall(N, lambda t: B.forall(n, lambda k: f(t * n + k, k, t)))
    for what, x in (('readings', read), ('sum signals', sums)) + ((('errors', out.value[2]),) if errors else ()):
        shaped(B, what, x, N * n)
    for c in (X, Y):
        pl = 'xy'[c]
        B.ensure(f'{pl}: sum signal averaged over all shots and turns', each(lambda j, k, t: B.eq(
            B.at(sums, c, j) * (S * T if mode == 'PORB' else S), W(k, t))))
        B.ensure(f'{pl}: not-a-number exactly when lost in every shot', each(lambda j, k, t: B.eq(
            B.isnan(B.at(read, c, j)), B.eq(W(k, t), 0.0))))
        B.ensure(f'{pl}: average over the shots weighted by the sum signal', each(lambda j, k, t: B.Or(
            B.isnan(B.at(read, c, j)), lambda: B.eq(B.at(read, c, j) * W(k, t), M(c, k, t)))))
        if errors:
            err = out.value[2]
            anylost = lambda k, t: B.sum(S, lambda s: B.If(B.isnan(B.at(q, s, k, t)), 1.0, 0.0))
            B.ensure(f'{pl}: no error when lost in any shot', each(lambda j, k, t: B.Implies(
                B.eq(B.isnan(B.at(err, c, j)), False), lambda: B.eq(anylost(k, t), 0.0))))
            B.ensure(f'{pl}: weighted rms over the shots', each(lambda j, k, t: B.Implies(B.eq(anylost(k, t), 0.0), lambda: B.And(
                B.Not(B.isnan(B.at(err, c, j))), lambda: B.at(err, c, j) >= 0, lambda: B.eq(B.at(err, c, j) * B.at(err, c, j) * W(k, t), B.sum(
                    S, lambda s: w(k, t, s) * (B.at(r, s, c, k, t) - B.at(read, c, j)) * (B.at(r, s, c, k, t) - B.at(read, c, j))))))))


@contract('bpm_reading', '_reshape_3d_to_matlab_like_2d', params=dict(mode=('TBT', 'ORB')))
def shots(B, mode):
    """averages over shots, whatever the single shots read within the contract of one_reading"""
    averages(B, mode, False)


@contract('bpm_reading', params=dict(case=('PORB', 'errors')), bounded=True, runs=150)
def turns_and_errors(B, case):
    """pseudo-orbit averages over shots and turns; measured errors of the readings"""
    averages(B, 'PORB' if case == 'PORB' else 'TBT', case == 'errors')
