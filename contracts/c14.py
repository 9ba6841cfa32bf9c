"""C14: orbit and trajectory corrections apply exactly minus the pseudo-inverse step."""
import numpy as np
from pydv.contract import contract
from . import c01, c02, c03, c13, c20

CORE = 'pySC.core.simulated_commissioning'
OT = 'pySC.correction.orbit_trajectory'
TOOLS = 'pySC.utils.sc_tools'
TRUSTED = []


class Run:
    """the parts a correction uses, by contract: any readings (a lost reading is lost in both planes), any pseudo-inverse (C12), any
    verdict of the convergence criterion"""

    def __init__(self, B, P, rows, cols, lost=None):
        self.B, self.P, self.rows, self.cols = B, P, rows, cols
        self.lost = lost or (lambda k: True)
        self.read, self.inverse, self.stable, self.repro = [], [], [], []
        B.stub(OT, 'bpm_reading', sym=self.reading, conc=self.reading)
        self.M = B.arr('pseudo-inverse', (cols, rows))
        B.stub(TOOLS, 'pinv', sym=self.pinv, conc=self.pinv)
        same = B.mod(OT)._is_repro
        B.stub(OT, '_is_repro', sym=lambda hist, n: self.repeated(hist, n, None), conc=lambda hist, n: self.repeated(hist, n, same))
        if B.symbolic and hasattr(B.mod(OT), '_bpm_reading_and_logging'):
            B.stub(OT, '_bpm_reading_and_logging', sym=self.logged)
        real = B.mod(OT)._is_stable_or_converged
        B.stub(OT, '_is_stable_or_converged', sym=lambda n, eps, hist: self.verdict(n, eps, hist, None),
               conc=lambda n, eps, hist: self.verdict(n, eps, hist, real))

    def reading(self, SC, bpm_ords=None, *a, **k):
        B, k = self.B, len(self.read)
        r = B.unknown('reading', (2, self.P), nan='last' if self.lost(k) else False)
        self.read.append((SC, bpm_ords, B.copy(r)))
        return r, B.unknown('transmission', (self.P,))

    def logged(self, SC, bpm_ords, ind_history=None, orb_history=None):
        """_bpm_reading_and_logging by contract (below)"""
        B, r = self.B, self.reading(SC, bpm_ords)[0]
        count = B.count(self.P, lambda j: B.Not(B.isnan(B.at(r, 0, j))))
        rms = B.unknown('rms', (2,), lo=0.0)
        if ind_history is None or orb_history is None:
            return r, [count], [rms]
        ind_history.append(count)
        orb_history.append(rms)
        return r, ind_history, orb_history

    def pinv(self, matrix, *a, **k):
        self.inverse.append((matrix, a, k))
        return self.B.copy(self.M)

    def repeated(self, hist, n, real):
        v = False if len(hist) < n and real is not None else self.B.coin('reproducible') if real is None else bool(real(hist, n))
        self.repro.append((list(hist), n, v))
        return v

    def reached(self, k):
        B, r = self.B, self.read[k][2]
        return B.count(self.P, lambda j: B.Not(B.isnan(B.at(r, 0, j))))

    def verdict(self, n, eps, hist, real):
        if len(hist) < n:
            v = False
        elif real is None:
            v = self.B.coin('stable')
        else:
            v = bool(real(n, eps, hist)) if self.B.rng.random() < 0.4 else self.B.rng.random() < 0.5
        self.stable.append((n, eps, len(hist), v))
        return v

    def at(self, k, j):
        """reading k as one column: horizontal positions, then vertical ones"""
        B, r = self.B, self.read[k][2]
        return B.If(j < self.P, lambda: B.at(r, 0, j), lambda: B.at(r, 1, j - self.P))

    def step(self, k, ref, i, what=None):
        """minus the pseudo-inverse of (reading k - reference), component i"""
        B = self.B
        return -B.sum(self.rows, lambda j: B.at(self.M, i, j) * ((what or self.at)(k, j) - ref(j)))

    def any_lost(self, k):
        B, r = self.B, self.read[k][2]
        return B.exists(self.P, lambda j: B.isnan(B.at(r, 0, j)))


@contract('_bpm_reading_and_logging', params=dict(first=(True, False)))
def logging(B, first):
    """the number of BPMs reached and the rms over them, appended to the histories"""
    ring = B.ring()
    bpm = B.ords('bpms', ring, lo=1)
    SC = B.machine(ring, BPM=bpm)
    P = B.size('points', 1, 6)
    X = []

    def reading(S, bpm_ords=None, *a, **k):
        X.append((S, bpm_ords, B.unknown('reading', (2, P), nan='last')))
        return B.copy(X[0][2]), None
    B.stub(OT, 'bpm_reading', sym=reading, conc=reading)
    h, o = [7], [B.vec('rms', 2)]
    h0, o0 = list(h), list(o)
    old = B.snapshot(SC.RING)
    out = B.call(B.mod(OT)._bpm_reading_and_logging, SC, bpm, *(() if first else (h, o)))
    B.ensure('accepted', out.ok, repr(out.exc))
    if not out.ok:
        return
    got, hist, orb = out.value
    B.ensure('one reading of the given BPMs', len(X) == 1 and X[0][0] is SC and X[0][1] is bpm)
    r = X[0][2]
    B.unchanged('the reading', got, r)
    keep = lambda j: B.Not(B.isnan(B.at(r, 0, j)))
    n = B.count(P, keep)
    B.ensure('history of the transmission', B.And(len(hist) == (1 if first else 2), lambda: B.eq(hist[-1], n), first or (hist is h and h[0] == 7)))
    B.ensure('history of the rms', B.And(len(orb) == len(hist), first or (orb is o and o[0] is o0[0]), lambda: len(B.shape(orb[-1])) == 1,
                                         lambda: B.eq(B.len(orb[-1]), 2)))
    seen = B.select(P, keep)
    for p in range(2):
        B.ensure(f'rms over the BPMs reached, plane {p}', B.Implies(n > 0, lambda p=p: B.eq(B.at(orb[-1], p), B.sqrt(B.sum(
            B.len(seen), lambda j: B.at(r, p, B.at(seen, j)) * B.at(r, p, B.at(seen, j))) / B.len(seen)))))
    B.frame('machine unchanged', SC.RING, old)


class Knobs:
    """the correctors. Proofs: set_cm_setpoints and set_cavity_setpoints by their contracts (C03, C02), every call recorded. Runs: the real ones"""

    def __init__(self, B, SC, hcm, vcm, cav=None):
        self.B, self.SC, self.hcm, self.vcm, self.cav, self.calls = B, SC, hcm, vcm, cav, []
        self.old, self.ideal = B.snapshot(SC.RING), B.snapshot(SC.IDEALRING)
        self.log = []
        if B.symbolic:
            B.stub(CORE, 'SimulatedCommissioning.set_cm_setpoints', sym=lambda *a, **k: self.cm(*a, **k))
            B.stub(CORE, 'SimulatedCommissioning.set_cavity_setpoints', sym=lambda *a, **k: self.rf(*a, **k))

    def cm(self, SC, ords, setpoints, skewness, method='abs'):
        self.calls.append((int(bool(skewness)), self.B.copy(ords), self.B.copy(setpoints), method))

    def rf(self, SC, ords, setpoints, param, method='abs'):
        self.calls.append((param, self.B.copy(ords), self.B.copy(setpoints), method))

    def check(self, steps, rf=()):
        """exactly these steps were made: pairs (correction as a function of the position, which correctors of a plane (None: all))"""
        B = self.B
        if B.symbolic:
            self.recorded(steps, rf)
        else:
            self.applied(steps, rf)

    def recorded(self, steps, rf):
        B, SC = self.B, self.SC
        entry = lambda v, i: B.at(v, i) if len(B.shape(v)) == 1 else B.at(v, i, 0)
        for p, (ords, off) in enumerate(((self.hcm, 0), (self.vcm, B.len(self.hcm)))):
            mine = [c for c in self.calls if c[0] == p]
            B.ensure(f'plane {p}: as many corrections as steps', len(mine) == len(steps))
            for k, ((_, o, v, method), (f, n)) in enumerate(zip(mine, steps)):
                used, n, shape = n, B.len(o), B.shape(v)
                B.ensure(f'plane {p}, step {k}: the correctors addressed', B.And(method == 'add', n <= B.len(ords), lambda: B.forall(
                    n, lambda i: B.eq(B.at(o, i), B.at(ords, i)))))
                if used is None:
                    B.ensure(f'plane {p}, step {k}: all of them', B.eq(n, B.len(ords)))
                else:       # the first ones; used is decreasing
                    B.last_of(used.all(p), n)
                    B.ensure(f'plane {p}, step {k}: every corrector up to there', B.Or(B.eq(n, B.len(ords)), lambda: B.Not(used(p, n))))
                    B.ensure(f'plane {p}, step {k}: none beyond', B.Or(B.eq(n, 0), lambda: used(p, n - 1)))
                B.ensure(f'plane {p}, step {k}: minus the pseudo-inverse step', B.And(
                    len(shape) in (1, 2), lambda: B.eq(shape[0], n), lambda: B.eq(shape[1], 1) if len(shape) == 2 else True,
                    lambda: B.forall(n, lambda i: B.eq(entry(v, i), f(off + i)))))
        mine = [c for c in self.calls if c[0] not in (0, 1)]
        B.ensure('as many frequency steps', len(mine) == len(rf))
        for k, ((param, o, v, method), f) in enumerate(zip(mine, rf)):
            B.ensure(f'frequency step {k}', B.And(param == 'Frequency', method == 'add', B.eq(o, self.cav), lambda: B.eq(B.at(v, 0) if B.shape(v) else v, f)))
        B.frame('nothing else changed', SC.RING, self.old)
        B.isolated(SC, self.ideal)

    def applied(self, steps, rf):
        B, SC, old = self.B, self.SC, self.old
        for x, ords, off in (('B', self.hcm, 0), ('A', self.vcm, len(self.hcm))):
            p = int(x == 'A')
            for i, r in enumerate(ords):
                v = c03.kick(B, old, x, r)
                for f, used in steps:
                    if used is not None and not used(p, i):
                        continue
                    v = v + f(off + i)
                    if B.has(old, 'CMlimit', r):
                        v = c03.clip(B, v, B.at(B.get(old, 'CMlimit', r), p))
                B.ensure(f'kick in plane {x}', B.eq(c03.kick(B, SC.RING, x, r), v), f'element {r}')
            sel = lambda r, ords=ords: B.member(ords, r)
            B.rows(f'other components of setpoint {x}', SC.RING, lambda r, x=x, sel=sel: B.Implies(sel(r), lambda: B.And(
                B.eq(B.len(B.get(SC.RING, f'SetPoint{x}', r)), B.len(B.get(old, f'SetPoint{x}', r))),
                B.forall(B.len(B.get(old, f'SetPoint{x}', r)), lambda i: B.Or(B.eq(i, 0), B.eq(
                    B.vecat(B.get(SC.RING, f'SetPoint{x}', r), i), B.vecat(B.get(old, f'SetPoint{x}', r), i)))))))
        h, v = (lambda r: B.member(self.hcm, r)), (lambda r: B.member(self.vcm, r))
        extra = dict(SetPointB=h, SetPointA=v)
        if self.cav is not None and rf:
            for r in self.cav:
                w = B.get(old, 'FrequencySetPoint', r)
                for f in rf:
                    w = w + f
                B.ensure('frequency setpoint', B.eq(B.get(SC.RING, 'FrequencySetPoint', r), w))
            extra.update({k: (lambda r: B.member(self.cav, r)) for k in ('FrequencySetPoint', 'Frequency', 'Voltage', 'TimeLag')})
        if steps:
            moved = {int(r) for p, o in enumerate((self.hcm, self.vcm)) for i, r in enumerate(o) if any(u is None or u(p, i) for _, u in steps)}
            c13.at_rest(B, SC, old, self.ideal, lambda r: r in moved, SC.INJ.Z0, SC.INJ.nTurns, extra)
        else:
            B.frame('machine untouched', SC.RING, old)
            B.isolated(SC, self.ideal)


def setup(B, turns, ref, extra=0, cavities=False, sort=False):
    ring, hcm, vcm = c13.correctors(B, 'offsets', sort)
    bpm = B.ords('bpms', ring, lo=1, sort=sort)
    kw = {}
    cav = None
    if cavities:
        cav = B.ords('cavities', ring, must=c20.FIELDS, lo=1, without=None)
        kw['RF'] = cav
    SC = B.machine(ring, BPM=bpm, HCM=hcm, VCM=vcm, **kw)
    SC.INJ.nTurns = turns
    P = B.len(bpm) * turns
    rows, cols = 2 * P, B.len(hcm) + B.len(vcm) + extra
    RM = B.arr('response', (rows, cols))
    if ref == 'none':
        reference, at = None, lambda j: 0.0
    elif ref == 'column':
        reference = B.arr('reference', (rows, 1))
        at = lambda j, x=B.copy(reference): B.at(x, j, 0)
    else:
        reference = B.vec('reference', rows)
        at = lambda j, x=B.copy(reference): B.at(x, j)
    return SC, hcm, vcm, bpm, cav, P, RM, reference, at


def OTN(B):
    return B.mod(OT).NREPRO


def procedure(B, X, K, fun, RM, reference, hcm, vcm, bpm, **kw):
    before = [(w, a, B.copy(a) if a is not None else None) for w, a in (
        ('response matrix', RM), ('reference', reference), ('BPM ordinates', bpm), ('horizontal ordinates', hcm), ('vertical ordinates', vcm))]
    out = B.call(getattr(B.mod(OT), fun), K.SC, RM, reference=reference, cm_ords=[hcm, vcm], bpm_ords=bpm, **kw)
    failed = out.raised(RuntimeError)
    B.ensure('succeeds or fails', B.Or(out.ok, failed, out.raised(ValueError)))
    B.ensure('the readings of the given BPMs', all(s is K.SC and b is bpm for s, b, _ in X.read))
    B.ensure('the pseudo-inverse of the given matrix', not X.inverse or B.eq(X.inverse[0][0], before[0][2]))
    for what, a, b in before:
        if a is not None:
            B.unchanged(f'{what} unchanged', a, b)
    return out, failed


@contract('correct', '_check_ords', 'SimulatedCommissioning.set_cm_setpoints', 'SimulatedCommissioning.set_cavity_setpoints',
          params=dict(ref=('none', 'column', 'vector'), turns=(1, 2), steps=(1, 2), dispersion=(False, True)),
          quick=lambda ref, turns, steps, dispersion: steps == 1 and (turns == 1 or ref == 'vector') or turns == 1 and ref == 'column' and dispersion)
def correct(B, ref, turns, steps, dispersion):
    """every step adds minus the pseudo-inverse step to exactly the given correctors; success exactly by the criterion"""
    SC, hcm, vcm, bpm, cav, P, RM, reference, at = setup(B, turns, ref, int(dispersion), dispersion)
    n = B.len(hcm) + B.len(vcm)
    X = Run(B, P, 2 * P, n + int(dispersion))
    K = Knobs(B, SC, hcm, vcm, cav)
    scale = B.real('scale', nz=True)
    out, failed = procedure(B, X, K, 'correct', RM, reference, hcm, vcm, bpm, eps=B.real('eps'), target=B.real('target'), maxsteps=steps,
                            **(dict(scaleDisp=scale) if dispersion else {}))
    B.ensure('not rejected', B.Or(out.ok, failed))
    done = len(X.read) - 1
    B.ensure('a reading after each step', done <= steps)
    for k in range(done):
        B.ensure(f'step {k} only with a complete reading', B.Not(X.any_lost(k)))
    stable = bool(X.stable and X.stable[-1][3])
    B.ensure('success only with a complete reading', B.Implies(out.ok, lambda: B.Not(X.any_lost(done))))
    B.ensure('success only when the criterion is met', B.Implies(out.ok, steps == 1 or stable))
    B.ensure('failure only when lost or not stable', B.Implies(failed, lambda: B.Or(not stable, lambda: X.any_lost(done))))
    B.ensure('stops early only when lost or stable', B.Implies(done < steps, lambda: B.Or(stable, lambda: X.any_lost(done))))
    K.check([(lambda i, k=k: X.step(k, at, i), None) for k in range(done)],
            [scale * X.step(k, at, n) for k in range(done)] if dispersion else ())


@contract('first_turn', '_check_ords', '_get_last_cm', 'SimulatedCommissioning.set_cm_setpoints', params=dict(
    ref=('none', 'column', 'vector'), turns=(1, 2)), quick=lambda ref, turns: turns == 1 or ref == 'vector')
def first_turn(B, ref, turns):
    threading(B, ref, turns, 1)


@contract('first_turn', bounded=True, runs=60, params=dict(ref=('none', 'vector'), turns=(1, 2), steps=(2, 5)))
def first_turn_steps(B, ref, turns, steps):
    threading(B, ref, turns, steps)


def threading(B, ref, turns, steps):
    """lost readings count as zero; only correctors upstream of the last BPM reached are used"""
    SC, hcm, vcm, bpm, cav, P, RM, reference, at = setup(B, turns, ref, sort=True)
    n = B.len(bpm)
    X = Run(B, P, 2 * P, B.len(hcm) + B.len(vcm))
    K = Knobs(B, SC, hcm, vcm)
    wiggled = []
    B.stub(OT, '_wiggling', sym=lambda S, *a, **k: wiggled.append(a) or S, conc=lambda S, *a, **k: wiggled.append(a) or S)
    out, failed = procedure(B, X, K, 'first_turn', RM, reference, hcm, vcm, bpm, maxsteps=steps)
    B.ensure('not rejected', B.Or(out.ok, failed))
    done = len(X.read) - 1
    reached = lambda k: X.reached(k)

    def zero(k, j):
        v = X.at(k, j)
        return B.If(B.isnan(v), lambda: 0.0, lambda: v)

    def used(k):
        def f(p, i):
            last = reached(k) - 1
            return B.Or(last >= n, lambda: B.at((hcm, vcm)[p], i) <= B.at(bpm, last))
        f.all = lambda p: B.select(B.len((hcm, vcm)[p]), lambda i: B.at((hcm, vcm)[p], i) <= B.at(bpm, reached(k) - 1))
        return f
    for k in range(done):
        B.ensure(f'step {k} only with a reading', reached(k) > 0)
    B.ensure('success only with full transmission, reproducibly', B.Implies(out.ok, lambda: B.And(
        X.repro[-1][1] == OTN(B), X.repro[-1][2], B.eq(reached(done), P))))
    K.check([(lambda i, k=k: X.step(k, at, i, zero), used(k)) for k in range(done)])


def turnwise(B, X, n, m, zero):
    """first turn, then second minus first turn at the first m BPMs, nothing beyond"""
    def plane(k, p, i):
        r = X.read[k][2]
        z = (lambda v: B.If(B.isnan(v), lambda: 0.0, lambda: v)) if zero else (lambda v: v)
        return B.If(i < n, lambda: z(B.at(r, p, i)), lambda: B.If(i - n < m, lambda: z(B.at(r, p, i) - B.at(r, p, i - n)), lambda: 0.0))
    return lambda k, j: B.If(j < 2 * n, lambda: plane(k, 0, j), lambda: plane(k, 1, j - 2 * n))


def first_only(B, at, n):
    """the reference of the first turn"""
    return lambda j: B.If(B.Or(j < n, lambda: B.And(j >= 2 * n, lambda: j < 3 * n)), lambda: at(j), lambda: 0.0)


@contract('stitch', '_check_ords', 'SimulatedCommissioning.set_cm_setpoints', params=dict(
    ref=('none', 'column', 'vector'), turns=(1, 2)), quick=lambda ref, turns: turns == 2 and ref != 'vector' or ref == 'none')
def stitch(B, ref, turns):
    stitching(B, ref, 1, turns)


@contract('stitch', bounded=True, runs=60, params=dict(ref=('none', 'vector'), steps=(2, 5)))
def stitch_steps(B, ref, steps):
    stitching(B, ref, steps, 2)


def stitching(B, ref, steps, turns):
    """the second turn is steered towards the first at the first BPMs; needs two turns and enough transmission"""
    SC, hcm, vcm, bpm, cav, P, RM, reference, at = setup(B, turns, ref)
    n = B.len(bpm)
    m = B.int('n_bpms', 1, 4)
    B.assume(B.And(m >= 1, m <= n))
    X = Run(B, P, 2 * P, B.len(hcm) + B.len(vcm))
    K = Knobs(B, SC, hcm, vcm)
    wiggled = []
    B.stub(OT, '_wiggling', sym=lambda S, *a, **k: wiggled.append(len(X.read)) or S, conc=lambda S, *a, **k: wiggled.append(len(X.read)) or S)
    out, failed = procedure(B, X, K, 'stitch', RM, reference, hcm, vcm, bpm, n_bpms=m, maxsteps=steps)
    B.ensure('rejected exactly without two turns', out.raised(ValueError) == (turns != 2))
    if turns != 2:
        B.ensure('no reading', not X.read)
        return K.check([])
    start = len(wiggled)
    done = len(X.read) - 1 - start
    B.ensure('at most one excursion, before the first step', start <= 1 and all(w == 1 for w in wiggled))
    if done > 0:
        B.ensure('steps only with enough transmission', X.reached(start) >= n + m)
    B.ensure('success only with full transmission, reproducibly', B.Implies(out.ok, lambda: B.And(
        X.repro[-1][1] == OTN(B), X.repro[-1][2], lambda: B.eq(X.reached(start + done), P))))
    what = turnwise(B, X, n, m, True)
    K.check([(lambda i, k=k: X.step(start + k, first_only(B, at, n), i, what), None) for k in range(max(done, 0))])


@contract('balance', '_check_ords', 'SimulatedCommissioning.set_cm_setpoints', params=dict(
    ref=('none', 'column', 'vector'), steps=(1, 2), turns=(1, 2)), quick=lambda ref, steps, turns: turns == 2 or ref == 'none')
def balance(B, ref, steps, turns):
    """the second turn is steered towards the first; needs full transmission of two turns"""
    SC, hcm, vcm, bpm, cav, P, RM, reference, at = setup(B, turns, ref)
    n = B.len(bpm)
    X = Run(B, P, 2 * P, B.len(hcm) + B.len(vcm))
    K = Knobs(B, SC, hcm, vcm)
    out, failed = procedure(B, X, K, 'balance', RM, reference, hcm, vcm, bpm, eps=B.real('eps'), maxsteps=steps)
    done = len(X.read) - 1
    if turns != 2:
        B.ensure('rejected without two turns', out.raised(ValueError) and not X.read)
        return K.check([])
    B.ensure('rejected exactly without full transmission', B.eq(out.raised(ValueError), X.reached(0) < P))
    stable = bool(X.stable and X.stable[-1][3])
    B.ensure('success exactly when stable', B.Implies(out.ok, lambda: B.And(stable, lambda: B.eq(X.reached(done), P))))
    B.ensure('failure only when lost or not stable', B.Implies(failed, lambda: B.Or(not stable, lambda: X.reached(done) < P)))
    for k in range(done):
        B.ensure(f'step {k} only with a complete reading', B.eq(X.reached(k), P))
    what = turnwise(B, X, n, n, False)
    K.check([(lambda i, k=k: X.step(k, first_only(B, at, n), i, what), None) for k in range(done)])


@contract('_check_ords', 'first_turn', 'stitch', 'balance', 'correct', params=dict(
    fun=('first_turn', 'stitch', 'balance', 'correct'), why=('rows', 'columns', 'reference')))
def rejected(B, fun, why):
    """shapes that do not match are rejected before anything is read or set"""
    ring, hcm, vcm = c13.correctors(B, 'offsets')
    bpm = B.ords('bpms', ring, lo=1)
    SC = B.machine(ring, BPM=bpm, HCM=hcm, VCM=vcm)
    T = 2 if fun in ('stitch', 'balance') else B.size('turns', 1, 3)
    SC.INJ.nTurns = T
    rows, cols, r = B.size('rows', 0, 20), B.size('columns', 0, 8), B.size('reference', 0, 20)
    good = 2 * B.len(bpm) * T
    n = B.len(hcm) + B.len(vcm)
    if why == 'rows':
        B.assume(B.Not(B.eq(rows, good)))
        r = rows
    elif why == 'columns':
        rows = r = good
        B.assume(B.Not(B.eq(cols, n)))
    else:
        rows, cols = good, n
        B.assume(B.Not(B.eq(r, good)))
    X = Run(B, B.len(bpm) * T, rows, cols)
    K = Knobs(B, SC, hcm, vcm)
    out, failed = procedure(B, X, K, fun, B.arr('response', (rows, cols)), B.vec('reference', r), hcm, vcm, bpm)
    B.ensure('rejected', out.raised(ValueError))
    B.ensure('nothing is read', not X.read)
    K.check([])


@contract('_check_ords', params=dict(given=(True, False), ref=('none', 'vector')))
def check_ords(B, given, ref):
    """defaults: all registered BPMs and correctors, zero reference"""
    SC, hcm, vcm, bpm, cav, P, RM, reference, at = setup(B, 1, ref, sort=not given)
    args = (bpm, [hcm, vcm]) if given else (None, None)
    out = B.call(B.mod(OT)._check_ords, SC, RM, reference, *args)
    B.ensure('accepted', out.ok, repr(out.exc))
    if not out.ok:
        return
    b, cm, r = out.value
    B.ensure('the BPMs', B.eq(b, bpm))
    B.ensure('the correctors', B.And(len(cm) == 2, lambda: B.eq(cm[0], hcm), lambda: B.eq(cm[1], vcm)))
    B.ensure('the reference', B.forall(2 * P, lambda j: B.eq(B.at(r, j, 0) if len(B.shape(r)) == 2 else B.at(r, j), at(j))))
    B.ensure('as many entries as rows', B.eq(B.shape(r)[0], 2 * P))


@contract('_get_last_cm', params=dict(count=(1, 2)))
def last_correctors(B, count):
    """the last correctors upstream of the given BPM (beyond the first turn: the last ones), or an error when there are none"""
    ring = B.ring()
    cm, bpm = B.ords('cm', ring, lo=1, sort=True), B.ords('bpms', ring, lo=1, sort=True)
    B.machine(ring)
    q = B.int('last', 0, 8)
    B.assume(B.And(q >= 0, B.len(cm) >= count))
    n, N = B.len(bpm), B.len(cm)
    c0, b0 = B.copy(cm), B.copy(bpm)
    out = B.call(B.mod(OT)._get_last_cm, q, count, bpm, cm)
    up = lambda i: B.Or(q >= n, lambda: B.at(c0, i) <= B.at(b0, q))
    B.ensure('error or a value', B.Or(out.ok, out.raised(RuntimeError)))
    if out.raised(RuntimeError):
        B.ensure('no corrector upstream', B.forall(N, lambda i: B.Not(up(i))))
    if not out.ok:
        return
    got, where = out.value
    k = B.len(got)
    B.ensure('at most as many as asked for', B.And(k >= 1, k <= count, B.eq(len(where) if isinstance(where, range) else B.len(where), k)))
    at = lambda i: where[i]
    if not B.symbolic:
        used = [i for i in range(N) if up(i)][-count:]
        B.ensure('the last ones', [int(x) for x in where] == used and [int(x) for x in got] == [int(c0[i]) for i in used])
    else:
        B.ensure('upstream', B.forall(k, lambda i: B.And(B.eq(B.at(got, i), B.at(cm, at(i))), lambda: up(at(i)))))
    B.unchanged('correctors unchanged', cm, c0)
    B.unchanged('BPMs unchanged', bpm, b0)


@contract('_wiggling', bounded=True, runs=40, params=dict(reach=('early', 'late', 'never')))
def wiggling(B, reach):
    """moves only the last correctors upstream of the last BPM reached, by at most the documented range; fails when nothing helps"""
    SC, hcm, vcm, bpm, cav, P, RM, reference, at = setup(B, 1, 'none', sort=True)
    n, N = B.len(bpm), B.len(hcm) + B.len(vcm)
    state = {'k': 0}
    need = B.rng.randint(1, 70) if reach == 'early' else B.rng.randint(70, 240)
    limit = n

    def reading(S, bpm_ords=None, *a, **k):
        state['k'] += 1
        r = B.unknown('reading', (2, n))
        if reach == 'never' or state['k'] <= need:
            r[:, n - 1:] = np.nan
        return r, None
    B.stub(OT, 'bpm_reading', sym=reading, conc=reading)
    old, ideal = B.snapshot(SC.RING), B.snapshot(SC.IDEALRING)
    h0, v0 = B.copy(hcm), B.copy(vcm)
    if n < 2:       # at least one BPM is reached
        return
    up = [[[int(r) for r in o if r <= bpm[q]][-8:] for o in (hcm, vcm)] for q in (n - 2, n - 1)]
    possible = all(up[0])
    out = B.call(B.mod(OT)._wiggling, SC, bpm, [hcm, vcm], limit)
    if not possible:
        B.ensure('failure without correctors upstream', out.raised(RuntimeError))
        B.frame('machine untouched', SC.RING, old)
        return
    B.ensure('succeeds or fails', out.ok or out.raised(RuntimeError))
    if reach == 'never':
        B.ensure('failure when nothing helps', out.raised(RuntimeError))
    if out.ok:
        B.ensure('success only with the transmission asked for', reach != 'never' and state['k'] > need)
    sets = [set(up[0][p]) | set(up[1][p]) for p in range(2)]
    h, v = (lambda r: r in sets[0]), (lambda r: r in sets[1])
    either = lambda r: h(r) or v(r)
    B.frame('only the last correctors', SC.RING, old, dict(SetPointB=h, SetPointA=v, PolynomA=either, PolynomB=either, MaxOrder=either, KickAngle=either))
    B.isolated(SC, ideal)
    B.unchanged('horizontal ordinates unchanged', hcm, h0)
    B.unchanged('vertical ordinates unchanged', vcm, v0)


@contract('_is_repro', '_is_stable_or_converged', bounded=True, runs=300)
def criteria(B):
    """reproducible: the last n entries are equal; stable: variance over standard deviation of the last n rms readings below the limit"""
    n, m = B.rng.randint(1, 6), B.rng.randint(0, 9)
    hist = [B.rng.randint(0, 2) for _ in range(m)]
    out = B.call(B.mod(OT)._is_repro, list(hist), n)
    B.ensure('reproducible', out.ok and bool(out.value) == (m >= n and len(set(hist[-n:])) == 1))
    orb = [abs(B.nprng.randn(2)) for _ in range(m)]
    eps = abs(B.rng.gauss(0, 1))
    o0 = [x.copy() for x in orb]
    out = B.call(B.mod(OT)._is_stable_or_converged, n, eps, orb)
    flat = np.array(o0[-n:]).ravel() if m else np.zeros(0)
    want = m >= n and bool(np.var(flat) < eps * np.std(flat))
    B.ensure('stable', out.ok and bool(out.value) == want)
    B.ensure('history unchanged', all(np.array_equal(a, b) for a, b in zip(orb, o0)))
