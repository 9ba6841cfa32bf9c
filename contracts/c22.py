"""C22: model response matrices and dispersion are exact finite differences."""
import copy
import numpy as np
from pydv.contract import contract, borrow
from pydv.heap import REAL_K, vec
from . import c06

RM = 'pySC.lattice_properties.response_model'
POL = {f'Polynom{x}': vec(lo=1) for x in 'AB'}
TRUSTED = []


def thin(B, R, r):
    return B.eq(B.get(R, 'PassMethod', r), 'CorrectorPass')


class Response:
    """tracking and closed-orbit search by contract: any positions (not-a-number included), a new answer for every lattice they are given.
    what(lattice, where) is checked for every lattice that is tracked"""

    def __init__(self, B, mode, n, T, check, which):
        self.B, self.mode, self.n, self.T, self.check, self.which = B, mode, n, T, check, which
        self.calls, self.keys, self.wrong = {}, [], []
        name = 'lattice_track' if mode == 'TBT' else 'find_orbit6'
        f = self.track if mode == 'TBT' else self.orbit
        B.hook_at(name, sym=f, conc=f)

    def track(self, lattice, r_in, nturns=1, refpts=None, **k):
        return (self.answer(lattice, (r_in, nturns, refpts)), None, None)

    def orbit(self, ring=None, refpts=None, **k):
        B, x = self.B, self.answer(ring, (None, 1, refpts))
        return B.build((6,), lambda c: 0.0), B.build((self.n, 6), lambda b, c: B.at(x, c, 0, b, 0))

    def answer(self, lattice, args):
        B = self.B
        lattice = getattr(lattice, 'ring', lattice) if B.symbolic else lattice
        key = self.which(lattice)
        self.check(lattice, key, args)
        if not B.symbolic and key in self.calls:
            return self.calls[key].copy()
        x = B.unknown('track', (6, 1, self.n, self.T), nan=key is not None)
        self.calls[key] = B.copy(x) if not B.symbolic else (x, [L.k for L in B.c.loops])
        return x

    def value(self, key, k, c, b, t):
        """coordinate c at BPM b and turn t of the answer for the lattice key (in a loop: of iteration k)"""
        B = self.B
        if not B.symbolic:
            return B.at(self.calls[key if k is None else key + (k,)], c, 0, b, t)
        return B.of_iteration(*self.calls[key], k, (c, 0, b, t))


def setup(B, ideal, kinds, absent=()):
    """the lattice the model starts from"""
    n = B.size('elements', 1)
    other = B.ring('RING', n=n)
    design = B.ring('MODEL', n=n, kinds=kinds, absent=absent)
    return other, design


def source(B, SC, design, ideal, other):
    """the design lattice, or the lattice made from the setpoints (by the contract of SCgetModelRING, C06)"""
    used = []
    if not ideal:
        def model(S, *a, **k):
            used.append(S)
            return design if B.symbolic else design.deepcopy()
        B.stub(RM, 'SCgetModelRING', sym=model, conc=model)
    else:
        def never(S, *a, **k):
            used.append(S)
            return other if B.symbolic else other.deepcopy()
        B.stub(RM, 'SCgetModelRING', sym=never, conc=never)
    return used


@contract('SCgetModelRM', 'orbpass', params=dict(mode=('TBT', 'ORB'), ideal=(True, False)))
def response_matrix(B, mode, ideal):
    """each column: (response with exactly one corrector kicked - unperturbed response) / kick"""
    other, design = setup(B, ideal, {'KickAngle': vec(2)})
    B.must(design, lambda r: thin(B, design, r), {'KickAngle': vec(2)})

    def fix(rng, el):
        if el.Length == 0 and el.PassMethod != 'CorrectorPass':
            el.Length = 0.3
        if el.PassMethod == 'CorrectorPass' and not hasattr(el, 'KickAngle'):
            el.KickAngle = np.array([rng.gauss(0, 1), rng.gauss(0, 1)])
    ok = lambda r: B.Or(thin(B, design, r), lambda: B.get(design, 'Length', r) != 0)
    cm = [B.ords(x, design, must=POL, axioms=ok, repair=fix) for x in ('hcm', 'vcm')]
    bpm = B.ords('bpms', design, lo=1)
    SC = B.machine(other, ideal=design if ideal else None)
    n = B.len(bpm)
    T = B.size('turns', 1, 3)
    dk = B.real('dkick', nz=True)
    z0 = B.vec('Z0', 6)
    if not B.symbolic and ideal:
        SC.IDEALRING = design
    used = source(B, SC, design, ideal, other)
    base, old, dold, z00 = B.snapshot(design), B.snapshot(SC.RING), B.snapshot(SC.IDEALRING), B.copy(z0)
    m0 = [B.copy(x) for x in cm] + [B.copy(bpm)]

    def which(lat):
        if B.symbolic:
            pos = B.loop_position()
            if pos is None:
                return None
            p = [p for p in range(2) if B.same_size(pos[1], B.len(cm[p]))]
            if len(p) != 1:
                raise B.unsupported('order of the correctors')
            return (p[0], B.known(thin(B, base, B.at(cm[p[0]], pos[0]))))
        diff = differences(lat, base)
        if not diff:
            return None
        for p in range(2):
            for i, r in enumerate(cm[p]):
                if set(diff) == {(int(r), 'KickAngle' if thin(B, base, r) else 'Polynom' + 'BA'[p])}:
                    j = p if thin(B, base, r) else 0
                    a, b = np.array(getattr(lat[int(r)], diff[0][1]), float), np.array(getattr(base[int(r)], diff[0][1]), float)
                    if np.array_equal(np.delete(a, j), np.delete(b, j)):
                        if not (thin(B, base, r) and p != [q for q in range(2) if a[q] != b[q]][0]):
                            return (p, i)
        return ('other', tuple(diff))

    def check(lat, key, args):
        B.ensure('initial coordinates and reference points', B.And(mode == 'ORB' or B.And(B.eq(args[1], T), lambda: B.eq(
            B.ravel(args[0]), z00)), lambda: B.eq(args[2], bpm)))
        if key is None:
            B.frame('unperturbed lattice', lat, base, {} if B.symbolic else dict(Energy=True))
            return
        p = key[0]
        if p == 'other':
            B.ensure('exactly one corrector is kicked', False, str(key))
            return
        row = B.at(cm[p], B.loop_position()[0] if B.symbolic else key[1])
        me = lambda r: B.eq(r, row)
        pol = 'Polynom' + 'BA'[p]
        B.frame('everything but the corrector', lat, base, {**({} if B.symbolic else dict(Energy=True)), 'KickAngle': lambda r: B.And(me(r), lambda: thin(B, base, r)),
                                                            pol: lambda r: B.And(me(r), lambda: B.Not(thin(B, base, r)))})
        a, b = (lambda x: B.get(lat, x, row)), (lambda x: B.get(base, x, row))
        B.ensure('kick of a thin corrector', B.Implies(thin(B, base, row), lambda: B.And(
            B.eq(B.at(a('KickAngle'), p), B.at(b('KickAngle'), p) + dk), B.eq(B.at(a('KickAngle'), 1 - p), B.at(b('KickAngle'), 1 - p)))))
        B.ensure('kick of a thick corrector', B.Implies(B.Not(thin(B, base, row)), lambda: B.And(
            B.eq(B.len(a(pol)), B.len(b(pol))), lambda: B.forall(B.len(b(pol)), lambda i: B.eq(B.at(a(pol), i), B.If(
                B.eq(i, 0), lambda: B.at(b(pol), 0) + dk / B.get(base, 'Length', row) * (-1 if p == 0 else 1), lambda: B.at(b(pol), i)))))))
    turns = T if mode == 'TBT' else 1
    X = Response(B, mode, n, turns, check, which)
    out = B.call(B.mod(RM).SCgetModelRM, SC, bpm, cm, trackMode=mode, Z0=z0, nTurns=T, dkick=dk, useIdealRing=ideal)
    B.ensure('accepted', out.ok, repr(out.exc))
    B.ensure('the design or the setpoint-derived model, as asked for', len(used) == int(not ideal) and all(s is SC for s in used))
    B.frame('machine unchanged', SC.RING, old)
    B.frame('design lattice unchanged', SC.IDEALRING, dold)
    B.unchanged('initial coordinates unchanged', z0, z00)
    for x, y in zip(cm + [bpm], m0):
        B.unchanged('ordinates unchanged', x, y)
    if not out.ok:
        return
    M = out.value
    rows = n * turns
    B.ensure('size', B.And(len(B.shape(M)) == 2, lambda: B.eq(B.shape(M)[0], 2 * rows), lambda: B.eq(B.shape(M)[1], B.len(cm[0]) + B.len(cm[1]))))

    def entry(p, k, c, b, t):
        if B.symbolic:
            v = lambda flag: X.value((p, flag), k, c, b, t)
            x = v(None) if (p, None) in X.calls else B.If(thin(B, base, B.at(cm[p], k)), lambda: v(True), lambda: v(False))
        else:
            x = X.value((p,), k, c, b, t)
        return (x - X.value(None, None, c, b, t)) / dk
    for p in range(2):
        for q in range(2):
            if B.symbolic and not any(key is not None and key[0] == p for key in X.calls):
                continue       # no corrector
            B.ensure(f'columns of plane {p}: positions {"xy"[q]}', B.forall(B.len(cm[p]), lambda k: B.forall(turns, lambda t: B.forall(n, lambda b: B.eq(
                B.at(M, q * rows + t * n + b, k + (B.len(cm[0]) if p else 0)), entry(p, k, 2 * q, b, t))))))


def differences(a, b):
    """(element, attribute) pairs in which two lattices differ"""
    out = []
    for i, (x, y) in enumerate(zip(a, b)):
        for k in set(x.__dict__) | set(y.__dict__):
            if k == 'Energy':
                continue
            u, v = x.__dict__.get(k), y.__dict__.get(k)
            if type(u) is not type(v) or not (np.array_equal(u, v) if isinstance(u, np.ndarray) else u == v or u != u and v != v):
                out.append((i, k))
    return out if len(a) == len(b) else [('length', 'differs')]


@contract('SCgetModelDispersion', 'orbpass', params=dict(mode=('TBT', 'ORB'), ideal=(True, False)))
def dispersion(B, mode, ideal):
    """(response with the frequency of every given cavity shifted - unperturbed response) / shift"""
    other, design = setup(B, ideal, {'Frequency': REAL_K})
    cav = B.ords('cavities', design, must={'Frequency': REAL_K})
    bpm = B.ords('bpms', design, lo=1)
    SC = B.machine(other, ideal=design if ideal else None)
    if not B.symbolic and ideal:
        SC.IDEALRING = design
    n, T = B.len(bpm), B.size('turns', 1, 3)
    step = B.real('step', nz=True)
    z0 = B.vec('Z0', 6)
    used = source(B, SC, design, ideal, other)
    base, old, dold, z00, c0, b0 = B.snapshot(design), B.snapshot(SC.RING), B.snapshot(SC.IDEALRING), B.copy(z0), B.copy(cav), B.copy(bpm)
    calls = []

    def which(lat):
        calls.append(lat)
        return None if len(calls) == 1 else ('shifted', len(calls))

    def check(lat, key, args):
        B.ensure('initial coordinates and reference points', B.And(mode == 'ORB' or B.And(B.eq(args[1], T), lambda: B.eq(
            B.ravel(args[0]), z00)), lambda: B.eq(args[2], bpm)))
        if key is None:
            B.frame('unperturbed lattice', lat, base, {} if B.symbolic else dict(Energy=True))
            return
        sel = lambda r: B.member(cav, r)
        B.rows('frequency of every cavity shifted', lat, lambda r: B.Implies(sel(r), lambda: B.eq(
            B.get(lat, 'Frequency', r), B.get(base, 'Frequency', r) + step)))
        B.frame('nothing else shifted', lat, base, {'Frequency': sel} if B.symbolic else dict(Frequency=sel, Energy=True))
    turns = T if mode == 'TBT' else 1
    X = Response(B, mode, n, turns, check, which)
    out = B.call(B.mod(RM).SCgetModelDispersion, SC, bpm, cav, trackMode=mode, Z0=z0, nTurns=T, rfStep=step, useIdealRing=ideal)
    B.ensure('the design or the setpoint-derived model, as asked for', len(used) == int(not ideal) and all(s is SC for s in used))
    B.frame('machine unchanged', SC.RING, old)
    B.frame('design lattice unchanged', SC.IDEALRING, dold)
    B.unchanged('initial coordinates unchanged', z0, z00)
    B.unchanged('cavities unchanged', cav, c0)
    B.unchanged('BPMs unchanged', bpm, b0)
    B.ensure('accepted', out.ok, repr(out.exc))
    if not out.ok:
        return
    v = out.value
    rows = n * turns
    B.ensure('two responses', len(X.calls) == 2)
    B.ensure('size', B.And(len(B.shape(v)) == 1, lambda: B.eq(B.len(v), 2 * rows)))
    key = [k for k in X.calls if k is not None][0]
    val = lambda k, c, b, t: X.value(k, None, c, b, t) if B.symbolic else B.at(X.calls[k], c, 0, b, t)
    for q in range(2):
        B.ensure(f'positions {"xy"[q]}', B.forall(turns, lambda t: B.forall(n, lambda b: B.eq(
            B.at(v, q * rows + t * n + b), (val(key, 2 * q, b, t) - val(None, 2 * q, b, t)) / step))))


@contract('SCgetModelRM', 'SCgetModelDispersion', params=dict(mode=('TBT', 'ORB'), what=('matrix', 'dispersion')))
def rejected(B, mode, what):
    """an unperturbed response without valid orbit is rejected"""
    ring = B.ring()
    bpm, some = B.ords('bpms', ring, lo=1), B.ords('others', ring, must=dict(POL, Frequency=REAL_K))
    SC = B.machine(ring)
    n, T = B.len(bpm), B.size('turns', 1, 3)
    turns = T if mode == 'TBT' else 1
    lost, at = B.index('lost', n), B.index('turn', turns)
    calls = []

    def answer():
        calls.append(0)
        x = B.unknown('track', (6, 1, n, turns), nan=True)
        return B.build((6, 1, n, turns), lambda c, z, b, t: B.If(B.And(B.eq(b, lost), B.eq(t, at)), lambda: B.nan, lambda: B.at(x, c, z, b, t)))

    def track(*a, **k):
        return answer(), None, None

    def orbit(*a, **k):
        x = answer()
        return B.build((6,), lambda c: 0.0), B.build((n, 6), lambda b, c: B.at(x, c, 0, b, 0))
    f = track if mode == 'TBT' else orbit
    B.hook_at('lattice_track' if mode == 'TBT' else 'find_orbit6', sym=f, conc=f)
    old, ideal = B.snapshot(SC.RING), B.snapshot(SC.IDEALRING)
    if what == 'matrix':
        out = B.call(B.mod(RM).SCgetModelRM, SC, bpm, [some, some], trackMode=mode, nTurns=T)
    else:
        out = B.call(B.mod(RM).SCgetModelDispersion, SC, bpm, some, trackMode=mode, nTurns=T)
    B.ensure('rejected', out.raised(ValueError))
    B.ensure('after one response', len(calls) == 1)
    B.frame('machine unchanged', SC.RING, old)
    B.frame('design lattice unchanged', SC.IDEALRING, ideal)


borrow(__name__, c06, lambda name: True, dict(model_ring={}))
