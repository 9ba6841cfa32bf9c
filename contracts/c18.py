"""C18: LOCO parameters, objective and corrections are laid out consistently."""
import copy
import itertools
import numpy as np
from pydv.contract import contract, borrow
from . import c04, c13

LOCO = 'pySC.correction.loco'
TRUSTED = ['scipy.optimize.least_squares: calls the function it is given with any parameters']
GROUPS = ('quads', 'cor', 'bpm')
SUBSETS = tuple('+'.join(s) for k in range(4) for s in itertools.combinations(GROUPS, k))


def chosen(B, groups, q, c):
    """whether parameter i is among the requested groups: quadrupoles, correctors, BPMs"""
    f = [g in groups.split('+') for g in GROUPS]
    return lambda i: B.Or(B.And(f[0], i < q), B.And(f[1], i >= q, i < q + c), B.And(f[2], i >= q + c))


@contract('_get_parameters_mask', params=dict(groups=SUBSETS))
def mask(B, groups):
    q, c, b = (B.size(x) for x in ('quads', 'correctors', 'monitors'))
    g = [x for x in groups.split('+') if x]
    out = B.call(B.mod(LOCO)._get_parameters_mask, g[::-1], [q, c, b])
    B.ensure('accepted', out.ok, repr(out.exc))
    if not out.ok:
        return
    sel = chosen(B, groups, q, c)
    B.ensure('an entry per parameter', B.eq(B.len(out.value), q + c + b))
    B.ensure('exactly the requested groups', B.forall(q + c + b, lambda i: B.And(
        B.Implies(sel(i), lambda: B.at(out.value, i)), B.Implies(B.Not(sel(i)), lambda: B.Not(B.at(out.value, i))))))


def residual(B, res, J, par, p, i, k):
    return B.at(res, i, k) - B.sum(p, lambda l: B.at(J, l, i, k) * B.at(par, l))


@contract('objective', params=dict(weights=('one', 'matrix')))
def objective(B, weights):
    """the weighted difference of the residual and the sum of sensitivity matrices times parameters"""
    p, m, n = B.size('parameters', 1), B.size('readings', 1), B.size('correctors', 1)
    par, res, J = B.vec('parameters', p), B.arr('residuals', (m, n)), B.arr('sensitivities', (p, m, n))
    w = B.real('weight', lo=0) if weights == 'one' else B.arr('weights', (m, m), lo=0)
    copies = [(x, B.copy(x)) for x in (par, res, J)]
    out = B.call(B.mod(LOCO).objective, par, res, J, w)
    B.ensure('accepted', out.ok, repr(out.exc))
    if not out.ok:
        return
    B.ensure('a value per reading and corrector', B.And(len(B.shape(out.value)) == 1, lambda: B.eq(B.len(out.value), n * m)))
    r = lambda i, k: residual(B, res, J, par, p, i, k)
    B.ensure('weighted difference', B.forall(n, lambda k: B.forall(m, lambda j: B.eq(
        B.at(out.value, k * m + j), r(j, k) * B.sqrt(w) if weights == 'one' else B.sum(m, lambda i: r(i, k) * B.sqrt(B.at(w, i, j)))))))
    for x, x0 in copies:
        B.unchanged('arguments unchanged', x, x0)


class Result:
    def __init__(self, x):
        self.x = x


@contract('loco_correction_lm', '_get_parameters_mask', params=dict(groups=SUBSETS), quick=lambda groups: groups.count('+') != 0)
def least_squares(B, groups):
    """the fit minimises the objective over exactly the requested parameters, starting from the guess"""
    q, c, b = (B.size(x, 1, 3) for x in ('quads', 'correctors', 'monitors'))
    m, n = B.size('readings', 1), B.size('columns', 1)
    N = q + c + b
    guess, J = B.vec('guess', N), B.arr('sensitivities', (N, m, n))
    model, meas = B.arr('model', (m, n)), B.arr('measured', (m, n))
    w = B.arr('weights', (m, m), lo=0)
    seen, objs = [], []
    found = B.vec('found', B.size('fitted'))

    def fit(fun, x0, **k):
        seen.append((fun, x0))
        return Result(found)
    B.stub(LOCO, 'least_squares', sym=fit, conc=fit)

    def obj(*a):
        objs.append(a)
        return B.unknown('objective', (n * m,))
    B.stub(LOCO, 'objective', sym=obj)
    copies = [(x, B.copy(x)) for x in (guess, J, model, meas, w)]
    out = B.call(B.mod(LOCO).loco_correction_lm, guess, model, meas, J, [q, c, b], [x for x in groups.split('+') if x], weights=w)
    B.ensure('accepted', out.ok, repr(out.exc))
    B.ensure('one fit', len(seen) == 1)
    if not out.ok or len(seen) != 1:
        return
    fun, x0 = seen[0]
    sel = B.select(N, chosen(B, groups, q, c))
    M = B.len(sel)
    B.ensure('start: the requested entries of the guess', B.And(B.eq(B.len(x0), M), lambda: B.forall(M, lambda i: B.eq(
        B.at(x0, i), B.at(guess, B.at(sel, i))))))
    par = B.vec('any', M)
    val = fun(par)
    if B.symbolic:
        B.ensure('the objective', len(objs) == 1)
        p, r, Jm, ww = objs[0]
        B.ensure('its parameters', B.eq(p, par))
        B.ensure('its residual: measured minus model', B.And(B.eq(B.shape(r)[0], m), B.eq(B.shape(r)[1], n), lambda: B.forall(
            m, lambda i: B.forall(n, lambda k: B.eq(B.at(r, i, k), B.at(meas, i, k) - B.at(model, i, k))))))
        B.ensure('its sensitivities: the requested ones', B.And(len(B.shape(Jm)) == 3, lambda: B.eq(B.shape(Jm)[0], M), lambda: B.eq(
            B.shape(Jm)[1], m), lambda: B.eq(B.shape(Jm)[2], n), lambda: B.forall(M, lambda l: B.forall(m, lambda i: B.forall(
                n, lambda k: B.eq(B.at(Jm, l, i, k), B.at(J, B.at(sel, l), i, k)))))))
        B.ensure('its weights', B.eq(ww, w))
    else:
        d = meas - model
        r = lambda i, k: B.at(d, i, k) - sum((B.at(J, int(sel[l]), i, k) * B.at(par, l) for l in range(M)), 0.0)
        B.ensure('the objective', B.eq(B.len(val), n * m) and all(B.eq(val[k * m + j], sum(
            r(i, k) * B.sqrt(B.at(w, i, j)) for i in range(m))) for k in range(n) for j in range(m)))
    B.ensure('the fitted parameters', B.eq(out.value, found))
    for x, x1 in copies:
        B.unchanged('arguments unchanged', x, x1)


@contract('loco_correction_ng', params=dict(groups=SUBSETS), only=lambda groups: groups, bounded=True)
def normal_equations(B, groups):
    """matrix and right-hand side are made of the sensitivities of exactly the requested parameters"""
    q, c, b = (B.size(x, 1, 3) for x in ('quads', 'correctors', 'monitors'))
    m, n = B.size('readings', 1, 4), B.size('columns', 1, 4)
    N = q + c + b
    guess, J = B.vec('guess', N), B.arr('sensitivities', (N, m, n))
    model, meas = B.arr('model', (m, n)), B.arr('measured', (m, n))
    w = np.diag(np.abs(B.vec('weights', m)))
    seen = []

    def inverse(J, rhs, *a, **k):
        seen.append((np.array(J), np.array(rhs), a, k))
        return B.unknown('result', (len(J),))
    B.stub(LOCO, 'get_inverse', conc=inverse)
    out = B.call(B.mod(LOCO).loco_correction_ng, guess, model, meas, J, [q, c, b], groups.split('+'), 3, weights=w)
    B.ensure('accepted', out.ok, repr(out.exc))
    if not out.ok or len(seen) != 1:
        return
    sel = B.select(N, chosen(B, groups, q, c))
    B.ensure('matrix: the requested sensitivities', B.eq(seen[0][0], J[sel]))
    r = ((meas - model) - np.einsum('lik,l->ik', J[sel], guess[sel])).T @ np.sqrt(w)
    want = [np.sum(J[s].T @ w @ r.T) for s in sel]
    B.ensure('right-hand side: the requested sensitivities', B.eq(np.ravel(seen[0][1]), np.array(want)))


# ---------------------------------------------------------------- sensitivities
class Pool:
    """multiprocessing.Pool by contract: the function applied to every item (each worker works on its own copy)"""

    def __init__(self, B):
        self.B = B

    def map(self, f, args):
        own = (lambda a: tuple(x.very_deep_copy() if hasattr(x, 'very_deep_copy') else x for x in a)) if not self.B.symbolic else lambda a: a
        return [f(own(a)) for a in args]

    def close(self): pass
    def join(self): pass


@contract('calculate_jacobian', 'generating_quads_response_matrices', 'SimulatedCommissioning.set_magnet_setpoints',
          params=dict(skewness=(False, True), dispersion=(False, True), full=(True, False)),
          only=lambda skewness, dispersion, full: not (dispersion and full))
def sensitivities(B, skewness, dispersion, full):
    """quadrupoles: finite difference of the model response; correctors (BPMs): that column (row) of the model response"""
    letter = 'A' if skewness else 'B'
    ring, quads = c13.magnets(B, 'quads', 1, letter, False, n=1)
    hcm, vcm = B.ords('hcm', ring, lo=1), B.ords('vcm', ring, lo=1)
    bpm, cav = B.ords('bpms', ring, lo=1), B.ords('cavities', ring)
    SC = B.machine(ring)
    m, n = 2 * B.len(bpm), B.len(hcm) + B.len(vcm)
    model = B.arr('model', (m, n))
    dk, kick, step = B.real('dk', nz=True), B.real('kick', nz=True), B.real('rf_step', nz=True)
    ideal_too = B.bool('ideal')
    if B.symbolic:
        ideal_too = B.coin('ideal ring')
    old, ideal = B.snapshot(SC.RING), B.snapshot(SC.IDEALRING)
    m0, q0 = B.copy(model), B.copy(quads)
    limited = lambda v: B.If(B.And(skewness, B.has(old, 'SkewQuadLimit', r0)), lambda: c04.c03.clip(
        B, v, B.get(old, 'SkewQuadLimit', r0)), v)
    r0 = B.at(quads, 0)
    me = lambda r: B.eq(r, r0)
    moved = lambda S: (B.frame('nothing but the quadrupole', S.RING, old, {f'SetPoint{letter}': me, 'PolynomA': me, 'PolynomB': me, 'MaxOrder': me,
                                                                         'KickAngle': me}),
                       B.ensure('the quadrupole is shifted', c04.stored(B, S.RING, old, letter, r0, [1], limited(
                           B.at(B.get(old, f'SetPoint{letter}', r0), 1) + dk))))
    calls, disp = [], []

    def response(S, bpms, cms, trackMode='TBT', dkick=1e-5, useIdealRing=True, **k):
        moved(S)
        B.ensure('response as asked for', B.And(B.eq(bpms, bpm), B.eq(cms[0], hcm), B.eq(cms[1], vcm), trackMode == 'ORB', B.eq(dkick, kick),
                                                bool(useIdealRing) == bool(ideal_too), not k))
        calls.append(B.unknown('response', (m, n)))
        return calls[-1] if B.symbolic else calls[-1].copy()

    def dispersions(S, bpms, CAVords=None, rfStep=1e3, useIdealRing=True, **k):
        if disp:
            moved(S)
        else:
            B.frame('unperturbed machine', S.RING, old)
        B.ensure('dispersion as asked for', B.And(B.eq(bpms, bpm), B.eq(CAVords, cav), B.eq(rfStep, step), bool(useIdealRing) == bool(ideal_too)))
        disp.append(B.unknown('dispersion', (m,)))
        return disp[-1] if B.symbolic else disp[-1].copy()
    B.stub(LOCO, 'SCgetModelRM', sym=response, conc=response)
    B.stub(LOCO, 'SCgetModelDispersion', sym=dispersions, conc=dispersions)
    pool = lambda *a: Pool(B)
    B.stub(LOCO, 'multiprocessing.Pool', sym=pool, conc=pool)
    out = B.call(B.mod(LOCO).calculate_jacobian, SC, model, kick, [hcm, vcm], bpm, quads, dk, trackMode='ORB', useIdealRing=ideal_too,
                 skewness=skewness, includeDispersion=dispersion, rf_step=step, cav_ords=cav, full_jacobian=full)
    B.ensure('accepted', out.ok, repr(out.exc))
    if not out.ok:
        return
    B.ensure('one response per quadrupole', len(calls) == 1 and len(disp) == 2 * dispersion)
    B.unchanged('model unchanged', model, m0)
    B.unchanged('ordinates unchanged', quads, q0)
    J = out.value
    first = J[0]
    B.ensure('size of the sensitivity of a quadrupole', B.And(len(B.shape(first)) == 2, lambda: B.eq(B.shape(first)[0], m), lambda: B.eq(
        B.shape(first)[1], n + dispersion)))
    B.ensure('sensitivity of a quadrupole', B.forall(m, lambda i: B.forall(n, lambda k: B.eq(
        B.at(first, i, k), (B.at(calls[0], i, k) - B.at(model, i, k)) / dk))))
    if dispersion:
        B.ensure('dispersion column', B.forall(m, lambda i: B.eq(B.at(first, i, n), (B.at(disp[1], i) - B.at(disp[0], i)) / dk)))
    if not full:
        B.ensure('only quadrupoles', B.eq(B.len(J), 1))
        return
    B.ensure('quadrupoles, correctors, BPMs', B.And(len(B.shape(J)) == 3, lambda: B.eq(B.shape(J)[0], 1 + n + m)))
    B.ensure('sensitivity of a corrector', B.forall(n, lambda c: B.forall(m, lambda i: B.forall(n, lambda k: B.eq(
        B.at(J, 1 + c, i, k), B.If(B.eq(k, c), lambda: B.at(model, i, k), 0.0))))))
    B.ensure('sensitivity of a BPM', B.forall(m, lambda b: B.forall(m, lambda i: B.forall(n, lambda k: B.eq(
        B.at(J, 1 + n + b, i, k), B.If(B.eq(i, b), lambda: B.at(model, i, k), 0.0))))))


# ---------------------------------------------------------------- corrections
@contract('set_correction', 'SimulatedCommissioning.set_magnet_setpoints', 'SimulatedCommissioning._dipole_compensation',
          params=dict(families=(0, 1, 2), skewness=(False, True), order=(1, 2), compensation=(False, True)),
          only=lambda families, skewness, order, compensation: compensation == (order == 1))
def correction(B, families, skewness, order, compensation):
    """the listed quadrupoles change by minus the fitted value of themselves or of their family"""
    letter = 'A' if skewness else 'B'
    ring, first = c13.magnets(B, 'quads', order, letter, False)
    groups = [first]
    if families == 2:
        groups.append(c13.magnets(B, 'more', order, letter, False, ring, without=first)[1])
    SC = B.machine(ring)
    r = B.vec('fitted', families or B.len(first))
    old, ideal, r0, g0 = B.snapshot(SC.RING), B.snapshot(SC.IDEALRING), B.copy(r), [B.copy(g) for g in groups]
    out = B.call(B.mod(LOCO).set_correction, SC, r, groups if families else first, individuals=not families, skewness=skewness, order=order,
                 dipole_compensation=compensation)
    B.ensure('accepted', out.ok and (out.value is SC), repr(out.exc))
    if not out.ok:
        return
    sel = lambda x: B.Or(*[(lambda g=g: B.member(g, x)) for g in groups])
    for k, g in enumerate(groups):
        def want(x, k=k, g=g):
            v = B.at(B.get(old, f'SetPoint{letter}', x), order) - (B.at(r0, k) if families else B.at(r0, B.index_of(g, x)))
            if skewness and order == 1:
                return B.If(B.has(old, 'SkewQuadLimit', x), lambda: c04.c03.clip(B, v, B.get(old, 'SkewQuadLimit', x)), v)
            return v
        B.rows(f'setpoints of group {k}', SC.RING, lambda x, g=g, want=want: B.Implies(B.member(g, x), lambda: c04.stored(
            B, SC.RING, old, letter, x, [order], want(x))))
    thin = lambda x: B.And(sel(x), lambda: B.eq(B.get(old, 'PassMethod', x), 'CorrectorPass'))
    B.frame('nothing else', SC.RING, old, {f'SetPoint{letter}': sel, 'PolynomA': sel, 'PolynomB': sel, 'MaxOrder': sel, 'KickAngle': thin})
    B.isolated(SC, ideal)
    B.unchanged('fitted values unchanged', r, r0)
    for g, x in zip(groups, g0):
        B.unchanged('lists unchanged', g, x)


@contract('set_correction', params=dict(single=(True, False), compensation=(False, True)))
def compensated(B, single, compensation):
    """dipole compensation as asked for (set_magnet_setpoints by contract, C04)"""
    ring, quads = c13.magnets(B, 'quads', 1, 'B', False)
    SC = B.machine(ring)
    seen = []

    def setter(S, ords, setpoints, skewness, order, method='abs', dipole_compensation=False):
        seen.append(dipole_compensation)
    for core in ('pySC.core.simulated_commissioning',):
        B.stub(core, 'SimulatedCommissioning.set_magnet_setpoints', sym=setter, conc=setter)
    r = B.vec('fitted', B.len(quads) if single else 1)
    out = B.call(B.mod(LOCO).set_correction, SC, r, quads if single else [quads], individuals=single, dipole_compensation=compensation)
    B.ensure('accepted', out.ok, repr(out.exc))
    B.ensure('dipole compensation as asked for', all(x == compensation for x in seen))


borrow(__name__, c04, lambda name: True, dict(set_magnet_setpoints=dict(method='add', order=1, single=False)))
