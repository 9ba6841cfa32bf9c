"""C08: random errors respect their cut-off and go to exactly the configured fields."""
import numpy as np
from pydv.contract import contract
from pydv.heap import REAL_K, vec

SHAPES = {'number': (), 'one': (1,), 'vector': 'n', 'matrix': 'nm', 'fixed': (6,)}


@contract('randnc', params=dict(shape=tuple(SHAPES), default=(False, True), sign=(False, True)),
          only=lambda shape, default, sign: shape == 'vector' or not default and not sign)
def truncated(B, shape, default, sign):
    n, m = B.size('n', 1, 5), B.size('m', 1, 4)
    sh = SHAPES[shape]
    sh = {'n': (n,), 'nm': (n, m)}.get(sh, sh)
    cut = 2 if default else B.real('cut', sample=(-3, -0.3) if sign else (0.3, 3))
    mod = B.mod('pySC.utils.sc_tools')
    out = B.call(mod.randnc, shape=sh) if default else B.call(mod.randnc, cut, sh)
    B.ensure('accepted', out.ok)
    if not out.ok:
        return
    v = out.value
    got = B.shape(v)
    B.ensure('requested shape', B.And(len(got) == len(sh), *[lambda k=k: B.eq(got[k], sh[k]) for k in range(len(sh))]))
    if len(got) != len(sh):
        return
    ok = lambda x: B.le(abs(x), abs(cut))
    if not sh:
        B.ensure('never beyond the cut-off', ok(B.scalar(v)))
    elif len(sh) == 1:
        B.ensure('never beyond the cut-off', B.forall(sh[0], lambda i: ok(B.at(v, i))))
    else:
        B.ensure('never beyond the cut-off', B.forall(sh[0], lambda i: B.forall(sh[1], lambda j: ok(B.at(v, i, j)))))


@contract('randnc', params=dict(shape=((-1,), (2, -3))))
def negative_shape(B, shape):
    out = B.call(B.mod('pySC.utils.sc_tools').randnc, 2, shape)
    B.ensure('rejected', out.raised(ValueError))


@contract('randn_cutoff', params=dict(value=('number', 'vector'), own=(False, True)))
def cutoffs(B, value, own):
    n = B.size('n', 1, 4)
    sig = B.real('sigma') if value == 'number' else B.arr('sigma', (n,))
    default, mine = B.real('default', lo=0, sample=(0.5, 3)), B.real('own', lo=0, sample=(0.5, 3))
    B.draws()
    s0 = B.copy(sig)
    out = B.call(B.mod('pySC.utils.classdef_tools').randn_cutoff, [sig, mine] if own else sig, default)
    B.ensure('accepted', out.ok)
    if not out.ok:
        return
    cut = mine if own else default
    v = out.value
    if value == 'number':
        B.ensure('a number', len(B.shape(v)) == 0)
        B.ensure('draw times the uncertainty', B.drawn_from(B.scalar(v), cut * abs(sig)))
    else:
        B.ensure('same shape', B.And(len(B.shape(v)) == 1, lambda: B.eq(B.len(v), n)))
        B.ensure('draw times the uncertainty', B.forall(n, lambda i: B.drawn_from(B.at(v, i), cut * abs(B.at(sig, i)))))
        B.unchanged('uncertainty unchanged', sig, s0)


SIGS = dict(BPM=dict(Noise=vec(2), NoiseCO=vec(2), Offset=vec(2), Roll=REAL_K, CalError=('cut', vec(2)), SumError=('cut', REAL_K)),
            RF=dict(VoltageOffset=REAL_K, FrequencyCalError=('cut', REAL_K), TimeLagOffset=REAL_K, VoltageCalError=REAL_K),
            Magnet=dict(MagnetOffset=vec(3), MagnetRoll=('cut', vec(3)), CalErrorA=vec(lo=1), CalErrorB=('cut', vec(lo=1)), BendingAngle=REAL_K))
UPDATES = ('_apply_support_alignment_error', 'update_supports', 'update_magnets', 'update_cavities')


def drawn_value(B, new, kind, sigma, nsig):
    """new is the uncertainty times a truncated draw"""
    if kind[0] == 'cut':
        kind, (sigma, nsig) = kind[1], sigma
    if kind == REAL_K:
        return B.drawn_from(new, nsig * abs(sigma))
    return B.And(len(B.shape(new)) == 1, lambda: B.eq(B.len(new), B.len(sigma)), lambda: B.forall(
        B.len(sigma), lambda i: B.drawn_from(B.at(new, i), nsig * abs(B.at(sigma, i)))))


@contract('SimulatedCommissioning.apply_errors', 'intersect', params=dict(tabs=('BPM', 'RF', 'Magnet', 'injection')), cost=5)
def apply_errors(B, tabs):
    """every uncertainty of a registered element becomes a drawn error; supports and updates under their own contracts (C01, C02, C09)"""
    ring = B.ring()
    ords = {t: B.ords('ord' + t, ring, sort=True) for t in ('BPM', 'RF', 'Magnet')}
    SC = B.machine(ring, sig={t: SIGS[t] if t == tabs else {} for t in SIGS}, **ords)
    SC.SIG.staticInjectionZ, SC.SIG.randomInjectionZ = B.arr('static', (6,), lo=0), B.arr('jitter', (6,), lo=0)
    SC.INJ.Z0ideal = B.arr('Z0ideal', (6,))
    SC.SIG.Circumference = B.real('circ', lo=0, sample=(0, 1e-3))
    nsig = B.real('nsigmas', lo=0, sample=(0.5, 3))
    B.draws()
    calls, circ = [], []

    def record(name):
        def f(self, *a, **kw):
            calls.append((name, a, kw, B.snapshot(self.RING)))
        return f
    for u in UPDATES:
        B.stub('pySC.core.simulated_commissioning', f'SimulatedCommissioning.{u}', sym=record(u), conc=record(u))

    def scale(RING, c, mode='abs'):
        circ.append((RING, c, mode))
        return RING
    B.stub('pySC.utils.sc_tools', 'scale_circumference', sym=scale, conc=scale)
    old, ideal = B.snapshot(SC.RING), B.snapshot(SC.IDEALRING)
    sigs = {t: B.sigs(SC, t) for t in SIGS if t == tabs}
    static0, jitter0, ideal0 = B.copy(SC.SIG.staticInjectionZ), B.copy(SC.SIG.randomInjectionZ), B.copy(SC.INJ.Z0ideal)
    out = B.call(SC.apply_errors, nsig)
    B.ensure('accepted', out.ok)
    if not out.ok:
        return
    R = SC.RING
    allowed = {}
    for t, sig in sigs.items():
        sel = lambda r, t=t: B.member(ords[t], r)
        for f, kind in SIGS[t].items():
            dest = 'BendingAngleError' if f == 'BendingAngle' else f
            on = lambda r, f=f: B.And(sel(r), lambda: B.has(sig, f, r))
            if f.startswith('Noise'):
                B.rows(f'{dest}: copied', R, lambda r, f=f, on=on: B.Implies(on(r), lambda: B.And(
                    B.has(R, f, r), lambda: B.eq(B.get(R, f, r), B.get(sig, f, r)))))
            else:
                B.rows(f'{dest}: drawn within the cut-off', R, lambda r, f=f, on=on, kind=kind, dest=dest: B.Implies(
                    on(r), lambda: B.And(B.has(R, dest, r), lambda: drawn_value(B, B.get(R, dest, r), kind, B.get(sig, f, r), nsig))))
            allowed[dest] = on
        B.frame(f'SIG.{t}', B.sigs(SC, t), sig)
    B.frame('frame', R, old, allowed)
    B.isolated(SC, ideal)
    z = SC.INJ.Z0
    B.ensure('six coordinates', B.And(len(B.shape(z)) == 1, lambda: B.eq(B.len(z), 6)))
    B.ensure('injected trajectory: ideal one plus static error', B.forall(6, lambda i: B.drawn_from(
        B.at(z, i) - B.at(ideal0, i), nsig * B.at(static0, i))))
    B.unchanged('jitter level copied', SC.INJ.randomInjectionZ, jitter0)
    B.unchanged('static uncertainty unchanged', SC.SIG.staticInjectionZ, static0)
    B.unchanged('jitter uncertainty unchanged', SC.SIG.randomInjectionZ, jitter0)
    B.unchanged('ideal trajectory unchanged', SC.INJ.Z0ideal, ideal0)
    B.ensure('circumference scaled once', len(circ) == 1 and circ[0][0] is SC.RING and circ[0][2] == 'rel')
    if len(circ) == 1:
        B.ensure('circumference error within the cut-off', B.drawn_from(circ[0][1] - 1, nsig * abs(SC.SIG.Circumference)))
    done = [c[0] for c in calls]
    B.ensure('supports misaligned and updated', done.count(UPDATES[0]) == 1 and 'update_supports' in done[done.index(UPDATES[0]):])
    seen = {}
    for name, a, kw, snap in calls:
        seen[name] = (a, kw, snap)
    for name, t in (('update_supports', None), ('update_magnets', 'Magnet'), ('update_cavities', 'RF')):
        if t is None:
            B.ensure(f'{name}: all', name in seen and not any(x is False for x in list(seen[name][0]) + list(seen[name][1].values())))
        else:
            B.ensure(f'{name} unless there are none', name in seen or B.Or(B.eq(B.len(ords[t]), 0), lambda: t == 'RF' and B.eq(B.len(SC.SIG.RF), 0)))
            if name in seen:
                a, kw, _ = seen[name]
                given = list(a) + list(kw.values())
                B.ensure(f'{name}: all', not given or given[0] is None or B.same_members(given[0], lambda x: B.member(ords[t], x)))
        if name in seen:
            B.frame(f'{name} sees the new errors', SC.RING, seen[name][2])
