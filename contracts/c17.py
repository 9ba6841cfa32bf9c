"""C17: beam-based alignment only applies trustworthy offsets, in the right place."""
import numpy as np
from pydv.contract import contract
from pydv.heap import REAL_K, vec

BPM = dict(Offset=vec(2), SupportOffset=vec(2))
MAG = dict(MagnetOffset=vec(3), SupportOffset=vec(3))
TRUSTED = []
LIMIT, SIGMAS = 1.5e-3, 2.5


def good(B, off, err, p, j):
    """a number, not beyond the outlier limit and significant"""
    return B.And(B.eq(B.isnan(B.at(off, p, j)), False), lambda: B.abs(B.at(off, p, j)) <= LIMIT,
                 lambda: B.abs(B.at(off, p, j)) >= SIGMAS * B.at(err, p, j))


def measured(B, P, n):
    off = B.arr('offsets', (P, n), nan=True)
    err = B.arr('errors', (P, n), lo=0)
    if not B.symbolic:
        off *= 1e-3
        err *= B.rng.choice([0.0, 1e-4, 5e-4])
        for j in range(n):        # limits themselves
            if B.rng.random() < 0.2:
                off[B.rng.randrange(P), j] = B.rng.choice([-1, 1]) * LIMIT
            if B.rng.random() < 0.2:
                p = B.rng.randrange(P)
                err[p, j] = abs(off[p, j]) / SIGMAS if off[p, j] == off[p, j] else 0.0
    return off, err


@contract('apply_bpm_offsets', 'is_bba_errored', params=dict(planes=(1, 2)))
def apply(B, planes):
    ring = B.ring(kinds=BPM)
    bpms, rows = B.grid('bpms', ring, planes, must=BPM)
    n = B.len(rows[0])
    SC = B.machine(ring)
    off, err = measured(B, planes, n)
    old, ideal = B.snapshot(SC.RING), B.snapshot(SC.IDEALRING)
    b0, o0, e0 = B.copy(bpms), B.copy(off), B.copy(err)
    out = B.call(B.mod('pySC.correction.bba').apply_bpm_offsets, SC, bpms, off, err)
    B.ensure('accepted', out.ok)
    if not out.ok:
        return
    B.ensure('returns the machine', out.value is SC)
    R = SC.RING
    for p in range(2):
        def after(r, p=p):
            if p >= planes:
                return False, 0.0
            j = B.index_of(rows[p], r)
            return B.And(B.member(rows[p], r), lambda: good(B, o0, e0, p, j)), lambda: B.at(o0, p, j)
        for what, cond in (('added exactly when trustworthy', True), ('kept otherwise', False)):
            def f(r, p=p, cond=cond):
                B_member = B.member(rows[p], r) if p < planes else False
                had = lambda: B.at(B.get(old, 'Offset', r), p)
                now = lambda: B.at(B.get(R, 'Offset', r), p)
                if cond:
                    return B.Implies(B_member, lambda: B.Implies(after(r)[0], lambda: B.eq(now(), had() + after(r)[1]())))
                any_row = B.Or(*[B.member(x, r) for x in rows])
                return B.Implies(any_row, lambda: B.Implies(B.Not(after(r)[0]) if p < planes else True, lambda: B.eq(now(), had())))
            B.rows(f'{"xy"[p]}: {what}', R, f)
    B.rows('two components', R, lambda r: B.Implies(B.Or(*[B.member(x, r) for x in rows]), lambda: B.And(
        len(B.shape(B.get(R, 'Offset', r))) == 1, lambda: B.eq(B.len(B.get(R, 'Offset', r)), 2))))
    B.frame('frame', R, old, dict(Offset=lambda r: B.Or(*[B.member(x, r) for x in rows])))
    B.isolated(SC, ideal)
    B.unchanged('BPM ordinates unchanged', bpms, b0)
    B.unchanged('offsets unchanged', off, o0)
    B.unchanged('errors unchanged', err, e0)


@contract('is_bba_errored', params=dict(planes=(1, 2)))
def errored(B, planes):
    n = B.size('n', 0, 5)
    off, err = measured(B, planes, n)
    out = B.call(B.mod('pySC.correction.bba').is_bba_errored, off, err)
    B.ensure('accepted', out.ok)
    if out.ok:
        sh = B.shape(out.value)
        B.ensure('one flag each', B.And(len(sh) == 2, lambda: B.eq(sh[0], planes), lambda: B.eq(sh[1], n)))
        B.ensure('flagged exactly when not trustworthy', B.forall(n, lambda j: B.And(*[
            B.eq(B.at(out.value, p, j), B.Not(good(B, off, err, p, j))) for p in range(planes)])))


@contract('fake_bba', '_get_bpm_offset_from_mag', params=dict(flags=(False, True), given=(False, True)))
def idealised(B, flags, given):
    """flagged BPMs are set to the magnet centre within twice the rms error; both planes"""
    ring = B.ring(kinds=dict(BPM, MagnetOffset=vec(3), SupportOffset=vec(3)))
    bpms, rows = B.grid('bpms', ring, 2, must=dict(Offset=vec(2), SupportOffset=vec(3)), lo=1)
    mags, mrows = B.grid('magnets', ring, 2, must=MAG, lo=1)
    n = B.len(rows[0])
    if B.symbolic:
        B.assume(B.eq(n, B.len(mrows[0])))
    else:
        k = min(n, len(mrows[0]))
        bpms, mags = bpms[:, :k].copy(), mags[:, :k].copy()
        rows, mrows, n = list(bpms), list(mags), k
    SC = B.machine(ring)
    B.draws()
    errs = B.arr('flag', (2, n), kind='b')
    fake = B.arr('rms', (2,), lo=0)
    kw = {}
    if flags:
        kw['errors'] = errs
    if given:
        kw['fake_offset'] = fake
    old, ideal = B.snapshot(SC.RING), B.snapshot(SC.IDEALRING)
    e0, f0, b0, m0 = B.copy(errs), B.copy(fake), B.copy(bpms), B.copy(mags)
    out = B.call(B.mod('pySC.correction.bba').fake_bba, SC, bpms, mags, **kw)
    if not flags and not given:
        B.ensure('rejected', out.raised(ValueError))
        B.frame('nothing changed', SC.RING, old)
        return
    B.ensure('accepted', out.ok)
    if not out.ok:
        return
    B.ensure('returns the machine', out.value is SC)
    R = SC.RING
    flag = lambda p, j: B.at(e0, p, j) if flags else True
    offset = lambda r, a, p: B.at(B.get(old, a, r), p)
    for p in range(2):
        resid = lambda j, p=p: (offset(B.at(b0, p, j), 'Offset', p) + offset(B.at(b0, p, j), 'SupportOffset', p)
                                - offset(B.at(m0, p, j), 'MagnetOffset', p) - offset(B.at(m0, p, j), 'SupportOffset', p))
        if given:
            sigma, any_ = B.at(f0, p), True
        else:
            num = B.sum(n, lambda j: B.If(flag(p, j), 0.0, lambda: resid(j) * resid(j)))
            cnt = B.sum(n, lambda j: B.If(flag(p, j), 0.0, 1.0))
            any_ = B.Not(B.eq(cnt, 0.0))
            sigma = None

        def row(r, kept, p=p):
            j = B.index_of(rows[p], r)
            m = B.at(m0, p, j)
            now = B.at(B.get(R, 'Offset', r), p)
            centre = lambda: offset(m, 'MagnetOffset', p) + offset(m, 'SupportOffset', p) - offset(r, 'SupportOffset', p)
            hit = B.And(flag(p, j), lambda: any_)
            if kept:
                return B.Implies(B.Not(hit), lambda: B.eq(now, offset(r, 'Offset', p)))
            return B.Implies(hit, lambda: B.le(B.abs(now - centre()), 2 * (sigma if given else B.sqrt(num / cnt))))
        for kept, what in ((False, 'flagged replaced by the magnet centre'), (True, 'unflagged kept')):
            B.rows(f'{"xy"[p]}: {what}', R, lambda r, p=p, kept=kept: B.Implies(B.member(rows[p], r), lambda: row(r, kept)))
        B.rows(f'{"xy"[p]}: others unchanged', R, lambda r, p=p: B.Implies(B.And(B.member(rows[1 - p], r), lambda: B.Not(B.member(rows[p], r))),
               lambda: B.eq(B.at(B.get(R, 'Offset', r), p), offset(r, 'Offset', p))))
    B.frame('frame', R, old, dict(Offset=lambda r: B.Or(*[B.member(x, r) for x in rows])))
    B.isolated(SC, ideal)
    for what, x, y in (('flags', errs, e0), ('rms errors', fake, f0), ('BPM ordinates', bpms, b0), ('magnet ordinates', mags, m0)):
        B.unchanged(f'{what} unchanged', x, y)
