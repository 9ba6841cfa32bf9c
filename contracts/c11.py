"""C11: circumference scaling reaches the requested length using drifts only."""
from pydv.contract import contract


@contract('scale_circumference', 'findspos', params=dict(mode=('abs', 'rel', None)))
def scale_circumference(B, mode):
    ring = B.ring()
    circ = B.real('circ')
    n = B.len(ring)
    drift = lambda R, r: B.eq(B.get(R, 'PassMethod', r), 'DriftPass')
    L = lambda R: (lambda r: B.get(R, 'Length', r))
    DL = lambda R: (lambda r: B.If(drift(R, r), lambda: B.get(R, 'Length', r), 0.0))
    old = B.snapshot(ring)
    total, drifts = B.sum(n, L(old)), B.sum(n, DL(old))
    B.assume(B.abs(drifts) > 1e-9)
    goal = circ * total if mode == 'rel' else circ
    f = B.mod('pySC.utils.sc_tools').scale_circumference
    out = B.call(f, ring, circ) if mode is None else B.call(f, ring, circ, mode)
    B.ensure('accepted', out.ok)
    if not out.ok:
        return
    B.ensure('returns the lattice it was given', out.value is ring)
    scale = 1 + (goal - total) / drifts
    B.rows('drift lengths change by one common factor', ring, lambda r: B.Implies(
        drift(old, r), lambda: B.eq(B.get(ring, 'Length', r), B.get(old, 'Length', r) * scale)))
    B.frame('frame', ring, old, dict(Length=lambda r: drift(old, r)))
    B.lemma_linear('total length', n, L(ring), [(1.0, L(old)), (scale - 1, DL(old))])
    B.ensure('requested circumference', B.eq(B.sum(n, L(ring)), goal))


@contract('scale_circumference', params=dict(mode=('', 'absolute', 'add', None)))
def rejected(B, mode):
    ring = B.ring()
    old = B.snapshot(ring)
    out = B.call(B.mod('pySC.utils.sc_tools').scale_circumference, ring, B.real('circ'), mode)
    B.ensure('rejected with ValueError', out.raised(ValueError))
    B.frame('nothing changed', ring, old)
