"""C16: cavity and radiation switching touches exactly the right elements."""
import itertools
from pydv.contract import contract
from pydv.heap import PASS, REAL_K, string

BASE = ('BndMPoleSymplectic4', 'BndMPoleSymplectic4E2', 'StrMPoleSymplectic4')
DOM = PASS + ('BndStrMPoleSymplectic4Pass', 'BndStrMPoleSymplectic4RadPass', 'CorrectorRadPass', 'RadPass', 'QuadLinearPass')
ARGS = ('radiationoff', 'radiationon', 'cavityoff', 'cavityon')
COMBOS = tuple(c for n in range(5) for c in itertools.combinations(ARGS, n)) + (
    ('radiationon', 'radiationoff'), ('cavityon', 'cavityoff'), ('cavityon', 'radiationon', 'cavityoff'))


def rad(p, on):
    """method p with radiation switched"""
    for b in BASE:
        if p in (b + 'Pass', b + 'RadPass'):
            return b + ('RadPass' if on else 'Pass')
    return p


def expected(B, old, r, args):
    """[(method before, has frequency, method after)]"""
    out = []
    for p in DOM:
        q = p
        if 'radiationoff' in args:
            q = rad(p, False)
        elif 'radiationon' in args:
            q = rad(p, True)
        for cav in (True, False):
            w = q
            if cav and 'cavityoff' in args:
                w = 'IdentityPass'
            elif cav and 'cavityon' in args:
                w = 'RFCavityPass'
            out.append((p, cav, w))
    return out


def method_is(B, R, old, r, args, addressed=True):
    fs = []
    for p, cav, w in expected(B, old, r, args):
        fs.append(B.Implies(B.And(B.eq(B.get(old, 'PassMethod', r), p), B.eq(B.has(old, 'Frequency', r), cav)),
                            lambda w=w: B.eq(B.get(R, 'PassMethod', r), w)))
    return B.And(*fs)


def lattice(B, name='RING'):
    ring = B.ring(name, kinds={'PassMethod': string(*DOM)})
    B.maybe(ring, {'PassMethod': string(*DOM)})
    B.maybe(ring, {'Frequency': REAL_K})
    return ring


@contract('switch_cavity_and_radiation', 'switch_rf', params=dict(args=COMBOS))
def switch(B, args):
    ring = lattice(B)
    f = B.mod('pySC.core.lattice_setting').switch_cavity_and_radiation
    old = B.snapshot(ring)
    out = B.call(f, ring, *args)
    B.ensure('accepted', out.ok)
    if not out.ok:
        return
    R = out.value
    B.ensure('returns the lattice it was given', R is ring)
    B.rows('tracking methods', R, lambda r: method_is(B, R, old, r, args))
    B.frame('frame', R, old, dict(PassMethod=True))
    mid = B.snapshot(R)
    again = B.call(f, R, *args)
    B.ensure('repeating is accepted', again.ok)
    B.frame('repeating a request changes nothing', R, mid)


@contract('switch_cavity_and_radiation', 'switch_rf')
def off_then_on(B):
    ring = lattice(B)
    f = B.mod('pySC.core.lattice_setting').switch_cavity_and_radiation
    old = B.snapshot(ring)
    B.call(f, ring, 'radiationoff', 'cavityoff')
    out = B.call(f, ring, 'radiationon', 'cavityon')
    B.ensure('accepted', out.ok)
    B.rows('fully on', ring, lambda r: method_is(B, ring, old, r, ('radiationon', 'cavityon')))
    B.frame('frame', ring, old, dict(PassMethod=True))


@contract('switch_cavity_and_radiation', 'switch_rf')
def independent_of_order(B):
    """switching cavities and radiation separately equals switching both at once"""
    ring = lattice(B)
    f = B.mod('pySC.core.lattice_setting').switch_cavity_and_radiation
    old = B.snapshot(ring)
    B.call(f, ring, 'cavityoff')
    B.call(f, ring, 'radiationon')
    B.rows('both effects', ring, lambda r: method_is(B, ring, old, r, ('radiationon', 'cavityoff')))
    B.frame('frame', ring, old, dict(PassMethod=True))


@contract('switch_rf', params=dict(state=(True, False)))
def switch_addressed_cavities(B, state):
    ring = lattice(B)
    ords = B.ords('ords', ring)
    f = B.mod('pySC.core.lattice_setting').switch_rf
    old, o0 = B.snapshot(ring), B.copy(ords)
    out = B.call(f, ring, B.as_input(ords), state)
    B.ensure('accepted', out.ok)
    if not out.ok:
        return
    hit = lambda r: B.And(B.member(ords, r), lambda: B.has(old, 'Frequency', r))
    B.rows('addressed cavities', ring, lambda r: B.Implies(hit(r), lambda: B.eq(
        B.get(ring, 'PassMethod', r), 'RFCavityPass' if state else 'IdentityPass')))
    B.frame('frame', ring, old, dict(PassMethod=hit))
    B.unchanged('caller\'s ordinates unchanged', ords, o0)


@contract('switch_cavity_and_radiation', params=dict(args=(('radiation',), ('cavityoff', 'on'), ('cavityon', 'radiationoff', 'cavity'), ('',))))
def rejected(B, args):
    ring = lattice(B)
    old = B.snapshot(ring)
    out = B.call(B.mod('pySC.core.lattice_setting').switch_cavity_and_radiation, ring, *args)
    B.ensure('rejected with ValueError', out.raised(ValueError))
    B.frame('nothing changed', ring, old)
