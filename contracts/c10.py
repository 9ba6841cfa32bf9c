"""C10: misalignments become the correct entrance and exit transformations."""
import numpy as np
from pydv.contract import contract
from pydv.heap import REAL_K, vec

MAG = dict(MagnetOffset=vec(3), SupportOffset=vec(3), MagnetRoll=vec(3), SupportRoll=vec(3))
OUT = ('T1', 'T2', 'R1', 'R2')
TRUSTED = []
I3 = range(3)


def magnet(B, bend=True):
    attrs = dict(MAG, Length=REAL_K, BendingAngle=REAL_K)
    ring = B.ring(kinds=attrs, absent=() if bend else ('BendingAngle',))
    o = B.ords('magnet', ring, must={a: k for a, k in attrs.items() if bend or a != 'BendingAngle'}, n=1)
    r = B.at(o, 0)
    if not B.symbolic:
        e = ring[int(r)]
        if not bend and hasattr(e, 'BendingAngle'):
            del e.BendingAngle
        k = B.rng.random()
        if bend and k < 0.2:
            e.BendingAngle = 0.0
        elif bend:
            e.BendingAngle = B.rng.uniform(-1, 1)
        for a in ('MagnetRoll', 'SupportRoll'):
            setattr(e, a, B.nprng.uniform(-0.5, 0.5, 3))
    return ring, r


def mul(P, Q):
    return [[sum(P[i][k] * Q[k][j] for k in I3) for j in I3] for i in I3]


def tr(P):
    return [[P[j][i] for j in I3] for i in I3]


def app(P, v):
    return [sum(P[i][k] * v[k] for k in I3) for i in I3]


def turn(B, axis, a):
    """rotation matrix about one axis"""
    c, s = B.cos(a), B.sin(a)
    i, j = (axis + 1) % 3, (axis + 2) % 3
    R = [[1.0 if p == q else 0.0 for q in I3] for p in I3]
    R[i][i] = R[j][j] = c
    R[i][j], R[j][i] = -s, s
    return R


def total(B, R, r):
    """total offset and orientation (pitch about x, then yaw about y, then roll about z) of the magnet"""
    off = [B.at(B.get(R, 'MagnetOffset', r), i) + B.at(B.get(R, 'SupportOffset', r), i) for i in I3]
    roll, pitch, yaw = [B.at(B.get(R, 'MagnetRoll', r), i) + B.at(B.get(R, 'SupportRoll', r), i) for i in I3]
    X = mul(mul(turn(B, 0, pitch), turn(B, 1, yaw)), turn(B, 2, roll))
    return off, X, (roll, pitch, yaw)


def change(X, d):
    """straight line through (x, y, 0) with momentum (px, py, 1 + delta), seen from a frame at d (given in that frame) with axes X:
    coordinates on its own z = 0 plane to first order: shift and linear part"""
    def state(pos, mom):       # value at the expansion point
        return pos[0] - pos[2] * mom[0] / mom[2], mom[0], pos[1] - pos[2] * mom[1] / mom[2], mom[1], 0.0, -pos[2] / mom[2]
    p0, m0 = [-x for x in d], [X[2][j] for j in I3]
    T = state(p0, m0)
    M = [[0.0] * 6 for _ in range(6)]
    for col, axis in ((0, 0), (2, 1)):      # derivative with respect to a position
        dp = [X[axis][j] for j in I3]
        for row, k in ((0, 0), (2, 1)):
            M[row][col] = dp[k] - dp[2] * m0[k] / m0[2]
        M[5][col] = -dp[2] / m0[2]
    for col, axis in ((1, 0), (3, 1)):      # with respect to a slope
        dm = [X[axis][j] for j in I3]
        for row, k in ((0, 0), (2, 1)):
            M[row][col] = -p0[2] * (dm[k] * m0[2] - m0[k] * dm[2]) / (m0[2] * m0[2])
            M[row + 1][col] = dm[k]
        M[5][col] = p0[2] * dm[2] / (m0[2] * m0[2])
    M[1][4], M[3][4] = m0[0], m0[1]         # with respect to the momentum deviation
    M[4][4] = M[5][5] = 1.0
    return T, M


def entrance(B, R, r):
    off, X, _ = total(B, R, r)
    return change(X, app(tr(X), off))


def exit_(B, R, r, bend):
    off, X, _ = total(B, R, r)
    L = B.get(R, 'Length', r)
    if bend:
        a = B.get(R, 'BendingAngle', r)
        RB = turn(B, 1, -a)
        O = [B.If(B.eq(a, 0.0), 0.0, lambda: L * (B.cos(a) - 1) / a), 0.0, B.If(B.eq(a, 0.0), L, lambda: L * B.sin(a) / a)]
    else:
        RB, O = turn(B, 1, 0.0), [0.0, 0.0, L]
    M = mul(X, RB)                               # axes of the magnet's exit face
    D = [o - x - q for o, x, q in zip(O, off, app(X, O))]
    return change(mul(tr(M), RB), app(tr(RB), D))


def size3(B, R, r):
    return B.And(*[B.And(len(B.shape(B.get(R, a, r))) == n, lambda: True, *[lambda k=k, a=a: B.eq(B.shape(B.get(R, a, r))[k], 6) for k in range(n)])
                   for a, n in (('T1', 1), ('T2', 1), ('R1', 2), ('R2', 2))])


@contract('update_transformation', 'rotation', '_translation_vector', '_r_matrix', params=dict(bend=(True, False)))
def general(B, bend):
    """linearised rigid-body change of coordinates at both ends, for tilts below 90 degrees"""
    ring, r = magnet(B, bend)
    old = B.snapshot(ring)
    off, X, (roll, pitch, yaw) = total(B, old, r)
    B.assume(B.cos(pitch) > 0.1)
    B.assume(B.cos(yaw) > 0.1)
    B.assume(X[2][2] > 0.01)
    T2, M2 = exit_(B, old, r, bend)
    if bend:
        RB = turn(B, 1, -B.get(old, 'BendingAngle', r))
        B.assume(mul(tr(mul(X, RB)), RB)[2][2] > 0.01)
    out = B.call(B.mod('pySC.utils.sc_tools').update_transformation, ring[r])
    B.ensure('accepted', out.ok)
    if not out.ok:
        return
    B.ensure('six coordinates', size3(B, ring, r))
    T, M = entrance(B, old, r)
    R1, T1 = B.get(ring, 'R1', r), B.get(ring, 'T1', r)
    R2, T2c = B.get(ring, 'R2', r), B.get(ring, 'T2', r)
    for i in range(6):
        for j in range(6):
            B.ensure(f'entrance matrix {i}{j}', B.eq(B.at(R1, i, j), M[i][j]))
            B.ensure(f'exit matrix {i}{j}', B.eq(B.at(R2, i, j), M2[i][j]))
        B.ensure(f'entrance shift {i}', B.eq(sum(M[i][j] * B.at(T1, j) for j in range(6)), T[i]))
        B.ensure(f'exit shift {i}', B.eq(B.at(T2c, i), T2[i]))
    B.frame('frame', ring, old, {a: lambda x: B.eq(x, r) for a in OUT})


def plus(B, x, y):
    return B.build((3,), lambda i: B.at(x, i) + B.at(y, i))


@contract('update_transformation', 'rotation', '_translation_vector', '_r_matrix', params=dict(
    case=('zero', 'transverse', 'roll', 'free'), bend=(False, True)), only=lambda case, bend: case == 'zero' or not bend)
def special(B, case, bend):
    """magnets whose total misalignment is zero, transverse, a pure roll, or a field-free straight element with offset and roll"""
    ring, r = magnet(B, bend)
    e = ring[r]
    x, y = B.arr('own', (3,)), B.arr('support', (3,))
    a, b = B.real('roll', sample=(-0.5, 0.5)), B.real('support roll', sample=(-0.5, 0.5))
    three = lambda f: B.build((3,), f)
    zero = three(lambda i: 0.0)
    first = lambda v: three(lambda i: B.If(B.eq(i, 0), v, 0.0))
    if case == 'zero':
        rx = B.arr('tilt', (3,), lo=-1, hi=1)
        e.MagnetOffset, e.SupportOffset = x, three(lambda i: -B.at(x, i))
        e.MagnetRoll, e.SupportRoll = rx, three(lambda i: -B.at(rx, i))
    else:
        flat = case == 'transverse'
        e.MagnetOffset = zero if case == 'roll' else three(lambda i: B.If(B.eq(i, 2), 0.0, B.at(x, i))) if flat else x
        e.SupportOffset = zero if case == 'roll' else three(lambda i: B.If(B.eq(i, 2), 0.0, B.at(y, i))) if flat else y
        e.MagnetRoll = zero if flat else first(a)
        e.SupportRoll = zero if flat else first(b)
    old = B.snapshot(ring)
    out = B.call(B.mod('pySC.utils.sc_tools').update_transformation, ring[r])
    B.ensure('accepted', out.ok)
    if not out.ok:
        return
    B.ensure('six coordinates', size3(B, ring, r))
    R1, T1, R2, T2 = [B.get(ring, q, r) for q in ('R1', 'T1', 'R2', 'T2')]
    one = lambda i, j: 1.0 if i == j else 0.0
    s6 = range(6)
    if case in ('zero', 'transverse'):
        for i in s6:
            B.ensure(f'identity matrices, row {i}', B.And(*[B.And(B.eq(B.at(m, i, j), one(i, j))) for m in (R1, R2) for j in s6]))
            d = {0: B.at(x, 0) + B.at(y, 0), 2: B.at(x, 1) + B.at(y, 1)}.get(i, 0.0) if case == 'transverse' else 0.0
            B.ensure(f'opposite shifts, coordinate {i}', B.And(B.eq(B.at(T1, i), -d), B.eq(B.at(T2, i), d)))
    if case == 'roll':
        for i in s6:
            B.ensure(f'inverse rotations, row {i}', B.And(*[B.eq(sum(B.at(R1, i, k) * B.at(R2, k, j) for k in s6), one(i, j)) for j in s6]))
            B.ensure(f'no shift, coordinate {i}', B.And(B.eq(B.at(T1, i), 0.0), B.eq(B.at(T2, i), 0.0)))
    if case == 'free':
        L = B.get(old, 'Length', r)
        D = [[one(i, j) + (L if (i, j) in ((0, 1), (2, 3)) else 0.0) for j in s6] for i in s6]
        RD = [[sum(B.at(R2, i, k) * D[k][j] for k in s6) for j in s6] for i in s6]
        S = [sum(B.at(R1, i, k) * B.at(T1, k) for k in s6) for i in s6]
        for i in s6:
            B.ensure(f'trajectories unchanged, row {i}', B.And(*[B.eq(sum(RD[i][k] * B.at(R1, k, j) for k in s6), D[i][j]) for j in s6]))
            if i < 4:       # the sixth coordinate counts the path from the nominal face
                B.ensure(f'trajectories not shifted, coordinate {i}', B.eq(sum(RD[i][k] * S[k] for k in s6) + B.at(T2, i), 0.0))
    B.frame('frame', ring, old, {a: lambda x: B.eq(x, r) for a in OUT})


@contract('update_transformation', bounded=True, runs=200)
def tilted_drift(B):
    """field-free straight element with small tilts and offsets: unchanged to first order in the misalignment"""
    from at import elements
    e = elements.Drift('d', B.rng.uniform(0, 3))
    eps = 10.0 ** B.rng.uniform(-6, -3)
    for a in MAG:
        setattr(e, a, eps * B.nprng.uniform(-1, 1, 3))
    B.mod('pySC.utils.sc_tools').update_transformation(e)
    D = np.eye(6)
    D[0, 1] = D[2, 3] = e.Length
    B.ensure('trajectories unchanged', bool(np.allclose(e.R2 @ D @ e.R1, D, rtol=0, atol=100 * eps ** 2 + 1e-12)) or
             bool(np.allclose((e.R2 @ D @ e.R1)[:4, :4], D[:4, :4], rtol=0, atol=100 * eps ** 2 + 1e-12)))
    B.ensure('trajectories not shifted', bool(np.all(abs((e.R2 @ D @ e.R1 @ e.T1 + e.T2)[:4]) < 100 * eps ** 2 + 1e-12)))
