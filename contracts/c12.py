"""C12: the pseudo-inverse keeps, drops, regularises and damps singular values as asked."""
import numpy as np
from pydv.contract import contract

TRUSTED = ['numpy.linalg.svd: thin factors with non-negative descending singular values (its own accuracy is not verified)']


def option(B, name, used, default):
    return B.real(name, nz=True, sample=(-3, 3)) if used else default


@contract('pinv', params=dict(removed=(False, True), alpha=(False, True), damping=(False, True), extra=(False, True)),
          only=lambda removed, alpha, damping, extra: removed or not extra)
def inverse(B, removed, alpha, damping, extra):
    """V D U^T over the kept singular values"""
    n, m = B.size('rows', 1, 4), B.size('columns', 1, 4)
    M = B.arr('matrix', (n, m))
    if not B.symbolic and B.rng.random() < 0.4:      # rank-deficient
        M[...] = np.diag(np.arange(5.0) * (B.rng.random() < 0.7))[:n, :m]
    K = B.min(n, m)
    kw = {}
    cut = 0
    if removed:
        cut = B.size('removed', 1, 6)
        B.assume((cut > K) if extra else (cut <= K))
        kw['num_removed'] = cut
    a = option(B, 'alpha', alpha, 0)
    d = option(B, 'damping', damping, 1)
    if alpha:
        kw['alpha'] = a
    if damping:
        kw['damping'] = d
    M0 = B.copy(M)
    out = B.call(B.mod('pySC.utils.sc_tools').pinv, M, **kw)
    B.ensure('accepted', out.ok)
    B.unchanged('matrix unchanged', M, M0)
    if not out.ok:
        return
    P = out.value
    U, s, Vt = B.svd(M0)
    sh = B.shape(P)
    B.ensure('transposed shape', B.And(len(sh) == 2, lambda: B.eq(sh[0], m), lambda: B.eq(sh[1], n)))
    if len(sh) != 2:
        return
    positive = B.count(K, lambda k: B.at(s, k) > 0)
    kept = B.min(B.max(K - cut, 0), positive)
    D = lambda k: d * B.at(s, k) / (B.at(s, k) * B.at(s, k) + a * a) if alpha else d / B.at(s, k)
    B.ensure('V D U^T over the kept singular values', B.forall(m, lambda i: B.forall(n, lambda j: B.eq(
        B.at(P, i, j), B.sum(kept, lambda k: B.at(Vt, k, i) * D(k) * B.at(U, j, k))))))


@contract('pinv', params=dict(shape=('square', 'tall', 'wide')), bounded=True, runs=60)
def moore_penrose(B, shape):
    """defining equations on random full-rank matrices of up to 12 rows and columns"""
    p, q = sorted((B.rng.randint(1, 12), B.rng.randint(1, 12)))
    n, m = dict(square=(q, q), tall=(q, p), wide=(p, q))[shape]
    M = B.nprng.randn(n, m)
    if np.linalg.cond(M) > 1e4:
        return
    P = B.mod('pySC.utils.sc_tools').pinv(M)
    ok = lambda a, b: bool(np.allclose(a, b, rtol=1e-6, atol=1e-8))
    B.ensure('M P M = M', ok(M @ P @ M, M))
    B.ensure('P M P = P', ok(P @ M @ P, P))
    B.ensure('M P symmetric', ok(M @ P, (M @ P).T))
    B.ensure('P M symmetric', ok(P @ M, (P @ M).T))
