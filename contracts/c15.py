"""C15: weighted and circular statistics equal their textbook definitions."""
import math
import numpy as np
from pydv.contract import contract

TRUSTED = ['numpy.exp, numpy.angle: cos, sin and atan2 as mathematical functions (atan2 of a pair is left uninterpreted: '
           'the same pair has the same angle)']
MOD = 'pySC.utils.stats'
PI2 = 2 * np.pi
AXES = dict(vector=None, flat=None, columns=0, rows=1, last=-1)


def given(B, shape, nan=False, period=None):
    """data of one or two dimensions, with at least one value"""
    n = B.size('n', 1, 6)
    dims = (n,) if shape == 'vector' else (n, B.size('m', 1, 5))
    x = B.arr('data', dims, nan=nan)
    if not B.symbolic:
        if B.rng.random() < 0.5:
            x *= B.rng.choice([0.01, 100.0])
        if nan:
            x[B.nprng.random(dims) < 0.3] = np.nan
    return dims, x


def errors_of(B, kind, dims, x, period=None):
    if kind == 'none':
        return None, False
    e = B.arr('errors', dims, nan=kind == 'any')
    if not B.symbolic:
        e[...] = np.where(np.abs(e) < 0.05, 0.3, e)
        bad = B.rng.choice(['zero', 'nan', 'both', None]) if kind == 'any' else None
        for what, v in (('zero', 0.0), ('nan', np.nan)):
            if bad in (what, 'both'):
                e[tuple(B.rng.randrange(d) for d in dims)] = v
    usable = lambda *i: B.And(B.eq(B.isnan(B.at(e, *i)), False), lambda: B.at(e, *i) != 0)
    ok = every(B, dims, lambda *i: B.Or(B.isnan(B.at(x, *i)), lambda: usable(*i)))
    if kind == 'good':
        B.assume(ok)
        return e, True
    return e, ok


def every(B, dims, f):
    if len(dims) == 1:
        return B.every(dims[0], f)
    return B.every(dims[0], lambda i: B.every(dims[1], lambda j: f(i, j)))


def groups(B, shape, dims):
    """(number of results or None, sum over the data that belong to result k)"""
    if shape == 'vector':
        return None, lambda k, f: B.sum(dims[0], f)
    if shape == 'flat':
        return None, lambda k, f: B.sum(dims[0], lambda i: B.sum(dims[1], lambda j: f(i, j)))
    if shape == 'columns':
        return dims[1], lambda k, f: B.sum(dims[0], lambda i: f(i, k))
    return dims[0], lambda k, f: B.sum(dims[1], lambda j: f(k, j))


def results(B, out, name, count, want):
    B.ensure('accepted', out.ok)
    if not out.ok:
        return
    if count is None:
        B.ensure(name, B.eq(B.scalar(out.value), want(None)))
        return
    B.ensure('one result per line', B.eq(B.len(out.value), count))
    B.ensure(name, B.forall(count, lambda k: B.eq(B.at(out.value, k), want(k))))


def some_valid(B, shape, dims, x):
    """every line holds a number"""
    bad = lambda *i: B.isnan(B.at(x, *i))
    if shape in ('vector', 'flat'):
        B.assume(B.Not(every(B, dims, bad)))
    elif shape == 'columns':
        B.assume(B.every(dims[1], lambda j: B.Not(B.every(dims[0], lambda i: bad(i, j)))))
    else:
        B.assume(B.every(dims[0], lambda i: B.Not(B.every(dims[1], lambda j: bad(i, j)))))


def weigh(B, kind, e, ok, period=None):
    """one over the error squared; equal weights where an error is missing, zero or not a number"""
    if kind == 'none':
        return lambda *i: 1.0
    rel = lambda v: v if period is None else v * PI2 / period
    return lambda *i: B.If(ok, lambda: 1 / (rel(B.at(e, *i)) * rel(B.at(e, *i))), 1.0)


def average(B, total, k, x, w, f):
    keep = lambda g: (lambda *i: B.If(B.isnan(B.at(x, *i)), 0.0, lambda: g(*i)))
    return (total(k, keep(lambda *i: w(*i) * f(B.at(x, *i)))) / total(k, keep(lambda *i: w(*i))))


SHAPES = ('vector', 'flat', 'columns', 'rows')
KINDS = ('none', 'good', 'any')


def call(B, f, x, shape, e, **kw):
    if e is not None:
        kw['errors'] = e
    return B.call(f, x, axis=-1 if shape == 'rows' and kw.pop('last', False) else AXES[shape], **kw)


def nonneg(B, v):
    return B.And(B.eq(B.isnan(v), False), lambda: v >= 0)


@contract('weighted_mean', 'weights_from_errors', params=dict(shape=SHAPES, errors=KINDS),
          quick=lambda shape, errors: errors != 'none' or shape == 'vector', runs=20)
def mean(B, shape, errors):
    dims, x = given(B, shape)
    e, ok = errors_of(B, errors, dims, x)
    count, total = groups(B, shape, dims)
    w = weigh(B, errors, e, ok)
    out = call(B, B.mod(MOD).weighted_mean, x, shape, e)
    results(B, out, 'sum of weight times value over sum of weights', count,
            lambda k: average(B, total, k, x, w, lambda v: v))


@contract('weighted_rms', 'rms', 'weights_from_errors', params=dict(shape=SHAPES, errors=KINDS),
          quick=lambda shape, errors: errors != 'none' or shape == 'vector', runs=20)
def root_mean_square(B, shape, errors):
    dims, x = given(B, shape)
    e, ok = errors_of(B, errors, dims, x)
    count, total = groups(B, shape, dims)
    w = weigh(B, errors, e, ok)
    f = B.mod(MOD).rms if errors == 'none' else B.mod(MOD).weighted_rms
    out = call(B, f, x, shape, e)
    results(B, out, 'square root of the average square', count,
            lambda k: B.sqrt(average(B, total, k, x, w, lambda v: v * v)))


def angle_results(B, out, count, want, period):
    """angles are compared modulo the period in concrete runs (rounding at the branch cut)"""
    B.ensure('accepted', out.ok)
    if not out.ok:
        return
    if B.symbolic:
        same = lambda a, k: B.eq(a, B.atan2(*want(k)) * period / PI2)
    else:
        def same(a, k):
            s, c = want(k)
            if math.hypot(s, c) < 1e-6:
                return True
            return abs(a) <= period / 2 * (1 + 1e-9) and \
                abs(math.remainder(a - math.atan2(s, c) * period / PI2, period)) < 1e-6 * period
    if count is None:
        B.ensure('angle of the average phasor', same(B.scalar(out.value), None))
        return
    B.ensure('one result per line', B.eq(B.len(out.value), count))
    B.ensure('angle of the average phasor', B.forall(count, lambda k: same(B.at(out.value, k), k)))


@contract('circular_mean', 'weights_from_errors', params=dict(shape=SHAPES, errors=KINDS),
          quick=lambda shape, errors: errors == 'good' or shape == 'vector', runs=20)
def circular(B, shape, errors):
    dims, x = given(B, shape)
    period = B.real('period', 0.1, 10.0)
    e, ok = errors_of(B, errors, dims, x)
    count, total = groups(B, shape, dims)
    w = weigh(B, errors, e, ok, period)
    out = call(B, B.mod(MOD).circular_mean, x, shape, e, period=period)
    ph = lambda v: v * PI2 / period
    angle_results(B, out, count, lambda k: (average(B, total, k, x, w, lambda v: B.sin(ph(v))),
                                            average(B, total, k, x, w, lambda v: B.cos(ph(v)))), period)


@contract('weighted_nanmean', 'weighted_nanrms', 'circular_nanmean',
          params=dict(what=('mean', 'rms', 'circular'), shape=SHAPES, errors=KINDS),
          quick=lambda what, shape, errors: shape == 'vector' and errors != 'none' or (shape, errors) == ('rows', 'none'), runs=20)
def ignoring_nan(B, what, shape, errors):
    dims, x = given(B, shape, nan=True)
    some_valid(B, shape, dims, x)
    e, ok = errors_of(B, errors, dims, x)
    count, total = groups(B, shape, dims)
    S = B.mod(MOD)
    if what == 'circular':
        period = B.real('period', 0.1, 10.0)
        w = weigh(B, errors, e, ok, period)
        out = call(B, S.circular_nanmean, x, shape, e, period=period)
        ph = lambda v: v * PI2 / period
        angle_results(B, out, count, lambda k: (average(B, total, k, x, w, lambda v: B.sin(ph(v))),
                                                average(B, total, k, x, w, lambda v: B.cos(ph(v)))), period)
        return
    w = weigh(B, errors, e, ok)
    if what == 'mean':
        out = call(B, S.weighted_nanmean, x, shape, e)
        results(B, out, 'average over the numbers', count, lambda k: average(B, total, k, x, w, lambda v: v))
    else:
        out = call(B, S.weighted_nanrms, x, shape, e)
        results(B, out, 'root mean square over the numbers', count,
                lambda k: B.sqrt(average(B, total, k, x, w, lambda v: v * v)))


@contract('effective_sample_size', 'unbias_variance', params=dict(shape=SHAPES, weights=('none', 'masked', 'good')), runs=20)
def sample_size(B, shape, weights):
    """(sum w)^2 / sum w^2, not below two; the number of values without weights (of those not masked)"""
    dims, x = given(B, shape, nan=weights == 'masked')
    count, total = groups(B, shape, dims)
    S = B.mod(MOD)
    data, w, use = x, None, lambda *i: 1.0
    if weights == 'masked':
        some_valid(B, shape, dims, x)
        data = S.np.ma.array(x, mask=S.np.isnan(x))
        use = lambda *i: B.If(B.isnan(B.at(x, *i)), 0.0, 1.0)
    elif weights == 'good':
        w = B.arr('weights', dims, lo=0.05)
        use = lambda *i: B.at(w, *i)
    t = lambda k: total(k, use)
    kish = t if weights != 'good' else lambda k: t(k) * t(k) / total(k, lambda *i: use(*i) * use(*i))
    size = lambda k: B.If(kish(k) > 2, lambda: kish(k), 2.0)
    out = B.call(S.effective_sample_size, data, w, axis=AXES[shape])
    results(B, out, 'square of the sum over the sum of squares, at least two', count, size)
    out = B.call(S.unbias_variance, data, w, axis=AXES[shape])
    results(B, out, 'variance factor n / (n - 1)', count, lambda k: size(k) / (size(k) - 1))


@contract('weights_from_errors', params=dict(shape=('vector', 'table')), runs=20)
def weights(B, shape):
    dims, x = given(B, shape)
    period = B.real('period', 0.1, 10.0)
    e, ok = errors_of(B, 'any', dims, x)
    out = B.call(B.mod(MOD).weights_from_errors, e, period=period)
    B.ensure('accepted', out.ok)
    if not out.ok:
        return
    if out.value is None:
        B.ensure('no weights only with a zero or missing error', B.Not(ok))
        return
    B.ensure('weights only if every error is usable', ok)
    w = weigh(B, 'good', e, True, period)
    if len(dims) == 1:
        B.ensure('one over the squared error', B.forall(dims[0], lambda i: B.eq(B.at(out.value, i), w(i))))
    else:
        B.ensure('one over the squared error',
                 B.forall(dims[0], lambda i: B.forall(dims[1], lambda j: B.eq(B.at(out.value, i, j), w(i, j)))))


@contract('weighted_mean', 'weighted_rms', 'circular_mean', 'circular_nanerror', bounded=True, runs=60,
          params=dict(shape=SHAPES, errors=KINDS))
def invariances(B, shape, errors):
    """bounded: order of the data, common factor of the errors, whole periods, entries that are not a number"""
    dims, x = given(B, shape)
    e, ok = errors_of(B, errors, dims, x)
    S, ax, rng = B.mod(MOD), AXES[shape], B.nprng
    period = float(B.real('period', 0.1, 10.0))
    along = ax if ax is not None else 0
    fs = [('mean', S.weighted_mean, {}), ('rms', S.weighted_rms, {}), ('circular', S.circular_mean, dict(period=period))]
    phasor = np.exp(2j * np.pi * x / period)
    w = 1 / e ** 2 if e is not None and ok else None
    safe = np.min(np.abs(np.average(phasor, axis=ax, weights=w))) > 1e-5

    def same(name, a, b, circ=False):
        d = np.abs(np.asarray(a) - np.asarray(b))
        if circ:
            d = np.abs((d + period / 2) % period - period / 2)
        B.ensure(name, bool(np.all(d <= 1e-6 * (1 + np.abs(np.asarray(b))))))
    if shape == 'flat':
        perm = rng.permutation(x.size)
        mix = lambda v: None if v is None else v.ravel()[perm].reshape(dims)
    else:
        perm = rng.permutation(dims[along])
        mix = lambda v: None if v is None else np.take(v, perm, axis=along)
    factor = 10.0 ** rng.uniform(-3, 3)
    for name, f, kw in fs:
        circ = name == 'circular'
        if circ and not safe:
            continue
        ref = f(x, errors=e, axis=ax, **kw)
        same('independent of the order', f(mix(x), errors=mix(e), axis=ax, **kw), ref, circ)
        if e is not None:
            same('independent of a common factor of the errors', f(x, errors=e * factor, axis=ax, **kw), ref, circ)
        if circ:
            same('independent of whole periods',
                 f(x + period * rng.randint(-3, 4, dims), errors=e, axis=ax, **kw), ref, True)
    if shape in ('vector', 'rows') and ok:
        hole = np.insert(x, rng.randint(0, dims[-1] + 1, 2), np.nan, axis=-1)
        gone = np.isnan(hole)
        he = None
        if e is not None:
            he = np.full(hole.shape, rng.choice([0.0, np.nan, 1.0]))
            he[~gone] = e.ravel()
        for name, f, g, kw in (('mean', S.weighted_nanmean, S.weighted_mean, {}), ('rms', S.weighted_nanrms, S.weighted_rms, {}),
                               ('circular', S.circular_nanmean, S.circular_mean, dict(period=period)),
                               ('circular error', S.circular_nanerror, S.circular_error, dict(period=period)),
                               ('circular error without correction', S.circular_nanerror, S.circular_error,
                                dict(period=period, t_value_corr=False))):
            if 'circular' in name and not safe:
                continue
            same('entries that are not a number do not count: ' + name,
                 f(hole, errors=he, axis=ax, **kw), g(x, errors=e, axis=ax, **kw), name == 'circular')
