"""Bounded checks of the real code, for functions outside the verifier's reach (labelled bounded, never counted as proved)"""
import random
import time
import traceback
import warnings
import numpy as np

REG = {}


class Fail(Exception):
    """the property fails for this input"""


class Skip(Exception):
    pass


def bounded(label, quick=40, thorough=600, secs=(60, 240)):
    """@bounded: fn(rng, nprng) draws an input, runs the real code, raises Fail(what, input) when the property fails"""
    def deco(f):
        mod = f.__module__.rsplit('.', 1)[-1]

        def one(seed):
            rng = random.Random(seed)
            st = np.random.get_state()
            np.random.seed(seed % (2 ** 31))
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    f(rng)
                return None
            except Skip:
                return 'skip'
            except Fail as e:
                return dict(seed=seed, what=str(e.args[0]), input=[str(x)[:2000] for x in e.args[1:]])
            except Exception as e:
                return dict(seed=seed, what=f'unexpected {type(e).__name__}: {e}', tb=traceback.format_exc()[-1500:])
            finally:
                np.random.set_state(st)

        def run(tier, seed):
            n, lim = (quick, secs[0]) if tier == 'quick' else (thorough, secs[1])
            t0 = time.time()
            cases, fails = 0, []
            for i in range(n):
                if time.time() - t0 > lim:
                    break
                r = one(seed * 100003 + i)
                if r == 'skip':
                    continue
                cases += 1
                if r is not None:
                    fails.append(r)
                    break
            return dict(cases=cases, fails=fails)
        f.one, f.run, f.label = one, run, label
        f.opts = {}
        REG.setdefault(mod, []).append(f)
        return f
    return deco


def close(a, b, tol=1e-9):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.all((np.abs(a - b) <= tol * (1 + np.abs(a) + np.abs(b))) | (np.isnan(a) & np.isnan(b))))


def need(cond, what, *info):
    if not cond:
        raise Fail(what, *info)
