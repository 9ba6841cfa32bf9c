"""Loads every pySC module from /repo's current source, instrumented, with numpy/at/scipy/matplotlib replaced by models."""
import importlib
import os
import sys
import types
import builtins
import copy
import numpy as np
from .core import Unsupported, S, S_, ctx, mk_and, zlift
from . import arr as A
from .arr import NP, Arr, AVal
from . import heap as H
from . import rt
from .instrument import instrument

REPO = os.environ.get('PYDV_REPO', '/repo')


class Dummy:
    """module or function outside the model: using it makes the path unsupported"""
    def __init__(self, name):
        self.__dict__['_name'] = name

    def __getattr__(self, n):
        if n.startswith('__') and n not in ('__file__',):
            raise AttributeError(n)
        return Dummy(self._name + '.' + n)

    def __call__(self, *a, **k):
        if self._name.startswith(('scipy.special.', 'scipy.stats.')) and not k and not A.has_sym(a):
            mod, _, fn = self._name.partition('.')[2].partition('.')
            f = importlib.import_module('scipy.' + mod)
            for part in fn.split('.'):
                f = getattr(f, part)
            return f(*a)
        raise Unsupported(f'call of {self._name}')

    def __mro_entries__(self, bases):
        return (object,)


class NullLogger:
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return lambda *a, **k: None


class AtModel:
    """contracts of the pyAT functions used by pySC"""
    Lattice = H.SymRing

    @staticmethod
    def get_value_refpts(ring, refpts, attrname, index=None):
        refs = NP.ravel(refpts if isinstance(refpts, (Arr, A.NZ)) else NP.array(refpts))
        ctx().assumed_lib.add('at.get_value_refpts: array of the attribute (component) of the addressed elements, in order')

        def one(i):
            el = ring[i]
            v = getattr(el, attrname)
            return v if index is None else rt.RT.getitem(v, index)
        n = refs.shape[0]
        if not isinstance(n, S):
            vals = [one(refs[i]) for i in range(n)]
            return Arr(A.toaval(vals)) if vals else Arr(AVal((0,), lambda idx: 0.0, 'f'))
        f = rt.map_k(n, lambda k: one(refs[k]))
        probe = f(S_(A.fresh_k()))
        if isinstance(probe, (Arr, AVal)):
            pa = A.toaval(probe)
            if any(isinstance(d, S) for d in pa.shape):
                raise Unsupported('get_value_refpts of arrays of unknown length')
            return Arr(AVal((n,) + pa.shape, lambda idx: A.toaval(f(idx[0]))(tuple(idx[1:])), pa.dt))
        if not A.is_scalar(probe):
            raise Unsupported('get_value_refpts of other attributes')
        av = AVal((n,), lambda idx: f(idx[0]), A.dtype_of(probe))
        return Arr(av)

    @staticmethod
    def get_s_pos(ring=None, refpts=None):
        if refpts is not None:
            raise Unsupported('get_s_pos refpts')
        c = ctx()
        c.assumed_lib.add('at.get_s_pos: cumulated lengths, starting with 0')
        col = ring.col('Length').get()
        n = ring.n

        def fn(idx):
            i = idx[0]
            return A.Sum(i, lambda k: col.lookup(k)[1]())
        return Arr(AVal((n + 1,), fn, 'f'))

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        hook = ctx().__dict__.get('at_hooks', {}) if ctx() is not None else {}
        if n in hook:
            return hook[n]

        def f(*a, **k):
            hook = ctx().__dict__.get('at_hooks', {})
            if n in hook:
                return hook[n](*a, **k)
            raise Unsupported(f'at.{n}')
        return f


class CopyModel(types.ModuleType):
    def __init__(self):
        super().__init__('copy')
        self.deepcopy = copy.deepcopy
        self.copy = copy.copy


AT = AtModel()
COPY = CopyModel()
NATIVE = {'re', 'typing', 'itertools', 'warnings', 'functools', 'math', 'datetime', 'time', 'collections', 'os', 'sys', 'inspect',
          'operator', 'dataclasses', 'enum', 'abc', 'numbers', '__future__'}
MATH = types.SimpleNamespace(pi=np.pi, inf=float('inf'), nan=float('nan'), sqrt=A.sqrt_, cos=A.cos_, sin=A.sin_,
                             floor=lambda x: NP.floor(x), isnan=A.isnan_)


class Mod(types.ModuleType):
    pass


class Shadow:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.mods = {}
        self.sources = {}
        self.overrides = {}

    def path(self, name):
        p = os.path.join(self.repo, *name.split('.'))
        if os.path.isdir(p):
            return os.path.join(p, '__init__.py'), True
        return p + '.py', False

    def get(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        path, pkg = self.path(name)
        if not os.path.exists(path):
            raise ImportError(name)
        m = Mod(name)
        self.mods[name] = m
        m.__file__ = path
        if pkg:
            m.__path__ = [os.path.dirname(path)]
        if name == 'pySC.utils.logging_tools':
            m.get_logger = lambda *a, **k: NullLogger()
            return m
        if pkg and name == 'pySC':
            return m
        if name.startswith('pySC.plotting.'):
            return m
        with open(path) as f:
            src = f.read()
        self.sources[name] = src
        code = instrument(src, name, path)
        g = m.__dict__
        g['_pv'] = rt.PV
        b = dict(builtins.__dict__)
        b['__import__'] = self.imp
        g['__builtins__'] = b
        g['__name__'] = name
        exec(code, g)
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            base = globals['__name__'].rsplit('.', level)[0] if not globals.get('__path__') else globals['__name__']
            name = base + ('.' + name if name else '')
        if name == 'pySC' or name.startswith('pySC.'):
            parts = name.split('.')
            for i in range(1, len(parts)):
                parent, child = self.get('.'.join(parts[:i])), parts[i]
                if child not in parent.__dict__ and (os.path.exists(self.path('.'.join(parts[:i + 1]))[0])):
                    setattr(parent, child, self.get('.'.join(parts[:i + 1])))
            m = self.get(name)
            if fromlist:
                for f in fromlist:
                    if f not in m.__dict__:
                        p, _ = self.path(name + '.' + f)
                        if os.path.exists(p):
                            setattr(m, f, self.get(name + '.' + f))
                        elif name.startswith('pySC.plotting'):
                            setattr(m, f, Dummy(name + '.' + f))
                return m
            return self.get('pySC')
        if name == 'numpy':
            return NP
        if name == 'math':
            return MATH
        if name == 'copy':
            return COPY
        if name == 'at':
            return AT
        top = name.split('.')[0]
        if top in NATIVE:
            return builtins.__import__(name, globals, locals, fromlist, level)
        return Dummy(name if fromlist else top)


_shadow = None


def shadow():
    global _shadow
    if _shadow is None:
        _shadow = Shadow()
    return _shadow
