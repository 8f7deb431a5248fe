"""numpy with array constructors that can hold symbolic scalars (object arrays) and elementwise transcendental functions."""
import math
import types

import numpy as _np

from . import core
from .core import SymNum, SymBool


def _symbolic(x, depth=0):
    if isinstance(x, (SymNum, SymBool)):
        return True
    if isinstance(x, _np.ndarray):
        return x.dtype == object
    if depth < 4 and isinstance(x, (list, tuple)):
        return any(_symbolic(e, depth + 1) for e in x)
    return False


class Arr(_np.ndarray):
    """An object array that also accepts symbolic scalars in in-place operations."""

    def __array_wrap__(self, a, context=None, *more):
        # Like plain arrays: reductions and operations on 0-d arrays give scalars.
        return a[()] if a.ndim == 0 else a.view(type(self))


def _inplace(name):
    op = getattr(_np.ndarray, name)

    def f(self, other):
        if isinstance(other, (SymNum, SymBool)):
            o = _np.empty((), dtype=object)
            o[()] = other
            other = o
        r = op(self, other)
        return self if r is NotImplemented else r
    return f


for _n in ('__iadd__', '__isub__', '__imul__', '__itruediv__', '__ipow__', '__iand__', '__ior__', '__ixor__'):
    setattr(Arr, _n, _inplace(_n))


def _empty(shape):
    return _np.empty(shape, dtype=object).view(Arr)


def _filler(real, value):
    def f(shape, *a, dtype=None, **k):
        if a and dtype is None:
            dtype, a = a[0], a[1:]
        if hasattr(shape, '__index__') or isinstance(shape, SymNum):
            shape = (int(shape),)
        shape = tuple(int(s) for s in shape)
        out = _empty(shape)
        v = value
        if dtype is not None:
            d = _np.dtype(dtype)
            v = {'b': bool, 'f': float}.get(d.kind, int)(value) if d.kind in 'bfiu' else value
        else:
            v = float(value)
        out.fill(v)
        return out
    return f


def full(shape, fill_value, dtype=None, **k):
    r = _filler(None, 0)(shape)
    r.fill(fill_value)
    return r


def array(x, dtype=None, *a, **k):
    if hasattr(x, '__iter__') and not isinstance(x, (list, tuple, _np.ndarray, str)):
        x = list(x)
    if _symbolic(x):
        return _np.array(x, dtype=object).view(Arr)
    return _np.array(x, dtype, *a, **k) if dtype is not None else _np.array(x, *a, **k)


def asarray(x, dtype=None, *a, **k):
    if isinstance(x, _np.ndarray) and x.dtype == object:
        return x
    return array(x, dtype)


def _like(real, value):
    def f(x, *a, **k):
        return _filler(None, value)(_np.shape(x), dtype=k.get('dtype'))
    return f


def _map1(real, sym):
    def f(x, *a, **k):
        if isinstance(x, SymNum):
            return sym(x)
        if isinstance(x, (list, tuple)) and _symbolic(x):
            x = array(x)
        if isinstance(x, _np.ndarray) and x.dtype == object:
            out = _empty(x.shape)
            for i in _np.ndindex(x.shape):
                e = x[i]
                out[i] = sym(e) if isinstance(e, SymNum) else _scalar(real, e)
            return out
        return real(x, *a, **k)
    return f


def _scalar(real, e):
    r = real(e)
    return r.item() if isinstance(r, _np.generic) else r


def clip(x, a, b, *args, **k):
    def one(e):
        if isinstance(e, SymNum) or isinstance(a, SymNum) or isinstance(b, SymNum):
            return core.site(e < a, a, core.site(e > b, b, e))
        return min(max(e, a), b)
    if isinstance(x, (list, tuple)) and _symbolic(x):
        x = array(x)
    if isinstance(x, SymNum):
        out = _empty(())
        out[()] = one(x)
        return out
    if isinstance(x, _np.ndarray) and x.dtype == object:
        out = _empty(x.shape)
        for i in _np.ndindex(x.shape):
            out[i] = one(x[i])
        return out
    r = _np.clip(x, a, b, *args, **k)
    return r


def where(c, *ab):
    if ab and (_symbolic(c) or any(_symbolic(v) for v in ab)):
        c, a, b = _np.broadcast_arrays(*[_np.asarray(v, dtype=object) for v in (c,) + ab])
        out = _empty(c.shape)
        for i in _np.ndindex(c.shape):
            out[i] = core.site(c[i], a[i], b[i]) if isinstance(c[i], SymBool) else (a[i] if c[i] else b[i])
        return out
    return _np.where(c, *ab)


def count_nonzero(x, axis=None, **k):
    if isinstance(x, (SymNum, SymBool)):
        x = [x]
    if _symbolic(x):
        x = _np.asarray(x, dtype=object)
        ones = _empty(x.shape)
        for i in _np.ndindex(x.shape):
            e = x[i]
            ones[i] = e._i() if isinstance(e, SymBool) else core.site(e != 0, 1, 0) if isinstance(e, SymNum) else int(bool(e))
        return ones.sum(axis=axis) if x.size or axis is not None else 0
    return _np.count_nonzero(x, axis=axis, **k)


def module():
    m = types.ModuleType('numpy')
    m.__dict__.update({k: v for k, v in _np.__dict__.items() if not k.startswith('__')})
    m.__getattr__ = lambda k: getattr(_np, k)
    m.__version__ = _np.__version__
    m.zeros, m.ones, m.empty, m.full = _filler(_np.zeros, 0), _filler(_np.ones, 1), _filler(_np.empty, 0), full
    m.zeros_like, m.ones_like, m.empty_like = _like(_np.zeros_like, 0), _like(_np.ones_like, 1), _like(_np.empty_like, 0)
    m.array, m.asarray = array, asarray
    m.log = _map1(_np.log, core.slog)
    m.exp = _map1(_np.exp, core.sexp)
    m.sqrt = _map1(_np.sqrt, core.ssqrt)
    m.log1p = _map1(_np.log1p, lambda x: core.slog(1 + x))
    m.log2 = _map1(_np.log2, lambda x: core.slog(x) / math.log(2))
    m.log10 = _map1(_np.log10, lambda x: core.slog(x) / math.log(10))
    m.abs = m.absolute = _map1(_np.abs, abs)
    m.isnan = _map1(_np.isnan, lambda x: False)
    m.isinf = _map1(_np.isinf, lambda x: False)
    m.isfinite = _map1(_np.isfinite, lambda x: True)
    m.bool8 = _np.bool_
    m.clip, m.where, m.count_nonzero = clip, where, count_nonzero
    return m


NUMPY = module()
