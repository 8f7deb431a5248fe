"""Loads /repo's current source either unmodified (concrete replay) or into a symbolic environment.

Symbolic mode executes the same source text; only the names it looks up are different: a few builtins
(int, float, range, complex) and library modules (math, functools' caches, optionally numpy and stim) accept
symbolic proxies.  Nothing of the repository's text is rewritten.
"""
import builtins
import functools as _functools
import importlib
import math as _math
import os
import re
import sys
import types
from fractions import Fraction

from . import core
from .core import SymInt, SymReal, SymBool, SymComplex, SymNum, Unsupported

REPO_SRC = os.environ.get('VERIF_REPO_SRC', '/repo/src')
TOKEN = re.compile('\u27e6[0-9]+\u27e7')


def _token_value(s):
    eng = core.ENG
    s = s.strip()
    if eng is not None and s in eng.tokens:
        return eng.tokens[s]
    if TOKEN.search(s):
        # A sign or digits glued to a token.
        if s.startswith('-') and s[1:] in eng.tokens:
            return -eng.tokens[s[1:]]
        raise ValueError(f'could not convert string to number: {s!r}')
    return None


class _NumMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, cls._real):
            return True
        return isinstance(x, cls._sym)

    def __subclasscheck__(cls, c):
        return issubclass(c, (cls._real,) + cls._sym)

    def __eq__(cls, o):
        return o is cls or o is cls._real

    def __hash__(cls):
        return hash(cls._real)

    def __getattr__(cls, name):
        return getattr(cls._real, name)


class IntShim(metaclass=_NumMeta):
    _real = int
    _sym = (SymInt,)

    def __new__(cls, x=0, *a):
        if isinstance(x, SymBool):
            return x._i()
        if isinstance(x, SymInt):
            return x
        if isinstance(x, SymReal):
            return x.__trunc__()
        if isinstance(x, str):
            v = _token_value(x)
            if v is not None:
                if isinstance(v, SymInt):
                    return v
                raise ValueError(f'invalid literal for int() with base 10: {x!r}')
        return int(x, *a)


class FloatShim(metaclass=_NumMeta):
    _real = float
    _sym = (SymReal,)

    def __new__(cls, x=0.0):
        if isinstance(x, SymBool):
            x = x._i()
        if isinstance(x, SymInt):
            return SymReal(core.toreal(x.t))
        if isinstance(x, SymReal):
            return x
        if isinstance(x, str):
            v = _token_value(x)
            if v is not None:
                return v if isinstance(v, SymReal) else SymReal(core.toreal(v.t))
        return float(x)


class ComplexShim(metaclass=_NumMeta):
    _real = complex
    _sym = (SymComplex,)

    def __new__(cls, re=0, im=0):
        if any(isinstance(x, (SymNum, SymComplex)) for x in (re, im)):
            return core.as_sc(re) + core.as_sc(im) * 1j
        return complex(re, im) if not isinstance(re, str) else complex(re)


class RangeShim:
    """range() over possibly symbolic bounds: each iteration asks the solver whether there is a next one."""

    def __new__(cls, *a):
        if not any(isinstance(x, SymNum) for x in a):
            return range(*a)
        self = object.__new__(cls)
        if len(a) == 1:
            a = (0, a[0])
        if len(a) == 2:
            a = (a[0], a[1], 1)
        self.start, self.stop, self.step = a
        if isinstance(self.step, SymNum):
            self.step = self.step.__index__()
        if self.step == 0:
            raise ValueError('range() arg 3 must not be zero')
        return self

    def __iter__(self):
        x = self.start
        k = 0
        limit = getattr(core.ENG, 'loop_limit', 64)
        while (x < self.stop) if self.step > 0 else (x > self.stop):
            if k >= limit:
                core.ENG.stats.dropped += 1
                raise core.Infeasible()
            yield x
            x = x + self.step
            k += 1

    def _len(self):
        d = self.stop - self.start if self.step > 0 else self.start - self.stop
        s = abs(self.step)
        n = (d + s - 1) // s
        return core.site(n > 0, n, 0)

    def __len__(self):
        n = self._len()
        return int(n)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return list(self)[i]
        return self.start + i * self.step if i >= 0 else self.start + (self._len() + i) * self.step

    def __contains__(self, x):
        return any(x == y for y in self)

    def __reversed__(self):
        return reversed(list(self))


def _has_sym(x, depth=0):
    if isinstance(x, (SymNum, SymBool, SymComplex)):
        return True
    if depth < 3 and isinstance(x, (tuple, list, frozenset)):
        return any(_has_sym(e, depth + 1) for e in x)
    return False


def _key_eq(a, b):
    if a is b:
        return True
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x is y:
            continue
        if isinstance(x, SymNum) and isinstance(y, SymNum):
            if x.t.eq(y.t):
                continue
            return False
        if _has_sym(x) or _has_sym(y):
            return False
        if type(x) is not type(y) and not (isinstance(x, (int, float, complex)) and isinstance(y, (int, float, complex))):
            return False
        if not (x == y):
            return False
    return True


def lru_cache_shim(maxsize=128, typed=False):
    """functools.lru_cache that looks keys up by equality (never hashes symbolic values)."""
    def deco(fn):
        entries = []

        @_functools.wraps(fn)
        def g(*a, **k):
            key = a + tuple(v for kv in sorted(k.items()) for v in kv)
            for i, (k2, v) in enumerate(entries):
                if _key_eq(key, k2):
                    entries.append(entries.pop(i))
                    return v
            v = fn(*a, **k)
            entries.append((key, v))
            if maxsize is not None and len(entries) > maxsize:
                entries.pop(0)
            return v

        def cache_clear():
            entries.clear()
        g.cache_clear = cache_clear
        g.cache_info = lambda: None
        return g
    if callable(maxsize):
        f, maxsize = maxsize, 128
        return deco(f)
    return deco


def _passthrough(name, real, overrides):
    m = types.ModuleType(name)
    m.__dict__.update({k: v for k, v in real.__dict__.items() if not k.startswith('__')})
    m.__dict__.update(overrides)
    m.__getattr__ = lambda k: getattr(real, k)
    return m


def _sym1(f, g):
    def h(x, *a):
        if isinstance(x, SymBool):
            x = x._i()
        if isinstance(x, SymNum):
            return g(x, *a)
        return f(x, *a)
    return h


def _log(x, *base):
    if base:
        return core.slog(x) / core.slog(base[0])
    return core.slog(x)


def _isclose(a, b, *, rel_tol=1e-09, abs_tol=0.0):
    if not any(isinstance(x, SymNum) for x in (a, b, rel_tol, abs_tol)):
        return _math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    d = abs(a - b)
    return core.sor(d <= rel_tol * abs(a), d <= rel_tol * abs(b), d <= abs_tol)


def _prod(xs, *, start=1):
    r = start
    for x in xs:
        r = r * x
    return r


def _math_pow(a, b):
    if isinstance(a, SymNum) or isinstance(b, SymNum):
        return core.spow(a, b) * 1.0
    return _math.pow(a, b)


def _fsum(xs):
    xs = list(xs)
    if any(isinstance(x, SymNum) for x in xs):
        return sum(xs, 0.0)
    return _math.fsum(xs)


def _log1p(x):
    return core.slog(1 + x)


def _expm1(x):
    return core.sexp(x) - 1


math_shim = _passthrough('math', _math, dict(
    log=_sym1(_math.log, _log),
    log1p=_sym1(_math.log1p, _log1p),
    log2=_sym1(_math.log2, lambda x: core.slog(x) / _math.log(2)),
    log10=_sym1(_math.log10, lambda x: core.slog(x) / _math.log(10)),
    exp=_sym1(_math.exp, core.sexp),
    expm1=_sym1(_math.expm1, _expm1),
    sqrt=_sym1(_math.sqrt, core.ssqrt),
    fabs=_sym1(_math.fabs, lambda x: abs(x) * 1.0),
    isinf=_sym1(_math.isinf, lambda x: False),
    isnan=_sym1(_math.isnan, lambda x: False),
    isfinite=_sym1(_math.isfinite, lambda x: True),
    trunc=_math.trunc,
    isclose=_isclose,
    prod=_prod,
    fsum=_fsum,
    pow=_math_pow,
))
functools_shim = _passthrough('functools', _functools, dict(
    lru_cache=lru_cache_shim,
    cache=lambda f: lru_cache_shim(maxsize=None)(f),
))

_CODE = {}


def source_index():
    idx = {}
    for base, _, files in os.walk(REPO_SRC):
        rel = os.path.relpath(base, REPO_SRC)
        for f in files:
            if f.endswith('.py') and not f.endswith('_test.py'):
                name = f[:-3] if rel == '.' else rel.replace(os.sep, '.') + '.' + f[:-3]
                if name.endswith('.__init__'):
                    name = name[:-9]
                idx[name] = os.path.join(base, f)
    return idx


INDEX = source_index()


def _code(path):
    if path not in _CODE:
        with open(path, encoding='utf-8') as f:
            _CODE[path] = compile(f.read(), path, 'exec')
    return _CODE[path]


class SymLoader:
    """Executes repository modules in the symbolic environment; one instance per explored path."""

    def __init__(self, env=None):
        self.env = {'math': math_shim, 'functools': functools_shim}
        self.env.update(env or {})
        self.mods = {}
        self.functions = set()
        b = dict(vars(builtins))
        b.update(int=IntShim, float=FloatShim, range=RangeShim, complex=ComplexShim, __import__=self._import)
        self.builtins = b

    def get(self, name):
        if name in self.mods:
            return self.mods[name]
        path = INDEX.get(name)
        m = types.ModuleType(name)
        self.mods[name] = m
        sys.modules[name] = m
        if path is None:
            m.__path__ = []
            return m
        if '.' in name:
            parent = self.get(name.rpartition('.')[0])
            setattr(parent, name.rpartition('.')[2], m)
        m.__file__ = path
        m.__dict__['__builtins__'] = self.builtins
        exec(_code(path), m.__dict__)
        return m

    def _is_repo(self, name):
        return name in INDEX or any(k.startswith(name + '.') for k in INDEX)

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get('__name__', '').rpartition('.')[0]
            name = (pkg + '.' + name).strip('.') if name else pkg
        if name in self.env:
            if '.' in name and not fromlist:
                return self._top(name.split('.')[0])
            return self.env[name]
        if self._is_repo(name):
            m = self.get(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f) and self._is_repo(name + '.' + f):
                        setattr(m, f, self.get(name + '.' + f))
                return m
            return self.get(name.split('.')[0])
        return importlib.__import__(name, globals, locals, fromlist, 0)

    def _top(self, top):
        """The package as seen by `import package.module`, with the replaced submodules."""
        if top not in self.env:
            self.env[top] = _passthrough(top, importlib.import_module(top), {})
        for k, m in list(self.env.items()):
            if k.startswith(top + '.') and k.count('.') == 1:
                setattr(self.env[top], k.split('.')[1], m)
        return self.env[top]

    def put(self, name, module):
        self.mods[name] = module
        sys.modules[name] = module


class RealLoader:
    """Imports the unmodified modules; `env` replaces library modules (environment stubs only)."""

    def __init__(self, env=None):
        if REPO_SRC not in sys.path:
            sys.path.insert(0, REPO_SRC)
        self.env = dict(env or {})
        for k, v in self.env.items():
            sys.modules[k] = v
        self.mods = {}

    def get(self, name):
        if name not in self.mods:
            if name in sys.modules and getattr(sys.modules[name], '__file__', '').startswith(REPO_SRC):
                self.mods[name] = sys.modules[name]
            else:
                self.mods[name] = importlib.import_module(name)
        return self.mods[name]

    def put(self, name, module):
        self.mods[name] = module
        sys.modules[name] = module
