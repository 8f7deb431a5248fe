"""A small symbolic executor for Python: proxies + path exploration by re-execution + z3.

The real functions (loaded from /repo's current source by symx.loader) are *run* on proxy values.
Every data dependent branch asks the solver which sides are feasible under the path condition; the
explorer re-executes the program once per feasible decision prefix until no open prefix is left.
Assertions (`prove`) are solver queries over all values satisfying the path condition.
"""
import math
import os
import sys
import time
import traceback
from fractions import Fraction

for _p in ('/opt/veriftools/pyvenv/lib/python3.12/site-packages',):
    if _p not in sys.path:
        sys.path.append(_p)
import z3  # noqa: E402

import numpy as _np  # noqa: E402


class PathEnd(BaseException):
    """Steers exploration; never caught by code under test (BaseException)."""


class Infeasible(PathEnd):
    pass


class Violated(PathEnd):
    pass


class Deadline(BaseException):
    pass


class Unsupported(BaseException):
    """The proxies cannot represent an operation."""


ENG = None  # the engine of the running path


def frac(x):
    """Decimal-real reading of a python number: 0.1 means 1/10."""
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (float, _np.floating)):
        x = float(x)
        if x == int(x) if math.isfinite(x) else False:
            return Fraction(int(x))
        return Fraction(repr(x))
    if isinstance(x, _np.integer):
        return Fraction(int(x))
    raise TypeError(x)


def rv(x):
    f = frac(x)
    return z3.RealVal(f"{f.numerator}/{f.denominator}")


def is_num(x):
    return isinstance(x, (int, float, Fraction, _np.integer, _np.floating, _np.bool_)) and True


class Stats:
    def __init__(self):
        self.paths = 0
        self.branches = 0
        self.queries = 0
        self.obligations = 0
        self.discharged = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.realized = 0
        self.dropped = 0
        self.infeasible = 0
        self.aborted = []     # paths the proxies could not follow
        self.inconclusive = []
        self.timeout = False
        self.labels = {}

    def as_dict(self):
        d = dict(self.__dict__)
        return d


class Engine:
    """Explores all paths of fn(self)."""
    symbolic = True

    def __init__(self, *, deadline=None, max_paths=100000, query_ms=20000, prove_ms=60000, realize_limit=4):
        self.deadline = deadline
        self.max_paths = max_paths
        self.query_ms = query_ms
        self.prove_ms = prove_ms
        self.realize_limit = realize_limit
        self.stats = Stats()
        self.on_violation = None   # callable(inputs, label, detail) -> bool (stop?)
        self.on_abort = None
        self.witness_every = 1
        self.witnesses = []
        self.max_witnesses = 12
        self.stop = False

    # ---- exploration -------------------------------------------------
    def explore(self, fn):
        global ENG
        stack = [[]]
        while stack:
            if self.deadline and time.time() > self.deadline:
                self.stats.timeout = True
                self.stats.dropped += len(stack)
                break
            if self.stats.paths >= self.max_paths:
                self.stats.dropped += len(stack)
                break
            prefix = stack.pop()
            self._start(prefix, stack)
            ENG = self
            try:
                fn(self)
                self.stats.paths += 1
                self._witness()
            except Infeasible:
                self.stats.infeasible += 1
            except Violated:
                self.stats.paths += 1
            except PathEnd:
                self.stats.paths += 1
                self._witness()
            except Deadline:
                self.stats.timeout = True
                self.stats.dropped += len(stack) + 1
                break
            except (Exception, Unsupported) as ex:
                self.stats.paths += 1
                tb = traceback.format_exc(limit=-6)
                inputs = self._model_inputs()
                if inputs is None:
                    self.stats.infeasible += 1
                elif self.on_abort is not None:
                    self.on_abort(inputs, repr(ex), tb, isinstance(ex, Unsupported))
                else:
                    self.stats.aborted.append(repr(ex))
            finally:
                ENG = None
            if self.stop:
                break
        return self.stats

    def _start(self, prefix, stack):
        self.prefix = prefix
        self.pos = 0
        self.stack = stack
        self.taken = []
        self.solver = z3.Solver()
        self.solver.set('timeout', self.query_ms)
        self.inputs = {}
        self.fresh = 0
        self.tokens = {}
        self.realized_here = {}
        self.notes = {}
        self.pc = []
        self.memo = {}
        self.soft = []
        self.last_model = None

    def _add(self, c):
        self.solver.add(c)
        self.pc.append(c)

    def _check(self, *extra, ms=None):
        if self.deadline and time.time() > self.deadline:
            raise Deadline()
        self.stats.queries += 1
        t = time.time()
        if ms is not None:
            self.solver.set('timeout', ms)
        r = self.solver.check(*extra)
        if ms is not None:
            self.solver.set('timeout', self.query_ms)
        self.stats.solver_s += time.time() - t
        if r == z3.sat:
            try:
                self.last_model = self.solver.model()
            except z3.Z3Exception:
                self.last_model = None
        return r

    def decide(self, cond):
        """Fork on a z3 Bool."""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        key = cond.get_id()
        m = self.memo.get(key)
        if m is not None:
            return m[0]
        if self.pos < len(self.prefix):
            kind, v, forced = self.prefix[self.pos]
            assert kind == 'b', (kind, v)
            self.pos += 1
            self.taken.append((kind, v, forced))
            if not forced:
                self._add(cond if v else z3.Not(cond))
            self.memo[key] = (v, cond)
            return v
        # Use the last model as a cheap witness for one side.
        hint = None
        if self.last_model is not None:
            try:
                e = self.last_model.eval(cond, model_completion=True)
                hint = True if z3.is_true(e) else False if z3.is_false(e) else None
            except z3.Z3Exception:
                hint = None
        lm = self.last_model
        can_t = True if hint is True else (self._check(cond) != z3.unsat)
        lt = self.last_model if hint is not True else lm
        can_f = True if hint is False else (self._check(z3.Not(cond)) != z3.unsat)
        lf = self.last_model if hint is not False else lm
        if not can_t and not can_f:
            raise Infeasible()
        v = can_t
        forced = not (can_t and can_f)
        if can_t and can_f:
            self.stats.branches += 1
            self.stack.append(self.taken + [('b', False, False)])
        self.taken.append(('b', v, forced))
        self.prefix = self.taken[:]
        self.pos = len(self.prefix)
        if not forced:
            self._add(cond if v else z3.Not(cond))
        self.last_model = lt if v else lf
        self.memo[key] = (v, cond)
        return v

    def pick(self, expr, candidates=(), limit=None, why='index'):
        """Concretise a z3 term by forking on solver supplied values (complete if the domain is exhausted)."""
        expr = z3.simplify(expr)
        v = const_value(expr)
        if v is not None:
            return v
        key = ('p', expr.get_id())
        if key in self.memo:
            return self.memo[key][0]
        n = 0
        limit = self.realize_limit if limit is None else limit
        while True:
            if self.pos < len(self.prefix):
                kind, val, forced = self.prefix[self.pos]
                assert kind in ('=', '#'), (kind, val, why)
                self.pos += 1
                self.taken.append((kind, val, forced))
                n += 1
                if kind == '=':
                    if not forced:
                        self._add(expr == to_term(val, expr))
                    self.memo[key] = (val, expr)
                    return val
                self._add(expr != to_term(val, expr))
                continue
            val = None
            for c in candidates:
                if self._check(expr == to_term(c, expr)) == z3.sat:
                    val = c
                    break
            if val is None:
                r = self._check()
                if r == z3.unsat:
                    raise Infeasible()
                if r == z3.unknown or self.last_model is None:
                    raise Unsupported(f'cannot concretise {expr}')
                val = const_value(self.last_model.eval(expr, model_completion=True))
                if val is None:
                    raise Unsupported(f'no value for {expr}')
                if z3.is_int(expr) and n < 8:
                    # Prefer small magnitudes.
                    for _ in range(12):
                        if val > 0 and self._check(expr >= 0, expr < val // 2 + (val == 1)) == z3.sat or \
                                val < 0 and self._check(expr > val) == z3.sat:
                            val = const_value(self.last_model.eval(expr, model_completion=True))
                        else:
                            break
            other = self._check(expr != to_term(val, expr)) != z3.unsat
            if other:
                if n < limit:
                    self.stats.branches += 1
                    self.stack.append(self.taken + [('#', val, False)])
                else:
                    self.stats.dropped += 1
                    self.stats.realized += 1
            self.taken.append(('=', val, not other))
            self.prefix = self.taken[:]
            self.pos = len(self.prefix)
            self._add(expr == to_term(val, expr))
            self.last_model = None
            self.memo[key] = (val, expr)
            return val

    # ---- inputs ------------------------------------------------------
    def _decl(self, name, term, kind):
        assert name not in self.inputs, name
        self.inputs[name] = (kind, term)

    def int(self, name, lo=None, hi=None):
        t = z3.Int(name)
        self._decl(name, t, 'int')
        if lo is not None:
            self._add(t >= lo)
        if hi is not None:
            self._add(t <= hi)
        return SymInt(t)

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        t = z3.Real(name)
        self._decl(name, t, 'real')
        if lo is not None:
            self._add(t > rv(lo) if lo_open else t >= rv(lo))
        if hi is not None:
            self._add(t < rv(hi) if hi_open else t <= rv(hi))
        return SymReal(t)

    def bool(self, name):
        t = z3.Bool(name)
        self._decl(name, t, 'bool')
        return SymBool(t)

    def choice(self, name, options):
        """A symbolic element of a finite list (forks over all of it)."""
        t = z3.Int(name)
        self._decl(name, t, 'int')
        self._add(t >= 0)
        self._add(t < len(options))
        i = self.pick(t, limit=len(options) + 1, why='choice ' + name)
        return options[i]

    def fresh_real(self, hint='r'):
        self.fresh += 1
        return z3.Real(f'{hint}!{self.fresh}')

    def fresh_int(self, hint='i'):
        self.fresh += 1
        return z3.Int(f'{hint}!{self.fresh}')

    def assume(self, cond):
        if isinstance(cond, SymBool):
            c = z3.simplify(cond.t)
            if z3.is_false(c):
                raise Infeasible()
            self._add(c)
            self.last_model = None
            if self.pos >= len(self.prefix):
                if self._check() == z3.unsat:
                    raise Infeasible()
        elif not cond:
            raise Infeasible()

    def prove(self, cond, label, detail=''):
        st = self.stats
        st.obligations += 1
        st.labels[label] = st.labels.get(label, 0) + 1
        if not isinstance(cond, SymBool):
            if cond:
                st.discharged += 1
                return True
            neg = z3.BoolVal(True)
        else:
            neg = z3.simplify(z3.Not(cond.t))
        if z3.is_false(neg):
            st.discharged += 1
            return True
        r = self._check(neg, ms=self.prove_ms)
        if r == z3.unsat:
            st.discharged += 1
            return True
        if r == z3.unknown:
            r = self._second_opinion(neg)
            if r == z3.unsat:
                st.discharged += 1
                return True
            if r == z3.unknown:
                st.unknown += 1
                st.inconclusive.append(f'{label}: solver unknown')
                return None
        model = self.last_model
        tried = []
        if self.soft:
            # Away from the ties that float rounding decides, if possible.
            if self._check(neg, *self.soft, ms=self.query_ms) == z3.sat:
                model = self.last_model
        while True:
            inputs = self._inputs_from(model)
            self.stop = self.on_violation(inputs, label, detail) if self.on_violation else True
            if self.stop:
                raise Violated()
            # Not reproduced on the real code: look for a quite different counterexample.
            tried.append(model)
            if len(tried) > 4:
                return False
            differ = []
            for kind, t in self.inputs.values():
                v = model.eval(t, model_completion=True)
                if kind != 'bool' and self._check(neg, *self.soft, *differ, t != v, ms=2000) == z3.sat:
                    differ.append(t != v)
            if not differ or self._check(neg, *self.soft, *differ, ms=self.query_ms) != z3.sat:
                return False
            model = self.last_model

    def generic(self, cond):
        """A condition that counterexamples should satisfy where possible: elsewhere float rounding decides. Replays outside it do not count."""
        if isinstance(cond, SymBool):
            self.soft.append(cond.t)

    def _second_opinion(self, neg):
        """A fresh non-incremental solver (nlsat for nonlinear reals)."""
        try:
            s = z3.Tactic('qfnra-nlsat').solver() if not _has_int(self.pc + [neg]) else z3.Solver()
            s.set('timeout', self.prove_ms)
            s.add(*self.pc)
            s.add(neg)
            t = time.time()
            r = s.check()
            self.stats.queries += 1
            self.stats.solver_s += time.time() - t
            if r == z3.sat:
                self.last_model = s.model()
            return r
        except z3.Z3Exception:
            return z3.unknown

    def feasible(self, cond):
        """Reachability witness: is cond satisfiable on this path?"""
        t = cond.t if isinstance(cond, SymBool) else z3.BoolVal(bool(cond))
        return self._check(t) == z3.sat

    def _inputs_from(self, model):
        out = {}
        for name, (kind, t) in self.inputs.items():
            v = model.eval(t, model_completion=True)
            out[name] = encode_value(kind, v)
        return out

    def _model_inputs(self):
        try:
            if self._check() != z3.sat:
                return None
        except Deadline:
            return None
        return self._inputs_from(self.last_model)

    def _witness(self):
        n = self.stats.paths
        if len(self.witnesses) < self.max_witnesses and (n <= 6 or n % 7 == 0):
            try:
                inp = self._model_inputs()
            except Deadline:
                inp = None
            if inp is not None:
                self.witnesses.append(inp)

    # ---- helpers usable in both modes ---------------------------------
    def close(self, a, b, rel=1e-9, abs_=1e-12):
        """Equality up to float rounding."""
        if isinstance(a, SymNum) and isinstance(b, SymNum) and a.t.eq(b.t):
            return True
        d = a - b
        tol = abs(b) * rel + abs_
        return sand(d <= tol, -d <= tol)

    def concrete(self, x):
        if isinstance(x, (SymInt, SymReal)):
            return self.pick(x.t, limit=1 << 30)
        if isinstance(x, SymBool):
            return bool(x)
        return x


def _has_int(cs):
    seen = set()
    todo = list(cs)
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_int(e):
            return True
        todo.extend(e.children())
    return False


def const_value(t):
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    if z3.is_algebraic_value(t):
        a = t.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return None


def to_term(v, like):
    if z3.is_int(like):
        return z3.IntVal(int(v))
    if z3.is_real(like):
        f = frac(v)
        return z3.RealVal(f"{f.numerator}/{f.denominator}")
    return z3.BoolVal(bool(v))


def encode_value(kind, v):
    c = const_value(v)
    if kind == 'int':
        return int(c)
    if kind == 'bool':
        return bool(c)
    f = Fraction(c)
    return {'num': str(f.numerator), 'den': str(f.denominator)}


def decode_value(v):
    if isinstance(v, dict) and 'num' in v:
        f = Fraction(int(v['num']), int(v['den']))
        return float(f)
    return v


# ---------------------------------------------------------------------------
# boolean helpers that do not fork

def sbool(x):
    if isinstance(x, SymBool):
        return x.t
    return z3.BoolVal(bool(x))


def _anysym(xs):
    return any(isinstance(x, SymBool) for x in xs)


def sand(*xs):
    if not _anysym(xs):
        return all(bool(x) for x in xs)
    return SymBool(z3.And([sbool(x) for x in xs]))


def sor(*xs):
    if not _anysym(xs):
        return any(bool(x) for x in xs)
    return SymBool(z3.Or([sbool(x) for x in xs]))


def snot(x):
    if isinstance(x, SymBool):
        return SymBool(z3.Not(x.t))
    return not x


def simplies(a, b):
    return sor(snot(a), b)


def site(c, a, b):
    if isinstance(c, SymBool):
        ta, tb = coerce(a), coerce(b)
        if z3.is_bool(ta):
            return SymBool(z3.If(c.t, ta, tb))
        if z3.is_int(ta) and z3.is_int(tb):
            return SymInt(z3.If(c.t, ta, tb))
        return SymReal(z3.If(c.t, toreal(ta), toreal(tb)))
    return a if c else b


def coerce(x):
    if isinstance(x, (SymInt, SymReal, SymBool)):
        return x.t
    if isinstance(x, (bool, _np.bool_)):
        return z3.BoolVal(bool(x))
    if isinstance(x, (int, _np.integer)):
        return z3.IntVal(int(x))
    if isinstance(x, (float, Fraction, _np.floating)):
        return rv(x)
    raise TypeError(x)


def toreal(t):
    return z3.ToReal(t) if z3.is_int(t) else t


def wrap(t):
    t = z3.simplify(t)
    v = const_value(t)
    if z3.is_bool(t):
        return SymBool(t)
    if z3.is_int(t):
        return int(v) if v is not None else SymInt(t)
    if v is not None and z3.is_rational_value(t):
        f = Fraction(v)
        fl = float(f)
        if frac(fl) == f:
            return fl
    return SymReal(t)


class SymBool:
    __slots__ = ('t',)
    __array_ufunc__ = None

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return ENG.decide(self.t)

    def _i(self):
        return SymInt(z3.If(self.t, z3.IntVal(1), z3.IntVal(0)))

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def __hash__(self):
        return hash(bool(self))

    def __eq__(self, o):
        if isinstance(o, (SymBool, bool, _np.bool_)):
            return SymBool(self.t == sbool(o))
        if is_num(o) or isinstance(o, (SymInt, SymReal)):
            return self._i() == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else snot(r)

    def __and__(self, o):
        if isinstance(o, (SymBool, bool, _np.bool_)):
            return SymBool(z3.And(self.t, sbool(o)))
        return self._i() & o

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (SymBool, bool, _np.bool_)):
            return SymBool(z3.Or(self.t, sbool(o)))
        return self._i() | o

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (SymBool, bool, _np.bool_)):
            return SymBool(z3.Xor(self.t, sbool(o)))
        return self._i() ^ o

    __rxor__ = __xor__

    def __invert__(self):
        return SymBool(z3.Not(self.t))

    def __add__(self, o): return self._i() + o
    def __radd__(self, o): return o + self._i()
    def __sub__(self, o): return self._i() - o
    def __rsub__(self, o): return o - self._i()
    def __mul__(self, o): return self._i() * o
    def __rmul__(self, o): return o * self._i()
    def __lt__(self, o): return self._i() < o
    def __le__(self, o): return self._i() <= o
    def __gt__(self, o): return self._i() > o
    def __ge__(self, o): return self._i() >= o
    def __repr__(self): return str(bool(self))
    def __str__(self): return str(bool(self))
    def __format__(self, spec): return format(bool(self), spec)


def _arr(f):
    """Lift a binary operator over numpy arrays."""
    def g(self, o):
        if isinstance(o, _np.ndarray):
            out = _np.empty(o.shape, dtype=object)
            for i in _np.ndindex(o.shape):
                e = o[i]
                out[i] = f(self, e.item() if isinstance(e, _np.generic) else e)
            return out
        if isinstance(o, _np.generic):
            o = o.item()
        if isinstance(o, SymBool):
            o = o._i()
        return f(self, o)
    return g


def _ok(o):
    return isinstance(o, (int, float, Fraction, SymInt, SymReal))


def _inf(o):
    return isinstance(o, float) and not math.isfinite(o)


class SymNum:
    __slots__ = ('t',)
    __array_ufunc__ = None
    __array_priority__ = 10000

    def __init__(self, t):
        self.t = t

    # -- comparisons
    def _cmp(self, o, op, inf_pos, inf_neg):
        if isinstance(o, complex):
            return NotImplemented
        if not _ok(o):
            return NotImplemented
        if _inf(o):
            if o != o:
                return False
            return inf_pos if o > 0 else inf_neg
        a, b = self.t, coerce(o)
        if z3.is_bool(b):
            b = z3.If(b, z3.IntVal(1), z3.IntVal(0))
        if z3.is_int(a) != z3.is_int(b):
            a, b = toreal(a), toreal(b)
        return SymBool(op(a, b))

    @_arr
    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b, True, False)
    @_arr
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b, True, False)
    @_arr
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b, False, True)
    @_arr
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b, False, True)

    @_arr
    def __eq__(self, o):
        if isinstance(o, (complex, SymComplex)):
            return as_sc(self) == o
        return self._cmp(o, lambda a, b: a == b, False, False)

    @_arr
    def __ne__(self, o):
        if isinstance(o, (complex, SymComplex)):
            return as_sc(self) != o
        return self._cmp(o, lambda a, b: a != b, True, True)

    def __hash__(self):
        v = ENG.pick(self.t, why='hash')
        return hash(int(v) if z3.is_int(self.t) else float(v))

    def __bool__(self):
        return ENG.decide(self.t != 0)

    # -- arithmetic
    def _bin(self, o, f, swap=False, real=False):
        if isinstance(o, (complex, SymComplex)):
            return NotImplemented
        if isinstance(o, bool):
            o = int(o)
        if not _ok(o):
            return NotImplemented
        a, b = self.t, coerce(o)
        if real or z3.is_int(a) != z3.is_int(b):
            a, b = toreal(a), toreal(b)
        return wrap(f(b, a) if swap else f(a, b))

    @_arr
    def __add__(self, o):
        if isinstance(o, (complex, SymComplex)): return as_sc(self) + o
        if _inf(o): return o
        return self._bin(o, lambda a, b: a + b)
    __radd__ = __add__

    @_arr
    def __sub__(self, o):
        if isinstance(o, (complex, SymComplex)): return as_sc(self) - o
        if _inf(o): return -o
        return self._bin(o, lambda a, b: a - b)

    @_arr
    def __rsub__(self, o):
        if isinstance(o, (complex, SymComplex)): return as_sc(o) - self
        if _inf(o): return o
        return self._bin(o, lambda a, b: a - b, swap=True)

    @_arr
    def __mul__(self, o):
        if isinstance(o, (complex, SymComplex)): return as_sc(self) * o
        if _inf(o):
            if self == 0: return float('nan')
            return o if self > 0 else -o
        if isinstance(o, (list, tuple, str)):
            return o * self.__index__()
        return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__

    @_arr
    def __truediv__(self, o):
        if isinstance(o, (complex, SymComplex)):
            return NotImplemented
        if not _ok(o):
            return NotImplemented
        if _inf(o): return 0.0
        if not isinstance(o, (SymInt, SymReal)):
            if o == 0:
                raise ZeroDivisionError('division by zero')
        elif ENG.decide(o.t == 0):
            raise ZeroDivisionError('division by zero')
        return self._bin(o, lambda a, b: a / b, real=True)

    @_arr
    def __rtruediv__(self, o):
        if not _ok(o):
            return NotImplemented
        if ENG.decide(self.t == 0):
            raise ZeroDivisionError('division by zero')
        return self._bin(o, lambda a, b: a / b, swap=True, real=True)

    def __neg__(self): return wrap(-self.t)
    def __pos__(self): return self

    def __abs__(self):
        return wrap(z3.If(self.t >= 0, self.t, -self.t))

    @_arr
    def __floordiv__(self, o): return fdiv(self, o)
    @_arr
    def __rfloordiv__(self, o): return fdiv(o, self)
    @_arr
    def __mod__(self, o): return fmod(self, o)
    @_arr
    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        return fmod(o, self)

    def __divmod__(self, o): return fdiv(self, o), fmod(self, o)
    def __rdivmod__(self, o): return fdiv(o, self), fmod(o, self)

    @_arr
    def __pow__(self, o): return spow(self, o)
    @_arr
    def __rpow__(self, o): return spow(o, self)

    def sqrt(self): return ssqrt(self)
    def log(self): return slog(self)
    def exp(self): return sexp(self)
    def log1p(self): return slog(1 + self)

    @property
    def real(self): return self

    @property
    def imag(self): return 0

    def conjugate(self): return self

    def __complex__(self):
        return complex(float(self))

    def __repr__(self): return self.__str__()

    def __str__(self):
        return token(self)

    def __format__(self, spec):
        if spec in ('', 'd', 'r', 's'):
            return token(self)
        v = ENG.pick(self.t, candidates=[] if z3.is_int(self.t) else NASTY, why='format')
        return format(int(v) if z3.is_int(self.t) else float(v), spec)


NASTY = [Fraction('0.12345678901234568'), Fraction('123456.78901234568'), Fraction('0.0012345678901234567')]


class SymInt(SymNum):
    __slots__ = ()

    def __index__(self):
        return int(ENG.pick(self.t, why='index'))

    def __int__(self):
        return self.__index__()

    def __float__(self):
        return float(ENG.pick(self.t, why='float'))

    def __floor__(self): return self
    def __ceil__(self): return self
    def __trunc__(self): return self

    def __round__(self, nd=None):
        return self

    def is_integer(self): return True

    def bit_length(self): return self.__index__().bit_length()

    def _bit(self, o, f):
        return f(self.__index__(), int(o))

    def __and__(self, o):
        if not isinstance(o, (SymInt, bool)) and isinstance(o, int) and o >= 0 and (o & (o + 1)) == 0:
            return fmod(self, o + 1)
        return self._bit(o, lambda a, b: a & b)
    __rand__ = __and__
    def __or__(self, o): return self._bit(o, lambda a, b: a | b)
    __ror__ = __or__
    def __xor__(self, o): return self._bit(o, lambda a, b: a ^ b)
    __rxor__ = __xor__

    def __lshift__(self, o):
        if isinstance(o, int):
            return self * (1 << o)
        return self._bit(o, lambda a, b: a << b)

    def __rlshift__(self, o):
        return int(o) << self.__index__()

    def __rshift__(self, o):
        if isinstance(o, int):
            return fdiv(self, 1 << o)
        return self._bit(o, lambda a, b: a >> b)

    def __invert__(self):
        return -self - 1

    @property
    def numerator(self): return self

    @property
    def denominator(self): return 1


class SymReal(SymNum):
    __slots__ = ()

    def __float__(self):
        v = ENG.pick(self.t, why='float')
        return float(v)

    def __int__(self):
        return int(self.__trunc__())

    def __floor__(self): return wrap(z3.ToInt(self.t))
    def __ceil__(self): return wrap(-z3.ToInt(-self.t))
    def __trunc__(self): return wrap(z3.If(self.t >= 0, z3.ToInt(self.t), -z3.ToInt(-self.t)))

    def __round__(self, nd=None):
        s = 10 ** (nd or 0)
        x = self.t * s
        f = z3.ToInt(x)
        d = x - z3.ToReal(f)
        r = z3.If(d > rv(0.5), f + 1, z3.If(d < rv(0.5), f, z3.If(f % 2 == 0, f, f + 1)))
        if nd is None:
            return wrap(r)
        return wrap(z3.ToReal(r) / s)

    def is_integer(self):
        return SymBool(z3.IsInt(self.t))

    def as_integer_ratio(self):
        return float(self).as_integer_ratio()


def fdiv(a, b):
    if not (_ok(a) and _ok(b)):
        return NotImplemented
    ta, tb = coerce(a), coerce(b)
    if const_value(tb) == 0 or (const_value(tb) is None and ENG.decide(tb == 0)):
        raise ZeroDivisionError('integer division or modulo by zero')
    if z3.is_int(ta) and z3.is_int(tb):
        c = const_value(tb)
        if c is not None and c > 0:
            return wrap(ta / tb)
        if c is not None:
            return wrap((-ta) / (-tb))
        return wrap(z3.If(tb > 0, ta / tb, (-ta) / (-tb)))
    return wrap(z3.ToReal(z3.ToInt(toreal(ta) / toreal(tb))))


MOD_PICK = 12


def fmod(a, b):
    if not (_ok(a) and _ok(b)):
        return NotImplemented
    ta, tb = coerce(a), coerce(b)
    if const_value(tb) == 0 or (const_value(tb) is None and ENG.decide(tb == 0)):
        raise ZeroDivisionError('modulo by zero')
    if const_value(tb) is None:
        # Symbolic modulus: fork on a small quotient, which keeps everything linear.
        for q in (0, -1, 1, -2, 2, -3, 3):
            r = ta - tb * q
            if ENG.decide(z3.And(r >= 0, r < tb)):
                return wrap(z3.simplify(r))
    if z3.is_int(ta) and z3.is_int(tb):
        c = const_value(tb)
        if c is not None and c > 0:
            t = z3.simplify(ta % tb)
            if c <= MOD_PICK and getattr(ENG, 'mod_pick', True):
                return int(ENG.pick(t, limit=MOD_PICK + 1, why='mod'))
            return wrap(t)
        return wrap(z3.If(tb > 0, ta % tb, -((-ta) % (-tb))))
    ra, rb = toreal(ta), toreal(tb)
    return wrap(ra - rb * z3.ToReal(z3.ToInt(ra / rb)))


def spow(a, b):
    """a ** b for concrete integer or rational exponents."""
    if isinstance(b, (SymInt, SymReal)):
        b = ENG.pick(b.t, why='exponent')
        b = Fraction(b)
    if isinstance(a, (int, float)) and not isinstance(a, bool) and not isinstance(b, Fraction):
        return a ** b
    fb = Fraction(b).limit_denominator(10 ** 6) if not isinstance(b, int) else Fraction(b)
    if isinstance(b, float) and abs(float(fb) - b) > 1e-12:
        raise Unsupported(f'exponent {b}')
    ta = coerce(a)
    if fb.denominator == 1:
        n = fb.numerator
        if n == 0:
            return 1 if z3.is_int(ta) else 1.0
        if n < 0:
            return 1 / spow(a, -n)
        if n > 2000:
            raise Unsupported('large exponent')
        r = ta
        for _ in range(n - 1):
            r = r * ta
        return wrap(r)
    # Rational exponent: the nonnegative root.
    ra = z3.simplify(toreal(ta))
    if const_value(ra) is None:
        if ENG.decide(ra < 0):
            raise Unsupported('negative base with fractional exponent')
    root = _root(ra, fb.denominator)
    return spow(SymReal(root), fb.numerator)


def _root(ra, k):
    """The nonnegative k-th root of a nonnegative real term, as a fresh variable with its defining axiom."""
    key = ('root', ra.get_id(), k)
    m = ENG.memo.get(key)
    if m is not None:
        return m[0]
    y = ENG.fresh_real('root')
    ENG._add(y >= 0)
    # Above a limit the harness may set, the root is only known by its name and the facts below (fewer facts: still sound).
    if k <= ENG.notes.get('root_exact_to', 10 ** 9):
        p = y
        for _ in range(k - 1):
            p = p * y
        ENG._add(p == ra)
    # Redundant facts that spare the nonlinear solver work.
    ENG._add(z3.Implies(ra <= 1, y <= 1))
    ENG._add(z3.Implies(ra >= 1, y >= 1))
    ENG._add(z3.Implies(ra == 0, y == 0))
    ENG._add(z3.Implies(y == 0, ra == 0))
    ENG._add(z3.Implies(ra == 1, y == 1))
    ENG._add(z3.Implies(y == 1, ra == 1))
    ENG.last_model = None
    ENG.memo[key] = (y, ra)
    return y


def ssqrt(x):
    if not isinstance(x, (SymInt, SymReal)):
        return math.sqrt(x)
    h = ENG.notes.get('sqrt')
    if h is not None:
        return h(x)
    t = z3.simplify(toreal(x.t))
    if ENG.decide(t < 0):
        raise ValueError('math domain error')
    return SymReal(_root(t, 2))


LOG = z3.Function('ln', z3.RealSort(), z3.RealSort())
def slog_eval(x, S):
    """A term over ln at concrete points, with those replaced by their values."""
    t = z3.simplify(z3.substitute(x.t, *[(v, to_term(S.concrete(SymInt(v) if z3.is_int(v) else SymReal(v)), v)) for _, v in S.inputs.values()]))
    for _ in range(50):
        apps = []
        todo = [t]
        while todo:
            e = todo.pop()
            if z3.is_app(e) and e.decl().eq(LOG) and const_value(z3.simplify(e.arg(0))) is not None:
                apps.append(e)
            else:
                todo.extend(e.children())
        if not apps:
            break
        t = z3.simplify(z3.substitute(t, *[(a, rv(math.log(const_value(z3.simplify(a.arg(0)))))) for a in apps]))
    v = const_value(t)
    return float(v) if v is not None else SymReal(t)


EXP = z3.Function('exp', z3.RealSort(), z3.RealSort())


def slog(x):
    """ln as an uninterpreted function with the facts: ln 1 = 0, sign, strict monotonicity between queried points."""
    if not isinstance(x, (SymInt, SymReal)):
        return math.log(x)
    h = ENG.notes.get('log')
    if h is not None:
        r = h(x)
        if r is not None:
            return r
    t = z3.simplify(toreal(x.t))
    if ENG.decide(t <= 0):
        raise ValueError('math domain error')
    pts = ENG.notes.setdefault('log_points', [])
    if ENG.notes.get('log_plain'):
        q = toreal(x.t)
        if z3.is_div(q) and not ENG.decide(q.arg(1) <= 0):
            # ln(a/b) = ln a - ln b, so that both ways of writing it are the same.
            return SymReal(LOG(z3.simplify(q.arg(0), som=True)) - LOG(z3.simplify(q.arg(1), som=True)))
        return SymReal(LOG(z3.simplify(t, som=True)))
    if not any(p.eq(t) for p in pts):
        ENG._add(z3.And(z3.Implies(t == 1, LOG(t) == 0), z3.Implies(t > 1, LOG(t) > 0), z3.Implies(t < 1, LOG(t) < 0)))
        for p in pts:
            ENG._add(z3.And(z3.Implies(p < t, LOG(p) < LOG(t)), z3.Implies(t < p, LOG(t) < LOG(p)),
                            z3.Implies(t == p, LOG(t) == LOG(p))))
        pts.append(t)
        ENG.last_model = None
    return SymReal(LOG(t))


def sexp(x):
    if not isinstance(x, (SymInt, SymReal)):
        return math.exp(x)
    t = z3.simplify(toreal(x.t))
    pts = ENG.notes.setdefault('exp_points', [])
    if not any(p.eq(t) for p in pts):
        ENG._add(z3.And(EXP(t) > 0, z3.Implies(t == 0, EXP(t) == 1), z3.Implies(t > 0, EXP(t) > 1),
                        z3.Implies(t < 0, EXP(t) < 1)))
        for p in pts:
            ENG._add(z3.And(z3.Implies(p < t, EXP(p) < EXP(t)), z3.Implies(t < p, EXP(t) < EXP(p))))
            for k in ENG.notes.get('exp_powers', ()):
                # exp(k t) = exp(t)^k
                for a, b in ((p, t), (t, p)):
                    if z3.is_true(z3.simplify(a == k * b, som=True)):
                        e = EXP(b) if abs(k) == 1 else EXP(b) * EXP(b)
                        ENG._add(EXP(a) == e if k > 0 else EXP(a) * e == 1)
        pts.append(t)
        ENG.last_model = None
    return SymReal(EXP(t))


def token(x):
    """A string that stands for str(x); symx.loader's int()/float() turn it back into x."""
    k = len(ENG.tokens)
    for name, v in ENG.tokens.items():
        if v is x or (type(v) is type(x) and v.t.eq(x.t)):
            return name
    name = f'\u27e6{k}\u27e7'
    ENG.tokens[name] = x
    return name


class SymComplex:
    """Complex number with possibly symbolic parts."""
    __slots__ = ('real', 'imag')
    __array_ufunc__ = None

    def __init__(self, re, im):
        self.real = re
        self.imag = im

    def __add__(self, o):
        o = as_sc(o)
        return o if o is NotImplemented else mk(self.real + o.real, self.imag + o.imag)
    __radd__ = __add__

    def __sub__(self, o):
        o = as_sc(o)
        return o if o is NotImplemented else mk(self.real - o.real, self.imag - o.imag)

    def __rsub__(self, o):
        o = as_sc(o)
        return o if o is NotImplemented else mk(o.real - self.real, o.imag - self.imag)

    def __mul__(self, o):
        o = as_sc(o)
        if o is NotImplemented:
            return o
        return mk(self.real * o.real - self.imag * o.imag, self.real * o.imag + self.imag * o.real)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, (int, float, SymInt, SymReal)):
            return mk(self.real / o, self.imag / o)
        return NotImplemented

    def __neg__(self): return mk(-self.real, -self.imag)
    def __pos__(self): return self
    def conjugate(self): return mk(self.real, -self.imag)

    def __eq__(self, o):
        o = as_sc(o)
        if o is NotImplemented:
            return o
        return sand(self.real == o.real, self.imag == o.imag)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else snot(r)

    def __hash__(self):
        return hash(complex(float(self.real), float(self.imag)))

    def __complex__(self):
        return complex(float(self.real), float(self.imag))

    def __bool__(self):
        return bool(snot(self == 0))

    def __repr__(self):
        return f'({self.real}+{self.imag}j)'


def mk(re, im):
    if isinstance(re, (SymInt, SymReal)) or isinstance(im, (SymInt, SymReal)):
        return SymComplex(re, im)
    return complex(re, im)


def as_sc(o):
    if isinstance(o, SymComplex):
        return o
    if isinstance(o, (SymInt, SymReal)):
        return SymComplex(o, 0)
    if isinstance(o, (int, float, complex)):
        return SymComplex(o.real, o.imag)
    return NotImplemented
