"""P22: binomial log likelihoods and log factorials."""
import math

import numpy as np

from checks.collect import *
from checks.p21 import load_pu

BOUNDS = ('log factorial: every n (symbolic, unbounded): exact below 20, and for n >= 20 the increment from n to n+1 is within 1/(12 n (n+1)) of ln(n+1), '
          'which with the value at 20 bounds the error by 0.005 for all n; log binomial: any probability (symbolic, including outside [0, 1]), scalar, arrays of up to 3, and larger ones (up to 1200, up to three dimensions) with two symbolic elements, after other evaluations, '
          '14 (shots, hits) pairs plus, with the factorial part abstracted, any shots and hits')
OUTSIDE = 'single precision rounding of the result'
ASSUMPTIONS = ['2/(2n+1) <= ln(1+1/n) <= 2/(2n+1) + 2/(3 (2n+1)^3 (1 - 1/(2n+1)^2)) (series of artanh)']


def small_factorials(S):
    L, pu = load_pu(S)
    n = S.int('n', 0, 40)
    got = pu.log_factorial(n)
    k = S.concrete(n)
    if isinstance(got, SymNum):
        # ln at a concrete point.
        got = core.slog_eval(got, S)
    S.prove(S.close(got, math.lgamma(k + 1), 1e-9, 1e-9 if k < 20 else 0.005), 'log factorial of small numbers', lambda: f'ln {k}! = {got}')


def stirling_step(S):
    """The error of the approximation changes by less than 1/(12 n (n+1)) from n to n+1."""
    L, pu = load_pu(S)
    n = S.int('n', 20, None if S.symbolic else 10**9)
    if not S.symbolic:
        d = pu.log_factorial(n + 1) - pu.log_factorial(n) - math.log(n + 1)
        S.prove(abs(d) <= 1 / (12 * n * (n + 1)) + 1e-14 * n * 40 * (1 + math.log(n)), 'log factorial grows by ln(n+1)', lambda: f'n={n}: off by {d}')
        return
    S.notes['log_plain'] = True
    a, b = pu.log_factorial(n), pu.log_factorial(n + 1)
    z3 = core.z3
    t = z3.ToReal(n.t)
    w = core.LOG(z3.simplify(t + 1)) - core.LOG(t)
    lo = 2 / (2 * t + 1)
    # The relation of ln(n+1) and ln(n), over the reals, for whatever form the arguments take.
    core.ENG._add(core.LOG(t) == core.LOG(z3.simplify(t)))
    core.ENG._add(z3.And(core.LOG(t) >= z3.RealVal('2.995732'), core.LOG(t) <= t - 1))
    x = z3.Real('n_real')
    u, v = z3.Real('ln_n'), z3.Real('ln_n1')
    pairs = [(n.t, z3.Int('nn'))]
    d = z3.simplify(core.toreal(core.coerce(b)) - core.toreal(core.coerce(a)) - core.LOG(z3.simplify(z3.ToReal(n.t + 1))))
    # Name the two logarithms and the number, so that a purely real nonlinear problem remains.
    for arg in (t, z3.simplify(t), z3.ToReal(z3.simplify(n.t))):
        d = z3.substitute(d, (core.LOG(arg), u))
    for arg in (t + 1, z3.simplify(t + 1), z3.ToReal(n.t + 1), z3.simplify(z3.ToReal(n.t + 1)), 1 + t, z3.ToReal(1 + n.t), z3.simplify(z3.ToReal(1 + n.t))):
        d = z3.substitute(d, (core.LOG(arg), v))
    d = z3.simplify(z3.substitute(d, (t, x)))
    s = z3.Tactic('qfnra-nlsat').solver() if not core._has_int([d]) else z3.Solver()
    s.set('timeout', 60000)
    if core._has_int([d]):
        raise core.Unsupported(f'log factorial is not expressed by ln(n) and ln(n+1): {d}')
    m = 2 * x + 1
    s.add(x >= 20, u >= 0, v - u >= 2 / m, v - u <= 2 / m + 2 / (3 * m * m * m * (1 - 1 / (m * m))))
    s.add(z3.Or(d > 1 / (12 * x * (x + 1)), d < -1 / (12 * x * (x + 1))))
    import time
    t0 = time.time()
    r = s.check()
    st = S.stats
    st.queries += 1
    st.solver_s += time.time() - t0
    if r == z3.unsat:
        S.prove(True, 'log factorial grows by ln(n+1)')
    elif r == z3.sat:
        # Let the real code show it: large deviations are visible at a concrete point.
        S.assume(n == max(20, int(core.const_value(s.model().eval(x, model_completion=True)) or 20)))
        S.prove(False, 'log factorial grows by ln(n+1)', lambda: str(d))
    else:
        st.unknown += 1
        st.inconclusive.append('Stirling step: solver unknown')


PAIRS = [(0, 0), (1, 0), (1, 1), (2, 1), (3, 3), (10, 4), (19, 7), (20, 0), (20, 20), (25, 3), (100, 50), (1000, 2), (10**6, 100), (10**10, 10**4)]


def expected(S, lnc, n, h, p):
    q = site(p < 0, 0, site(p > 1, 1, p)) if isinstance(p, SymNum) else min(max(p, 0), 1)
    if q == 0:
        return lnc if h == 0 else -math.inf
    if q == 1:
        return lnc if h == n else -math.inf
    ln = (lambda x: core.slog(x)) if S.symbolic else math.log
    a = h * ln(q) if not (isinstance(h, int) and h == 0) else 0
    m = n - h
    b = m * (core.slog(1 - q) if isinstance(q, SymNum) else math.log1p(-q)) if not (isinstance(m, int) and m == 0) else 0
    return a + b + lnc


def same(S, got, want, tol):
    if isinstance(got, np.generic):
        got = got.item()
    gi, wi = isinstance(got, float) and math.isinf(got), isinstance(want, float) and math.isinf(want)
    if gi or wi:
        return gi and wi and got < 0
    if not S.symbolic and abs(want) > 1:
        return abs(got - want) <= tol + 1e-5 * abs(want)
    return S.close(got, want, 1e-9, tol)


def binomial(S, n, h, shape):
    L, pu = load_pu(S)
    ps = [S.real(f'p{i}', -0.5, 1.5) for i in range(max(1, shape))]
    lnc = math.lgamma(n + 1) - math.lgamma(h + 1) - math.lgamma(n - h + 1)
    if n >= 10**9:
        lnc = sum(math.log((n - i) / (h - i)) for i in range(h))
    if shape == 0:
        got = [pu.log_binomial(p=ps[0], n=n, hits=h)]
        got = [g.item() if isinstance(g, np.ndarray) else g for g in got]
    else:
        a = np.empty(shape, dtype=object if S.symbolic else np.float64)
        for i in range(shape):
            a[i] = ps[i]
        r = pu.log_binomial(p=a, n=n, hits=h)
        S.prove(tuple(r.shape) == (shape,), 'one value per probability')
        S.prove(sand(*[x == y for x, y in zip(a, ps)]), 'the given probabilities are not modified')
        got = list(r)
    for p, g in zip(ps, got):
        S.prove(same(S, g, expected(S, lnc, n, h, p), 0.02), 'log likelihood of the hits', lambda: f'n={n} hits={h} p={p}: {g}')


def any_counts(S):
    """Any number of shots and hits: the factorial part abstracted."""
    if not S.symbolic:
        n, h, p = S.int('n', 0), S.int('h', 0), S.real('p', -0.5, 1.5)
        S.assume(h <= n and n < 10**7)
        return binomial_at(S, n, h, p)
    L, pu = load_pu(S)
    F = core.z3.Function('lnfact', core.z3.IntSort(), core.z3.RealSort())
    pu.log_factorial = lambda n: SymReal(F(core.coerce(n)))
    n, h, p = S.int('n', 0), S.int('h', 0), S.real('p', -0.5, 1.5)
    S.assume(h <= n)
    # Products of counts and logarithms stay comparable only syntactically: name them.
    got = pu.log_binomial(p=p, n=n, hits=h)
    got = got.item() if isinstance(got, np.ndarray) else got
    lnc = SymReal(F(n.t)) - SymReal(F(core.coerce(n - h))) - SymReal(F(core.coerce(h)))
    S.prove(same(S, got, expected(S, lnc, n, h, p), 1e-6), 'log likelihood of the hits', lambda: f'n={n} hits={h} p={p}: {got}')


def binomial_at(S, n, h, p):
    L, pu = load_pu(S)
    lnc = math.lgamma(n + 1) - math.lgamma(h + 1) - math.lgamma(n - h + 1)
    got = pu.log_binomial(p=p, n=n, hits=h)
    S.prove(same(S, float(got), expected(S, lnc, n, h, p), 0.02), 'log likelihood of the hits', lambda: f'n={n} hits={h} p={p}: {got}')


def grid(S, shape, before, n, h, given=False):
    """Arrays of two dimensions and many elements: some given (ends and beyond included), two symbolic; other arrays and counts evaluated before."""
    L, pu = load_pu(S)
    for bp, bn, bh in before:
        pu.log_binomial(p=np.array(bp), n=bn, hits=bh)
    size = 1
    for d in shape:
        size *= d
    flat = [[0.0, 1.0, 0.25, 1e-9, 0.999, -0.5, 2.0, 0.5, 1e-300][i % 9] for i in range(size)]
    if not given:
        flat[size // 2], flat[-1] = S.real('p0', -0.5, 1.5), S.real('p1', -0.5, 1.5)
    else:
        flat[-1] = S.choice('last', [0.0, 0.125, 1.0])
    a = np.empty(size, dtype=object if S.symbolic else np.float64)
    for i, v in enumerate(flat):
        a[i] = v
    a = a.reshape(shape)
    r = pu.log_binomial(p=a, n=n, hits=h)
    S.prove(tuple(r.shape) == tuple(shape), 'one value per probability')
    S.prove(sand(*[x == y for x, y in zip(a.reshape(-1), flat)]), 'the given probabilities are not modified')
    lnc = math.lgamma(n + 1) - math.lgamma(h + 1) - math.lgamma(n - h + 1)
    for p, g in zip(flat, r.reshape(-1)):
        S.prove(same(S, g, expected(S, lnc, n, h, p), 0.02), 'log likelihood of the hits', lambda: f'n={n} hits={h} p={p}: {g}')


def jobs(tier):
    out = [job('factorials to 40', small_factorials, cost=5, opts=dict(realize_limit=64)), job('factorial growth', stirling_step, cost=5), job('any counts', any_counts)]
    for n, h in PAIRS:
        for shape in (0, 1, 3) if (n, h) in ((2, 1), (25, 3), (3, 3)) or tier != 'quick' else (0,):
            out.append(job(f'binomial {n} {h} {"array " + str(shape) if shape else "scalar"}', binomial, n=n, h=h, shape=shape))
    old = [([0.0, 0.5, 1.0], 10, 0), ([0.3] * 4, 25, 3), ([[0.0], [1.0]], 7, 7)]
    for shape, before, n, h in (((2, 2), (), 10, 4), ((3, 1), old, 10, 4), ((1, 40), (), 25, 3), ((130,), old, 5, 0), ((2, 3, 2), (), 6, 6), ((1200,), (), 3, 1)):
        out.append(job(f'grid {shape} {n} {h}', grid, shape=shape, before=before, n=n, h=h, cost=4, max_witnesses=3))
    for shape in ((12, 50), (2, 3), (3000,), (2, 20, 30)):
        out.append(job(f'grid {shape} given', grid, shape=shape, before=(), n=9, h=2, given=True, cost=4, max_witnesses=2))
    out.append(job('grid (12, 50)', grid, shape=(12, 50), before=(), n=9, h=2, cost=4, max_witnesses=2))
    return out
