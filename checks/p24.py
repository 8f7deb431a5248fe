"""P24: reaching a target value, and straight line fits with their plausible ranges."""
import types

import numpy as np
import z3

from checks.common import *
from symx import core, fakenp
from symx.core import PathEnd

BOUNDS = ('target search: any start, step, target and tolerance, any monotone function (one symbolic value per point asked, monotone), up to 7 (quick) / 9 (thorough) questions; '
          'fits: 1..4 points with any outputs (symbolic) at several sets of positions, up to 2 points at any position, and 12 and 40 points (two outputs symbolic) also after other fits; searches of given functions over up to hundreds of questions; any required point, slope, tolerance and cost increase')
OUTSIDE = 'searches that need more questions; float rounding'
ASSUMPTIONS = ['scipy leastsq returns the minimum of a convex parabola, linregress the least squares line', 'the ranges are computed with the target search\'s contract (checked by the search jobs)']


def poly(x):
    """The same number as a sum of monomials."""
    return SymReal(z3.simplify(core.toreal(x.t), som=True, som_blowup=100000)) if isinstance(x, SymNum) else x


def stubs(S):
    opt, st = types.ModuleType('scipy.optimize'), types.ModuleType('scipy.stats')

    def one(v):
        a = fakenp._empty((1,))
        a[0] = v
        return a

    def scalar(v):
        return v.reshape(-1)[0] if isinstance(v, np.ndarray) else v

    def leastsq(func, x0=0.0, args=(), **kw):
        f = lambda s: scalar(func(one(s), *args))
        c, p, m = f(0), f(1), f(-1)
        a, b = (p + m) / 2 - c, (p - m) / 2
        if isinstance(a, SymNum):
            a = poly(a)
            k = core.const_value(a.t)
            a = a if k is None else k
        if a == 0:
            return one(x0 if not isinstance(x0, np.ndarray) else scalar(x0)), 1
        if not isinstance(a, SymNum):
            return one(poly(-b / (2 * a))), 1
        q = SymReal(core.ENG.fresh_real('argmin'))
        S.assume(2 * a * q == -b)
        return one(q), 1

    def linregress(x, y=None, *args, **kw):
        n = len(x)
        sx, sy, sxx, sxy = sum(x), sum(y), sum(a * a for a in x), sum(a * b for a, b in zip(x, y))
        slope, icpt = SymReal(core.ENG.fresh_real('slope')), SymReal(core.ENG.fresh_real('intercept'))
        if isinstance(sx, SymNum) or isinstance(sxx, SymNum):
            S.assume(n * icpt + slope * sx == sy)
            S.assume(icpt * sx + slope * sxx == sxy)
        else:
            fr = core.frac
            det = fr(n) * fr(sxx) - fr(sx) ** 2
            slope = (n * sxy - sx * sy) / det
            icpt = (sy - slope * sx) / n
        return types.SimpleNamespace(slope=slope, intercept=icpt, rvalue=None, pvalue=None, stderr=None)

    opt.leastsq, st.linregress = leastsq, linregress
    return {'scipy.optimize': opt, 'scipy.stats': st}


def load(S, contract=False):
    if not S.symbolic:
        L = S.loader({})
        return L, L.get('probability_util')
    e = {'numpy': fakenp.NUMPY}
    e.update(stubs(S))
    L = S.loader(e)
    pu = L.get('probability_util')
    if contract:
        def reach(*, func, start_x, step, target_y, atol):
            d0 = poly(func(start_x) - target_y)
            if sand(d0 <= atol, -d0 <= atol):
                return start_x
            # A start above the target on a convex function gives a wrong end or none at all (shown by the replay).
            S.prove(d0 <= atol, 'the search starts below its target', lambda: f'start {start_x} target {target_y}')
            t = SymReal(core.ENG.fresh_real('moved'))
            S.assume(t > 0)
            r = poly(start_x + t if step > 0 else start_x - t)
            d = poly(func(r) - target_y)
            ok = sand(d <= atol, -d <= atol)
            if not S.feasible(ok):
                raise ValueError('the search fails: no such point')
            S.assume(ok)
            return r
        pu.binary_intercept = reach
    return L, pu


def intercept(S, calls, increasing):
    """Every monotone function: each answer is a fresh value, ordered like the points asked so far."""
    L, pu = load(S)
    start, target = S.real('start', -100, 100), S.real('target', -100, 100)
    step, atol = S.real('step', -10, 10), S.real('atol', 0, 1, lo_open=True)
    S.assume(step != 0)
    asked = []

    def value(x, limit=True):
        k = len(asked)
        if limit and k >= calls:
            S.assume(False)
        y = S.real(f'y{k}', -200, 200)
        for a, b in asked:
            S.assume(simplies(x <= a, y <= b if increasing else y >= b))
            S.assume(simplies(x >= a, y >= b if increasing else y <= b))
        asked.append((x, y))
        return y

    r = pu.binary_intercept(func=value, start_x=start, step=step, target_y=target, atol=atol)
    ctx = lambda: f'start {start} step {step} target {target} atol {atol} asked {asked} -> {r}'
    n = len(asked)
    near = site(step > 0, r >= start, r <= start) if isinstance(step, SymNum) else (r >= start if step > 0 else r <= start)
    S.prove(near, 'the result lies on the side of the step', ctx)
    slack = 0 if S.symbolic else 1e-9
    hit = sor(*[sand(x == r, y - target <= atol + slack, target - y <= atol + slack) for x, y in asked])
    S.prove(hit, 'the function is within the tolerance of the target at the result', ctx)
    for x, _ in asked[:n]:
        S.prove(site(step > 0, x >= start, x <= start) if isinstance(step, SymNum) else (x >= start if step > 0 else x <= start), 'only points on the side of the step are asked', ctx)
    y0 = asked[0][1] if asked else None
    S.prove(bool(asked) and simplies(sand(asked[0][0] == start, y0 - target <= atol, target - y0 <= atol), r == start), 'a start that is good enough is kept', ctx)


def unreachable(S, step, slopes):
    """A function that levels off before the target."""
    L, pu = load(S)
    start, target = S.real('start', -100, 100), S.real('target', -100, 100)
    atol, y0, top = S.real('atol', 0, 1, lo_open=True), S.real('y0', -100, 100), S.real('top', -100, 100)
    up = slopes == 'up'
    S.assume(y0 <= top if up else y0 >= top)
    S.assume(top < target - atol if up else top > target + atol)
    asked = []

    def value(x):
        asked.append(x)
        if len(asked) > 5000:
            raise Endless
        return y0 if len(asked) == 1 else top
    try:
        r = pu.binary_intercept(func=value, start_x=start, step=step, target_y=target, atol=atol)
        how = f'returned {r}'
    except Endless:
        how = 'does not end'
    except (ValueError, ArithmeticError, RuntimeError, AssertionError):
        how = None
    S.prove(how is None, 'a target that is never reached is an error', lambda: f'start {start} step {step} levels off at {top}, target {target} +- {atol}: {how}')


class Endless(BaseException):
    pass


def arr(S, vals):
    if S.symbolic:
        a = fakenp._empty((len(vals),))
        for i, v in enumerate(vals):
            a[i] = v
        return a
    return np.array([float(v) for v in vals])


def points(S, xs, n):
    if xs is None:
        xs = [S.real(f'x{i}', -10, 10) for i in range(n)]
    ys = [S.real(f'y{i}', -10, 10) for i in range(n)]
    return xs, ys


def eq(S, a, b, tol):
    return a == b if S.symbolic else abs(a - b) <= tol


def cost_of(xs, ys, icpt, slope):
    return sum((icpt + slope * x - y) * (icpt + slope * x - y) for x, y in zip(xs, ys))


def cost(S, xs, n):
    L, pu = load(S)
    xs, ys = points(S, xs, n)
    m, b = S.real('slope', -10, 10), S.real('intercept', -10, 10)
    got = pu.least_squares_cost(xs=arr(S, xs), ys=arr(S, ys), intercept=b, slope=m)
    want = cost_of(xs, ys, b, m)
    S.prove(got == want if S.symbolic else abs(got - want) <= 1e-9 * (1 + abs(want)), 'the cost is the sum of squared residuals', lambda: f'{xs} {ys} {m} {b}: {got}')


def value_of(v):
    return v.reshape(-1)[0] if isinstance(v, np.ndarray) else v


def through(S, xs, n):
    L, pu = load(S)
    xs, ys = points(S, xs, n)
    X, Y = S.real('X', -10, 10), S.real('Y', -10, 10)
    # With every point right above or below the required one all slopes are equally good.
    S.assume(sor(*[x != X for x in xs]))
    S.generic(sor(*[abs(x - X) > 0.05 for x in xs]))
    axs, ays = arr(S, xs), arr(S, ys)
    fit = pu.least_squares_through_point(xs=axs, ys=ays, required_x=X, required_y=Y)
    m, b = value_of(fit.slope), value_of(fit.intercept)
    ctx = lambda: f'{xs} {ys} through ({X}, {Y}): slope {m} intercept {b}'
    S.prove(sand(*[p == q for p, q in zip(list(axs) + list(ays), list(xs) + list(ys))]), 'the given points are not modified', ctx)
    S.prove(eq(S, b + m * X, Y, 1e-6), 'the fit goes through the required point', ctx)
    # Normal equation: no other slope through the point is better.
    if S.symbolic:
        S.prove(sum((x - X) * (m * (x - X) - (y - Y)) for x, y in zip(xs, ys)) == 0, 'no other line through the point is better', ctx)
    else:
        sxx, sxy = sum((x - X) ** 2 for x in xs), sum((x - X) * (y - Y) for x, y in zip(xs, ys))
        best = cost_of(xs, ys, Y - X * (sxy / sxx if sxx else 0), sxy / sxx if sxx else 0)
        S.prove(cost_of(xs, ys, b, m) <= best + 1e-2 * (1 + best), 'no other line through the point is better', ctx)


def slope_fit(S, xs, n):
    L, pu = load(S)
    xs, ys = points(S, xs, n)
    M = S.real('M', -10, 10)
    fit = pu.least_squares_with_slope(xs=arr(S, xs), ys=arr(S, ys), required_slope=M)
    m, b = value_of(fit.slope), value_of(fit.intercept)
    ctx = lambda: f'{xs} {ys} slope {M}: slope {m} intercept {b}'
    S.prove(m == M, 'the fit has the required slope', ctx)
    best = sum(y - M * x for x, y in zip(xs, ys)) / n
    S.prove(b == best if S.symbolic else cost_of(xs, ys, b, m) <= cost_of(xs, ys, best, M) * 1.01 + 1e-2, 'no other intercept is better', ctx)


def best_line(xs, ys):
    """Closed form, linear in ys."""
    fr = core.frac
    n = len(xs)
    mean = sum(fr(x) for x in xs) / n
    sxx = sum((fr(x) - mean) ** 2 for x in xs)
    slope = sum(((fr(x) - mean) / sxx) * y for x, y in zip(xs, ys))
    my = sum(ys) / n
    return slope, my - mean * slope, mean, sxx


def fl(S, v):
    return v if S.symbolic or isinstance(v, SymNum) else float(v)


def output_range(S, xs, target_x):
    L, pu = load(S, contract=True)
    n = len(xs)
    ys = [S.real(f'y{i}', -10, 10) for i in range(n)]
    inc = S.real('inc', 0.01, 10)
    if not S.symbolic:
        ys = [core.frac(y) for y in ys]
    low, high = pu.least_squares_output_range(xs=xs, ys=[fl(S, y) for y in ys], target_x=target_x, cost_increase=inc)
    m, b, mean, sxx = best_line(xs, ys)
    base = b + m * core.frac(target_x)
    v = core.frac(1) / n + (core.frac(target_x) - mean) ** 2 / sxx
    ctx = lambda: f'xs {xs} ys {ys} at {target_x} cost + {inc}: [{low}, {high}], best {base}'
    # The best cost among lines through (target_x, y) is the best cost plus (y - base)^2 / v.
    for r, name in ((low, 'low'), (high, 'high')):
        if S.symbolic:
            extra = poly((r - base) * (r - base) / v)
            S.prove(sand(extra - inc <= 1.1e-5, inc - extra <= 1.1e-5), f'the {name} end costs the given increase', ctx)
        else:
            extra = (r - float(base)) ** 2 / float(v)
            S.prove(abs(extra - inc) <= 0.02 * inc + 0.01, f'the {name} end costs the given increase', ctx)
    tol = 0 if S.symbolic else 1e-6
    S.prove(sand(poly(low - fl(S, base)) <= tol, poly(fl(S, base) - high) <= tol), 'the range contains the best fit', ctx)


def slope_range(S, xs):
    L, pu = load(S, contract=True)
    n = len(xs)
    ys = [S.real(f'y{i}', -10, 10) for i in range(n)]
    inc = S.real('inc', 0.01, 10)
    if not S.symbolic:
        ys = [core.frac(y) for y in ys]
    low, mid, high = pu.least_squares_slope_range(xs=xs, ys=[fl(S, y) for y in ys], cost_increase=inc)
    m, b, mean, sxx = best_line(xs, ys)
    ctx = lambda: f'xs {xs} ys {ys} cost + {inc}: {low} {mid} {high}, best {m}'
    S.prove(eq(S, mid, fl(S, m), 1e-6), 'the middle is the best slope', ctx)
    for r, name in ((low, 'low'), (high, 'high')):
        extra = poly((r - fl(S, m)) * (r - fl(S, m)) * fl(S, sxx))
        ok = sand(extra - inc <= 1.1e-5, inc - extra <= 1.1e-5) if S.symbolic else abs(extra - inc) <= 0.02 * inc + 0.01
        S.prove(ok, f'the {name} end costs the given increase', ctx)
    tol = 0 if S.symbolic else 1e-6
    S.prove(sand(poly(low - fl(S, m)) <= tol, poly(fl(S, m) - high) <= tol), 'the range contains the best fit', ctx)


def long_search(S, slope, start, step, aim, curve):
    """A target far away, found by hundreds of questions: a given function, the target symbolic."""
    L, pu = load(S)
    fr = core.frac
    f = {'line': lambda x: x * slope, 'cube': lambda x: x * x * x * slope, 'kink': lambda x: x * slope if x * slope > 0 else x * slope / 1024}[curve]
    asked = []

    def value(x):
        asked.append(x)
        if len(asked) > 5000:
            raise Endless
        return f(x)
    y0 = f(aim)
    atol = max(abs(y0) * 2.0 ** -30, 2.0 ** -30)
    target = y0 + S.real('delta', 0, fr(4) * fr(atol)) if S.symbolic else y0 + float(S.real('delta', 0, 4 * atol))
    r = pu.binary_intercept(func=value, start_x=start, step=step, target_y=target, atol=atol)
    ctx = lambda: f'{curve} slope {slope} start {start} step {step} target {target} atol {atol} -> {r} after {len(asked)} questions'
    S.prove(r >= start if step > 0 else r <= start, 'the result lies on the side of the step', ctx)
    d = f(r) - target
    S.prove(sand(d <= atol, -d <= atol), 'the function is within the tolerance of the target at the result', ctx)
    S.prove(all((x >= start) if step > 0 else (x <= start) for x in asked), 'only points on the side of the step are asked', ctx)


def used(S, pu):
    """Other searches and fits before."""
    pu.binary_intercept(func=lambda x: x * x, start_x=0.0, step=1.0, target_y=9.0, atol=1e-3)
    a, b = arr(S, [0.0, 1.0, 3.0]), arr(S, [1.0, 0.0, 5.0])
    pu.least_squares_cost(xs=a, ys=b, intercept=1.0, slope=2.0)
    pu.least_squares_with_slope(xs=a, ys=b, required_slope=1.0)
    pu.least_squares_through_point(xs=a, ys=b, required_x=1.0, required_y=0.5)
    return a, b


def big_fit(S, xs, old):
    """Many points: two outputs and what is required symbolic; after other fits, also of the same arrays."""
    L, pu = load(S)
    n = len(xs)
    if old:
        used(S, pu)
    ys = [((i * 37) % 23 - 11) / 4 for i in range(n)]
    ys[n // 3], ys[-1] = S.real('y0', -10, 10), S.real('y1', -10, 10)
    axs, ays = arr(S, xs), arr(S, ys)
    m, b = S.real('slope', -10, 10), S.real('intercept', -10, 10)
    if old:
        pu.least_squares_with_slope(xs=axs, ys=ays, required_slope=3.0)
    X, Y, M = 1.25, S.real('Y', -10, 10), S.real('M', -10, 10)
    if not S.symbolic:
        fxs, fys = [float(x) for x in xs], [float(y) for y in ys]
    else:
        fxs, fys = [core.frac(x) for x in xs], [y if isinstance(y, SymNum) else core.frac(y) for y in ys]
        X = core.frac(X)
    got = pu.least_squares_cost(xs=axs, ys=ays, intercept=b, slope=m)
    want = cost_of(fxs, fys, b, m)
    S.prove(poly(got - want) == 0 if S.symbolic else abs(got - want) <= 1e-7 * (1 + abs(want)), 'the cost is the sum of squared residuals', lambda: f'{n} points: {got}')
    fit = pu.least_squares_with_slope(xs=axs, ys=ays, required_slope=M)
    best = sum(y - M * x for x, y in zip(fxs, fys)) / n
    fb = value_of(fit.intercept)
    S.prove(value_of(fit.slope) == M, 'the fit has the required slope')
    S.prove(poly(fb - best) == 0 if S.symbolic else cost_of(fxs, fys, fb, M) <= cost_of(fxs, fys, best, M) * 1.01 + 1e-2, 'no other intercept is better', lambda: f'{n} points slope {M}: {fb}, best {best}')
    fit = pu.least_squares_through_point(xs=axs, ys=ays, required_x=1.25, required_y=Y)
    fm, fb = value_of(fit.slope), value_of(fit.intercept)
    S.prove(poly(fb + fm * X - Y) == 0 if S.symbolic else abs(fb + fm * X - Y) <= 1e-6, 'the fit goes through the required point', lambda: f'{n} points')
    sxx, sxy = sum((x - X) ** 2 for x in fxs), sum((y - Y) * (x - X) for x, y in zip(fxs, fys))
    opt = sxy / sxx
    S.prove(poly(fm - opt) == 0 if S.symbolic else cost_of(fxs, fys, Y - X * fm, fm) <= cost_of(fxs, fys, Y - X * opt, opt) * 1.01 + 1e-2,
            'no other line through the point is better', lambda: f'{n} points through ({X}, {Y}): {fm}, best {opt}')
    S.prove(sand(*[p == q for p, q in zip(list(axs) + list(ays), list(xs) + list(ys))]), 'the given points are not modified')


SETS = [[0.0, 1.0], [1.0, 2.0, 3.0], [4.0, -1.5, 7.0], [0.0, 1.0, 1.0, 5.0]]


def jobs(tier):
    out = []
    for inc in (True, False):
        out.append(job(f'search {"up" if inc else "down"}', intercept, calls=7 if tier == 'quick' else 9, increasing=inc, cost=20))
    for step in (1.0, -0.5):
        for slopes in ('up', 'down'):
            out.append(job(f'unreachable {slopes} {step}', unreachable, step=step, slopes=slopes, cost=5, max_witnesses=2))
    for n in (1, 2):
        out.append(job(f'cost {n} anywhere', cost, xs=None, n=n))
        out.append(job(f'through {n} anywhere', through, xs=None, n=n))
        out.append(job(f'slope {n} anywhere', slope_fit, xs=None, n=n))
    for xs in SETS + ([[-3.0, 0.5, 2.0, 8.0, 9.0]] if tier != 'quick' else []):
        out.append(job(f'cost {xs}', cost, xs=xs, n=len(xs)))
        out.append(job(f'through {xs}', through, xs=xs, n=len(xs)))
        out.append(job(f'slope {xs}', slope_fit, xs=xs, n=len(xs)))
        for t in (0.0, 2.5, 20.0):
            out.append(job(f'output range {xs} at {t}', output_range, xs=xs, target_x=t, cost=5))
        out.append(job(f'slope range {xs}', slope_range, xs=xs, cost=5))
    # Dyadic numbers, so that floats are exact.
    for slope, start, step, aim, curve in ((1.0, 0.0, 2.0 ** -20, 2.0 ** 20, 'line'), (-1.0, 5.0, 2.0 ** -10, 1e6 + 5, 'line'), (1.0, 0.0, -1.0, -2.0 ** 40, 'line'), (2.0 ** -12, 3.0, 1.0, 2.0 ** 12, 'line'),
                                             (2.0 ** 10, 0.0, 2.0 ** 30, 2.0 ** -15, 'line'), (2.0 ** -6, 1.0, 1.0, 96.0, 'cube'), (1.0, -2.0 ** 12, 1.0, 7.0, 'kink'), (-4.0, 1000.0, -0.5, -2.0 ** 14, 'kink')):
        out.append(job(f'long search {curve} {slope} {start} {step} {aim}', long_search, slope=slope, start=start, step=step, aim=aim, curve=curve, cost=4))
    sizes = [12, 40] + ([150] if tier != 'quick' else [])
    for n in sizes:
        for old in (False, True):
            out.append(job(f'fits {n} points{" used before" if old else ""}', big_fit, xs=[((i * 29) % 31 - 9) / 2 for i in range(n)], old=old, cost=4))
    return out
