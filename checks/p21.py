"""P21: searching a monotone function, and the error rate intervals computed with it."""
import math

from checks.collect import *

BOUNDS = ('search: any integer start (symbolic), widths 0..14 (quick) / 0..40 (thorough), every nondecreasing function on the interval (one symbolic real per '
          'point, optionally -infinity at the low end), any target; error rate intervals: some 30 shot counts from 1 to 10^9 (and those around integers in the code), any number of errors '
          '(symbolic), any likelihood ratio in (0, 1), likelihood any strictly unimodal function')
OUTSIDE = 'wider search intervals (one more halving each); single precision rounding of likelihoods'
ASSUMPTIONS = ['the interval computation is checked against the search\'s contract (proved by the search jobs), the likelihood against unimodality']


def load_pu(S):
    L = S.loader({'numpy': fakenp.NUMPY} if S.symbolic else {})
    return L, L.get('probability_util')


def shots():
    """Shot counts looked at: those around integers the code compares with are added."""
    base = list(range(1, 13)) + [19, 20, 21, 30, 50, 99, 100, 101, 255, 256, 1000, 1001, 4096, 12345, 10**5, 999999, 10**6, 10**6 + 1, 10**7, 10**8, 10**9]
    for k in source_ints(('collect_data.py', 'probability_util.py'), 3, 10**9):
        base += [k - 1, k, k + 1]
    return sorted(set(base))


def search(S, width, lowinf, past=False):
    L, pu = load_pu(S)
    m = S.int('start', -10**6, 10**6)
    if past:
        for t in (-3, 0.5, 8):
            pu.binary_search(func=lambda x: 2.0 * x, min_x=0, max_x=width, target=t)
            pu.binary_search(func=lambda x: float(t > 0), min_x=m, max_x=m + width, target=t)
    t = S.real('target', -1000, 1000)
    f = [S.real(f'f{i}', -1000, 1000) for i in range(width + 1)]
    for a, b in zip(f, f[1:]):
        S.assume(a <= b)
    if lowinf:
        f[0] = float('-inf')
    calls = [0]

    def func(x):
        d = int(S.concrete(x - m))
        S.prove(0 <= d <= width, 'the function is only asked inside the interval', lambda: f'width {width} asked {d}')
        calls[0] += 1
        return f[d]
    r = pu.binary_search(func=func, min_x=m, max_x=m + width, target=t)
    d = S.concrete(r - m)
    ctx = lambda: f'width {width} start {m} target {t} values {f}: result {d}'
    S.prove(d == int(d) and 0 <= d <= width, 'the result lies in the interval', ctx)
    d = int(d)
    if isinstance(f[d], float) and math.isinf(f[d]):
        S.prove(width == 0, 'an infinitely wrong point is never the best of several', ctx)
        return
    e = abs(f[d] - t)
    S.prove(sand(*[e <= abs(g - t) + 1e-9 for g in f if not (isinstance(g, float) and math.isinf(g))]), 'the result is the best point of the interval', ctx)
    S.prove(calls[0] <= 2 * math.ceil(math.log2(width + 2)) + 4, 'the search is logarithmic', ctx)


LB = core.z3.Function('lb', core.z3.RealSort(), core.z3.RealSort())


def intervals(S, n, ratio_kind, past=False):
    """likely_error_rate_bounds."""
    S.notes['log_plain'] = False
    e = S.int('errors', 0, n)
    # With a past: also a ratio that was asked for before.
    ratio = 0.5 if past and S.choice('same ratio', [False, True]) else S.real('ratio', 1e-12, 0.999)
    pts = []

    def lb(p):
        """An arbitrary strictly unimodal likelihood with its peak at e/n."""
        if isinstance(p, (int, float)):
            p = SymReal(core.rv(p))
        t = core.z3.simplify(core.toreal(p.t))
        if not any(q.eq(t) for q in pts):
            peak = core.toreal(core.coerce(e)) / n
            for q in pts + [core.z3.simplify(peak)]:
                for a, b in ((q, t), (t, q)):
                    core.ENG._add(core.z3.Implies(core.z3.And(a < b, b <= peak), LB(a) < LB(b)))
                    core.ENG._add(core.z3.Implies(core.z3.And(a > b, b >= peak), LB(a) < LB(b)))
                core.ENG._add(core.z3.Implies(t == q, LB(t) == LB(q)))
            pts.append(t)
            core.ENG.last_model = None
        return SymReal(LB(t))

    before = [True] if past else []
    if S.symbolic:
        L, pu = load_pu(S)
        real = pu.log_binomial, pu.binary_search

        def log_binomial(*, p, n, hits):
            if before:
                return real[0](p=p, n=n, hits=hits)
            S.prove(hits == e, 'likelihoods are those of the seen errors')
            return lb(p)
        k = [0]

        def contract(*, func, min_x, max_x, target):
            if before:
                return real[1](func=func, min_x=min_x, max_x=max_x, target=target)
            k[0] += 1
            r = SymInt(core.ENG.fresh_int('found'))
            core.ENG._add(core.z3.And(r.t >= core.coerce(min_x), r.t <= core.coerce(max_x)))
            core.ENG.last_model = None
            v = func(r)
            up, dn = func(r + 1), func(r - 1)
            S.assume(sor(v == target, sand(v < target, sor(r == max_x, up > target)), sand(v > target, sor(r == min_x, dn < target))))
            return r
        pu.log_binomial, pu.binary_search = log_binomial, contract
        cd = L.get('collect_data')
        value, tol = lb, 1e-9
    else:
        L = S.loader()
        cd = L.get('collect_data')
        pu = L.get('probability_util')
        value = lambda p: float(pu.log_binomial(p=p, n=n, hits=e))
        # Likelihoods are stored in single precision.
        tol = 1e-3 + 3e-6 * n
    earlier = []
    if past:
        # intervals of other records, and of this one before it grew, were asked for before
        for a, b in ((3, 1), (n, n // 2), (n + 1, n)):
            for r in (0.5, 1e-3):
                x = cd.ShotData(num_shots=a, num_correct=b)
                x.likely_error_rate_bounds(desired_ratio_vs_max_likelihood=r)
                earlier.append(x)
        before.clear()
    if earlier and S.choice('grown', [False, True]):
        d = earlier[0]
        d.num_shots, d.num_correct = n, n - e
    else:
        d = cd.ShotData(num_shots=n, num_correct=n - e)
    low, high = d.likely_error_rate_bounds(desired_ratio_vs_max_likelihood=ratio)
    ctx = lambda: f'{n} shots {e} errors ratio {ratio}: [{low}, {high}]'
    S.prove(sand(low >= -1e-12, low * n <= e + 1e-9, high * n >= e - 1e-9, high <= 1 + 1e-12), 'the interval lies in [0, 1] and contains the estimate', ctx)
    target = value(e / n) + (core.slog(ratio) if S.symbolic else math.log(ratio))
    step = 1.0101 / (100 * n)
    # Within one grid step of where the likelihood crosses the requested ratio.
    if low - step > 0:
        S.prove(value(low - step) <= target + tol, 'below the interval the likelihood is worse than requested', ctx)
    if (low + step) * n < e:
        S.prove(value(low + step) >= target - tol, 'inside the interval (low end) the likelihood is as requested', ctx)
    if high + step < 1:
        S.prove(value(high + step) <= target + tol, 'above the interval the likelihood is worse than requested', ctx)
    if (high - step) * n > e:
        S.prove(value(high - step) >= target - tol, 'inside the interval (high end) the likelihood is as requested', ctx)
    if e == 0:
        S.prove(S.close(low, 0, 0, 1e-9), 'no errors: the interval starts at zero', ctx)
    if e == n:
        S.prove(S.close(high, 1, 0, 1e-9), 'only errors: the interval ends at one', ctx)


def jobs(tier):
    out = []
    for w in range(15 if tier == 'quick' else 41):
        for inf in (False, True):
            out.append(job(f'search width {w}{" -inf" if inf else ""}', search, width=w, lowinf=inf, cost=w, attrs=dict(mod_pick=False)))
    for w in (1, 3, 6, 9):
        out.append(job(f'search width {w}, not the first', search, width=w, lowinf=False, past=True, cost=w, attrs=dict(mod_pick=False)))
    for n in shots():
        out.append(job(f'interval {n} shots', intervals, n=n, ratio_kind=None, cost=8, max_witnesses=4 if n < 10**6 else 2))
    for n in (2, 7, 100, 1000):
        out.append(job(f'interval {n} shots, not the first', intervals, n=n, ratio_kind=None, past=True, cost=8, max_witnesses=4))
    return out
