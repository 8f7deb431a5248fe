"""P26: combining both observables, extrapolating to low error rates, and the qubit counts this needs."""
import types

from checks.collect import *
from checks import p24

BOUNDS = ('1..4 distances, each with data for either or both observables; counts of shots and errors any (symbolic); per-cell conversion any function; cells per run 1..7; '
          'fits: any logarithms of the error rates (symbolic) at distances {4, 8}, {4, 8, 12}, {3, 7, 11, 15}, {2, 4, 12}; any target error rate; required distances 1..40; '
          'plausible slopes and distances any (symbolic)')
OUTSIDE = 'required distances above 40; float rounding; noise strengths are concrete'
ASSUMPTIONS = ['linregress is the least squares line', 'all runs of a group have the same number of cells', 'the distribution of plausible fits is P24\'s, the per-cell rate P23\'s']

MOD = 'paper.main_render_lambda_figure'


class World:
    """The script with its numerical helpers replaced by arbitrary functions."""

    def __init__(self, S, piece=None, slopes=None, outputs=None):
        self.S = S
        self.asked = []
        self.slope_calls, self.output_calls = [], []
        e = {}
        if S.symbolic:
            from symx import fakenp
            e['numpy'] = fakenp.NUMPY
            e.update(p24.stubs(S))
            e.update(plot_modules())
        self.L = L = S.loader(e)
        pu = L.get('probability_util')
        L.get('collect_data')
        L.get('plotting').total_error_to_per_piece_error = piece or self.piece
        if slopes:
            def slope_range(*, xs, ys, cost_increase):
                self.slope_calls.append((list(xs), list(ys), cost_increase))
                return tuple(slopes)
            pu.least_squares_slope_range = slope_range
        if outputs:
            def output_range(*, xs, ys, target_x, cost_increase):
                self.output_calls.append((list(xs), list(ys), target_x, cost_increase))
                return tuple(outputs)
            pu.least_squares_output_range = output_range
        self.m = L.get(MOD)
        self.cd = L.get('collect_data')

    quiet = False

    def piece(self, error_rate, pieces):
        """Any function of the total rate and the number of pieces."""
        S = self.S
        if self.quiet:
            return float(1000 * error_rate) ** -3
        r = S.real(f'piece{len(self.asked)}', 0, 1)
        for p, k, q in self.asked:
            if k == pieces:
                if not S.symbolic:
                    if p == error_rate:
                        return q
                    continue
                S.assume(simplies(p == error_rate, q == r))
        self.asked.append((error_rate, pieces, r))
        return r

    def rate(self, error_rate, pieces):
        """What the function answered, or None if it was not asked."""
        for p, k, q in self.asked:
            if k == pieces and (p is error_rate or (p == error_rate)):
                return q
        return None


class Nothing(types.ModuleType):
    """A plotting library nobody looks at."""

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        return Nothing(k)

    def __call__(self, *a, **k):
        return Nothing('x')

    def __iter__(self):
        return iter(())


def plot_modules():
    mp, pp, mc, mt, pa = (Nothing(n) for n in ('matplotlib', 'matplotlib.pyplot', 'matplotlib.colors', 'matplotlib.ticker', 'matplotlib.patches'))
    mc.TABLEAU_COLORS = {f'tab:{i}': i for i in range(10)}
    mp.pyplot, mp.colors, mp.ticker, mp.patches = pp, mc, mt, pa
    return {'matplotlib': mp, 'matplotlib.pyplot': pp, 'matplotlib.colors': mc, 'matplotlib.ticker': mt, 'matplotlib.patches': pa}


def entry(W, d, obs, n, good, cells=3, noise=0.001, style='honeycomb_SD6', delta=0, qubits=None):
    k = desc(W.cd, code_distance=d, data_width=d, data_height=d * 3 // 2, num_qubits=(2 * d * d - 1 if 'surface' in style else 60 * d * d // 16) if qubits is None else qubits,
             rounds=cells * d - delta, noise=noise, circuit_style=style, preserved_observable=obs, decoder='internal')
    return k, W.cd.ShotData(num_shots=n, num_correct=good, total_processing_seconds=1.0)


def before(W, h, v):
    """Other data was extrapolated in this process before: same problems, other statistics."""
    style = 'surface_SD6' if h == 'X' else 'honeycomb_SD6'
    W.quiet = True
    rows = [entry(W, d, o, 1000, 900 - d, noise=p, style=style) for d in (4, 8, 12, 16) for o in (h, v) for p in (0.001, 0.002)]
    for g in W.m.LambdaGroup.groups_from_data(W.cd.ProblemShotData(dict(rows))).values():
        g.combo_data, g.has_low_confidence_extrapolation
    W.quiet = False


def combo(S, pattern, cells, delta, obs):
    """pattern: per distance, which observables have data."""
    W = World(S)
    h, v = obs
    rows = []
    for i, (d, which) in enumerate(pattern):
        for o in which:
            n = S.int(f'shots{i}{o}', 0) if len(pattern) == 1 else [1000, 10 ** 8, 7][i]
            g = S.int(f'good{i}{o}', 0)
            S.assume(g <= n)
            rows.append((d, o, n, g))
    order = -1 if cells % 2 else 1
    data = dict(entry(W, d, {'H': h, 'V': v}[o], n, g, cells=cells, delta=delta, style='surface_SD6' if h == 'X' else 'honeycomb_SD6') for d, o, n, g in rows[::order])
    if delta:
        before(W, h, v)
    groups = W.m.LambdaGroup.groups_from_data(W.cd.ProblemShotData(data))
    S.prove(list(groups) == [0.001], 'one group per noise strength', lambda: f'{groups}')
    g = groups[0.001]
    xs, ys = g.combo_data
    ctx = lambda: f'{rows} cells {cells}: {xs} {ys} pieces {W.asked}'
    rates = {(d, o): site(n == 0, 1.0, (n - c) / site(n == 0, 1, n)) if S.symbolic else (1.0 if n == 0 else (n - c) / n) for d, o, n, c in rows}
    want = []
    for d, which in sorted(pattern):
        ph, pv = (rates[d, o if o in which else which[0]] for o in 'HV')
        if sand(ph != 0, pv != 0):
            want.append((d, ph, pv))
    S.prove(list(xs) == [w[0] for w in want] and len(ys) == len(xs), 'the distances with errors in every observable appear, in order', ctx)
    for (d, ph, pv), y in zip(want, ys):
        qh, qv = W.rate(ph, cells), W.rate(pv, cells)
        S.prove(qh is not None and qv is not None, 'both rates are converted to rates per code cell', ctx)
        both = (1 - qh) * (1 - qv)
        S.prove(y == 1 - both if S.symbolic else abs(y - 1 + both) <= 1e-9, 'the combined rate is that of either observable failing in a cell', ctx)
    S.prove(bool(g.has_low_confidence_extrapolation) == (min(sum('H' in w for _, w in pattern), sum('V' in w for _, w in pattern)) < 3), 'fewer than three distances for an observable is low confidence', ctx)


def grouping(S, rows=3):
    """Every group holds the problems of its noise strength, by distance and observable."""
    W = World(S)
    noises = [0.001, 0.002, 0.0010000000000000002]
    count, rows = rows, []
    for i in range(count):
        rows.append((S.choice(f'noise{i}', noises[:2] if i % 2 else noises), [4, 8][i // 2], S.choice(f'obs{i}', 'HVXZ'), S.int(f'n{i}', 1), S.int(f'g{i}', 0)))
    for r in rows:
        S.assume(r[4] <= r[3])
    keys = {(p, d, o in 'HX') for p, d, o, *_ in rows}
    data = dict(entry(W, d, o, n, g, noise=p) for p, d, o, n, g in rows)
    S.assume(len(keys) == len(rows) and len(data) == len(rows))
    before(W, 'H', 'V')
    groups = W.m.LambdaGroup.groups_from_data(W.cd.ProblemShotData(data))
    ctx = lambda: f'{rows}: {groups}'
    S.prove(set(groups) == {r[0] for r in rows}, 'one group per noise strength', ctx)
    for p, g in groups.items():
        S.prove(g.noise == p and g.rep.noise == p, 'a group knows its noise strength', ctx)
        for hor, part in ((True, g.distance_error_pairs_h), (False, g.distance_error_pairs_v)):
            want = {d: (n, c) for q, d, o, n, c in rows if q == p and (o in 'HX') == hor}
            S.prove(set(part) == set(want), 'the distances of the group', ctx)
            S.prove(sand(*[sand(part[d].num_shots == a, part[d].num_correct == b) for d, (a, b) in want.items() if d in part]), 'the statistics of the group', ctx)


def extrapolated_before(W, style):
    """Other groups, of the same noise strength, style and distances, were extrapolated in this process before."""
    h, v = 'HV' if 'honeycomb' in style else 'XZ'
    W.quiet = True
    for skip in (0, 3):
        rows = [entry(W, d, o, 1000, 900 - d * (1 + skip), noise=p, style=style) for d in ((4, 8, 12) if h == 'H' else (3, 7, 11)) for o in (h, v) for p in (0.001, 0.002)]
        for g in W.m.LambdaGroup.groups_from_data(W.cd.ProblemShotData(dict(rows))).values():
            asked_before(g, style)
    W.quiet = False
    del W.slope_calls[:], W.output_calls[:], W.asked[:]


def asked_before(g, style):
    g.combo_data, g.has_low_confidence_extrapolation, g.appears_to_be_suppressing_errors
    g.projected_error(5), g.projected_distance(1e-9), g.projected_required_qubit_count(1e-9, style)
    g.projected_lambda_range(), g.projected_qubit_count_range(1e-9, style)


def logs_group(S, W, xs, style, logs, q=None, past=False):
    """A group whose combined rates have the given logarithms."""
    import math
    if past:
        extrapolated_before(W, style)
    known = []
    vals = {}
    for i, (x, lg) in enumerate(zip(xs, logs)):
        if S.symbolic:
            a = core.SymReal(core.ENG.fresh_real('piece'))
            S.assume(sand(a > 0, a < 1))
            known.append((p24.poly(1 - (1 - a) * (1 - a)), lg))
        else:
            y = math.exp(lg)
            a = -math.expm1(0.5 * math.log1p(-y))
        vals[i + 1] = a

    def piece(error_rate, pieces):
        # Rates are i/100 by construction.
        return vals[int(round(float(error_rate) * 100))]

    W.L.get('plotting').total_error_to_per_piece_error = piece
    if hasattr(W.m, 'total_error_to_per_piece_error'):
        W.m.total_error_to_per_piece_error = piece
    if S.symbolic:
        def hook(x):
            p = p24.poly(x)
            for y, lg in known:
                if p.t.eq(y.t):
                    return lg
            return None
        S.notes['log'] = hook
        S.notes['log_known'] = known
    data = dict(entry(W, x, o, 100, 100 - (i + 1), style=style, qubits=q) for i, x in enumerate(xs) for o in 'HV')
    return W.m.LambdaGroup.groups_from_data(W.cd.ProblemShotData(data))[0.001]


def target_of(S, lt):
    """A target error rate with the given logarithm."""
    import math
    if not S.symbolic:
        return math.exp(lt)
    t = core.SymReal(core.ENG.fresh_real('target'))
    S.assume(sand(t > 0, t < 1))
    S.notes['log_known'].append((p24.poly(t), lt))
    return t


def eq(S, a, b, tol=1e-6):
    return a == b if S.symbolic else abs(a - b) <= tol * (1 + abs(b))


def projections(S, xs, past=False):
    W = World(S)
    logs = [S.real(f'log{i}', -12, -0.001) for i in range(len(xs))]
    g = logs_group(S, W, xs, 'honeycomb_SD6', logs, past=past)
    slope, icpt, _, _ = p24.best_line(xs, [core.frac(v) if not S.symbolic else v for v in logs])
    slope, icpt = p24.poly(slope) if S.symbolic else float(slope), p24.poly(icpt) if S.symbolic else float(icpt)
    ctx = lambda: f'{xs} logs {logs}'
    S.generic(sand(*[sor(v + k > 1e-9, v + k < -1e-9) for v, k in ((slope, 0.02), (icpt, 0.1), (slope, 1))]))
    supp = sor(sand(slope < -0.02, icpt < -0.1), slope < -1)
    S.prove(bool(g.appears_to_be_suppressing_errors) == bool(supp), 'suppression is decided by the fit of the logarithms', ctx)
    d = S.real('distance', 0, 50)
    if past:
        # The same group was asked for other distances and targets before.
        S.assume(slope < -0.001)
        for v in (5, 11):
            g.projected_error(v)
        for v in (1e-3, 1e-12):
            g.projected_distance(v)
    if S.symbolic:
        S.notes['exp_powers'] = (1,)
    from symx.loader import math_shim
    S.prove(S.close(g.projected_error(d), math_shim.exp(slope * d + icpt), 1e-6, 1e-12), 'the projected error follows the fit', ctx)
    S.assume(slope < -0.001)
    lt = S.real('logtarget', -40, -0.01)
    t = target_of(S, lt)
    r = g.projected_distance(t)
    if S.symbolic:
        S.prove(slope * r == lt - icpt, 'the projected distance reaches the target', ctx)
    else:
        S.prove(abs(slope * r - (lt - icpt)) <= 1e-4 * (1 + abs(lt - icpt)), 'the projected distance reaches the target', ctx)


def qubits(style, q0, d0, d):
    fr = core.frac
    if 'surface' in style:
        return (q0 + 1) * fr(d) ** 2 / fr(d0) ** 2 - 1
    d = -(-d // 4) * 4
    return q0 * fr(d) ** 2 / fr(d0) ** 2


def required(S, xs, style, slope, past=False):
    """The fit has the given slope; everything else is arbitrary."""
    W = World(S)
    offset = S.real('offset', -12, -0.001)
    logs = [offset + slope * (x - xs[-1]) - S.notes.get('zero', 0) for x in xs]
    S.assume(sand(*[v < -1e-6 for v in logs]))
    g = logs_group(S, W, xs, style, logs, past=past)
    icpt = offset - slope * xs[-1]
    lt = S.real('logtarget', -40, -0.01)
    t = target_of(S, lt)
    dist = (lt - icpt) / slope
    S.assume(sand(dist > 0, dist <= 40))
    if S.symbolic:
        k = S.int('k', 1, 40)
        S.assume(sand(dist > k - 1, dist <= k))
        k = S.concrete(k)
    else:
        S.assume(abs(dist - round(dist)) > 1e-4)
        import math
        k = math.ceil(dist)
    rep = g.rep
    want = qubits(style, rep.num_qubits, rep.code_distance, k)
    S.assume(want.denominator == 1)
    if past:
        # Another target, at distance 8 (or the nearest that has a whole number of qubits), was asked for before.
        far = target_of(S, icpt + slope * 8)
        g.projected_distance(far)
        if 'honeycomb' in style or S.symbolic:
            g.projected_required_qubit_count(far, style)
    got = g.projected_required_qubit_count(t, style)
    S.prove(eq(S, got, want if S.symbolic else float(want), 1e-9), 'the qubit count is that of the required distance', lambda: f'{xs} {style} slope {slope} offset {offset} target ln {lt} distance {dist}: {got}')


def lambdas(S, xs, past=False):
    slopes = [S.real(f's{i}', -5, 5) for i in range(3)]
    W = World(S, slopes=slopes)
    logs = [S.real(f'log{i}', -12, -0.001) for i in range(len(xs))]
    if S.symbolic:
        S.notes['exp_powers'] = (2, -2, -1)
    g = logs_group(S, W, xs, 'honeycomb_SD6', logs, past=past)
    out = g.projected_lambda_range()
    ctx = lambda: f'{xs} logs {logs}: {out} from {slopes} calls {W.slope_calls}'
    if len(xs) <= 1:
        S.prove(sand(*[S.close(v, 1, 1e-9, 1e-9) for v in out]) and len(out) == 3, 'without a fit lambda is one', ctx)
        return
    from symx.loader import math_shim
    S.prove(len(W.slope_calls) >= 1, 'the plausible slopes are asked for', ctx)
    for cx, cy, inc in W.slope_calls:
        S.prove([float(x) for x in cx] == [float(x) for x in xs] and len(cy) == len(logs), 'the fit is of error against distance', ctx)
        S.prove(sand(*[eq(S, a, b) for a, b in zip(cy, logs)], inc == 1), 'the fit is of the logarithms, with a cost increase of one', ctx)
    S.prove(len(out) == 3, 'three values', ctx)
    for v, s in zip(out, slopes):
        e = math_shim.exp(s)
        if S.symbolic:
            S.prove(v * (e * e) == 1, 'lambda is the suppression per two units of distance', ctx)
        else:
            S.prove(abs(v * e * e - 1) <= 1e-6, 'lambda is the suppression per two units of distance', ctx)


def count_range(S, xs, style, past=False):
    ds = [S.real(f'd{i}', 0, 40, lo_open=True) for i in range(2)]
    W = World(S, outputs=ds)
    logs = [S.real(f'log{i}', -12, -0.001) for i in range(len(xs))]
    ks = []
    import math
    for i, d in enumerate(ds):
        if S.symbolic:
            k = S.int(f'k{i}', 1, 40)
            S.assume(sand(d > k - 1, d <= k))
            if i:
                S.assume(ds[0] <= ds[1])
                S.assume(sor(k == ks[0], k == ks[0] + 1, k == ks[0] + 5, k == 40))
            ks.append(S.concrete(k))
        else:
            ks.append(math.ceil(d))
    g = logs_group(S, W, xs, style, logs, past=past)
    want = [qubits(style, g.rep.num_qubits, g.rep.code_distance, k) for k in ks]
    S.assume(all(w.denominator == 1 for w in want))
    lt = S.real('logtarget', -40, -0.01)
    t = target_of(S, lt)
    out = g.projected_qubit_count_range(t, style)
    ctx = lambda: f'{xs} {style} distances {ds}: {out} calls {W.output_calls}'
    S.prove(len(W.output_calls) >= 1, 'the plausible distances are asked for', ctx)
    for cx, cy, tx, inc in W.output_calls:
        S.prove([float(x) for x in cy] == [float(x) for x in xs] and len(cx) == len(logs), 'the fit is of distance against error', ctx)
        S.prove(sand(*[eq(S, a, b) for a, b in zip(cx, logs)], eq(S, tx, lt), inc == 1), 'the fit is of the logarithms, at the target\'s, with a cost increase of one', ctx)
    S.prove(len(out) == 2 and sand(*[eq(S, o, w if S.symbolic else float(w), 1e-9) for o, w in zip(out, want)]), 'the qubit counts are those of the plausible distances', ctx)


def jobs(tier):
    q = tier == 'quick'
    out = [job('groups', grouping, rows=3 if q else 4, cost=100)]
    pats = [[(4, 'HV')], [(4, 'HV'), (8, 'HV')], [(8, 'H'), (4, 'V')], [(12, 'V'), (4, 'HV'), (8, 'VH')], [(2, 'H'), (4, 'H'), (8, 'HV')], []]
    if not q:
        pats += [[(4, 'HV'), (8, 'HV'), (12, 'HV')], [(3, 'V'), (7, 'VH'), (11, 'H'), (15, 'HV')]]
    for i, pat in enumerate(pats):
        if not pat:
            continue
        for cells, delta in [(3, 0), (1, 0), (4, 1), (7, 1)] if i < 2 or not q else [(3, 0), (2, 1)]:
            out.append(job(f'combined {pat} cells {cells}-{delta}', combo, pattern=pat, cells=cells, delta=delta, obs=('H', 'V') if i % 2 == 0 else ('X', 'Z'), cost=3 ** len(pat)))
    sets = [[4, 8], [4, 8, 12], [3, 7, 11, 15], [2, 4, 12]]
    for xs in sets:
        out.append(job(f'projections {xs}', projections, xs=xs))
    for xs in [[4]] + sets:
        out.append(job(f'lambda {xs}', lambdas, xs=xs))
    for style, ss in (('surface_SD6', [[3, 7], [3, 7, 11, 15]]), ('honeycomb_SI1000', [[4, 8], [8, 12, 16]])):
        for xs in ss:
            out.append(job(f'qubit range {style} {xs}', count_range, xs=xs, style=style, cost=20, opts=dict(realize_limit=60), max_witnesses=10))
            for slope in (-0.25, -0.75) if q else (-0.25, -0.5, -0.75):
                out.append(job(f'qubits {style} {xs} slope {slope}', required, xs=xs, style=style, slope=slope, cost=10, opts=dict(realize_limit=60)))
    out.append(job('projections, not the first', projections, xs=[4, 8, 12], past=True))
    out.append(job('lambda, not the first', lambdas, xs=[4, 8, 12], past=True))
    for style, xs in (('surface_SD6', [3, 7]), ('honeycomb_SI1000', [4, 8])):
        out.append(job(f'qubit range {style} {xs}, not the first', count_range, xs=xs, style=style, past=True, cost=20, opts=dict(realize_limit=60), max_witnesses=6))
        out.append(job(f'qubits {style} {xs}, not the first', required, xs=xs, style=style, slope=-0.5, past=True, cost=10, opts=dict(realize_limit=60), max_witnesses=6))
    return out
