"""P28: the figures show exactly the recorded data, in the panel that names it."""
import types

import numpy as np

from checks.collect import *

BOUNDS = ('statistics of every plotted problem symbolic (any counts), the conversion to per-cell rates and the intervals any functions; up to 3 noise strengths and 3 sizes per curve, '
          'up to 40 curves in one plot; every panel of the threshold, line fit, lambda, teraquop and detection fraction figures, filled or empty')
OUTSIDE = 'how matplotlib draws what it is given; colours and markers'
ASSUMPTIONS = ['recorded problems have at least one shot', 'the interval is P21\'s, the per-cell rate P23\'s, the extrapolations P26\'s']


class Axis:
    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        return lambda *a, **kw: None


class Axes:
    def __init__(self):
        self.curves, self.bands, self.dots = [], [], []
        self.title = self.ylabel = self.xlabel = ''
        self.off = False
        self.logs = set()
        self.legends = 0
        self.ticks = {}
        self.xaxis, self.yaxis = Axis(), Axis()

    def plot(self, xs, ys, *a, label=None, **k):
        self.curves.append((list(xs), list(ys), label))

    def errorbar(self, xs, ys, *a, label=None, **k):
        self.plot(xs, ys, label=label)

    def fill_between(self, xs, lo, hi, **k):
        self.bands.append((list(xs), list(lo), list(hi)))

    def scatter(self, xs, ys, *a, label=None, **k):
        self.dots.append((list(xs), list(ys), label))

    def loglog(self, *a, **k):
        self.logs |= {'x', 'y'}
        if a:
            self.plot(*a, **k)

    def semilogx(self, *a, **k):
        self.logs |= {'x'}
        if a:
            self.plot(*a, **k)

    def semilogy(self, *a, **k):
        self.logs |= {'y'}
        if a:
            self.plot(*a, **k)

    def set_xscale(self, v, **k):
        (self.logs.add if v == 'log' else self.logs.discard)('x')

    def set_yscale(self, v, **k):
        (self.logs.add if v == 'log' else self.logs.discard)('y')

    def set(self, **k):
        for a, v in k.items():
            getattr(self, 'set_' + a)(v)

    def legend(self, *a, **k):
        self.legends += 1

    def set_title(self, t, **k):
        self.title = t

    def set_ylabel(self, t, **k):
        self.ylabel = t

    def set_xlabel(self, t, **k):
        self.xlabel = t

    def axis(self, a=None, *r, **k):
        self.off = self.off or a in ('off', False)

    def set_xticks(self, t, labels=None, **k):
        self.ticks['x'] = list(t)
        if labels is not None:
            self.ticks['xl'] = list(labels)

    def set_yticks(self, t, labels=None, **k):
        self.ticks['y'] = list(t)
        if labels is not None:
            self.ticks['yl'] = list(labels)

    def set_xticklabels(self, t, **k):
        self.ticks['xl'] = list(t)

    def set_yticklabels(self, t, **k):
        self.ticks['yl'] = list(t)

    def get_legend_handles_labels(self):
        ls = [c[2] for c in self.curves + self.dots if c[2] is not None]
        return list(ls), ls

    def get_title(self):
        return self.title

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        return lambda *a, **kw: None


class Figure:
    def __init__(self):
        self.axes = []
        self.saves = []

    def _grid(self, nrows=1, ncols=1, squeeze=True):
        a = np.empty((nrows, ncols), dtype=object)
        for i in np.ndindex(a.shape):
            a[i] = Axes()
            self.axes.append(a[i])
        self.grid = a
        if not squeeze:
            return a
        return a.item() if a.size == 1 else a.squeeze()

    def add_gridspec(self, nrows=1, ncols=1, **k):
        return types.SimpleNamespace(subplots=lambda *a, squeeze=True, **kw: self._grid(nrows, ncols, squeeze))

    def subplots(self, nrows=1, ncols=1, *a, squeeze=True, **k):
        return self._grid(nrows, ncols, squeeze)

    def add_subplot(self, *a, **k):
        return self._grid(1, 1)

    def gca(self, **k):
        return self.axes[-1] if self.axes else self._grid(1, 1)

    def get_axes(self):
        return list(self.axes)

    def savefig(self, path, *a, **k):
        self.saves.append(str(path))

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        return lambda *a, **kw: None


class Module(types.ModuleType):
    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        return lambda *a, **kw: None


def modules():
    mp, pp, mc, mt, pa = (Module(n) for n in ('matplotlib', 'matplotlib.pyplot', 'matplotlib.colors', 'matplotlib.ticker', 'matplotlib.patches'))
    mc.TABLEAU_COLORS = {f'tab:{i}': i for i in range(10)}
    pp.Figure, pp.Axes = Figure, Axes
    pp.figure = lambda *a, **k: Figure()

    def subplots(nrows=1, ncols=1, *a, squeeze=True, **k):
        f = Figure()
        return f, f._grid(nrows, ncols, squeeze)
    pp.subplots = subplots
    pp.shown = []
    pp.show = lambda *a, **k: pp.shown.append(1)
    mp.pyplot, mp.colors, mp.ticker, mp.patches = pp, mc, mt, pa
    mp.use = lambda *a, **k: None
    return {'matplotlib': mp, 'matplotlib.pyplot': pp, 'matplotlib.colors': mc, 'matplotlib.ticker': mt, 'matplotlib.patches': pa}


class World:
    def __init__(self, S, script=None):
        self.S = S
        e = modules()
        self.pp = e['matplotlib.pyplot']
        if S.symbolic:
            from checks import p24
            e['numpy'] = fakenp.NUMPY
            e.update(p24.stubs(S))
        self.L = L = S.loader(e)
        self.cd = cd = L.get('collect_data')
        self.pieces, self.bounds = [], []
        self.ids = {}

        def bounds(shots, *a, desired_ratio_vs_max_likelihood=None, **k):
            """Any interval."""
            for s, r, lo, hi in self.bounds:
                if s is shots and r == desired_ratio_vs_max_likelihood:
                    return lo, hi
            i = len(self.bounds)
            lo, hi = S.real(f'low{i}', 0, 1), S.real(f'high{i}', 0, 1)
            self.bounds.append((shots, desired_ratio_vs_max_likelihood, lo, hi))
            return lo, hi

        cd.ShotData.likely_error_rate_bounds = bounds
        self.pl = L.get('plotting')
        self.pl.total_error_to_per_piece_error = self.piece
        self.m = L.get(script) if script else None

    def piece(self, error_rate, pieces):
        """Any function of the total rate and the number of pieces (one value per distinct term)."""
        for p, k, q in self.pieces:
            if k == pieces and same(p, error_rate):
                return q
        q = self.S.real(f'piece{len(self.pieces)}', 0, 1)
        self.pieces.append((error_rate, pieces, q))
        return q

    def conv(self, error_rate, pieces):
        for p, k, q in self.pieces:
            if k == pieces and same(p, error_rate):
                return q
        return None


def same(a, b):
    if isinstance(a, SymNum) and isinstance(b, SymNum):
        z3 = core.z3
        d = z3.simplify(core.toreal(a.t) - core.toreal(b.t))
        if z3.is_rational_value(d):
            return d.as_fraction() == 0
        # Two values at which unequal terms usually differ, before the solver is asked.
        vs = {v.get_id(): v for v in leaves(d)}
        for k in (7, 12):
            sub = [(v, (z3.IntVal if z3.is_int(v) else z3.RealVal)((k + 1) * (i + 2) + i * i)) for i, v in enumerate(vs.values()) if not z3.is_bool(v)]
            e = z3.simplify(z3.substitute(d, *sub))
            if z3.is_rational_value(e) and e.as_fraction() != 0:
                return False
        return not core.ENG.feasible(core.SymBool(d != 0))
    if isinstance(a, SymNum) or isinstance(b, SymNum):
        return False
    return abs(a - b) <= 1e-9 * abs(b)


def leaves(t, seen=None):
    seen = {} if seen is None else seen
    if t.get_id() in seen:
        return []
    seen[t.get_id()] = t
    if t.num_args() == 0:
        return [t] if t.decl().kind() == core.z3.Z3_OP_UNINTERPRETED else []
    return [v for c in t.children() for v in leaves(c, seen)]


def shots(S, W, name, lo=1):
    n = S.int(f'n_{name}', max(lo, 1))
    g = S.int(f'g_{name}', 0)
    S.assume(g <= n)
    return W.cd.ShotData(num_shots=n, num_correct=g, total_processing_seconds=1.0)


def rate(sd):
    return (sd.num_shots - sd.num_correct) / sd.num_shots


def eq(S, a, b):
    if a is None or b is None:
        return False
    return a == b if S.symbolic else abs(a - b) <= 1e-9 * (1 + abs(b))


def curve_for(S, W, fam, cells):
    """The curve and the band that show a family: [(noise, ShotData)]."""
    fam = sorted(fam, key=lambda t: t[0])
    pts = [(p, W.conv(rate(sd), cells)) for p, sd in fam if bool(sd.num_correct < sd.num_shots)]
    band = []
    for p, sd in fam:
        b = [(lo, hi) for s, r, lo, hi in W.bounds if s is sd and r == 1e-3]
        lo, hi = b[0] if b else (None, None)
        band.append((p, None if lo is None else W.conv(lo, cells), None if hi is None else W.conv(hi, cells)))
    return pts, band


def shows(S, ax, pts, band, label=None):
    """Condition: some curve has these points in this order, and some band these limits."""
    cs, bs = [], []
    for xs, ys, lab in ax.curves:
        if list(xs) == [p for p, _ in pts] and len(ys) == len(pts) and (label is None or lab == label):
            cs.append(sand(*[eq(S, a, b) for a, (_, b) in zip(ys, pts)]) if pts else True)
    for xs, lo, hi in ax.bands:
        if list(xs) == [b[0] for b in band] and len(lo) == len(hi) == len(band):
            bs.append(sand(*[sand(eq(S, l, b[1]), eq(S, h, b[2])) for l, h, b in zip(lo, hi, band)]) if band else True)
    return sand(sor(*cs) if cs else False, sor(*bs) if bs else False)


def data_plot(S, fams, order):
    """fams: [(w, h, d, rounds, [noises], {what else is special about the family})]."""
    fams = [(*f, {})[:6] for f in fams]
    W = World(S)
    rows = []
    for i, (w, h, d, r, ps, more) in enumerate(fams):
        for j, p in enumerate(ps):
            rows.append((i, p, desc(W.cd, data_width=w, data_height=h, code_distance=d, rounds=r, noise=p, **more), shots(S, W, f'{i}_{j}') if len(fams) < 10 else W.cd.ShotData(100, 50 + i, 1.0)))
    rows = rows[::order]
    data = W.cd.ProblemShotData({k: v for _, _, k, v in rows})
    if order < 0:
        # Other statistics of the same problems were plotted in this process before.
        W.pl.plot_data(W.cd.ProblemShotData({k: W.cd.ShotData(1000, 900 - i, 1.0) for i, (_, _, k, _) in enumerate(rows)}), title='other', legend=False)
    fig, ax = W.pl.plot_data(data, title='words')
    ctx = lambda: f'{[(k.data_width, k.noise, v) for _, _, k, v in rows]}: {ax.curves} {ax.bands} pieces {W.pieces}'
    S.prove(ax.title == 'words', 'the title is the given one', ctx)
    S.prove(ax.logs == {'x', 'y'}, 'both axes are logarithmic', lambda: f'{ax.logs}')
    S.prove(not W.pp.shown and not fig.saves, 'nothing is shown or saved unasked', '')
    S.prove(not fams or ax.legends > 0, 'the families are named in a legend', '')
    S.prove(len(ax.curves) == len(fams) and len(ax.bands) == len(fams), 'one curve and one band per problem family', ctx)
    for i, (w, h, d, r, ps, more) in enumerate(fams):
        cells = -(-r // d)
        pts, band = curve_for(S, W, [(p, v) for k, p, _, v in rows if k == i], cells)
        S.prove(shows(S, ax, pts, band, f'{r} rounds, {w}x{h} data'), 'a family\'s curve and band are its converted rates and intervals, by noise strength', ctx)
    for a in 'xy':
        t, l = ax.ticks.get(a), ax.ticks.get(a + 'l')
        if t is not None and l is not None:
            S.prove(len(t) == len(l) and all(abs(float(x) - y) <= 1e-9 * y for x, y in zip(l, t)), 'tick labels name the ticks', lambda: f'{t} {l}')


def given_axes(S, own, show, legend, path):
    """Plotting into given axes adds to them and to nothing else; saving goes to the named file."""
    W = World(S)
    f = Figure()
    ax = f.add_subplot()
    sd = shots(S, W, 'a')
    data = W.cd.ProblemShotData({desc(W.cd): sd})
    k = {} if own else dict(fig=f, ax=ax)
    f2, ax2 = W.pl.plot_data(data, title='t', legend=legend, marker_offset=3, focus_on_threshold=False, out_path=path, show=show, **k)
    if not own:
        S.prove(f2 is f and ax2 is ax, 'the given axes are used', '')
    S.prove(ax2 in f2.axes and len(ax2.curves) == 1 and len(ax2.bands) == 1, 'the data is drawn once', '')
    S.prove(f2.saves == ([path] if path else []), 'the figure is saved where asked', lambda: f'{f2.saves}')
    S.prove(len(W.pp.shown) == int(show), 'the figure is shown if asked', '')
    S.prove((ax2.legends > 0) == legend, 'there is a legend if asked', '')


def script(S, module, plots):
    """A figure script draws the csv files it is given and saves each figure under its name."""
    import os
    import shutil
    import sys
    import tempfile
    tmp = tempfile.mkdtemp()
    argv = sys.argv
    try:
        for p in ('d1/a.csv', 'd1/b.csv', 'd1/c.txt', 'd2/e.csv', 'd2/deep/f.csv', 'one.csv', 'two.dat', 'empty/x.txt'):
            os.makedirs(os.path.dirname(f'{tmp}/{p}'), exist_ok=True)
            open(f'{tmp}/{p}', 'w').close()
        files = {'d1': ['d1/a.csv', 'd1/b.csv'], 'd2': ['d2/e.csv'], 'one.csv': ['one.csv'], 'two.dat': ['two.dat'], 'empty': []}
        args = [a for i, a in enumerate(files) if S.choice(f'given{i}', [True, False])]
        if S.choice('reversed', [False, True]):
            args = args[::-1]
        sys.argv = ['script'] + [f'{tmp}/{a}' for a in args]
        W = World(S, module)
        read, made, data = [], [], object()

        def reader(*paths, **k):
            read.extend(str(p) for p in paths)
            return data
        W.m.read_recorded_data = reader

        def plotter(f, pair):
            def plot(d, *a, **k):
                fig = Figure()
                made.append((f, d, [*a, *k.values()], fig))
                return (fig, np.empty(0)) if pair else fig
            return plot
        for f, pair in plots['draw'].items():
            setattr(W.m, f, plotter(f, pair))
        try:
            W.m.main()
        except ValueError as e:
            S.prove(not args, 'data given is drawn', lambda: f'{args} {e!r}')
            return
        ctx = lambda: f'{args}: read {read} drew {[(m[0], m[2], m[3].saves) for m in made]}'
        S.prove(bool(args), 'without arguments nothing is drawn', ctx)
        S.prove(sorted(read) == sorted(f'{tmp}/{f}' for a in args for f in files[a]), 'exactly the named files and the csv files of the named directories are read, once', ctx)
        S.prove(all(m[1] is data for m in made), 'every figure is drawn from the data read', ctx)
        for path, want in plots['save'].items():
            got = [(m[0], *m[2]) for m in made for s in m[3].saves if s.split('/')[-1] == path]
            S.prove(got == [want], f'{path} is its own figure', ctx)
    finally:
        sys.argv = argv
        shutil.rmtree(tmp)


LAMBDA = {'draw': {'plot_lambda_line_fits_combo': True, 'plot_lambda_combo': True, 'plot_teraquop_combo': True},
          'save': {f'{n}.{x}': w for x in ('pdf', 'png') for n, w in (('linefits_all', ('plot_lambda_line_fits_combo', False)), ('linefits', ('plot_lambda_line_fits_combo', True)),
                                                                     ('lambda', ('plot_lambda_combo',)), ('teraquop', ('plot_teraquop_combo',)))}}
THRESH = {'draw': {'plot_thresholds': False},
          'save': {f'{n}.{x}': ('plot_thresholds', w) for x in ('pdf', 'png') for n, w in (('threshold', True), ('threshold_all', False))}}
FRACTION = {'draw': {'plot_detection_fraction': False}, 'save': {f'detectionfraction.{x}': ('plot_detection_fraction',) for x in ('pdf', 'png')}}


COLS = {'SD6': 'SD6', 'SI1000': 'SI1000', 'EM3': 'EM3_v2'}


def row_of(label):
    label = label.lower()
    kind = 'surface' if 'surface' in label else 'honeycomb' if 'honeycomb' in label else None
    dec = 'internal_correlated' if 'correlated' in label else 'internal' if 'standard' in label else None
    obs = 'H' if 'horizontal' in label else 'V' if 'vertical' in label else 'X' if '\nx ' in label else 'Z' if '\nz ' in label else None
    return kind, dec, obs


def thresholds(S, focused, missing):
    W = World(S, 'paper.main_render_threshold_figure')
    rows = []
    for kind, obss, styles in (('surface', 'XZ', ['SD6', 'SI1000']), ('honeycomb', 'HV', ['SD6', 'SI1000', 'EM3_v2', 'PC3'])):
        for st in styles:
            for o in obss:
                for dec in ('internal', 'internal_correlated', 'pymatching'):
                    if (kind, st, o, dec) == missing:
                        continue
                    n = len(rows)
                    rows.append((kind, st, o, dec, W.cd.ShotData(1000 + n, n + 1, 1.0) if n % 5 else shots(S, W, f'{n}')))
    keys = [desc(W.cd, circuit_style=f'{k}_{st}', preserved_observable=o, decoder=dec, rounds=6, code_distance=2, noise=0.001) for k, st, o, dec, _ in rows]
    W.m.plot_thresholds(W.cd.ProblemShotData({k: W.cd.ShotData(5000, 100 + i, 1.0) for i, k in enumerate(keys)}), focused=not focused)
    fig = W.m.plot_thresholds(W.cd.ProblemShotData(dict(zip(keys, [r[4] for r in rows]))), focused=focused)
    g = fig.grid
    panels(S, W, g, rows, lambda ax, v: shows(S, ax, *curve_for(S, W, [(0.001, v)], 3)), True,
           {(k, dec, o) for k, o, dec in [('surface', 'Z', 'internal_correlated'), ('honeycomb', 'H', 'internal_correlated')]} if focused
           else {(k, dec, o) for k, os in (('surface', 'XZ'), ('honeycomb', 'HV')) for o in os for dec in ('internal', 'internal_correlated')}, missing)


def panels(S, W, g, rows, shown, by_obs, want_rows, missing):
    """Every panel shows the data of its row and column, and every row and column is there once."""
    titles = [next((g[r][c].title for r in range(g.shape[0]) if g[r][c].title), '') for c in range(g.shape[1])]
    labels = [row_of(g[r][0].ylabel) for r in range(g.shape[0])]
    ctx = lambda: f'columns {titles} rows {[g[r][0].ylabel for r in range(g.shape[0])]}'
    S.prove(sorted(titles) == sorted(COLS), 'one column per noise model', ctx)
    S.prove(len(labels) == len(set(labels)) and set(labels) == want_rows, 'one row per code, decoder and observable', ctx)
    for r in range(g.shape[0]):
        for c in range(g.shape[1]):
            kind, dec, obs = labels[r]
            st = COLS.get(titles[c])
            mine = [x for x in rows if x[0] == kind and x[1] == st and x[3] == dec and (not by_obs or x[2] == obs)]
            ax = g[r][c]
            where = lambda: f'row {labels[r]} column {titles[c]}: {ax.curves} {ax.dots} {mine}'
            S.prove(len(ax.curves) + len(ax.dots) == 0 if not mine else len(ax.curves) + len(ax.dots) >= 1, 'a panel shows data exactly if there is some', where)
            if mine:
                S.prove('y' in ax.logs and (not by_obs or 'x' in ax.logs), 'the error rate axis is logarithmic', where)
                S.prove(not ax.off, 'a panel with data is visible', where)
                S.prove(shown(ax, mine[0][4]), 'a panel shows the data its row and column name', where)


def fractions(S, strengths=3):
    W = World(S, 'paper.main_render_detection_fraction_figure')
    names = {'surface_SD6': 'SD6\nSurface Code', 'surface_SI1000': 'SI1000\nSurface Code', 'honeycomb_SD6': 'SD6\nHoneycomb Code', 'honeycomb_SI1000': 'SI1000\nHoneycomb Code',
             'honeycomb_EM3_v2': 'EM3\nHoneycomb Code'}
    rows = []
    for i, st in enumerate(names):
        for p in [0.001, 0.002, 0.01][:1 + i % 3] if strengths == 3 else [k / 1000 for k in range(1, strengths + 1)]:
            for d in (4, 8, 12)[:2 + i % 2]:
                rows.append((st, p, d, shots(S, W, f'{len(rows)}') if len(rows) % 3 == 0 and len(rows) < 30 else W.cd.ShotData(10000, 9000 + len(rows), 1.0)))
    data = W.cd.ProblemShotData({desc(W.cd, circuit_style=st, noise=p, code_distance=d, preserved_observable='-', decoder='detection_fraction'): v for st, p, d, v in rows})
    fig = W.m.plot_detection_fraction(data)
    seen = 0
    for ax in fig.axes:
        st = [k for k, v in names.items() if ''.join(v.split()) == ''.join(ax.title.split())]
        if not st:
            S.prove(not ax.curves, 'only named panels show data', lambda: f'{ax.title}')
            continue
        seen += 1
        mine = [r for r in rows if r[0] == st[0]]
        noises = sorted({r[1] for r in mine})
        ctx = lambda: f'{ax.title}: {ax.curves} {mine}'
        S.prove(sorted(c[2] for c in ax.curves) == sorted(str(p) for p in noises), 'one curve per noise strength, labelled with it', ctx)
        for xs, ys, lab in ax.curves:
            want = {d: v for _, p, d, v in mine if str(p) == lab}
            S.prove(sorted(xs) == sorted(want) and sand(*[eq(S, y, rate(want[x])) for x, y in zip(xs, ys)]), 'a curve shows detection fraction against distance', ctx)
    S.prove(seen == len(names), 'every style has its panel', lambda: f'{[a.title for a in fig.axes]}')


def extrapolated(S, figure, missing):
    """Lambda and teraquop figures: one curve per code and decoder in each noise model's panel."""
    W = World(S, 'paper.main_render_lambda_figure')
    m, cd = W.m, W.cd
    G = m.LambdaGroup
    ask = []

    def val(kind, g, k):
        key = (kind, g.rep.circuit_style, g.rep.decoder, g.noise)
        for a, v in ask:
            if a == key:
                return v
        v = [S.real(f'v{len(ask)}_{i}', 0.1, 1000) for i in range(k)]
        ask.append((key, v))
        return v

    poor = lambda g: (g.rep.circuit_style == 'honeycomb_SD6' and g.noise == 0.002)
    G.appears_to_be_suppressing_errors = property(lambda g: not (g.noise == 0.003 or g.rep.circuit_style == 'surface_SI1000' and g.noise == 0.002))
    G.has_low_confidence_extrapolation = property(poor)
    targets = []
    G.projected_lambda_range = lambda g: tuple(val('lambda', g, 3))

    def count(g, target_error=None, style=None, **k):
        targets.append((target_error, style == g.rep.circuit_style))
        return val('count', g, 1)[0]

    def crange(g, target_probability=None, style=None, **k):
        targets.append((target_probability, style == g.rep.circuit_style))
        return tuple(val('range', g, 2))
    G.projected_required_qubit_count, G.projected_qubit_count_range = count, crange
    rows = []
    for kind, obss, styles in (('surface', 'XZ', ['SD6', 'SI1000']), ('honeycomb', 'HV', ['SD6', 'SI1000', 'EM3_v2'])):
        for st in styles:
            for dec in ('internal', 'internal_correlated'):
                if (kind, st, dec) == missing:
                    continue
                for p in (0.003, 0.001, 0.002):
                    for o in obss:
                        rows.append((kind, st, dec, p, desc(cd, circuit_style=f'{kind}_{st}', decoder=dec, noise=p, preserved_observable=o)))
    data = cd.ProblemShotData({r[4]: cd.ShotData(1000, 900, 1.0) for r in rows})
    fig = (m.plot_lambda_combo if figure == 'lambda' else m.plot_teraquop_combo)(data)[0]
    seen = []
    known = {(r[0], r[1], r[2]) for r in rows}
    got = dict((k, v) for k, v in ask)
    for ax in fig.axes:
        st = COLS.get(ax.title)
        S.prove(st is not None, 'every panel is a noise model\'s', lambda: f'{ax.title}')
        seen.append(st)
        mine = sorted(k for k in known if k[1] == st)
        lab = {f'{k.capitalize()} ({"Correlated" if dec == "internal_correlated" else "Standard"})': (k, dec) for k, _, dec in mine}
        ctx = lambda: f'{ax.title}: {ax.curves} {ax.bands} want {sorted(lab)}'
        S.prove(sorted(str(c[2]) for c in ax.curves) == sorted(lab), 'one curve per code and decoder with data, labelled with them', ctx)
        S.prove(len(ax.bands) == len(lab), 'one band per curve', ctx)
        S.prove(ax.logs == {'x', 'y'}, 'both axes are logarithmic', ctx)
        weak = [('honeycomb_SD6', dec, 0.002) for k, s_, dec in mine if (k, s_) == ('honeycomb', 'SD6')]
        weak = [(k[2], got[('lambda' if figure == 'lambda' else 'count',) + k]) for k in weak if ('lambda' if figure == 'lambda' else 'count',) + k in got]
        weak = [(p, v[1] if figure == 'lambda' else v[0]) for p, v in weak]
        marked = [(x, y) for xs, ys, _ in ax.dots for x, y in zip(xs, ys)]
        S.prove(len(marked) == len(weak) and sand(*[sor(*[sand(x == p, eq(S, y, v)) for x, y in marked]) for p, v in weak]) if weak else not marked,
                'exactly the points extrapolated from too few sizes are marked', lambda: f'{ax.title} {marked} {weak}')
        for (xs, ys, label) in ax.curves:
            k, dec = lab.get(label, (None, None))
            style = f'{k}_{st}'
            noises = [0.001] if style == 'surface_SI1000' else [0.001, 0.002]
            S.prove(list(xs) == noises, 'a curve covers the noise strengths at which errors are suppressed, in order', ctx)
            bandok = []
            if figure == 'lambda':
                want = [got.get(('lambda', style, dec, p)) for p in noises]
                conds = [eq(S, y, w[1] if w else None) for y, w in zip(ys, want)]
                ends = [(w[0], w[2]) if w else (None, None) for w in want]
            else:
                want = [got.get(('count', style, dec, p)) for p in noises]
                conds = [eq(S, y, w[0] if w else None) for y, w in zip(ys, want)]
                ends = [got.get(('range', style, dec, p)) or (None, None) for p in noises]
            S.prove(len(ys) == len(noises) and sand(*conds), 'a curve shows the extrapolated values', ctx)
            for bx, lo, hi in ax.bands:
                if list(bx) == noises:
                    bandok.append(sand(*[sand(eq(S, a, e[0]), eq(S, b, e[1])) for a, b, e in zip(lo, hi, ends)]))
            S.prove(sor(*bandok) if bandok else False, 'a curve\'s band shows the plausible range', ctx)
    S.prove(sorted(map(str, seen)) == sorted(COLS.values()), 'every noise model has its panel', lambda: f'{seen}')
    S.prove(all(t == 1e-12 and ok for t, ok in targets), 'the target is one error per 10^12, for the data\'s own style', lambda: f'{targets}')


def fits(S, focus, missing, strengths=3):
    W = World(S, 'paper.main_render_lambda_figure')
    m, cd = W.m, W.cd
    G = m.LambdaGroup
    vals = {}

    def combo(g):
        key = (g.rep.circuit_style, g.rep.decoder, g.noise)
        if key not in vals:
            k = len(vals)
            vals[key] = ([4, 8, 12][:2 + k % 2], [S.real(f'y{k}_{i}', 0.001, 0.4) for i in range(2 + k % 2)])
        return vals[key]
    G.combo_data = property(combo)
    G.linear_fit_d_to_log_err = property(lambda g: types.SimpleNamespace(slope=-0.5, intercept=-1.0))
    G.appears_to_be_suppressing_errors = property(lambda g: g.noise != 0.003)
    dist = {}
    noises = [0.003, 0.001, 0.002] + [k / 1000 for k in range(4, strengths + 1)]

    def projected(g, target_error):
        key = (g.rep.circuit_style, g.rep.decoder, g.noise, float(target_error))
        if key not in dist:
            dist[key] = S.real(f'd{len(dist)}', 0, 100)
        return dist[key]
    G.projected_distance = projected
    rows = []
    for kind, obss, styles in (('surface', 'XZ', ['SD6', 'SI1000']), ('honeycomb', 'HV', ['SD6', 'SI1000', 'EM3_v2'])):
        for st in styles:
            for dec in ('internal', 'internal_correlated'):
                if (kind, st, dec) == missing:
                    continue
                rows.append((kind, st, None, dec, (f'{kind}_{st}', dec)))
    data = cd.ProblemShotData({desc(cd, circuit_style=f'{k}_{st}', decoder=dec, noise=p, preserved_observable='XZ'[i] if k == 'surface' else 'HV'[i]): cd.ShotData(1000, 900, 1.0)
                               for k, st, _, dec, _ in rows for p in noises for i in range(2)})
    fig = m.plot_lambda_line_fits_combo(data, focus)[0]

    def shown(ax, key):
        out = []
        labels = [str(d[2]) for d in ax.dots]
        out.append(sorted(labels) == sorted(str(p) for p in noises))
        for xs, ys, lab in ax.dots:
            v = vals.get(key + (float(lab),))
            out.append(v is not None and list(xs) == list(v[0]) and len(ys) == len(v[1]) and sand(*[eq(S, a, b) for a, b in zip(ys, v[1])]))
        S.prove(len(ax.curves) == strengths - 1, 'a line for every noise strength at which errors are suppressed', lambda: f'{ax.curves}')
        per = []
        for p in noises[1:]:
            # A line per noise strength, through points of its own fit.
            per.append(sor(*[sand(*[eq(S, x, dist.get(key + (p, float(y)))) for x, y in zip(xs, ys)]) for xs, ys, _ in ax.curves]))
        out.append(sand(*per))
        return sand(*out)
    decs = ('internal_correlated',) if focus else ('internal', 'internal_correlated')
    panels(S, W, fig.grid, rows, shown, False, {(k, dec, None) for k in ('surface', 'honeycomb') for dec in decs}, missing)


def jobs(tier):
    q = tier == 'quick'
    out = [job(f'given axes {i}', given_axes, own=bool(i & 1), show=bool(i & 2), legend=bool(i & 4), path='fig.png' if i & 8 else None) for i in range(16)]
    for n, pl in (('lambda', LAMBDA), ('threshold', THRESH), ('detection_fraction', FRACTION)):
        out.append(job(f'script {n}', script, module=f'paper.main_render_{n}_figure', plots=pl))
    A, B, C = (4, 6, 4, 12, [0.001, 0.002, 0.01]), (8, 12, 8, 24, [0.003, 0.0001]), (12, 18, 12, 31, [0.001])
    for order in (1, -1):
        for i, fams in enumerate([[], [A], [B, C], [C, A], [A, B, C]]):
            out.append(job(f'curves {i} {order}', data_plot, fams=fams, order=order, cost=2 ** sum(len(f[4]) for f in fams)))
    # Families that a part of their description tells apart.
    for more in (dict(preserved_observable='H'), dict(circuit_style='EM3_v2'), dict(decoder='internal'), dict(code_distance=3)):
        A2 = (4, 6, more.get('code_distance', 4), 12, [0.001, 0.002], {k: v for k, v in more.items() if k != 'code_distance'})
        out.append(job(f'curves apart by {next(iter(more))}', data_plot, fams=[A, A2, B], order=1, cost=64))
    out.append(job('many curves', data_plot, fams=[(4 + 2 * i, 6, 4, 12 + i, [0.001, 0.002]) for i in range(40)], order=1, cost=10))
    for focused in (True, False):
        for missing in (None, ('honeycomb', 'SD6', 'H', 'internal_correlated'), ('surface', 'SI1000', 'Z', 'internal_correlated')):
            out.append(job(f'thresholds {"focused" if focused else "all"} without {missing}', thresholds, focused=focused, missing=missing, cost=10))
        for missing in (None, ('surface', 'SD6', 'internal_correlated'), ('honeycomb', 'EM3_v2', 'internal_correlated')):
            out.append(job(f'line fits {"focused" if focused else "all"} without {missing}', fits, focus=focused, missing=missing))
    for fig in ('lambda', 'teraquop'):
        for missing in (None, ('surface', 'SD6', 'internal_correlated'), ('honeycomb', 'EM3_v2', 'internal')):
            out.append(job(f'{fig} without {missing}', extrapolated, figure=fig, missing=missing))
    out.append(job('detection fractions', fractions))
    out.append(job('detection fractions, many noise strengths', fractions, strengths=25))
    out.append(job('line fits, many noise strengths', fits, focus=True, missing=None, strengths=20))
    return out
