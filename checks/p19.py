"""P19: reading recorded statistics back, and aggregating them, loses and invents nothing."""
import contextlib
import io
import os
import shutil
import sys

from checks.collect import *

BOUNDS = ('2..3 rows in 1..2 files (and nested directories; up to 130 rows of 70 problems in 33 files with a few symbolic counts), all counts and times symbolic (any nonnegative integers / reals), problems identical or '
          'differing in exactly one of the nine identifying fields, columns in any of four orders, several spellings of the same number')
OUTSIDE = 'malformed files'
ASSUMPTIONS = ['rows are independent: interference shows up with three rows']

VARIANTS = {
    'same': {}, 'data_width': dict(data_width=6), 'data_height': dict(data_height=12), 'code_distance': dict(code_distance=3), 'num_qubits': dict(num_qubits=34),
    'rounds': dict(rounds=7), 'noise': dict(noise=0.0010000000000000002), 'circuit_style': dict(circuit_style='SD6b'),
    'preserved_observable': dict(preserved_observable='H'), 'decoder': dict(decoder='internal'),
}
ORDERS = [list(range(13)), list(range(12, -1, -1)), [(5 * i + 3) % 13 for i in range(13)], [(7 * i) % 13 for i in range(13)]]
NOISES = ['0.001', '1e-3', '1.0E-03']


def row_text(S, d, shots, good, secs, order, noise_text):
    cells = dict(d, num_shots=shots, num_correct=good, total_processing_seconds=secs, version=2)
    if d['noise'] == 0.001:
        cells['noise'] = noise_text
    else:
        cells['noise'] = repr(d['noise'])
    return ','.join(str(cells[FIELDS[i]]) for i in order)


def totals(rows):
    out = {}
    for d, n, g, t in rows:
        k = tuple(sorted(d.items()))
        a = out.setdefault(k, [0, 0, 0])
        out[k] = [a[0] + n, a[1] + g, a[2] + t]
    return out


def compare(S, data, rows, ctx):
    want = totals(rows)
    got = {}
    for k, v in data.items():
        kk = tuple(sorted((f, getattr(k, f)) for f in BASE))
        S.prove(kk not in got, 'no problem is listed twice', ctx)
        got[kk] = v
    S.prove(set(got) == set(want), 'exactly the recorded problems appear', lambda: f'{ctx()}: {sorted(got)} vs {sorted(want)}')
    S.prove(sand(*[sand(got[k].num_shots == w[0], got[k].num_correct == w[1]) for k, w in want.items()]), 'counts add up per problem', lambda: f'{ctx()}: {got}')
    S.prove(sand(*[S.close(got[k].total_processing_seconds, w[2], 1e-9, 1e-6) for k, w in want.items()]), 'times add up per problem', ctx)


def read(S, variant, nrows, nfiles, layout, history=False):
    for f in ('d', 'a.csv', 'b.csv', 'agg.csv'):
        shutil.rmtree(f, ignore_errors=True) if os.path.isdir(f) else os.path.exists(f) and os.remove(f)
    L, cd = load(S, lambda **k: 0)
    rows, texts = [], [[], []]
    orders = [S.choice(f'order{i}', ORDERS) for i in range(nfiles)]
    for i in range(nrows):
        d = dict(BASE)
        if i == 1:
            d.update(VARIANTS[variant])
        if i == 2:
            d.update(VARIANTS[S.choice('third', [variant, 'same', 'rounds', 'noise'])])
        n, g, t = S.int(f'n{i}', 0), S.int(f'g{i}', 0), S.real(f't{i}', 0, 1e6)
        S.assume(g <= n)
        rows.append((d, n, g, t))
        j = i % nfiles
        texts[j].append(row_text(S, d, n, g, t, orders[j], NOISES[(i * 2) % 3]))
    if layout == 'directory':
        os.makedirs('d/deep/er', exist_ok=True)
        paths = ['d/x.csv', 'd/deep/er/y.csv'][:nfiles]
        open('d/deep/notes.txt', 'w').write('not,a,csv\n1,2,3\n')
    else:
        paths = ['a.csv', 'b.csv'][:nfiles]
    for p, ts, o in zip(paths, texts, orders):
        with open(p, 'w') as f:
            f.write(','.join(FIELDS[i] for i in o) + '\n' + ''.join(t + '\n' for t in ts))
    ctx = lambda: f'{texts}'
    if history:
        # The files were read by this process before they had these contents.
        now = [open(p).read() for p in paths]
        for p in paths:
            with open(p, 'w') as f:
                f.write(','.join(FIELDS) + '\n' + row_text(S, dict(BASE, rounds=99), 7, 5, 1.5, ORDERS[0], '0.001') + '\n')
        cd.read_recorded_data(*paths)
        for p, t in zip(paths, now):
            with open(p, 'w') as f:
                f.write(t)
    if layout != 'directory':
        compare(S, cd.read_recorded_data(*paths).data, rows, ctx)
    agg = L.get('paper.aggregate_csv_data')
    buf = io.StringIO()
    old = sys.argv
    try:
        sys.argv = ['aggregate'] + (['d'] if layout == 'directory' else paths)
        with contextlib.redirect_stdout(buf):
            agg.main()
    finally:
        sys.argv = old
    with open('agg.csv', 'w') as f:
        f.write(buf.getvalue())
    ctx2 = lambda: f'{texts} aggregated to {buf.getvalue()}'
    S.prove(len(buf.getvalue().strip().split('\n')) == 1 + len(totals(rows)), 'the aggregate has one line per problem', ctx2)
    compare(S, cd.read_recorded_data('agg.csv').data, rows, ctx2)


def many(S, nrows, nfiles, kinds, layout):
    """Many rows of many problems over many files; a few counts symbolic."""
    for f in ('d', 'agg.csv'):
        shutil.rmtree(f, ignore_errors=True) if os.path.isdir(f) else os.path.exists(f) and os.remove(f)
    L, cd = load(S, lambda **k: 0)
    names = sorted(VARIANTS)
    rows, files = [], [[] for _ in range(nfiles)]
    for i in range(nrows):
        d = dict(BASE)
        v = i % kinds
        d.update(VARIANTS[names[v % len(names)]])
        d['data_width'] = d['data_width'] + 2 * (v // len(names))
        open_ = i in (0, nrows // 2, nrows - 1)
        n = S.int(f'n{i}', 0) if open_ else [0, 10**12, 1, 50 * i][i % 4]
        g = S.int(f'g{i}', 0) if open_ else n - n // (i + 2)
        t = S.real(f't{i}', 0, 1e6) if open_ else 0.5 * i
        S.assume(g <= n)
        rows.append((d, n, g, t))
        j = (i * i + i // 3) % nfiles
        files[j].append(row_text(S, d, n, g, t, ORDERS[j % 4], NOISES[i % 3]))
    paths = []
    for j, ts in enumerate(files):
        p = ['d', 'd/x', 'd/x/y', 'd/z'][j % 4] + f'/f{j}.csv'
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as f:
            f.write(','.join(FIELDS[i] for i in ORDERS[j % 4]) + '\n' + ''.join(t + '\n' for t in ts))
        paths.append(p)
    ctx = lambda: f'{nrows} rows in {nfiles} files'
    compare(S, cd.read_recorded_data(*paths).data, rows, ctx)
    agg = L.get('paper.aggregate_csv_data')
    buf = io.StringIO()
    old = sys.argv
    try:
        sys.argv = ['aggregate'] + {'directory': ['d'], 'files': paths, 'mixed': ['d/x'] + [p for p in paths if not p.startswith('d/x')]}[layout]
        with contextlib.redirect_stdout(buf):
            agg.main()
    finally:
        sys.argv = old
    with open('agg.csv', 'w') as f:
        f.write(buf.getvalue())
    S.prove(len(buf.getvalue().strip().split('\n')) == 1 + len(totals(rows)), 'the aggregate has one line per problem', ctx)
    compare(S, cd.read_recorded_data('agg.csv').data, rows, ctx)


def jobs(tier):
    out = []
    q = tier == 'quick'
    for v in VARIANTS:
        out.append(job(f'{v}: 2 rows 1 file', read, variant=v, nrows=2, nfiles=1, layout='files', cost=2))
        out.append(job(f'{v}: 3 rows 2 files', read, variant=v, nrows=3, nfiles=2, layout='files', cost=5))
        if v in ('same', 'noise') or not q:
            out.append(job(f'{v}: directory', read, variant=v, nrows=3, nfiles=2, layout='directory', cost=5))
    for v in ('same', 'rounds'):
        out.append(job(f'{v}: 3 rows 2 files, read before', read, variant=v, nrows=3, nfiles=2, layout='files', history=True, cost=5))
    out.append(job('empty', read, variant='same', nrows=0, nfiles=1, layout='files'))
    for nrows, nfiles, kinds, layout in [(24, 9, 8, 'directory'), (40, 3, 10, 'files'), (130, 5, 70, 'mixed'), (70, 33, 5, 'directory'), (12, 12, 12, 'mixed')]:
        out.append(job(f'{nrows} rows of {kinds} problems in {nfiles} files, {layout}', many, nrows=nrows, nfiles=nfiles, kinds=kinds, layout=layout, cost=5, max_witnesses=3))
    return out
