"""P20: statistics algebra - grouping, merging and filtering conserve shots; remaining work follows from them."""
from checks.collect import *

BOUNDS = ('0..4 problems (up to 140 with a few symbolic), all counts, times, limits and thresholds symbolic (any nonnegative values, correct <= shots); grouping keys: every '
          'function from problems to three labels (symbolic choice)')
OUTSIDE = 'more than four problems with everything symbolic'
ASSUMPTIONS = []


def dataset(S, cd, n, live=None):
    items = []
    for i in range(n):
        if live is None or i in live:
            a, g, t = S.int(f'n{i}', 0), S.int(f'g{i}', 0), S.real(f't{i}', 0, 1e6)
        else:
            a, g, t = 7 * i, 6 * i, 0.25 * i
        S.assume(g <= a)
        items.append((desc(cd, rounds=i + 1, noise=0.001 * (i % 2 + 1)), (a, g, t)))
    data = cd.ProblemShotData({d: cd.ShotData(num_shots=v[0], num_correct=v[1], total_processing_seconds=v[2]) for d, v in items})
    return items, data


def same(v, w):
    return sand(v.num_shots == w[0], v.num_correct == w[1], v.total_processing_seconds == w[2])


def untouched(S, data, items, ctx):
    S.prove(list(data.data) == [d for d, _ in items], 'the data set is not modified', ctx)
    S.prove(sand(*[same(data.data[d], v) for d, v in items]), 'the data set is not modified', ctx)


def algebra(S, n, big=None):
    L, cd = load(S, lambda **k: 0)
    items, data = dataset(S, cd, n, None if not big else [0, n // 2, n - 1])
    # Labels of many problems: each its own, a few shared, or text.
    labels = {d: [(i * 7) % n, 'abc'[i * i % 3], ('a', -i)][big - 1] for i, (d, _) in enumerate(items)} if big else {d: S.choice(f'label{i}', ['b', 'a', 'c'][:min(3, i + 2)]) for i, (d, _) in enumerate(items)}
    key = lambda d: labels[d]
    ctx = lambda: f'{items} {list(labels.values())}'
    # Earlier selections of the same data, with other keys.
    other = (lambda d: 'abc'['bca'.index(labels[d])]) if not big else (lambda d: d.rounds % 5)
    data.grouped_by(other), data.merged_by(other), data.filter(lambda d: labels[d] != 'a')
    pick = 'a' if not big else labels[items[n // 2][0]]
    g = data.grouped_by(key)
    used = sorted(set(labels.values()))
    S.prove(list(g) == used, 'groups are the labels in use, in order', ctx)
    for k in used:
        want = [d for d, _ in items if labels[d] == k]
        S.prove(sorted(g[k].data) == sorted(want), 'a group holds exactly its problems', ctx)
        S.prove(sand(*[same(g[k].data[d], v) for d, v in items if labels[d] == k]), 'grouping keeps statistics', ctx)
    untouched(S, data, items, ctx)
    for again in range(2):
        m = data.merged_by(key)
        S.prove(list(m) == used, 'merged keys are the labels in use, in order', ctx)
        for k in used:
            vs = [v for d, v in items if labels[d] == k]
            S.prove(sand(m[k].num_shots == sum(v[0] for v in vs), m[k].num_correct == sum(v[1] for v in vs)), 'merged counts are sums', ctx)
            S.prove(m[k].total_processing_seconds == sum(v[2] for v in vs), 'merged times are sums', ctx)
        untouched(S, data, items, ctx)
    f = data.filter(lambda d: labels[d] == pick)
    S.prove(sorted(f.data) == sorted(d for d, _ in items if labels[d] == pick), 'filtering keeps exactly the selected problems', ctx)
    S.prove(sand(*[same(f.data[d], v) for d, v in items if labels[d] == pick]), 'filtering keeps statistics', ctx)
    untouched(S, data, items, ctx)


def changes(S):
    """with_changes replaces exactly the named fields."""
    L, cd = load(S, lambda **k: 0)
    base = {k: S.int('o_' + k, 0) if isinstance(v, int) else S.real('o_' + k, 0, 1) if isinstance(v, float) else 'old ' + k for k, v in BASE.items()}
    new = {k: S.int('n_' + k, 0) if isinstance(v, int) else S.real('n_' + k, 0, 1) if isinstance(v, float) else 'new ' + k for k, v in BASE.items()}
    fields = S.choice('fields', [[]] + [[k] for k in BASE] + [list(BASE), ['rounds', 'noise'], ['data_width', 'code_distance', 'decoder']])
    d = cd.DecodingProblemDesc(**base)
    e = d.with_changes(**{k: new[k] for k in fields})
    for k in BASE:
        S.prove(getattr(e, k) == (new[k] if k in fields else base[k]), 'exactly the named fields change', lambda: f'{fields} {k}: {e}')
        S.prove(getattr(d, k) == base[k], 'the original stays')


def remaining(S, dyadic=False, grown=False):
    L, cd = load(S, lambda **k: 0)
    n, g, t = S.int('n', 0), S.int('g', 0), S.real('t', 0, 1e6)
    S.assume(g <= n)
    ms, me = S.int('max_shots', 0), S.int('max_errors', 0)
    # Thresholds that floats represent exactly decide what happens exactly on the threshold.
    th = S.choice('threshold', [0.5, 0.25, 0.75, 1.0]) if dyadic else S.real('threshold', 0, 1, lo_open=True)
    d = cd.ShotData(num_shots=n, num_correct=g, total_processing_seconds=t)
    if grown:
        # Statistics are accumulated: what was asked of the object before says nothing about it now.
        d = cd.ShotData(num_shots=20, num_correct=4, total_processing_seconds=3.5)
        w = d.remaining_work(ms, me, th)
        d.num_errors, d.logical_error_rate
        cd.ShotData(num_shots=20, num_correct=4, total_processing_seconds=3.5).remaining_work(100, 50, 0.9).remaining_time
        try:
            d.num_shots, d.num_correct, d.total_processing_seconds = n, g, t
        except AttributeError:
            raise NotImplementedError('statistics are immutable')
    ctx = lambda: f'n={n} g={g} t={t} max_shots={ms} max_errors={me} threshold={th}'
    e = n - g
    S.prove(d.num_errors == e, 'errors are shots that were not correct', ctx)
    r = d.logical_error_rate
    if n == 0:
        S.prove(r == 1, 'no data counts as failing', ctx)
    else:
        S.prove(sand(S.close(r * n, e, 1e-9, 1e-9), r >= 0, r <= 1), 'error rate is errors per shot', ctx)
    w = d.remaining_work(ms, me, th)
    broke = sand(n >= 10, e >= th * n)
    if not dyadic:
        S.generic(sor(n < 10, abs(e - th * n) > 1e-6))
    fin = sor(n >= ms, e >= me, broke)
    got = w.finished
    if fin:
        S.prove(got, 'finished when a limit is reached', ctx)
        S.prove(sand(w.remaining_shots == 0, w.remaining_errors == 0, w.remaining_time == 0), 'nothing remains when finished', ctx)
        return
    S.prove(snot(got), 'not finished before a limit is reached', ctx)
    S.prove(sand(w.remaining_shots == ms - n, w.remaining_errors == me - e, w.remaining_shots > 0, w.remaining_errors > 0), 'what remains is what is missing', ctx)
    rt = w.remaining_time
    if n == 0:
        S.prove(rt == float('inf'), 'unknown speed means unknown time', ctx)
        return
    # Whichever limit is reached first at the observed speed.
    a = (ms - n) * t
    S.prove(rt * n <= a * (1 + 1e-9) + 1e-9, 'remaining time is at most that of the shots', ctx)
    if e > 0:
        b = (me - e) * t
        S.prove(rt * e <= b * (1 + 1e-9) + 1e-9, 'remaining time is at most that of the errors', ctx)
        S.prove(sor(S.close(rt * n, a, 1e-6, 1e-6), S.close(rt * e, b, 1e-6, 1e-6)), 'remaining time is that of the nearer limit', ctx)
    else:
        S.prove(S.close(rt * n, a, 1e-6, 1e-6), 'remaining time is that of the shots', ctx)


def jobs(tier):
    out = [job(f'algebra {n}', algebra, n=n, cost=3 ** n) for n in range(4 if tier == 'quick' else 5)]
    out.append(job('changes', changes))
    out.append(job('remaining work', remaining, cost=30))
    out.append(job('remaining work, exact thresholds', remaining, dyadic=True, cost=30))
    out.append(job('remaining work of grown statistics', remaining, dyadic=True, grown=True, cost=30))
    for n in (5, 12, 33, 140):
        for big in (1, 2, 3):
            out.append(job(f'algebra {n}, labels {big}', algebra, n=n, big=big, cost=3, max_witnesses=2))
    return out
