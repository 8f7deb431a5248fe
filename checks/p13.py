"""P13: the matching graph says what the error model says."""
import random

from checks.dem import *

BOUNDS = ('error probabilities: any reals in [0, 1); detector coordinates: any reals; repeat counts 1..3 and detector shifts 0..2 symbolic; '
          'up to 3 errors drawn from 14 symptom/frame patterns (with decompositions) placed before, inside and after (nested) loops with shifts; '
          'larger random models (up to 260 detectors, 15 repetitions) with one symbolic probability, coordinate and repeat count')
OUTSIDE = 'error models with more than 3 distinct error instructions per nesting level; probability exactly 1'
ASSUMPTIONS = ['ln is represented by an uninterpreted strictly monotone function, applied to the same argument']

PAT = ['D0', 'D0 D1', 'D1 D0', 'D0 L0', 'D0 D1 L0', 'D0 D1 L1 L0', 'D2 ^ D0 D1', 'D0 L0 ^ D1', 'D0 D1 ^ D2 L1 ^ D1', 'L0', 'L1 ^ D1', 'D0 D1 D2', 'D1 L0', 'D2']


def templates(S, which, e, xs):
    n, sh = (S.int('repeat', 1, 3), S.int('shift', 0, 2)) if which in ('loop', 'nested') else (1, 1)
    x, y, z, w = xs
    if which == 'flat':
        return [('detector', [x, y], 'D0'), e[0], ('detector', [], 'D2'), e[1], ('obs', 'L1'), e[2], ('detector', [z], 'D4')]
    if which == 'shift':
        return [e[0], ('detector', [x, y, z], 'D0'), ('shift', 1, [w]), e[1], ('detector', [x, y], 'D1'), ('shift', 2, []), ('shift', 0, [y, z, w]),
                e[2], ('detector', [x, y, z, 1.0], 'D0')]
    if which == 'loop':
        return [e[0], ('repeat', n, [e[1], ('detector', [x, y], 'D0'), ('shift', sh, [z, w])]), e[2], ('detector', [x], 'D0')]
    return [('repeat', 2, [e[0], ('repeat', n, [e[1], ('shift', 1, [x])]), ('shift', sh, [0, y]), ('detector', [z, w], 'D1')]), e[2]]


def check(S, which, first, second, third):
    L = S.loader(env(S))
    dec = L.get('decoding')
    S.notes['log_plain'] = True
    ps = [S.real(f'p{i}', 0, 0.999, lo_open=i != 1) for i in range(3)]
    xs = [S.real(f'x{i}', -50, 50) for i in range(4)]
    pats = [S.choice('first', first), S.choice('second', second), S.choice('third', third)]
    graph_of(S, dec, templates(S, which, [('error', p, t) for p, t in zip(ps, pats)], xs))


def large(S, seed):
    """Bigger models: many detectors, long loops; made after other models."""
    L = S.loader(env(S))
    dec = L.get('decoding')
    S.notes['log_plain'] = True
    r = random.Random(seed)
    p, x = S.real('p', 0, 0.5, lo_open=True), S.real('x', -50, 50)
    n = S.int('repeat', 1, 3)
    top = [12, 30, 101, 7, 260][seed % 5]
    used = [2]

    def err(hi):
        parts = []
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            d = r.sample(range(hi), r.choice([1, 2, 2]))
            parts.append(' '.join([f'D{k}' for k in d] + [f'L{k}' for k in sorted(r.sample(range(13), r.choice([0, 0, 1, 2])))]))
        if used[0] and r.random() < 0.5:
            used[0] -= 1
            return ('error', p, ' ^ '.join(parts))
        return ('error', r.choice([0.0, 0.001, 0.125, 0.25, 0.3]), ' ^ '.join(parts))

    def coords():
        return [float(r.randrange(-9, 9)) if r.random() < 0.8 else x for _ in range(r.randrange(6))]

    def body(depth, hi):
        out = []
        for _ in range(r.randrange(2, 5)):
            k = r.random()
            if k < 0.45:
                out.append(err(hi))
            elif k < 0.65:
                ids = r.sample(range(hi), 1)
                out.append(('detector', coords(), ' '.join(f'D{i}' for i in ids)))
            elif k < 0.8:
                out.append(('shift', r.choice([0, 1, 3, 11]), coords()))
            elif k < 0.9 or depth == 0:
                out.append(('obs', 'L1'))
            else:
                used[0], keep = 0, used[0]
                out.append(('repeat', r.choice([2, 3, 12, n]), body(depth - 1, hi)))
                used[0] = keep
        return out
    items = [err(top), ('shift', 1, [])] + body(2, top) + [('repeat', n if seed % 2 else 15, [('error', 0.125, 'D0 D3 L0 ^ D1'), ('shift', 2, [0, 0, 1]), ('detector', [1.0, x], 'D2')])] + body(1, top)
    # Other models before.
    for old in ([('error', 0.25, 'D0'), ('shift', 5, [1, 2, 3]), ('detector', [7.0], 'D1')], [('error', 0.25, f'D0 D{top} L0'), ('detector', [3.0, 4.0], 'D0')]):
        m = build(S, old)
        dec.detector_error_model_to_nx_graph(m if S.symbolic else m.to_real())
    graph_of(S, dec, items)


def graph_of(S, dec, items):
    model = build(S, items)
    if not S.symbolic:
        model = model.to_real()
    ctx = lambda: f'{items}'
    errs, coords = meaning(S, items)
    # The flattening itself.
    got_e, got_c = [], {}
    dec.iter_flatten_model(model, handle_error=lambda p, d, f: got_e.append((p, list(d), list(f))),
                           handle_detector_coords=lambda d, c: got_c.update({int(d): list(c)}))
    S.prove(sorted((sorted(map(int, d)), sorted(f)) for _, d, f in got_e) == sorted((sorted(d), sorted(f)) for _, d, f in errs),
            'flattening visits every error component once, at its shifted detectors', lambda: f'{ctx()} got {got_e} want {errs}')
    for (p, d, f), (q, d2, f2) in zip(sorted(got_e, key=lambda t: (sorted(map(int, t[1])), sorted(t[2]))), sorted(errs, key=lambda t: (sorted(t[1]), sorted(t[2])))):
        pass
    if [(list(map(int, d)), f) for _, d, f in got_e] == [(d, f) for _, d, f in errs]:
        S.prove(sand(*[a[0] == b[0] for a, b in zip(got_e, errs)]), 'flattening keeps probabilities', ctx)
    coords_ok(S, got_c, coords, ctx)
    # The graph.
    boundary = model.num_detectors
    want = expected_graph(S, errs, boundary)
    try:
        g = dec.detector_error_model_to_nx_graph(model)
    except NotImplementedError:
        S.prove(want is None, 'only errors with more than two symptoms are refused', ctx)
        return
    S.prove(want is not None, 'errors with more than two symptoms are refused', ctx)
    S.prove(bool(g.nodes[boundary].get('is_boundary')), 'the boundary node is marked', ctx)
    S.prove(not any(g.nodes[k].get('is_boundary') for k in g.nodes if k != boundary), 'only the boundary node is marked', ctx)
    ge = {frozenset(int(v) for v in (a, b)): d for a, b, d in g.edges(data=True)}
    S.prove(set(ge) == set(want), 'one edge per symptom pair that can occur', lambda: f'{ctx()} got {sorted(map(sorted, ge))} want {sorted(map(sorted, want))}')
    conds, wconds = [], []
    for k, d in ge.items():
        p, f = want[k]
        S.prove(set(d['qubit_id']) == set(f), 'edges carry the observables of their first error', lambda: f'{ctx()} edge {sorted(k)}: {d["qubit_id"]} vs {f}')
        ep = d['error_probability']
        conds.append(S.close(ep, p, 1e-6, 1e-12))
        wconds.append(S.close(d['weight'], log_ratio(ep), 1e-6, 1e-9))
    if conds:
        S.prove(sand(*conds), 'parallel errors combine to the probability of an odd number of them', lambda: f'{ctx()}: {ge}')
        S.prove(sand(*wconds), 'weights are log likelihood ratios', lambda: f'{ctx()}: {ge}')
    coords_ok(S, {int(k): list(v['coords']) for k, v in g.nodes(data=True) if 'coords' in v and k != boundary}, coords, ctx)


def coords_ok(S, got, want, ctx):
    S.prove(set(got) == set(want), 'coordinates for the annotated detectors', ctx)
    S.prove(all(len(got[k]) == len(want[k]) for k in want), 'coordinate dimensions', lambda: f'{ctx()}: {got} vs {want}')
    S.prove(sand(*[S.close(a, b, 1e-6, 1e-6) for k in want for a, b in zip(got[k], want[k])]), 'shifted coordinates', lambda: f'{ctx()}: {got} vs {want}')


def jobs(tier):
    out = []
    q = tier == 'quick'
    for which in ('flat', 'shift', 'loop', 'nested'):
        for i, f in enumerate(PAT):
            if q and which in ('shift', 'nested') and i % 3 != 0:
                continue
            sec = PAT if which == 'flat' and q else PAT[:10:2] + PAT[7:9] if q else PAT
            thi = ['D0 D1 L0', 'D1 L0', 'D0'] if q else PAT[::2]
            if q and which != 'flat':
                thi = ['D0 D1 L0', 'D0']
            out.append(job(f'{which} {f}', check, which=which, first=[f], second=sec, third=thi, cost=5))
    for i in range(10 if q else 40):
        out.append(job(f'large {i}', large, seed=i, cost=5, max_witnesses=3))
    return out
