"""P07: the reported code distance."""
import time

from checks.circ import *

BOUNDS = ('every Pauli fault set on data qubits (X, Y or Z at any time step, each a pair of symbolic bits) of size below the reported distance; '
          'sub-rounds enumerated 1..7 (quick, smaller sizes; one value for larger ones) / 1..13 (thorough); sizes quick 2x6, 4x6, 2x12, 6x6, 4x12, '
          '6x12, 8x6, thorough adds 8x12, 6x18, 12x6; the reported number itself: any size (symbolic)')
OUTSIDE = 'faults on measure qubits and correlated two-qubit faults (the reported distance is for single-qubit data depolarization); longer experiments'
ASSUMPTIONS = ['SI1000: n is a multiple of 3', 'faults act between time steps']


def reported(S, obs):
    """Any size."""
    w, h = 2 * S.int('tiles_x', 1), 6 * S.int('tiles_y', 1)
    L = S.loader()
    lay = L.get('honeycomb_layout').HoneycombLayout(data_width=w, data_height=h, sub_rounds=3, style='SD6', obs=obs, noise=0.0)
    d = lay.code_distance_1qdep
    a, b = w, 2 * h // 3
    S.prove(d == site(a <= b, a, b), 'reported distance = min(width, 2/3 height)')
    desc = lay.as_decoder_problem_desc('pymatching')
    S.prove(desc.code_distance == d, 'the problem description carries the same distance')


def locations(flat, pars, data):
    cuts, last = [], None
    for i, o in enumerate(flat.ops):
        if o.tick != last:
            cuts.append(i)
            last = o.tick
    cuts.append(len(flat.ops))
    gauges, snaps = frames.backward(flat, pars, cuts)
    out = {}
    for c in cuts:
        sx, sz = snaps[c]
        for q in data:
            a, b = sx.get(q, 0), sz.get(q, 0)
            if a or b:
                out.setdefault(frozenset((a, b, a ^ b)), (c, q, a, b))
    return bool(gauges), list(out.values())


def undetected(S, locs, nd, k, ms):
    """Is there a fault set of at most k locations that flips the observable (parity nd) and no detector?"""
    s = z3.Solver()
    s.set('timeout', ms)
    X = [z3.Bool(f'x{i}') for i in range(len(locs))]
    Z = [z3.Bool(f'z{i}') for i in range(len(locs))]
    par = [[] for _ in range(nd + 1)]
    for i, (c, q, a, b) in enumerate(locs):
        for d in frames.bits(a):
            par[d].append(X[i])
        for d in frames.bits(b):
            par[d].append(Z[i])
    n = 0
    for d, vs in enumerate(par):
        cur = None
        for v in vs:
            if cur is None:
                cur = v
            else:
                t = z3.Bool(f't{n}')
                n += 1
                s.add(t == z3.Xor(cur, v))
                cur = t
        if cur is None:
            if d == nd:
                return z3.unsat, None
        else:
            s.add(cur if d == nd else z3.Not(cur))
    s.add(z3.PbLe([(z3.Or(x, y), 1) for x, y in zip(X, Z)], k))
    t0 = time.time()
    r = s.check()
    if S.symbolic:
        S.stats.queries += 1
        S.stats.solver_s += time.time() - t0
    if r != z3.sat:
        return r, None
    m = s.model()
    return r, [(locs[i][0], locs[i][1], ('X' if z3.is_true(m.eval(X[i], True)) else '') + ('Z' if z3.is_true(m.eval(Z[i], True)) else ''))
               for i in range(len(locs)) if z3.is_true(m.eval(z3.Or(X[i], Z[i]), True))]


def dist(S, style, obs, w, h, lo, hi, ms=100000):
    n = S.concrete(sub_rounds(S, style, lo=lo, hi=hi))
    L, lay, c = make(S, style, obs, w, h, n, 0.0)
    d = lay.code_distance_1qdep
    S.prove(d == min(w, 2 * h // 3), 'reported distance')
    flat = frames.flatten(c)
    pars = [x[1] for x in flat.detectors] + [flat.obs[{'V': 0, 'H': 1}[obs]]]
    lat = Lattice(w, h)
    pos = {q: qpos(cs[0][:2]) for q, cs in flat.coords.items()}
    data = sorted(q for q in pos if pos[q] in lat.data)
    random, locs = locations(flat, pars, data)
    S.prove(not random and len(locs) > 0, 'detectors are deterministic')
    r, faults = undetected(S, locs, len(pars) - 1, d - 1, ms)
    if r == z3.unknown:
        if S.symbolic:
            S.stats.unknown += 1
            S.stats.inconclusive.append(f'{style} {obs} {w}x{h} n={n}: solver unknown')
    else:
        S.prove(r == z3.unsat, 'fewer data errors than the reported distance never flip the observable undetected',
                lambda: f'n={n}, reported {d}: faults (op, qubit, Pauli) {faults}')
    if w == d and obs == 'V' or 2 * h // 3 == d and obs == 'H':
        r, faults = undetected(S, locs, len(pars) - 1, d, ms)
        if r == z3.unknown:
            if S.symbolic:
                S.stats.unknown += 1
                S.stats.inconclusive.append(f'{style} {obs} {w}x{h} n={n}: solver unknown (tightness)')
        else:
            S.prove(r == z3.sat, 'the reported distance is attained by the observable that limits it', lambda: f'n={n} reported {d}')


def jobs(tier):
    out = [job('reported V', reported, obs='V'), job('reported H', reported, obs='H')]
    q = tier == 'quick'
    small = [(2, 6), (4, 6), (2, 12)]
    mid = [(6, 6), (4, 12), (8, 6), (6, 12)] if q else [(6, 6), (4, 12), (8, 6), (6, 12), (8, 12), (6, 18), (12, 6)]
    for style in STYLES:
        for obs in 'VH':
            for w, h in small:
                out.append(job(f'{style} {obs} {w}x{h}', dist, style=style, obs=obs, w=w, h=h, lo=1, hi=7 if q else 13, cost=w * h, max_witnesses=2))
            for w, h in mid:
                if q and style == 'EM3_v2' and w * h > 50:
                    continue
                lo, hi = (3, 4) if q else (3, 7)
                if style == 'SI1000':
                    lo, hi = (3, 3) if q else (3, 6)
                out.append(job(f'{style} {obs} {w}x{h}', dist, style=style, obs=obs, w=w, h=h, lo=lo, hi=hi, cost=3 * w * h, max_witnesses=1))
    return out
