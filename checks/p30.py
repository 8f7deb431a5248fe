"""P30: how many operations of the noisy honeycomb circuits have to fail to flip the observable undetected."""
import functools
import time

from checks.circ import *
from checks.p29 import symptoms, decided

SIZES_Q = [(4, 6), (6, 6), (4, 12), (6, 12)]
SIZES_T = SIZES_Q + [(8, 6), (8, 12), (6, 18), (8, 18)]
BOUNDS = ('every set of failing operations (measurement flips, Pauli errors, correlated errors) of the circuit-level noise, every noise '
          'strength 0 < p <= 0.02 (symbolic), all 5 styles, both observables; quick: lattices 4x6, 6x6, 4x12, 6x12 with 1..6 and 9 sub-rounds; '
          '10 further sizes up to 16x24 (and sizes around any constant the code compares with) with one number of sub-rounds each; '
          'thorough: also 8x6, 8x12, 6x18, 8x18 and up to 21 sub-rounds')
OUTSIDE = 'other lattice sizes and numbers of sub-rounds'
ASSUMPTIONS = ['stim gate semantics (tableaux read from the installed stim)']


def stated(style, obs, w, h):
    if style.startswith('EM3'):
        return w // 2 if obs == 'V' else h // 3
    return w if obs == 'V' else h // 2


def component(masks, o):
    """The detectors looked at (any choice is sound: looking at fewer only makes more fault sets undetected): the largest set
    connected by faults that flip two detectors."""
    parent = {}

    def find(x):
        while parent.setdefault(x, x) != x:
            parent[x] = parent[parent[x]]
            x = parent[x]
        return x
    for m in masks:
        b = [x for x in frames.bits(m) if x != o]
        if len(b) == 2:
            parent[find(b[0])] = find(b[1])
    groups = {}
    for x in list(parent):
        groups.setdefault(find(x), []).append(x)
    return sorted(groups.values(), key=lambda g: (len(g), -min(g)), reverse=True)


def distance(S, style, obs, w, h, n):
    p = S.real('noise', 0, 0.02, lo_open=True)
    D = stated(style, obs, w, h)
    L, lay, c = make(S, style, obs, w, h, n, p)
    flat = frames.flatten(c)
    pars = [x[1] for x in flat.detectors] + (list(flat.obs.values())[:1] or [frozenset()])
    nd = len(flat.detectors)
    gauges, sym, unknown = symptoms(flat, pars)
    if unknown:
        raise core.Unsupported(f'channel {unknown[0]}')
    S.prove(not gauges and len(sym) > 0, 'the circuit is noisy and its detectors are deterministic')
    what = f'{style} {obs} {w}x{h} n={n}'
    hidden = sym.get(1 << nd)
    S.prove(hidden is None or D <= 1, 'no single failing operation flips the observable undetected', lambda: f'{what}: {hidden}')
    if hidden is not None:
        return
    r = None
    best = None
    groups = component(sym, nd)
    for keep in groups[:2] + ([groups[0] + groups[1]] if len(groups) > 1 else []) + [sorted(sum(groups, []))]:
        edges, hyper, bad = graph(sym, keep, nd)
        path = shortest(edges, D)
        if path and functools.reduce(lambda x, k: x ^ edges[k][0], path, 0) == 1 << nd and (best is None or len(path) < len(best)):
            best = [edges[k] for k in path]
        if bad:
            continue
        r = potentials(S, edges, hyper, D)
        if r == z3.sat:
            break
    if best is not None and len(best) < D:
        S.prove(False, 'that few failing operations never flip the observable undetected', lambda: f'{what}: {len(best)} < {D}: {[b[1] for b in best]}')
        return
    if r is None:
        S.stats.inconclusive.append(f'{what}: no matchable set of detectors')
        return
    if not decided(S, r):
        return
    if r == z3.unsat:
        if S.symbolic:
            S.stats.inconclusive.append(f'{what}: no certificate, and no fault set found')
        return
    S.prove(True, 'that few failing operations never flip the observable undetected')
    if n >= 4:
        S.prove(best is not None and len(best) == D, 'the stated number of failing operations suffices',
                lambda: f'{what}: {best and len(best)} vs {D}')


def graph(sym, keep, o):
    """Faults as edges between the kept detectors: (a, b, observable flip) -> (full symptom, example)."""
    mask = 0
    for x in keep:
        mask |= 1 << x
    edges, hyper, bad = {}, {}, False
    for m, ex in sorted(sym.items(), key=lambda t: (bin(t[0]).count('1'), t[1][0], str(t[1]))):
        b = frames.bits(m & mask)
        f = m >> o & 1
        if len(b) % 2:
            b = [-1] + b  # the boundary, met an even number of times by every undetected fault set like any detector
        if not b:
            bad = bad or bool(f)
        elif len(b) == 2:
            edges.setdefault((b[0], b[1], f), (m, ex))
        elif len(b) == 4:
            hyper.setdefault((tuple(b), f), (m, ex))
        else:
            bad = True
    return edges, hyper, bad


def shortest(edges, D):
    """A short closed walk flipping the observable."""
    adj = {}
    for k in edges:
        a, b, f = k
        for par in (0, 1):
            adj.setdefault((a, par), []).append(((b, par ^ f), k))
            adj.setdefault((b, par ^ f), []).append(((a, par), k))
    best = None
    for s in sorted({a for a, b, f in edges if f}):
        seen, todo = {(s, 0): None}, [(s, 0)]
        depth = {(s, 0): 0}
        for x in todo:
            if x == (s, 1) or best is not None and depth[x] + 1 >= len(best):
                break
            for y, k in adj.get(x, []):
                if y not in seen:
                    seen[y] = (x, k)
                    depth[y] = depth[x] + 1
                    todo.append(y)
        if (s, 1) in seen:
            out, x = [], (s, 1)
            while seen[x]:
                x, k = seen[x]
                out.append(k)
            if best is None or len(out) < len(best):
                best = out
    return best


def potentials(S, edges, hyper, D):
    """Certificate that every fault set flipping the observable and no kept detector has at least D faults.

    The solver looks for integers phi on the detectors and a winding k in {-1, 1} for every fault that flips the observable
    (0 for the others) with |phi(b) - phi(a) + D k| <= 1.  An undetected fault set splits into closed walks, one of which
    flips the observable: its windings add up to an odd number, so the terms add up to at least D in absolute value, and
    there are at least D of them.  A fault flipping four detectors counts as two such steps that together are at most 1."""
    s = z3.Solver()
    s.set('timeout', 200000)
    phi, ks = {}, {}

    def var(x):
        if x not in phi:
            phi[x] = z3.Int(f'phi{x}' if x >= 0 else 'boundary')
        return phi[x]

    for (a, b, f) in edges:
        d = var(b) - var(a)
        if f:
            k = z3.Bool(f'k{a}_{b}' if a >= 0 else f'kb_{b}')
            s.add(z3.Implies(k, z3.And(d + D <= 1, d + D >= -1)), z3.Implies(z3.Not(k), z3.And(d - D <= 1, d - D >= -1)))
        else:
            s.add(d <= 1, d >= -1)
    near = {}
    for (a, b, f) in edges:
        near.setdefault((a, b), set()).add(f)
    for (b, f) in hyper:
        ways = []
        for x, y in (((0, 1), (2, 3)), ((0, 2), (1, 3)), ((0, 3), (1, 2))):
            e1, e2 = (b[x[0]], b[x[1]]), (b[y[0]], b[y[1]])
            for f1 in near.get(e1, {0}):
                for f2 in near.get(e2, {0}):
                    if f1 ^ f2 == f:
                        for k1 in ((1, -1) if f1 else (0,)):
                            for k2 in ((1, -1) if f2 else (0,)):
                                d1, d2 = var(e1[1]) - var(e1[0]) + D * k1, var(e2[1]) - var(e2[0]) + D * k2
                                ways.append(z3.Or(z3.And(d1 == 0, d2 <= 1, d2 >= -1), z3.And(d2 == 0, d1 <= 1, d1 >= -1)))
        s.add(z3.Or(ways))
    if phi:
        s.add(next(iter(phi.values())) == 0)
    t0 = time.time()
    r = s.check()
    if S.symbolic:
        S.stats.queries += 1
        S.stats.solver_s += time.time() - t0
    return r


def jobs(tier):
    out = []
    for style in STYLES:
        for obs in 'VH':
            for w, h in SIZES_Q if tier == 'quick' else SIZES_T:
                for n in (1, 2, 3, 4, 5, 6, 9) if tier == 'quick' else (1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 21):
                    if style == 'SI1000' and n % 3:
                        continue
                    out.append(job(f'{style} {obs} {w}x{h} n={n}', distance, style=style, obs=obs, w=w, h=h, n=n, cost=w * h * n, max_witnesses=1))
    # Larger lattices, with one number of sub-rounds each.
    for k, style in enumerate(STYLES):
        for i, (w, h, n) in enumerate(wide(tier)):
            if w > 3 and h > 6 and w * h <= (400 if tier == 'quick' else 700):
                out.append(job(f'{style} {"VH"[(i + k) % 2]} {w}x{h} n={n}, larger', distance, style=style, obs='VH'[(i + k) % 2], w=w, h=h, n=n if style != 'SI1000' else 6 if n % 3 else 9, cost=w * h * n, max_witnesses=1))
    return out
