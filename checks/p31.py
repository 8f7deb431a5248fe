"""P31: what one failing operation of the noisy honeycomb circuits can do: few, close detectors that matching can explain."""
import time

from checks.circ import *
from checks.p29 import symptoms, decided

BOUNDS = ('every failing operation (measurement flips, Pauli errors, correlated errors) of the circuit-level noise, every noise strength 0 < p <= 0.02 '
          '(symbolic), all 5 styles, both observables; quick: lattices 4x6, 6x12, 8x12 with 1..4, 6, 9 and 12 sub-rounds; '
          '10 further sizes up to 16x24 (and sizes around any constant the code compares with) with one number of sub-rounds each; thorough: also 10x12, 8x18, 12x18 '
          'and up to 27 sub-rounds')
OUTSIDE = 'other lattice sizes and numbers of sub-rounds; lattices two qubits wide'
ASSUMPTIONS = ['stim gate semantics (tableaux read from the installed stim)']


def around(a, b, period):
    d = abs(a - b) % period
    return min(d, period - d)


def footprint(S, style, obs, w, h, n):
    p = S.real('noise', 0, 0.02, lo_open=True)
    L, lay, c = make(S, style, obs, w, h, n, p)
    flat = frames.flatten(c)
    coords = [x[0] for x in flat.detectors]
    pars = [x[1] for x in flat.detectors] + (list(flat.obs.values())[:1] or [frozenset()])
    nd = len(flat.detectors)
    gauges, sym, unknown = symptoms(flat, pars)
    if unknown:
        raise core.Unsupported(f'channel {unknown[0]}')
    what = f'{style} {obs} {w}x{h} n={n}'
    S.prove(not gauges and len(sym) > 0, 'the circuit is noisy and its detectors are deterministic')
    em = style.startswith('EM3')
    dmask = (1 << nd) - 1
    most = 6 if style == 'EM3_v2' else 4
    worst = max(sym, key=lambda m: bin(m & dmask).count('1'))
    S.prove(bin(worst & dmask).count('1') <= most, 'a failing operation flips few detectors', lambda: f'{what}: {sym[worst]} flips {[coords[i] for i in frames.bits(worst & dmask)]}')
    limit = (4, 3, 4) if em else (2, 2, 4)
    far, pairs = None, {}
    for m in sym:
        b = frames.bits(m & dmask)
        for i in b:
            for j in b:
                if i < j:
                    x, y = coords[i], coords[j]
                    if len(x) != 3 or len(y) != 3 or any(u > v for u, v in zip((around(x[0], y[0], 2 * w), around(x[1], y[1], h), abs(x[2] - y[2])), limit)):
                        far = far or (m, i, j)
        if len(b) == 2:
            pairs.setdefault(b[0], set()).add(b[1])
            pairs.setdefault(b[1], set()).add(b[0])
    S.prove(far is None, 'the detectors flipped by a failing operation are close together', lambda: f'{what}: {sym[far[0]]} flips {coords[far[1]]} and {coords[far[2]]}')
    busy = max(pairs, key=lambda i: len(pairs[i]))
    S.prove(len(pairs[busy]) <= (18 if em else 12), 'a detector is paired with a bounded number of others', lambda: f'{what}: {coords[busy]}: {len(pairs[busy])}')
    seen = 0
    for m in sym:
        seen |= m
    S.prove(seen & dmask == dmask, 'every detector detects some failing operation', lambda: f'{what}: {[coords[i] for i in frames.bits(dmask & ~seen)[:4]]}')
    if style != 'EM3':
        split(S, what, sym, dmask, nd)


def split(S, what, sym, dmask, o):
    """Every symptom is a disjoint union of symptoms with at most two detectors, the observable's flips adding up: the solver chooses the parts."""
    parts = [m for m in sym if 1 <= bin(m & dmask).count('1') <= 2]
    by_det = {}
    for m in parts:
        by_det.setdefault(frames.bits(m & dmask)[0], []).append(m)
    hidden = [m for m in sym if not m & dmask]
    S.prove(not hidden, 'no failing operation flips the observable alone', lambda: f'{what}: {sym[hidden[0]]}')

    def formula(k, m):
        b = frames.bits(m & dmask)
        cand = [c for i in b for c in by_det.get(i, []) if not c & dmask & ~m]
        use = [z3.Bool(f'use{k}_{i}') for i in range(len(cand))]
        cs = []
        for i in b:
            have = [u for u, c in zip(use, cand) if c >> i & 1]
            cs.append(z3.PbEq([(u, 1) for u in have], 1) if have else z3.BoolVal(False))
        flips = z3.BoolVal(False)
        for u, c in zip(use, cand):
            if c >> o & 1:
                flips = z3.Xor(flips, u)
        cs.append(flips if m >> o & 1 else z3.Not(flips))
        return z3.And(cs)
    todo = sorted(m for m in sym if bin(m & dmask).count('1') > 2)
    if not todo:
        return
    fs = [formula(k, m) for k, m in enumerate(todo)]
    r = ask(S, fs)
    if not decided(S, r):
        return
    bad = None
    if r == z3.unsat:
        bad = next((m for m, f in zip(todo, fs) if ask(S, [f]) == z3.unsat), None)
    S.prove(r == z3.sat, 'symptoms split into matchable parts', lambda: f'{what}: {sym.get(bad)}')


def ask(S, fs):
    s = z3.Solver()
    s.set('timeout', 200000)
    s.add(fs)
    t0 = time.time()
    r = s.check()
    if S.symbolic:
        S.stats.queries += 1
        S.stats.solver_s += time.time() - t0
    return r


def jobs(tier):
    out = []
    for style in STYLES:
        for obs in 'VH':
            for w, h in [(4, 6), (6, 12), (8, 12)] + ([(10, 12), (8, 18), (12, 18)] if tier != 'quick' else []):
                for n in (1, 2, 3, 4, 6, 9, 12) if tier == 'quick' else (1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 13, 15, 21, 27):
                    if style == 'SI1000' and n % 3 or tier == 'quick' and w == 8 and n in (1, 2, 4, 6):
                        continue
                    out.append(job(f'{style} {obs} {w}x{h} n={n}', footprint, style=style, obs=obs, w=w, h=h, n=n, cost=w * h * n, max_witnesses=1))
    # Larger lattices, with one number of sub-rounds each.
    for k, style in enumerate(STYLES):
        for i, (w, h, n) in enumerate(wide(tier)):
            if w > 3 and h > 6 and w * h <= (400 if tier == 'quick' else 900):
                out.append(job(f'{style} {"VH"[(i + k) % 2]} {w}x{h} n={n}', footprint, style=style, obs='VH'[(i + k) % 2], w=w, h=h, n=n if style != 'SI1000' else 6 if n % 3 else 9, cost=w * h * n, max_witnesses=1))
    return out
