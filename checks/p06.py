"""P06: detector inventory, contents, space-time labels and completeness; contents of the observable."""
from checks.circ import *

BOUNDS = ('detector count for every n (symbolic); inventory, record contents, coordinates for every n <= 18 (quick; PC3 24) / 33 '
          '(thorough) and the smallest n of any further path; noise strength symbolic in [0, 0.02]; sizes quick 2x6, 4x6, 2x12 '
          '(+10x6, 2x18 for n <= 7), thorough up to 6x12; '
          '17 further sizes between 6x6 and 8x30 (and sizes around any constant the code compares with) with one number of sub-rounds each')
OUTSIDE = 'contents of detectors beyond the stated n (inside the same loop body); other sizes'
ASSUMPTIONS = ['SI1000: n is a multiple of 3', 'a detector is identified by its coordinates (x, y, sub-round)']


def expected(lat, obs, n, R):
    """{(coords, t): record set} from the code's definition: compare each plaquette with its last known value."""
    init = {'X': 0, 'Y': 1, 'Z': 2}[OBS_CYCLE[obs][0]]
    out = []
    known = {h: (frozenset() if cat == init else None) for h, cat in lat.hexes.items()}
    rings = {h: lat.ring(h) for h in lat.hexes}

    def xor(sets):
        r = frozenset()
        for s in sets:
            if s is None:
                return None
            r ^= s
        return r

    def edge(k, c):
        if k >= 0:
            return R.edge[(k, c)]
        return frozenset() if lat.edge_class[c] == init else None

    for k in range(n):
        if k == 0 and init == 0:
            for c in lat.edges[0]:
                out.append((c + (0,), edge(0, c)))
        for h, cat in lat.hexes.items():
            if (cat + 2) % 3 == k % 3:
                first, second, _ = rings[h]
                v = xor([edge(k - 1, c) for c in first] + [edge(k, c) for c in second])
                if v is not None and known[h] is not None:
                    out.append((h + (k,), v ^ known[h]))
                known[h] = v
    ob = 'XYZ'.index(OBS_CYCLE[obs][n % 6])
    last = (n - 1) % 3
    data = {q: frozenset([r]) for q, r in R.data.items()}
    if last == ob:
        for c, (a, b) in lat.edges[ob].items():
            out.append((c + (n,), data[a] ^ data[b] ^ edge(n - 1, c)))
    else:
        other = 3 - last - ob
        for h, cat in lat.hexes.items():
            if cat == other:
                first, _, qs = rings[h]
                v = xor([data[q] for q in qs] + [edge(n - 1, c) for c in first])
                if known[h] is not None and v is not None:
                    out.append((h + (n,), v ^ known[h]))
    for h, cat in lat.hexes.items():
        if cat == ob:
            v = xor([data[q] for q in rings[h][2]])
            if known[h] is not None:
                out.append((h + (n,), v ^ known[h]))
    return out


def n_expected(lat, obs, n):
    """Number of detectors as a function of n >= 5 (steady state: one plaquette colour per sub-round)."""
    per = len(lat.hexes) // 3
    E = len(lat.edges[0])
    init = {'X': 0, 'Y': 1, 'Z': 2}[OBS_CYCLE[obs][0]]
    bulk = per * (n - 2) if init == 2 else per * (n - 3) + E
    return bulk, per, E


def inv(S, style, obs, w, h, nmax, noisy=True, lo=1, hi=None, history=False):
    n = sub_rounds(S, style, lo=lo, hi=hi)
    p = S.real('p', 0, 0.02) if noisy else 0.0
    L, lay, c = make(S, style, obs, w, h, n, p, history=history)
    lat = Lattice(w, h)
    bulk, per, E = n_expected(lat, obs, n)
    final = site((n - 1) % 3 == 'XYZ'.index(OBS_CYCLE[obs][n % 6]), E + per, 2 * per)
    S.prove(simplies(n >= 6, c.num_detectors == bulk + final), 'number of detectors (any n >= 6)')
    for n0, flat, general in instances(S, c, n, nmax):
        R = Records(flat, lat, style, n0)
        prove_n(S, n, n0, not R.problems, 'records identified', lambda: str(R.problems[:3]))
        if R.problems or n0 > 80:
            continue
        want = sorted(expected(lat, obs, n0, R), key=lambda e: (e[0], sorted(e[1])))
        got = sorted(((qpos(d[0]), d[1]) for d in flat.detectors), key=lambda e: (e[0], sorted(e[1])))
        a, b = [x[0] for x in want], [x[0] for x in got]
        prove_n(S, n, n0, a == b, 'exactly one detector per completed plaquette / final edge, at its position and sub-round',
                lambda: f'n={n0} missing {sorted(set(a) - set(b))[:4]} extra {sorted(set(b) - set(a))[:4]} {len(a)} {len(b)}')
        if a == b:
            diff = [(x[0], sorted(x[1] ^ y[1])) for x, y in zip(want, got) if x[1] != y[1]]
            prove_n(S, n, n0, not diff, 'each detector compares its plaquette (or edge) with its last known value',
                    lambda: f'n={n0}: {diff[:3]}')
        if 4 <= n0 <= 24:
            recs, nb = frames.gauge_space(flat)
            null = len(recs) - frames.rank(recs)
            rows = []
            for _, s in got:
                m = 0
                for r in s:
                    m |= 1 << r
                rows.append(m)
            rd = frames.rank(rows)
            om = 0
            for r in flat.obs.get({'V': 0, 'H': 1}[obs], ()):
                om |= 1 << r
            ro = frames.rank(rows + [om])
            prove_n(S, n, n0, null - rd == 3, 'detectors generate all deterministic parities except two logical ones and one global one',
                    lambda: f'n={n0}: {null} deterministic, detectors rank {rd}')
            prove_n(S, n, n0, ro == rd + 1, 'the observable is independent of the detectors')
        prove_n(S, n, n0, set(flat.obs) == {{'V': 0, 'H': 1}[obs]}, 'observable index: vertical 0, horizontal 1')


def jobs(tier):
    out = []
    shapes = [(2, 6), (4, 6), (2, 12)] if tier == 'quick' else [(2, 6), (4, 6), (2, 12), (6, 6), (4, 12), (6, 12), (8, 6)]
    for style in STYLES:
        for obs in 'VH':
            for w, h in shapes:
                out.append(job(f'{style} {obs} {w}x{h}', inv, style=style, obs=obs, w=w, h=h, cost=w * h,
                               nmax=(24 if style == 'PC3' else 18) if tier == 'quick' else 33, max_witnesses=4))
            for w, h in [(10, 6), (2, 18)]:
                out.append(job(f'{style} {obs} {w}x{h} n<=7', inv, style=style, obs=obs, w=w, h=h, nmax=7, hi=7,
                               noisy=False, cost=w * h, max_witnesses=2))
    return out + wide_jobs(inv, tier, most=300 if tier == 'quick' else 1000, noisy=False)
