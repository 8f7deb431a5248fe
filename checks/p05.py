"""P05: every circuit style realises the same honeycomb measurement protocol."""
from checks.circ import *

BOUNDS = ('measurement counts for every n >= 1 (symbolic); joint distribution of all edge parities and final data outcomes '
          'compared with the ideal protocol for every n <= 15 (quick) / 27 (thorough) and the smallest n of every further path; '
          'noise strength symbolic in [0, 0.02]; sizes quick 2x6, 4x6, 2x12, thorough up to 6x12; '
          '17 further sizes between 6x6 and 8x30 (and sizes around any constant the code compares with) with one number of sub-rounds each')
OUTSIDE = 'joint distribution beyond the stated n (its loop body is the one already unrolled); other sizes'
ASSUMPTIONS = ['stim gate semantics; reference signs from stim.Circuit.reference_sample']


def sched(S, style, obs, w, h, nmax, noisy=True, lo=1, hi=None, history=False):
    n = sub_rounds(S, style, lo=lo, hi=hi)
    p = S.real('p', 0, 0.02) if noisy else 0.0
    L, lay, c = make(S, style, obs, w, h, n, p, history=history)
    lat = Lattice(w, h)
    E, D = len(lat.edges[0]), len(lat.data)
    S.prove(c.num_measurements == n * E + D, 'one measurement per edge of every sub-round plus one per data qubit')
    for n0, flat, general in instances(S, c, n, nmax):
        R = Records(flat, lat, style, n0)
        prove_n(S, n, n0, not R.problems, 'every sub-round measures exactly its edges once; data measured once at the end',
                lambda: f'n={n0}: {R.problems[:3]}')
        if R.problems or n0 > 60:
            continue
        order, checks, signs, rk = ideal(lat, obs, n0)
        recs, nb = frames.gauge_space(flat)
        sets = [R.edge[key] if key[0] != 'd' else frozenset([R.data[key[1]]]) for key in order]
        vals = []
        for s in sets:
            v = 0
            for r in s:
                v ^= recs[r]
            vals.append(v)
        bad = []
        for m in checks:
            v = 0
            for i in m:
                v ^= vals[i]
            if v:
                bad.append((m, v))
        cond = True
        if bad:
            cond = False
            if S.symbolic:
                cond = SymBool(z3.And([z3.Not(xor_of(v)) for _, v in bad[:20]]))
        prove_n(S, n, n0, cond, 'outcome correlations of the ideal protocol hold',
                lambda: f'n={n0}: {[[order[i] for i in m][:8] for m, _ in bad[:2]]}')
        prove_n(S, n, n0, frames.rank(vals) == rk, 'no outcome is more constrained than in the ideal protocol')
        ref = concrete_circuit(S, c, n, n0).reference_sample()
        rv = [sum(int(ref[r]) for r in s) & 1 for s in sets]
        wrong = [m for m, sg in zip(checks, signs) if (sum(rv[i] for i in m) & 1) != sg]
        prove_n(S, n, n0, not wrong, 'outcome correlations have the ideal signs', lambda: f'n={n0}: {[[order[i] for i in m][:8] for m in wrong[:2]]}')


def accepted(S, style, obs, w, h):
    """Every number of sub-rounds is either performed as stated or refused, and only what the style cannot perform is refused."""
    n = S.int('sub_rounds', 0)
    lat = Lattice(w, h)
    try:
        L, lay, c = make(S, style, obs, w, h, n, 0.001)
    except Exception as ex:
        if 'verif stub' in str(ex) or isinstance(ex, core.Unsupported):
            raise
        S.prove(sor(n == 0, n % 3 != 0) if style == 'SI1000' else n == 0, 'a number of sub-rounds the style can perform is not refused', lambda: f'{style} n={n}: {ex!r}')
        return
    S.prove(c.num_measurements == n * len(lat.edges[0]) + len(lat.data), 'whatever number of sub-rounds is accepted is performed', lambda: f'{style} n={n}')


def xor_of(v):
    x = z3.BoolVal(False)
    for b in frames.bits(v):
        x = z3.Xor(x, z3.Bool(f'outcome{b}'))
    return x


def jobs(tier):
    out = []
    shapes = [(2, 6), (4, 6), (2, 12)] if tier == 'quick' else [(2, 6), (4, 6), (2, 12), (6, 6), (4, 12), (6, 12), (8, 6)]
    for style in STYLES:
        for obs in 'VH':
            for w, h in shapes:
                out.append(job(f'{style} {obs} {w}x{h}', sched, style=style, obs=obs, w=w, h=h, cost=w * h,
                               nmax=(21 if style == 'PC3' else 15) if tier == 'quick' else 27, max_witnesses=4))
            for w, h in [(10, 6), (2, 18)]:
                out.append(job(f'{style} {obs} {w}x{h} n<=7', sched, style=style, obs=obs, w=w, h=h, nmax=7, hi=7,
                               noisy=False, cost=w * h, max_witnesses=2))
            out.append(job(f'accepted {style} {obs}', accepted, style=style, obs=obs, w=2, h=6, cost=20, max_witnesses=12))
    return out + wide_jobs(sched, tier, most=300 if tier == 'quick' else 1000, noisy=False)
