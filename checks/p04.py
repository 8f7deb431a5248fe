"""P04: detectors and the logical observable are deterministic without noise."""
from checks.circ import *

BOUNDS = ('every number of sub-rounds n >= 1 (symbolic; loop bodies handled by region closure and period-2 recurrence of '
          'the observable), every noise strength 0 <= p <= 0.02 (symbolic), all 5 styles, both observables; lattice sizes '
          'enumerated: quick 2x6, 4x6, 2x12 (+ 10x6, 4x18 with n <= 8), thorough up to 8x12; '
          '20 further sizes between 6x6 and 22x30 (and sizes around any constant the code compares with) with one number of sub-rounds each')
OUTSIDE = 'lattice sizes not enumerated'
ASSUMPTIONS = ['stim gate semantics (tableaux read from the installed stim)', 'SI1000 style: n is a multiple of 3 (others are refused by the generator)']


def det(S, style, obs, w, h, nmax, lo=1, hi=None, noisy=True, history=False):
    n = sub_rounds(S, style, lo=lo, hi=hi)
    p = S.real('p', 0, 0.02) if noisy else 0.0
    L, lay, c = make(S, style, obs, w, h, n, p, history=history)
    for n0, flat, general in instances(S, c, n, nmax):
        pars = [d[1] for d in flat.detectors]
        names = [f'detector {d[0]}' for d in flat.detectors]
        nd = len(pars)
        for k, recs in sorted(flat.obs.items()):
            pars.append(recs)
            names.append(f'observable {k}')
        bad_refs = [names[i] for i, r in enumerate(pars) if any(x < 0 or x >= flat.num_rec for x in r)]
        prove_n(S, n, n0, not bad_refs, 'annotations refer to existing measurements', lambda: str(bad_refs[:3]))
        cuts = [b[0] for b in flat.boundaries]
        gauges, snaps = frames.backward(flat, pars, cuts)
        cond, bad = gauge_cond(S, gauges)
        prove_n(S, n, n0, cond, 'no measurement randomness flips a detector or the observable',
                lambda: f'n={n0}: {[names[d] for d in frames.bits(bad)[:5]]}')
        prove_n(S, n, n0, len(flat.obs) == 1 and all(len(r) > 0 for r in flat.obs.values()),
                'the tracked observable is annotated and not empty')
        prove_n(S, n, n0, len(pars) > len(flat.obs), 'there are detectors')
        if general and cuts:
            closed(S, n, n0, flat, pars, nd, snaps)


def gauge_cond(S, gauges):
    bad = 0
    for _, _, m in gauges:
        bad |= m
    if not S.symbolic or not bad:
        return bad == 0, bad
    g = [z3.Bool(f'gauge{i}') for i in range(len(gauges))]
    terms = []
    for d in frames.bits(bad)[:20]:
        x = z3.BoolVal(False)
        for gi, (_, _, m) in zip(g, gauges):
            if m >> d & 1:
                x = z3.Xor(x, gi)
        terms.append(z3.Not(x))
    return SymBool(z3.And(terms)), bad


def closed(S, n, n0, flat, pars, nd, snaps):
    """What is checked on this instance carries over to any number of further loop repetitions."""
    top = [b for b in flat.boundaries if b[3] == 0]
    iters = top[-1][4]
    # detectors declared in the last iteration or later must not reach back before the loop's iteration 1
    last_start, second = top[-2], top[min(1, len(top) - 2)]
    mask = ((1 << nd) - 1) & ~((1 << last_start[2]) - 1)
    sx, sz = snaps[second[0]]
    active = 0
    for v in list(sx.values()) + list(sz.values()):
        active |= v
    for d in range(last_start[2], nd):
        if any(r < second[1] for r in pars[d]):
            active |= 1 << d
    ok = iters >= 3 and not (active & mask)
    # the observable's back-propagated form recurs with period 2 inside the loop
    per = True
    for o in range(nd, len(pars)):
        states = []
        for b in top:
            sx, sz = snaps[b[0]]
            st = (frozenset(q for q, v in sx.items() if v >> o & 1), frozenset(q for q, v in sz.items() if v >> o & 1))
            lag = frozenset(b[1] - r for r in pars[o] if r < b[1] and b[1] - r <= top[1][1] - top[0][1])
            states.append((st, lag))
        inner = states[1:-1]
        per = per and len(inner) >= 3 and all(inner[i] == inner[i + 2] for i in range(len(inner) - 2))
    if not (ok and per):
        S.stats.inconclusive.append(f'loop generalisation not established at n={n0} (closure {ok}, recurrence {per})')
        S.stats.dropped += 1
    else:
        S.prove(True, 'loop generalisation')


def jobs(tier):
    out = []
    shapes = [(2, 6), (4, 6), (2, 12)] if tier == 'quick' else [(2, 6), (4, 6), (2, 12), (6, 6), (4, 12), (8, 6), (6, 12), (8, 12), (4, 18)]
    for style in STYLES:
        for obs in 'VH':
            for w, h in shapes:
                out.append(job(f'{style} {obs} {w}x{h}', det, style=style, obs=obs, w=w, h=h, cost=w * h,
                               nmax=(33 if style == 'PC3' else 27) if tier == 'quick' else 39, max_witnesses=4))
            for w, h in [(10, 6), (4, 18)]:
                out.append(job(f'{style} {obs} {w}x{h} n<=8', det, style=style, obs=obs, w=w, h=h, nmax=8, hi=8, noisy=False,
                               cost=w * h, max_witnesses=2))
    return out + wide_jobs(det, tier, noisy=False)
