"""P08: circuit timing: one operation per qubit per time step; steps per cycle as the style promises."""
from checks.circ import *

BOUNDS = ('number of time steps for every n >= 1 (symbolic n, closed formula); qubit collisions for every n <= 18 (quick) / 33 '
          '(thorough), which contains three unrolled loop bodies; all styles, both observables; sizes quick 2x6, 4x6, 2x12, 10x6; '
          '20 further sizes between 6x6 and 22x30 (and sizes around any constant the code compares with) with one number of sub-rounds each')
OUTSIDE = 'other lattice sizes'
ASSUMPTIONS = ['SI1000: n is a multiple of 3', 'the emulated parity measurements inside noisy EM3_v2 circuits count as one operation']


def steps(style, n):
    if style == 'SD6':
        return site(n >= 2, 2 * n + 5, 5)
    if style == 'PC3':
        return n + 3
    if style in ('EM3', 'EM3_v2'):
        return n + 1
    return n // 3 * 10


def timing(S, style, obs, w, h, nmax, lo=1, hi=None, history=False):
    n = sub_rounds(S, style, lo=lo, hi=hi)
    L, lay, c = make(S, style, obs, w, h, n, 0.0, history=history)
    cyc = OBS_CYCLE[obs]
    extra = (cyc[0] != 'Z') + (cyc[n % 6] != 'Z')
    S.prove(c.num_ticks == steps(style, n) + extra, 'number of time steps (any n)', lambda: f'{c.num_ticks}')
    for n0, flat, general in instances(S, c, n, nmax):
        seen = {}
        dup = []
        for op in flat.ops:
            for q in op.qs:
                if (op.tick, q) in seen:
                    dup.append((op.tick, q, seen[(op.tick, q)], op.src))
                seen[(op.tick, q)] = op.src
        prove_n(S, n, n0, not dup, 'no qubit is used twice in a time step', lambda: f'n={n0}: {dup[:3]}')
        used = {q for op in flat.ops for q in op.qs}
        prove_n(S, n, n0, used == set(flat.coords), 'exactly the annotated qubits are used',
                lambda: f'{sorted(used ^ set(flat.coords))[:5]}')


def jobs(tier):
    out = []
    shapes = [(2, 6), (4, 6), (2, 12), (10, 6)] if tier == 'quick' else [(2, 6), (4, 6), (2, 12), (6, 6), (4, 12), (6, 12), (8, 6), (12, 6), (8, 24)]
    for style in STYLES:
        for obs in 'VH':
            for w, h in shapes:
                out.append(job(f'{style} {obs} {w}x{h}', timing, style=style, obs=obs, w=w, h=h, cost=w * h,
                               nmax=(21 if style == 'PC3' else 18) if tier == 'quick' else 33, max_witnesses=4))
    return out + wide_jobs(timing, tier)
