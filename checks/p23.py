"""P23: conversion of a total logical error rate to a per-piece rate."""
from checks.common import *
from symx import core

BOUNDS = 'pieces enumerated 1..8 (quick) / 1..24 (thorough), 16 numbers up to 10^6 (and around numbers the code compares with; against the root as an unknown), plus one symbolic job with pieces in 1..300 (every branch on it explored, exponent concretised per branch); error rate any real in [0,1]'
OUTSIDE = 'float rounding of the power function (reals stand in for floats); more pieces than stated'
ASSUMPTIONS = ['real arithmetic stands in for IEEE doubles; x**(1/k) is the exact nonnegative k-th root']


def compose(q, k):
    """Chance that an odd number of k independent pieces fail."""
    r = 1
    for _ in range(k):
        r = r * (1 - 2 * q)
    return (1 - r) / 2


def law(S, k):
    L = S.loader()
    f = L.get('plotting').total_error_to_per_piece_error
    p = S.real('p', 0, 1)
    low = p <= 0.5
    q = f(p, k)
    if low:
        S.prove(sand(q >= -1e-12, q <= 0.5 + 1e-12), 'per-piece rate of a rate <= 1/2 lies in [0, 1/2]')
        S.prove(S.close(compose(q, k), p, 1e-6, 1e-9), 'k pieces at the per-piece rate give the total rate')
    else:
        q2 = f(1 - p, k)
        S.prove(S.close(q, 1 - q2, 1e-9, 1e-12), 'rates above 1/2 are mirrored')


def law_sym(S):
    """The number of pieces is symbolic: every branch on it forks; the exponent is then concretised per branch."""
    L = S.loader()
    f = L.get('plotting').total_error_to_per_piece_error
    k = S.int('pieces', 1, 300)
    p = S.real('p', 0, 1)
    q = f(p, k)
    k = S.concrete(k)
    if p <= 0.5:
        S.prove(S.close(compose(q, k), p, 1e-6, 1e-9), 'k pieces at the per-piece rate give the total rate')
    else:
        S.prove(S.close(compose(1 - q, k), 1 - p, 1e-6, 1e-9), 'rates above 1/2 are mirrored')


def many(S, ks):
    """Many pieces, and other conversions before: 1 - 2 q is the exact k-th root of 1 - 2 p."""
    L = S.loader()
    f = L.get('plotting').total_error_to_per_piece_error
    p = S.real('p', 0, 1)
    if S.symbolic:
        S.notes['root_exact_to'] = 40
    f(0.3, 7)
    low = p <= 0.5
    for k in ks:
        q = f(p, k)
        r = 1 - 2 * q if low else 2 * q - 1
        t = 1 - 2 * p if low else 2 * p - 1
        S.prove(sand(r >= -1e-12, r <= 1 + 1e-12), 'per-piece rate on the same side of one half', lambda: f'k={k} p={p}: {q}')
        if S.symbolic:
            want = core.spow(t, core.frac(1) / k)
            S.prove(S.close(r, want, 1e-9, 1e-12), 'many pieces at the per-piece rate give the total rate', lambda: f'k={k} p={p}: {q}')
        else:
            S.prove(abs(r - t ** (1 / k)) <= 1e-12, 'many pieces at the per-piece rate give the total rate', lambda: f'k={k} p={p}: {q}')


def mono(S, k):
    L = S.loader()
    f = L.get('plotting').total_error_to_per_piece_error
    a = S.real('a', 0, 1)
    b = S.real('b', 0, 1)
    S.assume(a <= b)
    S.prove(f(a, k) <= f(b, k) + 1e-12, 'monotone in the total rate')


def ends(S, k):
    L = S.loader()
    f = L.get('plotting').total_error_to_per_piece_error
    p = S.real('p', 0, 1)
    S.prove(S.close(f(p, 1), p, 1e-9, 1e-12), 'one piece: identity')
    S.prove(S.close(f(0, k), 0, 1e-9, 1e-12), 'zero stays zero')
    S.prove(S.close(f(0.5, k), 0.5, 1e-9, 1e-12), 'one half stays one half')


def jobs(tier):
    ks = list(range(1, 9)) if tier == 'quick' else list(range(1, 25))
    out = [job('law pieces symbolic', law_sym, budget=150)]
    ends_ = [50, 99, 100, 101, 301, 360, 500, 999, 1000, 1001, 1024, 3000, 10000, 65537, 100000, 999983]
    for k in source_ints(['plotting.py'], 30, 900000):
        ends_ += [k - 1, k, k + 1]
    for i in range(0, len(ends_), 8):
        out.append(job(f'many {ends_[i:i + 8]}', many, ks=ends_[i:i + 8]))
    for k in ks:
        out.append(job(f'law k={k}', law, k=k))
        out.append(job(f'ends k={k}', ends, k=k))
        if k <= (4 if tier == 'quick' else 8):
            out.append(job(f'mono k={k}', mono, k=k))
    return out
