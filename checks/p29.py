"""P29: the shipped surface code circuits are memory experiments of the stated size, and have the stated distance."""
import functools
import os
import time

from checks.circ import *
from checks.p04 import gauge_cond

BOUNDS = ('every noise strength 0 < p <= 0.05 (symbolic), both noise styles and observables, the circuits of distances 3, 7, 11, 15, 19 (determinism, sizes); '
          'every set of failing operations of the circuit-level noise model, for distances 3, 7 (quick), 3..19 (thorough)')
OUTSIDE = 'stored circuits of other distances'
ASSUMPTIONS = ['stim gate semantics (tableaux read from the installed stim)']

SCRIPT = 'paper.main_collect_all'

PAULIS1 = {'X_ERROR': 'X', 'Y_ERROR': 'Y', 'Z_ERROR': 'Z', 'DEPOLARIZE1': 'XYZ', 'PAULI_CHANNEL_1': 'XYZ'}


def load_circuit(S, style, obs, d, p):
    L = S.loader(env(S))
    m = L.get(SCRIPT)
    where = os.path.join(os.path.dirname(m.__file__), 'surface_code_circuits')
    if not os.path.isdir(where):
        raise core.Unsupported('no stored circuits')
    return L, as_fake(S, m.surface_code_circuit(directory=where, noise_name=style, noise=p, obs=obs, d=d))


def memory(S, style, obs, d):
    p = S.real('noise', 0, 0.05, lo_open=True)
    L, c = load_circuit(S, style, obs, d, p)
    flat = frames.flatten(c)
    pars = [x[1] for x in flat.detectors]
    names = [f'detector {x[0]}' for x in flat.detectors] + ['observable']
    S.prove(list(flat.obs) == [0] and len(flat.obs[0]) == d, 'one observable, of d measurements', lambda: f'{flat.obs.keys()} {[len(v) for v in flat.obs.values()]}')
    pars += list(flat.obs.values())
    S.prove(all(0 <= r < flat.num_rec for x in pars for r in x), 'annotations refer to existing measurements')
    gauges, _ = frames.backward(flat, pars)
    cond, bad = gauge_cond(S, gauges)
    S.prove(cond, 'no measurement randomness flips a detector or the observable', lambda: f'{[names[i] for i in frames.bits(bad)[:5]]}')
    qs = {q for o in flat.ops for q in o.qs}
    S.prove(len(qs) == 2 * d * d - 1, 'number of qubits', lambda: f'{len(qs)}')
    S.prove(flat.num_rec == (d * d - 1) * 3 * d + d * d, 'every round measures every stabilizer, then every data qubit', lambda: f'{flat.num_rec}')
    # Rounds: ticks with measurements of the d*d-1 measure qubits; the data qubits are measured once, last.
    per_tick = {}
    for o in flat.ops:
        if o.kind == 'M':
            per_tick.setdefault(o.tick, []).append(o.qs[0])
    ticks = sorted(per_tick)
    times = {}
    for t in ticks:
        for q in per_tick[t]:
            times[q] = times.get(q, 0) + 1
    anc = sorted(q for q, k in times.items() if k == 3 * d)
    data = sorted(q for q, k in times.items() if k == 1)
    S.prove(len(anc) == d * d - 1 and len(data) == d * d and len(times) == 2 * d * d - 1, '3d rounds of measuring d*d-1 stabilizers', lambda: f'{len(anc)} {len(data)} {len(times)}')
    last = ticks[-1]
    S.prove(set(data) <= set(per_tick[last]), 'the data qubits are measured at the end')
    dr = {flat.ops[i].qs[0] for r in flat.obs[0] for i in [flat.rec_info[r]]}
    S.prove(dr <= set(data), 'the observable is read off data qubits')
    # Detectors: every stabilizer is compared with its previous value in every round and of half of them at the ends.
    S.prove(len(flat.detectors) == (d * d - 1) * 3 * d, 'number of detectors', lambda: f'{len(flat.detectors)}')
    rows = frames.rank([sum(1 << r for r in x) for x in pars])
    S.prove(rows == len(pars), 'detectors and observable are independent parities', lambda: f'rank {rows} of {len(pars)}')
    busy = {}
    for o in flat.ops:
        for q in o.qs:
            busy[o.tick, q] = busy.get((o.tick, q), 0) + 1
    over = [k for k, v in busy.items() if v > 1]
    S.prove(not over, 'a qubit is used at most once per time step', lambda: f'{over[:3]}')


def symptoms(flat, pars):
    """For every elementary fault: the mask of flipped parities -> one example (tick, channel, qubits, Pauli)."""
    cuts = sorted({f[0] for f in flat.faults})
    gauges, snaps = frames.backward(flat, pars, cuts)
    rec = {}
    for i, x in enumerate(pars):
        for r in x:
            rec[r] = rec.get(r, 0) ^ (1 << i)
    out = {}
    unknown = []
    for pos, name, qs, tick in flat.faults:
        if name == 'FLIP':
            cand = [('flip', rec.get(qs[0], 0))]
        else:
            sx, sz = snaps[pos]
            if name == 'E':
                m = 0
                for q, P in qs:
                    m ^= (sx.get(q, 0) if P != 'Z' else 0) ^ (sz.get(q, 0) if P != 'X' else 0)
                if m:
                    out.setdefault(m, (tick, name, qs, ''.join(P for _, P in qs)))
                continue
            per = [{'I': 0, 'X': sx.get(q, 0), 'Z': sz.get(q, 0), 'Y': sx.get(q, 0) ^ sz.get(q, 0)} for q in qs]
            if name in PAULIS1:
                cand = [(P, per[0][P]) for P in PAULIS1[name]]
            elif name in ('DEPOLARIZE2', 'PAULI_CHANNEL_2'):
                cand = [(P + Q, per[0][P] ^ per[1][Q]) for P in 'IXYZ' for Q in 'IXYZ' if P + Q != 'II']
            else:
                unknown.append(name)
                continue
        for P, m in cand:
            if m:
                out.setdefault(m, (tick, name, qs, P))
    return gauges, out, unknown


def sector(masks, o):
    """A set of detectors to look at (any choice is sound: looking at fewer only allows more): those connected to the
    observable (bit o) by faults flipping at most two detectors that are not the union of two other faults."""
    parent = {}

    def find(x):
        while parent.setdefault(x, x) != x:
            parent[x] = parent[parent[x]]
            x = parent[x]
        return x

    have = set(masks)
    for m in masks:
        b = frames.bits(m)
        if len([x for x in b if x != o]) > 2:
            continue
        if any(1 << x in have and m ^ 1 << x in have for x in b if x != o):
            continue
        for x in b[1:]:
            parent[find(x)] = find(b[0])
    root = find(o)
    return {x for x in list(parent) if find(x) == root}


def distance(S, style, obs, d):
    p = S.real('noise', 0, 0.05, lo_open=True)
    L, c = load_circuit(S, style, obs, d, p)
    flat = frames.flatten(c)
    pars = [x[1] for x in flat.detectors] + [flat.obs.get(0, frozenset())]
    nd = len(flat.detectors)
    gauges, sym, unknown = symptoms(flat, pars)
    if unknown:
        raise core.Unsupported(f'channel {unknown[0]}')
    S.prove(not gauges and len(sym) > 0, 'the circuit is noisy and its detectors are deterministic')
    sec = sector(list(sym), nd)
    keep = 0
    for x in sec:
        keep |= 1 << x
    edges, odd = {}, []
    for m, ex in sorted(sym.items(), key=lambda t: (t[0] & ~keep != 0, t[1][:3])):
        k = m & keep
        if not k:
            continue
        b = [x for x in frames.bits(k) if x != nd]
        if len(b) > 2:
            odd.append((ex, len(b)))
            continue
        a, e = (b + [-1, -1])[:2]
        if a == e and not k >> nd & 1:
            continue
        edges.setdefault((a, e, k >> nd & 1), (m, ex))
    if odd:
        if S.symbolic:
            S.stats.inconclusive.append(f'{style} {obs} d={d}: a fault flips more than two relevant detectors: {odd[0]}')
        return
    path = shortest(edges)
    r = potentials(S, edges, d)
    if not decided(S, r):
        return
    real = functools.reduce(lambda x, k: x ^ edges[k][0], path, 0) == 1 << nd
    if r == z3.unsat and (not real or len(path) >= d):
        if S.symbolic:
            S.stats.inconclusive.append(f'{style} {obs} d={d}: shortest path is not a set of undetected faults')
        return
    S.prove(r == z3.sat, 'fewer than d failing operations never flip the observable undetected',
            lambda: f'{style} {obs} d={d}: {[edges[k][1] for k in path]}')
    if r == z3.sat:
        S.prove(len(path) == d and real, 'd failing operations can flip the observable undetected', lambda: f'{style} {obs} d={d}: {[edges[k][1] for k in path]}')


def decided(S, r):
    if r == z3.unknown and S.symbolic:
        S.stats.unknown += 1
        S.stats.inconclusive.append('solver unknown')
    return r != z3.unknown


def potentials(S, edges, d):
    """Certificate that every fault set flipping the observable and no detector has at least d faults.

    The faults of such a set are edges between detectors (or a detector and the boundary) so that every detector is met an
    even number of times: closed walks, one of which flips the observable.  (1) Closed walks avoiding the boundary do not flip
    it: there are bits g with f = g(a) xor g(b) for every edge between detectors.  (2) Closed walks through the boundary
    lead from (boundary, even) to (boundary, odd): there are integers u that differ by at most one along every edge of the
    doubled graph and by at least d between these two.  Both are looked for by the solver; absence of (1) or (2) is reported."""
    s = z3.Solver()
    s.set('timeout', 300000)
    v, g = {}, {}

    def var(x, par):
        k = (x, par)
        if k not in v:
            v[k] = z3.Int(f'u{x}_{par}' if x >= 0 else f'B{par}')
        return v[k]

    def bit(x):
        if x not in g:
            g[x] = z3.Bool(f'g{x}')
        return g[x]
    for (a, b, f) in edges:
        for par in (0, 1):
            x, y = var(a, par), var(b, par ^ f)
            s.add(x - y <= 1, y - x <= 1)
        if a >= 0 and b >= 0:
            s.add(z3.Xor(bit(a), bit(b)) if f else bit(a) == bit(b))
    s.add(var(-1, 1) - var(-1, 0) >= d)
    t0 = time.time()
    r = s.check()
    if S.symbolic:
        S.stats.queries += 1
        S.stats.solver_s += time.time() - t0
    return r


def shortest(edges):
    adj = {}
    for k in edges:
        a, b, f = k
        for par in (0, 1):
            adj.setdefault((a, par), []).append(((b, par ^ f), k))
            adj.setdefault((b, par ^ f), []).append(((a, par), k))
    seen, todo = {(-1, 0): None}, [(-1, 0)]
    for x in todo:
        for y, k in adj.get(x, []):
            if y not in seen:
                seen[y] = (x, k)
                todo.append(y)
    out, x = [], (-1, 1)
    while seen.get(x):
        x, k = seen[x]
        out.append(k)
    return out


def jobs(tier):
    out = []
    for style in ('SD6', 'SI1000'):
        for obs in 'XZ':
            for d in (3, 7, 11, 15, 19):
                out.append(job(f'memory {style} {obs} {d}', memory, style=style, obs=obs, d=d, cost=d ** 3, max_witnesses=1))
                if d <= (7 if tier == 'quick' else 19):
                    out.append(job(f'distance {style} {obs} {d}', distance, style=style, obs=obs, d=d, cost=3 * d ** 3, max_witnesses=1))
    return out
