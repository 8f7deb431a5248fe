"""P03: the tracked logical observables."""
from checks.circ import *
from checks.p01 import lay_of, used, xy, ekey

BOUNDS = ('any integer sub-round number (symbolic); every edge and plaquette through a symbolic index; sizes enumerated: quick widths '
          '2,4,6,8,12 with heights 6,12,18 plus 20x6 and 2x30, thorough widths 2..16 with heights 6..30; both observables on layouts of either kind')
OUTSIDE = 'other sizes'
ASSUMPTIONS = ['plaquettes of colour c carry the stabilizer with Pauli X, Y, Z for c = 0, 1, 2; edge class c is measured in that basis']


def pauli(basis, qubits):
    """{position: (x, z)}"""
    v = {'X': (1, 0), 'Y': (1, 1), 'Z': (0, 1)}[basis]
    out = {}
    for q in qubits:
        p = xy(q)
        o = out.get(p, (0, 0))
        out[p] = (o[0] ^ v[0], o[1] ^ v[1])
    return {p: v for p, v in out.items() if v != (0, 0)}


def mul(a, b):
    out = dict(a)
    for p, v in b.items():
        o = out.get(p, (0, 0))
        out[p] = (o[0] ^ v[0], o[1] ^ v[1])
    return {p: v for p, v in out.items() if v != (0, 0)}


def anti(a, b):
    t = 0
    for p, (x, z) in a.items():
        if p in b:
            t ^= (x & b[p][1]) ^ (z & b[p][0])
    return t


def before(S, lay, obs, k):
    b, qs = lay.obs_v_before_sub_round(k) if obs == 'V' else lay.obs_h_before_sub_round(k)
    return b, [xy(q) for q in qs]


def zero_all(S, table, name, label):
    """The table is zero at every index (symbolic index)."""
    i = S.int(name)
    S.assume(sand(i >= 0, i < len(table)))
    S.prove(sand(*[simplies(i == j, v == 0) for j, v in enumerate(table)]) if S.symbolic else table[i] == 0, label,
            lambda: f'at {[j for j, v in enumerate(table) if v][:5]}')


def track(S, w, h, obs, kind, style='EM3', past=False):
    L = S.loader()
    lay = used(S, L, w, h, style, kind) if past else lay_of(S, L, w, h, style, kind)
    lat = Lattice(w, h)
    k = S.int('k')
    b, qs = before(S, lay, obs, k)
    k0 = S.concrete(k % 6)
    S.prove(b == OBS_CYCLE[obs][k0], 'basis of the observable before a sub-round')
    S.prove(len(set(qs)) == len(qs) and set(qs) <= lat.data, 'the observable acts on distinct data qubits')
    O = pauli(b, qs)
    b6, qs6 = before(S, lay, obs, k + 6)
    S.prove(pauli(b6, qs6) == O, 'the observable recurs every six sub-rounds')
    edges = sorted(lat.edges[k0 % 3].items())
    basis = 'XYZ'[k0 % 3]
    zero_all(S, [anti(O, pauli(basis, [complex(*q) for q in e])) for _, e in edges], 'edge', 'the observable commutes with every edge measured next')
    hexes = sorted(lat.hexes.items())
    zero_all(S, [anti(O, pauli('XYZ'[c], [complex(*q) for q in lat.ring(hx)[2]])) for hx, c in hexes], 'hex', 'the observable commutes with every plaquette')
    prev = sorted(lat.edges[(k0 - 1) % 3].items())
    zero_all(S, [anti(O, pauli('XYZ'[(k0 - 1) % 3], [complex(*q) for q in e])) for _, e in prev], 'prev', 'the observable commutes with every edge measured last')
    # multiplication rule along the path
    path = [ekey(e) for e in (lay.obs_v_edges if obs == 'V' else lay.obs_h_edges)]
    by = {(frozenset(q), c): r for r in range(3) for c, q in lat.edges[r].items()}
    S.prove(all(e in by for e in path) and len(set(path)) == len(path), 'the path of the observable consists of distinct lattice edges')
    N = O
    for e in path:
        if by.get(e) == k0 % 3:
            N = mul(N, pauli(basis, [complex(*q) for q in e[0]]))
    b1, qs1 = before(S, lay, obs, k + 1)
    S.prove(N == pauli(b1, qs1), 'measuring the path edges of a sub-round turns the observable into its next form')
    # nontrivial: some logical partner commutes with the current stabilizers and anticommutes with it
    other = 'H' if obs == 'V' else 'V'
    gens = [pauli('XYZ'[(k0 - 1) % 3], [complex(*q) for q in e]) for _, e in prev] + [pauli('XYZ'[c], [complex(*q) for q in lat.ring(hx)[2]]) for hx, c in hexes]
    ids = {q: i for i, q in enumerate(sorted(lat.data))}

    def vec(p):
        m = 0
        for q, (x, z) in p.items():
            m |= x << (2 * ids[q]) | z << (2 * ids[q] + 1)
        return m
    rows = [vec(g) for g in gens]
    S.prove(frames.rank(rows + [vec(O)]) == frames.rank(rows) + 1, 'the observable is not a product of stabilizers')
    # length of the path: it winds around the torus once
    dirs = set(x for e in path for x, y in e[0]), set(y for e in path for x, y in e[0])
    if obs == 'V':
        S.prove(len(path) == h and len(dirs[0]) == 1, 'the vertical path goes once around the torus')
    else:
        S.prove(len(path) == 2 * w and dirs[0] == {x for x, _ in lat.data}, 'the horizontal path goes once around the torus')
    S.prove({xy(q) for q in (lay.obs_v_qubits if obs == 'V' else lay.obs_h_qubits)} == {p for e in path for p in e[0]}, 'path qubits = endpoints of path edges')


def select(S, w, h, kind, past=False):
    """The layout's own observable is the one it was asked for."""
    L = S.loader()
    lay = used(S, L, w, h, 'SD6', kind) if past else lay_of(S, L, w, h, 'SD6', kind)
    k = S.int('k')
    a, qa = lay.obs_before_sub_round(k)
    b, qb = before(S, lay, kind, k)
    S.prove(a == b and [xy(q) for q in qa] == qb, 'the selected observable is the requested one')
    S.prove([ekey(e) for e in lay.obs_edges] == [ekey(e) for e in (lay.obs_v_edges if kind == 'V' else lay.obs_h_edges)], 'its path is the requested one')
    S.prove(list(lay.obs_qubits) == list(lay.obs_v_qubits if kind == 'V' else lay.obs_h_qubits), 'its qubits are the requested ones')
    S.prove(lay.obs_index == (0 if kind == 'V' else 1), 'its number is 0 for vertical, 1 for horizontal')


def jobs(tier):
    if tier == 'quick':
        sizes = [(w, h) for w in (2, 4, 6, 8, 12) for h in (6, 12, 18)] + [(20, 6), (2, 30)]
    else:
        sizes = [(w, h) for w in range(2, 18, 2) for h in range(6, 36, 6)] + [(24, 36), (40, 6), (2, 60)]
    out = []
    sizes += [s for s in dict.fromkeys((w, h) for w, h, _ in wide(tier)) if s not in sizes and s[0] * s[1] <= 700 and s not in WIDE]
    for w, h in sizes:
        for obs in 'VH':
            for kind in 'VH' if w * h <= 48 else obs:
                out.append(job(f'{obs} on {kind} {w}x{h}', track, w=w, h=h, obs=obs, kind=kind, cost=w * h / 20, max_witnesses=3))
    for kind in 'VH':
        out.append(job(f'select {kind}', select, w=4, h=12, kind=kind))
        for w, h in [(2, 6), (4, 12), (6, 6), (12, 6)]:
            out.append(job(f'select {kind} {w}x{h}, used before', select, w=w, h=h, kind=kind, past=True))
    for i, (w, h) in enumerate([(2, 6), (4, 6), (6, 6), (2, 18), (4, 12), (8, 6), (12, 6), (2, 24)]):
        for obs in 'VH':
            for kind in 'VH':
                out.append(job(f'{obs} on {kind} {w}x{h}, used before', track, w=w, h=h, obs=obs, kind=kind, past=True,
                               style=STYLES[(i + (obs == 'V')) % 5], cost=w * h / 10, max_witnesses=3))
    return out
