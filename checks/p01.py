"""P01: the layout is a honeycomb torus."""
from checks.circ import *
from checks.p02 import hexcenter

BOUNDS = ('local structure around every plaquette: lattice size and plaquette symbolic, sizes unbounded; global structure: sizes '
          'enumerated (quick: widths 2..12 with heights 6..18, plus 20x6, 2x30, 16x24; thorough: widths 2..16 with heights 6..30 plus '
          '24x36), every qubit/edge/plaquette of them through a symbolic position; sub-round index any integer; refusal: any integer sizes')
OUTSIDE = 'global structure of other sizes'
ASSUMPTIONS = ['coordinates: data columns at odd x, plaquette (col,row) at (2 col, 2 row - col mod 2)']


def lay_of(S, L, w, h, style='SD6', obs='H'):
    return L.get('honeycomb_layout').HoneycombLayout(data_width=w, data_height=h, sub_rounds=3, style=style, obs=obs, noise=0.0)


NAMES = ('all_edges', 'data_qubit_coords', 'measure_qubit_coords', 'data_qubit_indices', 'measure_qubit_indices', 'used_qubit_indices', 'num_qubits', 'q2i',
         'data_qubit_indices_1st', 'data_qubit_indices_2nd', 'obs_h_edges', 'obs_v_edges', 'obs_h_qubits', 'obs_v_qubits', 'obs_edges', 'obs_qubits',
         'obs_index', 'noise_model', 'code_distance_1qdep')


def use(lay, flip=False):
    """Ask a layout for everything it knows, twice."""
    for turn in range(2):
        for n in NAMES[::-1] if flip else NAMES:
            getattr(lay, n, None)
        for r in (range(6, -4, -1) if flip else range(-3, 7)):
            lay.round_edges(r)
            lay.round_hex_centers(r % 3)
            lay.obs_before_sub_round(r)
            lay.obs_v_before_sub_round(r)
            lay.obs_h_before_sub_round(r)
        for c in list(lay.round_hex_centers(turn))[:2]:
            lay.all_edges_around_hex(c)
            lay.qubits_around_hex(c)


def used(S, L, w, h, style, obs):
    """A layout with a past: others that differ from it in one respect were in use before, it has been asked everything and
    (small sizes) its circuit has been made."""
    HL = L.get('honeycomb_layout').HoneycombLayout
    base = dict(data_width=w, data_height=h, sub_rounds=3, style=style, obs=obs, noise=0.0)
    for d in (dict(data_width=w + 2), dict(data_height=h + 6), dict(data_width=2 * h // 6, data_height=3 * w), dict(style='SD6' if style != 'SD6' else 'EM3'),
              dict(obs='V' if obs == 'H' else 'H'), dict(sub_rounds=6), dict(noise=0.5)):
        k = dict(base, **d)
        if k['data_width'] % 2 == 0 and k['data_height'] % 6 == 0 and k['data_width'] * k['data_height'] <= 2 * w * h + 36:
            use(HL(**k), flip=w % 4 == 0)
    lay = HL(**base)
    use(lay, flip=h % 12 == 0)
    if w * h <= 48:
        lay.make_circuit()
        lay.as_decoder_problem_desc('internal')
    return lay


def xy(c):
    if isinstance(c, tuple):
        return c
    c = complex(c)
    return c.real, c.imag


def ekey(e):
    return frozenset((xy(e.left), xy(e.right))), xy(e.center)


def tab(S, rows, at):
    """OR over table rows of "the symbolic position equals the row"."""
    return sor(*[sand(at[0] == x, at[1] == y) for x, y in rows])


def count(S, conds):
    t = 0
    for c in conds:
        t = t + site(c, 1, 0)
    return t


def structure(S, w, h, past=False):
    L = S.loader()
    lay = used(S, L, w, h, 'SD6', 'H') if past else lay_of(S, L, w, h)
    lat = Lattice(w, h)
    W, H = 2 * w, h
    data = [xy(q) for q in lay.data_qubit_coords]
    S.prove(len(data) == w * h and len(set(data)) == w * h, 'width x height data qubits')
    meas = [xy(q) for q in lay.measure_qubit_coords]
    x2, y2 = S.int('x2'), S.int('y2')      # a symbolic half-integer position of the cell
    S.assume(sand(x2 >= 0, x2 < 2 * W, y2 >= 0, y2 < 2 * H))
    x, y = x2 / 2, y2 / 2
    is_data = tab(S, data, (x, y))
    S.prove(is_data == tab(S, lat.data, (x, y)) if S.symbolic else is_data == ((x, y) in lat.data), 'data qubits are the lattice sites')
    edges = []
    for r in range(3):
        es = [ekey(e) for e in lay.round_edges(r)]
        S.prove(len(es) == w * h // 2 and len(set(es)) == len(es), 'each class has width*height/2 distinct edges')
        touch = count(S, [tab(S, ends, (x, y)) for ends, _ in es])
        S.prove(simplies(is_data, touch == 1), 'every data qubit is in exactly one edge of each class')
        S.prove(simplies(snot(is_data), touch == 0), 'edges only join data qubits')
        want = {(frozenset(q), c) for c, q in lat.edges[r].items()}
        S.prove(set(es) == want, 'each class is the expected set of edges', lambda: f'class {r}: {sorted(map(str, set(es) ^ want))[:4]}')
        edges += es
    S.prove(sorted(map(str, edges)) == sorted(str(ekey(e)) for e in lay.all_edges), 'all edges = the three classes')
    S.prove(tab(S, meas, (x, y)) == tab(S, [c for _, c in edges], (x, y)), 'measure qubits sit exactly at the edge centres')
    S.prove(len(meas) == w * h * 3 // 2 and len(set(meas)) == len(meas), 'one measure qubit per edge')
    # plaquettes
    hexes = {}
    for r in range(3):
        hs = [xy(c) for c in lay.round_hex_centers(r)]
        S.prove(len(hs) == w * h // 6 and len(set(hs)) == len(hs), 'each colour has a third of the plaquettes')
        around = [{xy(q) for q in lay.qubits_around_hex(complex(*c))} for c in hs]
        S.prove(simplies(is_data, count(S, [tab(S, a, (x, y)) for a in around]) == 1),
                'every data qubit is on exactly one plaquette of each colour')
        for c in hs:
            hexes[c] = r
    S.prove(hexes == lat.hexes, 'plaquettes and their colours')
    cls = {e: r for r in range(3) for e in (ekey(e) for e in lay.round_edges(r))}
    bad = []
    for c, r in hexes.items():
        z = complex(*c)
        a, b = lay.first_edges_around_hex(z), lay.second_edges_around_hex(z)
        qs = {xy(q) for q in lay.qubits_around_hex(z)}
        ends = {p for e in a for p in ekey(e)[0]}, {p for e in b for p in ekey(e)[0]}
        if (len(a), len(b)) != (3, 3) or {cls.get(ekey(e)) for e in a} != {(r + 1) % 3} or {cls.get(ekey(e)) for e in b} != {(r + 2) % 3} \
                or ends[0] != qs or ends[1] != qs or len(qs) != 6 or len({ekey(e) for e in a + b}) != 6:
            bad.append(c)
    S.prove(not bad, 'a plaquette is bounded by three edges of each of the other two classes, covering its six qubits', lambda: str(bad[:3]))


def index(S, w, h, style, obs, past=False):
    """Qubit numbering."""
    L = S.loader()
    lay = used(S, L, w, h, style, obs) if past else lay_of(S, L, w, h, style, obs)
    n = w * h
    q2i = {xy(q): i for q, i in lay.q2i.items()}
    i = S.int('i')
    S.prove(len(q2i) == 5 * n // 2 and sorted(q2i.values()) == list(range(5 * n // 2)), 'indices are 0..N-1, one per position')
    data = {q2i[xy(q)] for q in lay.data_qubit_coords}
    S.prove(sor(*[i == k for k in data]) == sand(i >= 0, i < n), 'data qubits come first')
    S.prove(set(lay.data_qubit_indices) == data and len(lay.data_qubit_indices) == n, 'data qubit indices')
    S.prove(set(lay.measure_qubit_indices) == set(range(n, 5 * n // 2)), 'measure qubit indices')
    order = sorted(data, key=lambda k: k)
    pos = {k: q for q, k in q2i.items()}
    S.prove([pos[k] for k in order] == sorted(pos[k] for k in order), 'data indices are ordered by position')
    em = style in ('EM3', 'EM3_v2')
    S.prove(lay.num_qubits == (n if em else 5 * n // 2), 'reported number of qubits')
    S.prove(sorted(lay.used_qubit_indices) == list(range(n if em else 5 * n // 2)), 'used qubits')
    S.prove(lay.num_qubits == len(lay.used_qubit_coords), 'reported number of qubits = used positions')
    e, o = set(lay.data_qubit_indices_1st), set(lay.data_qubit_indices_2nd)
    split = not (e & o) and (e | o) == data and len(e) == len(o)
    mixed = [ed for ed in lay.all_edges if (q2i[xy(ed.left)] in e) == (q2i[xy(ed.right)] in e)]
    S.prove(split and not mixed, 'the two halves of the data qubits form a two-colouring of the edges')
    S.prove(sor(*[i == k for k in lay.qubit_indices_except(sorted(e))]) == sand(i >= 0, i < 5 * n // 2, snot(sor(*[i == k for k in e]))),
            'complement of a set of qubits')


def local(S, first):
    """Any size: the edges around a plaquette, built by the code, are the edges between the plaquettes of the expected colours."""
    w, h = 2 * S.int('tiles_x', 1), 6 * S.int('tiles_y', 1)
    L = S.loader()
    lay = lay_of(S, L, w, h)
    c = hexcenter(S, w, h)
    W, H = 2 * w, h
    es = lay.first_edges_around_hex(c) if first else lay.second_edges_around_hex(c)
    S.prove(len(es) == 3, 'three edges')
    offs = [(1, -1), (1, 0), (1, 1), (-1, 1), (-1, 0), (-1, -1)]
    pairs = [(0, 1), (2, 3), (4, 5)] if first else [(5, 0), (1, 2), (3, 4)]

    def same(a, bx, by):
        dx, dy = a.real - bx, a.imag - by
        return sand(sor(*[dx == k * W for k in range(-2, 3)]), sor(*[dy == k * H for k in range(-2, 3)]))

    def inside(a):
        return sand(a.real >= 0, a.real < W, a.imag >= 0, a.imag < H)
    for p, q in pairs:
        (ax, ay), (bx, by) = offs[p], offs[q]
        m = []
        for e in es:
            x0, y0 = c.real, c.imag
            fwd = sand(same(e.left, x0 + ax, y0 + ay), same(e.right, x0 + bx, y0 + by))
            rev = sand(same(e.right, x0 + ax, y0 + ay), same(e.left, x0 + bx, y0 + by))
            m.append(sand(sor(fwd, rev), same(e.center, x0 + (ax + bx) / 2, y0 + (ay + by) / 2)))
        S.prove(sor(*m), 'each side of the plaquette is there with its endpoints and midpoint')
    for e in es:
        S.prove(sand(inside(e.left), inside(e.right), inside(e.center)), 'positions are reduced to the cell')


def refusal(S):
    L = S.loader()
    w, h = S.int('w', 1), S.int('h', 1)
    try:
        lay_of(S, L, w, h)
        ok = True
    except Exception:
        ok = False
    good = sand(w % 2 == 0, h % 6 == 0)
    S.prove(good if ok else snot(good), 'exactly even widths and heights divisible by six are accepted')


def rounds(S, w, h):
    """Edge classes and bases for any sub-round number."""
    L = S.loader()
    lay = lay_of(S, L, w, h)
    lat = Lattice(w, h)
    r = S.int('r')
    es = {ekey(e) for e in lay.round_edges(r)}
    b = lay.sub_round_edge_basis(r)
    for k in range(3):
        if r % 3 == k:
            S.prove(es == {(frozenset(q), c) for c, q in lat.edges[k].items()}, 'edges of a sub-round depend on it modulo three only')
            S.prove(b == 'XYZ'[k], 'sub-rounds cycle through the bases X, Y, Z')


def interleaved(S, sizes):
    """Several layouts in use at once do not disturb each other."""
    L = S.loader()
    lays = [lay_of(S, L, w, h, st, ob) for (w, h, st, ob) in sizes]
    lats = [Lattice(w, h) for (w, h, _, _) in sizes]
    for step in range(3):
        i = S.choice(f'which{step}', list(range(len(sizes))))
        r = S.choice(f'class{step}', [0, 1, 2])
        es = {ekey(e) for e in lays[i].round_edges(r)}
        S.prove(es == {(frozenset(q), c) for c, q in lats[i].edges[r].items()}, 'edges belong to the layout asked')
        S.prove({xy(c) for c in lays[i].round_hex_centers(r)} == {c for c, k in lats[i].hexes.items() if k == r}, 'plaquettes belong to the layout asked')
        S.prove(len(lays[i].data_qubit_coords) == sizes[i][0] * sizes[i][1], 'data qubits belong to the layout asked')


def jobs(tier):
    out = [job('refusal', refusal), job('local first edges', local, first=True, cost=30), job('local second edges', local, first=False, cost=30)]
    if tier == 'quick':
        sizes = [(w, h) for w in (2, 4, 6, 8, 10, 12) for h in (6, 12, 18)] + [(20, 6), (2, 30), (16, 24)]
    else:
        sizes = [(w, h) for w in range(2, 18, 2) for h in range(6, 36, 6)] + [(20, 6), (24, 36), (2, 60), (40, 6)]
    sizes += [s for s in dict.fromkeys((w, h) for w, h, _ in wide(tier)) if s not in sizes and s[0] * s[1] <= 700 and s not in WIDE]
    for w, h in sizes:
        out.append(job(f'structure {w}x{h}', structure, w=w, h=h, cost=w * h / 8, max_witnesses=2))
        for st, ob in (('SD6', 'V'), ('EM3', 'H')):
            out.append(job(f'index {w}x{h} {st}', index, w=w, h=h, style=st, obs=ob, cost=w * h / 40, max_witnesses=2))
    for st in ('PC3', 'EM3_v2', 'SI1000'):
        out.append(job(f'index 4x6 {st}', index, w=4, h=6, style=st, obs='V', max_witnesses=2))
    out.append(job('rounds 4x6', rounds, w=4, h=6))
    out.append(job('rounds 2x12', rounds, w=2, h=12))
    for w, h in [(2, 6), (4, 6), (6, 6), (2, 18), (4, 12), (8, 6), (6, 12), (12, 6)] + ([(2, 36), (8, 12), (12, 12)] if tier != 'quick' else []):
        out.append(job(f'structure {w}x{h}, used before', structure, w=w, h=h, past=True, cost=w * h / 4, max_witnesses=2))
        for st, ob in (('SD6', 'V'), ('EM3', 'H'), ('PC3', 'H'), ('EM3_v2', 'V'), ('SI1000', 'H')):
            out.append(job(f'index {w}x{h} {st}, used before', index, w=w, h=h, style=st, obs=ob, past=True, cost=w * h / 20, max_witnesses=2))
    out.append(job('interleaved', interleaved, sizes=[(2, 6, 'SD6', 'V'), (4, 6, 'SD6', 'V'), (2, 12, 'EM3', 'H')], cost=10))
    # Different lattices with as many qubits.
    out.append(job('interleaved, same area', interleaved, sizes=[(6, 24, 'SD6', 'V'), (8, 18, 'SD6', 'V'), (12, 12, 'EM3', 'H')], cost=20))
    out.append(job('interleaved, same area, small', interleaved, sizes=[(6, 6, 'SD6', 'V'), (2, 18, 'SD6', 'V')], cost=10))
    return out
