"""Building the repository's circuits with a symbolic number of sub-rounds / noise strength, and instantiating them."""
import stim as _stim
import z3

from checks.common import *
from symx import core, fakestim
from symx.fakestim import CircuitRepeatBlock
from sim import frames

STYLES = ['SD6', 'PC3', 'EM3', 'EM3_v2', 'SI1000']


def env(S):
    return {'stim': fakestim.STIM} if S.symbolic else {}


def load(S):
    return S.loader(env(S))


def as_fake(S, c):
    return c if isinstance(c, fakestim.Circuit) else fakestim.from_real(c)


def sub_rounds(S, style, lo=1, hi=None):
    if style == 'SI1000':
        return S.int('cycles', max(1, (lo + 2) // 3), None if hi is None else hi // 3) * 3
    return S.int('sub_rounds', lo, hi)


def earlier(L, style, obs, w, h, n):
    """Layouts and circuits made in the same process before: each differs from the one looked at in one respect."""
    if isinstance(n, SymNum):
        n = 6
    gen = L.get('honeycomb_circuit').generate_honeycomb_circuit
    lay = L.get('honeycomb_layout').HoneycombLayout
    other = STYLES[(STYLES.index(style) + 1 + n % 4) % 5]
    m = 3 if style == 'SI1000' or other == 'SI1000' else n + 1
    todo = [dict(obs='H' if obs == 'V' else 'V'), dict(data_height=6 if h > 6 else 12), dict(data_width=2 if w > 2 else 4), dict(style=other), dict(sub_rounds=m)]
    for d in todo[n % 2:]:
        k = dict(data_width=w, data_height=h, sub_rounds=n if n % 3 == 0 else m, style=style, obs=obs, noise=0.01)
        k.update(d)
        x = lay(**k)
        gen(x)
        x.as_decoder_problem_desc('internal')


def make(S, style, obs, w, h, n, noise, history=False):
    L = load(S)
    if history:
        earlier(L, style, obs, w, h, n)
    lay = L.get('honeycomb_layout').HoneycombLayout(
        data_width=w, data_height=h, sub_rounds=n, style=style, obs=obs, noise=noise)
    gen = L.get('honeycomb_circuit').generate_honeycomb_circuit
    return L, lay, as_fake(S, gen(lay))


def symbolic_counts(c):
    out = []
    for o in c:
        if isinstance(o, CircuitRepeatBlock):
            if isinstance(o.repeat_count, SymNum):
                out.append(o.repeat_count)
            out += symbolic_counts(o._body)
    return out


def instances(S, c, n, nmax, lo=1):
    """All instantiations of the circuit of this path with n <= nmax: (n0, Flat, general).

    `general` marks the largest one when the path also has larger n (the caller must then show that what it
    checks does not depend on the further repetitions).
    """
    if not isinstance(n, SymNum):
        return [(n, frames.flatten(c), False)]
    vals = []
    for n0 in range(lo, nmax + 1):
        if S.feasible(n == n0):
            vals.append(n0)
    more = S.feasible(n > nmax)
    if not vals and more:
        # Only large n reach this path (a branch on n beyond the bound): take its smallest member.
        n0 = nmax + 1
        for step in (1, 3, 9, 30, 100, 1000, 10000):
            found = None
            for k in range(12):
                if S.feasible(n == n0 + k * step):
                    found = n0 + k * step
                    break
            if found:
                vals = [found]
                break
            n0 += 12 * step
    out = []
    for n0 in vals:
        def count(block, depth):
            t = z3.simplify(z3.substitute(block.repeat_count.t, *subst(S, n, n0)))
            v = core.const_value(t)
            if v is None:
                raise core.Unsupported(f'repeat count {block.repeat_count.t} not determined by the number of rounds')
            return int(v)
        out.append((n0, frames.flatten(c, count), more and n0 == vals[-1]))
    return out


def subst(S, n, n0):
    """z3 substitution making n equal n0 (n is an input or a multiple of one)."""
    out = []
    for name, (kind, t) in S.inputs.items():
        if name == 'sub_rounds':
            out.append((t, z3.IntVal(n0)))
        elif name == 'cycles':
            out.append((t, z3.IntVal(n0 // 3)))
    return out


def label_of(det):
    return f'coords {det[0]}'


def gauge_free(S, flat, parities, names, label, n0):
    gauges, snaps = frames.backward(flat, parities)
    bad = 0
    for _, _, m in gauges:
        bad |= m
    # All measurement randomness is symbolic: one bit per random outcome / initial phase.
    if S.symbolic and bad:
        g = [z3.Bool(f'gauge{i}') for i in range(len(gauges))]
        terms = []
        for d in frames.bits(bad):
            x = z3.BoolVal(False)
            for gi, (_, _, m) in zip(g, gauges):
                if m >> d & 1:
                    x = z3.Xor(x, gi)
            terms.append(z3.Not(x))
        cond = SymBool(z3.And(terms))
    else:
        cond = bad == 0
    pin(S, n0)
    ds = frames.bits(bad)[:5]
    return S.prove(cond, label, lambda: f'n={n0}: random outcome flips {[names[d] for d in ds]}')


def pin(S, n0):
    """Make a counterexample report this very n."""
    S.pinned = n0


def prove_n(S, n, n0, cond, label, detail=''):
    """Obligation for the instance n0 of this path: cond may be concrete; the counterexample has n = n0."""
    if isinstance(n, SymNum):
        if isinstance(cond, SymBool):
            return S.prove(simplies(n == n0, cond), label, detail)
        return S.prove(True if cond else snot(n == n0), label, detail)
    return S.prove(cond, label, detail)


# ---------------------------------------------------------------------------------------------------------------
# An independent description of the honeycomb torus (not read from the repository).

class Lattice:
    """Honeycomb torus with data_width x data_height data qubits, in the repository's documented coordinates."""

    def __init__(self, w, h):
        self.w, self.h = w, h
        self.W, self.H = 2 * w, h
        self.data = set()
        self.hexes = {}
        for row in range(h // 2):
            for col in range(w):
                c = self.wrap((2 * col, 2 * row - col % 2))
                self.hexes[c] = (-row - col % 2) % 3
        self.edges = {}      # class -> {center: (q1, q2)}
        self.edges = {0: {}, 1: {}, 2: {}}
        for (x, y), cat in self.hexes.items():
            for a, b in (((x + 1, y - 1), (x + 1, y - 2)), ((x + 1, y + 1), (x + 1, y + 2)), ((x + 1, y), (x + 3, y))):
                ctr = self.wrap(((a[0] + b[0]) / 2, (a[1] + b[1]) / 2))
                self.edges[cat][ctr] = (self.wrap(a), self.wrap(b))
                self.data.update(self.edges[cat][ctr])
        self.edge_class = {c: k for k in range(3) for c in self.edges[k]}
        self.by_pair = {}
        for k in range(3):
            for c, (a, b) in self.edges[k].items():
                self.by_pair.setdefault((frozenset((a, b)), k), []).append(c)

    def wrap(self, p):
        return (p[0] % self.W, p[1] % self.H)

    def ring(self, hx):
        """Edge centers around a hex: (edges of class cat+1, edges of class cat+2), and its six qubits."""
        x, y = hx
        offs = [(1, -1), (1, 0), (1, 1), (-1, 1), (-1, 0), (-1, -1)]
        qs = [self.wrap((x + a, y + b)) for a, b in offs]
        mids = []
        for i in range(6):
            a, b = offs[i], offs[(i + 1) % 6]
            mids.append(self.wrap((x + (a[0] + b[0]) / 2, y + (a[1] + b[1]) / 2)))
        cat = self.hexes[hx]
        first = [m for m in mids if self.edge_class[m] == (cat + 1) % 3]
        second = [m for m in mids if self.edge_class[m] == (cat + 2) % 3]
        return first, second, qs


def qpos(cs):
    """Coordinates as ints where integral."""
    return tuple(int(c) if c == int(c) else c for c in cs)


OBS_CYCLE = {'V': 'ZYYXXZ', 'H': 'XXZZYY'}


class Records:
    """Which record is which edge parity (sub-round, edge) or final data measurement, read off the circuit itself."""

    def __init__(self, flat, lat, style, n):
        self.problems = []
        self.edge = {}    # (k, center) -> frozenset of records whose XOR is the edge parity
        self.raw = {}
        self.data = {}
        pos = {}
        for q, cs in flat.coords.items():
            if len(cs) != 1 or len(cs[0]) < 2:
                self.problems.append(f'qubit {q} has coordinates {cs}')
            pos[q] = qpos(cs[0][:2])
        self.pos = pos
        if len(set(pos.values())) != len(pos):
            self.problems.append('two qubits share a position')
        count = {}
        touched = {}      # ancilla -> data qubits coupled since its last reset
        self.order = []
        for op in flat.ops:
            if op.kind == 'R':
                touched[op.qs[0]] = []
            elif op.kind == 'U' and len(op.qs) == 2:
                a, b = op.qs
                touched.setdefault(a, []).append(b)
                touched.setdefault(b, []).append(a)
            elif op.kind == 'M':
                if len(op.qs) == 1:
                    q = op.qs[0]
                    p = pos.get(q)
                    if p in lat.data:
                        if p in self.data:
                            self.problems.append(f'data qubit {p} measured twice')
                        self.data[p] = op.rec
                        continue
                    if p in lat.edge_class:
                        ctr = p
                    else:
                        ctr = self._pair(lat, [pos.get(x) for x in touched.get(q, [])[-2:]], count)
                else:
                    ctr = self._pair(lat, [pos.get(x) for x in op.qs], count)
                if ctr is None:
                    self.problems.append(f'measurement {op.rec} is not an edge or data measurement')
                    continue
                i = count.get(ctr, 0)
                count[ctr] = i + 1
                self.raw[(3 * i + lat.edge_class[ctr], ctr)] = op.rec
        for (k, c), r in self.raw.items():
            s = frozenset([r])
            if style == 'PC3' and (k - 3, c) in self.raw:
                s ^= {self.raw[(k - 3, c)]}
            self.edge[(k, c)] = s
        want = {(k, c) for k in range(n) for c in lat.edges[k % 3]}
        if want != set(self.raw):
            miss, extra = sorted(want - set(self.raw))[:3], sorted(set(self.raw) - want)[:3]
            self.problems.append(f'edge measurements missing {miss}, extra {extra}')
        if set(self.data) != lat.data:
            self.problems.append(f'final data measurements: {len(self.data)} of {len(lat.data)}')

    @staticmethod
    def _pair(lat, qs, count):
        if len(qs) != 2 or None in qs:
            return None
        best = None
        for k in range(3):
            for c in lat.by_pair.get((frozenset(qs), k), []):
                # On degenerate tori two parallel edges may join the same qubits: the less measured one of the
                # class whose turn it is.
                if best is None or 3 * count.get(c, 0) + k < 3 * count.get(best, 0) + lat.edge_class[best]:
                    best = c
        return best


def concrete_circuit(S, c, n, n0):
    """Real stim circuit of the instance (noise removed)."""
    def conv(c):
        r = _stim.Circuit()
        for o in c:
            if isinstance(o, CircuitRepeatBlock):
                k = o.repeat_count
                if isinstance(k, SymNum):
                    k = int(core.const_value(z3.simplify(z3.substitute(k.t, *subst(S, n, n0)))))
                r.append(_stim.CircuitRepeatBlock(k, conv(o._body)))
            else:
                g = _stim.gate_data(o.name)
                if g.is_noisy_gate and not g.produces_measurements:
                    continue
                a = [] if g.produces_measurements else [float(x) for x in o._a]
                r.append(_stim.CircuitInstruction(o.name, o._t, a))
        return r
    return conv(c)


def ideal_circuit(lat, obs, n):
    """The reference protocol: init, n rounds of ideal edge parity measurements, final data measurement."""
    qs = sorted(lat.data)
    idx = {q: i for i, q in enumerate(qs)}
    c = _stim.Circuit()
    cyc = OBS_CYCLE[obs]
    c.append({'X': 'RX', 'Y': 'RY', 'Z': 'R'}[cyc[0]], range(len(qs)))
    order = []
    for k in range(n):
        b = 'XYZ'[k % 3]
        t = {'X': _stim.target_x, 'Y': _stim.target_y, 'Z': _stim.target_z}[b]
        for ctr in sorted(lat.edges[k % 3]):
            a, bq = lat.edges[k % 3][ctr]
            c.append('MPP', [t(idx[a]), _stim.target_combiner(), t(idx[bq])])
            order.append((k, ctr))
    b = cyc[n % 6]
    c.append({'X': 'MX', 'Y': 'MY', 'Z': 'M'}[b], range(len(qs)))
    return c, order + [('d', q) for q in qs]


_ideal_cache = {}


def ideal(lat, obs, n):
    key = (lat.w, lat.h, obs, n)
    if key not in _ideal_cache:
        c, order = ideal_circuit(lat, obs, n)
        f = frames.flatten(fakestim.from_real(c))
        recs, nb = frames.gauge_space(f)
        null = frames.null_space(recs)
        ref = c.reference_sample()
        signs = [sum(int(ref[i]) for i in frames.bits(m)) & 1 for m in null]
        _ideal_cache[key] = (order, [frames.bits(m) for m in null], signs, frames.rank(recs))
    return _ideal_cache[key]


# ---------------------------------------------------------------------------------------------------------------
# Lattice sizes beyond the ones explored with a symbolic number of sub-rounds.

WIDE = [(6, 6), (8, 6), (12, 6), (20, 6), (2, 18), (2, 24), (2, 48), (4, 12), (6, 12), (8, 12), (10, 12), (14, 12), (4, 18), (8, 18), (12, 18),
        (4, 24), (16, 24), (6, 30), (12, 36), (22, 30)]


def constants():
    """Integers the circuit code compares sizes with (read from its current source), so that sizes around them are explored."""
    import ast
    import os
    from symx import loader
    out = set()
    for f in ('honeycomb_layout.py', 'honeycomb_circuit.py', 'measure_tracker.py', 'noise.py'):
        try:
            tree = ast.parse(open(os.path.join(loader.REPO_SRC, f)).read())
        except (OSError, SyntaxError):
            continue
        for node in ast.walk(tree):
            if isinstance(node, ast.Compare):
                for x in ast.walk(node):
                    if isinstance(x, ast.Constant) and type(x.value) is int and 6 < x.value <= 900:
                        out.add(x.value)
    return sorted(out)[:6]


def wide(tier, most=10**9):
    """(w, h, n) beyond the small sizes; n varies with the size."""
    sizes = [s for s in WIDE if s[0] * s[1] <= most]
    if tier != 'quick':
        sizes += [s for s in [(30, 6), (40, 12), (2, 60), (4, 60), (18, 18), (24, 36), (16, 30)] if s[0] * s[1] <= most]
    for k in constants():
        if k <= 60:
            sizes += [(k + k % 2, 6), (k + k % 2 + 2, 6), (2, -(-k // 6) * 6), (2, k // 6 * 6 + 6)]
        for w in (4, 6, 8, 12, 16, 20, 24, 30):
            h = (k // w // 6 + 1) * 6
            if h <= w * 2:
                sizes.append((w, h))
                break
    seen = []
    for s in sizes:
        if s not in seen and s[0] * s[1] <= max(most, 200):
            seen.append(s)
    return [(w, h, [7, 8, 9, 6, 10, 11][i % 6]) for i, (w, h) in enumerate(seen)]


def wide_jobs(fn, tier, most=10**9, **kw):
    out = []
    for style in STYLES:
        for obs in 'VH':
            for w, h, n in wide(tier, most):
                if style == 'SI1000':
                    n = 6 if n % 3 else 9
                out.append(job(f'{style} {obs} {w}x{h} n={n}', fn, style=style, obs=obs, w=w, h=h, nmax=n, lo=n, hi=n, cost=w * h / 4, max_witnesses=1, history=w * h <= 60, **kw))
    return out
