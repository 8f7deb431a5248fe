"""Pauli-frame semantics of circuits (noise-free part): which parities react to which Paulis, and which are gauge free.

A circuit is given as a symx.fakestim.Circuit (repeat counts possibly symbolic; they are instantiated by the
caller's chosen count when flattening).  All state is GF(2)-linear, kept as integer bit masks: bit d of a mask
says whether parity d (a detector, an observable, or any set of records) is flipped.
"""
import functools

import stim

from symx import fakestim
from symx.core import SymNum


@functools.lru_cache(maxsize=None)
def gate_kind(name):
    g = stim.gate_data(name)
    if g.is_unitary:
        t = g.tableau
        n = len(t)
        rows = []
        for i in range(n):
            for out in (t.x_output(i), t.z_output(i)):
                rows.append(tuple((j, out[j]) for j in range(n) if out[j]))
        return 'U', n, rows
    if name in ('M', 'MX', 'MY', 'MR', 'MRX', 'MRY', 'MXX', 'MYY', 'MZZ', 'MPP'):
        return 'M', None, None
    if name in ('R', 'RX', 'RY'):
        return 'R', None, None
    if g.is_noisy_gate and not g.produces_measurements:
        return 'N', None, None
    return 'A', None, None


class Op:
    """One elementary operation: U (gate), M (Pauli product measurement), R (reset)."""
    __slots__ = ('kind', 'qs', 'rows', 'rec', 'pauli', 'tick', 'boundary', 'src')

    def __init__(self, kind, qs, rows=None, rec=None, pauli=None, tick=0, src=''):
        self.kind, self.qs, self.rows, self.rec, self.pauli, self.tick, self.src = kind, qs, rows, rec, pauli, tick, src


class Flat:
    """An instantiated circuit."""

    def __init__(self):
        self.ops = []            # Op
        self.num_rec = 0
        self.detectors = []      # (coords, frozenset(records), op position)
        self.obs = {}            # index -> set of records
        self.obs_parts = {}      # index -> list of (op position, frozenset)
        self.coords = {}         # qubit -> coords
        self.boundaries = []     # (op position, num_rec, label)
        self.ticks = 0
        self.rec_info = []       # per record: (op position)
        self.shift = []
        self.noise = 0
        self.faults = []         # (op position, channel name, qubits, tick): one entry per elementary channel


PAULI = {'X': 1, 'Y': 2, 'Z': 3}


def flatten(circuit, count=None):
    """count(block, depth) -> int gives the repetitions of a symbolic block."""
    f = Flat()
    shift = [0.0] * 16
    noisy = [False]

    def add_meas(qp, invert=False, src=''):
        f.ops.append(Op('M', tuple(q for q, _ in qp), pauli=tuple(p for _, p in qp), rec=f.num_rec, tick=f.ticks, src=src))
        f.rec_info.append(len(f.ops) - 1)
        if noisy[0]:
            f.faults.append((len(f.ops), 'FLIP', (f.num_rec,), f.ticks))
        f.num_rec += 1

    def run(c, depth):
        for o in c:
            if isinstance(o, fakestim.CircuitRepeatBlock):
                n = o.repeat_count
                n = count(o, depth) if isinstance(n, SymNum) else int(n)
                for i in range(n):
                    f.boundaries.append((len(f.ops), f.num_rec, len(f.detectors), depth, i))
                    run(o._body, depth + 1)
                f.boundaries.append((len(f.ops), f.num_rec, len(f.detectors), depth, n))
                continue
            name = o.name
            k, n, rows = gate_kind(name)
            ts = o._t
            if k == 'U':
                if n == 0:
                    continue
                for i in range(0, len(ts), n):
                    f.ops.append(Op('U', tuple(t.value for t in ts[i:i + n]), rows, tick=f.ticks, src=name))
            elif k == 'M':
                noisy[0] = len(o._a) > 0
                if name == 'MPP':
                    group = []
                    after = False
                    for t in ts:
                        if t.is_combiner:
                            after = True
                            continue
                        if not after and group:
                            add_meas(group, src=name)
                            group = []
                        after = False
                        group.append((t.value, PAULI[t.pauli_type]))
                    if group:
                        add_meas(group, src=name)
                elif name in ('MXX', 'MYY', 'MZZ'):
                    for i in range(0, len(ts), 2):
                        p = PAULI[name[1]]
                        add_meas([(ts[i].value, p), (ts[i + 1].value, p)], src=name)
                else:
                    b = PAULI[name[-1]] if name[-1] in 'XY' else 3
                    for t in ts:
                        add_meas([(t.value, b)], src=name)
                        if name.startswith('MR'):
                            f.ops.append(Op('R', (t.value,), pauli=(b,), tick=f.ticks, src=name))
            elif k == 'R':
                b = PAULI[name[-1]] if name[-1] in 'XY' else 3
                for t in ts:
                    f.ops.append(Op('R', (t.value,), pauli=(b,), tick=f.ticks, src=name))
            elif name == 'TICK':
                f.ticks += 1
            elif name == 'DETECTOR':
                recs = frozenset()
                for t in ts:
                    recs ^= {f.num_rec + t.value}
                cs = tuple(float(a) + shift[i] for i, a in enumerate(o._a))
                f.detectors.append((cs, recs, len(f.ops)))
            elif name == 'OBSERVABLE_INCLUDE':
                recs = frozenset()
                for t in ts:
                    recs ^= {f.num_rec + t.value}
                i = int(o._a[0])
                f.obs[i] = f.obs.get(i, frozenset()) ^ recs
                f.obs_parts.setdefault(i, []).append((len(f.ops), recs))
            elif name == 'SHIFT_COORDS':
                for i, a in enumerate(o._a):
                    shift[i] += float(a)
            elif name == 'QUBIT_COORDS':
                for t in ts:
                    f.coords.setdefault(t.value, []).append(tuple(float(a) for a in o._a))
            elif k == 'N':
                f.noise += 1
                if name in ('E', 'CORRELATED_ERROR'):
                    # One fault: the product of its Pauli targets.
                    f.faults.append((len(f.ops), 'E', tuple((t.value, t.pauli_type) for t in ts), f.ticks))
                    continue
                size = 2 if name in ('DEPOLARIZE2', 'PAULI_CHANNEL_2') else 1
                for i in range(0, len(ts), size):
                    f.faults.append((len(f.ops), name, tuple(t.value for t in ts[i:i + size]), f.ticks))
    run(circuit, 0)
    return f


def backward(flat, parities, snapshots=()):
    """Back-propagates parities (list of record sets).

    Returns (gauges, snaps): gauges = list of (op index or -1, qubit(s), mask) of parities flipped by a gauge
    operator (measurement/reset/initial-state randomness); snaps[pos] = (sx, sz) just before op `pos`.
    """
    rec_mask = {}
    for d, recs in enumerate(parities):
        for r in recs:
            rec_mask[r] = rec_mask.get(r, 0) ^ (1 << d)
    sx, sz = {}, {}
    gauges = []
    snaps = {}
    want = set(snapshots)
    if len(flat.ops) in want:
        snaps[len(flat.ops)] = ({}, {})
    for pos in range(len(flat.ops) - 1, -1, -1):
        op = flat.ops[pos]
        if op.kind == 'U':
            qs = op.qs
            new = []
            for i, q in enumerate(qs):
                for r in (2 * i, 2 * i + 1):
                    v = 0
                    for j, p in op.rows[r]:
                        if p != 3:
                            v ^= sx.get(qs[j], 0)
                        if p != 1:
                            v ^= sz.get(qs[j], 0)
                    new.append(v)
            for i, q in enumerate(qs):
                sx[q] = new[2 * i]
                sz[q] = new[2 * i + 1]
        elif op.kind == 'M':
            m = rec_mask.get(op.rec, 0)
            g = 0
            for q, p in zip(op.qs, op.pauli):
                if p != 3:
                    g ^= sx.get(q, 0)
                if p != 1:
                    g ^= sz.get(q, 0)
            if g:
                gauges.append((pos, op.qs, g))
            if m:
                for q, p in zip(op.qs, op.pauli):
                    if p != 1:
                        sx[q] = sx.get(q, 0) ^ m
                    if p != 3:
                        sz[q] = sz.get(q, 0) ^ m
        else:
            q, p = op.qs[0], op.pauli[0]
            g = 0
            if p != 3:
                g ^= sx.get(q, 0)
            if p != 1:
                g ^= sz.get(q, 0)
            if g:
                gauges.append((pos, op.qs, g))
            sx[q] = sz[q] = 0
        if pos in want:
            snaps[pos] = ({q: v for q, v in sx.items() if v}, {q: v for q, v in sz.items() if v})
    for q, v in sz.items():
        if v:
            gauges.append((-1, (q,), v))
    return gauges, snaps


def gauge_space(flat):
    """Forward simulation: every record as a mask over independent random bits (measurement/reset/initial gauges)."""
    fx, fz = {}, {}
    nbits = 0
    recs = []
    # Initial |0>: random Z frame.
    for op in flat.ops:
        for q in op.qs:
            if q not in fz:
                fz[q] = 1 << nbits
                fx[q] = 0
                nbits += 1
    for op in flat.ops:
        qs = op.qs
        if op.kind == 'U':
            nx, nz = [0] * len(qs), [0] * len(qs)
            for i, q in enumerate(qs):
                for r, v in ((2 * i, fx[q]), (2 * i + 1, fz[q])):
                    if v:
                        for j, p in op.rows[r]:
                            if p != 3:
                                nx[j] ^= v
                            if p != 1:
                                nz[j] ^= v
            for i, q in enumerate(qs):
                fx[q], fz[q] = nx[i], nz[i]
        elif op.kind == 'M':
            v = 0
            for q, p in zip(qs, op.pauli):
                if p != 1:
                    v ^= fx[q]
                if p != 3:
                    v ^= fz[q]
            recs.append(v)
            b = 1 << nbits
            nbits += 1
            for q, p in zip(qs, op.pauli):
                if p != 3:
                    fx[q] ^= b
                if p != 1:
                    fz[q] ^= b
        else:
            q, p = qs[0], op.pauli[0]
            fx[q] = fz[q] = 0
            b = 1 << nbits
            nbits += 1
            if p != 3:
                fx[q] ^= b
            if p != 1:
                fz[q] ^= b
    return recs, nbits


def rank(rows):
    """Rank of GF(2) rows given as ints."""
    basis = {}
    r = 0
    for v in rows:
        while v:
            h = v.bit_length()
            if h in basis:
                v ^= basis[h]
            else:
                basis[h] = v
                r += 1
                break
    return r


def null_space(rows):
    """Combinations of rows (as ints over row indices) that XOR to zero: a basis."""
    basis = {}
    out = []
    for i, v in enumerate(rows):
        c = 1 << i
        while v:
            h = v.bit_length()
            if h in basis:
                bv, bc = basis[h]
                v ^= bv
                c ^= bc
            else:
                basis[h] = (v, c)
                break
        if not v:
            out.append(c)
    return out


def bits(m):
    out = []
    while m:
        b = m & -m
        out.append(b.bit_length() - 1)
        m ^= b
    return out
