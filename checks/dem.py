"""Symbolic detector error models and their meaning."""
import stim as _stim

from checks.common import *
from symx import core, fakedem, fakenp

D, Lo, SEP = _stim.target_relative_detector_id, _stim.target_logical_observable_id, _stim.target_separator


def targets(text):
    return [SEP() if w == '^' else D(int(w[1:])) if w[0] == 'D' else Lo(int(w[1:])) for w in text.split()]


def env(S, extra=None):
    e = {'stim': fakedem.STIM, 'numpy': fakenp.NUMPY} if S.symbolic else {}
    e.update(extra or {})
    return e


def build(S, items):
    """items: ('error', p, text) | ('detector', coords, text) | ('shift', amount, coords) | ('obs', text) | ('repeat', n, items)"""
    m = fakedem.DetectorErrorModel()
    for it in items:
        if it[0] == 'error':
            m.append(fakedem.DemInstruction('error', [it[1]], targets(it[2])))
        elif it[0] == 'detector':
            m.append(fakedem.DemInstruction('detector', list(it[1]), targets(it[2])))
        elif it[0] == 'shift':
            m.append(fakedem.DemInstruction('shift_detectors', list(it[2]), [it[1]]))
        elif it[0] == 'obs':
            m.append(fakedem.DemInstruction('logical_observable', [], targets(it[1])))
        else:
            m.append(fakedem.DemRepeatBlock(it[1], build(S, it[2])))
    return m


def meaning(S, items):
    """[(p, dets, frames)], {detector: coords}: what a detector error model means, by definition."""
    errs, coords = [], {}
    off = 0
    shift = []

    def run(items):
        nonlocal off
        for it in items:
            if it[0] == 'repeat':
                k = 0
                while k < it[1]:
                    run(it[2])
                    k += 1
            elif it[0] == 'error':
                for part in it[2].split('^'):
                    w = part.split()
                    errs.append((it[1], [int(off + int(x[1:])) for x in w if x[0] == 'D'], [int(x[1:]) for x in w if x[0] == 'L']))
            elif it[0] == 'detector':
                for x in it[2].split():
                    coords[int(off + int(x[1:]))] = [c + (shift[i] if i < len(shift) else 0) for i, c in enumerate(it[1])]
            elif it[0] == 'shift':
                off = off + it[1]
                for i, c in enumerate(it[2]):
                    if i >= len(shift):
                        shift.append(0)
                    shift[i] = shift[i] + c
    run(items)
    return errs, coords


def expected_graph(S, errs, boundary):
    """{frozenset(nodes): (p, frames)}; None if an error cannot be an edge."""
    edges = {}
    for p, dets, frames in errs:
        if len(dets) > 2:
            if p == 0:
                continue
            return None
        if not dets or p == 0:
            continue
        k = frozenset(dets if len(dets) == 2 else [dets[0], boundary])
        if k in edges:
            q, f = edges[k]
            if set(f) == set(frames):
                edges[k] = (p * (1 - q) + q * (1 - p), f)
        else:
            edges[k] = (p, frames)
    return edges


def log_ratio(p):
    """ln((1-p)/p) in either mode."""
    if isinstance(p, SymNum):
        return core.slog((1 - p) / p)
    import math
    return math.log((1 - p) / p)


def big_shapes(tier):
    """(detectors, observables, shots) of more than one digit, and around integers the decoding code compares with."""
    out = [(12, 11, 3), (2, 70, 2), (101, 2, 2), (1, 1, 40), (3, 2, 130), (2, 1, 1030), (33, 1, 65)]
    for k in source_ints(('decoding.py',), 2, 20000, 4):
        out += [(2, 1, k - 1), (2, 1, k), (2, 1, k + 1), (min(k + 1, 300), 2, 2)]
    if tier != 'quick':
        out += [(300, 1, 3), (2, 20, 12), (4, 3, 5000), (1025, 1, 2)]
    return out


def partly(S, name, rows, cols, live=3):
    """A bit table: a few symbolic bits, the others a fixed mixture."""
    spots = [(0, 0), (rows - 1, cols - 1), (rows // 2, cols // 2), (rows - 1, 0), (0, cols - 1)]
    spots = list(dict.fromkeys(spots))[:live]
    return [[S.bool(f'{name}{i}_{j}') if (i, j) in spots else (i * 7 + j * 5 + i * j // 3) % 3 == 0 for j in range(cols)] for i in range(rows)]


def chain(nd, no, p0=0.125, p1=0.25):
    """A model with nd detectors in a row, the observables spread over them."""
    return [('error', p0, f'D0 L{no - 1}')] + [('error', p1 if k % 2 else 0.0625, f'D{k} D{k + 1}' + (f' L{k % no}' if k < no - 1 else '')) for k in range(nd - 1)] + [('error', p1, f'D{nd - 1}')]
