"""P14: decoding by matching - every shot is decoded from its own symptoms on the model's graph."""
import types

import numpy as np

from checks.dem import *

BOUNDS = ('0..2 shots, 0..3 detectors, 0..3 observables, every symptom bit symbolic, every answer of the matching library symbolic (0 to all '
          'observables long); error probabilities any reals in (0, 0.5]; model graphs of P13\'s kind; '
          'up to 1030 shots, 101 detectors and 70 observables with a few symbolic bits')
OUTSIDE = 'the matching library itself (C++) is replaced by an arbitrary function of the symptoms it is given'
ASSUMPTIONS = ['the matching library maps a symptom vector (detectors, then boundary nodes) to one bit per observable it knows of']

MODELS = {
    0: [],
    1: [('error', 'p0', 'D0 L0'), ('error', 'p1', 'D0')],
    2: [('error', 'p0', 'D0 D1 L0'), ('error', 'p1', 'D1'), ('error', 'p1', 'D0 L1')],
    3: [('error', 'p0', 'D0 D1'), ('repeat', 2, [('error', 'p1', 'D0 D1 L0 ^ D0'), ('shift', 1, [])]), ('detector', [1.0], 'D0')],
}


class FakeCircuit:
    """What the decoding code asks of a circuit."""

    def __init__(self, dem, nd, no, samples=None, log=None):
        self._dem, self.num_detectors, self.num_observables = dem, nd, no
        self._samples, self.log = samples, log if log is not None else []
        self.num_measurements = nd

    def detector_error_model(self, **k):
        self.log.append(('dem', k))
        return self._dem

    def compile_detector_sampler(self, **k):
        return self

    def sample(self, shots, *, append_observables=False, prepend_observables=False, separate_observables=False, bit_packed=False, **k):
        if bit_packed or prepend_observables:
            raise TypeError('verif stub: unsupported sampling option argument')
        self.log.append(('sample', shots))
        rows = self._samples[:shots]
        nd, no = self.num_detectors, self.num_observables
        dt = object if any(isinstance(b, SymBool) for r in rows for b in r) else np.bool_
        a = np.empty((len(rows), nd + no), dtype=dt)
        for i, r in enumerate(rows):
            for j, b in enumerate(r):
                a[i, j] = b
        if separate_observables:
            return a[:, :nd], a[:, nd:]
        return a if append_observables else a[:, :nd]

    def __str__(self):
        return 'M 0'


class Matching:
    """The matching library: an arbitrary function of the symptoms."""
    seen = None
    answer = None
    used = None

    def __init__(self, graph=None, *a, **k):
        self.graph = graph
        type(self).seen.append(('graph', graph))

    @classmethod
    def from_detector_error_model(cls, m, *a, **k):
        raise NotImplementedError('verif stub: matching graph built by the library')

    def decode(self, z, *a, **k):
        row = list(z)
        type(self).used = self.graph
        type(self).seen.append(('decode', row))
        return type(self).answer(row)

    def decode_batch(self, zs, *a, **k):
        return np.array([self.decode(z) for z in zs], dtype=object)


def make_matching(answer):
    cls = type('Matching', (Matching,), dict(seen=[], answer=staticmethod(answer)))
    m = types.ModuleType('pymatching')
    m.Matching = cls
    return m, cls


def bit(S, x):
    return x if isinstance(x, (SymBool, bool)) else bool(x)


EARLIER = {
    0: [],
    1: [('error', 0.25, 'D0'), ('error', 0.125, 'D0 L0')],
    2: [('error', 0.125, 'D0 D1'), ('error', 0.375, 'D0 L0'), ('error', 0.25, 'D1')],
    3: [('error', 0.125, 'D0 D2'), ('repeat', 2, [('error', 0.25, 'D0 L0 ^ D1'), ('shift', 1, [])]), ('detector', [3.0], 'D0')],
}


def decode(S, nd, no, shots, history=False, big=False):
    ps = {'p0': S.real('p0', 0, 0.5, lo_open=True), 'p1': S.real('p1', 0, 0.5, lo_open=True)}

    def fill(items):
        return [('error', ps[i[1]], i[2]) if i[0] == 'error' else ('repeat', i[1], fill(i[2])) if i[0] == 'repeat' else i for i in items]
    items = fill(MODELS[nd]) if not big else chain(nd, no, ps['p0'], ps['p1'])
    S.notes['log_plain'] = True
    dem = build(S, items)
    n_answer = S.choice('answered observables', list(range(no + 1)) if not big else [no, max(no - 1, 0)])
    det = [[S.bool(f'd{i}_{j}') for j in range(nd)] for i in range(shots)] if not big else partly(S, 'd', shots, nd, 5)
    ans = [[S.bool(f'a{i}_{j}') for j in range(n_answer)] for i in range(shots)] if not big else [r[:n_answer] for r in partly(S, 'a', shots, no, 5)]
    count = [0]

    def answer(row):
        k = count[0]
        count[0] += 1
        out = np.empty(n_answer, dtype=object if S.symbolic else np.uint8)
        for j in range(n_answer):
            out[j] = ans[k % max(shots, 1)][j]
        return out
    pm, cls = make_matching(answer)
    L = S.loader(env(S, {'pymatching': pm}))
    dec = L.get('decoding')
    c = FakeCircuit(dem if S.symbolic else dem.to_real(), nd, no)
    if history:
        # Something else of the same size was decoded in this process before.
        old = build(S, EARLIER[nd])
        dec.decode_using_pymatching(circuit=FakeCircuit(old if S.symbolic else old.to_real(), nd, no), det_samples=np.ones((shots, nd), dtype=np.bool_),
                                    use_correlated_decoding=False)
        cls.seen.clear()
        count[0] = 0
    arr = np.empty((shots, nd), dtype=object if S.symbolic else np.bool_)
    for i in range(shots):
        for j in range(nd):
            arr[i, j] = det[i][j]
    ctx = lambda: f'{nd} detectors {no} observables {shots} shots answer of {n_answer}: {arr.tolist()} {ans}'
    pred = dec.decode_using_pymatching(circuit=c, det_samples=arr, use_correlated_decoding=False)
    S.prove(tuple(pred.shape) == (shots, no), 'one prediction row per shot, one column per observable', lambda: f'{ctx()} shape {pred.shape}')
    calls = [r for k, r in cls.seen if k == 'decode']
    S.prove(len(calls) == shots, 'each shot is decoded once', ctx)
    for i, row in enumerate(calls):
        S.prove(len(row) >= nd, 'the decoder sees every detector', ctx)
        S.prove(sand(*[bit(S, a) == b for a, b in zip(row, det[i])]), 'each shot is decoded from its own symptoms', ctx)
        S.prove(sand(*[snot(bit(S, a)) for a in row[nd:]]), 'boundary nodes carry no symptom', ctx)
    S.prove(sand(*[bit(S, pred[i, j]) == (ans[i][j] if j < n_answer else False) for i in range(shots) for j in range(no)]),
            'predictions are the decoder\'s answers, observables it does not know of are not flipped', lambda: f'{ctx()} -> {pred}')
    S.prove(all(k[1].get('decompose_errors') for k in c.log if k[0] == 'dem'), 'the error model is decomposed into matchable parts', ctx)
    # The graph handed to the library.
    errs, coords = meaning(S, items)
    want = expected_graph(S, errs, nd)
    graphs = [g for k, g in cls.seen if k == 'graph']
    S.prove(len(graphs) >= 1, 'a graph is built', ctx)
    g = cls.used if calls else graphs[0]
    if not hasattr(g, 'edges'):
        raise NotImplementedError('verif stub: graph type')
    ge = {frozenset((int(a), int(b))): d for a, b, d in g.edges(data=True)}
    S.prove(all(k in g.nodes for k in range(nd)), 'every detector is a node', ctx)
    S.prove(bool(g.nodes[nd].get('is_boundary')) and not any(v.get('is_boundary') for k, v in g.nodes(data=True) if k != nd), 'the boundary is marked', ctx)
    S.prove(all(k in ge for k in want), 'the model\'s edges are all present', ctx)
    for k, d in ge.items():
        if k in want:
            p, f = want[k]
            S.prove(set(d.get('qubit_id', d.get('fault_ids'))) == set(f), 'edge observables', ctx)
            S.prove(S.close(d['weight'], log_ratio(d['error_probability']), 1e-6, 1e-9), 'edge weights', ctx)
            S.prove(S.close(d['error_probability'], p, 1e-6, 1e-12), 'edge probabilities', ctx)
        else:
            S.prove(d['weight'] >= 1e6, 'padding edges are never preferred to a model edge', lambda: f'{ctx()} {sorted(k)} {d}')


def refuses(S):
    pm, cls = make_matching(lambda row: np.zeros(1))
    L = S.loader(env(S, {'pymatching': pm}))
    dec = L.get('decoding')
    S.bool('unused')
    dem = build(S, [])
    try:
        dec.decode_using_pymatching(circuit=FakeCircuit(dem if S.symbolic else dem.to_real(), 0, 0), det_samples=np.zeros((0, 0), dtype=np.bool_),
                                    use_correlated_decoding=True)
    except NotImplementedError:
        S.prove(True, 'correlated matching is refused')
        return
    S.prove(False, 'correlated matching is refused')


def jobs(tier):
    out = [job('refuses', refuses)]
    q = tier == 'quick'
    for nd in range(4):
        for no in range(3 if q else 4):
            for shots in range(3 if q else 4):
                out.append(job(f'{nd} detectors {no} observables {shots} shots', decode, nd=nd, no=no, shots=shots, cost=nd * shots + 1))
        out.append(job(f'{nd} detectors 2 observables, not the first decoded', decode, nd=nd, no=2, shots=1, history=True, cost=nd + 1))
    for nd, no, shots in big_shapes(tier):
        out.append(job(f'{nd} detectors {no} observables {shots} shots', decode, nd=nd, no=no, shots=shots, big=True, cost=10, max_witnesses=2))
    return out
