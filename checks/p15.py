"""P15: the number of correct shots is exactly the number of shots whose every observable was predicted."""
import numpy as np

from checks.dem import *
from checks.p14 import FakeCircuit, make_matching, bit

BOUNDS = ('0..3 shots, 0..2 detectors, 0..2 observables (quick; one more of each in thorough), every sampled bit and every predicted bit '
          'symbolic; up to 1030 shots, 101 detectors and 70 observables with a few symbolic bits, also with every pair of up to 65 observables wrong; all decoder names; with and without a separate model circuit')
OUTSIDE = 'the sampler and the matching library are replaced by arbitrary functions'
ASSUMPTIONS = ['the sampler returns one row per shot: detectors, then observables']

DEM = {0: [], 1: [('error', 0.1, 'D0 L0')], 2: [('error', 0.1, 'D0 D1 L0'), ('error', 0.2, 'D1 L1')], 3: [('error', 0.1, 'D0 D1 L0'), ('error', 0.2, 'D2 L1')]}


def count(S, nd, no, shots, separate, history=False, big=False):
    S.notes['log_plain'] = True
    if big:
        rows = partly(S, 's', shots + 1, nd + no, 4)
        ans = partly(S, 'a', shots, no, 4)
        pairs = [(i, j) for i in range(no) for j in range(i)]
        for i in range(shots):
            if big == 'pairs':
                # Every shot is wrong in exactly two observables, another pair each time.
                if i:
                    ans[i] = [snot(b) if j in pairs[i % len(pairs)] else b for j, b in enumerate(rows[i][nd:])]
            elif i % 4:
                # Mostly right predictions, some wrong in a single observable.
                ans[i] = [b if i % 4 != 3 or j != i % no else snot(b) for j, b in enumerate(rows[i][nd:])]
    else:
        rows = [[S.bool(f's{i}_{j}') for j in range(nd + no)] for i in range(shots + 1)]
        ans = [[S.bool(f'a{i}_{j}') for j in range(no)] for i in range(shots)]
    k = [0]

    def answer(row):
        i = k[0]
        k[0] += 1
        out = np.empty(no, dtype=object if S.symbolic else np.uint8)
        for j in range(no):
            out[j] = ans[i % max(shots, 1)][j]
        return out
    pm, cls = make_matching(answer)
    L = S.loader(env(S, {'pymatching': pm}))
    dec = L.get('decoding')
    dem = build(S, DEM[nd] if not big else chain(nd, no))
    other = build(S, [('error', 0.25, f'D{nd - 1}')] if nd else [])
    log, log2 = [], []
    mk = (lambda m: m) if S.symbolic else (lambda m: m.to_real())
    c = FakeCircuit(mk(dem), nd, no, rows, log)
    kw = {}
    if separate:
        kw['model_circuit'] = FakeCircuit(mk(other), nd, no, [], log2)
    ctx = lambda: f'{nd} detectors {no} observables {shots} shots: {rows} predicted {ans}'
    if history:
        # Another circuit of the same size was sampled in this process before.
        old = build(S, [('error', 0.375, f'D{nd - 1} L0'), ('error', 0.0625, f'D0')][:max(1, nd)] if nd else [])
        dec.sample_decode_count_correct(circuit=FakeCircuit(mk(old), nd, no, [[True] * (nd + no)] * shots), num_shots=shots, decoder='pymatching')
        cls.seen.clear()
        k[0] = 0
    got = dec.sample_decode_count_correct(circuit=c, num_shots=shots, decoder='pymatching', **kw)
    want = 0
    for i in range(shots):
        want = want + site(sand(*[rows[i][nd + j] == ans[i][j] for j in range(no)]), 1, 0)
    S.prove(got == want, 'correct shots are those whose every observable is predicted', lambda: f'{ctx()}: got {got}')
    S.prove(sum(n for kind, n in log if kind == 'sample') == shots, 'exactly the requested number of shots is sampled', ctx)
    S.prove(not any(kind == 'sample' for kind, _ in log2), 'the model circuit is not sampled', ctx)
    calls = [r for kind, r in cls.seen if kind == 'decode']
    if shots and no:
        S.prove(len(calls) == shots, 'every shot is decoded', ctx)
    for i, row in enumerate(calls):
        S.prove(sand(*[bit(S, a) == b for a, b in zip(row, rows[i][:nd])]), 'decoding sees the detectors of its shot and no observable', ctx)
        S.prove(sand(*[snot(bit(S, a)) for a in row[nd:]]), 'decoding sees no observable', ctx)
    if separate:
        S.prove(not any(kind == 'dem' for kind, _ in log), 'the given model circuit supplies the error model', ctx)
        if shots and no and nd:
            g = [g for kind, g in cls.seen if kind == 'graph'][0]
            S.prove(any(abs(d.get('error_probability', 9) - 0.25) < 1e-9 for _, _, d in g.edges(data=True)), 'the given model circuit supplies the error model', ctx)


def refuses(S, decoder, dn, do):
    """Unknown decoder names and mismatching model circuits are refused."""
    S.bool('unused')
    pm, cls = make_matching(lambda row: np.zeros(1))
    L = S.loader(env(S, {'pymatching': pm}))
    dec = L.get('decoding')
    mk = (lambda m: m) if S.symbolic else (lambda m: m.to_real())
    c = FakeCircuit(mk(build(S, DEM[1])), 1, 1, [[False, False]] * 3)
    kw = dict(model_circuit=FakeCircuit(mk(build(S, DEM[1])), 1 + dn, 1 + do)) if dn or do else {}
    try:
        r = dec.sample_decode_count_correct(circuit=c, num_shots=2, decoder=decoder, **kw)
    except Exception as ex:
        S.prove('verif stub' not in str(ex), 'refused')
        return
    S.prove(False, 'unknown decoders and mismatching models are refused', lambda: f'{decoder} {dn} {do} -> {r}')


def jobs(tier):
    out = []
    q = tier == 'quick'
    for nd in range(3 if q else 4):
        for no in range(3):
            for shots in range(3 + (nd + no < 4) if q else 4):
                for sep in (False, True):
                    out.append(job(f'{nd} detectors {no} observables {shots} shots {"model" if sep else ""}', count, nd=nd, no=no, shots=shots,
                                   separate=sep, cost=no * shots + 1, max_witnesses=4))
    for i, (nd, no, shots) in enumerate(big_shapes(tier)):
        out.append(job(f'{nd} detectors {no} observables {shots} shots', count, nd=nd, no=no, shots=shots, separate=i % 2 == 1, big=True, cost=10, max_witnesses=2))
    for nd, no in [(1, 9), (2, 33), (1, 65)] + ([] if q else [(2, 130), (101, 40)]):
        out.append(job(f'{nd} detectors {no} observables, every pair wrong', count, nd=nd, no=no, shots=no * (no - 1) // 2 + 1, separate=False, big='pairs', cost=10, max_witnesses=2))
    for nd in range(1, 3):
        for sep in (False, True):
            out.append(job(f'{nd} detectors, not the first sampled {"model" if sep else ""}', count, nd=nd, no=1, shots=2, separate=sep, history=True, max_witnesses=4))
    for d, a, b in [('match', 0, 0), ('', 0, 0), ('internal_uncorrelated', 0, 0), ('pymatching', 1, 0), ('pymatching', 0, 1), ('PyMatching', 0, 0)]:
        out.append(job(f'refuses {d!r} {a} {b}', refuses, decoder=d, dn=a, do=b))
    return out
