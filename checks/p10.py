"""P10: adding noise never changes the ideal computation."""
from checks.noise_ref import *
from checks.circ import _stim
from checks.p09 import make_more, build

BOUNDS = ('noise strength: any real in [0, 0.05]; circuits: templates with every supported gate kind, plain and inverted measurement targets, '
          'parity measurements in all nine basis pairs with each inversion pattern, loops with any repeat count (symbolic), loops nested three '
          'deep, annotations, empty time steps; circuits of up to 200 (thorough 1100) qubits and 50 (200) time steps; honeycomb circuits of all styles with any number of sub-rounds (symbolic)')
OUTSIDE = 'gate kinds no noise model has a rule for (P09: refused)'
ASSUMPTIONS = ['a parity measurement may be expanded into: reset of a qubit outside the circuit, couplings, measurement of that qubit']

PAR = {'EM3_v1', 'EM3_v2'}
TWO = {'SD6': ['CX'], 'PC3': C2, 'EM3_v1': [], 'EM3_v2': C2, 'SI1000': ['CZ']}


def template(S, model, kind, count):
    two = '\n'.join(f'{g} 0 1 3 2\nTICK' for g in TWO[model])
    one = '\n'.join(f'{g} {i} 4' for i, g in enumerate(C1[:4])) + '\nI 5\n'
    if kind == 'flat':
        return f'QUBIT_COORDS(1, 2) 0\nR 0 1 2 3\nTICK\n{one}TICK\n{two}\nSHIFT_COORDS(0, 0, 1)\nM 0 !1 2\nM 3\nDETECTOR(1, 2, 3) rec[-1] rec[-3]\n' \
               f'TICK\nTICK\nH 0\nR 1\nM !2\nOBSERVABLE_INCLUDE(1) rec[-1] rec[-2]\nDETECTOR rec[-1]'
    if kind == 'loop':
        return f'R 0 1\nREPEAT {count} {{\nH 0\nTICK\nM !1 6\nDETECTOR(5) rec[-1] rec[-2]\nTICK\n}}\nM 0\nTICK\nR 6'
    if kind == 'nested':
        return f'R 7\nREPEAT 2 {{\nREPEAT {count} {{\nTICK\nREPEAT 4 {{\nH 0\nM 1\nTICK\n}}\nR 2\n}}\nTICK\nSHIFT_COORDS(0, 1)\n}}\nREPEAT 3 {{\nTICK\nM !7\n}}\nM 7'
    ba, bb = S.choice('basis a', 'XYZ'), S.choice('basis b', 'XYZ')
    ia, ib = S.choice('inversion', [('', ''), ('!', ''), ('', '!'), ('!', '!')])
    mpp = f'{ia}{ba}0*{ib}{bb}3'
    if kind == 'parity':
        return f'R 0 1 2 3 4\nTICK\nMPP {mpp} X1*Z2\nM 4\nDETECTOR(1) rec[-2] rec[-3]\nTICK\nMPP {mpp}\nM 2 !1\nOBSERVABLE_INCLUDE(0) rec[-1] rec[-3]'
    return f'R 5\nREPEAT {count} {{\nMPP {mpp}\nH 1\nTICK\nREPEAT 2 {{\nMPP Y1*{ia}Y2 {mpp}\nDETECTOR rec[-1] rec[-2]\nTICK\n}}\n}}\nM 5 0'


def models(S, model, kind, qsets, past=False):
    L = load(S)
    stim = fakestim.STIM if S.symbolic else _stim
    p = 0.0078125 if past else S.real('p', 0, 0.05)
    count = S.int('count', 1, 10**9)
    text = template(S, model, kind, count)
    c = stim.Circuit(text)
    before = as_fake(S, c).copy()
    n = before.num_qubits
    qs = S.choice('qs', qsets)
    NM = L.get('noise').NoiseModel
    nm = getattr(NM, model)(p)
    if past:
        # noise was added before: to this and to other circuits, by this model and by others
        others = ['R 0 1\nTICK\nH 1\nM 0 !1\nDETECTOR(1) rec[-1]\nTICK\nREPEAT 3 {\nM !0\nTICK\n}\nM 5', 'H 3\nTICK\nM !3\nOBSERVABLE_INCLUDE(0) rec[-1]']
        if model in PAR:
            others.append('MPP X1*Z2 !Y0*Z3\nDETECTOR rec[-1] rec[-2]\nREPEAT 2 {\nMPP Z1*!Z2\nTICK\n}')
        for m in (nm, getattr(NM, model)(p / 2)):
            for t in others:
                m.noisy_circuit(stim.Circuit(t))
                m.noisy_circuit(stim.Circuit(t), qs={0, 9})
        if model != 'PC3':
            NM.PC3(p).noisy_circuit(stim.Circuit(others[0]))
        getattr(NM, model)(p / 2).noisy_circuit(stim.Circuit(text))
        nm.noisy_circuit(c)
    out = as_fake(S, nm.noisy_circuit(c) if qs is None else nm.noisy_circuit(c, qs=set(qs)))
    ctx = f'{model}:\n{text}\n--\n{out}'
    want = canon_noisy(S, before, n)
    got = canon_noisy(S, out, n)
    compare(S, got, want, ctx, noise=False)
    S.prove(str(as_fake(S, c)) == str(before), 'the given circuit is not modified')
    if p == 0:
        compare(S, got, want, 'zero noise ' + ctx)


def many(S, model, qubits, moments, seed):
    """Many qubits, operations and time steps; the strength symbolic."""
    L = load(S)
    p = S.real('p', 0, 0.05)
    nm = getattr(L.get('noise').NoiseModel, model)(p)
    qs = S.choice('qs', [None, range(0, qubits, 3)])
    c = build(S, L, big_ops(model, qubits, moments, seed))
    before = as_fake(S, c).copy()
    out = as_fake(S, nm.noisy_circuit(c) if qs is None else nm.noisy_circuit(c, qs=set(qs)))
    ctx = f'{model} {qubits} qubits {moments} time steps {seed} qs={qs}'
    compare(S, canon_noisy(S, out, qubits), canon_noisy(S, before, qubits), ctx, noise=False)
    S.prove(str(as_fake(S, c)) == str(before), 'the given circuit is not modified')


def layouts(S, style, obs, w, h):
    n = sub_rounds(S, style)
    p = S.real('p', 0, 0.02)
    L, lay, noisy = make(S, style, obs, w, h, n, p)
    _, _, clean = make_more(S, L, style, obs, w, h, n, 0.0)
    nq = clean.num_qubits
    compare(S, canon_noisy(S, noisy, nq), canon_noisy(S, clean, nq), f'{style} {obs}', noise=False)
    _, _, again = make_more(S, L, style, obs, w, h, n, p)
    compare(S, canon_noisy(S, again, nq), canon_noisy(S, noisy, nq), f'{style} {obs} second generation')


def jobs(tier):
    q = tier == 'quick'
    out = []
    qsets = [None, [0, 1, 2]] if q else [None, [0, 1, 2], [], [2]]
    for model in MODELS:
        kinds = ['flat', 'loop', 'nested']
        if model in PAR:
            kinds += ['parity', 'parity loop']
        for k in kinds:
            out.append(job(f'{model} {k}', models, model=model, kind=k, qsets=qsets, cost=4))
            out.append(job(f'{model} {k}, not the first', models, model=model, kind=k, qsets=[None], past=True, cost=5))
    for style in STYLES:
        for obs, w, h in ([('H', 2, 6)] if q else [('H', 2, 6), ('V', 4, 6), ('H', 2, 12), ('V', 6, 6)]):
            out.append(job(f'layout {style} {obs} {w}x{h}', layouts, style=style, obs=obs, w=w, h=h, cost=9, max_witnesses=2))
    for model in MODELS:
        for qubits, moments in ((80, 5), (200, 2), (10, 50)) + (((30, 200), (1100, 2)) if not q else ()):
            out.append(job(f'{model} {qubits} qubits {moments} time steps', many, model=model, qubits=qubits, moments=moments, seed=qubits + 1, cost=10, max_witnesses=2))
    return out
