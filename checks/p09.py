"""P09: each noise model attaches exactly its specified noise."""
from checks.noise_ref import *
from checks.circ import _stim

BOUNDS = ('noise strength(s): any real in [0, 0.05] (a model with a separate symbolic strength per gate kind included); circuits: all '
          'combinations of two operations on up to 5 qubits from the 20 gate kinds in two time steps with loops, nested loops, annotations '
          'and qubit subsets; circuits of up to 300 (thorough 1100) qubits and up to 60 (200) time steps with symbolic strength; full honeycomb circuits of every style, any number of sub-rounds (symbolic), sizes 2x6, 4x6 (quick), up to 4x12 (thorough)')
OUTSIDE = 'circuits that touch a qubit twice within one time step'
ASSUMPTIONS = ['Pauli channels between two operations on a qubit commute, so their order is ignored', 'reals stand in for floats']

ALL = C1 + C2 + RST + MEA + ['MPP']


def build(S, L, ops):
    """ops: list of (name, targets) | 'TICK' | ('REPEAT', n, ops) | ('ANN', ...)."""
    stim = fakestim.STIM if S.symbolic else _stim
    c = stim.Circuit()
    for o in ops:
        if o == 'TICK':
            c.append('TICK', [])
        elif o[0] == 'REPEAT':
            c.append(stim.CircuitRepeatBlock(o[1], build(S, L, o[2])))
        elif o[0] == 'MPP':
            t = []
            for k in range(0, len(o[1]), 2):
                for j, q in enumerate(o[1][k:k + 2]):
                    b = o[2][(k + j) % len(o[2])]
                    if j:
                        t.append(_stim.target_combiner())
                    x = {'X': _stim.target_x, 'Y': _stim.target_y, 'Z': _stim.target_z}[b](q)
                    t.append(x)
            c.append('MPP', t)
        elif o[0] == 'DETECTOR':
            c.append('DETECTOR', [_stim.target_rec(r) for r in o[1]], o[2])
        elif o[0] == 'OBSERVABLE_INCLUDE':
            c.append('OBSERVABLE_INCLUDE', [_stim.target_rec(r) for r in o[1]], o[2])
        elif o[0] in ('SHIFT_COORDS', 'QUBIT_COORDS'):
            c.append(o[0], o[1], o[2])
        else:
            c.append(o[0], o[1])
    return c


def the_model(S, L, model, relevant, deep):
    NM = L.get('noise').NoiseModel
    if model == 'custom':
        # Every kind has its own positive strength, except one chosen kind that may be zero.
        kinds = RST + MEA + ['MPP', 'CX', 'CZ', 'H', 'c1', 'c2', 'idle', 'mr']
        zero = S.choice('noiseless kind', [None] + [k for k in kinds if k in relevant or k in (('c1', 'c2', 'mr', 'idle') if deep else ('mr', 'idle'))])
        v = {k: S.real('p_' + k, 0, 0.05, lo_open=True) if k != zero else 0 for k in kinds}
        g = {k: v[k] for k in kinds[:-4]}
        full = {k: v['c1'] for k in C1}
        full.update({k: v['c2'] for k in C2})
        full.update(g)
        return NM(idle=v['idle'], measure_reset_idle=v['mr'], noisy_gates=g, any_clifford_1=v['c1'], any_clifford_2=v['c2']), Spec(full, v['idle'], v['mr'])
    p = S.real('p', 0, 0.05)
    return getattr(NM, model)(p), spec(model, p)


def check(S, L, nm, sp, c, qs, ctx, history=False):
    f = as_fake(S, c)
    if history:
        # Other models, strengths and system qubits were used on the same circuit in this process before.
        NM = L.get('noise').NoiseModel
        for m, p in [('SD6', 0.013), ('EM3_v1', 0.017), ('EM3_v2', 0.011), ('SI1000', 0.001), ('PC3', 0.015), ('SD6', 0)]:
            for q in (None, {0, 1, 2, 3}):
                try:
                    getattr(NM, m)(p).noisy_circuit(c, **({} if q is None else dict(qs=q)))
                except NotImplementedError:
                    pass
    n = f.num_qubits
    try:
        want = canon_expected(S, f, sp, set(range(n)) if qs is None else set(qs))
    except Refused as ex:
        want = None
    try:
        out = nm.noisy_circuit(c) if qs is None else nm.noisy_circuit(c, qs=set(qs))
    except NotImplementedError:
        S.prove(want is None, 'an operation the model has no rule for is refused', lambda: ctx)
        return
    S.prove(want is not None, 'an operation the model has no rule for is refused, a supported one is not', lambda: ctx)
    if want is not None:
        compare(S, canon_noisy(S, as_fake(S, out), max(n, 1 + max(qs or [0]))), want, ctx)


def targets_for(S, name, k, pool):
    if name in C2:
        return list(S.choice(f't{k}', [[pool[0], pool[1]], [pool[1], pool[0]], pool[:4] if len(pool) >= 4 else pool[:2]]))
    if name == 'MPP':
        return pool[:4] if len(pool) >= 4 else pool[:2]
    return list(S.choice(f't{k}', [[pool[0]], pool[1:3], pool[:3][::-1]]))


def op(S, k, name, pool):
    t = targets_for(S, name, k, pool)
    if name == 'MPP':
        return ('MPP', t, S.choice(f'b{k}', ['XY', 'ZZ', 'YX']))
    return (name, t)


def two_ops(S, model, names, second, qsets, deep, history=False):
    """Two operations in the same and in consecutive time steps, outside and inside (nested) loops, among annotations."""
    L = load(S)
    n1 = S.choice('gate1', names)
    n2 = S.choice('gate2', second)
    nm, sp = the_model(S, L, model, (n1, n2), deep)
    a = op(S, 1, n1, [0, 1, 2, 3])
    far = op(S, 2, n2, [4, 5, 6, 7]) if deep else (n2, [4, 5, 6, 7] if n2 in C2 + ['MPP'] else [5, 4], 'ZX')
    near = (far[0], [[2, 0, 1, 8][x - 4] for x in far[1]]) + far[2:]
    qs = S.choice('qs', qsets)
    count = S.int('count', 1 if deep or model != 'custom' else 2, 1000000)
    ops = [a, far, 'TICK', a, 'TICK', near, 'TICK', a, ('REPEAT', count, [near, 'TICK']), ('R', [8]), 'TICK',
           ('REPEAT', 3, [('REPEAT', 5, [a, 'TICK', near]), 'TICK', a]), 'TICK', 'TICK',
           ('QUBIT_COORDS', [1], [3, 4]), a, 'TICK', ('SHIFT_COORDS', [], [0, 0, 1]), 'TICK', ('M', [6]), ('DETECTOR', [-1], [1, 2, 3]), 'TICK',
           near, ('OBSERVABLE_INCLUDE', [-1], 1), 'TICK', ('R', [7])]
    check(S, L, nm, sp, build(S, L, ops), qs, f'{model} {ops} qs={qs}', history)


def many(S, model, qubits, moments, seed):
    """Many qubits, operations and time steps; the strength symbolic."""
    L = load(S)
    nm, sp = the_model(S, L, model, (), False)
    qs = S.choice('qs', [None, range(0, qubits, 3), [qubits - 1]])
    check(S, L, nm, sp, build(S, L, big_ops(model, qubits, moments, seed)), qs, f'{model} {qubits} qubits {moments} time steps {seed} qs={qs}')


def layouts(S, style, obs, w, h, hi=None):
    n = sub_rounds(S, style, hi=hi)
    p = S.real('p', 0, 0.02)
    L, lay, noisy = make(S, style, obs, w, h, n, p)
    L2, lay2, clean = make_more(S, L, style, obs, w, h, n, 0.0)
    nq = clean.num_qubits
    want = canon_expected(S, clean, spec(OF_STYLE[style], p), set(range(nq)))
    compare(S, canon_noisy(S, noisy, nq), want, f'{style} {obs}')


def make_more(S, L, style, obs, w, h, n, noise):
    lay = L.get('honeycomb_layout').HoneycombLayout(data_width=w, data_height=h, sub_rounds=n, style=style, obs=obs, noise=noise)
    return L, lay, as_fake(S, L.get('honeycomb_circuit').generate_honeycomb_circuit(lay))


def jobs(tier):
    out = []
    q = tier == 'quick'
    qsets = [None, [0, 2, 5]] if q else [None, [0, 2, 5], [], [1, 7]]
    for model in MODELS + ['custom']:
        second = ['M', 'H', 'R', 'CX'] if q else ['M', 'H', 'R', 'CX', 'CZ', 'MPP', 'MX']
        if model in ('EM3_v1', 'EM3_v2'):
            second = ['M', 'MPP', 'R'] if q else ['M', 'MPP', 'R', 'H', 'CX']
        if model == 'SI1000':
            second = ['M', 'H', 'R', 'CZ']
        if model == 'custom' and q:
            second = ['M', 'CX']
        for g in ALL:
            out.append(job(f'{model} {g}', two_ops, model=model, names=[g], second=second, qsets=[[0, 2, 5]] if model == 'custom' and q else qsets, deep=not q, cost=5, opts=dict(max_paths=20000),
                           max_witnesses=4))
        out.append(job(f'{model} not the first model', two_ops, model=model, names=ALL, second=second[:1], qsets=[None], deep=False, history=True, cost=10, opts=dict(max_paths=20000), max_witnesses=4))
    sizes = [(2, 6), (4, 6)] if q else [(2, 6), (4, 6), (2, 12), (6, 6), (4, 12)]
    for style in STYLES:
        for obs in 'VH':
            for w, h in sizes if not q else [(2, 6) if obs == 'V' else (4, 6)]:
                out.append(job(f'layout {style} {obs} {w}x{h}', layouts, style=style, obs=obs, w=w, h=h, cost=20, max_witnesses=3))
    for model in MODELS:
        for qubits, moments in ((70, 6), (150, 3), (12, 60), (300, 2)) + (((40, 200), (1100, 3)) if not q else ()):
            out.append(job(f'{model} {qubits} qubits {moments} time steps', many, model=model, qubits=qubits, moments=moments, seed=qubits, cost=10, max_witnesses=2))
    return out
