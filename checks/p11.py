"""P11: the correlated parity measurement noise is the uniform mixing channel."""
from checks.noise_ref import *
from checks.circ import _stim

BOUNDS = ('mixing probability: any real in [0, 1]; all nine basis pairs, all four inversion patterns, every pair order; the conversion of a '
          'mixing probability to component probabilities for mixing spaces of 2 to 6 (quick) / 8 (thorough) bits')
OUTSIDE = 'parity measurements of more than two qubits'
ASSUMPTIONS = ['reals stand in for floats: the 2^(n-1)-th root is the exact root']

ANT = {('X', 'Y'), ('X', 'Z'), ('Y', 'X'), ('Y', 'Z'), ('Z', 'X'), ('Z', 'Y')}


def pauli_bits(p):
    return {'X': (1, 0), 'Y': (1, 1), 'Z': (0, 1)}[p]


def propagate(ops, start, frame):
    """Pauli frame (qubit -> (x, z)) inserted before ops[start]: its image at the end and the flipped records."""
    f = dict(frame)
    flips = set()
    rec = sum(1 for o in ops[:start] if o[0] == 'M')
    for kind, t, extra in ops[start:]:
        if kind == 'U':
            rows = extra
            nf = {}
            for i, q in enumerate(t):
                x, z = f.get(q, (0, 0))
                for bit, r in ((x, 2 * i), (z, 2 * i + 1)):
                    if bit:
                        for j, p in rows[r]:
                            a, b = nf.get(t[j], (0, 0))
                            nf[t[j]] = (a ^ (p != 3), b ^ (p != 1))
            for q in t:
                f[q] = nf.get(q, (0, 0))
        elif kind == 'M':
            s = 0
            for q, p in t:
                x, z = f.get(q, (0, 0))
                s ^= (x if p != 'X' else 0) ^ (z if p != 'Z' else 0)
            if s:
                flips ^= {rec}
            rec += 1
        elif kind == 'R':
            f[t[0]] = (0, 0)
    return f, flips


def analyse(circuit):
    ops, errs, inv = [], [], []
    for o in elementary(circuit):
        if isinstance(o, CircuitRepeatBlock):
            raise Unrecognised('verif stub: loop')
        k, n, rows = frames.gate_kind(o.name)
        if k == 'U':
            if n:
                ops.append(('U', [t.value for t in o._t], rows))
        elif o.name == 'MPP':
            prod = pairs_of(o._t)[0]
            ops.append(('M', [(q, b) for q, b, _ in prod], None))
            inv.append(sum(i for _, _, i in prod) & 1)
            if o._a:
                errs.append((len(ops) - 1, 'flip', o._a[0]))
        elif o.name in MEA:
            b = o.name[-1] if o.name[-1] in 'XY' else 'Z'
            ops.append(('M', [(o._t[0].value, b)], None))
            inv.append(int(o._t[0].is_inverted_result_target))
            if o._a:
                errs.append((len(ops) - 1, 'flip', o._a[0]))
        elif o.name == 'R':
            ops.append(('R', [o._t[0].value], None))
        elif o.name == 'E':
            errs.append((len(ops), {t.value: pauli_bits(t.pauli_type) for t in o._t}, o._a[0]))
        elif o.name in ('X_ERROR', 'Y_ERROR', 'Z_ERROR'):
            errs.append((len(ops), {o._t[0].value: pauli_bits(o.name[0])}, o._a[0]))
        elif o.name in NOISE:
            raise Unrecognised('verif stub: ' + o.name)
    return ops, errs, inv


def mixing_ok(S, elements, dim, p, label, detail):
    """elements: [(vector in Z2^dim, probability)] applied independently == with probability p a uniform element.

    Equivalent by Fourier analysis: every nontrivial character of the distribution equals 1 - p."""
    conds = []
    for w in range(1, 1 << dim):
        prod = 1.0
        for v, e in elements:
            if bin(v & w).count('1') & 1:
                prod = prod * (1 - 2 * e)
        conds.append(S.close(prod, 1 - p, 1e-6, 1e-9))
    uniq = {}
    for c in conds:
        if isinstance(c, SymBool):
            c = SymBool(core.z3.simplify(c.t))
            uniq[c.t.get_id()] = c
        else:
            uniq[bool(c)] = c
    for c in uniq.values():
        S.prove(c, label, detail)


def conversion(S, n, at=None, past=False):
    L = load(S)
    p = S.real('p', 0, 1, hi_open=True) if at is None else at
    if past:
        # converted before: other numbers of bits, other probabilities
        for k in (2, 3, 5, 6):
            for q in (0.0, 0.25, 1.0):
                L.get('noise').mix_probability_to_independent_component_probability(q, k)
            if k != n:
                L.get('noise').mix_probability_to_independent_component_probability(p, k)
    e = L.get('noise').mix_probability_to_independent_component_probability(p, n)
    S.prove(sand(e >= -1e-12, e <= 0.5 + 1e-12), 'component probability in range', lambda: f'{p} -> {e}')
    mixing_ok(S, [(v, e) for v in range(1, 1 << n)], n, p, 'independent components give the mixing channel', lambda: f'n={n} p={p} -> {e}')


def gadget_noise(S, how, at=None, past=False):
    L = load(S)
    noise = L.get('noise')
    stim = fakestim.STIM if S.symbolic else _stim
    p = S.real('p', 0, 1, lo_open=True, hi_open=True) if at is None else at
    ba, bb = S.choice('basis a', 'XYZ'), S.choice('basis b', 'XYZ')
    ia, ib = S.choice('inversion', [('', ''), ('!', ''), ('', '!'), ('!', '!')])
    a, b = S.choice('qubits', [(0, 1), (4, 2)])
    c = stim.Circuit(f'MPP {ia}{ba}{a}*{ib}{bb}{b}')
    if past:
        # the same and other parity measurements before, under other strengths and with other helper qubits
        for q in (0.125, 0.5, p):
            for text in (f'MPP {ia}{ba}{a}*{ib}{bb}{b}' if q is not p else f'MPP {ib}{ba}{a}*!{bb}{b}', f'MPP {bb}{a}*{ba}{b}', f'MPP {ba}{b}*{ib}{bb}{a}', f'MPP {ba}{a + 1}*{ib}{bb}{b + 1} Z3*Z5'):
                x = stim.Circuit(text)
                t = x[0].targets_copy()
                noise.parity_measurement_with_correlated_measurement_noise(t1=t[0], t2=t[2], ancilla=7 if q == 0.5 else 9, mix_probability=q)
                noise.NoiseModel(idle=0, measure_reset_idle=0, noisy_gates={'MPP': q}, use_correlated_parity_measurement_errors=True).noisy_circuit(x)
                noise.NoiseModel(idle=0, measure_reset_idle=0, noisy_gates={'MPP': q}, use_correlated_parity_measurement_errors=False).noisy_circuit(x)
    if how == 'direct':
        op = c[0]
        t = op.targets_copy()
        out = noise.parity_measurement_with_correlated_measurement_noise(t1=t[0], t2=t[2], ancilla=9, mix_probability=p)
    else:
        nm = noise.NoiseModel(idle=0, measure_reset_idle=0, noisy_gates={'MPP': p}, use_correlated_parity_measurement_errors=True)
        out = nm.noisy_circuit(c)
    out = as_fake(S, out)
    ctx = lambda: f'MPP {ia}{ba}{a}*{ib}{bb}{b} p={p}: {out}'
    ops, errs, inv = analyse(out)
    S.prove(len(inv) == 1, 'one result per parity measurement', ctx)
    S.prove(inv[0] == int(ia != ib), 'result inverted exactly when requested', ctx)
    others = {q for k, t, _ in ops for q in (t if k != 'M' else [x for x, _ in t])} - {a, b}
    for q, basis in ((a, ba), (b, bb)):
        for e in 'XZ':
            f, flips = propagate(ops, 0, {q: pauli_bits(e)})
            S.prove(bool(flips) == ((e, basis) in ANT), 'the result is the parity of the two requested Paulis', ctx)
            S.prove(all(f.get(x, (0, 0)) == (pauli_bits(e) if x == q else (0, 0)) for x in (a, b)), 'the measured qubits are otherwise left alone', ctx)
    for q in others:
        for e in 'XZ':
            f, flips = propagate(ops, 0, {q: pauli_bits(e)})
            S.prove(not flips and all(f.get(x, (0, 0)) == (0, 0) for x in (a, b)), 'earlier state of the helper qubit is irrelevant', ctx)
    for i, (kind, t, _) in enumerate(ops):
        # Randomness injected by resetting/measuring the helper must not reach the data or the result.
        if kind == 'R':
            f, flips = propagate(ops, i + 1, {t[0]: (0, 1)})
            image = (f.get(a, (0, 0)), f.get(b, (0, 0)))
            S.prove(not flips and image in (((0, 0), (0, 0)), (pauli_bits(ba), pauli_bits(bb))),
                    'helper randomness reaches the data only as the measured parity itself (projection)', ctx)
    elements = []
    for pos, e, pe in errs:
        if e == 'flip':
            elements.append((16, pe))
            continue
        f, flips = propagate(ops, pos, e)
        (xa, za), (xb, zb) = f.get(a, (0, 0)), f.get(b, (0, 0))
        elements.append((xa | za << 1 | xb << 2 | zb << 3 | (16 if flips else 0), pe))
    mixing_ok(S, elements, 5, p, 'with probability p a uniformly random element of {paulis}x{paulis}x{flip}', ctx)


def jobs(tier):
    out = []
    for n in range(2, 7 if tier == 'quick' else 9):
        out.append(job(f'conversion {n}', conversion, n=n, cost=n))
        out.append(job(f'conversion {n}, not the first', conversion, n=n, past=True, cost=n))
        for at in (0.0, 1.0, 1):
            out.append(job(f'conversion {n} p={at!r}', conversion, n=n, at=at))
    for how in ('direct', 'model'):
        out.append(job(f'gadget {how}', gadget_noise, how=how, cost=20))
        out.append(job(f'gadget {how}, not the first', gadget_noise, how=how, past=True, cost=20))
        for at in (0.0, 1.0, 1, 0):
            out.append(job(f'gadget {how} p={at!r}', gadget_noise, how=how, at=at, cost=10, max_witnesses=4))
    return out
