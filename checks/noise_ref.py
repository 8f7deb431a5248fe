"""An independent description of the noise models and a canonical form of (noisy) circuits to compare with."""
from checks.circ import *
from checks.circ import _stim

C1 = ['C_XYZ', 'C_ZYX', 'H', 'H_YZ', 'I']
C2 = ['CX', 'CY', 'CZ', 'XCX', 'XCY', 'XCZ', 'YCX', 'YCY', 'YCZ']
RST = ['R', 'RX', 'RY']
MEA = ['M', 'MX', 'MY']
ANN = {'OBSERVABLE_INCLUDE', 'DETECTOR', 'SHIFT_COORDS', 'QUBIT_COORDS'}
NOISE = {'DEPOLARIZE1', 'DEPOLARIZE2', 'X_ERROR', 'Y_ERROR', 'Z_ERROR', 'PAULI_CHANNEL_1', 'PAULI_CHANNEL_2', 'E', 'ELSE_CORRELATED_ERROR'}
MODELS = ['SD6', 'PC3', 'EM3_v1', 'EM3_v2', 'SI1000']
OF_STYLE = {'SD6': 'SD6', 'PC3': 'PC3', 'EM3': 'EM3_v1', 'EM3_v2': 'EM3_v2', 'SI1000': 'SI1000'}


class Spec:
    def __init__(self, gates, idle, mr_idle, corr=False):
        self.gates, self.idle, self.mr_idle, self.corr = gates, idle, mr_idle, corr


def spec(model, p):
    if model == 'SD6':
        g = {k: p for k in C1}
        g.update(CX=p, R=p, M=p)
        return Spec(g, p, 0)
    if model == 'PC3':
        g = {k: p for k in C1 + C2}
        g.update(R=p, M=p)
        return Spec(g, p, 0)
    if model == 'EM3_v1':
        g = {k: p for k in C1}
        g.update(R=p, M=p, MPP=p)
        return Spec(g, p, 0)
    if model == 'EM3_v2':
        g = {k: 0 for k in C1 + C2}
        g.update(R=p / 2, M=p / 2, MPP=p)
        return Spec(g, p, 0, corr=True)
    if model == 'SI1000':
        g = {k: p / 10 for k in C1}
        g.update(CZ=p, R=2 * p, M=5 * p)
        return Spec(g, p / 10, 2 * p)
    raise KeyError(model)


class Refused(Exception):
    pass


def component(S, p):
    """Independent component probability for full mixing over 2**5 elements."""
    return 0.5 - 0.5 * core.spow(1 - p, core.Fraction(1, 16)) if isinstance(p, SymNum) else 0.5 - 0.5 * (1 - p) ** (1 / 16)


class Unrecognised(Exception):
    """verif stub: a parity measurement gadget this canonical form does not recognise"""


# ---- canonical form ---------------------------------------------------------------------------------------------

class Stretch:
    def __init__(self):
        self.time = {}       # qubit -> list of events
        self.ann = []
        self.meas = []

    def ev(self, qs, e):
        for q in qs:
            self.time.setdefault(q, []).append(e)

    def empty(self):
        return not (self.time or self.ann or self.meas)


def pairs_of(ts):
    """MPP targets -> list of [(qubit, pauli, inverted)]"""
    out, after = [], False
    for t in ts:
        if t.is_combiner:
            after = True
            continue
        if not after:
            out.append([])
        after = False
        out[-1].append((t.value, t.pauli_type, t.is_inverted_result_target))
    return out


def par_event(prod, errs):
    inv = sum(i for _, _, i in prod) & 1
    return ('PAR', tuple((q, b) for q, b, _ in prod), inv, errs)


class Canon:
    """Items: Stretch | 'TICK' | (count, items)."""

    def __init__(self, n):
        self.n = n
        self.items = []
        self.cur = Stretch()

    def flush(self):
        if not self.cur.empty():
            self.items.append(self.cur)
        self.cur = Stretch()

    def annotate(self, o):
        k = len(self.cur.meas)
        ts = tuple(t.value + k if t.is_measurement_record_target else ('q', t.value) for t in o._t)
        if o.name in ('DETECTOR', 'OBSERVABLE_INCLUDE'):
            ts = tuple(sorted(ts))
        self.cur.ann.append((o.name, tuple(o._a), ts))

    def tick(self):
        self.flush()
        self.items.append('TICK')

    def loop(self, count, items):
        if not items:
            return
        if count == 1:
            self.splice(items)
            return
        if len(items) == 1 and isinstance(items[0], tuple):
            count, items = count * items[0][0], items[0][1]
        self.flush()
        self.items.append((count, items))

    def splice(self, items):
        for it in items:
            if isinstance(it, Stretch):
                k = len(self.cur.meas)
                for q, es in it.time.items():
                    self.cur.time.setdefault(q, []).extend(es)
                self.cur.ann += [(a, b, tuple(x + k if isinstance(x, int) else x for x in ts)) for a, b, ts in it.ann]
                self.cur.meas += it.meas
            elif it == 'TICK':
                self.tick()
            else:
                self.flush()
                self.items.append(it)

    def done(self):
        self.flush()
        return self.items


def gate_events(c, name, t):
    """One elementary noiseless operation onto the canonical form."""
    c.cur.ev([x.value for x in t], ('G', name, tuple((x.value, x.is_inverted_result_target) for x in t)))


class Piece:
    def __init__(self, name, t, a):
        self.name, self._t, self._a = name, t, a

    def __str__(self):
        return f'{self.name} {self._t}'


def elementary(circuit):
    """Instructions split into one operation each (instructions fuse freely when they are appended)."""
    for o in circuit:
        if isinstance(o, CircuitRepeatBlock) or o.name in ANN or o.name in ('TICK', 'E', 'ELSE_CORRELATED_ERROR') or not o._t:
            yield o
        elif o.name == 'MPP':
            cur = []
            for t in o._t:
                if cur and not t.is_combiner and not cur[-1].is_combiner:
                    yield Piece('MPP', cur, o._a)
                    cur = []
                cur.append(t)
            yield Piece('MPP', cur, o._a)
        else:
            k = 2 if _stim.gate_data(o.name).is_two_qubit_gate else 1
            for j in range(0, len(o._t), k):
                yield Piece(o.name, o._t[j:j + k], o._a)


def canon_noisy(S, circuit, n):
    """Canonical form of the code's output."""
    c = Canon(n)
    block = None
    for o in elementary(circuit):
        if isinstance(o, CircuitRepeatBlock):
            if block is not None:
                raise Unrecognised('verif stub: loop inside a parity gadget')
            c.loop(o.repeat_count, canon_noisy(S, o._body, n))
            continue
        name = o.name
        anc = [t.value for t in o._t if (t.is_qubit_target or t.is_x_target or t.is_y_target or t.is_z_target) and t.value >= n]
        if (anc or block is not None) and name not in ANN and name != 'TICK':
            block = gadget(S, c, o, n, block)
            continue
        if name == 'TICK':
            c.tick()
        elif name in ANN:
            c.annotate(o)
        elif name == 'MPP':
            p = o._a[0] if o._a else 0
            for prod in pairs_of(o._t):
                errs = {}
                if not p == 0:
                    errs[frozenset([('anc', 'X')])] = p
                c.cur.ev([q for q, _, _ in prod], par_event(prod, errs))
                c.cur.meas.append(('PAR', tuple((q, b) for q, b, _ in prod), sum(i for _, _, i in prod) & 1))
        elif name in NOISE:
            p = o._a[0]
            if len(o._a) != 1:
                p = tuple(o._a)
            elif p == 0:
                continue
            if name == 'E':
                t = tuple(sorted((x.value, x.pauli_type) for x in o._t))
                c.cur.ev([x for x, _ in t], ('N', 'E', t, p))
            elif name in ('DEPOLARIZE2', 'PAULI_CHANNEL_2'):
                for k in range(0, len(o._t), 2):
                    a, b = o._t[k].value, o._t[k + 1].value
                    c.cur.ev([a, b], ('N', name, tuple(sorted((a, b))) if name == 'DEPOLARIZE2' else (a, b), p))
            else:
                for x in o._t:
                    c.cur.ev([x.value], ('N', name, (x.value,), p))
        else:
            g = _stim.gate_data(name)
            k = 2 if g.is_two_qubit_gate else 1
            for j in range(0, len(o._t), k):
                gate_events(c, name, o._t[j:j + k])
                if g.produces_measurements:
                    x = o._t[j]
                    c.cur.meas.append((name, x.value, x.is_inverted_result_target))
                    if o._a and not o._a[0] == 0:
                        c.cur.ev([x.value], ('FLIP', o._a[0]))
    if block is not None:
        raise Unrecognised('verif stub: unfinished parity gadget')
    return c.done()


def gadget(S, c, o, n, block):
    """R anc; (P CX)(q, anc) twice; correlated errors; M anc."""
    name = o.name
    if name == 'R' and block is None:
        if len(o._t) != 1:
            raise Unrecognised('verif stub: reset of several ancillas')
        return dict(anc=o._t[0].value, prod=[], errs=[])
    if block is None:
        raise Unrecognised(f'verif stub: {o} outside a parity gadget')
    if name in ('XCX', 'YCX', 'CX'):
        for k in range(0, len(o._t), 2):
            if o._t[k + 1].value != block['anc'] or o._t[k].value >= n:
                raise Unrecognised('verif stub: ' + str(o))
            q, b = o._t[k].value, name[0] if name != 'CX' else 'Z'
            block['prod'].append((q, b, False))
            # An error before the coupling acts like its image after it.
            block['errs'] = [(t ^ frozenset([('anc', 'X')]) if any(x == q and y != b for x, y in t) else t, p) for t, p in block['errs']]
        return block
    if name == 'E':
        t = frozenset(('anc' if x.value == block['anc'] else x.value, x.pauli_type) for x in o._t)
        block['errs'].append((t, o._a[0]))
        return block
    if name == 'M' and len(o._t) == 1 and o._t[0].value == block['anc'] and not o._a:
        errs = {}
        for t, p in block['errs']:
            if t in errs:
                raise Unrecognised('verif stub: repeated correlated error')
            if not p == 0:
                errs[t] = p
        prod = block['prod']
        inv = o._t[0].is_inverted_result_target
        prod = [(q, b, inv and i == 0) for i, (q, b, _) in enumerate(prod)]
        c.cur.ev([q for q, _, _ in prod], par_event(prod, errs))
        c.cur.meas.append(('PAR', tuple((q, b) for q, b, _ in prod), int(inv)))
        return None
    raise Unrecognised(f'verif stub: {o} inside a parity gadget')


def canon_expected(S, circuit, sp, qs):
    """Canonical form of the noiseless circuit with the model's noise attached (the oracle)."""
    c = Canon(None)
    used, mr, pre, post, work = set(), set(), [], [], []

    def end():
        if used:
            for ps, group in ((sp.idle, used), (sp.mr_idle, mr)):
                if group and not ps == 0:
                    for q in sorted(qs - group):
                        post.append(([q], ('N', 'DEPOLARIZE1', (q,), ps)))
        for w in pre + work + post:
            if callable(w):
                w()
            else:
                c.cur.ev(*w)
        used.clear(), mr.clear(), pre.clear(), post.clear(), work.clear()

    for o in circuit:
        if isinstance(o, CircuitRepeatBlock):
            end()
            c.loop(o.repeat_count, canon_expected(S, o._body, sp, qs))
            continue
        name = o.name
        if name == 'TICK':
            end()
            c.tick()
            continue
        if name in ANN:
            work.append(lambda o=o: c.annotate(o))
            continue
        if name not in sp.gates:
            raise Refused(name)
        p = sp.gates[name]
        noisy = not p == 0
        if name == 'MPP':
            for prod in pairs_of(o._t):
                q2 = [q for q, _, _ in prod]
                errs = {}
                if noisy and sp.corr:
                    a, b = q2
                    ind = component(S, p)
                    for e1 in ' XYZ':
                        for e2 in ' XYZ':
                            for m in ' X':
                                t = frozenset(([(a, e1)] if e1 != ' ' else []) + ([(b, e2)] if e2 != ' ' else []) + ([('anc', m)] if m != ' ' else []))
                                if t:
                                    errs[t] = ind
                elif noisy:
                    errs[frozenset([('anc', 'X')])] = p
                    pre.append((q2, ('N', 'DEPOLARIZE2', tuple(sorted(q2)), p)))

                def w(prod=prod, errs=errs):
                    c.cur.ev([q for q, _, _ in prod], par_event(prod, errs))
                    c.cur.meas.append(('PAR', tuple((q, b) for q, b, _ in prod), sum(i for _, _, i in prod) & 1))
                work.append(w)
                used.update(q2)
            continue
        k = 2 if name in C2 else 1
        for j in range(0, len(o._t), k):
            t = o._t[j:j + k]
            ids = [x.value for x in t]
            used.update(ids)
            flip = 'Z_ERROR' if name.endswith('X') and name in RST + MEA else 'X_ERROR'
            if name in MEA:
                if noisy:
                    pre.append((ids, ('N', flip, tuple(ids), p)))
                mr.update(ids)

                def w(t=t, name=name):
                    gate_events(c, name, t)
                    c.cur.meas.append((name, t[0].value, t[0].is_inverted_result_target))
                work.append(w)
                continue
            work.append(lambda t=t, name=name: gate_events(c, name, t))
            if name in RST:
                mr.update(ids)
                if noisy:
                    post.append((ids, ('N', flip, tuple(ids), p)))
            elif noisy:
                post.append((ids, ('N', 'DEPOLARIZE2' if k == 2 else 'DEPOLARIZE1', tuple(sorted(ids)), p)))
    end()
    return c.done()


def runs(es):
    """Group consecutive noise events (their order does not matter: Pauli channels commute)."""
    out = []
    for e in es:
        if e[0] == 'N':
            if out and isinstance(out[-1], list):
                out[-1].append(e)
            else:
                out.append([e])
        else:
            out.append(e)
    return out


def compare(S, got, want, ctx='', noise=True):
    """Obligations that two canonical forms are the same."""
    strengths = {}
    compare_(S, got, want, ctx, noise, strengths)
    if strengths:
        S.prove(sand(*[c for c, _ in strengths.values()]), 'noise strengths are as specified',
                lambda: f'{ctx}: ' + '; '.join(str(d()) for _, d in list(strengths.values())[:6]))


def compare_(S, got, want, ctx, noise, strengths):
    def shape(items):
        return ['T' if x == 'TICK' else 'S' if isinstance(x, Stretch) else 'L' for x in items]
    S.prove(shape(got) == shape(want), 'time steps and loops are kept', lambda: f'{ctx}: {shape(got)[:40]} vs {shape(want)[:40]}')
    for a, b in zip(got, want):
        if a == 'TICK':
            continue
        if isinstance(a, tuple):
            S.prove(a[0] == b[0], 'loop counts are kept')
            compare_(S, a[1], b[1], ctx, noise, strengths)
            continue
        S.prove(a.meas == b.meas, 'measurements are kept in order', lambda: f'{ctx}: {a.meas[:6]} vs {b.meas[:6]}')
        S.prove([(x[0], x[2]) for x in a.ann] == [(x[0], x[2]) for x in b.ann], 'annotations are kept in order',
                lambda: f'{ctx}: {a.ann[:3]} vs {b.ann[:3]}')
        ok = all(len(x[1]) == len(y[1]) for x, y in zip(a.ann, b.ann))
        S.prove(ok and sand(*[p == q for x, y in zip(a.ann, b.ann) for p, q in zip(x[1], y[1])]), 'annotation arguments are kept')
        for q in sorted(set(a.time) | set(b.time)):
            ea, eb = a.time.get(q, []), b.time.get(q, [])
            if not noise:
                ea, eb = strip(ea), strip(eb)
            timeline(S, q, runs(ea), runs(eb), ctx, strengths)


def strip(es):
    out = []
    for e in es:
        if e[0] in ('N', 'FLIP'):
            continue
        out.append(('PAR', e[1], e[2], {}) if e[0] == 'PAR' else e)
    return out


def timeline(S, q, ra, rb, ctx, strengths):
    def sig(r):
        out = []
        for e in r:
            if isinstance(e, list):
                out.append(tuple(sorted((x[1], x[2]) for x in e)))
            elif e[0] == 'PAR':
                out.append(e[:3] + (tuple(sorted(str(sorted(map(str, t))) for t in e[3])),))
            elif e[0] == 'FLIP':
                out.append('FLIP')
            else:
                out.append(e)
        return out
    sa, sb = sig(ra), sig(rb)
    if sa != sb:
        S.prove(False, 'each qubit sees the specified operations and noise channels', lambda: f'{ctx} qubit {q}: {sa} vs {sb}')
        return
    S.prove(True, 'each qubit sees the specified operations and noise channels')
    conds = []
    for x, y in zip(ra, rb):
        if isinstance(x, list):
            groups = {}
            for e in x:
                groups.setdefault((e[1], e[2]), [[], []])[0].append(e[3])
            for e in y:
                groups.setdefault((e[1], e[2]), [[], []])[1].append(e[3])
            for k, (pa, pb) in groups.items():
                conds.append(multiset(S, pa, pb))
        elif x[0] == 'PAR':
            for t, p in x[3].items():
                conds.append(S.close(p, y[3][t], 1e-6, 1e-12))
        elif x[0] == 'FLIP':
            conds.append(S.close(x[1], y[1], 1e-6, 1e-12))
    for c in conds:
        if isinstance(c, SymBool):
            t = core.z3.simplify(c.t)
            if core.z3.is_true(t):
                continue
            strengths.setdefault(t.get_id(), (SymBool(t), lambda: f'qubit {q}: {ra} vs {rb}'))
        elif not c:
            strengths.setdefault('false', (False, lambda: f'qubit {q}: {ra} vs {rb}'))


def multiset(S, pa, pb):
    import itertools
    if len(pa) == 1:
        return S.close(pa[0], pb[0], 1e-6, 1e-12)
    return sor(*[sand(*[S.close(a, b, 1e-6, 1e-12) for a, b in zip(pa, perm)]) for perm in itertools.permutations(pb)])


def big_ops(model, qubits, moments, seed, inner=False):
    """A long circuit of many qubits: pseudo-random supported operations on disjoint targets, inverted results, loops, annotations."""
    import random
    r = random.Random(seed)
    gates = sorted(spec(model, 1).gates)
    out, recs = [], 0
    for g in gates if not inner else ():
        # every operation on (nearly) all the qubits at once
        mine = list(range(qubits))
        r.shuffle(mine)
        mine = mine[:r.choice([qubits // 2 * 2, qubits // 2 * 2 - 2])]
        out.append((g, mine, 'YZX') if g == 'MPP' else (g, [_stim.target_inv(q) if q % 3 == 1 else q for q in mine]) if g in MEA else (g, mine))
        out.append('TICK')
    for t in range(moments):
        pool = list(range(qubits))
        r.shuffle(pool)
        pool = pool[:r.choice([qubits, qubits * 2 // 3, 5, 1 + qubits // 3])]
        while pool:
            g = r.choice(gates)
            k = min(len(pool), r.choice([2, 4, 8, qubits // 2 * 2]))
            if g in C2 or g == 'MPP':
                k = k // 2 * 2
                if not k:
                    break
            mine, pool = pool[:k], pool[k:]
            if g == 'MPP':
                out.append((g, mine, r.choice(['XY', 'ZZ', 'YX', 'ZXY'])))
                recs += k // 2
            elif g in MEA:
                out.append((g, [_stim.target_inv(q) if r.random() < 0.4 else q for q in mine]))
                recs += k
            else:
                out.append((g, mine))
            if r.random() < 0.2:
                pool = pool[:len(pool) // 2]
        if recs > 3:
            out.append(('DETECTOR', sorted({-1 - r.randrange(recs) for _ in range(5)}), [t, 2, 3]))
            if r.random() < 0.3:
                out.append(('OBSERVABLE_INCLUDE', [-recs], t % 3))
        if r.random() < 0.2:
            out.append(('SHIFT_COORDS', [], [0, 1, t]))
        if r.random() < 0.9 or t == moments - 1:
            out.append('TICK')
            if r.random() < 0.1:
                out.append('TICK')
        else:
            out.append('TICK')
        if not inner and t % 7 == 3:
            body = big_ops(model, qubits, 2, seed + t, inner=True)
            for count in (2 + t, 1 + seed % 5, 2 + t, 1000 * t):
                # the same body with other counts, also inside another loop
                out.append(('REPEAT', count, body))
                out.append('TICK')
            out.append(('REPEAT', 3, [('REPEAT', 4, body), 'TICK', ('REPEAT', 2 + t, body), 'TICK'] + body))
            out.append('TICK')
    if not inner:
        out.append(('QUBIT_COORDS', [qubits - 1], [3, 4]))
    return out
