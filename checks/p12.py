"""P12: record bookkeeping - what the measurement tracker hands out refers to exactly the right records."""
from checks.circ import *
from checks.circ import _stim

BOUNDS = ('every program of up to 4 (quick) / 5 (thorough) bookkeeping steps out of 13 kinds (measure one or several keys, dummies, obstacles, '
          'groups over current and previous values, groups redefining their own key) followed by 14 queries; all measurement outcomes symbolic; '
          'detector coordinates symbolic reals; given histories of up to hundreds of records and groups under keys of every kind (falsy ones too), asked at any of 13 depths')
OUTSIDE = 'longer programs'
ASSUMPTIONS = ['histories are independent per key, so three keys suffice to exhibit interference']


class Ref:
    """Values as sets of measurement indices; semantics by definition: the XOR of those outcomes."""

    def __init__(self):
        self.h = {}
        self.t = 0

    def value(self, key, back):
        h = self.h.get(key, [])
        if back >= len(h):
            raise LookupError(key)
        return h[len(h) - 1 - back]

    def combine(self, keys):
        vs = [self.value(k, b) for k, b in keys]
        if any(v is None for v in vs):
            return None
        out = set()
        for v in vs:
            out = out ^ v
        return out


STEPS = {
    'measure a': ('m', ['a']),
    'measure b': ('m', ['b']),
    'measure a b': ('m', ['a', 'b']),
    'measure b a b': ('m', ['b', 'a', 'b']),
    'dummy a': ('d', ['a'], False),
    'obstacle a': ('d', ['a'], True),
    'dummy b g': ('d', ['b', 'g'], False),
    'obstacle b': ('d', ['b', 'g'], True),
    'group a b': ('g', [('a', 0), ('b', 0)], 'g'),
    'group prev a': ('g', [('a', 1), ('b', 0)], 'g'),
    'group self': ('g', [('g', 0), ('a', 0)], 'g'),
    'group into b': ('g', [('g', 1), ('b', 2), ('a', 0)], 'b'),
    'group empty': ('g', [], 'g'),
}
QUERIES = [
    [('a', 0)], [('b', 0)], [('g', 0)], [('a', 0), ('b', 0)], [('a', 1)], [('b', 1), ('g', 0)], [('a', 0), ('a', 0)],
    [('a', 0), ('a', 1), ('g', 1)], [('a', 2), ('g', 0), ('b', 0)], [('a', 0), ('a', 1), ('a', 2), ('b', 1)], [], [('a', 3)],
    [('g', 2), ('b', 2)], [('c', 0)],
]


def bystander(mt, S):
    """Another tracker in the same process, whose records are no records of the one looked at."""
    other = mt.MeasurementTracker()
    other.add_measurements('c', 'a')
    other.add_measurements('b', 'a')
    other.add_dummies('c', 'b')
    other.add_dummies('a', obstacle=True)
    other.add_group('b', 'c', group_key='g')
    other.add_group('b', group_key='g')
    other.get_record_targets('b', 'g', mt.Prev('c'))
    return other


def program(S, first, length):
    L = load(S)
    mt = L.get('measure_tracker')
    stim = fakestim.STIM if S.symbolic else _stim
    bystander(mt, S)
    tr = mt.MeasurementTracker()
    ref = Ref()
    m = [S.bool(f'm{i}') for i in range(3 + 3 * length)]
    log = []

    def key(k, b):
        # Equivalent ways of asking for an earlier value.
        if b == 0:
            return k
        if b == 1:
            return mt.Prev(k)
        return mt.Prev(mt.Prev(k), b - 1) if b % 2 else mt.Prev(k, offset=b)

    def step(name):
        s = STEPS[name]
        log.append(name)
        if s[0] == 'm':
            for k in s[1]:
                ref.h.setdefault(k, []).append({ref.t})
                ref.t += 1
            tr.add_measurements(*s[1])
        elif s[0] == 'd':
            for k in s[1]:
                ref.h.setdefault(k, []).append(None if s[2] else set())
            if s[2]:
                tr.add_dummies(*s[1], obstacle=True)
            else:
                tr.add_dummies(*s[1])
        else:
            v = ref.combine(s[1])
            ref.h.setdefault(s[2], []).append(v)
            tr.add_group(*[key(k, b) for k, b in s[1]], group_key=s[2])

    for name in ('dummy a', 'measure b', 'dummy b g', 'measure b a b', 'group a b'):
        if name == 'measure b a b':
            step('measure a b')
        else:
            step(name)
    names = list(STEPS)
    step(names[first])
    for i in range(1, length):
        step(S.choice(f'step{i}', names))

    def parity(idx):
        x = False
        for i in idx:
            x = x ^ m[i]
        return x

    def expected(q):
        try:
            return ref.combine(q)
        except LookupError:
            return 'error'

    bystander(mt, S)
    for q in QUERIES:
        want = expected(q)
        ctx = lambda: f'{log} query {q}'
        try:
            got = tr.get_record_targets(*[key(k, b) for k, b in q])
        except Exception:
            S.prove(want == 'error', 'a query about existing history is answered', ctx)
            continue
        S.prove(want != 'error' or got is None, 'a query beyond the recorded history is refused', ctx)
        if want == 'error':
            continue
        S.prove((got is None) == (want is None), 'obstacles and only obstacles make a value unavailable', ctx)
        if got is None:
            continue
        idx = [ref.t + t.value for t in got]
        S.prove(all(t.is_measurement_record_target for t in got) and all(0 <= i < ref.t for i in idx), 'targets refer to existing records', ctx)
        S.prove(parity(idx) == parity(sorted(want)), 'targets denote the parity of the grouped outcomes', ctx)
        S.prove(len(set(idx)) == len(idx), 'no record is named twice', ctx)
    # Detectors, and targets relative to an earlier moment.
    x, y = S.real('x'), S.real('y')
    c = stim.Circuit()
    q = QUERIES[5]
    want = expected(q)
    tr.append_detector(*[key(k, b) for k, b in q], out_circuit=c, coords=[x, y])
    f = as_fake(S, c)
    S.prove(len(f) == (0 if want is None else 1), 'a detector appears exactly when its value is available', lambda: f'{log}')
    if want is not None:
        o = f[0]
        S.prove(o.name == 'DETECTOR' and len(o._a) == 2, 'detector form')
        S.prove(sand(o._a[0] == x, o._a[1] == y), 'detector coordinates')
        S.prove(parity([ref.t + t.value for t in o._t]) == parity(sorted(want)), 'detector parity', lambda: f'{log}')
    last = ref.h['a'][-1]
    if last is not None and len(last) == 1:
        t0 = min(last)
        for q in ([('a', 0)], [('b', 1), ('a', 1)]):
            want = expected(q)
            if want in (None, 'error') or any(i > t0 for i in want):
                continue
            got = tr.get_record_targets(*[key(k, b) for k, b in q], for_time_after_measurement='a')
            S.prove(parity([t0 + 1 + t.value for t in got]) == parity(sorted(want)),
                    'targets relative to the moment after a measurement', lambda: f'{log} query {q}')


KEYS = [0, '', (), 1.5, 2j, frozenset(), (0, 1), 'key', -7, frozenset([3])]


def long_history(S, rounds, keys, seed):
    """Hundreds of records and groups under keys of every kind (falsy ones too), asked for at any depth; two of the queries' depths symbolic."""
    L = load(S)
    mt = L.get('measure_tracker')
    stim = fakestim.STIM if S.symbolic else _stim
    other = bystander(mt, S)
    tr, ref = mt.MeasurementTracker(), Ref()
    ks = KEYS[:keys]
    G = ('group',)

    def add(kind, keys, refs=None):
        if kind == 'm':
            for k in keys:
                ref.h.setdefault(k, []).append({ref.t})
                ref.t += 1
            tr.add_measurements(*keys)
        elif kind in ('dummy', 'obstacle'):
            for k in keys:
                ref.h.setdefault(k, []).append(None if kind == 'obstacle' else set())
            tr.add_dummies(*keys, obstacle=kind == 'obstacle')
        else:
            ref.h.setdefault(keys, []).append(ref.combine(refs))
            tr.add_group(*[mt.Prev(k, b) if b else k for k, b in refs], group_key=keys)
    add('dummy', ks + [G])
    for r in range(rounds):
        x = (r * 7 + seed) % 11
        turn = ks[x % len(ks):] + ks[:x % len(ks)]
        add('m', turn if x % 3 else turn[:len(ks) // 2 + 1])
        if x == 4:
            other.add_measurements(*ks)
        if x == 5:
            add('dummy', turn[:2])
        if x == 9 and r % 4 == 1:
            add('obstacle', turn[:1])
        back = min(x, len(ref.h[turn[0]]) - 1)
        add('g', G, [(k, 0) for k in turn] + [(turn[0], back)] + ([(G, 0)] if x in (2, 3) else []))
        if x == 7:
            add('g', turn[0], [(turn[0], 0), (turn[-1], 0), (G, 0)])
    m = [S.bool(f'm{i}') for i in range(ref.t)]

    def parity(idx):
        x = False
        for i in idx:
            x = x ^ m[i]
        return x
    a, b = S.int('depth a', 0, 12), S.int('depth b', 0, 2)
    da, db = int(S.concrete(a)), int(S.concrete(b))
    far = len(ref.h[ks[0]]) - 1
    queries = [[(k, 0) for k in ks], [(ks[0], da), (ks[-1], db)], [(G, da), (G, db)], [(G, da), (ks[1], da), (ks[0], far)], [(k, i) for k in ks for i in range(da + 1)],
               [(ks[0], far)], [(G, 0), (G, 0), (ks[0], da), (ks[0], da), (ks[-1], 0)], [(ks[0], far + 1)], [(G, i) for i in range(3 * da)]]
    for q in queries:
        ctx = lambda: f'{rounds} rounds, query {q}'
        try:
            want = ref.combine(q)
        except LookupError:
            want = 'error'
        try:
            got = tr.get_record_targets(*[mt.Prev(k, i) if i else k for k, i in q])
        except Exception:
            S.prove(want == 'error', 'a query about existing history is answered', ctx)
            continue
        S.prove(want != 'error' or got is None, 'a query beyond the recorded history is refused', ctx)
        if want == 'error':
            continue
        S.prove((got is None) == (want is None), 'obstacles and only obstacles make a value unavailable', ctx)
        c = stim.Circuit()
        tr.append_detector(*[mt.Prev(k, i) if i else k for k, i in q], out_circuit=c, coords=[1, 2, da])
        f = as_fake(S, c)
        S.prove(len(f) == (0 if want is None else 1), 'a detector appears exactly when its value is available', ctx)
        if got is None:
            continue
        idx = [ref.t + t.value for t in got]
        S.prove(all(t.is_measurement_record_target for t in got) and all(0 <= i < ref.t for i in idx), 'targets refer to existing records', ctx)
        S.prove(len(set(idx)) == len(idx), 'no record is named twice', ctx)
        S.prove(parity(sorted(idx)) == parity(sorted(want)), 'targets denote the parity of the grouped outcomes', ctx)
        S.prove(parity(sorted(ref.t + t.value for t in f[0]._t)) == parity(sorted(want)) and [float(x) for x in f[0]._a] == [1, 2, da], 'detector parity', ctx)


def jobs(tier):
    out = []
    for rounds, keys, seed in ((3, 10, 0), (14, 10, 2), (25, 4, 5), (60, 10, 1)) + (((200, 10, 3), (400, 7, 4)) if tier != 'quick' else ()):
        out.append(job(f'long history {rounds} {keys}', long_history, rounds=rounds, keys=keys, seed=seed, cost=8, max_witnesses=3))
    n = 4 if tier == 'quick' else 5
    return out + [job(f'first step {i}', program, first=i, length=n, cost=5, opts=dict(max_paths=200000)) for i in range(len(STEPS))]
