"""P27: detection fractions are counted over all shots and detectors and recorded as such."""
import contextlib
import io
import os

import numpy as np

from checks.collect import *
from checks.dem import partly
from checks.p18 import OLD, Crash, check_line, prepare

BOUNDS = ('1..4 shots of 0..4 detectors with arbitrary outcomes (one symbolic bit each); 0..3 problems (33 with fixed, 1030 x 101 outcomes mostly fixed) with any descriptor values (symbolic); any time taken; a failure of circuit construction, '
          'compilation or sampling, or an interruption, at any problem; output file absent, empty, kept, discarded or none')
OUTSIDE = 'more shots and detectors than stated'
ASSUMPTIONS = ['stim\'s detector sampler returns one row per shot and one column per detector', 'the file checks are those of P18']


def arr(S, rows, shots, dets):
    if S.symbolic:
        a = fakenp._empty((shots, dets))
        for i in range(shots):
            for j in range(dets):
                a[i, j] = rows[i][j]
        return a
    return np.array(rows, dtype=np.bool_).reshape(shots, dets)


class Hidden(types.SimpleNamespace):
    pass


def fraction(S, shapes, shots, before, out, fault, back=False, history=False, big=False, twins=False):
    nprob = len(shapes)
    clock = Clock(S.real('clock', 0, 1000))
    recs = []
    strike = S.choice('strike', list(range(nprob))) if fault else None
    path = 'out.csv' if out else None
    prepare(before)
    earlier = [False]
    ctx = lambda: f'{shapes} detectors, {shots} shots, file {before}, {fault} at {strike}: {recs}'
    order = []

    def trouble(kind, j):
        if fault == kind and strike == j:
            if kind == 'interrupt':
                raise Crash()
            raise RuntimeError('injected')

    def verify_file():
        if not out:
            S.prove(not os.path.exists('out.csv') or (before != 'absent' and open('out.csv').read() == ('' if before == 'empty' else OLD)), 'no file is touched when none is named', ctx)
            return
        with open('out.csv') as f:
            text = f.read()
        if before == 'kept':
            S.prove(text.startswith(OLD), 'earlier contents are kept', lambda: f'{ctx()}: {text}')
            body, header = text[len(OLD):], FIELDS
        else:
            first, _, body = text.partition('\n')
            header = first.split(',')
            S.prove(sorted(header) == sorted(FIELDS), 'a new file starts with the column names', lambda: f'{ctx()}: {text}')
        lines = body.split('\n')[:-1]
        S.prove(len(lines) == len(recs) and (body == '' or body.endswith('\n')), 'one complete record per sampled problem is on disk', lambda: f'{ctx()}: {text}')
        for l, r in zip(lines, recs):
            check_line(S, l, r, ctx, header)

    class Sampler:
        def __init__(self, j):
            self.j = j

        def sample(self, n, *a, **kw):
            j = self.j
            if earlier[0]:
                return np.zeros((n, shapes[j]), dtype=np.bool_)
            verify_file()
            S.prove(n == shots, 'the requested number of shots is sampled', ctx)
            trouble('sampler', j)
            trouble('interrupt', j)
            order.append(j)
            rows = [[S.bool(f'bit{j}_{i}_{k}') for k in range(shapes[j])] for i in range(shots)] if not big else partly(S, f'bit{j}_', shots, shapes[j], 3 if j % 4 == 0 else 0)
            dt = S.real(f'dt{j}', 0, 500) if not big or j % 4 == 0 else 0.25 * j
            clock.now = clock.now + dt
            hits = 0
            for r in rows:
                for b in r:
                    hits = hits + (b._i() if isinstance(b, SymBool) else int(b))
            recs.append(dict(descs[j], num_shots=shots * shapes[j], num_correct=shots * shapes[j] - hits, seconds=dt, preserved_observable='-', decoder='detection_fraction'))
            return arr(S, rows, shots, shapes[j])

    class Circuit:
        def __init__(self, j):
            self.j = j
            self.num_detectors = shapes[j]

        def compile_detector_sampler(self, *a, **k):
            trouble('compile', self.j)
            return Sampler(self.j)

    class Maker:
        def __init__(self, j):
            self.j = j

        def __call__(self):
            trouble('circuit', self.j)
            return Circuit(self.j)

    L, cd = load(S, lambda **k: 0, clock)
    descs = []
    for j in range(nprob):
        d = {k: 2 + j if back or big else S.int(f'{k}{j}', 1) for k in ('data_width', 'data_height', 'code_distance', 'num_qubits', 'rounds')}
        d['noise'] = 0.001 if back else [0.0, 1e-05, 1 / 3, 1, 2.5e-10][j % 5] if big else S.real(f'noise{j}', 0, 1)
        d.update(circuit_style=['SD6', 'EM3_v2', 'surface_SD6'][j % 3], preserved_observable='VHX'[j % 3], decoder=['pymatching', 'internal_correlated', 'internal'][j % 3])
        descs.append(d if not twins or not descs else dict(descs[0]))
    problems = [cd.DecodingProblem(desc=cd.DecodingProblemDesc(**d), circuit_maker=Maker(j)) for j, d in enumerate(descs)]
    if history:
        # An earlier session of the same process, into the same file, with the same problems.
        earlier[0] = True
        with contextlib.redirect_stdout(io.StringIO()):
            cd.collect_detection_fraction_data(problems, shots=shots + 1, out_path='out.csv', discard_previous_data=before == 'kept')
        earlier[0] = False
        prepare(before)
    buf = io.StringIO()
    failed = False
    try:
        with contextlib.redirect_stdout(buf):
            cd.collect_detection_fraction_data(problems, shots=shots, out_path=path, discard_previous_data=before == 'discarded')
    except (Crash, RuntimeError) as ex:
        if isinstance(ex, RuntimeError) and 'injected' not in str(ex):
            raise
        failed = True
    S.prove(failed == (fault is not None), 'no failure of its own', ctx)
    S.prove(order == list(range(nprob if not failed else strike)), 'every problem is sampled once, in order', lambda: f'{ctx()} {order}')
    verify_file()
    data = [l for l in buf.getvalue().split('\n') if l.strip() and not l.startswith('data_width')]
    S.prove(len(data) == len(recs), 'every record is shown', lambda: f'{ctx()}: {buf.getvalue()}')
    for l, r in zip(data, recs):
        check_line(S, l, r, ctx, FIELDS)
    if back:
        back = cd.read_recorded_data('out.csv').data
        want = {}
        for d, r in zip(descs, recs):
            want.setdefault((d['circuit_style'],), []).append(r)
        if not recs:
            S.prove(len(back) == 0, 'the file reads back', ctx)
        for k, v in back.items():
            rs = want.get((k.circuit_style,), [])
            S.prove(len(rs) == 1 and bool(sand(v.num_shots == rs[0]['num_shots'], v.num_correct == rs[0]['num_correct'])), 'the file reads back', ctx)


def jobs(tier):
    q = tier == 'quick'
    out = [job('none', fraction, shapes=[], shots=2, before='absent', out=True, fault=None)]
    for shots in (1, 2, 3) if q else (1, 2, 3, 4):
        for dets in (0, 1, 3) if q else (0, 1, 2, 3, 4):
            out.append(job(f'{shots}x{dets}', fraction, shapes=[dets], shots=shots, before='absent', out=True, fault=None, cost=2, back=dets % 2 == 1))
    for before in ('absent', 'kept'):
        out.append(job(f'[2, 1, 2] described alike, {before}', fraction, shapes=[2, 1, 2], shots=2, before=before, out=True, fault=None, twins=True, cost=2, max_witnesses=3))
    for before in ('absent', 'kept', 'discarded', 'empty'):
        for o in (True, False):
            if not o and before == 'discarded':
                continue
            out.append(job(f'[2, 1], {before}, {"file" if o else "no file"}, second session', fraction, shapes=[2, 1], shots=2, before=before, out=o, fault=None, cost=2, max_witnesses=3, history=True))
            for fault in (None, 'sampler', 'interrupt', 'circuit', 'compile'):
                for shapes in ([2], [2, 1], [1, 0, 2]):
                    if fault and len(shapes) == 1:
                        continue
                    out.append(job(f'{shapes}, {before}, {"file" if o else "no file"}, fault {fault}', fraction, shapes=shapes, shots=2, before=before, out=o, fault=fault, cost=2, max_witnesses=3))
    for before, shapes, shots, fault in [('absent', [40], 65, None), ('kept', [1], 1030, None), ('empty', [9] * 12, 5, None), ('absent', [3, 0, 101, 12, 7, 1, 2, 5, 6], 11, 'sampler'),
                                         ('discarded', [2] * 33, 3, None), ('absent', [7] * 10, 4, 'interrupt')]:
        out.append(job(f'{len(shapes)} problems, {shots} x {max(shapes)}, {before}, {fault}', fraction, shapes=shapes, shots=shots, before=before, out=True, fault=fault, big=True, cost=5, max_witnesses=3))
    for k in source_ints(('collect_data.py',), 2, 3000, 3):
        for n in (k - 1, k, k + 1):
            out.append(job(f'{n} shots of 3', fraction, shapes=[3, 2], shots=n, before='absent', out=True, fault=None, big=True, cost=5, max_witnesses=3))
            out.append(job(f'3 shots of {n}', fraction, shapes=[n, 2], shots=3, before='absent', out=True, fault=None, big=True, cost=5, max_witnesses=3))
    return out
