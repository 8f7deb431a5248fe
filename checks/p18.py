"""P18: statistics files - every completed batch is recorded faithfully and survives any later failure."""
import contextlib
import io
import os

from checks.collect import *

BOUNDS = ('descriptor fields, batch sizes, outcomes, noise strengths and elapsed times symbolic (any values); 0..2 problems with 1..2 batches each (5..12 problems with up to 6 batches and a few symbolic values); a failure '
          '(sampler, circuit construction, or interruption) at every possible point of the run; output file absent, empty, present (kept) or present (discarded), or no file')
OUTSIDE = 'a failure of the operating system while one line is being written'
ASSUMPTIONS = ['data is durable once it can be read back from the file by someone else']

OLD = 'data_width,data_height,rounds,noise,circuit_style,preserved_observable,code_distance,num_qubits,num_shots,num_correct,total_processing_seconds,decoder,version\n4,6,3,0.5,OLD,V,2,9,100,90,1.5,pymatching,2\n'


class Crash(BaseException):
    pass


def check_line(S, line, rec, ctx, header):
    cells = line.split(',')
    S.prove(len(cells) == len(header), 'a record has one value per column', lambda: f'{ctx()}: {line}')
    row = dict(zip(header, cells))
    for k in ('circuit_style', 'preserved_observable', 'decoder'):
        S.prove(row.get(k) == rec[k], 'text columns are the problem\'s', lambda: f'{ctx()}: {k} {line}')
    conds = []
    for k in ('data_width', 'data_height', 'rounds', 'code_distance', 'num_qubits', 'num_shots', 'num_correct'):
        conds.append(parse_number(S, row[k], 'int') == rec[k])
    S.prove(sand(*conds), 'count columns are exactly the problem\'s and the batch\'s', lambda: f'{ctx()}: {line} vs {rec}')
    S.prove(parse_number(S, row['noise'], 'float') == rec['noise'], 'the noise column is exact', lambda: f'{ctx()}: {line} vs {rec}')
    S.prove(S.close(parse_number(S, row['total_processing_seconds'], 'float'), rec['seconds'], 1e-6, 1e-6), 'the time column is the time the batch took',
            lambda: f'{ctx()}: {line} vs {rec}')


def prepare(before):
    if before != 'absent':
        with open('out.csv', 'w') as f:
            f.write(OLD if before != 'empty' else '')
    elif os.path.exists('out.csv'):
        os.remove('out.csv')


def session(S, nprob, before, out, fault, history=False, big=False, twins=False):
    """fault: None or the kind of failure, which strikes at a symbolic point."""
    clock = Clock(S.real('clock', 0, 1000))
    recs = []
    calls = [0]
    makes = [0]
    earlier = [False]
    maxcalls = max(1, 2 * nprob)
    strike = (S.choice('strike', list(range(maxcalls))) if not big else S.choice('strike', [nprob, 2 * nprob + 5, 4 * nprob])) if fault else None
    path = 'out.csv' if out else None
    old = {'absent': '', 'empty': '', 'kept': OLD, 'discarded': OLD}[before]
    prepare(before)
    ctx = lambda: f'{nprob} problems, file {before}, {fault} at {strike}, {len(recs)} batches done: {recs}'

    def verify_file():
        if not out:
            S.prove(not os.path.exists('out.csv') or open('out.csv').read() == old, 'no file is touched when none is named', ctx)
            return
        S.prove(os.path.exists('out.csv'), 'the file exists', ctx)
        with open('out.csv') as f:
            text = f.read()
        if before == 'kept':
            S.prove(text.startswith(OLD), 'earlier contents are kept', lambda: f'{ctx()}: {text}')
            body, header = text[len(OLD):], FIELDS
        else:
            first, _, body = text.partition('\n')
            header = first.split(',')
            S.prove(sorted(header) == sorted(FIELDS), 'a new file starts with the column names', lambda: f'{ctx()}: {text}')
        S.prove(body == '' or body.endswith('\n'), 'lines are complete', lambda: f'{ctx()}: {text}')
        lines = body.split('\n')[:-1]
        S.prove(len(lines) == len(recs), 'one record per completed batch is on disk', lambda: f'{ctx()}: {text}')
        for l, r in zip(lines, recs):
            check_line(S, l, r, ctx, header)

    def trouble(kind):
        if fault == kind and strike == (calls[0] if kind != 'circuit' else makes[0] - 1):
            if kind == 'interrupt':
                raise Crash()
            raise RuntimeError('injected')

    def sampler(*, num_shots, circuit, decoder, **kw):
        if earlier[0]:
            return num_shots
        i = calls[0]
        verify_file()
        trouble('sampler')
        trouble('interrupt')
        calls[0] += 1
        d = descs[circuit[1]]
        dt = S.real(f'dt{i}', 0, 500) if not big or i in (0, 17) else i * 0.75 % 4
        clock.now = clock.now + dt
        correct = S.int(f'correct{i}', 0) if not big or i in (4, 20) else num_shots - (i % 5 == 0)
        S.assume(correct <= num_shots)
        recs.append(dict(d, num_shots=num_shots, num_correct=correct, seconds=dt))
        return correct

    class Maker:
        def __init__(self, j):
            self.j = j

        def __call__(self):
            if earlier[0]:
                return ('circuit', self.j)
            makes[0] += 1
            trouble('circuit')
            return ('circuit', self.j)

    L, cd = load(S, sampler, clock)
    descs = []
    for j in range(nprob):
        if big:
            d = dict(data_width=4 + j, data_height=6 * j + 6, code_distance=j % 3, num_qubits=1000003 * j, rounds=j // 2, noise=[0.0, 1e-05, 1 / 3, 0.001, 1, 2.5e-10][j % 6])
        else:
            d = {k: S.int(f'{k}{j}', 1) for k in ('data_width', 'data_height', 'code_distance', 'num_qubits', 'rounds')}
            d['noise'] = S.real(f'noise{j}', 0, 1)
        d.update(circuit_style=['SD6', 'EM3_v2'][j % 2], preserved_observable='VH'[j % 2], decoder=['pymatching', 'internal_correlated'][j % 2])
        descs.append(d if not twins or not descs else dict(descs[0]))
    problems = [cd.DecodingProblem(desc=cd.DecodingProblemDesc(**d), circuit_maker=Maker(j)) for j, d in enumerate(descs)]
    lo = S.int('min_shots', 1) if not big else 10
    kw = {} if not big else dict(max_batch=7)
    if S.symbolic:
        S.notes['sqrt'] = lambda x: SymReal(core.z3.RealVal('1/4'))
    if history:
        # An earlier session of the same process, into the same file, with the same problems.
        earlier[0] = True
        with contextlib.redirect_stdout(io.StringIO()):
            cd.collect_simulated_experiment_data(problems, min_shots=3, max_shots=4, min_seen_logical_errors=1, out_path='out.csv', discard_previous_data=before == 'kept')
        earlier[0] = False
        prepare(before)
    buf = io.StringIO()
    failed = False
    try:
        with contextlib.redirect_stdout(buf):
            # Twice the minimum: one or two batches per problem.
            cd.collect_simulated_experiment_data(problems, min_shots=lo, max_shots=2 * lo if not big else 36, min_seen_logical_errors=3 if big else 1, out_path=path, **kw,
                                                 discard_previous_data=before == 'discarded')
    except (Crash, RuntimeError) as ex:
        if isinstance(ex, RuntimeError) and 'injected' not in str(ex):
            raise
        failed = True
    S.prove(not failed or fault is not None, 'no failure of its own', ctx)
    verify_file()
    lines = [l for l in buf.getvalue().split('\n') if l.strip()]
    data = [l for l in lines if not l.startswith('data_width')]
    S.prove(len(data) == len(recs), 'every record is shown', lambda: f'{ctx()}: {buf.getvalue()}')
    for l, r in zip(data, recs):
        check_line(S, l, r, ctx, FIELDS)


def twice(S):
    """Two sessions into the same file: the second appends."""
    clock = Clock(S.real('clock', 0, 1000))
    shots = [S.int('shots0', 1), S.int('shots1', 1)]
    good = [S.int('good0', 0), S.int('good1', 0)]
    k = [0]

    def sampler(*, num_shots, circuit, decoder, **kw):
        i = k[0]
        k[0] += 1
        S.assume(good[i] <= num_shots)
        return good[i]
    if os.path.exists('out.csv'):
        os.remove('out.csv')
    L, cd = load(S, sampler, clock)
    if S.symbolic:
        S.notes['sqrt'] = lambda x: SymReal(core.z3.RealVal('1/4'))
    for i in range(2):
        p = [cd.DecodingProblem(desc=desc(cd, rounds=i + 1), circuit_maker=lambda: ('circuit', 0))]
        cd.collect_simulated_experiment_data(p, min_shots=shots[i], max_shots=shots[i], min_seen_logical_errors=1, out_path='out.csv', discard_previous_data=False)
    with open('out.csv') as f:
        lines = f.read().split('\n')
    S.prove(lines[-1] == '' and len(lines) == 4 and sum(l.startswith('data_width') for l in lines) == 1, 'one header, one line per batch of either session', lambda: str(lines))
    data = cd.read_recorded_data('out.csv').data
    S.prove(sorted(d.rounds for d in data) == [1, 2], 'both sessions are readable')
    for d, v in data.items():
        S.prove(sand(v.num_shots == shots[d.rounds - 1], v.num_correct == good[d.rounds - 1]), 'both sessions read back as they happened', lambda: str(lines))


def jobs(tier):
    out = [job('two sessions', twice, cost=3)]
    for nprob in (0, 1, 2):
        for before in ('absent', 'kept', 'discarded', 'empty'):
            for o in (True, False):
                if not o and before == 'discarded':
                    continue
                for fault in ((None, 'sampler', 'interrupt', 'circuit') if nprob else (None,)):
                    out.append(job(f'{nprob} problems, {before}, {"file" if o else "no file"}, fault {fault}', session, nprob=nprob, before=before, out=o,
                                   fault=fault, cost=nprob * 5 + 1, max_witnesses=4))
                if nprob:
                    out.append(job(f'{nprob} problems, {before}, {"file" if o else "no file"}, second session', session, nprob=nprob, before=before, out=o,
                                   fault=None, cost=nprob * 5 + 1, max_witnesses=4, history=True))
    for before in ('absent', 'kept'):
        out.append(job(f'2 problems described alike, {before}', session, nprob=2, before=before, out=True, fault=None, twins=True, cost=10, max_witnesses=4))
        out.append(job(f'5 problems described alike, many batches, {before}', session, nprob=5, before=before, out=True, fault=None, big=True, twins=True, cost=5, max_witnesses=3))
    for before in ('absent', 'kept', 'empty'):
        for nprob, fault in ((5, None), (9, 'sampler'), (7, 'interrupt'), (12, None)):
            out.append(job(f'{nprob} problems, many batches, {before}, fault {fault}', session, nprob=nprob, before=before, out=True, fault=fault, big=True, cost=5, max_witnesses=3))
    return out
