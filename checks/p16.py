"""P16: the external decoder receives exactly the model and the symptoms, and its answers land at their shots."""
import os
import re
import shlex
import subprocess as _sp
import types

import numpy as np

from checks.dem import *
from checks.dem import _stim
from checks.p14 import FakeCircuit, bit

BOUNDS = ('0..3 shots, 0..2 detectors, 0..2 observables; every symptom bit and every answer bit symbolic; up to 1030 shots, 101 '
          'detectors and 70 observables with a few symbolic bits; both decoding modes; success and failure of '
          'the external program; the program\'s answer file well formed, too short, or malformed')
OUTSIDE = 'the external program itself'
ASSUMPTIONS = ['the external program reads the files named on its command line and writes one line of 0/1 per shot']

DEM = {0: '', 1: 'error(0.125) D0 L0', 2: 'error(0.125) D0 D1 L0\nerror(0.25) D1 L1'}


def spawn_stub(S, seen, behave):
    """subprocess with all ways of running a command replaced by a recorder."""
    def run_command(cmd, *a, **k):
        text = cmd if isinstance(cmd, str) else ' '.join(shlex.quote(str(c)) for c in cmd)
        argv = shlex.split(text)
        opts, i = {}, 1
        while i < len(argv):
            if i + 1 < len(argv) and not argv[i + 1].startswith('-'):
                opts[argv[i]] = argv[i + 1]
                i += 2
            else:
                opts[argv[i]] = None
                i += 1
        rec = dict(program=argv[0], opts=opts, cwd=os.getcwd())
        for key, name in (('-dem_fname', 'dem'), ('-dets_fname', 'dets')):
            if key in opts:
                with open(opts[key]) as f:
                    rec[name] = f.read()
        seen.append(rec)
        return behave(rec)

    m = types.ModuleType('subprocess')
    m.__dict__.update({k: v for k, v in _sp.__dict__.items() if not k.startswith('__')})

    def check_output(cmd, *a, **k):
        rc = run_command(cmd, *a, **k)
        if rc:
            raise _sp.CalledProcessError(rc, cmd)
        return b''

    def call(cmd, *a, **k):
        return run_command(cmd)

    def check_call(cmd, *a, **k):
        check_output(cmd)
        return 0

    def run(cmd, *a, check=False, **k):
        rc = run_command(cmd)
        if rc and check:
            raise _sp.CalledProcessError(rc, cmd)
        return _sp.CompletedProcess(cmd, rc, b'', b'')

    def popen(*a, **k):
        raise NotImplementedError('verif stub: Popen')
    m.check_output, m.call, m.check_call, m.run, m.Popen = check_output, call, check_call, run, popen
    return m


def protocol(S, nd, no, shots, correlated, answer, via, history=False, big=False):
    if big:
        det, ans, obs = partly(S, 'd', shots, nd, 2), partly(S, 'a', shots, no, 2), partly(S, 'o', shots, no, 1) if via else None
        if via:
            ans = [[(b if i % 5 else not b) if isinstance(b, bool) and isinstance(ans[i][j], bool) else ans[i][j] for j, b in enumerate(row)] for i, row in enumerate(obs)]
    else:
        det = [[S.bool(f'd{i}_{j}') for j in range(nd)] for i in range(shots)]
        ans = [[S.bool(f'a{i}_{j}') for j in range(no)] for i in range(shots)]
        obs = [[S.bool(f'o{i}_{j}') for j in range(no)] for i in range(shots)] if via else None
    seen = []
    warm = [False]

    def behave(rec):
        if warm[0]:
            with open(rec['opts']['-out'], 'w') as f:
                f.write(('1' * no + '\n') * (shots + 1))
            return 0
        if answer == 'fails':
            return 1
        if answer == 'nothing':
            return 0
        lines = [''.join('1' if b else '0' for b in row) for row in ans]
        if answer == 'short':
            lines = lines[:-1]
        if answer == 'narrow':
            lines = [l[:-1] for l in lines]
        if answer == 'wide':
            lines = [l + '0' for l in lines]
        if answer == 'garbage':
            lines = [l.replace('0', '2').replace('1', 'x') for l in lines]
        with open(rec['opts']['-out'], 'w') as f:
            f.write(''.join(l + '\n' for l in lines))
        return 0
    L = S.loader(env(S, {'subprocess': spawn_stub(S, seen, behave)}))
    if S.symbolic:
        L.env['stim'] = fakedem.STIM
    dec = L.get('decoding')
    with open('internal_decoder.binary', 'w') as f:
        f.write('')
    real = _stim.DetectorErrorModel(DEM[nd] if not big else '\n'.join(f'error({p}) {t}' for _, p, t in chain(nd, no)))
    rows = [d + o for d, o in zip(det, obs)] if via else None
    log = []
    c = FakeCircuit(real, nd, no, rows, log)
    arr = np.empty((shots, nd), dtype=object if S.symbolic else np.bool_)
    for i in range(shots):
        for j in range(nd):
            arr[i, j] = det[i][j]
    ctx = lambda: f'{nd} detectors {no} observables {shots} shots {answer} correlated={correlated}: {arr.tolist()} answers {ans}; saw {seen}'
    if history:
        # An earlier run with more shots in the same process, successful.
        warm[0] = True
        dec.decode_using_internal_decoder(circuit=FakeCircuit(_stim.DetectorErrorModel(f'error(0.375) D{nd - 1} L0'), nd, no),
                                          det_samples=np.ones((shots + 1, nd), dtype=np.bool_), use_correlated_decoding=not correlated)
        warm[0] = False
        seen.clear()
    bad = answer in ('fails', 'garbage', 'nothing') or answer == 'short' or answer in ('narrow', 'wide')
    try:
        if via:
            got = dec.sample_decode_count_correct(circuit=c, num_shots=shots, decoder='internal_correlated' if correlated else 'internal')
        else:
            pred = dec.decode_using_internal_decoder(circuit=c, det_samples=arr, use_correlated_decoding=correlated)
    except Exception as ex:
        if 'verif stub' in str(ex):
            raise
        S.prove(bad, 'a well formed answer is accepted', lambda: f'{ctx()}: {ex!r}')
        if answer == 'fails':
            S.prove(os.path.exists('repro.dem') and open('repro.dem').read().strip() == str(real).strip(), 'a failing case is preserved', ctx)
        return
    S.prove(not bad, 'a failing program or malformed answers are never turned into predictions', ctx)
    S.prove(len(seen) == 1, 'the program runs once', ctx)
    rec = seen[0]
    S.prove(os.path.basename(rec['program']) == 'internal_decoder.binary', 'the configured program runs', ctx)
    S.prove(_stim.DetectorErrorModel(rec.get('dem', 'error(0.5) D9')) == real, 'the program gets the error model', ctx)
    S.prove(all(k[1].get('decompose_errors') for k in log if k[0] == 'dem'), 'the error model is decomposed', ctx)
    lines = rec.get('dets', '').split('\n')
    lines = lines[:-1] if lines and lines[-1] == '' else lines
    want = ['shot' + ''.join(f' D{j}' for j in range(nd) if det[i][j]) for i in range(shots)]
    S.prove([l.split() for l in lines] == [w.split() for w in want], 'the program gets one line per shot listing exactly its symptoms', lambda: f'{ctx()} want {want}')
    flags = {'-cheap_corr', '-edge_corr', '-node_corr'}
    S.prove(flags <= set(rec['opts']) if correlated else not flags & set(rec['opts']), 'correlated decoding exactly when requested', ctx)
    S.prove(rec['opts'].get('-mode') == 'fi_match_from_dem' and '-ignore_distance_1_errors' in rec['opts'], 'decoding mode', ctx)
    left = [x for x in (rec['opts']['-dem_fname'], rec['opts']['-dets_fname'], rec['opts']['-out']) if os.path.exists(x)]
    S.prove(not left, 'temporary files are removed', ctx)
    if via:
        w = 0
        for i in range(shots):
            w = w + site(sand(*[obs[i][j] == ans[i][j] for j in range(no)]), 1, 0)
        S.prove(got == w, 'correct shots are counted from the program\'s answers', lambda: f'{ctx()} obs {obs} got {got}')
    else:
        S.prove(tuple(pred.shape) == (shots, no), 'prediction shape', ctx)
        S.prove(sand(*[bit(S, pred[i, j]) == ans[i][j] for i in range(shots) for j in range(no)]), 'each shot gets the answer of its own line', lambda: f'{ctx()} -> {pred}')


def missing(S, correlated):
    """Without the program there is an error, not a prediction."""
    S.bool('unused')
    seen = []
    L = S.loader(env(S, {'subprocess': spawn_stub(S, seen, lambda rec: 0)}))
    dec = L.get('decoding')
    os.makedirs('deep/er', exist_ok=True)
    old = os.getcwd()
    os.chdir('deep/er')
    try:
        dec.decode_using_internal_decoder(circuit=FakeCircuit(_stim.DetectorErrorModel(DEM[1]), 1, 1), det_samples=np.zeros((1, 1), dtype=np.bool_),
                                          use_correlated_decoding=correlated)
    except Exception as ex:
        S.prove(not seen, 'a missing program is reported')
        return
    finally:
        os.chdir(old)
    S.prove(False, 'a missing program is reported')


def jobs(tier):
    out = [job(f'missing {c}', missing, correlated=c) for c in (False, True)]
    q = tier == 'quick'
    for nd in range(3):
        for no in range(3):
            for shots in range(3 if q and nd + no > 2 else 4):
                for cor in (False, True):
                    if nd * shots + no * shots > (8 if q else 12):
                        continue
                    kinds = ['ok']
                    if shots and no and nd == 1:
                        kinds += ['fails', 'nothing', 'short', 'narrow', 'wide', 'garbage']
                    for k in kinds:
                        out.append(job(f'{nd} detectors {no} observables {shots} shots {k} {"correlated" if cor else ""}', protocol, nd=nd, no=no,
                                       shots=shots, correlated=cor, answer=k, via=False, cost=(nd + no) * shots + 1, max_witnesses=4))
        for k in ('ok', 'fails', 'nothing', 'short'):
            out.append(job(f'second run, {k} {nd} detectors', protocol, nd=max(nd, 1), no=1, shots=1 + nd % 2, correlated=nd % 2 == 0, answer=k, via=False, history=True, cost=3, max_witnesses=4))
    for i, (nd, no, shots) in enumerate(big_shapes(tier)):
        for k in ('ok', 'short', 'narrow') if i < 2 else ('ok',):
            out.append(job(f'{nd} detectors {no} observables {shots} shots {k}', protocol, nd=nd, no=no, shots=shots, correlated=i % 2 == 0, answer=k, via=False, big=True,
                           cost=10, max_witnesses=2))
        out.append(job(f'count {nd} {no} {shots}', protocol, nd=nd, no=no, shots=shots, correlated=i % 2 == 1, answer='ok', via=True, big=True, cost=10, max_witnesses=2))
    for cor in (False, True):
        for nd, no, shots in [(1, 1, 2), (2, 1, 1), (1, 2, 1)]:
            out.append(job(f'count {nd} {no} {shots} {"correlated" if cor else ""}', protocol, nd=nd, no=no, shots=shots, correlated=cor, answer='ok', via=True, cost=5))
    return out
