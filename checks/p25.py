"""P25: problem descriptions are true of their circuits; the catalogue of problems is complete."""
import os
import shutil
import sys

from checks.circ import *

BOUNDS = ('descriptors: any number of sub-rounds and any noise strength (symbolic), all styles and observables, sizes up to 12x24; circuits behind them: any number of sub-rounds >= 1 '
          'and any noise (symbolic), sizes 2x6, 4x6; catalogue: one or two noise strengths of any value (symbolic) in place of the listed ones, and the listed ones; '
          'surface code circuits: any noise strength, small stored circuits and the shipped ones of distance 3; script: any problem number, limits and case reduction (symbolic, passed as text)')
OUTSIDE = 'the shipped surface code circuits of distances above 3; problem numbers outside the catalogue'
ASSUMPTIONS = ['SI1000: n is a multiple of 3']

OUT = 'src.paper.main_collect_all'
SCRIPT = 'paper.main_collect_all'


def ceil3(n):
    return (n + 2) // 3


def used(style, w, h):
    return w * h if style in ('EM3', 'EM3_v2') else w * h * 5 // 2


def fields_ok(S, d, lay, decoder, ctx):
    w, h = lay['data_width'], lay['data_height']
    S.prove(sand(d.data_width == w, d.data_height == h, d.noise == lay['noise'], d.preserved_observable == lay['obs'], d.decoder == decoder,
                 d.circuit_style == 'honeycomb_' + lay['style']), 'size, noise, style, observable and decoder are the problem\'s', ctx)
    S.prove(d.rounds == ceil3(lay['sub_rounds']), 'rounds are the sub-rounds divided by three, rounded up', ctx)
    dist = min(w, h // 3 * 2)
    S.prove(d.code_distance == dist, 'the code distance is the layout\'s', ctx)
    S.prove(d.num_qubits == used(lay['style'], w, h), 'the number of qubits is the number used', ctx)


def descriptor(S, style, obs, sizes):
    L = load(S)
    H = L.get('honeycomb_layout').HoneycombLayout
    n, p = S.int('sub_rounds', 1), S.real('noise', 0, 1)
    made = []
    for i, (w, h) in enumerate(sizes):
        lay = dict(data_width=w, data_height=h, sub_rounds=n + i, style=style, obs=obs, noise=p / (i + 1))
        dec = ['internal', 'pymatching', 'internal_correlated'][i % 3]
        made.append((lay, dec, H(**lay)))
    for lay, dec, x in made:
        ctx = lambda: f'{lay} {dec}: {d}'
        d = x.as_decoder_problem_desc(dec)
        fields_ok(S, d, lay, dec, ctx)
        d = x.as_decoder_problem(dec).desc
        fields_ok(S, d, lay, dec, ctx)


def same_circuit(S, a, b, tol=0):
    """Conjunction: the same operations in the same order, arguments equal."""
    ops_a, ops_b = list(a), list(b)
    if len(ops_a) != len(ops_b):
        return False
    out = []
    for x, y in zip(ops_a, ops_b):
        if isinstance(x, CircuitRepeatBlock) != isinstance(y, CircuitRepeatBlock):
            return False
        if isinstance(x, CircuitRepeatBlock):
            out.append(x.repeat_count == y.repeat_count)
            out.append(same_circuit(S, x.body_copy(), y.body_copy(), tol))
            continue
        if x.name != y.name or [str(t) for t in x.targets_copy()] != [str(t) for t in y.targets_copy()]:
            return False
        ga, gb = x.gate_args_copy(), y.gate_args_copy()
        if len(ga) != len(gb):
            return False
        out += [p == q if not tol else S.close(p, q, tol, tol) for p, q in zip(ga, gb)]
    return sand(*out) if out else True


def behind(S, style, obs, w, h):
    """Several problems are created before any of their circuits is made."""
    L = load(S)
    H = L.get('honeycomb_layout').HoneycombLayout
    n, p = sub_rounds(S, style), S.real('noise', 0, 0.05, lo_open=True)
    other = S.real('other', 0, 0.05, lo_open=True)
    keys = [dict(noise=p, sub_rounds=n), dict(noise=other, sub_rounds=n)]
    probs = [H(data_width=w, data_height=h, style=style, obs=obs, **k).as_decoder_problem('internal') for k in keys]
    for k, prob in list(zip(keys, probs))[::-1]:
        got = as_fake(S, prob.circuit_maker())
        fresh = H(data_width=w, data_height=h, style=style, obs=obs, **k)
        want = as_fake(S, L.get('honeycomb_circuit').generate_honeycomb_circuit(fresh))
        S.prove(same_circuit(S, got, want), 'the circuit maker makes the layout\'s circuit', lambda: f'{style} {obs} {w}x{h} {k}')
        again = as_fake(S, prob.circuit_maker())
        S.prove(same_circuit(S, again, want), 'calling the maker again gives the same circuit', lambda: f'{style} {obs} {w}x{h} {k}')


class Made:
    """Stands for the circuit generated from a layout."""

    def __init__(self, lay):
        self.lay = lay


def script(S, env2=None, recorder=True):
    e = env(S)
    e.update(env2 or {})
    L = S.loader(e)
    if recorder:
        L.get('honeycomb_circuit').generate_honeycomb_circuit = Made
    return L, L.get(SCRIPT)


def set_noises(m, vals):
    if isinstance(getattr(m, 'USED_NOISE_VALUES', None), list):
        m.USED_NOISE_VALUES[:] = vals
        return vals
    if hasattr(m, 'USED_NOISE_VALUES'):
        m.USED_NOISE_VALUES = tuple(vals)
        return vals
    return None


LISTED = [0.0001, 0.0002, 0.0003, 0.0005, 0.0007, 0.0010, 0.0015, 0.0020, 0.0030, 0.0050, 0.0070, 0.0100, 0.0150, 0.0200, 0.0300]
DECODERS = ['internal', 'internal_correlated']


def index_of(noise, vals):
    for i, v in enumerate(vals):
        if noise is v:
            return i
    for i, v in enumerate(vals):
        if not isinstance(noise, SymNum) and not isinstance(v, SymNum) and noise == v:
            return i
    for i, v in enumerate(vals):
        if isinstance(noise, SymNum) and isinstance(v, SymNum) and noise.t.eq(v.t):
            return i
    for i, v in enumerate(vals):
        if noise == v:
            return i
    return None


def noises(S, m, symbolic):
    vals = None
    if symbolic:
        a, b = S.real('noise0', 0, 0.05, lo_open=True), S.real('noise1', 0, 0.05, lo_open=True)
        S.assume(a != b)
        vals = set_noises(m, [a, b])
    return LISTED if vals is None else vals


def honeycomb(S, symbolic):
    L, m = script(S)
    vals = noises(S, m, symbolic)
    probs = m.honeycomb_problems()
    seen = []
    for pr in probs:
        d = pr.desc
        i = index_of(d.noise, vals)
        S.prove(i is not None, 'every noise strength is a listed one', lambda: f'{d}')
        u = d.data_width // 4
        lay = dict(data_width=4 * u, data_height=6 * u, sub_rounds=36 * u, style=d.circuit_style[len('honeycomb_'):], obs=d.preserved_observable, noise=vals[i] if i is not None else None)
        fields_ok(S, d, lay, d.decoder, lambda: f'{d}')
        seen.append((d.decoder, i, u, lay['style'], lay['obs']))
    want = {(dec, i, u, st, o) for dec in DECODERS for i in range(len(vals)) for u in range(1, 6) for st in ('SI1000', 'SD6', 'EM3_v2') for o in 'VH'}
    S.prove(len(seen) == len(set(seen)), 'no combination appears twice', lambda: f'{[x for x in seen if seen.count(x) > 1][:4]}')
    S.prove(set(seen) == want, 'exactly the published combinations appear', lambda: f'missing {sorted(want - set(seen))[:4]} extra {sorted(set(seen) - want)[:4]}')
    for pr, (dec, i, u, st, o) in list(zip(probs, seen)):
        c = pr.circuit_maker()
        if not isinstance(c, Made):
            if u == 1 and i == 0:
                fresh = L.get('honeycomb_layout').HoneycombLayout(data_width=4, data_height=6, sub_rounds=36, style=st, obs=o, noise=vals[i])
                S.prove(same_circuit(S, as_fake(S, c), as_fake(S, fresh.make_circuit())), 'the circuit of a problem is the one described', lambda: f'{pr.desc}')
            continue
        g = c.lay
        S.prove(sand(g.data_width == 4 * u, g.data_height == 6 * u, g.sub_rounds == 36 * u, g.style == st, g.obs == o, g.noise == vals[i]),
                'the circuit of a problem is the one described', lambda: f'{pr.desc}: {g}')


SMALL = {  # one circuit per style, observable and distance, all different
    (st, o, d): f'R {d}\nTICK\nH {d}\nTICK\n{"CX" if st == "sd6" else "CZ"} {d} {d + 1}\nTICK\nM {d} {d + 1}\nDETECTOR({i}, 0, 0) rec[-1]\nTICK\n' + ('H' if o == 'X' else 'H_YZ') + f' {d}\nTICK\nR {d}\nTICK\nM {d}\nOBSERVABLE_INCLUDE(0) rec[-1]\n'
    for i, (st, o, d) in enumerate((st, o, d) for st in ('sd6', 'si1000') for o in 'XZ' for d in (3, 7, 11, 15, 19))
}


def stored(S, names=None):
    shutil.rmtree('stored', ignore_errors=True)
    for (st, o, d), text in SMALL.items():
        os.makedirs(f'stored/{st}_{o}', exist_ok=True)
        with open(f'stored/{st}_{o}/d{d}_p0.0.stim', 'w') as f:
            f.write(text)
    return 'stored'


def surface(S, symbolic, noise_name=None):
    L, m = script(S)
    vals = noises(S, m, symbolic)
    where = stored(S)
    probs = m.surface_code_problems(where)
    seen = []
    for pr in probs:
        d = pr.desc
        i = index_of(d.noise, vals)
        S.prove(i is not None, 'every noise strength is a listed one', lambda: f'{d}')
        k = d.code_distance
        S.prove(d.data_width == k and d.data_height == k and d.num_qubits == 2 * k * k - 1 and d.rounds == 3 * k, 'size, qubits and rounds follow from the distance', lambda: f'{d}')
        seen.append((d.decoder, i, k, d.circuit_style, d.preserved_observable))
    want = {(dec, i, k, 'surface_' + st, o) for dec in DECODERS for i in range(len(vals)) for k in (3, 7, 11, 15, 19) for st in ('SD6', 'SI1000') for o in 'XZ'}
    S.prove(len(seen) == len(set(seen)), 'no combination appears twice', lambda: f'{[x for x in seen if seen.count(x) > 1][:4]}')
    S.prove(set(seen) == want, 'exactly the published combinations appear', lambda: f'missing {sorted(want - set(seen))[:4]} extra {sorted(set(seen) - want)[:4]}')
    N = L.get('noise').NoiseModel
    C = L.get('noise').stim.Circuit
    for pr, (dec, i, k, st, o) in zip(probs, seen):
        if symbolic and (dec == DECODERS[0]) == (i == 0) or not symbolic and (i + k) % 5:
            continue
        text = SMALL[st[len('surface_'):].lower(), o, k]
        want_c = getattr(N, st[len('surface_'):])(vals[i]).noisy_circuit(C(text))
        S.prove(same_circuit(S, as_fake(S, pr.circuit_maker()), as_fake(S, want_c)), 'the circuit of a problem is the stored one with its style\'s noise', lambda: f'{pr.desc}')
    for nothing in ('-', '', None):
        S.prove(len(m.surface_code_problems(nothing)) == 0, 'no directory, no surface code problems', lambda: f'{nothing!r}')


def shipped(S, noise_name, obs):
    L, m = script(S)
    p = S.real('noise', 0, 0.05, lo_open=True)
    N = L.get('noise').NoiseModel
    C = L.get('noise').stim.Circuit
    where = os.path.join(os.path.dirname(m.__file__), 'surface_code_circuits')
    if not os.path.isdir(where):
        raise core.Unsupported('no stored circuits')
    with open(f'{where}/{noise_name.lower()}_{obs}/d3_p0.0.stim') as f:
        base = C(f.read())
    got = as_fake(S, m.surface_code_circuit(directory=where, noise_name=noise_name, noise=p, obs=obs, d=3))
    want = as_fake(S, getattr(N, noise_name)(p).noisy_circuit(base))
    S.prove(same_circuit(S, got, want), 'the circuit is the stored one with the style\'s noise', lambda: f'{noise_name} {obs} {p}')


def run(S, what, given, which):
    """The script is run with any limits; what reaches the sampling loop is looked at."""
    calls = []

    def record(problems, **kw):
        calls.append((list(problems), kw))

    e = env(S)
    L = S.loader(e)
    L.get('honeycomb_circuit').generate_honeycomb_circuit = Made
    L.get('collect_data').collect_simulated_experiment_data = record
    m = L.get(SCRIPT)
    p = S.real('noise0', 0, 0.05, lo_open=True)
    set_noises(m, [p])
    where = {'default': None, 'none': '-', 'given': 'stored'}[which]
    if which == 'given':
        stored(S)
    full = m.honeycomb_problems() + m.surface_code_problems(where if where is not None else os.path.join(os.path.dirname(m.__file__), 'surface_code_circuits'))
    total = len(full)
    args = {}
    for k in given:
        if k == 'problem_id':
            args[k] = S.int(k, 0, total - 1)
        elif k == 'out_file':
            args[k] = 'here.csv'
        else:
            args[k] = S.int(k, 1 if k == 'case_reduction' else 0)
    if what == 'main':
        argv = ['main_collect_all.py']
        for k, v in args.items():
            argv += [f'--{k}', str(v)]
        if where is not None:
            argv += [f'--surface_code_problems_directory={where}']
        old = sys.argv
        sys.argv = argv
        try:
            m.main()
        except SystemExit as ex:
            if ex.code:
                S.prove(False, 'the script accepts its own options', lambda: f'{argv}')
        finally:
            sys.argv = old
    else:
        kw = dict(surface_dir=where, problem_id=args.get('problem_id'), case_reduction=args.get('case_reduction', 1), out_path=args.get('out_file'))
        for k, name in (('max_shots', 'max_shots'), ('max_errors', 'max_errors'), ('max_batch_size', 'max_batch_size')):
            if k in args:
                kw[name] = args[k]
        m.collect_data(**kw)
    ctx = lambda: f'{what} {args}: {[(len(a), b) for a, b in calls]}'
    S.prove(len(calls) == 1, 'one collection is started', ctx)
    probs, kw = calls[0]
    red = args.get('case_reduction', 1)
    S.prove(kw['max_shots'] == args.get('max_shots', 10 ** 8 // red), 'the shot limit is the given one or 10^8 reduced', ctx)
    S.prove(kw['min_seen_logical_errors'] == args.get('max_errors', 10 ** 3 // red), 'the error limit is the given one or 10^3 reduced', ctx)
    if 'max_batch_size' in args:
        S.prove(kw['max_batch'] == args['max_batch_size'], 'the batch limit is the given one', ctx)
    S.prove(kw['out_path'] == args.get('out_file'), 'the output file is the given one', ctx)
    S.prove(not kw.get('discard_previous_data'), 'previous data is kept', ctx)
    if 'problem_id' in args:
        i = S.concrete(args['problem_id'])
        S.prove(len(probs) == 1 and probs[0].desc == full[i].desc, 'exactly the numbered problem is run', lambda: f'{ctx()} {i}')
    else:
        S.prove(len(probs) == total and all(bool(a.desc == b.desc) for a, b in zip(probs, full)), 'all problems are run', ctx)


def jobs(tier):
    q = tier == 'quick'
    out = []
    sizes = [(2, 6), (4, 6), (6, 6), (2, 12), (10, 6), (4, 18), (12, 12), (6, 24)] + ([] if q else [(8, 30), (14, 12), (20, 30), (26, 6), (2, 48)])
    for style in STYLES:
        for obs in 'VH':
            out.append(job(f'descriptor {style} {obs}', descriptor, style=style, obs=obs, sizes=sizes, cost=3))
            for w, h in [(2, 6)] + ([] if q else [(4, 6), (2, 12)]):
                out.append(job(f'circuit {style} {obs} {w}x{h}', behind, style=style, obs=obs, w=w, h=h, cost=5, max_witnesses=3))
    for symbolic in (True, False):
        out.append(job(f'honeycomb catalogue {"any" if symbolic else "listed"} noise', honeycomb, symbolic=symbolic, cost=20))
        out.append(job(f'surface code catalogue {"any" if symbolic else "listed"} noise', surface, symbolic=symbolic, cost=20))
    for name in ('SD6', 'SI1000'):
        for obs in 'XZ':
            out.append(job(f'shipped {name} {obs}', shipped, noise_name=name, obs=obs))
    for what in ('main', 'function'):
        for i, given in enumerate([(), ('problem_id',), ('max_shots', 'max_errors'), ('case_reduction',), ('case_reduction', 'max_batch_size', 'out_file'),
                      ('problem_id', 'case_reduction', 'max_shots', 'max_errors', 'max_batch_size', 'out_file')]):
            which = ['default', 'none', 'given'][i % 3]
            out.append(job(f'{what} {" ".join(given) or "no options"}', run, what=what, given=given, which=which, cost=5, opts=dict(realize_limit=200), max_witnesses=4))
    return out
