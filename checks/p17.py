"""P17: sampling respects its budget and its stopping rules for every history of batch outcomes."""
from checks.collect import *

BOUNDS = ('minimum shots, maximum shots, batch limit (or none), required errors: any integers >= 1 (symbolic, unbounded); every batch outcome symbolic; '
          'up to 4 (quick) / 6 (thorough) batches and up to 3 problems per run, invariants checked before each batch; runs of up to 400 batches and 30 problems with one or two symbolic outcomes; spread limits with concrete budgets')
OUTSIDE = 'what happens after more batches than the bound (each further batch repeats the same step)'
ASSUMPTIONS = ['sqrt(p(1-p)/n) lies in [0, 1/2] for the runs whose spread limit is the default']


class Bound(core.PathEnd):
    """Enough batches explored on this path."""


def budget(S, k, batch, nprob, conc=None, std=None, err=None, history=False, live=None, rate=0, twins=False):
    ri = lambda name, v: S.int(name, 1) if v is None else v
    conc = conc or (None, None, None)
    lo, hi = ri('min_shots', conc[0]), ri('max_shots', conc[1])
    mb = None if not batch else ri('max_batch', conc[2])
    need = S.int('min_errors', 0) if err is None else err
    if S.symbolic and std is None:
        cache = {}

        def spread(x):
            # p (1 - p) / n <= 1/4, so its root is at most 1/2.
            r = core.ENG.fresh_real('spread')
            core.ENG._add(core.z3.And(r >= 0, r <= core.rv(0.5)))
            core.ENG.last_model = None
            return SymReal(r)
        S.notes['sqrt'] = spread
    if S.symbolic and std is not None:
        def spread2(x):
            # A root, characterised where it is compared: r <= std iff x <= std^2.
            key = ('spread', x.t.get_id())
            if key not in core.ENG.memo:
                r = core.ENG.fresh_real('spread')
                core.ENG._add(core.z3.And(r >= 0, (r <= core.rv(std)) == (core.toreal(x.t) <= core.rv(core.frac(std) ** 2)),
                                          (r >= core.rv(std)) == (core.toreal(x.t) >= core.rv(core.frac(std) ** 2))))
                core.ENG.last_model = None
                core.ENG.memo[key] = (r, x)
            return SymReal(core.ENG.memo[key][0])
        S.notes['sqrt'] = spread2
    runs = []
    state = dict(i=0, cur=None)

    class Maker:
        def __init__(self, j):
            self.j = j

        def __call__(self):
            return ('circuit', self.j)

    def done(run):
        """The documented reasons to stop."""
        t, e = run['shots'], run['errors']
        full = t >= hi
        reached = e >= need
        if std is not None:
            # sqrt(p (1-p) / n) <= std with p = e/t, in integers
            reached = sand(reached, e * (t - e) <= float(core.frac(std) ** 2) * t * t * t)
        if std is not None:
            # Exactly on the spread limit the outcome is a matter of float rounding.
            d = e * (t - e) - float(core.frac(std) ** 2) * t * t * t
            S.generic(sor(d > 1e-9 * t * t * t, -d > 1e-9 * t * t * t))
        breaker = sand(e >= 10, 100 * e >= 48 * t)
        return sor(full, sand(t >= lo, sor(reached, breaker)))

    def sampler(*, num_shots, circuit, decoder, **kw):
        if state.get('earlier'):
            return num_shots - 1
        i = state['i']
        ctx = lambda: f'batch {i}: {num_shots} shots; runs {runs} min {lo} max {hi} batch {mb} need {need}'
        j = circuit[1]
        if not runs or runs[-1]['j'] != j:
            if runs:
                S.prove(done(runs[-1]), 'a problem is left only when it is finished', ctx)
            S.prove(j == len(runs), 'problems are sampled one after another, in order', ctx)
            runs.append(dict(j=j, shots=0, errors=0))
        else:
            S.prove(snot(done(runs[-1])), 'no batch is taken once a stopping rule holds', ctx)
        run = runs[-1]
        S.prove(num_shots >= 1, 'a batch has at least one shot', ctx)
        if mb is not None:
            S.prove(num_shots <= mb, 'a batch never exceeds the batch limit', ctx)
        S.prove(run['shots'] + num_shots <= hi, 'a problem never exceeds its maximum number of shots', ctx)
        S.prove(decoder == f'decoder{0 if twins else j}', 'each problem uses its decoder', ctx)
        state['i'] += 1
        if i >= k:
            raise Bound()
        if live is None or i in live:
            correct = S.int(f'correct{i}', 0)
            S.assume(correct <= num_shots)
        else:
            # Long runs: most outcomes are fixed.
            bad = num_shots * rate // 100 + (i % 3 == 0 and rate > 0)
            correct = num_shots - site(bad <= num_shots, bad, num_shots)
        run['shots'] = run['shots'] + num_shots
        run['errors'] = run['errors'] + num_shots - correct
        return correct

    L, cd = load(S, sampler)
    problems = [cd.DecodingProblem(desc=desc(cd, decoder='decoder0', rounds=7) if twins else desc(cd, decoder=f'decoder{j}', rounds=j + 1), circuit_maker=Maker(j)) for j in range(nprob)]
    kw = {} if mb is None else dict(max_batch=mb)
    if std is not None:
        kw['max_sample_std_dev'] = std
    if history:
        # The same problems were sampled in this process before, within other limits.
        state['earlier'] = True
        if S.symbolic:
            keep, S.notes['sqrt'] = S.notes['sqrt'], lambda x: SymReal(core.z3.RealVal('1/4'))
        cd.collect_simulated_experiment_data(problems, min_shots=3, max_shots=17, max_batch=5, min_seen_logical_errors=3, out_path=None, discard_previous_data=False)
        state['earlier'] = False
        if S.symbolic:
            S.notes['sqrt'] = keep
    try:
        cd.collect_simulated_experiment_data(problems, min_shots=lo, max_shots=hi, min_seen_logical_errors=need, out_path=None,
                                             discard_previous_data=False, **kw)
    except Bound:
        if S.symbolic:
            raise
        return
    ctx = lambda: f'runs {runs} min {lo} max {hi} batch {mb} need {need}'
    S.prove(len(runs) == nprob, 'every problem is sampled', ctx)
    if runs:
        S.prove(done(runs[-1]), 'a problem is left only when it is finished', ctx)


def jobs(tier):
    q = tier == 'quick'
    out = [job('no problems', budget, k=0, batch=False, nprob=0)]
    k = 4 if q else 6
    for batch in (False, True):
        out.append(job(f'one problem, {"batch limit" if batch else "no batch limit"}', budget, k=k, batch=batch, nprob=1, cost=20))
        out.append(job(f'two problems, {"batch limit" if batch else "no batch limit"}', budget, k=3, batch=batch, nprob=2, cost=20))
        out.append(job(f'three problems, {"batch limit" if batch else "no batch limit"}', budget, k=3, batch=batch, nprob=3, cost=20))
        out.append(job(f'two problems described alike, {"batch limit" if batch else "no batch limit"}', budget, k=3, batch=batch, nprob=2, twins=True, cost=20))
        out.append(job(f'two problems again, {"batch limit" if batch else "no batch limit"}', budget, k=3, batch=batch, nprob=2, history=True, cost=20))
    for lo, hi, mb, std, err in [(10, 40, 20, 0.1, 1), (5, 100, 100, 0.08, 2), (30, 20, 7, 0.2, 3), (20, 1000, 50, 0.05, 0), (1, 30, 3, 0.25, 1)]:
        out.append(job(f'spread limit {lo} {hi} {mb} {std} {err}', budget, k=3 if q else 4, batch=True, nprob=1, conc=(lo, hi, mb), std=std, err=err, cost=10))
    runs = [((1, 200, 5), 50, 1, 10), ((30, 10**6, None), 10**4, 1, 0), ((100, 1000, 7), 60, 1, 5), ((4, 20, 3), 2, 12, 20), ((1, 10**8, 10**6), 1000, 1, 0),
            ((50, 400, 11), 500, 1, 49), ((10, 90, 1), 12, 1, 30), ((3, 3, 1), 5, 30, 0), ((1, 64, None), 65, 5, 2)]
    for k in source_ints(('collect_data.py',), 2, 10**7, 4):
        runs += [((min(k, 10**4) // 2, 3 * k + 1, k + 1), k + 2, 1, 1), ((1, 2 * k + 3, max(1, k // 20)), k, 1, 40)]
    for (lo, hi, mb), need, nprob, rate in runs:
        for live in ([0, 9], [2, 5], [14]) if q else ([0, 9], [2, 5], [14], [1, 4, 7], [20, 3], [33], [6, 12]):
            out.append(job(f'long run {lo} {hi} {mb} {need} x{nprob}, {live} open', budget, k=400, batch=mb is not None, nprob=nprob, conc=(lo, hi, mb), std=1, err=need,
                           live=live, rate=rate, cost=10, max_witnesses=3))
    return out
