"""Runs the jobs of one property: symbolic exploration, replay of counterexamples and witnesses, evidence."""
import contextlib
import importlib
import io
import json
import multiprocessing as mp
import os
import pickle
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback

from . import core, loader

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class ReplayViolation(BaseException):
    pass


class ReplayInvalid(BaseException):
    pass


class Concrete:
    """The same harness interface, fed with concrete values, on the unmodified code."""
    symbolic = False

    def __init__(self, inputs):
        self.given = inputs
        self.used = {}
        self.notes = {}
        self.nproved = 0

    def _val(self, name, default):
        v = core.decode_value(self.given[name]) if name in self.given else default
        self.used[name] = v
        return v

    def int(self, name, lo=None, hi=None):
        v = self._val(name, lo if lo is not None else 0)
        v = int(v)
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise ReplayInvalid(name)
        return v

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        if lo is None:
            d = 0.0 if hi is None else hi - 1.0
        else:
            d = lo if not lo_open else ((lo + hi) / 2 if hi is not None else lo + 1.0)
        return float(self._val(name, d))

    def bool(self, name):
        return bool(self._val(name, False))

    def choice(self, name, options):
        return options[int(self._val(name, 0))]

    def assume(self, cond):
        if not cond:
            raise ReplayInvalid('assumption')

    generic = assume

    def prove(self, cond, label, detail=''):
        self.nproved += 1
        if not cond:
            raise ReplayViolation(label + (': ' + str(detail() if callable(detail) else detail) if detail else ''))
        return True

    def close(self, a, b, rel=1e-6, abs_=1e-9):
        return abs(a - b) <= abs(b) * rel + abs_

    def concrete(self, x):
        return x

    def loader(self, env=None):
        ld = loader.RealLoader(env)
        return ld

    def feasible(self, c):
        return bool(c)

    def note(self, *a):
        pass


def _sym_loader(self, env=None):
    return loader.SymLoader(env)


core.Engine.loader = _sym_loader
core.Engine.note = lambda self, *a: None


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='verif_scratch_')
    old = os.getcwd()
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


def _purge():
    for k in list(sys.modules):
        if k in loader.INDEX or any(n.startswith(k + '.') for n in loader.INDEX):
            del sys.modules[k]


def run_concrete(fn, params, inputs):
    """-> (status, message): violation | exception | ok | invalid"""
    _purge()
    S = Concrete(inputs)
    with scratch(), contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        try:
            fn(S, **params)
            return 'ok', str(S.nproved)
        except ReplayViolation as ex:
            return 'violation', str(ex)
        except ReplayInvalid as ex:
            return 'invalid', str(ex)
        except Exception as ex:
            msg = f'{type(ex).__name__}: {ex}\n' + traceback.format_exc(limit=-5)
            return ('harness' if _harness_fault(ex) else 'exception'), msg


def _harness_fault(ex):
    """The harness asked for a name or signature the tree does not have (e.g. after a refactoring), or the code used a
    feature of an environment stub that the stub lacks: no verdict, not a violation."""
    if 'verif stub' in str(ex):
        return True
    tb = ex.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    if not tb.tb_frame.f_code.co_filename.startswith(VERIF + os.sep):
        return False
    return isinstance(ex, (AttributeError, ImportError, NameError)) or (isinstance(ex, TypeError) and 'argument' in str(ex))


def forked(f, timeout):
    """Runs f() in a forked child; returns its pickled result or None."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            out = pickle.dumps(f())
            with os.fdopen(w, 'wb') as fh:
                fh.write(out)
        except BaseException:
            traceback.print_exc()
            code = 1
        os._exit(code)
    os.close(w)
    data = b''
    end = time.time() + timeout
    ok = True
    while True:
        left = end - time.time()
        if left <= 0:
            ok = False
            break
        rl, _, _ = select.select([r], [], [], left)
        if not rl:
            ok = False
            break
        chunk = os.read(r, 1 << 16)
        if not chunk:
            break
        data += chunk
    os.close(r)
    if not ok:
        os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    try:
        return pickle.loads(data) if ok and data else None
    except Exception:
        return None


class Tracer:
    """Names of the repository functions executed symbolically."""

    def __init__(self):
        self.names = set()

    def __enter__(self):
        mon = sys.monitoring
        self.tool = 4
        try:
            mon.use_tool_id(self.tool, 'verif')
        except ValueError:
            self.tool = None
            return self
        root = loader.REPO_SRC + os.sep

        def start(code, off):
            if code.co_filename.startswith(root):
                q = code.co_qualname
                if not q.startswith('<module>') and '<' not in q.rpartition('.')[2]:
                    self.names.add(os.path.relpath(code.co_filename, root) + ':' + q)
            return mon.DISABLE
        mon.register_callback(self.tool, mon.events.PY_START, start)
        mon.set_events(self.tool, mon.events.PY_START)
        mon.restart_events()
        return self

    def __exit__(self, *a):
        if self.tool is not None:
            sys.monitoring.set_events(self.tool, 0)
            sys.monitoring.register_callback(self.tool, sys.monitoring.events.PY_START, None)
            sys.monitoring.free_tool_id(self.tool)


def run_job(job, deadline, replay_s=120):
    """Executed in a worker process."""
    t0 = time.time()
    res = dict(name=job['name'], violations=[], unreproduced=[], inconclusive=[], functions=[], witnesses_ok=0,
               witnesses=0, samples=[], error=None, exceptions=0)
    fn, params = job['fn'], job.get('params', {})
    opts = job.get('opts', {})
    eng = core.Engine(deadline=min(deadline, t0 + job.get('budget', 1e9)), **opts)
    for k, v in job.get('attrs', {}).items():
        setattr(eng, k, v)

    def replay(inputs):
        return forked(lambda: run_concrete(fn, params, inputs), replay_s) or ('timeout', '')

    def on_violation(inputs, label, detail):
        st, msg = replay(inputs)
        if st == 'violation' or st == 'exception':
            res['violations'].append(dict(job=job['name'], label=label, replayed=msg, inputs=inputs,
                                          detail=str(detail() if callable(detail) else detail)[:2000]))
            return True
        res['unreproduced'].append(dict(label=label, inputs=inputs, status=st, msg=msg[:500]))
        return len(res['unreproduced']) >= 12

    def on_abort(inputs, ex, tb, unsupported):
        st, msg = replay(inputs)
        if st in ('violation', 'exception'):
            res['violations'].append(dict(job=job['name'], label='exception' if st == 'exception' else 'assertion',
                                          replayed=msg, inputs=inputs, detail=tb[-1500:]))
            eng.stop = True
            return
        res['exceptions'] += 1
        if len(res['inconclusive']) < 20:
            res['inconclusive'].append(f'path not followed symbolically ({ex}); replay on real code: {st}\n{tb[-900:]}')

    eng.on_violation = on_violation
    eng.on_abort = on_abort
    out = io.StringIO()
    try:
        with Tracer() as tr, scratch(), contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            eng.explore(lambda e: fn(e, **params))
        res['functions'] = sorted(tr.names)
    except BaseException:
        res['error'] = traceback.format_exc()
    # Validate the encoding: the same harness on the unmodified code with solver-chosen inputs of passing paths.
    wit = eng.witnesses[:job.get('max_witnesses', 6)]
    if not res['violations'] and wit:
        def allw():
            return [run_concrete(fn, params, w) for w in wit]
        rs = forked(allw, replay_s * 2)
        if rs is None:
            res['inconclusive'].append('witness replay timed out')
        else:
            for w, (st, msg) in zip(wit, rs):
                res['witnesses'] += 1
                if st == 'ok':
                    res['witnesses_ok'] += 1
                    if len(res['samples']) < 2:
                        res['samples'].append(w)
                elif st in ('violation', 'exception'):
                    res['violations'].append(dict(job=job['name'], label='witness replay', replayed=msg, inputs=w, detail=''))
                    break
    st = eng.stats
    res['stats'] = dict(paths=st.paths, branches=st.branches, queries=st.queries, obligations=st.obligations,
                        discharged=st.discharged, solver_s=st.solver_s, unknown=st.unknown, dropped=st.dropped,
                        infeasible=st.infeasible, timeout=st.timeout, realized=st.realized, labels=st.labels)
    res['inconclusive'] += st.inconclusive[:10]
    res['wall'] = time.time() - t0
    return res


def worker(args):
    modname, pid, tier, idx, deadline = args
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try:
        mod = importlib.import_module(modname)
        job = mod.jobs(tier)[idx]
        return idx, run_job(job, deadline)
    except BaseException:
        return idx, dict(name=f'job{idx}', violations=[], unreproduced=[], inconclusive=[], functions=[], samples=[],
                         witnesses=0, witnesses_ok=0, exceptions=0, error=traceback.format_exc(), wall=0,
                         stats=dict(paths=0, branches=0, queries=0, obligations=0, discharged=0, solver_s=0, unknown=0,
                                    dropped=0, infeasible=0, timeout=False, realized=0, labels={}))


def main(argv):
    pid, tier = argv[0], (argv[1] if len(argv) > 1 else 'quick')
    only = argv[2] if len(argv) > 2 else None
    modname = 'checks.' + pid.lower()
    mod = importlib.import_module(modname)
    if tier == 'replay':
        return replay_main(mod, pid, argv[2])
    t0 = time.time()
    limit = {'quick': 420, 'thorough': 3000}[tier]
    deadline = t0 + limit
    jobs = mod.jobs(tier)
    idxs = [i for i in range(len(jobs)) if only is None or only in jobs[i]['name']]
    results = {}
    nproc = min(8, len(idxs), os.cpu_count() or 1)
    stop_early = False
    ctx = mp.get_context('fork')
    order = sorted(idxs, key=lambda i: -jobs[i].get('cost', 1))
    procs = {}
    queue = list(order)
    # One process per job: a job that dies cannot take others with it.
    while queue or procs:
        while queue and len(procs) < nproc and not stop_early:
            i = queue.pop(0)
            r, w = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(w, (modname, pid, tier, i, deadline)))
            p.start()
            w.close()
            procs[i] = (p, r, time.time())
        if stop_early and not procs:
            break
        ready = mp.connection.wait([r for _, r, _ in procs.values()], timeout=1.0)
        for i, (p, r, ts) in list(procs.items()):
            done = False
            if r in ready:
                try:
                    results[i] = r.recv()[1]
                except EOFError:
                    results[i] = None
                done = True
            elif time.time() > deadline + 240:
                p.kill()
                results[i] = None
                done = True
            if done:
                p.join(10)
                del procs[i]
                if results[i] and results[i]['violations']:
                    stop_early = True
        if stop_early:
            queue = []
    return report(pid, tier, mod, jobs, results, t0)


def _child(w, args):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (7 << 30, 7 << 30))
    except Exception:
        pass
    out = worker(args)
    try:
        w.send(out)
    finally:
        w.close()
        os._exit(0)


def report(pid, tier, mod, jobs, results, t0):
    agg = dict(paths=0, branches=0, queries=0, obligations=0, discharged=0, solver_s=0.0, unknown=0, dropped=0,
               infeasible=0, realized=0)
    functions, violations, unrep, incon, errors, samples = set(), [], [], [], [], []
    wit = wok = exc = 0
    timeouts = 0
    vac = []
    per_job = []
    for i, r in sorted(results.items()):
        if r is None:
            errors.append(f'{jobs[i]["name"]}: worker died')
            continue
        for k in agg:
            agg[k] += r['stats'][k]
        timeouts += bool(r['stats']['timeout'])
        functions.update(r['functions'])
        violations += r['violations']
        unrep += [dict(u, job=r['name']) for u in r['unreproduced']]
        incon += [f'{r["name"]}: {m}' for m in r['inconclusive']]
        if r['stats']['timeout']:
            incon.append(f'{r["name"]}: time limit reached with {r["stats"]["dropped"]} open paths')
        wit += r['witnesses']
        wok += r['witnesses_ok']
        exc += r['exceptions']
        if r['error']:
            errors.append(f'{r["name"]}: {r["error"]}')
        if not r['violations'] and not r['stats']['discharged'] and not r['error']:
            vac.append(r['name'])
            if not r['inconclusive']:
                incon.append(f'{r["name"]}: no obligation was reached')
        for s in r['samples'][:1]:
            if len(samples) < 8:
                samples.append(dict(job=r['name'], inputs=s))
        per_job.append(dict(name=r['name'], wall_s=round(r['wall'], 2), paths=r['stats']['paths'],
                            queries=r['stats']['queries'], discharged=r['stats']['discharged'],
                            dropped=r['stats']['dropped'], bounds=jobs[i].get('bounds', ''),
                            labels=r['stats']['labels']))
    known = load_known(pid)
    os.makedirs(os.path.join(VERIF, 'evidence', 'replays'), exist_ok=True)
    lines = []
    real_v = []
    seen_known = set()
    for v in violations:
        k = match_known(known, v)
        if k is not None:
            if k['id'] not in seen_known:
                seen_known.add(k['id'])
                lines.append(f'KNOWN-FINDING: property={pid} {k["what"]}')
            continue
        path = os.path.join(VERIF, 'evidence', 'replays', f'{pid}_{len(real_v)}.json')
        with open(path, 'w') as f:
            json.dump(dict(property=pid, tier=tier, **v), f, indent=1, default=str)
        lines.append(f'VIOLATION property={pid} replay={path}')
        if len(real_v) < 2:
            lines.append(f'  job={v["job"]} label={v["label"]}')
            lines.append('  ' + v['replayed'].strip().replace('\n', '\n  ')[-1500:])
            lines.append('  inputs: ' + json.dumps(v['inputs'])[:1500])
        real_v.append(v)
    wall = time.time() - t0
    coverage = dict(
        states=agg['paths'], transitions=agg['branches'], traces_validated_against_impl=wok, samples=samples,
        queries_discharged=agg['discharged'], obligations=agg['obligations'], solver_queries=agg['queries'],
        solver_s=round(agg['solver_s'], 2), functions_encoded=sorted(functions), bounds=mod.BOUNDS,
        outside_bounds=getattr(mod, 'OUTSIDE', ''), jobs=per_job, inconclusive=incon[:30], unreproduced=unrep[:10],
        paths_dropped_at_bounds=agg['dropped'], solver_unknown=agg['unknown'], paths_not_followed=exc,
        errors=errors[:10], technique='symbolic execution of the repository source + z3 over all inputs within bounds',
        exhaustive_within_bounds=not (incon or unrep or errors or agg['dropped'] or agg['unknown']),
    )
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='model_checking',
              coverage=coverage, wall_s=round(wall, 2), assumptions=list(mod.ASSUMPTIONS), violations=len(real_v))
    with open(os.path.join(VERIF, 'evidence', f'{pid}.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print(f'{pid} {tier}: {len(results)} jobs, {agg["paths"]} paths, {agg["discharged"]}/{agg["obligations"]} obligations '
          f'discharged, {agg["queries"]} queries, solver {agg["solver_s"]:.1f}s, {wok}/{wit} witnesses replayed, '
          f'dropped {agg["dropped"]}, wall {wall:.1f}s')
    for m in incon[:3]:
        print('INCONCLUSIVE ' + m[:900])
    if len(incon) > 3:
        print(f'INCONCLUSIVE ... {len(incon)} in all')
    for u in unrep[:5]:
        print('UNREPRODUCED ' + json.dumps(u)[:700])
    for l in lines:
        print(l)
    for e in errors:
        print('ERROR ' + e)
    if real_v:
        return 1
    if errors or (vac and len(vac) == len(results)):
        print('ERROR: nothing decided: ' + ', '.join(vac))
        return 2
    return 0


def load_known(pid):
    out = []
    path = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('{'):
                d = json.loads(line)
                if d.get('property') == pid and d.get('status') == 'known':
                    out.append(d)
    return out


def match_known(known, v):
    for k in known:
        m = k['match']
        if m.get('label') and m['label'] != v['label']:
            continue
        if m.get('job') and m['job'] != v['job']:
            continue
        if m.get('replayed') and m['replayed'] not in v['replayed']:
            continue
        return k
    return None


def replay_main(mod, pid, path):
    v = json.load(open(path))
    for tier in ('quick', 'thorough'):
        for job in mod.jobs(tier):
            if job['name'] == v['job']:
                st, msg = run_concrete(job['fn'], job.get('params', {}), v['inputs'])
                print(st, msg)
                return 1 if st in ('violation', 'exception') else 0
    print('job not found')
    return 2


if __name__ == '__main__':
    import multiprocessing.connection
    sys.exit(main(sys.argv[1:]))
