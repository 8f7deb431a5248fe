"""Environment of the data collection code: an arbitrary sampler, a symbolic clock, descriptors."""
import time as _time
import types

from checks.common import *
from symx import core, fakenp

FIELDS = ['data_width', 'data_height', 'rounds', 'noise', 'circuit_style', 'preserved_observable', 'code_distance', 'num_qubits',
          'num_shots', 'num_correct', 'total_processing_seconds', 'decoder', 'version']


class Clock:
    """All of python's clocks show the same symbolic time, which only `advance` moves."""

    def __init__(self, start):
        self.now = start

    def module(self):
        m = types.ModuleType('time')
        m.__dict__.update({k: v for k, v in _time.__dict__.items() if not k.startswith('__')})
        for k in ('monotonic', 'perf_counter', 'time', 'process_time'):
            setattr(m, k, lambda: self.now)
        for k in ('monotonic_ns', 'perf_counter_ns', 'time_ns'):
            setattr(m, k, lambda: self.now * 1000000000)
        m.sleep = lambda s: None
        return m


def load(S, sampler, clock=None, env=None):
    """collect_data with the sampler replaced."""
    e = {'numpy': fakenp.NUMPY} if S.symbolic else {}
    e.update(env or {})
    if S.symbolic:
        if clock is not None:
            e['time'] = clock.module()
        L = S.loader(e)
        L.get('decoding').sample_decode_count_correct = sampler
        return L, L.get('collect_data')
    L = S.loader(e)
    L.get('decoding').sample_decode_count_correct = sampler
    cd = L.get('collect_data')
    if clock is not None:
        tm = clock.module()
        if hasattr(cd, 'time') and isinstance(cd.time, types.ModuleType):
            cd.time = tm
        else:
            for k in ('monotonic', 'perf_counter', 'time'):
                if hasattr(cd, k):
                    setattr(cd, k, getattr(tm, k))
    return L, cd


BASE = dict(data_width=4, data_height=6, code_distance=2, num_qubits=33, rounds=6, noise=0.001, circuit_style='SD6',
            preserved_observable='V', decoder='pymatching')


def desc(cd, **k):
    d = dict(BASE)
    d.update(k)
    return cd.DecodingProblemDesc(**d)


def parse_number(S, s, kind):
    """The value a written number denotes."""
    s = s.strip()
    if S.symbolic and s in core.ENG.tokens:
        return core.ENG.tokens[s]
    return int(s) if kind == 'int' else float(s)
