"""Stand-ins for stim's detector error model data type whose probabilities, coordinates, shifts and counts may be symbolic."""
import types

import stim as _stim

from . import core, fakestim
from .core import SymNum


class DemInstruction:
    def __init__(self, type, args=(), targets=(), *, tag=''):
        self.type = type
        self._a = [args] if isinstance(args, (int, float, SymNum)) else list(args)
        self._t = list(targets)

    def args_copy(self):
        return list(self._a)

    def targets_copy(self):
        return list(self._t)

    def target_groups(self):
        out = [[]]
        for t in self._t:
            if not isinstance(t, (int, SymNum)) and t.is_separator():
                out.append([])
            else:
                out[-1].append(t)
        return out


class DemRepeatBlock:
    type = 'repeat'

    def __init__(self, repeat_count, block):
        self.repeat_count = repeat_count
        self._body = block

    def body_copy(self):
        return self._body


class DetectorErrorModel:
    def __init__(self, text='', ops=None):
        self._ops = list(ops or [])
        if text:
            self._ops = from_real(_stim.DetectorErrorModel(text))._ops

    def append(self, o, args=None, targets=(), **k):
        if isinstance(o, str):
            o = DemInstruction(o, args if args is not None else [], targets)
        self._ops.append(o)

    def __iter__(self):
        return iter(list(self._ops))

    def __len__(self):
        return len(self._ops)

    def __getitem__(self, i):
        return self._ops[i]

    def copy(self):
        return DetectorErrorModel(ops=self._ops)

    def _walk(self):
        """Flattened (instruction, detector offset)."""
        off = 0
        coords = []

        def run(ops):
            nonlocal off
            for o in ops:
                if isinstance(o, DemRepeatBlock):
                    for _ in range(int(o.repeat_count)):
                        yield from run(o._body._ops)
                elif o.type == 'shift_detectors':
                    off = off + o._t[0]
                    for i, a in enumerate(o._a):
                        if i >= len(coords):
                            coords.append(0)
                        coords[i] = coords[i] + a
                else:
                    yield o, off, list(coords)
        yield from run(self._ops)

    @property
    def num_detectors(self):
        n = 0
        for o, off, _ in self._walk():
            for t in o._t:
                if t.is_relative_detector_id():
                    n = max(n, int(t.val + off) + 1)
        return n

    @property
    def num_observables(self):
        n = 0
        for o, off, _ in self._walk():
            for t in o._t:
                if t.is_logical_observable_id():
                    n = max(n, t.val + 1)
        return n

    @property
    def num_errors(self):
        return sum(1 for o, _, _ in self._walk() if o.type == 'error')

    def flattened(self):
        out = DetectorErrorModel()
        for o, off, coords in self._walk():
            t = [_stim.target_relative_detector_id(int(x.val + off)) if x.is_relative_detector_id() else x for x in o._t]
            a = o._a if o.type != 'detector' else [v + (coords[i] if i < len(coords) else 0) for i, v in enumerate(o._a)]
            out._ops.append(DemInstruction(o.type, a, t))
        return out

    def get_detector_coordinates(self, only=None):
        out = {}
        for o, off, coords in self._walk():
            if o.type == 'detector':
                for t in o._t:
                    out[int(t.val + off)] = [v + (coords[i] if i < len(coords) else 0) for i, v in enumerate(o._a)]
        return out

    def to_real(self):
        r = _stim.DetectorErrorModel()
        for o in self._ops:
            if isinstance(o, DemRepeatBlock):
                r.append(_stim.DemRepeatBlock(int(o.repeat_count), o._body.to_real()))
            else:
                r.append(_stim.DemInstruction(o.type, [float(a) for a in o._a], [t if not isinstance(t, SymNum) else int(t) for t in o._t]))
        return r


def from_real(r):
    out = DetectorErrorModel()
    for o in r:
        if isinstance(o, _stim.DemRepeatBlock):
            out._ops.append(DemRepeatBlock(o.repeat_count, from_real(o.body_copy())))
        else:
            out._ops.append(DemInstruction(o.type, o.args_copy(), o.targets_copy()))
    return out


def module():
    m = fakestim.module()
    m.DemInstruction = DemInstruction
    m.DemRepeatBlock = DemRepeatBlock
    m.DetectorErrorModel = DetectorErrorModel
    return m


STIM = module()
