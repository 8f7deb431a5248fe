"""A stand-in for the `stim` circuit data type whose gate arguments and repeat counts may be symbolic.

Only the data structure is replaced (appending, fusing, concatenating, repeating, iterating, printing, parsing);
targets are real stim targets, gate names and aliases come from real stim, and anything else (sampling, error
models, ...) converts to the real type and delegates.
"""
import re
import types

import stim as _stim

from . import core
from .core import SymNum, SymBool

_NOFUSE = {'DETECTOR', 'OBSERVABLE_INCLUDE', 'TICK', 'SHIFT_COORDS', 'REPEAT', 'MPAD', 'E', 'ELSE_CORRELATED_ERROR'}
_canon = {}


def canon(name):
    if name not in _canon:
        try:
            _canon[name] = _stim.gate_data(name).name
        except IndexError:
            if name.upper() in ('REPEAT',):
                _canon[name] = 'REPEAT'
            else:
                raise
    return _canon[name]


def same_arg(a, b):
    if isinstance(a, SymNum) or isinstance(b, SymNum):
        return isinstance(a, SymNum) and isinstance(b, SymNum) and a.t.eq(b.t)
    return a == b


def same_args(a, b):
    return len(a) == len(b) and all(same_arg(x, y) for x, y in zip(a, b))


def fnum(a):
    if isinstance(a, SymNum):
        return core.token(a)
    return f'{a:g}' if isinstance(a, float) else str(a)


def _target(t):
    if isinstance(t, _stim.GateTarget):
        return t
    if isinstance(t, SymNum):
        t = int(t)
    return _stim.GateTarget(t)


class CircuitInstruction:
    __slots__ = ('name', '_t', '_a', 'tag')

    def __init__(self, name, targets=(), gate_args=(), *, tag=''):
        if gate_args is None:
            gate_args = ()
        if isinstance(gate_args, (int, float, SymNum)):
            gate_args = [gate_args]
        self.name = canon(name)
        self._t = tuple(_target(t) for t in targets)
        self._a = tuple(_arg(a) for a in gate_args)
        self.tag = tag

    @classmethod
    def _mk(cls, name, t, a):
        o = cls.__new__(cls)
        o.name, o._t, o._a, o.tag = name, t, a, ''
        return o

    def targets_copy(self):
        return list(self._t)

    def gate_args_copy(self):
        return list(self._a)

    def target_groups(self):
        if any(isinstance(a, SymNum) for a in self._a):
            i = _stim.CircuitInstruction(self.name, self._t, [0.01] * len(self._a))
        else:
            i = _stim.CircuitInstruction(self.name, self._t, self._a)
        return i.target_groups()

    @property
    def num_measurements(self):
        return num_meas(self.name, self._t)

    def __eq__(self, o):
        if not isinstance(o, CircuitInstruction):
            return NotImplemented
        if self.name != o.name or self._t != o._t or len(self._a) != len(o._a):
            return False
        return all(bool(x == y) for x, y in zip(self._a, o._a))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def __str__(self):
        s = self.name
        if self._a:
            s += '(' + ', '.join(fnum(a) for a in self._a) + ')'
        if self._t:
            i = str(_stim.CircuitInstruction(self.name, self._t, _dummy_args(self.name, self._a)))
            s += ' ' + i.split(' ', _prefix_words(i))[-1] if False else ' ' + _target_text(i)
        return s

    def __repr__(self):
        return f'stim.CircuitInstruction({self})'


def _target_text(s):
    # Strip "NAME" or "NAME(args)" from an instruction's text.
    m = re.match(r'[A-Za-z_0-9]+(\([^)]*\))? ?', s)
    return s[m.end():]


def _prefix_words(i):
    return 1


def _dummy_args(name, a):
    return [float(x) if not isinstance(x, SymNum) else 0.01 for x in a]


def _arg(a):
    if isinstance(a, SymNum):
        return a
    if isinstance(a, SymBool):
        return a._i()
    return float(a)


_meas_cache = {}


def num_meas(name, targets):
    g = _stim.gate_data(name)
    if not g.produces_measurements:
        return 0
    if name == 'MPP':
        n = 0
        prev = True
        for t in targets:
            if t.is_combiner:
                prev = True
                continue
            if not prev or n == 0:
                n += 1
            prev = False
        # Each product starts at a target that does not follow a combiner.
        n, after = 0, False
        for t in targets:
            if t.is_combiner:
                after = True
            else:
                if not after:
                    n += 1
                after = False
        return n
    if name in ('MXX', 'MYY', 'MZZ'):
        return len(targets) // 2
    return len(targets)


class CircuitRepeatBlock:
    __slots__ = ('repeat_count', '_body', 'tag')
    name = 'REPEAT'

    def __init__(self, repeat_count, body, *, tag=''):
        if not isinstance(repeat_count, SymNum):
            if repeat_count <= 0:
                raise ValueError("Can't repeat 0 times.")
        elif repeat_count <= 0:
            raise ValueError("Can't repeat 0 times.")
        self.repeat_count = repeat_count
        self._body = body.copy()
        self.tag = tag

    def body_copy(self):
        return self._body.copy()

    @property
    def num_measurements(self):
        return self._body.num_measurements * self.repeat_count

    def __eq__(self, o):
        if not isinstance(o, CircuitRepeatBlock):
            return NotImplemented
        return bool(self.repeat_count == o.repeat_count) and self._body == o._body

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def __str__(self):
        b = '\n'.join('    ' + l for l in str(self._body).split('\n') if l)
        return f'REPEAT {self.repeat_count} {{\n{b}\n}}'

    __repr__ = __str__


class Circuit:
    def __init__(self, text=''):
        self._ops = []
        if text:
            self.append_from_stim_program_text(text)

    # -- building
    def append(self, name, targets=(), arg=None, *, tag=''):
        if isinstance(name, CircuitInstruction):
            self._push(name)
            return
        if isinstance(name, CircuitRepeatBlock):
            self._ops.append(CircuitRepeatBlock(name.repeat_count, name._body))
            return
        if isinstance(name, _stim.CircuitInstruction):
            self._push(CircuitInstruction(name.name, name.targets_copy(), name.gate_args_copy()))
            return
        if isinstance(name, _stim.CircuitRepeatBlock):
            self._ops.append(CircuitRepeatBlock(name.repeat_count, from_real(name.body_copy())))
            return
        if isinstance(targets, (int, _stim.GateTarget, SymNum)):
            targets = [targets]
        if hasattr(targets, '__iter__') and not isinstance(targets, (list, tuple)):
            targets = list(targets)
        if isinstance(targets, (list, tuple)) and any(isinstance(t, _stim.PauliString) for t in targets):
            c = _stim.Circuit()
            c.append(name, targets, arg)
            self += from_real(c)
            return
        if arg is None:
            args = []
        elif isinstance(arg, (int, float, SymNum, SymBool)):
            args = [arg]
        else:
            args = list(arg)
        name = canon(name)
        g = _stim.gate_data(name)
        if arg is None and name not in ('DETECTOR', 'QUBIT_COORDS', 'SHIFT_COORDS') and \
                len(args) not in g.num_parens_arguments_range:
            if name in ('OBSERVABLE_INCLUDE',) or 0 not in g.num_parens_arguments_range:
                # Backwards compatible default of append_operation.
                args = [0.0]
        ins = CircuitInstruction(name, targets, args)
        # Let real stim validate names, target kinds and counts.
        _validate(ins)
        self._push(ins)

    append_operation = append

    def _push(self, ins):
        if self._ops:
            last = self._ops[-1]
            if isinstance(last, CircuitInstruction) and last.name == ins.name and ins.name not in _NOFUSE \
                    and same_args(last._a, ins._a):
                self._ops[-1] = CircuitInstruction._mk(last.name, last._t + ins._t, last._a)
                return
        self._ops.append(CircuitInstruction._mk(ins.name, ins._t, ins._a))

    def insert(self, index, op):
        if isinstance(op, Circuit):
            self._ops[index:index] = [o for o in op.copy()._ops]
        else:
            self._ops.insert(index, op)

    def pop(self, index=-1):
        return self._ops.pop(index)

    def clear(self):
        self._ops.clear()

    def copy(self):
        c = Circuit()
        c._ops = list(self._ops)
        return c

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def __iadd__(self, o):
        if isinstance(o, _stim.Circuit):
            o = from_real(o)
        if not isinstance(o, Circuit):
            return NotImplemented
        ops = list(o._ops)
        if ops and self._ops and isinstance(ops[0], CircuitInstruction):
            self._push(ops[0])
            ops = ops[1:]
        self._ops.extend(ops)
        return self

    def __add__(self, o):
        c = self.copy()
        c += o
        return c

    def __radd__(self, o):
        if o == 0:
            return self.copy()
        return NotImplemented

    def __mul__(self, n):
        if not isinstance(n, SymNum):
            n = int(n)
        if n < 0:
            raise ValueError('requires repetitions >= 0')
        if n == 0 or not self._ops:
            return Circuit()
        if n == 1:
            return self.copy()
        c = Circuit()
        if len(self._ops) == 1 and isinstance(self._ops[0], CircuitRepeatBlock):
            b = self._ops[0]
            c._ops.append(CircuitRepeatBlock(b.repeat_count * n, b._body))
        else:
            c._ops.append(CircuitRepeatBlock(n, self))
        return c

    __rmul__ = __mul__

    def __imul__(self, n):
        self._ops = (self * n)._ops
        return self

    # -- reading
    def __len__(self):
        return len(self._ops)

    def __bool__(self):
        return bool(self._ops)

    def __iter__(self):
        return iter(list(self._ops))

    def __getitem__(self, i):
        if isinstance(i, slice):
            c = Circuit()
            c._ops = self._ops[i]
            return c
        return self._ops[int(i)]

    def __eq__(self, o):
        if isinstance(o, _stim.Circuit):
            o = from_real(o)
        if not isinstance(o, Circuit):
            return NotImplemented
        return len(self._ops) == len(o._ops) and all(type(a) is type(b) and a == b for a, b in zip(self._ops, o._ops))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    __hash__ = None

    def __str__(self):
        return '\n'.join(str(o) for o in self._ops)

    def __repr__(self):
        return f"stim.Circuit('''\n{self}\n''')"

    @property
    def num_qubits(self):
        n = 0
        for o in self._ops:
            if isinstance(o, CircuitRepeatBlock):
                n = max(n, o._body.num_qubits)
            else:
                for t in o._t:
                    if t.is_x_target or t.is_y_target or t.is_z_target or t.is_qubit_target:
                        n = max(n, t.value + 1)
        return n

    def _sum(self, f):
        n = 0
        for o in self._ops:
            n = n + (o._body._sum(f) * o.repeat_count if isinstance(o, CircuitRepeatBlock) else f(o))
        return n

    @property
    def num_measurements(self):
        return self._sum(lambda o: num_meas(o.name, o._t))

    @property
    def num_detectors(self):
        return self._sum(lambda o: o.name == 'DETECTOR')

    @property
    def num_ticks(self):
        return self._sum(lambda o: o.name == 'TICK')

    @property
    def num_observables(self):
        n = 0
        for o in self._ops:
            if isinstance(o, CircuitRepeatBlock):
                n = max(n, o._body.num_observables)
            elif o.name == 'OBSERVABLE_INCLUDE':
                n = max(n, int(o._a[0]) + 1)
        return n

    def without_noise(self):
        return from_real(self._to_real_dummy().without_noise()) if not has_sym(self) else _strip(self)

    def append_from_stim_program_text(self, text):
        self += parse(text)

    @staticmethod
    def from_file(f):
        if hasattr(f, 'read'):
            return parse(f.read())
        with open(f) as fh:
            return parse(fh.read())

    def to_file(self, f):
        s = str(self) + '\n'
        if hasattr(f, 'write'):
            f.write(s)
        else:
            with open(f, 'w') as fh:
                fh.write(s)

    def _to_real_dummy(self):
        return to_real(self)

    @staticmethod
    def generated(*a, **k):
        return from_real(_stim.Circuit.generated(*a, **k))

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        v = getattr(to_real(self), name)
        if callable(v):
            def call(*a, **k):
                r = v(*a, **k)
                return from_real(r) if isinstance(r, _stim.Circuit) else r
            return call
        return from_real(v) if isinstance(v, _stim.Circuit) else v


def _strip(c):
    out = Circuit()
    for o in c._ops:
        if isinstance(o, CircuitRepeatBlock):
            out._ops.append(CircuitRepeatBlock(o.repeat_count, _strip(o._body)))
        elif _stim.gate_data(o.name).is_noisy_gate and not _stim.gate_data(o.name).produces_measurements:
            continue
        elif _stim.gate_data(o.name).produces_measurements:
            out._push(CircuitInstruction._mk(o.name, o._t, ()))
        else:
            out._push(o)
    return out


_valid = {}


def _validate(ins):
    if len(ins._t) > 24:
        key = None
    args = _dummy_args(ins.name, ins._a)
    c = _stim.Circuit()
    c.append(ins.name, ins._t, args)


def has_sym(c):
    for o in c._ops:
        if isinstance(o, CircuitRepeatBlock):
            if isinstance(o.repeat_count, SymNum) or has_sym(o._body):
                return True
        elif any(isinstance(a, SymNum) for a in o._a):
            return True
    return False


def to_real(c):
    r = _stim.Circuit()
    for o in c._ops:
        if isinstance(o, CircuitRepeatBlock):
            r.append(_stim.CircuitRepeatBlock(int(o.repeat_count), to_real(o._body)))
        else:
            r.append(_stim.CircuitInstruction(o.name, o._t, [float(a) for a in o._a]))
    return r


def from_real(r):
    c = Circuit()
    for o in r:
        if isinstance(o, _stim.CircuitRepeatBlock):
            c._ops.append(CircuitRepeatBlock(o.repeat_count, from_real(o.body_copy())))
        else:
            c._ops.append(CircuitInstruction._mk(o.name, tuple(o.targets_copy()), tuple(o.gate_args_copy())))
    return c


_tok = re.compile('\u27e6[0-9]+\u27e7')


def parse(text):
    if not _tok.search(text):
        return from_real(_stim.Circuit(text))
    stack = [Circuit()]
    counts = []
    for line in text.split('\n'):
        line = line.split('#')[0].strip()
        if not line:
            continue
        if line == '}':
            b = stack.pop()
            stack[-1]._ops.append(CircuitRepeatBlock(counts.pop(), b))
            continue
        m = re.match(r'REPEAT\s+(\S+)\s*\{$', line)
        if m:
            counts.append(_num(m.group(1)))
            stack.append(Circuit())
            continue
        m = re.match(r'([A-Za-z_0-9]+)(?:\(([^)]*)\))?\s*(.*)$', line)
        name, a, t = m.groups()
        args = [_num(x) for x in a.split(',')] if a and a.strip() else []
        name = canon(name)
        shown = '(' + ','.join(str(x if not isinstance(x, SymNum) else 0.01) for x in args) + ')' if args else ''
        for o in _stim.Circuit(f'{name}{shown} {t}'):
            stack[-1]._push(CircuitInstruction(o.name, o.targets_copy(), args))
    return stack[0]


def _num(s):
    s = s.strip()
    if core.ENG is not None and s in core.ENG.tokens:
        return core.ENG.tokens[s]
    return float(s) if re.search(r'[.eE]', s) else int(s)


def module():
    m = types.ModuleType('stim')
    m.__dict__.update({k: v for k, v in _stim.__dict__.items() if not k.startswith('__')})
    m.Circuit = Circuit
    m.CircuitInstruction = CircuitInstruction
    m.CircuitRepeatBlock = CircuitRepeatBlock
    m.__version__ = _stim.__version__
    m.__getattr__ = lambda k: getattr(_stim, k)
    m.Circuit.__module__ = 'stim'
    return m


STIM = module()
