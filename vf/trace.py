"""Recording of traces: sessions of events, with integer-only payloads."""
import json
import math

import numpy as np

BAD = 2000000000  # projection of NaN
POSINF = 2000000001
NEGINF = -2000000001
LIMIT = 1900000000


def fx(value, scale=1):
    """Project a float to an integer number of 1/scale units."""
    value = float(value)
    if math.isnan(value):
        return BAD
    if math.isinf(value):
        return POSINF if value > 0 else NEGINF
    v = round(value * scale)
    if v > LIMIT:
        return LIMIT
    if v < -LIMIT:
        return -LIMIT
    return v


def exact(value, scale=1):
    """Like fx, but a value which is no multiple of 1/scale maps to BAD+2."""
    value = float(value)
    if math.isnan(value) or math.isinf(value):
        return fx(value)
    v = value * scale
    if v != round(v) or abs(v) > LIMIT:
        return BAD + 2
    return int(round(v))


def _default(o):
    if isinstance(o, (np.integer, )):
        return int(o)
    if isinstance(o, (np.bool_, )):
        return bool(o)
    if isinstance(o, np.ndarray):
        return o.tolist()
    raise TypeError(f'{type(o)}: {o!r}')


def _check(o):
    if isinstance(o, bool) or isinstance(o, str):
        return
    if isinstance(o, int):
        if abs(o) > 2**31 - 1:
            raise ValueError(f'{o} does not fit a TLC integer')
        return
    if isinstance(o, dict):
        for v in o.values():
            _check(v)
        return
    if isinstance(o, list):
        for v in o:
            _check(v)
        return
    raise TypeError(f'{type(o)} in a trace: {o!r}')


class Recorder:
    """Collects sessions; each session is validated as a unit."""

    def __init__(self):
        self.sessions = []

    def session(self):
        self.sessions.append([])

    def __call__(self, op, **fields):
        if not self.sessions:
            self.session()
        fields['op'] = op
        line = json.dumps(fields, default=_default)
        _check(json.loads(line))
        self.sessions[-1].append(line)

    @property
    def events(self):
        return sum(map(len, self.sessions))


def call(fn, *args, **kwargs):
    """Call the code under test: ('ok', value) or ('err', exception name)."""
    try:
        return 'ok', fn(*args, **kwargs)
    except Exception as exc:  # pylint: disable=broad-except
        return 'err', type(exc).__name__
