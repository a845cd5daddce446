"""Axes used by several drivers, in integer units of 1/scale."""
import itertools

import numpy as np

NAN = 2000000000  # NaN in AxisFns
UNIT = {'deg': 64, 'one': 1, 'quarter': 4}


def monotone(maxv, maxn):
    """Every strictly increasing sequence over 0..maxv with 1..maxn nodes."""
    for n in range(1, maxn + 1):
        yield from itertools.combinations(range(maxv + 1), n)


def random_values(rng, n, lo, hi, even=None):
    if even is None:
        even = rng.random() < 0.5
    if even and n >= 2:
        step = rng.randint(1, max(1, (hi - lo) // (n - 1)))
        start = rng.randint(lo, max(lo, hi - step * (n - 1)))
        v = [start + step * i for i in range(n)]
    else:
        v = sorted(rng.sample(range(lo, hi + 1), n))
    return v


def circle_values(rng, period):
    """Nodes going round a circle of `period` units."""
    kind = rng.random()
    if kind < 0.5:
        n = rng.choice([d for d in (3, 4, 5, 6, 8, 9, 10, 12, 15, 18, 36)
                        if period % d == 0])
        start = rng.randint(-period, period)
        return [start + i * (period // n) for i in range(n)]
    n = rng.randint(3, 12)
    start = rng.randint(-period, period)
    while True:
        cuts = sorted(rng.sample(range(1, period), n - 1))
        v = [0] + cuts
        rng_ = v[-1]
        if (period - rng_) * (n - 1) <= rng_:
            return [start + x for x in v]


def unambiguous(w, period):
    """A wrapped sequence whose direction can be told from its first step."""
    up = w[0] < w[1]
    out, cross = [w[0]], False
    for a, b in zip(w, w[1:]):
        cross = cross or ((a > b) if up else (a < b))
        out.append(b + ((period if up else -period) if cross else 0))
    return max(out) - min(out) <= period


def probes(rng, v, period, extra=6):
    """Query positions in the same units: nodes, middles, ends, far."""
    q = set()
    lo, hi = min(v), max(v)
    s = sorted(v)
    for a in s:
        q.update((a, a - 1, a + 1))
    for a, b in zip(s, s[1:]):
        q.update(((a + b) // 2, (a + b + 1) // 2, (a + b) // 2 + 1))
    step = s[1] - s[0] if len(s) > 1 else 2
    for d in (1, step // 2 - 1, step // 2, step // 2 + 1, step):
        q.update((lo - d, hi + d))
    if period:
        gap = lo + period - hi
        for d in (1, gap // 2 - 1, gap // 2, gap // 2 + 1, gap - 1, gap):
            q.add(hi + d)
        more = rng.sample(sorted(q), min(len(q), extra))
        q.update(x + k * period for x in more for k in (-2, -1, 1, 2))
    q.update(rng.randint(lo - 3 * step, hi + 3 * step) for _ in range(extra))
    return sorted(q)


class AxisSession:
    """Drives core axes and records the calls, values in integer units."""

    def __init__(self, core, rec, scale=64, kind='float', base=0, mult=1,
                 dtype=None):
        self.core, self.rec, self.scale = core, rec, scale
        self.kind, self.base, self.mult, self.dtype = kind, base, mult, dtype
        self.obj = {}
        rec.session()

    # conversions between integer units and library values
    def enc(self, units):
        if self.kind == 'float':
            return np.array([np.nan if u == NAN else u / self.scale
                             for u in units],
                            dtype='float64') + self.base
        arr = np.array([self.base + u * self.mult for u in units],
                       dtype='int64')
        return arr.view(self.dtype) if self.dtype else arr

    def dec(self, values):
        out = []
        for x in np.atleast_1d(np.asarray(values)):
            if self.kind == 'float':
                y = (float(x) - self.base) * self.scale
                r = round(y)
                out.append(int(r) if abs(y - r) < 1e-6 else 1999999999)
            else:
                y = int(np.asarray(x).astype('int64')) - self.base
                out.append(y // self.mult if y % self.mult == 0 else
                           1999999999)
        return out

    def cls(self):
        return {'float': self.core.Axis, 'int': self.core.AxisInt64,
                'temporal': self.core.TemporalAxis}[self.kind]

    def new(self, s, v, C=0):
        try:
            if self.kind == 'float':
                self.obj[s] = self.cls()(self.enc(v), is_circle=bool(C))
            else:
                self.obj[s] = self.cls()(self.enc(v))
            r = True
        except ValueError:
            r = False
        self.rec('new', s=s, v=list(v), C=C, r=r)
        return r

    def describe(self, s):
        a = self.obj[s]
        reg = a.is_regular()

        def num(x):
            return self.dec([x])[0]

        inc = 0
        if reg:
            i = a.increment()
            if self.kind == 'float':
                y = i * self.scale
                inc = round(y) if abs(y - round(y)) < 1e-6 else 1999999999
            else:
                i = int(np.asarray(i).astype('int64'))
                inc = i // self.mult
        r = dict(len=len(a), values=self.dec(a[:]), front=num(a.front()),
                 back=num(a.back()), min=num(a.min_value()),
                 max=num(a.max_value()), asc=a.is_ascending(),
                 circ=a.is_circle if self.kind == 'float' else False,
                 reg=reg, inc=inc)
        self.rec('describe', s=s, r=r)

    def with_nan(self, q):
        """One query in eight also holds a NaN."""
        q = list(q)
        self.calls = getattr(self, 'calls', 0) + 1
        if self.kind == 'float' and (self.calls + len(q)) % 8 == 0:
            q.insert(len(q) // 2, NAN)
        return q

    def find_index(self, s, q, bounded=False):
        q = self.with_nan(q)
        r = self.obj[s].find_index(self.enc(q), bounded)
        self.rec('find_index', s=s, q=list(q), bounded=bounded, r=r)

    def find_indexes(self, s, q):
        q = self.with_nan(q)
        r = self.obj[s].find_indexes(self.enc(q))
        self.rec('find_indexes', s=s, q=list(q), r=r)

    def flip(self, s):
        self.obj[s].flip(inplace=True)
        self.rec('flip', s=s)

    def flipcopy(self, s, t):
        self.obj[t] = self.obj[s].flip()
        self.rec('flipcopy', s=s, t=t)

    def dup(self, s, t, how):
        import copy
        import pickle
        if how == 'pickle':
            self.obj[t] = pickle.loads(pickle.dumps(self.obj[s]))
        else:
            self.obj[t] = copy.copy(self.obj[s])
        self.rec('dup', s=s, t=t, how=how)

    def eq(self, s, t):
        a, b = self.obj[s], self.obj[t]
        r = a == b
        if (a != b) == r:
            self.rec('eq', s=s, t=t, r='inconsistent')
        else:
            self.rec('eq', s=s, t=t, r=bool(r))

    def slice(self, s, sl):
        n = len(self.obj[s])
        start, stop, step = sl.indices(n)
        count = len(range(start, stop, step))
        self.rec('slice', s=s, start=start, count=count, step=step,
                 r=self.dec(self.obj[s][sl]))
