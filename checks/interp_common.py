"""Grids and positions of the interpolation drivers.

Horizontal coordinates are integers in quarter degrees; vertical ones are
integers in the unit of the session.
"""
import numpy as np

from vf.trace import BAD, call, fx

from .axis_common import NAN, random_values

C = 1440  # a circle, in quarter degrees
METHODS = {'bilinear': 'bilinear', 'nearest': 'nearest',
           'idw': 'inverse_distance_weighting'}


def degrees(units):
    return np.array([np.nan if u == NAN else u / 4 for u in units],
                    dtype='float64')


def circle_nodes(rng, max_cell):
    """Nodes going round a circle, cells at most max_cell quarter degrees."""
    if rng.random() < 0.5:
        n = rng.choice([d for d in (9, 10, 12, 15, 18, 36)
                        if C // d <= max_cell])
        start = rng.randint(-C // 4, C // 4) * rng.choice([1, 4])
        return [start + i * (C // n) for i in range(n)]
    while True:
        n = rng.randint(9, 14)
        start = rng.randint(-360, 360)
        v = [0]
        while len(v) < n:
            v.append(v[-1] + rng.randint(8, max_cell))
        gap = C - v[-1]
        if 8 <= gap <= max_cell and gap * (n - 1) <= v[-1]:
            return [start + x for x in v]


def line_nodes(rng, lo, hi, n, max_cell):
    """n nodes between lo and hi, cells at most max_cell."""
    if rng.random() < 0.4:
        step = rng.randint(4, min(max_cell, (hi - lo) // (n - 1)))
        start = rng.randint(lo, hi - step * (n - 1))
        return [start + i * step for i in range(n)]
    while True:
        v = [rng.randint(lo, hi)]
        while len(v) < n:
            v.append(v[-1] + rng.randint(4, max_cell))
        if v[-1] <= hi:
            return v


def x_nodes(rng, max_cell):
    """(nodes, C): a circle, an arc of a circle, or a line."""
    kind = rng.random()
    if kind < 0.5:
        v, period = circle_nodes(rng, max_cell), C
    elif kind < 0.7:
        v, period = line_nodes(rng, -720, 720, rng.randint(2, 6),
                               max_cell), C
    else:
        v, period = line_nodes(rng, -720, 1440, rng.randint(2, 6),
                               max_cell), 0
    return (v[::-1] if rng.random() < 0.3 else v), period


def y_nodes(rng, max_cell):
    v = line_nodes(rng, -320, 320, rng.randint(2, 5), max_cell)
    return v[::-1] if rng.random() < 0.3 else v


def near(rng, v, unit, period=0):
    """A position related to the nodes v, multiple of unit."""
    lo, hi = min(v), max(v)
    pick = rng.random()
    if pick < 0.2:
        p = rng.choice(v)
    elif pick < 0.3:
        p = rng.choice([lo, hi]) + rng.choice([-1, 1]) * unit
    elif pick < 0.5 and period:
        gap = lo + period - hi
        p = hi + rng.randint(0, max(gap, 1))
    else:
        p = rng.randint(lo, hi)
    if period and rng.random() < 0.2:
        p += rng.choice([-2, -1, 1, 2]) * period
    return p - p % unit if rng.random() < 0.9 else p // unit * unit


class Session:
    """One grid of the real code, with its description in the trace."""

    DTYPES = ('float64', 'float32', 'int32', 'int16', 'uint8', 'int8',
              'int64', 'uint16')

    def __init__(self, core, grid, rec, rng, dims, method, zkind='float',
                 undef=0.0, deep=False, max_cell=None):
        self.core, self.rec, self.rng, self.dims = core, rec, rng, dims
        self.zkind = zkind
        self.method = method
        cell = max_cell or (400 if method[0] == 'bilinear' else 140)
        self.unit = rng.choice([1, 4]) if method[0] == 'bilinear' else 4
        self.x, self.C = x_nodes(rng, min(cell, 160))
        self.y = y_nodes(rng, min(cell, 160))
        if method[0] != 'bilinear' and rng.random() < 0.6:
            # positions can fall on nodes
            self.x = [4 * (i // 4) for i in self.x]
            self.y = [4 * (i // 4) for i in self.y]
            if not self.regularised():
                self.x, self.C = [0, 40, 80], 0
                self.y = [-40, 0, 60]
        nz = rng.randint(2, 4) if dims >= 3 else 0
        nu = rng.randint(2, 3) if dims == 4 else 0
        self.z, self.u = self.level(nz), self.level(nu)
        if zkind != 'float':
            self.dtype, self.mult, self.base = rng.choice([
                ('datetime64[ns]', 10**9 * 3600, 1577836800 * 10**9),
                ('datetime64[ns]', 1, 1577836800 * 10**9 + 1),
                ('datetime64[s]', 60, 0),
                ('datetime64[us]', 1, 1577836800 * 10**6),
                ('datetime64[D]', 1, 18262),
                ('timedelta64[ns]', 86400 * 10**9, 0),
                ('timedelta64[ms]', 7, -10**12),
            ])
        shape = [len(self.x), len(self.y)] + [n for n in (nz, nu) if n]
        dt = rng.choice(self.DTYPES)
        if dims > 2 and dt in ('int8', 'uint8'):
            dt = 'float64'
        lo = 0 if dt.startswith('u') else -100
        q = np.array([rng.randint(lo, 100) for _ in range(int(
            np.prod(shape)))]).reshape(shape)
        array = q.astype(dt)
        if undef and dt.startswith('float'):
            mask = np.array([rng.random() < undef for _ in range(q.size)])
            mask = mask.reshape(shape)
            array[mask] = np.nan
            q = np.where(mask, BAD, q)
        array = self.layout(array)
        full = q.reshape(len(self.x), len(self.y), nz or 1, nu or 1)
        axes = [core.Axis(degrees(self.x), is_circle=bool(self.C)),
                core.Axis(degrees(self.y))]
        if nz:
            self.zaxis = (core.Axis(np.array(self.z, dtype='float64'))
                          if zkind == 'float' else
                          core.TemporalAxis(self.dates(self.z)))
            axes.append(self.zaxis)
        if nu:
            axes.append(core.Axis(np.array(self.u, dtype='float64')))
        cls = {2: grid.Grid2D, 3: grid.Grid3D, 4: grid.Grid4D}[dims]
        kwargs = {}
        if rng.random() < 0.25:
            kwargs['increasing_axes'] = 'copy'
        self.grid = cls(*axes, array, **kwargs)
        rec.session()
        rec('grid', x=self.x, C=self.C, y=self.y, z=self.z, u=self.u,
            q=full.transpose(2, 3, 0, 1).tolist())

    def regularised(self):
        for v in (self.x, self.y):
            s = v if v[0] < v[-1] else v[::-1]
            if any(b - a < 4 or b - a > 160 for a, b in zip(s, s[1:])):
                return False
        gap = C - abs(self.x[-1] - self.x[0])
        if gap < 0:
            return False
        # still clearly a circle, or clearly not one
        steps = [abs(b - a) for a, b in zip(self.x, self.x[1:])]
        mean = sum(steps) / len(steps)
        return not self.C or gap <= mean or gap > 1.5 * max(steps)

    def layout(self, array):
        kind = self.rng.randrange(4)
        if kind == 1:
            return np.asfortranarray(array)
        if kind == 2:
            big = np.zeros([2 * n for n in array.shape], dtype=array.dtype)
            view = big[tuple(slice(None, None, 2) for _ in array.shape)]
            view[...] = array
            return view
        if kind == 3:
            return np.ascontiguousarray(array[::-1])[::-1]
        return array

    def level(self, n):
        if not n:
            return []
        v = random_values(self.rng, n, -2000, 2000)
        return v[::-1] if self.rng.random() < 0.3 else v

    def dates(self, units):
        return (np.array(units, dtype='int64') * self.mult +
                self.base).view(self.dtype)

    def positions(self, n):
        rng = self.rng
        out = []
        for _ in range(n):
            p = [near(rng, self.x, self.unit, self.C),
                 near(rng, self.y, self.unit),
                 near(rng, self.z, 1) if self.z else 0,
                 near(rng, self.u, 1) if self.u else 0]
            p[1] = max(-356, min(356, p[1]))
            if rng.random() < 0.03:
                k = rng.choice([0, 1] + ([2] if self.z and
                                         self.zkind == 'float' else []))
                p[k] = NAN
            out.append(p)
        return out

    def zvalues(self, units):
        if self.zkind == 'float':
            return np.array([np.nan if u == NAN else u for u in units],
                            dtype='float64')
        d = self.dates(units)
        how = self.rng.randrange(3)
        if how == 0:
            return d
        kind, res = self.dtype[:-1].split('[')
        finer = {'ns': 'ps', 's': 'ms', 'us': 'ns', 'D': 'h', 'ms': 'us'}[res]
        if res == 'ns':
            # dates in picoseconds only reach half a year from 1970
            return d if self.mult % 1000 or self.base else self.zaxis.safe_cast(
                d.astype(f'{kind}[us]'))
        return self.zaxis.safe_cast(d.astype(f'{kind}[{finer}]'))

    def run(self, fns, pos, threads, bounds=False, zm='linear', um='linear'):
        """Call the interpolation function of the Python layer."""
        args = [degrees([p[0] for p in pos]), degrees([p[1] for p in pos])]
        kw = {}
        if self.dims >= 3:
            args.append(self.zvalues([p[2] for p in pos]))
            kw['z_method'] = zm
        if self.dims == 4:
            args.append(np.array([np.nan if p[3] == NAN else p[3]
                                  for p in pos], dtype='float64'))
            kw['u_method'] = um
        if self.method[0] == 'idw' and (self.method[1] != 2 or
                                        self.rng.random() < 0.5):
            kw['p'] = self.method[1]
        if self.rng.random() < 0.3:
            args = [np.repeat(a, 2)[::2] for a in args]
        return fns[self.dims](self.grid, *args,
                              interpolator=METHODS[self.method[0]],
                              bounds_error=bounds, num_threads=threads, **kw)

    def at(self, fns, n, zm='linear', um='linear'):
        pos = self.positions(n)
        threads = self.rng.choice([0, 1, 1, 2, 5])
        r = self.run(fns, pos, threads, False, zm, um)
        self.rec('at', p=pos, m=list(self.method), zm=zm, um=um,
                 r=[fx(v, 1000) for v in r])

    def bounds(self, fns, n, zm='linear', um='linear'):
        pos = self.positions(n)
        if self.rng.random() < 0.5:
            # only positions inside
            r = self.run(fns, pos, 1, False, zm, um)
            pos = [p for p, v in zip(pos, r) if not np.isnan(v)]
        if not pos:
            return
        st, r = call(self.run, fns, pos, self.rng.choice([0, 1, 3]), True, zm,
                     um)
        self.rec('bounds', p=pos, r='ok' if st == 'ok' else r)
        if st == 'ok':
            self.rec('at', p=pos, m=list(self.method), zm=zm, um=um,
                     r=[fx(v, 1000) for v in r])


def refusals(rec, fn, cases):
    """Calls which must be refused with an ordinary exception."""
    rec.session()
    for args, kwargs in cases:
        rec('refused', r=call(fn, *args, **kwargs)[0] == 'err')
