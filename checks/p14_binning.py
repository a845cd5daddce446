"""P14: binning in one and two dimensions."""
import copy
import pickle

from vf.trace import call

from .axis_common import NAN
from .interp_common import C as CIRCLE, circle_nodes, line_nodes
from .stats_common import BAD, dup, exact, fx, layout, np

UNITS = ['binning', 'axis', 'geodetic', 'enum', 'rtree']
MODELS = [('BinningMC', 'BinningMC', ('quick', )),
          ('BinningMC', 'BinningMCdeep', ('thorough', ))]
GENERATE = ('StoreGen', 'BinningGen', 'BinningGenDeep')
TRACE = 'BinningTrace'
STATS = {}
DRIVE_TIMEOUT = 600
ASSUMPTIONS = [
    'dask is not installed: lazy arrays are driven through a stand-in cut '
    'along the first axis',
    'sums, counts and extrema are exact (coordinates, values and weights are '
    'multiples of powers of two); means and variances are compared to 1e-3, '
    'the geographic weights to 2% of the area of a cell',
    'samples are never half-way between two nodes, where either is right',
]


def circle(rng, period):
    """Nodes going round a circle, cells of 4 or 8 units."""
    while True:
        v = [4 * rng.randint(-8, 8)]
        even = rng.choice([4, 8, 0, 0])
        while v[-1] - v[0] < period - 8:
            v.append(v[-1] + (even or rng.choice([4, 8])))
        gap = v[0] + period - v[-1]
        if gap in (4, 8) and len(v) > 1:
            d = [b - a for a, b in zip(v, v[1:])]
            if (gap == d[0] if len(set(d)) == 1
                    else gap * len(d) <= v[-1] - v[0]):
                return v


def line(rng, n):
    v = [4 * rng.randint(-6, 6)]
    step = rng.choice([4, 8, 0, 0])
    while len(v) < n:
        v.append(v[-1] + (step or rng.choice([4, 8])))
    return v


def axis(rng, period, most):
    """(nodes, period)"""
    kind = rng.random()
    if kind < 0.5 and period:
        v, c = circle(rng, period), period
    elif kind < 0.65 and period:
        v, c = line(rng, rng.randint(2, 3)), period
        if v[-1] - v[0] + 8 >= period:
            v, c = v[:2], 0
    else:
        v, c = line(rng, rng.randint(1 if rng.random() < 0.2 else 2, most)), 0
    if rng.random() < 0.3:
        v = v[::-1]
    return v, c


class Bins:
    """Objects over one pair of axes."""

    cls = 'Binning'

    def __init__(self, mod, core, rng, rec, kind=2):
        self.mod, self.core, self.rng, self.rec = mod, core, rng, rec
        self.kind = kind
        self.period = rng.choice([32, 64])
        self.unit = 360 / self.period
        self.x, self.C = axis(rng, self.period, 4)
        self.y, self.D = axis(rng, self.period if rng.random() < 0.15 else 0,
                              3)
        if len(self.x) * len(self.y) > 30:
            self.y, self.D = self.y[:2], 0
        if kind == 1:
            self.y, self.D = [0], 0
        self.wgs = rng.choice([0, 0, 0, 0, 1, 2, 3]) if kind == 2 else 0
        self.single = rng.random() < 0.35
        self.vs = rng.choice([1, 0.25, 2])
        lo, hi = min(self.x), max(self.x)
        self.range = [lo, hi]
        self.given = None
        if kind == 1 and rng.random() < 0.6:
            a, b = sorted([lo + rng.randint(-9, 9), hi + rng.randint(-9, 9)])
            self.range, self.given = [a, b], (a * self.unit, b * self.unit)
        self.obj = {}
        rec.session()

    def coords(self, units):
        return np.array([np.nan if u == NAN else u * self.unit
                         for u in units], dtype=float)

    def axes(self):
        return (self.core.Axis(self.coords(self.x), is_circle=bool(self.C)),
                self.core.Axis(self.coords(self.y), is_circle=bool(self.D)))

    def spheroid(self):
        geo = self.core.geodetic
        return [None, geo.Spheroid(), geo.Spheroid(6371000.0, 1 / 400),
                geo.Spheroid(6378137.0, 1 / 400)][self.wgs]

    def dtype(self):
        return np.dtype('float32' if self.single else 'float64')

    def make(self):
        x, y = self.axes()
        if self.kind == 1:
            return self.mod.Binning1D(x, self.given, self.dtype())
        return self.mod.Binning2D(x, y, self.spheroid(), self.dtype())

    def new(self, s):
        self.obj[s] = self.make()
        self.rec('new', s=s, x=self.x, C=self.C, y=self.y, D=self.D,
                 wgs=self.wgs, single=self.single, kind=self.kind,
                 range=self.range)

    # samples ---------------------------------------------------------------
    def position(self, v, period):
        rng = self.rng
        lo, hi = min(v), max(v)
        pick = rng.random()
        if pick < 0.02:
            return NAN
        if pick < 0.25:
            p = rng.choice(v)
        elif pick < 0.5:
            p = rng.choice([lo, hi]) + rng.choice([-7, -5, -3, -1, 1, 3, 5])
        else:
            p = rng.randint(lo - 1, hi + 1) | 1
        if period and rng.random() < 0.3:
            p += rng.choice([-1, 1, 2]) * period
        return p

    def samples(self):
        rng = self.rng
        n = rng.choice([0, 1, 1, 2, 4, 8, 12])
        out = []
        for _ in range(n):
            v = BAD if rng.random() < 0.1 else rng.randint(-6, 6)
            x = self.position(self.x, self.C)
            if self.kind == 1:
                out.append([x, rng.choice([0, 1, 1, 2, 3]), v])
            else:
                out.append([x, self.position(self.y, self.D), v])
        if out and rng.random() < 0.3:
            out += [rng.choice(out) for _ in range(3)]
        return out

    def arrays(self, smp, weighted):
        x = self.coords([p[0] for p in smp])
        z = np.array([np.nan if p[2] == BAD else p[2] * self.vs
                      for p in smp], dtype=float)
        if self.kind == 1:
            w = np.array([p[1] for p in smp], dtype=float)
            out = [x, z] + ([w] if weighted else [])
        else:
            out = [x, self.coords([p[1] for p in smp]), z]
        if self.rng.random() < 0.3:
            out = [a.astype('float32') for a in out]
        if len(smp) % 2 == 0 and self.rng.random() < 0.3:
            out = [layout(self.rng, a.reshape(2, -1)) if smp else a
                   for a in out]
        elif self.rng.random() < 0.3:
            out = [layout(self.rng, a) for a in out]
        return out

    def how(self):
        if self.kind == 1:
            return 'oned', ()
        if self.wgs or self.rng.random() < 0.5:
            return 'simple', self.rng.choice([(), (True, )])
        return 'linear', (False, )

    def plain(self, smp):
        """Samples and whether weights are to be given."""
        weighted = self.kind == 1 and self.rng.random() < 0.5
        if self.kind == 1 and not weighted:
            for p in smp:
                p[1] = 1
        return smp, weighted

    def push(self, s):
        if s not in self.obj:
            self.new(s)
        smp, weighted = self.plain(self.samples())
        how, args = self.how()
        arrays = self.arrays(smp, weighted)
        if self.rng.random() < 0.15 and smp:
            self.lazy(s, smp, how, args, weighted)
            return
        self.obj[s].push(*arrays, *args)
        self.rec('push', s=s, p=smp, how=how)

    def lazy(self, s, smp, how, args, weighted):
        """The same through blocks of lazy arrays: a new object."""
        from vf.stubs import Array
        rng = self.rng
        cut = sorted(rng.sample(range(len(smp) + 1),
                                min(rng.randint(0, 2), len(smp))))
        arrays = [Array(a.ravel(), cut) for a in self.arrays(smp, weighted)]
        self.obj[s] = self.obj[s].push_delayed(*arrays, *args).compute()
        self.rec('lazy', s=s, t=s, p=smp, how=how)

    # operations --------------------------------------------------------------
    def dup(self, op, o):
        if op == 'pickle':
            return pickle.loads(pickle.dumps(o))
        if self.rng.random() < 0.3:
            return copy.deepcopy(o)
        r = copy.copy(o)
        r._instance = copy.copy(o._instance)
        return r

    def merge(self, s, t):
        def f():
            self.obj[s]._instance += self.obj[t]._instance
        kind, r = call(f)
        self.rec('iadd', s=s, t=t, r='ok' if kind == 'ok' else r)

    def sum(self, s, t, d):
        kind, r = call(lambda: self.obj[s] + self.obj[t])
        if kind == 'ok':
            self.obj[d] = r
        self.rec('add', s=s, t=t, d=d, r='ok' if kind == 'ok' else r)

    def units(self, values):
        return [exact(v, 1 / self.unit) for v in values]

    def read(self, s):
        o = self.obj[s]
        vs = self.vs
        cols = {k: np.asarray(o.variable(k)) for k in
                ('count', 'sum_of_weights', 'sum', 'mean', 'variance', 'min',
                 'max', 'skewness', 'kurtosis')}
        cols['var1'] = o._instance.variance(1)
        shape = [int(n) for n in cols['count'].shape]
        col = {k: [float(x) for x in v.ravel()] for k, v in cols.items()}
        cells = []
        for k in range(len(col['count'])):
            cells.append(dict(
                n=int(col['count'][k]),
                sw=exact(col['sum_of_weights'][k], 64),
                sum=exact(col['sum'][k], 64 / vs),
                mean=fx(col['mean'][k], 1000 / vs),
                var=fx(col['variance'][k], 1000 / vs**2),
                var1=fx(col['var1'][k], 1000 / vs**2),
                high=[fx(col['skewness'][k], 100),
                      fx(col['kurtosis'][k], 100)],
                min=exact(col['min'][k], 64 / vs),
                max=exact(col['max'][k], 64 / vs)))
        wgs = 0
        if self.kind == 2 and o.wgs is not None:
            wgs = {(True, False): 1, (False, True): 2, (True, True): 3}.get(
                (o.wgs.semi_major_axis > 6372000, o.wgs.flattening < 1 / 390),
                9)
        rg = self.range if self.kind == 2 else self.units(o.range())
        self.rec('read', s=s, r=dict(
            shape=shape, cells=cells, wgs=wgs, range=rg,
            x=self.units(o.x[:]), y=self.units(o.y[:]) if self.kind == 2
            else self.y))

    def play(self, history):
        rng = self.rng
        for ev in history:
            op, s, t = ev['op'], ev['s'], ev['t']
            touched = [s, t]
            if op == 'push':
                self.push(s)
            elif op == 'merge':
                self.merge(s, t)
            elif op == 'sum':
                d = rng.choice([1, 2])
                self.sum(s, t, d)
                touched.append(d)
            elif op == 'clear':
                self.obj[s].clear()
                self.rec('clear', s=s)
            else:
                self.obj[t] = self.dup(op, self.obj[s])
                self.rec(op, s=s, t=t)
            if rng.random() < 0.5:
                for k in sorted(set(touched) & set(self.obj)):
                    self.read(k)
        for k in sorted(self.obj):
            self.read(k)

    def foreign(self, what, wgs):
        """Merging with an object over other axes is refused."""
        rng = self.rng
        if what == 2 and self.kind == 2:
            self.wgs = wgs[0]
        self.push(1)
        saved = (self.x, self.y, self.C, self.wgs, self.single)
        if what == 0:
            self.x = [v + 4 for v in self.x]
        elif what == 1 and self.kind == 2:
            self.y = self.y[::-1] if len(self.y) > 1 else [self.y[0] + 4]
        elif what == 2 and self.kind == 2:
            self.wgs = wgs[1]
        elif what == 3:
            self.single = not self.single
        else:
            self.x = self.x + [self.x[-1] + (4 if self.x[-1] >= self.x[0]
                                             else -4)]
            self.C = 0
        rg, self.range = self.range, [min(self.x), max(self.x)]
        gv, self.given = self.given, None
        self.new(2)
        self.x, self.y, self.C, self.wgs, self.single = saved
        self.range, self.given = rg, gv
        self.merge(1, 2)
        self.sum(1, 2, 1)
        self.sum(2, 1, 2)
        self.read(1)


def geographic(mod, core, rng, rec):
    """Weights of the geographic linear binning of single samples."""
    b = Bins(mod, core, rng, rec)
    b.unit, b.C = 0.25, CIRCLE
    b.x = circle_nodes(rng, 40 * 4) if rng.random() < 0.5 else \
        line_nodes(rng, -700, 700, rng.randint(2, 5), 40)
    steps = [q - p for p, q in zip(b.x, b.x[1:])]
    if max(steps) > 40 or CIRCLE - (b.x[-1] - b.x[0]) > 40 and \
            b.x[-1] - b.x[0] > 400:
        b.x = [i * 40 for i in range(36)]
    if rng.random() < 0.3:
        b.x = b.x[::-1]
    b.y, b.D = line_nodes(rng, -260, 260, rng.randint(2, 4), 40), 0
    if rng.random() < 0.3:
        b.y = b.y[::-1]
    b.wgs, b.single, b.vs = rng.choice([1, 2]), False, 1
    b.range = [min(b.x), max(b.x)]
    b.new(1)
    lo, hi = min(b.x), max(b.x)
    for _ in range(12):
        x = rng.choice([rng.randint(lo, hi), rng.choice(b.x),
                        rng.randint(hi, lo + CIRCLE - 1), rng.randint(lo, hi)
                        + rng.choice([-1, 1]) * CIRCLE])
        y = rng.choice([rng.choice(b.y),
                        rng.randint(min(b.y) - 2, max(b.y) + 2)])
        o = b.obj[1]
        o.clear()
        o.push(b.coords([x]), b.coords([y]), np.array([1.0]), False)
        w = o.variable('sum_of_weights')
        rec('geo', s=1, p=[x, y], r=[fx(k, 10000) for k in w.ravel()])


def slivers(mod, core, rng, rec):
    """Samples very close to a node: small weights are weights."""
    b = Bins(mod, core, rng, rec)
    b.wgs, b.single, b.vs = 0, rng.random() < 0.5, 1
    b.new(1)
    small = 2.0**-rng.randint(4, 9 if b.single else 18)

    def near(v, period, small):
        k = rng.randrange(len(v))
        side = rng.choice([-1, 1])
        turn = rng.choice([0, 0, period])
        if rng.random() < 0.2:
            return v[k] + turn, v[k] + turn
        return v[k] + side + turn, v[k] + turn + side * small
    o = b.obj[1]
    for _ in range(10):
        # weights under the precision of the numbers are ignored
        how = [small, 1 if small < 2.0**-6 else small]
        rng.shuffle(how)
        (px, x), (py, y) = near(b.x, b.C, how[0]), near(b.y, b.D, how[1])
        o.clear()
        o.push(np.array([x * b.unit]), np.array([y * b.unit]),
               np.array([1.0]), False)
        n = o.variable('count')
        rec('sliver', s=1, p=[px, py], n=[int(k) for k in n.ravel()])


def drive(core, rng, tier, rec):
    from vf import gen
    from vf.load import layer
    mod = layer('binning')
    deep = tier == 'thorough'
    hist = gen.histories()
    STATS['histories_generated_by_tlc'] = len(hist)
    rng.shuffle(hist)
    for i, h in enumerate(hist[:5000 if deep else 360]):
        Bins(mod, core, rng, rec, 1 if i % 3 == 0 else 2).play(h)
    pairs = [(a, b) for a in range(4) for b in range(4) if a != b]
    for i in range(300 if deep else 40):
        kind = 1 if i % 3 == 0 else 2
        Bins(mod, core, rng, rec, kind).foreign(i % 5, pairs[i % 12])
    for p in pairs:
        Bins(mod, core, rng, rec).foreign(2, p)
    for _ in range(300 if deep else 30):
        geographic(mod, core, rng, rec)
    for _ in range(600 if deep else 60):
        slivers(mod, core, rng, rec)
    b = Bins(mod, core, rng, rec)
    b.new(1)
    d1 = Bins(mod, core, rng, rec, 1)
    d1.new(1)
    z = np.zeros
    for f in (lambda: b.obj[1].push(z(3), z(3), z(2)),
              lambda: b.obj[1].push(z(3), z(2), z(3)),
              lambda: b.obj[1].push(z(2), z(3), z(3)),
              lambda: d1.obj[1].push(z(3), z(2)),
              lambda: d1.obj[1].push(z(2), z(3)),
              lambda: d1.obj[1].push(z(3), z(3), z(2)),
              lambda: b.obj[1].variable('nothing'),
              lambda: b.obj[1] + d1.obj[1],
              lambda: mod.Binning2D(*b.axes(), None, np.dtype('int32')),
              lambda: mod.Binning1D(b.axes()[0], None, np.dtype('int32'))):
        rec('refused', r=call(f)[0] == 'err')
    d1.read(1)
