"""P08: interpolation over windows of nodes."""
from vf import gen
from vf.load import layer
from vf.trace import BAD, call, fx, np

from .stats_common import layout

UNITS = ['axis', 'enum', 'dateutils', 'grid', 'bicubic']
MODELS = [('WindowedMC', 'WindowedMC', ('quick', )),
          ('WindowedMC', 'WindowedMCdeep', ('thorough', ))]
GENERATE = ('WindowedGen', 'WindowedGen', 'WindowedGenDeep')
TRACE = 'WindowedTrace'
STATS = {}
DRIVE_TIMEOUT = 600
ASSUMPTIONS = [
    'axes are increasing, with steps dividing 12 units; values are integers '
    'of at most 20, windows of at most 10 x 10 nodes (6 x 6 for polynomials); '
    'results are compared to about 1e-3 units',
    'the Akima splines are checked on random or linear data (weights which '
    'are almost null are not compared)',
]
U = 10000
NAN = 2000000000
KINDS = ['linear', 'bicubic', 'bicubic', 'polynomial', 'c_spline',
         'c_spline_periodic', 'akima', 'akima_periodic', 'steffen']
MODES = ['undef', 'undef', 'expand', 'wrap', 'sym']
THREADS = [0, 1, 1, 2, 3, 8]


class Axis:
    """Nodes in units; positions in eighths of units."""

    def __init__(self, rng, n, angle=False, steps=None):
        self.per = 0
        steps = steps or rng.choice([[1], [1], [2], [3], [1, 2], [1, 3],
                                     [1, 2, 3], [1, 2, 4], [2, 3, 4, 6]])
        self.scale, self.origin = rng.choice([
            (1, 0), (1, 0), (0.25, 0), (0.0078125, 0), (64, 0), (1, -20),
            (0.5, 4096)])
        v = [0]
        if angle:
            self.per = rng.choice([12, 24, 36, 8])
            self.scale = 360 / self.per
            self.origin = rng.choice([0, 0, -self.per / 2, -1, 5, 100])
            r = rng.random()
            if r < 0.5:  # goes round, evenly
                s = rng.choice([k for k in (1, 2, 3, 4, 6)
                                if self.per % k == 0 and self.per // k >= 2])
                v = list(range(0, self.per, s))
            elif r < 0.75:  # goes round, not evenly
                while True:
                    v = [0]
                    while v[-1] < self.per:
                        v.append(v[-1] + rng.choice([1, 2, 3]))
                    last = v[-2]
                    gap = self.per - last
                    v = v[:-1]
                    if gap in (1, 2, 3) and len(v) > 3 \
                            and gap * (len(v) - 1) < last \
                            and len(set(np.diff(v))) > 1:
                        break
            else:
                while len(v) < n and v[-1] + steps[0] < self.per // 2:
                    v.append(v[-1] + rng.choice(steps))
                if len(v) < 2:
                    v = [0, 1, 2]
        else:
            while len(v) < n:
                v.append(v[-1] + rng.choice(steps))
        self.v = [8 * x for x in v]
        self.C = 8 * self.per

    def __len__(self):
        return len(self.v)

    def pos(self, q):
        q = np.array([np.nan if x == NAN else x for x in q], dtype='f8')
        return (q / 8 + self.origin) * self.scale

    def axis(self, core):
        return core.Axis(self.pos(self.v), is_circle=bool(self.per))

    def desc(self):
        return dict(v=self.v, C=self.C)

    def pick(self, rng, where, half):
        """A position: inside, on a node, at the edges, outside, NaN."""
        v = self.v
        if where == 'nan':
            return NAN
        turn = rng.choice([0, 0, 0, 1, -1, 2]) * self.C
        if where == 'node':
            return rng.choice(v) + turn
        if where == 'out':
            return turn + rng.choice([v[0] - 1, v[-1] + 1, v[0] - 8,
                                      v[-1] + 9, v[-1] + 803])
        if where == 'edge':
            k = rng.choice([0, len(v) - 2])
        else:
            lo, hi = max(half, 1) - 1, len(v) - max(half, 1) - 1
            k = rng.randint(lo, hi) if lo <= hi else rng.randrange(
                len(v) - 1)
        return rng.randint(v[k], v[k + 1]) + turn


class Dates(Axis):

    def __init__(self, rng, n):
        super().__init__(rng, n)
        self.unit, self.scale, self.origin = rng.choice([
            ('s', 1, 0), ('s', 3600, 86400 * 18262), ('ns', 125, 10**18),
            ('D', 1, 10**4), ('us', 10**6, -10**15)])
        self.kind = rng.choice(['M8', 'M8', 'm8'])

    def pos(self, q):
        return np.array([x * self.scale + self.origin for x in q],
                        dtype='i8').view(f'{self.kind}[{self.unit}]')

    def axis(self, core):
        return core.TemporalAxis(self.pos(self.v))

    def pick(self, rng, where, half):
        return super().pick(rng, 'out' if where == 'nan' else where, half)


class Mesh:

    def __init__(self, core, rng, rec, dims, kind):
        grid = layer('grid')
        self.rng, self.rec, self.dims, self.kind = rng, rec, dims, kind
        small = kind == 'polynomial'
        steps = [1, 2] if small else None
        angle = rng.random() < 0.45 and not small
        n = rng.choice([2, 3, 4, 5, 6, 7, 8])
        self.x = Axis(rng, n, angle, steps)
        self.y = Axis(rng, rng.choice([2, 3, 4, 5, 6, 7, 8]), False, steps)
        self.z = self.u = None
        if dims > 2:
            n = rng.choice([2, 2, 3])
            self.z = Dates(rng, n) if rng.random() < 0.5 else Axis(rng, n)
        if dims > 3:
            self.u = Axis(rng, 2)
        self.axes = [a for a in (self.x, self.y, self.z, self.u) if a]
        self.shape = [len(a) for a in self.axes]
        self.dtype = rng.choice(['f8', 'f8', 'f4'])
        cls = {2: grid.Grid2D, 3: grid.Grid3D, 4: grid.Grid4D}[dims]
        self.array = layout(rng, self.numbers().astype(self.dtype))
        self.mesh = cls(*[a.axis(core) for a in self.axes], self.array)
        blank = dict(v=[], C=0)
        rec('grid', x=self.x.desc(), y=self.y.desc(),
            z=self.z.desc() if self.z else blank,
            u=self.u.desc() if self.u else blank, data=self.data())

    def numbers(self):
        rng = self.rng
        shape = self.shape
        top = 6 if self.kind == 'polynomial' else 20
        style = rng.random()
        size = int(np.prod(shape))
        if style < 0.2:
            a, b = rng.choice([(1, 0), (0, 1), (1, 1), (-1, 1), (0, 0)])
            i, j = np.indices(shape[:2])
            w = a * i + b * j - rng.randint(-3, 3)
            w = np.clip(w, -top, top)
            w = w.reshape(w.shape + (1, ) * (len(shape) - 2))
            v = np.broadcast_to(w, shape).astype('f8').copy()
        elif style < 0.35 and 'akima' not in self.kind:
            v = np.array([rng.choice([0, 0, 0, top])
                          for _ in range(size)], 'f8').reshape(shape)
        else:
            v = np.array([rng.randint(-top, top)
                          for _ in range(size)], 'f8').reshape(shape)
        p = rng.choice([0, 0, 0, 0.02, 0.1])
        if p:
            v[np.array([rng.random() < p
                        for _ in range(size)]).reshape(shape)] = np.nan
        return v

    def data(self):
        a = np.asarray(self.mesh.array, dtype='f8')
        a = a.reshape(a.shape + (1, ) * (4 - a.ndim))
        a = a.transpose(2, 3, 0, 1)
        return np.where(np.isnan(a), BAD, np.nan_to_num(a)).astype(
            'i8').tolist()

    def change(self):
        """New values in the grid."""
        if not self.mesh.array.flags.writeable:
            return
        self.mesh.array[...] = self.numbers()
        self.rec('values', data=self.data())

    def call(self, where, nx, ny, kind, mode, be, threads, defaults=False):
        rng = self.rng
        half = [nx, ny, 1, 1]
        pts = []
        for w in where:
            axis = [rng.randrange(len(self.axes))]
            if w in ('out', 'nan') and rng.random() < 0.7:
                axis = [rng.randrange(2)]
            if w == 'edge':
                axis = [0, 1]
            pts.append([a.pick(rng, w if k in axis or w == 'node' else
                               rng.choice(['in', 'in', 'in', 'node']),
                               half[k])
                        for k, a in enumerate(self.axes)])
        q = [[p[k] for p in pts] for k in range(len(self.axes))]
        args = [layout(rng, a.pos(q[k]))
                if not isinstance(a, Dates) else a.pos(q[k])
                for k, a in enumerate(self.axes)]
        kw = dict(nx=nx, ny=ny, fitting_model=kind, boundary=mode,
                  bounds_error=be, num_threads=threads)
        if defaults:
            for k, v in dict(nx=3, ny=3, fitting_model='bicubic',
                             boundary='undef', bounds_error=False).items():
                if kw[k] == v:
                    kw.pop(k)
        try:
            r = layer('interpolator.bicubic').bicubic(self.mesh, *args, **kw)
            r = dict(err='', v=[fx(v, U) for v in r])
        except ValueError:
            r = dict(err='ValueError', v=[])
        q += [[]] * (4 - len(q))
        self.rec('at', kind=kind, nx=nx, ny=ny, mode=mode, be=be, x=q[0],
                 y=q[1], z=q[2], u=q[3], r=r)


def sizes(rng, kind, dims):
    if kind == 'polynomial':
        return rng.choice([2, 3, 2, 1]), rng.choice([2, 3, 2, 1])
    top = [1, 2, 2, 3, 3, 3, 4, 5] if dims == 2 else [1, 2, 2, 3, 3]
    if kind not in ('linear', 'steffen', 'polynomial') \
            and rng.random() < 0.9:
        top = [n for n in top if n > 1]
    if kind.startswith('akima'):
        top = [n for n in top if n > 2] * 4 + [2]
    return rng.choice(top), rng.choice(top)


def refused(core, rng, rec):
    grid = layer('grid')
    fn = layer('interpolator.bicubic').bicubic
    x = core.Axis(np.arange(5.0))
    d = core.Axis(np.arange(5.0)[::-1].copy())
    z = core.Axis(np.arange(3.0))
    a = np.array([1.5, 2.5])
    b = np.array([1.5])
    g2 = grid.Grid2D(x, x, np.zeros((5, 5)))
    g3 = grid.Grid3D(x, x, z, np.zeros((5, 5, 3)))
    g4 = grid.Grid4D(x, x, z, z, np.zeros((5, 5, 3, 3)))
    rec.session()
    rec('grid', x=dict(v=[0, 8], C=0), y=dict(v=[0, 8], C=0),
        z=dict(v=[], C=0), u=dict(v=[], C=0), data=[[[[0, 0], [0, 0]]]])
    for args, kw in [
        ((g2, a, b), {}), ((g2, b, a), {}),
        ((g2, a.reshape(1, 2), a.reshape(1, 2)), {}),
        ((g3, a, a), {}), ((g4, a, a, a), {}), ((g3, a, a, b), {}),
        ((g4, a, a, a, b), {}), ((g4, a, a, b, a), {}), ((g3, b, a, a), {}),
        ((g4, a, b, a, a), {}),
        ((g2, a, a), dict(fitting_model='cubic')),
        ((g2, a, a), dict(boundary='mirror')),
        ((g2, a, a), dict(nx=0)), ((g2, a, a), dict(ny=0)),
        ((g3, a, a, a), dict(nx=0)),
        ((g3, a, a, a), dict(fitting_model='Bicubic')),
        ((g4, a, a, a, a), dict(boundary='')),
        ((grid.Grid2D(d, x, np.zeros((5, 5))), a, a), {}),
        ((grid.Grid2D(x, d, np.zeros((5, 5))), a, a), {}),
        ((grid.Grid3D(x, d, z, np.zeros((5, 5, 3))), a, a, a), {}),
    ]:
        st, r = call(fn, *args, **kw)
        rec('refused', r=dict(ok=st == 'err' and r == 'ValueError'))


def drive(core, rng, tier, rec):
    hist = gen.histories()
    STATS.update(histories=len(hist))
    if tier == 'thorough':
        rng.shuffle(hist)
    refused(core, rng, rec)
    for k, h in enumerate(hist * (3 if tier == 'quick' else 2)):
        kind = KINDS[k % len(KINDS)]
        dims = rng.choice([2, 2, 2, 3, 4])
        rec.session()
        m = Mesh(core, rng, rec, dims, kind)
        for n in range(rng.choice([1, 2, 3])):
            nx, ny = sizes(rng, kind, dims)
            if rng.random() < 0.02:
                nx, ny = rng.choice([(0, 1), (1, 0), (0, 0)])
            mode = rng.choice(MODES)
            m.call(h, nx, ny, kind, mode, False, 1)
            if rng.random() < 0.5:
                m.change()
            if rng.random() < 0.5:
                where = [rng.choice(['in', 'in', 'in', 'edge', 'node'])
                         for _ in range(rng.choice([1, 2, 4]))]
                where += rng.choice([[], [], ['out'], ['nan']])
                rng.shuffle(where)
                m.call(where, nx, ny, kind, mode, True, rng.choice(THREADS))
            else:
                where = [rng.choice(['in', 'edge', 'node', 'out', 'nan'])
                         for _ in range(rng.choice([0, 1, 3, 8]))]
                m.call(where, 3 if rng.random() < 0.3 else nx, ny, kind,
                       mode, False, rng.choice(THREADS), True)
