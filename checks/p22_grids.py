"""P22: grids pair values with coordinates."""
import copy
import itertools
import pickle

from vf import gen, load
from vf.trace import call, exact, fx, np

from .stats_common import layout

UNITS = ['axis', 'grid', 'bivariate', 'bivariate_interpolator', 'trivariate',
         'quadrivariate', 'dateutils', 'enum']
MODELS = [('GridMC', 'GridMC', ('quick', )),
          ('GridMC', 'GridMCdeep', ('thorough', ))]
GENERATE = ('GridGen', 'GridGen', 'GridGenDeep')
TRACE = 'GridTrace'
STATS = {}
DRIVE_TIMEOUT = 600
ASSUMPTIONS = [
    'grids of two to five nodes per axis, coordinates multiples of 0.5; '
    'values are integers',
    'xarray is replaced by a stand-in with the same attributes',
]
DTYPES = ['float64', 'float32', 'int64', 'uint64', 'int32', 'uint32', 'int16',
          'uint16', 'int8', 'uint8']
UNIT = ['D', 'h', 's', 'ms', 'us', 'ns']


class Axis:
    """The description of an axis."""

    def __init__(self, rng, kind, circle, top):
        self.kind, self.circle, self.unit = kind, circle, ''
        n = rng.choice([2, 2, 3, 3, 4, 5])
        if circle:
            n = rng.choice([4, 5, 6])
            start = rng.randint(-360, 0)
            v = [start + 720 // n * i for i in range(n)]
        elif rng.random() < 0.5:
            step = rng.randint(1, 2 * top // (n + 1))
            start = rng.randint(-top, top - step * (n - 1))
            v = [start + step * i for i in range(n)]
        else:
            v = sorted(rng.sample(range(-top, top), n))
        if rng.random() < 0.5:
            v.reverse()
        self.v = v
        if kind == 'time':
            self.unit = (rng.choice(['datetime64', 'timedelta64'])
                         + f'[{rng.choice(UNIT)}]')

    def array(self):
        if self.kind == 'time':
            return np.array(self.v, dtype='int64').astype(self.unit)
        return np.array(self.v, dtype='float64') / 2

    def axis(self, core):
        if self.kind == 'time':
            return core.TemporalAxis(self.array())
        return core.Axis(self.array(), is_circle=self.circle)

    def record(self):
        return {'v': self.v, 'kind': self.kind, 'unit': self.unit,
                'circle': self.circle}


def values(axis):
    """The coordinates of an axis of the library, in our units."""
    v = axis[:]
    if type(axis).__name__ == 'TemporalAxis':
        return [exact(int(x)) for x in np.asarray(v).astype('int64')]
    return [exact(x, 2) for x in v]


def described(axis):
    kind = type(axis).__name__
    time = kind == 'TemporalAxis'
    return {'v': values(axis), 'kind': {'TemporalAxis': 'time',
                                        'Axis': 'num'}.get(kind, kind),
            'unit': str(np.dtype(axis.dtype())) if time else '',
            'circle': bool(getattr(axis, 'is_circle', False))}


def shown(grid):
    inst = getattr(grid, '_instance', grid)
    a = np.asarray(grid.array)
    return {'axes': [described(getattr(grid, k)) for k in 'xyzu'[:a.ndim]],
            'data': [exact(x) for x in a.ravel()], 'shape': list(a.shape),
            'class': type(inst).__name__}


class Scene:

    def __init__(self, m, rng, rec):
        self.core, self.mod, self.xr, self.interp, self.stub = m
        self.rng, self.rec = rng, rec
        rec.session()

    def draw(self):
        rng = self.rng
        self.n = rng.choice([2, 2, 3, 3, 4])
        temporal = self.n > 2 and rng.random() < 0.5
        circle = rng.random() < 0.4
        self.axes = [Axis(rng, 'time' if k == 2 and temporal else 'num',
                          circle and k == 0, 160)
                     for k in range(self.n)]
        if not circle and rng.random() < 0.15:
            # the same axis twice
            k = rng.choice([k for k in range(1, self.n)
                            if self.axes[k].kind == 'num'])
            self.axes[k] = self.axes[0]
        self.dtype = rng.choice(DTYPES)
        low = 0 if self.dtype[0] == 'u' else -100
        self.data = np.array(
            [rng.randint(low, 100) for _ in range(int(np.prod(
                [len(a.v) for a in self.axes])))]).astype(self.dtype).reshape(
                    [len(a.v) for a in self.axes])
        self.order = list(range(1, self.n + 1))

    def objects(self):
        """Axes of the library, one per description."""
        made = {}
        for a in self.axes:
            if id(a) not in made:
                made[id(a)] = a.axis(self.core)
        return [made[id(a)] for a in self.axes]

    def array(self):
        a = layout(self.rng, self.data)
        if self.rng.random() < 0.1:
            a = a.astype(a.dtype.newbyteorder())
        if self.rng.random() < 0.1:
            a = a.copy()
            a.flags.writeable = False
        return a

    def cls(self, mod):
        return getattr(mod, f'Grid{self.n}D')

    def source(self, inc, caller, **extra):
        self.rec('build', inc=inc, order=self.order, dtype=self.dtype,
                 axes=[a.record() for a in self.axes],
                 data=[int(x) for x in self.data.ravel()],
                 r=dict(shown(self.grid), caller=caller), **extra)

    def build(self, how):
        self.draw()
        self.lib = self.objects()
        kw = {} if how == 'none' and self.rng.random() < 0.5 else {
            'increasing_axes': None if how == 'none' else how}
        self.grid = self.cls(self.mod)(*self.lib, self.array(), **kw)
        self.source(how, [values(a) for a in self.lib])

    def again(self, how):
        """A second grid from the axes of the caller as they are now."""
        if not hasattr(self, 'lib'):
            return
        first = self.grid
        keep = shown(first)
        seen = {}
        for d, a in zip(self.axes, self.lib):
            if id(d) not in seen:
                seen[id(d)] = copy.copy(d)
                seen[id(d)].v = values(a)
        self.axes = [seen[id(d)] for d in self.axes]
        if how == 'inplace':
            # the axes belong to the first grid: give copies
            made = {id(a): copy.copy(a) for a in self.lib}
            self.lib = [made[id(a)] for a in self.lib]
        self.grid = self.cls(self.mod)(
            *self.lib, self.array(),
            increasing_axes=None if how == 'none' else how)
        self.rec('copy', what='first', r=shown(first) if shown(first) != keep
                 else keep)
        self.source(how, [values(a) for a in self.lib])

    def core_grid(self, _):
        self.draw()
        name = ('Temporal' if any(a.kind == 'time' for a in self.axes) else
                '') + f'Grid{self.n}D' + \
            self.rng.choice([np.dtype(self.dtype).name.capitalize()
                             .replace('Uint', 'UInt')])
        if not hasattr(self.core, name):
            self.dtype = 'float64'
            self.data = self.data.astype('float64')
            name = name[:name.index('D') + 1] + 'Float64'
        self.lib = self.objects()
        self.grid = getattr(self.core, name)(*self.lib, self.array())
        self.source('none', [values(a) for a in self.lib])

    def xarray(self, how):
        """Through xarray: the dimensions are in any order."""
        rng = self.rng
        self.draw()
        if self.axes[0] is self.axes[1] or any(
                a is self.axes[0] for a in self.axes[1:]):
            self.draw()
            while any(a is self.axes[0] for a in self.axes[1:]):
                self.draw()
        geodetic = self.axes[0].circle or rng.random() < 0.3
        names = ['lon', 'lat', rng.choice(['time', 'depth']),
                 rng.choice(['level', 'a'])][:self.n]
        perm = list(range(self.n))
        rng.shuffle(perm)
        if not geodetic:
            # the first two coordinates are x and y
            rng.shuffle(names)
        if self.n == 4 and self.axes[2].kind != 'time':
            # z and u, in the order of the dimensions
            i, j = perm.index(2), perm.index(3)
            perm[min(i, j)], perm[max(i, j)] = 2, 3
        units = {0: rng.choice(['degrees_east', 'degree_E', 'degreesE']),
                 1: rng.choice(['degrees_north', 'degreeN', 'degree_N'])}
        D = self.stub.DataArray
        keys = list(range(self.n))
        if geodetic:
            rng.shuffle(keys)
        elif self.n == 4:
            keys = [0, 1] + rng.sample([2, 3], 2)
        coords = {names[k]: D(self.axes[k].array(), dims=(names[k], ), attrs={
            'units': units.get(k, 'm')} if geodetic or rng.random() < 0.5
            else {}) for k in keys}
        data = self.data.transpose(perm)
        da = D(layout(rng, data), coords=coords,
               dims=tuple(names[k] for k in perm))
        regular = rng.random() < 0.4
        cls = self.xr.RegularGridInterpolator if regular else \
            self.cls(self.xr)
        self.grid = cls(da, increasing_axes=how == 'inplace',
                        geodetic=geodetic)
        if regular:
            if rng.random() < 0.5:
                self.grid = pickle.loads(pickle.dumps(self.grid))
            self.regular = self.grid
            self.grid = self.grid.grid
        self.names = names
        self.source('xarray' if how == 'inplace' else 'none',
                    [[exact(int(x)) for x in
                      coords[names[k]].values.astype('int64')]
                     if self.axes[k].kind == 'time' else
                     [exact(x, 2) for x in coords[names[k]].values]
                     for k in range(self.n)])

    def copy(self, how):
        if how == 'state' and hasattr(self.grid, '_instance'):
            inst = self.grid._instance
            other = copy.copy(self.grid)
            other._instance = pickle.loads(pickle.dumps(inst))
            self.grid = other
        elif how == 'deepcopy':
            self.grid = copy.deepcopy(self.grid)
        else:
            self.grid = pickle.loads(pickle.dumps(
                self.grid, protocol=self.rng.choice([2, 4, 5])))
        self.rec('copy', what=how, r=shown(self.grid))

    def at(self, how):
        """Values at nodes."""
        rng = self.rng
        if not hasattr(self.grid, '_instance'):
            return
        n = np.asarray(self.grid.array).ndim
        if n > 2 and 'Int8' in type(self.grid._instance).__name__:
            return
        ax = [described(getattr(self.grid, k)) for k in 'xyzu'[:n]]
        pts = [[rng.choice(a['v']) for a in ax] for _ in range(6)]
        args = []
        for k, a in enumerate(ax):
            c = np.array([p[k] for p in pts])
            args.append(c.astype('int64').astype(a['unit'])
                        if a['kind'] == 'time' else c / 2)
        if hasattr(self, 'names'):
            order = list(range(n))
            rng.shuffle(order)
            named = {self.grid._dims[k]: args[k] for k in order}
            if hasattr(self, 'regular') and self.grid is self.regular.grid \
                    and rng.random() < 0.7:
                got = self.regular(named, method=how, bounds_error=True,
                                   num_threads=1)
            else:
                fn = getattr(self.grid, {2: 'bivariate', 3: 'trivariate',
                                         4: 'quadrivariate'}[n])
                got = fn(named, interpolator=how, num_threads=1)
        else:
            fn = getattr(self.interp, {2: 'bivariate', 3: 'trivariate',
                                       4: 'quadrivariate'}[n])
            got = fn(self.grid, *args, interpolator=how, num_threads=1)
        self.rec('at', at=pts, r=[fx(x) for x in got])


def history(m, rng, rec, h):
    s = Scene(m, rng, rec)
    for e in h:
        if e['op'] == 'core':
            s.core_grid(e['how'])
        else:
            getattr(s, e['op'])(e['how'])


def attempts(m, rng, rec):
    """Arguments that are, or are not, those of a grid."""
    core, mod = m[0], m[1]
    rec.session()
    for _ in range(6):
        n = rng.choice([2, 3, 4])
        k = rng.choice([n, n, n, n, n - 1, n + 1])
        kinds = ['time' if rng.random() < (0.4 if i == 2 else 0.04) else
                 'num' for i in range(k)]
        circles = [rng.random() < (0.4 if i == 0 else 0.06) and
                   kinds[i] == 'num' for i in range(k)]
        made = [Axis(rng, kinds[i], circles[i], 160) for i in range(k)]
        lens = [len(a.v) for a in made]
        shape = list(lens)
        if rng.random() < 0.3:
            i = rng.randrange(k)
            shape[i] += rng.choice([-1, 1])
        elif rng.random() < 0.15:
            rng.shuffle(shape)
        elif rng.random() < 0.1:
            shape = shape[:-1] if rng.random() < 0.5 else shape + [1]
        dtype = rng.choice(DTYPES + ['float16', 'complex128', 'bool', 'U1',
                                     'object', 'datetime64[s]']
                           if rng.random() < 0.5 else DTYPES[:2])
        inc = rng.choice(['none', 'none', 'inplace', 'copy', 'bad'])
        kw = {} if inc == 'none' else {
            'increasing_axes': 'maybe' if inc == 'bad' else inc}
        lib = [a.axis(core) for a in made]
        r = call(getattr(mod, f'Grid{n}D'), *lib, np.zeros(shape, dtype),
                 **kw)
        rec('try', n=n, kinds=kinds, circles=circles, lens=lens, shape=shape,
            dtype=dtype, inc=inc, r=r[0] == 'ok')


def drive(core, rng, tier, rec):
    from vf import stubs
    deep = tier == 'thorough'
    mod = load.layer('grid')
    m = (core, mod, load.layer('backends.xarray'),
         load.layer('interpolator'), stubs)
    hist = gen.histories()
    STATS['histories_generated_by_tlc'] = len(hist)
    rng.shuffle(hist)
    for h in itertools.islice(itertools.cycle(hist), 12000 if deep else 1600):
        history(m, rng, rec, h)
    for _ in range(2000 if deep else 300):
        attempts(m, rng, rec)
