"""P11: gap filling."""
from vf import gen
from vf.load import layer
from vf.trace import fx, np

from .stats_common import layout

UNITS = ['axis', 'enum', 'dateutils', 'grid', 'fill']
MODELS = [('FillMC', 'FillMC', ('quick', )),
          ('FillMC', 'FillMCdeep', ('thorough', ))]
GENERATE = ('FillGen', 'FillGen', 'FillGenDeep')
TRACE = 'FillTrace'
STATS = {}
DRIVE_TIMEOUT = 600
ASSUMPTIONS = [
    'grids of up to 6 x 5 cells (90 x 3 on circles), values multiple of 1/4 '
    'in [-20, 20]; LOESS compared to about 2e-3 units (more where the weights '
    'are small), relaxation to 5e-3 (4e-2 with the default relaxation)',
    'axes are increasing; the relaxation is strictly between 0 and 2',
]
U = 1024
THREADS = [0, 1, 1, 2, 3, 8]


def proj(a):
    """Slices (rows of cells) of an array."""
    a = np.asarray(a)
    a = a.reshape(a.shape[:2] + (-1, ))
    return [[[fx(v, U) for v in row] for row in a[:, :, k]]
            for k in range(a.shape[2])]


def numbers(rng, shape, gaps=None):
    n = int(np.prod(shape))
    style = rng.random()
    if style < 0.15:
        v = [rng.choice([3, -7])] * n
    elif style < 0.3:
        v = [rng.choice([-20, 20]) for _ in range(n)]
    else:
        v = [rng.randint(-80, 80) / 4 for _ in range(n)]
    a = np.array(v, dtype='float64').reshape(shape)
    p = gaps if gaps is not None else rng.choice(
        [0, 0.1, 0.3, 0.3, 0.5, 0.5, 0.8, 0.95, 1])
    a[np.array([rng.random() < p for _ in range(n)]).reshape(shape)] = np.nan
    if rng.random() < 0.15 and shape[1] > 1:
        a[:, rng.randrange(shape[1])] = np.nan
    return a


class Mesh:
    """A grid under test."""

    def __init__(self, core, rng, rec, dims=None, flat=False):
        self.grid, self.rng, self.rec = layer('grid'), rng, rec
        dims = dims or rng.choice([2, 2, 2, 3, 4])
        per = rng.random() < 0.4
        ny = rng.choice([1, 2, 3, 3, 4, 5])
        self.big = False
        if per:
            nx = rng.choice([2, 3, 4, 5, 6, 8, 24, 36, 40, 72])
            self.big = nx > 8
            if self.big:
                ny = rng.choice([1, 2, 3])
                dims = min(dims, 3)
            o = rng.choice([0, 0, -180, 7, -1000])
            self.xs = [o + 360 * k // nx for k in range(nx)]
            self.c = 1
        else:
            nx = rng.choice([1, 2, 3, 4, 5, 6])
            self.c = rng.choice([1, 1, 2, 4])
            self.xs = self.coordinates(nx)
        self.per = 360 if per else 0
        self.ys = self.coordinates(ny)
        shape = [nx, ny]
        axes = [core.Axis(np.array(self.xs, 'f8') / self.c,
                          is_circle=per),
                core.Axis(np.array(self.ys, 'f8') / self.c)]
        if dims > 2:
            n = rng.choice([1, 2, 3] if not self.big else [1, 2])
            shape.append(n)
            if rng.random() < 0.5:
                axes.append(core.Axis(np.arange(n, dtype='f8')))
            else:
                axes.append(core.TemporalAxis(
                    np.datetime64('2000-01-01') + np.arange(n)))
        if dims > 3:
            shape.append(2)
            axes.append(core.Axis(np.array([1.0, 3.0])))
        self.axes, self.dims = axes, dims
        self.dtype = rng.choice(['f8', 'f8', 'f4'])
        self.load(numbers(rng, shape))

    def coordinates(self, n):
        rng = self.rng
        x = [rng.randint(-5, 5)]
        step = rng.choice([[1], [self.c], [1, 2], [1, 2, 5]])
        while len(x) < n:
            x.append(x[-1] + rng.choice(step))
        return x

    def load(self, a):
        a = np.asarray(a, dtype=self.dtype)
        cls = {2: self.grid.Grid2D, 3: self.grid.Grid3D, 4: self.grid.Grid4D}
        self.mesh = cls[self.dims](*self.axes, layout(self.rng, a))
        self.rec('grid', data=proj(self.mesh.array),
                 geo=dict(xs=self.xs, ys=self.ys, c=self.c, per=self.per))

    def small(self):
        a = self.mesh.array
        return not np.any(np.abs(a[~np.isnan(a)]) > 40)


def loess(core, rng, rec, m, kind):
    fill = layer('fill')
    reach = [1, 2, 3, 4]
    if m.per:
        step = 360 // len(m.xs)
        reach = [1, 2, 3, step, step + 1, 2 * step, 2 * step + step // 2]
        reach = [v for v in reach if v <= 60]
    nx, ny = rng.choice(reach), rng.choice([1, 2, 3, 4])
    kw = {}
    if rng.random() < 0.03:
        nx, ny = rng.choice([(0, 1), (1, 0), (0, 0)])
    if rng.random() < 0.2 and nx:
        nx = ny = 3
    else:
        kw.update(nx=nx, ny=ny)
    if rng.random() < 0.02:
        kind = rng.choice(['', 'Undefined', 'x']) or 'y'
    if kind != 'undefined' or rng.random() < 0.5:
        kw['value_type'] = kind
    if rng.random() < 0.9:
        kw['num_threads'] = rng.choice(THREADS)
    out = None
    try:
        out = fill.loess(m.mesh, **kw)
        r = dict(err='', v=proj(out))
    except ValueError:
        r = dict(err='ValueError', v=[])
    rec('loess', nx=nx, ny=ny, type=kind, r=r, mesh=proj(m.mesh.array))
    return out


def relax(core, rng, rec, m):
    fill = layer('fill')
    guess = rng.choice(['zero', 'zonal_average', 'zonal_average'])
    w = rng.choice([0, 0, 4096, 4096, 2048, 6144, 5120, 1024, 7680])
    maxit = rng.choice([1, 2, 3, 5, 10, -1])
    size = len(m.xs) * len(m.ys)
    if maxit < 0 and size > 40:
        maxit = 2
    eps = rng.choice([1, 7, 655, 6554, 32768, 131072])
    if rng.random() < 0.02:
        guess = 'mean'
    kw = {}
    if guess != 'zonal_average' or rng.random() < 0.5:
        kw['first_guess'] = guess
    if w:
        kw['relaxation'] = w / 4096
    if maxit >= 0:
        kw['max_iteration'] = maxit
    if eps != 7 or rng.random() < 0.5:
        kw['epsilon'] = eps / 65536
    if rng.random() < 0.9:
        kw['num_threads'] = rng.choice(THREADS)
    out = None
    try:
        if m.dims == 2 and w and guess != 'mean' and maxit > 0 \
                and rng.random() < 0.4:
            # the function of the extension works in place
            out = layout(rng, m.mesh.array.copy())
            if min(out.strides) < 0:
                out = out.copy()
            fn = getattr(core.fill, 'gauss_seidel_' + (
                'float64' if m.dtype == 'f8' else 'float32'))
            names = dict(zero='Zero', zonal_average='ZonalAverage')
            it, res = fn(out, getattr(core.fill.FirstGuess, names[guess]),
                         bool(m.per), maxit, eps / 65536, w / 4096,
                         rng.choice(THREADS))
            r = dict(flag=bool(res <= eps / 65536), it=it,
                     res=fx(res, 65536))
        else:
            flag, out = fill.gauss_seidel(m.mesh, **kw)
            r = dict(flag=bool(flag), it=-1, res=0)
        r.update(err='', v=proj(out))
    except ValueError:
        r = dict(err='ValueError', v=[])
    rec('relax', guess=guess, w=w, maxit=maxit, eps=eps, r=r,
        mesh=proj(m.mesh.array))
    return out


def matrix(rng, rec, a, inplace):
    """Rows and columns of a (modified if asked for)."""
    fill = layer('fill')
    before = proj(a)[0]
    ok = min(a.strides) >= 0 or not inplace
    try:
        kw = {}
        if not inplace or rng.random() < 0.5:
            kw['in_place'] = inplace
        out = fill.matrix(a, **kw)
        r = dict(err='', v=proj(out)[0])
    except TypeError:
        out, r = None, dict(err='TypeError', v=[])
    rec('matrix', before=before, r=r, after=proj(a)[0], inplace=inplace,
        loose=a.dtype == 'f4', ok=ok)
    return out


def apply(core, rng, rec, m, op):
    if op in ('loess', 'smooth', 'matrix') and not m.small():
        op = 'relax'
    if op == 'relax' and m.dims == 4:
        op = 'loess'
    if op == 'matrix' and m.dims > 2:
        op = rng.choice(['relax', 'loess']) if m.dims == 3 else 'smooth'
    if op == 'loess':
        return loess(core, rng, rec, m, 'undefined')
    if op == 'smooth':
        return loess(core, rng, rec, m, rng.choice(['all', 'defined']))
    if op == 'relax':
        return relax(core, rng, rec, m)
    inplace = rng.random() < 0.3
    out = matrix(rng, rec, m.mesh.array, inplace)
    if inplace:
        rec('keep', data=proj(m.mesh.array))
    return out


def other_matrix(rng, rec):
    """Matrices with a fill value."""
    fill = layer('fill')
    a = numbers(rng, (rng.randint(1, 6), rng.randint(1, 6)))
    a = a.astype(rng.choice(['f8', 'f8', 'f4']))
    value = rng.choice([np.nan, np.nan, 12345.6875])
    before = proj(np.where(a == value, np.nan, a))[0]
    a = np.where(np.isnan(a), a.dtype.type(value), a)
    a = layout(rng, a)
    inplace = rng.random() < 0.5
    ok = min(a.strides) >= 0 or not inplace
    clean = lambda v: proj(np.where(v == value, np.nan, v))[0]
    try:
        out = fill.matrix(a, value, inplace)
        r = dict(err='', v=clean(out))
    except TypeError:
        r = dict(err='TypeError', v=[])
    rec('matrix', before=before, r=r,
        after=clean(a), inplace=inplace, loose=a.dtype == 'f4', ok=ok)


def line(rng, rec):
    """Vectors of numbers and dates."""
    fill = layer('fill')
    n = rng.randint(1, 14)
    kind = rng.choice(['f8', 'f4', 'i8', 'M8', 'm8'])
    gap = [rng.random() < rng.choice([0.2, 0.5, 0.8]) for _ in range(n)]
    if kind in ('f8', 'f4'):
        v = [rng.randint(-80, 80) / 4 for _ in range(n)]
        value = rng.choice([np.nan, np.nan, 1e6])
        a = np.array(v, dtype=kind)
        a[gap] = value
        k, o = U, 0
    else:
        top = rng.choice([20, 1000, 100000])
        v = [rng.randint(-top, top) for _ in range(n)]
        if rng.random() < 0.5:
            v.sort()
        k = 1
        if kind == 'i8':
            o = rng.choice([0, 0, 10**12, -10**17])
            a = np.array([o + x for x in v], dtype='i8')
            value = rng.choice([-2**63, 2**63 - 1, 12345678])
        else:
            unit = rng.choice(['s', 'h', 'D', 'ns'])
            o = rng.choice([0, 10**4, 10**9]) if unit != 'ns' else 10**18
            if unit in ('h', 'D'):
                o = min(o, 10**4)
            a = np.array([o + x for x in v], dtype='i8').view(
                f'{kind}[{unit}]')
            cls = np.datetime64 if kind == 'M8' else np.timedelta64
            value = rng.choice([cls('NaT'), cls('NaT', unit), None])
            if value is None:  # in days, whatever the unit of the array
                d = {'s': 86400, 'h': 24, 'D': 1, 'ns': 86400 * 10**9}[unit]
                day = (o + 10**7) // d + 2
                value = cls(day, 'D')
        a[gap] = value
    raw = a.copy()
    nat = (lambda x: np.isnan(x)) if kind in ('f8', 'f4') else (
        lambda x: np.isnat(x) if x.dtype.kind in 'mM' else x != x)
    hole = np.array(gap)

    def shown(x, undefined):
        if x.dtype.kind == 'f':
            return [fx(np.nan if u else w, k) for w, u in zip(x, undefined)]
        return [fx(np.nan, 1) if u else max(-10**8, min(10**8, int(w) - o))
                for w, u in zip(x.view('i8'), undefined)]

    def left(x):
        return np.asarray(nat(x) | (x == value)) & hole

    before = shown(raw, hole)
    if rng.random() < 0.15:
        big = np.zeros(2 * n, dtype=a.dtype)
        big[::2] = a
        a = big[::2]
    inplace = rng.random() < 0.6
    ok = a.flags['C_CONTIGUOUS'] or not inplace
    kw = {}
    if not inplace or rng.random() < 0.5:
        kw['in_place'] = inplace
    if kind not in ('f8', 'f4') or not np.isnan(value) \
            or rng.random() < 0.5:
        kw['fill_value'] = value
    try:
        out = fill.vector(a, **kw)
        r = dict(err='', v=shown(out, left(out)))
    except TypeError:
        r = dict(err='TypeError', v=[])
    rec('line', before=before, r=r, after=shown(a, left(a)),
        inplace=inplace, ok=bool(ok))


def drive(core, rng, tier, rec):
    hist = gen.histories()
    STATS.update(histories=len(hist))
    if tier == 'thorough':
        rng.shuffle(hist)
    for h in hist * (3 if tier == 'quick' else 4):
        rec.session()
        m = Mesh(core, rng, rec)
        for s in h:
            out = apply(core, rng, rec, m, s['op'])
            if s['keep'] and out is not None:
                m.load(out)
    for _ in range(60 if tier == 'quick' else 900):
        rec.session()
        for _ in range(10):
            line(rng, rec)
        for _ in range(5):
            other_matrix(rng, rec)
    for _ in range(80 if tier == 'quick' else 1500):
        rec.session()
        m = Mesh(core, rng, rec, dims=rng.choice([2, 3]))
        relax(core, rng, rec, m)
        if rng.random() < 0.4:
            relax(core, rng, rec, m)
        if m.small():
            loess(core, rng, rec, m, 'undefined')
