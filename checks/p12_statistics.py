"""P12: descriptive statistics."""
from vf.trace import call

from .stats_common import BAD, dup, exact, fx, layout, np, values

UNITS = ['descriptive_statistics', 'binning', 'axis']  # binning: dtype of pickles
MODELS = [('StatsMC', 'StatsMC', ('quick', )),
          ('StatsMC', 'StatsMCdeep', ('thorough', ))]
GENERATE = ('StoreGen', 'StatsGen', 'StatsGenDeep')
TRACE = 'StatsTrace'
STATS = {}
ASSUMPTIONS = [
    'dask is not installed: lazy arrays are driven through a stand-in cut '
    'along the first axis',
    'sums, counts and extrema are exact (values are multiples of a power of '
    'two); mean, variance are compared to 1e-3 (double) or 1e-4 relative '
    '(single precision), skewness and kurtosis to 2e-2',
]


class Session:
    cap, top = 0, 60

    def __init__(self, mod, core, rng, rec, small=False):
        self.mod, self.core, self.rng, self.rec = mod, core, rng, rec
        self.small = small
        self.single = rng.random() < 0.35
        self.weighted = rng.random() < 0.5
        self.base = 0 if self.weighted or self.single or small \
            else rng.choice([0, 0, 10**6, -3 * 10**5])
        self.vs = rng.choice([1, 0.25, 2, 0.125])  # value of one unit
        self.ws = rng.choice([1, 0.5, 2]) if self.weighted and not small \
            else 1
        ndim = rng.choice([1, 1, 2, 2, 3, 3, 4])
        most = 6 if small else 40
        while True:
            self.shape = [rng.choice([1, 1, 2, 3, 4, 5]) for _ in range(ndim)]
            if ndim == 1 and not small:
                self.shape = [rng.randint(0, 30)]
            if int(np.prod(self.shape)) <= most:
                break
        self.axes = None
        if rng.random() < 0.75:
            k = rng.randint(1, ndim)
            self.axes = sorted(rng.sample(range(ndim), k))
            if rng.random() < 0.3:
                rng.shuffle(self.axes)
        self.obj = {}
        rec.session()

    def array(self, v, shape, scale, base):
        a = np.array([np.nan if x == BAD else base + x * scale for x in v],
                     dtype='float32' if self.single else 'float64')
        return layout(self.rng, a.reshape(shape))

    def new(self, s, **over):
        rng = self.rng
        shape = over.get('shape', self.shape)
        if 'axes' not in over and rng.random() < 0.3:
            # other arrays, same reduced shape
            if self.axes is not None:
                shape = [rng.randint(1, 4) if i in self.axes else n
                         for i, n in enumerate(shape)]
                if np.prod(shape) > (6 if self.small else 60):
                    shape = self.shape
            else:
                shape = [rng.randint(0, 12)]
        n = int(np.prod(shape))
        v = values(rng, n, 3 if self.small else self.top)
        w, wshape = [], shape
        if self.weighted:
            w = [rng.choice([0, 1, 1, 2] if self.small else [0, 1, 2, 3])
                 for _ in range(n)]
            wshape = over.get('wshape', shape)
        axes = over.get('axes', self.axes)
        x = self.array(v, shape, self.vs, self.base)
        y = None
        if self.weighted:
            y = self.array((w + [1] * 200)[:int(np.prod(wshape))], wshape,
                           self.ws, 0)
        ax = axes
        if axes is not None and len(axes) == 1 and rng.random() < 0.5:
            ax = axes[0]
        dtype = np.dtype('float32' if self.single else 'float64')
        cut = []
        if (axes is None or 0 in axes) and n > 1 and rng.random() < 0.2 \
                and min(axes or [0]) >= 0 and max(axes or [0]) < len(shape):
            # a lazy array, cut in blocks of rows
            from vf.stubs import Array
            cut = sorted(rng.sample(range(0, shape[0] + 1),
                                    min(rng.randint(1, 2), shape[0])))
            x = Array(x, cut)
            if y is not None:
                y = Array(y, rng.choice([cut, []])
                          if y.shape == x.shape else [])
        kind, r = call(self.make, x, y, ax, dtype)
        if kind == 'ok':
            self.obj[s] = r
        self.rec('new', s=s, shape=shape, flat=axes is None, ax=axes or [],
                 v=v, w=w, wshape=wshape, single=self.single, cap=self.cap, cut=cut,
                 r='ok' if kind == 'ok' else r)

    def make(self, x, y, ax, dtype):
        return self.mod.DescriptiveStatistics(x, y, ax, dtype)

    def read(self, s):
        o = self.obj[s]
        vs, ws, base = self.vs, self.ws, self.base
        cols = {k: getattr(o, k)() for k in
                ('count', 'sum_of_weights', 'sum', 'mean', 'var', 'std',
                 'min', 'max')}
        if self.rng.random() < 0.3:
            arr = o.array()
            cols = {k: arr[k] for k in
                    ('count', 'sum_of_weights', 'sum', 'mean', 'var', 'min',
                     'max')}
            cols['std'] = o.std()
        cols['var1'] = o.var(ddof=1)
        shape = [int(n) for n in cols['count'].shape]
        col = {k: [float(x) for x in np.atleast_1d(v).ravel()]
               for k, v in cols.items()}
        # weighted variance with ddof 1: the weights are not rescaled
        cells = []
        for k in range(len(col['count'])):
            n = col['count'][k]
            cells.append(dict(
                n=int(n), sw=exact(col['sum_of_weights'][k], 1 / ws),
                sum=exact(col['sum'][k] - n * base, 1 / (vs * ws)),
                mean=fx(col['mean'][k] - base, 1000 / vs),
                var=fx(col['var'][k], 1000 / vs**2),
                var1=fx(col['var1'][k], 1000 / vs**2)
                if ws == 1 else BAD - 1,
                std=fx(col['std'][k], 100 / vs),
                min=exact(col['min'][k] - base, 1 / (vs * ws)),
                max=exact(col['max'][k] - base, 1 / (vs * ws))))
        self.rec('read', s=s, r=dict(shape=shape, cells=cells))
        if self.small:
            self.rec('high', s=s, r=[
                [fx(a, 100), fx(b, 100)] for a, b in zip(
                    np.atleast_1d(o.skewness()).ravel(),
                    np.atleast_1d(o.kurtosis()).ravel())])

    def dup(self, op, obj):
        return dup(self.rng, op, obj)

    def plus(self, a, b):
        return a + b

    def play(self, history):
        rng = self.rng
        for ev in history:
            op, s, t = ev['op'], ev['s'], ev['t']
            if op == 'push':
                self.new(s)
                touched = [s]
            elif op == 'merge':
                kind, r = call(self.obj[s].__iadd__, self.obj[t])
                self.rec('iadd', s=s, t=t, r='ok' if kind == 'ok' else r)
                touched = [s, t]
            elif op == 'sum':
                d = rng.randint(1, 3)
                kind, r = call(self.plus, self.obj[s], self.obj[t])
                if kind == 'ok':
                    self.obj[d] = r
                self.rec('add', s=s, t=t, d=d, r='ok' if kind == 'ok' else r)
                touched = [s, t, d]
            elif op == 'resize':
                self.resize(s)
                touched = [s]
            else:
                self.obj[t] = self.dup(op, self.obj[s])
                self.rec(op, s=s, t=t)
                touched = [s, t]
            if rng.random() < 0.5:
                for k in touched:
                    self.read(k)
        for k in sorted(self.obj):
            self.read(k)


def drive(core, rng, tier, rec):
    from vf import gen
    from vf.load import layer
    mod = layer('statistics')
    deep = tier == 'thorough'
    hist = gen.histories()
    STATS['histories_generated_by_tlc'] = len(hist)
    rng.shuffle(hist)
    for i, h in enumerate(hist[:6000 if deep else 420]):
        Session(mod, core, rng, rec, small=i % 4 == 0).play(h)
    # one sample in every cell of every small shape, every set of axes
    for shape in ([3, 1, 2], [1, 4], [2, 2, 1], [1, 1, 3], [2, 1, 3, 1]):
        for mask in range(1, 2**len(shape)):
            s = Session(mod, core, rng, rec)
            s.axes = [i for i in range(len(shape)) if mask >> i & 1]
            s.shape = shape
            s.new(1, shape=shape)
            s.read(1)
    # refusals
    for _ in range(60 if deep else 20):
        s = Session(mod, core, rng, rec)
        s.shape, s.axes, s.weighted = [2, 3], [1], rng.random() < 0.5
        s.ws, s.base = 1, 0
        s.new(1)
        bad = rng.choice([[2], [0, 2], [-1], [-2, 0], [7]])
        s.new(2, shape=[2, 3], axes=bad)
        s.weighted = True
        s.new(2, shape=[2, 3], axes=rng.choice([None, [0]]),
              wshape=rng.choice([[3, 2], [6], [2, 4], [2, 2], [1, 3]]))
        s.read(1)
        if 2 not in s.obj:
            s.new(2, shape=[2, 3], axes=[0])
        kind, r = call(s.obj[1].__iadd__, s.obj[2])
        rec('iadd', s=1, t=2, r='ok' if kind == 'ok' else r)
        s.read(1)
        for f in (lambda: s.obj[1] + 1, lambda: s.obj[1].__iadd__('a'),
                  lambda: mod.DescriptiveStatistics(
                      np.zeros(3), dtype=np.dtype('int32'))):
            rec('refused', r=call(f)[0] == 'err')
