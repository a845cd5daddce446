"""P13: streaming histograms."""
import copy
import pickle

from vf.trace import call

from .p12_statistics import Session
from .stats_common import exact, fx, np

UNITS = ['streaming_histogram', 'histogram2d', 'axis']  # dtype of bins
MODELS = [('HistMC', 'HistMC', ('quick', )),
          ('HistMC', 'HistMCdeep', ('thorough', ))]
GENERATE = ('StoreGen', 'HistGen', 'HistGenDeep')
TRACE = 'HistTrace'
STATS = {}
DRIVE_TIMEOUT = 600
ASSUMPTIONS = [
    'dask is not installed: lazy arrays are driven through a stand-in cut '
    'along the first axis',
    'bins are compared exactly (as rationals, to 1e-4) while the total '
    'weight of a cell is at most 60; beyond, conservation and order only',
    'among equally close neighbours whose distance is not exactly '
    'representable, merging any pair is accepted',
]


class HSession(Session):

    def __init__(self, mod, core, rng, rec, small=False):
        super().__init__(mod, core, rng, rec, small)
        self.base = 0
        self.axes_small()
        self.cap = rng.choice([1, 2, 3, 3, 4, 5, 8, 100])
        self.top = rng.choice([3, 8, 20])
        if small:
            self.cap = rng.choice([4, 7, 100])

    def axes_small(self):
        rng = self.rng
        if len(self.shape) == 1 and rng.random() < 0.3:
            self.shape = [rng.randint(0, 60)]

    def make(self, x, y, ax, dtype):
        cap = self.cap
        if cap == 100 and self.rng.random() < 0.5:
            cap = None
        return self.mod.StreamingHistogram(x, y, ax, cap, dtype)

    def new(self, s, **over):
        if self.rng.random() < 0.3:
            self.cap = self.rng.choice([1, 2, 3, 4, 6, 100])
        super().new(s, **over)

    def plus(self, a, b):
        r = copy.copy(a)
        r._instance = a._instance + b._instance
        return r

    def dup(self, op, obj):
        if op == 'pickle':
            return pickle.loads(pickle.dumps(obj))
        if self.rng.random() < 0.3:
            return copy.deepcopy(obj)
        r = copy.copy(obj)
        r._instance = copy.copy(obj._instance)
        return r

    def resize(self, s):
        cap = self.rng.choice([0, 1, 2, 3, 5, 100] if
                              self.rng.random() < 0.3 else [1, 2, 3, 5, 100])
        self.obj[s]._instance.resize(cap)
        self.rec('resize', s=s, cap=cap)

    def read(self, s):
        o = self.obj[s]
        vs, ws = self.vs, self.ws
        cols = {k: getattr(o, k)() for k in
                ('count', 'sum_of_weights', 'size', 'mean', 'var', 'min',
                 'max', 'skewness', 'kurtosis')}
        shape = [int(n) for n in cols['count'].shape]
        col = {k: [float(x) for x in np.atleast_1d(v).ravel()]
               for k, v in cols.items()}
        n = len(col['count'])
        bins = o.bins()
        bins = bins.reshape((n, bins.size // n if n else 0))
        qs = None
        if not self.weighted:
            qs = np.array([np.atleast_1d(o.quantile(k / 16)).ravel()
                           for k in range(17)])
        cells = []
        for k in range(n):
            size = int(col['size'][k])
            b = [[fx(x['value'], 10000 / vs), exact(x['weight'], 1 / ws)]
                 for x in bins[k, :size]]
            if any(not np.isnan(x['value']) or x['weight'] != 0
                   for x in bins[k, size:]):
                b.append([0, 0])
            cells.append(dict(
                n=int(col['count'][k]),
                sw=exact(col['sum_of_weights'][k], 1 / ws), size=size,
                mean=fx(col['mean'][k], 1000 / vs),
                var=fx(col['var'][k], 1000 / vs**2),
                high=[fx(col['skewness'][k], 100),
                      fx(col['kurtosis'][k], 100)] if self.small else [],
                min=exact(col['min'][k], 1 / (vs * ws)),
                max=exact(col['max'][k], 1 / (vs * ws)), bins=b,
                q=[fx(x, 100 / vs) for x in qs[:, k]]
                if qs is not None and col['count'][k] and size else []))
        self.rec('read', s=s, r=dict(shape=shape, cells=cells))
        if not self.weighted and n:
            for q in (-0.01, 1.25, np.nan):
                if any(col['size']):
                    self.rec('refused',
                             r=call(o.quantile, q) == ('err', 'ValueError'))


def drive(core, rng, tier, rec):
    from vf import gen
    from vf.load import layer
    mod = layer('statistics')
    deep = tier == 'thorough'
    hist = gen.histories()
    STATS['histories_generated_by_tlc'] = len(hist)
    rng.shuffle(hist)
    for i, h in enumerate(hist[:5000 if deep else 400]):
        HSession(mod, core, rng, rec, small=i % 4 == 0).play(h)
    for _ in range(200 if deep else 30):
        s = HSession(mod, core, rng, rec)
        s.axes, s.shape = None, [rng.randint(20, 50)]
        s.weighted, s.cap = False, rng.randint(1, 12)
        s.ws = 1
        s.new(1)
        s.read(1)
    for _ in range(40 if deep else 10):
        s = HSession(mod, core, rng, rec)
        s.shape, s.axes, s.weighted, s.ws = [2, 3], [1], False, 1
        s.new(1)
        s.new(2, shape=[2, 3],
              axes=rng.choice([[2], [0, 2], [-1], [-2, 0], [7]]))
        s.weighted = True
        s.new(2, shape=[2, 3], axes=rng.choice([None, [0]]),
              wshape=rng.choice([[3, 2], [6], [2, 4], [2, 2], [1, 3]]))
        s.weighted = False
        if 2 not in s.obj:
            s.new(2, shape=[2, 3], axes=[0])
        kind, r = call(s.obj[1].__iadd__, s.obj[2])
        rec('iadd', s=1, t=2, r='ok' if kind == 'ok' else r)
        s.read(1)
        for f in (lambda: s.obj[1].__iadd__('a'),
                  lambda: mod.StreamingHistogram(
                      np.zeros(3), dtype=np.dtype('int32'))):
            rec('refused', r=call(f)[0] == 'err')
