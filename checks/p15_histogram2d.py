"""P15: two-dimensional histograms."""
from vf.trace import call

from .p14_binning import Bins
from .stats_common import BAD, exact, fx, np

UNITS = ['histogram2d', 'axis']
MODELS = [('Hist2DMC', 'Hist2DMC', ('quick', )),
          ('Hist2DMC', 'Hist2DMCdeep', ('thorough', ))]
GENERATE = ('StoreGen', 'BinningGen', 'BinningGenDeep')
TRACE = 'Hist2DTrace'
STATS = {}
DRIVE_TIMEOUT = 600
ASSUMPTIONS = [
    'dask is not installed: lazy arrays are driven through a stand-in cut '
    'along the first axis',
    'samples are never half-way between two nodes, where either is right',
    'among equally close neighbours whose distance is not exactly '
    'representable, merging any pair of bins is accepted',
]


class Hist2(Bins):

    def __init__(self, mod, core, rng, rec):
        super().__init__(mod, core, rng, rec)
        self.wgs = 0
        self.cap = 100

    def make(self):
        x, y = self.axes()
        cap = None if self.cap == 100 and self.rng.random() < 0.5 else self.cap
        return self.mod.Histogram2D(x, y, cap, self.dtype())

    def new(self, s):
        if s == 1 or self.rng.random() < 0.5:
            self.cap = self.rng.choice([0, 1, 2, 2, 3, 3, 5, 100, 100]
                                       if self.rng.random() < 0.2
                                       else [1, 2, 3, 5, 100])
        self.obj[s] = self.make()
        self.rec('new', s=s, x=self.x, C=self.C, y=self.y, D=self.D,
                 single=self.single, cap=self.cap)

    def push(self, s):
        if s not in self.obj:
            self.new(s)
        rng = self.rng
        smp = self.samples()
        if rng.random() < 0.5:       # many samples in few cells
            where = [(self.position(self.x, self.C),
                      self.position(self.y, self.D)) for _ in range(2)]
            smp += [[*rng.choice(where), BAD if rng.random() < 0.1 else
                     rng.randint(-9, 9)] for _ in range(rng.randint(3, 12))]
        if rng.random() < 0.15 and smp:
            from vf.stubs import Array
            cut = sorted(rng.sample(range(len(smp) + 1),
                                    min(rng.randint(0, 2), len(smp))))
            arrays = [Array(a.ravel(), cut) for a in self.arrays(smp, False)]
            self.obj[s] = self.obj[s].push_delayed(*arrays).compute()
            ends = [0] + cut + [len(smp)]
            self.rec('lazy', s=s, blocks=[smp[a:b] for a, b in
                                          zip(ends, ends[1:])])
            return
        self.obj[s].push(*self.arrays(smp, False))
        self.rec('push', s=s, p=smp)

    def read(self, s):
        o = self.obj[s]
        vs = self.vs
        cols = {k: np.asarray(o.variable(k)) for k in
                ('count', 'sum_of_weights', 'mean', 'variance', 'min', 'max',
                 'skewness', 'kurtosis')}
        shape = [int(n) for n in cols['count'].shape]
        col = {k: [float(x) for x in v.ravel()] for k, v in cols.items()}
        n = len(col['count'])
        bins = np.asarray(o._instance.histograms())
        depth = bins.size // n
        bins = bins.reshape(n, depth)
        qs = np.array([np.asarray(o.variable('quantile', k / 16)).ravel()
                       for k in range(17)])
        cells = []
        for k in range(n):
            size = int((bins[k]['weight'] > 0).sum())
            b = [[fx(x['value'], 10000 / vs), exact(x['weight'], 1)]
                 for x in bins[k, :size]]
            if any(not np.isnan(x['value']) or x['weight'] != 0
                   for x in bins[k, size:]):
                b.append([0, 0])
            cells.append(dict(
                n=int(col['count'][k]), size=size,
                sw=exact(col['sum_of_weights'][k]),
                mean=fx(col['mean'][k], 1000 / vs),
                var=fx(col['variance'][k], 1000 / vs**2),
                high=[] if self.single else [fx(col['skewness'][k], 100),
                                             fx(col['kurtosis'][k], 100)],
                min=exact(col['min'][k], 1 / vs),
                max=exact(col['max'][k], 1 / vs), bins=b,
                q=[fx(x, 100 / vs) for x in qs[:, k]]
                if col['count'][k] and size else []))
        self.rec('read', s=s, r=dict(shape=shape, cells=cells,
                                     x=self.units(o.x[:]),
                                     y=self.units(o.y[:])))

    def foreign(self):
        rng = self.rng
        self.push(1)
        saved = (self.x, self.y, self.single)
        what = rng.randrange(3)
        if what == 0:
            self.x = [v + 4 for v in self.x]
        elif what == 1:
            self.y = self.y[::-1] if len(self.y) > 1 else [self.y[0] + 4]
        else:
            self.single = not self.single
        self.new(2)
        self.x, self.y, self.single = saved
        self.merge(1, 2)
        self.sum(1, 2, 1)
        self.sum(2, 1, 2)
        self.read(1)


def drive(core, rng, tier, rec):
    from vf import gen
    from vf.load import layer
    mod = layer('histogram2d')
    deep = tier == 'thorough'
    hist = gen.histories()
    STATS['histories_generated_by_tlc'] = len(hist)
    rng.shuffle(hist)
    for h in hist[:4000 if deep else 300]:
        Hist2(mod, core, rng, rec).play(h)
    for i in range(200 if deep else 30):
        Hist2(mod, core, rng, rec).foreign()
    b = Hist2(mod, core, rng, rec)
    b.cap = 10
    b.new(1)
    b.push(1)
    z = np.zeros
    for f in (lambda: b.obj[1].push(z(3), z(3), z(2)),
              lambda: b.obj[1].push(z(3), z(2), z(3)),
              lambda: b.obj[1].push(z(2), z(3), z(3)),
              lambda: b.obj[1].variable('nothing'),
              lambda: mod.Histogram2D(*b.axes(), None, np.dtype('int32'))):
        rec('refused', r=call(f)[0] == 'err')
    b.read(1)
