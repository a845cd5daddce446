"""P16: spatial indexes."""
import copy
import json
import pickle
import random

from vf.trace import BAD, call, exact, fx, np

from .stats_common import layout

UNITS = ['rtree', 'geodetic', 'enum']
MODELS = [('RtreeMC', 'RtreeMC', ('quick', )),
          ('RtreeMC', 'RtreeMCdeep', ('thorough', ))]
GENERATE = ('StoreGen', 'RtreeGen', 'RtreeGenDeep')
TRACE = 'RtreeTrace'
STATS = {}
DRIVE_TIMEOUT = 600
ASSUMPTIONS = [
    'Cartesian coordinates are multiples of a power of two, for which '
    'squared distances are exact; spherical ones are compared to 6e-4 of the '
    'radius (7e-3 with the WGS84 ellipsoid)',
    'the points of geographic indexes spread over less than 180 degrees '
    'of longitude, on the same side of the antimeridian (known finding)',
]


class Tree:

    def __init__(self, mods, rng, rec, kind=None):
        self.mods, self.rng, self.rec = mods, rng, rec
        self.kind = kind or rng.choice(['ecef', 'ecef', 'ecef', 'lla', 'lla',
                                        'geo'])
        self.single = self.kind != 'geo' and rng.random() < 0.4
        self.core = rng.random() < 0.5 and self.kind != 'geo'
        self.tol = 0
        self.wgs = False
        if self.kind == 'ecef':
            self.u = rng.choice([1, 0.25, 1024, 2.0**-12])
            self.span = rng.choice([2, 5, 20, 60])
        else:
            self.u = rng.choice([1, 637.1])
            self.tol = 8
            if self.kind == 'lla' and rng.random() < 0.3:
                self.wgs, self.u, self.tol = True, 637.8137, 80
            self.lon0 = rng.randint(-800, 800) if rng.random() < 0.7 else \
                rng.choice([720, -720, 0, 1440])
            self.wide = rng.choice([8, 80, 240])
            if self.kind == 'geo':
                self.wide = min(self.wide, 176)
                m = 716 - 2 * self.wide
                self.lon0 = rng.choice([rng.randint(-m, m), m, -m]) + \
                    rng.choice([0, 0, 1440, -1440])
        self.vs = rng.choice([1, 0.5, 4])
        self.n = 0
        self.negative = False
        self.obj = {}
        rec.session()

    def make(self):
        geodetic, rtree, core = self.mods
        if self.kind == 'geo':
            return geodetic.RTree(geodetic.Spheroid((10000 * self.u, 0.0)))
        wgs = None
        if self.kind == 'lla':
            wgs = None
            if not self.wgs:
                wgs = core.geodetic.Spheroid(10000 * self.u, 0) if self.core \
                    else geodetic.Spheroid((10000 * self.u, 0.0))
        ecef = self.kind == 'ecef'
        if self.core:
            cls = core.RTree3DFloat32 if self.single else core.RTree3DFloat64
            return cls(wgs, ecef)
        dtype = None if not self.single and self.rng.random() < 0.3 else \
            np.dtype('float32' if self.single else 'float64')
        return rtree.RTree(wgs, dtype=dtype, ecef=ecef)

    def new(self, s):
        self.obj[s] = self.make()
        self.rec('new', s=s, kind=self.kind, tol=self.tol)

    def point(self, stored=True):
        rng = self.rng
        if self.kind == 'ecef':
            p = [rng.randint(-self.span, self.span) for _ in range(3)]
            if self.negative:
                p = [-abs(x) - 1 for x in p]
            return p
        lon = self.lon0 + 2 * rng.randint(-self.wide, self.wide)
        if self.kind == 'geo':
            return [lon, 2 * rng.randint(-150, 150)]
        lat = 2 * rng.randint(-178, 178)
        if not stored and rng.random() < 0.1:
            lat = rng.choice([360, -360])
        if stored and lon % 1440 == 720:
            lon += 2
        return [lon, lat, rng.choice([0, 0, 0, 500, -300, 5000])]

    def points(self, n, dims, stored=True):
        res = []
        for _ in range(n):
            p = self.point(stored)
            if res and self.rng.random() < 0.15:
                p = list(self.rng.choice(res))
            res.append(p[:dims])
        return res

    def scales(self, dims):
        if self.kind == 'ecef':
            return [self.u] * dims
        return [0.25, 0.25, self.u][:dims]

    def array(self, pts, dims, dtype=None):
        a = np.array([[x * s for x, s in zip(p, self.scales(dims))]
                      for p in pts], dtype=dtype or (
                          'float32' if self.single else 'float64'))
        return a.reshape(len(pts), dims)

    def load(self, s, op, n=None):
        if s not in self.obj:
            self.new(s)
        rng = self.rng
        n = rng.choice([0, 1, 2, 5, 12, 20, 40, 70]) if n is None else n
        dims = 2 if self.kind == 'geo' else rng.choice([2, 3, 3])
        self.negative = rng.random() < 0.15
        pts = self.points(n, dims)
        v = [self.n + i for i in range(n)]
        rng.shuffle(v)
        self.n += n
        val = np.array([x * self.vs for x in v],
                       dtype='float32' if self.single else 'float64')
        a = self.array(pts, dims)
        o = self.obj[s]
        name = 'packing' if op == 'pack' else 'insert'
        if self.kind == 'geo':
            getattr(o, name)(np.ascontiguousarray(a[:, 0]),
                             np.ascontiguousarray(a[:, 1]), val)
        else:
            getattr(o, name)(layout(rng, a), val)
        self.rec(op, s=s, c=pts, v=v)

    def positions(self, s, n, dims):
        qs = self.points(n, dims, False)
        return qs

    def ask(self, s, stored):
        rng = self.rng
        o = self.obj[s]
        self.rec('len', s=s, r=len(o), some=bool(o))
        if self.kind != 'geo' and rng.random() < 0.6:
            b = o.bounds()
            scales = self.scales(3) if self.kind == 'ecef' else \
                [0.0025, 0.0025, self.u]
            f = exact if self.kind == 'ecef' else fx
            self.rec('bounds', s=s, r=[[f(x, 1 / sc) for x, sc in
                                        zip(c, scales)] for c in b])
        dims = 2 if self.kind == 'geo' else rng.choice([2, 3, 3])
        n = rng.choice([0, 1, 2, 4, 6])
        qs = self.points(n, dims, False)
        for i in range(n):
            if stored and rng.random() < 0.35:
                p = list(rng.choice(stored))
                qs[i] = (p + [0])[:dims]
        k = rng.choice([0, 1, 1, 2, 3, 4, 4, 4, 7, 9, 11])
        within = rng.random() < 0.4
        threads = rng.choice([1, 1, 2, 3, 0])
        a = self.array(qs, dims)
        du = 100 / self.u if self.kind == 'ecef' else 1 / self.u
        vs = 1 / self.vs
        if self.kind == 'geo':
            d, v = o.query(np.ascontiguousarray(a[:, 0]),
                           np.ascontiguousarray(a[:, 1]), k, within, threads)
        elif k == 4 and within != self.core and rng.random() < 0.5:
            # the default of the Python class is within
            d, v = o.query(layout(rng, a))
        else:
            d, v = o.query(layout(rng, a), k, within, threads)
        rows = [[[-1, -1] if x == -1 else [fx(x, du), exact(y, vs)]
                 for x, y in zip(r1, r2)] for r1, r2 in zip(d, v)]
        self.rec('query', s=s, q=qs, k=k, within=within, r=rows)
        if self.kind == 'geo':
            return
        radius = -1
        if rng.random() < 0.5:
            radius = rng.randint(0, 2 * self.span) if self.kind == 'ecef' \
                else rng.randint(500, 20000)
        p, v = o.value(layout(rng, a), None if radius == -1 else
                       radius * self.u, k, within, threads)
        scales = self.scales(dims) if self.kind == 'ecef' else \
            [0.0025, 0.0025, self.u][:dims]
        f = exact if self.kind == 'ecef' else fx
        rows = [[[] if np.isnan(y) and np.isnan(c).all() else
                 [[f(x, 1 / sc) for x, sc in zip(c, scales)], exact(y, vs)]
                 for c, y in zip(r1, r2)] for r1, r2 in zip(p, v)]
        self.rec('value', s=s, q=qs, k=k, radius=radius, within=within,
                 r=rows)

    def step(self, op, s, t):
        rng = self.rng
        if op == 'push':
            self.load(s, 'insert')
        elif op == 'pack':
            self.load(s, 'pack')
        elif op == 'clear':
            self.obj[s].clear()
            self.rec('clear', s=s)
        elif op == 'pickle' or self.kind == 'geo' and op == 'copy' and \
                rng.random() < 0.5:
            self.obj[t] = pickle.loads(pickle.dumps(self.obj[s]))
            self.rec('copy', s=s, t=t)
        elif op == 'copy':
            if self.core or self.kind == 'geo':
                self.obj[t] = copy.copy(self.obj[s])
                self.rec('alias', s=s, t=t)
            else:
                self.obj[t] = copy.deepcopy(self.obj[s])
                self.rec('copy', s=s, t=t)

    def play(self, hist):
        given = {}
        for h in hist:
            op, s, t = h['op'], h['s'], h['t']
            before = len(self.rec.sessions[-1])
            self.step(op, s, t)
            # positions worth asking for
            for line in self.rec.sessions[-1][before:]:
                e = json.loads(line)
                given.setdefault(s, []).extend(e.get('c', []))
            if op in ('copy', 'pickle'):
                given[t] = list(given.get(s, []))
        for s in sorted(self.obj):
            self.ask(s, given.get(s))
        if self.rng.random() < 0.5:
            s = self.rng.choice(sorted(self.obj))
            self.load(s, self.rng.choice(['insert', 'pack']))
            for s in sorted(self.obj):
                self.ask(s, given.get(s))


def antimeridian(mods, rec):
    """Points on both sides of the antimeridian: known finding."""
    geodetic = mods[0]
    for wide in (80, 320):
        rng = random.Random(wide)
        rec.session()
        t = geodetic.RTree(geodetic.Spheroid((10000, 0.0)))
        rec('new', s=1, kind='geo', tol=8)
        pts = [[720 + rng.randint(-wide, wide), rng.randint(-300, 300)]
               for _ in range(60)]
        a = np.array(pts) * 0.25
        t.insert(a[:, 0].copy(), a[:, 1].copy(), np.arange(60.0))
        rec('insert', s=1, c=pts, v=list(range(60)))
        for _ in range(40):
            q = [720 + rng.randint(-wide, wide), rng.randint(-300, 300)]
            d, v = t.query(np.array([q[0] / 4]), np.array([q[1] / 4]), 4,
                           False, 1)
            rec('query', s=1, q=[q], k=4, within=False,
                key='geodetic-antimeridian',
                r=[[[fx(x), exact(y)] for x, y in zip(d[0], v[0])]])


def refusals(mods, rec):
    geodetic, rtree, core = mods
    rec.session()
    z = np.zeros
    t = rtree.RTree(ecef=True)
    for f in (lambda: t.packing(z((3, 3)), z(2)),
              lambda: t.packing(z((3, 4)), z(3)),
              lambda: t.packing(z((3, 1)), z(3)),
              lambda: t.packing(z(3), z(3)),
              lambda: t.packing(z((3, 3)), z((3, 1))),
              lambda: t.insert(z((3, 3)), z(2)),
              lambda: t.insert(z((3, 4)), z(3)),
              lambda: t.insert(z(3), z(3)),
              lambda: t.query(z(3)), lambda: t.query(z((3, 4))),
              lambda: t.value(z(3)), lambda: t.value(z((3, 1))),
              lambda: rtree.RTree(geodetic.Spheroid(), ecef=True),
              lambda: rtree.RTree(dtype=np.dtype('int32')),
              lambda: geodetic.RTree().packing(z(3), z(2), z(3)),
              lambda: geodetic.RTree().insert(z(3), z(3), z(2)),
              lambda: geodetic.RTree().query(z(3), z(2))):
        rec('refused', r=call(f)[0] == 'err')


def drive(core, rng, tier, rec):
    from vf import gen
    from vf.load import layer
    mods = (layer('geodetic'), layer('rtree'), core)
    deep = tier == 'thorough'
    hist = gen.histories()
    STATS['histories_generated_by_tlc'] = len(hist)
    rng.shuffle(hist)
    for h in (hist[:12000] if deep else hist * 2):
        Tree(mods, rng, rec).play(h)
    antimeridian(mods, rec)
    refusals(mods, rec)
