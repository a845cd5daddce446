"""P17: estimation of values from scattered points."""
import math

from vf.trace import BAD, call, fx, np

from .stats_common import layout

UNITS = ['rtree', 'geodetic', 'enum']
MODELS = [('KernelMC', 'KernelMC', ('quick', )),
          ('KernelMC', 'KernelMCdeep', ('thorough', ))]
TRACE = 'KernelTrace'
STATS = {}
DRIVE_TIMEOUT = 600
ASSUMPTIONS = [
    'estimates are compared to a tenth of the values or better, well '
    'conditioned systems only; the exact solution of the linear systems is '
    'compared for up to four nodes at equal distances, others are bound by '
    'the reproduction of the samples, superposition, and independence from '
    'the order, origin and number of the other points',
    'the documented formula of the cauchy covariance is not checked',
]

WF = ['blackman', 'blackman_harris', 'boxcar', 'flat_top', 'gaussian',
      'hamming', 'lanczos', 'nuttall', 'parzen', 'parzen_swot']
RBF = ['cubic', 'gaussian', 'inverse_multiquadric', 'linear', 'multiquadric',
       'thin_plate']
COV = ['matern_12', 'matern_32', 'matern_52', 'whittle_matern', 'cauchy',
       'exponential', 'spherical', 'gaussian', 'linear']


class Scene:

    def __init__(self, mods, rng, rec, kind=None, tier='quick'):
        self.mods, self.rng, self.rec = mods, rng, rec
        self.kind = kind or rng.choice(['ecef', 'ecef', 'ecef', 'geo'])
        self.single = self.kind == 'ecef' and rng.random() < 0.3
        self.core = rng.random() < 0.3
        # the kernels of radial functions are those of the unit
        self.u = 1 if rng.random() < 0.5 else rng.choice([0.25, 4, 1024])
        self.vs = rng.choice([1, 1, 0.5, 16])
        self.ids = 0
        self.n = 0
        if self.kind == 'geo':
            self.u = math.pi / 720 * rng.choice([10000, 6371000])
            self.lon0 = rng.randint(-700, 700)
            self.meridian = rng.random() < 0.3
        rec.session()

    def new(self):
        geodetic, rtree, core = self.mods[:3]
        if self.kind == 'geo':
            return geodetic.RTree(
                geodetic.Spheroid((round(self.u * 720 / math.pi), 0.0)))
        if self.core:
            cls = core.RTree3DFloat32 if self.single else core.RTree3DFloat64
            return cls(None, True)
        return rtree.RTree(ecef=True, dtype=np.dtype(
            'float32' if self.single else 'float64'))

    def xyz(self, pts):
        dtype = 'float32' if self.single else 'float64'
        if self.kind == 'geo':
            x = np.array([p[0] for p in pts], dtype=float) * 0.25
            if self.meridian:
                return [np.full(len(pts), self.lon0 * 0.25), x]
            return [x + self.lon0 * 0.25, np.zeros(len(pts))]
        a = np.array(pts, dtype=dtype).reshape(len(pts), 3) * self.u
        a = a.astype(dtype)
        if len(pts) and not np.any(a[:, 2]) and self.rng.random() < 0.5:
            a = a[:, :2]
        return [layout(self.rng, a)]

    def cloud(self, pts, vals):
        tree = self.new()
        self.n += 1
        dtype = 'float32' if self.single else 'float64'
        fill = tree.packing if self.rng.random() < 0.5 else tree.insert
        if len(pts) or self.rng.random() < 0.5:
            fill(*self.xyz(pts), np.array(vals, dtype=dtype) * self.vs)
        self.rec('cloud', s=self.n, c=pts, v=vals)
        return [self.n, tree, pts, vals]

    def point(self, span):
        if self.kind == 'geo':
            return [self.rng.randint(-2 * span, 2 * span), 0, 0]
        z = self.rng.randint(-span, span) if self.rng.random() < 0.6 else 0
        return [self.rng.randint(-span, span), self.rng.randint(-span, span),
                z]

    def points(self, n, span, distinct):
        res = []
        while len(res) < n:
            p = self.point(span)
            if p in res and (distinct or self.rng.random() < 0.8):
                n -= self.rng.random() < 0.05
                continue
            res.append(p)
        return res

    def request(self, cloud, pts, conf):
        """One estimate at each point; conf: what and how."""
        rng = self.rng
        s, tree = cloud[:2]
        k, rad, within = conf['k'], conf['rad'], conf['within']
        f, m = conf.get('f'), conf['m']
        core = self.core and self.kind != 'geo'
        enum = self.mods[2]
        interface = self.mods[3]
        radius = None if rad == -1 else rad / 2 * self.u
        if radius is None and self.kind == 'geo' and m == 'window':
            radius = np.finfo('float64').max
        xyz = self.xyz(pts)
        threads = rng.choice([1, 1, 2, 0])
        kw = dict(radius=radius, k=k, within=within, num_threads=threads)
        if not core and k == 9 and rng.random() < 0.7:
            del kw['k']
        if not core and within and rng.random() < 0.7:
            del kw['within']
        if not core and radius is None and rng.random() < 0.7:
            del kw['radius']
        if m == 'idw':
            kw['p'] = conf['p']
            if not core and conf['p'] == 2 and rng.random() < 0.7:
                del kw['p']
            r = tree.inverse_distance_weighting(*xyz, **kw)
            fields = dict(p=conf['p'])
        elif m == 'window':
            arg = conf['arg']
            a = None if arg == -1 else arg / 100 * (
                1 if f == 'lanczos' else self.u)
            if f == 'lanczos' and arg == 100 and not core:
                a = None
            if f == 'parzen' and arg == 0:
                a = None
            if core:
                wf = interface._core_window_function(f, a)
                r = tree.window_function(*xyz, wf=wf, arg=a, **kw)
            else:
                kw['wf'] = None if f == 'blackman' and rng.random() < 0.5 \
                    else f
                r = tree.window_function(*xyz, arg=a, **kw)
            fields = dict(f=f, arg=max(arg, 0))
        elif m == 'rbf':
            eps = None if conf['e2'] == -1 else math.sqrt(
                conf['e2']) * self.u
            kw['smooth'] = conf['smooth'] / 10 * {
                'linear': self.u, 'cubic': self.u**3}.get(f, 1)
            if not conf['smooth'] and not core and rng.random() < 0.7:
                del kw['smooth']
            if core:
                r = tree.radial_basis_function(
                    *xyz, rbf=interface._core_radial_basis_function(f, eps),
                    epsilon=eps, **kw)
            else:
                r = tree.radial_basis_function(
                    *xyz, rbf=None if f == 'multiquadric' and
                    rng.random() < 0.5 else f, epsilon=eps, **kw)
            fields = dict(f=f, e2=conf['e2'], smooth=conf['smooth'])
        else:
            kw['sigma'] = conf['sigma']
            kw['alpha'] = math.sqrt(conf['e2']) * self.u
            if core:
                r = tree.universal_kriging(
                    *xyz, covariance=interface._core_covariance_function(f),
                    **kw)
            else:
                r = tree.universal_kriging(
                    *xyz, covariance=None if f == 'matern_32' and
                    rng.random() < 0.5 else f, **kw)
            f = 'linear_cov' if f == 'linear' else f
            fields = dict(f=f, e2=conf['e2'], smooth=0)
        vals, n = r
        self.ids += 1
        self.rec('kernel' if m in ('rbf', 'krig') else m, s=s, id=self.ids,
                 q=pts, k=k, rad=rad, within=within,
                 m=repr([x for x in sorted(conf.items()) if x[0] not in
                         ('k', 'rad', 'within')]),
                 r=[[fx(x, 100 / self.vs), int(y)] for x, y in zip(vals, n)],
                 **fields)
        return self.ids

    def conf(self, m, span, pts):
        rng = self.rng
        geo = self.kind == 'geo'
        k = rng.choice([1, 2, 3, 4, 5, 8, 9, 9, 9, 11])
        rad = -1
        if rng.random() < 0.5:
            rad = rng.randint(1, 2 * span)
            if geo:
                rad = rad * 2 + 1
        within = not geo and rng.random() < 0.4
        c = dict(m=m, k=k, rad=rad, within=within)
        if m == 'idw':
            c['p'] = rng.choice([0, 1, 2, 2, 2, 3, 4])
        elif m == 'window':
            c['f'] = rng.choice(WF)
            if geo and rad == -1:
                # rounding decides on which side of the edge of the window
                # the furthest points are: functions which vanish there
                c['f'] = rng.choice(['blackman_harris', 'parzen',
                                     'parzen_swot'])
            c['arg'] = {'lanczos': rng.choice([100, 100, 137, 200, 300]),
                        'gaussian': rng.choice([100, 150, 200, 400]),
                        'parzen': rng.choice([0, 0, 37, 150])
                        }.get(c['f'], -1)
        elif m == 'rbf':
            c['f'] = rng.choice(RBF if self.u == 1 else RBF[:5])
            if c['f'] == 'thin_plate' and any(
                    sum((a - b)**2 for a, b in zip(p, q)) == 1
                    for p in pts for q in pts):
                c['f'] = 'linear'   # singular: null at a distance of 1
            c['e2'] = -1 if c['f'] in ('linear', 'cubic', 'thin_plate') or \
                rng.random() < 0.4 else rng.choice([4, 9, 16, 30])
            c['smooth'] = 0 if rng.random() < 0.75 else rng.randint(1, 9)
        else:
            c['f'] = rng.choice(COV)
            c['e2'] = rng.choice([2, 4, 9, 20, 50])
            if c['f'] == 'linear':
                c['e2'] = 16 * span * span
            c['sigma'] = rng.choice([1.0, 0.5, 3.0])
        return c

    def kernels(self):
        # radial functions of Cartesian coordinates
        m = self.rng.choice(['idw', 'window', 'rbf', 'krig'])
        if self.kind == 'geo' and m in ('rbf', 'krig'):
            m = self.rng.choice(['idw', 'window'])
        return m

    def values(self, n, m):
        top = 5 if m in ('rbf', 'krig') else 50
        if self.rng.random() < 0.1:
            return [self.rng.randint(-top, top)] * n
        return [self.rng.randint(-top, top) for _ in range(n)]

    def targets(self, pts, span, n=None):
        rng = self.rng
        n = rng.choice([1, 2, 3, 5]) if n is None else n
        qs = [self.point(span + 1) for _ in range(n)]
        for i in range(n):
            if pts and rng.random() < 0.3:
                qs[i] = list(rng.choice(pts))
        return qs

    def scatter(self):
        """Anything: selection of the points, weighted means."""
        rng = self.rng
        m = self.kernels()
        span = rng.choice([2, 4, 8, 10])
        n = rng.choice([0, 1, 2, 3, 6, 12, 20])
        pts = self.points(n, span, m in ('rbf', 'krig'))
        c = self.cloud(pts, self.values(len(pts), m))
        for _ in range(3):
            conf = self.conf(m, span, pts)
            if m in ('rbf', 'krig') and rng.random() < 0.4:
                conf['k'] = 2
            self.request(c, self.targets(pts, span), conf)

    def simplex(self):
        """Up to four nodes at equal distances of each other."""
        rng = self.rng
        if self.kind == 'geo':
            return
        m = rng.choice(['rbf', 'rbf', 'krig'])
        a = rng.choice([1, 1, 2, 3])
        nodes = rng.choice([
            [[0, 0, 0], [1, 1, 0], [1, 0, 1], [0, 1, 1]],
            [[1, 0, 0], [0, 1, 0], [0, 0, 1]],
        ])
        sign = [rng.choice([1, -1]) for _ in range(3)]
        nodes = [[a * x * y for x, y in zip(p, sign)] for p in nodes]
        rng.shuffle(nodes)
        nodes = nodes[:rng.choice([1, 2, 3, 3, 4, 4])]
        c = self.cloud(nodes, self.values(len(nodes), m))
        for _ in range(3):
            conf = self.conf(m, 2 * a, nodes)
            conf['k'] = 9
            conf['rad'] = -1
            conf['within'] = conf['within'] and rng.random() < 0.5
            if m == 'krig' or conf['e2'] != -1:
                conf['e2'] = a * a * rng.choice([1, 2, 4, 5])
            if conf['f'] in ('linear', ) and m == 'krig':
                conf['e2'] = 20 * a * a
            self.request(c, self.targets(nodes, 2 * a), conf)

    def relations(self):
        rng = self.rng
        m = self.kernels()
        span = rng.choice([3, 5, 8])
        n = rng.choice([3, 5, 9, 14])
        pts = self.points(n, span, True)
        n = len(pts)
        v1 = self.values(n, m)
        c1 = self.cloud(pts, v1)
        conf = self.conf(m, span, pts)
        if m == 'rbf' and conf['f'] == 'gaussian' and conf['e2'] > 9:
            conf['e2'] = 9
        qs = self.targets(pts, span, 3)
        if m == 'window' and conf['rad'] == -1:
            # nodes at a same distance, that of the edge of the window, have
            # weights which are only rounding errors
            def edge(q):
                d2 = sorted(sum((i - j)**2 for i, j in zip(p, q)) for p in pts)
                return d2[0] == d2[min(conf['k'], n) - 1] != 0

            qs = [q for q in qs if not edge(q)]
            if not qs:
                return
        x = self.request(c1, qs, conf)
        tol = 3
        # the order of the points
        order = list(range(n))
        rng.shuffle(order)
        c2 = self.cloud([pts[i] for i in order], [v1[i] for i in order])
        y = self.request(c2, qs, conf)
        self.rec('same', rel='order', x=x, y=y, d=[0, 0, 0], tol=tol)
        # the origin
        d = [rng.randint(-9, 9), 0, 0] if self.kind == 'geo' else \
            [rng.randint(-40, 40) for _ in range(3)]
        add = lambda p: [a + b for a, b in zip(p, d)]
        c3 = self.cloud([add(p) for p in pts], v1)
        y = self.request(c3, [add(q) for q in qs], conf)
        self.rec('same', rel='shift', x=x, y=y, d=d, tol=tol)
        # other values
        v2 = self.values(n, m)
        a, b = rng.randint(-2, 2), rng.randint(-2, 2)
        c4 = self.cloud(pts, v2)
        y = self.request(c4, qs, conf)
        c5 = self.cloud(pts, [a * i + b * j for i, j in zip(v1, v2)])
        z = self.request(c5, qs, conf)
        self.rec('sum', x=x, y=y, z=z, a=a, b=b)
        # the points used, alone
        q = qs[0]
        x = self.request(c1, [q], conf)
        d2 = [sum((i - j)**2 for i, j in zip(p, q)) for p in pts]
        near = [i for i in range(n) if sum(e < d2[i] for e in d2) < conf['k']]
        if len(near) > conf['k']:
            return
        kept = [i for i in near if conf['rad'] == -1 or
                4 * d2[i] <= conf['rad']**2]
        frame = near if m in ('idw', 'window') else kept
        if conf['within'] and not (frame and all(
                min(pts[i][j] for i in frame) <= q[j] <=
                max(pts[i][j] for i in frame) for j in range(3))):
            kept = []
        c6 = self.cloud([pts[i] for i in kept], [v1[i] for i in kept])
        mean = m == 'window'
        y = self.request(c6, [q], dict(
            conf, within=False, k=conf['k'],
            rad=conf['rad'] if mean or rng.random() < 0.5 else -1))
        self.rec('same', rel='local', x=x, y=y, d=[0, 0, 0], tol=tol)


def average(mods, rng, rec):
    """The default epsilon is the average distance of the nodes."""
    s = Scene(mods, rng, rec, 'ecef')
    xs = sorted(rng.sample(range(-8, 9), 4))
    pts = [[x, 0, 0] for x in xs]
    c = s.cloud(pts, s.values(4, 'rbf'))
    gaps = [abs(a - b) for i, a in enumerate(xs) for b in xs[:i]]
    f = rng.choice(['gaussian', 'inverse_multiquadric', 'multiquadric'])
    conf = dict(m='rbf', k=9, rad=-1, within=False, f=f, e2=-1, smooth=0)
    qs = s.targets(pts, 8, 4)
    x = s.request(c, qs, conf)
    total = sum(gaps)
    if total % 6:
        return
    y = s.request(c, qs, dict(conf, e2=(total // 6)**2))
    rec('same', rel='twin', x=x, y=y, d=[0, 0, 0], tol=2)


def spherical(mods, rng, rec):
    """Positions on the Earth are those of their Cartesian coordinates."""
    geodetic, rtree, core, interface = mods
    rec.session()
    coords = core.geodetic.Coordinates(core.geodetic.Spheroid())
    lla = np.array([[rng.uniform(-5, 5) + 178, rng.uniform(-5, 5) + 60,
                     rng.uniform(0, 1e5)] for _ in range(14)])
    qs = np.array([[rng.uniform(-5, 5) + 178, rng.uniform(-5, 5) + 60,
                    rng.uniform(0, 1e5)] for _ in range(5)])
    qs[0] = lla[3]
    ecef = lambda a: np.vstack(coords.lla_to_ecef(
        a[:, 0].copy(), a[:, 1].copy(), a[:, 2].copy())).T
    v = np.array([rng.randint(-50, 50) for _ in range(14)], dtype=float)
    t1, t2 = rtree.RTree(), rtree.RTree(ecef=True)
    t1.packing(lla, v)
    t2.packing(ecef(lla), v)
    n = 0
    rec('cloud', s=1, c=[], v=[])
    eq = ecef(qs)
    for radius in (None, 4e5):
        for within in (True, False):
            kw = dict(radius=radius, within=within)
            for f in (lambda t, x: t.inverse_distance_weighting(x, **kw),
                      lambda t, x: t.radial_basis_function(x, **kw),
                      lambda t, x: t.radial_basis_function(
                          x, rbf='linear', **kw),
                      lambda t, x: t.window_function(x, wf='hamming', **kw),
                      lambda t, x: t.universal_kriging(x, alpha=2e5, **kw)):
                a, b = f(t1, qs), f(t2, eq)
                rec('pair', x=[[fx(i, 100), int(j)] for i, j in zip(*a)],
                    y=[[fx(i, 100), int(j)] for i, j in zip(*b)])


def refusals(mods, rec):
    geodetic, rtree, core, interface = mods
    rec.session()
    z = np.zeros((3, 3))
    t = rtree.RTree(ecef=True)
    t.packing(np.random.RandomState(1).rand(5, 3), np.arange(5.))
    g = geodetic.RTree()
    x = np.zeros(3)
    for f in (lambda: t.window_function(z, wf='unknown'),
              lambda: t.window_function(z, wf='gaussian'),
              lambda: t.window_function(z, wf='hamming', arg=1),
              lambda: t.window_function(z, wf='lanczos', arg=0.5),
              lambda: t.window_function(z, wf='parzen', arg=-1),
              lambda: t.radial_basis_function(z, rbf='unknown'),
              lambda: t.radial_basis_function(z, rbf='cubic', epsilon=1),
              lambda: t.radial_basis_function(z, rbf='linear', epsilon=1),
              lambda: t.radial_basis_function(z, rbf='thin_plate', epsilon=1),
              lambda: t.universal_kriging(z, covariance='unknown'),
              lambda: t.universal_kriging(z, sigma=0),
              lambda: t.universal_kriging(z, alpha=0),
              lambda: t.universal_kriging(z, alpha=-1.0),
              lambda: t.inverse_distance_weighting(x),
              lambda: t.inverse_distance_weighting(np.zeros((3, 4))),
              lambda: t.radial_basis_function(np.zeros((3, 1))),
              lambda: t.window_function(np.zeros((3, 5))),
              lambda: t.universal_kriging(np.zeros((3, 5))),
              lambda: g.inverse_distance_weighting(x, np.zeros(2)),
              lambda: g.window_function(x, np.zeros(2), 1.0),
              lambda: g.window_function(x, x, 1.0, wf='unknown'),
              lambda: g.radial_basis_function(x, x, rbf='unknown')):
        rec('refused', r=call(f)[0] == 'err')


def drive(core, rng, tier, rec):
    from vf.load import layer
    geodetic, rtree = layer('geodetic'), layer('rtree')
    mods = (geodetic, rtree, core, layer('interface'))
    n = 1200 if tier == 'thorough' else 120
    for _ in range(n):
        Scene(mods, rng, rec).scatter()
        Scene(mods, rng, rec).relations()
        Scene(mods, rng, rec, 'ecef').simplex()
        Scene(mods, rng, rec, 'ecef').simplex()
    for _ in range(n // 6):
        average(mods, rng, rec)
        spherical(mods, rng, rec)
    refusals(mods, rec)
