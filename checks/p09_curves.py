"""P09: one-dimensional interpolation."""
from vf import gen
from vf.trace import fx, np

from .stats_common import layout

UNITS = ['axis', 'enum', 'interpolate1d', 'vf_interp1d']
MODELS = [('CurveMC', 'CurveMC', ('quick', )),
          ('CurveMC', 'CurveMCdeep', ('thorough', ))]
GENERATE = ('CurveGen', 'CurveGen', 'CurveGenDeep')
TRACE = 'CurveTrace'
STATS = {}
DRIVE_TIMEOUT = 600
ASSUMPTIONS = [
    'abscissae with steps of 1 to 4 units and integer ordinates, at any '
    'dyadic scale and origin; values are compared to 5e-4 units (6e-3 for '
    'polynomials), polynomials of degree up to 5',
    'axes are increasing',
]
KINDS = ['linear', 'polynomial', 'c_spline', 'c_spline_periodic', 'akima',
         'akima_periodic', 'steffen']


class Data:

    def __init__(self, rng, kind, n, per=0):
        poly = kind == 'polynomial'
        steps = rng.choice([[1], [2], [3], [4], [1, 2], [1, 3], [1, 2, 3, 4]])
        if poly:
            steps = [1, 2]
        x = [0]
        while len(x) < n:
            x.append(x[-1] + rng.choice(steps))
        if per:
            x = [v for v in x if v < per]
        n = len(x)
        m = 6 if poly else 20
        r = rng.random()
        if r < 0.15:
            a, b = rng.randint(-2, 2), rng.randint(-m // 2, m // 2)
            if max(abs(a * v + b) for v in x) > m:
                a = 0
            y = [a * v + b for v in x]
        elif r < 0.3:
            y = sorted(rng.randint(-m, m) for _ in x)
            if rng.random() < 0.5:
                y.reverse()
        elif r < 0.5:  # plateaus
            y = [rng.choice([0, 0, 1, m]) for _ in x]
        else:
            y = [rng.randint(-m, m) for _ in x]
        if 'periodic' in kind and rng.random() < 0.7 and y:
            y[-1] = y[0]
        self.x, self.y = x, y
        self.u = rng.choice([1, 1, 0.25, 0.0078125, 1024])
        self.o = rng.choice([0, 0, 7, -300, 4096])
        self.v = rng.choice([1, 1, 0.5, 1024, 2.0**-10])
        if per:
            self.u, self.o = 360 / per, rng.randint(-4, 4) * per / 8

    def pos(self, q):
        return (np.array(q, dtype='float64') / 8 + self.o) * self.u

    def arrays(self):
        return (self.pos([8 * v for v in self.x]),
                np.array(self.y, dtype='float64') * self.v)


def positions(rng, x, n, outside=0.1):
    res = []
    for _ in range(n):
        if not x:
            res.append(rng.randint(-8, 8))
            continue
        r = rng.random()
        if r < outside:
            res.append(rng.choice([-1, 8 * x[-1] + 1, -8, 8 * x[-1] + 8,
                                   -1000, 8 * x[-1] + 1000]))
        elif r < 0.4:
            res.append(8 * rng.choice(x))
        elif r < 0.5:
            res.append(rng.choice([0, 8 * x[-1]]))
        else:
            res.append(rng.randint(0, 8 * x[-1]))
    return res


def use(core, rng, rec, obj, kind, op, n):
    d = Data(rng, kind, n)
    xa, ya = d.arrays()
    y = d.y
    if rng.random() < 0.04:
        ya = np.append(ya, 0.0)
        y = y + [0]
    q = positions(rng, d.x, rng.randint(1, 8))
    if rng.random() < 0.5 and d.x:  # every point and the middles
        q += [8 * v for v in d.x]
        q += [4 * (a + b) for a, b in zip(d.x, d.x[1:])]
    scale = 10000 / d.v * (d.u if op == 'slope' else 1)
    try:
        if rng.random() < 0.3:
            q = q[:3]
            r = [getattr(obj, op + '_one')(xa, ya, p) for p in d.pos(q)]
        else:
            r = getattr(obj, op)(xa, ya, d.pos(q))
        r = [fx(v, scale) for v in r]
    except ValueError:
        r = 'ValueError'
    rec(op, kind=kind, xs=d.x, ys=y, q=q, r=r)


def along(core, rng, rec):
    kind = rng.choice(KINDS)
    per = rng.choice([0, 0, 0, 36, 72])
    n = rng.randint(2, 10 if kind != 'polynomial' else 6)
    d = Data(rng, kind, n, per)
    xa, ya = d.arrays()
    y = d.y
    r = rng.random()
    if r < 0.03:
        ya = np.append(ya, 1.0)
        y = y + [1]
    if r > 0.98:
        kind = rng.choice(['', 'cubic', 'LINEAR'])
    half = rng.choice([0, 1, 2, 3, 3, 4, 5, n, 20])
    be = rng.random() < 0.4
    q = positions(rng, d.x, rng.randint(0, 8), 0.03 if be else 0.15)
    if per:
        q = [v + 8 * per * rng.choice([0, 0, 1, -1, 2]) for v in q]
    axis = core.Axis(xa, is_circle=True) if per else core.Axis(xa)
    if axis.is_regular():  # a tie on a regular axis may be rounded
        h = d.x[1]
        q = [v for v in q if h in (1, 2, 4) and not per or
             (2 * (v % (8 * per) if per else v)) % (16 * h) != 8 * h]
    kw = {}
    if half != 3 or rng.random() < 0.5:
        kw['half_window_size'] = half
    if not be or rng.random() < 0.5:
        kw['bounds_error'] = be
    if kind != 'c_spline' or rng.random() < 0.5:
        kw['kind'] = kind
    try:
        r = core.interpolate1d(axis, layout(rng, ya), layout(rng, d.pos(q)),
                               **kw)
        r = [fx(v, 10000 / d.v) for v in r]
    except (ValueError, IndexError) as exc:
        r = type(exc).__name__
    rec('along', kind=kind, xs=d.x, ys=y, per=per, half=half, be=be, q=q, r=r)


def drive(core, rng, tier, rec):
    hist = gen.histories()
    if tier == 'thorough':
        rng.shuffle(hist)
    STATS.update(histories=len(hist))
    for h in hist:
        for kind in (rng.sample(KINDS, 3) if tier == 'quick' else KINDS[1:]):
            rec.session()
            obj = core.vf_curve(kind)
            for s in h:
                n = s['n']
                if kind == 'polynomial':
                    n = min(n, 6)
                use(core, rng, rec, obj, kind, s['op'], n)
    rounds = 400 if tier == 'quick' else 6000
    for _ in range(rounds):
        rec.session()
        for _ in range(5):
            along(core, rng, rec)
    # longer lives
    for _ in range(rounds // 10):
        rec.session()
        kind = rng.choice(KINDS)
        obj = core.vf_curve(kind)
        for _ in range(12):
            use(core, rng, rec, obj, kind, rng.choice(['value', 'slope']),
                rng.randint(0, 6 if kind == 'polynomial' else 9))
