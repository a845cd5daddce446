"""P10: results never depend on the number of threads.

detail::dispatch is executed with the schedules enumerated by TLC; every
parallel function is executed with several numbers of threads. Executions take
place in child processes: a crash, or a deadlock, is a recorded outcome.
"""
import json
import os
import re
import resource
import select
import signal
import time
import zlib

import numpy as np

from vf import gen
from vf.load import layer

UNITS = ['axis', 'enum', 'dateutils', 'grid', 'bivariate_interpolator',
         'bivariate', 'trivariate', 'quadrivariate', 'bicubic', 'fill',
         'rtree', 'geodetic', 'geohash_int64', 'geohash_string', 'vf_thread']
MODELS = [('DispatchMC', 'DispatchMC'),
          ('DispatchMC', 'DispatchMCdeep', ['thorough'])]
GENERATE = ('DispatchGen', 'DispatchGen', 'DispatchGenDeep')
TRACE = 'DispatchTrace'
CONFIRM = 6
ASSUMPTIONS = [
    'threads are scheduled by the operating system: the schedules enumerated '
    'by TLC are enforced on the elements of detail::dispatch only, not on the '
    'instructions of a worker',
    'the number of threads differs by at most 64 from the number of elements '
    'of the parallel functions, or is 0 or 1000',
]
THREADS = [2, 3, 7, 0, 1000]


class Child:
    """Events sent by a function executed in a child process."""

    def __init__(self, fn, limit=60):
        self.events, self.end = [], 'ok'
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                devnull = os.open(os.devnull, os.O_WRONLY)
                os.dup2(devnull, 2)

                def send(event):
                    data = (json.dumps(event) + '\n').encode()
                    while data:
                        data = data[os.write(w, data):]

                fn(send)
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        data, until = b'', time.time() + limit
        while True:
            left = until - time.time()
            if left <= 0 or not select.select([r], [], [], left)[0]:
                os.kill(pid, signal.SIGKILL)
                self.end = 'hang'
                break
            chunk = os.read(r, 1 << 16)
            if not chunk:
                break
            data += chunk
        os.close(r)
        _, status = os.waitpid(pid, 0)
        if self.end == 'ok' and status:
            self.end = ('signal %d' % os.WTERMSIG(status)
                        if os.WIFSIGNALED(status) else 'harness')
        self.events = [json.loads(x) for x in data.decode().splitlines()]


def replay(rec, fn, limit=60):
    """Record the events of a child; one ending abnormally is rejected."""
    child = Child(fn, limit)
    rec.session()
    for e in child.events:
        rec(e.pop('op'), **e)
    if child.end == 'harness':
        raise RuntimeError('the child process failed: ' +
                           str(child.events[-1:]))
    if child.end != 'ok':
        rec('crash', r=[child.end])


def few_threads():
    """The next threads cannot be created (no memory for their stacks)."""
    with open('/proc/self/statm', encoding='ascii') as stream:
        size = int(stream.read().split()[0]) * resource.getpagesize()
    resource.setrlimit(resource.RLIMIT_AS, (size + (20 << 20), ) * 2)


# -- detail::dispatch --------------------------------------------------------
NAMES = {'start': 2, 'elem': 2, 'fail': 2, 'end': 1, 'return': 0, 'raise': 1}


def execute(core, send, h, patience=4):
    send({'op': 'begin', 'n': h['n'], 't': h['t'], 'failing': h['failing']})
    for what, *args in core.vf_dispatch(h['n'], h['t'], h['failing'],
                                        h['order'], patience):
        send({'op': what,
              'at' if what == 'start' else 'r': list(args[:NAMES[what]])})


def dispatch(core, rng, tier, rec):
    deep = tier == 'thorough'
    hist = list(gen.histories())
    rng.shuffle(hist)
    hist = hist[:6000 if deep else 500]
    for k in range(300 if deep else 40):
        n = rng.randint(0, 40)
        order = list(range(n))
        rng.shuffle(order)
        hist.append({'n': n, 't': rng.choice([0, 1, 2, 3, n, n + 1, 3 * n, 50]),
                     'failing': sorted(rng.sample(range(n), rng.randint(0, n))
                                       if rng.random() < 0.6 else []),
                     'order': order if rng.random() < 0.3 else []})
    for k in range(0, len(hist), 20):

        def run(send, part=hist[k:k + 20]):
            for h in part:
                execute(core, send, h)

        replay(rec, run)
    # threads cannot be created
    for k in range(60 if deep else 12):
        n = rng.randint(3, 60)
        h = {'n': n, 't': rng.choice([0, 16, 40, n]), 'order': [],
             'failing': rng.sample(range(n), 2) if k % 2 else []}

        def starve(send, h=h):
            few_threads()
            execute(core, send, h)

        replay(rec, starve)


# -- parallel functions ------------------------------------------------------
def digest(o):
    """The bits of a result (NaN are all the same)."""
    if isinstance(o, (tuple, list)):
        return zlib.crc32(repr([digest(x) for x in o]).encode()) >> 1
    a = np.array(o)
    if a.dtype.kind == 'f':
        a[np.isnan(a)] = np.nan
    head = f'{a.dtype}{a.shape}'.encode()
    return zlib.crc32(head + a.tobytes()) >> 1


class Sites:

    def __init__(self, core, rng, big=0):
        self.core, self.rng = core, rng
        # number of elements of large computations
        self.big = big
        self.np = np.random.default_rng(rng.randint(0, 2**31))
        self.grid = layer('grid')
        layer('interpolator')
        self.bi = layer('interpolator.bivariate').bivariate
        self.tri = layer('interpolator.trivariate').trivariate
        self.quad = layer('interpolator.quadrivariate').quadrivariate
        bicubic = layer('interpolator.bicubic')
        self.bicubic = bicubic.bicubic
        self.fill = layer('fill')
        self.rtree = layer('rtree')
        self.geodetic = layer('geodetic')

    def axes(self, dims, dates):
        x = self.core.Axis(np.arange(0, 360, 20.), is_circle=True)
        y = self.core.Axis(np.arange(-80., 81, 10))
        if self.rng.random() < 0.3:
            x = self.core.Axis(np.arange(0, 40, 2.))
        res = [x, y]
        if dims > 2:
            res.append(self.core.TemporalAxis(
                np.array(['2000-01-01'], 'M8[s]') + np.arange(6) * 86400)
                       if dates else self.core.Axis(np.arange(6.)))
        if dims > 3:
            res.append(self.core.Axis(np.arange(5.) * 2))
        return res

    def mesh(self, dims, dates=False, nan=0.0, dtype='float64'):
        axes = self.axes(dims, dates)
        shape = tuple(len(a) for a in axes)
        data = self.np.random(shape).astype(dtype)
        data[self.np.random(shape) < nan] = np.nan
        cls = {2: self.grid.Grid2D, 3: self.grid.Grid3D,
               4: self.grid.Grid4D}[dims]
        return cls(*axes, data), axes

    def inside(self, axis, n):
        if isinstance(axis, self.core.TemporalAxis):
            lo, hi = axis[0], axis[len(axis) - 1]
            span = (hi - lo).astype('i8')
            return lo + (self.np.random(n) * int(span)).astype('i8').astype(
                'm8[s]')
        lo, hi = axis.min_value(), axis.max_value()
        return lo + self.np.random(n) * (hi - lo)

    def interpolator(self, kind=None):
        """Interpolation of a grid; positions outside raise an error."""
        rng = self.rng
        dims = rng.choice([2, 2, 3, 4])
        windowed = rng.random() < 0.5
        if kind is not None:
            dims, windowed = kind % 3 + 2, kind >= 3
        dates = dims > 2 and rng.random() < 0.5
        mesh, axes = self.mesh(dims, dates, 0 if windowed else 0.1,
                               rng.choice(['float32', 'float64']))
        n = self.big or rng.choice([0, 1, 2, 3, 5, 8, 13, 40])
        pos = [self.inside(a, n) for a in axes]
        failing = []
        if n and not self.big and rng.random() < 0.6:
            failing = sorted(rng.sample(range(n), rng.randint(
                1, n if rng.random() < 0.3 else min(3, n))))
            for k in failing:
                pos[1][k] = 1000 + k
        if windowed:
            fn = self.bicubic
            kwargs = dict(boundary='sym', nx=2, ny=2, fitting_model=rng.choice(
                ['bicubic', 'c_spline', 'linear', 'akima']))
            if kwargs['fitting_model'] == 'akima':
                kwargs.update(nx=3, ny=3)
        else:
            fn = {2: self.bi, 3: self.tri, 4: self.quad}[dims]
            kwargs = dict(interpolator=rng.choice(
                ['bilinear', 'nearest', 'inverse_distance_weighting']))

        def who(message):
            for v in re.findall(r'\d+\.?\d*(?:e[+-]?\d+)?', message):
                if float(v) >= 1000 and float(v) - 1000 in failing:
                    return int(float(v) - 1000)
            return -1

        args = (mesh, *pos)

        def run(t):
            return fn(*args, **kwargs, bounds_error=True, num_threads=t)

        return f'{fn.__name__}{dims}', n, run, failing, who

    def cloud(self, kind=None):
        """Search of neighbours and interpolation of scattered points."""
        rng, geo = self.rng, self.rng.random() < 0.4
        if kind is not None:
            geo = kind < 4
        m, n = 60, self.big or rng.choice([0, 1, 2, 3, 7, 16])
        if geo:
            tree = self.geodetic.RTree()
            tree.packing(self.np.random(m) * 40, self.np.random(m) * 40,
                         self.np.random(m))
            pos = (self.np.random(n) * 40, self.np.random(n) * 40)
        else:
            ecef = rng.random() < 0.5
            tree = self.rtree.RTree(ecef=ecef)
            tree.packing(self.np.random((m, 3)) * 40, self.np.random(m))
            pos = (self.np.random((n, 3)) * 40, )
        name = rng.choice(['query', 'inverse_distance_weighting',
                           'radial_basis_function', 'window_function'] +
                          ([] if geo else ['universal_kriging', 'value']))
        if kind is not None:
            name = ['query', 'inverse_distance_weighting',
                    'radial_basis_function', 'window_function', 'value',
                    'universal_kriging'][kind % 4 if geo else kind - 4]
        kwargs = dict(k=rng.choice([4, 9]), within=rng.random() < 0.5)
        if name == 'value':
            obj, kwargs = tree._instance, dict(k=4)
        else:
            obj = tree
        if name == 'window_function':
            kwargs['radius'] = 2e6 if geo else 20.0

        def run(t):
            return getattr(obj, name)(*pos, **kwargs, num_threads=t)

        return f'{type(tree).__module__}.{name}', n, run, [], None

    def geometry(self, kind=None):
        rng, core = self.rng, self.core
        g = self.geodetic
        n = self.big or rng.choice([0, 1, 2, 3, 7, 16])
        lon, lat = self.np.random(n) * 30, self.np.random(n) * 30
        kind = rng.randrange(8) if kind is None else kind
        coords = core.geodetic.Coordinates(core.geodetic.Spheroid())
        other = core.geodetic.Coordinates(
            core.geodetic.Spheroid(6378000.0, 1 / 300))
        alt = self.np.random(n) * 1000
        if kind == 0:
            fn = lambda t: coords.lla_to_ecef(lon, lat, alt, num_threads=t)
        elif kind == 1:
            xyz = coords.lla_to_ecef(lon, lat, alt, num_threads=1)
            fn = lambda t: coords.ecef_to_lla(*xyz, num_threads=t)
        elif kind == 2:
            fn = lambda t: coords.transform(other, lon, lat, alt,
                                            num_threads=t)
        elif kind == 3:
            fn = lambda t: core.geodetic.coordinate_distances(
                lon, lat, lat, lon, strategy=rng_strategy, num_threads=t)
            rng_strategy = rng.choice(['andoyer', 'thomas', 'vincenty'])
        elif kind in (4, 5, 6):
            points = [g.Point(5, 5), g.Point(5, 20), g.Point(20, 22),
                      g.Point(25, 7), g.Point(5, 5)]
            geom = (g.Box(points[0], points[2]) if kind == 4 else
                    g.Polygon(points))
            if kind == 6:
                geom = g.MultiPolygon([geom])
            fn = lambda t: geom.covered_by(lon, lat, num_threads=t)
        else:
            line = core.geodetic.LineString(np.linspace(0, 30, 20),
                                            np.linspace(0, 25, 20))
            wgs = rng.choice([None, core.geodetic.Spheroid()])
            fn = lambda t: line.closest_point(lon, lat, wgs, num_threads=t)
        return f'geometry{kind}', n, fn, [], None

    def cells(self):
        rng, g = self.rng, self.geodetic
        geohash = self.core.geohash
        x, y = rng.randint(-170, 100), rng.randint(-80, 40)
        w = rng.choice([0.5, 5, 30])
        points = [g.Point(x, y), g.Point(x, y + w), g.Point(x + w, y + w),
                  g.Point(x + w, y), g.Point(x, y)]
        poly = g.Polygon(points)
        if rng.random() < 0.2:
            poly = g.Polygon([])
        geom = g.MultiPolygon([poly]) if rng.random() < 0.4 else poly
        p = 2 if w > 5 else 3
        return ('geohash', 0,
                lambda t: geohash.bounding_boxes(geom, p, num_threads=t), [],
                None)

    def gaps(self):
        rng = self.rng
        dtype = rng.choice(['float32', 'float64'])
        if rng.random() < 0.5:
            dims = rng.choice([2, 3, 4])
            mesh, _ = self.mesh(dims, dims > 2 and rng.random() < 0.5, 0.3,
                                dtype)
            kind = rng.choice(['undefined', 'defined', 'all'])
            n = rng.randint(1, 12)
            return (f'loess{dims}', 0, lambda t: self.fill.loess(
                mesh, n, n, kind, num_threads=t), [], None)
        axes = self.axes(2, False)
        n = rng.choice([2, 3, 8])
        axes[1] = self.core.Axis(np.arange(float(n)))
        data = self.np.random((len(axes[0]), n)).astype(dtype)
        data[self.np.random(data.shape) < 0.4] = np.nan
        guess = rng.choice(['zero', 'zonal_average'])
        return ('gauss_seidel', 0, lambda t: self.fill.gauss_seidel(
            self.grid.Grid2D(*axes, data.copy()), guess, num_threads=t,
            max_iteration=20), [], None)


def outcome(run, t, who):
    try:
        return {'st': 'ok', 'v': digest(run(t)), 'who': -1}
    except Exception as exc:  # pylint: disable=broad-except
        if isinstance(exc, ImportError) or 'not part of this build' in str(
                exc):
            raise
        name = type(exc).__name__
        return {'st': 'error', 'v': zlib.crc32(name.encode()) >> 1,
                'who': who(str(exc)) if who else -1}


def site(send, name, n, run, failing, who, threads):
    for k, t in enumerate([1] + threads):
        e = {'op': 'site', 'name': name, 't': t, 'n': n, 'failing': failing,
             'known': who is not None, 'first': k == 0}
        e['r' if k else 'r0'] = outcome(run, t, who)
        send(e)


def concurrent(sites, rng, send):
    """All the elements of a computation fail at the same time."""
    mesh, axes = sites.mesh(2)
    n = 8
    x, y = sites.inside(axes[0], n), np.full(n, 1000.) + np.arange(n)
    def who(message):
        return 0 if re.search(r'100\d', message) else -1
    for k in range(400):
        e = {'op': 'site', 'name': 'concurrent', 't': n, 'n': n,
             'failing': [0], 'known': True, 'first': k == 0}
        key = 'r' if k else 'r0'
        e[key] = outcome(lambda t: sites.bi(
            mesh, x, y, bounds_error=True, num_threads=t), n, who)
        if k in (0, 399) or e[key]['who'] != 0:
            send(e)


def exhausted(sites, send):
    """No memory left for the windows of the filter."""
    mesh, _ = sites.mesh(2, nan=0.2)
    # (the size of the window is 2 * nx + 1)
    for t in (1, 2):
        e = {'op': 'site', 'name': 'exhausted', 't': t, 'n': 0, 'failing': [0],
             'known': True, 'first': t == 1}
        e['r0' if t == 1 else 'r'] = outcome(lambda t: sites.fill.loess(mesh, 2**30, 1,
                                                    num_threads=t), t,
                         lambda message: 0)
        send(e)


def drive(core, rng, tier, rec):
    deep = tier == 'thorough'
    dispatch(core, rng, tier, rec)
    sites = Sites(core, rng)
    kinds = [sites.interpolator] * 5 + [sites.cloud] * 4 + [
        sites.geometry] * 3 + [sites.cells] * 2 + [sites.gaps] * 3
    for _ in range(40 if deep else 6):
        todo = [kind() for kind in kinds]

        def run(send, todo=todo):
            for name, n, fn, failing, who in todo:
                threads = THREADS + [max(n, 1), n + 5]
                rng.shuffle(threads)
                site(send, name, n, fn, failing, who, threads[:5])

        replay(rec, run, 240)
    for _ in range(10 if deep else 3):
        todo = [kind() for kind in kinds]

        def starve(send, todo=todo):
            for name, n, fn, failing, who in todo:
                if name.startswith(('gauss', 'geohash', 'bivariate')):
                    site(send, name, n, fn, failing, who, [])
            few_threads()
            for name, n, fn, failing, who in todo:
                if name.startswith(('gauss', 'geohash', 'bivariate')):
                    site(send, name, n, fn, failing, who, [40])

        replay(rec, starve, 240)
        replay(rec, lambda send: concurrent(sites, rng, send), 60)

    # many elements, so that the threads run at the same time
    big = Sites(core, rng, 12000 if deep else 2500)
    todo = [big.interpolator(k) for k in range(6)]
    todo += [big.cloud(k) for k in range(10)]
    todo += [big.geometry(k) for k in range(8)]
    todo += [big.gaps() for _ in range(4)]
    rng.shuffle(todo)
    for k in range(0, len(todo), 4):

        def load(send, part=todo[k:k + 4]):
            for name, n, fn, failing, who in part:
                site(send, name, n, fn, failing, who, [8] * 5)

        replay(rec, load, 240)

    def memory(send):
        with open('/proc/self/statm', encoding='ascii') as stream:
            size = int(stream.read().split()[0]) * resource.getpagesize()
        resource.setrlimit(resource.RLIMIT_AS, (size + (1 << 30), ) * 2)
        exhausted(sites, send)

    child = Child(memory, 20)
    if child.end != 'hang':
        rec.session()
        for e in child.events:
            rec(e.pop('op'), **e)
