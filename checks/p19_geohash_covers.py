"""P19: covers, zooms and groupings of geohash codes."""
from vf import load
from vf.trace import BAD, call, np

from .geohash_common import (ALPHABET, FULL, N, chars, lat_of, limbs, lon_of,
                             number, pick, place, text)
from .p18_geohash import modules

UNITS = ['geohash_int64', 'geohash_string', 'geohash', 'geodetic', 'rtree',
         'axis', 'enum']
MODELS = [('GeohashMC', 'GeohashMC', ('quick', )),
          ('GeohashMC', 'GeohashMCdeep', ('thorough', ))]
TRACE = 'GeohashTrace'
STATS = {}
DRIVE_TIMEOUT = 600
ASSUMPTIONS = [
    'boxes (not polygons) do not cross the date line; their corners are multiples of 2^-34 '
    'of the axes',
    'polygons are drawn along rows and columns of cells, at least a quarter '
    'of a cell away from their edges',
]


def shape(p):
    return (5 * p + 1) // 2, 5 * p // 2


def interval(rng, n, limit):
    """Two fractions at most limit cells apart."""
    r = rng.random()
    a = pick(rng)
    if r < 0.1:
        return a, a
    if r < 0.15:
        return FULL, FULL
    cell = FULL >> n
    if r < 0.5:
        # edges of cells, or next to
        a = a // cell * cell
        b = a + rng.randint(1, limit) * cell
        a += rng.choice([0, 0, 1, -1])
        b += rng.choice([0, 0, 1, -1])
    elif r < 0.7:
        b = FULL
        a = FULL - rng.randint(1, limit * cell)
    else:
        b = a + rng.randint(1, limit * cell)
    return max(0, min(a, FULL)), max(0, min(b, FULL))


def box(m, rng, rec):
    cls, strings, _, geodetic = m
    rec.session()
    p = rng.choice([1, 1, 2, 2, 3, 4, 5, 6, 8, 10, 12])
    n, k = shape(p)
    whole = p <= 2 and rng.random() < 0.15
    if whole:
        x0, x1, y0, y1 = 0, FULL, 0, FULL
    else:
        limit = rng.choice([1, 3, 8, 20])
        x0, x1 = interval(rng, n, min(limit, 1 << n))
        y0, y1 = interval(rng, k, min(limit, 1 << k))
    b = geodetic.Box(geodetic.Point(lon_of(x0), lat_of(y0)),
                     geodetic.Point(lon_of(x1), lat_of(y1)))
    named = limbs(x0) + limbs(y0) + limbs(x1) + limbs(y1)
    if whole and rng.random() < 0.5:
        b = rng.choice([None, geodetic.Box.whole_earth()])
    out = strings.bounding_boxes(b, precision=p) if p > 1 or \
        rng.random() < 0.5 else strings.bounding_boxes(b)
    rec('cover', p=p, box=named, r=[chars(c) for c in out])
    if b is not None:
        sw, nx, ny = cls.grid_properties(b, p)
        rec('props', p=p, box=named, 
            r={'sw': chars(str(sw)), 'nx': nx, 'ny': ny})
    g = cls.grid(b, p) if p > 1 or rng.random() < 0.5 else cls.grid(b)
    g = g['geohash']
    rec('grid', p=p, box=named, r={
        'rows': [[chars(c) for c in r] for r in g.values],
        'lon': [place(v, 0)[:2] for v in g.coords['lon'].values],
        'lat': [place(0, v)[2:] for v in g.coords['lat'].values]})


# drawings: rows of cells kept (#) or not; made of rectangles
SHAPES = [
    # parts, ring (corners, clockwise), holes
    ([(0, 0, 2, 2)], [(0, 0), (0, 2), (2, 2), (2, 0)], []),
    # an L
    ([(0, 0, 3, 1), (0, 0, 1, 4)],
     [(0, 0), (0, 4), (1, 4), (1, 1), (3, 1), (3, 0)], []),
    # a U
    ([(0, 0, 6, 1), (0, 0, 1, 4), (5, 0, 6, 4)],
     [(0, 0), (0, 4), (1, 4), (1, 1), (5, 1), (5, 4), (6, 4), (6, 0)], []),
    # a frame
    ([(0, 0, 5, 5)], [(0, 0), (0, 5), (5, 5), (5, 0)], [(1, 1, 4, 4)]),
]


def draw(rng, geodetic, p, x0, y0):
    """A polygon whose south-west cell is (x0, y0)."""
    n, k = shape(p)
    parts, ring, holes = rng.choice(SHAPES)
    inset = rng.choice([0.25, 0.375])
    # beyond the date line
    wrap = rng.random() < 0.5

    def at(x, y, dx, dy):
        fx = (x0 + x + dx) * (FULL >> n)
        fy = (y0 + y + dy) * (FULL >> k)
        lon = lon_of(int(fx))
        if wrap and lon >= 180:
            lon -= 360
        return geodetic.Point(lon, lat_of(int(fy)))

    outer = [at(x, y, 0.5, 0.5) for x, y in ring]
    inner = []
    missing = []
    for x1, y1, x2, y2 in holes:
        # the ring of the hole goes through the first and last of its cells
        a, b = inset, 1 - inset
        inner.append([at(*q) for q in
                      [(x1, y1, a, a), (x2, y1, b, a), (x2, y2, b, b),
                       (x1, y2, a, b), (x1, y1, a, a)]])
        missing.append([x0 + x1 + 1, y0 + y1 + 1, x0 + x2 - 1, y0 + y2 - 1])
    outer.append(outer[0])
    parts = [[x0 + a, y0 + b, x0 + c, y0 + d] for a, b, c, d in parts]
    return geodetic.Polygon(outer, inner or None), parts, missing


def polygon(m, rng, rec):
    _, strings, _, geodetic = m
    rec.session()
    p = rng.choice([2, 3, 3, 4, 5, 6, 7])
    n, k = shape(p)
    several = rng.random() < 0.4
    polys, parts, holes = [], [], []
    # towards the poles edges, which are geodesics, are far from parallels
    x = rng.randint(1, max(1, (1 << n) - 30))
    y = (1 << k) // 2 + rng.randint(-(1 << k) // 5, (1 << k) // 5)
    y = max(1, min(y, (1 << k) - 14))
    if p > 2 and rng.random() < 0.3:
        x = (1 << n) - rng.randint(1, 20)
    for i in range(rng.randint(1, 3) if several else 1):
        q, a, h = draw(rng, geodetic, p, x + 8 * i,
                       y + rng.choice([0, 2, 5]) * (i > 0))
        polys.append(q)
        parts += a
        holes += h
    g = geodetic.MultiPolygon(polys) if several else polys[0]
    threads = rng.choice([None, 0, 1, 1, 2, 3, 8])
    if p == 2:
        return
    out = strings.bounding_boxes(g, precision=p) if threads is None else \
        strings.bounding_boxes(g, precision=p, num_threads=threads)
    rec('polygon', p=p, parts=parts, holes=holes, threads=threads or 0,
        r=[chars(c) for c in out])


def zoom(m, rng, rec):
    strings = m[1]
    rec.session()
    n = rng.randint(1, 12)
    p = rng.choice([n, n + 1, n + 1, n + 2, max(1, n - 1), 1,
                    rng.randint(1, n)])
    p = min(p, 12)
    size = rng.choice([0, 1, 2, 3]) if p > n else rng.choice([0, 1, 3, 12])
    if p == n + 2:
        size = min(1, size)
    ts = []
    for _ in range(size):
        t = text(rng, n)
        if ts and rng.random() < 0.4:
            t = rng.choice(ts)
            cut = rng.randint(1, n)
            t = t[:cut] + text(rng, n)[cut:]
        ts.append(t)
    a = np.array([t.encode() for t in ts], dtype=f'S{n}')
    out = strings.transform(a, p) if p > 1 or rng.random() < 0.5 else \
        strings.transform(a)
    if not ts and p != n:
        # nothing tells the precision of no code
        rec('zoom', codes=[], p=p, r=[chars(c) for c in out])
    else:
        rec('zoom', codes=[chars(t) for t in ts], p=p,
            r=[chars(c) for c in out])


def where(m, rng, rec):
    strings = m[1]
    rec.session()
    rows, cols = rng.randint(1, 7), rng.randint(1, 7)
    n = rng.randint(1, 12)
    pool = [text(rng, n if rng.random() < 0.8 else rng.randint(1, n))
            for _ in range(rng.choice([1, 2, 4, 8]))]
    table = [[rng.choice(pool) for _ in range(cols)] for _ in range(rows)]
    if rng.random() < 0.5:
        # patches
        k, j = rng.randint(1, 3), rng.randint(1, 3)
        table = [[table[(i // k) % rows][(c // j) % cols]
                  for c in range(cols)] for i in range(rows)]
    a = np.array([[t.encode() for t in r] for r in table], dtype=f'S{n}')
    out = strings.where(a)
    rec('where', table=[[chars(t) for t in r] for r in table],
        r=[{'key': chars(c.rstrip(b'\0')),
              'box': [v[0][0], v[0][1], v[1][0], v[1][1]]}
             for c, v in out.items()])


def raster(m, rng, rec):
    strings = m[1]
    rec.session()
    p = rng.choice([1, 1, 2, 2, 3])
    size = rng.choice([0, 1, 5, 12])
    ts = sorted({text(rng, p) for _ in range(size)})
    rng.shuffle(ts)
    data = [rng.randint(1, 1000) for _ in ts]
    dtype = rng.choice(['float64', 'float32', 'int64', 'int16', 'object'])
    r = strings.to_xarray(np.array([t.encode() for t in ts],
                                   dtype=f'S{p}'), np.array(data, dtype))
    v = r.values
    put = [[int(i), int(j), int(v[i, j])] +
           [place(0, r.coords['lat'].values[i])[2:],
            place(r.coords['lon'].values[j], 0)[:2]]
           for i in range(v.shape[0]) for j in range(v.shape[1])
           if v[i, j] is not None and v[i, j] != 0]
    rec('raster', p=p, codes=[chars(t) for t in ts], data=data,
        
        r={'nx': v.shape[1], 'ny': v.shape[0], 'set': put})
    rec('refuse', kind='other', n=20, r=call(
        strings.to_xarray, np.array([b'0', b'1']), np.zeros(3))[0] == 'ok')
    rec('refuse', kind='other', n=21, r=call(
        strings.to_xarray, np.array(['0', '1']), np.zeros(2))[0] == 'ok')


def refusals(m, rng, rec):
    """A code too short has no cell of a given precision."""
    strings = m[1]
    rec.session()
    n = rng.randint(2, 6)
    ts = [text(rng, n) for _ in range(3)]
    ts[rng.randrange(3)] = text(rng, rng.randint(1, n - 1))
    least = min(map(len, ts))
    a = np.array([t.encode() for t in ts], dtype=f'S{n}')
    p = rng.randint(least + 1, n + 1)
    if p != n:
        rec('refuse', kind='other', n=30,
            r=call(strings.transform, a, p)[0] == 'ok')
    b = a.copy()
    b[:] = [text(rng, n).encode() for _ in range(3)]
    b[1] = b'a' + b[1][1:]
    for p in (n - 1, n + 1):
        rec('refuse', kind='other', n=31,
            r=call(strings.transform, b, p)[0] == 'ok')


def drive(core, rng, tier, rec):
    deep = tier == 'thorough'
    m = modules(core)
    for fn, n in ((box, 350), (polygon, 250), (zoom, 250), (where, 250),
                  (raster, 60), (refusals, 40)):
        for _ in range(6 * n if deep else n):
            fn(m, rng, rec)
