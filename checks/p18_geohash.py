"""P18: geohash codes."""
import copy
import math
import pickle

from vf import gen, load
from vf.trace import BAD, call, fx, np

from .geohash_common import (ALPHABET, FULL, chars, digits, lat_of, limbs,
                             lon_of, number, pick, pick_lat, place, text)
from .stats_common import layout

UNITS = ['geohash_int64', 'geohash_string', 'geohash', 'geodetic', 'rtree',
         'enum']
MODELS = [('GeohashMC', 'GeohashMC', ('quick', )),
          ('GeohashMC', 'GeohashMCdeep', ('thorough', ))]
GENERATE = ('GeohashGen', 'GeohashGen', 'GeohashGenDeep')
TRACE = 'GeohashTrace'
STATS = {}
DRIVE_TIMEOUT = 600
ASSUMPTIONS = [
    'positions are multiples of 2^-34 of the axes, longitudes up to three '
    'turns away; latitudes out of [-90, 90] are not explored',
    'the encoder for processors without BMI2 is not exercised',
]


def points(rng, n):
    return [(pick(rng), pick_lat(rng), rng.choice([0, 0, 0, 0, 1, -1, 2, -3]))
            for _ in range(n)]


def coordinates(pts):
    return (np.array([lon_of(x, t) for x, _, t in pts], dtype='float64'),
            np.array([lat_of(y) for _, y, _ in pts], dtype='float64'))


def recorded(pts):
    return [limbs(x) + limbs(y) for x, y, _ in pts]


def codes(rng, p, n):
    res = []
    for _ in range(n):
        r = rng.random()
        b = [rng.randint(0, 1) for _ in range(p)]
        if r < 0.3:
            x = rng.choice([None, 0, 1])
            y = rng.choice([0, 1]) if x is None else rng.choice([None, 0, 1])
            b = [b[i] if (x if i % 2 == 0 else y) is None else
                 (x if i % 2 == 0 else y) for i in range(p)]
        res.append(b)
    return res


def arrays(m, rng, rec):
    _, strings, ints, _ = m
    rec.session()
    n = rng.choice([0, 1, 3, 8])
    pts = points(rng, n)
    lon, lat = coordinates(pts)
    for form in ('int', 'text'):
        p = rng.choice([rng.randint(1, 64), 64, 1, 2, 63]) if form == 'int' \
            else rng.randint(1, 12)
        if form == 'int':
            out = ints.encode(layout(rng, lon), layout(rng, lat), p) \
                if p != 64 or rng.random() < 0.5 else ints.encode(lon, lat)
            rec('enc', form=form, p=p, pts=recorded(pts),
                r=[digits(c, p) for c in out])
        else:
            out = strings.encode(layout(rng, lon), layout(rng, lat), p) \
                if p != 12 or rng.random() < 0.5 else \
                strings.encode(lon, lat)
            rec('enc', form=form, p=5 * p, pts=recorded(pts),
                r=[chars(c) for c in out])
    # decoding
    rnd = rng.random() < 0.5
    p = rng.choice([rng.randint(1, 64), 64, 1, 2, 63])
    cs = codes(rng, p, n)
    a = np.array([number(c) for c in cs], dtype='uint64')
    x, y = ints.decode(layout(rng, a), p, rnd)
    rec('dec', form='int', round=rnd, codes=cs,
        r=[place(u, v, rnd) for u, v in zip(x, y)])
    size = rng.randint(1, 12)
    ts = [text(rng, size if rng.random() < 0.7 else rng.randint(1, size))
          for _ in range(n)]
    x, y = strings.decode(np.array([t.encode() for t in ts],
                                   dtype=f'S{size}'), rnd)
    rec('dec', form='text', round=rnd, codes=[chars(t) for t in ts],
        r=[place(u, v, rnd) for u, v in zip(x, y)])
    # neighbours
    for c in codes(rng, p, 2):
        out = ints.neighbors(number(c), p) if p != 64 or \
            rng.random() < 0.5 else ints.neighbors(number(c))
        rec('nbr', form='int', code=c, r=[digits(k, p) for k in out])


def cells(m, rng, rec):
    cls = m[0]
    rec.session()
    for n in [rng.randint(1, 12), rng.choice([1, 12])]:
        t = text(rng, n)
        o = cls.from_string(t, rng.random() < 0.5) if rng.random() < 0.7 \
            else cls.from_string(t)
        b, c = o.bounding_box(), o.center()
        rec('box', code=chars(str(o)),
            r={'sw': place(b.min_corner.lon, b.min_corner.lat),
               'ne': place(b.max_corner.lon, b.max_corner.lat),
               'centre': place(c.lon, c.lat), 'bits': o.number_of_bits(),
               'chars': o.precision()})
        rec('nbr', form='text', code=chars(str(o)),
            r=[chars(str(k)) for k in o.neighbors()])
        x, y = cls.error_with_precision(n)
        rec('err', p=n, r=[power(360 / x), power(180 / y)])


def power(x):
    n = round(math.log2(x))
    return n if 2.0**n == x else BAD


def steps(cls, t):
    """Ways to have the same object again."""
    return [lambda o: copy.copy(o), lambda o: copy.deepcopy(o),
            lambda o: pickle.loads(pickle.dumps(o)),
            lambda o: cls.from_string(str(o)),
            lambda o: cls.from_string(str(o), True),
            lambda o: eval(repr(o), {'GeoHash': cls})]


def walk(m, rng, rec, history):
    cls = m[0]
    rec.session()
    p = rng.choice([1, 2, 3, rng.randint(4, 11), 11])
    ((x, y, t), ) = points(rng, 1)
    if rng.random() < 0.5:
        # by the pole or the date line
        n = rng.choice([1, 3, 5, 12, 25])
        x = rng.choice([x, 0, FULL - 1, FULL >> n])
        y = rng.choice([0, FULL, FULL >> n, FULL - (FULL >> n), y])
    o = cls(lon_of(x, t), lat_of(y), p)
    rec('new', pt=limbs(x) + limbs(y), p=p, r=chars(str(o)))
    for h in history:
        s = str(o)
        if h['op'] == 'walk':
            o = o.neighbors()[h['k'] - 1]
            o = cls.from_string(str(o))
            rec('walk', k=h['k'], r=chars(str(o)))
        elif h['op'] == 'out' and len(s) > 1:
            o = cls.from_string(s[:-1], rng.random() < 0.5)
            rec('out', r=chars(str(o)))
        elif h['op'] == 'in' and len(s) < 12:
            k = rng.choice(ALPHABET)
            o = cls.from_string(s + k, rng.random() < 0.5)
            rec('in', char=k, r=chars(str(o)))
        elif h['op'] == 'copy':
            o = rng.choice(steps(cls, s))(o)
            rec('copy', r=chars(str(o)))


def refusals(m, rng, rec):
    cls, strings, ints, geodetic = m
    rec.session()
    one = np.zeros(1)
    for p in rng.sample([0, 65, 128, 1, 64, 13, 63, 40], 4):
        f = rng.choice([
            lambda: ints.encode(one, one, p),
            lambda: ints.decode(np.zeros(1, 'uint64'), p),
            lambda: ints.neighbors(0, p)])
        rec('refuse', kind='bits', p=p, r=call(f)[0] == 'ok')
    box = geodetic.Box(geodetic.Point(0, 0), geodetic.Point(0, 0))
    ring = geodetic.Polygon([geodetic.Point(*q) for q in
                             [(0, 0), (0, 1e-9), (1e-9, 0), (0, 0)]])
    for p in rng.sample([0, 13, 64, 1, 12, 2], 5):
        f = rng.choice([
            lambda: strings.encode(one, one, p),
            lambda: strings.bounding_boxes(box, precision=p),
            lambda: strings.bounding_boxes(ring, precision=p),
            lambda: strings.transform(np.array([b'0'], 'S1')[:0], p),
            lambda: cls(0, 0, p),
            lambda: cls.error_with_precision(p),
            lambda: cls.grid_properties(box, p)])
        rec('refuse', kind='chars', p=p, r=call(f)[0] == 'ok')
    for _ in range(4):
        t = list(text(rng, rng.choice([1, 5, 11, 12, 13])))
        if rng.random() < 0.6:
            t[rng.randrange(len(t))] = rng.choice(
                'ailoABCXYZ .-_/\\{~@`\x00\x7f\xe9\xff')
        elif rng.random() < 0.2:
            t = []
        s = ''.join(t)
        named = [c if c in ALPHABET else 'bad' for c in t]
        if not any(ord(c) > 127 for c in s):
            rec('refuse', kind='text', text=named,
                r=call(cls.from_string, s, rng.random() < 0.5)[0] == 'ok')
        b = s.encode('latin-1')
        if b and b'\0' not in b:
            good = text(rng, 3).encode()
            a = np.array(rng.choice([[b], [good, b]]))
            f = rng.choice([strings.decode, strings.area])
            rec('refuse', kind='texts', r=call(f, a)[0] == 'ok',
                texts=[named if x == b else chars(x) for x in a.tolist()])
    # other arrays
    t = np.array([text(rng, 3).encode() for _ in range(4)])
    bad = [lambda: strings.decode(t.reshape(2, 2)),
           lambda: strings.decode(t.astype('U3')),
           lambda: strings.decode(np.zeros(3)),
           lambda: strings.where(t),
           lambda: strings.where(t.astype('U3').reshape(2, 2)),
           lambda: strings.area(t.reshape(2, 2)),
           lambda: strings.area(np.zeros(3, 'int64')),
           lambda: strings.transform(t.reshape(2, 2), 1),
           lambda: strings.encode(np.zeros(2), np.zeros(3), 4),
           lambda: strings.encode(np.zeros(3), np.zeros(2), 4),
           lambda: ints.encode(np.zeros(2), np.zeros(3), 4)]
    for k in rng.sample(range(len(bad)), 3):
        rec('refuse', kind='other', n=k, r=call(bad[k])[0] == 'ok')


def areas(m, rng, rec):
    cls, strings, _, geodetic = m
    rec.session()
    # the world
    wgs, total = rng.choice([
        (None, 510065622), (geodetic.Spheroid(), 510065622),
        (geodetic.Spheroid((6371000.0, 0.0)), 510064472)])
    p = rng.choice([1, 2])
    x = np.unique(np.array([lon_of(k * (FULL >> (5 * p + 1) // 2))
                            for k in range(1 << (5 * p + 1) // 2)]))
    rows = []
    for k in range(1 << 5 * p // 2):
        y = np.full(x.shape, lat_of(k * (FULL >> 5 * p // 2)))
        t = strings.encode(x, y, p)
        if rng.random() < 0.5:
            a = strings.area(t, wgs) if wgs or rng.random() < 0.5 else \
                strings.area(t)
        else:
            a = [cls.from_string(c.decode()).area(wgs) for c in t]
        rows.append([fx(v / 1e6) for v in a])
    rec('world', r=rows, total=total)
    # small cells of a sphere
    p = rng.randint(4, 5)
    n, k = (5 * p + 1) // 2, 5 * p // 2
    r = rng.choice([1.0, 6371000.0])
    unit = r * r * (2 * math.pi / (1 << n)) * (math.pi / (1 << k)) / 30000
    ts = [text(rng, p) for _ in range(12)]
    a = strings.area(np.array([t.encode() for t in ts]),
                     geodetic.Spheroid((r, 0.0)))
    rec('area', codes=[chars(t) for t in ts], r=[fx(v / unit) for v in a])


def modules(core):
    return (load.layer('_geohash').GeoHash, load.layer('geohash'),
            load.layer('geohash').int64, load.layer('geodetic'))


def drive(core, rng, tier, rec):
    deep = tier == 'thorough'
    m = modules(core)
    hist = gen.histories()
    STATS['histories_generated_by_tlc'] = len(hist)
    for h in hist:
        walk(m, rng, rec, h)
    for _ in range(2500 if deep else 400):
        arrays(m, rng, rec)
    for _ in range(1500 if deep else 300):
        cells(m, rng, rec)
    for _ in range(600 if deep else 100):
        refusals(m, rng, rec)
    for _ in range(80 if deep else 12):
        areas(m, rng, rec)
