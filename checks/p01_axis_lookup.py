"""P01: nearest-node lookup."""
import numpy as np

from .axis_common import (AxisSession, circle_values, monotone, probes,
                          random_values, unambiguous)

UNITS = ['axis', 'enum']
MODELS = [('AxisMC', 'AxisMC')]
TRACE = 'AxisTrace'


def both(sess, v, C, rng, q):
    if sess.new(1, v, C):
        sess.find_index(1, q)
        sess.find_index(1, q, True)


def drive(core, rng, tier, rec):
    deep = tier == 'thorough'
    # 1. every small axis, both directions, every query around it
    maxv, maxn = (7, 5) if deep else (5, 4)
    for v in monotone(maxv, maxn):
        for w in {v, v[::-1]}:
            if len(w) > 1 and rng.random() < 0.5 and not deep:
                # alternate the numeric type on the small domain
                pass
            s = AxisSession(core, rec, scale=2)
            both(s, [4 * x for x in w], 0, rng,
                 range(-10, 4 * maxv + 11))
            if len(w) > 1 or True:
                s = AxisSession(core, rec, kind='int',
                                base=rng.choice([0, 10**9, -10**12]))
                both(s, [4 * x for x in w], 0, rng,
                     range(-10, 4 * maxv + 11))
    # 2. angular axes: whole circles, arcs, wrapped longitudes
    period = 360 * 64
    for _ in range(400 if deep else 60):
        v = circle_values(rng, period)
        if rng.random() < 0.5:
            v = v[::-1]
        s = AxisSession(core, rec, scale=64)
        both(s, v, period, rng, probes(rng, v, period))
    for _ in range(150 if deep else 25):
        n = rng.randint(2, 10)
        v = random_values(rng, n, -180 * 64, rng.randint(-100, 170) * 64)
        if rng.random() < 0.5:
            v = v[::-1]
        s = AxisSession(core, rec, scale=64)
        both(s, v, period, rng, probes(rng, v, period))
    for _ in range(100 if deep else 20):
        # longitudes wrapped at 180 or 360
        v = circle_values(rng, period)
        edge = rng.choice([180 * 64, 360 * 64])
        w = [(x - edge) % period + edge - period for x in v]
        if rng.random() < 0.5:
            w = w[::-1]
        if not unambiguous(w, period):
            continue
        s = AxisSession(core, rec, scale=64)
        both(s, w, period, rng, probes(rng, w, period))
    # 3. long axes, uneven spacing, large magnitudes, temporal units
    for _ in range(120 if deep else 25):
        n = rng.randint(2, 60)
        v = random_values(rng, n, -200000, 200000)
        if rng.random() < 0.5:
            v = v[::-1]
        q = rng.sample(probes(rng, v, 0), min(80, 2 * n))
        kind = rng.choice(['float', 'int', 'temporal', 'delta'])
        if kind == 'float':
            s = AxisSession(core, rec, scale=rng.choice([1, 8, 1024]))
        elif kind == 'int':
            s = AxisSession(core, rec, kind='int',
                            base=rng.randint(-2**50, 2**50),
                            mult=rng.choice([1, 2, 1000]))
        else:
            unit = rng.choice(['D', 'h', 'm', 's', 'ms', 'us', 'ns'])
            base = {'D': 15000, 'h': 400000, 'm': 25000000, 's': 1600000000,
                    'ms': 1600000000000, 'us': 1600000000000000,
                    'ns': 1600000000000000000}[unit]
            t = 'datetime64' if kind == 'temporal' else 'timedelta64'
            s = AxisSession(core, rec, kind='temporal', base=base,
                            mult=1 if unit in 'Dhm' else 1000,
                            dtype=f'{t}[{unit}]')
        both(s, v, 0, rng, q)
    # 4. what is not monotonic is refused
    for _ in range(60 if deep else 15):
        n = rng.randint(2, 8)
        v = [rng.randint(0, 6) for _ in range(n)]
        s = AxisSession(core, rec, scale=2)
        both(s, v, 0, rng, range(-3, 10))
