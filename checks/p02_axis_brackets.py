"""P02: bracketing pairs and index windows."""
from .axis_common import (AxisSession, circle_values, monotone, probes,
                          random_values, unambiguous)

UNITS = ['axis', 'enum', 'vf_axis']
MODELS = [('AxisMC', 'AxisMC')]
TRACE = 'AxisTrace'
MODES = ('expand', 'wrap', 'sym', 'undef')


def window(core, rec, sess, v, circle, q, size, mode):
    import numpy as np
    w = core.vf_axis_window(np.array(sess.enc(v)), bool(circle),
                            float(sess.enc([q])[0]), size,
                            getattr(core, 'vf_' + mode))
    rec('window', s=1, q=q, size=size, mode=mode, r=list(w))


def drive(core, rng, tier, rec):
    deep = tier == 'thorough'
    maxv, maxn = (7, 5) if deep else (5, 4)
    for v in monotone(maxv, maxn):
        for w in {v, v[::-1]}:
            kind = rng.choice(['float', 'int'])
            s = AxisSession(core, rec, scale=4, kind=kind)
            if s.new(1, [4 * x for x in w]):
                s.find_indexes(1, range(-10, 4 * maxv + 11))
    period = 360 * 64
    for _ in range(400 if deep else 80):
        v = circle_values(rng, period)
        if rng.random() < 0.5:
            v = v[::-1]
        s = AxisSession(core, rec, scale=64)
        if s.new(1, v, period):
            s.find_indexes(1, probes(rng, v, period))
    for _ in range(100 if deep else 20):
        v = circle_values(rng, period)
        edge = rng.choice([180 * 64, 360 * 64])
        w = [(x - edge) % period + edge - period for x in v]
        if rng.random() < 0.5:
            w = w[::-1]
        if not unambiguous(w, period):
            continue
        s = AxisSession(core, rec, scale=64)
        if s.new(1, w, period):
            s.find_indexes(1, probes(rng, w, period))
    for _ in range(200 if deep else 30):
        n = rng.randint(2, 40)
        v = random_values(rng, n, -170 * 64, 170 * 64)
        if rng.random() < 0.5:
            v = v[::-1]
        s = AxisSession(core, rec, scale=64)
        if s.new(1, v, rng.choice([0, period])):
            s.find_indexes(1, rng.sample(probes(rng, v, period),
                                         min(60, 2 * n)))
    for _ in range(100 if deep else 20):
        n = rng.randint(2, 30)
        v = random_values(rng, n, -20000, 20000)
        if rng.random() < 0.5:
            v = v[::-1]
        s = AxisSession(core, rec, kind='temporal', base=1600000000 * 10**9,
                        mult=1000, dtype=rng.choice(
                            ['datetime64[ns]', 'timedelta64[ns]']))
        if s.new(1, v):
            s.find_indexes(1, probes(rng, v, 0))
    # windows on ascending axes
    for _ in range(400 if deep else 90):
        circle = rng.random() < 0.4
        if circle:
            v = circle_values(rng, period)
        else:
            v = random_values(rng, rng.randint(2, 9), -170 * 64, 170 * 64)
        n = len(v)
        s = AxisSession(core, rec, scale=64)
        if not s.new(1, v, period if circle else 0):
            continue
        for q in rng.sample(probes(rng, v, period if circle else 0), 6):
            for mode in MODES:
                for size in rng.sample(range(1, 3 * n + 2), 2):
                    window(core, rec, s, v, circle, q, size, mode)
