"""P03: construction, views, flips, copies, pickles and equality of axes."""
from .axis_common import (AxisSession, circle_values, probes, random_values,
                          unambiguous)

UNITS = ['axis', 'enum']
MODELS = [('AxisMC', 'AxisMCobj')]
GENERATE = ('AxisGen', 'AxisGen')
TRACE = 'AxisTrace'
STATS = {}


def axis_values(rng, period):
    k = rng.random()
    if k < 0.4:
        v, C = circle_values(rng, period), period
    elif k < 0.7:
        v = random_values(rng, rng.randint(1, 9), -170 * 64, 170 * 64)
        C = period
    else:
        v = random_values(rng, rng.randint(1, 9), -170 * 64, 170 * 64)
        C = 0
    if rng.random() < 0.5:
        v = v[::-1]
    if C and rng.random() < 0.2 and len(v) > 2:
        edge = rng.choice([180 * 64, 360 * 64])
        w = [(x - edge) % period + edge - period for x in v]
        if unambiguous(w, period):
            v = w
    return v, C


def observe(s, slot, rng, v, C):
    s.describe(slot)
    q = probes(rng, v, C)
    s.find_index(slot, rng.sample(q, min(12, len(q))), rng.random() < 0.5)
    s.find_indexes(slot, rng.sample(q, min(12, len(q))))
    n = len(s.obj[slot])
    start = rng.choice([None] + list(range(-n - 1, n + 2)))
    stop = rng.choice([None] + list(range(-n - 1, n + 2)))
    step = rng.choice([None, 1, 2, 3, -1, -2])
    s.slice(slot, slice(start, stop, step))


def drive(core, rng, tier, rec):
    from vf import gen
    deep = tier == 'thorough'
    period = 360 * 64
    # histories generated by TLC from the specification
    histories = gen.histories()
    STATS['histories_generated_by_tlc'] = len(histories)
    rng.shuffle(histories)
    for h in histories[:3000 if deep else 400]:
        kind = rng.choice(['float', 'float', 'int', 'temporal'])
        if kind == 'temporal':
            s = AxisSession(core, rec, kind=kind, base=15 * 10**17,
                            mult=10**6, dtype='datetime64[ns]')
        else:
            s = AxisSession(core, rec, scale=64, kind=kind)
        vals = {}
        for ev in h:
            if ev['op'] == 'new':
                vals[ev['s']] = axis_values(rng, period)
                if kind != 'float':
                    v = random_values(rng, rng.randint(1, 7), -9999, 9999)
                    vals[ev['s']] = (v[::rng.choice((1, -1))], 0)
                if not s.new(ev['s'], *vals[ev['s']]):
                    break
            elif ev['op'] == 'flip':
                s.flip(ev['s'])
            elif ev['op'] == 'flipcopy':
                s.flipcopy(ev['s'], ev['t'])
                vals[ev['t']] = vals[ev['s']]
            else:
                s.dup(ev['s'], ev['t'], ev['op'])
                vals[ev['t']] = vals[ev['s']]
        else:
            slots = sorted(vals)
            for slot in slots:
                observe(s, slot, rng, *vals[slot])
            for a in slots:
                for b in slots:
                    s.eq(a, b)
    # construction
    for _ in range(300 if deep else 60):
        n = rng.randint(1, 8)
        v = [rng.randint(0, 9) for _ in range(n)]
        s = AxisSession(core, rec, scale=2, kind=rng.choice(['float', 'int']))
        if s.new(1, v, 0):
            s.describe(1)
    for _ in range(200 if deep else 40):
        s = AxisSession(core, rec, scale=64)
        a, ca = axis_values(rng, period)
        b, cb = (list(a), ca) if rng.random() < 0.3 else axis_values(rng,
                                                                     period)
        if rng.random() < 0.5 and len(a) > 2:
            b = list(a)
            b[rng.randrange(len(b))] += 1
            cb = ca
        k = rng.random()
        if k < 0.15 and len(a) > 3:
            b, cb = a[:rng.randint(2, len(a) - 1)], ca
        elif k < 0.3 and len(a) > 3:
            b, cb = a[rng.randint(1, len(a) - 2):], ca
        elif k < 0.4:
            a = list(range(64, 64 * rng.randint(4, 9), 64))
            b, ca, cb = a[:rng.randint(2, len(a))], 0, 0
        elif k < 0.45:
            b, cb = list(a), 0
        if s.new(1, a, ca) and s.new(2, b, cb):
            s.describe(1)
            s.describe(2)
            s.eq(1, 2)
            s.eq(2, 1)
