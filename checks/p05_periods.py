"""P05: periods and period lists."""
import pickle

import numpy as np

from vf.trace import call

UNITS = ['period']
MODELS = [('PeriodMC', 'PeriodMC')]
GENERATE = ('PeriodGen', 'PeriodGen', 'PeriodGenDeep')
TRACE = 'PeriodTrace'
STATS = {}


class Codec:
    """Periods of one resolution relative to a base date, or raw integers."""

    def __init__(self, core, layer, unit, base):
        self.core, self.layer, self.unit, self.base = core, layer, unit, base

    def date(self, x):
        return (np.datetime64(self.base + x, self.unit)
                if self.unit else self.base + x)

    def dates(self, xs):
        a = np.array([self.base + x for x in xs], dtype='int64')
        return a.view(f'M8[{self.unit}]') if self.unit else a

    def back(self, d):
        v = int(d.astype(f'M8[{self.unit}]').astype('int64')) \
            if self.unit else int(d)
        v -= self.base
        return v if abs(v) < 10**9 else 10**9

    def period(self, p, within=True):
        last = p[1] if within else p[1] + 1
        cls = self.layer.Period if self.unit else self.core.Period
        return cls(self.date(p[0]), self.date(last), within)

    def per(self, o):
        return [self.back(o.begin), self.back(o.last)]

    def delta(self, x):
        return np.timedelta64(x, self.unit) if self.unit else x

    def num(self, d):
        if not self.unit:
            return int(d)
        return int(d.astype(f'm8[{self.unit}]').astype('int64'))

    def plist(self, v):
        if self.unit:
            a = np.array([[self.base + p[0] for p in v],
                          [self.base + p[1] for p in v]],
                         dtype='int64').view(f'M8[{self.unit}]')
            return self.layer.PeriodList(a)
        return self.core.PeriodList(
            np.rec.fromarrays(
                np.array([[self.base + p[0] for p in v],
                          [self.base + p[1] for p in v]], dtype='int64'),
                [('begin', np.int64), ('last', np.int64)]))

    def read(self, o):
        return [[self.back(x['begin']), self.back(x['last'])]
                for x in o.periods]


def pair(c, rec, p, q, wp, wq, op='pair', k=1, fine=None):
    a = c.period(p, wp)
    b = (fine or c).period(q, wq)
    r = dict(contains=a.contains(b), adjacent=a.is_adjacent(b),
             intersects=a.intersects(b), inter=c.per(a.intersection(b)),
             merge=c.per(a.merge(b)))
    if op == 'pair':
        r.update(eq=a == b, ne=a != b, lt=a < b)
        rec(op, p=p, q=q, r=r)
    else:
        rec(op, p=p, q=q, k=k, r=r)


def one(c, rec, p, within):
    a = c.period(p, within)
    if c.unit:
        a = pickle.loads(pickle.dumps(a))
    length = call(len, a)
    rec('one', p=p, r=dict(b=c.back(a.begin), last=c.back(a.last),
                           fin=c.back(a.end()), null=a.is_null(),
                           dur=c.num(a.duration()),
                           len=length[1] if length[0] == 'ok' else -9))


def points(c, rec, p, xs, fine=None, k=1):
    a = c.period(p)
    d = (fine or c)
    r = [[a.contains(d.date(x)), a.is_before(d.date(x)),
          a.is_after(d.date(x))] for x in xs]
    rec('points', p=p, x=xs, k=k, r=[[bool(y) for y in z] for z in r])


def disjoint(rng, maxn, span):
    n = rng.randint(0, maxn)
    out, t = [], rng.randint(-5, 5)
    for _ in range(n):
        b = t + rng.choice([1, 1, 2, 3, rng.randint(1, span)])
        e = b + rng.choice([0, 0, 1, rng.randint(0, span)])
        out.append([b, e])
        t = e
    return out


def observe(c, rec, rng, s, o, vals):
    rec('read', s=s, r=c.read(o))
    cur = c.read(o)
    if c.unit:
        dur = [c.num(x) for x in o.duration()]
    else:
        dur = [b - a for a, b in cur]
    rec('shape', s=s, r=dict(
        len=len(o), sorted=o.are_periods_sorted_and_disjointed(), dur=dur))
    ends = [x + d for p in cur for x in p for d in (-1, 0, 1)]
    lo, hi = (min(ends), max(ends)) if ends else (-4, 4)
    xs = sorted(set(rng.sample(ends, min(len(ends), rng.randint(0, 9)))) |
                {rng.randint(lo - 3, hi + 3) for _ in range(rng.randint(0, 5))})
    if rng.random() < 0.3 and xs:
        xs = sorted(xs + [rng.choice(xs)])
    rec('belong', s=s, x=xs, r=[bool(v) for v in
                                o.belong_to_a_period(c.dates(xs))])
    rec('cross', s=s, x=xs, r=[bool(v) for v in
                               o.cross_a_period(c.dates(xs))])
    eps = rng.randint(0, 4)
    xs = [rng.randint(lo - 6, hi + 6) for _ in range(6)]
    if c.unit:
        r = [o.is_it_close(c.date(x), c.delta(eps)) for x in xs]
    else:
        r = [o.is_it_close(c.date(x), eps) for x in xs]
    rec('close', s=s, x=xs, eps=eps, r=[bool(v) for v in r])


def codec(core, layer, rng):
    unit = rng.choice([None, None, 'D', 'h', 'm', 's', 'ms', 'us', 'ns'])
    base = {None: rng.choice([0, -7, 2**40]), 'D': 15000, 'h': 3 * 10**5,
            'm': 2 * 10**7, 's': 10**9, 'ms': 10**12, 'us': 10**15,
            'ns': 10**18}[unit]
    if rng.random() < 0.3:
        base = -base
    return Codec(core, layer, unit, base)


STEP = {('D', 'h'): 24, ('h', 'm'): 60, ('m', 's'): 60, ('s', 'ms'): 1000,
        ('ms', 'us'): 1000, ('us', 'ns'): 1000}


def drive(core, rng, tier, rec):
    from vf import gen
    from vf.load import layer as load_layer
    lay = load_layer('period')
    deep = tier == 'thorough'
    # single periods, exhaustively over a small range
    top = 5 if deep else 4
    pers = [[b, e] for b in range(top + 1) for e in range(b, top + 1)]
    for c in (Codec(core, lay, None, 0), Codec(core, lay, 's', 10**9),
              Codec(core, lay, 'ns', -10**18)):
        rec.session()
        for p in pers:
            one(c, rec, p, rng.random() < 0.5)
            points(c, rec, p, list(range(-2, top + 3)))
            for q in pers:
                pair(c, rec, p, q, rng.random() < 0.5, rng.random() < 0.5)
        one(c, rec, [3, 2], True)
        points(c, rec, [3, 2], [1, 2, 3, 4])
    # long ones, mixed resolutions
    for _ in range(300 if deep else 60):
        rec.session()
        c = codec(core, lay, rng)
        p = sorted(rng.randint(-10**6, 10**6) for _ in range(2))
        for _ in range(4):
            q = sorted([rng.choice(p) + rng.randint(-2, 2),
                        rng.choice([rng.choice(p) + rng.randint(-2, 2),
                                    rng.randint(-10**6, 10**6)])])
            pair(c, rec, p, q, True, True)
        one(c, rec, p, False)
        points(c, rec, p, [x + d for x in p for d in (-1, 0, 1)])
    for _ in range(300 if deep else 60):
        rec.session()
        (u, f), k = rng.choice(sorted(STEP.items()))
        base = rng.choice([0, 10**4, -10**4])
        c = Codec(core, lay, u, base)
        fine = Codec(core, lay, f, base * k)
        p = sorted(rng.randint(-20, 20) for _ in range(2))
        xs = [(x + d) * k + e for x in p for d in (0, 1) for e in (-1, 0, 1)]
        points(c, rec, p, xs, fine, k)
        for _ in range(3):
            q = sorted(rng.choice(xs) + rng.randint(-2, 2) for _ in range(2))
            pair(c, rec, p, q, True, True, 'pairfine', k, fine)
    # lists: histories enumerated by TLC
    hist = gen.histories()
    STATS['histories_generated_by_tlc'] = len(hist)
    rng.shuffle(hist)
    for h in hist[:4000 if deep else 500]:
        c = codec(core, lay, rng)
        rec.session()
        objs = {}
        for s in (1, 2):
            v = disjoint(rng, 5, rng.choice([2, 6, 40]))
            objs[s] = c.plist(v)
            rec('new', s=s, v=v,
                r=objs[s].are_periods_sorted_and_disjointed())
        for ev in h:
            s, t, op = ev['s'], ev['t'], ev['op']
            cur = c.read(objs[s])
            lo = cur[0][0] if cur else 0
            hi = cur[-1][1] if cur else 8
            if op == 'merge':
                r = objs[s].merge(objs[t])
                rec('merge', s=s, t=t)
            elif op in ('join', 'joinip'):
                eps = rng.choice([0, 1, 1, 2, 3, 10])
                if c.unit:
                    r = objs[s].join_adjacent_periods(c.delta(eps),
                                                      inplace=op == 'joinip')
                else:
                    r = objs[s].join_adjacent_periods(eps)
                objs[t] = r
                rec('join', s=s, t=t, eps=eps)
            elif op in ('within', 'clip'):
                w = sorted([rng.randint(lo - 3, hi + 3) for _ in range(2)])
                win = c.period(w)
                if c.unit and rng.random() < 0.3:
                    # the window may be given in another resolution
                    for (u, f), k in STEP.items():
                        if u == c.unit:
                            win = Codec(core, lay, f, c.base * k).period(
                                [w[0] * k, w[1] * k])
                objs[t] = (objs[s].within(win) if op == 'within' else
                           objs[s].intersection(win))
                rec(op, s=s, t=t, w=w)
            elif op == 'filter':
                d = rng.randint(0, 6)
                objs[t] = objs[s].filter(c.delta(d))
                rec('filter', s=s, t=t, d=d)
            else:
                objs[t] = pickle.loads(pickle.dumps(objs[s]))
                rec('pickle', s=s, t=t)
            for k in (s, t):
                rec('read', s=k, r=c.read(objs[k]))
        for s in (1, 2):
            observe(c, rec, rng, s, objs[s], None)
    # unsorted lists: sort and the sortedness test; merge across resolutions
    for _ in range(200 if deep else 40):
        c = codec(core, lay, rng)
        rec.session()
        v = disjoint(rng, 6, 5)
        rng.shuffle(v)
        o = c.plist(v)
        rec('new', s=1, v=v, r=o.are_periods_sorted_and_disjointed())
        o.sort()
        rec('sort', s=1)
        observe(c, rec, rng, 1, o, None)
    for _ in range(200 if deep else 40):
        (u, f), k = rng.choice(sorted(STEP.items()))
        c = Codec(core, lay, f, 0)
        d = Codec(core, lay, u, 0)
        rec.session()
        a = disjoint(rng, 4, 3 * k)
        b = disjoint(rng, 4, 3)
        x, y = c.plist(a), d.plist(b)
        rec('new', s=1, v=a, r=x.are_periods_sorted_and_disjointed())
        rec('new', s=2, v=[[p[0] * k, p[1] * k] for p in b],
            r=y.are_periods_sorted_and_disjointed())
        x.merge(y)
        rec('merge', s=1, t=2)
        rec('read', s=1, r=c.read(x))
