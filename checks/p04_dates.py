"""P04: calendar fields of datetime64 values."""
import warnings

import numpy as np

from vf.trace import call

UNITS = ['axis', 'dateutils']
MODELS = [('DateTimeMC', 'DateTimeMC'),
          ('DateTimeMC', 'DateTimeMCfull', ('thorough', ))]
TRACE = 'DateTimeTrace'
STATS = {}
ASSUMPTIONS = ['numpy converts integers to datetime64 of the same unit '
               'without change (it is used to build the inputs)']
ALL = ['Y', 'M', 'W', 'D', 'h', 'm', 's', 'ms', 'us', 'ns', 'ps', 'fs', 'as']
SUB = ALL[6:]
MIN_DAY, MAX_DAY = -719162, 2932896  # 0001-01-01, 9999-12-31
PER_SECOND = {u: 10**(3 * i) for i, u in enumerate(SUB)}


def split(v, unit):
    """int64 of a unit -> [day, sec, hi, lo] (exact)."""
    v = int(v)
    n = PER_SECOND[unit]
    day, rest = divmod(v, 86400 * n)
    sec, frac = divmod(rest, n)
    atto = frac * (10**18 // n)
    return [day, sec, *divmod(atto, 10**9)]


def instant(v, unit):
    """Same, from any unit; calendar units by numpy's own definition."""
    if unit in PER_SECOND:
        return split(v, unit)
    step = {'W': 7 * 86400, 'D': 86400, 'h': 3600, 'm': 60}
    if unit in step:
        day, sec = divmod(int(v) * step[unit], 86400)
        return [day, sec, 0, 0]
    months = int(v) * (12 if unit == 'Y' else 1)
    y, m = divmod(months, 12)
    y += 1970
    days = 365 * (y - 1) + (y - 1) // 4 - (y - 1) // 100 + (y - 1) // 400
    leap = y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
    lens = [31, 29 if leap else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
    return [days + sum(lens[:m]) - 719162, 0, 0, 0]


def span(unit, margin=2):
    """Days an int64 of this unit can hold, within years 1 to 9999."""
    if unit not in PER_SECOND:
        return MIN_DAY, MAX_DAY
    lim = (2**63 - 1) // (86400 * PER_SECOND[unit]) - margin
    return max(MIN_DAY, -lim), min(MAX_DAY, lim)


def jan1(y):
    return 365 * (y - 1) + (y - 1) // 4 - (y - 1) // 100 + (
        y - 1) // 400 - 719162


def pick_day(rng, lo, hi):
    if hi < lo:
        return 0
    for _ in range(20):
        k = rng.random()
        if k < 0.3:
            d = rng.randint(lo, hi)
        elif k < 0.5:
            d = rng.randint(max(lo, -40000), min(hi, 40000))
        elif k < 0.7:
            d = rng.randint(-8, 8)
        else:  # around year boundaries and the end of February
            y = rng.choice([rng.randint(1, 9999), rng.randint(1890, 2110),
                            rng.choice([1600, 1700, 1900, 2000, 2100, 2400,
                                        400, 1968, 1969, 1972])])
            d = jan1(y) + rng.choice([0, 58, 59, 60, 365]) + rng.randint(-4, 4)
        if lo <= d <= hi:
            return d
    return 0


def pick(rng, unit):
    lo, hi = span(unit)
    n = PER_SECOND[unit]
    sec = rng.choice([0, 1, 59, 60, 3599, 3600, 43200, 86399,
                      rng.randrange(86400)])
    frac = rng.choice([0, 1, n - 1, n // 2, rng.randrange(n),
                       rng.randrange(n)]) % n
    if hi < lo or hi < 1:  # attoseconds: some 9 seconds
        v = rng.choice([rng.randint(-9, 8) * n + frac,
                        -2**63 + 1 + frac, 2**63 - 1 - frac])
        return max(min(v, 2**63 - 1), -2**63 + 1)
    return (pick_day(rng, lo, hi) * 86400 + sec) * n + frac


def fields(core, rec, rng, unit, vals):
    du = core.dateutils
    count = len(vals)
    a = np.array(vals, dtype='int64')
    if rng.random() < 0.3:  # strided input
        b = np.zeros(2 * len(a), dtype='int64')
        b[::2] = a
        a = b[::2]
    a = a.view(f'M8[{unit}]')
    date, time = du.date(a), du.time(a)
    iso, wd, since = (du.isocalendar(a), du.weekday(a),
                      du.timedelta_since_january(a))
    dt = du.datetime(a)
    res = []
    for k in range(count):
        d = dt[k]
        s = split(since[k].astype('int64'), unit) \
            if since.dtype == np.dtype(f'm8[{unit}]') else [-1, 0, 0, 0]
        res.append(dict(
            date=[int(date[k][n]) for n in ('year', 'month', 'day')],
            time=[int(time[k][n]) for n in ('hour', 'minute', 'second')],
            weekday=int(wd[k]),
            iso=[int(iso[k][n]) for n in ('year', 'week', 'weekday')],
            since=s,
            dt=[d.year, d.month, d.day, d.hour, d.minute, d.second,
                d.microsecond]))
    rec('fields', u=unit, x=[split(v, unit) for v in vals], r=res)


def text(core, rec, rng, unit):
    if unit in PER_SECOND:
        v = pick(rng, unit)
    else:
        per = {'Y': 365.2425, 'M': 30.4369, 'W': 7, 'D': 1, 'h': 1 / 24,
               'm': 1 / 1440}[unit]
        v = int(pick_day(rng, MIN_DAY, MAX_DAY) / per)
        v += rng.randint(-3, 3) if abs(v) > 5 else 0
    x = instant(v, unit)
    if not -354285 <= x[0] <= MAX_DAY:  # years of four digits
        return
    rec('text', u=unit, x=x, r=core.dateutils.datetime64_to_str(
        v, f'datetime64[{unit}]'))


def cast(core, rec, rng):
    u = rng.choice(ALL)
    v = rng.choice(ALL)
    try:
        np.zeros(1, dtype=f'M8[{u}]').astype(f'M8[{v}]')
    except OverflowError:
        return  # numpy refuses this conversion factor
    su, sv = span(u), span(v)
    lo, hi = max(su[0], sv[0]), min(su[1], sv[1])
    if hi < 1:
        lo, hi = 0, 0
    vals, xs = [], []
    for _ in range(rng.randint(1, 6)):
        if u in PER_SECOND:
            n = PER_SECOND[u]
            if hi < 1:
                lim = (2**63 - 1) // max(n, PER_SECOND.get(v, 1)) - 1
                w = rng.randint(-min(lim, 86400), min(lim, 86400)) * n \
                    if lim > 0 else 0
                w += rng.choice([0, rng.randrange(n)]) if lim > 2 else 0
            else:
                w = (pick_day(rng, lo, hi - 1) * 86400 +
                     rng.randrange(86400)) * n + rng.randrange(n)
        else:
            per = {'Y': 366, 'M': 31, 'W': 7, 'D': 1, 'h': 1 / 24,
                   'm': 1 / 1440}[u]
            w = int(pick_day(rng, lo, hi) / per) if hi >= 1 else 0
        vals.append(w)
        xs.append(instant(w, u))
    axis = core.TemporalAxis(np.arange(3).astype(f'M8[{v}]'))
    a = np.array(vals, dtype='int64').view(f'M8[{u}]')
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        out = axis.safe_cast(a)
        warned = any(issubclass(k.category, UserWarning) for k in w)
    unit = np.datetime_data(out.dtype)[0] if out.dtype.kind == 'M' else '?'
    rec('cast', u=u, v=v, x=xs,
        r=dict(unit=unit, warned=warned,
               v=[instant(k, unit) for k in out.astype('int64')]
               if unit in ALL else []))


def drive(core, rng, tier, rec):
    deep = tier == 'thorough'
    warnings.simplefilter('ignore')
    for unit in SUB:
        for _ in range(400 if deep else 40):
            rec.session()
            n = rng.choice([1, 5, 25])
            fields(core, rec, rng, unit, [pick(rng, unit) for _ in range(n)])
    # exhaustive: every day of some years, hourly pattern
    for y in rng.sample(range(1, 9999), 12 if deep else 2) + [1969, 1970,
                                                              2000, 1900]:
        rec.session()
        days = np.arange(jan1(y) - 3, jan1(y) + 369)
        unit = rng.choice(['s', 'ms', 'us'])
        vals = [int(d * 86400 + rng.randrange(86400)) * PER_SECOND[unit]
                for d in days]
        for i in range(0, len(vals), 50):
            fields(core, rec, rng, unit, vals[i:i + 50])
    for unit in ALL:
        rec.session()
        for _ in range(400 if deep else 40):
            text(core, rec, rng, unit)
    for _ in range(3000 if deep else 300):
        rec.session()
        cast(core, rec, rng)
    rec.session()
    du = core.dateutils
    fns = [du.date, du.time, du.datetime, du.isocalendar, du.weekday,
           du.timedelta_since_january]
    for dtype in ['M8[D]', 'M8[h]', 'M8[Y]', 'M8[M]', 'M8[W]', 'M8[m]',
                  'm8[s]', 'i8', 'f8']:
        a = np.arange(4).astype(dtype)
        rec('refused', r=[call(f, a)[0] == 'err' for f in fns], d=dtype)
    for u in ALL:
        for a, b in (('M8', 'm8'), ('m8', 'M8')):
            axis = core.TemporalAxis(np.arange(3).astype(f'{a}[{u}]'))
            rec('notcast', r=call(axis.safe_cast,
                                  np.arange(3).astype(f'{b}[{u}]'))[1]
                if call(axis.safe_cast, np.arange(3).astype(
                    f'{b}[{u}]'))[0] == 'err' else 'ok')
    STATS['units'] = ALL
