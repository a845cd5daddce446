"""Positions as binary fractions, codes as digits or characters."""
from fractions import Fraction

from vf.trace import BAD, np

ALPHABET = '0123456789bcdefghjkmnpqrstuvwxyz'
N = 34
HALF = 1 << 17
FULL = 1 << N


def limbs(v):
    return [v >> 17, v & (HALF - 1)]


def lon_of(v, turns=0):
    """Longitude at the fraction v/2^34 of the axis, exactly."""
    return float(Fraction(360 * v, FULL) - 180 + 360 * turns)


def lat_of(v):
    return float(Fraction(180 * v, FULL) - 90)


def frac(x, width, floor=False):
    """Digits of a coordinate, given exactly or rounded down."""
    x = float(x)
    if x != x or abs(x) > 1000:
        return [BAD, BAD]
    q = (Fraction(x) / width + Fraction(1, 2)) * FULL
    if q < 0 or q > FULL or (q.denominator != 1 and not floor):
        return [BAD, BAD]
    return limbs(q.numerator // q.denominator)


def place(lon, lat, floor=False):
    return frac(lon, 360, floor) + frac(lat, 180, floor)


def digits(code, bits):
    return [(int(code) >> (bits - 1 - i)) & 1 for i in range(bits)]


def number(bits):
    n = 0
    for b in bits:
        n = 2 * n + b
    return n


def chars(code):
    if isinstance(code, (bytes, np.bytes_)):
        code = bytes(code).decode('latin-1')
    return list(str(code))


def pick(rng):
    """A fraction: anywhere, near an end, on or about an edge of cells."""
    r = rng.random()
    if r < 0.35:
        return rng.randrange(FULL)
    if r < 0.6:
        n = rng.randint(1, 33)
        v = rng.randrange(1 << n) << (N - n)
        return min(FULL - 1, max(0, v + rng.choice([0, 0, 1, -1])))
    if r < 0.8:
        return rng.choice([0, 1, FULL - 1, FULL // 2, FULL // 2 - 1,
                           FULL // 2 + 1, FULL // 4, 3 * FULL // 4])
    n = rng.randint(1, 16)
    return (rng.randrange(1 << n) << (N - n)) + rng.randrange(1 << 8)


def pick_lat(rng):
    return FULL if rng.random() < 0.06 else pick(rng)


def text(rng, n):
    r = rng.random()
    if r < 0.1:
        return 'z' * n
    if r < 0.2:
        return '0' * n
    if r < 0.45:
        # along a parallel or a meridian of the edges
        x = rng.choice([None, 0, 1])
        y = rng.choice([0, 1]) if x is None else None
        b = [rng.randint(0, 1) if (x if i % 2 == 0 else y) is None else
             (x if i % 2 == 0 else y) for i in range(5 * n)]
        return ''.join(ALPHABET[number(b[5 * i:5 * i + 5])]
                       for i in range(n))
    return ''.join(rng.choice(ALPHABET) for _ in range(n))
