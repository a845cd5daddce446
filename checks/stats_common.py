"""Samples, layouts and histories shared by the statistics drivers."""
import copy
import pickle

import numpy as np

from vf.trace import BAD, exact, fx


def layout(rng, a):
    """The same array with another memory layout."""
    kind = rng.randint(0, 4)
    if kind == 0 or a.ndim == 0:
        return a
    if kind == 1:
        return np.asfortranarray(a)
    if kind == 2:  # strided view
        big = np.full([2 * n + 1 for n in a.shape], 77, dtype=a.dtype)
        view = big[tuple(slice(0, 2 * n, 2) for n in a.shape)]
        view[...] = a
        return view
    if kind == 3:  # reversed view
        axis = rng.randrange(a.ndim)
        b = np.ascontiguousarray(np.flip(a, axis))
        return np.flip(b, axis)
    perm = list(range(a.ndim))
    rng.shuffle(perm)
    return np.ascontiguousarray(a.transpose(perm)).transpose(
        [perm.index(i) for i in range(a.ndim)])


def dup(rng, op, obj):
    """A duplicate of a Python or core object."""
    if op == 'pickle':
        return pickle.loads(pickle.dumps(obj))
    if hasattr(obj, 'copy') and rng.random() < 0.7:
        return obj.copy()
    return copy.deepcopy(obj) if not hasattr(obj, 'copy') \
        and not hasattr(obj, '__copy__') else (
            obj.copy() if hasattr(obj, 'copy') else copy.copy(obj))


def values(rng, n, top, nan=0.2):
    style = rng.random()
    if style < 0.2:
        pool = [rng.randint(-top, top) for _ in range(2)]
        v = [rng.choice(pool) for _ in range(n)]
    elif style < 0.3:
        v = [rng.randint(-top, -1) for _ in range(n)]
    else:
        v = [rng.randint(-top, top) for _ in range(n)]
    p = rng.choice([0, nan, nan, 1 if rng.random() < 0.2 else nan])
    return [BAD if rng.random() < p else x for x in v]


__all__ = ['layout', 'dup', 'values', 'fx', 'exact', 'BAD', 'np']
