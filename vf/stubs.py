"""Stand-ins for dask and xarray, which are not installed here.

Only what the Python layer of pyinterp needs: `dask.array.core.Array` is an
array cut in blocks along its first axis, computed eagerly and block by block
(`map_blocks`); nothing of xarray is usable.
"""
import sys
import types

import numpy


class Array:
    """A numpy array cut along its axis 0."""

    def __init__(self, value, cuts=()):
        self.value = numpy.asarray(value)
        self.cuts = tuple(cuts)
        self.shape, self.ndim = self.value.shape, self.value.ndim
        self.dtype, self.size = self.value.dtype, self.value.size

    def blocks(self):
        return numpy.split(self.value, self.cuts) if self.ndim else [
            self.value]

    def rechunk(self, cuts):
        return Array(self.value, cuts)

    def ravel(self):
        size = self.size // max(1, self.shape[0]) if self.ndim else 1
        return Array(self.value.ravel(), [c * size for c in self.cuts])


class Mapped:
    """Result of map_blocks: one object per block."""

    def __init__(self, parts):
        self.parts = parts

    def sum(self):
        return Mapped([numpy.concatenate(
            [numpy.atleast_1d(p) for p in self.parts]).sum()])

    def compute(self):
        return self.parts[0]


def asarray(value):
    return value if isinstance(value, Array) else Array(value)


def map_blocks(func, *args, **kwargs):
    arrays = [a for a in args if isinstance(a, Array)]
    # as dask does, arrays are first aligned on common blocks
    cuts = sorted({c for a in arrays for c in a.cuts})
    arrays = {id(a): a.rechunk(cuts).blocks() for a in arrays}
    return Mapped([func(*[arrays[id(a)][k] if isinstance(a, Array) else a
                          for a in args]) for k in range(len(cuts) + 1)])


class DataArray:
    """Values, names of the dimensions and coordinates."""

    def __init__(self, values, coords=None, dims=None, attrs=None):
        self.values = numpy.asarray(values) if not hasattr(
            values, 'find_index') else numpy.asarray(values[:])
        self.dims, self.coords, self.attrs = dims, coords or {}, attrs or {}
        self.shape, self.dtype = self.values.shape, self.values.dtype

    def __getattr__(self, name):
        attrs = self.__dict__.get('attrs', {})
        if name in attrs:
            return attrs[name]
        raise AttributeError(name)

    def transpose(self, *dims):
        return DataArray(self.values.transpose(
            [self.dims.index(d) for d in dims]), self.coords, dims,
            self.attrs)


class Dataset:
    """Named arrays."""

    def __init__(self, variables):
        self.variables = variables

    def __getitem__(self, name):
        return self.variables[name]


def install():
    if 'dask' in sys.modules:
        return
    dask = types.ModuleType('dask')
    array = types.ModuleType('dask.array')
    core = types.ModuleType('dask.array.core')
    for m in (array, core):
        m.Array, m.asarray, m.map_blocks = Array, asarray, map_blocks
    core.broadcast_arrays = numpy.broadcast_arrays
    dask.array, array.core = array, core
    sys.modules.update({'dask': dask, 'dask.array': array,
                        'dask.array.core': core})
    try:
        import xarray  # noqa: F401
    except ImportError:
        xarray = types.ModuleType('xarray')
        xarray.DataArray, xarray.Dataset = DataArray, Dataset
        sys.modules['xarray'] = xarray
