"""P07: interpolation in three and four dimensions."""
import numpy as np

from vf import load

from .interp_common import Session, refusals

UNITS = ['axis', 'enum', 'grid', 'bivariate_interpolator', 'trivariate',
         'quadrivariate', 'dateutils']
MODELS = [('InterpMC', 'InterpMC')]
TRACE = 'InterpTrace'
METHODS = [('bilinear', 0), ('nearest', 0), ('idw', 2), ('bilinear', 0),
           ('idw', 3)]


def drive(core, rng, tier, rec):
    deep = tier == 'thorough'
    grid = load.layer('grid')
    load.layer('interpolator')
    tri = load.layer('interpolator.trivariate').trivariate
    quad = load.layer('interpolator.quadrivariate').quadrivariate
    fns = {3: tri, 4: quad}
    for k in range(1000 if deep else 130):
        dims = 3 if k % 3 else 4
        s = Session(core, grid, rec, rng, dims, METHODS[k % len(METHODS)],
                    zkind=rng.choice(['float', 'date', 'date']),
                    undef=rng.choice([0, 0, 0.04]))
        for zm in ('linear', 'nearest'):
            um = rng.choice(['linear', 'nearest'])
            s.at(fns, 16 if deep else 9, zm, um)
            s.bounds(fns, 3, zm, um)
    x = core.Axis(np.arange(0., 360, 30), is_circle=True)
    y = core.Axis(np.arange(-60., 61, 30))
    z = core.Axis(np.arange(3.))
    g3 = grid.Grid3D(x, y, z, np.zeros((12, 5, 3)))
    g4 = grid.Grid4D(x, y, z, z, np.zeros((12, 5, 3, 3)))
    a = np.array([1., 2.])
    b = np.array([1.])
    refusals(rec, tri, [
        ((g3, a, a, b), {}), ((g3, a, b, a), {}), ((g3, b, a, a), {}),
        ((g3, a, a, a), dict(interpolator='quadratic')),
        ((g3, a, a, a), dict(z_method='cubic')),
        ((g3, np.zeros((2, 2)), np.zeros((2, 2)), np.zeros((2, 2))), {}),
    ])
    refusals(rec, quad, [
        ((g4, a, a, a, b), {}), ((g4, a, a, b, a), {}), ((g4, a, b, a, a), {}),
        ((g4, b, a, a, a), {}),
        ((g4, a, a, a, a), dict(interpolator='quadratic')),
        ((g4, a, a, a, a), dict(z_method='cubic')),
        ((g4, a, a, a, a), dict(u_method='cubic')),
    ])
