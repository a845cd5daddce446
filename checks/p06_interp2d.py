"""P06: interpolation in two dimensions."""
import numpy as np

from vf import load

from .interp_common import Session, refusals

UNITS = ['axis', 'enum', 'grid', 'bivariate', 'bivariate_interpolator']
MODELS = [('InterpMC', 'InterpMC'), ('InterpMC', 'InterpMCdeep', 'thorough'),
          ('TrigMC', 'TrigMC')]
TRACE = 'InterpTrace'
METHODS = [('bilinear', 0), ('nearest', 0), ('idw', 2), ('idw', 1), ('idw', 3),
           ('idw', 4), ('idw', 0), ('bilinear', 0), ('bilinear', 0)]


def drive(core, rng, tier, rec):
    deep = tier == 'thorough'
    grid = load.layer('grid')
    load.layer('interpolator')
    biv = load.layer('interpolator.bivariate').bivariate
    fns = {2: biv}
    for k in range(1200 if deep else 160):
        s = Session(core, grid, rec, rng, 2, METHODS[k % len(METHODS)],
                    undef=rng.choice([0, 0, 0.15]))
        s.at(fns, 24 if deep else 14)
        s.at(fns, 1)
        s.bounds(fns, 4)
    x = core.Axis(np.arange(0., 360, 30), is_circle=True)
    y = core.Axis(np.arange(-60., 61, 30))
    g = grid.Grid2D(x, y, np.zeros((12, 5)))
    a = np.array([1., 2.])
    refusals(rec, biv, [
        ((g, a, a[:1]), {}),
        ((g, a, np.array([1., 2., 3.])), {}),
        ((g, np.zeros((2, 2)), np.zeros((2, 2))), {}),
        ((g, a, a), dict(interpolator='quadratic')),
        ((g, a, a), dict(interpolator='')),
        (('grid', a, a), {}),
    ])
