"""C24: the dispersion formula gives the Hartmann refractive index."""
from fractions import Fraction
import numpy as N
from vt.common import Sub, array, bad

ID = 'C24'
RULE = ('Random coefficients of either sign (zero included), wavelengths as scalars, vectors or matrices on either side of the poles, against '
        'exact rational arithmetic. Non-trivial: both pole terms non-zero.')
ASSUMPTIONS = ['wavelengths at least 1e-3 (relative) away from the poles c and e', 'floating-point arguments']


def case(d):
    from tracer.optics import refr_idx_hartmann
    a, b, dd = d.real(-3., 3.), d.real(-2., 2.), d.real(-2., 2.)
    c, e = d.real(-3., 3.), d.real(-3., 3.)
    unit = d.weighted([(3, 1.), (1, 1000.), (1, 1e-6), (1, 1e-9)])      # of length: micrometres, nanometres, metres
    b, c, dd, e = b * unit, c * unit, dd * unit, e * unit
    k = d.choice(['scalar', 'vector', 'matrix', '1'])
    n = {'scalar': 1, '1': 1}.get(k) or d.int(1, 12)
    L = []
    for _ in range(n):
        x = d.real(-5., 5.) * unit
        for p in (c, e):
            while abs(x - p) < 1e-3 * max(unit, abs(x), abs(p)):
                x += .01 * unit
        for p in (c, e):
            if abs(x - p) < 1e-4 * unit:
                x += .0213 * unit
        L.append(x)
    coef = (a, b, c, dd, e)
    d.note('coefficients', coef)
    d.note('wavelengths', L)
    d.note('as', k)
    if k == 'scalar':
        got = [float(refr_idx_hartmann(L[0], *coef))]
    else:
        w = N.array(L)
        if k == 'matrix':
            w = N.vstack((w, w[::-1]))
        keep = w.copy()
        g = array(refr_idx_hartmann(w, *coef), w.shape, 'indices')
        if not (w == keep).all():
            bad('the wavelengths were altered')
        got = g.reshape(-1).tolist()
        L = keep.reshape(-1).tolist()
    F = Fraction
    for x, r in zip(L, got):
        t1 = F(b) / (F(c) - F(x))
        t2 = F(dd) / (F(e) - F(x))
        want = float(F(a) + t1 + t2)
        tol = 1e-12 * (abs(a) + float(abs(t1)) + float(abs(t2)) + 1e-30)
        if not abs(r - want) <= tol:
            bad('index at wavelength %r with coefficients %r is %r instead of %r', x, coef, r, want)
    d.nontrivial(b != 0 and dd != 0 and c != e)


SUBS = [Sub('formula', case, 30000, 100000, 'Hartmann formula')]
