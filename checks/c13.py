"""C13: light sources emit the requested bundle."""
import math
import numpy as N
from vt import ref, gen, stat
from vt.common import Sub, array, bad

ID = 'C13'
RULE = ('(a) solar_disk_bundle for 1-8000 (some 40,000) rays, any centre, axis (also exactly or nearly along the coordinate axes), radius 1e-2 to 1e3, angle '
        '1e-4 to pi/2, with or without flux: exact geometric bounds, energies and array shapes per ray, uniformity tests of the positions, '
        'directions and their independence; (b) square_bundle for 1-400 rays, square numbers or not: exact grid. Non-trivial: 1000 or more '
        'rays, or a grid of at least 2x2.')
ASSUMPTIONS = ['uniformity is judged with a false-alarm probability of at most 1e-11 per test', 'the orientation of the square grid about its '
               'axis is not judged; for n not a square the next square number of rays is expected, as the code documents nothing else',
               'the direction given is a unit vector']


def axis(d):
    k = d.weighted([(4, 'any'), (2, 'coordinate'), (2, 'near')])
    if k == 'any':
        return gen.unit_vec(d, 0.)
    v = gen.unit_vec(d, 1.)
    if k == 'coordinate':
        return v
    e = ref.scale(gen.unit_vec(d, 0.), 10 ** d.unif(-9., -1.))
    return ref.unit(ref.add(v, e))


def basis(v):
    """(3,3) rows x, y, v orthonormal right handed."""
    v = N.array(v)
    x = N.cross(v, [.36, .48, .8])
    if N.sqrt((x ** 2).sum()) < .1:
        x = N.cross(v, [.8, -.6, 0.])
    x /= N.sqrt((x ** 2).sum())
    return N.vstack((x, N.cross(v, x), v))


def disk(d):
    from tracer.sources import solar_disk_bundle
    n = d.int(1000, 8000) if d.bool(.8) else d.int(1, 6)
    if d.bool(.02):
        n = d.int(8000, 150000)
    v = axis(d)
    c = gen.point(d, d.choice([1., 10., 300.]))
    R = d.pos_real(1e-2, 1e3)
    a = d.weighted([(2, 4.65e-3), (1, math.pi / 2), (2, None)])
    if a is None:
        a = d.pos_real(1e-4, math.pi / 2)
    flux = d.weighted([(2, None), (2, 1000.), (2, 'any'), (1, 0.)])
    if flux == 'any':
        flux = d.pos_real(1e-3, 1e4)
    sd = d.seed()
    d.note('rays', n)
    d.note('axis', v)
    d.note('centre', c)
    d.note('radius', R)
    d.note('angle', a)
    d.note('flux', flux)
    d.note('seed', sd)
    N.random.seed(sd)
    C, V = N.array(c)[:, None], N.array(v)
    if flux is None and d.bool():
        b = solar_disk_bundle(n, C, V, R, a)
    else:
        b = solar_disk_bundle(n, C, V, R, a, flux)
    if b.get_num_rays() != n:
        bad('%r rays instead of %d', b.get_num_rays(), n)
    p = array(b.get_vertices(), (3, n), 'vertices')
    q = array(b.get_directions(), (3, n), 'directions')
    B = basis(v)
    tol = 1e-9 * max(1., R, ref.norm(c))
    if not (C[:, 0] == N.array(c)).all() or not (V == N.array(v)).all():
        bad('the arguments were altered')
    l = N.dot(B, p - N.array(c)[:, None])
    r2 = (l[:2] ** 2).sum(axis=0)
    if not (abs(l[2]) <= tol).all():
        bad('a ray starts %r off the plane of the disk', float(abs(l[2]).max()))
    if not (r2 <= (R + tol) ** 2).all():
        bad('a ray starts %r from the centre of a disk of radius %r', float(N.sqrt(r2.max())), R)
    m = N.dot(B, q)
    if not (abs((q ** 2).sum(axis=0) - 1) <= 1e-9).all():
        bad('a direction is not of unit length')
    if not (m[2] >= math.cos(a) - 1e-9).all() or not ((m[:2] ** 2).sum(axis=0) <= (math.sin(a) + 1e-8) ** 2).all():
        bad('a direction deviates by more than %r from the axis', a)
    if flux is not None:
        e = array(b.get_energy(), (n,), 'energies')
        tot = flux * math.pi * R ** 2
        if not (abs(e - tot / n) <= 1e-9 * tot / n).all() or not abs(e.sum() - tot) <= 1e-9 * tot:
            bad('energies sum to %r (largest %r, smallest %r) instead of %d times %r', float(e.sum()), float(e.max()), float(e.min()), n,
                tot / n)
    if n > 1 and R > 1e3 * tol:
        stat.distinct(l, 'starting points')
        stat.distinct(m, 'directions')
    if n >= 1000:
        d.nontrivial()
        rr = N.minimum(r2 / R ** 2, 1.)
        pa = stat.turn(N.arctan2(l[1], l[0]))
        ss = N.minimum((m[:2] ** 2).sum(axis=0) / math.sin(a) ** 2, 1.)
        da = stat.turn(N.arctan2(m[1], m[0]))
        parts = [('squared distance from the centre', rr), ('azimuth of the starting point', pa),
                 ('squared sine of the deviation', ss), ('azimuth of the direction', da)]
        for i, (w, u) in enumerate(parts):
            stat.uniform(u, w)
            stat.serial(u, w)
            for x, y in parts[:i]:
                stat.independent(u, y, '%s and %s' % (w, x))
        d.event('tests', 32)


def square(d):
    from tracer.sources import square_bundle
    k = d.int(1, 20)
    n = k * k if d.bool(.5) else d.int(1, 400)
    if d.bool(.004):
        n = d.int(20, 700) ** 2 + d.choice([-1, 0, 1, 2])
        d.event('large')
    side = int(math.ceil(math.sqrt(n)))
    v = axis(d)
    c = gen.point(d, d.choice([1., 10., 300.]))
    w = d.pos_real(1e-2, 1e3)
    d.note('rays', n)
    d.note('axis', v)
    d.note('centre', c)
    d.note('width', w)
    C, V = N.array(c)[:, None], N.array(v)
    b = square_bundle(n, C, V, w)
    m = side * side
    if b.get_num_rays() != m:
        bad('%r rays instead of %d', b.get_num_rays(), m)
    p = array(b.get_vertices(), (3, m), 'vertices')
    q = array(b.get_directions(), (3, m), 'directions')
    if not (C[:, 0] == N.array(c)).all() or not (V == N.array(v)).all():
        bad('the arguments were altered')
    if not (abs(q - N.array(v)[:, None]) <= 1e-9).all():
        bad('a ray does not point along the given direction')
    tol = 1e-9 * max(1., w, ref.norm(c))
    sp = 2. * w / math.sqrt(n)
    l = p - N.array(c)[:, None]
    off = N.dot(N.array(v), l)
    if not (abs(off) <= tol).all():
        bad('a ray starts %r off the perpendicular plane', float(abs(off).max()))
    if m == 1:
        # the grid of one: somewhere on the square
        if not N.sqrt((l ** 2).sum()) <= w * 1.4143 + tol:
            bad('the only ray starts %r from the centre', float(N.sqrt((l ** 2).sum())))
        return
    d.nontrivial()
    # a corner is the farthest point from the centroid; its two neighbours along the edges give the axes
    g = l.mean(axis=1)
    if not (abs(N.sqrt((g ** 2).sum())) <= .75 * sp + tol):
        bad('the grid is centred %r away from the given centre (spacing %r)', float(N.sqrt((g ** 2).sum())), sp)
    h = l - g[:, None]
    i = int((h ** 2).sum(axis=0).argmax())
    far = h[:, i]
    dd = h - far[:, None]
    ds = N.sqrt((dd ** 2).sum(axis=0))
    order = N.argsort(ds)
    e1, e2 = dd[:, order[1]], dd[:, order[2]]
    n1 = float(ds[order[1]])
    if not abs(n1 - sp) <= tol + 1e-9 * sp or not abs(float(ds[order[2]]) - sp) <= tol + 1e-9 * sp:
        bad('neighbouring rays are %r and %r apart instead of %r', n1, float(ds[order[2]]), sp)
    if not abs(float(N.dot(e1, e2))) <= (tol + 1e-9 * sp) * sp:
        bad('the grid is not rectangular')
    x, y = N.dot(e1, dd) / sp ** 2, N.dot(e2, dd) / sp ** 2
    xi, yi = N.round(x), N.round(y)
    gt = 1e-6 + 10 * tol / sp
    if not (abs(x - xi) <= gt).all() or not (abs(y - yi) <= gt).all():
        bad('a ray starts off the grid')
    cells = set(zip(xi.astype(int).tolist(), yi.astype(int).tolist()))
    if cells != set((a, b) for a in range(side) for b in range(side)):
        bad('the %d rays do not fill a %d x %d grid once', m, side, side)


SUBS = [
    Sub('disk', disk, 2000, 10000, 'solar_disk_bundle'),
    Sub('square', square, 4800, 20000, 'square_bundle'),
]
