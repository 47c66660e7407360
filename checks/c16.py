"""C16: meshes lie on the surface they represent and cover it at the resolution."""
import math
import numpy as N
from vt import ref, gen, single
from vt.common import Sub, array, bad

ID = 'C16'
RULE = ('Surface.mesh of rectangular and round plates, spheres, hemispheres, finite cylinders, parabolic dishes and triangles of random size in '
        'random frames (bare, in objects, nested) at resolutions giving 1 to about 40 points across. Every mesh point is checked against '
        'the reference surface and aperture, and random aperture points (centre, edge, anywhere) for a near enough mesh point. Non-trivial: a mesh '
        'of at least 3 by 3 points.')
ASSUMPTIONS = ['"a fraction of the spacing": 0.51 of it along a cylinder\'s height, 0.02 at the rim of round plates and dishes, else none',
               '"about the spacing": 1.45 of it on rectangular plates, 1.2 on round ones and dishes (in slanted length), 0.85 on spheres and cylinders', 'triangles take the resolution in points per edge; '
               'spheres at resolutions below one point per radius are not judged', 'planes, paraboloids, hexagonal dishes, cut spheres and '
               'infinite cylinders have no mesh']
KINDS = ['rect', 'round', 'sphere', 'hemi', 'fincyl', 'dish', 'tri']


def aperture(d, sh):
    """A local point of the aperture."""
    k = d.weighted([(3, 'any'), (2, 'edge'), (1, 'middle')])
    if k == 'any':
        return sh.sample(d)
    t = 1. if k == 'edge' else 0.
    a = d.unif(0., 2 * math.pi)
    if sh.kind == 'rect':
        x, y = d.choice([(-1., -1.), (1., 1.), (1., None), (-1., None), (None, 1.), (None, -1.)])
        x = d.unif(-1., 1.) if x is None else x
        y = d.unif(-1., 1.) if y is None else y
        return (x * t * sh.w / 2., y * t * sh.h / 2., 0.)
    if sh.kind == 'round':
        return (t * sh.R * math.cos(a), t * sh.R * math.sin(a), 0.)
    if sh.kind in ('sphere', 'hemi'):
        if t:
            return (sh.R * math.cos(a), sh.R * math.sin(a), 0.)
        return (0., 0., -sh.R)
    if sh.kind == 'fincyl':
        return (sh.D / 2. * math.cos(a), sh.D / 2. * math.sin(a), t * d.choice([-.5, .5]) * sh.h)
    if sh.kind == 'dish':
        r = t * sh.D / 2.
        return (r * math.cos(a), r * math.sin(a), r * r / 4. / sh.f)
    u = d.unif(0., 1.)
    e = d.choice([((0., 0.), sh.v1), (sh.v1, sh.v2), (sh.v2, (0., 0.))])
    return (e[0][0] + u * (e[1][0] - e[0][0]), e[0][1] + u * (e[1][1] - e[0][1]), 0.)


def mesh(d):
    surf, rs, sc = single.build(d, KINDS)
    sh = rs.shape
    if sh.kind == 'tri':
        res = d.int(2, 25)
        L = max(math.hypot(*sh.v1), math.hypot(*sh.v2), math.hypot(sh.v1[0] - sh.v2[0], sh.v1[1] - sh.v2[1]))
        step = L / (res - 1.)
        out = 0.
        reach = 1.05 * step
    else:
        size = sh.R if sh.kind in ('sphere', 'hemi', 'round') else sh.D / 2. if sh.kind in ('fincyl', 'dish') else max(sh.w, sh.h)
        lo = 1.01 if sh.kind in ('sphere', 'hemi') else .3
        big = max(sh.w, sh.h) / min(sh.w, sh.h) if sh.kind == 'rect' else max(1., sh.h / sh.D) if sh.kind == 'fincyl' else 1.
        res = d.pos_real(lo, (14. if d.bool(.96) else 45.) / min(big, 4.)) / size
        step = 1. / res
        out = {'fincyl': .51, 'round': .02, 'dish': .02}.get(sh.kind, 0.) * step
        slope = sh.D / 4. / sh.f if sh.kind == 'dish' else 0.
        reach = {'rect': 1.45, 'round': 1.2, 'dish': 1.2}.get(sh.kind, .85) * step * math.sqrt(1 + slope ** 2)
        # a rim point of a dish overshoots along the slant
        out *= math.sqrt(1 + slope ** 2)
    d.note('resolution', res)
    m = surf.mesh(res)
    if len(m) != 3:
        bad('mesh of %d arrays', len(m))
    M = array(m, (3, None, None), 'mesh')
    k = M.shape[1] * M.shape[2]
    if k == 0:
        bad('empty mesh')
    P = M.reshape(3, k)
    f = rs.frame
    loc = N.dot(gen.np_rot(f).T, P - gen.np_loc(f)[:, None])
    tol = 1e-9 * max(1., sh.extent, ref.norm(f.t))
    pts = loc.T.tolist()
    for p in pts:
        r = sh.residual(p)
        if not abs(r) <= tol:
            bad('%s: mesh point %r (surface coordinates) is %r off the surface', sh.kind, p, r)
        g = sh.margin(p)
        if not g >= -out - tol:
            bad('%s: mesh point %r (surface coordinates) is %r outside the aperture, at a spacing of %r', sh.kind, p, -g, step)
    d.event('mesh points', k)
    if sh.kind == 'rect':
        for ax, size in ((0, sh.w), (1, sh.h)):
            for end in (loc[ax].min(), -loc[ax].max()):
                if not abs(end + size / 2.) <= tol:
                    bad('rect: the mesh leaves out an edge of the plate by %r, at a spacing of %r', float(end + size / 2.), step)
    n = 0
    while d.more(n, 12, 4, 30):
        n += 1
        q = aperture(d, sh)
        dist = float(N.sqrt(((loc - N.array(q)[:, None]) ** 2).sum(axis=0).min()))
        if not dist <= reach + tol:
            bad('%s: the nearest mesh point to %r (surface coordinates) is %r away, at a spacing of %r', sh.kind, q, dist, step)
        d.event('coverage points')
    d.nontrivial(M.shape[1] >= 3 and M.shape[2] >= 3)


SUBS = [
    Sub('mesh', mesh, 15000, 50000, 'all meshable shapes'),
]
