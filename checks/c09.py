"""C09: reported normals are unit, perpendicular to the surface and face the ray."""
import numpy as N
from vt import single, gen, ref
from vt.common import Sub, array, bad

ID = 'C09'
RULE = ('One surface of any type in a random frame and a mixed bundle; a random selection (any order) of the rays that hit is made '
        'and the normals reported for it are compared with the gradient of the reference surface at the true hit point. '
        'Non-trivial: at least two selected rays, or one coming from the side opposite to the surface\'s own Z/outside.')
ASSUMPTIONS = ['the side is not judged for rays within 1e-6 of grazing (1e-9 for flat surfaces); near a paraboloid/sphere the tolerance grows with the '
               'conditioning of the hit point']


def case(d):
    surf, rs, sc = single.build(d, gen.SHAPES)
    gm = surf.get_geometry_manager()
    for r in range(1 + d.bool(.35) + d.bool(.1)):
        if r and d.bool(.8):
            rs = single.move(d, surf, rs, sc)
        rays = single.rays_for(d, rs, sc, *d.weighted([(92, (12, 60)), (7, (100, 250)), (.6, (700, 1500))]))
        prm = surf.register_incoming(gen.bundle(rays))
        hits = single.match_params(rs, rays, prm)
        sel = single.selection(d, hits)
        if not sel:
            surf.done()
            continue
        surf.select_rays(N.array(sel))
        normals = array(gm.get_normals(), (3, len(sel)), 'normals')
        d.nontrivial(len(sel) > 1)
        for j, i in enumerate(sel):
            o, v, k = rays[i]
            c = hits[i]
            n = tuple(normals[:, j].tolist())
            exp = rs.normal_world(c, v)
            # curvature * position error
            tol = 1e-7 + 1e3 * c.terr / max(min(rs.shape.extent, 1.), 1e-3)
            if not abs(ref.norm(n) - 1.) <= 1e-9:
                bad('%s, ray %d: normal %r is not of unit length', rs.shape.kind, i, n)
            if abs(c.cosi) < (1e-6 + 1e3 * c.terr if rs.shape.quadric else 1e-9):
                d.event('grazing')
                if not min(ref.dist(n, exp), ref.dist(n, ref.scale(exp, -1.))) <= tol:
                    bad('%s, ray %d: normal %r, should be +-%r', rs.shape.kind, i, n, exp)
                continue
            if not ref.dist(n, exp) <= tol:
                bad('%s, ray %d (%s) from %r along %r: normal %r, should be %r', rs.shape.kind, i, k, o, v, n, exp)
            d.event('normals')
            if ref.dot(exp, rs.frame.dir(c.n)) < 0:
                d.event('flipped')
                d.nontrivial()
        surf.done()


SUBS = [Sub('normals', case, 28800, 120000, 'see rule')]
