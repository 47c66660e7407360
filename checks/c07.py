"""C07: unbounded surfaces report the first true intersection of each ray."""
import numpy as N
from vt import single, gen
from vt.common import Sub, bad

ID = 'C07'
RULE = ('One plane, sphere, paraboloid or infinite cylinder with random parameters, frame and scale (placed directly, '
        'through transform_frame, an object or nested assemblies) and a bundle of 1-60 rays of nine classes (aimed, chords, '
        'starting on it, inside, parallel to its axes, pointing away, ...). Non-trivial: the bundle has both a ray whose '
        'first crossing is uniquely determined and one that misses, or at least two rays that hit.')
ASSUMPTIONS = ['answers within 1e-8 of scale (plus the conditioning of the crossing) of the exact one are equal; a crossing at '
               'the ray start itself and tangent contacts are acceptable either way']


def case(d):
    surf, rs, sc = single.build(d, ['plane', 'sphere', 'parab', 'cyl'])
    rounds = 1 + d.bool(.35) + d.bool(.1)
    for r in range(rounds):
        if r and d.bool(.8):
            rs = single.move(d, surf, rs, sc)
        rays = single.rays_for(d, rs, sc, *d.weighted([(90, (12, 60)), (8, (120, 300)), (1, (700, 1500))]))
        b = gen.bundle(rays)
        prm = surf.register_incoming(b)
        hits = single.judge_params(d, rs, rays, prm)
        nh = sum(1 for c in hits if c is not None)
        d.nontrivial(nh >= 2 or (nh == 1 and len(rays) > 1))
        d.event('rays', len(rays))
        sel = single.selection(d, hits)
        if sel:
            surf.select_rays(N.array(sel))
            single.judge_points(d, rs, rays, sel, hits, prm,
                                surf.get_geometry_manager().get_intersection_points_global())
        surf.done()


SUBS = [Sub('first', case, 27000, 150000, 'see rule')]
