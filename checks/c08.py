"""C08: bounded surfaces are hit exactly within their aperture."""
import numpy as N
from vt import single, gen
from vt.common import Sub

ID = 'C08'
KINDS = ['rect', 'round', 'tri', 'hemi', 'cutsphere', 'fincyl', 'dish', 'hex']
RULE = ('One bounded surface (rectangle, disk, triangle, hemisphere, sphere cut by a plane/sphere/cylinder, finite cylinder, '
        'circular and hexagonal dish) with random sizes, frame and scale, and a bundle of 1-60 (sometimes up to 300) rays mixing all '
        'patterns of crossings in and out of the aperture. Non-trivial: the bundle mixes rays with at least two different '
        'patterns (e.g. first crossing out and second in, next to first in).')
ASSUMPTIONS = ['points within 1e-8 of scale of the aperture edge may count either way']


def case(d):
    surf, rs, sc = single.build(d, KINDS)
    rounds = 1 + d.bool(.35) + d.bool(.1)
    for r in range(rounds):
        if r and d.bool(.8):
            rs = single.move(d, surf, rs, sc)
        rays = single.rays_for(d, rs, sc, *d.weighted([(90, (12, 60)), (8, (120, 300)), (1, (700, 1500))]))
        b = gen.bundle(rays)
        prm = surf.register_incoming(b)
        hits = single.judge_params(d, rs, rays, prm)
        d.nontrivial(len(single.classify(d, rs, rays, hits)) >= 2)
        d.event('rays', len(rays))
        sel = single.selection(d, hits)
        if sel:
            surf.select_rays(N.array(sel))
            single.judge_points(d, rs, rays, sel, hits, prm,
                                surf.get_geometry_manager().get_intersection_points_global())
        surf.done()


SUBS = [Sub('aperture', case, 22500, 150000, 'see rule')]
