"""C18: one-sided mirrors, receivers, homogenizers and dishes are built as specified."""
import math
import numpy as N
from vt import scene, ref, gen, dish
from vt.ref import Frame
from vt.scene import AsmSpec, Hit
from vt.common import Sub, array, bad, close

ID = 'C18'
RULE = ('Ready-made parts with random dimensions and placement - a one-sided mirror or receiver, a homogenizer tube, a concentrator '
        '(base class, MiniDish, PETAL, standard minidish) - traced with rays from both sides, through the tube and from the sun, for up to 20 steps; '
        'every step of every recorded ray is compared with the stated geometry and optics, and the receiver\'s entries with the front hits; '
        'dimension rules of the standard dish from its formulae. Non-trivial: a front and a back hit, or a ray hitting two tube '
        'walls, or a dish ray reaching the receiver.')
ASSUMPTIONS = ['rays hitting within 1e-6 of an edge or where two walls meet are not judged', 'PETAL\'s receiver_aspect scales the x side, as its docstring says; '
               'MiniDish\'s, which is undocumented, the y side',
               'that rays leaving a one-sided part skip its own surfaces in the next step is allowed for']


def follow(d, surfs, levels, me, reps, rec=None):
    """Judge every step; returns the walls hit and the expected receiver entries (None: undecidable)."""
    entries = []
    stats = {'front': 0, 'back': 0, 'escape': 0, 'wall twice': 0, 'received': 0}
    walls = {}
    # seen from the side, the gap between a receiver's front and back shows
    zs = [s.frame.z() for s in surfs if s.optics.kind == 'osreceiver']
    for k, i, r, exp, kids in scene.steps(surfs, levels, me, reps):
        if k and not r.e > 0:
            continue
        if exp == 'undecided' or any(abs(ref.dot(r.d, z)) < 1e-3 for z in zs):
            d.event('undecided')
            entries = None
            continue
        if exp is None:
            stats['escape'] += 1
            if kids:
                bad('step %d: ray %d from %r along %r should meet nothing, but is intercepted at %r', k, i, r.o, r.d, kids[0].o)
            continue
        what = 'step %d: ray %d from %r along %r, which meets a %s at %r,' % (k, i, r.o, r.d, exp.surf.optics.kind, exp.p)
        if len(kids) != 1:
            bad('%s gives %d rays', what, len(kids))
        c = kids[0]
        if not ref.dist(c.o, exp.p) <= 1e-8 + 3e-10 / max(exp.c.cosi, 1e-6) + scene.point_tol(exp, r.o):
            bad('%s is intercepted at %r', what, c.o)
        n = exp.surf.normal_world(exp.c, r.d)
        ch = scene.children(exp.surf.optics, r.d, n, exp.surf.frame.z(), r.e, r.n)
        if ch is None:
            d.event('grazing')
            entries = None
            continue
        ch = ch[0]
        if not abs(c.e - ch.energy) <= 1e-9 * max(r.e, 1e-6):
            bad('%s leaves with energy %r instead of %r (of %r)', what, c.e, ch.energy, r.e)
        front = ref.dot(r.d, exp.surf.frame.z()) < 0
        if ch.dir is not None and ch.energy > 0 and not ref.dist(c.d, ch.dir) <= scene.dir_tol(exp):
            bad('%s leaves along %r instead of %r', what, c.d, ch.dir)
        stats['front' if front else 'back'] += 1
        if exp.surf.optics.kind == 'osreceiver' and front:
            stats['received'] += 1
            if entries is not None:
                entries.append((r.e * exp.surf.optics.a, c.o))
    for x in stats:
        if stats[x]:
            d.event(x, stats[x])
    return stats, entries


def receiver_entries(surf, entries, what):
    e, p = surf.get_optics_manager().get_all_hits()
    e = array(e, (None,), 'absorbed')
    p = array(p, (3, len(e)), 'hits')
    if len(e) != len(entries):
        bad('%s registered %d hits, %d rays struck its front', what, len(e), len(entries))
    left = list(zip(e.tolist(), p.T.tolist()))
    for en, pt in entries:
        for x in left:
            if abs(x[0] - en) <= 1e-9 * max(en, 1e-6) and ref.dist(x[1], pt) <= 1e-7 * max(1., ref.norm(pt)):
                left.remove(x)
                break
        else:
            bad('%s has no entry for the ray that struck its front at %r with energy %r', what, pt, en)


def plate(d):
    from tracer.models.one_sided_mirror import rect_one_sided_mirror, one_sided_receiver
    from tracer.assembly import Assembly
    w, h = d.pos_real(.2, 6.), d.pos_real(.2, 6.)
    f, g = gen.frame(d, 4.), gen.frame(d, 4.)
    rec = d.bool()
    stages = d.weighted([(3, 1), (1, 2), (1, 3)])
    a = d.weighted([(2, 'default'), (1, 0.), (1, 1.), (3, None)])
    if a is None:
        a = d.real(0., 1.)
    surf = None
    if rec:
        surf, obj = one_sided_receiver(w, h) if a == 'default' else one_sided_receiver(w, h, a)
        a = 1. if a == 'default' else a
        spec = dish.receiver1s(w, h, a, f)
    else:
        obj = rect_one_sided_mirror(w, h) if a == 'default' else rect_one_sided_mirror(w, h, absorptivity=a)
        a = 0. if a == 'default' else a
        spec = dish.mirror1s(w, h, a, f)
    obj.set_transform(gen.np_trans(f))
    top = AsmSpec([spec], [], g)
    asm = Assembly(objects=[obj], location=gen.np_loc(g), rotation=gen.np_rot(g))
    d.note('part', ['receiver' if rec else 'mirror', w, h, a])
    log = []
    for stage in range(stages):
        if stage:       # the same part, put somewhere else
            f = gen.frame(d, 4.)
            spec.frame = f
            obj.set_transform(gen.np_trans(f))
            if d.bool():
                top.frame = g = gen.frame(d, 4.)
            asm.set_transform(gen.np_trans(g))
            if rec:
                surf.get_optics_manager().reset()
        plate_trace(d, rec, w, h, top, asm, surf, log, f, g)


def plate_trace(d, rec, w, h, top, asm, surf, log, f, g):
    surfs = top.surfaces()
    rays = []
    wf = surfs[0].frame
    while d.more(len(rays), 14, 1, 60):
        if d.bool(.7):
            p = (d.unif(-.6, .6) * w, d.unif(-.6, .6) * h, 0.)
            z = d.choice([1., -1.])
            v = ref.unit((d.unif(-1., 1.), d.unif(-1., 1.), z * (d.pos_real(.1, 3.) if d.bool(.85) else 10 ** d.unif(-3. if rec else -6., -1.))))
            o, v = wf.apply(ref.along(p, v, -d.pos_real(1e-3, 10.))), wf.dir(v)
        else:
            o, v, k = gen.ray_at(d, surfs[0], 6.)
        rays.append(scene.Ray(o, v, d.weighted([(1, 1.), (1, 0.5), (1, 20.)]), 1.))
    log.append([g.rows4(), f.rows4(), scene.describe_rays(rays)])
    d.note('history (assembly frame, object frame, rays)', log)
    e, v, dd = scene.trace(asm, scene.to_bundle(rays), 3, 0.)
    levels = scene.read_tree(e.tree)
    st, ent = follow(d, surfs, levels, 0., 3)
    if rec and ent is not None:
        receiver_entries(surf, ent, 'the receiver')
    d.nontrivial(st['front'] and st['back'])


def mouth_ray(d, x, y, h, fr):
    lo = (d.unif(-.5, .5) * x, d.unif(-.5, .5) * y, h * d.unif(-.3, 1.3))
    w = ref.unit((d.unif(-1., 1.), d.unif(-1., 1.), d.choice([-1., 1.]) * d.unif(.02, 2.)))
    return scene.Ray(fr.apply(lo), fr.dir(w), d.choice([1., 1., 2.5]), 1.)


def tube(d):
    from tracer.models.homogenizer import rect_homogenizer
    x, y, h = d.pos_real(.1, 4.), d.pos_real(.1, 4.), d.pos_real(.1, 6.)
    eff = d.weighted([(2, 1.), (3, None), (1, .9)])
    if eff is None:
        eff = d.real(0., 1.)
    f = gen.frame(d, 4.)
    asm = rect_homogenizer(x, y, h, eff)
    if len(asm.get_objects()) != 4:
        bad('%d walls', len(asm.get_objects()))
    asm.set_transform(gen.np_trans(f))
    spec = dish.tube(x, y, h, eff, f)
    surfs = spec.surfaces()
    d.note('tube', [x, y, h, eff])
    d.note('frame', f.rows4())
    rays = []
    while d.more(len(rays), 12, 1, 40):
        if d.bool(.7):
            rays.append(mouth_ray(d, x, y, h, f))
        else:
            o, v, k = gen.ray_at(d, d.choice(surfs), 5.)
            rays.append(scene.Ray(o, v, 1., 1.))
    reps = d.int(1, 20)
    d.note('rays', scene.describe_rays(rays))
    d.note('reps', reps)
    e, v, dd = scene.trace(asm, scene.to_bundle(rays), reps, 1e-6)
    levels = scene.read_tree(e.tree)
    st, _ = follow(d, surfs, levels, 1e-6, reps)
    d.nontrivial(len(levels) > 3)
    d.event('levels', len(levels))
    # energies of inside rays are products of efficiencies: level k has eff^k of the source ray's
    anc = list(range(len(rays)))
    for k in range(1, len(levels)):
        anc = [anc[r.parent] for r in levels[k]]
        for r, j in zip(levels[k], anc):
            want = rays[j].e * eff ** k
            if r.e > 0 and not abs(r.e - want) <= 1e-9 * rays[j].e:
                bad('after %d mirrors of efficiency %r, a ray of energy %r has %r', k, eff, rays[j].e, r.e)


def dishes(d):
    D = dish.Dish(d)
    d.note('dish', D.describe())
    surfs = D.spec.surfaces()
    if D.kind in ('mini', 'petal', 'standard'):
        x = D.asm.get_external_dimensions()
        close(N.array(x, dtype=float), [D.D, D.pos], 1e-9 * D.D, 'external dimensions')
    rays = D.rays(d, 14, 50)
    reps = d.int(1, 15)
    d.note('rays', scene.describe_rays(rays))
    d.note('reps', reps)
    e, v, dd = scene.trace(D.asm, scene.to_bundle(rays), reps, 0.)
    levels = scene.read_tree(e.tree)
    st, ent = follow(d, surfs, levels, 0., reps)
    if ent is not None:
        receiver_entries(D.asm.get_receiver_surf(), ent, 'the receiver')
        d.event('receivers judged')
    d.nontrivial(st['received'])
    # access to the parts
    F = lambda s: s.get_geometry_manager()
    all_surfs = D.asm.get_surfaces()
    for nm, s in (('receiver', D.asm.get_receiver_surf()), ('main reflector', D.asm.get_main_reflector())):
        if not any(s is t for t in all_surfs):
            bad('the %s is not one of the assembly\'s surfaces', nm)
    if len(D.asm.get_homogenizer().get_surfaces()) != 4:
        bad('the homogenizer has %d surfaces', len(D.asm.get_homogenizer().get_surfaces()))


def measures(d):
    from tracer.models.tau_minidish import standard_minidish_measures, standard_minidish
    D = d.pos_real(.1, 20.)
    conc = d.pos_real(5., 5000.)
    W0 = D / 2. * math.sqrt(math.pi / conc)
    n = d.int(1, 6) if d.bool(.7) else d.unif(1., 6.)
    while n >= 2 and n * W0 > .95 * D:
        n -= 1
    if n * W0 > .95 * D:
        return
    d.note('diameter, concentration, virtual sources', [D, conc, n - 1])
    for how in (0, 1):
        if how:
            m, f, W, H = standard_minidish(D, conc, n - 1)
        else:
            f, W, H = standard_minidish_measures(D, conc, n - 1)
        # rim angle of 45 degrees seen from the focus
        zr = D ** 2 / (16. * f)
        if not abs((f - zr) - D / 2.) <= 1e-9 * D:
            bad('focal length %r: the rim is %r below the focus at radius %r', f, f - zr, D / 2.)
        if not abs(math.pi * D ** 2 / 4. / W ** 2 / conc - 1) <= 1e-9:
            bad('receiver width %r gives a concentration of %r instead of %r', W, math.pi * D ** 2 / 4. / W ** 2, conc)
        # the cone of the rim at H beyond the focus is as wide as the real and virtual sources together
        if not abs(D * H - n * W * (f + H)) <= 1e-9 * D * (f + H):
            bad('receiver distance %r does not match %d sources of width %r', H, n, W)
    d.nontrivial()
    x = m.get_external_dimensions()
    close(N.array(x, dtype=float), [D, f + H], 1e-9 * max(D, f + H), 'external dimensions')


SUBS = [
    Sub('plate', plate, 2400, 25000, 'one-sided mirror or receiver'),
    Sub('tube', tube, 1400, 15000, 'homogenizer'),
    Sub('dishes', dishes, 1800, 20000, 'concentrators'),
    Sub('measures', measures, 1200, 10000, 'standard dish dimensions'),
]
