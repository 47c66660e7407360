"""C03: energy is conserved at every interaction and cut off as requested."""
import numpy as N
from vt import scene, ref, gen
from vt.common import Sub, array, bad
from vt.scene import Hit

ID = 'C03'
RULE = ('A random scene (1-9 surfaces, all shapes, optics of all kinds, nested) and a bundle of 1-40 rays with energies over many '
        'decades is traced for 1-6 steps with thresholds that rays may equal exactly. For every recorded ray with children, the surface '
        'they start on is looked up and the sum of their energies compared with the incoming energy less its absorption; rays are '
        'followed exactly if above the threshold; and the whole trace must balance. Non-trivial: at least one absorbing or splitting '
        'interaction and two generations, or a dropped ray.')
ASSUMPTIONS = ['source rays are always traced in the first step, whatever their energy', 'an interaction at a point shared by several '
               'surfaces is not judged (counted); see the known finding on exact ties']


def judge(d, surfs, levels, reps, me):
    marks = set()
    total = 0.
    balanced = True
    for k, lev in enumerate(levels):
        nxt = levels[k + 1] if k + 1 < len(levels) else []
        kids = scene.by_parent(nxt, len(lev))
        for i, r in enumerate(lev):
            if not (r.e >= -1e-12 and r.e < 1e12):
                bad('generation %d: ray %d has energy %r', k, i, r.e)
            if k and not r.e > me:
                marks.add('dropped')
                d.event('dropped')
                if kids[i]:
                    bad('generation %d: ray %d has energy %r, not above %r, but was followed', k, i, r.e, me)
                total += r.e
                continue
            if not kids[i]:
                total += r.e
                if k < reps:
                    if k:
                        w = scene.where_from(surfs, r.o)
                        h = 'undecided' if w is None else \
                            scene.first_hit(surfs, r.o, r.d, scene.relevance(surfs, surfs[w].obj))
                    else:
                        h = scene.first_hit(surfs, r.o, r.d)
                    if isinstance(h, Hit):
                        bad('generation %d: ray %d with energy %r (threshold %r) meets a surface but was not followed', k, i, r.e, me)
                continue
            out = sum(nxt[j].e for j in kids[i])
            on = [set(scene.on_surface(surfs, nxt[j].o)) for j in kids[i]]
            on = set.intersection(*on)
            shares = []
            n_kids = set()
            for j in on:
                o = surfs[j].optics
                if o.kind == 'onesided':
                    p = ref.dot(r.d, surfs[j].frame.z())
                    if abs(p) < 1e-9:
                        shares += [1., o.a]
                    else:
                        shares.append(1. if p > 0 else o.a)
                else:
                    shares.append(o.absorbed_share(True))
            if len(on) > 1 or not shares or max(shares) - min(shares) > 1e-12:
                d.event('interaction not located' if not shares else 'ambiguous surface')
                balanced = False
                continue
            a = shares[0]
            kind = surfs[min(on)].optics.kind
            d.event(kind)
            if not abs(out - r.e * (1 - a)) <= 1e-9 * r.e + 1e-15:
                bad('generation %d: ray %d with energy %r hits a %s surface absorbing %r of it, rays with energies %r come out', k, i,
                    r.e, kind, a, [nxt[j].e for j in kids[i]])
            total += r.e * a
            if 0 < a or len(kids[i]) > 1:
                marks.add('absorbed or split')
            if k:
                marks.add('later')
    src = sum(r.e for r in levels[0])
    if balanced and not abs(total - src) <= 1e-8 * src + 1e-12:
        bad('source energy %r, but absorbed, dropped, escaped and remaining energy add up to %r', src, total)
    if balanced:
        d.event('balanced traces')
    d.nontrivial('dropped' in marks or marks >= {'absorbed or split', 'later'})


def case(d, crowd=False, **kw):
    g = scene.Gen(d, **kw)
    spec = g.scene()
    surfs = spec.surfaces()
    if crowd:
        rays = scene.many_rays(d, surfs, g.glass, 150, 1500)
        me = d.choice([0., 1e-6, .05, 1.])
    elif d.bool(.3):          # exact binary fractions, so that thresholds can be met exactly
        for s in surfs:
            if s.optics.kind != 'refract':
                s.optics.a = d.choice([0., .5, .25, .75, 1.])
        rays = scene.gen_rays(d, surfs, g.glass, 10, 40, sc=g.sc, energies=False)
        for r in rays:
            r.e = d.choice([1., .5, 2., .25, 4., 0.])
        me = d.choice([.5, .25, .125, 1., 0.])
        if d.bool(.3):
            me *= 1 + d.choice([-1, 1]) * 10 ** d.unif(-12., -2.)
        d.event('exact thresholds')
    else:
        rays = scene.gen_rays(d, surfs, g.glass, 10, 40, sc=g.sc)
        me = d.weighted([(3, 0.), (2, 1e-6), (3, .05), (1, .5), (1, 5.), (1, None)])
        if me is None:
            me = d.pos_real(1e-4, 50.)
    reps = d.int(1, 6)
    d.note('scene', spec.describe())
    if not crowd:
        d.note('rays', scene.describe_rays(rays))
    d.note('reps', reps)
    d.note('min_energy', me)
    N.random.seed(d.seed())
    asm = scene.build(spec, d)
    e, v, dd = scene.trace(asm, scene.to_bundle(rays), reps, me)
    judge(d, surfs, scene.read_tree(e.tree), reps, me)


GLASSY = ['refract', 'refract', 'mirror', 'onesided']

def tie_probe():
    s = [scene.SurfSpec(ref.Rect(1., 1.), scene.Optic('mirror', 0.), ref.Frame()) for _ in range(2)]
    asm = scene.build(scene.AsmSpec([scene.ObjSpec(s, ref.Frame())], [], ref.Frame()))
    e, v, dd = scene.trace(asm, scene.to_bundle([scene.Ray((0., 0., 1.), (0., 0., -1.), 1., 1.)]), 1, 0.)
    return sum(r.e for r in scene.read_tree(e.tree)[1]) > 1.5


PROBES = {'tie': tie_probe}

SUBS = [
    Sub('scenes', case, 4000, 50000, 'mixed scenes'),
    Sub('crowd', lambda d: case(d, crowd=True, max_surfs=5), 62, 700, 'hundreds of rays'),
    Sub('glass', lambda d: case(d, optics=GLASSY, max_surfs=5), 2000, 25000, 'mostly refractive scenes'),
]
