"""C01: every ray is intercepted by the nearest surface in front of it."""
import math
import numpy as N
from vt import scene, ref, gen
from vt.common import Sub, array, bad, close
from vt.scene import Hit

ID = 'C01'
RULE = ('A random scene (1-9 surfaces of twelve shapes, random frames, nested up to 4 deep, built in several ways, optics of all kinds) '
        'and a bundle of 1-40 (some up to 200) rays is traced for 1-6 steps. Every followed ray of every recorded bundle is compared with '
        'the nearest crossing of the reference surfaces from that recorded ray. Non-trivial: at least two surfaces, and at '
        'least one ray with a decided hit that has another surface crossing further along or an escape, or a second step.')
ASSUMPTIONS = ['rays whose nearest crossing is tied with another, at an aperture edge, tangent, or within 2e-6 of (but not at) the '
               'ray start are not judged (counted as undecided)']


def run(d, surfs, spec, asm, rays, reps, me, engine=None):
    if engine is None:
        e, v, dd = scene.trace(asm, scene.to_bundle(rays), reps, me)
    else:
        e = engine
        v, dd = e.ray_tracer(scene.to_bundle(rays), reps, me)
    levels = scene.read_tree(e.tree)
    seen = set()
    decided = 0
    for k, i, r, exp, kids in scene.steps(surfs, levels, me, reps):
        if exp == 'undecided':
            d.event('undecided')
            continue
        decided += 1
        if exp is None:
            d.event('escape')
            seen.add('escape')
            if kids:
                bad('step %d: ray %d from %r along %r meets no surface ahead, but %d ray(s) come out of %r', k, i, r.o,
                    r.d, len(kids), kids[0].o)
            continue
        d.event('hit ' + exp.surf.shape.kind)
        seen.add('hit')
        if not kids:
            bad('step %d: ray %d from %r along %r should hit the %s (surface %d) at %r, but it has no descendants', k, i,
                r.o, r.d, exp.surf.shape.kind, exp.idx, exp.p)
        tol = scene.point_tol(exp, r.o)
        for c in kids:
            if not ref.dist(c.o, exp.p) <= tol:
                bad('step %d: ray %d from %r along %r should hit the %s (surface %d) at %r, was intercepted at %r', k, i,
                    r.o, r.d, exp.surf.shape.kind, exp.idx, exp.p, c.o)
        n = exp.surf.normal_world(exp.c, r.d)
        ch = scene.children(exp.surf.optics, r.d, n, exp.surf.frame.z(), r.e, r.n)
        if ch is not None and len(ch) != len(kids):
            bad('step %d: ray %d hitting the %s (%s) produced %d rays instead of %d', k, i, exp.surf.shape.kind,
                exp.surf.optics.kind, len(kids), len(ch))
        if k:
            seen.add('later')
            d.event('later step')
    d.nontrivial(len(surfs) > 1 and len(seen) > 1)
    d.event('decided', decided)
    # what is returned is the rays still followed
    live = [r for r in levels[-1] if len(levels) == 1 or r.e > me]
    vv = array(v, (3, None), 'returned vertices')
    dv = array(dd, (3, vv.shape[1]), 'returned directions')
    if len(levels) == reps + 1:
        if vv.shape[1] != len(live):
            bad('%d rays returned, %d are still followed', vv.shape[1], len(live))
        close(vv, N.array([r.o for r in live]).T.reshape(3, -1), 1e-12, 'returned vertices')
        close(dv, N.array([r.d for r in live]).T.reshape(3, -1), 1e-12, 'returned directions')
    else:
        if vv.shape[1]:
            bad('the trace ended after %d steps with %d rays returned', len(levels) - 1, vv.shape[1])


def case(d, scales=False, **kw):
    if scales:
        kw['scale'] = d.choice([.02, .1, 30., 200.])
    g = scene.Gen(d, **kw)
    spec = g.scene()
    surfs = spec.surfaces()
    big = d.bool(.05)
    rays = scene.gen_rays(d, surfs, g.glass, 80 if big else 10, 200 if big else 40, sc=g.sc)
    reps = d.int(1, 6)
    me = d.weighted([(3, 0.), (2, 1e-6), (1, .05)])
    d.note('scene', spec.describe())
    d.note('rays', scene.describe_rays(rays))
    d.note('reps', reps)
    d.note('min_energy', me)
    N.random.seed(d.seed())
    asm = scene.build(spec, d)
    run(d, surfs, spec, asm, rays, reps, me)


def crowd(d):
    """Bundles of hundreds or thousands of rays."""
    g = scene.Gen(d, max_surfs=d.choice([2, 5, 9]))
    spec = g.scene()
    surfs = spec.surfaces()
    d.note('scene', spec.describe())
    rays = scene.many_rays(d, surfs, g.glass, 200, 4000 // len(surfs) + 300)
    reps = d.int(1, 3)
    d.note('reps', reps)
    N.random.seed(d.seed())
    run(d, surfs, spec, scene.build(spec, d), rays, reps, 1e-3)


def deep(d):
    """Two facing plates and something between: dozens of steps."""
    spec, surfs, rays = scene.facing_plates(d)
    reps = d.int(10, 60)
    d.note('scene', spec.describe())
    d.note('rays', scene.describe_rays(rays))
    d.note('reps', reps)
    run(d, surfs, spec, scene.build(spec, d), rays, reps, 1e-3)


def herd(d):
    """Very many surfaces, as a heliostat field has, and a few rays."""
    g = scene.Gen(d, max_surfs=200)
    spec = g.asm()
    n = d.int(65, 140)
    while spec.count() < n:
        a = d.choice([spec] + spec.subs)
        g.left = n - spec.count()
        a.objs.append(g.obj())
    surfs = spec.surfaces()
    rays = scene.gen_rays(d, surfs, g.glass, 6, 20)
    reps = d.int(1, 3)
    d.note('scene', spec.describe())
    d.note('rays', scene.describe_rays(rays))
    d.note('reps', reps)
    N.random.seed(d.seed())
    run(d, surfs, spec, scene.build(spec, d), rays, reps, 1e-6)


def cavity(d):
    """Closed mirrored or glass cavities, where every step depends on not losing the crossing ahead."""
    k = d.choice(['sphere', 'fincyl', 'cutsphere'])
    R = d.pos_real(.5, 5.)
    f = gen.frame(d, 3.)
    if k == 'sphere':
        sh = [ref.Sphere(R)]
    elif k == 'fincyl':
        h = d.pos_real(.5, 5.)
        cap = ref.Round(R)
        sh = [ref.FinCyl(2 * R, h), cap, ref.Round(R)]
    else:       # a sphere made of two complementary parts
        z = d.unif(-.9, .9) * R
        up = ref.Bound('plane', ref.Frame(t=(0., 0., z)))
        dn = ref.Bound('plane', ref.Frame(((1., 0., 0.), (0., -1., 0.), (0., 0., -1.)), (0., 0., z)))
        sh = [ref.CutSphere(R, up), ref.CutSphere(R, dn)]
    opt = d.choice([scene.Optic('mirror', 0.), scene.Optic('lambert', 0.), scene.Optic('refract', n=(1., 1.5))])
    ss = []
    for i, s in enumerate(sh):
        loc = (0., 0., 0.)
        if k == 'fincyl' and i:
            loc = (0., 0., sh[0].h / 2. * (1 if i == 1 else -1))
        ss.append(scene.SurfSpec(s, opt, ref.Frame(t=loc)))
    spec = scene.AsmSpec([scene.ObjSpec(ss, f)], [], gen.frame(d, 3.))
    surfs = spec.surfaces()
    w = spec.frame.mul(f)
    rays = []
    while d.more(len(rays), 12, 1, 40):
        lo = ref.scale(gen.unit_vec(d), .8 * min(R, getattr(sh[0], 'h', R) / 2.) * d.unif(0., 1.))
        rays.append(scene.Ray(w.apply(lo), gen.unit_vec(d), 1., 1.5 if d.bool(.3) else 1.))
    reps = d.int(2, 9)
    d.note('scene', spec.describe())
    d.note('rays', scene.describe_rays(rays))
    d.note('reps', reps)
    d.event('cavity ' + k + ' ' + opt.kind)
    N.random.seed(d.seed())
    run(d, surfs, spec, scene.build(spec, d), rays, reps, 1e-3)
    d.nontrivial()


def empty(d):
    """No surfaces, or surfaces that none of the rays meet, or no rays at all: everything escapes at once."""
    from tracer.assembly import Assembly
    from tracer.object import AssembledObject
    rays = []
    while d.more(len(rays), 3, 0, 10):
        rays.append(scene.Ray(gen.point(d), gen.unit_vec(d), d.choice([1., 0., 3.]), 1.))
    k = d.choice(['no objects', 'empty object', 'nested', 'far'])
    reps, me = d.int(0, 4), d.choice([0., .5])
    tree = d.bool(.7)
    asm = Assembly()
    if k == 'empty object':
        asm.add_object(AssembledObject())
    elif k == 'nested':
        asm.add_assembly(Assembly(objects=[AssembledObject(), AssembledObject(surfs=[])]))
    elif k == 'far':
        f = ref.Frame(t=(0., 0., 1e4))
        asm = scene.build(scene.AsmSpec([scene.ObjSpec([scene.SurfSpec(ref.Round(.1), scene.Optic('mirror', 0.), f)], ref.Frame())], [],
                                        ref.Frame()), d)
        if any(scene.first_hit([ref.RefSurface(ref.Round(.2), f)], r.o, r.d) is not None for r in rays):
            return
    d.note('case', [k, reps, me, tree])
    d.note('rays', scene.describe_rays(rays))
    b = scene.to_bundle(rays) if rays else __import__('tracer.ray_bundle', fromlist=['x']).RayBundle.empty_bund()
    e, v, dd = scene.trace(asm, b, reps, me, tree=tree)
    n = len(rays) if reps == 0 else 0
    array(v, (3, n), 'returned vertices')
    array(dd, (3, n), 'returned directions')
    if tree and len(scene.read_tree(e.tree)) != 1:
        bad('there is nothing to meet, but the tree has %d generations', e.tree.num_bunds())
    d.event(k)
    d.nontrivial(len(rays) > 0 and reps > 0)


def distant(d):
    """Flat parts and light a million to hundreds of millions apart: each ray still meets the nearest part ahead."""
    L = 10 ** d.unif(4., 8.)
    at = gen.point(d, 3.)
    axis = gen.unit_vec(d)
    kinds = ['rect', 'round', 'tri', 'plane']
    ss, n = [], d.int(1, 4)
    for i in range(n):
        f = gen.frame(d, 3.)
        if d.bool(.3):
            f = ref.Frame(f.R, ref.along(f.t, axis, L * d.unif(.1, 1.)))
        ss.append(scene.SurfSpec(gen.shape(d, kinds, .5, 6.), scene.Optic('mirror', 0.), f))
    spec = scene.AsmSpec([scene.ObjSpec([s], ref.Frame()) for s in ss], [], ref.Frame())
    surfs = spec.surfaces()
    rays, want = [], []
    while d.more(len(rays), 6, 1, 20):
        s = d.choice(surfs)
        p = s.frame.apply(s.shape.sample(d))
        v = d.weighted([(2, None), (1, 1.), (1, -1.)])
        v = gen.unit_vec(d) if v is None else ref.unit(ref.along(gen.point(d, .1), axis, v))
        o = ref.along(p, v, -L * d.choice([1., .3, 2.]))
        v = ref.unit(ref.sub(p, o))
        rays.append(scene.Ray(o, v, 1., 1.))
    d.note('scene', spec.describe())
    d.note('rays', scene.describe_rays(rays))
    tol = 1e-13 * max([L] + [ref.norm(r.o) for r in rays] + [ref.norm(s.frame.t) for s in surfs])
    for r in rays:
        got, ok = None, True
        for i, s in enumerate(surfs):
            z = s.frame.z()
            c = ref.dot(r.d, z)
            if abs(c) < .05:
                ok = False
                break
            t = ref.dot(ref.sub(s.frame.t, r.o), z) / c
            q = s.frame.inv(ref.along(r.o, r.d, t))
            m = 1e99 if s.shape.kind == 'plane' else s.shape.margin((q[0], q[1], 0.))
            if t < -1000 * tol - 1e-3 or m < -1000 * tol - 1e-6:
                continue
            if abs(t) <= 1000 * tol + 1e-3 or m <= 1000 * tol + 1e-6:
                ok = False
                break
            if got is not None and abs(got[0] - t) <= 2000 * tol + 1e-3:
                ok = False
                break
            if got is None or t < got[0]:
                got = (t, i, ref.along(r.o, r.d, t))
        want.append(got if ok else 'undecided')
    e, v, dd = scene.trace(scene.build(spec, d), scene.to_bundle(rays), 1, 0.)
    levels = scene.read_tree(e.tree)
    nxt = levels[1] if len(levels) > 1 else []
    for i, (r, js) in enumerate(zip(rays, scene.by_parent(nxt, len(rays)))):
        w = want[i]
        if w == 'undecided':
            d.event('undecided')
            continue
        if w is None:
            d.event('escapes')
            if js:
                bad('ray %d from %r along %r meets nothing, but %d rays come out', i, r.o, r.d, len(js))
            continue
        d.event('hit at 1e%d' % int(math.log10(w[0])))
        d.nontrivial(w[0] > 1e6)
        if len(js) != 1:
            bad('ray %d from %r along %r meets surface %d after %r, but %d rays come out', i, r.o, r.d, w[1], w[0], len(js))
        if not ref.dist(nxt[js[0]].o, w[2]) <= 1e-6 + 1000 * tol:
            bad('ray %d from %r along %r should meet surface %d first, at %r; it is stopped at %r', i, r.o, r.d, w[1], w[2], nxt[js[0]].o)


def ties(d):
    """Coincident surfaces. That each of them produces rays is a known finding; but no ray may be lost, nor come out anywhere else."""
    sh = gen.shape(d, gen.SHAPES, .4, 6.)
    f, w = gen.frame(d, 3.), gen.frame(d, 3.)
    opts = [scene.gen_optics(d, ['mirror', 'refract', 'receiver'], 1.5) for _ in range(2)]
    ss = [scene.SurfSpec(sh, o, f) for o in opts]
    objs = [scene.ObjSpec(ss, ref.Frame())] if d.bool() else [scene.ObjSpec([s], ref.Frame()) for s in ss]
    spec = scene.AsmSpec(objs, [], w)
    surfs = spec.surfaces()
    rays = scene.gen_rays(d, surfs, 1.5, 6, 20, zero=False)
    d.note('scene', spec.describe())
    d.note('rays', scene.describe_rays(rays))
    e, v, dd = scene.trace(scene.build(spec, d), scene.to_bundle(rays), 1, 0.)
    levels = scene.read_tree(e.tree)
    nxt = levels[1] if len(levels) > 1 else []
    for i, (r, js) in enumerate(zip(levels[0], scene.by_parent(nxt, len(rays)))):
        h = scene.first_hit(surfs[:1], r.o, r.d)
        if h == 'undecided':
            d.event('undecided')
            continue
        if h is None:
            if js:
                bad('ray %d from %r along %r meets nothing, but %d rays come out', i, r.o, r.d, len(js))
            continue
        n = h.surf.normal_world(h.c, r.d)
        ch = [scene.children(o, r.d, n, h.surf.frame.z(), r.e, r.n) for o in opts]
        if None in ch:
            continue
        num = [len(c) for c in ch]
        d.event('tie')
        d.nontrivial()
        if len(js) not in (num[0], num[1], num[0] + num[1]):
            bad('ray %d from %r along %r hits two coincident surfaces that produce %r rays, %d come out', i, r.o, r.d, num, len(js))
        for j in js:
            if not ref.dist(nxt[j].o, h.p) <= scene.point_tol(h, r.o):
                bad('ray %d from %r along %r should hit the %s at %r, was intercepted at %r', i, r.o, r.d, sh.kind, h.p, nxt[j].o)


def thin(d):
    """Layers of the same shape a hair apart (1e-7 to 1e-2): the first is hit first, and its rays meet the next."""
    sh = gen.shape(d, ['rect', 'round', 'tri', 'plane', 'sphere', 'hemi', 'parab', 'dish', 'hex', 'fincyl'], .4, 6.)
    gap = 10 ** d.unif(-7., -2.)
    k = d.int(2, 4)
    base = gen.frame(d, 3.)
    ax = d.choice([(0., 0., 1.), (1., 0., 0.), (0., .6, .8)]) if sh.kind not in ('rect', 'round', 'tri', 'plane') else (0., 0., 1.)
    ss = []
    for i in range(k):
        ss.append(scene.SurfSpec(sh, scene.gen_optics(d, ['mirror', 'refract', 'refract', 'receiver'], 1.5),
                                 base.mul(ref.Frame(t=ref.scale(ax, gap * i)))))
    objs = [scene.ObjSpec(ss, gen.frame(d, 3.))]
    if d.bool():
        f = objs[0].frame
        objs = [scene.ObjSpec([s], f) for s in ss]
    spec = scene.AsmSpec(objs, [], gen.frame(d, 3.))
    surfs = spec.surfaces()
    rays = scene.gen_rays(d, surfs, 1.5, 8, 30, zero=False)
    reps = d.int(1, 6)
    d.note('scene', spec.describe())
    d.note('rays', scene.describe_rays(rays))
    d.note('reps', reps)
    run(d, surfs, spec, scene.build(spec, d), rays, reps, 1e-6)


def changing(d):
    """One engine, and a scene that is added to and rearranged between its traces."""
    from tracer.tracer_engine import TracerEngine
    g = scene.Gen(d, max_surfs=4, avg=2)
    spec = g.scene()
    parts = {}
    N.random.seed(d.seed())
    asm = scene.build(spec, d, parts=parts)
    e = TracerEngine(asm)
    log = [['scene', spec.describe()]]
    n = 0

    def asms(a):
        return [a] + [x for s in a.subs for x in asms(s)]

    while d.more(n, 3, 2, 5):
        for _ in range(d.int(0, 3) if n else 0):
            everything = asms(spec)
            objs = [o for a in everything for o in a.objs]
            k = d.choice(['object', 'assembly', 'surface', 'move', 'move'])
            g.left = d.int(1, 2)
            f = gen.frame(d, 4.)
            if k == 'object':
                a, o = d.choice(everything), g.obj()
                o.frame = f
                parts[a].add_object(scene.build(o, d, parts=parts), gen.np_trans(f))
                a.objs.append(o)
            elif k == 'assembly':
                a, s = d.choice(everything), g.asm(2)
                s.frame = f
                parts[a].add_assembly(scene.build(s, d, parts=parts), gen.np_trans(f))
                a.subs.append(s)
            elif k == 'surface':
                own = [o for o in objs if o.kind != 'mirror1s']
                if not own:
                    continue
                o, s = d.choice(own), g.surf()
                parts[o].add_surface(scene.build(s, d, parts=parts))
                o.surfs.append(s)
            else:
                p = d.choice(everything + objs + [s for o in objs if o.kind != 'mirror1s' for s in o.surfs])
                p.frame = f
                parts[p].set_transform(gen.np_trans(f))
            log.append([k, spec.describe()])
        asm.transform_children()
        surfs = spec.surfaces()
        if not surfs:
            continue
        rays = scene.gen_rays(d, surfs, g.glass, 6, 20)
        reps = d.int(1, 4)
        log.append(['trace', scene.describe_rays(rays), reps])
        d.note('history', log)
        d.event('trace after %d earlier' % n)
        run(d, surfs, spec, asm, rays, reps, 1e-6, engine=e)
        n += 1


def tie_probe():
    s = [scene.SurfSpec(ref.Rect(1., 1.), scene.Optic('mirror', 0.), ref.Frame()) for _ in range(2)]
    asm = scene.build(scene.AsmSpec([scene.ObjSpec(s, ref.Frame())], [], ref.Frame()))
    e, v, dd = scene.trace(asm, scene.to_bundle([scene.Ray((0., 0., 1.), (0., 0., -1.), 1., 1.)]), 1, 0.)
    return v.shape[1] > 1


PROBES = {'tie': tie_probe}

SUBS = [
    Sub('scenes', case, 1800, 60000, 'mixed scenes'),
    Sub('two-surfaces', lambda d: case(d, max_surfs=2), 900, 30000, 'scenes of one or two surfaces, easier to shrink'),
    Sub('scales', lambda d: case(d, scales=True), 400, 10000, 'scenes of centimetres or hundreds of metres'),
    Sub('many-surfaces', lambda d: case(d, max_surfs=60, avg=20), 40, 1500, 'up to 60 surfaces'),
    Sub('herd', herd, 30, 1200, '65 to 140 surfaces, a few rays'),
    Sub('crowd', crowd, 25, 900, 'hundreds to thousands of rays'),
    Sub('deep', deep, 60, 2000, '10 to 60 steps'),
    Sub('cavities', cavity, 450, 15000, 'rays inside closed bodies bouncing up to 9 times'),
    Sub('empty', empty, 200, 3000, 'nothing to meet'),
    Sub('changing', changing, 250, 8000, 'one engine, the scene changed between its traces'),
    Sub('thin', thin, 500, 12000, 'layers a hair apart'),
    Sub('distant', distant, 400, 10000, 'flat parts and light up to 1e8 apart'),
    Sub('ties', ties, 300, 6000, 'coincident surfaces'),
]
