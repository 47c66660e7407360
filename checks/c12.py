"""C12: diffuse reflection and sunshape directions follow their distributions."""
import math
import numpy as N
from vt import scene, ref, gen, stat
from vt.common import Sub, array, bad

ID = 'C12'
RULE = ('(a) pillbox_sunshape_directions for 0-200000 rays and angles of 1e-4 to pi/2: exact bounds per ray, and the squared sine over that '
        'of the limit, the azimuth, their mutual and serial independence tested for uniformity; (b) LambertianReflector/Receiver on plates, '
        'spheres, cylinders, paraboloids in random frames, 1-200000 rays (identical, from one point or scattered, both sides): side and unit '
        'length of every ray, cosine law about its own normal, azimuth uniform relative to the incident direction; (c) diffuse rays in whole '
        'traces of mixed scenes stay on the incident side. Non-trivial: samples of 1000 or more rays, or a traced diffuse reflection.')
ASSUMPTIONS = ['distributions are judged by tests with a false-alarm probability of at most 1e-11 each (DKW bound), so deviations of the '
               'distribution function below about 0.03 (in a few large samples 0.008) are not seen, nor parts left out of less than about 26 divided by the sample size']



def count(d, lo, hi):
    k = d.weighted([(8, 'many'), (1, 'few'), (.5, 'none')])
    if k == 'many':
        if d.bool(.03):
            d.event('very many')
            return d.int(20000, 200000)
        return d.int(lo, hi)
    return 0 if k == 'none' else d.int(1, 9)


def pillbox(d):
    from tracer.sources import pillbox_sunshape_directions
    n = count(d, 1000, 12000)
    a = d.weighted([(2, 4.65e-3), (2, math.pi / 2), (2, None)])
    if a is None:
        a = d.pos_real(1e-4, math.pi / 2)
    sd = d.seed()
    d.note('rays', n)
    d.note('angle', a)
    d.note('seed', sd)
    N.random.seed(sd)
    v = array(pillbox_sunshape_directions(n, a), (3, n), 'directions')
    w = array(pillbox_sunshape_directions(n, a), (3, n), 'directions')
    if n == 0:
        return
    judge(d, v, a, 'pillbox')
    if n > 1:
        stat.distinct(N.hstack((v, w)), 'directions of two calls')
    d.nontrivial(n >= 1000)


def judge(d, v, a, what):
    """v: (3,n) in the frame whose Z is the axis."""
    n = v.shape[1]
    if not (abs((v ** 2).sum(axis=0) - 1) <= 1e-9).all():
        bad('%s: a direction is not of unit length', what)
    s2 = (v[:2] ** 2).sum(axis=0)
    if not (v[2] >= -1e-12).all() or not (s2 <= math.sin(a) ** 2 * (1 + 1e-9)).all():
        bad('%s: a direction deviates by more than %r', what, a)
    u = s2 / math.sin(a) ** 2
    az = stat.turn(N.arctan2(v[1], v[0]))
    stat.uniform(u, what + ', squared sine of the deviation')
    stat.uniform(az, what + ', azimuth')
    stat.independent(u, az, what + ', deviation and azimuth')
    stat.serial(u, what + ', deviation')
    stat.serial(az, what + ', azimuth')
    if n > 1:
        stat.distinct(v, what)
    d.event('tests', 10)


def surface(d):
    from tracer.surface import Surface
    from tracer import optics_callables as oc
    k = d.choice(['plane', 'rect', 'sphere', 'cyl', 'parab'])
    n = count(d, 1000, 6000)
    absor = d.choice([0., .3, 1.])
    recv = d.bool(.4)
    f = gen.frame(d, 4.)
    mode = d.choice(['same ray', 'same target', 'scattered'])
    side = d.bool()
    sd = d.seed()
    rng = N.random.RandomState(sd % 1000003)
    # points on the surface, local normals and incident directions towards them
    m = n if mode == 'scattered' else 1
    if k in ('plane', 'rect'):
        p = N.vstack((rng.uniform(-2, 2, m), rng.uniform(-2, 2, m), N.zeros(m)))
        nl = N.vstack((N.zeros(m), N.zeros(m), N.ones(m)))
        sh = ref.Plane() if k == 'plane' else ref.Rect(5., 5.)
    elif k == 'sphere':
        nl = rng.normal(size=(3, m))
        nl /= N.sqrt((nl ** 2).sum(axis=0))
        sh = ref.Sphere(2.)
        p = 2. * nl
    elif k == 'cyl':
        t = rng.uniform(0, 2 * math.pi, m)
        nl = N.vstack((N.cos(t), N.sin(t), N.zeros(m)))
        sh = ref.Cyl(3.)
        p = 1.5 * nl + N.vstack((N.zeros(m), N.zeros(m), rng.uniform(-2, 2, m)))
    else:
        sh = ref.Parab(1.5, 2.)
        x, y = rng.uniform(-2, 2, m), rng.uniform(-2, 2, m)
        p = N.vstack((x, y, (x / sh.a) ** 2 + (y / sh.b) ** 2))
        nl = N.vstack((2 * x / sh.a ** 2, 2 * y / sh.b ** 2, -N.ones(m)))
        nl /= N.sqrt((nl ** 2).sum(axis=0))
    if side:
        nl = -nl
    if mode != 'scattered' and n:
        p, nl = N.repeat(p, n, axis=1), N.repeat(nl, n, axis=1)
    # incident directions against nl, at most about 80 degrees off it
    q = 1 if mode == 'same ray' and n else n
    t = rng.normal(size=(3, q))
    if mode == 'same ray' and n:
        t = N.repeat(t, n, axis=1)
    t -= nl * (t * nl).sum(axis=0)
    t /= N.sqrt((t ** 2).sum(axis=0))
    ang = rng.uniform(0.05, 1.35, q)
    inc = -nl * N.cos(ang) + t * N.sin(ang)
    start = p - .1 * inc
    R, T = gen.np_rot(f), gen.np_loc(f)[:, None]
    d.note('surface', k)
    d.note('frame', f.rows4())
    d.note('rays', n)
    d.note('mode', mode)
    d.note('seed', sd)
    d.event(k + ', ' + mode)
    opt = (oc.LambertianReceiver if recv else oc.LambertianReflector)(absor)
    surf = Surface(gen.real_geom(sh), opt, location=gen.np_loc(f), rotation=gen.np_rot(f))
    from tracer.ray_bundle import RayBundle
    bun = RayBundle(vertices=N.dot(R, start) + T, directions=N.dot(R, inc), energy=N.ones(n), ref_index=N.ones(n))
    prm = array(surf.register_incoming(bun), (n,), 'parameters')
    # which rays hit where is other properties' business
    good = N.nonzero(abs(prm - .1) < 1e-6)[0]
    d.event('unexpected hit', n - len(good))
    if n and not len(good):
        return
    N.random.seed(sd)
    surf.select_rays(good)
    out = surf.get_outgoing()
    m = out.get_num_rays()
    if m != len(good):
        bad('%d rays reflected diffusely, %d came out', len(good), m)
    if not m:
        return
    v = array(out.get_directions(), (3, m), 'directions')
    par = N.array(array(out.get_parents(), (m,), 'parents'), dtype=int)
    if sorted(par.tolist()) != sorted(good.tolist()):
        bad('parents are not the selected rays')
    v = N.dot(R.T, v)
    nn, tt = nl[:, par], t[:, par]
    bb = N.cross(nn.T, tt.T).T
    loc = N.vstack(((v * tt).sum(axis=0), (v * bb).sum(axis=0), (v * nn).sum(axis=0)))
    if not (loc[2] >= -1e-9).all():
        bad('a diffusely reflected ray crosses to the other side of the surface (cosine %r)', float(loc[2].min()))
    # allow the rounding of the rotations at the horizon
    loc[2] = N.maximum(loc[2], 0.)
    judge(d, loc, math.pi / 2, 'diffuse reflection, %s' % k)
    d.nontrivial(m >= 1000)


def traced(d):
    g = scene.Gen(d, optics=['lambert', 'lreceiver', 'lambert', 'mirror', 'refract'], max_surfs=5)
    spec = g.scene()
    surfs = spec.surfaces()
    rays = scene.gen_rays(d, surfs, g.glass, 12, 40, sc=g.sc)
    reps = d.int(1, 4)
    sd = d.seed()
    d.note('scene', spec.describe())
    d.note('rays', scene.describe_rays(rays))
    d.note('reps', reps)
    d.note('seed', sd)
    N.random.seed(sd)
    e, v, dd = scene.trace(scene.build(spec, d), scene.to_bundle(rays), reps, 1e-9)
    levels = scene.read_tree(e.tree)
    for k in range(len(levels) - 1):
        dirs = []
        for i, js in enumerate(scene.by_parent(levels[k + 1], len(levels[k]))):
            kids = [levels[k + 1][j] for j in js]
            s = scene.located(surfs, kids) if kids else None
            if s is None or s.optics.kind not in ('lambert', 'lreceiver'):
                continue
            r = levels[k][i]
            n = scene.normal_at(s, kids[0].o, r.d)
            if n is None or abs(ref.dot(n, r.d)) < 1e-5:
                continue
            for c in kids:
                if not abs(ref.norm(c.d) - 1) <= 1e-9:
                    bad('diffuse direction %r is not of unit length', c.d)
                if not ref.dot(c.d, n) >= -1e-6:
                    bad('step %d: a ray along %r hitting a diffuse %s with normal %r leaves along %r, on the other side', k, r.d,
                        s.shape.kind, n, c.d)
                d.event('diffuse ' + s.shape.kind)
                d.nontrivial()
                dirs.append(c.d)
        if len(set(dirs)) != len(dirs):
            bad('step %d: two diffuse rays have exactly the same direction', k)


SUBS = [
    Sub('pillbox', pillbox, 1050, 8000, 'sunshape directions'),
    Sub('surface', surface, 1350, 10000, 'one diffuse surface, many rays'),
    Sub('traced', traced, 2100, 15000, 'diffuse surfaces in mixed scenes'),
]
