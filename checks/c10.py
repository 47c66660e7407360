"""C10: mirrors obey the law of reflection."""
import math
import numpy as N
from vt import scene, single, ref, gen
from vt.common import Sub, array, index_array, bad, close

ID = 'C10'
RULE = ('(a) optics.reflections on 0-60 random directions and normals, against the vector law, unit length, and involution; (b) one '
        'surface of any shape and frame with each specular optics, random selections of its hits: directions, indices, parents and a '
        'user property of the outgoing rays; (c) whole traces of scenes with mirrors; (d) axis-parallel rays on parabolic dishes meet in '
        'the focus, rays from a sphere\'s centre return. Non-trivial: at least one reflection away from normal incidence.')
ASSUMPTIONS = ['in (b) and (c) the normal is that of the reference surface at the recorded hit point; points on several surfaces or '
               'within 1e-6 of grazing are not judged']


def function(d):
    from tracer import optics
    n = d.weighted([(1, 0), (2, 1), (6, None)])
    if n is None:
        n = d.int(2, 60)
    rays, norms = [], []
    for i in range(n):
        v = gen.unit_vec(d)
        k = d.weighted([(6, 'any'), (1, 'normal'), (1, 'grazing'), (1, 'same')])
        if k == 'normal':
            m = ref.scale(v, -1.)
        elif k == 'same':
            m = v
        elif k == 'grazing':
            w = gen.unit_vec(d)
            m = ref.cross(v, w)
            m = ref.unit(m) if ref.norm(m) > 1e-3 else w
        else:
            m = gen.unit_vec(d)
        rays.append(v)
        norms.append(m)
    d.note('directions', rays)
    d.note('normals', norms)
    D = N.array(rays).T.reshape(3, n)
    M = N.array(norms).T.reshape(3, n)
    D0, M0 = D.copy(), M.copy()
    out = array(optics.reflections(D, M), (3, n), 'reflections')
    exp = N.array([scene.reflect(v, m) for v, m in zip(rays, norms)]).T.reshape(3, n)
    close(out, exp, 1e-12, 'reflected directions')
    if not ((D == D0).all() and (M == M0).all()):
        bad('the incoming directions or normals were altered')
    close(array(optics.reflections(out.copy(), M), (3, n), 'reflections'), D, 1e-12, 'twice reflected directions')
    close(array(optics.reflections(D, -M), (3, n), 'reflections'), exp, 1e-12, 'reflections off reversed normals')
    if n:       # one normal for all of them
        exp = N.array([scene.reflect(v, norms[0]) for v in rays]).T.reshape(3, n)
        close(array(optics.reflections(D, M[:, :1]), (3, n), 'reflections'), exp, 1e-12, 'directions reflected off a common normal')
    d.nontrivial(n > 1)


def gen_optics(d):
    from tracer import optics_callables as oc
    a = d.choice([0., .2, .5, 1.])
    k = d.choice(['perfect', 'reflective', 'receiver', 'onesided'])
    if k == 'perfect':
        return k, oc.perfect_mirror
    if k == 'reflective':
        return k, oc.Reflective(a)
    if k == 'receiver':
        return k, oc.ReflectiveReceiver(a)
    return k, oc.AbsorberReflector(a)


def judge(d, rs, v, c, what):
    """One reflected ray (scene.Ray c) of a ray along v."""
    n = scene.normal_at(rs, c.o, v)
    if n is None:
        return
    cosi = -ref.dot(v, n)
    if not abs(ref.norm(c.d) - 1.) <= 1e-9:
        bad('%s: the reflected direction %r is not of unit length', what, c.d)
    if cosi < 1e-6:
        d.event('grazing')
        return
    if not ref.dist(c.d, scene.reflect(v, n)) <= (1e-5 if rs.shape.quadric else 1e-9):
        bad('%s: a ray along %r hitting where the normal is %r is reflected along %r instead of %r', what, v, n, c.d,
            scene.reflect(v, n))
    d.event('reflections')
    if cosi < .999:
        d.nontrivial()


def surface(d):
    kind, opt = gen_optics(d)
    surf, rs, sc = single.build(d, gen.SHAPES, opt)
    rays = single.rays_for(d, rs, sc)
    n = len(rays)
    tags = [float(i) * 1.5 - 3. for i in range(n)]
    idx = [d.choice([1., 1.5, 1.2]) for _ in range(n)]
    b = gen.bundle(rays, [1.] * n, idx, tag=N.array(tags))
    hits = single.match_params(rs, rays, surf.register_incoming(b))
    sel = single.selection(d, hits)
    d.note('optics', kind)
    d.note('selected', sel)
    if not sel:
        return
    surf.select_rays(N.array(sel))
    out = surf.get_outgoing()
    m = len(sel)
    par = index_array(out.get_parents(), m, n, 'parents')
    V = array(out.get_vertices(), (3, m), 'outgoing vertices').T.tolist()
    D = array(out.get_directions(), (3, m), 'outgoing directions').T.tolist()
    R = array(out.get_ref_index(), (m,), 'outgoing indices').tolist()
    T = array(out.get_tag(), (m,), 'outgoing user property').tolist()
    if sorted(par) != sorted(sel):
        bad('the outgoing rays\' parents are %r, selected were %r', par, sel)
    for j, i in enumerate(par):
        if R[j] != idx[i]:
            bad('the reflection of ray %d has index %r instead of %r', i, R[j], idx[i])
        if T[j] != tags[i]:
            bad('the reflection of ray %d has another ray\'s user property', i)
        p = tuple(V[j])
        q = rs.frame.inv(p)
        if not abs(rs.shape.residual(q)) <= 1e-6 * max(1., rs.shape.extent):
            d.event('hit point elsewhere, not judged')
            continue
        if kind == 'onesided' and ref.dot(rays[i][1], rs.frame.z()) > -1e-9:
            d.event('swallowed, not judged')
            continue
        judge(d, rs, rays[i][1], scene.Ray(p, tuple(D[j]), 1., 1.), '%s %s, ray %d' % (kind, rs.shape.kind, i))
    d.event(kind)


MIRRORS = ['mirror', 'onesided', 'receiver', 'mirror', 'refract']


def traced(d):
    g = scene.Gen(d, optics=MIRRORS)
    spec = g.scene()
    surfs = spec.surfaces()
    rays = scene.gen_rays(d, surfs, g.glass, 10, 40, sc=g.sc)
    reps = d.int(1, 6)
    d.note('scene', spec.describe())
    d.note('rays', scene.describe_rays(rays))
    d.note('reps', reps)
    e, v, dd = scene.trace(scene.build(spec, d), scene.to_bundle(rays), reps, 0.)
    levels = scene.read_tree(e.tree)
    for k in range(len(levels) - 1):
        for i, js in enumerate(scene.by_parent(levels[k + 1], len(levels[k]))):
            kids = [levels[k + 1][j] for j in js]
            r = levels[k][i]
            s = scene.located(surfs, kids) if kids else None
            if s is None:
                continue
            what = 'generation %d, ray %d, %s' % (k, i, s.shape.kind)
            if s.optics.kind != 'refract':
                if len(kids) > 1:
                    bad('%s: a mirror made %d rays of one', what, len(kids))
                if kids[0].n != r.n:
                    bad('%s: index %r became %r on reflection', what, r.n, kids[0].n)
                if s.optics.kind != 'onesided' or ref.dot(r.d, s.frame.z()) < -1e-9:
                    judge(d, s, r.d, kids[0], what)
            else:
                same = [c for c in kids if abs(c.n - r.n) < 1e-12]
                if len(same) == 1:
                    judge(d, s, r.d, same[0], what)


def focus(d):
    """Consequences: focus of a dish, centre of a sphere."""
    from tracer.optics_callables import Reflective
    k = d.choice(['dish', 'hex', 'parab', 'sphere', 'hemi'])
    sh = gen.shape(d, [k], .3, 6.)
    if k == 'parab':
        sh = ref.Parab(*([d.pos_real(.3, 6.)] * 2))
    f = gen.frame(d, 5.)
    spec = scene.AsmSpec([scene.ObjSpec([scene.SurfSpec(sh, scene.Optic('mirror', 0.), gen.frame(d, 3.))], gen.frame(d, 3.))], [], f)
    s = spec.surfaces()[0]
    rays = []
    if k in ('sphere', 'hemi'):
        while d.more(len(rays), 8, 1, 20):
            rays.append(scene.Ray(s.frame.apply((0., 0., 0.)), gen.unit_vec(d), 1., 1.))
        F = (0., 0., 0.)
    else:
        # z = x^2 / a^2 with a = 2 sqrt(f)
        foc = sh.f if k != 'parab' else sh.a ** 2 / 4.
        F = (0., 0., foc)
        while d.more(len(rays), 8, 1, 20):
            p = sh.sample(d, .95)
            h = d.unif(.5, 5.)
            rays.append(scene.Ray(s.frame.apply((p[0], p[1], p[2] + h)), s.frame.dir((0., 0., -1.)), 1., 1.))
    d.note('shape', [sh.kind, sh.describe()])
    d.note('frame', s.frame.rows4())
    d.note('rays', scene.describe_rays(rays))
    e, v, dd = scene.trace(scene.build(spec, d), scene.to_bundle(rays), 1, 0.)
    levels = scene.read_tree(e.tree)
    if len(levels) < 2:
        return
    W = s.frame.apply(F)
    for c in levels[1]:
        w = ref.sub(W, c.o)
        t = ref.dot(w, c.d)
        off = ref.norm(ref.sub(w, ref.scale(c.d, t)))
        if not (off <= 1e-7 * max(1., abs(t)) and t > -1e-9):
            bad('a %s at %r sends a ray from %r along %r, which passes its %s at %r by %g', sh.kind, s.frame.rows4(), c.o, c.d,
                'centre' if k in ('sphere', 'hemi') else 'focus', W, off)
        d.event('rays through the ' + ('centre' if k in ('sphere', 'hemi') else 'focus'))
        d.nontrivial()


SUBS = [
    Sub('function', function, 4500, 30000, 'optics.reflections'),
    Sub('surface', surface, 7500, 60000, 'one surface'),
    Sub('traced', traced, 2100, 25000, 'whole traces'),
    Sub('focus', focus, 3000, 20000, 'dish focus and sphere centre'),
]
