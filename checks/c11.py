"""C11: refractive interfaces obey Snell, Fresnel and total internal reflection."""
import math
import numpy as N
from vt import scene, single, ref, gen
from vt.ref import dot, scale, add, sub, norm, dist, unit
from vt.common import Sub, array, index_array, bad, close

ID = 'C11'
RULE = ('(a) optics.refractions and optics.fresnel on 1-60 rays with per-ray or common indices, exact normal, grazing and (near-)critical '
        'incidence mixed, either normal orientation, against scalar Snell and Fresnel formulae, with reversibility; (b) '
        'RefractiveHomogenous on one surface of any shape, rays in either medium, any selection including none; (c) whole traces of '
        'scenes with refractive surfaces. Non-trivial: refracted and totally reflected or oblique rays present.')
ASSUMPTIONS = ['whether a ray within 1e-12 (functions) or 1e-7 (surfaces) of the critical angle is refracted is not judged, but its '
               'results must be finite and its energy split between 0 and 1', 'rays travel in one of the interface\'s two media']


def incidence(d, n1, n2):
    """(direction, normal with either orientation, cosine of incidence, class)"""
    m = gen.unit_vec(d)
    w = gen.unit_vec(d, .1)
    x = sub(w, scale(m, dot(w, m)))
    if norm(x) < 1e-3:
        x = ref.cross(m, (.36, .48, .8))
    if norm(x) < 1e-3:
        x = ref.cross(m, (.8, .36, .48))
    x = unit(x)
    k = d.weighted([(6, 'any'), (2, 'normal'), (1, 'near normal'), (2, 'critical'), (1, 'near grazing'), (1, 'grazing')])
    crit = math.asin(n2 / n1) if n2 < n1 else None
    if k == 'critical' and crit is None:
        k = 'any'
    if k == 'normal':
        v = scale(m, -1.)
    elif k == 'near normal':
        a = 10 ** d.unif(-9., -3.)
        v = unit(add(scale(m, -math.cos(a)), scale(x, math.sin(a))))
    elif k == 'critical':
        j = d.choice(['exact', 'above', 'below'])
        a = crit
        if j != 'exact':
            a += (1 if j == 'above' else -1) * 10 ** d.unif(-15., -2.)
        a = min(a, math.pi / 2)
        v = unit(add(scale(m, -math.cos(a)), scale(x, math.sin(a))))
    elif k == 'grazing':
        a, b = d.choice([((1., 0., 0.), (0., 1., 0.)), ((0., -1., 0.), (0., 0., 1.)), ((.6, .8, 0.), (0., 0., -1.)), ((.6, 0., .8), (0., 1., 0.)),
                         ((.6, .8, 0.), (.8, -.6, 0.))])
        v, m = (a, b) if d.bool() else (b, a)
    elif k == 'near grazing':
        a = math.pi / 2 - 10 ** d.unif(-7., -2.)
        v = unit(add(scale(m, -math.cos(a)), scale(x, math.sin(a))))
    else:
        a = d.unif(0., 1.55)
        v = unit(add(scale(m, -math.cos(a)), scale(x, math.sin(a))))
    if d.bool(.3):
        m = scale(m, -1.)
    return v, m, k


def functions(d):
    from tracer import optics
    n = d.weighted([(2, 1), (6, None)])
    if n is None:
        n = d.int(2, 60)
    common = d.bool(.3)
    flat = d.bool(.12)      # one normal for all of them
    c1, c2 = d.choice([1., 1.5, 1.33, 2.4]), d.choice([1.5, 1., 1.7, 1.33])
    n1, n2, dirs, norms, kinds = [], [], [], [], []
    for i in range(n):
        a, b = (c1, c2) if common else (d.real(1., 3.), d.real(1., 3.))
        if not common and d.bool(.1):
            b = a * (1 + d.choice([-1., 1.]) * 10 ** d.unif(-6., -2.))
        v, m, k = incidence(d, a, b)
        if flat and i:
            m = norms[0]
            k = 'common normal'
        d.event(k)
        n1.append(a)
        n2.append(b)
        dirs.append(v)
        norms.append(m)
        kinds.append(k)
    d.note('n1', n1)
    d.note('n2', n2)
    d.note('directions', dirs)
    d.note('normals', norms)
    D, M = N.array(dirs).T.copy(), N.array(norms).T.copy()
    A, B = (c1, c2) if common else (N.array(n1), N.array(n2))
    one = flat and d.bool()
    refr, out = optics.refractions(A, B, D, M[:, :1] if one else M)
    refr = N.asarray(refr)
    if refr.shape != (n,):
        bad('refracted mask of shape %r for %d rays', refr.shape, n)
    mask = [bool(x) for x in refr]
    out = array(out, (3, sum(mask)), 'refracted directions')
    if not ((D == N.array(dirs).T).all() and (M == N.array(norms).T).all()):
        bad('the arguments were altered')
    j = 0
    seen = set()
    back = []
    for i in range(n):
        v, m = dirs[i], norms[i]
        if dot(v, m) > 0:
            m = scale(m, -1.)
        c = -dot(v, m)
        s = sub(v, scale(m, dot(v, m)))        # tangential part
        r = n1[i] / n2[i]
        st = norm(s) * r
        if st > 1 + 1e-12 and mask[i]:
            bad('ray %d (indices %r, %r, sine %r) is refracted beyond the critical angle', i, n1[i], n2[i], norm(s))
        if st < 1 - 1e-12 and not mask[i]:
            bad('ray %d (indices %r, %r, sine %r) is not refracted', i, n1[i], n2[i], norm(s))
        if not mask[i]:
            seen.add('total')
            continue
        t = tuple(out[:, j].tolist())
        j += 1
        st = min(st, 1.)
        ct = math.sqrt(1 - st * st)
        if c < 1e-15 and dot(t, m) > 0:        # along the interface, neither side is the front
            m = scale(m, -1.)
        exp = add(scale(s, r), scale(m, -ct))
        tol = 1e-12 + 3e-14 / max(ct, 1e-7)
        if not dist(t, exp) <= tol:
            bad('ray %d along %r at normal %r, indices %r to %r, is refracted along %r instead of %r', i, v, norms[i], n1[i], n2[i],
                t, exp)
        if not abs(norm(t) - 1) <= max(tol, 1e-9):
            bad('ray %d: refracted direction %r is not of unit length', i, t)
        seen.add('refracted')
        if st > 1e-6:
            seen.add('oblique')
        back.append((i, t, ct))
    d.nontrivial('oblique' in seen)
    d.event('total', 1 if 'total' in seen else 0)
    if not back:
        return
    sel = [b[0] for b in back]
    fa, fb = (c1, c2) if common else (N.array([n1[i] for i in sel]), N.array([n2[i] for i in sel]))
    R = array(optics.fresnel(D[:, sel], M[:, :1] if one else M[:, sel], fa, fb), (len(sel),), 'reflectances').tolist()
    for (i, t, ct), r in zip(back, R):
        c = abs(dot(dirs[i], norms[i]))
        if n1[i] == n2[i] and c == 0:
            continue
        if not -1e-12 <= r <= 1 + 1e-9:
            bad('ray %d: reflectance %r', i, r)
        if n1[i] == n2[i] and c < 1e-4:
            continue
        c = min(c, 1.)
        ct = math.sqrt(max(0., 1 - (n1[i] / n2[i]) ** 2 * (1 - c * c)))
        rs = ((n1[i] * c - n2[i] * ct) / (n1[i] * c + n2[i] * ct)) ** 2
        rp = ((n1[i] * ct - n2[i] * c) / (n1[i] * ct + n2[i] * c)) ** 2
        tol = 1e-10 + 5e-13 / max(ct, 1e-7) + 5e-13 / max(c, 1e-7) + 4e-14 * (1 / max(ct, 1e-7) + 1 / max(c, 1e-7)) / max(c + ct, 1e-7)
        if n1[i] == n2[i]:
            tol = 1e-6
        if not abs(r - (rs + rp) / 2) <= tol:
            bad('ray %d (indices %r to %r, cosine %r): reflectance %r instead of %r', i, n1[i], n2[i], c, r, (rs + rp) / 2)
    # reversibility: the refracted ray coming back is refracted along the incoming one, with the same reflectance
    ok = [(i, t, r) for (i, t, ct), r in zip(back, R) if ct > 1e-3 and abs(dot(dirs[i], norms[i])) > 1e-3]
    if not ok:
        return
    T = -N.array([t for _, t, _ in ok]).T
    idx = [i for i, _, _ in ok]
    b1, b2 = N.array([n2[i] for i in idx]), N.array([n1[i] for i in idx])
    refr2, out2 = optics.refractions(b1, b2, T, M[:, idx])
    if not N.asarray(refr2).all():
        bad('a reversed refracted ray is totally reflected')
    close(array(out2, (3, len(idx)), 'reversed directions'), -D[:, idx], 1e-8, 'reversed paths')
    R2 = array(optics.fresnel(T, M[:, idx], b1, b2), (len(idx),), 'reflectances')
    close(R2, [r for _, _, r in ok], 1e-8, 'reflectance of the reversed path')


def judge(d, rs, r, kids, what):
    """What came out of ray r at refractive reference surface rs."""
    n = scene.normal_at(rs, kids[0].o, r.d)
    if n is None:
        return
    if r.n not in rs.optics.n:
        d.event('third medium')
        return
    for c in kids:
        if not (c.e == c.e and abs(c.e) < 1e15 and all(abs(x) <= 1.001 for x in c.d)):
            bad('%s: an outgoing ray has energy %r, direction %r', what, c.e, c.d)
        if not -1e-9 * r.e <= c.e <= r.e * (1 + 1e-9):
            bad('%s: an outgoing ray has energy %r of %r', what, c.e, r.e)
        if not abs(norm(c.d) - 1) <= 1e-7:
            bad('%s: outgoing direction %r is not of unit length', what, c.d)
    exp = scene.children(rs.optics, r.d, n, None, r.e, r.n)
    n1, n2 = rs.optics.n
    other = n2 if r.n == n1 else n1
    cosi = -dot(r.d, n)
    s2 = (r.n / other) ** 2 * (1 - cosi ** 2)
    if exp is None or abs(1 - s2) < 1e-4 or cosi < 1e-3:
        d.event('critical or grazing, energies only')
        return
    if len(exp) != len(kids):
        bad('%s: a ray of index %r along %r at an interface %r with normal %r gave %d rays instead of %d', what, r.n, r.d, rs.optics.n,
            n, len(kids), len(exp))
    m = scene.match_children(exp, kids, 1e-5 / max(.05, math.sqrt(abs(1 - s2))))
    if m is None:
        bad('%s: a ray of index %r along %r at an interface %r with normal %r gave %r instead of %r', what, r.n, r.d, rs.optics.n, n,
            [(c.d, c.n) for c in kids], [(c.dir, c.index) for c in exp])
    for c, got in m:
        if not abs(got.e - c.energy) <= 1e-4 * r.e:
            bad('%s: the %s ray of one of energy %r at cosine %r, indices %r to %r, has energy %r instead of %r', what, c.kind, r.e, cosi,
                r.n, other, got.e, c.energy)
        d.event(c.kind)
    if not abs(sum(c.e for c in kids) - r.e) <= 1e-9 * r.e:
        bad('%s: a ray of energy %r at cosine %r, indices %r to %r, gave rays of %r', what, r.e, cosi, r.n, other, [c.e for c in kids])
    if len(exp) == 1:
        d.event('total reflection')
    d.nontrivial(cosi < .999)


def surface(d):
    from tracer.optics_callables import RefractiveHomogenous
    a, b = d.choice([1., 1.5, 1.3]), d.choice([1.5, 2., 1., 1.1])
    if d.bool(.15):     # next to each other, as air and vacuum
        b = a * (1 + d.choice([-1., 1.]) * 10 ** d.unif(-6., -2.))
    opt = RefractiveHomogenous(a, b)
    surf, rs, sc = single.build(d, gen.SHAPES, opt)
    rs.optics = scene.Optic('refract', n=(a, b))
    rays = single.rays_for(d, rs, sc)
    n = len(rays)
    idx = [d.choice([a, b]) for _ in range(n)]
    if d.bool(.2):
        idx = [max(a, b)] * n
    en = [d.weighted([(3, 1.), (3, None)]) or d.pos_real(1e-3, 1e3) for _ in range(n)]
    tags = [float(i) for i in range(n)]
    bun = gen.bundle(rays, en, idx, tag=N.array(tags))
    hits = single.match_params(rs, rays, surf.register_incoming(bun))
    sel = single.selection(d, hits) if d.bool(.93) else []
    d.note('indices', [a, b])
    d.note('ray indices', idx)
    d.note('selected', sel)
    surf.select_rays(N.array(sel, dtype=int))
    out = surf.get_outgoing()
    if not sel:
        if out.get_num_rays() != 0:
            bad('%d rays come out of none', out.get_num_rays())
        d.event('empty selection')
        return
    m = out.get_num_rays()
    kids = scene.read_bundle(out, n, 'outgoing')
    T = array(out.get_tag(), (m,), 'outgoing user property').tolist()
    if set(c.parent for c in kids) != set(sel):
        bad('outgoing rays have parents %r, selected were %r', sorted(set(c.parent for c in kids)), sorted(sel))
    for c, t in zip(kids, T):
        if t != tags[c.parent]:
            bad('an outgoing ray of ray %d has another ray\'s user property', c.parent)
    groups = scene.by_parent(kids, n)
    for i in sel:
        ks = [kids[j] for j in groups[i]]
        if any(not abs(rs.shape.residual(rs.frame.inv(c.o))) <= 1e-6 * max(1., rs.shape.extent) for c in ks):
            d.event('hit point elsewhere, not judged')
            continue
        judge(d, rs, scene.Ray(rays[i][0], rays[i][1], en[i], idx[i]), ks, '%s, ray %d' % (rs.shape.kind, i))


GLASSY = ['refract', 'refract', 'refract', 'mirror']


def traced(d):
    g = scene.Gen(d, optics=GLASSY, max_surfs=6)
    spec = g.scene()
    surfs = spec.surfaces()
    rays = scene.gen_rays(d, surfs, g.glass, 9, 30, sc=g.sc)
    reps = d.int(1, 5)
    d.note('scene', spec.describe())
    d.note('rays', scene.describe_rays(rays))
    d.note('reps', reps)
    e, v, dd = scene.trace(scene.build(spec, d), scene.to_bundle(rays), reps, 1e-9)
    levels = scene.read_tree(e.tree)
    for k in range(len(levels) - 1):
        for i, js in enumerate(scene.by_parent(levels[k + 1], len(levels[k]))):
            if not js:
                continue
            kids = [levels[k + 1][j] for j in js]
            s = scene.located(surfs, kids)
            if s is None or s.optics.kind != 'refract':
                continue
            judge(d, s, levels[k][i], kids, 'generation %d, ray %d, %s' % (k, i, s.shape.kind))


SUBS = [
    Sub('functions', functions, 9000, 60000, 'optics.refractions and optics.fresnel'),
    Sub('surface', surface, 6600, 50000, 'one refractive surface'),
    Sub('traced', traced, 2100, 20000, 'whole traces'),
]
