"""C21: a triangulated surface is the union of its triangles."""
import math
import numpy as N
from vt import ref, gen, scene
from vt.ref import sub, dot, cross, norm, unit, scale, add, along, dist
from vt.common import Sub, array, bad

ID = 'C21'
RULE = ('Meshes over a grid and soups of 3-10 random vertices (some repeated or on a line with others) and 1-10 faces, degenerate ones anywhere in the list, in a random '
        'placement (constructor transform, assembly, moved afterwards); 1-30 rays aimed at, through, beside and from the faces are traced '
        'for 1-3 steps and compared with an independent ray/triangle intersection over the non-degenerate triangles, and with reflection in '
        'the triangle\'s plane. Non-trivial: two non-degenerate faces, and a hit, and (a miss or a degenerate face).')
ASSUMPTIONS = ['triangles are either exactly degenerate (to rounding) or have a height of at least 1e-3 of their longest edge',
               'rays within 1e-7 of an edge, a tie, or the plane of a triangle are not judged']


def hit_triangle(tri, o, v):
    """('hit', t) | 'miss' | 'undecided', by Moeller-Trumbore."""
    a, b, c = tri
    e1, e2 = sub(b, a), sub(c, a)
    size = max(norm(e1), norm(e2), norm(sub(c, b)))
    n = unit(cross(e1, e2))
    cosi = dot(n, v)
    dist_o = dot(n, sub(o, a))
    if abs(cosi) < 1e-6:
        return 'undecided' if abs(dist_o) < 1e-3 * size else 'miss'
    p = cross(v, e2)
    det = dot(e1, p)
    s = sub(o, a)
    u = dot(s, p) / det
    q = cross(s, e1)
    w = dot(v, q) / det
    t = dot(e2, q) / det
    err = 1e-13 * (1 + norm(o) + norm(a) + size) / abs(cosi)
    if abs(t) > 1e5:
        return 'undecided'
    # distance to the edges
    height = min(abs(x) for x in heights(tri))
    m = min(u, w, 1 - u - w) * height
    if m < -1e-7 * (1 + size) - 10 * err:
        return 'miss'
    if abs(t) < 2e-6 + 10 * err:
        if abs(t) < 1e-10 and m > 1e-6 * (1 + size):
            return 'miss'
        return 'undecided'
    if t < 0:
        return 'miss'
    if m < 1e-7 * (1 + size) + 10 * err:
        return 'undecided'
    return ('hit', t)


def heights(tri):
    a, b, c = tri
    ar = norm(cross(sub(b, a), sub(c, a)))
    return [ar / max(norm(sub(x, y)), 1e-300) for x, y in ((b, a), (c, a), (c, b))]


def relief(d, sc):
    """A height field over a grid, two triangles a cell, of which a few are degenerate: a large mesh."""
    n, m = d.int(3, 9), d.int(3, 9)
    if d.bool(.015):
        n, m = d.int(20, 36), d.int(20, 36)
        d.event('over 800 faces')
    seed = N.random.RandomState(d.seed())
    z = seed.uniform(-.3, .3, (n + 1, m + 1))
    verts = [(sc * (i - n / 2.), sc * (j - m / 2.), sc * float(z[i, j])) for i in range(n + 1) for j in range(m + 1)]
    faces, good = [], []
    for i in range(n):
        for j in range(m):
            a = i * (m + 1) + j
            for f in ((a, a + 1, a + m + 1), (a + 1, a + m + 2, a + m + 1)):
                if seed.uniform() < .04:
                    f = (f[0], f[1], f[0])
                r = seed.randint(3)
                faces.append(f[r:] + f[:r])
                good.append(len(set(f)) == 3)
    return verts, faces, good


def soup(d, sc):
    verts = []
    while d.more(len(verts), 5, 3, 10):
        k = d.weighted([(6, 'new'), (1, 'repeat'), (1, 'line'), (1, 'grid'), (1, 'near')])
        if k == 'repeat' and verts:
            verts.append(d.choice(verts))
        elif k == 'line' and len(verts) > 1:
            a, b = d.choice(verts), d.choice(verts)
            verts.append(add(a, scale(sub(b, a), d.unif(-1.5, 2.5))))
        elif k == 'near' and verts:
            verts.append(add(d.choice(verts), scale(gen.unit_vec(d), sc * 10 ** d.unif(-2.5, -.5))))
        elif k == 'grid':
            verts.append(tuple(sc * float(d.int(-2, 2)) for _ in range(3)))
        else:
            verts.append(tuple(sc * d.unif(-3., 3.) for _ in range(3)))
    nv = len(verts)
    faces, good = [], []
    while d.more(len(faces), 4, 1, 10):
        f = tuple(d.int(0, nv - 1) for _ in range(3))
        if len(set(f)) < 3 and d.bool(.7):      # mostly proper triangles
            f = (f[0], (f[0] + 1 + d.int(0, nv - 2)) % nv, f[2])
            if f[2] in f[:2]:
                f = (f[0], f[1], [i for i in range(nv) if i not in f[:2]][d.int(0, nv - 3)])
        tri = [verts[i] for i in f]
        e = [norm(sub(tri[1], tri[0])), norm(sub(tri[2], tri[0])), norm(sub(tri[2], tri[1]))]
        area = norm(cross(sub(tri[1], tri[0]), sub(tri[2], tri[0])))
        big = max(e)
        if area <= 1e-12 * sc * big or big == 0:
            d.event('degenerate face')
            good.append(False)
        elif min(heights(tri)) > 1e-3 * big and big > 1e-3 * sc:
            good.append(True)
        else:
            continue
        faces.append(f)
    if not faces:
        faces, good = [(0, 0, 1)], [False]
    return verts, faces, good


def case(d, many=False):
    from tracer.models.triangulated_surface import TriangulatedSurface
    from tracer.assembly import Assembly
    from tracer.optics_callables import Reflective, perfect_mirror
    sc = d.weighted([(5, 1.), (1, .05), (1, 20.), (1, 1e-3)])
    verts, faces, good = relief(d, sc) if many else soup(d, sc)
    own = gen.frame(d, 3.)
    how = d.choice(['transform', 'bare', 'assembly', 'moved'])
    F = N.array(faces, dtype=int)
    V = N.array(verts, dtype=float)
    V0, F0 = V.copy(), F.copy()
    opt = perfect_mirror if d.bool() else Reflective(.25)
    if how == 'bare':
        obj = TriangulatedSurface(V, F, opt)
        own = ref.Frame()
    else:
        obj = TriangulatedSurface(V, F, opt, gen.np_trans(own))
    world = own
    asm = Assembly(objects=[obj])
    if how == 'assembly':
        g = gen.frame(d, 3.)
        asm.set_transform(gen.np_trans(g))
        world = g.mul(own)
    elif how == 'moved':
        own = gen.frame(d, 3.)
        obj.set_transform(gen.np_trans(own))
        world = own
    if not ((V == V0).all() and (F == F0).all()):
        bad('the vertices or faces passed in were altered')
    d.event('placed:' + how)
    W = [world.apply(p) for p in verts]
    tris = [[W[i] for i in f] for f, g in zip(faces, good) if g]
    d.note('vertices', verts)
    d.note('faces', faces)
    d.note('world', world.rows4())
    ns = len(obj.get_surfaces())
    if ns < len(tris):
        bad('%d surfaces for %d non-degenerate faces', ns, len(tris))
    rays = []
    while d.more(len(rays), 10, 1, 30):
        k = d.choice(['aim', 'aim', 'beside', 'from', 'random'])
        if tris and k != 'random':
            t = d.choice(tris)
            u, w = d.unif(0., 1.), d.unif(0., 1.)
            if u + w > 1:
                u, w = 1 - u, 1 - w
            if k == 'beside':
                u, w = d.unif(-.5, 1.5), d.unif(-.5, 1.5)
            p = add(t[0], add(scale(sub(t[1], t[0]), u), scale(sub(t[2], t[0]), w)))
            v = gen.unit_vec(d, .15)
            rays.append(scene.Ray(p if k == 'from' else along(p, v, -sc * d.unif(.1, 6.)), v, 1., 1.))
        else:
            rays.append(scene.Ray(tuple(sc * x for x in gen.point(d, 5.)), gen.unit_vec(d), 1., 1.))
    reps = d.int(1, 3)
    d.note('rays', scene.describe_rays(rays))
    e, v, dd = scene.trace(asm, scene.to_bundle(rays), reps, 0.)
    levels = scene.read_tree(e.tree)
    seen = set()
    for k in range(min(reps, len(levels))):
        nxt = levels[k + 1] if k + 1 < len(levels) else []
        kids = scene.by_parent(nxt, len(levels[k]))
        for i, r in enumerate(levels[k]):
            best, undec = [], False
            for tri in tris:
                h = hit_triangle(tri, r.o, r.d)
                if h == 'undecided':
                    undec = True
                elif h != 'miss':
                    best.append((h[1], tri))
            best.sort(key=lambda x: x[0])
            if undec or (len(best) > 1 and best[1][0] - best[0][0] < 1e-5):
                d.event('undecided')
                continue
            got = [nxt[j] for j in kids[i]]
            if not best:
                d.event('miss')
                seen.add('miss')
                if got:
                    bad('step %d: ray %d from %r along %r meets none of the triangles but is intercepted at %r', k, i, r.o, r.d, got[0].o)
                continue
            t, tri = best[0]
            p = along(r.o, r.d, t)
            if len(got) != 1:
                bad('step %d: ray %d from %r along %r meets a triangle at %r, but %d rays come out', k, i, r.o, r.d, p, len(got))
            tol = 1e-8 * (1 + norm(r.o) + t)
            n = unit(cross(sub(tri[1], tri[0]), sub(tri[2], tri[0])))
            if not dist(got[0].o, p) <= tol / min(1., abs(dot(n, r.d)) + 1e-3):
                bad('step %d: ray %d from %r along %r first meets a triangle at %r, was intercepted at %r', k, i, r.o, r.d, p, got[0].o)
            x = scene.reflect(r.d, n)
            if not dist(got[0].d, x) <= 1e-6:
                bad('step %d: ray %d along %r is reflected by a triangle with normal %r along %r instead of %r', k, i, r.d, n, got[0].d, x)
            d.event('hit')
            seen.add('hit')
    d.nontrivial(len(tris) > 1 and 'hit' in seen and ('miss' in seen or not all(good)))


SUBS = [Sub('triangles', case, 10000, 60000, 'see rule'),
        Sub('relief', lambda d: case(d, True), 250, 8000, 'meshes of 18 to 2600 triangles')]
