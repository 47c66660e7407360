"""C20: a spherical lens is a closed glass body that focuses at its focal length."""
import math
import numpy as N
from vt import scene, ref, gen
from vt.ref import Frame, dot, scale, add, sub, norm, dist, unit, along
from vt.scene import AsmSpec, ObjSpec, SurfSpec, Optic, Hit
from vt.common import Sub, array, bad, Reject, KNOWN

ID = 'C20'
RULE = ('Lenses of every shape (biconvex, biconcave, both menisci, planar front or back given as 0, None or infinity), random diameter, depth, radii, '
        'index and placement. (a) axis rays give the vertices; rays from outside and inside are traced for up to 7 steps and every '
        'step compared with the reference body, every path segment\'s medium with being in or out of it; (b) paraxial rays in any azimuth '
        'against the lensmaker focus. Non-trivial: a ray that entered the glass and left it, or a judged focus.')
ASSUMPTIONS = ['admissible: diameter at most 1.98 of the smaller sphere radius, positive rim thickness, not afocal (|f| < 300 sizes)',
               'rays that at any step come within 1e-5 of the rim are not judged further',
               'the place of the whole lens along its axis is the stated one (second principal point at the origin) or that of the known finding']

PLANAR = [0, None, N.inf, -N.inf]


class Lens(object):
    def __init__(self, d):
        from tracer.models.spherical_lens import SphericalLens
        k = d.choice(['biconvex', 'biconcave', 'meniscus+', 'meniscus-', 'plano front', 'plano back'])
        sc = d.weighted([(4, 1.), (1, .01), (1, 20.)])
        D = sc * d.pos_real(.3, 4.)

        def radius():
            if d.bool(.08):
                return D * 10 ** d.unif(1., 4.5)
            return D * (.505 + d.pos_real(.01, 8.))
        r1, r2 = radius(), radius()
        s1 = {'biconvex': 1, 'biconcave': -1, 'meniscus+': 1, 'meniscus-': -1, 'plano front': 0, 'plano back': d.choice([1, -1])}[k]
        s2 = {'biconvex': -1, 'biconcave': 1, 'meniscus+': 1, 'meniscus-': -1, 'plano back': 0, 'plano front': d.choice([1, -1])}[k]
        R1, R2 = (s1 * r1 or None), (s2 * r2 or None)

        def sag(R):
            return 0. if R is None else math.copysign(abs(R) - math.sqrt(R * R - D * D / 4.), R)
        need = sag(R1) - sag(R2)
        # at least 1e-5: hits closer than 1e-6 to a ray's start are the start
        depth = max(0., need) + max(D * (d.pos_real(.02, 1.5) if d.bool(.8) else 10 ** d.unif(-3.7, -1.6)), 1e-5)
        n = d.choice([1.5, 1.3, 1.7, 2.])
        self.kind, self.D, self.depth, self.R1, self.R2, self.n = k, D, depth, R1, R2, n
        c1, c2 = (1. / R1 if R1 else 0.), (1. / R2 if R2 else 0.)
        P = (n - 1) * (c1 - c2 + depth * (n - 1) * c1 * c2 / n)
        if abs(P) * 300 * max(D, depth) < 1:
            raise Reject()
        self.f = 1. / P
        self.pd = self.f * depth * (n - 1) / n * c1         # second principal point to back vertex, into the glass
        a1 = R1 if R1 is not None else d.choice(PLANAR)
        a2 = R2 if R2 is not None else d.choice(PLANAR)
        self.frame = gen.frame(d, 4. * sc, .3)
        self.sc = sc
        how = d.int(0, 2)
        self.args = [k, D, depth, str(a1), str(a2), n]
        d.note('lens', self.args)
        d.note('frame', self.frame.rows4())
        d.event(k)
        from tracer.assembly import Assembly
        if how == 0:
            self.lens = SphericalLens(diameter=D, depth=depth, R1=a1, R2=a2, refr_idx=n, transform=gen.np_trans(self.frame))
            self.asm = Assembly(objects=[self.lens])
        elif how == 1:
            self.lens = SphericalLens(D, depth, a1, a2, n)
            self.lens.set_transform(gen.np_trans(self.frame))
            self.asm = Assembly([self.lens])
        else:
            self.lens = SphericalLens(D, depth, a1, a2, n)
            self.asm = Assembly([self.lens], location=gen.np_loc(self.frame), rotation=gen.np_rot(self.frame))
        self.big = max(D, depth, abs(R1 or 0), abs(R2 or 0))

    def trace(self, rays, reps, me=1e-6):
        """rays in lens coordinates."""
        w = [scene.Ray(self.frame.apply(r.o), self.frame.dir(r.d), r.e, r.n) for r in rays]
        e, v, dd = scene.trace(self.asm, scene.to_bundle(w), reps, me)
        return scene.read_tree(e.tree)

    def vertices(self):
        """Where axis rays from both sides strike first: (back, front) in lens coordinates."""
        L = 5 * (self.D + self.depth) + 2 * abs(self.pd)
        lv = self.trace([scene.Ray((0., 0., -L), (0., 0., 1.), 1., 1.), scene.Ray((0., 0., L), (0., 0., -1.), 1., 1.)], 1)
        out = []
        for i in (0, 1):
            z = [self.frame.inv(r.o) for r in (lv[1] if len(lv) > 1 else []) if r.parent == i]
            if not z:
                bad('a ray along the axis does not meet the lens')
            out.append(z[0][2])
        return out

    def settle(self, d):
        """Judge the vertices and build the reference body."""
        zb, zf = self.vertices()
        tol = 1e-8 * max(self.big, abs(self.pd), norm(self.frame.t), 1.)
        if not abs(zf - zb - self.depth) <= tol:
            bad('thickness on axis is %r instead of %r', zf - zb, self.depth)
        want = -self.pd
        known = 0. if self.R2 is None else self.pd
        if abs(zb - want) <= tol:
            d.event('principal point at the origin')
        elif 'principal-plane' in KNOWN and abs(zb - known) <= tol:
            d.event('known finding: principal point off the origin')
        else:
            bad('the back vertex is at %r; the second principal point is at the origin if it is at %r', zb, want)
        self.zb, self.zf = zb, zf
        self.surfs = self.spec().surfaces()

    def cap(self, R, z):
        D = self.D
        if R is None:
            return ref.Round(D / 2.), Frame(t=(0., 0., z))
        c = math.sqrt(R * R - D * D / 4.)
        if R > 0:
            return ref.CutSphere(R, ref.Bound('plane', Frame(t=(0., 0., c)))), Frame(t=(0., 0., z - R))
        flip = ((1., 0., 0.), (0., -1., 0.), (0., 0., -1.))
        return ref.CutSphere(-R, ref.Bound('plane', Frame(flip, (0., 0., -c)))), Frame(t=(0., 0., z - R))

    def height(self, R, z, r):
        """of a face at radius r"""
        if R is None:
            return z
        return z - math.copysign(abs(R) - math.sqrt(max(0., R * R - r * r)), R)

    def spec(self):
        o = Optic('refract', n=(1., self.n))
        lo, hi = self.height(self.R2, self.zb, self.D / 2.), self.height(self.R1, self.zf, self.D / 2.)
        s = []
        for R, z in ((self.R1, self.zf), (self.R2, self.zb)):
            sh, f = self.cap(R, z)
            s.append(SurfSpec(sh, o, f))
        s.append(SurfSpec(ref.FinCyl(self.D, hi - lo), o, Frame(t=(0., 0., (hi + lo) / 2.))))
        self.lo, self.hi = lo, hi
        return AsmSpec([ObjSpec(s, self.frame)], [], Frame())

    def inside(self, p):
        """> 0 inside, < 0 outside, in lens coordinates, roughly the distance to the surface"""
        r = math.hypot(p[0], p[1])
        a = self.D / 2. - r
        if a < 0:
            return a
        return min(a, self.height(self.R1, self.zf, r) - p[2], p[2] - self.height(self.R2, self.zb, r))

    def near_rim(self, p):
        """Distance to the edges where the faces meet the cylinder."""
        r = math.hypot(p[0], p[1]) - self.D / 2.
        return min(math.hypot(r, p[2] - self.lo), math.hypot(r, p[2] - self.hi))


def body(d):
    L = Lens(d)
    fl = float(L.lens.focal_length())
    if not abs(fl - L.f) <= 1e-9 * abs(L.f):
        bad('reported focal length %r, the lensmaker equation gives %r', fl, L.f)
    L.settle(d)
    rays = []
    ext = max(L.D, L.depth)
    mid = (L.zb + L.zf) / 2.
    while d.more(len(rays), 9, 1, 30):
        k = d.weighted([(4, 'at'), (3, 'in'), (1, 'down'), (1.5, 'edge')])
        if k == 'edge':         # through the cylindrical edge, from within or without
            a = d.unif(0., 2 * math.pi)
            p = (L.D / 2 * math.cos(a), L.D / 2 * math.sin(a), L.lo + (L.hi - L.lo) * d.unif(.03, .97))
            q = (d.unif(-.4, .4) * L.D, d.unif(-.4, .4) * L.D)
            q = q + (L.height(L.R2, L.zb, math.hypot(*q)),)
            q = (q[0], q[1], q[2] + d.unif(.05, .95) * (L.height(L.R1, L.zf, math.hypot(q[0], q[1])) - q[2]))
            v = unit(sub(p, q))
            o = q
            if d.bool():
                o, v = along(p, v, d.unif(.1, 2.) * L.D), scale(v, -1.)
            if dist(p, q) < .05 * L.D:
                continue
        elif k == 'down':
            o, v = (d.unif(-.6, .6) * L.D, d.unif(-.6, .6) * L.D, L.zf + ext * 3.), (0., 0., -1.)
        else:
            lo, hi = min(L.lo, L.zb), max(L.hi, L.zf)
            p = (d.unif(-.5, .5) * L.D, d.unif(-.5, .5) * L.D, lo + (hi - lo) * d.unif(0., 1.))
            v = gen.unit_vec(d, .1)
            o = along(p, v, -d.unif(.5, 4.) * ext) if k == 'at' else p
        m = L.inside(o)
        if abs(m) < 1e-4 * L.sc or L.near_rim(o) < 1e-3 * L.D:
            continue
        rays.append(scene.Ray(o, v, 1., L.n if m > 0 else 1.))
        if len(rays) >= 30:
            break
    if not rays:
        raise Reject()
    reps = d.int(1, 7)
    d.note('rays (lens coordinates)', scene.describe_rays(rays))
    d.note('reps', reps)
    levels = L.trace(rays, reps, 1e-4)
    good = [True] * len(levels[0])      # rays whose whole past is away from the rim
    tol = 1e-5 * L.D
    was_in = was_out = False
    for k, lev in enumerate(levels):
        if k >= reps:
            break
        nxt = levels[k + 1] if k + 1 < len(levels) else []
        kids = scene.by_parent(nxt, len(lev))
        ok = [False] * len(nxt)
        for i, r in enumerate(lev):
            if not good[i]:
                d.event('near the rim')
                continue
            if k and not r.e > 1e-4:
                continue
            exp = scene.first_hit(L.surfs, r.o, r.d)
            if exp == 'undecided':
                d.event('undecided')
                continue
            o = L.frame.inv(r.o)
            if exp is None:
                if kids[i]:
                    bad('step %d: a ray from %r along %r (lens coordinates) should leave, but meets something at %r', k, o, L.frame.invdir(r.d),
                        L.frame.inv(nxt[kids[i][0]].o))
                if r.n != 1.:
                    bad('step %d: a ray from %r along %r (lens coordinates) leaves the lens while in a medium of index %r', k, o,
                        L.frame.invdir(r.d), r.n)
                d.event('left')
                was_out = was_out or k > 0
                continue
            p = L.frame.inv(exp.p)
            # medium along the segment
            m = L.inside(tuple((a + b) / 2. for a, b in zip(o, p)))
            if abs(m) > 1e-7 * L.D:
                want = L.n if m > 0 else 1.
                if r.n != want:
                    bad('step %d: between %r and %r (lens coordinates) the ray is %s the glass, but its index is %r', k, o, p,
                        'in' if m > 0 else 'outside', r.n)
                was_in = was_in or m > 0
            if not kids[i]:
                bad('step %d: a ray from %r along %r should meet the lens at %r (lens coordinates), but does not', k, o,
                    L.frame.invdir(r.d), p)
            for j in kids[i]:
                q = L.frame.inv(nxt[j].o)
                if not dist(q, p) <= scene.point_tol(exp, r.o) + 1e-8 * L.sc:
                    bad('step %d: a ray from %r along %r should meet the lens at %r, was intercepted at %r (lens coordinates)', k, o,
                        L.frame.invdir(r.d), p, q)
                ok[j] = L.near_rim(q) > tol
            d.event('hit ' + exp.surf.shape.kind)
        good = ok
    d.nontrivial(was_in and was_out)


def focus(d):
    L = Lens(d)
    L.settle(d)
    c1, c2 = (1. / L.R1 if L.R1 else 0.), (1. / L.R2 if L.R2 else 0.)
    h = 1e-4 * min([abs(R) for R in (L.R1, L.R2) if R] + [L.D, abs(L.f)])
    rays = []
    up = d.bool(.4)         # from behind: the lens reversed has the same focal length
    top = L.zf + 3 * max(L.D, L.depth) if not up else L.zb - 3 * max(L.D, L.depth)
    v = (0., 0., -1.) if not up else (0., 0., 1.)
    for _ in range(d.int(1, 5)):
        a = d.unif(0., 2 * math.pi)
        s = h * d.choice([1., .5, .3])
        rays.append(scene.Ray((s * math.cos(a), s * math.sin(a), top), v, 1., 1.))
    d.note('rays (lens coordinates)', scene.describe_rays(rays))
    levels = L.trace(rays, 2, 1e-4)
    if len(levels) != 3:
        bad('paraxial rays do not get through the lens')
    through = [[] for _ in rays]
    for r in levels[2]:
        q = levels[1][r.parent]
        dd = L.frame.invdir(r.d)
        if q.n == L.n and r.n == 1. and dot(dd, v) > 0:
            through[q.parent].append(r)
    # distance of the focus from the last vertex along the rays
    bfl = L.f * (1 - L.depth * (L.n - 1) / L.n * (c1 if not up else -c2))
    zlast = L.zb if not up else L.zf
    zfoc = zlast + bfl * v[2]
    for i, t in enumerate(through):
        if len(t) != 1:
            bad('paraxial ray %d gives %d rays through the lens', i, len(t))
        p, q = L.frame.inv(t[0].o), L.frame.invdir(t[0].d)
        r0 = rays[i].o
        hh = math.hypot(r0[0], r0[1])
        # stays in its meridional plane
        if not abs(p[0] * r0[1] - p[1] * r0[0]) <= 1e-6 * hh * max(math.hypot(p[0], p[1]), hh):
            bad('paraxial ray %d is turned about the axis', i)
        # height at the expected focus, relative to the starting height: error in units of focal length
        s = (zfoc - p[2]) / q[2]
        x = along(p, q, s)
        miss = math.hypot(x[0], x[1]) / hh
        acc = 1e-5 + 1e-13 * (norm(L.frame.t) + L.big) / hh * max(1., abs(bfl) / L.big)
        if not miss <= acc * max(1., (abs(bfl) + L.depth) / abs(L.f)):
            bad('paraxial ray %d from %s passes the axis off the focus %r (lens coordinates): %r of its starting height is left there', i,
                'behind' if up else 'the front', zfoc, miss)
        # effective focal length: starting height over final slope
        sl = math.hypot(q[0], q[1]) / abs(q[2])
        if not abs(hh / sl - abs(L.f)) <= abs(L.f) * max(1e-5, 1e-13 * (norm(L.frame.t) + L.big) / hh * max(1., abs(L.f) / L.big)):
            bad('paraxial ray %d: effective focal length %r instead of %r', i, hh / sl, abs(L.f))
        d.event('focus judged')
    d.nontrivial()


def probe():
    """The lens of the documentation's placement: biconvex, back vertex at -pd."""
    from tracer.models.spherical_lens import SphericalLens
    from tracer.assembly import Assembly
    l = SphericalLens(1., .1, 10., -10., 1.5)
    pd = l.focal_length() * .1 * .5 / 1.5 / 10.
    e, v, dd = scene.trace(Assembly([l]), gen.bundle([((0., 0., -5.), (0., 0., 1.))], [1.], [1.]), 1, 0.)
    return abs(scene.read_tree(e.tree)[1][0].o[2] + pd) > 1e-6


PROBES = {'principal-plane': probe}

SUBS = [
    Sub('body', body, 1880, 30000, 'closed body'),
    Sub('focus', focus, 2000, 30000, 'paraxial focus'),
]
