"""Scalar reference model of the surfaces, written from their documentation. Pure Python floats."""
from math import sqrt, hypot, inf, isnan, sin, cos, pi, tan, acos, atan2

EPS = 2.3e-16


# ---------------------------------------------------------------- vectors, frames
def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def add(a, b):
    return (a[0] + b[0], a[1] + b[1], a[2] + b[2])


def sub(a, b):
    return (a[0] - b[0], a[1] - b[1], a[2] - b[2])


def scale(a, s):
    return (a[0] * s, a[1] * s, a[2] * s)


def along(o, d, t):
    return (o[0] + d[0] * t, o[1] + d[1] * t, o[2] + d[2] * t)


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def norm(a):
    return sqrt(a[0] * a[0] + a[1] * a[1] + a[2] * a[2])


def unit(a):
    n = norm(a)
    return (a[0] / n, a[1] / n, a[2] / n)


def dist(a, b):
    return norm(sub(a, b))


class Frame(object):
    """Rigid motion: p -> R p + t, R given as three rows."""
    __slots__ = ('R', 't')

    def __init__(self, R=((1., 0., 0.), (0., 1., 0.), (0., 0., 1.)), t=(0., 0., 0.)):
        self.R = tuple(tuple(float(x) for x in r) for r in R)
        self.t = tuple(float(x) for x in t)

    def apply(self, p):
        R, t = self.R, self.t
        return (dot(R[0], p) + t[0], dot(R[1], p) + t[1], dot(R[2], p) + t[2])

    def dir(self, v):
        R = self.R
        return (dot(R[0], v), dot(R[1], v), dot(R[2], v))

    def inv(self, p):
        return self.invdir(sub(p, self.t))

    def invdir(self, v):
        R = self.R
        return (R[0][0] * v[0] + R[1][0] * v[1] + R[2][0] * v[2],
                R[0][1] * v[0] + R[1][1] * v[1] + R[2][1] * v[2],
                R[0][2] * v[0] + R[1][2] * v[1] + R[2][2] * v[2])

    def mul(self, other):
        """self after other (self * other)."""
        cols = [self.dir((other.R[0][j], other.R[1][j], other.R[2][j])) for j in range(3)]
        return Frame([[cols[j][i] for j in range(3)] for i in range(3)], self.apply(other.t))

    def inverse(self):
        Rt = [[self.R[j][i] for j in range(3)] for i in range(3)]
        return Frame(Rt, scale(self.invdir(self.t), -1.))

    def z(self):
        return (self.R[0][2], self.R[1][2], self.R[2][2])

    def rows4(self):
        return [list(self.R[i]) + [self.t[i]] for i in range(3)] + [[0., 0., 0., 1.]]

    def __repr__(self):
        return 'Frame(R=%r, t=%r)' % (self.R, self.t)


def axis_angle(axis, ang):
    x, y, z = axis
    s, c = sin(ang), cos(ang)
    v = 1 - c
    return ((x * x * v + c, x * y * v - z * s, x * z * v + y * s),
            (x * y * v + z * s, y * y * v + c, y * z * v - x * s),
            (x * z * v - y * s, y * z * v + x * s, z * z * v + c))


# ---------------------------------------------------------------- crossings
class Crossing(object):
    """t: distance along the ray; terr: how well it is determined; p: local point; margin: signed distance-like
    measure to the aperture's edge (> 0 inside); n: unit local normal (either sense)."""
    __slots__ = ('t', 'terr', 'p', 'margin', 'n', 'cosi', 'soft')

    def __init__(self, t, terr, p, margin, n, cosi, soft):
        self.t, self.terr, self.p, self.margin, self.n, self.cosi, self.soft = t, terr, p, margin, n, cosi, soft


class Undecided(Exception):
    """Too close to a numerically singular situation for any answer to be demanded."""


def quadratic(A, B, C, Babs, Cabs):
    """Roots of A t^2 + B t + C with error bounds, as (t, terr, soft). A >= 0. Babs and Cabs bound the
    sums of magnitudes B and C were computed from. Roots of a nearly tangent ray are soft."""
    K = 60 * EPS
    if A < 1e-24:
        # linear (or no equation at all)
        if abs(B) <= 1e-13 * Babs or B == 0.:
            if abs(C) <= K * Cabs:
                raise Undecided()
            # rounding may put crossings at the end of the world
            return [(-1e30, inf, True), (1e30, inf, True)]
        if abs(B) < 1e-6 * Babs:
            raise Undecided()
        t = -C / B
        res = [(t, K * Cabs / abs(B) + K * abs(t), False)]
        res.append((-B / A if A > 1e-32 else -B * 1e30, inf, True))
        return res
    disc = B * B - 4 * A * C
    derr = K * (Babs * Babs + 4 * A * Cabs)
    if disc < -derr * 4:
        return []
    if disc < derr * 1e4:
        # tangent: two soft roots near -B/2A
        t = -B / (2 * A)
        e = sqrt(derr * 1e4) / A
        return [(t, e, True), (t, e, True)]
    s = sqrt(disc)
    q = -(B + s) / 2 if B >= 0 else -(B - s) / 2
    r1 = q / A
    r2 = C / q
    e = derr / (4 * A * s) + K * (abs(B) + s) / (2 * A)
    # the root computed without cancellation is as good as its coefficients
    f = derr / (4 * A * s) + K * (Cabs + abs(C)) / abs(q)
    res = [(r1, e, False), (r2, min(e, f + 1e-8), False)]
    res.sort()
    return res


# ---------------------------------------------------------------- shapes (local coordinates)
class Shape(object):
    extent = 1.           # typical size, used for tolerances
    quadric = False
    bounded = True

    def margin(self, p):
        return inf

    def project(self, p):
        """A point of the underlying surface next to p."""
        return (p[0], p[1], 0.)

    def rim(self, d):
        """A point just inside or just outside of the edge; None if none was found."""
        for _ in range(4):
            p, q = self.sample(d), self.sample(d, 2.)
            if self.margin(p) > 0 > self.margin(q):
                lo, hi = 0., 1.
                for _ in range(50):
                    m = (lo + hi) / 2.
                    if self.margin(self.project(along(p, sub(q, p), m))) > 0:
                        lo = m
                    else:
                        hi = m
                m = lo + d.choice([-1., 1.]) * 10 ** d.unif(-6.5, -1.5)
                return self.project(along(p, sub(q, p), m))
        return None

    def describe(self):
        return dict((k, v) for k, v in self.__dict__.items() if not k.startswith('_'))


class Flat(Shape):
    kind = 'plane'

    def roots(self, o, d):
        if abs(d[2]) <= 1e-14:
            return []
        if abs(d[2]) < 1e-8:
            if self.bounded and abs(o[2]) > 1e-3 and norm(o) + self.extent < 1e4:
                return []       # long past the aperture when it reaches the plane
            raise Undecided()
        t = -o[2] / d[2]
        return [(t, 60 * EPS * (abs(o[2]) + norm(o)) / abs(d[2]) + 60 * EPS * abs(t), False)]

    def normal(self, p):
        return (0., 0., 1.)

    def residual(self, p):
        return p[2]


class Plane(Flat):
    bounded = False

    def sample(self, d, ext=4.):
        return (d.unif(-ext, ext), d.unif(-ext, ext), 0.)


class Rect(Flat):
    kind = 'rect'

    def __init__(self, w, h):
        self.w, self.h = w, h
        self.extent = max(w, h)

    def margin(self, p):
        return min(self.w / 2. - abs(p[0]), self.h / 2. - abs(p[1]))

    def sample(self, d, k=1.):
        return (d.unif(-k, k) * self.w / 2., d.unif(-k, k) * self.h / 2., 0.)


class Round(Flat):
    kind = 'round'

    def __init__(self, R):
        self.R = R
        self.extent = R

    def margin(self, p):
        return self.R - hypot(p[0], p[1])

    def sample(self, d, k=1.):
        a = d.unif(0, 2 * pi)
        r = self.R * k * sqrt(d.unif(0., 1.))
        return (r * cos(a), r * sin(a), 0.)


class Tri(Flat):
    kind = 'tri'

    def __init__(self, v1, v2):
        """(0,0), v1, v2 in the XY plane."""
        self.v1, self.v2 = v1, v2
        self.extent = max(hypot(*v1), hypot(*v2))

    def margin(self, p):
        vs = [(0., 0.), self.v1, self.v2]
        area = self.v1[0] * self.v2[1] - self.v1[1] * self.v2[0]
        sg = 1. if area > 0 else -1.
        m = inf
        for i in range(3):
            a, b = vs[i], vs[(i + 1) % 3]
            ex, ey = b[0] - a[0], b[1] - a[1]
            L = hypot(ex, ey)
            m = min(m, sg * (ex * (p[1] - a[1]) - ey * (p[0] - a[0])) / L)
        return m

    def sample(self, d, k=1.):
        a, b = d.unif(0., 1.), d.unif(0., 1.)
        if a + b > 1:
            a, b = 1 - a, 1 - b
        if k != 1.:
            a, b = (a - .33) * k + .33, (b - .33) * k + .33
        return (a * self.v1[0] + b * self.v2[0], a * self.v1[1] + b * self.v2[1], 0.)


class Quadric(Shape):
    quadric = True

    def roots(self, o, d):
        return quadratic(*self.abc(o, d))


class Sphere(Quadric):
    kind = 'sphere'

    def __init__(self, R):
        self.R = R
        self.extent = R

    def abc(self, o, d):
        m = norm(o)
        return dot(d, d), 2 * dot(d, o), dot(o, o) - self.R ** 2, 2 * m, m * m + self.R ** 2

    def normal(self, p):
        return unit(p)

    def residual(self, p):
        return norm(p) - self.R

    def project(self, p):
        return scale(p, self.R / (norm(p) or 1.))

    def sample(self, d, k=1.):
        z = d.unif(-1., 1.)
        a = d.unif(0., 2 * pi)
        s = sqrt(max(0., 1 - z * z))
        return (self.R * s * cos(a), self.R * s * sin(a), self.R * z)


class Hemi(Sphere):
    kind = 'hemi'

    def margin(self, p):
        return -p[2]

    def sample(self, d, k=1.):
        x, y, z = Sphere.sample(self, d)
        return (x, y, -abs(z)) if k == 1. else (x, y, z)


class CutSphere(Sphere):
    """bound: None or a Bound below, in the sphere's frame."""
    kind = 'cutsphere'

    def __init__(self, R, bound):
        self.R, self.bound = R, bound
        self.extent = R

    def margin(self, p):
        return inf if self.bound is None else self.bound.margin(p)

    def describe(self):
        return {'R': self.R, 'bound': None if self.bound is None else self.bound.describe()}


class Parab(Quadric):
    bounded = False
    """z = (x/a)^2 + (y/b)^2"""
    kind = 'parab'

    def __init__(self, a, b):
        self.a, self.b = a, b
        self._ka, self._kb = 1. / a ** 2, 1. / b ** 2
        self.extent = max(a, b)

    def abc(self, o, d):
        ka, kb = self._ka, self._kb
        return (ka * d[0] ** 2 + kb * d[1] ** 2,
                2 * ka * d[0] * o[0] + 2 * kb * d[1] * o[1] - d[2],
                ka * o[0] ** 2 + kb * o[1] ** 2 - o[2],
                2 * ka * abs(d[0]) * norm(o) + 2 * kb * abs(d[1]) * norm(o) + 1.,
                (ka + kb) * dot(o, o) + norm(o))

    def normal(self, p):
        return unit((-2 * self._ka * p[0], -2 * self._kb * p[1], 1.))

    def residual(self, p):
        # distance to first order
        g = norm((-2 * self._ka * p[0], -2 * self._kb * p[1], 1.))
        return (self._ka * p[0] ** 2 + self._kb * p[1] ** 2 - p[2]) / g

    def project(self, p):
        return self.at(p[0], p[1])

    def at(self, x, y):
        return (x, y, self._ka * x * x + self._kb * y * y)

    def sample(self, d, k=1.):
        return self.at(d.unif(-1.5, 1.5) * self.a, d.unif(-1.5, 1.5) * self.b)


class Dish(Parab):
    bounded = True
    kind = 'dish'

    def __init__(self, D, f):
        Parab.__init__(self, 2 * sqrt(f), 2 * sqrt(f))
        self.D, self.f = D, f
        self.extent = max(D, f)

    def margin(self, p):
        return self.D / 2. - hypot(p[0], p[1])

    def sample(self, d, k=1.):
        a = d.unif(0, 2 * pi)
        r = self.D / 2. * k * sqrt(d.unif(0., 1.))
        return self.at(r * cos(a), r * sin(a))


class Hex(Parab):
    bounded = True
    kind = 'hex'

    def __init__(self, D, f):
        Parab.__init__(self, 2 * sqrt(f), 2 * sqrt(f))
        self.D, self.f = D, f
        self.extent = max(D, f)

    def margin(self, p):
        # regular hexagon, circumscribed circle of diameter D, two edges parallel to Y
        r = self.D / 2. * sqrt(3.) / 2.
        m = inf
        for a in (0., pi / 3, 2 * pi / 3):
            m = min(m, r - abs(p[0] * cos(a) + p[1] * sin(a)))
        return m

    def sample(self, d, k=1.):
        a = d.unif(0, 2 * pi)
        r = self.D / 2. * k * sqrt(d.unif(0., 1.))
        return self.at(r * cos(a), r * sin(a))


class Cyl(Quadric):
    bounded = False
    kind = 'cyl'

    def __init__(self, D):
        self.D = D
        self.extent = D

    def abc(self, o, d):
        m = hypot(o[0], o[1])
        A = d[0] ** 2 + d[1] ** 2
        return (A, 2 * (d[0] * o[0] + d[1] * o[1]), m * m - self.D ** 2 / 4., 2 * sqrt(A) * m,
                m * m + self.D ** 2 / 4. + EPS * 0)

    def roots(self, o, d):
        A, B, C, Ba, Ca = self.abc(o, d)
        if A < 1e-28:
            if abs(C) < 1e-9 * Ca:
                raise Undecided()
            # parallel up to rounding, which may put a crossing far away
            return [] if self.kind == 'fincyl' else [(1e20 if C < 0 else 2e20, inf, True)]
        if A <= 1e-16:
            raise Undecided()
        # components of d across the axis have an absolute error
        k = 60 * EPS / sqrt(A)
        return [(t, e + k * abs(t), s) for t, e, s in quadratic(A, B, C, Ba, Ca)]

    def normal(self, p):
        r = hypot(p[0], p[1])
        return (p[0] / r, p[1] / r, 0.)

    def residual(self, p):
        return hypot(p[0], p[1]) - self.D / 2.

    def project(self, p):
        r = (hypot(p[0], p[1]) or 1.) * 2. / self.D
        return (p[0] / r, p[1] / r, p[2])

    def sample(self, d, k=1.):
        a = d.unif(0, 2 * pi)
        return (self.D / 2. * cos(a), self.D / 2. * sin(a), d.unif(-3., 3.))


class FinCyl(Cyl):
    bounded = True
    kind = 'fincyl'

    def __init__(self, D, h):
        self.D, self.h = D, h
        self.extent = max(D, h)

    def margin(self, p):
        return self.h / 2. - abs(p[2])

    def sample(self, d, k=1.):
        a = d.unif(0, 2 * pi)
        return (self.D / 2. * cos(a), self.D / 2. * sin(a), d.unif(-k, k) * self.h / 2.)


# ---------------------------------------------------------------- bounding volumes
class Bound(object):
    """kind 'sphere' (radius), 'cyl' (diameter; axis = own Z), 'plane' (own z >= 0); frame in its container."""
    def __init__(self, kind, frame, size=None):
        self.kind, self.frame, self.size = kind, frame, size

    def margin(self, p):
        q = self.frame.inv(p)
        if self.kind == 'sphere':
            return self.size - norm(q)
        if self.kind == 'cyl':
            return self.size / 2. - hypot(q[0], q[1])
        return q[2]

    def describe(self):
        return {'bound': self.kind, 'size': self.size, 'frame': self.frame.rows4()}


# ---------------------------------------------------------------- a placed surface
class RefSurface(object):
    def __init__(self, shape, frame, optics=None, name=None):
        self.shape, self.frame, self.optics, self.name = shape, frame, optics, name
        self.reach = 0.     # largest coordinates that went into the frame, if larger than its own

    def crossings(self, o, d):
        """All crossings of the underlying unbounded surface, by t. Raises Undecided."""
        lo, ld = self.frame.inv(o), self.frame.invdir(d)
        out = []
        size = norm(o) + norm(self.frame.t) + self.shape.extent + self.reach
        base = 4 * EPS * size
        roots = self.shape.roots(lo, ld)
        if size > 1e3 and self.shape.quadric:
            roots = self.shaken(roots, lo, ld, 2 * base)
        for t, terr, soft in roots:
            if terr == inf or abs(t) > 1e7:
                out.append(Crossing(t, inf, None, 0., None, 0., True))
                continue
            p = along(lo, ld, t)
            try:
                n = self.shape.normal(p)
            except ZeroDivisionError:
                out.append(Crossing(t, inf, None, 0., None, 0., True))
                continue
            c = abs(dot(n, ld))
            terr = terr + (base + 4 * EPS * abs(t)) / max(c, 1e-12)
            out.append(Crossing(t, terr, p, self.shape.margin(p), n, c, soft))
        out.sort(key=lambda x: x.t)
        return out

    def shaken(self, roots, lo, ld, e):
        """The roots with the errors that an uncertainty e of the place adds; soft if they may not be there at all."""
        out = [list(r) for r in sorted(roots)]
        for k in range(6):
            q = list(lo)
            q[k % 3] += e if k < 3 else -e
            other = sorted(self.shape.roots(tuple(q), ld))
            if len(other) != len(out):
                raise Undecided()
            for r, x in zip(out, other):
                if r[1] == inf:
                    if set([r[0], x[0]]) == set([1e20, 2e20]):
                        raise Undecided()       # in or out of a cylinder along which the ray runs
                else:
                    r[1] += abs(x[0] - r[0]) + max(0., x[1] - r[1])
                r[2] = r[2] or x[2]
        return [tuple(r) for r in out]

    def world(self, c):
        return self.frame.apply(c.p)

    def normal_world(self, c, d):
        """Unit normal facing against direction d."""
        n = self.frame.dir(c.n)
        return scale(n, -1.) if dot(n, d) > 0 else n


def edge_tol(c, shape):
    return 1e-8 * max(1., shape.extent, norm(c.p)) + 10 * c.terr


FAR = 1e6


def surface_answers(surf, o, d):
    """What Surface.register_incoming may report for the ray: (acceptable crossings, miss acceptable, anything
    beyond FAR acceptable), or None if anything goes. The ray's own start point is acceptable or not, as
    rounding has it."""
    try:
        cs = surf.crossings(o, d)
    except Undecided:
        return None
    acc = []
    far = False
    for c in cs:
        if c.t > FAR:
            far = far or not surf.shape.bounded
            continue
        if c.t < -FAR:
            continue
        if c.terr > 1e-5:
            return None
        z = 2e-8 + 10 * c.terr
        if c.t < -z:
            continue
        tol = edge_tol(c, surf.shape)
        if c.margin < -tol:
            continue
        if abs(c.t) <= z or abs(c.margin) <= tol or c.soft:
            acc.append(c)
            continue
        acc.append(c)
        return acc, False, False
    return acc, True, far


def report_ok(ans, t):
    """Is the reported parameter acceptable? Returns (ok, matching crossing or None for a miss)."""
    if ans is None:
        return True, None
    acc, miss, far = ans
    if isnan(t):
        return False, None
    if t == inf:
        return miss, None
    if t > FAR:
        return far, None
    best = None
    for c in acc:
        e = abs(c.t - t)
        if e <= 1e-8 * max(1., abs(c.t)) + 10 * c.terr and (best is None or e < abs(best.t - t)):
            best = c
    return best is not None, best
