"""C22: bounding volumes contain exactly their points, wherever they are moved."""
import math
import numpy as N
from vt import ref, gen
from vt.ref import Frame
from vt.common import Sub, array, bad, close

ID = 'C22'
RULE = ('A bounding sphere, cylinder or half-space with random size and own frame, bare or inside an object and assemblies with random '
        'transforms (set at construction or moved later), is asked about 0-60 points (in, out, near its border, far); the answers are '
        'compared with scalar membership. For spheres, the rectangle reported for a random cutting plane is compared with the square of the '
        'circle of intersection. Non-trivial: points on both sides in a displaced or rotated volume; a plane not through the centre.')
ASSUMPTIONS = ['points within 1e-9 (relative) of the border are not judged', 'planes that do not cut the sphere are not judged']


def place(d, b, own, sphere):
    """Put the volume somewhere; returns its world frame."""
    from tracer.object import AssembledObject
    from tracer.assembly import Assembly
    how = d.choice(['bare', 'frame', 'object', 'nested', 'add', 'moved'])
    d.event('placed:' + how)
    d.note('placed', how)
    if how == 'bare':
        return own
    far = 10 ** d.unif(3., 6.) if d.bool(.15) else 5.
    if far > 5.:
        d.event('far from the origin')
    f = gen.frame(d, far)
    g = gen.frame(d, far)
    if how == 'frame':
        b.transform_frame(gen.np_trans(f))
        return f.mul(own)
    if how == 'object':
        AssembledObject(bounds=[b], transform=gen.np_trans(f))
        return f.mul(own)
    if how == 'add':
        o = AssembledObject(transform=gen.np_trans(f))
        o.add_boundary(b)
        return f.mul(own)
    o = AssembledObject(bounds=[b], transform=gen.np_trans(f))
    a = Assembly(objects=[o], location=gen.np_loc(g), rotation=gen.np_rot(g))
    if how == 'moved':
        own2 = gen.frame(d, 4.)
        if sphere:
            own2 = Frame(t=own2.t)
        b.set_location(gen.np_loc(own2))
        if not sphere:
            b.set_rotation(gen.np_rot(own2))
        own = own2
        g = gen.frame(d, far)
        a.set_transform(gen.np_trans(g))
    return g.mul(f).mul(own)


def make(d, kind=None):
    from tracer import boundary_shape as bs
    kind = kind or d.choice(['plane', 'cyl', 'sphere'])
    own = gen.frame(d, 4.)
    size = d.pos_real(.2, 8.)
    if d.bool(.1):      # defaults
        own = Frame()
        if kind == 'sphere':
            b, size = bs.BoundarySphere(), 1.
        elif kind == 'cyl':
            b, size = bs.BoundaryCylinder(), 1.
        else:
            b = bs.BoundaryPlane()
        d.event('defaults')
    elif kind == 'sphere':
        own = Frame(t=own.t)
        b = bs.BoundarySphere(location=gen.np_loc(own), radius=size)
    elif kind == 'cyl':
        b = bs.BoundaryCylinder(diameter=size, location=gen.np_loc(own), rotation=gen.np_rot(own))
    else:
        b = bs.BoundaryPlane(location=gen.np_loc(own), rotation=gen.np_rot(own))
    d.note('volume', [kind, size, own.rows4()])
    world = place(d, b, own, kind == 'sphere')
    d.note('world', world.rows4())
    return kind, b, size, world


def membership(d):
    kind, b, size, w = make(d)
    r = {'sphere': size, 'cyl': size / 2., 'plane': 2.}[kind]
    n = d.weighted([(1, 0), (2, 1), (1, 3), (8, None)])
    if n is None:
        n = d.int(2, 60)
    pts, depth = [], []
    for i in range(n):
        k = d.choice(['near', 'border', 'far', 'axis'])
        if k == 'far':
            q = gen.point(d, 15.)
        elif k == 'axis':
            q = d.choice([(0., 0., 0.), (0., 0., d.unif(-9., 9.)), (r * d.unif(-2., 2.), 0., 0.), (0., r * d.unif(-2., 2.), 0.)])
        else:
            s = d.unif(0., 2.) if k == 'near' else 1. + d.choice([1, -1]) * 10 ** d.unif(-7., -1.)
            u = gen.unit_vec(d)
            if kind == 'sphere':
                q = ref.scale(u, s * r)
            elif kind == 'cyl':
                h = math.hypot(u[0], u[1])
                q = (u[0] / h * s * r, u[1] / h * s * r, d.unif(-6., 6.)) if h > 1e-6 else (s * r, 0., 1.)
            else:
                q = (d.unif(-6., 6.), d.unif(-6., 6.), s - 1.)
        m = {'sphere': r - ref.norm(q), 'cyl': r - math.hypot(q[0], q[1]), 'plane': q[2]}[kind]
        # a sphere has no orientation, whatever rotation it went through
        pts.append(w.apply(q))
        depth.append(m)
    d.note('points', pts)
    if n > 1 and d.bool(.02):
        order = N.random.RandomState(d.seed()).randint(0, n, d.int(1000, 5000))
        pts, depth, n = [pts[i] for i in order], [depth[i] for i in order], len(order)
        d.note('points taken in the order', order)
        d.event('thousands of points')
    P = N.array(pts).reshape(n, 3)
    P0 = P.copy()
    res = N.asarray(b.in_bounds(P))
    if res.shape != (n,):
        bad('%d points, %r answers', n, res.shape)
    if not (P == P0).all():
        bad('the points were altered')
    sides = set()
    for i in range(n):
        if abs(depth[i]) < 1e-9 * (1 + r) + 100 * ref.EPS * (ref.norm(pts[i]) + ref.norm(w.t)):
            d.event('on the border')
            continue
        sides.add(depth[i] > 0)
        if bool(res[i]) != (depth[i] > 0):
            bad('point %d of %d, %r, is %g %s the %s, reported %r', i, n, pts[i], abs(depth[i]), 'inside' if depth[i] > 0 else 'outside',
                kind, bool(res[i]))
    d.event(kind)
    d.nontrivial(len(sides) == 2 and (ref.norm(w.t) > 0))


def rect(d):
    kind, b, R, w = make(d, 'sphere')
    c = w.t
    rot = gen.rotation(d)
    h = R * d.unif(-.99, .99)
    off = (R * d.unif(-3., 3.), R * d.unif(-3., 3.))
    # frame of the plane: centre of the sphere is at local (off, h)
    f = Frame(rot)
    o = ref.sub(c, f.dir((off[0], off[1], h)))
    f = Frame(rot, o)
    d.note('plane', f.rows4())
    r = array(b.bounding_rect_for_plane(gen.np_trans(f)), (4,), 'rectangle')
    q = math.sqrt(R * R - h * h)
    close(r, [off[0] - q, off[0] + q, off[1] - q, off[1] + q], 1e-8 * (1 + R) + 1000 * ref.EPS * ref.norm(c), 'rectangle of a sphere of radius %r whose centre is at '
          '%r in the plane\'s frame' % (R, (off[0], off[1], h)))
    d.nontrivial(abs(h) > 1e-3 * R)


SUBS = [
    Sub('membership', membership, 25000, 100000, 'points of all three volumes'),
    Sub('rectangle', rect, 12500, 50000, 'bounding_rect_for_plane'),
]
