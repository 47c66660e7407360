"""Generators shared by the checks: directions, frames, shapes, rays, and building the real counterparts."""
import math
import numpy as N
from vt import ref
from vt.ref import Frame


def unit_vec(d, nice=0.25):
    if not d.bool(1. - nice):
        return d.choice([(0., 0., -1.), (0., 0., 1.), (1., 0., 0.), (-1., 0., 0.), (0., 1., 0.), (0., -1., 0.)])
    z = d.unif(-1., 1.)
    a = d.unif(0., 2 * math.pi)
    s = math.sqrt(max(0., 1 - z * z))
    return ref.unit((s * math.cos(a), s * math.sin(a), z))


def point(d, ext=5., nice=0.15):
    return (d.real(-ext, ext, nice), d.real(-ext, ext, nice), d.real(-ext, ext, nice))


QUARTER = [((1., 0., 0.), (0., 1., 0.), (0., 0., 1.)),
           ((1., 0., 0.), (0., -1., 0.), (0., 0., -1.)),
           ((0., 0., 1.), (0., 1., 0.), (-1., 0., 0.)),
           ((1., 0., 0.), (0., 0., -1.), (0., 1., 0.)),
           ((0., -1., 0.), (1., 0., 0.), (0., 0., 1.)),
           ((0., 0., 1.), (1., 0., 0.), (0., 1., 0.))]


def rotation(d, nice=0.35):
    """Rows of a rotation matrix."""
    k = d.weighted([(nice * .6, 0), (nice * .4, 1), (1. - nice, 2)])
    if k == 0:
        return d.choice(QUARTER)
    if k == 1:      # about a coordinate axis, angles with rounding noise
        ax = d.choice([(1., 0., 0.), (0., 1., 0.), (0., 0., 1.)])
        return ref.axis_angle(ax, d.choice([math.pi, math.pi / 2, -math.pi / 2, math.pi / 4, -math.pi / 3]))
    return ref.axis_angle(unit_vec(d, 0.1), d.unif(-math.pi, math.pi))


def frame(d, ext=5., p_id=0.1):
    if not d.bool(1. - p_id):
        return Frame()
    if d.bool(.04):         # all but the identity
        e = 10 ** d.unif(-5., -1.)
        return Frame(ref.axis_angle(unit_vec(d, .1), e), point(d, e))
    return Frame(rotation(d), point(d, ext))


def np_rot(f):
    return N.array(f.R)


def np_loc(f):
    return N.array(f.t)


def np_trans(f):
    return N.array(f.rows4())


def gen_bound(d, R, cut_only=True):
    """A bounding volume that cuts a sphere of radius R at the origin."""
    k = d.choice(['plane', 'sphere', 'cyl'])
    if k == 'plane':
        return ref.Bound('plane', Frame(rotation(d), ref.scale(unit_vec(d), R * d.unif(0., 1.1))))
    if k == 'sphere':
        return ref.Bound('sphere', Frame(t=ref.scale(unit_vec(d), R * d.unif(0., 1.5))), R * d.unif(.3, 1.5))
    return ref.Bound('cyl', Frame(rotation(d), ref.scale(unit_vec(d), R * d.unif(0., 1.))), R * d.unif(.4, 2.))


SHAPES = ['rect', 'round', 'plane', 'tri', 'sphere', 'hemi', 'cutsphere', 'parab', 'dish', 'hex', 'cyl', 'fincyl']


def shape(d, kinds=SHAPES, lo=0.3, hi=6.):
    k = d.choice(kinds)
    if k == 'plane':
        return ref.Plane()
    if k == 'rect':
        return ref.Rect(d.pos_real(lo, hi), d.pos_real(lo, hi))
    if k == 'round':
        return ref.Round(d.pos_real(lo, hi) / 2.)
    if k == 'tri':
        a = d.unif(0., 2 * math.pi) if d.bool(.6) else 0.
        b = a + d.unif(.2, 2.9)
        if d.bool(.3):
            b = a - (b - a)
        r1, r2 = d.pos_real(lo, hi), d.pos_real(lo, hi)
        return ref.Tri((r1 * math.cos(a), r1 * math.sin(a)), (r2 * math.cos(b), r2 * math.sin(b)))
    if k == 'sphere':
        return ref.Sphere(d.pos_real(lo, hi))
    if k == 'hemi':
        return ref.Hemi(d.pos_real(lo, hi))
    if k == 'cutsphere':
        R = d.pos_real(lo, hi)
        return ref.CutSphere(R, gen_bound(d, R) if d.bool(.95) else None)
    if k == 'parab':
        return ref.Parab(d.pos_real(lo, hi), d.pos_real(lo, hi))
    if k == 'dish':
        return ref.Dish(d.pos_real(lo, hi), d.pos_real(lo, hi))
    if k == 'hex':
        return ref.Hex(d.pos_real(lo, hi), d.pos_real(lo, hi))
    if k == 'cyl':
        return ref.Cyl(d.pos_real(lo, hi))
    return ref.FinCyl(d.pos_real(lo, hi), d.pos_real(lo, hi))


def real_bound(b):
    from tracer import boundary_shape as bs
    if b is None:
        return None
    loc, rot = np_loc(b.frame), np_rot(b.frame)
    if b.kind == 'sphere':
        return bs.BoundarySphere(location=loc, radius=b.size)
    if b.kind == 'cyl':
        return bs.BoundaryCylinder(diameter=b.size, location=loc, rotation=rot)
    return bs.BoundaryPlane(location=loc, rotation=rot)


def real_geom(s):
    from tracer import flat_surface, sphere_surface, paraboloid, cylinder, triangular_face
    k = s.kind
    if k == 'plane':
        return flat_surface.FlatGeometryManager()
    if k == 'rect':
        return flat_surface.RectPlateGM(s.w, s.h)
    if k == 'round':
        return flat_surface.RoundPlateGM(s.R)
    if k == 'tri':
        return triangular_face.TriangularFace(N.array([[s.v1[0], s.v2[0]], [s.v1[1], s.v2[1]], [0., 0.]]))
    if k == 'sphere':
        return sphere_surface.SphericalGM(s.R)
    if k == 'hemi':
        return sphere_surface.HemisphereGM(s.R)
    if k == 'cutsphere':
        return sphere_surface.CutSphereGM(s.R, real_bound(s.bound))
    if k == 'parab':
        return paraboloid.Paraboloid(s.a, s.b)
    if k == 'dish':
        return paraboloid.ParabolicDishGM(s.D, s.f)
    if k == 'hex':
        return paraboloid.HexagonalParabolicDishGM(s.D, s.f)
    if k == 'cyl':
        return cylinder.InfiniteCylinder(s.D)
    return cylinder.FiniteCylinder(s.D, s.h)


def ray_at(d, surf, ext=6.):
    """A ray related to the placed surface in one of several ways: (origin, direction, class)."""
    fr, sh = surf.frame, surf.shape
    k = d.weighted([(5, 'aim'), (2, 'edge'), (2, 'through'), (1, 'from'), (1, 'random'), (1, 'axis'), (1, 'away'),
                    (1, 'nice'), (1, 'inside'), (2, 'rim'), (1, 'graze'), (.4, 'far'), (.7, 'close')])
    if k == 'graze':        # nearly within the tangent plane at a point of the surface, from either side
        p = sh.sample(d)
        n = sh.normal(p)
        t = ref.cross(n, unit_vec(d, .1))
        if ref.norm(t) < .1:
            t = ref.cross(n, (1., 0., 0.) if abs(n[0]) < .7 else (0., 1., 0.))
        v = ref.unit(ref.along(ref.unit(t), n, d.choice([-1., 1.]) * 10 ** d.unif(-8., -1.5)))
        return fr.apply(ref.along(p, v, -d.unif(.2, 1.) * ext)), fr.dir(v), k
    rim = sh.rim(d) if k == 'rim' and sh.bounded else None
    if k == 'nice':
        o = tuple(float(d.int(-4, 4)) for _ in range(3))
        return o, unit_vec(d, 1.), k
    if k == 'random':
        return point(d, ext), unit_vec(d, .1), k
    if k == 'axis':         # parallel to a local axis, exactly in local terms
        ax = d.choice([(0., 0., 1.), (0., 0., -1.), (1., 0., 0.), (0., -1., 0.)])
        p = sh.sample(d, 1.3) if sh.kind != 'plane' else sh.sample(d)
        lo = ref.along(p, ax, -d.unif(-3., 6.))
        return fr.apply(lo), fr.dir(ax), k
    if k == 'inside':       # starts near the local origin / inside
        e = sh.extent
        lo = (d.unif(-.6, .6) * e, d.unif(-.6, .6) * e, d.unif(-.6, .6) * e)
        return fr.apply(lo), unit_vec(d, .1), k
    if rim is not None:
        p = fr.apply(rim)
    else:
        p = fr.apply(sh.sample(d, 1.5 if k == 'edge' else 1.) if sh.kind != 'plane' else sh.sample(d))
    if k == 'from':
        return p, unit_vec(d, .1), k
    if k == 'close':        # a hair before the surface
        v = unit_vec(d, .1)
        return ref.along(p, v, -10 ** d.unif(-6.7, -1.5)), v, k
    if k == 'through':      # chord through two points of the surface
        q = fr.apply(sh.sample(d))
        if ref.dist(p, q) < 1e-3:
            q = point(d, ext)
        if ref.dist(p, q) < 1e-3:
            return p, unit_vec(d, .1), 'from'
        v = ref.unit(ref.sub(p, q))
        return ref.along(q, v, d.unif(-4., 4.)), v, k
    o = point(d, ext)
    if k == 'far':          # from a long way off
        o = ref.scale(unit_vec(d), min(3e4, ext * 10 ** d.unif(1.5, 4.)))
    if ref.dist(p, o) < 1e-3:
        return o, unit_vec(d, .1), 'random'
    v = ref.unit(ref.sub(p, o))
    if k == 'away':
        v = ref.scale(v, -1.)
    return o, v, k


def bundle(rays, energy=None, ref_index=None, **kw):
    from tracer.ray_bundle import RayBundle
    v = N.array([r[0] for r in rays]).T.reshape(3, len(rays)).copy()
    dd = N.array([r[1] for r in rays]).T.reshape(3, len(rays)).copy()
    args = {}
    if energy is not None:
        args['energy'] = N.array(energy, dtype=float)
    if ref_index is not None:
        args['ref_index'] = N.array(ref_index, dtype=float)
    args.update(kw)
    return RayBundle(vertices=v, directions=dd, **args)
