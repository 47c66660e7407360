"""C15: rotation and transform helpers produce the stated rigid motions."""
import math
import numpy as N
from vt import ref, gen
from vt.common import Sub, array, bad, close

ID = 'C15'
RULE = ('Random axes, angles, translations and batches of 1-40 directions (including exactly and nearly +-Z) for general_axis_rotation, '
        'rotx/roty/rotz, generate_transform, translate and rotation_to_z, against the rotation axioms and an independent axis-angle '
        'rotation of points. Non-trivial: an axis or direction off the coordinate axes and an angle that is not a multiple of pi/2, or a '
        'batch of several directions.')
ASSUMPTIONS = ['axes and directions are unit to rounding, as documented']


def proper(R, what, tol=1e-12):
    close(N.dot(R.T, R), N.eye(3), tol, what + ' transposed times itself')
    det = (R[0, 0] * (R[1, 1] * R[2, 2] - R[1, 2] * R[2, 1]) - R[0, 1] * (R[1, 0] * R[2, 2] - R[1, 2] * R[2, 0])
           + R[0, 2] * (R[1, 0] * R[2, 1] - R[1, 1] * R[2, 0]))
    if not abs(det - 1) <= tol:
        bad('%s has determinant %r', what, det)


def turn(axis, ang, p):
    """p rotated counterclockwise about axis: by components along and around it."""
    a = ref.scale(axis, ref.dot(axis, p))
    r = ref.sub(p, a)
    w = ref.cross(axis, p)
    return ref.add(a, ref.add(ref.scale(r, math.cos(ang)), ref.scale(w, math.sin(ang))))


def angle(d):
    k = d.weighted([(3, 'any'), (1, 'nice'), (1, 'big'), (1, 'small')])
    if k == 'nice':
        return d.choice([0., math.pi, -math.pi, math.pi / 2, -math.pi / 2, 2 * math.pi, math.pi / 3])
    if k == 'big':
        return d.unif(-50., 50.)
    if k == 'small':
        return d.unif(-1e-3, 1e-3)
    return d.unif(-math.pi, math.pi)


def axis_angle(d):
    from tracer import spatial_geometry as sg
    ax = gen.unit_vec(d)
    a, b = angle(d), angle(d)
    p = gen.point(d)
    d.note('axis', ax)
    d.note('angles', [a, b])
    A = N.array(ax)
    R = array(sg.general_axis_rotation(A, a), (3, 3), 'general_axis_rotation')
    if A.tolist() != list(ax):
        bad('the axis was altered')
    proper(R, 'the rotation')
    close(N.dot(R, A), A, 1e-12, 'the rotated axis')
    close(N.dot(R, N.array(p)), turn(ax, a, p), 1e-10, 'a rotated point')
    S = array(sg.general_axis_rotation(N.array(ax), b), (3, 3), 'general_axis_rotation')
    T = array(sg.general_axis_rotation(N.array(ax), a + b), (3, 3), 'general_axis_rotation')
    close(N.dot(R, S), T, 1e-10, 'rotations by two angles, against one by their sum')
    close(array(sg.general_axis_rotation(N.array(ax), -a), (3, 3), 'general_axis_rotation'), R.T, 1e-12, 'rotation by -angle')
    # transforms
    t = gen.point(d)
    G = array(sg.generate_transform(N.array(ax), a, N.array(t)[:, None]), (4, 4), 'generate_transform')
    close(G[:3, :3], R, 1e-12, 'rotation part of generate_transform')
    close(G[:3, 3], t, 0., 'translation part of generate_transform')
    close(G[3], [0, 0, 0, 1], 0., 'last row of generate_transform')
    X = array(sg.translate(*t), (4, 4), 'translate')
    E = N.eye(4)
    E[:3, 3] = t
    close(X, E, 0., 'translate')
    for f, u in ((sg.rotx, (1., 0., 0.)), (sg.roty, (0., 1., 0.)), (sg.rotz, (0., 0., 1.))):
        M = array(f(a), (4, 4), f.__name__)
        E = N.eye(4)
        E[:3, :3] = [turn(u, a, q) for q in ((1., 0., 0.), (0., 1., 0.), (0., 0., 1.))]
        E[:3, :3] = E[:3, :3].T.copy()
        close(M, E, 1e-12, f.__name__)
        close(M[:3, :3], array(sg.general_axis_rotation(N.array(u), a), (3, 3), 'general_axis_rotation'), 1e-12,
              f.__name__ + ' against general_axis_rotation')
        close(N.dot(M, array(f(b), (4, 4), f.__name__)), f(a + b), 1e-10, f.__name__ + ' of two angles')
    d.nontrivial(max(abs(x) for x in ax) < .999999 and abs(math.sin(2 * a)) > 1e-6)


def direction(d):
    k = d.weighted([(5, 'any'), (2, '+z'), (1, '-z'), (1, 'near z'), (1, 'axis')])
    if k == '+z':
        return (0., 0., 1.)
    if k == '-z':
        return (0., 0., -1.)
    if k == 'near z':
        e = 10 ** d.unif(-12., -3.)
        a = d.unif(0., 2 * math.pi)
        s = 1. if d.bool() else -1.
        return ref.unit((e * math.cos(a), e * math.sin(a), s))
    if k == 'axis':
        return d.choice([(1., 0., 0.), (-1., 0., 0.), (0., 1., 0.), (0., -1., 0.)])
    return gen.unit_vec(d, 0.)


def to_z(d):
    from tracer import spatial_geometry as sg
    n = d.weighted([(3, 1), (1, 2), (1, 3), (4, None)])
    if n is None:
        n = d.int(2, 40)
    vs = [direction(d) for _ in range(n)]
    d.note('directions', vs)
    one = n == 1 and d.bool()
    arg = N.array(vs[0]) if one else N.array(vs)
    keep = arg.copy()
    r = N.asarray(sg.rotation_to_z(arg))
    if not (arg == keep).all():
        bad('the directions were altered')
    if n == 1:
        if r.shape == (1, 3, 3):
            r = r[0]
        r = array(r, (3, 3), 'rotation_to_z')[None]
    else:
        r = array(r, (n, 3, 3), 'rotation_to_z of %d directions' % n)
    for i, v in enumerate(vs):
        R = r[i]
        close(R[:, 2], v, 1e-12, 'third column of the rotation to direction %d' % i)
        close(R[2, 0], 0., 1e-12, 'z component of the new X axis of direction %d' % i)
        proper(R, 'the rotation to %r' % (v,))
        if v == (0., 0., 1.):
            close(R, N.eye(3), 0., 'rotation to +Z')
            d.event('+Z')
        # the same as alone
        S = N.asarray(sg.rotation_to_z(N.array(v))).reshape(3, 3)
        close(R, S, 1e-12, 'direction %d in a batch, against alone' % i)
    d.nontrivial(n > 1)


SUBS = [
    Sub('axis-angle', axis_angle, 6000, 100000, 'axis-angle and homogeneous transforms'),
    Sub('to-z', to_z, 5000, 80000, 'rotation_to_z'),
]
