"""One surface somewhere in the world against its reference: used by C07, C08 and C09."""
from math import inf
import numpy as N
from vt import ref, gen
from vt.ref import Frame
from vt.common import array, bad


def build(d, kinds, optics=None):
    """A real Surface and its reference, placed directly or through containers' transforms."""
    from tracer.surface import Surface
    from tracer.object import AssembledObject
    from tracer.assembly import Assembly
    from tracer import optics_callables as opt
    sc = d.weighted([(6, 1.), (1, .01), (1, 30.)])
    sh = gen.shape(d, kinds, .3 * sc, 6. * sc)
    ext = 5. * sc
    if d.bool(.06):
        ext = 10 ** d.unif(3., 5.)
        d.event('far from the origin')
    own = gen.frame(d, ext)
    surf = Surface(gen.real_geom(sh), optics if optics is not None else opt.perfect_mirror, location=gen.np_loc(own), rotation=gen.np_rot(own))
    world = own
    how = d.weighted([(3, 'bare'), (2, 'frame'), (2, 'object'), (2, 'nested')])
    if how == 'frame':
        f = gen.frame(d, ext)
        surf.transform_frame(gen.np_trans(f))
        world = f.mul(own)
    elif how == 'object':
        f = gen.frame(d, ext)
        AssembledObject(surfs=[surf], transform=gen.np_trans(f))
        world = f.mul(own)
    elif how == 'nested':
        f, g = gen.frame(d, ext), gen.frame(d, ext)
        obj = AssembledObject(surfs=[surf], transform=gen.np_trans(f))
        Assembly(objects=[obj], location=gen.np_loc(g), rotation=gen.np_rot(g))
        world = g.mul(f).mul(own)
    d.note('shape', [sh.kind, sh.describe()])
    d.note('world', world.rows4())
    d.event('shape:' + sh.kind)
    d.event('placed:' + how)
    rs = ref.RefSurface(sh, world)
    rs.own = own
    rs.reach = 0. if ext == 5. * sc else 3. * ext
    return surf, rs, sc


def move(d, surf, rs, sc):
    """The same surface elsewhere: turned where it stands, shifted, or anything; the new reference."""
    k = d.choice(['turned', 'shifted', 'any', 'not at all'])
    w = rs.frame
    if k == 'turned':
        w = Frame(gen.rotation(d), w.t)
    elif k == 'shifted':
        w = Frame(w.R, gen.point(d, 5. * sc))
    elif k == 'any':
        w = Frame(gen.rotation(d), gen.point(d, 5. * sc))
    surf.transform_frame(gen.np_trans(w.mul(rs.own.inverse())))
    d.event('moved:' + k)
    d.note('moved to', w.rows4())
    sh = rs.shape
    gm = surf.get_geometry_manager()
    if sh.kind in ('sphere', 'hemi', 'cutsphere') and d.bool(.4):
        R = sh.R * d.choice([.5, 1.5, 1.01]) if d.bool(.9) else sh.R
        gm.set_radius(R)
        if gm.get_radius() != R:
            bad('the radius was set to %r and is reported as %r', R, gm.get_radius())
        sh = ref.CutSphere(R, sh.bound) if sh.kind == 'cutsphere' else type(sh)(R)
        d.event('resized')
    elif sh.kind == 'tri' and d.bool(.4):
        sh = gen.shape(d, ['tri'], .3 * sc, 6. * sc)
        gm.set_vertices(N.array([[sh.v1[0], sh.v2[0]], [sh.v1[1], sh.v2[1]], [0., 0.]]))
        d.event('reshaped')
    if sh is not rs.shape:
        d.note('shape changed to', [sh.kind, sh.describe()])
    out = ref.RefSurface(sh, w)
    out.own = rs.own
    out.reach = rs.reach
    out.optics = getattr(rs, 'optics', None)
    return out


def rays_for(d, rs, sc, avg=12, hi=60):
    rays = []
    while d.more(len(rays), avg, 1, hi):
        o, v, k = gen.ray_at(d, rs, 6. * sc)
        rays.append((o, v, k))
    d.note('rays', [(r[0], r[1]) for r in rays])
    return rays


def judge_params(d, rs, rays, prm):
    """prm as reported by the code; returns per ray the matching crossing (None: miss or not decidable)."""
    prm = array(prm, (len(rays),), 'parametric positions').tolist()
    out = []
    for i, (o, v, k) in enumerate(rays):
        ans = ref.surface_answers(rs, o, v)
        t = prm[i]
        if t != t:
            bad('ray %d: undefined parameter', i)
        if t < 0:
            bad('ray %d: negative parameter %r', i, t)
        if ans is None:
            d.event('undecided')
            out.append(None)
            continue
        ok, c = ref.report_ok(ans, t)
        if not ok:
            bad('%s, ray %d (%s) from %r along %r: reported at %r, but may only be %r%s', rs.shape.kind, i, k, o, v, t,
                [x.t for x in ans[0]], ' or a miss' if ans[1] else '')
        if len(ans[0]) + bool(ans[1]) == 1:
            d.event('decided hit' if not ans[1] else 'decided miss')
        else:
            d.event('borderline')
        out.append(c)
    return out


def match_params(rs, rays, prm):
    """Without judging which crossing is reported: the crossing each reported parameter stands for, or None."""
    prm = array(prm, (len(rays),), 'parametric positions').tolist()
    out = []
    for (o, v, k), t in zip(rays, prm):
        try:
            cs = rs.crossings(o, v) if 0 < t < ref.FAR else []
        except ref.Undecided:
            cs = []
        near = [c for c in cs if abs(c.t - t) <= 1e-7 * max(1., t) + 10 * c.terr]
        out.append(near[0] if len(near) == 1 and near[0].terr < 1e-6 and not near[0].soft else None)
    return out


def classify(d, rs, rays, hits):
    """Events about how demanding the bundle was."""
    kinds = set()
    for (o, v, k), c in zip(rays, hits):
        try:
            cs = [x for x in rs.crossings(o, v) if x.t > 1e-6 and x.terr < 1e-6]
        except ref.Undecided:
            continue
        ins = tuple(x.margin > 0 for x in cs)
        kinds.add(ins)
        d.event('crossings ahead, in aperture: %s' % (''.join('i' if x else 'o' for x in ins) or '-'))
    return kinds


def judge_points(d, rs, rays, sel, hits, prm, pts):
    pts = array(pts, (3, len(sel)), 'intersection points')
    for j, i in enumerate(sel):
        o, v, _ = rays[i]
        c = hits[i]
        if c is None:
            continue
        p = tuple(pts[:, j].tolist())
        tol = 1e-8 * max(1., abs(c.t), rs.shape.extent) + 20 * c.terr
        w = rs.world(c)
        if not ref.dist(p, w) <= tol:
            bad('%s, ray %d: hit point reported %r, should be %r', rs.shape.kind, i, p, w)
        d.event('points checked')


def selection(d, hits):
    """Some of the rays that hit, in ascending or any order."""
    idx = [i for i, c in enumerate(hits) if c is not None]
    sel = [i for i in idx if d.bool(.75)]
    if d.bool(.15):
        for k in range(len(sel) - 1, 0, -1):
            j = d.int(0, k)
            sel[k], sel[j] = sel[j], sel[k]
    return sel
