"""Random scenes: a description, the real Assembly built from it, and the flat list of reference surfaces;
and the step-wise reading of a recorded trace."""
from math import inf, sqrt, isnan
import numpy as N
from vt import ref, gen
from vt.ref import Frame, dot, scale, sub, add, norm, unit, along, dist
from vt.common import array, index_array, bad


# ---------------------------------------------------------------- optics reference
class Optic(object):
    """kind: mirror(a) | onesided(a) | lambert(a) | receiver(a) | lreceiver(a) | refract(n1, n2);
    osreceiver(a): the library's one-sided receiver, front registering and opaque back as one"""
    def __init__(self, kind, a=0., n=None):
        self.kind, self.a, self.n = kind, a, n

    def describe(self):
        return [self.kind, self.n if self.kind == 'refract' else self.a]

    def absorbed_share(self, front):
        if self.kind == 'refract':
            return 0.
        if self.kind in ('onesided', 'osreceiver') and not front:
            return 1.
        return self.a


def real_optics(o):
    from tracer import optics_callables as oc
    if o.kind == 'mirror':
        return oc.Reflective(o.a) if o.a != 0. else oc.perfect_mirror
    if o.kind == 'onesided':
        return oc.AbsorberReflector(o.a)
    if o.kind == 'lambert':
        return oc.LambertianReflector(o.a)
    if o.kind == 'receiver':
        return oc.ReflectiveReceiver(o.a)
    if o.kind == 'lreceiver':
        return oc.LambertianReceiver(o.a)
    return oc.RefractiveHomogenous(*o.n)


def reflect(d, n):
    return sub(d, scale(n, 2 * dot(d, n)))


def fresnel(cosi, n1, n2):
    """(reflectance, cos of the refraction angle or None if total), unpolarised; None if too near critical."""
    s2 = (n1 / n2) ** 2 * (1 - cosi * cosi)
    if abs(1 - s2) < 1e-7:
        return None
    if s2 > 1:
        return 1., None
    cost = sqrt(1 - s2)
    rs = ((n1 * cosi - n2 * cost) / (n1 * cosi + n2 * cost)) ** 2
    rp = ((n1 * cost - n2 * cosi) / (n1 * cost + n2 * cosi)) ** 2
    return (rs + rp) / 2., cost


class Child(object):
    """An expected outgoing ray. dir None: only the half-space of `n` is determined (diffuse)."""
    __slots__ = ('dir', 'energy', 'index', 'n', 'kind')

    def __init__(self, dir, energy, index, n, kind):
        self.dir, self.energy, self.index, self.n, self.kind = dir, energy, index, n, kind


def children(optics, d, n, up, energy, index):
    """Expected outgoing rays of a ray along d hitting where the normal facing it is n and the surface's local Z
    is up; None if not decidable."""
    k = optics.kind
    if k == 'refract':
        n1, n2 = optics.n
        other = n2 if index == n1 else n1
        c = min(1., -dot(d, n))
        f = fresnel(c, index, other)
        if f is None or c < 1e-6:
            return None
        R, cost = f
        out = [Child(reflect(d, n), energy * R, index, n, 'reflected')]
        if cost is not None:
            r = index / other
            t = add(scale(d, r), scale(n, r * c - cost))
            out.append(Child(unit(t), energy * (1 - R), other, n, 'refracted'))
        return out
    if k in ('mirror', 'receiver'):
        return [Child(reflect(d, n), energy * (1 - optics.a), index, n, 'reflected')]
    if k in ('onesided', 'osreceiver'):
        p = dot(d, up)
        if abs(p) < 1e-9:
            return None
        if p > 0:
            return [Child(None, 0., index, n, 'swallowed')]
        return [Child(reflect(d, n), energy * (1 - optics.a), index, n, 'reflected')]
    return [Child(None, energy * (1 - optics.a), index, n, 'diffuse')]


# ---------------------------------------------------------------- descriptions
class SurfSpec(object):
    def __init__(self, shape, optics, frame):
        self.shape, self.optics, self.frame = shape, optics, frame

    def describe(self):
        return {'shape': [self.shape.kind, self.shape.describe()], 'optics': self.optics.describe(),
                'frame': self.frame.rows4()}


class ObjSpec(object):
    """kind 'plain', or 'mirror1s': the library's one-sided mirror (skips its own surfaces for the next step)."""
    def __init__(self, surfs, frame, kind='plain'):
        self.surfs, self.frame, self.kind = surfs, frame, kind

    def describe(self):
        return {'kind': self.kind, 'frame': self.frame.rows4(), 'surfaces': [s.describe() for s in self.surfs]}


class AsmSpec(object):
    def __init__(self, objs, subs, frame):
        self.objs, self.subs, self.frame = objs, subs, frame

    def describe(self):
        return {'frame': self.frame.rows4(), 'objects': [o.describe() for o in self.objs],
                'subassemblies': [s.describe() for s in self.subs]}

    def surfaces(self, parent=Frame()):
        """Reference surfaces in the documented order: subassemblies' objects first, then own."""
        here = parent.mul(self.frame)
        out = []
        for s in self.subs:
            out += s.surfaces(here)
        for o in self.objs:
            of = here.mul(o.frame)
            for s in o.surfs:
                r = ref.RefSurface(s.shape, of.mul(s.frame), s.optics)
                r.obj = o
                out.append(r)
        return out

    def count(self):
        return sum(len(o.surfs) for o in self.objs) + sum(s.count() for s in self.subs)


GLASS = [1.5, 1.3, 2., 1.1]


def gen_optics(d, allow, glass):
    k = d.choice(allow)
    if k == 'refract':
        return Optic('refract', n=(1., glass) if d.bool(.5) else (glass, 1.))
    a = d.weighted([(3, 0.), (1, 1.), (4, None), (.3, 'little'), (.2, 'nearly all')])
    if a == 'little':
        a = 10 ** d.unif(-6., -2.)
    elif a == 'nearly all':
        a = 1. - 10 ** d.unif(-6., -2.)
    elif a is None:
        a = d.real(0., 1.)
    return Optic(k, a)


ALL_OPTICS = ['mirror', 'refract', 'onesided', 'lambert', 'receiver', 'lreceiver']
DETERMINISTIC = ['mirror', 'refract', 'onesided', 'receiver']


class Gen(object):
    def __init__(self, d, optics=ALL_OPTICS, shapes=gen.SHAPES, max_surfs=9, avg=4, scale=1., cull=True):
        self.d, self.optics, self.shapes, self.max, self.avg, self.sc = d, optics, shapes, max_surfs, avg, scale
        self.left = max_surfs
        self.glass = d.choice(GLASS)
        self.cull = cull
        self.shared = {}

    def surf(self):
        d = self.d
        self.left -= 1
        f = Frame() if not d.bool(.6) else gen.frame(d, 4. * self.sc)
        return SurfSpec(gen.shape(d, self.shapes, .4 * self.sc, 6. * self.sc),
                        gen_optics(d, self.optics, self.glass), f)

    def obj(self):
        d = self.d
        f = gen.frame(d, 4. * self.sc, .25)
        if self.cull and 'onesided' in self.optics and d.bool(.12):
            self.left -= 1
            return ObjSpec([SurfSpec(ref.Rect(d.pos_real(.4, 6.) * self.sc, d.pos_real(.4, 6.) * self.sc),
                                     Optic('onesided', d.choice([0., .1, .5])), Frame())], f, 'mirror1s')
        surfs = [self.surf()]
        while self.left > 0 and d.more(len(surfs), 1.7, 1, 5):
            surfs.append(self.surf())
        return ObjSpec(surfs, f)

    def asm(self, depth=0):
        d = self.d
        f = gen.frame(d, 4. * self.sc, .3)
        objs, subs = [], []
        while self.left > 0 and d.more(len(objs), (1.7 if depth == 0 else 1.2) * self.avg / 4., 0, 5 * max(1, self.avg // 4)):
            objs.append(self.obj())
        while depth < 3 and self.left > 0 and d.more(len(subs), .5, 0, 2):
            subs.append(self.asm(depth + 1))
        return AsmSpec(objs, subs, f)

    def scene(self):
        a = self.asm()
        while a.count() == 0:
            a.objs.append(self.obj())
        return a

    def again(self):
        """Another scene with the same glass."""
        self.left = self.max
        return self.scene()


def facing_plates(d, optic=lambda d: Optic('mirror', d.choice([0., .01])), rays=12):
    """Two facing plates, something between them, and rays there: traces of dozens of steps."""
    w = gen.frame(d, 3.)
    gap = d.pos_real(.5, 3.)
    big = ref.Rect(40., 40.) if d.bool() else ref.Plane()
    ss = [SurfSpec(big, optic(d), Frame()), SurfSpec(ref.Rect(40., 40.) if big.bounded else ref.Plane(), optic(d), Frame(t=(0., 0., gap)))]
    for _ in range(d.int(0, 2)):
        ss.append(SurfSpec(ref.Sphere(.2 * gap * d.unif(.2, 1.)), Optic('mirror', 0.),
                           Frame(t=(d.unif(-3., 3.), d.unif(-3., 3.), gap * .5))))
    spec = AsmSpec([ObjSpec(ss, w)] if d.bool() else [ObjSpec([s], w) for s in ss], [], gen.frame(d, 3.))
    world = spec.frame.mul(w)
    out = []
    while d.more(len(out), 5, 1, rays):
        v = unit((d.unif(-.3, .3), d.unif(-.3, .3), d.choice([1., -1.])))
        out.append(Ray(world.apply((d.unif(-3., 3.), d.unif(-3., 3.), gap * d.unif(.01, .99))), world.dir(v), 1., 1.))
    return spec, spec.surfaces(), out


# ---------------------------------------------------------------- building the real thing
def build(spec, d=None, keep=None, wrap=None, objcls=None, parts=None):
    """The real Assembly. With `d`, the way of building (constructor lists, add_*, set_*) is drawn.
    `keep`: dict collecting SurfSpec -> Surface. `wrap`: optics callable, SurfSpec -> optics callable to use.
    `objcls`: ObjSpec -> class to use instead of AssembledObject. `parts`: dict collecting every spec -> its real part."""
    from tracer.surface import Surface
    from tracer.object import AssembledObject
    from tracer.assembly import Assembly
    from tracer.models.one_sided_mirror import rect_one_sided_mirror

    def pick(n):
        return d.int(0, n - 1) if d is not None else 0

    # one optics callable may serve several surfaces (receivers keep accounts, theirs are their own)
    shared = {} if d is not None and wrap is None and d.bool(.4) else None

    def optics(o):
        if shared is None or 'receiver' in o.kind:
            return real_optics(o)
        k = (o.kind, o.a, o.n)
        if k not in shared:
            shared[k] = real_optics(o)
        return shared[k]

    def surf(s):
        opt = optics(s.optics)
        if wrap is not None:
            opt = wrap(opt, s)
        r = Surface(gen.real_geom(s.shape), opt, location=gen.np_loc(s.frame),
                    rotation=gen.np_rot(s.frame))
        if keep is not None:
            keep[s] = r
        if parts is not None:
            parts[s] = r
        return r

    def place(part, f):
        k = pick(3)
        if k == 0:
            part.set_transform(gen.np_trans(f))
        elif k == 1:
            part.set_location(gen.np_loc(f))
            part.set_rotation(gen.np_rot(f))
        else:
            part.set_rotation(gen.np_rot(f))
            part.set_location(gen.np_loc(f))

    def obj(o):
        if o.kind == 'mirror1s':
            s = o.surfs[0]
            r = rect_one_sided_mirror(s.shape.w, s.shape.h, s.optics.a)
            if keep is not None:
                keep[s] = r.get_surfaces()[0]
            if parts is not None:
                parts[s] = r.get_surfaces()[0]
        elif pick(2) == 0:
            r = (objcls(o) if objcls else AssembledObject)(surfs=[surf(s) for s in o.surfs])
        else:
            r = (objcls(o) if objcls else AssembledObject)()
            for s in o.surfs:
                r.add_surface(surf(s))
        place(r, o.frame)
        if parts is not None:
            parts[o] = r
        return r

    def asm(a, top):
        k = pick(3)
        if k == 0:
            r = Assembly(objects=[obj(o) for o in a.objs], subassemblies=[asm(s, False) for s in a.subs])
            place(r, a.frame)
        elif k == 1:
            r = Assembly(objects=[obj(o) for o in a.objs], subassemblies=[asm(s, False) for s in a.subs],
                         location=gen.np_loc(a.frame), rotation=gen.np_rot(a.frame))
        else:
            r = Assembly()
            if pick(2):
                place(r, a.frame)
            # add_* place the part themselves
            for s in a.subs:
                r.add_assembly(asm(s, False), gen.np_trans(s.frame))
            for o in a.objs:
                r.add_object(obj(o), gen.np_trans(o.frame))
            place(r, a.frame)
        if parts is not None:
            parts[a] = r
        return r
    if isinstance(spec, SurfSpec):
        return surf(spec)
    if isinstance(spec, ObjSpec):
        return obj(spec)
    return asm(spec, True)


# ---------------------------------------------------------------- rays
class Ray(object):
    __slots__ = ('o', 'd', 'e', 'n', 'parent', 'cls')

    def __init__(self, o, d, e, n, parent=None, cls=None):
        self.o, self.d, self.e, self.n, self.parent, self.cls = o, d, e, n, parent, cls


def gen_rays(d, surfs, glass, avg=10, hi=40, sc=1., energies=True, zero=True):
    rays = []
    while d.more(len(rays), avg, 1, hi):
        s = d.choice(surfs)
        o, v, k = gen.ray_at(d, s, 7. * sc)
        e = 1.
        if energies:
            e = d.weighted([(4, 1.), (5, None), (1, 0. if zero else 1.)])
            if e is None:
                e = d.pos_real(1e-4, 100.)
        rays.append(Ray(o, v, e, glass if d.bool(.25) else 1., cls=k))
    return rays


def many_rays(d, surfs, glass, lo, hi, sc=1.):
    """A large bundle, from one seed rather than from single choices."""
    import random
    from vt.pbt import Draw
    n = d.int(lo, hi)
    s = d.seed()
    d.note('many rays', [n, s])
    q = Draw(rng=random.Random(s))
    rays = []
    for i in range(n):
        o, v, k = gen.ray_at(q, q.choice(surfs), 7. * sc)
        e = q.weighted([(4, 1.), (5, None), (1, 0.)])
        if e is None:
            e = q.pos_real(1e-4, 100.)
        rays.append(Ray(o, v, e, glass if q.bool(.25) else 1., cls=k))
    return rays


def to_bundle(rays, **kw):
    return gen.bundle([(r.o, r.d) for r in rays], [r.e for r in rays], [r.n for r in rays], **kw)


def describe_rays(rays):
    return [[r.o, r.d, r.e, r.n] for r in rays]


def read_bundle(b, prev, what):
    """A recorded bundle as Rays, validated for shape. prev: number of rays in the previous bundle (None: source)."""
    v = b.get_vertices()
    n = array(v, (3, None), what + ' vertices').shape[1]
    v = array(v, (3, n), what + ' vertices').T.tolist()
    dr = array(b.get_directions(), (3, n), what + ' directions').T.tolist()
    e = array(b.get_energy(), (n,), what + ' energies').tolist()
    ri = array(b.get_ref_index(), (n,), what + ' refractive indices').tolist()
    par = index_array(b.get_parents(), n, prev, what + ' parents') if prev is not None else [None] * n
    return [Ray(tuple(v[i]), tuple(dr[i]), e[i], ri[i], par[i]) for i in range(n)]


def read_tree(tree, what='tree'):
    k = tree.num_bunds()
    out = []
    for i in range(k):
        out.append(read_bundle(tree[i], len(out[-1]) if i else None, '%s[%d]' % (what, i)))
    return out


# ---------------------------------------------------------------- expected hits
TIE = 2e-8


class Hit(object):
    __slots__ = ('surf', 'c', 'p', 'idx')

    def __init__(self, surf, c, p, idx):
        self.surf, self.c, self.p, self.idx = surf, c, p, idx


def first_hit(surfs, o, d, relevant=None):
    """Hit, None for an escape, or 'undecided'. relevant: per-surface booleans."""
    cand = []
    vague = []
    if not norm(o) <= ref.FAR:
        return 'undecided'      # rounding out there is no longer small beside the 1e-6 that tells a start from a hit
    for i, s in enumerate(surfs):
        if relevant is not None and not relevant[i]:
            continue
        try:
            cs = s.crossings(o, d)
        except ref.Undecided:
            return 'undecided'
        for c in cs:
            if c.t < -ref.FAR:
                continue
            if c.t > ref.FAR or c.terr > 1e-6:
                # not well enough determined to be expected, but it does not matter behind the start or a nearer crossing
                if c.t > ref.FAR:
                    if s.shape.bounded and norm(o) + norm(s.frame.t) + s.shape.extent < .1 * ref.FAR:
                        continue
                    vague.append(ref.FAR)
                elif c.t + 10 * c.terr > -1e-6:
                    vague.append(c.t - 10 * c.terr if c.terr < 1e9 else 0.)
                continue
            if c.t < -1e-8 - 10 * c.terr:
                continue
            tol = ref.edge_tol(c, s.shape)
            if c.margin < -tol:
                continue
            if abs(c.t) <= 2e-6 + 10 * c.terr:
                # at the start: exactly there (up to rounding), or too near to say
                if abs(c.t) <= (4e-10 if s.shape.quadric else 5e-11) and c.terr <= 5e-11:
                    continue
                return 'undecided'
            cand.append((c.t, i, c, tol))
    cand.sort(key=lambda x: (x[0], x[1]))
    for k, (t, i, c, tol) in enumerate(cand):
        if abs(c.margin) <= tol or c.soft:
            return 'undecided'
        if k + 1 < len(cand) and cand[k + 1][0] - t < TIE + 10 * (c.terr + cand[k + 1][2].terr):
            return 'undecided'
        if vague and min(vague) <= t + TIE:
            return 'undecided'
        s = surfs[i]
        return Hit(s, c, s.world(c), i)
    return 'undecided' if vague else None


def relevance(surfs, owner_obj):
    """For rays that just left a library one-sided mirror, its own surfaces are skipped once."""
    if owner_obj is None or owner_obj.kind != 'mirror1s':
        return None
    return [s.obj is not owner_obj for s in surfs]


def point_tol(h, o):
    return 1e-8 * max(1., norm(o), abs(h.c.t), h.surf.shape.extent) + 20 * h.c.terr


def on_surface(surfs, p, tol=1e-6):
    """Indices of the surfaces whose aperture contains world point p (to tol); all that may, where rounding is large."""
    if not norm(p) <= ref.FAR:
        return list(range(len(surfs)))
    out = []
    for i, s in enumerate(surfs):
        q = s.frame.inv(p)
        k = tol * max(1., s.shape.extent)
        if abs(s.shape.residual(q)) <= k and s.shape.margin(q) >= -k:
            out.append(i)
    return out


def where_from(surfs, p):
    """The only surface a traced ray can have started on, or None."""
    i = on_surface(surfs, p)
    return i[0] if len(i) == 1 else None


def located(surfs, kids):
    """The only surface that all these rays can have started on, or None."""
    on = None
    for c in kids:
        if not norm(c.o) < 1e6:
            return None
        x = set(on_surface(surfs, c.o))
        on = x if on is None else on & x
    return surfs[on.pop()] if on is not None and len(on) == 1 else None


def normal_at(surf, p, d):
    """World normal of the surface at world point p, against direction d; None at singular points."""
    try:
        n = surf.frame.dir(unit(surf.shape.normal(surf.frame.inv(p))))
    except ZeroDivisionError:
        return None
    return scale(n, -1.) if dot(n, d) > 0 else n


def dir_tol(h):
    return 1e-7 + 2e3 * h.c.terr / max(min(h.surf.shape.extent, 1.), 1e-3)


def match_children(expected, got, tol):
    """Assign got rays to expected ones (at most two): list of (Child, Ray) or None."""
    if len(expected) != len(got):
        return None

    def fits(c, r):
        if c.index != r.n and abs(c.index - r.n) > 1e-12:
            return False
        if c.dir is None:
            return True
        return dist(c.dir, r.d) <= tol
    if len(expected) == 1:
        return [(expected[0], got[0])] if fits(expected[0], got[0]) else None
    a, b = expected
    x, y = got
    if fits(a, x) and fits(b, y):
        return [(a, x), (b, y)]
    if fits(a, y) and fits(b, x):
        return [(a, y), (b, x)]
    return None


# ---------------------------------------------------------------- tracing and reading it step by step
def trace(asm, bundle, reps, min_energy, **kw):
    """(engine, vertices, directions) of a real trace."""
    from tracer.tracer_engine import TracerEngine
    e = TracerEngine(asm)
    v, dd = e.ray_tracer(bundle, reps, min_energy, **kw)
    return e, v, dd


def by_parent(level, n):
    out = [[] for _ in range(n)]
    for i, r in enumerate(level):
        out[r.parent].append(i)
    return out


def steps(surfs, levels, min_energy, reps):
    """Yields (level number, ray index, ray, expected, children) for every ray that had to be followed.
    expected: Hit, None (escapes) or 'undecided'."""
    owner = [None] * len(levels[0])      # object culling itself for this ray; False: unknown
    for k, lev in enumerate(levels):
        if k >= reps:
            break
        nxt = levels[k + 1] if k + 1 < len(levels) else []
        kids = by_parent(nxt, len(lev))
        new_owner = [False] * len(nxt)
        for i, r in enumerate(lev):
            if k and not r.e > min_energy:
                continue
            if owner[i] is False:
                w = where_from(surfs, r.o)
                exp = 'undecided' if w is None else first_hit(surfs, r.o, r.d, relevance(surfs, surfs[w].obj))
            else:
                exp = first_hit(surfs, r.o, r.d, relevance(surfs, owner[i]))
            if isinstance(exp, Hit):
                for j in kids[i]:
                    if dist(nxt[j].o, exp.p) <= point_tol(exp, r.o):
                        new_owner[j] = exp.surf.obj
            yield k, i, r, exp, [nxt[j] for j in kids[i]]
        owner = new_owner
