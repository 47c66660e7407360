"""C06: a surface's place in the world is the product of its chain of frames."""
import numpy as N
from vt import scene, ref, gen
from vt.ref import Frame
from vt.common import Sub, array, bad, close

ID = 'C06'
RULE = ('A random history of 3-30 operations builds a tree of assemblies, objects, surfaces and bounding volumes and moves its parts '
        '(constructor placement, set_location, set_rotation, set_transform, add_* with and without transforms, with arrays taken from a '
        'shared pool that the caller may change afterwards). After every operation on the top assembly, and after re-transforming it at '
        'random times, every surface and volume is located through its answers and compared with the product of the model\'s frames. '
        'Non-trivial: nesting at least two deep and at least three moves.')
ASSUMPTIONS = ['parts below the top are judged only once the top-level assembly has been re-transformed, as stated']


class Part(object):
    def __init__(self, kind, real, frame):
        self.kind, self.real, self.frame = kind, real, frame
        self.kids = []          # in the order of adding
        self.size = None
        self.sub = []


def flat(f):
    return [list(r) for r in f.rows4()]


class History(object):
    def __init__(self, d):
        self.d = d
        self.pool = []          # (array, copy)
        self.log = []
        self.mutated = set()
        self.clean = False
        self.moves = 0
        self.depth = 0

    # ---- arrays handed to the code
    def arr(self, values, integer=False):
        """An array with these values; sometimes the very one handed over before."""
        d = self.d
        a = N.array(values, dtype=float)
        if integer and d.bool(.5) and (a == N.round(a)).all():
            a = a.astype(int)
        self.pool.append((a, a.copy()))
        return a

    def frame(self):
        d = self.d
        k = d.weighted([(5, 'new'), (1, 'id'), (1, 'int')])
        if k == 'id':
            return Frame()
        if k == 'int':
            return Frame(d.choice(gen.QUARTER), tuple(float(d.int(-3, 3)) for _ in range(3)))
        return gen.frame(d, 4.)

    def old_array(self, shape):
        """An array already given to the code before."""
        c = [a for a, _ in self.pool if a.shape == shape and id(a) not in self.mutated]
        if c and self.d.bool(.3):
            self.d.event('array reused')
            return self.d.choice(c)
        return None

    def loc_arr(self, f):
        a = self.old_array((3,))
        if a is not None:
            return a, Frame(f.R, tuple(float(x) for x in a))
        return self.arr(f.t, True), f

    def rot_arr(self, f):
        a = self.old_array((3, 3))
        if a is not None:
            return a, Frame(tuple(tuple(float(x) for x in r) for r in a), f.t)
        return self.arr(f.R, True), f

    def trans_arr(self, f):
        a = self.old_array((4, 4))
        if a is not None:
            return a, Frame(tuple(tuple(float(x) for x in r[:3]) for r in a[:3]), tuple(float(r[3]) for r in a[:3]))
        return self.arr(flat(f), True), f

    def placing(self):
        """A transform to stand in: a new array, one used before, or one used before with new contents."""
        d = self.d
        a, f = self.trans_arr(self.frame())
        if a.dtype == float and d.bool(.3):
            f = self.refill(a)
        return a, f

    def refill(self, a):
        f = Frame(self.d.choice(gen.QUARTER), tuple(float(self.d.int(-3, 3)) for _ in range(3))) if a.dtype != float else self.frame()
        a[...] = flat(f)
        self.pool[:] = [(x, x.copy() if x is a else c) for x, c in self.pool]
        self.d.event('array with new contents')
        return f

    # ---- creation
    def leaf(self):
        d = self.d
        from tracer.surface import Surface
        from tracer.flat_surface import RectPlateGM
        from tracer.sphere_surface import SphericalGM
        from tracer.optics_callables import perfect_mirror
        f = self.frame()
        loc, rot = None, None
        if d.bool(.8):
            loc, f = self.loc_arr(f)
        else:
            f = Frame(f.R)
        if d.bool(.8):
            rot, f = self.rot_arr(f)
        else:
            f = Frame(t=f.t)
        p = Part('surface', Surface(RectPlateGM(2., 3.), perfect_mirror, location=loc, rotation=rot), f)
        return p

    def bound(self):
        d = self.d
        from tracer import boundary_shape as bs
        f = self.frame()
        loc, f = self.loc_arr(f)
        k = d.choice(['bplane', 'bcyl', 'bsphere'])
        if k == 'bsphere':
            p = Part(k, bs.BoundarySphere(location=loc, radius=1.5), Frame(t=f.t))
        else:
            rot, f = self.rot_arr(f)
            p = Part(k, bs.BoundaryPlane(location=loc, rotation=rot) if k == 'bplane' else
                     bs.BoundaryCylinder(diameter=3., location=loc, rotation=rot), f)
        return p

    def obj(self):
        d = self.d
        from tracer.object import AssembledObject
        kids = []
        while d.more(len(kids), 1, 0, 3):
            kids.append(self.leaf())
        bounds = []
        if d.bool(.4):
            bounds.append(self.bound())
        f = self.frame()
        if d.bool(.6):
            t, f = self.trans_arr(f)
            r = AssembledObject(surfs=[k.real for k in kids], bounds=[k.real for k in bounds], transform=t)
        elif kids or bounds:
            f = Frame()
            r = AssembledObject(surfs=[k.real for k in kids], bounds=[k.real for k in bounds])
        else:
            f = Frame()
            r = AssembledObject()
        p = Part('object', r, f)
        p.kids = kids + bounds
        return p

    def asm(self, depth=0):
        d = self.d
        from tracer.assembly import Assembly
        f = self.frame()
        k = d.int(0, 2)
        objs, subs = [], []
        if k:
            while d.more(len(objs), 1, 0, 2):
                objs.append(self.obj())
            while depth < 2 and d.more(len(subs), .5, 0, 1):
                subs.append(self.asm(depth + 1))
        kw = {}
        if objs or d.bool(.5):
            kw['objects'] = [o.real for o in objs]
        if subs or d.bool(.5):
            kw['subassemblies'] = [o.real for o in subs]
        if d.bool(.6):
            kw['location'], f = self.loc_arr(f)
        else:
            f = Frame(f.R)
        if d.bool(.6):
            kw['rotation'], f = self.rot_arr(f)
        else:
            f = Frame(t=f.t)
        p = Part('assembly', Assembly(**kw), f)
        p.kids = objs
        p.sub = subs
        return p

    # ---- operations
    def parts(self, p=None, depth=0):
        p = p or self.root
        out = [(p, depth)]
        for k in p.sub + p.kids:
            out += self.parts(k, depth + 1)
        return out

    def nudge(self, f):
        """A little away from f."""
        d = self.d
        e = 10 ** d.unif(-7., -2.)
        t, R = f.t, f.R
        if d.bool(.7):
            t = ref.add(t, ref.scale(gen.unit_vec(d), e * max(1., ref.norm(t))))
        if d.bool(.5):
            R = Frame(ref.axis_angle(gen.unit_vec(d), e)).mul(Frame(R)).R
        d.event('nudge')
        return Frame(R, t)

    def move(self, p):
        d = self.d
        f = self.frame() if d.bool(.75) else self.nudge(p.frame)
        if p.kind == 'bsphere':
            k = 'loc'
        else:
            k = d.choice(['loc', 'rot', 'trans'])
        if k == 'loc':
            a, g = self.loc_arr(f)
            p.real.set_location(a)
            p.frame = Frame(p.frame.R, g.t)
        elif k == 'rot':
            a, g = self.rot_arr(f)
            p.real.set_rotation(a)
            p.frame = Frame(g.R, p.frame.t)
        else:
            a, g = self.trans_arr(f)
            p.real.set_transform(a)
            p.frame = g
        self.moves += 1
        self.log.append([k, p.kind, flat(p.frame)])
        self.d.event('set %s of %s' % (k, p.kind))

    def step(self):
        d = self.d
        all_ = [p for p, _ in self.parts()]
        k = d.choice(['move', 'move', 'move root', 'add', 'add', 'retransform', 'mutate'])
        touched_root = False
        if k == 'move':
            p = d.choice(all_)
            self.move(p)
            touched_root = p is self.root
        elif k == 'move root':
            self.move(self.root)
            touched_root = True
        elif k == 'add':
            tgt = d.choice([p for p in all_ if p.kind in ('assembly', 'object')])
            if tgt.kind == 'object':
                if d.bool(.75):
                    c = self.leaf()
                    tgt.real.add_surface(c.real)
                else:
                    c = self.bound()
                    tgt.real.add_boundary(c.real)
                tgt.kids.append(c)
            else:
                new = self.obj() if d.bool(.6) else self.asm(1)
                add = tgt.real.add_object if new.kind == 'object' else tgt.real.add_assembly
                if d.bool(.7):
                    a, f = self.trans_arr(self.frame())
                    add(new.real, a)
                else:
                    f = Frame()
                    add(new.real)
                new.frame = f
                (tgt.kids if new.kind == 'object' else tgt.sub).append(new)
                touched_root = tgt is self.root
            self.log.append(['add', tgt.kind])
        elif k == 'mutate':
            if self.pool:       # the caller reuses its own array for something else
                i = d.int(0, len(self.pool) - 1)
                a, _ = self.pool[i]
                a += 1
                if a.ndim == 2:
                    self.mutated.add(id(a))
                self.pool[i] = (a, a.copy())
                self.log.append(['caller changes its array'])
                d.event('caller changed its array')
        else:
            j = d.int(0, 4)
            if j > 2:       # a part is given the transform it stands in
                p = d.choice(all_) if j == 3 else self.root
                a, f = self.placing()
                self.place(p, a, f)
                while d.bool(.3):       # and moved, and given that very transform again
                    self.move(d.choice([x for x, _ in self.parts(p)]))
                    if d.bool(.5):
                        f = self.refill(a)
                    self.place(p, a, f)
                self.clean = False
                return
            if j == 0:
                self.root.real.transform_children()
            elif j == 1:
                self.root.real.set_transform(N.array(self.root.real.get_transform()))
            else:
                self.root.real.set_location(N.array(self.root.real.get_location()))
            touched_root = True
            self.log.append(['retransform'])
        self.reported()
        if touched_root:
            self.world()
        elif k in ('move', 'add'):
            self.clean = False

    def place(self, p, a, f):
        (p.real.transform_children if p.kind in ('object', 'assembly') else p.real.transform_frame)(a)
        self.log.append(['placed', p.kind, flat(f)])
        self.d.event('placed %s explicitly' % p.kind)
        self.reported()
        self.world(p, f)

    # ---- judging
    def reported(self):
        for p, depth in self.parts():
            T = array(p.real.get_transform(), (4, 4), 'transform of a ' + p.kind)
            close(T, N.array(flat(p.frame)), 1e-12, 'transform of a %s' % p.kind)
            close(array(p.real.get_location(), (3,), 'location of a ' + p.kind), T[:3, 3], 0., 'location of a %s' % p.kind)
            close(array(p.real.get_rotation(), (3, 3), 'rotation of a ' + p.kind), T[:3, :3], 0., 'rotation of a %s' % p.kind)
            self.depth = max(self.depth, depth)
        for a, c in self.pool:
            if not (a == c).all():
                bad('an array passed in was altered: %r became %r', c.tolist(), a.tolist())

    def world(self, top=None, stands=Frame()):
        d = self.d
        top = top or self.root
        self.clean = True
        todo = []

        def walk(p, here):
            w = here.mul(p.frame)
            for s in p.sub:
                walk(s, w)
            for k in p.kids:
                if k.kind in ('object', 'assembly'):
                    walk(k, w)
                else:
                    todo.append((k, w.mul(k.frame)))
        if top.kind in ('object', 'assembly'):
            walk(top, stands)
        else:
            todo.append((top, stands.mul(top.frame)))
        self.held(top, todo)
        self.stand(todo)

    def held(self, top, todo):
        if top.kind not in ('object', 'assembly'):
            return
        order = [id(k.real) for k, _ in todo if k.kind == 'surface']
        got = top.real.get_surfaces()
        if sorted(id(s) for s in got) != sorted(order):
            bad('get_surfaces returns %d surfaces, the assembly holds %d', len(got), len(order))
        byobj = []
        for o in [top.real] if top.kind == 'object' else top.real.get_objects():
            byobj += [id(s) for s in o.get_surfaces()]
        if [id(s) for s in got] != byobj:
            bad('get_surfaces is not in the order of get_objects')

    def stand(self, todo):
        d = self.d
        probe = [(0., 0., 0.), (1., 0., 0.), (0., 1., 0.), (0., 0., 1.)]
        for p, w in todo:
            if p.kind == 'surface':
                pts = N.array([w.apply(q) for q in probe]).T
                loc = array(p.real.global_to_local(pts.copy()), (3, 4), 'global_to_local')
                close(loc, N.array(probe).T, 1e-8, 'local coordinates of the world points where the surface should have its origin and axes')
                pick = [d.int(0, 3) for _ in range(d.int(1, 3))]
                loc = array(p.real.global_to_local(pts[:, pick].copy()), (3, len(pick)), 'global_to_local')
                close(loc, N.array(probe).T[:, pick], 1e-8, 'local coordinates of %d world points' % len(pick))
                # and it is hit there
                lx, ly = .9 * d.unif(-1., 1.), 1.4 * d.unif(-1., 1.)
                o, v = w.apply((lx, ly, 2.)), w.dir((0., 0., -1.))
                o2 = w.apply((1.1, ly, 2.))
                b = gen.bundle([(o, v), (o2, v)])
                t = array(p.real.register_incoming(b), (2,), 'parameters')
                if not (abs(t[0] - 2.) < 1e-8 and t[1] == N.inf):
                    bad('rays that hit and miss the surface where it should stand gave parameters %r', t.tolist())
                p.real.done()
            else:
                q = (d.unif(-2., 2.), d.unif(-2., 2.), d.unif(-2., 2.))
                q2 = (d.unif(-2., 2.), d.unif(-2., 2.), d.unif(-2., 2.))
                for x in (q, q2):
                    m = {'bplane': x[2], 'bcyl': 1.5 - (x[0] ** 2 + x[1] ** 2) ** .5, 'bsphere': 1.5 - ref.norm(x)}[p.kind]
                    if p.kind == 'bsphere':
                        # no orientation of its own
                        c = w.apply((0., 0., 0.))
                        pt = ref.add(c, x)
                    else:
                        pt = w.apply(x)
                    if abs(m) < 1e-7:
                        continue
                    r = N.asarray(p.real.in_bounds(N.array([pt])))
                    if r.shape != (1,) or bool(r[0]) != (m > 0):
                        bad('a %s says %r for a point whose depth inside it should be %g', p.kind, r.tolist(), m)
            d.event('placed ' + p.kind)


def history(d):
    h = History(d)
    h.root = h.asm()
    n = 0
    h.reported()
    try:
        while d.more(n, 10, 3, 30):
            h.step()
            n += 1
        h.root.real.transform_children()
        h.reported()
        h.world()
    finally:
        d.note('history', h.log)
    d.nontrivial(h.depth >= 2 and h.moves >= 3)


def two(d):
    """Two separate systems, given the same arrays."""
    hs = [History(d), History(d)]
    hs[1].pool, hs[1].mutated = hs[0].pool, hs[0].mutated
    for h in hs:
        h.root = h.asm()
    n = 0
    try:
        while d.more(n, 8, 3, 20):
            i = d.int(0, 1)
            hs[i].step()
            hs[1 - i].reported()
            if hs[1 - i].clean:
                hs[1 - i].world()
                d.event('other system still in place')
            n += 1
    finally:
        d.note('history', [h.log for h in hs])
    d.nontrivial(min(h.moves for h in hs) >= 1)


SUBS = [Sub('history', history, 2250, 100000, 'operation histories'),
        Sub('two systems', two, 750, 30000, 'histories of two systems that are handed the same arrays')]
