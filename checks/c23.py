"""C23: culling promises of optical objects are honoured, exactly and only for one step."""
import numpy as N
from vt import scene, ref, gen
from vt.common import Sub, array, bad
from vt.scene import Hit

ID = 'C23'
RULE = ('Random scenes whose objects declare, from random tables by surface and by a property of the ray, which outgoing rays they own and which of their '
        'surfaces the ray skips next; traced for 2-6 steps. Every step of every recorded ray is compared with the nearest crossing '
        'among exactly the surfaces the declarations at its last surface leave. Non-trivial: a step whose answer differs from that without '
        'declarations.')
ASSUMPTIONS = ['rays starting where surfaces meet, ties, aperture edges and grazing starts are not judged']
TAGS = 4


def make(table):
    from tracer.object import AssembledObject

    class Declaring(AssembledObject):
        def own_rays(self, rays, surface_id):
            t = N.array(rays.get_tag(), dtype=int).reshape(-1)
            return N.array([table['own'][surface_id][x] for x in t.tolist()], dtype=bool).reshape(-1)

        def surfaces_for_next_iteration(self, rays, surface_id):
            t = N.array(rays.get_tag(), dtype=int).reshape(-1)
            n = len(self.get_surfaces())
            return N.array([[table['rel'][surface_id][j][x] for x in t.tolist()] for j in range(n)], dtype=bool).reshape(n, len(t))
    return Declaring


def stack(d):
    """Many parallel mirrors in a few objects, and rays between the middle ones."""
    n = d.int(6, 14)
    z, zs = 0., []
    for i in range(n):
        z += d.unif(.3, 2.)
        zs.append(z)
    k = d.int(1, 4)
    groups = [[] for _ in range(k)]
    for z in zs:
        groups[d.int(0, k - 1)].append(scene.SurfSpec(ref.Rect(60., 60.), scene.Optic('mirror', 0.), ref.Frame(t=(0., 0., z))))
    top = gen.frame(d, 3.)
    spec = scene.AsmSpec([scene.ObjSpec(g, ref.Frame()) for g in groups if g], [], top)
    rays = []
    while d.more(len(rays), 4, 1, 8):
        i = d.int(n // 3, 2 * n // 3)
        v = ref.unit((d.unif(-.2, .2), d.unif(-.2, .2), d.choice([1., -1.])))
        rays.append(scene.Ray(top.apply((d.unif(-3., 3.), d.unif(-3., 3.), zs[i] + .1)), top.dir(v), 1., 1.))
    return spec, rays


def case(d, **kw):
    g = scene.Gen(d, optics=['mirror', 'mirror', 'refract', 'lambert', 'onesided'], max_surfs=kw.get('max', 8), avg=kw.get('avg', 5),
                  shapes=['sphere', 'hemi', 'cyl', 'rect', 'plane', 'parab', 'dish', 'cutsphere', 'fincyl', 'round'])
    if kw.get('deep'):
        spec, rays = stack(d)
    else:
        spec = g.scene()
    surfs = spec.surfaces()
    objs = []
    for s in surfs:
        if not any(o is s.obj for o in objs):
            objs.append(s.obj)
    mode = d.choice(['own', 'skip', 'both', 'both'])
    tables = {}
    often = .12 if kw.get('deep') else .4
    for o in objs:
        n = len(o.surfs)
        if d.bool(.2) or o.kind != 'plain':
            continue
        own = [[mode != 'skip' and d.bool(often) for t in range(TAGS)] for i in range(n)]
        rel = [[[mode == 'own' or not d.bool(often) for t in range(TAGS)] for j in range(n)] for i in range(n)]
        tables[o] = {'own': own, 'rel': rel}
    if not kw.get('deep'):
        rays = scene.gen_rays(d, surfs, g.glass, 14, 50, sc=g.sc)
    tags = [d.int(0, TAGS - 1) for _ in rays]
    reps = d.int(10, 40) if kw.get('deep') else d.int(2, 6)
    me = d.choice([0., 1e-3])
    d.note('scene', spec.describe())
    d.note('declarations', [tables.get(o) for o in objs])
    d.note('rays', scene.describe_rays(rays))
    d.note('tags', tags)
    d.note('reps', reps)
    N.random.seed(d.seed())
    from tracer.object import AssembledObject
    asm = scene.build(spec, d, objcls=lambda o: make(tables[o]) if o in tables else AssembledObject)
    e, v, dd = scene.trace(asm, scene.to_bundle(rays, tag=N.array(tags, dtype=float)), reps, me)
    levels = scene.read_tree(e.tree)
    index = {}
    for o in objs:
        for j, s in enumerate(x for x in surfs if x.obj is o):
            index[s] = j
    everything = [True] * len(surfs)
    mask = [everything] * len(levels[0])
    tag = list(tags)
    for k, lev in enumerate(levels):
        if k >= reps:
            break
        nxt = levels[k + 1] if k + 1 < len(levels) else []
        kids = scene.by_parent(nxt, len(lev))
        nmask, ntag = [None] * len(nxt), [None] * len(nxt)
        for i, r in enumerate(lev):
            for j in kids[i]:
                ntag[j] = tag[i]
                w = scene.where_from(surfs, nxt[j].o)
                if w is not None:
                    s = surfs[w]
                    o = s.obj
                    if o.kind == 'mirror1s':
                        nmask[j] = [x.obj is not o for x in surfs]
                    elif o not in tables:
                        nmask[j] = everything
                    else:
                        t = tables[o]
                        own = t['own'][index[s]][tag[i]]
                        nmask[j] = [(t['rel'][index[s]][index[x]][tag[i]] if x.obj is o else not own) for x in surfs]
            if k and not r.e > me:
                continue
            if mask[i] is None:
                d.event('start not located')
                continue
            exp = scene.first_hit(surfs, r.o, r.d, mask[i])
            if exp == 'undecided':
                d.event('undecided')
                continue
            if not all(mask[i]):
                free = scene.first_hit(surfs, r.o, r.d)
                if free != 'undecided':
                    a = exp.idx if exp else None
                    b = free.idx if free else None
                    if a != b:
                        d.event('culling changes the hit')
                        d.nontrivial()
            elif k:
                d.event('no declaration, later step')
            where = 'step %d: ray %d (tag %d) from %r along %r, to be tested against surfaces %r,' % (
                k, i, tag[i], r.o, r.d, [j for j in range(len(surfs)) if mask[i][j]])
            if exp is None:
                if kids[i]:
                    bad('%s should escape, but was intercepted at %r', where, nxt[kids[i][0]].o)
                continue
            if not kids[i]:
                bad('%s should hit surface %d (%s) at %r, but has no descendants', where, exp.idx, exp.surf.shape.kind, exp.p)
            for j in kids[i]:
                if not ref.dist(nxt[j].o, exp.p) <= scene.point_tol(exp, r.o):
                    bad('%s should hit surface %d (%s) at %r, was intercepted at %r', where, exp.idx, exp.surf.shape.kind, exp.p, nxt[j].o)
        mask, tag = nmask, ntag


SUBS = [
    Sub('declarations', case, 4080, 50000, 'random declarations'),
    Sub('deep', lambda d: case(d, deep=True), 200, 6000, '10 to 40 steps'),
    Sub('many', lambda d: case(d, max=30, avg=28), 140, 2500, 'up to 30 surfaces in many objects'),
]
