"""C05: rays are traced independently, repeatably and without side effects."""
import numpy as N
from vt import scene, ref, gen, compare
from vt.common import Sub, array, bad, close

ID = 'C05'
RULE = ('A random scene of deterministic optics and a bundle of 2-30 rays is traced; then the same rays permuted, split, duplicated, '
        'merged with other rays (some starting on or just off surfaces), traced again by the same and by a new engine with other traces '
        'in between, and for fewer steps. The subtree of each source ray must be the same each time; source arrays, frames and earlier '
        'trees must be unaltered. Non-trivial: at least two rays of the bundle hit something, and one has a second generation.')
ASSUMPTIONS = ['rays whose next interaction is within rounding of a tie, edge or tangent are compared only up to there (counted)']


def snapshot(b):
    return [N.array(x, copy=True) for x in (b.get_vertices(), b.get_directions(), b.get_energy(), b.get_ref_index())]


def has_parents(b):
    try:
        return b.get_parents() is not None
    except (AttributeError, KeyError):
        return False


def frames(asm):
    out = []

    def part(p):
        out.append([N.array(p.get_transform(), copy=True), N.array(p.get_location(), copy=True), N.array(p.get_rotation(), copy=True)])

    def walk(a):
        part(a)
        for o in a.get_local_objects():
            part(o)
            for s in o.get_surfaces():
                part(s)
        for s in a.get_assemblies():
            walk(s)
    walk(asm)
    return out


def equal(a, b):
    return a.shape == b.shape and bool(((a == b) | ((a != a) & (b != b))).all())


def setup(d, optics=scene.DETERMINISTIC, crowd=False, deep=False, **kw):
    if deep:
        g = scene.Gen(d)
        spec, surfs, rays = scene.facing_plates(d)
        reps = d.int(10, 40)
        d.note('scene', spec.describe())
        d.note('rays', scene.describe_rays(rays))
        d.note('reps', reps)
        return g, spec, surfs, rays, d.choice([0., .7]), reps
    g = scene.Gen(d, optics=optics, **kw)
    spec = g.scene()
    surfs = spec.surfaces()
    if crowd:
        rays = scene.many_rays(d, surfs, g.glass, 150, 1200)
    else:
        rays = scene.gen_rays(d, surfs, g.glass, 8, 25, sc=g.sc)
    me = d.weighted([(2, 0.), (2, 1e-6), (2, .05)])
    reps = d.int(1, 5)
    d.note('scene', spec.describe())
    if not crowd:
        d.note('rays', scene.describe_rays(rays))
    d.note('reps', reps)
    d.note('min_energy', me)
    return g, spec, surfs, rays, me, reps


def independence(d, **kw):
    g, spec, surfs, rays, me, reps = setup(d, **kw)
    n = len(rays)
    asm = scene.build(spec, d)
    bund = scene.to_bundle(rays)
    before = snapshot(bund)
    par = has_parents(bund)
    fr = frames(asm)
    eng, v, dd = scene.trace(asm, bund, reps, me)
    base = scene.read_tree(eng.tree)
    kb = compare.kids_of(base)
    hits = [r for r in base[0] if kb[id(r)]]
    d.nontrivial(len(hits) > 1 and len(base) > 2)

    def variant(order, extra_front, extra_back, what):
        rr = extra_front + [rays[i] for i in order] + extra_back
        e2, v2, d2 = scene.trace(asm, scene.to_bundle(rr), reps, me)
        lv = scene.read_tree(e2.tree)
        k2 = compare.kids_of(lv)
        if len(lv[0]) != len(rr):
            bad('%s: the recorded source has %d rays instead of %d', what, len(lv[0]), len(rr))
        for pos, i in enumerate(order):
            compare.same(d, surfs, base[0][i], kb, lv[0][len(extra_front) + pos], k2, what, me)
        d.event(what)

    for _ in range(2):
        k = d.choice(['permuted', 'subset', 'duplicated', 'merged', 'single'])
        if k == 'permuted':
            order = list(range(n))
            for i in range(n - 1, 0, -1):
                j = d.int(0, i)
                order[i], order[j] = order[j], order[i]
            variant(order, [], [], k)
        elif k == 'subset':
            order = [i for i in range(n) if d.bool()]
            if order:
                variant(order, [], [], k)
        elif k == 'single':
            variant([d.int(0, n - 1)], [], [], k)
        elif k == 'duplicated':
            variant([i for i in range(n) for _ in range(d.int(1, 3))], [], [], k)
        else:
            extra = scene.gen_rays(d, surfs, g.glass, 5, 15, sc=g.sc)
            # one starts exactly on a surface
            s = d.choice(surfs)
            p = s.frame.apply(s.shape.sample(d))
            extra.append(scene.Ray(p, gen.unit_vec(d), 1., 1.))
            if d.bool():
                variant(list(range(n)), extra, [], k)
            else:
                variant(list(range(n)), [], extra, k)
    after = snapshot(bund)
    for a, b, w in zip(before, after, ('vertices', 'directions', 'energies', 'indices')):
        if not equal(a, b):
            bad('tracing altered the source bundle\'s %s', w)
    if has_parents(bund) != par:
        bad('tracing gave the source bundle parents')
    for a, b in zip(fr, frames(asm)):
        for x, y in zip(a, b):
            if not equal(x, y):
                bad('tracing altered a frame of the assembly: %r became %r', x.tolist(), y.tolist())


def history(d, **kw):
    g, spec, surfs, rays, me, reps = setup(d, **kw)
    asm = scene.build(spec, d)
    from tracer.tracer_engine import TracerEngine
    eng = TracerEngine(asm)
    bund = scene.to_bundle(rays)
    before = snapshot(bund)
    fr = frames(asm)
    v, dd = eng.ray_tracer(bund, reps, me)
    tree = eng.tree
    base = scene.read_tree(tree)
    snaps = [snapshot(tree[k]) + [N.array(tree[k].get_parents(), copy=True) if k else N.zeros(0)] for k in range(len(base))]
    vs, ds = N.array(v, copy=True), N.array(dd, copy=True)
    kb = compare.kids_of(base)
    d.nontrivial(len(base) > 2)
    steps = 0
    while d.more(steps, 3, 1, 6):
        steps += 1
        k = d.choice(['again', 'new engine', 'other', 'fewer steps', 'no tree', 'more steps', 'other threshold'])
        d.event(k)
        e2 = eng if k != 'new engine' else TracerEngine(asm)
        if k == 'other':
            other = scene.gen_rays(d, surfs, g.glass, 4, 12, sc=g.sc)
            e2.ray_tracer(scene.to_bundle(other), d.int(0, 4), d.choice([0., .1]))
            continue
        if k == 'other threshold':
            e2.ray_tracer(bund, reps, d.choice([0., .3]))
            continue
        r2 = reps
        if k == 'fewer steps':
            r2 = d.int(0, reps)
        if k == 'more steps':
            r2 = reps + d.int(1, 2) * (1 + reps // 8)
        if k == 'no tree':
            v2, d2 = e2.ray_tracer(bund, reps, me, tree=False)
        else:
            v2, d2 = e2.ray_tracer(bund, r2, me)
            lv = scene.read_tree(e2.tree)
            short, long_ = (lv, base) if r2 <= reps else (base, lv)
            m = min(r2, reps) + 1
            cut = long_[:m]
            ks, kc = compare.kids_of(short), compare.kids_of(cut)
            for a, b in zip(short[0], cut[0]):
                compare.same(d, surfs, a, ks, b, kc, k, me)
        if r2 == reps:
            a = array(v2, (3, None), 'returned vertices')
            if a.shape == vs.shape and abs(a - vs).max(initial=0.) <= 1e-9 * max(1., abs(vs).max(initial=0.)):
                close(array(d2, ds.shape, 'returned directions'), ds, 1e-7, k + ': returned directions')
            else:
                d.event('returned rays differ: judged by the tree')
                if k == 'no tree':
                    bad('%s: other rays are returned than before', k)
    for k in range(len(base)):
        now = snapshot(tree[k]) + [N.array(tree[k].get_parents(), copy=True) if k else N.zeros(0)]
        for a, b in zip(snaps[k], now):
            if not equal(a, b):
                bad('later traces altered generation %d of an earlier tree', k)
    for a, b in zip(before, snapshot(bund)):
        if not equal(a, b):
            bad('tracing altered the source bundle')
    for a, b in zip(fr, frames(asm)):
        for x, y in zip(a, b):
            if not equal(x, y):
                bad('tracing altered a frame of the assembly: %r became %r', x.tolist(), y.tolist())


def continued(d):
    """A generation of a trace taken as the source of another one goes on as the first did."""
    g, spec, surfs, rays, me, reps = setup(d, cull=False)
    asm = scene.build(spec, d)
    eng, v, dd = scene.trace(asm, scene.to_bundle(rays), reps + 1, me)
    base = scene.read_tree(eng.tree)
    if len(base) < 2:
        return
    k = d.int(1, len(base) - 1)
    src = eng.tree[k]
    before = snapshot(src) + [N.array(src.get_parents(), copy=True)]
    e2, v2, d2 = scene.trace(asm, src, max(reps + 1 - k, 0), me)
    lv = scene.read_tree(e2.tree)
    if len(lv[0]) != len(base[k]):
        bad('%d rays are recorded as the source, which has %d', len(lv[0]), len(base[k]))
    kb, k2 = compare.kids_of(base), compare.kids_of(lv)
    for a, b in zip(base[k], lv[0]):
        if a.e > me:        # sources are traced whatever their energy
            compare.same(d, surfs, a, kb, b, k2, 'continued from generation %d' % k, me)
    for a, b in zip(before, snapshot(src) + [N.array(src.get_parents(), copy=True)]):
        if not equal(a, b):
            bad('tracing altered its source, generation %d of another trace', k)
    d.nontrivial(len(base) > 2)


def layout(d):
    """The same numbers held in other kinds of arrays."""
    from tracer.ray_bundle import RayBundle
    g = scene.Gen(d, optics=scene.DETERMINISTIC)
    spec = g.scene()
    surfs = spec.surfaces()
    rays = []
    whole = d.bool(.4)
    while d.more(len(rays), 7, 1, 20):
        o, v, k = gen.ray_at(d, d.choice(surfs), 7.)
        e = d.choice([1., 2., 5.])
        if whole:           # integers
            o, v = tuple(float(round(x)) for x in o), gen.unit_vec(d, 1.)
        rays.append(scene.Ray(o, v, e, 1.))
    reps, me = d.int(1, 4), d.choice([0., .05])
    d.note('scene', spec.describe())
    d.note('rays', scene.describe_rays(rays))
    asm = scene.build(spec, d)
    n = len(rays)
    src = scene.to_bundle(rays)
    eng, v, dd = scene.trace(asm, src, reps, me)
    base = scene.read_tree(eng.tree)
    kb = compare.kids_of(base)
    d.nontrivial(len(base) > 2)
    k = d.choice(['strided', 'fortran', 'read only', 'shared'] + (['integers'] * 3 if whole else []))
    arrs = [N.array(x) for x in snapshot(src)]
    if k == 'integers':
        arrs = [x.astype(int) for x in arrs]
    elif k == 'strided':
        arrs = [N.repeat(x, 2, axis=-1)[..., ::2] for x in arrs]
    elif k == 'fortran':
        arrs = [N.asfortranarray(x) for x in arrs]
    keep = [x.copy() for x in arrs]
    if k == 'read only':
        for x in arrs:
            x.flags.writeable = False
    if k == 'shared':       # bundles sharing their arrays
        RayBundle(vertices=arrs[0], directions=arrs[1], energy=arrs[2], ref_index=arrs[3])
        arrs[3] = arrs[2] * 0 + 1.
        keep[3] = arrs[3].copy()
    d.event(k)
    b = RayBundle(vertices=arrs[0], directions=arrs[1], energy=arrs[2], ref_index=arrs[3])
    e2, v2, d2 = scene.trace(asm, b, reps, me)
    lv = scene.read_tree(e2.tree)
    k2 = compare.kids_of(lv)
    for x, y in zip(base[0], lv[0]):
        compare.same(d, surfs, x, kb, y, k2, k, me)
    for x, y in zip(arrs, keep):
        if not equal(x, y):
            bad('tracing altered the %s arrays of the source', k)


def repeat_random(d):
    """Diffuse surfaces: no side effects, and the same random stream gives the same trace."""
    g, spec, surfs, rays, me, reps = setup(d, optics=scene.ALL_OPTICS)
    asm = scene.build(spec, d)
    bund = scene.to_bundle(rays)
    before = snapshot(bund)
    fr = frames(asm)
    seed = d.seed()
    N.random.seed(seed)
    e1, v, dd = scene.trace(asm, bund, reps, me)
    a = scene.read_tree(e1.tree)
    N.random.seed(seed)
    e2, v, dd = scene.trace(asm, bund, reps, me)
    b = scene.read_tree(e2.tree)
    d.nontrivial(len(a) > 2)
    if [len(x) for x in a] != [len(x) for x in b]:
        bad('a second trace with the same random stream has generations of %r rays instead of %r', [len(x) for x in b],
            [len(x) for x in a])
    ka, kb = compare.kids_of(a), compare.kids_of(b)
    for x, y in zip(a[0], b[0]):
        compare.same(d, surfs, x, ka, y, kb, 'same random stream', me)
    for x, y in zip(before, snapshot(bund)):
        if not equal(x, y):
            bad('tracing altered the source bundle')
    for p, q in zip(fr, frames(asm)):
        for x, y in zip(p, q):
            if not equal(x, y):
                bad('tracing altered a frame of the assembly')


def near_start(d):
    """A ray starting just off a surface, with and without a ray starting on a surface beside it."""
    off = 10 ** d.unif(-10.5, -5.)
    f = gen.frame(d, 3.)
    surf = scene.SurfSpec(ref.Rect(4., 4.), scene.Optic('mirror', 0.), ref.Frame())
    spec = scene.AsmSpec([scene.ObjSpec([surf], f)], [], ref.Frame())
    surfs = spec.surfaces()
    dirv = ref.unit((d.unif(-1., 1.), d.unif(-1., 1.), -1.))
    a = scene.Ray(f.apply((d.unif(-1., 1.), d.unif(-1., 1.), off)), f.dir(dirv), 1., 1.)
    b = scene.Ray(f.apply((d.unif(-1., 1.), d.unif(-1., 1.), 0.)), f.dir(dirv), 1., 1.)
    d.note('frame', f.rows4())
    d.note('rays', scene.describe_rays([a, b]))
    asm = scene.build(spec, d)
    res = []
    for rr in ([a], [a, b], [b, a]):
        e, v, dd = scene.trace(asm, scene.to_bundle(rr), 1, 0.)
        lv = scene.read_tree(e.tree)
        i = rr.index(a)
        res.append(len(lv) > 1 and any(c.parent == i for c in lv[1]))
    d.event('hit' if res[0] else 'ignored')
    d.nontrivial(1e-9 < off < 1e-6)
    t = -off / dirv[2]
    if len(set(res)) > 1 and abs(t - 1e-6) > 1e-9:
        bad('a ray starting %g before a plane %s it alone, but %s it together with another ray', off,
            'hits' if res[0] else 'passes', 'hits' if not res[0] else 'passes')


SUBS = [
    Sub('independence', independence, 1050, 30000, 'permuted, split, duplicated, merged bundles'),
    Sub('crowd', lambda d: independence(d, crowd=True, max_surfs=5), 21, 400, 'the same for hundreds of rays'),
    Sub('continued', continued, 280, 6000, 'a generation of a trace as the source of another'),
    Sub('layout', layout, 420, 8000, 'integers, strided, Fortran-ordered, read-only and shared source arrays'),
    Sub('history', history, 700, 20000, 'repeated traces in between others, fewer and more steps'),
    Sub('deep', lambda d: (history if d.bool() else independence)(d, deep=True), 56, 1200, 'traces of 10 to 40 steps'),
    Sub('random stream', repeat_random, 420, 8000, 'scenes with diffuse surfaces'),
    Sub('near start', near_start, 210, 2000, 'rays starting 1e-10 to 1e-5 before a surface'),
]
