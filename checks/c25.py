"""C25: the ray drawing shows exactly the traced paths."""
import numpy as N
from vt import scene, ref, gen, stubs
from vt.common import Sub, array, bad

ID = 'C25'
RULE = ('show_rays on the trees of random traces (0-5 steps, all optics, some rays without energy, low-energy rays dropped, all rays or some choice of them shown) and on made-up trees, and '
        'TracerScene through histories of replacing the source and the trace limits, drawn on a stand-in scene. The drawn segments, as a '
        'multiset, are compared with those the recorded tree implies. Non-trivial: segments between rays and tails both present.')
ASSUMPTIONS = ['MayaVi, traits and tvtk are not installed: stand-ins record the points and connections handed to them', 'segments are unordered pairs of points, to 1e-9']


def expected(levels, esc, show=None):
    out = []
    for k, lev in enumerate(levels):
        nxt = levels[k + 1] if k + 1 < len(levels) else []
        kids = scene.by_parent(nxt, len(lev)) if nxt else [[] for _ in lev]
        for i, r in enumerate(lev):
            if show is not None and not show(r):
                continue
            for j in kids[i]:
                out.append(('segment', r.o, nxt[j].o))
            if not kids[i] and r.e != 0:
                out.append(('tail', r.o, ref.along(r.o, r.d, esc)))
    return out


def drawn(lines):
    """Segments of the lines objects on the scene."""
    out = []
    for l in lines:
        P = array(l.points, (3, None), 'points').T.tolist()
        C = l.mlab_source.dataset.lines
        if C is None:
            continue
        C = array(C, (None, None), 'connections')
        for row in C.tolist():
            if len(row) < 2:
                bad('a connection of %d points', len(row))
            for a, b in zip(row[:-1], row[1:]):
                if a != int(a) or b != int(b) or not 0 <= a < len(P) or not 0 <= b < len(P):
                    bad('a connection of points %r and %r, of %d', a, b, len(P))
                out.append((P[int(a)], P[int(b)]))
    return out


def compare(exp, got, what):
    tol = 1e-9
    left = list(got)
    idx = {}
    for n, (a, b) in enumerate(left):
        for p in (a, b):
            idx.setdefault(tuple(round(x, 5) for x in p), []).append(n)
    used = [False] * len(left)

    def near(p, q):
        return ref.dist(p, q) <= tol * max(1., ref.norm(p))
    for kind, a, b in exp:
        cand = idx.get(tuple(round(x, 5) for x in a), [])
        hit = None
        for n in list(cand) + list(range(len(left))):
            if used[n]:
                continue
            p, q = left[n]
            if (near(a, p) and near(b, q)) or (near(a, q) and near(b, p)):
                hit = n
                break
        if hit is None:
            bad('%s: the %s from %r to %r is not drawn', what, kind, a, b)
        used[hit] = True
    for n, u in enumerate(used):
        if not u:
            bad('%s: a line from %r to %r is drawn, which is no path (%d lines, %d expected)', what, left[n][0], left[n][1], len(left), len(exp))


def judge(d, levels, esc, lines, what, show=None):
    exp = expected(levels, esc, show)
    compare(exp, drawn(lines), what)
    kinds = set(x[0] for x in exp)
    d.event('lines', len(exp))
    d.nontrivial(len(kinds) == 2)


def selector(d):
    """Some choice of rays to show: (for a bundle, for a Ray), or two Nones."""
    k = d.weighted([(3, None), (1, 'energy'), (1, 'up'), (1, 'index')])
    if k is None:
        return None, None
    d.event('selector ' + k)
    d.note('selector', k)
    if k == 'energy':
        x = d.choice([0., .1, .6, 2.])
        return (lambda b: b.get_energy() >= x), (lambda r: r.e >= x)
    if k == 'index':
        return (lambda b: b.get_ref_index() == 1.), (lambda r: r.n == 1.)
    return (lambda b: b.get_directions()[2] > 0), (lambda r: r.d[2] > 0)


def draw(sc, tree, esc, sel):
    from tracer.mayavi_ui.scene_view import show_rays
    if sel is None:
        show_rays(sc, tree, esc)
    else:
        show_rays(sc, tree, esc, sel)


def traced(d):
    stubs.install()
    g = scene.Gen(d, max_surfs=6)
    spec = g.scene()
    surfs = spec.surfaces()
    rays = scene.gen_rays(d, surfs, g.glass, 8, 30, sc=g.sc)
    reps = d.int(0, 5)
    me = d.choice([0., 1e-3, .5])
    esc = d.pos_real(.1, 20.)
    d.note('scene', spec.describe())
    d.note('rays', scene.describe_rays(rays))
    d.note('reps, min_energy, escaping', [reps, me, esc])
    N.random.seed(d.seed())
    e, v, dd = scene.trace(scene.build(spec, d), scene.to_bundle(rays), reps, me)
    sc = stubs.Scene()
    sel, show = selector(d)
    draw(sc, e.tree, esc, sel)
    judge(d, scene.read_tree(e.tree), esc, sc.lines, 'trace', show)


def made(d):
    """Trees put together by hand: any genealogy."""
    stubs.install()
    from tracer.trace_tree import RayTree
    from tracer.ray_bundle import RayBundle
    t = RayTree()
    prev = None
    recs = []
    for k in range(d.int(1, 5) if d.bool(.93) else d.int(6, 40)):
        rows = []
        while d.more(len(rows), 4, 1, 12):
            rows.append((gen.point(d), gen.unit_vec(d), d.choice([1., 0., .2]), d.int(0, prev - 1) if prev else 0))
        b = RayBundle(vertices=N.array([r[0] for r in rows]).T, directions=N.array([r[1] for r in rows]).T,
                      energy=N.array([r[2] for r in rows]), ref_index=N.ones(len(rows)))
        if prev:
            b.set_parents(N.array([r[3] for r in rows], dtype=int))
        t.append(b)
        recs.append([scene.Ray(r[0], r[1], r[2], 1., r[3]) for r in rows])
        prev = len(rows)
    esc = d.pos_real(.1, 20.)
    d.note('tree', [[(r.o, r.d, r.e, r.parent) for r in lev] for lev in recs])
    d.note('escaping', esc)
    sc = stubs.Scene()
    sel, show = selector(d)
    draw(sc, t, esc, sel)
    judge(d, recs, esc, sc.lines, 'tree', show)


MESHED = ['rect', 'round', 'tri', 'sphere', 'hemi', 'dish', 'fincyl']


def scenes(d):
    stubs.install()
    from tracer.mayavi_ui.scene_view import TracerScene
    from tracer.tracer_engine import TracerEngine
    g = scene.Gen(d, shapes=['rect', 'round', 'hemi', 'fincyl'], optics=scene.DETERMINISTIC, max_surfs=4)
    spec = g.scene()
    surfs = spec.surfaces()
    asm = scene.build(spec, d)
    esc = d.pos_real(.1, 5.)
    rays = scene.gen_rays(d, surfs, g.glass, 6, 15, sc=g.sc)
    d.note('scene', spec.describe())
    log = [scene.describe_rays(rays)]
    # Not with a source at once: the default limit is 2e8 iterations, a lifetime between perfect mirrors.
    stubs.Scene.made = []
    sel, show = selector(d)
    t = TracerScene(asm, None, esc) if sel is None else TracerScene(asm, None, esc, sel)
    if len(stubs.Scene.made) != 1:
        bad('a TracerScene uses %d scenes', len(stubs.Scene.made))
    view = stubs.Scene.made[0]
    if drawn(view.lines):
        bad('lines are drawn with no source')
    me, reps = d.choice([0., .05, .4]), d.int(0, 5)
    t.set_trace_control(max_iter=reps, min_energy=me)
    t.set_source(scene.to_bundle(rays))
    log.append([reps, me])

    def lines():
        e = TracerEngine(asm)
        e.ray_tracer(scene.to_bundle(rays), reps, me)
        return scene.read_tree(e.tree)
    ops = 0
    state = 'drawn'
    judge(d, lines(), esc, view.lines, 'scene', show)
    while d.more(ops, 2.5, 1, 6):
        ops += 1
        k = d.weighted([(3, 'source'), (3, 'limits'), (2, 'replot'), (1, 'background'), (1, 'no source'), (1, 'clear'), (2, 'replace')])
        if k == 'source':
            rays = scene.gen_rays(d, surfs, g.glass, 6, 15, sc=g.sc)
            t.set_source(scene.to_bundle(rays))
            log.append([k, scene.describe_rays(rays)])
            state = 'drawn'
        elif k == 'limits':
            reps, me = d.int(0, 4), d.choice([0., .05, .4])
            if d.bool():
                t.set_trace_control(max_iter=reps, min_energy=me)
            else:
                t.set_trace_control(min_energy=me)
                t.set_trace_control(max_iter=reps)
            if tuple(t.trace_control()) != (reps, me):
                bad('trace control is %r, was set to %r', t.trace_control(), (reps, me))
            t.plot_ray_trace()
            log.append([k, reps, me])
            state = 'drawn' if rays else 'none'
        elif k == 'replot':
            t.plot_ray_trace()
            log.append([k])
            state = 'drawn' if rays else 'none'
        elif k == 'no source':
            rays = None
            t.set_source(None)
            log.append([k])
            state = 'none'
        elif k == 'clear':
            t.clear_scene()
            log.append([k])
            state = 'none'
        elif k == 'replace':
            spec = g.again()
            surfs = spec.surfaces()
            asm = scene.build(spec, d)
            t.set_assembly(asm)
            t.plot_ray_trace()
            log.append([k, spec.describe()])
            state = 'drawn' if rays else 'none'
        else:
            t.set_background((1., 1., 1.))
            log.append([k])
        if state == 'none':
            d.note('history', log)
            if drawn(view.lines):
                bad('scene after %s: %d lines are drawn, there are no rays to show', k, len(drawn(view.lines)))
            continue
        d.note('history', log)
        judge(d, lines(), esc, view.lines, 'scene after ' + k, show)


SUBS = [
    Sub('traced', traced, 2700, 20000, 'drawings of real traces'),
    Sub('made', made, 2700, 20000, 'drawings of made-up trees'),
    Sub('scenes', scenes, 900, 6000, 'TracerScene histories'),
]
