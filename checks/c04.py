"""C04: moving the whole system and its light rigidly only moves the result."""
import math
import numpy as N
from vt import scene, ref, gen, compare
from vt.ref import Frame
from vt.common import Sub, array, bad

ID = 'C04'
RULE = ('A random scene of deterministic optics and a bundle of rays are traced as they are, and again rotated and translated by a random '
        'rigid motion, applied in one of seven ways (on the top assembly before or after building, after a previous trace, by location '
        'and rotation separately in either order, by nesting it in further assemblies, on its children, on the surfaces themselves). '
        'The second trace moved back must agree with the first ray by ray; or the same built assembly is traced and moved in place, in turn, up to four times. Non-trivial: at least one ray has a second generation and '
        'the motion is a proper rotation with a translation.')
ASSUMPTIONS = ['rays whose next interaction is within rounding of a tie, edge, tangent or critical angle are compared only up to there '
               '(counted)']


def moved(spec, M, how, d):
    """A built assembly standing at M times the place that spec says."""
    from tracer.assembly import Assembly
    F = M.mul(spec.frame)
    if how == 'root':
        return scene.build(scene.AsmSpec(spec.objs, spec.subs, F), d)
    if how in ('after', 'retrace'):
        asm = scene.build(spec, d)
        if how == 'retrace':
            rr = scene.gen_rays(d, spec.surfaces(), 1.5, 4, 8)
            scene.trace(asm, scene.to_bundle(rr), 2, 0.)
        k = d.int(0, 2)
        if k == 0:
            asm.set_transform(gen.np_trans(F))
        elif k == 1:
            asm.set_location(gen.np_loc(F))
            asm.set_rotation(gen.np_rot(F))
        else:
            asm.set_rotation(gen.np_rot(F))
            asm.set_location(gen.np_loc(F))
        return asm
    if how == 'nest':
        asm = scene.build(spec, d)
        k = d.int(0, 2)
        if k == 0:
            return Assembly(subassemblies=[asm], location=gen.np_loc(M), rotation=gen.np_rot(M))
        if k == 1:
            top = Assembly()
            top.add_assembly(asm, gen.np_trans(F))
            return top
        top = Assembly(subassemblies=[asm])
        top.set_transform(gen.np_trans(M))
        return top
    if how == 'split':      # M = M1 M2 over two assemblies
        m1 = gen.frame(d, 3., 0.)
        m2 = m1.inverse().mul(M)
        inner = scene.AsmSpec([], [spec], m2)
        return scene.build(scene.AsmSpec([], [inner], m1), d)
    if how == 'children':
        return scene.build(scene.AsmSpec([scene.ObjSpec(o.surfs, F.mul(o.frame), o.kind) for o in spec.objs],
                                         [scene.AsmSpec(s.objs, s.subs, F.mul(s.frame)) for s in spec.subs], Frame()), d)
    # on the surfaces: one flat object per original object, everything at the surface frames
    objs = []

    def walk(a, here):
        here = here.mul(a.frame)
        for s in a.subs:
            walk(s, here)
        for o in a.objs:
            of = here.mul(o.frame)
            if o.kind != 'plain':
                objs.append(scene.ObjSpec(o.surfs, of, o.kind))
            else:
                objs.append(scene.ObjSpec([scene.SurfSpec(s.shape, s.optics, of.mul(s.frame)) for s in o.surfs], Frame()))
    walk(spec, M)
    return scene.build(scene.AsmSpec(objs, [], Frame()), d)


def case(d, **kw):
    g = scene.Gen(d, optics=scene.DETERMINISTIC, **kw)
    spec = g.scene()
    surfs = spec.surfaces()
    rays = scene.gen_rays(d, surfs, g.glass, 9, 30, sc=g.sc)
    me = d.weighted([(2, 0.), (2, 1e-6), (2, .05)])
    reps = d.int(1, 5)
    M = gen.frame(d, 8., 0.)
    how = d.choice(['root', 'after', 'nest', 'split', 'children', 'retrace', 'surfaces'])
    d.note('scene', spec.describe())
    d.note('rays', scene.describe_rays(rays))
    d.note('reps', reps)
    d.note('min_energy', me)
    d.note('motion', M.rows4())
    d.note('applied', how)
    d.event(how)
    a = scene.build(spec, d)
    ea, va, da = scene.trace(a, scene.to_bundle(rays), reps, me)
    A = scene.read_tree(ea.tree)
    b = moved(spec, M, how, d)
    mr = [scene.Ray(M.apply(r.o), M.dir(r.d), r.e, r.n) for r in rays]
    eb, vb, db = scene.trace(b, scene.to_bundle(mr), reps, me)
    B = scene.read_tree(eb.tree)
    for lev in B:
        for r in lev:
            if all(abs(x) < 1e9 for x in r.o):
                r.o, r.d = M.inv(r.o), M.invdir(r.d)
    ka, kb = compare.kids_of(A), compare.kids_of(B)
    n = 0
    for x, y in zip(A[0], B[0]):
        n += compare.same(d, surfs, x, ka, y, kb, 'moved', me)
    d.event('nodes compared', n)
    d.nontrivial(len(A) > 2 and ref.norm(M.t) > 0 and M.R != Frame().R)


def walkabout(d):
    """The same built assembly traced, moved, traced, moved ... : each time as at first."""
    g = scene.Gen(d, optics=scene.DETERMINISTIC, max_surfs=d.choice([1, 3, 6]))
    spec = g.scene()
    surfs = spec.surfaces()
    rays = scene.gen_rays(d, surfs, g.glass, 9, 30, sc=g.sc)
    me = d.weighted([(2, 0.), (2, 1e-6), (2, .05)])
    reps = d.int(1, 4)
    d.note('scene', spec.describe())
    d.note('rays', scene.describe_rays(rays))
    d.note('reps', reps)
    d.note('min_energy', me)
    asm = scene.build(spec, d)
    from tracer.tracer_engine import TracerEngine
    eng = TracerEngine(asm)
    F = spec.frame
    base = None
    moves = 0
    for step in range(d.int(2, 5)):
        if step:
            k = d.choice(['turn', 'turn', 'shift', 'any', 'stay', 'home'])
            old = F
            if k == 'turn':
                F = Frame(gen.rotation(d), F.t)
            elif k == 'shift':
                F = Frame(F.R, gen.point(d, 8.))
            elif k == 'any':
                F = gen.frame(d, 8., 0.)
            elif k == 'home':
                F = spec.frame
            moves += F.R != old.R or F.t != old.t
            d.event(k)
            d.note('moved to', F.rows4())
            j = d.int(0, 2)
            if k == 'turn' and j:
                asm.set_rotation(gen.np_rot(F))
            elif k == 'shift' and j:
                asm.set_location(gen.np_loc(F))
            else:
                asm.set_transform(gen.np_trans(F))
        M = F.mul(spec.frame.inverse())
        mr = [scene.Ray(M.apply(r.o), M.dir(r.d), r.e, r.n) for r in rays]
        e = eng if d.bool() else TracerEngine(asm)
        e.ray_tracer(scene.to_bundle(mr), reps, me)
        lv = scene.read_tree(e.tree)
        for lev in lv:
            for r in lev:
                if all(abs(x) < 1e9 for x in r.o):
                    r.o, r.d = M.inv(r.o), M.invdir(r.d)
        kids = compare.kids_of(lv)
        if base is None:
            base, kb = lv, kids
            continue
        for x, y in zip(base[0], lv[0]):
            compare.same(d, surfs, x, kb, y, kids, 'moved', me)
    d.nontrivial(len(base) > 2 and moves > 0)


SUBS = [
    Sub('walkabout', walkabout, 1350, 30000, 'one assembly, traced and moved in turn'),
    Sub('scenes', case, 2250, 45000, 'mixed scenes'),
    Sub('few', lambda d: case(d, max_surfs=2), 900, 15000, 'one or two surfaces'),
]
