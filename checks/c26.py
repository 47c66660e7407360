"""C26: the surfaces shown in a scene are those of its assembly."""
import numpy as N
from vt import scene, ref, gen, stubs
from vt.common import Sub, array, bad, close

ID = 'C26'
RULE = ('Histories of 1-9 operations on a TracerScene drawing on a stand-in scene: redraw all or some surfaces with other colours and resolutions, '
        'add and delete surfaces and objects and update, move parts and redraw, replace the assembly with and without clearing first, clear, replace '
        'the source. After each, the meshes on the scene are compared with a model: which surfaces are shown and with what mesh, colour and '
        'opacity they were last drawn. Non-trivial: at least two kinds of operations and three surfaces in the history.')
ASSUMPTIONS = ['MayaVi, traits and tvtk are not installed: stand-ins record the meshes handed to them and their removal', 'that a mesh is right for '
               'its surface is judged by C16']
SHAPES = ['rect', 'round', 'sphere', 'hemi', 'dish', 'fincyl']


class View(object):
    def __init__(self, d):
        self.d = d
        self.shown = {}         # id(surface) -> (surface, mesh, colour, opacity); None in place of the mesh: not shown
        self.log = []

    def draw(self, surf, colour=(.5, .5, .5), res=10, opacity=1.):
        a = self.attrs.get(id(surf), {})
        m = [N.array(x, dtype=float) for x in surf.mesh(a.get('resolution', res))]
        self.shown[id(surf)] = (surf, m, a.get('colour', colour), a.get('opacity', opacity))

    attrs = {}


def new_surface(d, v):
    s = scene.SurfSpec(gen.shape(d, SHAPES, .4, 2.), scene.Optic('mirror', 0.), gen.frame(d, 3.))
    from tracer.surface import Surface
    r = Surface(gen.real_geom(s.shape), scene.real_optics(s.optics), location=gen.np_loc(s.frame), rotation=gen.np_rot(s.frame))
    a = {}
    # colours tell surfaces apart
    if d.bool(.3):
        a['colour'] = (d.int(0, 8) / 8., d.int(0, 8) / 8., 0.)
    if d.bool(.3):
        a['resolution'] = d.int(2, 6)
    if d.bool(.2):
        a['opacity'] = d.int(0, 8) / 8.
    for k, x in a.items():
        setattr(r, k, x)
    v.attrs[id(r)] = a
    return r


def new_object(d, v):
    from tracer.object import AssembledObject
    surfs = []
    while d.more(len(surfs), 1.6, 0, 4):
        surfs.append(new_surface(d, v))
    return AssembledObject(surfs=surfs, transform=gen.np_trans(gen.frame(d, 3.)))


def new_assembly(d, v):
    from tracer.assembly import Assembly
    a = Assembly(location=gen.np_loc(gen.frame(d, 3.)))
    n = 0
    while d.more(n, 1.5, 0, 3):
        n += 1
        a.add_object(new_object(d, v), gen.np_trans(gen.frame(d, 3.)))
    if d.bool(.4):
        sub = Assembly()
        sub.add_object(new_object(d, v))
        a.add_assembly(sub, gen.np_trans(gen.frame(d, 3.)))
    return a


def same(m, e):
    x = [N.asarray(y) for y in m.xyz]
    if len(x) != 3 or any(a.shape != b.shape for a, b in zip(x, e[1])):
        return False
    if any(abs(a - b).max() > 1e-9 for a, b in zip(x, e[1]) if a.size):
        return False
    return tuple(m.kw.get('color', ())) == tuple(e[2]) and m.kw.get('opacity') == e[3]


def judge(d, v, view, what):
    exp = [e for e in v.shown.values() if e[1] is not None]
    left = list(view.meshes)
    for e in exp:
        for k, m in enumerate(left):
            if same(m, e):
                left.pop(k)
                break
        else:
            bad('after %s: a surface at %r is not drawn with colour %r, opacity %r and its mesh (%d meshes on the scene, %d expected)', what,
                e[0].get_location().tolist(), e[2], e[3], len(view.meshes), len(exp))
    if left:
        bad('after %s: %d meshes on the scene, of which %d belong to no surface of the assembly', what, len(view.meshes), len(left))


def case(d):
    stubs.install()
    from tracer.mayavi_ui.scene_view import TracerScene
    v = View(d)
    v.attrs = {}
    asm = new_assembly(d, v)
    total = len(asm.get_surfaces())
    stubs.Scene.made = []
    t = TracerScene(asm, None, 1.)
    view = stubs.Scene.made[0]
    for s in asm.get_surfaces():
        v.draw(s)
    judge(d, v, view, 'the beginning')
    kinds = set()
    ops = 0
    keep = [asm]
    while d.more(ops, 4, 1, 9):
        ops += 1
        k = d.choice(['show', 'show some', 'add', 'delete', 'move', 'replace', 'clear', 'source'])
        v.log.append(k)
        d.note('history', v.log)
        kinds.add(k)
        if k in ('show', 'show some', 'move'):
            kw = {}
            if d.bool():
                kw['colour'] = (d.int(0, 8) / 8., .25, d.int(0, 8) / 8.)
            if d.bool():
                kw['resolution'] = d.int(2, 7) if d.bool(.95) else d.int(15, 30)
            if d.bool(.3):
                kw['opacity'] = d.int(1, 8) / 8.
            if k == 'move':
                asm.set_transform(gen.np_trans(gen.frame(d, 3.)))
            # surfaces added or deleted behind the scene's back wait for the next update
            ids = list(v.shown)
            if k == 'show some' or (k == 'move' and d.bool(.3)):
                ids = [i for i in ids if d.bool()]
                t.show_assembly(update=ids, **kw)
            else:
                t.show_assembly(**kw)
            for i in ids:
                v.draw(v.shown[i][0], kw.get('colour', (.5, .5, .5)), kw.get('resolution', 10), kw.get('opacity', 1.))
            v.log.append(kw)
        elif k == 'add':
            objs = asm.get_objects()
            if objs and d.bool():
                d.choice(objs).add_surface(new_surface(d, v))
                asm.set_transform(asm.get_transform())
            else:
                asm.add_object(new_object(d, v), gen.np_trans(gen.frame(d, 3.)))
        elif k == 'delete':
            objs = asm.get_local_objects()
            if objs:
                o = d.choice(objs)
                if d.bool() and len(o.get_surfaces()):
                    o.get_surfaces().pop(d.int(0, len(o.get_surfaces()) - 1))
                else:
                    objs.remove(o)
                    keep.append(o)
        elif k == 'replace':
            if d.bool(.6):
                t.clear_scene()
                v.log.append('after clearing')
            asm = new_assembly(d, v)
            keep.append(asm)
            t.set_assembly(asm)
            v.shown = {}
            for s in asm.get_surfaces():
                v.draw(s)
        elif k == 'clear':
            t.clear_scene()
            for i, e in v.shown.items():
                v.shown[i] = (e[0], None, None, None)
            if view.lines:
                bad('lines are left on a cleared scene')
        else:
            t.set_trace_control(max_iter=1)
            t.set_source(None if d.bool(.2) else scene.to_bundle([scene.Ray((0., 0., 9.), (0., 0., -1.), 1., 1.)]))
            continue
        if k in ('add', 'delete') and d.bool(.9):
            t.update_surfaces()
            now = dict((id(s), s) for s in asm.get_surfaces())
            for i in list(v.shown):
                if i not in now:
                    del v.shown[i]
            for i, s in now.items():
                if i not in v.shown:
                    v.draw(s)
        total = max(total, len(v.shown))
        judge(d, v, view, k)
    d.event('surfaces', total)
    d.nontrivial(len(kinds) > 1 and total > 2)


SUBS = [Sub('histories', case, 4800, 30000, 'histories of a scene')]
