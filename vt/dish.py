"""Ready-made collectors (vt.scene descriptions and the real objects), for C17 and C18."""
import math
import numpy as N
from vt import ref, gen, scene
from vt.ref import Frame
from vt.scene import SurfSpec, ObjSpec, AsmSpec, Optic

RX = ((1., 0., 0.), (0., -1., 0.), (0., 0., -1.))


def mirror1s(w, h, a, f):
    return ObjSpec([SurfSpec(ref.Rect(w, h), Optic('onesided', a), Frame())], f, 'mirror1s')


def receiver1s(w, h, a, f):
    return ObjSpec([SurfSpec(ref.Rect(w, h), Optic('osreceiver', a), Frame())], f, 'mirror1s')


def tube(x, y, h, eff, f):
    """Four inward-facing walls between z=0 and z=h, in the tube's frame f. Each wall is described by what it has to be: its centre,
    its inward normal, and its extent."""
    a = 1. - eff

    def wall(c, inward, width):
        # local Z inward, local Y along the tube's axis
        up = (0., 0., 1.)
        x_ = ref.cross(up, inward)
        R = tuple(zip(x_, up, inward))
        return mirror1s(width, h, a, Frame(R, c))
    return AsmSpec([wall((x / 2., 0., h / 2.), (-1., 0., 0.), y), wall((-x / 2., 0., h / 2.), (1., 0., 0.), y),
                    wall((0., y / 2., h / 2.), (0., -1., 0.), x), wall((0., -y / 2., h / 2.), (0., 1., 0.), x)], [], f)


class Dish(object):
    """A concentrator drawn from d: .asm real assembly, .spec what it should be."""
    def __init__(self, d, kinds=('mini', 'petal', 'base', 'standard'), place=True):
        from tracer.models.tau_minidish import MiniDish, standard_minidish
        from tracer.models.PETAL_dish import PETAL
        from tracer.models.homogenized_local_receiver import HomogenizedLocalReceiver
        from tracer.surface import Surface
        from tracer import optics_callables as oc
        k = self.kind = d.choice(list(kinds))
        D = d.pos_real(1., 8.)
        eff, heff = d.choice([1., .9, .8]), d.choice([1., .9, .7])
        extra = {}
        if k == 'standard':
            conc = d.pos_real(20., 2000.)
            W = D / 2. * math.sqrt(math.pi / conc)
            virt = d.int(0, 4)
            n = virt + 1
            if n * W > .9 * D:
                virt, n = 0, 1
            if d.bool(.5):
                self.asm, f, w, h = standard_minidish(D, conc, virt, eff, heff)
            else:
                self.asm, f, w, h = standard_minidish(D, conc, virt)
                eff, heff = .9, .9
            self.measures = (D, conc, n, f, w, h)
            f = D / 4. / (math.sqrt(2) - 1)
            H = n * W * f / (D - n * W)
            pos, sides, depth = f + H, (W, W), H
            sh = ref.Dish(D, f)
        else:
            f = D * d.unif(.4, 1.5)
            side = D * d.pos_real(.02, .4)
            pos = f * d.unif(.9, 1.3)
            depth = pos * d.pos_real(.05, .5)
            aspect = d.weighted([(2, 1.), (3, None)])
            if aspect is None:
                aspect = d.pos_real(.3, 3.)
            sides = (side * aspect, side) if k == 'petal' else (side, side * aspect)
            if k == 'base':
                sh = ref.Dish(D, f) if d.bool() else ref.Rect(D, D * d.unif(.5, 1.))
                dims = sides
                if aspect == 1. and d.bool():
                    dims = side
                surf = Surface(gen.real_geom(sh), oc.Reflective(1. - eff))
                self.asm = HomogenizedLocalReceiver(surf, pos, dims, depth, heff)
            else:
                args = (D, f, eff, pos, side, depth, heff)
                if aspect != 1. or d.bool():
                    args += (aspect,)
                cls = MiniDish if k == 'mini' else PETAL
                sh = ref.Dish(D, f) if k == 'mini' else ref.Hex(D, f)
                self.asm = cls(*args)
        self.D, self.f, self.pos, self.sides, self.depth, self.eff, self.heff = D, f, pos, sides, depth, eff, heff
        self.frame = Frame()
        self.rf = Frame(RX, (0., 0., pos))
        self.main_spec = SurfSpec(sh, Optic('mirror', 1. - eff), Frame())
        self.rec = receiver1s(sides[0], sides[1], 1., self.rf)
        self.spec = AsmSpec([self.rec, ObjSpec([self.main_spec], Frame())],
                            [tube(sides[0], sides[1], depth, heff, self.rf)], self.frame)
        if place and d.bool(.6):
            self.move(d)

    def move(self, d):
        self.frame = gen.frame(d, 5.)
        self.spec.frame = self.frame
        if d.bool(.5):
            self.asm.set_transform(gen.np_trans(self.frame))
        else:
            self.asm.set_rotation(gen.np_rot(self.frame))
            self.asm.set_location(gen.np_loc(self.frame))

    def describe(self):
        return {'kind': self.kind, 'diameter': self.D, 'focal length': self.f, 'receiver at': self.pos, 'receiver sides': self.sides,
                'tube depth': self.depth, 'dish efficiency': self.eff, 'tube efficiency': self.heff, 'frame': self.frame.rows4()}

    def rays(self, d, avg=14, hi=60):
        """Sun rays onto the dish, rays into the tube, rays at the parts from anywhere."""
        out = []
        surfs = self.spec.surfaces()
        while d.more(len(out), avg, 1, hi):
            k = d.weighted([(6, 'sun'), (3, 'tube'), (2, 'any')])
            e = d.weighted([(1, 1.), (1, None)])
            if e is None:
                e = d.pos_real(1e-2, 100.)
            if k == 'any':
                o, v, c = gen.ray_at(d, d.choice(surfs), 6.)
            elif k == 'sun':
                t = d.pos_real(2e-3, .03)
                a = d.unif(0., 2 * math.pi)
                v = ref.unit((t * math.cos(a), t * math.sin(a), -1.))
                o = (d.unif(-.5, .5) * self.D, d.unif(-.5, .5) * self.D, 2. * self.pos + d.unif(0., 3.))
                o, v = self.frame.apply(o), self.frame.dir(v)
            else:
                # through the tube's mouth or its inside, towards the receiver
                lo = (d.unif(-.5, .5) * self.sides[0], d.unif(-.5, .5) * self.sides[1], self.depth * d.unif(.1, 1.3))
                w = ref.unit((d.unif(-1., 1.), d.unif(-1., 1.), -d.unif(.05, 2.)))
                g = self.frame.mul(self.rf)
                o, v = g.apply(lo), g.dir(w)
            out.append(scene.Ray(o, v, e, 1., cls=k))
        return out
