"""C17: receivers account for every hit, and flux maps add up."""
import numpy as N
from vt import scene, ref, gen, dish
from vt.common import Sub, array, bad, close

ID = 'C17'
RULE = ('Histories of 1-7 operations (trace a new bundle for 0-8 steps, reset one or all receivers, move the assembly, '
        'ask for the hits) on (a) random scenes with specular and diffuse receivers, (b) concentrator dishes with their flux maps. The '
        'model is the multiset of (energy x absorptivity, hit point) of the traces since the reset, read off the recorded trees. '
        'Non-trivial: a receiver with hits from two traces, or hits before a reset or a move, or a flux map of at least 3 hits.')
ASSUMPTIONS = ['which rays strike the receiver is taken from the recorded tree (C01 and C02 judge that); a strike where surfaces meet within '
               'tolerance makes the case undecided', 'energy on the border of two flux map bins, to 1e-9, may be in either']


def match(exp, got_e, got_p, scale, what):
    """exp: list of (energy, point). got: arrays. As multisets, to tolerance."""
    n = len(got_e)
    if n != len(exp):
        bad('%s: %d hits reported, %d rays struck', what, n, len(exp))
    left = list(range(n))
    E, P = got_e.tolist(), got_p.T.tolist()
    order = sorted(left, key=lambda i: P[i])
    for e, p in sorted(exp, key=lambda x: x[1]):
        best = None
        for j, i in enumerate(order):
            if abs(E[i] - e) <= 1e-9 * max(abs(e), 1e-3) and ref.dist(P[i], p) <= 1e-7 * scale:
                best = j
                break
        if best is None:
            bad('%s: no entry for the ray that struck at %r and left the energy %r (entries left: %r)', what, p, e,
                [(E[i], P[i]) for i in order[:4]])
        order.pop(best)


def hits_of(surf, what):
    r = surf.get_optics_manager().get_all_hits()
    if not isinstance(r, (tuple, list)) or len(r) != 2:
        bad('%s: get_all_hits returned %r', what, type(r))
    e = array(r[0], (None,), what + ' absorbed energies')
    p = array(r[1], (3, len(e)), what + ' hit points')
    return e, p


class Model(object):
    """Receivers of one assembly: key -> list of expected entries; None once undecidable."""
    def __init__(self, keys):
        self.rec = dict((k, []) for k in keys)

    def add(self, surfs, levels, key, share, d):
        """Strikes of a recorded trace. key: RefSurface -> receiver key or None."""
        for k in range(len(levels) - 1):
            for i, js in enumerate(scene.by_parent(levels[k + 1], len(levels[k]))):
                if not js:
                    continue
                kids = [levels[k + 1][j] for j in js]
                cand = set()
                for c in kids:
                    cand |= set(scene.on_surface(surfs, c.o))
                keys = [key(surfs[j]) for j in cand]
                if len(cand) == 1 and keys[0] is None:
                    continue
                r = levels[k][i]
                if len(cand) == 1 and len(kids) == 1:
                    s = surfs[list(cand)[0]]
                    a = share(s, r, kids[0])
                    if a == 'back':     # the opaque back does not register
                        continue
                    if a is not None:
                        if self.rec[keys[0]] is not None:
                            self.rec[keys[0]].append((r.e * a, kids[0].o))
                            d.event('strike')
                        continue
                # ambiguous: every receiver involved is out
                if not cand:
                    keys = list(self.rec)
                for x in keys:
                    if x is not None:
                        self.rec[x] = None
                        d.event('ambiguous strike')


def receiving(d):
    return scene.Optic(d.choice(['receiver', 'receiver', 'mirror']), d.choice([0., .01, .1]))


def scenes(d, deep=False):
    g = scene.Gen(d, optics=['receiver', 'lreceiver', 'receiver', 'mirror', 'refract', 'lambert'], max_surfs=5)
    if deep:
        spec, surfs, between = scene.facing_plates(d, receiving, 8)
        home = spec.frame
    else:
        spec = g.scene()
    keep = {}
    N.random.seed(d.seed())
    asm = scene.build(spec, d, keep=keep)
    by_shape = dict((id(s.shape), s) for s in keep)
    recs = [s for s in keep if s.optics.kind in ('receiver', 'lreceiver')]
    if not recs:
        from vt.common import Reject
        raise Reject()
    d.note('scene', spec.describe())
    m = Model(recs)
    frame = spec.frame

    def key(s):
        sp = by_shape[id(s.shape)]
        return sp if sp in m.rec else None

    def share(s, r, kid):
        return s.optics.a

    ntr = {}
    special = False
    log = []
    ops = 0
    while d.more(ops, 4, 1, 7):
        ops += 1
        k = d.weighted([(5, 'trace'), (1, 'reset'), (1, 'reset all'), (1, 'move'), (1, 'ask')])
        if k == 'trace':
            spec.frame = frame
            surfs = spec.surfaces()
            if deep:
                q = frame.mul(home.inverse())
                rays = [scene.Ray(q.apply(r.o), q.dir(r.d), r.e, r.n) for r in between]
                reps = d.int(1, 40)
            else:
                rays = scene.gen_rays(d, surfs, g.glass, 8, 30, sc=g.sc)
                reps = d.int(0, 5)
            me = d.choice([0., 1e-3, .5])
            log.append([k, scene.describe_rays(rays), reps, me])
            e, v, dd = scene.trace(asm, scene.to_bundle(rays), reps, me)
            levels = scene.read_tree(e.tree)
            m.add(surfs, levels, key, share, d)
            for s in recs:
                if m.rec[s]:
                    ntr[s] = ntr.get(s, 0) + 1
        elif k == 'reset':
            s = d.choice(recs)
            keep[s].get_optics_manager().reset()
            special = special or bool(m.rec[s])
            m.rec[s] = []
            ntr[s] = 0
            log.append([k, recs.index(s)])
        elif k == 'reset all':
            for s in recs:
                keep[s].get_optics_manager().reset()
                special = special or bool(m.rec[s])
                m.rec[s] = []
                ntr[s] = 0
            log.append([k])
        elif k == 'move':
            frame = gen.frame(d, 4.)
            asm.set_transform(gen.np_trans(frame))
            special = special or any(m.rec.values())
            log.append([k, frame.rows4()])
        d.note('history', log)
        if k == 'ask' or d.bool(.4):
            judge(d, m, keep, recs, spec, frame, by_shape)
    judge(d, m, keep, recs, spec, frame, by_shape)
    d.nontrivial(special or any(x > 1 for x in ntr.values()))


def judge(d, m, keep, recs, spec, frame, by_shape):
    spec.frame = frame
    ref_of = dict((by_shape[id(s.shape)], s) for s in spec.surfaces())
    for j, s in enumerate(recs):
        what = 'receiver %d (%s)' % (j, s.shape.kind)
        e, p = hits_of(keep[s], what)
        l = array(keep[s].global_to_local(p), (3, len(e)), what + ' local hit points')
        R = ref_of[s]
        for i in range(len(e)):
            q = R.frame.inv(tuple(p[:, i].tolist()))
            if not ref.dist(q, tuple(l[:, i].tolist())) <= 1e-8 * max(1., ref.norm(q), abs(p[:, i]).max()):
                bad('%s: %r in its coordinates is reported as %r instead of %r', what, p[:, i].tolist(), l[:, i].tolist(), q)
        if m.rec[s] is None:
            d.event('undecided receiver')
            continue
        scale = max([1.] + [ref.norm(x[1]) for x in m.rec[s]])
        match(m.rec[s], e, p, scale, what)
        d.event('receiver judged')


def flux(d):
    D = dish.Dish(d)
    d.note('dish', D.describe())
    surf = D.asm.get_receiver_surf()
    m = Model(['r'])
    log = []
    ops = 0

    def key(s):
        return 'r' if s.optics.kind == 'osreceiver' else None

    def share(s, r, kid):
        p = ref.dot(r.d, s.frame.z())
        if abs(p) < 1e-6:
            return None
        return 1. if p < 0 else 'back'

    while d.more(ops, 3, 1, 6):
        ops += 1
        k = d.weighted([(6, 'trace'), (1, 'reset'), (1, 'move')])
        if k == 'trace':
            surfs = D.spec.surfaces()
            rays = D.rays(d, 16, 60)
            reps = d.int(1, 8)
            log.append([k, scene.describe_rays(rays), reps])
            e, v, dd = scene.trace(D.asm, scene.to_bundle(rays), reps, d.choice([0., 1e-3]))
            levels = scene.read_tree(e.tree)

            m.add(surfs, levels, key, share, d)
        elif k == 'reset':
            surf.get_optics_manager().reset()
            m.rec['r'] = []
            log.append([k])
        else:
            # the map is of the receiver's extent, so hits are brought along only by new traces
            surf.get_optics_manager().reset()
            m.rec['r'] = []
            D.move(d)
            log.append([k, D.frame.rows4()])
        d.note('history', log)
        if d.bool(.6):
            judge_map(d, D, surf, m)
    judge_map(d, D, surf, m)


def judge_map(d, D, surf, m):
    e, p = hits_of(surf, 'receiver')
    if m.rec['r'] is not None:
        scale = max([1.] + [ref.norm(x[1]) for x in m.rec['r']])
        match(m.rec['r'], e, p, scale, 'receiver')
    n = d.weighted([(2, 50), (4, None), (1, 1)])
    if n == 50:
        H, xb, yb = D.asm.histogram_hits()
    else:
        n = n or d.weighted([(9, d.int(1, 30)), (1, d.int(60, 150))])
        H, xb, yb = D.asm.histogram_hits(n) if d.bool() else D.asm.histogram_hits(bins=n)
    H = array(H, (n, n), 'flux map of %d bins' % n)
    xb, yb = array(xb, (n + 1,), 'x edges'), array(yb, (n + 1,), 'y edges')
    for b, s in ((xb, D.sides[0]), (yb, D.sides[1])):
        close(b, N.linspace(-s / 2., s / 2., n + 1), 1e-9 * s, 'edges of the flux map for an extent of %r' % s)
    # every entry, seen in the receiver's frame
    g = D.frame.mul(D.rf)
    lo, hi = N.zeros((n, n)), N.zeros((n, n))
    E, P = e.tolist(), p.T.tolist()
    inside = maybe = 0.
    for x, q in zip(E, P):
        q = g.inv(tuple(q))
        cells = []
        for c, s in ((q[0], D.sides[0]), (q[1], D.sides[1])):
            if abs(c) > s / 2. + 1e-6 * max(s, 1.):
                bad('a hit at %r in the receiver\'s coordinates is off its aperture %r', q, D.sides)
            u = (c + s / 2.) / s * n
            eps = 1e-7 * n / min(s, 1.)
            cells.append(sorted(set([int(N.floor(u - eps)), int(N.floor(u + eps))])))
        if abs(q[2]) > 1e-6:
            bad('a hit at %r in the receiver\'s coordinates is off its plane', q)
        opts = [(i, j) for i in cells[0] for j in cells[1]]
        ok = [(i, j) for i, j in opts if 0 <= i < n and 0 <= j < n]
        maybe += x
        if len(ok) == len(opts):
            inside += x
        for i, j in ok:
            hi[i, j] += x
            if len(opts) == 1:
                lo[i, j] += x
    tol = 1e-9 * max(1., sum(E))
    if not (H >= lo - tol).all() or not (H <= hi + tol).all():
        i = N.argwhere(~((H >= lo - tol) & (H <= hi + tol)))[0].tolist()
        bad('bin %r of the flux map has %r, the hits in it add up to between %r and %r', i, float(H[tuple(i)]), float(lo[tuple(i)]),
            float(hi[tuple(i)]))
    if not inside - tol <= H.sum() <= maybe + tol:
        bad('the flux map sums to %r, the receiver absorbed between %r and %r', float(H.sum()), inside, maybe)
    d.event('flux maps')
    if n > 1 and len(E) > 2:
        d.nontrivial()


def protocol(d):
    """The receiver used directly, as an engine would: any selection of the rays that hit, also none of them."""
    a = d.choice([0., 1., None])
    a = d.real(0., 1.) if a is None else a
    spec = scene.SurfSpec(gen.shape(d, gen.SHAPES, .4, 6.), scene.Optic(d.choice(['receiver', 'lreceiver']), a), gen.frame(d, 3.))
    keep = {}
    f = gen.frame(d, 3.)
    asm = scene.build(scene.AsmSpec([scene.ObjSpec([spec], ref.Frame())], [], f), d, keep=keep)
    surf = keep[spec]
    R = ref.RefSurface(spec.shape, f.mul(spec.frame), spec.optics)
    d.note('surface', [spec.shape.describe(), spec.optics.kind, a, f.mul(spec.frame).rows4()])
    exp, log, steps = [], [], 0
    while d.more(steps, 3, 1, 8):
        steps += 1
        if d.bool(.15):
            surf.get_optics_manager().reset()
            exp = []
            log.append('reset')
        rays = scene.gen_rays(d, [R], 1.5, 6, 20)
        t = array(surf.register_incoming(scene.to_bundle(rays)), (len(rays),), 'parameters').tolist()
        hit = [i for i in range(len(rays)) if t[i] == t[i] and 0 < t[i] < 1e9]
        sel = [] if d.bool(.25) else [i for i in hit if d.bool(.8)]
        surf.select_rays(N.array(sel, dtype=int))
        surf.get_outgoing()
        surf.done()
        exp += [(rays[i].e * a, ref.along(rays[i].o, rays[i].d, t[i])) for i in sel]
        log.append([scene.describe_rays(rays), sel])
        d.note('history', log)
        if not sel:
            d.event('empty selection')
        if d.bool():
            e, p = hits_of(surf, 'receiver')
            match(exp, e, p, max([1.] + [ref.norm(x[1]) for x in exp]), 'receiver')
    e, p = hits_of(surf, 'receiver')
    match(exp, e, p, max([1.] + [ref.norm(x[1]) for x in exp]), 'receiver')
    d.nontrivial(steps > 1 and len(exp) > 1)


SUBS = [
    Sub('scenes', scenes, 1400, 20000, 'receivers in random scenes'),
    Sub('deep', lambda d: scenes(d, deep=True), 80, 1500, 'receivers struck dozens of times in a trace'),
    Sub('flux', flux, 1000, 20000, 'flux maps of concentrators'),
    Sub('protocol', protocol, 1200, 15000, 'receivers used directly'),
]
