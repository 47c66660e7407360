"""C02: the recorded ray tree is a faithful genealogy of the trace."""
import numpy as N
from vt import scene, ref, gen
from vt.common import Sub, array, index_array, bad, close

ID = 'C02'
RULE = ('A random scene (1-9 surfaces, all shapes and optics, nesting) and bundle of 1-40 rays, traced for 0-6 steps with random energy '
        'thresholds. In half of the cases every surface uses an optics callable that stamps each generated ray with a unique number and '
        'its parent\'s number, so that the recorded genealogy is compared with what was really generated; in the others the recorded '
        'child must start on its recorded parent\'s path. Non-trivial: at least two recorded generations and, in one of them, rays of '
        'different parents.')
ASSUMPTIONS = ['the order of dropped rays among themselves is not specified', 'with no tree and nothing generated in the last step, '
               'the kept bundle may be empty or the last non-empty one']


def same_bundle(b, rays, what):
    n = len(rays)
    close(array(b.get_vertices(), (3, n), what + ' vertices'), N.array([r.o for r in rays]).T.reshape(3, n), 0., what + ' vertices')
    close(array(b.get_directions(), (3, n), what + ' directions'), N.array([r.d for r in rays]).T.reshape(3, n), 0.,
          what + ' directions')
    close(array(b.get_energy(), (n,), what + ' energies'), [r.e for r in rays], 0., what + ' energies')


def key(r):
    return tuple('%.9g' % (x + 0.) for x in r.o + r.d) + ('%.9g' % (r.e + 0.), '%.9g' % r.n)


def common(d, levels, engine, v, dd, reps, me, rays):
    """Everything but where a ray's true parent is."""
    tree = engine.tree
    same_bundle(tree[0], rays, 'tree[0]')
    if len(levels) > reps + 1:
        bad('%d bundles recorded for %d steps', len(levels), reps)
    for k in range(1, len(levels)):
        lev = levels[k]
        if not lev:
            bad('an empty bundle is recorded as generation %d', k)
        seen_weak = False
        for i, r in enumerate(lev):
            weak = not r.e > me
            if weak:
                seen_weak = True
                d.event('weak')
            elif seen_weak:
                bad('generation %d: followed ray %d (energy %g > %g) is recorded after dropped ones', k, i, r.e, me)
        if k + 1 < len(levels):
            for c in levels[k + 1]:
                p = lev[c.parent]
                if not p.e > me:
                    bad('generation %d: ray %d with energy %g <= %g has a child', k, c.parent, p.e, me)
    live = levels[-1] if len(levels) == 1 else [r for r in levels[-1] if r.e > me]
    if len(levels) < reps + 1:
        live = []
    n = len(live)
    close(array(v, (3, n), 'returned vertices'), N.array([r.o for r in live]).T.reshape(3, n), 0., 'returned vertices')
    close(array(dd, (3, n), 'returned directions'), N.array([r.d for r in live]).T.reshape(3, n), 0., 'returned directions')

    # histories
    ops = tree.ordered_parents()
    if len(ops) != len(levels) - 1:
        bad('ordered_parents has %d arrays for %d generations', len(ops), len(levels) - 1)
    for k, p in enumerate(ops):
        if index_array(p, len(levels[k + 1]), len(levels[k]), 'ordered_parents') != [r.parent for r in levels[k + 1]]:
            bad('ordered_parents[%d] differs from the parents of generation %d', k, k + 1)
    for k in range(len(levels)):
        for i in range(len(levels[k])):
            want = [i]
            for q in range(k, 0, -1):
                want.append(levels[q][want[-1]].parent)
            got = array(tree.ray_history(i, k), (k + 1,), 'ray_history').tolist()
            if got != want:
                bad('ray_history(%d, %d) is %r instead of %r', i, k, got, want)
            if k == len(levels) - 1 and (got != array(tree.ray_history(i), (k + 1,), 'ray_history').tolist()):
                bad('ray_history(%d) differs from ray_history(%d, %d)', i, i, k)
    if len(levels) > 2:
        d.event('3+ generations')
    d.nontrivial(len(levels) > 1 and any(len(set(r.parent for r in l)) > 1 for l in levels[1:]))


def no_tree(d, engine, asm, rays, reps, me, seed, levels, v, dd, bundle):
    N.random.seed(seed)
    if d.bool():
        e2, v2, d2 = scene.trace(asm, bundle, reps, me, tree=False)
    else:       # by an engine that kept a tree before
        e2 = engine
        v2, d2 = e2.ray_tracer(bundle, reps, me, tree=False)
        d.event('tree=False after a kept tree')
    n = array(v, (3, None), 'returned vertices').shape[1]
    close(array(v2, (3, n), 'vertices returned with no tree'), v, 0., 'vertices returned with no tree')
    close(array(d2, (3, n), 'directions returned with no tree'), dd, 0., 'directions returned with no tree')
    if e2.tree.num_bunds() != 1:
        bad('%d bundles kept with tree=False', e2.tree.num_bunds())
    b = e2.tree[0]
    if reps and b.get_num_rays() == 0:
        if len(levels) == reps + 1:
            bad('with tree=False an empty bundle is kept although the last step generated rays')
        return
    kept = scene.read_bundle(b, len(levels[-2]) if len(levels) > 1 else None, 'kept bundle')
    if sorted((key(r), r.parent if len(levels) > 1 else 0) for r in kept) != \
            sorted((key(r), r.parent if len(levels) > 1 else 0) for r in levels[-1]):
        bad('the bundle kept with tree=False is not the last one of the tree')


def setup(d, crowd=False, given=None, **kw):
    if given is not None:
        return given
    g = scene.Gen(d, **kw)
    spec = g.scene()
    surfs = spec.surfaces()
    if crowd:
        rays = scene.many_rays(d, surfs, g.glass, 150, 1500)
    else:
        rays = scene.gen_rays(d, surfs, g.glass, 10, 40, sc=g.sc)
    if d.bool(.15):
        rays = rays + rays[:3]
    reps = d.weighted([(1, 0), (2, 1), (3, 2), (3, 3), (2, 4), (1, 6)])
    me = d.weighted([(3, 0.), (2, 1e-6), (3, .05), (1, .5), (1, None)])
    if me is None:          # as much as some ray has, about
        me = d.choice(rays).e * (1 + d.choice([-1, 0, 1]) * 10 ** d.unif(-12., -2.))
    d.note('scene', spec.describe())
    if not crowd:
        d.note('rays', scene.describe_rays(rays))
    d.note('reps', reps)
    d.note('min_energy', me)
    return spec, surfs, rays, reps, me


def paths(d, **kw):
    spec, surfs, rays, reps, me = setup(d, **kw)
    asm = scene.build(spec, d)
    seed = d.seed()
    N.random.seed(seed)
    e, v, dd = scene.trace(asm, scene.to_bundle(rays), reps, me)
    levels = scene.read_tree(e.tree)
    for k in range(1, len(levels)):
        for i, c in enumerate(levels[k]):
            p = levels[k - 1][c.parent]
            if not max(ref.norm(c.o), ref.norm(p.o)) < 1e6:
                d.event('far away, not judged')
                continue
            w = ref.sub(c.o, p.o)
            t = ref.dot(w, p.d)
            off = ref.norm(ref.sub(w, ref.scale(p.d, t)))
            if not (t > 0 and off <= 1e-7 * max(1., abs(t), ref.norm(p.o))):
                bad('generation %d: ray %d starts at %r, not on the path of its parent %d, from %r along %r', k, i, c.o,
                    c.parent, p.o, p.d)
    common(d, levels, e, v, dd, reps, me, rays)
    no_tree(d, e, asm, rays, reps, me, seed, levels, v, dd, scene.to_bundle(rays))


def deep(d, kind):
    """Dozens of generations."""
    spec, surfs, rays = scene.facing_plates(d, rays=6)
    reps = d.int(10, 50)
    d.note('scene', spec.describe())
    d.note('rays', scene.describe_rays(rays))
    d.note('reps', reps)
    kind(d, given=(spec, surfs, rays, reps, d.choice([0., .7])))


def huge(d):
    """Tens of thousands of rays on one or two mirrors; each ray's energy is its number."""
    w = gen.frame(d, 3.)
    n = d.choice([33000, 40000, 66000])
    two = d.bool()
    ss = [scene.SurfSpec(ref.Rect(40., 40.), scene.Optic('mirror', 0.), ref.Frame())]
    if two:
        ss.append(scene.SurfSpec(ref.Rect(40., 40.), scene.Optic('mirror', 0.), ref.Frame(t=(0., 0., 5.))))
    spec = scene.AsmSpec([scene.ObjSpec(ss, ref.Frame())], [], w)
    rng = N.random.RandomState(d.seed() % (1 << 31))
    me = d.choice([0., 0., d.unif(0., 1.) * n, n - 3.5])
    d.note('case', [n, two, me, w.rows4()])
    V = N.vstack((rng.uniform(-9., 9., (2, n)), rng.uniform(.5, 4.5, n)))
    D = N.vstack((rng.uniform(-.3, .3, (2, n)), N.where(rng.uniform(size=n) < .7, -1., 1.)))
    D /= N.sqrt((D ** 2).sum(axis=0))
    R, t = gen.np_rot(w), gen.np_loc(w)[:, None]
    from tracer.ray_bundle import RayBundle
    E = 1. + (rng.permutation(n) if me > 0 else N.arange(n))
    who = dict((e, i) for i, e in enumerate(E.tolist()))
    e, v, dd = scene.trace(scene.build(spec, d), RayBundle(vertices=N.dot(R, V) + t, directions=N.dot(R, D), energy=E.copy(),
                                                           ref_index=N.ones(n)), 2, me)
    last = E
    gens = e.tree.num_bunds()
    if gens != (3 if two else 2):
        bad('%d generations instead of %d', gens, 3 if two else 2)
    for k in range(1, gens):
        b = e.tree[k]
        m = (int((E > me).sum()) if k > 1 else n) if two else int((D[2] < 0).sum())
        en = array(b.get_energy(), (m,), 'energies of generation %d' % k)
        p = array(b.get_parents(), (m,), 'parents of generation %d' % k)
        if not ((p >= 0) & (p < len(last)) & (p == N.floor(p))).all():
            bad('generation %d: parents are not indices of the generation before', k)
        wrong = N.nonzero(last[p.astype(int)] != en)[0]
        if len(wrong):
            i = int(wrong[0])
            bad('generation %d: ray %d comes of source ray %d, its recorded parent of %d', k, i, who.get(en[i], -1), who[last[int(p[i])]])
        weak = en <= me
        if weak[:int((~weak).sum())].any():
            bad('generation %d: rays dropped for low energy come before rays followed further', k)
        if not (N.sort(en) == N.unique(en)).all() or k == 2 and weak.any():
            bad('generation %d: a ray has two children here, or a dropped ray has one', k)
        if weak.any():
            d.event('with dropped rays')
        last = en
    pick = rng.randint(0, len(last), 5).tolist() + [0, len(last) - 1]
    for i in pick:
        h = array(e.tree.ray_history(i), (gens,), 'history').tolist()
        if h[0] != i or any(int(x) != x for x in h) or not 0 <= h[-1] < n or E[int(h[-1])] != last[i]:
            bad('the history of ray %d of the last generation is %r; it comes of source ray %d', i, h, who[last[i]])
    d.event('rays', n)
    d.nontrivial()


class Stamp(object):
    """An optics callable giving the outgoing rays of another, each with its own number."""
    def __init__(self, opt, log):
        self.opt, self.log = opt, log

    def __call__(self, geometry, rays, selector):
        out = self.opt(geometry, rays, selector)
        par = [int(x) for x in out.get_parents()]
        mine = [int(x) for x in rays.get_uid()]
        uids = []
        en = out.get_energy()
        for j, p in enumerate(par):
            uids.append(len(self.log) + 1)
            self.log.append((mine[p], float(en[j])))
        out = out.inherit(N.arange(len(par)), uid=N.array(uids, dtype=float))
        return out


def ids(d, **kw):
    if 'given' not in kw:
        kw['cull'] = False
    spec, surfs, rays, reps, me = setup(d, **kw)
    log = []
    asm = scene.build(spec, d, wrap=lambda o, s: Stamp(o, log))
    n = len(rays)
    first = -N.arange(1., n + 1.)        # source rays: negative numbers
    N.random.seed(d.seed())
    e, v, dd = scene.trace(asm, scene.to_bundle(rays, uid=first), reps, me)
    levels = scene.read_tree(e.tree)
    prev = None
    met = set()
    for k in range(len(levels)):
        b = e.tree[k]
        if not b.has_property('uid'):
            bad('generation %d lost the user property', k)
        u = [int(x) for x in array(b.get_uid(), (len(levels[k]),), 'uid of generation %d' % k).tolist()]
        if k == 0:
            if u != [int(x) for x in first]:
                bad('the source is recorded in another order')
        else:
            for i, r in enumerate(levels[k]):
                if u[i] in met or not 1 <= u[i] <= len(log):
                    bad('generation %d: ray %d is recorded twice or was never generated', k, i)
                met.add(u[i])
                true, en = log[u[i] - 1]
                if prev[r.parent] != true:
                    bad('generation %d: ray %d has recorded parent %d, which is not the ray it was generated from%s', k, i, r.parent,
                        ' (%d)' % prev.index(true) if true in prev else '')
                if en != r.e and not abs(en - r.e) <= 1e-12 * abs(en):
                    bad('generation %d: ray %d has energy %g, generated with %g', k, i, r.e, en)
        prev = u
    if len(met) != len(log):
        bad('%d rays were generated, %d recorded', len(log), len(met))
    common(d, levels, e, v, dd, reps, me, rays)


SUBS = [
    Sub('paths-crowd', lambda d: paths(d, crowd=True), 34, 500, 'hundreds of rays'),
    Sub('stamped-crowd', lambda d: ids(d, crowd=True), 34, 500, 'hundreds of rays, each with a number'),
    Sub('paths-deep', lambda d: deep(d, paths), 42, 800, '10 to 50 generations'),
    Sub('stamped-deep', lambda d: deep(d, ids), 42, 800, '10 to 50 generations, numbered rays'),
    Sub('huge', huge, 3, 40, 'tens of thousands of rays'),
    Sub('paths', paths, 1870, 30000, 'children start on their parents\' paths; tree=False differential'),
    Sub('stamped', ids, 1870, 30000, 'each generated ray carries a number; the tree is compared with the log of generated rays'),
]
