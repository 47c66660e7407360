"""C14: ray bundles are consistent per-ray records under every operation."""
import random
import numpy as N
from vt import scene, ref, gen
from vt.common import Sub, array, index_array, bad, close

ID = 'C14'
RULE = ('(a) histories of 3-25 operations (construct, inherit with overrides, delete, add, concatenate, set all, set selected, get '
        'selected) on a pool of bundles with built-in and user-defined properties of 1-3 dimensions, selectors given as index arrays, '
        'boolean masks and slices, sizes 0-12; after each operation all bundles of the pool are compared with lists of records. (b) '
        'whole traces of bundles with user-defined properties through scenes of all optics. Non-trivial: (a) at least three different '
        'operations on bundles with user properties; (b) at least two generations.')
ASSUMPTIONS = ['bundles merged with + or concatenate_rays have the same properties set, as documented; masks are not used for deletion',
               'arrays given by the caller are not shared between bundles']

USER = {'wavelength': (), 'pol': (3,), 'mueller': (2, 3), 'label': ()}
BASE = {'vertices': (3,), 'directions': (3,), 'energy': (), 'parents': (), 'ref_index': ()}
SHAPE = dict(BASE)
SHAPE.update(USER)


class Model(object):
    """props: name -> list of per-ray values (nested tuples)"""
    def __init__(self, n, props):
        self.n, self.props = n, props

    def pick(self, idx):
        return Model(len(idx), dict((k, [v[i] for i in idx]) for k, v in self.props.items()))


def values(d, name, n, typed=False):
    if typed and name == 'label':
        return [('x' * d.int(1, 9),) for _ in range(n)]
    if typed and name != 'parents' and n and d.bool(.4):
        return [tuple(4 * int(x) for x in v) for v in values(d, name, n)]
    size = 1
    for s in SHAPE[name]:
        size *= s
    out = []
    if n > 60:
        r = random.Random(d.seed())
        if name == 'parents':
            return [(r.randint(0, 20),) for _ in range(n)]
        return [tuple(r.randint(-500, 500) / 4. for _ in range(size)) for _ in range(n)]
    for i in range(n):
        if name == 'parents':
            v = [d.int(0, 20)]
        else:
            v = [float(d.int(-500, 500)) / 4. for _ in range(size)]
        out.append(tuple(v))
    return out


def as_array(name, vals):
    sh = SHAPE[name]
    n = len(vals)
    if n and isinstance(vals[0][0], str):
        t = 'U'
    else:
        t = int if name == 'parents' or n and all(isinstance(x, int) for v in vals for x in v) else float
    a = N.array(vals, dtype=t).reshape((n,) + sh)
    return N.ascontiguousarray(N.moveaxis(a, 0, -1))


def selector(d, n, mask=True):
    """(selector, list of indices)"""
    k = d.choice(['index', 'mask', 'slice', 'dup'] if mask else ['index', 'slice'])
    if n > 60 and k != 'slice':
        r = random.Random(d.seed())
        p = d.choice([.02, .5, .98])
        idx = [i for i in range(n) if r.random() < p]
        if k == 'dup':
            idx = [r.randint(0, n - 1) for _ in range(n + 3)]
        if k == 'mask':
            m = N.zeros(n, dtype=bool)
            m[idx] = True
            return m, idx
        return N.array(idx, dtype=int), idx
    if k == 'index':
        idx = [i for i in range(n) if d.bool()]
        if d.bool(.4):
            idx.reverse()
        return N.array(idx, dtype=int), idx
    if k == 'dup':
        idx = [d.int(0, n - 1) for _ in range(d.int(0, n + 2))] if n else []
        return N.array(idx, dtype=int), idx
    if k == 'mask':
        m = [d.bool() for _ in range(n)]
        return N.array(m, dtype=bool), [i for i in range(n) if m[i]]
    lo = d.int(0, n)
    hi = d.int(lo, n)
    st = d.int(1, 2)
    return slice(lo, hi, st), list(range(lo, hi, st))


def compare(b, m, what):
    n = b.get_num_rays()
    if n != m.n:
        bad('%s: %r rays instead of %d', what, n, m.n)
    for k in SHAPE:
        if k in m.props:
            if not b.has_property(k):
                bad('%s: has lost property %s', what, k)
            a = N.asarray(getattr(b, 'get_' + k)())
            e = as_array(k, m.props[k])
            if a.shape != e.shape:
                bad('%s: property %s has shape %r instead of %r', what, k, a.shape, e.shape)
            if a.tolist() != e.tolist():
                bad('%s: property %s is %r instead of %r', what, k, a.tolist(), e.tolist())
        elif k in USER and b.has_property(k):
            bad('%s: has property %s which it should not have', what, k)


def algebra(d, big=False, typed=False):
    from tracer.ray_bundle import RayBundle, concatenate_rays
    pool = []           # (bundle, model)
    log = []
    done = set()
    # the properties are the same for all, so that any two can be merged
    names = ['vertices', 'directions'] + [k for k in ('energy', 'parents', 'ref_index') if d.bool(.7)] + \
        [k for k in sorted(USER) if d.bool(.5)]

    def new():
        n = d.weighted([(1, 0), (1, 1), (6, None)])
        if n is None:
            n = d.int(2, 8) if not big else d.int(61, 700)
        m = Model(n, dict((k, values(d, k, n, typed)) for k in names))
        arrs = dict((k, as_array(k, v)) for k, v in m.props.items())
        if d.bool(.2) and set(names) <= set(BASE):
            b = RayBundle()
            for k, a in arrs.items():
                getattr(b, 'set_' + k)(a)
        else:
            b = RayBundle(**arrs)
        return b, m

    pool.append(new())
    steps = 0
    try:
        while d.more(steps, 9, 3, 25):
            steps += 1
            k = d.choice(['new', 'inherit', 'delete', 'add', 'concat', 'set', 'set some', 'get', 'empty'])
            b, m = d.choice(pool)
            res = None
            if k == 'new':
                res = new()
            elif k == 'inherit':
                if d.bool(.2):
                    args, idx = (), list(range(m.n))
                else:
                    sel, idx = selector(d, m.n)
                    args = (sel,)
                r = m.pick(idx)
                kw = {}
                for p in names:
                    if d.bool(.25):
                        v = values(d, p, len(idx), typed)
                        r.props[p] = v
                        kw['direction' if p == 'directions' else p] = as_array(p, v)
                log.append(['inherit', repr(args), sorted(kw)])
                res = (b.inherit(*args, **kw), r)
            elif k == 'delete':
                sel, idx = selector(d, m.n, False)
                log.append(['delete', repr(sel)])
                res = (b.delete_rays(sel), m.pick([i for i in range(m.n) if i not in set(idx)]))
            elif k == 'add':
                b2, m2 = d.choice(pool)
                log.append(['add', m.n, m2.n])
                res = (b + b2, Model(m.n + m2.n, dict((p, m.props[p] + m2.props[p]) for p in names)))
            elif k == 'concat':
                lst = [d.choice(pool) for _ in range(d.int(1, 4))]
                log.append(['concat', [x[1].n for x in lst]])
                r = Model(sum(x[1].n for x in lst), dict((p, sum((x[1].props[p] for x in lst), [])) for p in names))
                res = (concatenate_rays([x[0] for x in lst]), r)
            elif k == 'empty':
                e = concatenate_rays([]) if d.bool() else RayBundle.empty_bund()
                compare(e, Model(0, dict((p, []) for p in BASE)), 'empty bundle')
                continue
            elif k == 'set':
                p = d.choice(names)
                v = values(d, p, m.n, typed)
                log.append(['set', p])
                getattr(b, 'set_' + p)(as_array(p, v))
                m.props[p] = v
            elif k == 'set some':
                p = d.choice(names)
                sel, idx = selector(d, m.n)
                if len(set(idx)) != len(idx) or typed:
                    continue
                v = values(d, p, len(idx))
                log.append(['set some', p, repr(sel)])
                getattr(b, 'set_' + p)(as_array(p, v), sel)
                m.props[p] = list(m.props[p])
                for i, x in zip(idx, v):
                    m.props[p][i] = x
            else:
                p = d.choice(names)
                sel, idx = selector(d, m.n)
                log.append(['get', p, repr(sel)])
                a = N.asarray(getattr(b, 'get_' + p)(sel))
                e = as_array(p, [m.props[p][i] for i in idx])
                if a.shape != e.shape or a.tolist() != e.tolist():
                    bad('get_%s with selector %r gives %r instead of %r', p, sel, a.tolist(), e.tolist())
            done.add(k)
            if res is not None:
                compare(res[0], res[1], 'result of ' + k)
                if res[1].n <= (2000 if big else 40):
                    pool.append(res)
                    if len(pool) > 6:
                        pool.pop(d.int(0, 5))
            for i, (x, y) in enumerate(pool):
                compare(x, y, 'bundle %d after %s' % (i, k))
    finally:
        d.note('properties', names)
        d.note('history', log)
    for k in done:
        d.event(k)
    d.nontrivial(len(done & {'inherit', 'delete', 'add', 'concat', 'set', 'set some'}) >= 3 and any(p in USER for p in names))


def traced(d):
    """User properties follow their rays through a trace."""
    with_idx = d.bool(.7)
    g = scene.Gen(d, optics=scene.ALL_OPTICS if with_idx else ['mirror', 'onesided', 'lambert', 'receiver'])
    spec = g.scene()
    surfs = spec.surfaces()
    rays = scene.gen_rays(d, surfs, g.glass, 9, 30, sc=g.sc)
    n = len(rays)
    names = [k for k in sorted(USER) if d.bool(.6)] or ['wavelength']
    props = dict((k, values(d, k, n)) for k in names)
    reps = d.int(1, 5)
    me = d.choice([0., .05])
    d.note('scene', spec.describe())
    d.note('rays', scene.describe_rays(rays))
    d.note('properties', props)
    kw = dict((k, as_array(k, v)) for k, v in props.items())
    b = scene.to_bundle(rays, **kw)
    if not with_idx:
        from tracer.ray_bundle import RayBundle
        b = RayBundle(vertices=b.get_vertices(), directions=b.get_directions(), energy=b.get_energy(), **kw)
    N.random.seed(d.seed())
    e, v, dd = scene.trace(scene.build(spec, d), b, reps, me)
    prev = props
    prev_n = n
    for k in range(e.tree.num_bunds()):
        t = e.tree[k]
        m = array(t.get_vertices(), (3, None), 'vertices').shape[1]
        par = index_array(t.get_parents(), m, prev_n, 'parents of generation %d' % k) if k else list(range(n))
        cur = dict((p, [prev[p][i] for i in par]) for p in names)
        for p in names:
            if not t.has_property(p):
                bad('generation %d has lost property %s', k, p)
            a = N.asarray(getattr(t, 'get_' + p)())
            x = as_array(p, cur[p])
            if a.shape != x.shape:
                bad('generation %d: property %s has shape %r instead of %r', k, p, a.shape, x.shape)
            if not (a == x).all():
                bad('generation %d: property %s is %r, inherited would be %r', k, p, a.tolist(), x.tolist())
        for p, sh in BASE.items():
            if p == 'ref_index' and not with_idx or (p == 'parents' and k == 0):
                continue
            array(getattr(t, 'get_' + p)(), sh + (m,), 'generation %d: %s' % (k, p))
        prev, prev_n = cur, m
    d.event('generations', e.tree.num_bunds() - 1)
    d.nontrivial(e.tree.num_bunds() > 2)


SUBS = [
    Sub('algebra', algebra, 2600, 60000, 'operation histories on bundles'),
    Sub('typed', lambda d: algebra(d, False, True), 650, 15000, 'the same with integer, float and text properties mixed'),
    Sub('large', lambda d: algebra(d, True), 78, 2000, 'the same with hundreds of rays'),
    Sub('traced', traced, 910, 20000, 'user properties through traces'),
]
