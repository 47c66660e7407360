"""Comparing two traces of the same rays, ray by ray."""
from vt import scene, ref
from vt.ref import dist, norm
from vt.common import bad


def pair_up(a, b, ta, tb, tol):
    """Pairs of corresponding rays of two lists, or None."""
    if len(a) != len(b):
        return None
    left = list(b)
    out = []
    for x in a:
        for y in left:
            if dist(x.o, y.o) <= tol * max(1., norm(x.o)) and dist(x.d, y.d) <= tol \
                    and abs(x.e - y.e) <= tol * max(abs(x.e), 1e-12) + 1e-15 and abs(x.n - y.n) <= 1e-12:
                out.append((x, y))
                left.remove(y)
                break
        else:
            return None
    return out


def kids_of(levels):
    """{id(ray): children} for a list of levels"""
    out = {}
    for k in range(len(levels) - 1):
        for r, js in zip(levels[k], scene.by_parent(levels[k + 1], len(levels[k]))):
            out[id(r)] = [levels[k + 1][j] for j in js]
    for r in levels[-1]:
        out[id(r)] = []
    return out


def decided(surfs, r, first):
    """Whether what happens to this ray next is beyond rounding."""
    if first:
        h = scene.first_hit(surfs, r.o, r.d)
    else:
        w = scene.where_from(surfs, r.o)
        if w is None:
            return False
        h = scene.first_hit(surfs, r.o, r.d, scene.relevance(surfs, surfs[w].obj))
    if h == 'undecided':
        return False
    if h is None:
        return True
    if h.c.terr > 1e-9 or abs(h.c.t) > 1e3:
        return False
    n = h.surf.normal_world(h.c, r.d)
    c = abs(ref.dot(n, r.d))
    if c < 1e-3:
        return False
    if h.surf.optics.kind == 'onesided' and abs(ref.dot(r.d, h.surf.frame.z())) < 1e-9:
        return False
    if h.surf.optics.kind == 'refract':
        # near-critical incidence amplifies rounding
        n1, n2 = h.surf.optics.n
        other = n2 if r.n == n1 else n1
        if abs((r.n / other) ** 2 * (1 - c * c) - 1) < 1e-4:
            return False
    return True


def same(d, surfs, ra, ka, rb, kb, what, me, weak_ok=1e-9):
    """The subtrees of ray ra (children in ka) and rb (in kb) agree; violation if not and the ray was decided."""
    stack = [(ra, rb, True)]
    n = 0
    while stack:
        a, b, first = stack.pop()
        n += 1
        x, y = ka[id(a)], kb[id(b)]
        if not x and not y:
            continue
        # a ray with energy within rounding of the threshold may be followed in one and dropped in the other
        if not first and abs(a.e - me) <= weak_ok * max(me, 1e-9) and a.e != b.e:
            d.event('at the threshold')
            continue
        p = pair_up(x, y, ka, kb, 1e-7)
        if p is None:
            if decided(surfs, a, first):
                bad('%s: a ray from %r along %r (energy %r, index %r) has descendants %r in one trace, %r in the other', what, a.o, a.d,
                    a.e, a.n, [(c.o, c.d, c.e, c.n) for c in x], [(c.o, c.d, c.e, c.n) for c in y])
            d.event('differs by rounding, not judged')
            continue
        for c, e in p:
            if dist(c.o, e.o) > 1e-10 * max(1., norm(c.o)) or dist(c.d, e.d) > 1e-10:
                d.event('drifted apart by rounding, not followed')
                continue
            stack.append((c, e, False))
    return n
