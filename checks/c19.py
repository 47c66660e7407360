"""C19: heliostats send the sun to the tower."""
import math
import numpy as N
from vt import scene, ref, gen
from vt.ref import dot, scale, add, sub, norm, dist, unit, along
from vt.common import Sub, array, bad, close

ID = 'C19'
RULE = ('Heliostat fields of 1-9 heliostats (drawn or from radial_stagger), any dimensions, absorptivity and aim height, through histories of '
        'aiming, changing the aim height and tracing; at each stage rays from the sun (or from above and below before aiming) strike '
        'every heliostat at its centre and elsewhere. Sun vectors over all angles and radial_stagger over random '
        'parameters against the stated formulae. Non-trivial: an aimed heliostat whose ray was judged, or a layout of two rows.')
ASSUMPTIONS = ['a sun exactly opposite the tower (sun and target directions adding to less than 1e-2) defines no aim',
               'the sense (clockwise or not) of azimuths is not judged; azimuth 0 is east (-Y), as the code\'s local coordinates have it',
               'positions of a layout within 1e-9 of its outer borders may be in or out',
               'the field stands in the world frame (aiming a field inside a moved container is not defined)']


def sun_of(az, el):
    from tracer.models.heliostat_field import solar_vector
    return tuple(array(solar_vector(az, el), (3,), 'solar vector').tolist())


def angles(d):
    az = d.weighted([(1, 0.), (1, math.pi / 2), (5, None)])
    if az is None:
        az = d.unif(-math.pi, 2 * math.pi)
    el = d.weighted([(1, 0.), (1, math.pi / 4), (5, None)])
    if el is None:
        el = d.unif(0., 1.6)
    return az, el


def strike(field, rays):
    """Per ray, its children in one step through the field. rays: (start, direction, energy)."""
    e, a, b = scene.trace(field, gen.bundle([r[:2] for r in rays], [r[2] for r in rays], [1.] * len(rays)), 1, 0.)
    lv = scene.read_tree(e.tree)
    if len(lv) == 1:
        return [[] for _ in rays]
    return [[lv[1][j] for j in js] for js in scene.by_parent(lv[1], len(rays))]


def height(d):
    return d.pos_real(1., 100.) if d.bool(.85) else d.choice([0., -1., -20., .3])


def field(d):
    from tracer.models.heliostat_field import HeliostatField, radial_stagger
    th = height(d)
    if d.bool(.3):
        xy = radial_stagger(-math.pi / 4, math.pi / 4 + 1e-3, math.pi / 5, 8., 25., 6.)
        P = [(float(a), float(b), 0.) for a, b in xy][:9]
    else:
        P = []
        if d.bool(.03):
            n, gap = d.int(5, 13), d.unif(3., 9.)
            P = [(gap * i + 20., gap * (j - n / 2.), 0.) for i in range(n) for j in range(n)]
            d.event('large field')
        while not len(P) > 9 and d.more(len(P), 3, 1, 9):
            P.append((d.real(-60., 60.), d.real(-60., 60.), d.weighted([(2, 0.), (1, None)]) or d.unif(-3., 5.)))
    w, h = d.pos_real(.2, 6.), d.pos_real(.2, 6.)
    a = d.choice([0., .1, .35])
    whole = d.bool(.15)
    if whole:
        P = [tuple(float(round(x)) for x in p) for p in P]
    arr = N.array(P, dtype=int if whole else float)
    d.note('positions', P)
    d.note('size', [w, h, a])
    d.note('aim height', th)
    f = HeliostatField(arr, w, h, a, th)
    hs = f.get_heliostats()
    if len(hs) != len(P):
        bad('%d heliostats at %d positions', len(hs), len(P))
    log = []
    if d.bool(.5):
        # facing down
        rays, what = [], []
        for i, p in enumerate(P):
            for up in (True, False):
                v = unit((d.unif(-1., 1.), d.unif(-1., 1.), -1. if up else 1.))
                rays.append((along(p, v, -.05), v, 2.))
                what.append((i, p, up))
        for k, (i, p, up) in zip(strike(f, rays), what):
            if len(k) != 1 or not dist(k[0].o, p) <= 1e-6 * max(1., norm(p)):
                if len(P) == 1:
                    bad('before aiming, a ray towards the centre of the only heliostat does not strike it there')
                d.event('blocked')
                continue
            want = 0. if up else 2. * (1 - a)
            if not abs(k[0].e - want) <= 1e-9:
                bad('before aiming, a ray of energy 2 striking heliostat %d (at %r) from %s has %r left, expected %r', i, p,
                    'above' if up else 'below', k[0].e, want)
            d.event('parked, judged')
    stages = d.int(1, 4)
    suns, heights = [], [th]
    for s in range(stages):
        if d.bool(.4):
            th = d.choice(heights) if d.bool(.3) else height(d)
            heights.append(th)
            f.set_aim_height(th)
            log.append(['aim height', th])
        if any(dist((0., 0., th), p) < 1e-2 for p in P):
            d.event('heliostat at the target')
            continue
        az, el = d.choice(suns) if suns and d.bool(.4) else angles(d)
        suns.append((az, el))
        log.append(['aim', az, el])
        d.note('history', log)
        sun = sun_of(az, el)
        if not abs(norm(sun) - 1) <= 1e-7:
            bad('solar vector %r is not of unit length', sun)
        f.aim_to_sun(az, el)
        if not (arr == N.array(P)).all():
            bad('aiming altered the given positions')
        rays, what = [], []
        for i, p in enumerate(P):
            to = sub((0., 0., th), p)
            L = norm(to)
            to = unit(to)
            if norm(add(to, sun)) < 1e-2:
                d.event('no aim defined')
                continue
            T = hs[i].get_transform()
            if not dist(tuple(T[:3, 3].tolist()), p) <= 1e-9 * max(1., norm(p)):
                bad('heliostat %d moved from %r to %r', i, p, T[:3, 3].tolist())
            en = d.choice([1., 3.])
            v = scale(sun, -1.)
            n = unit(add(sun, to))
            t = unit(ref.cross(n, (.36, .48, .8)))
            q = along(p, t, .3 * min(w, h))
            rays.append((along(p, sun, d.choice([.05, 1., 20.])), v, en))
            rays.append((along(q, sun, .03), v, en))
            what.append((i, p, q, L, to, en))
        if not rays:
            continue
        kids = strike(f, rays)
        for j, (i, p, q, L, to, en) in enumerate(what):
            k = kids[2 * j]
            if len(k) != 1 or not dist(k[0].o, p) <= 1e-6 * max(1., norm(p)):
                # another heliostat in the way
                if len(P) == 1:
                    bad('a ray from the sun towards the centre of the only heliostat does not strike it there')
                d.event('blocked')
                continue
            c = k[0]
            miss = norm(ref.cross(sub((0., 0., th), c.o), unit(c.d)))
            nz = unit(add(sun, to))
            slack = 1e-10 + min(1e-7, 1e-14 / (math.hypot(nz[0], nz[1]) + 1e-12))   # an aim by its arc cosine
            if not miss <= slack * max(L, norm(p), 1.) / norm(add(sun, to)) or not dot(c.d, to) > 0:
                bad('heliostat %d at %r, sun along %r (azimuth %r, elevation %r): the ray to its centre leaves along %r and misses the '
                    'target at height %r by %r', i, p, sun, az, el, c.d, th, miss)
            if not abs(c.e - en * (1 - a)) <= 1e-9:
                bad('heliostat %d reflects %r of the energy %r with absorptivity %r', i, c.e, en, a)
            # elsewhere on the mirror the same plane reflects to the same direction
            k = kids[2 * j + 1]
            if len(k) == 1 and dist(k[0].o, q) <= 1e-6 * max(1., norm(p)):
                if not dist(k[0].d, to) <= 1e-6:
                    bad('heliostat %d is not flat: off its centre it reflects along %r', i, k[0].d)
                d.event('off centre')
            elif len(P) == 1:
                bad('a ray from the sun towards %r, on the only heliostat, does not strike it there', q)
            d.event('aimed, judged')
            d.nontrivial()


def sun(d):
    az, el = d.unif(-7., 7.), d.weighted([(1, 0.), (6, None), (1, math.pi / 2), (1, math.pi)])
    if el is None:
        el = d.unif(0., math.pi)
    d.note('azimuth, elevation', [az, el])
    v = sun_of(az, el)
    if not abs(norm(v) - 1) <= 1e-7:
        bad('solar vector %r is not of unit length', v)
    if not abs(v[2] - math.cos(el)) <= 1e-9:
        bad('solar vector %r at %r from the vertical', v, el)
    s = math.sin(el)
    if not abs(v[1] + math.cos(az) * s) <= 1e-7 or not abs(abs(v[0]) - abs(math.sin(az)) * s) <= 1e-7:
        bad('solar vector %r for azimuth %r from east, %r from the vertical', v, az, el)
    # one sense of turning throughout
    u = sun_of(az + math.pi / 2, el)
    c = v[0] * u[1] - v[1] * u[0]
    q = sun_of(0., math.pi / 2)
    r = sun_of(math.pi / 2, math.pi / 2)
    c0 = q[0] * r[1] - q[1] * r[0]
    if s > 1e-3 and not (c > 0) == (c0 > 0):
        bad('the azimuth turns the other way at %r', az)
    d.nontrivial(s > 1e-3)


def stagger(d):
    from tracer.models.heliostat_field import radial_stagger
    a0 = d.real(-3., 3.)
    sp = d.pos_real(.05, 1.)
    a1 = a0 + d.unif(.01, 3.)
    r0 = d.real(.5, 30.)
    dr = d.pos_real(.5, 8.)
    r1 = r0 + d.unif(.1, 40.)
    d.note('start, end, spacing', [a0, a1, sp])
    d.note('radii', [r0, r1, dr])
    P = array(radial_stagger(a0, a1, sp, r0, r1, dr), (None, 2), 'layout').tolist()
    want, soft = [], []
    i = 0
    while r0 + i * dr < r1 + 1e-9:
        j = i % 2
        while a0 + j * sp / 2. < a1 + 1e-9:
            r, a = r0 + i * dr, a0 + j * sp / 2.
            edge = abs(r - r1) <= 1e-9 or abs(a - a1) <= 1e-9
            (soft if edge else want).append((r, a))
            j += 2
        i += 1
    rows = i

    def fit(sign):
        left = list(P)
        for lst, must in ((want, True), (soft, False)):
            for r, a in lst:
                x, y = r * math.cos(a), sign * r * math.sin(a)
                best = None
                for q in left:
                    if abs(q[0] - x) + abs(q[1] - y) <= 1e-7 * max(1., r):
                        best = q
                        break
                if best is None:
                    if must:
                        return 'no heliostat at radius %r, angle %r' % (r, a)
                else:
                    left.remove(best)
        if left:
            return 'a heliostat at %r, where none belongs' % (left[0],)
        return None
    w = fit(1.)
    if w is not None and fit(-1.) is not None:
        bad('%s', w)
    d.nontrivial(rows > 1 and len(want) > 3)
    d.event('rows', rows)


SUBS = [
    Sub('field', field, 2700, 20000, 'aiming histories'),
    Sub('sun', sun, 4500, 30000, 'solar vector'),
    Sub('stagger', stagger, 2100, 15000, 'layout'),
]
