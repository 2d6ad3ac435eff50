"""Tank volumes and wetted areas (fluids/geometry.py)."""
from pyvc.run import spec
from specs.common import abstract, rejected, formula, limit, rate
G_ = G = 'fluids.geometry.'
CT = 1e-6


def tank(S, head=True):
    R, L = S.real('R', .05, 20), S.real('L', .1, 50)
    a = S.real('ar', .02, 3) * R if head else None
    return R, L, a


def level(S, side):
    """w = (R - h)/R, below (w > 0) or above the axis"""
    return S.real('w', .01, .99) if side == 'below' else S.real('w', -.99, -.01)


def section(S, kind, R, a, w):
    """free liquid surface inside one head at height R(1 - w)"""
    m = S.m
    u = m.sqrt(1 - w * w)
    if kind == 'conical':
        return a * R * (u - w * w * m.acosh(1 / abs(w)))
    if kind == 'ellipsoidal':
        return S.pi / 2 * a * R * (1 - w * w)
    if kind == 'guppy':
        return S.const('2') / 3 * a * R * (1 - w) * u


@spec('P24', params=[(k, s) for k in ('conical', 'ellipsoidal', 'guppy') for s in ('below', 'above')])
def horizontal(S, kind, side):
    R, L, a = tank(S)
    w = level(S, side)
    V = lambda w, **k: S.call(G + 'V_horiz_' + kind, 2 * R, L, a, R * (1 - w), **k)
    body = 2 * R * S.m.sqrt(1 - w * w) * L
    head = section(S, kind, R, a, w)
    S.eq(-rate(S, V, w), R * (body + 2 * head), 'the volume grows by the liquid surface', crtol=CT)
    S.eq(-rate(S, lambda w: V(w, headonly=True), w), R * head, 'one head', crtol=CT)


FULL = {'conical': '1/3', 'ellipsoidal': '2/3', 'guppy': '1/3'}


@spec('P24', params=list(FULL))
def horizontal_limits(S, kind):
    """empty, full, beyond, and half full"""
    R, L, a = tank(S)
    w, x = S.real('w', .01, .99), S.real('x', .1, 10)
    V = lambda h, **k: S.call(G + 'V_horiz_' + kind, 2 * R, L, a, h, **k)
    one = formula(S, FULL[kind]) * S.pi * R * R * a
    body = S.pi * R * R * L
    S.eq(V(S.const('0')), 0, 'empty')
    S.eq(V(-x), 0, 'empty below the tank')
    S.eq(V(2 * R), body + 2 * one, 'full', crtol=1e-9)
    S.eq(V(2 * R + x), body + 2 * one, 'full above the tank', crtol=1e-9)
    S.eq(V(2 * R, headonly=True), one, 'full head', crtol=1e-9)
    S.eq(V(R), body / 2 + (one if kind != 'guppy' else (formula(S, '1/3') * S.pi - formula(S, '4/9')) * R * R * a), 'half full', crtol=1e-9)
    if kind != 'guppy':
        S.eq(V(R * (1 - w)) + V(R * (1 + w)), body + 2 * one, 'liquid and vapour fill the tank', crtol=1e-9)


def vtank(S):
    D = S.real('D', .1, 40)
    return D, S.real('ar', .02, 2) * D


def vsection(S, kind, D, a, t):
    """surface at height t*a inside a bottom head of depth a"""
    full = S.pi / 4 * D ** 2
    if kind == 'conical':
        return full * t ** 2
    if kind == 'ellipsoidal':
        return full * (1 - (1 - t) ** 2)
    if kind == 'spherical':         # sphere of radius r through the rim
        r = (a * a + D * D / 4) / (2 * a)
        return S.pi * (2 * r * a * t - a * a * t * t)


VFULL = {'conical': lambda S, D, a: S.pi / 12 * D * D * a, 'ellipsoidal': lambda S, D, a: S.pi / 6 * D * D * a,
         'spherical': lambda S, D, a: S.pi / 6 * a * (3 * D * D / 4 + a * a)}


@spec('P24', params=list(VFULL))
def vertical(S, kind):
    D, a = vtank(S)
    t, x = S.real('t', .01, .99), S.real('x', .01, 50)
    f = G + 'V_vertical_' + kind
    V = lambda t: S.call(f, D, a, a * t)
    S.eq(rate(S, V, t), a * vsection(S, kind, D, a, t), 'inside the head the volume grows by the liquid surface', crtol=CT)
    S.eq(rate(S, lambda x: S.call(f, D, a, a + x), x, .01), S.pi / 4 * D ** 2, 'above the head the volume grows by the bore', crtol=CT)
    S.eq(V(S.const('1')), VFULL[kind](S, D, a), 'head full', crtol=1e-9)
    S.eq(S.call(f, D, a, a + x), VFULL[kind](S, D, a) + S.pi / 4 * D ** 2 * x, 'head and body', crtol=1e-9)
    S.eq(V(S.const('0')), 0, 'empty')
    S.eq(V(-t), 0, 'empty below the tank')
    S.eq(limit(S, V, t, 0) + D ** 3, D ** 3, 'nothing in an almost empty head', crtol=1e-6)
    S.eq(limit(S, V, t, 1), V(S.const('1')), 'continuous at the rim', crtol=1e-6)


@spec('P24', params=list(VFULL))
def vertical_concave(S, kind):
    """the head intrudes into the tank: surface is the bore minus the head's section"""
    D, a = vtank(S)
    t, x = S.real('t', .01, .99), S.real('x', .01, 50)
    f = G + 'V_vertical_%s_concave' % kind
    V = lambda t: S.call(f, D, -a, a * t)
    bore = S.pi / 4 * D ** 2
    S.eq(rate(S, V, t), a * (bore - vsection(S, kind, D, a, 1 - t)), 'beside the head the volume grows by the annulus', crtol=CT)
    S.eq(rate(S, lambda x: S.call(f, D, -a, a + x), x, .01), bore, 'above the head the volume grows by the bore', crtol=CT)
    S.eq(V(S.const('1')), bore * a - VFULL[kind](S, D, a), 'head covered', crtol=1e-9)
    S.eq(S.call(f, D, -a, a + x), bore * (a + x) - VFULL[kind](S, D, a), 'head and body', crtol=1e-9)
    if kind == 'spherical':
        r, u = (a * a + D * D / 4) / (2 * a), 1 - t
        S.eq(V(t), bore * a * t - S.pi * a * a * (r * (1 - u * u) - a * (1 - u ** 3) / 3), 'bore less the part of the head below the level', crtol=1e-6)
    else:
        S.eq(limit(S, V, t, 0) + D ** 3, D ** 3, 'nothing in an almost empty tank', crtol=1e-6)
    if kind != 'spherical':
        S.eq(limit(S, V, t, 1), V(S.const('1')), 'continuous at the crown', crtol=1e-6)
    S.eq(V(S.const('0')), 0, 'empty')
    S.eq(V(-t), 0, 'empty below the tank')


@spec('P24', params=['below', 'above'], factor=True)
def spherical(S, side):
    """spherical cap heads no deeper than half a sphere"""
    R, L = S.real('R', .05, 20), S.real('L', .1, 50)
    b = S.real('ar', .05, .9)
    r, z = (1 + b * b) / (2 * b), (1 - b * b) / (2 * b)     # sphere radius and distance of its centre over R
    w = level(S, side)
    u = S.m.sqrt(1 - w * w)
    V = lambda w, **k: S.call(G + 'V_horiz_spherical', 2 * R, L, b * R, R * (1 - w), **k)
    q2 = r * r - w * w
    head = R * R * (q2 * S.m.atan(2 * b * u / (1 - b) / (1 + b)) - z * u)     # segment of the section circle
    S.eq(-rate(S, lambda w: V(w, headonly=True), w), R * head, 'one head', crtol=1e-4)


@spec('P24', factor=True)
def spherical_limits(S):
    R, L = S.real('R', .05, 20), S.real('L', .1, 50)
    b, x = S.real('ar', .05, .9), S.real('x', .1, 10)
    V = lambda h, b=b, **k: S.call(G + 'V_horiz_spherical', 2 * R, L, b * R, h, **k)
    cap = S.pi / 6 * R ** 3 * b * (3 + b * b)
    body = S.pi * R * R * L
    S.eq(V(S.const('0')), 0, 'empty')
    S.eq(V(-x), 0, 'empty below the tank')
    S.eq(V(2 * R), body + 2 * cap, 'full', crtol=1e-9)
    S.eq(V(2 * R + x), body + 2 * cap, 'full above the tank', crtol=1e-9)
    S.eq(V(2 * R, headonly=True), cap, 'full head', crtol=1e-9)
    S.eq(V(R), body / 2 + cap, 'half full', crtol=1e-9)
    S.eq(V(2 * R, S.const('1')), body + S.const('4') / 3 * S.pi * R ** 3, 'hemispheres', crtol=1e-9)
    t = S.real('t', .01, .99)
    S.eq(V(2 * R * t, S.const('1'), headonly=True), S.pi * R ** 3 * 2 * t * t * (1 - 2 * t / 3), 'hemisphere partly full', crtol=1e-9)


@spec('P24', params=['shallow'])
def spherical_shallow(S, _):
    """heads shallower than a hundredth of the diameter: integral of slice areas"""
    from specs.p18 import capture
    R, L, b, w, x = S.real('R', .05, 20), S.real('L', .1, 50), S.real('ar', .001, .0199), S.real('w', -.99, .99), S.real('xx', .001, .999)
    S.assume(abs(w) > S.const('0.01'))
    r, z = (1 + b * b) / (2 * b), (1 - b * b) / (2 * b)
    if not S.symbolic:
        from scipy.integrate import quad
        import math
        q = quad(lambda y: (lambda q2, u: q2 * math.atan(u / z) - z * u)(r * r - y * y, math.sqrt(1 - y * y)), w, 1)[0]
        return S.eq(S.call(G + 'V_horiz_spherical', 2 * R, L, b * R, R * (1 - w), headonly=True), R ** 3 * q, 'slices', crtol=1e-5)
    seen = capture(S)
    v = S.call(G + 'V_horiz_spherical', 2 * R, L, b * R, R * (1 - w), headonly=True)
    circle = R * R * (S.m.acos(w) - w * S.m.sqrt(1 - w * w))
    S.eq(v, seen['value'] - R * z * circle / 2, 'integral less the cone part')
    S.eq(seen['a'], R * w, 'from the liquid level')
    S.eq(seen['b'], R, 'to the bottom')
    y = w + (1 - w) * x
    f = seen['f'](R * y, *seen['args'])
    S.eq(f, R * R * (r * r - y * y) * S.m.atan(S.m.sqrt(1 - y * y) / z), 'circular sector of the slice')


@spec('P24')
def sphere_and_circle(S):
    R, L, w, x = S.real('R', .05, 20), S.real('L', .1, 50), S.real('w', -.99, .99), S.real('x', .01, 10)
    for n, f, d, full in (('volume of a partly full sphere', 'V_partial_sphere', S.pi * R * R * (1 - w * w), S.const('4') / 3 * S.pi * R ** 3),
                          ('area of a partial sphere', 'SA_partial_sphere', 2 * S.pi * R, 4 * S.pi * R * R),
                          ('circular segment', 'A_partial_circle', 2 * R * S.m.sqrt(1 - w * w), S.pi * R * R)):
        g = lambda h, f=f: S.call(G + f, 2 * R, h)
        S.eq(-rate(S, lambda w: g(R * (1 - w)), w), R * d, n, crtol=CT)
        S.eq(g(2 * R), full, n + ', full', crtol=1e-9)
        S.eq(g(2 * R + x), full, n + ', beyond full', crtol=1e-9)
        S.eq(g(-x), 0, n + ', empty')
        S.eq(g(S.const('0')), 0, n + ', touching')
    side = lambda h: S.call(G + 'SA_partial_cylindrical_body', L, 2 * R, h)
    S.eq(-rate(S, lambda w: side(R * (1 - w)), w) * S.m.sqrt(1 - w * w), 2 * R * L, 'wetted body', crtol=CT)
    S.eq(side(2 * R), 2 * S.pi * R * L, 'wetted body, full', crtol=1e-9)
    S.eq(side(2 * R + x), 2 * S.pi * R * L, 'wetted body, beyond full', crtol=1e-9)
    S.eq(side(-x), 0, 'wetted body, empty')


def tori(S):
    """dish of radius fD joined to a knuckle of radius kD at the angle with sin = (1-2k)/(2(f-k)).
    Free: knuckle radius K, bore less two knuckles M = mK and g fixing that angle"""
    K, m, g = S.real('K', .01, 2), S.real('m', 3, 98), S.real('g', .7, 9)
    den = 2 + 2 * g + g * g
    s, c = 2 * (1 + g) / den, (2 * g + g * g) / den
    D = K * (2 + m)
    F = K * (1 + m * den / (4 * (1 + g)))       # dish radius
    return K, m, D, K / D, F / D, F, F * 2 / den, K * c, c, s


@spec('P24', params=[(f, r) for f in ('', '_concave') for r in (0, 1, 2)], factor=True)
def torispherical_vertical(S, form, region):
    K, m, D, k, f, F, a1, a2, c, s = tori(S)
    V = lambda h: S.call(G + 'V_vertical_torispherical' + form, D, f, k, h)
    bore = S.pi / 4 * D ** 2
    if region == 2:
        x = S.real('x', .01, 20)
        S.eq(rate(S, lambda x: V(a1 + a2 + x), x, .01), bore, 'above the head', crtol=1e-4)
        S.eq(V(S.const('0')), 0, 'empty')
        S.eq(V(-x), 0, 'empty below the tank')
        return
    q = S.real('q', .05, 12)
    t, u = 1 / (1 + q), q / (1 + q)
    dish = lambda y: S.pi * (2 * F * y - y * y)                   # y above the bottom of the dish
    ring = lambda t: S.pi * K * K * (m / 2 + S.m.sqrt(1 - c * c * t * t)) ** 2   # t*a2 below the rim
    dt = lambda q: 1 / (1 + q)
    if form and not region:
        S.eq(-rate(S, lambda q: V(a2 * dt(q)), q), a2 * t * t * (bore - ring(t)), 'beside the knuckle', crtol=1e-4)
    elif form:
        S.eq(-rate(S, lambda q: V(a2 + a1 * dt(q)), q), t * t * a1 * (bore - dish(a1 * u)), 'beside the dish', crtol=1e-4)
    elif not region:
        S.eq(-rate(S, lambda q: V(a1 * dt(q)), q), t * t * a1 * dish(a1 * t), 'inside the dish', crtol=1e-4)
    else:
        S.eq(-rate(S, lambda q: V(a1 + a2 * dt(q)), q), t * t * a2 * ring(u), 'inside the knuckle', crtol=1e-4)


@spec('P24', params=['', '_concave'], factor=True)
def torispherical_joints(S, form):
    """no jump where dish, knuckle and body meet, and nothing in an almost empty head"""
    K, m, D, k, f, F, a1, a2, c, s = tori(S)
    x, q = S.real('x', .01, 20), S.real('q', .05, 12)
    V = lambda h: S.call(G + 'V_vertical_torispherical' + form, D, f, k, h)
    one, two = (a2, a1) if form else (a1, a2)
    low, high = lambda q: q / (1 + q), lambda q: 1 / (1 + q)
    S.eq(limit(S, lambda q: V(one * low(q)), q, 0) + D ** 3, D ** 3, 'starts empty', crtol=1e-6)
    S.eq(limit(S, lambda q: V(one + two * low(q)), q, 0), limit(S, lambda q: V(one * high(q)), q, 0), 'dish and knuckle', crtol=1e-6)
    S.eq(limit(S, lambda x: V(a1 + a2 + x), x, 0), limit(S, lambda q: V(one + two * high(q)), q, 0), 'head and body', crtol=1e-6)


@spec('P24', params=['conical', 'ellipsoidal', 'guppy', 'spherical'], factor=True)
def horizontal_joints(S, kind):
    R, L, a = tank(S)
    if kind == 'spherical':
        a = S.real('b', .05, .9) * R
    w, v = S.real('w', .01, .99), S.real('v', -.99, -.01)
    V = lambda w: S.call(G + 'V_horiz_' + kind, 2 * R, L, a, R * (1 - w))
    size = R * R * (L + a)
    S.eq(limit(S, V, w, 1) + size, size, 'nothing in an almost empty tank', crtol=1e-5)
    S.eq(limit(S, V, v, -1), V(S.const('-1')), 'nothing missing in an almost full tank', crtol=1e-5)
    if kind in ('ellipsoidal', 'guppy'):
        S.eq(limit(S, V, w, 0), V(S.const('0')), 'no jump at half full', crtol=1e-6)


def captures(S):
    """quadrature contract, one record per integral"""
    seen = []

    def q(orig, f, a, b, args=(), **k):
        seen.append((f, a, b, args, S.e.fresh('integral')))
        return seen[-1][-1], 0.0
    S.stub('fluids.numerics.lazy_quad', q)
    S.e.contracts_used.add('fluids.numerics.quad: the integral of its integrand over its limits')
    return seen


def slices(K, m, D, F, s, c, a1, a2, w):
    """volume of a head below the distance w under the axis, by slices across its depth"""
    from math import acos, sqrt
    from scipy.integrate import quad

    def seg(n):
        return 0. if w >= n else acos(-1.) * n * n if w <= -n else n * n * acos(w / n) - w * sqrt(n * n - w * w)
    kn = lambda d: seg(K * (m / 2 + sqrt(max(1 - d * d / K / K, 0))))
    di = lambda z: seg(sqrt(max(F * F - z * z, 0)))
    cut = [x for x in (K * sqrt(max(1 - (abs(w) / K - m / 2) ** 2, 0)),) if 0 < x < a2] if abs(w) > K * m / 2 else []
    z = [x for x in (sqrt(max(F * F - w * w, 0)),) if F - a1 < x < F]
    return quad(kn, 0, a2, points=cut or None, limit=200)[0] + quad(di, F - a1, F, points=z or None, limit=200)[0]


@spec('P24', params=['knuckle', 'dish', 'top'], factor=True)
def torispherical_horizontal(S, region):
    """circular segments of the knuckle and of the dish; K, m and g as in `tori`"""
    K, m, D, k, f, F, a1, a2, c, s = tori(S)
    L = S.real('L', .1, 50)
    p, t = S.real('p', .05, 10), S.real('t', .02, .98)
    n0, G = K * m / 2, K * (m / 2 + s)              # centre circle of the knuckle, rim of the dish
    if region == 'dish':
        w = G * (p - 1) / (p + 1)
    else:
        w = K * (m / 2 + (s + p) / (1 + p))         # distance of the level from the axis
    if region == 'top':
        w = -w
    V = S.call(G_ + 'V_horiz_torispherical', D, L, f, k, D / 2 - w, headonly=True) if not S.symbolic else None
    if not S.symbolic:
        return S.eq(V, slices(K, m, D, F, s, c, a1, a2, w), 'slices', crtol=1e-5)
    seen = captures(S)
    V = S.call(G_ + 'V_horiz_torispherical', D, L, f, k, D / 2 - w, headonly=True)

    def part(n, w):
        return n * n * S.m.asin(S.m.sqrt(n * n - w * w) / n) - w * S.m.sqrt(n * n - w * w)

    def knuckle(rec, w, label):
        """segments of the knuckle circles from the rim to where they leave the liquid"""
        fn, a, b, args, v = rec
        y = w / K - m / 2
        S.eq(a, 0, label + ' from the rim')
        S.eq(b, K * S.m.sqrt((1 - y) * (1 + y)), label + ' to the depth where it ends')
        d = y + (1 - y) * t
        n = n0 + K * d
        S.eq(fn(K * S.m.sqrt((1 - d) * (1 + d)), *args), part(n, w), label + ' slice')
        return v

    def middle(rec, w, label):
        fn, a, b, args, v = rec
        S.eq(a, 0, label + ' from the rim')
        S.eq(b, K * c, label + ' to the dish')
        d = s + (1 - s) * t
        n = n0 + K * d
        S.eq(fn(K * S.m.sqrt((1 - d) * (1 + d)), *args),
             n * n * (S.m.acos(w / n) - S.m.acos(G / n)) - w * S.m.sqrt(n * n - w * w) + G * S.m.sqrt(n * n - G * G), label + ' slice')
        return v
    if region == 'knuckle':
        return S.eq(V, knuckle(seen[0], w, 'knuckle'), 'sum')
    rim = knuckle(seen[0], G, 'knuckle below the dish')
    if region == 'dish':
        mid = middle(seen[1], w, 'knuckle')
        fn, a, b, args, v = seen[2]
        S.eq(a, w, 'dish from the level')
        S.eq(b, G, 'dish to its rim')
        y, z = G * (p - 1 + 2 * t) / (p + 1), F * c
        S.eq(fn(y, *args), (F * F - y * y) * S.m.atan(2 * G * S.m.sqrt((1 - t) * (p + t)) / (1 + p) / z), 'sector of the dish')
        cone = z / 2 * (G * G * S.m.acos(w / G) - w * S.m.sqrt(G * G - w * w))
        return S.eq(V, rim + mid + v - cone, 'sum')
    out = knuckle(seen[1], -w, 'knuckle above the level')
    mid = middle(seen[2], -G, 'knuckle')
    S.eq(V, 2 * rim - out + mid + S.pi / 6 * a1 * (3 * G * G + a1 * a1), 'sum')


@spec('P24')
def circle_segment(S):
    D = S.real('D', .01, 100)
    q = S.real('fill', 1e-4, .9999)
    A = S.pi / 4 * D ** 2 * q
    h = S.call(G_ + 'circle_segment_h_from_A', A, D)
    R = D / 2
    S.eq(R * R * S.m.acos((R - h) / R) - (R - h) * S.m.sqrt(2 * R * h - h * h), A, 'level of that area', crtol=1e-7)


HEADS = ('none', 'conical', 'ellipsoidal', 'spherical', 'torispherical', 'guppy')


class Heads:
    """two heads, their keywords and the volume functions as unknown functions"""

    def __init__(self, S, A, B, horizontal):
        self.S, self.h = S, horizontal
        self.D, self.L = S.real('D', .1, 40), S.real('L', .1, 50)
        self.kinds = (A, B)
        same = '' if A != B or A == 'none' else S.pick('same', ['fk', 'f', 'k'] if A == 'torispherical' else ['a', ''])
        self.kw = dict(horizontal=horizontal)
        self.par, self.depth = [], []
        for i, (side, kind) in enumerate(zip('AB', self.kinds)):
            prev = self.par[0] if i and A == B else {}
            d = {}

            def own(x, lo, hi):
                if not prev:
                    return S.real('%s%d' % (x, i), lo, hi)
                return prev[x] * (1 if x in same else S.real(x + 'ratio', 1.02, 1.2))
            if kind == 'torispherical':
                d = dict(f=own('f', .8, 1.2), k=own('k', .03, .15))
                if not horizontal:
                    d['a'] = S.call(G_ + 'a_torispherical', self.D, d['f'], d['k'])
                self.kw.update({'side%s_%s' % (side, x): d[x] for x in 'fk'})
                if i and not horizontal:       # the depth is optional
                    self.kw['side%s_a' % side] = d['a']
            elif kind != 'none':
                d = dict(a=own('a', .02, 2))
                S.assume(d['a'] < self.D / 2)
                self.kw['side%s_a' % side] = d['a']
            if kind != 'none':
                self.kw['side' + side] = kind
            self.par.append(d)
            self.depth.append(d.get('a', 0))
        self.abstractions([k for k in HEADS[1:] if k in (A, B) and (horizontal or k != 'guppy')])

    def abstractions(self, kinds):
        for kind in kinds:
            abstract(self.S, self.fun(kind), ignore=('L',) if self.h else (), positive=True)

    def fun(self, kind):
        return G_ + 'V_%s_%s' % ('horiz' if self.h else 'vertical', kind)

    def part(self, i, h):
        """liquid inside head i at level h above its own bottom"""
        kind, p = self.kinds[i], self.par[i]
        if kind == 'none':
            return 0
        own = (p['f'], p['k']) if kind == 'torispherical' else (p['a'],)
        if self.h:
            return self.S.call(self.fun(kind), self.D, self.L, *own, h, headonly=True)
        return self.S.call(self.fun(kind), self.D, *own, h)


@spec('P24', params=[(o, a) for o in ('horizontal', 'vertical') for a in HEADS if (o, a) != ('vertical', 'guppy')])
def tank_volume(S, orientation, A):
    B = S.pick('B', [b for b in HEADS if (orientation, b) != ('vertical', 'guppy')])
    H = Heads(S, A, B, orientation == 'horizontal')
    tot, a, b, body = S.call(G_ + 'V_tank', H.D, H.L, **H.kw)
    ea = H.part(0, H.D if H.h else H.depth[0])
    eb = H.part(1, H.D if H.h else H.depth[1])
    S.eq(a, ea, 'first head')
    S.eq(b, eb, 'second head')
    S.eq(body, S.pi / 4 * H.D ** 2 * H.L, 'body', crtol=1e-9)
    S.eq(tot, ea + eb + S.pi / 4 * H.D ** 2 * H.L, 'total', crtol=1e-9)


@spec('P24', params=HEADS)
def level_horizontal(S, A):
    B = S.pick('B', HEADS)
    H = Heads(S, A, B, True)
    D, w = H.D, S.real('w', -.99, .99)
    R = D / 2
    V = lambda h: S.call(G_ + 'V_from_h', h, D, H.L, **H.kw)
    h = R * (1 - w)
    S.eq(V(h), H.part(0, h) + H.part(1, h) + R * R * (S.m.acos(w) - w * S.m.sqrt(1 - w * w)) * H.L, 'heads and body', crtol=1e-8)
    S.eq(V(D), S.call(G_ + 'V_tank', D, H.L, **H.kw)[0], 'full tank', crtol=1e-9)
    S.eq(V(D * (1 + S.real('x', .01, 2))), S.call(G_ + 'V_tank', D, H.L, **H.kw)[0], 'level above the tank', crtol=1e-9)


@spec('P24', params=[h for h in HEADS if h != 'guppy'])
def level_vertical(S, A):
    B = S.pick('B', [h for h in HEADS if h != 'guppy'])
    H = Heads(S, A, B, False)
    a, b = H.depth
    bore, t = S.pi / 4 * H.D ** 2, S.real('t', .01, .99)
    V = lambda h: S.call(G_ + 'V_from_h', h, H.D, H.L, **H.kw)
    S.assume(a >= 0)
    S.assume(b >= 0)
    if A != 'none':
        S.assume(a > 0)
        S.eq(V(a * t), H.part(0, a * t), 'inside the lower head')
    one = H.part(0, a)
    S.eq(V(a + H.L * t), one + bore * H.L * t, 'in the body', crtol=1e-9)
    if B != 'none':
        S.assume(b > 0)
        S.eq(V(a + H.L + b * t), one + bore * H.L + H.part(1, b) - H.part(1, b * (1 - t)), 'inside the upper head', crtol=1e-8)
        S.eq(V(a + H.L + b * (1 + t)), one + bore * H.L + H.part(1, b) - H.part(1, S.const('0')), 'level above the tank', crtol=1e-8)
    else:
        S.eq(V(a + H.L * (1 + t)), one + bore * H.L, 'level above the tank', crtol=1e-9)


@spec('P24')
def unsupported(S):
    D, L, a, x = S.real('D', .1, 40), S.real('L', .1, 50), S.real('a', .1, 2), S.real('t', .1, .9)
    for f, lead in (('V_tank', ()), ('V_from_h', (D * x,))):
        for side in 'AB':
            for hor in (True, False):
                kw = {'side' + side: 'dome', 'side%s_a' % side: a, 'horizontal': hor}
                rejected(S, S.attempt(G_ + f, *lead, D, L, **kw), '%s refuses an unknown head' % f)
                for miss in ('f', 'k'):
                    kw = {'side' + side: 'torispherical', 'side%s_%s' % (side, 'k' if miss == 'f' else 'f'): S.const('0.1' if miss == 'f' else '1'), 'horizontal': hor}
                    rejected(S, S.attempt(G_ + f, *lead, D, L, **kw), '%s needs both f and k' % f)


@spec('P24', factor=True)
def torispherical_depth(S):
    K, m, D, k, f, F, a1, a2, c, s = tori(S)
    S.eq(S.call(G_ + 'a_torispherical', D, f, k), a1 + a2, 'dish and knuckle', crtol=1e-8)
