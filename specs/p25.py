"""Wetted areas of tanks (fluids/geometry.py)."""
from pyvc.run import spec
from specs.common import abstract, rejected, limit, rate, bound, akey
from specs.p24 import tori, Heads, HEADS, tank, CT
G = 'fluids.geometry.'


@spec('P25')
def cone(S):
    R, L, a = tank(S)
    t, w, x = S.real('t', .01, .99), S.real('w', -.99, .99), S.real('x', .01, 3)
    full = S.pi * R * S.m.sqrt(R * R + a * a)
    S.eq(S.call(G + 'SA_conical_head', 2 * R, a), full, 'slant area')
    v = lambda t: S.call(G + 'SA_partial_vertical_conical_head', 2 * R, a, a * t)
    S.eq(v(t), full * t * t, 'similar cones')
    S.eq(v(S.const('1')), full, 'full')
    S.eq(v(1 + x), full, 'full above')
    S.eq(v(-x), 0, 'dry below')
    h = lambda w: S.call(G + 'SA_partial_horiz_conical_head', 2 * R, a, R * (1 - w))
    S.eq(h(w), full / (S.pi * R * R) * R * R * (S.m.acos(w) - w * S.m.sqrt(1 - w * w)), 'slope times the circular segment', crtol=1e-7)
    S.eq(h(-1 - x), full, 'horizontal, full above')
    S.eq(h(1 + x), 0, 'horizontal, dry below')


@spec('P25')
def guppy(S):
    D, a = S.real('D', .1, 40), S.real('a', .05, 20)
    S.eq(S.call(G + 'SA_guppy_head', D, a), S.pi * D / 4 * (S.m.sqrt(a * a + D * D) + 2 * a), 'closed form')


@spec('P25', params=['flat', 'deep', 'round'], factor=True)
def ellipsoid(S, shape):
    """depth b radii, sqrt|1 - b^2| rational"""
    R, p, v = S.real('R', .05, 20), S.real('p', .1, .9), S.real('v', .01, .99)
    c = (1 - p * p) / (1 + p * p)
    b = {'flat': 2 * p / (1 + p * p), 'deep': (1 + p * p) / (2 * p), 'round': S.const('1')}[shape]
    a, x = b * R, S.real('x', .01, 3)
    A = lambda v: S.call(G + 'SA_partial_vertical_ellipsoidal_head', 2 * R, a, a * (1 - v))
    S.eq(-rate(S, A, v), 2 * S.pi * R * R * S.m.sqrt(v * v + (1 - v * v) * b * b), 'surface of revolution', crtol=1e-5)
    S.eq(limit(S, A, v, 1) + R * R, R * R, 'starts dry', crtol=1e-6)
    S.eq(A(-x), A(S.const('0')), 'full above')
    S.eq(A(1 + x), 0, 'dry below')
    e = c
    if shape == 'flat':
        full = S.pi * R * R * (1 + b * b / (2 * e) * S.m.log((1 + e) / (1 - e)))
    elif shape == 'deep':
        e = c / 1
        full = S.pi * R * R * (1 + b / e * S.m.asin(e))
    else:
        full = 2 * S.pi * R * R
    S.eq(A(S.const('0')), full, 'half ellipsoid', crtol=1e-7)
    S.eq(S.call(G + 'SA_ellipsoidal_head', 2 * R, a), full, 'head area', crtol=1e-7)


@spec('P25')
def sphere(S):
    R, L, a = tank(S)
    t, x = S.real('t', .01, .99), S.real('x', .01, 3)
    A = lambda t: S.call(G + 'SA_partial_vertical_spherical_head', 2 * R, a, a * t)
    full = S.pi * (a * a + R * R)
    S.eq(A(t), full * t, 'zone of a sphere')
    S.eq(A(1 + x), full, 'full above')
    S.eq(A(-x), 0, 'dry below')


@spec('P25', params=['vertical_conical', 'vertical_ellipsoidal', 'vertical_spherical'])
def flat_end(S, kind):
    D, h = S.real('D', .1, 40), S.real('h', 1e-3, 40)
    S.eq(S.call(G + 'SA_partial_%s_head' % kind, D, S.const('0'), h), S.pi / 4 * D * D, 'a head without depth is a disc')


@spec('P25', params=['slices', 'limits'], factor=True)
def sphere_horizontal(S, what):
    from specs.p24 import captures
    R, b = S.real('R', .05, 20), S.real('ar', .02, .98)
    w, x, t = S.real('w', -.99, .99), S.real('x', .01, 3), S.real('t', .01, .99)
    A = lambda w, b=b: S.call(G + 'SA_partial_horiz_spherical_head', 2 * R, b * R, R * (1 - w))
    if what == 'limits':
        one = S.const('1')
        S.eq(A(w, one), S.pi * R * R * (1 - w), 'hemisphere')
        S.eq(A(1 + x, one), 0, 'hemisphere, dry below')
        S.eq(A(-1 - x, one), 2 * S.pi * R * R, 'hemisphere, full above')
        return S.eq(A(1 + x), 0, 'dry below')
    r = (1 + b * b) / (2 * b)
    if not S.symbolic:
        from math import asin, sqrt
        from scipy.integrate import quad
        v = quad(lambda y: 2 * r * asin(min(1, sqrt((1 - y * y) / (r * r - y * y)))), w, 1)[0]
        return S.eq(A(w), R * R * v, 'zones', crtol=1e-5)
    seen = captures(S)
    v = A(w)
    f, lo, hi, args, val = seen[0]
    S.eq(lo, R * w, 'from the level')
    S.eq(hi, R, 'to the bottom')
    y = w + (1 - w) * t
    S.assume(abs(y) > S.const('0.01'))
    S.eq(S.m.sin(f(R * y, *args)), S.m.sqrt((1 - y * y) / (r * r - y * y)), 'half angle of the arc')
    S.eq(v, 2 * r * R * val, 'sphere diameter times the angles')
    v = A(-1 - x)
    f, lo, hi, args, val = seen[-1]
    S.eq(lo, -R, 'full above')


@spec('P25', params=['flat', 'deep'])
def ellipsoid_horizontal(S, shape):
    """slices across the level: elliptic integral of the second kind"""
    from specs.p24 import captures
    R, w, t, x = S.real('R', .05, 20), S.real('w', -.99, .99), S.real('t', .01, .99), S.real('x', .01, 3)
    b = S.real('b', .05, .95) if shape == 'flat' else S.real('b', 1.05, 3)
    A = lambda w: S.call(G + 'SA_partial_horiz_ellipsoidal_head', 2 * R, b * R, R * (1 - w))
    S.eq(A(1 + x), 0, 'dry below')
    if not S.symbolic:
        from math import cos, pi, sin, sqrt
        from scipy.integrate import quad
        c = 1 - b * b
        g = lambda y: quad(lambda p: sqrt(1 - c * y * y - c * (1 - y * y) * sin(p) ** 2), 0, pi / 2)[0]
        return S.eq(A(w), 2 * R * R * quad(g, w, 1)[0], 'slices', crtol=1e-5)
    seen = captures(S)
    ell = []

    def E(orig, m):
        ell.append((m, S.e.fresh('ellipe')))
        return ell[-1][1]
    S.mod('geometry').ellipe = lambda m: E(None, m)
    S.e.contracts_used.add('ellipe(m): the integral of sqrt(1 - m sin^2) over a quarter turn')
    v = A(w)
    f, lo, hi, args, val = seen[0]
    S.eq(lo, R * w, 'from the level')
    S.eq(hi, R, 'to the bottom')
    S.eq(v, 2 * val / R, 'both halves')
    y = w + (1 - w) * t
    S.assume(abs(y) > S.const('0.01'))
    c = 1 - b * b
    s = f(R * y, *args)
    S.eq(s, R * R * S.m.sqrt(1 - c * y * y) * ell[-1][1], 'arc length times slope')
    S.eq(ell[-1][0], c * (1 - y * y) / (1 - c * y * y), 'parameter of the elliptic integral')


@spec('P25', params=['dish', 'knuckle', 'ends'], factor=True)
def torispherical_vertical(S, region):
    K, m, D, k, f, F, a1, a2, c, s = tori(S)
    q, x = S.real('q', .05, 12), S.real('x', .01, 20)
    A = lambda h: S.call(G + 'SA_partial_vertical_torispherical_head', D, f, k, h)
    if region == 'dish':
        S.eq(A(a1 / (1 + q)), 2 * S.pi * F * a1 / (1 + q), 'zone of a sphere', crtol=1e-6)
        S.eq(A(-x), 0, 'dry below')
    elif region == 'knuckle':
        t = lambda q: 1 / (1 + q)
        g = lambda q: A(a1 + a2 * q / (1 + q))
        S.eq(rate(S, g, q), 2 * S.pi * K * (1 + m / 2 / S.m.sqrt(1 - c * c * t(q) ** 2)) * a2 * t(q) ** 2, 'zone of a torus', crtol=1e-4)
    else:
        S.eq(limit(S, lambda q: A(a1 + a2 * q / (1 + q)), q, 0), 2 * S.pi * F * a1, 'joint', crtol=1e-6)
        full = 2 * S.pi * (F * a1 + K * (a2 + K * m / 2 * S.m.asin(c)))
        S.eq(A(a1 + a2 + x), full, 'full above', crtol=1e-7)
        S.eq(S.call(G + 'SA_torispheroidal', D, f, k), full, 'head area', crtol=1e-7)


@spec('P25', params=['complement'], factor=True)
def torispherical_horizontal(S, _):
    K, m, D, k, f, F, a1, a2, c, s = tori(S)
    w, x = S.real('w', .02, .98), S.real('x', .01, 3)
    A = lambda h: S.call(G + 'SA_partial_horiz_torispherical_head', D, f, k, h)
    S.eq(A(-x), 0, 'dry below')
    full = 2 * S.pi * (F * a1 + K * (a2 + K * m / 2 * S.m.asin(c)))
    if not S.symbolic:
        return S.eq(A(D / 2 * (1 - w)) + A(D / 2 * (1 + w)), full, 'wetted and dry make the head', crtol=1e-6)
    inner = []

    def once(orig, *p, **kw):
        inner.append((bound(orig, p, kw), S.e.fresh('dry')))
        return orig(*p, **kw) if len(inner) == 1 else inner[-1][1]
    S.stub(G + 'SA_partial_horiz_torispherical_head', once)
    VV = A(D / 2 * (1 + w))
    S.eq(VV, full - inner[1][1], 'head less its dry part', crtol=1e-6)
    S.eq(inner[1][0]['h'], D / 2 * (1 - w), 'dry part')
    for n, v in dict(D=D, f=f, k=k).items():
        S.eq(inner[1][0][n], v, 'same head')


class Areas(Heads):
    """wetted area functions of the heads as unknown functions"""

    def __init__(self, S, A, B, horizontal, total=False):
        self.total = total
        super().__init__(S, A, B, horizontal)

    def fun(self, kind):
        if self.total:
            return G + ('SA_torispheroidal' if kind == 'torispherical' else 'SA_%s_head' % kind)
        return G + 'SA_partial_%s_%s_head' % ('horiz' if self.h else 'vertical', kind)

    def abstractions(self, kinds):
        for kind in kinds:
            if not (self.total and kind == 'spherical'):
                abstract(self.S, self.fun(kind), positive=True)

    def part(self, i, h):
        S, kind, p = self.S, self.kinds[i], self.par[i]
        own = (p['f'], p['k']) if kind == 'torispherical' else (p.get('a'),)
        if self.total:
            if kind == 'none':
                return S.pi / 4 * self.D ** 2
            if kind == 'spherical':
                return S.pi * (p['a'] ** 2 + self.D ** 2 / 4)
            return S.call(self.fun(kind), self.D, *own)
        if kind == 'none':
            return None
        return S.call(self.fun(kind), self.D, *own, h)


@spec('P25', params=HEADS)
def tank_area(S, A):
    B = S.pick('B', HEADS)
    H = Areas(S, A, B, True, total=True)
    tot, a, b, body = S.call(G + 'SA_tank', H.D, H.L, **{k: v for k, v in H.kw.items() if k != 'horizontal'})
    ea, eb, side = H.part(0, None), H.part(1, None), S.pi * H.D * H.L
    S.eq(a, ea, 'first head', crtol=1e-9)
    S.eq(b, eb, 'second head', crtol=1e-9)
    S.eq(body, side, 'body', crtol=1e-9)
    S.eq(tot, ea + eb + side, 'total', crtol=1e-9)


@spec('P25', params=HEADS)
def level_horizontal(S, A):
    B = S.pick('B', HEADS)
    H = Areas(S, A, B, True)
    D, w, x = H.D, S.real('w', -.99, .99), S.real('x', .01, 2)
    R = D / 2
    SA = lambda h: S.call(G + 'SA_from_h', h, D, H.L, **H.kw)
    seg = R * R * (S.m.acos(w) - w * S.m.sqrt(1 - w * w))
    h = R * (1 - w)
    disc = [(i, p) for i, p in ((0, H.part(0, h)), (1, H.part(1, h)))]
    S.eq(SA(h), sum(seg if p is None else p for _, p in disc) + 2 * R * S.m.acos(w) * H.L, 'heads or flat ends, and body', crtol=1e-8)
    S.eq(SA(D * (1 + x)), sum(S.pi * R * R if p is None else p for p in (H.part(0, D), H.part(1, D))) + 2 * S.pi * R * H.L, 'level above the tank', crtol=1e-7)


@spec('P25', params=[h for h in HEADS if h != 'guppy'])
def level_vertical(S, A):
    B = S.pick('B', [h for h in HEADS if h != 'guppy'])
    H = Areas(S, A, B, False)
    a, b = H.depth
    disc, t = S.pi / 4 * H.D ** 2, S.real('t', .01, .99)
    SA = lambda h: S.call(G + 'SA_from_h', h, H.D, H.L, **H.kw)
    side = S.pi * H.D * H.L
    S.assume(a >= 0)
    S.assume(b >= 0)
    if A != 'none':
        S.assume(a > 0)
        S.eq(SA(a * t), H.part(0, a * t), 'inside the lower head')
    one = disc if A == 'none' else H.part(0, a)
    S.eq(SA(a + H.L * t), one + side * t, 'in the body', crtol=1e-9)
    if B != 'none':
        S.assume(b > 0)
        S.eq(SA(a + H.L + b * t), one + side + H.part(1, b) - H.part(1, b * (1 - t)), 'inside the upper head', crtol=1e-8)
        S.eq(SA(a + H.L + b * (1 + t)), one + side + H.part(1, b) - H.part(1, S.const('0')), 'level above the tank', crtol=1e-8)
    else:
        S.eq(SA(a + H.L * (1 + t)), one + side + disc, 'full, with the top', crtol=1e-9)


@spec('P25')
def unsupported(S):
    D, L, a, t = S.real('D', .1, 40), S.real('L', .1, 50), S.real('a', .1, 2), S.real('t', .1, .9)
    f = G + 'SA_from_h'
    for side in 'AB':
        for hor in (True, False):
            rejected(S, S.attempt(f, D * t, D, L, **{'side' + side: 'dome', 'side%s_a' % side: a, 'horizontal': hor}), 'an unknown head is refused')
        for miss in ('f', 'k'):
            kw = {'side' + side: 'torispherical', 'side%s_%s' % (side, 'k' if miss == 'f' else 'f'): S.const('0.1' if miss == 'f' else '1')}
            rejected(S, S.attempt(f, D * t, D, L, **kw), 'f and k are both needed')
            rejected(S, S.attempt(G + 'SA_tank', D, L, **kw), 'f and k are both needed for the whole tank')


@spec('P25', bounded='sampled heads and levels', concrete=True, params=['torispherical'])
def horizontal_slices(S, kind):
    """against slices integrated numerically"""
    if S.symbolic:
        return
    from math import asin, acos, sqrt, pi
    from scipy.integrate import quad
    w = S.real('w', -.95, .95)
    K, m, D, k, f, F, a1, a2, c, s = tori(S)
    y0 = w * D / 2
    # dish: zones of a sphere; knuckle: zones of a torus
    ring = lambda z, y0: 0. if y0 >= z else 2 * pi * z if y0 <= -z else 2 * z * acos(y0 / z)
    dish = quad(lambda u: ring(sqrt(max(F * F - u * u, 0)), y0) * F / sqrt(F * F - u * u), F - a1, F * (1 - 1e-12), limit=400)[0]
    knuckle = quad(lambda p: ring(K * m / 2 + K * sqrt(1 - p * p), y0) / sqrt(1 - p * p) * K, 0, c, limit=400)[0]
    S.eq(S.call(G + 'SA_partial_horiz_torispherical_head', D, f, k, D / 2 - y0), dish + knuckle, 'slices', crtol=1e-5)


@spec('P25', bounded='sampled heads and levels', concrete=True, params=['guppy'])
def guppy_slices(S, _):
    """z = a (1 + y/R)/2 (1 - x^2/(R^2 - y^2)): straight in the symmetry plane, parabolas across"""
    if S.symbolic:
        return
    from math import sqrt
    from scipy.integrate import dblquad
    R, a, t, x = S.real('R', .1, 10), S.real('ar', .1, 3), S.real('t', .05, .95), S.real('x', .01, 3)
    S.assume(abs(a - 1) > .01)
    z = lambda x, y: sqrt(1 + (a * x / (1 - y)) ** 2 + (a / 2 * (1 - (x / (1 - y)) ** 2)) ** 2)
    v = 2 * R * R * dblquad(z, -1, 2 * t - 1, 0, lambda y: sqrt(1 - y * y), epsrel=1e-8)[0]
    A = lambda h: S.call(G + 'SA_partial_horiz_guppy_head', 2 * R, a * R, h)
    S.eq(A(2 * R * t), v, 'slices', crtol=1e-5)
    S.eq(A(-x), 0, 'dry below')
    S.eq(A(2 * R + x), A(2 * R), 'full above')
