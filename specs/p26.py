"""Equipment geometry (fluids/geometry.py): tanks, coils, plate and finned exchangers, cooling towers, air coolers, solids."""
from pyvc.run import spec
from specs.common import abstract, rejected, bound, formula
G = 'fluids.geometry.'
DEPTH = ['conical', 'ellipsoidal', 'spherical']


def heads(S):
    """volumes and areas of the heads as unknown functions of their arguments"""
    for q in ('a_torispherical', 'V_vertical_conical', 'V_vertical_ellipsoidal', 'V_vertical_spherical', 'V_vertical_torispherical', 'V_horiz_conical', 'V_horiz_ellipsoidal',
              'V_horiz_guppy', 'V_horiz_spherical', 'V_horiz_torispherical', 'SA_conical_head', 'SA_ellipsoidal_head', 'SA_guppy_head', 'SA_torispheroidal'):
        abstract(S, G + q, positive=True)


def reported(S, t, D, L, hor, A, B, deep):
    """everything a tank reports follows from its dimensions and head depths"""
    kw, a = {}, [0, 0]
    for i, (side, head) in enumerate((('A', A), ('B', B))):
        if head:
            kw['side' + side] = head[0]
            if head[0] == 'torispherical':
                kw['side%s_f' % side], kw['side%s_k' % side] = head[1:]
                a[i] = S.call(G + 'a_torispherical', D, *head[1:])
            else:
                a[i] = head[1]
            kw['side%s_a' % side] = a[i]
    S.eq(t.D, D, 'diameter', crtol=1e-7)
    S.eq(t.L, L, 'length', crtol=1e-7)
    S.eq(t.L_over_D, L / D, 'length to diameter', crtol=1e-7)
    S.eq(t.R, D / 2, 'radius', crtol=1e-7)
    for x, v in (('sideA_a', a[0]), ('sideB_a', a[1])):
        S.eq(getattr(t, x), v, x, crtol=1e-7)
        S.eq(getattr(t, x + '_ratio'), v / D, x + ' ratio', crtol=1e-7)
    S.eq(t.h_max, D if hor else L + a[0] + a[1], 'highest level', crtol=1e-7)
    S.check((t.horizontal, t.vertical, t.orientation, t.angle) == ((True, False, 'horizontal', 0) if hor else (False, True, 'vertical', 90)), 'orientation')
    if not deep:
        return kw
    V = S.call(G + 'V_tank', D, L, horizontal=hor, **kw)
    SA = S.call(G + 'SA_tank', D, L, **kw)
    for n, e in zip(('V_total', 'V_sideA', 'V_sideB', 'V_lateral'), V):
        S.eq(getattr(t, n), e, n, crtol=1e-7)
    for n, e in zip(('A', 'A_sideA', 'A_sideB', 'A_lateral'), SA):
        S.eq(getattr(t, n), e, n, crtol=1e-7)
    S.eq(t.A_sideA_extra + S.pi / 4 * D ** 2, SA[1], 'extra area of the first head', crtol=1e-6)
    S.eq(t.A_sideB_extra + S.pi / 4 * D ** 2, SA[2], 'extra area of the second head', crtol=1e-6)
    return kw


def head(S, kind, side, D, how):
    """keyword arguments of one head and its resolved form"""
    s = 'side' + side
    if kind == 'none':
        return {}, None
    if kind == 'torispherical':
        f, k = S.real('f' + side, .8, 1.2), S.real('k' + side, .03, .15)
        given = {'fk': dict(f=f, k=k), 'f': dict(f=f), 'k': dict(k=k), 'default': {}}[how]
        kw = {s: kind}
        kw.update({'%s_%s' % (s, x): v for x, v in given.items()})
        return kw, (kind, given.get('f', S.const('1')), given.get('k', S.const('0.06')))
    r = S.real('r' + side, .02, .45)
    kw = {s: kind}
    if how == 'a':
        kw[s + '_a'] = r * D
    elif how == 'ratio':
        kw[s + '_a_ratio'] = r
    else:
        r = S.const('0.25')
    return kw, (kind, r * D)


def ways(kind):
    return ['fk', 'f', 'k', 'default'] if kind == 'torispherical' else ['-'] if kind == 'none' else ['a', 'ratio', 'default']


KINDS = ['none', 'conical', 'ellipsoidal', 'guppy', 'spherical', 'torispherical']


@spec('P26', params=[(o, k) for o in ('horizontal', 'vertical') for k in KINDS if (o, k) != ('vertical', 'guppy')])
def tank(S, orient, A):
    """dimensions given as any two of D, L, L/D; heads by depth, ratio, factors or default"""
    heads(S)
    hor = orient == 'horizontal'
    D, q = S.real('D', .1, 40), S.real('q', .2, 10)
    L = D * q
    dims = S.pick('dims', ['DL', 'Dq', 'Lq'])
    kw = {'DL': dict(D=D, L=L), 'Dq': dict(D=D, L_over_D=q), 'Lq': dict(L=L, L_over_D=q)}[dims]
    how = S.pick('how', ways(A))
    ka, ha = head(S, A, 'A', D, how)
    B = S.pick('B', [k for k in KINDS if hor or k != 'guppy'] if dims == 'DL' and how == ways(A)[0] else ['none'] if A == 'none' else ['none', 'torispherical'])
    if dims == 'DL' and S.flag('swap'):
        kb, hb = head(S, B, 'B', D, ways(B)[-1])
    else:
        kb, hb = head(S, B, 'B', D, ways(B)[0])
    if not hor:
        kw['horizontal'] = False
    t = S.call(G + 'TANK', **kw, **ka, **kb)
    reported(S, t, D, L, hor, ha, hb, True)


@spec('P26', params=[(h, k) for h in (True, False) for k in KINDS[1:] if h or k != 'guppy'])
def same_heads(S, hor, kind):
    heads(S)
    D, L = S.real('D', .1, 40), S.real('L', .1, 50)
    how = S.pick('how', ways(kind))
    side = S.pick('side', ['A', 'B'])
    other = {'A': 'B', 'B': 'A'}[side]
    k, h = head(S, kind, side, D, how)
    t = S.call(G + 'TANK', D=D, L=L, horizontal=hor, **k, **{'side' + other: 'same'})
    reported(S, t, D, L, hor, h, h, False)
    S.check(t.sideA == kind and t.sideB == kind, 'both heads of the one kind')
    rejected(S, S.attempt(G + 'TANK', D=D, L=L, horizontal=hor, sideA='same', sideB='same'), 'both heads same as the other')


@spec('P26', params=[(h, k) for h in (True, False) for k in KINDS if h or k != 'guppy'])
def tank_for_volume(S, hor, kind):
    """the missing dimension makes the tank hold the requested volume"""
    heads(S)
    D0, q = S.real('D', .1, 40), S.real('q', .5, 6)
    how = S.pick('how', [w for w in ways(kind) if w != 'a'])
    V = S.real('V', 1, 1e4)
    given = S.pick('given', ['D', 'L', 'q'])
    S.root_domain = (1e-3, 1e4)
    k1, h1 = head(S, kind, 'A', D0, how)
    if given == 'D':
        if not S.symbolic:
            V = V / 1e4 * 40 * D0 ** 3 + 3 * D0 ** 3
        kw = dict(D=D0)
    elif given == 'L':
        kw = dict(L=D0)
        if not S.symbolic:
            V = V / 1e4 * 2 * D0 ** 3 + .1 * D0 ** 3
    else:
        kw = dict(L_over_D=q)
    t = S.call(G + 'TANK', V=V, horizontal=hor, **kw, **k1)
    S.eq(t.V_total, V, 'holds the volume', crtol=1e-6)
    for n, v in kw.items():
        S.eq(getattr(t, {'D': 'D', 'L': 'L', 'L_over_D': 'L_over_D'}[n]), v, 'the given dimension is kept', crtol=1e-9)
    h2 = h1 if h1 is None or kind == 'torispherical' else (kind, h1[1] / D0 * t.D)
    reported(S, t, t.D, t.L, hor, h2, None, True)


@spec('P26')
def tank_for_volume_refused(S):
    heads(S)
    D, L, q, V, r = S.real('D', .1, 40), S.real('L', .1, 50), S.real('q', .2, 10), S.real('V', .1, 1e4), S.real('r', .05, .4)
    kind = S.pick('kind', ['none'] + DEPTH)
    kw = {} if kind == 'none' else dict(sideA=kind, sideA_a_ratio=r)
    for two in (dict(D=D, L=L), dict(D=D, L_over_D=q), dict(L=L, L_over_D=q)):
        rejected(S, S.attempt(G + 'TANK', V=V, **two, **kw), 'a volume and two dimensions')
    for side in 'AB':
        rejected(S, S.attempt(G + 'TANK', V=V, L=L, **{'side' + side: 'conical', 'side%s_a' % side: r}), 'a volume, a length and a head depth')


@spec('P26', params=[(h, k) for h in (True, False) for k in KINDS if h or k != 'guppy'])
def thicker(S, hor, kind):
    """the outside of a tank with walls"""
    heads(S)
    D, L = S.real('D', .1, 40), S.real('L', .1, 50)
    x, y, z = S.real('x', .001, .1), S.real('y', .001, .1), S.real('z', .001, .1)
    own = S.pick('own', ['', 'A', 'B', 'AB'])
    B = S.pick('B', ['none', kind])
    (ka, ha), (kb, hb) = head(S, kind, 'A', D, ways(kind)[0]), head(S, B, 'B', D, ways(B)[0])
    t = S.call(G + 'TANK', D=D, L=L, horizontal=hor, **ka, **kb)
    ta, tb = y if 'A' in own else x, z if 'B' in own else x
    kw = {}
    if 'A' in own:
        kw['sideA_thickness'] = y
    if 'B' in own:
        kw['sideB_thickness'] = z
    n = t.add_thickness(x, **kw)

    def grown(h, w):
        return None if h is None else h if h[0] == 'torispherical' else (h[0], h[1] + w)
    S.check((n.sideA, n.sideB) == (t.sideA, t.sideB), 'same heads')
    reported(S, n, D + 2 * x, L + ta + tb, hor, grown(ha, ta), grown(hb, tb), False)


@spec('P26', params=[(h, k) for h in (True, False) for k in KINDS if h or k != 'guppy'])
def levels(S, hor, kind):
    """levels, volumes and areas of a tank object are those of its dimensions"""
    heads(S)
    D, L, h, V = S.real('D', .1, 40), S.real('L', .1, 50), S.real('h', .01, 1), S.real('V', .05, .95)
    B = S.pick('B', ['none', kind])
    (ka, ha), (kb, hb) = head(S, kind, 'A', D, ways(kind)[0]), head(S, B, 'B', D, ways(B)[0])
    for q in ('V_from_h', 'SA_from_h'):
        abstract(S, G + q, positive=True)
    t = S.call(G + 'TANK', D=D, L=L, horizontal=hor, **ka, **kb)
    kw = reported(S, t, D, L, hor, ha, hb, False)
    h = h * t.h_max
    S.eq(t.V_from_h(h), S.call(G + 'V_from_h', h, D, L, hor, **full(kw)), 'volume')
    S.eq(t.SA_from_h(h), S.call(G + 'SA_from_h', h, D, L, hor, **full(kw)), 'wetted area')
    V = V * t.V_total if not S.symbolic else V
    y = t.h_from_V(V, 'brenth')
    S.le(0, y, 'level not negative')
    S.le(y, t.h_max, 'level not above the tank')
    S.eq(S.call(G + 'V_from_h', y, D, L, hor, **full(kw)), V, 'level holds the volume', crtol=1e-6)
    for f in (t.V_from_h, t.SA_from_h, t.h_from_V):
        try:
            f(h, 'nonsense')
        except ValueError:
            continue
        S.check(False, 'unknown methods are refused')
    S.eq(t.A_cross_sectional(0.0), 0, 'no cross-section when empty')
    S.eq(t.A_cross_sectional(t.h_max), 0, 'no cross-section when full')


def full(kw):
    d = dict(sideA=None, sideB=None, sideA_a=0.0, sideB_a=0.0, sideA_f=None, sideA_k=None, sideB_f=None, sideB_k=None)
    d.update(kw)
    return d


@spec('P26')
def coil(S):
    """any two of turns, pitch, height; centre or outside dimensions"""
    Dt, x, N, y, z = S.real('Dt', .005, .5), S.real('x', .01, 40), S.real('N', .5, 60), S.real('y', .01, 20), S.real('z', .05, .95)
    Do, pitch, Di = Dt * (1 + x), Dt * (1 + y), Dt * z
    H = N * pitch
    kw = dict(Do=Do) if S.flag('centre') else dict(Do_total=Do + Dt)
    hk = dict(H=H) if S.flag('middle') else dict(H_total=H + Dt)
    kw.update({'Np': dict(N=N, pitch=pitch), 'NH': dict(N=N, **hk), 'pH': dict(pitch=pitch, **hk)}[S.pick('two', ['Np', 'NH', 'pH'])])
    inside = S.flag('inside')
    if inside:
        kw['Di'] = Di
    c = S.call(G + 'HelicalCoil', Dt, **kw)
    length = S.m.sqrt((S.pi * Do * N) ** 2 + H ** 2)
    want = dict(Dt=Dt, Do=Do, Do_total=Do + Dt, N=N, pitch=pitch, H=H, H_total=H + Dt, tube_circumference=S.pi * Do, tube_length=length, surface_area=S.pi * Dt * length,
                helix_angle=S.m.atan(pitch / (S.pi * Do)), curvature=Dt / Do / (1 + 4 * (pitch / Do) ** 2), total_inlet_area=S.pi / 4 * Dt ** 2, total_volume=S.pi / 4 * Dt ** 2 * length)
    if inside:
        want.update(Di=Di, inner_surface_area=S.pi * Di * length, inlet_area=S.pi / 4 * Di ** 2, inner_volume=S.pi / 4 * Di ** 2 * length, annulus_area=S.pi / 4 * (Dt ** 2 - Di ** 2),
                    annulus_volume=S.pi / 4 * (Dt ** 2 - Di ** 2) * length)
    for n, v in want.items():
        S.eq(getattr(c, n), v, n, crtol=1e-9)


@spec('P26')
def coil_refused(S):
    Dt, x, N, y = S.real('Dt', .005, .5), S.real('x', .01, 40), S.real('N', .5, 60), S.real('y', .01, .95)
    Do, pitch = Dt * (1 + x), Dt * y
    f = G + 'HelicalCoil'
    for kw in (dict(N=N, pitch=pitch), dict(N=N, H=N * pitch), dict(pitch=pitch, H=N * pitch), dict(N=N, H_total=N * pitch + Dt)):
        rejected(S, S.attempt(f, Dt, Do=Do, **kw), 'colliding turns')
    ok = Dt * (1 + x)
    rejected(S, S.attempt(f, Dt, Do=Dt * y, N=N, pitch=ok), 'tube wider than the coil')
    for kw in ({}, dict(N=N), dict(pitch=ok), dict(H=ok), dict(H_total=ok)):
        rejected(S, S.attempt(f, Dt, Do=Do, **kw), 'underspecified')
    rejected(S, S.attempt(f, Dt, N=N, pitch=ok), 'coil diameter missing')


@spec('P26')
def plates(S):
    """elliptic integral E(m) = integral of sqrt(1 - m sin^2): the enlargement is that of one wave"""
    a, lam = S.real('a', 1e-4, .05), S.real('lam', 1e-4, .1)
    b1, b2 = S.real('b1', 1, 89), S.real('b2', 1, 89)
    W, L, t, dp, n = S.real('W', .05, 5), S.real('L', .05, 10), S.real('t', 1e-4, .01), S.real('dp', .01, 1), S.real('n', 3, 500)
    memo = []

    def ellipe(orig, m):
        if not S.symbolic:
            return orig(m)
        if not memo:
            memo.append((m, S.e.fresh('ellipe')))
            S.e.or_.setbox(memo[0][1].val, 1., float('inf'))
            S.e.contracts_used.add('ellipe (scipy): abstracted as some function of its argument with values of at least 1')
        S.eq(m, memo[0][0], 'one wave')
        return memo[0][1]
    S.stub('fluids.numerics.ellipe', ellipe)
    phi = S.call(G + 'plate_enlargement_factor', a, lam)
    if S.symbolic:
        S.eq(memo[0][0], -(2 * S.pi * a / lam) ** 2, 'steepness of the wave')
        S.eq(phi, 2 / S.pi * memo[0][1], 'length of a wave over its projection')
    else:
        from scipy.integrate import quad
        from math import cos, pi, sqrt
        s = 2 * pi * a / lam
        S.eq(phi, quad(lambda u: sqrt(1 + (s * cos(2 * pi * u)) ** 2), 0, 1, points=[.25, .75], limit=200)[0], 'length of a wave', crtol=1e-7)
    two = S.flag('two')
    kw = dict(chevron_angles=(b1, b2)) if two else dict(chevron_angle=b1) if S.flag('angle') else {}
    beta = (b1 + b2) / 2 if two else kw.get('chevron_angle', 45)
    f = G + 'PlateExchanger'
    p = S.call(f, a, lam, width=W, length=L, thickness=t, d_port=dp, plates=n, **kw)
    want = dict(a=a, amplitude=a, b=2 * a, wavelength=lam, pitch=lam, chevron_angle=beta, beta=beta, inclination_angle=90 - beta, plate_corrugation_aspect_ratio=4 * a / lam, gamma=4 * a / lam,
                plate_enlargement_factor=phi, D_eq=4 * a, D_hydraulic=4 * a / phi, width=W, length=L, thickness=t, d_port=dp, plates=n, length_port=L + dp, A_plate_surface=L * W * phi,
                A_heat_transfer=(n - 2) * L * W * phi, A_channel_flow=W * 2 * a, channels=n - 1, channels_per_fluid=(n - 1) / 2)
    for x, v in want.items():
        S.eq(getattr(p, x), v, x)
    for i in (0, 1):
        S.eq(p.chevron_angles[i], (b1, b2)[i] if two else beta, 'chevron angles')
    m = S.call(f, a, lam, **kw)
    for x in ('D_eq', 'D_hydraulic', 'gamma', 'plate_enlargement_factor', 'inclination_angle'):
        S.eq(getattr(m, x), want[x], 'without dimensions: ' + x)
    S.eq(S.call(f, a, lam, width=W, length=L, **kw).A_plate_surface, want['A_plate_surface'], 'without ports')


@spec('P26', params=['straight', 'offset'])
def fins(S, kind):
    t, x, y, l = S.real('t', 1e-4, .005), S.real('x', .2, 50), S.real('y', 1.2, 50), S.real('l', .001, .2)
    h, s = t * (1 + x), t * (1 + y)
    n = S.pick('n', [1, 7, 100])
    L, W, N, tp = S.real('L', .1, 5), n * s, S.pick('N', [1, 12]), S.real('tp', 1e-4, .01)
    f, lead = (G + 'RectangularFinExchanger', ()) if kind == 'straight' else (G + 'RectangularOffsetStripFinExchanger', (l,))
    p = S.call(f, *lead, h, t, s, length=L, width=W, layers=N, plate_thickness=tp)
    P = 2 * (s - t) + 2 * (h - t)
    A = (s - t) * (h - t)
    want = dict(h=h, t=t, s=s, fin_height=h, fin_thickness=t, fin_spacing=s, fin_count=1 / s, A_channel=A, P_channel=P, L=L, length=L, W=W, width=W, layers=N, plate_thickness=tp,
                layer_thickness=h + tp)
    if kind == 'straight':
        want.update(channel_height=h - t, channel_width=s - t, blockage_ratio=(s * h - s * t - t * (h - t)) / (s * h), Dh=4 * A / P)
    else:
        full = 2 * (l * (h - t) + l * (s - t) + t * (h - t)) + t * (s - 2 * t)
        want.update(fin_length=l, l=l, alpha=s / h, delta=t / l, gamma=t / s, A=full, Dh=4 * l * A / full, Dh_Kays_London=4 * A / P,
                    Dh_Joshi_Webb=2 * l * (h - t) * (s - 2 * t) / (l * (h - t) + l * (s - t) + t * (h - t)), blockage_ratio_Kim=t / h + t / s - t ** 2 / (h * s))
    want.update(height=N * (h + tp) + tp, volume=L * W * (N * (h + tp) + tp))
    for q, v in want.items():
        S.eq(getattr(p, q), v, q)
    S.check(p.flow == 'crossflow', 'flow')
    # fins of the width given, whole numbers of them
    k = p.layer_fin_count
    S.eq(p.A_HX_layer, k * P * L, 'layer area')
    S.eq(p.A_HX, N * k * P * L, 'area')
    S.eq(p.A_specific_HX, N * k * P * L / (L * W * (N * (h + tp) + tp)), 'specific area')
    if S.symbolic:
        S.eq(k, n, 'fins across the width')
    else:
        S.eq(k, n, 'fins across the width')
    q = S.call(f, *lead, h, t, s)
    S.eq(q.Dh, want['Dh'], 'fin geometry alone')


@spec('P26')
def cooling_tower(S):
    """two hyperbolas through inlet, base, throat and outlet"""
    Ht, u, v, Dt, p, q = S.real('Ht', 10, 200), S.real('u', .01, .6), S.real('v', 1.05, 3), S.real('Dt', 5, 120), S.real('p', 1.02, 3), S.real('q', 1.02, 3)
    Hi, Ho, Do, Di = u * Ht, v * Ht, q * Dt, p * Dt
    f = G + 'HyperbolicCoolingTower'
    how = S.pick('how', ['inlet', 'base', 'throat height', 'throat diameter', 'both'])
    kw = dict(H_inlet=Hi, D_outlet=Do, H_outlet=Ho)
    if how in ('throat height', 'both'):
        Ht = S.const('2') / 3 * Ho
        Hi = u * Ht
        kw['H_inlet'] = Hi
    else:
        kw['H_throat'] = Ht
    if how in ('throat diameter', 'both'):
        Dt = S.const('0.63') * Di
        S.assume(Do > Dt * 1.01)
    else:
        kw['D_throat'] = Dt
    kw['D_base' if how == 'base' else 'D_inlet'] = Di
    c = S.call(f, **kw)
    S.eq(c.H_throat, Ht, 'throat height')
    S.eq(c.D_throat, Dt, 'throat diameter')
    d = c.diameter
    S.eq(d(Ho), Do, 'outlet diameter', crtol=1e-8)
    S.eq(d(Ht), Dt, 'diameter at the throat')
    S.eq(d(Hi), c.D_inlet, 'inlet diameter', crtol=1e-8)
    S.eq(d(0), c.D_base, 'base diameter', crtol=1e-8)
    S.eq(c.D_base if how == 'base' else c.D_inlet, Di, 'as given')
    z = S.real('z', .01, .99)
    # a hyperbola: squares of the diameter grow with the square of the distance from the throat
    lo, up = z * Ht, Ht + z * (Ho - Ht)
    S.eq(d(lo) ** 2 - Dt ** 2, (c.D_base ** 2 - Dt ** 2) * (1 - z) ** 2, 'lower hyperbola', crtol=1e-6)
    S.eq(d(up) ** 2 - Dt ** 2, (Do ** 2 - Dt ** 2) * z ** 2, 'upper hyperbola', crtol=1e-6)
    rejected(S, S.attempt(f, Hi, Do, Ho), 'no diameter given')
    rejected(S, S.attempt(f, Hi, Do, Ho, D_throat=Dt), 'neither inlet nor base')
    rejected(S, S.attempt(f, Hi, Do, Ho, D_base=Di), 'no throat to go with the base')


PAIRS = ['angle pitch', 'angle normal', 'angle parallel', 'normal pitch', 'parallel pitch', 'parallel normal']


def layout(S):
    """any two of angle, pitch, normal and parallel pitch, from the tangent of half the angle"""
    q, w = S.real('q', .01, .5), S.real('w', .05, .9)
    return q * (1 + w * w), S.m.atan(2 * w / (1 - w * w)) * 180 / S.pi, q * 2 * w, q * (1 - w * w)


@spec('P26', params=PAIRS, factor=True)
def pitches(S, pair):
    p, ang, n, par = layout(S)
    val = dict(angle=ang, pitch=p, normal=n, parallel=par)
    name = dict(angle='angle', pitch='pitch', normal='pitch_normal', parallel='pitch_parallel')
    r = S.call(G + 'pitch_angle_solver', **{name[x]: val[x] for x in pair.split()})
    for got, x in zip(r, ('angle', 'pitch', 'parallel', 'normal')):
        S.eq(got, val[x], x, crtol=1e-7)
    for x in val:
        rejected(S, S.attempt(G + 'pitch_angle_solver', **{name[x]: val[x]}), 'one alone is not enough')
    rejected(S, S.attempt(G + 'pitch_angle_solver'), 'nothing given')


@spec('P26', params=[30, 45, 60, 90, 'custom'])
def air_cooler(S, angle):
    rows, passes = S.pick('rowspasses', [(4, 4), (4, 2), (6, 4), (3, 1), (1, 1)])
    n, bays, bundles, fans = S.real('n', 1, 100), S.real('bays', 1, 10), S.real('bundles', 1, 6), S.real('fans', 1, 3)
    Lt, D, x, tf, u = S.real('Lt', .5, 20), S.real('D', .01, .1), S.real('x', .05, 1), S.real('tf', 1e-4, 1e-3), S.real('u', 1.5, 20)
    g, r, tw = S.real('g', 1.2, 4), S.real('r', .02, .4), S.real('tw', .01, .4)
    hf, interval = D * x, tf * u
    pitch = D * g
    th = S.real('th', 10, 80) if angle == 'custom' else angle
    if angle == 'custom':
        for a in (30, 45, 60):
            S.assume(abs(th - a) > .01) if not S.symbolic else S.assume((th - a) ** 2 > 1e-4)
    kw = dict(angle=th)
    kw.update(dict(pitch=pitch) if S.flag('pitch') else dict(pitch_ratio=g))
    kw.update(dict(fin_height=hf) if S.flag('height') else dict(fin_diameter=D + 2 * hf))
    kw.update(dict(fin_density=1 / interval) if S.flag('density') else dict(fin_interval=interval))
    corbels, inner = S.flag('corbels'), S.flag('inner')
    if inner:
        kw['tube_thickness'] = tw * D
    f = G + 'AirCooledExchanger'
    c = S.call(f, rows, passes, n, Lt, D, tf, parallel_bays=bays, bundles_per_bay=bundles, fans_per_bay=fans, corbels=corbels, **kw)
    m = S.m
    rad = th * S.pi / 180
    pn, pp = pitch * m.sin(rad), pitch * m.cos(rad)
    diag = m.sqrt(pp ** 2 + (pn / 2) ** 2)
    dens = 1 / interval
    fd = D + 2 * hf
    want = dict(tube_rows=rows, tube_passes=passes, tubes_per_row=n, tube_length=Lt, tube_diameter=D, fin_thickness=tf, angle=th, pitch=pitch, pitch_ratio=g, pitch_parallel=pp, pitch_normal=pn,
                pitch_diagonal=diag, fin_height=hf, fin_diameter=fd, fin_interval=interval, fin_density=dens, bare_length=interval - tf,
                tubes_per_bundle=n * rows, tubes_per_bay=n * rows * bundles, tubes=n * rows * bundles * bays)
    per = {'_per_tube': 1, '_per_row': n, '_per_bundle': n * rows, '_per_bay': n * rows * bundles, '': n * rows * bundles * bays}
    bare = S.pi * D * Lt
    show = bare * (1 - tf / interval)
    afin = S.pi / 2 * (fd ** 2 - D ** 2) + S.pi * fd * tf
    fin = dens * Lt * afin
    want['A_per_fin'] = afin
    for suffix, k in per.items():
        want['A_bare_tube' + suffix] = bare * k
        want['A_tube_showing' + suffix] = show * k
        want['A_fin' + suffix] = fin * k
        want['A' + suffix] = (show + fin) * k
        if inner:
            Di = D - 2 * tw * D
            want['tube_volume' + suffix] = S.pi / 4 * Di ** 2 * Lt * k
            want['A_tube_flow' + {'': '_total', '_per_tube': ''}.get(suffix, suffix)] = S.pi / 4 * Di ** 2 * k
    if inner:
        want['Di'] = Di
    else:
        S.check(all(getattr(c, a) is None for a in ('Di', 'A_tube_flow', 'tube_volume')), 'no inside without a wall thickness')
    want['A_increase'] = (show + fin) / bare
    gap = 2 * dens * hf * tf
    ad, an = 2 * n * Lt * (diag - D - gap), n * Lt * (pn - D - gap)
    face = pn * Lt * (n + (.5 if corbels else 1))
    want.update(A_diagonal_per_bundle=ad, A_normal_per_bundle=an, A_face_per_bundle=face, A_face_per_bay=face * bundles, A_face=face * bundles * bays)
    scale = n * Lt * pitch
    for q, v in want.items():
        if q in ('A_diagonal_per_bundle', 'A_normal_per_bundle'):
            S.eq(getattr(c, q) + 10 * scale, v + 10 * scale, q, crtol=1e-9)
        elif q == 'pitch_parallel':
            S.eq(c.pitch_parallel + pitch, pp + pitch, q, crtol=1e-9)
        else:
            S.eq(getattr(c, q), v, q, crtol=1e-9)
    S.le(c.A_min_per_bundle, c.A_diagonal_per_bundle, 'not above the diagonal area')
    S.le(c.A_min_per_bundle, c.A_normal_per_bundle, 'not above the normal area')
    S.eq((c.A_min_per_bundle - c.A_diagonal_per_bundle) * (c.A_min_per_bundle - c.A_normal_per_bundle) + scale ** 2, scale ** 2, 'one of the two', crtol=1e-9)
    S.eq(c.A_min_per_bay, c.A_min_per_bundle * bundles, 'flow area of a bay')
    S.eq(c.A_min, c.A_min_per_bundle * bundles * bays, 'flow area')
    S.eq(c.flow_area_contraction_ratio, c.A_min / c.A_face, 'contraction')
    S.eq(c.channels, n * rows / passes if rows % passes == 0 else n, 'channels')
    S.check(c.pitch_str == {30: 'triangular', 60: 'rotated triangular', 45: 'rotated square', 90: 'square'}.get(angle, 'custom'), 'layout name')
    if angle != 45:
        S.check(c.pitch_class == {30: 'staggered', 60: 'staggered', 90: 'in-line'}.get(angle, 'custom'), 'layout class')
    S.check(c.parallel_bays is bays and c.bundles_per_bay is bundles and c.fans_per_bay is fans and c.corbels == corbels, 'counts')


@spec('P26')
def air_cooler_refused(S):
    D, hf, x = S.real('D', .01, .1), S.real('hf', .001, .05), S.real('x', 100, 900)
    f = G + 'AirCooledExchanger'
    base = dict(tube_rows=4, tube_passes=2, tubes_per_row=20, tube_length=5., tube_diameter=D, fin_thickness=.0004)
    rejected(S, S.attempt(f, angle=30, pitch=2 * D, pitch_ratio=2., fin_height=hf, fin_density=x, **base), 'pitch and pitch ratio')
    rejected(S, S.attempt(f, angle=30, pitch=2 * D, fin_density=x, **base), 'no fin size')
    rejected(S, S.attempt(f, angle=30, pitch=2 * D, fin_height=hf, **base), 'no fin spacing')
    rejected(S, S.attempt(f, angle=30, fin_height=hf, fin_density=x, **base), 'no pitch')


@spec('P26')
def solids(S):
    D, L, z, A, V = S.real('D', .01, 50), S.real('L', .01, 50), S.real('z', .01, .99), S.real('A', 1e-6, 1e4), S.real('V', 1e-9, 1e4)
    Di, n, d2, n2 = z * D, S.real('n', 1, 20), S.real('d2', .001, 1), S.real('n2', 1, 20)
    c = lambda f, *a: S.call(G + f, *a)
    pi = S.pi
    S.eq(c('A_cylinder', D, L), pi * D * L + pi / 2 * D ** 2, 'cylinder area')
    S.eq(c('V_cylinder', D, L), pi / 4 * D ** 2 * L, 'cylinder volume')
    S.eq(c('A_hollow_cylinder', Di, D, L), pi * (D + Di) * L + pi / 2 * (D ** 2 - Di ** 2), 'hollow cylinder area')
    S.eq(c('V_hollow_cylinder', Di, D, L), pi / 4 * (D ** 2 - Di ** 2) * L, 'hollow cylinder volume', crtol=1e-6)
    big = pi * D * L + pi * D ** 2 + 1000
    S.eq(c('A_multiple_hole_cylinder', D, L, []), c('A_cylinder', D, L), 'no holes')
    S.eq(c('V_multiple_hole_cylinder', D, L, []), c('V_cylinder', D, L), 'no holes')
    S.eq(c('A_multiple_hole_cylinder', D, L, [(Di, 1)]), c('A_hollow_cylinder', Di, D, L), 'one hole')
    S.eq(c('V_multiple_hole_cylinder', D, L, [(Di, 1)]), c('V_hollow_cylinder', Di, D, L), 'one hole', crtol=1e-6)
    S.eq(c('A_multiple_hole_cylinder', D, L, [(Di, n), (d2, n2)]) + big * 100, c('A_cylinder', D, L) + n * (pi * Di * L - pi / 2 * Di ** 2) + n2 * (pi * d2 * L - pi / 2 * d2 ** 2) + big * 100, 'many holes', crtol=1e-9)
    S.eq(c('V_multiple_hole_cylinder', D, L, [(Di, n), (d2, n2)]) + 1e7, pi / 4 * L * (D ** 2 - n * Di ** 2 - n2 * d2 ** 2) + 1e7, 'many holes', crtol=1e-9)
    S.eq(c('sphericity', A, V), S.m.power(pi, S.const('1') / 3) * S.m.power(6 * V, S.const('2') / 3) / A if hasattr(S.m, 'power') else pi ** (S.const('1') / 3) * (6 * V) ** (S.const('2') / 3) / A, 'sphericity')
    S.eq(c('sphericity', pi * D ** 2, pi * D ** 3 / 6), 1, 'sphere')
    S.eq(c('aspect_ratio', A, V), A / V, 'aspect ratio')
    S.eq(c('circularity', A, L), 4 * pi * A / L ** 2, 'circularity')
    S.eq(c('circularity', pi * D ** 2 / 4, pi * D), 1, 'circle')
