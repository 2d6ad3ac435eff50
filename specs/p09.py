"""Entrances, bends, contractions and expansions (fluids/fittings.py)."""
from pyvc.run import spec
from specs.common import abstract, rejected
F = 'fluids.fittings.'
NUM = 'fluids.numerics.'
ERR = (ValueError,)


def K(S, n, *a, **k):
    return S.call(F + n, *a, **k)


def q(S, *xs):
    return [S.const(x) for x in xs]


def hull(p):
    """a B-spline evaluated inside its knots lies between its smallest and largest coefficient (FITPACK clamps to the knots)"""
    c = [float(x.val) if hasattr(x, 'val') else float(x) for x in list((p['args'][2] if 'args' in p else p['tck'])[2])]
    return min(c), max(c)


def splines(S):
    abstract(S, NUM + 'splev')
    abstract(S, NUM + 'bisplev', rng=hull)


def rennels(S, lam, jet, beta5=0):
    return S.const('0.0696') * jet * (1 - beta5) * lam * lam + (lam - 1) ** 2


# ------------------------------------------------------------------ entrances
@spec('P09')
def entrance_sharp(S):
    for m in ('Swamee', 'Blevins', 'Crane', 'Idelchik'):
        S.eq(K(S, 'entrance_sharp', m), S.const('0.5'), m)
    for m in ('Rennels', None):
        S.eq(K(S, 'entrance_sharp', m), S.const('0.57'), 'Rennels')
    S.eq(K(S, 'entrance_sharp'), S.const('0.57'), 'default')
    S.between(S.const('0.5'), K(S, 'entrance_sharp', 'Miller'), S.const('0.51'), 'Miller')
    rejected(S, S.attempt(F + 'entrance_sharp', 'BAD'), 'unknown method')
    S.eq(K(S, 'exit_normal'), 1, 'exit loses the velocity head')


@spec('P09', params=[('Rennels',), ('Miller',), ('Idelchik',), ('Harris',), ('Crane',)])
def entrance_distance(S, m):
    Di, x, y, s = S.real('Di', 1e-3, 10), S.real('t/Di', 0, 3), S.real('l/Di', 0, 30), S.real('s', .01, 100)
    splines(S)
    v = K(S, 'entrance_distance', Di, x * Di, y * Di, m)
    S.eq(K(S, 'entrance_distance', s * Di, s * x * Di, s * y * Di, m), v, 'depends on ratios only', crtol=1e-6)
    if m == 'Rennels':
        t = x if x <= S.const('0.05') else S.const('0.05')
        S.eq(v, S.const('1.12') - 22 * t + 216 * t ** 2 + 80 * t ** 3, 'published formula')
        S.between(S.const('0.56'), v, S.const('1.12'), 'between sharp and thin projecting')
        S.eq(K(S, 'entrance_distance', Di, x * Di), v, 'default method')
        S.eq(K(S, 'entrance_distance', Di, x * Di, method=None), v, 'default method')
    elif m == 'Miller':
        S.between(S.const('0.4'), v, S.const('1.15'), 'physical range')
        S.eq(K(S, 'entrance_distance', Di, (x if x <= S.const('0.3') else S.const('0.3')) * Di, None, m), v, 'constant beyond the tabulated thickness', crtol=1e-6)
    elif m == 'Idelchik':
        a, b = x if x <= 1 else 1, y if y <= 10 else 10
        S.eq(K(S, 'entrance_distance', Di, a * Di, b * Di, m), v, 'constant beyond the table', crtol=1e-6)
        S.ge(v, 0, 'not negative')
        S.eq(K(S, 'entrance_distance', Di, x * Di, None, m), K(S, 'entrance_distance', Di, x * Di, Di, m), 'default distance is one diameter')
    elif m == 'Harris':
        a = x if x <= S.const('0.289145') else S.const('0.289145')
        S.eq(K(S, 'entrance_distance', Di, a * Di, None, m), v, 'constant beyond the table', crtol=1e-6)
    else:
        S.eq(v, S.const('0.78'), 'Crane')
    if m != 'Crane':
        rejected(S, S.attempt(F + 'entrance_distance', Di, None, None, m), 'thickness is needed')
    rejected(S, S.attempt(F + 'entrance_distance', Di, x, None, 'BAD'), 'unknown method')


@spec('P09')
def entrance_45(S):
    Di, x = S.real('Di', 1e-3, 10), S.real('t/Di', 0, 3)
    v = K(S, 'entrance_distance_45_Miller', Di, Di * (1 + 2 * x))
    S.between(S.const('0.2'), v, S.const('1.15'), 'physical range')
    a = x if x <= S.const('0.3') else S.const('0.3')
    S.eq(K(S, 'entrance_distance_45_Miller', Di, Di * (1 + 2 * a)), v, 'constant beyond the tabulated thickness', crtol=1e-6)


@spec('P09')
def entrance_angled(S):
    a = S.real('angle', 0, 90)
    c = S.m.cos(a * S.pi / 180)
    v = K(S, 'entrance_angled', a)
    S.eq(v, S.const('0.57') + S.const('0.3') * c + S.const('0.2') * c * c, 'published formula')
    S.eq(K(S, 'entrance_angled', a, None), v, 'default method')
    rejected(S, S.attempt(F + 'entrance_angled', a, 'BAD'), 'unknown method')
    S.ge(v, S.const('0.57') - S.const('1e-9'), 'at least the perpendicular entrance')


@spec('P09', params=[('Rennels',), ('Swamee',), ('Crane',), ('Miller',), ('Harris',), ('Idelchik',)])
def entrance_rounded(S, m):
    Di, r, s = S.real('Di', 1e-3, 10), S.real('rc/Di', 0, 3), S.real('s', .01, 100)
    splines(S)
    v = K(S, 'entrance_rounded', Di, r * Di, m)
    if m not in ('Harris', 'Idelchik'):
        S.eq(K(S, 'entrance_rounded', s * Di, s * r * Di, m), v, 'depends on the ratio only', crtol=1e-6)
        S.between(0, v, S.const('0.58'), 'never worse than a sharp entrance')
    if m == 'Rennels':
        S.eq(K(S, 'entrance_rounded', Di, r * Di), v, 'default method')
        S.eq(K(S, 'entrance_rounded', Di, r * Di, None), v, 'default method')
        if r <= 1:
            l = 1 + S.const('0.622') * (1 - S.const('0.3') * S.m.sqrt(r) - S.const('0.7') * r) ** 4
            S.eq(v, S.const('0.0696') * (1 - S.const('0.569') * r) * l * l + (l - 1) ** 2, 'published formula')
        else:
            S.eq(v, S.const('0.03'), 'fully rounded')
    elif m == 'Swamee':
        S.eq(v, S.const('0.5') / (1 + 36 * r ** S.const('1.2')), 'published formula')
    elif m == 'Crane':
        S.eq(v, lin(S, r, ('0', '0.02', '0.04', '0.06', '0.1', '0.15'), ('0.5', '0.28', '0.24', '0.15', '0.09', '0.04')), 'tabulated values')
    elif m == 'Harris' and r > S.const('0.16'):
        S.eq(v, 0, 'no loss beyond the table')
    elif m == 'Idelchik' and r > S.const('0.2'):
        S.eq(v, S.const('0.03'), 'constant beyond the table')
    rejected(S, S.attempt(F + 'entrance_rounded', Di, r, 'BAD'), 'unknown method')


def lin(S, x, xs, ys):
    xs, ys = [S.const(a) for a in xs], [S.const(a) for a in ys]
    if x <= xs[0]:
        return ys[0]
    for i in range(len(xs) - 1):
        if x <= xs[i + 1]:
            return ys[i] + (ys[i + 1] - ys[i]) * (x - xs[i]) / (xs[i + 1] - xs[i])
    return ys[-1]


@spec('P09')
def entrance_beveled(S):
    Di, x, a, s = S.real('Di', 1e-3, 10), S.real('l/Di', 1e-3, 1), S.real('angle', 1e-3, 90), S.real('s', .01, 100)
    v = K(S, 'entrance_beveled', Di, x * Di, a)
    Cb = (1 - a / 90) * (a / 90) ** (1 / (1 + x))
    l = 1 + S.const('0.622') * (1 - S.const('1.5') * Cb * x ** ((1 - x ** S.const('0.25')) / 2))
    S.eq(v, S.const('0.0696') * (1 - Cb * x) * l * l + (l - 1) ** 2, 'published formula')
    S.eq(K(S, 'entrance_beveled', s * Di, s * x * Di, a), v, 'depends on ratios only')
    S.eq(K(S, 'entrance_beveled', Di, x * Di, a, None), v, 'default method')
    S.gt(v, 0, 'positive')
    splines(S)
    S.eq(K(S, 'entrance_beveled', s * Di, s * x * Di, a, 'Idelchik'), K(S, 'entrance_beveled', Di, x * Di, a, 'Idelchik'), 'ratios only (Idelchik)', crtol=1e-6)
    rejected(S, S.attempt(F + 'entrance_beveled', Di, x * Di, a, 'BAD'), 'unknown method')


@spec('P09')
def entrance_beveled_orifice(S):
    Di, b, x, a, s = S.real('Di', 1e-3, 10), S.real('beta', .05, 1), S.real('l/Do', 1e-3, 1), S.real('angle', 1e-3, 90), S.real('s', .01, 100)
    Do = b * Di
    v = K(S, 'entrance_beveled_orifice', Di, Do, x * Do, a)
    Cb = (1 - a / 90) * (a / 90) ** (1 / (1 + x))
    l = 1 + S.const('0.622') * (1 - Cb * x ** ((1 - x ** S.const('0.25')) / 2))
    S.eq(v, S.const('0.0696') * (1 - Cb * x) * l * l + (l - b * b) ** 2, 'published formula')
    S.gt(v, 0, 'positive')


# ---------------------------------------------------------------------- bends
def bend(S):
    return S.real('Di', 1e-3, 5), S.real('rc/Di', .5, 60), S.real('angle', 1, 180)


@spec('P09')
def bend_rennels(S):
    Di, r, a = bend(S)
    f, s, Re, e = S.real('fd', 1e-3, .1), S.real('s', .01, 100), S.real('Re', 1e4, 1e8), S.real('eD', 0, .05)
    m = S.m
    th = a * S.pi / 180
    sn = m.sin(th / 2)
    v = K(S, 'bend_rounded', Di, a, fd=f, rc=r * Di)
    S.eq(v, f * th * r + (S.const('0.1') + S.const('2.4') * f) * sn + S.const('6.6') * f * (m.sqrt(sn) + sn) / r ** (4 * th / S.pi), 'published formula')
    S.gt(v, 0, 'positive')
    S.eq(K(S, 'bend_rounded', Di, a, fd=f, bend_diameters=r), v, 'radius or diameters')
    S.eq(K(S, 'bend_rounded', s * Di, a, fd=f, rc=s * r * Di), v, 'ratios only')
    S.eq(K(S, 'bend_rounded', Di, a, fd=f, rc=r * Di, method=None), v, 'default method')
    S.eq(K(S, 'bend_rounded', Di, a, fd=f), K(S, 'bend_rounded', Di, a, fd=f, rc=5 * Di), 'default radius five diameters')
    abstract(S, 'fluids.friction.Clamond', positive=True)
    fr = S.call('fluids.friction.Clamond', Re=Re, eD=e, fast=False)
    S.eq(K(S, 'bend_rounded', Di, a, Re=Re, roughness=e * Di, rc=r * Di), K(S, 'bend_rounded', Di, a, fd=fr, rc=r * Di), 'friction factor from Re', crtol=1e-6)
    rejected(S, S.attempt(F + 'bend_rounded', Di, a, rc=r * Di), 'fd or Re is needed')
    rejected(S, S.attempt(F + 'bend_rounded', Di, a, fd=f, method='BAD'), 'unknown method')


@spec('P09')
def bend_swamee(S):
    Di, r, a = bend(S)
    v = K(S, 'bend_rounded', Di, a, rc=r * Di, method='Swamee')
    S.eq(v, (S.const('0.0733') + S.const('0.923') / r ** S.const('3.5')) * S.m.sqrt(a * S.pi / 180), 'published formula')
    S.eq(K(S, 'bend_rounded', Di, a, bend_diameters=r, method='Swamee'), v, 'radius or diameters')


@spec('P09')
def bend_crane(S):
    Di, r, a = bend(S)
    abstract(S, 'fluids.friction.ft_Crane', positive=True)
    f = S.call('fluids.friction.ft_Crane', Di)
    v = K(S, 'bend_rounded', Di, a, rc=r * Di, method='Crane')
    S.eq(K(S, 'bend_rounded_Crane', Di, a, rc=r * Di), v, 'same method')
    S.eq(K(S, 'bend_rounded', Di, a, bend_diameters=r, method='Crane'), v, 'radius or diameters', crtol=1e-6)
    S.eq(K(S, 'bend_rounded_Crane', Di, a, bend_diameters=r), v, 'radius or diameters', crtol=1e-6)
    S.eq(K(S, 'bend_rounded', Di, a, method='Crane'), K(S, 'bend_rounded_Crane', Di, a, rc=5 * Di), 'default radius five diameters', crtol=1e-6)
    # (n - 1)(0.25 pi ft r/D + 0.5 K90) + K90 for n quarter turns
    rr = r if r <= 20 else 20
    rr = rr if rr >= 1 else 1
    K90 = K(S, 'bend_rounded_Crane', Di, S.const('90.0'), rc=rr * Di)
    S.eq(v, (a / 90 - 1) * (S.pi / 4 * f * rr + K90 / 2) + K90, 'n quarter turns', crtol=1e-6)
    rejected(S, S.attempt(F + 'bend_rounded_Crane', Di, a, rc=r * Di, bend_diameters=r * 2), 'contradictory radii rejected')


@spec('P09')
def bend_crane_90(S):
    """the smoothed quarter turn stays near Crane's tabulated multiples of ft"""
    Di, r = S.real('Di', .01, 2), S.real('rc/Di', 1, 20)
    abstract(S, 'fluids.friction.ft_Crane', positive=True)
    f = S.call('fluids.friction.ft_Crane', Di)
    v = K(S, 'bend_rounded_Crane', Di, S.const('90.0'), rc=r * Di)
    t = lin(S, r, ('1', '1.5', '2', '3', '4', '6', '8', '10', '12', '14', '16', '20'), ('20', '14', '12', '12', '14', '17', '24', '30', '34', '38', '42', '50'))
    S.between(S.const('0.9') * t, v / f, S.const('1.1') * t, 'table')


@spec('P09')
def bend_crane_standard(S):
    Di, a = S.real('Di', .01, 2), S.real('angle', 10, 200)
    abstract(S, 'fluids.friction.ft_Crane', positive=True)
    f = S.call('fluids.friction.ft_Crane', Di)
    w = 16 + (a - 45) * 14 / 45 if a <= 90 else 30 + (a - 90) * 20 / 90
    S.eq(K(S, 'bend_rounded', Di, a, method='Crane standard'), f * w, 'standard elbows 16/30/50 ft')


@spec('P09')
def bend_ito(S):
    Di, r, a = bend(S)
    S.assume(a < S.const('179.999'))
    Re = S.real('Re', 1e3, 1e7)
    abstract(S, 'fluids.friction.friction_factor_curved', positive=True)
    v = K(S, 'bend_rounded', Di, a, rc=r * Di, Re=Re, method='Ito')
    S.eq(K(S, 'bend_rounded_Ito', Di, a, Re, rc=r * Di), v, 'same method')
    S.eq(K(S, 'bend_rounded', Di, a, bend_diameters=r, Re=Re, method='Ito'), v, 'radius or diameters')
    m = S.m
    if r > 50:
        al = 1
    else:
        a45 = 1 + S.const('5.13') / r ** S.const('1.47')
        a90 = S.const('0.95') + S.const('4.42') / r ** S.const('1.96') if r < S.const('9.85') else 1
        a180 = 1 + S.const('5.06') / r ** S.const('4.52')
        if a <= 45:
            al = a45
        elif a <= 90:
            al = a45 + (a90 - a45) * (a - 45) / 45
        else:
            al = a90 + (a180 - a90) * (a - 90) / 90
    if Re <= 360 * r * r:
        fc = S.call('fluids.friction.friction_factor_curved', Re=Re, Di=Di, Dc=2 * r * Di, roughness=0.0, Rec_method='Srinivasan', laminar_method='White', turbulent_method='Srinivasan turbulent')
        S.eq(v, S.const('0.0175') * al * fc * a * r, 'below the transition')
    else:
        S.eq(v, S.const('0.00431') * al * a * Re ** S.const('-0.17') * r ** S.const('0.84'), 'above the transition')
    rejected(S, S.attempt(F + 'bend_rounded', Di, a, method='Ito'), 'Re is needed')


@spec('P09', max_paths=20000)
def bend_miller(S):
    Di, _, a = bend(S)
    r = S.real('r/Di', .1, 60)
    Re, s, e = S.real('Re', 1e3, 1e9), S.real('s', .01, 100), S.real('eD', 0, .05)
    splines(S)
    abstract(S, F + 'Miller_bend_unimpeded_correction', positive=True)
    abstract(S, F + 'Miller_bend_roughness_correction', positive=True)
    v = K(S, 'bend_rounded_Miller', Di, a, Re, rc=r * Di, roughness=e * Di)
    S.eq(K(S, 'bend_rounded', Di, a, Re=Re, rc=r * Di, roughness=e * Di, method='Miller'), v, 'same method')
    rr = clip(r, S.const('0.5'), S.const('10'))
    aa = a if a >= 10 else 10
    S.eq(K(S, 'bend_rounded_Miller', Di, aa, Re, rc=rr * Di, roughness=e * Di, L_unimpeded=20 * Di), v, 'clipped to the chart, 20 diameters of straight pipe', crtol=1e-6)
    S.eq(K(S, 'bend_rounded_Miller', Di, a, Re, bend_diameters=r, roughness=e * Di), v, 'radius or diameters', crtol=1e-6)
    rejected(S, S.attempt(F + 'bend_rounded', Di, a, method='Miller'), 'Re is needed')


@spec('P09')
def miller_roughness(S):
    Di, Re, e = S.real('Di', 1e-3, 5), S.real('Re', 1e3, 1e9), S.real('eD', 1e-6, .05)
    # the precomputed factor is that of a smooth pipe at Re = 1e6
    S.eq(S.call('fluids.friction.friction_factor', Re=S.const('1e6'), eD=S.const('0.0')), S.const('0.011645040997991626'), 'precomputed smooth factor')
    abstract(S, 'fluids.friction.friction_factor', positive=True)
    f = lambda x, y: S.call('fluids.friction.friction_factor', Re=x, eD=y)
    v = K(S, 'Miller_bend_roughness_correction', Re, Di, e * Di)
    if Re < 1e6:
        S.eq(v * f(Re, 0.0), f(Re, e), 'rough over smooth', crtol=1e-6)
    else:
        S.eq(v * S.const('0.011645040997991626'), f(S.const('1e6'), e), 'rough over smooth at the limit', crtol=1e-6)


@spec('P09', max_paths=20000)
def miller_unimpeded(S):
    Kb, Di, x, s = S.real('Kb', 1e-3, 5), S.real('Di', 1e-3, 5), S.real('L/Di', 0, 100), S.real('s', .01, 100)
    splines(S)
    v = K(S, 'Miller_bend_unimpeded_correction', Kb, Di, x * Di)
    S.eq(K(S, 'Miller_bend_unimpeded_correction', Kb, s * Di, s * x * Di), v, 'ratios only', crtol=1e-6)
    k = Kb if Kb <= 1 else 1
    k = k if k >= S.const('0.1') else S.const('0.1')
    S.eq(K(S, 'Miller_bend_unimpeded_correction', k, Di, (x if x <= 30 else 30) * Di), v, 'clipped to the chart', crtol=1e-6)
    if x >= S.const('30.3'):
        # only the lowest-loss curve is still below one at 30 diameters
        if Kb >= S.const('0.15'):
            S.eq(v, 1, 'long outlets need no correction')


@spec('P09', max_paths=20000)
def miter_miller(S):
    Di, a, Re, e = S.real('Di', 1e-3, 5), S.real('angle', 1, 170), S.real('Re', 1e3, 1e9), S.real('eD', 0, .05)
    splines(S)
    abstract(S, F + 'Miller_bend_unimpeded_correction', positive=True)
    abstract(S, F + 'Miller_bend_roughness_correction', positive=True)
    if S.symbolic:
        S.e.check_defined = False      # the denominator of the Reynolds factor vanishes only at isolated points
    v = K(S, 'bend_miter_Miller', Di, a, Re, e * Di)
    S.eq(K(S, 'bend_miter', a, Di, Re, e * Di, method='Miller'), v, 'same method')
    S.eq(K(S, 'bend_miter_Miller', Di, a if a <= 120 else 120, Re, e * Di, 20 * Di), v, 'clipped to the chart, 20 diameters of straight pipe')


@spec('P09')
def miter(S):
    Di, a, Re = S.real('Di', .01, 2), S.real('angle', 0, 120), S.real('Re', 1e4, 1e8)
    sn = S.m.sin(a * S.pi / 360)
    v = K(S, 'bend_miter', a)
    S.eq(v, S.const('0.42') * sn + S.const('2.56') * sn ** 3, 'published formula (Rennels)')
    S.eq(K(S, 'bend_miter', a, method=None), v, 'default method')
    abstract(S, 'fluids.friction.ft_Crane', positive=True)
    f = S.call('fluids.friction.ft_Crane', Di)
    S.eq(K(S, 'bend_miter', a, Di, method='Crane'), f * lin(S, a, ('0', '15', '30', '45', '60', '75', '90'), ('2', '4', '8', '15', '25', '40', '60')), 'tabulated values (Crane)')
    b = lin(S, a, ('0', '10', '20', '30', '40', '50', '60', '70', '80', '90', '120'), ('0', '0.025', '0.055', '0.1', '0.2', '0.35', '0.5', '0.7', '0.9', '1.1', '1.5'))
    S.eq(K(S, 'bend_miter', a, Re=Re, method='Blevins'), b * (2e5 / Re) ** S.const('0.2'), 'tabulated values (Blevins)')
    rejected(S, S.attempt(F + 'bend_miter', a, method='BAD'), 'unknown method')
    rejected(S, S.attempt(F + 'bend_miter', a, method='Crane'), 'Di needed')
    rejected(S, S.attempt(F + 'bend_miter', a, method='Blevins'), 'Re needed')
    rejected(S, S.attempt(F + 'bend_miter', a, Di, method='Miller'), 'Re needed')


@spec('P09')
def coils(S):
    Di, rs, p, N, f = S.real('Di', 1e-3, 1), S.real('rs', .01, 10), S.real('pitch', .01, 10), S.real('N', 1, 100), S.real('fd', 1e-3, .1)
    L = S.m.sqrt((2 * S.pi * rs) ** 2 + p * p)
    S.eq(K(S, 'helix', Di, rs, p, N, f), N * (f * L / Di + S.const('0.2') + S.const('4.8') * f), 'helix')
    x = S.real('x', .01, 10)
    S.eq(K(S, 'spiral', Di, rs + x, rs, p, f), x / p * (f * S.pi * (2 * rs + x) / Di + S.const('0.2') + S.const('4.8') * f) + S.const('13.2') * f * Di * Di / (rs * rs), 'spiral')


# --------------------------------------------------------------- contractions
def pair(S):
    """larger and smaller diameter"""
    D, b = S.real('D', .01, 5), S.real('beta', .02, .999)
    return D, b * D, b


def clamond(S):
    abstract(S, 'fluids.friction.Clamond', positive=True)
    return lambda Re, e: S.call('fluids.friction.Clamond', Re=Re, eD=e, fast=False)


@spec('P09')
def contraction_sharp(S):
    D1, D2, b = pair(S)
    v = K(S, 'contraction_sharp', D1, D2)
    l = 1 + S.const('0.622') * (1 - S.const('0.215') * b ** 2 - S.const('0.785') * b ** 5)
    S.eq(v, S.const('0.0696') * (1 - b ** 5) * l * l + (l - 1) ** 2, 'published formula')
    S.between(0, v, S.const('0.58'), 'no worse than a sharp entrance')
    S.eq(K(S, 'contraction_sharp', D1, D1), 0, 'no contraction, no loss', atol=1e-12, catol=1e-9)
    S.eq(K(S, 'contraction_sharp', D1, D2, method='Crane'), (1 - b * b) / 2, 'Crane')
    rejected(S, S.attempt(F + 'contraction_sharp', D1, D2, method='BAD'), 'unknown method')
    rejected(S, S.attempt(F + 'contraction_sharp', D1, D2, method='Hooper'), 'Re needed')
    Re, f, e = S.real('Re', 10, 1e8), S.real('fd', 1e-3, .1), S.real('eD', 0, .05)
    h = K(S, 'contraction_sharp', D1, D2, fd=f, Re=Re, method='Hooper')
    if Re <= 2500:
        S.eq(h, (S.const('1.2') + 160 / Re) * (1 - b ** 4), 'Hooper laminar, on the downstream velocity')
    else:
        S.eq(h, (S.const('0.6') + S.const('0.48') * f) * b * b * (1 / b ** 2 - 1) / 1, 'Hooper turbulent, on the downstream velocity')
        cl = clamond(S)
        S.eq(K(S, 'contraction_sharp', D1, D2, Re=Re, roughness=e * D1, method='Hooper'), K(S, 'contraction_sharp', D1, D2, Re=Re, fd=cl(Re, e), method='Hooper'), 'friction factor from Re', crtol=1e-6)


@spec('P09')
def contraction_round(S):
    D1, D2, b = pair(S)
    r, s = S.real('rc/D2', 0, 1), S.real('s', .01, 100)
    v = K(S, 'contraction_round', D1, D2, r * D2)
    l = 1 + S.const('0.622') * (1 - S.const('0.3') * S.m.sqrt(r) - S.const('0.7') * r) ** 4 * (1 - S.const('0.215') * b ** 2 - S.const('0.785') * b ** 5)
    S.eq(v, S.const('0.0696') * (1 - S.const('0.569') * r) * (1 - S.m.sqrt(r) * b) * (1 - b ** 5) * l * l + (l - 1) ** 2, 'published formula')
    S.ge(v, 0, 'not negative')
    S.eq(K(S, 'contraction_round', D1, D2, r * D2, None), v, 'default method')
    S.eq(K(S, 'contraction_round', D1, D2, 0.0), K(S, 'contraction_sharp', D1, D2), 'no rounding is the sharp contraction', crtol=1e-6)
    S.eq(K(S, 'contraction_round', D1, D2, r * D2, 'Idelchik'), (1 - b * b) * lin(S, r, ('0', '0.01', '0.02', '0.03', '0.04', '0.05', '0.06', '0.08', '0.12', '0.16', '0.2'), ('0.5', '0.43', '0.37', '0.31', '0.26', '0.22', '0.2', '0.15', '0.09', '0.06', '0.03')), 'tabulated values (Idelchik)')
    splines(S)
    m = K(S, 'contraction_round', D1, D2, r * D2, 'Miller')
    S.ge(m, 0, 'not negative (Miller)')
    S.eq(K(S, 'contraction_round_Miller', s * D1, s * D2, s * D2 * (r if r <= S.const('0.1') else S.const('0.1'))), m, 'ratios only, clipped to the chart', crtol=1e-6, catol=1e-9)
    rejected(S, S.attempt(F + 'contraction_round', D1, D2, r * D2, 'BAD'), 'unknown method')


@spec('P09')
def contraction_beveled(S):
    D1, D2, b = pair(S)
    x, a = S.real('l/D2', 0, 1), S.real('angle', 1, 180)
    S.assume(a < 179)
    th = a * S.pi / 180
    CB = 2 * x * b * S.m.tan(th / 2) / (1 - b)
    l = 1 + S.const('0.622') * (1 + CB * ((th / S.pi) ** S.const('0.8') - 1)) * (1 - S.const('0.215') * b ** 2 - S.const('0.785') * b ** 5)
    S.eq(K(S, 'contraction_beveled', D1, D2, x * D2, a), S.const('0.0696') * (1 + CB * (S.m.sin(th / 2) - 1)) * (1 - b ** 5) * l * l + (l - 1) ** 2, 'published formula')


def cone(S, a):
    """half angle tangent of a cone"""
    return S.m.tan(a * S.pi / 360)


@spec('P09', params=[(m,) for m in ('Rennels', 'Crane', 'Swamee', 'Hooper')])
def contraction_conical(S, m):
    D1, D2, b = pair(S)
    a, f, Re, e = S.real('angle', 1, 179), S.real('fd', 1e-3, .1), S.real('Re', 10, 1e8), S.real('eD', 0, .05)
    th = a * S.pi / 180
    sn = S.m.sin(th / 2)
    kw = dict(fd=f, Re=Re, method=m)
    v = K(S, 'contraction_conical', D1, D2, angle=a, **kw)
    l = (D1 - D2) / 2 / cone(S, a)
    g = lambda x: x if S.symbolic else x
    if m == 'Rennels':
        lam = 1 + S.const('0.622') * (th / S.pi) ** S.const('0.8') * (1 - S.const('0.215') * b ** 2 - S.const('0.785') * b ** 5)
        S.eq(v, f * (1 - b ** 4) / 8 / sn + S.const('0.0696') * sn * (1 - b ** 5) * lam * lam + (lam - 1) ** 2, 'published formula')
        S.eq(K(S, 'contraction_conical', D1, D2, fd=f, l=0.0), K(S, 'contraction_sharp', D1, D2) + f * (1 - b ** 4) / 8, 'zero length is a sharp contraction with wall friction', crtol=1e-6)
        cl = clamond(S)
        S.eq(K(S, 'contraction_conical', D1, D2, angle=a, Re=Re, roughness=e * D2), K(S, 'contraction_conical', D1, D2, angle=a, fd=cl(Re, e)), 'friction factor from Re', crtol=1e-6)
        rejected(S, S.attempt(F + 'contraction_conical', D1, D2, angle=a), 'fd or Re needed')
        rejected(S, S.attempt(F + 'contraction_conical', D1, D2, fd=f), 'l or angle needed')
        rejected(S, S.attempt(F + 'contraction_conical', D1, D2, fd=f, angle=a, method='BAD'), 'unknown method')
    elif m == 'Crane':
        S.assume((a < S.const('44.999999')) | (a > S.const('45.000001')))
        S.eq(v, S.const('0.8') * sn * (1 - b * b) if a < 45 else S.m.sqrt(sn) * (1 - b * b) / 2, 'published formula', crtol=1e-6)
        S.eq(K(S, 'contraction_conical_Crane', D1, D2, angle=a), v, 'same method', crtol=1e-6)
    elif m == 'Swamee':
        S.eq(v, S.const('0.315') * th ** (S.const('1.0') / 3), 'published formula')
    else:
        S.assume((a < S.const('44.999999')) | (a > S.const('45.000001')))
        sharp = K(S, 'contraction_sharp', D1, D2, fd=f, Re=Re, method='Hooper')
        S.eq(v, sharp * (S.m.sqrt(sn) if a > 45 else S.const('1.6') * sn), 'sharp contraction times the angle factor')
    S.gt(v, 0, 'positive')


@spec('P09', params=[(m,) for m in ('Rennels', 'Crane', 'Swamee', 'Hooper', 'Idelchik', 'Blevins', 'Miller')])
def contraction_length_or_angle(S, m):
    """the cone may be given by its length or by its angle"""
    D1, D2, b = pair(S)
    h, f, Re, s = S.real('half angle', .01, 1.56), S.real('fd', 1e-3, .1), S.real('Re', 10, 1e8), S.real('s', .01, 100)
    splines(S)
    l = (D1 - D2) / 2 / S.m.tan(h)
    if m in ('Crane', 'Hooper'):
        S.assume((h < S.pi / 8 - S.const('1e-6')) | (h > S.pi / 8 + S.const('1e-6')))
    ang = h * 360 / S.pi
    kw = dict(fd=f, Re=Re, method=m)
    va = K(S, 'contraction_conical', D1, D2, angle=ang, **kw)
    vl = K(S, 'contraction_conical', D1, D2, l=l, **kw)
    S.eq(vl, va, 'length or angle', crtol=1e-5, catol=1e-7)
    S.eq(K(S, 'contraction_conical', s * D1, s * D2, l=s * l, **kw), vl, 'ratios only', crtol=1e-5, catol=1e-7)


def clip(x, lo, hi):
    return lo if x < lo else hi if x > hi else x


@spec('P09', params=[(f, m) for f in ('contraction', 'diffuser') for m in ('Idelchik', 'Miller', 'Blevins') if (f, m) != ('diffuser', 'Blevins')])
def conical_charts(S, fun, m):
    """the chart is read at the inputs clipped to its range"""
    splines(S)
    c = S.const
    mod = S.mod('fittings')
    log = S.m.log
    if fun == 'contraction':
        D1, D2, b = pair(S)
    else:
        D2, D1, b = pair(S)
    w = S.real('half angle tangent', .002, 20)
    small, big = (D2, D1) if fun == 'contraction' else (D1, D2)
    l, deg = (big - small) / 2 / w, S.m.atan(w) * 360 / S.pi
    A = b * b
    given = dict(l=l) if m != 'Idelchik' else dict(angle=deg)
    v = K(S, fun + '_conical', D1, D2, method=m, **given)
    wall = lambda: mod.contraction_conical_friction_Idelchik_obj(clip(deg, c('2'), c('20')), clip(A, c('0.05'), c('0.6')))
    if (fun, m) == ('contraction', 'Idelchik'):
        S.eq(v, mod.bisplev(deg, l / D2, mod.entrance_beveled_Idelchik_tck) * (1 - A) + wall(), 'bevelled entrance chart and wall friction', crtol=1e-6)
    elif m == 'Blevins':
        S.eq(v, mod.contraction_conical_Blevins_obj(clip(l / D2, c('0'), c('0.6')), clip(1 / A, c('1.2'), c('10'))), 'chart', crtol=1e-6)
    elif (fun, m) == ('contraction', 'Miller'):
        k = mod.bisplev(log(clip(2 * l / D2, c('0.1'), c('10'))), log(clip(1 / A, c('1.1'), c('4'))), mod.contraction_conical_Miller_tck)
        S.eq(v, clip(k, c('0'), c('0.5')), 'chart', crtol=1e-6)
    elif m == 'Miller':
        k = mod.bisplev(log(clip(2 * l / D1, c('0.1'), c('20'))), log(clip(1 / A, c('1.1'), c('4'))), mod.tck_diffuser_conical_Miller)
        S.eq(v, k if k > 0 else 0, 'chart', crtol=1e-6)
    else:
        S.eq(v, wall() + mod.diffuser_conical_Idelchik_obj(A if A < c('0.6') else c('0.6'), deg if deg > 3 else c('3')), 'expansion chart and wall friction', crtol=1e-6)


# ----------------------------------------------------------------- expansions
@spec('P09')
def diffuser_sharp(S):
    D2, D1, b = pair(S)
    f, Re, e = S.real('fd', 1e-3, .1), S.real('Re', 10, 1e8), S.real('eD', 0, .05)
    S.eq(K(S, 'diffuser_sharp', D1, D2), (1 - b * b) ** 2, 'Borda-Carnot')
    S.eq(K(S, 'diffuser_sharp', D2, D2), 0, 'no expansion, no loss')
    h = K(S, 'diffuser_sharp', D1, D2, fd=f, Re=Re, method='Hooper')
    if Re < 4000:
        S.eq(h, 2 * (1 - b ** 4), 'Hooper laminar')
    else:
        S.eq(h, (1 + S.const('0.8') * f) * (1 - b * b) ** 2, 'Hooper turbulent')
        cl = clamond(S)
        S.eq(K(S, 'diffuser_sharp', D1, D2, Re=Re, roughness=e * D1, method='Hooper'), K(S, 'diffuser_sharp', D1, D2, Re=Re, fd=cl(Re, e), method='Hooper'), 'friction factor from Re', crtol=1e-6)
    rejected(S, S.attempt(F + 'diffuser_sharp', D1, D2, method='Hooper'), 'Re needed')
    rejected(S, S.attempt(F + 'diffuser_sharp', D1, D2, method='BAD'), 'unknown method')


@spec('P09', params=[(m,) for m in ('Rennels', 'Crane', 'Swamee', 'Hooper')])
def diffuser_conical(S, m):
    D2, D1, b = pair(S)
    a, f, Re, e = S.real('angle', 1, 179), S.real('fd', 1e-3, .1), S.real('Re', 10, 1e8), S.real('eD', 0, .05)
    th = a * S.pi / 180
    sn, qq = S.m.sin(th / 2), (1 - b * b) ** 2
    v = K(S, 'diffuser_conical', D1, D2, angle=a, fd=f, Re=Re, method=m)
    if m == 'Rennels':
        fr = f * (1 - b ** 4) / 8 / sn
        if a <= 20:
            w = S.const('8.3') * S.m.tan(th / 2) ** S.const('1.75') * qq + fr
        elif a <= 60:
            w = S.const('1.366') * S.m.sqrt(S.m.sin(2 * S.pi * (a - 15) / 180)) - S.const('0.17')
            if b < S.const('0.5'):
                w = w - S.const('3.28') * (S.const('0.0625') - b ** 4) * S.m.sqrt((a - 20) / 40)
            w = w * qq + fr
        elif b < S.const('0.5'):
            w = (S.const('1.205') - S.const('3.28') * (S.const('0.0625') - b ** 4) - S.const('12.8') * b ** 6 * S.m.sqrt((a - 60) / 120)) * qq
        else:
            w = (S.const('1.205') - S.const('0.2') * S.m.sqrt((a - 60) / 120)) * qq
        S.eq(v, w, 'published formula')
        S.eq(K(S, 'diffuser_conical', D1, D2, angle=a, fd=f, method=None), v, 'default method')
        cl = clamond(S)
        S.eq(K(S, 'diffuser_conical', D1, D2, angle=a, Re=Re, roughness=e * D2), K(S, 'diffuser_conical', D1, D2, angle=a, fd=cl(Re, e)), 'friction factor from Re', crtol=1e-6)
        rejected(S, S.attempt(F + 'diffuser_conical', D1, D2, angle=a), 'fd or Re needed')
        rejected(S, S.attempt(F + 'diffuser_conical', D1, D2, fd=f), 'l or angle needed')
        rejected(S, S.attempt(F + 'diffuser_conical', D1, D2, fd=f, angle=a, method='BAD'), 'unknown method')
    elif m == 'Crane':
        S.eq(v, S.const('2.6') * sn * qq if a < 45 else qq, 'published formula')
        S.eq(K(S, 'diffuser_conical_Crane', D1, D2, angle=a), v, 'same method')
    elif m == 'Hooper':
        S.assume((a < S.const('44.999999')) | (a > S.const('45.000001')))
        sharp = K(S, 'diffuser_sharp', D1, D2, fd=f, Re=Re, method='Hooper')
        S.eq(v, sharp if a > 45 else sharp * S.const('2.6') * sn, 'sharp expansion times the angle factor')
    else:
        r = 1 / b
        x = S.const('0.25') / th ** 3 * (1 + S.const('0.6') / r ** S.const('1.67') * (S.pi - th) / th) ** (S.const('0.533') * r - S.const('2.6'))
        S.eq(v * v * x, 1, 'published formula')
    S.gt(v, 0, 'positive')


@spec('P09', params=[(m,) for m in ('Rennels', 'Crane', 'Swamee', 'Hooper', 'Idelchik', 'Miller')])
def diffuser_length_or_angle(S, m):
    D2, D1, b = pair(S)
    h, f, Re, s = S.real('half angle', .01, 1.56), S.real('fd', 1e-3, .1), S.real('Re', 10, 1e8), S.real('s', .01, 100)
    splines(S)
    l = (D2 - D1) / 2 / S.m.tan(h)
    ang = h * 360 / S.pi
    for k in (10, 22, 30, 60):        # branch points of the angle
        if not S.symbolic:
            S.assume(abs(ang - 2 * k) > 1e-9 and abs(ang - k) > 1e-9)
    S.assume((h < S.pi / 8 - S.const('1e-6')) | (h > S.pi / 8 + S.const('1e-6')))
    kw = dict(fd=f, Re=Re, method=m)
    va = K(S, 'diffuser_conical', D1, D2, angle=ang, **kw)
    vl = K(S, 'diffuser_conical', D1, D2, l=l, **kw)
    S.eq(vl, va, 'length or angle', crtol=1e-5, catol=1e-7)
    S.eq(K(S, 'diffuser_conical', s * D1, s * D2, l=s * l, **kw), vl, 'ratios only', crtol=1e-5, catol=1e-7)
    if m == 'Crane':
        S.eq(K(S, 'diffuser_conical_Crane', D1, D2, l=l), va, 'same by length', crtol=1e-6)


@spec('P09', params=[(1,), (2,), (3,)], bounded='1 to 3 intermediate diameters')
def diffuser_staged(S, n):
    D, f = S.real('D', .01, 1), S.real('fd', 1e-3, .1)
    x = [S.real('r%d' % i, 1.01, 2) for i in range(n + 1)]
    l = [S.real('l%d' % i, .01, 5) for i in range(n + 1)]
    Ds = [D]
    for r in x:
        Ds.append(Ds[-1] * r)
    abstract(S, F + 'diffuser_conical', positive=True)
    tot = 0
    for i in range(n + 1):
        tot = tot + K(S, 'diffuser_conical', Di1=Ds[i], Di2=Ds[i + 1], l=l[i], fd=f, method='Rennels')
    S.eq(K(S, 'diffuser_conical_staged', Ds[0], Ds[-1], Ds[1:-1], l, fd=f), tot, 'sum of the stages')


@spec('P09')
def diffuser_other(S):
    D2, D1, b = pair(S)
    x, f1, f2, l = S.real('l/D1', .1, 1), S.real('fd1', 1e-3, .1), S.real('fd2', 1e-3, .1), S.real('l', .01, 5)
    phi = S.const('1.01') - S.const('0.624') * x + S.const('0.3') * x ** 2 - S.const('0.074') * x ** 3 + S.const('0.007') * x ** 4
    v = K(S, 'diffuser_curved', D1, D2, x * D1)
    S.eq(v, phi * (S.const('1.43') - S.const('1.3') * b * b) * (1 - b * b) ** 2, 'published formula (curved)')
    S.ge(v, 0, 'not negative')
    th = 2 * S.m.atan((D2 - D1) / (S.const('1.2') * l))
    w = f1 / 5 * l / D1 + f1 * (1 - b) / (8 * S.m.sin(th / 2)) + f2 / 5 * l / D2 * b ** 4
    S.eq(K(S, 'diffuser_pipe_reducer', D1, D2, l, f1, f2), w, 'published formula (pipe reducer)')
    S.eq(K(S, 'diffuser_pipe_reducer', D1, D2, l, f1), K(S, 'diffuser_pipe_reducer', D1, D2, l, f1, f1), 'default second factor')
