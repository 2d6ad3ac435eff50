"""Differential pressure flow meters (fluids/flow_meter.py)."""
from pyvc.run import spec, static
from specs.common import abstract, abstract_pair, rejected
M = 'fluids.flow_meter.'
NUM = 'fluids.numerics.'


def meter(S, D=(.005, 2), b=(.05, .85)):
    return S.real('D', *D), S.real('beta', *b)


def pressures(S):
    """upstream pressure and the ratio of the pressures"""
    return S.real('P1', 1e3, 1e8), S.real('P2/P1', .5, 1 - 1e-6)


def flow(S, D):
    """Reynolds number in the pipe and the mass flow that gives it"""
    Re, rho, mu = S.real('Re', 1e2, 1e8), S.real('rho', 1e-2, 1e4), S.real('mu', 1e-6, 1)
    return Re, rho, mu, Re * mu * S.pi * D / 4


@spec('P10')
def discharge(S):
    D, b = meter(S)
    P1, tau = pressures(S)
    rho, C, eps = S.real('rho', 1e-2, 1e4), S.real('C', .2, 1.5), S.real('eps', .2, 1)
    f = lambda n, *a, **k: S.call(M + n, *a, **k)
    m = f('flow_meter_discharge', D=D, Do=b * D, P1=P1, P2=tau * P1, rho=rho, C=C, expansibility=eps)
    Do = b * D
    S.eq(m * m * (1 - b ** 4), (S.pi * Do * Do / 4 * C * eps) ** 2 * 2 * rho * (P1 - tau * P1), 'discharge equation')
    S.gt(m, 0, 'positive')
    S.eq(f('flow_meter_discharge', D=D, Do=Do, P1=P1, P2=tau * P1, rho=rho, C=C), m / eps, 'incompressible by default')
    S.eq(f('velocity_of_approach_factor', D, Do) ** 2 * (1 - b ** 4), 1, 'velocity of approach')
    S.eq(f('flow_coefficient', D, Do, C), C * f('velocity_of_approach_factor', D, Do), 'flow coefficient')


@spec('P10')
def permanent_loss(S):
    D, b = meter(S)
    P1, tau = pressures(S)
    C = S.real('C', .2, 1)
    f = lambda n, *a, **k: S.call(M + n, *a, **k)
    r = S.m.sqrt(1 - b ** 4 * (1 - C * C))
    dP = f('dP_orifice', D, b * D, P1, tau * P1, C)
    S.eq(dP * (r + C * b * b), (r - C * b * b) * (P1 - tau * P1), 'non-recoverable loss of an orifice plate')
    S.ge(dP, 0, 'a loss')
    S.le(dP, P1 - tau * P1, 'no more than the measured drop')
    K = f('discharge_coefficient_to_K', D, b * D, C)
    S.eq(S.m.sqrt(K) * C * b * b, r - C * b * b, 'loss coefficient of the plate')
    S.eq(f('K_to_discharge_coefficient', D, b * D, K), C, 'discharge coefficient recovered from K', rtol=1e-9)


@spec('P10')
def K_round_trip(S):
    D, b = meter(S)
    K = S.real('K', 1e-3, 1e5)
    f = lambda n, *a, **k: S.call(M + n, *a, **k)
    C = f('K_to_discharge_coefficient', D, b * D, K)
    S.gt(C, 0, 'positive')
    S.eq((C * b * b * (1 + S.m.sqrt(K))) ** 2, 1 - b ** 4 * (1 - C * C), 'the coefficient whose loss coefficient is K')


@spec('P10')
def cones_and_wedges(S):
    D, h = S.real('D', .005, 2), S.real('h', .05, .95)
    P1, tau = pressures(S)
    k = S.real('k', 1, 2)
    f = lambda n, *a, **kw: S.call(M + n, *a, **kw)
    m = S.m
    bc = f('diameter_ratio_cone_meter', D, h * D)
    S.eq(bc * bc, 1 - h * h, 'beta of a cone from the open area')
    S.between(0, bc, 1, 'cone beta in (0, 1)')
    dP = P1 - tau * P1
    S.eq(f('cone_meter_expansibility_Stewart', D, h * D, P1, tau * P1, k),
         1 - (S.const('0.649') + S.const('0.696') * (1 - h * h) ** 2) * (1 - tau) / k, 'Stewart expansibility')
    S.eq(f('dP_cone_meter', D, h * D, P1, tau * P1), (S.const('1.09') - S.const('0.813') * bc) * dP, 'loss of a cone')
    bw = f('diameter_ratio_wedge_meter', D, h * D)
    S.eq(bw * bw * S.pi, m.acos(1 - 2 * h) - 2 * (1 - 2 * h) * m.sqrt(h - h * h), 'beta of a wedge from the open area')
    S.eq(f('dP_wedge_meter', D, h * D, P1, tau * P1), (S.const('1.09') - S.const('0.79') * bw) * dP, 'loss of a wedge')
    S.eq(f('C_wedge_meter_ISO_5167_6_2017', D, h * D), S.const('0.77') - S.const('0.09') * bw, 'ISO wedge')
    inch = S.const('0.0254')
    S.assume((D < S.const('0.7') * inch - 1e-9) | (D > S.const('0.7') * inch + 1e-9))
    S.assume((D < S.const('1.4') * inch - 1e-9) | (D > S.const('1.4') * inch + 1e-9))
    if D <= S.const('0.7') * inch:
        c0, c1 = S.const('0.7883'), S.const('0.107')
    elif D <= S.const('1.4') * inch:
        c0, c1 = S.const('0.6143'), S.const('0.718')
    else:
        c0, c1 = S.const('0.5433'), S.const('0.2453')
    S.eq(f('C_wedge_meter_Miller', D, h * D), c0 + c1 * (1 - bw * bw), 'Miller wedge')


@spec('P10')
def orifice_expansion(S):
    D, b = meter(S)
    P1, tau = pressures(S)
    k = S.real('k', 1, 2)
    c = S.const
    f = lambda n, *a, **kw: S.call(M + n, *a, **kw)
    e = f('orifice_expansibility', D, b * D, P1, tau * P1, k)
    S.eq(e, 1 - (c('0.351') + c('0.256') * b ** 4 + c('0.93') * b ** 8) * (1 - tau ** (1 / k)), 'ISO 5167-2:2003')
    S.lt(e, 1, 'less than 1')
    S.gt(e, 0, 'positive')
    S.eq(f('orifice_expansibility_1989', D, b * D, P1, tau * P1, k), 1 - (c('0.41') + c('0.35') * b ** 4) * (1 - tau) / k, 'ISO 5167-1:1991')


@spec('P10')
def nozzle_expansion(S):
    D, b = meter(S)
    P1, tau = pressures(S)
    f = lambda n, *a, **kw: S.call(M + n, *a, **kw)
    k = S.real('k', 1.001, 2)
    e = f('nozzle_expansibility', D, b * D, P1, tau * P1, k)
    t = tau ** (2 / k)
    S.eq(e * e * (k - 1) * (1 - b ** 4 * t) * (1 - tau), k * t * (1 - b ** 4) * (1 - tau ** ((k - 1) / k)), 'isentropic expansibility of a nozzle')
    S.eq(f('nozzle_expansibility', D, S.real('ignored', .1, 1), P1, tau * P1, k, beta=b), e, 'beta may be given')


@spec('P10')
def nozzle_limits(S):
    D, b = meter(S)
    P1, tau = pressures(S)
    f = lambda n, *a, **kw: S.call(M + n, *a, **kw)
    k = S.real('k', 1.001, 2)
    S.eq(f('nozzle_expansibility', D, b * D, P1, P1, k), 1, 'no drop, no expansion')
    e = f('nozzle_expansibility', D, b * D, P1, tau * P1, S.const('1.0'))
    # the limit of the isentropic formula as k tends to 1
    S.eq(e * e * (1 - b ** 4 * tau ** 2) * (1 - tau), -tau ** 2 * S.m.log(tau) * (1 - b ** 4), 'isothermal limit')


@spec('P10')
def nozzles(S):
    D, b = meter(S)
    Re, rho, mu, m = flow(S, D)
    c = S.const
    f = lambda n, *a, **kw: S.call(M + n, *a, **kw)
    x = c('1e6') / Re
    S.eq(f('C_long_radius_nozzle', D, b * D, rho, mu, m), c('0.9965') - c('0.00653') * S.m.sqrt(b) * S.m.sqrt(x), 'long radius nozzle')
    S.eq(f('C_ISA_1932_nozzle', D, b * D, rho, mu, m), c('0.99') - c('0.2262') * b ** c('4.1') - (c('0.00175') * b * b - c('0.0033') * b ** c('4.15')) * x ** c('1.15'), 'ISA 1932 nozzle')
    S.eq(f('C_venturi_nozzle', D, b * D), c('0.9858') - c('0.196') * b ** c('4.5'), 'venturi nozzle')
    S.eq(f('C_eccentric_orifice_ISO_15377_1998', D, b * D), c('0.9355') - c('1.6889') * b + c('3.0428') * b ** 2 - c('1.7989') * b ** 3, 'eccentric')
    S.eq(f('C_quarter_circle_orifice_ISO_15377_1998', D, b * D), c('0.73823') + c('0.3309') * b - c('1.16158') * b ** 2 + c('1.5084') * b ** 3, 'quarter circle')


@spec('P10')
def reader_harris_gallagher(S):
    D, b = meter(S, b=(.1, .8))
    Re, rho, mu, m = flow(S, D)
    taps = S.pick('taps', ['corner', 'flange', 'D', 'D/2', 'D and D/2'])
    c = S.const
    S.assume(Re > 1000)
    S.assume((Re < 3700 - 1e-6) | (Re > 3700 + 1e-6))
    cross = c('3687.1890762194826')      # where the two expressions of the maximum cross
    S.assume((Re < cross - 1e-6) | (Re > cross + 1e-6))
    x1, x2 = c('63.095734448019314') * Re ** c('-0.3'), c('22.7') - c('0.0047') * Re
    if Re < cross:
        S.lt(x1, x2, 'smaller Reynolds numbers')
        S.assume(x1 < x2)
    else:
        S.lt(x2, x1, 'larger Reynolds numbers')
        S.assume(x2 < x1)
    C = S.call(M + 'C_Reader_Harris_Gallagher', D, b * D, rho, mu, m, taps=taps)
    if taps == 'corner':
        L1 = L2 = 0
    elif taps == 'flange':
        L1 = L2 = c('0.0254') / D
    else:
        L1, L2 = 1, c('0.47')
    A = (19000 * b / Re) ** c('0.8')
    M2 = 2 * L2 / (1 - b)
    x1 = (c('1e6') / Re) ** c('0.3')
    e = S.m.exp
    if L1 is 0:
        up = c('0.043') + c('0.08') - c('0.123')
    else:
        up = c('0.043') + c('0.08') * e(-10 * L1) - c('0.123') * e(-7 * L1)
    up = up * (1 - c('0.11') * A) * b ** 4 / (1 - b ** 4)
    t1 = S.m.log10(3700 / Re) if Re < 3700 else 0
    down = 0 if L2 is 0 else -c('0.031') * (M2 - c('0.8') * M2 ** c('1.1')) * b ** c('1.3') * (1 + 8 * t1)
    want = (c('0.5961') + c('0.0261') * b ** 2 - c('0.216') * b ** 8 + c('0.000521') * (c('1e6') * b / Re) ** c('0.7')
            + (c('0.0188') + c('0.0063') * A) * b ** c('3.5') * (x2 if Re < cross else x1) + up + down)
    if D < c('0.07112'):
        want = want + c('0.011') * (c('0.75') - b) * (c('2.8') - D / c('0.0254'))
    S.eq(C, want, 'ISO 5167-2 equation', rtol=1e-8)


@spec('P10')
def rhg_rejects(S):
    D, b = meter(S)
    Re, rho, mu, m = flow(S, D)
    rejected(S, S.attempt(M + 'C_Reader_Harris_Gallagher', D, b * D, rho, mu, m, taps='vena contracta'), 'unknown taps')


MILLER = {   # (shape, taps, side, small pipe): C_inf coefficients of beta^2.1, beta^8, beta^4/(1-beta^4), beta^3; b polynomial
    ('eccentric orifice', 'flange', '180 degree', True): ('0.5917 0.3061 0.3406 -0.1019 -0.2715', '7.3 -15.7 170.8 -399.7 332.2'),
    ('eccentric orifice', 'flange', '180 degree', False): ('0.6016 0.3312 -1.5581 0.6510 -0.7308', '-139.7 1328.8 -4228.2 5691.9 -2710.4'),
    ('eccentric orifice', 'flange', '90 degree', True): ('0.5866 0.3917 0.7586 -0.2273 -0.3343', '69.1 -469.4 1245.6 -1287.5 486.2'),
    ('eccentric orifice', 'flange', '90 degree', False): ('0.6037 0.1598 -0.2918 0.0244 -0.0790', '-103.2 898.3 -2557.3 2977.0 -1131.3'),
    ('eccentric orifice', 'vena contracta', '180 degree', True): ('0.5925 0.3380 0.4016 -0.1046 -0.3212', '23.3 -207.0 821.5 -1388.6 900.3'),
    ('eccentric orifice', 'vena contracta', '180 degree', False): ('0.5922 0.3932 0.3412 -0.0569 -0.4628', '55.7 -471.4 1721.8 -2722.6 1569.4'),
    ('eccentric orifice', 'vena contracta', '90 degree', True): ('0.5875 0.3813 0.6898 -0.1963 -0.3366', '-69.3 556.9 -1332.2 1303.7 -394.8'),
    ('eccentric orifice', 'vena contracta', '90 degree', False): ('0.5949 0.4078 0.0547 0.0955 -0.5608', '52.8 -434.2 1571.2 -2460.9 1420.2'),
    ('segmental orifice', 'flange', '180 degree', True): ('0.6284 0.1462 -0.8464 0.2603 -0.2886', '0'),
    ('segmental orifice', 'flange', '180 degree', False): ('0.6276 0.0828 0.2739 -0.0934 -0.1132', '0'),
    ('segmental orifice', 'vena contracta', '180 degree', True): ('0.6261 0.1851 -0.2879 0.1170 -0.2845', '0'),
    ('segmental orifice', 'vena contracta', '180 degree', False): ('0.6276 0.0828 0.2739 -0.0934 -0.1132', '0'),
    ('quarter circle orifice', None, None, True): ('0.7746 -0.1334 1.4098 0.0675 0.3865', '0'),
    ('quarter circle orifice', None, None, False): ('0.7746 -0.1334 1.4098 0.0675 0.3865', '0'),
}


@spec('P10')
def miller_shapes(S):
    D, b = meter(S)
    Re, rho, mu, m = flow(S, D)
    shape, taps, side = S.pick('case', sorted({k[:3] for k in MILLER}, key=str))
    prefix = S.pick('name', ['', 'Miller '])
    C = S.call(M + 'C_Miller_1996', D, b * D, rho, mu, m, subtype=prefix + shape, taps=taps, tap_position=side)
    cs, bs = MILLER[(shape, taps, side, bool(D < S.const('0.1')))]
    a = [S.const(x) for x in cs.split()]
    q = b ** 4
    want = a[0] + a[1] * b ** S.const('2.1') + a[2] * q * q + a[3] * q / (1 - q) + a[4] * b ** 3
    p = 0
    for i, x in enumerate(bs.split()):
        p = p + S.const(x) * b ** i
    S.eq(C, want + p / Re ** S.const('0.75'), 'Miller (1996) correlation')


@spec('P10')
def miller_concentric(S):
    D, b = meter(S)
    Re, rho, mu, m = flow(S, D)
    taps = S.pick('taps', ['corner', 'flange', 'D and D/2', 'pipe'])
    prefix = S.pick('name', ['', 'Miller '])
    C = S.call(M + 'C_Miller_1996', D, b * D, rho, mu, m, subtype=prefix + 'orifice', taps=taps)
    c = S.const
    q, mm = b ** 4, 1000 * D
    x = c('0.5959') + c('0.0312') * b ** c('2.1') - c('0.184') * b ** 8
    if taps == 'flange':
        x = x + (c('2.286') * q / (mm * (1 - q)) if mm >= c('58.4') else c('0.039') * q / (1 - q)) - c('0.856') * b ** 3 / mm
    elif taps == 'D and D/2':
        x = x + c('0.039') * q / (1 - q) - c('0.01584')
    elif taps == 'pipe':
        x = c('0.5959') + c('0.461') * b ** c('2.1') + c('0.48') * b ** 8 + c('0.039') * q / (1 - q)
    S.eq(C, x + c('91.706') * b ** c('2.5') / Re ** c('0.75'), 'Miller (1996) correlation')


@spec('P10')
def miller_conical(S):
    D, b = meter(S)
    Re, rho, mu, m = flow(S, D)
    C = S.call(M + 'C_Miller_1996', D, b * D, rho, mu, m, subtype=S.pick('name', ['', 'Miller ']) + 'conical orifice')
    S.eq(C, S.const('0.734') if Re >= 250 * b and Re <= 500 * b else S.const('0.730'), 'Miller (1996) correlation')


@spec('P10')
def miller_rejects(S):
    D, b = meter(S)
    Re, rho, mu, m = flow(S, D)
    sub, taps, side = S.pick('case', [('orifice', 'vena contracta', '180 degree'), ('eccentric orifice', 'corner', '180 degree'),
                                        ('eccentric orifice', 'flange', '45 degree'), ('segmental orifice', 'corner', '180 degree'), ('unknown', 'corner', '180 degree')])
    rejected(S, S.attempt(M + 'C_Miller_1996', D, b * D, rho, mu, m, subtype=sub, taps=taps, tap_position=side), 'unsupported combination')


@spec('P10')
def venturi_loss(S):
    D, b = meter(S, b=(.3, .74))
    P1, tau = pressures(S)
    abstract(S, NUM + 'interp')
    dP = S.call(M + 'dP_venturi_tube', D, b * D, P1, tau * P1)
    tab = lambda n: getattr(S.mod('flow_meter'), 'venturi_tube_' + n)
    f = lambda *a: S.call(NUM + 'interp', *a)
    frac = f(D, [S.const('0.065'), S.const('0.5')], [f(b, tab('betas'), tab('dP_high')), f(b, tab('betas'), tab('dP_low'))])
    S.eq(dP, frac * (P1 - tau * P1), 'interpolated between the charts for 65 and 500 mm')


@spec('P10')
def wet_venturi(S):
    D, b = meter(S)
    P1, tau = pressures(S)
    rl, d, x = S.real('rhol', 300, 2000), S.real('rhog/rhol', 1e-4, .5), S.real('ml/mg', 1e-4, 100)
    V, H = S.real('V', .1, 100), S.real('H', .1, 2)
    rg = d * rl
    mg = V * rg * S.pi * D * D / 4
    c, e, s = S.const, S.m.exp, S.m.sqrt
    g = c('9.80665')
    Fr = V / s(g * D) * s(rg / (rl - rg))
    X = x * s(d)
    C = S.call(M + 'C_Reader_Harris_Gallagher_wet_venturi_tube', mg, x * mg, rg, rl, D, b * D, H)
    S.assume((X < c('0.016') - 1e-9) | (X > c('0.016') + 1e-9))
    w = s(X / c('0.016')) if X < c('0.016') else 1
    S.eq(C, 1 - c('0.0463') * e(-c('0.05') * Fr / b ** c('2.5')) * w, 'ISO/TR 11583 discharge coefficient')
    S.between(.9536, C, 1, 'between 0.9537 and 1')
    dP = S.call(M + 'dP_Reader_Harris_Gallagher_wet_venturi_tube', D, b * D, P1, tau * P1, x * mg, mg, rl, rg, H)
    Y = c('0.61') * e(-11 * d - c('0.045') * Fr / H) * (1 - e(-35 * X ** c('0.75') * e(-c('0.28') * Fr / H)))
    S.eq(dP, (Y + c('0.0896') + c('0.48') * b ** 9) * (P1 - tau * P1), 'ISO/TR 11583 pressure loss')


SIMPLE = ['ISO 5167 orifice', 'ISO 15377 eccentric orifice', 'ISO 15377 conical orifice', 'ISO 15377 quarter-circle orifice', 'Miller orifice', 'Miller eccentric orifice',
          'Miller segmental orifice', 'Miller conical orifice', 'Miller quarter circle orifice', 'long radius nozzle', 'ISA 1932 nozzle', 'venturi nozzle',
          'as cast convergent venturi tube', 'machined convergent venturi tube', 'rough welded convergent venturi tube', 'Hollingshead orifice',
          'Hollingshead venturi smooth', 'Hollingshead venturi sharp', 'unspecified meter', 'orifice', 'eccentric orifice', 'conical orifice', 'segmental orifice', 'quarter circle orifice']
CONES, WEDGES = ['cone meter', 'Hollingshead v cone'], ['wedge meter', 'Hollingshead wedge']
ALIAS = {'orifice': 'ISO 5167 orifice', 'eccentric orifice': 'ISO 15377 eccentric orifice', 'conical orifice': 'ISO 15377 conical orifice',
         'quarter circle orifice': 'ISO 15377 quarter-circle orifice', 'segmental orifice': 'Miller segmental orifice'}


@spec('P10')
def beta_of_type(S):
    D, h = S.real('D', .005, 2), S.real('h', .05, .95)
    for n in ('diameter_ratio_cone_meter', 'diameter_ratio_wedge_meter'):
        abstract(S, M + n)
    t = S.pick('meter', SIMPLE + CONES + WEDGES)
    b = S.call(M + 'differential_pressure_meter_beta', D=D, D2=h * D, meter_type=t)
    if t in CONES:
        want = S.call(M + 'diameter_ratio_cone_meter', D, h * D)
    elif t in WEDGES:
        want = S.call(M + 'diameter_ratio_wedge_meter', D, h * D)
    else:
        want = h
    S.eq(b, want, 'diameter ratio of the meter type')


@spec('P10')
def beta_unknown(S):
    D, h = S.real('D', .005, 2), S.real('h', .05, .95)
    rejected(S, S.attempt(M + 'differential_pressure_meter_beta', D=D, D2=h * D, meter_type='no such meter'), 'unknown type')


COEF = ['C_Reader_Harris_Gallagher', 'C_eccentric_orifice_ISO_15377_1998', 'C_quarter_circle_orifice_ISO_15377_1998', 'C_Miller_1996',
        'C_long_radius_nozzle', 'C_ISA_1932_nozzle', 'C_venturi_nozzle', 'C_wedge_meter_ISO_5167_6_2017',
        'orifice_expansibility', 'nozzle_expansibility', 'cone_meter_expansibility_Stewart', 'diameter_ratio_cone_meter', 'diameter_ratio_wedge_meter']


@spec('P10')
def coefficients_of_type(S):
    """every meter type uses its own discharge coefficient and expansibility"""
    D, b = meter(S)
    P1, tau = pressures(S)
    k = S.real('k', 1.01, 2)
    Re, rho, mu, m = flow(S, D)
    for n in COEF:
        abstract(S, M + n, positive=True)
    f = lambda n, *a, **kw: S.call(M + n, *a, **kw)
    t = S.pick('meter', [x for x in SIMPLE + CONES + WEDGES if not x.startswith('Hollingshead') and x != 'unspecified meter'])
    taps = S.pick('taps', [None, 'flange'])
    side = S.pick('side', [None, '90 degree'])
    if not S.symbolic and 'Miller' in ALIAS.get(t, t):
        taps, side = 'flange', '90 degree'       # the real correlations have no default here
    d, P2 = b * D, tau * P1
    C, eps = f('differential_pressure_meter_C_epsilon', D=D, D2=d, m=m, P1=P1, P2=P2, rho=rho, mu=mu, k=k, meter_type=t, taps=taps, tap_position=side)
    t = ALIAS.get(t, t)
    eo = f('orifice_expansibility', D, d, P1, P2, k)
    en = f('nozzle_expansibility', D, d, P1, P2, k)
    c = S.const
    if t == 'ISO 5167 orifice':
        want = f('C_Reader_Harris_Gallagher', D, d, rho, mu, m, taps or 'corner'), eo
    elif t == 'ISO 15377 eccentric orifice':
        want = f('C_eccentric_orifice_ISO_15377_1998', D, d), eo
    elif t == 'ISO 15377 quarter-circle orifice':
        want = f('C_quarter_circle_orifice_ISO_15377_1998', D, d), eo
    elif t == 'ISO 15377 conical orifice':
        want = c('0.734'), (eo + en) / 2
    elif t == 'Miller conical orifice':
        want = f('C_Miller_1996', D, d, rho, mu, m, subtype=t, taps=taps, tap_position=side), (eo + en) / 2
    elif t.startswith('Miller'):
        want = f('C_Miller_1996', D, d, rho, mu, m, subtype=t, taps=taps, tap_position=side), eo
    elif t == 'cone meter':
        want = c('0.82'), f('cone_meter_expansibility_Stewart', D, d, P1, P2, k)
    elif t == 'wedge meter':
        want = f('C_wedge_meter_ISO_5167_6_2017', D, d), f('nozzle_expansibility', D, d, P1, P2, k, beta=f('diameter_ratio_wedge_meter', D, d))
    else:
        want = {'long radius nozzle': lambda: f('C_long_radius_nozzle', D, d, rho, mu, m), 'ISA 1932 nozzle': lambda: f('C_ISA_1932_nozzle', D, d, rho, mu, m),
                'venturi nozzle': lambda: f('C_venturi_nozzle', D, d), 'as cast convergent venturi tube': lambda: c('0.984'),
                'machined convergent venturi tube': lambda: c('0.995'), 'rough welded convergent venturi tube': lambda: c('0.985')}[t](), en
    S.eq(C, want[0], 'discharge coefficient')
    S.eq(eps, want[1], 'expansibility')


@spec('P10')
def specified(S):
    """a specified coefficient or expansibility replaces the correlation, for every meter type"""
    D, b = meter(S)
    P1, tau = pressures(S)
    k, C0, e0 = S.real('k', 1.01, 2), S.real('C', .2, 1), S.real('eps', .2, 1)
    Re, rho, mu, m = flow(S, D)
    for n in COEF:
        abstract(S, M + n, positive=True)
    abstract(S, NUM + 'bisplev')
    abstract(S, NUM + 'interp')
    f = lambda **kw: S.call(M + 'differential_pressure_meter_C_epsilon', D=D, D2=b * D, m=m, P1=P1, P2=tau * P1, rho=rho, mu=mu, k=k, meter_type=t, taps='flange', tap_position='90 degree', **kw)
    t = S.pick('meter', SIMPLE + CONES + WEDGES)
    C, e = f(C_specified=C0, epsilon_specified=e0)
    S.eq(C, C0, 'specified coefficient')
    S.eq(e, e0, 'specified expansibility')
    C, e = f(C_specified=C0)
    S.eq(C, C0, 'specified coefficient alone')
    if t != 'unspecified meter':
        C1, e1 = f()
        S.eq(e, e1, 'expansibility unaffected')
        C, e = f(epsilon_specified=e0)
        S.eq(C, C1, 'coefficient unaffected')
        S.eq(e, e0, 'specified expansibility alone')
    else:
        rejected(S, S.attempt(M + 'differential_pressure_meter_C_epsilon', D=D, D2=b * D, m=m, P1=P1, P2=tau * P1, rho=rho, mu=mu, k=k, meter_type=t), 'needs a coefficient')


@spec('P10')
def hollingshead(S):
    D, b = meter(S)
    P1, tau = pressures(S)
    k = S.real('k', 1.01, 2)
    Re, rho, mu, m = flow(S, D)
    for n in COEF:
        abstract(S, M + n, positive=True)
    abstract(S, NUM + 'bisplev')
    abstract(S, NUM + 'interp')
    d, P2 = b * D, tau * P1
    f = lambda n, *a, **kw: S.call(M + n, *a, **kw)
    t = S.pick('meter', ['Hollingshead orifice', 'Hollingshead venturi smooth', 'Hollingshead venturi sharp', 'Hollingshead v cone', 'Hollingshead wedge'])
    C, e = f('differential_pressure_meter_C_epsilon', D=D, D2=d, m=m, P1=P1, P2=P2, rho=rho, mu=mu, k=k, meter_type=t)
    x = S.m.log(Re)
    tab = lambda n: getattr(S.mod('flow_meter'), n)
    if t == 'Hollingshead orifice':
        want = S.call(NUM + 'bisplev', b, x, tab('orifice_std_Hollingshead_tck')), f('orifice_expansibility', D, d, P1, P2, k)
    elif t == 'Hollingshead v cone':
        want = S.call(NUM + 'bisplev', f('diameter_ratio_cone_meter', D, d), x, tab('cone_Hollingshead_tck')), f('cone_meter_expansibility_Stewart', D, d, P1, P2, k)
    elif t == 'Hollingshead wedge':
        bw = f('diameter_ratio_wedge_meter', D, d)
        want = S.call(NUM + 'bisplev', bw, x, tab('wedge_Hollingshead_tck')), f('nozzle_expansibility', D, d, P1, P2, k, beta=bw)
    else:
        n = 'venturi_%s_Cs_Hollingshead' % t.split()[-1]
        want = S.call(NUM + 'interp', x, tab('venturi_logRes_Hollingshead'), tab(n), extrapolate=True), f('nozzle_expansibility', D, d, P1, P2, k)
    S.eq(C, want[0], 'discharge coefficient from its chart')
    S.eq(e, want[1], 'expansibility')


@spec('P10')
def loss_of_type(S):
    D, b = meter(S)
    P1, tau = pressures(S)
    C = S.real('C', .2, 1)
    for n in ('dP_orifice', 'dP_venturi_tube', 'dP_cone_meter', 'dP_wedge_meter'):
        abstract(S, M + n)
    t = S.pick('meter', [x for x in SIMPLE + CONES + WEDGES if x not in ALIAS and x not in ('venturi nozzle', 'unspecified meter')])
    f = lambda n, *a, **k: S.call(M + n, *a, **k)
    args = D, b * D, P1, tau * P1
    dP = f('differential_pressure_meter_dP', *args, C=C, meter_type=t)
    if 'cone' in t:
        want = f('dP_cone_meter', *args)
    elif 'wedge' in t:
        want = f('dP_wedge_meter', *args)
    elif 'venturi' in t:
        want = f('dP_venturi_tube', *args)
    else:
        want = f('dP_orifice', *args, C)
        rejected(S, S.attempt(M + 'differential_pressure_meter_dP', *args, meter_type=t), 'coefficient needed')
    S.eq(dP, want, 'pressure loss of the meter type')


@spec('P10')
def solver(S):
    """the returned unknown is the root of  m = flow_meter_discharge(C, eps of the meter)  over the right unknown"""
    D, b = meter(S)
    P1, tau = pressures(S)
    Re, rho, mu, m = flow(S, D)
    k = S.real('k', 1.01, 2)
    abstract(S, M + 'flow_meter_discharge', positive=True)
    abstract_pair(S, M + 'differential_pressure_meter_C_epsilon')
    t = S.pick('meter', ['ISO 5167 orifice', 'wedge meter'])
    u = S.pick('unknown', ['m', 'D2', 'P1', 'P2'])
    given = {'m': m, 'D2': b * D, 'P1': P1, 'P2': tau * P1}
    if not S.symbolic:      # a consistent problem, so that a root exists
        given['m'] = S.call(M + 'differential_pressure_meter_solver', D=D, rho=rho, mu=mu, k=k, meter_type=t, D2=b * D, P1=P1, P2=tau * P1)
    extra = S.pick('options', [{}, {'taps': 'flange', 'tap_position': '90 degree', 'C_specified': .6, 'epsilon_specified': .9}])
    given[u] = None
    got = given[u] = S.call(M + 'differential_pressure_meter_solver', D=D, rho=rho, mu=mu, k=k, meter_type=t, **given, **extra)
    kw = dict(given)
    mm = kw.pop('m')
    C, e = S.call(M + 'differential_pressure_meter_C_epsilon', D=D, m=mm, rho=rho, mu=mu, k=k, meter_type=t, **kw, **extra)
    q = S.call(M + 'flow_meter_discharge', D=D, Do=kw['D2'], P1=kw['P1'], P2=kw['P2'], rho=rho, C=C, expansibility=e, meter_type=t)
    S.eq(q, mm, 'the answer satisfies the discharge equation', crtol=1e-4)


@spec('P10')
def solver_rejects(S):
    D, b = meter(S)
    P1, tau = pressures(S)
    Re, rho, mu, m = flow(S, D)
    k = S.real('k', 1.01, 2)
    two = S.pick('given', [('m', 'D2'), ('P1', 'P2'), ('m', 'P1'), ('m', 'D2', 'P1', 'P2')])
    v = {'m': m, 'D2': b * D, 'P1': P1, 'P2': tau * P1}
    rejected(S, S.attempt(M + 'differential_pressure_meter_solver', D=D, rho=rho, mu=mu, k=k, **{x: v[x] for x in two}), 'exactly one unknown')
