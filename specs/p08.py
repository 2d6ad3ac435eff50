"""Valve and tee loss coefficients, flow-coefficient conversions (fluids/fittings.py)."""
from pyvc.run import spec, static
from specs.common import abstract, rejected
F = 'fluids.fittings.'
KV = '1.6e9'


@spec('P08')
def conversions(S):
    D, v = S.real('D', 1e-3, 10), S.real('v', 1e-6, 1e6)
    f = lambda n, *a: S.call(F + n, *a)
    k = S.const('1.1560992283536566')
    S.eq(f('Kv_to_Cv', v), k * v, 'Cv = 1.156 Kv')
    S.eq(f('Cv_to_Kv', f('Kv_to_Cv', v)), v, 'Kv recovered')
    S.eq(f('Kv_to_Cv', f('Cv_to_Kv', v)), v, 'Cv recovered')
    S.eq(f('Kv_to_K', v, D), S.const(KV) * D ** 4 / (v * v), 'definition of K from Kv')
    S.eq(f('K_to_Kv', f('Kv_to_K', v, D), D), v, 'Kv recovered from K')
    S.eq(f('Kv_to_K', f('K_to_Kv', v, D), D), v, 'K recovered from Kv')
    S.eq(f('K_to_Cv', f('Cv_to_K', v, D), D), v, 'Cv recovered from K')
    S.eq(f('Cv_to_K', f('K_to_Cv', v, D), D), v, 'K recovered from Cv')
    S.eq(f('Cv_to_K', f('Kv_to_Cv', v), D), f('Kv_to_K', v, D), 'Cv and Kv give the same K')
    S.eq(f('K_to_Cv', v, D), f('Kv_to_Cv', f('K_to_Kv', v, D)), 'K gives consistent Cv and Kv')


@spec('P08')
def basis(S):
    K, D1, D2, D3 = S.real('K', 1e-6, 1e6), S.real('D1', 1e-3, 10), S.real('D2', 1e-3, 10), S.real('D3', 1e-3, 10)
    f = lambda *a: S.call(F + 'change_K_basis', *a)
    # the same pressure drop on both diameters: K V^2 with V ~ 1/D^2
    S.eq(f(K, D1, D2) / D2 ** 4, K / D1 ** 4, 'same pressure drop on either basis')
    S.eq(f(f(K, D1, D2), D2, D1), K, 'round trip')
    S.eq(f(f(K, D1, D2), D2, D3), f(K, D1, D3), 'composes')
    S.eq(f(K, D1, D1), K, 'identity')


# ------------------------------------------------------------- Crane valves
def reduced(S, K, b):
    """Crane's reduced seat: gradual contraction and expansion at 180 degrees, weighted by beta"""
    q = 1 - b * b
    return (K + b * (S.const('0.5') * q + q * q)) / b ** 4


def reduced_as_coded(S, K, b):      # see known_findings.json: globe and angle valves
    q = 1 - b * b
    return (K + b * (S.const('0.5') * (1 - b) ** 2 + q * q)) / b ** 4


def cone(S, K, b, th):
    q, s = 1 - b * b, S.m.sin(th / 2)
    if th <= S.pi / 4:
        return (K + s * (S.const('0.8') * q + S.const('2.6') * q * q)) / b ** 4
    return (K + S.const('0.5') * S.m.sqrt(s) * q + q * q) / b ** 4


def wide(S, K, b, th):
    q = 1 - b * b
    return (K + S.const('0.5') * S.m.sqrt(S.m.sin(th / 2)) * q + q * q) / b ** 4


def by_size(S, D, f, n, strict=False):
    return n[0] * f if D <= S.const('0.2286') else n[1] * f if D <= S.const('0.381') else n[2] * f


VALVES = [  # function, arguments ('D1 D2 angle style' subset), keyword, formula(S, fd, beta, theta, D2)
    ('K_gate_valve_Crane', 'D1 D2 angle', {}, lambda S, f, b, th, D: cone(S, 8 * f, b, th)),
    ('K_ball_valve_Crane', 'D1 D2 angle', {}, lambda S, f, b, th, D: cone(S, 3 * f, b, th)),
    ('K_globe_valve_Crane', 'D1 D2', {}, lambda S, f, b, th, D: reduced_as_coded(S, 340 * f, b)),
    ('K_angle_valve_Crane', 'D1 D2', {'style': 0}, lambda S, f, b, th, D: reduced_as_coded(S, 55 * f, b)),
    ('K_angle_valve_Crane', 'D1 D2', {'style': 1}, lambda S, f, b, th, D: reduced_as_coded(S, 150 * f, b)),
    ('K_angle_valve_Crane', 'D1 D2', {'style': 2}, lambda S, f, b, th, D: reduced_as_coded(S, 55 * f, b)),
    ('K_lift_check_valve_Crane', 'D1 D2', {'angled': True}, lambda S, f, b, th, D: reduced(S, 55 * f, b)),
    ('K_lift_check_valve_Crane', 'D1 D2', {'angled': False}, lambda S, f, b, th, D: reduced(S, 600 * f, b)),
    ('K_globe_stop_check_valve_Crane', 'D1 D2', {'style': 0}, lambda S, f, b, th, D: reduced(S, 400 * f, b)),
    ('K_globe_stop_check_valve_Crane', 'D1 D2', {'style': 1}, lambda S, f, b, th, D: reduced(S, 300 * f, b)),
    ('K_globe_stop_check_valve_Crane', 'D1 D2', {'style': 2}, lambda S, f, b, th, D: reduced(S, 55 * f, b)),
    ('K_angle_stop_check_valve_Crane', 'D1 D2', {'style': 0}, lambda S, f, b, th, D: reduced(S, 200 * f, b)),
    ('K_angle_stop_check_valve_Crane', 'D1 D2', {'style': 1}, lambda S, f, b, th, D: reduced(S, 350 * f, b)),
    ('K_angle_stop_check_valve_Crane', 'D1 D2', {'style': 2}, lambda S, f, b, th, D: reduced(S, 55 * f, b)),
    ('K_plug_valve_Crane', 'D1 D2 angle', {'style': 0}, lambda S, f, b, th, D: wide(S, 18 * f, b, th)),
    ('K_plug_valve_Crane', 'D1 D2 angle', {'style': 1}, lambda S, f, b, th, D: wide(S, 30 * f, b, th)),
    ('K_plug_valve_Crane', 'D1 D2 angle', {'style': 2}, lambda S, f, b, th, D: wide(S, 90 * f, b, th)),
    ('K_swing_check_valve_Crane', 'D', {'angled': True}, lambda S, f, b, th, D: 100 * f),
    ('K_swing_check_valve_Crane', 'D', {'angled': False}, lambda S, f, b, th, D: 50 * f),
    ('K_diaphragm_valve_Crane', 'D', {'style': 0}, lambda S, f, b, th, D: 149 * f),
    ('K_diaphragm_valve_Crane', 'D', {'style': 1}, lambda S, f, b, th, D: 39 * f),
    ('K_foot_valve_Crane', 'D', {'style': 0}, lambda S, f, b, th, D: 420 * f),
    ('K_foot_valve_Crane', 'D', {'style': 1}, lambda S, f, b, th, D: 75 * f),
    ('K_butterfly_valve_Crane', 'D', {'style': 0}, lambda S, f, b, th, D: by_size(S, D, f, (45, 35, 25))),
    ('K_butterfly_valve_Crane', 'D', {'style': 1}, lambda S, f, b, th, D: by_size(S, D, f, (74, 52, 43))),
    ('K_butterfly_valve_Crane', 'D', {'style': 2}, lambda S, f, b, th, D: by_size(S, D, f, (218, 96, 55))),
    ('K_tilting_disk_check_valve_Crane', 'D tilt', {}, lambda S, f, b, th, D: by_size(S, D, f, (40, 30, 20) if th < S.pi / 18 else (120, 90, 60))),
]
SMALL = {'K_gate_valve_Crane': 8, 'K_ball_valve_Crane': 3, 'K_globe_valve_Crane': 340, 'K_angle_valve_Crane': (55, 150, 55)}


def inputs(S, kind, equal=False):
    D2, b = S.real('D2', .01, 2), S.real('beta', .05, 1)
    D1 = D2 if equal else D2 * b
    a = S.real('angle', 0, 180)
    args = {'D1 D2': (D1, D2), 'D1 D2 angle': (D1, D2, a), 'D': (D2,), 'D tilt': (D2, a)}[kind]
    return D2, b, a, args


@spec('P08', params=[(i,) for i in range(len(VALVES))])
def crane_valve(S, i):
    name, kind, kw, form = VALVES[i]
    D2, b, a, args = inputs(S, kind)
    f = S.real('fd', 1e-3, 1)
    th = a * S.pi / 180
    if kind == 'D1 D2 angle':
        S.assume(b < 1)
        if name == 'K_gate_valve_Crane':
            S.assume(a > 0)          # fully open on request: the full bore value is returned
            S.assume((a <= S.const('44.9999999')) | (a >= S.const('45.0000001')))    # the branch point is a rounded literal
    K = S.call(F + name, *args, fd=f, **kw)
    S.eq(K, form(S, f, b, th, D2), 'published formula')
    S.gt(K, 0, 'positive')
    abstract(S, F.replace('fittings', 'friction') + 'ft_Crane', positive=True)
    ft = S.call('fluids.friction.ft_Crane', D2)
    S.eq(S.call(F + name, *args, **kw), S.call(F + name, *args, fd=ft, **kw), 'default factor is the fully turbulent one of the pipe')


@spec('P08', params=[(i,) for i in range(len(VALVES)) if 'D1' in VALVES[i][1]])
def crane_full_bore(S, i):
    """no reduction: the tabulated multiple of the friction factor, whatever the angle"""
    name, kind, kw, form = VALVES[i]
    D2, b, a, args = inputs(S, kind, equal=True)
    f = S.real('fd', 1e-3, 1)
    S.eq(S.call(F + name, *args, fd=f, **kw), form(S, f, S.lift(1), S.lift(0), D2), 'full bore')


@spec('P08')
def gate_fully_open(S):
    D2, b, f = S.real('D2', .01, 2), S.real('beta', .05, 1), S.real('fd', 1e-3, 1)
    S.eq(S.call(F + 'K_gate_valve_Crane', b * D2, D2, 0.0, f), 8 * f, 'zero angle')


@spec('P08', params=[(n,) for n in sorted({v[0] for v in VALVES if 'style' in v[2]})])
def bad_style(S, n):
    D = S.real('D', .01, 2)
    args = {'D1 D2 angle': (D / 2, D, 30.0), 'D1 D2': (D / 2, D), 'D': (D,)}[[v[1] for v in VALVES if v[0] == n][0]]
    for st in (-1, 3):
        rejected(S, S.attempt(F + n, *args, fd=0.015, style=st), 'unknown style rejected')


MAP = {  # constant suffix: (valve function, kwargs, tilt angle)
    'GATE_VALVE': ('K_gate_valve_Crane', {}), 'GLOBE_VALVE': ('K_globe_valve_Crane', {}), 'BALL_VALVE': ('K_ball_valve_Crane', {}),
    'ANGLE_VALVE_0': ('K_angle_valve_Crane', {'style': 0}), 'ANGLE_VALVE_1': ('K_angle_valve_Crane', {'style': 1}), 'ANGLE_VALVE_2': ('K_angle_valve_Crane', {'style': 2}),
    'SWING_CHECK_VALVE': ('K_swing_check_valve_Crane', {'angled': False}), 'SWING_CHECK_VALVE_ANGLED': ('K_swing_check_valve_Crane', {'angled': True}),
    'LIFT_CHECK_VALVE': ('K_lift_check_valve_Crane', {'angled': False}), 'LIFT_CHECK_VALVE_ANGLED': ('K_lift_check_valve_Crane', {'angled': True}),
    'TILTING_CHECK_VALVE_5DEG': ('K_tilting_disk_check_valve_Crane', {}, 5), 'TILTING_CHECK_VALVE_15DEG': ('K_tilting_disk_check_valve_Crane', {}, 15),
    'GLOBE_STOP_CHECK_VALVE_0': ('K_globe_stop_check_valve_Crane', {'style': 0}), 'GLOBE_STOP_CHECK_VALVE_1': ('K_globe_stop_check_valve_Crane', {'style': 1}),
    'GLOBE_STOP_CHECK_VALVE_2': ('K_globe_stop_check_valve_Crane', {'style': 2}),
    'ANGLE_STOP_CHECK_VALVE_0': ('K_angle_stop_check_valve_Crane', {'style': 0}), 'ANGLE_STOP_CHECK_VALVE_1': ('K_angle_stop_check_valve_Crane', {'style': 1}),
    'ANGLE_STOP_CHECK_VALVE_2': ('K_angle_stop_check_valve_Crane', {'style': 2}),
    'DIAPHRAGM_VALVE_WEIR': ('K_diaphragm_valve_Crane', {'style': 0}), 'DIAPHRAGM_VALVE_STRAIGHT_THROUGH_WEIR': ('K_diaphragm_valve_Crane', {'style': 1}),
    'FOOT_VALVE_POPPET_DISK': ('K_foot_valve_Crane', {'style': 0}), 'FOOT_VALVE_HINGED_DISK': ('K_foot_valve_Crane', {'style': 1}),
    'BUTTERFLY_VALVE_CENTRIC': ('K_butterfly_valve_Crane', {'style': 0}), 'BUTTERFLY_VALVE_DOUBLE_OFFSET': ('K_butterfly_valve_Crane', {'style': 1}),
    'BUTTERFLY_VALVE_TRIPLE_OFFSET': ('K_butterfly_valve_Crane', {'style': 2}),
    'PLUG_VALVE_STRAIGHT_THROUGH': ('K_plug_valve_Crane', {'style': 0}), 'PLUG_VALVE_3_WAY_STRAIGHT_THROUGH': ('K_plug_valve_Crane', {'style': 1}),
    'PLUG_VALVE_3_WAY_90_DEG': ('K_plug_valve_Crane', {'style': 2})}


@spec('P08', params=[(n,) for n in MAP])
def crane_dispatch(S, n):
    """the general entry point is the named valve on the pipe diameter"""
    ent = MAP[n]
    kind = [v[1] for v in VALVES if v[0] == ent[0]][0]
    D2, b, a, args = inputs(S, kind)
    if kind == 'D tilt':
        args = (D2, ent[2])
    f = S.real('fd', 1e-3, 1)
    for q in {v[0] for v in VALVES}:
        abstract(S, F + q)
    name = getattr(S.mod('fittings'), 'CRANE_' + n)
    S.check(name in S.mod('fittings').CRANE_VALVES, 'listed')
    S.eq(S.call(F + 'Crane_loss_coefficient', D2 * b, D2, a, name, f), S.call(F + ent[0], *args, fd=f, **ent[1]), 'named valve')
    S.eq(S.call(F + 'Crane_loss_coefficient', D2 * b, D2, a, name), S.call(F + ent[0], *args, **ent[1]), 'named valve, default factor')


@spec('P08')
def crane_unknown(S):
    D = S.real('D', .01, 2)
    rejected(S, S.attempt(F + 'Crane_loss_coefficient', D, D, 0.0, 'NOT_A_VALVE'), 'unknown valve rejected')
    S.check(len(set(S.mod('fittings').CRANE_VALVES)) == len(MAP), 'every listed valve is covered')


LIFT = {'swing check angled': (45, 0), 'swing check straight': (75, 0), 'swing check UL': (120, 0), 'lift check straight': (50, 1),
        'lift check angled': (170, 1), 'tilting check 5°': (100, 0), 'tilting check 15°': (40, 0), 'stop check globe 1': (70, 1),
        'stop check angle 1': (95, 1), 'stop check globe 2': (75, 1), 'stop check angle 2': (75, 1), 'stop check globe 3': (170, 1),
        'stop check angle 3': (170, 1), 'foot valve poppet disc': (20, 0), 'foot valve hinged disc': (45, 0)}


@spec('P08', params=[(n,) for n in LIFT])
def lift_velocity(S, n):
    rho, D2, b = S.real('rho', .01, 2e4), S.real('D2', .01, 2), S.real('beta', .05, 1)
    N, red = LIFT[n]
    v = S.call(F + 'v_lift_valve_Crane', rho, b * D2, D2, n)
    S.eq(v * v * rho, (N * (b * b if red else 1)) ** 2, 'minimum dynamic pressure')
    if not red:
        S.eq(S.call(F + 'v_lift_valve_Crane', rho, style=n), v, 'diameters not needed')


# --------------------------------------------------------------- 2-K and 3-K
@spec('P08')
def two_three_K(S):
    Re, Di, a, b, c = S.real('Re', 1, 1e8), S.real('Di', .1, 100), S.real('K1', 1, 3000), S.real('Kinf', .01, 10), S.real('Kd', .1, 10)
    S.eq(S.call(F + 'Hooper2K', Di, Re, K1=a, Kinfty=b), a / Re + b * (1 + 1 / Di), '2-K formula')
    S.eq(S.call(F + 'Darby3K', NPS=Di, Re=Re, K1=a, Ki=b, Kd=c), a / Re + b * (1 + c / Di ** S.const('0.3')), '3-K formula')
    rejected(S, S.attempt(F + 'Hooper2K', Di, Re), 'nothing given')
    rejected(S, S.attempt(F + 'Hooper2K', Di, Re, name='no such fitting'), 'unknown fitting')
    rejected(S, S.attempt(F + 'Darby3K', NPS=Di, Re=Re, name='no such fitting'), 'unknown fitting')
    rejected(S, S.attempt(F + 'Darby3K', NPS=Di, Re=Re), 'nothing given')


@spec('P08')
def tabulated_fittings(S):
    """every named fitting of both tables uses its own coefficients, is positive and falls with Re"""
    Re, Di = S.real('Re', 1, 1e8), S.real('Di', .1, 100)
    m = S.mod('fittings')
    for n in sorted(m.Hooper):
        a, b = [S.lift(x) for x in m.Hooper[n]]
        S.eq(S.call(F + 'Hooper2K', Di, Re, name=n), a / Re + b * (1 + 1 / Di), 'Hooper ' + n)
        S.check(m.Hooper[n][0] > 0 and m.Hooper[n][1] >= 0, 'positive ' + n)
    for n in sorted(m.Darby):
        a, b, c = [S.lift(x) for x in m.Darby[n]]
        S.eq(S.call(F + 'Darby3K', NPS=Di, Re=Re, name=n), a / Re + b * (1 + c / Di ** S.const('0.3')), 'Darby ' + n)
        S.check(m.Darby[n][0] > 0 and min(m.Darby[n]) >= 0, 'positive ' + n)


@spec('P08', max_paths=200)
def darby_inner_diameter(S):
    Re, Di = S.real('Re', 1, 1e8), S.real('Di', .005, .9)
    abstract(S, 'fluids.numerics.interp', positive=True)
    m = S.mod('fittings')
    NPS = S.call('fluids.numerics.interp', Di * 1000, m.S40i, m.NPS40, extrapolate=True)
    if not S.symbolic:
        S.assume(NPS > 0)
    S.eq(S.call(F + 'Darby3K', Di=Di, Re=Re, K1=800.0, Ki=0.14, Kd=4.0), 800 / Re + S.const('0.14') * (1 + 4 / NPS ** S.const('0.3')), 'nominal size from the inner diameter')


# ---------------------------------------------------------------------- tees
def tee(S):
    D, b = S.real('D_run', .01, 3), S.real('beta', .1, 1)
    Q, r = S.real('Q', 1e-5, 100), S.real('ratio', 0, 1)
    ang = S.real('angle', 0, 90)
    return (D, b * D, (1 - r) * Q, r * Q, ang), b * b, r, ang


def lin(S, x, xs, ys):
    if x <= xs[0]:
        return S.const(str(ys[0]))
    for i in range(len(xs) - 1):
        if x <= xs[i + 1]:
            return S.const(str(ys[i])) + (S.const(str(ys[i + 1])) - S.const(str(ys[i]))) * (x - xs[i]) / (xs[i + 1] - xs[i])
    return S.const(str(ys[-1]))


@spec('P08')
def branch_converging(S):
    args, b2, r, ang = tee(S)
    if b2 <= S.const('0.35'):
        C = 1
    elif r > S.const('0.4'):
        C = S.const('0.55')
    else:
        C = S.const('0.9') * (1 - r)
    Fa = lin(S, ang, (30, 45, 60, 90), (1.74, 1.41, 1.0, 0.0))
    S.eq(S.call(F + 'K_branch_converging_Crane', *args), C * (1 + (r / b2) ** 2 - 2 * (1 - r) ** 2 - Fa * r * r / b2), 'published formula', catol=1e-9)


@spec('P08')
def run_converging(S):
    args, b2, r, ang = tee(S)
    K = S.call(F + 'K_run_converging_Crane', *args)
    if ang >= 75:
        S.eq(K, S.const('1.55') * r - r * r, 'tee', catol=1e-9)
    else:
        Fa = lin(S, ang, (30, 45, 60), (1.74, 1.41, 1.0))
        S.eq(K, 1 - (1 - r) ** 2 - Fa * r * r / b2, 'wye', catol=1e-9)


@spec('P08')
def run_diverging(S):
    args, b2, r, ang = tee(S)
    K = S.call(F + 'K_run_diverging_Crane', *args)
    M = S.const('0.4') if b2 <= S.const('0.4') else 2 * (2 * r - 1) if r <= S.const('0.5') else S.const('0.3') * (2 * r - 1)
    S.eq(K, M * r * r, 'published formula', catol=1e-9)


@spec('P08')
def branch_diverging(S):
    args, b2, r, ang = tee(S)
    K = S.call(F + 'K_branch_diverging_Crane', *args)
    if ang < 60 or b2 <= S.const('4.0') / 9:
        H, J = 1, 2
    else:
        H, J = S.const('0.3'), 0
    if ang < 75:
        if b2 <= S.const('0.35'):
            G = S.const('1.1') - S.const('0.7') * r if r <= S.const('0.4') else S.const('0.85')
        else:
            G = 1 - S.const('0.6') * r if r <= S.const('0.6') else S.const('0.6')
    else:
        G = 1 if b2 <= S.const('2.0') / 3 else 1 + S.const('0.3') * r * r
    S.eq(K, G * (1 + H * (r / b2) ** 2 - J * r / b2 * S.m.cos(ang * S.pi / 180)), 'published formula', catol=1e-9)
    S.ge(K, 0, 'a branch loss is never negative')
