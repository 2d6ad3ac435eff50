"""Pumps, motors and drives (fluids/pump.py); screens, meshes and grills (fluids/filters.py)."""
from pyvc.run import spec, static
from specs.common import abstract, rejected, formula
P_ = 'fluids.pump.'
F_ = 'fluids.filters.'
HP = '745.69987158227022'
NEMA_P = [1.0, 1.5, 2.0, 3.0, 4.0, 5.0, 5.5, 7.5, 10.0, 15.0, 20.0, 25.0, 30.0, 40.0, 50.0, 60.0, 75.0, 100.0, 125.0, 150.0, 175.0, 200.0, 250.0, 300.0, 350.0, 400.0, 450.0, 500.0]
CSA = {
    ('min', 'closed', 2): [0.755, 0.825, 0.84, 0.855, 0.855, 0.875, 0.875, 0.885, 0.895, 0.902, 0.902, 0.91, 0.91, 0.917, 0.924, 0.93, 0.93, 0.936, 0.945, 0.945, 0.95, 0.95, 0.954, 0.954, 0.954, 0.954, 0.954, 0.954],
    ('min', 'closed', 4): [0.825, 0.84, 0.84, 0.875, 0.875, 0.875, 0.875, 0.895, 0.895, 0.91, 0.91, 0.924, 0.924, 0.93, 0.93, 0.936, 0.941, 0.945, 0.945, 0.95, 0.95, 0.95, 0.95, 0.954, 0.954, 0.954, 0.954, 0.958],
    ('min', 'closed', 6): [0.8, 0.855, 0.865, 0.875, 0.875, 0.875, 0.875, 0.895, 0.895, 0.902, 0.902, 0.917, 0.917, 0.93, 0.93, 0.936, 0.936, 0.941, 0.941, 0.95, 0.95, 0.95, 0.95, 0.95, 0.95, 0.95, 0.95, 0.95],
    ('min', 'closed', 8): [0.74, 0.77, 0.825, 0.84, 0.84, 0.855, 0.855, 0.855, 0.885, 0.885, 0.895, 0.895, 0.91, 0.91, 0.917, 0.917, 0.93, 0.93, 0.936, 0.936, 0.941, 0.941, 0.945, 0.945, 0.945, 0.945, 0.945, 0.945],
    ('min', 'open', 2): [0.755, 0.825, 0.84, 0.84, 0.84, 0.855, 0.855, 0.875, 0.885, 0.895, 0.902, 0.91, 0.91, 0.917, 0.924, 0.93, 0.93, 0.93, 0.936, 0.936, 0.945, 0.945, 0.945, 0.95, 0.95, 0.954, 0.958, 0.958],
    ('min', 'open', 4): [0.825, 0.84, 0.84, 0.865, 0.865, 0.875, 0.875, 0.885, 0.895, 0.91, 0.91, 0.917, 0.924, 0.93, 0.93, 0.936, 0.941, 0.941, 0.945, 0.95, 0.95, 0.95, 0.954, 0.954, 0.954, 0.954, 0.958, 0.958],
    ('min', 'open', 6): [0.8, 0.84, 0.855, 0.865, 0.865, 0.875, 0.875, 0.885, 0.902, 0.902, 0.91, 0.917, 0.924, 0.93, 0.93, 0.936, 0.936, 0.941, 0.941, 0.945, 0.945, 0.945, 0.954, 0.954, 0.954, 0.954, 0.954, 0.954],
    ('min', 'open', 8): [0.74, 0.755, 0.855, 0.865, 0.865, 0.875, 0.875, 0.885, 0.895, 0.895, 0.902, 0.902, 0.91, 0.91, 0.917, 0.924, 0.936, 0.936, 0.936, 0.936, 0.936, 0.936, 0.945, 0.945, 0.945, 0.945, 0.945, 0.945],
    ('high', 'closed', 2): [0.77, 0.84, 0.855, 0.865, 0.885, 0.885, 0.885, 0.895, 0.902, 0.91, 0.91, 0.917, 0.917, 0.924, 0.93, 0.936, 0.936, 0.941, 0.95, 0.95, 0.954, 0.954],
    ('high', 'closed', 4): [0.855, 0.865, 0.865, 0.895, 0.895, 0.895, 0.895, 0.917, 0.917, 0.924, 0.93, 0.936, 0.936, 0.941, 0.945, 0.95, 0.954, 0.954, 0.954, 0.958, 0.962, 0.962],
    ('high', 'closed', 6): [0.825, 0.875, 0.885, 0.895, 0.895, 0.895, 0.895, 0.91, 0.91, 0.917, 0.917, 0.93, 0.93, 0.941, 0.941, 0.945, 0.945, 0.95, 0.95, 0.958, 0.958, 0.958],
    ('high', 'open', 2): [0.77, 0.84, 0.855, 0.855, 0.865, 0.865, 0.865, 0.885, 0.895, 0.902, 0.91, 0.917, 0.917, 0.924, 0.93, 0.936, 0.936, 0.936, 0.941, 0.941, 0.95, 0.95],
    ('high', 'open', 4): [0.855, 0.865, 0.865, 0.895, 0.895, 0.895, 0.895, 0.91, 0.917, 0.93, 0.93, 0.936, 0.941, 0.941, 0.945, 0.95, 0.95, 0.954, 0.954, 0.958, 0.958, 0.958],
    ('high', 'open', 6): [0.825, 0.865, 0.875, 0.885, 0.895, 0.895, 0.895, 0.902, 0.917, 0.917, 0.924, 0.93, 0.936, 0.941, 0.941, 0.945, 0.945, 0.95, 0.95, 0.954, 0.954, 0.954],
}
UNDERLOADED = [(1, 0.9218102, [0.015807118828266818, 4.3158627514876216, -8.561209796902544, 8.204035503914739, -3.014760371804307]), (5, 0.64307597, [0.015560190519232379, 4.569973181149315, -7.680015456946388, 5.470169873838081, -1.3630071852989643]), (10, 0.61724113, [0.059917274403963446, 6.356781885851186, -17.09919252770337, 20.707077651470666, -9.221513314937784]), (25, 0.61569791, [0.2953614176538984, 4.991818863206433, -13.785081664656504, 16.908273659093812, -7.581677513680961]), (60, 0.6172238, [0.46934299949154384, 4.0298663805446004, -11.632822556859477, 14.616967043793032, -6.6284514347522245]), (None, 0.40648294, [0.6823573030424291, 2.440295677102575, -6.830677099686018, 8.210843291117271, -3.5629309804411577])]
VFD_LOADS = [0.016, 0.125, 0.25, 0.42, 0.5, 0.75, 1.0]
VFD_POWERS = [3.0, 5.0, 10.0, 20.0, 30.0, 50.0, 60.0, 75.0, 100.0, 200.0, 400.0]
VFD_EFF = [[0.31, 0.77, 0.86, 0.9, 0.91, 0.93, 0.94], [0.35, 0.8, 0.88, 0.91, 0.92, 0.94, 0.95], [0.41, 0.83, 0.9, 0.93, 0.94, 0.95, 0.96], [0.47, 0.86, 0.93, 0.94, 0.95, 0.96, 0.97], [0.5, 0.88, 0.93, 0.95, 0.95, 0.96, 0.97], [0.46, 0.86, 0.92, 0.95, 0.95, 0.96, 0.97], [0.51, 0.87, 0.92, 0.95, 0.95, 0.96, 0.97], [0.47, 0.86, 0.93, 0.95, 0.96, 0.97, 0.97], [0.55, 0.89, 0.94, 0.95, 0.96, 0.97, 0.97], [0.61, 0.91, 0.95, 0.96, 0.96, 0.97, 0.97], [0.61, 0.91, 0.95, 0.96, 0.96, 0.97, 0.97]]


@spec('P16')
def corripio(S):
    Q, P = S.real('Q', 1e-3, 1), S.real('P', 1e2, 1e7)
    S.eq(S.call(P_ + 'Corripio_pump_efficiency', Q), formula(S, '-0.316 + 0.24015*log(15850.323*Q) - 0.01199*log(15850.323*Q)**2', Q=Q), 'pump efficiency in gallons per minute', crtol=1e-6)
    S.eq(S.call(P_ + 'Corripio_motor_efficiency', P), formula(S, '0.8 + 0.0319*log(P/745.69987) - 0.00182*log(P/745.69987)**2', P=P), 'motor efficiency in horsepower', crtol=1e-6)


@spec('P16')
def pump_numbers(S):
    Q, H, n, D, f, p = S.real('Q', 1e-6, 100), S.real('H', 1e-2, 1e4), S.real('n', 1, 1e5), S.real('D', 1e-3, 10), S.real('f', 1, 1e3), S.real('poles', 2, 48)
    S.eq(S.call(P_ + 'specific_speed', Q, H, n), formula(S, 'n*sqrt(Q)/H**0.75', n=n, Q=Q, H=H), 'specific speed')
    S.eq(S.call(P_ + 'specific_speed', Q, H), S.call(P_ + 'specific_speed', Q, H, S.const('3600')), 'default speed')
    S.eq(S.call(P_ + 'specific_diameter', Q, H, D), formula(S, 'D*H**0.25/sqrt(Q)', D=D, Q=Q, H=H), 'specific diameter')
    S.eq(S.call(P_ + 'speed_synchronous', f, p) * p, 120 * f, 'synchronous speed')
    S.eq(S.call(P_ + 'speed_synchronous', f) * 2, 120 * f, 'two poles by default')


@spec('P16')
def current(S):
    P, V, F = S.real('P', 1, 1e8), S.real('V', 1, 1e5), S.real('PF', .1, 1)
    f = lambda **k: S.call(P_ + 'current_ideal', P, V, **k)
    S.eq(f(phase=1, PF=F) * V * F, P, 'single phase')
    S.eq(f(phase=3, PF=F) * V * F * S.m.sqrt(S.const('3')), P, 'three phase')
    S.eq(f(), f(phase=3, PF=S.const('1')), 'default')
    for k in (2, 0, 4):
        rejected(S, S.attempt(P_ + 'current_ideal', P, V, phase=k), 'phases')


NEMA = ['0.25', '1/3', '0.5', '0.75', '1', '1.5', '2', '3', '4', '5', '5.5', '7.5', '10', '15', '20', '25', '30', '40', '50', '60', '75', '100', '125', '150', '175', '200', '250', '300', '350', '400', '450', '500']


@spec('P16', max_paths=80)
def motor_size(S):
    """the chosen motor is the smallest standard size that suffices"""
    P = S.real('P, hp', .01, 600)
    for n in NEMA:
        S.assume(abs(P - S.const(n)) > 1e-9)
    hp = S.const(HP)
    o = S.attempt(P_ + 'motor_round_size', P * hp)
    if P > 500:
        return rejected(S, o, 'larger than any motor')
    S.check(o.ok, 'a size exists')
    for n in NEMA:
        if P < S.const(n):
            return S.eq(o.value, S.const(n) * hp, 'smallest standard size not below the power', crtol=1e-9)


@spec('P16', params=sorted('%s,%s,%d' % k for k in CSA), max_paths=80)
def csa(S, k):
    level, encl, poles = k.split(',')
    T = CSA[level, encl, int(poles)]
    P = S.real('P, hp', .1, 1e3)
    for n in NEMA_P:
        S.assume(abs(P - S.const(repr(n))) > 1e-9)
    kw = dict(closed=encl == 'closed', poles=int(poles), high_efficiency=level == 'high')
    v = S.call(P_ + 'CSA_motor_efficiency', P * S.const(HP), **kw)
    if P < 1:
        e = S.const(repr(T[0]))
    elif P > S.const(repr(NEMA_P[len(T) - 1])):
        e = S.const(repr(T[-1]))
    else:
        for i in range(len(T) - 1):
            a, b, x, y = (S.const(repr(z)) for z in (T[i], T[i + 1], NEMA_P[i], NEMA_P[i + 1]))
            if P < y:
                e = a + (b - a) * (P - x) / (y - x)
                break
    S.le(abs(v - e), S.const('0.0000501'), 'tabulated efficiency, interpolated, to four digits')
    if k == 'min,open,2':
        S.eq(v, S.call(P_ + 'CSA_motor_efficiency', P * S.const(HP)), 'default')


@spec('P16', params=range(6))
def underloaded(S, i):
    lim, one, c = UNDERLOADED[i]
    lo = UNDERLOADED[i - 1][0] if i else .01
    P, load = S.real('P, hp', lo, lim or 1e3), S.real('load', 0, 1.2)
    S.assume(abs(load - S.const(repr(one))) > 1e-9)
    S.assume(P > lo * (1 + 1e-9))
    if lim:
        S.assume(P < lim * (1 - 1e-9))
    v = S.call(P_ + 'motor_efficiency_underloaded', P * S.const(HP), load)
    if load > S.const(repr(one)):
        S.eq(v, 1, 'full efficiency at and near full load')
    else:
        S.eq(v, sum((S.const(repr(x)) * load ** j for j, x in enumerate(c)), S.const('0')), 'fitted curve of the size class', crtol=1e-6)
    S.between(0, v, S.const('1.0001'), 'a fraction')
    S.eq(S.call(P_ + 'motor_efficiency_underloaded', P * S.const(HP)), S.call(P_ + 'motor_efficiency_underloaded', P * S.const(HP), S.const('0.5')), 'half load by default')


@spec('P16')
def underloaded_monotone(S):
    """a motor is never less efficient at a higher share of its load"""
    i = S.pick('class', list(range(6)))
    lim, one, c = UNDERLOADED[i]
    P = S.const(repr((lim or 100) * .9))
    v = S.real('load', 0, one - 1e-6)
    if i != 5:
        S.monotone(lambda x: S.call(P_ + 'motor_efficiency_underloaded', P * S.const(HP), x), v, +1, 'increases with load')


@spec('P16')
def vfd(S):
    P, load = S.real('P, hp', .1, 1e3), S.real('load', 1e-3, 1)
    S.assume(abs(P - 3) > 1e-6)
    S.assume(abs(P - 400) > 1e-6)
    abstract(S, 'fluids.numerics.bisplev', lo=.3, hi=.98)
    f = lambda p, *a: S.call(P_ + 'VFD_efficiency', p * S.const(HP), *a)
    q = S.const('3') if P < 3 else S.const('400') if P > 400 else P
    l = S.const('0.016') if load < S.const('0.016') else load
    hp = S.const(HP)
    S.eq(f(P, load), f(q, l), 'powers and loads outside the table take its nearest values')
    S.eq(f(P), f(P, S.const('1')), 'full load by default')
    S.between(S.const('0.29'), f(P, load), S.const('0.99'), 'tabulated range')


def finite(rows, fn):
    """outcome of finitely many concrete obligations on the real code"""
    failed = [{'label': lab, 'choices': {}, 'detail': detail, 'goal': lab, 'pc': ''} for lab, ok, detail in rows if not ok]
    n = len(rows)
    return {'obligations': n, 'discharged': n - len(failed), 'failed': failed, 'functions': [fn], 'backends': {'enumeration of the finite table': n - len(failed)}, 'witness': failed[0] if failed else None}


@static('P16')
def vfd_table(tier, seed):
    """the tabulated points themselves, evaluated through the real lookup"""
    from pyvc import instr
    p = instr.real('pump')
    return finite([('tabulated efficiency at %g hp, load %g' % (P, l), abs(p.VFD_efficiency(P * 745.6998715822702, l) - e) < 2e-4, repr(p.VFD_efficiency(P * 745.6998715822702, l)))
                   for P, row in zip(VFD_POWERS, VFD_EFF) for l, e in zip(VFD_LOADS, row)], P_ + 'VFD_efficiency')


# ---------------------------------------------------------------- screens
RES, BETAS = [20, 30, 40, 60, 80, 100, 200, 400], ['1.3', '1.1', '0.95', '0.83', '0.75', '0.7', '0.6', '0.52']
THETAS, GAMMAS = [0, 10, 20, 30, 40, 50, 60, 70, 80, 85], ['1', '0.97', '0.88', '0.75', '0.59', '0.45', '0.3', '0.23', '0.15', '0.09']
ALPHAS = '0.0015625 0.003125 0.00625 0.0125 0.025 0.05 0.1 0.15 0.2 0.25 0.3 0.35 0.4 0.45 0.5 0.55 0.6 0.65 0.7 0.75 0.8 0.85 0.9 1'.split()
KS = '1024000 256000 64000 16000 4000 1000 250 85 52 30 17 11 7.7 5.5 3.8 2.8 2 1.5 1.1 0.78 0.53 0.35 0.08 0'.split()


def table(S, x, X, Y):
    X, Y = [S.const(str(v)) for v in X], [S.const(str(v)) for v in Y]
    if x <= X[0]:
        return Y[0]
    if x >= X[-1]:
        return Y[-1]
    for i in range(len(X) - 1):
        if x < X[i + 1]:
            return Y[i] + (Y[i + 1] - Y[i]) * (x - X[i]) / (X[i + 1] - X[i])


def tilt(S, th):
    if th < 45:
        return S.m.cos(th * S.pi / 180) ** 2
    return table(S, th, THETAS, GAMMAS)


@spec('P16', max_paths=300)
def screen_round(S):
    a, Re, th = S.real('alpha', .05, .8), S.real('Re', 1, 1e4), S.real('angle', 0, 90)
    for x in RES:
        S.assume(abs(Re - x) > 1e-9)
    for x in THETAS + [45]:
        S.assume(abs(th - x) > 1e-9)
    K = S.call(F_ + 'round_edge_screen', a, Re, th)
    S.eq(K, table(S, Re, RES, BETAS) * (1 - a * a) / (a * a) * tilt(S, th), 'tabulated coefficient', crtol=1e-6)


@spec('P16', max_paths=40)
def screen_square(S):
    a = S.real('alpha', .0016, .999)
    for x in ALPHAS:
        S.assume(abs(a - S.const(x)) > 1e-9)
    S.eq(S.call(F_ + 'square_edge_screen', a), table(S, a, ALPHAS, KS), 'tabulated coefficient', crtol=1e-6)


@spec('P16', params=['round bar screen:0.95:0.2', 'diamond pattern wire:0.67:1.3', 'knotted net:0.7:4.9', 'knotless net:0.72:2.1'])
def mesh(S, k):
    n, a, b = k.split(':')
    al, th = S.real('alpha', .5, .9999), S.real('angle', 0, 90)
    for x in THETAS + [45]:
        S.assume(abs(th - x) > 1e-9)
    base = S.const(a) * (1 - al) + S.const(b) * (1 - al) ** 2
    S.eq(S.call(F_ + 'round_edge_open_mesh', al, n, th), base * tilt(S, th), 'published coefficient', crtol=1e-6)
    S.eq(S.call(F_ + 'round_edge_open_mesh', al, n), base, 'upright by default', crtol=1e-6)
    if n == 'diamond pattern wire':
        S.eq(S.call(F_ + 'round_edge_open_mesh', al), base, 'default mesh', crtol=1e-6)
        rejected(S, S.attempt(F_ + 'round_edge_open_mesh', al, 'no such mesh'), 'unknown mesh')


@spec('P16', params=['square', 'round'])
def grill(S, n):
    a, x, Dh, fd = S.real('alpha', .3, .7), S.real('l/Dh', 1, 1e3), S.real('Dh', 1e-3, 1), S.real('fd', 1e-3, .1)
    S.assume(abs(x - 50) > 1e-6)
    abstract(S, 'fluids.numerics.splev', lo=.1, hi=3)
    f = lambda **k: S.call(F_ + n + '_edge_grill', a, **k)
    base = f()
    if n == 'square':
        S.eq(base * a * a, S.const('0.5') * (1 - a) + 1 - a * a, 'thin grill')
    full = dict(l=x * Dh, Dh=Dh, fd=fd)
    S.eq(f(**full), base + fd * x / (a * a) if x > 50 else base, 'friction of a long grill', crtol=1e-6)
    for k in full:
        S.eq(f(**{q: v for q, v in full.items() if q != k}), base, 'no friction term without ' + k)


@static('P16')
def grill_table(tier, seed):
    from pyvc import instr
    f = instr.real('filters')
    return finite([('tabulated coefficient at alpha %g' % a, abs(f.round_edge_grill(a) - K) < 1e-6, repr(f.round_edge_grill(a))) for a, K in zip((.3, .4, .5, .6, .7), (2, 1, .6, .4, .2))], F_ + 'round_edge_grill')
