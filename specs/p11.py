"""Drag coefficients of spheres and terminal velocity (fluids/drag.py)."""
from pyvc.run import spec, static
from specs.common import abstract, rejected, formula
M = 'fluids.drag.'

FORMULAS = {
    'Stokes': '24/Re',
    'Barati': '5.4856e9*tanh(4.3774e-9/Re) + 0.0709*tanh(700.6574/Re) + 0.3894*tanh(74.1539/Re) - 0.1198*tanh(7429.0843/Re) + 1.7174*tanh(9.9851/(Re + 2.3384)) + 0.4744',
    'Barati_high': '8e-6*((Re/6530)**2 + tanh(Re) - 8*log(Re)/log(10)) - 0.4119*exp(-2.08e43/(Re + Re**2)**4) - 2.1344*exp(-((log(Re**2 + 10.7563)/log(10))**2 + 9.9867)/Re)'
                   ' + 0.1357*exp(-((Re/1620)**2 + 10370)/Re) - 8.5e-3*(2*log(tanh(tanh(Re)))/log(10) - 2825.7162)/Re + 2.4795',
    'Rouse': '24/Re + 3/sqrt(Re) + 0.34',
    'Engelund_Hansen': '24/Re + 1.5',
    'Clift_Gauvin': '24/Re*(1 + 0.152*Re**0.677) + 0.417/(1 + 5070*Re**-0.94)',
    'Graf': '24/Re + 7.3/(1 + sqrt(Re)) + 0.25',
    'Flemmer_Banks': '24/Re*exp(log(10)*(0.383*Re**0.356 - 0.207*Re**0.396 - 0.143/(1 + log10(Re)**2)))',
    'Khan_Richardson': '(2.49*Re**-0.328 + 0.34*Re**0.067)**3.18',
    'Swamee_Ojha': '0.5*(16*((24/Re)**1.6 + (130/Re)**0.72)**2.5 + ((40000/Re)**2 + 1)**-0.25)**0.25',
    'Yen': '24/Re*(1 + 0.15*sqrt(Re) + 0.017*Re) - 0.208/(1 + 1e4*Re**-0.5)',
    'Haider_Levenspiel': '24/Re*(1 + 0.1806*Re**0.6459) + 0.4251/(1 + 6880.95/Re)',
    'Cheng': '24/Re*(1 + 0.27*Re)**0.43 + 0.47*(1 - exp(-0.04*Re**0.38))',
    'Terfous': '2.689 + 21.683/Re + 0.131/Re**2 - 10.616/Re**0.1 + 12.216/Re**0.2',
    'Mikhailov_Freire': '3808*((1617933/2030) + (178861/1063)*Re + (1219/1084)*Re**2)/(681*Re*((77531/422) + (13529/976)*Re - (1/71154)*Re**2))',
    'Ceylan': '1 - 0.5*exp(0.182) + 10.11*Re**(-2/3)*exp(0.952*Re**-0.25) - 0.03859*Re**(-4/3)*exp(1.30*Re**-0.5) + 0.037e-4*Re*exp(-0.125e-4*Re) - 0.116e-10*Re**2*exp(-0.444e-5*Re)',
    'Almedeij': '(1/(1/((24/Re)**10 + (21*Re**-0.67)**10 + (4*Re**-0.33)**10 + 0.4**10 + 1/((0.148*Re**0.11)**-10 + 0.5**-10)) + 1/(1.57e8*Re**-1.625)**10) + 1/((6e-17*Re**2.63)**-10 + 0.2**-10))**0.1',
    'Morrison': '24/Re + (2.6*Re/5)/(1 + (Re/5)**1.52) + 0.411*(Re/263000)**-7.94/(1 + (Re/263000)**-8) + Re**0.80/461000',
    'Song_Xu': '24/Re*(1 + 0.35*Re)**0.44',
}
ALL = sorted(list(FORMULAS) + ['Morsi_Alexander', 'Clift'])
MAX = dict.fromkeys(ALL, 2e5)
MAX.update(Stokes=.3, Barati_high=1e6, Swamee_Ojha=1.5e5, Terfous=5e4, Mikhailov_Freire=118300, Clift=1e6, Ceylan=1e6, Almedeij=1e6, Morrison=1e6, Song_Xu=1e3)
MIN = {'Terfous': .1, 'Ceylan': .1}


@spec('P11', params=sorted(FORMULAS))
def correlation(S, n):
    Re = S.real('Re', 1e-2, MAX[n])
    S.eq(S.call(M + n, Re), formula(S, FORMULAS[n], Re=Re), 'published formula')


@spec('P11')
def barati_high_limit(S):
    Re = S.real('Re', 1e6, 1e12)
    S.eq(S.call(M + 'Barati_high', Re), S.call(M + 'Barati_high', S.const('1e6')), 'limited to 1e6')


MORSI = [('0.1', '24/Re'), ('1', '22.73/Re + 0.0903/Re**2 + 3.69'), ('10', '29.1667/Re - 3.8889/Re**2 + 1.222'), ('100', '46.5/Re - 116.67/Re**2 + 0.6167'),
         ('1000', '98.33/Re - 2778/Re**2 + 0.3644'), ('5000', '148.62/Re - 4.75e4/Re**2 + 0.357'), ('10000', '-490.546/Re + 57.87e4/Re**2 + 0.46'),
         ('1e99', '-1662.5/Re + 5.4167e6/Re**2 + 0.5191')]
CLIFT = [('0.01', '24/Re + 3/16'), ('20', '24/Re*(1 + 0.1315*Re**(0.82 - 0.05*log10(Re)))'), ('260', '24/Re*(1 + 0.1935*Re**0.6305)'),
         ('1500', 'exp(log(10)*(1.6435 - 1.1242*log10(Re) + 0.1558*log10(Re)**2))'), ('12000', 'exp(log(10)*(-2.4571 + 2.5558*log10(Re) - 0.9295*log10(Re)**2 + 0.1049*log10(Re)**3))'),
         ('44000', 'exp(log(10)*(-1.9181 + 0.6370*log10(Re) - 0.0636*log10(Re)**2))'), ('338000', 'exp(log(10)*(-4.3390 + 1.5809*log10(Re) - 0.1546*log10(Re)**2))'),
         ('400000', '29.78 - 5.3*log10(Re)'), ('1e99', '0.19*log10(Re) - 0.49')]


@spec('P11', params=['Morsi_Alexander', 'Clift'])
def piecewise(S, n):
    Re = S.real('Re', 1e-3, 1e6)
    for lim, f in {'Morsi_Alexander': MORSI, 'Clift': CLIFT}[n]:
        if Re < S.const(lim):
            return S.eq(S.call(M + n, Re), formula(S, f, Re=Re), 'published formula of the range below ' + lim)


@spec('P11', params=ALL)
def positive(S, n):
    Re = S.real('Re', MIN.get(n, 1e-2), MAX[n])
    S.gt(S.call(M + n, Re), 0, 'positive over its range')


@spec('P11', params=['default'] + ALL)
def dispatch(S, n):
    n = None if n == 'default' else n
    Re = S.real('Re', 1e-4, 1e7)
    for k in ALL:
        abstract(S, M + k)
    f = lambda k: S.call(M + k, Re)
    v = S.call(M + 'drag_sphere', Re, Method=n)
    if n is not None:
        return S.eq(v, f(n), 'the named correlation')
    S.eq(v, S.call(M + 'drag_sphere', Re), 'default')
    hi = S.const('212963.26847812787')
    if Re > S.const('0.1'):
        S.eq(v, f('Barati') if Re <= hi else f('Barati_high'), 'Barati correlations')
    elif Re >= S.const('0.01'):
        x = (Re - S.const('0.01')) / S.const('0.09')
        S.eq(v, x * f('Barati') + (1 - x) * f('Stokes'), 'blend of Stokes and Barati')
    else:
        S.eq(v, f('Stokes'), 'Stokes')


@spec('P11')
def default_continuous(S):
    """the correlations of the default method meet where they change over"""
    hi = S.const('212963.26847812787')
    a, b = S.call(M + 'Barati', hi), S.call(M + 'Barati_high', hi)
    S.eq(a, b, 'Barati correlations meet', rtol=1e-6, crtol=1e-6)


@spec('P11')
def unknown(S):
    rejected(S, S.attempt(M + 'drag_sphere', S.real('Re', 1, 1e4), Method='no such method'), 'unknown method')


@spec('P11')
def offered(S):
    Re = S.real('Re', 1e-3, 2e6)
    for x in set(MAX.values()) | set(MIN.values()):
        S.assume(abs(Re - S.const(repr(x))) > 1e-9)
    ms = S.call(M + 'drag_sphere_methods', Re)
    S.check(sorted(S.call(M + 'drag_sphere_methods', Re, False)) == ALL, 'all methods without range check')
    S.check(len(set(ms)) == len(ms), 'no repeats')
    for n in ALL:
        S.check((n in ms) == bool(Re < MAX[n] and (n not in MIN or Re > S.const(repr(MIN[n])))), 'offered exactly in its range: ' + n)


def particle(S):
    D, rhop, x, mu = S.real('D', 1e-7, 1), S.real('rhop', 10, 2e4), S.real('rho/rhop', 1e-5, .99), S.real('mu', 1e-6, 10)
    return D, rhop, x * rhop, mu


@spec('P11')
def terminal_velocity(S):
    D, rhop, rho, mu = particle(S)
    n = S.pick('method', [None, 'Stokes', 'Clift', 'Barati'])
    for k in ALL:
        abstract(S, M + k, positive=True)
    g = S.const('9.80665')
    S.assume(g * D ** 3 * rho * (rhop - rho) < S.const('1e8') * mu * mu)      # inside the range of the correlations
    V = S.call(M + 'v_terminal', D=D, rhop=rhop, rho=rho, mu=mu, Method=n)
    lam = g * D * D * (rhop - rho) / (18 * mu)
    if n == 'Stokes' or rho * lam * D / mu < S.const('0.01'):
        S.eq(V, lam, 'Stokes law')
    else:
        S.ge(V, 0, 'falls')
        Cd = S.call(M + 'drag_sphere', rho * V * D / mu, Method=n)
        # drag equals buoyant weight
        S.eq(V * V * Cd * rho * 3, 4 * g * D * (rhop - rho), 'drag balances buoyant weight', crtol=1e-5)


@spec('P11')
def stokes_fall(S):
    D, rhop, rho, mu = particle(S)
    V, t = S.real('V', 0, 100), S.real('t', 0, 100)
    g, m = S.const('9.80665'), S.m
    k = 18 * mu / (D * D * rhop)
    S.assume(k * t < 300)
    S.assume(k * t > 1e-3)       # rounding error of the closed form
    f = lambda **kw: S.call(M + 'integrate_drag_sphere', D=D, rhop=rhop, rho=rho, mu=mu, t=t, V=V, Method='Stokes', **kw)
    vt = g * D * D * (rhop - rho) / (18 * mu)
    v = f()
    S.eq(v, vt + (V - vt) * m.exp(-k * t), 'Stokes equation of motion', crtol=1e-5)
    v2, x = f(distance=True)
    S.eq(v2, v, 'same velocity')
    S.eq(x, vt * t + (V - vt) * (1 - m.exp(-k * t)) / k, 'distance is the integral of the velocity', crtol=1e-4)


@spec('P11')
def stokes_time(S):
    D, rhop, rho, mu = particle(S)
    tol, y = S.real('tol', 1e-7, 1e-3), S.real('V0/Vt', 0, 10)
    S.assume((y < S.const('0.9')) | (y > S.const('1.1')))
    vt = S.const('9.80665') * D * D * (rhop - rho) / (18 * mu)
    t = S.call(M + 'time_v_terminal_Stokes', D=D, rhop=rhop, rho=rho, mu=mu, V0=y * vt, tol=tol)
    k = 18 * mu / (D * D * rhop)
    S.eq(S.m.exp(-k * t) * abs(y - 1), tol, 'velocity is within tol of terminal after that time', crtol=1e-5)
    S.gt(t, 0, 'positive')


@spec('P11')
def stokes_fall_long(S):
    """where the exponential overflows: the closed form up to the Stokes settling time, then uniform motion"""
    D, rhop, rho, mu = particle(S)
    V, m = S.real('V', 0, 100), S.m
    k = 18 * mu / (D * D * rhop)
    f = lambda t: S.call(M + 'integrate_drag_sphere', D=D, rhop=rhop, rho=rho, mu=mu, t=t, V=V, Method='Stokes', distance=True)
    vt = S.const('9.80665') * D * D * (rhop - rho) / (18 * mu)
    if not S.symbolic:
        t = S.real('k*t', 710, 1e5) / k
        v, x = f(t)
        S.eq(v, vt, 'terminal velocity', crtol=1e-5)
        return S.check(abs(x - vt * t - (V - vt) / k) <= 1e-4 * (vt * t + abs(V - vt) / k), 'distance')
    n = []
    e = S.mod('drag').exp

    def overflow(x):
        n.append(x)
        if len(n) == 1:
            raise OverflowError('math range error')
        return e(x)
    T, dt = S.real('settling time', 1e-6, 1e6), S.real('remaining time', 1e-6, 1e6)
    S.stub(M + 'time_v_terminal_Stokes', lambda orig, *a, **kw: T)
    S.mod('drag').exp = overflow
    try:
        v, x = f(T + dt)
    finally:
        S.mod('drag').exp = e
    v1 = vt + (V - vt) * m.exp(-k * T)
    S.eq(v, v1, 'velocity after settling')
    S.eq(x, vt * T + (V - vt) * (1 - m.exp(-k * T)) / k + v1 * dt, 'distance, settling and uniform motion')


class Integrated(Exception):
    pass


@spec('P11', params=['default', 'Clift', 'Khan_Richardson'])
def fall_dynamics(S, n):
    """outside the Stokes regime the integrator is given the balance of weight, buoyancy and drag; inside it the closed form is used"""
    import scipy.integrate as si
    import numpy
    n = None if n == 'default' else n
    D, rhop, rho, mu = particle(S)
    V, t = S.real('V', 0, 100), S.real('t', 1e-3, 100)
    g = S.const('9.80665')
    S.assume(g * D ** 3 * rho * (rhop - rho) < S.const('1e8') * mu * mu)      # inside the range of the correlations
    for k in ALL:
        abstract(S, M + k, positive=True)
    if S.symbolic:
        S.stub(M + 'v_terminal', lambda orig, **kw: vend)
        vend = S.real('terminal velocity', 1e-9, 1e3)
    else:
        vend = S.call(M + 'v_terminal', D=D, rhop=rhop, rho=rho, mu=mu, Method=n)
    Re = lambda v: rho * v * D / mu
    lam = n is None and bool(Re(V) < S.const('0.01')) and bool(Re(vend) < S.const('0.01'))
    dist = S.flag('distance')
    got, kw = [], dict(D=D, rhop=rhop, rho=rho, mu=mu, t=t, V=V)
    if n is not None:
        kw['Method'] = n
    if dist:
        kw['distance'] = True

    def odeint(*a, **k):
        got.append(a)
        raise Integrated()

    old, oldl = si.odeint, numpy.linspace
    si.odeint = odeint
    if S.symbolic:
        numpy.linspace = lambda a, b, n: [a, b, n]
    try:
        o = S.attempt(M + 'integrate_drag_sphere', **kw)
    finally:
        si.odeint, numpy.linspace = old, oldl
    S.check(isinstance(o.exc, Integrated) == (not lam), 'closed form exactly in the Stokes regime')
    if lam:
        if S.symbolic:
            kt = 18 * mu / (D * D * rhop) * t
            S.assume(kt < 300)
        S.check(o.ok and isinstance(o.value, tuple) == dist, 'what was asked for')
        return
    if not isinstance(o.exc, Integrated):
        return
    dv, y0, ts = got[0]
    S.check(len(y0) == 1, 'one state')
    S.eq(y0[0], V, 'initial velocity')
    S.eq(ts[0], 0, 'starts at zero')
    S.eq(ts[1] if S.symbolic else float(ts[-1]), t, 'ends at the given time')
    v = S.real('velocity', 1e-6, 1e3)
    S.assume(Re(v) < S.const('1e6'))
    Cd = S.call(M + 'drag_sphere', Re(v), Method=n)
    a = g * (rhop - rho) / rhop
    b = 3 * rho * v * v * Cd / (4 * D * rhop)
    got = dv([v], S.const('0'))
    if S.symbolic:
        S.eq(got, a - b, 'weight less buoyancy and drag')
    else:
        S.check(abs(got - a + b) <= 1e-9 * (abs(a) + abs(b)), 'weight less buoyancy and drag')
    S.eq(dv([S.const('0')], S.const('0')), a, 'at rest')
