"""IEC 60534 control valves: choking, sizing, characteristics, flow coefficient conversion and noise (fluids/control_valve.py)."""
from pyvc.run import spec, static
from pyvc import instr
from specs.common import abstract, rejected, formula
C_ = 'fluids.control_valve.'
RHO0 = '999.10329075702327'


def pressures(S):
    P1 = S.real('P1', 1e4, 1e8)
    Psat = P1 * S.real('Psat/P1', 1e-4, .6)
    return P1, Psat, Psat / S.real('Psat/Pc', 1e-6, .999)


def FF(S, Psat, Pc):
    return formula(S, '0.96 - 0.28*sqrt(a/b)', a=Psat, b=Pc)


@spec('P22')
def definitions(S):
    P1, Psat, Pc = pressures(S)
    P2 = P1 * S.real('P2/P1', .01, .99)
    S.eq(S.call(C_ + 'cavitation_index', P1, P2, Psat) * (P1 - P2), P1 - Psat, 'cavitation index')
    S.eq(S.call(C_ + 'FF_critical_pressure_ratio_l', Psat, Pc), FF(S, Psat, Pc), 'critical pressure ratio factor')


@spec('P22')
def choke_liquid(S):
    """the choking pressure sits exactly on the choking limit, from either side"""
    P1, Psat, Pc = pressures(S)
    FL = S.real('FL', .1, .99)
    f = FF(S, Psat, Pc)
    P2 = S.call(C_ + 'control_valve_choke_P_l', Psat, Pc, FL, P1, check_choking=False)
    S.eq(P1 - P2, FL * FL * (P1 - f * Psat), 'choking limit', crtol=1e-7)
    if S.symbolic:
        S.eq(S.call(C_ + 'control_valve_choke_P_l', Psat, Pc, FL, P2=P2, check_choking=False), P1, 'back to the upstream pressure')
    else:
        S.check(abs(S.call(C_ + 'control_valve_choke_P_l', Psat, Pc, FL, P2=P2, check_choking=False) - P1) < 1e-6 * P1 / (1 - FL * FL), 'back to the upstream pressure')
    S.assume(abs(P1 - f * Psat) > P1 * S.const('1e-6'))
    o = S.attempt(C_ + 'control_valve_choke_P_l', Psat, Pc, FL, P1)
    if P1 > f * Psat:
        S.check(o.ok, 'choking possible')
        if o.ok:
            S.eq(o.value, P2, 'checked or not')
    else:
        rejected(S, o, 'no choking below the vapour pressure limit')
    rejected(S, S.attempt(C_ + 'control_valve_choke_P_l', Psat, Pc, FL), 'no pressure')
    rejected(S, S.attempt(C_ + 'control_valve_choke_P_l', Psat, Pc, FL, P1, P2), 'two pressures')


@spec('P22')
def choke_gas(S):
    xT, k, P1 = S.real('xT', .05, .8), S.real('gamma', 1.01, 1.67), S.real('P1', 1e4, 1e8)
    P2 = S.call(C_ + 'control_valve_choke_P_g', xT, k, P1)
    S.eq((P1 - P2) / P1, k / S.const('1.4') * xT, 'choking limit', crtol=1e-7)
    S.eq(S.call(C_ + 'control_valve_choke_P_g', xT, k, P2=P2), P1, 'back to the upstream pressure')
    rejected(S, S.attempt(C_ + 'control_valve_choke_P_g', xT, k), 'no pressure')
    rejected(S, S.attempt(C_ + 'control_valve_choke_P_g', xT, k, P1, P2), 'two pressures')


@spec('P22')
def choked(S):
    P1, Psat, Pc = pressures(S)
    f, FL, FLP, FP = FF(S, Psat, Pc), S.real('FL', .1, 1), S.real('FLP', .1, 1), S.real('FP', .1, 1)
    dP = P1 * S.real('dP/P1', .001, .999)
    lim = {'FL': FL * FL * (P1 - f * Psat), 'FLP': (FLP / FP) ** 2 * (P1 - f * Psat)}
    for kw in (dict(FL=FL), dict(FLP=FLP, FP=FP), dict(FL=FL, FLP=FLP, FP=FP)):
        l = lim['FLP' if 'FP' in kw else 'FL']
        S.assume(abs(dP - l) > P1 * S.const('1e-9'))
        S.check(bool(S.call(C_ + 'is_choked_turbulent_l', dP, P1, Psat, f, **kw)) == bool(dP > l), 'liquid choking %s' % sorted(kw))
    rejected(S, S.attempt(C_ + 'is_choked_turbulent_l', dP, P1, Psat, f), 'no recovery factor')
    rejected(S, S.attempt(C_ + 'is_choked_turbulent_l', dP, P1, Psat, f, FLP=FLP), 'no piping factor')
    x, Fg, xT = S.real('x', .001, .999), S.real('Fgamma', .7, 1.2), S.real('xT', .05, 1)
    S.assume(abs(x - Fg * xT) > 1e-9)
    for kw in (dict(xT=xT), dict(xTP=xT)):
        S.check(bool(S.call(C_ + 'is_choked_turbulent_g', x, Fg, **kw)) == bool(x > Fg * xT), 'gas choking %s' % sorted(kw))
    rejected(S, S.attempt(C_ + 'is_choked_turbulent_g', x, Fg), 'no pressure ratio factor')


def Rev(S, nu, Q, D1, FL, Fd, C):
    return formula(S, '0.0707*Fd*Q/(nu*sqrt(C*FL))*(FL**2*C**2/(0.0016*D1**4) + 1)**0.25', nu=nu, Q=Q, D1=D1, FL=FL, Fd=Fd, C=C)


@spec('P22')
def reynolds(S):
    v = dict(nu=S.real('nu', 1e-8, 1), Q=S.real('Q', 1e-6, 1e5), D1=S.real('D1', 1, 2000), FL=S.real('FL', .1, 1), Fd=S.real('Fd', .01, 1), C=S.real('C', 1e-4, 1e5))
    S.eq(S.call(C_ + 'Reynolds_valve', **v), Rev(S, **v), 'valve Reynolds number', crtol=1e-7)


@spec('P22')
def piping_loss(S):
    """published sum of inlet, outlet and Bernoulli coefficients"""
    d, D1, D2 = S.real('d', .01, 1), S.real('D1', .01, 2), S.real('D2', .01, 2)
    up = formula(S, '0.5*(1 - (d/D)**2)**2 + 1 - (d/D)**4', d=d, D=D1)
    down = formula(S, '(1 - (d/D)**2)**2 - (1 - (d/D)**4)', d=d, D=D2)
    f = lambda **k: S.call(C_ + 'loss_coefficient_piping', d, **k)
    S.eq(f(D1=D1), up, 'inlet')
    S.eq(f(D2=D2), down, 'outlet')
    S.eq(f(D1=D1, D2=D2), up + down, 'both')
    S.eq(f(), 0, 'neither')


@spec('P22', params=['full', 'reduced'])
def reynolds_factor(S, trim):
    FL, C, d, Re = S.real('FL', .2, 1), S.real('C', 1e-4, 1e3), S.real('d', 1, 1000), S.real('Rev', 1e-2, 1e6)
    if trim == 'full':
        q = C / d ** 2
        S.assume(abs(q / S.const('0.04') - 1) > 1e-9)
        if q > S.const('0.04'):
            q = S.const('0.04')
        n = formula(S, '0.0016/q**2', q=q)
    else:
        n = formula(S, '1 + 140*(C/d**2)**(2/3)', C=C, d=d)
    lam = formula(S, '0.026/FL*sqrt(n*Re)', FL=FL, n=n, Re=Re)
    if trim == 'full':
        S.assume(lam < 1 - 1e-9)      # the other case is a known finding
    S.assume(abs(lam - 1) > 1e-9)
    if lam > 1:
        lam = S.const('1')
    S.assume(abs(Re - 10) > 1e-6)
    if Re > 10:
        t = formula(S, '1 + 0.33*sqrt(FL)/n**0.25*log10(Re/10000)', FL=FL, n=n, Re=Re)
        S.assume(abs(t - lam) > 1e-9)
        if t < lam:
            lam = t
    S.eq(S.call(C_ + 'Reynolds_factor', FL, C, d, Re, full_trim=trim == 'full'), lam, 'published factor', rtol=1e-6, crtol=1e-6)
    if trim == 'full':
        S.eq(S.call(C_ + 'Reynolds_factor', FL, C, d, Re), lam, 'full trim by default', rtol=1e-6, crtol=1e-6)


# ---------------------------------------------------------------- sizing
def liquid(S):
    P1, Psat, Pc = pressures(S)
    v = dict(rho=S.real('rho', 100, 3000), Psat=Psat, Pc=Pc, mu=S.real('mu', 1e-5, 10), P1=P1, P2=P1 * S.real('P2/P1', .01, .99), Q=S.real('Q', 1e-6, 10))
    f = FF(S, Psat, Pc)
    S.assume(P1 - f * Psat > P1 * S.const('1e-6'))
    return v, f


def base_l(S, v, f, FL, allow):
    """choked or not, flow coefficient without fittings (kPa, m3/h)"""
    dP, lim = v['P1'] - v['P2'], FL ** 2 * (v['P1'] - f * v['Psat'])
    S.assume(abs(dP - lim) > v['P1'] * S.const('1e-9'))
    ch = bool(dP > lim)
    return ch, formula(S, '36000*Q*sqrt(rho/%s/(0.001*p))' % RHO0, Q=v['Q'], rho=v['rho'], p=lim if ch and allow else dP)


@spec('P22')
def sizing_liquid(S):
    """without diameters, and with valve and pipe of one size in turbulent flow"""
    v, f = liquid(S)
    kw, FL, Fd = {}, S.const('0.9'), S.const('1')
    if S.flag('recovery factor given'):
        kw['FL'] = FL = S.real('FL', .1, 1)
    if S.flag('style modifier given'):
        kw['Fd'] = Fd = S.real('Fd', .01, 1)
    allow = not S.flag('choking ignored')
    if not allow:
        kw['allow_choked'] = False
    ch, C = base_l(S, v, f, FL, allow)
    S.eq(S.call(C_ + 'size_control_valve_l', **v, **kw), C, 'flow coefficient', crtol=1e-6)
    o = S.call(C_ + 'size_control_valve_l', full_output=True, **v, **kw)
    S.eq(o['Kv'], C, 'reported coefficient', crtol=1e-6)
    S.eq(o['FF'], f, 'reported factor', crtol=1e-7)
    S.check(bool(o['choked']) == ch and not o['laminar'] and o['FLP'] is None and o['FP'] is None and o['FR'] is None, 'reported state')
    D = S.real('D', .01, 2)
    for few in (dict(D1=D), dict(D1=D, D2=D), dict(d=D)):
        rejected(S, S.attempt(C_ + 'size_control_valve_l', **v, **few), 'incomplete diameters')
    R = Rev(S, v['mu'] / v['rho'], v['Q'] * 3600, D * 1000, FL, Fd, C)
    S.assume(R > 10001)
    S.eq(S.call(C_ + 'size_control_valve_l', D1=D, D2=D, d=D, **v, **kw), C, 'no fittings', crtol=1e-6)


class Stop(Exception):
    pass


STEPS = {'never choked': lambda k: k < 0, 'always choked': lambda k: True, 'choked by the fittings': lambda k: k > 0, 'choked only without fittings': lambda k: k < 1}
DEPTH = 3


def fitted(S, v):
    """valve between reducers; loss coefficients and Reynolds number by contract, fixed choking decisions"""
    FL, Fd, d = S.real('FL', .5, 1), S.real('Fd', .1, 1), S.real('d', .01, 2)
    kl, ku = S.real('loss', .01, 2), S.real('inlet loss', .01, 2)
    D1, D2 = d * S.real('D1/d', 1.01, 4), d * S.real('D2/d', 1.01, 4)

    def loss(orig, d_, D1=None, D2=None):
        S.eq(d_, d * 1000, 'valve size in mm')
        S.eq(D1, kw['D1'] * 1000, 'inlet pipe size in mm')
        if D2 is not None:
            S.eq(D2, kw['D2'] * 1000, 'outlet pipe size in mm')
        return ku if D2 is None else kl
    S.stub(C_ + 'loss_coefficient_piping', loss)
    kw = dict(D1=D1, D2=D2, d=d, FL=FL, Fd=Fd)
    S.stub(C_ + 'Reynolds_valve', lambda orig, **k: S.const('20000'))
    return kw, kl, ku


def fitted_concrete(S, f, v, start, step):
    """the same iteration evaluated independently"""
    d = S.real('d', .01, 2)
    kw = dict(D1=d * S.real('D1/d', 1.01, 4), D2=d * S.real('D2/d', 1.01, 4), d=d, FL=S.real('FL', .5, 1), Fd=S.real('Fd', .1, 1))
    D1, D2 = kw['D1'], kw['D2']
    r, r2 = (d / D1) ** 2, (d / D2) ** 2
    ku = .5 * (1 - r) ** 2 + 1 - r * r
    kl = ku + (1 - r2) ** 2 - (1 - r2 * r2)
    C = start(kw)
    R = Rev(S, v['mu'] / v['rho'] if 'rho' in v else v['mu'] * 8.31446 * v['T'] * v['Z'] / (v['P1'] * v['MW'] * .001), v['Q'] * 3600, D1 * 1000, kw['FL'], kw['Fd'], C)
    S.assume(R > 11000)
    for n in range(21):
        q = (C / (d * 1000) ** 2) ** 2
        S.assume(1 + kl / .0016 * q > 0)
        new, margin = step(kw, q, kl, ku)
        S.assume(abs(C / new - .99) > 1e-6 and margin > 1e-6)
        last, C = C, new
        if last / new >= .99 or last > 1e40:
            break
    r = S.call(f, **v, **kw)
    S.check(abs(r - C) <= 1e-3 * C or C > 1e7, 'coefficient with fittings')


@spec('P22', params=sorted(STEPS), max_paths=200, bounded='at most %d steps of the iteration' % DEPTH)
def fittings_liquid(S, kind):
    """with fittings the coefficient is the first iterate within 1 % of its successor"""
    v = dict(rho=S.real('rho', 100, 3000), Psat=S.real('Psat', 1e3, 1e5), Pc=S.real('Pc', 1e6, 1e7), mu=S.real('mu', 1e-5, 1e-3), P1=S.real('P1', 5e5, 1e7), P2=S.real('P2', 1e3, 4e5), Q=S.real('Q', 1e-3, 1))
    f = FF(S, v['Psat'], v['Pc'])
    dp, pc = formula(S, '0.001*(a - b)', a=v['P1'], b=v['P2']), formula(S, '0.001*(a - f*b)', a=v['P1'], b=v['Psat'], f=f)
    w = lambda p: formula(S, '36000*Q*sqrt(rho/%s/p)' % RHO0, Q=v['Q'], rho=v['rho'], p=p)
    factors = lambda FL, q, kl, ku: (1 / S.m.sqrt(1 + kl / S.const('0.0016') * q), FL / S.m.sqrt(1 + FL ** 2 * ku / S.const('0.0016') * q))
    if not S.symbolic:
        def step(kw, q, kl, ku):
            FP, FLP = factors(kw['FL'], q, kl, ku)
            a, b = dp, (FLP / FP) ** 2 * pc
            return w(pc) / FLP if a >= b else w(dp) / FP, abs(a / b - 1)
        return fitted_concrete(S, C_ + 'size_control_valve_l', v, lambda kw: w(kw['FL'] ** 2 * pc) if dp >= kw['FL'] ** 2 * pc else w(dp), step)
    kw, kl, ku = fitted(S, v)
    FL = kw['FL']
    calls = []

    def decide(orig, dP, P1, Psat, FF=None, FL=None, FLP=None, FP=None):
        if len(calls) > DEPTH:
            raise Stop()
        calls.append((FL, FLP, FP))
        return STEPS[kind](len(calls) - 1)
    S.stub(C_ + 'is_choked_turbulent_l', decide)
    o = S.attempt(C_ + 'size_control_valve_l', **v, **kw)
    if isinstance(o.exc, Stop):
        return
    S.check(o.ok and len(calls) >= 2, 'a coefficient')
    C = w(pc) / FL if STEPS[kind](0) else w(dp)
    for i in range(1, len(calls)):
        FP, FLP = factors(FL, (C / (kw['d'] * 1000) ** 2) ** 2, kl, ku)
        S.eq(calls[i][1], FLP, 'combined recovery factor', crtol=1e-6)
        S.eq(calls[i][2], FP, 'piping geometry factor', crtol=1e-6)
        C = w(pc) / FLP if STEPS[kind](i) else w(dp) / FP
    S.eq(o.value, C, 'coefficient with fittings', crtol=1e-5)


def gas(S):
    P1 = S.real('P1', 1e5, 1e8)
    return dict(T=S.real('T', 100, 1500), MW=S.real('MW', 2, 200), mu=S.real('mu', 1e-6, 1e-3), gamma=S.real('gamma', 1.05, 1.67), Z=S.real('Z', .3, 1.5), P1=P1, P2=P1 * S.real('P2/P1', .01, .99), Q=S.real('Q', 1e-5, 100))


def expansion(S, v, xT):
    x, Fg = (v['P1'] - v['P2']) / v['P1'], v['gamma'] / S.const('1.4')
    Y = 1 - x / (3 * Fg * xT)
    S.assume(abs(Y - S.const('2') / 3) > 1e-9)
    if Y < S.const('2') / 3:
        Y = S.const('2') / 3
    return x, Fg, Y


def flow_g(S, v, Y, x, FP=1):
    return formula(S, '3600*Q/(24.6*FP*0.001*P1*Y)*sqrt(MW*T*Z/x)', Q=v['Q'], P1=v['P1'], MW=v['MW'], T=v['T'], Z=v['Z'], Y=Y, x=x, FP=FP)


@spec('P22')
def sizing_gas(S):
    """without diameters, and with valve and pipe of one size in turbulent flow"""
    v = gas(S)
    kw, FL, Fd, xT = {}, S.const('0.9'), S.const('1'), S.const('0.7')
    if S.flag('pressure ratio factor given'):
        kw['xT'] = xT = S.real('xT', .1, 1)
    if S.flag('other factors given'):
        kw['FL'] = FL = S.real('FL', .1, 1)
        kw['Fd'] = Fd = S.real('Fd', .01, 1)
    allow = not S.flag('choking ignored')
    if not allow:
        kw['allow_choked'] = False
    x, Fg, Y = expansion(S, v, xT)
    S.assume(abs(x - Fg * xT) > 1e-9)
    ch = bool(x > Fg * xT)
    C = flow_g(S, v, Y, Fg * xT if ch and allow else x)
    S.eq(S.call(C_ + 'size_control_valve_g', **v, **kw), C, 'flow coefficient', crtol=1e-6)
    o = S.call(C_ + 'size_control_valve_g', full_output=True, **v, **kw)
    S.eq(o['Kv'], C, 'reported coefficient', crtol=1e-6)
    S.eq(o['Y'], Y, 'reported expansion factor', crtol=1e-6)
    S.check(bool(o['choked']) == ch and not o['laminar'] and o['xTP'] is None and o['FP'] is None and o['FR'] is None, 'reported state')
    D = S.real('D', .01, 2)
    for few in (dict(D1=D), dict(D1=D, D2=D), dict(d=D)):
        rejected(S, S.attempt(C_ + 'size_control_valve_g', **v, **few), 'incomplete diameters')
    abstract(S, C_ + 'Reynolds_valve', lo=10001 if S.symbolic else None)
    if not S.symbolic:
        S.assume(Rev(S, v['mu'] * 8.31446 * v['T'] * v['Z'] / (v['P1'] * v['MW'] * .001), v['Q'] * 3600, D * 1000, FL, Fd, C) > 10001)
    S.eq(S.call(C_ + 'size_control_valve_g', D1=D, D2=D, d=D, **v, **kw), C, 'no fittings', crtol=1e-6)


@spec('P22', params=['l', 'g'])
def valve_state(S, ph):
    """what the Reynolds number of the sizing is evaluated from"""
    got = []
    if not S.symbolic:
        return

    def rev(orig, **k):
        got.append(k)
        return S.const('20000')
    S.stub(C_ + 'Reynolds_valve', rev)
    D, FL, Fd = S.real('D', .01, 2), S.real('FL', .1, 1), S.real('Fd', .01, 1)
    if ph == 'l':
        v, f = liquid(S)
        nu = v['mu'] / v['rho']
    else:
        v = gas(S)
        nu = v['mu'] * formula(S, '8.31446261815324', ) * v['T'] * v['Z'] / (v['P1'] * v['MW'] * S.const('0.001'))
    C = S.call(C_ + 'size_control_valve_' + ph, D1=D, D2=D, d=D, FL=FL, Fd=Fd, **v)
    S.check(len(got) == 1, 'one Reynolds number')
    g = got[0]
    S.eq(g['nu'], nu, 'kinematic viscosity at the inlet', crtol=1e-6)
    S.eq(g['Q'], v['Q'] * 3600, 'flow rate in m3/h')
    S.eq(g['D1'], D * 1000, 'pipe size in mm')
    S.eq(g['C'], C, 'turbulent coefficient')
    S.check(g['FL'] is FL and g['Fd'] is Fd, 'factors')


@spec('P22', params=['never choked', 'always choked', 'choked by the fittings'], max_paths=200, bounded='at most %d steps of the iteration, one with choking' % DEPTH)
def fittings_gas(S, kind):
    v = dict(gas(S), P2=S.real('P2', 1e3, 9e4))
    xT = S.real('xT', .3, .9)
    x, Fg, Y = expansion(S, v, xT)
    if kind != 'never choked' and S.symbolic:
        S.assume(Y <= S.const('2') / 3)
    factors = lambda q, kl, ku: (1 / S.m.sqrt(1 + kl / S.const('0.0016') * q), xT * (1 + kl / S.const('0.0016') * q) / (1 + xT * ku / S.const('0.0018') * q))
    if not S.symbolic:
        def step(kw, q, kl, ku):
            FP, xTP = factors(q, kl, ku)
            return flow_g(S, v, Y, Fg * xTP if x >= Fg * xTP else x, FP), abs(x / (Fg * xTP) - 1)
        S.assume(abs(x / (Fg * xT) - 1) > 1e-6)
        v['xT'] = xT
        return fitted_concrete(S, C_ + 'size_control_valve_g', v, lambda kw: flow_g(S, v, Y, Fg * xT if x >= Fg * xT else x), step)
    kw, kl, ku = fitted(S, v)
    calls = []

    def decide(orig, x_, Fg_, xT=None, xTP=None):
        if len(calls) > (DEPTH if kind == 'never choked' else 1):
            raise Stop()
        S.eq(x_, x, 'pressure ratio')
        S.eq(Fg_, Fg, 'specific heat ratio factor')
        calls.append(xTP)
        return STEPS[kind](len(calls) - 1)
    S.stub(C_ + 'is_choked_turbulent_g', decide)
    o = S.attempt(C_ + 'size_control_valve_g', xT=xT, **v, **kw)
    if isinstance(o.exc, Stop):
        return
    S.check(o.ok and len(calls) >= 2, 'a coefficient')
    C = flow_g(S, v, Y, Fg * xT if STEPS[kind](0) else x)
    for i in range(1, len(calls)):
        FP, xTP = factors((C / (kw['d'] * 1000) ** 2) ** 2, kl, ku)
        S.eq(calls[i], xTP, 'pressure ratio factor with fittings', crtol=1e-6)
        C = flow_g(S, v, Y, Fg * xTP if STEPS[kind](i) else x, FP)
    S.eq(o.value, C, 'coefficient with fittings', crtol=1e-5)


@spec('P22', params=['l', 'g'])
def laminar(S, ph):
    """below the turbulent limit the turbulent coefficient is raised in steps of 30 % until the Reynolds number factor of the trial allows it"""
    FL, Fd, d = S.real('FL', .1, 1), S.real('Fd', .01, 1), S.real('d', .01, 2)
    v = liquid(S)[0] if ph == 'l' else gas(S)
    if not S.symbolic:
        return
    name = C_ + 'size_control_valve_' + ph
    S.assume(v['P2'] > v['P1'] * S.const('0.9'))
    C0 = S.call(name, FL=FL, Fd=Fd, **v)
    Cs, Fs = [], []

    def rev(orig, **k):
        Cs.append(k['C'])
        return S.real('Rev %d' % len(Cs), 1, 9999)

    def factor(orig, FL, C, d, Rev, full_trim=True):
        if len(Fs) == 4:
            raise Stop()
        lim = S.const('0.01384')
        S.eq(C, Cs[-1], 'trial coefficient')
        S.eq(d, kw['d'] * 1000, 'valve size in mm')
        q = C / (d * d)
        S.assume(abs(q / lim - 1) > 1e-9)
        S.check(bool(full_trim) == bool(q < lim), 'trim by size')
        Fs.append(S.real('FR %d' % len(Fs), .1, 1))
        return Fs[-1]
    S.stub(C_ + 'Reynolds_valve', rev)
    S.stub(C_ + 'Reynolds_factor', factor)
    kw = dict(D1=d, D2=d, d=d, FL=FL, Fd=Fd)
    o = S.attempt(name, **v, **kw)
    if isinstance(o.exc, Stop):
        return
    S.check(o.ok and len(Fs) >= 1, 'a coefficient')
    S.eq(Cs[0], C0, 'turbulent coefficient first')
    C = C0
    for i, F in enumerate(Fs):
        prev, C = C, C * S.const('1.3')
        S.eq(Cs[i + 1], C, 'trial 30 % larger')
    S.eq(o.value, C, 'last trial')
    S.gt(F * S.const('1.3'), 1, 'factor of the last trial exceeds 1/1.3')


# ---------------------------------------------------------------- characteristics and conversion
@spec('P22')
def linear_characteristic(S):
    x = S.real('opening', 0, 1)
    S.eq(instr_call(S, 'Cv_char_linear', x), x, 'linear')


def instr_call(S, name, *a):
    return getattr(S.mod('control_valve'), name)(*a)


@spec('P22')
def conversion(S):
    """Kv is the water flow in m3/h at 1 bar, Cv in US gallons per minute at 1 psi, Av in SI units"""
    K = S.real('Kv', 1e-3, 1e6)
    f = lambda x, a, b: S.call(C_ + 'convert_flow_coefficient', x, a, b)
    S.eq(f(K, 'Kv', 'Cv'), K * S.const('1.156099'), 'Cv', rtol=2e-6, crtol=2e-6)
    S.eq(f(K, 'Kv', 'Av'), K * S.const('2.7762e-5'), 'Av', rtol=2e-4, crtol=2e-4)
    for a in ('Kv', 'Cv', 'Av'):
        S.eq(f(K, a, a), K, '%s to itself' % a)
        for b in ('Kv', 'Cv', 'Av'):
            if a != b:
                S.eq(f(f(K, a, b), b, a), K, '%s to %s and back' % (a, b))
                c = ({'Kv', 'Cv', 'Av'} - {a, b}).pop()
                S.eq(f(f(K, a, c), c, b), f(K, a, b), '%s to %s by way of %s' % (a, b, c))
    rejected(S, S.attempt(C_ + 'convert_flow_coefficient', K, 'Cw', 'Kv'), 'unknown scale', NotImplementedError)
    rejected(S, S.attempt(C_ + 'convert_flow_coefficient', K, 'Kv', 'Cw'), 'unknown scale', NotImplementedError)


# ---------------------------------------------------------------- noise
BANDS = ['12.5', '16', '20', '25', '31.5', '40', '50', '63', '80', '100', '125', '160', '200', '250', '315', '400', '500', '630', '800', '1000', '1250', '1600', '2000', '2500', '3150', '4000', '5000', '6300', '8000', '10000', '12500', '16000', '20000']
AW = ['-63.4', '-56.7', '-50.5', '-44.7', '-39.4', '-34.6', '-30.2', '-26.2', '-22.5', '-19.1', '-16.1', '-13.4', '-10.9', '-8.6', '-6.6', '-4.8', '-3.2', '-1.9', '-0.8', '0', '0.6', '1.0', '1.2', '1.3', '1.2', '1.0', '0.5', '-0.1', '-1.1', '-2.5', '-4.3', '-6.6', '-9.3']


def level_sum(S, levels):
    """total of band levels, A-weighted"""
    tot = S.const('0')
    for l, a in zip(levels, AW):
        tot = tot + S.const('10') ** ((l + S.const(a)) / 10)
    return 10 * S.m.log10(tot)


@spec('P22')
def bands(S):
    m = S.mod('control_valve')
    for name, f in (('fis_l_2015', lambda f: f), ('fis_l_2015_inv', lambda f: 1 / f), ('fis_l_2015_1_5', lambda f: f * S.m.sqrt(f)), ('fis_l_2015_n1_5', lambda f: 1 / (f * S.m.sqrt(f))), ('fis_l_2015_3', lambda f: f * f * f)):
        t = getattr(m, name)
        S.check(len(t) == len(BANDS), 'number of bands')
        for a, b in zip(t, BANDS):
            S.eq(a, f(S.const(b)), '%s at %s Hz' % (name, b), rtol=1e-9, crtol=1e-9)


@spec('P22', params=['turbulent', 'cavitating'], bounded='sampled points only (33 exponential band levels are beyond the solver)', cross=15, concrete=True)
def noise_liquid(S, regime):
    if S.symbolic:
        return
    P1 = S.real('P1', 1e5, 1e7)
    Psat = P1 * S.real('Psat/P1', 1e-4, .3)
    FL, Fd = S.real('FL', .3, .99), S.real('Fd', .05, 1)
    v = dict(P1=P1, Psat=Psat, FL=FL, Fd=Fd, m=S.real('m', .1, 1e3), rho=S.real('rho', 300, 2000), c=S.real('c', 300, 3000), Kv=S.real('Kv', 1, 1e4), d=S.real('d', .01, 1), Di=S.real('Di', .01, 2), t_pipe=S.real('t_pipe', 1e-3, .05))
    opt = dict(rho_pipe='7800', c_pipe='5000', rho_air='1.2', c_air='343', An='-4.6')
    for k, (lo, hi) in dict(rho_pipe=(1e3, 1e4), c_pipe=(1e3, 1e4), rho_air=(.5, 2), c_air=(200, 500), An=(-6, -3)).items():
        opt[k] = S.real(k, lo, hi) if regime == 'turbulent' or not S.symbolic else S.const(opt[k])
    kw = dict(opt) if regime == 'turbulent' or not S.symbolic else {}
    C = S.call('fluids.fittings.Kv_to_Cv', v['Kv'])
    if regime == 'cavitating':
        kw['xFz'] = xFz = S.real('xFz', .1, .6)
    else:
        xFz = formula(S, '0.9/sqrt(1 + 3*Fd*sqrt(C/(1.17*FL)))', Fd=Fd, C=C, FL=FL)
    xz = formula(S, 'x*(600000/P)**0.125', x=xFz, P=P1)
    S.assume(xz < 1 - 1e-6)
    xF = xz * S.real('xF/xFzp1', .05, .999) if regime == 'turbulent' else xz + (1 - xz) * S.real('cavitation', .001, .95)
    v['P2'] = P2 = P1 - xF * (P1 - Psat)
    S.assume(abs(xF - FL * FL) > 1e-9)
    dPc = xF * (P1 - Psat) if xF < FL * FL else FL * FL * (P1 - Psat)
    U = formula(S, 'sqrt(2*p/rho)/FL', p=dPc, rho=v['rho'], FL=FL)
    W = v['m'] * U ** 2 * FL ** 2 / 2
    et = S.const('10') ** opt['An'] * U / v['c']
    fp = formula(S, '0.036*FL**2*C*Fd**0.75/(1.17*x**1.5*d**2)*(1/p)**0.57*U/(0.0046*Fd*sqrt(C*FL))', FL=FL, C=C, Fd=Fd, x=xz, d=v['d'], p=P1 - Psat, U=U)
    Wa = et * W
    if regime == 'cavitating':
        ec = formula(S, '0.32*et*sqrt(dP/(dPc*x))*exp(5*x)*sqrt((1 - x)/(1 - xF))*(xF/x)**5*(xF - x)**1.5', et=et, dP=xF * (P1 - Psat), dPc=dPc, x=xz, xF=xF)
        Wa = (et + ec) * W
        fc = formula(S, '6*fp*((1 - xF)/(1 - x))**2*(x/xF)**2.5', fp=fp, x=xz, xF=xF)
    Lpi = formula(S, '10*log10(3.2e9*Wa*rho*c/D**2)', Wa=Wa, rho=v['rho'], c=v['c'], D=v['Di'])
    fr = opt['c_pipe'] / (S.pi * v['Di'])
    TL = formula(S, '-10 - 10*log10(cp*rp*t/(ca*ra*D))', cp=opt['c_pipe'], rp=opt['rho_pipe'], t=v['t_pipe'], ca=opt['c_air'], ra=opt['rho_air'], D=v['Di'])
    dist = formula(S, '10*log10((D + 2*t + 2)/(D + 2*t))', D=v['Di'], t=v['t_pipe'])
    levels = []
    for b in BANDS:
        f = S.const(b)
        F = formula(S, '-8 - 10*log10(0.25*(f/p)**3 + p/f)', f=f, p=fp)
        if regime == 'cavitating':
            Fc = formula(S, '-9 - 10*log10(0.25*(f/p)**1.5 + (p/f)**1.5)', f=f, p=fc)
            F = formula(S, '10*log10(a/(a + b)*10**(0.1*x) + b/(a + b)*10**(0.1*y))', a=et, b=ec, x=F, y=Fc)
        levels.append(Lpi + F + TL - formula(S, '20*log10(r/f + (f/r)**1.5)', r=fr, f=f) - dist)
    r = S.call(C_ + 'control_valve_noise_l_2015', **v, **kw)
    want = level_sum(S, levels)
    if S.symbolic:
        S.eq(r, want, 'published level', rtol=1e-6)
    else:
        S.check(abs(r - want) < 1e-3, 'published level')


# ---------------------------------------------------------------- characteristic splines
@static('P22')
def characteristics(tier, seed):
    """published points (digitised data the splines were fitted to) and the run of the curves between them"""
    from specs.p16 import finite
    import json, os
    m = instr.real('control_valve')
    data = json.load(open(os.path.join(os.path.dirname(__file__), 'data', 'valve_characteristics.json')))
    rows = []
    for n, f in (('quick opening', m.Cv_char_quick_opening), ('equal percentage', m.Cv_char_equal_percentage)):
        for x, y in data[n]:
            v = f(x)
            rows.append(('%s at %s' % (n, x), abs(v - y) < 1e-6, 'Cv fraction %.5f, published %.5f' % (v, y)))
        g = [f(i / 2000) for i in range(2001)]
        rows.append(('%s: closed' % n, abs(g[0]) < 1e-6, g[0]))
        rows.append(('%s: open' % n, abs(g[-1] - 1) < 1e-6, g[-1]))
        drop = max(a - b for a, b in zip(g, g[1:]))
        rows.append(('%s: rises on a grid of 2000 steps' % n, drop < 0, 'drop %.2e' % drop))
    return finite(rows, C_ + 'Cv_char_quick_opening')
