"""Pressure relief valve sizing and flare noise (fluids/safety_valve.py)."""
import json
import os
from pyvc.run import spec, static
from specs.common import abstract, rejected, formula
from specs.p16 import table, finite
V = 'fluids.safety_valve.'
T = json.load(open(os.path.join(os.path.dirname(__file__), 'data', 'p17.json')))
AREAS = '0.11 0.196 0.307 0.503 0.785 1.287 1.838 2.853 3.6 4.34 6.38 11.05 16.0 26.0'.split()
ATM = '101325'


@spec('P17', max_paths=40)
def round_size(S):
    """the chosen orifice is the smallest standard one that suffices"""
    A = S.real('A, in2', 1e-3, 40)
    for n in AREAS:
        S.assume(abs(A - S.const(n)) > 1e-9)
    in2 = S.const('0.00064516')
    o = S.attempt(V + 'API520_round_size', A * in2)
    if A > 26:
        return rejected(S, o, 'larger than any valve')
    S.check(o.ok, 'a size exists')
    for n in AREAS:
        if A < S.const(n):
            return S.eq(o.value, S.const(n) * in2, 'smallest standard area not below the requirement', crtol=1e-9)


@spec('P17')
def coefficient_C(S):
    k = S.real('k', 1.01, 3)
    S.eq(S.call(V + 'API520_C', k), formula(S, '0.03948*sqrt(k*(2/(k + 1))**((k + 1)/(k - 1)))', k=k), 'published coefficient', crtol=1e-6)
    one = S.call(V + 'API520_C', S.const('1'))
    lim = formula(S, '0.03948*exp(-1/2)')
    S.le(abs(one - lim), lim * S.const('1e-9'), 'limit at an isentropic exponent of one')


@spec('P17')
def coefficient_F2(S):
    k, r, P1 = S.real('k', 1.01, 3), S.real('P2/P1', .01, .999), S.real('P1', 1e4, 1e8)
    S.eq(S.call(V + 'API520_F2', k, P1, r * P1), formula(S, 'sqrt(k/(k - 1)*r**(2/k)*(1 - r**((k - 1)/k))/(1 - r))', k=k, r=r), 'published coefficient', crtol=1e-6)


@spec('P17')
def coefficient_N(S):
    P = S.real('P1', 1e5, 22.057e6)
    S.assume(abs(P - 10339000) > 1)
    v = S.call(V + 'API520_N', P)
    if P < 10339000:
        S.eq(v, 1, 'no correction at low pressure')
    else:
        S.eq(v, formula(S, '(0.02764*P - 1000)/(0.03324*P - 1061)', P=P / 1000), 'published correction', crtol=1e-6)
        S.between(S.const('0.995'), v, S.const('1.2'), 'range of the correction')


@spec('P17', params=['7E', '10E'])
def superheat(S, ed):
    abstract(S, 'fluids.numerics.bisplev', lo=.6, hi=1)
    Tk, P = S.real('T1', 300, 1000), S.real('P1', 1.5e5, 3e7)
    lim, sat = (20780325.0, '422.15') if ed == '7E' else (22063223.338138755, '478.15')
    for x, c in ((Tk, 922.15), (Tk, float(sat)), (P, lim)):
        S.assume(abs(x - c) > 1e-6)
    o = S.attempt(V + 'API520_SH', Tk, P, ed)
    if Tk > S.const('922.15'):
        return rejected(S, o, 'too hot')
    cold = Tk < S.const(sat)
    if P > lim and not (cold and ed == '10E'):
        return rejected(S, o, 'too high a pressure')
    S.check(o.ok, 'accepted')
    if cold:
        S.eq(o.value, 1, 'no correction near saturation')
    else:
        S.between(S.const('0.59'), o.value, S.const('1.01'), 'range of the table')
    if ed == '10E':
        S.eq(o.value, S.call(V + 'API520_SH', Tk, P), 'default edition')
    rejected(S, S.attempt(V + 'API520_SH', S.const('600'), S.const('1e6'), '8E'), 'unknown edition')


@static('P17')
def superheat_table(tier, seed):
    """every tabulated point and the middle of every cell, through the real lookup"""
    from pyvc import instr
    f = instr.real('safety_valve').API520_SH
    rows = []
    for key, ed, sat in (('KSH7', '7E', 422.15), ('KSH10', '10E', 478.15)):
        X, Y, F = T[key]
        for j, P in enumerate(Y):
            if ed == '7E' and P > 20780325.0:
                continue
            for i, t in enumerate(X):
                if t >= sat:
                    v = f(t, P, ed)
                    rows.append(('%s tabulated factor at %g K, %g Pa' % (ed, t, P), abs(v - F[j][i]) < 1e-9, repr(v)))
                if i + 1 < len(X) and j + 1 < len(Y):
                    t2, P2 = .5 * (t + X[i + 1]), .5 * (P + Y[j + 1])
                    if t2 >= sat and not (ed == '7E' and P2 > 20780325.0):
                        v, e = f(t2, P2, ed), .25 * (F[j][i] + F[j][i + 1] + F[j + 1][i] + F[j + 1][i + 1])
                        rows.append(('%s interpolated factor at %g K, %g Pa' % (ed, t2, P2), abs(v - e) < 1e-9, repr(v)))
    return finite(rows, V + 'API520_SH')


@spec('P17', params=['0.1', '0.16', '0.21'], max_paths=120)
def backpressure_gas(S, over):
    x, Pset = S.real('percent gauge backpressure', 0, 60), S.real('Pset', 1.5e5, 1e8)
    X, Y = T['Kb16'] if over == '0.16' else T['Kb10']
    for n in X + [30, 38, 50]:
        S.assume(abs(x - S.const(repr(n))) > 1e-7)
    atm = S.const(ATM)
    Pb = atm + x * (Pset - atm) / 100
    o = S.attempt(V + 'API520_B', Pset, Pb, float(over))
    if x > 50:
        return rejected(S, o, 'backpressure above half')
    S.check(o.ok, 'accepted')
    if over == '0.21' or x < (38 if over == '0.16' else 30):
        S.eq(o.value, 1, 'no correction at low backpressure')
    else:
        S.eq(o.value, table(S, x, [repr(v) for v in X], [repr(v) for v in Y]), 'tabulated factor', crtol=1e-6)
        S.between(S.const('0.69'), o.value, 1, 'a reduction')
    if over == '0.1':
        S.eq(o.value, S.call(V + 'API520_B', Pset, Pb), 'ten percent overpressure by default')


@spec('P17')
def backpressure_gas_rejects(S):
    x, Pset = S.real('percent gauge backpressure', 0, 60), S.real('Pset', 1.5e5, 1e8)
    atm = S.const(ATM)
    for o in (0.0, 0.11, 0.2, 0.25):
        rejected(S, S.attempt(V + 'API520_B', Pset, atm + x * (Pset - atm) / 100, o), 'other overpressures')


@spec('P17', max_paths=120)
def backpressure_liquid(S):
    x, Pset = S.real('percent gauge backpressure', 0, 60), S.real('Pset', 1.5e5, 1e8)
    X, Y = T['Kw']
    for n in X:
        S.assume(abs(x - S.const(repr(n))) > 1e-7)
    atm = S.const(ATM)
    v = S.call(V + 'API520_W', Pset, atm + x * (Pset - atm) / 100)
    S.eq(v, table(S, x, [repr(n) for n in X], [repr(n) for n in Y]), 'one up to fifteen percent, then the tabulated factor', crtol=1e-6)
    S.between(S.const('0.66'), v, 1, 'a reduction')


@static('P17')
def backpressure_tables(tier, seed):
    from pyvc import instr
    s = instr.real('safety_valve')
    rows = []
    for n, x, y in (('gas, 16%', s.Kb_16_over_x, s.Kb_16_over_y), ('gas, 10%', s.Kb_10_over_x, s.Kb_10_over_y), ('liquid', s.Kw_x, s.Kw_y)):
        rows.append((n + ': backpressures ascend', all(a < b for a, b in zip(x, x[1:])), repr(x)))
        rows.append((n + ': factors descend', all(a > b for a, b in zip(y, y[1:])), repr(y)))
    rows.append(('areas ascend', all(a < b for a, b in zip(s.API526_A, s.API526_A[1:])) and len(s.API526_A) == len(s.API526_letters) == 14, repr(s.API526_A)))
    return finite(rows, V + 'API520_B')


@spec('P17')
def area_gas(S):
    m, Tk, Z, MW, k, P1, r = (S.real('m', 1e-3, 1e3), S.real('T', 100, 2e3), S.real('Z', .1, 2), S.real('MW', 2, 500),
                              S.real('k', 1.05, 2), S.real('P1', 2e5, 1e8), S.real('P2/P1', 1e-3, .999))
    Kd, Kb, Kc = S.real('Kd', .3, 1), S.real('Kb', .3, 1), S.real('Kc', .3, 1)
    crit = (2 / (k + 1)) ** (k / (k - 1))
    S.assume(abs(r - crit) > 1e-9)
    A = S.call(V + 'API520_A_g', m, Tk, Z, MW, k, P1, r * P1, Kd, Kb, Kc)
    if r < crit:
        C = S.call(V + 'API520_C', k)
        S.eq(A * 1000000, formula(S, '3600*m/(C*Kd*Kb*Kc*P/1000)*sqrt(T*Z/MW)', m=m, C=C, Kd=Kd, Kb=Kb, Kc=Kc, P=P1, T=Tk, Z=Z, MW=MW), 'critical flow', crtol=1e-6)
    else:
        F = S.call(V + 'API520_F2', k, P1, r * P1)
        S.eq(A * 1000000, formula(S, '17.9*3600*m/(F*Kd*Kc)*sqrt(T*Z/(MW*P/1000*(P/1000 - r*P/1000)))', m=m, F=F, Kd=Kd, Kc=Kc, P=P1, r=r, T=Tk, Z=Z, MW=MW), 'subcritical flow', crtol=1e-6)


@spec('P17')
def area_gas_defaults(S):
    m, P1 = S.real('m', 1e-3, 1e3), S.real('P1', 2.5e5, 1e8)
    a = [S.const(x) for x in ('350', '0.9', '44', '1.2')]
    S.eq(S.call(V + 'API520_A_g', m, *a, P1), S.call(V + 'API520_A_g', m, *a, P1, S.const('101325'), S.const('0.975'), S.const('1'), S.const('1')), 'defaults')
    S.eq(S.call(V + 'API520_A_g', 2 * m, *a, P1), 2 * S.call(V + 'API520_A_g', m, *a, P1), 'proportional to the flow')


@spec('P17')
def area_steam(S):
    abstract(S, V + 'API520_SH', lo=.6, hi=1)
    m, Tk, P = S.real('m', 1e-3, 1e3), S.real('T', 400, 900), S.real('P1', 2e5, 2.05e7)
    S.assume(abs(P - 10339000) > 1)
    Kd, Kb, Kc = S.real('Kd', .3, 1), S.real('Kb', .3, 1), S.real('Kc', .3, 1)
    ed = S.pick('edition', ['7E', '10E'])
    A = S.call(V + 'API520_A_steam', m, Tk, P, Kd, Kb, Kc, ed)
    KN, KS = S.call(V + 'API520_N', P), S.call(V + 'API520_SH', Tk, P, ed)
    S.eq(A * 1000000, formula(S, '190.5*3600*m/(P/1000*Kd*Kb*Kc*KN*KS)', m=m, P=P, Kd=Kd, Kb=Kb, Kc=Kc, KN=KN, KS=KS), 'published area', crtol=1e-6)
    S.eq(S.call(V + 'API520_A_steam', m, Tk, P), S.call(V + 'API520_A_steam', m, Tk, P, S.const('0.975'), S.const('1'), S.const('1'), '10E'), 'defaults')


@spec('P17')
def viscosity(S):
    Re = S.real('Re', 10, 1e8)
    f = lambda r: S.call(V + 'API520_Kv', r, '7E')
    raw = formula(S, '1/(0.9935 + 2.878/sqrt(Re) + 342.75/Re**1.5)', Re=Re)
    S.assume(abs(raw - 1) > 1e-9)
    v = f(Re)
    S.eq(v, S.const('1') if raw > 1 else raw, 'seventh edition, never above one', crtol=1e-6)
    S.between(0, v, 1, 'a reduction')
    w = S.call(V + 'API520_Kv', Re)
    S.eq(w * w * (170 / Re + 1), 1, 'tenth edition by default')
    S.eq(w, S.call(V + 'API520_Kv', Re, '10E'), 'tenth edition')
    S.monotone(lambda r: S.call(V + 'API520_Kv', r), Re, +1, 'increases with Reynolds number')
    rejected(S, S.attempt(V + 'API520_Kv', Re, '8E'), 'unknown edition')


@spec('P17', params=['given', 'Kw', 'Kv', 'both'])
def area_liquid(S, what):
    abstract(S, V + 'API520_W', lo=.6, hi=1)
    m, rho, Pg, over, y = (S.real('m', 1e-2, 1e3), S.real('rho', 100, 3e3), S.real('P1, gauge', 5e4, 5e7), S.real('overpressure', 0, .3), S.real('P2, share', 0, .5))
    Kd, Kc, Kw, Kv, mu = S.real('Kd', .3, 1), S.real('Kc', .3, 1), S.real('Kw', .5, 1), S.real('Kv', .3, 1), S.real('mu', 1e-5, 10)
    ed = S.pick('edition', ['7E', '10E']) if what in ('Kv', 'both') else '10E'
    atm = S.const(ATM)
    P1, P2 = Pg + atm, atm + y * Pg
    kw = dict(Kd=Kd, Kc=Kc)
    if what in ('given', 'Kv'):
        kw['Kw'] = Kw
    else:
        Kw = S.call(V + 'API520_W', atm + Pg / (1 + over), P2)
    area = lambda Kv: formula(S, '11.78*60000*m/rho*sqrt(rho/rho0/((P1 - P2)/1000))/(Kd*Kw*Kc*Kv)/1000000', m=m, rho=rho, rho0=S.const('999.0107539518483'), P1=P1, P2=P2, Kd=Kd, Kw=Kw, Kc=Kc, Kv=Kv)
    if what in ('given', 'Kw'):
        A = S.call(V + 'API520_A_l', m, rho, P1, P2, over, Kv=Kv, **kw)
        S.eq(A, area(Kv), 'published area', crtol=1e-6)
        if what == 'given':
            S.eq(S.call(V + 'API520_A_l', m, rho, P1, P2, over, Kw=Kw, Kv=Kv), S.call(V + 'API520_A_l', m, rho, P1, P2, over, S.const('0.65'), S.const('1'), Kw, Kv, '10E', None), 'defaults')
            S.eq(S.call(V + 'API520_A_l', m, rho, P1, P2, over, Kv=Kv, mu=mu, **kw), A, 'a given viscosity factor replaces the viscosity')
    else:
        abstract(S, V + 'API520_Kv', lo=.1, hi=1)
        A = S.call(V + 'API520_A_l', m, rho, P1, P2, over, mu=mu, edition=ed, **kw)
        A0 = area(S.const('1'))
        D = S.m.sqrt(4 * A0 / S.pi)
        Re = m / A0 * D / mu
        S.eq(A, area(S.call(V + 'API520_Kv', Re, ed)), 'viscosity correction from the area without it', crtol=1e-6)


@spec('P17')
def noise(S):
    x = S.real('P1/P2', .5, 100)
    for c in (1, 2.92, 2.93):
        S.assume(abs(x - S.const(repr(c))) > 1e-9)
    v = S.call(V + 'API521_noise_graph', x)
    lo, hi = formula(S, '87.9084*log10(x) + 12.7647', x=x), formula(S, '4.8239*log10(x) + 51.6217', x=x)
    if x < 1:
        S.eq(v, S.const('12.7647'), 'no pressure drop')
    elif x < S.const('2.92'):
        S.eq(v, lo, 'lower line', crtol=1e-6)
    elif x < S.const('2.93'):
        S.between(lo - 1, v, hi + 1, 'between the lines')
        w = (x - S.const('2.92')) * 100
        S.eq(v, lo + (hi - lo) * w, 'blends the lines', crtol=1e-6)
    else:
        S.eq(v, hi, 'upper line', crtol=1e-6)


@spec('P17')
def noise_at_distance(S):
    abstract(S, V + 'API521_noise_graph', lo=10, hi=70)
    m, P2, x, c, r = S.real('m', 1e-2, 1e3), S.real('P2', 1e4, 1e7), S.real('P1/P2', 1, 100), S.real('c', 100, 2e3), S.real('r', .1, 1e4)
    f = lambda d: S.call(V + 'API521_noise', m, x * P2, P2, c, d)
    S.eq(f(r), S.call(V + 'API521_noise_graph', x) + formula(S, '10*log10(m*c*c/2) - 20*log10(r/30)', m=m, c=c, r=r), 'level at the distance', crtol=1e-6)
    S.monotone(f, r, -1, 'quieter further away')


@spec('P17', params=['ground:100:15', 'elevated:112:17'])
def flare(S, k):
    """shape of the law; its unit conversion is a recorded finding"""
    n, a, b = k.split(':')
    m, t = S.real('m', 1e-3, 1e4), S.real('ratio', 1, 100)
    f = lambda x: S.call(V + 'VDI_3732_noise_%s_flare' % n, x)
    S.eq(f(t * m) - f(m), S.const(b) * S.m.log10(t), 'slope in decibels per decade of flow')
    S.eq(f(S.const('1') / 360), S.const(a), 'level at the flow the code takes as one unit')
