"""Liquid jet pumps and vacuum vessel air leakage (fluids/jet_pump.py)."""
from itertools import combinations
from pyvc.run import spec
from specs.common import rejected, formula
J = 'fluids.jet_pump.'
ANC = ('d_nozzle', 'd_mixing', 'Qp', 'Qs', 'P1', 'P2')
ALL = ('d_nozzle', 'd_mixing', 'Qp', 'Qs', 'P1', 'P2', 'P5')
BAL = 'rp/2*(Qp/(pi/4*dn**2))**2*((1 + Kp) - rs/rp*(1 + Ks)*(Qs/Qp*(dn/dm)**2/(1 - (dn/dm)**2))**2)'


def fluid(S):
    return dict(rhop=S.real('rhop', 500, 2000), rhos=S.real('rhos', .5, 2000), Kp=S.real('Kp', 0, .5), Ks=S.real('Ks', 0, .5))


ANCARGS = 'rhop rhos Kp Ks d_nozzle d_mixing Qp Qs P1 P2'.split()
PRARGS = 'rhop rhos Km Kd Ks Kp d_nozzle d_mixing d_diffuser Qp Qs P1 P2 P5 nozzle_retracted'.split()


def named(names, args, k):
    d = dict.fromkeys(names)
    d.update(zip(names, args))
    d.update(k)
    return d


def balance(S, f, v):
    return formula(S, BAL, rp=f['rhop'], rs=f['rhos'], Kp=f['Kp'], Ks=f['Ks'], Qp=v['Qp'], Qs=v['Qs'], dn=v['d_nozzle'], dm=v['d_mixing'])


@spec('P19', params=ANC)
def ancillary(S, x):
    """the value returned closes the primary-to-secondary energy balance"""
    f = fluid(S)
    v = dict(d_nozzle=S.real('d_nozzle', 1e-3, .5), Qp=S.real('Qp', 1e-4, 1), Qs=S.real('Qs', 1e-4, 1), P2=S.real('P2', 1e4, 1e6))
    v['d_mixing'] = v['d_nozzle'] / S.real('nozzle to mixing diameter', .1, .9)
    v['P1'] = v['P2'] + balance(S, f, v)
    S.assume(v['P1'] > v['P2'] + 1)
    given = {k: w for k, w in v.items() if k != x}
    o = S.attempt(J + 'liquid_jet_pump_ancillary', **f, **given)
    if x in ('d_nozzle', 'd_mixing'):
        if not o.ok:
            S.check(not isinstance(o.exc, (NameError, TypeError, AttributeError)), 'gives up only for lack of a root')
            return
        if not S.symbolic:
            return
        w = dict(given)
        w[x] = o.value
        S.assume(w['d_nozzle'] > 1e-3)
        S.assume(abs(w['d_mixing'] / w['d_nozzle'] - 1) > 1e-2)
        S.eq(balance(S, f, w), v['P1'] - v['P2'], 'energy balance', crtol=1e-5)
    else:
        S.check(o.ok, 'solved')
        if S.symbolic:
            S.eq(o.value, v[x], 'energy balance')
        elif x[0] == 'P' or abs(balance(S, f, v)) > 1e-3 * v['P2']:  # the others are ill conditioned in floats
            S.eq(o.value, v[x], 'energy balance', crtol=1e-5)


@spec('P19')
def ancillary_counts(S):
    f = fluid(S)
    v = dict(zip(ANC, (S.const(c) for c in ('0.02', '0.045', '0.01', '0.01', '426256', '133600'))))
    rejected(S, S.attempt(J + 'liquid_jet_pump_ancillary', **f, **v), 'overspecified')
    for a, b in combinations(ANC, 2):
        rejected(S, S.attempt(J + 'liquid_jet_pump_ancillary', **f, **{k: w for k, w in v.items() if k not in (a, b)}), 'two unknowns')


def ratio(S, f, v, Km, Kd, dd, retracted):
    R, al, M, C = (v['d_nozzle'] / v['d_mixing']) ** 2, (v['d_mixing'] / dd) ** 2, v['Qs'] / v['Qp'], f['rhos'] / f['rhop']
    kw = dict(R=R, a=al, M=M, C=C, Km=Km, Kd=Kd, Ks=f['Ks'], Kp=f['Kp'])
    num = formula(S, '2*R + 2*C*M**2*R**2/(1 - R) - R**2*(1 + C*M)*(1 + M)*(1 + Km + Kd + a**2) - C*M**2*R**2/(1 - R)**2*(1 + Ks)', **kw)
    # the sign of Ks in the last term of the denominator is that of the code (recorded finding)
    den = formula(S, '1 + Kp - 2*R - 2*C*M**2*R**2/(1 - R) + R**2*(1 + C*M)*(1 + M)*(1 + Km + Kd + a**2)', **kw)
    if retracted:
        den = den + formula(S, 'C*M**2/((1 - R)/R)**2*(1 - Ks)', **kw)
    return num, den


def state(S):
    f = fluid(S)
    v = dict(d_nozzle=S.real('d_nozzle', 1e-3, .5), Qp=S.real('Qp', 1e-3, 1), P2=S.real('P2', 1e4, 1e6))
    v['d_mixing'] = v['d_nozzle'] / S.real('nozzle to mixing diameter', .2, .8)
    v['Qs'] = v['Qp'] * S.real('flow ratio', .05, 2)
    dd = v['d_mixing'] / S.real('mixing to diffuser diameter', 1e-3, .9)
    return f, v, S.real('Km', 0, .5), S.real('Kd', 0, .5), dd


@spec('P19', params=[True, False])
def pressure_ratio(S, retracted):
    """all pressures given: the residual is the published N less (P5-P2)/(P1-P5)"""
    f, v, Km, Kd, dd = state(S)
    num, den = ratio(S, f, v, Km, Kd, dd, retracted)
    v['P5'] = v['P2'] + S.real('lift', 1e2, 1e6)
    v['P1'] = v['P5'] + S.real('drive', 1e2, 1e7)
    S.assume(den > 1e-2)
    N = S.call(J + 'liquid_jet_pump_pressure_ratio', **f, Km=Km, Kd=Kd, d_diffuser=dd, nozzle_retracted=retracted, **v) + (v['P5'] - v['P2']) / (v['P1'] - v['P5'])
    S.eq(N, num / den, 'published pressure ratio', crtol=1e-6)


@spec('P19', params=['P1', 'P2', 'P5'])
def pressure_solved(S, x):
    """one pressure unknown: the value returned has residual zero"""
    ret = S.flag('retracted')
    c = S.const
    kw = dict(rhop=c('790'), rhos=c('820'), Km=c('0.186'), Kd=c('0.12'), Ks=c('0.11'), Kp=c('0.04'), d_nozzle=c('0.02'), d_mixing=c('0.045'), d_diffuser=c('0.1'), Qp=c('0.01'), nozzle_retracted=ret)
    kw['Qs'] = kw['Qp'] * S.real('flow ratio', .05, 1)
    P = dict(P2=S.real('P2', 1e4, 1e6))
    P['P5'] = P['P2'] + S.real('lift', 1e2, 1e6)
    P['P1'] = P['P5'] + S.real('drive', 1e2, 1e7)
    N = S.call(J + 'liquid_jet_pump_pressure_ratio', **kw, **P) + (P['P5'] - P['P2']) / (P['P1'] - P['P5'])
    S.assume(N > 1e-3)
    r = S.call(J + 'liquid_jet_pump_pressure_ratio', **kw, **{k: w for k, w in P.items() if k != x})
    for k in P:
        if k != x:
            S.eq(r[k], P[k], 'a given pressure is kept')
    S.eq(N * (r['P1'] - r['P5']), r['P5'] - r['P2'], 'pressure ratio', rtol=1e-9, crtol=1e-4)


@spec('P19', params=['d_nozzle', 'Qp', 'Qs', 'P1', 'P2', 'd_mixing'])
def explicit_solution(S, x):
    """outlet pressure and one inlet variable unknown"""
    f, v, Km, Kd, dd = state(S)
    v['P1'] = v['P2'] + S.real('drive', 1e3, 1e6)
    given = {k: w for k, w in v.items() if k != x}
    if S.symbolic:
        calls = []
        a, b = S.real('the missing inlet value', 1e-3, 1e6), S.real('the outlet pressure', 1e3, 1e7)
        S.assume(b < v['P1'] - 1 if x != 'P1' else b < a - 1)
        if x == 'd_mixing':
            S.assume(abs(a / v['d_nozzle'] - 1) > 1e-3)
        if x == 'd_nozzle':
            S.assume(abs(a / v['d_mixing'] - 1) > 1e-3)

        def anc(e, *args, **k):
            calls.append(('anc', named(ANCARGS, args, k)))
            return a

        def pr(e, *args, **k):
            k = named(PRARGS, args, k)
            calls.append(('pr', k))
            return {'P1': k['P1'], 'P2': k['P2'], 'P5': b} if k['P5'] is None else S.e.fresh('residual')
        S.stub(J + 'liquid_jet_pump_ancillary', anc)
        S.stub(J + 'liquid_jet_pump_pressure_ratio', pr)
    o = S.attempt(J + 'liquid_jet_pump', f['rhop'], f['rhos'], f['Kp'], f['Ks'], Km, Kd, d_diffuser=dd, nozzle_retracted=False, **given)
    if not S.symbolic and not o.ok:
        return S.check(not isinstance(o.exc, (NameError, TypeError, AttributeError)), 'gives up only for lack of a root')
    S.check(o.ok, 'solved')
    if not o.ok:
        return
    r = o.value
    if not S.symbolic and (r[x] != r[x] or not -1e12 < r['N'] * r[x] < 1e12):
        return  # no such flow
    if S.symbolic:
        (n1, k1), (n2, k2) = calls[:2]
        S.check((n1, n2) == ('anc', 'pr'), 'energy balance first, then the pressure ratio')
        w = dict(given)
        w[x] = a
        S.check(k1[x] is None and k2['P5'] is None, 'the unknowns are asked for')
        for k in f:
            S.eq(k1[k], f[k], 'balance inputs')
            S.eq(k2[k], f[k], 'ratio inputs')
        for k in given:
            S.eq(k1[k], given[k], 'balance inputs')
        for k in w:
            S.eq(k2[k], w[k], 'ratio inputs')
        S.eq(k2['Km'], Km, 'ratio inputs')
        S.eq(k2['Kd'], Kd, 'ratio inputs')
        S.eq(k2['d_diffuser'], dd, 'ratio inputs')
        S.check(k2['nozzle_retracted'] is False, 'ratio inputs')
        S.eq(r[x], a, 'the balance gives the unknown')
        S.eq(r['P5'], b, 'the ratio gives the outlet pressure')
    for k in given:
        S.eq(r[k], v[k], 'given values are kept')
    derived(S, r, dd)


def derived(S, r, dd):
    S.eq(r['M'] * r['Qp'], r['Qs'], 'flow ratio')
    S.eq(r['R'] * r['d_mixing'] ** 2, r['d_nozzle'] ** 2, 'area ratio')
    S.eq(r['alpha'] * dd ** 2, r['d_mixing'] ** 2, 'diffuser ratio')
    S.eq(r['efficiency'], r['M'] * r['N'], 'efficiency')
    S.eq(r['N'] * (r['P1'] - r['P5']), r['P5'] - r['P2'], 'pressure ratio', crtol=1e-4)


PAIRS = ['%s,%s' % p for p in combinations(ALL, 2) if 'P5' not in p]


@spec('P19', params=PAIRS, max_paths=400)
def solved_pair(S, pair):
    """whatever the nonlinear solver proposes, a returned solution has residuals of at most 1e-5 in total"""
    un = pair.split(',')
    f, v, Km, Kd, dd = state(S)
    ret = S.flag('retracted')
    v['P5'] = v['P2'] + S.real('lift', 1e3, 1e5)
    v['P1'] = v['P5'] + S.real('drive', 1e4, 1e6)
    given = {k: w for k, w in v.items() if k not in un}
    kw = dict(f, Km=Km, Kd=Kd, d_diffuser=dd, nozzle_retracted=ret)
    guess = {}
    if S.symbolic:
        m = S.mod('jet_pump')
        res = S.real('pressure ratio residual', -1e6, 1e6)
        calls = []

        def pr(e, *args, **k):
            calls.append(named(PRARGS, args, k))
            return res
        S.stub(J + 'liquid_jet_pump_pressure_ratio', pr)

        class AnySolver:
            def __init__(self, method, objf, **k):
                pass

            def solve(self, x0):
                r = []
                for u in un:
                    t = S.e.fresh('proposed ' + u)
                    lo, hi = {'d': (1e-4, 10), 'Q': (1e-6, 1e3), 'P': (1e2, 1e8)}[u[0]]
                    S.e.or_.setbox(t.val, lo, hi)
                    r.append(t)
                guess.update(given, **dict(zip(un, r)))
                S.assume(abs(guess['d_mixing'] / guess['d_nozzle'] - 1) > 1e-3)
                S.assume(guess['P1'] > guess['P5'] * (1 + S.const('1e-6')))  # positive efficiency
                S.assume(guess['P5'] > guess['P2'])
                return r
        m.SolverInterface = AnySolver
        S.e.contracts_used.add('fluids.numerics.SolverInterface.solve: proposes any two positive numbers; nothing about convergence is assumed')
    o = S.attempt(J + 'liquid_jet_pump', f['rhop'], f['rhos'], f['Kp'], f['Ks'], Km, Kd, d_diffuser=dd, nozzle_retracted=ret, max_variations=0, **given)
    if not o.ok:
        return rejected(S, o, 'no solution found')
    r = o.value
    for k in given:
        S.eq(r[k], v[k], 'given values are kept')
    derived(S, r, dd)
    tol = S.const('0.00001') if S.symbolic else 2e-5
    if S.symbolic:
        S.check(len(calls) == 1, 'the residual is evaluated at the proposal')
        for k in ALL:
            S.eq(calls[0][k], guess[k], 'residual inputs')
            S.eq(r[k], guess[k], 'the proposed solution is returned')
        for k in f:
            S.eq(calls[0][k], f[k], 'residual inputs')
        S.eq(calls[0]['Km'], Km, 'residual inputs')
        S.eq(calls[0]['Kd'], Kd, 'residual inputs')
        S.eq(calls[0]['d_diffuser'], dd, 'residual inputs')
        S.check(calls[0]['nozzle_retracted'] is ret, 'residual inputs')
        e1 = res
    else:
        e1 = S.call(J + 'liquid_jet_pump_pressure_ratio', **kw, **{k: r[k] for k in ALL})
    S.le(abs(e1), tol, 'pressure ratio residual')
    slack = 0 if S.symbolic else 1e-6 * abs(r['P1'] - r['P2']) + 1e-6 * float(formula(S, 'rp/2*(Qp/(pi/4*dn**2))**2', rp=f['rhop'], Qp=r['Qp'], dn=r['d_nozzle']))
    S.le(abs(balance(S, f, r) - (r['P1'] - r['P2'])), tol + slack, 'energy balance residual')


@spec('P19')
def pump_counts(S):
    f = fluid(S)
    v = dict(zip(ALL, (S.const(c) for c in ('0.02', '0.045', '0.01', '0.01', '426256', '133600', '200000'))))
    for n in (0, 1, 3):
        for c in combinations(ALL, n):
            rejected(S, S.attempt(J + 'liquid_jet_pump', f['rhop'], f['rhos'], **{k: w for k, w in v.items() if k not in c}), '%d unknowns' % n)


# ---------------------------------------------------------------- air leakage
FT3, TORR, LBHR, INHG = '35.314666721488592', '0.0075006168270416980', '0.00012599788055555556', '3386.3881578947368'
L = J + 'vacuum_air_leakage_'


def vessel(S, lo, hi, *cuts):
    """volume [ft^3], vacuum [torr], pressures [Pa]; default or given surroundings"""
    V, dP = S.real('V', 1e-2, 1e4), S.real('vacuum', lo, hi)
    for x in cuts:
        S.assume(abs(dP - x) > 1e-6)
    default = S.flag('default surroundings')
    Pa = S.const('101325') if default else S.real('P_atm', 1.0133e5, 1.05e5)
    return V, V * S.const(FT3), dP, Pa, {} if default else dict(P_atm=Pa)


@spec('P19')
def ryans_croll(S):
    V, v, dP, Pa, kw = vessel(S, .1, 759, 10, 100)
    W = S.call(L + 'Ryans_Croll', V, Pa - dP / S.const(TORR), **kw)
    e = '0.026*P**0.34*V**0.6' if dP < 10 else '0.032*P**0.26*V**0.6' if dP < 100 else '0.106*V**0.6'
    S.eq(W / S.const(LBHR), formula(S, e, P=dP, V=v), 'published equation', rtol=1e-6, crtol=1e-5)


@spec('P19')
def seider(S):
    """0.0289 is the code's constant (recorded finding: the documentation has 0.0298)"""
    V, v, dP, Pa, kw = vessel(S, .1, 759)
    W = S.call(L + 'Seider', V, Pa - dP / S.const(TORR), **kw)
    S.eq(W / S.const(LBHR), formula(S, '5 + (0.0289 + 0.03088*log(P) - 0.0005733*log(P)**2)*V**0.66', P=dP, V=v), 'published equation', rtol=1e-6, crtol=1e-5)


HEI = [(1, '0.6667235169997174', '-3.71246576520232'), (3, '0.664489357445796', '-3.0147277548691274'), (20, '0.6656780453394583', '-2.34007321331419'),
       (90, '0.663080000739313', '-1.9278288516732665'), (1e9, '0.6658471905826482', '-1.6641585778506027')]


@spec('P19')
def hei2633(S):
    V, v, dP, Pa, kw = vessel(S, .1, 759, 1, 3, 20, 90)
    S.assume(abs(v - 10) > 1e-6)
    W = S.call(L + 'HEI2633', V, Pa - dP / S.const(TORR), **kw)
    _, c0, c1 = next(r for r in HEI if dP < r[0])
    S.eq(W / S.const(LBHR), formula(S, 'exp(%s + %s*log(V))' % (c1, c0), V=v if v > 10 else S.const('10')), 'fit of the graph', rtol=1e-6, crtol=1e-5)


@spec('P19')
def hei_monotone(S):
    """a larger vessel and a deeper vacuum leak no less"""
    V1, V2 = S.real('V1', 1e-2, 1e3), S.real('V2', 1e-2, 1e3)
    d1, d2 = S.real('vacuum 1', .1, 759), S.real('vacuum 2', .1, 759)
    S.assume(V1 < V2)
    S.assume(d1 < d2)
    Pa = S.const('101325')
    W = [S.call(L + 'HEI2633', V, Pa - d / S.const(TORR)) for V, d in ((V1, d1), (V1, d2), (V2, d1))]
    S.le(W[0], W[1] * (1 + S.const('1e-12')), 'deeper vacuum')
    S.le(W[0], W[2] * (1 + S.const('1e-12')), 'larger vessel')


@spec('P19')
def coker_worthington(S):
    dP = S.real('vacuum', .1, 29)
    for x in (3, 5, 8):
        S.assume(abs(dP - x) > 1e-6)
    default = S.flag('default surroundings')
    Pa = S.const('101325') if default else S.real('P_atm', 1.0133e5, 1.05e5)
    P = Pa - dP * S.const(INHG)
    kw = {} if default else dict(P_atm=Pa)
    i = 0 if dP > 8 else 1 if dP > 5 else 2 if dP > 3 else 3
    hi, lo = (40, 30, 25, 20)[i], (30, 25, 20, 10)[i]
    for W in (S.call(L + 'Coker_Worthington', P, **kw), S.call(L + 'Coker_Worthington', P, conservative=True, **kw)):
        S.eq(W, hi * S.const(LBHR), 'upper tabulated value', crtol=1e-9)
    S.eq(S.call(L + 'Coker_Worthington', P, conservative=False, **kw), lo * S.const(LBHR), 'lower tabulated value', crtol=1e-9)
