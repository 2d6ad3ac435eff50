from pyvc.run import spec
C = 'fluids.compressible.'


def base(S):
    return dict(T1=S.real('T1', 50, 3000), k=S.real('k', 1.001, 3), Z=S.real('Z', .05, 5))


@spec('P02')
def work_modes(S):
    f = C + 'isentropic_work_compression'
    b = base(S)
    P1 = S.real('P1', 1, 1e9)
    r = S.real('r', 1, 1e5)
    S.assume(r > S.const('1.00001'))
    up = S.flag('compress')
    P2 = P1 * r if up else P1 / r
    eta = S.real('eta', .01, 1.0)
    W = S.call(f, P1=P1, P2=P2, eta=eta, **b)
    if up:
        S.gt(W, 0, 'compression work positive')
    else:
        S.lt(W, 0, 'expansion work negative')
    if 1:
        S.eq(S.call(f, W=W, P2=P2, eta=eta, **b), P1, 'P1 recovered')
        S.eq(S.call(f, W=W, P1=P1, eta=eta, **b), P2, 'P2 recovered')
        S.eq(S.call(f, W=W, P1=P1, P2=P2, **b), eta, 'eta recovered')


@spec('P02')
def work_ideal_relation(S):
    """isentropic work = cp (T2 - T1) with cp = R Z k/(k-1) and the outlet temperature of the T-rise relation"""
    b = base(S)
    P1, P2 = S.real('P1', 1, 1e9), S.real('P2', 1, 1e9)
    eta = S.real('eta', .01, 1.0)
    W = S.call(C + 'isentropic_work_compression', P1=P1, P2=P2, eta=eta, **b)
    T2 = S.call(C + 'isentropic_T_rise_compression', T1=b['T1'], P1=P1, P2=P2, k=b['k'], eta=eta)
    Rg = S.mod('constants').R
    k = b['k']
    S.eq(W, Rg * b['Z'] * k / (k - 1) * (T2 - b['T1']), 'W = cp dT', crtol=1e-4, atol=1e-5)


@spec('P02')
def T_rise_ideal(S):
    T1, k = S.real('T1', 50, 3000), S.real('k', 1.001, 3)
    P1, P2 = S.real('P1', 1, 1e9), S.real('P2', 1, 1e9)
    eta = S.real('eta', .01, 1.0)
    f = C + 'isentropic_T_rise_compression'
    T2 = S.call(f, T1=T1, P1=P1, P2=P2, k=k)
    S.eq(T2, T1 * (P2 / P1) ** ((k - 1) / k), 'ideal outlet temperature')
    S.eq(S.call(f, T1=T2, P1=P2, P2=P1, k=k), T1, 'reverse process returns to T1')
    S.eq((S.call(f, T1=T1, P1=P1, P2=P2, k=k, eta=eta) - T1) * eta, T2 - T1, 'efficiency divides the rise', atol=1e-6, crtol=1e-4)


@spec('P02')
def efficiencies(S):
    f = C + 'isentropic_efficiency'
    P1, r, k = S.real('P1', 1, 1e8), S.real('r', 1.001, 1e4), S.real('k', 1.05, 3)
    P2 = P1 * r
    ep = S.real('eta_p', .05, 1)
    es = S.call(f, P1=P1, P2=P2, k=k, eta_p=ep)
    S.gt(es, 0, 'eta_s positive')
    S.eq(S.call(f, P1=P1, P2=P2, k=k, eta_s=es), ep, 'eta_p recovered')
    es2 = S.real('eta_s', .05, 1)
    ep2 = S.call(f, P1=P1, P2=P2, k=k, eta_s=es2)
    S.eq(S.call(f, P1=P1, P2=P2, k=k, eta_p=ep2), es2, 'eta_s recovered')


@spec('P02')
def efficiency_order(S):
    """polytropic efficiency 1 <=> isentropic efficiency 1"""
    f = C + 'isentropic_efficiency'
    P1, r, k = S.real('P1', 1, 1e8), S.real('r', 1.001, 1e4), S.real('k', 1.05, 3)
    P2 = P1 * r
    S.eq(S.call(f, P1=P1, P2=P2, k=k, eta_p=S.const('1.0')), 1, 'unit')
    S.eq(S.call(f, P1=P1, P2=P2, k=k, eta_s=S.const('1.0')), 1, 'unit s')


@spec('P02')
def polytropic(S):
    f = C + 'polytropic_exponent'
    k, ep = S.real('k', 1.001, 3), S.real('eta_p', .01, 1)
    S.assume((k * (1 - ep) < 0.9999) | (k * (1 - ep) > 1.0001))
    n = S.call(f, k=k, eta_p=ep)
    S.eq(S.call(f, k=k, n=n), ep, 'eta_p recovered')
    S.eq(S.call(f, k=k, eta_p=S.const('1.0')), k, 'unit efficiency gives n = k')
    # definition (n-1)/n = (k-1)/(k eta_p)
    S.eq((n - 1) * k * ep, n * (k - 1), 'definition', crtol=1e-4, atol=1e-6)


@spec('P02')
def polytropic_n(S):
    f = C + 'polytropic_exponent'
    k, n = S.real('k', 1.001, 3), S.real('n', 1.001, 10)
    ep = S.call(f, k=k, n=n)
    S.gt(ep, 0, 'positive')
    S.eq(S.call(f, k=k, eta_p=ep), n, 'n recovered', crtol=1e-4)


@spec('P02')
def critical(S):
    P, T, k = S.real('P', 1, 1e9), S.real('T', 50, 3000), S.real('k', 1.001, 3)
    Pc = S.call(C + 'P_critical_flow', P=P, k=k)
    Tc = S.call(C + 'T_critical_flow', T=T, k=k)
    S.gt(Pc, 0, 'positive'); S.lt(Pc, P, 'below inlet')
    S.gt(Tc, 0, 'T positive'); S.lt(Tc, T, 'T below inlet')
    S.eq(Pc / P, (Tc / T) ** (k / (k - 1)), 'isentropic P-T relation at the throat', crtol=1e-5)
    # stagnation relations recover the inlet state from the critical state
    S.eq(S.call(C + 'P_stagnation', P=Pc, T=Tc, Tst=T, k=k), P, 'P stagnation of critical state', crtol=1e-5)
    S.eq(S.call(C + 'T_stagnation', T=Tc, P=Pc, Pst=P, k=k), T, 'T stagnation of critical state', crtol=1e-5)


@spec('P02')
def is_critical(S):
    P1, P2, k = S.real('P1', 1, 1e9), S.real('P2', 1, 1e9), S.real('k', 1.001, 3)
    Pc = S.call(C + 'P_critical_flow', P=P1, k=k)
    r = S.call(C + 'is_critical_flow', P1=P1, P2=P2, k=k)
    S.assume((P2 > Pc * 1.000001) | (P2 < Pc * 0.999999))
    if r:
        S.lt(P2, Pc, 'critical only below the critical pressure')
    else:
        S.ge(P2, Pc, 'not critical only above the critical pressure')


@spec('P02')
def stagnation(S):
    T, Pst, P, k = S.real('T', 50, 3000), S.real('Pst', 1, 1e9), S.real('P', 1, 1e9), S.real('k', 1.001, 3)
    Tst = S.call(C + 'T_stagnation', T=T, P=P, Pst=Pst, k=k)
    S.eq(S.call(C + 'P_stagnation', P=P, T=T, Tst=Tst, k=k), Pst, 'Pst recovered', crtol=1e-5)
    # same law as an ideal isentropic compression
    S.eq(Tst, S.call(C + 'isentropic_T_rise_compression', T1=T, P1=P, P2=Pst, k=k), 'stagnation = isentropic compression', crtol=1e-5)
    V, Cp = S.real('V', 0, 1e4), S.real('Cp', 10, 1e5)
    T0 = S.call(C + 'T_stagnation_ideal', T=T, V=V, Cp=Cp)
    S.eq((T0 - T) * Cp, S.call(C + 'stagnation_energy', V=V), 'energy balance', crtol=1e-3, atol=1e-6)
    S.ge(T0, T, 'stagnation temperature not below static')


@spec('P02')
def isothermal_work(S):
    f = C + 'isothermal_work_compression'
    P1, P2, P3, T, Z = S.real('P1', 1, 1e9), S.real('P2', 1, 1e9), S.real('P3', 1, 1e9), S.real('T', 50, 3000), S.real('Z', .05, 5)
    w = S.call(f, P1=P1, P2=P2, T=T, Z=Z)
    S.eq(w + S.call(f, P1=P2, P2=P3, T=T, Z=Z), S.call(f, P1=P1, P2=P3, T=T, Z=Z), 'additive over stages', atol=1e-6, crtol=1e-6)
    S.eq(S.call(f, P1=P2, P2=P1, T=T, Z=Z), -w, 'reversible')
    r = S.real('r', 1.00001, 1e6)
    S.gt(S.call(f, P1=P1, P2=P1 * r, T=T, Z=Z), 0, 'compression needs work')


@spec('P02')
def isothermal_below_isentropic(S):
    """underspecified calls are rejected"""
    b = base(S)
    v = {'P1': 1e5, 'P2': 2e5, 'W': 100.0, 'eta': .5}
    for kw in [{}] + [{k: v[k]} for k in v] + [{a: v[a], b: v[b]} for a in v for b in v if a < b]:
        r = S.attempt(C + 'isentropic_work_compression', **{**b, **kw})
        S.check(not r.ok and isinstance(r.exc, ValueError), 'underspecified rejected')
    r = S.attempt(C + 'polytropic_exponent', b['k'])
    S.check(not r.ok and isinstance(r.exc, ValueError), 'underspecified rejected')
    r = S.attempt(C + 'isentropic_efficiency', P1=1e5, P2=2e5, k=b['k'])
    S.check(not r.ok and isinstance(r.exc, ValueError), 'underspecified rejected')
