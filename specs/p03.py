from pyvc.run import spec
C = 'fluids.compressible.'


def pipe(S):
    p = dict(fd=S.real('fd', .002, .1), L=S.real('L', .1, 1e6), D=S.real('D', 1e-3, 5))
    S.assume(p['fd'] * p['L'] / p['D'] < 500)
    return p


@spec('P03')
def choke_downstream(S):
    """the choke pressure satisfies d(mass flow)/dP2 = 0:  P1^2 - Pc^2 = Pc^2 (fd L/D + 2 ln(P1/Pc))"""
    p = pipe(S)
    P1 = S.real('P1', 1e2, 1e9)
    Pc = S.call(C + 'P_isothermal_critical_flow', P=P1, **p)
    x = (P1 / Pc) ** 2
    S.eq(x - 1, p['fd'] * p['L'] / p['D'] + S.m.log(x), 'choking condition', crtol=1e-5)
    S.le(Pc, P1, 'below the inlet pressure')
    S.gt(Pc, 0, 'positive')


@spec('P03')
def choke_upstream(S):
    p = pipe(S)
    P2 = S.real('P2', 1e2, 1e9)
    Pu = S.call(C + 'P_upstream_isothermal_critical_flow', P=P2, **p)
    S.ge(Pu, P2, 'above the outlet pressure')
    x = (Pu / P2) ** 2
    S.eq(x - 1, p['fd'] * p['L'] / p['D'] + S.m.log(x), 'choking condition', crtol=1e-5)


G = C + 'isothermal_gas'


def momentum(S, m, rho, fd, P1, P2, L, D):
    """isothermal momentum balance, as residual pair"""
    A2 = (S.pi / 4 * D * D) ** 2
    return m * m * P1 * (fd * L / D + 2 * S.m.log(P1 / P2)), A2 * rho * (P1 * P1 - P2 * P2)


def scale(S, rho, P, p):
    return 0.0 if S.symbolic else (S.pi / 4 * p['D'] ** 2) ** 2 * rho * P * P


def gas_contract(S, orig, a, k):
    """contract of the inner calls made by the residual functions: the value returned satisfies the momentum balance
    (each mode is discharged by its own specification above/below)"""
    n = sum(x in k and k[x] is not None for x in ('P1', 'P2', 'L', 'D', 'm'))
    if k.get('P1') is None:
        return orig(*a, **k)         # the mode under verification
    rho, fd = a
    e = S.e
    if k.get('m') is None:
        m = e.fresh('flow')
        e.or_.setbox(m.val, 0.0, float('inf'))
        S.assume(k['P2'] <= k['P1'])
        x, y = momentum(S, m, rho, fd, k['P1'], k['P2'], k['L'], k['D'])
        S.assume(x == y)
        return m
    P2 = e.fresh('Pout')
    e.or_.setbox(P2.val, 5e-324, float('inf'))
    S.assume(P2 <= k['P1'])
    x, y = momentum(S, k['m'], rho, fd, k['P1'], P2, k['L'], k['D'])
    S.assume(x == y)
    return P2


@spec('P03')
def flow(S):
    p = pipe(S)
    rho, P1, P2 = S.real('rho', .01, 500), S.real('P1', 1e2, 1e9), S.real('P2', 1e2, 1e9)
    r = S.attempt(G, rho, P1=P1, P2=P2, **p)
    Pc = S.call(C + 'P_isothermal_critical_flow', P=P1, **p)
    if r.ok:
        S.ge(P2, Pc, 'subsonic'); S.le(P2, P1, 'forward')
        a, b = momentum(S, r.value, rho, P1=P1, P2=P2, **p)
        S.eq(a, b, 'momentum balance')
    else:
        S.check(isinstance(r.exc, ValueError), 'ValueError')
        S.check((P2 < Pc) | (P2 > P1), 'rejected only when choked or reversed')


@spec('P03')
def length(S):
    p = pipe(S); L = p.pop('L')
    rho, P1, P2, m = S.real('rho', .01, 500), S.real('P1', 1e2, 1e9), S.real('P2', 1e2, 1e9), S.real('m', 1e-6, 1e6)
    S.assume(P1 > P2)
    L = S.call(G, rho, P1=P1, P2=P2, m=m, **p)
    a, b = momentum(S, m, rho, P1=P1, P2=P2, L=L, **p)
    S.eq(a, b, 'momentum balance', crtol=1e-5)


@spec('P03', cross=40)
def downstream(S):
    p = pipe(S)
    rho, P1, m = S.real('rho', .01, 500), S.real('P1', 1e2, 1e9), S.real('m', 1e-6, 1e6)
    r = S.attempt(G, rho, P1=P1, m=m, **p)
    if r.ok:
        P2 = r.value
        S.le(P2, P1, 'P2 <= P1'); S.gt(P2, 0, 'positive')
        a, b = momentum(S, m, rho, P1=P1, P2=P2, **p)
        S.eq(a, b, 'momentum balance', crtol=1e-4, catol=1e-7 * scale(S, rho, P1, p))
    else:
        S.check(isinstance(r.exc, ValueError), 'ValueError')


@spec('P03', cross=40)
def upstream(S):
    p = pipe(S)
    S.stub(G, lambda orig, *a, **k: gas_contract(S, orig, a, k))
    rho, P2, m = S.real('rho', .01, 500), S.real('P2', 1e2, 1e9), S.real('m', 1e-6, 1e6)
    r = S.attempt(G, rho, P2=P2, m=m, **p)
    if r.ok:
        P1 = r.value
        S.ge(P1, P2, 'P1 >= P2')
        a, b = momentum(S, m, rho, P1=P1, P2=P2, **p)
        S.eq(a, b, 'momentum balance', crtol=1e-4, catol=1e-7 * scale(S, rho, P1, p))
    else:
        S.check(isinstance(r.exc, ValueError), 'ValueError')


@spec('P03')
def rejects(S):
    p = pipe(S)
    p = dict(p, P1=1e6, P2=5e5, m=1.0)
    rho = S.real('rho', .01, 500)
    v = ('L', 'D', 'P1', 'P2', 'm')
    for out in [('L', 'P1', 'P2', 'm'), ('L', 'P2', 'm')] + [(a, b) for a in v for b in v if a < b]:
        r = S.attempt(G, rho, **{k: x for k, x in p.items() if k not in out})
        S.check(not r.ok and isinstance(r.exc, ValueError), 'underspecified call rejected')


@spec('P03')
def diameter(S):
    fd, L = S.real('fd', .002, .1), S.real('L', .1, 1e6)
    rho, P1, P2, D = S.real('rho', .01, 500), S.real('P1', 1e4, 1e8), S.real('q', .5, .999), S.real('D', 1e-2, 5)
    P2 = P1 * P2
    S.assume(fd * L / D < 500)
    r = S.attempt(G, rho, fd, P1=P1, P2=P2, L=L, D=D)
    if not r.ok:
        return
    m = r.value
    S.root_domain(1e-6, 1e6)
    r2 = S.attempt(G, rho, fd, P1=P1, P2=P2, L=L, m=m)
    if r2.ok:
        r3 = S.attempt(G, rho, fd, P1=P1, P2=P2, L=L, D=r2.value)
        if r3.ok:
            S.eq(r3.value, m, 'solved D reproduces the flow', crtol=1e-5)
