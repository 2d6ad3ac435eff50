"""Mixing, pneumatic conveying saltation and two-phase separator sizing (fluids/mixing.py, saltation.py, separator.py)."""
from pyvc.run import spec, static
from specs.common import abstract, rejected, formula
M = 'fluids.mixing.'
A = 'fluids.saltation.'
V = 'fluids.separator.'


# ---------------------------------------------------------------- mixing
@spec('P15')
def agitator(S):
    N, T, H, mu, rho, D = S.real('N', .01, 50), S.real('T', .05, 50), S.real('H', .05, 50), S.real('mu', 1e-5, 10), S.real('rho', 100, 5e3), S.real('D', .01, 20)
    Np, x = S.real('Np', .01, 100), S.real('1 - homogeneity', 1e-6, .9)
    g, m = S.const('9.80665'), S.m
    P = Np * rho * N ** 3 * D ** 5 / g
    kw = {'homogeneity': 1 - x} if S.flag('homogeneity given') else {}
    t = S.call(M + 'agitator_time_homogeneous', N=N, P=P, T=T, H=H, mu=mu, rho=rho, D=D, **kw)
    k = Np ** S.const('1/3') * rho * D * D * N / mu
    S.assume(abs(k - 6370) > 1e-6)
    Fo = S.const('5.2') / k if k > 6370 else (183 / k) ** 2
    mult = m.log(x) / m.log(S.const('0.05')) if kw else 1
    S.eq(t, formula(S, 'rho*T**1.5*sqrt(H)/mu*Fo', rho=rho, T=T, H=H, mu=mu, Fo=Fo) * mult, 'published mixing time', crtol=1e-6)
    P2 = Np * rho * N ** 3 * (T / 2) ** 5 / g
    S.eq(S.call(M + 'agitator_time_homogeneous', N=N, P=P2, T=T, H=H, mu=mu, rho=rho), S.call(M + 'agitator_time_homogeneous', N=N, P=P2, T=T, H=H, mu=mu, rho=rho, D=T / 2, homogeneity=S.const('0.95')), 'default impeller is half the tank and default homogeneity 95 %')


@spec('P15')
def ribbon(S):
    D, h, n, p, w, x, N = S.real('D', .1, 10), S.real('h', .1, 20), S.real('nb', 1, 4), S.real('pitch', .1, 10), S.real('width', .01, 2), S.real('T/D', 1.001, 3), S.real('N', 1e-3, 10)
    c = D * (x - 1) / 2
    K = S.call(M + 'Kp_helical_ribbon_Rieger', D, h, n, p, w, D * x)
    S.eq(K, formula(S, '82.8*h/D*(c/D)**-0.38*(p/D)**-0.35*(w/D)**0.20*n**0.78', h=h, D=D, c=c, p=p, w=w, n=n), 'Rieger', crtol=1e-6)
    Kp = S.real('Kp', 1, 1e4)
    S.eq(S.call(M + 'time_helical_ribbon_Grenville', Kp, N), formula(S, '896e3*Kp**-1.69/N', Kp=Kp, N=N), 'Grenville')


JETS = {1: ('0.7', '1.33', '1'), 2: ('0.8', '1.44', '1.5'), 3: ('0.8', '1.75', '1.8'), 4: ('2', '1.97', '2')}


def jets(S, n, D, y, B, L):
    """size_tee for momentum ratio B: B = n^2 (d/D)^2 (V2/V1)^2 = n^2 q^2 / y^2, q = Q2/Q1, y = d/D"""
    Q1 = S.real('Q1', 1e-3, 100)
    q = y * S.m.sqrt(B) / n
    return S.call(M + 'size_tee', Q1=Q1, Q2=q * Q1, D=D, D2=y * D, n=n, pipe_diameters=L)


@spec('P15', params=[1, 2, 3, 4])
def tee_mixer(S, n):
    D, y, B, L = S.real('D', .01, 5), S.real('D2/D', .01, 1), S.real('B', 1e-3, 100), S.real('pipe diameters', .1, 10)
    lim, E0, p = map(S.const, JETS[n])
    S.assume(abs(B - lim) > 1e-6)
    cov = jets(S, n, D, y, B, L)
    E = E0 if B < lim else E0 + S.const('0.95') * S.m.log(B / lim) ** p
    S.eq(cov * cov, formula(S, '0.32*B**-0.86*L**-E', B=B, L=L, E=E), 'coefficient of variation', crtol=1e-6)


@spec('P15', params=[1, 2, 3, 4])
def tee_mixer_stronger_jet(S, n):
    """beyond one diameter, a stronger jet never mixes worse, also across the branch point"""
    L, B, r = S.real('pipe diameters', 1, 10), S.real('B', 1e-2, 50), S.real('B2/B', 1.0001, 10)
    lim = S.const(JETS[n][0])
    S.assume(abs(B - lim) > 1e-4)
    S.assume(abs(B * r - lim) > 1e-4)
    m = S.m
    Q, D = S.const('1'), S.const('1')
    f = lambda b: S.call(M + 'size_tee', Q1=Q, Q2=m.sqrt(b) / n / 2, D=D, D2=D / 2, n=n, pipe_diameters=L)
    if (B < lim) == (B * r < lim):
        S.monotone(f, B, -1, 'not worse')
    else:
        S.le(f(B * r), f(B), 'not worse')


@spec('P15')
def tee_mixer_default(S):
    Q1, q, D = S.real('Q1', 1e-3, 100), S.real('Q2/Q1', 1e-3, 1), S.real('D', .01, 5)
    S.assume(abs(q - S.const('0.3429')) > S.const('0.01'))     # B = 0.7 for one jet
    f = lambda **k: S.call(M + 'size_tee', Q1=Q1, Q2=q * Q1, D=D, **k)
    S.eq(f(D2=None), f(D2=q ** S.const('2/3') * D, n=1, pipe_diameters=5), 'optimal tee, one jet, five diameters')
    rejected(S, S.attempt(M + 'size_tee', Q1=Q1, Q2=q * Q1, D=D, D2=D / 2, n=5), 'five jets')


@spec('P15')
def motionless(S):
    Ki, Q1, Q2, L, D, fd, K = S.real('Ki', .1, .99), S.real('Q1', 1e-3, 100), S.real('Q2', 1e-3, 100), S.real('L/D', .1, 50), S.real('D', .01, 5), S.real('fd', 1e-3, .1), S.real('K', 1, 500)
    S.eq(S.call(M + 'COV_motionless_mixer', Ki, Q1, Q2, L) ** 2, Q1 / Q2 * Ki ** (2 * L), 'unmixed variation is that of the split; decays by Ki per diameter', crtol=1e-6)
    S.eq(S.call(M + 'K_motionless_mixer', K, L * D, D, fd), K * fd * L, 'loss coefficient')


# ------------------------------------------------------------- saltation
def convey(S):
    dp, D, rhog, rhop, mp = S.real('dp', 1e-5, 5e-3), S.real('D', .01, 1), S.real('rhog', .1, 50), S.real('rhop', 200, 8e3), S.real('mp', 1e-3, 50)
    return dp, D, rhog, rhop, mp


def ratio(S, V_, mp, rhog, D):
    """solids loading and particle Froude number at the velocity"""
    mu = mp / (S.pi / 4 * D * D * V_ * rhog)
    return mu, V_ / S.m.sqrt(S.const('9.80665') * D)


SALT = {'Rizk': '', 'Matsumoto_1974': '0.448*(rhop/rhog)**0.5*(Frp/10)**-1.75*(Fr/10)**3',
        'Matsumoto_1975': '1.11*(rhop/rhog)**0.55*(Frp/10)**-2.3*(Fr/10)**3'}


@spec('P15', params=sorted(SALT))
def saltation(S, n):
    dp, D, rhog, rhop, mp = convey(S)
    vt = S.real('Vterminal', .01, 20)
    if n == 'Rizk':
        # by sqrt(g D) and gas velocity at unit loading
        c, w = S.real('sqrt(g*D)', .3, 3), S.real('mp/(rhog*A)', 1e-3, 100)
        D = c * c / S.const('9.80665')
        mp = w * rhog * S.pi / 4 * D * D
    kw = {} if n == 'Rizk' else dict(rhop=rhop, Vterminal=vt)
    v = S.call(A + n, mp=mp, dp=dp, rhog=rhog, D=D, **kw)
    mu, Fr = ratio(S, v, mp, rhog, D)
    Frp = vt / S.m.sqrt(S.const('9.80665') * dp)
    if n == 'Rizk':
        # mu == 10^-alpha Fr^beta solved for the velocity
        S.eq(v ** (1 + 1100 * dp + S.const('2.5')), w * S.const('10') ** (1440 * dp + S.const('1.96')) * c ** (1100 * dp + S.const('2.5')), 'returned velocity satisfies the published relation', crtol=1e-5)
    else:
        S.eq(mu, formula(S, SALT[n], dp=dp, Fr=Fr, Frp=Frp, rhop=rhop, rhog=rhog), 'returned velocity satisfies the published relation', crtol=1e-5)
    if kw:
        kw.pop('Vterminal')
        S.eq(S.call(A + n, mp=mp, dp=dp, rhog=rhog, D=D, **kw), S.call(A + n, mp=mp, dp=dp, rhog=rhog, D=D, Vterminal=S.const('1'), **kw), 'default terminal velocity')


@spec('P15')
def matsumoto_1977(S):
    dp, D, rhog, rhop, mp = convey(S)
    vt, x = S.real('Vterminal', .01, 20), S.real('dp/dp*', .01, 100)
    S.assume(abs(x - 1) > 1e-6)
    dp = x * formula(S, '1.39*D*(rhop/rhog)**-0.74', D=D, rhop=rhop, rhog=rhog)
    v = S.call(A + 'Matsumoto_1977', mp=mp, rhop=rhop, dp=dp, rhog=rhog, D=D, Vterminal=vt)
    mu, Fr = ratio(S, v, mp, rhog, D)
    Frp = vt / S.m.sqrt(S.const('9.80665') * dp)
    t = '5560*(dp/D)**1.43*(Fr/10)**4' if x < 1 else '0.373*(rhop/rhog)**1.06*(Frp/10)**-3.7*(Fr/10)**3.61'
    S.eq(mu, formula(S, t, dp=dp, D=D, Fr=Fr, Frp=Frp, rhop=rhop, rhog=rhog), 'returned velocity satisfies the relation of its particle size', crtol=1e-5)


@spec('P15')
def schade(S):
    dp, D, rhog, rhop, mp = convey(S)
    v = S.call(A + 'Schade', mp=mp, rhop=rhop, dp=dp, rhog=rhog, D=D)
    mu, Fr = ratio(S, v, mp, rhog, D)
    S.eq(Fr, formula(S, 'mu**0.11*(D/dp)**0.025*(rhop/rhog)**0.34', mu=mu, D=D, dp=dp, rhop=rhop, rhog=rhog), 'returned velocity satisfies the published relation', crtol=1e-5)


@spec('P15')
def weber(S):
    dp, D, rhog, rhop, mp = convey(S)
    vt = S.real('Vterminal', .01, 20)
    v = S.call(A + 'Weber_saltation', mp=mp, rhop=rhop, dp=dp, rhog=rhog, D=D, Vterminal=vt)
    mu, Fr = ratio(S, v, mp, rhog, D)
    k = formula(S, '7 + 8/3*v', v=vt) if vt <= 3 else 15
    S.eq(Fr, formula(S, 'k*mu**0.25*(dp/D)**0.1', k=k, mu=mu, D=D, dp=dp), 'returned velocity satisfies the published relation', crtol=1e-5)


@spec('P15')
def geldart_ling(S):
    rhog, D, x, mug = S.real('rhog', .1, 50), S.real('D', .01, 1), S.real('Gs/D/47000', 1e-4, 100), S.real('mug', 1e-6, 1e-4)
    S.assume(abs(x - 1) > 1e-9)
    Gs = x * 47000 * D
    v = S.call(A + 'Geldart_Ling', mp=Gs * S.pi / 4 * D * D, rhog=rhog, D=D, mug=mug)
    t = '1.5*G**0.465*D**-0.01*mu**0.055*r**-0.42' if x < 1 else '8.7*G**0.302*D**0.153*mu**0.055*r**-0.42'
    S.eq(v, formula(S, t, G=Gs, D=D, mu=mug, r=rhog), 'published equation of the solids flux', crtol=1e-6)


SALTS = ['Rizk', 'Matsumoto_1974', 'Matsumoto_1975', 'Schade', 'Weber_saltation', 'Geldart_Ling']


@spec('P15', params=SALTS)
def saltation_monotone(S, n):
    """a larger solids flow needs more gas"""
    dp, D, rhog, rhop, mp = convey(S)
    if n == 'Geldart_Ling':
        # within each flux range
        G = S.real('mp', 1e-3, 50)
        D = S.const('0.1')
        S.assume(abs(G / (S.pi / 4 * D ** 3) - 47000) > 1)
        return S.monotone(lambda m: S.call(A + n, mp=m, rhog=rhog, D=D, mug=S.const('2e-5')), G, +1, 'increases with solids flow')
    kw = {} if n == 'Rizk' else dict(rhop=rhop)
    S.monotone(lambda m: S.call(A + n, mp=m, dp=dp, rhog=rhog, D=D, **kw), mp, +1, 'increases with solids flow')


# ------------------------------------------------------------- separators
@spec('P15')
def souders_brown(S):
    K, rhol, x = S.real('K', .01, 1), S.real('rhol', 100, 2e3), S.real('rhog/rhol', 1e-5, .95)
    v = S.call(V + 'v_Souders_Brown', K, rhol, x * rhol)
    S.eq(v * v * x, K * K * (1 - x), 'Souders-Brown equation', crtol=1e-6)
    S.eq(S.call(V + 'v_Sounders_Brown', K, rhol, x * rhol), v, 'alias')
    D, Cd = S.real('D', 1e-6, 1e-1), S.real('Cd', .01, 1e4)
    # the theoretical K with the terminal velocity balance
    Kt = S.call(V + 'K_Souders_Brown_theoretical', D, Cd)
    S.eq(3 * Cd * Kt * Kt, 4 * S.const('9.80665') * D, 'drag balances weight at that velocity')
    S.eq(S.call(V + 'K_Sounders_Brown_theoretical', D, Cd), Kt, 'alias')
    g2 = S.real('g', .1, 30)
    S.eq(3 * Cd * S.call(V + 'K_Souders_Brown_theoretical', D, Cd, g2) ** 2, 4 * g2 * D, 'local gravity')


WATKINS = {'branan': '-1.942936 - 0.814894*X - 0.179390*X**2 - 0.0123790*X**3 + 0.000386235*X**4 + 0.000259550*X**5',
           'blackwell': '-1.877478097 - 0.81145804597*X - 0.1870744085*X**2 - 0.0145228667*X**3 - 0.00101148518*X**4'}


@spec('P15', params=['branan', 'blackwell', 'spline'])
def watkins(S, n):
    x, rhol, r = S.real('x', .01, .99), S.real('rhol', 100, 2e3), S.real('rhog/rhol', 1e-4, .5)
    horizontal = S.flag('horizontal')
    F = (1 - x) / x * S.m.sqrt(r)
    S.assume(F > S.const('0.006'))
    S.assume(F < S.const('5.4'))
    X = S.m.log(F)
    if n == 'spline':
        seen = []

        def splev(orig, y, tck, *a, **k):
            if not S.symbolic:
                return orig(y, tck, *a, **k)
            seen.append(y)
            return v
        v = S.real('spline', -3, 0)
        S.stub('fluids.numerics.splev', splev)
        kw = {}
    else:
        kw = dict(method=n)
    K = S.call(V + 'K_separator_Watkins', x, rhol, r * rhol, horizontal, **kw)
    h = S.const('1.25') if horizontal else 1
    if n != 'spline':
        S.eq(K, S.const('0.3048') * h * S.m.exp(formula(S, WATKINS[n], X=X)), 'published curve fit', crtol=1e-6)
    elif S.symbolic:
        S.eq(seen[0], X, 'spline in the logarithm of the flow parameter')
        S.eq(K, S.const('0.3048') * h * S.m.exp(v), 'exponential of the spline')
    else:
        # the digitised chart is followed to a few percent by the published fits
        S.eq(K, S.call(V + 'K_separator_Watkins', x, rhol, r * rhol, horizontal, method='branan'), 'chart', crtol=.1)
    rejected(S, S.attempt(V + 'K_separator_Watkins', x, rhol, r * rhol, horizontal, method='no such method'), 'unknown method')


@spec('P15')
def york(S):
    P = S.real('P, psia', .01, 1e4)
    horizontal = S.flag('horizontal')
    psi = S.const('6894.757293168361')
    for b in (1, 15, 40, 5500):
        S.assume(abs(P - b) > 1e-6)
    K = S.call(V + 'K_separator_demister_York', P * psi, horizontal)
    y = 1 if P < 1 else 5500 if P > 5500 else P
    y = S.const(str(y)) if isinstance(y, int) else y
    t = '0.1821 + 0.0029*P + 0.0460*log(P)' if P < 15 else '0.35' if P < 40 else '0.430 - 0.023*log(P)'
    S.eq(K, S.const('0.3048') * (S.const('1.25') if horizontal else 1) * formula(S, t, P=y), 'published curve fit', crtol=1e-6)
