"""dimensionless groups: definitions, alternative property sets, unit invariance, relations between groups"""
from pyvc.run import spec
C = 'fluids.core.'


def q(S, *names):
    return [S.real(n, 1e-6, 1e6) for n in names]


# name -> (argument dimensions as exponents of kg, m, s, K), defining formula
G0 = 9.80665
M = dict(V=(0, 1, -1, 0), L=(0, 1, 0, 0), D_len=(0, 1, 0, 0), rho=(1, -3, 0, 0), mu=(1, -1, -1, 0), nu=(0, 2, -1, 0), alpha=(0, 2, -1, 0),
         Cp=(0, 2, -2, -1), k=(1, 1, -3, -1), Dm=(0, 2, -1, 0), t=(0, 0, 1, 0), sigma=(1, 0, -2, 0), g=(0, 1, -2, 0), h=(1, 0, -3, -1),
         P=(1, -1, -2, 0), one=(0, 0, 0, 0), dT=(0, 0, 0, 1), H=(0, 2, -2, 0), F=(1, 1, -2, 0), A=(0, 2, 0, 0), freq=(0, 0, -1, 0),
         power=(1, 2, -3, 0), Gm=(1, -2, -1, 0), q=(1, 0, -3, 0), Kperm=(0, 2, 0, 0), beta=(0, 0, 0, -1))

GROUPS = {
    'Reynolds': [dict(V='V', D='L', rho='rho', mu='mu'), dict(V='V', D='L', nu='nu')],
    'Peclet_heat': [dict(V='V', L='L', rho='rho', Cp='Cp', k='k'), dict(V='V', L='L', alpha='alpha')],
    'Peclet_mass': [dict(V='V', L='L', D='Dm')],
    'Fourier_heat': [dict(t='t', L='L', rho='rho', Cp='Cp', k='k'), dict(t='t', L='L', alpha='alpha')],
    'Fourier_mass': [dict(t='t', L='L', D='Dm')],
    'Graetz_heat': [dict(V='V', D='L', x='L', rho='rho', Cp='Cp', k='k'), dict(V='V', D='L', x='L', alpha='alpha')],
    'Schmidt': [dict(D='Dm', mu='mu', rho='rho'), dict(D='Dm', nu='nu')],
    'Lewis': [dict(D='Dm', rho='rho', Cp='Cp', k='k'), dict(D='Dm', alpha='alpha')],
    'Weber': [dict(V='V', L='L', rho='rho', sigma='sigma')],
    'Mach': [dict(V='V', c='V')],
    'Confinement': [dict(D='L', rhol='rho', rhog='rho', sigma='sigma', g='g')],
    'Morton': [dict(rhol='rho', rhog='rho', mul='mu', sigma='sigma', g='g')],
    'Knudsen': [dict(path='L', L='L')],
    'Prandtl': [dict(Cp='Cp', k='k', mu='mu'), dict(nu='nu', rho='rho', Cp='Cp', k='k'), dict(nu='nu', alpha='alpha')],
    'Grashof': [dict(L='L', beta='beta', T1='dT', T2='dT', rho='rho', mu='mu', g='g'), dict(L='L', beta='beta', T1='dT', T2='dT', nu='nu', g='g')],
    'Rayleigh': [dict(Pr='one', Gr='one')],
    'Froude': [dict(V='V', L='L', g='g')],
    'Froude_densimetric': [dict(V='V', L='L', rho1='rho', rho2='rho', g='g')],
    'Strouhal': [dict(f='freq', L='L', V='V')],
    'Nusselt': [dict(h='h', L='L', k='k')],
    'Sherwood': [dict(K='V', L='L', D='Dm')],
    'Biot': [dict(h='h', L='L', k='k')],
    'Stanton': [dict(h='h', V='V', rho='rho', Cp='Cp')],
    'Euler': [dict(dP='P', rho='rho', V='V')],
    'Cavitation': [dict(P='P', Psat='P', rho='rho', V='V')],
    'Eckert': [dict(V='V', Cp='Cp', dT='dT')],
    'Jakob': [dict(Cp='Cp', Hvap='H', Te='dT')],
    'Power_number': [dict(P='power', L='L', N='freq', rho='rho')],
    'Drag': [dict(F='F', A='A', V='V', rho='rho')],
    'Stokes_number': [dict(V='V', Dp='L', D='L', rhop='rho', mu='mu')],
    'Capillary': [dict(V='V', mu='mu', sigma='sigma')],
    'Archimedes': [dict(L='L', rhof='rho', rhop='rho', mu='mu', g='g')],
    'Ohnesorge': [dict(L='L', rho='rho', mu='mu', sigma='sigma')],
    'Suratman': [dict(L='L', rho='rho', mu='mu', sigma='sigma')],
    'Hagen': [dict(Re='one', fd='one')],
    'Bejan_L': [dict(dP='P', L='L', mu='mu', alpha='alpha')],
    'Bejan_p': [dict(dP='P', K='Kperm', mu='mu', alpha='alpha')],
    'Boiling': [dict(G='Gm', q='q', Hvap='H')],
    'Dean': [dict(Re='one', Di='L', D='L')],
    'relative_roughness': [dict(D='L', roughness='L')],
}
CASES = [(n, i) for n, v in GROUPS.items() for i in range(len(v))]
HEAVIER = {'rhol': 'rhog', 'rho1': 'rho2', 'rhop': 'rhof'}


@spec('P04', params=CASES)
def unit_invariance(S, name, i):
    """changing the base units (kg, m, s, K) by any factors leaves the group unchanged"""
    dims = GROUPS[name][i]
    kw = {a: S.real(a, 1e-6, 1e6) for a in dims}
    for a, b in HEAVIER.items():
        if a in kw and b in kw:
            S.assume(kw[a] > kw[b] * 1.000001)
    u = [S.real(n, 1e-3, 1e3) for n in ('u_kg', 'u_m', 'u_s', 'u_K')]
    v = S.call(C + name, **kw)
    kw2 = {}
    for a, d in dims.items():
        x = kw[a]
        for uu, e in zip(u, M[d]):
            if e:
                x = x * uu ** e
        kw2[a] = x
    S.eq(S.call(C + name, **kw2), v, 'value independent of the units', catol=1e-6 * (0 if S.symbolic else abs(v)), crtol=1e-4)


@spec('P04')
def definitions(S):
    V, L, D, rho, mu, Cp, k, t, Dm, sigma, g, x = q(S, 'V', 'L', 'D', 'rho', 'mu', 'Cp', 'k', 't', 'Dm', 'sigma', 'g', 'x')
    f = lambda n, *a, **kk: S.call(C + n, *a, **kk)
    nu, al = mu / rho, k / (rho * Cp)
    E = S.eq
    E(f('thermal_diffusivity', k=k, rho=rho, Cp=Cp), al, 'thermal diffusivity')
    Re = f('Reynolds', V=V, D=L, rho=rho, mu=mu)
    E(Re, V * L * rho / mu, 'Re'); E(f('Reynolds', V=V, D=L, nu=nu), Re, 'Re nu')
    Pe = f('Peclet_heat', V=V, L=L, rho=rho, Cp=Cp, k=k)
    E(Pe, V * L * rho * Cp / k, 'Pe'); E(f('Peclet_heat', V=V, L=L, alpha=al), Pe, 'Pe alpha')
    Pm = f('Peclet_mass', V=V, L=L, D=Dm); E(Pm, V * L / Dm, 'Pe mass')
    Fo = f('Fourier_heat', t=t, L=L, rho=rho, Cp=Cp, k=k)
    E(Fo, t * k / (L * L * rho * Cp), 'Fo'); E(f('Fourier_heat', t=t, L=L, alpha=al), Fo, 'Fo alpha')
    E(f('Fourier_mass', t=t, L=L, D=Dm), t * Dm / L ** 2, 'Fo mass')
    Gz = f('Graetz_heat', V=V, D=D, x=x, rho=rho, Cp=Cp, k=k)
    E(Gz, V * D * D * rho * Cp / (x * k), 'Gz'); E(f('Graetz_heat', V=V, D=D, x=x, alpha=al), Gz, 'Gz alpha')
    Sc = f('Schmidt', D=Dm, mu=mu, rho=rho)
    E(Sc, mu / rho / Dm, 'Sc'); E(f('Schmidt', D=Dm, nu=nu), Sc, 'Sc nu')
    Le = f('Lewis', D=Dm, rho=rho, Cp=Cp, k=k)
    E(Le, k / rho / Cp / Dm, 'Le'); E(f('Lewis', D=Dm, alpha=al), Le, 'Le alpha')
    Pr = f('Prandtl', Cp=Cp, k=k, mu=mu)
    E(Pr, Cp * mu / k, 'Pr'); E(f('Prandtl', nu=nu, rho=rho, Cp=Cp, k=k), Pr, 'Pr nu'); E(f('Prandtl', nu=nu, alpha=al), Pr, 'Pr alpha')
    # relations between groups
    E(Pe, Re * Pr, 'Pe = Re Pr'); E(Pm, Re * Sc, 'Pe_m = Re Sc'); E(Sc, Le * Pr, 'Sc = Le Pr')
    We = f('Weber', V=V, L=L, rho=rho, sigma=sigma); E(We, rho * V * V * L / sigma, 'We')
    Ca = f('Capillary', V=V, mu=mu, sigma=sigma); E(Ca, mu * V / sigma, 'Ca'); E(Ca * Re, We, 'We = Ca Re')
    Oh = f('Ohnesorge', L=L, rho=rho, mu=mu, sigma=sigma); E(Oh * Oh, mu * mu / (L * rho * sigma), 'Oh'); E(Oh * Re, S.m.sqrt(We), 'Oh = sqrt(We)/Re')
    E(f('Suratman', L=L, rho=rho, mu=mu, sigma=sigma) * Oh * Oh, 1, 'Su = 1/Oh^2')
    Fr = f('Froude', V=V, L=L, g=g)
    E(Fr * Fr, V * V / (g * L), 'Fr'); E(f('Froude', V=V, L=L, g=g, squared=True), Fr * Fr, 'Fr squared')
    E(f('Stanton', h=t, V=V, rho=rho, Cp=Cp) * Pe, f('Nusselt', h=t, L=L, k=k), 'St = Nu/Pe')
    E(f('Nusselt', h=t, L=L, k=k), t * L / k, 'Nu'); E(f('Biot', h=t, L=L, k=k), t * L / k, 'Bi')
    E(f('Sherwood', K=V, L=L, D=Dm), V * L / Dm, 'Sh'); E(f('Strouhal', f=t, L=L, V=V), t * L / V, 'Sr')
    E(f('Knudsen', path=x, L=L), x / L, 'Kn'); E(f('Mach', V=V, c=x), V / x, 'Ma')
    E(f('Euler', dP=x, rho=rho, V=V) * rho * V * V, x, 'Eu'); E(f('Eckert', V=V, Cp=Cp, dT=t), V * V / Cp / t, 'Ec')
    E(f('Jakob', Cp=Cp, Hvap=x, Te=t), Cp * t / x, 'Ja'); E(f('Power_number', P=x, L=L, N=t, rho=rho), x / (rho * t ** 3 * L ** 5), 'Po')
    E(f('Drag', F=x, A=L, V=V, rho=rho), 2 * x / (L * rho * V * V), 'Cd')
    E(f('Stokes_number', V=V, Dp=x, D=D, rhop=rho, mu=mu), rho * V * x * x / (18 * mu * D), 'Stk')
    E(f('Hagen', Re=Re, fd=x), x * Re * Re / 2, 'Hg')
    E(f('Bejan_L', dP=x, L=L, mu=mu, alpha=Dm), x * L * L / (mu * Dm), 'Be_L'); E(f('Bejan_p', dP=x, K=t, mu=mu, alpha=Dm), x * t / (mu * Dm), 'Be_p')
    E(f('Boiling', G=V, q=t, Hvap=x), t / V / x, 'Bo'); E(f('Dean', Re=Re, Di=x, D=D) ** 2, Re * Re * x / D, 'De')
    E(f('relative_roughness', D=D, roughness=x), x / D, 'eD'); E(f('Rayleigh', Pr=Pr, Gr=x), Pr * x, 'Ra')


@spec('P04')
def buoyancy(S):
    L, rho, d, mu, sigma, g, V, beta, T1, dT = q(S, 'L', 'rho', 'd', 'mu', 'sigma', 'g', 'V', 'beta', 'T1', 'dT')
    rhoh = rho + d
    f = lambda n, *a, **kk: S.call(C + n, *a, **kk)
    E = lambda a, b, l: S.eq(a, b, l, crtol=1e-3)
    S.assume(d > rho * S.const('1e-6'))
    S.assume(dT > T1 * S.const('1e-6'))
    g0 = S.mod('constants').g
    Gr = f('Grashof', L=L, beta=beta, T1=T1, T2=T1 + dT, rho=rho, mu=mu, g=g)
    E(Gr, g * beta * dT * L ** 3 * rho ** 2 / mu ** 2, 'Gr')
    E(f('Grashof', L=L, beta=beta, T1=T1 + dT, T2=T1, nu=mu / rho, g=g), Gr, 'Gr nu, symmetric in T')
    E(f('Bond', rhol=rhoh, rhog=rho, sigma=sigma, L=L), g0 * d * L * L / sigma, 'Bo')
    Co = f('Confinement', D=L, rhol=rhoh, rhog=rho, sigma=sigma, g=g)
    E(Co * Co * g * d * L * L, sigma, 'Co')
    Co0 = f('Confinement', D=L, rhol=rhoh, rhog=rho, sigma=sigma)
    E(Co0 * Co0 * f('Bond', rhol=rhoh, rhog=rho, sigma=sigma, L=L), 1, 'Co^2 Bo = 1')
    E(f('Morton', rhol=rhoh, rhog=rho, mul=mu, sigma=sigma, g=g), g * mu ** 4 * d / (rhoh ** 2 * sigma ** 3), 'Mo')
    E(f('Archimedes', L=L, rhof=rho, rhop=rhoh, mu=mu, g=g), g * L ** 3 * rho * d / mu ** 2, 'Ar')
    F1 = f('Froude_densimetric', V=V, L=L, rho1=rhoh, rho2=rho, g=g)
    E(F1 * F1, V * V / (g * L) * rhoh / d, 'Fr densimetric')
    F2 = f('Froude_densimetric', V=V, L=L, rho1=rhoh, rho2=rho, heavy=False, g=g)
    E(F2 * F2, V * V / (g * L) * rho / d, 'Fr densimetric light')
    E(f('Cavitation', P=rhoh, Psat=rho, rho=mu, V=V), 2 * d / (mu * V * V), 'Ca')
    # default gravity is the standard one
    E(f('Froude', V=V, L=L), f('Froude', V=V, L=L, g=g0), 'default g')
    E(f('Archimedes', L=L, rhof=rho, rhop=rhoh, mu=mu), f('Archimedes', L=L, rhof=rho, rhop=rhoh, mu=mu, g=g0), 'default g Ar')


@spec('P04')
def sound(S):
    T, k, MW = S.real('T', 1, 1e4), S.real('k', 1.001, 3), S.real('MW', .1, 1e3)
    c = S.call(C + 'c_ideal_gas', T=T, k=k, MW=MW)
    S.eq(c * c, k * S.mod('constants').R * 1000 / MW * T, 'c^2 = k R T / MW')


MISSING = [('Reynolds', dict(V=1., D=1., rho=1.)), ('Reynolds', dict(V=1., D=1., mu=1.)), ('Peclet_heat', dict(V=1., L=1., rho=1., Cp=1.)),
           ('Fourier_heat', dict(t=1., L=1., rho=1., k=1.)), ('Graetz_heat', dict(V=1., D=1., x=1., k=1., Cp=1.)), ('Schmidt', dict(D=1., mu=1.)),
           ('Schmidt', dict(D=1., rho=1.)), ('Lewis', dict(D=1., Cp=1., k=1.)), ('Prandtl', dict(Cp=1., k=1.)), ('Prandtl', dict(nu=1., rho=1., Cp=1.)),
           ('Prandtl', dict(alpha=1.)), ('Grashof', dict(L=1., beta=1., T1=1., rho=1.)), ('nu_mu_converter', dict(rho=1.)),
           ('nu_mu_converter', dict(rho=1., mu=1., nu=1.))]


@spec('P04')
def incomplete_rejected(S):
    for n, kw in MISSING:
        r = S.attempt(C + n, **{a: S.const(str(v)) for a, v in kw.items()})
        S.check(not r.ok and isinstance(r.exc, ValueError), 'incomplete property set rejected: %s' % n)
