"""Packed beds, packed towers and demisters (fluids/packed_bed.py, packed_tower.py)."""
from pyvc.run import spec, static
from specs.common import abstract, rejected, formula
B = 'fluids.packed_bed.'
T = 'fluids.packed_tower.'


def bed(S):
    """dp, voidage, vs, rho, mu, L as ratios"""
    dp, e, vs, rho = S.real('dp', 1e-6, 1), S.real('voidage', .05, .95), S.real('vs', 1e-6, 100), S.real('rho', 1e-2, 2e4)
    Re, L = S.real('Re', 1e-3, 1e6), S.real('L', 1e-3, 1e3)
    return dp, e, vs, rho, dp * rho * vs / Re, L, Re


FP = {
    'Ergun': '(150 + 1.75*(Re/(1 - e)))*(1 - e)**2/(e**3*Re)',
    'Kuo_Nydegger': '(276.23 + 5.05*(Re/(1 - e))**0.87)*(1 - e)**2/(e**3*Re)',
    'Tallmadge': '(150 + 4.2*(Re/(1 - e))**(5/6))*(1 - e)**2/(e**3*Re)',
    'Jones_Krier': '(150 + 3.89*(Re/(1 - e))**0.87)*(1 - e)**2/(e**3*Re)',
    'Carman': '(180 + 2.871*(Re/(1 - e))**0.9)*(1 - e)**2/(e**3*Re)',
    'Hicks': '6.8*(1 - e)**1.2/(Re**0.2*e**3)',
    'Brauer': '(160 + 3.1*(Re/(1 - e))**0.9)*(1 - e)**2/(e**3*Re)',
    'KTA': '(160 + 3*(Re/(1 - e))**0.9)*(1 - e)**2/(e**3*Re)',
    'Erdim_Akgiray_Demir': '(160 + 2.81*(Re/(1 - e))**0.904)*(1 - e)**2/(e**3*Re)',
    'Fahien_Schriver': '(exp(-e**2*Re/12.6)*136/(1 - e)**0.38/(Re/(1 - e)) + (1 - exp(-e**2*Re/12.6))*(1.87*e**0.75/(1 - e)**0.26 + 29/((1 - e)**1.45*e**2)/(Re/(1 - e))))*(1 - e)/e**3',
    'Idelchik': '0.765/e**4.2*(30/(0.45/sqrt(e)*Re/(1 - e)) + 3/(0.45/sqrt(e)*Re/(1 - e))**0.7 + 0.3)',
}
NAMES = {'Ergun': 'Ergun', 'Tallmadge': 'Tallmadge', 'Kuo & Nydegger': 'Kuo_Nydegger', 'Jones & Krier': 'Jones_Krier', 'Carman': 'Carman', 'Hicks': 'Hicks', 'Brauer': 'Brauer', 'KTA': 'KTA',
         'Erdim, Akgiray & Demir': 'Erdim_Akgiray_Demir', 'Fahien & Schriver': 'Fahien_Schriver', 'Idelchik': 'Idelchik', 'Harrison, Brunner & Hecker': 'Harrison_Brunner_Hecker',
         'Montillet, Akkari & Comiti': 'Montillet_Akkari_Comiti', 'Guo, Sun, Zhang, Ding & Liu': 'Guo_Sun'}
WALL = ['Harrison_Brunner_Hecker', 'Montillet_Akkari_Comiti', 'Guo_Sun']


@spec('P12', params=sorted(FP))
def bed_correlation(S, n):
    dp, e, vs, rho, mu, L, Re = bed(S)
    S.eq(S.call(B + n, dp=dp, voidage=e, vs=vs, rho=rho, mu=mu, L=L), formula(S, FP[n], Re=Re, e=e) * rho * vs * vs * L / dp, 'published friction factor', crtol=1e-7)


def wall(S, n, Re, e, x):
    """x = dp/Dt or None"""
    if n == 'Harrison_Brunner_Hecker':
        t = '(119.8*A + 4.63*B*(Re/(1 - e))**(5/6))*(1 - e)**2/(e**3*Re)'
        A, B_ = (1, 1) if x is None else ((1 + S.pi * x / (6 * (1 - e))) ** 2, 1 - S.pi ** 2 * x / 24 * (1 - x / 2))
        return formula(S, t, Re=Re, e=e, A=A, B=B_)
    if n == 'Montillet_Akkari_Comiti':
        a = S.const('0.061') if e < S.const('0.4') else S.const('0.05')
        w = S.const('2.2') if x is None or x * 50 < 1 else formula(S, '(1/x)**0.2', x=x)
        return formula(S, 'a*w*(1000/Re + 60/sqrt(Re) + 12)*(1 - e)/e**3', Re=Re, e=e, a=a, w=w)
    r = S.const('3.5') if x is None else x
    return formula(S, '(180 + (9.5374*r - 2.8054)*(Re/(1 - e))**0.97)*(1 - e)**2/(e**3*Re)', Re=Re, e=e, r=r)


@spec('P12', params=WALL)
def wall_correlation(S, n):
    dp, e, vs, rho, mu, L, Re = bed(S)
    x = S.real('dp/Dt', 1e-3, .9) if S.flag('tube diameter given') else None
    S.assume(abs(e - S.const('0.4')) > 1e-9)
    if x is not None:
        S.assume(abs(x * 50 - 1) > 1e-9)
    kw = {} if x is None else {'Dt': dp / x}
    S.eq(S.call(B + n, dp=dp, voidage=e, vs=vs, rho=rho, mu=mu, L=L, **kw), wall(S, n, Re, e, x) * rho * vs * vs * L / dp, 'published friction factor', crtol=1e-7)


@spec('P12', params=sorted(set(NAMES.values()) - {'Guo_Sun'}))
def bed_monotone(S, n):
    """pressure drop is positive, and less void gives more of it; in terms of velocity scale, the friction factor falls with the Reynolds number but more slowly than its square rises"""
    dp, e, vs, rho = S.const('0.01'), S.real('voidage', .1, .9), S.const('1'), S.const('1')
    Re = S.real('Re', 1e-3, 1e6)
    f = lambda voidage=e, Re=Re, vs=vs: S.call(B + n, dp=dp, voidage=voidage, vs=vs, rho=rho, mu=dp * vs / Re)
    S.gt(f(), 0, 'positive')
    if n != 'Fahien_Schriver':
        S.monotone(lambda x: f(Re=x), Re, -1, 'increases with viscosity')
        # same fluid and bed: velocity proportional to Re
        S.monotone(lambda x: f(Re=x, vs=x * S.const('1e-3')), Re, +1, 'increases with velocity')
        if n != 'Montillet_Akkari_Comiti':
            S.monotone(lambda x: f(voidage=x), e, -1, 'decreases with voidage')


@spec('P12', params=['default'] + sorted(NAMES))
def bed_dispatch(S, n):
    n = None if n == 'default' else n
    dp, e, vs, rho, mu, L, Re = bed(S)
    Dt = S.real('Dt', 1e-2, 100) if S.flag('tube diameter given') else None
    sph = S.real('sphericity', .1, 1) if S.flag('sphericity given') else None
    for k in NAMES.values():
        abstract(S, B + k)
    v = S.call(B + 'dP_packed_bed', dp=dp, voidage=e, vs=vs, rho=rho, mu=mu, L=L, Dt=Dt, sphericity=sph, Method=n)
    d = dp if sph is None else dp * sph
    q = NAMES[n] if n is not None else 'Erdim_Akgiray_Demir' if Dt is None else 'Harrison_Brunner_Hecker'
    kw = {'Dt': Dt} if q in WALL else {}
    S.eq(v, S.call(B + q, dp=d, voidage=e, vs=vs, rho=rho, mu=mu, L=L, **kw), 'the named (or default) correlation')
    ms = S.call(B + 'dP_packed_bed_methods', dp, e, vs, rho, mu, L, Dt)
    S.check(sorted(ms) == sorted(k for k, q in NAMES.items() if Dt is not None or q not in WALL), 'methods offered')
    if n is None:
        rejected(S, S.attempt(B + 'dP_packed_bed', dp=dp, voidage=e, vs=vs, rho=rho, mu=mu, Method='no such method'), 'unknown method')


@spec('P12')
def voidage(S):
    x, D, phi = S.real('Dt/Dp', 1.5, 1e3), S.real('Dp', 1e-6, 1), S.real('sphericity', .1, 1)
    S.eq(S.call(B + 'voidage_Benyahia_Oneil', D, D * x, phi), formula(S, '0.1504 + 0.2024/p + 1.0814/(x + 0.1226)**2', x=x, p=phi), 'arbitrary shape')
    S.eq(S.call(B + 'voidage_Benyahia_Oneil_spherical', D, D * x), formula(S, '0.390 + 1.740/(x + 1.140)**2', x=x), 'spheres')
    S.eq(S.call(B + 'voidage_Benyahia_Oneil_cylindrical', D, D * x, phi), formula(S, '0.373 + 1.703/(x + 0.611)**2', x=x), 'cylinders')


# -------------------------------------------------------------- demisters
@spec('P12')
def demister_dry(S):
    x, L, e, vs, rho = S.real('S*L', 1, 10), S.real('L', 1e-3, 10), S.real('voidage', .5, .999), S.real('vs', .01, 50), S.real('rho', .01, 2e3)
    mu = S.real('mu', 1e-6, 1e-2)
    S.assume(abs(S.const('69.6') * x - x * x - 779) > 1)
    for n, t in (('', '10.29 - 565/(69.6*x - x**2 - 779) - 74.9/(160.9 - 4.85*x) + 45.33*y**0.75'), ('_lit', '7.3 - 320/(69.6*x - x**2 - 779) - 52.4/(161 - 4.85*x) + 27.2*y**0.75')):
        S.eq(S.call(T + 'dP_demister_dry_Setekleiv_Svendsen' + n, S=x / L, voidage=e, vs=vs, rho=rho, mu=mu, L=L) * e * e, formula(S, t, x=x, y=mu * e * x * x / (L * rho * vs)) * rho * vs * vs, 'published equation' + n, crtol=1e-6)


@spec('P12')
def demister_wet(S):
    e, vs, d, L, dd = S.real('voidage', .5, .999), S.real('vs', .01, 50), S.real('d_wire', 1e-5, 1e-2), S.real('L', 1e-3, 10), S.real('d_drop', 1e-5, 1e-2)
    # conversion of the published units: mesh density at 7999 kg/m^3, wire and drop diameters in mm, percent
    f = lambda t: formula(S, t, V=vs, rho=7999 * (1 - e), d=1000 * d, p=1000 * dd)
    S.eq(S.call(T + 'dP_demister_wet_ElDessouky', vs, e, d, L), L * f('3.88178*rho**0.375798*V**0.81317*d**-1.56114147'), 'published equation in its units', crtol=1e-6)
    eta = S.call(T + 'separation_demister_ElDessouky', vs, e, d, dd)
    x = f('0.175047*d**-0.28264*rho**0.099625*V**0.106878*p**0.383197')
    y = formula(S, '0.858352355761947*d**-0.28264*(1 - e)**0.099625*V**0.106878*p**0.383197', d=d, e=e, V=vs, p=dd)
    S.eq(x, y, 'unit conversion')
    S.assume(abs(y - 1) > 1e-9)
    S.eq(eta, y if y < 1 else 1, 'published equation, at most complete', crtol=1e-6)
    S.between(0, eta, 1, 'a fraction')


@spec('P12')
def mesh(S):
    e, d, D, H, rho = S.real('voidage', .01, .999), S.real('d', 1e-5, 1e-1), S.real('D', 1e-3, 100), S.real('H', 1e-3, 100), S.real('rho', 10, 2e4)
    S.eq(S.call(T + 'specific_area_mesh', e, d) * d, 4 * (1 - e), 'wire area per volume')
    m = (1 - e) * rho * S.pi / 4 * D * D * H
    S.eq(S.call(T + 'voidage_experimental', m, rho, D, H), e, 'recovers the voidage from the mass')


# ---------------------------------------------------------------- columns
def column(S):
    v = dict(Vg=S.real('Vg', .01, 10), rhog=S.real('rhog', .1, 100), voidage=S.real('voidage', .3, .98), specific_area=S.real('specific_area', 10, 1e3),
             C1=S.real('C1', 1, 100), C2=S.real('C2', .1, 10), C3=S.real('C3', .1, 10), H=S.real('H', .1, 50))
    Re = S.real('Re', 1, 1e5)
    e = v['voidage']
    dp = 6 * (1 - e) / v['specific_area']
    v['mug'] = v['Vg'] * v['rhog'] * dp / Re
    f0 = formula(S, 'C1/Re + C2/sqrt(Re) + C3', C1=v['C1'], C2=v['C2'], C3=v['C3'], Re=Re)
    dry = formula(S, '3/4*f0*(1 - e)/e**4.65*rhog*H/dp*Vg**2', f0=f0, e=e, rhog=v['rhog'], H=v['H'], Vg=v['Vg'], dp=dp)
    return v, Re, dp, f0, dry


@spec('P12')
def stichlmair_dry(S):
    v, Re, dp, f0, dry = column(S)
    S.eq(S.call(T + 'Stichlmair_dry', **v), dry, 'published equation', crtol=1e-7)


@spec('P12')
def stichlmair_wet(S):
    v, Re, dp, f0, dry = column(S)
    Vl, rhol = S.real('Vl', 1e-5, 1e-2), S.real('rhol', 500, 2e3)
    S.root_domain(1e-6, 1e6)
    S.assume(dry < S.const('0.05') * rhol * S.const('9.80665') * v['H'])        # below flooding
    P = S.call(T + 'Stichlmair_wet', Vl=Vl, rhol=rhol, **v)
    e, H = v['voidage'], v['H']
    h0 = formula(S, '0.555*(Vl**2*a/(g*e**4.65))**(1/3)', Vl=Vl, a=v['specific_area'], e=e)
    hT = h0 * formula(S, '1 + 20*(P/(H*r*g))**2', P=P, H=H, r=rhol)
    S.assume(hT < e * S.const('0.99'))
    c = formula(S, '(-C1/Re - C2/(2*sqrt(Re)))/f0', C1=v['C1'], C2=v['C2'], Re=Re, f0=f0)
    S.eq(P / H, formula(S, 'dry/H*((1 - e + hT)/(1 - e))**((2 + c)/3)*(e/(e - hT))**4.65', dry=dry, H=H, e=e, hT=hT, c=c), 'irrigated pressure drop equation holds', crtol=1e-3)


@spec('P12')
def robbins(S):
    L, G, rhol, rhog, mul, H, F = S.real('L', .01, 50), S.real('G', .01, 20), S.real('rhol', 500, 2e3), S.real('rhog', .1, 100), S.real('mul', 1e-4, 1e-1), S.real('H', .1, 50), S.real('Fpd', 1, 200)
    P = S.call(T + 'Robbins', L=L, G=G, rhol=rhol, rhog=rhog, mul=mul, H=H, Fpd=F)
    # units: lb/h/ft^2, lb/ft^3, cP, inH2O/ft
    Lf = formula(S, 'L*737.33812*(62.4/(rhol*0.062427961))*sqrt(F/20)*(1000*mul)**0.1', L=L, rhol=rhol, F=F, mul=mul)
    Gf = formula(S, 'G*737.33812*sqrt(0.075/(rhog*0.062427961))*sqrt(F/20)', G=G, rhog=rhog, F=F)
    t = formula(S, '7.4e-8*Gf**2*exp(log(10)*2.7e-5*Lf)', Gf=Gf, Lf=Lf)
    S.eq(P, formula(S, '(t + 0.4*(Lf/20000)**0.1*t**4)*817.22083*H', t=t, Lf=Lf, H=H), 'published equation in its units', crtol=1e-6)
