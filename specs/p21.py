"""Two-phase pressure drop (fluids/two_phase.py)."""
from pyvc.run import spec, static
from pyvc import instr
from specs.common import abstract, rejected, formula
T = 'fluids.two_phase.'
FF = 'fluids.friction.friction_factor'
RANGES = {'m': (1e-4, 1e3), 'x': (1e-3, .999), 'rhol': (100, 2000), 'mul': (1e-5, 1), 'sigma': (1e-4, .1), 'D': (1e-4, 2), 'P': (1e4, 1e7)}


def inputs(S, names):
    v = {}
    for k in names.split():
        if k == 'rhog':
            v[k] = v['rhol'] * S.real('density ratio', 1e-4, .9)
        elif k == 'mug':
            v[k] = v['mul'] * S.real('viscosity ratio', 1e-3, .9)
        elif k == 'Pc':
            v[k] = v['P'] / S.real('reduced pressure', 1e-3, .99)
        else:
            v[k] = S.real(k, *RANGES[k])
    return v


class Flow:
    """single phase flows of the two-phase stream: all as liquid (lo), all as gas (go), liquid part (l), gas part (g)"""

    def __init__(self, S, v, rough, L, friction=None):
        self.S, self.v, self.L, self.eD = S, v, L, rough / v['D']
        self.A = S.pi / 4 * v['D'] * v['D']
        self.G = v['m'] / self.A
        self.friction = friction or (lambda Re: S.call(FF, Re=Re, eD=self.eD))

    def V(self, k):
        v = self.v
        part = {'lo': 1, 'go': 1, 'l': 1 - v['x'], 'g': v['x']}.get(k) if len(k) == 1 else 1
        return v['m'] * part / (v['rhol' if k[0] == 'l' else 'rhog'] * self.A)

    def Re(self, k):
        v = self.v
        return v['rhol' if k[0] == 'l' else 'rhog'] * self.V(k) * v['D'] / v['mul' if k[0] == 'l' else 'mug']

    def fd(self, k):
        return self.friction(self.Re(k))

    def dP(self, k):
        v = self.v
        return self.fd(k) * self.L / v['D'] * (v['rhol' if k[0] == 'l' else 'rhog'] * self.V(k) ** 2) / 2

    def rho_h(self):
        v = self.v
        return 1 / (v['x'] / v['rhog'] + (1 - v['x']) / v['rhol'])

    def Fr_h(self):
        return self.G ** 2 / (self.S.const('9.80665') * self.v['D'] * self.rho_h() ** 2)

    def We_h(self):
        return self.G ** 2 * self.v['D'] / (self.v['sigma'] * self.rho_h())

    def Co(self):
        v = self.v
        return self.S.m.sqrt(v['sigma'] / (self.S.const('9.80665') * (v['rhol'] - v['rhog']))) / v['D']

    def X(self):
        return self.S.m.sqrt(self.dP('l') / self.dP('g'))


BASE = 'm x rhol rhog mul mug D'
SURF = 'm x rhol rhog mul mug sigma D'
NEEDS = {'Zhang_Webb': 'm x rhol mul P Pc D', 'Lombardi_Pedrocchi': 'm x rhol rhog sigma D'}
for _n in 'Lockhart_Martinelli Bankoff Baroczy_Chisholm Chisholm Gronnerud Jung_Radermacher Muller_Steinhagen_Heck Theissing Wang_Chiang_Lu Yu_France'.split():
    NEEDS[_n] = BASE
for _n in 'Kim_Mudawar Friedel Hwang_Kim Mishima_Hibiki Tran Xu_Fang Zhang_Hibiki_Mishima Chen_Friedel'.split():
    NEEDS[_n] = SURF
NO_ROUGH = ('Kim_Mudawar', 'Lockhart_Martinelli', 'Lombardi_Pedrocchi')


def stream(S, n, friction=None):
    v = inputs(S, NEEDS[n])
    kw = dict(v)
    if S.flag('length given'):
        kw['L'] = S.real('L', .1, 1e4)
    rough = S.const('0.0')
    if n not in NO_ROUGH and S.flag('roughness given'):
        kw['roughness'] = rough = v['D'] * S.real('relative roughness', 1e-6, .04)
    return Flow(S, v, rough, kw.get('L', 1), friction), kw


def friedel(S, F, v):
    E = formula(S, '(1 - x)**2 + x**2*(rhol*fg/(rhog*fl))', fg=F.fd('go'), fl=F.fd('lo'), **v_only(v, 'x rhol rhog'))
    FH = formula(S, 'x**0.78*(1 - x)**0.224*(rhol/rhog)**0.91*(mug/mul)**0.19*(1 - mug/mul)**0.7', **v_only(v, 'x rhol rhog mul mug'))
    return E + formula(S, '3.24*FH/(Fr**0.0454*We**0.035)', FH=FH, Fr=F.Fr_h(), We=F.We_h())


def v_only(v, names):
    return {k: v[k] for k in names.split()}


def chisholm_phi(S, v, G2, B, n='0.25'):
    return 1 + (G2 - 1) * formula(S, 'B*x**((2 - n)/2)*(1 - x)**((2 - n)/2) + x**(2 - n)', B=B, x=v['x'], n=S.const(n) if isinstance(n, str) else n)


SIMPLE = {
    'Friedel': lambda S, F, v: friedel(S, F, v) * F.dP('lo'),
    'Muller_Steinhagen_Heck': lambda S, F, v: formula(S, '(lo + 2*(go - lo)*x)*(1 - x)**(1/3) + go*x**3', lo=F.dP('lo'), go=F.dP('go'), x=v['x']),
    'Lombardi_Pedrocchi': lambda S, F, v: formula(S, '0.83*G**1.4*sigma**0.4*L/(D**1.2*r**0.866)', G=F.G, r=F.rho_h(), L=F.L, **v_only(v, 'sigma D')),
    'Jung_Radermacher': lambda S, F, v: formula(S, '12.82*(((1 - x)/x)**0.9*(rhog/rhol)**0.5*(mul/mug)**0.1)**-1.47*(1 - x)**1.8', **v_only(v, 'x rhol rhog mul mug')) * F.dP('lo'),
    'Tran': lambda S, F, v: formula(S, '1 + (4.3*G2 - 1)*(Co*x**0.875*(1 - x)**0.875 + x**1.75)', G2=F.dP('go') / F.dP('lo'), Co=F.Co(), x=v['x']) * F.dP('lo'),
    'Zhang_Webb': lambda S, F, v: formula(S, '(1 - x)**2 + 2.87*x**2/(P/Pc) + 1.68*x**0.8*(1 - x)**0.25*(P/Pc)**-1.64', **v_only(v, 'x P Pc')) * F.dP('lo'),
    'Bankoff': lambda S, F, v: formula(S, '(1/(1 - x)*(1 - (0.71 + 2.35*rhog/rhol)/(1 + (1 - x)/x*rhog/rhol)*(1 - rhog/rhol))**(3/7)*(1 + x*(rhol/rhog - 1)))**(7/4)', **v_only(v, 'x rhol rhog')) * F.dP('lo'),
    'Xu_Fang': lambda S, F, v: formula(S, 'Y2*x**3 + (1 - x**2.59)**0.632*(1 + 2*x**1.17*(Y2 - 1) + 0.00775*x**-0.475*Fr**0.535*We**0.188)', Y2=F.dP('go') / F.dP('lo'), Fr=F.Fr_h(), We=F.We_h(), x=v['x']) * F.dP('lo'),
    'Yu_France': lambda S, F, v: formula(S, '(18.65*(rhog/rhol)**0.5*((1 - x)/x)*Rg**0.1/Rl**0.5)**-1.9', Rg=F.Re('g'), Rl=F.Re('l'), **v_only(v, 'x rhol rhog')) * F.dP('l'),
    'Hwang_Kim': lambda S, F, v: formula(S, '1 + 0.227*R**0.452*X**-0.32*Co**-0.82/X + 1/X**2', R=F.Re('lo'), X=F.X(), Co=F.Co()) * F.dP('l'),
    'Mishima_Hibiki': lambda S, F, v: formula(S, '1 + 21*(1 - exp(-319*D))/X + 1/X**2', X=F.X(), D=v['D']) * F.dP('l'),
}


@spec('P21', params=sorted(SIMPLE))
def correlation(S, n):
    abstract(S, FF, positive=True)
    F, kw = stream(S, n)
    S.eq(S.call(T + n, **kw), SIMPLE[n](S, F, F.v), 'published equation', crtol=1e-6)


@spec('P21', params=['bond', 'weber'])
def chen_friedel(S, case):
    abstract(S, FF, positive=True)
    F, kw = stream(S, 'Chen_Friedel')
    v = F.v
    Bo = formula(S, 'g*(rhol - rhog)*D**2/sigma/4', **v_only(v, 'rhol rhog D sigma'))
    S.assume(Bo < 2.4999 if case == 'bond' else Bo > 2.5001)
    if case == 'bond':
        Om = formula(S, '0.0333*R**0.45/(Rg**0.09*(1 + 0.4*exp(-Bo)))', R=F.Re('lo'), Rg=F.Re('g'), Bo=Bo)
    else:
        Om = formula(S, 'W**0.2/(2.5 + 0.06*Bo)', W=F.We_h(), Bo=Bo)
    S.eq(S.call(T + 'Chen_Friedel', **kw), friedel(S, F, v) * F.dP('lo') * Om, 'published equation', crtol=1e-6)


@spec('P21')
def gronnerud(S):
    abstract(S, FF, positive=True)
    F, kw = stream(S, 'Gronnerud')
    v = F.v
    Fr = formula(S, 'G**2/(g*D*rhol**2)', G=F.G, **v_only(v, 'D rhol'))
    S.assume(abs(Fr - 1) > 1e-6)
    f = S.const('1') if Fr > 1 else formula(S, 'F**0.3 + 0.0055*log(1/F)**2', F=Fr)
    S.eq(S.call(T + 'Gronnerud', **kw), formula(S, '1 + f*(x + 4*(x**1.8 - x**10*sqrt(f)))*(rhol/rhog/(mul/mug)**0.25 - 1)', f=f, **v_only(v, 'x rhol rhog mul mug')) * F.dP('lo'), 'published equation', crtol=1e-6)


def apart(S, x, *pts):
    for p in pts:
        S.assume(abs(x / S.const(p) - 1) > 1e-9)


@spec('P21', params=['smooth', 'rough', 'Baroczy'])
def chisholm(S, case):
    abstract(S, FF, positive=True)
    F, kw = stream(S, 'Chisholm')
    v, G = F.v, F.G
    lo, go = F.dP('lo'), F.dP('go')
    Gam = S.m.sqrt(go / lo)
    apart(S, Gam, '9.5', '28')
    if case == 'Baroczy':
        B = '55/sqrt(G)' if Gam < S.const('9.5') else '520/(Gam*sqrt(G))' if Gam < 28 else '15000/(Gam**2*sqrt(G))'
        S.eq(S.call(T + 'Baroczy_Chisholm', **kw), chisholm_phi(S, v, go / lo, formula(S, B, G=G, Gam=Gam)) * lo, 'published equation', crtol=1e-6)
        return
    apart(S, G, '500', '600', '1900')
    if Gam < S.const('9.5'):
        B = '4.8' if G < 500 else '2400/G' if G < 1900 else '55/sqrt(G)'
    elif Gam < 28:
        B = '520/(sqrt(G)*Gam)' if G < 600 else '21/Gam'
    else:
        B = '15000/(Gam**2*sqrt(G))'
    B = formula(S, B, G=G, Gam=Gam)
    n = '0.25'
    if case == 'rough':
        n = S.m.log(F.fd('lo') / F.fd('go')) / S.m.log(F.Re('go') / F.Re('lo'))
        B = B * formula(S, '(0.5*(1 + (mug/mul)**2 + 10**(-600*e)))**((0.25 - n)/0.25)', n=n, e=F.eD, **v_only(v, 'mul mug'))
        kw['rough_correction'] = True
    S.eq(S.call(T + 'Chisholm', **kw), chisholm_phi(S, v, go / lo, B, n) * lo, 'published equation', crtol=1e-6)


@spec('P21')
def theissing(S):
    abstract(S, FF, positive=True)
    F, kw = stream(S, 'Theissing')
    v = F.v
    lo, go, l, g_ = F.dP('lo'), F.dP('go'), F.dP('l'), F.dP('g')
    S.eq(S.call(T + 'Theissing', **dict(kw, x=S.const('0'))), Flow(S, dict(v, x=S.const('0')), F.eD * v['D'], F.L).dP('lo'), 'all liquid')
    S.eq(S.call(T + 'Theissing', **dict(kw, x=S.const('1'))), Flow(S, dict(v, x=S.const('1')), F.eD * v['D'], F.L).dP('go'), 'all gas')
    q = (g_ / l) ** S.const('0.1')
    n = (S.m.log(l / lo) / S.m.log(1 - v['x']) + S.m.log(g_ / go) / S.m.log(v['x']) * q) / (1 + q)
    S.assume(n > 1e-3)
    S.assume(n < 1e3)
    eps = 3 - 2 * (2 * S.m.sqrt(v['rhol'] / v['rhog']) / (1 + v['rhol'] / v['rhog'])) ** (S.const('0.7') / n)
    if S.symbolic:
        S.assume(eps > 1e-3)
    want = (lo ** (1 / (n * eps)) * (1 - v['x']) ** (1 / eps) + go ** (1 / (n * eps)) * v['x'] ** (1 / eps)) ** (n * eps)
    S.eq(S.call(T + 'Theissing', **kw), want, 'published equation', crtol=1e-5)


@spec('P21')
def wang_chiang_lu(S):
    abstract(S, FF, positive=True)
    F, kw = stream(S, 'Wang_Chiang_Lu')
    v = F.v
    apart(S, F.G, '200')
    X = F.X()
    if F.G > 200:
        phi = formula(S, '1 + 9.397*X**0.62 + 0.564*X**2.45', X=X)
    else:
        phi = formula(S, '1 + 0.000004566*X**0.128*R**0.938*(rhol/rhog)**-2.15*(mul/mug)**5.1*X + X**2', X=X, R=F.Re('lo'), **v_only(v, 'rhol rhog mul mug'))
    S.eq(S.call(T + 'Wang_Chiang_Lu', **kw), phi * F.dP('g'), 'published equation', crtol=1e-6)


@spec('P21', params=['default', 'adiabatic vapor', 'adiabatic gas', 'flow boiling'])
def zhang_hibiki_mishima(S, flow):
    abstract(S, FF, positive=True)
    F, kw = stream(S, 'Zhang_Hibiki_Mishima')
    if flow != 'default':
        kw['flowtype'] = flow
    c = {'default': '0.142', 'adiabatic vapor': '0.142', 'adiabatic gas': '0.674', 'flow boiling': '0.358'}[flow]
    S.eq(S.call(T + 'Zhang_Hibiki_Mishima', **kw), formula(S, '1 + 21*(1 - exp(-%s/Co))/X + 1/X**2' % c, Co=F.Co(), X=F.X()) * F.dP('l'), 'published equation', crtol=1e-6)
    rejected(S, S.attempt(T + 'Zhang_Hibiki_Mishima', **dict(kw, flowtype='other')), 'unknown flow type')


@spec('P21', params=['laminar', 'Blasius', 'turbulent'])
def km_friction(S, r):
    Re = S.real('Re', *{'laminar': (1e-2, 1999.9999), 'Blasius': (2000.0001, 19999.999), 'turbulent': (20000.001, 1e9)}[r])
    S.eq(S.call(T + 'friction_factor_Kim_Mudawar', Re), formula(S, {'laminar': '64/Re', 'Blasius': '0.316/Re**0.25', 'turbulent': '0.184/Re**0.2'}[r], Re=Re), 'published friction factor')


@spec('P21')
def kim_mudawar(S):
    fq = T + 'friction_factor_Kim_Mudawar'
    abstract(S, fq, positive=True)
    F, kw = stream(S, 'Kim_Mudawar', lambda Re: S.call(fq, Re=Re))
    v = F.v
    Rl, Rg = F.Re('l'), F.Re('g')
    apart(S, Rl, '2000')
    apart(S, Rg, '2000')
    Su = v['rhog'] * v['sigma'] * v['D'] / v['mug'] ** 2
    if Rl < 2000:
        C = '3.5e-5*R**0.44*Su**0.5*d**0.48' if Rg < 2000 else '0.0015*R**0.59*Su**0.19*d**0.36'
    else:
        C = '8.7e-4*R**0.17*Su**0.5*d**0.14' if Rg < 2000 else '0.39*R**0.03*Su**0.1*d**0.35'
    C = formula(S, C, R=F.Re('lo'), Su=Su, d=v['rhol'] / v['rhog'])
    S.eq(S.call(T + 'Kim_Mudawar', **kw), (1 + C / F.X() + F.dP('g') / F.dP('l')) * F.dP('l'), 'published equation', crtol=1e-6)


@spec('P21', params=[False, True])
def lockhart_martinelli(S, own):
    Rc = S.real('Re_c', 500, 5000) if own else S.const('2000')
    F, kw = stream(S, 'Lockhart_Martinelli', lambda Re: 64 / Re if Re < Rc else formula(S, '0.184*Re**-0.2', Re=Re))
    if own:
        kw['Re_c'] = Rc
    Rl, Rg = F.Re('l'), F.Re('g')
    S.assume(abs(Rl / Rc - 1) > 1e-9)
    S.assume(abs(Rg / Rc - 1) > 1e-9)
    C = (5 if Rg < Rc else 12) if Rl < Rc else (10 if Rg < Rc else 20)
    l, g_ = F.dP('l'), F.dP('g')
    S.eq(S.call(T + 'Lockhart_Martinelli', **kw), l + C * S.m.sqrt(l * g_) + g_, 'published equation', crtol=1e-6)


@spec('P21', params=['gas', 'liquid'])
def lm_limits(S, phase):
    """pure phases give the single phase pressure drop"""
    v = inputs(S, BASE)
    v['x'] = S.const('1.0') if phase == 'gas' else S.const('1e-40')
    F = Flow(S, v, S.const('0'), 1, lambda Re: 64 / Re if Re < 2000 else formula(S, '0.184*Re**-0.2', Re=Re))
    S.assume(abs(F.Re('g' if phase == 'gas' else 'l') / 2000 - 1) > 1e-9)
    S.eq(S.call(T + 'Lockhart_Martinelli', **v), F.dP(phase[0]), 'single phase', crtol=1e-6)


# ---------------------------------------------------------------- acceleration and gravity
@spec('P21')
def acceleration(S):
    m, D, xi, xo = S.real('m', 1e-3, 100), S.real('D', 1e-3, 1), S.real('xi', 0, 1), S.real('xo', 0, 1)
    ai, ao = S.real('alpha_i', 1e-3, .999), S.real('alpha_o', 1e-3, .999)
    rli, rgi = S.real('rho_li', 100, 2000), S.real('rho_gi', .1, 99)
    rlo, rgo = rli, rgi
    kw = {}
    if S.flag('outlet liquid density'):
        kw['rho_lo'] = rlo = S.real('rho_lo', 100, 2000)
    if S.flag('outlet gas density'):
        kw['rho_go'] = rgo = S.real('rho_go', .1, 99)
    e = '(4*m/(pi*D**2))**2*(((1 - xo)**2/(rlo*(1 - ao)) + xo**2/(rgo*ao)) - ((1 - xi)**2/(rli*(1 - ai)) + xi**2/(rgi*ai)))'
    S.eq(S.call(T + 'two_phase_dP_acceleration', m, D, xi, xo, ai, ao, rli, rgi, **kw), formula(S, e, m=m, D=D, xi=xi, xo=xo, ai=ai, ao=ao, rli=rli, rgi=rgi, rlo=rlo, rgo=rgo), 'momentum change', crtol=1e-6 if S.symbolic else 1e-5)


@spec('P21')
def acceleration_gradient(S):
    v = dict(m=S.real('m', 1e-3, 100), D=S.real('D', 1e-3, 1), x=S.real('x', 1e-3, .999), rhol=S.real('rhol', 100, 2000), rhog=S.real('rhog', .1, 99), dv_dP_l=S.real('dv_dP_l', -1e-9, 0),
             dv_dP_g=S.real('dv_dP_g', -1e-5, -1e-9), dx_dP=S.real('dx_dP', -1e-5, 1e-5), dP_dL=S.real('dP_dL', -1e6, -1e2), dA_dL=S.real('dA_dL', -1, 1))
    e = '-(m/(pi/4*D**2))**2*((1/rhog - 1/rhol)*dP_dL*dx_dP + dP_dL*(x*dv_dP_g + (1 - x)*dv_dP_l) - dA_dL*(x/rhog + (1 - x)/rhol)/(pi/4*D**2))'
    S.eq(S.call(T + 'two_phase_dP_dz_acceleration', **v), formula(S, e, **v), 'momentum gradient', crtol=1e-4)


@spec('P21')
def gravity(S):
    an, z, ai, rl, rg = S.real('angle', -90, 90), S.real('z', -1e3, 1e3), S.real('alpha_i', 0, 1), S.real('rho_li', 100, 2000), S.real('rho_gi', .1, 99)
    kw, o = {}, dict(alpha_o=ai, rho_lo=rl, rho_go=rg)
    for k, lo, hi in (('alpha_o', 0, 1), ('rho_lo', 100, 2000), ('rho_go', .1, 99)):
        if S.flag(k + ' given'):
            kw[k] = o[k] = S.real(k, lo, hi)
    gg = S.const('9.80665')
    if S.flag('local gravity'):
        kw['g'] = gg = S.real('g', 1, 30)
    rho = (ai * rg + (1 - ai) * rl + o['alpha_o'] * o['rho_go'] + (1 - o['alpha_o']) * o['rho_lo']) / 2
    S.eq(S.call(T + 'two_phase_dP_gravitational', an, z, ai, rl, rg, **kw), gg * S.m.sin(an * S.pi / 180) * z * rho, 'weight of the mean mixture', crtol=1e-7)
    gk = {k: kw[k] for k in kw if k == 'g'}
    S.eq(S.call(T + 'two_phase_dP_dz_gravitational', an, ai, rl, rg, **gk), gg * S.m.sin(an * S.pi / 180) * (ai * rg + (1 - ai) * rl), 'weight per length', crtol=1e-7)


# ---------------------------------------------------------------- Beggs-Brill
BB = {0: ('0.98', '0.4846', '0.0868'), 2: ('0.845', '0.5351', '0.0173'), 3: ('1.065', '0.5824', '0.0609')}
UP = {0: ('0.011', '-3.768', '3.539', '-1.614'), 2: ('2.96', '0.305', '-0.4473', '0.0978'), 3: None}
DOWN = ('4.7', '-0.3692', '0.1244', '-0.5056')


@spec('P21', params=[0, 2, 3])
def holdup(S, regime):
    lam, Fr, LV = S.real('input liquid fraction', 1e-3, .999), S.real('Fr', 1e-4, 1e4), S.real('LV', 1e-3, 1e3)
    way = S.pick('direction', ['up', 'level', 'down'])
    th = {'up': lambda: S.real('angle', 1e-3, 1.5707), 'level': lambda: S.const('0'), 'down': lambda: S.real('angle', -1.5707, -1e-3)}[way]()
    H0 = formula(S, 'a*l**b/F**c', l=lam, F=Fr, **dict(zip('abc', map(S.const, BB[regime]))))
    S.assume(abs(H0 / lam - 1) > 1e-9)
    if H0 < lam:
        H0 = lam
    co = UP[regime] if way == 'up' else DOWN
    psi = 1
    if way != 'level' and co is not None:
        C = formula(S, '(1 - l)*log(d*l**e*V**f*F**h)', l=lam, V=LV, F=Fr, **dict(zip('defh', map(S.const, co))))
        S.assume(abs(C) > 1e-9)
        if C > 0:
            psi = formula(S, '1 + C*(sin(1.8*t) - sin(1.8*t)**3/3)', C=C, t=th)
    S.eq(S.call(T + '_Beggs_Brill_holdup', regime, lam, Fr, th, LV), H0 * psi, 'published holdup', crtol=1e-6)


class Stop(Exception):
    pass


def bb_inputs(S):
    """inputs generated by the mixture velocity and the input liquid fraction"""
    lam, Vm = S.real('input liquid fraction', 1e-3, .999), S.real('mixture velocity', 1e-2, 100)
    v = {k: S.real(k, *b) for k, b in dict(rhol=(100, 2000), rhog=(.1, 99), D=(1e-2, 2), mul=(1e-5, 1), mug=(1e-6, 1e-4), sigma=(1e-4, .1), P=(1e4, 1e7), g=(1, 30)).items()}
    A = S.pi / 4 * v['D'] ** 2
    Vsl, Vsg = lam * Vm, (1 - lam) * Vm
    v['m'] = A * (v['rhol'] * Vsl + v['rhog'] * Vsg)
    v['x'] = A * v['rhog'] * Vsg / v['m']
    return lam, Vm, Vsl, Vsg, v


def bb_regime(S, lam, Fr):
    """published flow map: 0 segregated, 1 transition, 2 intermittent, 3 distributed"""
    L = lambda t: formula(S, t, l=lam)
    L1, L2, L3, L4 = map(L, ('316*l**0.302', '0.0009252*l**-2.4684', '0.1*l**-1.4516', '0.5*l**-6.738'))

    def below(a, b):
        S.assume(abs(a / b - 1) > 1e-9)
        return a < b
    if below(lam, S.const('0.01')):
        return (0 if below(Fr, L1) else 3), L2, L3
    if below(Fr, L2):
        return 0, L2, L3
    if below(Fr, L3):
        return 1, L2, L3
    return (2 if below(Fr, L1 if below(lam, S.const('0.4')) else L4) else 3), L2, L3


@spec('P21', params=['level', 'any'])
def beggs_brill_regime(S, angle):
    """the regime of every flow and what is handed to the holdup and to the friction factor"""
    lam, Vm, Vsl, Vsg, v = bb_inputs(S)
    Fr = Vm ** 2 / (v['g'] * v['D'])
    reg, L2, L3 = bb_regime(S, lam, Fr)
    got, fr = [], []

    def hold(orig, r, l, F, th, LV):
        got.append((r, l, F, th, LV))
        return S.const('0.5')

    def friction(orig, **kw):
        fr.append(kw)
        raise Stop()
    if not S.symbolic:
        return
    S.stub(T + '_Beggs_Brill_holdup', hold)
    S.stub(FF, friction)
    an = S.real('angle', -89, 89) if angle == 'any' else S.const('0')
    rough = v['D'] * S.real('relative roughness', 1e-6, .04)
    o = S.attempt(T + 'Beggs_Brill', angle=an, roughness=rough, **v)
    S.check(not o.ok and isinstance(o.exc, Stop) and len(fr) == 1, 'a regime is found and one friction factor evaluated')
    S.check([g[0] for g in got] == ([0, 2] if reg == 1 else [reg]), 'regime')
    for g in got:
        S.eq(g[1], lam, 'input liquid fraction')
        S.eq(g[2], Fr, 'Froude number')
        S.eq(g[3], an * S.pi / 180, 'angle') if angle == 'any' else S.check(g[3] == 0, 'angle')
        S.eq(g[4], Vsl * S.m.sqrt(S.m.sqrt(v['rhol'] / (v['g'] * v['sigma']))), 'liquid velocity number')
    if fr:
        S.eq(fr[0]['Re'], (v['rhol'] * lam + v['rhog'] * (1 - lam)) * v['D'] * Vm / (v['mul'] * lam + v['mug'] * (1 - lam)), 'no-slip Reynolds number')
        S.eq(fr[0]['eD'], rough / v['D'], 'relative roughness')


def bb_published(S, v, L, th, H, f, acceleration, y=None):
    """pressure drop from the holdup and the friction factor"""
    A = S.pi / 4 * v['D'] ** 2
    Vsg, Vsl = v['x'] * v['m'] / v['rhog'] / A, (1 - v['x']) * v['m'] / v['rhol'] / A
    Vm = Vsg + Vsl
    lam = Vsl / Vm
    y = lam / (H * H) if y is None else y
    rs = v['rhol'] * H + v['rhog'] * (1 - H)
    rm = v['rhol'] * lam + v['rhog'] * (1 - lam)
    apart(S, y, '1', '1.2')
    if 1 < y and y < S.const('1.2'):
        s = S.m.log(S.const('2.2') * y - S.const('1.2'))
    else:
        ly = S.m.log(y)
        d = formula(S, '-0.0523 + 3.182*y - 0.8725*y**2 + 0.01853*y**4', y=ly)
        S.assume(abs(d) > 1e-4)
        s = ly / d
    S.assume(abs(s - 7) > 1e-6)
    if s > 7:
        s = S.const('7')
    dP = v['g'] * S.m.sin(th * S.pi / 180) * rs * L + f * S.m.exp(s) * L / v['D'] * rm * Vm ** 2 / 2
    if acceleration:
        Ek = Vsg * Vm * rs / v['P']
        S.assume(abs(Ek - 1) > 1e-3)
        dP = dP / (1 - Ek)
    return dP, rs


@spec('P21', params=['friction', 'acceleration'], max_paths=600)
def beggs_brill(S, mode):
    L, th = S.real('L', .1, 1e3), S.real('angle', -89, 89)
    if not S.symbolic:
        lam, Vm, Vsl, Vsg, v = bb_inputs(S)
        Fr = Vm ** 2 / (v['g'] * v['D'])
        reg, L2, L3 = bb_regime(S, lam, Fr)
        LV = Vsl * (v['rhol'] / (v['g'] * v['sigma'])) ** .25
        h = lambda r: S.call(T + '_Beggs_Brill_holdup', r, lam, Fr, th * S.pi / 180, LV)
        a = (L3 - Fr) / (L3 - L2)
        H = a * h(0) + (1 - a) * h(2) if reg == 1 else h(reg)
        Re = (v['rhol'] * lam + v['rhog'] * (1 - lam)) * v['D'] * Vm / (v['mul'] * lam + v['mug'] * (1 - lam))
        S.assume(H > 0.01)
        dP, rs = bb_published(S, v, L, th, H, S.call(FF, Re=Re, eD=0.0), mode == 'acceleration')
        r = S.call(T + 'Beggs_Brill', angle=th, L=L, acceleration=mode == 'acceleration', **v)
        S.check(abs(r - dP) <= 1e-5 * (abs(dP) + v['g'] * abs(rs) * L), 'published pressure drop')
        return
    v = {k: S.real(k, *b) for k, b in dict(m=(1e-3, 100), x=(1e-3, .999), rhol=(100, 2000), rhog=(.1, 99), D=(1e-2, 2), mul=(1e-5, 1), mug=(1e-6, 1e-4), sigma=(1e-4, .1), P=(1e4, 1e7), g=(1, 30)).items()}
    f, H, ly = S.real('f', 1e-3, 1), S.real('holdup', 1e-2, 1.5), S.real('log', -10, 10)
    regimes, logs = [], []

    def hold(orig, r, l, *a):
        if regimes:
            raise Stop()
        regimes.append(r)
        return H

    def log(x):
        logs.append(x)
        return ly
    S.stub(T + '_Beggs_Brill_holdup', hold)
    S.stub(FF, lambda orig, **kw: f)
    S.mod('two_phase').log = log
    d = formula(S, '-0.0523 + 3.182*y - 0.8725*y**2 + 0.01853*y**4', y=ly)
    S.assume(abs(d) > 1e-4)
    A = S.pi / 4 * v['D'] ** 2
    Vsg, Vsl = v['x'] * v['m'] / v['rhog'] / A, (1 - v['x']) * v['m'] / v['rhol'] / A
    Vm = Vsg + Vsl
    lam = Vsl / Vm
    rs = v['rhol'] * H + v['rhog'] * (1 - H)
    rm = v['rhol'] * lam + v['rhog'] * (1 - lam)
    Ek = Vsg * Vm * rs / v['P']
    S.assume(abs(formula(S, '0.1*l**-1.4516', l=lam) - formula(S, '0.0009252*l**-2.4684', l=lam)) > 1e-9)
    if mode == 'acceleration':
        S.assume(abs(Ek - 1) > 1e-3)
    o = S.attempt(T + 'Beggs_Brill', angle=th, L=L, acceleration=mode == 'acceleration', **v)
    if not regimes or isinstance(o.exc, Stop):
        return      # the regime is the subject of beggs_brill_regime, the transition of beggs_brill_transition
    S.check(o.ok and len(logs) == 1, 'a pressure drop')
    if not o.ok or len(logs) != 1:
        return
    y = lam / (H * H)
    if 1 < y and y < S.const('1.2'):
        S.eq(logs[0], S.const('2.2') * y - S.const('1.2'), 'argument of the slip exponent')
        s = ly
    else:
        S.eq(logs[0], y, 'argument of the slip exponent')
        s = ly / d
    if s > 7:
        s = S.const('7')
    dP = v['g'] * S.m.sin(th * S.pi / 180) * rs * L + f * S.m.exp(s) * L / v['D'] * rm * Vm ** 2 / 2
    S.eq(o.value, dP / (1 - Ek) if mode == 'acceleration' else dP, 'published pressure drop')


@spec('P21')
def beggs_brill_transition(S):
    """holdup of the transition regime: between segregated and intermittent, by the distance to the limits"""
    if not S.symbolic:
        return
    v = {k: S.real(k, *b) for k, b in dict(m=(1e-3, 100), x=(1e-3, .999), rhol=(100, 2000), rhog=(.1, 99), D=(1e-2, 2), mul=(1e-5, 1), mug=(1e-6, 1e-4), sigma=(1e-4, .1), P=(1e4, 1e7), g=(1, 30)).items()}
    hs = {0: S.real('H0', 1e-2, 1.5), 2: S.real('H2', 1e-2, 1.5)}
    A = S.pi / 4 * v['D'] ** 2
    Vsg, Vsl = v['x'] * v['m'] / v['rhog'] / A, (1 - v['x']) * v['m'] / v['rhol'] / A
    Vm = Vsg + Vsl
    lam = Vsl / Vm
    Fr = Vm * Vm / (v['g'] * v['D'])
    L2, L3 = formula(S, '0.0009252*l**-2.4684', l=lam), formula(S, '0.1*l**-1.4516', l=lam)
    S.assume(lam > S.const('0.01'))
    S.assume(L2 < Fr)
    S.assume(Fr < L3)
    S.assume(L3 - L2 > 0)
    a = (L3 - Fr) / (L3 - L2)
    H = a * hs[0] + (1 - a) * hs[2]
    S.assume(H * H > 1e-6)
    S.stub(T + '_Beggs_Brill_holdup', lambda orig, r, *a: hs[r])
    S.stub(FF, lambda orig, **kw: S.const('0.1'))
    got = []

    def log(x):
        got.append(x)
        raise Stop()
    S.mod('two_phase').log = log
    o = S.attempt(T + 'Beggs_Brill', angle=S.const('5'), **v)
    y = lam / (H * H)
    S.check(len(got) == 1, 'holdup used')
    if got:
        if 1 < y and y < S.const('1.2'):
            y = S.const('2.2') * y - S.const('1.2')
        S.eq(got[0], y, 'interpolated holdup')


# ---------------------------------------------------------------- flow regimes
@spec('P21')
def taitel_dukler(S):
    abstract(S, FF, positive=True)
    if S.symbolic:
        abstract(S, 'fluids.numerics.splev', lo=-4, hi=4)
    v = inputs(S, BASE)
    kw = {}
    gg = S.const('9.80665')
    rough = S.const('0.0')
    if S.flag('local gravity'):
        kw['g'] = gg = S.real('g', 1, 30)
    if S.flag('roughness given'):
        kw['roughness'] = rough = v['D'] * S.real('relative roughness', 1e-6, .04)
    an = S.real('angle', -80, 80)
    F = Flow(S, v, rough, 1)
    cg = gg * S.m.cos(an * S.pi / 180)
    r = S.call(T + 'Taitel_Dukler_regime', angle=an, **v, **kw)
    dr = v['rhol'] - v['rhog']
    S.eq(r[1], F.X(), 'X', crtol=1e-7)
    S.eq(r[2], S.m.sqrt(F.dP('l') / (dr * cg)), 'T', crtol=1e-7)
    S.eq(r[3], S.m.sqrt(v['rhog'] / dr) * F.V('g') / S.m.sqrt(v['D'] * cg), 'F', crtol=1e-7)
    S.eq(r[4], S.m.sqrt(v['rhog'] / (dr * v['D'] * cg)) * F.V('g') * S.m.sqrt(F.Re('l')), 'K', crtol=1e-7)
    tp = S.mod('two_phase')
    lines = {}
    for k in 'ACD':
        lines[k] = lambda k=k: S.const('10') ** S.call('fluids.numerics.splev', S.m.log10(r[1]), getattr(tp, 'Dukler_X%s_tck' % k))
    if r[3] >= lines['A']():
        want = 'annular' if r[1] <= S.const('1.7917') else 'bubbly' if r[2] >= lines['D']() else 'intermittent'
    else:
        want = 'stratified wavy' if r[4] >= lines['C']() else 'stratified smooth'
    S.check(r[0] == want, 'regime')


A1 = [(.1, '14*(v/0.1)**-0.368'), (.2, '14*(v/0.1)**-0.415'), (1.15, '10.5*(v/0.2)**-0.816'), (4.8, '2.5'), (1e99, '2.5*(v/4.8)**0.248')]
A2 = [(.1, '70*(v/0.01)**-0.0675'), (.3, '60*(v/0.1)**-0.415'), (.56, '38*(v/0.3)**0.0813'), (1.0, '40*(v/0.56)**0.385'), (2.5, '50*v**0.756'), (1e99, '100*(v/2.5)**0.463')]


@spec('P21', max_paths=800)
def mandhane(S):
    v = dict(rhol=S.real('rhol', 500, 1500), rhog=S.real('rhog', .5, 100), mul=S.real('mul', 1e-4, 1e-2), mug=S.real('mug', 1e-6, 1e-4), sigma=S.real('sigma', 1e-2, .1), D=S.real('D', 1e-2, 1))
    A = S.pi / 4 * v['D'] ** 2
    l, g_ = S.real('liquid ft/s', 1e-2, 30), S.real('gas ft/s', 1e-2, 500)
    ml, mg = l * S.const('0.3048') * A * v['rhol'], g_ * S.const('0.3048') * A * v['rhog']
    regime, Vl, Vg = S.call(T + 'Mandhane_Gregory_Aziz_regime', m=ml + mg, x=mg / (ml + mg), **v)
    S.eq(Vl, l, 'superficial liquid velocity', crtol=1e-7)
    S.eq(Vg, g_, 'superficial gas velocity', crtol=1e-7)
    X = formula(S, '(rhog/1.294292)**0.333*(rhol*0.0724/(999.552*sigma))**0.25*(mug*180000)**0.2', **v_only(v, 'rhol rhog mug sigma'))
    Y = formula(S, '(rhol*0.0724/(999.552*sigma))**0.25*(mul*1000)**0.2', **v_only(v, 'rhol mul sigma'))
    near = []

    def below(a, b):
        """on either side of a transition line, not on it"""
        S.assume(abs(a / b - 1) > 1e-9)
        return a < b
    if not below(l, 14 * Y):
        want = 'dispersed bubble' if below(g_, formula(S, '230*(v/14)**0.206*X', v=l, X=X)) else 'annular mist'
    else:
        f1 = next(f for x, f in A1 if x > 1e9 or below(l, S.const(repr(x))))
        f2 = next(f for x, f in A2 if x > 1e9 or below(l, S.const(repr(x))))
        if below(g_, formula(S, f1, v=l) * X):
            want = 'stratified' if below(l, S.const('0.5') / Y) else 'elongated bubble'
        elif below(g_, formula(S, f2, v=l) * X):
            want = 'wave' if below(l, S.const('0.3') * Y) else 'slug'
        else:
            want = 'annular mist'
    S.check(regime == want, 'regime of the map')


# ---------------------------------------------------------------- dispatch
NAMES = {n: (n, {}) for n in NEEDS}
NAMES.update({'Chisholm rough': ('Chisholm', dict(rough_correction=True)), 'Zhang_Hibiki_Mishima adiabatic gas': ('Zhang_Hibiki_Mishima', dict(flowtype='adiabatic gas')),
              'Zhang_Hibiki_Mishima flow boiling': ('Zhang_Hibiki_Mishima', dict(flowtype='flow boiling')), 'Beggs-Brill': ('Beggs_Brill', dict(acceleration=False))})
FNS = sorted({f for f, _ in NAMES.values()})
OPT = ['rhog', 'mul', 'mug', 'sigma', 'P', 'Pc', 'angle']


def need(name):
    f = NAMES[name][0]
    s = (NEEDS[f] if f in NEEDS else SURF + ' P angle').split()
    return [k for k in s if k in OPT]


def everything(S):
    v = inputs(S, 'm x rhol rhog mul mug sigma D P Pc')
    v['angle'] = S.real('angle', -80, 80)
    v['roughness'] = v['D'] * S.real('relative roughness', 1e-6, .04)
    v['L'] = S.real('L', .1, 1e4)
    return v


def direct(S, name, v):
    f, extra = NAMES[name]
    ks = ['m', 'x', 'rhol', 'D', 'L'] + need(name) + ([] if f in NO_ROUGH else ['roughness'])
    return S.call(T + f, **{k: v[k] for k in ks if k in v}, **extra)


@spec('P21', params=sorted(NAMES))
def by_name(S, name):
    if S.symbolic:
        for f in FNS:
            abstract(S, T + f)
    v = everything(S)
    S.eq(S.call(T + 'two_phase_dP', Method=name, **v), direct(S, name, v), 'the named correlation')
    few = {k: v[k] for k in ['m', 'x', 'rhol', 'D'] + need(name)}
    S.eq(S.call(T + 'two_phase_dP', Method=name, **few), direct(S, name, few), 'with only what it needs, smooth and of unit length')
    for k in need(name):
        rejected(S, S.attempt(T + 'two_phase_dP', Method=name, **{a: b for a, b in v.items() if a != k}), 'without ' + k, TypeError)


@spec('P21')
def default_method(S):
    if S.symbolic:
        for f in FNS:
            abstract(S, T + f)
    v = everything(S)
    for drop, want in (('', 'Kim_Mudawar'), ('P', 'Kim_Mudawar'), ('sigma', 'Chisholm'), ('sigma Pc angle', 'Chisholm'), ('rhog', 'Zhang_Webb'), ('mug sigma', 'Zhang_Webb'), ('mug', 'Zhang_Webb'), ('mug P', 'Lombardi_Pedrocchi'),
                       ('mul', 'Lombardi_Pedrocchi'), ('mul mug P Pc', 'Lombardi_Pedrocchi')):
        w = {k: x for k, x in v.items() if k not in drop.split()}
        S.eq(S.call(T + 'two_phase_dP', **w), direct(S, want, v), 'default without (%s)' % drop)
    for drop in ('rhog P', 'rhog mul', 'sigma mul', 'sigma mug Pc'):
        rejected(S, S.attempt(T + 'two_phase_dP', **{k: x for k, x in v.items() if k not in drop.split()}), 'too little information')
    rejected(S, S.attempt(T + 'two_phase_dP', Method='BADMETHOD', **v), 'unknown name')


@static('P21')
def methods_offered(tier, seed):
    t = instr.real('two_phase')
    bad, n = [], 0
    for mask in range(1 << len(OPT)):
        kw = {a: (1.0 if mask >> i & 1 else None) for i, a in enumerate(OPT)}
        want = {k for k in NAMES if all(kw[a] is not None for a in need(k))}
        got = t.two_phase_dP_methods(1., .5, 900., .1, **kw)
        n += 1
        if set(got) != want or len(got) != len(want):
            bad.append((sorted(k for k in kw if kw[k]), sorted(set(got) ^ want)))
    out = {'obligations': n, 'discharged': n - len(bad), 'backends': {'exhaustive evaluation over the finite domain': n - len(bad)}}
    if bad:
        out['errors'] = ['methods offered differ: %r' % (bad[:5],)]
        out['witness'] = {'values': {'optional data given': bad[0][0], 'wrongly offered or missing': bad[0][1]}}
    return out


# ---------------------------------------------------------------- sanity
@spec('P21', params=['Muller_Steinhagen_Heck', 'Lombardi_Pedrocchi', 'Jung_Radermacher', 'Zhang_Webb', 'Yu_France', 'Hwang_Kim', 'Mishima_Hibiki', 'Lockhart_Martinelli', 'Zhang_Hibiki_Mishima', 'Friedel', 'Kim_Mudawar', 'Wang_Chiang_Lu'])
def positive(S, n):
    abstract(S, FF, positive=True)
    if n == 'Kim_Mudawar':
        abstract(S, T + 'friction_factor_Kim_Mudawar', positive=True)
    v = inputs(S, NEEDS[n])
    if n == 'Muller_Steinhagen_Heck':
        S.assume(v['x'] < .5)
    S.gt(S.call(T + n, **v), 0, 'positive')
