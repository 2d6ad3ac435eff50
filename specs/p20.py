"""Void fraction and two-phase viscosity (fluids/two_phase_voidage.py)."""
from pyvc.run import spec, static
from pyvc import instr
from specs.common import abstract, rejected, formula
V = 'fluids.two_phase_voidage.'
AH = '(1/(1 + (1 - x)/x*(rhog/rhol)))'
XTT = '(((1 - x)/x)**0.9*(rhog/rhol)**0.5*(mul/mug)**0.1)'
G = '(m/(pi/4*D**2))'
FT = 'sqrt(%s**2*x**3/((1 - x)*rhog**2*g*D))' % G
DRIFT = 'x/rhog/(C0*(x/rhog + (1 - x)/rhol) + vgm/%s)' % G
VGS, VLS = '(m*x/(rhog*pi/4*D**2))', '(m*(1 - x)/(rhol*pi/4*D**2))'
SIG = '1.18*(1 - x)/sqrt(rhol)*(g*sigma*(rhol - rhog))**0.25'
DIX = '(g*sigma*(rhol - rhog)/rhol**2)**0.25'


def own_gravity(e):
    import re
    return re.sub(r'\bg\b', 'grav', e)


def drift(C0, vgm):
    return DRIFT.replace('C0', '(%s)' % C0).replace('vgm', '(%s)' % vgm)


FORMULAS = {
    'Thom': '1/(1 + (1 - x)/x*(rhog/rhol)**0.89*(mul/mug)**0.18)',
    'Zivi': '1/(1 + (1 - x)/x*(rhog/rhol)**(2/3))',
    'Smith': '1/(1 + (1 - x)/x*(rhog/rhol)*(0.4 + 0.6*sqrt((rhol/rhog + 0.4*((1 - x)/x))/(1 + 0.4*((1 - x)/x)))))',
    'Fauske': '1/(1 + (1 - x)/x*(rhog/rhol)**0.5)',
    'Chisholm_voidage': '1/(1 + (1 - x)/x*(rhog/rhol)*sqrt(1 - x*(1 - rhol/rhog)))',
    'Turner_Wallis': '1/(1 + ((1 - x)/x)**0.72*(rhog/rhol)**0.4*(mul/mug)**0.08)',
    'homogeneous': AH,
    'Chisholm_Armand': AH + '/(' + AH + ' + sqrt(1 - ' + AH + '))',
    'Armand': '0.833*' + AH,
    'Nishino_Yamazaki': '1 - sqrt((1 - x)/x*rhog/rhol)*sqrt(' + AH + ')',
    'Guzhov': '0.81*(1 - exp(-2.2*sqrt(%s**2/(g*D)*((1 - x)/rhol + x/rhog)**2)))*%s' % (G, AH),
    'Baroczy': '1/(1 + ((1 - x)/x)**0.74*(rhog/rhol)**0.65*(mul/mug)**0.13)',
    'Harms': '(1 - 10.06*Rel**-0.875*(1.74 + 0.104*sqrt(Rel))**2/sqrt(1.376 + 7.242*X**-1.655))**2'.replace('Rel', '(%s*(1 - x)*D/mul)' % G).replace('X', XTT),
    'Yashar': '(1 + 1/%s + %s)**-0.321' % (FT, XTT),
    'Huq_Loth': '1 - 2*(1 - x)**2/(1 - 2*x + sqrt(1 + 4*x*(1 - x)*(rhol/rhog - 1)))',
    'Steiner': drift('1 + 0.12*(1 - x)', SIG),
    'Rouhani_1': drift('1 + 0.2*(1 - x)', SIG),
    'Rouhani_2': drift('1 + 0.2*(1 - x)*(g*D)**0.25*sqrt(rhol/%s)' % G, SIG),
    'Nicklin_Wilkes_Davidson': drift('1.2', '0.35*sqrt(g*D)'),
    'Gregory_Scott': drift('1.19', '0').replace(' + (0)/' + G, ''),
    'Dix': drift('%s/(%s + %s)*(1 + (%s/%s)**((rhog/rhol)**0.1))' % (VGS, VLS, VGS, VLS, VGS), '2.9*' + DIX),
    'Sun_Duffey_Peng': drift('1/(0.82 + 0.18*P/Pc)', '1.41*' + DIX),
    'Xu_Fang_voidage': '1/(1 + (1 + 2*(%s**2/(g*D*rhol**2))**-0.2*%s**3.5)*((1 - x)/x)*(rhog/rhol))' % (G, AH),
}
ARGS = {'x': (1e-4, .9999), 'rhol': (100, 2000), 'm': (1e-4, 1e3), 'D': (1e-3, 3), 'mul': (1e-5, 1), 'sigma': (1e-4, .1), 'P': (1e4, 1e7)}
NEEDS = {'Thom': 'mul mug', 'Turner_Wallis': 'mul mug', 'Guzhov': 'm D', 'Kawahara': 'D', 'Baroczy': 'mul mug', 'Tandon_Varma_Gupta': 'mul mug m D', 'Harms': 'mul mug m D', 'Domanski_Didion': 'mul mug',
         'Graham': 'mul mug m D', 'Yashar': 'mul mug m D', 'Kopte_Newell_Chato': 'm D', 'Steiner': 'sigma m D', 'Rouhani_1': 'sigma m D', 'Rouhani_2': 'sigma m D',
         'Nicklin_Wilkes_Davidson': 'm D', 'Dix': 'sigma m D', 'Sun_Duffey_Peng': 'sigma m D P Pc', 'Xu_Fang_voidage': 'm D', 'Woldesemayat_Ghajar': 'sigma m D P angle'}
OWN_G = ('Graham', 'Yashar', 'Kopte_Newell_Chato', 'Steiner', 'Rouhani_1', 'Rouhani_2', 'Nicklin_Wilkes_Davidson', 'Dix', 'Sun_Duffey_Peng', 'Xu_Fang_voidage', 'Woldesemayat_Ghajar')
ALL = sorted(set(FORMULAS) | set(NEEDS))


def inputs(S, n, **fix):
    v = {}
    for k in ['x', 'rhol', 'rhog'] + NEEDS.get(n, '').split():
        if k in fix:
            v[k] = fix[k]
        elif k == 'rhog':
            v[k] = v['rhol'] * S.real('density ratio', 1e-4, .9)
        elif k == 'mug':
            v[k] = v['mul'] * S.real('viscosity ratio', 1e-3, 2)
        elif k == 'Pc':
            v[k] = v['P'] / S.real('reduced pressure', 1e-3, .99)
        elif k == 'angle':
            v[k] = S.real('angle', -89, 89)
        else:
            v[k] = S.real(k, *ARGS[k])
    return v


@spec('P20', params=sorted(FORMULAS))
def correlation(S, n):
    v = inputs(S, n)
    S.eq(S.call(V + n, **v), formula(S, FORMULAS[n], **v), 'published equation', crtol=1e-6)
    if n in OWN_G:
        g = S.real('local gravity', 1, 30)
        S.eq(S.call(V + n, g=g, **v), formula(S, own_gravity(FORMULAS[n]), grav=g, **v), 'with local gravity', crtol=1e-6)


@spec('P20', params=['large', 'medium', 'small'])
def kawahara(S, size):
    lo, hi = {'large': (2.5001e-4, 1), 'medium': (7.5001e-5, 2.49999e-4), 'small': (1e-6, 7.4999e-5)}[size]
    v = inputs(S, 'Kawahara', D=S.real('D', lo, hi))
    a = S.call(V + 'Kawahara', **v)
    ah = '0.833*h' if size == 'large' else '0.03*sqrt(h)/(1 - 0.97*sqrt(h))' if size == 'medium' else '0.02*sqrt(h)/(1 - 0.98*sqrt(h))'
    S.eq(a, formula(S, ah.replace('h', AH), **{k: v[k] for k in ('x', 'rhol', 'rhog')}), 'published equation')


@spec('P20')
def tandon_varma_gupta(S):
    v = inputs(S, 'Tandon_Varma_Gupta')
    Re = formula(S, G + '*D/mul', **{k: v[k] for k in ('m', 'D', 'mul')})
    S.assume(abs(Re - 1125) > 1e-3)
    F = formula(S, '0.15*(1/X + 2.85*X**-0.476)'.replace('X', XTT), **v)
    e = '1 - 1.928*R**-0.315/F + 0.9293*R**-0.63/F**2' if Re < 1125 else '1 - 0.38*R**-0.088/F + 0.0361*R**-0.176/F**2'
    S.eq(S.call(V + 'Tandon_Varma_Gupta', **v), formula(S, e, R=Re, F=F), 'published equation of the range', crtol=1e-6)


@spec('P20')
def domanski_didion(S):
    v = inputs(S, 'Domanski_Didion')
    X = formula(S, XTT, **v)
    S.assume(abs(X - 10) > 1e-6)
    S.eq(S.call(V + 'Domanski_Didion', **v), formula(S, '(1 + X**0.8)**-0.378' if X < 10 else '0.823 - 0.157*log(X)', X=X), 'published equation of the range')


@spec('P20', params=['Graham', 'Kopte_Newell_Chato'])
def froude_rate(S, n):
    v = inputs(S, n)
    own = S.flag('local gravity')
    kw = dict(g=S.real('g', 1, 30)) if own else {}
    F = formula(S, own_gravity(FT), grav=kw.get('g', S.const('9.80665')), **{k: v[k] for k in ('x', 'rhog', 'm', 'D')})
    lim = {'Graham': '0.01032', 'Kopte_Newell_Chato': '0.044'}[n]
    S.assume(abs(F - S.const(lim)) > 1e-8)
    a = S.call(V + n, **kw, **v)
    if F < S.const(lim):
        S.eq(a, 0 if n == 'Graham' else formula(S, AH, **{k: v[k] for k in ('x', 'rhol', 'rhog')}), 'below the Froude rate limit')
    else:
        e = '1 - exp(-1 - 0.3*L - 0.0328*L**2)' if n == 'Graham' else '1.045 - exp(-1 - 0.342*L - 0.0268*L**2 + 0.00597*L**3)'
        S.eq(a, formula(S, e, L=S.m.log(F)), 'published equation', crtol=1e-6)


@spec('P20')
def woldesemayat_ghajar(S):
    v = inputs(S, 'Woldesemayat_Ghajar')
    e = '%s/(%s*(1 + (%s/%s)**((rhog/rhol)**0.1)) + 2.9*(g*D*sigma*(1 + cos(angle*pi/180))*(rhol - rhog)/rhol**2)**0.25*(1.22 + 1.22*sin(angle*pi/180))**(101325/P))' % (VGS, VGS, VLS, VGS)
    S.eq(S.call(V + 'Woldesemayat_Ghajar', **v), formula(S, e, **v), 'published equation', crtol=1e-6)
    w = {k: y for k, y in v.items() if k != 'angle'}
    S.eq(S.call(V + 'Woldesemayat_Ghajar', **w), S.call(V + 'Woldesemayat_Ghajar', angle=S.const('0'), **w), 'horizontal by default')
    w['P'] = None
    S.eq(S.call(V + 'Woldesemayat_Ghajar', **w), S.call(V + 'Woldesemayat_Ghajar', **dict(w, P=S.const('101325'))), 'atmospheric by default')


@spec('P20', params=['n', 'powers', 'default'])
def xtt(S, mode):
    v = inputs(S, 'Thom')
    if mode == 'n':
        n = S.real('n', .1, .5)
        S.eq(S.call(V + 'Lockhart_Martinelli_Xtt', n=n, **v), formula(S, '((1 - x)/x)**((2 - n)/2)*(rhog/rhol)**0.5*(mul/mug)**(n/2)', n=n, **v), 'definition with n')
    elif mode == 'powers':
        a, b, c = S.real('a', .1, 1.5), S.real('b', .1, 1.5), S.real('c', .05, .5)
        S.eq(S.call(V + 'Lockhart_Martinelli_Xtt', pow_x=a, pow_rho=b, pow_mu=c, **v), formula(S, '((1 - x)/x)**a*(rhog/rhol)**b*(mul/mug)**c', a=a, b=b, c=c, **v), 'definition')
    else:
        S.eq(S.call(V + 'Lockhart_Martinelli_Xtt', **v), formula(S, XTT, **v), 'default powers')


# ---------------------------------------------------------------- void fractions are fractions, rise with quality, never exceed the no-slip value
BETWEEN = ['Thom', 'Zivi', 'Smith', 'Fauske', 'Chisholm_voidage', 'Turner_Wallis', 'homogeneous', 'Chisholm_Armand', 'Armand', 'Kawahara', 'Baroczy', 'Yashar', 'Steiner', 'Rouhani_1', 'Rouhani_2',
           'Nicklin_Wilkes_Davidson', 'Gregory_Scott', 'Xu_Fang_voidage', 'Guzhov', 'Woldesemayat_Ghajar', 'Sun_Duffey_Peng', 'Dix']


@spec('P20', params=BETWEEN)
def fraction(S, n):
    v = inputs(S, n)
    S.between(0, S.call(V + n, **v), 1, 'between 0 and 1')


@spec('P20', params=['Zivi', 'Smith', 'Fauske', 'Chisholm_voidage', 'Armand', 'Guzhov', 'Gregory_Scott', 'Steiner', 'Rouhani_1', 'Rouhani_2', 'Nicklin_Wilkes_Davidson', 'Sun_Duffey_Peng', 'Xu_Fang_voidage'])
def slip(S, n):
    """gas runs at least as fast as liquid"""
    v = inputs(S, n)
    S.le(S.call(V + n, **v), S.call(V + 'homogeneous', v['x'], v['rhol'], v['rhog']) * (1 + S.const('1e-12')), 'at most the homogeneous void fraction')


@spec('P20', params=['Thom', 'Zivi', 'Fauske', 'Turner_Wallis', 'homogeneous', 'Armand', 'Baroczy', 'Gregory_Scott', 'Chisholm_voidage', 'Nicklin_Wilkes_Davidson'])
def rises_with_quality(S, n):
    v = inputs(S, n)
    x2 = S.real('x2', 1e-4, .9999)
    S.assume(v['x'] < x2)
    S.le(S.call(V + n, **v), S.call(V + n, **dict(v, x=x2)) * (1 + S.const('1e-12')), 'more gas, larger void fraction')


@spec('P20')
def pure_phases(S):
    rl, rg = S.real('rhol', 100, 2000), S.real('rhog', 1e-2, 99)
    S.eq(S.call(V + 'homogeneous', S.const('1.0'), rl, rg), 1, 'all gas')
    S.eq(S.call(V + 'homogeneous', S.const('0.0'), rl, rg), 0, 'all liquid')


@spec('P20')
def density(S):
    a, rl, rg = S.real('alpha', 0, 1), S.real('rhol', 100, 2000), S.real('rhog', 1e-2, 99)
    rho = S.call(V + 'density_two_phase', a, rl, rg)
    S.eq(rho, a * rg + (1 - a) * rl, 'definition')
    S.eq(S.call(V + 'two_phase_voidage_experimental', rho, rl, rg), a, 'measured density gives back the void fraction', crtol=1e-6)
    S.between(rg * (1 - S.const('1e-12')), rho, rl * (1 + S.const('1e-12')), 'between the phase densities')


# ---------------------------------------------------------------- dispatch
NAMES = {n: n.replace('_', ' ') for n in ALL}
NAMES.update({n: n for n in ('Chisholm_voidage', 'Huq_Loth', 'Kopte_Newell_Chato', 'Gregory_Scott')})
EVERY = ['D', 'm', 'mul', 'mug', 'sigma', 'P', 'Pc']


def given(S):
    v = inputs(S, 'Woldesemayat_Ghajar')
    v['mul'] = S.real('mul', 1e-5, 1)
    v['mug'] = S.real('mug', 1e-7, 1e-3)
    v['Pc'] = S.real('Pc', 1.1e7, 1e8)
    return v


@spec('P20', params=ALL)
def by_name(S, n):
    v = given(S)
    g = S.real('g', 1, 30)
    if S.symbolic:
        for f in ALL:
            abstract(S, V + f)
    need = NEEDS.get(n, '').split()
    args = {k: v[k] for k in ['x', 'rhol', 'rhog'] + need}
    if n in OWN_G:
        args['g'] = g
    S.eq(S.call(V + 'liquid_gas_voidage', Method=NAMES[n], g=g, **v), S.call(V + n, **args), 'the named correlation')
    args.pop('g', None)
    few = {k: v[k] for k in ['x', 'rhol', 'rhog'] + need}
    S.eq(S.call(V + 'liquid_gas_voidage', Method=NAMES[n], **few), S.call(V + n, **args), 'with only what it needs')
    for k in need:
        if k != 'angle':
            rejected(S, S.attempt(V + 'liquid_gas_voidage', Method=NAMES[n], **{a: b for a, b in v.items() if a != k}), 'without ' + k, TypeError)


@spec('P20')
def default_method(S):
    v = given(S)
    if S.symbolic:
        for f in ALL:
            abstract(S, V + f)
    h = S.call(V + 'homogeneous', v['x'], v['rhol'], v['rhog'])
    S.eq(S.call(V + 'liquid_gas_voidage', **v), h, 'homogeneous by default')
    S.eq(S.call(V + 'liquid_gas_voidage', v['x'], v['rhol'], v['rhog']), h, 'homogeneous by default')
    rejected(S, S.attempt(V + 'liquid_gas_voidage', Method='BADMETHOD', **v), 'unknown name')
    rejected(S, S.attempt(V + 'liquid_gas_voidage', Method='Zivi ', **v), 'unknown name')


@static('P20')
def methods_offered(tier, seed):
    """every subset of the optional data: exactly the correlations whose inputs are all present"""
    t = instr.real('two_phase_voidage')
    bad, k = [], 0
    for mask in range(1 << len(EVERY)):
        kw = {a: 1.0 for i, a in enumerate(EVERY) if mask >> i & 1}
        want = {NAMES[n] for n in ALL if all(a in kw or a == 'angle' for a in NEEDS.get(n, '').split())}
        got = t.liquid_gas_voidage_methods(.5, 900., 2., **kw)
        k += 1
        if set(got) != want or len(got) != len(want):
            bad.append((sorted(kw), sorted(set(got) ^ want)))
    for r in ({}, {'rhol': 1000.}, {'rhog': 2.}, {'rhol': 1000., 'rhog': 2.}):
        want = {'McAdams', 'Cicchitti', 'Lin Kwok'} | ({'Beattie Whalley', 'Fourar Bories', 'Duckler'} if len(r) == 2 else set())
        k += 1
        got = t.gas_liquid_viscosity_methods(**r)
        if set(got) != want or len(got) != len(want):
            bad.append((sorted(r), sorted(set(got) ^ want)))
    out = {'obligations': k, 'discharged': k - len(bad), 'backends': {'exhaustive evaluation over the finite domain': k - len(bad)}}
    if bad:
        out['errors'] = ['methods offered differ: %r' % (bad[:5],)]
        out['witness'] = {'values': {'optional data given': bad[0][0], 'wrongly offered or missing': bad[0][1]}}
    return out


# ---------------------------------------------------------------- viscosity
MU = {
    'Beattie_Whalley': 'mul*(1 - A)*(1 + 2.5*A) + mug*A'.replace('A', AH),
    'McAdams': '1/(x/mug + (1 - x)/mul)',
    'Cicchitti': 'x*mug + (1 - x)*mul',
    'Lin_Kwok': 'mul*mug/(mug + x**1.4*(mul - mug))',
    'Fourar_Bories': '(sqrt(x*mug/rhog) + sqrt((1 - x)*mul/rhol))**2/(x/rhog + (1 - x)/rhol)',
    'Duckler': '(x*mug/rhog + (1 - x)*mul/rhol)/(x/rhog + (1 - x)/rhol)',
}
DENSE = ('Beattie_Whalley', 'Fourar_Bories', 'Duckler')


def visc(S, n):
    v = inputs(S, 'Thom')
    if n not in DENSE:
        del v['rhol'], v['rhog']
    return v


@spec('P20', params=sorted(MU))
def viscosity(S, n):
    v = visc(S, n)
    S.eq(S.call(V + n, **v), formula(S, MU[n], **v), 'published definition')


@spec('P20', params=sorted(MU))
def viscosity_limits(S, n):
    v = visc(S, n)
    S.eq(S.call(V + n, **dict(v, x=S.const('1.0'))), v['mug'], 'all gas')
    S.eq(S.call(V + n, **dict(v, x=S.const('0.0'))), v['mul'], 'all liquid')


@spec('P20', params=['McAdams', 'Cicchitti', 'Lin_Kwok', 'Duckler'])
def viscosity_between(S, n):
    v = visc(S, n)
    S.assume(v['mug'] <= v['mul'])
    S.between(v['mug'] * (1 - S.const('1e-12')), S.call(V + n, **v), v['mul'] * (1 + S.const('1e-12')), 'between the phase viscosities')


@spec('P20', params=sorted(MU))
def viscosity_by_name(S, n):
    v = inputs(S, 'Thom')
    if S.symbolic:
        for f in MU:
            abstract(S, V + f)
    w = dict(v) if n in DENSE else {k: v[k] for k in ('x', 'mul', 'mug')}
    name = n.replace('_', ' ')
    S.eq(S.call(V + 'gas_liquid_viscosity', Method=name, **v), S.call(V + n, **w), 'the named definition')
    S.eq(S.call(V + 'gas_liquid_viscosity', Method=name, **w), S.call(V + n, **w), 'with only what it needs')
    S.eq(S.call(V + 'gas_liquid_viscosity', **v), S.call(V + 'McAdams', v['x'], v['mul'], v['mug']), 'McAdams by default')
    if n in DENSE:
        for k in ('rhol', 'rhog'):
            rejected(S, S.attempt(V + 'gas_liquid_viscosity', Method=name, **{a: b for a, b in v.items() if a != k}), 'without ' + k, TypeError)
    rejected(S, S.attempt(V + 'gas_liquid_viscosity', Method='BADMETHOD', **v), 'unknown name')
