"""Curved pipe and plate friction factors, roughness lookups (fluids/friction.py)."""
from pyvc.run import spec, static
from specs.common import abstract, rejected
F = 'fluids.friction.'


def geo(S, r0=1.0, r1=1e6):
    """Re, Di, Dc with Di/Dc in (1e-6, .95)"""
    Dc, x = S.real('Dc', 1e-3, 100), S.real('ratio', 1e-5, .95)
    return S.real('Re', r0, r1), x * Dc, Dc, x


def c(S, *a):
    return [S.const(x) for x in a]


TRANS = {
    'Seth Stahel': ('helical_transition_Re_Seth_Stahel', lambda S, x: 1900 * (1 + 8 * S.m.sqrt(x))),
    'Ito': ('helical_transition_Re_Ito', lambda S, x: 20000 * x ** S.const('0.32')),
    'Kubair Kuloor': ('helical_transition_Re_Kubair_Kuloor', lambda S, x: 12730 * x ** S.const('0.2')),
    'Kutateladze Borishanskii': ('helical_transition_Re_Kutateladze_Borishanskii', lambda S, x: 2300 + 10500 * x ** S.const('0.3')),
    'Schmidt': ('helical_transition_Re_Schmidt', lambda S, x: 2300 * (1 + S.const('8.6') * x ** S.const('0.45'))),
    'Srinivasan': ('helical_transition_Re_Srinivasan', lambda S, x: 2100 * (1 + 12 * S.m.sqrt(x))),
}


@spec('P07', params=[(n,) for n in TRANS])
def transition_formula(S, n):
    r, Di, Dc, x = geo(S)
    S.eq(S.call(F + TRANS[n][0], Di, Dc), TRANS[n][1](S, x), 'documented formula')


@spec('P07', params=[(n,) for n in TRANS])
def transition_dispatch(S, n):
    r, Di, Dc, x = geo(S)
    for m in TRANS:
        abstract(S, F + TRANS[m][0])
    S.eq(S.call(F + 'helical_Re_crit', Di, Dc, n), S.call(F + TRANS[n][0], Di, Dc), 'named criterion')
    S.eq(S.call(F + 'helical_Re_crit', Di, Dc), S.call(F + TRANS['Schmidt'][0], Di, Dc), 'default criterion')
    rejected(S, S.attempt(F + 'helical_Re_crit', Di, Dc, Method='BAD'), 'unknown criterion rejected')


LAM = {
    'White': ('helical_laminar_fd_White', lambda S, r, x: _white(S, r, x)),
    'Mori Nakayama laminar': ('helical_laminar_fd_Mori_Nakayama', lambda S, r, x: _mori(S, r, x)),
    'Schmidt laminar': ('helical_laminar_fd_Schmidt', lambda S, r, x: 64 / r * (1 + S.const('0.14') * x ** S.const('0.97') * r ** (1 - S.const('0.644') * x ** S.const('0.312')))),
}


def _white(S, r, x):
    De = r * S.m.sqrt(x)
    if De < S.const('11.6'):
        return 64 / r
    a = S.const('0.45')
    return 64 / r / (1 - (1 - (S.const('11.6') / De) ** a) ** (1 / a))


def _mori(S, r, x):
    De = r * S.m.sqrt(x)
    if De < S.const('42.328036'):
        return 64 / r * S.const('1.405296')
    q = S.m.sqrt(De)
    return 64 / r * S.const('0.108') * q / (1 - S.const('3.253') / q)


@spec('P07', params=[(n,) for n in LAM])
def laminar_formula(S, n):
    r, Di, Dc, x = geo(S, 1, 1e5)
    S.eq(S.call(F + LAM[n][0], r, Di, Dc), LAM[n][1](S, r, x), 'documented formula')


@spec('P07', params=[(n,) for n in LAM])
def laminar_at_least_straight(S, n):
    r, Di, Dc, x = geo(S, 1, 1e4)
    S.ge(S.call(F + LAM[n][0], r, Di, Dc) * r, 64, 'curvature does not reduce friction')


TURB = {  # name: (function, takes roughness, formula(S, r, x, straight))
    'Schmidt turbulent': ('helical_turbulent_fd_Schmidt', True, lambda S, r, x, f: f * (1 + 28800 / r * x ** S.const('0.62')) if r < 22000 else
                          f * (1 + S.const('0.0823') * (1 + x) * x ** S.const('0.53') * r ** S.const('0.25'))),
    'Mori Nakayama turbulent': ('helical_turbulent_fd_Mori_Nakayama', False, lambda S, r, x, f: S.const('0.3') * S.m.sqrt(x) * (r * x * x) ** S.const('-0.2') * (1 + S.const('0.112') * (r * x * x) ** S.const('-0.2'))),
    'Prasad': ('helical_turbulent_fd_Prasad', True, lambda S, r, x, f: f * (1 + S.const('0.18') * (r * x * x) ** S.const('0.25'))),
    'Czop': ('helical_turbulent_fd_Czop', False, lambda S, r, x, f: S.const('0.096') * (r * S.m.sqrt(x)) ** S.const('-0.1517')),
    'Guo': ('helical_turbulent_fd_Guo', False, lambda S, r, x, f: S.const('0.638') * r ** S.const('-0.15') * x ** S.const('0.51')),
    'Ju': ('helical_turbulent_fd_Ju', True, lambda S, r, x, f: f * (1 + S.const('0.11') * r ** S.const('0.23') * x ** S.const('0.14'))),
    'Mandal Nigam': ('helical_turbulent_fd_Mandal_Nigam', True, lambda S, r, x, f: f * (1 + S.const('0.03') * (r * S.m.sqrt(x)) ** S.const('0.27'))),
    'Srinivasan turbulent': ('helical_turbulent_fd_Srinivasan', False, lambda S, r, x, f: S.const('0.336') * (r * S.m.sqrt(x)) ** S.const('-0.2')),
}


@spec('P07', params=[(n,) for n in TURB])
def turbulent_formula(S, n):
    r, Di, Dc, x = geo(S, 100, 1e8)
    e = S.real('roughness', 0, 1e-3)
    S.assume(e < S.const('0.1') * Di)
    f, rough, form = TURB[n]
    abstract(S, F + 'friction_factor', positive=True)
    st = S.call(F + 'friction_factor', Re=r, eD=e / Di)
    st0 = S.call(F + 'friction_factor', Re=r, eD=0.0)
    if rough:
        S.eq(S.call(F + f, r, Di, Dc, e), form(S, r, x, st), 'documented formula')
        S.eq(S.call(F + f, r, Di, Dc), form(S, r, x, st0), 'default is a smooth tube')
        S.ge(S.call(F + f, r, Di, Dc, e), st, 'curvature does not reduce friction')
    else:
        S.eq(S.call(F + f, r, Di, Dc), form(S, r, x, st), 'documented formula')


NAMES = list(LAM) + list(TURB)


@spec('P07', params=[(n,) for n in NAMES] + [(None,)])
def dispatch(S, n):
    r, Di, Dc, x = geo(S, 1, 1e7)
    e = S.real('roughness', 0, 1e-3)
    for m in LAM:
        abstract(S, F + LAM[m][0])
    for m in TURB:
        abstract(S, F + TURB[m][0])
    for m in TRANS:
        abstract(S, F + TRANS[m][0], positive=True)

    def one(m):
        if m in LAM:
            return S.call(F + LAM[m][0], r, Di, Dc)
        return S.call(F + TURB[m][0], r, Di, Dc, e) if TURB[m][1] else S.call(F + TURB[m][0], r, Di, Dc)
    if n is not None:
        S.eq(S.call(F + 'friction_factor_curved', r, Di, Dc, e, Method=n), one(n), 'named correlation')
        S.eq(4 * S.call(F + 'friction_factor_curved', r, Di, Dc, e, Method=n, Darcy=False), one(n), 'Fanning is a quarter of Darcy')
        return
    for crit in (None,) + tuple(TRANS):
        kw = {} if crit is None else {'Rec_method': crit}
        lam = r < S.call(F + TRANS[crit or 'Schmidt'][0], Di, Dc)
        want = 'Schmidt laminar' if lam else 'Schmidt turbulent'
        S.eq(S.call(F + 'friction_factor_curved', r, Di, Dc, e, **kw), one(want), 'default by flow regime')
        S.eq(S.call(F + 'friction_factor_curved', r, Di, Dc, e, laminar_method='White', turbulent_method='Ju', **kw), one('White' if lam else 'Ju'), 'chosen by flow regime')
    rejected(S, S.attempt(F + 'friction_factor_curved', r, Di, Dc, Method='BAD'), 'unknown method rejected')


@spec('P07')
def listing(S):
    r, Di, Dc, x = geo(S, 1, 1e7)
    ms = S.call(F + 'friction_factor_curved_methods', r, Di, Dc, 0.0, True)
    ev = S.call(F + 'friction_factor_curved_methods', r, Di, Dc, 0.0, False)
    S.check(sorted(ev) == sorted(NAMES), 'all methods')
    S.check(sorted(ms) == sorted(LAM if r < TRANS['Schmidt'][1](S, x) else TURB), 'methods of the regime')


# ------------------------------------------------------------------ plates
@spec('P07', seconds=60)
def plate_martin(S):
    r, b = S.real('Re', 1, 1e6), S.real('chevron', 1, 80)
    m = S.m
    ph = b * S.pi / 180
    a = S.call(F + 'friction_plate_Martin_1999', r, b)
    v = S.call(F + 'friction_plate_Martin_VDI', r, b)
    if r < 2000:
        f0, f1 = 16 / r, 149 / r + S.const('0.9625')
        g0, g1 = 64 / r, 597 / r + S.const('3.85')
    else:
        f0, f1 = (S.const('1.56') * m.log(r) - 3) ** -2, S.const('9.75') * r ** S.const('-0.289')
        g0, g1 = (S.const('1.8') * m.log10(r) - S.const('1.5')) ** -2, 39 * r ** S.const('-0.289')
    x = m.cos(ph) / m.sqrt(S.const('0.045') * m.tan(ph) + S.const('0.09') * m.sin(ph) + f0 / m.cos(ph)) + (1 - m.cos(ph)) / m.sqrt(S.const('3.8') * f1)
    y = m.cos(ph) / m.sqrt(S.const('0.18') * m.tan(ph) + S.const('0.36') * m.sin(ph) + g0 / m.cos(ph)) + (1 - m.cos(ph)) / m.sqrt(S.const('3.8') * g1)
    S.eq(a * x * x, 4, 'Martin 1999 formula')
    S.eq(v * y * y, 1, 'Martin VDI formula')


@spec('P07')
def plate_muley(S):
    r, b, p = S.real('Re', 10, 1e6), S.real('chevron', 30, 60), S.real('phi', 1, 1.5)
    v = S.call(F + 'friction_plate_Muley_Manglik', r, b, p)
    t1 = S.const('2.917') - S.const('0.1277') * b + S.const('2.016e-3') * b * b
    t2 = S.const('5.474') - S.const('19.02') * p + S.const('18.93') * p * p - S.const('5.341') * p ** 3
    t3 = -(S.const('0.2') + S.const('0.0577') * S.m.sin(S.pi * b / 45 + S.const('2.1')))
    S.eq(v, 4 * t1 * t2 * r ** t3, 'documented formula')


# Kumar's table: chevron angle -> (Re limits, C2, p)
KUMAR = [(30, [(10, 50, 1), (100, '19.4', '0.589'), (None, '2.99', '0.183')]),
         (45, [(15, 47, 1), (300, '18.29', '0.652'), (None, '1.441', '0.206')]),
         (50, [(20, 34, 1), (300, '11.25', '0.631'), (None, '0.772', '0.161')]),
         (60, [(40, 24, 1), (400, '3.24', '0.457'), (None, '0.76', '0.215')]),
         (65, [(50, 24, 1), (500, '2.8', '0.451'), (None, '0.639', '0.213')])]


@spec('P07')
def plate_kumar(S):
    r, b = S.real('Re', .1, 1e6), S.real('chevron', 0, 89)
    v = S.call(F + 'friction_plate_Kumar', r, b)
    row = KUMAR[-1][1]
    for ang, rw in KUMAR:
        if b <= ang:
            row = rw
            break
    for lim, C, p in row:
        if lim is None or r <= lim:
            S.eq(v, 4 * S.const(str(C)) * r ** (-S.const(str(p))), 'tabulated coefficients of the angle and Reynolds number')
            return


# ------------------------------------------------------------------ roughness
FARSHAD = {'Plastic coated': ('5e-6', '0.0002', '-1.0098'), 'Carbon steel, honed bare': ('12.5e-6', '0.0005', '-1.0101'),
           'Cr13, electropolished bare': ('30e-6', '0.0012', '-1.0086'), 'Cement lining': ('33e-6', '0.0014', '-1.0105'),
           'Carbon steel, bare': ('36e-6', '0.0014', '-1.0112'), 'Fiberglass lining': ('38e-6', '0.0016', '-1.0086'),
           'Cr13, bare': ('55e-6', '0.0021', '-1.0055')}


@spec('P07', params=[(n,) for n in FARSHAD])
def farshad(S, n):
    D = S.real('D', 1e-3, 10)
    e0, A, B = [S.const(x) for x in FARSHAD[n]]
    inch = S.const('0.0254')
    want = A * (D / inch) ** (B + 1) * inch
    S.eq(S.call(F + 'roughness_Farshad', n, D), want, 'documented formula for the material')
    S.eq(S.call(F + 'roughness_Farshad', n), e0, 'average value without a diameter')
    S.eq(S.call(F + 'material_roughness', n, D), want, 'same through the material lookup')
    S.eq(S.call(F + 'material_roughness', n), e0, 'same through the material lookup')
    a, b = S.real('A', 1e-6, 1e-2), S.real('B', -2, 0)
    S.eq(S.call(F + 'roughness_Farshad', coeffs=(a, b), D=D), a * (D / inch) ** (b + 1) * inch, 'user coefficients')
    rejected(S, S.attempt(F + 'roughness_Farshad', coeffs=(a, b)), 'coefficients need a diameter')


@static('P07')
def material_table(tier, seed):
    """finite data obligations: every material of the handbook table, evaluated through the lookup"""
    from pyvc import instr
    fr = instr.real('friction')
    ob = dis = 0
    failed = []
    for name, (mn, mx, av) in sorted(fr.HHR_roughness.items()):
        vals = [x for x in (mn, mx, av) if x]
        lo, hi, mid = [fr.material_roughness(name, optimism=o) for o in (True, False, None)]
        for lab, ok in (('one of the tabulated values', bool(vals) and {lo, hi, mid} <= set(vals)),
                        ('optimistic <= pessimistic', lo <= hi),
                        ('optimistic is the least tabulated', not mn or lo == mn), ('pessimistic is the largest tabulated', not mx or hi == mx),
                        ('default is the average when there is one', not av or mid == av),
                        ('positive', lo > 0)):
            ob += 1
            if ok:
                dis += 1
            else:
                failed.append({'label': lab + ': ' + name, 'choices': {}, 'detail': repr((mn, mx, av, lo, hi, mid)), 'goal': lab, 'pc': ''})
    for name, v in fr._roughness.items():
        ob += 1
        dis += fr.material_roughness(name) == v
    return {'obligations': ob, 'discharged': dis, 'failed': failed, 'functions': ['fluids.friction.material_roughness'],
            'backends': {'enumeration of the finite table': dis}, 'witness': failed[0] if failed else None}
