"""Straight pipe friction factors (fluids/friction.py)."""
from pyvc.run import spec
from specs.common import abstract
F = 'fluids.friction.'


def _inv2(x):
    return 1 / (x * x)


# published formulas, as documented; m = math, r = Re, e = eD
def lg(S, x):
    return S.m.log10(x)


FORM = {
    'friction_laminar': lambda S, r, e: 64 / r,
    'Blasius': lambda S, r, e: S.const('0.3164') / r ** S.const('0.25'),
    'von_Karman': lambda S, r, e: _inv2(2 * lg(S, e / S.const('3.7'))),
    'Moody': lambda S, r, e: S.const('5.5e-3') * (1 + (2e4 * e + 1e6 / r) ** (S.const('1.0') / 3)),
    'Alshul_1952': lambda S, r, e: S.const('0.11') * (68 / r + e) ** S.const('0.25'),
    'Wood_1966': lambda S, r, e: S.const('0.094') * e ** S.const('0.225') + S.const('0.53') * e + 88 * e ** S.const('0.4') * r ** (-S.const('1.62') * e ** S.const('0.134')),
    'Churchill_1973': lambda S, r, e: _inv2(2 * lg(S, e / S.const('3.7') + (7 / r) ** S.const('0.9'))),
    'Eck_1973': lambda S, r, e: _inv2(2 * lg(S, e / S.const('3.715') + 15 / r)),
    'Jain_1976': lambda S, r, e: 4 * _inv2(S.const('2.28') - 4 * lg(S, e + (S.const('29.843') / r) ** S.const('0.9'))),
    'Swamee_Jain_1976': lambda S, r, e: 4 * _inv2(4 * lg(S, (S.const('6.97') / r) ** S.const('0.9') + e / S.const('3.7'))),
    'Churchill_1977': lambda S, r, e: 8 * ((8 / r) ** 12 + ((S.const('2.457') * S.m.log((7 / r) ** S.const('0.9') + S.const('0.27') * e)) ** 16 + (37530 / r) ** 16) ** S.const('-1.5')) ** (S.const('1.0') / 12),
    'Chen_1979': lambda S, r, e: 4 * _inv2(4 * lg(S, e / S.const('3.7065') - S.const('5.0452') / r * lg(S, e ** S.const('1.1098') / S.const('2.8257') + (S.const('7.149') / r) ** S.const('0.8981')))),
    'Round_1980': lambda S, r, e: 4 * _inv2(S.const('3.6') * lg(S, r / (S.const('0.135') * r * e + S.const('6.5')))),
    'Shacham_1980': lambda S, r, e: 4 * _inv2(4 * lg(S, e / S.const('3.7') - S.const('5.02') / r * lg(S, e / S.const('3.7') + S.const('14.5') / r))),
    'Barr_1981': lambda S, r, e: _inv2(2 * lg(S, e / S.const('3.7') + S.const('4.518') * lg(S, r / 7) / (r * (1 + r ** S.const('0.52') / 29 * e ** S.const('0.7'))))),
    'Zigrang_Sylvester_1': lambda S, r, e: 4 * _inv2(4 * lg(S, e / S.const('3.7') - S.const('5.02') / r * lg(S, e / S.const('3.7') + 13 / r))),
    'Zigrang_Sylvester_2': lambda S, r, e: 4 * _inv2(4 * lg(S, e / S.const('3.7') - S.const('5.02') / r * lg(S, e / S.const('3.7') - S.const('5.02') / r * lg(S, e / S.const('3.7') + 13 / r)))),
    'Haaland': lambda S, r, e: 4 * _inv2(S.const('3.6') * lg(S, S.const('6.9') / r + (e / S.const('3.7')) ** S.const('1.11'))),
    'Serghides_1': lambda S, r, e: _serg1(S, r, e),
    'Serghides_2': lambda S, r, e: _serg2(S, r, e),
    'Manadilli_1997': lambda S, r, e: _inv2(2 * lg(S, e / S.const('3.7') + 95 / r ** S.const('0.983') - S.const('96.82') / r)),
    'Romeo_2002': lambda S, r, e: _inv2(2 * lg(S, e / S.const('3.7065') - S.const('5.0272') / r * lg(S, e / S.const('3.827') - S.const('4.567') / r * lg(S, (e / S.const('7.7918')) ** S.const('0.9924') + (S.const('5.3326') / (S.const('208.815') + r)) ** S.const('0.9345'))))),
    'Sonnad_Goudar_2006': lambda S, r, e: _sonnad(S, r, e),
    'Rao_Kumar_2007': lambda S, r, e: _inv2(2 * lg(S, 1 / (2 * e * ((S.const('0.444') + S.const('0.135') * r) / r) * (1 - S.const('0.55') * S.m.exp(-S.const('0.33') * S.m.log(r / S.const('6.5')) ** 2))))),
    'Buzzelli_2008': lambda S, r, e: _buzz(S, r, e),
    'Avci_Karagoz_2009': lambda S, r, e: S.const('6.4') / (S.m.log(r) - S.m.log(1 + S.const('0.01') * r * e * (1 + 10 * S.m.sqrt(e)))) ** S.const('2.4'),
    'Papaevangelo_2010': lambda S, r, e: (S.const('0.2479') - S.const('0.0000947') * (7 - S.m.log(r)) ** 4) * _inv2(lg(S, e / S.const('3.615') + S.const('7.366') / r ** S.const('0.9142'))),
    'Brkic_2011_1': lambda S, r, e: _inv2(2 * lg(S, 10 ** (-S.const('0.4343') * _brk(S, r)) + e / S.const('3.71'))),
    'Brkic_2011_2': lambda S, r, e: _inv2(2 * lg(S, S.const('2.18') * _brk(S, r) / r + e / S.const('3.71'))),
    'Fang_2011': lambda S, r, e: S.const('1.613') * _inv2(S.m.log(S.const('0.234') * e ** S.const('1.1007') - S.const('60.525') / r ** S.const('1.1105') + S.const('56.291') / r ** S.const('1.0712'))),
}
SERG = ('Serghides_1', 'Serghides_2')
ONE = {'friction_laminar': 'r', 'Blasius': 'r', 'von_Karman': 'e'}


def _serg(S, r, e):
    A = -2 * lg(S, e / S.const('3.7') + 12 / r)
    B = -2 * lg(S, e / S.const('3.7') + S.const('2.51') * A / r)
    return A, B


def _serg1(S, r, e):
    A, B = _serg(S, r, e)
    C = -2 * lg(S, e / S.const('3.7') + S.const('2.51') * B / r)
    return _inv2(A - (B - A) ** 2 / (C - 2 * B + A))


def _serg2(S, r, e):
    A, B = _serg(S, r, e)
    k = S.const('4.781')
    return _inv2(k - (A - k) ** 2 / (B - 2 * A + k))


def _sonnad(S, r, e):
    s = S.const('0.124') * e * r + S.m.log(S.const('0.4587') * r)
    return _inv2(S.const('0.8686') * (S.m.log(S.const('0.4587') * r) - s / (s + 1) * S.m.log(s)))


def _buzz(S, r, e):
    B1 = (S.const('0.774') * S.m.log(r) - S.const('1.41')) / (1 + S.const('1.32') * S.m.sqrt(e))
    B2 = e / S.const('3.7') * r + S.const('2.51') * B1
    return _inv2(B1 - (B1 + 2 * lg(S, B2 / r)) / (1 + S.const('2.18') / B2))


def _brk(S, r):
    return S.m.log(r / (S.const('1.816') * S.m.log(S.const('1.1') * r / S.m.log(1 + S.const('1.1') * r))))


@spec('P06', params=sorted(FORM))
def formula(S, name):
    r, e = S.real('Re', 2040, 1e9), S.real('eD', 1e-7, .1)
    if name in SERG:
        # removable singularities of the acceleration step (the iteration is already exact there) are excluded
        A, B = _serg(S, r, e)
        if name == 'Serghides_1':
            C = -2 * lg(S, e / S.const('3.7') + S.const('2.51') * B / r)
            S.assume(C - 2 * B + A != 0)
            S.assume(A - (B - A) ** 2 / (C - 2 * B + A) != 0)
        else:
            k = S.const('4.781')
            S.assume(B - 2 * A + k != 0)
            S.assume(k - (A - k) ** 2 / (B - 2 * A + k) != 0)
    if name in ONE:
        v = S.call(F + name, r if ONE[name] == 'r' else e)
    else:
        v = S.call(F + name, r, e)
    S.eq(v, FORM[name](S, r, e), 'documented formula')


@spec('P06')
def Tsal(S):
    r, e = S.real('Re', 2040, 1e9), S.real('eD', 0, .1)
    a = FORM['Alshul_1952'](S, r, e)
    v = S.call(F + 'Tsal_1989', r, e)
    if a >= S.const('0.018'):
        S.eq(v, a, 'rough branch')
    else:
        S.eq(v, S.const('0.0028') + S.const('0.85') * a, 'smooth branch')


# relative deviation from Colebrook on the published range (smooth and rough)
ACC = [  # name, max relative error, Re range, eD range
    ('Moody', .15, 4e3, 1e8, 0, .01), ('Churchill_1973', .04, 4e3, 1e8, 1e-7, .05), ('Eck_1973', .11, 4e3, 1e8, 0, .05),
    ('Jain_1976', .03, 5e3, 1e7, 4e-5, .05), ('Swamee_Jain_1976', .035, 5e3, 1e8, 1e-6, .05),
    ('Churchill_1977', .035, 4e3, 1e8, 0, .05), ('Chen_1979', .005, 4e3, 4e8, 1e-7, .05), ('Round_1980', .12, 4e3, 4e8, 0, .05),
    ('Shacham_1980', .01, 4e3, 4e8, 0, .05), ('Barr_1981', .006, 4e3, 1e8, 0, .05), ('Zigrang_Sylvester_1', .01, 4e3, 1e8, 4e-5, .05),
    ('Zigrang_Sylvester_2', .0015, 4e3, 1e8, 4e-5, .05), ('Haaland', .016, 4e3, 1e8, 1e-6, .05),
    ('Manadilli_1997', .027, 5245, 1e8, 0, .05), ('Romeo_2002', .002, 3e3, 1.5e8, 0, .05),
    
    ('Buzzelli_2008', .004, 4e3, 1e8, 1e-7, .05), ('Avci_Karagoz_2009', .032, 4e3, 1e8, 0, .05), ('Brkic_2011_1', .035, 4e3, 1e8, 0, .05),
    ('Brkic_2011_2', .03, 4e3, 1e8, 0, .05), ('Fang_2011', .006, 3e3, 1e8, 0, .05),
]


@spec('P06', params=ACC, seconds=60)
def accuracy(S, name, p, r0, r1, e0, e1):
    """1/sqrt(f) brackets the root of the (increasing) Colebrook residual when stretched by the tolerance"""
    r, e = S.real('Re', r0, r1), S.real('eD', e0, e1)
    f = S.call(F + name, r, e)
    S.gt(f, 0, 'positive')
    x = 1 / S.m.sqrt(f)
    for q, d in ((1 + p, 1), (1 - p, -1)):
        y = x * S.m.sqrt(S.lift(q))      # friction factor f/q
        res = y + 2 * S.m.log10(e / S.const('3.7') + S.const('2.51') * y / r)
        if d > 0:
            S.ge(res, 0, 'Colebrook factor above f/(1+p)')
        else:
            S.le(res, 0, 'Colebrook factor below f/(1-p)')


def colebrook_residual(S, f, r, e):
    x = 1 / S.m.sqrt(f)
    return x, -2 * S.m.log10(e / S.const('3.7') + S.const('2.51') * x / r)


@spec('P06')
def colebrook_closed_form(S):
    """the Lambert W branch: documented closed form, and that form satisfies Colebrook's equation exactly"""
    r, e = S.real('Re', 10, 1e9), S.real('eD', 0, .1)
    S.assume(r * e < 2800)           # the closed form overflows (and falls back to iteration) beyond
    if not S.symbolic:
        f = S.call(F + 'Colebrook', r, e)
        a, b = colebrook_residual(S, f, r, e)
        S.eq(a, b, 'Colebrook equation', crtol=1e-6)
        return
    ln10, k1, k2 = S.m.log(S.lift(10)), S.const('3.7'), S.const('2.51')
    den = S.real('den', 1e-2, 1e4)       # 2 k1 k2 W - ln(10) eD Re, proportional to 1/sqrt(f): the positive root
    w = (den + ln10 * e * r) / (2 * k1 * k2)
    arg = ln10 / 2 * S.m.exp(ln10 * e * r / (2 * k1 * k2)) * r / k2

    def lam(orig, x, *a, **k):
        S.eq(S.m.log(x / r), S.m.log(arg / r), 'argument of the Lambert W function', rtol=0, atol=1e-9)
        return Wrap(w)
    S.stub('fluids.numerics.lambertw', lam)
    S.assume(w + S.m.log(w) == S.m.log(arg))
    f = S.call(F + 'Colebrook', r, e)
    S.eq(S.m.sqrt((ln10 * k1 * k2) ** 2 / f), den, 'documented closed form', rtol=0, atol=1e-9)
    x = den / (ln10 * k1 * k2)           # = 1/sqrt(f)
    S.eq(x, -2 * S.m.log(e / k1 + k2 * x / r) / ln10, 'closed form solves the Colebrook equation')


class Wrap:
    def __init__(self, v):
        self.real = v


@spec('P06', params=[(1e-12,), (1e-6,)])
def colebrook_iterative(S, tol):
    """the residual handed to the root finder is Colebrook's equation for every trial value, and its root is returned"""
    r, e = S.real('Re', 10, 1e9), S.real('eD', 0, .1)
    y, g = S.real('root', 1e-4, 10), S.real('guess', 1e-4, 10)
    if not S.symbolic:
        f = S.call(F + 'Colebrook', r, e, tol)
        a, b = colebrook_residual(S, f, r, e)
        S.eq(a, b, 'Colebrook equation', crtol=1e-3)
        return

    def sec(orig, func, x0, *a, **k):
        S.eq(x0, g, 'starts from the explicit approximation')
        for s in (1, -1):
            u, v = colebrook_residual(S, y, r, e)
            S.eq(S.m.exp((func(s * y) - u) * S.m.log(S.lift(10)) / 2), e / S.const('3.7') + S.const('2.51') * u / r, 'residual is Colebrook equation')
        return -y if S.flag('negative root') else y
    S.stub(F + 'Clamond', lambda orig, *a, **k: g)
    S.stub('fluids.numerics.secant', sec)
    S.eq(S.call(F + 'Colebrook', r, e, tol), y, 'root returned')


@spec('P06')
def clamond(S):
    """two third-order steps solve F + ln(X1 + F) = X2, Colebrook's equation in its logarithmic form"""
    t, X2 = S.real('t', 7, 6e5), S.real('X2', 7, 18)
    S.assume(t >= X2 - S.const('0.2'))
    S.assume(t - X2 <= S.const('0.027') * S.m.exp(X2))        # eD below 0.1
    k1, k2 = S.const('0.12396818633541755'), S.const('0.7793974884556819')
    Re = S.m.exp(X2 + k2)
    eD = (t - X2 + S.const('0.2')) / Re / k1
    # constants of the transformation
    l10 = S.m.log(S.lift(10))
    S.eq(k1, l10 / 2 / (S.const('3.7') * S.const('2.51')), 'X1 scale', rtol=1e-12)
    S.eq(k2, S.m.log(2 * S.const('2.51') / l10), 'X2 offset', rtol=1e-12)
    k3 = S.const('1.3254745276195996')
    S.eq(k3, l10 * l10 / 4, 'scale', rtol=1e-12)
    for fast, tol in ((False, '1e-4'), (True, '1e-2')):
        f = S.call(F + 'Clamond', Re, eD, fast)
        FF = S.m.sqrt(k3 / f)
        S.between(-S.const(tol), FF + S.m.log(k1 * eD * Re + FF) - X2, S.const(tol), 'Colebrook residual fast=%s' % fast)


@spec('P06')
def prandtl(S):
    r = S.real('Re', 100, 1e12)
    if not S.symbolic:
        f = S.call(F + 'Prandtl_von_Karman_Nikuradse', r)
        x = 1 / S.m.sqrt(f)
        S.eq(x, -2 * S.m.log10(S.const('2.51') * x / r), 'smooth limit of the Colebrook equation', crtol=1e-6)
        return
    w = S.real('w', 1e-9, 1e12)
    l10 = S.m.log(S.lift(10))
    arg = l10 / 2 * r / S.const('2.51')
    S.assume(w + S.m.log(w) == S.m.log(arg))

    def lam(orig, x, *a, **k):
        S.eq(x, arg, 'argument of the Lambert W function')
        return Wrap(w)
    S.stub('fluids.numerics.lambertw', lam)
    f = S.call(F + 'Prandtl_von_Karman_Nikuradse', r)
    S.eq(f * w * w, (l10 / 2) ** 2, 'documented closed form')
    x = 2 * w / l10
    S.eq(x, -2 * S.m.log(S.const('2.51') * x / r) / l10, 'closed form solves the equation')


ALL = ['Moody', 'Alshul_1952', 'Wood_1966', 'Churchill_1973', 'Eck_1973', 'Jain_1976', 'Swamee_Jain_1976', 'Churchill_1977', 'Chen_1979',
       'Round_1980', 'Shacham_1980', 'Barr_1981', 'Zigrang_Sylvester_1', 'Zigrang_Sylvester_2', 'Haaland', 'Serghides_1', 'Serghides_2',
       'Tsal_1989', 'Manadilli_1997', 'Romeo_2002', 'Sonnad_Goudar_2006', 'Rao_Kumar_2007', 'Buzzelli_2008', 'Avci_Karagoz_2009',
       'Papaevangelo_2010', 'Brkic_2011_1', 'Brkic_2011_2', 'Fang_2011', 'Clamond', 'Colebrook']


@spec('P06', params=[(x,) for x in ALL + [None, 'laminar']])
def dispatch(S, name):
    """the general entry point returns what the named correlation returns; laminar below the transition for every method"""
    r, e = S.real('Re', 1, 1e8), S.real('eD', 1e-7, .05)
    S.assume(r * e < 1e5)
    lam = S.call(F + 'friction_laminar', r)
    target = 'Clamond' if name is None else name
    # correlations are abstracted: same arguments, same (arbitrary) value
    for n in ALL:
        abstract(S, F + n)
    f = S.call(F + 'friction_factor', r, e, Method=name)
    ff = S.call(F + 'friction_factor', r, e, Method=name, Darcy=False)
    S.eq(ff * 4, f, 'Fanning is a quarter of Darcy')
    if name == 'laminar':
        S.eq(f, lam, 'laminar on request')
    elif r < 2040:
        S.eq(f, lam, 'laminar below transition')
    else:
        S.eq(f, S.call(F + target, r, e), 'named correlation')
    if name is None:
        S.eq(S.call(F + 'friction_factor', r, e), f, 'default method')
        S.eq(S.call(F + 'friction_factor', r), S.call(F + 'friction_factor', r, 0.0), 'default smooth')


@spec('P06')
def invalid_method(S):
    r = S.real('Re', 2040, 1e8)
    o = S.attempt(F + 'friction_factor', r, 0.0, Method='BADMETHOD')
    S.check(not o.ok and isinstance(o.exc, ValueError), 'unknown method is rejected')


@spec('P06')
def listing(S):
    """friction_factor_methods offers exactly the correlations whose published range contains the point"""
    r, e = S.real('Re', 1, 1e9), S.real('eD', 0, .1)
    ms = S.call(F + 'friction_factor_methods', r, e, True)
    every = S.call(F + 'friction_factor_methods', r, e, False)
    S.check(sorted(every) == sorted(ALL + ['laminar']), 'all methods without range check')
    if r < 2040:
        S.check(ms == ['laminar'], 'laminar only')
        return
    S.check(len(set(ms)) == len(ms), 'no repeats')
    rng = S.mod('friction').fmethods
    for n in ALL:
        a, b, c, d = rng[n]
        ok = True
        for lim, v, sg in ((a, r, 1), (b, r, -1), (c, e, 1), (d, e, -1)):
            if lim is not None and not ((v >= lim) if sg > 0 else (v <= lim)):
                ok = False
        S.check((n in ms) == ok, 'range of ' + n)


# published ranges (from each correlation's documentation) must be inside what the table admits
DOCRANGE = {'Moody': (4e3, 1e8, 0, .01), 'Wood_1966': (4e3, 5e7, 1e-5, .04), 'Jain_1976': (5e3, 1e7, 4e-5, .05),
            'Swamee_Jain_1976': (5e3, 1e8, 1e-6, .05), 'Chen_1979': (4e3, 4e8, 1e-7, .05), 'Round_1980': (4e3, 4e8, 0, .05),
            'Zigrang_Sylvester_1': (4e3, 1e8, 4e-5, .05), 'Zigrang_Sylvester_2': (4e3, 1e8, 4e-5, .05), 'Haaland': (4e3, 1e8, 1e-6, .05),
            'Tsal_1989': (4e3, 1e8, 0, .05), 'Manadilli_1997': (5245, 1e8, 0, .05), 'Romeo_2002': (3e3, 1.5e8, 0, .05),
            'Sonnad_Goudar_2006': (4e3, 1e8, 1e-6, .05), 'Papaevangelo_2010': (1e4, 1e7, 1e-5, 1e-3), 'Fang_2011': (3e3, 1e8, 0, .05)}


@spec('P06', params=sorted(DOCRANGE))
def listed_range(S, n):
    a, b, c, d = DOCRANGE[n]
    r, e = S.real('Re', 2040, 1e9), S.real('eD', 0, .1)
    ms = S.call(F + 'friction_factor_methods', r, e, True)
    S.check((n in ms) == bool(r >= a and r <= b and e >= c and e <= d), 'offered exactly on its documented range')


@spec('P06')
def laminar_monotone(S):
    r = S.real('Re', 1e-3, 2040)
    S.monotone(lambda x: S.call(F + 'friction_factor', x), r, -1, 'laminar factor falls with Re')


@spec('P06')
def crane(S):
    D = S.real('D', .01, 2)
    f = S.call(F + 'ft_Crane', D)
    S.between(S.const('0.008'), f, S.const('0.031'), 'fully turbulent factor')


@spec('P06')
def transmission(S):
    fd, T = S.real('fd', 1e-4, 10), S.real('F', 1e-2, 100)
    S.eq(S.call(F + 'transmission_factor', F=S.call(F + 'transmission_factor', fd=fd)), fd, 'fd recovered')
    S.eq(S.call(F + 'transmission_factor', fd=S.call(F + 'transmission_factor', F=T)), T, 'F recovered')
    o = S.attempt(F + 'transmission_factor')
    S.check(not o.ok and isinstance(o.exc, ValueError), 'nothing given is rejected')


@spec('P06')
def single_phase(S):
    m, rho, mu, D, L = S.real('m', 1e-4, 1e4), S.real('rho', .01, 2e4), S.real('mu', 1e-6, 10), S.real('D', 1e-3, 10), S.real('L', 1e-3, 1e6)
    e = S.real('rough', 1e-9, 1e-2)
    S.assume(e / D < S.const('0.05'))
    k = S.real('k', .1, 10)
    h = S.real('hf', 1e-3, 1)
    S.stub(F + 'friction_factor', lambda orig, *a, **kw: pipe_f(S, h, m, rho, mu, D, e, a, kw) if S.symbolic else orig(*a, **kw))
    dp = S.call(F + 'one_phase_dP', m, rho, mu, D, e, L)
    A = S.pi / 4 * D * D
    V = m / rho / A
    f = h if S.symbolic else S.call(F + 'friction_factor', rho * V * D / mu, e / D)
    S.eq(dp, f * L / D * rho * V * V / 2, 'Darcy-Weisbach')
    S.eq(S.call(F + 'one_phase_dP', m, rho, mu, D, e, L * k), dp * k, 'proportional to length')


def pipe_f(S, h, m, rho, mu, D, e, a, kw):
    kw = dict(zip(('Re', 'eD', 'Method', 'Darcy'), a), **kw)
    S.eq(kw['Re'], 4 * m / (S.pi * D * mu), 'Reynolds number of the pipe')
    S.eq(kw['eD'], e / D, 'relative roughness')
    S.check(kw.get('Darcy', True) is True, 'Darcy factor')
    return h


@spec('P06')
def acceleration_gravity(S):
    m, D, Di, ri, ro = S.real('m', 1e-4, 1e4), S.real('D', 1e-3, 10), S.real('Di', 1e-3, 10), S.real('rho_i', .01, 2e4), S.real('rho_o', .01, 2e4)
    vo, vi = 4 * m / (ro * S.pi * D * D), 4 * m / (ri * S.pi * Di * Di)
    ra = (ri + ro) / 2
    S.eq(S.call(F + 'one_phase_dP_acceleration', m, D, ro, ri, Di), ra * (vo * vo - vi * vi) / 2, 'kinetic energy change', catol=1e-6 * 0 if S.symbolic else 1e-6 * ra * (vo * vo + vi * vi))
    S.eq(S.call(F + 'one_phase_dP_acceleration', m, D, ri, ri), 0, 'no acceleration, no pressure change')
    # differential form: pressure gradient to accelerate, G^2 (dv/dP dP/dL - dA/dL/(rho A)) with the sign of a loss
    dv, dP, dA = S.real('dv_dP', -1e-2, 1e-2), S.real('dP_dL', -1e5, 1e5), S.real('dA_dL', -1, 1)
    A = S.pi / 4 * D * D
    G = m / A
    S.eq(S.call(F + 'one_phase_dP_dz_acceleration', m, D, ri, dv, dP, dA), -G * G * (dP * dv - dA / (ri * A)), 'differential form', catol=0 if S.symbolic else 1e-9 * G * G * (abs(dP * dv) + abs(dA) / (ri * A)))
    ang, L = S.real('angle', -90, 90), S.real('L', 1e-3, 1e5)
    gz = S.call(F + 'one_phase_dP_gravitational', ang, ri, L)
    S.eq(gz, ri * L * S.mod('constants').g * S.m.sin(ang * S.pi / 180), 'weight of the column', catol=0 if S.symbolic else 1e-9 * ri * L)
    S.eq(S.call(F + 'one_phase_dP_gravitational', -ang, ri, L), -gz, 'odd in the angle')
