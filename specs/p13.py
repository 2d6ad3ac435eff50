"""Weirs and open channels (fluids/open_flow.py)."""
from pyvc.run import spec, static
from specs.common import rejected, formula
from specs.p16 import table, finite
O = 'fluids.open_flow.'

WEIRS = {
    'Q_weir_rectangular_Kindsvater_Carter': '0.554*(1 - 0.0035*h1/h2)*(b + 0.0025)*sqrt(g)*(h1 + 0.0001)**1.5',
    'Q_weir_rectangular_SIA': '0.544*(1 + 0.064*(b/b1)**2 + (0.00626 - 0.00519*(b/b1)**2)/(h1 + 0.0016))*(1 + 0.5*(b/b1)**4*(h1/(h1 + h2))**2)*b*sqrt(g)*(h1 + h2)**1.5',
    'Q_weir_rectangular_full_Ackers': '0.564*(1 + 0.150*h1/h2)*b*sqrt(g)*(h1 + 0.001)**1.5',
    'Q_weir_rectangular_full_SIA': '2/3*sqrt(2)*(0.615 + 0.000615/(h1 + 0.0016))*b*sqrt(g)*h1 + 0.5*(h1/(h1 + h2))**2*b*sqrt(g)*h1**1.5',
    'Q_weir_rectangular_full_Rehbock': '2/3*sqrt(2)*(0.602 + 0.0832*h1/h2)*b*sqrt(g)*(h1 + 0.00125)**1.5',
    'Q_weir_rectangular_full_Kindsvater_Carter': '2/3*sqrt(2)*(0.602 + 0.075*h1/h2)*(b - 0.001)*sqrt(g)*(h1 + 0.001)**1.5',
}


@spec('P13', params=sorted(WEIRS))
def weir(S, n):
    h1, h2, b, x = S.real('h1', .005, 10), S.real('h2', .05, 10), S.real('b', .05, 100), S.real('b/b1', .01, 1)
    kw = dict(b1=b / x) if n == 'Q_weir_rectangular_SIA' else {}
    f = lambda h: S.call(O + n, h, h2, b, **kw)
    q = f(h1)
    S.eq(q, formula(S, WEIRS[n], h1=h1, h2=h2, b=b, b1=b / x), 'published equation', crtol=1e-6)
    # within h1/h2 < 2 and above a head of 3 cm, more head gives more flow
    h = S.real('head', .03, 10)
    r = S.real('h1/h2', .01, 2)
    g = lambda y: S.call(O + n, y, h2, b, **kw)
    S.assume(h < 2 * h2)
    if n != 'Q_weir_rectangular_SIA':
        S.monotone(g, h, +1, 'increases with head')
    S.gt(g(h), 0, 'positive')


@spec('P13', max_paths=60)
def weir_v(S):
    h1, th = S.real('h1', .005, 10), S.real('angle', 5, 150)
    A = [20, 40, 60, 80, 100]
    for a in A:
        S.assume(abs(th - a) > 1e-9)
    C, k = table(S, th, A, ['0.59', '0.58', '0.575', '0.575', '0.58']), table(S, th, A, ['0.0028', '0.0017', '0.0012', '0.001', '0.001'])
    S.eq(S.call(O + 'Q_weir_V_Shen', h1, th), C * S.m.tan(th * S.pi / 360) * formula(S, 'sqrt(g)*(h1 + k)**2.5', h1=h1, k=k), 'published equation with tabulated coefficients', crtol=1e-6)
    S.eq(S.call(O + 'Q_weir_V_Shen', h1), S.call(O + 'Q_weir_V_Shen', h1, S.const('90')), 'right angle by default')
    S.monotone(lambda h: S.call(O + 'Q_weir_V_Shen', h, S.const('90')), h1, +1, 'increases with head')


@spec('P13')
def channel(S):
    R, s, n, C = S.real('Rh', 1e-3, 100), S.real('S', 1e-6, .5), S.real('n', 1e-3, 1), S.real('C', 1, 1e3)
    v = S.call(O + 'V_Manning', R, s, n)
    S.eq(v, formula(S, 'R**(2/3)*sqrt(s)/n', R=R, s=s, n=n), 'Manning')
    S.eq(S.call(O + 'V_Chezy', R, s, C) ** 2, C * C * R * s, 'Chezy')
    c = S.call(O + 'n_Manning_to_C_Chezy', n, R)
    S.eq(S.call(O + 'C_Chezy_to_n_Manning', c, R), n, 'coefficients convert back')
    S.eq(S.call(O + 'n_Manning_to_C_Chezy', S.call(O + 'C_Chezy_to_n_Manning', C, R), R), C, 'coefficients convert back')
    S.eq(S.call(O + 'V_Chezy', R, s, c), v, 'same velocity from either coefficient')
    S.monotone(lambda x: S.call(O + 'V_Manning', R, s, x), n, -1, 'rougher is slower')


@static('P13')
def manning_tables(tier, seed):
    from pyvc import instr
    o = instr.real('open_flow')
    rows = []

    def walk(d, path):
        for k, v in d.items():
            p = path + '/' + k
            if isinstance(v, dict):
                walk(v, p)
            else:
                rows.append(('least <= usual <= largest roughness: ' + p, len(v) == 3 and 0.005 < v[0] <= v[1] <= v[2] <= 0.5, repr(v)))
    for d in o.n_dicts:
        walk(d, '')
    return finite(rows, O + 'n_dicts')
