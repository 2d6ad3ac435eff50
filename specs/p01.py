from pyvc.run import spec
from specs.common import rejected
EQS = ['Panhandle_A', 'Panhandle_B', 'Weymouth', 'Spitzglass_high', 'Spitzglass_low', 'Oliphant', 'Fritzsche', 'Muller', 'IGT']
IMPL = ('Spitzglass_high', 'Spitzglass_low', 'Oliphant')

@spec('P01', params=EQS)
def solve_any(S, name):
    f = 'fluids.compressible.' + name
    SG = S.real('SG', 0.1, 5); Tavg = S.real('Tavg', 150, 600)
    L = S.real('L', 1, 1e6); D = S.real('D', 1e-3, 5); P1 = S.real('P1', 1e4, 1e8); P2 = S.real('P2', 1e3, 1e8)
    E = S.real('E', .1, 1.5)
    S.assume(P1 > P2)
    kw = dict(SG=SG, Tavg=Tavg, E=E)
    kw['Zavg'] = S.real('Zavg', .1, 3)
    kw['Ts'] = S.real('Ts', 200, 400); kw['Ps'] = S.real('Ps', 5e4, 2e5)
    if name in ('Muller', 'IGT'):
        kw['mu'] = S.real('mu', 1e-7, 1e-3)
    S.root_domain(1e-6, 1e6)
    Q = S.call(f, L=L, D=D, P1=P1, P2=P2, **kw)
    S.gt(Q, 0, 'flow positive')
    S.eq(S.call(f, Q=Q, D=D, P1=P1, P2=P2, **kw), L, 'L recovered')
    S.eq(S.call(f, L=L, D=D, Q=Q, P2=P2, **kw), P1, 'P1 recovered')
    S.eq(S.call(f, L=L, D=D, P1=P1, Q=Q, **kw), P2, 'P2 recovered')
    D2 = S.call(f, L=L, Q=Q, P1=P1, P2=P2, **kw)
    if name in IMPL:
        S.eq(S.call(f, L=L, D=D2, P1=P1, P2=P2, **kw), Q, 'solved D satisfies the flow equation', crtol=1e-5)
    else:
        S.eq(D2, D, 'D recovered')


@spec('P01', params=EQS)
def underspecified(S, name):
    """any two of the five quantities left out"""
    v = dict(Q=S.real('Q', 1e-3, 1e4), L=S.real('L', 1, 1e6), D=S.real('D', 1e-3, 5), P1=S.real('P1', 1e5, 1e8), P2=S.real('P2', 1e3, 9e4))
    kw = dict(SG=S.real('SG', 0.1, 5), Tavg=S.real('Tavg', 150, 600))
    if name in ('Muller', 'IGT'):
        kw['mu'] = S.real('mu', 1e-7, 1e-3)
    S.root_domain(1e-6, 1e6)
    for a in v:
        for b in v:
            if a < b:
                rejected(S, S.attempt('fluids.compressible.' + name, **kw, **{k: x for k, x in v.items() if k not in (a, b)}), 'without %s and %s' % (a, b))
