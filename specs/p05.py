from pyvc.run import spec
C = 'fluids.core.'


@spec('P05')
def loss_coefficients(S):
    f = lambda n, *a, **kk: S.call(C + n, *a, **kk)
    fd, L, D, K, rho, V, g, P = [S.real(n, 1e-6, 1e6) for n in ('fd', 'L', 'D', 'K', 'rho', 'V', 'g', 'P')]
    E = S.eq
    E(f('f_from_K', K=f('K_from_f', fd=fd, L=L, D=D), L=L, D=D), fd, 'f recovered')
    E(f('K_from_f', fd=f('f_from_K', K=K, L=L, D=D), L=L, D=D), K, 'K recovered')
    E(f('K_from_f', fd=fd, L=f('L_from_K', K=K, D=D, fd=fd), D=D), K, 'K from equivalent length')
    E(f('L_from_K', K=f('K_from_f', fd=fd, L=L, D=D), D=D, fd=fd), L, 'L recovered')
    E(f('K_from_L_equiv', L_D=f('L_equiv_from_K', K=K, fd=fd), fd=fd), K, 'K recovered from L/D')
    E(f('L_equiv_from_K', K=f('K_from_L_equiv', L_D=L, fd=fd), fd=fd), L, 'L/D recovered')
    E(f('L_equiv_from_K', K=K, fd=fd) * D, f('L_from_K', K=K, D=D, fd=fd), 'L = (L/D) D')
    # default friction factor is shared
    E(f('K_from_L_equiv', L_D=f('L_equiv_from_K', K=K)), K, 'default fd consistent')
    E(f('L_equiv_from_K', K=K) * D, f('L_from_K', K=K, D=D), 'default fd consistent L')
    # pressure drop and head of the same loss agree
    E(f('dP_from_K', K=K, rho=rho, V=V), K * rho * V * V / 2, 'dP definition')
    E(f('head_from_P', P=f('dP_from_K', K=K, rho=rho, V=V), rho=rho, g=g), f('head_from_K', K=K, V=V, g=g), 'head of dP = head of K')
    E(f('P_from_head', head=f('head_from_P', P=P, rho=rho, g=g), rho=rho, g=g), P, 'P recovered')
    E(f('head_from_P', P=f('P_from_head', head=L, rho=rho, g=g), rho=rho, g=g), L, 'head recovered')
    E(f('P_from_head', head=f('head_from_K', K=K, V=V), rho=rho), f('dP_from_K', K=K, rho=rho, V=V), 'default g consistent')
    E(f('head_from_P', P=f('P_from_head', head=L, rho=rho), rho=rho), L, 'default g consistent P')
    E(f('nu_mu_converter', rho=rho, nu=f('nu_mu_converter', rho=rho, mu=K)), K, 'mu recovered')
    E(f('nu_mu_converter', rho=rho, mu=f('nu_mu_converter', rho=rho, nu=K)), K, 'nu recovered')
    E(f('nu_mu_converter', rho=rho, mu=K), K / rho, 'nu = mu/rho')


SC = ['C', 'K', 'F', 'R']


def conv(S, a, b, x):
    return S.call(C + a + '2' + b, x)


@spec('P05', params=[(a, b) for a in SC for b in SC if a != b])
def temperature(S, a, b):
    x, y = S.real('x', -1e5, 1e5), S.real('y', -1e5, 1e5)
    fx = conv(S, a, b, x)
    S.eq(conv(S, b, a, fx), x, 'round trip', catol=1e-6)
    # affine with the right degree size
    size = {'C': 1, 'K': 1, 'F': S.const('1.8'), 'R': S.const('1.8')}
    S.eq(conv(S, a, b, x) - conv(S, a, b, y), (x - y) * size[b] / size[a], 'degree size', catol=1e-6)
    # through every third scale
    for c in SC:
        if c not in (a, b):
            S.eq(conv(S, c, b, conv(S, a, c, x)), fx, 'via ' + c, catol=1e-6)
    # anchor: absolute zero and the ice point
    zero = {'C': S.const('-273.15'), 'K': S.const('0.0'), 'F': S.const('-459.67'), 'R': S.const('0.0')}
    ice = {'C': S.const('0.0'), 'K': S.const('273.15'), 'F': S.const('32.0'), 'R': S.const('491.67')}
    S.eq(conv(S, a, b, zero[a]), zero[b], 'absolute zero', atol=1e-9, catol=1e-6)
    S.eq(conv(S, a, b, ice[a]), ice[b], 'ice point', atol=1e-9, catol=1e-6)


@spec('P05')
def gravity_range(S):
    """sea level gravity increases from equator to pole, is symmetric, and falls with altitude"""
    lat, H = S.real('lat', -90, 90), S.real('H', 0, 1e5)
    g = S.call(C + 'gravity', latitude=lat, H=H)
    S.eq(S.call(C + 'gravity', latitude=-lat, H=H), g, 'symmetric')
    g0 = S.call(C + 'gravity', latitude=lat, H=S.const('0.0'))
    S.between(S.const('9.78'), g0, S.const('9.8326'), 'sea level')
    S.le(g, g0, 'decreases with altitude')
