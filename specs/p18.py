"""US Standard Atmosphere, air mass and surface irradiance (fluids/atmosphere.py, fluids/optional/irradiance.py)."""
from pyvc.run import spec
from specs.common import abstract, rejected, formula
A = 'fluids.atmosphere.'
I = 'fluids.optional.irradiance.'
HS = ['0', '11000', '20000', '32000', '47000', '51000', '71000']
TS = ['288.15', '216.65', '216.65', '228.65', '270.65', '270.65', '214.65']
GR = ['-0.0065', '0', '0.001', '0.0028', '0', '-0.0028', '-0.002']
# base pressures follow from the layer below (hydrostatic equation), 84.852 km and up is isothermal
TOP = '84852'


def layer_pressure(S, i, H):
    """hydrostatic pressure at geopotential height H in layer i, built up from sea level"""
    P = S.const('101325')
    for j in range(i + 1):
        top = H if j == i else S.const(HS[j + 1])
        h, T, b = top - S.const(HS[j]), S.const(TS[j]), S.const(GR[j])
        k = S.const('9.80665') * S.const('28.9644') / S.const('8314.32')
        if float(GR[j]) == 0:
            P = P * S.m.exp(-k * h / T)
        else:
            P = P * (T / (T + b * h)) ** (k / b)
    return P


def height(S, i):
    lo = float(HS[i])
    hi = float(HS[i + 1]) if i < 6 else 84852.
    return S.real('H', lo + .01 if i else -5000, hi - .01)


@spec('P18', params=range(7))
def standard_layer(S, i):
    H, dT = height(S, i), S.real('dT', -50, 50)
    r0 = S.const('6356766')
    Z = r0 * H / (r0 - H)
    a = S.call(A + 'ATMOSPHERE_1976', Z, dT)
    T = S.const(TS[i]) + S.const(GR[i]) * (H - S.const(HS[i]))
    S.eq(a.H, H, 'geopotential height')
    S.eq(a.T, T + dT, 'layer temperature plus the offset', crtol=1e-9)
    S.eq(a.P, layer_pressure(S, i, H), 'hydrostatic pressure from sea level', rtol=1e-6, crtol=1e-6)
    S.eq(a.rho * a.T * S.const('8314.32'), a.P * S.const('28.9644'), 'ideal gas density', rtol=1e-9)
    S.eq(a.v_sonic ** 2 * S.const('28.9644'), S.const('1.4') * S.const('8314.32') * a.T, 'speed of sound', rtol=1e-9)
    S.eq(a.mu * (a.T + S.const('110.4')), formula(S, '1.458e-6*T**1.5', T=a.T), 'viscosity')
    S.eq(a.k * (a.T + formula(S, '245.4*exp(-27.63102111592855/T)', T=a.T)), formula(S, '2.64638e-3*T**1.5', T=a.T), 'conductivity', rtol=1e-9)
    S.le(abs(12 * S.m.log(S.const('10')) - S.const('27.63102111592855')), S.const('1e-13'), 'the exponent is in powers of ten')
    S.eq(a.g * (r0 + Z) ** 2, S.const('9.80665') * r0 ** 2, 'gravity')
    b = S.call(A + 'ATMOSPHERE_1976', Z)
    S.eq(b.T, T, 'no offset by default', crtol=1e-9)
    S.eq(b.P, a.P, 'the offset does not change pressure')


@spec('P18', params=range(7))
def standard_monotone(S, i):
    """pressure falls with height within every layer"""
    H = height(S, i)
    r0 = S.const('6356766')
    S.monotone(lambda h: S.call(A + 'ATMOSPHERE_1976', r0 * h / (r0 - h)).P, H, -1, 'pressure falls')
    S.gt(S.call(A + 'ATMOSPHERE_1976', r0 * H / (r0 - H)).P, 0, 'positive')


@spec('P18')
def above_layers(S):
    H = S.real('H', 84852.5, 1e5)
    r0 = S.const('6356766')
    a = S.call(A + 'ATMOSPHERE_1976', r0 * H / (r0 - H))
    S.eq(a.T, S.const('186.946'), 'isothermal above the last layer')
    S.eq(a.P, formula(S, '0.3733835899762159*exp(-9.80665*28.9644*(H - 84852)/(8314.32*186.946))', H=H), 'hydrostatic above the last layer', crtol=1e-6)


@spec('P18')
def pressure_integral(S):
    """the integral runs from the height of P1 over dH, over g*rho at the offset that reproduces T1"""
    T1, P1, dH, z = S.real('T1', 200, 330), S.real('P1', 3e4, 1.05e5), S.real('dH', 1, 5000), S.real('Z', -500, 1e4)
    if not S.symbolic:
        from scipy.integrate import quad
        from scipy.optimize import brentq
        at = S.mod('atmosphere').ATMOSPHERE_1976
        H = brentq(lambda h: at(h).P - P1, -600, 3e4, xtol=1e-9)
        d = T1 - at(H).T
        return S.eq(S.call(A + 'ATMOSPHERE_1976.pressure_integral', T1, P1, dH), quad(lambda h: at(h, d).g * at(h, d).rho, H, H + dH)[0], 'weight of the column', crtol=1e-5)
    seen = capture(S)
    A1 = abstract_atm(S)
    v = S.call(A + 'ATMOSPHERE_1976.pressure_integral', T1, P1, dH)
    S.eq(v, seen['value'], 'the integral itself')
    S.eq(seen['b'] - seen['a'], dH, 'over the height difference')
    ref = A1(seen['a'], S.const('0'))
    S.eq(ref.P, P1, 'starts at the height of the given pressure', crtol=1e-5)
    off = T1 - ref.T
    x = A1(z, off)
    S.eq(seen['f'](z, *seen['args']), x.g * x.rho, 'weight of a metre of air', crtol=1e-6)


def abstract_atm(S):
    """atmosphere state as unknown functions of height; temperature offset added, as proved layer by layer above"""
    from specs.common import akey
    memo = {}
    S.e.contracts_used.add(A + 'ATMOSPHERE_1976: abstracted inside pressure_integral as positive functions of height and offset')
    m = S.mod('atmosphere')
    cls = m.ATMOSPHERE_1976

    class Atm:
        pass

    def stub(Z, dT=0.0):
        k = (akey(S, Z), akey(S, dT))
        if k not in memo:
            a = Atm()
            for n, lo, hi in (('P', 1., 2e5), ('T', 150, 400), ('rho', 1e-6, 3), ('g', 9, 10)):
                v = S.e.fresh(n)
                S.e.or_.setbox(v.val, lo, hi)
                setattr(a, n, v)
            a.Z = Z
            memo[k] = a
        return memo[k]
    stub.pressure_integral = cls.pressure_integral
    m.ATMOSPHERE_1976 = stub        # this process runs this task only
    return stub


def capture(S):
    """quadrature contract: integral of f over [a, b] - the operands are recorded"""
    seen = {}

    def q(orig, f, a, b, args=(), **k):
        seen.update(f=f, a=a, b=b, args=args, value=S.e.fresh('integral'))
        return seen['value'], 0.0
    S.stub('fluids.numerics.lazy_quad', q)
    S.e.contracts_used.add('fluids.numerics.quad: the integral of its integrand over its limits')
    return seen


@spec('P18')
def airmass(S):
    """integrand of the air mass integral, for any density profile"""
    ang, Hm, Rp, RI, z = S.real('angle', 0, 90), S.real('H_max', 1e4, 1e6), S.real('R_planet', 1e6, 1e8), S.real('RI', 1, 1.01), S.real('Z', 0, 1e6)
    rho, rho0 = S.real('rho', 1e-9, 2), S.real('rho0', .5, 2)
    S.assume(rho <= rho0)
    S.assume(z > 1)
    S.assume((1 + 2 * (RI - 1) * (1 - rho / rho0)) * (S.m.cos(ang * S.pi / 180) / (1 + z / Rp)) ** 2 < S.const('0.999'))
    if not S.symbolic:
        from scipy.integrate import quad
        import math
        prof = lambda Z: rho0 * math.exp(-Z / 8000)
        f = lambda h: prof(h) / math.sqrt(1 - (1 + 2 * (RI - 1) * (1 - prof(h) / rho0)) * (math.cos(math.radians(min(max(ang, 20), 90))) / (1 + h / Rp)) ** 2)
        return S.eq(S.call(A + 'airmass', prof, min(max(ang, 20), 90), Hm, Rp, RI), quad(f, 0, Hm, limit=200)[0], 'integral', crtol=1e-5)
    seen = capture(S)
    from pyvc.ir import coerce, ZERO
    prof = lambda Z: rho0 if coerce(Z) is ZERO else rho
    for kw, H_, R_, I_ in ((dict(H_max=Hm, R_planet=Rp, RI=RI), Hm, Rp, RI), (dict(), S.const('86400'), S.const('6371229'), S.const('1.000276'))):
        if not kw:
            S.assume((1 + 2 * (I_ - 1) * (1 - rho / rho0)) * (S.m.cos(ang * S.pi / 180) / (1 + z / R_)) ** 2 < S.const('0.999'))
        S.call(A + 'airmass', prof, ang, **kw)
        S.eq(seen['a'], 0, 'from the ground')
        S.eq(seen['b'], H_, 'to the limit')
        v = seen['f'](z, *seen['args'])
        S.eq(v, rho / S.m.sqrt(1 - (1 + 2 * (I_ - 1) * (1 - rho / rho0)) * (S.m.cos(ang * S.pi / 180) / (1 + z / R_)) ** 2), 'refracted path', crtol=1e-6)


@spec('P18')
def extra_radiation(S):
    d, C = S.real('day', 1, 366), S.real('solar constant', 1300, 1400)
    B = 2 * S.pi / 365 * (d - 1)
    v = S.call(A + '_get_extra_radiation_shim', d, C)
    S.eq(v, C * formula(S, '1.00011 + 0.034221*cos(B) + 0.00128*sin(B) + 0.000719*cos(2*B) + 0.000077*sin(2*B)', B=B), 'Spencer series', crtol=1e-6)


# ---------------------------------------------------------------- surface irradiance
def rad(S, x):
    return x * S.pi / 180


@spec('P18')
def incidence(S):
    t, az, z, sa = S.real('tilt', 0, 90), S.real('azimuth', 0, 360), S.real('zenith', 0, 90), S.real('solar azimuth', 0, 360)
    c = S.m.cos
    s = S.m.sin
    p = S.call(I + 'aoi_projection', t, az, z, sa)
    S.eq(p, c(rad(S, t)) * c(rad(S, z)) + s(rad(S, t)) * s(rad(S, z)) * c(rad(S, sa - az)), 'cosine of the angle of incidence')
    S.eq(S.call(I + 'aoi_projection', S.const('0'), az, z, sa), c(rad(S, z)), 'a level surface sees the zenith angle')


@spec('P18')
def plane(S):
    t, ghi, dhi, dni, al, aoi = S.real('tilt', 0, 90), S.real('ghi', 0, 1500), S.real('dhi', 0, 1500), S.real('dni', 0, 1500), S.real('albedo', 0, 1), S.real('aoi', 0, 180)
    c = S.m.cos
    S.assume(abs(aoi - 90) > 1e-4)
    S.assume(dni > 1e-3)
    gd = S.call(I + 'get_ground_diffuse', t, ghi, al)
    S.eq(gd, ghi * al * (1 - c(rad(S, t))) / 2, 'reflected from the ground')
    S.eq(S.call(I + 'get_ground_diffuse', t, ghi), S.call(I + 'get_ground_diffuse', t, ghi, S.const('0.25')), 'default albedo')
    sd = S.call(I + 'isotropic', t, dhi)
    S.eq(sd, dhi * (1 + c(rad(S, t))) / 2, 'isotropic sky')
    S.eq(S.call(I + 'get_sky_diffuse', t, 0, 0, 0, dni, ghi, dhi), sd, 'isotropic by default')
    r = S.call(I + 'poa_components', aoi, dni, sd, gd)
    S.eq(r['poa_direct'], dni * c(rad(S, aoi)) if aoi < 90 else S.const('0'), 'beam on the plane')
    S.eq(r['poa_diffuse'], sd + gd, 'diffuse is sky plus ground')
    S.eq(r['poa_global'], r['poa_direct'] + r['poa_diffuse'], 'global is the sum')
    S.eq(r['poa_sky_diffuse'], sd, 'sky')
    S.eq(r['poa_ground_diffuse'], gd, 'ground')
    S.ge(r['poa_global'], 0, 'never negative')


@spec('P18')
def total(S):
    """composition of the parts"""
    t, az, z, sa = S.real('tilt', 0, 90), S.real('azimuth', 0, 360), S.real('zenith', 0, 89), S.real('solar azimuth', 0, 360)
    dni, ghi, dhi, al = S.real('dni', 0, 1500), S.real('ghi', 0, 1500), S.real('dhi', 0, 1500), S.real('albedo', 0, 1)
    abstract(S, I + 'aoi', lo=0, hi=180)
    r = S.call(I + 'get_total_irradiance', t, az, z, sa, dni, ghi, dhi, albedo=al)
    aoi = S.call(I + 'aoi', t, az, z, sa)
    e = S.call(I + 'poa_components', aoi, dni, S.call(I + 'isotropic', t, dhi), S.call(I + 'get_ground_diffuse', t, ghi, al))
    for k in ('poa_global', 'poa_direct', 'poa_diffuse', 'poa_sky_diffuse', 'poa_ground_diffuse'):
        S.eq(r[k], e[k], k)


@spec('P18')
def relative_airmass(S):
    z, am, P = S.real('zenith', 0, 90), S.real('airmass', 1, 40), S.real('P', 1e4, 1.1e5)
    S.eq(S.call(I + 'get_relative_airmass', z), 1 / (S.m.cos(rad(S, z)) + formula(S, '0.50572*(6.07995 + 90 - z)**(-1.6364)', z=z)), 'Kasten and Young', crtol=1e-6)
    S.eq(S.call(I + 'get_absolute_airmass', am, P) * 101325, am * P, 'scaled by pressure')
    S.eq(S.call(I + 'get_absolute_airmass', am), am, 'standard pressure')
    rejected(S, S.attempt(I + 'get_relative_airmass', z, 'no such model'), 'unknown model')


@spec('P18', params=[True, False])
def clear_sky(S, perez):
    z, am, tl, alt, ex = S.real('zenith', 0, 89), S.real('airmass', .5, 40), S.real('turbidity', 1.5, 8), S.real('altitude', 0, 4000), S.real('dni_extra', 1300, 1420)
    f1, f2 = S.m.exp(-alt / 8000), S.m.exp(-alt / 1250)
    cz = S.m.cos(rad(S, z))
    ghi = formula(S, '(0.0000509*h + 0.868)*E*c*exp(-(0.0000392*h + 0.0387)*m*(f1 + f2*(T - 1)))', h=alt, E=ex, c=cz, m=am, f1=f1, f2=f2, T=tl)
    if perez:
        ghi = ghi * formula(S, 'exp(0.01*m**1.8)', m=am)
    bn = formula(S, 'E*(0.664 + 0.163/f1)*exp(-0.09*m*(T - 1))', E=ex, f1=f1, m=am, T=tl)
    b2 = ghi * formula(S, '(1 - (0.1 - 0.2*exp(-T))/(0.1 + 0.882/f1))/c', T=tl, f1=f1, c=cz)
    S.assume(abs(b2 / bn - 1) > 1e-6)
    r = S.call(I + 'ineichen', z, am, tl, alt, ex, perez)
    S.eq(r['ghi'], ghi, 'global horizontal', crtol=1e-6)
    S.eq(r['dni'], b2 if b2 < bn else bn, 'direct normal, capped by the transmitted global', crtol=1e-6)
    S.eq(r['dhi'], r['ghi'] - r['dni'] * cz, 'diffuse closes the balance')
    S.ge(r['dhi'], 0, 'diffuse is never negative')


@spec('P18')
def night(S):
    z, am, tl, alt = S.real('zenith', 90.001, 180), S.real('airmass', .5, 40), S.real('turbidity', 1.5, 8), S.real('altitude', 0, 4000)
    r = S.call(I + 'ineichen', z, am, tl, alt)
    for k in ('ghi', 'dni', 'dhi'):
        S.eq(r[k], 0, 'nothing below the horizon')
    n = float('nan')
    for a in (S.call(I + 'ineichen', n, am, tl, alt), S.call(I + 'ineichen', z, n, tl, alt)):
        for k in ('ghi', 'dni', 'dhi'):
            S.eq(a[k], 0, 'undefined air mass or zenith')
