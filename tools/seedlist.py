
CO, FR, CR = 'fluids/compressible.py', 'fluids/friction.py', 'fluids/core.py'
HEAD = 'import math\nfrom math import *\nfrom fluids.%s import *\ndef close(a, b, t=1e-6): assert abs(a - b) <= t*abs(b), (a, b)\n'

seed('p01-weymouth-p1-zavg', 'P01', CO, 'return sqrt(L*SG*Tavg*Zavg*(D**(-c4)*Ps*Q/(E*Ts*c5))**(1./c3) + P2**2)',
     'return sqrt(L*SG*Tavg*(D**(-c4)*Ps*Q/(E*Ts*c5))**(1./c3) + P2**2)',
     HEAD % 'compressible' + """
k = dict(D=0.340, P2=9E5, L=160E3, SG=0.693, Tavg=277.15, Zavg=0.87)
Q = Weymouth(P1=90E5, **k)
close(Weymouth(Q=Q, **k), 90E5)
""", 'a compressibility factor other than the default 1', 'the Weymouth inlet pressure no longer reproduces the flow when Zavg != 1')

seed('p01-oliphant-base-conditions', 'P01', CO, 'return Q - Oliphant(SG=SG, Tavg=Tavg, L=L, D=D, P1=P1, P2=P2, Ts=Ts, Ps=Ps, Zavg=Zavg, E=E)',
     'return Q - Oliphant(SG=SG, Tavg=Tavg, L=L, D=D, P1=P1, P2=P2, Ts=Ts, Zavg=Zavg, E=E)',
     HEAD % 'compressible' + """
k = dict(P1=90E5, P2=9E5, L=160E3, SG=0.693, Tavg=277.15, Zavg=0.84, Ps=98000.0)
Q = Oliphant(D=0.34, **k)
close(Oliphant(Q=Q, **k), 0.34)
""", 'a base pressure other than the default and the diameter as the unknown', 'the Oliphant diameter solve ignores the given base pressure')

seed('p03-choke-limit-slack', 'P03', CO, '        if P2 < Pcf:\n            raise ValueError("Given outlet pressure is not physically possible',
     '        if P2 < 0.995*Pcf:\n            raise ValueError("Given outlet pressure is not physically possible',
     HEAD % 'compressible' + """
Pcf = P_isothermal_critical_flow(P=1E6, fd=0.0185, L=1000., D=0.5)
try:
    isothermal_gas(11.3, 0.0185, P1=1E6, P2=0.998*Pcf, L=1000., D=0.5)
except ValueError:
    pass
else:
    raise AssertionError('choked outlet pressure accepted')
""", 'an outlet pressure within half a percent below the choking pressure', 'choked outlet pressures are accepted')

seed('p06-tsal-threshold', 'P06', FR, '    if A >= 0.018:', '    if A >= 0.0175:',
     HEAD % 'friction' + """
Re = 2.0E5
eD = (0.0178/0.11)**4 - 68./Re
close(Tsal_1989(Re, eD), 0.0028 + 0.85*0.0178)
""", 'a point whose intermediate factor lies between 0.0175 and 0.018', 'the Tsal branch point is moved')

seed('p02-inlet-pressure-z', 'P02', CO, 'return P2*(1.0 + W*eta/(R*T1*Z) - W*eta/(R*T1*Z*k))**(-k/(k - 1.0))',
     'return P2*(1.0 + W*eta/(R*T1*Z) - W*eta/(R*T1*k))**(-k/(k - 1.0))',
     HEAD % 'compressible' + """
W = isentropic_work_compression(T1=300., k=1.4, Z=0.9, P1=1E5, P2=1E6, eta=0.8)
close(isentropic_work_compression(T1=300., k=1.4, Z=0.9, W=W, P2=1E6, eta=0.8), 1E5)
""", 'a compressibility factor other than 1 and the inlet pressure as the unknown', 'the inlet pressure no longer reproduces the work of compression')

seed('p04-lewis-incomplete', 'P04', CR, '    if k is not None and Cp is not None and rho is not None:\n        alpha = k/(rho*Cp)\n    elif alpha is None:\n        raise ValueError("Insufficient information provided for Le calculation")',
     '    if alpha is None and rho is not None:\n        alpha = k/(rho*Cp)\n    elif alpha is None:\n        raise ValueError("Insufficient information provided for Le calculation")',
     HEAD % 'core' + """
close(Lewis(D=2E-5, alpha=1., Cp=2000., k=.2, rho=900.), .2/(900.*2000.)/2E-5)
""", 'the diffusivity given along with the material properties', 'the Lewis number no longer prefers the properties over a given thermal diffusivity')

seed('p05-friction-default', 'P05', CR, 'def L_from_K(K: float, D: float, fd: float=0.015) -> float:', 'def L_from_K(K: float, D: float, fd: float=0.0151) -> float:',
     HEAD % 'core' + """
close(L_equiv_from_K(3.6) if 'L_equiv_from_K' in globals() else 240., 240.)
close(L_from_K(K=3.6, D=1.0), 240.)
""", 'leaving the friction factor at its documented default', 'lengths equivalent to a loss coefficient use another friction factor')

seed('p07-martin-angle', 'P07', FR, 'rhs = cos(phi)*1.0/sqrt(0.045*tan(phi) + 0.09*sin(phi) + f0/cos(phi))',
     'rhs = cos(phi)*1.0/sqrt(0.045*tan(phi) + 0.09*sin(phi) + f0)',
     HEAD % 'friction' + """
Re, phi = 50., pi/180*80
f0 = 16./Re
f1 = 149./Re + 0.9625
a = cos(phi)/sqrt(0.045*tan(phi) + 0.09*sin(phi) + f0/cos(phi)) + (1 - cos(phi))/sqrt(3.8*f1)
close(friction_plate_Martin_1999(Re, 80.), 4*a**-2)
""", 'a steep chevron angle in laminar flow', 'the plate friction factor loses the angle dependence of its first term')

FI = 'fluids/fittings.py'
seed('p08-plug-valve-order', 'P08', FI, 'return K_plug_valve_Crane(D1, D2, angle, fd, 0)', 'return K_plug_valve_Crane(D2, D1, angle, fd, 0)',
     HEAD % 'fittings' + """
close(Crane_loss_coefficient(0.05, 0.08, 30., CRANE_PLUG_VALVE_STRAIGHT_THROUGH, 0.02) if 'CRANE_PLUG_VALVE_STRAIGHT_THROUGH' in globals()
      else Crane_loss_coefficient(0.05, 0.08, 30., __import__('fluids').fittings.CRANE_PLUG_VALVE_STRAIGHT_THROUGH, 0.02), K_plug_valve_Crane(0.05, 0.08, 30., 0.02, 0))
""", 'a reduced-bore plug valve selected through the dispatcher', 'the dispatcher swaps seat and pipe diameter of plug valves')

seed('p08-run-converging-ratio', 'P08', FI, "    F = interp(angle, run_converging_Crane_angles, run_converging_Crane_Fs)\n    K = C*(1. + D*(Q_ratio/beta2)**2 - E*(1. - Q_ratio)**2 - F/beta2*Q_ratio**2)",
     "    F = interp(angle, run_converging_Crane_angles, run_converging_Crane_Fs)\n    K = C*(1. + D*(Q_ratio/beta2)**2 - E*(1. - Q_ratio)**2 - F/beta*Q_ratio**2)",
     HEAD % 'fittings' + """
q = 0.3
close(K_run_converging_Crane(0.1, 0.05, 0.7, 0.3, 45.), 1. - (1 - q)**2 - 1.41/0.25*q**2)
""", 'a branch smaller than the run at an angle below 75 degrees', 'the run loss uses the diameter ratio instead of the area ratio')

seed('p09-bend-ito-threshold', 'P09', FI, 'if rc/Di < 9.85 else 1.0', 'if rc/Di <= 10.0 else 1.0',
     HEAD % 'fittings' + """
from fluids.fittings import bend_rounded_Ito
Di, rc, Re, ang = .5, .5*9.9, 1E6, 90.
K = bend_rounded_Ito(Di=Di, angle=ang, Re=Re, rc=rc)
close(K, 0.00431*ang*Re**-0.17*(rc/Di)**0.84)
""", 'a bend radius between 9.85 and 10 diameters', 'the published limit of the 90 degree bend factor is moved')

FM = 'fluids/flow_meter.py'
seed('p10-beta-solve-tap', 'P10', FM, "def err_dp_meter_solver_D2(D2: float, D: float, m: float, P1: float, P2: float, rho: float, mu: float, k: float, meter_type: str, taps: str | None, tap_position: str | None, C_specified: float | None, epsilon_specified: float | None) -> float:\n    C, epsilon = differential_pressure_meter_C_epsilon(D, D2, m, P1, P2, rho,\n                                                  mu, k, meter_type,\n                                                  taps=taps, tap_position=tap_position, C_specified=C_specified,",
     "def err_dp_meter_solver_D2(D2: float, D: float, m: float, P1: float, P2: float, rho: float, mu: float, k: float, meter_type: str, taps: str | None, tap_position: str | None, C_specified: float | None, epsilon_specified: float | None) -> float:\n    C, epsilon = differential_pressure_meter_C_epsilon(D, D2, m, P1, P2, rho,\n                                                  mu, k, meter_type,\n                                                  taps=taps, C_specified=C_specified,",
     HEAD % 'flow_meter' + """
k = dict(D=0.2, P1=2E5, P2=1.9E5, rho=950., mu=1E-3, k=1.3, meter_type='Miller eccentric orifice', taps='flange', tap_position='90 degree')
m = differential_pressure_meter_solver(D2=0.1, **k)
close(differential_pressure_meter_solver(m=m, **k), 0.1)
""", 'an eccentric orifice with side taps and the bore as the unknown', 'the bore solve ignores the tap position')

DR = 'fluids/drag.py'
seed('p11-stokes-limit', 'P11', DR, 'if Re_lam < 0.01 or Method == "Stokes":', 'if Re_lam < 0.02 or Method == "Stokes":',
     HEAD % 'drag' + """
D, rp, r, mu = 1E-4, 1000., 900., 4.2E-4*2
while True:
    vl = 9.80665*D*D*(rp - r)/(18*mu)
    if vl*r*D/mu < .018: break
    mu *= 1.01
assert vl*r*D/mu > .0155
v = v_terminal(D=D, rhop=rp, rho=r, mu=mu)
close(v, (4/3.*9.80665*D*(rp - r)/r/drag_sphere(r*v*D/mu))**.5, 1e-5)
""", 'a particle with a laminar Reynolds number between 0.01 and 0.02', 'the terminal velocity no longer balances the drag of the sphere')

PB = 'fluids/packed_bed.py'
seed('p12-wall-correction', 'P12', PB, 'B = 1 - pi*pi*dp/24/Dt*(1 - dp/(2.0*Dt))', 'B = 1 - pi*pi*dp/24/Dt*(1 - dp/(2.0*Dt)) if dp < 0.1*Dt else 1.0',
     HEAD % 'packed_bed' + """
dp, e, vs, rho, mu, Dt = .01, .4, .02, 1000., 1E-3, .06
Re = dp*rho*vs/mu; h = 1 - e
A = (1 + pi*dp/(6*h*Dt))**2
B = 1 - pi**2*dp/24/Dt*(1 - dp/(2*Dt))
close(Harrison_Brunner_Hecker(dp, e, vs, rho, mu, 1.0, Dt), (119.8*A + 4.63*B*(Re/h)**(5/6.))*h*h/(e**3*Re)*rho*vs*vs/dp)
""", 'a particle larger than a tenth of the tube', 'the wall correction of the inertial term is dropped for narrow tubes')

OF = 'fluids/open_flow.py'
seed('p13-shen-head', 'P13', OF, 'return C*tan(radians(angle)/2)*sqrt(g)*(h1 + k)**2.5', 'return C*tan(radians(angle)/2)*sqrt(g)*(max(h1, 0.06) + k)**2.5',
     HEAD % 'open_flow' + """
a, b, c = Q_weir_V_Shen(0.03, 45), Q_weir_V_Shen(0.05, 45), Q_weir_V_Shen(0.07, 45)
assert a < b < c
""", 'a head below 6 cm', 'the weir flow no longer falls with the head')

seed('p15-tee-branch', 'P15', 'fluids/mixing.py', 'E = 1.75 + 0.95*log(B/0.8)**1.8', 'E = 1.75 + 0.95*log(B/0.7)**1.8',
     HEAD % 'mixing' + """
Q1, Q2, D, D2 = 10., 4., 0.6, 0.3
V1, V2 = Q1/(pi/4*D**2), Q2/(pi/4*D2**2)
B = 9*(D2/D)**2*(V2/V1)**2
close(size_tee(Q1, Q2, D, D2, n=3), sqrt(0.32/B**0.86*5.**-(1.75 + 0.95*log(B/0.8)**1.8)))
""", 'three side streams in a strong jet', 'the mixing exponent of three side streams is wrong')

seed('p16-grill-length', 'P16', 'fluids/filters.py', '    if Dh is not None and l is not None and fd is not None and l > 50.0*Dh:', '    if Dh is not None and l is not None and fd is not None and l >= 40.0*Dh:',
     HEAD % 'filters' + """
al, Dh, fd = .5, .01, .02
x = 0.5*(1 - al) + 1 - al**2
close(square_edge_grill(alpha=al, l=.45, Dh=Dh, fd=fd), x/al**2)
""", 'a grill between 40 and 50 hydraulic diameters thick', 'the friction term is added to grills for which it is documented not to be')

SV = 'fluids/safety_valve.py'
seed('p17-sixteen-percent', 'P17', SV, 'overpressure == 0.16 and gauge_backpressure < 38.0) or (', 'overpressure == 0.16 and gauge_backpressure <= 40.0) or (',
     HEAD % 'safety_valve' + """
atm = 101325.0
assert API520_B(atm + 1E6, atm + 3.99E5, 0.16) < 0.9999
""", 'a back pressure between 38 and 40 percent at 16 percent overpressure', 'the back pressure correction is left out up to 40 percent')

AT = 'fluids/atmosphere.py'
seed('p18-layer-boundary', 'P18', AT, '            if Hi >= H :\n                return ind - 1\n        return 7', '            if Hi >= H :\n                return ind - 1\n        return 6',
     HEAD % 'atmosphere' + """
a = ATMOSPHERE_1976(86000.)
close(a.T, 186.946, 1e-9)
""", 'an altitude above 84.852 km geopotential', 'the top layer continues the lapse of the layer below')

seed('p19-ryans-range', 'P19', 'fluids/jet_pump.py', '    elif P_vacuum < 100:\n        air_leakage = 0.032*P_vacuum**0.26*V**0.6', '    elif P_vacuum < 110:\n        air_leakage = 0.032*P_vacuum**0.26*V**0.6',
     HEAD % 'jet_pump' + """
t = 101325.0/760
close(vacuum_air_leakage_Ryans_Croll(V=10., P=101325. - 105*t), vacuum_air_leakage_Ryans_Croll(V=10., P=101325. - 300*t))
""", 'a vacuum between 100 and 110 torr', 'the medium vacuum correlation is used beyond its range')

TV = 'fluids/two_phase_voidage.py'
seed('p20-rouhani-gravity', 'P20', TV, 'C0 = 1.0 + 0.2*(1.0-x)*sqrt(sqrt(g*D))*sqrt(rhol/G)\n    vgm = 1.18*(1.0-x)/sqrt(rhol)*sqrt(sqrt(g*sigma*(rhol-rhog)))',
     'C0 = 1.0 + 0.2*(1.0-x)*sqrt(sqrt(9.80665*D))*sqrt(rhol/G)\n    vgm = 1.18*(1.0-x)/sqrt(rhol)*sqrt(sqrt(g*sigma*(rhol-rhog)))',
     HEAD % 'two_phase_voidage' + """
x, rl, rg, s, m, D, g = .4, 800., 2.5, .05, 1., .3, 3.7
G = m/(.25*pi*D*D)
C0 = 1 + .2*(1 - x)*(g*D)**.25*(rl/G)**.5
v = 1.18*(1 - x)/rl**.5*(g*s*(rl - rg))**.25
close(Rouhani_2(x, rl, rg, s, m, D, g), x/rg/(C0*(x/rg + (1 - x)/rl) + v/G))
""", 'a local gravity other than standard', 'the distribution parameter ignores the given gravity')

seed('p21-gronnerud-froude', 'P21', 'fluids/two_phase.py', 'f_Fr = Frl**0.3 + 0.0055*term*term', 'f_Fr = min(1.0, Frl**0.3 + 0.0055*term*term)',
     HEAD % 'two_phase' + """
m, x, rl, rg, ml, mg, D = 0.0002, .3, 915., 2.67, 180E-6, 14E-6, .05
G = m/(pi/4*D*D); Fr = (G/rl)**2/(9.80665*D)
f = Fr**.3 + .0055*log(1/Fr)**2
d = f*(x + 4*(x**1.8 - x**10*f**.5))
phi = 1 + d*(rl/rg/(ml/mg)**.25 - 1)
V = G/rl; Re = rl*V*D/ml
assert f > 1
close(Gronnerud(m, x, rl, rg, ml, mg, D), phi*64./Re/D*.5*rl*V*V)
""", 'a very small liquid Froude number', 'the Froude friction term is capped where the published one is not')

CV = 'fluids/control_valve.py'
seed('p22-trim-cap', 'P22', CV, 'n2 = 1 + N32*(C/d**2)**(2/3.)', 'n2 = 1 + N32*(min(C/d**2, 0.04))**(2/3.)',
     HEAD % 'control_valve' + """
FL, C, d, Re = .9, 150., 50., 3000.
from fluids.control_valve import N32
n2 = 1 + N32*(C/d**2)**(2/3.)
close(Reynolds_factor(FL, C, d, Re, full_trim=False), min(1 + .33*FL**.5/n2**.25*log10(Re/1E4), .026/FL*(n2*Re)**.5, 1.))
""", 'a large reduced-trim valve', 'the full trim capacity limit is applied to reduced trims')

seed('p23-gauge-tolerance', 'P23', 'fluids/piping.py', 'if (t_inch - smaller) <= tol*(larger - smaller):', 'if (t_inch - smaller) <= tol*larger:',
     HEAD % 'piping' + """
a, b = t_from_gauge(10, False, 'BWG'), t_from_gauge(11, False, 'BWG')
assert gauge_from_t(b + .12*(a - b), False, 'BWG') == 10
""", 'a thickness slightly more than a tenth of the gap above a gauge', 'a wire thinner than requested is selected')

GE = 'fluids/geometry.py'
seed('p24-concave-split', 'P24', GE, '    elif a2 <= h < a1 + a2:\n        Vf = 0.25*pi*D*D*h - V1(a1+a2) + V2(a1+a2-h)', '    elif a2 <= h < a1 + 0.9*a2:\n        Vf = 0.25*pi*D*D*h - V1(a1+a2) + V2(a1+a2-h)',
     HEAD % 'geometry' + """
D, f, k = 113., .71, .081
al = asin((1 - 2*k)/(2*(f - k)))
a = f*D*(1 - cos(al)) + k*D*cos(al)
h = a*.98
close(V_vertical_torispherical_concave(D, f, k, h), V_vertical_torispherical_concave(D, f, k, a) - .25*pi*D*D*(a - h) + pi*(a - h)**2*(f*D - (a - h)/3))
""", 'a level just below the top of a concave torispherical head', 'the volume jumps to that of the completely covered head')

seed('p25-side-b-factors', 'P25', GE, '            sideB_SA = SA_torispheroidal(D=D, f=sideB_f, k=sideB_k)', '            sideB_SA = SA_torispheroidal(D=D, f=sideB_f, k=sideA_k if sideA_k is not None else sideB_k)',
     HEAD % 'geometry' + """
close(SA_tank(2., 3., 'torispherical', 'torispherical', sideA_f=1., sideA_k=.06, sideB_f=.9, sideB_k=.1)[2], SA_torispheroidal(2., .9, .1))
""", 'two torispherical heads with different knuckle factors', 'the second head takes the knuckle factor of the first')

seed('p26-diagonal-pitch', 'P26', GE, 'self.A_min_per_bundle = min(self.A_diagonal_per_bundle, self.A_normal_per_bundle)', 'self.A_min_per_bundle = self.A_normal_per_bundle',
     HEAD % 'geometry' + """
A = AirCooledExchanger(tube_rows=4, tube_passes=4, tubes_per_row=8, tube_length=10., tube_diameter=.025, fin_thickness=.0004, pitch_normal=.09, pitch_parallel=.03,
                       fin_height=.012, fin_density=400., parallel_bays=1, bundles_per_bay=1, fans_per_bay=1)
assert A.A_diagonal_per_bundle < A.A_normal_per_bundle
close(A.A_min_per_bundle, A.A_diagonal_per_bundle)
""", 'a flat layout whose diagonal gaps are the narrowest', 'the minimum flow area ignores the diagonal gaps')
