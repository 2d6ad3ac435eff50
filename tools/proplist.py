prop('P01', 'Gas pipeline flow equations are consistent whichever variable is solved for',
     'For each of the isothermal gas pipeline equations (Panhandle A and B, Weymouth, Spitzglass high and low pressure, Oliphant, Fritzsche, Mueller, IGT), computing the flow from length, diameter and the two pressures and then asking the same equation for any one of those four quantities, given the flow and the other three, returns the original quantity (for a diameter solved iteratively: a diameter that reproduces the flow). The computed flow is positive whenever the upstream pressure exceeds the downstream pressure, and a call that leaves out two of the five quantities is rejected with ValueError.',
     'all positive lengths, diameters, pressures P1 > P2, gravities, temperatures, compressibilities, efficiencies, base conditions (and viscosities) in wide physical ranges',
     'tests check one or two numeric points per equation and solved-for variable; the inverse relation must hold on a continuum of up to ten real arguments',
     ['fluids/compressible.py'], [('closed-form rearrangements and numeric solves for each missing variable', 'fluids/compressible.py: Panhandle_A ... IGT')])
prop('P02', 'Compression, expansion and stagnation relations invert each other',
     'Isentropic compression work, outlet temperature and pressure, efficiencies, the polytropic exponent and the stagnation relations are mutually consistent: feeding a computed result back to recover any omitted input returns that input, and isentropic efficiency and polytropic exponent conversions are inverse. Work is positive for compression, the critical pressure ratio lies strictly between 0 and 1, and underspecified calls are rejected.',
     'all pressures, temperatures, exponents k>1, efficiencies in (0,1], compressibilities and Mach numbers in wide physical ranges',
     'tests sample single points for each solve-for mode',
     ['fluids/compressible.py'], [('algebraic rearrangement per omitted argument', 'fluids/compressible.py')])
prop('P03', 'Isothermal pipe flow: all solve-for modes satisfy one flow equation',
     'Every mode of the isothermal gas pipe flow calculation returns a value that, with the other given quantities, satisfies the same isothermal momentum balance; the choke-point pressures satisfy the choking condition; subsonic results respect the choke limit or an exception is raised, and underspecified calls are rejected.',
     'all friction factors, densities, diameters, lengths, pressures in wide physical ranges',
     'tests sample a handful of points per mode',
     ['fluids/compressible.py'], [('isothermal_gas and choke pressures via Lambert W / secant', 'fluids/compressible.py')])
prop('P04', 'Dimensionless groups equal their definitions for every accepted input form',
     'Each dimensionless group returns its defining combination of physical properties, and when a group accepts alternative property sets (kinematic viscosity or dynamic viscosity with density, thermal diffusivity or conductivity with density and heat capacity) equivalent sets give the same value.',
     'all positive property values',
     'tests compare one numeric value per group and input form',
     ['fluids/core.py'], [('dimensionless groups', 'fluids/core.py')])

prop('P05', 'Loss coefficients, heads, viscosities and temperatures convert consistently',
     'Loss coefficient, equivalent length and friction factor conversions, pressure drop and head conversions, and dynamic/kinematic viscosity conversions are mutually inverse and agree with one another; every pair of temperature scale converters round-trips, composes through any third scale and maps absolute zero and the ice point correctly. Standard gravity by latitude and altitude is symmetric about the equator, increases towards the poles and decreases with altitude.',
     'all positive loss coefficients, lengths, diameters, friction factors, densities, velocities; all temperatures; all latitudes and altitudes',
     'tests compare single numeric points per converter',
     ['fluids/core.py'], [('converters', 'fluids/core.py: K_from_f ... P_from_head, nu_mu_converter, gravity; C2K ... R2F')])

prop('P06', 'Straight-pipe friction factors match the published correlations and Colebrook',
     'Each named straight-pipe friction factor correlation evaluates its published formula, and those with a published accuracy stay within it of the Colebrook equation over their range; the exact, iterative and direct Colebrook solutions satisfy the Colebrook equation. Requesting a friction factor by method name returns exactly that correlation above the laminar limit and 64/Re below it, the list of applicable methods contains a correlation exactly when the point lies in its documented range, and unknown names are rejected. Single-phase friction, gravity and acceleration pressure drops equal their defining formulas for every input.',
     'all Reynolds numbers (laminar and turbulent up to 1e8-1e9), all relative roughnesses 0 to 0.05 (0.1), all densities, viscosities, diameters, flows, lengths, angles in wide physical ranges',
     'tests compare a few points per correlation; accuracy over a two-dimensional continuum and dispatch over every name cannot be sampled exhaustively',
     ['fluids/friction.py'], [('explicit correlations', 'fluids/friction.py: Moody ... Fang_2011'), ('Colebrook and Clamond solutions', 'fluids/friction.py: Colebrook, Clamond'), ('dispatcher and range table', 'fluids/friction.py: friction_factor, friction_factor_methods, fmethods'), ('single-phase pressure drops', 'fluids/friction.py: one_phase_dP, one_phase_dP_gravitational, one_phase_dP_acceleration')])

prop('P07', 'Coiled-tube and plate-exchanger friction and roughness match their sources',
     'Every helical-coil transition criterion, laminar and turbulent friction correlation and plate-exchanger friction correlation evaluates its documented formula, with curvature never reducing friction below the straight tube for the documented laminar and straight-tube-multiplier correlations. The curved friction dispatcher returns exactly the named correlation (a quarter of it for Fanning), chooses laminar or turbulent by the requested transition criterion and rejects unknown names. Roughness lookups return the documented Farshad formula or the tabulated values ordered optimistic to pessimistic.',
     'all Reynolds numbers, tube and coil diameters, chevron angles, enlargement factors, roughnesses in the stated ranges; every correlation name, criterion and tabulated material',
     'tests sample a point or two per correlation; regimes and names multiply over a continuum',
     ['fluids/friction.py'], [('coil and plate correlations, dispatcher', 'fluids/friction.py: helical_*, friction_factor_curved, friction_plate_*'), ('roughness tables', 'fluids/friction.py: roughness_Farshad, material_roughness')])
prop('P08', 'Valve, tee and tabulated fitting losses match their sources; K, Kv, Cv convert',
     'K, Kv and Cv convert into each other without loss and loss coefficients change diameter basis with the same pressure drop. Each Crane valve, 2-K and 3-K tabulated fitting and Crane tee or wye evaluates its published formula for every size, reduction, angle and flow split, valve losses are positive, and the fully turbulent friction factor of the pipe is used by default. The general Crane valve entry point equals the named valve, and unknown names, styles and missing coefficients are rejected.',
     'all sizes, reductions, seat and branch angles, friction factors, flow splits, Reynolds numbers in wide ranges; every valve style and tabulated fitting',
     'tests compare one point per valve; branch points in size, angle and flow split are not sampled',
     ['fluids/fittings.py'], [('valves', 'fluids/fittings.py: K_*_valve_Crane, Crane_loss_coefficient, v_lift_valve_Crane'), ('tees', 'fluids/fittings.py: K_branch_converging_Crane ... K_branch_diverging_Crane'), ('2-K/3-K, Kv/Cv/K', 'fluids/fittings.py: Hooper2K, Darby3K, Cv_to_K ...')])
prop('P09', 'Entrance, bend, contraction and expansion losses match their sources',
     'Each entrance, rounded, mitred and coiled bend, sharp, rounded, beveled and conical contraction and expansion loss evaluates its published formula or table for the selected method, depends on length ratios only, and gives the same result whether a radius or a number of diameters, a length or an angle, a friction factor or a Reynolds number and roughness is supplied. Chart-based methods clip to the chart limits, defaults equal the documented method and geometry, and unknown methods or missing data are rejected.',
     'all diameters, radii, lengths, angles, Reynolds numbers, friction factors and roughnesses in wide ranges; every method name',
     'tests compare a point or two per method and rarely compare alternative input forms',
     ['fluids/fittings.py'], [('entrances', 'fluids/fittings.py: entrance_*'), ('bends', 'fluids/fittings.py: bend_*, helix, spiral, Miller corrections'), ('contractions and expansions', 'fluids/fittings.py: contraction_*, diffuser_*')])
prop('P10', 'Flow meter equations, type dispatch and solver agree with the standards',
     'Discharge coefficients, expansibility factors, diameter ratios and permanent pressure losses of orifices, nozzles, venturis, cones, wedges and wet-gas venturis evaluate their published equations, and discharge and loss coefficients are two forms of one relation. Every meter type and alias uses its own coefficient, expansibility, diameter ratio and loss, a specified coefficient or expansibility replaces only itself, and unknown types, taps and missing coefficients are rejected. The meter solver returns, for any one unknown, a value that satisfies the discharge equation with the others.',
     'all diameters, diameter ratios, pressures, isentropic exponents, densities, viscosities, flow rates (Re 1e2 to 1e8) in wide ranges; every meter type, tap and option',
     'tests compare single points per meter; the solver and the dispatch multiply over types, options and a continuum',
     ['fluids/flow_meter.py'], [('coefficients and expansibility', 'fluids/flow_meter.py: C_*, orifice_expansibility, nozzle_expansibility, cone_meter_expansibility_Stewart'), ('losses', 'fluids/flow_meter.py: dP_*, differential_pressure_meter_dP, discharge_coefficient_to_K'), ('dispatch and solver', 'fluids/flow_meter.py: differential_pressure_meter_C_epsilon, differential_pressure_meter_solver')])

prop('P11', 'Sphere drag correlations, terminal velocity and falling time match their sources',
     'Each named sphere drag coefficient correlation evaluates its published formula in every Reynolds range, and requesting it by name returns exactly that correlation; without a name the documented default for the Reynolds number is used, the list of applicable methods follows the documented ranges, drag is positive, and unknown names are rejected. The terminal velocity balances drag and buoyant weight, and the Stokes-regime fall obeys its closed-form velocity and distance, while any other fall integrates weight less buoyancy and drag from the initial velocity over the given time.',
     'all Reynolds numbers in the documented range of each correlation; all particle diameters, densities, viscosities, times in wide ranges; every correlation name',
     'tests compare a point or two per correlation; piecewise ranges and the implicit solve cannot be sampled exhaustively',
     ['fluids/drag.py'], [('correlations', 'fluids/drag.py: Stokes ... Song_Xu'), ('dispatch', 'fluids/drag.py: drag_sphere, drag_sphere_methods'), ('settling', 'fluids/drag.py: v_terminal, time_v_terminal_Stokes, integrate_drag_sphere')])

prop('P12', 'Packed bed, demister and packed tower pressure drops match their sources',
     'Each packed bed pressure drop and voidage correlation, demister pressure drop and separation efficiency and packed column pressure drop evaluates its published equation, including wall corrections and unit conversions; the irrigated column pressure drop satisfies its implicit equation and separation efficiency never exceeds one. Bed pressure drop is positive and rises with velocity and viscosity. Requesting a bed correlation by name returns exactly that correlation on the sphericity-scaled diameter, the default depends only on whether a tube diameter is given, the methods offered follow the data given, and unknown names are rejected.',
     'all particle diameters, voidages, velocities, densities, viscosities, depths, tube diameters in wide physical ranges; every correlation name; gas and liquid rates below flooding for irrigated columns',
     'tests compare one or two points per correlation',
     ['fluids/packed_bed.py', 'fluids/packed_tower.py'], [('bed correlations and dispatch', 'fluids/packed_bed.py'), ('demisters and columns', 'fluids/packed_tower.py: dP_demister_*, separation_demister_ElDessouky, Stichlmair_dry, Stichlmair_wet, Robbins')])

prop('P15', 'Mixing, pneumatic conveying and gas-liquid separator sizing match their sources',
     'Agitator, ribbon, tee and motionless mixer correlations, pneumatic saltation velocities and Souders-Brown separator factors evaluate their published equations, with each saltation velocity satisfying the implicit relation between solids loading and Froude number it rearranges. The published branch conditions select the equation used, a stronger jet never mixes worse and a larger solids flow never needs less gas. Defaults equal the documented values and unsupported jet counts and methods are rejected.',
     'all flows, diameters, particle sizes, densities, viscosities, speeds, pressures in wide physical ranges; both sides of every published branch point; pressures within 1e-6 psi of the York branch points are excluded',
     'tests compare one point per correlation',
     ['fluids/mixing.py', 'fluids/saltation.py', 'fluids/separator.py'], [('mixers', 'fluids/mixing.py'), ('saltation velocities', 'fluids/saltation.py'), ('Souders-Brown factors', 'fluids/separator.py')])

prop('P16', 'Pump, motor, drive, screen and grill values match their sources and tables',
     'Pump and motor efficiency fits, specific speed and diameter, synchronous speed and ideal current equal their published formulas; standard motor sizing returns the smallest standard size that suffices and rejects powers no single motor supplies. Minimum motor efficiencies equal the tabulated values with linear interpolation and constant ends, underloaded efficiency follows the curve of its size class, and drive efficiency clamps to the limits of its table. Screen, mesh and grill loss coefficients equal their published formulas and interpolated tables for every angle, with friction added only for long grills.',
     'all powers, loads, flows, heads, speeds, open area ratios, Reynolds numbers, angles (away from table nodes by 1e-9); every motor class, pole count and mesh type; drive and grill table nodes by enumeration',
     'tests sample a few powers per table',
     ['fluids/pump.py', 'fluids/filters.py'], [('efficiencies and sizing', 'fluids/pump.py'), ('screens and grills', 'fluids/filters.py')])

prop('P13', 'Weir flows and open channel velocities match their sources and convert',
     'Each sharp-crested weir equation and the triangular weir with its interpolated coefficients equals its documented form, is positive and rises with head within its applicable range. Manning and Chezy velocities equal their definitions, their coefficients convert into each other without loss and give the same velocity, and rougher channels are slower. Tabulated Manning coefficients are ordered least, usual, largest.',
     'all heads, depths, widths, notch angles, hydraulic radii, slopes and coefficients in wide ranges; the full-channel Kindsvater-Carter weir is checked against the form it is coded in, as its documentation repeats the Rehbock equation',
     'tests compare one point per equation',
     ['fluids/open_flow.py'], [('weirs', 'fluids/open_flow.py: Q_weir_*'), ('channels', 'fluids/open_flow.py: V_Manning, V_Chezy, n_Manning_to_C_Chezy, C_Chezy_to_n_Manning')])

prop('P17', 'Relief valve sizing and flare noise match API 520/521 with their limits',
     'Relief valve areas for gas, steam and liquid equal the published equations with the documented defaults, the gas equation switching from critical to subcritical exactly at the critical pressure ratio and the liquid viscosity factor taken from the area without it. Capacity, superheat, backpressure and viscosity factors equal their published formulas or interpolated tables, are one below their thresholds, never exceed one, and requests outside the tables, unknown editions and other overpressures are rejected; orifice selection returns the smallest standard area that suffices. Flare noise follows the published lines with pressure ratio, power and distance.',
     'all flows, temperatures, pressures, isentropic exponents, molecular weights, factors in wide ranges; both editions; superheat table by enumeration of its nodes and cell centres; 1e-7 around table nodes excluded',
     'tests compare a few points per function and rarely cross thresholds',
     ['fluids/safety_valve.py'], [('factors', 'fluids/safety_valve.py: API520_C, F2, N, SH, B, W, Kv'), ('areas', 'fluids/safety_valve.py: API520_A_g, API520_A_steam, API520_A_l, API520_round_size'), ('noise', 'fluids/safety_valve.py: API521_noise, API521_noise_graph, VDI_3732_*')])

prop('P18', 'Standard atmosphere and solar irradiance follow their published models',
     'The 1976 standard atmosphere returns in every layer the published temperature profile and hydrostatic pressure, with gas law density, sound speed, viscosity, conductivity and gravity by their published equations and optional temperature offset, and pressure differences integrate weight along the path. Relative air mass and refraction integrals integrate the published integrands. Plane-of-array irradiance is the sum of its beam, sky and ground parts by the published isotropic model, and clear-sky irradiance follows the published Ineichen equations.',
     'all heights from -2 km to 86 km (1e-6 around layer boundaries excluded), temperature offsets, zenith, tilt and azimuth angles, albedos, turbidities and pressures in wide ranges',
     'tests compare tabulated heights and single sun positions',
     ['fluids/atmosphere.py', 'fluids/optional/irradiance.py'], [('standard atmosphere', 'fluids/atmosphere.py: ATMOSPHERE_1976'), ('air mass', 'fluids/atmosphere.py: airmass'), ('irradiance', 'fluids/optional/irradiance.py; fluids/atmosphere.py: solar_irradiation')])

prop('P19', 'Liquid jet pumps and vacuum air leakage satisfy their published balances',
     'The jet pump energy balance solves for any one of its six variables so that the balance holds, and the pressure ratio equation so that its residual is zero; wrong numbers of unknowns are rejected. A pump solution keeps every given value, satisfies both equations (explicitly when the outlet pressure is unknown, else within 1e-5 in total) and reports consistent flow, area, diameter and pressure ratios and efficiency. Vessel leakage equals each published correlation, fit or table with its range switches, default surroundings and minimum volume, and the tight-vessel fit never falls with volume or vacuum.',
     'all diameters, flows, densities, losses, pressures in wide ranges; every pair of unknowns; any proposal of the nonlinear solver with positive efficiency; 1e-6 around leakage range limits excluded',
     'tests solve a few pumps and compare one leakage point per correlation',
     ['fluids/jet_pump.py'], [('jet pump', 'fluids/jet_pump.py: liquid_jet_pump, liquid_jet_pump_ancillary, liquid_jet_pump_pressure_ratio'), ('leakage', 'fluids/jet_pump.py: vacuum_air_leakage_*')])

prop('P20', 'Two-phase void fractions and viscosities match their sources and limits',
     'Each void fraction correlation, the Lockhart-Martinelli parameter, the void-density conversion and each mixture viscosity definition evaluates its published equation in every range, and the bounded correlations lie between 0 and 1, the slip correlations never exceed the homogeneous value, the simple ones never fall with quality, and viscosities become the pure-phase values at the limits. Requesting a correlation by name returns exactly that correlation from exactly the data it needs (missing data is rejected), with homogeneous and McAdams as defaults and unknown names rejected. The methods offered are exactly those whose data are all given.',
     'all qualities 1e-4 to 0.9999, densities with ratio up to 0.9, viscosities, rates, diameters, surface tensions, pressures, inclinations and local gravities in wide ranges; every subset of optional data; range limits excluded by 1e-3 or less',
     'tests compare one or two points per correlation',
     ['fluids/two_phase_voidage.py'], [('correlations', 'fluids/two_phase_voidage.py: Thom ... Woldesemayat_Ghajar, Lockhart_Martinelli_Xtt'), ('viscosities', 'fluids/two_phase_voidage.py: Beattie_Whalley ... Duckler'), ('dispatch', 'fluids/two_phase_voidage.py: liquid_gas_voidage, gas_liquid_viscosity and their method lists')])
prop('P21', 'Two-phase pressure drops, flow regimes and their dispatch match the sources',
     'Each two-phase pressure drop correlation evaluates its published equation in every branch with the friction factors of the library at the stated Reynolds numbers and relative roughness, and the acceleration and gravity terms are the momentum change and the weight of the mixture. The Beggs-Brill flow map, transition weighting and holdup, the Taitel-Dukler groups and regimes and the Mandhane map assign every flow the published regime. Requesting a correlation by name returns exactly that correlation from exactly the data it needs (missing data and unknown names are rejected), the automatic choice follows the documented order, and the methods offered are exactly those whose data are all given.',
     'all rates, qualities 1e-3 to 0.999, densities, viscosities, tensions, diameters, pressures, inclinations and roughnesses in wide ranges; every subset of optional data; range limits excluded by 1e-3 or less',
     'tests compare one or two points per correlation and regime',
     ['fluids/two_phase.py'], [('correlations', 'fluids/two_phase.py: Beggs_Brill ... Lockhart_Martinelli'), ('terms', 'fluids/two_phase.py: two_phase_dP_acceleration ... two_phase_dP_dz_gravitational'), ('dispatch', 'fluids/two_phase.py: two_phase_dP, two_phase_dP_methods'), ('regimes', 'fluids/two_phase.py: Taitel_Dukler_regime, Mandhane_Gregory_Aziz_regime')])
prop('P22', 'Control valve sizing, choking, characteristics and noise follow IEC 60534',
     'Liquid and gas sizing return the published flow coefficient in every branch with the documented defaults, choking exactly beyond the published limit (which the choking pressures invert), the valve Reynolds number, Reynolds number factor, piping loss, piping geometry factors and 30 % laminar steps being the published ones, and with fittings the first iterate within 1 % of its successor; incomplete diameters are rejected. Flow coefficients convert between Kv, Cv and Av consistently, unknown scales are rejected, and the valve characteristics pass through the published points and rise from closed to open. The predicted external noise of a liquid valve is the A-weighted band sum of IEC 60534-8-4, turbulent and cavitating.',
     'all pressures, flows, densities, viscosities, recovery and style factors, sizes in wide ranges; fittings and laminar loops to a stated number of steps, noise by sampling (bounded); 1e-9 around branch points excluded; full-trim Reynolds factor above its cap excluded (known finding)',
     'tests compare the worked examples of the standard and miss most combinations of choking, fittings and laminar flow',
     ['fluids/control_valve.py'], [('sizing', 'fluids/control_valve.py: size_control_valve_l, size_control_valve_g'), ('factors', 'fluids/control_valve.py: Reynolds_valve, Reynolds_factor, loss_coefficient_piping, FF_critical_pressure_ratio_l, is_choked_turbulent_*, control_valve_choke_P_*'), ('noise', 'fluids/control_valve.py: control_valve_noise_l_2015')])
prop('P23', 'Standard pipe and wire gauge lookups return consistent published sizes',
     'For every schedule and any requested inner or outer diameter, the pipe lookup returns the complete row of the smallest pipe of that schedule at least that large and rejects larger requests, unknown schedules and unknown nominal sizes; every tabulated pipe is found by its nominal size and own diameters, its outer diameter being its inner diameter and two walls, sizes ascending, steel outer diameters shared between schedules, walls not falling with schedule number nor below the dimension ratio, and metric and inch editions agreeing. Wire gauges convert to thickness and back exactly in both units, thicknesses fall with gauge, an intermediate thickness takes the larger gauge unless the smaller is within a tenth of the difference, and too large or unknown inputs are rejected. The erosional velocity equals the API 14E equation.',
     'all diameters 0.1 mm to 4 m in each of the 86 schedules, every table row by enumeration, all intermediate wire thicknesses in each gauge system; 1e-9 around tabulated values excluded; four listed known findings excluded',
     'tests look up a handful of sizes',
     ['fluids/piping.py'], [('pipes', 'fluids/piping.py: nearest_pipe, schedule_lookup'), ('wires', 'fluids/piping.py: gauge_from_t, t_from_gauge'), ('erosion', 'fluids/piping.py: erosional_velocity')])
prop('P24', "Liquid volumes in tanks follow from the tank's geometry at every level",
     'For conical, ellipsoidal, guppy, spherical (up to a hemisphere) and torispherical heads, convex or (vertical, all but guppy) concave, the volume is zero when empty or below, grows with level exactly by the area of the liquid surface without jumps where pieces meet, and reaches the full head plus body, levels above the tank counting as full; horizontal torispherical and shallow spherical heads are the integral of their slices. Partly full spheres, circles and cylinder walls obey the same rule, and the level of a circular segment is recovered from its area for every fill. A tank volume, total or at a level, is the sum of its two heads and body for every pair of heads and orientation, vertical torispherical heads needing only their dish and knuckle factors, and unknown heads or missing factors are rejected.',
     'all diameters, lengths, head depths from 0.02 to 3 radii (spherical to one), dish and knuckle factors, and levels; 1e-2 (horizontal) around half full and full excluded for the rate, the ends covered by their limits; horizontal spherical heads deeper than a hemisphere and guppy heads of vertical tanks not covered',
     'tests compare published volumes at a few levels per head',
     ['fluids/geometry.py'], [('heads', 'fluids/geometry.py: V_horiz_*, V_vertical_*, V_vertical_*_concave'), ('segments', 'fluids/geometry.py: V_partial_sphere, A_partial_circle, SA_partial_sphere, SA_partial_cylindrical_body, circle_segment_h_from_A'), ('tanks', 'fluids/geometry.py: V_tank, V_from_h, a_torispherical')])
prop('P25', "Wetted areas of tanks follow from the tank's geometry at every level",
     'For conical, ellipsoidal, guppy, spherical (horizontal: up to a hemisphere) and torispherical heads the wetted area is zero when empty or below, the complete head when full or above, grows with level exactly by the area of the wall band it passes, without jumps where pieces meet, and in horizontal torispherical heads the wetted and the dry part add up to the complete head. The full and the partially wetted area of a tank are the sums of the areas of its two heads (flat ends counting as discs or circular segments) and its body, for every pair of heads (full or, in vertical tanks, all but guppy) and orientation. Unknown head types and missing dish or knuckle factors are rejected.',
     'all diameters, lengths, head depths from 0.02 to 3 radii (spherical to one), dish and knuckle factors, and levels; vertical guppy heads and the guppy head with a depth of exactly its radius not covered; band integrals of horizontal torispherical and guppy heads by sampling',
     'tests compare published areas at a few levels per head',
     ['fluids/geometry.py'], [('heads', 'fluids/geometry.py: SA_partial_horiz_*, SA_partial_vertical_*, SA_*_head, SA_torispheroidal'), ('tanks', 'fluids/geometry.py: SA_tank, SA_from_h')])
prop('P26', 'Tank, coil, plate, fin and exchanger objects report consistent geometry',
     'However a tank is specified (dimensions or their ratios, head depths or factors, or a required volume), its reported dimensions, areas, head depths and volumes are those of the area and volume functions, levels convert to volumes with those functions, equal heads may be given once, thickening enlarges every dimension by the wall, and contradictory or incomplete input is rejected. Helical coils, plates, fins, cooling tower shells, tube layouts and air coolers report, for every accepted combination of inputs, the quantities their documentation defines, combinations describing the same object agree, and missing, redundant or impossible inputs (colliding turns, tubes wider than the coil) are rejected. Sphericity, aspect ratio, circularity and the volumes and areas of simple solids equal their definitions.',
     'all dimensions in wide ranges, every head type pair in both orientations and every combination of inputs; guppy heads of vertical tanks, level inversion by fitted splines and the layout class of 45 degree bundles not covered',
     'tests check a handful of attributes of one or two objects each',
     ['fluids/geometry.py'], [('tank', 'fluids/geometry.py: TANK'), ('coil', 'fluids/geometry.py: HelicalCoil'), ('plates and fins', 'fluids/geometry.py: PlateExchanger, RectangularFinExchanger, RectangularOffsetStripFinExchanger'), ('towers', 'fluids/geometry.py: HyperbolicCoolingTower'), ('bundles', 'fluids/geometry.py: pitch_angle_solver, AirCooledExchanger'), ('solids', 'fluids/geometry.py: sphericity, aspect_ratio, circularity, A_*, V_*')])
