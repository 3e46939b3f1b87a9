"""Writes /verif/properties.jsonl (kept in the repository so that ids, titles and statements have one source)."""
import json, os
V = "AMAT/vehicle.py"; P = "AMAT/planet.py"
PROPS = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    PROPS.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=list(observe), hook_needed=None)))

prop("C01", "Atmosphere look-up and scaling are consistent at every altitude",
 "For every supported body and every loaded atmosphere table (any columns, heights in m or km), density, temperature, pressure and sound speed sqrt(gamma*p/rho) reproduce the table at its nodes and agree between the scalar, array and non-dimensional look-ups from the surface to the top of the atmosphere; below the surface the dynamics see the surface density, above the atmosphere zero density, and array look-ups outside the table return zero (sound speed effectively infinite). Altitude/radius and dimensional/non-dimensional conversions are exact inverses, and the body constants (gravitational parameter, radius, rotation with its sign, J2, J3, pole, sea-level density, altitude thresholds) are the documented physical ones.",
 ["inputs", "configurations"], "all bodies, tables, interpolation kinds, altitudes below/inside/above the table, array shapes",
 "tests load two tables and look up a few altitudes; out-of-range, array/scalar agreement and most bodies are never compared",
 [P], [("loadAtmosphereModel, density and the *vectorized look-ups", P+":249-610"), ("nonDimState/dimensionalize/computeR/computeH", P+":687-816")],
 [("density_int/temp_int/pressure_int/sonic_int", "interpolants of the table", P+":297")], ["Planet look-up return values"])

prop("C02", "A dispersed density profile is exactly mean + k*sigma + its own perturbation",
 "Given a dispersion file with several profiles, the density function built for profile i and dispersion level k equals, at every altitude node of that profile, the mean density plus k times the local one-sigma deviation (upper sigma for k>0, lower for k<0), plus that profile's own random perturbation when perturbations are requested; between nodes it is interpolated linearly and outside the profile it is zero. No other profile in the file contributes, and the low/high columns may be given either as densities or as a percentage deviation.",
 ["inputs", "configurations"], "all profile indices, sigma levels of both signs, column layouts, height units, profile sizes",
 "tests load one file with one profile number",
 [P], [("loadMonteCarloDensityFile2/3", P+":849-960"), ("loadAtmosphereModel5/6, pSigmaFunc/nSigmaFunc", P+":962-1091")], (), ["returned density function"])

prop("C03", "Equations of motion are those of flight over a rotating oblate planet",
 "For every state, bank angle and body, the state derivative the simulator integrates equals the three-dimensional point-mass equations in the rotating planet frame with gravity including J2 and J3, drag along the velocity, and lift rotated by the bank angle. Both integrator front ends use the same derivative, and the dimensional, non-dimensional and array versions of lift, drag and the aerodynamic acceleration components agree, also with a user-supplied drag coefficient as a function of Mach number.",
 ["inputs", "configurations"], "all bodies, latitudes of both hemispheres, headings, flight-path angles, bank angles, vehicles",
 "tests compare a handful of end-to-end numbers for near-equatorial prograde flight",
 [V], [("EOM/EOM2 and the force terms", V+":802-1672")], (), ["EOM/EOM2 return values"])

prop("C04", "A propagated entry solves the equations of motion from its initial state",
 "Every propagated entry starts at the state the user set, is sampled on the requested time grid, and each sample is the solution of the equations of motion (position, velocity, angles and downrange) within the solver tolerance, in SI arrays and in the plotting-unit arrays alike. The result does not depend on the output step or on which of the two integrator front ends is used, and the stand-alone propagation helpers used by guidance give the same trajectory as the main entry points for the same state, vehicle and atmosphere.",
 ["inputs", "configurations"], "all bodies, entry states, bank angles, output steps, durations, front ends",
 "tests check a few terminal values of one Venus/Neptune case per front end",
 [V], [("solveTrajectory/solveTrajectory2", V+":1673-1822"), ("propogateEntry/2, propogateEntry_util/2/D/D2", V+":2434-2945, 6541-6885"), ("convertToPlotUnits", V+":1824")], (), ["tc, rc, thetac, phic, vc, psic, gammac, drangec and *_kmc/_degc arrays"])

prop("C05", "Loads, heating and flow histories follow from the trajectory samples",
 "At every sample of every propagated entry, the deceleration load (all three axes, for any bank angle), drag deceleration, dynamic and stagnation pressure, Mach number, stagnation temperature, heating rates and orbital energy are the functions of that sample's radius and speed that their definitions state, in the documented units. The stagnation heat load is the time integral of the total heating rate started from the initial heat load, hence non-decreasing.",
 ["inputs", "configurations"], "all bodies, bank angles, vehicles, initial heat loads, front ends and helpers, every sample",
 "tests read maxima of a zero-bank trajectory with zero initial heat load",
 [V], [("computeAccelerationLoad/Drag, computeDynPres ... computeStagTemp, computeEnergy", V+":2061-2365"), ("propogateEntry*/util heat load", V+":2434-2945")], (), ["acc_net_g, acc_drag_g, dyn_pres_atm, stag_pres_atm, q_stag_*, heatload, energy"])

prop("C06", "Trajectories are classified and cut at their first event",
 "A trajectory that never goes below the surface and rises above the skip-out altitude is reported as skipped out and ends at the last sample at or below that altitude; otherwise one that drops below the trap-in altitude is reported as trapped and ends at the last sample not below it; otherwise it is reported as having no event and kept whole. A trajectory that merely starts at the skip-out altitude has not skipped out, and all reported histories have the same, non-empty, length.",
 ["histories", "inputs"], "every altitude history (all orders of crossing the surface, trap, skip and start altitudes, including exact equality)",
 "tests see one skip-out and one descent",
 [V], [("classifyTrajectory/truncateTrajectory", V+":1914-2058")], (), ["classifyTrajectory return value, index, exitflag, truncated arrays"])

prop("C07", "Stagnation heating obeys the body's correlations in every speed regime",
 "For every body, nose radius, altitude and speed, convective and radiative heating are the published correlations of that body in density, speed and nose radius for the speed band the state falls in (zero where none applies), never negative, and total heating is their sum. Evaluating the heating of several nose radii returns, for each radius, what the vehicle with that radius would experience and leaves the vehicle's own nose radius unchanged.",
 ["inputs", "configurations"], "all bodies, every speed band and its boundaries, densities from vacuum to dense, nose radii",
 "tests see peak values of two planets, always inside one speed band",
 [V], [("qStagConvective/qStagRadiative/qStagTotal", V+":579-800"), ("computeHeatingForMultipleRN", V+":2274")], (), ["q_stag arrays"])

prop("C08", "Exit orbit and orbit-correction burns match two-body mechanics",
 "For every exit state given relative to the rotating planet, the apoapsis and periapsis altitude reported are those of the Keplerian orbit of the corresponding inertial state (an escape orbit is not reported as captured with a positive apoapsis). The periapsis-raise and apoapsis-raise burns equal the signed vis-viva speed difference at apoapsis and at periapsis respectively, and the energy, angular momentum, semi-major axis and eccentricity helpers agree with each other.",
 ["inputs", "configurations"], "all bodies (prograde and retrograde rotation), latitudes, headings, elliptic and hyperbolic speeds, target orbits below and above the current one",
 "tests check two numbers for one orbit",
 [V], [("compute_ApoapsisAltitudeKm/compute_PeriapsisAltitudeKm", V+":4296-4464"), ("compute_periapsis_raise_DV/compute_apoapsis_raise_DV", V+":4700-4770"), ("compute*Scalar", V+":2318-2432")], (), ["returned altitudes and delta-V"])

prop("C09", "An entry is classified as capture, overshoot or undershoot by its exit orbit",
 "For every entry, the target-apoapsis test reports overshoot when the vehicle escapes or leaves on an orbit whose apoapsis is above the target, and undershoot when the apoapsis is below the target or the vehicle does not leave the atmosphere again; the capture test reports capture exactly when the vehicle leaves with negative orbital energy or does not leave at all. The verdict depends only on the entry and the target, and asking for it leaves the vehicle's entry state unchanged.",
 ["inputs", "configurations"], "steep to shallow entries, all bank angles, all target apoapses, bodies, both front ends",
 "tests exercise the classification only through two corridor widths",
 [V], [("isCaptured", V+":3013"), ("hitsTargetApoapsis/2", V+":3048-3230")], (), ["return value"])

prop("C10", "Corridor searches return the bracketing flight-path angle within tolerance",
 "When the entry corridor boundary lies inside the supplied flight-path-angle bracket, the overshoot and undershoot searches return an angle within the requested tolerance of the boundary, on the documented side, with success flag 1, for every boundary location and tolerance; when it lies outside they return the failure flag 0. The overshoot limit is searched with full lift down and the undershoot limit with full lift up, the corridor width is overshoot minus undershoot, and the vehicle's own entry angle is left as it was.",
 ["inputs", "histories"], "every boundary position relative to the bracket, tolerance, bracket width, front end, vehicle history",
 "tests run two corridors with one bracket and tolerance each",
 [V], [("findOverShootLimit/2, findUnderShootLimit/2, computeTCW/2", V+":3232-3746")], (), ["returned (angle, flag), gamma0_deg"])

prop("C11", "Drag-modulation corridor is bounded by the two ballistic coefficients",
 "For every drag-modulation vehicle, the undershoot limit is the ballistic (zero lift) entry-angle limit at the high, post-jettison ballistic coefficient and the overshoot limit is the one at the low, pre-jettison coefficient; each is within tolerance of the true boundary when the boundary is bracketed and flagged 0 when not. The corridor width is overshoot minus undershoot, and the searches leave the entry angle and lift of the vehicle as they were.",
 ["inputs", "histories"], "every boundary position, tolerance, ballistic-coefficient pair, lift configuration, front end, order of calls",
 "tests run one corridor with a zero-lift vehicle",
 [V], [("setDragModulationVehicleParams, findEFPALimitD/D2, find*ShootLimitD/D2, computeTCWD/D2", V+":3748-4226")], (), ["returned angle/flag, corridor width, gamma0_deg, LD, CL"])

prop("C12", "The bank controller obeys the roll-rate limit and settles on its command",
 "For every current bank angle, commanded bank angle, roll-rate limit and cycle time, one controller step moves the bank angle toward the command by at most rate times time and never past it, and repeated steps reach the command exactly and stay there.",
 ["histories", "inputs"], "all command sequences up to the bound, all rates, cycle times and initial angles",
 "tests exercise it only inside one guided run",
 [V], [("psuedoController, setMaxRollRate", V+":4529-4584")], (), ["returned (bank angle, rate)"])

prop("C13", "A guided lift-modulated entry is one continuous flight that reports what it flew",
 "Every guided lift-modulated entry ends, and for every one that exits the atmosphere the recorded histories start at the entry state, have non-decreasing time with no gap or jump in any state between guidance cycles, satisfy the equations of motion with the recorded bank angle, keep the bank angle within 0-180 degrees and the roll-rate limit, and accumulate the heat load from the initial value. Each glide cycle steers the bank toward the equilibrium-glide command for the state at its start, the exit phase toward full lift up; the equilibrium-glide phase hands over when its documented conditions are met, and the reported terminal apoapsis, periapsis, apoapsis error and burns are those of the last recorded state and the target orbit. The recorded guidance telemetry (bank, altitude rate, its change and reference, dynamic pressure and its reference, drag) is that of each cycle.",
 ["histories", "inputs", "configurations"], "all guidance parameter combinations in the alphabet, entry states and atmospheres, both front ends",
 "tests run one Neptune case and look at a few terminal numbers",
 [V], [("propogateEquilibriumGlide/2, propogateExitPhase/2, propogateGuidedEntry/2", V+":4802-5681"), ("setTargetOrbitParams, setEquilibriumGlideParams, predictApoapsisAltitudeKm_withLiftUp/2", V+":4586-4800")], (), ["*_eg and *_full arrays, terminal_apoapsis, terminal_periapsis, apoapsis_perc_error, *_raise_DV"])

prop("C14", "A guided drag-modulated entry jettisons once and reports what it flew",
 "Every guided drag-modulated entry ends, and its recorded histories start at the entry state, have non-decreasing time with no gap or jump between guidance cycles, follow the equations of motion with the low ballistic coefficient up to one switching instant and with the high one (times the ratio) afterwards, and accumulate the heat load from the initial value. The switch happens at the first guidance cycle at which the predicted post-jettison apoapsis meets the target condition or another documented condition applies, and the reported terminal orbit, error and burns are those of the last recorded state. The recorded guidance telemetry (altitude rate, its change and reference, dynamic pressure, drag) is that of each cycle.",
 ["histories", "inputs", "configurations"], "all guidance parameter combinations in the alphabet, entry states, vehicles, both front ends",
 "tests run one Venus/Mars case and look at a few terminal numbers",
 [V], [("propogateEntryPhaseD/D2, propogateExitPhaseD/D2, propogateGuidedEntryD/D2", V+":6001-7315"), ("predictApoapsisAltitudeKm_afterJettision/2, propogateEntry_utilD/D2", V+":6423-6885")], (), ["*_en and *_full arrays, terminal orbit attributes"])

prop("C15", "Results do not depend on what was computed before",
 "After any sequence of propagations, predictions, classifications, corridor searches and multi-radius heating calls, repeating a computation with the same inputs gives the same result as on a freshly built vehicle and planet. What-if helpers (predictions, classifications, searches, stand-alone propagation, planet look-ups) never change the vehicle's configured entry state, aerodynamics or nose radius, nor the planet's atmosphere, and two vehicles sharing a planet do not influence each other.",
 ["histories"], "all operation sequences up to the depth bound over the operation alphabet",
 "tests call each operation once on a fixture",
 [V, P], [("deepcopy in propogateEntry_util*, save/restore in searches, setInitialState reference copy", V+":2608-2945, 3232-4226, 516-563")],
 [("vehicle/planet attributes", "entry state, aerodynamics, atmosphere", V+":317-500")], ["all public results and configuration attributes"])

prop("C16", "Monte Carlo output records exactly the runs that were flown",
 "For every sequence of random draws, run i of a Monte Carlo batch flies the recorded atmosphere file, profile, dispersion level, entry angle and L/D from the reference entry state, independent of earlier runs, and its folder holds exactly those inputs and that run's terminal orbit, error and burns. After any number of completed runs the summary arrays on disk hold the completed runs' values in order (peak load, peak heating, peak heat load, orbit and burns), so an interrupted batch loses only unfinished runs; an existing output folder is never overwritten.",
 ["inputs", "histories", "crash_points"], "all answers of the random source over a finite alphabet, batch sizes, interruption after any run, all batch variants",
 "random draws differ per test run and are never compared with the recorded files",
 [V], [("setupMonteCarloSimulation*, runMonteCarlo, runMonteCarlo2, runMonteCarloD, runMonteCarloD2, runMonteCarloD_Earth", V+":5683-5972, 7317-7795")], (), ["files under the output folder"])

prop("C17", "The measured-density model passes through the measurements",
 "For every history of altitude and density measurements along a descent, the density function handed to the guidance predictor reproduces the measured density at the measured altitudes, decays exponentially with altitude with the local scale height below the lowest measurement (continuous there), and outside the modelled altitude range stays at its extreme value: the smallest density above, the largest below. Predictions made with it use that function and not the true atmosphere.",
 ["histories", "inputs"], "all descent histories over the alphabet, extrapolation floors and grid sizes",
 "never called directly by a test",
 [V, P], [("createDensityMeasuredFunction", V+":4466-4527"), ("scaleHeight", P+":818"), ("dummyVehicle", V+":2608")], (), ["returned density function"])

prop("C18", "An approach hyperbola meets its arrival asymptote, periapsis and B-plane target",
 "For every arrival body, excess-velocity vector, periapsis radius and B-plane angle, the reported orbit has that asymptotic velocity, periapsis and B-plane angle; its elements, vectors and rotations are mutually consistent orthonormal two-body quantities; position and velocity at any true anomaly lie on it. When the periapsis is inside the atmosphere the inbound interface state (radius, latitude, longitude in the right quadrant, inertial and atmosphere-relative velocity and flight-path angle) is that of the orbit, otherwise the periapsis state is.",
 ["inputs", "configurations"], "all bodies, directions of arrival in all octants, periapses inside/outside the atmosphere, B-plane angles around the circle, true anomalies on both branches",
 "tests cover two arrival vectors and three angles",
 ["AMAT/approach.py"], [("Approach.__init__ and vector helpers", "AMAT/approach.py:128-521")], (), ["Approach attributes and pos_vec_bi/vel_vec_bi"])

prop("C19", "Deflection burns equal the velocity difference at the separation point",
 "For every pair of approach trajectories and separation distance, the deflection manoeuvre is performed at that distance on the inbound leg, the velocities before and after are those of the two two-body trajectories at that point, and the reported delta-V vector and magnitude are their difference in the stated frame. The burn vanishes when both trajectories coincide.",
 ["inputs", "configurations"], "all bodies, trajectory pairs, separation distances",
 "tests compare one magnitude per manoeuvre class",
 ["AMAT/maneuver.py"], [("ProbeOrbiterDeflection, ProbeProbeDeflection, OrbiterOrbiterDeflection", "AMAT/maneuver.py:14-409")], (), ["delta-V attributes"])

prop("C20", "The aerocapture orbiter's orbit is the one its exit state implies",
 "For every vehicle that has exited the atmosphere, the coast orbit's elements, apses and positions are those of its inertial exit state, however often and at whatever resolution they are sampled; the periapsis-raise burn moves periapsis to the requested altitude at apoapsis and leaves apoapsis unchanged; the final orbit samples lie on that orbit in planet radii. A probe-targeting or deflection burn changes only the speed by the stated amount along the velocity, and the probe meets the entry interface radius with its reported speed.",
 ["inputs", "configurations"], "all exit states in the alphabet (both hemispheres, prograde/retrograde), target altitudes, burn locations on both halves of the orbit, burn signs",
 "tests use one Neptune exit state",
 ["AMAT/orbiter.py"], [("Orbiter", "AMAT/orbiter.py:14-862")], (), ["Orbiter attributes and arrays"])

prop("C21", "The propulsive orbiter's insertion burn and timed orbit obey Kepler's laws",
 "For every approach whose periapsis is outside the atmosphere and every target apoapsis, the insertion orbit keeps the approach periapsis and plane and reaches the target apoapsis, the insertion burn is the difference of the two periapsis velocities, and the orbit samples lie on that orbit. The timed orbit satisfies Kepler's equation at every requested time, from periapsis through any number of revolutions.",
 ["inputs", "configurations"], "all bodies, approaches, apoapsis altitudes from near-circular to highly eccentric, durations and grid sizes",
 "tests check one burn and one array's end time",
 ["AMAT/orbiter.py"], [("PropulsiveOrbiter", "AMAT/orbiter.py:864-1046")], (), ["DV_OI, orbit arrays, timed arrays"])

prop("C22", "Launch capability interpolates the vehicle table and is zero outside it",
 "For every launch vehicle table and launch energy, the reported mass equals the table at its points, lies between neighbouring points for linear interpolation, and is zero outside the table; scalars, arrays and repeated queries agree. A trajectory database reports, for each of its rows in order, the launch date, launch energy, flight time and arrival speed of that row and the launcher's mass for that row's energy, and its plots show every row the vehicle can launch.",
 ["inputs", "configurations"], "all shipped tables, all intervals and both ends, interpolation kinds, query shapes, all small databases",
 "tests query two energies of one launcher; trajectory databases are not loaded by any passing test",
 ["AMAT/launcher.py", "AMAT/interplanetary.py"], [("Launcher", "AMAT/launcher.py"), ("Interplanetary", "AMAT/interplanetary.py:11-75")], (), ["launchMass, compute_launch_capability"])

prop("C23", "A link budget balances",
 "For every combination of frequency, powers, temperatures, distance, losses, rate and antenna description (gain given directly, zero included, or diameter and efficiency), the reported Eb/N0 equals transmit power plus gains minus all losses minus noise density and rate in decibels, and the margin is that minus the requirement; transmitter and receiver antennas are never interchanged, and the printed budget lists these same quantities. Halving the distance adds 6.02 dB and doubling the rate costs 3.01 dB.",
 ["inputs", "configurations"], "all combinations of antenna descriptions and parameter values in the alphabet",
 "the link tests do not run here (missing ephemeris) and use one configuration",
 ["AMAT/telecom.py"], [("Link", "AMAT/telecom.py:11-272")], (), ["EB_N0, EB_N0_margin, gains and losses"])

prop("C24", "Data volume counts exactly the visible, scheduled time",
 "For every visibility history and transmission schedule, data flows at a sample exactly when the sample is inside one of the scheduled windows (ends included) and the link is visible, and the data volume is the data rate integrated over time for those samples. Nothing is transmitted outside windows, windows may overlap, touch or be empty, and order of windows does not matter.",
 ["histories", "inputs"], "all window sets over small time grids and all visibility histories up to the bound",
 "the telecom tests do not run here and use one schedule",
 ["AMAT/telecom.py"], [("Schedule, Link.compute_data_volume", "AMAT/telecom.py:254-298")], (), ["schedule array, data volume"])

prop("C25", "Visibility agrees with the geometry of lander, orbiter and target",
 "For every geometry, the reported range, zenith angle and elevation between a lander and a planet or orbiter are those of the body-inertial positions at that time, elevation is floored at zero and visible is exactly elevation above zero; the lander moves with the planet's rotation in the right sense and Titan uses Saturn's position. An orbiter sees the target unless the planet's disc blocks the line of sight.",
 ["inputs", "configurations"], "all bodies, target directions incl. zenith/nadir/pole/equator, latitudes, orbits, durations and grid sizes",
 "the visibility tests do not run here (missing ephemeris file)",
 ["AMAT/visibility.py"], [("LanderToPlanet, LanderToOrbiter, OrbiterToPlanet", "AMAT/visibility.py")], (), ["range/elevation/visible arrays"])

prop("C26", "Plots and stand-in vehicles reproduce the data they are made from",
 "For every sequence of flights and plots, the entry plots draw altitude, speed, deceleration and heat rate of the latest recorded flight against its time, the dynamic-pressure plot draws the flight it was asked for, and the atmosphere plots draw temperature, pressure, density and sound speed against altitude, in the units of the labels. A stand-in vehicle for a measured density is a copy with that density: making, flying or plotting it leaves the vehicle, its recorded flight and its planet unchanged.",
 ["histories", "inputs"], "all operation sequences up to the bound; all bodies and altitude ranges for the atmosphere plots",
 "no test draws a plot or makes a stand-in vehicle",
 [V, P], [("makeBasicEntryPlots, createQPlot, dummyVehicle", V+":2631-3030, 4259-4325"), ("checkAtmProfiles", P+":613-700")], (), ["matplotlib line data, vehicle attributes"])

if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
        for p in PROPS: f.write(json.dumps(p) + "\n")
    for p in PROPS:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    print(len(PROPS))
