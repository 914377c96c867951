p("C01", "Propagation ends exactly at the requested epoch",
  "Propagating for any duration (positive, negative or zero) or until an epoch returns a state whose epoch is exactly the one requested, for any step size and for fixed and adaptive steps, again and again on the same propagator. "
  "The intermediate states it publishes are in order, no further apart than the step, and end with the returned state, and the trajectory it builds runs exactly from start to end. "
  "Integrating in another frame changes only where the equations are evaluated: everything handed back is in the frame of the initial state.",
  ["inputs", "histories", "configurations"], "all start epochs, durations of either sign, step sizes and limits, sequences of two propagations, integration frames",
  "The tests propagate a few orbits for a few round durations forward with one configuration; ends that do not divide by the step, backward, repeated and stopped propagations are not sampled.",
  ["propagators/instance.rs", "propagators/propagator.rs"], [("for_duration / until_epoch / single_step / propagate", "propagators/instance.rs"), ("channel and trajectory variants", "propagators/instance.rs")])
p("C02", "Adaptive stepping honours its tolerance and its step bounds",
  "An adaptive integration step is only accepted when its error estimate is within the tolerance, or the step is at its minimum, or the allowed attempts are used up; the accepted step keeps its direction, lies within the configured bounds and moves the epoch by exactly itself. "
  "Each error control reports the documented measure of the error relative to the state or the step above its threshold and the absolute error below it, is never negative, and does not depend on the sign of the problem. Integrator options keep the bounds, tolerance and error control they are built with, and setting the bounds keeps the first step within them.",
  ["inputs", "configurations"], "all derivative values, states, step bounds, tolerances, both directions, all error controls",
  "Tests run well behaved orbits whose first attempt is nearly always accepted; rejected, clamped and backward steps and small or decreasing components are hardly reached.",
  ["propagators/instance.rs", "propagators/error_ctrl.rs", "propagators/options.rs"], [("adaptive step loop", "propagators/instance.rs"), ("ErrorControl::estimate", "propagators/error_ctrl.rs")])
p("C03", "Each integrator has the order of accuracy it advertises",
  "For every integration method, one step solves exactly any problem on which a method of that order must be exact, for any step size and direction, including equations of motion that depend on time. "
  "The embedded error estimate vanishes on problems that the lower-order member already solves and reacts to problems beyond it.",
  ["inputs", "configurations"], "all step sizes, all methods, all rooted trees up to order 8 (order 9 member checked to 8)",
  "Tests compare a few final states of a few orbits with tolerances that hide a wrong coefficient of a high-order stage; they cannot separate an order 8 method from an order 7 one.",
  ["propagators/rk_methods/", "propagators/instance.rs"], [("Butcher tableaux", "propagators/rk_methods/"), ("stage evaluation", "propagators/instance.rs")])
p("C04", "A spacecraft survives its vector form and parameter access",
  "Exporting a spacecraft to a state vector and importing it into another one reproduces position, velocity, coefficients of reflectivity and drag, propellant mass and state transition matrix, and leaves everything that is not part of the vector as it was. "
  "Setting a parameter changes what reading that parameter returns, to the value given, and moves nothing else; adding a deviation adds it component by component. The constructors, a changed orbit and an impulse set what they are given and leave the rest at its default or as it was.",
  ["inputs"], "all spacecraft values, all state transition matrices, all vectors, all settable parameters",
  "Tests check a few literal spacecraft; a swapped, transposed or dropped component of the 90 only shows for values that differ in that component.",
  ["cosmic/spacecraft.rs", "cosmic/mod.rs"], [("to_vector / set", "cosmic/spacecraft.rs"), ("value / set_value / Add", "cosmic/spacecraft.rs")])
p("C05", "Equations of motion combine forces, thrust and the STM correctly",
  "The derivative of a spacecraft state is its velocity and the sum of the point-mass gravity of the central body, all acceleration models, all force models divided by the mass, and the thrust of the active guidance law, with propellant flowing at the thruster's rate. "
  "The state transition matrix evolves as the Jacobian of those dynamics at the current state times the current matrix, and enabling it does not change the motion. "
  "A non-unit thrust direction, an invalid throttle, an exhausted tank or a massless spacecraft under a force is an error.",
  ["inputs", "configurations"], "all positions, velocities, masses, coefficients, arbitrary force and acceleration values and gradients, throttles, directions, matrices",
  "Tests propagate a few scenarios and compare end states with loose tolerances; mass scaling, matrix products and error paths are not isolated.",
  ["dynamics/spacecraft.rs", "dynamics/orbital.rs"], [("SpacecraftDynamics::eom / dual_eom / finally", "dynamics/spacecraft.rs"), ("OrbitalDynamics::eom / dual_eom", "dynamics/orbital.rs")])
p("C06", "The Kalman filter computes the textbook update",
  "Both filter variants propagate covariance and deviation with the state transition matrix plus the active process noise, and apply a measurement with the optimal gain and a covariance update that is symmetric and equal to the posterior covariance; the reference-update variant moves the nominal state by the estimated deviation, the other accumulates it. "
  "A measurement is rejected exactly when its prefit ratio exceeds the threshold, a rejected one leaves the prediction unchanged, and the reported residuals and ratios are those of the measurement. "
  "A failed update leaves the filter as it was.",
  ["inputs", "histories"], "all positive definite covariances, STMs, deviations, sensitivities, noises, observations (2 states, 1 or 2 measurements), rejection thresholds",
  "Tests run whole filters on simulated data and check that errors stay small, which tolerates a wrong gain, a dropped term or an inverted rejection.",
  ["od/kalman/filtering.rs", "od/kalman/mod.rs", "od/process/rejectcrit.rs"], [("time_update / measurement_update", "od/kalman/filtering.rs")])
p("C07", "Process noise applies only in its window and maps into the covariance",
  "Process noise contributes exactly while it is enabled: from its start epoch, when given, and while the time since the last measurement does not exceed its disable time; its values decay as configured. "
  "Its contribution over a step is the documented mapping of a constant acceleration noise into position and velocity, in the frame it is given in. "
  "When several are set, exactly the latest applicable one is used, in time and measurement updates alike.",
  ["inputs", "histories", "configurations"], "all noise values, steps, disable times, start times, decay constants, two process noises",
  "Tests use one configuration per scenario and never query around the boundaries of the window.",
  ["od/snc.rs", "od/kalman/filtering.rs"], [("ProcessNoise::to_matrix / propagate", "od/snc.rs"), ("selection of the active noise", "od/kalman/filtering.rs")])
p("C08", "Estimates, uncertainties and dispersions keep their documented moments",
  "The state of an estimate is its nominal state plus its deviation; an uncertainty given as standard deviations becomes the covariance with those squares, rotated into the inertial frame when given in a local one; negative values are refused. "
  "A state drawn from a distribution is the template plus the mean plus the scaled draw, the reported dispersions are exactly what was applied, and distributions built from dispersions or from a covariance carry those moments. "
  "A resumed Monte Carlo run continues with exactly the states of the full run.",
  ["inputs", "histories", "configurations"], "all standard deviations, means, covariances, draws, local frames, skip counts; seven sets of orbital elements and B-plane coordinates (concrete deviations)",
  "Tests draw samples and check means and scatter statistically on a few distributions; a swapped component or a variance used as deviation hides in the tolerance.",
  ["od/estimate/", "mc/multivariate.rs", "mc/montecarlo.rs"], [("KfEstimate / SpacecraftUncertainty", "od/estimate/"), ("MvnSpacecraft::new / sample", "mc/multivariate.rs"), ("generate_states", "mc/montecarlo.rs")])
p("C09", "Trajectories answer queries inside their span and keep their states",
  "A trajectory returns the exact state at a stored epoch, an interpolated one anywhere else between its first and last state, using neighbouring states on both sides that include the query, and an error outside; interpolation reproduces any path that its nodes determine. "
  "Building, sorting, filtering by epoch or offset with included or excluded bounds, resampling, iterating and concatenating neither lose, duplicate, misorder nor invent states. Seen from another frame, or as an ephemeris, each state keeps its epoch and everything else it carries, and has the position and velocity it has in that frame; a trajectory read from an ephemeris follows it at the requested step and span.",
  ["inputs", "histories", "schedules"], "all query epochs, all orders and spacings of the states, all bounds and steps; 1 to 40 states; all 32 ways for two workers to collect five propagated states",
  "Tests query long smooth trajectories with tolerances; ends, exact nodes, short trajectories, out-of-order or duplicate states and each kind of bound are not covered.",
  ["md/trajectory/traj.rs", "md/trajectory/interpolatable.rs", "md/trajectory/sc_traj.rs", "md/trajectory/traj_it.rs"], [("at / finalize / filter / resample / add", "md/trajectory/traj.rs"), ("Interpolatable for Spacecraft", "md/trajectory/interpolatable.rs"), ("TrajIterator", "md/trajectory/traj_it.rs")])
p("C10", "Tracking arcs neither lose, mix nor invent measurements",
  "Sorting, merging, filtering by epoch, offset, tracker or type, chunking, rejecting, applying moduli and downsampling a tracking arc keep exactly the measurements the documentation says, in epoch order, with values that belong to the same tracker and type. "
  "Two measurements are equal exactly when tracker, epoch, types and values agree, and the observation vector lists the requested types in the requested order.",
  ["inputs", "histories"], "all epochs, orders, trackers, types, values and bounds of arcs of up to 6 measurements",
  "Tests use one tracker, regular epochs and a few ranges; simultaneous trackers, unsorted arcs and each kind of bound are not covered.",
  ["od/msr/trackingdata/mod.rs", "od/msr/measurement.rs"], [("filter_* / downsample / chunk / sort", "od/msr/trackingdata/mod.rs"), ("Measurement", "od/msr/measurement.rs")])
p("C11", "Propagating to an event stops at the n-th crossing, either way",
  "Propagating until an event happens for the n-th time, forward or backward, stops at the n-th crossing of that event within the requested precision if there is one within the duration, including in the last, shorter step, and is an error otherwise. "
  "The event is evaluated in the requested frame, and the propagator can afterwards propagate exactly in either direction.",
  ["inputs", "histories", "configurations"], "all piecewise motions over 3 steps (arbitrary speeds), both directions, first and second crossing, any precision at least a step or concrete",
  "Tests look for apoapsis of one smooth orbit forward; crossings in the last step, backward, several per step and exactly at a step end are not covered.",
  ["propagators/event.rs", "propagators/instance.rs"], [("until_event / until_nth_event", "propagators/event.rs"), ("stop condition of propagate", "propagators/instance.rs")])
p("C12", "Guidance laws thrust when and where they should",
  "A finite burn fires from its start to its end only, at its throttle, along its vector or angles in the frame it is given in, its steering polynomials evaluated from the start of the burn. "
  "A closed-loop law (Ruggiero, Kluever) commands a unit direction which moves every element it steers toward its target, and thrusts exactly while an objective is outside its tolerance, above its efficiency threshold, and not eclipsed beyond its limit; otherwise it coasts. "
  "Only supported objectives, with enough thresholds, are accepted. A replayed profile holds the latest command at or before the epoch, and nothing outside of the profile.",
  ["inputs", "configurations"], "all epochs, directions, targets, tolerances, thresholds, throttles; 20 elliptic orbits (5 shapes, 4 anomalies), all supported elements",
  "Tests run a few transfers to completion and check the propellant used with tolerances; a wrong sign on one element, a missed eclipse or an off-by-one in the profile still converges.",
  ["dynamics/guidance/", "md/objective.rs"], [("FiniteBurns / Maneuver", "dynamics/guidance/mnvr.rs"), ("replay", "dynamics/guidance/replay.rs"), ("Ruggiero", "dynamics/guidance/ruggiero.rs"), ("Kluever", "dynamics/guidance/kluever.rs"), ("Objective", "md/objective.rs")],
  "Closed-loop laws on 20 concrete orbits with symbolic targets, tolerances and thresholds.")
p("C13", "Simulated measurements and their sensitivities follow the geometry",
  "A tracking device measures the range, Doppler, azimuth and elevation of the receiver as seen from itself, moving with its own velocity, plus the configured noise and bias of that type, and only while the receiver is in sight above the elevation and terrain mask; a two-way measurement is the average over its integration time. "
  "Crosslink and position devices likewise measure exactly what they are configured for, in any order. "
  "The sensitivity of each type is the partial derivative of the value measured, in the same unit; types without a value have none. "
  "Noise has the configured deviation, bias is a Gauss-Markov process that keeps its state, and configuring a type that does not exist is an error.",
  ["inputs", "configurations"], "all receiver velocities and small position offsets around 3 stations in 3 sky positions; all noise and bias values, types and orders of types",
  "Tests simulate and filter with the same model, so a wrong geometry or sign cancels out, and use range and Doppler only.",
  ["od/msr/", "od/ground_station/", "od/interlink/", "od/noise/", "od/simulator/"], [("compute_one_way / compute_two_way", "od/msr/types.rs"), ("GroundStation::measure", "od/ground_station/trk_device.rs"), ("ScalarSensitivity", "od/msr/sensitivity.rs"), ("StochasticNoise", "od/noise/"), ("InterlinkTxSpacecraft", "od/interlink/")],
  "Stations, positions and rotations concrete (3 x 3), velocities, offsets and noises symbolic.")
p("C14", "A moving ground asset is tracked with consistent geodesy",
  "The rates of latitude, longitude and height of a ground asset and its velocity over the ground describe the same motion on the ellipsoid, either way; its Jacobian is the derivative of its body-fixed position and velocity. "
  "It moves uniformly, with the transition matrix of uniform motion, and trajectories of it interpolate that motion. "
  "A vehicle in sight measures the range and range rate between the two, both moving, plus noise, averaged over the integration time; the sensitivity of each is its derivative with respect to the coordinates and rates of the asset. "
  "Vector form, deviation and parameters of an asset keep every component.",
  ["inputs", "configurations"], "all rates, vehicle velocities, durations, matrices, noises; 5 places on a flattened body, 3 vehicle positions each",
  "There is one end-to-end test, on a nearly spherical body with a static asset, whose ephemerides are not available here; frames, own velocity and matrix do not show in it.",
  ["od/groundpnt/"], [("GroundAsset", "od/groundpnt/mod.rs"), ("GroundDynamics", "od/groundpnt/ground_dynamics.rs"), ("measure", "od/groundpnt/trk_device.rs"), ("sensitivity", "od/groundpnt/sensitivity.rs")],
  "Places and vehicle positions concrete (5 x 3), all velocities symbolic.")
p("C15", "Orbit determination handles every measurement as configured",
  "Processing an arc gives, at each measurement of a configured device in sight, the estimate of a Kalman filter fed with exactly that measurement, its bias and its noise, in order, and predicted estimates no further apart than the step in between; skipped, rejected, ambiguous, simultaneous and partial measurements are handled as documented and reported as such. "
  "Predicting ends exactly at the requested epoch. Smoothing gives the fixed-interval smoother and its residuals. "
  "Filtering, merging, splitting, and the statistics of a solution are those of its estimates and accepted residuals, in epoch order.",
  ["inputs", "histories", "configurations"], "all observations, initial states and biases; arcs of up to three measurements of two devices and two types; both filters; all measurement epochs around the steps; all split/merge orders of small solutions",
  "Tests run long simulated arcs, most need ephemerides, and check that the error stays small; that one measurement is dropped, processed with the wrong type, device or covariance, or reported twice does not show.",
  ["od/process/", "od/kalman/"], [("KalmanODProcess::process_arc / predict_until", "od/process/mod.rs"), ("ODSolution::smooth", "od/process/solution/smooth.rs"), ("ODSolution filters, merge, stats", "od/process/solution/")],
  "Covariances, sensitivities and noises concrete, all data symbolic: the problem is then linear in the inputs; up to 3 measurements.")
p("C16", "Batch least squares finds the least squares solution",
  "On a problem that is linear, one iteration of either solver from any guess ends at the state that explains the measurements of all configured devices and types, biases included, wherever they lie relative to the steps, at the initial epoch or simultaneous; further iterations stay there and report convergence exactly when the correction is below the tolerance. "
  "The covariance is the inverse of the information of the data, and carries over to the estimate that starts a filter. "
  "Rejected measurements, unknown devices and devices out of sight count for nothing; the reported root mean square is that of the weighted residuals. Too few, not finite or noiseless measurements are errors.",
  ["inputs", "configurations"], "all true states, guesses, biases and observations; two devices, two types, three epochs, two step sizes, both solvers, 1 to 3 iterations",
  "The tests need ephemerides, or check that the result is within kilometres of the truth after many iterations, which hides a wrong transition matrix, weight or bias.",
  ["od/blse/"], [("BatchLeastSquares::estimate / evaluate", "od/blse/mod.rs"), ("BLSSolution into KfEstimate", "od/blse/solution.rs")],
  "Uniform motion, linear devices; the solver's unit regularisation and damping are made negligible by small variances; damping strategy of nonlinear problems outside.")
p("C17", "Force models are the documented physics, and their partials its derivative",
  "The acceleration by third bodies, a spherical harmonic gravity field, solid tides, and the forces by solar radiation and drag are those of their documented formulas, expressed in the frame of the orbit, for any place, coefficients, fluxes and densities, whichever body the orbit is around. "
  "The partials they provide are the derivatives of exactly that acceleration with respect to position and, for solar pressure, the reflectivity; the value computed along with them is the same. "
  "In shadow the solar force is reduced by the part of the Sun covered by the body that covers most.",
  ["inputs", "configurations"], "all gravity coefficients up to degree and order 8, all Love numbers, areas, coefficients, fluxes, densities; third bodies and spacecraft anywhere; 6 places for fields and tides, 8 shadow geometries",
  "Nearly all tests of these models need ephemerides and compare end states of long propagations with loose tolerances; wrong partials only slow a filter down and are not compared with anything.",
  ["dynamics/"], [("PointMasses", "dynamics/orbital.rs"), ("GravityField", "dynamics/gravity_field.rs"), ("SolidTides", "dynamics/solid_tides.rs"), ("SolarPressure", "dynamics/solarpressure.rs"), ("Drag", "dynamics/drag.rs"), ("ShadowModel", "cosmic/eclipse.rs")],
  "Places of fields, tides and drag concrete (the model is then linear in its parameters), third-body and Sun geometry symbolic.")
p("C18", "Simulated tracking samples every strand, and schedules follow the visibility",
  "A simulated tracking arc has one measurement for each sample epoch of each configured strand at which the device sees the vehicle: at the device's own rate from the start of the strand to its end included, up to a failure of the device in that strand, sorted by time, each with fresh random numbers of one reproducible stream. "
  "A generated schedule has one strand per pass that has the required number of samples: aligned to the requested time step but within the trajectory, at most the on time long, and at least the off time after the previous one. "
  "A tracker that does not share never tracks at the same time as one that starts later: a greedy one keeps the vehicle until it sets and delays (or drops) the others, an eager one stops one sample before whoever rises next.",
  ["inputs", "configurations"], "all epochs of strands, visibilities and failures (up to 3 samples per strand, 2 strands, 2 devices); all minimum sample counts and on/off times, 4 alignments, all handoff combinations of 3 stations, one of which only sees the vehicle while another does",
  "The simulator tests need ephemerides; they count measurements of one configuration. Wrong handoffs among three stations or lost strands still give plausible data.",
  ["od/simulator/"], [("TrackingArcSim::with_rng / generate_measurements / generate_schedule", "od/simulator/arc.rs"), ("TrkConfig::sanity_check, Strand", "od/simulator/trkconfig.rs"), ("Scheduler, Cadence, Handoff", "od/simulator/scheduler.rs")],
  "Rise and set epochs are those anise finds on one concrete trajectory; sampling rates concrete.")
p("C19", "Lambert solutions connect the two positions in the time asked for",
  "For two positions and a time of flight, the velocities a Lambert solver returns are those of a two-body arc that starts at the first position and is at the second one, with the returned arrival velocity, exactly when the time has passed; whatever the plane of the transfer. "
  "The arc goes the short or the long way around as requested (automatic and multi-revolution transfers are prograde) and has the requested number of complete revolutions. "
  "Otherwise an error is returned: for several revolutions only when there is no such arc (Izzo), or always (Gooding). Excess velocities, C3 and the transfer and arrival orbits follow from the solution and the velocities of the planets.",
  ["inputs", "configurations"], "all planetary velocities; 54 shapes of the triangle (transfer angles from 3 to 179 degrees each way, radius ratios 0.2 to 6) in 6 planes including retrograde ones, 10 times of flight from a tenth of the parabolic one to 40 times it, short, long, automatic, one and two revolutions, both methods",
  "The tests solve one textbook triangle in the equatorial plane and otherwise only check that two solutions differ.",
  ["tools/lambert/"], [("izzo, find_xy, householder, reconstruct", "tools/lambert/izzo.rs"), ("gooding", "tools/lambert/godding.rs"), ("LambertInput, LambertSolution, TransferKind", "tools/lambert/mod.rs")],
  "The iterations of the solvers are on transcendental functions of the geometry, so triangle and time are concrete grids (run by the engine); symbolic are the velocities at both ends.")
p("C20", "A targeter solution meets its objectives, within the bounds of its variables",
  "When the differential correction of an impulsive problem (position or velocity components, inertial or, with finite differences, in a local frame) returns a solution, then the corrected state is the uncorrected state at the correction epoch plus the reported correction in the components that may vary, in the frame asked for, and nothing else; "
  "propagated to the achievement epoch it is the achieved state and meets every objective within its tolerance, in the objective frame; the reported errors are those of that state. The total correction of every variable stays within its minimum and maximum. "
  "Linear problems are solved whenever the bounds and the number of iterations allow, with the smallest correction when there are fewer objectives than variables. "
  "A solution is accepted when applied exactly if its objectives are reached. Variables out of order, finite burns without a thruster and positions in local frames are refused.",
  ["inputs", "configurations"], "all initial states, initial guesses, accelerations and variable bounds within ranges; one to three variables and objectives, coupled linear motion, up to six iterations, finite differences and partial derivatives",
  "The tests that target anything need ephemeris files and compare a norm with a reference value.",
  ["md/opti/", "md/objective.rs"], [("try_achieve_fd", "md/opti/raphson_finite_diff.rs"), ("try_achieve_dual", "md/opti/raphson_hyperdual.rs"), ("apply_with_traj", "md/opti/targeter.rs"), ("Variable, Vary", "md/opti/target_variable.rs"), ("Objective::assess_value", "md/objective.rs")],
  "Motion is linear (no central attraction, harness acceleration model) so that the iteration is exact; objectives are Cartesian components; finite burn targeting is outside.")
p("C21", "A mission sequence flies its phases as planned",
  "Propagating a spacecraft through a sequence gives one trajectory per enabled phase, in order, from its start to the start of the next enabled phase (or the end), the first from the state given and each from where the previous ended. "
  "On entering a phase, once, its discrete event applies: staging and docking change exactly the listed masses, areas and coefficients and apply the manoeuvre in its local frame; a frame swap keeps the physical state in the new centre and axes. "
  "Each phase flies with its own propagator, which has exactly the configured models, options and method, and its own guidance and thruster, with or without propellant usage, and they do not act afterwards. "
  "Disabled phases have no effect at all. A state inside a phase resumes it without entering it again; propagation stops before the named phase. Plans that do not end or that name unknown propagators or thrusters are refused.",
  ["inputs", "configurations", "histories"], "all masses, areas, coefficients and their changes, manoeuvres, thrusts; three to four phases, any of them disabled, any stopping point, start anywhere in the plan, four local frames, all 16 sets of force models",
  "The only test of a sequence needs ephemerides and checks that it runs.",
  ["dynamics/sequence/", "dynamics/guidance/mnvr.rs"], [("SpacecraftSequence::propagate / setup / validate", "dynamics/sequence/mod.rs"), ("PropagatorConfig::build", "dynamics/sequence/config.rs"), ("DiscreteEvent", "dynamics/sequence/discrete_event.rs"), ("ImpulsiveManeuver", "dynamics/guidance/mnvr.rs")],
  "Straight-line motion, fixed steps; states before the first phase, gravity field files and the optimal steering laws (C12) are outside.")
p("C22", "Monte Carlo runs are independent of scheduling and reported faithfully",
  "A Monte Carlo analysis propagates exactly the requested number of states, those drawn in order from its distribution with the random number stream of its seed after the skipped ones, each on its own and to the requested epoch or event, whatever the order in which the parallel tasks run or fail. "
  "Runs are reported in order, each with the state it started from, its end state and its whole trajectory in time order, or its error; one failing run does not affect the others. "
  "First, last and regular values of a parameter are those of each successful trajectory in order of the runs, with the replacement value in place of failed runs and of unavailable parameters if there is one, and skipped if not; the dispersions reported are those applied.",
  ["inputs", "schedules", "faults"], "all dispersed states, any of three runs failing, resumed or not, 16 orders of the parallel tasks, five sampling rates, four windows, with and without replacement value",
  "Task order and failures of single runs do not occur in the tests, which need ephemerides, and check averages of large runs.",
  ["mc/"], [("MonteCarlo::resume_run_until_epoch / resume_run_until_nth_event / generate_states", "mc/montecarlo.rs"), ("Results", "mc/results.rs"), ("Run", "mc/results.rs")],
  "Tasks are not interleaved with each other but run one after the other, in any order; two or three runs; the parquet export is outside (file I/O).")
p("C23", "Polynomials, rotations, projections and angles satisfy their definitions",
  "For every argument: a polynomial evaluates to the sum of its coefficients times powers and its derivative to the derivative of that, however it is built, scaled, shifted, added, subtracted or cut; coefficients are named by power and orders beyond the polynomial are refused. "
  "Wrapped angles lie within their bounds and differ from the angle by whole turns. Elementary rotations are orthogonal and rotate the axes by the angle; rotating a vector about an axis of any length is Rodrigues' formula. "
  "Projection and rejection are the parallel and perpendicular parts; unit vectors have length one; spherical coordinates lead back to the vector; normalising and denormalising are inverse; error norms are those of the differences; "
  "the pseudo-inverse gives the solution, the least squares one or the smallest one, and refuses singular matrices.",
  ["inputs"], "all coefficients, arguments, angles and vectors within ranges; polynomials of order 0 to 5, four bounds for angles, concrete axes of symbolic length for rotations and projections",
  "Tests evaluate single vectors and angles.",
  ["polyfit/polynomial.rs", "utils.rs"], [("Polynomial, CommonPolynomial", "polyfit/polynomial.rs"), ("between_0_360, rotv, perpv, cartesian_to_spherical, pseudo_inverse!", "utils.rs")],
  "sin, cos, atan2 and acos are uninterpreted functions with axioms, so results are compared with expressions of the same functions.")
p("C24", "States and configurations survive their binary (DER) form",
  "Every spacecraft, tracking configuration, scheduler, cadence, strand, noise model and ground station, with every combination of its optional parts, is encoded in as many bytes as announced and decodes into an equal one with nothing left over: "
  "the same orbit, epoch, frame, masses, areas, coefficients, thruster and guidance mode; the same durations of either sign, epochs in their time scales, hand-off rule, samples and alignment; the same measurement types in order, integration and light times, terrain mask and noises per type. "
  "What is not part of the binary form (STM, thrust direction, the running sample of a noise) is absent afterwards.",
  ["inputs", "configurations"], "all numbers (durations up to 30 years); every subset of the optional parts, all enumerations, up to three strands, five measurement types, three noises, two mask points",
  "Round trip tests encode one instance of some of the types.",
  ["cosmic/spacecraft.rs", "dynamics/guidance/mod.rs", "od/simulator/", "od/noise/", "od/ground_station/mod.rs"], [("Encode / Decode for Spacecraft", "cosmic/spacecraft.rs"), ("Encode / Decode for TrkConfig, Strand", "od/simulator/trkconfig.rs"), ("Encode / Decode for Scheduler, Cadence", "od/simulator/scheduler.rs"), ("Encode / Decode for GroundStation", "od/ground_station/mod.rs"), ("Encode / Decode for GaussMarkov, StochasticNoise", "od/noise/")],
  "The bit layout of single ASN.1 numbers (REAL, INTEGER) in the der crate is replaced by fixed-length bytes; the structure around them is that of nyx, anise and der.")
p("C28", "Filter consistency and normality tests judge exactly the accepted data",
  "The innovation test sums the squared whitened innovations of exactly the accepted residuals, with one degree of freedom for each of their components; the estimation error test sums, over all estimates but the first, the squared error against the truth at their epoch weighted by the inverse of the (symmetrised) covariance of the estimated components, directions known exactly left out, with one degree of freedom per estimated component and estimate. "
  "Their bounds are the two-sided chi-squared quantiles at the requested significance (5% by default), to the accuracy of the normal approximation; consistent, overconfident and underconfident mean inside, above and below. "
  "The normality test compares the accepted whitened residuals, in any order, with a normal distribution at the requested significance. Without data, or with data without any spread, they return an error and never panic.",
  ["inputs", "histories"], "all residuals and errors; up to three residuals of one or two components, accepted or rejected in any combination, with predictions between; six to nine estimated components; four levels of significance",
  "The tests need ephemerides and only look at the verdict.",
  ["od/process/solution/stats.rs", "od/estimate/residual.rs"], [("nis_consistency, nees_consistency, ks_test_normality, is_normal", "od/process/solution/stats.rs"), ("NormalizedConsistency", "od/process/solution/stats.rs"), ("Residual::nis", "od/estimate/residual.rs")],
  "The covariance is concrete (the eigenvalue decomposition iterates); the distribution of accepted residuals in the normality test is concrete, the rejected ones symbolic.")
na("C25", "Files written are read back as what was written",
  "Tracking arcs, trajectories and estimates written to parquet, TDM or OEM files, gravity fields read from SHADR and COF files and configurations in YAML or Dhall are read back with the same values.",
  ["inputs"], "all values and configurations",
  "Tests cover single files.",
  ["io/", "od/msr/trackingdata/", "md/trajectory/", "od/process/solution/export.rs"], [("to_parquet, from_parquet, from_tdm", "od/msr/trackingdata/"), ("GravityFieldData::from_config", "io/gravity.rs")],
  "Every value passes through decimal text or arrow buffers and the file system: formatting and parsing a symbolic float has no encoding within reach (digit generation loops on a symbolic mantissa), and with concrete values a run would be a test, not a decision over all values.")
na("C26", "B-plane parameters are the projections of the incoming asymptote",
  "For every hyperbolic orbit, B.T and B.R are the components of the B vector in the plane orthogonal to the incoming asymptote, the linearised time of flight is consistent with them, and the partials reported with them are their derivatives.",
  ["inputs"], "all hyperbolic orbits",
  "Tests compare a few orbits with other software.",
  ["cosmic/bplane.rs"], [("BPlane::from_dual", "cosmic/bplane.rs"), ("try_achieve_b_plane", "cosmic/bplane.rs")],
  "The B vector is a composition of square roots of the state (eccentricity vector norm, asymptote angle, cross product norms) in six unknowns; z3 and cvc5 do not decide the equalities in nonlinear real arithmetic even with one symbolic component (time out), and concrete runs would not be a decision over all inputs.")
na("C27", "Multiple shooting keeps its nodes feasible and its cost decreasing",
  "A multiple shooting solution visits its nodes in order, continuous in position, with a total delta-v no larger than that of the initial guess.",
  ["inputs", "configurations"], "all node placements and initial guesses",
  "Tests need ephemeris files and compare the total delta-v with a reference.",
  ["md/opti/multipleshooting/"], [("MultipleShooting::solve", "md/opti/multipleshooting/multishoot.rs")],
  "Judged from the code and from the cost of C20, not attempted: every iteration solves several targeting problems by finite differences and inverts a matrix of their results, so that after one step every quantity is a rational function of high degree of all node positions, and with concrete nodes a run would be a test.")
