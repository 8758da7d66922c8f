B = "posydon/binary_evol/"
U = "posydon/utils/"

prop("P01", "Orbital mechanics helpers obey Kepler, Eggleton, Peters and the mass-loss laws",
     "For any positive masses, orbit and radii, the conversions between period and separation are mutually inverse Kepler relations (also when only one of them is given at construction), the Roche-lobe radius is the Eggleton fit and scales linearly with separation, and the gravitational-wave inspiral time equals the Peters integral and rejects unphysical arguments. "
     "Orbital changes under fast winds, conservative and non-conservative mass transfer follow the corresponding angular-momentum laws, and compact-object radii and accretion spin-up stay physical (Schwarzschild radius, spin within 0 and 1, growing with accreted mass). "
     "All of these are symmetric under swapping the two stars where the physics is, and array arguments give the same as scalar ones.",
     ["inputs"], "All masses 0.1-300 Msun, periods, separations, eccentricities, radii and accretion efficiencies in physical ranges, scalars and arrays, given as either star.",
     "Unit tests compare a handful of hand-computed values; they cannot cover the space of masses/orbits nor the inverse/scaling/symmetry laws.",
     [U + "common_functions.py", B + "binarystar.py"],
     [("orbital_period_from_separation / orbital_separation_from_period", U + "common_functions.py"), ("roche_lobe_radius, check_for_RLO, inspiral_timescale_from_*", U + "common_functions.py")],
     "property-based testing: generated orbits against independent closed forms and quadrature",
     "Hypothesis generates masses/orbits; oracles are independent implementations (Kepler from SI constants, Eggleton formula, Peters integral by quadrature, ODE integration of the mass-transfer angular-momentum equation) plus inverse, scaling and swap relations.")

prop("P02", "Star and binary histories record, restore and export every step faithfully",
     "After any sequence of property changes, appends, star swaps and restores, every property's history has the same length, the entries equal the values current when they were appended, and restoring to an entry truncates to it and reinstates its values. "
     "The exported evolution table has exactly one row per entry with the recorded values, the one-line table holds the first and last values, and a binary rebuilt from either table has the values, states and events it was exported with. "
     "A binary rebuilt from a table that carries only the period or only the separation gets the other one consistent with each row's masses.",
     ["histories", "inputs"], "Random operation sequences (set, append, swap, massless conversion, restore) over binary and star properties, with None/NaN values and column subsets.",
     "Binary/star classes have no unit tests of export/rebuild; histories are sequences of operations, so a fixed example samples one order.",
     [B + "binarystar.py", B + "singlestar.py", "posydon/popsyn/io.py"],
     [("append_state, restore, to_df, from_df, to_oneline_df, from_oneline_df", B + "binarystar.py and singlestar.py")],
     "model-based property testing: operation sequences against a list-of-rows reference model",
     "A list-of-dicts reference model is driven with the same operations; tables are compared cell by cell (NaN-aware), round trips compared field by field. Excluded: vector-valued columns in from_df (see below).")

prop("P03", "Evolution runs the chart's steps in order and stops at the first end condition",
     "Evolving a binary runs exactly the step the flow chart names for its current total state, once per iteration, records the outcome after each step in order (with per-step bookkeeping columns of the same length), and stops at the first of: a configured end state or event, the configured maximum number of steps, an undefined total state, or a failing step; hooks run around every step in the configured order. "
     "A failing step is reported to the caller as the step's own error with the history recorded before it intact, an evolution that starts after the maximum simulation time is refused, and the step limit given by the user is the one that applies. "
     "Restoring a binary to any recorded entry truncates all columns together, and evolving again from the initial entry reproduces the same history.",
     ["histories", "configurations", "fault_sequences"], "Scripted evolutions with up to a dozen steps, random flows, multi-row steps, redirects, failing steps, step limits and end conditions.",
     "There are no unit tests of the evolution loop; flows, failures and limits are a history space.",
     [B + "binarystar.py", B + "simulationproperties.py"],
     [("BinaryStar.evolve / run_step / _check_who_exploded", B + "binarystar.py"), ("SimulationProperties hooks", B + "simulationproperties.py")],
     "model-based property testing: scripted step histories against a reference loop; fault injection in steps",
     "Scripted step classes (outcome tables drawn by Hypothesis, some raising) are driven by the real loop and by a small reference interpreter; recorded states/events/times/steps/hook columns are compared.")

prop("P04", "The flow chart gives every total state one well-defined, swap-symmetric step",
     "For every combination of the two stars' states, binary state and event, the default flow chart either names exactly one known evolution step or leaves it undefined, and exchanging the roles of the two stars gives the mirrored step. "
     "User changes to the flow chart affect exactly the entries they name. "
     "A binary in a defined total state is dispatched to exactly that step and an undefined one is refused without running any.",
     ["inputs", "configurations"], "All pairs of star states x all binary states x all events (complete), plus random customisations.",
     "Nothing in the test-suite exercises the chart; its ~10^5 total states are only sampled by full population runs.",
     [B + "flow_chart.py", B + "binarystar.py"],
     [("flow_chart, initial flow chart loops and change dictionaries", B + "flow_chart.py")],
     "exhaustive enumeration of total states against an independent rule table; generated customisations",
     "Every pair of star states and all binary states/events are enumerated against a rule table written from the documentation, together with the mirror relation; customisations are compared with a dictionary-update model; dispatch runs the real loop.")

prop("P05", "Stellar, compact-object and binary states are classified by the documented rules",
     "The inferred stellar state follows from abundances, luminosities and mass by the documented thresholds, compact objects are white dwarfs, neutron stars or black holes by mass and composition, and the inferred binary state, event and mass-transfer case follow the documented rule table. "
     "Scalar, history and object entry points agree, relabelling the stars relabels the answer, and the cumulative mass-transfer label keeps order and donors while removing repetitions. "
     "Swapping the two stars of a binary relabels current values and whole histories consistently, and doing it twice is the identity.",
     ["inputs", "histories"], "Abundances/luminosities around all thresholds, all donor/accretor combinations, random case sequences and histories.",
     "Unit tests pin individual branches; agreement between entry points, swap symmetry and thresholds need the whole input space.",
     [U + "common_functions.py", "posydon/utils/gridutils.py"],
     [("check_state_of_star, infer_star_state, infer_mass_transfer_case, get_binary_state_and_event_and_mt_case, cumulative_mass_transfer_string, flip_stars", U + "common_functions.py")],
     "property-based testing against rule-table oracles and swap/entry-point metamorphic relations",
     "Independent re-statement of the rules; thresholds are explicitly in the generators; metamorphic relabelling.")

prop("P06", "Accretion onto compact objects: Eddington limit, wind capture and beaming",
     "The Eddington accretion rate of a neutron star or black hole equals the textbook formula for that history entry's mass and donor composition, whichever of the two stars it is and whether one entry or a stretch of history is requested. "
     "Wind accretion of a stretch of history equals evaluating each entry on its own, never exceeds the donor's wind loss, and is zero when an accretion disk is required but cannot form. "
     "Beamed accretion leaves sub-Eddington rates unchanged, grows with the supply above Eddington, and its beaming factor stays in (0, 1].",
     ["inputs", "histories"], "Histories of 1-5 entries with masses, orbits, winds and compositions over their physical ranges; compact object as star 1 or 2.",
     "Unit tests use constant one-entry histories, where the per-entry behaviour cannot be distinguished (a defect of this kind was found and fixed).",
     [U + "common_functions.py"],
     [("eddington_limit, bondi_hoyle, beaming", U + "common_functions.py")],
     "property-based testing: formula oracles and history/pointwise agreement",
     "Closed-form oracle for the Eddington rate, pointwise-versus-history metamorphic relation, wind bounds, beaming formula.")

prop("P07", "Supernova kicks: post-explosion orbit conserves energy and angular momentum",
     "After a supernova with any mass loss, kick and orbital phase, the new orbit has the energy and angular momentum of the kicked relative motion at the explosion site; the system is disrupted exactly when that motion is unbound, and the systemic velocity and spin-orbit tilts (also of a second explosion) follow from the same momentum vectors. "
     "White-dwarf formation and the no-kick option widen the orbit by the collapsed star's mass loss, already disrupted, merged or single systems stay so, pair-instability disruption unbinds the binary, and a surviving double compact object gets its gravitational-wave merger time. "
     "Kicks given by the user are used unchanged; drawn ones are reproducible from the seed, isotropic, and scale with the dispersion of the remnant/supernova type and the chosen fallback or mass normalisation.",
     ["inputs", "configurations"], "Masses, orbits (e up to 0.9), kicks 0-800 km/s in any direction, all orbital phases, either star exploding, first or second supernova, all kick prescriptions and normalisations.",
     "The supernova step has no unit tests; kick geometry is a 9-dimensional continuum and its mistakes (sign, star index, unbinding rule) look plausible on any single example.",
     [B + "SN/step_SN.py", U + "common_functions.py"],
     [("StepSN.__call__, orbital_kick, generate_kick, get_combined_tilt", B + "SN/step_SN.py")],
     "property-based testing against a vector two-body oracle; seeded-draw metamorphic relations",
     "The pre-explosion position/velocity is reconstructed independently (bisection on Kepler's equation, time derivative of the ellipse), the kick added as a vector, and the new energy, angular momentum, centre-of-mass velocity and tilt computed from first principles. The code rounds one direction cosine to 5 decimals, so eccentricity, velocity and tilt are compared with the envelope over that interval; cases within 1e-6 of marginal binding are not judged.")

prop("P08", "Core-collapse remnants follow the chosen prescription and stay physical",
     "For every collapse mechanism and engine, pair-instability, electron-capture, envelope and neutrino-loss option, a collapsing star becomes a white dwarf, neutron star, black hole or nothing exactly as the published rule and tabulated engine data say, with the gravitational mass, fallback fraction, supernova type, radius and spin those rules give. "
     "A neutron star is below and a black hole at or above the maximum neutron-star mass, the remnant is never heavier than the star, and a spin is never outside 0 to 1. "
     "Pre-computed remnant properties are used only when complete and consistent with the star's supernova type, and unknown options or stars that cannot collapse are refused rather than producing a remnant.",
     ["inputs", "configurations"], "CO cores 0.4-120 Msun including every prescription boundary, any He core/envelope, all 24 mechanism/engine pairs, all PISN/ECSN options and flags.",
     "The collapse code has no unit tests; piecewise prescriptions fail only on single branches or exact boundaries (one boundary crash and one documented but missing mechanism were found and fixed).",
     [B + "SN/step_SN.py", "posydon/grids/SN_MODELS.py"],
     [("StepSN.collapse_star, PISN_prescription, check_SN_type, compute_m_rembar, engine classes", B + "SN/step_SN.py")],
     "differential property testing against an independent re-implementation with engine tables",
     "Independent re-statement of Fryer+12, direct, Sukhbold+16 (nearest neighbour + interpolation in the table), Patton&Sukhbold20 (own 5-nearest-neighbour), Couch+20, Maltsev+25, Marchant+19, Hendriks+23; ties between neighbours and values within 1e-9 of a boundary are not judged; a random choice of Maltsev+25 is accepted either way.")

prop("P09", "Collapse of a stellar profile conserves mass and angular momentum",
     "When a stellar profile collapses to a black hole, the black-hole mass plus the mass radiated by the disk equals the collapsing mass minus the neutrino loss, and the spin is the angular momentum that fell in (directly or through the disk at the innermost stable orbit), always within 0 and 1. "
     "Disk masses are non-negative and zero without rotation, the innermost-stable-orbit quantities are those of a Kerr black hole, and ejected hydrogen and helium equal the abundances times the mass above the remnant. "
     "A profile lacking the needed information still yields the initial black-hole mass with an undefined spin.",
     ["inputs"], "Profiles of 30-160 shells, any mass, radius, concentration and rotation law from none to critical, any collapsing fraction and neutrino loss.",
     "No unit tests; the bookkeeping runs shell by shell, so index slips and lost terms change results by a percent.",
     [B + "SN/profile_collapse.py", B + "SN/step_SN.py"],
     [("do_core_collapse_BH, get_initial_BH_properties, compute_isco_properties, get_ejecta_element_mass_at_collapse", B + "SN/profile_collapse.py")],
     "property-based testing: conservation invariants and an independent shell integration",
     "Profiles are generated with consistent mass/radius/density; the oracle integrates shell by shell using Bardeen's closed forms and checks the two balances.")

prop("P10", "Common envelope: energy balance decides ejection, merger and post-CE orbit",
     "A common envelope (single or double) ends with the orbital energy that alpha times the released orbital energy equals the envelopes' binding energy; the binary merges exactly when a core would overfill its Roche lobe there (or the donor has no core to speak of), and otherwise the stars become their bare cores on the corresponding circular orbit, after the chosen second phase. "
     "The companion of a single-donor envelope keeps its mass, and a failed ejection leaves masses alone unless partial ejection is enabled, when each star loses at most its envelope and only layers the released energy can unbind. "
     "The binding-energy parameter derived from a profile is the envelope's summed energy down to the abundance threshold that also defines the core mass and radius.",
     ["inputs", "configurations"], "Donors 2-60 Msun in all giant states, companions MS/NS/BH/giant, periods 0.5-3000 d, alpha 0.05-10, all lambda options, core definitions and post-CE phases, profiles of 20-90 cells.",
     "The CE step has no unit tests; its outcome depends jointly on ~12 inputs and five options (two defects found and fixed).",
     [B + "CE/step_CEE.py", U + "common_functions.py"],
     [("StepCEE.CEE_simple_alpha_prescription, CEE_one_phase_variable_core_definition, CEE_two_phases_*, CEE_adjust_post_CE_core_masses", B + "CE/step_CEE.py"), ("calculate_lambda_from_profile", U + "common_functions.py")],
     "differential property testing against an independent energy balance and Roche test",
     "Energy balance, Eggleton lobes and angular-momentum laws are computed independently (numerical quadrature for isotropic re-emission); configurations within 1e-6 of marginal overflow are not judged; track matching is replaced by a stand-in returning a generated radius.")

prop("P11", "Merger products keep the mass and composition budget of their progenitors",
     "When two stars merge, the product has their total mass (less the configured fraction for two main-sequence stars), evolved cores add up, and every central and surface abundance is the mass-weighted mean over exactly the layers that mix (unchanged where nothing mixes); a star swallowed by a neutron star or black hole leaves that object unchanged. "
     "The product takes the label of the engulfing star with the configured rotation and with quantities that are no longer meaningful undefined, the other star becomes a massless remnant, and the result does not depend on which star is labelled 1. "
     "Binaries that are not merging, and pairs with no merger rule, are refused.",
     ["inputs"], "All pairs of H-rich/stripped states and WD/NS/BH companions, with and without CO cores, any masses and abundances (including missing ones), both donor labels.",
     "No unit tests; the rule is spread over ten branches, each mutating one progenitor in place (two defects found and fixed).",
     [B + "DT/step_merged.py"], [("MergedStep.__call__, merged_star_properties, mass_weighted_avg", B + "DT/step_merged.py")],
     "differential property testing against an independent mass/abundance budget",
     "The real step is called with a track matcher that stops it right after the merger; one compact rule table (which layers mix, which add) predicts every mass and abundance.")

prop("P12", "Double compact objects inspiral by gravitational waves to contact or max time",
     "For any two white dwarfs, neutron stars or black holes, any detached orbit and any age, the step follows the Peters inspiral: it ends in contact exactly when that inspiral reaches the sum of the two radii before the maximum simulation time, otherwise at that time with the orbit the inspiral has then. "
     "Masses, spins, states and systemic velocity do not change, and intermediate history entries, when asked for, lie on the same inspiral at the requested times, one entry per request in every history column.",
     ["inputs"], "All pairs of WD/NS/BH masses, eccentricities 0-0.99, inspiral times from 1e-4 to 1e3 of the time left, any start time, every history setting (none, n steps, dt).",
     "No unit tests; depends on an ODE solver in transformed variables, where an error shows only for part of the (mass, e, a) space or only with history output (two defects found and fixed).",
     [B + "DT/double_CO.py", B + "DT/step_detached.py"], [("DoubleCO, get_time_after_evo, update_after_evo, update_co_stars", B + "DT/double_CO.py")],
     "property testing of the real step against Peters' closed-form invariants",
     "The separation is generated from the wanted inspiral time, so contact and timeout are equally likely; Peters' quadrature (in another variable) and the a(e) invariant are the oracle.")

prop("P13", "Detached-orbit equations conserve angular momentum and follow the cited physics",
     "For any pair of stars and orbit, tides exchange angular momentum between spins and orbit without loss and drive towards synchronism, winds keep a(M1+M2) constant and carry away only the surface's angular momentum, gravitational radiation removes energy at the 1PN rate, and magnetic braking follows the selected law for stars below 1.5 Msun. "
     "Processes add up and vanish when switched off, the result does not depend on which star is called primary, and undefined stellar quantities never make a derivative non-finite. "
     "A step ends when a star grows to 95 per cent of its Roche lobe at periastron or reaches the end of its track.",
     ["inputs"], "Any masses, radii, structure, spins, separations and eccentricities 0-0.95; all braking laws; all subsets of processes; negative integrator excursions and NaN inputs.",
     "No unit tests; formulae are duplicated for the two stars, so errors hide in one copy or one regime (five defects found and fixed).",
     [B + "DT/step_detached.py", B + "DT/tides/default_tides.py", B + "DT/magnetic_braking/prescriptions.py", B + "DT/gravitational_radiation/default_gravrad.py", B + "DT/winds/default_winds.py"],
     [("detached_evolution.__call__, events, default_tides, *_braking, default_gravrad, default_*_winds", B + "DT/step_detached.py")],
     "metamorphic (conservation, exchange, additivity) and differential property testing",
     "The ODE object is given stars with generated properties; conservation laws and exchange symmetry need no formula, and an independent cgs implementation of each cited law pins the rates.")

prop("P14", "The detached step ends at the first of overflow, end of life and maximum time",
     "For any two stars (or star and compact object) on their single-star tracks and any orbit, the step ends at whichever comes first: a star filling 95 per cent of its Roche lobe at periastron, a star reaching the end of its track, or the maximum time, with the event naming the right star; overflow circularises the orbit by the configured rule and collapse hands over the track's final values and profile. "
     "At the end and in every recorded history entry, stars have the properties of their track at that age, rotation, angular momentum and spin agree, states match the properties, and all columns are aligned; exchanging the two stars changes only the labels. "
     "Disrupted, merged and single stars follow their track with no orbit and an untouched companion.",
     ["inputs", "histories"], "H-rich, stripped-helium and compact components 0.4-70 Msun, orbits from contact to never interacting, eccentricity 0-0.8, any start time and maximum time, all history settings, every subset of wind/spin evolution and full physics.",
     "No unit tests; errors appear only for one ordering of the two stars, one event, or one process setting (two defects found and fixed).",
     [B + "DT/step_detached.py", B + "DT/step_isolated.py", B + "track_match.py"], [("detached_step.__call__/solve_ODEs/update_after_evo, IsolatedStep, TrackMatcher.get_star_final_values/profile", B + "DT/step_detached.py")],
     "property testing of the real step on analytic tracks against closed-form orbits",
     "A synthetic single-star grid with analytic tracks stands in for the MESA data; with winds and spin only, orbit, events and spins have closed forms; with all physics, end conditions, track values, history alignment and label exchange are checked.")

prop("P15", "Single-star tracks are interpolated and matched faithfully",
     "For any single-star grid and any mass inside it, tracks, final values, profiles and remnant types are the linear interpolation between the neighbouring grid masses (the nearest mass for types), skipping runs without a value, and masses outside the grid are refused. "
     "Time interpolation reproduces the track points, stays between neighbouring points, honours the age offset and gives consistent derivatives. "
     "Matching a star to the tracks yields a point of the grid within the matching tolerance, gives the star exactly the properties of that point while keeping its rotation, leaves its companion alone, or fails with a MatchingError.",
     ["inputs"], "Random grids (2-5 masses, unequal lengths, NaN values, any file order), any query mass; tracks of 2-12 points; stars on and off the tracks (radius, mass, abundance changed), both matching methods.",
     "No unit tests; errors appear only for particular neighbours, missing values, or stars that are not on a track.",
     ["posydon/interpolation/interpolation.py", U + "interpolators.py", B + "track_match.py"],
     [("GRIDInterpolator.get/get_final_values/get_profile", "posydon/interpolation/interpolation.py"), ("SingleStarInterpolator, interp1d", U + "interpolators.py"), ("TrackMatcher.do_matching", B + "track_match.py")],
     "property testing of generated grid files and stars against an independent interpolation",
     "HDF5 grids are written from generated tables and read through the public interpolator; the oracle interpolates the generated tables with numpy; matched points are re-evaluated on the analytic tracks.")

prop("P16", "MESA grid steps take over the nearest run, in either label order",
     "For any grid of MESA binaries and any binary inside it, the step uses the nearest valid run and gives the binary and both stars exactly that run's final (or interpolated final) properties, elapsed time, profiles and collapse values, states and event derived from them, and aligned history rows of that run; compact companions grow by at most the Eddington rate. "
     "If the run would pass the maximum time, the step stops exactly there with all quantities interpolated along the run. "
     "Storing the two stars in the opposite order changes only the labels, binaries outside the period range or with an eccentric orbit are redirected unchanged, and masses outside the grid or wrong states and events fail with the documented error.",
     ["inputs", "histories"], "Random synthetic grids of all five kinds with every interpolation class, binaries on and off the grid points, both label orders, all history settings, maximum time anywhere in or exactly at the end of the run, nearest-neighbour and initial-final modes.",
     "No unit tests; errors hide in the exchanged label order, one history setting, or at the edge of the grid (eight defects found and fixed).",
     [B + "MESA/step_mesa.py", "posydon/interpolation/interpolation.py", U + "common_functions.py"],
     [("MesaGridStep and its five subclasses", B + "MESA/step_mesa.py"), ("psyTrackInterp", "posydon/interpolation/interpolation.py"), ("flip_stars", U + "common_functions.py")],
     "property testing on generated PSyGrid files with label-exchange metamorphic oracle",
     "PSyGrid files are generated from analytic stars; the oracle reads the generated tables directly, interpolates them linearly at the maximum time, and mirrors the expectation for exchanged labels.")

GR = "posydon/grids/"

prop("P17", "MESA histories are cleaned of restarts and truncated consistently",
     "For any MESA run that was stopped and restarted any number of times, scrubbing leaves exactly the models of the branch that survived, in increasing model number and age, and only models that all tables of the run hold, so the tables stay aligned row by row. "
     "Starting at Roche-lobe overflow removes exactly the rows before the first overflow or transfer and counts ages from there in every table; stopping before carbon depletion cuts all tables at the model where the first star depletes and names that star. "
     "Runs without the event are left alone or reported as such, and the reported reason for ignoring a run is the most important one.",
     ["inputs", "histories"], "Append-only logs with restarts from any earlier model, tables written at different cadence or missing columns, arbitrary (corrupted) logs, overflow by either star or by rate at any row, depletion of either or both stars at any row, ages in any table.",
     "Unit tests use fixed three-row tables; the alignment of three tables depends on the whole restart history (one defect found and fixed).",
     [GR + "scrubbing.py", U + "ignorereason.py"], [("scrub, keep_after_RLO, keep_till_central_abundance_He_C", GR + "scrubbing.py")],
     "model-based testing: generated restart histories against the surviving branch",
     "A small model of an append-only log with restarts produces both the files' rows and the surviving branch; arbitrary logs are judged by monotonicity, alignment and maximality; truncation by locating the event in the generated rows.")

prop("P18", "Termination flags and interpolation classes follow the run",
     "For any MESA output and any mass-transfer history, the first flag is the run's last decisive termination message, the second lists the mass-transfer cases in the order they occur with the donor's number and never going back to an earlier case (or says initial overflow, contact, no overflow, or no result), the others are the final states of the stars, and the interpolation class follows from the first two. "
     "The initial-overflow boundary of a grid is the longest overflowing period of each mass combination, is applied from the nearest combination, and only when enough combinations are known.",
     ["inputs"], "All termination messages, logs with several messages and noise, plain and gzipped, rows of every stellar state with either star overflowing or transferring, compact companions, runs starting at overflow; random sets of overflowing grid points.",
     "Unit tests check single flags; the cumulative flag depends on the whole sequence of donors and states.",
     [GR + "termination_flags.py"], [("get_flag_from_MESA_output, get_mass_transfer_flag, infer_interpolation_class, get_detected_initial_RLO", GR + "termination_flags.py")],
     "differential property testing against a rule-based flag model",
     "Histories are sequences of (donor, state) rows with known cases; the oracle folds them into the expected flag; logs are sequences of typed lines.")

prop("P19", "Downsampling keeps a subset of rows that reproduces the track within tolerance",
     "For any track and tolerance, downsampling keeps the first and last row and a subset of the others such that every dropped row lies within the tolerance of the linear interpolation between the kept ones (Euclidean, columns scaled to their range), and no kept points are further apart than the maximum interval unless they are neighbours. "
     "Kept values are unchanged, all tables of a run keep the same rows, excluded columns and physical units have no influence, and without a tolerance nothing is dropped; non-increasing or badly shaped input is refused.",
     ["inputs"], "1-60 rows, 1-4 columns (walks, jumps, constants, exponentials) over 70 orders of magnitude, tolerances 0 to 5 and none, absolute and relative intervals, 1-3 tables, profiles.",
     "Unit tests check a few fixed arrays; the error bound must hold for every shape of track.",
     [GR + "downsampling.py", GR + "psygrid.py"], [("TrackDownsampler", GR + "downsampling.py"), ("downsample_history, downsample_profile", GR + "psygrid.py")],
     "invariant property testing with an independent error evaluation",
     "The reconstruction error of every dropped row is recomputed from the kept rows; metamorphic: rescaling units keeps the same rows.")

prop("P20", "A grid file holds exactly what the MESA runs produced",
     "For any folder of binary or single-star MESA runs (plain or gzipped, with missing files, truncated last lines, restarts, duplicated grid points), the created grid has one entry per usable run with the surviving histories and profiles in the requested columns, initial values from the run's headers (or the start of overflow), final values of the last model, values at helium depletion from the surviving models, flags and class. "
     "Unusable runs are left out without shifting the others, runs inside the initial-overflow boundary are marked (and included without data if they failed) when asked for, and lazily and eagerly loaded grids are identical. "
     "An existing file is not overwritten unless asked.",
     ["inputs", "faults"], "1-4 runs per folder (about 50 for the boundary), 1-9 models with up to two restarts, every kind of missing or truncated file, both grid kinds, all column settings, start at overflow, stop before carbon depletion, slim, downsampled, all compressions.",
     "Unit tests build two fixed folders; index bookkeeping goes wrong only for particular combinations of ignored and kept runs (one defect found and fixed).",
     [GR + "psygrid.py", GR + "io.py", U + "gridutils.py", GR + "lazy_hdf.py"], [("PSyGrid.create/_create_psygrid/load", GR + "psygrid.py"), ("GridReader, RunReader", GR + "io.py"), ("read_MESA_data_file, fix_He_core", U + "gridutils.py")],
     "property testing on generated MESA folders with injected file faults",
     "A writer produces MESA folders in the real layout from a run description and returns what a reader should see; the oracle derives the expected entry and the created file is compared value by value after lazy and eager loading.")

prop("P21", "Joining, extending and re-loading grids loses and mixes nothing",
     "Joining any compatible grids gives one entry per grid point, taken completely from the last grid that has it (none if that one found no overflow), re-applying the initial-overflow boundary of all grids together when configured; incompatible grids are refused and inputs stay untouched. "
     "Any sequence of adding or overwriting columns and re-loading, lazily or eagerly, leaves in memory and in the file exactly the last values written to each column, with all other columns, run tables, initial values and supernova data unchanged.",
     ["inputs", "histories"], "1-3 grids with overlapping points and every termination flag, with and without string columns; histories of up to six add/overwrite/reload operations on numeric and string columns of any length in either loading mode.",
     "Unit tests join two fixed grids and add one column; lazy loading combined with adding columns was broken in several ways (four defects found and fixed).",
     [GR + "psygrid.py", GR + "lazy_hdf.py"], [("join_grids, PSyGrid.add_column/update_final_values/load", GR + "psygrid.py"), ("LazyHDF5", GR + "lazy_hdf.py")],
     "stateful (model-based) testing of operation histories on generated grid files",
     "A dictionary of columns is the model; after every operation the grid is compared with it through table and run views; joins are compared with a dictionary of grid points.")

IN = "posydon/interpolation/"
prop("P22", "Interpolated final values are made physically consistent; scalings invert",
     "For any set of interpolated quantities, the corrected values satisfy the Stefan-Boltzmann law, Kepler's third law, the sum of nuclear luminosities, system mass loss not above the transfer rate with the matching transferred fraction, cores and envelope regions inside the star (CO core inside He core, all in mass and radius), convective regions inside the star, and abundances that sum to one; values that already satisfy a relation, and quantities in none, are unchanged, unknown inputs give unknown results, and a second pass changes nothing. "
     "Which relations apply depends only on the quantities of that interpolator, not on others set up before. "
     "Every data scaling is inverted exactly by its inverse, for seen and unseen data, per column and per class.",
     ["inputs", "histories"], "Arbitrary values (including zeros, edges of the allowed region, -99 rates and NaN) for all or any subset of about 90 quantities, one or two stars, up to three selections after one another; ten scaling methods over 1-12 orders of magnitude.",
     "The module has no unit tests; selecting relations for one interpolator silently removed them for the next (fixed), and the convective-region correction failed for particular thicknesses (fixed).",
     [IN + "constraints.py", IN + "data_scaling.py", IN + "IF_interpolation.py"], [("find_constraints_to_apply, sanitize_interpolated_quantities", IN + "constraints.py"), ("DataScaler", IN + "data_scaling.py"), ("MatrixScaler, Scaler", IN + "IF_interpolation.py")],
     "property testing with recomputed physical relations; round trips",
     "Each relation is recomputed from the output with textbook formulas and compared with the input's admissible value; idempotence and non-interference are metamorphic checks; scalers are checked by round trip and by their defining statistics.")

prop("P23", "Initial-final interpolation reproduces training runs and stays within its class",
     "For any training grid (uniform in secondary mass or mass ratio), a system equal to a training run gets that run's classes and final values; elsewhere a system gets the class of its neighbours, and per class the linear interpolation between that class's runs inside their hull (exact for quantities linear in the scaled inputs, always within the class's range), the nearest run of the class outside it or in nearest-neighbour mode, and no values if it overflows initially or its class has no interpolator. "
     "Failed, ignored and incomplete runs have no influence. "
     "Saving and loading, and asking for many systems at once, give the same answers; overlapping sets of quantities are refused.",
     ["inputs"], "Grids of 36-64 runs (regular or jittered), 1-3 classes with initial overflow, failed and incomplete runs, class-wise or common linear/nearest interpolation, given or automatic scalings, 1NN and kNN classes, supernova quantities with their own classes; systems at, between and outside the runs.",
     "The module has no unit tests; class-wise scalings were fitted to the wrong runs and the class-independent mode returned scaled numbers (four defects found and fixed).",
     [IN + "IF_interpolation.py"], [("IFInterpolator, BaseIFInterpolator, MC_Interpolator, LinInterpolator, NNInterpolator, KNNClassifier", IN + "IF_interpolation.py")],
     "property testing with an exactly solvable grid (affine in the scaled inputs) and geometric oracles",
     "Final values are generated as affine (or exponential-of-affine) functions per class, so any triangulation must return the exact value inside the hull; hull side and nearest runs are computed independently; the pipeline's automatic configuration is judged by reproduction at the runs, class ranges and physical relations.")

PS = "posydon/popsyn/"
prop("P24", "Initial populations follow the configured distributions",
     "Every initial-condition distribution (mass functions, mass ratios, periods, separations, eccentricities) has a density that follows its law, is normalised and vanishes outside its limits, and samples that stay inside the limits and follow that density; contradictory limits are refused. "
     "A generated population has the requested number of systems, each quantity in its range and distributed as configured given the primary mass (secondaries between the minimum and the smaller of primary and maximum), the configured share of binaries, no orbit, eccentricity or companion exactly for single stars, and depends only on its settings and random state, not on earlier calls. "
     "Populations read from a file reproduce its rows in order, cyclically from the given index, under any accepted column name.",
     ["inputs", "histories"], "12 distributions over wide parameter ranges (3000 samples each, Kolmogorov-Smirnov distance), populations of 1-1500 systems over all schemes, sequences of Moe+17 calls with changing limits and Moe+17 tables of any resolution and limits against a reference of the published model, tabulated-density and histogram samplers, sample files with any column aliases and offsets.",
     "Unit tests fix the random numbers or look at single values; several samplers did not follow their density for other limits (eight defects found and fixed).",
     [PS + "distributions.py", PS + "IMFs.py", PS + "independent_sample.py", PS + "sample_from_file.py", PS + "Moes_distributions.py"], [("distribution classes", PS + "distributions.py"), ("IMFs", PS + "IMFs.py"), ("generate_independent_samples", PS + "independent_sample.py"), ("get_samples_from_file, get_kick_samples_from_file", PS + "sample_from_file.py"), ("inverse_sampler, rejection_sampler, histogram_sampler", "posydon/utils/common_functions.py")],
     "property testing with analytic densities and Kolmogorov-Smirnov tests at a 1e-9 level",
     "Densities are recomputed from the laws (power laws, broken power laws, log-normals) and normalised independently; samples are compared with the analytic cumulative distribution with a fixed seed per case and a threshold (sqrt(n) D < 3.2) that a correct sampler exceeds with probability 2e-9. Period densities are per log10 P. LogUniform.pdf is ln(10) times too large (known finding, pinned by a unit test).")

prop("P25", "Reweighting turns a simulation into the requested population",
     "For any simulated and requested parameters, the population density is the product of binary fraction, mass function, mass-ratio and period density (per log period, also when configured by separation), the mean mass is that of the systems such parameters generate, and each simulated system is weighted by requested over simulated density times the ratio of mean masses per simulated mass: finite, never negative, zero where nothing is requested, and 1/M_sim for unchanged parameters. "
     "The weights of a generated simulation therefore add up, within its statistical error, to the number (and mass, and binaries) of the requested population per unit mass. "
     "Requesting only single stars or only binaries where none were simulated is refused.",
     ["inputs"], "Four mass functions, flat or power-law mass ratios with fixed or mass-dependent limits, three orbital schemes, any binary fraction, systems inside and outside of either range; Monte Carlo simulations of 6000 systems.",
     "Unit tests only check signs and one simple case; the mean mass was wrong for mass-dependent mass-ratio limits and the separation scheme's density missed a factor (two defects found and fixed).",
     [PS + "norm_pop.py"], [("get_pdf, get_mean_mass, calculate_model_weights", PS + "norm_pop.py")],
     "property testing with independently integrated densities; Monte Carlo closure against the real sampler",
     "Densities and mean masses are recomputed by independent quadrature; the closure test draws from generate_independent_samples and compares weighted sums with expectations within 6.5 standard errors, where no few systems dominate.")

prop("P26", "Population runs store every system exactly once, however batched or split",
     "For any population settings, the saved file holds for each requested system exactly the history and summary it gets when drawn and evolved alone in the same order, independent of batching, memory options, or splitting over job-array or MPI ranks (which together evolve every system once, with different random numbers, reproducibly); failing systems are recorded as failed and affect no other, and the recorded simulated mass, number and settings match the systems. "
     "Combining batch files takes each readable batch completely and leaves unreadable or incompatible ones, completely, in place. "
     "Systems can be read back by index with histories, scalars and failure state, or restored to their start; drawn systems can be drawn again, and birth times follow the configured scenario.",
     ["inputs", "histories", "faults"], "1-9 systems, three metallicities, single stars, steps that fail or warn for some systems, four memory modes and any dump rate, subsets of indices, 1-4 ranks, batches damaged in seven ways.",
     "Evolving, saving and combining populations has no unit tests; batches that could not be combined were deleted (four defects found and fixed).",
     [PS + "binarypopulation.py", PS + "star_formation_history.py"], [("BinaryPopulation.evolve/save/combine_saved_files", PS + "binarypopulation.py"), ("PopulationManager, BinaryGenerator", PS + "binarypopulation.py"), ("get_formation_times", PS + "star_formation_history.py")],
     "differential testing of batching modes and ranks against one-by-one evolution; fault injection on batch files",
     "Stub evolution steps draw from the population's random numbers, so any change of order, loss, duplication or mixing changes the histories; the reference draws and evolves each binary directly. Files are read back with pandas and compared value by value. Wall-clock step times are ignored.")

prop("P27", "Population files return and export exactly the selected systems",
     "Reading the history or summary table of any population file by index, list, slice, mask, column, row range or condition gives exactly the rows that selection names, in file order and with all values, whatever the chunk size, the order of the file or gaps in its indices; an empty selection is empty. "
     "After any history of exports (new, overwriting or appending, any selection in any order, from files of one or more metallicities), the exported file holds exactly the exported systems, numbered consecutively in the order given and consistently in all tables, with metallicities in solar units, summed simulated masses, counts per metallicity and the run settings; sources never change and existing files are only replaced on request. "
     "Opening a file with a metallicity recomputes the simulated masses of single stars and binaries from its systems.",
     ["inputs", "histories"], "1-12 systems in up to three blocks in any order with gaps, shuffled or reversed; chunk sizes from one; thirteen kinds of keys; up to four exports from two sources of up to three metallicities, with and without formation channels and metallicity column.",
     "Unit tests read and export tiny sorted files in one chunk; masks, open slices, empty selections, unsorted files and repeated exports gave wrong rows or counts (seven defects found and fixed).",
     [PS + "synthetic_population.py"], [("DFInterface, History, Oneline", PS + "synthetic_population.py"), ("Population.__init__, export_selection", PS + "synthetic_population.py")],
     "model-based testing of read and export histories on generated population files",
     "The generated tables are the model: every read is compared with the pandas selection on the full table, every export with a list of (new index, history, summary, channel) records.")

prop("P28", "Formation channels, transients and weights belong to their own system",
     "For any population file and chunk size, each system's formation channel is its sequence of events with the HMS-HMS mass-transfer class (and contact phase, when asked for) inserted after the start and bookkeeping events removed in the short form. "
     "A transient population is exactly what the selection function gives for all systems: each call sees the histories, summaries and channels of the same systems, and every system once. "
     "Each event's model weight is that of its own system and metallicity (single stars included), stored with its parameters, and efficiencies are the sums of the weights per metallicity and channel.",
     ["inputs"], "Files in any order with gaps, chunks from one system, zero to several events per system, one or two metallicities, single stars, several weight sets, repeated creation and overwriting.",
     "Unit tests use two systems in sorted order and mock the weights; for unsorted files channels, transients and weights went to other systems and single stars had none (five defects found and fixed).",
     [PS + "synthetic_population.py"], [("calculate_formation_channels, create_transient_population", PS + "synthetic_population.py"), ("TransientPopulation.calculate_model_weights, efficiency", PS + "synthetic_population.py")],
     "differential testing against an unchunked reference on generated population files",
     "Channels are rebuilt from the event lists, transients from the selection applied to the whole table, weights from the weight function (P25) applied to the systems in index order.")

prop("P29", "Cosmic rates count every event once, at its redshift, with its weight",
     "For any transient population, chunk size and star-formation settings, the redshift bins are equal steps of cosmic time back from today (the last one ends at z=100) with centres inside; every event gets for each birth bin the redshift at birth time plus delay (none after today) and the weight 4 pi c D_c^2 dt times star formation of its birth bin and metallicity bin times its model weight, in the order of the events and independent of rates computed before. "
     "Intrinsic rate densities are, per redshift bin and channel, the summed weights over the shell's comoving volume per source-frame time (so they equal star-formation density times weight at the birth time), and observable populations are the given function applied to every event with its own redshifts and weights.",
     ["inputs", "histories"], "Files in any order with zero to several events per system, delays from kyr to beyond the Hubble time, one to four metallicities with every bin-edge rule, time steps of 70-3000 Myr, four analytic star-formation models, chunk sizes from one.",
     "Unit tests check two events with a mocked star-formation rate and the default time step; many time steps failed, settings leaked into later rates and events were lost (three defects found and fixed).",
     [PS + "synthetic_population.py", PS + "rate_calculation.py"], [("TransientPopulation.calculate_cosmic_weights, Rates", PS + "synthetic_population.py"), ("get_redshift_bin_edges/centers, get_shell_comoving_volume", PS + "rate_calculation.py")],
     "differential testing against an independent event-by-event computation; closure test of units",
     "Ages and distances come from astropy's Planck15 (the cosmology the code names); bins, weights, sums and chunking are recomputed per event. The closure test needs no formula: a single kind of event at fixed delay must reproduce the star-formation density times weight.")

prop("P30", "Star formation is distributed over metallicity as the model says",
     "For every star-formation model, redshift and set of metallicity bins, the star formation per bin is the model's rate density times the share of its metallicity distribution between the bin's edges, clipped to the metallicity limits and with the outer bins extended to them; shares are never negative, NaN or outside the limits, and add up to one when normalisation is requested and anything forms. "
     "Log-normal models have the model's mean metallicity; tabulated models reproduce their table at its redshifts and use the distribution of the last epoch before, with no star formation in empty epochs. "
     "Unordered bins, contradictory limits and unknown models are refused.",
     ["inputs"], "Seven models (the tabulated ones on generated tables), 1-6 bins anywhere between 1e-5.5 and 0.5, limits inside, outside and on the edges, redshifts 0-99, any width.",
     "Unit tests check a few bin edges; limits outside the bins gave stars beyond the limits or an error and normalisation gave NaN at high redshift (two defects found and fixed).",
     [PS + "star_formation_history.py"], [("SFHBase, MadauBase, Neijssel19, IllustrisTNG, Chruslinska21, Zavala21, SFR_per_met_at_z", PS + "star_formation_history.py")],
     "property testing with independently computed distributions (error function, tables)",
     "Log-normal distributions are recomputed with the error function from mean and width; tables are generated in the documented file formats in a scratch data directory. An empty first epoch in mean_metallicity is refused by an assertion that a unit test pins (not claimed).")

prop("P31", "Selected transients and their detection describe their own event",
     "For any population and chunking, the GRB selection picks each system whose chosen star radiated from a collapse disk exactly once, with time, orbit, spins and masses just before and after that star's black-hole formation and the channel up to it; the binary-black-hole selection gives one merger per system with the time of its end, the properties at double black-hole formation and the derived inspiral time, chirp mass, mass ratio and effective spin (undefined spins and tilts count as zero). "
     "Detectable rates are the given rates times the detection probability (the inverse-distance mean of the ten nearest points of the sensitivity's table) of the heavier mass, mass ratio, effective spin and redshift, whichever star carries which label. "
     "GRB energies are the efficiency times the rest energy of that star's radiated disk over its beaming, for bursts above the threshold only; tables handed in are not altered.",
     ["inputs"], "1-12 systems in any index order with either order of supernovae, other remnants, missing disks, spins and tilts, chunks from one system; generated detection tables of 11-200 points, all sensitivities; every beaming model.",
     "Unit tests use one system with a mocked detection model and never touch GRB.py; chunks without bursts failed, mergers with a heavier second star got the wrong probability and input tables were overwritten (three defects found and fixed).",
     [PS + "transient_select_funcs.py", PS + "selection_effects.py", PS + "GRB.py"], [("GRB_selection, BBH_selection_function, chi_eff, DCO_detectability", PS + "transient_select_funcs.py"), ("KNNmodel", PS + "selection_effects.py"), ("get_GRB_properties", PS + "GRB.py")],
     "differential testing against per-system references on generated populations; relabelling relation; KS test of drawn angles",
     "The generator keeps, per system, the history rows it wrote, so every expected value is looked up by construction. Detection tables are generated and read through the real KNN model; the reference sorts all points by distance. GRB energies are recomputed from the disk masses; the Pescalli+15 relation is only claimed to be monotonic.")

prop("P32", "A run uses exactly the settings of its inifiles",
     "For any inifiles (later ones override), population settings are exactly the Python literals written, merged per section with the rank taken from the job array (MPI inside one is refused); every step section gives its class (built-in or from a file) and settings, every numbered hook its class and settings in order, and a single section can be read alone. "
     "Loading or reloading the steps, at any sequence of metallicities, gives each step its own settings, the metallicity asked for, the random generator, its grid path and a track matcher with its own settings on the tracks of that metallicity, without changing the stored settings; steps without a list of settings work and missing ones are skipped. "
     "Tables prepared for saving keep all columns, rows and values and have the declared data types, user-defined columns included.",
     ["inputs", "histories"], "Generated inifiles with nested literals, comments, multi-line values and any section order; hooks numbered with gaps; steps with and without listed settings or matching, up to three loads; real single-star grid files per metallicity.",
     "Unit tests parse one inifile with mocked imports and never load a step; hooks were dropped, user steps could not be loaded, reloading kept the old metallicity and lost matching settings, and some user columns could not be saved (five defects found and fixed).",
     [PS + "io.py", B + "simulationproperties.py"], [("binarypop_kwargs_from_ini, simprop_kwargs_from_ini, clean_binary_*_df", PS + "io.py"), ("SimulationProperties.load_steps, load_a_step, check_step", B + "simulationproperties.py")],
     "round-trip testing of generated inifiles; model-based testing of (re)loading sequences",
     "The generator's dictionaries are the oracle: writing them as an inifile and reading it back must give equal values of equal types. Stub steps record what they are constructed with. A step without its own metallicity takes the one of the step loaded before it (documented use relies on that; not claimed either way); '%' in values is ConfigParser interpolation and out of domain.")

prop("P33", "A binary evolved from birth to its end has a consistent history",
     "Evolved with the shipped settings from zero age to the end, any binary has a history in which time never runs backwards or beyond the limit, masses stay positive, bound orbits obey Kepler's law with an eccentricity below one, remnants never become stars again and keep their mass without accretion, collapses take no time and leave the companion's mass alone, and disruption is final. "
     "Exchanging the two stars exchanges them in the whole history and changes nothing else; the history is identical whether the binary is evolved alone, after other binaries, or again after being restored; natal kicks change nothing before the collapse and nothing after an unbinding one; a shorter time limit gives the beginning of the longer history, followed up to the limit. "
     "Failures are POSYDON errors of that binary only.",
     ["inputs", "histories"], "Primaries of 6-60 Msun, mass ratios 0.2-0.99, periods 2-5000 d, kicks 3-1500 km/s in any direction, two common-envelope efficiencies, time limits from 10 kyr to the Hubble time; two complete synthetic libraries of single-star and binary models.",
     "No unit test evolves a binary: without the released model library the steps are never run together. Here a synthetic library (consistent tracks, Roche-lobe overflow, stripping, all SN models) drives all steps; the exchange relation found that a common envelope re-matched the donor instead of its companion.",
     [B, "posydon/popsyn/population_params_default.ini"], [("BinaryStar.evolve and all default steps", B + "binarystar.py"), ("StepCEE.adjust_secondary_radius", B + "CE/step_CEE.py")],
     "metamorphic and invariant testing of complete evolutions on a generated model library",
     "harness/e2e.py writes single-star grids and the four binary grids (150 runs each) with nearest-neighbour look-up and loads the default inifile on them. Orbits and rotation are compared with the accuracy of the integrator. Overflow in the last moments of a C-depleted star has no successor in the flow chart and counts as a failed binary; the accretion rate of remnants is drawn at a random orbital phase and not compared.")

prop("P34", "A job-array population survives killed tasks without losing or doubling systems",
     "A population set up with posydon-popsyn as a job array and submitted ends, after any number of tasks or merges killed at any point and repeated check-and-rescue rounds from any folder, with one population file per metallicity holding every system exactly once, with its own metallicity, number of systems and simulated mass; with a fixed entropy it equals an uninterrupted run. "
     "A task's combined file or a population file that exists is complete; the check passes exactly when all populations are complete, and otherwise resubmits exactly the missing tasks of each metallicity with their place in the original array and the options of the run (or the new ones given), each followed by its merge; finished tasks are not run again or altered. "
     "Nothing is submitted or written without the user's consent, and runs with more tasks than systems are refused.",
     ["crash points", "histories", "inputs"], "1-5 real tasks of 4-11 systems for 1-2 metallicities killed before or after any step, table write, rename or removal (with torn files), up to three rounds of kills; generated run folders with up to 256 tasks, 1-4 metallicities, any set of missing tasks, logs, options and answers.",
     "Unit tests check single script texts with mocked runs; a task killed while combining its files lost systems for good, rescue from another folder or with another metallicity complete failed (three defects found and fixed).",
     ["posydon/CLI/", PS + "binarypopulation.py", PS + "io.py", "bin/posydon-popsyn"], [("setup_popsyn_function, check_popsyn_function, create_batch_rescue_script", "posydon/CLI/"), ("BinaryPopulation.evolve, combine_saved_files", PS + "binarypopulation.py")],
     "fault injection at every file effect with a stand-in scheduler; invariants over the run history and differential against an uninterrupted run",
     "A stand-in sbatch records submissions made by the generated shell scripts; the submitted scripts are run by bash with SLURM's variables and a stand-in srun, and the Python command is then run in this process with stub steps whose results encode the system and metallicity. Kills are raised as exceptions before or after the n-th effect; half of them also tear the file being written. Merges wait for their array as SLURM's afterok does. Batch folders that were never created and stale files of a differently split run are out of scope.")

prop("P35", "Post-processed quantities describe each run's own stars",
     "For any grid of binary or single-star models, post-processing gives every run, from that run's tables alone: its mass-transfer history class, each star's state, carbon fraction and core mass at helium depletion, remaining abundances, common-envelope binding and cores, and, per supernova model, the collapse of exactly the star whose end stopped the run (nothing where it did not end in a collapse or none is computable). "
     "Any part of a grid gets the same rows as the whole grid, and exchanging the two stars exchanges their columns. "
     "Storing them keeps every run, table and value of the grid file, adds or replaces exactly the new quantities and the settings of each supernova model, and quantities of other runs are refused.",
     ["inputs", "histories"], "Grids of 1-5 runs of all types (both stars, compact companions, helium stars, single stars) with every interpolation class and mass-transfer flag, either star ending, missing profiles and abundances, any 1-3 of the supernova models, partial index ranges, repeated post-processing.",
     "Unit tests process a few mocked runs with a mocked supernova step; which star collapses, which run a row belongs to and what the file keeps depend on every combination of flags, profiles and states.",
     ["posydon/grids/post_processing.py", "posydon/grids/SN_MODELS.py", "posydon/utils/common_functions.py"], [("post_process_grid, add_post_processed_quantities", "posydon/grids/post_processing.py"), ("get_SN_MODEL", "posydon/grids/SN_MODELS.py"), ("CEE_parameters_from_core_abundance_thresholds, calculate_Patton20_values_at_He_depl", "posydon/utils/common_functions.py")],
     "differential testing against a per-run reference on generated grid files; exchange and partition relations",
     "The reference builds stars from the rows it wrote, looks for helium depletion in the whole history, interpolates the core boundaries in the profile it wrote and collapses a fresh star with a fresh supernova step per model; the reverse-mass-transfer class of black holes and the legend of each flag are spelled out by hand. The binding energy itself is P09/P10's subject and only reused here. Maltsev+25 models draw the outcome of part of their range at random: either outcome is accepted, as a whole.")

prop("P36", "Every MESA run of a grid gets its own grid point on top of the chosen inlists",
     "For any inifile, inlists and grid of points, posydon-setup-grid and posydon-run-grid run every point exactly once (shell or job array), with the executables built from the most specific extras, in which MESA ends up, in every namelist of both stars and the binary, with the values of the grid point over the chosen output settings over the user's inlists over POSYDON's (or the scenario's at the given commit) over MESA's defaults. "
     "Formation steps of a star run in their order with their own inlists, the point's mass and metallicity, each from the model of the step before, and the binary starts from the last one, unless a ZAMS file supersedes them. "
     "Each point's results end in a folder of its own with MESA's output and the chosen column lists, profiles and photos only if wanted, nothing left in the temporary folder, and a copy of the results so far is made shortly before the job ends.",
     ["inputs", "histories"], "1-4 points with up to four further grid parameters of any namelist (numbers and logicals), every combination of defaults, POSYDON, user and scenario layers in any order and formatting, 0-3 formation steps per star, single-star grids of 1-3 steps, temporary folders, repeated setups.",
     "No unit test touches the two scripts; third formation steps reran the second, grid parameters of binary_job had no effect, a scenario overrode the user's inlists and MESA ran in the background where sh is not bash (four defects found and fixed).",
     ["bin/posydon-setup-grid", "bin/posydon-run-grid", "posydon/utils/configfile.py", "posydon/utils/gridutils.py"], [("find_inlist_from_scenario, construct_static_inlist, make_executables", "bin/posydon-setup-grid"), ("create_binary_inlists, create_star_formation, run_mesa, run_grid_point", "bin/posydon-run-grid"), ("parse_inifile", "posydon/utils/configfile.py"), ("clean_inlist_file", "posydon/utils/gridutils.py")],
     "end-to-end testing with stand-in MESA executables; effective namelists against a layering reference",
     "Both scripts are run in this process; make, bash and git are real (the scenario is a local repository with two commits), while the executables only record the inlists they are given. An independent reader follows MESA's rules for extra inlists (a missing file or section is an error) and the effective values are compared with the generator's layers. Names are spelled alike in all layers; strings as grid values, more than seven varied parameters (folder names too long), dynamic grids (need MPI), scenarios forming star 2 or single helium stars and local user inlists on top of a scenario's own ones are out of scope.")

prop("P37", "The grid pipeline makes each product once, from its own inputs and after them",
     "For any pipeline inifile and any set of existing files, posydon-setup-pipeline submits, for every active step and its plots and checks, one task per requested grid type, metallicity, slice (or combination), compression and method (skipping those with missing inputs where asked), each submitted exactly once and only after all earlier steps, with a log of its own that the clean-up keeps; a job without tasks is refused. "
     "Each task of posydon-run-pipeline writes only its own product: a grid as its compression prescribes (the same for compressed MESA output), the slices joined in their order, the reduced grid with the quantities of the full one, an interpolator trained on every quantity and class of its grid, an identical export. "
     "A rerun holds the initial values of exactly the runs its rule selects, once, with its changed settings and its metallicity's files.",
     ["inputs", "histories", "schedules"], "1-3 grid types, metallicities, slices and compressions in any combination, any subset of active steps, missing or earlier files, plots and checks, left-out keywords; real grids of 1-4 MESA run folders through steps 1-4 and F with tasks in any order and repeated; all rerun types over generated histories and outputs.",
     "No unit test touches the two scripts; checks were set up with the wrong interpolator, documented inifiles were refused, logs had no folder, compressed runs were never selected for a rerun and odd folder names never compressed (five defects found and fixed).",
     ["bin/posydon-setup-pipeline", "bin/posydon-run-pipeline", "posydon/utils/compress_mesa_files.py", "posydon/utils/gridutils.py", "posydon/grids/psygrid.py"],
     [("create_csv, slurm_job, create_csv_and_slurm_job_files", "bin/posydon-setup-pipeline"), ("create_grid_slice, combine_grid_slices, calculate_extra_values, train_interpolators, logic_rerun, copy_ini_file", "bin/posydon-run-pipeline"), ("PSyGrid.rerun", "posydon/grids/psygrid.py"), ("compress_dir", "posydon/utils/compress_mesa_files.py")],
     "model-based testing of the generated job graph with a stand-in scheduler; differential testing of each task against direct library calls",
     "The reference enumerates the tasks from the documented meaning of the inifile; the generated shell script is run by bash with a stand-in sbatch and the dependencies are followed transitively. Log merging is run for real in the scratch folder; changing groups is recorded by stand-ins. Tasks run in this process on real PSyGrid files (the interpolator is a stand-in that records what it is trained on: training itself is P22/P23). Step 5 (profile interpolators) and the pictures drawn by the plot tasks are out of scope.")

prop("P38", "Active learning keeps labels with their points and proposes new ones in range",
     "For any table of labelled points, psy-cris keeps every row's inputs, class and outputs together (with the average changes to its nearest neighbours of the same class), its classifiers and regressors give normalised probabilities, classes and values which reproduce the training data of exactly their class and are not altered by a cross validation (also a failing one), which trains and tests on disjoint points. "
     "Sampled chains stay in the ranges of the data and accept steps and exchanges between temperatures with the Metropolis probability of the documented target. "
     "A query returns the requested number of new points out of the chain, never one of the data, each with the class predicted for it, leaves settings and data as they were, and dynamic sampling adds them with their true labels until the requested size.",
     ["inputs", "histories"], "Tables of 2-40 rows in 1-3 dimensions from frames or up to three files, text or number classes (also negative, with gaps), zeros, omitted rows and columns, lists of neighbours in any order, small classes and ones without outputs; random targets, temperatures, boxes and chains; density, random and small-class proposals, repeated queries.",
     "No unit test touches psy-cris; number classes were mixed up with ids, a failed cross validation replaced the classifiers, average changes were mislabelled, settings could not be used twice, dynamic sampling failed altogether (eleven defects found and fixed).",
     ["posydon/active_learning/psy_cris/data.py", "posydon/active_learning/psy_cris/classify.py", "posydon/active_learning/psy_cris/regress.py", "posydon/active_learning/psy_cris/sample.py", "posydon/active_learning/psy_cris/utils.py"],
     [("TableData", "posydon/active_learning/psy_cris/data.py"), ("Classifier.return_probs, cross_validate", "posydon/active_learning/psy_cris/classify.py"), ("Regressor.get_predictions, cross_validate", "posydon/active_learning/psy_cris/regress.py"), ("Sampler.run_PTMCMC, run_MCMC, do_simple_density_logic, get_proposed_points", "posydon/active_learning/psy_cris/sample.py"), ("get_new_query_points, do_dynamic_sampling", "posydon/active_learning/psy_cris/utils.py")],
     "differential testing against brute-force references on generated tables; scripted chains; acceptance frequencies against their expectation",
     "References: brute-force neighbours, direct scipy interpolation of one-hot classes, the documented target formulas. Acceptance of single steps and of points next to the data is repeated 300-400 times and compared with its expectation within 6.5 standard deviations. Exchanges are decided by scripted chains over a target with a huge contrast, in which every exchange is certain or impossible. A chain keeps accepted steps only (no repeats), so its distribution is not compared with the target's. Gaussian processes only on separated classes; plots are out of scope.")
