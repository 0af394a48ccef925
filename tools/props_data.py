NOT_APPLICABLE = {}

BE = "posydon/binary_evol/"

prop("F01", "The flow chart routes every total state to the right step, symmetrically",
     "For every combination of the two stars' states, the binary's state and event, the default "
     "flow chart and its eccentric variant give exactly the documented next step, the same one "
     "when the two stars are exchanged (with the star numbers in the state and event exchanged "
     "too), and no step where none is defined. Terminal situations (time up, compact-object "
     "contact, initial overflow) go to the end or their dedicated step, and a core collapse only "
     "goes to the supernova step for a star that can collapse. Customising a chart changes only "
     "the entries named and never affects a chart built later.",
     ["inputs", "configurations"],
     "every total state (20 x 20 x 8 x 22) of both charts; every customisation of existing entries, "
     "in any order of building charts",
     "The charts are built by nested overwriting loops over 70 400 total states; tests look at a "
     "handful of keys and cannot see an overwritten or asymmetric entry.",
     [BE + "flow_chart.py"],
     [("dictionary built by successive loops", BE + "flow_chart.py: POSYDON_FLOW_CHART"),
      ("copy before customising", BE + "flow_chart.py: flow_chart, initial_eccentricity_flow_chart")],
     ["flow_chart()", "initial_eccentricity_flow_chart()"],
     "Complete: every declared total state of both charts is compared with an independently written "
     "case analysis in FlowChart.tla, whose mirror symmetry and terminal-state invariants TLC checks "
     "exhaustively. Customisations are sampled.")

prop("E01", "Evolution takes the charted steps, with hooks in order, and always ends",
     "Evolving a binary repeatedly runs the step its current total state maps to in the flow chart, "
     "calling all hooks around each recorded step in registration order, until an end event, a "
     "configured end event or end state is reached. It never exceeds the configured step limit or "
     "the time budget of a step without failing, fails for undefined or uncharted total states, for "
     "missing steps and for binaries older than the maximum time, and never swallows a step's "
     "failure. However it ends, no timer of the evolution is left armed.",
     ["histories", "configurations", "fault_sequences"],
     "every sequence of step outcomes (state changes, intermediate rows, failures, hangs), start "
     "state, end condition, hook set, verbosity and step limit",
     "Tests evolve a few fixed scripts; the order of steps, hooks, limits and failures over all "
     "histories is not reachable by examples.",
     [BE + "binarystar.py", BE + "simulationproperties.py"],
     [("evolve loop", BE + "binarystar.py: BinaryStar.evolve"),
      ("single step", BE + "binarystar.py: BinaryStar.run_step"),
      ("hook dispatch", BE + "simulationproperties.py: SimulationProperties.pre_step ...")],
     ["BinaryStar.evolve()", "step and hook calls"],
     "TLC checks the loop's model exhaustively for all scripts of up to three step outcomes; the same "
     "scripts and long random walks are replayed through the real evolve with scripted steps, and every "
     "recorded trace is checked against the specification.")

prop("E02", "The history of a binary is exactly the sequence of its recorded states",
     "After any evolution, every history column of the binary and of both stars has one entry per "
     "recorded state, holding the values at that moment; intermediate redirect states appear only in "
     "verbose mode, and hook columns (step names, step times, user columns) stay aligned with the "
     "rows. The exported history table holds exactly those rows and values under the binary's index, "
     "and the one-line table holds the first and last of them. Exporting changes nothing.",
     ["histories", "configurations"],
     "every sequence of evolutions and restores, with intermediate rows, redirects, failing steps, "
     "with and without hooks, for every column",
     "Tests check a few columns after one step; misaligned or swapped columns need particular step "
     "sequences to show.",
     [BE + "binarystar.py", BE + "singlestar.py", BE + "simulationproperties.py"],
     [("append_state", BE + "binarystar.py: BinaryStar.append_state"),
      ("to_df, to_oneline_df", BE + "binarystar.py, singlestar.py"),
      ("hook columns", BE + "simulationproperties.py: TimingHooks, StepNamesHooks")],
     ["*_history attributes", "to_df()", "to_oneline_df()"],
     "TLC enumerates operation scripts; each is executed on real binaries in which every cell carries a "
     "distinct value, and all columns are checked against History.tla.")

prop("E03", "Restoring a binary gives back exactly its earlier state and record",
     "Restoring a binary to any recorded row makes all current values those of that row and leaves "
     "exactly the rows up to it, for the binary, both stars and hook columns, whatever happened "
     "before (including failures, or never having been evolved). Evolving onwards from there appends "
     "to that record as if the later rows had never existed. Resetting is restoring to the first row, "
     "optionally with new simulation properties that are then used.",
     ["histories", "fault_sequences"],
     "every sequence of evolve, restore(i) and reset operations, with failing steps and hooks",
     "The tests restore once after one evolution; stale columns only show in longer sequences.",
     [BE + "binarystar.py", BE + "singlestar.py"],
     [("restore/reset", BE + "binarystar.py: BinaryStar.restore, reset"),
      ("star restore", BE + "singlestar.py: SingleStar.restore")],
     ["BinaryStar.restore()", "BinaryStar.reset()", "*_history attributes"],
     "As E02, with scripts that interleave evolve, restore and reset, generated by TLC.")

PS = "posydon/popsyn/"

prop("P01", "A saved population holds every requested system exactly once and exactly",
     "However a population is run (serial, array tasks or parallel ranks, dumping batches or not), the "
     "files it leaves hold each requested system exactly once, with the history rows it evolved "
     "through, its initial and final state, and failure and warning flags. The recorded number of "
     "systems, simulated masses (total, single, binary), metallicity and parameters are those of "
     "exactly these systems. A batch that cannot be read never costs another system and is not deleted.",
     ["configurations", "inputs", "fault_sequences"],
     "every number of systems, ranks, dump rate, memory mode, merge route, order of ranks and mixture "
     "of system outcomes",
     "Whether every system survives splitting, dumping, combining and merging depends on the "
     "arithmetic of all of these together; the tests save one small population.",
     [PS + "binarypopulation.py", PS + "synthetic_population.py"],
     [("splitting and dumping", PS + "binarypopulation.py: BinaryPopulation._safe_evolve"),
      ("combining", PS + "binarypopulation.py: BinaryPopulation.combine_saved_files, save"),
      ("merging", PS + "synthetic_population.py: PopulationRunner.merge_parallel_runs")],
     ["population files", "batch directory", "PopulationManager"],
     "Population.tla models ranks, batches, combination and merge; TLC checks it for all small "
     "configurations and prints them; each is run for real with scripted systems and the files are read "
     "back and compared with what was evolved.")

prop("P02", "A failing system is recorded as failed and affects no other system",
     "When the evolution of a system fails, hangs, meets an unhandled state or warns, that system alone "
     "is saved with its record up to the failure and the failure or warning flag, and the run "
     "continues. Every other system of the population has the same initial conditions, history and "
     "flags as in a run without the failure.",
     ["fault_sequences", "configurations"],
     "every placement and kind of failure over the systems of a population in every run mode",
     "Isolation is a relation between two runs and every failure placement, not an example.",
     [PS + "binarypopulation.py", BE + "binarystar.py", "posydon/utils/posydonwarning.py"],
     [("guarded evolution", PS + "binarypopulation.py: BinaryPopulation._safe_evolve"),
      ("warnings per system", "posydon/utils/posydonwarning.py: Catch_POSYDON_Warnings")],
     ["population files", "find_failed()"],
     "Scripted failures of eight kinds in real populations; each population is run again without them "
     "and both are checked against Population.tla, which knows every system's outcome.")

prop("P03", "Populations are reproducible and their systems independent",
     "With the same entropy (or job id), metallicity and rank, the n-th system starts from the same "
     "initial conditions in every run, whatever happens to the systems before it and however the "
     "results are stored. Different systems, ranks, metallicities of parallel runs and entropies give "
     "different systems.",
     ["histories", "configurations"],
     "every pair of runs that share or do not share a random stream, over run modes, ranks, "
     "metallicities, dump rates and outcomes",
     "A relation between runs: tests compare two runs in one configuration at most.",
     [PS + "binarypopulation.py", PS + "independent_sample.py"],
     [("seeding", PS + "binarypopulation.py: BinaryPopulation.__init__, reset_rng"),
      ("generator", PS + "binarypopulation.py: BinaryGenerator")],
     ["initial conditions of every system"],
     "Population.tla keeps every (stream, rank, position) seen in a session and demands equality for the "
     "same key and difference otherwise; sessions combine many real runs.")

prop("P04", "An interrupted population run loses no system already saved",
     "If a run or a merge is interrupted at any point, every system that was readable on disk at an "
     "earlier interruption point stays readable at every later one. Starting the interrupted part again "
     "completes the population with each system exactly once.",
     ["crash_points"],
     "an interruption before every table append, file close, rename, deletion and evolution step of a "
     "run and merge",
     "Crash points between writing, renaming and deleting cannot be reached by unit tests.",
     [PS + "binarypopulation.py", PS + "synthetic_population.py"],
     [("write, then delete", PS + "binarypopulation.py: combine_saved_files, _safe_evolve, save")],
     ["population files after an interruption and after the restart"],
     "Each scripted run is killed (os._exit in a forked child) at every operation in turn (quick tier: "
     "all deletions and renames and a sample of the rest); what is readable is compared with earlier "
     "points, and the restarted run with the complete population, in Population.tla.")

prop("K01", "A cluster run is completed by exactly the jobs that are missing",
     "Setting up a population run on a cluster submits, for every metallicity, one array with all its "
     "tasks and one merge that waits for it, with the user's options in every script. However tasks and "
     "merges fail, checking the run reports it as complete only when every population holds all its "
     "systems, and with the user's consent resubmits exactly the missing tasks (as part of the original "
     "array size) and the missing merges. Following the advice completes every population with each "
     "system exactly once.",
     ["fault_sequences", "configurations"],
     "every assignment of outcomes (success, failure, kill, never started) to tasks, rescued tasks and "
     "merges; any metallicities, task numbers, options and answers of the user",
     "The workflow spans a command line tool, generated shell and Python scripts and the scheduler; unit "
     "tests mock all of them and never run a failed task, its rescue and the merge together.",
     ["posydon/CLI/", PS + "binarypopulation.py"],
     [("script generation", "posydon/CLI/io.py"), ("setup", "posydon/CLI/popsyn/setup.py"),
      ("check and rescue", "posydon/CLI/popsyn/check.py")],
     ["submitted jobs", "files in the run folder", "result of posydon-popsyn check"],
     "Cluster.tla models the workflow with failing tasks and merges; TLC checks that following the advice "
     "completes the run. Outcome assignments enumerated by TLC drive the real tool, scripts and task "
     "programs under a stand-in scheduler; the recorded traces are checked against the specification.")

prop("D01", "A binary rebuilt from its saved tables is the binary that was saved",
     "Rebuilding a binary from its exported history table, from the one-line table or from a saved "
     "population file gives back every saved column and scalar, row by row, for the right star and the "
     "right system, whichever columns were saved and in whatever order. The rebuilt binary has the "
     "saved index (or the one asked for), the values of its last row (of the first one for a one-line "
     "table), is marked as failed if the saved one was, and a missing separation or period follows from "
     "the other. It can be reset or restored and evolved again like the original.",
     ["histories", "configurations"],
     "every evolution and restore history; every selection and order of scalar columns and scalars; "
     "rebuilding from history table, one-line table or population file, alone or among other systems",
     "Tests never rebuild a binary from its tables; name handling and defaults go wrong only for "
     "particular columns, indices and missing values.",
     [BE + "binarystar.py", BE + "singlestar.py", PS + "binarypopulation.py", PS + "io.py"],
     [("from_df, from_oneline_df", BE + "binarystar.py"),
      ("from_hdf", PS + "binarypopulation.py: PopulationManager.from_hdf")],
     ["columns, current values and index of the rebuilt binary"],
     "History.tla has the rebuild as a transition that keeps the record (or its first row); TLC-enumerated "
     "evolve/restore scripts run on real binaries whose every value encodes column and generation, the "
     "rebuilt binary is then restored and evolved again, and the whole trace is checked. Vector columns "
     "(systemic velocity) are excluded: the code does not rebuild them.")

prop("S01", "A core collapse yields the remnant and orbit its model prescribes",
     "The core collapse of either star turns it, by the chosen analytic engine, electron-capture and "
     "pair-instability options or a consistent interpolated outcome, into exactly one white dwarf, neutron "
     "star, black hole or massless remnant of the prescribed mass, and leaves the companion unchanged. The "
     "natal kick has the chosen width and normalisation (or is the one the user gave) and is recorded, and "
     "the orbit afterwards (bound or disrupted, separation, eccentricity, period, tilts, systemic velocity) is "
     "the one two-body mechanics gives; white-dwarf formation only widens the orbit, unbound systems stay "
     "unbound, and a companion that is ready collapses next. The outcome does not depend on which star is "
     "called the primary, and repeating a collapse with its recorded kick reproduces it.",
     ["inputs", "configurations", "histories"],
     "all masses and core masses, companions, orbits, kicks, engines and options, for one or two "
     "supernovae in a system",
     "The repository has no tests of this step; the outcome is a product of thresholds, options, the "
     "state of the system and random kicks.",
     [BE + "SN/step_SN.py"],
     [("remnant mass", BE + "SN/step_SN.py: collapse_star, compute_m_rembar, PISN_prescription"),
      ("kick and orbit", BE + "SN/step_SN.py: generate_kick, orbital_kick")],
     ["star and binary properties after the step"],
     "SN.tla states remnant type and mass (in integers), kick scaling, the binary's next state and tilt "
     "bookkeeping; TLC checks sequences of supernovae and enumerates cases which are replayed into the "
     "real step, including with exchanged stars and with recorded kicks. Orbits are compared with vectors "
     "of the two-body problem computed by the harness.")

prop("S02", "A common envelope closes its energy budget, or the stars merge",
     "A donor without a core merges; otherwise the chosen core, binding-energy parameter and efficiency fix "
     "the orbit by energy conservation, and the stars merge exactly when a core then overfills its Roche lobe. "
     "If they survive, each donor is the bare core (mass, radius, composition, kind) on a circular detached "
     "orbit reached by the chosen final phase, with nothing of the envelope left over, and a companion that is not a donor "
     "is unchanged; if they merge, mass is conserved up to the ejection the user asked for. The outcome does "
     "not depend on which star is called the primary, and what cannot be computed is refused without changing the binary.",
     ["inputs", "configurations", "histories"],
     "every donor and companion kind, single and double envelopes, core definition, final phase, "
     "and drawn masses, radii, binding parameters, efficiencies and orbits; also two envelopes in a row",
     "The repository has no tests of this step; errors hide in combinations of core kind, definition, "
     "final phase and which star is the donor.",
     [BE + "CE/step_CEE.py"],
     [("energy budget", BE + "CE/step_CEE.py: CEE_simple_alpha_prescription"),
      ("final phases", BE + "CE/step_CEE.py: CEE_two_phases_stableMT, CEE_two_phases_windloss, "
       "CEE_one_phase_variable_core_definition"),
      ("outcome", BE + "CE/step_CEE.py: CEE_adjust_binary_upon_ejection, CEE_adjust_binary_upon_merger")],
     ["star and binary properties after the step"],
     "CE.tla states which core and budget apply and what is left; TLC checks sequences of envelopes of an "
     "ageing binary (masses never grow, mergers final, cores inside stars) and enumerates cases replayed into "
     "the real step, also with exchanged stars. The harness works out the orbit from the conservation law "
     "for every reading of the options; the specification selects the reading that must hold.")

prop("S03", "Merging stars become one star made of both; lone stars have no orbit",
     "Two stars merge only when the binary announces it, and leave one star with the mass of both (less the "
     "chosen loss for two main-sequence stars), with the cores added and the core and surface composition "
     "mixed by the mass of the layers that mix, no property of only one of them left over, and the other star "
     "gone; a star merging with a neutron star or black hole is swallowed. Merged, disrupted and initially "
     "single stars are evolved without an orbit that could influence them, and stars in a binary never are. "
     "The outcome does not depend on which star is called the primary.",
     ["inputs", "configurations"],
     "all pairs of stellar kinds, core structures, compositions, announced events, binary states and options",
     "The repository has no tests of these steps; each pair of kinds has its own mixing rule and missing "
     "values are common.",
     [BE + "DT/step_merged.py", BE + "DT/step_isolated.py", BE + "DT/step_disrupted.py",
      BE + "DT/step_initially_single.py"],
     [("merger product", BE + "DT/step_merged.py: merged_star_properties"),
      ("lone stars", BE + "DT/step_isolated.py: IsolatedStep.__call__, initialize_isolated_binary_orbit")],
     ["star and binary properties after the step", "the orbit seen while evolving alone"],
     "Merge.tla states the pair rules and mixing in integers; MergeMC checks mass and composition "
     "bookkeeping over all pairs; MergeGen enumerates 5755 cases replayed into the real steps, also with "
     "exchanged stars, and the observed product is checked against the specification.")

prop("Q01", "Selecting and exporting systems of a population loses or mixes nothing",
     "Reading a population file by slice, index, list, mask or column returns exactly the rows asked for, whatever "
     "the order of the systems in the file and the chunk size, and an empty table when there are none. Exporting a "
     "selection writes every selected system once, with its complete history, one line, metallicity and "
     "formation channel under a new unique index, keeps what a file appended to already holds, and updates the "
     "simulated mass and number of systems per metallicity. An export that cannot be done is refused and changes no file, "
     "and no export changes the source.",
     ["inputs", "histories"],
     "all orders and gaps of indices, chunk sizes, kinds of selection, one or several metallicities, and "
     "sequences of exports, appends and overwrites between files",
     "Tests read one small sorted file in one chunk; chunked reading by position and index shifts go wrong "
     "only for other orders, sizes or sequences.",
     [PS + "synthetic_population.py"],
     [("selections", PS + "synthetic_population.py: DFInterface, History, Oneline"),
      ("export", PS + "synthetic_population.py: Population.export_selection")],
     ["returned tables", "contents of source and exported files"],
     "PopFile.tla models a file as a sequence of systems; PopFileMC explores exports, appends and overwrites "
     "between two files; TLC-generated scripts run on real HDF5 files whose values encode system and row, and "
     "every returned table and complete file is checked against the specification.")

prop("Q02", "Formation channels and transients are found system by system",
     "Every system of a population gets exactly one formation channel, made of its own events and mass-transfer "
     "history in order, without technical redirections. A transient selection is shown every system exactly "
     "once, with the complete history, one line and channel of the same systems, and all events it returns, "
     "several or none per system, are stored once; a selection without events is reported as such. "
     "None of this depends on chunk size, order of the systems in the file or earlier runs.",
     ["inputs", "histories"],
     "all event sequences, mass-transfer classes, orders and gaps of indices, chunk sizes, column choices "
     "and repeated or changed computations, also on exported files",
     "Tests use a few systems with stand-in tables; a system is only mixed up with another one when chunks "
     "and file order differ.",
     [PS + "synthetic_population.py"],
     [("channels", PS + "synthetic_population.py: Population.calculate_formation_channels"),
      ("transients", PS + "synthetic_population.py: Population.create_transient_population")],
     ["formation channels in the file", "tables given to the user's selection and the stored transients"],
     "PopFile.tla defines the channel of a system as a function of its events and says what a selection may "
     "see; TLC-generated scripts run on real files with a selection function that records everything it is "
     "given, and the record is checked against the specification.")

prop("Q03", "Weights and rates count every event with its own system's weight",
     "Reweighting gives every event of a transient population the ratio of the target to the simulated density "
     "of its own system's initial conditions per simulated mass; efficiencies, cosmic weights, rate densities and "
     "observable populations are exact sums of the weights of exactly the events that belong to them, and an event "
     "counts at a birth time only if it happens before the present, at the redshift reached after its delay. "
     "Results depend neither on chunk size, order of systems nor on earlier calculations, "
     "and replacing events or weights never leaves results of the old ones to be read as current.",
     ["inputs", "histories"],
     "all orders of systems, events per system, metallicities, delays, population parameters, star formation "
     "models, chunk sizes and sequences of (re)weighting, rate, density, observable and re-selection calls",
     "Tests mock the tables and check one call at a time; mixing up rows or leaving stale results needs files "
     "with several events per system, unsorted systems or repeated calls.",
     [PS + "synthetic_population.py", PS + "norm_pop.py", PS + "rate_calculation.py"],
     [("weights", PS + "synthetic_population.py: TransientPopulation.calculate_model_weights; norm_pop.py"),
      ("cosmic rates", PS + "synthetic_population.py: TransientPopulation.calculate_cosmic_weights; rate_calculation.py"),
      ("rate densities, observables", PS + "synthetic_population.py: Rates")],
     ["model weights, efficiencies, cosmic weights, redshifts, rate densities and observable populations in the file"],
     "Rates.tla keeps which events, weights and rates a file must hold and defines every aggregate as a sum over "
     "the events; TLC enumerates call sequences, they run on real files, and the numbers found, with the densities and "
     "cosmological quantities of each single event worked out independently, are checked against the specification.")

prop("C01", "Stars, mass transfer and the end of runs are classified consistently",
     "The kind of a star follows from its surface, centre and burning alone, that of a compact object from its mass; "
     "overflow, contact, mass-transfer cases, common envelopes and core collapse of a binary follow from the "
     "overflows, the transfer rate and the two kinds, at any time of a history as at its end. "
     "The summary of a run names every mass-transfer phase of every donor in order, without returning to an earlier "
     "phase, and the reason the run itself gives for its end; both decide its class. "
     "Renaming the two stars changes the names and nothing else.",
     ["inputs", "histories"],
     "all compositions and luminosities around the thresholds, all pairs of stars, overflows and rates, all sequences "
     "of mass-transfer phases and run outputs",
     "Tests try a few states one at a time; a wrong branch shows only for particular pairs, sequences of phases or donors.",
     ["posydon/utils/common_functions.py", "posydon/grids/termination_flags.py"],
     [("kind of a star", "posydon/utils/common_functions.py: infer_star_state, check_state_of_star"),
      ("state and event of a binary", "posydon/utils/common_functions.py: get_binary_state_and_event_and_mt_case, infer_mass_transfer_case"),
      ("phases of a run", "posydon/utils/common_functions.py: cumulative_mass_transfer_flag; posydon/grids/termination_flags.py"),
      ("renaming", "posydon/utils/common_functions.py: flip_stars")],
     ["states, events, mass-transfer cases, summaries, termination flags and classes returned"],
     "Stellar.tla defines every classification and the summary of a sequence of phases; TLC checks that summaries only "
     "move forward, lose nothing and are symmetric under renaming, and enumerates inputs on both sides of every threshold; "
     "what the real functions answer for them is checked against the specification.")

prop("M01", "A grid of models evolves exactly the binaries it covers, whichever star is which",
     "Each step that uses a grid of pre-computed binaries evolves a binary only when its two stars are of the kinds, "
     "its event the one, and its masses, period and eccentricity within the limits the grid was computed for, and "
     "then looks up that binary's own masses and period. "
     "Binaries whose period (or eccentricity) is outside are redirected unchanged, those about to collapse are passed to the "
     "supernova, and all others are refused as failed, never evolved outside the grid. "
     "Exchanging the two stars exchanges the results and nothing else.",
     ["inputs", "configurations"],
     "all pairs of star kinds, events, masses, periods and eccentricities inside, at and outside the limits of all five grids, "
     "for both namings of the stars",
     "Each step has its own hand-written limits and its own exchange of the two stars; a wrong limit or name shows only for "
     "particular pairs near an edge of one grid, in one naming.",
     [BE + "MESA/step_mesa.py"],
     [("limits and roles", BE + "MESA/step_mesa.py: MS_MS_step, CO_HMS_RLO_step, CO_HeMS_RLO_step, CO_HeMS_step, HMS_HMS_RLO_step (__call__)"),
      ("exchange of the stars", BE + "MESA/step_mesa.py: MesaGridStep.flip_stars_before_step; __call__")],
     ["outcome, event, state and star of the results after the step; the binary looked up in the grid"],
     "GridStep.tla says, for every step, which star plays which role and what happens to a binary; TLC checks that the outcome is "
     "complete, symmetric and never evolves a binary outside the limits, and enumerates binaries around every limit; the real "
     "steps run on them over a stand-in grid and what they do is checked against the specification.")

prop("M02", "A binary follows its pre-computed run exactly, up to the maximum time",
     "A binary evolved with a pre-computed run takes, at the end of the step, the time, the quantities and the kinds of star "
     "of that run at its end, or at the maximum time when the run would exceed it and is to be cut there, and never "
     "anything later; running out of time is announced. "
     "Its history gains the models of the run up to there, in order and for all quantities alike, when the run is to be followed, and the "
     "initial model when that is to be saved, with the states the binary had then; the result does not depend on which is kept. "
     "Accretion onto a compact object never exceeds its Eddington limit, and its spin and radius follow its mass.",
     ["inputs", "configurations", "histories"],
     "all runs and their classes, all moments of running out of time (between, at, before and after the models), all settings for "
     "history, stopping and interpolation, both namings of the stars, binaries with any history so far",
     "Tests look at one attribute of one call; a column, index or row that is off by one needs a run, a cut and settings to show.",
     [BE + "MESA/step_mesa.py", "posydon/utils/common_functions.py"],
     [("following", BE + "MESA/step_mesa.py: MesaGridStep.__call__, update_properties_NN, initial_final_interpolation"),
      ("cutting", BE + "MESA/step_mesa.py: MesaGridStep.stop_at_end, stop_at_condition, interpolate_at_t")],
     ["time, quantities, states, events and histories of the binary and its stars after the step"],
     "Track.tla says what a run leaves behind and TLC checks, for all runs of up to four models and all settings, that nothing later than the "
     "maximum time is kept, nothing before it lost, and the end independent of what is kept; enumerated runs are followed "
     "by the real steps and what they leave is checked against the specification.")

prop("L01", "A simulation is set up exactly as its parameter files say",
     "Every step, hook, grid path and population option given in the parameter files, and nothing else, takes effect, later files "
     "overriding earlier ones option by option. Every step gets its own options, its own metallicity "
     "(else the one asked for, else solar), its grid, the random numbers of the run and a track matcher set up as configured, "
     "whatever the other steps have; every population uses only steps of its metallicity. "
     "Steps may be loaded again, one by one or with another metallicity, any number of times: the configuration is not used up, "
     "and matchers and grids are neither mixed up nor loaded again needlessly.",
     ["configurations", "histories"],
     "all combinations of given and missing steps, options, hooks, paths and files, and all sequences of loading",
     "Tests parse one file; lost or leaking options show only for particular combinations and reloads.",
     [PS + "io.py", BE + "simulationproperties.py", PS + "binarypopulation.py", PS + "synthetic_population.py"],
     [("parsing", PS + "io.py: parse_inifile, simprop_kwargs_from_ini, binarypop_kwargs_from_ini"),
      ("loading", BE + "simulationproperties.py: SimulationProperties.from_ini, load_steps, load_a_step, check_step, _check_track_matcher, create_track_matcher"),
      ("metallicities", PS + "binarypopulation.py: BinaryPopulation.__init__; synthetic_population.py: PopulationRunner.__init__")],
     ["steps created and their arguments, track matchers and grids held, hooks, population options"],
     "Config.tla models parameter files and (re)loading as a state machine; TLC checks that every step keeps one matcher of its own "
     "metallicity, that reloads are idempotent and forced metallicities complete; enumerated files and load sequences run "
     "through the real code and what was created is checked against the specification.")

prop("N01", "Initial binaries follow the distributions and files asked for",
     "A sample of initial binaries has the size asked for, every star a mass, and every mass, orbit and eccentricity lies in the requested range, "
     "companions never heavier than primaries; a single star lacks companion, orbit and eccentricity together, and the share "
     "of binaries is the one asked for at every mass. Each quantity follows the requested distribution, and its density describes it, whatever the ranges, "
     "independently of the other quantities, and the same seed gives the same sample. Samples read from a file are its rows in a cycle from the "
     "requested index on, column by column under any of the documented names; formation times follow the requested scenario.",
     ["inputs", "configurations"],
     "all schemes and ranges of masses, orbits and eccentricities, binary fractions, sample sizes, seeds, sample files and formation scenarios",
     "Tests draw a single value with one seed per scheme; a wrong distribution, a correlation or rows of different binaries mixed "
     "up show only in whole samples and for other ranges.",
     [PS + "independent_sample.py", PS + "distributions.py", PS + "IMFs.py", PS + "sample_from_file.py", PS + "star_formation_history.py",
      "posydon/utils/common_functions.py"],
     [("drawing", PS + "independent_sample.py: generate_independent_samples, generate_*; distributions.py, IMFs.py: rvs, pdf; utils/common_functions.py: *_sampler"),
      ("reading", PS + "sample_from_file.py: get_samples_from_file, get_kick_samples_from_file, infer_key"),
      ("formation times", PS + "star_formation_history.py: get_formation_times")],
     ["arrays returned by the samplers; densities; rows taken from files"],
     "Sampling.tla states the rules for a sample, from the masking of single stars to cyclic reading, and for counts in the "
     "equal-probability bins of the distribution asked for; TLC checks the doubling reader and the in-place masking against them and enumerates requests; the real samplers "
     "serve them and what they return is checked against the specification.")

prop("N02", "Star formation is shared out to metallicities without loss or excess",
     "At every redshift, each metallicity bin gets exactly the part of the cosmic star formation whose metallicity lies in it, with material outside the bins "
     "but inside a given lowest or highest metallicity counted to the outmost bin and material beyond such a limit counted nowhere. "
     "Shares are never negative and never undefined, add up to all that lies inside the limits (or to one, if asked), and splitting or joining bins does not change the sum. "
     "This holds for every star formation history, tabulated ones using the row of their own redshift.",
     ["inputs", "configurations"],
     "all histories, redshifts, metallicity bins, lowest and highest metallicities inside, at, between and outside the bins, normalised or not",
     "Tests use one set of bins with limits in the middle; errors live at limits outside, on or in the same bin, and in combinations.",
     [PS + "star_formation_history.py", "posydon/utils/interpolators.py"],
     [("sharing out", PS + "star_formation_history.py: SFHBase._distribute_cdf, __call__, SFR_per_met_at_z"),
      ("histories", PS + "star_formation_history.py: MadauBase, Neijssel19, IllustrisTNG, Chruslinska21, Zavala21; fSFR, CSFRD, mean_metallicity")],
     ["star formation rate density, mean metallicity and shares per bin"],
     "SFH.tla defines the share of every bin; TLC proves on all small distributions, bins and limits that shares are non-negative, complete, "
     "additive and respect the limits, and enumerates requests; the real histories answer them on known tables and the answers are checked against the specification.")

prop("G01", "A grid file stores exactly the usable part of every computed run",
     "Every usable run becomes one entry of the grid file, whose tables hold only rows of that run's own files, in order, with time strictly moving forward and the same models "
     "in all tables, from the start (or the first overflow, where ages start at zero) to the end (or, for the most massive stars if asked, helium depletion). "
     "Rows are left out beyond that only if they lie, within the requested tolerance, on the line between their stored neighbours. "
     "Initial and final values, flags and the class of the run are those of the stored run, whatever files are missing.",
     ["inputs", "configurations", "histories"],
     "all tables with back-steps, gaps, missing files and values, depletion and overflow in any order, and all settings of the grid",
     "Tests convert two clean runs; restarts, gaps and cuts interact only in particular combinations of rows.",
     ["posydon/grids/psygrid.py", "posydon/grids/scrubbing.py", "posydon/grids/downsampling.py", "posydon/grids/io.py",
      "posydon/grids/termination_flags.py", "posydon/utils/gridutils.py"],
     [("reading", "posydon/grids/io.py: GridReader, RunReader; utils/gridutils.py: read_MESA_data_file, fix_He_core"),
      ("cutting", "posydon/grids/scrubbing.py: scrub, keep_after_RLO, keep_till_central_abundance_He_C"),
      ("thinning", "posydon/grids/downsampling.py: TrackDownsampler; psygrid.py: downsample_history, downsample_profile"),
      ("storing", "posydon/grids/psygrid.py: PSyGrid.create, _create_psygrid, load; termination_flags.py: get_flags_from_MESA_run, infer_interpolation_class")],
     ["rows of the tables stored, ages, initial and final values, flags"],
     "PSyGrid.tla defines what is stored of a run; TLC checks for all small tables that processing step by step ends there, with aligned, "
     "monotonic tables, and that bisection always meets the tolerance; pseudo-random runs drawn by the specification are written as files, "
     "converted by the real code and the stored grid is checked row by row against the specification.")

prop("G02", "Grid files keep every run's data together, however made or changed",
     "A grid made from several folders or by joining grids holds, for every set of initial parameters, exactly the latest run, with its own tables, values and added "
     "columns; a later run that never overflows removes the earlier one, and grids made with different settings are refused. "
     "Runs inside the boundary of initial overflow are marked as such whenever enough systems are known, even without data, and no others. "
     "Adding or replacing columns, refused requests, writing and re-opening, lazily or not, change nothing else in the file or in the loaded grid.",
     ["histories", "configurations"],
     "all sequences of making, joining, extending and re-opening grids with runs in any order",
     "Tests use one grid and one join; runs mixed up or data lost show after particular sequences of substitutions and changes.",
     ["posydon/grids/psygrid.py", "posydon/grids/termination_flags.py", "posydon/grids/lazy_hdf.py", "posydon/grids/io.py"],
     [("joining", "posydon/grids/psygrid.py: join_grids, PSyGrid._create_psygrid; io.py: GridReader._get_input_folders, initial_values_from_dirname, read_initial_values"),
      ("boundary", "posydon/grids/termination_flags.py: get_detected_initial_RLO, get_nearest_known_initial_RLO"),
      ("changing", "posydon/grids/psygrid.py: PSyGrid.add_column, update_final_values, load, PSyRunView; lazy_hdf.py: LazyHDF5")],
     ["runs, tables, values, flags and columns of the grid file after every operation"],
     "GridFile.tla defines the contents of made, completed and joined grids; TLC checks that run-by-run joining, and joining step by step, gives exactly that; "
     "generated sequences of operations run on real files and every run read back is checked against the specification.")

prop("T01", "Detached evolution stops at the first event and obeys the balance laws",
     "A detached pair evolves along the stars' own tracks until whichever comes first: one of them filling 95% of its Roche lobe at periastron, one reaching the end of its track, "
     "or the maximum time; that event is reported at its time, for the right star, with the orbit, final structure and history rows belonging to it. "
     "In between, separation, eccentricity and both spins follow the enabled processes only (winds, tides, gravitational radiation, magnetic braking, changing structure): tides conserve "
     "angular momentum and dissipate energy, winds keep separation times mass, braking only slows stars, compact objects keep their properties. "
     "Exchanging the names of the stars changes nothing but the names, and requested intermediate rows lie within the evolved time, in order, the last one once.",
     ["inputs", "configurations"],
     "every pair of tracks, orbit, starting and maximum time, combination of processes and braking law, and kind of recording",
     "There are no tests of the detached step; a wrong torque or a late event still gives plausible numbers for one binary.",
     [BE + "DT/step_detached.py", BE + "DT/tides/default_tides.py", BE + "DT/winds/default_winds.py", BE + "DT/gravitational_radiation/default_gravrad.py",
      BE + "DT/magnetic_braking/prescriptions.py", BE + "DT/step_isolated.py"],
     [("events and end", BE + "DT/step_detached.py: detached_step.__call__, ev_rlo1, ev_rlo2, ev_max_time1, ev_max_time2, get_time_after_evo, update_after_evo, update_co_stars"),
      ("balance equations", BE + "DT/tides, DT/winds, DT/gravitational_radiation, DT/magnetic_braking; detached_evolution.__call__")],
     ["state, event, time, orbit, spins and history rows after a detached step"],
     "Detached.tla defines the stopping rule and what must hold at the end; TLC checks that tick-by-tick evolution stops exactly there, whatever the stars are called; "
     "pairs drawn by the specification run through the real step on synthetic tracks of known time dependence; the outcome, and residuals against independently written balance equations, "
     "are checked against the specification.")

prop("T02", "Compact pairs spiral in as Peters predicts and merge exactly on contact",
     "Two compact objects evolve by gravitational radiation alone: separation and eccentricity follow the Peters inspiral at every recorded time until the pair touches (reported as contact, "
     "circular, at the separation of the two radii and the predicted time) or the maximum time (reported exactly then, still detached), whichever comes first. "
     "The objects, the systemic velocity and the alignment of the histories are kept, and naming the objects the other way round changes nothing.",
     ["inputs", "configurations"],
     "every pair of compact objects, separation, eccentricity, time limit before, near and after contact, and kind of recording",
     "There are no tests of this step; errors in the transformed equations only show for eccentric or nearly merging pairs.",
     [BE + "DT/double_CO.py", BE + "DT/step_detached.py"],
     [("inspiral", BE + "DT/double_CO.py: DoubleCO.solve_ODEs, double_CO_evolution.rhs, _SBrentqDenseOutput"),
      ("outcome", BE + "DT/double_CO.py: DoubleCO.__call__")],
     ["state, event, time, orbit and history rows after the step"],
     "DCO.tla decides between contact and time limit; TLC checks the closed model of the shrinking orbit; the pairs it enumerates run through the real step and are checked against it, "
     "with the inspiral worked out by quadrature of Peters' a(e) relation.")

prop("T03", "Stars are placed on single-star tracks that match them, or the match fails",
     "A star of a binary is placed on a track of the library for its kind that reproduces it: a star lying on a library point is put exactly there, an accepted match is the best converged attempt and lies "
     "within the configured tolerance, main-sequence stars never land on stripped-star tracks, and a star that cannot be matched makes the binary fail. "
     "The leading object is the more evolved one whatever the naming, compact objects and absent companions are never placed, the orbit is untouched, and a placed star takes its track's properties while keeping "
     "its angular momentum. The matching is recorded as one row naming the stars placed exactly when asked for.",
     ["inputs", "configurations", "fault_sequences"],
     "every pair of object kinds and states, position on, between or off the library points, available rotation data, matching method, event, and sequence of optimiser answers",
     "There are no tests of the track matcher; which attempt wins and how failures are handled depends on the sequence of optimiser outcomes.",
     [BE + "track_match.py", BE + "flow_chart.py"],
     [("roles", BE + "track_match.py: TrackMatcher.determine_star_states, do_matching"), ("attempts", BE + "track_match.py: TrackMatcher.match_through_minimize, match_through_root, get_root0"),
      ("rotation", BE + "track_match.py: TrackMatcher.calc_omega, update_rotation_info"), ("track", BE + "track_match.py: get_star_match_data, update_star_properties, get_star_final_values")],
     ["roles, matched initial mass and age, library, star properties, rotation, rows, errors"],
     "Match.tla has the roles and the search over attempts; TLC checks the closed model of the search for every sequence of answers; pairs and answer sequences drawn with it run through the real matcher over "
     "closed-form tracks and are checked against it, with distances worked out independently.")

prop("I01", "Reading a grid between its models: exact on them, mixed between, never beyond",
     "Asked at the initial mass of a stored single-star model, the library returns that model's own track (from the zero-age main sequence on, ages counted from there), final values, class and structure; between two "
     "models it returns their linear mix - passing over models that lack a final value, with structures on the coordinate of the shallower model - and the class of the nearer one, and outside the stored masses it "
     "refuses. The nearest-model lookup of a binary grid returns the nearest converged, complete model together with the true differences and that model's flags. "
     "Answers do not depend on what was asked before or on saving and reloading.",
     ["inputs", "histories"],
     "every grid (order and spacing of masses, lengths and shapes of tracks, missing values, absent supernova tables), quantity, requested mass or binary, and sequence of questions",
     "There are no tests of the interpolators; an answer is a number that looks plausible whichever neighbours and weights were used.",
     ["posydon/interpolation/interpolation.py", "posydon/interpolation/data_scaling.py"],
     [("tracks", "posydon/interpolation/interpolation.py: GRIDInterpolator.get, get_final_values, get_final_state, get_profile, load_grid"),
      ("nearest", "posydon/interpolation/interpolation.py: psyTrackInterp.train, evaluate, _grid2array, _binary2array, _normalize_fit, save, load")],
     ["tracks, final values, classes, structures and errors; model, differences and flags of a lookup"],
     "Interp.tla defines every answer over integer grids; TLC checks the closed model for all small grids swept in mass; grids and series of questions drawn with it are written as grid files, put to the real "
     "interpolators and the answers compared exactly.")

