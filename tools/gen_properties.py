"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []


def add(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=["src/qutip_qtrl/" + f for f in files],
                          mechanism=[dict(name=n, where="src/qutip_qtrl/" + w) for n, w in mech],
                          observe_at=observe or [], hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=a, meaning=b, where="src/qutip_qtrl/" + c) for a, b, c in state]
    assert len(title) <= 80, title
    P.append(d)


add("C01", "Fidelity, gradient and evolution always belong to the current amplitudes",
    "After any history of amplitude updates, re-initialisations and queries on a configured system, the fidelity error, fidelity, error gradient, gradient norm that are reported, and the evolution operators once the evolution has been computed by a query, are those of the most recently submitted amplitudes, controls, drift, target, time slots and settings, equal to what a freshly built system with the same data and settings reports. "
    "Submitting the same amplitudes again, or repeating or reordering queries, changes no reported value. "
    "A later change the caller makes to an array it once submitted has no effect until it is submitted again, and then takes full effect.",
    ["histories", "configurations"],
    "Every sequence, up to the stated depth, of submit (new, partly changed, unchanged, or the same array changed in place), query (error, fidelity, gradient, operators) and re-initialise (same, other target, durations, drift, controls, size, and other settings: operator representation, caching, memory, propagator and fidelity method) operations, for unitary, general-matrix and symplectic dynamics in both operator representations.",
    "Tests query a fixed order (initialise, optimise, look at the end); a stale cache only shows for a particular order of updates and queries, and the unit tests contain almost none of those orders.",
    ["dynamics.py", "tslotcomp.py", "fidcomp.py"],
    [("compare_amps decides whether anything changed", "tslotcomp.py:TSlotCompUpdateAll.compare_amps"),
     ("flag_system_changed invalidates evolution, fidelity and gradient", "dynamics.py:Dynamics.flag_system_changed, fidcomp.py:flag_system_changed"),
     ("compute_evolution recomputes only when not current", "dynamics.py:Dynamics.compute_evolution")],
    state=[("evo_current", "evolution matches the amplitudes", "dynamics.py"),
           ("fidelity_current / fid_err_grad_current / fidelity_prenorm_current", "cached values valid", "fidcomp.py"),
           ("_*_qobj", "lazily built public operator lists", "dynamics.py")],
    observe=["Dynamics.fid_computer.get_fid_err()/get_fid_err_gradient()", "Dynamics.prop/fwd_evo/onwd_evo/onto_evo/full_evo"])

add("C02", "Evolution is the exact ordered product of slot propagators, however configured",
    "For every supported combination of dynamics type, propagator method, fidelity method, operator representation, caching and memory setting, constant or time-dependent drift and controls, equal or unequal slot durations, and gate or state targets, each slot propagator equals the matrix exponential of that slot's combined generator times its duration (times -i for Hamiltonians, with the symplectic form for symplectic systems). "
    "The forward, onward and onto-target evolution operators equal the corresponding time-ordered products, so unitary generators give unitary, and symplectic generators symplectic, evolution. "
    "The choice of propagator method, representation, caching and memory setting changes nothing but speed and storage.",
    ["configurations", "inputs"],
    "The full product of the configuration options with an alphabet of generators (commuting, non-commuting, degenerate, zero, complex, time-dependent), amplitudes, durations and initial/target shapes, dimension 2 to 4, 1 to 4 slots, 1 to 3 controls.",
    "The tests exercise about a dozen configurations of the several thousand, and judge them only by whether an optimisation converges.",
    ["dynamics.py", "propcomp.py", "tslotcomp.py", "symplectic.py", "fidcomp.py"],
    [("slot generator assembly and phase", "dynamics.py:_combine_dyn_gen,_apply_phase*"),
     ("propagators", "propcomp.py:PropComp*"), ("spectral decomposition", "dynamics.py:DynamicsUnitary._spectral_decomp"),
     ("products", "tslotcomp.py:TSlotCompUpdateAll.recompute_evolution"), ("symplectic form", "symplectic.py:calc_omega")],
    observe=["Dynamics.dyn_gen/prop/fwd_evo/onwd_evo/onto_evo/full_evo"])

add("C03", "The error gradient is the derivative of the error in every configuration",
    "In every supported configuration, each entry of the reported error gradient equals the partial derivative of the reported fidelity error with respect to that slot's and that control's amplitude, to numerical accuracy for the exact propagator methods and to first order in the step for the finite-difference method. "
    "This includes degenerate generators, zero amplitudes, unequal slots, time-dependent drift and controls, and state as well as gate targets; the reported gradient norm is the Euclidean norm of that array.",
    ["configurations", "inputs"],
    "The same configuration product as C02, every slot and control entry, with degenerate and non-commuting generator alphabets.",
    "Tests compare the gradient with a finite difference for one or two systems; a wrong factor that only matters for degenerate spectra, unequal slots, state targets or a memory mode is not seen.",
    ["propcomp.py", "fidcomp.py", "dynamics.py"],
    [("propagator gradients", "propcomp.py:_compute_prop_grad,_compute_diff_prop"), ("factor matrix for degenerate spectra", "dynamics.py:_spectral_decomp"),
     ("fidelity gradients", "fidcomp.py:compute_fid_grad, compute_fid_err_grad, normalize_gradient_*")],
    observe=["fid_computer.get_fid_err_gradient()", "fid_computer.grad_norm", "Dynamics.prop_grad"])

add("C04", "The fidelity error is the documented measure of distance to the target",
    "For unitary dynamics the fidelity is the normalised overlap of target and final evolution, its modulus when global phase is ignored and its real part when it is not, and the error is one minus it; for trace-difference it is the scaled squared Hilbert-Schmidt distance with default scale 1/(2N). "
    "The error is zero exactly when the evolution equals the target (up to global phase when phase is ignored), is unchanged by a global phase of the target when phase is ignored, is bounded as the measure implies, and follows a change of phase option or scale factor made between queries.",
    ["inputs", "configurations", "histories"],
    "All pairs from an alphabet of evolutions and targets (Pauli, Clifford, T, phases, kets, non-unitary maps) in dimension 2 to 4, all phase options, scale factors and representations, and all orders of option change and query up to depth 4.",
    "Tests check converged errors near zero; they never evaluate the measure away from the optimum or change an option after a query.",
    ["fidcomp.py"],
    [("normalisation", "fidcomp.py:init_normalization, normalize_PSU, normalize_SU"), ("trace difference", "fidcomp.py:FidCompTraceDiff.get_fid_err")],
    observe=["fid_computer.get_fid_err()", "fid_computer.get_fidelity()", "fid_computer.get_fidelity_prenorm()"])

add("C05", "Slot count, slot durations, total time and time grid always agree",
    "After any sequence of setting the number of slots, the total time or the individual durations, before or after first use, the number of slots equals the number of durations, the durations add up to the total time, and the time grid has one more point than slots, starts at zero and is their running sum. "
    "The most recent setting wins: explicit durations define count and total; changing count or total afterwards gives equal slots with the other quantity kept.",
    ["histories", "inputs"],
    "Every sequence up to the stated depth over an alphabet of set-count, set-total, set-durations, read-each and initialise operations.",
    "Tests set the quantities once, before first use, in one order.",
    ["dynamics.py"], [("timeslot setters", "dynamics.py:num_tslots/evo_time/tau setters, init_timeslots")],
    state=[("_timeslots_initialized", "lazy derivation done", "dynamics.py")],
    observe=["Dynamics.num_tslots", "Dynamics.evo_time", "Dynamics.tau", "Dynamics.time", "Dynamics.get_amp_times()"])

add("C06", "An optimisation stops for the reason it states, and every limit is honoured",
    "Whatever sequence of evaluations, iterations and clock readings the numerical minimiser produces, the run stops as soon as an evaluated error is at or below the target, the gradient norm is below its minimum, the evaluation count exceeds its limit, or an iteration ends after the wall-time limit, and never for one of these reasons when it did not occur. "
    "The iteration limit and the tolerances are handed to the minimiser as configured, and when the minimiser itself ends the run, the result says so with the corresponding reason. "
    "The reason text and the flags of the result agree with what happened; goal achieved is reported only if the final error is at or below the target.",
    ["schedules", "histories", "configurations"],
    "Every sequence up to the stated length of minimiser actions (error evaluation, gradient evaluation, iteration callback, return with each status) with every combination of evaluated points (above, at, below target; flat, steep) and clock readings, for each optimiser class.",
    "The tests run the real minimisers, which follow one deterministic path per problem; most orders and coincidences of termination conditions never occur.",
    ["optimizer.py", "termcond.py", "errors.py", "optimresult.py"],
    [("wrappers raise on target/limits", "optimizer.py:fid_err_func_wrapper, fid_err_grad_wrapper, iter_step_callback_func"),
     ("result flags", "optimizer.py:_interpret_term_exception, run_optimization")],
    observe=["OptimResult.termination_reason/goal_achieved/...", "arguments given to scipy minimisers"])

add("C07", "The result record is one consistent account of the run",
    "Whatever path a run takes and however it ends, the result's final error, final amplitudes and final evolution all belong to the same point: recomputing from the final amplitudes gives exactly that error and evolution, and that point is one the run evaluated or the minimiser returned. "
    "Initial amplitudes, error and evolution equally belong together and to the start of the run, and the time grid is the system's. "
    "Counts of iterations, error evaluations and the elapsed time equal what really happened, and the record does not change when the system or the caller's arrays are changed later.",
    ["schedules", "histories"],
    "The scripted-minimiser executions of C06 for every optimiser class, with changes to system and arrays after the run.",
    "Tests look at final_err and a few fields at normal convergence, never at the agreement of all fields under every ending.",
    ["optimizer.py", "optimresult.py"],
    [("result creation", "optimizer.py:_create_result"), ("common attributes", "optimizer.py:_add_common_result_attribs")],
    observe=["OptimResult fields"])

add("C08", "Control amplitudes never leave their limits",
    "When lower or upper amplitude limits are given, as a number for all controls or one per control, finite, infinite, zero or absent, every initial pulse and every pulse a bounded algorithm evaluates or returns lies within the limits of its own control in every slot. "
    "Limits of zero and one-sided limits count like any other, and explicitly supplied per-variable limits are used in place of derived ones. "
    "A pulse that already satisfies its limits is not altered by them, except for the smooth squashing of chopped-random-basis pulses.",
    ["inputs", "configurations", "histories"],
    "Every combination of lower and upper limit from {none, -inf/inf, 0, negative, positive} as scalar and per-control list, for every pulse type, scaling and offset, both algorithms and all optimiser classes, with extreme and central random draws enumerated.",
    "Tests use one or two symmetric limits and one random seed; zero, one-sided, infinite and per-control limits are hardly covered.",
    ["pulsegen.py", "optimizer.py", "pulseoptim.py"],
    [("initial pulse limits", "pulsegen.py:_apply_bounds_and_offset"), ("CRAB squashing", "pulsegen.py:PulseGenCrab._init_bounds,_apply_bounds"),
     ("per-variable bounds", "optimizer.py:_build_bounds_list"), ("limits passed on", "pulseoptim.py:create_pulse_optimizer")],
    observe=["OptimResult.initial_amps/final_amps", "bounds argument of minimiser", "PulseGen.gen_pulse()"])

add("C09", "Initial pulses have the requested shape, scale, offset and timing",
    "Every pulse generator returns one finite value per slot which is its documented waveform (constant, linear, sine, square, saw-tooth, triangular, Gaussian, Gaussian-edged, random values, random walks, random Fourier or wave sums) sampled at the slot start times, multiplied by the scaling and shifted by the offset. "
    "Number of waves, wavelength and frequency are interchangeable descriptions of the same pulse, slots may have unequal durations, and calling the generator again with the same parameters (and the same random draws) gives the same pulse whatever was requested in between.",
    ["inputs", "configurations", "histories"],
    "Product of pulse types, parameters, scalings, offsets, equal and unequal slots, 1 to 8 slots, random draws enumerated over their extremes; all call sequences up to depth 3 over parameter changes.",
    "Tests only check that a pulse is produced and its periodicity/limits in a few cases.",
    ["pulsegen.py"], [("generators", "pulsegen.py:PulseGen*.gen_pulse, init_pulse")],
    observe=["PulseGen.gen_pulse()", "PulseGen.init_pulse()"])

add("C10", "CRAB pulses are exactly the expansion of the optimised coefficients",
    "For chopped-random-basis optimisation every evaluated pulse of control j is the sine and cosine expansion given by control j's own block of the variable vector at its own frequencies, combined with its guess pulse (modulated or added), its ramping pulse and its limits. "
    "Reading the variables of the generators and setting them back is the identity, the number of variables is the sum over controls of coefficients times basis functions, and the amplitudes in the result are reproduced by the coefficients left in the generators.",
    ["inputs", "configurations", "histories"],
    "Controls 1 to 3, coefficients 1 to 3, fixed and optimised frequencies, guess pulse action none/modulate/add, ramping on/off, limits, unequal slots, variable vectors over a distinguishing alphabet, all orders of set/generate up to depth 4.",
    "Tests check only that CRAB lowers the error for one system; an exchanged block or a misapplied guess pulse still lets an optimiser converge.",
    ["pulsegen.py", "optimizer.py", "pulseoptim.py"],
    [("variable mapping", "optimizer.py:OptimizerCrab._get_optim_var_vals,_get_ctrl_amps"), ("expansion", "pulsegen.py:PulseGenCrabFourier.gen_pulse")],
    observe=["amplitudes evaluated by the optimiser", "PulseGenCrabFourier.get_optim_var_vals/set_optim_var_vals/gen_pulse"])

add("C11", "Every entry point applies every option, and equivalent calls are equivalent",
    "Each option accepted by the pulse-optimisation functions takes effect on the optimiser that is built and run: amplitudes limits, targets, iteration and time limits, method, algorithm, dynamics, propagator, fidelity, pulse and ramping options and their parameter dictionaries. "
    "The unitary and CRAB convenience functions, the two-step form (create the optimiser, then run) and the deprecated parameter names give the same configuration and results as the equivalent direct call, and an explicit value in a parameter dictionary takes precedence over a general or deprecated argument; the log level changes only what is logged, and a parameter given to a constructor takes effect as if set afterwards. "
    "An unknown algorithm, method, dynamics, propagator, fidelity, phase, pulse, dumping or operator type, operators or times that are missing or of the wrong kind, and a lower limit above the upper limit are rejected with an error before any fidelity is evaluated.",
    ["inputs", "configurations"],
    "Every option of every entry point one at a time and in pairs over its alphabet of values, each run under a scripted minimiser with fixed random draws, compared across entry points; every invalid value; every parameter of every class, alone and in pairs, through its constructor, apply_params and reset.",
    "Tests call each function with one or two option sets; an option dropped by one wrapper goes unnoticed because defaults also converge.",
    ["pulseoptim.py", "optimizer.py"],
    [("option plumbing", "pulseoptim.py:optimize_pulse*, opt_pulse_crab*, create_pulse_optimizer"), ("method parameters", "optimizer.py:apply_method_params, _build_method_options")],
    observe=["Optimizer/Dynamics attributes", "scipy minimiser arguments", "OptimResult"])

add("C12", "Inputs supplied by the caller are never modified",
    "No entry point, optimiser run, pulse generator or dynamics computation changes the operators, arrays, lists or parameter dictionaries the caller passed in, so a second call with the same objects behaves like the first.",
    ["inputs", "histories", "configurations"],
    "Every entry point, dynamics type, minimiser, form of operators, times and limits with every parameter dictionary filled, under every ending of the run, followed by a second call; every sequence of dynamics operations up to depth 3 (thorough 4).",
    "Tests build their arguments afresh for each call and never look at them again.",
    ["pulseoptim.py", "optimizer.py", "dynamics.py", "grape.py"],
    [("dictionary handling", "pulseoptim.py:optimize_pulse, opt_pulse_crab; optimizer.py:apply_method_params"), ("amplitude storage", "tslotcomp.py:compare_amps")],
    observe=["deep comparison of arguments before and after"])

add("C13", "The dump is an exact, immutable history of the run",
    "With dumping on, the dump holds one entry per event in order (evolution computation, error evaluation, gradient evaluation, iteration), each with the values at that event, and entries already recorded never change afterwards. "
    "The dump level decides which quantities are recorded and nothing else: switching dumping on, off or to another level does not alter the optimisation, and summary entries agree with the item they index.",
    ["schedules", "histories", "configurations"],
    "Scripted-minimiser executions at every pair of dump levels and every combination of the individual switches, followed by second runs and further updates; every sequence of level changes, switch changes, clearing and evaluations up to depth 3 (thorough 4).",
    "Tests check the lengths of some logs in one run, not their contents or immutability.",
    ["dump.py", "optimizer.py", "tslotcomp.py"],
    [("logs", "dump.py:OptimDump.update_*_log, add_iter_summary; DynamicsDump.add_evo_dump, add_evo_comp_summary"), ("levels", "dump.py:_apply_level")],
    observe=["Optimizer.dump", "Dynamics.dump"])

add("C14", "Dump files reproduce the dump and file faults never cost the optimisation",
    "What is written to files or streams by a dump, during the run or afterwards, contains exactly the recorded values of each log and operator in order, under the directory, names and separator configured when it is written. "
    "Failure to create the dump directory or to open or write a file is reported to the user and turns file output off or raises; it never alters the recorded data or the result of the optimisation.",
    ["fault_sequences", "configurations", "histories"],
    "Every placement of up to two injected file-system faults over the sequence of file operations of a run, every dump configuration and write-out form (none, file name, stream), every order of write-out and name change up to depth 3.",
    "Tests write to one temporary directory that works and count files.",
    ["dump.py", "io.py", "dynamics.py"],
    [("write-out", "dump.py:OptimDump.writeout, DynamicsDump.writeout, EvoCompDumpItem.writeout"), ("directory", "io.py:create_dir, dump.py:create_dump_dir")],
    observe=["files under the dump directory", "Dump.write_to_file"])

add("C15", "Statistics equal the work actually performed",
    "When statistics are collected, the numbers of error evaluations, gradient evaluations, iterations, evolution computations, fidelity and gradient computations, amplitude updates, changed amplitudes and changed slots equal the events that occurred in that run, and derived averages are their quotients. "
    "Collecting statistics does not change the optimisation, and the statistics in a result are unaffected by later runs.",
    ["schedules", "histories"],
    "Every scripted-minimiser execution of C06 for each optimiser, with each amplitude change pattern (none, one entry, one slot, all), and two consecutive runs.",
    "Tests only print the report.",
    ["stats.py", "optimizer.py", "tslotcomp.py", "fidcomp.py"],
    [("counters", "tslotcomp.py:compare_amps; fidcomp.py; optimizer.py wrappers"), ("averages", "stats.py:Stats.calculate")],
    observe=["Stats fields", "OptimResult.stats"])

add("C16", "Configuration files set exactly the named values with the right types",
    "Loading a parameter file sets exactly the attributes it names on the objects given, converting each text to the type the attribute already has (or to a number, a truth value or text when it has none), and leaves everything else as it was. "
    "Sections without a matching object and unknown attribute names have no effect beyond a warning, a missing file, a malformed value or a name repeated within a section is reported, and loading several files follows last-one-wins.",
    ["inputs", "histories"],
    "Every value text from an alphabet crossed with every attribute type and section, files with up to three assignments in every order with every set of objects, and two or three files loaded in sequence.",
    "Tests load one fixed file.",
    ["loadparams.py", "optimconfig.py"],
    [("typed setting", "loadparams.py:set_param"), ("sections", "loadparams.py:load_parameters")],
    observe=["attributes of the objects after loading"])

add("C17", "Saved control amplitudes read back as what was saved",
    "Saving control amplitudes writes one line per slot holding the slot's start time (unless excluded) and its amplitudes in control order, which read back to the stored precision as the current, or explicitly given, amplitudes and times. "
    "An optimisation asked to save pulses writes its initial and final amplitudes to the corresponding files, and a failure to write is reported without disturbing the system or the optimisation.",
    ["inputs", "configurations", "fault_sequences"],
    "Slots 1 to 4, controls 1 to 3, value alphabet including zero, negative, tiny and huge, each option combination, each write-fault placement.",
    "No test reads a saved file.",
    ["dynamics.py", "pulseoptim.py"],
    [("save_amps", "dynamics.py:Dynamics.save_amps"), ("initial/final files", "pulseoptim.py:optimize_pulse")],
    observe=["file contents"])

add("C18", "The stand-alone GRAPE routines return one consistent, bounded iterate history",
    "The stand-alone GRAPE routines return, for every number of iterations, times and controls, starting amplitudes, limits, penalties and phase option, a final evolution and time-dependent Hamiltonian that belong to the last row of the returned amplitude history, with the start in its first row. "
    "Amplitudes stay within the limits given, the array-based and operator-based routines agree step by step, each step is the first-order gradient step of the stated overlap less the penalties, and the adaptive routine takes the best of its step sizes and never a row with a lower overlap.",
    ["inputs", "configurations", "histories"],
    "Rows 1 to 4 (thorough 6), 2 to 4 (6) times, 1 to 3 controls on 2- to 4-level systems, limits, start arrays, step sizes, alpha/beta penalties, phase options and interpolation.",
    "Tests only check the converged overlap for one problem.",
    ["grape.py", "cy_grape.py"],
    [("iteration", "grape.py:grape_unitary, cy_grape_unitary, grape_unitary_adaptive"), ("step", "cy_grape.py:cy_grape_inner")],
    observe=["GRAPEResult.u/U_f/H_t"])

add("C19", "Independent optimisations do not influence each other",
    "Two optimisers built from the same or different operators and configuration give, under any interleaving of their operations, the results each gives alone. "
    "With the same inputs and the same random draws a run gives the same result every time, regardless of what was run, dumped or configured before in the process.",
    ["schedules", "histories"],
    "All interleavings of two optimisers' scripts of up to 5 operations, and of the minimiser actions of two runs, over all pairs of configurations, with shared and separate arguments; the other script run at call boundaries of the first; every history of earlier activities up to depth 2 (thorough 3) in a fresh process.",
    "Tests run one optimisation at a time.",
    ["dynamics.py", "optimizer.py", "pulseoptim.py", "pulsegen.py"],
    [("per-instance state", "dynamics.py:Dynamics.reset, optimizer.py:Optimizer.reset, pulsegen.py:PulseGen.reset")],
    observe=["results of each instance"])

add("C20", "A reused optimiser behaves like a new one",
    "Running an optimiser again after changing its termination conditions, method, tolerances, limits, amplitudes, target or algorithm parameters gives the same result as a newly created optimiser with those settings: limits of the earlier run do not persist, and counters, flags and statistics start afresh. "
    "Earlier results keep their values.",
    ["histories", "configurations"],
    "Every sequence of up to two (thorough three) changes with runs before and between them, for each entry point, algorithm and starting configuration, under the scripted minimiser, compared with an optimiser built directly with the final settings.",
    "Tests create a new optimiser for each run.",
    ["optimizer.py", "dynamics.py", "termcond.py"],
    [("per-run initialisation", "optimizer.py:init_optim, _build_method_options, _build_bounds_list")],
    observe=["scipy minimiser arguments", "OptimResult"])

add("C21", "Diagnostics report what is true and have no other effect",
    "Log levels, the unitarity check level and tolerance, statistics and reports never change a computed value: every history of them interleaved with evaluations, updates and re-initialisations gives the values of the same history without. "
    "Exactly the slots whose propagators are not unitary within the tolerance are reported, the level asked for is the level in force, and every printed statistic stands under its own heading.",
    ["histories", "configurations"],
    "Every sequence of diagnostic settings, updates, evaluations and explicit checks to depth 3 (thorough 4) over 17 configurations with unitary, non-unitary, symplectic and time-dependent generators; each complete run at every log and check level; printed reports of marked statistics.",
    "Tests run at one log level and never look at messages.",
    ["dynamics.py", "tslotcomp.py", "stats.py", "logging_utils.py", "optimizer.py"],
    [("unitarity check", "dynamics.py:Dynamics.unitarity_check"), ("check placement", "tslotcomp.py:recompute_evolution"), ("report", "stats.py:Stats.report")],
    observe=["values of the evaluations", "log records", "printed report"])

add("C22", "Alternative and deprecated names and input forms are equivalent",
    "Drift and controls given as lists, tuples, nested lists or tuples or arrays, in any data layer, at creation, as attributes, under the Hamiltonian names or anew before a re-initialisation, give the same error, gradient and evolution, with the dimensions of the operators. "
    "Every deprecated method and attribute warns, returns or sets exactly what its replacement does and changes nothing else, in every history of old and new spellings; the most recently given operators are in force from the next initialisation of the controls.",
    ["histories", "input forms", "configurations"],
    "Every combination of form, data layer, dimensions, propagator, fidelity, representation and route over ten systems; every sequence of old and new spellings to depth 3 (thorough 4) over eleven configurations.",
    "Tests use lists of dense operators and the current names only.",
    ["dynamics.py", "fidcomp.py", "propcomp.py", "tslotcomp.py", "pulseoptim.py"],
    [("input checks", "dynamics.py:_check_ctrls_container, _check_drift_dyn_gen, _init_evo"), ("Hamiltonian names", "dynamics.py:DynamicsUnitary._map_dyn_gen_to_ham"), ("deprecated accessors", "dynamics.py, fidcomp.py, propcomp.py, tslotcomp.py: _func_deprecation, _attrib_deprecation")],
    observe=["values of the evaluations", "returned operators", "warnings"])

add("C23", "A broken off or refused operation leaves nothing half done",
    "An operation that is broken off by an interrupt or a failing computation, at whichever computation, reports the exception to its caller; afterwards every reported value still belongs to the amplitudes in force, and repeating the operation, or running another optimisation, gives what a new system or optimiser gives. "
    "A request that is refused (invalid option, operator, computer, condition or file) leaves settings and values as they were.",
    ["histories", "fault points"],
    "An exception at every computation (matrix function, product, operator construction, random draw) of every operation, optimisation run and entry point, after every preparation and before every continuation in 17 configurations (thorough: two faults); every history of refused and valid requests to depth 3 (thorough 4).",
    "Tests never interrupt anything and never look at an object after an error.",
    ["dynamics.py", "tslotcomp.py", "fidcomp.py", "propcomp.py", "optimizer.py", "pulseoptim.py", "grape.py"],
    [("validity flags", "dynamics.py:compute_evolution; fidcomp.py:get_fidelity_prenorm, get_fid_err_gradient"), ("lazily built lists", "dynamics.py:prop_grad, fwd_evo, onto_evo"), ("per-run initialisation", "optimizer.py:init_optim"), ("option checks", "fidcomp.py:_init_phase_option; dynamics.py:init_evo")],
    observe=["exceptions", "values of the evaluations", "settings", "results of the next run"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
