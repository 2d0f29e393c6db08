"""Writes /verif/properties.jsonl (kept as a generator so that the long lines stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = [observe]
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Recalibration is independent of the solution's history",
 "Calibrating the scale factor of a background solution gives the same e-fold numbers, wavenumbers, horizon scales, "
 "reheating parameters, amplitudes, tilts and approximate spectra as the same calibration of a freshly computed, identical, "
 "never-touched background. This holds whatever calibrations (by e-folds, by reheating, by curvature), spectrum derivations, "
 "spectrum look-ups and spectral-index settings came before on that solution, and whether those succeeded, failed or were interrupted.",
 ["histories", "fault_sequences", "crash_points", "configurations"],
 "every sequence of calibrate / derive / look up / set-n_s operations with any valid or invalid arguments, with a fault or interrupt at any point of any of them, on flat, open and closed backgrounds on either clock, ended by any successful calibration",
 "Tests calibrate a solution once or twice with hand-picked arguments and compare single attributes; the number of histories and interruption points is unbounded and no test compares a re-used solution with a fresh one.",
 ["primpy/inflation.py", "primpy/reheating.py"],
 [("closures attached to the solution that overwrite its attributes", "primpy/inflation.py InflationEquations.sol"),
  ("lazily cached spectra", "primpy/inflation.py P_s_approx / P_t_approx")],
 [("calibrated attributes of the solution", "e-folds, wavenumbers, reheating parameters, spectra")],
 "public attributes and spectrum functions of the returned solution")

prop("C02", "A failed or interrupted operation leaves earlier results intact",
 "When a calibration, a spectral-index setting or a spectrum derivation on an already calibrated background raises - because of "
 "invalid or unreachable arguments, a failing numerical routine underneath, exhausted memory, or an interrupt at any instant - "
 "every result the solution carried before the call still has its previous value (or, for an interrupt after the last change, its completed new one), so the solution is never a mix of two calibrations.",
 ["crash_points", "fault_sequences", "histories", "inputs"],
 "every operation that can raise, every point at which it can raise or be interrupted, every state of the solution before it",
 "Tests assert that bad arguments raise, but not what the solution looks like afterwards, and cannot enumerate the interruption points inside the multi-step update.",
 ["primpy/inflation.py", "primpy/reheating.py"],
 [("in-place multi-attribute update", "primpy/inflation.py calibrate_scale_factor"),
  ("optimiser that recalibrates at each trial", "primpy/inflation.py set_ns"),
  ("derive_approx_power", "primpy/inflation.py derive_approx_power*")],
 [("calibrated attributes of the solution", "must be all old or all new")],
 "public attributes and spectrum functions of the solution after the exception")

prop("C03", "Looking up a spectrum changes nothing and depends on no earlier look-up",
 "Evaluating the approximate scalar or tensor primordial power spectrum in any approximation and order, at any wavenumbers, "
 "changes none of the solution's results. The values returned are those belonging to the solution's current calibration, whatever "
 "was looked up before, in whatever order, and whether or not an earlier look-up failed or was interrupted; values once returned stay as they are.",
 ["histories", "fault_sequences", "crash_points", "inputs"],
 "all sequences of look-ups over all approximations, orders and wavenumbers, interleaved with recalibrations, with faults inside look-ups",
 "Tests look each approximation up once, in one fixed order, on one calibration; they never re-read after a recalibration nor check that reading has no side effect.",
 ["primpy/inflation.py"],
 [("lazy derivation and caching in the spectrum functions", "primpy/inflation.py P_s_approx, P_t_approx, derive_approx_power_*")],
 [("cached spectra", "one per approximation"), ("selected spectrum", "the one amplitudes and tilts are quoted for")],
 "values returned by the spectrum functions; solution attributes before and after")

prop("C04", "Shooting hits its target or says that it did not",
 "Setting a spectral index, a total number of e-folds, or a number of observable e-folds together with today's curvature either "
 "ends with a background that has the requested value within the solver tolerance, or raises an error - it never silently returns something else. "
 "This includes root finders that stop unconverged, trial integrations that fail, stop early or collapse, and faults at any trial, and "
 "a failed trial integration, an unconverged root finder or an unreachable n_s surfaces as one of the library's own error classes (an injected fault as itself), within a bounded number of trials.",
 ["fault_sequences", "inputs", "crash_points"],
 "all targets, brackets, root-finder options and potentials; at every trial any of: step-size failure, early stop, collapse, exception, interrupt; root finder non-convergence",
 "Tests shoot for a few reachable targets with a root finder that always converges and integrations that never fail.",
 ["primpy/inflation.py", "primpy/initialconditions.py"],
 [("root finder around recalibration", "primpy/inflation.py set_ns"),
  ("root finder around trial integrations", "primpy/initialconditions.py ISIC_Nt, ISIC_NsOk")],
 [("trial outcome classification", "finite e-folds / too many / collapse / failed integration")],
 "returned solution's n_s, N_tot, N_star; exception type; number of trials")

prop("C05", "Model objects carry no memory from one solve to the next",
 "Solving a background from given initial conditions gives the same result, with the same warnings, whether the potential, equations, events and initial-condition objects are new or "
 "have been used before for any number of other solves, look-ups and shootings, in any order, successful, failed or interrupted. "
 "In particular a failed or interrupted solve does not change what a later solve with the same objects returns, and an earlier returned solution is not altered by later solves.",
 ["histories", "fault_sequences", "crash_points"],
 "all sequences of solves sharing objects, with different settings, initial conditions, events and faults at any point",
 "Tests build fresh objects for each solve and never re-use them after an error.",
 ["primpy/initialconditions.py", "primpy/equations.py", "primpy/events.py", "primpy/potentials.py", "primpy/solver.py", "primpy/time/inflation.py", "primpy/efolds/inflation.py"],
 [("initial conditions that re-initialise themselves during the call", "primpy/initialconditions.py"),
  ("lazily cached potential quantities", "primpy/potentials.py"), ("equations used to post-process", "primpy/equations.py")],
 [("object attributes", "phi_i, N_i, cached end of inflation, index maps")],
 "attributes of the returned solutions; warnings issued")

prop("C06", "Stopped or failed evolution never yields a made-up start or end of inflation",
 "Whatever stops the background evolution - the end of inflation, a user event, a collapse, the end of the range, a failing step, a field value at which the potential is undefined - the "
 "reported start and end of inflation are those the recorded evolution really passes through (the first transition of the requested kind among the tracked events) and are undefined "
 "otherwise, together with every quantity derived from them (a universe recorded as collapsed has no start). Quantities reported at those points agree with the evolution there, the integrator's status is passed on unchanged, and an undefined start or end or a collapse is truthfully warned about when warnings are asked for.",
 ["fault_sequences", "crash_points", "configurations", "inputs"],
 "all stopping points and causes, all sets and orders of tracked events, all curvatures, both clocks, all potentials",
 "Tests stop at the end of inflation or at one or two hand-picked points; every intermediate stopping point and combination of tracked events is untested.",
 ["primpy/inflation.py", "primpy/events.py", "primpy/equations.py", "primpy/solver.py", "primpy/time/inflation.py", "primpy/efolds/inflation.py"],
 [("extraction of start and end from recorded events", "primpy/inflation.py postprocessing_inflation_start/_end"),
  ("event functions", "primpy/events.py"), ("mapping of events to names", "primpy/equations.py sol, primpy/solver.py solve")],
 [("recorded events", "per tracked event name: times and states")],
 "start/end attributes, event dictionaries, status, warnings")

prop("C07", "Evolution does not depend on how it was chopped up, clocked or resumed",
 "A background evolution that is stopped at any point and resumed from its recorded state - on the same clock or on the other one (cosmic time or e-folds), any number of times, with any step-size "
 "limits, output grids or integration methods - reaches the end of inflation at the same e-folds, field value and Hubble rate as the uninterrupted evolution, within integration tolerance. "
 "Expansion rate, curvature fraction, equation of state, elapsed cosmic time and conformal time agree along the way, forwards and backwards, as does the ratio of conformal time before to after the end of inflation, and initial conditions given by e-folds or by the equivalent curvature fraction start either clock from the same state.",
 ["crash_points", "schedules", "configurations", "inputs"],
 "every stopping point, every number of stop-and-resume cycles, every choice of clock per segment, every step schedule, flat/open/closed, all potentials",
 "Tests compare one uninterrupted run per clock at a few attributes, in the flat case mostly, and never resume.",
 ["primpy/time/inflation.py", "primpy/efolds/inflation.py", "primpy/solver.py", "primpy/equations.py", "primpy/initialconditions.py"],
 [("right-hand sides on the two clocks", "primpy/time/inflation.py, primpy/efolds/inflation.py"), ("solver wrapper", "primpy/solver.py")],
 [("evolution state", "field, field velocity, e-folds, time, conformal time")],
 "state and derived quantities at the end of inflation and at matched e-folds")

prop("C08", "Each perturbation mode is computed independently of its batch",
 "The primordial power computed for a wavenumber is the same whether it is computed alone, in any batch, in any order, repeatedly, or together with any choice of vacua, and the background solution is not changed by it. "
 "If the integration of one mode fails or is corrupted, an error is raised or only that mode's value is affected; a later computation is unaffected.",
 ["histories", "fault_sequences", "schedules", "inputs"],
 "all batches, orders, duplications and vacuum choices; at any mode a failing, non-finite or raising integration; both clocks; all curvatures",
 "Tests compute a few fixed grids once, never permuted, repeated or with a failing mode.",
 ["primpy/oscode_solver.py", "primpy/perturbations.py", "primpy/time/perturbations.py", "primpy/efolds/perturbations.py"],
 [("loop over wavenumbers with per-mode windows", "primpy/oscode_solver.py solve_oscode"), ("combination of independent solutions", "primpy/perturbations.py")],
 [("per-mode results", "one slot per wavenumber and vacuum")],
 "power spectrum arrays; background attributes before and after")

prop("C09", "The library leaves process-wide settings as it found them",
 "After any operation of the library - solving, shooting, calibrating, look-ups, perturbations, conformal time, sampler points - whether it succeeded, failed or was interrupted anywhere, and also when quiet (non-verbose) operations overlap in several threads (sampler points excepted: a sampler process evaluates one at a time), "
 "the process's warning filters, floating-point error handling, random-number state, print options and other global settings are exactly as before. "
 "Importing the library likewise changes none of them.",
 ["fault_sequences", "crash_points", "schedules"],
 "all operations, all fault and interrupt points, all thread interleavings",
 "Tests never look at process-wide state after an error, and run in one thread.",
 ["primpy/initialconditions.py", "cobaya_wrapper/slowroll_pps.py", "primpy/potentials.py", "primpy/bigbang.py", "primpy/inflation.py"],
 [("temporary warning filters around trial integrations", "primpy/initialconditions.py, cobaya_wrapper/slowroll_pps.py")],
 [("warning filters, numpy error state, RNG state", "process-wide")],
 "warnings.filters, numpy.geterr, RNG states, print options")

prop("C10", "Concurrent use gives the same answers as sequential use",
 "When several threads solve backgrounds, shoot, look up spectra, or compute perturbations at the same time - sharing potentials, equations, events and calibrated solutions for reading, "
 "each with its own initial conditions - every thread obtains the answer it would have obtained alone, under every interleaving, and the shared objects' results are unchanged afterwards.",
 ["schedules", "fault_sequences"],
 "all interleavings of 2-4 threads at statement granularity, all assignments of operations to threads, with a fault in one of the threads",
 "Tests are single-threaded.",
 ["primpy/inflation.py", "primpy/potentials.py", "primpy/equations.py", "primpy/initialconditions.py", "primpy/oscode_solver.py"],
 [("lazy caches on shared objects", "primpy/inflation.py P_s_approx, primpy/potentials.py"), ("temporary warning filters", "primpy/initialconditions.py")],
 [("shared potential, equations, calibrated solution", "read by all threads")],
 "each thread's returned values; shared objects afterwards")

prop("C11", "A sampler point depends only on its parameters and hits its target or fails",
 "Each point evaluated by a sampler component (slow-roll, power law, oscillations, cutoff) gives the same spectra and derived parameters whatever points were evaluated before it by the same component, including rejected, failed and interrupted ones. "
 "An accepted point has the requested amplitude (and the requested tilt, observable e-folds or reheating energy and equation of state) and internally consistent derived values; otherwise an error is raised and no spectra are published for it. Spectra once published do not change when later points are evaluated.",
 ["histories", "fault_sequences", "crash_points", "inputs"],
 "all sequences of parameter points over the available models, with faults at any integration or calibration inside a point",
 "The sampler component has no tests at all.",
 ["cobaya_wrapper/slowroll_pps.py", "cobaya_wrapper/powerlaw_pps.py", "cobaya_wrapper/feature_pps.py", "primpy/inflation.py", "primpy/potentials.py"],
 [("amplitude shooting loop", "cobaya_wrapper/slowroll_pps.py calculate")],
 [("state published to the sampler", "scalar and tensor spectra, derived parameters")],
 "state dictionary after each point; exceptions")

prop("C12", "Derived calibration values fed back reproduce the calibration",
 "Calibrating a background by any method and feeding the derived values back through any other accepted parametrisation of the same scenario (e-folds, curvature today, reheating duration, equation of state, energy scale, or a radiation-parameter offset, "
 "or by copying from an identical background) reproduces the same e-folds of observable inflation, reheating parameters and amplitudes, for any chain of such feed-backs. The chain is a fixed point: it neither drifts nor depends on the route.",
 ["histories", "configurations", "inputs"],
 "all chains of re-parametrisations over all methods, flat/open/closed, all potentials, all admissible reheating scenarios",
 "Tests check selected pairs of parametrisations at a few parameter values; chains and the curved reheating combinations are not covered.",
 ["primpy/inflation.py", "primpy/reheating.py", "primpy/parameters.py"],
 [("calibration branches", "primpy/inflation.py calibrate_scale_factor"), ("instant-reheating test", "primpy/reheating.py")],
 [("calibrated attributes", "e-folds and reheating parameters")],
 "calibrated attributes after each step of the chain")

prop("C13", "An interrupted version bump never passes the release gate half-done",
 "If the version-bump script is killed or one of its steps (or of the gate's own) fails at any point, the release gate either accepts a tree in which the package version and the documented version agree and are one increment above the released one, or rejects the tree; "
 "re-running or restoring always leads back to an acceptable state. A completed bump is always accepted, and leaves every line that does not mention the old version as it was.",
 ["crash_points", "fault_sequences"],
 "every point at which the script or one of its sub-processes can fail, every update type, every starting version",
 "No test runs the release scripts.",
 ["bin/bump_version.py", ".github/workflows/check_version.py", "bin/utils.py"],
 [("in-place edits of two files by sub-processes", "bin/bump_version.py"), ("comparison of the two files and the released version", ".github/workflows/check_version.py")],
 [("version file and README", "two copies of one fact")],
 "exit status of the gate; contents of the two files")

prop("C14", "A mode's power is independent of how its evolution was clocked and chopped",
 "The numerical scalar and tensor power of a mode, and the approximate spectra with their amplitudes and tilts, are properties of the universe: within integration tolerance they are the same whether the background beneath was evolved in cosmic time or in e-folds, "
 "uninterrupted or stopped and resumed, on any sufficiently fine output grid, after failed attempts, and wherever the mode's evolution is started deep inside the horizon and stopped after it has frozen; flat, open and closed universes alike. "
 "They equal an independent integration of the perturbation equations from the same initial state.",
 ["histories", "schedules", "fault_sequences", "configurations"],
 "all stop/resume histories, clocks, output grids, starting and stopping points of the modes, vacua, accuracies, failed attempts; all curvatures",
 "Tests compare the two clocks on a few uninterrupted backgrounds, curved ones for one vacuum started at the first point only.",
 ["primpy/oscode_solver.py", "primpy/perturbations.py", "primpy/time/perturbations.py", "primpy/efolds/perturbations.py", "primpy/time/inflation.py", "primpy/efolds/inflation.py", "primpy/inflation.py"],
 [("start/stop indices and slices of the background", "primpy/perturbations.py"), ("frequency and damping terms, vacua in each clock", "primpy/time/perturbations.py, primpy/efolds/perturbations.py"), ("higher derivatives per clock", "primpy/time/inflation.py, primpy/efolds/inflation.py")],
 [("background arrays", "trajectory on the output grid"), ("mode solution", "state of the curvature and tensor perturbation")],
 "numerical power spectra of modes, approximate power spectra, A_s, n_s, r, N_star")

prop("C15", "Repeated use does not accumulate",
 "However often operations are repeated with ever-new arguments - solves, shootings, spectral-index searches, calibrations, spectrum derivations, look-ups, modes, potential and equation evaluations, sampler points - "
 "and whether they succeed, fail or are interrupted: once the user has dropped what an operation returned, nothing of it stays alive. The objects kept by the library's modules and by the potential, equations, events, "
 "initial conditions, calibrated solution and sampler components in use stay bounded, so that a long sampling run neither grows in memory nor slows down.",
 ["histories", "fault_sequences", "crash_points"],
 "all sequences of repeated operations on shared and on new objects, of any length, with faults and interrupts at any point",
 "A test performs an operation a handful of times and does not look at what is left behind.",
 ["primpy/inflation.py", "primpy/solver.py", "primpy/equations.py", "primpy/events.py", "primpy/initialconditions.py", "primpy/potentials.py", "primpy/perturbations.py", "primpy/oscode_solver.py", "cobaya_wrapper/slowroll_pps.py", "cobaya_wrapper/powerlaw_pps.py"],
 [("closures attached to the solution at each derivation and look-up", "primpy/inflation.py"), ("lazily cached potential quantities", "primpy/potentials.py"), ("state kept between sampler points", "cobaya_wrapper/slowroll_pps.py")],
 [("object graph", "what is reachable from the library's modules and the objects in use")],
 "number of live objects after garbage collection")

prop("C16", "Results depend on nothing but the arguments",
 "The result, or the error, of any operation - solves, shootings, spectral-index searches, calibrations, look-ups, modes, conformal times, sampler points - is determined to the last bit by its arguments and the objects it is "
 "applied to. The state of random-number generators, the clock and how it jumps, the time zone, the working, home and temporary directories, environment variables, warning filters and floating-point warning modes (unless they turn "
 "warnings into errors), print options, the garbage collector, the thread, what freed memory contains, the standard output (of quiet operations), the machine, string hashing, the order of imports, verbosity and the same work done before "
 "change nothing; Python numbers, NumPy scalars and zero-dimensional arrays of the same value give the same results (up to rounding). Operations write no files and start no processes or connections.",
 ["configurations", "inputs", "histories", "fault_sequences"],
 "all sequences of operations, with failing numerical routines underneath or without, in all combinations of surroundings",
 "Tests run in one process, environment and machine state at a time and compare with tolerances; they do not repeat a computation in different surroundings.",
 ["primpy/inflation.py", "primpy/solver.py", "primpy/equations.py", "primpy/initialconditions.py", "primpy/potentials.py", "primpy/oscode_solver.py", "primpy/perturbations.py", "primpy/bigbang.py", "primpy/exceptionhandling.py", "cobaya_wrapper/slowroll_pps.py", "cobaya_wrapper/powerlaw_pps.py", "cobaya_wrapper/feature_pps.py"],
 [("warnings raised and suppressed on the way to a result", "primpy/initialconditions.py solve_trial, cobaya_wrapper/slowroll_pps.py calculate"), ("order of variables and events", "primpy/equations.py add_variable, sol"), ("arrays allocated for results", "primpy/perturbations.py PrimordialPowerSpectrum, primpy/solver.py solve")],
 None,
 "returned values, attributes and errors; files, processes and connections")

# ---- properties outside the technique ----
prop("P01", "Potentials' derivatives and inverses are consistent",
 "For every potential and parameter value the reported first to fourth derivatives are the derivatives of the reported potential, and the inverse functions invert it.",
 ["inputs"], "all field values and parameters", "Tests sample a few points.", ["primpy/potentials.py"], [("analytic formulas", "primpy/potentials.py")])
prop("P02", "Slow-roll predictions and inversions of a potential are mutually consistent",
 "Slow-roll e-folds as a function of field value and field value as a function of e-folds invert each other, and the predicted tilt, ratio, amplitude and end of inflation follow from the potential's derivatives.",
 ["inputs"], "all field values, e-folds and parameters", "Tests sample a few points per potential.", ["primpy/potentials.py"], [("slow-roll formulas", "primpy/potentials.py")])
prop("P03", "Approximate spectra converge to the numerically exact one",
 "The slow-roll approximations of the power spectra agree with each other and with the mode-by-mode numerical spectra within their formal order, in the slow-roll regime.",
 ["inputs", "configurations"], "all slow-roll backgrounds and wavenumbers", "Tests compare on one background.", ["primpy/inflation.py", "primpy/oscode_solver.py", "primpy/time/perturbations.py", "primpy/efolds/perturbations.py"], [("closed-form formulas", "primpy/inflation.py")])
prop("P04", "Standard Big Bang quantities satisfy the Friedmann equation",
 "The Hubble rate, comoving horizon, conformal time and density parameters of the post-inflationary universe satisfy the Friedmann equation and integrate consistently in every unit system.",
 ["inputs"], "all scale factors, density parameters, units", "Tests sample a few values.", ["primpy/bigbang.py", "primpy/units.py", "primpy/parameters.py"], [("formulas and quadrature", "primpy/bigbang.py")])
prop("P05", "Features localise where they are placed",
 "Adding a feature to a potential changes it only around the feature's position and reduces to the smooth potential when the feature's amplitude vanishes.",
 ["inputs"], "all feature parameters", "Tests sample derivatives only.", ["primpy/potentials.py"], [("feature mix-in", "primpy/potentials.py")])
prop("P06", "Power-law and feature spectra for the sampler follow their formulas",
 "The power-law and oscillating primordial spectra handed to the sampler equal their defining formulas with the requested amplitude, tilt and runnings at the pivot scale.",
 ["inputs"], "all parameters and wavenumbers", "No tests.", ["cobaya_wrapper/powerlaw_pps.py", "cobaya_wrapper/feature_pps.py"], [("formulas", "cobaya_wrapper/powerlaw_pps.py")])
prop("P07", "Inconsistent arguments are rejected with an error",
 "Contradictory or out-of-range arguments to initial conditions, calibrations and Big Bang functions raise an error naming the problem rather than producing a number.",
 ["inputs"], "all argument combinations", "Tests cover listed combinations.", ["primpy/initialconditions.py", "primpy/inflation.py", "primpy/bigbang.py"], [("argument checks", "several")])
prop("P08", "Quantum vacuum initial conditions satisfy their normalisation",
 "For every vacuum choice the combined mode solution satisfies the canonical normalisation at the start and converges to the same spectrum deep inside the horizon.",
 ["inputs"], "all wavenumbers and backgrounds", "Tests check one background.", ["primpy/perturbations.py", "primpy/time/perturbations.py", "primpy/efolds/perturbations.py"], [("vacuum formulas", "primpy/time/perturbations.py, primpy/efolds/perturbations.py")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
