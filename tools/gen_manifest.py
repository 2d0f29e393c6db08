"""Writes /verif/MANIFEST.json: claims exactly the checks that exist in dst/checks."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: seeded search over "
CH = {
 "C01": ("histories of calibrations/look-ups/derivations with seam faults and interrupts, refinement against a fresh solution",
         "A used solution is compared attribute by attribute (1e-9) with the same calibration on a fresh background in a pristine process."),
 "C02": ("operations failing by arguments, seam faults and statement-level interrupts; before/after history check",
         "All-old (or, for an interrupt after the last change, all-new) check of every attribute, the selected spectrum and all look-ups."),
 "C03": ("look-up histories with recalibrations and faults; purity invariant and reference-model check of every value",
         "Every look-up equals the same look-up made alone on a fresh background in the same calibration; attributes unchanged."),
 "C04": ("targets, brackets and faults in every trial (failing, truncated, NaN integrations; unconverged root finders; interrupts)",
         "An operation that returns has its target re-measured by an independent solve; failures must be library errors; bounded trials."),
 "C05": ("histories of solves, shootings and look-ups sharing model objects, with faults; refinement against fresh objects",
         "Each solve with re-used objects is compared with one by new objects in a pristine process."),
 "C06": ("stopping causes (events, collapse, range, injected step failures) with a history check against the raw integrator record",
         "Start/end, derived quantities, event dictionaries, status and warnings against an independent reading of the raw record."),
 "C07": ("stop/resume points, clock switches and step schedules, against an executable reference model of the evolution",
         "States at the end of inflation and at segment boundaries agree with an independent integration within tolerance."),
 "C08": ("batches, orders, vacua and failing/corrupted modes; per-mode reference check",
         "Each mode equals its lone computation in a pristine process (1e-9); faults stay with their mode or surface."),
 "C09": ("all operations with faults and interrupts, several threads under a controlled scheduler; global-state invariant",
         "Warning filters, numpy error handling, RNG state, print options and more are compared after every operation."),
 "C10": ("thread interleavings under a controlled cooperative scheduler, with a fault in one thread; sequential-equivalence check",
         "Each thread's answer equals its lone answer; shared objects unchanged; interleavings at source-line granularity."),
 "C11": ("sequences of sampler points with faults; refinement against a fresh component, target and consistency invariants",
         "Each point is compared with the same point on a fresh component; accepted points are checked against their targets."),
 "C12": ("chains of re-parametrisations; fixed-point invariant along the chain",
         "Every step of a chain of feed-backs must reproduce the calibration (1e-8 in e-folds)."),
 "C13": ("crash points of the version-bump script in a scratch tree; gate verdict checked against the tree's contents",
         "The script's and the gate's real code run in a scratch directory with the n-th sub-process failing or killing the script."),
 "C14": ("stop/resume histories, clocks, output grids, mode start/stop points and failed attempts, against an executable reference model",
         "Mode powers agree with an independent joint integration (3e-3), approximate spectra with the uninterrupted evolution on the other clock (5e-4)."),
 "C15": ("repeated cycles of operations with ever-new arguments, faults and interrupts; bounded-growth invariant",
         "After every repetition everything still reachable from the library and the objects in use is counted; growth is confirmed over many more repetitions."),
 "C16": ("histories of operations executed in simulated surroundings (clocks, entropy, environment, memory contents, allocator, hashing, streams, threads) with seam faults; bit-by-bit refinement against the reference surroundings",
         "The same history runs in the reference surroundings and in varied ones, in forked or separately started processes; results and errors are compared bit by bit, effects outside the process recorded by an audit hook."),
}
NA = {
 "P01": "pure functions of their arguments: no state, time, I/O, faults or scheduling to simulate; this is a question of formulas",
 "P02": "pure functions of their arguments: no schedule, fault or history can influence them",
 "P03": "a statement about the accuracy of closed formulas on given backgrounds; nothing in it depends on schedules, faults or histories",
 "P04": "pure functions of their arguments (one quadrature); no schedule, fault or history can influence them",
 "P05": "pure functions of their arguments; no schedule, fault or history can influence them",
 "P06": "pure formulas evaluated at their arguments; no schedule, fault or history can influence them",
 "P07": "argument validation of single calls; no schedule, fault or history can influence it (what a rejection leaves behind is C02)",
 "P08": "algebraic normalisation of formulas; no schedule, fault or history can influence it",
}
LIMIT = ("Exploration, not proof: the seeded runs of one check; scipy, numpy and pyoscode run for real and are trusted to be deterministic; "
         "interrupts at source-line granularity outside clean-up code.")
have = [p for p in sorted(CH) if os.path.exists(os.path.join(V, 'dst/checks', p.lower() + '.py'))]
na = [{"property": p, "reason": "check not built yet"} for p in sorted(CH) if p not in have]
na += [{"property": p, "reason": r} for p, r in sorted(NA.items())]
json.dump({
 "version": 1,
 "setup_cmd": "./check setup",
 "checks": [{"property": p, "quick_cmd": "./check check %s --tier quick" % p, "thorough_cmd": "./check check %s --tier thorough" % p,
             "technique": T + CH[p][0], "level": "exploration", "level_note": CH[p][1] + " " + LIMIT} for p in have],
 "not_applicable": na,
 "notes": "Replay: ./check replay FILE.  Determinism self-test: ./check selftest.  No hooks in /repo: all seams are at the interfaces to "
          "scipy/pyoscode and at the interpreter's tracing, installed from /verif before the library is imported.",
}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
