#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the wording is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=(), state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files), state=list(state),
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))
S = "src/disc_solver/"

prop("C01", "ds-csvrunner writes each result exactly once, in input order, unmixed",
 "A ds-csvrunner run appends to its output file its '#' metadata lines, one header line and then exactly one row for every input row whose solve finds a final solution and none for the others, in input order, for any number of workers and any scheduling of them. Each row holds every field of the solution input of that input row's own final solution (the row's values with the overrides applied, and with what the search method found), exactly as solving that row alone would give, so that no result is lost, repeated, swapped with another or contaminated by state left from another input.",
 ["schedules", "inputs"], "all input files, worker counts, search methods, overrides and interleavings of worker processes with the writing process",
 "The tests run one or two rows through a real pool and look only at whether it returns; nothing varies which worker finishes first or compares rows with inputs.",
 [S+"solve/csvrunner.py", S+"solve/utils.py", S+"utils.py"],
 [("ordered hand-out of results (imap) and one writer", S+"solve/csvrunner.py:csvrunner"), ("per-input run object", S+"solve/csvrunner.py:SolutionFinder"), ("row reading, label and column filtering", S+"solve/utils.py:get_csv_inputs")],
 ["the output file of ds-csvrunner"])
prop("C02", "ds-csvrunner output is append-only and survives kills and full disks",
 "ds-csvrunner never alters what its output file already holds: it only appends, and several runners appending to one file at the same time neither tear nor lose each other's lines. A row is handed to the operating system before the runner waits for a further result, so whenever the runner is killed the file holds its old content and then a prefix of the intended output that contains every row whose result the runner had already processed. If a write fails (full disk, I/O error) the command fails with that error instead of reporting success, and what was complete before stays in the file.",
 ["crash_points", "fault_sequences", "schedules"], "all points at which the writing process can be killed, all failing or short writes, all interleavings of concurrent runners",
 "Tests never kill the runner, never fail a write and never look at the file while the run is in progress.",
 [S+"solve/csvrunner.py", S+"utils.py", S+"solve/utils.py"],
 [("append mode and flush after header and after each row", S+"solve/csvrunner.py:csvrunner"), ("open_or_stream", S+"utils.py:open_or_stream")],
 ["bytes of the output file after each event", "exit of the command"])
prop("C03", "ds-hdf5runner leaves exactly one right result file per solved input",
 "For every input row whose solve ends without a solver error, ds-hdf5runner leaves exactly one new result file in the output directory, for any worker count and scheduling, and no two rows ever share a file. That file loads as a complete run whose config input is that row with label and overrides applied, whose recorded source file and solution are those named in the row, and whose attempts and final solution are those solving that row alone gives. Every row for which no solution was found is reported on standard output, once each, and none of the others is.",
 ["schedules", "inputs"], "all input files, worker counts, search methods, clock readings and interleavings",
 "The tests run one or two rows and only check that the command returns.",
 [S+"solve/hdf5runner.py", S+"solve/utils.py"],
 [("per-worker, time-stamped file name opened exclusively", S+"solve/hdf5runner.py:SolutionFinder"), ("failure report", S+"solve/hdf5runner.py:hdf5runner")],
 ["output directory", "standard output"])
prop("C04", "A batch input that fails with a solver error costs only that input",
 "When some inputs of a ds-csvrunner or ds-hdf5runner batch make the solver fail with a solver error (unphysical values, no acceptable solution, the integrator giving up at any step of any attempt), the command still finishes normally and every other input gets exactly the result it would have got in a batch without the failing ones. The failing inputs produce no row and no result file that loads as a complete run containing a final solution.",
 ["fault_sequences", "schedules", "inputs"], "all placements of failing inputs and of integrator failures inside a batch, all schedules",
 "No test mixes failing and working inputs, and integrator failures cannot be placed from a test.",
 [S+"solve/csvrunner.py", S+"solve/hdf5runner.py", S+"solve/solution.py", S+"solve/config.py"],
 [("except SolverError around the solve", S+"solve/csvrunner.py:SolutionFinder.__call__"), ("translation of integrator failures into solver errors", S+"solve/solution.py:main_solution")],
 ["rows", "result files", "exit of the command"])
prop("C05", "An unexpected worker or pool failure is reported, never swallowed or hung",
 "If an input makes a worker of ds-csvrunner or ds-hdf5runner fail with anything other than a solver error (malformed row, I/O error while writing its result file, programming error), or the worker processes cannot be started at all, the command ends with that very error in bounded time; it neither hangs, nor ends successfully, nor hides the error behind another. Results of all inputs before the failing one are written first, tasks already handed to workers are allowed to finish, and no worker process is left behind.",
 ["fault_sequences", "schedules", "inputs"], "all positions and kinds of unexpected failure, all schedules, failure to start the pool",
 "No test makes a worker or the start of the pool fail.",
 [S+"utils.py", S+"solve/csvrunner.py", S+"solve/hdf5runner.py"],
 [("nicer_mp_pool close and join", S+"utils.py:nicer_mp_pool"), ("results taken in order", S+"solve/csvrunner.py:csvrunner")],
 ["exception leaving the command", "worker processes alive afterwards", "rows and files written"])
prop("C06", "No solving command ever overwrites or damages an existing file",
 "ds-soln, ds-resoln, ds-hdf5runner and ds-shock never change a file that exists before they create their result: if the name they would use is taken, that solve fails (for the batch commands: that item) and the existing bytes stay as they were. This holds whatever the clock does (repeated, coarse or backward readings that make generated names collide) and when several commands race for one name: at most one of them reports success for that name, and the file then holds that command's result only.",
 ["histories", "schedules", "configurations"], "all existing files, clock readings and interleavings of racing commands",
 "Tests always write to fresh temporary names and never race.",
 [S+"solve/__init__.py", S+"solve/resolve.py", S+"solve/hdf5runner.py", S+"solve/shock.py", S+"solve/utils.py"],
 [("exclusive creation (mode 'x')", S+"solve/__init__.py:solve"), ("time-stamped default names", S+"solve/utils.py:get_multiprocessing_filename")],
 ["bytes of pre-existing files", "result of each command"])
prop("C07", "A finished result file reloads to exactly what the solver computed",
 "A result file written by a solve that ran to its end loads back as the same run: config input, config file name, version, float type, method and provenance, every attempted solution under the number and in the order it was produced, and the final solution, with every stored array, flag, root, input, initial condition, problem list and internal value equal to what was computed in memory. This holds for every search method and every history of attempts, with or without internal data, with solution caching on or off, whatever the order and number of times the solutions are then read.",
 ["inputs", "histories", "configurations"], "all methods, attempt histories, storage options, cache settings and read orders",
 "Tests round-trip a few fixed runs; they do not vary the history of attempts, the access pattern or the cache setting.",
 [S+"file_format/_containers.py", S+"file_format/_dumpers.py", S+"file_format/_loaders.py"],
 [("dumpers/loaders registries", S+"file_format/_dumpers.py"), ("on-demand solution store and cache", S+"file_format/_containers.py:Solutions"), ("delayed final solution", S+"file_format/_containers.py:Run.final_solution")],
 ["loaded run compared with the values taken from the solver"])
prop("C08", "An interrupted solve never passes for complete nor damages finished attempts",
 "If ds-soln or ds-resoln is stopped at any point by an error, a full disk or an interrupt, the command does not report success, and every attempt it had finished storing can still be read from the result file with exactly the computed values. If it is killed outright, the file either cannot be opened or holds only genuine finished attempts; and in no case does the result file of an interrupted solve load as a complete run whose attempts or final solution differ from those of an undisturbed solve.",
 ["crash_points", "fault_sequences"], "all points at which an error, write failure, interrupt or kill can strike while the result file is written",
 "No test interrupts a solve or fails a write to the result file.",
 [S+"solve/__init__.py", S+"solve/resolve.py", S+"file_format/_containers.py"],
 [("result file opened before the solve, closed on every exit", S+"solve/__init__.py:solve"), ("attempts stored as they are produced", S+"file_format/_containers.py:Solutions.add_solution"), ("final solution written last", S+"file_format/_containers.py:Run.finalise")],
 ["result file after the interruption", "outcome of the command"])
prop("C09", "The stepping search follows its bisection rule and always terminates",
 "Whatever verdicts its attempts get, the stepping search first solves the given input, then lowers the search parameter after a diverging attempt and raises it after a sign-flip attempt, by a tenth of its starting value until the verdict first changes and by half the previous step from that change on, changing nothing else in the input (and by the smallest representable step once the rule would no longer change it upwards); every attempt is stored once, in order. It ends at the first acceptable attempt, at a stop verdict, or at a diverging attempt that can be lowered no further, and that attempt becomes the final solution; otherwise it ends after the allowed number of attempts, or of attempts without a change of verdict, with no final solution and reports failure.",
 ["histories", "inputs"], "all sequences of attempt verdicts, automatic or typed by a person, with all attempt limits",
 "The tests run one real search with one verdict sequence; the rule must hold for every sequence.",
 [S+"solve/stepper.py"],
 [("bisection state machine", S+"solve/stepper.py:stepper_creator"), ("next input", S+"solve/stepper.py:step_input"), ("attempt loop and outcome", S+"solve/stepper.py:binary_searcher")],
 ["stored attempts and their inputs", "final solution", "reported outcome"])
prop("C10", "The MCMC search keeps the best attempt and survives failing proposals",
 "For every random sequence and every pattern of invalid, unsolvable or failing proposals, an MCMC solve runs all its iterations, stores exactly the attempts that were solved to a finite probability, once each in the order they were solved, and chooses as final solution the first stored attempt with the highest probability. Every stored attempt differs from the given input only in the parameters selected for sampling and satisfies the positivity limits; if nothing could be stored there is no final solution and failure is reported.",
 ["inputs", "fault_sequences", "histories"], "all random seeds, sampled parameter selections and patterns of failing proposals",
 "The one MCMC test uses the real random generator and checks only that it runs.",
 [S+"solve/mcmc.py"],
 [("best-so-far bookkeeping", S+"solve/mcmc.py:LogProbGenerator"), ("proposal screening", S+"solve/mcmc.py:solution_input_valid"), ("outcome", S+"solve/mcmc.py:solver")],
 ["stored attempts", "final solution", "reported outcome"])
prop("C11", "The fast-crossing search stays bounded and ends with a stored solution",
 "For every pattern of qualities and failures of its inner solves, the fast-crossing search ends within its attempt limit without an unexpected error; it changes only the radial velocity (and what the inner search changes), walks outward from the start in fixed steps while the quality improves, and once it is refining tries only values inside the bracket it found; it stops before its attempts are used up only when neither direction improves on the start or its refined values no longer differ. If at least one solve was stored its final solution is one of the stored ones and success is reported, and if none could be stored it reports failure.",
 ["histories", "fault_sequences"], "all sequences of solution qualities and solver failures",
 "The single existing run of this method takes minutes and follows one path.",
 [S+"solve/fast_crosser.py"],
 [("search phases", S+"solve/fast_crosser.py:stepper_creator"), ("outcome", S+"solve/fast_crosser.py:solver")],
 ["stored attempts and their inputs", "final solution", "reported outcome"])
prop("C12", "Solve commands report success exactly when they stored a solution",
 "Whatever the search method, ds-soln and ds-resoln exit with status 0, having printed the name of the result file, only if that file loads as a complete run whose final solution equals one of its stored attempts; a search that found none exits non-zero or with an error, and a command that ends with an error prints no file name. A root search that did not converge also exits non-zero although its last attempt is kept.",
 ["inputs", "fault_sequences", "configurations"], "all methods, verdict histories and integrator failures",
 "Tests check the status of one successful call per method.",
 [S+"solve/__init__.py", S+"solve/resolve.py", S+"solve/stepper.py", S+"solve/mcmc.py", S+"solve/sonic_root.py", S+"solve/single.py"],
 [("status of each search method", S+"solve/__init__.py:main"), ("finalise", S+"file_format/_containers.py:Run.finalise")],
 ["exit status and output of the command", "loaded result file"])
prop("C13", "Every stored attempt records the very input that produced it",
 "For every attempt any search method stores, in a result file or in memory, the recorded solution input and initial conditions are those that attempt was computed with, and no later attempt or step of the search changes them. Solving again from the recorded input reproduces the recorded initial conditions and the recorded solution values exactly.",
 ["histories", "inputs"], "all search methods and attempt histories, results kept on file or in memory",
 "Tests never compare a stored attempt with the input it claims.",
 [S+"solve/stepper.py", S+"solve/mcmc.py", S+"solve/sonic_root.py", S+"solve/fast_crosser.py", S+"solve/config.py"],
 [("input of the next attempt built from the previous one", S+"solve/stepper.py:step_input"), ("modified initial conditions", S+"solve/sonic_root.py:total_vars_to_mod_cons")],
 ["stored attempts", "arguments handed to the integrator"])
prop("C14", "Re-solving continues from the chosen solution and leaves its source alone",
 "ds-resoln starts from the solution input of the chosen solution (a number, 'latest' or 'final'), with the overrides applied on top and everything else taken from that solution rather than from the original config; along any chain of re-solves the new file records the source file and the chosen solution, and keeps label and config file name. The source file is never modified, whatever happens during the re-solve.",
 ["histories", "fault_sequences"], "all chains of solves and re-solves with overrides, choices of solution and failures in between",
 "Tests re-solve one fixed file once.",
 [S+"solve/resolve.py", S+"solve/config.py", S+"utils.py"],
 [("merging of inputs", S+"solve/config.py:new_inputs_with_overrides"), ("choice of the solution", S+"utils.py:get_solutions"), ("source opened read-only", S+"solve/resolve.py:resolve")],
 ["new result file", "bytes of the source file"])
prop("C15", "Analysis commands are read-only, repeatable and release their file",
 "No analysis command ever changes or locks out the result file it reads, and it closes it on every exit, also when reading, computing or writing its output fails. What an analysis command produces depends only on its file and arguments: it is the same whether it runs alone, is repeated, or follows any sequence of other analysis commands in the same process, successful or failed; so are the plot settings the library hands to its callers.",
 ["histories", "fault_sequences"], "all sequences of analysis commands with read and write failures in between",
 "Tests call each command once with an image comparison at most; state left over by earlier commands and failures is not explored.",
 [S+"analyse/utils.py", S+"analyse/plot.py", S+"analyse/info.py", S+"analyse/dump_csv.py", S+"analyse/stats.py"],
 [("read-only open in the wrappers", S+"analyse/utils.py:analysis_func_wrapper"), ("shared plot arguments", S+"analyse/utils.py:get_common_arguments")],
 ["bytes of result files", "open file handles", "output of the commands"])
prop("C16", "ds-stats and ds-dumpcsv skip what they cannot read and keep the rest",
 "Given any list of files from arguments and standard input, in which some are missing, not result files, interrupted, or fail while being read, ds-stats and ds-dumpcsv finish normally, append one header and then one row for every solution (attempts and final) of every readable file, in the given order, identical to the rows each file gives on its own. A file or solution that cannot be used costs only its own rows.",
 ["fault_sequences", "histories", "inputs"], "all lists of good and damaged files, all read failures",
 "Tests pass one good file.",
 [S+"analyse/stats.py"],
 [("per-file error handling", S+"analyse/stats.py:get_all_solutions"), ("per-solution error handling", S+"analyse/stats.py:write_stats")],
 ["output rows", "exit of the command"])
prop("C17", "Export commands report failed writes and never damage earlier output",
 "If ds-tocsv, ds-tocfg, ds-stats, ds-dumpcsv, ds-info or ds-flow-file cannot write their whole output (full disk, I/O error, at any byte), the command fails with that error instead of reporting success; if it reports success its whole output is in the file. Commands that append leave what the file held before as it was; ds-flow-file writes three new files and refuses with an error to touch ones that exist. The output file is closed when the command ends, however it ends.",
 ["fault_sequences", "crash_points"], "all positions of a failing or short write and all kill points",
 "Tests never fail a write.",
 [S+"utils.py", S+"analyse/dump_csv.py", S+"analyse/dump_config.py", S+"analyse/stats.py", S+"analyse/info.py", S+"analyse/trajectory.py"],
 [("open_or_stream closes the file before the command returns", S+"utils.py:open_or_stream"), ("new files of ds-flow-file", S+"analyse/trajectory.py:save_trajectory")],
 ["bytes of the output", "exit of the command"])
prop("C18", "ds-shock tries every candidate angle once and isolates failures",
 "ds-shock evaluates every angle of the chosen solution that satisfies its limits exactly once, for any worker count and scheduling; each evaluation that solves is saved in its own new file, which loads as a run flagged as post-shock only, naming the source file and solution, whose solution starts from the jump conditions at that angle. A failure of one evaluation (solver, saving, plotting) costs only that one and is shown on standard error, the command still finishes, and the source file is not modified.",
 ["schedules", "fault_sequences"], "all worker counts, schedules and placements of failures over the evaluations",
 "The test of this command only runs it once on one file with a real pool.",
 [S+"solve/shock.py", S+"file_format/_containers.py"],
 [("candidate selection", S+"solve/shock.py:find_shock_test_values"), ("per-candidate isolation", S+"solve/shock.py:ShockFinder.__call__"), ("copy of the run", S+"file_format/_containers.py:Run.create_shock_run")],
 ["files in the shock directory", "standard error", "source file"])
prop("C19", "Log records reach the log file completely and in order",
 "With a log file requested, every record at or above the chosen level that the process of a command emits is in the log file, once and in the order of emission, when the process ends, whether the command succeeds, fails or is interrupted, however the background logging threads are scheduled; records below the level are not; for ds-csvrunner and ds-hdf5runner this includes the records emitted by their workers, in each worker's order. Choosing another stderr level, quiet or verbose mode or disabling the threads does not change the content of the log file.",
 ["schedules", "histories", "configurations"], "all emission histories, thread schedules, logging options and ways for the command to end",
 "Whether background threads have drained their queue at exit depends on the schedule; tests neither control it nor read the log.",
 [S+"logging.py", S+"utils.py", S+"analyse/utils.py"],
 [("threaded handlers set up by log_handler", S+"logging.py:log_handler")],
 ["log file after the process has ended"])
prop("C20", "Integrator failures yield consistent partial solutions or solver errors",
 "Whatever way and wherever the integrator fails or stops early, a solve either raises a solver error or returns a solution that contains exactly the points integrated before the failure: as many angles as value rows, starting with the start values, angles in the order of integration, with the flag of the last integration, the roots of the one from the midplane and the internal records of that solve only. The sonic point is crossed only where an integration reached it, by the given jump. Every integration is asked to keep to the tolerances and the step limit of the solution's input. Nothing of a failed attempt leaks into the attempts solved after it.",
 ["fault_sequences", "inputs"], "all integrator failure codes, positions and sequences, all crossing options and methods",
 "Real integrators rarely fail and never on demand.",
 [S+"solve/solution.py", S+"solve/hydrostatic.py", S+"solve/mod_hydro.py"],
 [("handling of integrator exceptions", S+"solve/solution.py:main_solution"), ("joining of phases", S+"solve/solution.py:solution")],
 ["solutions returned and stored", "errors raised"])
prop("C21", "Results depend only on inputs and seeds, not on clock, history or workers",
 "Running the same solve again gives bit-for-bit the same stored attempts and final solution whatever the time of day, process identity, hash seed, what the process solved or failed to solve before, and whether it runs in a command or a batch worker, kept in memory or in a file, with internal data stored or not where the method does not use it; the MCMC method does so for the same random numbers.",
 ["histories", "schedules", "configurations"], "all preceding histories in the process, clock readings, hash seeds and worker placements",
 "Tests run each solve once in one environment.",
 [S+"solve/__init__.py", S+"solve/solution.py", S+"solve/stepper.py", S+"file_format/_containers.py"],
 [("no module-level state in the solvers", S+"solve/")],
 ["stored data of repeated solves"])
prop("C22", "Settings and overrides mean the same on every path, and typos are refused",
 "The same settings give the same solution input, label and config whether they come from a config file to ds-soln, a row of a CSV file (with header or in the standard column order) to a batch command, overrides on top of either, or overrides on a re-solve; an override wins over the given value and touches no other setting. An override naming an unknown setting is refused with an error before any file is created or any solve started.",
 ["inputs", "configurations"], "all combinations of settings, sources and overrides",
 "Tests use fixed configs and a single override.",
 [S+"solve/config.py", S+"solve/utils.py", S+"file_format/_containers.py"],
 [("defaults and parsing", S+"solve/config.py:get_input_from_conffile"), ("overrides", S+"solve/utils.py:add_overrides"), ("validation of names", S+"solve/utils.py:validate_overrides")],
 ["run stored in result files", "output rows"])
prop("C23", "Exported inputs feed back into the tools without loss",
 "Rows written by ds-csvrunner, ds-tocsv with header, ds-dumpcsv or ds-stats in one run, and configs written by ds-tocfg, are accepted as inputs by ds-csvrunner, ds-hdf5runner and ds-soln respectively and give exactly the solution input that was exported, along any chain of exporting, batch running and re-solving. The file name and solution number in such rows are carried over as provenance.",
 ["histories", "inputs"], "all solution inputs and all chains of export and import",
 "Tests read hand-written files only.",
 [S+"analyse/stats.py", S+"analyse/dump_csv.py", S+"analyse/dump_config.py", S+"solve/utils.py", S+"file_format/_containers.py"],
 [("writing of rows", S+"analyse/stats.py:write_inputs"), ("reading of rows", S+"solve/utils.py:get_csv_inputs"), ("string form of inputs", S+"file_format/_containers.py:SolutionInput.to_config_input")],
 ["solution inputs at both ends of the chain"])
prop("C24", "Plots, flow lines and listings show the solution that was asked for",
 "ds-plot, the compare, combine, diverge, conserve, derivs, params, v_deriv, sonic-ratio, surface-density, vertical, acceleration, physical-ratio and taylor plots, the flow lines of ds-flow-plot and ds-flow-file, ds-info and ds-stats show for each chosen solution exactly the stored values (or the stated function of them) at the stored angles between the given start and stop, under the right name, whichever attempts the file holds and whatever was called before in the process. A figure of a part of the angles shows that part of the figure of all, and all terms of the component plot are the shown terms added up. Critical points are where the speed first reaches the wave speed, interpolated linearly between the two stored angles around it. Asking for a solution or internal data that the file does not hold is an error, never an empty or another solution.",
 ["histories", "inputs", "configurations"], "all histories that made the file, all selections and options, and all sequences of commands",
 "Tests compare images of a few fixed solutions, and only that the listings run.",
 [S+"analyse/", S+"critical_points.py", S+"utils.py"],
 [("choice of the solution", S+"utils.py:get_solutions"), ("critical points", S+"utils.py:interp_for_value"), ("flow lines", S+"analyse/trajectory.py:follow_trajectory")],
 ["lines, titles and labels of figures", "files and standard output of the commands"])

# ---- stated, but not decided by simulation -------------------------------------------------
prop("C80", "The integrated equations conserve what the MHD equations conserve",
 "Along every solution the steady axisymmetric continuity, induction and momentum equations hold to the integration tolerance.",
 ["inputs"], "all physical inputs", "Tests sample a few inputs.",
 [S+"solve/solution.py", S+"solve/deriv_funcs.py", S+"analyse/validate_plot.py"], [("right-hand side", S+"solve/solution.py:ode_system")])
prop("C81", "Coordinate conversions and scalings are consistent",
 "Converting a solution to vertical or cylindrical coordinates preserves magnitudes and inverts where an inverse exists.",
 ["inputs"], "all solutions and angles", "Tests sample a few values.",
 [S+"utils.py"], [("conversion functions", S+"utils.py:convert_spherical_to_cylindrical")])
prop("C82", "Wave speeds are ordered for every state",
 "For all states the slow, Alfven and fast wave speeds are real and ordered, and the fast speed is at least the sound and the Alfven speed.",
 ["inputs"], "all states", "Tests sample a few states.",
 [S+"critical_points.py"], [("wave speed formulae", S+"critical_points.py")])
prop("C83", "Result files of every older format version still load",
 "Files written by any released version of the tool load with their values preserved.",
 ["inputs"], "all older files", "Only a few old files are kept as test data.",
 [S+"file_format/_loaders.py"], [("versioned loaders", S+"file_format/_loaders.py")])
prop("C84", "Analytic and numeric Jacobians and Taylor terms agree",
 "The Jacobian and Taylor-expansion formulae agree with the derivatives of the right-hand side for all states.",
 ["inputs"], "all states", "Tests sample a few states.",
 [S+"analyse/compute_jacobian.py", S+"solve/deriv_midplane.py"], [("formulae", S+"solve/deriv_midplane.py")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w", encoding="utf-8") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
