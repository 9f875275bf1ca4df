#!/usr/bin/env python3
"""Single source of properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, state, mech, observe, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=state, meaning=state, where=files[0])],
                               mechanism=[dict(name=mech, where=", ".join(files))],
                               observe_at=[observe], hook_needed=hook)))

p("C01", "Every reported solution is real: its objective is the objective at its point",
  "Every solution a completed optimization returns is a point of the problem's dimension with finite coordinates whose reported objective value is exactly what the user's objective function returns at that point, and the set is never empty. The same holds for every solution a single local search returns, whatever regularization its solver uses internally (the bound-constrained solver's coordinates may be off in their last places). This holds whichever local solver, line search, batch size or parallel setting is used.",
  ["inputs", "configurations"], "for all problems (dimension, objective family, bounds), local solver types and configurations, seeds, populations and execution modes",
  "Tests check a few textbook functions with default builders and an absolute tolerance; the pairing of a point with its value must survive every solver branch, shuffle, sort and set update.",
  ["src/local_solver/runner.rs", "src/oqnlp.rs", "src/scatter_search.rs"], "returned solution set; local solution point/objective pair",
  "best parameter/best cost extraction per solver; set construction", "return value of a run / of a local solve versus re-evaluating the objective")

p("C02", "Returned solutions are mutually distinct and equally good",
  "Any two solutions returned together are at least the configured distance factor apart, and each one's objective equals the first returned solution's objective within the configured absolute/relative tolerance. The reported best solution is the minimum of the set.",
  ["inputs", "configurations", "histories"], "for all problems, distance factors (including 0), tolerances (including 0) and execution modes",
  "Whether two near-duplicates or an inferior optimum slip in depends on the order in which the local searches find them; tests look at set sizes for a handful of functions.",
  ["src/oqnlp.rs", "src/types.rs"], "solution set", "duplicate test, tolerance test, replace-on-better", "solution set returned by a run and in every checkpoint")

p("C03", "Stage 2 launches local searches exactly as the merit and distance filters say",
  "Each Stage 2 trial point starts a local search exactly when its own objective value does not exceed the current merit threshold and it lies farther than the distance factor from every local solution found so far; a launch sets the threshold to that trial's objective (or to the new local solution's objective when that becomes the best known), and a non-launch counts towards the wait cycle, on whose completion the threshold is raised by threshold_factor*(1+|threshold|) and the count restarts. In batched mode all trials of a batch are judged against the state at the start of the batch and its non-launched trials are counted before its launches take effect. Every Stage 1 reference point is tried at most once and the first `iterations` of them are tried unless a stop criterion fires.",
  ["inputs", "histories", "configurations"], "for all problems, parameter sets, seeds and batch sizes, over the whole history of iterations of a run",
  "Which filter fires at which iteration depends on a long history of thresholds, counters and previously found optima; the unit tests exercise one helper call at a time.",
  ["src/oqnlp.rs", "src/filters.rs"], "merit threshold, unchanged-cycle counter, list of found local solutions, trial order", "filter checks, threshold update and relaxation in sequential and batched processing",
  "per-iteration checkpoints of a run, observer counters, log of objective evaluations, final solution set")

p("C04", "No better local solution is ever lost",
  "The best objective known to a run never gets worse as the run proceeds, and when it ends no admissible local solution found at any time beats the returned best by more than the tolerance (searches of a batch that come after the one reaching the target are not looked at); a tie within tolerance that is not a near-duplicate is kept as an additional solution and every found local solution is remembered for distance filtering.",
  ["histories", "inputs", "configurations"], "for every order in which local solutions of any value are found, every tolerance and every execution mode, including resumed runs",
  "The unit tests feed two or three hand-picked solutions; loss happens on particular orders of improvements, ties and near-ties.",
  ["src/oqnlp.rs", "src/types.rs"], "solution set, distance-filter memory", "processing of a new local solution", "sequence of checkpoints and observer snapshots, final solution set")

p("C05", "Stage 1 delivers a full, in-bounds, feasible, elitist reference set",
  "Scatter search returns population-size many points, all inside the bounds and satisfying every constraint, each paired with its own objective value, and they are the best of all points it evaluated, so no seed point (lower bound, upper bound, midpoint) and no feasible custom point that was good enough is dropped. The start point handed to the first local search is the best of them; it evaluates the objective only at feasible points inside the bounds; diversification picks at every step a sampled candidate that is farthest from the points chosen so far.",
  ["inputs", "configurations"], "for all bounds, dimensions, population sizes, constraint sets, custom points, seeds, sequential and parallel",
  "Tests check a few sizes on one or two problems; partial-sort and parallel size thresholds change the code path with the inputs.",
  ["src/scatter_search.rs", "src/oqnlp.rs"], "reference set and its objective values", "seeding, stratified sampling, max-min diversification, combination, reference-set update", "return value of the scatter search and log of evaluations")

p("C06", "Same seed, same answer: runs are reproducible bit for bit",
  "With a deterministic problem, two runs with the same parameters, seed and batch setting return identical solution sets and make identical sets of objective evaluations, regardless of thread scheduling, of the number of worker threads (for a fixed batch size or with parallelism off), and of anything that ran earlier in the process. Different seeds lead to different sampled points.",
  ["schedules", "inputs", "configurations"], "for all problems, seeds (including the extreme ones), thread counts and batch sizes",
  "A test runs once or twice on one machine's schedule; nondeterminism shows up only for particular sizes, thread counts and work splits.",
  ["src/scatter_search.rs", "src/oqnlp.rs"], "random generators, parallel reductions", "per-item seeds drawn under one lock; ordered collects; sequential reduction of batch results", "returned solution set, evaluation log")

p("C07", "Watching a run does not change it",
  "Attaching an observer in any mode with any callback frequency, enabling timing, verbose output or checkpoint saving leaves the returned solution set and the sequence of points evaluated unchanged.",
  ["configurations", "inputs"], "for all problems and parameter sets and all combinations of instrumentation",
  "The instrumented and plain paths are separate branches of the code; tests with observers use separate problems and never compare the two.",
  ["src/oqnlp.rs", "src/scatter_search.rs", "src/observers/mod.rs", "src/local_solver/runner.rs"], "run state", "tracked versus untracked solve branches, observer hooks", "solution set and evaluation log with and without instrumentation")

p("C08", "Parallel, sequential and feature-reduced builds compute the same result",
  "Stage 1 returns the same reference set in the same order with parallel processing enabled or disabled; a run with parallelism disabled returns the same solution set as a build without the parallel feature; a batch size of one equals sequential processing; and builds with other optional features enabled agree with each other on everything both support.",
  ["schedules", "configurations", "inputs"], "for all problems, bounds of any scale, population sizes on both sides of the parallel cut-offs, custom points and constraints",
  "Each feature set is tested separately with its own expectations; no test compares two builds or two modes point by point.",
  ["src/scatter_search.rs", "src/oqnlp.rs"], "reference set, solution set", "cfg-selected sequential/parallel branches", "reference set and solution set of the two modes/builds")

p("C09", "A checkpoint loads back exactly as it was saved",
  "Saving any optimization state and loading it again, through the latest-checkpoint path, an explicit path or the stand-alone reader, yields the same state in every field: parameters including every local-solver setting, thresholds, counters, solution set, reference set, remembered solutions, tolerances, seed and flags, with floating-point values preserved bit for bit.",
  ["inputs"], "for all states: empty or large sets, any dimension, any solver configuration, non-finite and subnormal values, extreme counters, any text",
  "Tests round-trip a couple of hand-made states with one solver configuration and compare a few fields.",
  ["src/checkpoint.rs", "src/types.rs", "src/local_solver/builders.rs"], "checkpoint file", "serialization of the checkpoint", "loaded checkpoint versus saved one")

p("C10", "The latest checkpoint is the one found, and cleanup deletes only older ones",
  "After any sequence of saves, overwrites, cleanups and unrelated files in the directory, the latest checkpoint that is loaded is the one with the highest iteration saved under that name (or the last one written in single-file mode), a checkpoint is reported to exist exactly when one can be loaded, and cleanup keeps exactly the requested number of highest iterations without ever touching files of another name or of another kind.",
  ["histories", "inputs"], "for all sequences of operations, iteration numbers (including 0 and more than six digits), checkpoint names that are prefixes of each other, and foreign files",
  "Tests use one name, a few small iteration numbers and an otherwise empty directory.",
  ["src/checkpoint.rs"], "checkpoint directory contents", "file naming, directory scan, deletion", "loaded checkpoint, directory listing after each operation")

p("C11", "A crash or full disk while saving never costs the previous checkpoint",
  "If a checkpoint save is interrupted at any point (process killed, write error, disk full), loading the latest checkpoint afterwards yields either the previous complete checkpoint or the new complete one, never an error or a damaged state, and a failed save is reported as an error.",
  ["crash_points", "fault_sequences"], "for every byte offset at which the write can stop, for both file-keeping modes and every pair of old and new state",
  "No test interrupts a write; the loss window exists only between two system calls.",
  ["src/checkpoint.rs"], "checkpoint file on disk", "write of the checkpoint file", "loading in a second process after the first was cut off")

p("C12", "Damaged checkpoint files are rejected cleanly",
  "Loading a truncated, bit-flipped, wrongly-typed or arbitrary file as a checkpoint returns an error or a state that really is encoded in it; it never panics, aborts, allocates unbounded memory or modifies the file, and a missing file is reported as not found.",
  ["inputs", "fault_sequences"], "for all byte strings, with emphasis on mutations of valid checkpoints",
  "Tests try one short garbage file.",
  ["src/checkpoint.rs", "src/types.rs"], "checkpoint file", "decoding", "result of loading")

p("C13", "Resuming an interrupted run finishes as if it had never stopped",
  "If a run that saves checkpoints is interrupted after any checkpoint and a new optimizer resumes from it, the resumed run continues with the next unprocessed trial and ends with the same solution set, thresholds, counters and remembered solutions as the uninterrupted run, restoring target, bounds policy, tolerances, parallel settings, local-solver settings and filters from the checkpoint. Resuming a finished run changes nothing. The run saves its state at the end of every batch that completes another `save_frequency` trials and when its Stage 2 ends, and no other.",
  ["crash_points", "histories", "configurations"], "for every problem, parameter set, save frequency, fixed batch size or sequential mode, and every checkpoint of the run as the interruption point, including repeated interruptions",
  "Tests check that restored fields have been copied; none continues the run and compares it with the uninterrupted one.",
  ["src/oqnlp.rs", "src/checkpoint.rs"], "iteration counter, unchanged cycles, threshold, trial order, distance memory", "checkpoint creation, restore, stage-2 start index", "final checkpoint and solution set of both runs")

p("C14", "Resuming with modified parameters continues from the checkpoint with them",
  "After resuming with changed parameters (more iterations, larger population, other filter or solver settings), running continues from the saved iteration under the new parameters instead of restarting or reverting to the old ones: the best found so far is kept, trial points already processed are not processed again, a larger population extends the saved reference set by distinct in-bounds feasible points leaving the saved ones in place, and a smaller one keeps it. This holds whether automatic resume is on or off.",
  ["histories", "configurations"], "for every checkpoint of every run and every change of parameters",
  "Tests only check that the parameter fields were copied after the call; none runs the optimizer afterwards.",
  ["src/oqnlp.rs"], "parameters, reference set, iteration counter", "resume with modified parameters, reference-set expansion, run entry", "evaluations and final checkpoint of the continued run")

p("C15", "Stop criteria stop the run, and only they do",
  "With a target objective, the run processes nothing further once the best admissible solution is at or below the target (in batched mode the batch that reaches it is the last one) and otherwise runs to its end; with a time limit no new batch starts after the limit has passed and at least the first local solution is returned; the stopped run's result equals what the unlimited run had found up to that point. A limit that is never reached changes nothing.",
  ["inputs", "histories", "configurations"], "for all targets (including exactly an attained value, unreachable and infinite ones), time limits, batch sizes and bounds policies",
  "Tests use one target and one timeout; the stopping point depends on the history of improvements.",
  ["src/oqnlp.rs"], "solution set, iteration counter", "target check after each local search/batch, timeout check before each batch", "evaluations after the target is met; prefix of the unlimited run's history")

p("C16", "Bounds are respected where the library promises it",
  "With out-of-bounds exclusion enabled every returned solution lies inside the variable bounds (and the run reports an error rather than returning an outside point if none does); the bound- and constraint-aware solver never returns or evaluates a point outside the bounds from any start inside them; Stage 1 never evaluates or returns a point outside the bounds.",
  ["inputs", "configurations"], "for all bounds, solvers (including unbounded ones that walk outside), objectives with optima outside the box, not-a-number coordinates",
  "Tests use one function whose optimum lies inside or a single outside point.",
  ["src/oqnlp.rs", "src/local_solver/runner.rs", "src/scatter_search.rs"], "solution set", "bounds test before acceptance, solver bounds, clamping", "returned solutions, evaluation log")

p("C17", "Constraints are enforced with the documented sign convention",
  "A point counts as feasible exactly when every constraint function is non-negative there: Stage 1 keeps and evaluates only feasible points, uses feasible custom points and rejects infeasible ones, and reports that no feasible candidates exist rather than returning infeasible ones. The constrained solver is given every constraint and all bounds, so that its result on a feasible convex problem satisfies them up to solver accuracy, and the constraint report printed with the solutions marks each constraint satisfied or violated according to its value.",
  ["inputs", "configurations"], "for all sets of linear and nonlinear constraints, custom points in any number, population sizes, sequential and parallel",
  "Tests use one or two constraints on one problem and few custom points; the large-input branch is never compared.",
  ["src/scatter_search.rs", "src/local_solver/runner.rs", "src/types.rs"], "reference set, solution set", "feasibility filter, solver constraint list, display", "reference set, solutions, rendered report")

p("C18", "Observer metrics equal what actually happened",
  "From the completion of diversification on, in every callback and at the end of a run, the observer's counters agree with an independent account of the run: function evaluations equal the objective calls made in that stage while it was observed, local-search calls equal the searches launched and processed, improving ones those that were added to the solution set or became the best, reference-set and solution-set sizes, the best objective and point and the point last added equal the real ones, iteration numbers, thresholds and unchanged-cycle counts equal the run's, counters never decrease, and a stage's total time stops growing when the stage has ended.",
  ["inputs", "configurations", "histories"], "for all problems, parameter sets, observer modes, sequential and batched execution, fresh and resumed runs",
  "Tests assert that counters are positive or plausible for one run; only an instrumented problem can tell the exact number.",
  ["src/observers/mod.rs", "src/observers/stage1.rs", "src/observers/stage2.rs", "src/oqnlp.rs", "src/scatter_search.rs"], "observer state", "counter updates at each hook", "observer after the run and inside callbacks versus an instrumented problem")

p("C19", "Callbacks fire on schedule and show only the stage in progress",
  "A Stage 2 callback fires for an iteration exactly when the iteration number is a multiple of the configured frequency, whatever the batch size (the iteration that reaches the target may be left out), and the Stage 1 callbacks fire once per substage in order; Stage 1 data are visible to callbacks only until Stage 1 completes (and in the final snapshot always), Stage 2 data only from the start of Stage 2, an observer restricted to one stage records nothing about the other, and no frequency setting makes a run fail.",
  ["configurations", "histories"], "for all frequencies (including 0 and larger than the run), modes, batch sizes and problems",
  "Tests count callbacks for one configuration, sequentially.",
  ["src/observers/mod.rs", "src/oqnlp.rs", "src/scatter_search.rs"], "observer visibility flags, callback frequency", "frequency test, stage markers", "sequence of callback invocations")

p("C20", "Invalid settings and points are refused with an error, valid ones are accepted",
  "Constructing or running an optimizer with out-of-range parameters, degenerate, inverted or non-finite bounds, or custom points that have the wrong dimension, lie outside the bounds or are not numbers returns the documented error naming the offending value and index, and every setting within the documented range is accepted; no setting makes the library panic. Solver settings that the chosen solver cannot use are reported as configuration errors.",
  ["inputs", "configurations"], "for all parameter values including boundary, zero, negative, infinite, NaN and maximal ones",
  "Tests try one bad value per parameter and no combinations.",
  ["src/oqnlp.rs", "src/scatter_search.rs", "src/filters.rs", "src/types.rs", "src/local_solver/runner.rs"], "parameters", "validation in constructors and run", "Result of constructor/run")

p("C21", "A failing user function yields an error or is survived, never a panic or a lie",
  "If the user's objective, gradient or Hessian fails at any call, the run either returns an error (when the failure ended the search, one that carries the function's own message) or completes with solutions whose values are real, and it behaves the same way sequentially and in parallel and whatever kind of error the function returns; a failure while evaluating Stage 1 combination candidates only skips that candidate, a failure during the bound-constrained local search is survived, and a failing initial evaluation is reported as an error. A later run on the same process is unaffected.",
  ["fault_sequences", "inputs", "configurations"], "for every position at which a call can fail, for each kind of failure, in both stages and all modes",
  "Tests use objectives that always fail; a failure at the n-th call hits different code each time.",
  ["src/oqnlp.rs", "src/scatter_search.rs", "src/local_solver/runner.rs"], "run state", "error propagation", "Result of the run, evaluation log")

p("C22", "Objective values that are not numbers never win",
  "If the objective is not a number on part of the domain, whatever the sign of the not-a-number value, such points are ordered after every number: they are not chosen as the start of the first local search, not returned by a local search that evaluated a number, not reported as best, and do not displace or block a solution with a numeric value as long as some evaluated point or local solution has one.",
  ["inputs", "configurations"], "for all not-a-number regions, payloads and signs, infinities, solvers and modes",
  "Tests use NaN constants of one sign in a helper; hardware operations produce the other sign.",
  ["src/scatter_search.rs", "src/types.rs", "src/oqnlp.rs", "src/observers/stage1.rs"], "ordering of candidates, solution set", "comparison functions, improvement tests", "reference set order, start point, best solution")

p("C23", "Each local solver does what its configuration says",
  "A local search with a given solver type and configuration visits the same points and returns the same point as the underlying numerical solver configured directly with those values, together with the user's objective there; every configured value has its documented effect for every line-search variant, builders transport every value unchanged, the reported evaluation count equals the number of objective calls made, and tracking evaluations does not change the result.",
  ["inputs", "configurations"], "for all solver types, line searches, parameter values within the accepted ranges, start points and smooth problems",
  "Tests check that a solver with default settings converges on one function; a swapped or ignored parameter still converges.",
  ["src/local_solver/runner.rs", "src/local_solver/builders.rs"], "solver configuration", "construction of the numerical solver from the configuration", "differential run against the numerical library; evaluation log")

p("C24", "The Python interface computes what the Rust core computes",
  "For the same problem, parameters, seed and options, optimizing through Python returns the same solutions as the Rust core, best first, calls the user's functions as often, and shows an observer the same states and callback history, with every option (iterations, population, wait cycle, factors, solver type and configuration, seed, target, time limit, bounds exclusion, tolerances, custom points, parallel, observer settings) reaching the core unchanged whether given by keyword, position, class or attribute; what the core refuses is a ValueError; and the returned collection's length, iteration, indexing, best solution and report agree with its contents.",
  ["inputs", "configurations"], "for all problems expressible in both, all solver configurations and option combinations",
  "Python tests compare with known optima within loose tolerances; a swapped or ignored option still finds the optimum.",
  ["python/src/lib.rs", "python/src/builders.rs"], "parameter conversion", "argument and configuration translation", "solutions from Python versus from the Rust core")

p("C25", "Python problems keep their own constraints, and bad input is an error",
  "Each Python problem is solved against its own constraints, whatever other problems exist in the process, were solved before, failed before, or are solved in other threads, sequentially or in parallel; malformed bounds, points, gradients, Hessians or option values, and exceptions raised by user callbacks, surface as ordinary Python exceptions (subclasses of Exception) or are survived, never as a crash of the interpreter, and do not disturb later optimizations.",
  ["histories", "inputs", "schedules"], "for all sequences of optimizations of different constrained and unconstrained problems, with failures interleaved, and all shapes of malformed input",
  "Tests solve one problem at a time with well-formed data.",
  ["python/src/lib.rs"], "process-wide constraint registry, current-problem marker", "registration of constraints, callback dispatch, argument conversion", "solutions and exceptions seen from Python")

p("C26", "Solution sets, reports and names tell the same story",
  "For every solution set, its length, emptiness, iteration, indexing and best solution agree; the printed report states the number of solutions, the best value and every solution's value and coordinates in order (points of under 500 coordinates; longer ones are abbreviated), the report with constraints also every constraint's description, value and whether it is satisfied; a printed checkpoint states the progress and settings it holds; and every documented solver name, in any letter case, is recognised as that solver while any other text is refused.",
  ["inputs"], "for all solution sets (empty, ties, negative zero, non-finite values, any dimension) and all strings",
  "Tests render one or two sets.",
  ["src/types.rs"], "solution set", "accessors, display, name parsing", "rendered text and accessors")

p("C27", "Printed progress tells what really happened",
  "With verbose output on, the standard output tells every event of the run in order with its true numbers: the Stage 1 local solution, each solution added to or replacing the solution set and the set's size after it, each solution rejected for its bounds, each raise of the merit threshold with the value before and the value that takes effect, reaching the target, and every checkpoint file written; with verbose output off nothing is printed there. The built-in log callbacks write one line to standard error per callback that has something to show, with the best value, set sizes, threshold, iteration, local-search and evaluation counts the observer holds at that moment, and a point printed with the best value has that value; with unique updates the default callback leaves a Stage 2 line out exactly when nothing but the iteration changed.",
  ["inputs", "histories"], "for all runs (fresh or resumed, sequential or batched), log callbacks, frequencies and filters",
  "Tests only run the callbacks, they do not read what is printed.",
  ["src/oqnlp.rs", "src/observers/mod.rs"], "standard output and standard error of a run", "events of a run", "printed lines")

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
