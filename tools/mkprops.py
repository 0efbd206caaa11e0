"""Writes /verif/properties.jsonl (kept as a script so that titles/statements are edited in one place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
         "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state: d["anchors"]["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: d["anchors"]["observe_at"] = observe
    P.append(d)

OPT = "mealpy/optimizer.py"
p("C01", "A seeded solve is a pure function of algorithm, problem, mode and seed",
  "For every bundled algorithm, valid problem and execution mode, two solves by fresh optimizer instances given the same integer seed evaluate the same candidate solutions and end with bit-identical best solution, objectives and per-epoch history. Nothing else may influence them: not the interleaving or latency of workers, not the clock or clock jumps, not the operating system's entropy, not the state of the process-wide random generators, not string hashing, and not what ran earlier in the process.",
  ["schedules", "programs", "configurations", "inputs"],
  "all bundled algorithms x variable types x single/swarm/thread/process x seeds x worker schedules, latencies, clock and entropy environments",
  "Tests run one schedule on one machine state and never compare two environments; a hidden dependence on scheduling, clocks or OS entropy passes any single-run test.",
  [OPT, "mealpy/utils/problem.py", "mealpy/utils/space.py", "mealpy/sota_based/", "mealpy/swarm_based/", "mealpy/evolutionary_based/"],
  [("seeding of the per-solve generators", "Optimizer.check_problem"), ("seeding of the variables' generators", "Problem.set_seed / BaseVar.seed"), ("parallel initial population", "Optimizer.generate_population"), ("every algorithm's own sampling", "evolve() of each class")],
  [("generator / rng", "per-solve numpy and python generators")])
p("C02", "Parallel execution refines sequential execution",
  "For every algorithm that supports parallel execution, a solve in thread or process mode gives, for the same seed, exactly the result and history of the sequential batch mode ('swarm'), for any number of workers and any worker schedule or latency. Within each batch every candidate is evaluated exactly once and each agent receives the objective values of its own solution; algorithms that do not support parallel execution behave exactly as in 'single' mode when a parallel mode is requested.",
  ["schedules", "programs", "configurations"],
  "all bundled algorithms x thread/process x worker counts x interleavings, latencies and stalls",
  "Tests never check that the parallel result is the sequential one, and a real thread pool shows one lucky interleaving with instant objectives.",
  [OPT], [("batch evaluation in order of submission", "Optimizer.update_target_for_population"), ("initial population", "Optimizer.generate_population"), ("fallback to single", "Optimizer.check_mode_and_workers")])
p("C03", "An optimizer can be reused after any earlier solve, even an aborted one",
  "Whatever an optimizer instance did before - completed solves, solves stopped by a termination criterion, on other problems, seeds or modes, or solves aborted at an arbitrary point by an objective error, a keyboard interrupt or a dead worker - its next seeded solve evaluates the same candidates and returns the same best agent and history as a freshly constructed instance with the same parameters. The same holds when the caller reuses the same problem and termination objects.",
  ["histories", "crash_points", "fault_sequences", "programs"],
  "all bundled algorithms x histories of earlier solves x abort points x abort kinds",
  "Tests call solve once per instance; a state leak needs a history, usually with an abort at an unlucky point.",
  [OPT, "mealpy/utils/problem.py", "mealpy/utils/termination.py"],
  [("per-solve reset", "Optimizer.check_problem / check_termination"), ("per-algorithm reset", "initialize_variables / before_main_loop / initialization of each class")],
  [("self.*", "any attribute that survives a solve")])
p("C04", "Reported results are real evaluations",
  "Every agent that a solve reports - the returned best agent, the agents in the per-epoch best and worst history, the saved population snapshots and the final population - pairs a solution with objective values that this very solve obtained from the objective function for exactly that solution, and with the fitness that the objective weights give them. This holds for every algorithm, mode and schedule, for single- and multi-objective problems.",
  ["programs", "schedules", "inputs", "configurations"],
  "all bundled algorithms x problems (single/multi objective, min/max) x modes x schedules",
  "Tests only check result types; a mismatched pair still looks like a valid agent.",
  [OPT, "mealpy/utils/agent.py", "mealpy/utils/target.py", "mealpy/utils/history.py"],
  [("evaluation", "Optimizer.get_target / generate_agent / update_target_for_population"), ("copying", "Agent.copy / Target.copy"), ("each algorithm's update step", "evolve() of each class")])
p("C05", "The reported best never gets worse and is never beaten by the population",
  "For minimisation and maximisation alike, the global best fitness recorded after each epoch never gets worse from one epoch to the next, is at least as good as the best of the initial population and of every epoch's population, and the returned agent is the last of them; symmetrically the recorded global worst never gets better. An evaluation that yields NaN or the infinitely bad value is never reported as best while a proper value has been seen by the population at an epoch boundary, and an epoch's recorded current best is the best agent of that epoch's population.",
  ["programs", "inputs", "histories", "fault_sequences", "configurations"],
  "all bundled algorithms x min/max x objective functions incl. plateaus, ties, negative values and values corrupted to NaN/inf at arbitrary evaluations",
  "Tests sample one min problem with healthy values and do not look at the recorded history.",
  [OPT, "mealpy/utils/history.py"], [("sorting", "Optimizer.get_sorted_population / get_special_agents"), ("best tracking", "Optimizer.update_global_best_agent / after_initialization / get_better_agent")])
p("C06", "Only feasible candidates are ever evaluated",
  "Every candidate handed to the objective function, and every reported solution, has the problem's dimension, contains only finite numbers, lies within the problem's lower and upper bounds in every coordinate and decodes, every time to the same, admissible values of every variable. This holds for every bundled algorithm, every mixture of variable types, and every mode and epoch, provided user-supplied starting solutions are feasible.",
  ["programs", "inputs", "schedules", "configurations"],
  "all bundled algorithms x variable-type mixtures x modes x seeds",
  "An out-of-bounds step needs particular random draws; tests only look at the final solution's type.",
  [OPT, "mealpy/utils/problem.py", "mealpy/utils/space.py"], [("repair", "Optimizer.correct_solution / amend_solution"), ("per-variable repair", "*Var.correct / generate"), ("each algorithm's move", "evolve() of each class")])
p("C07", "Function-evaluation accounting is exact and the evaluation budget is honoured",
  "At every epoch boundary the number of function evaluations the solve accounts for equals the number of times the objective function was really called on its behalf, in every mode and under every schedule, including the evaluations of the initial population. With an evaluation budget the solve therefore ends at the first epoch boundary at which the real number of calls has reached the budget.",
  ["programs", "schedules", "configurations"],
  "all bundled algorithms x modes x worker counts x schedules x budgets",
  "Tests never count the calls; a lost update or a child-process counter needs a parallel schedule.",
  [OPT, "mealpy/utils/termination.py"], [("counting", "Optimizer.get_target / update_target_for_population / nfe_counter"), ("budget", "Termination.should_terminate")])
p("C08", "A solve stops at the first epoch boundary where a stopping criterion holds",
  "A fault-free solve on a valid configuration always returns, after the configured number of epochs or, with termination criteria, at exactly the first epoch boundary at which one of them holds: epochs done, evaluations used, elapsed time since the solve started, or number of consecutive epochs in which the best fitness did not change by more than epsilon. Elapsed time is immune to wall-clock adjustments, and a slow or stalled worker delays the end only by its own epoch.",
  ["programs", "schedules", "configurations", "fault_sequences"],
  "all bundled algorithms x criteria combinations x evaluation latencies, stalls and clock jumps on a virtual clock",
  "Time-based stopping cannot be tested deterministically with the real clock; tests only see that the solve ends.",
  [OPT, "mealpy/utils/termination.py", "mealpy/utils/history.py"], [("loop", "Optimizer.solve / check_termination"), ("criteria", "Termination.should_terminate"), ("stagnation count", "History.get_global_repeated_times")])
p("C09", "Faults in the objective or in workers surface as errors, promptly",
  "If the objective function raises, the solve is interrupted, or a worker process dies, at any evaluation in any mode, the call ends with that error - for the objective's exception the same type and message - instead of hanging, being swallowed or returning a result, and no pool worker is left running once it has ended. The same holds for tuning and multi-task runs executed sequentially or with parallel jobs.",
  ["fault_sequences", "crash_points", "schedules", "programs"],
  "abort point x fault kind (exception, interrupt, worker death) x mode x schedule x algorithms, tuner, multitask",
  "No test injects a fault, and hanging or swallowing needs a fault at a particular instant of a parallel schedule.",
  [OPT, "mealpy/tuner.py", "mealpy/multitask.py"], [("parallel evaluation", "Optimizer.update_target_for_population / generate_population"), ("parallel jobs", "Tuner.execute / Multitask.execute")])
p("C10", "The run history is complete, consistent and immutable",
  "When a solve returns, each per-epoch record (global/current best and worst agents, their fitness lists, epoch time, diversity, exploration/exploitation, saved populations) has exactly one entry for each epoch executed, describing the state at the end of that epoch: fitness lists equal the fitness of the recorded agents, an epoch's duration is the time it took, exploration and exploitation add to 100, and population snapshots are taken only if requested. An entry, once recorded, is never changed by later epochs, by later solves, or by aliasing with the live population.",
  ["programs", "histories", "schedules", "configurations"],
  "all bundled algorithms x epochs x modes x latencies; entries re-examined after every epoch",
  "Aliasing corrupts earlier entries only for particular later moves; tests never compare an entry before and after.",
  [OPT, "mealpy/utils/history.py", "mealpy/utils/agent.py"], [("recording", "Optimizer.track_optimize_step / track_optimize_process / update_global_best_agent"), ("snapshot copies", "Agent.copy / duplicate_pop")])
p("C11", "Solves running concurrently in one process do not disturb each other",
  "Several optimizer instances solving their own problems at the same time - from different caller threads, or one inside the objective function of another - each obtain exactly what they obtain when run alone with the same seed, for every interleaving of their steps and whatever modes they use. No state is shared between instances, problems or classes that could make one solve's result, history or evaluation count depend on another's.",
  ["schedules", "programs", "configurations"],
  "pairs and triples of bundled algorithms (same or different class) x interleavings at source-line granularity, and solves nested in an evaluation",
  "Needs a race between caller threads at a particular line; no test runs two solves concurrently.",
  [OPT, "mealpy/utils/agent.py", "mealpy/utils/problem.py", "mealpy/utils/space.py"], [("instance state", "Optimizer.__init__ / check_problem"), ("class level state", "Agent.ID, module globals of each algorithm")])
p("C12", "The tuner runs every trial once and reports the true best configuration",
  "A tuning run solves every configuration of the grid exactly the requested number of trials with exactly those parameters, records each trial's result under its own configuration and trial number whatever the number of jobs and the order in which they finish, and reports as best a configuration whose mean fitness over trials is the best for the problem's direction (ties broken towards the smaller spread). The best score, row and re-solve use that configuration, and exported tables hold the recorded values (JSON to 15 decimals).",
  ["schedules", "programs", "configurations", "inputs"],
  "grids x trials x jobs x completion orders x min/max x problem forms",
  "Tests run one tiny sequential minimisation grid and do not check the ranking or the attribution of results to jobs.",
  ["mealpy/tuner.py"], [("execution", "Tuner.execute"), ("ranking", "Tuner.execute (df_fit ranks)"), ("resolve", "Tuner.resolve")])
p("C13", "Multi-task runs cover every task exactly once and export what was measured",
  "A multi-task run executes every algorithm on every problem for exactly the requested number of trials with the termination and mode assigned to that pair, and every exported table holds, under the right algorithm, problem and trial, exactly (in JSON to 15 decimals) the best fitness and convergence that this trial produced, whatever the number of jobs and the order in which they finish. No result is lost, duplicated, overwritten or attributed to another task.",
  ["schedules", "programs", "configurations"],
  "algorithms x problems x trials x jobs x completion orders x assignments of terminations/modes x export formats",
  "Tests only run the happy path with one assignment form and do not compare files with results.",
  ["mealpy/multitask.py"], [("assignment", "Multitask.check_input"), ("execution", "Multitask.execute"), ("export", "export_to_*")])
p("C14", "Acknowledged saves are complete; failed saves are reported",
  "When saving a model, or exporting tuner or multi-task tables, returns without an error, loading what was written gives back an equivalent model or table - a loaded model then solves exactly as the original would - whatever short writes happened underneath. When the disk fails (full, I/O error on open, write, flush or close, too many open files), the call reports an error instead of acknowledging a truncated file, and no file descriptor stays open after any save or load.",
  ["fault_sequences", "crash_points", "inputs", "histories"],
  "models at any point of their life x disk fault kind x byte offset at which it hits",
  "No test injects disk faults; the loss happens at a flush that only fails on a full disk.",
  ["mealpy/utils/io.py", "mealpy/tuner.py", "mealpy/multitask.py"], [("save/load", "save_model / load_model"), ("exports", "Tuner.export_results, Multitask.export_to_*")])
p("C15", "Log records go to their own solve's destination and never affect the result",
  "With file logging, every record of a solve goes to the log file of the problem being solved, once, with all its epochs in order, whatever solves with other destinations ran before, and repeated solves do not accumulate open files. Choosing console, file or no logging, and log destinations that fail with disk errors while running, never change what a solve evaluates and returns.",
  ["histories", "fault_sequences", "configurations"],
  "sequences of solves with different log destinations x disk faults on the log file",
  "Tests log to the console or not at all, one solve at a time, on a healthy disk.",
  ["mealpy/utils/logger.py", OPT], [("handler set-up", "Logger.create_logger"), ("records", "Optimizer.check_problem / track_optimize_step")])
p("C16", "Starting solutions are honoured in every mode",
  "When starting solutions are supplied, the initial population consists of exactly those positions, in order, each evaluated exactly once per agent, in every mode and under every worker schedule, and the caller's data is not modified by the solve. The returned best agent is at least as good as the best starting solution.",
  ["programs", "schedules", "inputs", "configurations"],
  "all bundled algorithms with the standard initialisation x modes x schedules x starting sets in list/tuple/array form",
  "Tests use one algorithm in one mode, and do not look at what was evaluated.",
  [OPT], [("warm start", "Optimizer.before_initialization"), ("generate agents", "Optimizer.generate_agent / generate_empty_agent of each class")])
p("C17", "Encoding, decoding and repairing a variable round-trip",
  "For every variable type, decoding an encoded admissible value gives that value back, and repairing a position is idempotent and yields an admissible position.",
  ["inputs"], "all variable types x positions", "Tests sample a handful of positions per type.",
  ["mealpy/utils/space.py"], [("encode/decode/correct", "*Var classes")])
p("C18", "A parameter grid enumerates its cartesian product",
  "Iterating, indexing and measuring a parameter grid agree with each other and enumerate every combination exactly once.",
  ["inputs"], "all grids", "Tests sample a few grids.", ["mealpy/tuner.py"], [("grid", "ParameterGrid")])
p("C19", "Algorithms converge towards the optimum",
  "Given enough epochs, each algorithm's best fitness approaches the optimum of standard benchmark functions at least as well as uniform random search.",
  ["programs", "inputs"], "all algorithms x benchmark functions", "Statistical; tests do not check quality.",
  ["mealpy/"], [("search", "evolve() of each class")])
p("C20", "Undefined or infinite objective values never break a solve",
  "An objective function that returns NaN, an infinite or an astronomically large value at any evaluations - one, a whole generation, a region of the space, or all of them - never makes a solve crash, hang or end early: it runs all its epochs, keeps evaluating only finite positions inside the bounds, counts evaluations exactly, and returns a position it has evaluated. This holds for every bundled algorithm, variable type, direction and mode.",
  ["programs", "fault_sequences", "inputs", "configurations"],
  "all bundled algorithms x corruption kind x evaluation indices or regions x min/max x single/multi objective x modes",
  "Tests only use well-behaved objectives; a crash or an endless loop needs a bad value at a particular place of an update formula.",
  [OPT, "mealpy/"],
  [("fitness based ratios and probabilities", "evolve() of each class, Optimizer.get_index_roulette_wheel_selection / get_finite_fitness"), ("ordering", "Optimizer.compare_target / get_sorted_population"), ("repair", "Optimizer.correct_solution")])
p("C21", "Inputs can be shared by any number of solves and stay as the caller made them",
  "A problem description (dictionary, problem object or its variables), termination, set of starting solutions and parameter values may be handed to any number of solves by any optimizers, to tuning runs and to multi-task runs, one after another, completed or aborted. Each seeded solve with them gives exactly what it gives with freshly made inputs, and the caller's dictionaries, lists and arrays stay as the caller made them.",
  ["histories", "programs", "configurations", "fault_sequences"],
  "all bundled algorithms x sequences of 2-4 uses of the same inputs (solves by other algorithms, modes and seeds, aborts at any evaluation, tuning, multi-task) x forms of the inputs",
  "Tests make their inputs once per test and never look at them afterwards; what an earlier use left behind in them needs a sequence and a comparison with untouched inputs.",
  [OPT, "mealpy/utils/problem.py", "mealpy/utils/space.py", "mealpy/utils/termination.py", "mealpy/tuner.py", "mealpy/multitask.py"],
  [("taking over the problem", "Optimizer.check_problem / Problem.__init__"), ("variables", "*Var constructors, BaseVar.seed"), ("termination", "Optimizer.check_termination"), ("starting solutions", "Optimizer.before_initialization"), ("parameters", "Optimizer.set_parameters")])
p("C22", "Exported charts show exactly the recorded run",
  "Every chart exported from a run's history or from a tuning run draws exactly the recorded series - complete, in order, under their own labels, and nothing else - into one complete file per requested extension at the requested place, whatever was drawn, left open or failed to be saved before. A disk failure surfaces as an error; exporting changes neither the run's records nor the caller's own figures, and leaves no figure or file open.",
  ["fault_sequences", "histories", "programs"],
  "all chart kinds x histories of all bundled algorithms and tuning runs x sequences of 1-7 exports with repeated names x disk faults at any operation or byte x figures of the caller's own",
  "Tests do not export charts; a stale, foreign or shortened series needs a sequence of exports, an earlier failed one, or a comparison of the drawn lines with the record.",
  ["mealpy/utils/history.py", "mealpy/utils/visualize/linechart.py", "mealpy/tuner.py"],
  [("charts", "History.save_*_chart"), ("drawing", "mealpy/utils/visualize/linechart.py"), ("tuning figures", "Tuner.export_figures")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
