#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "The verdict is right",
  "For every CNF formula given in memory, solving it with the default configuration answers SAT exactly when the formula is satisfiable and UNSAT exactly when it is not. A formula that is rejected while the solver is built (an empty clause, contradicting unit clauses) is unsatisfiable.",
  ["inputs"], "all CNF formulas over small vocabularies, and enumerated families of larger ones that make every engine of the solver work",
  "The tests solve a dozen of files and tiny vectors; soundness quantifies over every formula, and the engines interact (learning, restarts, elimination, vivification, reduction, trail saving).",
  ["src/solver/search.rs", "src/solver/conflict.rs", "src/solver/build.rs", "src/assign/propagate.rs", "src/cdb/db.rs", "src/processor/eliminate.rs", "src/processor/simplify.rs"],
  [("CDCL main loop", "src/solver/search.rs"), ("first-UIP analysis", "src/solver/conflict.rs"), ("elimination and model extension", "src/processor/")],
  observe=["Solver::solve", "Certificate::try_from", "Solver::try_from"])
p("C02", "A SAT answer carries a total, ordered, satisfying model",
  "For every satisfiable formula, solving returns a list with exactly one literal per variable of the formula, in the order of the variables, and the assignment it denotes satisfies every clause that was given, including the ones removed, strengthened or eliminated during the search.",
  ["inputs", "configurations"], "all CNF formulas over small vocabularies and enumerated larger satisfiable ones, under every combination of preprocessing settings explored",
  "The tests look at the models of a few files; models go through elimination stacks and default phases, which depend on the formula and on the search.",
  ["src/solver/search.rs", "src/solver/validate.rs", "src/processor/eliminate.rs", "src/assign/stack.rs", "src/assign/propagate.rs"],
  [("extend_model", "src/assign/stack.rs"), ("model construction", "src/solver/search.rs")],
  observe=["Certificate::SAT"])
p("C03", "Every UNSAT answer with certification comes with a valid DRAT proof",
  "When certification is on and a formula is answered UNSAT, the proof that is saved derives the empty clause from the formula: each added clause is RUP or RAT with respect to the formula and the earlier additions without the deleted clauses. The proof ends as the DRAT format requires.",
  ["inputs", "configurations"], "all unsatisfiable formulas of the enumerated spaces given at construction, with each preprocessing setting",
  "The tests certify a single bundled file by an external checker if at all; each simplification, strengthening, elimination and deletion has to log in the right order on every run.",
  ["src/cdb/db.rs", "src/cdb/unsat_certificate.rs", "src/processor/eliminate.rs", "src/processor/subsume.rs", "src/cdb/vivify.rs", "src/solver/conflict.rs"],
  [("certification store", "src/cdb/"), ("certificate_add_assertion / certificate_save", "src/cdb/")],
  observe=["Solver::save_certification", "the saved file"])
p("C04", "Solving always ends in an answer, without crash, hang or internal error",
  "For every well-formed input within its limits, building a solver and solving terminate with SAT or UNSAT: no panic, abort, violated internal assertion, arithmetic overflow, out-of-range access, endless loop or internal error value. Every malformed literal or clause is reported as an error value instead.",
  ["inputs", "configurations"], "all small formulas, degenerate shapes (no var, no clause, unused vars, duplicated, tautological and very long clauses), all strings of literals up to a length including malformed ones",
  "Tests run on well-behaved files; the code indexes without bound checks, so a wrong index on some input corrupts memory silently.",
  ["src/solver/search.rs", "src/cdb/db.rs", "src/assign/", "src/processor/", "src/types/"],
  [("unsafe_access with debug assertions", "src/assign/, src/cdb/"), ("SolverError", "src/types/mod.rs")],
  observe=["Solver::try_from", "Solver::solve", "Certificate::try_from", "SatSolverIF"])
p("C05", "The answer doesn't depend on heuristic choices",
  "Whatever variable and phase the search branches on, whenever it restarts, ends a stage, backtracks deeper, reduces the learnt clauses or runs its in-processors, the verdict stays the right one, a SAT answer stays a model, and the search ends.",
  ["schedules", "inputs"], "all sequences of heuristic choices within a deviation bound from the natural run, and all choice sequences of short runs, on small formulas",
  "Each test follows the single deterministic schedule of heuristics for its input.",
  ["src/solver/search.rs", "src/solver/stage.rs", "src/solver/restart.rs", "src/assign/select.rs", "src/cdb/db.rs", "src/solver/conflict.rs"],
  [("restart, stage and reduction schedule", "src/solver/search.rs"), ("decision", "src/assign/select.rs"), ("trail saving", "src/assign/trail_saving.rs")],
  observe=["Solver::solve"], hook="splr_verif: oracle, decider and observer")
p("C06", "The answer doesn't depend on the configuration",
  "For every setting of the tuning options (elimination on or off and its limits, clause reduction and restart parameters, activity decay, certification on or off) a formula gets the right verdict, and a right model if it is satisfiable.",
  ["configurations", "inputs"], "all combinations of boundary and typical values of each option over small formulas, each option alone and in pairs over larger ones",
  "The tests use the default configuration.",
  ["src/config.rs", "src/solver/build.rs", "src/processor/simplify.rs", "src/solver/search.rs", "src/solver/restart.rs", "src/cdb/db.rs", "src/assign/stack.rs"],
  [("Config", "src/config.rs"), ("instantiate", "src/types/mod.rs")],
  observe=["Solver::try_from((Config, _))", "Solver::solve"])
p("C07", "Clause and variable elimination keep satisfiability and models recoverable",
  "Subsumption, strengthening and variable elimination, before and during the search, turn a formula into one that is satisfiable exactly when the original is, and every model of what remains, even if all learnt clauses are dropped, extends by the recorded elimination steps to a model of the original.",
  ["inputs", "schedules"], "all small formulas, every model of the residual formula at every point where the search resumes, with eliminations forced at chosen moments",
  "The tests eliminate in a few fixed formulas and look at no residual model but the one found.",
  ["src/processor/eliminate.rs", "src/processor/subsume.rs", "src/processor/simplify.rs", "src/processor/heap.rs", "src/assign/stack.rs"],
  [("eliminate_var", "src/processor/eliminate.rs"), ("try_subsume", "src/processor/subsume.rs"), ("extend_model", "src/assign/stack.rs")],
  state=[("eliminated", "the stack used to extend models", "src/assign/stack.rs")],
  observe=["head of the search loop"], hook="splr_verif: observer")
p("C08", "In-processing without elimination keeps the set of models",
  "When elimination is off, the clauses held together with the literals asserted at the root have exactly the models of the given formula at any moment of the search, whatever was learnt, vivified, shortened, completed or deleted so far; and so have those of them that aren't marked as learnt and so can't be dropped.",
  ["inputs", "schedules"], "all small formulas; every head of the search loop and every conflict of runs with stages, vivification and reduction forced at chosen moments",
  "No test looks at the clause database during a search.",
  ["src/cdb/vivify.rs", "src/cdb/db.rs", "src/solver/conflict.rs", "src/assign/propagate.rs"],
  [("vivify", "src/cdb/vivify.rs"), ("strengthen_by_elimination, transform_by_*", "src/cdb/db.rs"), ("reduce", "src/cdb/db.rs")],
  observe=["head of the search loop", "conflicts"], hook="splr_verif: observer, oracle")
p("C09", "Unit propagation is sound and complete",
  "When the search picks its next decision, no clause it holds is falsified and none has a single unassigned literal with all the others false; every assigned literal is a decision or follows by its recorded reason from literals assigned before it, and the levels and the trail agree with the assignment.",
  ["inputs", "schedules"], "all small formulas, every head of the search loop, with decisions, restarts and in-processing varied",
  "The tests propagate on a handful of clauses; watch lists, caches, trail saving and backjumps only go wrong after particular histories.",
  ["src/assign/propagate.rs", "src/assign/trail_saving.rs", "src/assign/stack.rs", "src/cdb/watch_cache.rs", "src/cdb/db.rs"],
  [("watch lists and caches", "src/cdb/watch_cache.rs, src/cdb/db.rs"), ("propagate and cancel_until", "src/assign/propagate.rs")],
  state=[("trail, reason, level", "the assignment and its justification", "src/assign/stack.rs")],
  observe=["head of the search loop"], hook="splr_verif: observer")
p("C10", "What is learnt follows from the formula, and each conflict makes progress",
  "Every clause added by conflict analysis and every literal asserted at the root is implied by the formula held before it was added, and after each conflict the search has left the conflicting assignment with a newly implied literal, so that no conflict is repeated forever.",
  ["inputs", "schedules"], "all small formulas and every conflict of the explored runs, with decisions, restarts and backtrack depths varied",
  "No test inspects learnt clauses; analysis mistakes need particular implication graphs.",
  ["src/solver/conflict.rs", "src/cdb/db.rs", "src/assign/propagate.rs"],
  [("conflict_analyze, minimize_learnt", "src/solver/conflict.rs"), ("handle_conflict", "src/solver/conflict.rs")],
  observe=["conflicts and loop heads"], hook="splr_verif: observer")
p("C11", "Building a problem step by step is the same as giving it at once",
  "After any sequence of adding variables, clauses and unit assignments to a solver, solving answers for exactly the conjunction of the accepted ones over all declared variables; an addition is rejected only if it is malformed or contradicts the ones accepted, and a rejected one leaves no trace.",
  ["histories"], "all sequences of additions up to a depth over small alphabets of variables, clauses and assignments, well-formed and malformed, starting from empty and from non-empty solvers",
  "The tests add a few clauses in one order.",
  ["src/solver/build.rs", "src/state.rs", "src/assign/", "src/cdb/db.rs", "src/processor/mod.rs", "src/types/mod.rs"],
  [("SatSolverIF", "src/solver/build.rs"), ("handle(SolverEvent::NewVar)", "src/")],
  observe=["SatSolverIF::{add_var, add_clause, add_assignment}", "Solver::solve"])
p("C12", "A DIMACS file means the formula its text denotes",
  "Loading a DIMACS CNF file, whatever its comments, blanks, line breaks, clause layout, missing final newline or trailer, gives the formula its text denotes and the same verdict as the same clauses given in memory, over the declared number of variables. Ill-formed files are reported as errors and never solved as something else.",
  ["inputs"], "all token strings up to a length over a small alphabet, and all layouts of a set of formulas",
  "The tests load a few bundled files with one layout.",
  ["src/solver/build.rs", "src/types/cnf.rs", "src/types/mod.rs", "src/cnf/mod.rs"],
  [("CNFReader, CNFDescription", "src/types/cnf.rs"), ("inject from a file", "src/solver/build.rs")],
  observe=["Solver::build", "Solver::try_from(&str / Path)"])
p("C13", "The command reports the verdict by exit code, text and answer file alike",
  "For every CNF file the splr command exits with 10 and writes a satisfying assignment if it is satisfiable, and exits with 20 and writes UNSATISFIABLE if not; the answer file or the standard output selected by the options, and the proof file if certification is requested, hold the same result. Options, in their long or short form and in any order, change only what they are said to change.",
  ["inputs", "configurations"], "all sets of output options and all orders of them over a set of SAT and UNSAT files",
  "No test runs the command.",
  ["src/bin/splr.rs", "src/config.rs", "src/cdb/unsat_certificate.rs"],
  [("report, save_result", "src/bin/splr.rs"), ("option parser", "src/config.rs")],
  observe=["exit code", "stdout", "answer file", "proof file"])
p("C14", "The model checker dmcr accepts exactly the satisfying assignments",
  "The dmcr command says that an assignment is valid exactly when the literals given, together with the literals of the formula's unit clauses, satisfy every clause of the CNF file, for non-empty total and partial assignments, from a file or the standard input, and it says so for each answer written by the splr command.",
  ["inputs"], "all assignments, total and partial, of all formulas of small spaces, and all layouts of the answer",
  "No test runs the command.",
  ["src/bin/dmcr.rs", "src/solver/validate.rs"],
  [("inject_assignment and validate", "src/solver/validate.rs"), ("read_assignment", "src/bin/dmcr.rs")],
  observe=["stdout"])
p("C15", "Solving is deterministic and solvers don't affect each other",
  "The same formula with the same configuration gives the same answer, model and statistics each time, in a fresh solver, in another thread, after and while other solvers work in the same process, in whatever way they are interleaved, and in another process.",
  ["histories", "schedules", "inputs"], "all interleavings of the building steps and solving of two solvers, and repeated runs of each formula of small spaces after every other one of a set",
  "Each test builds a single solver and solves once.",
  ["src/solver/", "src/assign/", "src/cdb/", "src/state.rs"],
  [("all state is owned by Solver", "src/solver/mod.rs")],
  observe=["Solver::solve", "statistics"])
p("C16", "A time limit ends the search with an honest answer",
  "Once the time limit is over, from whichever conflict or reading of the clock on, the search stops with a time-out error by the end of the stage it's in, if it isn't answered before, and never with a wrong verdict; while the limit isn't reached the answer is unaffected by the clock.",
  ["fault_sequences", "schedules", "inputs"], "the limit expiring at each reading of the clock and at each conflict, and every two-step sequence of intermediate readings, on small formulas",
  "No test reaches a time limit, and real clocks can't be steered by tests.",
  ["src/solver/search.rs", "src/processor/simplify.rs", "src/state.rs", "src/processor/eliminate.rs"],
  [("elapsed checks", "src/solver/search.rs, src/processor/")],
  observe=["Solver::solve"], hook="splr_verif: oracle (clock)")
p("C17", "The CNF builder keeps every clause through composing, saving and loading",
  "A formula composed with the CNF type keeps exactly the clauses given to it, in memory, in the text it dumps, in the file it saves, and when that file is loaded by it or by the solver: header, units and sizes included.",
  ["inputs", "histories"], "all sequences of operations up to a depth over small alphabets of clauses",
  "The tests compose one formula and load two files.",
  ["src/cnf/mod.rs"],
  [("CNF", "src/cnf/mod.rs")],
  observe=["CNF::dump_to_string", "CNF::save", "CNF::load"])
p("C18", "The answer doesn't depend on the cargo features chosen",
  "In each build that turns an optional heuristic or in-processor on, or a default one off, and that compiles, every formula still gets the right verdict and a right model, without panic.",
  ["configurations", "inputs"], "each buildable single-feature deviation from the default set, over all small formulas and enumerated larger ones",
  "The tests run with the default features.",
  ["Cargo.toml", "src/solver/search.rs", "src/assign/", "src/cdb/", "src/processor/"],
  [("cargo features", "Cargo.toml")],
  observe=["Solver::solve"])
p("C19", "Validation tells exactly whether an assignment satisfies the problem",
  "Injecting an assignment into a solver succeeds unless it has an invalid literal or contradicts itself or the problem's fixed literals; then validation returns a clause exactly when some clause of the problem isn't satisfied by the injected literals and the fixed ones, and that clause is one of the problem's and is not satisfied.",
  ["inputs", "histories"], "all partial and total assignments of all formulas of small spaces",
  "The tests inject a couple of assignments.",
  ["src/solver/validate.rs", "src/assign/", "src/cdb/db.rs"],
  [("inject_assignment, validate", "src/solver/validate.rs")],
  observe=["ValidateIF"])
p("C20", "Literals convert without loss",
  "Every non-zero number within the supported range converts to a literal and back unchanged; negation, variable index, sign and order of literals agree with the numbers, in each of the conversions offered.",
  ["inputs"], "all literals up to a range that covers every bit of the representation, and its extremes",
  "The tests convert a few literals.",
  ["src/types/lit.rs"],
  [("Lit", "src/types/lit.rs")],
  observe=["Lit::from, i32::from, Not, vi, as_bool"])
p("C21", "The Luby series and the stage schedule follow their definitions",
  "The Luby iterator yields the Luby sequence (1, 2, 1, 1, 2, 4, 1, 1, 2, ...: without its first 1) from its start and again after a reset, and the stages, cycles and segments of the search that are derived from it begin and end as scheduled: none stalls, and within a search they never shrink.",
  ["histories"], "all sequences of next and reset operations up to a depth, and a prefix of the series long enough to reach each carry",
  "The tests compare a short prefix.",
  ["src/types/luby.rs", "src/solver/stage.rs"],
  [("LubySeries", "src/types/luby.rs"), ("StageManager", "src/solver/stage.rs")],
  observe=["LubySeries::next", "StageManager"])
p("C22", "The counters agree with what the solver holds",
  "At any moment of the search the reported numbers of variables (all, asserted, eliminated, unasserted, unassigned) and clauses (all, binary, learnt) are those of the assignment and the clauses held, the number of conflicts is the number that occurred, learnt binary and LBD-2 clauses are counted when they are learnt, and no counter of events runs backwards or wraps around.",
  ["inputs", "schedules"], "all schedules of heuristic choices within a number of deviations on small formulas, with the counters recounted at each state",
  "The counters are maintained by increments at many sites (learning, strengthening, promotion, reduction, elimination); a drift shows only after certain sequences of them.",
  ["src/cdb/db.rs", "src/cdb/mod.rs", "src/assign/mod.rs", "src/state.rs"],
  [("num_learnt", "src/cdb/db.rs"), ("NumUnassignedVar", "src/assign/mod.rs")],
  observe=["PropertyDereference", "State"])
p("C23", "A dumped CNF is the problem, or what remains of it",
  "dump_cnf writes a well-formed DIMACS file whose header counts its variables and clauses. Before solving it is equivalent to the problem given so far, however it was built, unit clauses and assignments included. After a SAT answer or an interrupted search, each model of it, as far as it constrains variables, extends to a model of the problem; it is satisfiable if the problem is, and the model that was answered satisfies it.",
  ["inputs", "histories", "configurations"], "all short sequences of building steps, and all formulas of small spaces and enumerated larger ones, dumped before and after solving and after interruptions at the first ends of stages",
  "No test dumps a CNF. Assertions live in the trail or, once they are handled, only in the variables; what the dump lacks shows only in formulas with fixed literals.",
  ["src/cdb/db.rs", "src/solver/build.rs", "src/assign/propagate.rs"],
  [("ClauseDB::dump_cnf", "src/cdb/db.rs"), ("SatSolverIF::dump_cnf", "src/solver/build.rs")],
  observe=["Solver::dump_cnf"], hook="splr_verif: oracle (clock, stages) for interruptions")
p("C24", "A limit on the number of clauses ends the search with an honest answer",
  "With the limit c_cls_lim set, solving ends in OutOfMemory only if the solver holds more clauses than the limit, and always if it does so when solving starts or when the simplification between segments of the search is over; in all other cases the answer is right. A limit that is far away changes nothing.",
  ["inputs", "configurations"], "every limit from below the number of clauses at the start to above the most that are held, for all formulas of small spaces and enumerated larger ones",
  "No test sets a limit. The point at which the limit is met depends on how many clauses are learnt and eliminated at each stage.",
  ["src/cdb/db.rs", "src/solver/search.rs", "src/processor/simplify.rs", "src/processor/eliminate.rs"],
  [("check_size", "src/cdb/db.rs"), ("reports of OutOfMemory", "src/solver/search.rs")],
  observe=["Solver::solve"], hook="splr_verif: oracle (stages), observer")
p("C25", "Moving averages are the averages they are said to be",
  "After any sequence of updates and resets the exponential moving averages (single, in pairs, of differences) have the values of their recurrence with the rates given, and the windowed ones the mean of the last N values, values before the first update counting as the initial one; the trend is the ratio of the fast to the slow value.",
  ["histories"], "all sequences of updates and resets up to a length over values of several magnitudes, for windows and rates of several lengths",
  "No test looks at an average; a window that slides wrongly shows after N updates only, and what depends on it (restarts, statistics) has no expected values.",
  ["src/types/ema.rs"],
  [("Ema, Ema2, EmaSU, Ewa, Ewa2", "src/types/ema.rs"), ("trend against rst_lbd_thr", "src/solver/search.rs")],
  observe=["EmaIF::get", "EmaIF::trend", "EmaMutIF::update"])
p("C26", "A result that can't be written, or a formula that can't be read, is told",
  "If the answer file, the proof or a saved CNF can't be made or written in full, at whatever byte the write fails, then the command or the library says so: the command still gives its verdict and exit code, claims no certificate that isn't there in full, and either gives the answer elsewhere or reports the failure; CNF::save and save_certification return an error unless the file is whole. A CNF file whose reading breaks off at some byte is an error, never another formula.",
  ["fault_sequences", "inputs", "configurations"], "every point of failure in the files of answers, proofs and formulas (each byte of short ones, steps and the ends of buffers in long ones), and targets that can't be made or have no space",
  "No test lets a write fail. What is lost in a buffer that isn't flushed shows only when the disc is full at the right byte.",
  ["src/bin/splr.rs", "src/cdb/unsat_certificate.rs", "src/cnf/mod.rs", "src/solver/build.rs", "src/types/cnf.rs"],
  [("save_result", "src/bin/splr.rs"), ("CertificationStore", "src/cdb/unsat_certificate.rs"), ("CNF::save and load", "src/cnf/mod.rs")],
  observe=["splr: exit code, standard output and files", "Solver::save_certification", "CNF::save", "CNF::load", "Solver::build"])
p("C27", "The clause database keeps its books through every operation",
  "After any sequence of its operations (adding clauses, learnt or not, or for a trial that is taken back, removing them, making them permanent, dropping a literal, root assignments and simplification by them, reduction, new variables) the clause database holds exactly the clauses that follow from the operations: nothing that isn't learnt is lost, nothing removed comes back when its id is used again, the numbers of clauses agree, each clause is watched by its first two literals or linked as a binary, a binary clause is recognized as registered iff it is held, validation and the limit on clauses judge the clauses held, and the proof gets each addition and deletion.",
  ["histories", "inputs"], "all sequences of operations up to a depth from an empty database, over choices of clauses that meet in many ways; states reached again are explored once",
  "A freed slot that is used again, a binary clause that comes to be by shortening, or a clause that loses a watched literal goes wrong only after a certain sequence; in a run of the solver it shows, if at all, much later.",
  ["src/cdb/db.rs", "src/cdb/binary.rs", "src/cdb/watch_cache.rs"],
  [("new_clause", "src/cdb/db.rs"), ("remove_clause", "src/cdb/db.rs"), ("transform_by_elimination", "src/cdb/db.rs"), ("transform_by_simplification", "src/cdb/db.rs"), ("reduce", "src/cdb/db.rs"), ("minimize_with_bi_clauses", "src/cdb/db.rs"), ("WatchCacheIF", "src/cdb/watch_cache.rs"), ("BinaryLinkDB", "src/cdb/binary.rs")],
  observe=["ClauseDBIF: return values", "ClauseDB::validate", "ClauseDB::iter", "PropertyDereference", "the proof file"])
p("C28", "A solver prints only what it's asked for, and what it prints is true",
  "As a library a solver writes nothing to the standard output or error while it's built and solves, unless splr_interface is set and quiet_mode isn't. With both, each report has the shape the next one overwrites (the same number of lines, with or without the heat map, plus journal lines only if asked), uses colours only if allowed, its conflicts never decrease, its remaining, fixed and eliminated variables add up to all of them, the heat map shows the clauses held by their LBD and use and its rows add up, the averages it prints follow the events they are of, the last one is of the end of the search, and a report of the state after solving shows the solver's counters and rates. What is printed never changes what is computed: verdict and statistics are the same in all modes.",
  ["configurations", "inputs"], "all combinations of interface, quiet, colour, heat map and journal over formulas in the listed spaces, with three schedules of stages",
  "Tests run with one mode of output and read none of it; a message that misses its guard shows only in the situation it tells about.",
  ["src/state.rs", "src/config.rs", "src/solver/search.rs", "src/solver/build.rs"],
  [("StateIF::progress, progress_header, flush, log", "src/state.rs"), ("Config", "src/config.rs")],
  observe=["standard output and error of Solver::try_from and SolveIF::solve", "StateIF::progress", "PropertyDereference", "State[Stat]"])
p("C29", "Search forgets no variable, nor what it was",
  "After any sequence of decisions, propagations, backjumps, learnt clauses, assertions, ends of stages with trials in the sandbox, rewards, eliminations and new variables, the assignment stack says of each variable truly whether it's free, assigned, asserted or eliminated: its counts agree, levels begin with their decisions and never decrease along the trail, propagation, also from a saved trail, gives just the closure of the decisions with valid reasons, deciding again and again assigns each free variable exactly once, each to the value that it last had in the search (trials don't count), and rephasing changes phases only to what they were together.",
  ["histories", "inputs"], "all sequences of operations up to a depth on the real assignment stack, over formulas in the listed spaces; states reached again are explored once",
  "A variable that isn't put back in the order, or a saved trail that outlives its reasons, shows only after certain backjumps; the search then hangs, crashes, or merely gets worse.",
  ["src/assign/stack.rs", "src/assign/propagate.rs", "src/assign/heap.rs", "src/assign/select.rs", "src/assign/trail_saving.rs", "src/assign/learning_rate.rs"],
  [("VarHeapIF", "src/assign/heap.rs"), ("VarSelectIF", "src/assign/select.rs"), ("TrailSavingIF", "src/assign/trail_saving.rs"), ("cancel_until", "src/assign/propagate.rs"), ("make_var_eliminated", "src/assign/stack.rs")],
  observe=["AssignStack: trail, levels, reasons", "select_decision_literal", "PropagateIF", "PropertyDereference"])
p("C30", "An answer file tells the statistics of its run",
  "The comments at the head of an answer file written by splr name the CNF file, its numbers of variables and clauses, and report the run's statistics: each counter, average, rate, and row of the heat map under its label is what the library has after solving the same file with the same settings, also in the modes where progress is shown; remaining, fixed and eliminated variables add up to all of them, and the summary agrees with the listing of properties.",
  ["inputs", "configurations"], "formulas in the listed spaces with ten sets of options each, every one a run of the command splr",
  "Tests never read what precedes the verdict; a counter under another's label, or one that's recorded in one mode of output only, is seen only by comparison with the run.",
  ["src/bin/splr.rs", "src/state.rs", "src/config.rs", "src/assign/mod.rs", "src/cdb/mod.rs"],
  [("report", "src/bin/splr.rs"), ("StateIF::progress", "src/state.rs"), ("PropertyDereference", "src/types/mod.rs")],
  observe=["answer files of the command splr", "PropertyDereference, PropertyReference", "StateIF, State[LogUsizeId], State[LogF64Id]", "ClauseDBIF::clause_heatmap"])
p("C31", "An option does what the help says, or is refused",
  "Each command line that the help describes - flags and options in short or long form, in any order, each with a value of its kind, then the CNF file - sets exactly the parameters named, to exactly the values given, the last one if repeated, and leaves the others at the defaults that the help shows. Anything else is refused with a message and without solving: unknown names, values of another kind, missing values or file; a value of an option isn't taken for the CNF file. SPLR_TIMEOUT limits the time if it's a number of seconds, however large, and is ignored otherwise.",
  ["inputs", "configurations"], "all sequences of up to three (thorough: four) options, and all options with lists of good and bad values; each parsed by a process",
  "No test gives the command an option; a value that's cut, or stored in a neighbour, changes the search silently.",
  ["src/config.rs", "src/bin/splr.rs"],
  [("Config::inject_from_args", "src/config.rs"), ("help_string", "src/config.rs"), ("main", "src/bin/splr.rs")],
  observe=["Config after Config::inject_from_args", "standard output and exit code", "SPLR_TIMEOUT"])
p("C32", "Local search tells the truth about its assignment",
  "A local search (StochasticLocalSearchIF) from any assignment over any clause database returns the numbers of clauses that the assignment falsifies before and after, keeps its variables and the clauses, flips one variable of a falsified clause in each step, and stops when all are satisfied or the limit is reached.",
  ["inputs", "histories"], "all assignments of small formulas, with each limit up to 5-30 (thorough 100) steps",
  "It's called only by an optional feature; its numbers decide what is remembered as the best, and no test looks at them.",
  ["src/cdb/sls.rs"],
  [("StochasticLocalSearchIF", "src/cdb/sls.rs")],
  observe=["ClauseDB::stochastic_local_search"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
