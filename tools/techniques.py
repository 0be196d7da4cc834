t("C01", EX, "exhaustive enumeration of small formulas and parametrised families, run on the real solver against truth tables",
  "Complete for every formula in the listed spaces, under the natural schedule, with stages of 1, 2 and 5 conflicts, and without restarts within a stage; says nothing about formulas outside of them. Trusts the truth tables and, beyond 6 vars, the reference solver.")
t("C02", EX, "exhaustive enumeration of small formulas in 8 ways of writing, each model checked clause by clause",
  "Complete for the listed spaces, with and without elimination.")
t("C03", EX, "exhaustive enumeration of small unsatisfiable formulas, each saved proof replayed by a forward DRAT checker",
  "Complete for the listed spaces, with and without elimination. Trusts the checker of the harness (operational semantics of deletions).")
t("C04", EX, "exhaustive enumeration of literal strings, formulas and degenerate shapes with debug assertions, overflow checks and precondition checks on",
  "Complete for the listed spaces; a hang is judged by a time limit (100 s, then 300 s alone).")
t("C06", EX, "exhaustive product of configurations and small formulas",
  "Complete for the listed products: each option at boundary values alone, in pairs, and all combinations of the preprocessor's limits.")
t("C11", EX, "exhaustive enumeration of sequences of add_var, add_assignment and add_clause calls, then solved and compared with truth tables",
  "Complete for all sequences of calls up to the listed lengths over up to four vars.")
t("C12", EX, "exhaustive enumeration of token strings, headers and layouts of DIMACS texts, each compared with a reference reader on all its assignments",
  "Complete for the listed alphabets and lengths. Trusts the reference reader.")
t("C19", EX, "exhaustive enumeration of formulas and (partial, total, contradictory, out of range) assignments, compared with clause-by-clause evaluation",
  "Complete for the listed formulas and assignments.")
t("C13", EX, "exhaustive enumeration of command lines (sets and orders of options) and formulas, run as processes and compared with a model of the options, a DRAT checker and library calls",
  "Complete for the listed option sets, orders up to 2-4 options and formulas.")
t("C14", EX, "exhaustive enumeration of formulas, assignments and answer layouts, each run through the dmcr process and compared with clause-by-clause evaluation",
  "Complete for the listed formulas, assignments and layouts.")
t("C15", EX, "exhaustive enumeration of formulas and of interleavings (building steps of solvers; loop heads of two searching threads under a controlled scheduler), comparing answers and all counters",
  "Complete for the listed formulas and orders; thread interleavings at loop heads and conflicts only.")
t("C16", FE, "fault enumeration: the clock, controlled by a hook, expires at each of its readings and at each conflict, and takes all short sequences of values",
  "Complete for the listed formulas, up to 60 readings, sequences of 4-5 readings.")
t("C17", EX, "exhaustive enumeration of histories of CNF operations, compared with a reference, with files read back by the library and the solver",
  "Complete for the listed alphabets and lengths.")
t("C20", EX, "exhaustive enumeration of all the numbers the representation supports",
  "Complete: all numbers of -(2^30-1)..=2^30-1 but 0.")
t("C21", EX, "exhaustive enumeration of histories of operations, and long prefixes, compared with the definition of the series and a reference of the stage schedule",
  "Complete for the listed lengths.")
t("C18", EX, "exhaustive enumeration of builds that deviate from the default features in one (thorough: two) and of small formulas, run and compared with truth tables",
  "Complete for the listed deviations and formulas. Features that don't compile at the pinned commit are out (DESIGN.md).")
t("C05", MC, "stateless model checking of the search: all schedules of heuristic choices (decisions, restarts, stage ends, backtracks, reductions) within a bound on deviations, run on the real code under an oracle",
  "Complete for the listed formulas and bounds on deviations and choice points (all decision sequences for the smallest formulas). Executions are of the real code, so no model has to be bound to it.")
t("C07", MC, "stateless model checking of the search: all schedules within a bound on deviations, the remainder and the recorded eliminations checked at each state",
  "Complete for the listed formulas and bounds; up to 13 vars against truth tables of all assignments, beyond that one model per literal from the reference solver.")
t("C08", MC, "stateless model checking of the search: all schedules within a bound on deviations, the set of models compared at each state",
  "Complete for the listed formulas and bounds; up to 13 vars against truth tables, beyond that clause by clause by propagation and the reference solver.")
t("C09", MC, "stateless model checking of the search: all schedules within a bound on deviations, closure and justification of the assignment checked at each state; explicit-state exploration of the propagation engine alone under all sequences of operations up to a depth",
  "Complete for the listed formulas and bounds.")
t("C10", MC, "stateless model checking of the search: all schedules within a bound on deviations, each conflict and what is learnt from it checked",
  "Complete for the listed formulas and bounds; progress is judged for conflicts without an end of a stage, where a restart follows at once.")
t("C22", MC, "stateless model checking of the search: all schedules within a bound on deviations, the counters recounted at each state",
  "Complete for the listed formulas and bounds.")
t("C23", EX, "exhaustive enumeration of sequences of building steps, formulas and points of interruption, each dump compared with the problem by truth tables or a reference solver",
  "Complete for the listed sequences and formulas; beyond six vars up to six models of each dump after solving are extended.")
t("C24", FE, "fault enumeration: the limit of clauses takes each value around the numbers of clauses that occur in the run",
  "Complete for the listed formulas and, up to 60 values per formula, all limits of the range.")
t("C25", EX, "exhaustive enumeration of histories of updates and resets, compared with the recurrences and the means of the windows after each operation",
  "Complete for the listed values and lengths, up to a tolerance for rounding.")
t("C26", FE, "fault enumeration on the real command and library: the kernel's limit on the size of files makes the write at each enumerated byte fail, and bytes that aren't text make the read at each byte fail; what is left on the disc is judged against what was said",
  "Complete for the listed formulas: each byte (quick: each third) of short answers, each byte of short proofs and CNF files, steps for long ones.")
t("C27", MC, "explicit-state model checking of the real clause database: breadth-first search over all sequences of its operations up to a depth, each state compared with a list of clauses kept alongside",
  "Complete for the listed clauses and depths; a literal dropped from a clause may stay cached in its watches.")
t("C29", MC, "explicit-state model checking of the real assignment stack: breadth-first search over all sequences of its operations up to a depth, each state compared with an account kept alongside, and decided on from copies until no variable is free",
  "Complete for the listed formulas and depths; which of the free variables comes first isn't judged (the order is kept lazily).")
t("C30", EX, "exhaustive enumeration of formulas and sets of options; the head of each answer file that the real command writes is compared, label by label, with what the library has after the same search",
  "Complete for the listed spaces and sets of options; the time isn't compared.")
t("C31", EX, "exhaustive enumeration of command lines up to a number of options, and of options with good and bad values; each parsed by a process of its own, the configuration compared with the one the help describes",
  "Complete for the listed options and values; non-UTF-8 arguments are outside.")
t("C32", EX, "exhaustive enumeration of formulas, initial assignments and limits of steps; each real walk is judged by counting clauses and against the walk with one step less",
  "Complete for the listed spaces; from 9 variables on 64 initial assignments each.")
t("C28", EX, "exhaustive enumeration of formulas and all modes of output; everything the real solver writes is captured and compared with its counters and with the other modes",
  "Complete for the listed spaces; warnings of CNF::load and messages of the command splr are outside.")
