"""What each check is, for check.py (budgets, evidence) and manifest.py (MANIFEST.json)."""

LIB = "every library source of /repo (propagation loop, state, search, presolvers, constraints, proof logging), compiled from its working tree"
SHIM = "gch::small_vector (absent from the sandbox) is a vector-backed shim"
HISTORY = ("a history is the hash of every scheduling decision taken and every callback seen in a case; a case's shape is the hash of its constraint kinds, "
           "variants, branching and fault plan")
GENERATED = ("cases are generated from (seed, index): 1 to 4 constraints of the 62 kinds with every propagation variant, small domains with holes, views, constants, "
             "repeated variables and reification, then a branching strategy and a propagation schedule; ")
BRUTE = "the answer is compared with brute-force enumeration against definitions of the constraints written for this harness"

CHECKS = {}


def check(id, quick, thorough, **k):
    k.setdefault("level", "exploration")
    k.setdefault("measure", HISTORY)
    k.setdefault("real", [LIB])
    k.setdefault("stubs", [SHIM])
    k.setdefault("assumes", ["the harness's own definitions of the constraints (sim/sem.cc) are what their documentation says",
                             "generated problems are small (2 to 7 variables, at most some thousands of assignments)"])
    CHECKS[id] = dict(quick=quick, thorough=thorough, **k)


check("C01", 60, 900,
      technique="deterministic simulation: seeded propagation schedules, wake-ups and branching, against brute-force enumeration",
      rule=GENERATED + "non-trivial when search had at least one branch and the schedule at least one choice; " + BRUTE,
      note="Seeded search over problems, schedules (order of pending propagators, spurious wake-ups, refused disables and idempotence claims) and branching. "
           "Exact on each run; no bound proves absence.")
check("C02", 40, 900,
      technique="deterministic simulation: seeded schedules, restarts and branching, against a brute-force optimum",
      rule=GENERATED + "with an objective; non-trivial when at least one solution was improved or the problem branched; " + BRUTE,
      note="As C01, with objectives and restarts: improvement is checked at every solution, optimality at the end.")
check("C03", 45, 900, level="fault_enumeration",
      technique="deterministic simulation: stops injected at enumerated steps of seeded runs, checked against the undisturbed run",
      rule=GENERATED + "then a stop (abort flag at any scheduler step, a solution or trace callback returning false) at every step of short runs and at "
      "sampled steps of long ones; each stopped run is followed by a full one on the same problem object",
      note="Stops are enumerated over the steps of each sampled run; the histories themselves are sampled.")
check("C04", 45, 900,
      technique="deterministic simulation: seeded restart schedules and propagation orders, against the run without restarts and a Luby reference",
      rule=GENERATED + "solved with and without restarts; non-trivial when at least one restart happened",
      note="Termination is progress within a bounded number of steps; every restart is recorded and compared with an independently written Luby sequence.")
check("C05", 35, 900,
      technique="deterministic simulation: seeded searches with proof files on a simulated disk, every proof checked by an independent checker",
      rule=GENERATED + "with proofs written to simulated files and restarts, presolvers and name styles chosen by the seed; every proof is checked line by line "
      "by the harness's own VeriPB 3 checker, its solutions and conclusion compared with the callbacks and brute force",
      note="The checker (sim/pb.cc) was written for this harness. Classes of model whose proofs are known not to check are left out of generation and replayed from known/.",
      real=[LIB, "the proof and model writers, the variables map"], stubs=[SHIM, "the disk is simulated: fopen, write and fclose on the proof files are interposed"])
check("C06", 30, 900, level="fault_enumeration",
      technique="deterministic simulation: stops and exceptions injected at chosen steps of proof logging runs, what was written checked and compared with what was established",
      rule="as C05, then five faults per problem: the abort flag at a scheduler step, a callback returning false or throwing at its nth call; the proof written "
      "must check as far as it goes and claim neither more nor less than the run established",
      note="Which steps are stopped at is sampled; each stopped run's proof is checked in full.",
      real=[LIB, "the proof and model writers, the variables map"], stubs=[SHIM, "the disk is simulated: fopen, write and fclose on the proof files are interposed"])
check("C07", 35, 600, level="fault_enumeration",
      technique="deterministic simulation of the disk: every open and close and sampled writes fail, disks fill, writes are short or interrupted, the process ends mid-write",
      rule="a proof logging solve is run undisturbed on a simulated disk, then again under each of its disk faults: every open and every close failing, sampled "
      "writes failing (once or from then on, with ENOSPC, EIO, EDQUOT, EFBIG), the disk filling at sampled bytes, short and interrupted writes; and every state "
      "a process ending in the middle of a write would leave (the last 70 bytes of each file one by one, others sampled) is shown to the proof checker",
      note="The reference is the undisturbed run: a fault must be reported, a retried one must leave the same bytes.",
      real=[LIB, "the proof and model writers, the variables map, the s-expression writer, and the C++ stream library"], stubs=[SHIM, "the disk is simulated: fopen, write and fclose on the output files are interposed"])
check("C08", 35, 600,
      technique="deterministic simulation: seeded histories of guesses, contradictions, jumps back and clones against a reference store",
      rule="cases are generated from (seed, index): 1 to 6 variables (also far from zero and very wide) and up to 400 operations (inferences through every entry "
      "point and view, guesses, choice points, jumps back over any number of them, private state, callbacks, clones, interval arithmetic); after every "
      "operation every store alive is compared with the reference",
      note="The reference store keeps plain interval lists and whole copies per choice point. Histories are sampled.",
      measure="a history is the hash of every operation, its reported kind of change and every domain after it; a shape is (variables, deepest nesting, length)",
      real=["gcs/innards/state.cc and .hh, gcs/interval_set.hh, gcs/current_state.cc, variable views and conditions"],
      assumes=["inferences that contradict are followed by a jump back, as search does"])
check("C09", 35, 600, level="fault_enumeration",
      technique="deterministic simulation with fault injection: callbacks throw at chosen calls, allocations fail at chosen points, every block and file accounted for",
      rule=GENERATED + "half of them logging a proof to a simulated disk; then 5 faults where a callback of one of 7 kinds throws at its nth call and 7 where the nth "
      "allocation inside the solve (and sometimes the next few) fails; after each the exception, what was reported, the live allocations and open files are checked "
      "and the same problem object is solved again",
      note="Allocations are counted by replaced operator new and delete; the fault points are sampled over every allocation of the run.",
      stubs=[SHIM, "operator new and delete are replaced, to fail on demand and to account for what is live; the disk is simulated"])
check("C11", 40, 600,
      build="edges",
      technique="deterministic simulation: real threads, one running at a time, changed over at seeded basic block edges of the solver; and solves nested in callbacks",
      rule=GENERATED + "2 or 3 solves (the same problem, another of the same kinds, or both), a third of them logging proofs, are run alone and then on threads which "
      "take turns, changing over at basic block edges chosen by the seed (20 to 6000 times, with bursts of a change every few edges); then one inside a callback of another",
      measure="a history is the sequence of change-overs (which thread, after how many edges) and every scheduling decision and callback",
      note="The library is compiled with -fsanitize-coverage=trace-pc-guard so that a thread can be stopped at any edge. Data races inside one basic block are not seen.",
      stubs=[SHIM, "the thread scheduler is simulated: threads hand over a baton at seeded edges, locks are taken by retrying", "the disk is simulated"])
check("C12", 30, 600,
      technique="deterministic simulation: the same solve in simulated environments with other memory layouts, clocks and pasts, compared event by event and byte by byte",
      rule=GENERATED + "half of them logging a proof; solved as shipped and under a seeded schedule, each in 4 environments: as it comes, with scattered and dirtied "
      "allocations, with a clock which jumps, and after other (abandoned) solves in the process; callbacks, statistics, propagation order and files must be the same",
      note="Counters which presolvers keep across solves of one problem object are compared only between separately built problems.",
      time="steady and system clocks are simulated, with jumps of up to a day forwards (and back, for the system clock)",
      stubs=[SHIM, "operator new returns scattered, dirtied blocks; clock_gettime is simulated; the disk is simulated"])
check("C13", 35, 600, level="fault_enumeration",
      technique="deterministic simulation of the front end as a process: signals, the timeout timer, clock jumps, short reads and full disks at seeded steps",
      rule="cases are generated from (seed, index) as FlatZinc JSON over 45 constraint kinds with annotations and options; the real front end is run as a simulated "
      "process undisturbed, with signals raised at 4 sampled steps, with 4 timeouts firing at sampled steps (with clock jumps, spurious wake-ups and a late signal), "
      "with a model read in short pieces, with a model cut short, and with a full disk under --prove; what it prints is compared with brute force",
      note="Steps are scheduler decisions, system calls and lock operations of the process; which are disturbed is sampled. " + "Liveness: the process ends within 40 steps of a stop.",
      time="the process's clocks, timers and condition variable waits are simulated",
      measure="a history is the hash of every step of the process, the thread taking it, and its output; a shape is the hash of the constraint kinds, options and faults",
      real=[LIB, "minizinc/fzn_glasgow.cc whole, main included (renamed)"],
      stubs=[SHIM, "cxxopts.hpp is a copy of the sandbox's with the one function it lacks", "threads, condition variables, signals, clocks and files are simulated"])
check("C14", 30, 600, level="fault_enumeration",
      technique="deterministic simulation: problems written to a simulated disk and read back through short and interrupted reads, with the file ending at every byte",
      rule=GENERATED + "of the kinds the format has; written by a solve stopped as soon as the model is out, read back, solved, written again, and read at every truncation "
      "of the file; a quarter of the cases also run the scp front end as a simulated process; random s-expression trees are printed and parsed back",
      note="Every truncation point of each file is tried; the problems are sampled. The constant which a view of the objective adds is not carried by the format and not compared.",
      measure="a history is the hash of the written file and of every answer; a shape is the hash of the constraint kinds and variants",
      real=[LIB, "the s-expression writer, parser and reader, and scp/glasgow_scp_solver.cc whole, main included (renamed)"],
      stubs=[SHIM, "cxxopts.hpp is a copy of the sandbox's with the one function it lacks", "the disk is simulated"])
check("C15", 35, 600,
      technique="deterministic simulation: seeded search histories against recomputing the closure from scratch, and the simplifier against brute force",
      rule="cases are generated from (seed, index): systems of (conditional) difference inequalities, driven through random guesses, retractions, wake-ups and "
      "enumerations; after every propagation the bounds are compared with a Bellman-Ford closure over the live system; the root simplifier is compared on the "
      "integer points of small systems",
      note="Systems have up to a dozen variables; the reference recomputes the whole closure each time.",
      measure="a history is the hash of every operation and every domain after it; a shape is (variables, edges, conditions, length)",
      real=["gcs/constraints/innards/difference_incremental.cc and difference_simplify.cc, the Difference constraint and its presolver, in real searches"],
      assumes=["the closure of a system of difference inequalities is what the constraint's documentation says it propagates to"])
check("C16", 45, 900,
      technique="deterministic simulation: seeded presolver sets and schedules, against the problem without presolvers and brute force",
      rule=GENERATED + "biased to what presolvers look for, with 1 to 3 presolvers; solved twice on the same problem object",
      note="As C01, on problems biased to difference, linear, cumulative and disjunctive structure.")
check("C17", 40, 900,
      technique="deterministic simulation: domain-consistency invariant checked at every node of seeded runs",
      rule="cases are generated from (seed, index): one constraint of a kind and variant documented as domain consistent, with every schedule and branching; "
      "every branching node's domains are checked value by value for supports",
      note="The invariant is evaluated exactly at each node; which kinds advertise domain consistency is a list in sim/sem.cc.")
check("C20", 20, 300, level="fault_enumeration",
      technique="deterministic simulation of the disk: data files read in pieces, with failing opens, cut at every byte and damaged, against independent readers",
      rule="cases are generated from (seed, index): a file in one of five formats with random layout, comments and statement order; read as it is, through short and "
      "interrupted reads, with a failing open, cut at every byte, and with 60 random damages; what is read is compared with an independent reader of the format, or, where that reader rejects the file, with what comes of reading it whole",
      note="Every truncation point of each file is tried; files and damages are sampled. What the formats leave open (trailing data, an unterminated last statement) is read as the readers document.",
      measure="a history is the hash of the file; a shape is its format and length",
      real=["examples/dzn.hh, rcpsp_instance.hh, table_layout_instance.hh, p_dispersion_instance.hh, and the C++ stream library"],
      stubs=["the disk is simulated: fopen, read and fclose on the data files are interposed"],
      assumes=["the harness's own readers say what the formats mean"])

check("C21", 30, 600, level="fault_enumeration",
      technique="deterministic simulation of a program using the Python interface as a process: signals, the timeout thread, failing callbacks, wrong calls and full disks at seeded steps",
      rule="cases are generated from (seed, index): a model of 30 constraint kinds over variables, negations, sums and constants, built and solved by calling the binding's "
      "functions by name, some constraints only after a first solve; undisturbed, with signals at 4 sampled steps, with 4 timeouts (with clock jumps, spurious wake-ups, a late "
      "signal or a failing callback), with a failing callback, with a proof, and with a proof and a disk which fills; then solved again; wrong and empty calls are made in between",
      note="Every solve after a disturbed one must be as good as any. Which steps are disturbed is sampled. Liveness: solve returns within 40 steps of a stop.",
      time="the process's clocks, timers and condition variable waits are simulated",
      measure="a history is the hash of every step of the process, the thread taking it, and its output; a shape is the hash of the constraint kinds, options and faults",
      real=[LIB, "python/gcspy.cc and gcspy.hh whole, with its list of bindings"],
      stubs=[SHIM, "pybind11 (absent from the sandbox) is a shim which binds and converts arguments as it does; there is no Python interpreter",
             "threads, condition variables, signals, clocks and files are simulated"])

check("C22", 30, 600, level="fault_enumeration",
      technique="deterministic simulation of the XCSP3 front end as a process: signals, the timeout thread, clock jumps and full disks at seeded steps",
      rule="cases are generated from (seed, index): an instance of up to 40 kinds of XCSP3 constraint, expression and objective, called out to the front end as the XML parser "
      "would; solved undisturbed, with signals at 3 sampled steps, with 3 time limits (with clock jumps, spurious wake-ups or a late signal), with an unknown option, and with a proof on a disk which fills; "
      "every printed solution, bound and status line is compared with brute force over the meaning XCSP3 gives the instance",
      note="Which steps are disturbed is sampled. Liveness: at most 40 propagators run after a stop, and the process ends without waiting for its timer.",
      time="the process's clocks, timers and condition variable waits are simulated",
      measure="a history is the hash of every step of the process, the thread taking it, and its output; a shape is the hash of the constraint kinds, options and faults",
      real=[LIB, "xcsp/xcsp_glasgow_constraint_solver.cc whole, with its main"],
      stubs=[SHIM, "the XCSP3 parser library (absent from the sandbox) is a shim which makes the calls the real one would make for an instance's XML; no XML is read",
             "threads, condition variables, signals, clocks and files are simulated"],
      assumes=["the shim calls back as the XCSP3 C++ parser does"])

NOT_APPLICABLE = {
    "C18": "integer operations are pure functions of two numbers: there is no schedule, time, I/O or fault for a simulator to decide",
    "C19": "printing and parsing an s-expression are pure functions of a string: no schedule, time, I/O or fault takes part",
}
check("C23", 30, 600,
      technique="deterministic simulation: seeded searches whose proofs assert steps rather than justify them, every assertion held against every solution",
      rule="as C05, with the proof's assertion level set to Definitions, Inferences or Backtracking by the seed; every assertion's annotation must name a hint, "
      "the step's kind and the constraint as documented, no solution found later may be against anything asserted, "
      "what is not asserted must follow, and the solutions and the conclusion are compared with the callbacks and brute force",
      note="An assertion is only held against the solutions of the problem, all of which are known; what an improved objective excludes is left out of that. "
      "The level Links, and three constructions at the level Definitions, are known not to check and are replayed from known/.",
      real=[LIB, "the proof and model writers, the variables map"], stubs=[SHIM, "the disk is simulated: fopen, write and fclose on the proof files are interposed"])
