#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, quant, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": quant}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [],
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": observe, "hook_needed": hook}})

p("C01", "Literal and variable conversions are lossless, checked and order-consistent",
  "For every variable and literal in the supported index range, converting to any other representation (index, signed solver integer, C integer, text, serialised form) and back yields the same variable and polarity, and negation, polarity queries, variable extraction and ordering agree with that meaning. Checked conversions of values outside the range (zero, too large, malformed text) report an error and never produce a different literal. Map and set types keyed by variables or literals behave like an ordinary map over exactly the keys inserted.",
  ["inputs"], "all variable indices 0..=max, both polarities, all 32-bit integers, arbitrary text",
  "Unit tests use a dozen small indices; the boundary values and the full integer range are never reached.",
  ["src/types/mod.rs"], [("packed literal representation", "src/types/mod.rs Lit/Var"), ("checked constructors", "new_with_error, from_ipasir, TryFrom")],
  ["public API of rustsat::types"])

p("C02", "Constraint values, predicates and transformations agree with their meaning",
  "Clauses, cardinality constraints and pseudo-Boolean constraints evaluate under any total assignment to exactly the truth of the Boolean or arithmetic statement they were built from, for any (also repeated, opposing or zero-weight) terms and any bound. Every transformation between or within these forms (adding and removing literals, normalising, sorting and deduplicating, unit and tautology elimination, conversion from one form to another, inversion of bounds) keeps the set of satisfying total assignments, and a conversion that cannot be expressed is reported as such. Predicates (tautology, unsatisfiable, forced positive or negative assignment, is-clause, is-cardinality-constraint) give an answer that agrees with that set.",
  ["inputs"], "all constraints over small variable sets, with any weights and bounds, all assignments",
  "Tests check a few hand-written constraints; degenerate bounds, zero weights, repeated literals and the three bound kinds are never crossed.",
  ["src/types/constraints.rs", "src/types/mod.rs"],
  [("constructors and normalisation", "CardConstraint/PbConstraint new_*, normalize, into_*"), ("predicates", "is_tautology, is_unsat, is_clause, ...")],
  ["public API of rustsat::types::constraints"])

p("C03", "Solver output and value lines are read exactly or rejected",
  "Reading a solver's value line or whole output (SAT-competition, MaxSAT 0/1 and pseudo-Boolean styles) yields exactly the assignment and the status the text states, with later and earlier lines merged and unmentioned variables left undecided. Contradictory or malformed text, a missing status line and a satisfiable status without values are reported as errors and never become a different assignment. Printing an assignment and reading it back yields the same assignment.",
  ["inputs"], "all assignments and all textual layouts of solver output, including malformed ones",
  "Tests have a handful of fixed strings per style.",
  ["src/types/mod.rs", "src/instances/fio/mod.rs"],
  [("value line parsers", "Assignment::from_vline / extend_from_vline"), ("output parser", "fio::parse_sat_solver_output")],
  ["parsed assignment vs. generator"])

p("C04", "DIMACS CNF, WCNF and MCNF files round-trip and keep their meaning",
  "Writing any instance without non-clausal constraints in CNF, WCNF or MCNF format and reading the result back gives an instance with the same clauses, the same objective values for every assignment up to a constant (offsets are not part of the formats), the same order of objectives, and at least the declared variables. Reading a file written in either the old (top-weight) or the new WCNF syntax, with any legal layout of comments, whitespace and line breaks, gives the instance the text states. Writing line by line through the low-level writers produces files the reader accepts with the same content.",
  ["inputs"], "all instances, both WCNF dialects, all layouts",
  "Tests compare a few tiny strings and sample files; layouts, empty clauses, extreme weights and the line-level writers are not covered.",
  ["src/instances/fio/dimacs.rs", "src/instances/fio/mod.rs", "src/instances/sat.rs", "src/instances/opt.rs", "src/instances/multiopt.rs"],
  [("parser", "fio::dimacs::parse_*"), ("writers", "write_cnf, write_wcnf, write_mcnf")],
  ["parsed instance vs. independent reader of the text"])

p("C05", "OPB files round-trip and every constraint keeps its meaning",
  "Writing any instance, single- or multi-objective, as OPB and reading it back gives an instance with the same satisfying assignments and objective differences, for every literal style and first-variable index the options allow. Reading any OPB text gives constraints whose satisfying assignments are those of the stated linear inequality or equality, including negative coefficients, negated literals, all relational operators and min/max objectives. Conversely what is written is legal OPB denoting the instance's constraints to an independent reader.",
  ["inputs", "configurations"], "all instances, all OPB option combinations, all legal OPB texts",
  "Tests hold a few lines per parser rule, and round trips only with random data in one option setting.",
  ["src/instances/fio/opb.rs", "src/instances/sat.rs", "src/instances/opt.rs", "src/instances/multiopt.rs"],
  [("parser", "fio::opb parse_*"), ("writers", "write_sat, write_opt, write_multi_opt, write_clause/card/pb")],
  ["written text vs. independent OPB evaluator", "parsed instance vs. generator"])

p("C06", "Readers never crash or hang on any input bytes",
  "Whatever bytes are fed to any public file, value-line, solver-output or literal reader, the call returns an instance or an error within time and memory proportional to the input (and the variable and objective indices it names); it never panics, aborts or overflows. A syntactically invalid body is reported as an error and not silently dropped or truncated into a different instance.",
  ["inputs"], "all byte strings, in particular mutations and truncations of valid files",
  "Tests only feed well-formed files and a few specific errors.",
  ["src/instances/fio/dimacs.rs", "src/instances/fio/opb.rs", "src/instances/fio/mod.rs", "src/types/mod.rs"],
  [("nom parsers with error mapping", "src/instances/fio/*")],
  ["outcome (value, error or panic) of each reader call, with address-checked builds"])

p("C07", "At-most-one encodings allow exactly the assignments with at most one true",
  "For every at-most-one encoding, any set of input literals over distinct variables and any sub-encoding or group-size choice, an assignment of the inputs can be extended to satisfy the produced clauses exactly if at most one input is true. Setting one input true forces all others false by unit propagation wherever the encoding is documented as propagating. Adding literals in any grouping (construction, one by one, several extends) before encoding makes no difference.",
  ["inputs", "configurations"], "all literal lists up to sizes well past every group boundary, all six encodings with several parameters",
  "Tests enumerate at most four to ten literals with one parameter setting.",
  ["src/encodings/am1/mod.rs", "src/encodings/am1/pairwise.rs", "src/encodings/am1/bitwise.rs", "src/encodings/am1/ladder.rs", "src/encodings/am1/bimander.rs", "src/encodings/am1/commander.rs", "src/encodings/am1/twoproduct.rs"],
  [("encoders", "am1::Encode::encode of each type")], ["clauses delivered to the collector"])

p("C08", "Cardinality encodings enforce exactly the requested bounds",
  "After encoding any list of input literals for a bound range with any cardinality encoding (including the bound-inverting and double wrappers, and the free functions that pick an encoding), for every bound within the range the returned enforcing literals together with the clauses admit exactly the input assignments that satisfy the upper bound, lower bound or equality. Bounds outside what was encoded are reported as not encoded, unsatisfiable bounds as unsatisfiable, and trivially true ones need no literals. Enforcing one bound never changes what another one admits.",
  ["inputs", "histories"], "all literal lists, ranges and bounds, all three bound kinds, all encodings and wrappers",
  "Tests check a few fixed sizes, ranges and bounds with one hand-picked assumption set each.",
  ["src/encodings/card/mod.rs", "src/encodings/card/totalizer/mod.rs", "src/encodings/card/simulators.rs", "src/encodings/totdb/mod.rs"],
  [("encoders", "BoundUpper/BoundLower/BoundBoth"), ("range preparation", "prepare_*_range and convert_encoding_range")],
  ["clauses and enforcing literals, projected on the inputs by exhaustive or SAT oracle"])

p("C09", "Pseudo-Boolean encodings enforce exactly the requested bounds",
  "After encoding any weighted input literals for a bound range with any pseudo-Boolean encoding (generalised totaliser, binary adder, dynamic polynomial watchdog, cardinality-based, inverting and double wrappers, and the free functions that pick one), for every bound in the range the enforcing literals together with the clauses admit exactly the input assignments whose weighted sum satisfies it. Reported weight sums and next-higher, next-lower or coarsened bounds are correct: no attainable sum lies strictly between a bound and its neighbour, and a coarsened upper bound never exceeds, a coarsened lower bound never falls below the bound asked for. Bounds not encoded, unsatisfiable or trivial are reported as such.",
  ["inputs", "histories"], "all weighted literal lists (also repeated literals), ranges and bounds, all encodings and wrappers",
  "Tests check a few fixed weight vectors and bounds.",
  ["src/encodings/pb/mod.rs", "src/encodings/pb/gte/mod.rs", "src/encodings/pb/adder.rs", "src/encodings/pb/dpw/mod.rs", "src/encodings/pb/simulators.rs", "src/encodings/totdb/mod.rs", "src/encodings/nodedb.rs"],
  [("encoders", "BoundUpper/BoundLower/BoundBoth of each type")],
  ["clauses and enforcing literals, projected on the inputs by exhaustive or SAT oracle"])

p("C10", "Growing an incremental encoding keeps every bound exact",
  "For any history of adding input literals, reserving variables, encoding or extending bound ranges (upper, lower, both) and enforcing bounds on one incremental encoding, every bound reported as enforceable admits exactly the input assignments satisfying it over all literals added up to the last (re-)encoding. Clauses emitted earlier stay valid: no previously produced clause excludes an assignment that the bounds asked for allow, and re-encoding an already encoded range adds nothing that changes it. Tightening bounds in any order gives the same answers as encoding from scratch. (A generalised totaliser promises only the range it was last asked for, as taking in further literals may replace earlier outputs.)",
  ["histories", "inputs"], "all sequences of extend, reserve, encode-change and enforce over small encodings",
  "Tests have one or two fixed sequences per encoding.",
  ["src/encodings/card/totalizer/mod.rs", "src/encodings/pb/gte/mod.rs", "src/encodings/pb/adder.rs", "src/encodings/pb/dpw/mod.rs", "src/encodings/totdb/mod.rs", "src/encodings/nodedb.rs", "src/encodings/card/simulators.rs", "src/encodings/pb/simulators.rs"],
  [("lazy encode state", "totdb semantics tracking, adder node flags"), ("database extension", "nodedb, encode_*_change")],
  ["event log of encode and enforce calls with all clauses, replayed against an arithmetic oracle"])

p("C11", "Encodings only create fresh variables and report honest statistics",
  "Every variable in a produced clause or enforcing literal is either an input literal's variable or one newly obtained from the supplied variable manager during this or an earlier call on the same encoding; variables already handed out are never reused. The reported numbers of clauses and variables equal what was actually delivered to the collector and taken from the manager, cumulatively over incremental calls. Encoders ask for no variable and add no clause beyond the ones they report, also when the collector or manager is shared between encodings.",
  ["inputs", "histories"], "all encodings, inputs, ranges and interleavings of several encodings over one manager",
  "Tests compare fixed clause counts on a few inputs and never audit the variables.",
  ["src/encodings/mod.rs", "src/encodings/card/totalizer/mod.rs", "src/encodings/pb/gte/mod.rs", "src/encodings/pb/adder.rs", "src/encodings/pb/dpw/mod.rs", "src/encodings/am1/mod.rs", "src/encodings/totdb/mod.rs"],
  [("variable managers", "ManageVars::new_var"), ("statistics", "EncodeStats")], ["auditing collector and auditing variable manager"])

p("C12", "Certified encodings log proofs that a VeriPB checker accepts",
  "For every certified cardinality and pseudo-Boolean encoding (totaliser, generalised totaliser, the wrappers around them) and the certified encoding of single constraints, any input and any bound range (from scratch or incrementally grown), the proof written alongside the clauses is accepted step by step by an independent cutting-planes/redundance checker started from the stated input constraints. Every clause handed to the collector is present in the checker's constraint database under the identifier it was handed over with, and the clauses equal those of the uncertified encoding up to the same enforced bounds.",
  ["inputs", "histories"], "all inputs, ranges and growth histories of the certified encoders",
  "The proof tests skip checking because no VeriPB binary is present; where it is present they use a few fixed inputs.",
  ["src/encodings/cert.rs", "src/encodings/card/cert.rs", "src/encodings/pb/cert.rs", "src/encodings/totdb/cert.rs", "src/encodings/card/totalizer/mod.rs", "src/encodings/pb/gte/mod.rs"],
  [("proof logging while encoding", "totdb/cert.rs"), ("proof writer", "pigeons")], ["proof text, checked online by an independent checker"])

p("C13", "Instance conversions preserve models over the original variables",
  "Adding constraints in any order and form, merging instances, removing duplicates, sanitising, normalising, simplifying, compacting or reindexing variables and converting between clausal, cardinality and pseudo-Boolean form keep the set of satisfying assignments restricted to the original variables (through the stated variable mapping where one is returned). Auxiliary variables introduced never coincide with variables used by the instance's constraints or objectives. Reported sizes, variable ranges and evaluation of an assignment agree with the instance's contents.",
  ["inputs", "histories"], "all small instances and chains of transformations",
  "Tests check one or two instances per conversion.",
  ["src/instances/sat.rs", "src/instances/opt.rs", "src/instances/multiopt.rs"],
  [("conversions", "into_cnf, into_pbs, sanitize, extend, reindex")], ["model sets before and after, by exhaustive evaluation"])

p("C14", "Objective representations and rewrites keep every assignment's value",
  "An objective built from any mix of soft literals and soft clauses with any weights and offset gives each assignment the cost it states (sum of the weights of true soft literals and falsified soft clauses plus the offset). Normalising, changing between weighted and unweighted form, turning soft clauses into soft literals plus hard clauses, extending, reindexing and every iterator over it keep that cost for each assignment of the original variables (minimised over the introduced ones). Weight sums, counts and maxima reported agree with the contents.",
  ["inputs", "histories"], "all small objectives with repeated, opposing and negative-weight literals and repeated or unit soft clauses",
  "Tests build two or three objectives.",
  ["src/instances/opt.rs", "src/instances/multiopt.rs"],
  [("storage kinds and conversion", "Objective and IntObj variants"), ("blit creation", "into_soft_lits / as_soft_lits")], ["cost of every assignment before and after"])

p("C15", "MaxSAT solving and core-guided search return true optima",
  "Solving any optimisation instance with the provided MaxSAT algorithm returns an assignment that satisfies all hard constraints and whose cost is the minimum over all satisfying assignments, and reports unsatisfiable exactly if the hard constraints are. The reported cost equals the cost of the returned assignment. This holds with any bundled solver underneath; a front end that eliminates variables may refuse to solve incrementally, but never gives a wrong optimum.",
  ["inputs"], "all small optimisation instances incl. empty objectives, offsets, negative weights, unsatisfiable hard parts",
  "One or two fixed instances are solved.",
  ["src/algs/maxsat.rs", "src/instances/opt.rs"],
  [("solution-improving search", "SolutionImprovingSearch")], ["returned value vs. brute force optimum"])

p("C16", "Solver interfaces answer correctly over every incremental history",
  "For any history of adding clauses, reserving variables, setting phases, solving with and without assumptions and reading results through any bundled solver interface, a satisfiable answer comes with values that satisfy all clauses added and all assumptions of that call, and an unsatisfiable answer is right and comes with a core that only uses negated assumptions of that call and is entailed by the clauses. Answers depend only on what was added and assumed, not on earlier calls, and values or cores asked for in the wrong state are refused with an error. Reported numbers of clauses, solves, outcomes and the maximum variable match the history.",
  ["histories", "inputs"], "all call histories over small formulas, all bundled solver front ends and configurations",
  "The solver tests run a handful of instances and two fixed incremental sequences.",
  ["cadical/src/lib.rs", "kissat/src/lib.rs", "minisat/src/core.rs", "minisat/src/simp.rs", "glucose/src/core.rs", "glucose/src/simp.rs", "batsat/src/lib.rs", "ipasir/src/lib.rs", "src/solvers/mod.rs", "src/solvers/simulators.rs"],
  [("state tracking", "InternalSolverState in each wrapper"), ("FFI glue", "*/src, cpp-extension")], ["API history log with reference model"])

p("C17", "Propagation, limits, callbacks and solver extras honour their contract",
  "Asking a solver to propagate assumptions returns only literals entailed by unit propagation from them together with the clauses, and reports a conflict only if there is one, leaving later answers unaffected (that all consequences are found is claimed only for Minisat and Glucose without eliminated variables and for CaDiCaL before any search or simplification, without a pending interrupt). A terminator callback that asks to stop, an interrupt or an exhausted limit makes solving return undecided (never a wrong answer), callbacks are invoked only while attached and solving, and learned clauses reported are entailed and no longer than asked. Temporary clauses, literal flipping, simplification, freezing, phases and options influence at most the call they are documented to influence and never the correctness of an answer.",
  ["histories", "schedules"], "all call histories mixing extras with solving, callbacks firing at any invocation, interrupts from other threads at any time",
  "Each extra has one test on one instance.",
  ["cadical/src/lib.rs", "kissat/src/lib.rs", "minisat/src/core.rs", "minisat/src/simp.rs", "glucose/src/core.rs", "glucose/src/simp.rs", "batsat/src/lib.rs", "src/solvers/mod.rs", "ipasir/src/lib.rs"],
  [("callback registration", "attach_*/detach_*"), ("extension C++ entry points", "cadical/cpp-extension, minisat/glucose cpp")], ["API history log with reference model", "callback event log"])

p("C18", "External solver processes are driven and read faithfully",
  "Whatever external solver executable is configured, with input by file, temporary file or pipe and output by file or pipe, the process receives exactly the clauses added, its answer and assignment are reported exactly as it printed them, and its failures (crash, an exit code that is none of 0, 10 and 20, malformed, missing or contradictory output, early exit without reading input, missing executable) surface as errors, never as a wrong answer, panic or hang. Later state queries agree with that answer. (An answer given without reading the whole input may be reported either faithfully or as an error.)",
  ["fault_sequences", "configurations", "inputs"], "all input and output modes, all behaviours of the child process, instances from empty to larger than a pipe buffer",
  "Tests run one real solver on small instances.",
  ["src/solvers/external.rs"],
  [("process driver", "external::Solver::solve"), ("pipe handling", "call_external")], ["fake solver recording its input and emitting scripted output"])

p("C19", "No memory error, leak of foreign memory or undefined behaviour is reachable",
  "No sequence of safe Rust calls and no documented use of the C interface leads to an invalid memory access, use of freed solver memory, uninitialised read, double free, integer overflow panic in foreign code or data race, including dropping objects in any order, callbacks with captured state, moving solvers and iterators between threads, and interrupting from other threads. Everything allocated by a solver handle, encoding handle or proof tracer is released when it is dropped.",
  ["histories", "schedules", "inputs"], "all call histories of the solver front ends, C interface and data structures using unsafe code",
  "The tests run without sanitizers in the default setting and never drop things in unusual orders.",
  ["cadical/src/lib.rs", "cadical/src/prooftracer.rs", "kissat/src/lib.rs", "minisat/src/core.rs", "glucose/src/core.rs", "ipasir/src/lib.rs", "capi/src/lib.rs", "capi/src/encodings/mod.rs", "src/encodings/totdb/mod.rs", "src/types/mod.rs"],
  [("unsafe blocks and FFI ownership", "solver wrappers, capi, nodedb iterators")], ["AddressSanitizer/LeakSanitizer/UBSan, ThreadSanitizer and Miri reports"])

p("C20", "The C interface behaves like the Rust encodings it exposes",
  "For every encoding reachable through the C interface and every history of adding literals, reserving, encoding, extending ranges and enforcing bounds, the clauses delivered to the callback, the enforcing literal and the status code have the same meaning as the corresponding Rust encoding: the same bounds become enforceable and admit exactly the same input assignments. Bounds that hold trivially are answered with the literal 0. New variables are taken in sequence after the given count (none, if variables for upper bounds were reserved), which is updated to the highest used. Invalid literals, unencoded or unsatisfiable bounds and bad precisions are answered with the documented code without any clause or crash.",
  ["histories", "inputs"], "all call histories of all exported encoding functions",
  "Each C test runs one fixed sequence.",
  ["capi/src/encodings/mod.rs", "capi/src/encodings/am1.rs", "capi/src/encodings/card.rs", "capi/src/encodings/pb.rs", "capi/src/encodings/dpw.rs", "capi/rustsat.h", "codegen/src/main.rs"],
  [("exported functions", "capi/src/encodings/*"), ("callback adapters", "ClauseCollector, VarManager in capi")], ["callback log with arithmetic oracle", "C program built against the header and static library"])

p("C21", "Variable managers hand out fresh variables and keep mappings consistent",
  "A variable manager never hands out a variable twice nor one it was told is used, over any history of new-variable, mark-used, increase, combine and forget operations, and its counts and next-free position match that history. Object- and reindexing managers map each object or input variable to one variable, the same one every time, distinct for distinct objects, and the inverse mapping returns the original exactly while the variable is still known. Collectors, encodings and instances sharing a manager therefore never clash.",
  ["histories"], "all operation histories on every variable manager",
  "Two or three short sequences are tested.",
  ["src/instances/sat.rs", "src/instances/mod.rs"],
  [("managers", "BasicVarManager, ObjectVarManager, ReindexingVarManager, RandReindVarManager")], ["operation history against a reference map"])

p("C22", "Compressed and plain files are read and written identically",
  "Any instance written to a path with a supported compression extension and read back (also through an independent decompressor or compressor, with multi-member archives where the format allows) equals the same instance written to a plain file. Content is complete when the call returns, however large, and input/output errors are reported rather than truncating the data.",
  ["inputs", "fault_sequences"], "all instance sizes and all supported extensions, readers and writers failing at any byte",
  "Tests read three fixed archives and never inject an I/O failure.",
  ["src/instances/fio/mod.rs", "src/instances/sat.rs", "src/instances/opt.rs", "src/instances/multiopt.rs"],
  [("open_compressed_uncompressed_read/write", "src/instances/fio/mod.rs")], ["bytes on disk vs. system tools; failing readers and writers"])

p("C23", "Shared totaliser and node databases keep their structural invariants",
  "For every history of building, merging, re-weighting and encoding over a shared totaliser database, each node's reported length, value range, leaves and weights equal those implied by its leaves and connections, each output literal obtained is implied by (and, when the lower side is encoded, implies) the corresponding count or sum over its leaves, and node identifiers stay valid until drained. Garbage collection and draining keep the meaning of everything still referenced. Connections with offsets, divisors and length limits are covered as documented.",
  ["histories"], "all construction and encoding histories of small databases",
  "Tests build single trees with a few literals.",
  ["src/encodings/totdb/mod.rs", "src/encodings/nodedb.rs", "src/encodings/card/totalizer/referenced.rs", "src/encodings/pb/gte/referenced.rs", "src/encodings/pb/dpw/referenced.rs"],
  [("node database", "nodedb::NodeById"), ("totaliser database", "totdb::Db")], ["database API and clauses"], hook="uses the existing _internals feature")

p("C24", "Command line tools preserve the meaning of what they convert",
  "Each conversion tool (between CNF, WCNF, MCNF and OPB, shuffling, splitting objectives, integer-program export) writes, for any readable input, an instance whose satisfying assignments over the original variables and objective values (up to the offset and renaming it reports) are those of the input. The solution checker accepts exactly the assignments that satisfy the instance and prints their true cost, and the enumerator prints every solution exactly once. Bad input or options end with a diagnostic and a failing exit status, not a wrong output. (The objective splitter exits with 1 if there is nothing to split; constants of objectives are kept only as far as the output format states them.)",
  ["inputs", "configurations"], "all instances and option combinations of the tools",
  "Only two of the binaries have a smoke test or snapshot.",
  ["tools/src/bin/cnf2opb.rs", "tools/src/bin/wcnf2opb.rs", "tools/src/bin/mcnf2opb.rs", "tools/src/bin/opb2cnf.rs", "tools/src/bin/opb2wcnf.rs", "tools/src/bin/opb2mcnf.rs", "tools/src/bin/mo2ilp.rs", "tools/src/bin/shuffledimacs.rs", "tools/src/bin/gbmosplit.rs", "tools/src/bin/check-solution.rs", "tools/src/bin/enumerator.rs", "tools/src/bin/propagator.rs", "tools/src/lib.rs", "tools/src/parsing.rs"],
  [("tool binaries", "tools/src/bin/*.rs")], ["tool output parsed by an independent reader, compared by brute force"])

p("C25", "Atomic implication encodings state exactly the implication they name",
  "Every small implication building block (literal, clause or cube on one side implying literal, clause, cube or cardinality/pseudo-Boolean bound on the other, and reifications) yields clauses satisfied by exactly those assignments of the literals involved that satisfy the named implication, for any literals (also repeated or opposing), sizes including empty, and any bound.",
  ["inputs"], "all small literal tuples and bounds",
  "Tests check one fixed clause set each.",
  ["src/encodings/atomics.rs"], [("clause generators", "src/encodings/atomics.rs")], ["model set of the emitted clauses"])

p("C26", "The Python interface behaves like the library underneath",
  "Through the Python module, literals, clauses, CNFs and encodings have the values and the semantics of their Rust counterparts: integers map to the same literals, containers index, slice, iterate and compare like Python sequences (negative and out-of-range indices included), documented default arguments exist, modifications during iteration are detected, encodings admit exactly the right assignments for every bound, and errors arrive as ordinary Python exceptions, never as a Rust panic or an interpreter crash.",
  ["inputs", "histories"], "all call sequences of the Python classes",
  "There are no tests of the Python module in the baseline.",
  ["pyapi/src/lib.rs", "pyapi/src/types.rs", "pyapi/src/instances.rs", "pyapi/src/encodings/mod.rs", "pyapi/src/encodings/am1.rs", "pyapi/src/encodings/card.rs", "pyapi/src/encodings/pb.rs"],
  [("pyo3 wrappers", "pyapi/src/*")], ["Python-level results vs. Python reference model"])

p("C27", "Benchmark generators encode exactly the problem they describe",
  "For every problem input, the generated single- or multi-objective instance has, per solution of the described problem (knapsack, assignment, facility location, clustering), a satisfying assignment with precisely that solution's costs, and no satisfying assignment corresponds to an infeasible solution or has a lower cost than its solution.",
  ["inputs", "configurations"], "all small problem inputs and encoding choices",
  "No test covers the generators' semantics.",
  ["tools/src/encodings/knapsack.rs", "tools/src/encodings/assignment.rs", "tools/src/encodings/facilitylocation.rs", "tools/src/encodings/cnf/clustering.rs", "tools/src/encodings/cnf/knapsack.rs", "tools/src/encodings/pb/knapsack.rs", "tools/src/encodings/pb/assignment.rs", "tools/src/encodings/pb/facilitylocation.rs", "tools/src/bin/encodings.rs"],
  [("generators", "tools/src/encodings")], ["Pareto front of the generated instance vs. brute force on the problem"])

p("C28", "CaDiCaL proofs and proof events certify every answer",
  "Every clause event delivered to a connected proof tracer is consistent: identifiers are unique, deletions name live clauses, original clauses are those added through the interface, each derived clause follows from the live ones, and an unsatisfiable result is concluded with a derivation of the empty clause or of a clause over the assumptions. Proof files written in any supported format state the same derivation. Tracers are connected before clauses are added (as the solver requires); disconnecting, reading back and replacing them at any point never changes answers.",
  ["histories", "inputs"], "all formulas, assumption histories and tracer connection points",
  "Tests count events on one instance.",
  ["cadical/src/lib.rs", "cadical/src/prooftracer.rs", "cadical/cpp-extension"],
  [("tracer bridge", "cadical/src/prooftracer.rs")], ["event stream checked online by an independent RUP checker"])

p("C29", "The proof writing library emits exactly the steps its caller asked for",
  "For every sequence of proof operations issued through the proof-writing interface, the text produced is well-formed for the documented VeriPB version and denotes those operations on those operands (constraints, coefficients, polarity, order and precedence of operations, bounds, hints and subproof goals), and each identifier returned to the caller is the one a checker assigns to that step. Order definitions, subproofs, output sections and conclusions are emitted completely and in the required order.",
  ["histories", "inputs"], "all operation sequences and constraint shapes",
  "Tests compare a few emitted lines as text.",
  ["pigeons/src/lib.rs", "pigeons/src/types.rs", "pigeons/src/ops.rs"],
  [("proof writer", "pigeons Proof"), ("operation sequences", "pigeons OperationSequence")], ["emitted text parsed and executed by an independent checker"])

p("C30", "Serialised values are restored unchanged",
  "Every serialisable value (literals, clauses, constraints, assignments, instances, objectives, encodings and their databases) deserialises, from every format able to represent it, to an equal value with the same meaning; an encoding restored in the middle of its history continues exactly as the original would.",
  ["inputs", "histories"], "all values and all points in an encoding's history",
  "No test serialises anything.",
  ["src/types/mod.rs", "src/types/constraints.rs", "src/instances/sat.rs", "src/instances/opt.rs", "src/encodings/totdb/mod.rs", "src/encodings/pb/dpw/mod.rs"],
  [("serde derives", "feature serde")], ["value before and after, and continuation of both copies"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
