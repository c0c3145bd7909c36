#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single place where the property texts are maintained)."""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, state=None):
    a = {"files": files, "mechanism": mechanism}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})


prop("C01", "Garbage collection never frees something still reachable",
     "Whenever the collector runs, every object that a live model, expression or compiler table can still reach "
     "survives: for each kind of syntax node and item, marking it marks every sub-expression, string, array, set, "
     "annotation, location and declaration it holds, and every registered root object marks everything it holds. "
     "No heap component of any node kind is left to be swept while its owner is live.",
     ["inputs", "histories"], "every model, every point of compilation at which a collection may run, every node and item kind",
     "Collections happen at memory thresholds; the small models of the test suite hardly ever collect while the component in question is only reachable through one field.",
     ["lib/ast.cpp", "lib/gc.cpp", "include/minizinc/gc.hh", "include/minizinc/ast.hh", "include/minizinc/model.hh", "include/minizinc/hash.hh", "include/minizinc/flatten_internal.hh"],
     "Expression::mark, Item::mark, Model::mark and every GCMarker subclass push each managed field; the sweep frees the unmarked.")

prop("C02", "A copied expression or item has every component of the original",
     "Copying any expression, item or whole model gives an object in which every component (operands, arguments, "
     "names, flags, types, domains, bodies, annotations, generators, captured declarations, built-in evaluators) "
     "stems from the same component of the original, so a copied function or constraint means the same as the original.",
     ["inputs"], "every expression and item kind and each of its components",
     "Tests compare end results for a few models; a dropped flag or component only shows when exactly that node kind is copied and the component matters later.",
     ["lib/copy.cpp", "include/minizinc/copy.hh", "include/minizinc/ast.hh"],
     "copy(EnvI&, CopyMap&, Expression*/Item*/Model*) rebuilds each kind with its constructor and setters.")

prop("C03", "Equal expressions are equal in every component and hash alike",
     "Two expressions are treated as equal (for common-subexpression elimination and de-duplication) only if all "
     "components that determine their meaning agree, equal expressions always have equal hashes, and neither the "
     "hash nor the structural order of expressions depends on memory addresses.",
     ["inputs"], "every pair of expressions of every kind",
     "CSE on a wrong equality needs two expressions differing in exactly the ignored component; the suite contains few such pairs, and hash disagreement only loses sharing.",
     ["lib/ast.cpp", "include/minizinc/ast.hh", "include/minizinc/hash.hh"],
     "Expression::equalInternal, the per-kind rehash functions, Expression::compare, ExpressionHash/ExpressionEq, IdEq.")

prop("C04", "Traversals reach every sub-expression of every node kind",
     "Every generic walk over an expression or a model visits each sub-expression (operands, arguments, elements, "
     "indices, generators, conditions, branches, local declarations, domains, index sets and annotations) and each "
     "item, and reports each node kind to its own callback.",
     ["inputs"], "every expression kind, every child slot, every item kind",
     "A skipped child only matters if a pass needs to see something that occurs solely there; tests exercise few kind/slot/pass combinations.",
     ["include/minizinc/astiterator.hh", "include/minizinc/model.hh", "include/minizinc/iter.hh"],
     "BottomUpIterator/TopDownIterator run(), iter_items/ItemIter dispatch.")

prop("C05", "Printed FlatZinc, output model and plain text parses back to the same expression",
     "When the plain printer writes a model, FlatZinc file or output model, the text is accepted by the grammar and read back with the "
     "same structure: each operator is written with the symbol the parser reads for it, operands are parenthesised whenever the grammar "
     "would otherwise group them differently (regrouping a chain of ++ excepted), annotations stay attached to the expression that has "
     "them, every component of every node is written, string contents are escaped, every identifier that needs quoting is quoted, and "
     "floating point values are written with at least 16 significant digits and never as integers.",
     ["inputs"], "every expression kind in every slot of every other kind, every operator pair, every item kind, every identifier spelling and string content",
     "Round trips for unusual operator nestings, quoted identifiers or special characters are not in the suite; a misplaced parenthesis silently changes a value.",
     ["lib/prettyprinter.cpp", "include/minizinc/prettyprinter.hh", "lib/parser.yxx", "lib/lexer.lxx", "include/minizinc/values.hh"],
     "PlainPrinter (need_parentheses/precedence), Printer::quoteId and escapeStringLit against the LALR grammar and the token rules; operator<< of FloatVal.")

prop("C06", "Each operator evaluates to its own meaning with operands in order",
     "Evaluating a binary or unary operator on fixed operands computes exactly that operator's mathematical "
     "function of the left and right operand in that order, for every operand type; in particular comparison "
     "operators, set operators and logical connectives are never swapped, negated or mapped to one another, and "
     "the operator name, negation and mirror tables agree with them.",
     ["inputs"], "every operator, operand type and evaluation route",
     "There are about 30 operators times 6 operand types times several routes (evaluation, bounds, optimisation, printing); tests sample some combinations and values.",
     ["lib/eval_par.cpp", "lib/ast.cpp", "lib/builtins.cpp", "lib/flatten/flatten_binop.cpp", "include/minizinc/ast.hh"],
     "eval_* switches over the operator kinds, op-to-string tables, comparison dispatch.")

prop("C07", "Integer arithmetic never overflows silently",
     "Every addition, subtraction, multiplication, negation, division, increment and power on model integers either "
     "gives the mathematically exact value or stops with an overflow error (or an explicit infinity); no model "
     "integer is wrapped, truncated or combined through unchecked machine arithmetic.",
     ["inputs"], "all pairs of 64-bit operands, including the extreme values and infinities",
     "The failing operands are a vanishing fraction of the 2^128 pairs; tests use small numbers and a few extremes.",
     ["include/minizinc/values.hh", "lib/values.cpp", "lib/builtins.cpp", "lib/eval_par.cpp"],
     "IntVal operators route through safePlus/safeMinus/safeMult/safeDiv/safeMod whose guards bound the operands.")

prop("C08", "Division by zero is caught before it is executed",
     "No division or remainder on model numbers is executed with a zero divisor: on every path from a model value "
     "to an integer or floating-point division or remainder the divisor has been tested against zero (or is a "
     "non-zero constant), and the zero case becomes an undefined result or an error message.",
     ["inputs"], "every division site and every divisor value",
     "A zero divisor must reach one particular site; integer division by zero kills the process.",
     ["include/minizinc/values.hh", "lib/eval_par.cpp", "lib/builtins.cpp", "lib/flatten/flatten_binop.cpp", "lib/flatten.cpp"],
     "zero tests that dominate the division sites; IntVal / and % raise an arithmetic error on zero.")

prop("C09", "Built-in functions only touch arguments their declared signature has",
     "Each built-in function of the library is evaluated by code that reads only argument positions which exist in "
     "every signature it serves and ignores none of them, evaluates each argument as the kind of value declared there "
     "(bool, int, float, string, set, array), and produces the declared kind of result.",
     ["inputs", "programs"], "every built-in, overload, argument position and call",
     "A mismatch needs a call of that overload with that shape of argument; there are several hundred overloads.",
     ["lib/builtins.cpp", "lib/optimize_constraints.cpp", "share/minizinc/std/stdlib/*.mzn", "share/minizinc/std/*.mzn"],
     "register_builtins binds names and argument types to evaluators, checked against the library's declarations.")

prop("C10", "Every library function without a body has an implementation",
     "Every function the standard library declares without a body can be evaluated by the compiler (a registered "
     "evaluator with the same name and argument types) or is a constraint that may appear in FlatZinc; the "
     "solver-specific libraries redefine only functions the standard library declares, with matching parameters, and a "
     "backend's implementation of a constraint takes exactly the arguments its declaration has, as the declared kinds. Every "
     "library file a model may include loads with every solver library: what it includes exists, and what it calls is "
     "declared by it or by something it includes.",
     ["programs", "configurations"], "every declaration of every library file, every solver library shipped",
     "Nothing fails until a model uses the particular function with the particular solver.",
     ["share/minizinc", "lib/builtins.cpp", "solvers/MIP", "solvers/gecode", "solvers/nl"],
     "register_builtins, constraint registries of the backends, the .mzn library.")

prop("C11", "Solver subprocesses are supervised to their end on every path",
     "When a solver process is run, each created pipe end is closed, the child is waited for, and the signal "
     "handlers are restored on every exit of the supervising code; reads never overrun their buffer, and a failed "
     "system call (pipe, fork, select, read) is noticed instead of being used as a count, descriptor or process id.",
     ["fault_sequences", "histories"], "every failure of a system call, every order of output, exit and signal events",
     "Tests run well-behaved solvers; system call failures and signals at awkward moments do not occur there.",
     ["include/minizinc/process.hh", "solvers/fzn/fzn_solverinstance.cpp", "solvers/nl/nl_solverinstance.cpp", "solvers/mzn/mzn_solverinstance.cpp"],
     "Process::run and its read/select loop.")

prop("C12", "Text inside JSON output is always escaped",
     "Every piece of text that comes from a model, data file, solver or the system and is written inside a string "
     "of the JSON the tools produce (message streams, model interface and types, solver lists, JSON FlatZinc, JSON "
     "solutions, statistics) passes through an escaping function first, and the escaping covers every character JSON "
     "forbids inside strings.",
     ["inputs"], "every message, identifier, file name, string value and character",
     "Tests contain few quotes, backslashes or control characters in names and messages.",
     ["lib/prettyprinter.cpp", "lib/exception.cpp", "lib/astexception.cpp", "lib/statistics.cpp", "lib/solver.cpp", "lib/solns2out.cpp", "lib/solver_config.cpp", "lib/output.cpp"],
     "Printer::escapeStringLit at every stream insertion between quotes.")

prop("C13", "Reported solver status is never stronger than what was established",
     "Optimality or completeness, unsatisfiability and unboundedness are reported only for the solver outcomes that "
     "mean them; time-outs, limits, interrupts and errors are never reported as a proof, every status has its own "
     "text in plain and JSON output, and the text is recognised back as the same status.",
     ["fault_sequences", "inputs"], "every status code of every backend, every output format",
     "Most status codes (limits, numerical trouble, interrupts) do not occur in the test runs, and several backends are not installed.",
     ["solvers/MIP", "solvers/gecode", "solvers/nl", "lib/solns2out.cpp", "include/minizinc/solver_instance.hh"],
     "convertStatus tables of the backends, status-to-text maps in the solution printer.")

prop("C14", "Command-line options are parsed without reading past the arguments",
     "Every option that takes a value checks that a value is present before reading it, rejects numbers that do not "
     "parse completely, and every option the help text documents is accepted by the parser of the component that documents it.",
     ["inputs", "configurations"], "every argument vector, including truncated ones",
     "Tests pass complete, valid option lists.",
     ["lib/solver.cpp", "lib/flattener.cpp", "lib/solns2out.cpp", "include/minizinc/utils.hh", "solvers", "minizinc.cpp", "mzn2doc.cpp"],
     "processOption/processOptions implementations and CLOParser against printHelp texts.")

prop("C15", "Lookup results that may be missing are tested before use",
     "A lookup or type test that can come back empty (declaration of an identifier, function match, optional body, "
     "domain or condition, dynamic kind test) is never dereferenced unless the path has established that it is present.",
     ["inputs"], "every model that leaves the optional part out, every path",
     "The crash needs a model lacking exactly that optional part at that point.",
     ["lib", "solvers", "include/minizinc"],
     "dynamicCast/matchFn/decl()/e()/domain() results and the branches that dominate their uses.")

prop("C16", "Compilation is reproducible",
     "Compiling the same model and data with the same options twice gives byte-identical FlatZinc, output model and "
     "solution text: no result depends on memory addresses, unordered container order, time, random numbers, "
     "locale, environment or process identity except where the user asked for it.",
     ["inputs", "histories"], "every model and every memory layout, run and machine state",
     "One run cannot show it, and address-space randomisation changes order only occasionally.",
     ["lib", "solvers", "include/minizinc"],
     "orders and hashes used by containers that are iterated, calls of clock, random and environment functions.")

prop("C17", "File errors are noticed, never silently ignored",
     "Whenever a file is opened for reading or writing on behalf of the user, the code tests that this succeeded "
     "before its content is trusted, and reports an error otherwise; output files are never silently lost.",
     ["fault_sequences", "inputs"], "every file opened and every failure to open it",
     "Tests run with readable inputs and writable outputs.",
     ["lib/flattener.cpp", "lib/solver.cpp", "lib/solns2out.cpp", "lib/parser.cpp", "lib/json_parser.cpp", "lib/file_utils.cpp", "minizinc.cpp", "mzn2doc.cpp", "solvers"],
     "ifstream/ofstream construction or open() and the checks that follow.")

prop("C18", "Every failure ends in a reported error and a failing exit status",
     "Every error raised anywhere in the compiler or a backend is of a type some enclosing handler reports, the "
     "driver then exits with a failing status, library code never terminates the process on its own, and nothing "
     "is raised from a destructor or swallowed without a reason.",
     ["inputs", "fault_sequences"], "every raise site, every handler, every entry point",
     "Error paths are many and tests trigger a small part of them.",
     ["lib/exception.cpp", "include/minizinc/exception.hh", "include/minizinc/astexception.hh", "minizinc.cpp", "mzn2doc.cpp", "lib", "solvers"],
     "exception hierarchy, handlers in the entry points, exit/abort/terminate calls.")

prop("C19", "Orderings used for sorting and searching are consistent",
     "Every ordering used to sort, search or key an ordered table is irreflexive, asymmetric and transitive, treats "
     "incomparable elements as equivalent consistently, and the six relational operators of each value type agree with one another.",
     ["inputs"], "every pair and triple of values of each compared type",
     "An inconsistent comparator misbehaves only for particular pairs and container sizes.",
     ["include/minizinc/values.hh", "include/minizinc/utils.hh", "include/minizinc/type.hh", "lib", "solvers"],
     "operator< and friends, comparator objects handed to sort/map/set.")

prop("C20", "Solver configurations are read back with the fields they are written with",
     "Every field a solver configuration file may contain is stored in the matching property, the machine-readable "
     "listing of configurations writes each property under the name it is read by and with the same kind of value, "
     "and a field of the wrong kind is rejected with a message.",
     ["configurations"], "every configuration file, field and value kind",
     "The tests load a handful of configurations and do not compare the listing field by field.",
     ["lib/solver_config.cpp", "include/minizinc/solver_config.hh"],
     "SolverConfig::load and SolverConfig::toJSON.")

prop("C21", "Errors reported by linear solvers are never ignored",
     "Every call into a linear-programming library that can fail has its result examined: the failure is reported "
     "or handled before the model, the solution values, bounds or status obtained from the call are used.",
     ["fault_sequences"], "every library call in every backend and every error it may return",
     "The commercial libraries are not installed for the tests, and errors do not occur with the one that is.",
     ["solvers/MIP"],
     "return codes of the dynamically loaded solver functions and the assertions that follow.")

prop("C22", "Numbers in models, data, options and solver output are parsed completely",
     "Text converted to a number is checked for range and completeness: a literal too large for the type or "
     "followed by rubbish is reported, never silently clipped, wrapped or read as zero.",
     ["inputs"], "every digit string",
     "Out-of-range and malformed numbers are rare in tests.",
     ["lib/lexer.lxx", "lib/json_parser.cpp", "lib/solns2out.cpp", "lib/flattener.cpp", "include/minizinc/utils.hh", "solvers"],
     "strtol/strtod/stoi/stream extraction sites and their checks.")

prop("C23", "Objects under construction cannot be collected",
     "Syntax nodes, strings and arrays managed by the collector are only allocated while collection is held off, "
     "every hold is released on all exits of the code that took it, and a fresh object is linked to a root or "
     "protected before collection may run again.",
     ["histories", "inputs"], "every allocation site, every path to it, every collection point",
     "A missing hold only matters if a collection happens to trigger right there.",
     ["lib/gc.cpp", "include/minizinc/gc.hh", "lib", "solvers"],
     "GCLock scopes around allocations of ASTNode/ASTChunk subclasses.")

prop("C24", "No reference into a growing container is used after it grew",
     "A reference, pointer or iterator into a container is never used after an operation on the same container "
     "that may move or remove its elements.",
     ["inputs"], "every input size that makes the container reallocate, every path",
     "Reallocation happens at particular sizes; a stale reference often still reads the old value.",
     ["lib", "solvers", "include/minizinc"],
     "references bound to back()/operator[]/begin()/find() and later push_back/insert/erase/resize calls.")

prop("C25", "No object is used with uninitialised members",
     "Every constructor leaves every scalar member of the object with a defined value before any code can read it.",
     ["inputs", "configurations"], "every constructor of every class and each of its scalar members",
     "Uninitialised memory is often zero in tests.",
     ["include/minizinc", "lib", "solvers"],
     "constructor initialisers, in-class initialisers and constructor bodies.")

prop("C26", "Every kind of node, operator and type is handled where kinds are distinguished",
     "Wherever the code distinguishes the kinds of expressions, items, operators, base types or solver statuses, "
     "each kind is either handled or rejected with an error; none silently falls through into another kind's "
     "handling or out of the decision.",
     ["inputs"], "every distinguishing decision times every kind",
     "Each missing pair needs its own model; tests cover the common ones.",
     ["lib", "solvers", "include/minizinc"],
     "switch statements over the enumerations of the syntax tree and value types.")

prop("C27", "Each solution is completely written out before the next is awaited",
     "Every solution, status line and message sent to the user is terminated by its separator and flushed before "
     "the program waits for or computes the next one, so output is never lost or merged when the run is interrupted.",
     ["crash_points", "schedules"], "every point at which the process may be interrupted, every output channel",
     "Tests read the output after a normal exit, when everything has been flushed anyway.",
     ["lib/solns2out.cpp", "solvers/gecode/gecode_solverinstance.cpp", "solvers/MIP/MIP_solverinstance.cpp", "solvers/fzn/fzn_solverinstance.cpp"],
     "flush calls on every path that prints a solution or status.")

prop("C28", "Reserved words and special names are recognised consistently",
     "The set of words the printer quotes when used as identifiers is exactly the set the lexer reserves, the "
     "characters allowed in an unquoted identifier agree on both sides, and the escapes the string printer emits "
     "are exactly those the lexer decodes, so every name and string survives a round trip.",
     ["inputs"], "every identifier and string",
     "Tests do not use every keyword as a quoted identifier or every escape.",
     ["lib/lexer.lxx", "lib/prettyprinter.cpp", "lib/json_parser.cpp"],
     "keyword rules of the lexer, the printer's reserved word table, escape and unescape functions.")

prop("C29", "Temporary files and directories are always removed",
     "Every temporary file or directory created while running a solver is owned by an object whose end of life "
     "removes it, and it gets a unique name from the system; it is never leaked on an error path.",
     ["fault_sequences", "histories"], "every exit of the code that created the file",
     "Tests do not look at the temporary directory after failures.",
     ["lib/file_utils.cpp", "include/minizinc/file_utils.hh", "solvers/fzn/fzn_solverinstance.cpp", "solvers/nl/nl_solverinstance.cpp", "solvers/mzn/mzn_solverinstance.cpp"],
     "TmpFile/TmpDir objects and mkstemp/mkdtemp calls.")

prop("C30", "Compiler state changed for a sub-task is restored on every exit",
     "Wherever the compiler temporarily changes shared state for a nested task (call stack, context flags, local "
     "bindings of functions and comprehensions, signal or stream settings), the previous state is restored on "
     "every exit, including errors.",
     ["inputs", "histories"], "every nested task and every way to leave it",
     "Leaving by error and then continuing happens only for undefined sub-expressions in particular positions.",
     ["lib/eval_par.cpp", "lib/flatten.cpp", "lib/flatten", "include/minizinc/flatten_internal.hh", "include/minizinc/eval_par.hh"],
     "RAII guards (CallStackItem, LetPushBindings, ...) and save/restore pairs around binding parameters.")

# ---- properties that static analysis cannot decide here
prop("N01", "Flattening preserves the set of solutions",
     "For every model and data, the assignments satisfying the FlatZinc projected to the model's variables are "
     "exactly the solutions of the model under the relational semantics.",
     ["inputs", "programs"], "every model, data set and solver library",
     "Infinitely many models; tests compare solutions for hundreds.",
     ["lib/flatten.cpp", "lib/flatten", "share/minizinc"], "flat_exp and the library decompositions.")
prop("N02", "Optimisation passes preserve solutions",
     "Removing, unifying and propagating variables and constraints after flattening never adds or loses a solution.",
     ["inputs"], "every FlatZinc model", "Only sampled models are solved before and after.",
     ["lib/optimize.cpp", "lib/optimize_constraints.cpp", "lib/chain_compressor.cpp"], "optimize() and its rules.")
prop("N03", "Linear decomposition for MIP solvers is exact",
     "Domain encodings and linearised constraints admit exactly the integer solutions of the original constraints.",
     ["inputs"], "every domain and coefficient", "Numerical encodings are only sampled.",
     ["lib/MIPdomains.cpp", "share/minizinc/linear"], "MIPD::domain decomposition and the linear library.")
prop("N04", "Computed variable bounds contain every feasible value",
     "The bounds inferred for an expression enclose every value it can take.",
     ["inputs"], "every expression and domain", "Bounds are only compared on examples.",
     ["lib/eval_par.cpp"], "compute_int_bounds and relatives.")
prop("N05", "Type inference accepts exactly the well-typed programs",
     "A program is accepted iff it is well typed, and overload resolution picks the most specific applicable function.",
     ["programs"], "every program", "Tests hold positive and negative samples only.",
     ["lib/typecheck.cpp", "lib/model.cpp", "lib/type_specialise.cpp"], "Typer and Model::matchFn.")
prop("N06", "Every FlatZinc constraint posted to a backend means the same there",
     "Each constraint handed to a solver interface restricts the variables exactly as its FlatZinc definition says.",
     ["inputs"], "every constraint and domain", "Only sampled instances are solved.",
     ["solvers/gecode/gecode_constraints.cpp", "solvers/MIP/MIP_solverinstance.cpp", "solvers/nl"], "constraint posters.")
prop("N07", "Set operations on ranges are exact",
     "Union, intersection, difference and complement of range sets contain exactly the right elements.",
     ["inputs"], "every pair of range sets", "Random testing only samples range structures.",
     ["include/minizinc/iter.hh", "lib/values.cpp"], "range iterators.")
prop("N08", "Compilation terminates for every terminating model",
     "Compilation of a model without unbounded recursion always finishes.",
     ["inputs"], "every model", "Termination cannot be observed by finite tests.",
     ["lib/flatten.cpp", "lib/optimize.cpp"], "worklists and fixpoints.")
prop("N09", "Time limits are honoured within a bounded delay",
     "A run with a time limit stops within a bounded delay of it.",
     ["schedules"], "every timing", "Timing depends on machine and solver.",
     ["include/minizinc/process.hh", "lib/solver.cpp", "lib/flattener.cpp"], "timeouts.")

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
