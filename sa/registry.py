"""which properties are claimed, and how (source of MANIFEST.json)"""
CHECKS = {
    "C01": ("static analysis: field-coverage dataflow over the collector's mark phase (clang AST + CFG control dependence)",
            "Decides, from the class definitions and the interprocedural closure of the mark functions, that every "
            "collectable field is marked unconditionally; does not decide when user code drops a root."),
}
CHECKS["C02"] = ("static analysis: field-coverage dataflow over the copy functions (clang AST, value provenance, control dependence)",
                 "Decides for every component of every node kind that copying carries it over; semantic equivalence of the copied object beyond its components is not decided.")
NOT_APPLICABLE = {
    "C07": "Deciding it needs a bound on every value that meets machine arithmetic or a narrowing cast outside the checked kernel "
           "(over a hundred casts of model integers to int whose safety rests on array sizes and domain sizes fixed at run time); "
           "no interval analysis in reach bounds those, and the tree has confirmed wraps (see DESIGN.md) with no small common repair.",
    "C15": "Presence of a lookup result is mostly a whole-program invariant (type checking has attached every declaration and domain) "
           "rather than a test on the path; a dataflow check of the paths alone would flag hundreds of dereferences that are safe.",
    "C16": "Most iterations over hash tables keyed by addresses feed containers whose order is re-established, or made irrelevant, "
           "elsewhere at run time; whether a visible order results is not decided by the iteration itself.",
    "C21": "The linear-programming libraries are not installed: their headers, and with them which calls can fail and how they say so, "
           "are declared in the repository only as function pointers without error conventions.",
    "C23": "A context-insensitive hold analysis puts 1317 functions in the set that needs a lock and cannot separate callers that hold "
           "it from those that cannot collect; liveness of roots across those calls is a run-time property.",
    "N01": "Equality of solution sets quantifies over all models and values; no static argument on the source decides it.",
    "N02": "Preservation of solutions by the optimiser depends on run-time domains and constraint semantics, not on program structure.",
    "N03": "Exactness of a linearisation is a theorem about the constraints of each library definition; deciding it needs a solver.",
    "N04": "Enclosure of all values is a numeric statement about interval formulas; deciding it needs a solver or enumeration.",
    "N05": "Acceptance of exactly the well-typed programs needs a second, formal type system to compare with; structure does not decide it.",
    "N06": "The meaning of a posted constraint lies in the back end's propagators; C10 and C13 decide the argument and result passing only.",
    "N07": "Exactness of range operations is a statement about all contents of run-time arrays; it needs induction proofs or enumeration.",
    "N08": "Termination depends on run-time recursion depth and fixpoint measures; no sound static argument in reach bounds them.",
    "N09": "Bounded delay is a statement about time spent by solvers and algorithms at run time.",
}
CHECKS["C03"] = ("static analysis: two-sided access-path comparison over equality, hash and order (clang AST + CFG must-pass analysis)",
                 "Decides for every component of every expression kind that equality compares it on every path with the right outcome, that hashes read only compared components and no addresses; does not decide that equal expressions always receive equal hashes after in-place mutation.")
CHECKS["C04"] = ("static analysis: child-field coverage of traversals (clang AST + CFG must-pass, value provenance, all template instantiations)",
                 "Decides for every instantiation of the generic walks that every child field of every kind is queued on every path and every kind is reported to its own callback; hand-written recursive walks are not included.")
CHECKS["C28"] = ("static analysis: lexer rules as regular languages against the printer's quoting predicate and escape table (finite-domain abstract interpretation per byte)",
                 "Decides for every reserved word, every first/next identifier byte and every string byte; Unicode identifier classes are decided on the byte level.")
CHECKS["C05"] = ("static analysis: finite-domain abstract interpretation of the printer's source against the LALR automaton of the grammar specification and the lexer rules",
                 "Decides for every expression kind in every slot of every kind (operators: all pairs; thorough: nestings of three) that the derived text is read back with the same structure; deeper context dependence and the width-sensitive pretty printer are not decided.")
CHECKS["C06"] = ("static analysis: finite-domain abstract interpretation of the operator evaluators and operator tables over symbolic operands",
                 "Decides for every operator and operand type that the evaluator computes that operator's function with the operands in order, and that every table or switch over operators (names, negation, mirror, bound tests, normal forms) agrees; bound arithmetic of variable operands is not decided.")
CHECKS["C19"] = ("static analysis: finite-domain abstract interpretation of every comparison function over abstract operands, laws of orderings decided over all choices",
                 "Decides the laws of strict weak orders, equivalences and three-way comparisons, and the agreement of the relational operators of a class, for every comparison of the program; tables a comparison looks into are assumed not to change while sorting.")
CHECKS["C20"] = ("static analysis: abstract interpretation of the configuration loader, accessors and JSON writer over opaque field tokens",
                 "Decides for every documented or accepted key and every kind of value that the loader stores it in the property the listing writes under the same key, that wrong kinds, unknown keys and missing required fields end in a configuration error, and that the listing is well-formed JSON; how a property is used when running the solver is not decided.")
CHECKS["C14"] = ("static analysis: interprocedural difference-bound dataflow on argument positions, path conditions of number conversions, help text against parser literals",
                 "Decides for every element access of option-parsing code that the position is below the number of arguments (lower bounds excluded), for every conversion of option values that it is complete, and for every documented option that its component's parser compares with it; the meaning of an accepted option is not decided.")
CHECKS["C22"] = ("static analysis: path-condition dataflow from every text-to-number conversion to every use of the number (clang AST + CFG, lexer rules as regular languages)",
                 "Decides for every conversion of text to a number that success, completeness and range were established before the number is used, and that parsed numbers are not narrowed without a range test; which text counts as a number follows the conversion functions.")
CHECKS["C11"] = ("typestate analysis over all paths, with exceptions and destructors, of the subprocess supervision",
                 "every created pipe end is closed once, the child is waited for and signal handlers are restored on every way out of the "
                 "supervising functions; results of failed system calls are never used; reads fit and are terminated")
CHECKS["C18"] = ("interprocedural exception-flow analysis with path-sensitive handler dispositions",
                 "Decides for every throw site, handler, destructor, thread function and entry point which error types reach it, that no handler "
                 "drops an error, that the drivers end with a failing status after each caught error, and that library code never ends the process")
CHECKS["C17"] = ("typestate analysis of every file stream over all paths (clang AST, path-sensitive)",
                 "Decides for every file stream the program creates that it is tested after opening and before its content is used, and, for output, flushed "
                 "and tested after the last write on every path that does not raise an error; streams the standard library or a solver library opens are not included.")
CHECKS["C25"] = ("must-assigned dataflow over every constructor (clang AST + CFG, interprocedural)",
                 "Decides for every constructor and every scalar member that is read somewhere that it has a value on every normal path; objects of classes "
                 "without constructors are followed in their creating function; members in the exemption list are set in two steps, with the reason.")
CHECKS["C29"] = ("ownership and escape analysis of the temporary-file classes and their creators (clang AST, path engine, exception flow)",
                 "Decides that names come from the system, that destructors remove everything on every path, that every temporary is owned by an object "
                 "destroyed on every exit, and that the process is not ended while one is held; removal by the operating system is assumed to work.")

CHECKS["C30"] = ("typestate over all exits with exception edges (clang AST, structured path engine, exception-flow analysis)",
                 "Decides for every save/change/restore pattern, guard object and lock that the previous state is back on every exit of the code that changed it, "
                 "including exits by exceptions that are caught outside; guards' destructors are checked to restore what their constructors changed.")
CHECKS["C12"] = ("taint analysis of text between JSON quotes with escape-table extraction (clang AST, provenance through locals, parameters and returns)",
                 "Decides for every stream insertion inside a JSON string that the text is constant or escaped, and reads the escaping function's table "
                 "character by character; well-formedness of the surrounding brackets and commas is not decided.")
CHECKS["C08"] = ("forward must-analysis of values known to be non-zero, with obligations passed to call sites (clang AST/CFG, interprocedural)",
                 "Decides for every division and remainder of model numbers that the divisor differs from zero on every path and that the zero case raises where the quotient is the result; "
                 "divisors that are elements of containers filled elsewhere are listed as not decided.")
CHECKS["C24"] = ("forward staleness dataflow of references, pointers and iterators into containers (clang AST + CFG, interprocedural mutation summaries)",
                 "Decides for every local reference, pointer or iterator into a container that no use follows an operation that may move or remove its element; "
                 "call chains longer than six calls (they run through the evaluator, which reaches everything) and containers reached through unresolvable pointers are not decided.")
CHECKS["C26"] = ("switch coverage and fall-through analysis plus forward may-analysis of node kinds at casts (clang AST/CFG)",
                 "Decides for every switch that no section runs into another kind's and every enumerator is handled or rejected, and for every cast under a test of the "
                 "node's kind that only matching kinds arrive; chains of conditions over types, and casts that rely on the type checker's result, are not decided.")
CHECKS["C09"] = ("abstract interpretation of the registration table, then branch-sensitive dataflow of possible signatures (clang AST/CFG)",
                 "Decides for every evaluator registered for a built-in, and the helpers it hands the call to, that it reads exactly the argument positions of each signature it "
                 "serves and evaluates each as a value of the declared kind; the value it computes from them is not decided.")
CHECKS["C10"] = ("cross-artefact consistency: parsed library signatures against registration tables and poster dataflow (custom parser, clang AST/CFG)",
                 "Decides for every declaration without a body that evaluator or poster exists, for every evaluator that its result kind is the declared one, for every Gecode and MIP poster "
                 "that it reads exactly the declared arguments as the declared kinds; back ends not compiled here (Chuffed, Geas, Atlantis) are not decided.")
CHECKS["C13"] = ("must-analysis of the outcomes established at every site that sets a status, with table extraction (clang AST/CFG, interprocedural)",
                 "Decides for every site that produces a status which outcomes of the back end lead there and that none is weaker than the status claims, and that status texts and labels are distinct "
                 "and read back as the same status; what the external libraries mean by their codes is a table taken from their interfaces.")
CHECKS["C27"] = ("forward dataflow of unflushed and unterminated output per stream (clang AST/CFG, interprocedural summaries)",
                 "Decides for every function of the solution printer that solutions, status lines and messages end with their terminator and are flushed on every path when flushing is on; "
                 "statistics blocks and verbatim copies are exempt from the terminator rule; the operating system's own buffers are assumed to work.")
