"""Source of properties.jsonl and MANIFEST.json:  python3 lib/props.py"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, technique, note, hook=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  observe=observe, technique=technique, note=note, hook=hook, state=state or []))
TRUST = " Seeded, bounded workloads: absence of an alarm is evidence, not proof. Trusted: isl 0.26, GMP, the compilers, the reference enumerator."

prop("C01", "Generated code runs every instance of the domains exactly once",
     "For every problem and every parameter value that satisfies the context, executing the generated syntax tree runs each integer point of each statement's domain exactly once, with the point's coordinates as arguments, and runs nothing else; generation ends, and so does the generated code.",
     ["inputs"], "every finite union of (projections of) polyhedra, every schedule, every parameter value of the context",
     "The tests compare the text generated for about 230 fixed inputs with stored text, or run it for one parameter value; any other combination of domains, unions, strides, existential variables and context is unexplored.",
     ["source/loop.c", "source/clast.c", "source/isl/domain.c", "source/isl/constraints.c", "source/program.c", "source/stride.c"],
     [("separation, recursion and sorting of loops", "source/loop.c cloog_loop_generate"), ("guards, bounds, modulo constraints", "source/clast.c insert_loop"), ("set operations", "source/isl/domain.c")],
     ["the syntax tree returned by the library, executed by an interpreter"],
     "runtime monitor: interpreted executions of the generated AST checked online against enumerated domains",
     "Online exactly-once monitor over executions of the real generator's output for random, mutated and repository problems." + TRUST)
prop("C02", "Instances run in the order of the scattering functions",
     "For every problem with scattering functions and every parameter value of the context, the generated code runs an instance before another whenever its logical date is lexicographically smaller.",
     ["inputs", "schedules"], "every scattering given with the problem (constant, affine, quasi-affine, with shared or partial dates) and every parameter value of the context",
     "Stored texts fix one order for about 150 scattered inputs; nothing checks that the order is the one the schedule asks for on any other input.",
     ["source/loop.c", "source/isl/domain.c", "source/program.c", "source/block.c"],
     [("sorting of disjoint loops", "source/isl/domain.c cloog_domain_sort, source/loop.c cloog_loop_sort"), ("scalar dimensions and blocking", "source/loop.c cloog_loop_generate_scalar, source/program.c cloog_program_block")],
     ["dates of the executed instances, in execution order"],
     "runtime monitor: order monitor on interpreted executions, dates computed from the raw schedule rows",
     "Online monitor of the sequence of logical dates." + TRUST)
prop("C03", "Options change the shape of the code, never its meaning",
     "For every problem, the code generated under any combination of the documented generation options runs exactly the same set of instances as the code generated with the default options, in an order that respects the scattering.",
     ["inputs", "configurations"], "every combination of the documented generation options with every problem",
     "Each test fixes one or two option values for one input; the product of options, and of options with inputs, is not covered.",
     ["source/options.c", "source/loop.c", "source/clast.c", "source/program.c", "source/isl/domain.c"],
     [("option-dependent paths of generation", "source/loop.c"), ("equality spreading and one-time loops", "source/clast.c"), ("hulls, strides, unrolling", "source/isl/domain.c")],
     ["sets of instances and their order, per option combination"],
     "runtime monitor: differential executions under random option combinations, against the enumerated reference",
     "Differential and absolute monitors on the same executions." + TRUST)
prop("C04", "The printed C code does what the syntax tree says",
     "For every problem, the C text printed by the tool parses, and running it makes the same statement calls with the same arguments in the same order as the syntax tree; the texts of the callable and compilable forms compile with a C compiler and run all instances.",
     ["inputs", "configurations"], "every problem, option combination and parameter value of the context",
     "Texts are compared with stored texts, which fixes the output of the sampled inputs only and says nothing of what the text computes.",
     ["source/pprint.c", "source/program.c", "source/clast.c"],
     [("printing of expressions and statements", "source/pprint.c"), ("headers of the callable and compilable forms", "source/program.c")],
     ["the printed text, parsed and interpreted, or compiled by gcc and run"],
     "runtime monitor: printed C interpreted, and compiled and run by gcc, checked against AST traces and enumerated domains",
     "A second, independent observation of the output path." + TRUST)
prop("C05", "The printed FORTRAN code does what the syntax tree says",
     "For every problem whose loops are bounded, the FORTRAN text printed by the tool is accepted by a FORTRAN compiler and running it makes the same statement calls with the same arguments in the same order as the syntax tree.",
     ["inputs", "configurations"], "every problem, option combination and parameter value of the context",
     "Two or three stored FORTRAN texts; no FORTRAN text is ever compiled or run by the tests.",
     ["source/pprint.c"],
     [("FORTRAN branches of the printer", "source/pprint.c")],
     ["the printed text, parsed and interpreted, or compiled by gfortran and run"],
     "runtime monitor: printed FORTRAN interpreted, and compiled and run by gfortran, checked against AST traces and enumerated domains",
     "As C04 for the other target language." + TRUST)

prop("C06", "No undefined behaviour on well-formed problems",
     "For every well-formed problem, option combination and way of using the library (reading, building, generating, printing, dumping, filtering, freeing), the library makes no out-of-bounds or use-after-free access, no undefined arithmetic, no use of uninitialised values, and does not abort.",
     ["inputs", "configurations", "histories"], "every well-formed problem and option combination, and every sequence of calls the interface allows",
     "The tests run unsanitized builds on fixed inputs: an overrun that happens to hit unused memory passes them.",
     ["source/clast.c", "source/loop.c", "source/isl/domain.c", "source/isl/constraints.c", "source/pprint.c", "source/names.c", "source/block.c", "source/union_domain.c"],
     [("arrays sized from dimensions", "source/clast.c, source/isl/constraints.c"), ("ownership of domains, loops, blocks, names", "source/loop.c, source/isl/domain.c, source/block.c")],
     ["sanitizer reports, signals, exits of the process"],
     "AddressSanitizer and UndefinedBehaviorSanitizer builds and valgrind memcheck under the workloads of the other monitors",
     "Sanitizers watch every access of the tree's own code (isl and GMP are not instrumented but their allocations are)." + TRUST)
prop("C07", "The library gives back everything it takes",
     "For every problem and every documented sequence of calls, once the objects have been released with their free functions no memory, multiprecision number or isl object allocated on behalf of the library is left, nothing is released twice, and the state's counters are balanced.",
     ["inputs", "histories"], "every sequence of create, generate, query, print and free calls, on one or several states",
     "The tests only run the tool, which exits: nothing observes what is left over.",
     ["source/loop.c", "source/program.c", "source/clast.c", "source/block.c", "source/domain.c", "source/isl/domain.c", "source/isl/constraints.c", "source/state.c", "source/names.c", "source/union_domain.c"],
     [("allocation counters", "source/state.c cloog_state_free, source/loop.c cloog_loop_free"), ("reference counts of domains and blocks", "source/isl/domain.c, source/block.c")],
     ["allocations, multiprecision numbers and isl references outstanding after release"],
     "runtime monitor: link-time interposed allocation ledger and isl/GMP balance over call sequences",
     "The ledger sees each allocation made by the tree's objects and each one GMP makes." + TRUST, state=["CloogState counters"])
prop("C09", "Results are reproducible and states do not interfere",
     "For every problem, generating code again gives the same text, whatever was generated before with the same state, whatever other states do in between or at the same time in other threads, and whatever the heap contained before.",
     ["inputs", "histories", "interleavings"], "every sequence of generations on any number of states, also run concurrently on separate states",
     "Each test is one process with one state and one generation.",
     ["source/state.c", "source/program.c", "source/loop.c", "source/clast.c", "source/isl/backend.c"],
     [("per-state data", "source/state.c"), ("no global data", "whole library")],
     ["the printed text of repeated, interleaved and concurrent generations"],
     "runtime monitor: differential repetition with interleaved and concurrent states, perturbed heap contents, ThreadSanitizer",
     "Equality monitor over repeated runs in varied histories." + TRUST)
prop("C10", "A dumped problem reads back as the same problem",
     "For every problem, the text written by cloog_input_dump_cloog is accepted as input and describes the same problem: same context, domains, scattering functions and names, so that the code generated from it runs the same instances in an order that respects the same scattering; the same holds for the dump of a program (cloog_program_dump_cloog).",
     ["inputs"], "every problem the library can hold",
     "No test dumps an input and reads it back.",
     ["source/input.c", "source/union_domain.c", "source/isl/domain.c", "source/isl/backend.c"],
     [("dump of the problem", "source/input.c cloog_input_dump_cloog"), ("printing of constraint matrices", "source/isl/domain.c cloog_domain_print_constraints")],
     ["the dump, read back and generated from; names of parameters, iterators and scattering dimensions"],
     "runtime monitor: round trip of the dump, executions checked against the domains of the original problem",
     "The reference is the original problem, not the library's own representation." + TRUST)
prop("C12", "All ways of giving a problem are equivalent",
     "For every problem, the code generated when the problem is built through constraint matrices, through the reading functions, from isl sets and maps or from an isl union map runs the same instances in an order that respects the same scattering, under the names and with the user pointers that were attached, even when the sets and maps leave dimensions unnamed or share names between dimensions and parameters.",
     ["inputs", "histories"], "every problem, every mixture of the construction functions",
     "The tests reach the library through input files only; the construction functions for embedders are not exercised.",
     ["source/union_domain.c", "source/isl/domain.c", "source/matrix.c", "source/input.c", "source/program.c", "source/names.c"],
     [("union domains", "source/union_domain.c"), ("conversion from isl and from matrices", "source/isl/domain.c cloog_domain_from_isl_set, cloog_domain_from_cloog_matrix, cloog_union_domain_from_isl_union_map")],
     ["executions of the generated code, statement names and user pointers"],
     "runtime monitor: executions of code generated from problems built through the interface, against the enumerated reference",
     "Same monitors as C01 and C02, other entry points." + TRUST)
prop("C13", "clast_filter returns exactly the matching loops",
     "For every syntax tree and filter, clast_filter returns every loop of the tree that matches the iterator and the set of statements under the given match type, each once and no other loop, together with the identifiers of all statements of the tree, each once.",
     ["inputs"], "every generated tree, every iterator, statement set and match type",
     "No test calls it.",
     ["source/clast.c"],
     [("filter", "source/clast.c clast_filter"), ("statements under a loop", "source/clast.c clast_filter")],
     ["the returned loops and statement lists, against a direct traversal of the tree"],
     "runtime monitor: every query answered a second time by a plain traversal of the tree",
     "Independent traversal oracle." + TRUST)
prop("C15", "Arbitrarily large integers are exact",
     "For every problem whose constants or coefficients exceed machine integers, the generated tree and the printed code carry the exact values: the code runs exactly the points of the domain in the order of the scattering, as it would for the same problem moved to small values.",
     ["inputs"], "every problem, with constants of any size",
     "No stored input has a number beyond 32 bits, except one or two.",
     ["source/isl/domain.c", "source/isl/constraints.c", "source/clast.c", "source/pprint.c", "source/matrix.c", "source/int.c"],
     [("conversion between isl values and multiprecision numbers", "source/isl/constraints.c, source/isl/domain.c"), ("printing of terms", "source/pprint.c pprint_term")],
     ["executions of the tree and of the printed code in exact arithmetic"],
     "runtime monitor: exact interpretation of trees and texts of problems translated beyond 64 bits, against the enumerated reference",
     "Reference enumeration of the same problem at small values." + TRUST)
prop("C08", "Malformed input is refused, never mishandled",
     "For every text given as a problem description or constraint matrix, however damaged, the reading functions either return a usable object or end with an error message; they never crash, loop, read outside their buffers or hand out partly initialised objects.",
     ["inputs"], "every byte sequence given as input",
     "The tests only read well-formed files.",
     ["source/input.c", "source/names.c", "source/matrix.c", "source/isl/domain.c", "source/loop.c", "source/program.c", "source/union_domain.c", "source/isl/backend.c"],
     [("reading of problems", "source/input.c cloog_input_read, source/union_domain.c cloog_union_domain_read"), ("names and matrices", "source/names.c cloog_names_read_strings, source/matrix.c cloog_matrix_read")],
     ["outcome of reading, sanitizer reports, error messages, entries of the matrices that were accepted"],
     "fault injection: damaged descriptions under AddressSanitizer and UndefinedBehaviorSanitizer with an outcome monitor",
     "Coverage is that of the mutations, applied to the repository's inputs and to random problems." + TRUST)
prop("C14", "Operations on domains compute the right sets",
     "For every pair of unions of polyhedra and all parameter values, the operations of the domain interface return the integer points they promise: union, intersection, difference, copy, extension, scattering, reading and printing are exact; hulls, projections and simplification keep every point they must; emptiness, order, sorting, stride, one-time-loop, unrolling, constancy, disjointness and boundedness answers are true of the points.",
     ["inputs"], "every union of polyhedra with parameters and existential variables, every level",
     "No test calls these functions directly, and a wrong answer is often masked by later steps of the generation.",
     ["source/isl/domain.c", "source/isl/constraints.c", "source/stride.c", "source/domain.c", "source/matrix.c"],
     [("set operations and queries", "source/isl/domain.c"), ("strides", "source/isl/domain.c cloog_domain_list_stride, cloog_domain_stride_lower_bound"), ("constraints of a domain", "source/isl/constraints.c")],
     ["the points of the returned domains, the answers of the queries"],
     "runtime monitor: results of each operation listed point by point and compared with plain enumeration of the raw constraint rows",
     "Pointwise oracle in a box." + TRUST)
prop("C16", "The command-line tool obeys its arguments",
     "For every command line, the cloog program reads the named file or standard input, writes the code to the named file or standard output and nothing anywhere else (nor to the input), applies exactly the options given (in any order) so that the code is the one the library generates for those options, and ends with status 0; wrong command lines (missing or extra files, missing or non-numeric values, files that cannot be opened) end with an error message and a non-zero status; -leaks reports balanced counters.",
     ["inputs", "configurations"], "every combination and order of documented options, every input",
     "Each test runs the tool with one or two options on one file and compares its output only.",
     ["source/options.c", "source/cloog.c", "source/program.c"],
     [("option parsing", "source/options.c cloog_options_read"), ("main program", "source/cloog.c")],
     ["exit status, standard output and error, the output file"],
     "runtime monitor: the real program run as a process, its streams and status checked against the library's text for the same options",
     "Differential against the library through CloogOptions." + TRUST)
prop("C17", "Loop annotations are printed around the loop they belong to",
     "For every syntax tree whose loops a user marks as parallel, vector or timed (with private, reduction and timer names), the printed C code carries each annotation exactly at the loops that were marked, with the names given, outlines the bounds of the loop of a parallel mark in code that still declares what it uses, and otherwise runs the same statement calls with the same arguments in the same order as the tree without marks.",
     ["inputs", "configurations"], "every generated tree and every assignment of marks to its loops",
     "No test marks a loop: the branches of the printer for annotated loops, used by the polyhedral compilers built on CLooG, are never run.",
     ["source/pprint.c", "source/clast.c", "include/cloog/clast.h"],
     [("printing of loops and their annotations", "source/pprint.c pprint_for"), ("fields of a loop of the tree", "include/cloog/clast.h clast_for, source/clast.c new_clast_for")],
     ["the printed text of the marked tree, parsed and interpreted, against the tree"],
     "runtime monitor: random marks on generated trees, the printed code parsed, its annotations matched to the loops and its executions compared with the unmarked tree",
     "The annotations are observed in the text only; they are not compiled with OpenMP." + TRUST)
prop("C18", "An input means the same in every layout and notation",
     "For every problem description, adding, removing or changing white space, line ends, blank lines and comments (of any length, at the ends of lines or on lines of their own) gives the same code, and so do matrices read from a text; describing the context, the domains or the scattering functions by plain matrices, matrices with a full header or isl sets and maps gives code that runs the same instances in an order that respects the same scattering, under the same names.",
     ["inputs"], "every problem, every placement of comments and white space, every choice of notation for each part",
     "The stored inputs use one layout each, and isl notation in three files only.",
     ["source/input.c", "source/union_domain.c", "source/names.c", "source/matrix.c", "source/isl/domain.c"],
     [("reading of lines and names", "source/input.c cloog_input_read_line, source/names.c cloog_names_read_strings, source/union_domain.c cloog_union_domain_read"), ("sets and relations", "source/isl/domain.c cloog_domain_read_context, cloog_domain_union_read, cloog_domain_read_scattering"), ("matrices", "source/matrix.c cloog_matrix_read")],
     ["the code generated from the same problem in several layouts and notations, names, entries of matrices"],
     "runtime monitor: differential generation from re-laid-out and re-written descriptions, executions checked against the enumerated reference",
     "Named (isl) and unnamed (matrix) parameters are not mixed in one description: isl refuses to align them." + TRUST)
#MORE
NOT_APPLICABLE = []
def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
                                "anchors": {"files": p["files"], "state": p["state"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                                            "observe_at": p["observe"], "hook_needed": p["hook"]}}) + "\n")
    m = {"version": 1, "setup_cmd": "python3 lib/setup.py",
         "hooks": {"guard": "none", "enable": "no hooks: the checks observe the library through its public interface, sanitizer builds and link-time wrapping", "source_commits": []},
         "checks": [{"property": p["id"], "quick_cmd": "python3 lib/check.py %s quick" % p["id"], "thorough_cmd": "python3 lib/check.py %s thorough" % p["id"],
                     "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": "exploration", "level_note": p["note"]} for p in P],
         "not_applicable": NOT_APPLICABLE}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
if __name__ == "__main__":
    main()
