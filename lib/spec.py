GEN = ("Each case is an input drawn from a seeded stream: the repository's own inputs, mutations of them, and random "
       "problems (0-3 parameters, 1-6 statements, 0-4 dimensions, unions, strides through existential variables, "
       "equalities, affine and quasi-affine schedules), run for up to 5 parameter values that satisfy the context. ")
ASSUME = ["The reference sets come from plain enumeration of the raw constraint rows and share no code with the tree.",
          "isl 0.26 and GMP are trusted, except isl_set_coalesce, whose result is checked and undone when it changed the set."]
BAD = ["signal", "exit"]
SPEC = {
 "C01": {"runs": [{"cfg": "plain", "mode": "scan", "quick": 28000, "thorough": 250000}, {"cfg": "plain", "mode": "pin1", "quick": 6, "thorough": 6}],
         "rule": GEN + "Non-trivial: at least one statement instance was expected; distinct by input and options.",
         "observe": ["instances", "loops_entered", "guards_evaluated", "ast_mod", "ast_strided_for"], "assumptions": ASSUME},
 "C02": {"runs": [{"cfg": "plain", "mode": "order", "quick": 24000, "thorough": 200000}, {"cfg": "plain", "mode": "pin2", "quick": 2, "thorough": 2}],
         "rule": GEN + "Every input has a schedule. Non-trivial: the run had at least two instances with different dates; distinct by input and options.",
         "observe": ["instances", "ordered_pairs"], "assumptions": ASSUME},
 "C03": {"runs": [{"cfg": "plain", "mode": "opts", "quick": 9000, "thorough": 80000}, {"cfg": "plain", "mode": "pin3", "quick": 3, "thorough": 3}],
         "rule": GEN + "Each input is generated with the default options and with 3 random combinations of the options. Non-trivial: at least one instance and two different dates; distinct by input and options.",
         "observe": ["programs", "instances"], "assumptions": ASSUME},
 "C04": {"runs": [{"cfg": "plain", "mode": "text", "quick": 12000, "thorough": 120000},
                  {"cfg": "plain", "mode": "cc", "quick": 1000, "thorough": 12000}],
         "rule": GEN + "The printed C is parsed and interpreted, or (with the callable and compilable options) built by gcc and run; its trace is checked against the reference sets and against the trace of the syntax tree. Non-trivial: at least one instance was expected; distinct by printed text.",
         "observe": ["instances", "programs", "programs_callable", "programs_compilable"], "assumptions": ASSUME + [
         "The interpreter of printed C reads the modulo operator as the non-negative remainder; the difference for negative operands is a known finding, counted in negative_modulo_guards."]},
 "C05": {"runs": [{"cfg": "plain", "mode": "fort", "quick": 9000, "thorough": 90000},
                  {"cfg": "plain", "mode": "ff", "quick": 800, "thorough": 8000}],
         "rule": GEN + "The printed FORTRAN is parsed and interpreted, or built by gfortran and run. Non-trivial: at least one instance was expected; distinct by printed text.",
         "observe": ["instances", "programs"], "assumptions": ASSUME + [
         "The interpreter reads MOD as the non-negative remainder (known finding for negative operands) and FLOOR/CEILING of REAL quotients exactly."]},
 "C06": {"runs": [{"cfg": "asan", "mode": m, "quick": q, "thorough": q * 15, "kinds": BAD, "cpu": 3} for m, q in
                  (("scan", 1200), ("order", 1200), ("opts", 800), ("text", 800), ("fort", 800), ("build", 800), ("dump", 600), ("filter", 400), ("big", 400), ("mem", 600))] +
                 [{"cfg": "vg", "tool": "valgrind", "mode": m, "quick": q, "thorough": q * 12, "kinds": BAD, "cpu": 6} for m, q in
                  (("text", 120), ("fort", 80), ("mem", 120), ("dump", 60))],
         "rule": GEN + "The workloads of the other monitors, with address and undefined behaviour sanitizers. Non-trivial as in those; distinct by input and options.",
         "observe": ["programs", "instances", "dumps", "filters", "blocks_watched"], "assumptions": ["isl and GMP are not instrumented; their errors would be seen only through the interposed allocator."]},
 "C07": {"runs": [{"cfg": "plain", "mode": "mem", "quick": 6000, "thorough": 80000}],
         "rule": GEN + "Each case is one of ten sequences of interface calls. Non-trivial: the sequence allocated; distinct by input and sequence.",
         "observe": ["blocks_watched", "gmp_blocks_watched", "loops_watched"], "assumptions": ["isl reports the objects left in a context when the context is freed."]},
 "C09": {"runs": [{"cfg": "plain", "mode": "det", "quick": 2400, "thorough": 30000},
                  {"cfg": "tsan", "mode": "thr", "quick": 600, "thorough": 8000, "cpu": 5}],
         "rule": GEN + "Non-trivial: the text has at least one statement; distinct by input and options.",
         "observe": ["comparisons", "thread_generations"], "assumptions": ["isl and GMP are not instrumented for races."]},
 "C10": {"runs": [{"cfg": "plain", "mode": "dump", "quick": 9000, "thorough": 80000}],
         "rule": GEN + "Non-trivial: at least one instance was expected; distinct by input.",
         "observe": ["dumps", "program_dumps", "instances", "names_compared"], "assumptions": ASSUME},
 "C12": {"runs": [{"cfg": "plain", "mode": "build", "quick": 10000, "thorough": 80000}],
         "rule": GEN + "Each domain and scattering is given in a randomly chosen way. Non-trivial: at least one instance was expected; distinct by input and construction.",
         "observe": ["instances", "names_checked", "usr_pointers_checked", "ways_isl_set", "ways_union_map", "ways_mixed"], "assumptions": ASSUME},
 "C13": {"runs": [{"cfg": "plain", "mode": "filter", "quick": 10000, "thorough": 80000}],
         "rule": GEN + "Several random filters per tree. Non-trivial: at least one loop matched; distinct by input, options and filter.",
         "observe": ["filters", "loops_matched", "loops_seen"], "assumptions": []},
 "C15": {"runs": [{"cfg": "plain", "mode": "big", "quick": 6000, "thorough": 50000}],
         "rule": GEN + "Each is moved by offsets of up to 40 digits. Non-trivial: at least one instance was expected; distinct by input and options.",
         "observe": ["instances", "programs_with_huge_numbers", "numbers_of_19_digits_or_more"], "assumptions": ASSUME},
 "C17": {"runs": [{"cfg": "plain", "mode": "par", "quick": 10000, "thorough": 120000}],
         "rule": GEN + "Loops of each tree get random annotations (parallel, vector, distributed, private and reduction lists, directive, timer); the text is parsed, its pragmas and timers are compared loop by loop and it is executed for one process. Non-trivial: at least one loop was annotated; distinct by text.",
         "observe": ["loops_compared", "loops_parallel", "loops_vector", "loops_distributed", "loops_timed", "instances"], "assumptions": ["The distribution call gives a single process the whole range."]},
 "C18": {"runs": [{"cfg": "plain", "mode": "lay", "quick": 9000, "thorough": 90000}],
         "rule": GEN + "Each is read in its plain form, in a layout with random comments, blank lines and white space (same text required) and with each part in a random notation (executed). Non-trivial: at least one instance was expected and the layout differs; distinct by layout and options.",
         "observe": ["layouts", "layout_changes", "notations", "matrices", "instances"], "assumptions": ASSUME},
 "C08": {"runs": [{"cfg": "asan", "mode": "bad", "quick": 8000, "thorough": 120000, "cpu": 2}],
         "rule": "Each case damages a well-formed description (truncated, spliced, tokens, lines, bytes or counts replaced) or a matrix text and gives it to the reading functions, then generates code if it was accepted. Non-trivial: the text differs from the original; distinct by text.",
         "observe": ["accepted", "refused", "matrices_accepted", "matrices_refused"], "assumptions": ["Damaged inputs that ask for more than 6 digits of something are not used: no machine can serve them."]},
 "C14": {"runs": [{"cfg": "plain", "mode": "dom", "quick": 30000, "thorough": 300000}, {"cfg": "asan", "mode": "dom", "quick": 2000, "thorough": 30000, "cpu": 3}],
         "rule": "Each case draws three unions of polyhedra (1-3 dimensions, 0-2 parameters, existential variables) in a box and checks one of eleven groups of operations for up to 3 parameter values. Non-trivial: some domain has a point; distinct by domains and operation.",
         "observe": ["set_operations", "unions_cut", "hulls", "projected_points", "follow_pairs", "sorts", "strides_found", "common_strides", "stride_bounds", "one_time_loops", "unrolled", "constraint_sets", "scattered_points"],
         "assumptions": ["The points of a result are listed with isl_set_foreach_point, those expected by plain enumeration of the raw rows."]},
 "C16": {"runs": [{"cfg": "plain", "mode": "cli", "quick": 2400, "thorough": 30000}, {"cfg": "asan", "mode": "cli", "quick": 600, "thorough": 6000, "cpu": 3}],
         "rule": GEN + "Each is given to the cloog program with a random command line (options in any order, one mistake in a quarter of the cases). Distinct by command line and input.",
         "observe": ["command_lines_accepted", "command_lines_refused", "from_stdin", "to_file", "with_information", "leak_reports"], "assumptions": ["The text is compared with the one the library prints for the same options set through CloogOptions, which C03 and C04 check."]},
}
