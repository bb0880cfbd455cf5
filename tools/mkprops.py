#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, technique, note, observe=(), state=(), level="exploration", hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                   anchors=dict(files=files, state=[dict(zip(("name", "meaning", "where"), s)) for s in state],
                                mechanism=[dict(zip(("name", "where"), m)) for m in mech], observe_at=list(observe), hook_needed=hook)),
              technique, level, note))


prop("C01", "A suite contains exactly the problems its strings select, in order",
     "For every suite name, instance string and option string, iterating the suite visits exactly the selected (function, dimension, instance) "
     "combinations once each, ordered by dimension, then function, then instance, and the reported number of problems, the problem indices and "
     "the problem ids all agree with that order. Looking a problem up by index or by (function, dimension, instance) gives the same problem as "
     "iterating, and nothing for a combination that is not selected; index encoding and decoding are inverse to each other.",
     ["inputs", "configurations", "histories"],
     "all 12 suites x all documented spellings of instances, years, ranges and index filters x all orders of look-ups and (alternating) iterations",
     "The unit tests build a few suites with one or two fixed filter strings; ranges, duplicates, mixed filters, exclusive options and look-ups "
     "after filtering are combinatorially many.",
     ["src/coco_suite.c", "src/coco_string.c", "src/coco_utilities.c", "src/coco_observer.c"],
     [("range parsing and suite filtering", "src/coco_suite.c, src/coco_utilities.c"), ("index encoding/decoding", "src/coco_suite.c")],
     "online comparison with an executable model of suite selection",
     "random strings from the documented grammar plus every suite unfiltered and every year; ASan/UBSan on the small ones",
     ["suite construction result", "sequence of problems handed out", "look-up results"],
     [("current indices", "position of the iteration", "src/coco_suite.c")])

prop("C02", "Every problem has its published objective, constraints, bounds and identity",
     "For every suite, function, dimension and instance, the objective and constraint values at any point, the region of interest, the initial "
     "solution, the id, the name and the numbers of objectives, constraints and integer variables are those of the published problem of that "
     "number, on every platform and in every release.",
     ["inputs", "configurations"],
     "every (suite, function, dimension, instance) x every point of the search space, including far outside of the region of interest",
     "The regression tests compare a few hundred recorded values of low-dimensional bbob problems; most (suite, function, instance, point) "
     "combinations, special points and higher dimensions are never evaluated.",
     ["src/f_*.c", "src/transform_*.c", "src/suite_*.c", "src/c_linear.c", "src/coco_problem.c", "src/brentq.c"],
     [("problem construction from seeds", "src/suite_bbob_legacy_code.c, src/suite_*.c"), ("raw functions and transformations", "src/f_*.c, src/transform_*.c")],
     "differential monitor: every problem of the tree compared with the same problem of a pinned reference build",
     "many points from 12 point families per problem, compared within a tolerance that admits re-associated arithmetic",
     ["values returned by evaluations", "problem accessors"])

prop("C03", "An evaluation depends on the problem and the point only",
     "Evaluating a noise-free problem at a point gives the same result regardless of what was evaluated before, which other problems and suites "
     "exist or were freed, in which order they were created, how the problem was obtained and in which process it runs. "
     "An evaluation never modifies the caller's point nor any other problem.",
     ["histories", "inputs", "programs", "schedules"],
     "all interleavings of creating, evaluating, observing and freeing problems of all suites, in one process or several, "
     "and concurrent evaluation of different problem objects",
     "Tests evaluate one problem at a time in the fixed order of the suite; shared static state and cached intermediate results only show in "
     "other histories.",
     ["src/f_*.c", "src/transform_*.c", "src/suite_*.c", "src/coco_problem.c", "src/coco_suite.c"],
     [("per-problem data, scratch vectors inside the problem", "src/f_*.c, src/transform_vars_*.c"), ("seed recomputed from function and instance", "src/suite_*.c")],
     "history checker: values recorded in interleaved, shuffled and threaded histories must equal the value of a fresh process",
     "random interleaved programs over many live problems, ThreadSanitizer on concurrent evaluation of distinct problems",
     ["evaluation results in recorded histories"])

prop("C04", "The known optimum is attained and never undercut",
     "For every single-objective problem with a known optimum, evaluating the recorded optimal solution gives the recorded optimal value, the "
     "optimal solution is feasible and within the region of interest, and no feasible point gives a better value.",
     ["inputs", "configurations"],
     "every single-objective noise-free problem x every point",
     "Tests check f(x_opt) on a handful of problems and do not search for points below the optimum.",
     ["src/f_*.c", "src/suite_*.c", "src/transform_*.c", "src/coco_problem.c"],
     [("best parameter and best value kept in step by every transformation", "src/transform_*.c")],
     "invariant monitor: f(x_opt)=f_opt, f >= f_opt on adversarial samples and local search",
     "all functions, dimensions up to 40 (thorough 640), several instances, 12+ adversarial point families incl. descent",
     ["evaluation results", "final target hit"])

prop("C05", "Constrained problems have declared constraints, feasible start and optimum",
     "Every problem of the three constrained suites has the documented number of constraints for its function and dimension, an initial solution that is feasible and "
     "within the region of interest, and an optimal solution that is feasible with exactly the documented number of active constraints at their boundary, "
     "and a point becomes the best observed solution only if it is feasible. The three variants of the suite share objective and optimum and differ only in the "
     "absence of the inactive constraints and in the slope of one active constraint, respectively.",
     ["inputs", "configurations", "histories"],
     "54 functions x dimensions x instances x 3 suite variants x points",
     "Tests cover a few recorded values of low instances.",
     ["src/suite_cons_bbob.c", "src/suite_cons_bbob_problems.c", "src/c_linear.c", "src/transform_vars_asymmetric.c", "src/transform_vars_oscillate.c", "src/coco_problem.c"],
     [("gradient-based construction of active constraints", "src/suite_cons_bbob_problems.c, src/c_linear.c")],
     "invariant monitor over constraint evaluations at optimum, start and sampled points",
     "all 54 functions x 3 variants x dims x instances",
     ["constraint values", "initial solution", "best observed value"])

prop("C06", "Mixed-integer problems discretise exactly the declared variables",
     "In the mixed-integer suites the first four fifths of the variables are integer with the documented numbers of levels and bounds, and the "
     "objective value depends on an integer variable only through its value rounded to the nearest admissible level, while it depends on the "
     "continuous variables continuously. The optimal solution is admissible, i.e. integer where integers are required and within the bounds.",
     ["inputs", "configurations"],
     "every mixed-integer problem (single- and bi-objective) x every pair of points that differ in integer variables",
     "Tests evaluate a few recorded points; rounding ties, out-of-range values and the mapping of levels are not sampled.",
     ["src/transform_vars_discretize.c", "src/suite_bbob_mixint.c", "src/suite_biobj_mixint.c"],
     [("discretisation of variables", "src/transform_vars_discretize.c")],
     "metamorphic monitor: rounding/clamping relations between evaluations, admissibility of the optimum",
     "all functions of both suites, hostile offsets around every level",
     ["evaluation results", "bounds", "number of integer variables"])

prop("C07", "A bi-objective problem is exactly its two single-objective problems",
     "Every problem of the bi-objective suites returns, at every point, the values of the two documented single-objective problems of the same "
     "dimension, its instances being the documented pairs; its ideal point consists of their optimal values and its nadir point of the values of "
     "each at the other's optimum. Its ideal point strictly dominates its nadir point and its two optima are sufficiently far apart.",
     ["inputs", "configurations"],
     "three bi-objective suites x functions x dimensions x instances (tabulated or not) x points",
     "Tests cover single recorded values; instances beyond the tabulated ones are computed at run time and never tested.",
     ["src/suite_biobj_utilities.c", "src/suite_biobj.c", "src/suite_biobj_ext.c", "src/suite_biobj_mixint.c", "src/coco_problem.c"],
     [("stacking of problems", "src/coco_problem.c"), ("instance table and admissibility test", "src/suite_biobj_utilities.c")],
     "differential monitor between the stacked and the two single problems with an independent pair/instance table",
     "all functions x dims x instances 1-15 and random larger ones",
     ["evaluation results", "nadir (largest values of interest)", "names"])

prop("C08", "Noise is reproducible, unbiased by observers, and only noise",
     "On the noisy suite, after resetting the seeds the same sequence of evaluations gives the same sequence of values, whether or not the problem is observed, "
     "repeated evaluation of the same point gives varying values that follow the documented noise model around the noise-free value, and the "
     "noise-free value of a point never varies. The logs of the default observer record noise-free values.",
     ["histories", "inputs"],
     "all 30 noisy functions x instances x dimensions x sequences of evaluations",
     "There is no test that resets seeds, repeats sequences or looks at the distribution.",
     ["src/suite_bbob_noisy.c", "src/suite_bbob_noisy_utilities.c", "src/transform_obj_gaussian_noise.c", "src/transform_obj_uniform_noise.c", "src/transform_obj_cauchy_noise.c", "src/logger_bbob.c"],
     [("seeded noise streams", "src/suite_bbob_noisy_utilities.c")],
     "history replay comparison, noise model checker over recorded values, differential against the reference",
     "all functions, several dims/instances, hundreds of evaluations of the same point",
     ["evaluation results", "logged values"])

prop("C09", "Evaluation counters, best observed value and target flag are exact",
     "After any sequence of calls, the numbers of function and constraint evaluations equal the numbers of such calls made on that problem "
     "with finite points, the best observed value is the smallest objective value returned so far for a feasible point, and the final target is "
     "reported as hit exactly from the moment this value comes within the target precision of the optimum. Reading the state, recommending a solution or "
     "looking at the initial solution changes none of them.",
     ["histories", "inputs"],
     "all sequences of evaluations, constraint evaluations, recommendations, failed evaluations and queries on all suites, with and without observers",
     "Tests count a few evaluations of one or two problems.",
     ["src/coco_problem.c", "src/coco_suite.c", "src/logger_bbob.c"],
     [("counting in the outermost call", "src/coco_problem.c")],
     "online state monitor with an executable model of the counters",
     "random call sequences on all suites; also under observers, restarts and recommendations",
     ["problem state accessors after each call"],
     [("evaluations, evaluations_constraints, best_observed_fvalue", "accounting", "src/coco_problem.c")])

prop("C10", "Observing a problem never changes what the optimizer sees",
     "A problem wrapped by any observer with any options has the same dimension, bounds, initial solution, id, constraint count, evaluation results, counters and "
     "target status as the same problem without observer, and remains usable after the observer is removed. "
     "Each evaluation of the observed problem evaluates the underlying problem exactly once.",
     ["histories", "configurations", "inputs"],
     "all observers x options x suites x call sequences, adding and removing observers at any time",
     "Tests only check that logging runs; no test compares an observed with an unobserved run.",
     ["src/coco_observer.c", "src/logger_bbob.c", "src/logger_biobj.c", "src/logger_rw.c", "src/logger_toy.c", "src/logger_bbob_old.c", "src/coco_problem.c"],
     [("transformed problem delegating to the inner problem", "src/coco_problem.c")],
     "paired-history comparison: the same call sequence with and without observer",
     "random observers, options and sequences on all suites (noisy included via seed reset)",
     ["results and state of the observed and of the unobserved problem"])

prop("C11", "The single-objective log records exactly the run that took place",
     "For every call history the data files of the default single-objective observer contain, per problem, a line for exactly those "
     "evaluations that first reach a target or an evaluation trigger, restart or recommendation, in order, with the true numbers of evaluations and "
     "the true values, plus a final line for the last state; the info files list every problem with its number of evaluations and final precision exactly once and under the right "
     "function, dimension and instance.",
     ["histories", "configurations", "inputs"],
     "all evaluation sequences on all single-objective suites x observer options (triggers, precision, number format) x orders of problems",
     "Tests compare two or three recorded runs with fixed seeds.",
     ["src/logger_bbob.c", "src/observer_bbob.c", "src/coco_observer.c"],
     [("targets and evaluation triggers", "src/coco_observer.c"), ("info/dat/tdat/rdat/mdat writing", "src/logger_bbob.c")],
     "offline checker of the data files against an executable model of the log fed with the recorded call history",
     "random histories/optimizers on all single-objective suites and observer options",
     ["*.info, *.dat, *.tdat, *.rdat, *.mdat files"],
     [("targets_trigger, evaluations_trigger", "what to log next", "src/logger_bbob.c")])

prop("C12", "The bi-objective log records exactly the non-dominated solutions",
     "For every call history on a bi-objective problem the archive files contain, depending on the options, all solutions that were non-dominated "
     "when they were evaluated or those non-dominated at the end, with their true evaluation numbers and values, and the "
     "indicator files record the hypervolume indicator of the archive within the region of interest, each time it reaches a new target, as a never "
     "deteriorating value.",
     ["histories", "configurations", "inputs"],
     "all evaluation sequences on the bi-objective suites x logging options",
     "Tests add a few tuples to the tree and never recompute an archive or indicator independently.",
     ["src/logger_biobj.c", "src/observer_biobj.c", "src/mo_avl_tree.c", "src/mo_utilities.c", "src/coco_archive.c"],
     [("archive update and hypervolume increments", "src/logger_biobj.c")],
     "offline checker recomputing archive and hypervolume from the recorded evaluations",
     "random histories with clustered, dominated, duplicate and out-of-region points",
     ["*.adat, *.dat, *.tdat, *.info files"])

prop("C13", "The archive keeps exactly the non-dominated set and its hypervolume",
     "After any sequence of additions, the solution archive contains exactly the solutions not dominated by any other added one (the first of equal ones), "
     "hands them out once each in order of the objectives, reports their number, and its hypervolume is that of the set they "
     "dominate within the region of interest; an addition reports success exactly if the solution was kept.",
     ["histories", "inputs"],
     "all sequences of additions (sorted, clustered, duplicate, extreme) and interleaved queries",
     "Tests add a handful of points.",
     ["src/coco_archive.c", "src/mo_avl_tree.c", "src/mo_utilities.c"],
     [("balanced tree of non-dominated solutions", "src/mo_avl_tree.c, src/coco_archive.c")],
     "online comparison with a brute-force non-dominated set and hypervolume",
     "random sequences up to thousands of additions, interleaved queries, ASan build",
     ["archive accessors"], [("tree", "non-dominated solutions ordered by objective", "src/coco_archive.c")])

prop("C14", "No two experiments ever share or overwrite a result folder",
     "Every observer gets a result folder that did not exist before, with a unique name derived from the requested one, so that data of earlier or "
     "concurrently running experiments are never mixed, truncated or overwritten; file names within a folder are likewise unique when the same "
     "problem group is started again.",
     ["schedules", "histories", "configurations"],
     "any number of concurrent or successive processes and observers requesting the same folder name, with leftovers present",
     "Tests create one observer after another in one process.",
     ["src/coco_utilities.c", "src/coco_observer.c", "src/logger_bbob.c"],
     [("creation of a unique directory", "src/coco_utilities.c")],
     "multi-process stress with exactly-once ownership checker and injected delays (LD_PRELOAD) between check and creation",
     "barrier-synchronised processes with delays at the existence check; offline checker of folder ownership",
     ["result folder reported by each observer", "files in the folders", "system calls mkdir/fopen"])

prop("C15", "A killed experiment leaves every logged evaluation on disk and readable",
     "If the process dies at any point, every evaluation that triggered logging before that point is present on disk as a complete line, in "
     "order, files contain no torn or foreign data except an unfinished last line, and data of problems completed earlier are complete.",
     ["crash_points", "histories"],
     "all kill points between API calls and at every write system call, on all observers that document per-line durability",
     "No test kills the process.",
     ["src/logger_bbob.c", "src/logger_biobj.c", "src/logger_rw.c"],
     [("flush after each line", "src/logger_bbob.c, src/logger_biobj.c")],
     "fault enumeration: the process is killed after each of its calls and at each write; the remaining files are compared with the log of the full run",
     "kill points enumerated over recorded histories", ["files after the kill"], level="fault_enumeration")

prop("C16", "No input or call order corrupts memory, leaks or uses undefined behaviour",
     "Any program using the documented interface, with arbitrary strings as suite, instance and observer options, arbitrary points and any order of creating, "
     "observing, iterating, removing and freeing objects, runs without memory errors, undefined behaviour, use of uninitialised values, leaks or "
     "crashes; unsuitable arguments are refused, replaced by defaults with a warning, or reported by the documented fatal error.",
     ["programs", "inputs", "configurations"],
     "all API programs and option strings", "Tests run fixed programs without sanitizers.",
     ["src/*.c"], [("bounds checks in option parsing, ownership rules of problems and observers", "src/coco_*.c, src/observer_*.c, src/logger_*.c")],
     "AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer and MemorySanitizer over random API programs",
     "thousands of random API programs with hostile option strings under ASan+UBSan+LSan and MSan",
     ["sanitizer reports", "process exit"])

prop("C17", "Non-finite points are answered consistently and never logged or counted",
     "Evaluating a point with a NaN coordinate gives NaN for every objective and constraint, and a point with an infinite coordinate gives an infinite value, "
     "on every problem with or without observer. Such evaluations are neither counted nor logged, do not become the best observed solution, and "
     "leave later results unaffected.",
     ["inputs", "histories"],
     "all suites x observers x positions and kinds of non-finite coordinates x places in a history",
     "Tests check a few NaN vectors on some problems.",
     ["src/coco_problem.c", "src/coco_utilities.c", "src/logger_*.c", "src/f_*.c", "src/transform_*.c"],
     [("non-finite guards in the evaluation entry points", "src/coco_problem.c")],
     "history checker: the same history with and without injected non-finite points must agree",
     "every suite, observer and coordinate position", ["evaluation results", "counters", "data files"])

prop("C18", "Looking at the optimum taints a problem for good",
     "As soon as the optimal solution of a problem has been requested through the interface, the problem reports that it is tainted and stays so, and "
     "the default single-objective observer refuses to evaluate and log it; no other call taints a problem, and tainting one problem never taints another.",
     ["histories"],
     "all call sequences on all suites, wrapped or not",
     "Tests do not cover tainting under observers or in histories.",
     ["src/coco_problem.c", "src/coco_suite.c", "src/logger_bbob.c"],
     [("taint flag propagated through wrapped problems", "src/coco_problem.c")],
     "state monitor over random call sequences with an executable model of the taint flag",
     "all suites, wrapped and unwrapped", ["taint accessor", "process exit and log files"])

prop("C19", "Random number streams are fixed by their seed and independent",
     "A random generator created with a seed always yields the same published sequence of uniform numbers in [0,1) and of normal numbers, independent of other "
     "generators, of problems being created and of earlier use; the streams have the right distribution.",
     ["inputs", "histories"],
     "all seeds x interleavings of generators and draws",
     "One test checks the first numbers of one seed.",
     ["src/coco_random.c", "src/suite_bbob_legacy_code.c"],
     [("lagged Fibonacci generator", "src/coco_random.c")],
     "online comparison with an independent implementation of the generator; statistical monitors",
     "hundreds of seeds, interleaved generators, long streams", ["drawn numbers"])

prop("C20", "The Python interface shows the same problems and never crashes the interpreter",
     "Through the Python package every suite, problem and observer behaves as the C core: same problems in the same order, same values, "
     "bounds, counters and log files. Misuse, such as wrong dimensions, unknown names, out-of-range indices or use of a freed object, raises a Python "
     "exception or, where the C core itself refuses, ends with its error message; it never crashes the interpreter or corrupts memory.",
     ["programs", "inputs", "histories"],
     "all Python programs using Suite, Problem, Observer and BareProblem",
     "Python tests evaluate each problem once and check few error paths.",
     ["build/python/src/cocoex/interface.pyx", "build/python/src/cocoex/bare_problem.pyx", "build/python/src/cocoex/exceptions.py", "build/python/src/cocoex/__init__.py"],
     [("Cython wrappers with ownership and validity flags", "build/python/src/cocoex/interface.pyx")],
     "differential monitor between the Python binding and the C driver; misuse programs in child interpreters",
     "random programs incl. misuse and use after free", ["Python results, exceptions, exit status"])

prop("C21", "The Java interface shows the same problems and log",
     "Through the Java classes every suite, problem and observer behaves as the C core: same problems in the same order, same values, bounds, "
     "constraints, counters and log files.",
     ["programs", "inputs"],
     "all suites x problems x points x observers through the Java classes",
     "The Java part has no tests in the repository.",
     ["build/java/CocoJNI.c", "build/java/Problem.java", "build/java/Suite.java", "build/java/Observer.java"],
     [("JNI glue", "build/java/CocoJNI.c")],
     "differential monitor between the Java binding and the C driver, -Xcheck:jni",
     "all suites, random points and observers", ["Java results, log files, JNI checker output"])

prop("C22", "Creating and removing directories touches only what was named",
     "Removing a directory deletes exactly that directory with its contents, never anything outside it, also when it contains symbolic links, hidden "
     "files or special names, and reports failure if something is left; creating a directory path creates exactly its components and never removes "
     "or truncates anything.",
     ["inputs", "histories", "fault_sequences"],
     "all directory trees incl. links, special files and odd names",
     "Tests create and remove a plain nested directory.",
     ["src/coco_utilities.c"],
     [("recursive removal with stat of each entry", "src/coco_utilities.c")],
     "before/after snapshots of a scratch tree around the calls, as an unprivileged user",
     "random trees with links in a scratch directory, run as nobody", ["file system snapshots", "return values"])

prop("C23", "The real-world and toy logs record exactly the improvements or all evaluations",
     "The log of the real-world observer contains, per problem, exactly one line per evaluation, or per improvement if so requested, with the true evaluation "
     "number, objective, constraint and variable values in the requested precision; the log of the toy observer contains exactly the evaluations that reach a new target.",
     ["histories", "configurations"],
     "all histories x options of the two observers",
     "There is no test of these loggers' contents.",
     ["src/logger_rw.c", "src/observer_rw.c", "src/logger_toy.c", "src/observer_toy.c"],
     [("line per evaluation", "src/logger_rw.c"), ("target triggers", "src/logger_toy.c")],
     "offline checker of the log files against the recorded call history",
     "random histories and options on all suites", ["log files"])

prop("C24", "Options are read as written and diagnostics obey the log level",
     "Every documented suite and observer option takes effect with the value written, independent of the order of options, of spaces, of quotation marks and of unrelated options or quoted text around it; "
     "a number outside of the permitted range leaves the default in force with a warning, and unknown options are reported by name. Messages appear exactly when the log level includes them, "
     "the level changes no result, and setting it returns the previous one.",
     ["inputs", "configurations"],
     "all option strings x log levels",
     "Tests parse a few fixed strings.",
     ["src/coco_string.c", "src/coco_utilities.c", "src/coco_observer.c", "src/coco_runtime_c.c", "src/observer_*.c"],
     [("option parser", "src/coco_utilities.c"), ("log level guard", "src/coco_runtime_c.c")],
     "metamorphic monitor: effects of permuted, re-spaced and padded option strings must agree; diagnostics compared with the level",
     "random option strings and levels", ["effects in folder names, file contents, stdout/stderr"])

prop("C25", "Each observer logs as if it were alone",
     "When several observers watch the same problem, in any order of attaching and removing them, each result folder has the content it would have "
     "if that observer had been the only one, and all values, counters and properties the optimiser sees are the same whichever observers are attached. "
     "Exception: the problem name in headers shows the observers below.",
     ["configurations", "histories"],
     "all suites x combinations and orders of two or three observers x histories of evaluations, restarts and recommendations",
     "The tests attach one observer at a time.",
     ["src/coco_observer.c", "src/logger_bbob.c", "src/logger_biobj.c", "src/logger_rw.c", "src/logger_toy.c", "src/coco_problem.c"],
     [("wrapping of problems by loggers", "src/coco_problem.c coco_problem_transformed_allocate"), ("attaching and removing", "src/coco_observer.c")],
     "metamorphic monitor: the folder of each observer in a run with all of them against a run with it alone",
     "random stacks of observers and histories; some under ASan/UBSan", ["log folders, returned values, counters"])

prop("C26", "The Python experiment tools schedule, repeat, count and search exactly",
     "The batches of the batch scheduler partition the problems of a suite, the same way on every sweep, keeping the instances of a function and dimension together; the experiment repeater runs a problem "
     "again exactly until it has enough successes or has used its budget, with equally many trials per instance, and its statistics are those of the tracked runs and unchanged by "
     "queries; random search spends exactly its budget within the bounds and returns the best feasible point it evaluated; the non-anytime problem returns true values and has each evaluation "
     "number observed once; observer options given as a dict have the effect of the same string; settings and command-line arguments are read back as written, and progress texts are correct.",
     ["programs", "histories", "inputs"],
     "all suites x numbers of batches x sequences of runs with any numbers of evaluations and successes x queries in between x option values",
     "There are doctests for a few calls of the repeater and the argument parser, none for the rest.",
     ["build/python/src/cocoex/utilities.py", "build/python/src/cocoex/solvers.py", "build/python/src/cocoex/interface.pyx"],
     [("bookkeeping of trials", "build/python/src/cocoex/utilities.py ExperimentRepeater"), ("batches by order of appearance", "build/python/src/cocoex/utilities.py BatchScheduler")],
     "online comparison with executable models of each tool",
     "thousands of random programs on real suites and on stand-in problems", ["return values, evaluated points, log files"])

prop("C27", "The old-format observer records exactly the run that took place",
     "For every sequence of experiments that observe problems one after another with the 'bbob-old' observer, in any order of functions, dimensions and instances: the info files are well-formed and list every "
     "evaluated problem exactly once, under its suite, function and dimension, with its instance, its number of evaluations and its final precision; the data files contain one header per problem and exactly the "
     "lines of the evaluations that reach a new target or an evaluation trigger plus the final line, with the true evaluation counts, values, best values and points. This holds for noise-free problems with a known optimum.",
     ["histories", "inputs", "programs"],
     "all noise-free suites with one objective x orders of problems (also revisited functions and dimensions, more than six dimensions) x evaluation sequences x options",
     "The tests of the old logger only check that files exist; what is in them depends on the whole history of the process.",
     ["src/logger_bbob_old.c", "src/observer_bbob_old.c", "src/coco_observer.c"],
     [("bookkeeping across problems in process-wide variables", "src/logger_bbob_old.c logger_bbob_old_openIndexFile"), ("lines of the data files", "src/logger_bbob_old.c logger_bbob_old_evaluate")],
     "offline checker: the log folders against an executable model of the old format fed with the driver's event log",
     "hundreds of random sequences of experiments, some directed at many dimensions; some under ASan/UBSan", ["info and data files byte by byte", "evaluations and values"])


def main():
    have = {f[:-3].upper() for f in os.listdir(os.path.join(HERE, "checks")) if f.endswith(".py")}
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p, *_ in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    m = {"version": 1, "setup_cmd": "python3-vt tools/setup.py",
         "checks": [], "not_applicable": [],
         "notes": "All checks: python3-vt check.py <ID> [--tier quick|thorough] [--seed N]; see DESIGN.md. No hooks in /repo are needed: "
                  "everything is observed at the API boundary, in the files and through compiler instrumentation."}
    for p, tech, level, note in P:
        i = p["id"]
        if i in have:
            m["checks"].append(dict(property=i, quick_cmd="python3-vt check.py %s --tier quick" % i, thorough_cmd="python3-vt check.py %s --tier thorough" % i,
                                    technique=tech, level=level, level_note=note))
        else:
            m["not_applicable"].append(dict(property=i, reason="the check is not built yet"))
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(P), "properties,", len(m["checks"]), "checks")


main()
