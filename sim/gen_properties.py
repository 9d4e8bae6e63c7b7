#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the long texts stay reviewable)."""
import json, os
P = []

def prop(id, title, statement, over, qtext, why, files, mechanism, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                          "mechanism": [{"name": a, "where": b} for a, b in mechanism],
                          "observe_at": observe, "hook_needed": None}})

CACHE = ("hermipy/cache.py", "hermipy/core.py")
STORE = (("cache directory", "one file per (function, arguments), shared by every process that uses the directory", "settings['cachedir']"),)

prop("C01", "Caching is transparent: a cached call returns what a fresh call would",
     "With caching enabled, every library call returns the same value (numbers, shape, sparse or dense kind) as the same call made with caching disabled in a fresh process, whatever calls were made before against the same cache directory, by this process or earlier ones. In particular two calls that differ in any argument (a single array element, an array's shape, element type or memory order, a sign, a keyword, a string, the index set, the function called) or in the library options never receive each other's stored result. (Functions are told apart by module and qualified name; numbers that are equal, such as 1, 1.0 and True, are one argument.)",
     ["histories", "inputs", "configurations"],
     "All sequences of library calls (low-level functions, quadrature, series and stiffness-matrix methods, user functions decorated with the cache), over any number of process restarts, cache directory switches and option changes.",
     "The three cache tests look at one call repeated in one process; they never make two calls that could be confused, never restart, and never change options between calls.",
     [*CACHE, "hermipy/varf.py", "hermipy/quad.py"],
     [("argument hashing and file lookup of the cache decorator", "hermipy/cache.py: gen_hash, cache"), ("decorated low-level functions", "hermipy/core.py")],
     ["return values of public calls"], STORE)
prop("C02", "A stored result is reused by every identical later call",
     "Once a call whose result is an array, a sparse matrix or a number has completed with caching enabled and no fault, an identical later call against the same cache directory, from the same process or from any later process started with any hash seed, returns the stored result: it does not run the underlying computation again (no user function body, no compiled numerical routine, no compilation of the integrand) and adds nothing to the directory.",
     ["histories", "configurations"],
     "All histories of completed calls and restarts, all hash seeds, all working directories, array memory layouts that are equal as arrays.",
     "The tests compare file counts for three calls within one process and one hash seed.",
     list(CACHE), [("key derivation independent of process state", "hermipy/cache.py: gen_hash"), ("lookup before compute, save after compute", "hermipy/cache.py: cache")],
     ["number of executions of the computation", "contents of the cache directory"], STORE)
prop("C03", "A crash or power loss never poisons the cache",
     "If a process dies at any instant while results are being stored, or the machine loses power so that only data made durable survives, every later call against the same cache directory still returns the correct value and raises nothing on account of what the crash left behind, and once it has completed normally the result is again reused.",
     ["crash_points", "histories"],
     "Every file-system operation issued by a library call as crash point, including in the middle of a write, with process death or power loss (unsynced data lost, torn or zeroed; unsynced directory changes lost), any number of times, followed by any calls.",
     "No test kills a process or inspects a partially written cache file.",
     ["hermipy/cache.py"], [("how a result file is written and published", "hermipy/cache.py: cache (save)"), ("how an unreadable file is treated", "hermipy/cache.py: cache (load)")],
     ["return values and exceptions of calls made after restart"], STORE)
prop("C04", "Processes sharing a cache directory never disturb one another",
     "Any number of processes, on one machine or in several containers that share the directory, may call the library concurrently with caching enabled on the same cache directory, whether or not it exists yet: under every interleaving of their file operations each call returns its correct value and raises nothing.",
     ["schedules", "histories"],
     "Every interleaving, at file-operation granularity including halfway through a write, of any calls by concurrent processes on a shared directory, same or different arguments.",
     "All tests are single-process.",
     ["hermipy/cache.py"], [("directory creation, existence test, read, write", "hermipy/cache.py: cache")],
     ["return values and exceptions of each process's calls"], STORE)
prop("C05", "Disk faults never cause a wrong result or lasting damage",
     "When file operations of the cache fail (disk full, I/O error, permission or descriptor exhaustion, short writes), the call concerned either returns the correct value or raises an ordinary exception; no other call is affected, no process dies, and once the faults stop every call returns its correct value again, and results are stored and reused again.",
     ["fault_sequences", "histories"],
     "Every sequence of injected errors on the file operations a call issues (opening, reading, writing, syncing, renaming, listing, creating directories), sticky or one-off, in any history of calls and restarts.",
     "No test makes a file operation fail.",
     ["hermipy/cache.py"], [("load failure handling, save, cleanup", "hermipy/cache.py: cache")],
     ["return values and exceptions during and after the faults"], STORE)
prop("C06", "With caching off nothing is stored and nothing stored is returned",
     "While caching is disabled in the settings, no call creates, changes or removes a file of the cache directory; a call made with caching disabled (globally or for that call) always runs the computation, and returns its result, or at most reports by an exception that a stored result really differs from it, never the stored value. A result that agrees with the stored one, of whatever type and including not-a-number entries, raises nothing.",
     ["histories", "configurations"],
     "All histories of calls in which caching is switched on and off globally or per call and in which stored results are current, outdated or damaged.",
     "The tests either have caching off throughout or on throughout.",
     ["hermipy/cache.py"], [("use_cache decision, comparison of fresh and stored result", "hermipy/cache.py: cache, gen_error")],
     ["return values", "contents of the cache directory", "number of executions of the computation"], STORE)
prop("C07", "Compiled integrands are never mixed up or used half-built",
     "Discretizing, integrating or transforming a function given symbolically or as C text always uses the code of that very function, completely built: under every interleaving of concurrent processes that compile the same or different functions on one machine, and whatever was compiled before, each call returns the values of its own function at the nodes, and no process crashes.",
     ["schedules", "histories"],
     "Every interleaving, at file-operation and compiler-step granularity, of processes that build and load integrands in the shared temporary directory, from an empty or already populated directory.",
     "Tests run one process and mostly find integrands already compiled by an earlier run.",
     ["cpp/src/hermite/discretize.cpp", "hermipy/quad.py", "hermipy/function.py"],
     [("source and shared-object naming, publication and loading", "cpp/src/hermite/discretize.cpp: intern_function, discretize_from_string")],
     ["values returned by discretize, integrate, transform", "process exit status"],
     (("temporary directory", "shared objects of compiled integrands, shared by all processes", "/tmp"),))
prop("C08", "A failed or interrupted integrand compilation is reported and recoverable",
     "If building an integrand fails (text that does not compile, a compiler that is killed or out of disk, missing compiler, unwritable temporary directory, a process killed midway) the call raises an ordinary exception instead of crashing or returning values; whatever such a failure or crash leaves behind, every later call of any process, once the cause is gone, returns the correct values.",
     ["fault_sequences", "crash_points", "histories"],
     "Every crash point of the calling process or the compiler during a build, every file-operation error during it, any number of times, followed by any calls.",
     "No test compiles an invalid function or interrupts a compilation.",
     ["cpp/src/hermite/discretize.cpp"],
     [("compiler invocation, status check, publication of the shared object, loading", "cpp/src/hermite/discretize.cpp")],
     ["exceptions, return values, process exit status"],
     (("temporary directory", "shared objects of compiled integrands, shared by all processes", "/tmp"),))
prop("C09", "A request that cannot be served is contained",
     "A request the library cannot serve (unknown index set, number of coefficients or matrix size that matches no degree, duplicate or missing directions, unsupported Fourier degree, grid values, nodes, weights and coefficients whose sizes do not belong together, matrices with rows of different sizes or of another element type) ends in a Python exception: the process survives it, and every other call of the session, before or after, returns what it would have returned without it.",
     ["histories", "inputs"],
     "All histories of valid calls with invalid requests injected at any point, with caching on or off.",
     "Tests only make valid requests (one of them is skipped or fails today because the process would exit).",
     ["cpp/src/hermite/iterators.cpp", "cpp/src/hermite/lib.cpp", "cpp/src/hermite/tensorize.cpp", "cpp/src/hermite/transform.cpp", "cpp/src/hermite/project.cpp", "cpp/src/hermite/inner.cpp", "cpp/src/hermite/varf.cpp", "hermipy/series.py"],
     [("argument validation in the compiled component", "cpp/src/hermite/*.cpp"), ("argument validation in the classes", "hermipy/*.py")],
     ["exceptions, process exit status, values of the other calls"])
prop("C10", "Running out of memory is reported and survived",
     "If any memory allocation of the compiled component fails, the call concerned raises an exception (or succeeds); the process is not terminated and no other call is affected: repeated immediately with memory available, the same call returns the correct value, and repeated failures do not accumulate unreleased memory.",
     ["fault_sequences"],
     "Every allocation made by the compiled component during any call as failure point, single or persistent failures, in any history of calls.",
     "No test makes an allocation fail.",
     ["cpp/src/hermite/*.cpp", "cpp/src/hermite/python/*.cpp"],
     [("ownership of work arrays; translation of C++ exceptions to Python", "cpp/src/hermite")],
     ["exceptions, return values, process exit status, live bytes after the call"])
prop("C11", "Results never depend on memory contents and stay inside their buffers",
     "The value of a call does not depend on what the memory handed to the compiled component by the allocator happens to contain, nor on what lies next to it, and no call writes outside the memory it owns, uses memory it has released, or releases it twice.",
     ["inputs", "configurations"],
     "All supported calls under every initial content of fresh heap memory and every allocator behaviour (reuse order, neighbouring contents).",
     "A test sees one allocator state, in which fresh memory is usually zero and small overruns fall into padding.",
     ["cpp/src/hermite/*.cpp", "cpp/src/hermite/python/*.cpp"],
     [("initialisation and sizing of vectors and matrices", "cpp/src/hermite")],
     ["return values under different heap contents, guard bytes around every block"])
prop("C12", "A result depends only on the arguments and the documented settings",
     "With caching off, a call's value does not depend on the calls made earlier in the process (successful or failed), on what the caller did with earlier results, on the memory layout of its array arguments (contiguous or not, sliced, reversed), or on the process environment: hash seed, state of random generators, clock, process id, working directory. No call modifies its arguments, the settings, or the process's working directory, environment or floating-point error state.",
     ["histories", "configurations"],
     "All sequences of calls in one process, in any order and repeated any number of times, results modified in place by the caller between calls, arrays of any layout, under every process environment.",
     "Each test makes a fixed short sequence of calls in one environment.",
     ["hermipy/*.py", "cpp/src/hermite/*.cpp"],
     [("absence of hidden mutable state", "hermipy/quad.py, hermipy/series.py, hermipy/varf.py, hermipy/function.py, hermipy/lib.py")],
     ["return values, arguments, settings, process state after each call"])
prop("C13", "Threads of one process may call the library at the same time",
     "Several threads of one process may make independent calls under the same settings at the same time, with caching on or off: under every interleaving each call returns the value it would return alone, raises nothing, and leaves the cache directory such that later calls return correct values.",
     ["schedules"],
     "Every interleaving of the Python-level steps of concurrent calls from any number of threads, and of the file operations made while the interpreter lock is released.",
     "All tests are single-threaded.",
     ["hermipy/cache.py", "hermipy/stats.py", "hermipy/quad.py", "hermipy/core.py"],
     [("absence of shared mutable state; unique temporary names", "hermipy/*.py")],
     ["return values and exceptions in each thread"])
prop("C14", "A call can be interrupted anywhere without after-effects",
     "If an asynchronous exception (keyboard interrupt, timeout handler, memory error) strikes at any step of a call, it reaches the caller or the call completes correctly; settings, arguments and objects already held by the caller are unchanged, and every later call in this and other processes, with caching on or off, returns its correct value.",
     ["crash_points", "histories"],
     "Every Python-level step of every call, including loading and storing of cached results, as interruption point, any number of times.",
     "No test interrupts a call.",
     ["hermipy/*.py"],
     [("exception safety of cache, statistics and tensorization wrappers", "hermipy/cache.py, hermipy/stats.py, hermipy/quad.py")],
     ["exceptions, settings, arguments, values of later calls"])
prop("C15", "Statistics and trails stay truthful under failures and clock changes",
     "For every instrumented function the statistics count each completed call exactly once and nothing else, and accumulate the time those calls really took: never negative, and unaffected by adjustments of the wall clock. While one thread makes calls, the nesting shown by trails matches the actual nesting of calls, and is back at the outermost level after every outermost call, whether it returned, raised or was interrupted.",
     ["histories", "fault_sequences"],
     "All histories of nested instrumented calls, of the library and of user functions, that return or raise (including exceptions that are caught by an outer call, and interrupts that arrive while a clock is read), under any sequence of clock adjustments.",
     "No test looks at the statistics.",
     ["hermipy/stats.py"],
     [("log_stats wrapper", "hermipy/stats.py: log_stats, print_stats")],
     ["stats dictionary and print_stats output, trails output"],
     (("stats", "calls and time per function", "hermipy/stats.py"), ("indent", "nesting depth", "hermipy/stats.py")))

NA = "hermipy"
prop("N01", "Gauss-Hermite quadrature is exact for polynomials",
     "With n nodes per direction, integration against the Gaussian weight of any mean and covariance is exact (to rounding) for every polynomial of degree at most 2n-1 per direction, and Fourier quadrature for every resolved trigonometric polynomial.",
     ["inputs"], "All polynomials, positions and numbers of points.", "Tests sample a few polynomials.",
     ["hermipy/quad.py", "hermipy/lib.py", "cpp/src/hermite/transform.cpp"], [("nodes, weights, mapping", "hermipy/quad.py")], ["Quad.integrate"])
prop("N02", "Transform and evaluation are inverse to each other",
     "For every function in the span of the basis, evaluating its transform at the nodes returns the function, for every index set, basis type, degree and position.",
     ["inputs"], "All series, index sets and positions.", "Tests sample low dimensions and degrees.",
     ["cpp/src/hermite/transform.cpp", "hermipy/quad.py"], [("transform", "cpp/src/hermite/transform.cpp")], ["Quad.transform", "Quad.eval"])
prop("N03", "Stiffness matrices represent their operators",
     "The matrix of a function or differential operator applied to the coefficients of a series gives the coefficients of the projected product or derivative, in every dimension, index set and basis type; sparse and dense assembly agree.",
     ["inputs"], "All operators, series, degrees and index sets.", "Tests sample a few operators.",
     ["cpp/src/hermite/varf.cpp", "hermipy/quad.py", "hermipy/varf.py"], [("varf, varfd", "cpp/src/hermite/varf.cpp")], ["Quad.varf", "Quad.varfd", "Quad.discretize_op"])
prop("N04", "Tensorized and direct computations agree",
     "Computing with the tensorize option, or assembling low-dimensional results by tensorization, gives the same result as the direct multi-dimensional computation.",
     ["inputs", "configurations"], "All splittable functions and operators.", "Tests sample a few functions.",
     ["hermipy/quad.py", "hermipy/lib.py", "cpp/src/hermite/tensorize.cpp"], [("tensorize_at, finest_common", "hermipy/quad.py, hermipy/lib.py")], ["Quad.*"])
prop("N05", "Projection inverts tensorization",
     "Projecting a tensor product of series or matrices on the directions of one factor returns that factor times the constant mode of the others.",
     ["inputs"], "All tensor products, index sets and directions.", "Tests sample sizes up to dimension three.",
     ["cpp/src/hermite/project.cpp", "cpp/src/hermite/tensorize.cpp"], [("project", "cpp/src/hermite/project.cpp")], ["Series.project", "core.project"])
prop("N06", "Index sets are enumerated as bijections",
     "For every dimension, degree and index set, the listed multi-indices are distinct, are exactly the members of the set, and size, index and degree queries are consistent with the list; consistent sets extend with the degree.",
     ["inputs"], "All dimensions and degrees.", "Tests sample a few.",
     ["cpp/src/hermite/iterators.cpp"], [("iterators", "cpp/src/hermite/iterators.cpp")], ["core.iterator_*"])
prop("N07", "Operator and function algebra is faithful",
     "Splitting, mapping, projecting, composing and adding symbolic functions and operators preserve their mathematical meaning.",
     ["inputs"], "All expressions.", "Tests sample a few.",
     ["hermipy/operator.py", "hermipy/function.py"], [("split, map", "hermipy/operator.py, hermipy/function.py")], ["Operator", "Function"])
prop("N08", "Equation builders produce the stated equations",
     "The Fokker-Planck and McKean-Vlasov builders return the operator of the equation they are documented for, for all parameters.",
     ["inputs"], "All parameter values.", "Tests compare a few.",
     ["hermipy/equations.py"], [("equation", "hermipy/equations.py")], ["equations.*"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
