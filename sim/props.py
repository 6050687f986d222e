"""What each check runs: engines, scenarios, amounts, and how its evidence is described."""

REAL_CORE = "all of components/core/wf (expressions, rewriting, control flow graph, optimisation, AST, code generators), compiled from /repo's working tree with compiler instrumentation"
STUB_CORE = ["thread scheduling (seeded scheduler that runs exactly one thread at a time)", "heap allocator (simulated heap with seeded layout and injected failures)",
             "mutexes, once-flags and guards of function-local statics", "clock_gettime", "write/writev to the trace file", "getpid/gettid"]
FAULTS_CORE = {"allocation failures": "alloc_faults_fired", "forced thread switches": "preemptions", "wall clock jumps": "clock_jumps", "file write or open faults": "file_faults",
               "errors raised by user callbacks": "callbacks_thrown", "re-entrant callbacks": "reentrant_calls", "scopes left by an exception": "exception_scopes",
               "declarations that failed": "declarations_failed", "first-use (cold) processes": "cold_runs"}
ASSUME_CORE = ["sequentially consistent interleavings of the instrumented memory accesses; races are judged by happens-before, so weak-memory effects of race-free code cannot occur",
               "the C++ standard library, Abseil and fmt are trusted; their headers are instrumented where they are inlined",
               "gcc -O1 code of the same sources as the shipped library"]


def core(scen, quick, thorough, nontrivial, by="hash", dup=(40, 60), share=1, engine="core"):
    return dict(engine=engine, scen=scen, count=(quick, thorough), nontrivial=nontrivial, by=by, dup=dup, share=share)


REAL_PY = "pywrenfold (wrapper and core, compiled from /repo's working tree), the wrenfold Python package from /repo, CPython 3.12, numpy and sympy"
STUB_PY = ["thread scheduling (seeded scheduler; exactly one thread runs; switches where the interpreter lock can change hands, at lines of Python code and at file operations)",
           "malloc family (simulated heap: seeded placement, reuse order and fill; freed memory poisoned and quarantined)", "file operations below the scratch directory (faults; the files are real)",
           "delivery of asynchronous exceptions (at seeded bytecodes)"]
STUB_MOD = ["jax, jax.numpy, torch and user modules (stand-ins whose import can be made to fail or to switch threads)"]
FAULTS_PY = {"forced thread switches": "preemptions", "errors raised by user callbacks": "callbacks_thrown", "failed lookups of overrides": "lookups_failed", "re-entrant callbacks": "reentrant_calls",
             "unbounded self-recursions": "self_recursions", "callbacks that return a wrong value": "bad_returns", "file operation faults": "file_faults", "short writes": "short_writes",
             "failed writes": "write_errors", "interrupted file operations": "interrupted", "asynchronous exceptions": "interrupts", "failed generations": "failed_generations",
             "failed imports": "import_failures", "hash seeds": "hash_seeds", "operations given up half way": "given_up"}
ASSUME_PY = ["threads switch at the points named above, not between two machine instructions (the interpreter lock orders everything else)",
             "CPython, nanobind, numpy and sympy are trusted; their caches are cleared before live memory is compared",
             "pywrenfold compiled with the same options as the shipped extension, with calls to the interpreter lock redirected"]
TECH_PY = "deterministic simulation: seeded scheduler and fault injection under the real interpreter, one process per run"
TECH_CORE = "deterministic simulation: seeded scheduler over the instrumented C++ core in one process"


def P(parts, rule, technique=TECH_CORE, note="", seconds=(100, 600), level="exploration", faults=FAULTS_CORE, real=None, stub=None, assumptions=None):
    return dict(parts=parts, rule=rule, technique=technique, note=note, seconds=seconds, level=level, faults=faults, real=real or [REAL_CORE], stub=stub or STUB_CORE, assumptions=assumptions or ASSUME_CORE)


def py(scen, quick, thorough, nontrivial, by="hash", dup=(40, 60), share=1):
    return core(scen, quick, thorough, nontrivial, by, dup, share, engine="py")


def PY(parts, rule, technique=TECH_PY, note="", seconds=(100, 600), level="exploration", mods=False):
    return P(parts, rule, technique, note, seconds, level, FAULTS_PY, [REAL_PY], STUB_PY + (STUB_MOD if mods else []), ASSUME_PY)


BOTH = dict(faults={**FAULTS_CORE, **FAULTS_PY}, real=[REAL_CORE, REAL_PY], stub=STUB_CORE + STUB_PY, assumptions=ASSUME_CORE + ASSUME_PY)

PROPS = {
    "C01": P([core("C01", 6400, 40000, lambda c: c.get("preemptions", 0) > 0, by="schedule"), py("C01", 1200, 10000, lambda c: c.get("preemptions", 0) > 0, by="schedule")],
             "one case is one seeded plan: 2-5 threads, shared or moved pool of expressions, 1-5 operations per thread out of 27 kinds, heap layout, and a seeded schedule; it is executed once "
             "with the threads one after another and once interleaved, in pristine processes (every static initialisation is part of the run). Part 2: 2-4 Python threads that share expressions, user types and external functions, "
             "1-3 operations each out of 20 kinds, compared with the same operations in a pristine single-threaded process; module code that runs without the interpreter lock is checked for races. "
             "Non-trivial: at least one forced switch; distinct by hash of the schedule",
             **BOTH,
             technique='deterministic simulation: seeded thread schedules over the instrumented core, happens-before race detection, serial run as reference',
             note='Random exploration of schedules at the granularity of single memory accesses in pristine processes; every run repeats exactly. Judges results against the same work run serially, data races by happens-before, deadlock, crashes and leaks. Assumes sequential consistency for race-free code.'),
    "C02": P([core("C02", 9600, 80000, lambda c: c.get("preemptions", 0) > 0 and c.get("unique_symbols", 0) > 1, by="schedule"), py("C02", 3600, 24000, lambda c: c.get("unique_symbols", 0) > 1)],
             "one case is one seeded plan: 2-5 threads that create unique symbols directly and through derivatives of symbolic functions, and a seeded schedule; all symbols are compared pairwise. "
             "Part 2: 1-4 Python threads create, drop, exchange and collect 2-16 batches of 1-3000 unique symbols with several properties; compared pairwise, by hash, by the text they print, and within sums. "
             "Non-trivial: at least one forced switch (part 1) and two symbols; distinct by hash of the schedule",
             **BOTH,
             technique='deterministic simulation: seeded thread schedules over creation of unique symbols',
             note='Random exploration of schedules with switches at every atomic operation and static initialisation; all created symbols are compared pairwise.'),
    "C03": P([core("C03", 6400, 40000, lambda c: c.get("ops", 0) > 1), py("C03", 1600, 12000, lambda c: c.get("ops", 0) > 1)],
             "one case is one seeded plan: 1-4 operations executed in 3-5 pristine processes that differ in heap base, heap layout, reuse order, fill of fresh memory, earlier work, number of unique symbols made, "
             "and concurrent work; all outputs are compared byte for byte. Part 2 does the same with 2-5 operations of the Python package, in two processes with other hash seeds and in one with a past "
             "(earlier work, work given up half way, collection settings, threads, heap layout). Non-trivial: at least one operation; distinct by hash of the whole execution",
             technique='deterministic simulation: seeded heap layout, history and schedule of repeated runs, byte-for-byte comparison',
             **BOTH, note='The same work in 3-5 simulated processes that differ in everything the output must not depend on. Only inputs drawn by the workload generator are covered.'),
    "C04": P([core("C04", 12000, 40000, lambda c: c.get("alloc_faults_fired", 0) > 0)],
             "one case is one seeded plan: one operation, then 24-60 executions of it (or 4-6 pristine processes) in which a seeded allocation (one, several or all following) fails, "
             "with leak, pool and retry checks after each. Non-trivial: at least one allocation failed; distinct by hash of the whole execution", level="fault_enumeration",
             technique='deterministic simulation: seeded allocation failures in the instrumented core, retry and leak oracle',
             note='Seeded choice of the failing allocation in warm and in first-use (cold) executions of 27 kinds of operations. Failures inside the growth of Abseil hash tables are excluded from the search (known finding).'),
    "C05": P([core("C05", 16000, 120000, lambda c: c.get("declarations_failed", 0) > 0)],
             "one case is one seeded history of 3-16 declarations on one description (arguments, outputs, return value, of scalar, matrix and custom types, with clashing names), with a failing allocation "
             "at a seeded position in some of them, compared after each step with a reference model, and at the end with code generated from a description that never saw a failure. "
             "Non-trivial: at least one declaration failed; distinct by hash of the whole execution",
             technique='deterministic simulation: seeded histories of declarations with allocation failures against a reference model',
             note='Every step is compared with an executable model of a description; generated code is compared with that of a description that never saw a failure.'),
    "C09": P([core("C09", 9600, 80000, lambda c: c.get("scopes", 0) > 0, engine="trace")],
             "one case is one seeded plan: 1-4 threads with nested, sibling, exception-left and library-internal scopes, clock steps, allocation failures and file faults, and a seeded schedule; the written trace "
             "is parsed and compared with what the threads did. Non-trivial: at least one scope; distinct by hash of the whole execution",
             technique='deterministic simulation: seeded schedules, clock steps, allocation and file faults over the real trace collector',
             note='The written file is parsed by a strict JSON parser and compared with what the simulated threads did.'),
    "C13": P([core("C13", 4800, 40000, lambda c: c.get("callbacks_thrown", 0) > 0), py("C13", 2400, 20000, lambda c: c.get("callbacks_thrown", 0) > 0)],
             "one case is one seeded plan: 1-4 library calls that take a callback, each repeated 10-24 times with the callback raising (or re-entering the library) at a seeded invocation; "
             "leak, input and retry checks after each. Part 2: 2-8 calls of the Python package that run user code (described functions, dataclass and opaque constructors and attributes, iterators, "
             "element-wise maps, variable factories, modules of the SymPy conversion, overrides), which raises or re-enters at a seeded invocation. Non-trivial: at least one raised error; distinct by hash of the whole execution",
             **BOTH, technique='deterministic simulation: user callbacks that raise or re-enter at seeded invocations',
             note='Each library call that takes a callback is repeated with the callback failing at seeded invocations; error identity, leaks, inputs and retry results are compared.'),
    "C06": PY([py("C06", 5600, 40000, lambda c: c.get("callbacks_thrown", 0) + c.get("reentrant_calls", 0) + c.get("self_recursions", 0) > 0)],
              "one case is one seeded plan: 2-4 functions, 1-2 generators with overrides of up to all 34 node kinds, and 3-12 generations in which the override at a seeded invocation (or the lookup of it) raises one of "
              "some 130 kinds of errors, returns a wrong value, generates other code, fails within that, or recurses without end; the text of every generation is compared with that of a pristine process. "
              "Non-trivial: at least one such callback; distinct by hash of the whole execution",
              technique='deterministic simulation: formatting overrides that raise or re-enter at seeded invocations, under the real interpreter',
              note='Seeded faults in callbacks of generators; error identity, text of later generations, leaks and heap integrity are compared with pristine processes.'),
    "C07": PY([py("C07", 5200, 40000, lambda c: c.get("preemptions", 0) > 0, by="schedule")],
              "one case is one seeded plan: 2-4 threads that share 1-2 generator instances (with and without overrides, which may also fail or re-enter), 1-3 generations each, and a seeded schedule with switches "
              "in callbacks, at every line of user code and wherever the interpreter lock changes hands; all texts are compared with those of a sequential run. Non-trivial: at least one forced switch; distinct by hash of the schedule",
              technique='deterministic simulation: seeded thread schedules over shared generator instances under the real interpreter',
              note='Random exploration of interpreter thread switches at callbacks, lines and lock hand-overs; all texts are compared with a sequential run.'),
    "C08": PY([py("C08", 3600, 30000, lambda c: c.get("ops", 0) > 0)],
              "one case is one seeded plan: 1-4 threads write 1-6 files into directories that do not exist yet, with short, interrupted and failing file operations (no space, I/O error, permissions, a directory "
              "created by another process at that moment) at seeded positions; after each write the directory tree is compared with a model. Non-trivial: at least one write; distinct by hash of the whole execution",
              level="fault_enumeration",
              technique='deterministic simulation: seeded file-operation faults and thread schedules over a scratch directory, model of the tree as oracle',
              note='Faults at every file operation of the helper; contents, other files, descriptors and retries are compared with a model of the directory tree.'),
    "C10": PY([py("C10", 1600, 10000, lambda c: c.get("generations", 0) > 0)],
              "one case is one seeded plan: 1-3 threads that generate and load Python functions for several targets with contexts of their own, some of which fail (import of the target fails, supplied function raises, "
              "loaded code raises), and that later call all functions; results are compared with those in pristine processes. Non-trivial: at least one generation; distinct by hash of the whole execution", mods=True,
              technique='deterministic simulation: seeded histories and thread schedules of generated Python modules with failing imports',
              note='Every generated function is called after the whole history and compared with the same function generated alone in a pristine process; caller dictionaries and module namespaces must be unchanged.'),
    "C11": PY([py("C11", 2800, 20000, lambda c: c.get("interrupts", 0) > 0)],
              "one case is one seeded plan: 2-6 operations of the Python package out of 13 kinds, each interrupted 1-5 times by one of 4 kinds of asynchronous exceptions at a seeded line or bytecode; afterwards all operations "
              "are repeated on the surviving objects and compared with pristine processes. Non-trivial: at least one delivered exception; distinct by hash of the whole execution", level="fault_enumeration",
              technique='deterministic simulation: asynchronous exceptions delivered at seeded bytecodes of the Python package',
              note='Seeded choice of the interrupted bytecode; delivery to the caller, later results, leaks, open files and heap integrity are checked.'),
    "C12": PY([py("C12", 4400, 40000, lambda c: c.get("checks", 0) > 0)],
              "one case is one seeded history of 10-50 steps in 1-3 threads: objects are derived from descriptions, syntax trees, types, expressions, external functions, generators and callbacks, iterated, dropped, put into "
              "reference cycles and collected at seeded moments; each surviving object is compared with what it was and with the same object of a fresh parent. Non-trivial: at least one later comparison; distinct by hash of the whole execution",
              technique='deterministic simulation: seeded histories of derivation, release and collection with poisoned frees and thread schedules',
              note='Freed memory is poisoned and quarantined, so a dangling object shows as a changed value, a crash or a heap error; repeated histories must not grow live memory.'),
}
ENGINES_USED = ["core", "trace", "py"]
