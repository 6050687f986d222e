#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that long statements stay readable)."""
import json, os
W = "components/core/wf/"
P = "components/wrapper/pywrenfold/"
Y = "components/python/wrenfold/"
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = list(observe)
    a["hook_needed"] = hook
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a}

PROPS = [
 prop("C01", "Caller threads may share expressions and compile concurrently",
  "Any number of caller threads may at the same time build, differentiate, substitute, evaluate, print and compare expressions that they share, and transpile and generate code from them, including when several threads make the very first use of a feature in the process. "
  "Each thread obtains exactly the result it would obtain running alone, and no thread ever accesses memory in an unsynchronised way, deadlocks or crashes. (Names of unique symbols, which number them in the order of their creation in the process, are compared up to renumbering.)",
  ["schedules", "programs"], "every interleaving of every set of caller threads over shared immutable expressions, from a cold or a warm process",
  "All existing tests are single threaded, so no schedule other than the sequential one is ever executed, and first use always happens once on one thread.",
  [W+"expression_variant.h", W+"functions.cc", W+"derivative.cc", W+"geometry/quaternion.cc", W+"expressions/power.cc", W+"code_generation/expr_from_ir.cc", W+"code_generation/declare_external_function.h", W+"constants.cc"],
  [("immutable nodes owned by shared_ptr<const>, hash computed at construction", W+"expression_variant.h"), ("function-local static constants", W+"functions.cc"), ("per-call caches inside visitors", W+"derivative.h, "+W+"expression_cache.h")],
  [("shared expression nodes", "reference counts and immutable payload", W+"expression_variant.h"), ("function-local statics", "lazily created constants and lookup tables", W+"functions.cc")],
  ["results of every public operation", "generated source text"]),
 prop("C02", "Unique symbols never collide",
  "Every unique symbol created in a process differs from every other unique symbol created in that process, whichever threads create them and however their creation interleaves. "
  "Creating one never fails or blocks because another thread is creating one, and two distinct unique symbols never compare equal or merge in an expression.",
  ["schedules", "histories"], "every interleaving of concurrent creations from any number of threads, mixed with other uses, including creations that fail",
  "Tests create a handful of unique symbols on one thread; a lost update between two creators needs a preemption between two instructions.",
  [W+"expressions/variable.cc", W+"expressions/variable.h", W+"expression.cc"],
  [("atomic process-wide counter", W+"expressions/variable.cc")], [("next index", "next unique variable index", W+"expressions/variable.cc")], ["symbol identity, ordering, hash and printed name"]),
 prop("C03", "Generated code and printed output are reproducible",
  "For the same input, every output the library produces (printed expressions, simplified or rewritten expressions, optimised intermediate form, syntax trees, and generated code in every target language) is byte-for-byte identical in every process and on every call. "
  "It does not depend on memory addresses, memory reuse, hash seeds, the order of unrelated earlier work in the process, or on which thread runs it. (Names of unique symbols, which number them in the order of their creation in the process, are compared up to renumbering.)",
  ["histories", "schedules", "inputs"], "every heap layout and address reuse pattern, hash seed, history of unrelated earlier or interleaved operations, and thread",
  "A test runs one input in one process with whatever addresses malloc returned; order-dependence on addresses or hash salts shows only when two runs get different layouts.",
  [W+"code_generation/factorizer.cc", W+"code_generation/control_flow_graph.cc", W+"code_generation/binarizer.cc", W+"code_generation/ir_control_flow_converter.cc", W+"code_generation/ast_conversion.cc", W+"code_generation/ir_form_visitor.cc", W+"cse.cc", W+"collect.cc", W+"expressions/addition.cc", W+"expressions/multiplication.cc"],
  [("operands sorted by value name / canonical order before emission", W+"code_generation/binarizer.cc"), ("canonical ordering independent of addresses", W+"expression.cc"), ("topological ordering by name", W+"code_generation/control_flow_graph.cc")],
  [("hash containers keyed by pointer or expression", "iteration order depends on addresses and salts", W+"code_generation/factorizer.cc")], ["generated source text", "printed expressions"]),
 prop("C04", "Running out of memory fails cleanly and can be retried",
  "If any memory allocation made while building, rewriting, printing or compiling expressions fails, the operation either still succeeds or reports an out-of-memory error to its caller; the process is never terminated, no memory is leaked and no other object is changed. "
  "Once memory is available again, repeating the operation gives exactly the result it gives when nothing ever failed, also when the failure hit the first use of a feature in the process. (Names of unique symbols, which number them in the order of their creation in the process, are compared up to renumbering.)",
  ["fault_sequences", "crash_points", "programs"], "every position at which a single allocation, or every allocation from that position on, fails, in every public operation, from a cold or warm process",
  "Existing tests never make an allocation fail; every operation has thousands of distinct failure points.",
  [W+"expression_variant.h", W+"code_generation/control_flow_graph.cc", W+"code_generation/ir_block.cc", W+"code_generation/ir_value.cc", W+"code_generation/function_description.cc", W+"code_generation/factorizer.cc", W+"expressions/power.cc"],
  [("RAII ownership throughout (shared_ptr / unique_ptr / containers)", W+"expression_variant.h, "+W+"code_generation/control_flow_graph.h"), ("no allocation inside functions declared noexcept", W+"expression_variant.h")],
  (), ["exception type seen by the caller", "live heap bytes", "result of the retry"]),
 prop("C05", "A failed declaration leaves the function description unchanged",
  "While a caller declares a function's inputs, outputs and return value, any declaration that fails, whether rejected for a duplicate name or a second return value or interrupted by an out-of-memory error at any point, leaves the description exactly as it was before that declaration. "
  "The caller may repeat it, continue with other declarations and compile the description, and obtains the same arguments in the same order and the same generated code as if the failed attempt had never happened.",
  ["fault_sequences", "histories"], "every sequence of declarations, with failures at any allocation of any of them, in any combination",
  "Tests declare each function once on the success path; the partially applied states between two allocations are never reached.",
  [W+"code_generation/function_description.cc", W+"code_generation/function_description.h", P+"codegen_wrapper.cc"],
  [("duplicate checks before mutation", W+"code_generation/function_description.cc")], [("arguments, return value type and output expressions", "must stay mutually consistent", W+"code_generation/function_description.h")],
  ["listed arguments", "return type", "generated code"]),
 prop("C06", "A failing or re-entrant formatter callback never corrupts a generator",
  "When a user-written formatting override raises at any invocation, or re-enters the same generator, or generates other code before returning, the raised error reaches the caller unchanged and nothing else is affected. "
  "The same generator instance can then be used again, any number of times, and produces exactly the text it produces when no callback ever failed; unbounded self-recursion of an override is reported as an error, never as a crash.",
  ["fault_sequences", "histories", "crash_points"], "every choice of overridden element kinds, every callback invocation at which an error is injected, every sequence of failed, nested and successful generations on one generator",
  "Tests exercise overrides that succeed, plus one error at one place; the state left behind by a failure at the n-th nested callback followed by reuse is not sampled.",
  [P+"code_formatting_wrapper.cc", W+"code_generation/cpp_code_generator.cc", W+"code_generation/python_code_generator.cc", W+"code_generation/rust_code_generator.cc"],
  [("recursion guard restores its counter on unwinding", P+"code_formatting_wrapper.cc"), ("override lookup cache", P+"code_formatting_wrapper.cc")],
  [("recursion counters / override cache", "mutable state inside a const generator", P+"code_formatting_wrapper.cc")], ["generated text", "exception seen by the caller"]),
 prop("C07", "One generator instance may be shared by several Python threads",
  "Several Python threads may generate code through one generator instance at the same time, with or without Python formatting overrides, whatever way the interpreter switches between them. "
  "Every thread obtains exactly the text that a sequential run produces, and no thread sees an error caused by another thread's generation being in progress.",
  ["schedules"], "every interleaving, at Python line granularity and inside nested callbacks, of several threads generating through one instance",
  "Tests never generate from two threads; failures need several threads suspended inside nested callbacks at the same moment.",
  [P+"code_formatting_wrapper.cc"], [("mutable caches and counters guarded by the interpreter lock", P+"code_formatting_wrapper.cc")],
  [("recursion counters", "nesting depth per formatted kind", P+"code_formatting_wrapper.cc")], ["generated text", "exceptions"]),
 prop("C08", "Writing generated code to a file is exact, or reports an error",
  "When the helper that writes generated code returns without an error, the file at the given path contains exactly the generated text encoded as UTF-8 and nothing else, with every missing parent directory created, even if the operating system performs short or interrupted writes or other threads write other files into the same not yet existing directories at the same time. "
  "When the disk is full or any file operation fails for good, the caller gets an error instead of silent truncation, no file descriptor is leaked, files other than the target are untouched, and a later call succeeds once the fault is gone.",
  ["fault_sequences", "schedules", "inputs"], "every placement of short, interrupted and failing system calls, and every interleaving of concurrent writers",
  "The existing tests and examples write to a healthy disk from one thread.",
  [Y+"code_generation.py"], [("parent directories created on demand, binary write, explicit flush and close", Y+"code_generation.py")], (), ["bytes of the target file", "exception seen by the caller", "open descriptors"]),
 prop("C09", "Tracing records each completed scope exactly once, as valid JSON",
  "When tracing is used, every traced scope that completes normally appears exactly once in the written trace, with its own name and thread, a start time, and a duration that is never negative and nests correctly inside its enclosing scope on the same thread, even when the system's wall clock is stepped backwards or forwards. "
  "The file is a valid JSON document for any number of scopes and threads, scopes left by an exception do not corrupt it, and failures to allocate or to write the file never terminate the traced program.",
  ["schedules", "fault_sequences", "histories"], "every interleaving of traced threads, clock jump, nesting, exception unwinding, allocation failure and file fault",
  "Tracing is compiled out in the tests; clock jumps, concurrent submission and disk faults cannot be produced by a unit test.",
  [W+"utility/scoped_trace.cc", W+"utility/scoped_trace.h"], [("events appended under a mutex", W+"utility/scoped_trace.cc"), ("written when the collector is destroyed", W+"utility/scoped_trace.cc")],
  [("event list", "completed scopes", W+"utility/scoped_trace.cc")], ["trace file contents"]),
 prop("C10", "Generated Python functions are isolated from each other",
  "Each function produced by generating and loading Python code uses only the context given in its own call and the target module it asked for; it is not affected by other generations before, after or concurrently, including ones that fail, nor does a generation change the caller's context dictionary or the library's own namespace. "
  "A generation that fails, for instance because the target module cannot be imported, the supplied function raises or the loaded code raises, leaves later generations with exactly the results they would have had without it.",
  ["histories", "schedules", "fault_sequences"], "every sequence and interleaving of generations with different targets, contexts and names, with failures injected at any step",
  "Tests load one function at a time on one thread, and import the target modules successfully first.",
  [Y+"code_generation.py", Y+"custom_types.py"], [("copy of module globals per call", Y+"code_generation.py"), ("separate locals dictionary per execution", Y+"code_generation.py")],
  [("module namespace", "must stay unchanged", Y+"code_generation.py")], ["value returned by loaded functions", "module and context dictionaries"]),
 prop("C11", "An interrupt at any point of the Python layer has no lasting effect",
  "If a keyboard interrupt or any other asynchronous exception arrives at any point while the Python layer builds a function description, generates, loads or writes code, converts custom types, or converts to and from SymPy, the exception reaches the caller. "
  "Every later operation, on the same and on other objects that survive, then behaves exactly as if the interrupted operation had never been started.",
  ["crash_points", "histories"], "every executed line of the Python layer as interruption point, followed by any later operations",
  "Unit tests never deliver an exception at a chosen line.",
  [Y+"code_generation.py", Y+"custom_types.py", Y+"external_functions.py", Y+"sympy_conversion.py", P+"sympy_conversion.cc"],
  [("no process-wide mutable state in the Python layer", Y+"code_generation.py")], (), ["results of later operations", "module state"]),
 prop("C12", "Objects stay valid whatever the order in which their parents are collected",
  "Any object reached from a description, syntax tree, type, expression or generator through the Python API remains valid and unchanged for as long as it is referenced, in whatever order and at whatever moment the interpreter collects the objects it was obtained from, and whichever thread drops the last reference. "
  "When all references are dropped, everything is released.",
  ["histories", "schedules"], "every traversal of the object graph, every order and time of dropping references and running the collector, with freed memory overwritten",
  "Tests keep the parents alive; use after free on ordinary memory usually still reads the old bytes.",
  [P+"ast_wrapper.cc", P+"codegen_wrapper.cc", P+"types_wrapper.cc", P+"expressions_wrapper.cc", P+"compound_expression_wrapper.cc"],
  [("return value policies and keep-alive relations of the bindings; shared ownership of tree nodes", P+"ast_wrapper.cc, "+P+"types_wrapper.cc")], (), ["repr and attributes of retained objects"]),
 prop("C13", "A failing user callback inside the core leaves nothing behind",
  "If a user-supplied function called by the library (the variable factory or predicate of an expression rewrite, the symbolic function being described, a conversion callback) raises at any invocation, or itself calls back into the library, its error reaches the caller unchanged and all inputs keep their value. "
  "No memory is leaked, and later calls give the results they would have given without the failure.",
  ["fault_sequences", "histories"], "every invocation of every user callback as the point of failure or of re-entry",
  "Tests pass callbacks that always succeed and never re-enter.",
  [W+"cse.cc", W+"utility_visitors.cc", W+"code_generation/function_evaluator.h", P+"expressions_wrapper.cc", Y+"code_generation.py"],
  [("state kept in per-call visitor objects", W+"cse.cc, "+W+"utility_visitors.cc")], (), ["exception seen by the caller", "live heap bytes", "later results"]),
]

NA = "Pure function of its input: no schedule, clock, I/O, fault or multi-party behaviour decides whether it holds."
def na(id, title, statement, why, files, mech):
    return prop(id, title, statement, ["inputs"], "every input expression / program", why, files, mech)
T = "Tests sample a fixed handful of inputs; the guarantee is for all of them."
PROPS += [
 na("N01", "Simplification preserves value", "Automatic canonicalisation while an expression is built never changes its mathematical value wherever the original is defined.", T, [W+"expressions/addition.cc", W+"expressions/multiplication.cc", W+"expressions/power.cc", W+"functions.cc"], [("canonicalising constructors", W+"expressions/power.cc")]),
 na("N02", "Derivatives are correct", "The symbolic derivative of an expression equals its mathematical derivative at every point where both are defined.", T, [W+"derivative.cc"], [("derivative rules per node", W+"derivative.cc")]),
 na("N03", "Generated code computes the symbolic function", "For every function and every target language, executing the generated code gives the value of the symbolic function up to floating point rounding.", T, [W+"code_generation/ast_conversion.cc", W+"code_generation/cpp_code_generator.cc", W+"code_generation/rust_code_generator.cc", W+"code_generation/python_code_generator.cc"], [("lowering pipeline", W+"code_generation/ir_form_visitor.cc")]),
 na("N04", "Optimisation passes preserve meaning", "Common subexpression elimination, factorisation, operand reordering and conversion of conditionals to branches never change any output value.", T, [W+"code_generation/control_flow_graph.cc", W+"code_generation/factorizer.cc", W+"code_generation/binarizer.cc", W+"code_generation/ir_control_flow_converter.cc", W+"cse.cc"], [("passes over the intermediate form", W+"code_generation/control_flow_graph.cc")]),
 na("N05", "Expression order, equality and hash agree", "The canonical order is a strict total order on expressions, identical expressions compare equal, and equal expressions have equal hashes.", T, [W+"expression.cc", W+"utility/ordering.h", W+"utility/hashing.h"], [("order, identity and hash traits", W+"expression.cc")]),
 na("N06", "Substitution is simultaneous and complete", "Replacing a set of targets replaces every occurrence of each at once, and leaves everything else unchanged.", T, [W+"substitute.cc"], [("substitution visitors", W+"substitute.cc")]),
 na("N07", "Integer arithmetic never wraps silently", "Exact integer and rational arithmetic either gives the exact result or reports overflow.", T, [W+"integer_utils.h", W+"expressions/numeric_expressions.h"], [("checked integer type", W+"integer_utils.h")]),
 na("N08", "SymPy conversion round-trips", "Converting an expression to SymPy and back gives an equivalent expression.", T, [P+"sympy_conversion.cc", Y+"sympy_conversion.py"], [("conversion visitor", P+"sympy_conversion.cc")]),
 na("N09", "Numeric evaluation is accurate", "Numerically evaluating a constant expression gives the correctly computed floating point value.", T, [W+"evaluate.cc", W+"numerical_casts.cc"], [("evaluate visitor", W+"evaluate.cc")]),
 na("N10", "Matrix operations satisfy their algebra", "Products, stacks, determinants and the pivoted factorisation satisfy their defining equations for all shapes.", T, [W+"matrix_expression.cc", W+"matrix_functions.cc"], [("matrix functions", W+"matrix_functions.cc")]),
 na("N11", "Quaternion operations satisfy their identities", "Conversions between quaternions, rotation matrices and rotation vectors are mutually consistent, including at small angles.", T, [W+"geometry/quaternion.cc"], [("quaternion type", W+"geometry/quaternion.cc")]),
 na("N12", "Optional outputs are independent", "Omitting any subset of the optional outputs of a generated function never changes the other outputs.", T, [W+"code_generation/ast_conversion.cc", W+"code_generation/control_flow_graph.cc"], [("branches guarding optional outputs", W+"code_generation/ast_conversion.cc")]),
 na("N13", "Custom types keep their layout", "Fields of user types map to expressions and back in declaration order, including nested types and matrices.", T, [W+"code_generation/type_registry.cc", Y+"custom_types.py"], [("field enumeration", W+"code_generation/types.cc")]),
 na("N14", "Spans index exactly the memory they describe", "A span of any dimensions and strides accesses exactly the elements of the array it was made from, with no copy.", T, ["components/runtime/wrenfold/span.h"], [("strided indexing", "components/runtime/wrenfold/span.h")]),
 na("N15", "External function calls are type checked", "A call of a user-declared function is accepted exactly when the arguments match the declared names and types.", T, [W+"external_function.cc", Y+"external_functions.py"], [("argument validation", W+"external_function.cc")]),
 na("N16", "Reported operation counts match the emitted code", "The operation counts printed in generated code equal the number of operations of each kind in it.", T, [W+"code_generation/operation_counts.cc", W+"code_generation/control_flow_graph.cc"], [("operation counting", W+"code_generation/operation_counts.cc")]),
 na("N17", "Expanding and collecting preserve value", "Distributing products and collecting terms give an expression of equal value.", T, [W+"distribute.cc", W+"collect.cc"], [("distribute and collect visitors", W+"distribute.cc")]),
 na("N18", "Printed expressions are unambiguous", "Printing parenthesises so that different expressions never print alike in a way that changes their meaning.", T, [W+"plain_formatter.cc"], [("precedence handling", W+"plain_formatter.cc")]),
]
for p in PROPS:
    assert len(p["title"]) <= 80, p["title"]
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in PROPS: f.write(json.dumps(p) + "\n")
print(len(PROPS))
