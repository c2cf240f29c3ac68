#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only so the lines stay valid JSON)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe), hook_needed=None)))
F = "src/function/"
prop("C01", "Element-wise list arithmetic computes every element and only those",
 "For the list arithmetic and list math builtins (add, subtract, multiply, divide, modulo, bitwise and/or/xor with a scalar or a second list, exp, log, log2, log10, ceil, floor, round, element-wise min and max), the result has exactly as many elements as the list operand and element i is the scalar operation applied to the operands' elements at position i. When two list operands differ in length the call records an error in the execution context and returns an empty list instead.",
 ["inputs"], "every list length, every element value, every numeric element type each builtin is registered for",
 "Tests sample a handful of short lists per type; nothing exercises every length residue, the last element, every value or every one of the ~300 instantiations.",
 [F+"list_arithmetic.cc"], [("list arithmetic kernels", F+"list_arithmetic.cc"), ("registration table", F+"list_arithmetic.cc: Init*Func")],
 observe=["function pointers published by the registry"])
prop("C02", "List comparison, bitmap and conditional-select builtins are exact",
 "A generated bitmap has ceil(n/8) bytes, bit i is set exactly when the comparison holds for element i, and the unused high bits of the last byte are zero; the conditional replace/select builtins pick for each position the value the condition or the bitmap bit dictates and keep the length. Filtering by a bitmap keeps exactly the elements whose bit is set, in order; inputs whose sizes or bit counts are inconsistent record an error and return an empty list.",
 ["inputs"], "every list length, every element value, every bitmap content, every registered element type",
 "The bit tail handling depends on the length modulo 8 and on bitmap contents; tests sample a few lengths and patterns.",
 [F+"list_comparison.cc"], [("bitmap kernels", F+"list_comparison.cc"), ("bitmap sugar emitters", F+"list_comparison.cc")],
 observe=["function pointers published by the registry", "IR emitted for the two-argument filter"])
prop("C03", "List aggregations equal the fold they name, for every list",
 "Sum and average are the left-to-right accumulation in the wide result type, max and min return an element of the list that bounds every other, bit counting counts every set bit once, element access returns the element or the type's zero beyond the end, the sorted median returns the middle element or the mean of the two middle ones. Every aggregation of an empty list returns zero.",
 ["inputs"], "every list length including zero, every element value, every registered element type",
 "Tests use short hand-written lists; block/tail splits and widening happen only on other lengths and values.",
 [F+"list_aggregation.cc"], [("aggregation kernels", F+"list_aggregation.cc")],
 observe=["function pointers published by the registry"])
prop("C04", "Search, lookup, gather and bucketize return exactly the defined positions",
 "Find returns the first matching position and sorted find returns the first position of the value in an ascending list, or the miss marker when there is none; index lookup maps every element to its first position in the second list or to the miss marker. Compaction keeps exactly the non-miss entries in order, gather returns the addressed element or the default for an out-of-range index, and bucketize returns for each value the number of boundaries not greater than it.",
 ["inputs"], "every list length, every element value (ascending where the builtin requires it), every registered element type",
 "Binary search boundaries, duplicate values, the linear/binary switch-over and all-miss inputs are reached only by specific inputs.",
 [F+"list_indexing.cc"], [("search kernels", F+"list_indexing.cc"), ("lookup table build/probe", F+"list_indexing.cc")],
 observe=["function pointers published by the registry"])
prop("C05", "Grouping builtins assign dense first-appearance ids and aggregate per group",
 "Group indexing numbers keys 0,1,2,... in order of first appearance, equal keys sharing a number; the group count is one more than the largest number (zero for an empty list) and group keys are the distinct keys in that order. Per-group sum, max, min and average of a value list equal the ungrouped aggregate of the values whose group number is g, for every group g, and operands of different lengths record an error and return an empty list.",
 ["inputs"], "every key/value list and every group index with entries below the group count, every registered element type",
 "Tests use a few tiny groupings with friendly values; the result is a fold over arbitrary interleavings of groups.",
 [F+"list_group.cc"], [("group kernels", F+"list_group.cc"), ("two-argument sugar emitters", F+"list_group.cc")],
 observe=["function pointers published by the registry", "IR emitted for the two-argument forms"])
prop("C06", "List construction and conversion builtins produce exactly the described list",
 "Concatenation yields all elements of the first list followed by all of the second, membership is true exactly when some element equals the value, casting converts each element in place, unique keeps the first occurrence of each value in order, truncation keeps the shorter of the two lengths over the same elements, sorting orders exactly the same elements ascending or descending, and length reports the element count. The cross join and zip of string lists yield, at each position, the left string, the separator and the right string back to back.",
 ["inputs"], "every list length, element value, string content and separator, every registered element type",
 "Tests sample a few lists; offsets, byte counts and order over nested loops need every length.",
 [F+"list_basic.cc"], [("list kernels", F+"list_basic.cc"), ("length/truncate emitters", F+"list_basic.cc")],
 observe=["function pointers published by the registry", "IR emitted for length and truncate"])
prop("C07", "String builtins respect explicit lengths and byte content",
 "String concatenation yields exactly the bytes of both operands, comparison orders strings bytewise with the shorter prefix first and is zero only for equal strings, and containment is true exactly when the second string occurs in the first. All of them use the explicit length, so embedded zero bytes and empty strings are ordinary content.",
 ["inputs"], "every pair of byte strings of every length",
 "Tests use short printable literals.",
 [F+"string_function_init.cc"], [("string kernels", F+"string_function_init.cc")],
 observe=["function pointers published by the registry"])
prop("C08", "Builtin kernels never touch memory outside their operands and their own result",
 "Executing a builtin list or string function reads only inside the operands' declared lengths, writes only inside memory it allocated itself for the result, and leaves every operand unchanged. This holds for all operand lengths, including zero and lengths that are a multiple of the internal block size, and also for inconsistent operands that are reported as errors.",
 ["inputs"], "every operand length and content, every registered instantiation",
 "An out-of-bounds access inside an arena chunk is invisible to assertions and to sanitizers; the tests never look beyond the result.",
 [F+"list_arithmetic.cc", F+"list_comparison.cc", F+"list_aggregation.cc", F+"list_basic.cc", F+"list_group.cc", F+"list_indexing.cc", F+"string_function_init.cc", F+"murmurhash3.cc"],
 [("kernel loops", F), ("arena allocation sizes", F)], observe=["memory around the result buffer", "guard pages around operands"])
prop("C09", "Generated code for scalar operators computes the promoted-type operation",
 "For every operator and every accepted pair of operand types, the compiled expression converts both operands to the common promoted type and applies that type's signed, unsigned or floating operation, comparisons yielding 0 or 1; shifts keep the left operand's type. The unary operators yield the negation, the logical complement and the bitwise complement of the operand in the operator's result type.",
 ["inputs", "programs"], "every operand value, every operator, every accepted combination of operand types",
 "There are 20+ operators times 100 type pairs; tests cover a few pairs and values, rarely mixed signedness or unsigned high bits.",
 ["src/codegen/binary_op_codegen.cc", "src/codegen/unary_op_codegen.cc", "src/codegen/codegen.cc", "src/type.cc", "src/validator.cc"],
 [("operator emission", "src/codegen/binary_op_codegen.cc"), ("promotion", "src/type.cc")], observe=["IR emitted for the expression"])
prop("C10", "Numeric conversions preserve every representable value",
 "Whenever generated code converts a number between numeric types, implicitly for an operator, branch or store or explicitly through a cast builtin, the result equals the source value if the target type can represent it, integers otherwise wrap modulo the target width, and conversions to floating point round to nearest. In particular widening uses the signedness of the source type.",
 ["inputs", "programs"], "every source value, every ordered pair of numeric types",
 "100 ordered type pairs and all values; tests hit mostly same-signedness pairs with small positive values.",
 ["src/codegen/codegen.cc", F+"math_function_init.cc"], [("numeric conversion emission", "src/codegen/codegen.cc"), ("cast builtins", F+"math_function_init.cc")],
 observe=["IR emitted for casts and mixed-type operators"])
prop("C11", "Compiled control flow evaluates exactly the selected branch",
 "A compiled conditional, multi-way switch, short-circuit logical operator or if-block evaluates its conditions in order, evaluates the selected branch exactly once and evaluates no other branch, and yields the selected branch's value converted to the common type. A value-less if-block runs exactly the statements of the first branch whose condition is true, or of the else branch.",
 ["inputs", "programs"], "every combination of condition values and operand values, for each branch shape and branch type pair of the enumerated program family",
 "Which sub-expressions were evaluated is only visible through side effects; tests sample outcomes, not every path combination.",
 ["src/codegen/if_codegen.cc", "src/codegen/switch_codegen.cc", "src/codegen/if_block_codegen.cc", "src/codegen/binary_op_codegen.cc"],
 [("conditional emission", "src/codegen/if_codegen.cc"), ("switch emission", "src/codegen/switch_codegen.cc"), ("if-block emission", "src/codegen/if_block_codegen.cc"), ("short circuit", "src/codegen/binary_op_codegen.cc")],
 observe=["IR emitted for the program: guarded calls and result"])
prop("C12", "Scalar math builtins apply the named function at the documented type",
 "Every scalar math builtin converts its arguments to the documented result or parameter type without losing value and applies the named mathematical function once at that precision; scalar minimum and maximum return the smaller and larger operand under the operand type's own ordering. Raising to an integer power uses the full 32-bit exponent.",
 ["inputs"], "every argument value, every registered overload",
 "Tests check a few points per function with tolerant comparisons and small exponents.",
 [F+"math_function_init.cc"], [("math builtin emitters", F+"math_function_init.cc")], observe=["IR emitted for the call"])
prop("C13", "Static type rules form one consistent, value-safe lattice",
 "The promoted type of two numeric types is independent of operand order, is one of the two (a float before any integer, otherwise the wider, at equal width the unsigned one), and is idempotent; type predicates partition the types into integers, floats, lists and strings consistently with the element size and element type tables. The type the compiler reports for an expression is the type of the value its code produces.",
 ["inputs", "programs"], "every value type and every ordered pair of value types",
 "The tables are checked by tests only at the entries tests happen to use.",
 ["src/type.cc", "include/type.h", "src/validator.cc"], [("type helper tables", "src/type.cc"), ("validation rules", "src/validator.cc")], observe=["type helper functions", "declared result type of compiled programs"])
prop("C14", "Arena blocks are aligned, in bounds and never overlap",
 "Every non-empty block returned by the arena lies wholly inside memory the arena owns, has the requested alignment and does not overlap any block handed out since the last reset, for every sequence of requests and resets; an empty request returns a null pointer and changes nothing. A reset frees every chunk but the first and makes exactly the first chunk available again, and objects created with a destructor are destroyed exactly once, last created first.",
 ["inputs", "histories"], "every request size (up to the address-space bound) and power-of-two alignment, every sequence of allocations and resets",
 "Overlap needs particular size/alignment/remaining-space combinations over long histories.",
 ["include/arena.h", "src/arena.cc"], [("bump allocation", "src/arena.cc"), ("reset", "src/arena.cc"), ("finalizers", "src/arena.cc")],
 state=[("available window", "the unused tail of the current chunk", "include/arena.h"), ("chunk list", "all memory owned", "include/arena.h")])
prop("C15", "Loading a compiled artifact never reads outside the given bytes",
 "For every byte string given to the artifact loader, parsing reads only inside that string and either fails with an error status or yields fields that lie inside it; truncated, oversized or inconsistent length fields are rejected rather than followed. Whatever the writer produces from valid fields is parsed back to the same fields.",
 ["inputs"], "every byte string of every length; every set of artifact fields",
 "Malformed blobs are an unbounded input space; tests truncate or flip a few.",
 ["src/compiled_artifact.cc", "src/compiled_artifact.h"], [("bounds-checked reader", "src/compiled_artifact.cc"), ("writer", "src/compiled_artifact.cc")])
prop("C16", "Runtime errors recorded during execution always surface and never leak",
 "If any builtin records an error in the execution context during an execution, that execution returns a non-success status carrying the recorded messages; if none does, it succeeds and delivers the compiled function's value. After an execution with a caller-provided context returns, the context holds no errors, so one execution's errors never affect the next.",
 ["inputs", "histories"], "every result type, every sequence of executions on one context",
 "Each result type and each overload has its own dispatch path; tests cover a few.",
 ["src/exec_engine.cc", "src/batch_exec_engine.cc", "src/execute_dispatch.h", "include/exec_options.h"],
 [("execute dispatch", "src/execute_dispatch.h"), ("context clear", "src/exec_engine.cc")])
prop("C17", "A failed compile or load never leaves a callable stale program",
 "After compiling or loading a program fails, executing the engine reports an error instead of calling code that was never produced or has been released, whatever program the engine held before. Executing an engine that was never compiled also reports an error, through every execution entry point.",
 ["histories", "fault_sequences"], "every sequence of compile, load and execute calls with every failing step",
 "Needs a failure at a specific internal step after an earlier success; the consequence is a use-after-free that may pass silently.",
 ["src/exec_engine.cc", "src/batch_exec_engine.cc", "src/jit_core.cc"], [("engine state reset", "src/exec_engine.cc"), ("batch engine state reset", "src/batch_exec_engine.cc")])
prop("C18", "Pipeline grouping unions exactly the connected pipelines",
 "Two ids are reported connected exactly when a chain of union operations links them; looking up a representative is idempotent and never changes which ids are connected. Every input pipeline ends up in exactly one group.",
 ["histories", "inputs"], "every sequence of union and find operations on arbitrary ids",
 "Path compression and rank effects depend on the history of operations.",
 ["athena/dsu.cc", "athena/dsu.h", "athena/pipeline_grouper.cc"], [("disjoint set", "athena/dsu.cc"), ("grouping", "athena/pipeline_grouper.cc")])
prop("C19", "The list hash equals the reference 32-bit Murmur3 of the element bytes",
 "Hashing a list returns the x86 32-bit Murmur3 hash, with the library's fixed seed, of exactly the bytes of its elements, for every length including those not a multiple of four bytes.",
 ["inputs"], "every list length and content, every registered element type",
 "Tests pin a few golden values.",
 [F+"murmurhash3.cc", F+"list_basic.cc"], [("hash body and tail", F+"murmurhash3.cc")], observe=["function pointers published by the registry"])
prop("C20", "Function lookup resolves exactly the registered overload",
 "A call resolves to the function registered under exactly that name and those parameter types and to no other; registering the same name and parameter types again is refused and leaves the first registration in force.",
 ["histories", "inputs"], "every sequence of registrations and lookups",
 "Depends on hash/equality over arbitrary signatures and on registration history.",
 ["src/function_registry.cc", "include/function_registry.h"], [("signature key", "src/function_registry.cc")])
prop("C21", "A variable reference denotes the innermost visible definition",
 "In a program with nested blocks, a reference evaluates to the most recent definition visible at that point, definitions made inside a block are not visible after it, and constants cannot be redefined.",
 ["programs"], "every program", "Nesting and shadowing combinations are unbounded; tests sample a few.",
 ["src/scope_stack.h", "src/validator.cc", "src/codegen/ref_node_codegen.cc", "athena/ast_builder.cc"], [("scope stack", "src/scope_stack.h")])
prop("C22", "Source text parses to the tree the grammar's precedence defines",
 "Every expression text is either rejected with a located error or parsed into the operator tree its precedence and associativity rules define, with literals keeping their exact value.",
 ["inputs", "programs"], "every source text", "The language is infinite; tests parse examples.",
 ["athena/parser.yy", "athena/parser.cc", "athena/token.ll", "athena/token.cc"], [("grammar tables", "athena/parser.yy")])
prop("C23", "Concurrent executions of one compiled program do not interfere",
 "After a successful compile, any number of threads may execute the same engine concurrently, each with its own context, and each obtains the result it would obtain alone.",
 ["schedules"], "every interleaving of executions", "Interleavings cannot be enumerated by tests.",
 ["src/exec_engine.cc", "src/batch_exec_engine.cc", "README.md"], [("no shared mutable state during execution", "src/execute_dispatch.h")])
prop("C24", "Optimisation and batching preserve program results",
 "Compiling many programs together, sharing common sub-expressions between them, or running the optimiser yields for each program the same result as compiling and running it alone without optimisation (strict floating-point mode).",
 ["programs", "inputs"], "every set of programs and every input", "Optimiser and batching interactions are unbounded.",
 ["src/jit_core.cc", "src/batch_exec_engine.cc", "athena/pipeline_grouper.cc"], [("optimisation pipeline", "src/jit_core.cc")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
