#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []
def prop(id, title, statement, over, text, cant, files, state, mech, obs, level, tech, note, hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=cant,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=obs, hook_needed=hook),
        _level=level, _tech=tech, _note=note))

ENUM = "exhaustive bounded enumeration of programs on the real compiler and VM"
BOUND = "Exhaustive within the stated bounds (every sentence of the bounded grammars / every operation sequence to the depth); nothing is claimed beyond them. "

prop("P01", "Garbage collection is invisible to programs",
 "The result, the emitted effects and the reported errors of a program do not depend on when the garbage collector runs or on how large the heap is, as long as the live values fit. "
 "A collection never frees, reuses or changes a value which the program or the host can still reach.",
 ["programs", "schedules", "configurations"], "every program, every heap capacity in which its live values fit, every placement of collections (automatic or requested by the program or host)",
 "The tests run 16 fixed programs with a heap so large that the collector never runs; a missing root only shows when a collection falls on one particular allocation.",
 ["duckVM.c"],
 [("heap objects and their in-use flags", "which objects are live", "duckVM.c duckVM_gclist_*"), ("roots", "stack, globals, current closure, upvalue arrays, half-built values", "duckVM.c duckVM_gclist_garbageCollect")],
 [("mark and sweep", "duckVM.c duckVM_gclist_markObject, duckVM_gclist_garbageCollect"), ("registering intermediate objects on the stack while building", "duckVM.c instruction handlers and duckVM_push*/duckVM_object_make*")],
 ["result printed by the host", "emitted log", "error status", "address sanitizer on freed payloads"],
 "exploration", "exhaustive enumeration of collection schedules (every heap size / every GC point) per enumerated program, real VM",
 BOUND + "Oracle: the same program run with a heap so large that no collection happens. Trusts the address sanitizer and the poisoning of freed objects to expose use of dead objects.")

prop("P02", "Host objects are destroyed exactly once, and only when unreachable",
 "The destructor which the host registers for a heap object runs exactly once: at the first collection after the last reference from the stack, a global, an upvalue or another reachable value is gone, or when the virtual machine is shut down. "
 "It never runs while the object can still be reached, and values which the host object says it refers to stay alive as long as it does.",
 ["histories"], "every history of creating, copying, storing, dropping and collecting host objects, to a bounded length",
 "No test creates a host object.",
 ["duckVM.c"],
 [("user object payload", "data, marker and destructor registered by the host", "duckVM.h duckVM_user_t")],
 [("destructor call on free", "duckVM.c duckVM_object_... destroy in sweep and quit"), ("marker call", "duckVM.c duckVM_gclist_markObject")],
 ["count of destructor calls per host object", "values read back"],
 "model_checking", "explicit-state exploration of a reachability model, every operation sequence replayed on the real VM",
 BOUND + "Model: abstract graph of references; each transition sequence is executed on the real C API and compared after every step.")

prop("P03", "Optimisations never change what a program does",
 "Compiling with the jump and push/pop optimisations gives bytecode which produces exactly the same result, effects and errors as compiling without them.",
 ["programs", "configurations"], "every program x {optimised, unoptimised}",
 "The tests compare each program with one expected value per configuration; a peephole that misfires needs a specific adjacency of instructions and jump targets.",
 ["assembler.c", "duckLisp.c"],
 [("instruction list before and after peephole passes", "what is assembled", "assembler.c")],
 [("push/pop elimination", "assembler.c OPTIMIZE_PUSHPOPS"), ("jump threading and narrowing", "assembler.c OPTIMIZE_JUMPS / jump size selection")],
 ["result", "emitted log", "error status"],
 "exploration", "exhaustive bounded program enumeration, differential between the optimised and unoptimised real builds",
 BOUND + "Oracle: the build of the same sources with the optimisations compiled out, and the reference evaluator.")

prop("P04", "Instruction operand widths never change what a program does",
 "A program behaves the same however many locals, globals, arguments, elements, string bytes or instructions surround or make it up, so that every 8-, 16- and 32-bit form of an instruction means the same. "
 "What an instruction cannot encode is either supported by a wider form or rejected when compiling; it is never silently truncated.",
 ["programs", "inputs"], "every instruction with an index, size or distance operand x operand values on both sides of each width boundary",
 "The tests' programs are tiny: they use only the 8-bit forms.",
 ["assembler.c", "emitters.c", "duckVM.c"],
 [("operand width classes", "8/16/32-bit variants of each instruction", "assembler.c, duckLisp.h instruction list")],
 [("width selection when assembling", "assembler.c"), ("operand decoding", "duckVM.c duckVM_execute...")],
 ["result", "emitted log", "error status"],
 "exploration", "exhaustive enumeration of (program, padding) pairs around every width boundary on the real compiler and VM",
 BOUND + "Boundaries enumerated: stack depth, jump distance, counts and lengths around 127/128, 255/256, 32767/32768 and 65535/65536.")

prop("P05", "Every build configuration runs a program alike",
 "For every source text, a program gives the same result, effects and errors in every supported build configuration: with the system allocator or with the library's own allocator under any fit policy, with or without parenthesis inference compiled in, and with separate or shared memory for compiler and virtual machine.",
 ["programs", "configurations"], "every program x every build configuration and allocator policy",
 "The tests run 16 programs in four configurations.",
 ["CMakeLists.txt", "DuckLib/memory.c", "DuckLib/core.c", "duckLisp.c", "duckVM.c"],
 [("build flags", "USE_STDLIB, USE_DUCKLIB_MALLOC, USE_PARENTHESIS_INFERENCE, NO_OPTIMIZE_*", "CMakeLists.txt")],
 [("conditional compilation", "DuckLib/core.c, DuckLib/memory.c, parser.c, duckLisp.c")],
 ["result", "emitted log", "error status"],
 "exploration", "exhaustive bounded program enumeration, differential over all build configurations",
 BOUND + "Oracle: agreement between the builds, each under the address sanitizer.")

prop("P06", "Variables follow lexical scope and closures capture variables",
 "A name refers to the innermost visible declaration in the source text, an assignment changes that variable and no other, and leaving a scope restores the outer declarations. "
 "A closure shares the variables it captures with its defining scope and with other closures, both while that scope is active and after it has ended, at any nesting depth, and every entry of a scope makes fresh variables.",
 ["programs"], "every program over declarations, assignments, blocks, loops, functions and closures",
 "The tests have three small closure programs; capture bugs need a particular nesting, order of release and mutation.",
 ["duckLisp.c", "emitters.c", "generators.c", "duckVM.c"],
 [("compile-time scope stack", "names to stack slots and upvalues", "duckLisp.c duckLisp_subCompileState_t"), ("open and closed upvalues", "captured variables", "duckVM.c duckVM_upvalue_t")],
 [("scope lookup and upvalue creation", "duckLisp.c duckLisp_scope_get*FromName"), ("release of upvalues when a scope ends", "emitters.c releaseUpvalues; duckVM.c releaseUpvalues")],
 ["result", "emitted log"],
 "exploration", ENUM + " against a reference evaluator", BOUND + "Oracle: an independent reference evaluator written from the language reference.")

prop("P07", "Control flow and evaluation order follow the language reference",
 "Conditionals, loops, sequencing and assignment forms evaluate exactly the forms they should, each once and in the documented order, and give the documented value; truth and falsehood mean the same for constant and computed conditions.",
 ["programs"], "every nesting of if, when, unless, while, not, blocks and assignments with constant and computed conditions of every type",
 "The tests check when and unless on a few constants; constants and computed values take different compiler paths.",
 ["generators.c", "duckVM.c", "assembler.c"],
 [("label and jump targets", "where each branch continues", "generators.c generators, assembler.c")],
 [("branch generators", "generators.c duckLisp_generator_if/when/unless/while"), ("truth of a value", "duckVM.c brnz/brz and generators.c constant conditions")],
 ["result", "emitted log"],
 "exploration", ENUM + " against a reference evaluator", BOUND + "Oracle: an independent reference evaluator written from the language reference.")

prop("P08", "Calls pass exactly the given arguments to exactly the named function",
 "Every way of calling a function - by name, through a variable, with funcall or apply, recursively, by a host callback or on a composite value - binds the parameters to the arguments in order, collects the rest into a list for variadic functions, and returns the value of the body's last form. "
 "A call with a number of arguments which the function does not take is reported as an error and nothing else happens.",
 ["programs"], "every combination of kind of callee, way of calling, arity and number of arguments, nested and recursive",
 "The tests have one program each for apply, recursion and separate namespaces.",
 ["generators.c", "emitters.c", "duckVM.c"],
 [("call frames", "return address, frame base, upvalues, bytecode", "duckVM.c call_stack, upvalue_array_call_stack")],
 [("arity check and variadic list building", "duckVM.c duckVM_prepareForFuncall and funcall/apply/acall handlers"), ("argument pushing", "generators.c duckLisp_generator_funcall, apply, callback")],
 ["result", "emitted log", "error status"],
 "exploration", ENUM + " against a reference evaluator", BOUND + "Oracle: an independent reference evaluator written from the language reference.")

prop("P09", "Arithmetic and comparison are exact for every pair of operand types",
 "Arithmetic, comparison and equality on every combination of booleans, integers and floats, whether written as constants or computed, give the mathematically expected result in the documented type. "
 "Equality and ordering are consistent with each other, and a division by zero is an error.",
 ["inputs", "programs"], "every operator x every pair of operands from a set with all boundary values x {constant, variable, upvalue, global} operand positions",
 "The tests compute two or three sums.",
 ["generators.c", "duckVM.c", "emitters.c"],
 [("operand representation", "bool, integer, float cells", "duckVM.h")],
 [("operator handlers per type pair", "duckVM.c add/sub/mul/div/equal/less/greater/not"), ("integer width selection of constants", "emitters.c pushInteger, assembler.c")],
 ["result", "error status"],
 "exploration", "exhaustive enumeration of operators x operand pairs x operand positions on the real compiler and VM",
 BOUND + "Oracle: the reference evaluator's 64-bit integer and IEEE double arithmetic.")

prop("P10", "Lists, strings and vectors behave as sequences",
 "Building, reading, changing, comparing, concatenating and slicing lists, strings and vectors gives what a plain sequence would give, and a change made through one reference is seen through every reference which shares the structure and through no other.",
 ["histories", "programs"], "every sequence of sequence operations to a bounded length over shared and unshared lists, strings and vectors",
 "The tests measure the length of a few literals.",
 ["duckVM.c", "generators.c"],
 [("cons cells, vectors with offsets, strings with offsets", "shared structure", "duckVM.h duckVM_object_t")],
 [("sequence instructions", "duckVM.c cons/car/cdr/setCar/setCdr/vector/getVectorElement/setVectorElement/length/concatenate/substring")],
 ["result", "error status"],
 "exploration", "exhaustive enumeration of operation histories to a depth on the real VM, against a heap model",
 BOUND + "Oracle: reference heap model with sharing.")

prop("P11", "Types, composites, symbols and quoted data keep their identity",
 "Type tests and type-of agree with how a value was made, a composite keeps its type, value and function and changes only in the part assigned, user-made types never coincide with other types, and two symbols are equal exactly when they have the same name or come from the same creation.",
 ["programs"], "every sequence of composite, type, symbol, quote and conversion operations to a bounded length",
 "The tests check five quoted literals.",
 ["duckVM.c", "generators.c", "emitters.c"],
 [("type numbers", "builtin and user types", "duckVM.c nextUserType"), ("composite object", "type, value, function", "duckVM.h")],
 [("type instructions", "duckVM.c makeType, makeInstance, compositeValue, compositeFunction, typeof"), ("symbol interning", "duckLisp.c duckLisp_symbol_create")],
 ["result", "error status"],
 "exploration", ENUM + " against a reference evaluator", BOUND + "Oracle: an independent reference evaluator.")

prop("P12", "The reader maps every text to the documented data or to an error",
 "The first form of every source text is either read as exactly the data it denotes - integers in every base, floats (to 12 significant digits), booleans, strings with escapes, identifiers, comments and nested parentheses - or rejected with an error; reading never crashes, hangs, reads outside of the text or depends on the bytes after it.",
 ["inputs"], "every text to a bounded length over an alphabet that reaches every token state, and every token to a bounded length",
 "The tests read 16 well-formed files.",
 ["parser.c", "DuckLib/string.c", "duckLisp.c"],
 [("reader position", "start and current index in the text", "parser.c")],
 [("token recognisers", "parser.c duckLisp_parse_*"), ("number conversion", "DuckLib/string.c dl_string_toPtrdiff, dl_string_toDouble")],
 ["syntax tree printed in canonical form", "error status"],
 "exploration", "exhaustive enumeration of all texts to a length bound on the real reader, against an independent reader",
 BOUND + "Oracle: an independent reader plus the address sanitizer with the text in an exactly sized allocation.")

prop("P13", "Macros, compile-time code and quoting transform code as documented",
 "A macro call behaves exactly as the code its body returns when given the unevaluated arguments, compile-time forms run once, in order, while compiling, and see only the compile-time environment, and quoted data evaluate to the very data written.",
 ["programs"], "every macro definition and use from a bounded grammar of templates, arguments and nesting, against its hand expansion",
 "The tests have two compile-time programs.",
 ["generators.c", "duckLisp.c", "duckVM.c"],
 [("compile-time VM", "runs macros while compiling", "duckLisp.c")],
 [("macro expansion", "generators.c duckLisp_generator_defmacro, macro; duckLisp.c duckLisp_astToObject, objectToAST"), ("comptime", "generators.c duckLisp_generator_comptime")],
 ["result", "emitted log", "error status"],
 "exploration", "exhaustive enumeration of macro definition/use pairs, differential against the expanded program on the real compiler",
 BOUND + "Oracle: the same program with the macro call replaced by its expansion (computed by the generator), and the reference evaluator.")

prop("P14", "Parenthesis inference never changes a fully parenthesised program",
 "With parenthesis inference, a program which is written with all of its parentheses means the same as without inference, and leaving out the parentheses of calls whose type is declared (by declare, var, global, defun, defmacro, or as a parameter) gives the same program as writing them, following the declarations which are visible at that place.",
 ["programs"], "every row of tokens to a bounded length, every history of declarations and scopes, and every program of a bounded grammar x every subset of its removable parentheses",
 "The tests run the same fully parenthesised programs with inference on.",
 ["parenthesis-inferrer.c", "duckLisp.c", "parser.c"],
 [("declared identifiers and arities", "scopes of the inferrer", "parenthesis-inferrer.c")],
 [("inference of argument lists", "parenthesis-inferrer.c infer*")],
 ["result", "emitted log", "error status", "syntax tree"],
 "exploration", "exhaustive enumeration of token rows, declaration histories and programs x subsets of removed parentheses on the real inferrer",
 BOUND + "Oracle: an independent executable model of the documented inferrer for the trees, and the fully parenthesised program compiled without inference for what programs do.")

prop("P15", "The host interface is a stack machine over language values",
 "Every sequence of host calls which push, copy, pop, inspect, build and change values has the effect which an abstract stack of values says; a call which cannot be carried out reports an error, and every later call on the machine still obeys the abstract stack.",
 ["histories"], "every sequence of host interface calls to a bounded depth, valid or not",
 "The tests use the host interface only to run a program and print one value.",
 ["duckVM.c", "duckVM.h", "docs/api.md"],
 [("value stack", "host visible operands", "duckVM.c stack")],
 [("host interface functions", "duckVM.c duckVM_push*, duckVM_copy*, duckVM_set*, duckVM_is*, duckVM_pop*")],
 ["values printed from every stack slot after each call", "returned error"],
 "model_checking", "explicit-state search over an abstract stack model, every path replayed on the real C API",
 BOUND + "Every transition of the model is executed on the implementation and the complete stack compared.")

prop("P16", "A session survives errors, and later code sees all earlier effects",
 "After a source text which fails to compile or fails while running, the compiler and virtual machine keep working: later texts see every effect completed before the failure and none of the failed form's definitions half made, and the stack is as documented. "
 "Running code from within a host callback, and keeping functions from earlier texts, works the same at any depth. Evaluating the same texts over and over, good or bad, does not use more and more memory.",
 ["histories"], "every sequence of good, uncompilable, failing and re-entrant texts to a bounded length",
 "Each test starts a fresh compiler and machine and evaluates one text.",
 ["duckLisp.c", "duckVM.c"],
 [("symbol table, generators, compile state", "what persists between texts", "duckLisp.c"), ("stack, call stack, upvalue stack", "what a failure leaves behind", "duckVM.c")],
 [("cleanup in compile errors", "duckLisp.c duckLisp_loadString"), ("reset after a runtime error", "duckVM.c duckVM_softReset, duckVM_execute")],
 ["result", "emitted log", "error status", "stack height"],
 "exploration", "exhaustive enumeration of session histories to a depth on the real compiler and VM, against the reference evaluator",
 BOUND + "Oracle: reference evaluator run over the same history with failed texts' completed effects.")

prop("P17", "The allocator hands out disjoint, intact, reusable blocks",
 "Whatever the sequence of allocations, reallocations and releases, live blocks never overlap, lie inside of the given memory, and keep their contents (a reallocated block up to the smaller size). "
 "Each block comes from a gap which the fit policy selects. Released memory becomes available again: a request only fails when no gap could hold it beside the allocator's own table, after everything is released a block of about half of the memory can be allocated, and a failed request changes nothing.",
 ["histories", "configurations"], "every sequence of allocate/reallocate/release with sizes around the alignment and arena bounds, for each fit policy, to a bounded depth",
 "No test calls the allocator directly; the programs use it in one pattern.",
 ["DuckLib/memory.c", "DuckLib/memory.h", "docs/memory-allocator.md"],
 [("block list", "used and free blocks in address order", "DuckLib/memory.c")],
 [("block splitting and merging", "DuckLib/memory.c dl_malloc, dl_free, dl_realloc")],
 ["returned addresses", "block contents", "errors"],
 "model_checking", "explicit-state exploration of every operation sequence on the real allocator against an interval-set model",
 BOUND + "States are identified by the model's block layout; every transition is executed on the real allocator.")

prop("P18", "Containers and text conversions match their mathematical models",
 "Dynamic arrays behave as sequences, tries as maps from byte strings to numbers, the sorting routines return a sorted permutation for every input and comparison, and numbers survive conversion to text and back, for every sequence of operations and every input.",
 ["histories", "inputs"], "every operation sequence to a bounded depth for arrays and tries; every array of bounded length for the sorts; every bounded text for conversions",
 "No test uses the containers directly.",
 ["DuckLib/array.c", "DuckLib/trie.c", "DuckLib/sort.c", "DuckLib/string.c"],
 [("array elements and length", "contents", "DuckLib/array.h"), ("trie nodes", "split on bytes", "DuckLib/trie.c")],
 [("growth and shrink", "DuckLib/array.c"), ("node split and search", "DuckLib/trie.c"), ("sorting", "DuckLib/sort.c"), ("conversion", "DuckLib/string.c")],
 ["returned values and errors"],
 "model_checking", "explicit-state search over container models, every path replayed on the real containers",
 BOUND + "Every model transition is executed on the implementation and the full contents compared.")

prop("P19", "Ill-typed and out-of-range operations are reported, never undefined",
 "Applying any operation to values of the wrong type, to indices out of range or to an empty sequence ends in a reported error or a documented value; it never crashes, hangs, reads or writes foreign memory, or changes any value.",
 ["programs", "inputs"], "every operation x every tuple of argument values from a set with all types, empty, shared and boundary values",
 "The tests never apply an operation to a wrong argument.",
 ["duckVM.c", "generators.c", "emitters.c"],
 [("type tags", "type of each cell", "duckVM.h duckVM_object_type_t")],
 [("type and range checks in each instruction", "duckVM.c"), ("argument checks when compiling", "generators.c duckLisp_checkArgsAndReportError")],
 ["error status", "address sanitizer", "values after the error"],
 "exploration", "exhaustive enumeration of operations x argument tuples on the real compiler and VM",
 BOUND + "Oracle: the reference evaluator says which tuples are errors and what the others give; the address sanitizer decides memory safety.")

prop("P20", "Running out of memory at any point is reported cleanly",
 "When memory runs out, for one request or for good, at any point of starting up, inferring, compiling or running, the call during which it happens either still gives the right result or returns an error; nothing crashes or is corrupted: once there is memory again, the same compiler and machine run programs correctly, and they can be shut down.",
 ["fault_sequences", "programs"], "every program of a set x every request for memory it makes as the one which fails, once or from then on",
 "The tests never run out of memory.",
 ["DuckLib/memory.c", "duckLisp.c", "duckVM.c", "generators.c", "emitters.c", "assembler.c", "parser.c", "parenthesis-inferrer.c"],
 [("allocation results", "checked at every call", "everywhere")],
 [("error propagation and cleanup labels", "all compilation units")],
 ["error status", "address sanitizer", "behaviour of later calls"],
 "fault_enumeration", "exhaustive enumeration of memory request failures (single, and persistent from each point on) per program on the real code",
 BOUND + "Fault model: exactly one allocation request fails (and every later one succeeds), or every one from a point on fails.")

NA = {}

def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    checks, na = [], []
    for p in P:
        i = p["id"]
        if os.path.exists(os.path.join(ROOT, "checks", i + ".cpp")):
            checks.append(dict(property=i, quick_cmd="./check.sh %s quick" % i, thorough_cmd="./check.sh %s thorough" % i,
                technique=p["_tech"], level=p["_level"], level_note=p["_note"], evidence_file="evidence/%s.json" % i))
        else:
            na.append(dict(property=i, reason=NA.get(i, "No check is built for it yet.")))
    m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
        hooks=dict(guard="DUCKVM_ALLOCATION_HOOK", enable="harness/build.sh compiles /repo's sources with -DDUCKVM_ALLOCATION_HOOK", source_commits=["817a2c74b2ac9f2a3f5561b8ff916ca81b85646b"]),
        notes="The one hook is called before each heap allocation, so that P01 can place collections; everything else goes through the public interface and an allocator shim. fix: commits in /repo repair genuine defects; known-findings.txt lists them.")
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
main()
