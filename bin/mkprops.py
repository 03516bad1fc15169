#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

D = "discrete_src/"
prop("P01", "Expressions compute exactly their C-defined values",
 "Every expression built from the documented operators yields the value the C definition of those operators, with C precedence and associativity, gives for 32-bit wrapping integers and single-precision floats, whatever mix of literals, variables, array elements, hash entries, struct members and call results the operands are. Evaluating an expression or a compound assignment changes no variable other than the ones it explicitly assigns.",
 ["programs", "inputs"], "all type-correct expression trees over all operand kinds (literal widths, locals, globals, container members, temporaries) and all operand values",
 "Each operator exists in many type-dispatched, operand-kind-specific and peephole-fused versions; the script tests fix a few literal operands for each operator.",
 [D+"cc/expression.cpp", D+"cc/optimizer.cpp", D+"cc/cc.h", D+"vm/operations_non_compact.cpp", D+"vm/operations_compact.cpp", D+"vm/operations.cpp", D+"vm/vm.cpp"],
 [("operator table and precedence", "cc/cc.h c_operations"), ("type-dispatch tables", "vm/operations*.cpp"), ("peephole fusing of loads and operators", "cc/optimizer.cpp pushOpcode")],
 ["values passed to a registered native function", "final values of globals"])
prop("P02", "Control flow follows the program text",
 "Conditionals, while/do/for loops, foreach, switch (including fall-through, default and every case-label range), goto, break, continue, function calls with missing or surplus arguments, recursion and return execute exactly the statements the C-like program text prescribes, in that order, at any nesting depth and any code size the compiler accepts. A function's locals are private to each activation.",
 ["programs"], "all well-formed programs: nestings of statements, jump distances, numbers of locals, arguments and cases",
 "Jump encodings, fused compare-and-branch opcodes and the switch encodings depend on distances, operand kinds and case sets; the tests contain a few dozen fixed shapes.",
 [D+"cc/cc.cpp", D+"cc/optimizer.cpp", D+"cc/link.cpp", D+"vm/vm.cpp"],
 [("jump offset targets and relative jump fixups", "cc/cc.cpp addRelativeJumpTarget/resolveRelativeJumps"), ("switch linear/hash encodings", "cc/cc.cpp parseSwitch"), ("frame set-up", "vm/vm.cpp CallFunction/Return")],
 ["order of calls to a registered native function"])
prop("P03", "Containers keep exactly what was stored in them",
 "Arrays, hash tables, structs and strings behave as mathematical sequences, maps, records and byte strings under every history of literals, indexed and member reads and writes, growth, removal, existence tests, counting, iteration, nesting and concatenation: what was last stored under a key is what is read, no other entry is disturbed, and foreach visits every element exactly once. Containers are shared by reference, numbers are copied.",
 ["histories", "inputs"], "all histories of container operations, key sets (integers, strings, colliding keys), sizes and nestings",
 "Hash-table placement, probing, growth and removal depend on the history and on the hash values of the keys; tests use a handful of small containers.",
 [D+"vm/gc_object.cpp", D+"vm/index.cpp", D+"vm/operations.cpp", D+"vm/vm.cpp", D+"utils/utils.cpp"],
 [("hash table get/insert/grow/remove", "vm/gc_object.cpp"), ("index dispatch and growth on write", "vm/index.cpp"), ("iterators", "vm/vm.cpp, vm/operations.cpp")],
 ["values read back by the script and through the host API"])
prop("P04", "Build configurations and compile options agree",
 "A program produces the same sequence of native calls, the same results and the same errors in every supported build of the library (default, compact, really-compact, time-sliced, stack-protected, unaligned-read, malloc-checked, single-file amalgamation) and with every combination of compile options (embedded globals, debug code, embedded source, non-strict variables). Compiling the same text twice with the same options gives the same bytes.",
 ["programs", "configurations"], "all programs of the documented language x all supported build configurations x all compile-option masks",
 "The test suite runs each script in a build and checks the script's own assertions; it never compares two builds on programs outside the suite.",
 [D+"vm/operations_compact.cpp", D+"vm/operations_non_compact.cpp", D+"vm/vm.cpp", D+"cc/link.cpp", D+"cc/cc.cpp", "src/wrench.cpp"],
 [("two operator implementations", "vm/operations_compact.cpp, vm/operations_non_compact.cpp"), ("computed goto and switch dispatch", "vm/vm.cpp"), ("section layout by option flags", "cc/link.cpp")],
 ["trace of native calls, return values and last error"])
prop("P05", "Garbage collection is invisible to programs and bounds memory",
 "Whatever threshold the host sets for collection, and wherever collections therefore happen, a program's results are the same; no value reachable from globals, locals, temporaries, containers, the host's references or a suspended computation is ever reclaimed. Memory that becomes unreachable is reclaimed, so a program whose live data is bounded runs in bounded memory.",
 ["programs", "schedules"], "all programs x all collection thresholds (hence all collection points)",
 "Collection points depend on allocation history; tests run with one default threshold and tiny heaps, so most marking paths never see a collection at the wrong moment.",
 [D+"vm/gc.cpp", D+"vm/gc_object.cpp", D+"vm/vm.cpp", D+"vm/operations.cpp"],
 [("mark from stack, globals, registry; sweep list", "vm/gc.cpp"), ("allocation accounting", "vm/gc.cpp getSVA, vm/vm.cpp")],
 ["program trace; allocator calls; address-sanitizer reports"])
prop("P06", "No accepted program makes the host misbehave",
 "Running a program the compiler accepts, whose statements each apply one operator, index, member access, assignment, loop or library call to values of any kind (type-confused operands, out-of-range, negative, fractional or container indexes, division and modulo by zero or by minus one, wrong argument counts or types to library and script functions, containers that contain themselves, calls to missing functions), never makes the interpreter read or write outside its own memory, trap the host process, run undefined behaviour, unbalance its value stack or leak; it ends with a value, a yield or a documented error code, and the state still runs other programs correctly afterwards. (An element reference still pending while the same statement grows the container it points into is outside this promise.)",
 ["programs", "inputs"], "accepted programs built from single operations on values of every kind, all library calls with all argument counts and types",
 "Hostile programs are an infinite space; the tests only contain well-behaved scripts and run without sanitizers.",
 [D+"vm/vm.cpp", D+"vm/index.cpp", D+"vm/operations.cpp", D+"vm/operations_non_compact.cpp", D+"vm/operations_compact.cpp", D+"lib/std_string.cpp", D+"lib/std_container.cpp", D+"lib/std_math.cpp", D+"lib/std.cpp"],
 [("type-dispatched index and operator tables", "vm/index.cpp, vm/operations*.cpp"), ("argument-count guards", "lib/*.cpp")],
 ["address- and undefined-behaviour-sanitizer reports, signals, returned error codes"])
prop("P07", "Compiling any text terminates safely with bytecode or an error",
 "For every byte string given as source, compilation terminates without invalid memory access or undefined behaviour and either returns an error code with no output buffer leaked, or returns bytecode that the loader accepts; the disassembler accepts all such bytecode without misbehaving. Everything the compiler allocates is released.",
 ["inputs"], "all byte strings as source text, all option masks",
 "The error tests hold a few malformed snippets per error code.",
 [D+"cc/token.cpp", D+"cc/cc.cpp", D+"cc/expression.cpp", D+"cc/link.cpp", D+"cc/optimizer.cpp", D+"debug/disassemble.cpp"],
 [("tokenizer", "cc/token.cpp"), ("recursive-descent parser with error latch", "cc/cc.cpp, cc/expression.cpp"), ("linker limits", "cc/link.cpp")],
 ["sanitizer reports, allocator balance, returned error, bytecode validity"])
prop("P08", "Damaged or foreign bytecode is refused",
 "A bytecode image that was truncated, extended, bit-flipped or otherwise altered after compilation, or comes from another version, is refused by validity checking, running, context creation and import with the bad-bytecode error, without executing any of it and without reading outside the given block.",
 ["inputs", "fault_sequences"], "all single and multiple corruptions of all compiled images, all truncation lengths",
 "The tests corrupt one image in a few places.",
 [D+"vm/vm.cpp", D+"utils/utils.cpp", D+"cc/link.cpp"],
 [("trailing check value over the block, seeded with the major version", "cc/link.cpp, wr_isBytecodeValid"), ("validation before context construction", "vm/vm.cpp wr_createContext")],
 ["return value, last error, absence of native calls, sanitizer reports"])
prop("P09", "Every allocation is returned exactly once",
 "All memory wrench obtains goes through the installed allocator, and after the state is destroyed every block has been released exactly once: for successful and failed compilations, completed, failed, yielded and abandoned programs, imports, destroyed contexts, libraries, host-made values and containers. Blocks handed to the host (bytecode, strings, serialized data) are the only exception and are owned by the host alone.",
 ["histories"], "all histories of API calls and programs, including error exits at any point",
 "Tests only count a balance for a few scripts; error exits and abandoned contexts are not enumerated.",
 [D+"vm/vm.cpp", D+"vm/gc.cpp", D+"cc/cc.cpp", D+"cc/link.cpp", D+"utils/utils.cpp", D+"lib/*.cpp"],
 [("global allocator indirection", "vm/vm.cpp g_malloc/g_free"), ("context destruction sweep", "vm/vm.cpp wr_destroyContextEx")],
 ["allocator callbacks"])
prop("P10", "Running out of memory is reported, never fatal",
 "In a build that handles allocation failure, if any single allocation made while creating a state, loading libraries, compiling, running or calling into a program fails, the operation either completes correctly or reports failure (null result or the allocation-failed error) without crashing, corrupting memory or leaking, and the state can still be destroyed and all memory is returned.",
 ["fault_sequences", "programs"], "every allocation site reached by the workload x failing once or from then on",
 "No test injects allocation failure.",
 [D+"vm/vm.cpp", D+"vm/gc.cpp", D+"vm/gc_object.cpp", D+"vm/index.cpp", D+"utils/utils.cpp"],
 [("per-instruction malloc-failed check", "vm/vm.cpp"), ("null checks after g_malloc", "vm/gc.cpp, vm/gc_object.cpp, utils/utils.cpp")],
 ["allocator callbacks, sanitizer reports, returned error"])
prop("P11", "Suspending and resuming never changes a program",
 "A program that is suspended, by its own yields or by a time slice of any length, and later continued, performs the same native calls and produces the same result as when it runs uninterrupted, whatever the host does with other contexts in between; yield delivers its arguments to the host and the host's reply back to the program. Continuing a program that is not suspended is refused with its own error.",
 ["schedules", "programs"], "all suspension points x all slice lengths x all interleavings of contexts",
 "Tests use two or three scripts with fixed yield points and slice sizes.",
 [D+"vm/vm.cpp", D+"vm/scheduler.cpp"],
 [("saved pc, stack top and frame", "vm/vm.cpp yield_pc..."), ("slice counter on branches", "vm/vm.cpp CHECK_FORCE_YIELD")],
 ["native-call trace, yield info, return values"])
prop("P12", "Values cross the host boundary intact",
 "Arguments, return values and globals passed between host and script in either direction (integers, floats, strings with any bytes, arrays, hash tables, structs, host-made containers and raw memory) arrive with the same type and value, for direct calls, native callbacks, global references and iterators. A call to a missing function, or before the program was run, is refused with its documented error and disturbs nothing.",
 ["inputs", "histories"], "all value shapes, argument counts and call histories across the API",
 "Tests exercise each entry point with a few constants.",
 [D+"vm/vm.cpp", D+"utils/utils.cpp", D+"wrench.h"],
 [("argument push and return-value slot", "vm/vm.cpp wr_callFunction"), ("value accessors", "utils/utils.cpp, wrench.h WRValue")],
 ["values observed on both sides of the API"])
prop("P13", "Contexts are isolated; imports expose only what they should",
 "Programs loaded into the same state do not see or alter each other's globals, functions or results, except that imported modules offer their functions and structs to the importer, which run against the module's own globals. Destroying one context leaves the others' behaviour unchanged.",
 ["histories", "schedules"], "all sets of programs, import graphs and interleavings of calls and destructions",
 "The cross-module test fixes a handful of modules and one order of calls.",
 [D+"vm/vm.cpp", D+"lib/std_sys.cpp"],
 [("per-context globals, stack and registry", "vm/vm.cpp"), ("import list and function lookup", "vm/vm.cpp wr_import, CallFunctionByHash")],
 ["native-call trace per context, globals read through the host API"])
prop("P14", "Serialized values survive the round trip; hostile bytes are harmless",
 "Serializing any value made of integers, floats, strings, arrays and hash tables and deserializing it, in the same or another context or state, yields an equal value that is independent of the original. Deserializing arbitrary bytes either fails or yields a usable value, and never accesses memory outside the buffer or corrupts the interpreter.",
 ["inputs"], "all values of nested arrays/hashes/strings/numbers; all byte strings as serialized input",
 "Tests round-trip a few values and feed one or two truncated buffers.",
 [D+"utils/serializer.cpp", D+"lib/std_serialize.cpp", D+"utils/serializer.h"],
 [("recursive writer/reader with bounds-checked stream", "utils/serializer.cpp")],
 ["deep comparison of values, sanitizer reports"])
prop("P15", "String library functions match their definitions",
 "Every function of the string library returns, for all strings and argument values in its documented domain, exactly the value its documented C or BASIC counterpart defines, and modifies its input only where documented.",
 ["inputs"], "all strings (including empty and long), positions, lengths, formats and argument counts",
 "Tests use a handful of inputs per function.",
 [D+"lib/std_string.cpp", D+"utils/utils.cpp"],
 [("str:: callbacks", "lib/std_string.cpp"), ("number formatting", "utils/utils.cpp wr_itoa/wr_ftoa")],
 ["values returned to the script"])
prop("P16", "Container library functions match their model",
 "Every history of array, queue/stack/list-style and hash library operations behaves as the corresponding abstract data type: sizes, order, element values and results of removal agree with the model at every step.",
 ["histories", "inputs"], "all histories of container library calls on all element kinds and sizes",
 "Tests run one short scripted history per function.",
 [D+"lib/std_container.cpp", D+"vm/gc_object.cpp"],
 [("array::/hash:: callbacks", "lib/std_container.cpp")],
 ["values returned to the script, container contents read back"])
prop("P17", "Math and standard functions match their definitions",
 "Every math, std and time/random library function returns the value of its namesake C function in single precision (or its documented definition) for all numeric arguments, integer or float; random numbers stay within the requested range and are reproducible from a seed; conversions between numbers and text are exact for integers and, for floats, keep the value to the five decimals printed.",
 ["inputs"], "all numeric arguments",
 "Tests probe a few points per function.",
 [D+"lib/std_math.cpp", D+"lib/std.cpp", D+"utils/utils.cpp"],
 [("math:: callbacks", "lib/std_math.cpp"), ("std:: callbacks and generator", "lib/std.cpp")],
 ["values returned to the script"])
prop("P18", "Messages between contexts are delivered as stored",
 "A message written under a key is visible to every context of the state until it is cleared, always with the last value written; reading with removal hands it out exactly once; checking never consumes it; keys never interfere with one another or with functions of the state.",
 ["histories", "schedules"], "all histories of message operations over many contexts and keys",
 "Tests use one or two keys in one context.",
 [D+"lib/std_msg.cpp"],
 [("mailbox entries keyed by message hash", "lib/std_msg.cpp")],
 ["values returned to the scripts"])
prop("P19", "File library preserves file contents",
 "Whatever sequence of writes, appends, seeks, reads, line reads and deletions a program performs through the file library on its own files, the bytes read back and the bytes on disk are exactly those a byte-array model of each file predicts, and failures are reported without leaking descriptors or memory or touching other files.",
 ["histories", "inputs"], "all histories of file operations on files of any content",
 "Tests write and read one small file.",
 [D+"lib/std_io.cpp", D+"lib/std_io_defs.h"],
 [("io:: callbacks over open/read/write", "lib/std_io.cpp")],
 ["file bytes on disk, values returned to the script, open descriptors"])
prop("P20", "The scheduler runs every task fairly and to completion",
 "Every task added to the scheduler makes progress on each tick until it finishes, is removed or fails, each task's native calls are exactly those it makes alone and in order, tasks do not disturb each other, and removal or failure of one task affects only that task and is reported with its id.",
 ["schedules", "programs"], "all task sets, slice lengths, tick patterns and add/remove histories",
 "Tests run a few tasks with one slice length.",
 [D+"vm/scheduler.cpp", D+"vm/vm.cpp"],
 [("task list and tick loop", "vm/scheduler.cpp")],
 ["per-task native-call trace, task ids, error report"])
prop("P21", "Runaway recursion stops with the stack-overflow error",
 "In a build with stack protection, for every stack size and every program, exceeding the stack ends the call with the stack-overflow error before anything outside the stack is touched; the state stays usable afterwards, and programs that fit behave as without protection.",
 ["programs", "configurations"], "all programs x all stack sizes",
 "Tests overflow one recursive function with one stack size.",
 [D+"vm/vm.cpp"],
 [("stack limit checks at pushes and calls", "vm/vm.cpp CHECK_STACK/stackLimit")],
 ["last error, sanitizer reports, trace of later calls"])
prop("P22", "Division by zero is contained, or reported where trapped",
 "Dividing by zero yields zero of the proper kind in an ordinary build, and in a build that traps division by zero every division or division-assignment by zero, in any operand form, stops the program with the division-by-zero error exactly when the divisor is zero, before any later statement runs.",
 ["programs", "configurations", "inputs"], "all programs, operand kinds and values x both build settings",
 "Tests divide a few literals by zero.",
 [D+"vm/operations_non_compact.cpp", D+"vm/operations_compact.cpp", D+"vm/vm.cpp"],
 [("zero checks in divide handlers", "vm/operations*.cpp, vm/vm.cpp")],
 ["values, last error, native-call trace"])
if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P))
