"""Which monitored workloads decide which property (Job: variant, harness, mode, quick cases, thorough cases)."""
from vplib import Job
LANGRULE = ("Random type-correct programs (harness/model.h) printed with random layout and spellings, compiled and run with random "
            "compile options and GC thresholds; every native call and every final global is compared with an independent reference "
            "evaluator. A case counts when the reference gives it a defined meaning; distinct = distinct program texts.")
PROPS = {
 "P01": dict(rule=LANGRULE, need={"events": 1000}, jobs=[
    Job("def", "lang.cpp", "P01", 24000, 1500000), Job("asan", "lang.cpp", "P01", 1600, 60000),
    Job("compact", "lang.cpp", "P01", 8000, 400000), Job("amalg", "lang.cpp", "P01", 6000, 300000), Job("def", "lang.cpp", "mix", 6000, 300000)]),
 "P02": dict(rule=LANGRULE+" Programs at the limits of the format (harness/limits.cpp: frames, functions, globals, members, arguments, literals, code and jump sizes around 127, 255, 32767 and 65535) must be refused or run exactly.", need={"events": 1000, "accepted_at_limits": 200, "images_above_30000": 20}, jobs=[
    Job("def", "lang.cpp", "P02", 20000, 1200000), Job("asan", "lang.cpp", "P02", 1600, 60000),
    Job("compact", "lang.cpp", "P02", 6000, 300000), Job("amalg", "lang.cpp", "P02", 6000, 300000), Job("def", "lang.cpp", "mix", 6000, 300000),
    Job("def", "limits.cpp", "limits", 300, 20000, slow_ok=True), Job("asan", "limits.cpp", "limits", 80, 5000, slow_ok=True, cpu=30), Job("amalg", "limits.cpp", "limits", 100, 5000, slow_ok=True), Job("compact", "limits.cpp", "limits", 80, 5000, slow_ok=True),
    Job("def", "limits.cpp", "jumps", 12000, 600000), Job("compact", "limits.cpp", "jumps", 4000, 200000, base=20000000), Job("amalg", "limits.cpp", "jumps", 4000, 200000, base=30000000)]),
 "P03": dict(rule=LANGRULE+" Structs, arrays, tables and strings at the limits of the format (harness/limits.cpp) must be refused or hold exactly what was put in.", need={"events": 1000, "accepted_at_limits": 100}, jobs=[
    Job("def", "lang.cpp", "P03", 20000, 1200000), Job("asan", "lang.cpp", "P03", 2000, 60000),
    Job("compact", "lang.cpp", "P03", 6000, 300000), Job("amalg", "lang.cpp", "P03", 6000, 300000),
    Job("def", "limits.cpp", "data", 200, 10000, slow_ok=True), Job("compact", "limits.cpp", "data", 60, 4000, slow_ok=True, base=20000000), Job("amalg", "limits.cpp", "data", 80, 4000, slow_ok=True, base=30000000),
    Job("def", "limits.cpp", "edits", 6000, 300000), Job("asan", "limits.cpp", "edits", 600, 20000, base=10000000), Job("compact", "limits.cpp", "edits", 2000, 100000, base=20000000), Job("amalg", "limits.cpp", "edits", 2000, 100000, base=30000000)]),
 "P04": dict(rule="Random reference programs, programs calling missing functions and damaged texts, compiled under eight option sets each (twice, bytes compared) and run; results compared between option sets, with the reference, and case by case between the builds listed. distinct = distinct texts.",
    need={"compiles": 1000, "cross_build_comparisons": 500}, jobs=[
    Job(v, "exec.cpp", "cfg", q, t, base=1, group="cfg") for v, q, t in (
      ("def", 900, 40000), ("compact", 900, 40000), ("rcompact", 900, 40000), ("slices", 900, 40000), ("unal", 900, 40000), ("mfail", 150, 8000), ("amalg", 900, 40000), ("amcomp", 500, 20000))]),
 "P05": dict(rule="Random reference programs run at six collection thresholds each (from every allocation to never), and garbage-producing loops of every shape run for N, 4N and 16N iterations while the allocator monitor records peak memory; results must match the reference and peaks must not grow; plus import histories (ctx.cpp) and host values, containers and references (host.cpp) with a collection at every allocation. distinct = distinct texts.",
    need={"blocks_allocated": 1000, "iterations": 1000}, jobs=[
    Job("def", "exec.cpp", "gc", 4000, 200000), Job("asan", "exec.cpp", "gc", 500, 20000), Job("compact", "exec.cpp", "gc", 1500, 60000), Job("sasan", "exec.cpp", "gc", 300, 10000), Job("amalg", "exec.cpp", "gc", 1500, 60000),
    Job("def", "exec.cpp", "bounded", 500, 30000), Job("slices", "exec.cpp", "bounded", 300, 10000), Job("compact", "exec.cpp", "bounded", 200, 10000), Job("amalg", "exec.cpp", "bounded", 200, 10000),
    Job("def", "ctx.cpp", "ctx", 1500, 60000), Job("asan", "host.cpp", "box", 400, 20000), Job("asan", "host.cpp", "host", 800, 30000), Job("amalg", "ctx.cpp", "ctx", 500, 20000)]),
 "P06": dict(rule="Random programs nobody would write (harness/wild.cpp): each statement applies one operator, index, member, assignment, loop, switch, allocation or call - to script functions, host functions and 88 library functions with 0 to 4 arguments - to variables, parameters and literals of every kind, with collections at every allocation in half of the cases; run in slices, then called from the host with 0 to 4 arguments. Address and undefined-behaviour sanitizers, the allocator monitor and, in the monitored builds, a per-instruction stack monitor watch; afterwards a known program must give its known result in the same state. distinct = distinct accepted programs.",
    need={"accepted": 2000, "ended": 1000, "failed": 100, "calls": 1500, "known_runs": 2000, "instructions_monitored": 1000000}, assumptions=["a program that does not end is abandoned after a fixed number of slices; running out of CPU time in one operation on a huge container is inconclusive"], jobs=[
    Job("sasan", "wild.cpp", "calm", 4000, 200000, cpu=6, slow_ok=True), Job("wmon", "wild.cpp", "calm", 2500, 100000, cpu=6, slow_ok=True, base=100000), Job("cslices", "wild.cpp", "calm", 1500, 60000, cpu=6, slow_ok=True, base=200000),
    Job("amwmon", "wild.cpp", "calm", 1500, 60000, cpu=6, slow_ok=True, base=300000)]),
 "P07": dict(rule="Source texts: generated programs damaged by token and byte edits, token soup, random bytes, truncations, and size and nesting extremes, each in an exactly sized heap block. Compiler, loader and disassembler run under ASan and UBSan; the allocator monitor balances every block; error codes, message and output contracts are checked. distinct = distinct texts.",
    need={"accepted": 500, "rejected": 1000, "disassembled_bytes": 100000}, assumptions=["listing time is quadratic in code size, so only images below 2.5 KB are disassembled"], jobs=[
    Job("asan", "src.cpp", "src", 5000, 300000, cpu=20), Job("amasan", "src.cpp", "src", 2000, 100000, cpu=20), Job("casan", "src.cpp", "src", 1200, 50000, cpu=20), Job("def", "src.cpp", "src", 4000, 300000)]),
 "P08": dict(rule="Compiled images in exactly sized blocks: every single-bit flip and every truncation of images up to 300 bytes, and random heavier damage (bytes, insertions, removals, splices, swaps, foreign checksums, other versions, noise) of images of any size. Validity check, context creation, running, host and script import and the scheduler must refuse each with the bad-bytecode error, make no native call, read nothing outside (ASan) and leave a second program working. distinct = distinct damaged images.",
    need={"bit_flips": 50000, "truncations": 5000, "all_loaders_checked": 5000, "intact_accepted": 300}, assumptions=["damage that happens to keep the 32-bit checksum intact is skipped (the harness recomputes it)"], jobs=[
    Job("asan", "dmg.cpp", "dmg", 2000, 40000), Job("amasan", "dmg.cpp", "dmg", 1000, 16000), Job("casan", "dmg.cpp", "dmg", 500, 10000), Job("sasan", "dmg.cpp", "dmg", 500, 10000), Job("unal", "dmg.cpp", "dmg", 800, 16000)]),
 "P09": dict(rule="Random histories over the whole API on up to three states at once: compilations that succeed and fail (damaged and extreme sources), programs that end, fail, yield and are abandoned, calls, imports that succeed and fail, commands, containers, struct instances, serialization, disassembly, contexts destroyed or left to the state. Every block carries its owner; a failed compilation leaves nothing, a destroyed state leaves nothing of its own, nothing is released twice or from outside, and library code that bypasses the installed allocator (operator new) is seen. distinct = distinct histories.",
    need={"compiles": 2000, "failed_compiles": 500, "runs": 3000, "failed_runs": 500, "imports": 200, "failed_imports": 50, "states_destroyed": 2000, "yields": 100}, jobs=[
    Job("def", "bal.cpp", "bal", 5000, 200000, cpu=20), Job("asan", "bal.cpp", "bal", 500, 20000, cpu=30), Job("amalg", "bal.cpp", "bal", 1500, 60000, cpu=20), Job("compact", "bal.cpp", "bal", 1000, 40000, cpu=20), Job("slices", "bal.cpp", "bal", 1000, 40000, cpu=20)]),
 "P11": dict(rule="One to four reference programs in one state, started while others are suspended, suspended by instruction slices of 1 to 1000 (re-set at random) and by their own yields, resumed in random order; each program's native calls, yield arguments and final globals must equal those of its uninterrupted reference run. distinct = distinct programs and resume orders.",
    need={"suspensions": 10000, "yields": 500, "forced_yields": 5000}, jobs=[
    Job("slices", "exec.cpp", "slice", 5000, 200000), Job("slices", "exec.cpp", "pair", 2500, 100000), Job("sasan", "exec.cpp", "pair", 300, 10000), Job("cslices", "exec.cpp", "pair", 200, 8000), Job("amslices", "exec.cpp", "slice", 300, 10000),
    Job("def", "exec.cpp", "own", 4000, 150000), Job("amalg", "exec.cpp", "own", 2000, 60000), Job("compact", "exec.cpp", "own", 1000, 40000)]),
 "P12": dict(rule="Random histories of host calls (0 to 7 arguments on functions with 0 to 5 parameters, by name and by function pointer), global reads and writes through references and the wrapper class, native callbacks and their results, host-made containers with raw memory, struct instances, iterators, text and number conversions into exactly sized buffers, library functions and constants by name, and calls that must be refused, with garbage collected at every allocation in half of the histories. Every value that crosses is compared with a model. distinct = distinct histories.",
    need={"calls": 20000, "containers": 1000, "stores": 3000, "collections": 3000, "structs": 1000, "conversions": 1000, "refused": 500, "global_writes": 500}, jobs=[
    Job("def", "host.cpp", "host", 15000, 400000), Job("asan", "host.cpp", "host", 3000, 60000), Job("amalg", "host.cpp", "host", 4000, 100000), Job("amasan", "host.cpp", "host", 800, 20000), Job("compact", "host.cpp", "host", 4000, 100000), Job("slices", "host.cpp", "host", 2000, 40000),
    Job("def", "host.cpp", "box", 2000, 100000), Job("asan", "host.cpp", "box", 500, 20000), Job("amalg", "host.cpp", "box", 800, 40000)]),
 "P13": dict(rule="Up to five programs in one state, with equal global, function and struct names and up to nine imported modules each (by the host, by scripts as bytecode or source, and by modules while they load). Random calls into own and imported functions and structs, nested and recursive, global writes, queries, garbage at every allocation in many histories, destructions in any order. Every answer and every global of every living instance is compared with that instance's own model; functions that were not imported must be refused; all memory is returned. distinct = distinct histories.",
    need={"calls": 20000, "cross_calls": 3000, "refused": 2000, "imports": 2000, "destroyed": 500, "global_checks": 20000, "nested": 500}, assumptions=["which of several instances of one module reached through nested imports answers is not specified"], jobs=[
    Job("def", "ctx.cpp", "ctx", 4000, 200000), Job("asan", "ctx.cpp", "ctx", 500, 20000), Job("amalg", "ctx.cpp", "ctx", 1000, 50000), Job("amasan", "ctx.cpp", "ctx", 200, 10000), Job("compact", "ctx.cpp", "ctx", 1000, 50000)]),
 "P14": dict(rule="Random nested arrays, hash tables, strings and numbers, serialized by script and host (same bytes), read back in the same program, another state and after the original is gone, then counted, looked up, iterated, changed in nested places (original must not move) and kept across collections; sizes around 65535; values that cannot be represented must be refused wherever they sit; every truncation tried is refused. Made-up and damaged streams in exactly sized buffers must be refused or give a value that can be shown, used, changed and serialized again, the same for host and script. distinct = distinct values and byte strings.",
    need={"round_trips": 5000, "mutations": 20000, "inputs": 50000, "accepted": 2000, "refused": 20000, "refused_other": 100}, assumptions=["values without cycles, nested at most 8 deep"], jobs=[
    Job("def", "ser.cpp", "rt", 6000, 300000), Job("asan", "ser.cpp", "rt", 1000, 30000), Job("amalg", "ser.cpp", "rt", 1500, 60000), Job("compact", "ser.cpp", "rt", 1500, 60000),
    Job("def", "ser.cpp", "refuse", 200, 2000), Job("amalg", "ser.cpp", "refuse", 100, 1000),
    Job("asan", "ser.cpp", "hostile", 6000, 200000), Job("amasan", "ser.cpp", "hostile", 2000, 60000), Job("casan", "ser.cpp", "hostile", 1500, 60000), Job("def", "ser.cpp", "hostile", 8000, 300000)]),
 "P15": dict(rule="Scripts calling every string library function with strings of any bytes and lengths, positions, formats (flags, widths, all conversions) and argument counts, arguments held in every kind of place; results, printed text, targets and the arguments afterwards are compared with the C (or documented) definition. distinct = distinct scripts with their host values.",
    need={"calls": 50000, "results": 100000}, assumptions=["lengths and positions are not negative, %s arguments are strings, sprintf targets do not overlap their arguments, as C requires"], jobs=[
    Job("def", "libs.cpp", "str", 8000, 400000), Job("asan", "libs.cpp", "str", 1500, 60000), Job("compact", "libs.cpp", "str", 1500, 60000), Job("amalg", "libs.cpp", "str", 3000, 100000), Job("fsp", "libs.cpp", "fsp", 800, 40000)]),
 "P16": dict(rule="Random histories of container library calls (array, list, queue, stack, hash) on containers in globals, locals, parameters, elements, struct members and hash entries, items of every kind including variables that change afterwards, at random collection thresholds; results, contents and sizes after every step are compared with an abstract model. distinct = distinct histories.",
    need={"operations": 10000, "events": 50000}, assumptions=["positions for insert lie within the array; name[n] = { .. } re-declares name, as the repository's own tests use it"], jobs=[
    Job("def", "cont.cpp", "hist", 6000, 400000), Job("asan", "cont.cpp", "hist", 1500, 60000), Job("compact", "cont.cpp", "hist", 1500, 80000), Job("amalg", "cont.cpp", "hist", 2500, 100000), Job("slices", "cont.cpp", "hist", 1000, 60000)]),
 "P17": dict(rule="Scripts calling every math function with integers and floats of any value (including infinities and denormals) compared bit for bit with the C library's single-precision functions; the generator seeded and drawn from over all kinds of ranges (bounds, coverage of small ranges, reproducibility); clocks compared with the host's; numbers turned into text and back. distinct = distinct scripts with their host values.",
    need={"calls": 50000, "results": 50000, "fn.std::rand": 10000}, assumptions=["the text of a float is judged by value (five decimals)", "seeds 0 and +-2147483647, the generator's fixed points, are left out"], jobs=[
    Job("def", "libs.cpp", "math", 8000, 400000), Job("asan", "libs.cpp", "math", 1000, 40000), Job("amalg", "libs.cpp", "math", 3000, 100000), Job("compact", "libs.cpp", "math", 2000, 60000),
    Job("def", "libs.cpp", "rand", 4000, 200000), Job("asan", "libs.cpp", "rand", 500, 20000), Job("amalg", "libs.cpp", "rand", 2000, 60000),
    Job("def", "libs.cpp", "text", 5000, 200000), Job("asan", "libs.cpp", "text", 600, 20000), Job("amalg", "libs.cpp", "text", 2000, 60000)]),
 "P18": dict(rule="Several programs in one state write, read, test and clear messages in random order, with integer, float and string keys (including names of functions and libraries) and values, from their own text and through host calls, while programs are loaded and destroyed, garbage is collected at every allocation and hundreds of keys come and go. Every answer is compared with a map; functions and globals are probed in between. distinct = distinct histories.",
    need={"operations": 20000, "answers": 10000}, jobs=[
    Job("def", "msg.cpp", "msg", 20000, 300000), Job("asan", "msg.cpp", "msg", 3000, 30000), Job("amalg", "msg.cpp", "msg", 6000, 60000), Job("compact", "msg.cpp", "msg", 4000, 40000)]),
 "P19": dict(rule="Random histories of file library calls (open with every flag combination, read, write, seek, fsync, close, readFile, writeFile, deleteFile, getline, copies by script, host memory) on a scratch directory, by script and by host. After every step the answer, the directory and all bytes on disk are compared with a byte-array model; every file system call of the library is intercepted and must name a file the program gave; descriptors and memory must balance. distinct = distinct histories.",
    need={"calls": 20000, "opened": 2000, "writes": 3000, "reads": 2000, "seeks": 1000, "deleted": 500, "refused": 1000, "lines": 2000, "disk_checks": 50000, "watched_calls": 5000}, assumptions=["Linux file back end; io::seek always with its third argument (documentation and code disagree on its default); permissions are not judged"], jobs=[
    Job("def", "io.cpp", "io", 5000, 200000), Job("asan", "io.cpp", "io", 1500, 40000), Job("amalg", "io.cpp", "io", 2000, 60000)]),
 "P20": dict(rule="One to ten reference programs (some yield, some fail half way) added, ticked and removed in random order, with constant or random slices. Every native call is attributed to its task; with a constant slice each task must end on exactly the tick its solo run predicts; failures must be reported once with the right id and error; ended or removed tasks may do nothing more; all memory is returned. distinct = distinct task sets with their histories.",
    need={"ticks": 20000, "failures": 300, "removes": 500, "predicted_ends": 1000}, jobs=[
    Job("slices", "sched.cpp", "sched", 3000, 150000), Job("sasan", "sched.cpp", "sched", 250, 10000), Job("cslices", "sched.cpp", "sched", 200, 8000), Job("amslices", "sched.cpp", "sched", 250, 10000)]),
 "P21": dict(rule="Recursive programs of many shapes (arguments, locals, temporaries, calls through natives, libraries, imports), host calls with any number of arguments, and random reference programs, run at stack sizes from 4 to 3000 entries in protected builds under ASan. The stack is the last part of the context block, so any write past it is seen. Overflow must give the overflow error after a prefix of the reference, everything must work afterwards, and what fits must not be refused. distinct = distinct (program, size, depth).",
    need={"overflows": 1000, "fits": 1000, "reused": 300}, jobs=[
    Job(v, "stack.cpp", m, q, t) for v, m, q, t in (
      ("sasan", "rec", 4000, 200000), ("sasan", "host", 3000, 200000), ("sasan", "import", 3000, 200000), ("sasan", "fit", 500, 20000),
      ("cslices", "rec", 2000, 100000), ("cslices", "host", 1000, 100000), ("cslices", "fit", 200, 10000),
      ("amslices", "rec", 2000, 100000), ("amslices", "host", 1000, 100000), ("amslices", "import", 1000, 100000))]),
 "P22": dict(rule="Generated programs with one division or division-assignment in every operand form (literal, local, global, parameter, array, hash, struct member, call result ...), operator, kind and syntactic position, zero and non-zero divisors; and random programs with frequent zero divisors. The reference says which value or which trap must happen, and that nothing runs after a trap.",
    need={"traps_expected": 300}, jobs=[
    Job("def", "div.cpp", "site", 20000, 200000), Job("trap", "div.cpp", "site", 12000, 150000), Job("ctrap", "div.cpp", "site", 10000, 100000), Job("compact", "div.cpp", "site", 3000, 100000), Job("amalg", "div.cpp", "site", 2000, 80000), Job("amtrap", "div.cpp", "site", 2500, 80000),
    Job("trap", "lang.cpp", "div", 800, 40000), Job("ctrap", "lang.cpp", "div", 500, 30000), Job("def", "lang.cpp", "div", 4000, 200000)]),
}

# different jobs of one property explore different case numbers unless a base was given
for _p in PROPS.values():
    for _i, _j in enumerate(_p["jobs"]):
        if not _j.base: _j.base = _i * 20000000
