#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as code so wording stays reviewable).
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=()):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
VM="source/lib_vm/"
p("C01","How execution is sliced never changes what a thread computes",
 "A script thread that touches only its own data produces the same sequence of external calls with the same arguments, the same return value or run-time error at the same source line, and the same total cycle count, however the host slices its execution: any mix of resume budgets, single-instruction steps, line steps, host-requested halts and other threads running in between. Those results are the ones the language defines for the source program.",
 ["programs","schedules"],"all scripts; all sequences of resume/step calls and halts",
 "the tests run each program once, to completion, with a single large budget through call_once; no test ever stops a thread in the middle of an expression",
 [VM+"thread.cpp",VM+"thread.h",VM+"vm.cpp"],
 [("all machine state lives in the thread (pc, frame stack, value stack) so it can stop between any two instructions",VM+"thread.cpp thread_t::resume/step_imp_")],
 ["external calls made by the script","thread_t::get_return_value/get_error/get_source_line/get_cycle_count"],
 [("value stack, frame stack, pc","suspended computation",VM+"thread.h")])
p("C02","Garbage collection is invisible to scripts",
 "At whatever instants collections happen, every value a running script can still reach keeps its contents, its type and its identity (two references to one array stay references to one array, also in nested and cyclic structures), and values reachable from globals, from any live thread's locals, arguments or half-evaluated expressions all survive. The script's external calls and results are those of a run in which no collection happens.",
 ["programs","schedules"],"all scripts; all collection times and numbers of collections, triggered by allocation pressure, stepping or host calls",
 "the tests collect at a handful of fixed points (once at the start of call_once, and when 75% of 1 MB is in use, which few tests reach)",
 [VM+"vm_gc.cpp",VM+"vm_gc.h",VM+"vm.cpp"],
 [("copying collector; roots are the globals and every thread's value stack",VM+"vm.cpp vm_t::gc_collect, "+VM+"vm_gc.cpp trace/collect")],
 ["values handed to external calls","vm_t::globals","thread return values"],
 [("two arenas","live values and the idle copy space",VM+"vm_gc.h")])
p("C03","Interleaved threads sharing data behave as the language defines",
 "When several script threads share globals and arrays and the host switches between them at external calls and waits, every external call receives the arguments, every thread returns the value (or raises the error) and every global ends with the contents that running the source statements in that same order gives. A switch in the middle of an expression, call argument list, loop or nested call disturbs neither the switched-out nor the switched-in thread.",
 ["programs","schedules"],"all multi-threaded scripts; all switch orders at external calls and waits",
 "the tests contain one thread per program apart from two fixed-schedule samples; results under other interleavings are never looked at",
 [VM+"thread.cpp",VM+"vm.cpp","source/lib_builtins/builtin.cpp","source/lib_compiler/codegen.cpp"],
 [("threads own their stacks, share one heap and one global table",VM+"vm.h, "+VM+"thread.h"),("new_thread passes arguments by value, arrays by reference","source/lib_builtins/builtin.cpp")],
 ["external calls","globals","return values"])
p("C04","Rounds are fair and wait(n) skips exactly n rounds",
 "In every scheduling round that completes, each unfinished thread that is not waiting runs exactly one slice, bounded by the given budget; a thread that executes wait(n) does nothing for exactly the next n rounds and runs in the one after, with n of zero or less not waiting at all. A new thread first runs no later than the round after its creation, a thread that ended is announced to the host exactly once and leaves the thread list by the end of the next round, and the machine reports being finished exactly when no unfinished thread is left.",
 ["programs","schedules"],"all sets of threads, wait lengths, budgets and spawn times",
 "scheduling is never observed by the tests, which only look at the exit value of main",
 [VM+"vm.cpp",VM+"thread.cpp","source/lib_builtins/builtin.cpp"],
 [("round-robin over the thread list with per-thread wait counters",VM+"vm.cpp vm_t::resume"),("wait sets the counter and halts","source/lib_builtins/builtin.cpp builtin_wait")],
 ["which threads made external calls or spent cycles in which round","vm_t::thread/finished","on_thread_finish/on_thread_error"])
p("C05","A failing thread fails alone and is reported once",
 "When a script operation is invalid (bad operand types, division by zero, out-of-bounds or non-array access, wrong argument count, non-callable callee, runaway recursion, invalid builtin argument) or the host raises an error from an external call, exactly that thread stops, with the error code that names the cause and at the source line that caused it, and the host is told exactly once. Every other thread and all shared data are as if the failing thread had simply stopped there, and the machine keeps accepting calls and running.",
 ["programs","schedules","fault_sequences"],"all failing operations and injected errors, at all points of all interleavings",
 "error tests run a single thread and only check that the program as a whole failed",
 [VM+"thread.cpp",VM+"vm.cpp",VM+"thread_error.cpp","source/lib_builtins/builtin.cpp"],
 [("errors are recorded in the thread, which stops",VM+"thread.cpp set_error_/raise_error"),("failed threads are removed by the scheduler",VM+"vm.cpp vm_t::resume")],
 ["thread_t::get_error/get_source_line","vm_t::has_error","on_thread_error/on_thread_finish","other threads' external calls"])
p("C06","Any history of host calls on one machine gives each call its own result",
 "call_init completes the initialisation of all globals or reports failure; call_once returns the called function's own result (or its error, or a refusal for a wrong argument count) whatever other threads are suspended in whatever state, without advancing them or taking away their results before the next round, also when issued from inside an external call; a thread that is prepared again starts over with the given function; and after reset a machine behaves like a newly created one. Several machines bound to the same program do not affect each other.",
 ["histories","programs","schedules"],"all sequences of init, call, spawn, resume, step, nested call and reset on one or more machines",
 "every test performs the same three calls: create, call_init, one call_once",
 [VM+"vm.cpp",VM+"vm.h",VM+"thread.cpp"],
 [("each call runs on its own thread object",VM+"vm.cpp call_once/new_thread"),("reset drops threads, heap and globals",VM+"vm.cpp reset")],
 ["call_once results and error codes","globals","states of suspended threads"])
p("C07","Bounded live data runs forever; exhaustion is a script error",
 "A program whose reachable data stays within half of the script heap and whose single objects stay below 64 KB can allocate without limit, under every way of driving it (resume, line step, instruction step, call_once, many threads, collections at any time). If a script does retain more than the heap can hold, or asks for an impossible object, the thread that asked gets a run-time error and the host process, the other threads and their data survive; once the data is dropped the machine is fully usable again.",
 ["programs","schedules","fault_sequences"],"all allocation patterns around the heap limits; all collection times; all driving modes",
 "no test allocates enough to reach the heap limit and none drives threads by stepping",
 [VM+"vm_gc.cpp",VM+"vm_gc.h",VM+"thread.cpp",VM+"value.cpp"],
 [("collection above 75% occupancy before each instruction",VM+"thread.cpp tick_gc_"),("fixed 1 MB semispaces",VM+"vm_gc.h arena_t")],
 ["thread errors","external calls continuing","values after collection"])
p("C08","Breakpoints and line steps stop exactly where asked and change nothing",
 "While breakpoints are set, a resumed thread stops each time execution arrives at a breakpoint line from another line and nowhere else, reporting that line, and resuming from a stop continues without stopping again before the line is left; a line step stops at the first instruction belonging to a different line. Adding, removing or clearing breakpoints at any time takes effect from the next arrival, affects only that thread, and never changes what any thread computes.",
 ["programs","schedules","histories"],"all scripts; all sets of breakpoint edits interleaved with resumes, steps and other threads",
 "no test uses breakpoints or stepping",
 [VM+"thread.cpp","source/lib_common/program.h"],
 [("line table lookup after each instruction and previous-line tracking",VM+"thread.cpp step_imp_/step_line")],
 ["thread_t::get_source_line after each stop","external calls between stops"],
 [("breakpoint set and last line","debug state per thread",VM+"thread.h")])
p("C09","A saved and reloaded program runs exactly like the original",
 "A program written to a file and loaded again, possibly in a fresh process and over a device that delivers data in pieces of any size, has the same functions with the same names, arguments and locals, the same external-call table and the same line information, and under every schedule it makes the same external calls and produces the same results, errors and cycle counts as the program that was saved. Saving the reloaded program gives the same file.",
 ["programs","schedules","fault_sequences"],"all compilable programs (including long strings and names and many functions); all short-read and short-write patterns",
 "the driver saves a file after each test but nothing ever loads one",
 ["source/lib_common/program.cpp","source/lib_common/program.h"],
 [("sequential binary format",  "source/lib_common/program.cpp serial_save/serial_load")],
 ["program_t accessors after load","behaviour of the loaded program"])
p("C10","Saving reports success only for a complete file",
 "If saving a program reports success, the file on the device holds the complete program and loads back to it; if any part of the writing fails (the device is full, a write is short, an I/O error occurs, closing or flushing fails, the file cannot be opened) saving reports failure. Neither outcome changes the program in memory, leaks the file handle or crashes, and saving again after the device recovers succeeds.",
 ["fault_sequences","crash_points","programs"],"all points at which opening, writing, flushing or closing can fail; all programs",
 "tests run on a healthy disk and never check the result of saving",
 ["source/lib_common/program.cpp"],
 [("results of the write calls and of closing the stream","source/lib_common/program.cpp serial_save")],
 ["return value of serial_save","bytes on the simulated device","open handle count"])
p("C11","Loading a damaged program file fails cleanly",
 "Loading a file that was cut at any point (as a crash or torn write leaves it), that does not begin with the signature of a program file, or during whose reading an I/O error occurs, reports failure; loading a file with arbitrary damaged bytes either reports failure or yields a program, but never crashes, hangs, reads outside its buffers or demands memory out of proportion to the file. After a failed load no file handle is left open, the program object holds nothing of the damaged file, and loading an intact file into the same object works.",
 ["fault_sequences","crash_points","inputs"],"all cut points, bit and byte errors, device errors and short reads on all program files",
 "no test loads a program file at all",
 ["source/lib_common/program.cpp"],
 [("every field read is checked and lengths are bounded","source/lib_common/program.cpp consume/serial_load")],
 ["return value of serial_load","open handle count","memory requested","program_t accessors"])
p("C12","Loading and importing sources is all-or-nothing, each file once",
 "A build from source files sees exactly the files asked for and those they import (directly, transitively or in cycles, with the path taken relative to the importing file), each exactly once however often and in whatever spelling of slashes and case it is named, and with every byte as stored, as a whole and line by line. If a file is missing, empty, unreadable, or fails while being read, loading reports failure, the import statement is reported as an error, and the set of loaded sources is as it was before the attempt so that a retry after the fault clears succeeds.",
 ["fault_sequences","histories","inputs"],"all import graphs and path spellings; all read faults at all points; retries",
 "import tests use two healthy files once",
 ["source/lib_common/source.cpp","source/lib_common/source.h","source/lib_common/file.h","source/lib_compiler/parser.cpp","source/lib_compiler/nano.cpp"],
 [("source manager de-duplicates by path and keeps load order","source/lib_common/source.cpp load"),("import resolves relative to the current file","source/lib_compiler/parser.cpp parse_import_")],
 ["source_manager_t::load/count/get_source","build result and behaviour of the built program"])
p("C13","Compilation depends on nothing but the sources and options",
 "Building the same sources with the same registered external calls and options gives the same program (or the same diagnostic with the same line) every time: whatever the memory layout and leftover memory contents, whatever was built before in the process, successfully or not, with this compiler object (once it has been reset) or another, and with other compilers or running machines active in between. Name resolution in particular follows the nesting of the source text.",
 ["configurations","histories","programs"],"all allocator placements and stale memory contents; all histories of earlier builds",
 "each test is a fresh process with the same allocator behaviour, so any dependence on addresses or on earlier builds stays constant",
 ["source/lib_compiler/sema.cpp","source/lib_compiler/nano.cpp","source/lib_compiler/parser.cpp","source/lib_compiler/ast.cpp","source/lib_compiler/codegen.cpp"],
 [("compiler state is per object and re-initialised by reset","source/lib_compiler/nano.cpp"),("scopes are searched inner to outer","source/lib_compiler/sema.cpp find_decl")],
 ["bytes of the saved program","diagnostic text and line","behaviour of the program"])
p("C14","Any source text gets a verdict, never a crash",
 "For every byte string delivered as source (complete programs cut at any byte as by a torn write or failed transfer, with lost, duplicated, swapped or corrupted pieces, or arbitrary text), a build terminates and either yields a program or reports an error with a message and a line within the text; it does not crash, hang, abort, or touch memory outside its own. What it accepts can be saved, dumped and executed without breaking the host process.",
 ["inputs","fault_sequences","crash_points"],"all cut points and corruptions of all programs",
 "the fail tests are a fixed list of small hand-written errors, each of which exits in the first error path",
 ["source/lib_compiler/lexer.cpp","source/lib_compiler/parser.cpp","source/lib_compiler/sema.cpp","source/lib_compiler/optimize.cpp","source/lib_compiler/codegen.cpp","source/lib_compiler/token.h"],
 [("every malformed construct raises a compile error that build turns into a result","source/lib_compiler/errors.cpp, source/lib_compiler/nano.cpp build")],
 ["result of build","process survival","memory guard pages"])
p("C15","Running out of host memory leaks and corrupts nothing",
 "If any single allocation (or every allocation from some point on) fails while a program is being loaded, built, saved, started or called, the failure surfaces to the caller as an ordinary allocation failure or an error result, destroying the objects involved releases everything they held (memory and files), and objects not involved in the failing call continue to work correctly. Repeating the same operation with memory available then gives the normal result.",
 ["fault_sequences","programs","histories"],"all allocation points of load, build, save, load-program, machine creation, thread creation and execution",
 "tests never run out of memory",
 ["source/lib_compiler/ast.h","source/lib_compiler/nano.cpp","source/lib_common/source.cpp","source/lib_common/file.h","source/lib_common/program.cpp",VM+"vm.cpp"],
 [("ownership through containers and unique pointers, resources released on unwinding","source/lib_compiler/ast.h alloc, source/lib_common/*.h, "+VM+"vm.cpp new_thread")],
 ["live allocation and open handle counts after destruction","results of the retried operation"])
p("C16","The optimiser never changes what a program does",
 "For every program, compiling with and without optimisation gives programs that, under every schedule of slices, collections and thread switches at external calls, make the same external calls with the same arguments in the same order, return the same values, raise the same errors and leave the same globals. The only permitted difference is that a division or modulo by a constant zero may already be rejected at compile time.",
 ["programs","schedules"],"all scripts with constant and dead code; all schedules",
 "each test is run with the optimiser on only and compares one exit value",
 ["source/lib_compiler/optimize.cpp","source/lib_compiler/sema.cpp","source/lib_compiler/codegen.cpp"],
 [("constant folding, dead branch and dead code removal on the syntax tree","source/lib_compiler/optimize.cpp")],
 ["external calls, results and globals of both builds"])
p("C17","The console runner reads and writes its streams faithfully",
 "A script run by the console runner sees exactly the bytes of standard input (a character call gives each byte once and then a negative value at end of input; a line call gives each line of text without its newline, a long one in pieces of 79 bytes, and an empty string at end of input), however the bytes arrive and wherever input ends or fails; exactly what it prints appears on standard output in order, and has appeared before the script waits for input. On success the runner prints the result of main after that and exits with zero, whether or not the program image could be saved; it exits with a non-zero status and prints no result when a source cannot be loaded or built, main is missing, or initialisation or main fails.",
 ["fault_sequences","inputs","programs"],"all input contents, chunkings and end or error positions; all console scripts",
 "tests run without input and only inspect the exit line",
 ["source/driver/driver.cpp"],
 [("console external calls over stdio","source/driver/driver.cpp vm_getc/vm_gets/vm_putc/vm_puts/main")],
 ["standard output bytes","exit status"])
p("C18","Host extensions see exact arguments and have exact effect",
 "An external function called directly or through a variable receives exactly the arguments in order with their count, and its pushed result becomes the value of the call, whether it finishes at once, halts the thread or is re-entered by other threads; operator, member and array handlers are asked exactly when the language has no meaning of its own (array access handlers: always first), with the true operands, and a handler that declines leaves the language's own behaviour or error in place. Calling an external function through a variable with the wrong number of arguments is a run-time error of that thread rather than damage to its stack.",
 ["programs","schedules","configurations"],"all scripts using external functions and handlers; all accept/decline patterns and switch orders",
 "tests use only the built-in functions, directly, and no handlers",
 [VM+"thread.cpp",VM+"vm.h","source/lib_common/program.h","source/lib_compiler/codegen.cpp"],
 [("syscall table resolved by name; handlers consulted in the operator implementations",VM+"thread.cpp do_syscall_, do_INS_*")],
 ["arguments seen by external functions and handlers","values of the calls"])
p("C19","The debugger view shows the true state of a stopped thread",
 "Whenever a thread is stopped between two source lines, its call frames name the functions that are active in the source program in the right order, the value shown for every argument and every initialised local variable of every active call is the value the program has given it, and likewise for all globals, while collections and other threads run in between. Looking does not change anything.",
 ["programs","schedules"],"all scripts and all stop points at line boundaries, with other threads and collections interleaved",
 "no test inspects frames, locals or globals",
 [VM+"thread.h","source/lib_compiler/pre_codegen.cpp","source/lib_common/types.h","source/lib_common/program.h"],
 [("function descriptors with argument and local offsets; frames with base pointers","source/lib_compiler/pre_codegen.cpp, "+VM+"thread.h frames")],
 ["thread_t::frames/get_stack, program_t::functions/globals, vm_t::globals"])
p("C20","Expressions follow the documented grammar and arithmetic",
 "Operator precedence, associativity, literal parsing and the numeric results of operators and mathematical builtins are those of the language reference for all operands.",
 ["inputs"],"all expressions and operand values",
 "tests sample a few dozen expressions",
 ["source/lib_compiler/parser.cpp","source/lib_compiler/lexer.cpp",VM+"thread.cpp","source/lib_builtins/builtin.cpp"],
 [("precedence climbing parser and per-type operator code","source/lib_compiler/parser.cpp, "+VM+"thread.cpp")],
 ["value of a single expression"])
p("C21","Compile diagnostics and listings describe the source faithfully",
 "Every compile error names the line of the offending token and every disassembly or syntax-tree listing matches the generated program.",
 ["inputs","programs"],"all erroneous and all correct sources",
 "tests only check that compilation fails",
 ["source/lib_compiler/errors.h","source/lib_compiler/disassembler.cpp","source/lib_compiler/ast.h"],
 [("tokens carry their line; listing passes walk the tree and the code","source/lib_compiler/errors.h, source/lib_compiler/disassembler.cpp")],
 ["diagnostic line","listing text"])
p("C22","The graphics runner keeps time, shows what was drawn and stops when told",
 "No script of the graphics runner goes on before the time that any of them asked to sleep has passed, for every clock value, delay and mix of sleeping threads, and sleeping ends once it has passed: with nothing else to wait for the script gets to its end. Every flip shows exactly the canvas as drawn so far (points, lines and discs clipped to it, each pixel three by three), keys read as the keyboard has them, and nothing outside the canvas and the window is read or written whatever sizes and coordinates the script uses and whether or not a window could be opened (video tells which). The runner goes on until the window is closed, then stops at once with status zero, and ends with a non-zero status when a script fails or cannot be started.",
 ["schedules","fault_sequences","programs","histories"],"all clock values, stalls and late wake-ups, orders of events, refused windows; all drawing scripts",
 "no test runs the graphics runner, and its behaviour depends on the clock, the event queue and the display",
 ["source/driver_sdl/driver.cpp"],
 [("main loop over clock, virtual machine and event queue; canvas copied to the window surface","source/driver_sdl/driver.cpp main, vm_sleep, vm_flip, vm_video, plot, span, line")],
 ["SDL calls of the runner with their times and the pixels shown","exit status"])
p("C23","The command line compiler succeeds only with complete outputs",
 "The command line compiler exits with zero exactly when all sources were loaded and built and every output that was asked for (binary, listing, syntax tree) is completely on disk and describes the program built with the requested optimisation; whatever prevents an output from being opened, written or closed gives a non-zero status, sources are never changed, and the length of file names does not matter.",
 ["fault_sequences","inputs","programs"],"all programs, options and file names; every failing open, write and close",
 "no test runs the command line compiler, and tests have healthy disks",
 ["source/comp/driver.cpp"],
 [("outputs opened while options are read and written after the build","source/comp/driver.cpp main, fd_open")],
 ["exit status","files on the simulated disk"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
