#include "props.h"
namespace sim {
#define VM_REAL "compiler (lexer, parser, sema, optimiser, code generator), program, virtual machine, threads, garbage collector, builtins"
#define VM_STUB "host application (external functions, handlers, scheduler) driven by the simulator; host allocator; the source text is generated"
#define IO_REAL "compiler, program (save and load), source manager, file loading, virtual machine"
#define IO_STUB "disk (stdio streams over simulated files), host allocator, host application"
#define DRV_REAL "the console runner's main, compiler, source manager, virtual machine, builtins"
#define DRV_STUB "standard streams, process exit, disk (stdio streams over simulated files), host allocator"
const Property properties[] = {
#define D(ID, FN, RULE) {ID, props::FN, RULE, DRV_REAL, DRV_STUB},
#define Q(ID, FN, RULE) {ID, props::FN, RULE, IO_REAL, IO_STUB},
#define P(ID, FN, RULE) {ID, props::FN, RULE, VM_REAL, VM_STUB},
  P("C01", c01, "one run = generated program with per-thread data, run once under a random mix of budgets, instruction steps, line steps, rounds, halts and nested calls and once undisturbed, both in lockstep with a reference interpreter; non-trivial when some thread made at least two external calls")
  P("C02", c02, "one run = generated program with nested and shared arrays and strings under forced collections (instruction steps, heap pressure, call_once); non-trivial when initialisation succeeded")
  P("C03", c03, "one run = generated threads sharing globals and arrays, switched at drawn external calls; non-trivial when threads were started")
  P("C04", c04, "one run = threads with waits, spawns, errors and halts driven by rounds; non-trivial when initialisation succeeded")
  P("C05", c05, "one run = programs with invalid operations and host-raised errors; non-trivial when at least one thread failed")
  P("C06", c06, "one run = history of host calls on one to three machines of one program; non-trivial when at least one call_once was made")
  P("C07", c07, "one run = up to five threads and host calls that allocate far more than the heap holds while their live data stays within half of it, mixed with threads that retain without limit or ask for impossible objects, driven by every entry point; results have a closed form; every run is non-trivial")
  P("C08", c08, "one run = the lines of every thread recorded by single steps, then the same program driven by resumes, rounds, line steps and single steps while breakpoints are added, removed and cleared on threads at drawn points and inside external calls; non-trivial when a thread was resumed")
  Q("C09", c09, "one run = a generated program (with long strings and names, many functions, arguments and locals) saved and loaded through streams with drawn buffer sizes and short reads, compared field by field, saved again, and run against the program it was made from under a random schedule; every run is non-trivial")
  Q("C10", c10, "one run = up to four attempts to save a generated program, each with a drawn fault (open, full disk at a byte, one failing write, close, wrong target), then one on a healthy disk; non-trivial when a fault fired")
  Q("C11", c11, "one run = up to six attempts to load a program file that is cut, damaged in counts, bytes or sectors, with pieces missing or doubled, or whose device fails, each followed by loading the intact file; memory and handles are accounted; non-trivial when a load failed")
  Q("C12", c12, "one run = a generated graph of importing files in directories, built up to four times from one source manager while files are missing, empty, unreadable or fail while being read, finally on a healthy disk; non-trivial when an attempt failed")
  Q("C13", c13, "one run = one set of sources (valid, or with changed tokens or lines) built up to six times under different allocator layouts, leftover memory contents, earlier builds of the same compiler object and other compilers and machines in between; results are compared byte by byte, and the program is run against the reference interpreter; every run is non-trivial")
  Q("C14", c14, "one run = one source text (torn, with bit errors, lost, doubled or overwritten blocks, changed tokens or lines, token soup, or of unusual size) loaded from the simulated disk, built, and if accepted dumped, saved and run, under guard pages or red zones; every run is non-trivial")
  Q("C15", c15, "one run = the life of a program in a host (load, build, save, load program, machine, init, threads, calls), repeated with one drawn allocation, or all from it on, failing; memory and handles are accounted and the steps repeated; a machine unrelated to it runs along; non-trivial when an allocation failed")
  P("C16", c16, "one run = a generated program rich in constant expressions, constant conditions and dead code, built with and without optimisation, both run in lockstep with the reference interpreter, under the same switches (shared data) or under independent slicing (own data); non-trivial when the optimiser changed the program")
  D("C17", c17, "one run = a generated console script over one to three files run by the real main with a drawn input (length, line lengths, chunking, end or failure at a byte), stream buffer sizes, and cases where sources are missing, unreadable or wrong, main is missing or takes arguments, initialisation or main fails; every run is non-trivial")
  P("C18", c18, "one run = a program that calls external functions directly, through variables and with wrong argument counts, and applies operators, members and indices to values that have none, with a drawn set of handlers that accept, decline or raise; non-trivial when the host was called")
  {"C22", props::c22, "one run = a generated drawing script run by the real main over a simulated clock (any start, including the ends of its range, with stalls and late wake-ups), display that can refuse windows, keyboard and event queue; the recorded history is compared with the meaning of the script; non-trivial when a picture was shown",
   "the graphics runner's main, compiler, source manager, virtual machine, builtins", "SDL (clock, delay, window, keyboard, events), process exit, disk, host allocator"},
  {"C23", props::c23, "one run = the real main of the command line compiler on a generated program with drawn options, names and files in the way, on a disk with a drawn fault (open, full disk at a byte, one failing write, close); non-trivial when an output was asked for or nothing could be compiled",
   "the command line compiler's main, compiler, disassembler, source manager", "disk (stdio streams over simulated files), standard streams, process exit, host allocator"},
  P("C19", c19, "one run = threads stepped by line and by instruction, with collections and other threads in between; at every new line frames, arguments, locals and globals are compared with the reference interpreter; non-trivial when a stop with two or more frames was viewed")
};
const int num_properties = int(sizeof(properties) / sizeof(properties[0]));
}
