// the system under test next to the reference model.
//
// A Machine couples one real vm_t with one model::World.  Each time the real
// machine reaches the host (external call, handler, thread end) the model
// thread is advanced to its next event and both have to agree.
#pragma once
#include "core.h"
#include "lang.h"
#include "model.h"

#include "../lib_common/common.h"
#include "../lib_common/program.h"
#include "../lib_common/source.h"
#include "../lib_common/types.h"
#include "../lib_compiler/errors.h"
#include "../lib_compiler/nano.h"
#include "../lib_compiler/lexer.h"
#include "../lib_compiler/parser.h"
#include "../lib_compiler/ast.h"
#include "../lib_compiler/codegen.h"
#include "../lib_builtins/builtin.h"
#include "../lib_vm/thread.h"
#include "../lib_vm/thread_error.h"
#include "../lib_vm/value.h"
#include "../lib_vm/vm.h"

#include <map>
#include <set>

namespace world {

using lang::Func;
using lang::Program;
using lang::Sym;

// ---- building ------------------------------------------------------------------
struct Compiled {
  nano::program_t *prog = nullptr;
  bool ok = false;
  std::string error;
  int file = 0, line = 0;
  std::map<std::string, int> globals; // offsets by name
  ~Compiled();
};

// register everything that generated programs use
void register_syscalls(nano::nano_t &n);
// bind the host functions
void resolve(nano::program_t &p);
Compiled *compile(const Program &p, bool optimize);
Compiled *compile_files(const std::vector<std::string> &files, bool optimize);
Compiled *compile_text(const std::string &text, bool optimize);
// a program that fails to build breaks the property under check
Compiled *must_compile(const Program &p, bool optimize);

// ---- decisions of the host that both runs of a pair share ---------------------------
struct Decision {
  bool halt = false;
  int junk = 0;   // bytes
  bool nest = false;
  int nest_func = 0;
  bool raise = false;
  int raise_code = 0;
  bool look = false;
  bool decline = false;
  int handler_result = 0;
};

struct Plan {
  uint64_t oracle = 1; // seeds the values that the host returns
  // probabilities in percent
  int p_halt = 0, p_junk = 0, p_nest = 0, p_raise = 0, p_look = 20, p_decline = 50,
      p_hraise = 0;
  bool big_junk = false;
  int nests = 0; // calls made by the host during external calls
  std::map<std::pair<std::string, int>, Decision> made;
  Decision &get(const std::string &path, int callno, bool handler);
};

struct Th;
struct Machine;

struct Th {
  Machine *m = nullptr;
  std::string path;
  Func *fn = nullptr; // null: @init
  nano::thread_t *sut = nullptr;
  model::Thread *mt = nullptr;
  bool host_call = false; // started by call_once or call_init
  bool done = false;
  bool failed = false;
  int told_finish = 0, told_error = 0;
  int calls = 0, children = 0;
  int wait = 0;
  bool halted = false;      // asked to stop in the current slice
  int expect_err_code = 0;
  int err_line = 0;
  std::vector<uint64_t> log; // digests of the external events
  std::vector<std::string> log_text;
  uint64_t result = 0;       // digest of the result or error
  uint32_t cycles = 0;       // at the end
  uint32_t seen_cycles = 0;  // at the last observation
  int born_round = 0, done_round = -1;
  int keep_until = -1;       // listed until this many rounds were made
  bool touched = false;      // executed something since the last observation
  uint32_t event_cycle = 0;  // where the last external call was made
  int user = 0;
};

enum SliceKind { SL_NONE, SL_RESUME, SL_ROUND, SL_INST, SL_LINE, SL_CALL };

struct Machine {
  Program *p;
  Compiled *c;
  Plan *plan;
  nano::vm_t *vm;
  model::World *mw;
  std::string name;
  std::vector<Th *> ths;
  std::vector<Th *> replaced;
  std::vector<Th *> pending; // call_once / call_init in progress
  bool shared;               // the model tracks all globals at every event
  bool apply_schedule = true; // halts, junk and nested calls of the plan
  bool check_lines = true;
  SliceKind slice = SL_NONE;
  int rounds = 0;
  int calls = 0;
  bool in_round = false;
  int round_errors = 0;
  int events = 0;            // external events so far
  int nested = 0;            // calls injected by the host
  bool destroyed = false;
  bool init_done = false;
  // observation hooks of scenarios
  void (*on_event)(Th &th, const model::Event &e) = nullptr;

  Machine(Program *prog, Compiled *comp, Plan *pl, const char *nm);
  ~Machine();

  bool init();
  Th *start(Func *f, const std::vector<model::Value> &args,
            const std::vector<const nano::value_t *> &sargs);
  Th *start(Func *f, const std::vector<int> &args);
  // prepare an existing thread, in whatever state, for another function
  Th *again(Th *old, Func *f, const std::vector<int> &args);
  // call_once; false if the call reported an error (as the model said)
  bool call(Func *f, const std::vector<model::Value> &args,
            const std::vector<const nano::value_t *> &sargs, const std::string &path,
            model::Value *out = nullptr, nano::value_t **sout = nullptr);
  bool call(Func *f, const std::vector<int> &args);
  bool resume(Th *t, int n, bool breakpoints = false);
  bool step_inst(Th *t);
  bool step_line(Th *t);
  bool round(uint32_t n, bool breakpoints = false);
  void reset();
  void junk(int bytes);
  void litter(nano::thread_t &t, int bytes);

  std::vector<Th *> live();     // unfinished threads that are not host calls
  void check();                 // invariants at a quiescent point
  void compare_globals(const char *when, Th *only_group = nullptr);
  void final_check();
  uint64_t digest();
  const nano::value_t *global(Sym *s);
  std::vector<int> draw_args(Func *f);

  model::Event next(Th *th);

  // callbacks
  Th *owner(nano::thread_t &t);
  void host_call(nano::thread_t &t, int sys, int nargs);
  void finished(nano::thread_t &t);
  void errored(nano::thread_t &t);
  bool handler(nano::thread_t &t, int h, std::vector<const nano::value_t *> ops,
               const std::string &member);
  void enable_handlers(const bool on[model::HD_COUNT]);
};

// deep comparison, arrays by identity within one joint comparison
struct Joint {
  Machine &m;
  std::map<const nano::value_t *, const model::Arr *> s2m;
  std::map<const model::Arr *, const nano::value_t *> m2s;
  explicit Joint(Machine &mm) : m(mm) {}
  // empty if equal, otherwise what differs
  std::string same(const nano::value_t *s, const model::Value &v);
};

std::string show(Machine &m, const nano::value_t *v, int depth = 3);
int error_code(const model::Event &e); // -1: any
const char *error_name(int code);
void note_program(const Program &p);

// helpers to drive
void reset_all();

} // namespace world
