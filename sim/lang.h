// script programs as syntax trees: generator and printer
#pragma once
#include "core.h"
#include <string>
#include <vector>

namespace lang {

enum Ty { T_INT, T_FLT, T_STR, T_IARR, T_ARR, T_FUN, T_ANY, T_COUNT };

struct Func;

enum SymKind { S_GLOBAL, S_CONST, S_LOCAL, S_ARG, S_FUNC, S_SYS };
struct Sym {
  std::string name;
  SymKind kind;
  int index = 0; // slot, global number or syscall id
  Ty ty = T_ANY;
  int group = -1;       // owner in partitioned programs
  bool readonly = false; // must not be assigned (loop counters, shared data)
  Func *fn = nullptr;
  struct Expr *init = nullptr; // constants and globals
  int line = 0;
};

enum ExprKind { E_INT, E_FLT, E_STR, E_NONE, E_VAR, E_BIN, E_NOT, E_NEG, E_CALL, E_INDEX, E_ARRAY, E_MEMBER };
enum Op { O_ADD, O_SUB, O_MUL, O_DIV, O_MOD, O_AND, O_OR, O_LT, O_GT, O_LEQ, O_GEQ, O_EQ };
extern const char *op_text[];

struct Expr {
  ExprKind k;
  int32_t i = 0;
  std::string s; // string value, float digits, member name
  float f = 0;
  Op op = O_ADD;
  Sym *sym = nullptr;
  std::vector<Expr *> kid; // call: args; callee in base
  Expr *base = nullptr;    // callee / indexed expression
};

enum StmtKind { ST_VAR, ST_ASSIGN, ST_COMPOUND, ST_SETA, ST_SETM, ST_CALL, ST_IF, ST_WHILE, ST_FOR, ST_RETURN };
struct Stmt {
  StmtKind k;
  Sym *sym = nullptr;
  Expr *e = nullptr, *e2 = nullptr;
  Op op = O_ADD;
  std::string s;
  std::vector<Stmt *> a, b;
  bool has_else = false;
  int line = 0, end_line = 0;
};

struct Func {
  std::string name;
  Sym *sym = nullptr;
  std::vector<Sym *> args;
  std::vector<Sym *> locals;
  std::vector<Stmt *> body;
  int nslots = 0;
  int line = 0, end_line = 0;
  int file = 0;
  int group = -1;
  int cost = 1;
  bool calls_host = false;
  bool touches_globals = false;
  bool entry = false;
  bool runaway = false;
  int deep = 0;           // calls itself this often at most
  Ty ret = T_ANY;
  int index = 0;
};

// host functions; builtins follow
enum Sys {
  H_OUT, H_ECHO, H_NUM, H_MK, H_YIELD, H_TXT, H_VA, H_PICK, H_BOOM, H_NEST, H_FIX2,
  H_COUNT,
  B_ABS = H_COUNT, B_MIN, B_MAX, B_BITAND, B_SIN, B_COS, B_TAN, B_LEN, B_CHR,
  B_ROUND, B_CEIL, B_FLOOR, B_SQRT, B_NEW_THREAD, B_WAIT, B_NEW_ARRAY,
  SYS_COUNT
};
struct SysInfo {
  const char *name;
  int nargs; // -1: any
};
extern const SysInfo sys_info[SYS_COUNT];

struct Knobs {
  bool shared = false;    // threads may share mutable data
  int entries = 2;        // number of entry functions
  int helpers = 3;
  int globals = 4;
  int stmts = 6;          // statements per block
  int depth = 3;          // expression depth
  int nest = 2;           // block nesting
  int wild = 0;           // 0..10: how often types and bounds are ignored
  bool floats = true, strings = true, arrays = true, funcs = true;
  bool recursion = true, spawn = false, waits = false, members = false, sleeper = false;
  bool constfold = true, icalls = true, handlers = false;
  bool boom = false, nested = false, mk = true;
  bool dead_code = false;
  bool runaway = false;
  bool minimal_parens = false;
  int file_gap = 0, file_gap_at = 0; // files with nothing in them
  bool decorate = false;  // comments and blank lines
  bool zero_div = false;  // runtime division by a variable that may be zero
  bool host_calls = true;
  bool uninit = true;
  int budget = 250;       // statement budget of one function activation
  bool init_calls = true; // global initialisers may call functions
  int files = 1;          // number of source files
  bool late = false;      // globals and constants after their first use
  int foldy = 0;          // 0..10: how often an integer is a constant expression
  int bad_argc = 0;       // 0..10: external functions through variables with wrong counts
  bool wide = false;      // many globals, locals, arguments and functions, long literals
  bool long_init = false; // a global starts as what a long loop gives
  bool busy = false;      // an entry function with a long loop
  int ballast = 0;        // blocks of 2 KB that stay alive
  bool deep = false;      // long chains of calls
  int gap = 0;            // empty lines before one of the declarations
  int gap_at = 0;
  int exts = 0;           // external functions that are named but never called
  int bulk = 0;           // statements of one long branch
  int names = 0;          // 1: long, 2: differing in case only, 3: a common beginning
  int reuse = 0;          // 1: names repeat between functions, 2: and between scopes
};

// external functions of the last program that nobody calls
extern int g_exts;
// external functions that are never called, with names like those that are:
// registered before (1) and after (2) them
extern int g_decoys;
inline std::string ext_name(int i) { return "ext" + std::to_string(i); }

// lines of all files in one number
const int FILE_LINES = 100000;
inline int pack(int file, int line) { return line > 0 ? file * FILE_LINES + line : 0; }

struct Item {
  Sym *sym = nullptr; // global or constant
  Func *fn = nullptr;
  int file = 0;
};

struct Program {
  std::vector<Sym *> consts, globals;
  std::vector<Func *> funcs; // callee before caller
  std::vector<Func *> entries;
  Func *sleeper = nullptr; // waits for as many rounds as it is told
  std::vector<Sym *> sys;    // by Sys
  Knobs k;
  std::string text;          // printed source
  std::vector<std::string> files; // the text of each file
  std::vector<int> lines;         // and its number of lines
  std::vector<Item> order;        // declarations in source order
};

Knobs draw_knobs();
Program *generate(const Knobs &k);
// prints into p->text and assigns line numbers
void print(Program &p);
// any line of the program
int some_line(const Program &p);
// some division or modulo has a divisor that is a constant expression of value zero
bool const_zero_div(const Program &p);
std::string expr_text(const Expr *e, bool minimal);

} // namespace lang
