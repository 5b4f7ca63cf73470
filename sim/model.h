// reference model: a direct interpreter of the syntax tree.
//
// Each model thread is a coroutine that runs until it needs something from
// outside (an external call), ends, fails, or (in line mode) reaches a line.
#pragma once
#include "lang.h"
#include <memory>

namespace model {

using lang::Expr;
using lang::Func;
using lang::Program;
using lang::Stmt;
using lang::Sym;

enum Tag : uint8_t { V_NONE, V_INT, V_FLT, V_STR, V_ARR, V_FUN, V_SYS };

struct Arr;
struct Value {
  Tag t = V_NONE;
  union {
    int32_t i;
    float f;
    const std::string *s;
    Arr *a;
    Func *fn;
  };
  Value() : i(0) {}
  static Value Int(int32_t v) {
    Value r;
    r.t = V_INT;
    r.i = v;
    return r;
  }
  static Value Flt(float v) {
    Value r;
    r.t = V_FLT;
    r.f = v;
    return r;
  }
  static Value Str(const std::string &v) {
    Value r;
    r.t = V_STR;
    r.s = new std::string(v);
    return r;
  }
  static Value Fun(Func *f) {
    Value r;
    r.t = V_FUN;
    r.fn = f;
    return r;
  }
  static Value SysFn(int id) {
    Value r;
    r.t = V_SYS;
    r.i = id;
    return r;
  }
  static Value Array(Arr *a) {
    Value r;
    r.t = V_ARR;
    r.a = a;
    return r;
  }
  bool truth() const;
  bool number() const { return t == V_INT || t == V_FLT; }
  float num() const { return t == V_INT ? float(i) : f; }
};
struct Arr {
  std::vector<Value> v;
};

std::string show(const Value &v, int depth = 3);
uint64_t digest(const Value &v);

// error causes, named like the codes of the library
enum Err {
  R_OK, R_TYPE, R_DIV, R_BOUNDS, R_INDEX, R_ARRAY, R_ARGC, R_ARG, R_OVERFLOW, R_MEMBER,
  R_HOST,     // raised by the host: code given
  R_SYS_ARGC, // external function called through a variable with a bad count
  R_MEMORY,
  R_GLOBAL,   // a global of a machine that was never initialised
};

struct Activation {
  Func *fn;
  std::vector<Value> slot;
  std::vector<char> init; // has been given a value
  std::vector<char> in_scope;
  int line = 0;
};

struct Event {
  enum K { CALL, FINISH, ERROR, LINE, HANDLER } k;
  int sys = 0;              // CALL
  std::vector<Value> args;  // CALL, HANDLER operands
  Value value;              // FINISH
  Err err = R_OK;           // ERROR
  int line = 0;             // ERROR, LINE, CALL
  int host_code = 0;        // ERROR with R_HOST
  int handler = 0;          // HANDLER
  std::string member;
  bool optional = false;    // LINE that need not be visible
  bool indirect = false;    // CALL through a variable
};

// operator handlers of the host that the model knows about
enum Handler { HD_ADD, HD_SUB, HD_MUL, HD_DIV, HD_EQ, HD_AGET, HD_ASET, HD_MGET, HD_MSET, HD_COUNT };

struct World; // one machine: globals and options

struct Response {
  Value value;
  bool raise = false;
  int host_code = 0;
  bool declined = false; // handlers
};

struct Thread {
  World *w;
  // run until the next event
  Event advance();
  // answer to the last CALL or HANDLER event
  void respond(const Response &r) { resp = r; }

  std::vector<Activation *> stack; // innermost last
  bool done = false;
  uint64_t executed = 0; // statements

  // implementation
  Thread(World *world, Func *f, const std::vector<Value> &args);
  ~Thread();
  Response resp;
  Event out;
  struct Fiber;
  Fiber *fiber;
  Func *entry;
  std::vector<Value> entry_args;
  int depth = 0;
};

struct World {
  Program *p;
  std::vector<Value> globals;
  bool bare = false; // call_init was not made: there are no globals
  bool line_mode = false;
  bool handler_on[HD_COUNT] = {};
  size_t max_string = 4000;
  uint64_t limit = 200000; // statements per thread
  explicit World(Program *prog) : p(prog), globals(prog->globals.size()) {}
};

} // namespace model
