// small host used by the demonstrations
#pragma once
#include "lib_builtins/builtin.h"
#include "lib_common/program.h"
#include "lib_common/source.h"
#include "lib_compiler/ast.h"
#include "lib_compiler/codegen.h"
#include "lib_compiler/errors.h"
#include "lib_compiler/lexer.h"
#include "lib_compiler/nano.h"
#include "lib_compiler/parser.h"
#include "lib_vm/thread.h"
#include "lib_vm/thread_error.h"
#include "lib_vm/vm.h"
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <string>
#include <vector>
using namespace nano;

static std::vector<std::string> out_log; // what scripts passed to out()
static std::function<void(thread_t &)> on_hook; // called by hook()

static void sys_out(thread_t &t, int32_t) {
  const value_t *v = t.get_stack().pop();
  out_log.push_back(v->is_a<val_type_string>() ? std::string(v->string(), v->strlen())
                                               : v->to_string());
  t.get_stack().push_int(0);
}
static void sys_hook(thread_t &t, int32_t) {
  if (on_hook) {
    on_hook(t);
  }
  t.get_stack().push_int(7);
}

// build a program from text, exit(2) if that fails
static void build(program_t &prog, const char *text, bool optimize = true) {
  source_manager_t src;
  src.load_from_string(text);
  nano_t n(prog);
  n.optimize = optimize;
  builtins_register(n);
  n.syscall_register("out", 1);
  n.syscall_register("hook", 0);
  error_t err;
  if (!n.build(src, err)) {
    printf("build failed: %s (line %d)\n", err.error.c_str(), err.line.line);
    exit(2);
  }
  builtins_resolve(prog);
  prog.syscall_resolve("out", sys_out);
  prog.syscall_resolve("hook", sys_hook);
}

static const function_t &fn(program_t &prog, const char *name) {
  const function_t *f = prog.function_find(std::string(name));
  if (!f) {
    printf("no function %s\n", name);
    exit(2);
  }
  return *f;
}

#define EXPECT(X)                                                              \
  do {                                                                         \
    if (!(X)) {                                                                \
      printf("line %d: expected %s\n", __LINE__, #X);                          \
      exit(1);                                                                 \
    }                                                                          \
  } while (0)
