#include "model.h"

#include <cmath>
#include <cstring>
#include <set>
#include <sys/mman.h>
#include <ucontext.h>

namespace model {

using namespace lang;

bool Value::truth() const {
  switch (t) {
  case V_NONE: return false;
  case V_INT: return i != 0;
  case V_FLT: return f != 0.f;
  case V_STR: return !s->empty();
  default: return true;
  }
}

std::string show(const Value &v, int depth) {
  switch (v.t) {
  case V_NONE: return "none";
  case V_INT: return std::to_string(v.i);
  case V_FLT: return sim::format("%.9g", double(v.f)) + "f";
  case V_STR: return sim::quote(*v.s, 40);
  case V_FUN: return "function " + v.fn->name;
  case V_SYS: return std::string("external ") + sys_info[v.i].name;
  case V_ARR: {
    if (depth == 0) {
      return "[..]";
    }
    std::string o = "[";
    for (size_t i = 0; i < v.a->v.size() && i < 8; ++i) {
      o += (i ? "," : "") + show(v.a->v[i], depth - 1);
    }
    return o + (v.a->v.size() > 8 ? ",..]" : "]");
  }
  }
  return "?";
}

static uint64_t digest_(const Value &v, std::vector<const Arr *> &seen) {
  uint64_t h = v.t * 7919u + 1;
  switch (v.t) {
  case V_NONE: return h;
  case V_INT:
  case V_SYS: return sim::mix(h, uint32_t(v.i));
  case V_FLT: {
    uint32_t b;
    memcpy(&b, &v.f, 4);
    return sim::mix(h, b);
  }
  case V_STR: return sim::mix(h, sim::hash_str(*v.s));
  case V_FUN: return sim::mix(h, uint64_t(v.fn->index));
  case V_ARR: {
    for (size_t i = 0; i < seen.size(); ++i) {
      if (seen[i] == v.a) {
        return sim::mix(h, i + 1000003);
      }
    }
    seen.push_back(v.a);
    h = sim::mix(h, v.a->v.size());
    if (seen.size() < 200) {
      for (auto &e : v.a->v) {
        h = sim::mix(h, digest_(e, seen));
      }
    }
    return h;
  }
  }
  return h;
}

uint64_t digest(const Value &v) {
  std::vector<const Arr *> seen;
  return digest_(v, seen);
}

struct Fail {
  Err e;
  int host_code;
};

static const size_t FIBER_STACK = 4u << 20;

struct Thread::Fiber {
  ucontext_t ctx, back;
  void *mem;
  bool started = false;
};

namespace {

struct Interp {
  Thread &t;
  World &w;
  explicit Interp(Thread &th) : t(th), w(*th.w) {}

  Activation &act() { return *t.stack.back(); }

  void yield_() { swapcontext(&t.fiber->ctx, &t.fiber->back); }

  void emit_line(int line, bool optional = false) {
    act().line = line;
    if (w.line_mode) {
      t.out = Event();
      t.out.k = Event::LINE;
      t.out.line = line;
      t.out.optional = optional;
      yield_();
    }
  }

  [[noreturn]] void fail(Err e, int code = 0) { throw Fail{e, code}; }

  // ---- values
  Value get(Sym *s) {
    switch (s->kind) {
    case S_GLOBAL:
      if (w.bare) {
        fail(R_GLOBAL);
      }
      return w.globals[size_t(s->index)];
    case S_CONST: return constant(s->init);
    case S_LOCAL:
    case S_ARG: return act().slot[size_t(s->index)];
    case S_FUNC: return Value::Fun(s->fn);
    case S_SYS: return Value::SysFn(s->index);
    }
    return Value();
  }

  void set(Sym *s, const Value &v) {
    if (s->kind == S_GLOBAL) {
      if (w.bare) {
        fail(R_GLOBAL);
      }
      w.globals[size_t(s->index)] = v;
    } else {
      act().slot[size_t(s->index)] = v;
      act().init[size_t(s->index)] = 1;
    }
  }

  Value constant(Expr *e) {
    switch (e->k) {
    case E_INT: return Value::Int(e->i);
    case E_STR: return Value::Str(e->s);
    case E_FLT: return Value::Flt(flt(e->s));
    case E_BIN: return arith(e->op, constant(e->kid[0]), constant(e->kid[1]));
    case E_NOT: return Value::Int(!constant(e->kid[0]).truth());
    case E_NEG: return Value::Int(int32_t(0u - uint32_t(constant(e->kid[0]).i)));
    case E_VAR: return constant(e->sym->init);
    default: return Value();
    }
  }

  static float flt(const std::string &d) {
    int32_t v = 0, f = 0;
    for (char c : d) {
      if (c == '.') {
        f = 1;
      } else {
        v = v * 10 + (c - '0');
        f *= 10;
      }
    }
    return float(v) / float(f);
  }

  static bool text(const Value &v, std::string &o) {
    switch (v.t) {
    case V_NONE: o = "none"; return true;
    case V_INT: o = std::to_string(v.i); return true;
    case V_FLT: o = std::to_string(v.f); return true;
    case V_STR: o = *v.s; return true;
    case V_FUN:
      // the text holds an address: programs that do this are not compared
      sim::give_up("text of a function value");
    default: return false;
    }
  }

  bool handler(Handler h, std::vector<Value> ops, Value &out, const std::string &member = "") {
    if (!w.handler_on[h]) {
      return false;
    }
    t.out = Event();
    t.out.k = Event::HANDLER;
    t.out.handler = h;
    t.out.args = ops;
    t.out.member = member;
    t.out.line = act().line;
    yield_();
    if (t.resp.raise) {
      fail(R_HOST, t.resp.host_code);
    }
    if (t.resp.declined) {
      return false;
    }
    out = t.resp.value;
    return true;
  }

  Value arith(Op op, const Value &l, const Value &r) {
    const bool ii = l.t == V_INT && r.t == V_INT;
    const bool nn = l.number() && r.number();
    Value o;
    switch (op) {
    case O_ADD:
      if (ii) {
        return Value::Int(int32_t(uint32_t(l.i) + uint32_t(r.i)));
      }
      if (nn) {
        return Value::Flt(l.num() + r.num());
      }
      if (l.t == V_STR || r.t == V_STR) {
        std::string a, b;
        if (text(l, a) && text(r, b)) {
          if (a.size() + b.size() > w.max_string) {
            sim::give_up("a string grows without bound");
          }
          return Value::Str(a + b);
        }
      }
      if (handler(HD_ADD, {l, r}, o)) {
        return o;
      }
      fail(R_TYPE);
    case O_SUB:
      if (ii) {
        return Value::Int(int32_t(uint32_t(l.i) - uint32_t(r.i)));
      }
      if (nn) {
        return Value::Flt(l.num() - r.num());
      }
      if (handler(HD_SUB, {l, r}, o)) {
        return o;
      }
      fail(R_TYPE);
    case O_MUL:
      if (ii) {
        return Value::Int(int32_t(uint32_t(l.i) * uint32_t(r.i)));
      }
      if (nn) {
        return Value::Flt(l.num() * r.num());
      }
      if (handler(HD_MUL, {l, r}, o)) {
        return o;
      }
      fail(R_TYPE);
    case O_DIV:
      if (ii) {
        if (r.i == 0) {
          fail(R_DIV);
        }
        return Value::Int(r.i == -1 ? int32_t(0u - uint32_t(l.i)) : l.i / r.i);
      }
      if (nn) {
        return Value::Flt(l.num() / r.num());
      }
      if (handler(HD_DIV, {l, r}, o)) {
        return o;
      }
      fail(R_TYPE);
    case O_MOD:
      if (ii) {
        if (r.i == 0) {
          fail(R_DIV);
        }
        return Value::Int(r.i == -1 ? 0 : l.i % r.i);
      }
      fail(R_TYPE);
    case O_AND: return Value::Int(l.truth() && r.truth());
    case O_OR: return Value::Int(l.truth() || r.truth());
    case O_LT:
      if (ii) {
        return Value::Int(l.i < r.i);
      }
      if (nn) {
        return Value::Int(l.num() < r.num());
      }
      fail(R_TYPE);
    case O_GT:
      if (ii) {
        return Value::Int(l.i > r.i);
      }
      if (nn) {
        return Value::Int(l.num() > r.num());
      }
      fail(R_TYPE);
    case O_LEQ:
      if (ii) {
        return Value::Int(l.i <= r.i);
      }
      if (nn) {
        return Value::Int(l.num() <= r.num());
      }
      fail(R_TYPE);
    case O_GEQ:
      if (ii) {
        return Value::Int(l.i >= r.i);
      }
      if (nn) {
        return Value::Int(l.num() >= r.num());
      }
      fail(R_TYPE);
    case O_EQ:
      if (ii) {
        return Value::Int(l.i == r.i);
      }
      if (l.t == V_STR && r.t == V_STR) {
        return Value::Int(*l.s == *r.s);
      }
      if (l.t == V_FUN && r.t == V_FUN) {
        return Value::Int(l.fn == r.fn);
      }
      if (l.t == V_NONE || r.t == V_NONE) {
        return Value::Int(l.t == r.t);
      }
      if (nn) {
        return Value::Int(l.num() == r.num());
      }
      if (handler(HD_EQ, {l, r}, o)) {
        return o;
      }
      fail(R_TYPE);
    }
    return Value();
  }

  // ---- builtins without side effects on the machine
  Value builtin(int id, const std::vector<Value> &a) {
    switch (id) {
    case B_ABS:
      if (a[0].t == V_INT) {
        return Value::Int(a[0].i < 0 ? int32_t(0u - uint32_t(a[0].i)) : a[0].i);
      }
      if (a[0].t == V_FLT) {
        return Value::Flt(a[0].f < 0.f ? -a[0].f : a[0].f);
      }
      fail(R_ARG);
    case B_MIN:
    case B_MAX:
      if (a[0].number() && a[1].number()) {
        const float x = a[1].num(), y = a[0].num();
        return Value::Flt(id == B_MAX ? (x > y ? x : y) : (x < y ? x : y));
      }
      fail(R_ARG);
    case B_BITAND:
      if (a[0].t == V_INT && a[1].t == V_INT) {
        return Value::Int(a[0].i & a[1].i);
      }
      fail(R_ARG);
    case B_LEN:
      if (a[0].t == V_ARR) {
        return Value::Int(int(a[0].a->v.size()));
      }
      if (a[0].t == V_STR) {
        return Value::Int(int(a[0].s->size()));
      }
      fail(R_ARG);
    case B_CHR:
      if (a[0].t == V_INT) {
        const char c = char(a[0].i);
        return Value::Str(c ? std::string(1, c) : std::string());
      }
      fail(R_ARG);
    case B_SIN:
    case B_COS:
    case B_TAN:
    case B_ROUND:
    case B_CEIL:
    case B_FLOOR:
    case B_SQRT: {
      if (!a[0].number()) {
        fail(R_ARG);
      }
      const float x = a[0].num();
      switch (id) {
      case B_SIN: return Value::Flt(sinf(x));
      case B_COS: return Value::Flt(cosf(x));
      case B_TAN: return Value::Flt(tanf(x));
      case B_ROUND: return Value::Flt(roundf(x));
      case B_CEIL: return Value::Flt(ceilf(x));
      case B_FLOOR: return Value::Flt(floorf(x));
      default: return Value::Flt(sqrtf(x));
      }
    }
    case B_NEW_ARRAY: {
      if (!a[0].number()) {
        fail(R_ARG);
      }
      const float lim = a[0].num();
      const int32_t n = a[0].t == V_INT ? a[0].i : (lim > 1e6f ? 1000000 : int32_t(lim));
      if (n <= 0) {
        fail(R_ARG);
      }
      if (n > 4096) {
        fail(R_MEMORY);
      }
      Arr *arr = new Arr;
      arr->v.resize(size_t(n));
      return Value::Array(arr);
    }
    }
    return Value();
  }

  Value external(int id, const std::vector<Value> &a, bool indirect) {
    const int want = sys_info[id].nargs;
    const bool is_host = id < H_COUNT || id == B_WAIT || id == B_NEW_THREAD;
    if (indirect && want >= 0 && int(a.size()) != want && (id >= H_COUNT || id == H_FIX2)) {
      // real builtins take what they need: the thread fails
      if (is_host) {
        host(id, a, indirect);
      }
      fail(R_SYS_ARGC);
    }
    if (is_host) {
      return host(id, a, indirect);
    }
    return builtin(id, a);
  }

  Value host(int id, const std::vector<Value> &a, bool indirect) {
    t.out = Event();
    t.out.k = Event::CALL;
    t.out.sys = id;
    t.out.args = a;
    t.out.line = act().line;
    t.out.indirect = indirect;
    yield_();
    if (t.resp.raise) {
      fail(R_HOST, t.resp.host_code);
    }
    return t.resp.value;
  }

  // ---- expressions
  Value eval(Expr *e) {
    switch (e->k) {
    case E_INT: return Value::Int(e->i);
    case E_FLT: return Value::Flt(flt(e->s));
    case E_STR: return Value::Str(e->s);
    case E_NONE: return Value();
    case E_VAR: return get(e->sym);
    case E_BIN: {
      const Value l = eval(e->kid[0]);
      const Value r = eval(e->kid[1]);
      return arith(e->op, l, r);
    }
    case E_NOT: return Value::Int(!eval(e->kid[0]).truth());
    case E_NEG: {
      const Value v = eval(e->kid[0]);
      if (v.t != V_INT) {
        fail(R_TYPE);
      }
      return Value::Int(int32_t(0u - uint32_t(v.i)));
    }
    case E_ARRAY: {
      Arr *a = new Arr;
      for (Expr *k : e->kid) {
        a->v.push_back(eval(k));
      }
      return Value::Array(a);
    }
    case E_INDEX: {
      const Value i = eval(e->kid[0]);
      const Value a = eval(e->base);
      Value o;
      if (handler(HD_AGET, {a, i}, o)) {
        return o;
      }
      if (a.t == V_NONE) {
        fail(R_ARRAY);
      }
      if (i.t != V_INT) {
        fail(R_INDEX);
      }
      if (a.t == V_ARR) {
        if (i.i < 0 || i.i >= int(a.a->v.size())) {
          fail(R_BOUNDS);
        }
        return a.a->v[size_t(i.i)];
      }
      if (a.t == V_STR) {
        if (i.i < 0 || i.i >= int(a.s->size())) {
          fail(R_BOUNDS);
        }
        return Value::Int(uint8_t((*a.s)[size_t(i.i)]));
      }
      fail(R_TYPE);
    }
    case E_MEMBER: {
      const Value v = get(e->sym);
      if (v.t == V_ARR && e->s == "length") {
        return Value::Int(int(v.a->v.size()));
      }
      Value o;
      if (handler(HD_MGET, {v}, o, e->s)) {
        return o;
      }
      fail(R_MEMBER);
    }
    case E_CALL: return eval_call(e);
    }
    return Value();
  }

  Value eval_call(Expr *e) {
    std::vector<Value> args;
    for (Expr *k : e->kid) {
      args.push_back(eval(k));
    }
    bool indirect = true;
    Value callee;
    if (e->base->k == E_VAR && (e->base->sym->kind == S_FUNC || e->base->sym->kind == S_SYS)) {
      indirect = false;
      callee = get(e->base->sym);
    } else {
      callee = eval(e->base);
    }
    if (callee.t == V_SYS) {
      return external(callee.i, args, indirect);
    }
    if (callee.t == V_FUN) {
      if (args.size() != callee.fn->args.size()) {
        fail(R_ARGC);
      }
      const int line = act().line;
      const Value r = invoke(callee.fn, args);
      emit_line(line);
      return r;
    }
    fail(R_TYPE);
  }

  // ---- statements
  enum Flow { NEXT, RETURN };
  Value result;

  Flow exec(Stmt *s) {
    if (++t.executed > w.limit) {
      sim::give_up("program runs too long");
    }
    emit_line(s->line);
    switch (s->k) {
    case ST_VAR:
      if (s->e) {
        const Value v = eval(s->e);
        set(s->sym, v);
      }
      return NEXT;
    case ST_ASSIGN: {
      const Value v = eval(s->e);
      set(s->sym, v);
      return NEXT;
    }
    case ST_COMPOUND: {
      const Value l = get(s->sym);
      const Value r = eval(s->e);
      set(s->sym, arith(s->op, l, r));
      return NEXT;
    }
    case ST_SETA: {
      const Value v = eval(s->e2);
      const Value i = eval(s->e);
      const Value a = get(s->sym);
      Value o;
      if (handler(HD_ASET, {a, i, v}, o)) {
        return NEXT;
      }
      if (a.t != V_ARR) {
        fail(R_ARRAY);
      }
      if (i.t != V_INT) {
        fail(R_INDEX);
      }
      if (i.i < 0 || i.i >= int(a.a->v.size())) {
        fail(R_BOUNDS);
      }
      a.a->v[size_t(i.i)] = v;
      return NEXT;
    }
    case ST_SETM: {
      const Value v = eval(s->e);
      const Value o = get(s->sym);
      Value ignored;
      if (handler(HD_MSET, {o, v}, ignored, s->s)) {
        return NEXT;
      }
      fail(R_MEMBER);
    }
    case ST_CALL: eval(s->e); return NEXT;
    case ST_RETURN:
      result = s->e ? eval(s->e) : Value();
      return RETURN;
    case ST_IF:
      if (eval(s->e).truth()) {
        return block(s->a);
      } else {
        return block(s->b);
      }
    case ST_WHILE:
      while (eval(s->e).truth()) {
        if (block(s->a) == RETURN) {
          return RETURN;
        }
        if (++t.executed > w.limit) {
          sim::give_up("program runs too long");
        }
        emit_line(s->line);
      }
      return NEXT;
    case ST_FOR: {
      set(s->sym, eval(s->e));
      for (;;) {
        const Value i = get(s->sym);
        const Value end = eval(s->e2);
        if (!arith(O_LT, i, end).truth()) {
          break;
        }
        if (block(s->a) == RETURN) {
          return RETURN;
        }
        if (++t.executed > w.limit) {
          sim::give_up("program runs too long");
        }
        emit_line(s->line);
        set(s->sym, arith(O_ADD, get(s->sym), Value::Int(1)));
      }
      return NEXT;
    }
    }
    return NEXT;
  }

  Flow block(std::vector<Stmt *> &b) {
    Flow f = NEXT;
    for (Stmt *s : b) {
      if (s->k == ST_VAR) {
        act().in_scope[size_t(s->sym->index)] = 1;
      }
      f = exec(s);
      if (f == RETURN) {
        return f;
      }
    }
    for (Stmt *s : b) {
      if (s->k == ST_VAR) {
        act().in_scope[size_t(s->sym->index)] = 0;
        act().init[size_t(s->sym->index)] = 0;
      }
    }
    return f;
  }

  Value invoke(Func *f, const std::vector<Value> &args) {
    if (++t.depth > 1200) {
      if (!f->runaway) {
        // it may end before the real limit is met
        sim::give_up("recursion beyond the model");
      }
      fail(R_OVERFLOW);
    }
    Activation *a = new Activation;
    a->fn = f;
    a->slot.resize(size_t(f->nslots));
    a->init.resize(size_t(f->nslots));
    a->in_scope.resize(size_t(f->nslots));
    for (size_t i = 0; i < args.size(); ++i) {
      a->slot[i] = args[i];
      a->init[i] = 1;
      a->in_scope[i] = 1;
    }
    t.stack.push_back(a);
    if (!f->locals.empty()) {
      emit_line(f->line, true);
    }
    Value r = Value::Int(0);
    // without a return statement a function gives zero
    if (block(f->body) == RETURN) {
      r = result;
    } else {
      emit_line(f->end_line);
    }
    t.stack.pop_back();
    --t.depth;
    return r;
  }

  void init_globals() {
    Activation *a = new Activation;
    a->fn = nullptr;
    t.stack.push_back(a);
    for (Sym *s : w.p->globals) {
      if (s->init && s->init->k != E_NONE) {
        // initialisers are lines of their own
        act().line = s->line;
        set(s, eval(s->init));
      }
    }
    t.stack.pop_back();
  }

  void body() {
    Event last;
    try {
      if (t.entry) {
        last.value = invoke(t.entry, t.entry_args);
      } else {
        init_globals();
        last.value = Value::Int(0);
      }
      last.k = Event::FINISH;
    } catch (const Fail &f) {
      last.k = Event::ERROR;
      last.err = f.e;
      last.host_code = f.host_code;
      last.line = act().line;
    }
    t.out = last;
  }
};

} // namespace

static Thread *g_starting;

static void fiber_entry() {
  Thread *t = g_starting;
  {
    Interp in(*t);
    in.body();
  }
  t->done = true;
  for (;;) {
    swapcontext(&t->fiber->ctx, &t->fiber->back);
  }
}

Thread::Thread(World *world, Func *f, const std::vector<Value> &args)
    : w(world), fiber(new Fiber), entry(f), entry_args(args) {
  fiber->mem = mmap(nullptr, FIBER_STACK, PROT_READ | PROT_WRITE,
                    MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (fiber->mem == MAP_FAILED) {
    sim::give_up("fiber stack");
  }
}

Thread::~Thread() {
  munmap(fiber->mem, FIBER_STACK);
  delete fiber;
}

Event Thread::advance() {
  sim::Host h;
  if (done) {
    Event e;
    e.k = Event::FINISH;
    return e;
  }
  if (!fiber->started) {
    fiber->started = true;
    getcontext(&fiber->ctx);
    fiber->ctx.uc_stack.ss_sp = fiber->mem;
    fiber->ctx.uc_stack.ss_size = FIBER_STACK;
    fiber->ctx.uc_link = nullptr;
    makecontext(&fiber->ctx, fiber_entry, 0);
    g_starting = this;
  }
  swapcontext(&fiber->back, &fiber->ctx);
  return out;
}

} // namespace model
