#include "world.h"

#include <algorithm>
#include <climits>
#include <cmath>
#include <cstring>

namespace world {

using namespace sim;
using model::Event;
using model::Response;
using model::Value;
using nano::thread_error_t;
using nano::thread_t;
using nano::value_t;

namespace {
std::map<nano::vm_t *, Machine *> g_machines;
std::map<std::string, nano::nano_syscall_t> g_orig;

Machine *machine_of(thread_t &t) {
  auto it = g_machines.find(&t.vm());
  return it == g_machines.end() ? nullptr : it->second;
}

// without a machine: programs that run unobserved
void plain_call(thread_t &t, int sys, int nargs) {
  if (sys == lang::B_WAIT || sys == lang::B_NEW_THREAD) {
    Sut s;
    g_orig[lang::sys_info[sys].name](t, nargs);
    return;
  }
  for (int i = 0; i < nargs; ++i) {
    t.get_stack().pop();
  }
  t.get_stack().push_int(sys == lang::H_NUM ? 2 : 0);
}

template <int ID> void thunk(thread_t &t, int32_t nargs) {
  Host h;
  Machine *m = machine_of(t);
  if (!m) {
    plain_call(t, ID, nargs);
    return;
  }
  m->host_call(t, ID, nargs);
}

template <int ID> struct Bind {
  static void go(std::map<std::string, nano::nano_syscall_t> &m) {
    m[lang::sys_info[ID].name] = thunk<ID>;
    Bind<ID - 1>::go(m);
  }
};
template <> struct Bind<-1> {
  static void go(std::map<std::string, nano::nano_syscall_t> &) {}
};

bool cb_error(thread_t &t) {
  Host h;
  if (Machine *m = machine_of(t)) {
    m->errored(t);
  }
  return false;
}
bool cb_finish(thread_t &t) {
  Host h;
  if (Machine *m = machine_of(t)) {
    m->finished(t);
  }
  return false;
}
template <int H> bool cb_bin(thread_t &t, const value_t *l, const value_t *r) {
  Host h;
  Machine *m = machine_of(t);
  return m ? m->handler(t, H, {l, r}, "") : false;
}
bool cb_mget(thread_t &t, value_t *v, const std::string &member) {
  Host h;
  Machine *m = machine_of(t);
  return m ? m->handler(t, model::HD_MGET, {v}, member) : false;
}
bool cb_mset(thread_t &t, value_t *o, value_t *e, const std::string &member) {
  Host h;
  Machine *m = machine_of(t);
  return m ? m->handler(t, model::HD_MSET, {o, e}, member) : false;
}
bool cb_aget(thread_t &t, value_t *a, const value_t *i) {
  Host h;
  Machine *m = machine_of(t);
  return m ? m->handler(t, model::HD_AGET, {a, i}, "") : false;
}
bool cb_aset(thread_t &t, value_t *a, const value_t *i, value_t *v) {
  Host h;
  Machine *m = machine_of(t);
  return m ? m->handler(t, model::HD_ASET, {a, i, v}, "") : false;
}

const char *handler_name[] = {"add", "sub", "mul", "div", "equals", "array get",
                              "array set", "member get", "member set"};

} // namespace

// ---- building ------------------------------------------------------------------
Compiled::~Compiled() {
  Sut s;
  delete prog;
}

void register_syscalls(nano::nano_t &n) {
  for (int i = 0; i < lang::g_exts; ++i) {
    n.syscall_register(lang::ext_name(i), 0);
  }
  static const char *decoys[] = {"out_",  "OUT",  "ou",   "outer", "num1",  "nu",    "txt_",        "pick_",
                                 "yields", "vary", "waits", "len2", "chr_", "abs_",  "new_thread_", "new_array1",
                                 "echo_", "mk_",  "nest_", "boom_", "Min",  "sins"};
  if (lang::g_decoys & 1) {
    for (const char *d : decoys) {
      n.syscall_register(d, 3);
    }
  }
  nano::builtins_register(n);
  for (int i = 0; i < lang::H_COUNT; ++i) {
    n.syscall_register(lang::sys_info[i].name, lang::sys_info[i].nargs);
  }
  if (lang::g_decoys & 2) {
    for (const char *d : decoys) {
      n.syscall_register(d + std::string("x"), 0);
    }
  }
}

void resolve(nano::program_t &p) {
  Sut s;
  nano::builtins_resolve(p);
  std::map<std::string, nano::nano_syscall_t> m;
  {
    Host h;
    Bind<lang::SYS_COUNT - 1>::go(m);
    for (auto &e : p.syscalls()) {
      for (int id = 0; id < lang::SYS_COUNT; ++id) {
        if (e.name_ != lang::sys_info[id].name) {
          continue;
        }
        if (id < lang::H_COUNT) {
          Sut s2;
          if (!p.syscall_resolve(e.name_, m[lang::sys_info[id].name])) {
            Host h2;
            violation("resolve", "external function %s cannot be bound", lang::sys_info[id].name);
          }
        } else if (id == lang::B_WAIT || id == lang::B_NEW_THREAD) {
          g_orig[lang::sys_info[id].name] = e.call_;
          e.call_ = m[lang::sys_info[id].name];
        }
      }
    }
  }
}

Compiled *compile_text(const std::string &text, bool optimize) {
  return compile_files({text}, optimize);
}

Compiled *compile_files(const std::vector<std::string> &files, bool optimize) {
  Compiled *c = new Compiled;
  Sut s;
  c->prog = new nano::program_t;
  nano::source_manager_t sources;
  nano::error_t err;
  err.clear();
  for (auto &text : files) {
    if (!sources.load_from_string(text.c_str())) {
      Host h;
      c->error = "empty source";
      return c;
    }
  }
  {
    nano::nano_t n(*c->prog);
    n.optimize = optimize;
    register_syscalls(n);
    c->ok = n.build(sources, err);
  }
  Host h;
  if (!c->ok) {
    c->error = std::string(err.error.c_str());
    c->file = err.line.file;
    c->line = err.line.line;
  } else {
    resolve(*c->prog);
    for (auto &id : c->prog->globals()) {
      c->globals[std::string(id.name_.c_str())] = id.offset_;
    }
  }
  {
    Sut s2;
    std::string().swap(err.error);
  }
  return c;
}

Compiled *compile(const Program &p, bool optimize) { return compile_files(p.files, optimize); }

Compiled *must_compile(const Program &p, bool optimize) {
  Compiled *c = compile(p, optimize);
  if (!c->ok) {
    if (c->error == "constant divide by zero" && lang::const_zero_div(p)) {
      give_up("constant divide by zero");
    }
    violation("build", "a valid program does not build: line %d: %s", c->line, c->error.c_str());
  }
  return c;
}

void note_program(const Program &p) {
  if (tracing()) {
    std::string o;
    for (size_t f = 0; f < p.files.size(); ++f) {
      int n = lang::pack(int(f), 1);
      const std::string &text = p.files[f];
      size_t at = 0;
      while (at < text.size()) {
        size_t e = text.find('\n', at);
        if (e == std::string::npos) {
          e = text.size();
        }
        o += format("%4d | ", n++) + text.substr(at, e - at) + "\n";
        at = e + 1;
      }
    }
    big_note(o);
  }
  ev("program %016llx", (unsigned long long)hash_str(p.text));
}

// ---- plan ---------------------------------------------------------------------------
Decision &Plan::get(const std::string &path, int callno, bool handler) {
  auto key = std::make_pair(path, handler ? -1 - callno : callno);
  auto it = made.find(key);
  if (it != made.end()) {
    return it->second;
  }
  Decision d;
  if (handler) {
    d.decline = p_decline > 0 && chance(uint32_t(p_decline), 100);
    d.raise = p_hraise > 0 && chance(uint32_t(p_hraise), 100);
    d.handler_result = int(draw(3));
  } else {
    d.halt = p_halt > 0 && chance(uint32_t(p_halt), 100);
    if (p_junk > 0 && chance(uint32_t(p_junk), 100)) {
      static const int sizes[] = {1000, 30000, 100000, 180000};
      d.junk = sizes[draw(4)];
    }
    // the limit is one of the plan, so that both runs of a pair make the same calls
    d.nest = p_nest > 0 && chance(uint32_t(p_nest), 100) && nests < 40;
    if (d.nest) {
      ++nests;
      d.nest_func = int(draw(64));
    }
    d.raise = p_raise > 0 && chance(uint32_t(p_raise), 100);
    d.look = p_look > 0 && chance(uint32_t(p_look), 100);
  }
  if (d.raise) {
    static const thread_error_t codes[] = {
        thread_error_t::e_bad_argument,       thread_error_t::e_bad_syscall,
        thread_error_t::e_bad_type_operation, thread_error_t::e_bad_member_access,
        thread_error_t::e_stack_overflow,     thread_error_t::e_bad_array_bounds};
    d.raise_code = int(codes[draw(6)]);
  }
  return made[key] = d;
}

// ---- values --------------------------------------------------------------------------
static Func *func_by_name(Program *p, const std::string &name) {
  for (Func *f : p->funcs) {
    if (name == f->name) {
      return f;
    }
  }
  return nullptr;
}

std::string show(Machine &m, const value_t *v, int depth) {
  switch (v->type()) {
  case nano::val_type_none: return "none";
  case nano::val_type_int: return std::to_string(v->v);
  case nano::val_type_float: return format("%.9g", double(v->f)) + "f";
  case nano::val_type_string:
    if (v->strlen() < 0 || v->strlen() > 2000000) {
      return "string of impossible length";
    }
    return quote(std::string(v->string(), size_t(v->strlen())), 40);
  case nano::val_type_func: {
    const nano::function_t *f = m.vm->program().function_find(v->v);
    return f ? "function " + std::string(f->name().c_str()) : "function at " + std::to_string(v->v);
  }
  case nano::val_type_syscall: return "external #" + std::to_string(v->v);
  case nano::val_type_array: {
    if (depth == 0) {
      return "[..]";
    }
    if (v->array_size() < 0 || v->array_size() > 200000) {
      return "array of impossible size";
    }
    std::string o = "[";
    for (int i = 0; i < v->array_size() && i < 8; ++i) {
      o += (i ? "," : "") + show(m, v->array()[i], depth - 1);
    }
    return o + (v->array_size() > 8 ? ",..]" : "]");
  }
  default: return format("value of unknown type %d", int(v->type()));
  }
}

std::string Joint::same(const value_t *s, const Value &v) {
  auto differ = [&]() { return world::show(m, s) + " instead of " + model::show(v); };
  switch (v.t) {
  case model::V_NONE: return s->type() == nano::val_type_none ? "" : differ();
  case model::V_INT:
    return s->type() == nano::val_type_int && s->v == v.i ? "" : differ();
  case model::V_FLT:
    if (s->type() != nano::val_type_float) {
      return differ();
    }
    if (std::isnan(s->f) && std::isnan(v.f)) {
      return "";
    }
    return memcmp(&s->f, &v.f, 4) == 0 ? "" : differ();
  case model::V_STR:
    if (s->type() != nano::val_type_string || s->strlen() != int(v.s->size()) ||
        memcmp(s->string(), v.s->data(), v.s->size()) != 0) {
      return differ();
    }
    if (s->string()[s->strlen()] != 0) {
      return "string without terminator: " + world::show(m, s);
    }
    return "";
  case model::V_FUN: {
    if (s->type() != nano::val_type_func) {
      return differ();
    }
    const nano::function_t *f = m.vm->program().function_find(s->v);
    return f && f->name() == v.fn->name.c_str() ? "" : differ();
  }
  case model::V_SYS: {
    if (s->type() != nano::val_type_syscall) {
      return differ();
    }
    auto &calls = m.c->prog->syscalls();
    return s->v >= 0 && s->v < int(calls.size()) &&
                   calls[size_t(s->v)].name_ == lang::sys_info[v.i].name
               ? ""
               : differ();
  }
  case model::V_ARR: {
    if (s->type() != nano::val_type_array || s->array_size() != int(v.a->v.size())) {
      return differ();
    }
    auto a = s2m.find(s);
    auto b = m2s.find(v.a);
    if (a != s2m.end() || b != m2s.end()) {
      if (a == s2m.end() || b == m2s.end() || a->second != v.a || b->second != s) {
        return "identity: two references that should " +
               std::string(b != m2s.end() ? "be one array are two: " : "be two arrays are one: ") +
               world::show(m, s);
      }
      return "";
    }
    s2m[s] = v.a;
    m2s[v.a] = s;
    for (int i = 0; i < s->array_size(); ++i) {
      std::string e = same(s->array()[i], v.a->v[size_t(i)]);
      if (!e.empty()) {
        return format("[%d]: ", i) + e;
      }
    }
    return "";
  }
  }
  return "?";
}

int error_code(const Event &e) {
  switch (e.err) {
  case model::R_OK: return 0;
  case model::R_TYPE: return int(thread_error_t::e_bad_type_operation);
  case model::R_DIV: return int(thread_error_t::e_bad_divide_by_zero);
  case model::R_BOUNDS: return int(thread_error_t::e_bad_array_bounds);
  case model::R_INDEX: return int(thread_error_t::e_bad_array_index);
  case model::R_ARRAY: return int(thread_error_t::e_bad_array_object);
  case model::R_ARGC: return int(thread_error_t::e_bad_num_args);
  case model::R_ARG: return int(thread_error_t::e_bad_argument);
  case model::R_OVERFLOW: return int(thread_error_t::e_stack_overflow);
  case model::R_MEMBER: return int(thread_error_t::e_bad_member_access);
  case model::R_HOST: return e.host_code;
  case model::R_SYS_ARGC: return -1;
  case model::R_MEMORY: return int(thread_error_t::e_out_of_memory);
  case model::R_GLOBAL: return -1;
  }
  return -1;
}

const char *error_name(int code) {
  if (code == -1) {
    return "any error";
  }
  return nano::get_thread_error(thread_error_t(code));
}

static std::string show_event(const Event &e) {
  switch (e.k) {
  case Event::CALL: {
    std::string o = std::string(lang::sys_info[e.sys].name) + "(";
    for (size_t i = 0; i < e.args.size(); ++i) {
      o += (i ? ", " : "") + model::show(e.args[i]);
    }
    return o + format(") at line %d", e.line);
  }
  case Event::FINISH: return "end with " + model::show(e.value);
  case Event::ERROR: return format("error '%s' at line %d", error_name(error_code(e)), e.line);
  case Event::LINE: return format("line %d", e.line);
  case Event::HANDLER: {
    std::string o = std::string("handler ") + handler_name[e.handler] + "(";
    for (size_t i = 0; i < e.args.size(); ++i) {
      o += (i ? ", " : "") + model::show(e.args[i]);
    }
    return o + ") " + e.member + format(" at line %d", e.line);
  }
  }
  return "?";
}

// ---- machine -------------------------------------------------------------------------
Machine::Machine(Program *prog, Compiled *comp, Plan *pl, const char *nm)
    : p(prog), c(comp), plan(pl), name(nm), shared(prog->k.shared) {
  {
    Sut s;
    vm = new nano::vm_t(*c->prog);
  }
  vm->handlers.on_thread_error = cb_error;
  vm->handlers.on_thread_finish = cb_finish;
  g_machines[vm] = this;
  mw = new model::World(p);
  mw->bare = true;
}

Machine::~Machine() {
  g_machines.erase(vm);
  Sut s;
  delete vm;
}

void Machine::enable_handlers(const bool on[model::HD_COUNT]) {
  using namespace model;
  for (int i = 0; i < HD_COUNT; ++i) {
    mw->handler_on[i] = on[i];
  }
  vm->handlers.on_add = on[HD_ADD] ? cb_bin<HD_ADD> : nullptr;
  vm->handlers.on_sub = on[HD_SUB] ? cb_bin<HD_SUB> : nullptr;
  vm->handlers.on_mul = on[HD_MUL] ? cb_bin<HD_MUL> : nullptr;
  vm->handlers.on_div = on[HD_DIV] ? cb_bin<HD_DIV> : nullptr;
  vm->handlers.on_equals = on[HD_EQ] ? cb_bin<HD_EQ> : nullptr;
  vm->handlers.on_array_get = on[HD_AGET] ? cb_aget : nullptr;
  vm->handlers.on_array_set = on[HD_ASET] ? cb_aset : nullptr;
  vm->handlers.on_member_get = on[HD_MGET] ? cb_mget : nullptr;
  vm->handlers.on_member_set = on[HD_MSET] ? cb_mset : nullptr;
}

// the next event of the model that the host can see
Event Machine::next(Th *th) {
  Event e = th->mt->advance();
  while (e.k == Event::LINE) {
    e = th->mt->advance();
  }
  return e;
}

Th *Machine::owner(thread_t &t) {
  if (t.user_data) {
    Th *th = (Th *)t.user_data;
    if (th->sut != &t) {
      violation("thread-identity", "user data of a thread changed hands");
    }
    return th;
  }
  if (!pending.empty() && !pending.back()->sut) {
    Th *th = pending.back();
    th->sut = &t;
    t.user_data = th;
    return th;
  }
  violation("unknown-thread", "a thread that nobody started is running");
}

void Machine::host_call(thread_t &t, int sys, int nargs) {
  Th *th = owner(t);
  if (th->done) {
    violation("ran-after-end", "%s %s: external call %s after the thread ended", name.c_str(),
              th->path.c_str(), lang::sys_info[sys].name);
  }
  if (th->halted && (slice == SL_RESUME || slice == SL_ROUND) && !th->host_call) {
    violation("ran-after-halt", "%s %s: external call %s in the slice in which the thread halted",
              name.c_str(), th->path.c_str(), lang::sys_info[sys].name);
  }
  if (++events > 20000 || ths.size() > 500) {
    give_up("too many external events");
  }
  const Event e = next(th);
  nano::value_stack_t &st = t.get_stack();
  const int head = st.head();
  auto describe = [&]() {
    std::string o = std::string(lang::sys_info[sys].name) + "(";
    for (int i = 0; i < nargs && head - nargs + i >= 0; ++i) {
      o += (i ? ", " : "") + show(*this, st.get(head - nargs + i));
    }
    return o + ")";
  };
  if (nargs < 0 || nargs > head) {
    violation("stack", "%s %s: call of %s with %d arguments on a stack of %d", name.c_str(),
              th->path.c_str(), lang::sys_info[sys].name, nargs, head);
  }
  if (e.k != Event::CALL || e.sys != sys || int(e.args.size()) != nargs) {
    violation("wrong-call", "%s %s made external call %s, expected: %s", name.c_str(),
              th->path.c_str(), describe().c_str(), show_event(e).c_str());
  }
  Joint j(*this);
  for (int i = 0; i < nargs; ++i) {
    std::string d = j.same(st.get(head - nargs + i), e.args[size_t(i)]);
    if (!d.empty()) {
      violation("wrong-argument", "%s %s line %d: argument %d of %s: %s", name.c_str(),
                th->path.c_str(), e.line, i, lang::sys_info[sys].name, d.c_str());
    }
  }
  const int callno = th->calls++;
  th->event_cycle = t.get_cycle_count();
  uint64_t dg = mix(uint64_t(sys), uint64_t(nargs));
  for (auto &a : e.args) {
    dg = mix(dg, model::digest(a));
  }
  th->log.push_back(dg);
  ev("%s %s#%d %s", name.c_str(), th->path.c_str(), callno, show_event(e).c_str());
  if (tracing()) {
    th->log_text.push_back(show_event(e));
  }
  Decision &d = plan->get(th->path, callno, false);
  const bool sched = apply_schedule;
  if (d.look && init_done) {
    const int group = th->fn ? th->fn->group : -1;
    for (Sym *s : p->globals) {
      if (!shared && !(s->group < 0 || s->group == group)) {
        continue;
      }
      std::string x = j.same(global(s), mw->globals[size_t(s->index)]);
      if (!x.empty()) {
        violation("wrong-global", "%s %s line %d: global %s is %s", name.c_str(),
                  th->path.c_str(), e.line, s->name.c_str(), x.c_str());
      }
    }
    probe("joint_snapshot");
  }
  if (on_event) {
    on_event(*th, e);
  }
  // the host calls back into the machine
  if (d.nest && sched && pending.size() < 3 && !mw->bare) {
    nested++;
    std::vector<Func *> ok;
    for (Func *f : p->funcs) {
      if (!f->entry && !f->runaway && (shared || f->group < 0)) {
        ok.push_back(f);
      }
    }
    if (!ok.empty()) {
      Func *f = ok[size_t(d.nest_func) % ok.size()];
      std::vector<Value> ma;
      std::vector<const value_t *> sa;
      std::vector<value_t> store;
      store.reserve(f->args.size());
      for (size_t i = 0; i < f->args.size(); ++i) {
        store.emplace_back(int(i) + 1);
        ma.push_back(Value::Int(int(i) + 1));
      }
      for (auto &v : store) {
        sa.push_back(&v);
      }
      probe("nested_call");
      call(f, ma, sa, th->path + "/x" + std::to_string(callno));
      // the arguments are still on the stack: collections must have kept them
      Joint j2(*this);
      for (int i = 0; i < nargs; ++i) {
        std::string x = j2.same(st.get(head - nargs + i), e.args[size_t(i)]);
        if (!x.empty() && !shared) {
          violation("wrong-argument", "%s %s line %d: argument %d of %s after a nested call: %s",
                    name.c_str(), th->path.c_str(), e.line, i, lang::sys_info[sys].name,
                    x.c_str());
        }
      }
    }
  }
  if (d.junk && sched) {
    litter(t, d.junk);
  }
  Response r;
  const uint64_t hv = mix(mix(plan->oracle, hash_str(th->path)), uint64_t(callno));
  auto drop = [&](int n) {
    Sut s;
    for (int i = 0; i < n; ++i) {
      st.pop();
    }
  };
  auto raise = [&](int code) {
    r.raise = true;
    r.host_code = code;
    Sut s;
    t.raise_error(thread_error_t(code));
  };
  if (d.raise && sys < lang::H_COUNT) {
    fault("host_error");
    drop(nargs);
    raise(d.raise_code);
    th->mt->respond(r);
    return;
  }
  const bool want_halt = (d.halt && sched) || sys == lang::H_YIELD;
  switch (sys) {
  case lang::H_OUT:
  case lang::H_YIELD:
    drop(nargs);
    r.value = Value::Int(int(hv % 4));
    {
      Sut s;
      st.push_int(r.value.i);
    }
    break;
  case lang::H_NUM:
    drop(nargs);
    r.value = Value::Int(int(hv % 6));
    {
      Sut s;
      if (hv / 8 % 4 == 0) {
        st.push(t.gc().new_int(r.value.i)); // the same by hand
      } else {
        st.push_int(r.value.i);
      }
    }
    break;
  case lang::H_VA:
    drop(nargs);
    r.value = Value::Int(nargs);
    {
      Sut s;
      st.push_int(nargs);
    }
    break;
  case lang::H_ECHO:
  case lang::H_PICK: {
    value_t *v = nargs > 0 ? st.get(head - nargs) : nullptr;
    drop(nargs);
    if (nargs > 0) {
      r.value = e.args[0];
    }
    Sut s;
    st.push(v);
    break;
  }
  case lang::H_MK: {
    value_t *a = nullptr;
    {
      Sut s;
      a = t.gc().new_array(2);
    }
    if (!a) {
      violation("heap", "%s: no room for a small array", name.c_str());
    }
    model::Arr *ma = new model::Arr;
    ma->v.resize(2);
    for (int i = 0; i < 2 && i < nargs; ++i) {
      a->array()[i] = st.get(head - nargs + i);
      ma->v[size_t(i)] = e.args[size_t(i)];
    }
    r.value = Value::Array(ma);
    drop(nargs);
    Sut s;
    st.push(a);
    break;
  }
  case lang::H_TXT: {
    std::string s = "s" + std::to_string(hv % 100);
    if (hv % 16 == 3) {
      const size_t n = size_t(hv / 16 % (hv / 64 % 8 == 0 ? 3000 : 700));
      for (size_t i = 0; i < n; ++i) {
        s += char('a' + (i / 26 + i) % 26);
      }
    } else if (hv % 4 == 1) {
      // a host can hold bytes that no literal has
      s = std::string("z\xff\n\0", 4) + char('0' + hv / 4 % 2);
    }
    r.value = Value::Str(s);
    drop(nargs);
    Sut sc;
    if (mix(hv, 7) & 1) {
      st.push(t.gc().new_string(s)); // the same by hand
    } else {
      st.push_string(s);
    }
    break;
  }
  case lang::H_BOOM: {
    drop(nargs);
    const bool fire = nargs > 0 && e.args[0].t == model::V_INT && (e.args[0].i & 3) == 0;
    if (fire) {
      fault("host_error");
      raise(int(thread_error_t::e_bad_argument));
    } else {
      r.value = Value::Int(1);
      Sut s;
      st.push_int(1);
    }
    break;
  }
  case lang::H_NEST: {
    value_t *out = nullptr;
    if (nargs == 2 && e.args[0].t == model::V_FUN && pending.size() < 4 && init_done) {
      const value_t *arg = st.get(head - 1);
      Value mv;
      if (call(e.args[0].fn, {e.args[1]}, {arg}, th->path + "/n" + std::to_string(callno), &mv,
               &out)) {
        r.value = mv;
      } else {
        out = nullptr;
      }
      probe("nested_call");
    }
    drop(nargs);
    Sut s;
    st.push(out);
    break;
  }
  case lang::H_FIX2:
    // a function that trusts its registered argument count
    drop(2);
    r.value = Value::Int(2);
    {
      Sut s;
      st.push_int(2);
    }
    break;
  case lang::B_WAIT: {
    bool good = nargs == 1 && e.args[0].number();
    int w = 0;
    if (good) {
      w = e.args[0].t == model::V_INT ? e.args[0].i : int(e.args[0].f);
      th->wait = w > 0 ? w : 0;
      r.value = Value::Int(0);
      th->halted = w > 0;
      probe(w > 0 ? "wait" : "wait_zero_or_less");
    } else if (nargs == 1) {
      r.raise = true;
      r.host_code = int(thread_error_t::e_bad_argument);
    }
    {
      Sut s;
      g_orig["wait"](t, nargs);
    }
    break;
  }
  case lang::B_NEW_THREAD: {
    Func *f = nargs > 0 && e.args[0].t == model::V_FUN ? e.args[0].fn : nullptr;
    const bool good = f && int(f->args.size()) == nargs - 1;
    const size_t before = vm->thread().size();
    {
      Sut s;
      g_orig["new_thread"](t, nargs);
    }
    if (!good) {
      r.raise = true;
      r.host_code = int(thread_error_t::e_bad_argument);
      if (vm->thread().size() != before) {
        violation("new-thread", "%s %s: a refused new_thread created a thread", name.c_str(),
                  th->path.c_str());
      }
      break;
    }
    thread_t *fresh = nullptr;
    for (thread_t *x : vm->thread()) {
      if (!x->user_data && !(pending.size() && pending.back()->sut == nullptr && x == &t)) {
        fresh = x;
      }
    }
    if (!fresh || vm->thread().size() != before + 1) {
      violation("new-thread", "%s %s: new_thread(%s) created no thread", name.c_str(),
                th->path.c_str(), f->name.c_str());
    }
    Th *n = new Th;
    n->m = this;
    n->path = th->path + "." + std::to_string(th->children++);
    n->fn = f;
    n->sut = fresh;
    fresh->user_data = n;
    n->mt = new model::Thread(mw, f, std::vector<Value>(e.args.begin() + 1, e.args.end()));
    n->born_round = rounds;
    ths.push_back(n);
    r.value = Value::Int(0);
    probe("script_thread");
    break;
  }
  }
  if (want_halt && !r.raise) {
    if (!th->host_call) {
      th->halted = true;
    }
    t.halt();
    fault("halt");
  }
  th->mt->respond(r);
}

bool Machine::handler(thread_t &t, int h, std::vector<const value_t *> ops,
                      const std::string &member) {
  Th *th = owner(t);
  const Event e = next(th);
  std::string got = std::string(handler_name[h]) + "(";
  for (size_t i = 0; i < ops.size(); ++i) {
    got += (i ? ", " : "") + show(*this, ops[i]);
  }
  got += ") " + std::string(member.c_str());
  if (e.k != Event::HANDLER || e.handler != h || e.args.size() != ops.size()) {
    violation("wrong-handler", "%s %s: handler %s was asked, expected: %s", name.c_str(),
              th->path.c_str(), got.c_str(), show_event(e).c_str());
  }
  if (member != e.member.c_str()) {
    violation("wrong-handler", "%s %s line %d: member %s instead of %s", name.c_str(),
              th->path.c_str(), e.line, member.c_str(), e.member.c_str());
  }
  Joint j(*this);
  for (size_t i = 0; i < ops.size(); ++i) {
    std::string d = j.same(ops[i], e.args[i]);
    if (!d.empty()) {
      violation("wrong-handler", "%s %s line %d: operand %zu of handler %s: %s", name.c_str(),
                th->path.c_str(), e.line, i, handler_name[h], d.c_str());
    }
  }
  const int no = th->calls++;
  uint64_t dg = mix(uint64_t(h) + 1000, hash_str(e.member));
  for (auto &a : e.args) {
    dg = mix(dg, model::digest(a));
  }
  th->log.push_back(dg);
  ev("%s %s#%d %s", name.c_str(), th->path.c_str(), no, show_event(e).c_str());
  probe("handler_asked");
  Decision &d = plan->get(th->path, no, true);
  Response r;
  if (d.decline && !d.raise) {
    r.declined = true;
    probe("handler_declined");
    th->mt->respond(r);
    return false;
  }
  if (d.raise) {
    r.raise = true;
    r.host_code = d.raise_code;
    {
      Sut s;
      t.raise_error(thread_error_t(d.raise_code));
    }
    fault("host_error");
    th->mt->respond(r);
    return true;
  }
  if (h != model::HD_ASET && h != model::HD_MSET) {
    Sut s;
    switch (d.handler_result) {
    case 0:
      r.value = Value::Int(no % 5);
      t.get_stack().push_int(no % 5);
      break;
    case 1: {
      Host hh;
      r.value = e.args[0];
      t.get_stack().push(const_cast<value_t *>(ops[0]));
      break;
    }
    default: {
      Host hh;
      r.value = Value::Str("hd");
      Sut s3;
      t.get_stack().push_string("hd");
      break;
    }
    }
  }
  th->mt->respond(r);
  return true;
}

void Machine::errored(thread_t &t) {
  Th *th = owner(t);
  if (++th->told_error > 1 || th->done) {
    violation("told-twice", "%s %s: the host was told of an error more than once", name.c_str(),
              th->path.c_str());
  }
  const Event e = next(th);
  const nano::line_t l = t.get_source_line();
  const int code = int(t.get_error());
  if (e.k != Event::ERROR) {
    violation("wrong-error", "%s %s: error '%s' at line %d, expected: %s", name.c_str(),
              th->path.c_str(), error_name(code), l.line, show_event(e).c_str());
  }
  const int want = error_code(e);
  if (code == 0 || (want != -1 && code != want)) {
    violation("wrong-error", "%s %s: error '%s' at line %d instead of '%s' at line %d",
              name.c_str(), th->path.c_str(), error_name(code), l.line, error_name(want), e.line);
  }
  if (check_lines && lang::pack(l.file, l.line) != e.line) {
    violation("wrong-error-line", "%s %s: error '%s' reported at line %d instead of %d",
              name.c_str(), th->path.c_str(), error_name(code), lang::pack(l.file, l.line), e.line);
  }
  th->failed = true;
  th->expect_err_code = code;
  th->err_line = lang::pack(l.file, l.line);
  th->result = mix(uint64_t(want) + 7, uint64_t(e.line));
  if (!th->host_call) {
    round_errors++;
  }
  ev("%s %s %s", name.c_str(), th->path.c_str(), show_event(e).c_str());
  probe(format("error:%s", want == -1 ? "bad external arguments" : error_name(want)).c_str());
}

void Machine::finished(thread_t &t) {
  Th *th = owner(t);
  if (++th->told_finish > 1) {
    violation("told-twice", "%s %s: the host was told of the end more than once", name.c_str(),
              th->path.c_str());
  }
  if (t.has_error()) {
    if (th->told_error != 1) {
      violation("error-not-told", "%s %s: failed with '%s' but the host was not told", name.c_str(),
                th->path.c_str(), error_name(int(t.get_error())));
    }
  } else {
    const Event e = next(th);
    if (e.k != Event::FINISH) {
      violation("wrong-end", "%s %s: ended with %s, expected: %s", name.c_str(), th->path.c_str(),
                show(*this, t.get_return_value()).c_str(), show_event(e).c_str());
    }
    if (th->fn) {
      Joint j(*this);
      std::string d = j.same(t.get_return_value(), e.value);
      if (!d.empty()) {
        violation("wrong-result", "%s %s: result of %s: %s", name.c_str(), th->path.c_str(),
                  th->fn->name.c_str(), d.c_str());
      }
      th->result = model::digest(e.value);
    }
    ev("%s %s %s", name.c_str(), th->path.c_str(), show_event(e).c_str());
  }
  th->done = true;
  th->cycles = t.get_cycle_count();
  th->done_round = rounds;
  th->keep_until = in_round ? rounds + 1 : rounds;
  sim::steps(th->cycles);
}

// ---- operations ------------------------------------------------------------------------
bool Machine::init() {
  Th *th = new Th;
  th->m = this;
  th->path = "@init";
  th->host_call = true;
  th->mt = new model::Thread(mw, nullptr, {});
  mw->bare = false;
  for (auto &g : mw->globals) {
    g = Value();
  }
  pending.push_back(th);
  ths.push_back(th);
  const SliceKind saved = slice;
  slice = SL_CALL;
  bool ok;
  {
    Sut s;
    ok = vm->call_init();
  }
  slice = saved;
  pending.pop_back();
  if (!th->done) {
    violation("init", "%s: call_init returned %d before the initialisation was complete",
              name.c_str(), int(ok));
  }
  if (ok != !th->failed) {
    violation("init", "%s: call_init reported %s", name.c_str(), ok ? "success" : "failure");
  }
  init_done = ok;
  if (ok) {
    compare_globals("after call_init");
  }
  return ok;
}

Th *Machine::start(Func *f, const std::vector<Value> &args,
                   const std::vector<const value_t *> &sargs) {
  const nano::function_t *fn = c->prog->function_find(f->name);
  if (!fn) {
    violation("function", "%s: function %s is not in the program", name.c_str(), f->name.c_str());
  }
  std::vector<const value_t *> a(sargs);
  thread_t *t;
  {
    Sut s;
    t = vm->new_thread(*fn, int(a.size()), a.empty() ? nullptr : a.data());
  }
  if (args.size() != f->args.size()) {
    if (t) {
      violation("new-thread", "%s: new_thread accepted %zu arguments for %s", name.c_str(),
                args.size(), f->name.c_str());
    }
    return nullptr;
  }
  if (!t) {
    violation("new-thread", "%s: new_thread(%s) failed", name.c_str(), f->name.c_str());
  }
  Th *n = new Th;
  n->m = this;
  int same = 0;
  for (Th *x : ths) {
    same += x->fn == f && x->path.find_first_of("./") == std::string::npos && !x->host_call;
  }
  n->path = f->name + (same ? "'" + std::to_string(same) : "");
  n->fn = f;
  n->sut = t;
  if (t->user_data) {
    violation("new-thread", "%s: a new thread already has user data", name.c_str());
  }
  t->user_data = n;
  n->mt = new model::Thread(mw, f, args);
  n->born_round = rounds;
  ths.push_back(n);
  ev("%s start %s", name.c_str(), n->path.c_str());
  return n;
}

static void to_values(const std::vector<int> &in, std::vector<Value> &m, std::vector<value_t> &store,
                      std::vector<const value_t *> &s) {
  store.reserve(in.size());
  for (int v : in) {
    store.emplace_back(v);
    m.push_back(Value::Int(v));
  }
  for (auto &v : store) {
    s.push_back(&v);
  }
}

Th *Machine::start(Func *f, const std::vector<int> &args) {
  std::vector<Value> m;
  std::vector<value_t> st;
  std::vector<const value_t *> s;
  to_values(args, m, st, s);
  return start(f, m, s);
}

Th *Machine::again(Th *old, Func *f, const std::vector<int> &args) {
  const nano::function_t *fn = c->prog->function_find(f->name);
  if (!fn) {
    violation("function", "%s: function %s is not in the program", name.c_str(), f->name.c_str());
  }
  std::vector<Value> m;
  std::vector<value_t> st;
  std::vector<const value_t *> a;
  to_values(args, m, st, a);
  thread_t *t = old->sut;
  bool ok;
  {
    Sut s;
    ok = t->prepare(*fn, int(a.size()), a.empty() ? nullptr : a.data());
  }
  if (!ok || t->finished() || t->has_error()) {
    violation("prepare", "%s: preparing %s for %s failed", name.c_str(), old->path.c_str(), f->name.c_str());
  }
  if (t->frames().size() != 1 || t->get_cycle_count() != 0) {
    violation("prepare", "%s: %s prepared for %s has %zu frames and %u cycles", name.c_str(),
              old->path.c_str(), f->name.c_str(), t->frames().size(), t->get_cycle_count());
  }
  if (t->get_stack().head() != int(args.size())) {
    violation("prepare", "%s: %s prepared for %s has %d values on its stack", name.c_str(),
              old->path.c_str(), f->name.c_str(), int(t->get_stack().head()));
  }
  Th *n = new Th;
  n->m = this;
  n->path = format("%s again%zu", f->name.c_str(), replaced.size());
  n->fn = f;
  n->sut = t;
  t->user_data = n;
  n->mt = new model::Thread(mw, f, m);
  n->born_round = rounds;
  ths.erase(std::find(ths.begin(), ths.end(), old));
  replaced.push_back(old);
  ths.push_back(n);
  probe("op_prepare_again");
  ev("%s %s is now %s", name.c_str(), old->path.c_str(), n->path.c_str());
  return n;
}

bool Machine::call(Func *f, const std::vector<int> &args) {
  std::vector<Value> m;
  std::vector<value_t> st;
  std::vector<const value_t *> s;
  to_values(args, m, st, s);
  return call(f, m, s, "call" + std::to_string(calls));
}

bool Machine::call(Func *f, const std::vector<Value> &args,
                   const std::vector<const value_t *> &sargs, const std::string &path, Value *out,
                   value_t **sout) {
  const nano::function_t *fn = c->prog->function_find(f->name);
  if (!fn) {
    violation("function", "%s: function %s is not in the program", name.c_str(), f->name.c_str());
  }
  calls++;
  Th *th = new Th;
  th->m = this;
  th->path = path;
  th->fn = f;
  th->host_call = true;
  th->mt = new model::Thread(mw, f, args);
  const bool refuse = args.size() != f->args.size();
  std::map<Th *, uint32_t> before;
  for (Th *x : ths) {
    if (!x->done && x->sut) {
      before[x] = x->sut->get_cycle_count();
    }
  }
  pending.push_back(th);
  ths.push_back(th);
  const SliceKind saved = slice;
  slice = SL_CALL;
  std::vector<const value_t *> a(sargs);
  value_t *ret = (value_t *)1;
  thread_error_t err = thread_error_t::e_bad_opcode;
  bool ok;
  ev("%s call %s", name.c_str(), th->path.c_str());
  {
    Sut s;
    ok = vm->call_once(*fn, int(a.size()), a.empty() ? nullptr : a.data(), ret, err);
  }
  slice = saved;
  pending.pop_back();
  for (auto &b : before) {
    if (b.first->done || b.first->sut->get_cycle_count() != b.second) {
      violation("call-advanced", "%s: thread %s was advanced by the call of %s", name.c_str(),
                b.first->path.c_str(), f->name.c_str());
    }
  }
  if (refuse) {
    ths.erase(std::find(ths.begin(), ths.end(), th));
    if (ok || err != thread_error_t::e_bad_num_args || th->calls || th->told_finish) {
      violation("call", "%s: call_once(%s) with %zu arguments gave %d '%s'", name.c_str(),
                f->name.c_str(), args.size(), int(ok), error_name(int(err)));
    }
    if (ret) {
      violation("call", "%s: call_once(%s) was refused but gave a value", name.c_str(),
                f->name.c_str());
    }
    probe("call_refused");
    return false;
  }
  if (!th->done) {
    violation("call", "%s: call_once(%s) returned %d '%s' before the function ended",
              name.c_str(), f->name.c_str(), int(ok), error_name(int(err)));
  }
  if (ok != !th->failed) {
    violation("call", "%s: call_once(%s) returned %d but the function %s", name.c_str(),
              f->name.c_str(), int(ok), th->failed ? "failed" : "succeeded");
  }
  if (th->failed) {
    if (int(err) != th->expect_err_code) {
      violation("call", "%s: call_once(%s) returned error '%s' instead of '%s'", name.c_str(),
                f->name.c_str(), error_name(int(err)), error_name(th->expect_err_code));
    }
    if (ret) {
      violation("call", "%s: call_once(%s) failed but gave a value", name.c_str(),
                f->name.c_str());
    }
    return false;
  }
  if (err != thread_error_t::e_success) {
    violation("call", "%s: call_once(%s) succeeded with error '%s'", name.c_str(), f->name.c_str(),
              error_name(int(err)));
  }
  const Value v = th->mt->out.value;
  Joint j(*this);
  std::string d = j.same(ret, v);
  if (!d.empty()) {
    violation("call", "%s: call_once(%s) gave %s", name.c_str(), f->name.c_str(), d.c_str());
  }
  if (out) {
    *out = v;
  }
  if (sout) {
    *sout = ret;
  }
  return true;
}

bool Machine::resume(Th *th, int n, bool bp) {
  const uint32_t before = th->sut->get_cycle_count();
  th->halted = false;
  slice = SL_RESUME;
  bool ok;
  {
    Sut s;
    ok = th->sut->resume(n);
  }
  slice = SL_NONE;
  const uint32_t after = th->done ? th->cycles : th->sut->get_cycle_count();
  const uint32_t delta = after - before;
  if (ok != !th->failed) {
    violation("resume", "%s %s: resume returned %d", name.c_str(), th->path.c_str(), int(ok));
  }
  if (delta > uint32_t(n)) {
    violation("budget", "%s %s: ran %u instructions on a budget of %d", name.c_str(),
              th->path.c_str(), delta, n);
  }
  if (!th->done && !th->halted && !bp && delta != uint32_t(n)) {
    violation("budget", "%s %s: stopped after %u of %d instructions without reason", name.c_str(),
              th->path.c_str(), delta, n);
  }
  return ok;
}

bool Machine::step_inst(Th *th) {
  const uint32_t before = th->sut->get_cycle_count();
  th->halted = false;
  slice = SL_INST;
  bool ok;
  {
    Sut s;
    ok = th->sut->step_inst();
  }
  slice = SL_NONE;
  fault("forced_collection");
  const uint32_t after = th->done ? th->cycles : th->sut->get_cycle_count();
  if (ok != !th->failed) {
    violation("step", "%s %s: step_inst returned %d", name.c_str(), th->path.c_str(), int(ok));
  }
  if (after - before != 1) {
    violation("step", "%s %s: a single step executed %u instructions", name.c_str(),
              th->path.c_str(), after - before);
  }
  return ok;
}

bool Machine::step_line(Th *th) {
  th->halted = false;
  slice = SL_LINE;
  bool ok;
  {
    Sut s;
    ok = th->sut->step_line();
  }
  slice = SL_NONE;
  if (ok != !th->failed) {
    violation("step", "%s %s: step_line returned %d", name.c_str(), th->path.c_str(), int(ok));
  }
  return ok;
}

bool Machine::round(uint32_t n, bool bp) {
  struct Snap {
    Th *th;
    int wait;
    uint32_t cycles;
  };
  std::vector<Snap> snap;
  std::set<Th *> ended;
  for (Th *x : ths) {
    if (!x->done && x->sut) {
      x->halted = false;
      snap.push_back({x, x->wait, x->sut->get_cycle_count()});
    }
  }
  for (thread_t *t : vm->thread()) {
    Th *x = (Th *)t->user_data;
    if (x && x->done) {
      ended.insert(x);
    }
  }
  slice = SL_ROUND;
  in_round = true;
  round_errors = 0;
  bool ok;
  {
    Sut s;
    ok = vm->resume(n);
  }
  slice = SL_NONE;
  in_round = false;
  rounds++;
  ev("%s round %u", name.c_str(), n);
  const bool complete = round_errors == 0;
  if (!ok && complete) {
    violation("round", "%s: a round failed although no thread did", name.c_str());
  }
  for (auto &s : snap) {
    Th *x = s.th;
    const uint32_t after = x->done ? x->cycles : x->sut->get_cycle_count();
    const uint32_t delta = after - s.cycles;
    if (s.wait > 0) {
      if (delta) {
        violation("wait", "%s %s: ran although %d more rounds of waiting were due", name.c_str(),
                  x->path.c_str(), s.wait);
      }
      if (complete) {
        x->wait = s.wait - 1;
      } else {
        const int w = x->sut->waits;
        if (w != s.wait && w != s.wait - 1) {
          violation("wait", "%s %s: waits for %d rounds after %d", name.c_str(), x->path.c_str(),
                    w, s.wait);
        }
        x->wait = w;
      }
      probe("round_waited");
      continue;
    }
    if (delta > n) {
      violation("budget", "%s %s: ran %u instructions in a round of %u", name.c_str(),
                x->path.c_str(), delta, n);
    }
    if (complete && n > 0 && delta == 0) {
      violation("starved", "%s %s: did not run in a completed round", name.c_str(),
                x->path.c_str());
    }
    if (complete && !x->done && !x->halted && !bp && delta != n) {
      violation("budget", "%s %s: stopped after %u of %u instructions without reason",
                name.c_str(), x->path.c_str(), delta, n);
    }
  }
  if (complete) {
    for (thread_t *t : vm->thread()) {
      Th *x = (Th *)t->user_data;
      if (x && ended.count(x)) {
        violation("zombie", "%s %s: ended before the round but is still listed", name.c_str(),
                  x->path.c_str());
      }
    }
  }
  return ok;
}

// garbage in pieces that a script could make itself, never past the point at
// which the machine collects
void Machine::litter(thread_t &t, int bytes) {
  while (bytes > 0) {
    const int n = bytes > 50000 ? 50000 : bytes;
    bytes -= n;
    Sut s;
    if (t.gc().should_collect()) {
      return;
    }
    if (!t.gc().new_string(n)) {
      violation("heap", "%s: no room for %d bytes although the heap is not full", name.c_str(), n);
    }
    fault("heap_pressure");
  }
}

void Machine::junk(int bytes) {
  if (!vm->thread().empty()) {
    litter(*vm->thread().front(), bytes);
  }
}

void Machine::reset() {
  {
    Sut s;
    vm->reset();
  }
  ths.clear();
  pending.clear();
  bool on[model::HD_COUNT];
  memcpy(on, mw->handler_on, sizeof(on));
  const bool lines = mw->line_mode;
  mw = new model::World(p);
  mw->bare = true;
  mw->line_mode = lines;
  memcpy(mw->handler_on, on, sizeof(on));
  init_done = false;
  rounds = 0;
  if (!vm->thread().empty() || !vm->finished() || vm->has_error()) {
    violation("reset", "%s: threads survive a reset", name.c_str());
  }
}

std::vector<Th *> Machine::live() {
  std::vector<Th *> o;
  for (Th *x : ths) {
    if (!x->done && !x->host_call) {
      o.push_back(x);
    }
  }
  return o;
}

void Machine::check() {
  std::set<Th *> seen;
  bool unfinished = false, bad = false;
  for (thread_t *t : vm->thread()) {
    Th *x = (Th *)t->user_data;
    if (!x) {
      violation("thread-list", "%s: unknown thread in the list", name.c_str());
    }
    if (!seen.insert(x).second) {
      violation("thread-list", "%s %s: listed twice", name.c_str(), x->path.c_str());
    }
    bad |= x->failed;
    if (t->finished() != x->done) {
      violation("thread-list", "%s %s: finished() is %d", name.c_str(), x->path.c_str(),
                int(t->finished()));
    }
    if (x->done && !x->failed && x->fn) {
      // the result can be read for as long as the thread is listed
      Joint j(*this);
      std::string d = j.same(t->get_return_value(), x->mt->out.value);
      if (!d.empty()) {
        violation("kept-result", "%s %s: the result of the ended thread is now %s", name.c_str(),
                  x->path.c_str(), d.c_str());
      }
    }
    if (x->failed && int(t->get_error()) != x->expect_err_code) {
      violation("kept-result", "%s %s: the error of the ended thread is now '%s'", name.c_str(),
                x->path.c_str(), error_name(int(t->get_error())));
    }
    if (x->failed && check_lines) {
      const nano::line_t l = t->get_source_line();
      if (lang::pack(l.file, l.line) != x->err_line) {
        violation("kept-result", "%s %s: the line of the error is now %d instead of %d", name.c_str(),
                  x->path.c_str(), lang::pack(l.file, l.line), x->err_line);
      }
    }
  }
  for (Th *x : ths) {
    if (!x->done) {
      unfinished = true;
      if (!seen.count(x)) {
        violation("thread-list", "%s %s: unfinished but not listed", name.c_str(),
                  x->path.c_str());
      }
    } else if (!x->host_call && rounds <= x->keep_until && !seen.count(x)) {
      violation("thread-list", "%s %s: its result is gone before the next round", name.c_str(),
                x->path.c_str());
    }
  }
  if (vm->finished() != !unfinished) {
    violation("finished", "%s: finished() is %d with%s unfinished threads", name.c_str(),
              int(vm->finished()), unfinished ? "" : "out");
  }
  if (vm->has_error() != bad) {
    violation("has-error", "%s: has_error() is %d with%s failed threads in the list", name.c_str(),
              int(vm->has_error()), bad ? "" : "out");
  }
}

void Machine::compare_globals(const char *when, Th *only) {
  Joint j(*this);
  for (Sym *s : p->globals) {
    if (only && !shared && s->group >= 0 && s->group != (only->fn ? only->fn->group : -2)) {
      continue;
    }
    std::string x = j.same(global(s), mw->globals[size_t(s->index)]);
    if (!x.empty()) {
      violation("wrong-global", "%s %s: global %s is %s", name.c_str(), when, s->name.c_str(),
                x.c_str());
    }
  }
}

const value_t *Machine::global(Sym *s) {
  auto it = c->globals.find(s->name);
  if (it == c->globals.end()) {
    violation("globals", "%s: global %s is not in the program", name.c_str(), s->name.c_str());
  }
  if (it->second < 0 || it->second >= int(vm->globals().size())) {
    violation("globals", "%s: global %s has no storage", name.c_str(), s->name.c_str());
  }
  return vm->globals()[size_t(it->second)];
}

void Machine::final_check() {
  check();
  for (Th *x : ths) {
    if (!x->done) {
      violation("progress", "%s %s: did not end", name.c_str(), x->path.c_str());
    }
    if (x->told_finish != 1 || x->told_error != int(x->failed)) {
      violation("told", "%s %s: end announced %d times, error %d times", name.c_str(),
                x->path.c_str(), x->told_finish, x->told_error);
    }
  }
  if (init_done) {
    compare_globals("at the end");
  }
}

uint64_t Machine::digest() {
  uint64_t h = 17;
  for (Th *x : ths) {
    h = mix(h, mix(hash_str(x->path), uint64_t(x->calls * 64 + x->wait * 4 + x->done * 2 + x->failed)));
    if (!x->done && x->sut) {
      h = mix(h, uint64_t(x->sut->get_pc()));
    }
  }
  for (auto &g : mw->globals) {
    h = mix(h, model::digest(g));
  }
  return h;
}

std::vector<int> Machine::draw_args(Func *f) {
  std::vector<int> a;
  for (size_t i = 0; i < f->args.size(); ++i) {
    a.push_back(int(draw(6)));
  }
  return a;
}

} // namespace world
