// C16, C18: the optimiser and the extensions of the host
#include "props.h"
#include <climits>

namespace props {

using namespace sim;
using namespace world;
using lang::Knobs;
using model::Value;

namespace {

Th *by_path(Machine &m, const std::string &path) {
  for (Th *t : m.ths) {
    if (t->path == path && !t->done) {
      return t;
    }
  }
  return nullptr;
}

void same_threads(Machine &a, Machine &b) {
  auto la = a.live(), lb = b.live();
  bool same = la.size() == lb.size();
  for (size_t i = 0; same && i < la.size(); ++i) {
    same = by_path(b, la[i]->path) != nullptr;
  }
  if (!same) {
    violation("runs-differ", "%zu threads are left in the %s program, %zu in the %s one", la.size(),
              a.name.c_str(), lb.size(), b.name.c_str());
  }
}

// the same switches between threads in both
void drive_both(Machine &a, Machine &b, int ops) {
  for (int i = 0; i < ops; ++i) {
    auto l = a.live();
    if (l.empty()) {
      break;
    }
    state(a.digest());
    switch (weighted({8, 4, 3, 2, 2})) {
    case 0: {
      Th *t = l[draw(uint32_t(l.size()))];
      Th *u = by_path(b, t->path);
      a.resume(t, INT_MAX);
      b.resume(u, INT_MAX);
      probe("op_resume");
      break;
    }
    case 1:
      a.round(INT_MAX);
      b.round(INT_MAX);
      probe("op_round");
      break;
    case 2: {
      // single steps in one of them
      Th *t = l[draw(uint32_t(l.size()))];
      Th *u = by_path(b, t->path);
      Machine &m = chance(1, 2) ? b : a;
      Th *x = &m == &a ? t : u;
      int n = 0;
      while (!x->done) {
        m.step_inst(x);
        if (x->halted) {
          break;
        }
        if (++n > 3000) {
          m.resume(x, INT_MAX);
          break;
        }
      }
      if (&m == &a) {
        b.resume(u, INT_MAX);
      } else {
        a.resume(t, INT_MAX);
      }
      probe("op_step_inst");
      break;
    }
    case 3:
      if (Func *f = some_helper(a, true)) {
        auto args = a.draw_args(f);
        const bool x = a.call(f, args), y = b.call(f, args);
        if (x != y) {
          violation("runs-differ", "a call of %s succeeds in only one of the programs", f->name.c_str());
        }
        probe("op_call_once");
      }
      break;
    default: (chance(1, 2) ? b : a).junk(int(draw(4)) * 50000 + 20000); break;
    }
    a.check();
    b.check();
    a.compare_globals("between slices");
    b.compare_globals("between slices");
    same_threads(a, b);
  }
}

// texts that are only known to be well formed; the two programs are compared with each other
struct Plain {
  nano::program_t prog;
  bool ok = false;
  std::string error;
  int line = 0;
  std::vector<std::string> log; // what the running activation has done
  size_t limit = 0;
};
Plain *g_plain = nullptr;

std::string shape(Plain &p, const nano::value_t *v, int depth) {
  switch (v->type()) {
  case nano::val_type_none: return "none";
  case nano::val_type_int: return format("%d", v->integer());
  case nano::val_type_float: {
    float f = v->f;
    uint32_t bits = 0;
    memcpy(&bits, &f, 4);
    return f != f ? "nan" : format("f%08x", bits);
  }
  case nano::val_type_string: return quote(std::string(v->string(), size_t(v->strlen())));
  case nano::val_type_array: {
    std::string o = "[";
    for (int i = 0; i < v->array_size() && depth > 0 && i < 20; ++i) {
      o += (i ? ", " : "") + shape(p, v->array()[i], depth - 1);
    }
    return o + format("]%d", v->array_size());
  }
  case nano::val_type_func:
    for (auto &f : p.prog.functions()) {
      if (f.code_start_ == v->v) {
        return "function " + std::string(f.name_.c_str());
      }
    }
    return "function nowhere";
  case nano::val_type_syscall:
    return v->v >= 0 && size_t(v->v) < p.prog.syscalls().size()
               ? "external " + std::string(p.prog.syscalls()[size_t(v->v)].name_.c_str())
               : "external nowhere";
  default: return "?";
  }
}

void plain_out(nano::thread_t &t, int32_t nargs) {
  Host h;
  Plain &p = *g_plain;
  std::string e = "out(";
  auto &st = t.get_stack();
  for (int i = 0; i < nargs; ++i) {
    e += (i ? ", " : "") + shape(p, st.get(st.head() - nargs + i), 4);
  }
  p.log.push_back(e + ")");
  Sut s;
  for (int i = 0; i < nargs; ++i) {
    st.pop();
  }
  st.push_int(int32_t(p.log.size() % 5));
}

void plain_build(Plain &p, const std::string &text, bool optimize) {
  Sut s;
  nano::source_manager_t src;
  src.load_from_string(text.c_str());
  nano::nano_t n(p.prog);
  n.optimize = optimize;
  nano::builtins_register(n);
  n.syscall_register("out", 1);
  nano::error_t err;
  p.ok = n.build(src, err);
  Host h;
  p.error = err.error.c_str();
  p.line = p.ok ? 0 : err.line.line;
  if (p.ok) {
    Sut s2;
    nano::builtins_resolve(p.prog);
    for (auto &e : p.prog.syscalls()) {
      if (e.name_ == "out") {
        e.call_ = plain_out;
      }
    }
  }
}

// true: ended by itself and for a reason that has to be the same
bool plain_end(Plain &p, nano::thread_t &t, bool ended) {
  if (!ended) {
    p.log.push_back("still running");
    return false;
  }
  const auto e = t.get_error();
  if (e == nano::thread_error_t::e_success) {
    p.log.push_back("returned " + shape(p, t.get_return_value(), 4));
    return true;
  }
  if (e == nano::thread_error_t::e_stack_overflow || e == nano::thread_error_t::e_out_of_memory) {
    p.log.push_back("out of room");
    return false;
  }
  p.log.push_back(format("error %d line %d", int(e), t.get_source_line().line));
  return true;
}

void c16_text() {
  std::vector<std::pair<std::string, int>> funcs;
  const std::string text = grammar_text(funcs);
  if (tracing()) {
    big_note(text);
  }
  Plain *side[2];
  for (int i = 0; i < 2; ++i) {
    side[i] = new Plain;
    plain_build(*side[i], text, i == 0);
  }
  Plain &a = *side[0], &b = *side[1];
  ev("with %d %s, without %d %s", a.ok, a.error.c_str(), b.ok, b.error.c_str());
  if (a.ok != b.ok) {
    const std::string &e = a.ok ? b.error : a.error;
    if (e != "constant divide by zero") {
      violation("build", "a text builds only %s optimisation: line %d: %s", a.ok ? "with" : "without",
                a.ok ? b.line : a.line, e.c_str());
    }
  }
  probe(a.ok && b.ok ? "text_accepted" : "text_rejected");
  if (!a.ok || !b.ok) {
    return;
  }
  if (a.prog.size() != b.prog.size()) {
    probe("text_shortened");
    nontrivial();
  }
  nano::vm_t *vm[2];
  for (int i = 0; i < 2; ++i) {
    Sut s;
    vm[i] = new nano::vm_t(side[i]->prog);
  }
  auto compare = [&](const char *what) {
    const size_t n = std::min(a.log.size(), b.log.size());
    auto open = [](Plain &p) { return !p.log.empty() && (p.log.back() == "still running" || p.log.back() == "out of room"); };
    const bool cut = open(a) || open(b);
    for (size_t i = 0; i < n; ++i) {
      if (a.log[i] != b.log[i]) {
        if (cut && (i + 1 == a.log.size() || i + 1 == b.log.size())) {
          break;
        }
        violation("runs-differ", "%s: with optimisation %s, without %s", what, a.log[i].c_str(), b.log[i].c_str());
      }
    }
    if (!cut && a.log.size() != b.log.size()) {
      violation("runs-differ", "%s: %zu events with optimisation, %zu without", what, a.log.size(), b.log.size());
    }
    for (auto &e : a.log) {
      ev("%s: %s", what, e.c_str());
    }
    state(hash_str(what));
    steps(1);
    return cut;
  };
  auto globals = [&](Plain &p, nano::vm_t &v) {
    for (auto &g : p.prog.globals()) {
      p.log.push_back(std::string(g.name_.c_str()) + " is " + shape(p, v.globals()[size_t(g.offset_)], 3));
    }
  };
  bool cut = false;
  // the initialisation
  for (int i = 0; i < 2; ++i) {
    g_plain = side[i];
    const nano::function_t *f = side[i]->prog.function_find("@init");
    if (!f) {
      continue;
    }
    Sut s;
    nano::thread_t *t = vm[i]->new_thread(*f, 0, nullptr);
    Host h;
    if (!t) {
      violation("start", "the initialisation cannot be started");
    }
    {
      Sut s2;
      t->resume(20000);
    }
    plain_end(*side[i], *t, t->finished());
  }
  cut = compare("initialisation");
  for (int k = 0; k < 6 && !cut && !funcs.empty(); ++k) {
    const auto &f = funcs[draw(uint32_t(funcs.size()))];
    int args[4];
    for (int &x : args) {
      static const int v[] = {0, 1, 2, 3, 5, -1, -7, 100};
      x = v[draw(8)];
    }
    for (int i = 0; i < 2; ++i) {
      Plain &p = *side[i];
      g_plain = &p;
      p.log.clear();
      Sut s;
      const nano::function_t *fn = p.prog.function_find(f.first);
      nano::value_t vals[4];
      const nano::value_t *argv[4] = {};
      for (int n = 0; n < f.second; ++n) {
        vals[n].from_int(args[n]);
        argv[n] = &vals[n];
      }
      nano::thread_t *t = vm[i]->new_thread(*fn, f.second, argv);
      Host h;
      if (!t) {
        violation("start", "%s cannot be started", f.first.c_str());
      }
      {
        Sut s2;
        t->resume(20000);
      }
      plain_end(p, *t, t->finished());
      if (t->finished()) {
        globals(p, *vm[i]);
      }
    }
    probe("text_calls");
    cut = compare(f.first.c_str());
  }
  if (cut) {
    probe("text_cut_short");
  }
}

} // namespace

// ---- C16 ---------------------------------------------------------------------------------
void c16() {
  heap_mode();
  if (chance(1, 3)) {
    c16_text();
    return;
  }
  Knobs k = lang::draw_knobs();
  k.constfold = true;
  k.foldy = range(1, 5);
  k.dead_code = chance(2, 3);
  k.shared = chance(1, 2);
  k.wild = chance(1, 3) ? range(1, 4) : 0;
  k.zero_div = chance(1, 4);
  k.spawn = chance(1, 4);
  k.waits = chance(1, 4);
  k.boom = chance(1, 6);
  k.nested = chance(1, 6);
  Program *p = lang::generate(k);
  note_program(*p);
  Plan plan;
  plan.oracle = draw_seed();
  plan.p_halt = chance(1, 2) ? 30 : 0;
  plan.p_junk = chance(1, 3) ? 20 : 0;
  plan.p_nest = chance(1, 6) ? 8 : 0;
  Compiled *co = compile(*p, true), *cp = compile(*p, false);
  for (Compiled *c : {co, cp}) {
    const char *what = c == co ? "with" : "without";
    if (!c->ok && c->error != "constant divide by zero") {
      violation("build", "a valid program does not build %s optimisation: line %d: %s", what, c->line,
                c->error.c_str());
    }
    if (!c->ok && !lang::const_zero_div(*p)) {
      violation("build", "%s optimisation a program without a constant division by zero is rejected for one",
                what);
    }
    ev("built %s optimisation: %d", what, c->ok);
  }
  if (!co->ok) {
    probe("constant_zero_rejected");
    if (cp->ok) {
      nontrivial();
      Machine b(p, cp, &plan, "plain");
      if (b.init()) {
        start_entries(b, true);
        drain(b);
        b.final_check();
      }
    }
    return;
  }
  if (!cp->ok) {
    return;
  }
  if (co->prog->size() != cp->prog->size()) {
    probe("optimiser_shortened");
    nontrivial();
  }
  Machine a(p, co, &plan, "optimised");
  Machine b(p, cp, &plan, "plain");
  const bool ok = a.init(), ok2 = b.init();
  if (ok != ok2) {
    violation("runs-differ", "initialisation succeeds in only one of the programs");
  }
  if (ok) {
    for (Func *f : p->entries) {
      auto args = a.draw_args(f);
      a.start(f, args);
      b.start(f, args);
    }
    if (k.shared) {
      drive_both(a, b, tier(40, 100));
    } else {
      drive_partitioned(a, tier(30, 80), chance(1, 3), true, false);
      drive_partitioned(b, tier(30, 80), chance(1, 3), true, false);
    }
    a.apply_schedule = b.apply_schedule = true;
    for (int i = 0; i < 4000 && !(a.live().empty() && b.live().empty()); ++i) {
      a.round(INT_MAX);
      b.round(INT_MAX);
      a.check();
      b.check();
    }
    drain(a);
    drain(b);
    a.final_check();
    b.final_check();
    // what the host called with drawn functions differs when driven apart
    if (k.shared) {
      compare_runs(a, b, false);
    } else {
      std::vector<Th *> sa, sb;
      for (Machine *m : {&a, &b}) {
        std::vector<Th *> keep;
        for (Th *t : m->ths) {
          if (t->path.compare(0, 4, "call") != 0) {
            keep.push_back(t);
          }
        }
        m->ths.swap(keep);
        (m == &a ? sa : sb).swap(keep);
      }
      compare_runs(a, b, false);
      a.ths.swap(sa);
      b.ths.swap(sb);
    }
  }
}

// ---- C18 ---------------------------------------------------------------------------------
void c18() {
  heap_mode();
  Knobs k = lang::draw_knobs();
  k.shared = chance(1, 2);
  k.members = chance(3, 4);
  k.icalls = true;
  k.host_calls = true;
  k.funcs = true;
  k.wild = chance(2, 3) ? range(1, 8) : 0;
  k.bad_argc = chance(1, 3) ? range(1, 5) : 0;
  k.spawn = chance(1, 5);
  k.waits = chance(1, 5);
  k.nested = chance(1, 4);
  k.zero_div = chance(1, 6);
  Program *p = lang::generate(k);
  note_program(*p);
  Plan plan;
  plan.oracle = draw_seed();
  plan.p_halt = chance(1, 2) ? 40 : 0;
  plan.p_junk = chance(1, 3) ? 25 : 0;
  plan.p_nest = chance(1, 4) ? 10 : 0;
  plan.p_raise = chance(1, 8) ? 3 : 0;
  plan.p_decline = int(draw(4)) * 33;
  plan.p_hraise = chance(1, 4) ? 10 : 0;
  bool on[model::HD_COUNT];
  const bool all = chance(1, 3);
  for (bool &b : on) {
    b = all || chance(1, 2);
  }
  Compiled *c = must_compile(*p, chance(1, 2));
  Machine a(p, c, &plan, "vm");
  a.enable_handlers(on);
  if (a.init()) {
    start_entries(a, true);
    if (k.shared) {
      drive_shared(a, tier(40, 100), chance(1, 2));
    } else {
      drive_partitioned(a, tier(50, 120), chance(1, 2), true, false);
    }
    drain(a);
    a.final_check();
    // the machine is as good as new
    a.reset();
    a.enable_handlers(on);
    if (a.init()) {
      start_entries(a, false);
      drain(a);
      a.final_check();
    }
  }
  if (a.events > 0) {
    nontrivial();
  }
}

} // namespace props
