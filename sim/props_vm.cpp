// scenarios that drive the virtual machine
#include "props.h"
#include <algorithm>
#include <climits>
#include <list>

namespace props {

using namespace sim;
using namespace world;
using lang::Knobs;
using model::Value;
using nano::value_t;

void heap_mode() {
  static const heap::mode_t modes[] = {heap::LIFO, heap::FIFO, heap::RANDOM};
  const int m = int(draw(3));
  heap::configure(modes[m], m == 2 ? draw_seed() : 1);
}

// start the entry functions of the program
void start_entries(Machine &m, bool all) {
  for (Func *f : m.p->entries) {
    if (all || chance(3, 4)) {
      m.start(f, m.draw_args(f));
    }
  }
}

// the faults stop: every thread has to reach its end within a bounded number of rounds
void drain(Machine &m, int limit) {
  const bool saved = m.apply_schedule;
  m.apply_schedule = false;
  for (int i = 0; i < limit; ++i) {
    auto l = m.live();
    if (l.empty()) {
      break;
    }
    // nothing can be said about rounds in which all of them wait
    bool waiting = true;
    for (Th *x : l) {
      waiting &= x->wait > 0;
    }
    i -= int(waiting);
    m.round(1u << 24);
    m.check();
  }
  if (!m.live().empty()) {
    violation("progress", "%s: threads are left after %d undisturbed rounds", m.name.c_str(), limit);
  }
  m.apply_schedule = saved;
}

// safe host calls while other threads are suspended anywhere
Func *some_helper(Machine &m, bool shared) {
  std::vector<Func *> ok;
  for (Func *f : m.p->funcs) {
    if (!f->entry && !f->runaway && (shared || f->group < 0)) {
      ok.push_back(f);
    }
  }
  if (ok.empty()) {
    return nullptr;
  }
  return ok[draw(uint32_t(ok.size()))];
}

int small_budget() {
  switch (weighted({6, 4, 3, 2, 1, 1})) {
  case 0: return range(1, 6);
  case 1: return range(1, 40);
  case 2: return range(20, 200);
  case 3: return 1000;
  case 5: {
    static const int v[] = {255, 256, 32768, 40000, 65536, 70001, 131073};
    return v[draw(7)];
  }
  default: return 0;
  }
}

// threads that have ended do nothing, whatever the host asks of them
static void poke_ended(Machine &m) {
  for (nano::thread_t *t : std::list<nano::thread_t *>(m.vm->thread())) {
    Th *x = (Th *)t->user_data;
    if (!x || !x->done || !chance(1, 3)) {
      continue;
    }
    const uint32_t cycles = t->get_cycle_count();
    const int pc = t->get_pc();
    const int err = int(t->get_error());
    const char *what = "";
    bool ok = false;
    switch (draw(3)) {
    case 0: {
      Sut s;
      ok = t->resume(small_budget());
      what = "resume";
      break;
    }
    case 1: {
      Sut s;
      ok = t->step_inst();
      what = "step_inst";
      break;
    }
    default: {
      Sut s;
      ok = t->step_line();
      what = "step_line";
      break;
    }
    }
    probe("op_poke_ended");
    if (ok || t->get_cycle_count() != cycles || t->get_pc() != pc || int(t->get_error()) != err ||
        !t->finished()) {
      violation("undead", "%s %s: %s of an ended thread returned %d; %u more instructions",
                m.name.c_str(), x->path.c_str(), what, int(ok), t->get_cycle_count() - cycles);
    }
  }
}

// arbitrary preemption of threads that own their data
void drive_partitioned(Machine &m, int ops, bool forced_gc, bool lines, bool breakpoints) {
  bool bp = false;
  for (int i = 0; i < ops; ++i) {
    auto l = m.live();
    if (l.empty()) {
      break;
    }
    state(m.digest());
    if (chance(1, 12)) {
      poke_ended(m);
    }
    switch (weighted({8, 5, forced_gc ? 5 : 2, lines ? 4 : 0, 2, forced_gc ? 3 : 1,
                      breakpoints ? 3 : 0})) {
    case 0: {
      Th *t = l[draw(uint32_t(l.size()))];
      m.resume(t, small_budget(), bp);
      probe("op_resume");
      break;
    }
    case 1:
      m.round(uint32_t(small_budget()), bp);
      probe("op_round");
      break;
    case 2: {
      Th *t = l[draw(uint32_t(l.size()))];
      const int n = range(1, forced_gc ? 40 : 8);
      for (int k = 0; k < n && !t->done; ++k) {
        m.step_inst(t);
      }
      probe("op_step_inst");
      break;
    }
    case 3: {
      Th *t = l[draw(uint32_t(l.size()))];
      m.step_line(t);
      probe("op_step_line");
      break;
    }
    case 4: {
      if (Func *f = some_helper(m, false)) {
        m.call(f, m.draw_args(f));
        probe("op_call_once");
      }
      break;
    }
    case 5: m.junk(int(draw(4)) * 50000 + 20000); break;
    default: {
      Th *t = l[draw(uint32_t(l.size()))];
      const int pl = lang::some_line(*m.p);
      const nano::line_t line{pl / lang::FILE_LINES, pl % lang::FILE_LINES};
      Sut s;
      switch (draw(3)) {
      case 0:
        t->sut->breakpoint_add(line);
        bp = true;
        break;
      case 1: t->sut->breakpoint_remove(line); break;
      default: t->sut->breakpoint_clear(); break;
      }
      break;
    }
    }
    m.check();
  }
  if (bp) {
    for (Th *t : m.live()) {
      Sut s;
      t->sut->breakpoint_clear();
    }
  }
}

// switches only where a thread stops by itself
void drive_shared(Machine &m, int ops, bool forced_gc) {
  for (int i = 0; i < ops; ++i) {
    auto l = m.live();
    if (l.empty()) {
      break;
    }
    state(m.digest());
    if (chance(1, 12)) {
      poke_ended(m);
    }
    switch (weighted({8, 4, forced_gc ? 6 : 2, 2, 2})) {
    case 0: {
      Th *t = l[draw(uint32_t(l.size()))];
      m.resume(t, INT_MAX);
      probe("op_resume");
      break;
    }
    case 1:
      m.round(INT_MAX);
      probe("op_round");
      break;
    case 2: {
      // single steps up to the next place where the thread stops by itself
      Th *t = l[draw(uint32_t(l.size()))];
      int n = 0;
      while (!t->done) {
        m.step_inst(t);
        if (t->halted) {
          break;
        }
        if (++n > 3000) {
          m.resume(t, INT_MAX);
          break;
        }
      }
      probe("op_step_inst");
      break;
    }
    case 3: {
      if (Func *f = some_helper(m, true)) {
        // sometimes with values that the machine itself holds
        std::vector<Value> ma;
        std::vector<const value_t *> sa;
        std::vector<value_t> store;
        store.reserve(64);
        for (size_t k = 0; k < f->args.size(); ++k) {
          if (!m.p->globals.empty() && chance(1, 2)) {
            Sym *s = m.p->globals[draw(uint32_t(m.p->globals.size()))];
            ma.push_back(m.mw->globals[size_t(s->index)]);
            sa.push_back(m.global(s));
          } else {
            store.emplace_back(int(k));
            ma.push_back(Value::Int(int(k)));
            sa.push_back(&store.back());
          }
        }
        if (chance(1, 3)) {
          m.start(f, ma, sa);
          probe("op_new_thread");
        } else {
          m.call(f, ma, sa, "call" + std::to_string(m.calls));
          probe("op_call_once");
        }
      }
      break;
    }
    default: m.junk(int(draw(4)) * 50000 + 20000); break;
    }
    m.check();
    m.compare_globals("between slices");
  }
}

// the same program once more, undisturbed: per thread logs and cycle counts
void compare_runs(Machine &a, Machine &b, bool cycles) {
  std::map<std::string, Th *> ref;
  for (Th *t : b.ths) {
    ref[t->path] = t;
  }
  for (Th *t : a.ths) {
    auto it = ref.find(t->path);
    if (it == ref.end()) {
      continue;
    }
    Th *r = it->second;
    if (t->log != r->log || t->result != r->result || t->failed != r->failed) {
      violation("runs-differ", "%s %s: %zu external events, result %016llx; %s: %zu, %016llx",
                a.name.c_str(), t->path.c_str(), t->log.size(), (unsigned long long)t->result,
                b.name.c_str(), r->log.size(), (unsigned long long)r->result);
    }
    if (cycles && t->cycles != r->cycles) {
      violation("cycles", "%s %s took %u cycles, %s took %u", a.name.c_str(), t->path.c_str(),
                t->cycles, b.name.c_str(), r->cycles);
    }
  }
  for (Th *t : b.ths) {
    bool found = false;
    for (Th *x : a.ths) {
      found |= x->path == t->path;
    }
    if (!found) {
      violation("runs-differ", "%s has a thread %s that %s has not", b.name.c_str(),
                t->path.c_str(), a.name.c_str());
    }
  }
}

// ---- C01 ---------------------------------------------------------------------------------
void c01() {
  heap_mode();
  Knobs k = lang::draw_knobs();
  k.shared = false;
  k.wild = chance(1, 3) ? range(1, 4) : 0;
  k.zero_div = chance(1, 4);
  k.spawn = chance(1, 3);
  k.waits = chance(1, 3);
  k.boom = chance(1, 5);
  k.nested = chance(1, 4);
  k.dead_code = chance(1, 6);
  k.busy = chance(1, 40);
  Program *p = lang::generate(k);
  note_program(*p);
  Plan plan;
  plan.oracle = draw_seed();
  plan.p_halt = chance(1, 2) ? 30 : 0;
  plan.p_junk = chance(1, 3) ? 20 : 0;
  plan.p_nest = chance(1, 4) ? 8 : 0;
  plan.p_raise = chance(1, 8) ? 3 : 0;
  Compiled *c = must_compile(*p, chance(1, 2));
  Machine a(p, c, &plan, "sliced");
  const bool ok = a.init();
  std::vector<std::pair<Func *, std::vector<int>>> started;
  if (ok) {
    for (Func *f : p->entries) {
      auto args = a.draw_args(f);
      started.push_back({f, args});
      a.start(f, args);
    }
    drive_partitioned(a, tier(60, 160), chance(1, 2), true, chance(1, 3));
    drain(a);
    a.final_check();
  }
  Machine b(p, c, &plan, "whole");
  b.apply_schedule = false;
  const bool ok2 = b.init();
  if (ok != ok2) {
    violation("runs-differ", "initialisation succeeded only once");
  }
  if (ok) {
    for (auto &s : started) {
      b.start(s.first, s.second);
    }
    drain(b);
    b.final_check();
  }
  compare_runs(a, b, true);
  for (Th *t : a.ths) {
    if (t->log.size() > 1) {
      nontrivial();
    }
  }
}

// ---- C02 ---------------------------------------------------------------------------------
void c02() {
  heap_mode();
  Knobs k = lang::draw_knobs();
  k.shared = chance(1, 2);
  k.arrays = true;
  k.strings = true;
  k.mk = true;
  k.globals = range(2, 6);
  k.spawn = chance(1, 4);
  k.nested = chance(1, 3);
  k.waits = chance(1, 3);
  k.wild = chance(1, 6) ? 1 : 0;
  // close to or beyond the level at which the machine collects
  k.ballast = chance(1, 100) ? range(360, 410) : 0;
  Program *p = lang::generate(k);
  note_program(*p);
  Plan plan;
  plan.oracle = draw_seed();
  plan.p_halt = 40;
  plan.p_junk = 40;
  plan.p_nest = chance(1, 3) ? 10 : 0;
  plan.p_look = 50;
  Compiled *c = must_compile(*p, chance(1, 2));
  Machine a(p, c, &plan, "vm");
  if (a.init()) {
    start_entries(a, true);
    if (k.shared) {
      drive_shared(a, tier(40, 100), true);
    } else {
      drive_partitioned(a, tier(60, 160), true, true, false);
    }
    drain(a);
    nontrivial();
    if (chance(1, 4)) {
      // calls of a machine that has no other threads, over a full heap
      for (int i = range(1, 4); i > 0; --i) {
        Func *f = some_helper(a, k.shared);
        if (!f) {
          break;
        }
        if (chance(1, 2) && a.live().empty()) {
          // forgets the threads that have ended
          a.round(1);
        }
        a.call(f, a.draw_args(f));
        if (chance(3, 4)) {
          a.junk(INT_MAX);
          probe("call_over_full_heap");
        }
        a.compare_globals("between host calls");
      }
      drain(a);
    }
    a.final_check();
  }
}

// ---- C03 ---------------------------------------------------------------------------------
void c03() {
  heap_mode();
  Knobs k = lang::draw_knobs();
  k.shared = true;
  k.entries = range(2, 4);
  k.globals = range(2, 6);
  k.spawn = chance(1, 2);
  k.waits = chance(1, 2);
  k.nested = chance(1, 4);
  k.wild = chance(1, 4) ? range(1, 3) : 0;
  Program *p = lang::generate(k);
  note_program(*p);
  Plan plan;
  plan.oracle = draw_seed();
  plan.p_halt = 60;
  plan.p_junk = chance(1, 4) ? 20 : 0;
  plan.p_nest = chance(1, 4) ? 8 : 0;
  plan.p_look = 40;
  Compiled *c = must_compile(*p, chance(1, 2));
  Machine a(p, c, &plan, "vm");
  if (a.init()) {
    start_entries(a, true);
    if (chance(1, 2)) {
      start_entries(a, false); // several threads of one function
    }
    drive_shared(a, tier(80, 200), chance(1, 3));
    drain(a);
    nontrivial();
    a.final_check();
  }
}

// the number of rounds can be anything a script can name
void very_long_wait(Machine &a) {
  static const int many[] = {32767, 32768, 65535, 65536, 65537, 100000, 131072,
                             1 << 20, 1 << 24, 1 << 30, INT_MAX};
  const int n = many[draw(11)];
  Th *x = a.start(a.p->sleeper, std::vector<int>{n});
  a.check();
  a.round(1000);
  a.check();
  if (x->wait != n) {
    violation("wait", "vm: wait(%d) is not waiting", n);
  }
  const bool all = n <= 70000 && chance(1, 20);
  if (all) {
    // all but the last of them
    Sut s;
    for (; x->wait > 2; --x->wait) {
      if (!a.vm->resume(1000) || a.vm->finished() || a.vm->thread().empty()) {
        break;
      }
    }
  }
  for (int i = 0; i < 3; ++i) {
    a.round(1000);
    a.check();
  }
  probe(all ? "long_wait_to_its_end" : "long_wait");
  if (all) {
    a.final_check();
  } else {
    a.reset();
  }
}

// ---- C04 ---------------------------------------------------------------------------------
void c04() {
  heap_mode();
  Knobs k = lang::draw_knobs();
  k.shared = chance(1, 3);
  k.waits = true;
  k.sleeper = chance(1, 10);
  k.spawn = chance(2, 3);
  k.entries = range(1, 4);
  k.stmts = range(2, 5);
  k.boom = chance(1, 4);
  k.wild = chance(1, 4) ? 2 : 0;
  k.busy = chance(1, 40);
  Program *p = lang::generate(k);
  note_program(*p);
  Plan plan;
  plan.oracle = draw_seed();
  plan.p_halt = chance(1, 2) ? 30 : 0;
  plan.p_look = 0;
  Compiled *c = must_compile(*p, chance(1, 2));
  Machine a(p, c, &plan, "vm");
  if (a.init()) {
    start_entries(a, true);
    const uint32_t fixed = k.shared ? uint32_t(INT_MAX) : uint32_t(small_budget() + 1);
    const bool vary = !k.shared && chance(1, 2);
    const int n = tier(120, 300);
    for (int i = 0; i < n && !a.live().empty(); ++i) {
      state(a.digest());
      a.round(vary ? uint32_t(small_budget()) : fixed);
      a.check();
      if (chance(1, 12)) {
        if (Func *f = some_helper(a, k.shared)) {
          if (k.shared && chance(1, 2)) {
            a.start(f, a.draw_args(f));
            probe("op_new_thread");
          } else {
            a.call(f, a.draw_args(f));
            probe("op_call_once");
          }
          a.check();
        }
      }
      if (!k.shared && chance(1, 15)) {
        auto l = a.live();
        if (!l.empty()) {
          a.resume(l[draw(uint32_t(l.size()))], small_budget());
          a.check();
        }
      }
    }
    // bounded progress once the host only runs rounds: every wait ends
    drain(a);
    a.round(1000);
    if (a.round_errors == 0 && !a.vm->thread().empty()) {
      violation("zombie", "ended threads are still listed one round later");
    }
    nontrivial();
    a.final_check();
    if (p->sleeper) {
      very_long_wait(a);
    }
  }
}

// ---- C05 ---------------------------------------------------------------------------------
void c05() {
  heap_mode();
  Knobs k = lang::draw_knobs();
  k.shared = chance(1, 2);
  k.entries = range(2, 4);
  k.wild = range(2, 8);
  k.zero_div = chance(1, 2);
  k.boom = chance(1, 2);
  k.members = chance(1, 3);
  k.spawn = chance(1, 3);
  k.nested = chance(1, 4);
  k.runaway = chance(1, 25);
  Program *p = lang::generate(k);
  note_program(*p);
  Plan plan;
  plan.oracle = draw_seed();
  plan.p_halt = 30;
  plan.p_raise = chance(1, 2) ? range(1, 10) : 0;
  plan.p_nest = chance(1, 4) ? 8 : 0;
  plan.p_look = 40;
  Compiled *c = must_compile(*p, chance(1, 2));
  Machine a(p, c, &plan, "vm");
  if (a.init()) {
    start_entries(a, true);
    if (k.shared || k.runaway) {
      if (k.shared) {
        drive_shared(a, 60, false);
      }
    } else {
      drive_partitioned(a, 60, false, true, false);
    }
    drain(a);
    // the machine keeps accepting calls
    if (Func *f = some_helper(a, k.shared)) {
      a.call(f, a.draw_args(f));
      drain(a);
    }
    for (Th *t : a.ths) {
      if (t->failed) {
        nontrivial();
      }
    }
    a.final_check();
  }
}

// ---- C06 ---------------------------------------------------------------------------------
void c06() {
  heap_mode();
  Knobs k = lang::draw_knobs();
  k.shared = true;
  k.helpers = range(2, 5);
  k.nested = chance(1, 2);
  k.spawn = chance(1, 4);
  k.waits = chance(1, 4);
  k.wild = chance(1, 3) ? range(1, 4) : 0;
  k.init_calls = chance(2, 3);
  k.long_init = chance(1, 8);
  Program *p = lang::generate(k);
  note_program(*p);
  Plan plan;
  plan.oracle = draw_seed();
  plan.p_halt = 50;
  plan.p_nest = chance(1, 2) ? 20 : 5;
  plan.p_junk = chance(1, 4) ? 15 : 0;
  plan.p_raise = chance(1, 6) ? 3 : 0;
  Compiled *c = must_compile(*p, chance(1, 2));
  // several machines bound to one program
  const int nm = range(1, 3);
  std::vector<Machine *> ms;
  std::vector<Plan *> plans;
  for (int i = 0; i < nm; ++i) {
    plans.push_back(new Plan(plan));
    ms.push_back(new Machine(p, c, plans.back(), format("vm%d", i).c_str()));
  }
  const int ops = tier(40, 120);
  int done = 0;
  for (int i = 0; i < ops; ++i) {
    Machine &m = *ms[draw(uint32_t(ms.size()))];
    state(m.digest());
    if (!m.init_done) {
      if (chance(1, 12)) {
        // nothing yet: reset of an unused machine
        m.reset();
        continue;
      }
      if (chance(1, 4)) {
        // functions of a machine that has no globals: new, or after a reset
        Func *f = p->funcs[draw(uint32_t(p->funcs.size()))];
        if (chance(3, 4)) {
          m.call(f, m.draw_args(f));
        } else {
          m.start(f, m.draw_args(f));
          m.round(INT_MAX);
        }
        m.check();
        probe("op_before_init");
        continue;
      }
      if (!m.init()) {
        m.check();
        m.reset();
        if (done++ > 3) {
          break;
        }
      }
      continue;
    }
    switch (weighted({8, 4, 5, 3, 2, 1, 2, 2, 1})) {
    case 8:
      // all globals are initialised once more
      probe("op_init_again");
      if (!m.init()) {
        m.check();
        m.reset();
      }
      break;
    case 7: {
      // a thread of any state starts over with something else
      std::vector<Th *> l;
      for (nano::thread_t *t : m.vm->thread()) {
        Th *x = (Th *)t->user_data;
        if (x && (!x->host_call || x->done)) {
          l.push_back(x);
        }
      }
      if (!l.empty()) {
        Func *f = p->funcs[draw(uint32_t(p->funcs.size()))];
        m.again(l[draw(uint32_t(l.size()))], f, m.draw_args(f));
      }
      break;
    }
    case 0: {
      Func *f = p->funcs[draw(uint32_t(p->funcs.size()))];
      auto args = m.draw_args(f);
      if (chance(1, 8)) {
        if (chance(1, 2) && !args.empty()) {
          args.pop_back();
        } else {
          args.push_back(1);
        }
      }
      m.call(f, args);
      probe("op_call_once");
      nontrivial();
      break;
    }
    case 1: {
      Func *f = p->funcs[draw(uint32_t(p->funcs.size()))];
      auto args = m.draw_args(f);
      if (chance(1, 10)) {
        args.push_back(1);
      }
      m.start(f, args);
      probe("op_new_thread");
      break;
    }
    case 2: {
      auto l = m.live();
      if (!l.empty()) {
        m.resume(l[draw(uint32_t(l.size()))], INT_MAX);
      }
      break;
    }
    case 3: m.round(INT_MAX); break;
    case 4: drive_shared(m, 3, true); break;
    case 5:
      m.check();
      m.reset();
      probe("op_reset");
      break;
    // up to the level at which the machine collects
    default: m.junk(chance(1, 3) ? INT_MAX : 60000); break;
    }
    m.check();
    if (m.init_done) {
      m.compare_globals("between host calls");
    }
  }
  for (Machine *m : ms) {
    if (m->init_done) {
      drain(*m);
      m->final_check();
    }
  }
  // machines can be destroyed in any order, with threads in any state
  while (!ms.empty()) {
    const size_t i = draw(uint32_t(ms.size()));
    delete ms[i];
    ms.erase(ms.begin() + long(i));
  }
}

} // namespace props
