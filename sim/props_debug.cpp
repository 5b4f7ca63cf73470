// C08 and C19: what a debugger asks for
#include "props.h"
#include <algorithm>
#include <climits>

namespace props {

using namespace sim;
using namespace world;
using lang::Knobs;
using nano::line_t;

namespace {

int line_of(Th *t) {
  const line_t l = t->sut->get_source_line();
  if (l.line > 0 && (l.file < 0 || size_t(l.file) >= t->m->p->files.size())) {
    violation("line", "%s: line %d of file %d, which does not exist", t->path.c_str(), l.line,
              l.file);
  }
  return lang::pack(l.file, l.line);
}

line_t unpack(int n) { return line_t{n / lang::FILE_LINES, n % lang::FILE_LINES}; }

// lines of a thread, by the number of executed instructions; 0: no line
typedef std::map<std::string, std::vector<int>> Trace;

struct Watch {
  std::set<int> bp;
  // the first instruction with a line after this cycle may stop or not
  bool fuzzy = true;
  // nothing was executed: only the line of the first instruction is such
  bool start = false;
  // the slice in progress
  uint32_t mark = 0;   // scanned up to here
  int64_t stop = -1;   // the thread has to stop here
  int64_t maybe = -1;  // the thread may stop here
  bool stops = false;  // breakpoints end this slice
};

struct Debug {
  Trace trace;
  std::map<Th *, Watch> w;

  const std::vector<int> &lines(Th *t) { return trace[t->path]; }
  // last real line at or before a cycle
  int before(const std::vector<int> &l, size_t c) {
    for (size_t i = c + 1; i-- > 0;) {
      if (i < l.size() && l[i]) {
        return l[i];
      }
    }
    return 0;
  }

  void add(Th *t, int line, bool inside) {
    Watch &x = w[t];
    if (x.bp.empty()) {
      // lines are not followed without breakpoints: unclear where we came from
      // while the current instruction has no line
      const auto &l = lines(t);
      const size_t c = t->sut->get_cycle_count();
      x.fuzzy = inside || c == 0 || c >= l.size() || l[c] == 0;
      x.start = !inside && c == 0 && !l.empty() && l[0] != 0;
    }
    x.bp.insert(line);
  }

  void begin(Th *t, bool stops) {
    Watch &x = w[t];
    x.mark = t->sut->get_cycle_count();
    x.stop = x.maybe = -1;
    x.stops = stops;
  }

  // the thread executed up to a cycle with the breakpoints as they are
  void scan(Th *t, uint32_t to) {
    Watch &x = w[t];
    const auto &l = lines(t);
    if (to > x.mark && x.stops && x.stop >= 0) {
      violation("missed", "%s: execution arrived at line %d (cycle %d) and went on to cycle %u",
                t->path.c_str(), l[size_t(x.stop)], int(x.stop), to);
    }
    if (!x.bp.empty()) {
      int prev = before(l, x.mark);
      for (uint32_t i = x.mark + 1; i <= to && i < l.size(); ++i) {
        const int here = l[i];
        if (!here) {
          continue;
        }
        const bool hit = x.bp.count(here) != 0;
        const bool arrival = hit && here != prev;
        if (hit && x.fuzzy && !(arrival && x.start)) {
          x.maybe = i;
        } else if (arrival) {
          if (x.stops && i < to) {
            violation("missed",
                      "%s: execution arrived at line %d (cycle %u) and went on to cycle %u",
                      t->path.c_str(), here, i, to);
          }
          x.stop = i;
        }
        x.fuzzy = x.start = false;
        prev = here;
      }
    }
    x.mark = to;
  }

  void end(Th *t, bool reason) {
    Watch &x = w[t];
    const auto &l = lines(t);
    const uint32_t to = t->done ? t->cycles : t->sut->get_cycle_count();
    scan(t, to);
    if (!x.stops || t->done) {
      return;
    }
    const bool hit = x.stop == int64_t(to);
    if (!reason && !hit && x.maybe != int64_t(to)) {
      violation("stop", "%s: stopped at line %d (cycle %u) where no breakpoint line was entered",
                t->path.c_str(), line_of(t), to);
    }
    if (hit) {
      probe("breakpoint_hit");
      if (line_of(t) != l[to]) {
        violation("stop", "%s: stopped at line %d, reported line %d", t->path.c_str(), l[to],
                  line_of(t));
      }
    }
  }
};

Debug *g_d;
int g_inside; // percent of external calls in which the host edits breakpoints

void edit(Th *t, bool inside) {
  if (!t->sut || t->done || t->host_call) {
    return;
  }
  Debug &d = *g_d;
  Watch &x = d.w[t];
  const auto &l = d.lines(t);
  int line = lang::some_line(*t->m->p);
  if (!l.empty() && chance(3, 4)) {
    line = l[draw(uint32_t(l.size()))];
  }
  if (line < 1) {
    return;
  }
  d.scan(t, t->sut->get_cycle_count());
  switch (weighted({6, 2, 1, 1})) {
  case 0: {
    d.add(t, line, inside);
    Sut s2;
    t->sut->breakpoint_add(unpack(line));
    break;
  }
  case 1: {
    if (!x.bp.empty() && chance(2, 3)) {
      auto it = x.bp.begin();
      std::advance(it, long(draw(uint32_t(x.bp.size()))));
      line = *it;
    }
    x.bp.erase(line);
    Sut s2;
    t->sut->breakpoint_remove(unpack(line));
    break;
  }
  case 2: {
    x.bp.clear();
    Sut s2;
    t->sut->breakpoint_clear();
    break;
  }
  default: {
    // the same line of a file that does not exist never stops
    const bool first = x.bp.empty();
    if (first) {
      // from now on lines are followed
      d.add(t, line, inside);
      x.bp.erase(line);
      x.bp.insert(-1);
    }
    Sut s2;
    t->sut->breakpoint_add(line_t{9999, unpack(line).line});
    {
      Host h2;
      x.bp.insert(-line - 1); // remembered, matches nothing
    }
    break;
  }
  }
}

void in_call(Th &th, const model::Event &) {
  if (g_inside && chance(uint32_t(g_inside), 100)) {
    auto l = th.m->live();
    if (!l.empty()) {
      edit(l[draw(uint32_t(l.size()))], true);
    }
  }
}

} // namespace

// an external call is made on the line that has it
void at_line(Th &th, const model::Event &e) {
  if (e.k != model::Event::CALL || th.host_call) {
    return;
  }
  const auto &l = g_d->lines(&th);
  const int line = l.empty() ? 0 : g_d->before(l, l.size() - 1);
  if (line && line != e.line) {
    violation("line", "%s: the external call of line %d is made on line %d", th.path.c_str(), e.line, line);
  }
}

// ---- C08 ---------------------------------------------------------------------------------
void c08() {
  heap_mode();
  Knobs k = lang::draw_knobs();
  k.shared = false;
  k.entries = range(1, 3);
  k.budget = 80;
  k.wild = chance(1, 4) ? range(1, 3) : 0;
  k.spawn = chance(1, 4);
  k.waits = chance(1, 5);
  k.nested = chance(1, 6);
  Program *p = lang::generate(k);
  note_program(*p);
  Plan plan;
  plan.oracle = draw_seed();
  plan.p_halt = chance(1, 3) ? 15 : 0;
  plan.p_junk = chance(1, 6) ? 10 : 0;
  plan.p_look = 10;
  Compiled *c = must_compile(*p, chance(1, 2));
  Debug d;
  g_d = &d;
  // record the lines of every thread
  Machine b(p, c, &plan, "stepped");
  b.apply_schedule = false;
  std::vector<std::pair<Func *, std::vector<int>>> started;
  if (!b.init()) {
    return;
  }
  for (Func *f : p->entries) {
    auto args = b.draw_args(f);
    started.push_back({f, args});
    b.start(f, args);
  }
  int total = 0;
  // the lines of the program are those of its text
  std::set<int> constants;
  for (Sym *s : p->consts) {
    constants.insert(s->line);
  }
  std::map<std::string, Func *> named;
  for (Func *f : p->funcs) {
    named[f->name] = f;
  }
  auto in_text = [&](Th *t) {
    const int line = line_of(t);
    // the code for a constant belongs to the line of its declaration
    if (!line || constants.count(line) || t->sut->frames().empty()) {
      return;
    }
    const nano::function_t *fn = c->prog->function_find(int32_t(t->sut->frames().back().callee_));
    auto it = named.find(fn ? std::string(fn->name().c_str()) : std::string());
    if (it != named.end() && (line < it->second->line || line > it->second->end_line)) {
      violation("line", "%s: an instruction of %s (lines %d to %d) is reported at line %d",
                t->path.c_str(), it->first.c_str(), it->second->line, it->second->end_line, line);
    }
  };
  b.on_event = at_line;
  for (size_t i = 0; i < b.ths.size(); ++i) {
    Th *t = b.ths[i];
    if (t->host_call) {
      continue;
    }
    auto &l = d.trace[t->path];
    l.push_back(line_of(t));
    in_text(t);
    while (!t->done) {
      if (++total > 6000) {
        give_up("long trace");
      }
      b.step_inst(t);
      if (!t->done) {
        l.push_back(line_of(t));
        in_text(t);
      }
    }
  }
  b.on_event = nullptr;
  b.final_check();
  // now with breakpoints
  Machine a(p, c, &plan, "debugged");
  if (!a.init()) {
    violation("runs-differ", "initialisation succeeded only once");
  }
  for (auto &s : started) {
    a.start(s.first, s.second);
  }
  a.on_event = in_call;
  g_inside = chance(1, 3) ? 10 : 0;
  for (Th *t : a.live()) {
    const int n = range(0, 4);
    for (int i = 0; i < n; ++i) {
      d.begin(t, false);
      edit(t, false);
    }
  }
  const int ops = tier(60, 150);
  for (int i = 0; i < ops; ++i) {
    auto l = a.live();
    if (l.empty()) {
      break;
    }
    state(a.digest());
    Th *t = l[draw(uint32_t(l.size()))];
    const uint32_t from = t->sut->get_cycle_count();
    auto now = [&]() { return t->done ? t->cycles : t->sut->get_cycle_count(); };
    switch (weighted({8, 6, 3, 2, 3, k.spawn || k.nested ? 0 : 2})) {
    case 5: {
      // from the start once more, with the same breakpoints
      size_t which = 0;
      while (which < started.size() && started[which].first->name != t->path) {
        ++which;
      }
      // the model knows the data of a thread only where it has made a call
      if (which == started.size() || (from != 0 && from != t->event_cycle + 1)) {
        break;
      }
      Func *f = started[which].first;
      Machine r(p, c, &plan, "restarted");
      r.apply_schedule = false;
      if (!r.init()) {
        violation("runs-differ", "initialisation succeeded only once");
      }
      Th *rt = r.start(f, started[which].second);
      while (rt->sut->get_cycle_count() < from && !rt->done) {
        r.step_inst(rt);
      }
      if (rt->done) {
        violation("runs-differ", "%s ended after %u cycles instead of %u", t->path.c_str(), rt->cycles, from);
      }
      rt = r.again(rt, f, started[which].second);
      rt->path = f->name + " once more";
      auto &ls = d.trace[rt->path];
      ls.push_back(line_of(rt));
      while (!rt->done) {
        if (++total > 12000) {
          give_up("long trace");
        }
        r.step_inst(rt);
        if (!rt->done) {
          ls.push_back(line_of(rt));
        }
      }
      r.check();
      const Watch was = d.w[t];
      Th *n = a.again(t, f, started[which].second);
      n->path = rt->path;
      Watch &x = d.w[n];
      x = was;
      x.fuzzy = true;
      x.start = ls[0] != 0;
      x.mark = 0;
      x.stop = x.maybe = -1;
      b.ths.erase(std::remove_if(b.ths.begin(), b.ths.end(),
                                 [&](Th *y) { return y->path == f->name; }),
                  b.ths.end());
      probe("op_restart");
      break;
    }
    case 0: {
      const int n = chance(1, 2) ? INT_MAX : small_budget();
      d.begin(t, true);
      a.resume(t, n, true);
      d.end(t, t->halted || now() - from == uint32_t(n));
      probe("op_resume");
      nontrivial();
      break;
    }
    case 1:
      d.begin(t, false);
      edit(t, false);
      break;
    case 2: {
      const auto &ls = d.lines(t);
      const int cur = from < ls.size() ? ls[from] : 0;
      const int prev = d.before(ls, from);
      d.begin(t, false);
      a.step_line(t);
      const uint32_t to = now();
      d.end(t, true);
      probe("op_step_line");
      // the first instruction of another line
      for (uint32_t j = from + 1; j < to && j < ls.size(); ++j) {
        if (ls[j] && ls[j] != cur && ls[j] != prev) {
          violation("line-step", "%s: a line step from line %d went past line %d", t->path.c_str(),
                    prev, ls[j]);
        }
      }
      if (!t->done) {
        if (to >= ls.size() || line_of(t) != ls[to]) {
          violation("line-step", "%s: a line step ended at line %d", t->path.c_str(), line_of(t));
        }
        if (ls[to] == 0 || (cur && ls[to] == cur)) {
          violation("line-step", "%s: a line step from line %d ended at line %d",
                    t->path.c_str(), cur, ls[to]);
        }
      }
      break;
    }
    case 3: {
      d.begin(t, false);
      a.step_inst(t);
      d.end(t, true);
      probe("op_step_inst");
      break;
    }
    default: {
      std::map<Th *, std::pair<uint32_t, int>> snap;
      for (Th *x : l) {
        snap[x] = {x->sut->get_cycle_count(), x->wait};
        d.begin(x, true);
      }
      const uint32_t n = chance(1, 2) ? uint32_t(INT_MAX) : uint32_t(small_budget());
      a.round(n, true);
      for (Th *x : l) {
        const uint32_t f = snap[x].first;
        const uint32_t e = x->done ? x->cycles : x->sut->get_cycle_count();
        const bool ran = snap[x].second == 0;
        d.end(x, !ran || x->halted || e - f == n || (e == f && a.round_errors > 0));
      }
      probe("op_round");
      break;
    }
    }
    a.check();
  }
  a.on_event = nullptr;
  for (Th *t : a.live()) {
    Sut s;
    t->sut->breakpoint_clear();
  }
  drain(a);
  a.final_check();
  compare_runs(a, b, true);
}

// ---- C19 ---------------------------------------------------------------------------------
namespace {

std::string frame_names(Machine &m, Th *t) {
  std::string o;
  for (auto &f : t->sut->frames()) {
    const nano::function_t *fn = m.c->prog->function_find(int32_t(f.callee_));
    o += (o.empty() ? "" : " > ") + (fn ? std::string(fn->name().c_str()) : std::string("?"));
  }
  return o;
}

std::string model_names(Th *t) {
  std::string o;
  for (auto *a : t->mt->stack) {
    o += (o.empty() ? "" : " > ") + (a->fn ? a->fn->name : std::string("@init"));
  }
  return o;
}

std::map<Th *, std::pair<int, size_t>> g_at; // line and depth of the last comparison

// the thread has come to a line: bring the model there and compare
bool look(Machine &m, Th *t) {
  if (!line_of(t)) {
    return false;
  }
  // the code for a constant belongs to the line of its declaration
  for (Sym *s : m.p->consts) {
    if (s->line == line_of(t)) {
      return false;
    }
  }
  const std::pair<int, size_t> pos(line_of(t), t->sut->frames().size());
  if (g_at[t] == pos) {
    return false;
  }
  g_at[t] = pos;
  const int line = line_of(t);
  const std::string names = frame_names(m, t);
  const auto &frames = t->sut->frames();
  std::string passed;
  for (;;) {
    const model::Event e = t->mt->advance();
    if (e.k != model::Event::LINE) {
      violation("view", "%s %s: stopped at line %d in %s, which the program does not reach (%s)",
                m.name.c_str(), t->path.c_str(), line, names.c_str(), passed.c_str());
    }
    if (e.line == line && model_names(t) == names) {
      break;
    }
    passed += format("%d in %s; ", e.line, model_names(t).c_str());
    if (passed.size() > 600) {
      passed.resize(600);
    }
  }
  Joint j(m);
  for (size_t i = 0; i < frames.size(); ++i) {
    model::Activation *a = t->mt->stack[i];
    const nano::function_t *fn = m.c->prog->function_find(int32_t(frames[i].callee_));
    if (frames[i].terminal_ != (i == 0)) {
      violation("view", "%s %s: frame %zu of %s has a wrong terminal mark", m.name.c_str(),
                t->path.c_str(), i, names.c_str());
    }
    if (fn->args_.size() != a->fn->args.size()) {
      violation("view", "%s: function %s lists %zu arguments instead of %zu", m.name.c_str(),
                a->fn->name.c_str(), fn->args_.size(), a->fn->args.size());
    }
    std::map<std::string, int> offs;
    for (auto &v : fn->args_) {
      offs[std::string(v.name_.c_str())] = v.offset_;
    }
    for (auto &v : fn->locals_) {
      offs[std::string(v.name_.c_str())] = v.offset_;
    }
    auto cmp = [&](Sym *s, const char *what) {
      const size_t k = size_t(s->index);
      if (!a->init[k] || !a->in_scope[k]) {
        return;
      }
      auto it = offs.find(s->name);
      if (it == offs.end()) {
        violation("view", "%s: %s %s of %s is not listed", m.name.c_str(), what, s->name.c_str(),
                  a->fn->name.c_str());
      }
      const int at = int(frames[i].sp_) + it->second;
      if (at < 0 || at >= t->sut->get_stack().head()) {
        violation("view", "%s %s line %d: %s %s of %s lies outside the stack", m.name.c_str(),
                  t->path.c_str(), line, what, s->name.c_str(), a->fn->name.c_str());
      }
      std::string d = j.same(t->sut->get_stack().get(at), a->slot[k]);
      if (!d.empty()) {
        violation("view", "%s %s line %d: %s %s of %s (frame %zu of %zu) is %s", m.name.c_str(),
                  t->path.c_str(), line, what, s->name.c_str(), a->fn->name.c_str(), i,
                  frames.size(), d.c_str());
      }
      probe("values_viewed");
    };
    for (Sym *s : a->fn->args) {
      cmp(s, "argument");
    }
    for (Sym *s : a->fn->locals) {
      cmp(s, "local");
    }
  }
  const int group = t->fn ? t->fn->group : -1;
  for (Sym *s : m.p->globals) {
    if (!m.shared && !(s->group < 0 || s->group == group)) {
      continue;
    }
    std::string d = j.same(m.global(s), m.mw->globals[size_t(s->index)]);
    if (!d.empty()) {
      violation("view", "%s %s line %d: global %s is %s", m.name.c_str(), t->path.c_str(), line,
                s->name.c_str(), d.c_str());
    }
  }
  probe("stops_viewed");
  if (frames.size() > 1) {
    nontrivial();
    probe("nested_stops_viewed");
  }
  ev("%s %s line %d in %s", m.name.c_str(), t->path.c_str(), line, names.c_str());
  return true;
}

} // namespace

void c19() {
  heap_mode();
  Knobs k = lang::draw_knobs();
  k.shared = false;
  k.entries = range(1, 3);
  k.helpers = range(1, 4);
  k.budget = 120;
  k.deep = chance(1, 3);
  if (k.deep) {
    k.recursion = true;
    k.helpers += 2;
    k.budget = 400;
    k.stmts = std::min(k.stmts, 3);
  }
  k.wild = chance(1, 5) ? range(1, 2) : 0;
  k.spawn = chance(1, 4);
  k.waits = chance(1, 5);
  k.nested = chance(1, 6);
  if (k.reuse > 1) {
    k.reuse = 1; // locals are looked up by name
  }
  Program *p = lang::generate(k);
  note_program(*p);
  Plan plan;
  plan.oracle = draw_seed();
  plan.p_halt = chance(1, 3) ? 15 : 0;
  plan.p_junk = chance(1, 3) ? 20 : 0;
  plan.p_nest = chance(1, 6) ? 8 : 0;
  plan.p_look = 10;
  Compiled *c = must_compile(*p, chance(1, 2));
  Machine a(p, c, &plan, "vm");
  a.mw->line_mode = true;
  if (!a.init()) {
    return;
  }
  // the list of globals names the variables, each with storage of its own
  {
    std::set<std::string> names;
    std::set<int> places;
    for (Sym *g : p->globals) {
      names.insert(g->name);
    }
    for (auto &g : c->prog->globals()) {
      if (!names.erase(g.name_.c_str())) {
        violation("globals", "the list of globals shows %s, which is none or is shown twice", g.name_.c_str());
      }
      if (g.offset_ < 0 || g.offset_ >= int(a.vm->globals().size()) || !places.insert(g.offset_).second) {
        violation("globals", "global %s is shown at place %d of %zu", g.name_.c_str(), g.offset_,
                  a.vm->globals().size());
      }
    }
    if (!names.empty()) {
      violation("globals", "the list of globals does not show %s", names.begin()->c_str());
    }
  }
  start_entries(a, true);
  // these threads are watched all the time, the others run freely
  std::set<Th *> watched;
  g_at.clear();
  for (Th *t : a.live()) {
    if (watched.empty() || chance(1, 2)) {
      watched.insert(t);
      look(a, t);
    }
  }
  const int ops = tier(300, 900);
  for (int i = 0; i < ops; ++i) {
    auto l = a.live();
    if (l.empty()) {
      break;
    }
    if (i % 8 == 0) {
      state(a.digest());
    }
    Th *t = l[draw(uint32_t(l.size()))];
    if (!watched.count(t)) {
      a.resume(t, small_budget());
      continue;
    }
    // one step of some kind; a new line is compared
    switch (weighted({6, 3, 3, 1})) {
    case 0:
      a.step_line(t);
      if (!t->done && look(a, t) && !t->wait && t->sut->waits == 0 && chance(1, 40)) {
        // the thread is given something else to do
        std::vector<Func *> fs;
        for (Func *f : p->funcs) {
          if (f->group == t->fn->group) {
            fs.push_back(f);
          }
        }
        watched.erase(t);
        Func *f = fs[draw(uint32_t(fs.size()))];
        t = a.again(t, f, a.draw_args(f));
        watched.insert(t);
        look(a, t);
      }
      break;
    case 1:
    case 2: {
      const bool gc = chance(1, 2);
      const int n = range(1, 12);
      for (int j = 0; j < n && !t->done; ++j) {
        if (gc) {
          a.step_inst(t);
        } else {
          a.resume(t, 1);
        }
        if (!t->done) {
          look(a, t);
        }
      }
      break;
    }
    default: a.junk(int(draw(4)) * 50000 + 20000); break;
    }
    a.check();
  }
  drain(a);
  a.final_check();
}

} // namespace props
