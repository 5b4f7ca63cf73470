// C07: bounded live data runs forever, exhaustion is a script error
//
// The programs here are templates whose results have a closed form, so that
// no second interpreter is needed and millions of instructions can be run.
#include "props.h"
#include <climits>

namespace props {

using namespace sim;
using namespace world;
using nano::thread_error_t;
using nano::thread_t;
using nano::value_t;

namespace {

const char *TEXT = R"(var ring = none
var g = none
var cells = none
var pending = 0
function strings(n, k)
  var t = 0
  var i = 0
  while (i < n)
    var s = ""
    var j = 0
    while (j < k)
      s = s + "abcdefgh"
      j = j + 1
    end
    t = t + len(s)
    i = i + 1
  end
  return t
end
function rings(n, w, k)
  var a = new_array(w)
  var i = 0
  while (i < n)
    var b = new_array(k)
    b[0] = i
    b[k - 1] = [i, "x" + i]
    a[i % w] = b
    i = i + 1
  end
  var t = 0
  var j = 0
  while (j < w)
    var x = a[j]
    var y = x[k - 1]
    t = t + x[0] + y[0] + len(y[1])
    j = j + 1
  end
  return t
end
function list(n, m)
  var r = 0
  var t = 0
  while (r < m)
    var head = none
    var i = 0
    while (i < n)
      head = [i, head]
      i = i + 1
    end
    while (i > 0)
      t = t + head[0]
      head = head[1]
      i = i - 1
    end
    r = r + 1
  end
  return t
end
function deep(d)
  if (d < 1)
    return 0
  end
  var a = [d, "s" + d, 1.5]
  var r = deep(d - 1)
  return r + a[0] + len(a[1])
end
function deeper(d, n)
  var t = 0
  var i = 0
  while (i < n)
    t = t + deep(d)
    i = i + 1
  end
  return t
end
function numbers(n)
  var f = 0.5
  var t = 0
  var i = 0
  for (i = 0 to n)
    f = f + 1.0
    t = t + bitand(i, 3)
  end
  if (f < n)
    return 0 - 1
  end
  return t
end
function big(n, k)
  var i = 0
  var t = 0
  while (i < n)
    var a = new_array(k)
    a[k - 1] = i
    a[0] = a
    var b = a[0]
    t = t + b[k - 1]
    i = i + 1
  end
  return t
end
function wide(n, k)
  var t = 0
  var i = 0
  while (i < n)
    t = t + len(new_array(k)) + len(new_array(k)) + len(new_array(k)) + len(new_array(k)) + len(new_array(k)) + len(new_array(k)) + len(new_array(k)) + len(new_array(k)) + len(new_array(k)) + len(new_array(k)) + len(new_array(k)) + len(new_array(k)) + len(new_array(k)) + len(new_array(k)) + len(new_array(k)) + len(new_array(k)) + len(new_array(k)) + len(new_array(k)) + len(new_array(k)) + len(new_array(k)) + len(new_array(k)) + len(new_array(k)) + len(new_array(k)) + len(new_array(k)) + len(new_array(k)) + len(new_array(k)) + len(new_array(k)) + len(new_array(k)) + len(new_array(k)) + len(new_array(k)) + len(new_array(k)) + len(new_array(k)) + len(new_array(k)) + len(new_array(k)) + len(new_array(k)) + len(new_array(k)) + len(new_array(k)) + len(new_array(k)) + len(new_array(k)) + len(new_array(k))
    i = i + 1
  end
  return t
end
function below(d, n, k)
  if (d < 1)
    return wide(n, k)
  end
  var a = [d]
  var r = below(d - 1, n, k)
  return r + a[0]
end
function child(a, s)
  var i = 0
  while (i < 20)
    a[i % len(a)] = s + i
    i = i + 1
  end
  pending = pending - 1
end
function spawns(n, k)
  var i = 0
  while (i < n)
    while (pending > 3)
      wait(1)
    end
    pending = pending + 1
    new_thread(child, new_array(k), "t" + i)
    i = i + 1
  end
  return n
end
function shared(n, id, w)
  var i = 0
  var t = 0
  while (i < n)
    var r = ring
    r[id] = [i, "id" + id, r[id]]
    var x = r[id]
    if (i % 16 == 0)
      x[2] = none
    end
    t = t + x[0]
    i = i + 1
  end
  return t
end
function setup(w)
  ring = new_array(w)
  return w
end
function pad(k)
  var s = "0123456789abcdef"
  while (len(s) < k)
    s = s + s
  end
  return s
end
function hog_list(k)
  var p = pad(k)
  var h = none
  while (1)
    h = [h, p + "x"]
  end
end
function hog_string(k)
  var s = pad(k)
  while (1)
    s = s + s
  end
end
function hog_strings(k)
  var s = pad(k)
  var p = s
  var h = none
  while (1)
    s = s + p
    h = [h, s]
    if (len(s) > k * 4)
      s = "" + p
    end
  end
end
function hog_global(k)
  var p = pad(k)
  while (1)
    g = [g, p + 1]
  end
end
function hog_array(n)
  var a = new_array(n)
  return len(a)
end
function hog_arrays(n)
  var h = none
  while (1)
    var a = new_array(n)
    a[0] = h
    h = a
  end
end
function hog_rec(a, p)
  var x = [a, p + "y", a]
  return hog_rec(x, p)
end
function hog_cells(k)
  var p = pad(k)
  cells = new_array(1200)
  var i = 0
  while (i < 1200)
    cells[i] = i
    i = i + 1
  end
  i = 0
  while (1)
    cells[i] = p
    i = i + 1
  end
end
function hog_deep(k)
  return hog_rec(none, pad(k))
end
function eat(n, s)
  var t = 0
  while (n > 0)
    var x = s + "!"
    t = t + len(x)
    n = n - 1
  end
  return t
end
function drop()
  g = none
  cells = none
  return 0
end
)";

struct Job {
  const char *fn;
  std::vector<int> args;
  int expect = 0;       // result
  bool fails = false;   // has to end with an error
  bool oom = false;     // ... and it is this one
  thread_t *t = nullptr;
  bool done = false;
  int told = 0, err_told = 0;
  bool once = false;
  bool keeps = false;   // what it allocated stays reachable
  int text = 0;         // size of a string given as the last argument
};

std::vector<Job *> g_jobs;
std::vector<Job *> g_once;

Job *job_of(thread_t &t) {
  Job *j = (Job *)t.user_data;
  if (!j && !g_once.empty()) {
    j = g_once.back();
    t.user_data = j;
    j->t = &t;
  }
  return j;
}

bool on_error(thread_t &t) {
  Host h;
  Job *j = job_of(t);
  if (!j) {
    // one of those that a script has made
    violation("no-room", "a thread failed with '%s' at line %d although little data is live",
              error_name(int(t.get_error())), t.get_source_line().line);
  }
  if (++j->err_told > 1) {
    violation("told-twice", "%s: the error was announced twice", j->fn);
  }
  const int code = int(t.get_error());
  if (!j->fails) {
    violation("no-room", "%s failed with '%s' at line %d although little data is live", j->fn,
              error_name(code), t.get_source_line().line);
  }
  if (j->oom && code != int(thread_error_t::e_out_of_memory) &&
      code != int(thread_error_t::e_stack_overflow)) {
    violation("wrong-error", "%s ended with '%s' instead of running out of memory", j->fn,
              error_name(code));
  }
  ev("%s error %s", j->fn, error_name(code));
  return false;
}

bool on_finish(thread_t &t) {
  Host h;
  Job *j = job_of(t);
  if (!j) {
    return false;
  }
  if (++j->told > 1) {
    violation("told-twice", "%s: the end was announced twice", j->fn);
  }
  j->done = true;
  steps(t.get_cycle_count());
  if (t.has_error()) {
    if (j->err_told != 1) {
      violation("error-not-told", "%s failed but the host was not told", j->fn);
    }
    return false;
  }
  if (j->fails) {
    violation("no-error", "%s cannot succeed but ended normally", j->fn);
  }
  const value_t *v = t.get_return_value();
  if (v->type() != nano::val_type_int || v->v != j->expect) {
    violation("wrong-result", "%s gave %s instead of %d", j->fn,
              v->type() == nano::val_type_int ? std::to_string(v->v).c_str() : "another type",
              j->expect);
  }
  ev("%s = %d", j->fn, j->expect);
  return false;
}

int digits(int v) { return int(std::to_string(v).size()); }

// a job whose live data stays within so many bytes
Job *make_job(int live, int scale, int id) {
  Job *j = new Job;
  switch (weighted({3, 3, 3, 2, 2, 3, 2, id >= 0 ? 2 : 0, 2, id >= 0 ? 2 : 0})) {
  case 0: {
    // at most two strings of 8 k bytes are live
    const int k = range(1, std::min(live / 40, 4000));
    const int n = std::max(1, scale * 4 / k);
    j->fn = "strings";
    j->args = {n, k};
    j->expect = n * k * 8;
    break;
  }
  case 1: {
    int w = range(1, 40), k = range(2, 300);
    while (w * (k * 8 + 60) > live) {
      w = w / 2 + 1;
      k = k / 2 + 1;
    }
    const int n = w + scale;
    j->fn = "rings";
    j->args = {n, w, k};
    int t = 0;
    for (int i = n - w; i < n; ++i) {
      t += i + i + 1 + digits(i);
    }
    j->expect = t;
    break;
  }
  case 2: {
    const int n = range(1, live / 60);
    const int m = std::max(1, scale * 2 / n);
    j->fn = "list";
    j->args = {n, m};
    j->expect = int(int64_t(m) * n * (n - 1) / 2);
    break;
  }
  case 3: {
    const int d = range(1, std::min(live / 120, 1500));
    const int n = std::max(1, scale / 2 / d);
    int t = 0;
    for (int i = 1; i <= d; ++i) {
      t += i + 1 + digits(i);
    }
    j->fn = "deeper";
    j->args = {d, n};
    j->expect = int(int64_t(t) * n);
    break;
  }
  case 4: {
    const int n = scale * 4;
    j->fn = "numbers";
    j->args = {n};
    int t = 0;
    for (int i = 0; i < n; ++i) {
      t += i & 3;
    }
    j->expect = t;
    break;
  }
  case 5: {
    const int k = range(2, std::min(live / 10, 62000) / 8);
    const int n = std::max(2, scale * 40 / k);
    j->fn = "big";
    j->args = {n, k};
    j->expect = int(int64_t(n) * (n - 1) / 2);
    break;
  }
  case 6: {
    // a lot of garbage within one line
    const int most = std::min(live / 4, 62000) / 8;
    const int k = chance(1, 2) ? most : range(2, most);
    const int n = std::max(3, scale * 4 / k);
    j->fn = "wide";
    j->args = {n, k};
    j->expect = n * k * 40;
    break;
  }
  case 8: {
    // the same at the end of many calls
    const int d = range(1, std::min(live / 400, 1500));
    const int most = std::min(live / 8, 62000) / 8;
    const int k = chance(1, 2) ? most : range(2, most);
    const int n = std::max(2, scale * 2 / k);
    j->fn = "below";
    j->args = {d, n, k};
    j->expect = n * k * 40 + d * (d + 1) / 2;
    break;
  }
  case 9: {
    // threads that come and go
    const int n = range(1, std::max(2, scale / 10));
    const int k = range(1, std::max(1, std::min(live / 60, 62000 / 8)));
    j->fn = "spawns";
    j->args = {n, k};
    j->expect = n;
    break;
  }
  default: {
    const int n = scale;
    j->fn = "shared";
    j->args = {n, id, 0};
    j->expect = int(int64_t(n) * (n - 1) / 2);
    break;
  }
  }
  return j;
}

// the host hands over a large string
Job *make_eater(int live) {
  Job *j = new Job;
  j->fn = "eat";
  j->text = 1024 << range(0, 4);
  while (j->text * 3 > live) {
    j->text /= 2;
  }
  j->args = {range(0, 60)};
  j->expect = j->args[0] * (j->text + 1);
  return j;
}

Job *make_hog() {
  Job *j = new Job;
  j->fails = j->oom = true;
  const int k = range(2000, 16000);
  switch (weighted({3, 2, 2, 3, 3, 2, 2, 3})) {
  case 0: j->fn = "hog_list"; break;
  case 7: j->fn = "hog_cells"; break;
  case 1: j->fn = "hog_string"; break;
  case 2: j->fn = "hog_strings"; break;
  case 3: j->fn = "hog_global"; break;
  case 4: {
    static const int sizes[] = {131072, 200000, 1 << 20, 1 << 27, 1 << 28, (1 << 28) + 1, 1 << 29,
                                (1 << 29) + 3, INT_MAX / 2, INT_MAX, 0, -1, INT_MIN};
    j->fn = "hog_array";
    const int n = sizes[draw(13)];
    j->args = {n};
    j->oom = n > 0;
    break;
  }
  case 5:
    j->fn = "hog_arrays";
    j->args = {range(300, 8000)};
    break;
  default:
    j->fn = "hog_deep";
    break;
  }
  if (j->args.empty()) {
    j->args = {k};
  }
  j->keeps = std::string(j->fn) == "hog_global" || std::string(j->fn) == "hog_cells";
  return j;
}

nano::vm_t *g_vm;
nano::vm_t *g_lender; // where the strings that the host hands over come from
Compiled *g_c;

const nano::function_t *find(const char *fn) {
  Sut s;
  const nano::function_t *f = g_c->prog->function_find(fn);
  if (!f) {
    Host h;
    violation("function", "function %s is missing", fn);
  }
  return f;
}

void arguments(Job *j, std::vector<value_t> &st, std::vector<const value_t *> &a) {
  for (int v : j->args) {
    st.emplace_back(v);
  }
  for (auto &v : st) {
    a.push_back(&v);
  }
  if (j->text) {
    const nano::function_t *f = find("pad");
    value_t k(j->text);
    const value_t *ka = &k;
    value_t *ret = nullptr;
    thread_error_t err;
    bool ok;
    {
      Sut s;
      ok = g_lender->call_once(*f, 1, &ka, ret, err);
    }
    if (!ok || ret->type() != nano::val_type_string || ret->strlen() != j->text) {
      violation("no-room", "pad(%d) gave '%s'", j->text, error_name(int(err)));
    }
    a.push_back(ret);
    probe("string_argument");
  }
}

void start(Job *j) {
  std::vector<value_t> st;
  std::vector<const value_t *> a;
  arguments(j, st, a);
  const nano::function_t *f = find(j->fn);
  Sut s;
  j->t = g_vm->new_thread(*f, int(a.size()), a.data());
  Host h;
  if (!j->t) {
    violation("new-thread", "thread %s was refused", j->fn);
  }
  j->t->user_data = j;
  g_jobs.push_back(j);
  ev("start %s %d %d", j->fn, j->args.size() > 0 ? j->args[0] : 0,
     j->args.size() > 1 ? j->args[1] : 0);
}

void once(Job *j) {
  std::vector<value_t> st;
  std::vector<const value_t *> a;
  arguments(j, st, a);
  const nano::function_t *f = find(j->fn);
  j->once = true;
  g_once.push_back(j);
  value_t *ret = nullptr;
  thread_error_t err;
  bool ok;
  {
    Sut s;
    ok = g_vm->call_once(*f, int(a.size()), a.data(), ret, err);
  }
  g_once.pop_back();
  if (!j->done || ok == j->fails) {
    violation("call", "call_once(%s) returned %d, '%s'", j->fn, int(ok), error_name(int(err)));
  }
  if (ok && (ret->type() != nano::val_type_int || ret->v != j->expect)) {
    violation("wrong-result", "call_once(%s) gave a wrong value", j->fn);
  }
  probe("op_call_once");
}

// the store that did not succeed has left the array as it was
void check_cells() {
  auto it = g_c->globals.find("cells");
  if (it == g_c->globals.end() || it->second < 0 || it->second >= int(g_vm->globals().size())) {
    violation("globals", "global cells is missing");
  }
  const value_t *a = g_vm->globals()[size_t(it->second)];
  if (!a || a->type() != nano::val_type_array || a->array_size() != 1200) {
    violation("data", "the shared array is gone after the failure");
  }
  int stored = 0;
  for (int i = 0; i < 1200; ++i) {
    const value_t *v = const_cast<value_t *>(a)->array()[i];
    if (v && v->type() == nano::val_type_string && stored == i) {
      ++stored;
    } else if (!v || v->type() != nano::val_type_int || v->v != i) {
      violation("data", "element %d of the shared array was destroyed by a failed store", i);
    }
  }
  probe("failed_store");
}

std::vector<Job *> live() {
  std::vector<Job *> o;
  for (Job *j : g_jobs) {
    if (!j->done) {
      o.push_back(j);
    }
  }
  return o;
}

// runs one thread to its end while the others are stopped
void drain_one(Job *j) {
  for (int i = 0; i < 100000 && !j->done; ++i) {
    Sut s;
    j->t->resume(50000);
  }
  if (!j->done) {
    violation("progress", "%s did not end", j->fn);
  }
}

// a thread is driven in one way only
void one_way(Job *j) {
  const int way = int(draw(4));
  const int b = 1 << range(0, 12);
  int64_t left = way == 2 ? 1500 : 2000000;
  ev("%s in way %d, %d", j->fn, way, b);
  for (int n = 0; n < 20000 && left > 0 && !j->done; ++n) {
    Sut s;
    const uint32_t from = j->t->get_cycle_count();
    switch (way) {
    case 0: j->t->step_line(); break;
    case 1: j->t->resume(b); break;
    case 2: j->t->step_inst(); break;
    default: g_vm->resume(uint32_t(b)); break;
    }
    left -= j->done ? 0 : std::max<int64_t>(1, j->t->get_cycle_count() - from);
  }
  probe("one_way");
}

void drive(int ops, int small) {
  for (int i = 0; i < ops; ++i) {
    auto l = live();
    if (l.empty()) {
      return;
    }
    Job *j = l[draw(uint32_t(l.size()))];
    uint64_t h = 3;
    for (Job *x : l) {
      h = mix(h, mix(uint64_t(x->t->get_pc()), x->t->get_cycle_count() / 64));
    }
    state(h);
    switch (weighted({6, 4, 2, 2, 2, 1})) {
    case 0: {
      static const int b[] = {1, 7, 100, 3000, 50000};
      Sut s;
      j->t->resume(b[draw(5)]);
      break;
    }
    case 1: {
      static const int b[] = {1, 7, 100, 3000, 20000};
      const int n = b[draw(5)];
      Sut s;
      g_vm->resume(uint32_t(n));
      break;
    }
    case 2: {
      const int n = range(1, 30);
      for (int k = 0; k < n && !j->done; ++k) {
        Sut s;
        j->t->step_inst();
      }
      fault("forced_collection", uint64_t(n));
      break;
    }
    case 3: {
      const int n = range(1, 400);
      for (int k = 0; k < n && !j->done; ++k) {
        Sut s;
        j->t->step_line();
      }
      probe("op_step_line", uint64_t(n));
      break;
    }
    case 4:
      if (chance(1, 4)) {
        // many calls in a row, without a round in between
        const int n = range(2, 40);
        for (int k = 0; k < n; ++k) {
          once(make_eater(small));
        }
      } else if (chance(1, 4)) {
        start(make_eater(small));
        drain_one(g_jobs.back());
      } else {
        once(make_job(small, range(10, 300), -1));
      }
      break;
    default: {
      Sut s;
      if (!j->t->gc().should_collect()) {
        Host hh;
        const int n = range(1, 60000);
        Sut s2;
        if (!j->t->gc().new_string(n)) {
          Host h3;
          violation("heap", "no room for %d bytes although the heap is not full", n);
        }
        fault("heap_pressure");
      }
      break;
    }
    }
  }
}

void drain() {
  for (int i = 0; i < 100000 && !live().empty(); ++i) {
    Sut s;
    g_vm->resume(200000);
  }
  if (!live().empty()) {
    violation("progress", "%s did not end", live()[0]->fn);
  }
}

} // namespace

void c07() {
  g_jobs.clear();
  g_once.clear();
  heap::configure(heap::LIFO, 1);
  const bool opt = chance(1, 2);
  g_c = compile_text(TEXT, opt);
  if (!g_c->ok) {
    violation("build", "line %d: %s", g_c->line, g_c->error.c_str());
  }
  {
    Sut s;
    g_vm = new nano::vm_t(*g_c->prog);
    g_vm->handlers.on_thread_error = on_error;
    g_vm->handlers.on_thread_finish = on_finish;
    g_lender = new nano::vm_t(*g_c->prog);
    if (!g_vm->call_init() || !g_lender->call_init()) {
      Host h;
      violation("init", "call_init failed");
    }
  }
  const int n = range(1, 5);
  Job *set = new Job;
  set->fn = "setup";
  set->args = {n};
  set->expect = n;
  once(set);
  // half of the heap, less what the helpers of drive() use
  const int small = 40000;
  const int share = (500000 - small) / n;
  const int scale = weighted({3, 2, 1}) == 0 ? range(20, 500) : range(200, tier(3000, 20000));
  for (int i = 0; i < n; ++i) {
    start(make_job(range(2000, share), scale, i));
  }
  if (chance(1, 4)) {
    one_way(g_jobs[draw(uint32_t(g_jobs.size()))]);
  }
  const bool hogs = chance(2, 3);
  drive(hogs ? range(1, 30) : tier(60, 200), small);
  if (hogs) {
    const int count = range(1, 3);
    for (int k = 0; k < count; ++k) {
      Job *hog = make_hog();
      if (chance(1, 3)) {
        once(hog);
      } else {
        start(hog);
        // the hog runs alone, in any way, while the others are stopped
        const int way = int(draw(4));
        int guard = 0;
        const int b = range(1, 5000);
        while (!hog->done && ++guard < 400000) {
          Sut s;
          switch (way) {
          case 0: hog->t->resume(INT_MAX); break;
          case 1: hog->t->resume(b); break;
          case 2: hog->t->step_line(); break;
          default: hog->t->resume(20000); break;
          }
        }
        if (!hog->done) {
          violation("progress", "%s never ran out of memory", hog->fn);
        }
        // the dead thread leaves with the next round
        {
          Sut s;
          g_vm->resume(0);
        }
        if (!hog->keeps && chance(1, 2)) {
          // what it held is no longer in the way
          start(make_eater(small));
          drain_one(g_jobs.back());
        }
      }
      fault("heap_exhausted");
      ev("hog %s ended", hog->fn);
      if (std::string(hog->fn) == "hog_cells") {
        check_cells();
      }
      if (hog->keeps) {
        Job *d = new Job;
        d->fn = "drop";
        once(d);
      }
      // the failed call is forgotten by the next one
      once(chance(1, 2) ? make_eater(small) : make_job(small, range(10, 500), -1));
      drive(range(0, 20), small);
    }
  }
  drain();
  once(make_job(small, range(10, 200), -1));
  nontrivial();
  {
    Sut s;
    delete g_vm;
    delete g_lender;
    g_vm = g_lender = nullptr;
  }
  delete g_c;
}

} // namespace props
