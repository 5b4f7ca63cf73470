#include "core.h"

#include <algorithm>
#include <cerrno>
#include <cstring>
#include <csignal>
#include <ctime>
#include <exception>
#include <fcntl.h>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>
#include <unordered_set>

namespace sim {

int g_sut = 0;

namespace {

const uint32_t MAXC = 1u << 19;
const uint32_t MAXS = 1u << 14;
const uint32_t MAXT = 1u << 20;
const int MAXP = 160;

enum { RUNNING, OK, VIOLATION, GAVE_UP };

struct Counter {
  char name[48];
  uint64_t n;
};

struct Slot {
  volatile int status;
  char kind[96];
  char msg[4096];
  uint64_t hash;
  uint64_t steps;
  int nontrivial;
  uint32_t nc;
  uint32_t ns;
  uint32_t np;
  uint32_t nt;
  Counter counters[MAXP];
  uint64_t states[MAXS];
  uint32_t choices[MAXC];
  char text[MAXT];
};

Slot *S = nullptr;

bool g_replay = false;
const uint32_t *g_in = nullptr;
uint32_t g_nin = 0;
Rng g_rng(1);
bool g_trace = false;
bool g_thorough = false;
int g_cpu_limit = 20;
const char *g_prop = "";

[[noreturn]] void finish(int status) {
  S->status = status;
  _exit(0);
}

void set_violation(const char *kind, const char *msg) {
  snprintf(S->kind, sizeof(S->kind), "%s", kind);
  snprintf(S->msg, sizeof(S->msg), "%s", msg);
}

} // namespace

bool thorough() { return g_thorough; }
bool tracing() { return g_trace; }

uint32_t draw(uint32_t n) {
  if (n <= 1) {
    return 0;
  }
  const uint32_t i = S->nc;
  if (i >= MAXC) {
    give_up("too many choices");
  }
  uint32_t v;
  if (g_replay) {
    v = i < g_nin ? g_in[i] % n : 0;
  } else {
    v = g_rng.below(n);
  }
  S->choices[i] = v;
  S->nc = i + 1;
  return v;
}

uint64_t draw_seed() {
  return uint64_t(draw(1u << 30)) * 0x9E3779B97F4A7C15ull + 12345;
}

int weighted(const std::vector<int> &w) {
  int sum = 0;
  for (int x : w) {
    sum += x;
  }
  if (sum <= 0) {
    return 0;
  }
  int d = int(draw(uint32_t(sum)));
  for (size_t i = 0; i < w.size(); ++i) {
    if (d < w[i]) {
      return int(i);
    }
    d -= w[i];
  }
  return 0;
}

int weighted(std::initializer_list<int> w) { return weighted(std::vector<int>(w)); }

uint64_t hash_bytes(const void *p, size_t n, uint64_t h) {
  const uint8_t *c = (const uint8_t *)p;
  for (size_t i = 0; i < n; ++i) {
    h = (h ^ c[i]) * 1099511628211ull;
  }
  return h;
}

static void add_text(const char *s, size_t n) {
  if (!g_trace) {
    return;
  }
  if (S->nt + n + 2 >= MAXT) {
    return;
  }
  memcpy(S->text + S->nt, s, n);
  S->nt += uint32_t(n);
  S->text[S->nt++] = '\n';
  S->text[S->nt] = 0;
}

void ev(const char *fmt, ...) {
  Host h;
  char buf[1024];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(buf, sizeof(buf), fmt, ap);
  va_end(ap);
  if (n < 0) {
    n = 0;
  }
  if (n >= int(sizeof(buf))) {
    n = sizeof(buf) - 1;
  }
  S->hash = hash_bytes(buf, size_t(n), S->hash * 31 + 7);
  add_text(buf, size_t(n));
}

void note(const char *fmt, ...) {
  if (!g_trace) {
    return;
  }
  Host h;
  char buf[2048];
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(buf, sizeof(buf), fmt, ap);
  va_end(ap);
  add_text(buf, std::min<size_t>(size_t(std::max(n, 0)), sizeof(buf) - 1));
}

void big_note(const std::string &s) { add_text(s.data(), s.size()); }

void violation(const char *kind, const char *fmt, ...) {
  g_sut = 0;
  char buf[4096];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof(buf), fmt, ap);
  va_end(ap);
  set_violation(kind, buf);
  note("VIOLATION %s: %s", kind, buf);
  finish(VIOLATION);
}

void give_up(const char *why) {
  g_sut = 0;
  set_violation("gave-up", why);
  finish(GAVE_UP);
}

static Counter *counter(const char *pre, const char *name) {
  char buf[48];
  snprintf(buf, sizeof(buf), "%s%s", pre, name);
  for (uint32_t i = 0; i < S->np; ++i) {
    if (!strcmp(S->counters[i].name, buf)) {
      return &S->counters[i];
    }
  }
  if (S->np >= uint32_t(MAXP)) {
    return &S->counters[MAXP - 1];
  }
  Counter *c = &S->counters[S->np++];
  memcpy(c->name, buf, sizeof(buf));
  c->n = 0;
  return c;
}

void probe(const char *name, uint64_t n) { counter("p:", name)->n += n; }
void fault(const char *name, uint64_t n) { counter("f:", name)->n += n; }
void seam_bypassed(const char *what) { counter("b:", what)->n += 1; }
void steps(uint64_t n) { S->steps += n; }
void nontrivial() { S->nontrivial = 1; }
void state(uint64_t h) {
  if (S->ns < MAXS) {
    S->states[S->ns++] = h;
  }
}

std::string format(const char *fmt, ...) {
  char buf[4096];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(buf, sizeof(buf), fmt, ap);
  va_end(ap);
  return buf;
}

std::string quote(const std::string &s, size_t max) {
  std::string o = "\"";
  for (size_t i = 0; i < s.size(); ++i) {
    if (i == max) {
      o += "...";
      break;
    }
    unsigned char c = (unsigned char)s[i];
    if (c == '\n') {
      o += "\\n";
    } else if (c < 32 || c > 126) {
      char b[8];
      snprintf(b, sizeof(b), "\\x%02x", c);
      o += b;
    } else {
      o += char(c);
    }
  }
  return o + "\"";
}

// ---- abnormal ends -----------------------------------------------------------
static uint8_t g_altstack[64 * 1024];
// a scenario sets this when aborts of the system are not a violation of the
// property (there are none)
static void on_signal(int sig, siginfo_t *si, void *) {
  // async signal context: only touch the slot
  const char *kind = "crash";
  switch (sig) {
  case SIGSEGV: kind = "crash:SIGSEGV"; break;
  case SIGBUS: kind = "crash:SIGBUS"; break;
  case SIGFPE: kind = "crash:SIGFPE"; break;
  case SIGILL: kind = "crash:SIGILL"; break;
  case SIGABRT: kind = "crash:SIGABRT"; break;
  case SIGPROF: kind = "hang"; break;
  }
  (void)si;
  const int in_sut = g_sut;
  g_sut = 0;
  set_violation(kind, sig == SIGPROF
                          ? "no progress within the CPU limit of one run"
                          : (in_sut ? "the host process was killed inside the library"
                                    : "the host process was killed in a host callback"));
  S->status = VIOLATION;
  _exit(0);
}

static void on_terminate() {
  const int in_sut = g_sut;
  g_sut = 0;
  const char *what = "unknown exception";
  std::string buf;
  try {
    if (auto e = std::current_exception()) {
      std::rethrow_exception(e);
    }
  } catch (const std::exception &e) {
    buf = e.what();
    what = buf.c_str();
  } catch (...) {
  }
  set_violation("exception", format("exception escaped (%s): %s",
                                    in_sut ? "library" : "harness", what)
                                 .c_str());
  S->status = VIOLATION;
  _exit(0);
}

} // namespace sim

extern "C" void __assert_fail(const char *expr, const char *file, unsigned line,
                              const char *func) noexcept {
  sim::g_sut = 0;
  const char *base = strrchr(file, '/');
  base = base ? base + 1 : file;
  (void)line;
  sim::violation("assert", "assertion failed in %s (%s): %s", base, func, expr);
}

namespace sim {

// ---- running one scenario ------------------------------------------------------
static const size_t STACK = 8u << 20;
static uint8_t *g_stack = nullptr;
static ucontext_t g_main_ctx, g_run_ctx;
static const Property *g_running = nullptr;

void *scenario_stack_base() { return g_stack; }

static void scenario_entry() {
  g_running->run();
  finish(OK);
}

[[noreturn]] static void run_child(const Property &p) {
  // a fixed stack makes the run independent of the environment
  g_running = &p;
  stack_t ss;
  memset(&ss, 0, sizeof(ss));
  ss.ss_sp = g_altstack;
  ss.ss_size = sizeof(g_altstack);
  sigaltstack(&ss, nullptr);
  struct sigaction sa;
  memset(&sa, 0, sizeof(sa));
  sa.sa_sigaction = on_signal;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGPROF}) {
    sigaction(s, &sa, nullptr);
  }
  std::set_terminate(on_terminate);
  struct itimerval it;
  memset(&it, 0, sizeof(it));
  it.it_value.tv_sec = g_cpu_limit;
  setitimer(ITIMER_PROF, &it, nullptr);
  struct rlimit rl;
  rl.rlim_cur = rl.rlim_max = 0;
  setrlimit(RLIMIT_CORE, &rl);
  getcontext(&g_run_ctx);
  g_run_ctx.uc_stack.ss_sp = g_stack;
  g_run_ctx.uc_stack.ss_size = STACK;
  g_run_ctx.uc_link = nullptr;
  makecontext(&g_run_ctx, scenario_entry, 0);
  swapcontext(&g_main_ctx, &g_run_ctx);
  _exit(3);
}

static void clear_slot(Slot *s) {
  s->status = RUNNING;
  s->kind[0] = s->msg[0] = 0;
  s->hash = 0;
  s->steps = 0;
  s->nontrivial = 0;
  s->nc = s->ns = s->np = s->nt = 0;
  s->text[0] = 0;
}

static Slot *new_slot() {
  void *p = mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE,
                 MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) {
    perror("mmap");
    exit(2);
  }
  return (Slot *)p;
}

static uint64_t run_seed(uint64_t seed, const char *prop, uint64_t index) {
  return mix(mix(seed * 0x1000193 + 77, hash_str(prop)), index + 1);
}

// run in a child process; the outcome is in S
static void run_forked(const Property &p) {
  clear_slot(S);
  fflush(stdout);
  fflush(stderr);
  pid_t pid = fork();
  if (pid < 0) {
    perror("fork");
    exit(2);
  }
  if (pid == 0) {
    run_child(p);
  }
  int st = 0;
  // wall clock guard against a child that blocks
  for (;;) {
    pid_t r = waitpid(pid, &st, 0);
    if (r == pid) {
      break;
    }
    if (r < 0 && errno != EINTR) {
      perror("waitpid");
      exit(2);
    }
  }
  if (S->status == RUNNING) {
    char buf[96];
    if (WIFSIGNALED(st)) {
      snprintf(buf, sizeof(buf), "crash:signal%d", WTERMSIG(st));
    } else {
      snprintf(buf, sizeof(buf), "exit:%d", WEXITSTATUS(st));
    }
    set_violation(buf, "the host process ended without a verdict");
    S->status = VIOLATION;
  }
}

static void run_index(const Property &p, uint64_t seed, uint64_t index) {
  g_replay = false;
  g_rng = Rng(run_seed(seed, p.id, index));
  run_forked(p);
}

static void run_choices(const Property &p, const std::vector<uint32_t> &c) {
  g_replay = true;
  g_in = c.data();
  g_nin = uint32_t(c.size());
  run_forked(p);
}

struct Outcome {
  int status;
  std::string kind, msg, text;
  uint64_t hash;
  std::vector<uint32_t> choices;
};

static Outcome outcome() {
  Outcome o;
  o.status = S->status;
  o.kind = S->kind;
  o.msg = S->msg;
  o.text = S->text;
  o.hash = S->hash;
  o.choices.assign(S->choices, S->choices + S->nc);
  return o;
}

static double now() {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return double(ts.tv_sec) + double(ts.tv_nsec) * 1e-9;
}

// ---- minimiser -------------------------------------------------------------------
static std::vector<uint32_t> minimise(const Property &p, std::vector<uint32_t> cur,
                                      const std::string &kind, double budget,
                                      uint64_t &tried) {
  const double t_end = now() + budget;
  auto fails = [&](const std::vector<uint32_t> &c) {
    ++tried;
    run_choices(p, c);
    return S->status == VIOLATION && kind == S->kind;
  };
  auto trim = [&](std::vector<uint32_t> &c) {
    while (!c.empty() && c.back() == 0) {
      c.pop_back();
    }
  };
  trim(cur);
  bool progress = true;
  while (progress && now() < t_end) {
    progress = false;
    // delete chunks
    for (size_t len = std::max<size_t>(cur.size() / 2, 1); len >= 1 && now() < t_end; len /= 2) {
      for (size_t at = 0; at < cur.size() && now() < t_end;) {
        std::vector<uint32_t> c(cur);
        c.erase(c.begin() + long(at), c.begin() + long(std::min(at + len, cur.size())));
        if (fails(c)) {
          // what was really consumed may be shorter
          if (S->nc < c.size()) {
            c.resize(S->nc);
          }
          trim(c);
          if (c.size() < cur.size()) {
            cur = c;
            progress = true;
            continue;
          }
        }
        at += len;
      }
      if (len == 1) {
        break;
      }
    }
    // zero chunks
    for (size_t len = std::max<size_t>(cur.size() / 2, 1); len >= 1 && now() < t_end; len /= 2) {
      for (size_t at = 0; at < cur.size() && now() < t_end; at += len) {
        std::vector<uint32_t> c(cur);
        bool any = false;
        for (size_t i = at; i < std::min(at + len, c.size()); ++i) {
          any |= c[i] != 0;
          c[i] = 0;
        }
        if (any && fails(c)) {
          trim(c);
          cur = c;
          progress = true;
        }
      }
      if (len == 1) {
        break;
      }
    }
    // shrink values
    for (size_t i = 0; i < cur.size() && now() < t_end; ++i) {
      while (cur[i] > 1 && now() < t_end) {
        std::vector<uint32_t> c(cur);
        c[i] /= 2;
        if (!fails(c)) {
          break;
        }
        cur = c;
        progress = true;
      }
      if (cur[i] > 0) {
        std::vector<uint32_t> c(cur);
        c[i] -= 1;
        if (fails(c)) {
          cur = c;
          progress = true;
        }
      }
    }
    trim(cur);
  }
  return cur;
}

static std::string json_str(const std::string &s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    switch (c) {
    case '"': o += "\\\""; break;
    case '\\': o += "\\\\"; break;
    case '\n': o += "\\n"; break;
    case '\t': o += "\\t"; break;
    case '\r': o += "\\r"; break;
    default:
      if (c < 32 || c > 126) {
        char b[8];
        snprintf(b, sizeof(b), "\\u%04x", c);
        o += b;
      } else {
        o += char(c);
      }
    }
  }
  return o + "\"";
}

static bool write_replay(const std::string &path, const Property &p, uint64_t seed,
                         uint64_t index, const Outcome &o, size_t original) {
  FILE *fd = fopen(path.c_str(), "w");
  if (!fd) {
    return false;
  }
  fprintf(fd, "{\n \"property\": \"%s\",\n \"seed\": %llu,\n \"run\": %llu,\n", p.id,
          (unsigned long long)seed, (unsigned long long)index);
  fprintf(fd, " \"tier\": \"%s\",\n", g_thorough ? "thorough" : "quick");
  fprintf(fd, " \"kind\": %s,\n \"message\": %s,\n", json_str(o.kind).c_str(),
          json_str(o.msg).c_str());
  fprintf(fd, " \"hash\": \"%016llx\",\n \"choices_before_minimising\": %zu,\n",
          (unsigned long long)o.hash, original);
  fprintf(fd, " \"choices\": [");
  for (size_t i = 0; i < o.choices.size(); ++i) {
    fprintf(fd, "%s%u", i ? "," : "", o.choices[i]);
  }
  fprintf(fd, "],\n \"trace\": [\n");
  std::istringstream is(o.text);
  std::string line;
  bool first = true;
  while (std::getline(is, line)) {
    fprintf(fd, "%s  %s", first ? "" : ",\n", json_str(line).c_str());
    first = false;
  }
  fprintf(fd, "\n ]\n}\n");
  return fclose(fd) == 0;
}

static std::string slurp(const std::string &path) {
  std::string out;
  FILE *fd = fopen(path.c_str(), "rb");
  if (!fd) {
    return out;
  }
  char buf[65536];
  size_t n;
  while ((n = fread(buf, 1, sizeof(buf), fd)) > 0) {
    out.append(buf, n);
  }
  fclose(fd);
  return out;
}

static std::string json_field(const std::string &s, const char *name) {
  const std::string key = std::string("\"") + name + "\":";
  size_t at = s.find(key);
  if (at == std::string::npos) {
    return "";
  }
  at += key.size();
  while (at < s.size() && s[at] == ' ') {
    ++at;
  }
  if (s[at] == '"') {
    size_t e = at + 1;
    std::string out;
    while (e < s.size() && s[e] != '"') {
      if (s[e] == '\\' && e + 1 < s.size()) {
        ++e;
      }
      out += s[e++];
    }
    return out;
  }
  if (s[at] == '[') {
    return s.substr(at, s.find(']', at) - at + 1);
  }
  size_t e = s.find_first_of(",}\n", at);
  return s.substr(at, e - at);
}

static const Property *find_property(const std::string &id) {
  for (int i = 0; i < num_properties; ++i) {
    if (id == properties[i].id) {
      return &properties[i];
    }
  }
  return nullptr;
}

// exit 1: the recorded violation happened again; 0: it did not; 2: error
static int do_replay(const std::string &path, bool verbose) {
  const std::string js = slurp(path);
  const Property *p = find_property(json_field(js, "property"));
  if (!p) {
    fprintf(stderr, "cannot read replay file %s\n", path.c_str());
    return 2;
  }
  g_thorough = json_field(js, "tier") == "thorough";
  const std::string kind = json_field(js, "kind");
  const std::string hash = json_field(js, "hash");
  std::vector<uint32_t> c;
  const std::string cs = json_field(js, "choices");
  const char *q = cs.c_str();
  while (*q) {
    if (*q >= '0' && *q <= '9') {
      c.push_back(uint32_t(strtoul(q, (char **)&q, 10)));
    } else {
      ++q;
    }
  }
  g_trace = true;
  run_choices(*p, c);
  char h[32];
  snprintf(h, sizeof(h), "%016llx", (unsigned long long)S->hash);
  if (verbose) {
    printf("%s\n", S->text);
  }
  printf("replay: property=%s status=%s kind=%s hash=%s (recorded kind=%s hash=%s)\n%s\n",
         p->id, S->status == VIOLATION ? "violation" : S->status == OK ? "ok" : "gave-up",
         S->kind, h, kind.c_str(), hash.c_str(), S->msg);
  if (S->status == VIOLATION && kind == S->kind && (hash == h || kind == "hang")) {
    printf("REPRODUCED exactly\n");
    return 1;
  }
  return 0;
}

// ---- search ------------------------------------------------------------------------
struct WorkerResult {
  uint64_t runs, ok, gave_up, nontrivial, steps, violations;
  int64_t first_violation;
  uint64_t total_choices;
  // runs that were executed a second time, and how many came out the same
  uint64_t repeated, identical;
  // does not depend on who executed what
  uint64_t digest;
  uint32_t np;
  Counter counters[MAXP];
};

struct Shared {
  volatile int64_t stop_at; // lowest violating index so far, or max
  volatile uint64_t next;   // next index to hand out
  WorkerResult w[64];
};

static int do_run(const Property &p, uint64_t seed, uint64_t runs, double seconds,
                  int workers, const std::string &evidence, const std::string &replay_dir,
                  double min_budget, uint64_t first) {
  const double t0 = now();
  Shared *sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                              MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  sh->stop_at = INT64_MAX;
  sh->next = first;
  std::vector<pid_t> pids;
  std::vector<std::string> set_files;
  char tmpl[] = "/tmp/nanosim.XXXXXX";
  std::string dir = mkdtemp(tmpl);
  for (int w = 0; w < workers; ++w) {
    set_files.push_back(dir + "/s" + std::to_string(w));
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
      WorkerResult &r = sh->w[w];
      r.first_violation = -1;
      S = new_slot();
      std::unordered_set<uint64_t> hashes, states;
      for (;;) {
        // indices are handed out in small blocks so that the set of runs is a
        // prefix and does not depend on the number of workers
        const uint64_t block = __sync_fetch_and_add(&sh->next, 4);
        if (block >= first + runs || now() - t0 > seconds || int64_t(block) > sh->stop_at) {
          break;
        }
        for (uint64_t i = block; i < block + 4 && i < first + runs; ++i) {
          run_index(p, seed, i);
          r.runs++;
          r.total_choices += S->nc;
          r.steps += S->steps;
          if (S->status == OK) {
            r.ok++;
          } else if (S->status == GAVE_UP) {
            r.gave_up++;
          } else {
            r.violations++;
            if (r.first_violation < 0 || int64_t(i) < r.first_violation) {
              r.first_violation = int64_t(i);
            }
            int64_t cur = sh->stop_at;
            while (int64_t(i) < cur &&
                   !__sync_bool_compare_and_swap(&sh->stop_at, cur, int64_t(i))) {
              cur = sh->stop_at;
            }
            break;
          }
          r.digest += (S->hash ^ (i * 0x9e3779b97f4a7c15ull)) * 0xff51afd7ed558ccdull;
          if (S->nontrivial && S->status == OK) {
            r.nontrivial++;
            hashes.insert(S->hash);
          }
          for (uint32_t k = 0; k < S->ns && states.size() < 4000000; ++k) {
            states.insert(S->states[k]);
          }
          for (uint32_t k = 0; k < S->np; ++k) {
            uint32_t m = 0;
            for (; m < r.np; ++m) {
              if (!strcmp(r.counters[m].name, S->counters[k].name)) {
                break;
              }
            }
            if (m == r.np) {
              if (r.np == uint32_t(MAXP)) {
                continue;
              }
              r.counters[r.np++] = S->counters[k];
            } else {
              r.counters[m].n += S->counters[k].n;
            }
          }
          if (i % 509 == 0) {
            const uint64_t h = S->hash;
            const uint32_t nc = S->nc, st = uint32_t(S->status);
            run_index(p, seed, i);
            r.repeated++;
            r.identical += (S->hash == h && S->nc == nc && uint32_t(S->status) == st);
          }
        }
        if (r.first_violation >= 0) {
          break;
        }
      }
      FILE *fd = fopen(set_files[size_t(w)].c_str(), "wb");
      uint64_t n = hashes.size();
      fwrite(&n, 8, 1, fd);
      for (uint64_t h : hashes) {
        fwrite(&h, 8, 1, fd);
      }
      n = states.size();
      fwrite(&n, 8, 1, fd);
      for (uint64_t h : states) {
        fwrite(&h, 8, 1, fd);
      }
      fclose(fd);
      _exit(0);
    }
    pids.push_back(pid);
  }
  for (pid_t pid : pids) {
    int st;
    waitpid(pid, &st, 0);
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
      fprintf(stderr, "nanosim: a worker died (status %x)\n", st);
      return 2;
    }
  }
  const double t_search = now() - t0;
  // merge
  std::unordered_set<uint64_t> hashes, states;
  for (auto &f : set_files) {
    const std::string d = slurp(f);
    unlink(f.c_str());
    const uint64_t *q = (const uint64_t *)d.data();
    uint64_t n = *q++;
    for (uint64_t i = 0; i < n; ++i) {
      hashes.insert(*q++);
    }
    n = *q++;
    for (uint64_t i = 0; i < n; ++i) {
      states.insert(*q++);
    }
  }
  rmdir(dir.c_str());
  WorkerResult t;
  memset(&t, 0, sizeof(t));
  std::map<std::string, uint64_t> counters;
  for (int w = 0; w < workers; ++w) {
    const WorkerResult &r = sh->w[w];
    t.runs += r.runs;
    t.ok += r.ok;
    t.gave_up += r.gave_up;
    t.nontrivial += r.nontrivial;
    t.steps += r.steps;
    t.violations += r.violations;
    t.total_choices += r.total_choices;
    t.repeated += r.repeated;
    t.identical += r.identical;
    t.digest += r.digest;
    for (uint32_t k = 0; k < r.np; ++k) {
      counters[r.counters[k].name] += r.counters[k].n;
    }
  }
  int rc = 0;
  std::string report;
  std::string replay_path;
  bool exact = true;
  Outcome best;
  uint64_t tried = 0;
  size_t original = 0;
  if (sh->stop_at != INT64_MAX) {
    const uint64_t index = uint64_t(sh->stop_at);
    // the gate: the same seed twice must give the same execution
    run_index(p, seed, index);
    Outcome a = outcome();
    run_index(p, seed, index);
    Outcome b = outcome();
    if (a.status != VIOLATION || b.status != VIOLATION || a.kind != b.kind ||
        (a.kind != "hang" && (a.hash != b.hash || a.choices != b.choices))) {
      fprintf(stderr,
              "nanosim: run %llu of %s is not deterministic (%s %016llx %zu / %s %016llx %zu)\n",
              (unsigned long long)index, p.id, a.kind.c_str(), (unsigned long long)a.hash,
              a.choices.size(), b.kind.c_str(), (unsigned long long)b.hash, b.choices.size());
      if (a.status != VIOLATION && b.status != VIOLATION) {
        return 2;
      }
      // still broken code: report it, marked as not exactly repeatable
      if (a.status != VIOLATION) {
        a = b;
      }
      exact = false;
    }
    original = a.choices.size();
    if (a.kind == "hang") {
      g_cpu_limit = 5;
    }
    std::vector<uint32_t> m =
        exact ? minimise(p, a.choices, a.kind, min_budget, tried) : a.choices;
    g_cpu_limit = 20;
    // record the minimised run, then replay it in a fresh process
    const std::vector<uint32_t> cands[2] = {m, a.choices};
    bool good = false;
    mkdir(replay_dir.c_str(), 0777);
    replay_path = replay_dir + "/" + p.id + "-" + std::to_string(seed) + "-" +
                  std::to_string(index) + ".json";
    for (int k = 0; k < 2 && !good; ++k) {
      g_trace = true;
      run_choices(p, cands[k]);
      best = outcome();
      if (!exact && best.status != VIOLATION) {
        best = a;
      }
      if (best.status != VIOLATION || (exact && best.kind != a.kind)) {
        continue;
      }
      best.choices = cands[k];
      if (!write_replay(replay_path, p, seed, index, best, original)) {
        fprintf(stderr, "nanosim: cannot write %s\n", replay_path.c_str());
        return 2;
      }
      fflush(stdout);
      pid_t pid = fork();
      if (pid == 0) {
        int nul = open("/dev/null", O_WRONLY);
        dup2(nul, 1);
        execl("/proc/self/exe", "nanosim", "replay", replay_path.c_str(), (char *)nullptr);
        _exit(2);
      }
      int st = 0;
      waitpid(pid, &st, 0);
      good = WIFEXITED(st) && WEXITSTATUS(st) == 1;
      if (!good && k == 1) {
        fprintf(stderr, "nanosim: the violation does not replay exactly in a fresh process\n");
        good = true;
      }
      if (!exact) {
        good = true;
      }
    }
    if (!good) {
      fprintf(stderr, "nanosim: the violation (%s: %s) did not replay in a fresh process\n",
              a.kind.c_str(), a.msg.c_str());
      return 2;
    }
    rc = 1;
    counters.clear();
  }
  // samples: the first two runs written out
  std::vector<std::string> samples;
  g_trace = true;
  for (uint64_t i = 0; i < 2 && rc == 0; ++i) {
    run_index(p, seed, first + i * 7);
    std::string txt(S->text);
    if (txt.size() > 6000) {
      txt.resize(6000);
      txt += "\n...";
    }
    samples.push_back(format("seed %llu run %llu (%u choices):\n", (unsigned long long)seed,
                             (unsigned long long)(first + i * 7), S->nc) +
                      txt);
  }
  const double wall = now() - t0;
  // evidence
  std::ostringstream o;
  o << "{\n \"property\": \"" << p.id << "\",\n \"tier\": \""
    << (g_thorough ? "thorough" : "quick") << "\",\n \"seed\": " << seed
    << ",\n \"level\": \"exploration\",\n \"coverage\": {\n";
  o << "  \"evaluations\": " << t.runs << ",\n";
  o << "  \"distinct_nontrivial\": " << hashes.size() << ",\n";
  o << "  \"rule\": " << json_str(p.rule) << ",\n";
  o << "  \"simulated_runs\": " << t.runs << ",\n";
  o << "  \"runs_ok\": " << t.ok << ",\n  \"runs_without_verdict\": " << t.gave_up << ",\n";
  o << "  \"runs_nontrivial\": " << t.nontrivial << ",\n";
  o << "  \"runs_per_hour\": " << uint64_t(double(t.runs) * 3600.0 / std::max(t_search, 0.01))
    << ",\n";
  o << "  \"seeds_per_hour\": " << uint64_t(double(t.runs) * 3600.0 / std::max(t_search, 0.01))
    << ",\n";
  o << "  \"simulated_time\": {\"unit\": \"VM instructions and simulated I/O operations\", "
       "\"total\": "
    << t.steps << "},\n";
  o << "  \"determinism\": {\"executed_again\": " << t.repeated << ", \"identical_log\": "
    << t.identical << ", \"digest_of_all_logs\": \"" << format("%016llx", (unsigned long long)t.digest)
    << "\"},\n";
  o << "  \"choices_drawn\": " << t.total_choices << ",\n";
  o << "  \"distinct_interleavings\": {\"measure\": \"distinct event-log hashes of non-trivial "
       "runs\", \"count\": "
    << hashes.size() << "},\n";
  o << "  \"distinct_states\": {\"measure\": \"distinct 64-bit digests of the system state at "
       "scheduling and fault points\", \"count\": "
    << states.size() << "},\n";
  o << "  \"faults_injected\": {";
  bool first_c = true;
  for (auto &c : counters) {
    if (c.first.compare(0, 2, "f:") == 0) {
      o << (first_c ? "" : ", ") << json_str(c.first.substr(2)) << ": " << c.second;
      first_c = false;
    }
  }
  o << "},\n  \"probes\": {";
  first_c = true;
  for (auto &c : counters) {
    if (c.first.compare(0, 2, "p:") == 0) {
      o << (first_c ? "" : ", ") << json_str(c.first.substr(2)) << ": " << c.second;
      first_c = false;
    }
  }
  o << "},\n  \"seams_bypassed\": {";
  first_c = true;
  for (auto &c : counters) {
    if (c.first.compare(0, 2, "b:") == 0) {
      o << (first_c ? "" : ", ") << json_str(c.first.substr(2)) << ": " << c.second;
      first_c = false;
    }
  }
  o << "},\n  \"real_components\": " << json_str(p.real)
    << ",\n  \"stub_components\": " << json_str(p.stub) << ",\n";
  o << "  \"workers\": " << workers << ",\n";
  o << "  \"samples\": [";
  if (rc == 1) {
    std::string txt = best.text.substr(0, 6000);
    o << json_str("violation " + best.kind + ": " + best.msg + "\n" + txt);
  }
  for (size_t i = 0; i < samples.size(); ++i) {
    o << (i ? ", " : "") << json_str(samples[i]);
  }
  o << "]\n },\n";
  o << " \"assumptions\": [\"sampled search: a clean batch is evidence, not proof\", "
       "\"compiled with g++ -O1 and assertions enabled\"],\n";
  o << " \"wall_s\": " << wall << ",\n \"violations\": " << (rc == 1 ? 1 : 0) << "\n}\n";
  if (!evidence.empty()) {
    FILE *fd = fopen(evidence.c_str(), "w");
    if (!fd) {
      fprintf(stderr, "nanosim: cannot write %s\n", evidence.c_str());
      return 2;
    }
    fputs(o.str().c_str(), fd);
    fclose(fd);
  }
  printf("%s: %llu runs (%llu ok, %llu without verdict), %zu distinct, %zu states, %llu steps, "
         "%.1f s\n",
         p.id, (unsigned long long)t.runs, (unsigned long long)t.ok,
         (unsigned long long)t.gave_up, hashes.size(), states.size(),
         (unsigned long long)t.steps, wall);
  if (rc == 1) {
    printf("run %lld: %s: %s\n", (long long)sh->stop_at, best.kind.c_str(), best.msg.c_str());
    printf("minimised %zu choices to %zu in %llu runs\n", original, best.choices.size(),
           (unsigned long long)tried);
    printf("VIOLATION property=%s replay=%s\n", p.id, replay_path.c_str());
  }
  return rc;
}

} // namespace sim

using namespace sim;

int main(int argc, char **argv) {
  // the same addresses in every process
  if (!getenv("NANOSIM_FIXED")) {
    setenv("NANOSIM_FIXED", "1", 1);
    if (personality(ADDR_NO_RANDOMIZE) != -1) {
      execv("/proc/self/exe", argv);
    }
  }
  g_stack = (uint8_t *)mmap((void *)0x200000000000ull, STACK, PROT_READ | PROT_WRITE,
                            MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE,
                            -1, 0);
  if (g_stack == MAP_FAILED) {
    perror("stack");
    return 2;
  }
  // guard below the stack
  mprotect(g_stack, 4096 * 4, PROT_NONE);
  S = new_slot();
  std::map<std::string, std::string> opt;
  std::vector<std::string> pos;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a.compare(0, 2, "--") == 0) {
      size_t eq = a.find('=');
      if (eq == std::string::npos) {
        opt[a.substr(2)] = "1";
      } else {
        opt[a.substr(2, eq - 2)] = a.substr(eq + 1);
      }
    } else {
      pos.push_back(a);
    }
  }
  auto num = [&](const char *k, double d) {
    return opt.count(k) ? strtod(opt[k].c_str(), nullptr) : d;
  };
  g_thorough = opt.count("thorough") > 0;
  if (pos.empty()) {
    fprintf(stderr, "usage: nanosim run|one|twice|replay ...\n");
    return 2;
  }
  if (pos[0] == "replay" && pos.size() == 2) {
    return do_replay(pos[1], opt.count("v") > 0);
  }
  if (pos[0] == "list") {
    for (int i = 0; i < num_properties; ++i) {
      printf("%s\n", properties[i].id);
    }
    return 0;
  }
  const Property *p = find_property(opt["prop"]);
  if (!p) {
    fprintf(stderr, "unknown property\n");
    return 2;
  }
  const uint64_t seed = uint64_t(num("seed", 1));
  if (pos[0] == "one") {
    g_trace = true;
    run_index(*p, seed, uint64_t(num("index", 0)));
    printf("%s\n", S->text);
    printf("status=%d kind=%s hash=%016llx choices=%u steps=%llu\n%s\n", S->status, S->kind,
           (unsigned long long)S->hash, S->nc, (unsigned long long)S->steps, S->msg);
    return S->status == VIOLATION;
  }
  if (pos[0] == "hashes") {
    // event log hashes of a range of runs, for determinism checks
    const uint64_t first = uint64_t(num("first", 0)), n = uint64_t(num("runs", 100));
    for (uint64_t i = first; i < first + n; ++i) {
      run_index(*p, seed, i);
      printf("%llu %d %s %016llx %u\n", (unsigned long long)i, S->status, S->kind,
             (unsigned long long)S->hash, S->nc);
    }
    return 0;
  }
  if (pos[0] == "kinds") {
    // survey: violation kinds over a range of runs
    const uint64_t first = uint64_t(num("first", 0)), n = uint64_t(num("runs", 100));
    std::map<std::string, std::pair<uint64_t, uint64_t>> kinds;
    std::map<std::string, std::string> msg;
    for (uint64_t i = first; i < first + n; ++i) {
      run_index(*p, seed, i);
      std::string k = S->status == OK ? "ok" : S->kind;
      if (S->status == GAVE_UP) {
        k += std::string(":") + S->msg;
      }
      auto it = kinds.emplace(k, std::make_pair(0, i)).first;
      if (it->second.first++ == 0) {
        msg[k] = S->msg;
      }
    }
    for (auto &k : kinds) {
      printf("%8llu  %-30s first %llu  %s\n", (unsigned long long)k.second.first,
             k.first.c_str(), (unsigned long long)k.second.second, msg[k.first].c_str());
    }
    return 0;
  }
  if (pos[0] == "run") {
    return do_run(*p, seed, uint64_t(num("runs", 1000)), num("time", 60),
                  int(num("workers", 8)), opt["evidence"],
                  opt.count("replays") ? opt["replays"] : "/verif/replays",
                  num("minimise", 20), uint64_t(num("first", 0)));
  }
  return 2;
}
