// nanosim: deterministic simulation of the ccml (nano) compiler and VM.
//
// Every decision of a run (program text, schedule, faults, memory layout) is a
// draw() from one choice sequence.  In search mode the sequence is produced by
// a PRNG seeded from (VERIF_SEED, property, run index) and recorded; in replay
// mode it is read from the replay file.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace sim {

// ---- choices ---------------------------------------------------------------
// 0 .. n-1; 0 should be the simplest outcome
uint32_t draw(uint32_t n);
// true with probability num/den; false is the simplest outcome
inline bool chance(uint32_t num, uint32_t den) {
  return draw(den) >= den - num;
}
// lo .. hi inclusive; lo is the simplest outcome
inline int range(int lo, int hi) {
  return lo + int(draw(uint32_t(hi - lo + 1)));
}
// pick an index by weight; index 0 is the simplest outcome
int weighted(std::initializer_list<int> w);
int weighted(const std::vector<int> &w);
// one draw that seeds an auxiliary deterministic generator
uint64_t draw_seed();

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) {}
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint32_t below(uint32_t n) { return n ? uint32_t(next() % n) : 0; }
};

// ---- observation -----------------------------------------------------------
// append to the event log of this run (always hashed, text kept when tracing)
void ev(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
// human readable trace that does not take part in the hash
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
bool tracing();
void big_note(const std::string &s);

// report a violation of the property under check and end the run
[[noreturn]] void violation(const char *kind, const char *fmt, ...)
    __attribute__((format(printf, 2, 3)));
// end the run without a verdict (harness limit reached, not a violation)
[[noreturn]] void give_up(const char *why);

// counters
void probe(const char *name, uint64_t n = 1);
void fault(const char *name, uint64_t n = 1); // a fault that really fired
void steps(uint64_t n);                       // simulated time
void state(uint64_t h);                       // a state that was reached
void nontrivial();                            // this run exercised its subject

uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 1469598103934665603ull);
inline uint64_t mix(uint64_t a, uint64_t b) {
  uint64_t x = a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15ull + (a << 6) + (a >> 2));
  x ^= x >> 29;
  x *= 0xBF58476D1CE4E5B9ull;
  x ^= x >> 32;
  return x;
}
inline uint64_t hash_str(const std::string &s) { return hash_bytes(s.data(), s.size()); }

std::string format(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
std::string quote(const std::string &s, size_t max = 80);

// ---- entering and leaving the system under test ------------------------------
// while inside, operator new and fopen belong to the simulator
extern int g_sut;
struct Sut {
  int saved;
  Sut() : saved(g_sut) { g_sut = 1; }
  ~Sut() { g_sut = saved; }
};
struct Host {
  int saved;
  Host() : saved(g_sut) { g_sut = 0; }
  ~Host() { g_sut = saved; }
};

// ---- simulated host memory ---------------------------------------------------
namespace heap {
enum mode_t { LIFO, FIFO, RANDOM, FENCE };
void configure(mode_t m, uint64_t seed);
// number and bytes of live blocks
size_t live();
size_t live_bytes();
size_t peak_bytes();
void reset_peak();
// largest single request since reset_peak
size_t max_request();
// total number of allocations so far
uint64_t count();
// verify the red zones of all live blocks; returns false if damaged
bool intact(std::string &what);
// fail the nth allocation from now (1 = next); persistent: all from then on
void arm(uint64_t nth, bool persistent);
// disarm; returns how many allocations were failed
uint64_t disarm();
// allocations seen since arm()
uint64_t armed_count();
void set_limit(size_t bytes); // requests above throw bad_alloc (0: default)
bool owns(const void *p);
void mark();                                // remember live set
std::string leak_report();                  // blocks allocated after mark()
} // namespace heap

// ---- simulated disk ----------------------------------------------------------
namespace disk {
struct File {
  std::string data;
  bool dir = false;
  bool unreadable = false; // open fails with EACCES
};
struct Faults {
  int open_fail_at = -1;      // fail the nth open (0 = next)
  int open_errno = 2;
  long write_fail_at = -1;    // bytes accepted before writes fail
  int write_errno = 28;
  bool write_transient = false; // only one write fails, later ones succeed
  long read_fail_at = -1;     // bytes delivered before reads fail
  int read_errno = 5;
  bool read_transient = false;
  bool close_fail = false;
  bool lose_on_close = false; // data of a failed close is lost
  uint32_t chunk = 0;         // deliver at most this many bytes per read, 0 = all
  bool chunk_random = false;
  uint64_t chunk_seed = 0;
  int bufsize = -1;           // of the stream: -1 default, 0 none
  // what fired
  int fired_open = 0, fired_write = 0, fired_read = 0, fired_close = 0, fired_short = 0;
  bool fired() const { return fired_open + fired_write + fired_read + fired_close > 0; }
};
extern Faults f;
std::map<std::string, File> &files();
void clear();
// names are not sensitive to case and direction of slashes
extern bool insensitive;
std::string key(const std::string &path);
int open_handles();
void flush_all();          // what the end of a process does with open streams
int opens();               // total number of opens so far
const std::vector<std::string> &opened(); // names in order
} // namespace disk

// ---- scenarios ---------------------------------------------------------------
struct Property {
  const char *id;
  void (*run)();
  const char *rule;    // evidence: how cases are made and what is non-trivial
  const char *real;    // components that run real code
  const char *stub;    // components that are simulated
};
extern const Property properties[];
extern const int num_properties;

bool thorough();
// scales limits for the thorough tier
inline int tier(int quick, int deep) { return thorough() ? deep : quick; }

// tells the runner that the system under test bypassed a seam
void seam_bypassed(const char *what);

} // namespace sim
