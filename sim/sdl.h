// simulated SDL: clock, display, keyboard and event queue of the graphics runner
#pragma once
#include "core.h"
#include <string>
#include <vector>

namespace sdl {

enum Kind { WINDOW, KEYS, SHOW, QUIT };
struct Event {
  Kind kind;
  uint64_t at;      // simulated ms
  uint64_t delayed; // ms asked for with SDL_Delay so far
  uint64_t polls;   // times the event queue was found empty so far
  bool ok = true;
  int w = 0, h = 0;
  unsigned keys = 0;             // bit 0: up, 1: down, 2: left, 3: right, 4: escape, 5: space
  std::vector<uint32_t> pixels;  // SHOW: the window
};

struct Config {
  uint64_t start = 0;          // ms on the clock when the runner starts
  bool init_fails = false;
  int window_fails_at = -1;    // nth window is refused
  int surface_fails_at = -1;   // the surface of the nth window is refused
  int stall = 0;               // percent of clock reads before which time passes
  uint32_t stall_max = 0;      // ms
  uint32_t oversleep = 0;      // ms that a delay may take longer
  uint32_t leap = 0;           // ms that every delay takes longer (the host is suspended)
  bool awake_leaps = false;    // days pass while the script is busy (picture colour 0, n, 7)
  int key_change = 0;          // percent per poll
  int other_events = 0;        // percent per poll
  uint64_t quit_at_poll = 0;   // deliver the quit event then
  int before_quit = 0;         // events in the queue before it
  uint64_t seed = 1;
};
extern Config cfg;
extern std::vector<Event> history;
extern uint64_t now;
extern uint64_t polls, delayed;
extern bool quit_sent;
extern size_t closing; // what had happened when the window was closed
extern int live_windows;
void reset(const Config &c);

} // namespace sdl
