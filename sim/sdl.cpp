#include "sdl.h"
#if __has_include(<SDL.h>)
#define _SDL_main_h
#include <SDL.h>
#include <cstring>

namespace sdl {

using namespace sim;

Config cfg;
std::vector<Event> history;
uint64_t now;
uint64_t polls, delayed;
bool quit_sent;
size_t closing;
int live_windows;

static Rng g_rng(1);
static int g_windows;
static uint8_t g_keys[SDL_NUM_SCANCODES];
static unsigned g_mask;
static uint64_t g_idle;
static int g_burst;
static size_t g_leapt;

struct Window {
  int w, h, index;
  SDL_Surface *surface;
  SDL_PixelFormat format;
};

void reset(const Config &c) {
  cfg = c;
  history.clear();
  now = c.start;
  polls = delayed = 0;
  quit_sent = false;
  closing = size_t(-1);
  g_rng = Rng(c.seed);
  g_windows = live_windows = 0;
  memset(g_keys, 0, sizeof(g_keys));
  g_mask = 0;
  g_idle = 0;
  g_leapt = 0;
}

static Event &add(Kind k) {
  Event e;
  e.kind = k;
  e.at = now;
  e.delayed = delayed;
  e.polls = polls;
  history.push_back(e);
  return history.back();
}

static bool percent(int p) { return p > 0 && int(g_rng.below(100)) < p; }

static uint64_t ticks() {
  Host h;
  steps(1);
  if (percent(cfg.stall)) {
    now += 1 + g_rng.below(cfg.stall_max);
    fault("stall");
  }
  // a caller that only polls the clock has to see it move
  if (++g_idle % 64 == 0) {
    ++now;
  }
  return now;
}

static void change_keys() {
  if (percent(cfg.key_change)) {
    g_mask ^= 1u << g_rng.below(6);
  }
  static const int codes[] = {SDL_SCANCODE_UP,    SDL_SCANCODE_DOWN,   SDL_SCANCODE_LEFT,
                              SDL_SCANCODE_RIGHT, SDL_SCANCODE_ESCAPE, SDL_SCANCODE_SPACE};
  for (int i = 0; i < 6; ++i) {
    g_keys[codes[i]] = (g_mask >> i) & 1;
  }
}

static int poll(SDL_Event *e) {
  Host h;
  steps(1);
  memset(e, 0, sizeof(*e));
  auto other = [&]() {
    static const uint32_t types[] = {SDL_KEYDOWN, SDL_KEYUP, SDL_MOUSEMOTION, SDL_WINDOWEVENT,
                                     SDL_MOUSEBUTTONDOWN, SDL_USEREVENT, SDL_TEXTINPUT};
    e->type = types[g_rng.below(7)];
    if (e->type == SDL_KEYDOWN || e->type == SDL_KEYUP) {
      e->key.keysym.scancode = SDL_SCANCODE_ESCAPE;
      e->key.keysym.sym = SDLK_ESCAPE;
    }
    fault("other_event");
    return 1;
  };
  if (!quit_sent && polls >= cfg.quit_at_poll) {
    if (closing == size_t(-1)) {
      closing = history.size();
    }
    if (cfg.before_quit > 0) {
      --cfg.before_quit;
      return other();
    }
    quit_sent = true;
    e->type = SDL_QUIT;
    add(QUIT);
    fault("quit_event");
    return 1;
  }
  if (g_burst < 6 && percent(cfg.other_events)) {
    ++g_burst;
    return other();
  }
  g_burst = 0;
  ++polls;
  if (quit_sent && polls > cfg.quit_at_poll + 50) {
    violation("no-end", "the runner goes on after the window was closed");
  }
  change_keys();
  if (cfg.awake_leaps && !history.empty() && history.back().kind == SHOW && history.size() != g_leapt &&
      history.back().pixels[0] >> 16 == 0 && percent(30)) {
    // not one that asks for patience: nobody sleeps
    static const uint64_t days[] = {1ull << 31, (1ull << 31) + 5, 3000000000ull, (1ull << 32) - 40, 1ull << 32, 86400000};
    g_leapt = history.size();
    now += days[g_rng.below(6)] - 20 + g_rng.below(40);
    fault("clock_leap");
  }
  return 0;
}

} // namespace sdl

using namespace sdl;

extern "C" {
int SDL_Init(Uint32) {
  sim::Host h;
  if (cfg.init_fails) {
    sim::fault("init_fails");
    return -1;
  }
  return 0;
}
void SDL_Quit(void) {}
Uint32 SDL_GetTicks(void) { return Uint32(ticks()); }
Uint64 SDL_GetTicks64(void) { return ticks(); }
Uint64 SDL_GetPerformanceCounter(void) { return ticks(); }
Uint64 SDL_GetPerformanceFrequency(void) { return 1000; }
void SDL_Delay(Uint32 ms) {
  sim::Host h;
  sim::steps(1);
  sdl::delayed += ms;
  sdl::now += ms;
  sdl::now += cfg.leap;
  if (cfg.oversleep) {
    const uint32_t more = g_rng.below(cfg.oversleep + 1);
    if (more) {
      sdl::now += more;
      sim::fault("oversleep");
    }
  }
}
const char *SDL_GetError(void) { return "simulated"; }
SDL_Window *SDL_CreateWindow(const char *, int, int, int w, int h, Uint32) {
  sim::Host host;
  sim::steps(1);
  sdl::Event &e = add(sdl::WINDOW);
  e.w = w;
  e.h = h;
  if (cfg.window_fails_at == g_windows++ || w <= 0 || h <= 0 || w > 16384 || h > 16384) {
    e.ok = false;
    sim::fault("no_window");
    return nullptr;
  }
  sdl::Window *win = new sdl::Window;
  memset((void *)win, 0, sizeof(*win));
  win->w = w;
  win->h = h;
  win->index = g_windows - 1;
  ++sdl::live_windows;
  return (SDL_Window *)win;
}
void SDL_DestroyWindow(SDL_Window *) {
  // its memory stays, so that a late access is not mistaken for one in range
  if (sdl::live_windows > 0) {
    --sdl::live_windows;
  }
}
SDL_Surface *SDL_GetWindowSurface(SDL_Window *sw) {
  sim::Host host;
  sim::steps(1);
  sdl::Window *win = (sdl::Window *)sw;
  if (!win) {
    return nullptr;
  }
  if (cfg.surface_fails_at == win->index) {
    sim::fault("no_surface");
    return nullptr;
  }
  if (!win->surface) {
    SDL_Surface *s = new SDL_Surface;
    memset((void *)s, 0, sizeof(*s));
    win->format.BitsPerPixel = 32;
    win->format.BytesPerPixel = 4;
    win->format.Rmask = 0xff0000;
    win->format.Gmask = 0xff00;
    win->format.Bmask = 0xff;
    s->format = &win->format;
    s->w = win->w;
    s->h = win->h;
    s->pitch = win->w * 4;
    {
      sim::Sut sut; // with red zones
      s->pixels = operator new(size_t(s->pitch) * size_t(s->h));
    }
    memset(s->pixels, 0x55, size_t(s->pitch) * size_t(s->h));
    win->surface = s;
  }
  return win->surface;
}
int SDL_UpdateWindowSurface(SDL_Window *sw) {
  sim::Host host;
  sim::steps(1);
  sdl::Window *win = (sdl::Window *)sw;
  if (!win || !win->surface) {
    return -1;
  }
  sdl::Event &e = add(sdl::SHOW);
  e.w = win->w;
  e.h = win->h;
  const uint32_t *p = (const uint32_t *)win->surface->pixels;
  e.pixels.assign(p, p + size_t(win->w) * size_t(win->h));
  return 0;
}
const Uint8 *SDL_GetKeyboardState(int *n) {
  sim::Host host;
  sim::steps(1);
  if (n) {
    *n = SDL_NUM_SCANCODES;
  }
  sdl::Event &e = add(sdl::KEYS);
  e.keys = g_mask;
  return g_keys;
}
int SDL_PollEvent(SDL_Event *e) {
  SDL_Event dummy;
  return poll(e ? e : &dummy);
}
void SDL_PumpEvents(void) {}
int SDL_WaitEventTimeout(SDL_Event *e, int ms) {
  SDL_Event dummy;
  if (poll(e ? e : &dummy)) {
    return 1;
  }
  SDL_Delay(Uint32(ms > 0 ? ms : 0));
  return 0;
}
int SDL_LockSurface(SDL_Surface *) { return 0; }
void SDL_UnlockSurface(SDL_Surface *) {}
void SDL_SetWindowTitle(SDL_Window *, const char *) {}
}
#endif
