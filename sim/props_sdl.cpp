// C22: the graphics runner with a simulated clock, display, keyboard and event queue
#include "console.h"
#include "props.h"
#include "sdl.h"
#include <cmath>
#include <cstring>

int driver_sdl_main(int, char **) __attribute__((weak));

namespace props {

using namespace sim;

namespace {

enum OpKind { VIDEO, CLS, RGB, PLOT, LINE, CIRCLE, FLIP, SLEEP, KEY, TIMES, BUSY, SPAWN, FAIL, SHAPES };

struct Num {
  int base = 0, step = 0; // base + step * loop counter
  std::string frac;       // digits of a float, without sign
  bool text = false;      // a string instead of a number
};
struct Op {
  OpKind k;
  Num n[4];
  int key = 0, count = 0, ms = 0;
  std::string var;
  std::vector<Op *> body;
  bool guard = false;
};

int g_counter;
bool g_fails;

Num coord(int size, bool in_loop, bool far = false) {
  Num n;
  switch (weighted({16, 4, 4, 2, far ? 1 : 0})) {
  case 0: n.base = int(draw(uint32_t(size))); break;
  case 1: n.base = int(draw(uint32_t(size * 3))) - size; break;
  case 2: n.base = chance(1, 2) ? size - 1 : size; break;
  case 3: n.base = chance(1, 2) ? int(draw(20000)) : -int(draw(20000)); break;
  default: {
    // as far away as a narrower number can tell
    static const int ends[] = {256, 32768, 65536, 1 << 20, 1 << 24};
    n.base = int(draw(uint32_t(size))) + (chance(1, 2) ? 1 : -1) * ends[draw(5)];
    break;
  }
  }
  if (in_loop && chance(1, 2)) {
    n.step = int(draw(7)) - 3;
  }
  return n;
}

Op *op(int w, int h, int depth, bool in_loop, bool video);

void block(std::vector<Op *> &b, int n, int w, int h, int depth, bool in_loop, bool video) {
  for (int i = 0; i < n; ++i) {
    b.push_back(op(w, h, depth, in_loop, video));
  }
}

Op *op(int w, int h, int depth, bool in_loop, bool video) {
  Op *o = new Op;
  switch (weighted({1, 8, 4, 5, 3, 8, 7, depth > 0 ? 3 : 0, depth > 0 ? 3 : 0, 1, depth > 0 ? 2 : 0,
                    g_fails ? 1 : 0, video ? 1 : 0})) {
  case 0: o->k = CLS; break;
  case 1:
    o->k = PLOT;
    o->n[0] = coord(w, in_loop, true);
    o->n[1] = coord(h, in_loop, true);
    if (chance(1, 8)) {
      // a float counts as the whole number towards zero
      Num &n = o->n[draw(2)];
      n.step = 0;
      n.frac = chance(1, 2) ? ".75" : ".25";
    } else if (chance(1, 20)) {
      o->n[draw(2)].text = true;
    }
    break;
  case 2:
    o->k = RGB;
    for (int i = 0; i < 3; ++i) {
      o->n[i].base = chance(1, 6) ? int(draw(2000)) - 600 : int(draw(256));
    }
    break;
  case 3: {
    o->k = LINE;
    for (int i = 0; i < 4; ++i) {
      o->n[i] = coord(i % 2 ? h : w, in_loop);
    }
    if (chance(1, 6)) {
      // both ends far away, through the canvas
      const int far = range(100, 20000), mx = int(draw(uint32_t(w))), my = int(draw(uint32_t(h)));
      const int sx = chance(1, 2) ? 1 : -1, sy = chance(1, 2) ? 1 : -1;
      const int fx = chance(1, 3) ? far : range(0, far), fy = chance(1, 2) ? far : range(0, far);
      o->n[0].base = mx - sx * fx;
      o->n[1].base = my - sy * fy;
      o->n[2].base = mx + sx * fx;
      o->n[3].base = my + sy * fy;
      for (int i = 0; i < 4; ++i) {
        o->n[i].step = 0;
      }
    } else if (chance(1, 3)) {
      o->n[2 + draw(2)] = o->n[0]; // straight
    } else if (chance(1, 3)) {
      o->n[3] = o->n[1];
    }
    break;
  }
  case 4:
    o->k = CIRCLE;
    o->n[0] = coord(w, in_loop, true);
    o->n[1] = coord(h, in_loop, true);
    o->n[2].base = chance(1, 8) ? int(draw(300)) - 20 : int(draw(12));
    if (chance(1, 8)) {
      // only an edge of a large one is visible
      const int r = range(100, 15000);
      Num &n = o->n[draw(2)];
      n.base += chance(1, 2) ? r : -r;
      o->n[2].base = r;
    }
    break;
  case 5: o->k = FLIP; break;
  case 6:
    o->k = SLEEP;
    o->ms = weighted({4, 2, 1, 1}) == 0 ? int(draw(10)) : chance(1, 2) ? int(draw(60)) : int(draw(400));
    if (chance(1, 10)) {
      o->ms = -int(draw(50));
    }
    if (in_loop) {
      o->ms = std::min(o->ms, 12);
    }
    if (chance(1, 6) && o->ms >= 0) {
      o->n[0].frac = ".5";
    }
    break;
  case 7:
    o->k = KEY;
    o->key = int(draw(6));
    block(o->body, range(1, 2), w, h, depth - 1, in_loop, false);
    break;
  case 8:
    o->k = TIMES;
    o->var = format("w%d", g_counter++);
    o->count = range(0, 6);
    block(o->body, range(1, 3), w, h, depth - 1, true, false);
    break;
  case 9:
    o->k = BUSY;
    o->var = format("w%d", g_counter++);
    o->count = chance(1, 2) ? range(1, 200) : range(200, 3000);
    break;
  case 10:
    o->k = SPAWN;
    o->count = range(1, 6);
    o->ms = int(draw(20));
    break;
  case 11:
    o->k = FAIL;
    o->count = int(draw(3));
    break;
  default:
    o->k = VIDEO;
    o->n[0].base = chance(1, 5) ? int(draw(5)) * 40000 - 80000 : range(1, 40);
    o->n[1].base = chance(1, 5) ? int(draw(5)) * 40000 - 80000 : range(1, 40);
    o->n[draw(2)].text = chance(1, 10);
    o->guard = chance(1, 2);
    block(o->body, 1, w, h, 0, in_loop, false);
    break;
  }
  return o;
}

const char *keys[] = {"up", "down", "left", "right", "escape", "space"};

std::string num(const Num &n, const std::string &var) {
  if (n.text) {
    return "\"x\"";
  }
  std::string o = std::to_string(std::abs(n.base)) + n.frac;
  if (n.base < 0) {
    o = "0 - " + o;
  }
  if (n.step && !var.empty()) {
    o += (n.step < 0 ? " - " : " + ") + std::to_string(std::abs(n.step)) + " * " + var;
  }
  return o;
}

void text(std::string &o, const std::vector<Op *> &b, int ind, const std::string &var) {
  const std::string in(size_t(ind) * 2, ' ');
  for (Op *p : b) {
    switch (p->k) {
    case VIDEO: {
      const std::string call = "video(" + num(p->n[0], "") + ", " + num(p->n[1], "") + ")";
      if (p->guard) {
        o += in + "if (" + call + ")\n";
        text(o, p->body, ind + 1, var);
        o += in + "end\n";
      } else {
        o += in + call + "\n";
      }
      break;
    }
    case CLS: o += in + "cls()\n"; break;
    case RGB:
      o += in + "setrgb(" + num(p->n[0], "") + ", " + num(p->n[1], "") + ", " + num(p->n[2], "") + ")\n";
      break;
    case PLOT: o += in + "plot(" + num(p->n[0], var) + ", " + num(p->n[1], var) + ")\n"; break;
    case LINE:
      o += in + "line(" + num(p->n[0], var) + ", " + num(p->n[1], var) + ", " + num(p->n[2], var) +
           ", " + num(p->n[3], var) + ")\n";
      break;
    case CIRCLE:
      o += in + "circle(" + num(p->n[0], var) + ", " + num(p->n[1], var) + ", " + num(p->n[2], "") + ")\n";
      break;
    case FLIP: o += in + "flip()\n"; break;
    case SLEEP:
      o += in + "sleep(" + (p->ms < 0 ? "0 - " + std::to_string(-p->ms) : std::to_string(p->ms)) +
           p->n[0].frac + ")\n";
      break;
    case KEY:
      o += in + "if (keydown(\"" + keys[p->key] + "\"))\n";
      text(o, p->body, ind + 1, var);
      o += in + "end\n";
      break;
    case TIMES:
    case BUSY:
      o += in + "var " + p->var + " = 0\n";
      o += in + "while (" + p->var + " < " + std::to_string(p->count) + ")\n";
      text(o, p->body, ind + 1, p->var);
      o += in + "  " + p->var + " = " + p->var + " + 1\n";
      o += in + "end\n";
      break;
    case SPAWN:
      o += in + "new_thread(bg, " + std::to_string(p->count) + ", " + std::to_string(p->ms) + ")\n";
      break;
    case FAIL: {
      static const char *how[] = {"zero = 1 / zero", "none()", "zero = arr[9]"};
      o += in + (p->count == 1 ? "nothing()" : how[p->count]) + "\n";
      break;
    }
    default: break;
    }
  }
}

// ---- meaning ------------------------------------------------------------------------
struct Px {
  uint32_t c[4];
  int n; // 5: anything
  uint64_t stamp = 0; // when it was last drawn on
  void must(uint32_t v) {
    c[0] = v;
    n = 1;
  }
  void may(uint32_t v) {
    for (int i = 0; i < n && i < 4; ++i) {
      if (c[i] == v) {
        return;
      }
    }
    if (n >= 4) {
      n = 5;
    } else {
      c[n++] = v;
    }
  }
  bool has(uint32_t v) const {
    if (n == 5) {
      return true;
    }
    for (int i = 0; i < n; ++i) {
      if (c[i] == v) {
        return true;
      }
    }
    return false;
  }
};

struct Stop {}; // the recorded history ends here
struct Failed {};

struct Meaning {
  const std::vector<sdl::Event> &hist;
  size_t pos = 0;
  bool screen = false;
  int w = 0, h = 0, windows = 0;
  std::vector<Px> canvas;
  uint32_t rgb = 0xffffff;
  uint64_t last = 0;       // time of the last event seen
  uint64_t pause = 0;      // ms asked for since
  int sleeps = 0;
  int ops = 0;
  int shows = 0;
  explicit Meaning(const std::vector<sdl::Event> &x) : hist(x) {}

  const sdl::Event &next(sdl::Kind k, const char *what) {
    if (pos >= hist.size() || hist[pos].kind == sdl::QUIT) {
      throw Stop();
    }
    const sdl::Event &e = hist[pos++];
    if (e.kind != k) {
      static const char *names[] = {"opens a window", "reads the keyboard", "shows the picture", "quits"};
      violation("order", "the runner %s where the script %s", names[e.kind], what);
    }
    if (e.at < last + pause) {
      violation("sleep", "the script goes on %llu ms after it asked to sleep for %llu ms",
                (unsigned long long)(e.at - last), (unsigned long long)pause);
    }
    last = e.at;
    pause = 0;
    return e;
  }
  Px *at(int64_t x, int64_t y) {
    if (!screen || x < 0 || y < 0 || x >= w || y >= h) {
      return nullptr;
    }
    return &canvas[size_t(y) * size_t(w) + size_t(x)];
  }
  void must(int64_t x, int64_t y) {
    if (Px *p = at(x, y)) {
      p->must(rgb);
      p->stamp = ++stamps;
    }
  }
  void may(int64_t x, int64_t y) {
    if (Px *p = at(x, y)) {
      p->may(rgb);
      p->stamp = ++stamps;
    }
  }
  // one of three neighbours has been drawn
  struct Near {
    Px *p[3];
    uint64_t stamp[3];
    uint32_t c;
    int at;
  };
  std::vector<Near> nears;
  uint64_t stamps = 0;
  int val(const Num &n, int i) { return n.base + n.step * i; }

  void line(int64_t x0, int64_t y0, int64_t x1, int64_t y1) {
    const int64_t dx = x1 - x0, dy = y1 - y0;
    const bool steep = std::llabs(dy) > std::llabs(dx);
    const int64_t len = steep ? std::llabs(dy) : std::llabs(dx);
    const int64_t sh = steep ? dx : dy;
    const int64_t dir = (steep ? dy : dx) < 0 ? -1 : 1;
    for (int64_t i = 0; i < len; ++i) {
      // lowest and highest whole position next to the line
      int64_t lo = i * sh >= 0 ? (i * sh) / len : -((-i * sh + len - 1) / len);
      const bool exact = sh == 0 || std::llabs(sh) == len;
      if (exact) {
        if (steep) {
          must(x0 + lo, y0 + dir * i);
        } else {
          must(x0 + dir * i, y0 + lo);
        }
        continue;
      }
      Near near;
      bool all = true;
      for (int64_t m = lo - 1; m <= lo + 1; ++m) {
        const int64_t x = steep ? x0 + m : x0 + dir * i, y = steep ? y0 + dir * i : y0 + m;
        may(x, y);
        Px *q = at(x, y);
        all = all && q;
        near.p[m - lo + 1] = q;
        near.stamp[m - lo + 1] = q ? q->stamp : 0;
      }
      if (all) {
        near.c = rgb;
        near.at = int(near.p[0] - canvas.data());
        nears.push_back(near);
      }
    }
  }
  void circle(int64_t xc, int64_t yc, int64_t r) {
    if (r <= 0) {
      if (r == 0) {
        may(xc, yc);
        may(xc - 1, yc);
        may(xc, yc - 1);
        may(xc, yc + 1);
        may(xc - 1, yc - 1);
        may(xc - 1, yc + 1);
      }
      return;
    }
    for (int y = 0; y < h; ++y) {
      for (int x = 0; x < w; ++x) {
        const double d = std::sqrt(double((x - xc) * (x - xc) + (y - yc) * (y - yc)));
        if (d <= double(r) - 1.5) {
          must(x, y);
        } else if (d <= double(r) + 1.5) {
          may(x, y);
        }
      }
    }
  }
  void show() {
    if (!screen) {
      return;
    }
    const sdl::Event &e = next(sdl::SHOW, "calls flip");
    ++shows;
    if (e.w != w * 3 || e.h != h * 3) {
      violation("picture", "the window is %d x %d for a canvas of %d x %d", e.w, e.h, w, h);
    }
    for (int y = 0; y < e.h; ++y) {
      for (int x = 0; x < e.w; ++x) {
        const uint32_t c = e.pixels[size_t(y) * size_t(e.w) + size_t(x)];
        const Px &p = canvas[size_t(y / 3) * size_t(w) + size_t(x / 3)];
        if (!p.has(c)) {
          violation("picture", "flip %d shows %06x at %d,%d, the canvas of %d x %d has %06x there", shows, c, x / 3,
                    y / 3, w, h, p.c[0]);
        }
        if (x % 3 || y % 3) {
          const uint32_t c0 = e.pixels[size_t(y / 3 * 3) * size_t(e.w) + size_t(x / 3 * 3)];
          if (c != c0) {
            violation("picture", "the pixel %d,%d is not of one colour", x / 3, y / 3);
          }
        }
      }
    }
    for (auto &n : nears) {
      bool same = true, drawn = false;
      for (int i = 0; i < 3; ++i) {
        const size_t k = size_t(n.p[i] - canvas.data());
        same = same && n.p[i]->stamp == n.stamp[i];
        drawn = drawn || e.pixels[k / size_t(w) * 3 * size_t(e.w) + k % size_t(w) * 3] == n.c;
      }
      if (same && !drawn) {
        violation("picture", "flip %d shows nothing of a line of colour %06x next to %d,%d", shows, n.c, n.at % w,
                  n.at / w);
      }
      if (same) {
        probe("line_points");
      }
    }
    nears.clear();
    // now it is known which
    for (int y = 0; y < h; ++y) {
      for (int x = 0; x < w; ++x) {
        canvas[size_t(y) * size_t(w) + size_t(x)].must(e.pixels[size_t(y * 3) * size_t(e.w) + size_t(x * 3)]);
      }
    }
  }
  void run(const std::vector<Op *> &b, int i) {
    for (Op *p : b) {
      if (++ops > 3000) {
        give_up("long script");
      }
      switch (p->k) {
      case VIDEO: {
        if (p->n[0].text || p->n[1].text) {
          break;
        }
        const int nw = p->n[0].base, nh = p->n[1].base;
        if (nw <= 0 || nh <= 0 || nw > 4096 || nh > 4096) {
          // refused; whether a window was tried does not matter
          if (pos < hist.size() && hist[pos].kind == sdl::WINDOW &&
              hist[pos].w == int(uint32_t(nw) * 3) && hist[pos].h == int(uint32_t(nh) * 3)) {
            const sdl::Event &e = next(sdl::WINDOW, "calls video");
            if (e.ok) {
              violation("window", "a window for %d x %d", nw, nh);
            }
            ++windows;
            screen = false;
          }
          break;
        }
        const sdl::Event &e = next(sdl::WINDOW, "calls video");
        const bool ok = e.ok && sdl::cfg.surface_fails_at != windows;
        ++windows;
        if (e.w != nw * 3 || e.h != nh * 3) {
          violation("window", "a window of %d x %d for %d x %d", e.w, e.h, nw, nh);
        }
        screen = ok;
        w = nw;
        h = nh;
        nears.clear();
        canvas.assign(size_t(w) * size_t(h), Px());
        for (auto &c : canvas) {
          c.must(0);
        }
        if (ok && p->guard) {
          run(p->body, i);
        }
        break;
      }
      case CLS:
        nears.clear();
        for (auto &c : canvas) {
          c.must(0);
        }
        break;
      case RGB: {
        const int r = p->n[0].base, g = p->n[1].base, bl = p->n[2].base;
        rgb = (uint32_t(r & 255) << 16) | (uint32_t(g & 255) << 8) | uint32_t(bl & 255);
        break;
      }
      case PLOT:
        if (!p->n[0].text && !p->n[1].text) {
          must(val(p->n[0], i), val(p->n[1], i));
        }
        break;
      case LINE: line(val(p->n[0], i), val(p->n[1], i), val(p->n[2], i), val(p->n[3], i)); break;
      case CIRCLE: circle(val(p->n[0], i), val(p->n[1], i), p->n[2].base); break;
      case FLIP: show(); break;
      case SLEEP:
        pause += uint64_t(std::max(0, p->ms));
        ++sleeps;
        break;
      case KEY: {
        const sdl::Event &e = next(sdl::KEYS, "asks for a key");
        if ((e.keys >> p->key) & 1) {
          run(p->body, i);
        }
        break;
      }
      case TIMES:
        for (int k = 0; k < p->count; ++k) {
          run(p->body, k);
        }
        break;
      case FAIL: throw Failed();
      default: break;
      }
    }
  }
};

// what the script can ask for at most
void budget(const std::vector<Op *> &b, uint64_t times, uint64_t &ms, uint64_t &instr) {
  for (Op *p : b) {
    instr += 30 * times;
    switch (p->k) {
    case SLEEP: ms += (uint64_t(std::max(0, p->ms)) + 3) * times; break;
    case TIMES: budget(p->body, times * uint64_t(p->count), ms, instr); break;
    case BUSY: instr += uint64_t(p->count) * 12 * times; break;
    case KEY:
    case VIDEO: budget(p->body, times, ms, instr); break;
    case SPAWN:
      ms += uint64_t(p->count) * uint64_t(p->ms + 3) * times;
      instr += uint64_t(p->count) * 30 * times;
      break;
    default: break;
    }
  }
}

// several scripts that sleep; each shows itself every time it goes on
void sleepers() {
  const int n = range(2, 4);
  static const int hours[] = {32768, 65535, 65536, 70000, 1000000, 1 << 24, 100000000};
  const int longest = chance(1, 6) ? hours[draw(7)] : 0;
  std::vector<std::vector<int>> naps;
  std::string src;
  uint64_t ms = 0;
  size_t shows = 0;
  for (int i = 0; i < n; ++i) {
    src += i + 1 < n ? format("function s%d()\n", i) : "function main()\n  video(2, 2)\n";
    if (i + 1 == n) {
      for (int k = 0; k + 1 < n; ++k) {
        src += format("  new_thread(s%d)\n", k);
      }
    }
    naps.emplace_back();
    const int steps = longest ? range(1, 3) : range(1, 6);
    for (int k = 0; k < steps; ++k) {
      int d = weighted({3, 2, 1}) == 0 ? int(draw(8)) : chance(1, 2) ? int(draw(60)) : int(draw(400));
      if (longest && chance(1, 2)) {
        d = chance(1, 2) ? longest : int(draw(uint32_t(longest)));
      }
      if (chance(1, 12)) {
        d = -d;
      }
      naps.back().push_back(d);
      ms += uint64_t(std::max(d, 0)) + 3;
      src += format("  setrgb(%d, %d, 7)\n  plot(0, 0)\n  flip()\n", i, k);
      src += d < 0 ? format("  sleep(0 - %d)\n", -d) : format("  sleep(%d)\n", d);
      if (chance(1, 6)) {
        // a long way to go, then a fresh slice
        src += format("  var z%d = %d\n  while (z%d > 0)\n    z%d = z%d - 1\n  end\n  sleep(0)\n", k, range(1, 600), k, k, k);
        ms += 3;
      }
    }
    src += format("  setrgb(%d, %d, 7)\n  plot(0, 0)\n  flip()\nend\n", i, steps);
    shows += size_t(steps) + 1;
  }
  disk::files()["g.ccml"].data = src;
  if (tracing()) {
    big_note(src);
  }
  sdl::Config c;
  switch (draw(3)) {
  case 0: c.start = draw(3); break;
  case 1: c.start = (1ull << 32) - 1 - draw(uint32_t(ms + 20)); break;
  default: c.start = (1ull << 31) - 1 - draw(uint32_t(ms + 20)); break;
  }
  if (chance(1, 3)) {
    c.stall = range(1, 20);
    c.stall_max = uint32_t(range(1, 50));
  }
  c.oversleep = chance(1, 3) ? range(1, 20) : 0;
  c.other_events = chance(1, 2) ? range(1, 60) : 0;
  c.seed = draw_seed();
  c.quit_at_poll = ms * 2 + 400;
  if (longest) {
    c.leap = uint32_t(longest / 20);
    c.quit_at_poll = 4000;
    probe("long_naps");
  }
  sdl::reset(c);
  const console::Result r = console::run(driver_sdl_main, {"nano", "g.ccml"});
  ev("status %d, %zu events, clock %llu", r.status, sdl::history.size(), (unsigned long long)sdl::now);
  std::vector<int> at(static_cast<size_t>(n), 0);
  size_t count = 0;
  uint64_t until = 0, until_round = 0; // no script goes on before, asked for in this round
  uint64_t since = 0;
  int who = 0;
  for (auto &e : sdl::history) {
    state(mix(uint64_t(e.kind), e.pixels.empty() ? e.at : mix(e.pixels[0], e.at)));
    if (e.kind != sdl::SHOW) {
      continue;
    }
    const int t = int(e.pixels[0] >> 16 & 255), k = int(e.pixels[0] >> 8 & 255);
    ev("script %d step %d at %llu", t, k, (unsigned long long)e.at);
    if (t >= n || k != at[size_t(t)]) {
      violation("order", "the window shows step %d of script %d", k, t);
    }
    at[size_t(t)] = k + 1;
    ++count;
    if (e.polls != until_round && e.at < until) {
      violation("sleep", "script %d goes on at %llu ms although script %d asked to sleep from %llu to %llu ms", t,
                (unsigned long long)e.at, who, (unsigned long long)since, (unsigned long long)until);
    }
    if (k < int(naps[size_t(t)].size())) {
      const uint64_t u = e.at + uint64_t(std::max(0, naps[size_t(t)][size_t(k)]));
      if (e.polls != until_round || u > until) {
        until = u;
        who = t;
        since = e.at;
      }
      until_round = e.polls;
    }
  }
  if (!sdl::quit_sent || r.status != 0) {
    violation("end", "the runner ends with status %d, the window is %s", r.status, sdl::quit_sent ? "closed" : "open");
  }
  if (count != shows) {
    violation("progress", "the scripts did not get to their end: %zu of %zu steps", count, shows);
  }
  if (sdl::delayed > ms) {
    violation("sleep", "the runner idles for %llu ms, the scripts asked for %llu ms at most",
              (unsigned long long)sdl::delayed, (unsigned long long)ms);
  }
  probe("sleepers");
  nontrivial();
}

// one script that is busy for days between its naps, and asks for keys that do not exist
void long_awake() {
  static const char *odd[] = {"esc", "escaped", "u", "upp", "Up", "", " ", "rightt", "le", "spac", "spaces", "downn",
                              "SPACE", "esca", "lef", "enter"};
  const int n = range(2, 5);
  std::vector<int> naps;
  std::string src = "function main()\n  video(2, 2)\n  var zero = 0\n";
  uint64_t ms = 0, instr = 0;
  for (int k = 0; k < n; ++k) {
    src += format("  setrgb(0, %d, 7)\n  plot(0, 0)\n  flip()\n", k);
    const int busy = range(100, 1500);
    instr += uint64_t(busy) * 12;
    src += format("  var z%d = %d\n  while (z%d > 0)\n    z%d = z%d - 1\n  end\n", k, busy, k, k, k);
    if (chance(1, 2)) {
      src += format("  if (keydown(\"%s\"))\n    zero = 1 / zero\n  end\n", odd[draw(16)]);
    }
    src += format("  setrgb(1, %d, 7)\n  plot(0, 0)\n  flip()\n", k);
    naps.push_back(int(draw(60)));
    ms += uint64_t(naps.back()) + 3;
    src += format("  sleep(%d)\n", naps.back());
  }
  src += format("  setrgb(0, %d, 7)\n  plot(0, 0)\n  flip()\nend\n", n);
  disk::files()["g.ccml"].data = src;
  if (tracing()) {
    big_note(src);
  }
  sdl::Config c;
  c.start = draw(1000);
  c.awake_leaps = true;
  c.key_change = range(20, 90);
  c.oversleep = chance(1, 3) ? range(1, 20) : 0;
  c.other_events = chance(1, 2) ? range(1, 60) : 0;
  c.seed = draw_seed();
  c.quit_at_poll = ms * 2 + instr / 200 + 100;
  sdl::reset(c);
  const console::Result r = console::run(driver_sdl_main, {"nano", "g.ccml"});
  ev("status %d, %zu events, clock %llu", r.status, sdl::history.size(), (unsigned long long)sdl::now);
  int at = 0;
  uint64_t until = 0;
  for (auto &e : sdl::history) {
    state(mix(uint64_t(e.kind), e.pixels.empty() ? e.at : mix(e.pixels[0], e.at)));
    if (e.kind != sdl::SHOW) {
      continue;
    }
    ev("%06x at %llu", e.pixels[0], (unsigned long long)e.at);
    if (e.pixels[0] != uint32_t((at & 1) << 16 | (at / 2) << 8 | 7)) {
      violation("order", "the window shows %06x at step %d", e.pixels[0], at);
    }
    if (e.at < until) {
      violation("sleep", "the script goes on at %llu ms although it sleeps until %llu ms",
                (unsigned long long)e.at, (unsigned long long)until);
    }
    if (at & 1) {
      until = e.at + uint64_t(naps[size_t(at / 2)]);
    }
    ++at;
  }
  if (!sdl::quit_sent || r.status != 0) {
    violation("end", "the runner ends with status %d, the window is %s", r.status, sdl::quit_sent ? "closed" : "open");
  }
  if (at != 2 * n + 1) {
    violation("progress", "the script did not get to its end: %d of %d steps", at, 2 * n + 1);
  }
  if (sdl::delayed > ms) {
    violation("sleep", "the runner idles for %llu ms, the script asked for %llu ms at most",
              (unsigned long long)sdl::delayed, (unsigned long long)ms);
  }
  probe("long_awake");
  nontrivial();
}

} // namespace

void c22() {
  heap_mode();
  disk::clear();
  console::reset();
  if (chance(1, 5)) {
    sleepers();
    return;
  }
  if (chance(1, 8)) {
    long_awake();
    return;
  }
  g_counter = 0;
  g_fails = chance(1, 6);
  int w = chance(1, 4) ? range(1, 4) : range(1, 40), h = chance(1, 4) ? range(1, 4) : range(1, 40);
  const bool large = chance(1, 40);
  if (large) {
    // as large as real ones, in one direction
    (chance(1, 2) ? w : h) = chance(1, 2) ? range(250, 400) : range(400, 1400);
    (w < h ? w : h) = range(1, 6);
  }
  std::vector<Op *> ops;
  if (!chance(1, 10)) {
    Op *v = new Op;
    v->k = VIDEO;
    v->n[0].base = w;
    v->n[1].base = h;
    ops.push_back(v);
  }
  block(ops, large ? range(1, 6) : range(2, 20), w, h, large ? 1 : 2, false, chance(1, 4));
  Op *fl = new Op;
  fl->k = FLIP;
  ops.push_back(fl);
  std::string src = "var zero = 0\nvar arr = [1]\nvar nothing = none\n"
                    "function bg(n, ms)\n  while (n > 0)\n    sleep(ms)\n    n = n - 1\n  end\nend\n";
  enum Case { OK, NO_ARGS, MISSING, SYNTAX, NO_MAIN, MAIN_ARGS, NO_INIT, BAD_GLOBAL };
  const Case cs = Case(weighted({40, 1, 1, 1, 1, 1, 1, 1}));
  src += cs == NO_MAIN ? "function other()\n" : cs == MAIN_ARGS ? "function main(q)\n" : "function main()\n";
  text(src, ops, 1, "");
  src += "end\n";
  if (cs == SYNTAX) {
    src += "function\n";
  }
  if (cs == BAD_GLOBAL) {
    static const char *bad[] = {"1 / zero", "arr[1]", "nothing[0]", "none + 1", "zero()", "len(1)", "-nothing"};
    const char *e = bad[draw(7)];
    src = chance(1, 2) ? src + "var bad = " + e + "\n"
                       : "function late()\n  return " + std::string(e) + "\nend\n" + src + "var bad = late()\n";
  }
  if (cs != MISSING) {
    disk::files()["g.ccml"].data = src;
  }
  if (tracing()) {
    big_note(src);
  }
  uint64_t ms = 0, instr = 0;
  budget(ops, 1, ms, instr);
  if (ms > 20000 || instr > 400000) {
    give_up("long script");
  }
  sdl::Config c;
  // the clock: just started, running for long, or about to pass 2^31 or 2^32 ms
  switch (weighted({3, 2, 2, 2})) {
  case 0: c.start = draw(3); break;
  case 1: c.start = draw(100000000); break;
  case 2: c.start = (1ull << 32) - 1 - draw(uint32_t(ms + 20)); break;
  default: c.start = (1ull << 31) - 1 - draw(uint32_t(ms + 20)); break;
  }
  c.init_fails = cs == NO_INIT;
  if (chance(1, 8)) {
    c.window_fails_at = int(draw(2));
  } else if (chance(1, 8)) {
    c.surface_fails_at = int(draw(2));
  }
  if (chance(1, 3)) {
    c.stall = range(1, 20);
    c.stall_max = chance(1, 4) ? 5000 : range(1, 50);
  }
  c.oversleep = chance(1, 3) ? range(1, 20) : 0;
  c.key_change = chance(2, 3) ? range(1, 60) : 0;
  c.other_events = chance(1, 2) ? range(1, 60) : 0;
  c.before_quit = chance(1, 2) ? int(draw(6)) : 0;
  c.seed = draw_seed();
  // enough for everything, or in the middle
  const uint64_t enough = ms * 2 + instr / 200 + 100;
  const bool early = chance(1, 3);
  c.quit_at_poll = early ? draw(uint32_t(std::min<uint64_t>(enough, 200))) : enough;
  sdl::reset(c);

  std::vector<std::string> args{"nano"};
  if (cs != NO_ARGS) {
    args.push_back("g.ccml");
  }
  ev("script %016llx case %d clock %llu", (unsigned long long)hash_str(src), int(cs), (unsigned long long)c.start);
  const console::Result r = console::run(driver_sdl_main, args);
  std::string what;
  if (!heap::intact(what)) {
    violation("memory", "%s", what.c_str());
  }
  ev("status %d, %zu events, clock %llu", r.status, sdl::history.size(), (unsigned long long)sdl::now);
  for (auto &e : sdl::history) {
    ev("%d at %llu keys %x pixels %016llx", int(e.kind), (unsigned long long)e.at, e.keys,
       (unsigned long long)hash_bytes(e.pixels.data(), e.pixels.size() * 4));
    state(mix(uint64_t(e.kind), hash_bytes(e.pixels.data(), e.pixels.size() * 4) + e.at));
  }
  if (cs != OK) {
    if (r.status == 0) {
      violation("status", "status 0 although the script could not be started (case %d)", int(cs));
    }
    if (!sdl::history.empty()) {
      violation("started", "something was shown or slept although the script could not be started (case %d)", int(cs));
    }
    probe("not_started");
    return;
  }
  Meaning m(sdl::history);
  bool failed = false, complete = true;
  try {
    m.run(ops, 0);
  } catch (Stop &) {
    complete = false;
  } catch (Failed &) {
    failed = true;
  }
  const size_t seen = m.pos;
  if (seen < sdl::history.size() && sdl::history[seen].kind != sdl::QUIT) {
    violation("order", "the runner goes on after the script %s", failed ? "failed" : "ended");
  }
  if (sdl::quit_sent) {
    if (sdl::history.back().kind != sdl::QUIT || sdl::history.size() > sdl::closing + 1) {
      violation("quit", "the script goes on after the window was closed");
    }
    if (!early && !complete) {
      violation("progress",
                "the script did not get to its end: %llu polls, %llu ms on the clock, %llu ms asked for",
                (unsigned long long)sdl::polls, (unsigned long long)(sdl::now - c.start),
                (unsigned long long)ms);
    }
    if (failed && !early) {
      violation("status", "the runner goes on after the script failed");
    }
    if (!failed && r.status != 0) {
      violation("status", "status %d after the window was closed", r.status);
    }
  } else {
    if (!failed) {
      violation("end", "the runner ends with status %d although nothing failed and the window is open", r.status);
    }
    if (r.status == 0) {
      violation("status", "status 0 after the script failed");
    }
  }
  // sleeping is not longer than asked for, up to the clock
  if (sdl::delayed > ms) {
    violation("sleep", "the runner idles for %llu ms, the script asked for %llu ms at most",
              (unsigned long long)sdl::delayed, (unsigned long long)ms);
  }
  probe(failed ? "script_failed" : complete ? "script_complete" : "script_cut");
  probe("shows", uint64_t(m.shows));
  probe("sleeps", uint64_t(m.sleeps));
  if (sdl::now >> 32 != c.start >> 32) {
    probe("clock_wrapped");
  }
  if (m.shows > 0) {
    nontrivial();
  }
}

} // namespace props
