// C09, C10, C11, C12: programs and sources on a disk that can fail
#include "props.h"
#include <algorithm>
#include <cerrno>
#include <climits>

namespace props {

using namespace sim;
using namespace world;
using lang::Knobs;

// what a program consists of, as text; empty if it holds nothing
std::string image(nano::program_t &p, bool calls) {
  std::string o;
  (void)calls;
  for (auto &s : p.syscalls()) {
    o += format("syscall %s\n", quote(std::string(s.name_.c_str(), s.name_.size()), 5000).c_str());
  }
  for (auto &f : p.functions()) {
    o += format("function %s %d %d\n", quote(std::string(f.name_.data(), f.name_.size()), 5000).c_str(),
                f.code_start_, f.code_end_);
    for (auto &a : f.args_) {
      o += format(" arg %s %d\n", quote(std::string(a.name_.data(), a.name_.size()), 5000).c_str(), a.offset_);
    }
    for (auto &a : f.locals_) {
      o += format(" local %s %d\n", quote(std::string(a.name_.data(), a.name_.size()), 5000).c_str(), a.offset_);
    }
  }
  if (p.size()) {
    o += "code ";
    for (size_t i = 0; i < p.size(); ++i) {
      static const char *hex = "0123456789abcdef";
      o += hex[p.data()[i] >> 4];
      o += hex[p.data()[i] & 15];
    }
    o += "\n";
  }
  for (auto &l : p.line_table()) {
    o += format("line %d %d %d\n", l.first, l.second.file, l.second.line);
  }
  for (auto &s : p.strings()) {
    o += format("string %s\n", quote(std::string(s.data(), s.size()), 100000).c_str());
  }
  return o;
}

std::string first_difference(const std::string &a, const std::string &b) {
  size_t i = 0, line = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i]) {
    if (a[i] == '\n') {
      line = i + 1;
    }
    ++i;
  }
  auto cut = [&](const std::string &x) {
    if (line >= x.size()) {
      return std::string("nothing");
    }
    std::string l = x.substr(line, x.find('\n', line) - line);
    if (i > line + 60) {
      l = "..." + l.substr(i - line - 60);
    }
    return l.substr(0, 160);
  };
  return cut(a) + " | " + cut(b);
}

namespace {

// program text that is never run by the generated part: long names and strings,
// many functions, arguments, locals and lines
std::string ballast(std::vector<std::string> &callable) {
  std::string o;
  switch (weighted({4, 2, 2, 1, 1, 2})) {
  case 0: break;
  case 1: {
    const int n = range(1, 300);
    for (int i = 0; i < n; ++i) {
      o += format("function fill%d(x)\n  return x + \"f%d\"\nend\n", i, i);
    }
    callable.push_back(format("fill%d", n - 1));
    break;
  }
  case 2: {
    const int n = range(1, 5);
    for (int i = 0; i < n; ++i) {
      static const int sizes[] = {1, 127, 128, 255, 256, 300, 511, 512, 1023, 1024, 1025, 4095, 4096, 4097, 9000, 70000};
      const int len = sizes[draw(16)];
      std::string s;
      for (int k = 0; k < len; ++k) {
        s += char(' ' + (k * 7 + i) % 90 == '"' ? 'q' : ' ' + (k * 7 + i) % 90);
      }
      o += format("function text%d(x)\n  return \"", i) + s + "\"\nend\n";
      callable.push_back(format("text%d", i));
    }
    break;
  }
  case 3: {
    const int len = range(200, 3000);
    const std::string n(size_t(len), 'n');
    o += "function long_" + n + "(" + n + "a)\n  var " + n + "b = " + n + "a\n  return " + n + "b\nend\n";
    callable.push_back("long_" + n);
    break;
  }
  case 4: {
    const int n = range(100, 400);
    o += "function wide(x)\n";
    for (int i = 0; i < n; ++i) {
      o += format("  var w%d = x + %d\n", i, i * 1000003);
    }
    o += format("  return w%d\nend\n", n - 1);
    callable.push_back("wide");
    break;
  }
  default: {
    o += "function bytes(x)\n  return \"\xc3\xa4\xff\x80 \t '\"\nend\n";
    callable.push_back("bytes");
    break;
  }
  }
  return o;
}

void draw_reading(size_t size) {
  // large files are not read byte by byte
  const uint32_t least = uint32_t(size / 1000);
  if (chance(2, 3)) {
    disk::f.chunk = least + 1 + draw(chance(1, 2) ? 8 : 600);
    disk::f.chunk_random = chance(1, 2);
    disk::f.chunk_seed = draw_seed();
  }
  switch (draw(4)) {
  case 0: disk::f.bufsize = -1; break;
  case 1: disk::f.bufsize = least ? 700 : 0; break;
  case 2: disk::f.bufsize = range(2, 64) + int(least); break;
  default: disk::f.bufsize = range(65, 2000); break;
  }
}

void check_handles(const char *when) {
  if (disk::open_handles() != 0) {
    violation("handle", "%d file handles are open %s", disk::open_handles(), when);
  }
}

bool save(nano::program_t &p, const char *path) {
  Sut s;
  return p.serial_save(path);
}

bool load(nano::program_t &p, const char *path) {
  Sut s;
  return p.serial_load(path);
}

struct Sample {
  Program *p = nullptr;
  Compiled *c = nullptr;
  std::vector<std::string> callable;
  std::string bytes; // as saved on a healthy disk
};

// a compiled program and its file
void make_sample(Sample &x, bool small) {
  Knobs k = lang::draw_knobs();
  k.shared = false;
  k.spawn = chance(1, 4);
  k.waits = chance(1, 4);
  k.wild = chance(1, 4) ? range(1, 3) : 0;
  k.members = chance(1, 4);
  k.dead_code = chance(1, 4);
  if (small) {
    k.budget = 60;
    k.entries = 1;
    k.helpers = range(0, 2);
  }
  x.p = lang::generate(k);
  const std::string extra = ballast(x.callable);
  x.p->files.back() += extra;
  x.p->text += extra;
  note_program(*x.p);
  x.c = must_compile(*x.p, chance(1, 2));
  if (!save(*x.c->prog, "reference.bin")) {
    violation("save", "saving on a healthy disk failed");
  }
  check_handles("after saving");
  x.bytes = disk::files()["reference.bin"].data;
}

} // namespace

// ---- C09 ---------------------------------------------------------------------------------
void c09() {
  heap_mode();
  disk::clear();
  Sample x;
  make_sample(x, false);
  const std::string was = image(*x.c->prog, true);
  // saved through a stream with another buffer
  draw_reading(x.bytes.size());
  const char *path = "program.bin";
  if (chance(1, 3)) {
    disk::files()[path].data = std::string(size_t(range(1, 100000)), 'o'); // replaces an older file
  }
  if (!save(*x.c->prog, path)) {
    violation("save", "saving on a healthy disk failed");
  }
  check_handles("after saving");
  if (disk::files()[path].data != x.bytes) {
    violation("round-trip", "saving twice gives different files");
  }
  if (image(*x.c->prog, true) != was) {
    violation("round-trip", "saving changed the program");
  }
  draw_reading(x.bytes.size());
  Compiled *c2 = new Compiled;
  {
    Sut s;
    c2->prog = new nano::program_t;
  }
  c2->ok = true;
  c2->globals = x.c->globals;
  if (chance(1, 3)) {
    // the object held another program before
    if (chance(1, 2)) {
      load(*c2->prog, "reference.bin");
    } else {
      Compiled *o = compile_text("function other(a)\n  var b = \"other\"\n  return b + a\nend\n", true);
      save(*o->prog, "other.bin");
      if (!load(*c2->prog, "other.bin")) {
        violation("load", "loading an intact file failed");
      }
    }
  }
  if (!load(*c2->prog, path)) {
    violation("load", "loading an intact file failed");
  }
  check_handles("after loading");
  const std::string now = image(*c2->prog, true);
  if (now != was) {
    violation("round-trip", "the loaded program differs: %s", first_difference(was, now).c_str());
  }
  if (!save(*c2->prog, "again.bin") || disk::files()["again.bin"].data != x.bytes) {
    violation("round-trip", "saving the loaded program gives another file");
  }
  if (chance(1, 2)) {
    // the loaded program does not need the file or the program it was made from
    disk::files().clear();
  }
  {
    Sut s;
    resolve(*c2->prog);
  }
  Plan plan;
  plan.oracle = draw_seed();
  plan.p_halt = chance(1, 2) ? 20 : 0;
  plan.p_junk = chance(1, 4) ? 20 : 0;
  Machine a(x.p, c2, &plan, "loaded");
  const bool ok = a.init();
  std::vector<std::pair<Func *, std::vector<int>>> started;
  if (ok) {
    for (Func *f : x.p->entries) {
      auto args = a.draw_args(f);
      started.push_back({f, args});
      a.start(f, args);
    }
    drive_partitioned(a, tier(20, 60), chance(1, 3), true, false);
    drain(a);
    a.final_check();
  }
  Machine b(x.p, x.c, &plan, "built");
  b.apply_schedule = false;
  if (b.init() != ok) {
    violation("runs-differ", "initialisation succeeded only once");
  }
  if (ok) {
    for (auto &s : started) {
      b.start(s.first, s.second);
    }
    drain(b);
    b.final_check();
  }
  compare_runs(a, b, true);
  // the parts outside of the generated program
  for (auto &n : x.callable) {
    std::string r[2];
    for (int i = 0; i < 2; ++i) {
      Machine &m = i ? b : a;
      nano::program_t &pr = i ? *x.c->prog : *c2->prog;
      nano::value_t arg(int32_t(41));
      const nano::value_t *argv[1] = {&arg};
      nano::value_t *ret = nullptr;
      nano::thread_error_t err = nano::thread_error_t::e_success;
      bool good = false;
      m.destroyed = true; // not part of the model
      m.vm->handlers = nano::handlers_t();
      {
        Sut s;
        std::string nm(n.c_str());
        const nano::function_t *f = pr.function_find(nm);
        good = f && m.vm->call_once(*f, 1, argv, ret, err);
      }
      r[i] = format("%d %d ", good, int(err)) +
             (good && ret->is_a<nano::val_type_string>() ? std::string(ret->string(), ret->strlen())
              : good && ret->is_a<nano::val_type_int>()  ? std::to_string(ret->v)
                                                         : std::string("?"));
      if (!good) {
        violation("runs-differ", "calling %s failed", n.substr(0, 40).c_str());
      }
    }
    if (r[0] != r[1]) {
      violation("runs-differ", "%s returns %s in the loaded program and %s in the built one",
                n.substr(0, 40).c_str(), quote(r[0]).c_str(), quote(r[1]).c_str());
    }
    probe("ballast_calls");
  }
  nontrivial();
}

// ---- C10 ---------------------------------------------------------------------------------
void c10() {
  heap_mode();
  disk::clear();
  Sample x;
  make_sample(x, true);
  const std::string was = image(*x.c->prog, true);
  const size_t mem = heap::live();
  const char *path = "program.bin";
  const long size = long(x.bytes.size());
  bool blocked = false;
  const int attempts = range(1, 4);
  for (int i = 0; i < attempts; ++i) {
    disk::f = disk::Faults();
    draw_reading(x.bytes.size());
    auto &file = disk::files()[path];
    file.dir = file.unreadable = false;
    if (chance(1, 3)) {
      disk::files().erase(path);
    } else if (chance(1, 3)) {
      file.data = std::string(size_t(range(0, 5000)), 'o');
    }
    const int kind = weighted({1, 2, 5, 4, 3, 1, 1});
    blocked = false;
    switch (kind) {
    case 0: break; // healthy
    case 1:
      disk::f.open_fail_at = 0;
      disk::f.open_errno = chance(1, 2) ? EMFILE : EACCES;
      break;
    case 2: // full from some byte on, often near a boundary
      disk::f.write_fail_at = chance(1, 3) ? long(draw(12)) : chance(1, 3) ? size - 1 - long(draw(uint32_t(std::min(12l, size)))) : long(draw(uint32_t(size)));
      disk::f.write_errno = ENOSPC;
      break;
    case 3: // one write fails, the next ones succeed
      disk::f.write_fail_at = long(draw(uint32_t(size)));
      disk::f.write_errno = EIO;
      disk::f.write_transient = true;
      break;
    case 4:
      disk::f.close_fail = true;
      disk::f.lose_on_close = chance(1, 2);
      break;
    case 5:
      disk::files()[path].dir = true;
      blocked = true;
      fault("target_is_directory");
      break;
    default:
      disk::files()[path].unreadable = true;
      blocked = true;
      fault("target_not_writable");
      break;
    }
    const bool ok = save(*x.c->prog, path);
    ev("attempt kind %d ok %d fired %d %d %d", kind, ok, disk::f.fired_open, disk::f.fired_write, disk::f.fired_close);
    state(mix(mix(uint64_t(kind), hash_str(disk::files()[path].data)), uint64_t(ok)));
    check_handles("after saving");
    const bool fired = disk::f.fired() || blocked;
    if (ok && fired) {
      violation("save", "saving reports success although %s failed (%zu of %ld bytes are on the device)",
                blocked || disk::f.fired_open ? "opening" : disk::f.fired_write ? "writing" : "closing",
                disk::files()[path].data.size(), size);
    }
    if (!ok && !fired) {
      violation("save", "saving on a healthy disk failed");
    }
    if (ok && disk::files()[path].data != x.bytes) {
      violation("save", "saving reports success but the file is not complete");
    }
    if (image(*x.c->prog, true) != was) {
      violation("save", "saving changed the program");
    }
    if (fired) {
      nontrivial();
    }
  }
  // the device recovers
  disk::f = disk::Faults();
  disk::files()[path].dir = disk::files()[path].unreadable = false;
  if (!save(*x.c->prog, path) || disk::files()[path].data != x.bytes) {
    violation("save", "saving again after the device recovered failed");
  }
  check_handles("after saving");
  if (heap::live() != mem) {
    violation("leak", "%zu blocks are live after saving, %zu before", heap::live(), mem);
  }
  {
    nano::program_t *q;
    {
      Sut s;
      q = new nano::program_t;
    }
    if (!load(*q, path) || image(*q, true) != was) {
      violation("save", "the saved file does not load back to the program");
    }
    Sut s;
    delete q;
  }
}

// ---- C11 ---------------------------------------------------------------------------------
namespace {

// offsets of the 32 bit fields of a program file that are counts or sizes
std::vector<size_t> count_fields(const std::string &d, const std::string &image_text) {
  (void)image_text;
  std::vector<size_t> o;
  size_t at = 4;
  auto get = [&](size_t p) { return p + 4 <= d.size() ? *(const int32_t *)(d.data() + p) : 0; };
  auto str = [&]() {
    o.push_back(at);
    at += 4 + size_t(get(at));
  };
  o.push_back(at);
  int n = get(at);
  at += 4;
  for (int i = 0; i < n && at < d.size(); ++i) {
    str();
  }
  o.push_back(at);
  n = get(at);
  at += 4;
  for (int i = 0; i < n && at < d.size(); ++i) {
    str();
    at += 8;
    for (int j = 0; j < 2; ++j) {
      o.push_back(at);
      const int m = get(at);
      at += 4;
      for (int l = 0; l < m && at < d.size(); ++l) {
        str();
        at += 4;
      }
    }
  }
  o.push_back(at);
  at += 4 + size_t(get(at));
  o.push_back(at);
  at += 4 + size_t(get(at)) * 12;
  o.push_back(at);
  return o;
}

} // namespace

void c11() {
  const bool fence = chance(1, 4);
  if (fence) {
    heap::configure(heap::FENCE, 1);
  } else {
    heap_mode();
  }
  disk::clear();
  Sample x;
  make_sample(x, true);
  const std::string was = image(*x.c->prog, true);
  const size_t mem = heap::live();
  nano::program_t *q;
  {
    Sut s;
    q = new nano::program_t;
  }
  if (chance(1, 2)) {
    // it held a program before
    if (!load(*q, "reference.bin")) {
      violation("load", "loading an intact file failed");
    }
  }
  const auto fields = count_fields(x.bytes, was);
  const int attempts = range(1, 6);
  const char *path = "program.bin";
  for (int i = 0; i < attempts; ++i) {
    const std::string before = image(*q, true);
    disk::f = disk::Faults();
    draw_reading(x.bytes.size());
    auto &file = disk::files()[path];
    file.dir = file.unreadable = false;
    std::string d = x.bytes;
    const uint32_t n = uint32_t(d.size());
    bool must_fail = false, may_differ = false;
    const int kind = weighted({5, 3, 4, 4, 2, 2, 2, 1, 1});
    switch (kind) {
    case 0: { // cut, as by a crash while it was written
      size_t at = chance(1, 3) && !fields.empty() ? fields[draw(uint32_t(fields.size()))] + draw(5) : draw(n);
      if (at >= n) {
        at = n - 1;
      }
      d.resize(at);
      must_fail = true;
      fault("file_cut");
      break;
    }
    case 1: // the device fails while it is read
      disk::f.read_fail_at = long(draw(n));
      disk::f.read_transient = chance(1, 3);
      must_fail = !disk::f.read_transient;
      break;
    case 2: { // damaged count or size
      const size_t at = fields[draw(uint32_t(fields.size()))];
      int32_t v;
      memcpy(&v, &d[at], 4);
      static const int32_t odd[] = {-1, INT_MIN, INT_MAX, 0x10000000, 0x7ffffff0, 1 << 20, -2, 65536};
      const int32_t w = chance(1, 2) ? odd[draw(8)] : v + range(-3, 3);
      memcpy(&d[at], &w, 4);
      may_differ = true;
      fault("count_damaged");
      break;
    }
    case 3: { // bit and byte errors
      const int m = range(1, 8);
      for (int j = 0; j < m; ++j) {
        const size_t at = draw(n);
        if (chance(1, 2)) {
          d[at] = char(d[at] ^ (1 << draw(8)));
        } else {
          d[at] = char(draw(256));
        }
      }
      may_differ = true;
      fault("bytes_damaged");
      break;
    }
    case 4: { // a lost sector
      const size_t at = chance(1, 4) ? 0 : draw(n), len = chance(1, 4) ? 512 : 1 + draw(600);
      const int with = int(draw(4));
      for (size_t j = at; j < at + len && j < d.size(); ++j) {
        d[j] = with == 0 ? 0 : with == 1 ? char(-1) : chance(1, 2) ? 0 : char(j);
      }
      may_differ = true;
      fault("sector_lost");
      break;
    }
    case 5: { // a piece is missing or there twice
      const size_t at = draw(n), len = 1 + draw(64);
      if (chance(1, 2)) {
        d.erase(at, len);
        fault("piece_missing");
      } else {
        d.insert(at, d.substr(at, len));
        fault("piece_twice");
      }
      may_differ = true;
      break;
    }
    case 6: { // not a program at all
      d = std::string();
      const int m = range(0, 200);
      for (int j = 0; j < m; ++j) {
        d += char(draw(256));
      }
      if (chance(1, 2) && d.size() > 4) {
        d.replace(0, 4, x.bytes.substr(0, 4));
        may_differ = true;
      } else {
        must_fail = d.substr(0, 4) != x.bytes.substr(0, 4);
        may_differ = !must_fail;
      }
      fault("garbage_file");
      break;
    }
    case 7:
      if (chance(1, 2)) {
        file.dir = true;
        fault("path_is_directory");
      } else {
        file.unreadable = true;
        fault("file_unreadable");
      }
      must_fail = true;
      break;
    default:
      disk::f.open_fail_at = 0;
      disk::f.open_errno = EMFILE;
      must_fail = true;
      break;
    }
    file.data = d;
    if (d.substr(0, 4) != x.bytes.substr(0, 4)) {
      must_fail = true; // without its signature it is not a program file
    }
    if (d == x.bytes) {
      may_differ = false;
    }
    const size_t base = heap::live_bytes();
    heap::reset_peak();
    const size_t budget = 64 * d.size() + (64 << 10);
    bool ok = false, threw = false;
    try {
      ok = load(*q, path);
    } catch (std::bad_alloc &) {
      threw = true;
    }
    const size_t peak = heap::peak_bytes() > base ? heap::peak_bytes() - base : 0;
    ev("attempt kind %d ok %d size %zu", kind, ok, d.size());
    state(mix(mix(uint64_t(kind), hash_str(d)), uint64_t(disk::f.read_fail_at)));
    if (threw || peak > budget || heap::max_request() > budget) {
      violation("memory", "loading a file of %zu bytes asked for %zu bytes", d.size(),
                std::max(peak, heap::max_request()));
    }
    std::string what;
    if (!heap::intact(what)) {
      violation("overrun", "%s", what.c_str());
    }
    check_handles("after loading");
    if (ok && must_fail) {
      violation("load", "loading a damaged file reports success (%s, %zu of %u bytes)",
                disk::f.fired_read ? "read error" : "cut or not a program", d.size(), n);
    }
    const std::string now = image(*q, true);
    if (!ok && !must_fail && !may_differ && !disk::f.fired()) {
      violation("load", "loading an intact file failed");
    }
    if (ok && !may_differ && now != was) {
      violation("load", "the loaded program differs: %s", first_difference(was, now).c_str());
    }
    if (!ok && !now.empty() && now != before) {
      violation("load", "the program holds a part of the damaged file after the failure: %s",
                first_difference("", now).c_str());
    }
    if (!ok) {
      nontrivial();
    }
    // once the fault is gone
    if (chance(1, 2) || i + 1 == attempts) {
      disk::f = disk::Faults();
      draw_reading(x.bytes.size());
      file.dir = file.unreadable = false;
      file.data = x.bytes;
      if (!load(*q, path) || image(*q, true) != was) {
        violation("load", "loading an intact file after a damaged one failed");
      }
      check_handles("after loading");
    }
  }
  {
    Sut s;
    delete q;
  }
  if (heap::live() != mem) {
    violation("leak", "%zu blocks are live after the program is gone, %zu before", heap::live(), mem);
  }
}

// ---- C12 ---------------------------------------------------------------------------------
namespace {

struct Node {
  std::string path;              // as stored
  std::string dir;               // with the trailing slash, or empty
  std::vector<std::pair<int, std::string>> imports; // file and spelling
  std::vector<int> import_line;
  std::string text;
  int err_line = 0;
  int value = 0;
};

std::string norm(const std::string &s) {
  std::string o = s;
  for (auto &c : o) {
    c = c == '\\' ? '/' : char(tolower(c));
  }
  return o;
}

std::string respell(const std::string &s) {
  std::string o = s;
  const int how = int(draw(4));
  for (auto &c : o) {
    if (how & 1) {
      c = c == '/' && chance(1, 2) ? '\\' : c;
    }
    if (how & 2) {
      c = c >= 'a' && c <= 'z' && chance(1, 2) ? char(c - 32) : c;
    }
  }
  return o;
}

} // namespace

void c12() {
  heap_mode();
  disk::clear();
  // a disk that ignores case and direction of slashes lets every spelling through
  disk::insensitive = chance(1, 2);
  const bool loose = disk::insensitive;
  const bool many = chance(1, 400);
  const int n = many ? range(40, 280) : chance(1, 30) ? range(8, 24) : range(1, 7);
  static const char *roots[] = {"", "src/", "/abs/dir/", "a b/", "Src\\"};
  std::string root = roots[draw(loose ? 5 : 4)];
  if (chance(1, 12)) {
    // deep down, or with long names
    const int deep = range(1, 12);
    for (int i = 0; i < deep; ++i) {
      root += std::string(size_t(range(1, 40)), char('a' + i)) + "/";
    }
  }
  std::vector<Node> f(static_cast<size_t>(n));
  for (int i = 0; i < n; ++i) {
    static const char *dirs[] = {"", "", "lib/", "lib/sub/", "lib2/"};
    static const char *names[] = {"m", "mod", "module", "mod.ule", "mo",
                                  // letters with look-alikes that differ in the bit of their case
                                  "m[", "m{", "m@", "m`", "m^", "m~"};
    Node &x = f[size_t(i)];
    // similar names: one can start with another
    const std::string d = i == 0 ? "" : dirs[draw(5)];
    std::string base = i == 0 ? "main" : std::string(names[draw(chance(1, 6) ? 11 : 5)]);
    std::string name;
    for (int k = 0;; ++k) {
      name = base + (k ? std::to_string(k) : "") + (chance(1, 4) ? "" : ".nano");
      bool dup = false;
      for (int j = 0; j < i; ++j) {
        dup |= norm(f[size_t(j)].path) == norm(root + d + name);
      }
      if (!dup) {
        break;
      }
    }
    x.dir = root + d;
    x.path = root + d + name;
    x.value = many ? i * 3 + 1 : 1 << i;
  }
  // who imports whom; only downwards in the tree, cycles within a directory
  for (int i = 0; i < n; ++i) {
    Node &x = f[size_t(i)];
    for (int j = 0; j < n; ++j) {
      const Node &y = f[size_t(j)];
      if (y.path.compare(0, x.dir.size(), x.dir) != 0 || !(many ? chance(1, uint32_t(n / 3)) || (i == 0 && chance(9, 10)) : chance(1, 2))) {
        continue;
      }
      const int times = chance(1, 5) ? 2 : 1;
      for (int k = 0; k < times; ++k) {
        std::string sp = y.path.substr(x.dir.size());
        if (loose && chance(1, 2)) {
          sp = respell(sp);
        }
        x.imports.push_back({j, sp});
      }
    }
    if (x.imports.size() > 1 && chance(1, 2)) {
      std::swap(x.imports[0], x.imports[draw(uint32_t(x.imports.size()))]);
    }
  }
  // asked for: the first file and sometimes others
  std::vector<int> asked = {0};
  for (int j = 0; j < n; ++j) {
    if (chance(1, 6)) {
      asked.push_back(j);
    }
  }
  // reachable
  std::set<int> reach(asked.begin(), asked.end());
  for (std::vector<int> todo = asked; !todo.empty();) {
    const int i = todo.back();
    todo.pop_back();
    for (auto &m : f[size_t(i)].imports) {
      if (reach.insert(m.first).second) {
        todo.push_back(m.first);
      }
    }
  }
  if (!loose) {
    // on a strict disk a file is spelled as stored until it has been loaded;
    // a second import in the same file may then use any spelling
    for (auto &x : f) {
      for (size_t k = 0; k < x.imports.size(); ++k) {
        bool earlier = false;
        for (size_t l = 0; l < k; ++l) {
          earlier |= x.imports[l].first == x.imports[k].first;
        }
        if (earlier || &f[size_t(x.imports[k].first)] == &x) {
          x.imports[k].second = respell(x.imports[k].second);
        }
      }
    }
  }
  const char *eol = chance(1, 3) ? "\r\n" : "\n";
  int sum = 0;
  for (int i = 0; i < n; ++i) {
    Node &x = f[size_t(i)];
    std::string &t = x.text;
    int line = 1;
    auto emit = [&](const std::string &s) {
      t += s + eol;
      ++line;
    };
    size_t k = 0;
    auto import = [&]() {
      x.import_line.push_back(line);
      emit("import \"" + x.imports[k++].second + "\"");
    };
    while (k < x.imports.size() && chance(3, 4)) {
      import();
    }
    const int pad = chance(1, 40) ? range(3000, 6000) : chance(1, 3) ? range(1, 300) : range(0, 2);
    for (int j = 0; j < pad; ++j) {
      emit(format("# %d \xe4\xff remark ", j));
    }
    if (chance(1, 2)) {
      // any bytes can be in a remark
      std::string r = "# ";
      const int m = range(1, 20);
      for (int j = 0; j < m; ++j) {
        const char b = char(1 + draw(255));
        r += b == '\n' ? ' ' : b;
      }
      emit(r);
    }
    emit(format("var glob%d = %d", i, x.value));
    emit(format("function val%d()", i));
    emit(format("  return glob%d", i));
    emit("end");
    while (k < x.imports.size() && chance(1, 2)) {
      import();
    }
    emit(format("function bad%d(a)", i));
    x.err_line = line;
    emit("  return 1 / a");
    emit("end");
    if (i == 0) {
      std::string s = "0";
      for (int j : reach) {
        s += format(" + val%d()", j);
        sum += f[size_t(j)].value;
      }
      emit("function main()");
      emit("  return " + s);
      emit("end");
    }
    while (k < x.imports.size()) {
      import();
    }
    if (chance(1, 12)) {
      t += "# the last line\r of it";
    } else if (chance(1, 3)) {
      t.resize(t.size() - strlen(eol)); // no newline at the end
    } else if (chance(1, 6)) {
      // ends with some byte
      t += "#";
      t += char(chance(1, 3) ? 26 : 1 + draw(255));
    } else if (chance(1, 6)) {
      // as long as a number of blocks, give or take one byte
      static const size_t block[] = {512, 1024, 4096, 8192};
      const size_t b = block[draw(4)];
      const size_t want = (t.size() / b + 1) * b + draw(3) - 1;
      if (want > t.size() + 1) {
        t += "#" + std::string(want - t.size() - 1, ' ');
      }
    }
    disk::files()[disk::key(x.path)].data = t;
    ev("file %d %s %016llx", i, x.path.c_str(), (unsigned long long)hash_str(t));
    note("file %d %s imports %zu", i, x.path.c_str(), x.imports.size());
    if (tracing()) {
      big_note(t);
    }
  }
  nano::source_manager_t *src;
  {
    Sut s;
    src = new nano::source_manager_t;
  }
  auto find = [&](const std::string &p) {
    for (int i = 0; i < n; ++i) {
      if (norm(f[size_t(i)].path) == norm(p)) {
        return i;
      }
    }
    return -1;
  };
  // what the manager holds: known files, once, all bytes
  auto check_sources = [&](const char *when, std::set<int> &have) {
    have.clear();
    for (int i = 0; i < src->count(); ++i) {
      const std::string p(src->get_source(i).file_path().c_str());
      const int j = find(p);
      if (j < 0 || !reach.count(j)) {
        violation("sources", "%s: %s was loaded but nobody asked for it", when, p.c_str());
      }
      if (!have.insert(j).second) {
        violation("sources", "%s: %s was loaded twice", when, p.c_str());
      }
      const std::string &t = f[size_t(j)].text;
      if (strncmp(src->get_source(i).data(), t.c_str(), t.size() + 1) != 0) {
        violation("sources", "%s: the text of %s is not what is stored", when, p.c_str());
      }
    }
  };
  std::set<int> have;
  const int tries = range(0, 3);
  bool same_nano = chance(1, 3);
  nano::program_t *prog = nullptr;
  nano::nano_t *nn = nullptr;
  bool good = false;
  for (int a = 0; a <= tries; ++a) {
    const bool last = a == tries;
    disk::f = disk::Faults();
    draw_reading(2000);
    int victim = -1;
    bool transient = false;
    const std::vector<int> rv(reach.begin(), reach.end());
    disk::File stored;
    if (!last) {
      victim = rv[draw(uint32_t(rv.size()))];
      disk::File &v = disk::files()[disk::key(f[size_t(victim)].path)];
      stored = v;
      switch (weighted({2, 1, 2, 1, 2, 2})) {
      case 0:
        disk::files().erase(disk::key(f[size_t(victim)].path));
        fault("file_missing");
        break;
      case 1:
        v.data.clear();
        fault("file_empty");
        break;
      case 2:
        v.unreadable = true;
        fault("file_unreadable");
        break;
      case 3:
        v.dir = true;
        fault("path_is_directory");
        break;
      case 4: // every read from some point on; hits the first file that is as long
        victim = -2;
        disk::f.read_fail_at = long(draw(chance(1, 2) ? 40 : 2000));
        disk::f.read_transient = transient = chance(1, 3);
        break;
      default:
        victim = -2;
        transient = true;
        disk::f.open_fail_at = int(draw(uint32_t(rv.size())));
        disk::f.open_errno = EMFILE;
        break;
      }
    }
    std::set<int> before;
    check_sources("before", before);
    const int count0 = src->count();
    // the files that were asked for
    bool loaded = true;
    int opens0 = disk::opens();
    for (size_t q = 0; q < asked.size() && loaded; ++q) {
      const int cnt = src->count();
      const int j = asked[q];
      std::string sp = f[size_t(j)].path;
      if ((loose || have.count(j) || before.count(j)) && chance(1, 3)) {
        sp = respell(sp);
      }
      const int fired = disk::f.fired_read + disk::f.fired_open;
      {
        Sut s;
        std::string z(sp.c_str());
        loaded = src->load(z.c_str());
      }
      check_handles("after loading a source");
      const bool hit = disk::f.fired_read + disk::f.fired_open > fired;
      if (!loaded) {
        if (j != victim && !hit) {
          violation("sources", "loading %s failed on a healthy disk", sp.c_str());
        }
        if (src->count() != cnt) {
          violation("sources", "a failed load changed the set of sources");
        }
      } else if (j == victim && !before.count(j) && !have.count(j)) {
        violation("sources", "loading %s succeeded although it cannot be read", sp.c_str());
      }
      check_sources("after loading", have);
    }
    if (!loaded) {
      if (victim >= 0) {
        disk::files()[disk::key(f[size_t(victim)].path)] = stored;
      }
      nontrivial();
      continue;
    }
    // build
    if (!same_nano || !nn) {
      Sut s;
      delete nn;
      delete prog;
      prog = new nano::program_t;
      nn = new nano::nano_t(*prog);
    } else {
      Sut s;
      nn->reset();
    }
    nano::error_t err;
    std::string etext;
    {
      Sut s;
      register_syscalls(*nn);
      good = nn->build(*src, err);
    }
    etext = err.error.c_str();
    check_handles("after building");
    ev("attempt %d victim %d built %d sources %d", a, victim, good, src->count());
    check_sources("after building", have);
    {
      uint64_t h = mix(hash_str(f[0].text), uint64_t(victim + 10));
      for (int j : have) {
        h = mix(h, uint64_t(j));
      }
      state(h);
    }
    // every file is opened at most once per attempt
    {
      std::map<std::string, int> seen;
      const auto &names = disk::opened();
      for (size_t q = size_t(opens0); q < names.size(); ++q) {
        if (++seen[norm(names[q])] > 1) {
          violation("sources", "%s was opened twice", names[q].c_str());
        }
      }
    }
    if (src->count() < count0) {
      violation("sources", "sources disappeared");
    }
    const bool fired = disk::f.fired_read + disk::f.fired_open > 0;
    if (!good) {
      const bool hit = (victim >= 0 && !before.count(victim)) || fired;
      if (!hit) {
        violation("sources", "the build failed on a healthy disk: file %d line %d: %s", err.line.file,
                  err.line.line, etext.c_str());
      }
      // the error names the import of a file that is not there
      bool named = false;
      if (err.line.file >= 0 && err.line.file < src->count()) {
        const int j = find(std::string(src->get_source(err.line.file).file_path().c_str()));
        const Node &x = f[size_t(j)];
        for (size_t q = 0; q < x.imports.size(); ++q) {
          named |= x.import_line[q] == err.line.line && !have.count(x.imports[q].first) &&
                   (victim < 0 || x.imports[q].first == victim);
        }
      }
      if (!named || etext.empty()) {
        violation("sources", "the failed import is reported at file %d line %d: %s", err.line.file,
                  err.line.line, etext.c_str());
      }
      if (victim >= 0 && have.count(victim)) {
        violation("sources", "a source that failed to load is kept");
      }
      nontrivial();
      probe("failed_imports");
    } else {
      if (victim >= 0 && !before.count(victim)) {
        violation("sources", "the build succeeded although %s cannot be read",
                  f[size_t(victim)].path.c_str());
      }
      if (fired && !transient) {
        violation("sources", "the build succeeded although a file could not be read");
      }
      if (have != reach) {
        violation("sources", "%zu files are loaded instead of %zu", have.size(), reach.size());
      }
    }
    if (victim >= 0) {
      disk::files()[disk::key(f[size_t(victim)].path)] = stored;
    }
    {
      Sut s;
      std::string().swap(err.error);
    }
    if (good) {
      break;
    }
  }
  if (!good) {
    violation("sources", "the build failed after the faults were gone");
  }
  {
    Sut s;
    resolve(*prog);
  }
  nano::vm_t *vm;
  {
    Sut s;
    vm = new nano::vm_t(*prog);
    if (!vm->call_init()) {
      Host h;
      violation("behaviour", "initialisation failed");
    }
  }
  nano::value_t *ret = nullptr;
  nano::thread_error_t e = nano::thread_error_t::e_success;
  bool ok;
  {
    Sut s;
    ok = vm->call_once(*prog->function_find(std::string("main")), 0, nullptr, ret, e);
  }
  if (!ok || !ret->is_a<nano::val_type_int>() || ret->v != sum) {
    violation("behaviour", "main returns %d instead of %d", ok && ret ? ret->v : -1, sum);
  }
  // run-time errors are reported in the right file
  for (int i = 0; i < src->count(); ++i) {
    const int j = find(std::string(src->get_source(i).file_path().c_str()));
    Sut s;
    nano::value_t zero(int32_t(0));
    const nano::value_t *argv[1] = {&zero};
    nano::thread_t *t = vm->new_thread(*prog->function_find(format("bad%d", j)), 1, argv);
    t->resume(1000);
    const nano::line_t l = t->get_source_line();
    Host h;
    if (!t->has_error() || l.file != i || l.line != f[size_t(j)].err_line) {
      violation("behaviour", "the error in %s line %d is reported at file %d line %d",
                f[size_t(j)].path.c_str(), f[size_t(j)].err_line, l.file, l.line);
    }
    // and every line of the text can be shown
    std::vector<std::string> lines(1);
    for (char c : f[size_t(j)].text) {
      lines.back() += c;
      if (c == '\n') {
        lines.emplace_back();
      }
    }
    const int first = lines.size() > 400 ? range(0, int(lines.size()) - 400) : 0;
    for (int k = first; k < int(lines.size()) && k < first + 400; ++k) {
      std::string shown;
      {
        Sut u;
        shown = src->get_line(nano::line_t{i, k + 1});
      }
      auto strip = [](std::string x) {
        while (!x.empty() && (x.back() == '\n' || x.back() == '\r')) {
          x.pop_back();
        }
        return x;
      };
      if (strip(shown) != strip(lines[size_t(k)])) {
        violation("lines", "line %d of %s is shown as %s, it is %s", k + 1, f[size_t(j)].path.c_str(),
                  quote(shown).c_str(), quote(lines[size_t(k)]).c_str());
      }
    }
  }
  Sut s;
  delete vm;
  delete nn;
  delete prog;
  delete src;
}

} // namespace props
