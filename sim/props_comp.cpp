// C23: the command line compiler as a process with a simulated disk
#include "console.h"
#include "props.h"
#include "../lib_compiler/disassembler.h"
#include <cerrno>
#include <cstring>

int comp_main(int, char **) __attribute__((weak));

namespace props {

using namespace sim;

namespace {

// what a dump of the program looks like on a healthy disk
struct Expected {
  bool ok = false;
  std::string bin, dis, ast;
};

Expected expect(const std::vector<std::string> &names, bool optimize) {
  Expected e;
  nano::program_t prog;
  nano::source_manager_t src;
  Sut s;
  for (auto &n : names) {
    if (!src.load(n.c_str())) {
      return e;
    }
  }
  nano::nano_t n(prog);
  n.optimize = optimize;
  nano::error_t err;
  if (!n.build(src, err)) {
    return e;
  }
  FILE *a = fopen("expected.ast", "wb");
  n.ast().dump(a);
  fclose(a);
  FILE *d = fopen("expected.dis", "wb");
  nano::disassembler_t dis;
  dis.dump(prog, d);
  fclose(d);
  e.ok = true;
  Host h;
  e.bin.assign((const char *)prog.data(), prog.size());
  e.ast = disk::files()["expected.ast"].data;
  e.dis = disk::files()["expected.dis"].data;
  disk::files().erase("expected.ast");
  disk::files().erase("expected.dis");
  return e;
}

} // namespace

void c23() {
  heap_mode();
  disk::clear();
  console::reset();
  lang::Knobs k = lang::draw_knobs();
  k.host_calls = false;
  k.spawn = k.waits = false;
  k.bad_argc = 0;
  k.files = 1;
  k.dead_code = chance(1, 2);
  k.foldy = int(draw(4));
  k.constfold = chance(1, 2);
  k.budget = range(5, 120);
  lang::Program *p = lang::generate(k);
  // the tool knows no external functions
  std::string src = p->text;
  for (int i = 0; i < lang::SYS_COUNT; ++i) {
    if (src.find(std::string(lang::sys_info[i].name) + "(") == std::string::npos || lang::sys_info[i].nargs < 0) {
      continue;
    }
    std::string args;
    for (int n = 0; n < lang::sys_info[i].nargs; ++n) {
      args += format("%sq%d", n ? ", " : "", n);
    }
    src += format("function %s(%s)\n  return %s\nend\n", lang::sys_info[i].name, args.c_str(),
                  lang::sys_info[i].nargs ? "q0" : "7");
  }
  for (const char *v : {"va", "pick"}) {
    if (src.find(std::string(v) + "(") != std::string::npos) {
      // called with any number of arguments: through a variable
      src = format("var %s = 0\n", v) + src;
    }
  }
  enum Case { OK, NO_ARGS, MISSING, UNREADABLE, IO_ERROR, SYNTAX };
  const Case cs = Case(weighted({12, 1, 1, 1, 1, 2}));
  std::string name = "prog.nano";
  if (chance(1, 6)) {
    name = std::string(size_t(range(1, 1500)), 'n') + ".nano";
    probe("long_name");
  }
  std::vector<std::string> names{name};
  disk::files()[name].data = src;
  if (chance(1, 4)) {
    names.push_back("second.nano");
    disk::files()["second.nano"].data = "function extra(a)\n  return a + 1\nend\n";
  }
  if (cs == SYNTAX) {
    static const char *how[] = {"function\n", "var = 3\n", "function zz()\n  return unknown_name\nend\n", "end\n"};
    disk::files()[names.back()].data += how[draw(4)];
  }
  if (tracing()) {
    big_note(disk::files()[name].data);
  }
  bool want[3] = {false, false, false}; // bin, dis, ast
  bool optimize = true;
  std::vector<std::string> opts;
  for (int i = 0; i < 3; ++i) {
    if (chance(2, 3)) {
      want[i] = true;
      static const char *flag[] = {"-b", "-d", "-a"};
      opts.push_back(flag[i]);
    }
  }
  if (chance(1, 2)) {
    optimize = false;
    opts.insert(opts.begin() + long(draw(uint32_t(opts.size() + 1))), "-n");
  }
  std::vector<std::string> args{"nano_comp", name};
  for (auto &o : opts) {
    args.push_back(o);
  }
  if (names.size() > 1) {
    args.insert(args.begin() + 2 + long(draw(uint32_t(opts.size() + 1))), names[1]);
  }
  Expected e = expect(names, optimize);
  if (cs == OK && !e.ok) {
    give_up("does not build");
  }
  static const char *ext[] = {".bin", ".dis", ".ast"};
  // something old is in the way
  for (int i = 0; i < 3; ++i) {
    if (chance(1, 4)) {
      disk::files()[name + ext[i]].data = std::string(size_t(draw(5000)), 'o');
    }
  }
  const std::map<std::string, disk::File> before = disk::files();
  switch (cs) {
  case NO_ARGS: args.resize(1); break;
  case MISSING: disk::files().erase(names.back()); break;
  case UNREADABLE: disk::files()[names.back()].unreadable = true; break;
  case IO_ERROR: disk::f.read_fail_at = long(draw(uint32_t(disk::files()[names.back()].data.size()))); break;
  default: break;
  }
  int bad = -1;
  if (cs == OK && chance(1, 2)) {
    switch (weighted({4, 2, 1, 2, 1})) {
    case 0:
      disk::f.write_fail_at = long(draw(chance(1, 2) ? 100 : uint32_t(e.dis.size() + e.ast.size() + 10)));
      disk::f.write_errno = chance(1, 2) ? ENOSPC : EIO;
      disk::f.write_transient = chance(1, 4);
      break;
    case 1:
      bad = int(draw(3));
      if (chance(1, 2)) {
        disk::files()[name + ext[bad]].dir = true;
      } else {
        disk::files()[name + ext[bad]].unreadable = true;
      }
      break;
    case 2:
      disk::f.close_fail = true;
      disk::f.lose_on_close = chance(1, 2);
      break;
    case 3:
      // the last bytes
      disk::f.write_fail_at = long(e.bin.empty() ? 0 : e.bin.size() - 1 - draw(uint32_t(std::min<size_t>(e.bin.size(), 3))));
      break;
    default: disk::f.open_fail_at = int(names.size()) + int(draw(3)); break;
    }
  }
  static const int bufs[] = {-1, 0, 16, 4096};
  disk::f.bufsize = bufs[draw(4)];
  ev("source %016llx case %d options %d%d%d%d", (unsigned long long)hash_str(src), int(cs), want[0], want[1],
     want[2], optimize);
  const console::Result r = console::run(comp_main, args);
  ev("status %d", r.status);
  std::string what;
  if (!heap::intact(what)) {
    violation("memory", "%s", what.c_str());
  }
  if (cs != OK) {
    if (r.status == 0) {
      violation("status", "status 0 although there is nothing to compile (case %d)", int(cs));
    }
    probe("not_compiled");
    nontrivial();
    return;
  }
  bool complete = true;
  std::string missing;
  const std::string *exp[] = {&e.bin, &e.dis, &e.ast};
  for (int i = 0; i < 3; ++i) {
    if (!want[i]) {
      continue;
    }
    auto it = disk::files().find(name + ext[i]);
    if (it == disk::files().end() || it->second.dir || it->second.unreadable || it->second.data != *exp[i]) {
      complete = false;
      missing = ext[i];
      if (tracing() && it != disk::files().end()) {
        note("%s has %zu bytes, %zu expected", ext[i], it->second.data.size(), exp[i]->size());
      }
    }
  }
  const bool fired = disk::f.fired() || (bad >= 0 && want[bad]);
  if (r.status == 0 && !complete) {
    violation("output", "status 0 but the %s file is not what was built", missing.c_str());
  }
  if (r.status != 0 && !fired) {
    violation("status", "status %d although nothing failed", r.status);
  }
  // sources stay as they were
  for (auto &n : names) {
    auto it = disk::files().find(n);
    auto b = before.find(n);
    if (it == disk::files().end() || it->second.data != b->second.data) {
      violation("source", "the source %s was changed", n.substr(0, 40).c_str());
    }
  }
  probe(r.status == 0 ? "compiled" : "failed");
  probe("optimise", optimize ? 1 : 0);
  state(mix(hash_str(e.bin), uint64_t(r.status)));
  if (want[0] || want[1] || want[2]) {
    nontrivial();
  }
}

} // namespace props
