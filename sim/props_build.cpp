// C13, C14, C15: the compiler as a component of a long-lived host
#include "props.h"
#include <algorithm>
#include <cerrno>
#include <climits>
#include "../lib_compiler/disassembler.h"

namespace props {

using namespace sim;
using namespace world;
using lang::Knobs;

namespace {

// ---- damaging texts ------------------------------------------------------------------------
std::vector<std::string> split_tokens(const std::string &t) {
  std::vector<std::string> o;
  size_t i = 0;
  auto word = [](char c) { return isalnum((unsigned char)c) || c == '_' || c == '.'; };
  while (i < t.size()) {
    size_t j = i + 1;
    if (word(t[i])) {
      while (j < t.size() && word(t[j])) {
        ++j;
      }
    } else if (t[i] == '"') {
      while (j < t.size() && t[j] != '"' && t[j] != '\n') {
        ++j;
      }
      if (j < t.size() && t[j] == '"') {
        ++j;
      }
    } else if (t[i] == ' ') {
      while (j < t.size() && t[j] == ' ') {
        ++j;
      }
    }
    o.push_back(t.substr(i, j - i));
    i = j;
  }
  return o;
}

std::string join(const std::vector<std::string> &v) {
  std::string o;
  for (auto &s : v) {
    o += s;
  }
  return o;
}

const char *stray[] = {"end", "var", "function", "if", "else", "while", "for", "to", "return", "const",
                       "import", "none", "not", "and", "or", "(", ")", "[", "]", ",", "=", "==", "+", "-",
                       "*", "/", "%", "<", "<=", ".", "1", "0", "1.5", "\"s\"", "x", "g0", "h0", "out",
                       "\n", "#", "length", "K0", "t0", "import \"missing\"", "var v", "const c = 1",
                       "end\nend", "x = ", "x[", "x.y = 1", "f(", "2147483648", "99999999999999999999",
                       "1.", ".5", "+= 1", "\"open", "a.b.c", "new_thread(t0)", "-", "not not 1", "\r", "\t"};
const int NSTRAY = int(sizeof(stray) / sizeof(stray[0]));

std::string mutate_tokens(const std::string &t, int n) {
  auto v = split_tokens(t);
  for (int i = 0; i < n && !v.empty(); ++i) {
    const size_t at = draw(uint32_t(v.size()));
    switch (draw(6)) {
    case 0: v.erase(v.begin() + long(at)); break;
    case 1: v.insert(v.begin() + long(at), v[at]); break;
    case 2: std::swap(v[at], v[draw(uint32_t(v.size()))]); break;
    case 3: v[at] = stray[draw(uint32_t(NSTRAY))]; break;
    case 4: v.insert(v.begin() + long(at), std::string(" ") + stray[draw(uint32_t(NSTRAY))] + " "); break;
    default: v[at] = v[draw(uint32_t(v.size()))]; break;
    }
  }
  return join(v);
}

// changes that often leave a valid program: a word, number or operator becomes another one
std::string mutate_mild(const std::string &t, int n) {
  auto v = split_tokens(t);
  static const char *kw[] = {"end", "var", "function", "if", "else", "while", "for", "to", "return", "const", "import"};
  static const char *ops[] = {"+", "-", "*", "/", "%", "<", ">", "and", "or"};
  static const char *nums[] = {"0", "1", "2", "3", "64", "65536", "2147483647", "1.5", "none", "\"q\"", "\"\""};
  auto word = [&](const std::string &s) {
    if (!isalpha((unsigned char)s[0])) {
      return false;
    }
    for (auto *k : kw) {
      if (s == k) {
        return false;
      }
    }
    return true;
  };
  auto op = [&](const std::string &s) {
    for (auto *o : ops) {
      if (s == o) {
        return true;
      }
    }
    return false;
  };
  for (int i = 0; i < n && !v.empty(); ++i) {
    const size_t at0 = draw(uint32_t(v.size()));
    for (size_t d = 0; d < v.size(); ++d) {
      auto &s = v[(at0 + d) % v.size()];
      if (op(s)) {
        s = ops[draw(9)];
        break;
      }
      if (isdigit((unsigned char)s[0])) {
        s = nums[draw(11)];
        break;
      }
      if (word(s)) {
        const size_t b0 = draw(uint32_t(v.size()));
        for (size_t e = 0; e < v.size(); ++e) {
          if (word(v[(b0 + e) % v.size()])) {
            s = v[(b0 + e) % v.size()];
            break;
          }
        }
        break;
      }
    }
  }
  return join(v);
}

std::string mutate_lines(const std::string &t, int n) {
  std::vector<std::string> v;
  size_t i = 0;
  while (i < t.size()) {
    size_t e = t.find('\n', i);
    e = e == std::string::npos ? t.size() : e + 1;
    v.push_back(t.substr(i, e - i));
    i = e;
  }
  for (int k = 0; k < n && !v.empty(); ++k) {
    const size_t at = draw(uint32_t(v.size()));
    switch (draw(4)) {
    case 0: v.erase(v.begin() + long(at)); break;
    case 1: v.insert(v.begin() + long(draw(uint32_t(v.size() + 1))), v[at]); break;
    case 2: std::swap(v[at], v[draw(uint32_t(v.size()))]); break;
    default: v[at] = v[draw(uint32_t(v.size()))]; break;
    }
  }
  return join(v);
}

std::string damage_bytes(std::string t) {
  switch (draw(6)) {
  case 0: // torn
    t.resize(draw(uint32_t(t.size() + 1)));
    fault("source_torn");
    break;
  case 1: { // bit errors
    const int n = range(1, 10);
    for (int i = 0; i < n && !t.empty(); ++i) {
      const size_t at = draw(uint32_t(t.size()));
      t[at] = char(t[at] ^ (1 << draw(8)));
    }
    fault("source_bits");
    break;
  }
  case 2: { // a lost block
    const size_t at = draw(uint32_t(t.size() + 1)), len = 1 + draw(64);
    t.erase(at, len);
    fault("source_block_lost");
    break;
  }
  case 3: { // a block twice or at another place
    const size_t at = draw(uint32_t(t.size() + 1)), len = 1 + draw(64);
    const std::string b = at < t.size() ? t.substr(at, len) : "";
    t.insert(draw(uint32_t(t.size() + 1)), b);
    fault("source_block_twice");
    break;
  }
  case 4: { // overwritten
    const int n = range(1, 20);
    size_t at = draw(uint32_t(t.size() + 1));
    for (int i = 0; i < n && at < t.size(); ++i, ++at) {
      t[at] = char(draw(256));
    }
    fault("source_overwritten");
    break;
  }
  default: // line ends
    for (size_t i = 0; i < t.size(); ++i) {
      if (t[i] == '\n' && chance(1, 3)) {
        t[i] = chance(1, 2) ? ' ' : '\r';
      }
    }
    fault("source_line_ends");
    break;
  }
  return t;
}

std::string soup() {
  std::string o;
  const int n = range(1, 60);
  for (int i = 0; i < n; ++i) {
    o += stray[draw(uint32_t(NSTRAY))];
    o += chance(1, 5) ? "\n" : " ";
  }
  return o;
}

std::string repeat(const std::string &s, int n) {
  std::string o;
  for (int i = 0; i < n; ++i) {
    o += s;
  }
  return o;
}

// unusual sizes
std::string monster() {
  static const int ns[] = {50, 300, 2000, 20000, 200000};
  const int n = ns[weighted({4, 4, 3, 2, 1})];
  const std::string F = "function main()\n", E = "end\n";
  switch (draw(24)) {
  case 16: return F + "  var q\n  return q" + repeat("[0]", n) + "\n" + E;
  case 17: return F + "  return main" + repeat("()", n) + "\n" + E;
  case 18: return F + "  return main" + repeat("()[0]", n) + "\n" + E;
  case 19: return F + "  main(1" + repeat(", 1", n) + ")\n" + E;
  case 20: return repeat("var a\n", n % 3000) + F + E;
  case 21: return "var z = " + repeat("1 - ", n) + "1\n" + F + E;
  case 22: return "const z = " + repeat("(", n) + "1" + repeat(" * 3)", n) + "\n" + F + "  return z\n" + E;
  case 23: return F + "  var i\n" + repeat("  for (i = 0 to 1)\n", n) + repeat("  end\n", n) + E;
  case 0: return F + "  return " + repeat("(", n) + "1" + repeat(")", n) + "\n" + E;
  case 1: return F + "  return " + repeat("(", n);
  case 2: return F + "  return 1" + repeat(" + 1", n) + "\n" + E;
  case 3: return F + "  return " + repeat("not ", n) + "1\n" + E;
  case 4: return F + "  return " + repeat("-", n) + "1\n" + E;
  case 5: return F + repeat("if (1)\n", n) + repeat("end\n", n) + E;
  case 6: return F + repeat("while (0)\n", n);
  case 7: return F + "  var a = " + repeat("[", n) + "1" + repeat("]", n) + "\n" + E;
  case 8: return F + "  var a = [1" + repeat(", 1", n) + "]\n  return a\n" + E;
  case 9: return "function f(" + repeat("a, ", n) + "b)\n" + E;
  case 10: return F + "  var " + std::string(size_t(n), 'v') + " = 1\n  return " + std::string(size_t(n), 'w') + "\n" + E;
  case 11: return F + "  return \"" + std::string(size_t(n), 's') + "\"\n" + E;
  case 12: return F + "  return " + std::string(size_t(n), '9') + "\n" + E;
  case 13: return F + "  return 1." + std::string(size_t(n), '0') + "\n" + E;
  case 14: return F + "  return main" + repeat("(main", n) + "()" + repeat(")", n) + "\n" + E;
  default: return repeat("# " + std::string(40, 'c') + "\n", n) + F + repeat("  var q\n", 1) + "  return " + repeat("q[", n) + "0" + repeat("]", n) + "\n" + E;
  }
}

// well formed texts in which every name can be a constant, a variable, a function or unknown
struct Grammar {
  std::string o;
  int budget = 0;
  bool tidy = false;              // names are used for what they are
  bool runs = false;              // the text is to be run: no strings, output can be traced
  std::vector<std::string> known; // names declared so far, more or less
  std::vector<std::string> vars;
  std::vector<std::pair<std::string, int>> funcs;
  int serial = 0;

  std::string any() {
    static const char *n[] = {"a", "b", "c", "f", "g", "K", "out", "len", "new_array", "abs"};
    if (runs && !vars.empty() && chance(7, 8)) {
      return vars[draw(uint32_t(vars.size()))];
    }
    if (!known.empty() && (tidy || !chance(1, 6))) {
      return known[draw(uint32_t(known.size()))];
    }
    return tidy ? "len" : n[draw(10)];
  }
  std::string var() {
    return tidy && !vars.empty() ? vars[draw(uint32_t(vars.size()))] : any();
  }
  std::string lit() {
    static const char *n[] = {"0", "1", "2", "-1", "7", "2147483647", "2147483648", "-2147483648",
                              "65536", "1.5", "0.0", "\"s\"", "\"\"", "none", "4294967295", "3"};
    if (runs) {
      static const int w[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 13, 14, 15};
      return n[w[draw(chance(3, 4) ? 8 : 14)]];
    }
    return n[draw(tidy && chance(3, 4) ? 8 : 16)];
  }
  std::string op() {
    static const char *ops[] = {"+", "-", "*", "/", "%", "<", ">", "<=", ">=", "==", "and", "or"};
    return ops[draw(12)];
  }
  std::string args(int n, int d) {
    std::string s;
    for (int i = 0; i < n; ++i) {
      s += (i ? ", " : "") + expr(d);
    }
    return s;
  }
  std::string call(int d) {
    if (tidy && !funcs.empty()) {
      const auto f = funcs[draw(uint32_t(funcs.size()))];
      return f.first + "(" + args(f.second, d) + ")";
    }
    return any() + "(" + args(int(draw(3)), d) + ")";
  }
  std::string expr(int d) {
    if (--budget < 0 || d <= 0) {
      return chance(1, 2) ? lit() : any();
    }
    const uint32_t odd = runs && chance(5, 6) ? 0 : 2;
    switch (weighted({3, 4, 8, 3, 2, 2, odd, odd, odd ? 2u : 1u, odd})) {
    case 0: return lit();
    case 1: return any();
    case 2: return expr(d - 1) + " " + op() + " " + expr(d - 1);
    case 3: return lit() + " " + op() + " " + lit();
    case 4: return "(" + expr(d - 1) + ")";
    case 5: return (chance(1, 2) ? "-" : "not ") + expr(d - 1);
    case 6: return var() + "." + (chance(1, 2) ? "length" : "x");
    case 7: return var() + "[" + expr(d - 1) + "]";
    case 8: return call(d - 1);
    default: return "[" + args(range(1, 3), d - 1) + "]";
    }
  }
  void block(int d) {
    const size_t mark = known.size(), vmark = vars.size();
    const int n = range(0, 4);
    for (int i = 0; i < n; ++i) {
      stmt(d);
    }
    known.resize(std::min(known.size(), mark));
    vars.resize(std::min(vars.size(), vmark));
  }
  void stmt(int d) {
    switch (weighted({5, 4, 2, 2, 2, d > 0 ? 3 : 0, d > 0 ? 2 : 0, d > 0 ? 3 : 0, 2, 1})) {
    case 0: {
      const std::string v = tidy ? format("v%d", serial++) : std::string(1, char('p' + draw(8)));
      o += "var " + v + (chance(1, 5) ? "" : " = " + expr(3)) + "\n";
      known.push_back(v);
      vars.push_back(v);
      break;
    }
    case 1: o += var() + " = " + expr(3) + "\n"; break;
    case 2: o += var() + " " + "+-*/"[draw(4)] + "= " + expr(2) + "\n"; break;
    case 3: o += var() + "[" + expr(2) + "] = " + expr(2) + "\n"; break;
    case 4: o += (runs ? "out(" + expr(2) + ")" : call(2)) + "\n"; break;
    case 5:
      o += "if (" + expr(3) + ")\n";
      block(d - 1);
      if (chance(1, 2)) {
        o += "else\n";
        block(d - 1);
      }
      o += "end\n";
      break;
    case 6:
      o += "while (" + expr(3) + ")\n";
      block(d - 1);
      o += "end\n";
      break;
    case 7:
      o += "for (" + var() + " = " + expr(2) + " to " + expr(2) + ")\n";
      block(d - 1);
      o += "end\n";
      break;
    case 8: o += "return" + (chance(1, 5) ? "" : " " + expr(3)) + "\n"; break;
    default: o += var() + ".x = " + expr(2) + "\n"; break;
    }
  }
  std::string text() {
    tidy = runs || chance(2, 3);
    const int n = range(1, 8);
    if (tidy) {
      // something for every kind of name
      o += "var v = 3\n";
      known.push_back("v");
      vars.push_back("v");
      funcs.push_back({"len", 1});
      funcs.push_back({"out", runs ? 1 : int(draw(3))});
    }
    for (int i = 0; i < n; ++i) {
      budget = range(2, 25);
      static const char *names[] = {"a", "b", "c", "f", "g", "K", "h", "k", "m"};
      const std::string v = tidy ? format("n%d", serial++) : std::string(names[draw(9)]);
      switch (weighted({3, 3, 4})) {
      case 0:
        o += "const " + v + " = " + (tidy || chance(1, 3) ? lit() : expr(3)) + "\n";
        known.push_back(v);
        break;
      case 1:
        o += "var " + v + (chance(1, 6) ? "" : " = " + expr(3)) + "\n";
        known.push_back(v);
        vars.push_back(v);
        break;
      default: {
        o += "function " + v + "(";
        const int nargs = int(draw(3));
        const size_t mark = known.size(), vmark = vars.size();
        known.push_back(v);
        funcs.push_back({v, nargs});
        for (int k = 0; k < nargs; ++k) {
          const std::string x = format("x%d", k);
          o += (k ? ", " : "") + x;
          known.push_back(x);
          vars.push_back(x);
        }
        o += ")\n";
        block(2);
        o += "end\n";
        known.resize(mark);
        known.push_back(v);
        vars.resize(vmark);
        break;
      }
      }
    }
    return o;
  }
};

struct Verdict {
  bool ok = false;
  std::string error;
  int file = 0, line = 0;
  std::string bytes;
  std::string globals;
  std::string text() const {
    return ok ? "program:\n" + globals + bytes : format("error %d:%d %s", file, line, error.c_str());
  }
};

void take(Verdict &v, bool ok, nano::error_t &err, nano::program_t &prog) {
  v.ok = ok;
  if (!ok) {
    v.error = err.error.c_str();
    v.file = err.line.file;
    v.line = err.line.line;
  } else {
    {
      Sut s;
      if (!prog.serial_save("out.bin")) {
        Host h;
        violation("save", "saving on a healthy disk failed");
      }
    }
    v.bytes = disk::files()["out.bin"].data;
    if (!err.error.empty()) {
      v.globals += format("yet the diagnostic '%s'\n", err.error.c_str());
    }
    for (auto &g : prog.globals()) {
      v.globals += format("%s %d\n", g.name_.c_str(), g.offset_);
    }
  }
}

bool load_all(nano::source_manager_t &src, const std::vector<std::string> &files) {
  bool ok = true;
  for (auto &t : files) {
    ok = src.load_from_string(t.c_str()) && ok;
  }
  return ok;
}

} // namespace

std::string grammar_text(std::vector<std::pair<std::string, int>> &funcs) {
  Grammar g;
  g.runs = true;
  const std::string t = g.text();
  for (auto &f : g.funcs) {
    if (f.first != "len" && f.first != "out") {
      funcs.push_back(f);
    }
  }
  return t;
}

// ---- C13 ---------------------------------------------------------------------------------
void c13() {
  heap::configure(heap::LIFO, 1);
  disk::clear();
  Knobs k = lang::draw_knobs();
  k.shared = false;
  k.dead_code = chance(1, 3);
  k.members = chance(1, 4);
  k.budget = 120;
  k.late = chance(1, 2);
  k.reuse = chance(2, 3) ? 2 : 0;
  Program *p = lang::generate(k);
  note_program(*p);
  std::vector<std::string> files = p->files;
  const bool damaged = chance(1, 2);
  if (damaged && chance(1, 3)) {
    for (auto &t : files) {
      t = Grammar().text();
    }
    if (tracing()) {
      big_note("changed to:\n" + files[0]);
    }
  } else if (damaged) {
    auto &t = files[draw(uint32_t(files.size()))];
    t = chance(1, 3) ? mutate_lines(t, range(1, 3)) : mutate_tokens(t, range(1, 3));
    if (tracing()) {
      big_note("changed to:\n" + t);
    }
    for (auto &x : files) {
      if (x.empty() || x[0] == 0) {
        return;
      }
    }
  }
  const bool optimize = chance(1, 2);
  Verdict ref;
  Compiled *c = nullptr;
  {
    Sut s;
    nano::program_t prog;
    nano::source_manager_t src;
    load_all(src, files);
    nano::nano_t n(prog);
    n.optimize = optimize;
    register_syscalls(n);
    nano::error_t err;
    const bool ok = n.build(src, err);
    Host h;
    take(ref, ok, err, prog);
  }
  ev("reference %d %s", ref.ok, ref.ok ? "" : ref.error.c_str());
  state(hash_str(ref.text()));
  if (!damaged && !ref.ok && ref.error != "constant divide by zero") {
    violation("build", "a valid program does not build: %s", ref.text().c_str());
  }
  probe(ref.ok ? "accepted" : "rejected");
  const int variations = range(2, 5);
  std::vector<nano::nano_t *> idle;          // compilers that are kept
  std::vector<nano::program_t *> idle_prog;
  std::vector<void *> ballast;               // shifts the addresses of what follows
  Plan plan;
  plan.oracle = draw_seed();
  Machine *running = nullptr;
  for (int i = 0; i < variations; ++i) {
    static const heap::mode_t modes[] = {heap::LIFO, heap::FIFO, heap::RANDOM, heap::RANDOM};
    heap::configure(modes[draw(4)], draw_seed());
    const int holes = range(0, 40);
    for (int b = 0; b < holes; ++b) {
      Sut s;
      void *q = operator new(size_t(8 + 8 * (b * 7 % 40)));
      Host h;
      if (chance(1, 2)) {
        ballast.push_back(q);
      } else {
        Sut s2;
        operator delete(q);
      }
    }
    nano::program_t *prog;
    nano::nano_t *n;
    nano::source_manager_t *src;
    {
      Sut s;
      prog = new nano::program_t;
      n = new nano::nano_t(*prog);
      src = new nano::source_manager_t;
      n->optimize = optimize;
    }
    nano::error_t err;
    if (chance(1, 3)) {
      Sut s;
      err.error = "left over from somewhere else";
      err.line = nano::line_t{3, 77};
    }
    // the history of this compiler object
    const int prior = range(0, 2);
    for (int b = 0; b < prior; ++b) {
      std::string other;
      switch (draw(6)) {
      case 4: other = Grammar().text(); break;
      case 5: other = "function one()\n  return two\nend\n"; break;
      case 0: other = p->text; break;
      case 1: other = mutate_tokens(p->text, range(1, 4)); break;
      case 2: other = "const K0 = 99\nvar g0 = \"other\"\nfunction h0(q)\n  return q + K0\nend\nfunction t0()\n  return h0(g0)\nend\n"; break;
      default: other = "function x(\n"; break;
      }
      if (other.empty()) {
        continue;
      }
      const bool bare = chance(1, 4); // no external functions
      Sut s;
      nano::source_manager_t osrc;
      osrc.load_from_string(other.c_str());
      if (!bare) {
        register_syscalls(*n);
      }
      const bool o = n->build(osrc, err);
      n->reset();
      Host h;
      probe(o ? "prior_builds" : "prior_failed_builds");
    }
    {
      Sut s;
      register_syscalls(*n);
      load_all(*src, files);
    }
    // something else happens before the build
    if (chance(1, 3)) {
      Sut s;
      nano::program_t *op = new nano::program_t;
      nano::nano_t *on = new nano::nano_t(*op);
      register_syscalls(*on);
      Host h;
      idle.push_back(on);
      idle_prog.push_back(op);
    }
    if (chance(1, 3)) {
      Compiled *o = compile_text(mutate_tokens(p->text, range(1, 2)), !optimize);
      delete o;
    }
    if (running && !running->live().empty()) {
      running->round(uint32_t(range(1, 200)));
    }
    bool ok;
    {
      Sut s;
      ok = n->build(*src, err);
    }
    Verdict v;
    take(v, ok, err, *prog);
    if (v.text() != ref.text()) {
      violation("build-differs", "the same sources give another result: %s | %s",
                quote(v.ok ? "a program" : v.text(), 200).c_str(),
                quote(ref.ok ? "a program" : ref.text(), 200).c_str());
    }
    {
      Sut s;
      std::string().swap(err.error);
    }
    if (ok && !damaged && !running) {
      // keep it and let it run
      c = new Compiled;
      c->prog = prog;
      c->ok = true;
      {
        Sut s;
        resolve(*prog);
      }
      for (auto &id : prog->globals()) {
        c->globals[std::string(id.name_.c_str())] = id.offset_;
      }
      running = new Machine(p, c, &plan, "running");
      running->apply_schedule = false;
      if (running->init()) {
        start_entries(*running, true);
      }
      Sut s;
      delete n;
      delete src;
    } else {
      Sut s;
      if (i & 1) {
        delete n;
        delete src;
        delete prog;
      } else {
        delete src;
        delete n;
        delete prog;
      }
    }
    probe("rebuilds");
  }
  if (running) {
    // names mean what the nesting of the text says
    drain(*running);
    running->final_check();
    delete running;
  }
  {
    Sut s;
    for (auto *n : idle) {
      delete n;
    }
    for (auto *q : idle_prog) {
      delete q;
    }
    for (auto *q : ballast) {
      operator delete(q);
    }
  }
  std::string what;
  if (!heap::intact(what)) {
    violation("memory", "%s", what.c_str());
  }
  nontrivial();
}

// ---- C14 ---------------------------------------------------------------------------------
namespace {

void c14_out(nano::thread_t &t, int32_t nargs) {
  for (int i = 0; i < nargs; ++i) {
    t.get_stack().pop();
  }
  t.get_stack().push_int(nargs);
}

} // namespace

void c14() {
  const bool fence = chance(1, 3);
  if (fence) {
    heap::configure(heap::FENCE, 1);
  } else {
    heap_mode();
  }
  disk::clear();
  std::string text;
  bool grammar = false;
  const int kind = weighted({5, 5, 3, 2, 2, 8, 14});
  if (kind <= 2 || kind == 5) {
    Knobs k = lang::draw_knobs();
    k.shared = chance(1, 2);
    k.members = chance(1, 3);
    k.dead_code = chance(1, 3);
    k.zero_div = chance(1, 3);
    k.files = 1;
    k.budget = 80;
    Program *p = lang::generate(k);
    text = p->text;
    switch (kind) {
    case 0: text = damage_bytes(text); break;
    case 1: text = mutate_tokens(text, range(1, chance(1, 2) ? 6 : 1)); break;
    case 5: text = mutate_mild(text, range(0, 4)); break;
    default: text = mutate_lines(text, range(1, chance(1, 2) ? 6 : 1)); break;
    }
    if (kind != 5 && chance(1, 4)) {
      text = damage_bytes(text);
    }
  } else if (kind == 3) {
    text = soup();
  } else if (kind == 6) {
    text = Grammar().text();
    grammar = true;
  } else {
    text = monster();
  }
  if (tracing()) {
    big_note(text.substr(0, 3000));
  }
  ev("text %016llx", (unsigned long long)hash_str(text));
  disk::files()["source"].data = text;
  const bool optimize = chance(1, 2);
  nano::program_t *prog;
  nano::source_manager_t *src;
  nano::nano_t *n;
  nano::error_t err;
  bool loaded, ok = false;
  {
    Sut s;
    prog = new nano::program_t;
    src = new nano::source_manager_t;
    n = new nano::nano_t(*prog);
    n->optimize = optimize;
    register_syscalls(*n);
    loaded = src->load("source");
  }
  if (!loaded) {
    if (!text.empty()) {
      violation("verdict", "a source of %zu bytes is not loaded", text.size());
    }
    return;
  }
  {
    Sut s;
    ok = n->build(*src, err);
  }
  std::string what;
  if (!heap::intact(what)) {
    violation("memory", "%s", what.c_str());
  }
  // what the compiler sees ends at the first zero byte
  const size_t lines = 1 + size_t(std::count(text.c_str(), text.c_str() + strlen(text.c_str()), '\n'));
  if (!ok) {
    const std::string e = err.error.c_str();
    ev("rejected %d %s", err.line.line, e.c_str());
    state(mix(hash_str(e), uint64_t(err.line.line)));
    probe(grammar ? "rejected_grammar" : "rejected");
    if (e.empty()) {
      violation("verdict", "the source is rejected without a message");
    }
    // the end of a text that ends in a comment counts as one more line
    if (err.line.file != 0 || err.line.line < 1 || size_t(err.line.line) > lines + 1) {
      violation("verdict", "an error is reported at file %d line %d of a text of %zu lines: %s",
                err.line.file, err.line.line, lines, quote(e).c_str());
    }
    // the message can be shown with its line
    Sut s;
    std::string l = src->get_line(err.line);
  } else {
    ev("accepted %zu", prog->size());
    state(hash_bytes(prog->data(), prog->size()));
    probe(grammar ? "accepted_grammar" : "accepted");
    // listings
    FILE *fd = tmpfile();
    if (!fd) {
      give_up("tmpfile");
    }
    {
      Sut s;
      n->ast().dump(fd);
      nano::disassembler_t d;
      d.dump(*prog, fd);
    }
    fclose(fd);
    {
      Sut s;
      ok = prog->serial_save("out.bin");
    }
    if (!ok) {
      violation("verdict", "an accepted program cannot be saved");
    }
    {
      Sut s;
      nano::builtins_resolve(*prog);
      for (auto &c : prog->syscalls()) {
        if (!c.call_) {
          c.call_ = c14_out;
        }
      }
      delete n;
      n = nullptr;
      delete src;
      src = nullptr;
      nano::vm_t *vm = new nano::vm_t(*prog);
      std::vector<const nano::function_t *> fs;
      for (auto &f : prog->functions()) {
        fs.push_back(&f);
      }
      const nano::function_t *init = prog->function_find(std::string("@init"));
      if (init && init->num_args() == 0) {
        nano::thread_t *t = vm->new_thread(*init, 0, nullptr);
        if (t) {
          t->resume(3000);
        }
      }
      int started = 0;
      for (auto *f : fs) {
        if (f == init || ++started > 20) {
          continue;
        }
        nano::value_t arg(int32_t(started & 3));
        std::vector<const nano::value_t *> argv(f->num_args() + 1, &arg);
        nano::thread_t *t = vm->new_thread(*f, int32_t(f->num_args()), argv.data());
        if (!t) {
          Host h;
          violation("verdict", "function %s of an accepted program cannot be started", f->name_.c_str());
        }
        if (started & 1) {
          t->resume(500);
        }
      }
      for (int i = 0; i < 40; ++i) {
        vm->resume(100);
      }
      delete vm;
      Host h;
      steps(4000);
    }
    if (!heap::intact(what)) {
      violation("memory", "%s", what.c_str());
    }
  }
  {
    Sut s;
    delete n;
    delete src;
    delete prog;
    std::string().swap(err.error);
  }
  if (heap::live()) {
    violation("leak", "%zu blocks are left", heap::live());
  }
  nontrivial();
}

// ---- C15 ---------------------------------------------------------------------------------
namespace {

// the life of a program in a host, in steps that can be interrupted
struct Life {
  std::vector<std::string> names;
  bool optimize = true;
  nano::source_manager_t *src = nullptr;
  nano::program_t *prog = nullptr, *again = nullptr;
  nano::nano_t *n = nullptr;
  nano::vm_t *vm = nullptr;
  std::string log;

  static const int STEPS = 9;
  static const char *name(int i) {
    static const char *t[] = {"load sources", "make compiler", "build", "save", "load program",
                              "make machine", "init", "threads", "calls"};
    return t[i];
  }
  // runs inside the system under test; the result is appended to log
  void step(int i);
  void destroy() {
    Sut s;
    delete vm;
    delete n;
    delete prog;
    delete again;
    delete src;
    vm = nullptr;
    n = nullptr;
    prog = again = nullptr;
    src = nullptr;
  }
};

std::string *g_life_log;

void life_sys(nano::thread_t &t, int32_t nargs) {
  // what the script tells the host
  std::string o;
  for (int i = 0; i < nargs; ++i) {
    const nano::value_t *v = t.get_stack().pop();
    Host h;
    if (v->is_a<nano::val_type_string>()) {
      o += " " + std::string(v->string(), v->strlen());
    } else if (v->is_a<nano::val_type_int>()) {
      o += " " + std::to_string(v->v);
    } else if (v->is_a<nano::val_type_array>()) {
      o += " array" + std::to_string(v->array_size());
    } else {
      o += " ?";
    }
  }
  {
    Host h;
    if (g_life_log) {
      *g_life_log += "call" + o + "\n";
    }
    std::string().swap(o);
  }
  t.get_stack().push_int(nargs + 1);
}

void Life::step(int i) {
  Sut s;
  auto say = [&](const std::string &t) {
    Host h;
    log += t + "\n";
  };
  switch (i) {
  case 0:
    src = new nano::source_manager_t;
    for (auto &f : names) {
      const bool ok = src->load(f.c_str());
      Host h;
      log += format("load %d\n", ok);
    }
    break;
  case 1:
    prog = new nano::program_t;
    n = new nano::nano_t(*prog);
    n->optimize = optimize;
    register_syscalls(*n);
    break;
  case 2: {
    nano::error_t err;
    const bool ok = n->build(*src, err);
    Host h;
    log += format("build %d %d:%d %s\n", ok, err.line.file, err.line.line, err.error.c_str());
    if (ok) {
      log += format("%016llx\n", (unsigned long long)hash_str(image(*prog, false)));
    }
    break;
  }
  case 3: {
    const bool ok = prog->serial_save("life.bin");
    Host h;
    log += format("save %d %016llx\n", ok, (unsigned long long)hash_str(disk::files()["life.bin"].data));
    break;
  }
  case 4: {
    if (!again) {
      again = new nano::program_t;
    }
    const bool ok = again->serial_load("life.bin");
    Host h;
    log += format("reload %d\n", ok);
    if (ok) {
      log += format("%016llx\n", (unsigned long long)hash_str(image(*again, true)));
    }
    break;
  }
  case 5: {
    nano::builtins_resolve(*prog);
    for (auto &c : prog->syscalls()) {
      if (!c.call_) {
        c.call_ = life_sys;
      }
    }
    vm = new nano::vm_t(*prog);
    break;
  }
  case 6: {
    const bool ok = vm->call_init();
    say(ok ? "init 1" : "init 0");
    break;
  }
  case 7: {
    for (auto &f : prog->functions()) {
      if (f.name_ == "@init" || f.name_.empty() || f.name_[0] != 't') {
        continue;
      }
      nano::value_t arg(int32_t(2));
      std::vector<const nano::value_t *> argv(f.num_args() + 1, &arg);
      nano::thread_t *t = vm->new_thread(f, int32_t(f.num_args()), argv.data());
      say(t ? "thread" : "no thread");
    }
    for (int k = 0; k < 60; ++k) {
      const bool ok = vm->resume(40);
      if (!ok) {
        say("round failed");
      }
    }
    break;
  }
  default: {
    int calls = 0;
    for (auto &f : prog->functions()) {
      if (f.name_.empty() || f.name_[0] != 'h' || ++calls > 4) {
        continue;
      }
      nano::value_t arg(int32_t(1));
      std::vector<const nano::value_t *> argv(f.num_args() + 1, &arg);
      nano::value_t *ret = nullptr;
      nano::thread_error_t e = nano::thread_error_t::e_success;
      const bool ok = vm->call_once(f, int32_t(f.num_args()), argv.data(), ret, e);
      Host h;
      log += format("called %d %d %s\n", ok, int(e),
                    ok && ret->is_a<nano::val_type_int>() ? std::to_string(ret->v).c_str() : "");
    }
    break;
  }
  }
}

} // namespace

void c15() {
  heap_mode();
  disk::clear();
  Knobs k = lang::draw_knobs();
  k.shared = true;
  k.spawn = false;
  k.waits = chance(1, 4);
  k.members = false;
  k.nested = false;
  k.wild = chance(1, 4) ? 1 : 0;
  k.budget = 60;
  k.entries = range(1, 2);
  k.helpers = range(0, 3);
  // imports take the place of several files given
  Program *p = lang::generate(k);
  note_program(*p);
  std::vector<std::string> files = p->files;
  const bool broken = chance(1, 6);
  if (broken) {
    files[0] = mutate_tokens(files[0], 2);
    if (files[0].empty() || files[0][0] == 0) {
      return;
    }
  }
  Life l;
  l.optimize = chance(1, 2);
  // names that fit into a string object and names that do not
  const std::string dir = chance(1, 2) ? "a_directory_with_a_rather_long_name/" : "d/";
  const std::string stem = chance(1, 3) ? "also_the_name_of_the_file_is_long_" : "f";
  if (files.size() > 1 && chance(1, 2)) {
    std::string imp;
    for (size_t i = 1; i < files.size(); ++i) {
      imp += format("import \"%s%zu\"\n", stem.c_str(), i);
    }
    files[0] = imp + files[0];
    l.names.push_back(dir + stem + "0");
  } else {
    for (size_t i = 0; i < files.size(); ++i) {
      l.names.push_back(dir + stem + std::to_string(i));
    }
  }
  for (size_t i = 0; i < files.size(); ++i) {
    disk::files()[dir + stem + std::to_string(i)].data = files[i];
  }
  // a bystander that lives through it all: a machine in the middle of its work
  Plan plan;
  plan.oracle = draw_seed();
  Knobs kb = lang::draw_knobs();
  kb.shared = false;
  kb.budget = 60;
  kb.files = 1;
  Program *pb = lang::generate(kb);
  Compiled *cb = must_compile(*pb, true);
  Machine by(pb, cb, &plan, "bystander");
  by.apply_schedule = false;
  const bool by_ok = by.init();
  if (by_ok) {
    start_entries(by, true);
    by.round(uint32_t(range(1, 60)));
  }
  // how it goes with enough memory
  std::vector<uint64_t> allocs(Life::STEPS);
  std::vector<std::string> logs(Life::STEPS);
  int last = Life::STEPS;
  g_life_log = &l.log;
  const size_t mem0 = heap::live();
  for (int i = 0; i < Life::STEPS; ++i) {
    heap::arm(UINT64_MAX, false);
    l.step(i);
    allocs[size_t(i)] = heap::armed_count();
    heap::disarm();
    logs[size_t(i)] = l.log;
    l.log.clear();
    if (i == 2 && logs[2].find("build 1") != 0) {
      last = 3;
      break;
    }
    if (i == 4 && broken) {
      // a changed program may run for ever
      last = 5;
      break;
    }
  }
  l.destroy();
  if (heap::live() != mem0) {
    heap::mark();
    violation("leak", "%zu blocks are left after everything was destroyed", heap::live() - mem0);
  }
  if (disk::open_handles()) {
    violation("handle", "a file handle is left open");
  }
  // now it fails somewhere
  const int attempts = tier(3, 6);
  for (int a = 0; a < attempts; ++a) {
    const int victim = int(draw(uint32_t(last)));
    if (allocs[size_t(victim)] == 0) {
      continue;
    }
    const size_t mem = heap::live();
    heap::mark();
    disk::files().erase("life.bin");
    for (int i = 0; i < victim; ++i) {
      l.step(i);
      if (l.log != logs[size_t(i)]) {
        violation("repeat", "%s gives another result than before: %s", Life::name(i), quote(l.log).c_str());
      }
      l.log.clear();
    }
    const bool persistent = chance(1, 3);
    const uint64_t total = allocs[size_t(victim)];
    const uint64_t nth = 1 + draw(uint32_t(std::min<uint64_t>(total, 1u << 20)));
    std::string how = "success";
    heap::arm(nth, persistent);
    try {
      l.step(victim);
    } catch (const std::bad_alloc &) {
      how = "bad_alloc";
    }
    const uint64_t failed = heap::disarm();
    if (failed) {
      fault(persistent ? "alloc_fail_all" : "alloc_fail_one");
      probe((std::string("failed in ") + Life::name(victim)).c_str());
      nontrivial();
    }
    ev("attempt %s allocation %llu of %llu%s: %s", Life::name(victim), (unsigned long long)nth,
       (unsigned long long)total, persistent ? " and later" : "", how.c_str());
    state(mix(hash_str(Life::name(victim)), mix(nth, hash_str(how))));
    if (how == "success" && l.log == logs[size_t(victim)]) {
      // the failure made no difference
    } else if (how == "success" && !failed) {
      violation("repeat", "%s gives another result than before: %s", Life::name(victim), quote(l.log).c_str());
    } else if (how == "success") {
      bool told = false;
      for (const char *x : {"load 0", "build 0", "save 0", "reload 0", "init 0", "no thread", "round failed", "called 0"}) {
        told = told || l.log.find(x) != std::string::npos;
      }
      if (!told) {
        violation("unnoticed", "a failed allocation in '%s' (%llu of %llu%s) changes the result and is not reported: %s",
                  Life::name(victim), (unsigned long long)nth, (unsigned long long)total,
                  persistent ? " and later" : "", quote(l.log, 300).c_str());
      }
    }
    if (disk::open_handles()) {
      violation("handle", "a file handle is left open after a failed allocation in '%s'", Life::name(victim));
    }
    std::string what;
    if (!heap::intact(what)) {
      violation("memory", "%s", what.c_str());
    }
    l.log.clear();
    // objects that were not involved continue to work
    if (victim >= 5 && chance(1, 2)) {
      // the program is not changed by a failing machine
      {
        Sut s;
        delete l.vm;
        l.vm = nullptr;
      }
      for (int i = 5; i < last; ++i) {
        l.step(i);
        if (l.log != logs[size_t(i)]) {
          violation("repeat", "%s with memory available gives another result: %s", Life::name(i),
                    quote(l.log).c_str());
        }
        l.log.clear();
      }
    } else if ((victim == 3 || victim == 4) && chance(1, 2)) {
      for (int i = 3; i < last; ++i) {
        l.step(i);
        if (l.log != logs[size_t(i)]) {
          violation("repeat", "%s with memory available gives another result: %s", Life::name(i),
                    quote(l.log).c_str());
        }
        l.log.clear();
      }
    } else if (victim == 2 && chance(1, 2)) {
      // another compiler builds the same sources
      {
        Sut s;
        delete l.n;
        delete l.prog;
        l.n = nullptr;
        l.prog = nullptr;
      }
      for (int i = 1; i < last; ++i) {
        l.step(i);
        if (l.log != logs[size_t(i)]) {
          violation("repeat", "%s with memory available gives another result: %s", Life::name(i),
                    quote(l.log).c_str());
        }
        l.log.clear();
      }
    }
    l.destroy();
    if (heap::live() != mem) {
      violation("leak", "a failed allocation in '%s' (%llu of %llu%s) leaks: %s", Life::name(victim),
                (unsigned long long)nth, (unsigned long long)total, persistent ? " and later" : "",
                heap::leak_report().c_str());
    }
    if (by_ok && !by.live().empty()) {
      by.round(uint32_t(range(1, 60)));
      by.check();
    }
  }
  // everything once more
  for (int i = 0; i < last; ++i) {
    l.step(i);
    if (l.log != logs[size_t(i)]) {
      violation("repeat", "%s with memory available gives another result: %s", Life::name(i),
                quote(l.log).c_str());
    }
    l.log.clear();
  }
  l.destroy();
  if (by_ok) {
    drain(by);
    by.final_check();
  }
}

} // namespace props
