// C17: the console runner as a process with simulated streams and files
#include "console.h"
#include "props.h"
#include <cstring>

int driver_main(int, char **) __attribute__((weak));

namespace props {

using namespace sim;

namespace {

// ---- console scripts ------------------------------------------------------------------
// integers: globals c0.., locals l0.., the parameter p; strings: globals s0.., locals t0..
enum IK { I_CONST, I_VAR, I_ADD, I_MUL, I_LEN, I_GETC, I_ASC };
enum SK { K_CONST, K_VAR, K_CAT, K_GETS };
struct IE {
  IK k = I_CONST;
  int v = 0;
  std::string var;
  IE *a = nullptr, *b = nullptr;
};
struct SE {
  SK k = K_CONST;
  std::string s;
  SE *a = nullptr, *b = nullptr;
};
enum TK { T_SETI, T_SETS, T_PUTC, T_PUTS, T_PRINT, T_IF, T_TIMES, T_ECHO, T_CALL, T_RAND, T_FAIL, T_RET };
struct St {
  TK k;
  std::string var;
  IE *i = nullptr;
  SE *s = nullptr;
  int n = 0;
  std::vector<St *> a, b;
  bool has_else = false;
};
enum RK { R_NONE, R_INT, R_STR, R_FLOAT, R_ARRAY, R_FUNC, R_NOTHING };
struct Fn {
  std::string name;
  std::vector<St *> body;
  RK ret = R_NOTHING;
  IE *ri = nullptr;
  SE *rs = nullptr;
  std::string rf;
  int file = 0;
};
struct Script {
  std::vector<std::string> inits; // text of the initialisers of c0.. and s0..
  std::vector<St *> init;         // what initialisation does
  std::vector<Fn *> fns;          // the last is main
  int counter = 0;
};

Script *G;
int g_depth;

std::string lit(int maxlen) {
  std::string o;
  const int n = int(draw(uint32_t(maxlen + 1)));
  const int kind = int(draw(4));
  for (int i = 0; i < n; ++i) {
    char c = char('a' + int(draw(26)));
    if (kind == 1) {
      c = " %s%d%n%\\t'#$"[draw(13)];
    } else if (kind == 2) {
      c = char(1 + int(draw(255)));
    }
    if (c == '"' || c == '\n' || c == '\r' || c == 0) {
      c = '%';
    }
    o += c;
  }
  return o;
}

std::string int_var(bool in_fn) {
  switch (draw(in_fn ? 4 : 2)) {
  case 0: return "c0";
  case 1: return "c1";
  case 2: return "l0";
  default: return "p";
  }
}
std::string str_var() { return draw(2) ? "s1" : "s0"; }

IE *int_expr(int depth, bool in_fn) {
  IE *e = new IE;
  switch (weighted({5, 6, depth > 0 ? 2 : 0, depth > 0 ? 1 : 0, 1, 3})) {
  case 0:
    e->v = weighted({3, 1, 1}) == 0 ? range(0, 255) : chance(1, 2) ? range(256, 70000) : 65 + int(draw(26));
    break;
  case 1:
    e->k = I_VAR;
    e->var = int_var(in_fn);
    break;
  case 2:
    e->k = I_ADD;
    e->a = int_expr(depth - 1, in_fn);
    e->b = int_expr(depth - 1, in_fn);
    break;
  case 3:
    e->k = I_MUL;
    e->a = int_expr(depth - 1, in_fn);
    e->b = int_expr(depth - 1, in_fn);
    break;
  case 4:
    e->k = I_LEN;
    e->var = str_var();
    break;
  default: e->k = I_GETC; break;
  }
  return e;
}

SE *str_expr(int depth, bool grow) {
  SE *e = new SE;
  switch (weighted({5, grow ? 5 : 0, depth > 0 ? 3 : 0, 5})) {
  case 0: e->s = lit(chance(1, 60) ? 4000 : chance(1, 10) ? 120 : 10); break;
  case 1:
    e->k = K_VAR;
    e->s = str_var();
    break;
  case 2:
    e->k = K_CAT;
    e->a = str_expr(depth - 1, grow);
    e->b = str_expr(depth - 1, grow);
    break;
  default: e->k = K_GETS; break;
  }
  return e;
}

bool g_errors;

void block(std::vector<St *> &out, int n, int depth, int fn);

St *stmt(int depth, int fn) {
  St *s = new St;
  const bool in_fn = fn >= 0;
  switch (weighted({4, 4, 5, 6, 4, depth > 0 ? 2 : 0, depth > 0 ? 2 : 0, depth > 0 ? 3 : 0,
                    fn > 0 ? 3 : 0, 1, g_errors ? 1 : 0, in_fn && depth > 0 ? 1 : 0})) {
  case 0:
    s->k = T_SETI;
    do {
      s->var = int_var(in_fn);
    } while (s->var == "p" && draw(2));
    s->i = int_expr(2, in_fn);
    break;
  case 1:
    s->k = T_SETS;
    s->var = str_var();
    s->s = str_expr(2, false);
    break;
  case 2:
    s->k = T_PUTC;
    s->i = int_expr(1, in_fn);
    break;
  case 3:
    s->k = T_PUTS;
    s->s = str_expr(2, true);
    break;
  case 4:
    s->k = T_PRINT;
    s->s = str_expr(2, true);
    break;
  case 5:
    s->k = T_IF;
    s->i = int_expr(1, in_fn);
    s->n = int(draw(3)) - 1; // threshold
    block(s->a, range(1, 3), depth - 1, fn);
    s->has_else = chance(1, 2);
    if (s->has_else) {
      block(s->b, range(1, 3), depth - 1, fn);
    }
    break;
  case 6:
    s->k = T_TIMES;
    s->var = format("w%d", G->counter++);
    s->n = chance(1, 4) ? range(0, 40) : range(0, 5);
    block(s->a, range(1, 3), depth - 1, fn);
    break;
  case 7:
    // read to the end of input
    s->k = T_ECHO;
    s->var = format("w%d", G->counter++);
    block(s->a, range(0, 2), 0, fn);
    break;
  case 8:
    s->k = T_CALL;
    s->var = int_var(in_fn);
    s->n = int(draw(uint32_t(fn)));
    s->i = int_expr(1, in_fn);
    break;
  case 9: s->k = T_RAND; break;
  case 10:
    s->k = T_FAIL;
    s->n = int(draw(6));
    break;
  default:
    s->k = T_RET;
    s->i = int_expr(1, in_fn);
    break;
  }
  return s;
}

void block(std::vector<St *> &out, int n, int depth, int fn) {
  for (int i = 0; i < n; ++i) {
    out.push_back(stmt(depth, fn));
  }
}

Script *generate(int files) {
  G = new Script;
  const int n = range(0, 3);
  for (int i = 0; i <= n; ++i) {
    Fn *f = new Fn;
    f->name = i == n ? "main" : format("f%d", i);
    f->file = int(draw(uint32_t(files)));
    block(f->body, range(1, i == n ? 10 : 4), 2, i);
    if (i < n) {
      f->ret = R_INT;
      f->ri = int_expr(1, true);
    } else {
      f->ret = RK(weighted({2, 5, 4, 2, 2, 2, 2}));
      f->ri = int_expr(2, true);
      f->rs = str_expr(1, true);
      static const char *fl[] = {"0.5", "1.25", "100.0", "3.75", "2.5"};
      f->rf = fl[draw(5)];
    }
    G->fns.push_back(f);
  }
  return G;
}

// ---- text ----
std::string text(IE *e) {
  switch (e->k) {
  case I_CONST: return std::to_string(e->v);
  case I_VAR: return e->var;
  case I_ADD: return "(" + text(e->a) + " + " + text(e->b) + ")";
  case I_MUL: return "(" + text(e->a) + " * " + text(e->b) + ")";
  case I_LEN: return "len(" + e->var + ")";
  default: return "getc()";
  }
}
std::string text(SE *e) {
  switch (e->k) {
  case K_CONST: return "\"" + e->s + "\"";
  case K_VAR: return e->s;
  case K_CAT: return "(" + text(e->a) + " + " + text(e->b) + ")";
  default: return "gets()";
  }
}
void text(std::string &o, const std::vector<St *> &b, int ind) {
  const std::string in(size_t(ind) * 2, ' ');
  for (St *s : b) {
    switch (s->k) {
    case T_SETI: o += in + s->var + " = " + text(s->i) + "\n"; break;
    case T_SETS: o += in + s->var + " = " + text(s->s) + "\n"; break;
    case T_PUTC: o += in + "putc(" + text(s->i) + ")\n"; break;
    case T_PUTS: o += in + "puts(" + text(s->s) + ")\n"; break;
    case T_PRINT: o += in + "print(" + text(s->s) + ")\n"; break;
    case T_IF:
      o += in + "if (" + text(s->i) + " > " + (s->n < 0 ? "0 - 1" : std::to_string(s->n)) + ")\n";
      text(o, s->a, ind + 1);
      if (s->has_else) {
        o += in + "else\n";
        text(o, s->b, ind + 1);
      }
      o += in + "end\n";
      break;
    case T_TIMES:
      o += in + "var " + s->var + " = 0\n";
      o += in + "while (" + s->var + " < " + std::to_string(s->n) + ")\n";
      text(o, s->a, ind + 1);
      o += in + "  " + s->var + " = " + s->var + " + 1\n";
      o += in + "end\n";
      break;
    case T_ECHO:
      o += in + "var " + s->var + " = getc()\n";
      o += in + "while (" + s->var + " >= 0)\n";
      o += in + "  putc(" + s->var + ")\n";
      text(o, s->a, ind + 1);
      o += in + "  " + s->var + " = getc()\n";
      o += in + "end\n";
      break;
    case T_CALL: o += in + s->var + " = " + format("f%d(", s->n) + text(s->i) + ")\n"; break;
    case T_RAND:
      o += in + "if (rand() >= 0)\n" + in + "  putc(114)\n" + in + "end\n";
      break;
    case T_FAIL: {
      static const char *how[] = {"puts(5)", "putc(\"x\")", "c0 = 1 / zero", "c0 = arr[7]",
                                  "print(none)", "nothing()"};
      o += in + how[s->n] + "\n";
      break;
    }
    case T_RET: o += in + "return " + text(s->i) + "\n"; break;
    }
  }
}

// ---- meaning ----
struct Fail {};
struct Ret {
  int v;
};

struct Meaning {
  const console::In &in;
  bool keep_partial; // what a line call gives when input fails in the middle of a line
  size_t pos = 0;
  std::string out;
  std::map<std::string, int> gi;
  std::map<std::string, std::string> gs;
  std::map<size_t, size_t> need; // bytes of output when input byte i was first asked for
  int ops = 0;
  bool ambiguous = false;
  explicit Meaning(const console::In &i, bool k) : in(i), keep_partial(k) {}

  size_t end() const {
    return in.fail_at >= 0 && size_t(in.fail_at) < in.data.size() ? size_t(in.fail_at) : in.data.size();
  }
  bool failing() const { return in.fail_at >= 0 && size_t(in.fail_at) <= in.data.size(); }
  int get() {
    need.insert({pos, out.size()});
    if (pos >= end()) {
      return -1;
    }
    return (unsigned char)in.data[pos++];
  }
  std::string gets() {
    std::string o;
    while (o.size() < 79) {
      const int c = get();
      if (c < 0) {
        if (failing() && !o.empty()) {
          ambiguous = true;
          return keep_partial ? o : "";
        }
        break;
      }
      if (c == '\n') {
        break;
      }
      o += char(c);
    }
    return o;
  }
  typedef std::map<std::string, int> L;
  int &var(const std::string &n, L *l) {
    if (n[0] == 'c') {
      return gi[n];
    }
    return (*l)[n];
  }
  int eval(IE *e, L *l) {
    switch (e->k) {
    case I_CONST: return e->v;
    case I_VAR: return var(e->var, l);
    case I_ADD: {
      const int x = eval(e->a, l);
      return int(uint32_t(x) + uint32_t(eval(e->b, l)));
    }
    case I_MUL: {
      const int x = eval(e->a, l);
      return int(uint32_t(x) * uint32_t(eval(e->b, l)));
    }
    case I_LEN: return int(gs[e->var].size());
    default: return get();
    }
  }
  std::string eval(SE *e) {
    switch (e->k) {
    case K_CONST: return e->s;
    case K_VAR: return gs[e->s];
    case K_CAT: {
      const std::string x = eval(e->a);
      return x + eval(e->b);
    }
    default: return gets();
    }
  }
  void run(const std::vector<St *> &b, L *l) {
    for (St *s : b) {
      if (++ops > 20000) {
        give_up("long script");
      }
      switch (s->k) {
      case T_SETI: {
        const int v = eval(s->i, l);
        var(s->var, l) = v;
        break;
      }
      case T_SETS: gs[s->var] = eval(s->s); break;
      case T_PUTC: out += char(eval(s->i, l)); break;
      case T_PUTS:
      case T_PRINT: {
        const std::string v = eval(s->s);
        out += v + "\n";
        break;
      }
      case T_IF:
        if (eval(s->i, l) > s->n) {
          run(s->a, l);
        } else {
          run(s->b, l);
        }
        break;
      case T_TIMES:
        for (int i = 0; i < s->n; ++i) {
          run(s->a, l);
        }
        break;
      case T_ECHO:
        for (int c = get(); c >= 0; c = get()) {
          out += char(c);
          run(s->a, l);
        }
        break;
      case T_CALL: {
        const int v = call(G->fns[size_t(s->n)], eval(s->i, l));
        var(s->var, l) = v;
        break;
      }
      case T_RAND: out += 'r'; break;
      case T_FAIL: throw Fail();
      case T_RET: throw Ret{eval(s->i, l)};
      }
    }
  }
  int call(Fn *f, int p) {
    L l;
    l["p"] = p;
    l["l0"] = 0;
    try {
      run(f->body, &l);
    } catch (Ret &r) {
      return r.v;
    }
    return eval(f->ri, &l);
  }
  // the text after "exit: "
  std::string main(Fn *f) {
    L l;
    l["p"] = 3;
    l["l0"] = 0;
    try {
      run(f->body, &l);
    } catch (Ret &r) {
      return std::to_string(r.v);
    }
    switch (f->ret) {
    case R_NONE: return "none";
    case R_INT: return std::to_string(eval(f->ri, &l));
    case R_STR: return "\"" + eval(f->rs) + "\"";
    case R_FLOAT: return format("%f", atof(f->rf.c_str()));
    case R_ARRAY: return "array";
    case R_FUNC: return "function";
    default: return "0";
    }
  }
};

Meaning *g_meaning[2];
std::string g_what;

void reading() {
  // what was printed before input is asked for has to be out already
  size_t least = SIZE_MAX;
  bool known = false;
  for (Meaning *m : g_meaning) {
    auto it = m->need.find(console::in.pos);
    if (it != m->need.end()) {
      known = true;
      least = std::min(least, it->second);
    }
  }
  if (known && console::out.data.size() < least) {
    g_what = format("input at byte %zu is read while only %zu of %zu bytes are on the screen",
                    console::in.pos, console::out.data.size(), least);
  }
  probe("prompt_checked", known ? 1 : 0);
}

std::string trimmed(std::string s) {
  while (!s.empty() && isspace((unsigned char)s.back())) {
    s.pop_back();
  }
  return s;
}

} // namespace

void c17() {
  heap_mode();
  disk::clear();
  console::reset();
  g_errors = chance(1, 3);
  const int files = weighted({4, 2, 1}) + 1;
  Script *s = generate(files);
  // how it goes wrong before main runs
  enum Case { OK, NO_ARGS, MISSING, UNREADABLE, DIRECTORY, IO_ERROR, SYNTAX, NO_MAIN, MAIN_ARGS, INIT_FAILS, CASES };
  const Case cs = Case(weighted({30, 1, 1, 1, 1, 1, 2, 1, 2, 2}));
  Fn *mf = s->fns.back();

  // files: the first has the globals; the others are imported or named on the command line
  std::vector<std::string> body(static_cast<size_t>(files));
  for (int i = 1; i < files; ++i) {
    body[size_t(i)] = format("var u%d = 0\n", i); // an empty source is refused
  }
  const bool init_io = chance(1, 3);
  body[0] += "var c0 = " + std::string(init_io ? "getc()" : "1") + "\n";
  body[0] += "var c1 = 66\nvar s0 = \"st\"\n";
  body[0] += "var s1 = " + std::string(init_io ? "gets()" : "\"\"") + "\n";
  body[0] += "var zero = 0\nvar arr = [1, 2]\nvar nothing = none\n";
  if (cs == INIT_FAILS) {
    static const char *how[] = {"var bad = puts(1)\n", "var bad = 1 / zero\n", "var bad = nothing()\n"};
    body[0] += how[draw(3)];
  }
  for (Fn *f : s->fns) {
    if (f == mf && cs == NO_MAIN) {
      continue;
    }
    std::string &o = body[size_t(f->file)];
    o += "function " + f->name + "(" + (f != mf ? "p" : cs == MAIN_ARGS ? "q" : "") + ")\n";
    o += "  var l0 = 0\n";
    if (f == mf) {
      o += "  var p = 3\n";
    }
    text(o, f->body, 1);
    switch (f->ret) {
    case R_NONE: o += "  return none\n"; break;
    case R_INT: o += "  return " + text(f->ri) + "\n"; break;
    case R_STR: o += "  return " + text(f->rs) + "\n"; break;
    case R_FLOAT: o += "  return " + f->rf + "\n"; break;
    case R_ARRAY: o += "  return arr\n"; break;
    case R_FUNC: o += "  return main\n"; break;
    default: break;
    }
    o += "end\n";
  }
  std::vector<std::string> args{"nano"};
  if (cs == SYNTAX) {
    static const char *how[] = {"function\n", "var = 3\n", "function zz()\n  return unknown_name\nend\n",
                                "end\n", "import \"nowhere.txt\"\n", "var c0 = 2\n", "$\n",
                                "function zz()\n  f9(1, 2)\nend\n"};
    body[draw(uint32_t(files))] += how[draw(8)];
  }
  for (int i = 0; i < files; ++i) {
    const std::string name = format("file%d.ccml", i);
    if (i > 0 && chance(1, 2)) {
      body[0] = "import \"" + name + "\"\n" + body[0];
    } else {
      args.push_back(name);
    }
    disk::files()[name];
  }
  for (int i = 0; i < files; ++i) {
    disk::files()[format("file%d.ccml", i)].data = body[size_t(i)];
    if (tracing()) {
      big_note(format("--- file%d.ccml\n", i) + body[size_t(i)]);
    }
  }
  const std::string victim = format("file%d.ccml", int(draw(uint32_t(files))));
  switch (cs) {
  case NO_ARGS: args.resize(1); break;
  case MISSING: disk::files().erase(victim); break;
  case UNREADABLE: disk::files()[victim].unreadable = true; break;
  case DIRECTORY: disk::files()[victim].dir = true; break;
  case IO_ERROR: disk::f.read_fail_at = long(draw(uint32_t(disk::files()[victim].data.size()))); break;
  default: break;
  }
  // the program is also saved; whether that works does not matter to the script
  if (cs == OK && chance(1, 3)) {
    switch (draw(3)) {
    case 0:
      disk::f.write_fail_at = long(draw(2000));
      break;
    case 1: disk::files()["temp.bin"].dir = true; break;
    default: disk::files()["temp.bin"].unreadable = true; break;
    }
  }
  if (chance(1, 2)) {
    disk::f.chunk = 1 + draw(200);
    disk::f.chunk_random = true;
    disk::f.chunk_seed = draw_seed();
  }

  // input
  console::In &in = console::in;
  bool has_gets = init_io;
  for (auto &b : body) {
    has_gets |= b.find("gets()") != std::string::npos;
  }
  const int lines = weighted({1, 3, 3, 2}) * 3;
  for (int i = 0; i < lines; ++i) {
    int len = weighted({4, 2, 2}) == 0 ? int(draw(12)) : chance(1, 2) ? 75 + int(draw(10)) : 150 + int(draw(20));
    const bool odd = chance(1, 4);
    for (int k = 0; k < len; ++k) {
      char c = char('a' + int(draw(26)));
      if (odd) {
        c = char((has_gets ? 1 : 0) + int(draw(255))); // a string cannot hold a zero
        if (c == '\n') {
          c = ' ';
        }
      }
      in.data += c;
    }
    in.data += '\n';
  }
  if (chance(1, 12)) {
    // much to read
    Rng rng(draw_seed());
    for (int k = range(3000, 12000); k > 0; --k) {
      in.data += rng.below(40) ? char('a' + rng.below(26)) : '\n';
    }
  }
  if (!in.data.empty() && chance(1, 2)) {
    in.data.resize(draw(uint32_t(in.data.size())));
  }
  if (chance(1, 4)) {
    in.fail_at = long(draw(uint32_t(in.data.size() + 1)));
  }
  if (chance(2, 3)) {
    in.chunk = 1 + draw(chance(1, 2) ? 4 : 100);
    in.seed = draw_seed();
  }
  static const int bufs[] = {-1, 0, 1, 7, 64, 4096};
  in.bufsize = bufs[draw(6)];
  console::out.bufsize = bufs[draw(6)];

  // what has to happen
  bool ok[2];
  std::string exits[2];
  for (int v = 0; v < 2; ++v) {
    Meaning *m = g_meaning[v] = new Meaning(in, v == 1);
    m->gi["c0"] = 1;
    m->gi["c1"] = 66;
    m->gs["s0"] = "st";
    ok[v] = false;
    const bool starts = cs == OK || cs == INIT_FAILS || cs == MAIN_ARGS;
    if (starts && init_io) {
      m->gi["c0"] = m->get();
      m->gs["s1"] = m->gets();
    }
    if (cs == OK) {
      try {
        exits[v] = m->main(mf);
        ok[v] = true;
      } catch (Fail &) {
      }
    }
  }
  ev("script %016llx case %d input %016llx fail %ld expect %d", (unsigned long long)hash_str(body[0]),
     int(cs), (unsigned long long)hash_str(in.data), in.fail_at, int(ok[0]));
  g_what.clear();
  console::on_read = reading;
  const console::Result r = console::run(driver_main, args);
  ev("status %d output %016llx", r.status, (unsigned long long)hash_str(console::out.data));
  if (tracing()) {
    big_note("--- output\n" + console::out.data + "\n--- errors\n" + console::err.data);
  }
  std::string why[2];
  for (int v = 0; v < 2; ++v) {
    Meaning &m = *g_meaning[v];
    const std::string &o = console::out.data;
    if (o.compare(0, m.out.size(), m.out) != 0) {
      size_t at = 0;
      while (at < o.size() && at < m.out.size() && o[at] == m.out[at]) {
        ++at;
      }
      why[v] = format("output differs at byte %zu: %s, expected %s", at, quote(o.substr(at, 40)).c_str(),
                      quote(m.out.substr(at, 40)).c_str());
      continue;
    }
    const std::string rest = o.substr(m.out.size());
    if (ok[v]) {
      if (r.status != 0) {
        why[v] = format("status %d after success", r.status);
      } else if (trimmed(rest) != trimmed("exit: " + exits[v])) {
        why[v] = format("the end of the output is %s, expected %s", quote(rest).c_str(),
                        quote("exit: " + exits[v]).c_str());
      }
    } else {
      if (r.status == 0) {
        why[v] = "status 0 after a failure";
      } else if (rest.find("exit:") != std::string::npos) {
        why[v] = "a result is printed after a failure";
      }
    }
  }
  if (!why[0].empty() && !why[1].empty()) {
    violation(why[0].find("status") != std::string::npos ? "status" : "output", "%s", why[0].c_str());
  }
  if (!g_what.empty()) {
    violation("prompt", "%s", g_what.c_str());
  }
  static const char *names[] = {"ok", "no_args", "missing", "unreadable", "directory", "io_error",
                                "syntax", "no_main", "main_args", "init_fails"};
  probe(names[cs]);
  probe(ok[0] ? "script_succeeds" : "script_fails");
  if (g_meaning[0]->ambiguous) {
    probe("failed_in_line");
  }
  state(mix(hash_str(console::out.data), g_meaning[0]->pos));
  nontrivial();
}

} // namespace props
