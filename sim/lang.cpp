#include "lang.h"

#include <climits>
#include <cmath>
#include <set>

namespace lang {

using namespace sim;

const char *op_text[] = {"+", "-", "*", "/", "%", "and", "or", "<", ">", "<=", ">=", "=="};

const SysInfo sys_info[SYS_COUNT] = {
    {"out", 1},  {"echo", 1},  {"num", 0},    {"mk", 2},    {"yield", 0}, {"txt", 1},
    {"va", -1},  {"pick", -1}, {"boom", 1},   {"nest", 2},  {"fix2", 2},
    {"abs", 1},  {"min", 2},   {"max", 2},    {"bitand", 2}, {"sin", 1},  {"cos", 1},
    {"tan", 1},  {"len", 1},   {"chr", 1},    {"round", 1}, {"ceil", 1},  {"floor", 1},
    {"sqrt", 1}, {"new_thread", -1}, {"wait", 1}, {"new_array", 1},
};

int g_exts = 0;
int g_decoys = 0;

Knobs draw_knobs() {
  Knobs k;
  k.entries = range(1, 4);
  k.helpers = range(0, 4);
  k.globals = range(0, 6);
  k.stmts = range(2, 7);
  k.depth = range(1, 4);
  k.nest = range(0, 3);
  k.floats = chance(1, 2);
  k.strings = chance(2, 3);
  k.arrays = chance(3, 4);
  k.funcs = chance(1, 2);
  k.icalls = chance(1, 2);
  k.recursion = chance(1, 2);
  k.constfold = chance(1, 2);
  k.minimal_parens = chance(1, 2);
  k.decorate = chance(1, 3);
  k.mk = chance(1, 2);
  k.init_calls = chance(1, 3);
  k.files = chance(1, 4) ? range(2, 3) : 1;
  k.late = chance(1, 4);
  k.reuse = chance(1, 3) ? range(1, 2) : 0;
  k.wide = chance(1, 24);
  if (k.wide) {
    k.exts = chance(1, 3) ? range(100, 300) : 0;
    k.bulk = chance(1, 3) ? range(100, 4500) : 0;
  }
  k.names = chance(1, 6) ? range(1, 3) : 0;
  if (chance(1, 40)) {
    // line numbers that need more than one or two bytes
    const int size[] = {250, 32760, 65530};
    k.gap = size[weighted({8, 1, 3})] + range(0, 40);
    k.gap_at = range(0, 7);
  }
  if (chance(1, 60)) {
    // as do the numbers of files
    k.file_gap = chance(1, 2) ? range(1, 20) : range(120, 280);
    k.file_gap_at = range(0, 1);
  }
  return k;
}

namespace {

// strings that can be compared and concatenated without trouble
const char *str_pool[] = {"", "a", "xyz", "hello world", "0", "longer text for the heap 0123456789",
                          "\xc3\xa9\xff\x80 \x01", "# no comment", "end", "tab\tand 'quote'", "XYZ", "xyz "};
const int str_pool_size = 12;
const char *member_pool[] = {"length", "size", "x", "lengths", "len", "Length"};

struct Gen {
  bool exts_done = false, bulk_done = false;
  // a counter that the end of a loop over it changes
  Sym *lg = nullptr;
  Func *lb = nullptr;
  Program *p;
  Knobs k;
  Func *fn = nullptr;
  std::vector<std::vector<Sym *>> scopes;
  int mult = 1;  // product of the enclosing loop bounds
  int spent = 0; // estimated cost of the current function
  int uniq = 0;
  int loops = 0;
  bool in_init = false;

  // ---- helpers
  Expr *mk(ExprKind kind) {
    Expr *e = new Expr;
    e->k = kind;
    return e;
  }
  Expr *lit(int v) {
    Expr *e = mk(E_INT);
    e->i = v;
    return e;
  }
  Expr *var(Sym *s) {
    Expr *e = mk(E_VAR);
    e->sym = s;
    return e;
  }
  Expr *bin(Op op, Expr *a, Expr *b) {
    Expr *e = mk(E_BIN);
    e->op = op;
    e->kid = {a, b};
    return e;
  }
  Expr *call(Sym *s, std::vector<Expr *> args) {
    Expr *e = mk(E_CALL);
    e->base = var(s);
    e->kid = args;
    return e;
  }
  Expr *sys(int id, std::vector<Expr *> args) {
    if (id < H_COUNT || id == B_WAIT || id == B_NEW_THREAD) {
      if (fn) {
        fn->calls_host = true;
      }
    }
    spent += mult;
    return call(p->sys[size_t(id)], args);
  }

  bool wild() { return k.wild > 0 && chance(uint32_t(k.wild), 60); }

  bool readable(Sym *s) {
    if (s->kind != S_GLOBAL) {
      return true;
    }
    if (k.shared) {
      return true;
    }
    return s->group < 0 || (fn && s->group == fn->group);
  }

  bool writable(Sym *s) {
    if (s->readonly || s->kind == S_CONST) {
      return false;
    }
    if (s->kind != S_GLOBAL) {
      return true;
    }
    if (k.shared) {
      return true;
    }
    return fn && s->group >= 0 && s->group == fn->group;
  }

  // data that is shared for reading in partitioned programs must not be aliased
  bool aliasable(Sym *s) {
    if (k.shared || s->kind != S_GLOBAL) {
      return true;
    }
    return s->group >= 0;
  }

  std::vector<Sym *> visible(Ty t, bool write) {
    std::vector<Sym *> out;
    auto want = [&](Sym *s) {
      if (t != T_ANY && s->ty != t) {
        return false;
      }
      return write ? writable(s) : readable(s);
    };
    for (auto &sc : scopes) {
      for (Sym *s : sc) {
        if (want(s)) {
          out.push_back(s);
        }
      }
    }
    for (Sym *s : p->globals) {
      if (want(s) && !(in_init && s->init == nullptr && s->line == -1)) {
        out.push_back(s);
      }
    }
    if (!write) {
      for (Sym *s : p->consts) {
        if (want(s)) {
          out.push_back(s);
        }
      }
    }
    return out;
  }

  Sym *pick_var(Ty t, bool write) {
    auto v = visible(t, write);
    if (v.empty()) {
      return nullptr;
    }
    Sym *s = v[draw(uint32_t(v.size()))];
    if (s->kind == S_GLOBAL && fn) {
      fn->touches_globals = true;
    }
    return s;
  }

  // functions of the current group or without one, that can be called here
  Func *pick_func(Ty ret, bool spawn = false) {
    std::vector<Func *> out;
    for (Func *f : p->funcs) {
      if (f == fn || f->entry || f->runaway) {
        continue;
      }
      if (!k.shared && f->group >= 0 && (!fn || f->group != fn->group)) {
        continue;
      }
      if (spawn && !k.shared && f->group >= 0) {
        continue;
      }
      if (ret != T_ANY && f->ret != ret) {
        continue;
      }
      if (spent + mult * f->cost > k.budget) {
        continue;
      }
      if (in_init && f->touches_globals && !chance(1, 12)) {
        continue;
      }
      out.push_back(f);
    }
    if (out.empty()) {
      return nullptr;
    }
    return out[draw(uint32_t(out.size()))];
  }

  // ---- expressions
  Expr *gen_call(Func *f, int d) {
    std::vector<Expr *> args;
    for (Sym *a : f->args) {
      args.push_back(expr(a->ty, d - 1));
    }
    if (f->deep > 6 && chance(k.deep ? 5 : 3, 6)) {
      args[0] = lit(range(1, f->deep));
    }
    spent += mult * f->cost;
    if (fn && f->calls_host) {
      fn->calls_host = true;
    }
    if (fn && f->touches_globals) {
      fn->touches_globals = true;
    }
    // sometimes through a variable
    if (k.icalls && chance(1, 6)) {
      for (Sym *s : visible(T_FUN, false)) {
        if (s->fn == f) {
          return call(s, args);
        }
      }
    }
    return call(f->sym, args);
  }

  // length of arrays; elements 0 to 3 always exist
  int alen() {
    if (k.wide && chance(1, 12)) {
      return range(60, 300);
    }
    return chance(1, 6) ? range(5, 14) : 4;
  }

  const char *some_text() { return str_pool[draw(chance(1, 6) ? uint32_t(str_pool_size) : 6)]; }

  // an integer of any magnitude
  int any_int() {
    const int n = 1 << range(0, 30);
    return range(0, 3) ? n + int(draw(uint32_t(n))) : n - range(0, 1);
  }

  // a literal that does not fit small buffers
  std::string long_text() {
    static const int sizes[] = {255, 256, 257, 300, 1023, 1024, 1025, 2000, 3000};
    const int n = sizes[draw(9)];
    std::string s;
    for (int i = 0; i < n; ++i) {
      s += char('a' + i % 26);
    }
    return s;
  }

  Expr *neg(Expr *x) {
    Expr *n = mk(E_NEG);
    n->kid = {x};
    return n;
  }

  // the one quotient that has no representation
  Expr *smallest_div(Op op) {
    Expr *l = bin(O_SUB, neg(lit(2147483647)), lit(1));
    Expr *r = neg(lit(1));
    if (chance(1, 3)) {
      if (Sym *s = pick_var(T_INT, true)) {
        // 0 at compile time unknown
        r = bin(O_SUB, bin(O_MUL, var(s), lit(0)), lit(1));
      }
    }
    return bin(op, l, r);
  }

  // an expression without variables
  Expr *const_expr(int d) {
    if (d <= 0 || chance(1, 6)) {
      if (chance(1, 4)) {
        std::vector<Sym *> ks;
        for (Sym *s : p->consts) {
          if (s->ty == T_INT) {
            ks.push_back(s);
          }
        }
        if (!ks.empty()) {
          return var(ks[draw(uint32_t(ks.size()))]);
        }
      }
      static const int vals[] = {0, 1, 2, 3, 7, 31, 100, 255, 46341, 65536, 2147483647};
      if (chance(1, 12)) {
        return lit(any_int());
      }
      return lit(vals[draw(11)]);
    }
    static const Op ops[] = {O_ADD, O_SUB, O_MUL, O_DIV, O_MOD, O_AND, O_OR, O_LT, O_GT, O_LEQ, O_GEQ, O_EQ};
    const int w = weighted({10, 2, 2});
    if (w) {
      Expr *e = mk(w == 1 ? E_NEG : E_NOT);
      e->kid = {const_expr(d - 1)};
      return e;
    }
    const Op op = ops[draw(12)];
    Expr *l = const_expr(d - 1);
    if (op == O_DIV || op == O_MOD) {
      if (chance(1, 40)) {
        return bin(op, l, const_expr(d - 1));
      }
      if (chance(1, 30)) {
        return bin(op, bin(O_SUB, neg(lit(2147483647)), lit(1)), neg(lit(1)));
      }
      Expr *r = lit(chance(1, 4) ? 1 : range(1, 9));
      if (chance(1, 3)) {
        Expr *n = mk(E_NEG);
        n->kid = {r};
        r = n;
      }
      return bin(op, l, r);
    }
    return bin(op, l, const_expr(d - 1));
  }

  Expr *leaf(Ty t) {
    if (chance(1, 2)) {
      if (Sym *s = pick_var(t, false)) {
        if (!((t == T_ARR || t == T_IARR || t == T_ANY) && !aliasable(s) &&
              (s->ty == T_ARR || s->ty == T_IARR))) {
          return var(s);
        }
      }
    }
    switch (t) {
    case T_INT: {
      static const int vals[] = {0, 1, 2, 3, 7, 100, 255, 2147483647, 65536};
      if (chance(1, 16)) {
        return lit(any_int());
      }
      return lit(vals[draw(chance(1, 8) ? 9 : 5)]);
    }
    case T_FLT: {
      static const char *vals[] = {"0.5", "1.0", "2.25", "10.125", "0.1", "123456.789", "0.0009765625", "16777217.0", "1000000000.0"};
      Expr *e = mk(E_FLT);
      e->s = vals[draw(chance(1, 6) ? 9 : 5)];
      return e;
    }
    case T_STR: {
      Expr *e = mk(E_STR);
      e->s = k.wide && chance(1, 8) ? long_text() : some_text();
      return e;
    }
    case T_IARR: {
      Expr *e = mk(E_ARRAY);
      for (int i = 0, n = alen(); i < n; ++i) {
        e->kid.push_back(lit(int(draw(10))));
      }
      return e;
    }
    case T_ARR: {
      if (wild()) {
        Expr *n = mk(E_NEG);
        n->kid = {lit(range(1, 3))};
        return sys(B_NEW_ARRAY, {chance(1, 2) ? lit(0) : n});
      }
      if (chance(1, 2)) {
        return sys(B_NEW_ARRAY, {lit(chance(1, 10) ? range(5, 300) : alen())});
      }
      Expr *e = mk(E_ARRAY);
      for (int i = 0, n = alen(); i < n; ++i) {
        e->kid.push_back(chance(1, 4) ? mk(E_NONE) : lit(int(draw(10))));
      }
      return e;
    }
    case T_FUN: {
      Func *f = nullptr;
      std::vector<Func *> ok;
      for (Func *g : p->funcs) {
        if (g != fn && !g->entry && !g->runaway && (k.shared || g->group < 0)) {
          ok.push_back(g);
        }
      }
      if (!ok.empty()) {
        f = ok[draw(uint32_t(ok.size()))];
        return var(f->sym);
      }
      return mk(E_NONE);
    }
    default: {
      switch (draw(4)) {
      case 0: return lit(int(draw(10)));
      case 1: return k.strings ? leaf(T_STR) : lit(4);
      case 2: return k.floats ? leaf(T_FLT) : lit(5);
      default: return mk(E_NONE);
      }
    }
    }
  }

  Expr *index_expr(int d) {
    if (wild()) {
      return expr(chance(1, 2) ? T_INT : T_ANY, d - 1);
    }
    if (d > 0 && chance(1, 3)) {
      return sys(B_BITAND, {expr(T_INT, d - 1), lit(3)});
    }
    return lit(int(draw(4)));
  }

  Expr *int_expr(int d) {
    if (k.foldy && chance(uint32_t(k.foldy), 10)) {
      return const_expr(range(1, 4));
    }
    switch (weighted({30, 22, 10, k.arrays ? 8 : 0, k.host_calls ? 8 : 0, 6, 8, 5, 4,
                      k.arrays ? 6 : 0, k.recursion ? 6 : 4})) {
    case 0: return leaf(T_INT);
    case 1: {
      static const Op ops[] = {O_ADD, O_SUB, O_MUL};
      return bin(ops[draw(3)], expr(T_INT, d - 1), expr(T_INT, d - 1));
    }
    case 2: {
      const Op op = chance(1, 2) ? O_DIV : O_MOD;
      Expr *l = expr(T_INT, d - 1);
      if (k.zero_div && chance(1, 6)) {
        if (Sym *s = pick_var(T_INT, true)) {
          return bin(op, l, var(s));
        }
      }
      if (chance(1, 25)) {
        return smallest_div(op);
      }
      return bin(op, l, lit(range(1, 7)));
    }
    case 3: {
      if (Sym *s = pick_var(T_IARR, false)) {
        Expr *e = mk(E_INDEX);
        e->base = var(s);
        e->kid = {index_expr(d)};
        return e;
      }
      return leaf(T_INT);
    }
    case 4: return sys(H_NUM, {});
    case 5: {
      Expr *e = mk(chance(1, 2) ? E_NEG : E_NOT);
      e->kid = {expr(T_INT, d - 1)};
      return e;
    }
    case 6: {
      static const Op ops[] = {O_LT, O_GT, O_LEQ, O_GEQ, O_EQ, O_AND, O_OR, O_EQ};
      const Op op = ops[draw(8)];
      Ty t = T_INT;
      if (k.floats && chance(1, 4)) {
        t = T_FLT;
      }
      if (op == O_EQ && k.strings && chance(1, 3)) {
        t = T_STR;
      }
      if (op == O_AND || op == O_OR) {
        t = T_ANY;
      }
      if (op == O_EQ && k.funcs && chance(1, 10)) {
        // functions; for external ones there is no such comparison
        Expr *side[2];
        const bool ext = k.wild && k.host_calls && chance(1, 6);
        for (auto &x : side) {
          x = ext && chance(2, 3) ? var(p->sys[size_t(chance(1, 2) ? H_OUT : H_ECHO)]) : leaf(T_FUN);
        }
        if (ext && fn) {
          fn->calls_host = true;
        }
        return bin(op, side[0], side[1]);
      }
      if (t == T_STR && chance(1, 3)) {
        // alike up to their ends
        if (k.host_calls && chance(1, 2)) {
          return bin(op, sys(H_TXT, {lit(1)}), sys(H_TXT, {lit(2)}));
        }
        const std::string head(size_t(draw(chance(1, 3) ? 300 : 20)), 'h');
        Expr *side[2];
        for (auto &s : side) {
          Expr *h = mk(E_STR);
          h->s = head;
          Expr *e = mk(E_STR);
          static const char *tail[] = {"a", "b", "A", "", "aa", "ab"};
          e->s = tail[draw(6)];
          s = bin(O_ADD, h, e);
        }
        return bin(op, side[0], side[1]);
      }
      if (t == T_FLT && op != O_EQ && chance(1, 6)) {
        // not a number: neither less nor more nor equal
        Expr *z = mk(E_FLT), *o = mk(E_FLT);
        z->s = "0.5";
        o->s = "2.25";
        Expr *n = sys(B_SQRT, {bin(O_SUB, z, o)});
        return chance(1, 2) ? bin(op, n, expr(t, d - 1)) : bin(op, expr(t, d - 1), n);
      }
      return bin(op, expr(t, d - 1), expr(t, d - 1));
    }
    case 7: return sys(B_BITAND, {expr(T_INT, d - 1), expr(T_INT, d - 1)});
    case 8: return sys(B_ABS, {expr(T_INT, d - 1)});
    case 9: {
      Ty t = k.strings && chance(1, 3) ? T_STR : chance(1, 2) ? T_IARR : T_ARR;
      if (t != T_STR && chance(1, 2)) {
        if (Sym *s = pick_var(t, false)) {
          Expr *e = mk(E_MEMBER);
          e->sym = s;
          e->s = "length";
          return e;
        }
      }
      return sys(B_LEN, {expr(t, d - 1)});
    }
    default: {
      if (Func *f = pick_func(T_INT)) {
        return gen_call(f, d);
      }
      return leaf(T_INT);
    }
    }
  }

  Expr *expr(Ty t, int d) {
    if (wild()) {
      t = T_ANY;
    }
    if (d <= 0) {
      return leaf(t);
    }
    switch (t) {
    case T_INT: return int_expr(d);
    case T_FLT:
      switch (weighted({10, 10, 4, 6})) {
      case 0: return leaf(T_FLT);
      case 1: {
        static const Op ops[] = {O_ADD, O_SUB, O_MUL, O_DIV};
        const Op op = ops[draw(4)];
        if (op == O_DIV) {
          Expr *e = mk(E_FLT);
          e->s = "2.25";
          return bin(op, expr(T_FLT, d - 1), e);
        }
        return bin(op, expr(T_FLT, d - 1), expr(chance(1, 3) ? T_INT : T_FLT, d - 1));
      }
      case 2: return sys(chance(1, 2) ? B_MIN : B_MAX, {expr(T_INT, d - 1), expr(T_FLT, d - 1)});
      default: {
        static const int fs[] = {B_FLOOR, B_CEIL, B_ROUND, B_ABS, B_SIN, B_COS, B_TAN};
        if (chance(1, 6)) {
          return sys(B_SQRT, {sys(B_ABS, {expr(T_FLT, d - 1)})});
        }
        return sys(fs[draw(7)], {expr(T_FLT, d - 1)});
      }
      }
    case T_STR:
      switch (weighted({10, 12, 4, k.host_calls ? 4 : 0, 3})) {
      case 0: return leaf(T_STR);
      case 1: {
        Expr *l = expr(T_STR, d - 1);
        Expr *r = expr(chance(1, 2) ? T_STR : (k.floats && chance(1, 3)) ? T_FLT : T_INT, d - 1);
        return chance(1, 3) ? bin(O_ADD, r, l) : bin(O_ADD, l, r);
      }
      case 2:
        if (chance(1, 3)) {
          static const int odd[] = {0, 1, 10, 127, 128, 200, 255, 256, 321, 1000};
          return sys(B_CHR, {lit(odd[draw(10)])});
        }
        return sys(B_CHR, {bin(O_ADD, lit(65), sys(B_BITAND, {expr(T_INT, d - 1), lit(15)}))});
      case 3: return sys(H_TXT, {expr(T_INT, d - 1)});
      default:
        if (Func *f = pick_func(T_STR)) {
          return gen_call(f, d);
        }
        return leaf(T_STR);
      }
    case T_IARR:
      switch (weighted({10, 8, 4})) {
      case 0: return leaf(T_IARR);
      case 1: {
        Expr *e = mk(E_ARRAY);
        for (int i = 0, n = alen(); i < n; ++i) {
          e->kid.push_back(expr(T_INT, d - 2));
        }
        return e;
      }
      default:
        if (Func *f = pick_func(T_IARR)) {
          return gen_call(f, d);
        }
        return leaf(T_IARR);
      }
    case T_ARR:
      switch (weighted({10, 8, 4, k.mk && k.host_calls ? 3 : 0})) {
      case 0: return leaf(T_ARR);
      case 1: {
        Expr *e = mk(E_ARRAY);
        for (int i = 0, n = alen(); i < n; ++i) {
          e->kid.push_back(expr(T_ANY, d - 2));
        }
        return e;
      }
      case 2:
        if (Func *f = pick_func(T_ARR)) {
          return gen_call(f, d);
        }
        return leaf(T_ARR);
      default: {
        // a host made array has two elements; widen it so that it can be used
        // like any other
        Expr *e = mk(E_ARRAY);
        e->kid = {sys(H_MK, {expr(T_ANY, d - 1), expr(T_ANY, d - 1)}), lit(1), mk(E_NONE),
                  expr(T_ANY, d - 2)};
        return e;
      }
      }
    case T_FUN: return leaf(T_FUN);
    default:
      switch (weighted({8, 8, k.strings ? 5 : 0, k.floats ? 4 : 0, k.arrays ? 8 : 0,
                        k.host_calls ? 5 : 0, k.arrays ? 6 : 0, 4, k.funcs ? 2 : 0,
                        k.members ? 3 : 0, k.icalls ? 2 : 0})) {
      case 0: return leaf(T_ANY);
      case 1: return expr(T_INT, d);
      case 2: return expr(T_STR, d);
      case 3: return expr(T_FLT, d);
      case 4:
        if (chance(1, 5)) {
          // of fewer elements than the others, never indexed by itself
          const int n = range(1, 3);
          if (chance(1, 5)) {
            return sys(B_NEW_ARRAY, {lit(n)});
          }
          Expr *e = mk(E_ARRAY);
          for (int i = 0; i < n; ++i) {
            e->kid.push_back(expr(T_ANY, d - 2));
          }
          return e;
        }
        return expr(chance(1, 2) ? T_ARR : T_IARR, d);
      case 5: return sys(chance(1, 2) ? H_ECHO : H_PICK, {expr(T_ANY, d - 1)});
      case 6: {
        Expr *e = mk(E_INDEX);
        Sym *s = pick_var(T_ARR, false);
        if (s && !aliasable(s)) {
          s = nullptr;
        }
        e->base = s ? var(s) : expr(T_ARR, d - 1);
        e->kid = {index_expr(d)};
        return e;
      }
      case 7:
        if (Func *f = pick_func(T_ANY)) {
          return gen_call(f, d);
        }
        return leaf(T_ANY);
      case 8: return leaf(T_FUN);
      case 9: {
        if (Sym *s = pick_var(T_ANY, true)) {
          Expr *e = mk(E_MEMBER);
          e->sym = s;
          e->s = member_pool[draw(6)];
          return e;
        }
        return leaf(T_ANY);
      }
      default: {
        // an external function as a value
        static const int ids[] = {H_OUT, H_ECHO, H_VA};
        if (!k.host_calls) {
          return leaf(T_ANY);
        }
        if (fn) {
          fn->calls_host = true;
        }
        return var(p->sys[size_t(ids[draw(3)])]);
      }
      }
    }
  }

  // ---- statements
  Stmt *st(StmtKind kind) {
    Stmt *s = new Stmt;
    s->k = kind;
    spent += mult;
    return s;
  }

  Sym *declare(Ty t, const char *prefix = "v") {
    Sym *s = new Sym;
    s->name = format("%s%d", prefix, uniq++);
    s->kind = S_LOCAL;
    s->ty = t;
    s->index = fn->nslots++;
    fn->locals.push_back(s);
    return s;
  }

  Ty some_type() {
    switch (weighted({10, k.strings ? 4 : 0, k.arrays ? 4 : 0, k.arrays ? 4 : 0, k.floats ? 3 : 0,
                      k.funcs && k.icalls ? 2 : 0, 4})) {
    case 0: return T_INT;
    case 1: return T_STR;
    case 2: return T_IARR;
    case 3: return T_ARR;
    case 4: return T_FLT;
    case 5: return T_FUN;
    default: return T_ANY;
    }
  }

  Expr *cond(int d) {
    if (k.foldy && chance(uint32_t(k.foldy), 10)) {
      return const_expr(range(0, 3));
    }
    if (k.constfold && chance(1, 6)) {
      switch (draw(5)) {
      case 0: return lit(0);
      case 1: return lit(1);
      case 2: return bin(O_EQ, bin(O_ADD, lit(1), lit(2)), lit(3));
      case 3: return bin(O_LT, lit(int(draw(3))), lit(int(draw(3))));
      default:
        if (!p->consts.empty()) {
          return var(p->consts[draw(uint32_t(p->consts.size()))]);
        }
        return lit(0);
      }
    }
    return chance(1, 5) ? expr(T_ANY, d) : expr(T_INT, d);
  }

  Stmt *stmt(int nest) {
    for (int attempt = 0; attempt < 4; ++attempt) {
      switch (weighted({k.host_calls ? 22 : 4, 16, 12, 5, k.arrays ? 12 : 0, nest > 0 ? 10 : 0,
                        nest > 0 ? 5 : 0, nest > 0 ? 5 : 0, 3, k.spawn ? 4 : 0, k.waits ? 5 : 0,
                        k.members ? 4 : 0, k.boom ? 3 : 0, k.nested ? 3 : 0, 5,
                        k.runaway ? 1 : 0, k.icalls ? 4 : 0})) {
      case 0: {
        Stmt *s = st(ST_CALL);
        switch (weighted({10, 3, 3})) {
        case 0: s->e = sys(H_OUT, {expr(T_ANY, k.depth)}); break;
        case 1: {
          std::vector<Expr *> a;
          const bool many = chance(1, 25);
          const int n = many ? range(5, 40) : range(0, 4);
          for (int i = 0; i < n; ++i) {
            a.push_back(expr(T_ANY, many ? 1 : k.depth - 1));
          }
          s->e = sys(H_VA, a);
          break;
        }
        default: s->e = sys(H_YIELD, {}); break;
        }
        return s;
      }
      case 1: {
        const Ty t = some_type();
        Stmt *s = st(ST_VAR);
        s->e = expr(t, k.depth);
        Sym *v = declare(t);
        if (t == T_FUN) {
          // remember the target so that it can be called with the right arguments
          v->fn = s->e->k == E_VAR ? s->e->sym->fn : nullptr;
          v->readonly = true;
        }
        s->sym = v;
        scopes.back().push_back(v);
        return s;
      }
      case 2: {
        Sym *v = pick_var(T_ANY, true);
        if (!v || v->ty == T_FUN) {
          continue;
        }
        Stmt *s = st(ST_ASSIGN);
        s->sym = v;
        s->e = expr(v->ty, k.depth);
        return s;
      }
      case 3: {
        Sym *v = pick_var(T_INT, true);
        if (!v) {
          continue;
        }
        Stmt *s = st(ST_COMPOUND);
        static const Op ops[] = {O_ADD, O_SUB, O_MUL, O_DIV};
        s->op = ops[draw(4)];
        s->sym = v;
        s->e = s->op == O_DIV ? lit(range(1, 5)) : expr(T_INT, k.depth - 1);
        return s;
      }
      case 4: {
        const bool ia = chance(1, 2);
        Sym *v = pick_var(ia ? T_IARR : T_ARR, true);
        if (!v) {
          continue;
        }
        Stmt *s = st(ST_SETA);
        s->sym = v;
        s->e = index_expr(k.depth);
        s->e2 = expr(ia ? T_INT : T_ANY, k.depth);
        return s;
      }
      case 5: {
        Stmt *s = st(ST_IF);
        s->e = cond(k.depth);
        block(s->a, nest - 1, range(0, k.stmts / 2 + 1));
        if (chance(1, 2)) {
          s->has_else = true;
          block(s->b, nest - 1, range(0, k.stmts / 2 + 1));
        }
        return s;
      }
      case 6: {
        if (loops >= 2 || mult > 20) {
          continue;
        }
        const int n = range(0, 4);
        // the counter has to exist before the loop: use an existing local
        // declared by us right before (the caller inserts it)
        Sym *c = declare(T_INT, "w");
        c->readonly = true;
        Stmt *d = st(ST_VAR);
        d->sym = c;
        d->e = lit(0);
        pending.push_back(d);
        scopes.back().push_back(c);
        Stmt *s = st(ST_WHILE);
        const bool forever = k.constfold && chance(1, 10);
        if (forever) {
          // left by a return
          static const int always[] = {1, -1, 2, -7, INT_MAX, INT_MIN + 1, 256};
          s->e = chance(1, 4) ? bin(O_SUB, lit(range(0, 3)), lit(range(4, 9))) : lit(always[draw(7)]);
        } else if (k.constfold && chance(1, 12)) {
          s->e = lit(0);
        } else {
          s->e = bin(O_LT, var(c), lit(n));
          if (chance(1, 4)) {
            s->e = bin(O_AND, s->e, chance(1, 2) ? lit(1) : expr(T_INT, 1));
          }
        }
        const int m = mult;
        mult *= n > 0 ? n + 1 : 1;
        loops++;
        const bool first = chance(1, 2);
        Stmt *inc = st(ST_COMPOUND);
        inc->op = O_ADD;
        inc->sym = c;
        inc->e = lit(1);
        if (first) {
          s->a.push_back(inc);
        }
        if (forever) {
          Stmt *leave = st(ST_IF);
          leave->e = bin(O_GT, var(c), lit(n));
          Stmt *r = st(ST_RETURN);
          r->e = expr(fn->ret, 1);
          leave->a.push_back(r);
          s->a.push_back(leave);
        }
        block(s->a, nest - 1, range(0, k.stmts / 2 + 1), !first);
        if (!first) {
          s->a.push_back(inc);
        }
        loops--;
        mult = m;
        return s;
      }
      case 7: {
        if (loops >= 2 || mult > 20) {
          continue;
        }
        Sym *c = declare(T_INT, "i");
        c->readonly = true;
        Stmt *d = st(ST_VAR);
        d->sym = c;
        d->e = lit(0);
        pending.push_back(d);
        scopes.back().push_back(c);
        Stmt *s = st(ST_FOR);
        s->sym = c;
        const int a = range(0, 2);
        const int n = range(0, 3);
        s->e = lit(a);
        s->e2 = lit(a + n);
        int bound = n;
        if (k.arrays && chance(1, 4)) {
          if (Sym *arr = pick_var(T_IARR, false)) {
            s->e2 = sys(B_LEN, {var(arr)});
            bound = 4;
          }
        } else if (k.host_calls && chance(1, 8)) {
          s->e2 = sys(H_NUM, {});
          bound = 6;
        }
        if (lb && chance(1, 2)) {
          s->sym = lg;
          s->e2 = call(lb->sym, {});
          bound = 5;
        }
        const int m = mult;
        mult *= bound + 1;
        loops++;
        block(s->a, nest - 1, range(0, k.stmts / 2 + 1));
        loops--;
        mult = m;
        return s;
      }
      case 8: {
        Stmt *s = st(ST_RETURN);
        if (!chance(1, 8) || fn->ret != T_ANY) {
          s->e = expr(fn->ret, k.depth);
        }
        return s;
      }
      case 9: {
        if (loops > 0) {
          continue;
        }
        Func *f = pick_func(T_ANY, true);
        if (!f) {
          continue;
        }
        spent += mult * f->cost;
        std::vector<Expr *> a;
        a.push_back(var(f->sym));
        for (Sym *x : f->args) {
          if (!k.shared && (x->ty == T_ARR || x->ty == T_IARR || x->ty == T_ANY)) {
            // a fresh array: nothing is shared with the parent
            Expr *e = mk(E_ARRAY);
            for (int i = 0; i < 4; ++i) {
              e->kid.push_back(expr(T_INT, 1));
            }
            a.push_back(e);
          } else {
            a.push_back(expr(x->ty, 1));
          }
        }
        if (wild()) {
          a.push_back(lit(1));
        }
        Stmt *s = st(ST_CALL);
        s->e = sys(B_NEW_THREAD, a);
        if (k.host_calls && chance(1, 5)) {
          s->e = sys(H_VA, {expr(T_INT, 1), s->e});
        }
        return s;
      }
      case 10: {
        Stmt *s = st(ST_CALL);
        static const int vals[] = {1, 2, 0, 3, 5};
        Expr *n = lit(vals[draw(5)]);
        if (chance(1, 8)) {
          Expr *m = mk(E_NEG);
          m->kid = {lit(range(1, 3))};
          n = m;
        } else if (chance(1, 8)) {
          n = mk(E_FLT);
          n->s = "2.5";
        } else if (chance(1, 40) && loops == 0) {
          static const int big[] = {127, 128, 255, 256, 257, 300, 1000};
          n = lit(big[draw(7)]);
        }
        s->e = sys(B_WAIT, {n});
        if (k.host_calls && chance(1, 5)) {
          // in the middle of an expression
          s->e = chance(1, 2) ? sys(H_OUT, {s->e}) : sys(H_VA, {expr(T_INT, 1), s->e, expr(T_ANY, 1)});
        }
        return s;
      }
      case 11: {
        Sym *v = pick_var(T_ANY, true);
        if (!v) {
          continue;
        }
        Stmt *s = st(ST_SETM);
        s->sym = v;
        s->s = member_pool[1 + draw(5)];
        s->e = expr(T_ANY, k.depth - 1);
        return s;
      }
      case 12: {
        Stmt *s = st(ST_CALL);
        s->e = sys(H_BOOM, {expr(T_INT, 1)});
        return s;
      }
      case 13: {
        // the host calls back into the machine
        std::vector<Func *> ok;
        for (Func *f : p->funcs) {
          if (f != fn && !f->entry && !f->runaway && f->args.size() == 1 &&
              spent + mult * f->cost <= k.budget && (k.shared || f->group < 0) &&
              (k.shared || (f->args[0]->ty != T_ARR && f->args[0]->ty != T_IARR))) {
            ok.push_back(f);
          }
        }
        if (ok.empty()) {
          continue;
        }
        Func *f = ok[draw(uint32_t(ok.size()))];
        spent += mult * f->cost;
        Stmt *s = st(ST_ASSIGN);
        Sym *v = pick_var(T_ANY, true);
        Expr *e = sys(H_NEST, {var(f->sym), expr(f->args[0]->ty, 1)});
        if (v && v->ty == T_ANY) {
          s->sym = v;
          s->e = e;
        } else {
          s->k = ST_CALL;
          s->e = sys(H_OUT, {e});
        }
        return s;
      }
      case 14: {
        Func *f = pick_func(T_ANY);
        if (!f) {
          continue;
        }
        Stmt *s = st(ST_CALL);
        s->e = gen_call(f, k.depth);
        return s;
      }
      case 15: {
        for (Func *f : p->funcs) {
          if (f->runaway && mult == 1) {
            Stmt *s = st(ST_CALL);
            s->e = call(f->sym, {});
            return s;
          }
        }
        continue;
      }
      default: {
        // call whatever a variable holds
        if (k.wild == 0 || chance(1, 2)) {
          // an external function through a variable
          Sym *v = declare(T_FUN, "x");
          v->readonly = true;
          Stmt *d = st(ST_VAR);
          static const int ids[] = {H_OUT, H_ECHO, H_VA, B_ABS, B_BITAND, H_FIX2, B_LEN, B_MAX, H_MK, H_TXT};
          const int id = ids[draw(k.host_calls ? 10 : 1)];
          if (!k.host_calls) {
            continue;
          }
          fn->calls_host = true;
          d->sym = v;
          d->e = var(p->sys[size_t(id)]);
          pending.push_back(d);
          scopes.back().push_back(v);
          Stmt *s = st(ST_CALL);
          std::vector<Expr *> a;
          int n = sys_info[id].nargs;
          if (n < 0) {
            n = chance(1, 12) ? range(4, 30) : range(0, 3);
          } else if (k.bad_argc && chance(uint32_t(k.bad_argc), 20)) {
            n = range(0, 4);
          }
          for (int i = 0; i < n; ++i) {
            a.push_back(id == B_LEN && i == 0 ? expr(k.strings ? T_STR : T_IARR, 1) : expr(T_INT, 1));
          }
          s->e = call(v, a);
          if (chance(1, 2)) {
            // in the middle of an expression
            s->e = sys(H_VA, {lit(3), s->e, expr(T_ANY, 1)});
          }
          return s;
        }
        Sym *v = pick_var(T_ANY, false);
        if (!v || v->kind == S_CONST || (v->fn && spent + mult * v->fn->cost > k.budget)) {
          continue;
        }
        if (!v->fn && (v->ty == T_FUN || v->ty == T_ANY)) {
          // unknown target: could be costly or recursive
          continue;
        }
        Stmt *s = st(ST_CALL);
        std::vector<Expr *> a;
        const int n = v->fn && chance(1, 2) ? int(v->fn->args.size()) : range(0, 3);
        for (int i = 0; i < n; ++i) {
          a.push_back(expr(v->fn && i < int(v->fn->args.size()) ? v->fn->args[size_t(i)]->ty : T_INT, 1));
        }
        if (v->fn) {
          spent += mult * v->fn->cost;
          if (v->fn->calls_host) {
            fn->calls_host = true;
          }
        }
        s->e = call(v, a);
        return s;
      }
      }
    }
    Stmt *s = st(ST_CALL);
    s->e = k.host_calls ? sys(H_OUT, {lit(int(draw(10)))}) : sys(B_ABS, {lit(1)});
    return s;
  }

  std::vector<Stmt *> pending; // declarations that must precede the statement

  // no_return: the end of the block has to be reached (it holds a counter)
  void block(std::vector<Stmt *> &out, int nest, int n, bool no_return = false) {
    scopes.emplace_back();
    for (int i = 0; i < n && spent < k.budget; ++i) {
      std::vector<Stmt *> saved;
      saved.swap(pending);
      Stmt *s = stmt(nest);
      for (Stmt *d : pending) {
        out.push_back(d);
      }
      pending.swap(saved);
      if (s->k == ST_RETURN && no_return) {
        s->k = ST_CALL;
        s->e = k.host_calls ? sys(H_OUT, {s->e ? s->e : lit(1)}) : sys(B_ABS, {lit(1)});
      }
      out.push_back(s);
      if (s->k == ST_RETURN && !k.dead_code) {
        break;
      }
    }
    scopes.pop_back();
  }

  void function(Func *f, int nstmts) {
    fn = f;
    spent = 0;
    mult = 1;
    loops = 0;
    scopes.clear();
    scopes.emplace_back();
    f->nslots = 0;
    for (Sym *a : f->args) {
      a->index = f->nslots++;
      scopes.back().push_back(a);
    }
    scopes.emplace_back();
    // bounded recursion: the first argument counts down
    if (k.recursion && !f->args.empty() && f->args[0]->ty == T_INT && !f->entry && chance(k.deep ? 2 : 1, 3)) {
      Sym *n = f->args[0];
      n->readonly = true;
      f->deep = chance(k.deep ? 3 : 1, 4) ? range(7, 20) : range(2, 6);
      Stmt *s = st(ST_IF);
      // guard against large arguments as well
      s->e = bin(O_OR, bin(O_LEQ, var(n), lit(0)), bin(O_GT, var(n), lit(f->deep)));
      Stmt *r = st(ST_RETURN);
      r->e = expr(f->ret, 1);
      s->a.push_back(r);
      f->body.push_back(s);
      // the recursive call
      std::vector<Expr *> args;
      args.push_back(bin(O_SUB, var(n), lit(1)));
      for (size_t i = 1; i < f->args.size(); ++i) {
        args.push_back(expr(f->args[i]->ty, 1));
      }
      Stmt *v = st(ST_VAR);
      v->e = call(f->sym, args);
      Sym *rs = declare(f->ret);
      v->sym = rs;
      if (f->ret == T_FUN) {
        rs->readonly = true;
      }
      f->body.push_back(v);
      scopes.back().push_back(rs);
      spent = (spent + 1) * std::max(6, f->deep);
      mult = std::max(6, f->deep) + 1;
    } else if (k.uninit && chance(1, 6)) {
      Stmt *v = st(ST_VAR);
      v->sym = declare(T_ANY);
      f->body.push_back(v);
      scopes.back().push_back(v->sym);
    }
    if (k.wide && chance(1, 3)) {
      const int n = range(10, 280);
      for (int i = 0; i < n; ++i) {
        Stmt *v = st(ST_VAR);
        v->sym = declare(i % 3 == 1 && k.strings ? T_STR : T_INT);
        if (v->sym->ty == T_STR) {
          v->e = mk(E_STR);
          v->e->s = str_pool[i % str_pool_size];
        } else {
          v->e = lit(i);
        }
        f->body.push_back(v);
        scopes.back().push_back(v->sym);
      }
    }
    if (k.exts && k.host_calls && !exts_done) {
      exts_done = true;
      Stmt *v = st(ST_VAR);
      v->sym = declare(T_INT);
      v->sym->readonly = true;
      v->e = lit(1);
      f->body.push_back(v);
      Stmt *w = st(ST_IF);
      w->e = bin(O_EQ, var(v->sym), lit(12345));
      for (int i = 0; i < k.exts; ++i) {
        Sym *x = new Sym;
        x->name = ext_name(i);
        x->kind = S_SYS;
        x->index = SYS_COUNT + i;
        Stmt *c = new Stmt;
        c->k = ST_CALL;
        c->e = call(x, {});
        w->a.push_back(c);
      }
      f->body.push_back(w);
      scopes.back().push_back(v->sym);
    }
    if (k.bulk && !bulk_done && chance(1, 2)) {
      // a jump over more code than fits a small offset
      bulk_done = true;
      Stmt *v = st(ST_VAR);
      v->sym = declare(T_INT);
      v->e = lit(range(0, 1));
      f->body.push_back(v);
      Stmt *w = st(ST_IF);
      w->e = bin(O_EQ, var(v->sym), lit(0));
      for (int i = 0; i < k.bulk; ++i) {
        Stmt *c = new Stmt;
        c->k = ST_COMPOUND;
        c->sym = v->sym;
        c->op = O_ADD;
        c->e = lit(i % 7);
        w->a.push_back(c);
      }
      f->body.push_back(w);
      scopes.back().push_back(v->sym);
    }
    if (k.busy && f->entry && chance(2, 3)) {
      Stmt *v = st(ST_VAR);
      v->sym = declare(T_INT);
      v->sym->readonly = true;
      v->e = lit(0);
      f->body.push_back(v);
      Stmt *w = st(ST_WHILE);
      w->e = bin(O_LT, var(v->sym), lit(range(500, 20000)));
      Stmt *i = st(ST_COMPOUND);
      i->sym = v->sym;
      i->op = O_ADD;
      i->e = lit(1);
      w->a.push_back(i);
      f->body.push_back(w);
      scopes.back().push_back(v->sym);
    }
    for (int i = 0; i < nstmts && spent < k.budget; ++i) {
      pending.clear();
      Stmt *s = stmt(k.nest);
      for (Stmt *d : pending) {
        f->body.push_back(d);
      }
      f->body.push_back(s);
      if (s->k == ST_RETURN && !k.dead_code) {
        break;
      }
    }
    if (f->body.empty() || f->body.back()->k != ST_RETURN) {
      if (f->ret != T_ANY || chance(2, 3)) {
        if (f->ret != T_INT || chance(3, 4)) {
          Stmt *r = st(ST_RETURN);
          r->e = expr(f->ret, k.depth - 1);
          f->body.push_back(r);
        }
      }
    }
    f->cost = spent + 1;
    scopes.clear();
    fn = nullptr;
  }
};

} // namespace

// ---- source order and names -------------------------------------------------------
// functions can be anywhere; globals keep their order, which is the order of
// initialisation, but can follow the functions that use them
static void arrange(Program &p) {
  const Knobs &k = p.k;
  std::vector<Item> fs;
  for (int file = 0; file < k.files; ++file) {
    for (Func *f : p.funcs) {
      if (file == 0) {
        f->file = k.files > 1 ? int(draw(uint32_t(k.files))) : 0;
      }
      if (f->file == file) {
        Item i;
        i.fn = f;
        i.file = file;
        fs.push_back(i);
      }
    }
  }
  size_t pos = 0;
  bool late = false;
  std::vector<Sym *> all = p.consts;
  all.insert(all.end(), p.globals.begin(), p.globals.end());
  for (Sym *s : all) {
    if (k.late && !fs.empty() && chance(1, 2)) {
      const size_t np = size_t(draw(uint32_t(fs.size() + 1)));
      late = true;
      while (pos < np) {
        p.order.push_back(fs[pos++]);
      }
    }
    Item i;
    i.sym = s;
    i.file = late && !p.order.empty() ? p.order.back().file : 0;
    p.order.push_back(i);
  }
  while (pos < fs.size()) {
    p.order.push_back(fs[pos++]);
  }
  // an empty file cannot be loaded
  for (int file = 0; file < k.files; ++file) {
    bool any = false;
    for (auto &i : p.order) {
      any |= i.file == file;
    }
    if (!any) {
      for (auto &i : p.order) {
        i.file = 0;
        if (i.fn) {
          i.fn->file = 0;
        }
      }
      p.k.files = 1;
      break;
    }
  }
}

namespace {
struct Renamer {
  Program &p;
  Rng rng;
  std::vector<std::string> late; // declared after the current function
  std::vector<std::vector<std::string>> active;
  explicit Renamer(Program &q, uint64_t seed) : p(q), rng(seed) {}

  static bool mentions(const Expr *e, const std::string &n) {
    if (!e) {
      return false;
    }
    if (e->sym && e->sym->name == n) {
      return true;
    }
    for (auto *x : e->kid) {
      if (mentions(x, n)) {
        return true;
      }
    }
    return mentions(e->base, n);
  }
  static bool mentions(const std::vector<Stmt *> &b, size_t from, const std::string &n) {
    for (size_t i = from; i < b.size(); ++i) {
      const Stmt *s = b[i];
      if ((s->sym && s->sym->name == n) || mentions(s->e, n) || mentions(s->e2, n) ||
          mentions(s->a, 0, n) || mentions(s->b, 0, n)) {
        return true;
      }
    }
    return false;
  }
  bool taken(const std::string &n) {
    for (auto &v : active) {
      for (auto &x : v) {
        if (x == n) {
          return true;
        }
      }
    }
    return false;
  }
  // a name for something that is visible in b from a statement on
  void pick(Sym *s, const std::vector<Stmt *> &b, size_t from) {
    static const char *pool[] = {"x", "y", "z", "v", "w", "n", "xx", "X"};
    std::string best = s->name;
    for (int tries = 0; tries < 4; ++tries) {
      std::string n = pool[rng.below(8)];
      bool shadow = false;
      if (p.k.reuse >= 2 && !late.empty() && rng.below(3) == 0) {
        n = late[rng.below(uint32_t(late.size()))];
        shadow = true;
      }
      if (taken(n) || (shadow && mentions(b, from, n))) {
        continue;
      }
      best = n;
      break;
    }
    s->name = best;
    active.back().push_back(best);
  }
  void block(std::vector<Stmt *> &b) {
    active.emplace_back();
    for (size_t i = 0; i < b.size(); ++i) {
      Stmt *s = b[i];
      if (s->k == ST_VAR) {
        pick(s->sym, b, i + 1);
      }
      block(s->a);
      block(s->b);
    }
    if (p.k.reuse < 2 && active.size() > 1) {
      // names stay unique within a function
      auto &v = active[active.size() - 2];
      v.insert(v.end(), active.back().begin(), active.back().end());
    }
    active.pop_back();
  }
};
} // namespace

static void rename(Program &p) {
  Renamer r(p, draw_seed());
  // temporary marks keep the names of symbols apart while we look for mentions
  for (size_t i = 0; i < p.order.size(); ++i) {
    Func *f = p.order[i].fn;
    if (!f) {
      continue;
    }
    r.late.clear();
    for (size_t j = i + 1; j < p.order.size(); ++j) {
      const Item &x = p.order[j];
      if (x.sym || !x.fn->entry) {
        r.late.push_back(x.sym ? x.sym->name : x.fn->name);
      }
    }
    r.active.clear();
    r.active.emplace_back();
    for (Sym *s : f->args) {
      r.pick(s, f->body, 0);
    }
    r.block(f->body);
  }
}

int some_line(const Program &p) {
  const int file = p.lines.size() > 1 ? int(draw(uint32_t(p.lines.size()))) : 0;
  return pack(file, range(1, p.lines[size_t(file)]));
}

// a global array of blocks that fill the heap up to some level
static void add_ballast(Gen &g) {
  Program *p = g.p;
  Func *f = new Func;
  f->name = "mkb";
  f->runaway = true; // not to be called by others
  f->sym = new Sym;
  f->sym->name = f->name;
  f->sym->kind = S_FUNC;
  f->sym->fn = f;
  f->sym->ty = T_FUN;
  g.k.host_calls = false;
  g.fn = f;
  f->nslots = 0;
  auto decl = [&](Ty t, Expr *e) {
    Stmt *v = g.st(ST_VAR);
    v->sym = g.declare(t);
    v->e = e;
    f->body.push_back(v);
    return v->sym;
  };
  auto loop = [&](int n, Stmt *body, Sym *i) {
    Stmt *s = g.st(ST_FOR);
    s->sym = i;
    s->e = g.lit(0);
    s->e2 = g.lit(n);
    s->a.push_back(body);
    f->body.push_back(s);
  };
  Sym *a = decl(T_ARR, g.sys(B_NEW_ARRAY, {g.lit(g.k.ballast)}));
  Expr *t = g.mk(E_STR);
  t->s = "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ+-";
  Sym *s = decl(T_STR, t);
  Sym *i = decl(T_INT, g.lit(0));
  Stmt *twice = g.st(ST_ASSIGN);
  twice->sym = s;
  twice->e = g.bin(O_ADD, g.var(s), g.var(s));
  loop(5, twice, i);
  Stmt *set = g.st(ST_SETA);
  set->sym = a;
  set->e = g.var(i);
  set->e2 = g.var(s);
  loop(g.k.ballast, set, i);
  Stmt *r = g.st(ST_RETURN);
  r->e = g.var(a);
  f->body.push_back(r);
  f->index = int(p->funcs.size());
  p->funcs.push_back(f);
  g.fn = nullptr;
  Sym *v = new Sym;
  v->name = "GB";
  v->kind = S_GLOBAL;
  v->index = int(p->globals.size());
  v->ty = T_ARR;
  v->readonly = true;
  v->init = g.call(f->sym, {});
  p->globals.push_back(v);
}

// names that are hard to tell apart
void restyle(Program &p) {
  std::set<Sym *> done;
  auto one = [&](Sym *s) {
    std::string &n = s->name;
    size_t at = n.find_first_of("0123456789");
    if (at == std::string::npos || at == 0 || at > 2 || !done.insert(s).second) {
      return;
    }
    switch (p.k.names) {
    case 1: n = std::string(size_t(p.k.names * 240), 'l') + n; break;
    case 2: {
      const int v = atoi(n.c_str() + at);
      n.resize(at);
      for (int b = 0; b < 12; ++b) {
        n += (v >> b) & 1 ? 'X' : 'x';
      }
      break;
    }
    default: n = "_" + n + "_tail"; break;
    }
  };
  for (Sym *s : p.consts) {
    one(s);
  }
  for (Sym *s : p.globals) {
    one(s);
  }
  for (Func *f : p.funcs) {
    one(f->sym);
    f->name = f->sym->name;
    for (Sym *s : f->args) {
      one(s);
    }
    for (Sym *s : f->locals) {
      one(s);
    }
  }
}

Program *generate(const Knobs &k) {
  Program *p = new Program;
  p->k = k;
  Gen g;
  g.p = p;
  g.k = k;
  for (int i = 0; i < SYS_COUNT; ++i) {
    Sym *s = new Sym;
    s->name = sys_info[i].name;
    s->kind = S_SYS;
    s->index = i;
    p->sys.push_back(s);
  }
  const int nconst = k.constfold ? range(0, 3) : 0;
  for (int i = 0; i < nconst; ++i) {
    Sym *s = new Sym;
    s->name = format("K%d", i);
    s->kind = S_CONST;
    switch (draw(k.foldy ? 6 : 4)) {
    case 0:
      s->ty = T_INT;
      s->init = g.lit(int(draw(5)));
      break;
    case 4:
    case 5:
      s->ty = T_INT;
      s->init = g.const_expr(range(1, 3));
      if (s->init->k == E_VAR) {
        // a plain name is no constant expression everywhere
        s->init = g.bin(O_ADD, s->init, g.lit(0));
      }
      break;
    case 1:
      s->ty = T_INT;
      s->init = g.bin(O_ADD, g.lit(2), g.bin(O_MUL, g.lit(3), g.lit(int(draw(4)))));
      break;
    case 2:
      s->ty = T_STR;
      s->init = g.mk(E_STR);
      s->init->s = g.some_text();
      break;
    default:
      s->ty = T_FLT;
      s->init = g.mk(E_FLT);
      s->init->s = "1.5";
      break;
    }
    p->consts.push_back(s);
  }
  const int small = k.globals;
  const int many = k.wide && chance(1, 2) ? small + range(10, 280) : small;
  for (int i = 0; i < many; ++i) {
    Sym *s = new Sym;
    s->name = format("g%d", i);
    s->kind = S_GLOBAL;
    s->index = i;
    s->line = -1;
    if (i < small) {
      s->ty = g.some_type();
    } else {
      s->ty = i % 3 == 1 && k.strings ? T_STR : i % 3 == 2 && k.arrays ? T_IARR : T_INT;
    }
    if (s->ty == T_FUN) {
      s->ty = T_INT;
    }
    s->group = i < small ? int(draw(uint32_t(k.entries + 1))) - 1 : i % (k.entries + 1) - 1;
    if (!k.shared && s->group < 0) {
      // shared for reading only, and never containing references
      s->readonly = true;
      if (s->ty == T_ARR || s->ty == T_ANY) {
        s->ty = T_IARR;
      }
      if (!k.arrays && s->ty == T_IARR) {
        s->ty = T_INT;
      }
    }
    p->globals.push_back(s);
  }
  if (k.shared && chance(1, 6)) {
    Sym *s = new Sym;
    s->name = "lg";
    s->kind = S_GLOBAL;
    s->index = many;
    s->line = -1;
    s->ty = T_INT;
    s->group = -1;
    s->readonly = true;
    p->globals.push_back(s);
    // counts the calls, so that loops that disturb one another come to an end
    Sym *n = new Sym;
    *n = *s;
    n->name = "ln";
    n->index = many + 1;
    p->globals.push_back(n);
    Func *f = new Func;
    f->name = "lb";
    f->ret = T_INT;
    f->group = -1;
    f->cost = 4;
    f->sym = new Sym;
    f->sym->name = f->name;
    f->sym->kind = S_FUNC;
    f->sym->fn = f;
    f->sym->ty = T_FUN;
    Stmt *a = g.st(ST_ASSIGN);
    a->sym = s;
    a->e = g.bin(O_ADD, g.var(s), g.lit(range(1, 2)));
    f->body.push_back(a);
    Stmt *c = g.st(ST_ASSIGN);
    c->sym = n;
    c->e = g.bin(O_ADD, g.var(n), g.lit(1));
    f->body.push_back(c);
    Stmt *over = g.st(ST_IF);
    over->e = g.bin(O_GT, g.var(n), g.lit(range(20, 60)));
    Stmt *stop = g.st(ST_RETURN);
    stop->e = g.neg(g.lit(9));
    over->a.push_back(stop);
    f->body.push_back(over);
    Stmt *r = g.st(ST_RETURN);
    r->e = g.lit(range(2, 6));
    f->body.push_back(r);
    f->index = int(p->funcs.size());
    p->funcs.push_back(f);
    g.lg = s;
    g.lb = f;
  }
  if (k.sleeper) {
    Func *f = new Func;
    f->name = "slp";
    f->entry = true; // not to be called by others
    f->group = -1;
    f->ret = T_INT;
    f->sym = new Sym;
    f->sym->name = f->name;
    f->sym->kind = S_FUNC;
    f->sym->fn = f;
    f->sym->ty = T_FUN;
    Sym *a = new Sym;
    a->name = "n";
    a->kind = S_ARG;
    a->ty = T_INT;
    a->index = f->nslots++;
    f->args.push_back(a);
    Stmt *s = g.st(ST_CALL);
    s->e = g.sys(B_WAIT, {g.var(a)});
    f->body.push_back(s);
    Stmt *r = g.st(ST_RETURN);
    r->e = g.var(a);
    f->body.push_back(r);
    f->index = int(p->funcs.size());
    p->funcs.push_back(f);
    p->sleeper = f;
  }
  if (k.runaway) {
    Func *f = new Func;
    f->name = "deep";
    f->runaway = true;
    f->sym = new Sym;
    f->sym->name = f->name;
    f->sym->kind = S_FUNC;
    f->sym->fn = f;
    f->sym->ty = T_FUN;
    Stmt *r = g.st(ST_RETURN);
    r->e = g.call(f->sym, {});
    f->body.push_back(r);
    f->index = int(p->funcs.size());
    p->funcs.push_back(f);
  }
  Func *slow = nullptr;
  if (k.long_init) {
    Func *f = slow = new Func;
    f->name = "slow";
    f->entry = true; // others do not call it
    f->ret = T_INT;
    f->sym = new Sym;
    f->sym->name = f->name;
    f->sym->kind = S_FUNC;
    f->sym->fn = f;
    f->sym->ty = T_FUN;
    Sym *a = new Sym;
    a->name = "n";
    a->kind = S_ARG;
    a->ty = T_INT;
    a->index = f->nslots++;
    f->args.push_back(a);
    Stmt *s = g.st(ST_ASSIGN);
    s->sym = a;
    s->e = g.lit(range(500, 6000));
    f->body.push_back(s);
    Stmt *w = g.st(ST_WHILE);
    w->e = g.bin(O_GT, g.var(a), g.lit(3));
    Stmt *d = g.st(ST_COMPOUND);
    d->sym = a;
    d->op = O_SUB;
    d->e = g.lit(1);
    w->a.push_back(d);
    f->body.push_back(w);
    Stmt *r = g.st(ST_RETURN);
    r->e = g.var(a);
    f->body.push_back(r);
    f->index = int(p->funcs.size());
    p->funcs.push_back(f);
  }
  const int helpers = k.helpers + (k.wide && chance(1, 3) ? range(5, 40) : 0);
  for (int i = 0; i < helpers + k.entries; ++i) {
    Func *f = new Func;
    f->entry = i >= helpers;
    f->name = f->entry ? format("t%d", i - helpers) : format("h%d", i);
    f->sym = new Sym;
    f->sym->name = f->name;
    f->sym->kind = S_FUNC;
    f->sym->fn = f;
    f->sym->ty = T_FUN;
    f->group = f->entry ? i - helpers : int(draw(uint32_t(k.entries + 1))) - 1;
    f->ret = f->entry ? T_ANY : g.some_type();
    if (f->ret == T_FUN) {
      f->ret = T_ANY;
    }
    const int nargs = k.wide && chance(1, 3) ? range(4, 20) : range(0, 3);
    for (int a = 0; a < nargs; ++a) {
      Sym *s = new Sym;
      s->name = format("a%d", g.uniq++);
      s->kind = S_ARG;
      s->ty = f->entry ? T_INT : (a == 0 && chance(1, 2)) ? T_INT : g.some_type();
      if (s->ty == T_FUN) {
        s->ty = T_ANY;
      }
      f->args.push_back(s);
    }
    g.function(f, range(1, k.stmts));
    f->index = int(p->funcs.size());
    p->funcs.push_back(f);
    if (f->entry) {
      p->entries.push_back(f);
    }
  }
  // global initialisers may use functions and earlier globals
  g.in_init = true;
  g.fn = nullptr;
  g.scopes.clear();
  for (Sym *s : p->globals) {
    g.spent = 0;
    g.k.host_calls = k.host_calls && k.init_calls && k.shared;
    if (s->index >= small) {
      if (s->ty == T_INT) {
        s->init = g.lit(s->index);
      } else if (s->ty == T_STR) {
        s->init = g.mk(E_STR);
        s->init->s = str_pool[s->index % str_pool_size];
      } else {
        s->init = g.mk(E_ARRAY);
        for (int i = 0; i < 4; ++i) {
          s->init->kid.push_back(g.lit(s->index + i));
        }
      }
    } else if (slow && s->ty == T_INT && chance(2, 3)) {
      s->init = g.call(slow->sym, {g.lit(int(draw(5)))});
      slow = chance(1, 2) ? slow : nullptr;
    } else if (s->ty == T_ANY && chance(1, 2)) {
      s->init = nullptr; // starts as none
    } else {
      const int d = k.init_calls ? k.depth - 1 : 0;
      // in partitioned programs an initialiser must not alias other globals
      Ty t = s->ty;
      if (!k.shared && (t == T_ARR || t == T_ANY)) {
        Expr *e = g.mk(E_ARRAY);
        for (int i = 0; i < 4; ++i) {
          e->kid.push_back(g.lit(int(draw(10))));
        }
        s->init = e;
      } else if (!k.shared && t == T_IARR) {
        g.fn = nullptr;
        Expr *e = g.mk(E_ARRAY);
        for (int i = 0; i < 4; ++i) {
          e->kid.push_back(g.lit(int(draw(10))));
        }
        s->init = e;
      } else {
        s->init = g.expr(t, d);
      }
    }
    s->line = 0;
  }
  if (k.ballast) {
    add_ballast(g);
  }
  arrange(*p);
  if (k.reuse) {
    rename(*p);
  }
  if (k.names) {
    restyle(*p);
  }
  g_exts = g.exts_done ? k.exts : 0;
  g_decoys = chance(1, 3) ? range(1, 3) : 0;
  print(*p);
  return p;
}

// ---- printing ------------------------------------------------------------------
static int prec(Op op) {
  switch (op) {
  case O_AND:
  case O_OR: return 1;
  case O_LT:
  case O_GT:
  case O_LEQ:
  case O_GEQ:
  case O_EQ: return 3;
  case O_ADD:
  case O_SUB: return 4;
  default: return 5;
  }
}

std::string expr_text(const Expr *e, bool minimal) {
  auto args = [&](const std::vector<Expr *> &v) {
    std::string o;
    for (size_t i = 0; i < v.size(); ++i) {
      o += (i ? ", " : "") + expr_text(v[i], minimal);
    }
    return o;
  };
  auto atom = [&](const Expr *x) {
    std::string t = expr_text(x, minimal);
    if (x->k == E_BIN && minimal) {
      return "(" + t + ")";
    }
    return t;
  };
  switch (e->k) {
  case E_INT: return std::to_string(e->i);
  case E_FLT: return e->s;
  case E_STR: return "\"" + e->s + "\"";
  case E_NONE: return "none";
  case E_VAR: return e->sym->name;
  case E_MEMBER: return e->sym->name + "." + e->s;
  case E_NOT: return "(not " + atom(e->kid[0]) + ")";
  case E_NEG: return "(-" + atom(e->kid[0]) + ")";
  case E_BIN: {
    std::string l = expr_text(e->kid[0], minimal), r = expr_text(e->kid[1], minimal);
    if (!minimal) {
      return "(" + l + " " + op_text[e->op] + " " + r + ")";
    }
    if (e->kid[0]->k == E_BIN && prec(e->kid[0]->op) < prec(e->op)) {
      l = "(" + l + ")";
    }
    if (e->kid[1]->k == E_BIN && prec(e->kid[1]->op) <= prec(e->op)) {
      r = "(" + r + ")";
    }
    return l + " " + op_text[e->op] + " " + r;
  }
  case E_CALL: return atom(e->base) + "(" + args(e->kid) + ")";
  case E_INDEX: return atom(e->base) + "[" + expr_text(e->kid[0], minimal) + "]";
  case E_ARRAY: return "[" + args(e->kid) + "]";
  }
  return "";
}

namespace {
bool fold(const Expr *e, int32_t &v, int depth = 0) {
  int32_t a = 0, b = 0;
  switch (e->k) {
  case E_INT: v = e->i; return true;
  case E_VAR: return e->sym->kind == S_CONST && e->sym->init && fold(e->sym->init, v, depth + 1);
  case E_NEG:
    if (!fold(e->kid[0], a)) {
      return false;
    }
    v = int32_t(0u - uint32_t(a));
    return true;
  case E_NOT:
    if (!fold(e->kid[0], a)) {
      return false;
    }
    v = !a;
    return true;
  case E_BIN:
    if (!fold(e->kid[0], a) || !fold(e->kid[1], b)) {
      return false;
    }
    switch (e->op) {
    case O_ADD: v = int32_t(uint32_t(a) + uint32_t(b)); break;
    case O_SUB: v = int32_t(uint32_t(a) - uint32_t(b)); break;
    case O_MUL: v = int32_t(uint32_t(a) * uint32_t(b)); break;
    case O_DIV:
    case O_MOD:
      if (b == 0) {
        return false;
      }
      v = e->op == O_DIV ? (b == -1 ? int32_t(0u - uint32_t(a)) : a / b) : (b == -1 ? 0 : a % b);
      break;
    case O_AND: v = a && b; break;
    case O_OR: v = a || b; break;
    case O_LT: v = a < b; break;
    case O_GT: v = a > b; break;
    case O_LEQ: v = a <= b; break;
    case O_GEQ: v = a >= b; break;
    case O_EQ: v = a == b; break;
    }
    return true;
  default: return false;
  }
}

bool zero_div(const Expr *e) {
  if (!e) {
    return false;
  }
  int32_t v;
  if (e->k == E_BIN && (e->op == O_DIV || e->op == O_MOD) && fold(e->kid[1], v) && v == 0) {
    return true;
  }
  for (const Expr *x : e->kid) {
    if (zero_div(x)) {
      return true;
    }
  }
  return zero_div(e->base);
}

bool zero_div(const std::vector<Stmt *> &b) {
  for (const Stmt *s : b) {
    int32_t v;
    if (zero_div(s->e) || zero_div(s->e2) || zero_div(s->a) || zero_div(s->b) ||
        (s->k == ST_COMPOUND && s->op == O_DIV && s->e && fold(s->e, v) && v == 0)) {
      return true;
    }
  }
  return false;
}
} // namespace

bool const_zero_div(const Program &p) {
  for (const Sym *s : p.consts) {
    if (zero_div(s->init)) {
      return true;
    }
  }
  for (const Sym *s : p.globals) {
    if (zero_div(s->init)) {
      return true;
    }
  }
  for (const Func *f : p.funcs) {
    if (zero_div(f->body)) {
      return true;
    }
  }
  return false;
}

namespace {
struct Printer {
  Program &p;
  bool m;
  Rng rng{1};
  bool deco;
  int line = 1;
  std::string out;
  explicit Printer(Program &q) : p(q), m(q.k.minimal_parens), deco(q.k.decorate) {}
  void emit(const std::string &s, int ind) {
    out += std::string(size_t(ind) * 2, ' ') + s + "\n";
    ++line;
  }
  void extra() {
    if (deco && rng.below(4) == 0) {
      if (rng.below(2)) {
        emit("", 0);
      } else {
        emit("# remark " + std::to_string(line), 0);
      }
    }
  }
  void block(std::vector<Stmt *> &b, int ind) {
    for (Stmt *s : b) {
      extra();
      s->line = line;
      switch (s->k) {
      case ST_VAR: emit("var " + s->sym->name + (s->e ? " = " + expr_text(s->e, m) : ""), ind); break;
      case ST_ASSIGN: emit(s->sym->name + " = " + expr_text(s->e, m), ind); break;
      case ST_COMPOUND:
        emit(s->sym->name + " " + op_text[s->op] + "= " + expr_text(s->e, m), ind);
        break;
      case ST_SETA:
        emit(s->sym->name + "[" + expr_text(s->e, m) + "] = " + expr_text(s->e2, m), ind);
        break;
      case ST_SETM: emit(s->sym->name + "." + s->s + " = " + expr_text(s->e, m), ind); break;
      case ST_CALL: emit(expr_text(s->e, m), ind); break;
      case ST_RETURN: emit(s->e ? "return " + expr_text(s->e, m) : "return", ind); break;
      case ST_IF:
        emit("if (" + expr_text(s->e, m) + ")", ind);
        block(s->a, ind + 1);
        if (s->has_else) {
          emit("else", ind);
          block(s->b, ind + 1);
        }
        s->end_line = line;
        emit("end", ind);
        break;
      case ST_WHILE:
        emit("while (" + expr_text(s->e, m) + ")", ind);
        block(s->a, ind + 1);
        s->end_line = line;
        emit("end", ind);
        break;
      case ST_FOR:
        emit("for (" + s->sym->name + " = " + expr_text(s->e, m) + " to " + expr_text(s->e2, m) + ")",
             ind);
        block(s->a, ind + 1);
        s->end_line = line;
        emit("end", ind);
        break;
      }
    }
  }
};
} // namespace

void print(Program &p) {
  Printer pr(p);
  p.files.clear();
  p.lines.clear();
  p.text.clear();
  auto flush = [&]() {
    p.files.push_back(pr.out);
    p.lines.push_back(pr.line % FILE_LINES);
    p.text += pr.out;
    pr.out.clear();
    pr.line = int(p.files.size()) * FILE_LINES + 1;
  };
  int at = 0;
  for (auto &i : p.order) {
    while (int(p.files.size()) < i.file + (i.file >= p.k.file_gap_at ? p.k.file_gap : 0)) {
      if (pr.out.empty()) {
        pr.emit("# nothing", 0);
      }
      flush();
    }
    if (p.k.gap && at++ == p.k.gap_at % int(p.order.size())) {
      for (int n = 0; n < p.k.gap; ++n) {
        pr.emit("", 0);
      }
    }
    if (Sym *s = i.sym) {
      s->line = pr.line;
      pr.emit((s->kind == S_CONST ? "const " : "var ") + s->name +
                  (s->init ? " = " + expr_text(s->init, pr.m) : ""),
              0);
      continue;
    }
    Func *f = i.fn;
    pr.extra();
    f->line = pr.line;
    std::string a;
    for (size_t n = 0; n < f->args.size(); ++n) {
      a += (n ? ", " : "") + f->args[n]->name;
    }
    pr.emit("function " + f->name + "(" + a + ")", 0);
    pr.block(f->body, 1);
    f->end_line = pr.line;
    pr.emit("end", 0);
  }
  flush();
}

} // namespace lang
