// Symbolic values: concrete <=64 bit integers, z3 bit-vectors (Bool for i1), aggregates.
#pragma once
#include <z3.h>
#include <cstdint>
#include <cstdlib>
#include <cstdio>
#include <memory>
#include <string>
#include <vector>
#include <utility>

extern Z3_context Z;
[[noreturn]] void engineError(const std::string &msg);

struct Ex {
  Z3_ast a = nullptr;
  Ex() = default;
  Ex(Z3_ast x) : a(x) { if (a) Z3_inc_ref(Z, a); }
  Ex(const Ex &o) : a(o.a) { if (a) Z3_inc_ref(Z, a); }
  Ex(Ex &&o) noexcept : a(o.a) { o.a = nullptr; }
  Ex &operator=(const Ex &o) { if (o.a) Z3_inc_ref(Z, o.a); if (a) Z3_dec_ref(Z, a); a = o.a; return *this; }
  Ex &operator=(Ex &&o) noexcept { std::swap(a, o.a); return *this; }
  ~Ex() { if (a) Z3_dec_ref(Z, a); }
  explicit operator bool() const { return a != nullptr; }
  operator Z3_ast() const { return a; }
  bool operator==(const Ex &o) const { return a == o.a; }
};

inline Ex bvNum(uint64_t v, unsigned w) {
  Z3_sort s = Z3_mk_bv_sort(Z, w);
  return Ex(Z3_mk_unsigned_int64(Z, v, s));
}
inline Ex exTrue() { return Ex(Z3_mk_true(Z)); }
inline Ex exFalse() { return Ex(Z3_mk_false(Z)); }
inline Ex exNot(const Ex &e) {
  if (Z3_get_bool_value(Z, e) == Z3_L_TRUE) return exFalse();
  if (Z3_get_bool_value(Z, e) == Z3_L_FALSE) return exTrue();
  if (Z3_is_app(Z, e)) {
    Z3_app ap = Z3_to_app(Z, e);
    if (Z3_get_decl_kind(Z, Z3_get_app_decl(Z, ap)) == Z3_OP_NOT) return Ex(Z3_get_app_arg(Z, ap, 0));
  }
  return Ex(Z3_mk_not(Z, e));
}
inline bool isT(const Ex &e) { return Z3_get_bool_value(Z, e) == Z3_L_TRUE; }
inline bool isF(const Ex &e) { return Z3_get_bool_value(Z, e) == Z3_L_FALSE; }
inline Ex exAnd(const Ex &x, const Ex &y) {
  if (isT(x)) return y; if (isT(y)) return x; if (isF(x)) return x; if (isF(y)) return y; if (x == y) return x;
  Z3_ast v[2] = {x, y}; return Ex(Z3_mk_and(Z, 2, v));
}
inline Ex exOr(const Ex &x, const Ex &y) {
  if (isF(x)) return y; if (isF(y)) return x; if (isT(x)) return x; if (isT(y)) return y; if (x == y) return x;
  Z3_ast v[2] = {x, y}; return Ex(Z3_mk_or(Z, 2, v));
}
inline Ex exAndN(const std::vector<Ex> &v) {
  std::vector<Z3_ast> r; for (auto &e : v) { if (isF(e)) return exFalse(); if (!isT(e)) r.push_back(e); }
  if (r.empty()) return exTrue(); if (r.size() == 1) return Ex(r[0]);
  return Ex(Z3_mk_and(Z, r.size(), r.data()));
}
inline Ex exOrN(const std::vector<Ex> &v) {
  std::vector<Z3_ast> r; for (auto &e : v) { if (isT(e)) return exTrue(); if (!isF(e)) r.push_back(e); }
  if (r.empty()) return exFalse(); if (r.size() == 1) return Ex(r[0]);
  return Ex(Z3_mk_or(Z, r.size(), r.data()));
}
inline Ex exImp(const Ex &x, const Ex &y) { return exOr(exNot(x), y); }
inline Ex exEq(const Ex &x, const Ex &y) {
  if (x == y) return exTrue();
  if (Z3_get_ast_kind(Z, x) == Z3_NUMERAL_AST && Z3_get_ast_kind(Z, y) == Z3_NUMERAL_AST) return exFalse(); // hash-consed
  return Ex(Z3_mk_eq(Z, x, y));
}
inline Ex exIte(const Ex &c, const Ex &x, const Ex &y) {
  if (isT(c)) return x; if (isF(c)) return y; if (x == y) return x;
  return Ex(Z3_mk_ite(Z, c, x, y));
}
inline unsigned bvW(const Ex &e) { return Z3_get_bv_sort_size(Z, Z3_get_sort(Z, e)); }
inline bool isNum(const Ex &e, uint64_t &v) {
  if (Z3_get_ast_kind(Z, e) != Z3_NUMERAL_AST) return false;
  return Z3_get_numeral_uint64(Z, e, &v);
}
inline std::string exStr(const Ex &e) { return e ? Z3_ast_to_string(Z, e) : "null"; }
inline Ex exSimp(const Ex &e) { return Ex(Z3_simplify(Z, e)); }

struct Val {
  enum K : uint8_t { Undef, Con, Sym, Ag } k = Undef;
  uint32_t w = 0;
  uint64_t c = 0;
  Ex e;
  std::shared_ptr<std::vector<Val>> ag;

  static Val undef(unsigned w) { Val v; v.w = w; return v; }
  static uint64_t mask(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
  static Val con(uint64_t c, unsigned w) {
    Val v; v.w = w;
    if (w > 64) { v.k = Sym; v.e = bvNum(c, w); return v; }
    v.k = Con; v.c = c & mask(w); return v;
  }
  // bit-vector (or Bool when w==1) expression -> value; folds numerals
  static Val sym(const Ex &e, unsigned w) {
    Val v; v.w = w;
    if (w == 1) {
      if (isT(e)) return con(1, 1); if (isF(e)) return con(0, 1);
    } else if (w <= 64) { uint64_t n; if (isNum(e, n)) return con(n, w); }
    v.k = Sym; v.e = e; return v;
  }
  static Val agg(std::vector<Val> vs) { Val v; v.k = Ag; v.ag = std::make_shared<std::vector<Val>>(std::move(vs)); return v; }
  bool isCon() const { return k == Con; }
  bool isSym() const { return k == Sym; }
  bool isUndef() const { return k == Undef; }
};

extern unsigned long long freshCounter;
inline Ex freshBV(const std::string &name, unsigned w) {
  std::string n = name + "!" + std::to_string(freshCounter++);
  Z3_symbol s = Z3_mk_string_symbol(Z, n.c_str());
  return Ex(Z3_mk_const(Z, s, w == 1 ? Z3_mk_bool_sort(Z) : Z3_mk_bv_sort(Z, w)));
}
inline Ex freshBool(const std::string &name) { return freshBV(name, 1); }
// as bit-vector of width w (w==1: 1-bit bit-vector)
inline Ex bvOf(const Val &v) {
  switch (v.k) {
  case Val::Con: return bvNum(v.c, v.w);
  case Val::Sym: if (v.w == 1) return exIte(v.e, bvNum(1, 1), bvNum(0, 1)); return v.e;
  case Val::Undef: return v.w == 1 ? exIte(freshBool("undef"), bvNum(1, 1), bvNum(0, 1)) : freshBV("undef", v.w);
  default: engineError("bvOf aggregate");
  }
}
inline Ex boolOf(const Val &v) {
  if (v.w != 1) engineError("boolOf width");
  if (v.k == Val::Con) return v.c ? exTrue() : exFalse();
  if (v.k == Val::Undef) return freshBool("undef");
  return v.e;
}
// bv of width w -> Val (w==1 converts bit-vector to Bool)
inline Val fromBV(const Ex &e, unsigned w) {
  if (w == 1) { uint64_t n; if (isNum(e, n)) return Val::con(n, 1);
    if (Z3_is_app(Z, e) && Z3_get_decl_kind(Z, Z3_get_app_decl(Z, Z3_to_app(Z, e))) == Z3_OP_ITE) {
      Z3_app ap = Z3_to_app(Z, e); uint64_t a, b;
      if (isNum(Ex(Z3_get_app_arg(Z, ap, 1)), a) && isNum(Ex(Z3_get_app_arg(Z, ap, 2)), b) && a == 1 && b == 0)
        return Val::sym(Ex(Z3_get_app_arg(Z, ap, 0)), 1);
    }
    return Val::sym(exEq(e, bvNum(1, 1)), 1); }
  return Val::sym(e, w);
}
inline Ex exExtract(const Ex &e, unsigned hi, unsigned lo) {
  unsigned w = bvW(e);
  if (lo == 0 && hi == w - 1) return e;
  uint64_t n;
  if (w <= 64 && isNum(e, n)) return bvNum((n >> lo) & Val::mask(hi - lo + 1), hi - lo + 1);
  return exSimp(Ex(Z3_mk_extract(Z, hi, lo, e)));
}
inline Ex exConcat(const Ex &hi, const Ex &lo) { return Ex(Z3_mk_concat(Z, hi, lo)); }
