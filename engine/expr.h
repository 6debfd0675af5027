// Expression layer: concrete/symbolic bit-vector values over Z3 (C API, reference counted).
#pragma once
#include <z3.h>
#include "llvm/ADT/APInt.h"
#include <map>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>
#include <set>
#include <algorithm>
#include <cassert>
using llvm::APInt;
extern Z3_context C;

struct Ex {
  Z3_ast a = nullptr;
  Ex() = default;
  Ex(Z3_ast x) : a(x) { if (a) Z3_inc_ref(C, a); }
  Ex(Ex const &o) : a(o.a) { if (a) Z3_inc_ref(C, a); }
  Ex(Ex &&o) noexcept : a(o.a) { o.a = nullptr; }
  Ex &operator=(Ex const &o) { if (o.a) Z3_inc_ref(C, o.a); if (a) Z3_dec_ref(C, a); a = o.a; return *this; }
  Ex &operator=(Ex &&o) noexcept { std::swap(a, o.a); return *this; }
  ~Ex() { if (a) Z3_dec_ref(C, a); }
  operator Z3_ast() const { return a; }
  explicit operator bool() const { return a != nullptr; }
  unsigned id() const { return Z3_get_ast_id(C, a); }
  bool same(Ex const &o) const { return a == o.a; }
};

struct Val {
  enum K { NONE, CON, SYM, AGG } k = NONE;
  unsigned w                     = 0;
  APInt c;
  Ex e; // BV of width w, or Bool when w == 1
  std::shared_ptr<std::vector<Val>> g;
  Val() {}
  static Val con(APInt v) { Val r; r.k = CON; r.w = v.getBitWidth(); r.c = std::move(v); return r; }
  static Val con(unsigned w, uint64_t v) { return con(APInt(w, v)); }
  static Val sym(unsigned w, Ex e) { Val r; r.k = SYM; r.w = w; r.e = std::move(e); return r; }
  static Val agg(std::vector<Val> v) { Val r; r.k = AGG; r.g = std::make_shared<std::vector<Val>>(std::move(v)); return r; }
  bool isCon() const { return k == CON; }
  bool isSym() const { return k == SYM; }
  bool isTrue() const { return k == CON && w == 1 && c == 1; }
  bool isFalse() const { return k == CON && w == 1 && c == 0; }
  bool isVal(uint64_t v) const { return k == CON && c.getActiveBits() <= 64 && c.getZExtValue() == v; }
  uint64_t u() const { return c.getZExtValue(); }
};

Z3_sort bvSort(unsigned w);
Ex numeral(APInt const &v);
Ex toBV(Val const &v);
Ex toBool(Val const &v);
Val fromBV(unsigned w, Ex e);   // recognises numerals
Val fromBool(Ex e);             // recognises true/false
bool isNumeral(Ex const &e, APInt &out, unsigned w);

Val vAdd(Val const &, Val const &);
Val vSub(Val const &, Val const &);
Val vMul(Val const &, Val const &);
Val vUDiv(Val const &, Val const &);
Val vSDiv(Val const &, Val const &);
Val vURem(Val const &, Val const &);
Val vSRem(Val const &, Val const &);
Val vShl(Val const &, Val const &);
Val vLShr(Val const &, Val const &);
Val vAShr(Val const &, Val const &);
Val vAnd(Val const &, Val const &);
Val vOr(Val const &, Val const &);
Val vXor(Val const &, Val const &);
Val vNot(Val const &);
Val vEq(Val const &, Val const &);
Val vNe(Val const &, Val const &);
Val vUlt(Val const &, Val const &);
Val vUle(Val const &, Val const &);
Val vSlt(Val const &, Val const &);
Val vSle(Val const &, Val const &);
Val vZExt(Val const &, unsigned w);
Val vSExt(Val const &, unsigned w);
Val vTrunc(Val const &, unsigned w);
Val vExtract(Val const &, unsigned lo, unsigned w);
Val vConcat(Val const &hi, Val const &lo);
APInt umax(Val const &); // an upper bound, unsigned
Val vIte(Val const &c, Val const &t, Val const &f);
Val vImplies(Val const &a, Val const &b);
Val freshVal(unsigned w, std::string const &name);
Ex freshArray(std::string const &name); // Array BV64 -> BV8
Val vSelect(Ex const &arr, Val const &idx);
std::vector<unsigned> const &varsOf(Ex const &e);
std::string exStr(Ex const &e);
