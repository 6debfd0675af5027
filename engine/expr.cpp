#include "expr.h"
#include "llvm/ADT/SmallString.h"
Z3_context C;

Z3_sort bvSort(unsigned w) {
  static std::map<unsigned, Z3_sort> m;
  auto it = m.find(w);
  if (it != m.end()) return it->second;
  Z3_sort s = Z3_mk_bv_sort(C, w);
  Z3_inc_ref(C, Z3_sort_to_ast(C, s));
  return m[w] = s;
}
Ex numeral(APInt const &v) {
  unsigned w = v.getBitWidth();
  if (w <= 64) return Ex(Z3_mk_unsigned_int64(C, v.getZExtValue(), bvSort(w)));
  llvm::SmallString<64> s;
  v.toStringUnsigned(s, 10);
  return Ex(Z3_mk_numeral(C, s.c_str(), bvSort(w)));
}
Ex toBV(Val const &v) {
  assert(v.k == Val::CON || v.k == Val::SYM);
  if (v.isCon()) return numeral(v.c);
  if (v.w == 1) {
    Ex one(Z3_mk_unsigned_int64(C, 1, bvSort(1))), zero(Z3_mk_unsigned_int64(C, 0, bvSort(1)));
    return Ex(Z3_mk_ite(C, v.e, one, zero));
  }
  return v.e;
}
Ex toBool(Val const &v) {
  assert(v.w == 1);
  if (v.isCon()) return Ex(v.c == 1 ? Z3_mk_true(C) : Z3_mk_false(C));
  return v.e;
}
bool isNumeral(Ex const &e, APInt &out, unsigned w) {
  if (Z3_get_ast_kind(C, e) != Z3_NUMERAL_AST) return false;
  if (w <= 64) {
    uint64_t v;
    if (!Z3_get_numeral_uint64(C, e, &v)) return false;
    out = APInt(w, v);
  } else {
    out = APInt(w, Z3_get_numeral_string(C, e), 10);
  }
  return true;
}
Val fromBV(unsigned w, Ex e) {
  APInt v;
  if (isNumeral(e, v, w)) return Val::con(v);
  if (w == 1) {
    Ex one(Z3_mk_unsigned_int64(C, 1, bvSort(1)));
    return fromBool(Ex(Z3_simplify(C, Ex(Z3_mk_eq(C, e, one)))));
  }
  return Val::sym(w, e);
}
Val fromBool(Ex e) {
  auto b = Z3_get_bool_value(C, e);
  if (b == Z3_L_TRUE) return Val::con(1, 1);
  if (b == Z3_L_FALSE) return Val::con(1, 0);
  return Val::sym(1, e);
}
static Z3_decl_kind kindOf(Ex const &e) {
  if (Z3_get_ast_kind(C, e) != Z3_APP_AST) return Z3_OP_INTERNAL;
  return Z3_get_decl_kind(C, Z3_get_app_decl(C, Z3_to_app(C, e)));
}
static unsigned nargs(Ex const &e) { return Z3_get_app_num_args(C, Z3_to_app(C, e)); }
static Ex argOf(Ex const &e, unsigned i) { return Ex(Z3_get_app_arg(C, Z3_to_app(C, e), i)); }
static int declParam(Ex const &e, unsigned i) { return Z3_get_decl_int_parameter(C, Z3_get_app_decl(C, Z3_to_app(C, e)), i); }

static bool lowConst(Val const &a, Val &hi, APInt &lo); // a == concat(hi, lo)
// upper bound of an unsigned value, from its form alone
static APInt umaxE(Ex const &e, unsigned w, int depth) {
  APInt v, all = APInt::getAllOnes(w);
  if (isNumeral(e, v, w)) return v;
  if (depth > 6) return all;
  switch (kindOf(e)) {
  case Z3_OP_CONCAT:
    if (nargs(e) == 2) {
      Ex h = argOf(e, 0), l = argOf(e, 1);
      unsigned lw = Z3_get_bv_sort_size(C, Z3_get_sort(C, l)), hw = w - lw;
      if (isNumeral(h, v, hw) && v == 0) return umaxE(l, lw, depth + 1).zext(w);
    }
    return all;
  case Z3_OP_BUREM: case Z3_OP_BUREM_I:
    if (isNumeral(argOf(e, 1), v, w) && v != 0) return v - 1;
    return all;
  case Z3_OP_BUDIV: case Z3_OP_BUDIV_I:
    if (isNumeral(argOf(e, 1), v, w) && v != 0) return umaxE(argOf(e, 0), w, depth + 1).udiv(v);
    return all;
  case Z3_OP_ITE: {
    APInt a = umaxE(argOf(e, 1), w, depth + 1), b = umaxE(argOf(e, 2), w, depth + 1);
    return a.ugt(b) ? a : b;
  }
  default: return all;
  }
}
APInt umax(Val const &a) { return a.isCon() ? a.c : a.w == 1 ? APInt(1, 1) : umaxE(a.e, a.w, 0); }
// e == x / d for a constant d
static bool udivOf(Val const &a, Ex &x, APInt &d) {
  if (!a.isSym() || a.w == 1) return false;
  auto k = kindOf(a.e);
  if (k != Z3_OP_BUDIV && k != Z3_OP_BUDIV_I) return false;
  x = argOf(a.e, 0);
  return isNumeral(argOf(a.e, 1), d, a.w) && d != 0;
}
// linear normal form --------------------------------------------------------
struct Lin {
  APInt c;
  std::vector<std::pair<Ex, APInt>> t; // sorted by ast id
};
static bool linAdd(Lin &l, Ex const &e, APInt const &k, unsigned w, int depth) {
  if (l.t.size() > 10) return false;
  APInt n;
  if (isNumeral(e, n, w)) { l.c += n * k; return true; }
  auto kd = kindOf(e);
  if (depth < 12) {
    if (kd == Z3_OP_BADD) {
      for (unsigned i = 0; i < nargs(e); ++i)
        if (!linAdd(l, argOf(e, i), k, w, depth + 1)) return false;
      return true;
    }
    if (kd == Z3_OP_BSUB && nargs(e) == 2) {
      return linAdd(l, argOf(e, 0), k, w, depth + 1) && linAdd(l, argOf(e, 1), -k, w, depth + 1);
    }
    if (kd == Z3_OP_BNEG) return linAdd(l, argOf(e, 0), -k, w, depth + 1);
    if (kd == Z3_OP_BMUL && nargs(e) == 2) {
      Ex a0 = argOf(e, 0), a1 = argOf(e, 1);
      if (isNumeral(a0, n, w)) return linAdd(l, a1, k * n, w, depth + 1);
      if (isNumeral(a1, n, w)) return linAdd(l, a0, k * n, w, depth + 1);
    }
  }
  for (auto it = l.t.begin(); it != l.t.end(); ++it)
    if (it->first.same(e)) {
      it->second += k;
      if (it->second == 0) l.t.erase(it);
      return true;
    }
  l.t.emplace_back(e, k);
  return true;
}
static Val linBuild(Lin &l, unsigned w) {
  if (l.t.empty()) return Val::con(l.c);
  std::sort(l.t.begin(), l.t.end(), [](auto &a, auto &b) { return a.first.id() < b.first.id(); });
  std::vector<Ex> args;
  if (l.c != 0) args.push_back(numeral(l.c));
  for (auto &p : l.t) {
    if (p.second == 1) args.push_back(p.first);
    else if (p.second.isAllOnes()) args.push_back(Ex(Z3_mk_bvneg(C, p.first)));
    else args.push_back(Ex(Z3_mk_bvmul(C, numeral(p.second), p.first)));
  }
  Ex r = args[0];
  for (size_t i = 1; i < args.size(); ++i) r = Ex(Z3_mk_bvadd(C, r, args[i]));
  return Val::sym(w, r);
}
static Val linComb(Val const &a, Val const &b, bool neg) {
  unsigned w = a.w;
  Lin l;
  l.c = APInt(w, 0);
  APInt one(w, 1);
  Ex ea = toBV(a), eb = toBV(b);
  if (linAdd(l, ea, one, w, 0) && linAdd(l, eb, neg ? -one : one, w, 0)) return linBuild(l, w);
  return Val::sym(w, Ex(neg ? Z3_mk_bvsub(C, ea, eb) : Z3_mk_bvadd(C, ea, eb)));
}
Val vAdd(Val const &a, Val const &b) {
  if (a.isCon() && b.isCon()) return Val::con(a.c + b.c);
  if (a.isCon() && a.c == 0) return b;
  if (b.isCon() && b.c == 0) return a;
  if (a.w == 1) return vXor(a, b);
  if (a.isCon()) return vAdd(b, a);
  if (b.isCon()) { // constant low bits: add them and the carry separately
    Val hi;
    APInt lo;
    if (lowConst(a, hi, lo)) {
      unsigned n = lo.getBitWidth();
      APInt bl = b.c.trunc(n), sum = lo + bl;
      APInt bh = b.c.extractBits(a.w - n, n);
      if (sum.ult(lo)) bh += 1;
      return vConcat(vAdd(hi, Val::con(bh)), Val::con(sum));
    }
  }
  return linComb(a, b, false);
}
Val vSub(Val const &a, Val const &b) {
  if (a.isCon() && b.isCon()) return Val::con(a.c - b.c);
  if (b.isCon() && b.c == 0) return a;
  if (a.w == 1) return vXor(a, b);
  return linComb(a, b, true);
}
#define BIN(NAME, CONC, MK)                                   \
  Val NAME(Val const &a, Val const &b) {                      \
    if (a.isCon() && b.isCon()) { auto const &x = a.c; auto const &y = b.c; return Val::con(CONC); } \
    return fromBV(a.w, Ex(MK(C, toBV(a), toBV(b))));          \
  }
Val vMul(Val const &a, Val const &b) {
  if (a.isCon() && b.isCon()) return Val::con(a.c * b.c);
  if (a.isCon()) return vMul(b, a);
  if (b.isCon()) {
    if (b.c == 0) return b;
    if (b.c == 1) return a;
    if (a.w > 1) {
      Lin l; l.c = APInt(a.w, 0);
      if (linAdd(l, toBV(a), b.c, a.w, 0)) return linBuild(l, a.w);
    }
  }
  return fromBV(a.w, Ex(Z3_mk_bvmul(C, toBV(a), toBV(b))));
}
Val vUDiv(Val const &a, Val const &b) {
  if (a.isCon() && b.isCon() && b.c != 0) return Val::con(a.c.udiv(b.c));
  if (b.isCon() && b.c == 1) return a;
  if (b.isCon() && b.c.isPowerOf2()) return vLShr(a, Val::con(APInt(a.w, b.c.logBase2())));
  if (b.isCon() && b.c != 0) {
    Ex x; APInt d;
    if (udivOf(a, x, d)) { // (x / d) / c
      bool o;
      APInt m = d.umul_ov(b.c, o);
      if (o) return Val::con(APInt(a.w, 0));
      return vUDiv(fromBV(a.w, x), Val::con(m));
    }
    if (umax(a).ult(b.c)) return Val::con(APInt(a.w, 0));
  }
  return fromBV(a.w, Ex(Z3_mk_bvudiv(C, toBV(a), toBV(b))));
}
Val vSDiv(Val const &a, Val const &b) {
  if (a.isCon() && b.isCon() && b.c != 0) return Val::con(a.c.sdiv(b.c));
  return fromBV(a.w, Ex(Z3_mk_bvsdiv(C, toBV(a), toBV(b))));
}
Val vURem(Val const &a, Val const &b) {
  if (a.isCon() && b.isCon() && b.c != 0) return Val::con(a.c.urem(b.c));
  if (b.isCon() && b.c.isPowerOf2()) return vAnd(a, Val::con(b.c - 1));
  if (b.isCon() && umax(a).ult(b.c)) return a;
  return fromBV(a.w, Ex(Z3_mk_bvurem(C, toBV(a), toBV(b))));
}
Val vSRem(Val const &a, Val const &b) {
  if (a.isCon() && b.isCon() && b.c != 0) return Val::con(a.c.srem(b.c));
  return fromBV(a.w, Ex(Z3_mk_bvsrem(C, toBV(a), toBV(b))));
}
Val vShl(Val const &a, Val const &b) {
  if (b.isCon() && b.c.uge(a.w)) return Val::con(APInt(a.w, 0));
  if (a.isCon() && b.isCon()) return Val::con(a.c.shl(b.c.getZExtValue()));
  if (b.isCon()) {
    unsigned s = b.c.getZExtValue();
    if (s == 0) return a;
    return vConcat(vExtract(a, 0, a.w - s), Val::con(APInt(s, 0)));
  }
  return fromBV(a.w, Ex(Z3_mk_bvshl(C, toBV(a), toBV(b))));
}
Val vLShr(Val const &a, Val const &b) {
  if (b.isCon() && b.c.uge(a.w)) return Val::con(APInt(a.w, 0));
  if (a.isCon() && b.isCon()) return Val::con(a.c.lshr(b.c.getZExtValue()));
  if (b.isCon()) {
    unsigned s = b.c.getZExtValue();
    if (s == 0) return a;
    return vZExt(vExtract(a, s, a.w - s), a.w);
  }
  return fromBV(a.w, Ex(Z3_mk_bvlshr(C, toBV(a), toBV(b))));
}
Val vAShr(Val const &a, Val const &b) {
  if (a.isCon() && b.isCon()) {
    uint64_t s = b.c.uge(a.w) ? a.w - 1 : b.c.getZExtValue();
    return Val::con(a.c.ashr(s));
  }
  if (b.isCon() && b.c.ult(a.w)) {
    unsigned s = b.c.getZExtValue();
    if (s == 0) return a;
    return vSExt(vExtract(a, s, a.w - s), a.w);
  }
  return fromBV(a.w, Ex(Z3_mk_bvashr(C, toBV(a), toBV(b))));
}
Val vAnd(Val const &a, Val const &b) {
  if (a.isCon() && b.isCon()) return Val::con(a.c & b.c);
  if (a.isCon()) return vAnd(b, a);
  if (b.isCon()) {
    if (b.c == 0) return b;
    if (b.c.isAllOnes()) return a;
    if (a.w > 1 && b.c.isMask()) { unsigned n = b.c.countTrailingOnes(); return vZExt(vExtract(a, 0, n), a.w); }
    if (a.w > 1 && b.c.isShiftedMask()) {
      unsigned lo = b.c.countTrailingZeros(), n = b.c.popcount();
      Val m = vConcat(vExtract(a, lo, n), Val::con(APInt(lo, 0)));
      return vZExt(m, a.w);
    }
  }
  if (a.e.same(b.e)) return a;
  if (a.w == 1) {
    if (kindOf(a.e) == Z3_OP_NOT && argOf(a.e, 0).same(b.e)) return Val::con(1, 0);
    if (kindOf(b.e) == Z3_OP_NOT && argOf(b.e, 0).same(a.e)) return Val::con(1, 0);
    Z3_ast x[2] = {a.e, b.e};
    return fromBool(Ex(Z3_mk_and(C, 2, x)));
  }
  return fromBV(a.w, Ex(Z3_mk_bvand(C, toBV(a), toBV(b))));
}
static bool lowConst(Val const &a, Val &hi, APInt &lo) {
  if (!a.isSym() || a.w == 1 || kindOf(a.e) != Z3_OP_CONCAT || nargs(a.e) != 2) return false;
  Ex l = argOf(a.e, 1);
  unsigned lw = Z3_get_bv_sort_size(C, Z3_get_sort(C, l));
  if (!isNumeral(l, lo, lw)) return false;
  hi = fromBV(a.w - lw, argOf(a.e, 0));
  return true;
}
static bool zeroHigh(Val const &a, unsigned &lowBits) { // a == zext(x of lowBits)
  if (!a.isSym() || a.w == 1) return false;
  auto k = kindOf(a.e);
  if (k == Z3_OP_CONCAT) {
    APInt v;
    Ex hi = argOf(a.e, 0);
    unsigned hw = Z3_get_bv_sort_size(C, Z3_get_sort(C, hi));
    if (isNumeral(hi, v, hw) && v == 0) { lowBits = a.w - hw; return true; }
  }
  return false;
}
static unsigned trailingZeros(Val const &a) {
  if (a.isCon()) return a.c.countTrailingZeros();
  if (a.w == 1) return 0;
  if (kindOf(a.e) == Z3_OP_CONCAT) {
    Ex lo = argOf(a.e, nargs(a.e) - 1);
    unsigned lw = Z3_get_bv_sort_size(C, Z3_get_sort(C, lo));
    APInt v;
    if (isNumeral(lo, v, lw)) return v == 0 ? lw : v.countTrailingZeros();
  }
  return 0;
}
Val vOr(Val const &a, Val const &b) {
  if (a.isCon() && b.isCon()) return Val::con(a.c | b.c);
  if (a.isCon()) return vOr(b, a);
  if (b.isCon()) {
    if (b.c == 0) return a;
    if (b.c.isAllOnes()) return b;
    if (a.w > 1 && b.c.isMask()) { unsigned n = b.c.countTrailingOnes(); return vConcat(vExtract(a, n, a.w - n), Val::con(APInt::getAllOnes(n))); }
    if (a.w > 1 && (~b.c).isMask()) { unsigned n = b.c.countTrailingZeros(); return vConcat(Val::con(APInt::getAllOnes(a.w - n)), vExtract(a, 0, n)); }
  }
  if (b.isSym() && a.e.same(b.e)) return a;
  if (a.w == 1) { Ex ea = toBool(a), eb = toBool(b); Z3_ast x[2] = {ea, eb}; return fromBool(Ex(Z3_mk_or(C, 2, x))); }
  // disjoint: (zext x) | (y << s) with s >= width(x)
  unsigned lb;
  if (zeroHigh(a, lb)) { unsigned tz = trailingZeros(b); if (tz >= lb) return vConcat(vExtract(b, lb, a.w - lb), vExtract(a, 0, lb)); }
  if (zeroHigh(b, lb)) { unsigned tz = trailingZeros(a); if (tz >= lb) return vConcat(vExtract(a, lb, a.w - lb), vExtract(b, 0, lb)); }
  return fromBV(a.w, Ex(Z3_mk_bvor(C, toBV(a), toBV(b))));
}
Val vXor(Val const &a, Val const &b) {
  if (a.isCon() && b.isCon()) return Val::con(a.c ^ b.c);
  if (a.isCon()) return vXor(b, a);
  if (b.isCon() && b.c == 0) return a;
  if (b.isSym() && a.e.same(b.e)) return Val::con(APInt(a.w, 0));
  if (a.w == 1) {
    if (b.isCon()) { // b == 1: negation
      if (kindOf(a.e) == Z3_OP_NOT) return fromBool(argOf(a.e, 0));
      return fromBool(Ex(Z3_mk_not(C, a.e)));
    }
    return fromBool(Ex(Z3_mk_xor(C, a.e, b.e)));
  }
  if (b.isCon() && b.c.isAllOnes()) return fromBV(a.w, Ex(Z3_mk_bvnot(C, toBV(a))));
  return fromBV(a.w, Ex(Z3_mk_bvxor(C, toBV(a), toBV(b))));
}
Val vNot(Val const &a) { return vXor(a, Val::con(APInt::getAllOnes(a.w))); }
Val vEq(Val const &a, Val const &b) {
  if (a.isCon() && b.isCon()) return Val::con(1, a.c == b.c);
  if (a.isCon()) return vEq(b, a);
  if (b.isSym() && a.e.same(b.e)) return Val::con(1, 1);
  if (a.w == 1) {
    if (b.isCon()) return b.c == 1 ? a : vNot(a);
    return fromBool(Ex(Z3_mk_eq(C, a.e, b.e)));
  }
  unsigned lb;
  if (b.isCon() && zeroHigh(a, lb)) {
    if (b.c.getActiveBits() > lb) return Val::con(1, 0);
    return vEq(vExtract(a, 0, lb), Val::con(b.c.trunc(lb)));
  }
  if (b.isCon()) {
    if (umax(a).ult(b.c)) return Val::con(1, 0);
    Ex x; APInt d;
    if (b.c == 0 && udivOf(a, x, d)) return vUlt(fromBV(a.w, x), Val::con(d));
  }
  if (b.isCon() && kindOf(a.e) == Z3_OP_ITE) { // ite(c, k1, k2) == k
    APInt v1, v2;
    Ex t = argOf(a.e, 1), f = argOf(a.e, 2);
    bool n1 = isNumeral(t, v1, a.w), n2 = isNumeral(f, v2, a.w);
    if (n1 && n2) {
      bool e1 = v1 == b.c, e2 = v2 == b.c;
      if (e1 && e2) return Val::con(1, 1);
      if (!e1 && !e2) return Val::con(1, 0);
      Val c = fromBool(argOf(a.e, 0));
      return e1 ? c : vNot(c);
    }
  }
  { // compare piecewise when a side is a concatenation
    auto pieces = [](Val const &x) { return x.isSym() && kindOf(x.e) == Z3_OP_CONCAT && nargs(x.e) == 2; };
    bool pa = pieces(a), pb = b.isSym() && pieces(b);
    if (pa || pb) {
      Ex l    = argOf(pa ? a.e : b.e, 1);
      unsigned lw = Z3_get_bv_sort_size(C, Z3_get_sort(C, l));
      if (pa && pb) lw = std::min(lw, Z3_get_bv_sort_size(C, Z3_get_sort(C, argOf(b.e, 1))));
      auto cheap = [&](Val const &x) { auto k = x.isCon() ? Z3_OP_CONCAT : kindOf(x.e); return k == Z3_OP_CONCAT || k == Z3_OP_EXTRACT || k == Z3_OP_UNINTERPRETED || k == Z3_OP_SELECT; };
      if (cheap(a) && cheap(b)) {
        Val lo = vEq(vExtract(a, 0, lw), vExtract(b, 0, lw));
        if (lo.isFalse()) return lo;
        Val hi = vEq(vExtract(a, lw, a.w - lw), vExtract(b, lw, a.w - lw));
        return vAnd(hi, lo);
      }
    }
  }
  if (a.w > 1) {
    Val d = linComb(a, b, true);
    if (d.isCon()) return Val::con(1, d.c == 0);
  }
  return fromBool(Ex(Z3_mk_eq(C, toBV(a), toBV(b))));
}
Val vNe(Val const &a, Val const &b) { return vNot(vEq(a, b)); }
Val vUlt(Val const &a, Val const &b) {
  if (a.isCon() && b.isCon()) return Val::con(1, a.c.ult(b.c));
  if (a.isSym() && b.isSym() && a.e.same(b.e)) return Val::con(1, 0);
  if (b.isCon() && b.c == 0) return Val::con(1, 0);
  if (a.isCon() && a.c.isAllOnes()) return Val::con(1, 0);
  if (b.isCon() && b.c == 1) return vEq(a, Val::con(APInt(a.w, 0)));
  if (a.isCon() && a.c == 0) return vNe(b, a);
  if (a.w > 1) {
    if (b.isCon() && umax(a).ult(b.c)) return Val::con(1, 1);
    if (a.isCon() && umax(b).ule(a.c)) return Val::con(1, 0);
    Ex x; APInt d;
    bool o;
    if (b.isCon() && udivOf(a, x, d)) { // x / d < k
      APInt m = d.umul_ov(b.c, o);
      return o ? Val::con(1, 1) : vUlt(fromBV(a.w, x), Val::con(m));
    }
    if (a.isCon() && udivOf(b, x, d)) { // k < x / d
      APInt m = d.umul_ov(a.c + 1, o); // a.c is not all ones, that is above the bound
      return o ? Val::con(1, 0) : vUle(Val::con(m), fromBV(a.w, x));
    }
  }
  unsigned lb;
  if (b.isCon() && zeroHigh(a, lb)) {
    if (b.c.getActiveBits() > lb) return Val::con(1, 1);
    return vUlt(vExtract(a, 0, lb), Val::con(b.c.trunc(lb)));
  }
  if (a.isCon() && zeroHigh(b, lb)) {
    if (a.c.getActiveBits() > lb) return Val::con(1, 0);
    return vUlt(Val::con(a.c.trunc(lb)), vExtract(b, 0, lb));
  }
  if (a.w > 1) { // constant low bits
    Val ha, hb;
    APInt la, lb2;
    bool ca = lowConst(a, ha, la), cb = lowConst(b, hb, lb2);
    unsigned n = 0;
    if (ca && cb) n = std::min(la.getBitWidth(), lb2.getBitWidth());
    else if (ca && b.isCon()) n = la.getBitWidth();
    else if (cb && a.isCon()) n = lb2.getBitWidth();
    if (n) {
      APInt xa = a.isCon() ? a.c.trunc(n) : la.trunc(n), xb = b.isCon() ? b.c.trunc(n) : lb2.trunc(n);
      Val ra = vExtract(a, n, a.w - n), rb = vExtract(b, n, a.w - n);
      return xa.ult(xb) ? vUle(ra, rb) : vUlt(ra, rb);
    }
  }
  return fromBool(Ex(Z3_mk_bvult(C, toBV(a), toBV(b))));
}
Val vUle(Val const &a, Val const &b) { return vNot(vUlt(b, a)); }
Val vSlt(Val const &a, Val const &b) {
  if (a.isCon() && b.isCon()) return Val::con(1, a.c.slt(b.c));
  if (a.isSym() && b.isSym() && a.e.same(b.e)) return Val::con(1, 0);
  unsigned lb;
  if (a.isSym() && zeroHigh(a, lb) && lb < a.w) {
    if (b.isCon()) return b.c.isNegative() ? Val::con(1, 0) : vUlt(a, b);
    unsigned lb2;
    if (zeroHigh(b, lb2) && lb2 < b.w) return vUlt(a, b);
  }
  if (b.isSym() && zeroHigh(b, lb) && lb < b.w && a.isCon()) return a.c.isNegative() ? Val::con(1, 1) : vUlt(a, b);
  return fromBool(Ex(Z3_mk_bvslt(C, toBV(a), toBV(b))));
}
Val vSle(Val const &a, Val const &b) { return vNot(vSlt(b, a)); }
Val vZExt(Val const &a, unsigned w) {
  if (w == a.w) return a;
  if (a.isCon()) return Val::con(a.c.zext(w));
  if (a.w == 1) return vIte(a, Val::con(w, 1), Val::con(w, 0));
  return vConcat(Val::con(APInt(w - a.w, 0)), a);
}
Val vSExt(Val const &a, unsigned w) {
  if (w == a.w) return a;
  if (a.isCon()) return Val::con(a.c.sext(w));
  if (a.w == 1) return vIte(a, Val::con(APInt::getAllOnes(w)), Val::con(w, 0));
  unsigned lb;
  if (zeroHigh(a, lb) && lb < a.w) return vZExt(a, w);
  return Val::sym(w, Ex(Z3_mk_sign_ext(C, w - a.w, toBV(a))));
}
Val vTrunc(Val const &a, unsigned w) { return vExtract(a, 0, w); }
Val vExtract(Val const &a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a.w) return a;
  if (a.isCon()) return Val::con(a.c.extractBits(w, lo));
  Ex e = a.e;
  auto k = kindOf(e);
  if (k == Z3_OP_EXTRACT) {
    int elo = declParam(e, 1);
    Ex in = argOf(e, 0);
    unsigned iw = Z3_get_bv_sort_size(C, Z3_get_sort(C, in));
    return vExtract(Val::sym(iw, in), lo + elo, w);
  }
  if (k == Z3_OP_CONCAT && nargs(e) == 2) {
    Ex hi = argOf(e, 0), l = argOf(e, 1);
    unsigned lw = Z3_get_bv_sort_size(C, Z3_get_sort(C, l)), hw = a.w - lw;
    if (lo + w <= lw) return vExtract(fromBV(lw, l), lo, w);
    if (lo >= lw) return vExtract(fromBV(hw, hi), lo - lw, w);
    return vConcat(vExtract(fromBV(hw, hi), 0, lo + w - lw), vExtract(fromBV(lw, l), lo, lw - lo));
  }
  if (k == Z3_OP_SIGN_EXT) {
    Ex in = argOf(e, 0);
    unsigned iw = Z3_get_bv_sort_size(C, Z3_get_sort(C, in));
    if (lo + w <= iw) return vExtract(fromBV(iw, in), lo, w);
  }
  if (k == Z3_OP_ITE) {
    APInt v1, v2;
    Ex t = argOf(e, 1), f = argOf(e, 2);
    if (isNumeral(t, v1, a.w) && isNumeral(f, v2, a.w))
      return vIte(fromBool(argOf(e, 0)), Val::con(v1.extractBits(w, lo)), Val::con(v2.extractBits(w, lo)));
  }
  if (lo == 0 && (k == Z3_OP_BAND || k == Z3_OP_BOR || k == Z3_OP_BXOR || k == Z3_OP_BADD || k == Z3_OP_BMUL) && nargs(e) == 2 && w > 1) {
    Val x = vExtract(fromBV(a.w, argOf(e, 0)), 0, w), y = vExtract(fromBV(a.w, argOf(e, 1)), 0, w);
    switch (k) {
    case Z3_OP_BAND: return vAnd(x, y);
    case Z3_OP_BOR: return vOr(x, y);
    case Z3_OP_BXOR: return vXor(x, y);
    case Z3_OP_BADD: return vAdd(x, y);
    default: return vMul(x, y);
    }
  }
  return fromBV(w, Ex(Z3_mk_extract(C, lo + w - 1, lo, e)));
}
Val vConcat(Val const &hi, Val const &lo) {
  unsigned w = hi.w + lo.w;
  if (hi.isCon() && lo.isCon()) return Val::con(hi.c.concat(lo.c));
  Ex eh = toBV(hi), el = toBV(lo);
  // adjacent extracts of one expression
  if (hi.isSym() && lo.isSym() && hi.w > 1 && lo.w > 1 && kindOf(eh) == Z3_OP_EXTRACT) {
    Ex ih = argOf(eh, 0);
    unsigned iw = Z3_get_bv_sort_size(C, Z3_get_sort(C, ih));
    unsigned hlo = declParam(eh, 1), hhi = declParam(eh, 0);
    if (kindOf(el) == Z3_OP_EXTRACT && argOf(el, 0).same(ih) && (unsigned)declParam(el, 0) + 1 == hlo)
      return vExtract(Val::sym(iw, ih), declParam(el, 1), hhi + 1 - declParam(el, 1));
  }
  // concat(hi, concat(x, y)) with hi,x mergeable: constants
  if (lo.isSym() && lo.w > 1 && kindOf(el) == Z3_OP_CONCAT && nargs(el) == 2) {
    Ex x = argOf(el, 0), y = argOf(el, 1);
    unsigned xw = Z3_get_bv_sort_size(C, Z3_get_sort(C, x));
    APInt v;
    if (hi.isCon() && isNumeral(x, v, xw)) return vConcat(Val::con(hi.c.concat(v)), fromBV(lo.w - xw, y));
    if (hi.isSym() && hi.w > 1 && kindOf(eh) == Z3_OP_EXTRACT && kindOf(x) == Z3_OP_EXTRACT && argOf(eh, 0).same(argOf(x, 0)) &&
        declParam(x, 0) + 1 == declParam(eh, 1))
      return vConcat(vConcat(hi, fromBV(xw, x)), fromBV(lo.w - xw, y));
  }
  return Val::sym(w, Ex(Z3_mk_concat(C, eh, el)));
}
Val vIte(Val const &c, Val const &t, Val const &f) {
  if (c.isCon()) return c.c == 1 ? t : f;
  if (t.k == Val::AGG) {
    std::vector<Val> r;
    for (size_t i = 0; i < t.g->size(); ++i) r.push_back(vIte(c, (*t.g)[i], (*f.g)[i]));
    return Val::agg(r);
  }
  if (t.isCon() && f.isCon() && t.c == f.c) return t;
  if (t.isSym() && f.isSym() && t.e.same(f.e)) return t;
  if (t.w == 1) {
    if (t.isTrue()) return vOr(c, f);
    if (t.isFalse()) return vAnd(vNot(c), f);
    if (f.isTrue()) return vOr(vNot(c), t);
    if (f.isFalse()) return vAnd(c, t);
    return fromBool(Ex(Z3_mk_ite(C, c.e, toBool(t), toBool(f))));
  }
  return Val::sym(t.w, Ex(Z3_mk_ite(C, c.e, toBV(t), toBV(f))));
}
Val vImplies(Val const &a, Val const &b) { return vOr(vNot(a), b); }
Val freshVal(unsigned w, std::string const &name) {
  Z3_symbol s = Z3_mk_string_symbol(C, name.c_str());
  if (w == 1) return Val::sym(1, Ex(Z3_mk_const(C, s, Z3_mk_bool_sort(C))));
  return Val::sym(w, Ex(Z3_mk_const(C, s, bvSort(w))));
}
Ex freshArray(std::string const &name) {
  Z3_symbol s = Z3_mk_string_symbol(C, name.c_str());
  return Ex(Z3_mk_const(C, s, Z3_mk_array_sort(C, bvSort(64), bvSort(8))));
}
Val vSelect(Ex const &arr, Val const &idx) { return Val::sym(8, Ex(Z3_mk_select(C, arr, toBV(idx)))); }

std::vector<unsigned> const &varsOf(Ex const &e) {
  static std::unordered_map<unsigned, std::vector<unsigned>> memo;
  static std::vector<Ex> keep;
  auto it = memo.find(e.id());
  if (it != memo.end()) return it->second;
  std::set<unsigned> s;
  if (Z3_get_ast_kind(C, e) == Z3_APP_AST) {
    unsigned n = nargs(e);
    Z3_func_decl d = Z3_get_app_decl(C, Z3_to_app(C, e));
    if (Z3_get_decl_kind(C, d) == Z3_OP_UNINTERPRETED) s.insert(Z3_get_ast_id(C, Z3_func_decl_to_ast(C, d)));
    for (unsigned i = 0; i < n; ++i) {
      auto const &v = varsOf(argOf(e, i));
      s.insert(v.begin(), v.end());
    }
  }
  keep.push_back(e);
  return memo[e.id()] = std::vector<unsigned>(s.begin(), s.end());
}
std::string exStr(Ex const &e) { return Z3_ast_to_string(C, e); }
