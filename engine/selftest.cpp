// Differential test of the expression builder: random terms built with the simplifying
// constructors must be equivalent to the same terms built with plain Z3 operations.
#include "expr.h"
#include <random>
#include <cstdio>
int selftestExpr(unsigned n, unsigned seed) {
  std::mt19937 rng(seed);
  auto rnd = [&](unsigned k) { return rng() % k; };
  unsigned bad = 0;
  for (unsigned it = 0; it < n; ++it) {
    struct P { Val v; Ex z; };
    std::vector<P> pool;
    unsigned W[] = {8, 16, 32, 64};
    auto bv2 = [](Val const &v) { return toBV(v); };
    for (unsigned i = 0; i < 4; ++i) {
      unsigned w = W[rnd(4)];
      Val v      = freshVal(w, "x" + std::to_string(i) + "_" + std::to_string(w));
      pool.push_back({v, v.e});
    }
    for (unsigned i = 0; i < 3; ++i) {
      unsigned w = W[rnd(4)];
      uint64_t c = rnd(3) == 0 ? rng() : rnd(4) == 0 ? ~0ull : rnd(20);
      Val v      = Val::con(APInt(w, w == 64 ? c : c & ((1ull << w) - 1)));
      pool.push_back({v, numeral(v.c)});
    }
    for (unsigned step = 0; step < 14; ++step) {
      P a = pool[rnd(pool.size())];
      P r;
      unsigned op = rnd(22);
      if (op < 14) {
        std::vector<unsigned> c;
        for (unsigned i = 0; i < pool.size(); ++i) if (pool[i].v.w == a.v.w) c.push_back(i);
        P b = pool[c[rnd(c.size())]];
        Val (*fs[])(Val const &, Val const &) = {vAdd, vSub, vMul, vUDiv, vURem, vShl, vLShr, vAShr, vAnd, vOr, vXor, vAdd, vSub, vOr};
        Z3_ast (*zs[])(Z3_context, Z3_ast, Z3_ast) = {Z3_mk_bvadd, Z3_mk_bvsub, Z3_mk_bvmul, Z3_mk_bvudiv, Z3_mk_bvurem, Z3_mk_bvshl, Z3_mk_bvlshr, Z3_mk_bvashr, Z3_mk_bvand, Z3_mk_bvor, Z3_mk_bvxor, Z3_mk_bvadd, Z3_mk_bvsub, Z3_mk_bvor};
        if (a.v.w == 1) continue;
        r = {fs[op](a.v, b.v), Ex(zs[op](C, a.z, b.z))};
      } else if (op == 14 && a.v.w < 64) { unsigned w = a.v.w * 2; r = {vZExt(a.v, w), Ex(Z3_mk_zero_ext(C, w - a.v.w, a.z))}; }
      else if (op == 15 && a.v.w < 64) { unsigned w = a.v.w * 2; r = {vSExt(a.v, w), Ex(Z3_mk_sign_ext(C, w - a.v.w, a.z))}; }
      else if (op == 16 && a.v.w > 8) { unsigned w = a.v.w / 2; unsigned lo = rnd(2) ? 0 : rnd(a.v.w / 2); r = {vExtract(a.v, lo, w), Ex(Z3_mk_extract(C, lo + w - 1, lo, a.z))}; }
      else if (op == 17 && a.v.w < 64) {
        std::vector<unsigned> c;
        for (unsigned i = 0; i < pool.size(); ++i) if (pool[i].v.w == a.v.w) c.push_back(i);
        P b = pool[c[rnd(c.size())]];
        r = {vConcat(a.v, b.v), Ex(Z3_mk_concat(C, a.z, b.z))};
      } else {
        std::vector<unsigned> c;
        for (unsigned i = 0; i < pool.size(); ++i) if (pool[i].v.w == a.v.w) c.push_back(i);
        P b = pool[c[rnd(c.size())]], d = pool[c[rnd(c.size())]], e = pool[c[rnd(c.size())]];
        Val cond; Ex zc;
        switch (rnd(5)) {
        case 0: cond = vEq(a.v, b.v); zc = Ex(Z3_mk_eq(C, a.z, b.z)); break;
        case 1: cond = vUlt(a.v, b.v); zc = Ex(Z3_mk_bvult(C, a.z, b.z)); break;
        case 2: cond = vSlt(a.v, b.v); zc = Ex(Z3_mk_bvslt(C, a.z, b.z)); break;
        case 3: cond = vUle(a.v, b.v); zc = Ex(Z3_mk_bvule(C, a.z, b.z)); break;
        default: cond = vSle(a.v, b.v); zc = Ex(Z3_mk_bvsle(C, a.z, b.z)); break;
        }
        r = {vIte(cond, d.v, e.v), Ex(Z3_mk_ite(C, zc, d.z, e.z))};
      }
      if (r.v.k == Val::NONE) continue;
      pool.push_back(r);
    }
    Z3_solver s = Z3_mk_simple_solver(C);
    Z3_solver_inc_ref(C, s);
    Z3_params p = Z3_mk_params(C);
    Z3_params_inc_ref(C, p);
    Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), 300);
    Z3_solver_set_params(C, s, p);
    for (auto &x : pool) {
      Ex l = bv2(x.v);
      Z3_solver_push(C, s);
      Z3_solver_assert(C, s, Ex(Z3_mk_not(C, Ex(Z3_mk_eq(C, l, x.z)))));
      if (Z3_solver_check(C, s) == Z3_L_TRUE) { ++bad; printf("MISMATCH %s\n  vs %s\n", exStr(l).c_str(), exStr(x.z).c_str()); }
      Z3_solver_pop(C, s, 1);
    }
    Z3_solver_dec_ref(C, s);
  }
  printf("expression self-test: %u rounds, %u mismatches\n", n, bad);
  return bad ? 1 : 0;
}
