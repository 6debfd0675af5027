// C15: what cutting a text at a separator means.
#pragma once
#include "vf.h"
#include "swoc/TextView.h"
using namespace swoc;
static char *p;
static size_t n;
static size_t mn(size_t a, size_t b) { return vf_ite(a < b, a, b); }
static bool at(TextView const &s, char const *q, size_t k) { return vf_and(s.data() == q, s.size() == k); }
static bool pos(TextView const &s, char const *q, size_t k) { return vf_and(s.size() == k, vf_or(k == 0, s.data() == q)); } // where an empty view points does not matter
// Separator based operations. f is the index of the first match, l of the last one, or n if there is none.
template <typename X, typename PA, typename SA, typename RP, typename RS, typename SP, typename SS, typename TP, typename TS>
static void cuts(size_t f, size_t l, X const &x, PA pa, SA sa, RP rp, RS rs, SP sp, SS ss, TP tp, TS ts) {
  TextView const s{(char const *)p, n};
  bool found = f < n;
  EN(found ? pos(pa(s, x), p, f) : pa(s, x).empty(), "prefix ends at the first match");
  EN(found ? pos(sa(s, x), p + l + 1, n - l - 1) : sa(s, x).empty(), "suffix starts after the last match");
  { TextView t{s}; rp(t, x); EN(found ? pos(t, p + f + 1, n - f - 1) : at(t, p, n), "remove_prefix to the first match"); }
  { TextView t{s}; rs(t, x); EN(found ? pos(t, p, l) : t.empty(), "remove_suffix from the last match"); }
  { TextView t{s}, r = sp(t, x); EN(found ? pos(r, p, f) && pos(t, p + f + 1, n - f - 1) : r.empty() && at(t, p, n), "split_prefix at the first match"); }
  { TextView t{s}, r = ss(t, x); EN(found ? pos(r, p + l + 1, n - l - 1) && pos(t, p, l) : r.empty() && at(t, p, n), "split_suffix at the last match"); }
  { TextView t{s}, r = tp(t, x); EN(found ? pos(r, p, f) && pos(t, p + f + 1, n - f - 1) : pos(r, p, n) && t.empty(), "take_prefix at the first match"); }
  { TextView t{s}, r = ts(t, x); EN(found ? pos(r, p + l + 1, n - l - 1) && pos(t, p, l) : pos(r, p, n) && t.empty(), "take_suffix at the last match"); }
}
#define CUTS(f, l, arg, S) cuts(f, l, arg, \
  [](TextView const &t, auto const &x) { return t.prefix_##S(x); }, [](TextView const &t, auto const &x) { return t.suffix_##S(x); }, \
  [](TextView &t, auto const &x) { TextView &u = t.remove_prefix_##S(x); EN(&u == &t, "returns the view"); }, [](TextView &t, auto const &x) { TextView &u = t.remove_suffix_##S(x); EN(&u == &t, "returns the view"); }, \
  [](TextView &t, auto const &x) { return t.split_prefix_##S(x); }, [](TextView &t, auto const &x) { return t.split_suffix_##S(x); }, \
  [](TextView &t, auto const &x) { return t.take_prefix_##S(x); }, [](TextView &t, auto const &x) { return t.take_suffix_##S(x); })
