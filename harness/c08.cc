// C08: the interval map. The state is any sequence of up to K stored disjoint ranges (arbitrary end points over the whole
// metric, arbitrary payloads, touching or not), stored in any order; one operation on an arbitrary range with an arbitrary payload;
// then an arbitrary element must have exactly the payload the operation gives it pointwise, and the stored
// ranges must be sorted, disjoint and counted. As the states reached are again such sequences, the contracts compose over histories.
// vf-src: swoc_ip TextView RBTree MemArena
// vf-opt vc_mark2: cost=1
// vf-opt vc_mark3: cost=4
// vf-opt vc_mark2r: cost=1
// vf-opt vt_mark2_v6: cost=5 ttimeout=900
// vf-opt vt_mark3_shapes: tsplit=5 cost=8 ttimeout=900
// vf-opt vt_mark4: cost=9 ttimeout=900
// vf-opt vt_mark2_loose: cost=6 ttimeout=900
// vf-opt vc_erase2: cost=1
// vf-opt vc_erase3: cost=2
// vf-opt vc_erase2r: cost=1
// vf-opt vt_erase2_v6: cost=5 ttimeout=900
// vf-opt vt_erase3_shapes: tsplit=5 cost=8 ttimeout=900
// vf-opt vt_erase4: cost=9 ttimeout=900
// vf-opt vt_erase2_loose: cost=6 ttimeout=900
// vf-opt vc_fill2: cost=1
// vf-opt vc_fill3: cost=6
// vf-opt vc_fill2r: cost=1
// vf-opt vt_fill2_v6: cost=5 ttimeout=900
// vf-opt vt_fill3_shapes: tsplit=5 cost=8 ttimeout=900
// vf-opt vt_fill4: cost=9 ttimeout=900
// vf-opt vt_fill2_loose: cost=6 ttimeout=900
// vf-opt vc_blend2: cost=3
// vf-opt vt_blend3: split=6 cost=9 ttimeout=900
// vf-opt vc_blend2r: cost=3
// vf-opt vt_blend2_v6: cost=5 ttimeout=900
// vf-opt vt_blend2_loose: cost=6 ttimeout=900
// vf-opt vc_empty_range: cost=2
// vf-opt vc_query3: split=3 tsplit=6 cost=4
#include "ip_spec.h"
#include "swoc/DiscreteRange.h"
using namespace swoc;
template <typename M> struct Tr;
template <> struct Tr<IP4Addr> { using N = uint32_t; static N get(char const *n) { return vf_u32(n); } static IP4Addr mk(N v) { return IP4Addr(v); } };
template <> struct Tr<IP6Addr> { using N = u128; static N get(char const *n) { return vf_u128(n); } static IP6Addr mk(N v) { return mk6(v); } };
static uint32_t v(IP4Addr const &m) { return m.host_order(); }
static u128 v(IP6Addr const &m) { return val6(m); }
static unsigned pl_[5], K_;
static char const *const LO[] = {"lo0", "lo1", "lo2", "lo3", "lo4"}, *const HI[] = {"hi0", "hi1", "hi2", "hi3", "hi4"}, *const PL[] = {"p0", "p1", "p2", "p3", "p4"};
static uint8_t const P = 3; // payloads 0 .. P
enum Op { MARK, ERASE, FILL, BLEND };
template <typename M> struct C08 {
using Space = DiscreteSpace<M, uint8_t>;
using Range = DiscreteRange<M>;
using N = typename Tr<M>::N;
static N lo_[5], hi_[5];
static M mk(N x) { return Tr<M>::mk(x); }
static N get(char const *n) { return Tr<M>::get(n); }
// arbitrary state of k ranges, stored in the given order; coalesced: touching ranges have different payloads
static void build(Space &s, unsigned k, unsigned perm, bool coalesced) {
  static unsigned const ORD[6][3] = {{0, 1, 2}, {2, 1, 0}, {1, 0, 2}, {1, 2, 0}, {0, 2, 1}, {2, 0, 1}};
  K_ = k;
  for (unsigned i = 0; i < k; ++i) {
    lo_[i] = get(LO[i]);
    hi_[i] = get(HI[i]);
    pl_[i] = vf_u8(PL[i]);
    VF_REQUIRES(pl_[i] <= P);
    VF_REQUIRES(lo_[i] <= hi_[i]);
    if (i) {
      VF_REQUIRES(hi_[i - 1] < lo_[i]);
      if (coalesced) VF_REQUIRES(vf_or(hi_[i - 1] + 1 != lo_[i], pl_[i - 1] != pl_[i]));
    }
  }
  for (unsigned j = 0; j < k; ++j) {
    unsigned i = k == 3 ? ORD[perm][j] : k == 2 && perm ? 1 - j : j;
    s.mark(Range{mk(lo_[i]), mk(hi_[i])}, 10 + i); // distinct, so that nothing is merged
  }
  EN(s.count() == k, "disjoint ranges are all stored");
  unsigned i = 0;
  for (auto &n : s) { n.payload() = pl_[i++]; if (i >= k) break; }
}
static unsigned before(N g) { // payload of g before the operation, 255 when none
  unsigned r = 255;
  for (unsigned i = 0; i < K_ && g >= lo_[i]; ++i) if (g <= hi_[i]) return pl_[i];
  return r;
}
static void check(Space &s, N g, unsigned want, bool coalesced) {
  unsigned n = 0;
  auto it = s.find(mk(g));
  bool hit = it != s.end();
  EN(hit == (want != 255), "look up finds the element exactly when it has a payload");
  if (hit) EN(it->payload() == want, "look up gives the element its pointwise payload");
  if (hit) EN(vf_and(v(it->min()) <= g, g <= v(it->max())), "the range found has the element");
  bool first = true;
  N last = 0; unsigned lastp = 0;
  for (auto &x : s) {
    N a = v(x.min()), b = v(x.max());
    EN(a <= b, "stored ranges are not empty");
    if (!first) {
      EN(last < a, "stored ranges are sorted and disjoint");
      if (coalesced) EN(vf_or(last + 1 != a, lastp != x.payload()), "touching ranges with equal payload are merged");
    }
    if (!(hit && &x == &*it)) EN(vf_or(g < a, b < g), "the element is in no other range");
    first = false; last = b; lastp = x.payload();
    if (++n > 9) break;
  }
  EN(s.count() == n && s.empty() == (n == 0), "count is the number of stored ranges");
  Space const &c = s;
  auto ci = c.find(mk(g));
  EN((ci == c.end()) == (it == s.end()), "const look up");
  unsigned m = 0;
  for (auto p = s.end(); p != s.begin() && m <= n;) { --p; ++m; }
  EN(m == n, "backward iteration");
}
static void one(Op op, unsigned k, unsigned perm, bool coalesced) {
  Space s;
  build(s, k, perm, coalesced);
  N a = get("a"), b = get("b"), g = get("g");
  unsigned p = vf_u8("p");
  VF_REQUIRES(p <= P);
  VF_REQUIRES(a <= b);
  Range r{mk(a), mk(b)};
  Space *z = nullptr;
  uint8_t to[P + 1], keep[P + 1];
  if (op == MARK) { z = &s.mark(r, p); }
  if (op == ERASE) { z = &s.erase(r); }
  if (op == FILL) { z = &s.fill(r, p); }
  if (op == BLEND) { // an arbitrary blending function on the payloads: new payload and whether it is kept
    for (unsigned i = 0; i <= P; ++i) {
      static char const *const TN[] = {"to0", "to1", "to2", "to3"}, *const KN[] = {"keep0", "keep1", "keep2", "keep3"};
      to[i] = vf_u8(TN[i]); keep[i] = vf_bool(KN[i]);
      VF_REQUIRES(to[i] <= P);
    }
    auto f = [&](uint8_t &x, unsigned c) -> bool {
      EN(c == p, "the blender gets the color");
      unsigned t = to[0], kp = keep[0];
      for (unsigned i = 1; i <= P; ++i) { t = vf_ite(x == i, to[i], t); kp = vf_ite(x == i, keep[i], kp); }
      x = t;
      return kp;
    };
    z = &s.blend(r, p, f);
  }
  EN(z == &s, "returns the space");
  unsigned old = before(g), want = old;
  if (a <= g && g <= b) {
    if (op == MARK) want = p;
    if (op == ERASE) want = 255;
    if (op == FILL && old == 255) want = p;
    if (op == BLEND) {
      unsigned from = old == 255 ? 0 : old, t = to[0], kp = keep[0];
      for (unsigned i = 1; i <= P; ++i) { t = vf_ite(from == i, to[i], t); kp = vf_ite(from == i, keep[i], kp); }
      want = kp ? t : 255;
    }
  }
  check(s, g, want, coalesced);
  vf_cover("done");
}
// operations which change nothing: an empty range
static void none(unsigned k) {
  Space s;
  build(s, k, 0, true);
  N a = get("a"), b = get("b"), g = get("g");
  unsigned p = vf_u8("p");
  VF_REQUIRES(p <= P);
  VF_REQUIRES(a > b);
  Range r{mk(a), mk(b)};
  unsigned op = vf_pick("op", 0, 3);
  if (op == 0) s.mark(r, p);
  if (op == 1) s.erase(r);
  if (op == 2) s.fill(r, p);
  if (op == 3) s.blend(r, p, [](uint8_t &x, unsigned c) { x = c; return true; });
  EN(s.count() == k, "an empty range changes nothing");
  check(s, g, before(g), true);
}
// ordered queries
static void query(unsigned k, unsigned perm) {
  Space s;
  build(s, k, perm, false);
  N a = get("a"), b = get("b");
  auto l = s.lower_bound(mk(a)), u = s.upper_bound(mk(a));
  unsigned i = 0, nl = 0, nm = 0;
  auto wl = s.end(), wu = s.end();
  for (auto it = s.begin(); it != s.end(); ++it, ++i) { if (lo_[i] <= a) { wl = it; ++nl; } else if (wu == s.end()) wu = it; }
  EN(l == wl, "lower bound is the last range that starts at or before the element");
  EN(u == wu, "upper bound is the first range that starts after the element");
  if (a <= b) {
    auto [f, e] = s.intersection(Range{mk(a), mk(b)});
    auto wf = s.end(); i = 0;
    for (auto it = s.begin(); it != s.end(); ++it, ++i) if (hi_[i] >= a && lo_[i] <= b) { if (!nm++) wf = it; }
    unsigned m = 0;
    if (nm) EN(f == wf, "intersection starts at the first range that meets the target");
    for (; f != e && m <= k; ++f) ++m;
    EN(m == nm, "intersection has the ranges that meet the target");
  }
  vf_cover("queried");
  s.clear();
  EN(s.count() == 0 && s.empty() && s.begin() == s.end() && s.find(mk(a)) == s.end(), "clear");
  if (a <= b) {
    s.mark(Range{mk(a), mk(b)}, 1);
    EN(s.count() == 1 && s.find(mk(b)) != s.end() && s.find(mk(b))->payload() == 1, "usable after clear");
  }
}
};
template <typename M> typename Tr<M>::N C08<M>::lo_[5];
template <typename M> typename Tr<M>::N C08<M>::hi_[5];
using V4 = C08<IP4Addr>;
using V6 = C08<IP6Addr>;
static void any(unsigned n) { static char const *const T[] = {"no stored range", "one stored range", "two stored ranges", "three stored ranges", "four stored ranges"}; if (n) vf_bounded(T[n]); }
VC(vc_mark0) { any(0); V4::one(MARK, 0, 0, true); }
VC(vc_mark1) { any(1); V4::one(MARK, 1, 0, true); }
VC(vc_mark2) { any(2); V4::one(MARK, 2, 0, true); }
VC(vc_mark3) { any(3); V4::one(MARK, 3, 0, true); }
VC(vc_mark2r) { any(2); V4::one(MARK, 2, 1, true); }
VC(vt_mark1_v6) { any(1); V6::one(MARK, 1, 0, true); }
VC(vt_mark2_v6) { any(2); V6::one(MARK, 2, 0, true); }
VC(vt_mark3_shapes) { any(3); V4::one(MARK, 3, 1 + vf_part(5), true); }
VC(vt_mark4) { any(4); V4::one(MARK, 4, 0, true); }
VC(vt_mark2_loose) { any(2); V4::one(MARK, 2, 0, false); }
VC(vc_erase0) { any(0); V4::one(ERASE, 0, 0, true); }
VC(vc_erase1) { any(1); V4::one(ERASE, 1, 0, true); }
VC(vc_erase2) { any(2); V4::one(ERASE, 2, 0, true); }
VC(vc_erase3) { any(3); V4::one(ERASE, 3, 0, true); }
VC(vc_erase2r) { any(2); V4::one(ERASE, 2, 1, true); }
VC(vt_erase1_v6) { any(1); V6::one(ERASE, 1, 0, true); }
VC(vt_erase2_v6) { any(2); V6::one(ERASE, 2, 0, true); }
VC(vt_erase3_shapes) { any(3); V4::one(ERASE, 3, 1 + vf_part(5), true); }
VC(vt_erase4) { any(4); V4::one(ERASE, 4, 0, true); }
VC(vt_erase2_loose) { any(2); V4::one(ERASE, 2, 0, false); }
VC(vc_fill0) { any(0); V4::one(FILL, 0, 0, true); }
VC(vc_fill1) { any(1); V4::one(FILL, 1, 0, true); }
VC(vc_fill2) { any(2); V4::one(FILL, 2, 0, true); }
VC(vc_fill3) { any(3); V4::one(FILL, 3, 0, true); }
VC(vc_fill2r) { any(2); V4::one(FILL, 2, 1, true); }
VC(vt_fill1_v6) { any(1); V6::one(FILL, 1, 0, true); }
VC(vt_fill2_v6) { any(2); V6::one(FILL, 2, 0, true); }
VC(vt_fill3_shapes) { any(3); V4::one(FILL, 3, 1 + vf_part(5), true); }
VC(vt_fill4) { any(4); V4::one(FILL, 4, 0, true); }
VC(vt_fill2_loose) { any(2); V4::one(FILL, 2, 0, false); }
VC(vc_blend0) { any(0); V4::one(BLEND, 0, 0, true); }
VC(vc_blend1) { any(1); V4::one(BLEND, 1, 0, true); }
VC(vc_blend2) { any(2); V4::one(BLEND, 2, 0, true); }
VC(vt_blend3) { any(3); V4::one(BLEND, 3, vf_part(6), true); }
VC(vc_blend2r) { any(2); V4::one(BLEND, 2, 1, true); }
VC(vt_blend1_v6) { any(1); V6::one(BLEND, 1, 0, true); }
VC(vt_blend2_v6) { any(2); V6::one(BLEND, 2, 0, true); }
VC(vt_blend2_loose) { any(2); V4::one(BLEND, 2, 0, false); }
VC(vc_empty_range) { any(2); V4::none(2); }
VC(vc_query2) { any(2); V4::query(2, vf_pick("order", 0, 1)); }
VC(vc_query3) { any(3); V4::query(3, vf_part(VF_N(3, 6))); }
VC(vc_query1_v6) { any(1); V6::query(1, 0); }
VC(vn_mark) { C08<IP4Addr>::Space s; V4::build(s, 1, 0, true); uint32_t a = vf_u32("a"), g = vf_u32("g"); unsigned old = V4::before(g); s.mark(V4::Range{IP4Addr(a), IP4Addr(a)}, 1); V4::check(s, g, old, true); }
