// C07: intervals as sets. For arbitrary intervals (including empty ones of any form) and an arbitrary
// element x, each operation is compared with the set view. Universal statements over elements are proved
// through an arbitrary ghost element; existential ones through the witness the theory gives.
// vf-src: swoc_ip TextView
// vf-opt vc_ip6_order: cost=3
#include "ip_spec.h"
#include "swoc/DiscreteRange.h"
using namespace swoc;
template <typename T> struct Tr { static T get(char const *n) { return T(vf_u(n, 8 * sizeof(T))); } static T lo() { return std::numeric_limits<T>::min(); } static T hi() { return std::numeric_limits<T>::max(); } };
template <> struct Tr<IP4Addr> { static IP4Addr get(char const *n) { return IP4Addr(vf_u32(n)); } static IP4Addr lo() { return IP4Addr(0u); } static IP4Addr hi() { return IP4Addr(~0u); } };
template <> struct Tr<IP6Addr> { static IP6Addr get(char const *n) { return mk6(vf_u128(n)); } static IP6Addr lo() { return mk6(0); } static IP6Addr hi() { return mk6(~u128(0)); } };
// integer view of an element
template <typename T> static T num(T const &x) { return x; }
template <typename T> static T inc(T x) { ++x; return x; }
static uint32_t num(IP4Addr const &x) { return x.host_order(); }
static u128 num(IP6Addr const &x) { return val6(x); }
// `part` selects the operations, so that the paths of different operations do not multiply
template <typename T, typename R = DiscreteRange<T>> static void predicates(int part) {
  T a = Tr<T>::get("a"), b = Tr<T>::get("b"), c = Tr<T>::get("c"), d = Tr<T>::get("d"), x = Tr<T>::get("x");
  auto na = num(a), nb = num(b), nc = num(c), nd = num(d), nx = num(x);
  auto lo = num(Tr<T>::lo()), hi = num(Tr<T>::hi());
  R r{a, b}, s{c, d};
  bool re = na > nb, se = nc > nd;
  bool inr = vf_and(na <= nx, nx <= nb), ins = vf_and(nc <= nx, nx <= nd);
  auto mx = na > nc ? na : nc;
  auto mn = nb < nd ? nb : nd;
  bool meet = mx <= mn;
  if (part == 0) {
  EN(r.empty() == re && !r == re && bool(r) == !re, "empty");
  EN(r.contains(x) == inr, "membership");
  EN(num(r.min()) == na && num(r.max()) == nb, "bounds");
  EN(r.has_intersection_with(s) == meet && s.has_intersection_with(r) == meet && (r ^ s) == meet, "common element");
  R i = r.intersection(s);
  EN(i.contains(x) == vf_and(inr, ins), "intersection is the set of common elements");
  EN(i.empty() == !meet, "intersection empty exactly when disjoint");
  { R t{r}; R &u = (t &= s); EN(&u == &t && t.contains(x) == vf_and(inr, ins), "clipping"); }
  vf_cover("sets"); }
  bool sup = vf_or(se, vf_and(na <= nc, nd <= nb)), sub = vf_or(re, vf_and(nc <= na, nb <= nd));
  if (part == 1) {
  EN(r.is_superset_of(s) == sup && s.is_subset_of(r) == sup && (r >= s) == sup && (s <= r) == sup, "superset");
  EN(r.is_subset_of(s) == sub && s.is_superset_of(r) == sub, "subset");
  EN(r.is_strict_superset_of(s) == vf_and(sup, !sub) && s.is_strict_subset_of(r) == vf_and(sup, !sub) && (r > s) == vf_and(sup, !sub) && (s < r) == vf_and(sup, !sub), "strict superset");
  EN((r == s) == vf_and(na == nc, nb == nd) && (r != s) == !vf_and(na == nc, nb == nd), "equality");
  if (!re) EN(r.is_singleton() == (na == nb), "singleton");
  EN(r.is_maximal() == vf_and(na == lo, nb == hi), "maximal");
  }
  if (part < 2) return;
  bool ra = false, la = false;
  if (!re && !se) { if (nb < nc) ra = inc(b) == c; if (nd < na) la = inc(d) == a; }
  if (part == 2) {
  EN(r.is_left_adjacent_to(s) == ra && s.is_left_adjacent_to(r) == la, "left adjacent");
  EN(r.is_adjacent_to(s) == vf_or(ra, la), "adjacent");
  R h = r.hull(s);
  auto hlo = re ? nc : se ? na : na < nc ? na : nc;
  auto hhi = re ? nd : se ? nb : nb > nd ? nb : nd;
  EN(num(h.min()) == hlo && num(h.max()) == hhi, "hull is the smallest interval covering both");
  { R t{r}; R &u = (t |= s); EN(&u == &t && num(t.min()) == hlo && num(t.max()) == hhi, "extending to the hull"); }
  }
  if (part == 3 && !re && !se) {
    EN(r.has_union(s) == vf_or(meet, vf_or(ra, la)), "union is an interval");
  }
  if (part == 4 && !re && !se) {
    using Rel = DiscreteRangeRelation;
    Rel want = vf_and(na == nc, nb == nd) ? Rel::EQUAL : sub ? Rel::SUBSET : sup ? Rel::SUPERSET : meet ? Rel::OVERLAP : vf_or(ra, la) ? Rel::ADJACENT : Rel::NONE;
    EN(r.relationship(s) == want, "relationship");
  }
  if (part == 5 && !re && !se) {
    using Ed = DiscreteRangeEdgeRelation;
    Ed we = nc < na ? Ed::NONE : nc <= nb ? Ed::OVLP : ra ? Ed::ADJ : Ed::GAP;
    EN(r.left_edge_relationship(s) == we, "left edge relationship");
    vf_cover("both");
  }
}
template <typename T, typename R = DiscreteRange<T>> static void modify() {
  T a = Tr<T>::get("a"), b = Tr<T>::get("b"), x = Tr<T>::get("x");
  auto nx = num(x);
  R e;
  EN(e.empty() && !e.contains(x), "a new interval is empty");
  R s{x};
  EN(s.contains(x) && num(s.min()) == nx && num(s.max()) == nx && s.is_singleton(), "single element");
  EN(e.hull(s) == s && s.hull(e) == s && !s.has_intersection_with(e) && !e.has_intersection_with(s) && !e.is_adjacent_to(s) && !s.is_adjacent_to(e) && s.is_superset_of(e) && !e.is_superset_of(s) && s.intersection(e).empty(), "empty interval");
  R r;
  EN(&r.assign(a, b) == &r && r == R(a, b), "assign");
  r.assign_min(x); EN(r == R(x, b), "assign min");
  r.assign_max(x); EN(r == R(x, x), "assign max");
  r.assign(b); EN(r == R(b, b), "assign single");
  r.clear(); EN(r.empty() && r == e, "clear");
  if (num(b) != num(Tr<T>::lo())) { R t{a, b}; t.clip_max(); T bb(b); --bb; EN(t == R(a, bb), "clip max"); }
  R m{Tr<T>::lo(), Tr<T>::hi()};
  EN(m.is_maximal() && m.contains(x), "maximal interval has every element");
  EN(num(detail::minimum<T>()) == num(Tr<T>::lo()) && num(detail::maximum<T>()) == num(Tr<T>::hi()), "ends of the metric");
}
template <typename T, typename R = DiscreteRange<T>> static void order() {
  R p{Tr<T>::get("a"), Tr<T>::get("b")}, q{Tr<T>::get("c"), Tr<T>::get("d")}, r{Tr<T>::get("e"), Tr<T>::get("f")};
  typename R::lexicographic_order l;
  bool pq = l(p, q), qp = l(q, p), qr = l(q, r), pr = l(p, r);
  EN(!l(p, p) && !vf_and(pq, qp), "irreflexive and asymmetric");
  EN(!vf_and(vf_and(pq, qr), !pr), "transitive");
  EN(vf_and(!pq, !qp) == (p == q), "incomparable exactly when equal");
  EN(!vf_and(p < q, q < p) && !(p < p) && !vf_and(vf_and(p < q, q < r), !(p < r)), "strict subset order");
}
VC(vc_u8_sets) { predicates<uint8_t>(0); }
VC(vc_u8_subset) { predicates<uint8_t>(1); }
VC(vc_u8_hull) { predicates<uint8_t>(2); }
VC(vc_u8_union) { predicates<uint8_t>(3); }
VC(vc_u8_rel) { predicates<uint8_t>(4); }
VC(vc_u8_edge) { predicates<uint8_t>(5); }
VC(vc_s8_sets) { predicates<int8_t>(0); }
VC(vc_s8_subset) { predicates<int8_t>(1); }
VC(vc_s8_hull) { predicates<int8_t>(2); }
VC(vc_s8_union) { predicates<int8_t>(3); }
VC(vc_s8_rel) { predicates<int8_t>(4); }
VC(vc_s8_edge) { predicates<int8_t>(5); }
VC(vc_u32_sets) { predicates<uint32_t>(0); }
VC(vc_u32_subset) { predicates<uint32_t>(1); }
VC(vc_u32_hull) { predicates<uint32_t>(2); }
VC(vc_u32_union) { predicates<uint32_t>(3); }
VC(vc_u32_rel) { predicates<uint32_t>(4); }
VC(vc_u32_edge) { predicates<uint32_t>(5); }
VC(vc_s64_sets) { predicates<int64_t>(0); }
VC(vc_s64_subset) { predicates<int64_t>(1); }
VC(vc_s64_hull) { predicates<int64_t>(2); }
VC(vc_s64_union) { predicates<int64_t>(3); }
VC(vc_s64_rel) { predicates<int64_t>(4); }
VC(vc_s64_edge) { predicates<int64_t>(5); }
VC(vc_ip4_sets) { predicates<IP4Addr>(0); }
VC(vc_ip4_subset) { predicates<IP4Addr>(1); }
VC(vc_ip4_hull) { predicates<IP4Addr>(2); }
VC(vc_ip4_union) { predicates<IP4Addr>(3); }
VC(vc_ip4_rel) { predicates<IP4Addr>(4); }
VC(vc_ip4_edge) { predicates<IP4Addr>(5); }
VC(vc_ip6_sets) { predicates<IP6Addr>(0); }
VC(vc_ip6_subset) { predicates<IP6Addr>(1); }
VC(vc_ip6_hull) { predicates<IP6Addr>(2); }
VC(vc_ip6_union) { predicates<IP6Addr>(3); }
VC(vc_ip6_rel) { predicates<IP6Addr>(4); }
VC(vc_ip6_edge) { predicates<IP6Addr>(5); }
VC(vc_mod_u8) { modify<uint8_t>(); }
VC(vc_mod_s32) { modify<int32_t>(); }
VC(vc_mod_ip4) { modify<IP4Addr>(); }
VC(vc_mod_ip6) { modify<IP6Addr>(); }
VC(vc_u8_order) { order<uint8_t>(); }
VC(vc_s32_order) { order<int32_t>(); }
VC(vc_ip4_order) { order<IP4Addr>(); }
VC(vc_ip6_order) { order<IP6Addr>(); }
// brute force over a tiny metric: the statements above against literal sets
VC(vc_sets) {
  vf_bounded("a metric of 4 values, every pair of intervals");
  int a = vf_pick("a", 0, 3), b = vf_pick("b", 0, 3), c = vf_pick("c", 0, 3), d = vf_pick("d", 0, 3);
  DiscreteRange<int> r{a, b}, s{c, d};
  unsigned R = 0, S = 0;
  for (int i = 0; i < 4; ++i) { R |= (a <= i && i <= b) << i; S |= (c <= i && i <= d) << i; }
  auto bits = [](DiscreteRange<int> const &t) { unsigned z = 0; for (int i = 0; i < 4; ++i) z |= t.contains(i) << i; return z; };
  EN(bits(r) == R && bits(r.intersection(s)) == (R & S) && r.has_intersection_with(s) == ((R & S) != 0), "intersection");
  EN(r.is_subset_of(s) == ((R & ~S) == 0) && r.is_superset_of(s) == ((S & ~R) == 0), "subset");
  EN(r.is_strict_subset_of(s) == ((R & ~S) == 0 && R != S), "strict subset");
  unsigned h = R | S;
  for (int i = 1; i < 3; ++i) for (int j = 0; j < i; ++j) for (int k = i + 1; k < 4; ++k) if ((h >> j & 1) && (h >> k & 1)) h |= 1u << i;
  EN(bits(r.hull(s)) == h, "hull");
  if (R && S) EN(r.has_union(s) == (h == (R | S)), "union");
  if (R && S) EN(r.is_adjacent_to(s) == (h == (R | S) && !(R & S)), "adjacent");
}
// address ranges
VC(vc_iprange4) {
  IP4Addr a = Tr<IP4Addr>::get("a"), b = Tr<IP4Addr>::get("b"), x = Tr<IP4Addr>::get("x");
  IP4Range r{a, b};
  IPRange g{r};
  EN(r.contains(x) == vf_and(num(a) <= num(x), num(x) <= num(b)) && r.empty() == (num(a) > num(b)), "membership");
  EN(g.empty() == r.empty(), "generic empty");
  EN(!r.empty() ? g.contains(IPAddr(x)) == r.contains(x) : true, "generic membership");
  EN(num(r.min()) == num(a) && num(r.max()) == num(b), "bounds");
}
VC(vn_meet) { DiscreteRange<uint8_t> r{vf_u8("a"), vf_u8("b")}, s{vf_u8("c"), vf_u8("d")}; EN(!r.has_intersection_with(s) || r.is_superset_of(s) || s.is_superset_of(r), "negative control"); }
