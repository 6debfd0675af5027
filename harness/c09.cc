// C09: the address map over both families. States with up to two stored ranges of each family, one operation on an
// arbitrary range of either family, then arbitrary elements of both families are looked up and all ranges are
// iterated both ways.
// vf-src: swoc_ip TextView RBTree MemArena
// vf-opt vc_mark: split=2 cost=5
// vf-opt vc_erase: split=2 cost=5
// vf-opt vc_fill: split=2 cost=5
// vf-opt vc_blend: split=2 cost=5
// vf-opt vc_set: cost=5
// vf-opt vc_intersection: cost=3
#include "ip_spec.h"
using namespace swoc;
using Space = IPSpace<unsigned>;
// IPv6 elements share their upper half, which keeps the case splits of the two word comparison small
static IP6Addr a6(uint64_t lo) { return mk6((u128(0x20010db8deadbeefULL) << 64) | lo); }
static uint64_t low(IP6Addr const &a) { return (uint64_t)val6(a); }
struct R4 { uint32_t a, b; };
struct R6 { uint64_t a, b; };
static R4 s4[3]; static R6 s6[3]; static unsigned n4, n6;
static void build(Space &s, unsigned k4, unsigned k6) {
  n4 = k4; n6 = k6;
  static char const *const A[] = {"a0", "a1", "a2"}, *const B[] = {"b0", "b1", "b2"}, *const C[] = {"c0", "c1", "c2"}, *const D[] = {"d0", "d1", "d2"};
  for (unsigned i = 0; i < k4; ++i) { s4[i] = {vf_u32(A[i]), vf_u32(B[i])}; VF_REQUIRES(s4[i].a <= s4[i].b); if (i) VF_REQUIRES(s4[i - 1].b < s4[i].a); }
  for (unsigned i = 0; i < k6; ++i) { s6[i] = {vf_u64(C[i]), vf_u64(D[i])}; VF_REQUIRES(s6[i].a <= s6[i].b); if (i) VF_REQUIRES(s6[i - 1].b < s6[i].a); }
  EN(s.empty() && s.count() == 0 && s.begin() == s.end(), "new space is empty");
  for (unsigned i = 0; i < 3; ++i) { // interleave the families
    if (i < k6) s.mark(IPRange(IP6Range(a6(s6[i].a), a6(s6[i].b))), 20 + i);
    if (i < k4) s.mark(IPRange(IP4Range(IP4Addr(s4[i].a), IP4Addr(s4[i].b))), 10 + i);
  }
  EN(s.count_ip4() == k4 && s.count_ip6() == k6 && s.count() == k4 + k6 && s.empty() == (k4 + k6 == 0), "counts");
}
static unsigned old4(uint32_t g) { for (unsigned i = 0; i < n4 && g >= s4[i].a; ++i) if (g <= s4[i].b) return 10 + i; return 0; }
static unsigned old6(uint64_t g) { for (unsigned i = 0; i < n6 && g >= s6[i].a; ++i) if (g <= s6[i].b) return 20 + i; return 0; }
// every range is visited, IPv4 first, in order, both ways; returns the counts
static void walk(Space &s, bool tuples = false) {
  Space const &c = s;
  unsigned n = 0, m4 = 0, m6 = 0;
  IPAddr last;
  Space::iterator pos[16];
  for (auto it = s.begin(); it != s.end() && n < 15; ++it, ++n) {
    pos[n] = it;
    auto r = it->range();
    EN(!r.empty(), "ranges are not empty");
    if (r.is_ip4()) { EN(m6 == 0, "IPv4 ranges come first"); ++m4; } else ++m6;
    if (n) EN(last < r.min(), "ranges are visited in address order");
    EN(it->range_view() == r && it->range_view().min() == r.min() && it->range_view().max() == r.max(), "the view is the range");
    auto && [tr, tp] = *it;
    EN(tr == r && &tp == &it->payload(), "tuple access");
    if (!tuples) { last = r.max(); continue; }
    auto tu = it->tuple();
    EN(std::get<0>(tu) == r && &std::get<1>(tu) == &tp, "tuple of the element");
    EN(*it == std::make_tuple(IPRange(r), tp) && !(*it == std::make_tuple(IPRange(r), tp + 1)) && !(*it == std::make_tuple(IPRange(), tp)), "element compared to a tuple");
    last = r.max();
  }
  EN(n == s.count() && m4 == s.count_ip4() && m6 == s.count_ip6(), "every range is visited once");
  EN(s.count(AF_INET) == m4 && s.count(AF_INET6) == m6 && s.count(AF_UNSPEC) == 0 && s.empty() == (n == 0), "counts by family");
  unsigned k = n;
  auto it = s.end();
  while (k && it != s.begin()) { --it; --k; EN(it == pos[k] && it->range() == pos[k]->range() && &it->payload() == &pos[k]->payload(), "backward is the reverse of forward"); }
  EN(k == 0 && it == s.begin(), "backward visits every range");
  k = 0;
  for (auto ci = c.begin(); ci != c.end() && k < n; ci++, ++k) EN(ci->range() == pos[k]->range() && &ci->payload() == &pos[k]->payload(), "const iteration");
  EN(k == n, "const iteration visits every range");
  auto ci = c.end();
  while (k) { auto was = ci--; --k; EN(ci->range() == pos[k]->range() && was != ci, "post decrement"); }
  k = 0;
  for (auto i4 = s.begin_ip4(); i4 != s.end_ip4() && k < n; ++i4) { EN(i4->range().is_ip4(), "IPv4 sequence"); ++k; }
  EN(k == m4, "all of IPv4");
  for (auto i6 = s.begin_ip6(); i6 != s.end_ip6() && k < n; i6++) { EN(i6->range().is_ip6(), "IPv6 sequence"); ++k; }
  EN(k == n, "all of IPv6");
  k = 0;
  for (auto f = c.begin(AF_INET); f != c.end(AF_INET) && k < n; ++f) ++k;
  EN(k == m4, "family sequence");
  for (auto f = c.begin(AF_INET6); f != c.end(AF_INET6) && k < n; ++f) ++k;
  EN(k == n && c.begin(AF_UNSPEC) == c.end(AF_UNSPEC), "family sequence");
}
static void look4(Space &s, uint32_t g, unsigned want) {
  Space const &c = s;
  IP4Addr x{g};
  auto it = s.find(x);
  EN((it != s.end()) == (want != 0), "IPv4 look up finds an element exactly when it has a payload");
  if (it != s.end()) EN(it->payload() == want && it->range().is_ip4() && it->range().contains(IPAddr(x)), "IPv4 look up gives the payload");
  EN(s.find(IPAddr(x)) == it && c.find(x) == it && c.find(IPAddr(x)) == it, "all forms of look up agree");
}
static void look6(Space &s, uint64_t g, unsigned want) {
  Space const &c = s;
  IP6Addr x{a6(g)};
  auto it = s.find(x);
  EN((it != s.end()) == (want != 0), "IPv6 look up finds an element exactly when it has a payload");
  if (it != s.end()) EN(it->payload() == want && it->range().is_ip6() && it->range().contains(IPAddr(x)), "IPv6 look up gives the payload");
  EN(s.find(IPAddr(x)) == it && c.find(x) == it && c.find(IPAddr(x)) == it, "all forms of look up agree");
}
enum Op { MARK, ERASE, FILL, BLEND };
static void apply(Space &s, Op op, IPRange const &r) {
  Space *z = nullptr;
  if (op == MARK) z = &s.mark(r, 5);
  if (op == ERASE) z = &s.erase(r);
  if (op == FILL) z = &s.fill(r, 5);
  if (op == BLEND) z = &s.blend(r, 100u, [](unsigned &x, unsigned c) { x += c; return x != 111; });
  EN(z == &s, "returns the space");
}
static unsigned want(Op op, bool in, unsigned old) {
  if (!in) return old;
  return op == MARK ? 5 : op == ERASE ? 0 : op == FILL ? (old ? old : 5) : old == 11 ? 0 : old + 100;
}
static void one(Op op) {
  vf_bounded("up to two stored ranges of each family, IPv6 addresses which share their upper half");
  Space s;
  if (vf_part(2)) {
    build(s, 2, vf_pick("k6", 0, 1));
    uint32_t a = vf_u32("a"), b = vf_u32("b"), g = vf_u32("g");
    uint64_t h = vf_u64("h");
    VF_REQUIRES(a <= b);
    apply(s, op, IPRange(IP4Range(IP4Addr(a), IP4Addr(b))));
    walk(s);
    look4(s, g, want(op, a <= g && g <= b, old4(g)));
    look6(s, h, old6(h));
    EN(s.count_ip6() == n6, "the other family is not changed");
  } else {
    build(s, vf_pick("k4", 0, 1), 2);
    uint64_t a = vf_u64("a"), b = vf_u64("b"), g = vf_u64("g");
    uint32_t h = vf_u32("h");
    VF_REQUIRES(a <= b);
    apply(s, op, IPRange(IP6Range(a6(a), a6(b))));
    walk(s);
    look6(s, g, want(op, a <= g && g <= b, old6(g)));
    look4(s, h, old4(h));
    EN(s.count_ip4() == n4, "the other family is not changed");
  }
  vf_cover("done");
}
VC(vc_mark) { one(MARK); }
VC(vc_erase) { one(ERASE); }
VC(vc_fill) { one(FILL); }
VC(vc_blend) { one(BLEND); }
VC(vc_none) { // ranges of no family, queries with no family, clear
  vf_bounded("up to one stored range of each family");
  Space s;
  build(s, vf_pick("k4", 0, 1), vf_pick("k6", 0, 1));
  uint32_t g = vf_u32("g");
  uint64_t h = vf_u64("h");
  apply(s, Op(vf_pick("op", 0, 3)), IPRange());
  EN(s.count_ip4() == n4 && s.count_ip6() == n6, "a range of no family changes nothing");
  look4(s, g, old4(g));
  look6(s, h, old6(h));
  Space const &c = s;
  EN(s.find(IPAddr()) == s.end() && c.find(IPAddr()) == c.end(), "no family is not found");
  walk(s, true);
  s.clear();
  EN(s.empty() && s.count() == 0 && s.begin() == s.end() && s.count_ip4() == 0 && s.count_ip6() == 0, "clear");
  look4(s, g, 0);
  look6(s, h, 0);
  EN(IPRangeSet::Mark() == IPRangeSet::Mark() && !(IPRangeSet::Mark() != IPRangeSet::Mark()), "marks are all equal");
  s.blend(IP4Range(IP4Addr(g), IP4Addr(g)), 7u, [](unsigned &x, unsigned c) { x = c; return true; });
  s.blend(IP6Range(a6(h), a6(h)), 8u, [](unsigned &x, unsigned c) { x = c; return true; });
  EN(s.count_ip4() == 1 && s.count_ip6() == 1, "usable after clear");
  look4(s, g, 7);
  look6(s, h, 8);
}
VC(vc_intersection) {
  vf_bounded("two stored ranges of one family, one of the other");
  Space s;
  bool f4 = vf_pick("family", 0, 1);
  build(s, f4 ? 2 : 1, f4 ? 1 : 2);
  IPRange t;
  if (f4) { uint32_t a = vf_u32("a"), b = vf_u32("b"); VF_REQUIRES(a <= b); t = IP4Range(IP4Addr(a), IP4Addr(b)); }
  else { uint64_t a = vf_u64("a"), b = vf_u64("b"); VF_REQUIRES(a <= b); t = IP6Range(a6(a), a6(b)); }
  auto [f, e] = s.intersection(t);
  unsigned want = 0, n = 0;
  auto first = s.end();
  for (auto it = s.begin(); it != s.end(); ++it) {
    auto r = it->range();
    if (r.family() == t.family() && r.min() <= t.max() && t.min() <= r.max()) { if (!want++) first = it; }
  }
  if (want) EN(f == first, "starts at the first range that meets the target");
  for (; f != e && n < 4; ++f, ++n) EN(f->range().family() == t.family(), "family of the target");
  EN(n == want, "has exactly the ranges that meet the target");
  auto [f2, e2] = s.intersection(IPRange());
  EN(f2 == e2, "no family meets nothing");
}
VC(vc_set) {
  vf_bounded("three ranges marked or filled");
  IPRangeSet s;
  EN(s.empty() && s.count() == 0, "new set is empty");
  uint32_t a = vf_u32("a"), b = vf_u32("b"), c = vf_u32("c"), d = vf_u32("d"), g = vf_u32("g");
  uint64_t e = vf_u64("e"), f = vf_u64("f"), h = vf_u64("h");
  VF_REQUIRES(a <= b && c <= d && e <= f);
  s.mark(IP4Range(IP4Addr(a), IP4Addr(b)));
  s.fill(IP6Range(a6(e), a6(f)));
  if (vf_pick("fill", 0, 1)) s.fill(IP4Range(IP4Addr(c), IP4Addr(d)));
  else s.mark(IP4Range(IP4Addr(c), IP4Addr(d)));
  EN(s.contains(IPAddr(IP4Addr(g))) == vf_or(vf_and(a <= g, g <= b), vf_and(c <= g, g <= d)), "IPv4 membership");
  EN(s.contains(IPAddr(a6(h))) == vf_and(e <= h, h <= f), "IPv6 membership");
  EN(!s.contains(IPAddr()), "no family is no member");
  bool apart = (b < c && b + 1 != c) || (d < a && d + 1 != a);
  EN(s.count() == (apart ? 3u : 2u) && !s.empty(), "touching and overlapping ranges are one");
  unsigned n = 0;
  bool hit4 = false, hit6 = false;
  IPAddr last;
  IPRangeSet::iterator pos[4];
  for (auto it = s.begin(); it != s.end() && n < 4; ++it, ++n) {
    pos[n] = it;
    IPRangeView v = *it;
    if (n) EN(last < v.min(), "in address order");
    last = v.max();
    hit4 |= v.contains(IPAddr(IP4Addr(g)));
    hit6 |= v.contains(IPAddr(a6(h)));
    EN(it->min() == v.min() && it->max() == v.max(), "arrow");
  }
  EN(n == s.count() && hit4 == s.contains(IPAddr(IP4Addr(g))) && hit6 == s.contains(IPAddr(a6(h))), "the ranges are the members");
  auto it = s.end();
  while (n) { auto w = it--; --n; EN(it == pos[n] && w != it && it->min() == pos[n]->min(), "backward"); auto x = it++; EN(x == pos[n] && it == w, "post increment"); it = x; }
  s.clear();
  EN(s.empty() && s.count() == 0 && !s.contains(IPAddr(IP4Addr(g))) && s.begin() == s.end(), "clear");
}
VC(vn_family) { Space s; build(s, 1, 1); uint64_t h = vf_u64("h"); apply(s, MARK, IPRange(IP6Range(a6(h), a6(h)))); uint32_t g = vf_u32("g"); look6(s, h, old6(h)); look4(s, g, 0); }
