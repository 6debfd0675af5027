// C02: masks and networks.
// vf-src: swoc_ip TextView
// vf-opt vc_ip6_mask_for: cost=5
#include "ip_spec.h"
using namespace swoc;
static uint32_t m4(unsigned w) { return w == 0 ? 0 : ~0u << (32 - w); }
static u128 m6(unsigned w) { return w == 0 ? u128(0) : ~u128(0) << (128 - w); }

VC(vc_mask_value) {
  unsigned w = vf_u8("w");
  IPMask m{IPMask::raw_type(w)};
  EN(m.width() == w, "width");
  EN(m.is_valid() == (w != 255), "validity");
  if (w <= 32) { EN(m.as_ip4().host_order() == m4(w), "IPv4 mask bits"); vf_cover("w4"); }
  if (w <= 128) { EN(val6(m.as_ip6()) == m6(w), "IPv6 mask bits"); vf_cover("w6"); }
  IPMask d;
  EN(!d.is_valid(), "default mask is invalid");
  unsigned v = vf_u8("v");
  IPMask n{IPMask::raw_type(v)};
  EN((m == n) == (w == v) && (m != n) == (w != v) && (m < n) == (w < v), "mask comparison is by width");
  if (v <= w) { IPMask x = m; x <<= v; EN(x.width() == w - v, "widening"); }
  if (v + w <= 128) { IPMask x = m; x >>= v; EN(x.width() == w + v, "narrowing"); }
  m.clear();
  EN(!m.is_valid(), "clear");
}
VC(vc_ip4_apply) {
  uint32_t a = vf_u32("a");
  unsigned w = vf_range("w", 0, 32);
  IPMask m{IPMask::raw_type(w)};
  IP4Addr x{a};
  EN((x & m).host_order() == (a & m4(w)), "and keeps the network bits");
  EN((x | m).host_order() == (a | ~m4(w)), "or sets the host bits");
  IP4Addr y{a};
  y &= m;
  EN(y.host_order() == (a & m4(w)), "and in place");
  y = IP4Addr{a};
  y |= m;
  EN(y.host_order() == (a | ~m4(w)), "or in place");
  IPAddr g{x};
  EN((g & m) == IPAddr(IP4Addr(a & m4(w))), "generic and");
  EN((g | m) == IPAddr(IP4Addr(a | ~m4(w))), "generic or");
  vf_cover("end");
}
VC(vc_ip6_apply) {
  u128 a = vf_u128("a");
  unsigned w = vf_range("w", 0, 128);
  IPMask m{IPMask::raw_type(w)};
  IP6Addr x = mk6(a);
  EN(val6(x & m) == (a & m6(w)), "and keeps the network bits");
  EN(val6(x | m) == (a | ~m6(w)), "or sets the host bits");
  IP6Addr y = x;
  y &= m;
  EN(val6(y) == (a & m6(w)), "and in place");
  y = x;
  y |= m;
  EN(val6(y) == (a | ~m6(w)), "or in place");
  IPAddr g{x};
  EN((g & m) == IPAddr(mk6(a & m6(w))), "generic and");
  EN((g | m) == IPAddr(mk6(a | ~m6(w))), "generic or");
  vf_cover("end");
}
// the inferred mask is the smallest width that keeps the address unchanged
VC(vc_ip4_mask_for) {
  uint32_t a = vf_u32("a");
  unsigned w = IPMask::mask_for(IP4Addr(a)).width();
  EN(w <= 32, "width in range");
  EN((a & m4(w)) == a, "mask keeps the address");
  EN(w == 0 || (a & m4(w - 1)) != a, "no shorter mask keeps the address");
  EN(IPMask::mask_for(IPAddr(IP4Addr(a))).width() == w, "generic");
  vf_cover("end");
}
VC(vc_ip6_mask_for) {
  u128 a = vf_u128("a");
  unsigned w = IPMask::mask_for(mk6(a)).width();
  EN(w <= 128, "width in range");
  EN((a & m6(w)) == a, "mask keeps the address");
  EN(w == 0 || (a & m6(w - 1)) != a, "no shorter mask keeps the address");
  vf_cover("end");
}
VC(vc_mask_for_generic) {
  EN(!IPMask::mask_for(IPAddr()).is_valid(), "no mask for no address");
  unsigned w = vf_pick("w", 0, 128);
  EN(IPMask::mask_for(IPAddr(mk6(m6(w)))).width() == w, "mask of a mask address (IPv6)");
  if (w <= 32) EN(IPMask::mask_for(IP4Addr(m4(w))).width() == w, "mask of a mask address (IPv4)");
  vf_cover("end");
}
VC(vc_ip4_net) {
  uint32_t a = vf_u32("a"), p = vf_u32("p");
  unsigned w = vf_range("w", 0, 32);
  IPMask m{IPMask::raw_type(w)};
  IP4Net n{IP4Addr(a), m};
  EN(!n.empty(), "not empty");
  EN(n.min().host_order() == (a & m4(w)) && n.max().host_order() == (a | ~m4(w)), "network ends");
  EN(n.mask() == m, "mask");
  bool in = (p & m4(w)) == (a & m4(w));
  IP4Range r = n.as_range();
  EN(r.min() == n.min() && r.max() == n.max() && r.contains(IP4Addr(p)) == in, "network contains exactly the addresses with its prefix");
  IP4Range q{IP4Addr(a), m};
  EN(q == r, "range of address and mask");
  IP4Range t;
  t.assign(IP4Addr(a), m);
  EN(t == r, "range assigned address and mask");
  IP4Net k;
  EN(k.empty(), "default network is empty");
  k.assign(IP4Addr(a), m);
  EN(k == n && !(k != n), "assign");
  k = IP4Net{IP4Addr(p), m};
  EN((k == n) == in && (k != n) == !in, "networks are equal exactly when prefix and width agree");
  IPNet g{IPAddr(IP4Addr(a)), m};
  EN(g.is_ip4() && !g.is_ip6() && g.width() == w && g.mask() == m && !g.empty(), "generic network");
  EN(g.min() == IPAddr(n.min()) && g.max() == IPAddr(n.max()) && g.ip4() == n, "generic network ends");
  EN(g == n && n == g, "generic comparison");
  IPRange gr = g.as_range();
  EN(gr.is_ip4() && gr.ip4() == r, "generic network range");
  EN(std::get<0>(std::make_tuple(swoc::get<0>(n))) == n.min() && swoc::get<1>(n) == m, "structured binding parts");
  n.clear();
  EN(n.empty(), "clear");
  vf_cover("end");
}
VC(vc_ip6_net) {
  u128 a = vf_u128("a"), p = vf_u128("p");
  unsigned w = vf_range("w", 0, 128);
  IPMask m{IPMask::raw_type(w)};
  IP6Net n{mk6(a), m};
  EN(!n.empty(), "not empty");
  EN(val6(n.min()) == (a & m6(w)) && val6(n.max()) == (a | ~m6(w)), "network ends");
  EN(n.mask() == m, "mask");
  bool in = (p & m6(w)) == (a & m6(w));
  IP6Range r = n.as_range();
  EN(r.min() == n.min() && r.max() == n.max() && r.contains(mk6(p)) == in, "network contains exactly the addresses with its prefix");
  IP6Range t;
  t.assign(mk6(a), m);
  EN(t == r, "range assigned address and mask");
  IP6Net k;
  EN(k.empty(), "default network is empty");
  k.assign(mk6(a), m);
  EN(k == n && !(k != n), "assign");
  k = IP6Net{mk6(p), m};
  EN((k == n) == in && (k != n) == !in, "networks are equal exactly when prefix and width agree");
  IPNet g{IPAddr(mk6(a)), m};
  EN(g.is_ip6() && !g.is_ip4() && g.width() == w && g.mask() == m && !g.empty(), "generic network");
  EN(g.min() == IPAddr(n.min()) && g.max() == IPAddr(n.max()) && g.ip6() == n, "generic network ends");
  EN(g == n && n == g, "generic comparison");
  IPRange gr = g.as_range();
  EN(gr.is_ip6() && gr.ip6() == r, "generic network range");
  n.clear();
  EN(n.empty(), "clear");
  vf_cover("end");
}
// generic ranges: membership is by family and by value
VC(vc_range_contains4) {
  uint32_t a = vf_u32("a"), b = vf_u32("b"), p = vf_u32("p");
  u128 q = vf_u128("q");
  IPRange r{IP4Addr(a), IP4Addr(b)};
  bool in = a <= p && p <= b;
  EN(r.is_ip4() && !r.is_ip6() && r.empty() == (a > b) && r.min() == IPAddr(IP4Addr(a)) && r.max() == IPAddr(IP4Addr(b)), "IPv4 range");
  EN(r.contains(IP4Addr(p)) == in && r.contains(IPAddr(IP4Addr(p))) == in, "IPv4 membership");
  EN(!r.contains(mk6(q)) && !r.contains(IPAddr(mk6(q))) && !r.contains(IPAddr()), "no address of the other family");
  IP4Range r4 = r.ip4();
  IPRangeView v;
  EN(!v.valid() && v.empty(), "empty view");
  v.assign(r4);
  EN(v.valid() && v.is_ip4() && v.min() == r.min() && v.max() == r.max() && v == r && v.empty() == r.empty(), "view");
  EN(v.contains(IP4Addr(p)) == in && v.contains(IPAddr(IP4Addr(p))) == in && !v.contains(mk6(q)) && !v.contains(IPAddr(mk6(q))), "view membership");
  EN(IPRange(v) == r && IPRange(IPAddr(IP4Addr(a)), IPAddr(IP4Addr(b))) == r && IPRange(IP4Addr(p)).ip4() == IP4Range(IP4Addr(p), IP4Addr(p)), "construction");
  EN(!(IPRange(IPAddr(IP4Addr(a)), IPAddr(mk6(q))).is_ip4()) && !(IPRange(IPAddr(IP4Addr(a)), IPAddr(mk6(q))).is_ip6()), "mixed ends make no range");
  r.clear();
  EN(r.empty() && !r.is_ip4() && !r.contains(IPAddr(IP4Addr(p))), "clear");
  vf_cover("end");
}
VC(vc_range_contains6) {
  u128 a = vf_u128("a"), b = vf_u128("b"), p = vf_u128("p");
  uint32_t q = vf_u32("q");
  IPRange r{mk6(a), mk6(b)};
  bool in = a <= p && p <= b;
  EN(r.is_ip6() && !r.is_ip4() && r.empty() == (a > b) && r.min() == IPAddr(mk6(a)) && r.max() == IPAddr(mk6(b)), "IPv6 range");
  EN(r.contains(mk6(p)) == in, "IPv6 membership");
  EN(r.contains(IPAddr(mk6(p))) == in, "IPv6 membership of a generic address");
  EN(!r.contains(IP4Addr(q)) && !r.contains(IPAddr(IP4Addr(q))) && !r.contains(IPAddr()), "no address of the other family");
  IP6Range r6 = r.ip6();
  IPRangeView v;
  v.assign(r6);
  EN(v.valid() && v.is_ip6() && v.min() == r.min() && v.max() == r.max() && v == r && v.empty() == r.empty(), "view");
  EN(v.contains(mk6(p)) == in && v.contains(IPAddr(mk6(p))) == in && !v.contains(IP4Addr(q)) && !v.contains(IPAddr(IP4Addr(q))), "view membership");
  EN(IPRange(v) == r && IPRange(IPAddr(mk6(a)), IPAddr(mk6(b))) == r && IPRange(mk6(p)).ip6() == IP6Range(mk6(p), mk6(p)), "construction");
  vf_cover("end");
}
// networks of either family: equality is that of family, address and width
VC(vc_generic_net) {
  uint32_t a = vf_u32("a"), b = vf_u32("b");
  u128 c = vf_u128("c");
  unsigned w = vf_range("w", 0, 32), x = vf_range("x", 0, 32), y = vf_range("y", 0, 128);
  IPMask mw{IPMask::raw_type(w)}, mx{IPMask::raw_type(x)}, my{IPMask::raw_type(y)};
  IPNet n{IPAddr(IP4Addr(a)), mw}, m{IPAddr(IP4Addr(b)), mx}, g{IPAddr(mk6(c)), my};
  bool same = vf_and(w == x, (a & m4(w)) == (b & m4(x)));
  EN((n == m) == same && (n != m) == !same, "IPv4 networks are equal exactly when prefix and width agree");
  EN(!(n == g) && n != g && !(g == n) && g == g && !(g != g), "networks of different families differ");
  EN(n.family() == AF_INET && g.family() == AF_INET6 && IPNet().family() == AF_UNSPEC && IPNet().empty(), "family");
  EN(!(n == IP6Net(mk6(c), my)) && !(g == IP4Net(IP4Addr(a), mw)) && !(IP6Net(mk6(c), my) == n) && !(IP4Net(IP4Addr(a), mw) == g), "typed networks of the other family differ");
  IPNet k = g;
  k.assign(IPAddr(IP4Addr(b)), mx);
  EN(k == m && k.width() == x && k.is_ip4() && k.ip4() == IP4Net(IP4Addr(b), mx), "assign of the other family");
  k.assign(IPAddr(mk6(c)), my);
  EN(k == g && k.ip6() == IP6Net(mk6(c), my) && k.as_range() == IPRange(mk6(c & m6(y)), mk6(c | ~m6(y))), "assign back");
  k.clear();
  EN(k.empty(), "clear");
  vf_cover("end");
}
VC(vc_generic_net6) {
  u128 a = vf_u128("a"), b = vf_u128("b");
  unsigned w = vf_range("w", 0, 128), x = vf_range("x", 0, 128);
  IPNet n{IPAddr(mk6(a)), IPMask{IPMask::raw_type(w)}}, m{IPAddr(mk6(b)), IPMask{IPMask::raw_type(x)}};
  bool same = vf_and(w == x, (a & m6(w)) == (b & m6(x)));
  EN((n == m) == same && (n != m) == !same, "IPv6 networks are equal exactly when prefix and width agree");
  vf_cover("end");
}
// equality of ranges and views is that of family and ends
VC(vc_range_equal) {
  uint32_t a = vf_u32("a"), b = vf_u32("b"), c = vf_u32("c"), d = vf_u32("d");
  u128 e = vf_u128("e"), f = vf_u128("f"), g = vf_u128("g"), h = vf_u128("h");
  IPRange p{IP4Addr(a), IP4Addr(b)}, q{IP4Addr(c), IP4Addr(d)}, s{mk6(e), mk6(f)}, t{mk6(g), mk6(h)}, nil;
  bool same4 = vf_and(a == c, b == d), same6 = vf_and(e == g, f == h);
  EN((p == q) == same4 && (p != q) == !same4 && (s == t) == same6 && (s != t) == !same6, "equal exactly when both ends agree");
  EN(p != s && s != p && p != nil && nil != s && nil == IPRange() && !(p == s), "ranges of different families differ");
  EN(p.is(AF_INET) && !p.is(AF_INET6) && s.is(AF_INET6) && !s.is(AF_INET) && nil.is(AF_UNSPEC) && p.family() == AF_INET, "family");
  IP4Range p4 = p.ip4(), q4 = q.ip4();
  IP6Range s6 = s.ip6(), t6 = t.ip6();
  IPRangeView vp, vq, vs, vt, vn;
  vp.assign(p4), vq.assign(q4), vs.assign(s6), vt.assign(t6);
  EN((vp == vq) == same4 && (vp != vq) == !same4 && (vs == vt) == same6 && (vs != vt) == !same6 && vp == vp && !(vs != vs), "views are equal exactly when the ranges are");
  EN(vp != vs && vs != vp && vp != vn && vn != vs && vn == IPRangeView(), "views of different families differ");
  EN((vp == q) == same4 && (vs == t) == same6 && !(vp == s) && !(vs == p) && vn == nil && !(vn == p), "view and range");
  EN(vp.is(AF_INET) && !vp.is(AF_INET6) && vs.is(AF_INET6) && !vs.is(AF_INET) && !vn.is(AF_INET), "family of a view");
  EN(vp.ip4() == p4 && vs.ip6() == s6 && vs.min() == IPAddr(mk6(e)) && vs.max() == IPAddr(mk6(f)) && !vn.min().is_valid() && !vn.max().is_valid(), "viewed range");
  IPRange k = s;
  k = vp;
  EN(k == p && k.is_ip4(), "assign a view of the other family");
  k = vs;
  EN(k == s && k.is_ip6(), "assign a view");
  k = vn;
  EN(k == nil && k.empty() && !k.is_ip6(), "assign an empty view");
  vs.assign(p4);
  EN(vs == vp && vs.is_ip4(), "view of the other family");
  vs.clear();
  EN(!vs.valid() && vs.empty() && vs == nil, "clear");
  vf_cover("end");
}
VC(vn_mask_wrong) {
  unsigned w = vf_range("w", 0, 32);
  EN(IPMask{IPMask::raw_type(w)}.as_ip4().host_order() == ~0u << (31 & (32 - w)), "mask of width 0 is full");
}
