// C03: decomposition of a range into networks.
// Induction on the size of the range: the first network of any range is the largest aligned block that
// fits at its start (vc_*_first), and one step leaves exactly the enumeration of the rest of the range
// (vc_*_step: the stepped source is in the state of a source made from the remaining range).
// vf-src: swoc_ip TextView
// vf-opt vc_ip4_step: split=4 cost=3
// vf-opt vc_ip4_postinc: cost=4
// vf-opt vc_generic6: cost=10
// vf-opt vc_ip6_network_mask: cost=8
// vf-opt vc_ip6_first: split=2 cost=4
// vf-opt vc_ip6_step: split=12 tsplit=24 cost=9 ttimeout=700
#include "ip_spec.h"
using namespace swoc;
static uint64_t size4(unsigned w) { return uint64_t(1) << (32 - w); }
// the block of width w at a lies inside [a, b] and is aligned
static bool fits4(uint32_t a, uint32_t b, unsigned w) { return vf_and((a & (size4(w) - 1)) == 0, uint64_t(a) + size4(w) - 1 <= b); }
static u128 host6(unsigned w) { return w == 0 ? ~u128(0) : (u128(1) << (128 - w)) - 1; }
static bool fits6(u128 a, u128 b, unsigned w) { return vf_and((a & host6(w)) == 0, (a | host6(w)) <= b); }

template <typename S> static auto same_state(S const &x, S const &y, int) -> decltype(x._mask == y._mask && x._range == y._range) { return x._mask == y._mask && x._range == y._range; }
template <typename S> static bool same_state(S const &, S const &, long) { return true; }

static void check_net4(IP4Range::NetSource &s, uint32_t a, uint32_t b) {
  unsigned w = s.mask().width();
  EN(!s.empty(), "not at the end");
  EN(w <= 32, "mask width in range");
  EN(s.addr().host_order() == a, "network starts at the start of the range");
  EN(fits4(a, b, w), "network is aligned and inside the range");
  EN(w == 0 || !fits4(a, b, w - 1), "network is the largest that fits");
  IP4Net n = *s;
  EN(n.min().host_order() == a && n.max().host_order() == uint32_t(a + (size4(w) - 1)) && n.mask() == s.mask(), "network value");
}
VC(vc_ip4_first) {
  uint32_t a = vf_u32("a"), b = vf_u32("b");
  IP4Range r{IP4Addr(a), IP4Addr(b)};
  auto s = r.networks();
  EN(s.empty() == (a > b), "empty exactly for the empty range");
  EN((s == s.end()) == (a > b) && (s != s.end()) == (a <= b), "end test");
  EN(s.begin() == s, "begin");
  if (a <= b) { check_net4(s, a, b); vf_cover("some"); }
}
VC(vc_ip4_step) {
  uint32_t a = vf_u32("a"), b = vf_u32("b");
  VF_REQUIRES(a <= b);
  IP4Range r{IP4Addr(a), IP4Addr(b)};
  auto s = r.networks();
  VF_REQUIRES(s.mask().width() % 4 == vf_part(4));
  uint32_t last = (*s).max().host_order();
  auto &t = ++s;
  EN(&t == &s, "increment returns itself");
  if (last == b) {
    EN(s.empty() && s == s.end(), "enumeration ends after the last address");
    vf_cover("last");
  } else {
    IP4Range rest{IP4Addr(last + 1), IP4Addr(b)};
    check_net4(s, last + 1, b);
    IP4Range::NetSource z{rest};
    EN(s == z && !(s != z) && same_state(s, z, 0), "the rest of the enumeration is that of the rest of the range");
    vf_cover("more");
  }
}
VC(vc_ip4_postinc) {
  uint32_t a = vf_u32("a"), b = vf_u32("b");
  VF_REQUIRES(a <= b);
  IP4Range r{IP4Addr(a), IP4Addr(b)};
  auto s = r.networks(), u = s;
  auto o = s++;
  EN(o == u, "post increment returns the old position");
  ++u;
  EN(s == u, "post increment advances");
  vf_cover("end");
}
static bool isnet4(uint32_t a, uint32_t b) { uint64_t n = uint64_t(b) - a; return vf_and((n & (n + 1)) == 0, (a & n) == 0); }
VC(vc_ip4_network_mask) {
  uint32_t a = vf_u32("a"), b = vf_u32("b");
  IP4Range r{IP4Addr(a), IP4Addr(b)};
  IPMask m = r.network_mask();
  if (a > b) EN(!m.is_valid(), "no mask for an empty range");
  else {
    EN(m.is_valid() == isnet4(a, b), "a mask exactly when the range is one network");
    if (m.is_valid()) { EN(IP4Net(IP4Addr(a), m).as_range() == r, "the network is the range"); vf_cover("net"); }
  }
  EN(IPRange(r).network_mask() == m, "generic range");
}
static void check_net6(IP6Range::NetSource &s, u128 a, u128 b) {
  unsigned w = s.mask().width();
  EN(!s.empty(), "not at the end");
  EN(w <= 128, "mask width in range");
  EN(val6(s.addr()) == a, "network starts at the start of the range");
  EN(fits6(a, b, w), "network is aligned and inside the range");
  EN(w == 0 || !fits6(a, b, w - 1), "network is the largest that fits");
  IP6Net n = *s;
  EN(val6(n.min()) == a && val6(n.max()) == (a | host6(w)) && n.mask() == s.mask(), "network value");
}
VC(vc_ip6_first) {
  u128 a = vf_u128("a"), b = vf_u128("b");
  VF_REQUIRES((a & 1) == vf_part(2));
  IP6Range r{mk6(a), mk6(b)};
  auto s = r.networks();
  EN(s.empty() == (a > b), "empty exactly for the empty range");
  EN((s == s.end()) == (a > b), "end test");
  if (a <= b) { check_net6(s, a, b); vf_cover("some"); }
}
VC(vc_ip6_step) {
  u128 a = vf_u128("a"), b = vf_u128("b");
  VF_REQUIRES(a <= b);
  IP6Range r{mk6(a), mk6(b)};
  auto s = r.networks();
  unsigned w1 = s.mask().width();
#ifdef VF_THOROUGH
  VF_REQUIRES(w1 % 24 == vf_part(24));
#else
  static const unsigned W[12] = {0, 1, 31, 63, 64, 65, 66, 96, 111, 120, 127, 128};
  vf_bounded("first network of one of 12 widths (every width in the thorough tier)");
  VF_REQUIRES(w1 == W[vf_part(12)]);
#endif
  u128 last = val6((*s).max());
  ++s;
  if (last == b) {
    EN(s.empty() && s == s.end(), "enumeration ends after the last address");
    vf_cover("last");
  } else {
    check_net6(s, last + 1, b);
    EN(val6((*s).max()) <= b, "inside the range");
    vf_cover("more");
  }
}
VC(vc_ip6_network_mask) {
  u128 a = vf_u128("a"), b = vf_u128("b");
  IP6Range r{mk6(a), mk6(b)};
  IPMask m = r.network_mask();
  if (a > b) EN(!m.is_valid(), "no mask for an empty range");
  else {
    u128 n = b - a;
    EN(m.is_valid() == vf_and((n & (n + 1)) == 0, (a & n) == 0), "a mask exactly when the range is one network");
    if (m.is_valid()) { EN(IP6Net(mk6(a), m).as_range() == r, "the network is the range"); vf_cover("net"); }
  }
}
// the family neutral source forwards to the right family
VC(vc_generic4) {
  uint32_t a = vf_u32("a"), b = vf_u32("b");
  VF_REQUIRES(a <= b);
  IP4Range r{IP4Addr(a), IP4Addr(b)};
  auto s = r.networks();
  IPRange gr{r};
  IPRangeView v;
  v.assign(r);
  auto g = gr.networks(), h = v.networks();
  EN(g != g.end() && g == h, "not at the end");
  EN(g.addr() == IPAddr(s.addr()) && g.mask() == s.mask() && (*g).ip4() == *s && (*g).is_ip4(), "same network");
  ++s;
  ++g;
  EN((g == g.end()) == s.empty(), "same end");
  if (!s.empty()) { EN(g.addr() == IPAddr(s.addr()) && g.mask() == s.mask(), "same next network"); vf_cover("more"); }
}
VC(vc_generic6) {
  u128 a = vf_u128("a"), b = vf_u128("b");
  VF_REQUIRES(a <= b && (a & 0xff) == 0xfe);
  IP6Range r{mk6(a), mk6(b)};
  auto s = r.networks();
  IPRange gr{r};
  IPRangeView v;
  v.assign(r);
  auto g = gr.networks(), h = v.networks();
  EN(g != g.end() && g == h, "not at the end");
  EN(g.addr() == IPAddr(s.addr()) && g.mask() == s.mask() && (*g).ip6() == *s && (*g).is_ip6(), "same network");
  ++s;
  ++g;
  EN((g == g.end()) == s.empty(), "same end");
  if (!s.empty()) { EN(g.addr() == IPAddr(s.addr()) && g.mask() == s.mask(), "same next network"); vf_cover("more"); }
  auto e = IPRange().networks();
  EN(e == e.end(), "no networks in no range");
}
VC(vn_ip4_halves) {
  uint32_t a = vf_u32("a"), b = vf_u32("b");
  VF_REQUIRES(a <= b);
  IP4Range r{IP4Addr(a), IP4Addr(b)};
  auto s = r.networks();
  ++s;
  EN(s.empty(), "every range is one network");
}
