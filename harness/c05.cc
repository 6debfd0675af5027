// C05: range, network and mask text.
// vf-src: swoc_ip TextView string_view_util bw_ip_format bw_format MemArena
// vf-opt vc_bytes: split=5
// vf-opt vc_range4: split=6
// vf-opt vc_range6: split=5
// vf-opt vc_net4: split=5
// vf-opt vc_net6: split=4
// vf-opt vc_widths: split=4
// vf-opt vc_mask_addr: split=4
#include "ip_text.h"
#include "swoc/bwf_ip.h"
static R width(char const *p, size_t n, unsigned max) { u128 v; bool ok = n && cnumber(p, n, v) && v <= max; return {ok, ok ? v : 0}; }
struct Rng { bool ok; u128 lo, hi; };
static u128 ones(unsigned w, unsigned of) { return w == 0 ? 0 : (~u128(0) << (128 - w)) >> (128 - of); } // mask of w bits of "of"
template <unsigned W> static R one(char const *p, size_t n) { return W == 32 ? ip4(p, n) : ip6(p, n); }
template <unsigned W> static u128 all() { return W == 32 ? u128(0xffffffffu) : ~u128(0); }
template <unsigned W> static Rng range(char const *p, size_t n) {
  size_t i = 0;
  while (i < n && p[i] != '/' && p[i] != '-') ++i;
  R a = one<W>(p, i);
  if (!a.ok) return {false};
  if (i == n) return {true, a.v, a.v};
  if (p[i] == '-') {
    R b = one<W>(p + i + 1, n - i - 1);
    return {b.ok, a.v, b.v};
  }
  R w = width(p + i + 1, n - i - 1, W);
  u128 m = w.ok ? ones(w.v, W) : 0;
  return {w.ok, a.v & m, a.v | (all<W>() ^ m)};
}
template <unsigned W> static Rng net(char const *p, size_t n, unsigned &wd) {
  size_t i = n;
  while (i && p[i - 1] != '/') --i;
  if (i == 0 || i == n) return {false};
  R a = one<W>(p, i - 1), w = width(p + i, n - i, W), m = one<W>(p + i, n - i);
  if (!a.ok) return {false};
  bool ok = w.ok;
  wd = w.v;
  if (!ok && m.ok) for (unsigned k = 0; k <= W; ++k) if (ones(k, W) == m.v) wd = k, ok = true;
  u128 k = ok ? ones(wd, W) : 0;
  return {ok, a.v & k, a.v | (all<W>() ^ k)};
}
static u128 val(IP4Addr const &a) { return a.host_order(); }
static u128 val(IP6Addr const &a) { return val6(a); }
static bool same(IPAddr const &a, Rng const &r, u128 v, bool four) { return four ? a.is_ip4() && val(a.ip4()) == v : a.is_ip6() && val(a.ip6()) == v; }
template <unsigned W, typename RANGE> static void crange(T const &t) {
  Rng r = range<W>(t.p, t.n);
  RANGE x(std::string_view("1.2.3.4-5.6.7.8"));
  if (W == 128) x.load("1::-2::");
  EN(x.load(t.v()) == r.ok, "text is accepted if and only if it is one of the documented forms");
  if (r.ok) { EN(val(x.min()) == r.lo && val(x.max()) == r.hi, "the ends of the range are as denoted"); vf_cover("valid"); }
  else EN(x.empty(), "empty if the text is not valid");
  EN(RANGE(t.v()) == x, "construction from text");
}
static void cgeneric(T const &t) {
  bool colon = false;
  for (size_t i = 0; i < t.n; ++i) if (t.p[i] == ':') colon = true;
  Rng r = colon ? range<128>(t.p, t.n) : range<32>(t.p, t.n);
  IPRange x("1.2.3.4-5.6.7.8");
  EN(x.load(t.v()) == r.ok, "text is accepted as a range if and only if it is valid in its family");
  if (r.ok) { EN(same(x.min(), r, r.lo, !colon) && same(x.max(), r, r.hi, !colon), "ends of the generic range"); }
  else { EN(x.empty() && !x.is_ip4() && !x.is_ip6(), "invalid if the text is not"); }
  EN(IPRange(t.v()) == x, "construction from text");
}
template <unsigned W, typename NET> static void cnet(T const &t) {
  unsigned w = 0;
  Rng r = net<W>(t.p, t.n, w);
  NET x(TextView(std::string_view(W == 32 ? "1.2.3.4/24" : "1::/24")));
  EN(x.load(t.v()) == r.ok, "text is accepted as a network if and only if it is an address and a mask");
  EN(x.empty() == !r.ok, "invalid if the text is not");
  if (r.ok) { EN(x.mask().width() == w && val(x.min()) == r.lo && val(x.max()) == r.hi, "the network is the one denoted"); vf_cover("net"); }
  NET c(t.v());
  EN(c.empty() == !r.ok && (!r.ok || c == x), "construction from text");
}
static void cgnet(T const &t) {
  unsigned w = 0;
  Rng r = net<128>(t.p, t.n, w);
  bool four = false;
  if (!r.ok) r = net<32>(t.p, t.n, w), four = true;
  IPNet x(TextView(std::string_view("1::/24")));
  EN(x.load(t.v()) == r.ok && x.empty() == !r.ok, "text is accepted as a network if and only if it is one of either family");
  if (r.ok) EN(x.mask().width() == w && same(x.min(), r, r.lo, four) && same(x.max(), r, r.hi, four), "the generic network is the one denoted");
}
static void cmask(T const &t) {
  R r = width(t.p, t.n, 128);
  IPMask m(7);
  EN(m.load(t.v()) == r.ok, "text is a mask if and only if it is a number up to the address width");
  EN(m.is_valid() == r.ok && (!r.ok || m.width() == r.v), "the mask has that width, or is invalid");
}
VC(vc_bytes) {
  vf_bounded("texts of up to 3 arbitrary bytes (thorough 4)");
  unsigned p = vf_part(5);
  T t = text(vf_pick("n", 0, VF_N(3, 4)));
  switch (p) {
  case 0: cmask(t); cgeneric(t); break;
  case 1: crange<32, IP4Range>(t); break;
  case 2: crange<128, IP6Range>(t); break;
  case 3: cnet<32, IP4Net>(t); cgnet(t); break;
  default: cnet<128, IP6Net>(t); break;
  }
}
VC(vc_range4) {
  vf_bounded("ranges with one part replaced by up to 3 (thorough 4) arbitrary bytes");
  static char const *const PRE[] = {"10.9.8.7/", "10.9.8.7-10.9.8.", "10.9.8.7", "", "10.9.8.7", "10.9.8.7/2"}, *const POST[] = {"", "", "24", "-10.9.8.9", "10.9.8.9", ""};
  unsigned w = vf_part(6);
  T t = hole(PRE[w], vf_pick("n", 0, VF_N(3, 4)), POST[w]);
  crange<32, IP4Range>(t);
  cgeneric(t);
}
VC(vc_range6) {
  vf_bounded("ranges with one part replaced by up to 3 arbitrary bytes");
  static char const *const PRE[] = {"fe80::7/", "fe80::7-fe80::", "fe80::7", "fe80::", "fe80::7/1"}, *const POST[] = {"", "", "24", "-ff::", "5"};
  unsigned w = vf_part(5);
  T t = hole(PRE[w], vf_pick("n", 0, VF_N(2, 3)), POST[w]);
  crange<128, IP6Range>(t);
  cgeneric(t);
}
VC(vc_net4) {
  vf_bounded("networks with one part replaced by up to 3 arbitrary bytes");
  static char const *const PRE[] = {"10.9.8.7/", "10.9.8.7", "10.9.8.7/255.255.2", "10.9.8.7/3", "10.9.8."}, *const POST[] = {"", "24", ".0", "", "/255.192.0.0"};
  unsigned w = vf_part(5);
  T t = hole(PRE[w], vf_pick("n", 0, 3), POST[w]);
  cnet<32, IP4Net>(t);
  cgnet(t);
}
VC(vc_net6) {
  vf_bounded("networks with one part replaced by up to 3 arbitrary bytes");
  static char const *const PRE[] = {"fe80::7/", "fe80::7", "fe80::7/ffff:f", "fe80::7/1"}, *const POST[] = {"", "24", "::", ""};
  unsigned w = vf_part(4);
  T t = hole(PRE[w], vf_pick("n", 0, VF_N(2, 3)), POST[w]);
  cnet<128, IP6Net>(t);
  cgnet(t);
}
static size_t dec(char *p, unsigned v) { size_t n = 0; if (v >= 100) p[n++] = '0' + v / 100; if (v >= 10) p[n++] = '0' + v / 10 % 10; p[n++] = '0' + v % 10; return n; }
VC(vc_widths) { // every width
  static unsigned const EXTRA[] = {511, 256, 288, 384, 255, 254};
  unsigned part = vf_part(4), i = vf_pick("width", 0, 35), w = part * 36 + i;
  if (w >= 138) w = EXTRA[w - 138];
  bool six = vf_pick("six", 0, 1);
  char b[32]; size_t n = 0;
  for (char const *q = six ? "fedc:ba98:7654:3210::/" : "203.114.155.77/"; *q; ++q) b[n++] = *q;
  size_t k = n;
  n += dec(b + n, w);
  T t = text(n);
  for (size_t j = 0; j < n; ++j) t.p[j] = b[j];
  if (six) { crange<128, IP6Range>(t); cnet<128, IP6Net>(t); }
  else { crange<32, IP4Range>(t); cnet<32, IP4Net>(t); }
  cgeneric(t); cgnet(t);
  cmask(T{t.p + k, n - k});
}
VC(vc_huge) {
  static char const *const P[] = {"18446744073709551616", "4294967296", "0x100", "256", "129", "-1", "+1", " 24", "24 ", "2 4", "", "24/", "1.0"};
  unsigned i = vf_pick("which", 0, 12);
  cmask(hole(P[i], 0, ""));
  T t = hole("10.0.0.0/", 0, P[i]);
  crange<32, IP4Range>(t); cnet<32, IP4Net>(t); cgeneric(t); cgnet(t);
  T u = hole("10::/", 0, P[i]);
  crange<128, IP6Range>(u); cnet<128, IP6Net>(u); cgeneric(u); cgnet(u);
}
VC(vc_mask_addr) { // every mask of the family as an address, and with one bit flipped
  unsigned part = vf_part(4), i = vf_pick("width", 0, 40), w = part * 41 + i;
  VF_REQUIRES(w <= 32 + 129);
  bool six = w > 32;
  if (six) w -= 33;
  unsigned W = six ? 128 : 32, flip = vf_pick("flip", 0, 5);
  static unsigned const F[] = {0, 0, 1, 9, 31, 30};
  u128 m = ones(w, W);
  if (flip) m ^= u128(1) << (flip == 5 ? W - 2 : F[flip]);
  char b[80]; size_t n = 0;
  for (char const *q = six ? "fe80:1::/" : "10.9.8.7/"; *q; ++q) b[n++] = *q;
  if (six) for (int k = 7; k >= 0; --k) { for (int h = 3; h >= 0; --h) b[n++] = "0123456789abcdef"[unsigned(m >> (16 * k + 4 * h)) & 15]; if (k) b[n++] = ':'; }
  else for (int k = 3; k >= 0; --k) { n += dec(b + n, unsigned(m >> (8 * k)) & 255); if (k) b[n++] = '.'; }
  T t = text(n);
  for (size_t j = 0; j < n; ++j) t.p[j] = b[j];
  if (six) cnet<128, IP6Net>(t); else cnet<32, IP4Net>(t);
  cgnet(t);
}
VC(vc_forms) {
  static char const *const P[] = {"", "-", "/", "1.2.3.4-", "-1.2.3.4", "1.2.3.4/", "/24", "1.2.3.4-1.2.3.5-1.2.3.6", "1.2.3.4-1.2.3.5/24", "1.2.3.4/24-1.2.3.5", "1.2.3.4/24/24", "1.2.3.4-1::", "1::-1.2.3.4",
    "1::-2::-3::", "1::/", "1::-", "-1::", "1::/24/24", "1.2.3.4 - 1.2.3.5", " 1.2.3.4/8", "1.2.3.4 /8", "1.2.3.4/ 8", "1::5-1::2", "1.2.3.9-1.2.3.4", "0/0", "::/0", "0-255.255.255.255", "::-ffff::", "[1::]-[2::]", "[1::]/9", "1.2.3.4/255.255.0.0", "1.2.3.4/ffff::", "1::/255.255.0.0", "1::/ffff::", "1.2.3.4/0x18", "1.2.3.4/010"};
  unsigned i = vf_pick("which", 0, sizeof(P) / sizeof(*P) - 1);
  T t = hole(P[i], 0, "");
  crange<32, IP4Range>(t); crange<128, IP6Range>(t); cgeneric(t); cnet<32, IP4Net>(t); cnet<128, IP6Net>(t); cgnet(t);
}
VC(vc_wide_mask) { // a mask that is not a mask of the family
  unsigned w = vf_range("w", 0, 255);
  u128 a = vf_u128("a");
  IP6Range r(mk6(1), mk6(2));
  r.assign(mk6(a), IPMask(IPMask::raw_type(w)));
  u128 m = w >= 128 ? ~u128(0) : w == 0 ? 0 : ~u128(0) << (128 - w);
  EN(val6(r.min()) == (a & m) && val6(r.max()) == (a | ~m), "wider masks are the full mask");
  uint32_t b = vf_u32("b");
  IP4Range q(IP4Addr(1), IP4Addr(2));
  q.assign(IP4Addr(b), IPMask(IPMask::raw_type(w)));
  uint32_t k = w >= 32 ? ~0u : w == 0 ? 0 : ~0u << (32 - w);
  EN(q.min().host_order() == (b & k) && q.max().host_order() == (b | ~k), "wider masks are the full mask");
}
// formatting then parsing
template <typename X> static void trip(X const &x) {
  char b[96];
  for (int c = 0; c < 2; ++c) {
    FixedBufferWriter w(b, sizeof b);
    bwf::Spec s;
    if (c) s._ext = "c";
    bwformat(w, s, x);
    X y;
    EN(!w.error() && y.load(w.view()) && y == x, "the text of a range is read as the same range");
  }
}
VC(vc_trip) {
  vf_bounded("the listed ends of ranges and all network widths");
  static uint32_t const A[] = {0, 1, 127, 128, 0x0a010000, 0x0a01007f, 0x0a010080, 0xfffffffe, 0xffffffff};
  static char const *const S[] = {"::", "::1", "1:2:3:4:5:6:7:8", "1::", "fe80::", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff"};
  unsigned f = vf_pick("family", 0, 1);
  if (f == 0) {
    unsigned i = vf_pick("a", 0, 8), j = vf_pick("b", 0, 8);
    VF_REQUIRES(A[i] <= A[j]);
    IP4Range r{IP4Addr(A[i]), IP4Addr(A[j])};
    trip(r); trip(IPRange(r));
  } else {
    unsigned i = vf_pick("a", 0, 5), j = vf_pick("b", 0, 5);
    IP6Range r{IP6Addr(S[i]), IP6Addr(S[j])};
    VF_REQUIRES(!r.empty());
    trip(r); trip(IPRange(r));
  }
}
VC(vc_trip_net) {
  unsigned w = vf_pick("w", 0, 128);
  IP6Net n(IP6Addr("fedc:ba98:7654:3210:fedc:ba98:7654:3210"), IPMask(w));
  trip(n.as_range());
  char b[64];
  { FixedBufferWriter o(b, sizeof b); bwformat(o, bwf::Spec::DEFAULT, n); IP6Net k; EN(k.load(o.view()) && k == n, "the text of a network is read as the same network"); }
  { FixedBufferWriter o(b, sizeof b); bwformat(o, bwf::Spec::DEFAULT, IPNet(IPAddr(n.min()), n.mask())); IPNet k; EN(k.load(o.view()) && k == n, "also for the generic network"); }
  if (w <= 32) {
    IP4Net m(IP4Addr("203.114.155.77"), IPMask(w));
    trip(m.as_range());
    { FixedBufferWriter o(b, sizeof b); bwformat(o, bwf::Spec::DEFAULT, m); IP4Net k; EN(k.load(o.view()) && k == m, "the text of an IPv4 network"); }
    { FixedBufferWriter o(b, sizeof b); bwformat(o, bwf::Spec::DEFAULT, IPNet(IPAddr(m.min()), m.mask())); IPNet k; EN(k.load(o.view()) && k == m, "generic IPv4 network"); }
  }
}
