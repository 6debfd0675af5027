// C04: IP address text.
// vf-src: swoc_ip TextView string_view_util bw_ip_format bw_format MemArena
// vf-opt vc_ip4_bytes: split=6
// vf-opt vc_ip6_bytes: split=6
// vf-opt vc_addr_bytes: split=6
// vf-opt vc_ip4_element: split=6
// vf-opt vc_ip4_last: split=4
// vf-opt vc_ip6_element: split=5
// vf-opt vc_ip6_shapes: split=4
// vf-opt vc_ip6_trip: split=8
// vf-opt vc_ip4_format: split=3
// vf-opt vc_ip4_parse: split=3
// vf-opt vc_ip6_trip_one: split=8
#include "ostream_capture.h"
#include "ip_text.h"
#include "swoc/bwf_ip.h"
using namespace swoc;
static bool inner4(T const &t) { // bracketed IPv4 - not documented, no demand except to be safe.
  char const *p = t.p; size_t n = t.n;
  trim(p, n);
  return n && p[0] == '[';
}
static void check4(T const &t) {
  if (inner4(t)) { IP4Addr a; a.load(t.v()); return; }
  R r = ip4(t.p, t.n);
  IP4Addr a{in_addr_t(0xdeadbeef)};
  EN(a.load(t.v()) == r.ok, "text is accepted if and only if it is a well formed IPv4 address");
  EN(a.host_order() == (r.ok ? uint32_t(r.v) : 0), "the address is the one denoted, cleared if the text is not valid");
  if (r.ok) vf_cover("valid");
}
static void check6(T const &t) {
  R r = ip6(t.p, t.n);
  IP6Addr a = mk6(~u128(0) / 3);
  EN(a.load(t.v()) == r.ok, "text is accepted if and only if it is a well formed IPv6 address");
  EN(val6(a) == (r.ok ? r.v : 0), "the address is the one denoted, cleared if the text is not valid");
  if (r.ok) vf_cover("valid");
}
static void checka(T const &t) {
  int fam;
  R r = addr(t.p, t.n, fam);
  if (inner4(t) && fam != AF_INET6) { IPAddr a; a.load(t.v()); return; }
  IPAddr a{IP4Addr(0x01020304)};
  EN(a.load(t.v()) == r.ok && a.is_valid() == r.ok, "text is accepted if and only if it is a well formed address");
  EN(a.family() == fam, "the family is that of the text");
  if (fam == AF_INET) EN(a.ip4().host_order() == uint32_t(r.v), "the IPv4 address is the one denoted");
  if (fam == AF_INET6) EN(val6(a.ip6()) == r.v, "the IPv6 address is the one denoted");
  EN((IPAddr(t.v()) == a), "construction from text is the same");
}
static size_t bytes_n() { unsigned p = vf_part(6); return p < 2 ? VF_N(4, 5) : p - 2; }
static T bytes() { // all texts of 0..3 bytes, the longest one split by its first byte
  unsigned p = vf_part(6);
  T t = text(p < 4 ? p : VF_N(4, 5));
  if (p == 4) VF_REQUIRES(uint8_t(t.p[0]) < '1');
  if (p == 5) VF_REQUIRES(uint8_t(t.p[0]) >= '1');
  return t;
}
VC(vc_ip4_bytes) { vf_bounded("texts of up to 4 (thorough 5) arbitrary bytes"); check4(bytes()); }
VC(vc_ip6_bytes) { vf_bounded("texts of up to 4 (thorough 5) arbitrary bytes"); check6(bytes()); }
VC(vc_addr_bytes) { vf_bounded("texts of up to 4 (thorough 5) arbitrary bytes"); checka(bytes()); }
VC(vc_ip4_element) {
  vf_bounded("1.2.3.4 with one element, or its separators, replaced by up to 3 (thorough 4) arbitrary bytes");
  static char const *const PRE[] = {"", "7.", "7.250.", "7.250.0x1f.", "7", "007.2.3"}, *const POST[] = {".250.31.9", ".31.9", ".9", "", ".31.9", ""};
  unsigned w = vf_part(6);
  check4(hole(PRE[w], vf_pick("n", 0, VF_N(3, 4)), POST[w]));
}
VC(vc_ip4_last) { // the last element at the limit of the remaining bits
  vf_bounded("the last number with the digits of the limit but the last two arbitrary, in base 8, 10 and 16");
  static char const *const P[4][3] = {{"42949672", "0xffffff", "0377777777"}, {"9.167772", "9.0xffff", "9.0777777"}, {"9.8.655", "9.8.0xff", "9.8.01777"}, {"9.8.7.2", "9.8.7.0x", "9.8.7.03"}};
  unsigned w = vf_part(4), b = vf_pick("base", 0, 2);
  check4(hole(P[w][b], vf_pick("n", 0, 3), ""));
}
VC(vc_huge) {
  static char const *const P[] = {"18446744073709551616", "0x10000000000000001", "1.2.3.18446744073709551617", "18446744073709551617.2.3.4", "4294967296", "1.2.3.256", "256.2.3.4",
                                 "1.2.3.4.5", "1.2.3.4.", "1..3.4", ".1.2.3", "1.2.-3.4", "1.2.+3.4", "1.2. 3.4", "1 .2.3.4", "1.2.3.4/24", "1.2.3.4-5", "1.2.3.08", "", " ", "1.2.3.4]", "1:2:3:4:5:6:7:8"};
  unsigned i = vf_pick("which", 0, 21);
  T t = hole(P[i], 0, "");
  IP4Addr a{in_addr_t(7)};
  EN(!a.load(t.v()) && a.host_order() == 0, "not an IPv4 address");
}
VC(vc_ip6_element) {
  vf_bounded("an address with one part replaced by up to 3 (thorough 5) arbitrary bytes");
  static char const *const PRE[] = {"1:2:3:4:5:6:7:", "", "a:b", "::", "[fe80:"}, *const POST[] = {"", ":2:3:4:5:6:7:8", "c:d", ":f", ":9]"};
  unsigned w = vf_part(5);
  check6(hole(PRE[w], vf_pick("n", 0, VF_N(3, 5)), POST[w]));
}
VC(vc_ip6_quad) {
  vf_bounded("quads of 4 and 5 bytes, the first and last arbitrary");
  unsigned n = vf_pick("n", 4, 5);
  T t = hole("::a:", n, "");
  for (unsigned i = 1; i + 1 < n; ++i) t.p[4 + i] = 'B' + i;
  check6(t);
}
// every number of quads and every place of "::", with and without brackets
VC(vc_ip6_shapes) {
  vf_bounded("one digit quads");
  unsigned part = vf_part(4), n = vf_pick("quads", 0, 9), brk = vf_pick("bracket", 0, 2);
  int gap = int(vf_pick("gap", 0, 10)) - 1, gap2 = int(vf_pick("gap2", 0, 10)) - 1;
  VF_REQUIRES(gap <= int(n) && gap2 <= gap && (gap2 < 0 || gap2 < gap));
  VF_REQUIRES((unsigned)(n & 3) == part);
  char buf[64]; size_t k = 0;
  unsigned seed = 0;
  if (brk == 1) buf[k++] = '[';
  if (brk == 2) buf[k++] = ' ';
  for (unsigned i = 0; i <= n; ++i) {
    bool g = int(i) == gap || int(i) == gap2;
    if (g) { buf[k++] = ':'; buf[k++] = ':'; }
    else if (i && i < n) buf[k++] = ':';
    if (i < n) buf[k++] = "123456789abcdef"[seed++ % 15];
  }
  if (brk == 1) buf[k++] = ']';
  if (brk == 2) buf[k++] = '\t';
  T t = text(k);
  for (size_t i = 0; i < k; ++i) t.p[i] = buf[i];
  check6(t);
  checka(t);
}
VC(vc_family) { // texts over the separators and digits that decide the family
  vf_bounded("the listed texts with up to two arbitrary bytes");
  static char const *const PRE[] = {"", " 1", "12345", "1234", "[", "abcd", "12", "0x", "01"}, *const POST[] = {"1.2.3", ":3:4:5:6:7:8", ":6", ".2.3.4", "]", ":2::", ":3::5 ", ".2.3.4", ".2.3.4"};
  unsigned i = vf_pick("which", 0, 8);
  checka(hole(PRE[i], vf_pick("n", 0, 2), POST[i]));
}
VC(vc_accepts_both) { // what a family accepts the general address accepts, if it has the separator where addresses have it.
  static char const *const P[] = {"1.2.3.4", "255.255.255.255", "0.0.0.0", "::", "::1", "1::", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff", "[1:2:3:4:5:6:7:8]", "[::]", "[fe80::1]", "[abcd::1]", " abcd::1", "0x7f.0.0.1", "0177.1.2.3", " 0xfF.0xfF.0xfF.0xfF", "0x7f.1", "0177.3.7"};
  unsigned i = vf_pick("which", 0, 16);
  T t = hole(P[i], 0, "");
  IPAddr a;
  EN(a.load(t.v()), "accepted");
  EN(a.family() == (i < 3 || i > 11 ? AF_INET : AF_INET6), "family");
}
// formatting then parsing
template <size_t N> struct Out { char b[N]; FixedBufferWriter w{b, N}; };
static void trip6(u128 v, bool expand, bool upper = false) {
  Out<48> o;
  bwf::Spec s;
  if (expand) s._ext = "=";
  if (upper) s._type = 'X';
  IP6Addr a = mk6(v), b;
  bwformat(o.w, s, a);
  EN(!o.w.error() && o.w.size() <= 39, "at most 39 characters");
  if (expand) EN(o.w.size() == 39, "fully expanded");
  EN(b.load(o.w.view()), "the text is an address");
  EN(val6(b) == v, "the same address is read back");
  IPAddr g;
  EN(g.load(o.w.view()) && g.is_ip6() && val6(g.ip6()) == v, "also without stating the family");
}
// Round trip for every IPv4 address in two steps: the text is the decimal digits of the elements, and the address
// read from decimal digits is the one with elements of that value.
struct Dec { unsigned n; uint8_t d[3]; };
static size_t dotted(char *t, Dec const *e) {
  size_t n = 0;
  for (unsigned i = 0; i < 4; ++i) {
    for (unsigned k = 0; k < e[i].n; ++k) t[n++] = '0' + e[i].d[k];
    if (i < 3) t[n++] = '.';
  }
  return n;
}
template <typename X> static void stream_as(X const &x) {
  Out<100> o;
  bwformat(o.w, bwf::Spec::DEFAULT, x);
  std::ostream &os = the_stream();
  EN(&(os << x) == &os && !o.w.error() && streamed(o.b, o.w.size()), "the same text in a stream");
}
VC(vc_stream) { // put in a stream the text is that of the formatter, nothing is lost
  vf_bounded("texts from the shortest to the longest");
  static uint32_t const A4[] = {0, 0x01020304, 0x0a00ff64, ~0u};
  static uint64_t const A6[] = {0, 1, 0x20010db800000000ULL, 0x123456789abcdef0ULL, ~0ULL};
  unsigned what = vf_pick("what", 0, 7), k = vf_pick("address", 0, 4), same = vf_pick("halves", 0, 1);
  IP4Addr a{A4[k & 3]}, b{A4[same + 2]};
  IP6Addr c{A6[k], A6[same ? k : 4 - k]}, d{A6[4], A6[3 + same]};
  switch (what) {
  case 0: stream_as(a); break;
  case 1: stream_as(c); break;
  case 2: stream_as(IPAddr(a)); break;
  case 3: stream_as(IPAddr(c)); break;
  case 4: stream_as(IP4Range(a, b)); break;
  case 5: stream_as(IP6Range(c, d)); break;
  case 6: stream_as(IPRange(IP4Range(a, b))); break;
  default: stream_as(IPRange(IP6Range(c, d))); break;
  }
}
VC(vc_ip4_format) {
  unsigned first = vf_part(3);
  static unsigned const LO[] = {0, 10, 100}, HI[] = {9, 99, 255};
  Dec e[4];
  uint32_t v = 0;
  for (unsigned i = 0; i < 4; ++i) {
    unsigned c = i ? vf_pick("digits", 0, 2) : first;
    uint8_t x = vf_range("element", LO[c], HI[c]);
    v = v << 8 | x;
    e[i].n = c + 1;
    for (unsigned k = c + 1; k-- > 0; x /= 10) e[i].d[k] = x % 10;
  }
  Out<16> o;
  bwformat(o.w, bwf::Spec::DEFAULT, IP4Addr{v});
  char t[16]; size_t n = dotted(t, e);
  EN(!o.w.error() && o.w.size() == n, "length of the dotted decimal text");
  bool same = true;
  for (size_t i = 0; i < n; ++i) same = vf_and(same, o.b[i] == t[i]);
  EN(same, "dotted decimal text");
}
VC(vc_ip4_parse) {
  unsigned first = vf_part(3);
  Dec e[4];
  uint8_t x[4];
  for (unsigned i = 0; i < 4; ++i) {
    e[i].n = 1 + (i ? vf_pick("digits", 0, 2) : first);
    unsigned a = e[i].n == 3 ? vf_range("d", 1, 2) : 0, b = e[i].n == 1 ? 0 : vf_range("d", e[i].n == 2, 9), c = vf_range("d", 0, 9), w = a * 100 + b * 10 + c;
    VF_REQUIRES(w <= 255);
    x[i] = w;
    e[i].d[e[i].n - 1] = c;
    if (e[i].n > 1) e[i].d[e[i].n - 2] = b;
    if (e[i].n > 2) e[i].d[0] = a;
  }
  T t = text(e[0].n + e[1].n + e[2].n + e[3].n + 3);
  dotted(t.p, e);
  IP4Addr a;
  EN(a.load(t.v()), "dotted decimal text is an address");
  EN(a == IP4Addr(uint32_t(x[0]) << 24 | uint32_t(x[1]) << 16 | uint32_t(x[2]) << 8 | x[3]), "the address has these elements");
}
VC(vc_ip4_trip) { // both steps at once
  vf_bounded("one element arbitrary, the others each of six values");
  static uint8_t const Q[] = {0, 9, 10, 99, 100, 255};
  unsigned k = vf_pick("which", 0, 3), q = vf_pick("others", 0, 5), r = vf_pick("next", 0, 5);
  uint32_t v = Q[q] * 0x01010101u;
  v = (v & ~(0xffu << (8 * (k ^ 1)))) | uint32_t(Q[r]) << (8 * (k ^ 1));
  v = (v & ~(0xffu << (8 * k))) | uint32_t(vf_pick("element", 0, VF_N(12, 255)) * VF_N(21, 1)) << (8 * k);
  Out<16> o;
  IP4Addr a{v}, b;
  bwformat(o.w, bwf::Spec::DEFAULT, a);
  EN(b.load(o.w.view()) && b == a, "the same address is read back");
  IPAddr g;
  EN(g.load(o.w.view()) && g.is_ip4() && g.ip4() == a, "also without stating the family");
}
VC(vc_ip6_trip) { // every set of zero quads
  vf_bounded("quads that are zero or at least 1000 in base 16 (quick: six of them fixed)");
  unsigned z = vf_pick("zeros", 0, 31) * 8 + vf_part(8);
  u128 v = 0;
  for (int i = 7; i >= 0; --i) v = v << 16 | (z >> i & 1 ? 0 : i % 4 != 2 && VF_N(1, 0) ? 0x1234u * (i + 1) : vf_range("quad", 0x1000, 0xffff));
  trip6(v, false);
}
VC(vc_ip6_trip_one) { // one arbitrary quad at any place
  vf_bounded("one arbitrary quad, the others fixed");
  unsigned k = vf_part(8), f = vf_pick("others", 0, 2), x = vf_pick("expand", 0, 2);
  static unsigned const Q[] = {0, 7, 0xabcd};
  u128 v = 0;
  uint16_t q = vf_u16("quad");
  for (unsigned i = 0; i < 8; ++i) v = v << 16 | (i == k ? q : f == 2 && (i & 1) ? 0 : Q[f]);
  trip6(v, x & 1, x == 2);
}
VC(vc_ip6_expanded) {
  u128 v = 0;
  for (int i = 0; i < 8; ++i) v = v << 16 | vf_range("quad", 0x1000, 0xffff);
  trip6(v, true);
}
VC(vc_ip6_mix) { // quads of all lengths
  vf_bounded("quads that are fixed with zero, one, two or three digits");
  u128 v = 0;
  for (int i = 0; i < 8; ++i) { static unsigned const Q[] = {0, 0xf, 0x20, 0x301}; v = v << 16 | (i == 0 || i == 5 || i == 7 ? Q[vf_pick("quad", 0, 3)] : Q[i & 1]); }
  trip6(v, vf_pick("expand", 0, 1));
}
