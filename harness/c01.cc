// C01: address arithmetic, ordering, byte order, classes.
// vf-src: swoc_ip TextView
#include "ip_spec.h"
using namespace swoc;

// ---------------------------------------------------------------- IPv4
VC(vc_ip4_repr) {
  uint32_t a = vf_u32("a"), z = vf_u32("z");
  IP4Addr x{a};
  EN(x.host_order() == a, "host order is the value given");
  EN(x.network_order() == swap32(a), "network order is the byte reversal");
  EN(x[0] == (a >> 24) && x[1] == ((a >> 16) & 255) && x[2] == ((a >> 8) & 255) && x[3] == (a & 255), "octets in network order");
  IP4Addr y{z};
  y = in_addr_t(swap32(a));
  EN(y.host_order() == a, "assignment takes network order");
  EN(IP4Addr::reorder(a) == swap32(a), "reorder reverses bytes");
  sockaddr_in s;
  vf_bytes(&s, sizeof s, "sa");
  uint16_t port = s.sin_port;
  EN(x.copy_to(&s) == &s, "copy_to returns its argument");
  EN(s.sin_family == AF_INET && s.sin_addr.s_addr == swap32(a) && s.sin_port == port, "copy_to sets family and address only");
  EN(IP4Addr(&s).host_order() == a, "from socket address");
  IP4Addr w{z};
  w = &s;
  EN(w.host_order() == a, "assign from socket address");
  sockaddr_storage st;
  memset(&st, 0, sizeof st);
  x.copy_to((sockaddr *)&st);
  EN(((sockaddr_in *)&st)->sin_addr.s_addr == swap32(a) && st.ss_family == AF_INET, "copy_to generic socket address");
  EN(x.family() == AF_INET, "family");
  EN(IP4Addr{}.host_order() == 0, "default is any");
  EN(IP4Addr::MIN.host_order() == 0 && IP4Addr::MAX.host_order() == 0xffffffffu, "limits");
  EN(std::hash<IP4Addr>()(x) == std::hash<IP4Addr>()(w), "equal addresses hash equally");
  vf_cover("end");
}
VC(vc_ip4_arith) {
  uint32_t a = vf_u32("a"), b = vf_u32("b");
  unsigned n = vf_range("n", 0, 31);
  IP4Addr x{a};
  IP4Addr &r = ++x;
  EN(&r == &x && x.host_order() == uint32_t(a + 1), "increment");
  x = IP4Addr{a};
  IP4Addr &q = --x;
  EN(&q == &x && x.host_order() == uint32_t(a - 1), "decrement");
  x = IP4Addr{a};
  x <<= n;
  EN(x.host_order() == uint32_t(a << n), "shift left");
  x = IP4Addr{a};
  x >>= n;
  EN(x.host_order() == (a >> n), "shift right");
  x = IP4Addr{a};
  x &= IP4Addr{b};
  EN(x.host_order() == (a & b), "and");
  x = IP4Addr{a};
  x |= IP4Addr{b};
  EN(x.host_order() == (a | b), "or");
  vf_cover("end");
}
VC(vc_ip4_order) {
  uint32_t a = vf_u32("a"), b = vf_u32("b");
  IP4Addr x{a}, y{b};
  EN((x == y) == (a == b), "==");
  EN((x != y) == (a != b), "!=");
  EN((x < y) == (a < b), "<");
  EN((x <= y) == (a <= b), "<=");
  EN((x > y) == (a > b), ">");
  EN((x >= y) == (a >= b), ">=");
  int c = x.cmp(y);
  EN(a < b ? c < 0 : a > b ? c > 0 : c == 0, "cmp");
  vf_cover("end");
}
static bool in4(uint32_t a, uint32_t lo, uint32_t hi) { return a >= lo && a <= hi; }
VC(vc_ip4_class) {
  uint32_t a = vf_u32("a");
  IP4Addr x{a};
  bool loop = in4(a, 0x7f000000, 0x7fffffff), multi = in4(a, 0xe0000000, 0xefffffff), ll = in4(a, 0xa9fe0000, 0xa9feffff);
  bool priv = in4(a, 0x0a000000, 0x0affffff) || in4(a, 0x64400000, 0x647fffff) || in4(a, 0xac100000, 0xac1fffff) || in4(a, 0xc0a80000, 0xc0a8ffff);
  EN(x.is_any() == (a == 0), "any");
  EN(x.is_loopback() == loop, "loopback 127/8");
  EN(x.is_multicast() == multi, "multicast 224/4");
  EN(x.is_link_local() == ll, "link local 169.254/16");
  EN(x.is_private() == priv, "private 10/8, 100.64/10, 172.16/12, 192.168/16");
  EN(ip::is_loopback_host_order(a) == loop && ip::is_loopback_network_order(in_addr_t(swap32(a))) == loop, "loopback helpers");
  EN(ip::is_multicast_host_order(a) == multi && ip::is_multicast_network_order(in_addr_t(swap32(a))) == multi, "multicast helpers");
  EN(ip::is_link_local_host_order(a) == ll && ip::is_link_local_network_order(in_addr_t(swap32(a))) == ll, "link local helpers");
  EN(ip::is_private_host_order(a) == priv && ip::is_private_network_order(in_addr_t(swap32(a))) == priv, "private helpers");
  sockaddr_in s;
  memset(&s, 0, sizeof s);
  s.sin_family = AF_INET;
  s.sin_addr.s_addr = swap32(a);
  sockaddr const *sa = (sockaddr const *)&s;
  EN(ip::is_loopback(sa) == loop && ip::is_multicast(sa) == multi && ip::is_link_local(sa) == ll && ip::is_private(sa) == priv, "socket address helpers");
  IPAddr g{x};
  EN(g.is_loopback() == loop && g.is_multicast() == multi && g.is_link_local() == ll && g.is_private() == priv, "generic address classes");
  vf_cover("end");
}
// ---------------------------------------------------------------- IPv6
VC(vc_ip6_repr) {
  u128 a = vf_u128("a"), z = vf_u128("z");
  IP6Addr x{net6(a)};
  for (int i = 0; i < 16; ++i) EN(x[i] == uint8_t(a >> (8 * (15 - i))), "octets in network order");
  in6_addr n = x.network_order(), m, h;
  EN(val6(n) == a, "network order bytes");
  x.network_order(m);
  EN(val6(m) == a, "network order bytes (by reference)");
  h = x.host_order();
  uint64_t lo, hi;
  memcpy(&lo, &h, 8);
  memcpy(&hi, (char *)&h + 8, 8);
  EN(lo == uint64_t(a) && hi == uint64_t(a >> 64), "host order is the little endian value");
  in6_addr h2;
  x.host_order(h2);
  EN(memcmp(&h, &h2, 16) == 0, "host order by reference");
  IP6Addr y = mk6(z);
  y = n;
  EN(val6(y) == a, "assign network order");
  sockaddr_in6 s;
  vf_bytes(&s, sizeof s, "sa6");
  sockaddr_in6 o = s;
  EN(x.copy_to(&s) == &s, "copy_to returns its argument");
  EN(s.sin6_family == AF_INET6 && val6(s.sin6_addr) == a && s.sin6_port == o.sin6_port && s.sin6_scope_id == o.sin6_scope_id, "copy_to sets family and address only");
  EN(val6(IP6Addr(&s)) == a, "from socket address");
  IP6Addr w = mk6(z);
  w = &s;
  EN(val6(w) == a, "assign from socket address");
  w = (sockaddr_in6 const *)nullptr;
  EN(val6(w) == 0, "assign from null clears");
  sockaddr_storage st;
  memset(&st, 0, sizeof st);
  x.copy_to((sockaddr *)&st);
  EN(val6(((sockaddr_in6 *)&st)->sin6_addr) == a && st.ss_family == AF_INET6, "copy_to generic socket address");
  EN(val6(IP6Addr::MIN) == 0 && val6(IP6Addr::MAX) == ~u128(0), "limits");
  EN(val6(IP6Addr{}) == 0, "default is any");
  w = x;
  EN(std::hash<IP6Addr>()(x) == std::hash<IP6Addr>()(w), "equal addresses hash equally");
  w.clear();
  EN(val6(w) == 0, "clear");
  vf_cover("end");
}
VC(vc_ip6_mapped) {
  uint32_t a = vf_u32("a");
  u128 z = vf_u128("z");
  IP6Addr x{IP4Addr{a}};
  EN(val6(x) == ((u128(0xffff) << 32) | a), "mapped IPv4 address");
  EN(x.is_mapped_ip4(), "is mapped");
  EN(mk6(z).is_mapped_ip4() == ((z >> 32) == 0xffff), "mapped exactly for ::ffff:0:0/96");
  vf_cover("end");
}
VC(vc_ip6_arith) {
  u128 a = vf_u128("a"), b = vf_u128("b");
  IP6Addr x = mk6(a);
  ++x;
  EN(val6(x) == a + 1, "increment");
  x = mk6(a);
  --x;
  EN(val6(x) == a - 1, "decrement");
  x = mk6(a);
  x &= mk6(b);
  EN(val6(x) == (a & b), "and");
  x = mk6(a);
  x |= mk6(b);
  EN(val6(x) == (a | b), "or");
  vf_cover("end");
}
VC(vc_ip6_shift) {
  u128 a = vf_u128("a");
  unsigned n = vf_range("n", 0, 127);
  IP6Addr x = mk6(a);
  x <<= n;
  EN(val6(x) == (a << n), "shift left");
  x = mk6(a);
  x >>= n;
  EN(val6(x) == (a >> n), "shift right");
  vf_cover("end");
}
VC(vc_ip6_order) {
  u128 a = vf_u128("a"), b = vf_u128("b");
  IP6Addr x = mk6(a), y = mk6(b);
  EN((x == y) == (a == b), "==");
  EN((x != y) == (a != b), "!=");
  EN((x < y) == (a < b), "<");
  EN((x <= y) == (a <= b), "<=");
  EN((x > y) == (a > b), ">");
  EN((x >= y) == (a >= b), ">=");
  int c = x.cmp(y);
  EN(a < b ? c < 0 : a > b ? c > 0 : c == 0, "cmp");
  vf_cover("end");
}
VC(vc_ip6_class) {
  u128 a = vf_u128("a");
  IP6Addr x = mk6(a);
  bool loop = a == 1, multi = (a >> 120) == 0xff, ll = (a >> 118) == (0xfe80 >> 6), priv = (a >> 121) == (0xfc >> 1);
  EN(x.is_any() == (a == 0), "any");
  EN(x.is_loopback() == loop, "loopback ::1");
  EN(x.is_multicast() == multi, "multicast ff00::/8");
  EN(x.is_link_local() == ll, "link local fe80::/10");
  EN(x.is_private() == priv, "private fc00::/7");
  in6_addr n = net6(a);
  EN(ip::is_loopback_network_order(n) == loop && ip::is_multicast_network_order(n) == multi && ip::is_link_local_network_order(n) == ll && ip::is_private_network_order(n) == priv, "helpers");
  sockaddr_in6 s;
  memset(&s, 0, sizeof s);
  s.sin6_family = AF_INET6;
  s.sin6_addr = n;
  sockaddr const *sa = (sockaddr const *)&s;
  EN(ip::is_loopback(sa) == loop && ip::is_multicast(sa) == multi && ip::is_link_local(sa) == ll && ip::is_private(sa) == priv, "socket address helpers");
  IPAddr g{x};
  EN(g.is_loopback() == loop && g.is_multicast() == multi && g.is_link_local() == ll && g.is_private() == priv, "generic address classes");
  vf_cover("end");
}
// ---------------------------------------------------------------- generic address
struct GA { int fam; uint32_t v4; u128 v6; };
static IPAddr anyaddr(GA &g, char const *nm) {
  g.fam = vf_pick(nm, 0, 2);
  g.v4 = 0; g.v6 = 0;
  if (g.fam == 1) { g.v4 = vf_u32(nm); return IPAddr(IP4Addr(g.v4)); }
  if (g.fam == 2) { g.v6 = vf_u128(nm); return IPAddr(mk6(g.v6)); }
  return IPAddr();
}
// order: no address < IPv4 < IPv6, by value inside a family
static int order(GA const &a, GA const &b) {
  if (a.fam != b.fam) return a.fam < b.fam ? -1 : 1;
  if (a.fam == 1) return a.v4 < b.v4 ? -1 : a.v4 > b.v4;
  if (a.fam == 2) return a.v6 < b.v6 ? -1 : a.v6 > b.v6;
  return 0;
}
VC(vc_ip_order) {
  GA a, b;
  IPAddr x = anyaddr(a, "a"), y = anyaddr(b, "b");
  int c = order(a, b);
  EN((x == y) == (c == 0), "==");
  EN((x != y) == (c != 0), "!=");
  EN((x < y) == (c < 0), "<");
  EN((x <= y) == (c <= 0), "<=");
  EN((x > y) == (c > 0), ">");
  EN((x >= y) == (c >= 0), ">=");
  int k = x.cmp(y);
  EN(c < 0 ? k < 0 : c > 0 ? k > 0 : k == 0, "cmp");
  if (a.fam == 1) {
    EN((y == x.ip4()) == (c == 0) && (x.ip4() == y) == (c == 0) && (y != x.ip4()) == (c != 0) && (x.ip4() != y) == (c != 0), "comparison with an IPv4 address");
    vf_cover("v4");
  }
  if (a.fam == 2) {
    EN((y == x.ip6()) == (c == 0) && (x.ip6() == y) == (c == 0) && (y != x.ip6()) == (c != 0) && (x.ip6() != y) == (c != 0), "comparison with an IPv6 address");
    vf_cover("v6");
  }
  if (c == 0) EN(std::hash<IPAddr>()(x) == std::hash<IPAddr>()(y), "equal addresses hash equally");
  EN(x.is_same_family(y) == (a.fam == b.fam && a.fam != 0), "same family");
}
VC(vc_ip_repr) {
  GA a, z;
  IPAddr x = anyaddr(a, "a"), y = anyaddr(z, "z");
  EN(x.is_valid() == (a.fam != 0) && x.is_ip4() == (a.fam == 1) && x.is_ip6() == (a.fam == 2), "validity");
  EN(x.family() == (a.fam == 1 ? AF_INET : a.fam == 2 ? AF_INET6 : AF_UNSPEC), "family");
  sockaddr_storage st;
  memset(&st, 0, sizeof st);
  sockaddr *sa = (sockaddr *)&st;
  EN(x.copy_to(sa) == sa, "copy_to returns its argument");
  EN(st.ss_family == x.family(), "copy_to sets the family");
  y.assign(sa);
  EN(y == x, "socket address round trip");
  IPAddr w(sa);
  EN(w == x, "construction from socket address");
  y = (sockaddr const *)nullptr;
  EN(!y.is_valid(), "null socket address is no address");
  if (a.fam == 1) {
    EN(x.ip4().host_order() == a.v4 && IP4Addr(x).host_order() == a.v4, "IPv4 value");
    w = in_addr_t(swap32(a.v4));
    EN(w == x, "assign network order IPv4");
    w.invalidate();
    w.assign(in_addr_t(swap32(a.v4)));
    EN(w == x, "assign network order IPv4");
    w.assign((sockaddr_in const *)sa);
    EN(w == x, "assign from IPv4 socket address");
    vf_cover("v4");
  } else if (a.fam == 2) {
    EN(val6(x.ip6()) == a.v6 && val6(IP6Addr(x)) == a.v6, "IPv6 value");
    w = net6(a.v6);
    EN(w == x, "assign network order IPv6");
    w.invalidate();
    w.assign(net6(a.v6));
    EN(w == x, "assign network order IPv6");
    w.assign((sockaddr_in6 const *)sa);
    EN(w == x, "assign from IPv6 socket address");
    vf_cover("v6");
  }
  EN(x == (sockaddr const *)sa && (sockaddr const *)sa == x && !(x != (sockaddr const *)sa), "comparison with a socket address");
  if (z.fam == a.fam) {
    IPAddr v = z.fam == 1 ? IPAddr(IP4Addr(z.v4)) : z.fam == 2 ? IPAddr(mk6(z.v6)) : IPAddr();
    EN((v == (sockaddr const *)sa) == (order(a, z) == 0), "comparison with another socket address");
  }
  w.invalidate();
  EN(!w.is_valid() && w == IPAddr(), "invalidate");
}
VC(vn_ip4_wrong) { // negative control
  uint32_t a = vf_u32("a");
  IP4Addr x{a};
  ++x;
  EN(x.host_order() > a, "increment without wrap around");
}
