// C06: services and socket endpoints.
// vf-src: swoc_ip TextView string_view_util bw_ip_format bw_format MemArena
// vf-opt vc_tokenize_bytes: split=4
// vf-opt vc_tokenize: split=6
// vf-opt vc_srv4_text: split=6
// vf-opt vc_srv6_text: split=6
// vf-opt vc_srv_ops: split=3
#include "ip_text.h"
#include "swoc/bwf_ip.h"
// --- a service is a family, an address and a port.
struct M { int fam; u128 a; uint16_t p; };
static IPAddr maddr(M const &m) { return m.fam == AF_INET ? IPAddr(IP4Addr(uint32_t(m.a))) : m.fam == AF_INET6 ? IPAddr(mk6(m.a)) : IPAddr(); }
static void check(IPSrv const &s, M const &m) {
  EN(s.family() == m.fam && s.is_valid() == (m.fam != 0) && s.is_ip4() == (m.fam == AF_INET) && s.is_ip6() == (m.fam == AF_INET6), "family");
  EN(s.host_order_port() == (m.fam ? m.p : 0) && s.network_order_port() == swap16(m.fam ? m.p : 0), "port");
  IPAddr a = s.addr();
  EN(a.family() == m.fam, "address family");
  if (m.fam == AF_INET) { EN(a.ip4().host_order() == uint32_t(m.a) && s.ip4().addr().host_order() == uint32_t(m.a) && s.ip4().host_order_port() == m.p, "IPv4 address"); vf_cover("4"); }
  if (m.fam == AF_INET6) { EN(val6(a.ip6()) == m.a && val6(s.ip6().addr()) == m.a && s.ip6().host_order_port() == m.p, "IPv6 address"); vf_cover("6"); }
}
static M arb(IPSrv &s, unsigned f) {
  M m{0, 0, 0};
  if (f == 0) return m;
  m.p = vf_u16("port");
  if (f == 1) m.fam = AF_INET, m.a = vf_u32("addr"), s = IPSrv(IP4Addr(uint32_t(m.a)), m.p);
  else m.fam = AF_INET6, m.a = vf_u128("addr"), s = IPSrv(mk6(m.a), m.p);
  return m;
}
VC(vc_srv_ops) { // every operation on every state
  IPSrv s;
  M m = arb(s, vf_part(3));
  check(s, m);
  uint32_t a4 = vf_u32("a4");
  u128 a6 = vf_u128("a6");
  uint16_t p = vf_u16("p");
  sockaddr_in s4; sockaddr_in6 s6; sockaddr sx;
  vf_bytes(&s4, sizeof s4, "s4"); vf_bytes(&s6, sizeof s6, "s6"); vf_bytes(&sx, sizeof sx, "sx");
  s4.sin_family = AF_INET; s6.sin6_family = AF_INET6;
  VF_REQUIRES(sx.sa_family != AF_INET && sx.sa_family != AF_INET6);
  M m4{AF_INET, swap32(s4.sin_addr.s_addr), swap16(s4.sin_port)}, m6{AF_INET6, val6(s6.sin6_addr), swap16(s6.sin6_port)};
  IPSrv *r = &s;
  switch (vf_pick("op", 0, 22)) {
  case 0: r = &s.assign(IP4Addr(a4)); m = {AF_INET, a4, m.p}; break;
  case 1: r = &s.assign(mk6(a6)); m = {AF_INET6, a6, m.p}; break;
  case 2: r = &s.assign(IPAddr(IP4Addr(a4))); m = {AF_INET, a4, m.p}; break;
  case 3: r = &s.assign(IPAddr(mk6(a6))); m = {AF_INET6, a6, m.p}; break;
  case 4: r = &s.assign(IPAddr()); break;
  case 5: r = &s.assign(in_port_t(p)); m.p = m.fam ? p : 0; break;
  case 6: r = &s.assign(IP4Addr(a4), p); m = {AF_INET, a4, p}; break;
  case 7: r = &s.assign(mk6(a6), p); m = {AF_INET6, a6, p}; break;
  case 8: r = &s.assign(IPAddr(IP4Addr(a4)), p); m = {AF_INET, a4, p}; break;
  case 9: r = &s.assign(IPAddr(mk6(a6)), p); m = {AF_INET6, a6, p}; break;
  case 10: r = &s.assign(IPAddr(), p); break;
  case 11: r = &s.assign(&s4); m = m4; break;
  case 12: r = &s.assign(&s6); m = m6; break;
  case 13: r = &s.assign((sockaddr *)&s4); m = m4; break;
  case 14: r = &s.assign((sockaddr *)&s6); m = m6; break;
  case 15: r = &s.assign(&sx); break;
  case 16: r = &(s = IP4Srv(IP4Addr(a4), p)); m = {AF_INET, a4, p}; break;
  case 17: r = &(s = IP6Srv(mk6(a6), p)); m = {AF_INET6, a6, p}; break;
  case 18: r = &(s = &s4); m = m4; break;
  case 19: r = &(s = &s6); m = m6; break;
  case 20: r = &(s = (sockaddr *)&s6); m = m6; break;
  case 21: r = &s.assign(s.addr()); break;
  default: { IPSrv t; M k = arb(t, vf_pick("other", 0, 2)); r = &(s = t); m = k; check(IPSrv(t), k); }
  }
  EN(r == &s, "the service itself is returned");
  check(s, m);
}
VC(vc_srv_make) {
  uint32_t a4 = vf_u32("a4");
  u128 a6 = vf_u128("a6");
  uint16_t p = vf_u16("p");
  sockaddr_in s4; sockaddr_in6 s6;
  vf_bytes(&s4, sizeof s4, "s4"); vf_bytes(&s6, sizeof s6, "s6");
  s4.sin_family = AF_INET; s6.sin6_family = AF_INET6;
  M m4{AF_INET, swap32(s4.sin_addr.s_addr), swap16(s4.sin_port)}, m6{AF_INET6, val6(s6.sin6_addr), swap16(s6.sin6_port)};
  check(IPSrv(IP4Addr(a4), p), {AF_INET, a4, p}); check(IPSrv(IP4Addr(a4)), {AF_INET, a4, 0});
  check(IPSrv(mk6(a6), p), {AF_INET6, a6, p}); check(IPSrv(mk6(a6)), {AF_INET6, a6, 0});
  check(IPSrv(IPAddr(IP4Addr(a4)), p), {AF_INET, a4, p}); check(IPSrv(IPAddr(mk6(a6)), p), {AF_INET6, a6, p}); check(IPSrv(IPAddr(), p), {0, 0, 0});
  check(IPSrv(&s4), m4); check(IPSrv(&s6), m6); check(IPSrv((sockaddr *)&s4), m4); check(IPSrv((sockaddr *)&s6), m6);
  IPEndpoint e4, e6;
  e4.assign(&s4); e6.assign(&s6);
  check(IPSrv(e4), m4); check(IPSrv(e6), m6); check(IPSrv(IPEndpoint()), {0, 0, 0});
  IP4Srv t4(&s4); IP6Srv t6(&s6);
  EN(t4.addr().host_order() == uint32_t(m4.a) && t4.host_order_port() == m4.p && t4.network_order_port() == s4.sin_port, "IPv4 service from a socket address");
  EN(val6(t6.addr()) == m6.a && t6.host_order_port() == m6.p && t6.network_order_port() == s6.sin6_port, "IPv6 service from a socket address");
  EN(IP4Srv(IPSrv(&s4)) == t4 && IP6Srv(IPSrv(&s6)) == t6, "family service of a generic service");
  EN(IP4Srv(IPSrv(&s6)) == IP4Srv() && IP6Srv(IPSrv(&s4)) == IP6Srv(), "of the other family");
  IP4Addr const &c4 = t4; IP6Addr const &c6 = t6;
  EN(c4 == t4.addr() && c6 == t6.addr() && IP4Srv::family() == AF_INET && IP6Srv::family() == AF_INET6, "conversion to address");
  t4.assign(in_port_t(p)); EN(t4.host_order_port() == p && t4.addr().host_order() == uint32_t(m4.a), "only the port changes");
  t4.assign(IP4Addr(a4)); EN(t4.host_order_port() == p && t4.addr().host_order() == a4, "only the address changes");
  t4.assign(&s4); EN(t4 == IP4Srv(&s4), "assign from socket address");
  t4.assign(IP4Addr(a4), p); EN(t4 == IP4Srv(IP4Addr(a4), p), "assign both");
  t6.assign(in_port_t(p)); EN(t6.host_order_port() == p && val6(t6.addr()) == m6.a, "only the port changes");
  t6.assign(mk6(a6)); EN(t6.host_order_port() == p && val6(t6.addr()) == a6, "only the address changes");
  t6.assign(&s6); EN(t6 == IP6Srv(&s6), "assign from socket address");
  t6.assign(mk6(a6), p); EN(t6 == IP6Srv(mk6(a6), p), "assign both");
}
template <typename S> static void order(S const &x, S const &y, bool lt, bool eq) {
  EN((x == y) == eq && (x != y) == !eq, "equality is equality of address and port");
  EN((x < y) == lt && (x <= y) == (lt || eq) && (x > y) == !(lt || eq) && (x >= y) == !lt, "order is by address then port");
  IPSrv g, h; g = x; h = y;
  EN((g == y) == eq && (x == h) == eq && (g != y) == !eq && (x != h) == !eq, "generic equality");
  EN((g < y) == lt && (x < h) == lt && (g <= y) == (lt || eq) && (x <= h) == (lt || eq), "generic order");
  EN((g > y) == !(lt || eq) && (x > h) == !(lt || eq) && (g >= y) == !lt && (x >= h) == !lt, "generic order");
}
VC(vc_order) {
  uint32_t a = vf_u32("a"), b = vf_u32("b");
  uint16_t p = vf_u16("p"), q = vf_u16("q");
  order(IP4Srv(IP4Addr(a), p), IP4Srv(IP4Addr(b), q), a < b || (a == b && p < q), a == b && p == q);
  u128 c = vf_u128("c"), d = vf_u128("d");
  order(IP6Srv(mk6(c), p), IP6Srv(mk6(d), q), c < d || (c == d && p < q), c == d && p == q);
  IP4Srv s4(IP4Addr(a), p); IP6Srv s6(mk6(c), q);
  IPSrv g4(s4.addr(), p), g6(s6.addr(), q);
  EN(!(g4 == s6) && !(s6 == g4) && !(g6 == s4) && !(s4 == g6) && g4 != s6 && s6 != g4 && g6 != s4 && s4 != g6, "different families are not equal");
  EN((g4 == IP4Addr(b)) == (a == b) && (IP4Addr(b) == g4) == (a == b) && (g4 != IP4Addr(b)) == (a != b) && (IP4Addr(b) != g4) == (a != b), "comparison with an address");
  EN((g6 == mk6(d)) == (c == d) && (mk6(d) == g6) == (c == d) && (g6 != mk6(d)) == (c != d) && (mk6(d) != g6) == (c != d), "comparison with an address");
  EN(!(g4 == mk6(d)) && g4 != mk6(d) && !(g6 == IP4Addr(b)) && g6 != IP4Addr(b), "comparison with an address of the other family");
}
// --- socket endpoints
static void checke(IPEndpoint const &e, M const &m) {
  EN(e.family() == m.fam, "endpoint family");
  EN(e.is_valid() == (m.fam == AF_INET || m.fam == AF_INET6) && e.is_ip4() == (m.fam == AF_INET) && e.is_ip6() == (m.fam == AF_INET6), "endpoint validity");
  size_t n = m.fam == AF_INET ? sizeof(sockaddr_in) : m.fam == AF_INET6 ? sizeof(sockaddr_in6) : sizeof(sockaddr);
  EN(e.size() == n && e.sa_size() == n && IPEndpoint::sa_size(e) == n, "endpoint size");
  EN((e.ip4() == &e.sa4) == (m.fam == AF_INET) && (e.ip6() == &e.sa6) == (m.fam == AF_INET6) && (m.fam == AF_INET || !e.ip4()) && (m.fam == AF_INET6 || !e.ip6()), "typed pointers");
  uint16_t p = e.is_valid() ? m.p : 0;
  EN(e.host_order_port() == p && e.network_order_port() == swap16(p) && IPEndpoint::host_order_port(&e.sa) == p && IPEndpoint::network_order_port(&e.sa) == swap16(p), "endpoint port");
  EN(IPEndpoint::is_valid(&e.sa) == e.is_valid() && !IPEndpoint::is_valid(nullptr), "valid");
  IPAddr a(e);
  if (m.fam == AF_INET) {
    uint32_t v = m.a;
    EN(a.is_ip4() && a.ip4().host_order() == v, "endpoint IPv4 address");
    EN(e.raw_addr().size() == 4 && e.raw_addr().data() == &e.sa4.sin_addr, "raw address");
    EN(e.is_any() == (v == 0) && e.is_loopback() == (v >> 24 == 127), "any and loopback");
  } else if (m.fam == AF_INET6) {
    EN(a.is_ip6() && val6(a.ip6()) == m.a, "endpoint IPv6 address");
    EN(e.raw_addr().size() == 16 && e.raw_addr().data() == &e.sa6.sin6_addr, "raw address");
    EN(e.is_any() == (m.a == 0) && e.is_loopback() == (m.a == 1), "any and loopback");
  } else {
    EN(!a.is_valid() && e.raw_addr().empty() && !e.is_any() && !e.is_loopback(), "not an address");
  }
  EN(e.is_multicast() == a.is_multicast() && e.is_private() == a.is_private() && e.is_link_local() == a.is_link_local(), "address classes");
  EN(IPEndpoint::is_multicast(&e.sa) == a.is_multicast() && IPEndpoint::is_private(&e.sa) == a.is_private() && IPEndpoint::is_link_local(&e.sa) == a.is_link_local(), "address classes of a socket address");
}
static M arbe(IPEndpoint &e, unsigned f) {
  vf_bytes(&e, sizeof e, "endpoint");
  if (f == 0) { VF_REQUIRES(e.sa.sa_family != AF_INET && e.sa.sa_family != AF_INET6); return {e.sa.sa_family, 0, 0}; }
  if (f == 1) { e.sa.sa_family = AF_INET; return {AF_INET, swap32(e.sa4.sin_addr.s_addr), swap16(e.sa4.sin_port)}; }
  e.sa.sa_family = AF_INET6;
  return {AF_INET6, val6(e.sa6.sin6_addr), swap16(e.sa6.sin6_port)};
}
VC(vc_endpoint_ops) {
  IPEndpoint e, t;
  M m = arbe(e, vf_pick("family", 0, 2)), k = arbe(t, vf_pick("other", 0, 2));
  checke(e, m);
  uint32_t a4 = vf_u32("a4");
  u128 a6 = vf_u128("a6");
  uint16_t p = vf_u16("p");
  bool fam = vf_pick("six", 0, 1), kv = k.fam == AF_INET || k.fam == AF_INET6;
  M want = fam ? M{AF_INET6, a6, p} : M{AF_INET, a4, p}, noport = want;
  noport.p = 0;
  if (!kv) k.fam = AF_UNSPEC; // assigning something else invalidates.
  IPAddr a = maddr(want);
  IPSrv s(a, p);
  IPEndpoint *r = &e;
  switch (vf_pick("op", 0, 15)) {
  case 0: r = fam ? &e.assign(mk6(a6)) : &e.assign(IP4Addr(a4)); m = noport; break;
  case 1: r = &e.assign(a); m = noport; break;
  case 2: r = &e.assign(a, p); m = want; break;
  case 3: r = &e.assign(s); m = want; break;
  case 4: r = fam ? &e.assign(IP6Srv(s)) : &e.assign(IP4Srv(s)); m = want; break;
  case 5: r = &e.assign(&t.sa); m = k; break;
  case 6: EN(IPEndpoint::assign(&e.sa, &t.sa) == kv, "assignment reports validity"); m = k; break;
  case 7: r = &(e = t); m = k; break;
  case 8: EN(t.copy_to(&e.sa).family() == t.family(), "copy out"); m = k; break;
  case 9: r = &e.invalidate(); m = {AF_UNSPEC, 0, 0}; break;
  case 10: r = &e.set_to_any(want.fam); m = {want.fam, 0, 0}; break;
  case 11: r = &e.set_to_loopback(want.fam); m = {want.fam, fam ? 1u : 0x7f000001u, 0}; break;
  case 12: { IPEndpoint x(t); checke(x, k); EN(IPEndpoint::assign(&t.sa, &t.sa) == kv, "self assignment"); break; }
  case 13: checke(IPEndpoint(a), noport); checke(IPEndpoint(s), want); checke(IPEndpoint(&t.sa), k); checke(IPEndpoint(), {0, 0, 0}); break;
  case 14: checke(IPEndpoint(IPAddr()), {0, 0, 0}); checke(IPEndpoint(IPSrv()), {0, 0, 0}); break;
  default: if (m.fam == AF_INET || m.fam == AF_INET6) { IPEndpoint::port(&e.sa) = swap16(p); m.p = p; }
  }
  EN(r == &e, "the endpoint itself is returned");
  checke(e, m);
  if (e.is_valid()) { check(IPSrv(e), m); check(IPSrv(&e.sa), m); }
}
VC(vc_family_name) {
  sa_family_t f = (sa_family_t)vf_u16("family");
  std::string_view n = IPEndpoint::family_name(f);
  EN(n == (f == AF_INET ? "ipv4" : f == AF_INET6 ? "ipv6" : f == AF_UNIX ? "unix" : f == AF_UNSPEC ? "unspec" : "unknown"), "name of the family");
}
VC(vc_endpoint_bounds) { // a socket address has only the memory of its family
  unsigned f = vf_pick("family", 0, 1);
  size_t n = f ? sizeof(sockaddr_in6) : sizeof(sockaddr_in);
  sockaddr *src = (sockaddr *)vf_buffer(n, "src"), *dst = (sockaddr *)vf_buffer(n, "dst");
  src->sa_family = f ? AF_INET6 : AF_INET;
  EN(IPEndpoint::assign(dst, src), "valid");
  bool same = true;
  for (size_t i = 0; i < n; ++i) same = vf_and(same, ((char *)src)[i] == ((char *)dst)[i]);
  EN(same, "all of the socket address is copied");
  IPEndpoint e(src);
  EN(e.family() == src->sa_family && e.network_order_port() == IPEndpoint::network_order_port(src), "endpoint of the socket address");
  IPSrv s(src);
  EN(s.network_order_port() == e.network_order_port() && s.addr() == IPAddr(e), "service of the socket address");
}
// --- splitting text
struct Tok { bool ok, open; size_t a, an, p, pn, r, rn; };
static Tok tokens(char const *t, size_t n) {
  Tok k{};
  size_t i = 0;
  while (i < n && space(t[i])) ++i;
  size_t colon = n;
  if (i < n && t[i] == '[') {
    k.a = ++i;
    while (i < n && t[i] != ']') ++i;
    k.an = i - k.a;
    k.open = i == n;
    if (i < n) ++i;
    if (i < n && t[i] == ':') colon = i;
  } else {
    unsigned c = 0;
    for (size_t j = i; j < n; ++j) if (t[j] == ':') colon = j, ++c;
    k.a = i;
    if (c == 1) k.an = colon - i, i = colon;
    else colon = n, k.an = n - i, i = n;
  }
  if (colon < n) {
    size_t j = colon + 1;
    while (j < n && dig(t[j]) < 10) ++j;
    if (j > colon + 1) k.p = colon + 1, k.pn = j - k.p, i = j;
  }
  k.r = i, k.rn = n - i;
  k.ok = k.an > 0;
  return k;
}
static bool at(std::string_view v, T const &t, size_t o, size_t n) { return v.size() == n && (n == 0 || v.data() == t.p + o); }
static void ctok(T const &t) {
  Tok k = tokens(t.p, t.n);
  std::string_view a("stale"), p("stale"), r("stale"), sv = t.v();
  EN(IPEndpoint::tokenize(sv, &a, &p, &r) == k.ok, "found if there is a host");
  EN(at(a, t, k.a, k.an), "host");
  EN(at(p, t, k.p, k.pn), "port");
  EN(at(r, t, k.r, k.rn), "remainder");

  EN(IPEndpoint::tokenize(sv) == k.ok && IPEndpoint::tokenize(sv, &a) == k.ok && at(a, t, k.a, k.an), "all pieces are optional");
  p = r = "stale";
  EN(IPEndpoint::tokenize(sv, nullptr, &p) == k.ok && at(p, t, k.p, k.pn) && IPEndpoint::tokenize(sv, nullptr, nullptr, &r) == k.ok && at(r, t, k.r, k.rn), "all pieces are optional");
}
VC(vc_tokenize_bytes) {
  vf_bounded("texts of up to 5 (thorough 6) arbitrary bytes");
  unsigned p = vf_part(4);
  T t = text(p < 3 ? (p == 0 ? vf_pick("n", 0, 3) : 3 + p) : VF_N(5, 6));
  if (p == 1 || p == 3) VF_REQUIRES(t.p[0] == '[' || space(t.p[0]));
  if (p == 2) VF_REQUIRES(t.p[0] != '[' && !space(t.p[0]));
  ctok(t);
}
VC(vc_tokenize) {
  vf_bounded("the listed forms with up to 3 arbitrary bytes");
  static char const *const PRE[] = {"1.2.3.4", "[fe80::1]", "[fe80::1", "h.org:8", "", "fe80::1"}, *const POST[] = {"", "80 x", "]:80", "0/x", "[a:b]:5", ":5"};
  unsigned w = vf_part(6);
  ctok(hole(PRE[w], vf_pick("n", 0, 3), POST[w]));
}
// --- service text
static void csrv(T const &t, unsigned fam) {
  Tok k = tokens(t.p, t.n);
  if (k.open) return; // bracket that is not closed - no demand.
  M m{0, 0, 0};
  u128 port = 0;
  R r{false, 0};
  int f = AF_UNSPEC;
  if (k.ok && k.rn == 0 && (k.pn == 0 || (cnumber(t.p + k.p, k.pn, port) && port <= 65535))) {
    if (fam == 4) r = ip4(t.p + k.a, k.an), f = AF_INET;
    else if (fam == 6) r = ip6(t.p + k.a, k.an), f = AF_INET6;
    else r = addr(t.p + k.a, k.an, f);
  }
  if (r.ok) m = {f, r.v, uint16_t(port)};
  if (fam == 4) {
    IP4Srv s(IP4Addr(77), 88);
    EN(s.load(t.v()) == r.ok, "text is an IPv4 service if and only if it is an address with an optional port");
    if (!r.ok) m = {AF_INET, 77, 88};
    EN(s.addr().host_order() == uint32_t(m.a) && s.host_order_port() == m.p, "address and port of the text, unchanged if it is not valid");
    if (r.ok) EN(IP4Srv(t.v()) == s, "construction from text");
  } else if (fam == 6) {
    IP6Srv s(mk6(77), 88);
    EN(s.load(t.v()) == r.ok, "text is an IPv6 service if and only if it is an address with an optional port");
    if (!r.ok) m = {AF_INET6, 77, 88};
    EN(val6(s.addr()) == m.a && s.host_order_port() == m.p, "address and port of the text, unchanged if it is not valid");
    if (r.ok) EN(IP6Srv(t.v()) == s, "construction from text");
  } else {
    IPSrv s(IP4Addr(77), 88);
    EN(s.load(t.v()) == r.ok, "text is a service if and only if it is one of either family");
    check(s, r.ok ? m : M{AF_INET, 77, 88});
    if (t.n && space(t.p[t.n - 1])) return; // endpoints also trim the end of the text.
    IPEndpoint e(IPAddr(IP4Addr(77)));
    EN(e.parse(t.v()) == r.ok, "endpoint text is service text");
    checke(e, m);
    checke(IPEndpoint(t.v()), m);
  }
}
VC(vc_srv4_text) {
  vf_bounded("the listed forms with up to 4 arbitrary bytes");
  static char const *const PRE[] = {"1.2.3.4:", "1.2.3.4", "1.2.3.4:655", "1.2.3.", "", "[1.2.3.4]"}, *const POST[] = {"", "80", "", "4:80", "1.2.3.4:80", ""};
  unsigned w = vf_part(6);
  T t = hole(PRE[w], vf_pick("n", 0, w == 2 || w == 0 ? VF_N(3, 4) : VF_N(2, 3)), POST[w]);
  csrv(t, 4);
  csrv(t, 0);
}
VC(vc_srv6_text) {
  vf_bounded("the listed forms with up to 3 arbitrary bytes");
  static char const *const PRE[] = {"[fe80::1]:", "[fe80::1]", "[fe80::", "[fe80::1", "", "fe80::"}, *const POST[] = {"", "80", "]:80", ":80", "[::1]:80", "8"};
  unsigned w = vf_part(6);
  T t = hole(PRE[w], vf_pick("n", 0, w == 0 ? 3 : VF_N(2, 3)), POST[w]);
  csrv(t, 6);
  csrv(t, 0);
}
VC(vc_ports) {
  static char const *const P[] = {"65535", "65536", "65537", "99999", "4294967376", "18446744073709551696", "0", "00", "000080", "080", "1", "131152"};
  unsigned i = vf_pick("which", 0, 11), n = 0;
  T t = hole("1.2.3.4:", 0, P[i]), u = hole("[1::2]:", 0, P[i]);
  csrv(t, 4); csrv(t, 0); csrv(u, 6); csrv(u, 0);
}
VC(vc_end_trim) { // endpoint text may have space on both ends.
  T t = hole(" \t1.2.3.4:80", 0, " \n");
  IPEndpoint e;
  EN(e.parse(t.v()), "space is trimmed");
  checke(e, {AF_INET, 0x01020304, 80});
}
// --- formatting then parsing
VC(vc_trip) {
  vf_bounded("the listed addresses and ports");
  static uint16_t const P[] = {0, 1, 9, 10, 80, 99, 100, 999, 1000, 8080, 9999, 10000, 32768, 65535};
  static char const *const A[] = {"0.0.0.0", "1.2.3.4", "255.255.255.255", "10.0.0.200", "::", "::1", "fe80::", "1:2:3:4:5:6:7:8", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff", "1::2:0:0"};
  IPAddr a;
  a.load(A[vf_pick("addr", 0, 9)]);
  uint16_t p = P[vf_pick("port", 0, 13)];
  M m{a.family(), a.is_ip4() ? u128(a.ip4().host_order()) : val6(a.ip6()), p};
  IPSrv s(a, p), t;
  char b[64];
  { FixedBufferWriter w(b, sizeof b); bwformat(w, bwf::Spec::DEFAULT, s); EN(!w.error() && t.load(w.view()), "the text of a service is a service"); check(t, m); }
  if (a.is_ip4()) { FixedBufferWriter w(b, sizeof b); bwformat(w, bwf::Spec::DEFAULT, IP4Srv(s)); IP4Srv x; EN(x.load(w.view()) && x == IP4Srv(s), "IPv4 service text"); }
  else { FixedBufferWriter w(b, sizeof b); bwformat(w, bwf::Spec::DEFAULT, IP6Srv(s)); IP6Srv x; EN(x.load(w.view()) && x == IP6Srv(s), "IPv6 service text"); }
  IPEndpoint e(s), f;
  FixedBufferWriter w(b, sizeof b);
  bwformat(w, bwf::Spec::DEFAULT, &e.sa);
  EN(!w.error() && f.parse(w.view()), "the text of an endpoint is an endpoint");
  checke(f, m);
}
