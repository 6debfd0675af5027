// The definition of the text forms of addresses, and text with arbitrary parts.
#pragma once
#include "ip_spec.h"
using namespace swoc;
static unsigned dig(char c) {
  unsigned x = (unsigned char)c;
  return vf_ite(vf_and(x >= '0', x <= '9'), x - '0', vf_ite(vf_and(x >= 'a', x <= 'f'), x - 'a' + 10, vf_ite(vf_and(x >= 'A', x <= 'F'), x - 'A' + 10, 99)));
}
static bool space(char c) { return vf_or(c == ' ', vf_and(c >= 9, c <= 13)); }
// the definition of the text forms.
struct R { bool ok; u128 v; };
static bool number(char const *p, size_t n, unsigned base, u128 &v) { // all of the text is one number
  bool ok = n > 0;
  v = 0;
  for (size_t i = 0; i < n; ++i) { unsigned d = dig(p[i]); ok = vf_and(ok, d < base); v = v * base + (d & 31); if (i > 20) vf_stop(); }
  return ok;
}
static bool cnumber(char const *p, size_t n, u128 &v) { // number with base prefix
  if (n > 1 && p[0] == '0') {
    if (p[1] == 'x' || p[1] == 'X') return number(p + 2, n - 2, 16, v);
    if (p[1] == 'b' || p[1] == 'B') return number(p + 2, n - 2, 2, v);
    return number(p, n, 8, v);
  }
  return number(p, n, 10, v);
}
static void trim(char const *&p, size_t &n) {
  while (n && space(p[0])) ++p, --n;
  while (n && space(p[n - 1])) --n;
}
static R ip4(char const *p, size_t n) { // elements of 8 bits, the last one has the bits that remain
  trim(p, n);
  u128 addr = 0, v;
  for (unsigned k = 0; k < 4; ++k) {
    size_t m = 0;
    while (m < n && p[m] != '.') ++m;
    if (!cnumber(p, m, v)) return {false, 0};
    if (m == n) return v >> (32 - 8 * k) ? R{false, 0} : R{true, addr + v};
    if (v > 255) return {false, 0};
    addr += v << (24 - 8 * k);
    p += m + 1, n -= m + 1;
  }
  return {false, 0};
}
static R ip6(char const *p, size_t n) { // eight quads of one to four digits, "::" once for one or more zero quads.
  trim(p, n);
  if (n && p[0] == '[') {
    if (n < 2 || p[n - 1] != ']') return {false, 0};
    ++p, n -= 2;
  }
  u128 head = 0, tail = 0, v;
  unsigned nh = 0, nt = 0;
  bool gap = false;
  if (n >= 2 && p[0] == ':' && p[1] == ':') gap = true, p += 2, n -= 2;
  else if (n == 0) return {false, 0};
  while (n) {
    size_t m = 0;
    while (m < n && p[m] != ':') ++m;
    if (m > 4 || !number(p, m, 16, v)) return {false, 0};
    if (gap) tail = tail << 16 | v, ++nt;
    else head = head << 16 | v, ++nh;
    p += m, n -= m;
    if (n) {
      if (n >= 2 && p[1] == ':') {
        if (gap) return {false, 0};
        gap = true, p += 2, n -= 2;
      } else if (n == 1) return {false, 0};
      else ++p, --n;
    }
  }
  if (nh + nt > 8 || (nh + nt == 8) == gap) return {false, 0};
  if (gap) for (unsigned i = nh; i < 8; ++i) head <<= 16;
  return {true, head | tail};
}
static R addr(char const *p, size_t n, int &fam) { // the separator near the start decides the family.
  trim(p, n);
  bool d = false, c = false;
  for (size_t i = 0; i < n && i < 6; ++i) { if (i < 5 && p[i] == '.') d = true; if (p[i] == ':') c = true; }
  R r = d ? ip4(p, n) : c ? ip6(p, n) : R{false, 0};
  fam = !r.ok ? AF_UNSPEC : d ? AF_INET : AF_INET6;
  return r;
}
struct T { char *p; size_t n; TextView v() const { return {(char const *)p, n}; } };
static T text(size_t n) { return T{(char *)vf_buffer(n, "text"), n}; }
// text with one part replaced by arbitrary bytes.
static T hole(char const *pre, size_t n, char const *post) {
  size_t a = strlen(pre), b = strlen(post);
  T t = text(a + n + b);
  for (size_t i = 0; i < a; ++i) t.p[i] = pre[i];
  for (size_t i = 0; i < b; ++i) t.p[a + n + i] = post[i];
  return t;
}
