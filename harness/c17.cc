// C17: number parsing, against a digit by digit definition in 128 bit arithmetic.
// vf-src: TextView string_view_util
// vf-opt vc_auto: split=6
// vf-opt vc_signed: split=8
// vf-opt vc_limits: split=6
// vf-opt vc_radix: split=4
// vf-opt vc_base: split=5
#include "vf.h"
#include "swoc/TextView.h"
#include <limits>
using namespace swoc;
typedef unsigned __int128 u128;
static constexpr uint64_t UMAX = ~uint64_t(0), IMAX = UMAX >> 1;
struct T { char *p; size_t n; TextView v() const { return {(char const *)p, n}; } };
static T text(unsigned lo, unsigned hi) { T t; t.n = vf_pick("n", lo, hi); t.p = (char *)vf_buffer(t.n, "text"); return t; }
static unsigned dig(char c) {
  unsigned x = (unsigned char)c;
  return vf_ite(vf_and(x >= '0', x <= '9'), x - '0', vf_ite(vf_and(x >= 'a', x <= 'z'), x - 'a' + 10, vf_ite(vf_and(x >= 'A', x <= 'Z'), x - 'A' + 10, 99)));
}
static bool space(char c) { return vf_or(c == ' ', vf_and(c >= 9, c <= 13)); }
struct R { uint64_t v; size_t k; }; // value (saturated), characters taken
static R digits(char const *p, size_t n, unsigned base) {
  bool in = true, over = false;
  uint64_t val = 0;
  size_t k = 0;
  for (size_t i = 0; i < n; ++i) {
    unsigned d = dig(p[i]);
    in = vf_and(in, d < base);
    u128 nv = u128(val) * base + d;
    over = vf_or(over, vf_and(in, nv > UMAX));
    val = vf_ite(in, uint64_t(nv), val);
    k += in;
  }
  return {vf_ite(over, UMAX, val), k};
}
template <int B> static void radix(T const &t) {
  R r = digits(t.p, t.n, B);
  TextView s = t.v();
  uint64_t v = svto_radix<B>(s);
  EN(v == r.v, "the value of the leading digits");
  EN(s.data() == t.p + r.k && s.size() == t.n - r.k, "exactly the leading digits are consumed");
  EN(svto_radix<B>(t.v()) == r.v, "same for a temporary");
}
VC(vc_radix) {
  vf_bounded("text of up to 3 (thorough 4) bytes");
  T t = text(0, VF_N(3, 4));
  switch (vf_part(4)) {
  case 0: radix<2>(t); radix<3>(t); radix<4>(t); break;
  case 1: radix<8>(t); radix<10>(t); break;
  case 2: radix<16>(t); radix<20>(t); break;
  default: radix<29>(t); radix<30>(t); radix<36>(t); break;
  }
}
VC(vc_table) { // every character in every base
  unsigned base = vf_pick("base", 2, 36);
  T t = text(1, 1);
  TextView out;
  uint64_t v = svtou(t.v(), &out, base);
  unsigned d = dig(t.p[0]);
  EN(v == vf_ite(d < base, d, 0), "a digit has its value");
  EN(out.size() == (d < base), "it is consumed only if it is a digit of the base");
  EN(svtou(t.v(), nullptr, base) == v, "the parsed text is optional");
  EN(uint64_t(svtoi(t.v(), nullptr, base)) == v, "signed agrees");
}
VC(vc_base) {
  vf_bounded("text of up to 2 (thorough 3) bytes");
  unsigned part = vf_part(5), base = vf_pick("base", 2 + part * 7, 8 + part * 7);
  T t = text(0, VF_N(2, 3));
  for (size_t i = 0; i < t.n; ++i) VF_REQUIRES(!space(t.p[i]));
  R r = digits(t.p, t.n, base);
  TextView out("stale");
  EN(svtou(t.v(), &out, base) == r.v, "the value of the leading digits");
  EN(out.size() == r.k && (r.k == 0 || out.data() == t.p), "the parsed text is exactly the leading digits");
}
VC(vc_bad_base) {
  int base = (int)vf_u32("base");
  VF_REQUIRES(base < 0 || base > 36);
  T t = text(0, 3);
  TextView out("stale");
  EN(svtou(t.v(), &out, base) == 0 && out.empty(), "an unsupported base parses nothing");
}
// leading spaces and base prefix
static R autou(char const *p, size_t n, size_t &sp, unsigned fixed) {
  sp = 0;
  while (sp < n && space(p[sp])) ++sp;
  p += sp; n -= sp;
  if (fixed) return digits(p, n, fixed);
  if (n == 0 || p[0] != '0') return digits(p, n, 10);
  if (n > 1) {
    unsigned b = p[1] == 'x' || p[1] == 'X' ? 16 : p[1] == 'b' || p[1] == 'B' ? 2 : 0;
    if (b) {
      R r = digits(p + 2, n - 2, b);
      if (r.k == 0) return {0, 1}; // only the zero is a number.
      r.k += 2;
      return r;
    }
  }
  return digits(p, n, 8);
}
VC(vc_auto) {
  vf_bounded("text of up to 4 (thorough 5) bytes");
  static unsigned const BASE[] = {0, 10, 16};
  unsigned part = vf_part(6), base = BASE[part % 3];
  T t = text(part < 3 ? 0 : VF_N(4, 5), part < 3 ? VF_N(3, 4) : VF_N(4, 5));
  size_t sp;
  R r = autou(t.p, t.n, sp, base);
  TextView out("stale");
  EN(svtou(t.v(), &out, base) == r.v, "the value of the number");
  EN(out.size() == r.k && (r.k == 0 || out.data() == t.p + sp), "the parsed text is the number without the leading spaces");
  if (r.k == t.n) vf_cover("all");
  if (r.k && sp) vf_cover("space");
}
VC(vc_signed) {
  vf_bounded("text of up to 4 (thorough 5) bytes");
  static unsigned const BASE[] = {0, 10, 16, 7};
  unsigned part = vf_part(8), base = BASE[part % 4];
  T t = text(part < 4 ? 0 : VF_N(4, 5), part < 4 ? VF_N(3, 4) : VF_N(4, 5));
  size_t sp = 0, q = 0;
  while (sp < t.n && space(t.p[sp])) ++sp;
  size_t i = sp;
  bool neg = false;
  if (i < t.n && (t.p[i] == '-' || t.p[i] == '+')) { neg = t.p[i] == '-'; ++i; }
  R r = autou(t.p + i, t.n - i, q, base);
  if (i > sp && q) r = {0, 0}; // space after the sign - not a number.
  TextView out("stale");
  int64_t v = svtoi(t.v(), &out, base);
  EN(v == (neg ? -(int64_t)r.v : (int64_t)r.v), "the value of the number");
  EN(out.size() == (r.k ? i - sp + r.k : 0) && (r.k == 0 || out.data() == t.p + sp), "the parsed text is the number with its sign");
}
// numbers around the limits: the limit without its last three digits, then three to five arbitrary characters.
VC(vc_limits) {
  vf_bounded("numbers that start with the digits of the limit except the last three (limits of the signed and unsigned type)");
  static unsigned const BASE[] = {2, 8, 10, 16, 7, 36};
  unsigned base = BASE[vf_part(6)];
  bool sgn = vf_pick("signed", 0, 1);
  unsigned extra = vf_pick("extra", 3, base <= 10 ? 5 : 4);
  bool neg = sgn && vf_pick("negative", 0, 1);
  uint64_t lim = sgn ? IMAX : UMAX, top = lim / base / base / base;
  char buf[80]; unsigned n = 0;
  for (uint64_t x = top; x; x /= base) ++n;
  T t; t.n = n + extra + neg; t.p = (char *)vf_buffer(t.n, "text");
  char *p = t.p;
  if (neg) *p++ = '-';
  uint64_t x = top;
  for (unsigned i = n; i-- > 0; x /= base) p[i] = "0123456789abcdefghijklmnopqrstuvwxyz"[x % base];
  (void)buf;
  R r = digits(p, n + extra, base);
  TextView out;
  if (!sgn) {
    EN(svtou(t.v(), &out, base) == r.v, "the value, or the limit");
    EN(out.size() == r.k, "all digits are consumed");
    TextView s = t.v();
    if (base == 7) { EN(svto_radix<7>(s) == r.v && s.size() == t.n - r.k, "template for base 7"); }
    else if (base == 36) { EN(svto_radix<36>(s) == r.v && s.size() == t.n - r.k, "template for base 36"); }
    else if (base == 10) { EN(svto_radix<10>(s) == r.v && s.size() == t.n - r.k, "template for base 10"); }
    else if (base == 2) { EN(svto_radix<2>(s) == r.v && s.size() == t.n - r.k, "template for base 2"); }
  } else {
    int64_t v = svtoi(t.v(), &out, base);
    uint64_t m = vf_ite(r.v > IMAX + neg, IMAX + neg, r.v);
    EN(uint64_t(v) == (neg ? 0 - m : m), "the value, or the limit of its sign");
    EN(out.size() == r.k + neg, "all digits are consumed");
  }
  if (r.v == UMAX) vf_cover("limit");
}
VC(vt_any) { // every number of 20 decimal digits
  vf_bounded("20 characters");
  T t = text(20, 20);
  R r = digits(t.p, t.n, 10);
  TextView out;
  EN(svtou(t.v(), &out, 10) == r.v, "the value, or the limit");
  EN(out.size() == r.k, "all digits are consumed");
}
VC(vc_float_value) {
  vf_bounded("signed numbers up to 40 with the listed fractions and exponents up to 2");
  static char const *const FR[] = {"", ".", ".5", ".25", ".125", ".0"};
  static double const FV[] = {0, 0, .5, .25, .125, 0};
  unsigned sgn = vf_pick("sign", 0, 2), v = vf_pick("v", 0, 40), f = vf_pick("fraction", 0, 5), e = vf_pick("exponent", 0, 3);
  char buf[16], *p = buf;
  if (sgn) *p++ = sgn == 1 ? '-' : '+';
  if (v >= 10) *p++ = '0' + v / 10;
  *p++ = '0' + v % 10;
  for (char const *q = FR[f]; *q; ++q) *p++ = *q;
  double d = v + FV[f];
  if (e) { *p++ = e & 1 ? 'e' : 'E'; if (e == 2) *p++ = '+'; *p++ = '0' + e; for (unsigned i = 0; i < e; ++i) d *= 10; }
  if (sgn == 1) d = -d;
  size_t n = p - buf;
  char *h = (char *)vf_buffer(n, "unused");
  for (size_t i = 0; i < n; ++i) h[i] = buf[i];
  TextView out;
  double r = svtod(TextView((char const *)h, n), &out);
  double diff = r < d ? d - r : r - d, mag = d < 0 ? -d : d;
  EN(diff <= mag * 4e-16, "the value of the number");
  EN(out.data() == h && out.size() == n, "everything is parsed");
}
VC(vc_float_text) {
  vf_bounded("texts of up to 4 (thorough 5) bytes");
  T t = text(0, VF_N(4, 5));
  TextView out;
  svtod(t.v(), &out);
  EN(out.size() <= t.n && (out.empty() || out.data() == t.p), "the parsed text is a prefix of the text");
}
VC(vc_float_exponent) { // exponents of any size
  vf_bounded("exponents of up to 20 digits 9, the first may be 2");
  unsigned n = vf_pick("digits", 1, 20), m = vf_pick("minus", 0, 1);
  char buf[24]; unsigned k = 0;
  buf[k++] = '1'; buf[k++] = 'e'; if (m) buf[k++] = '-';
  buf[k++] = vf_pick("lead", 0, 1) ? '2' : '9';
  for (unsigned i = 1; i < n; ++i) buf[k++] = '9';
  TextView out;
  double d = svtod(TextView((char const *)buf, k), &out);
  EN(out.size() == k, "everything is parsed");
  if (n >= 4) EN(m ? d == 0 : d > 1e308, "the value underflows or overflows");
}
