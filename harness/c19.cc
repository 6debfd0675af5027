// C19: formatted values.
// vf-src: bw_format TextView string_view_util MemArena
// vf-opt vc_types: cost=9
// vf-opt vc_large: cost=9
// vf-opt vc_decimal: split=3 cost=3
// vf-opt vc_radix: split=6
// vf-opt vc_field: split=10
// vf-opt vc_string: split=5
// vf-opt vc_float: split=8
// vf-opt vc_dump: split=4
#include "vf.h"
#include "swoc/BufferWriter.h"
#include "swoc/bwf_base.h"
#include "swoc/bwf_ex.h"
#include "swoc/bwf_std.h"
#include <bitset>
#include <atomic>
#include <limits>
using namespace swoc;
typedef FixedBufferWriter W;
typedef bwf::Spec Spec;
typedef Spec::Align A;
static char lower(char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static char upper(char c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
// Reference text, in a fixed buffer.
struct R {
  char b[512]; size_t n = 0;
  void c(char x) { b[n++] = x; }
  void s(char const *x) { while (*x) c(*x++); }
  void v(char const *x, size_t k) { for (size_t i = 0; i < k; ++i) c(x[i]); }
};
static bool same(R const &r, std::string_view v) {
  if (r.n != v.size()) return false;
  int ok = 1;
  for (size_t i = 0; i < r.n; ++i) ok = vf_and(ok, r.b[i] == v[i]);
  return ok;
}
// Pad (sign and prefix "head", then "body") to the field of the specification.
static R field(Spec const &s, R const &head, R const &body, bool numeric) {
  R r;
  size_t n = head.n + body.n, k = n < s._min ? s._min - n : 0;
  size_t left = s._align == A::RIGHT ? k : s._align == A::CENTER ? k / 2 : 0;
  size_t mid = numeric && s._align == A::SIGN ? k : 0, right = k - left - mid;
  for (size_t i = 0; i < left; ++i) r.c(s._fill);
  r.v(head.b, head.n);
  for (size_t i = 0; i < mid; ++i) r.c(s._fill);
  r.v(body.b, body.n);
  for (size_t i = 0; i < right; ++i) r.c(s._fill);
  if (r.n > s._max) r.n = s._max;
  return r;
}
// The numeral of v: the last digit is v mod base, before it is the numeral of v / base, if that is not zero.
static R numeral(uint64_t v, unsigned base, bool up) {
  char d[65]; size_t n = 0; R r;
  do { uint64_t q = v % base; d[n++] = (up ? "0123456789ABCDEF" : "0123456789abcdef")[q]; v /= base; } while (v);
  while (n) r.c(d[--n]);
  return r;
}
static R head(Spec const &s, bool neg) {
  R h;
  if (s._sign != ' ') { if (neg) h.c('-'); else if (s._sign == '+') h.c('+'); }
  if (s._radix_lead_p) switch (s._type) {
    case 'x': h.s("0x"); break; case 'X': h.s("0X"); break; case 'b': h.s("0b"); break; case 'B': h.s("0B"); break; case 'o': h.s("0"); break;
  }
  return h;
}
static unsigned base(char t) { return t == 'x' || t == 'X' ? 16 : t == 'b' || t == 'B' ? 2 : t == 'o' ? 8 : 10; }
template <typename T> static void printed(Spec const &s, T const &v, R const &expect, char const *what) {
  bwf::Format f;
  f._items.push_back(s);
  char b[512];
  W w(b, sizeof b);
  w.print(f, v);
  EN(same(expect, w.view()), what);
  EN(w.extent() == expect.n, "and nothing else");
}
static A const ALIGN[] = {A::NONE, A::LEFT, A::RIGHT, A::CENTER, A::SIGN};
static char const SIGN[] = {'-', '+', ' '};
// Every 64 bit value, signed and unsigned.
VC(vc_decimal) {
  unsigned part = vf_part(3);
  Spec s;
  s._type = "gds"[vf_pick("type", 0, 2)];
  s._sign = SIGN[part];
  if (vf_bool("signed")) {
    int64_t v = (int64_t)vf_u64("value");
    bool neg = v < 0;
    printed(s, v, field(s, head(s, neg), numeral(neg ? 0 - (uint64_t)v : (uint64_t)v, 10, false), true), "decimal numeral of a signed value");
  } else {
    uint64_t v = vf_u64("value");
    printed(s, v, field(s, head(s, false), numeral(v, 10, false), true), "decimal numeral of an unsigned value");
  }
  vf_cover("decimal");
}
VC(vc_radix) {
  Spec s;
  s._type = "xXbBo"[vf_part(6) % 5];
  s._radix_lead_p = vf_bool("prefix");
  s._sign = SIGN[vf_pick("sign", 0, 2)];
  if (vf_bool("signed")) {
    int64_t v = (int64_t)vf_u64("value");
    bool neg = v < 0;
    printed(s, v, field(s, head(s, neg), numeral(neg ? 0 - (uint64_t)v : (uint64_t)v, base(s._type), s._type == 'X'), true), "numeral of a signed value in the base");
  } else {
    uint64_t v = vf_u64("value");
    printed(s, v, field(s, head(s, false), numeral(v, base(s._type), s._type == 'X'), true), "numeral of an unsigned value in the base");
  }
}
// The other integer types.
template <typename T> static void narrow(Spec s, char const *n) {
  T v = (T)vf_u64(n);
  bool neg = v < T(0);
  printed(s, v, field(s, head(s, neg), numeral(neg ? 0 - (uint64_t)v : (uint64_t)v, 10, false), true), "decimal numeral of each integer type");
}
VC(vc_types) {
  Spec s;
  switch (vf_pick("integer type", 0, 6)) {
  case 0: narrow<signed char>(s, "schar"); break;
  case 1: narrow<unsigned char>(s, "uchar"); break;
  case 2: narrow<short>(s, "short"); break;
  case 3: narrow<unsigned short>(s, "ushort"); break;
  case 4: narrow<int>(s, "int"); break;
  case 5: narrow<unsigned>(s, "unsigned"); break;
  case 6: narrow<long long>(s, "long long"); break;
  }
}
static void any_field(Spec &s, unsigned align) {
  static unsigned const MIN[] = {0, 2, 4, 5, 9, 1, 3, 6};
  s._align = ALIGN[align];
  s._fill = (char)vf_u8("fill");
  s._min = MIN[vf_pick("min", 0, VF_N(4, 7))];
  static unsigned const MAX[] = {~0u, 0, 1, 3, 6, 2, 4, 5};
  s._max = MAX[vf_pick("max", 0, VF_N(4, 7))];
}
// Numbers of different lengths in a field.
VC(vc_field) {
  vf_bounded("numerals of up to five characters, the listed widths");
  static int const V[] = {0, 7, 10, 345, -1, -12, -999};
  Spec s;
  unsigned part = vf_part(10);
  any_field(s, part % 5);
  int v = V[vf_pick("value", 0, 6)];
  s._type = part < 5 ? 'd' : "xXo"[vf_pick("type", 0, 2)];
  if (part >= 5) s._radix_lead_p = true;
  s._sign = SIGN[vf_pick("sign", 0, 2)];
  if (part >= 5 && s._sign == ' ') return;
  printed(s, v, field(s, head(s, v < 0), numeral(v < 0 ? -v : v, base(s._type), s._type == 'X'), true), "number in a field");
}
// Strings, of any kind, by type, precision and field.
VC(vc_string) {
  vf_bounded("texts of up to 4 bytes, the listed widths");
  Spec s;
  any_field(s, vf_part(5));
  size_t n = vf_pick("size", 0, 4);
  char *b = (char *)vf_buffer(n + 1, "text");
  TextView tv(b, n);
  unsigned p = vf_pick("precision", 0, 3);
  if (p) s._prec = p;
  size_t k = p && p < n ? p : n;
  unsigned form = vf_pick("form", 0, 3);
  R h, r;
  r.v(b, k);
  if (form == 0) printed(s, tv, field(s, h, r, true), "view in a field");
  else if (form == 1) {
    for (size_t i = 0; i < n; ++i) VF_REQUIRES(b[i] != 0);
    VF_REQUIRES(b[n] == 0);
    char const *z = b;
    printed(s, z, field(s, h, r, true), "C string in a field");
  } else {
    bool u = form == 3;
    s._type = u ? 'X' : 'x';
    r.n = 0;
    for (size_t i = 0; i < k; ++i) { uint8_t c = b[i]; char const *D = u ? "0123456789ABCDEF" : "0123456789abcdef"; r.c(D[c >> 4]); r.c(D[c & 15]); }
    if (vf_bool("prefix")) { s._radix_lead_p = true; h.s(u ? "0X" : "0x"); }
    if (s._align == A::SIGN) printed(s, tv, field(s, h, r, true), "hexadecimal in a field"); // prefix, fill, digits
    else if (s._radix_lead_p && (s._align == A::RIGHT || s._align == A::CENTER)) return; // the prefix is written before the fill
    else printed(s, tv, field(s, h, r, false), "hexadecimal in a field");
  }
}
// Letter case, booleans, characters, pointers.
VC(vc_case) {
  vf_bounded("texts of up to 3 bytes");
  Spec s;
  size_t n = vf_pick("size", 0, 3);
  char *b = (char *)vf_buffer(n, "text");
  bool u = vf_bool("upper");
  s._type = u ? 'S' : 's';
  s._min = vf_pick("min", 0, 5);
  s._align = ALIGN[vf_pick("align", 0, 3)];
  R h, r;
  for (size_t i = 0; i < n; ++i) {
    char c = b[i];
    VF_REQUIRES(vf_and(c >= 0, 1)); // ASCII
    char x = u ? vf_ite(vf_and(c >= 'a', c <= 'z'), c - 32, c) : vf_ite(vf_and(c >= 'A', c <= 'Z'), c + 32, c);
    r.c(x);
  }
  printed(s, TextView(b, n), field(s, h, r, false), "text in forced letter case");
}
VC(vc_bool) {
  vf_bounded("the listed widths");
  Spec s;
  bool v = vf_bool("value");
  unsigned t = vf_pick("type", 0, 3);
  s._type = "gdsS"[t];
  any_field(s, vf_pick("align", 0, 4));
  R h, r;
  r.s(t < 2 ? (v ? "1" : "0") : t == 2 ? (v ? "true" : "false") : (v ? "TRUE" : "FALSE"));
  printed(s, v, field(s, h, r, t < 2), "boolean in a field");
}
VC(vc_char) {
  vf_bounded("the listed widths");
  Spec s;
  char c = (char)vf_u8("char");
  any_field(s, vf_pick("align", 0, 4));
  R h, r;
  r.c(c);
  printed(s, c, field(s, h, r, false), "character in a field");
}
VC(vc_pointer) {
  vf_bounded("every address, the listed widths");
  Spec s;
  uint64_t v = vf_u64("address");
  unsigned t = vf_pick("type", 0, 6), kind = vf_pick("kind", 0, 1);
  s._type = "gpPxXsS"[t];
  s._min = vf_pick("min", 0, 1) * 20;
  s._align = ALIGN[vf_pick("align", 0, 4)];
  R h, r;
  if (v == 0) {
    if (t == 0) printed(s, (void const *)nullptr, field(s, h, r, false), "nothing for a null pointer");
    else if (t >= 5) { r.s(t == 5 ? "null" : "NULL"); printed(s, (void const *)nullptr, field(s, h, r, false), "null pointer by name"); }
    else { h.s(t % 2 ? "0x" : "0X"); r.c('0'); printed(s, nullptr, field(s, h, r, true), "null pointer as a number"); }
    if (t == 5) printed(s, (char const *)nullptr, field(s, h, r, false), "null string");
    return;
  }
  if (t >= 5) return;
  if (v >> 63) return; // not an address
  bool up = t == 2 || t == 4;
  h.s(up ? "0X" : "0x");
  r = numeral(v, 16, up);
  if (kind == 0) printed(s, (void const *)v, field(s, h, r, true), "pointer as a number");
  else if (t) printed(s, (char const *)v, field(s, h, r, true), "pointer to a character as a number");
}
static void hex(R &r, uint8_t c, bool u) { char const *D = u ? "0123456789ABCDEF" : "0123456789abcdef"; r.c(D[c >> 4]); r.c(D[c & 15]); }
// Memory.
VC(vc_dump) {
  vf_bounded("up to 6 bytes of memory");
  unsigned part = vf_part(4), n = vf_pick("size", 0, 6);
  uint8_t *b = (uint8_t *)vf_buffer(n, "memory");
  Spec s;
  bool u = vf_bool("upper");
  s._type = u ? 'X' : 'x';
  R h, r;
  if (part == 0) { // blocks of the precision
    s._radix_lead_p = vf_bool("prefix");
    unsigned k = vf_pick("block", 0, 7);
    if (k) s._prec = k;
    for (unsigned i = 0; i < n; ++i) {
      if (k ? i % k == 0 : i == 0) { if (i) r.c(' '); if (s._radix_lead_p) r.s(u ? "0X" : "0x"); }
      hex(r, b[i], u);
    }
    s._min = vf_pick("min", 0, 1) * 30;
    printed(s, MemSpan<void const>(b, n), field(s, h, r, false), "memory in blocks of the precision");
  } else if (part == 1) {
    for (unsigned i = 0; i < n / 2 * 2; ++i) { if (i && i % 2 == 0) r.c(' '); hex(r, b[i], u); }
    printed(s, MemSpan<uint16_t>((uint16_t *)b, n / 2), r, "memory of elements in blocks of the element size");
  } else if (part == 2) {
    uint32_t v = vf_u32("value");
    uint8_t p[4]; __builtin_memcpy(p, &v, 4);
    for (unsigned i = 0; i < 4; ++i) hex(r, p[i], u);
    printed(s, bwf::As_Hex(v), r, "memory of a value");
    s._min = 12; s._align = ALIGN[vf_pick("align", 0, 3)]; s._fill = '.';
    printed(s, bwf::As_Hex(v), field(s, h, r, false), "memory of a value in a field");
  } else { // digits to memory
    char t[12]; size_t k = 0;
    R q;
    for (unsigned i = 0; i < n; ++i) { hex(q, b[i], u); r.c((char)b[i]); }
    if (vf_bool("odd")) q.c('f');
    printed(Spec(), bwf::UnHex(MemSpan<void const>(q.b, q.n)), r, "memory from its hexadecimal digits");
  }
}
// The default form of a span: size and address.
VC(vc_span) {
  vf_bounded("every address, sizes up to 40");
  size_t n = vf_pick("size", 0, 40);
  uint64_t p = vf_range("address", 1, ~uint64_t(0) >> 1);
  Spec s;
  R r;
  r.s("0x"); R d = numeral(n, 16, false); r.v(d.b, d.n); r.c('@'); r.s("0x"); d = numeral(p, 16, false); r.v(d.b, d.n);
  printed(s, MemSpan<void const>((void const *)p, n), r, "size and address of a span");
}
// Repeated text, sets of bits, atomics, durations, scoped text.
VC(vc_wrapped) {
  vf_bounded("8 bit values");
  Spec s;
  R r;
  unsigned v = vf_u8("value");
  switch (vf_pick("wrapper", 0, 4)) {
  case 0: { unsigned k = vf_pick("count", 0, 5); for (unsigned i = 0; i < k; ++i) r.s("ab"); s._max = 7; if (r.n > 7) r.n = 7; printed(s, (bwf::Pattern{(int)k, "ab"}), r, "repeated text"); } break;
  case 1: { std::bitset<8> b(v); for (unsigned i = 0; i < 8; ++i) r.c(vf_ite((v >> i) & 1, '1', '0')); printed(s, b, r, "bits"); } break;
  case 2: { std::atomic<unsigned> a(v); s._min = 4; printed(s, a, field(s, R(), numeral(v, 10, false), true), "atomic value"); } break;
  case 3: { std::chrono::seconds d(v); printed(s, d, numeral(v, 10, false), "duration"); } break;
  case 4: { bool on = vf_bool("enabled"); if (on) { r.c('<'); R d = numeral(v, 10, false); r.v(d.b, d.n); r.c('>'); } printed(s, bwf::If(on, "<{}>", v), r, "optional text"); } break;
  }
}
// Text chosen or left out.
static bwf::SubText<unsigned &> optional_none(unsigned &v) { return bwf::If(false, "<{}>", v); }
VC(vc_optional) {
  vf_bounded("strings of up to two characters, 8 bit values");
  Spec s;
  R r, e;
  char *d = (char *)vf_buffer(2, "text");
  unsigned n = vf_pick("first size", 0, 2), m = vf_pick("second size", 0, 2), v = vf_u8("value");
  std::string_view a(n ? d : nullptr, n);
  TextView b(m ? d : nullptr, m);
  switch (vf_pick("wrapper", 0, 6)) {
  case 0: {
    auto t = bwf::FirstOf(a, nullptr, b);
    EN(t.size() == (n ? n : m) && (t.empty() || t.data() == d), "the first of the texts that is not empty");
    char const *z = nullptr, *o = "one";
    t = bwf::FirstOf(z, a, o);
    EN(n ? t.data() == d && t.size() == n : t == "one", "the first of the texts that is not empty, of any kind");
    EN(bwf::FirstOf(z, "").empty() && bwf::FirstOf(o, a) == "one", "no text, or the first");
  } break;
  case 1: if (n) { r.c('['); r.v(d, n); r.c(']'); } printed(s, bwf::Optional("[{}]", a), r, "text that is not empty"); break;
  case 2: if (m) { r.c('['); r.v(d, m); r.c(']'); } printed(s, bwf::Optional("[{}]", b), r, "view that is not empty"); break;
  case 3: { char const *z = vf_bool("null") ? nullptr : "yes"; if (z) r.s("[yes]"); printed(s, bwf::Optional("[{}]", z), r, "pointer that is not null"); } break;
  case 4: if (v) { r.c('<'); R k = numeral(v, 10, false); r.v(k.b, k.n); r.c('>'); } printed(s, bwf::Optional("<{}>", v), r, "value that is not zero"); break;
  case 5: { s._min = 5; s._align = A::RIGHT; bool on = vf_bool("enabled"); if (on) { e.c('<'); R k = numeral(v, 10, false); e.v(k.b, k.n); e.c('>'); } printed(s, bwf::If(on, "<{}>", v), field(s, R(), e, false), "optional text in a field"); auto t = bwf::If(on, "<{}>", v); EN(bool(t) == on && !t == !on, "enabled"); } break;
  case 6: { auto t = optional_none(v); EN(!t, "disabled"); printed(s, t, R(), "no text"); printed(s, bwf::If(true, "{}{}", v % 10, a), (r = numeral(v % 10, 10, false), r.v(a.data() ? a.data() : d, n), r), "several arguments"); } break;
  }
}
// Views written to a stream that has a width and a fill.
struct Stream {
  typedef char char_type;
  enum F { left = 1, right = 2, internal = 4, adjustfield = 7 };
  R r; size_t w; F f; char c;
  size_t width() const { return w; }
  F flags() const { return f; }
  char fill() const { return c; }
  bool good() const { return true; }
  Stream &write(char const *p, size_t n) { r.v(p, n); return *this; }
};
VC(vc_stream) {
  vf_bounded("views of up to 9 bytes, widths of up to 28");
  static Stream::F const FL[] = {Stream::F(0), Stream::left, Stream::right, Stream::internal};
  size_t n = vf_pick("size", 0, 9);
  char *d = (char *)vf_buffer(n, "text");
  Stream o{R(), vf_pick("width", 0, 28), FL[vf_pick("align", 0, 3)], (char)vf_u8("fill")};
  TextView t((char const *)d, n);
  EN(&t.stream_write(o, t) == &o, "the stream is returned");
  R r;
  size_t k = n < o.w ? o.w - n : 0;
  if (o.f != Stream::left) for (size_t i = 0; i < k; ++i) r.c(o.c);
  r.v(d, n);
  if (o.f == Stream::left) for (size_t i = 0; i < k; ++i) r.c(o.c);
  EN(same(r, std::string_view(o.r.b, o.r.n)), "the text, filled to the width on the side of the alignment");
}
// Floating point: (sign, whole, fraction of exactly the digits requested), rounded or truncated.
// Values k / 2^j, so the exact value is known.
static void real(Spec s, bool neg, uint64_t k, unsigned j, unsigned p) {
  double f = (double)k;
  for (unsigned i = 0; i < j; ++i) f /= 2;
  bool integral = (k & ((uint64_t(1) << j) - 1)) == 0;
  unsigned __int128 ten = 1;
  for (unsigned i = 0; i < p; ++i) ten *= 10;
  char b[128];
  W w(b, sizeof b);
  bwf::Format fm;
  fm._items.push_back(s);
  w.print(fm, neg ? -f : f);
  TextView v = w.view();
  if (k == 0) { EN(v == "0", "zero"); return; }
  size_t n = v.size(), i = 0;
  if (neg ? s._sign != ' ' : s._sign == '+') { EN(n > 0 && v[0] == (neg ? '-' : '+'), "sign"); i = 1; }
  size_t dot = v.find('.');
  if (integral || s._prec == 0) { EN(dot == TextView::npos, "no fraction"); dot = n; p = 0; ten = 1; }
  else EN(dot != TextView::npos && n - dot - 1 == p, "exactly the requested fraction digits");
  EN(dot > i && (v[i] != '0' || dot == i + 1), "whole part has no leading zero");
  unsigned __int128 d = 0;
  bool digits = true;
  for (size_t x = i; x < n; ++x) if (x != dot) { digits = digits && v[x] >= '0' && v[x] <= '9'; d = d * 10 + (v[x] - '0'); }
  EN(digits, "digits only");
  // d is k 10^p / 2^j, rounded or truncated
  unsigned __int128 want = (unsigned __int128)k * ten, down = want >> j, rem = want & (((unsigned __int128)1 << j) - 1);
  bool half = rem * 2 == ((unsigned __int128)1 << j);
  EN(d == down + (rem * 2 >= ((unsigned __int128)1 << j) ? 1 : 0) || (half && d == down) || (p == 0 && d == down), "value rounded or truncated to the digits");
}
VC(vc_float) {
  vf_bounded("the values k / 2^j listed, concretely");
  unsigned part = vf_part(8);
  Spec s;
  s._sign = SIGN[part % 3];
  if (part == 7) { s._prec = 0; for (unsigned k = 0; k < 200; ++k) real(s, k & 1, k * 37, 4, 0); return; }
  unsigned p = part == 0 ? 2 : part;
  if (part) s._prec = p;
  for (unsigned j = 0; j < 12; j += 3)
    for (unsigned k = 0; k < VF_N(300, 5000); ++k) real(s, k & 1, k < 150 ? k : uint64_t(k) * k * k * k, j, p);
}
// As many digits as asked for, whatever the number.
VC(vc_precision) {
  vf_bounded("the listed values, concretely");
  static double const V[] = {0.5, 1.0625, 0.001953125, 3.999999999, 123456789.0625, 4503599627370495.5, 0.1, 2.0 / 3};
  unsigned i = vf_pick("value", 0, 7), p = vf_pick("precision", 1, 24);
  char b[128], x[64];
  W w(b, sizeof b);
  bwf::Format fm;
  Spec s;
  s._prec = p;
  fm._items.push_back(s);
  w.print(fm, V[i]);
  TextView v = w.view();
  size_t dot = v.find('.');
  EN(dot != v.npos && v.size() - dot - 1 == (p < 19 ? p : 19), "exactly the requested fraction digits, at most 19");
  // read back the digits
  double whole = 0, frac = 0, scale = 1;
  for (size_t k = 0; k < dot; ++k) whole = whole * 10 + (v[k] - '0');
  for (size_t k = dot + 1; k < v.size(); ++k) { frac = frac * 10 + (v[k] - '0'); scale *= 10; }
  double e = (whole - V[i]) + frac / scale;
  if (e < 0) e = -e;
  EN(e <= 0.5 / scale * 1.0001 + 1e-15, "value rounded to the digits");
}
VC(vc_special) {
  vf_bounded("the listed values, concretely");
  Spec s;
  s._min = vf_pick("min", 0, 9); s._align = ALIGN[vf_pick("align", 0, 3)]; s._sign = SIGN[vf_pick("sign", 0, 1)];
  R h, r;
  double inf = std::numeric_limits<double>::infinity(), nan = std::numeric_limits<double>::quiet_NaN();
  switch (vf_pick("which", 0, 4)) {
  case 0: r.s("Inf"); printed(s, inf, field(s, h, r, false), "infinity"); break;
  case 1: r.s("-Inf"); printed(s, -inf, field(s, h, r, false), "negative infinity"); break;
  case 2: r.s("NaN"); printed(s, nan, field(s, h, r, false), "not a number"); break;
  case 3: r.s("0"); printed(s, 0.0, field(s, h, r, false), "zero"); break;
  case 4: h = head(s, false); r.s("2.75"); printed(s, 2.75f, field(s, h, r, false), "single precision"); break;
  }
}
// Large values: every digit.
VC(vc_large) {
  vf_bounded("powers of two");
  char d[320]; size_t n = 1; d[0] = 1; // little endian decimal digits of 2^k
  double f = 1;
  unsigned from = vf_part(1);
  Spec s;
  s._min = 25; s._align = A::RIGHT; s._fill = '*';
  for (unsigned k = 1; k < 1024; ++k) {
    unsigned c = 0;
    for (size_t i = 0; i < n; ++i) { unsigned v = d[i] * 2 + c; d[i] = v % 10; c = v / 10; }
    if (c) d[n++] = c;
    f *= 2;
    if (k < 60 || (k > VF_N(70, 140) && k < VF_N(1021, 1000))) continue;
    R h, r;
    bool neg = k & 1;
    if (neg) h.c('-');
    for (size_t i = n; i; --i) r.c('0' + d[i - 1]);
    printed(s, neg ? -f : f, field(s, h, r, false), "every digit of a large value");
  }
}
