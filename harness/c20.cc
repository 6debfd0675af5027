// C20: format strings.
// vf-src: bw_format TextView string_view_util MemArena
// vf-opt vc_spec_any: split=8 cost=5
// vf-opt vc_spec_full: split=8 cost=5
// vf-opt vc_print: split=6 cost=5
// vf-opt vc_extract: split=6
#include "vf.h"
#include "swoc/BufferWriter.h"
#include "swoc/bwf_base.h"
#include "swoc/bwf_ex.h"
#include "swoc/bwf_std.h"
#include <stdexcept>
using namespace swoc;
typedef FixedBufferWriter W;
typedef bwf::Spec Spec;
typedef Spec::Align A;
static bool digit(char c) { return vf_and(c >= '0', c <= '9'); }
static bool xdigit(char c) { return vf_or(vf_or(vf_and(c >= '0', c <= '9'), vf_and(c >= 'a', c <= 'f')), vf_and(c >= 'A', c <= 'F')); }
static int xval(char c) { return vf_ite(vf_and(c >= '0', c <= '9'), c - '0', (c | 32) - 'a' + 10); }
static A align(char c) { return c == '<' ? A::LEFT : c == '>' ? A::RIGHT : c == '^' ? A::CENTER : c == '=' ? A::SIGN : A::NONE; }
static bool sign(char c) { return vf_or(vf_or(c == '+', c == '-'), c == ' '); }
static bool type(char c) { int r = 0; for (char const *t = "bBdgopPsSxX"; *t; ++t) r = vf_or(r, c == *t); return r; }
// Reference reading of a specification, from the documented grammar
//   name [":" style [":" extension]]
//   style: [[fill]align][sign]["#"]["0"][min]["."precision][type][","max[type]], anything after is ignored
struct Ref { bool err = false; char fill = ' ', sign = '-', type = 'g'; A al = A::NONE; bool lead = false; unsigned min = 0, max = ~0u; int prec = -1, idx = -1; size_t name = 0, ext = 0, extn = 0; };
struct Rd {
  char const *t; size_t i, n;
  bool more() const { return i < n; }
  bool number(uint64_t &v) { // saturating
    size_t b = i; v = 0;
    while (i < n && digit(t[i])) { unsigned d = t[i++] - '0'; v = v > (~uint64_t(0) - d) / 10 ? ~uint64_t(0) : v * 10 + d; }
    return i > b;
  }
};
static Ref ref(char const *t, size_t n) {
  Ref r;
  uint64_t v;
  while (r.name < n && t[r.name] != ':') ++r.name;
  { Rd d{t, 0, r.name}; d.number(v); if (d.i == r.name) r.idx = v > 0x7fffffff ? 0x7fffffff : int(v); }
  if (r.name == n) return r;
  size_t b = r.name + 1, e = b;
  while (e < n && t[e] != ':') ++e;
  if (e < n) { r.ext = e + 1; r.extn = n - r.ext; }
  Rd d{t, b, e};
  if (!d.more()) return r;
  if (t[d.i] == '%') {
    if (e - d.i < 4 || (r.al = align(t[d.i + 3])) == A::NONE || !xdigit(t[d.i + 1]) || !xdigit(t[d.i + 2])) { r.err = true; return r; }
    r.fill = char(xval(t[d.i + 1]) * 16 + xval(t[d.i + 2]));
    d.i += 4;
  } else if (e - d.i > 1 && align(t[d.i + 1]) != A::NONE) { r.fill = t[d.i]; r.al = align(t[d.i + 1]); d.i += 2; }
  else if (align(t[d.i]) != A::NONE) r.al = align(t[d.i++]);
  if (d.more() && sign(t[d.i])) r.sign = t[d.i++];
  if (d.more() && t[d.i] == '#') { r.lead = true; ++d.i; }
  if (d.more() && t[d.i] == '0') { r.fill = '0'; if (r.al == A::NONE) r.al = A::SIGN; ++d.i; }
  if (d.number(v)) r.min = v > ~0u ? ~0u : unsigned(v);
  if (d.more() && t[d.i] == '.') { ++d.i; if (!d.number(v)) { r.err = true; return r; } r.prec = v > 0x7fffffff ? 0x7fffffff : int(v); }
  if (d.more() && type(t[d.i])) r.type = t[d.i++];
  if (d.more() && t[d.i] == ',') {
    ++d.i;
    if (!d.number(v)) { r.err = true; return r; }
    r.max = v > ~0u ? ~0u : unsigned(v);
    if (d.more() && type(t[d.i])) r.type = t[d.i++];
  }
  return r;
}
static void same(Spec const &s, Ref const &r, char const *t) {
  EN(vf_and(s._fill == r.fill, s._sign == r.sign), "fill and sign");
  EN(vf_and(s._type == r.type, vf_and(s._align == r.al, s._radix_lead_p == r.lead)), "type, alignment and prefix");
  EN(vf_and(vf_and(s._min == r.min, s._max == r.max), s._prec == r.prec), "widths and precision");
  EN(s._idx == r.idx && s._name.size() == r.name && (r.name == 0 || s._name.data() == t), "name or index");
  EN(s._ext.size() == r.extn && (r.extn == 0 || s._ext.data() == t + r.ext), "extension");
}
static void spec(char const *t, size_t n) {
  Ref r = ref(t, n);
  Spec s;
  bool threw = false;
  try { EN(s.parse(TextView(t, n)), "parsed"); } catch (std::invalid_argument const &) { threw = true; }
  EN(threw == r.err, "an error exactly if it is not a specification");
  if (!threw) same(s, r, t);
}
// Any bytes after the name separator.
VC(vc_spec_any) {
  vf_bounded("specifications of up to 5 bytes");
  unsigned part = vf_part(8), n = part < 3 ? part : VF_N(part == 3 ? 3 : 4, part == 3 ? 3 : part < 6 ? 4 : 5);
  char *t = (char *)vf_buffer(n + 1, "specification");
  VF_REQUIRES(t[0] == ':');
  if (n == 4) { // by the class of the first byte
    char c = t[1];
    unsigned k = c == '%' ? 0 : vf_or(type(c), align(c) != A::NONE) ? 1 : vf_or(sign(c), vf_or(c == '#', c == '.')) ? 2 : 3;
    VF_REQUIRES(k == (part - 4) % 4);
  }
  spec(t, n + 1);
}
// Names.
VC(vc_spec_name) {
  vf_bounded("names of up to 3 bytes, or up to 22 digits");
  if (vf_bool("long")) {
    static char const *const L[] = {"2147483646", "2147483647", "2147483648", "4294967295", "4294967296", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "0000000000000000000000012", "12x"};
    char const *l = L[vf_pick("name", 0, 9)];
    size_t n = __builtin_strlen(l);
    char *t = (char *)vf_buffer(n, "text");
    for (size_t i = 0; i < n; ++i) t[i] = l[i];
    spec(t, n);
    return;
  }
  size_t n = vf_pick("size", 0, 3);
  char *t = (char *)vf_buffer(n, "specification");
  spec(t, n);
}
// Every field present or not, in order.
VC(vc_spec_full) {
  vf_bounded("numbers of up to 2 digits or at the limits");
  unsigned part = vf_part(8);
  char t[48]; size_t n = 0;
  static char const *const NUM[] = {"", "10", "4294967296", "7"};
  auto num = [&](unsigned k) { for (char const *p = NUM[k]; *p; ++p) t[n++] = *p; };
  if (part & 2) t[n++] = '4';
  t[n++] = ':';
  if (part & 1) {
    if (vf_bool("encoded")) { t[n++] = '%'; t[n++] = (char)vf_u8("high"); t[n++] = (char)vf_u8("low"); } else if (vf_bool("fill")) t[n++] = (char)vf_u8("fill");
    t[n++] = "<=>^"[vf_pick("align", 0, VF_N(1, 3))];
  }
  if (part & 2) t[n++] = "+ -"[vf_pick("sign", 0, VF_N(1, 2))];
  if (part & 4) t[n++] = '#';
  if (part == 0 || vf_bool("zero")) t[n++] = '0';
  num(vf_pick("min", 0, VF_N(2, 3)));
  unsigned k = vf_pick("precision", 0, VF_N(2, 3));
  if (k) { t[n++] = '.'; num(k); }
  if (vf_bool("type")) t[n++] = "xgS"[vf_pick("which type", 0, VF_N(0, 2))];
  k = vf_pick("max", 0, VF_N(2, 3));
  if (k) { t[n++] = ','; num(k); if (vf_bool("type after")) t[n++] = 'X'; }
  if (part & 4) { t[n++] = ':'; t[n++] = 'e'; t[n++] = ':'; }
  char *b = (char *)vf_buffer(n, "text");
  for (size_t i = 0; i < n; ++i) b[i] = t[i];
  spec(b, n);
}
// Splitting a format: the next literal and specifier.
struct El { bool err = false, spec = false; size_t lb = 0, ln = 0, sb = 0, sn = 0, next = 0; };
static El element(char const *t, size_t i, size_t n) {
  El e;
  size_t k = i;
  while (k < n && t[k] != '{' && t[k] != '}') ++k;
  e.lb = i; e.ln = k - i; e.next = k;
  if (k == n) return e;
  if (k + 1 == n) { e.err = true; return e; }
  if (t[k + 1] == t[k]) { e.ln++; e.next = k + 2; return e; } // one brace of a pair
  if (t[k] == '}') { e.err = true; return e; }
  size_t z = k + 1;
  while (z < n && t[z] != '}') ++z;
  if (z == n) { e.err = true; return e; }
  e.spec = true; e.sb = k + 1; e.sn = z - k - 1; e.next = z + 1;
  return e;
}
VC(vc_extract) {
  vf_bounded("formats of up to 5 bytes");
  size_t n = vf_part(6);
  char *t = (char *)vf_buffer(n, "format");
  El e = element(t, 0, n);
  TextView f(t, n);
  std::string_view lit, sp;
  bool threw = false, r = false;
  try { r = bwf::Format::TextViewExtractor::parse(f, lit, sp); } catch (std::invalid_argument const &) { threw = true; }
  if (n == 0) { EN(!threw && !r && lit.empty(), "nothing in an empty format"); return; }
  EN(threw == e.err, "an error exactly for an unbalanced brace");
  if (threw) return;
  EN(r == e.spec && lit.size() == e.ln && (e.ln == 0 || lit.data() == t + e.lb), "the literal before the specifier");
  if (r) EN(sp.size() == e.sn && (e.sn == 0 || sp.data() == t + e.sb), "the specifier between the braces");
  EN(f.size() == n - e.next && (f.empty() || f.data() == t + e.next), "the rest of the format");
}
// Arguments that report which one was asked for.
struct Args : bwf::ArgPack {
  unsigned n;
  Args(unsigned k) : n(k) {}
  std::any capture(unsigned) const override { return {}; }
  unsigned count() const override { return n; }
  BufferWriter &print(BufferWriter &w, Spec const &s, unsigned i) const override { EN(i < n, "argument that exists"); w.write(char('0' + i)); if (s._type != 'g') w.write(s._type); return w; }
};
struct Names : bwf::NameBinding {
  BufferWriter &operator()(BufferWriter &w, Spec const &s) const override { return w.write('$').write(s._name).write('$'); }
};
static bool special(Ref const &r) { return r.min > 9 || r.al != A::NONE || r.max < 100; }
// Printing: literals, arguments in order, by index and by name.
static size_t expected(char const *t, size_t n, unsigned args, char *o, bool &err, bool &skip) {
  size_t i = 0, k = 0, arg = 0;
  err = skip = false;
  while (i < n) {
    El e = element(t, i, n);
    if (e.err) { err = true; return k; }
    for (size_t x = 0; x < e.ln; ++x) o[k++] = t[e.lb + x];
    if (e.spec) {
      Ref r = ref(t + e.sb, e.sn);
      if (r.err) { err = true; return k; }
      if (special(r)) { skip = true; return k; }
      size_t from = k;
      if (r.name == 0) r.idx = arg++;
      if (r.idx >= 0) {
        if ((unsigned)r.idx < args) { o[k++] = char('0' + r.idx); if (r.type != 'g') o[k++] = r.type; }
        else {
          for (char const *m = "{BAD_ARG_INDEX:"; *m; ++m) o[k++] = *m;
          char d[12]; unsigned dn = 0; unsigned v = r.idx;
          do d[dn++] = '0' + v % 10; while (v /= 10);
          while (dn) o[k++] = d[--dn];
          for (char const *m = " of "; *m; ++m) o[k++] = *m;
          o[k++] = '0' + args; o[k++] = '}';
        }
      } else if (r.name) { o[k++] = '$'; for (size_t x = 0; x < r.name; ++x) o[k++] = t[e.sb + x]; o[k++] = '$'; }
      while (k - from < r.min) o[k++] = r.fill;
    }
    i = e.next;
  }
  return k;
}
static bool eq(char const *o, size_t k, TextView v) {
  if (v.size() != k) return false;
  int r = 1;
  for (size_t i = 0; i < k; ++i) r = vf_and(r, o[i] == v[i]);
  return r;
}
static void print(char const *t, size_t n, unsigned args, bool pre) {
  char o[256], b[256];
  bool err, skip, threw = false;
  size_t k = expected(t, n, args, o, err, skip);
  if (skip) return;
  W w(b, sizeof b);
  try {
    if (pre) {
      bwf::Format f(TextView(t, n));
      bool lit = true;
      size_t i = 0;
      while (i < n) { El e = element(t, i, n); if (e.spec) lit = false; i = e.next; }
      EN(f.is_literal() == lit, "literal if there are no specifiers");
      w.print_nfv(Names(), f.bind(), Args(args));
    } else w.print_nfv(Names(), bwf::Format::bind(TextView(t, n)), Args(args));
  } catch (std::invalid_argument const &) { threw = true; }
  EN(threw == err, "an error exactly if the format is not valid");
  if (!threw) EN(eq(o, k, w.view()) && w.extent() == k, "literal text and each placeholder replaced");
  else if (!pre) EN(w.size() <= k, "nothing past the error");
}
VC(vc_print) {
  vf_bounded("formats of up to 5 bytes");
  unsigned part = vf_part(6);
  size_t n = VF_N(part < 3 ? part : 5, part);
  char *t = (char *)vf_buffer(n, "format");
  if (VF_N(part >= 3, 0)) { unsigned k = t[0] == '{' ? 1 : t[0] == '}' ? 2 : 0; VF_REQUIRES(k == part - 3); }
  print(t, n, 2, vf_bool("parsed first"));
}
// Longer formats, from pieces.
VC(vc_pieces) {
  vf_bounded("up to four pieces");
  static char const *const P[] = {"", "a", "{{", "}}", "{}", "{1}", "{0}", "{7}", "{nm}", "{:3}", "{0:x}", "{", "}"};
  char t[40]; size_t n = 0;
  for (unsigned i = 0; i < VF_N(3, 4); ++i) for (char const *p = P[vf_pick("piece", 0, 12)]; *p; ++p) t[n++] = *p;
  char *b = (char *)vf_buffer(n, "text");
  for (size_t i = 0; i < n; ++i) b[i] = t[i];
  print(b, n, 2, vf_bool("parsed first"));
}
// Real arguments by every way to give them.
VC(vc_args) {
  unsigned a = vf_u8("first"), x = 0;
  char c = (char)vf_u8("second");
  char b[64], o[64];
  size_t k = 0;
  o[k++] = c; o[k++] = '-';
  char d[4]; unsigned dn = 0; unsigned v = a; do d[dn++] = '0' + v % 10; while (v /= 10);
  unsigned m = dn;
  while (m) o[k++] = d[--m];
  o[k++] = '-'; o[k++] = c;
  W w(b, sizeof b);
  std::string s;
  bwf::Format f("{1}-{0}-{}{}"); // implicit indices count from the first argument
  switch (vf_pick("way", 0, 5)) {
  case 0: w.print("{1}-{0}-{1}", a, c); break;
  case 1: w.print_v("{1}-{0}-{1}", std::forward_as_tuple(a, c)); break;
  case 2: w.print(bwf::Format("{1}-{0}-{1}"), a, c); break;
  case 3: w.print_v(bwf::Format("{1}-{0}-{1}"), std::forward_as_tuple(a, c)); break;
  case 4: bwprint(s, "{1}-{0}-{1}", a, c); EN(eq(o, k, s), "printed in a string"); return;
  case 5: { w.print(f, a, c); m = dn; while (m) o[k - 1 + dn - m] = d[m - 1], --m; k = k - 1 + dn; o[k++] = c; } break;
  }
  EN(eq(o, k, w.view()), "each argument at its places");
}
// Tables of names.
VC(vc_names) {
  vf_bounded("three names");
  struct Ctx { char c; } ctx{(char)vf_u8("context")};
  bwf::ContextNames<Ctx> cn;
  cn.assign("one", [](BufferWriter &w, Spec const &, Ctx &x) -> BufferWriter & { return w.write(x.c); });
  cn.assign("two", bwf::ContextNames<Ctx>::ExternalGenerator([](BufferWriter &w, Spec const &) -> BufferWriter & { return w.write("2!"); }));
  EN(cn.contains("one") && cn.contains("two") && !cn.contains("on") && !cn.contains(""), "the names assigned");
  char b[64];
  W w(b, sizeof b);
  w.print_n(cn.bind(ctx), "{two}[{one:3}]{three}");
  char o[] = {'2', '!', '[', ctx.c, ' ', ' ', ']', '{', '~', 't', 'h', 'r', 'e', 'e', '~', '}'};
  EN(eq(o, sizeof o, w.view()), "output of the generator for the name, with its context");
  bwf::ExternalNames en;
  char key[3] = {'k', (char)vf_pick("digit", '0', '2'), 0};
  en.assign(TextView(key, 2), [](BufferWriter &w, Spec const &s) -> BufferWriter & { return w.write('<').write(s._ext).write('>'); });
  key[0] = 'z'; // a copy of the name is kept
  w.clear();
  w.print_n(en.bind(), "{k0::x}{k1::x}{k2::x}");
  size_t k = 0; char o2[64];
  for (char d = '0'; d < '3'; ++d) for (char const *p = d == key[1] ? "<x>" : d == '0' ? "{~k0~}" : d == '1' ? "{~k1~}" : "{~k2~}"; *p; ++p) o2[k++] = *p;
  EN(eq(o2, k, w.view()), "only the assigned name");
  bool threw = false;
  try { w.print_n(bwf::NilBinding(), "{x}"); } catch (std::runtime_error const &) { threw = true; }
  EN(threw, "no names allowed");
}
