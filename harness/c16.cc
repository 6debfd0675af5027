// C16: trimming, searching and comparing text, against character by character definitions. Every text up to the stated
// length with any bytes; views are exact heap buffers so every access outside a view is reported.
// vf-src: TextView string_view_util
// vf-opt vc_trim_char: split=3
// vf-opt vc_compare: split=6
// vf-opt vc_trim_set: split=9 cost=4
// vf-opt vc_order: split=4
#include "vf.h"
#include "swoc/TextView.h"
using namespace swoc;
struct T { char *p; size_t n; TextView v() const { return {(char const *)p, n}; } };
static T text(char const *nm, unsigned lo, unsigned hi, char const *cn) { T t; t.n = vf_pick(nm, lo, hi); t.p = (char *)vf_buffer(t.n, cn); return t; }
static bool pos(TextView const &s, char const *q, size_t k) { return vf_and(s.size() == k, vf_or(k == 0, s.data() == q)); }
static unsigned up(char c) { unsigned x = (unsigned char)c; return x - (vf_and(x >= 'a', x <= 'z') ? 32 : 0); }
static unsigned low(char c) { unsigned x = (unsigned char)c; return x + vf_ite(vf_and(x >= 'A', x <= 'Z'), 32, 0); }
// the run of matching characters at both ends
template <typename M> static void runs(T const &t, M const &m, size_t &a, size_t &z) {
  bool in = true; a = z = 0;
  for (size_t i = 0; i < t.n; ++i) { in = vf_and(in, m(t.p[i])); a += in; }
  in = true;
  for (size_t i = 0; i < t.n; ++i) { in = vf_and(in, m(t.p[t.n - 1 - i])); z += in; }
}
template <typename L, typename R, typename B> static void trims(T const &t, size_t a, size_t z, L l, R r, B b) {
  { TextView s = t.v(); TextView &u = l(s); EN(&u == &s && pos(s, t.p + a, t.n - a), "ltrim removes the leading run"); }
  { TextView s = t.v(); TextView &u = r(s); EN(&u == &s && pos(s, t.p, t.n - z), "rtrim removes the trailing run"); }
  { TextView s = t.v(); TextView &u = b(s); EN(&u == &s && (a == t.n ? s.empty() : pos(s, t.p + a, t.n - a - z)), "trim removes both runs"); }
}
VC(vc_trim_char) {
  vf_bounded("text of up to 8 (thorough 14) bytes");
  unsigned k = vf_part(3), N = VF_N(8, 14);
  T t = text("n", k == 0 ? 0 : k == 1 ? N - 2 : N, k == 0 ? N - 3 : k == 1 ? N - 1 : N, "text");
  char c = (char)vf_u8("c");
  size_t a, z;
  runs(t, [=](char x) { return x == c; }, a, z);
  trims(t, a, z, [=](TextView &s) -> TextView & { return s.ltrim(c); }, [=](TextView &s) -> TextView & { return s.rtrim(c); }, [=](TextView &s) -> TextView & { return s.trim(c); });
  if (a && z && a < t.n) vf_cover("both ends");
}
VC(vc_trim_set) {
  vf_bounded("text of up to 3 (thorough 4) bytes, sets of up to 2 characters");
  unsigned k = vf_part(9), sz = k % 3, form = k / 3;
  T t = text("n", 0, sz < 2 ? VF_N(4, 6) : VF_N(3, 4), "text"), d = text("set size", sz, sz, "set");
  if (form == 2) for (size_t i = 0; i < d.n; ++i) VF_REQUIRES(d.p[i] != 0);
  auto in = [=](char x) { bool h = false; for (size_t i = 0; i < d.n; ++i) h = vf_or(h, x == d.p[i]); return h; };
  size_t a, z;
  runs(t, in, a, z);
  std::string_view sv(d.p, d.n);
  char cs[4]; for (size_t i = 0; i < d.n; ++i) cs[i] = d.p[i]; cs[d.n] = 0;
  char const *cp = cs;
  CharSet S{TextView{sv}};
  switch (form) {
  case 0: trims(t, a, z, [&](TextView &s) -> TextView & { return s.ltrim(S); }, [&](TextView &s) -> TextView & { return s.rtrim(S); }, [&](TextView &s) -> TextView & { return s.trim(S); }); break;
  case 1: trims(t, a, z, [&](TextView &s) -> TextView & { return s.ltrim(sv); }, [&](TextView &s) -> TextView & { return s.rtrim(sv); }, [&](TextView &s) -> TextView & { return s.trim(sv); }); break;
  default: trims(t, a, z, [&](TextView &s) -> TextView & { return s.ltrim(cp); }, [&](TextView &s) -> TextView & { return s.rtrim(TextView(sv)); }, [&](TextView &s) -> TextView & { return s.trim(cp); }); break;
  }
}
VC(vc_charset) {
  T d = text("set size", 0, 3, "set");
  CharSet S{d.v()};
  unsigned char c = vf_u8("c");
  bool h = false; for (size_t i = 0; i < d.n; ++i) h = vf_or(h, c == (unsigned char)d.p[i]);
  EN(S(c) == h && S((char)c) == h, "exactly the characters given");
}
struct Pred { bool operator()(char c) const { return (c & 0x81) == 1; } };
VC(vc_pred) {
  vf_bounded("text of up to 8 (thorough 16) bytes");
  T t = text("n", 0, VF_N(8, 16), "text");
  size_t a, z, f = TextView::npos, l = TextView::npos;
  runs(t, Pred(), a, z);
  for (size_t i = 0; i < t.n; ++i) { bool h = Pred()(t.p[i]); f = vf_ite(vf_and(h, f == TextView::npos), i, f); l = vf_ite(h, i, l); }
  EN(t.v().find_if(Pred()) == f, "find_if finds the first");
  EN(t.v().rfind_if(Pred()) == l, "rfind_if finds the last");
  trims(t, a, z, [](TextView &s) -> TextView & { return s.ltrim_if(Pred()); }, [](TextView &s) -> TextView & { return s.rtrim_if(Pred()); }, [](TextView &s) -> TextView & { return s.trim_if(Pred()); });
}
VC(vc_trim_space) { // with isspace, as used throughout
  vf_bounded("text of up to 4 bytes");
  T t = text("n", 0, 4, "text");
  auto sp = [](char c) { return vf_or(c == ' ', vf_and(c >= 9, c <= 13)); };
  size_t a, z;
  runs(t, sp, a, z);
  trims(t, a, z, [](TextView &s) -> TextView & { return s.ltrim_if(&isspace); }, [](TextView &s) -> TextView & { return s.rtrim_if(&isspace); }, [](TextView &s) -> TextView & { return s.trim_if(&isspace); });
}
VC(vc_affix) {
  vf_bounded("texts of up to 5 bytes");
  T t = text("n", 0, 5, "text"), x = text("m", 0, 5, "affix");
  bool b = x.n <= t.n, e = b, bn = b, en = b;
  for (size_t i = 0; i < x.n && i < t.n; ++i) { b = vf_and(b, t.p[i] == x.p[i]); bn = vf_and(bn, low(t.p[i]) == low(x.p[i])); }
  if (x.n <= t.n) for (size_t i = 0; i < x.n; ++i) { char y = t.p[t.n - x.n + i]; e = vf_and(e, y == x.p[i]); en = vf_and(en, low(y) == low(x.p[i])); }
  TextView v = t.v(); std::string_view w(x.p, x.n);
  EN(v.starts_with(w) == b, "starts_with");
  EN(v.ends_with(w) == e, "ends_with");
  EN(v.starts_with_nocase(w) == bn, "starts_with_nocase");
  EN(v.ends_with_nocase(w) == en, "ends_with_nocase");
  char c = (char)vf_u8("c");
  EN(v.starts_with(c) == (t.n && t.p[0] == c) && v.ends_with(c) == (t.n && t.p[t.n - 1] == c), "character forms");
  EN(v.starts_with_nocase(c) == (t.n && low(t.p[0]) == low(c)) && v.ends_with_nocase(c) == (t.n && low(t.p[t.n - 1]) == low(c)), "caseless character forms");
}
VC(vc_affix_cstr) {
  vf_bounded("texts of up to 4 bytes");
  T t = text("n", 0, 4, "text"), x = text("m", 0, 3, "affix");
  char cs[4]; for (size_t i = 0; i < x.n; ++i) { VF_REQUIRES(x.p[i] != 0); cs[i] = x.p[i]; } cs[x.n] = 0;
  char const *p = cs; TextView v = t.v(); std::string_view w(x.p, x.n);
  EN(v.starts_with(p) == v.starts_with(w) && v.ends_with(p) == v.ends_with(w) && v.starts_with_nocase(p) == v.starts_with_nocase(w) && v.ends_with_nocase(p) == v.ends_with_nocase(w), "C string forms");
}
// reference order, branch free: -1, 0, 1
static int64_t ord(T const &a, T const &b, bool nc) {
  int64_t r = a.n < b.n ? -1 : a.n > b.n;
  for (size_t i = a.n < b.n ? a.n : b.n; i-- > 0;) {
    unsigned x = nc ? low(a.p[i]) : (unsigned char)a.p[i], y = nc ? low(b.p[i]) : (unsigned char)b.p[i];
    r = (int64_t)vf_ite(x == y, r, vf_ite(x < y, -1, 1));
  }
  return r;
}
VC(vc_compare) {
  vf_bounded("texts of up to 5 (thorough 8) bytes");
  unsigned k = vf_part(6), N = VF_N(5, 8);
  T a = text("n", k, k == 5 ? N : k, "a"), b = text("m", 0, N, "b");
  int64_t o = ord(a, b, false), oc = ord(a, b, true);
  TextView x = a.v(), y = b.v();
  EN(memcmp(x, y) == o && strcmp(x, y) == o, "case sensitive order");
  EN(strcasecmp(x, y) == oc, "case insensitive order");
  EN(TextView::LessThan()(x, y) == (o < 0) && TextView::LessThanNoCase()(x, y) == (oc < 0) && TextView::CaselessEqual()(x, y) == (oc == 0), "ordering functors");
  EN((x == y) == (o == 0) && (x != y) == (o != 0) && (x < y) == (o < 0), "operators");
}
VC(vc_same) { // views of the same memory, overlapping
  vf_bounded("text of up to 6 bytes");
  T t = text("n", 0, 6, "text");
  size_t i = vf_pick("i", 0, t.n), j = vf_pick("j", 0, t.n);
  T a{t.p + i, t.n - i}, b{t.p, j};
  EN(memcmp(a.v(), b.v()) == ord(a, b, false) && strcasecmp(a.v(), b.v()) == ord(a, b, true), "overlapping views");
  EN(memcmp(t.v(), t.v()) == 0 && strcasecmp(t.v(), t.v()) == 0, "identical views");
}
VC(vc_order) { // total order: transitive
  vf_bounded("texts of up to 2 bytes");
  T a = text("n", 0, 2, "a"), b = text("m", 0, 2, "b"), c = text("o", 0, 2, "c");
  unsigned k = vf_part(4);
  auto cmp = [=](T const &x, T const &y) { return k & 1 ? strcasecmp(x.v(), y.v()) : memcmp(x.v(), y.v()); };
  int p = cmp(a, b), q = cmp(b, c);
  EN(p == -cmp(b, a), "antisymmetric");
  if (k & 2) { if (p <= 0 && q <= 0) EN(cmp(a, c) <= 0, "transitive"); }
  else if (p == 0) EN(cmp(a, c) == q, "equal texts compare alike");
}
VC(vc_copy) {
  vf_bounded("text of up to 5 bytes");
  T t = text("n", 0, 5, "text");
  char *d = (char *)vf_buffer(t.n, "dst");
  EN(memcpy(d, std::string_view(t.p, t.n)) == d, "returns the destination");
  for (size_t i = 0; i < t.n; ++i) EN(d[i] == t.p[i], "copied");
}
static char rot(char c) { return c ^ 0x55; }
template <typename X> static void walk(T const &t, X const &x, bool id) {
  size_t i = 0;
  auto a = x;
  EN(a == x && !(a != x), "copies are equal");
  while (a) { EN(!a.empty() && i < t.n && *a == (id ? t.p[i] : rot(t.p[i])), "transformed character"); if (i & 1) { auto o = a++; EN(o != a, "moved"); } else ++a; ++i; }
  EN(i == t.n && a.empty(), "every character once");
  i = 0;
  for (char c : x) { EN(i < t.n && c == (id ? t.p[i] : rot(t.p[i])), "iterated character"); ++i; }
  EN(i == t.n, "iteration stops at the end of the source");
}
VC(vc_transform) {
  vf_bounded("text of up to 6 bytes");
  T t = text("n", 0, 6, "text");
  std::string_view sv(t.p, t.n);
  if (vf_pick("identity", 0, 1)) walk(t, transform_view_of(sv), true);
  else { char (*f)(char) = &rot; walk(t, transform_view_of(f, sv), false); }
}
VC(vn_cmp) { T a = text("n", 1, 2, "a"), b = text("m", 1, 2, "b"); EN(memcmp(a.v(), b.v()) <= 0, "control"); }
