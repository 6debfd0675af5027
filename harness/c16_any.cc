// C16: trimming and comparing texts of any length. The texts are not modelled: the searches of std::string_view and
// memcmp are replaced by their contract.
// vf-src: TextView string_view_util
#include "text_any.h"
#include "swoc/MemSpan.h"
static char *q;          // another text
static size_t m;         // its size
static size_t differ;    // first place where the texts differ, not before the end of the shorter if there is none
static bool before;      // the character there is less in the first text
static bool tail;        // the second text is the end of the first
#ifdef VF_NATIVE
static void texts() {
  if (n > 1 << 10 || m > 1 << 10) vf_stop();
  p = (char *)malloc(n), q = (char *)malloc(m);
  for (size_t i = 0; i < n; ++i) p[i] = i % 2 ? '\x80' : '\x7f';
  for (size_t i = 0; i < m; ++i) q[i] = tail && n >= m ? p[n - m + i] : i % 2 ? '\x80' : '\x7f';
  if (differ < n && differ < m) q[differ] = before ? '\xff' : '\x01';
  for (differ = 0; differ < n && differ < m && p[differ] == q[differ]; ++differ) {}
  before = differ < n && differ < m && (unsigned char)p[differ] < (unsigned char)q[differ];
  tail = n >= m;
  for (size_t i = 0; tail && i < m; ++i) tail = p[n - m + i] == q[i];
}
#else
static void texts() {
  p = (char *)vf_abstract(1), q = (char *)vf_abstract(3);
  vf_trusted("memcmp is negative, zero or positive as the first byte that differs is less, absent or greater");
  if (n == m) VF_REQUIRES(tail == (differ >= m));
  if (m == 0) VF_REQUIRES(tail);
}
extern "C" {
size_t vfstub__ZNKSt17basic_string_viewIcSt11char_traitsIcEE17find_first_not_ofEcm(std::string_view const *s, char c, size_t from) {
  if (c != key) vf_give_up("search for something else");
  return forward(*s, from);
}
size_t vfstub__ZNKSt17basic_string_viewIcSt11char_traitsIcEE16find_last_not_ofEcm(std::string_view const *s, char c, size_t from) {
  if (c != key) vf_give_up("search for something else");
  return backward(*s, from);
}
int vfstub_memcmp(void const *x, void const *y, size_t k) {
  if (k == 0) return 0;
  bool same = vf_and(x == p, y == q), swapped = vf_and(x == q, y == p);
  if (vf_or(same, swapped)) {
    EN(vf_and(k <= n, k <= m), "no more than both texts is compared");
    if (differ >= k) return 0;
    return before == same ? -int(vf_range("magnitude", 1, 255)) : int(vf_range("magnitude", 1, 255));
  }
  if (n >= m && ((x == p + (n - m) && y == q) || (y == p + (n - m) && x == q)) && k == m) return tail ? 0 : 1;
  vf_give_up("comparison of other parts");
  return 0;
}
}
#endif
VC(vc_any_trim) {
  key = ' ';
#ifdef VF_NATIVE
  other = [](size_t) { return ' '; };
#endif
  matches(); // first and last character which are not trimmed
  size_t left = first_, right = last_ < n ? n - 1 - last_ : n;
  TextView s{(char const *)p, n}, t{s}, u{s};
  EN(&s.ltrim(key) == &s && pos(s, p + left, n - left), "ltrim removes the leading run");
  EN(&t.rtrim(key) == &t && pos(t, p, n - right), "rtrim removes the trailing run");
  EN(&u.trim(key) == &u && (left == n ? u.empty() : pos(u, p + left, n - left - right)), "trim removes both runs");
}
static void pair() {
  n = vf_range("n", 0, uint64_t(1) << 44), m = vf_range("m", 0, uint64_t(1) << 44);
  differ = vf_range("differ", 0, uint64_t(1) << 44), before = vf_bool("before"), tail = vf_bool("tail");
  texts();
}
VC(vc_any_compare) {
  pair();
  TextView a{(char const *)p, n}, b{(char const *)q, m};
  std::string_view x{p, n}, y{q, m};
  size_t k = n < m ? n : m;
  int o = differ < k ? (before ? -1 : 1) : n < m ? -1 : n > m ? 1 : 0;
  switch (vf_pick("form", 0, 3)) {
  case 0: EN(memcmp(x, y) == o && memcmp(y, x) == -o, "order of the first difference, then of the sizes"); break;
  case 1: EN(strcmp(x, y) == o && TextView::LessThan()(a, b) == (o < 0) && TextView::LessThan()(b, a) == (o > 0), "ordering functor"); break;
  case 2: EN((a == b) == (o == 0) && (a != b) == (o != 0) && (x == y) == (o == 0), "equality"); break;
  default: EN(memcmp(x, x) == 0 && memcmp(a, a) == 0 && !TextView::LessThan()(a, a), "identical views"); break;
  }
}
VC(vc_any_affix) {
  pair();
  TextView a{(char const *)p, n};
  std::string_view y{q, m};
  EN(a.starts_with(y) == (m <= n && differ >= m), "starts_with");
  EN(a.ends_with(y) == (m <= n && tail), "ends_with");
}
VC(vc_any_span) { // spans are equal exactly if they have the same elements
  pair();
  MemSpan<char const> a{p, n}, b{q, m};
  MemSpan<void const> v{p, n}, w{q, m};
  bool same = n == m && differ >= n;
  EN((a == b) == same && (a != b) == !same && a == a, "spans");
  EN((v == w) == same && (v != w) == !same && v == v, "spans of bytes");
}
