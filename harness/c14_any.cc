// C14: comparing, copying and filling spans of any size. The memory is not modelled: memcmp, memcpy and memset are
// replaced by their contract.
#include "vf.h"
#include "swoc/MemSpan.h"
#include <cstdlib>
using namespace swoc;
static size_t mn(size_t a, size_t b) { return vf_ite(a < b, a, b); }
static size_t const MOST = size_t(1) << 40;
static char *p, *q;    // two blocks
static size_t n, m;    // their sizes in bytes
static size_t gi;      // an arbitrary byte of the first
static size_t differ;  // first byte where they differ, not before the end of the shorter if there is none
static bool before;    // the byte there is less in the first block
static char const *from, *want;
static bool filled;
static unsigned char fill_, expect_;
#ifdef VF_NATIVE
static void blocks() {
  if (n > 1 << 12 || m > 1 << 12) vf_stop();
  p = (char *)malloc(n), q = (char *)malloc(m);
  for (size_t i = 0; i < n; ++i) p[i] = '\x80';
  for (size_t i = 0; i < m; ++i) q[i] = '\x80';
  if (differ < n && differ < m) q[differ] = before ? '\xff' : '\x01';
  for (differ = 0; differ < n && differ < m && p[differ] == q[differ]; ++differ) {}
  before = differ < n && differ < m && (unsigned char)p[differ] < (unsigned char)q[differ];
}
static void contents() {
  for (size_t i = 0; i < n; ++i) p[i] = i * 7 + i / 256 + 1;
  for (size_t i = 0; i < m; ++i) q[i] = i * 13 + i / 256 + 5;
}
static void expect(char const *s) { expect_ = *s; }
static bool as_expected() { return (unsigned char)p[gi] == expect_; }
static bool is_filled(bool f, unsigned char c) { return !f || (unsigned char)p[gi] == c; }
#else
static void blocks() { p = (char *)vf_abstract(1), q = (char *)vf_abstract(3); }
static void contents() { from = p + gi, filled = false; vf_trusted("memcpy copies, memset fills as many bytes as given"); }
static void expect(char const *s) { want = s; }
static bool as_expected() { return vf_and(!filled, from == want); }
static bool is_filled(bool f, unsigned char c) { return vf_and(filled == f, vf_or(!f, fill_ == c)); }
static bool inside(void const *x, size_t k, char *b, size_t size) { uint64_t o = (uint64_t)x - (uint64_t)b; return vf_and(o <= size, k <= size - o); }
extern "C" {
int vfstub_memcmp(void const *x, void const *y, size_t k) {
  if (k == 0) return 0;
  vf_trusted("memcmp is negative, zero or positive as the first byte that differs is less, absent or greater");
  bool same = vf_and(x == p, y == q), swapped = vf_and(x == q, y == p);
  if (vf_and(x == y, vf_or(vf_and(x == p, k <= n), vf_and(x == q, k <= m)))) return 0;
  if (!vf_or(same, swapped)) vf_give_up("comparison of other parts");
  EN(vf_and(k <= n, k <= m), "no more than both blocks is compared");
  if (differ >= k) return 0;
  return before == same ? -int(vf_range("magnitude", 1, 255)) : int(vf_range("magnitude", 1, 255));
}
void *vfstub_memcpy(void *to, void const *src, size_t k) {
  EN(vf_or(k == 0, vf_and(inside(to, k, p, n), inside(src, k, q, m))), "copies from the source into the destination");
  bool hit = (uint64_t)p + gi - (uint64_t)to < k;
  from = (char const *)vf_ite(hit, (uint64_t)src + ((uint64_t)p + gi - (uint64_t)to), (uint64_t)from);
  return to;
}
void *vfstub_memset(void *to, int c, size_t k) {
  EN(vf_or(k == 0, inside(to, k, p, n)), "fills inside the block");
  bool hit = (uint64_t)p + gi - (uint64_t)to < k;
  filled = vf_or(filled, hit);
  fill_ = vf_ite(hit, (unsigned char)c, fill_);
  return to;
}
}
#endif
template <typename T> static void equal() {
  size_t a = vf_range("a", 0, MOST), b = vf_range("b", 0, MOST);
  n = a * sizeof(T), m = b * sizeof(T);
  differ = vf_range("differ", 0, MOST * sizeof(T)), before = vf_bool("before");
  blocks();
  MemSpan<T> s{(T *)p, a}, t{(T *)q, b};
  MemSpan<T const> cs{s}, ct{t};
  MemSpan<void const> vs{p, n}, vt{q, m};
  bool same = vf_and(a == b, differ >= n);
  switch (vf_pick("form", 0, 3)) {
  case 0: EN((s == t) == same && (s != t) == !same && (t == s) == same && s == s, "equal exactly if of the same size and contents"); break;
  case 1: EN((cs == ct) == same && (cs != ct) == !same, "equal exactly if of the same size and contents, const"); break;
  case 2: EN((vs == vt) == same && (vs != vt) == !same && vs == vs, "equal exactly if of the same size and contents, bytes"); break;
  default: {
    int r = memcmp(s, t);
    EN((r == 0) == same && memcmp(s, s) == 0, "memcmp is zero exactly for equal contents");
    if (differ < n && differ < m) EN((r < 0) == before && (r > 0) == !before, "memcmp orders by the first byte that differs");
  } break;
  }
  vf_cover("end");
}
VC(vc_any_equal_u8) { equal<uint8_t>(); }
VC(vc_any_equal_u32) { equal<uint32_t>(); }
VC(vc_any_equal_u64) { equal<uint64_t>(); }
template <typename T> static void copying() {
  size_t a = vf_range("a", 0, MOST), b = vf_range("b", 0, MOST);
  n = a * sizeof(T), m = b * sizeof(T), gi = vf_range("byte", 0, MOST * 8);
  VF_REQUIRES(gi < n);
  blocks();
  contents();
  MemSpan<T> d{(T *)p, a};
  MemSpan<T> const s{(T *)q, b};
  if (vf_bool("span")) {
    expect((char const *)vf_ite(gi < mn(n, m), (uint64_t)q + gi, (uint64_t)p + gi));
    EN(memcpy(d, s) == (T *)p, "returns the destination");
    EN(as_expected(), "the common length is copied, the rest unchanged");
  } else {
    VF_REQUIRES(m >= n);
    expect(q + gi);
    T *x = (T *)q;
    memcpy(d, x);
    EN(as_expected(), "the span is filled from memory");
  }
  vf_cover("end");
}
VC(vc_any_copy_u8) { copying<uint8_t>(); }
VC(vc_any_copy_u32) { copying<uint32_t>(); }
VC(vc_any_copy_out) {
  size_t a = vf_range("a", 0, MOST), b = vf_range("b", 0, MOST);
  n = a * 4, m = b * 4, gi = vf_range("byte", 0, MOST * 4);
  VF_REQUIRES(vf_and(gi < n, m <= n));
  blocks();
  contents();
  MemSpan<uint32_t> s{(uint32_t *)q, b};
  uint32_t *x = (uint32_t *)p;
  expect((char const *)vf_ite(gi < m, (uint64_t)q + gi, (uint64_t)p + gi));
  memcpy(x, s);
  EN(as_expected(), "exactly the span is copied");
}
VC(vc_any_copy_text) {
  n = vf_range("a", 0, MOST), m = vf_range("b", 0, MOST), gi = vf_range("byte", 0, MOST);
  VF_REQUIRES(gi < n);
  blocks();
  contents();
  std::string_view t{q, m};
  expect((char const *)vf_ite(gi < mn(n, m), (uint64_t)q + gi, (uint64_t)p + gi));
  if (vf_bool("void")) { MemSpan<void> d{p, n}; memcpy(d, t); } else { MemSpan<char> d{p, n}; memcpy(d, t); }
  EN(as_expected(), "the part of the text which fits is copied");
}
VC(vc_any_fill) {
  n = vf_range("a", 0, MOST), m = 0, gi = vf_range("byte", 0, MOST);
  size_t off = vf_range("offset", 0, MOST), k = vf_range("k", 0, MOST);
  VF_REQUIRES(vf_and(gi < n, vf_and(off <= n, k <= n - off)));
  blocks();
  contents();
  uint8_t c = vf_u8("c");
  expect(p + gi);
  bool in = vf_and(gi >= off, gi - off < k);
  switch (vf_pick("how", 0, 2)) {
  case 0: { MemSpan<uint8_t> s{(uint8_t *)p, n}; memset(s.subspan(off, k), char(c)); break; }
  case 1: { MemSpan<char> s{p, n}; memset(s.subspan(off, k), c); break; }
  default: { MemSpan<void> s{p, n}; memset(s.subspan(off, k), char(c)); break; }
  }
  EN(is_filled(in, c) && (in || as_expected()), "the view is filled and nothing else");
}
VC(vn_any_equal) {
  n = vf_range("a", 0, MOST), m = vf_range("b", 0, MOST), differ = vf_range("differ", 0, MOST), before = true;
  blocks();
  EN((MemSpan<char const>(p, n) == MemSpan<char const>(q, m)) == (differ >= n), "wrong: sizes do not matter");
}
