// C14: spans slice exactly and never leave the memory they view.
// Slicing contracts use a view whose memory may not be touched at all (vf_opaque) with arbitrary
// element counts and offsets; content contracts use buffers of a stated small size.
// vf-src: TextView
// vf-opt vc_slice_e12: cost=5
// vf-opt vc_align: cost=6
#include "vf.h"
#include "swoc/MemSpan.h"
#include <vector>
#include <string>
#include <array>
using namespace swoc;
struct E12 { uint32_t a, b, c; };
// arbitrary view of up to 2^44 elements
template <typename S, typename E> static S arb(char *&p, size_t &n) {
  p = static_cast<char *>(vf_opaque(1));
  n = vf_range("count", 0, uint64_t(1) << 44);
  return S{reinterpret_cast<E *>(p), n};
}
template <typename S> static bool at(S const &s, char const *p, size_t n, size_t es) {
  return vf_and((char const *)s.data() == p, vf_and(s.size() == n, vf_and(s.count() == n, vf_and(s.length() == n, vf_and(s.data_size() == n * es, (char const *)s.data_end() == p + n * es)))));
}
static size_t mn(size_t a, size_t b) { return vf_ite(a < b, a, b); }
// E: element type the pointer is given as, es: bytes of one element
template <typename S, typename E> static void slices(size_t es) {
  char *p; size_t n;
  S const s = arb<S, E>(p, n);
  size_t k = vf_u64("k");
  size_t m = mn(k, n);
  EN(at(s, p, n, es), "construction");
  EN(s.empty() == (n == 0) && bool(s) == (n != 0) && !s == (n == 0), "empty");
  EN(at(s.prefix(k), p, m, es), "prefix is the first elements");
  EN(at(s.suffix(k), p + (n - m) * es, m, es), "suffix is the last elements");
  { S t{s}; auto &u = t.remove_prefix(k); EN(&u == &t && at(t, p + m * es, n - m, es), "remove_prefix leaves the rest"); }
  { S t{s}; auto &u = t.remove_suffix(k); EN(&u == &t && at(t, p, n - m, es), "remove_suffix leaves the rest"); }
  { S t{s}; S c = t.clip_prefix(k); EN(at(c, p, m, es), "clip_prefix returns the prefix"); EN(t.size() == n - m && (n == m || at(t, p + m * es, n - m, es)), "clip_prefix leaves the rest"); }
  { S t{s}; S c = t.clip_suffix(k); EN(at(c, p + (n - m) * es, m, es), "clip_suffix returns the suffix"); EN(t.size() == n - m && (n == m || at(t, p, n - m, es)), "clip_suffix leaves the rest"); }
  size_t off = vf_u64("offset");
  S w = s.subspan(off, k);
  EN(w.size() == vf_ite(off <= n, mn(k, n - off), 0), "subspan size");
  EN(w.empty() || (char const *)w.data() == p + off * es, "subspan start");
  if (!w.empty()) vf_cover("inner subspan");
  { S t{s}; t.clear(); EN(t.empty() && t.data() == nullptr, "clear"); t = s; EN(at(t, p, n, es), "assignment"); t.assign((E *)p + 1, n); EN(at(t, p + es, n, es), "assign count"); t.assign((E *)p, (E *)(p + n * es)); EN(at(t, p, n, es), "assign pair"); }
  { S t{(E *)p, (E *)(p + n * es)}; EN(at(t, p, n, es), "construction from a pair"); EN(t.is_same(s) && t == s && !(t != s), "same view"); }
  size_t q = vf_range("q", 0, uint64_t(1) << 50);
  E *qp = (E *)(p + q * es);
  EN(s.contains(qp) == (q < n), "contains its elements only");
  if (q > 0) EN(!s.contains((E *)(p - q * es)), "does not contain anything before it");
  S o{(E *)p, n + 1}, o2{(E *)(p + es), n};
  EN(!o.is_same(s) && !o2.is_same(s) && !(o == s) && o != s, "different size differs");
}
VC(vc_slice_u8) { slices<MemSpan<uint8_t>, uint8_t>(1); }
VC(vc_slice_u16) { slices<MemSpan<uint16_t>, uint16_t>(2); }
VC(vc_slice_u32c) { slices<MemSpan<uint32_t const>, uint32_t const>(4); }
VC(vc_slice_e12) { slices<MemSpan<E12>, E12>(12); }
VC(vc_slice_ptr) { slices<MemSpan<void *>, void *>(8); }
struct Byte { char c; };
VC(vc_slice_void) {
  typedef MemSpan<void> S;
  char *p = (char *)vf_opaque(1); size_t n = vf_range("count", 0, uint64_t(1) << 44), k = vf_u64("k"), off = vf_u64("offset"), m = mn(k, n);
  S const s{p, n};
  EN(at(s, p, n, 1), "construction");
  EN(at(s.prefix(k), p, m, 1), "prefix is the first bytes");
  EN(at(s.suffix(k), p + n - m, m, 1), "suffix is the last bytes");
  { S t{s}; auto &u = t.remove_prefix(k); EN(&u == &t && at(t, p + m, n - m, 1), "remove_prefix leaves the rest"); }
  { S t{s}; auto &u = t.remove_suffix(k); EN(&u == &t && at(t, p, n - m, 1), "remove_suffix leaves the rest"); }
  { S t{s}; S c = t.clip_prefix(k); EN(at(c, p, m, 1), "clip_prefix returns the prefix"); EN(t.size() == n - m && (n == m || at(t, p + m, n - m, 1)), "clip_prefix leaves the rest"); }
  { S t{s}; S c = t.clip_suffix(k); EN(at(c, p + n - m, m, 1), "clip_suffix returns the suffix"); EN(t.size() == n - m && (n == m || at(t, p, n - m, 1)), "clip_suffix leaves the rest"); }
  S w = s.subspan(off, k);
  EN(w.size() == vf_ite(off <= n, mn(k, n - off), 0), "subspan size");
  EN(w.empty() || w.data() == p + off, "subspan start");
  size_t q = vf_range("q", 0, uint64_t(1) << 50);
  EN(s.contains(p + q) == (q < n), "contains its bytes only");
  { S t{s}; t.clear(); EN(t.empty() && t.data() == nullptr, "clear"); t.assign(p + 1, n); EN(at(t, p + 1, n, 1), "assign count"); t.assign(p, p + n); EN(at(t, p, n, 1), "assign pair"); S v{p, (void *)(p + n)}; EN(v.is_same(s) && v == s && !(v != s), "same view"); }
}
VC(vc_slice_cvoid) {
  typedef MemSpan<void const> S;
  char const *p = (char *)vf_opaque(1); size_t n = vf_range("count", 0, uint64_t(1) << 44), k = vf_u64("k"), off = vf_u64("offset"), m = mn(k, n);
  S const s{p, n};
  EN(at(s, p, n, 1), "construction");
  EN(s.empty() == (n == 0) && bool(s) == (n != 0) && !s == (n == 0), "empty");
  EN(at(s.prefix(k), p, m, 1), "prefix is the first bytes");
  EN(at(s.suffix(k), p + n - m, m, 1), "suffix is the last bytes");
  { S t{s}; auto &u = t.remove_prefix(k); EN(&u == &t && at(t, p + m, n - m, 1), "remove_prefix leaves the rest"); }
  { S t{s}; auto &u = t.remove_suffix(k); EN(&u == &t && at(t, p, n - m, 1), "remove_suffix leaves the rest"); }
  { S t{s}; S c = t.clip_prefix(k); EN(at(c, p, m, 1), "clip_prefix returns the prefix"); EN(t.size() == n - m && (n == m || at(t, p + m, n - m, 1)), "clip_prefix leaves the rest"); }
  { S t{s}; S c = t.clip_suffix(k); EN(at(c, p + n - m, m, 1), "clip_suffix returns the suffix"); EN(t.size() == n - m && (n == m || at(t, p, n - m, 1)), "clip_suffix leaves the rest"); }
  S w = s.subspan(off, k);
  EN(w.size() == vf_ite(off <= n, mn(k, n - off), 0), "subspan size");
  EN(w.empty() || w.data() == p + off, "subspan start");
  size_t q = vf_range("q", 0, uint64_t(1) << 50);
  EN(s.contains(p + q) == (q < n), "contains its bytes only");
  { S t{s}; t.clear(); EN(t.empty() && t.data() == nullptr, "clear"); t.assign(p + 1, n); EN(at(t, p + 1, n, 1), "assign count"); t.assign(p, p + n); EN(at(t, p, n, 1), "assign pair"); S v{p, (void const *)(p + n)}; EN(v.is_same(s) && v == s && !(v != s), "same view"); }
}
VC(vc_typed_extra) {
  char *p; size_t n;
  MemSpan<uint32_t> const s = arb<MemSpan<uint32_t>, uint32_t>(p, n);
  size_t k = vf_u64("k"), m = mn(k, n);
  EN(at(s.first(k), p, m, 4) && at(s.last(k), p + (n - m) * 4, m, 4), "first and last");
  { MemSpan<uint32_t> t{s}; auto &u = t.restrict(k); EN(&u == &t && at(t, p, m, 4), "restrict keeps a prefix"); }
  size_t i = vf_u64("i");
  VF_REQUIRES(i < n);
  EN((char *)&s[i] == p + i * 4, "element address");
  MemSpan<uint32_t> t{s};
  EN((char *)&t.front() == p && (char *)&t.back() == p + (n - 1) * 4, "front and back");
  EN((char *)t.begin() == p && (char *)t.end() == p + n * 4, "iteration limits");
  MemSpan<uint32_t const> c{t};
  EN(at(c, p, n, 4), "conversion to a constant view");
}
// Conversion between typed and untyped views keeps the memory.
template <typename T> static void conv() {
  char *p; size_t n;
  MemSpan<T> const s = arb<MemSpan<T>, T>(p, n);
  MemSpan<void> v{s};
  MemSpan<void const> cv{s}, cv2{v}, cv3, cv4;
  EN(at(v, p, n * sizeof(T), 1) && at(cv, p, n * sizeof(T), 1) && at(cv2, p, n * sizeof(T), 1), "untyped view covers the same memory");
  MemSpan<void> v2;
  v2 = s; cv3 = s; cv4 = v;
  EN(v2.is_same(v) && cv3.is_same(cv) && cv4.is_same(cv), "assignment from a typed view");
  EN(at(v.template rebind<T>(), p, n, sizeof(T)) && at(cv.template rebind<T const>(), p, n, sizeof(T)), "rebinding back");
  EN(at(s.template rebind<uint8_t>(), p, n * sizeof(T), 1), "rebind to bytes");
  EN(at(s.rebind(), p, n * sizeof(T), 1) && at(s.template rebind<void const>(), p, n * sizeof(T), 1), "rebind to void");
  EN(v.template rebind<void>().is_same(v) && cv.template rebind<void const>().is_same(cv) && v.template rebind<void const>().is_same(cv), "rebind void to void");
}
VC(vc_conv_u8) { conv<uint8_t>(); }
VC(vc_conv_u16) { conv<uint16_t>(); }
VC(vc_conv_u64) { conv<uint64_t>(); }
VC(vc_rebind_multiple) {
  char *p; size_t n;
  auto const s = arb<MemSpan<uint16_t>, uint16_t>(p, n);
  bool thrown = false;
  try { auto t = s.rebind<uint64_t>(); EN(at(t, p, n / 4, 8) && n % 4 == 0, "rebind to larger elements"); vf_cover("whole"); } catch (std::invalid_argument const &) { thrown = true; }
  EN(thrown == (n % 4 != 0), "rebind rejects a partial element");
  thrown = false;
  MemSpan<void> v{p, n};
  try { EN((char *)v.as_ptr<uint64_t>() == p && n == 8, "view as one object"); vf_cover("one"); } catch (std::invalid_argument const &) { thrown = true; }
  EN(thrown == (n != 8), "as_ptr rejects another size");
  thrown = false;
  MemSpan<void const> cv{p, n};
  try { EN((char *)cv.as_ptr<E12>() == p && n == 12, "view as one object"); } catch (std::invalid_argument const &) { thrown = true; }
  EN(thrown == (n != 12), "as_ptr rejects another size");
  thrown = false;
  try { auto t = v.rebind<uint32_t>(); EN(at(t, p, n / 4, 4) && n % 4 == 0, "typed view"); } catch (std::invalid_argument const &) { thrown = true; }
  EN(thrown == (n % 4 != 0), "typed view rejects a partial element");
}
VC(vc_align) {
  unsigned sh = vf_range("shift", 0, 12);
  size_t a = size_t(1) << vf_concretize(sh);
  size_t lo = vf_range("misalign", 0, 4095);
  char *p = static_cast<char *>(vf_opaque(1)) + lo;
  size_t n = vf_range("size", 0, uint64_t(1) << 44), os = vf_pick("object", 1, 4) * 4 - 3;
  uintptr_t base = (uintptr_t)p, pad = (~base + 1) & (a - 1);
  MemSpan<void> const v{p, n};
  MemSpan<void const> const c{p, n};
  auto chk = [&](char const *q, size_t sz, size_t want) {
    EN(((uintptr_t)q & (a - 1)) == 0, "aligned");
    EN(sz == want, "all whole objects that fit after the padding");
    if (sz) { EN(q == p + pad, "first aligned address"); vf_cover("some"); }
  };
  size_t rest = 0;
  if (n > pad) rest = n - pad;
  auto x = v.align(a);
  chk((char *)x.data(), x.size(), rest);
  auto y = c.align(a);
  chk((char *)y.data(), y.size(), rest);
  auto z = v.align(a, os);
  chk((char *)z.data(), z.size(), rest / os * os);
  auto w = c.align(a, os);
  chk((char *)w.data(), w.size(), rest / os * os);
}
VC(vc_align_typed) {
  size_t lo = vf_range("misalign", 0, 4095);
  char *p = static_cast<char *>(vf_opaque(1)) + lo;
  size_t n = vf_range("size", 0, uint64_t(1) << 44);
  MemSpan<void> const v{p, n};
  MemSpan<void const> const c{p, n};
  EN(v.align<E12>().is_same(v.align(alignof(E12), sizeof(E12))) && c.align<E12>().is_same(c.align(alignof(E12), sizeof(E12))), "typed alignment");
  EN(v.align<uint64_t>().is_same(v.align(8, 8)) && c.align<uint16_t>().is_same(c.align(2, 2)), "typed alignment");
}
// contents: two buffers of up to 3 elements
template <typename T> static void content() {
  vf_bounded("views of up to 3 elements");
  size_t n = vf_pick("n", 0, 3), m = vf_pick("m", 0, 3);
  T *a = (T *)vf_buffer(n * sizeof(T), "a"), *b = (T *)vf_buffer(m * sizeof(T), "b");
  MemSpan<T> s{a, n}, t{b, m};
  bool eq = n == m;
  for (size_t i = 0; i < n && i < m; ++i) eq = vf_and(eq, a[i] == b[i]);
  EN((s == t) == eq && (s != t) == !eq, "equal exactly when all elements are equal");
  int r = memcmp(s, t);
  EN((r == 0) == eq, "memcmp is zero exactly for equal contents");
  EN(vf_and(memcmp(s, s) == 0, (memcmp(t, s) == 0) == eq), "memcmp reflexive and symmetric at zero");
  if (sizeof(T) == 1) {
    size_t i = 0;
    while (i < n && i < m && a[i] == b[i]) ++i;
    if (i < n && i < m) EN((r < 0) == (a[i] < b[i]), "memcmp orders by the first difference");
  }
  MemSpan<void const> vs{s}, vt{t};
  EN((vs == vt) == eq && (vs != vt) == !eq, "untyped comparison");
}
VC(vc_content_u8) { content<uint8_t>(); }
VC(vc_content_u16) { content<uint16_t>(); }
VC(vc_content_u32) { content<uint32_t>(); }
template <typename T> static void copying() {
  vf_bounded("views of up to 3 elements");
  size_t n = vf_pick("n", 0, 3), m = vf_pick("m", 0, 3), k = n < m ? n : m;
  T *a = (T *)vf_buffer(n * sizeof(T), "a"), *b = (T *)vf_buffer(m * sizeof(T), "b");
  T olda[3], oldb[3];
  for (size_t i = 0; i < n; ++i) olda[i] = a[i];
  for (size_t i = 0; i < m; ++i) oldb[i] = b[i];
  MemSpan<T> d{a, n};
  MemSpan<T> const s{b, m};
  EN(memcpy(d, s) == a, "memcpy returns the destination");
  for (size_t i = 0; i < n; ++i) EN(a[i] == (i < k ? oldb[i] : olda[i]), "memcpy copies the common length");
  for (size_t i = 0; i < m; ++i) EN(b[i] == oldb[i], "source unchanged");
  T src[3], dst[3];
  for (auto &e : src) e = (T)vf_u64("src");
  T *sp = src;
  memcpy(d, sp);
  for (size_t i = 0; i < n; ++i) EN(a[i] == src[i], "memcpy from memory fills the span");
  T *dp = dst;
  memcpy(dp, d);
  for (size_t i = 0; i < n; ++i) EN(dst[i] == a[i], "memcpy to memory copies the span");
}
VC(vc_copy_u8) { copying<uint8_t>(); }
VC(vc_copy_u16) { copying<uint16_t>(); }
VC(vc_copy_u64) { copying<uint64_t>(); }
VC(vc_copy_view) {
  vf_bounded("views of up to 4 characters");
  size_t n = vf_pick("n", 0, 4), m = vf_pick("m", 0, 4), k = n < m ? n : m;
  char *a = (char *)vf_buffer(n, "a"), *b = (char *)vf_buffer(m, "b");
  char o[4];
  for (size_t i = 0; i < n; ++i) o[i] = a[i];
  std::string_view sv{b, m};
  bool v = vf_bool("void");
  if (v) { MemSpan<void> d{a, n}; memcpy(d, sv); } else { MemSpan<char> d{a, n}; memcpy(d, sv); }
  for (size_t i = 0; i < n; ++i) EN(a[i] == (i < k ? b[i] : o[i]), "copies the text that fits");
}
VC(vc_fill_typed) {
  vf_bounded("views of up to 4 elements");
  size_t n = vf_pick("n", 0, 4), off = vf_pick("off", 0, 4), k = vf_pick("k", 0, 4);
  uint16_t *a = (uint16_t *)vf_buffer(2 * n, "a"), o[4];
  for (size_t i = 0; i < n; ++i) o[i] = a[i];
  uint16_t x = vf_u16("x");
  MemSpan<uint16_t> s{a, n};
  memset(s.subspan(off, k), x);
  for (size_t i = 0; i < n; ++i) EN(a[i] == (i >= off && i - off < k ? x : o[i]), "fills exactly the view");
}
VC(vc_fill_byte) {
  vf_bounded("views of up to 4 bytes");
  size_t n = vf_pick("n", 0, 4);
  uint8_t *a = (uint8_t *)vf_buffer(n, "a");
  uint8_t x = vf_u8("x");
  unsigned how = vf_pick("how", 0, 2);
  if (how == 0) { MemSpan<uint8_t> s{a, n}; memset(s, x); }
  else if (how == 1) { MemSpan<void> s{a, n}; memset(s, char(x)); }
  else { MemSpan<char> s{(char *)a, n}; memset(s, char(x)); }
  for (size_t i = 0; i < n; ++i) EN(a[i] == x, "filled");
}
VC(vc_containers) {
  vf_bounded("containers of the sizes named");
  uint32_t arr[3] = {vf_u32("e"), 1, 2};
  std::array<uint32_t, 2> ar{{5, 6}};
  std::array<uint32_t, 2> const car{{5, 6}};
  std::vector<uint32_t> v{1, 2, 3, 4};
  std::vector<uint32_t> const cv{1, 2, 3};
  MemSpan a{arr}; EN(a.data() == arr && a.count() == 3, "array");
  MemSpan b{ar}; EN(b.data() == ar.data() && b.count() == 2, "std::array");
  MemSpan c{car}; EN(c.data() == car.data() && c.count() == 2, "const std::array");
  MemSpan d{v}; EN(d.data() == v.data() && d.count() == 4, "vector");
  MemSpan e{cv}; EN(e.data() == cv.data() && e.count() == 3, "const vector");
  std::string st{"abcde"};
  MemSpan<char> f{st}; EN(f.data() == st.data() && f.count() == 5, "string");
  MemSpan<void> vv{v}; EN(vv.data() == v.data() && vv.size() == 16, "untyped view of a vector");
  MemSpan<void const> vs{std::string_view{"abc"}}; EN(vs.size() == 3, "untyped view of text");
  MemSpan<void const> va{arr}; EN(va.data() == arr && va.size() == 12, "untyped view of an array");
  MemSpan<char const> lit{"abcd"}; EN(lit.count() == 4, "literal without its terminator");
  MemSpan<uint32_t> nil{nullptr}; EN(nil.empty() && nil.data() == nullptr, "null");
  MemSpan<void> nv{nullptr}; MemSpan<void const> ncv{nullptr}; EN(nv.empty() && ncv.empty() && nv.data() == nullptr, "null");
  uint32_t sum = 0;
  a.apply([&](uint32_t &x) { sum += x; });
  EN(sum == arr[0] + 3, "apply visits every element");
  alignas(8) char mem[16];
  MemSpan<uint64_t> mk{(uint64_t *)mem, 2};
  mk.make(uint64_t(7));
  EN(mk[0] == 7 && mk[1] == 7, "make constructs every element");
  mk.destroy();
}
VC(vn_prefix) {
  char *p; size_t n;
  auto s = arb<MemSpan<uint8_t>, uint8_t>(p, n);
  EN(s.prefix(vf_u64("k")).size() < n, "negative control");
}
