// C18: the fixed buffer writer for buffers, extents and data of any size. The memory is not modelled; every copy of
// bytes goes to the stub below, which tracks where the contents of one arbitrary byte of the buffer come from.
// vf-src: bw_format TextView string_view_util MemArena
#include "vf.h"
#include "swoc/BufferWriter.h"
#include "swoc/bwf_base.h"
#include <cstdlib>
using namespace swoc;
typedef FixedBufferWriter W;
static size_t mn(size_t a, size_t b) { return vf_ite(a < b, a, b); }
static char *buf, *data;
static size_t cap, len, gi; // capacity, amount of data, the byte looked at
static char const *from, *want;
static bool copied;
static char saved;
#ifdef VF_NATIVE
static void memory() {
  if (cap > 1 << 16 || len > 1 << 16) vf_stop();
  buf = (char *)malloc(cap), data = (char *)malloc(len);
  for (size_t i = 0; i < cap; ++i) buf[i] = i * 7;
  for (size_t i = 0; i < len; ++i) data[i] = i * 13 + 5;
}
static void expect(char const *src) { saved = *src; }
static bool as_expected() { return buf[gi] == saved; }
#else
static void memory() {
  buf = (char *)vf_abstract(1); data = (char *)vf_abstract(3);
  from = buf + gi; copied = false;
}
static void expect(char const *src) { want = src; }
static bool as_expected() { return from == want; }
extern "C" void *vfstub_memcpy(void *to, void const *src, size_t n) {
  char *t = (char *)to; char const *s = (char const *)src;
  bool inside = vf_and(buf <= t, vf_and(t <= buf + cap, n <= size_t(buf + cap - t)));
  bool own = vf_and(buf <= s, vf_and(s <= buf + cap, n <= size_t(buf + cap - s)));
  bool given = vf_and(data <= s, vf_and(s <= data + len, n <= size_t(data + len - s)));
  EN(vf_or(n == 0, vf_and(inside, vf_or(own, given))), "copies are inside the buffer and the data");
  if (copied && vf_symbolic() && own) vf_give_up("a second copy inside the buffer");
  bool hit = vf_and(t <= buf + gi, size_t(buf + gi - t) < n);
  from = (char const *)vf_ite(hit, (uint64_t)(s + (buf + gi - t)), (uint64_t)from);
  copied = true;
  return to;
}
#endif
static W writer(size_t e) {
  memory();
  size_t less = vf_range("less", 0, size_t(1) << 40);
  W w(buf, cap + less);
  w.restrict(less);
  w.commit(e);
  return w;
}
static void state(W &w, size_t e) {
  EN(w.extent() == e && w.capacity() == cap, "extent is the size of all output, capacity the size of the buffer");
  EN(w.size() == mn(e, cap) && w.remaining() == cap - mn(e, cap), "size is what is held, remaining what is not");
  EN(w.error() == (e > cap) && w.data() == buf, "error if output was lost");
  TextView v = w.view(); std::string_view sv = w;
  EN(vf_and(v.size() == mn(e, cap), sv.size() == mn(e, cap)) && v.data() == buf && sv.data() == buf, "view of the output held");
  if (e < cap) EN(w.aux_data() == buf + e, "unused part of the buffer");
  if (e > cap) EN(w.aux_data() == nullptr, "no unused part if output was lost");
  MemSpan<char> a = w.aux_span();
  EN(a.size() == cap - mn(e, cap), "span of the unused part");
  if (e < cap) EN(a.data() == buf + e, "span of the unused part");
}
static size_t const HUGE_ = size_t(1) << 40;
static size_t sizes() {
  cap = vf_range("capacity", 1, HUGE_);
  gi = vf_range("byte", 0, HUGE_);
  VF_REQUIRES(gi < cap);
  len = vf_range("length", 0, HUGE_);
  return vf_range("extent", 0, size_t(1) << 62);
}
VC(vc_any_write) {
  size_t e = sizes();
  W w = writer(e);
  state(w, e);
  bool in = vf_and(vf_and(e <= gi, gi - e < len), e < cap);
  expect((char const *)vf_ite(in, (uint64_t)data + gi - e, (uint64_t)(buf + gi)));
  BufferWriter *r = nullptr;
  switch (vf_pick("how", 0, 2)) {
  case 0: r = &w.write(data, len); break;
  case 1: r = &w.write(MemSpan<void const>(data, len)); break;
  default: r = &w.write(TextView(data, len)); break;
  }
  EN(r == &w, "returns the writer");
  EN(as_expected(), "a byte of the buffer is the byte of the output at its place, or not changed");
  state(w, e + len);
}
VC(vc_any_copy) {
  size_t e = sizes(), dst = vf_range("dst", 0, HUGE_), src = vf_range("src", 0, HUGE_), n = len, held = mn(e, cap);
  W w = writer(e);
  size_t top = vf_ite(dst < src, src, dst), k = vf_ite(top < held, mn(n, held - top), 0);
  bool in = vf_and(dst <= gi, gi - dst < k);
  expect(buf + vf_ite(in, gi - dst + src, gi));
  EN(&w.copy(dst, src, n) == &w, "returns the writer");
  EN(as_expected(), "copied inside the output, nothing else is changed");
  state(w, e);
}
VC(vc_any_extent) { // commit, discard, restrict, restore, clear, assign
  size_t e = sizes(), n = vf_range("n", 0, size_t(1) << 60);
  W w = writer(e);
  expect(buf + gi);
  switch (vf_pick("op", 0, 6)) {
  case 0: EN(w.commit(n), "commit"); e += n; break;
  case 1: w.discard(n); e -= mn(e, n); break;
  case 2: {
    bool thrown = false;
    size_t c0 = cap;
    try { w.restrict(n); } catch (std::invalid_argument const &) { thrown = true; }
    EN(thrown == (n > c0), "at most the capacity can be taken away");
    if (!thrown) cap -= n;
    break;
  }
  case 3: e = mn(e, cap); w.restore(n); cap += n; break;
  case 4: w.clear(); e = 0; break;
  case 5: { W v(std::move(w)); state(v, e); EN(w.capacity() == 0 && w.extent() == 0, "moved from is empty"); w = std::move(v); EN(v.capacity() == 0 && v.extent() == 0, "moved from is empty"); break; }
  default: w.assign(MemSpan<char>(buf, cap)); e = 0; break;
  }
  EN(as_expected(), "nothing is written");
  if (cap) state(w, e);
  vf_cover("end");
}
VC(vc_any_char) { // one character: the memory is real here
  cap = vf_range("capacity", 1, uint64_t(1) << 32); gi = vf_range("byte", 0, uint64_t(1) << 32);
  VF_REQUIRES(gi < cap);
#ifdef VF_NATIVE
  if (cap > 1 << 16) vf_stop();
#endif
  size_t e = vf_range("extent", 0, size_t(1) << 62);
  buf = (char *)vf_buffer(cap, "buffer");
  W w(buf, cap);
  w.commit(e);
  char c = vf_u8("char"), old = buf[gi];
  if (vf_bool("base")) ((BufferWriter &)w).write(c); else w.write(c);
  EN(buf[gi] == (e == gi ? c : old), "the character is put at its place, if there is one, and nothing else is changed");
  state(w, e + 1);
}
VC(vn_any_write) { // wrong: the last byte is left
  size_t e = sizes();
  W w = writer(e);
  bool in = vf_and(vf_and(e <= gi, gi - e < len), e + 1 < cap);
  expect((char const *)vf_ite(in, (uint64_t)data + gi - e, (uint64_t)(buf + gi)));
  w.write(data, len);
  EN(as_expected(), "wrong");
}
