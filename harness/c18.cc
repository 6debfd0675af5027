// C18: buffer writers.
// vf-src: bw_format TextView string_view_util MemArena ArenaWriter
// vf-opt vc_write: split=7
// vf-opt vc_copy: split=6
// vf-opt vc_text_stream: split=5
// vf-opt vc_stream: split=5
// vf-opt vc_print: split=8
// vf-opt vc_string: split=4
// vf-opt vc_arena: split=4
#include "ostream_capture.h"
#include "swoc/BufferWriter.h"
#include "swoc/ArenaWriter.h"
#include "swoc/bwf_base.h"
#include "swoc/bwf_std.h"
using namespace swoc;
typedef FixedBufferWriter W;
static constexpr size_t BIG = ~size_t(0);
// A writer in an arbitrary state: a buffer of c0 bytes, capacity reduced to c, any extent.
struct S { size_t c0, c, e; char *b; char old[8]; };
static void check(W &w, S const &s, size_t e, size_t c) { // the observers
  EN(w.extent() == e && w.capacity() == c, "extent is the size of all output, capacity the size of the buffer");
  EN(w.size() == (e < c ? e : c) && w.remaining() == c - (e < c ? e : c), "size is what is held, remaining what is not");
  EN(w.error() == (e > c), "error if output was lost");
  EN(w.data() == s.b, "the buffer");
  TextView v = w.view(); std::string_view sv = w; TextView tv = w;
  EN(v.size() == w.size() && (v.empty() || v.data() == s.b) && sv.size() == v.size() && tv.size() == v.size() && sv.data() == v.data(), "view of the output held");
  if (e < c) EN(w.aux_data() == s.b + e, "unused part of the buffer");
  MemSpan<char> a = w.aux_span();
  EN(a.size() == (e < c ? c - e : 0) && (a.empty() || a.data() == s.b + e), "span of the unused part");
  if (e > c) EN(w.aux_data() == nullptr, "no unused part if output was lost");
}
template <typename F> static void with(unsigned c0, F f) {
  S s;
  s.c0 = c0;
  s.c = vf_pick("capacity", 0, c0);
  s.b = (char *)vf_buffer(c0, "buffer");
  for (size_t i = 0; i < c0; ++i) s.old[i] = s.b[i];
  s.e = vf_pick("extent", 0, c0 + 2);
  if (s.e == c0 + 2) s.e = vf_range("more", c0 + 2, BIG >> 1);
  W w(s.b, c0);
  w.restrict(c0 - s.c);
  w.commit(s.e);
  check(w, s, s.e, s.c);
  f(w, s);
}
template <typename G> static void bytes(S const &s, G g, char const *) {
  bool same = true;
  for (size_t i = 0; i < s.c0; ++i) same = vf_and(same, s.b[i] == g(i));
  EN(same, "exactly the documented bytes of the buffer change");
}
VC(vc_write) {
  vf_bounded("buffers of up to 6 bytes, up to 8 bytes written at once, any extent");
  with(vf_part(7), [](W &w, S const &s) {
    unsigned how = vf_pick("how", 0, 4);
    size_t n = how == 0 ? 1 : vf_pick("n", 0, 8);
    char *d = (char *)vf_buffer(n, "data");
    BufferWriter &v = w;
    switch (how) {
    case 0: EN(&w.write(d[0]) == &w, "returns the writer"); break;
    case 1: EN(&w.write(d, n) == &w, "returns the writer"); break;
    case 2: w.write(MemSpan<void const>(d, n)); break;
    case 3: v.write(MemSpan<void const>(d, n)); break;
    default: v.BufferWriter::write((void const *)d, n); break; // base class, by character
    }
    bytes(s, [&](size_t i) { return i >= s.e && i < s.c && i - s.e < n ? d[i - s.e] : s.old[i]; }, "");
    check(w, s, s.e + n, s.c);
  });
}
VC(vc_stream) { // a writer put in a stream
  vf_bounded("buffers of up to 4 bytes, any extent");
  with(vf_part(5), [](W &w, S const &s) {
    std::ostream &os = the_stream();
    size_t n = s.e < s.c ? s.e : s.c;
    switch (vf_pick("how", 0, 2)) {
    case 0: EN(&(w >> os) == &os, "returns the stream"); break;
    case 1: EN(&std::operator<<(os, w) == &os, "returns the stream"); break;
    default: EN(&std::operator<<(os, (BufferWriter const &)w) == &os, "returns the stream"); break;
    }
    EN(streamed(s.old, n), "exactly the output held is inserted");
    bytes(s, [&](size_t i) { return s.old[i]; }, "");
    check(w, s, s.e, s.c);
  });
}
VC(vc_text_stream) { // a text put in a stream, with a field width
  vf_bounded("texts of up to 4 bytes, field widths of up to 24");
  unsigned n = vf_part(5);
  char *t = (char *)vf_buffer(n, "text");
  std::ostream &os = the_stream();
  unsigned w = vf_pick("width", 0, 24), adjust = vf_pick("adjust", 0, 3);
  char fill = vf_u8("fill");
  bool good = w % 5 || !vf_bool("failed");
  os.width(w);
  os.fill(fill);
  os.setf(adjust == 1 ? std::ios_base::left : adjust == 2 ? std::ios_base::right : adjust == 3 ? std::ios_base::internal : std::ios_base::fmtflags(), std::ios_base::adjustfield);
  if (!good) os._M_streambuf_state |= std::ios_base::failbit;
  EN(&std::operator<<(os, TextView(t, n)) == &os, "returns the stream");
  char want[32]; unsigned k = 0;
  unsigned pad = w > n ? w - n : 0;
  if (good) {
    if (adjust != 1) while (k < pad) want[k++] = fill;
    for (unsigned i = 0; i < n; ++i) want[k++] = t[i];
    if (adjust == 1) while (k < pad + n) want[k++] = fill;
    EN(os.width() == 0, "the width is used up");
  }
  EN(streamed(want, k), "the text padded with the fill character to the width of the stream at the requested side");
}
VC(vc_extent) {
  vf_bounded("buffers of up to 4 bytes, any extent and count");
  with(vf_pick("size", 0, 4), [](W &w, S const &s) {
    uint64_t n = vf_u64("n");
    size_t e = s.e, c = s.c;
    switch (vf_pick("op", 0, 6)) {
    case 0: VF_REQUIRES(n < BIG >> 1); EN(w.commit(n), "commit is final"); e += n; break;
    case 1: EN(&w.discard(n) == &w, "returns the writer"); e -= vf_ite(n < e, n, e); break;
    case 2: VF_REQUIRES(n <= c); n = vf_concretize(n); EN(&w.restrict(n) == &w, "returns the writer"); c -= n; break;
    case 3: VF_REQUIRES(n <= s.c0 - c); n = vf_concretize(n); EN(&w.restore(n) == &w, "returns the writer"); if (e > c) e = c; c += n; break;
    case 4: EN(&w.clear() == &w, "returns the writer"); e = 0; break;
    case 5: { W x(std::move(w)); check(x, s, e, c); EN(w.extent() == 0 && w.capacity() == 0 && w.size() == 0 && !w.error(), "moved from"); w.write('x'); EN(w.extent() == 1 && w.error(), "moved from is empty"); bytes(s, [&](size_t i) { return s.old[i]; }, ""); return; }
    default: { char z[2]; W x(z, 2); x.write("ab", 2); x = std::move(w); check(x, s, e, c); EN(w.extent() == 0 && w.capacity() == 0, "moved from"); EN(z[0] == 'a' && z[1] == 'b', "the previous buffer stays"); return; }
    }
    check(w, s, e, c);
    bytes(s, [&](size_t i) { return s.old[i]; }, "");
  });
}
VC(vc_copy) {
  vf_bounded("buffers of up to 5 bytes, offsets up to 7 and the largest, any extent");
  with(vf_part(6), [](W &w, S const &s) {
    size_t dst = vf_pick("dst", 0, 8), src = vf_pick("src", 0, 8), n = vf_pick("n", 0, 8);
    if (dst == 8) dst = BIG;
    if (src == 8) src = BIG;
    if (n == 8) n = BIG;
    size_t lim = s.e < s.c ? s.e : s.c;
    EN(&w.copy(dst, src, n) == &w, "returns the writer");
    bytes(s, [&](size_t i) { return i < lim && i >= dst && i - dst < n && src < lim && i - dst < lim - src ? s.old[src + (i - dst)] : s.old[i]; }, "");
    check(w, s, s.e, s.c);
  });
}
VC(vc_null) { // a writer without a buffer has no room
  size_t n = vf_u64("size");
  bool thrown = false, none = false;
  try { FixedBufferWriter w(nullptr, n); none = w.capacity() == 0 && w.remaining() == 0 && w.size() == 0; w.write('x'); none = none && w.extent() == 1 && w.size() == 0 && w.error(); } catch (std::invalid_argument const &) { thrown = true; }
  EN(vf_and(thrown == (n != 0), vf_or(thrown, none)), "a size without a buffer is refused");
  FixedBufferWriter z(nullptr);
  z.write("text", 4);
  EN(z.capacity() == 0 && z.size() == 0 && z.extent() == 4 && z.error(), "counting only");
  vf_cover("null");
}
VC(vc_make) {
  char b[4] = {'w', 'x', 'y', 'z'};
  S s{4, 4, 0, b, {}};
  { W w(b, 4); check(w, s, 0, 4); }
  { W w{MemSpan<char>(b, 4)}; check(w, s, 0, 4); }
  { W w{MemSpan<void>(b, 4)}; check(w, s, 0, 4); w.write("0123", 4); w.assign(MemSpan<char>(b, 2)); check(w, s, 0, 2); w.write("9876", 4); check(w, s, 4, 2); EN(b[0] == '9' && b[1] == '8' && b[2] == '2' && b[3] == '3', "assigned buffer"); }
  { W w(nullptr); EN(w.capacity() == 0 && w.extent() == 0 && w.view().empty(), "no buffer"); w.write("abc", 3); w.write('d'); EN(w.extent() == 4 && w.size() == 0 && w.error(), "measures the output"); w.copy(0, 1, 2); w.discard(4); EN(!w.error(), "nothing lost any more"); }
  LocalBufferWriter<3> l;
  l.write("ab", 2);
  EN(l.view() == "ab" && l.capacity() == 3 && !l.error(), "local buffer");
  l.write("cd", 2);
  EN(l.view() == "abc" && l.extent() == 4 && l.error(), "local buffer overflow");
  vf_cover("end");
}
VC(vc_aux) { // write in the unused part, then commit
  vf_bounded("buffers of up to 6 bytes");
  with(vf_pick("size", 0, 6), [](W &w, S const &s) {
    MemSpan<char> a = w.aux_span();
    size_t n = vf_pick("n", 0, 6);
    VF_REQUIRES(n <= a.size());
    char *d = (char *)vf_buffer(n, "data");
    for (size_t i = 0; i < n; ++i) a[i] = d[i];
    EN(w.commit(n), "final");
    bytes(s, [&](size_t i) { return i >= s.e && i - s.e < n ? d[i - s.e] : s.old[i]; }, "");
    check(w, s, s.e + n, s.c);
  });
}
// Output to a limited buffer is the prefix of the output to an unlimited one.
template <typename... A> static void prefix(size_t cap, TextView fmt, A const &...a) {
  char all[64];
  W full(all, sizeof all);
  full.print(fmt, a...);
  EN(!full.error(), "the format is small enough for the reference buffer");
  char *b = (char *)vf_buffer(cap, "limited");
  W w(b, cap);
  w.print(fmt, a...);
  EN(w.extent() == full.extent(), "the extent is the size of the whole output");
  size_t n = full.extent() < cap ? full.extent() : cap;
  EN(w.size() == n && w.error() == (full.extent() > cap), "the longest prefix that fits is held");
  bool same = true;
  for (size_t i = 0; i < n; ++i) same = vf_and(same, b[i] == all[i]);
  EN(same, "it is identical to the output that is not limited");
}
VC(vc_print) {
  vf_bounded("the listed formats, buffers of up to 14 bytes, strings of 3 arbitrary bytes");
  size_t cap = vf_pick("capacity", 0, 14);
  char *d = (char *)vf_buffer(3, "text");
  TextView t((char const *)d, 3);
  int v = -1234;
  unsigned u = 48879;
  switch (vf_part(8)) {
  case 0: prefix(cap, "{}", t); prefix(cap, "ab{}cd", t); prefix(cap, "{}{}", t, t); prefix(cap, "{{{}}}", t); prefix(cap, "{1}-{0}", t, v); break;
  case 1: prefix(cap, "{:>8}", t); prefix(cap, "ab{:>6}cd", t); break;
  case 2: prefix(cap, "{:<8}|", t); prefix(cap, "{:*^9}|", t); break;
  case 3: prefix(cap, "{:=^10}{}", t, t); prefix(cap, "x{:#>7}", t); break;
  case 4: prefix(cap, "{:>8,2}", t); prefix(cap, "{:,2}|{}", t, u); break;
  case 5: prefix(cap, "{}", v); prefix(cap, "{:>9}", v); prefix(cap, "{:#x}|{:b}", u, 5); prefix(cap, "{:08}", v); break;
  case 6: prefix(cap, "{:.2}", 1.5); prefix(cap, "{}{}{}", true, 'c', nullptr); prefix(cap, "{:^7}{:_>4}", 'c', 12); break;
  default: prefix(cap, "{0:>5}{0:<5}{0}", t); prefix(cap, "{:>4}{:>4}{:>4}", 1, 22, 333); prefix(cap, "{:x}", MemSpan<void const>(d, 3)); break;
  }
}
static bool eq(std::string const &s, TextView v) {
  if (s.size() != v.size()) return false;
  bool same = s.data()[s.size()] == 0;
  for (size_t i = 0; i < v.size(); ++i) same = vf_and(same, s[i] == v[i]);
  return same;
}
VC(vc_string) {
  vf_bounded("strings of the listed lengths");
  static unsigned const L[] = {0, 1, 7, 15, 16, 24, 31, 40};
  unsigned part = vf_part(4), n = L[vf_pick("previous", 0, 7)], m = L[vf_pick("argument", 0, 7)];
  std::string s(n, 'p');
  if (part & 1) { s.reserve(33); }
  char *d = (char *)vf_buffer(m, "text");
  TextView t((char const *)d, m);
  char all[128];
  W full(all, sizeof all);
  if (part < 2) { full.print("<{}>{:>3}", t, 5); bwprint(s, "<{}>{:>3}", t, 5); EN(eq(s, full.view()), "the string is exactly the output"); }
  else { full.write(s); full.print("{}|{}", t, 5); bwappend(s, "{}|{}", t, 5); EN(eq(s, full.view()), "the string is the previous text then the output"); }
}
// A writer on an arena grows, nothing is lost.
VC(vc_arena) {
  vf_bounded("up to four writes of the listed sizes");
  static unsigned const L[] = {0, 1, 30, 300};
  MemArena arena;
  unsigned first = vf_part(4);
  if (first & 1) arena.alloc(5);
  char pat[1024];
  for (unsigned i = 0; i < sizeof pat; ++i) pat[i] = char(i * 7 + (i >> 8));
  char *d = (char *)vf_buffer(4, "data");
  ArenaWriter w(arena);
  BufferWriter &v = w;
  size_t n = 0;
  for (unsigned k = 0; k < 4; ++k) {
    unsigned z = k == 0 && first < 2 ? 7 : L[vf_pick("length", 0, 3)];
    if (first >= 2 && k == 1) { v.write(d[0]); pat[n] = d[0]; z = 1; }
    else if (k == 2) {
      if (!v.commit(z)) { EN(v.extent() == n && v.remaining() >= z, "not committed, but there is space now"); EN(v.commit(z), "retry"); }
      for (unsigned i = 0; i < z; ++i) const_cast<char *>(v.data())[n + i] = pat[n + i];
    } else v.write(pat + n, z);
    n += z;
    EN(w.extent() == n && w.size() == n && !w.error() && w.capacity() >= n, "everything is held");
  }
  bool same = true;
  for (size_t i = 0; i < n; ++i) same = vf_and(same, w.data()[i] == pat[i]);
  EN(same, "the output is what was written");
  size_t before = arena.size();
  EN(before == (first & 1 ? 5 : 0), "nothing is allocated by the writer");
  MemSpan<char> got = arena.alloc(n).rebind<char>();
  EN(n == 0 || got.data() == w.data(), "the next allocation is the output");
}
VC(vc_arena_full) { // filled exactly, then one more
  vf_bounded("memory of the arena filled exactly, then one byte more in each way");
  static char own[256];
  MemArena arena{MemSpan<char>{own, sizeof own}};
  if (vf_bool("used")) arena.alloc(200);
  ArenaWriter w(arena);
  BufferWriter &v = w;
  size_t n = 0;
  static char pat[12000];
  for (unsigned i = 0; i < sizeof pat / 50; ++i) memset(pat + 50 * i, int(i * 7 + 1), 50);
  v.write(pat[n++]);
  EN(w.extent() == n && !w.error() && w.capacity() >= n, "first byte is held");
  unsigned rounds = 0;
  do {
    size_t r = v.remaining();
    if (r + n + 1 > sizeof pat) vf_stop();
    if (vf_bool("whole") || r > 256) { v.write(pat + n, r); n += r; } else while (r--) { v.write(pat[n]); ++n; }
    EN(w.extent() == n && w.capacity() == n && v.remaining() == 0 && !w.error(), "filled exactly");
    switch (vf_pick("how", 0, 2)) {
    case 0: v.write(pat[n]); break;
    case 1: v.write(pat + n, 1); break;
    default: EN(!v.commit(1), "no space to commit"); EN(v.remaining() >= 1, "but now there is"); const_cast<char *>(v.data())[n] = pat[n]; EN(v.commit(1), "retry"); break;
    }
    ++n;
    EN(w.extent() == n && w.size() == n && !w.error() && w.capacity() >= n, "one more byte is held");
  } while (++rounds < 2);
  EN(memcmp(w.data(), pat, n) == 0, "the output is what was written");
  MemSpan<char> got = arena.alloc(n).rebind<char>();
  EN(got.data() == w.data(), "the next allocation is the output");
  vf_cover("done");
}
