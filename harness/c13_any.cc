// C13: copies of texts of any length into an arena. MemArena::alloc is replaced by its contract (proved in c13_local.cc):
// it returns memory of the size asked for, here a real block for the terminator, whose other bytes are tracked.
// vf-src: MemArena
#include "vf.h"
#include "swoc/MemArena.h"
#include <cstdlib>
using namespace swoc;
static size_t const MOST = size_t(1) << 31;
static char *text, *mem;
static size_t n, asked, gi; // gi: an arbitrary byte of the text
static char const *from;
#ifdef VF_NATIVE
static void prepare() {
  if (n > 1 << 26) vf_stop();
  text = (char *)malloc(n);
  for (size_t i = 0; i < n; ++i) text[i] = 1 + i % 251;
}
static bool copied(MemSpan<char> m) { return m[gi] == text[gi] && m.data() != text; }
#else
static void prepare() { text = (char *)vf_abstract(1); }
static bool copied(MemSpan<char> m) { return vf_and(from == text + gi, vf_and(m.data() == mem, gi < m.size())); }
extern "C" {
#pragma clang diagnostic ignored "-Wreturn-type-c-linkage"
MemSpan<void> vfstub__ZN4swoc7_1_5_108MemArena5allocEmm(MemArena *, size_t k, size_t) {
  if (mem) vf_give_up("a second allocation");
  asked = k;
  mem = (char *)vf_buffer(k, "allocation");
  return MemSpan<void>(mem, k);
}
void *vfstub_memcpy(void *to, void const *src, size_t k) {
  uint64_t o = (uint64_t)to - (uint64_t)mem, f = (uint64_t)src - (uint64_t)text;
  EN(vf_or(k == 0, vf_and(vf_and(o <= asked, k <= asked - o), vf_and(f <= n, k <= n - f))), "copies from the text into the allocation");
  from = (char const *)vf_ite(vf_and(o <= gi, gi - o < k), (uint64_t)src + (gi - o), (uint64_t)from);
  return to;
}
size_t vfstub_strlen(char const *s) { if (s != text) vf_give_up("length of something else"); return n; }
}
#endif
VC(vc_any_localize) {
  mem = nullptr, from = nullptr;
  n = vf_range("n", 1, MOST), gi = vf_range("byte", 0, MOST);
  VF_REQUIRES(gi < n);
  prepare();
  MemArena a;
  MemSpan<char const> s{text, n};
  bool c = vf_bool("terminated");
  MemSpan<char> m = c ? a.localize_c(s) : a.localize(s);
  EN(m.size() == n, "size of the copy");
  EN(copied(m), "each byte is that of the text");
  if (c) EN(m.data()[n] == 0, "terminated");
#ifndef VF_NATIVE
  EN(asked == n + c, "takes the room needed");
#endif
  vf_cover("end");
}
