// C23: notes with texts of any length. MemArena::alloc is replaced by its contract (proved for C13): every allocation is
// apart from all others and of the size asked for. Texts are not modelled; where the bytes of a copy come from is tracked.
// vf-src: Errata bw_format TextView string_view_util MemArena
#include "vf.h"
#include "swoc/Errata.h"
#include <cstdlib>
#include <cstring>
using namespace swoc;
typedef Errata::Severity Sev;
static size_t const MOST = size_t(1) << 40;
static char *text[2];
static size_t n[2];
#ifdef VF_NATIVE
static void prepare() {
  for (int k = 0; k < 2; ++k) {
    if (n[k] > 1 << 14) vf_stop();
    text[k] = (char *)malloc(n[k]);
    for (size_t i = 0; i < n[k]; ++i) text[k][i] = 1 + (i * (k + 1)) % 251;
  }
}
static bool is(std::string_view v, int k) { return v.size() == n[k] && v.data() != text[k] && 0 == memcmp(v.data(), text[k], n[k]); }
#else
static char *copy[8]; static size_t size[8]; static char const *from[8]; static unsigned copies;
static void prepare() { for (int k = 0; k < 2; ++k) text[k] = (char *)vf_abstract(1 + k); copies = 0; }
// the text is a whole copy, perhaps of a copy, of text k
static bool is(std::string_view v, int k) {
  if (v.size() != n[k]) return false;
  char const *d = v.data();
  for (unsigned i = copies; i-- > 0;) if (d == copy[i]) d = from[i];
  return v.data() != text[k] && d == text[k];
}
extern "C" {
int vf_is_concrete(uint64_t);
#pragma clang diagnostic ignored "-Wreturn-type-c-linkage"
MemSpan<void> vfstub__ZN4swoc7_1_5_108MemArena5allocEmm(MemArena *, size_t k, size_t) {
  if (vf_is_concrete(k)) return MemSpan<void>(malloc(k), k);
  if (copies >= 8) vf_give_up("more copies");
  size[copies] = k, from[copies] = nullptr;
  copy[copies] = (char *)vf_abstract(8 + copies);
  return MemSpan<void>(copy[copies++], k);
}
void *vfstub_memcpy(void *to, void const *src, size_t k) {
  for (unsigned i = 0; i < copies; ++i)
    if (to == copy[i]) {
      EN(k <= size[i], "copies into the allocation");
      bool ok = false;
      for (int t = 0; t < 2; ++t) if (src == text[t]) { EN(k <= n[t], "copies from the text"); ok = k == n[t]; }
      for (unsigned t = 0; t < copies; ++t) if (src == copy[t]) { EN(k <= size[t], "copies from the note"); ok = k == size[t]; }
      if (!ok) vf_give_up("a part of a text is copied");
      from[i] = (char const *)src;
      return to;
    }
  vf_give_up("copies elsewhere");
  return to;
}
}
#endif
VC(vc_any_note) {
  for (auto &x : n) x = vf_range("n", 1, MOST);
  prepare();
  uint8_t s = vf_u8("severity"), f = vf_u8("filter");
  Errata::FILTER_SEVERITY = Sev(f);
  Errata e;
  bool kept = s >= f;
  unsigned form = vf_pick("form", 0, 1);
  EN(&(form ? e.note(Sev(s), std::string_view(text[0], n[0])) : e.note(std::string_view(text[0], n[0]))) == &e, "returns the report");
  if (form && !kept) { EN(e.length() == 0 && e.severity() == s, "a filtered note only counts for the severity"); vf_cover("filtered"); }
  else {
    EN(e.length() == 1 && is(e.front().text(), 0) && e.front().has_severity() == form, "the note has its own copy of the text");
    e.note(std::string_view(text[1], n[1]));
    EN(e.length() == 2 && is(e.front().text(), 0) && is(e.back().text(), 1), "notes in order");
    Errata o;
    o.note(e);
    EN(o.length() == 2 && is(o.front().text(), 0) && is(o.back().text(), 1), "notes copied in order");
    EN(o.front().text().data() != e.front().text().data() && o.back().text().data() != e.back().text().data(), "with texts of their own");
    EN(o.front().level() == 1 && o.back().level() == 1 && e.front().level() == 0, "one level deeper");
    EN(e.length() == 2 && is(e.front().text(), 0) && is(e.back().text(), 1), "the other report is not changed");
    vf_cover("end");
  }
}
