// C26: FNV-1a hashes. The loop over the data is proved for data of any length by an invariant (attached to the
// comparison of the iterators of the view hashed): the value is that of the algorithm on the elements visited.
// vf-src: TextView string_view_util
// vf-opt vc_pieces32: split=5
// vf-opt vc_pieces64: split=5
#include "vf.h"
#include "swoc/TextView.h"
#include "swoc/ext/HashFNV.h"
#include <cctype>
#include <cstring>
#include <string_view>
using namespace swoc;
using swoc::transform_view_of;
static uint32_t step(uint32_t h, uint8_t b) { return (h ^ b) * uint32_t(0x01000193); }
static uint64_t step(uint64_t h, uint8_t b) { return (h ^ b) * uint64_t(0x00000100000001b3); }
template <typename H> static typename H::value_type val(H const &h) { typename H::value_type v; static_assert(sizeof(h) == sizeof(v), "the state is the value"); memcpy(&v, &h, sizeof(v)); return v; }
template <typename H> static void set(H &h, typename H::value_type v) { memcpy((void *)&h, &v, sizeof(v)); }
template <typename H> static typename H::value_type init() { if constexpr (sizeof(H) == 4) return 0x811c9dc5u; else return 0xcbf29ce484222325ull; }
// ---- the loop, for any number of elements.
namespace {
struct Ghost { // loop invariant, checked and assumed at the test for the end.
  void *h;
  bool wide;
  int phase;         // 0: loop not yet reached, 1: arbitrary iteration, 2: finished
  uint64_t before;   // arbitrary value satisfying the invariant
  uint8_t byte;      // the element of the iteration
  uint8_t want;      // and what the transform makes of it
  unsigned reads;
} G;
uint64_t now() { uint64_t v = 0; memcpy(&v, G.h, G.wide ? 8 : 4); return v; }
struct Iter {
  using value_type = char; using reference = char; using pointer = char const *; using difference_type = ptrdiff_t; using iterator_category = std::input_iterator_tag;
  int kind = 0; // 0 walking, 1 limit
  unsigned at = 0;
  char operator*() const { EN(kind == 0 && G.phase == 1 && at == 0, "only the current element is read"); ++G.reads; return char(G.byte); }
  Iter &operator++() { EN(kind == 0 && G.phase == 1, "stepped once for an element"); ++at; return *this; }
  Iter operator++(int) { Iter z{*this}; ++*this; return z; }
  bool operator!=(Iter const &that) const {
    if (kind == that.kind) return false;
    unsigned a = kind ? that.at : at;
    if (G.phase == 0) { // loop entry
      EN(now() == G.before, "nothing is hashed before the first element");
      G.phase = 1;
      G.before = G.wide ? vf_u64("h") : vf_u32("h"); // any value reached after any number of elements.
      memcpy(G.h, &G.before, G.wide ? 8 : 4);
      if (vf_bool("more")) return true;
      G.phase = 2;
      return false;
    }
    if (G.phase == 1) {
      if (a == 0) return true; // asked again within the iteration
      EN(a == 1, "one step for each element");
      EN(now() == (G.wide ? step(G.before, G.want) : uint64_t(step(uint32_t(G.before), G.want))), "an element makes one FNV-1a step");
      vf_cover("an element");
      vf_stop();
    }
    return false;
  }
  bool operator==(Iter const &that) const { return !(*this != that); }
};
struct View { Iter b, e; Iter begin() const { return b; } Iter end() const { return e; } };
}

template <typename H, typename F> static void loop(F const &xf, uint8_t raw, uint8_t want) {
  H h;
  View v; v.b.kind = 0; v.e.kind = 1;
  G = Ghost{}; G.h = &h; G.wide = sizeof(h) == 8; G.byte = raw; G.want = want;
  G.before = G.wide ? vf_u64("start") : vf_u32("start");
  memcpy(G.h, &G.before, sizeof(h));
  typename H::value_type r = 0;
  if (vf_pick("how", 0, 1) == 0) { auto &z = h.update(xf(v)); EN(&z == &h, "update returns the hash"); r = h.get(); }
  else r = h.hash_immediate(xf(v));
  EN(G.phase == 2, "all of the data is visited");
  EN(r == G.before && now() == G.before && h.final().get() == r, "the value is that of all elements");
  vf_cover("end");
}
static char flip(char c) { return char(~c); }
template <typename H> static void loops() {
  uint8_t c = vf_u8("c");
  switch (vf_pick("transform", 0, 3)) {
  case 0: loop<H>([](View const &v) { return transform_view_of(v); }, c, c); break;
  case 1: loop<H>([](View const &v) { return transform_view_of(&flip, v); }, c, uint8_t(~c)); break;
  case 2: loop<H>([](View const &v) { return transform_view_of(&tolower, v); }, c, vf_ite(vf_and(c >= 'A', c <= 'Z'), c + 32, c)); break;
  default: loop<H>([](View const &v) { return transform_view_of(&toupper, v); }, c, vf_ite(vf_and(c >= 'a', c <= 'z'), c - 32, c));
  }
}
// ---- one byte from any state, by the text interface.
template <typename H> static void one() {
  using V = typename H::value_type;
  V s = sizeof(V) == 8 ? vf_u64("state") : vf_u32("state");
  char c; vf_bytes(&c, 1, "c");
  H h; set(h, s);
  H &r = h.update(std::string_view{&c, 1});
  EN(&r == &h && h.get() == step(s, uint8_t(c)), "a byte of any value makes one FNV-1a step");
  EN(val(h) == h.get() && &h.final() == &h && h.get() == val(h), "finalized");
  H k{h}; EN(k.get() == h.get(), "copy");
  { H e; set(e, s); e.update(std::string_view{}); EN(e.get() == s, "no data does not change the hash"); e.update(transform_view_of(&tolower, std::string_view{})); EN(e.get() == s, "no transformed data"); }
  { char d = char(c ^ (vf_and(vf_or(vf_and(c >= 'a', c <= 'z'), vf_and(c >= 'A', c <= 'Z')), vf_bool("swap case")) << 5));
    H e; set(e, s); H f; set(f, s); e.update(transform_view_of(&tolower, std::string_view{&c, 1})); f.update(transform_view_of(&tolower, std::string_view{&d, 1}));
    EN(e.get() == f.get(), "letter case does not matter when folded to lower case");
    set(e, s); set(f, s); e.update(transform_view_of(&toupper, std::string_view{&c, 1})); f.update(transform_view_of(&toupper, std::string_view{&d, 1}));
    EN(e.get() == f.get(), "letter case does not matter when folded to upper case"); }
  H &q = h.clear(); EN(&q == &h && h.get() == init<H>() && H().get() == init<H>(), "clear returns to the initial state");
  vf_cover("done");
}
// ---- texts in pieces.
template <typename H> static void pieces() {
  vf_bounded("text of up to 5 (thorough: 8) bytes in up to three pieces, every state and bytes");
  using V = typename H::value_type;
  constexpr unsigned N = VF_N(5, 8);
  unsigned n = vf_part(5) + 1;
  if (n == 5) n += vf_pick("more", 0, N - 5);
  if (n == 1) n -= vf_pick("less", 0, 1);
  char t[N]; vf_bytes(t, sizeof(t), "t");
  unsigned i = vf_pick("i", 0, n), j = vf_pick("j", i, n);
  V s = sizeof(V) == 8 ? vf_u64("state") : vf_u32("state");
  V w = s, lo = s, up = s;
  for (unsigned k = 0; k < n; ++k) {
    uint8_t c = t[k];
    w  = step(w, c);
    lo = step(lo, uint8_t(c + (vf_and(c >= 'A', c <= 'Z') << 5)));
    up = step(up, uint8_t(c - (vf_and(c >= 'a', c <= 'z') << 5)));
  }
  std::string_view a{t, i}, b{t + i, j - i}, c{t + j, n - j}, all{t, n};
  { H h; set(h, s); h.update(a).update(b).update(c); EN(h.get() == w, "the division of the text into pieces does not matter"); }
  { H h; set(h, s); EN(h.hash_immediate(all) == w && h.get() == w, "immediate hash"); }
  { H h; set(h, s); h.update(transform_view_of(&tolower, a)).update(transform_view_of(&tolower, b)).update(transform_view_of(&tolower, c)); EN(h.get() == lo, "lower cased text"); }
  { H h; set(h, s); EN(h.hash_immediate(transform_view_of(&toupper, all)) == up, "upper cased text"); }
  { H h; set(h, s); h.update(TextView{all}); EN(h.get() == w, "text view"); }
  { H h; set(h, s); h.update(a).clear().update(all); V z = init<H>(); for (unsigned k = 0; k < n; ++k) z = step(z, uint8_t(t[k])); EN(h.get() == z, "hashing again after clear"); }
  vf_cover("done");
}
VC(vc_loop32) { loops<Hash32FNV1a>(); }
VC(vc_loop64) { loops<Hash64FNV1a>(); }
VC(vc_one32) { one<Hash32FNV1a>(); }
VC(vc_one64) { one<Hash64FNV1a>(); }
VC(vc_pieces32) { pieces<Hash32FNV1a>(); }
VC(vc_pieces64) { pieces<Hash64FNV1a>(); }
VC(vn_step) { Hash32FNV1a h; char c; vf_bytes(&c, 1, "c"); h.update(std::string_view{&c, 1}); EN(h.get() != init<Hash32FNV1a>() * 0x01000193u, "negative control"); }
