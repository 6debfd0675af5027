// C13: the arena. Histories of allocations with arbitrary sizes and alignments, freezing, thawing, discarding, moving
// and caller supplied memory. Every allocation must be aligned, inside live memory of the arena (written and read
// back at its ends), and apart from every other live allocation; the engine's memory model reports any access to
// released or foreign memory and any free of memory that was not allocated.
// vf-src: MemArena TextView
// vf-opt vc_history: split=4 cost=6
// vf-opt vc_static: split=3 cost=5
// vf-opt vc_alloc1: split=11 cost=4
// vf-opt vt_alloc2: split=6 cost=6 ttimeout=800
// vf-opt vt_alloc3: ttimeout=800
// vf-opt vt_remnant: split=6 cost=6 ttimeout=800
#include "vf.h"
#include "swoc/MemArena.h"
using namespace swoc;
struct A { char *p; uint64_t n; char tag; bool live; };
static A al[8];
static unsigned na;
static bool contents;
static uint64_t maxn;
static char const *const SZ[] = {"n0", "n1", "n2", "n3", "n4", "n5", "n6", "n7"}, *const BITS[] = {"align0", "align1", "align2", "align3", "align4", "align5", "align6", "align7"};
static uint64_t const MAXN = uint64_t(1) << 32; // past the range of int
static void reset(uint64_t m = 1 << 20, bool c = false) { na = 0; maxn = m; contents = c; vf_heap_align(10); }
static void track(MemArena &a, MemSpan<void> m, uint64_t n, uint64_t align) {
  char *p = (char *)m.data();
  EN(m.size() == n, "an allocation has the requested size");
  EN(((uintptr_t)p & (align - 1)) == 0, "an allocation has the requested alignment");
  for (unsigned i = 0; i < na; ++i)
    if (al[i].live) EN(vf_or(p + n <= al[i].p, al[i].p + al[i].n <= p), "live allocations do not overlap");
  EN(a.contains(p) && a.contains(p + n - 1), "the arena contains its allocation");
  char t = 'a' + na;
  if (contents) { p[n - 1] = t; p[0] = t; }
  else { (void)*(char volatile *)(p + n - 1); (void)*(char volatile *)p; } // in bounds
  al[na++] = {p, n, t, true};
}
static uint64_t pick_align(unsigned i, unsigned max) { uint64_t b = vf_pick(BITS[i], 0, max); return uint64_t(1) << b; }
static void allocp(MemArena &a, unsigned bits) {
  unsigned i = na;
  uint64_t n = vf_range(SZ[i], 1, maxn), align = uint64_t(1) << bits;
  uint64_t s0 = a.size(), t0 = a.allocated_size();
  MemSpan<void> m = a.alloc(n, align);
  track(a, m, n, align);
  EN(a.size() == s0 + n && a.allocated_size() == t0 + n, "sizes are the sums of the allocations");
  EN(a.reserved_size() >= a.allocated_size(), "reserved memory covers the allocations");
}
static void alloc(MemArena &a, unsigned max_align = 0) { allocp(a, max_align ? vf_pick(BITS[na], 0, max_align) : 0); }
static void intact() {
  if (!contents) return;
  for (unsigned i = 0; i < na; ++i) if (al[i].live) EN(al[i].p[0] == al[i].tag && al[i].p[al[i].n - 1] == al[i].tag, "live allocations keep their contents");
}
static uint64_t hint(char const *n) { return vf_range(n, 0, maxn); }
VC(vc_alloc1) { // any hint, size and alignment
  reset(MAXN, true);
  MemArena a{hint("hint")};
  EN(a.size() == 0 && a.allocated_size() == 0 && a.remaining() == 0 && a.remnant().empty() && a.reserved_size() == 0, "a new arena reserves nothing");
  allocp(a, vf_part(11));
  intact();
  vf_cover("done");
}
static void first(MemArena &a) { static unsigned const S[] = {1, 24, 1003, 4005, 70000}; unsigned n = S[vf_pick("first", 0, 4)]; track(a, a.alloc(n), n, 1); }
VC(vt_alloc2) {
  vf_bounded("two allocations, the first one of five sizes");
  reset(1 << 20, true);
  MemArena a{hint("hint")};
  first(a); allocp(a, 2 * vf_part(6));
  intact();
}
VC(vt_alloc3) {
  vf_bounded("three allocations");
  reset();
  MemArena a{hint("hint")};
  alloc(a); alloc(a); alloc(a, VF_N(3, 6));
  intact();
  vf_cover("done");
}
VC(vc_remaining) { // the remaining space is really available: no new memory is reserved for it
  vf_bounded("one allocation before, of five sizes");
  reset(1 << 20, true);
  MemArena a{hint("hint")};
  first(a);
  uint64_t r = a.remaining(), z = a.reserved_size();
  EN(a.remnant().size() == r, "the remnant is the remaining space");
  char *p = (char *)a.remnant().data();
  if (r) {
    uint64_t n = vf_range("n", 1, maxn);
    VF_REQUIRES(n <= r);
    MemSpan<void> m = a.alloc(n);
    EN((char *)m.data() == p && a.reserved_size() == z, "allocated from the remnant");
    track(a, m, n, 1);
  }
  intact();
}
VC(vt_remnant) { // require and remnant
  vf_bounded("one allocation before, of five sizes");
  reset(1 << 20, true);
  MemArena a{hint("hint")};
  first(a);
  uint64_t n = vf_range("n", 1, maxn), align = uint64_t(1) << 2 * vf_part(6);
  uint64_t s0 = a.size();
  unsigned k = vf_pick("form", 0, 1);
  MemSpan<void> r;
  if (k == 0) { MemArena &z = a.require(n, align); EN(&z == &a && a.remaining() >= n, "required space remains"); }
  else { r = a.remnant(n, align); EN(r.size() == n && ((uintptr_t)r.data() & (align - 1)) == 0, "aligned remnant"); }
  EN(a.size() == s0, "nothing is allocated by require");
  uint64_t z = a.reserved_size();
  MemSpan<void> m = a.alloc(n, align);
  EN(a.reserved_size() == z, "the required space is used");
  if (k) EN(m.data() == r.data(), "the allocation is the remnant");
  track(a, m, n, align);
  intact();
}
struct Item { uint64_t a, b, c; };
VC(vc_typed) {
  vf_bounded("up to three elements");
  reset(); vf_heap_align(0);
  MemArena a{vf_pick("hint", 0, 1) * 100};
  uint64_t first = vf_range("first", 1, 32); // every offset
  track(a, a.alloc(first), first, 1);
  unsigned n = vf_pick("n", 1, 3);
  MemSpan<Item> r = a.remnant_span<Item>(n);
  EN(r.count() == n && ((uintptr_t)r.data() & (alignof(Item) - 1)) == 0, "typed remnant");
  MemSpan<Item> s = a.alloc_span<Item>(n);
  EN(s.count() == n && s.data() == r.data(), "typed allocation is the remnant");
  track(a, MemSpan<void>(s.data(), s.data_size()), n * sizeof(Item), alignof(Item));
  Item *x = a.make<Item>(Item{1, 2, 3});
  EN(x->a == 1 && x->b == 2 && x->c == 3 && ((uintptr_t)x & (alignof(Item) - 1)) == 0, "made in place");
  for (unsigned i = 0; i < n; ++i) EN(x >= &s[i] + 1 || x + 1 <= &s[i], "apart");
  MemSpan<void> rv = a.remnant_span<void>(5);
  EN(rv.size() == 5 && rv.data() == a.alloc(5).data(), "remnant of bytes");
  x->a = 7;
  intact();
}
VC(vc_localize) {
  vf_bounded("text of up to 4 bytes");
  reset();
  MemArena a;
  unsigned n = vf_pick("n", 0, 4);
  unsigned form = vf_pick("form", 0, 3);
  char *t = (char *)vf_buffer(n + (form & 1), "text"); // a span is not terminated
  if (form & 1) {
    t[n] = 0;
    for (unsigned i = 0; i < n; ++i) VF_REQUIRES(t[i] != 0);
  }
  MemSpan<char> m;
  switch (form) {
  case 0: m = a.localize(MemSpan<char const>(t, n)); break;
  case 1: m = a.localize((char const *)t); break;
  case 2: m = a.localize_c(MemSpan<char const>(t, n)); break;
  default: m = a.localize_c((char const *)t); break;
  }
  unsigned c = form >= 2;
  EN(m.size() == n && a.size() == n + c, "size of the copy");
  for (unsigned i = 0; i < n; ++i) EN(m[i] == t[i], "contents of the copy");
  if (c) EN(m.data()[n] == 0, "terminated");
  EN(m.data() != t, "a copy");
}
static void step(MemArena &a, unsigned op) {
  switch (op) {
  case 0: alloc(a); break;
  case 1: { // a generation ends: everything allocated so far is frozen
    uint64_t t = a.allocated_size() - 0, live = a.size();
    for (unsigned i = 0; i < na; ++i) if (al[i].tag >= 'A' && al[i].tag <= 'Z') al[i].live = false; // older than the previous freeze
    for (unsigned i = 0; i < na; ++i) if (al[i].live) { al[i].tag = al[i].tag - 'a' + 'A'; al[i].p[0] = al[i].tag; al[i].p[al[i].n - 1] = al[i].tag; }
    (void)t;
    EN(&a.freeze(vf_pick("freeze hint", 0, 1) * 5000) == &a && a.size() == 0 && a.allocated_size() == live && a.remaining() == 0, "freeze");
    break;
  }
  case 2: {
    uint64_t sz = a.size();
    for (unsigned i = 0; i < na; ++i) if (al[i].tag >= 'A' && al[i].tag <= 'Z') al[i].live = false;
    EN(&a.thaw() == &a && a.size() == sz && a.allocated_size() == sz, "thaw keeps the active generation");
    EN(a.frozen_begin() == a.frozen_end(), "nothing is frozen after thaw");
    break;
  }
  case 3: { // discard the last allocation
    if (!na || !al[na - 1].live || al[na - 1].tag < 'a') break;
    uint64_t sz = a.size();
    a.discard(MemSpan<void const>(al[na - 1].p, al[na - 1].n));
    bool done = a.size() == sz - al[na - 1].n;
    EN(done || a.size() == sz, "discard takes the span or nothing");
    if (done) al[na - 1].live = false;
    break;
  }
  case 4:
    for (unsigned i = 0; i < na; ++i) if (al[i].tag >= 'a') al[i].live = false;
    EN(a.discard().size() == 0, "discard of everything");
    break;
  case 5:
    for (unsigned i = 0; i < na; ++i) al[i].live = false;
    EN(a.clear(vf_pick("clear hint", 0, 1) * 3000).size() == 0 && a.allocated_size() == 0 && a.reserved_size() == 0 && a.remaining() == 0, "clear releases everything");
    break;
  default: { // move out and back
    uint64_t sz = a.size(), t = a.allocated_size(), z = a.reserved_size(), r = a.remaining();
    MemArena b{std::move(a)};
    EN(b.size() == sz && b.allocated_size() == t && b.reserved_size() == z && b.remaining() == r, "move keeps everything");
    EN(a.size() == 0 && a.allocated_size() == 0 && a.reserved_size() == 0 && a.remaining() == 0, "moved from arena is empty");
    if (vf_pick("use moved from", 0, 1)) { MemSpan<void> m = a.alloc(10); EN(m.size() == 10, "moved from arena is usable"); ((char *)m.data())[9] = 1; }
    a = std::move(b);
    EN(a.size() == sz && a.allocated_size() == t && a.reserved_size() == z && a.remaining() == r, "move assignment keeps everything");
    EN(b.size() == 0 && b.allocated_size() == 0 && b.reserved_size() == 0, "moved from arena is empty");
    break;
  }
  }
  intact();
}
// one arbitrary size at the end of a history of operations, earlier sizes from a list which includes the interesting ones
static unsigned small_(char const *n, unsigned k) { static unsigned const S[] = {8, 4000, 65, 1008, 20000}; return S[vf_pick(n, 0, k - 1)]; }
static void salloc(MemArena &a, char const *nm, unsigned k) {
  uint64_t n = small_(nm, k), s0 = a.size(), t0 = a.allocated_size();
  uint64_t align = n & 1 ? 64 : 1;
  MemSpan<void> m = a.alloc(n, align);
  track(a, m, n, align);
  EN(a.size() == s0 + n && a.allocated_size() == t0 + n, "sizes are the sums of the allocations");
}
static void sstep(MemArena &a, unsigned op, char const *nm, unsigned k) { if (op == 0) { salloc(a, nm, k); intact(); } else step(a, op); }
static void blocks(MemArena const &a) { // iteration over the blocks, as in the documentation
  uint64_t size = 0, used = 0; unsigned n = 0, in[8] = {};
  auto one = [&](MemArena::Block const &b) {
    size += b.size; used += b.allocated; ++n;
    for (unsigned i = 0; i < na; ++i) in[i] += al[i].live && b.data() <= al[i].p && al[i].p + al[i].n <= b.data() + b.allocated;
  };
  for (auto const &b : a) { one(b); EN(n < 12, "active blocks"); }
  for (auto it = a.frozen_begin(); it != a.frozen_end(); ++it) { one(*it); EN(n < 12, "frozen blocks"); }
  EN(size == a.reserved_size() && used >= a.allocated_size(), "the blocks are the reserved memory");
  for (unsigned i = 0; i < na; ++i) EN(in[i] == (al[i].live ? 1u : 0u), "every live allocation is in one block");
}
VC(vc_history) {
  vf_bounded("one allocation, four operations with sizes from a list, one allocation");
  reset(1 << 20, true); vf_heap_align(0);
  MemArena a{vf_pick("hint", 0, 1) * 200};
  salloc(a, "n0", 3);
  unsigned const O = 7;
  sstep(a, (vf_part(4) + 4 * vf_pick("o1", 0, 1)) % O, "n1", VF_N(2, 4));
  sstep(a, vf_pick("o2", 0, O - 1), "n2", VF_N(2, 4));
  sstep(a, vf_pick("o3", 0, O - 1), "n3", VF_N(1, 3));
#ifdef VF_THOROUGH
  sstep(a, vf_pick("o4", 0, O - 1), "n4", 2);
#endif
  salloc(a, "n6", 2);
  intact();
  blocks(a);
}
VC(vc_static) { // memory supplied by the caller
  vf_bounded("caller memory of 64 to 400 bytes, four operations with sizes from a list");
  reset(1 << 20, true); vf_heap_align(0);
  unsigned size = 64 + 168 * vf_pick("size", 0, 2);
  char *buf = (char *)malloc(size);
  {
    MemArena a{MemSpan<void>(buf, size)};
    EN(a.size() == 0 && a.remaining() >= 16 && a.remaining() <= size && a.reserved_size() == a.remaining(), "the memory is used");
    uint64_t r = a.remaining();
    MemSpan<void> m = a.alloc(8);
    EN((char *)m.data() >= buf && (char *)m.data() + 8 <= buf + size && a.remaining() == r - 8, "allocations come from the memory of the caller");
    track(a, m, 8, 1);
    unsigned const O = 7;
    sstep(a, (vf_part(3) + 3 * vf_pick("o1", 0, 2)) % O, "n1", 2);
    sstep(a, vf_pick("o2", 0, O - 1), "n2", VF_N(1, 2));
    sstep(a, vf_pick("o3", 0, O - 1), "n3", 1);
#ifdef VF_THOROUGH
    sstep(a, vf_pick("o4", 0, O - 1), "n4", 2);
#endif
    salloc(a, "n6", 2);
    intact();
  }
  buf[0] = 1; buf[size - 1] = 2; // still live
  free(buf);                     // and not freed by the arena
}
VC(vc_static_small) {
  unsigned size = vf_pick("size", 0, 64);
  alignas(16) static char buf[64];
  bool thrown = false;
  try { MemArena a{MemSpan<void>(buf, size)}; (void)a.size(); } catch (std::domain_error const &) { thrown = true; }
  EN(thrown == (size < 48), "too small memory is rejected");
}
VC(vc_contained) {
  reset(1 << 20, true);
  vf_heap_align(0);
  MemArena::unique_ptr p(nullptr, MemArena::destroyer);
  p.reset(MemArena::construct_self_contained(vf_range("n", 0, 5000)));
  uint64_t s0 = p->size();
  EN(s0 >= sizeof(MemArena) && p->contains(p.get()), "the arena is inside itself");
  alloc(*p);
  EN(vf_or(al[0].p + al[0].n <= (char *)p.get(), (char *)(p.get() + 1) <= al[0].p), "apart from the arena itself");
}
struct Obj { uint64_t v[3]; static int live; Obj(uint64_t x) : v{x, x, x} { ++live; } ~Obj() { --live; } };
int Obj::live = 0;
VC(vc_fixed) { // the fixed size pool: histories of make and destroy
  vf_bounded("six operations");
  Obj::live = 0;
  MemArena a{64};
  FixedArena<Obj> fa{a};
  Obj *o[8] = {nullptr};
  int n = 0, live = 0;
  for (int i = 0; i < 6; ++i) {
    unsigned op = vf_pick("op", 0, 2);
    if (op == 0 || !live) {
      Obj *x = fa.make(i + 1);
      for (int j = 0; j < n; ++j) if (o[j]) EN(x >= o[j] + 1 || x + 1 <= o[j], "live objects do not overlap");
      EN(((uintptr_t)x & (alignof(Obj) - 1)) == 0 && a.contains(x), "aligned and in the arena");
      o[n++] = x; ++live;
    } else {
      int j = op == 1 ? n - 1 : 0;
      while (!o[j]) j += op == 1 ? -1 : 1;
      fa.destroy(o[j]); o[j] = nullptr; --live;
    }
    EN(Obj::live == live, "constructed and destroyed once");
  }
  for (int j = 0; j < n; ++j) if (o[j]) EN(o[j]->v[0] == o[j]->v[2], "contents kept");
  EN(&fa.arena() == &a, "the arena");
  fa.destroy(nullptr);
  fa.clear();
  Obj *y = fa.make(9);
  for (int j = 0; j < n; ++j) if (o[j]) EN(y >= o[j] + 1 || y + 1 <= o[j], "apart after clear");
}
VC(vc_pmr) {
  reset();
  MemArena a;
  std::pmr::memory_resource *r = &a;
  uint64_t n = vf_range("n", 1, maxn), align = pick_align(0, 6);
  void *p = r->allocate(n, align);
  EN(a.size() == n, "allocated from the arena");
  track(a, MemSpan<void>(p, n), n, align);
  r->deallocate(p, n, align);
  intact();
  MemArena b;
  EN(r->is_equal(a) && !r->is_equal(b), "resource identity");
}
VC(vn_overlap) { reset(); MemArena a; alloc(a); al[0].p = (char *)a.remnant().data(); if (a.remaining() > 8) alloc(a); }
