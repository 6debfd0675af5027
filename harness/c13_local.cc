// C13: the step contracts. An arena in an arbitrary state: any number of blocks up to the stated one with arbitrary
// sizes and fill levels, any hint. One allocation takes bytes of one block after everything already allocated there,
// or of a new block, and changes nothing else. With the invariant (fill level at most size, blocks apart) kept by every
// operation this is the induction step for histories of any length.
// vf-src: MemArena TextView
// vf-opt vc_step_alloc: split=11 cost=4
// vf-opt vc_step_require: split=6 cost=4
#include "vf.h"
#include "swoc/MemArena.h"
using namespace swoc;
using Block = MemArena::Block;
struct B { Block *b; uint64_t size, used; };
static B bk[8];
static unsigned nb;
static char const *const ZN[] = {"size0", "size1", "size2"}, *const UN[] = {"used0", "used1", "used2"};
static uint64_t const LIM = uint64_t(1) << 36;
// Only the headers of the blocks are memory here: allocation must not touch the storage it hands out.
static Block *block(unsigned i, uint64_t size, uint64_t used, bool real) {
  Block *b = new (malloc(real ? sizeof(Block) + size : sizeof(Block))) Block(size);
  b->allocated = used;
  bk[i] = {b, size, used};
  return b;
}
// The contract of MemArena::make_block, proved in c13_block.cc (vc_make_block): a new empty block with room for n bytes, on no
// list, counted as reserved. Its storage is header only as for the others.
static Block *made;
extern "C" Block *vfstub__ZN4swoc7_1_5_108MemArena10make_blockEm(MemArena *a, size_t n) {
  vf_heap_align(9);
  made = new (malloc(sizeof(Block))) Block(vf_range("new size", 0, LIM << 2));
  vf_heap_align(0);
  VF_REQUIRES(made->size >= n);
  a->_active_reserved += made->size;
  a->_reserve_hint = 0;
  return made;
}
static void state(MemArena &a, unsigned max, bool real = false) {
  nb = vf_pick("blocks", 0, max);
  made = nullptr;
  for (unsigned i = 0; i < nb; ++i) {
    uint64_t size = vf_range(ZN[i], 0, real ? 1 << 24 : LIM), used = vf_range(UN[i], 0, LIM);
    VF_REQUIRES(used <= size);
    a._active.append(block(i, size, used, real));
  }
  a._active_allocated = vf_range("allocated", 0, LIM << 2); a._active_reserved = vf_range("reserved", 0, LIM << 2);
  a._frozen_allocated = vf_range("frozen", 0, LIM);
  a._reserve_hint = vf_range("hint", 0, LIM);
}
static bool listed(MemArena &a, Block *b) { for (auto &x : a._active) if (&x == b) return true; return false; }
static unsigned count(MemArena &a) { // both directions agree
  unsigned n = 0; Block *prev = nullptr;
  for (Block *b = a._active.head(); b && n < 8; b = b->_link._next) { EN(b->_link._prev == prev, "back link"); prev = b; ++n; }
  EN(a._active.tail() == prev && a._active.count() == n, "list ends and count");
  return n;
}
static Block *added(MemArena &a) { for (auto &x : a._active) { bool old = false; for (unsigned i = 0; i < nb; ++i) old = old || bk[i].b == &x; if (!old) return &x; } return nullptr; }
static void done(MemArena &a) { while (a._active.head()) { Block *b = a._active.take_head(); free(b); } }
VC(vc_step_alloc) {
  vf_bounded("up to three active blocks");
  nb = 0; vf_heap_align(0);
  MemArena a;
  state(a, VF_N(2, 3));
  uint64_t n = vf_range("n", 0, LIM), align = uint64_t(1) << vf_part(11), s0 = a.size(), z0 = a.reserved_size();
  MemSpan<void> m = a.alloc(n, align);
  char *p = (char *)m.data();
  EN(m.size() == n && ((uintptr_t)p & (align - 1)) == 0, "size and alignment");
  EN(a.size() == s0 + n, "size is counted");
  Block *nw = added(a);
  EN(count(a) == nb + (nw ? 1 : 0), "no block is lost");
  for (unsigned i = 0; i < nb; ++i) EN(listed(a, bk[i].b) && bk[i].b->size == bk[i].size, "blocks are kept");
  EN(a.reserved_size() == z0 + (nw ? nw->size : 0), "reserved size");
  unsigned used = 0;
  for (unsigned i = 0; i < nb; ++i) {
    Block *b = bk[i].b;
    EN(b->allocated <= b->size, "fill level is at most the size");
    if (b->allocated == bk[i].used) continue;
    ++used;
    EN(p >= b->data() + bk[i].used && p + n == b->data() + b->allocated, "after everything allocated before");
    EN(p < b->data() + bk[i].used + align, "minimal padding");
  }
  if (nw) {
    EN(used == 0 && nw->allocated <= nw->size && p >= nw->data() && p + n == nw->data() + nw->allocated && p < nw->data() + align, "in the new block");
  } else EN(used == 1 || n == 0, "exactly one block is used");
  vf_cover("done");
  done(a);
}
VC(vc_step_require) {
  vf_bounded("up to two active blocks");
  nb = 0; vf_heap_align(0);
  MemArena a;
  state(a, 2);
  uint64_t n = vf_range("n", 0, LIM), align = uint64_t(1) << 2 * vf_part(6), s0 = a.size();
  MemSpan<void> r = a.remnant(n, align);
  EN(r.size() == n && ((uintptr_t)r.data() & (align - 1)) == 0, "aligned remnant of the size");
  EN(a.size() == s0, "nothing is allocated");
  for (unsigned i = 0; i < nb; ++i) EN(listed(a, bk[i].b) && bk[i].b->size == bk[i].size && bk[i].b->allocated == bk[i].used, "blocks unchanged");
  EN(count(a) <= nb + 1, "at most one new block");
  EN(a.remaining() >= n && a.remaining() == a._active.head()->size - a._active.head()->allocated, "the head block has it");
  uint64_t z = a.reserved_size();
  MemSpan<void> m = a.alloc(n, align);
  EN(m.data() == r.data() && a.reserved_size() == z, "the allocation is the remnant");
  done(a);
}
VC(vc_step_discard) { // of a span: the last bytes of a block or nothing
  vf_bounded("up to three active blocks");
  nb = 0; vf_heap_align(0);
  MemArena a;
  state(a, 3, true);
  VF_REQUIRES(nb > 0);
  unsigned i = vf_pick("of", 0, nb - 1);
  uint64_t off = vf_range("off", 0, LIM), n = vf_range("n", 1, LIM), s0 = a.size();
  VF_REQUIRES(off + n <= bk[i].used);
  EN(&a.discard(MemSpan<void const>(bk[i].b->data() + off, n)) == &a, "returns the arena");
  EN(count(a) == nb, "no block is lost");
  for (unsigned j = 0; j < nb; ++j) {
    EN(listed(a, bk[j].b), "blocks are kept");
    if (j != i) EN(bk[j].b->allocated == bk[j].used, "other blocks are unchanged");
  }
  uint64_t now = bk[i].b->allocated;
  EN(now == bk[i].used || (now == off && off + n == bk[i].used), "only the last allocation is discarded");
  EN(a.size() == s0 - (bk[i].used - now), "size is counted");
  if (i == 0 && off + n == bk[0].used) EN(now == off, "the last allocation of the first block is discarded");
  done(a);
}
