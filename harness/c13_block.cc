// C13: the contract of a new block.
// vf-src: MemArena TextView
#include "vf.h"
#include "swoc/MemArena.h"
using namespace swoc;
static uint64_t const MAXN = uint64_t(1) << 32; // past the range of int
VC(vc_make_block) { // the contract the step contracts of c13_local.cc assume
  vf_heap_align(10);
  MemArena a{vf_range("hint", 0, MAXN)};
  a._active_reserved = vf_range("reserved", 0, MAXN); a._frozen_allocated = vf_range("frozen", 0, MAXN); a._active_allocated = vf_range("active", 0, MAXN);
  uint64_t n = vf_range("n", 0, MAXN), r0 = a._active_reserved, s0 = a.size(), t0 = a.allocated_size();
  MemArena::Block *b = a.make_block(n);
  EN(b->size >= n && b->allocated == 0, "an empty block with room");
  EN(((uintptr_t)b->data() & 7) == 0, "data is word aligned");
  EN(b->_link._next == nullptr && b->_link._prev == nullptr && a._active.empty(), "on no list");
  EN(a._active_reserved == r0 + b->size && a.size() == s0 && a.allocated_size() == t0 && a._reserve_hint == 0, "counted as reserved");
  if (b->size) { *(b->data() + b->size - 1) = 1; b->data()[0] = 2; } // the storage exists
  free(b);
}
