// Contract language for the verifier (also compiles natively, for replay).
//   vf_u8/16/32/64(name)    an arbitrary input value
//   VF_REQUIRES(c)          precondition
//   VF_ENSURES(c, "text")   postcondition: one proof obligation per path
//   vf_cover("label")       a point that must be reachable (vacuity guard)
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
uint64_t vf_u(char const *name, unsigned bits);
void vf_bytes(void *p, size_t n, char const *name);
void *vf_buffer(size_t n, char const *name); // heap object of exactly n (possibly symbolic) arbitrary bytes
void vf_assume(int c);
void vf_assert_at(int c, char const *what);
void vf_cover(char const *label);
void vf_bounded(char const *why);
void vf_trusted(char const *what);
void vf_note(char const *name, uint64_t v);
int vf_symbolic();
uint64_t vf_concretize(uint64_t v);
void vf_unroll(unsigned n);
void *vf_opaque(unsigned k); // a valid-looking address that must never be dereferenced
void *vf_abstract(unsigned k); // an address of memory which is not modelled: an access leaves the verifier's reach (undecided, no violation)
void vf_give_up(char const *why); // the contract does not cover this: undecided
void vf_heap_align(unsigned bits);
uint64_t vf_ite(int c, uint64_t a, uint64_t b); // branch-free selection
int vf_and(int a, int b);
int vf_or(int a, int b);
void vf_stop();
uint64_t vf_range(char const *name, uint64_t lo, uint64_t hi); // arbitrary value in [lo, hi]
unsigned vf_part(unsigned n); // case split run as separate engine processes (see "split" in vf-opt)
}
static inline uint8_t vf_u8(char const *n) { return (uint8_t)vf_u(n, 8); }
static inline uint16_t vf_u16(char const *n) { return (uint16_t)vf_u(n, 16); }
static inline uint32_t vf_u32(char const *n) { return (uint32_t)vf_u(n, 32); }
static inline uint64_t vf_u64(char const *n) { return vf_u(n, 64); }
static inline bool vf_bool(char const *n) { return vf_u(n, 1) != 0; }
// value in [lo, hi], enumerated (one path per value)
static inline uint64_t vf_pick(char const *n, uint64_t lo, uint64_t hi) { return vf_concretize(vf_range(n, lo, hi)); }
#ifdef VF_THOROUGH
#define VF_N(quick, thorough) (thorough)
#else
#define VF_N(quick, thorough) (quick)
#endif
#define VC(name) extern "C" void name()
#define VF_REQUIRES(c) vf_assume(c)
#define EN(c, what) vf_assert_at((c), what)
#define VF_ENSURES(c, what) vf_assert_at((c), what)
