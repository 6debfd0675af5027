// Mathematical view of addresses used by the contracts: an address is an unsigned integer.
#pragma once
#include "vf.h"
#include <cstring>
#include <netinet/in.h>
#include "swoc/swoc_ip.h"
typedef unsigned __int128 u128;
static inline u128 mk128(uint64_t hi, uint64_t lo) { return (u128(hi) << 64) | lo; }
// network order bytes of the integer
static inline in6_addr net6(u128 v) {
  in6_addr r;
  for (int i = 0; i < 16; ++i) r.s6_addr[i] = uint8_t(v >> (8 * (15 - i)));
  return r;
}
static inline u128 val6(in6_addr const &a) {
  u128 v = 0;
  for (int i = 0; i < 16; ++i) v = (v << 8) | a.s6_addr[i];
  return v;
}
static inline swoc::IP6Addr mk6(u128 v) { return swoc::IP6Addr(net6(v)); }
static inline u128 val6(swoc::IP6Addr const &a) { return val6(a.network_order()); }
static inline u128 vf_u128(char const *n) { uint64_t h = vf_u64(n), l = vf_u64(n); return mk128(h, l); }
static inline uint32_t swap32(uint32_t v) { return (v << 24) | ((v & 0xff00) << 8) | ((v >> 8) & 0xff00) | (v >> 24); }
static inline uint16_t swap16(uint16_t v) { return uint16_t((v << 8) | (v >> 8)); }
