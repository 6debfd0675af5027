// A std::ostream, whose output functions are replaced by their contract: they hand the given characters to the stream.
// What the repository writes is captured in `out`. Only the formatting state of the stream (width, flags, error state)
// is real; natively all of it is.
#pragma once
#include "vf.h"
#include <ostream>
#include <sstream>
#include <string>
static std::ostream *last_stream;
#ifdef VF_NATIVE
static std::ostringstream *oss;
static std::ostream &the_stream() { oss = new std::ostringstream; return *oss; }
static bool streamed(char const *p, size_t n) { return oss->str() == std::string(p, n); }
#else
static char out[400];
static size_t outn;
static bool streamed(char const *p, size_t n) {
  if (n != outn) return false;
  bool same = true;
  for (size_t i = 0; i < n; ++i) same = vf_and(same, out[i] == p[i]);
  return same;
}
struct vf_ostream_object { void *vptr; alignas(16) char base[sizeof(std::ios) + 16]; };
alignas(16) static vf_ostream_object vf_os;
static ptrdiff_t vf_vtable[4]; // the offset of the virtual base is 3 words before the address point
static std::ostream &the_stream() {
  outn = 0;
  vf_trusted("writing text to a std::ostream writes exactly that text");
  vf_vtable[0] = (char *)vf_os.base - (char *)&vf_os;
  for (auto &c : vf_os.base) c = 0;
  vf_os.vptr = &vf_vtable[3];
  std::ostream &s = *(std::ostream *)(void *)&vf_os;
  s.flags(std::ios_base::skipws | std::ios_base::dec);
  s._M_fill = ' '; s._M_fill_init = true;
  return s;
}
static std::ostream &capture(std::ostream &s, char const *p, size_t n) {
  for (size_t i = 0; i < n && outn < sizeof(out); ++i) out[outn++] = p[i];
  last_stream = &s;
  return s;
}
std::ostream &vf_ostream_insert(std::ostream &s, char const *p, std::streamsize n) __asm__("_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l");
std::ostream &vf_ostream_insert(std::ostream &s, char const *p, std::streamsize n) { capture(s, p, n); s.width(0); return s; }
std::ostream &vf_ostream_string(std::ostream &s, std::string const &t) __asm__("_ZStlsIcSt11char_traitsIcESaIcEERSt13basic_ostreamIT_T0_ES7_RKNSt7__cxx1112basic_stringIS4_S5_T1_EE");
std::ostream &vf_ostream_string(std::ostream &s, std::string const &t) { capture(s, t.data(), t.size()); s.width(0); return s; }
std::ostream &vf_ostream_write(std::ostream *s, char const *p, std::streamsize n) __asm__("_ZNSo5writeEPKcl");
std::ostream &vf_ostream_write(std::ostream *s, char const *p, std::streamsize n) { return capture(*s, p, n); }
#endif
