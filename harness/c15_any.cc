// C15: cutting a text of any length at a separator. The text is not modelled: the searches of std::string_view (and
// TextView::find_if, which c15.cc checks) are replaced by their contract, the first and the last match are arbitrary.
// vf-src: TextView
#include "text_any.h"
struct Pred { bool operator()(char c) const { return c == '#'; } };
#ifndef VF_NATIVE
extern "C" {
size_t vfstub__ZNKSt17basic_string_viewIcSt11char_traitsIcEE4findEcm(std::string_view const *s, char c, size_t from) {
  if (c != key) vf_give_up("search for something else");
  return forward(*s, from);
}
size_t vfstub__ZNKSt17basic_string_viewIcSt11char_traitsIcEE5rfindEcm(std::string_view const *s, char c, size_t from) {
  if (c != key) vf_give_up("search for something else");
  return backward(*s, from);
}
size_t vfstub__ZNKSt17basic_string_viewIcSt11char_traitsIcEE13find_first_ofES2_m(std::string_view const *s, std::string_view d, size_t from) {
  if (d.data() != keys) vf_give_up("search for something else");
  return forward(*s, from);
}
size_t vfstub__ZNKSt17basic_string_viewIcSt11char_traitsIcEE12find_last_ofES2_m(std::string_view const *s, std::string_view d, size_t from) {
  if (d.data() != keys) vf_give_up("search for something else");
  return backward(*s, from);
}
size_t vfstub__ZNK4swoc7_1_5_108TextView7find_ifI4PredEEmRKT_(TextView const *s, Pred const *) { return forward(*s, 0); }
size_t vfstub__ZNK4swoc7_1_5_108TextView8rfind_ifI4PredEEmRKT_(TextView const *s, Pred const *) { return backward(*s, TextView::npos); }
}
#endif
VC(vc_any_char) { key = '#'; matches(); CUTS(first_, last_, key, at); vf_cover("end"); }
VC(vc_any_set) { matches(); char set[] = "?#!"; keys = set; CUTS(first_, last_, std::string_view(set, 3), at); vf_cover("end"); }
VC(vc_any_pred) { matches(); CUTS(first_, last_, Pred(), if); vf_cover("end"); }
