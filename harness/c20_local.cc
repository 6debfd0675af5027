// C20: characters of a format specifier.
// vf-src: bw_format TextView string_view_util MemArena
#include "vf.h"
#include "swoc/BufferWriter.h"
#include "swoc/bwf_base.h"
using namespace swoc;
typedef bwf::Spec Spec;
typedef Spec::Align A;
static A align(char c) { return c == '<' ? A::LEFT : c == '>' ? A::RIGHT : c == '^' ? A::CENTER : c == '=' ? A::SIGN : A::NONE; }
static bool sign(char c) { return vf_or(vf_or(c == '+', c == '-'), c == ' '); }
static bool type(char c) { int r = 0; for (char const *t = "bBdgopPsSxX"; *t; ++t) r = vf_or(r, c == *t); return r; }
// Characters are classified for every byte.
VC(vc_class) {
  char c = (char)vf_u8("character");
  Spec s;
  EN(s.align_of(c) == align(c) && s.is_sign(c) == sign(c) && Spec::is_type(c) == type(c), "align, sign and type marks");
  int num = vf_or(vf_or(c == 'b', c == 'B'), vf_or(vf_or(c == 'd', c == 'o'), vf_or(c == 'x', c == 'X')));
  int up = vf_or(vf_or(c == 'B', c == 'P'), vf_or(c == 'S', c == 'X'));
  EN(Spec::is_numeric_type(c) == (bool)num && Spec::is_upper_case_type(c) == (bool)up, "numeric and upper case types");
  s._type = c;
  EN(s.has_numeric_type() == (bool)num && s.has_upper_case_type() == (bool)up && s.has_pointer_type() == (c == 'p' || c == 'P') && s.has_valid_type() == (c != 0), "of the specification");
}
