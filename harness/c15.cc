// C15: cutting text. Operations by count are proved for views of any length over memory that may not be touched;
// operations by character, character set and predicate for every text up to the stated length, any bytes.
// vf-src: TextView
// vf-opt vc_char: split=5
// vf-opt vc_set: split=5
// vf-opt vc_pred: split=5
#include "cuts.h"
VC(vc_count) { // any view, any count: unbounded
  p = (char *)vf_opaque(1); n = vf_range("n", 0, uint64_t(1) << 44);
  size_t k = vf_u64("k"), m = mn(k, n);
  TextView const s{(char const *)p, n};
  EN(at(s, p, n) && s.data_end() == p + n && !s == (n == 0) && bool(s) == (n != 0), "construction");
  EN(pos(s.prefix(k), p, m), "prefix is the first characters");
  EN(pos(s.suffix(k), p + (n - m), m), "suffix is the last characters");
  { TextView t{s}; TextView &u = t.remove_prefix(k); EN(&u == &t && pos(t, p + m, n - m), "remove_prefix leaves the rest"); }
  { TextView t{s}; TextView &u = t.remove_suffix(k); EN(&u == &t && pos(t, p, n - m), "remove_suffix leaves the rest"); }
  { TextView t{s}; t += k; EN(pos(t, p + m, n - m), "+= drops characters"); }
  { TextView t{s}; TextView &u = ++t; EN(&u == &t && pos(t, p + mn(1, n), n - mn(1, n)), "++ drops one"); }
  { TextView t{s}; TextView o = t++; EN(at(o, p, n) && pos(t, p + mn(1, n), n - mn(1, n)), "post increment"); }
  size_t off = vf_u64("off");
  EN(pos(s.substr(off, k), p + off, vf_ite(off < n, mn(k, n - off), 0)), "substr is limited to the view");
  EN(pos(s.substr(off), p + off, vf_ite(off < n, n - off, 0)), "substr to the end");
  { TextView t{s}; TextView &u = t.clear(); EN(&u == &t && t.empty(), "clear"); t.assign(p, p + n); EN(at(t, p, n), "assign"); TextView v{(char const *)p, (char const *)p + n}; EN(at(v, p, n), "construction from a pair"); }
  vf_cover("done");
}
VC(vc_count_cut) { // removal with return, any view and count: unbounded
  p = (char *)vf_opaque(1); n = vf_range("n", 0, uint64_t(1) << 44);
  size_t k = vf_u64("k");
  TextView const s{(char const *)p, n};
  { TextView t{s}, r = t.split_prefix(k);
    if (k < n) EN(pos(r, p, k) && pos(t, p + k + 1, n - k - 1), "split_prefix drops the separator");
    else if (k > n) EN(r.empty() && at(t, p, n), "split_prefix out of bounds changes nothing");
    else EN(vf_or(vf_and(r.empty(), at(t, p, n)), vf_and(at(r, p, n), t.empty())), "split_prefix at the end"); }
  { TextView t{s}, r = t.take_prefix(k);
    if (k < n) EN(pos(r, p, k) && pos(t, p + k + 1, n - k - 1), "take_prefix drops the separator");
    else EN(pos(r, p, n) && t.empty(), "take_prefix takes everything"); }
  { TextView t{s}, r = t.split_suffix(k);
    if (k < n) EN(pos(r, p + (n - k), k) && pos(t, p, n - k - 1), "split_suffix drops the separator");
    else if (k > n) EN(r.empty() && at(t, p, n), "split_suffix out of bounds changes nothing");
    else EN(vf_or(vf_and(r.empty(), at(t, p, n)), vf_and(at(r, p, n), t.empty())), "split_suffix of everything"); }
  { TextView t{s}, r = t.take_suffix(k);
    if (k < n) EN(pos(r, p + (n - k), k) && pos(t, p, n - k - 1), "take_suffix drops the separator");
    else EN(pos(r, p, n) && t.empty(), "take_suffix takes everything"); }
  vf_cover("done");
}
VC(vc_count_int) { // the overloads for int, negative is out of bounds
  p = (char *)vf_opaque(1); n = vf_range("n", 0, uint64_t(1) << 44);
  int k = (int)vf_u32("k");
  TextView const s{(char const *)p, n};
  size_t z = (size_t)(ssize_t)k;
  EN(pos(s.prefix(k), s.prefix(z).data(), s.prefix(z).size()) && pos(s.suffix(k), s.suffix(z).data(), s.suffix(z).size()), "prefix and suffix");
  { TextView t{s}, u{s}, a = t.split_prefix(k), b = u.split_prefix(z); EN(pos(a, b.data(), b.size()) && pos(t, u.data(), u.size()), "split_prefix"); }
  { TextView t{s}, u{s}, a = t.split_suffix(k), b = u.split_suffix(z); EN(pos(a, b.data(), b.size()) && pos(t, u.data(), u.size()), "split_suffix"); }
  { TextView t{s}, u{s}, a = t.take_suffix(k), b = u.take_suffix(z); EN(pos(a, b.data(), b.size()) && pos(t, u.data(), u.size()), "take_suffix"); }
}
template <typename M> static void ends(M const &m, size_t &f, size_t &l) {
  f = l = n;
  for (size_t i = 0; i < n; ++i) { bool h = m(p[i]); f = vf_ite(vf_and(h, f == n), i, f); l = vf_ite(h, i, l); }
}
static void text(unsigned quick, unsigned thorough) {
  n = vf_part(5);
  if (n == 4) n = vf_pick("n", 4, VF_N(quick, thorough));
  p = (char *)vf_buffer(n, "text");
}
VC(vc_char) {
  vf_bounded("text of up to 12 (thorough 20) bytes");
  text(12, 20);
  char c = (char)vf_u8("c");
  size_t f, l;
  ends([=](char x) { return x == c; }, f, l);
  CUTS(f, l, c, at);
  if (f < l && l < n) vf_cover("two separators");
}
VC(vc_set) {
  vf_bounded("text of up to 8 (thorough 12) bytes, sets of 0, 1, 2 or 3 characters");
  text(8, 12);
  unsigned k = vf_pick("set size", 0, 3);
  char *d = (char *)vf_buffer(k, "set");
  size_t f, l;
  ends([=](char x) { bool z = false; for (unsigned i = 0; i < k; ++i) z = vf_or(z, x == d[i]); return z; }, f, l);
  CUTS(f, l, std::string_view(d, k), at);
}
struct Pred { bool operator()(char c) const { return (c & 0x81) == 1; } };
VC(vc_pred) {
  vf_bounded("text of up to 12 (thorough 20) bytes");
  text(12, 20);
  size_t f, l;
  ends(Pred(), f, l);
  CUTS(f, l, Pred(), if);
  // clip takes exactly the matching run
  TextView const s{(char const *)p, n};
  size_t a = 0, z = 0;
  while (a < n && Pred()(p[a])) ++a;
  while (z < n && Pred()(p[n - 1 - z])) ++z;
  { TextView t{s}, r = t.clip_prefix_of(Pred()); EN(pos(r, p, a) && pos(t, p + a, n - a), "clip_prefix_of takes the leading run"); }
  { TextView t{s}, r = t.clip_suffix_of(Pred()); EN(pos(r, p + (n - z), z) && pos(t, p, n - z), "clip_suffix_of takes the trailing run"); }
  if (a == n && n) vf_cover("everything clipped");
}
VC(vc_deref) {
  n = vf_pick("n", 0, 2);
  p = (char *)vf_buffer(n, "text");
  TextView s{(char const *)p, n};
  EN(*s == (n ? p[0] : 0), "the first character or nul");
  EN(TextView{nullptr}.empty() && TextView{}.empty() && TextView((char const *)nullptr, size_t(-1)).empty() && TextView((char const *)nullptr, -1).empty(), "null");
  char lit[4] = {p ? 'a' : 'b', 'c', 'd', 0};
  char const *cs = lit;
  EN(at(TextView{cs}, lit, 3) && at(TextView(cs, -1), lit, 3) && at(TextView(cs, TextView::npos), lit, 3) && at(TextView(cs, 2), lit, 2), "C strings");
  TextView t; t = cs; EN(at(t, lit, 3), "assign a C string");
  t.assign(cs); EN(at(t, lit, 3), "assign a C string");
  t.assign(cs, TextView::npos); EN(at(t, lit, 3), "assign a C string of unknown length");
  EN(TextView{"abc"}.size() == 3, "literal");
}
// Splitting a list by a separator gives pieces which joined again are the list.
VC(vc_tokens) {
  vf_bounded("text of up to 5 (thorough 7) bytes");
  n = vf_pick("n", 0, VF_N(5, 7));
  p = (char *)vf_buffer(n, "text");
  char c = (char)vf_u8("c");
  TextView s{(char const *)p, n};
  size_t k = 0;
  while (!s.empty()) {
    TextView t = s.take_prefix_at(c);
    EN(t.data() == p + k, "pieces are adjacent");
    for (size_t i = 0; i < t.size(); ++i) EN(t[i] != c, "no separator inside a piece");
    k += t.size();
    if (k < n) { EN(p[k] == c, "only the separator is omitted"); ++k; }
  }
  EN(k == n, "the pieces and separators are the whole text");
}
VC(vn_char) { n = 3; p = (char *)vf_buffer(n, "text"); TextView t{(char const *)p, n}; TextView r = t.take_prefix_at('x'); EN(r.size() + t.size() == n, "control"); }
