// C15, C16: a text of any length of which only the first and the last place that matters to a search are known. The text
// is not modelled.
#pragma once
#include "cuts.h"
#include <cstdlib>
static size_t first_, last_; // n if there is none
static char key;
static char const *keys;
#ifdef VF_NATIVE
static char (*other)(size_t) = [](size_t i) { return i % 3 ? 'a' : 'b'; };
static void memory() {
  if (n > 1 << 12) vf_stop();
  p = (char *)malloc(n);
  for (size_t i = 0; i < n; ++i) p[i] = other(i);
  if (last_ < n) p[first_] = p[last_] = '#';
}
#else
static void memory() {
  p = (char *)vf_abstract(1);
  vf_trusted("find, rfind, find_first_of and find_last_of of std::string_view give the position of the first / last match");
}
// the view searched, as offset and size in the text
static size_t offset(std::string_view const &s) {
  size_t o = s.data() - p;
  if (s.size() && !vf_and(o <= n, s.size() <= n - o)) vf_give_up("search in another text");
  return o;
}
static size_t forward(std::string_view const &s, size_t from) {
  if (from >= s.size()) return std::string_view::npos;
  size_t o = offset(s);
  if (last_ >= n || o + from > last_) return std::string_view::npos;
  if (o + from > first_) vf_give_up("search between the first and the last match");
  return first_ < o + s.size() ? first_ - o : std::string_view::npos;
}
static size_t backward(std::string_view const &s, size_t from) {
  if (!s.size()) return std::string_view::npos;
  size_t o = offset(s), end = from < s.size() - 1 ? o + from : o + s.size() - 1;
  if (last_ >= n || end < first_) return std::string_view::npos;
  if (end < last_) vf_give_up("search between the first and the last match");
  return last_ >= o ? last_ - o : std::string_view::npos;
}
#endif
static void matches() {
  n = vf_range("n", 0, uint64_t(1) << 44);
  first_ = vf_range("first", 0, uint64_t(1) << 44), last_ = vf_range("last", 0, uint64_t(1) << 44);
  VF_REQUIRES(vf_or(vf_and(first_ == n, last_ == n), vf_and(first_ <= last_, last_ < n)));
  memory();
}
