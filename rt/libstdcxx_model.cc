// Reference models of the compiled part of the C++ library (hash of bytes, growth of hash tables, error categories).
#include <system_error>
#include <unordered_map>
namespace std {
size_t _Hash_bytes(void const *p, size_t n, size_t seed) {
  size_t h = seed;
  for (size_t i = 0; i < n; ++i) h = h * 31 + static_cast<unsigned char const *>(p)[i];
  return h;
}
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { return n < 13 ? 13 : 2 * n + 1; }
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const {
  if (elt + ins > (bkt == 1 ? 0 : bkt)) return {true, _M_next_bkt(elt + ins)};
  return {false, 0};
}
} // namespace __detail
inline namespace _V2 {
namespace {
struct Category final : error_category {
  char const *n;
  explicit constexpr Category(char const *n) : n(n) {}
  char const *name() const noexcept override { return n; }
  string message(int) const override { return n; }
};
} // namespace
error_category const &system_category() noexcept { static Category c{"system"}; return c; }
error_category const &generic_category() noexcept { static Category c{"generic"}; return c; }
} // namespace _V2
} // namespace std
