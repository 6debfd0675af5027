// C22: scaled values.
// vf-opt vc_round_pairs: split=10 cost=4
// vf-opt vc_wide: split=4 cost=4
// vf-opt vc_units: split=6 cost=4
// vf-opt vc_compare: split=4 cost=2
// vf-opt vc_arithmetic: split=2 cost=9
#include "vf.h"
#include <limits>
#include "swoc/Scalar.h"
using namespace swoc;
struct tagged;
template <typename W = int64_t, intmax_t N, typename I, typename T> static W value(Scalar<N, I, T> const &s) { return W(s.count()) * N; }
template <typename C> static C any(char const *n) { return C(vf_u(n, sizeof(C) * 8)); }
// Every way to convert a count at scale S to a count at scale N.
template <intmax_t S, typename C, intmax_t N, typename I, typename W = int64_t> static void conv() {
  Scalar<S, C> s(any<C>("count"));
  W v = value<W>(s), bound = W(std::numeric_limits<I>::max()) - 1, low = std::is_signed_v<I> ? -bound : W(1) - N;
  VF_REQUIRES(vf_and(v <= bound * N, v >= (std::is_signed_v<I> ? low * N : W(0))));
  Scalar<N, I> u(round_up(s)), d(round_down(s)), a, b;
  EN(vf_and(value<W>(u) >= v, value<W>(u) - N < v), "round up: the smallest count that is at least the value");
  EN(vf_and(value<W>(d) <= v, value<W>(d) + N > v), "round down: the largest count that is at most the value");
  a = round_up(s), b = round_down(s);
  EN(vf_and(a.count() == u.count(), b.count() == d.count()), "assignment rounds as construction does");
  if constexpr (std::is_same_v<Scalar<S, C>, Scalar<N, I>>) {
    Scalar<N, I> g, h;
    g.assign(round_up(s)); h.assign(round_down(s));
    EN(vf_and(g.count() == u.count(), h.count() == d.count()), "assign rounds as construction does");
  }
  if constexpr (S % N == 0) {
    Scalar<N, I> c(s), e, f;
    e = s; f.assign(s);
    EN(vf_and(value<W>(c) == v, vf_and(e.count() == c.count(), f.count() == c.count())), "conversion to a divisor of the scale is exact");
  }
}
// Conversions between scales: multiple, divisor, neither.
VC(vc_round_pairs) {
  switch (vf_part(10)) {
  case 0: conv<1, int, 10, int>(); break;
  case 1: conv<1024, int, 1, int64_t, __int128>(); break;
  case 2: conv<1024, int16_t, 1, int64_t, __int128>(); break;
  case 3: conv<512, int, 4096, int>(); break;
  case 4: conv<30, int16_t, 20, int64_t, __int128>(); break;
  case 5: conv<20, int16_t, 30, int>(); break;
  case 6: conv<9, int16_t, 25, int>(); break;
  case 7: conv<25, int16_t, 9, int>(); break;
  case 8: conv<1000, unsigned, 1024, unsigned>(); break;
  case 9: vf_bool("same type") ? conv<8, int, 8, int>() : conv<8, int8_t, 8, int>(); break;
  }
  vf_cover("pair");
}
// 64 bit counts: no overflow unless the result does not fit.
VC(vc_wide) {
  switch (vf_part(4)) {
  case 0: conv<512, int64_t, 4096, int64_t, __int128>(); break;
  case 1: conv<4096, uint64_t, 512, uint64_t, __int128>(); break;
  case 2: conv<1536, uint64_t, 1024, uint64_t, __int128>(); break;
  case 3: conv<3072, int64_t, 2048, int64_t, __int128>(); break;
  }
  vf_cover("wide");
}
template <intmax_t N, typename I, typename C, typename W = int64_t> static void units() {
  C n = any<C>("units");
  W v = n;
  VF_REQUIRES(vf_and(v <= (W(std::numeric_limits<I>::max()) - 1) * N, v >= (std::is_signed_v<I> ? W(std::numeric_limits<I>::min() + 1) * N : W(0))));
  Scalar<N, I> u(round_up(n)), d(round_down(n)), a, b, c, e;
  EN(vf_and(value<W>(u) >= v, value<W>(u) - N < v), "units rounded up");
  EN(vf_and(value<W>(d) <= v, value<W>(d) + N > v), "units rounded down");
  a = round_up(n); b = round_down(n); c.assign(round_up(n)); e.assign(round_down(n));
  EN(vf_and(vf_and(a.count() == u.count(), b.count() == d.count()), vf_and(c.count() == u.count(), e.count() == d.count())), "assignment of rounded units");
  VF_REQUIRES(vf_and(v < std::numeric_limits<C>::max() - N, v > W(std::numeric_limits<C>::min()) + N));
  C fu = round_up<N>(n), fd = round_down<N>(n);
  EN(W(fu) == value<W>(u), "rounding a plain value up to a multiple");
  EN(W(fd) == value<W>(d), "rounding a plain value down to a multiple");
}
VC(vc_units) {
  switch (vf_part(6)) {
  case 0: units<10, int, int>(); break;
  case 1: units<4096, int, int64_t, __int128>(); break;
  case 2: units<4096, uint64_t, uint64_t, __int128>(); break;
  case 3: units<16, int16_t, int>(); break;
  case 4: units<7, int, int16_t>(); break;
  case 5: units<1, int64_t, int, __int128>(); break;
  }
  vf_cover("units");
}
template <intmax_t N, typename C, intmax_t S, typename I, typename W = int64_t> static void cmp() {
  Scalar<N, C> a(any<C>("a"));
  Scalar<S, I> b(any<I>("b"));
  W p = value<W>(a), q = value<W>(b);
  EN((a < b) == (p < q), "less"); EN((a <= b) == (p <= q), "less or equal"); EN((a == b) == (p == q), "equal");
  EN((a > b) == (p > q), "greater"); EN((a >= b) == (p >= q), "greater or equal");
  EN((b < a) == (q < p), "less, exchanged"); EN((b <= a) == (q <= p), "less or equal, exchanged"); EN((b == a) == (q == p), "equal, exchanged");
  Scalar<N, C> c(any<C>("c"));
  EN((a < c) == (a.count() < c.count()), "less at the same scale");
  EN((a != c) == (a.count() != c.count()), "different at the same scale");
  EN(vf_and((a != b) == (p != q), (b != a) == (p != q)), "different");
}
// Comparison is of values, whatever the scales.
VC(vc_compare) {
  switch (vf_part(4)) {
  case 0: cmp<10, int, 15, int>(); break;
  case 1: cmp<1024, int16_t, 1, int64_t, __int128>(); break;
  case 2: cmp<4096, uint32_t, 512, uint32_t>(); break;
  case 3: cmp<1000, int, 1024, int16_t>(); break;
  }
  vf_cover("compared");
}
// Arithmetic is on values.
VC(vc_arithmetic) {
  Scalar<10, int, tagged> a(int(vf_range("a", 0, 2000000) - 1000000));
  Scalar<15, int16_t, tagged> b(any<int16_t>("b"));
  Scalar<30, int, tagged> k(int(vf_range("k", 0, 2000000) - 1000000));
  int64_t va = value(a), vb = value(b), vk = value(k);
  auto s = a + b;
  auto t = a - b;
  static_assert(decltype(s)::SCALE == 5 && decltype(t)::SCALE == 5 && std::is_same_v<decltype(s)::Counter, int> && std::is_same_v<decltype(s)::Tag, tagged>, "common type");
  if (vf_part(2) == 0) {
    EN(value(s) == va + vb, "sum of different scales");
    EN(value(t) == va - vb, "difference of different scales");
    EN(vf_and(value(b + a) == va + vb, value(b - a) == vb - va), "exchanged");
    vf_cover("different scales");
    return;
  }
  auto c = a;
  EN(value(c += k) == va + vk, "in place sum"); EN(value(c -= k) == va, "in place difference");
  EN(vf_and(value(a + a) == 2 * va, value(a - a) == 0), "same scale");
  c += a;
  EN(value(c) == 2 * va, "in place sum at the same scale");
  c -= a;
  EN(vf_and(value(c) == va, c == a), "in place difference at the same scale");
  vf_cover("sums");
}
VC(vc_rounded_arithmetic) {
  typedef Scalar<10, int> T;
  T a(int(vf_range("a", 0, 2000000) - 1000000));
  Scalar<3, int> b(int(vf_range("b", 0, 2000000) - 1000000));
  int n = int(vf_range("n", 0, 2000000) - 1000000);
  T bu(round_up(b)), bd(round_down(b)), nu(round_up(n)), nd(round_down(n)), c = a;
  int A = a.count();
  EN((c += round_up(b)).count() == A + bu.count(), "add rounded up"); c = a;
  EN((c += round_down(b)).count() == A + bd.count(), "add rounded down"); c = a;
  EN((c -= round_up(b)).count() == A - bu.count(), "subtract rounded up"); c = a;
  EN((c -= round_down(b)).count() == A - bd.count(), "subtract rounded down"); c = a;
  EN((c += round_up(n)).count() == A + nu.count(), "add units rounded up"); c = a;
  EN((c += round_down(n)).count() == A + nd.count(), "add units rounded down"); c = a;
  EN((c -= round_up(n)).count() == A - nu.count(), "subtract units rounded up"); c = a;
  EN((c -= round_down(n)).count() == A - nd.count(), "subtract units rounded down");
  EN(vf_and((a + round_up(n)).count() == A + nu.count(), (round_up(n) + a).count() == A + nu.count()), "sum with units rounded up");
  EN(vf_and((a + round_down(n)).count() == A + nd.count(), (round_down(n) + a).count() == A + nd.count()), "sum with units rounded down");
  EN(vf_and((a - round_up(n)).count() == A - nu.count(), (round_up(n) - a).count() == nu.count() - A), "difference with units rounded up");
  EN(vf_and((a - round_down(n)).count() == A - nd.count(), (round_down(n) - a).count() == nd.count() - A), "difference with units rounded down");
  EN(vf_and((a + round_up(bu)).count() == A + bu.count(), (round_up(bu) + a).count() == A + bu.count()), "sum with a scalar to round up");
  EN(vf_and((a + round_down(bu)).count() == A + bu.count(), (round_down(bu) + a).count() == A + bu.count()), "sum with a scalar to round down");
  EN(vf_and((a - round_up(bu)).count() == A - bu.count(), (round_up(bu) - a).count() == bu.count() - A), "difference with a scalar to round up");
  EN(vf_and((a - round_down(bu)).count() == A - bu.count(), (round_down(bu) - a).count() == bu.count() - A), "difference with a scalar to round down");
  vf_cover("rounded");
}
// Count operations.
VC(vc_counts) {
  typedef Scalar<10, int> T;
  int n = int(vf_range("n", 0, 2000000) - 1000000), m = int(vf_range("m", 0, 2000000) - 1000000);
  T a(n), z;
  EN(vf_and(z.count() == 0, vf_and(a.count() == n, a.value() == 10 * n)), "count and value");
  EN(vf_and(int(a) == 10 * n, vf_and(a.scale() == 10, a(m).count() == m)), "conversion, scale, same scale instance");
  T b = a;
  EN(vf_and((++b).count() == n + 1, (b++).count() == n + 1), "increment"); EN(b.count() == n + 2, "twice");
  EN(vf_and((--b).count() == n + 1, (b--).count() == n + 1), "decrement"); EN(b.count() == n, "back");
  EN((b.inc(m)).count() == n + m, "inc"); EN((b.dec(m)).count() == n, "dec");
  EN(vf_and(a.plus(m).count() == n + m, a.minus(m).count() == n - m), "plus, minus"); EN(a.count() == n, "unchanged");
  EN(b.assign(m).count() == m, "assign");
  Scalar<10, int64_t> w(a);
  EN(vf_and(w.count() == n, T(w).count() == n), "other counter type");
  vf_cover("counts");
}
// The quotient of two scalars is that of the values; a common factor of the scales does not change it.
VC(vc_product) {
  int n = int(vf_range("n", 0, 2000000) - 1000000), k = int(vf_range("k", 0, 2000) - 1000);
  Scalar<10, int> a(n), p = a;
  Scalar<10, int64_t> w(n);
  EN(vf_and((a * k).count() == n * k, vf_and((k * a).count() == n * k, (p *= k).count() == n * k)), "product");
  EN(vf_and((w * k).count() == int64_t(n) * k, (k * w).count() == int64_t(n) * k), "product, wide");
  VF_REQUIRES(k != 0);
  Scalar<15, int> b(k);
  EN((a / k).count() == n / k, "quotient");
  p = a;
  EN(vf_and((p /= k).count() == n / k, (w / int64_t(k)).count() == int64_t(n) / int64_t(k)), "quotient in place, wide");
  EN(a / b == int64_t(n) * 2 / (int64_t(k) * 3), "quotient of scalars");
  vf_cover("product");
}
