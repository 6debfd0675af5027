// C24: small vector.
// vf-opt vc_history: split=9 cost=9 ttimeout=600
// vf-opt vc_alloc: split=3
// vf-opt vc_move: split=4 cost=3
#include "vf.h"
#include "swoc/Vectray.h"
#include <string>
using namespace swoc;
// An element that accounts for its life time.
static int live, bad;
struct E {
  E *self; uint32_t v;
  E() : self(this), v(77) { ++live; }
  E(uint32_t x) : self(this), v(x) { ++live; }
  E(uint32_t x, uint32_t y) : self(this), v(x ^ y) { ++live; }
  E(E const &e) : self(this), v(e.v) { bad += e.self != &e; ++live; }
  E(E &&e) noexcept : self(this), v(e.v) { bad += e.self != &e; e.v = 0xdead; ++live; }
  E &operator=(E const &e) { bad += self != this || e.self != &e; v = e.v; return *this; }
  E &operator=(E &&e) noexcept { bad += self != this || e.self != &e; v = e.v; return *this; }
  ~E() { bad += self != this; self = nullptr; --live; }
};
struct M { uint32_t v[12]; unsigned n = 0; };
template <typename V> static void check(V &x, M const &m) {
  V const &c = x;
  EN(x.size() == m.n && c.size() == m.n && x.empty() == (m.n == 0), "size is the number of elements held");
  bool ok = true;
  for (unsigned i = 0; i < m.n; ++i) ok = vf_and(ok, vf_and(x[i].v == m.v[i], vf_and(x[i].self == &x[i], c[i].v == m.v[i])));
  EN(ok, "each element is preserved in its place");
  unsigned i = 0;
  for (auto &e : x) { EN(i < m.n && &e == &x[i], "iteration"); ++i; }
  EN(i == m.n, "iteration of all");
  i = 0;
  for (auto const &e : c) { EN(i < m.n && &e == &c[i], "constant iteration"); ++i; }
  EN(i == m.n, "constant iteration of all");
  if (m.n) EN(&x.front() == &x[0] && &c.back() == &c[m.n - 1] && &x.back() == &x[m.n - 1] && &c.front() == &x[0] && x.data() == &x[0] && c.data() == &x[0], "first, last, data");
  MemSpan<E> s = x; MemSpan<E const> t = c;
  EN(s.size() == m.n && t.size() == m.n && s.data() == t.data() && (m.n == 0 || s.data() == &x[0]), "as a span");
}
static unsigned pick(char const *n, unsigned k) { return vf_pick(n, 0, k - 1); }
template <typename V> static void op(unsigned k, V &x, M &m) {
  uint32_t a = vf_u32("value");
  switch (k) {
  case 0: { E e(a); x.push_back(e); EN(e.v == a, "copied"); m.v[m.n++] = a; break; }
  case 1: { E e(a); x.push_back(std::move(e)); EN(e.v == 0xdead, "moved"); m.v[m.n++] = a; break; }
  case 2: x.emplace_back(a, 5); m.v[m.n++] = a ^ 5; break;
  case 3: if (m.n) { x.pop_back(); --m.n; } break;
  case 4: if (m.n) { x.push_back(x[0]); m.v[m.n] = m.v[0]; ++m.n; } break;
  case 5: x.reserve(pick("reserve", 5)); break;
  case 6: if (m.n) { x[m.n - 1].v = a; m.v[m.n - 1] = a; } break;
  case 7: if (m.n) { x.emplace_back(x.back()); m.v[m.n] = m.v[m.n - 1]; ++m.n; } break;
  case 8: { V y(std::move(x)); check(y, m); M none; check(x, none); x = std::move(y); check(y, none); break; }
  }
}
template <size_t N> static void history(unsigned first, unsigned steps) {
  M m;
  {
    Vectray<E, N> x;
    check(x, m);
    for (unsigned i = 0, n = pick("initial", N); i < n; ++i) { uint32_t a = vf_u32("initial value"); x.emplace_back(a); m.v[m.n++] = a; }
    op(first, x, m);
    check(x, m);
    EN(live == int(m.n) && bad == 0, "as many elements exist as are held");
    for (unsigned s = 1; s < steps; ++s) {
      op(pick("op", 9), x, m);
      check(x, m);
      EN(live == int(m.n) && bad == 0, "as many elements exist as are held");
    }
  }
  EN(live == 0 && bad == 0, "every element is destroyed exactly once");
}
// Histories.
VC(vc_history) {
  vf_bounded("up to three operations (thorough: four) on up to two initial elements, inline capacity 1 to 3");
  unsigned first = vf_part(9);
  switch (pick("capacity", 3)) {
  case 0: history<1>(first, VF_N(3, 4)); break;
  case 1: history<2>(first, VF_N(3, 4)); break;
  case 2: history<3>(first, VF_N(3, 4)); break;
  }
  vf_cover("history");
}
template <size_t N, size_t K> static void moves(unsigned n) {
  M m, none;
  {
    Vectray<E, N> x;
    for (unsigned i = 0; i < n; ++i) { uint32_t a = vf_u32("value"); x.emplace_back(a); m.v[m.n++] = a; }
    Vectray<E, K> y(std::move(x));
    check(y, m); check(x, none);
    EN(live == int(n), "elements are moved");
    op(pick("op", 9), y, m);
    check(y, m); check(x, none);
    x.emplace_back(9u);
    EN(x.size() == 1 && x[0].v == 9, "moved from can be used");
    Vectray<E, K> z(y);
    check(z, m); check(y, m);
    z.emplace_back(3u);
    check(y, m);
    EN(live == int(2 * m.n + 2), "a copy has its own elements");
    Vectray<E, K> w;
    w.emplace_back(1u);
    w = y;
    check(w, m); check(y, m);
    Vectray<E, K> v(std::move(w), std::allocator<E>{});
    check(v, m); check(w, none);
    z = std::move(v);
    check(z, m); check(v, none);
  }
  EN(live == 0 && bad == 0, "every element is destroyed exactly once");
}
// Moves and copies between sizes.
VC(vc_move) {
  vf_bounded("up to four elements, capacities 1 to 3");
  unsigned n = pick("elements", 5);
  switch (vf_part(4)) {
  case 0: moves<1, 3>(n); break;
  case 1: moves<3, 1>(n); break;
  case 2: moves<2, 2>(n); break;
  case 3: moves<2, 3>(n); break;
  }
  vf_cover("moved");
}
// Elements that own storage.
VC(vc_strings) {
  vf_bounded("up to five strings");
  unsigned n = pick("strings", 6);
  static char const *const T[] = {"a", "a text that is too long to be held inline", "", "b", "another text that is long enough for the heap"};
  Vectray<std::string, 2> x;
  for (unsigned i = 0; i < n; ++i) if (i & 1) x.push_back(T[i]); else x.emplace_back(T[i]);
  Vectray<std::string, 2> y(x), z(std::move(x));
  bool ok = y.size() == n && z.size() == n && x.empty();
  for (unsigned i = 0; i < n; ++i) ok = ok && y[i] == T[i] && z[i] == T[i];
  EN(ok, "strings are preserved");
  while (!y.empty()) y.pop_back();
  EN(z.size() == n && (n < 2 || z[1] == T[1]), "a copy is independent");
  vf_cover("strings");
}
// Default constructed elements.
VC(vc_count) {
  vf_bounded("up to five elements");
  unsigned n = pick("elements", 6);
  {
    Vectray<E, 2> x(n);
    M m; for (; m.n < n; ++m.n) m.v[m.n] = 77;
    check(x, m);
  }
  EN(live == 0 && bad == 0, "every element is destroyed exactly once");
  struct alignas(16) W { uint64_t a[2]; };
  Vectray<W, 2> w;
  w.push_back(W{{1, 2}});
  EN(alignof(Vectray<W, 2>) >= 16 && reinterpret_cast<uintptr_t>(&w[0]) % 16 == 0, "elements are aligned");
  vf_cover("count");
}
// Storage comes from the allocator the vector was made with, and is returned to it.
static int taken[4], given[4];
static bool astray;
template <typename T> struct Alloc {
  using value_type = T;
  unsigned id = 0;
  Alloc() = default;
  explicit Alloc(unsigned n) : id(n) {}
  template <typename U> Alloc(Alloc<U> const &that) : id(that.id) {}
  T *allocate(size_t n) {
    ++taken[id & 3];
    char *p = static_cast<char *>(::operator new(16 + n * sizeof(T)));
    *reinterpret_cast<unsigned *>(p) = id;
    return reinterpret_cast<T *>(p + 16);
  }
  void deallocate(T *q, size_t) {
    char *p = reinterpret_cast<char *>(q) - 16;
    if (*reinterpret_cast<unsigned *>(p) != id) astray = true;
    ++given[id & 3];
    ::operator delete(p);
  }
  template <typename U> bool operator==(Alloc<U> const &that) const { return id == that.id; }
  template <typename U> bool operator!=(Alloc<U> const &that) const { return id != that.id; }
};
template <size_t N, size_t K> static void allocators() {
  typedef Vectray<E, N, Alloc<E>> V;
  typedef Vectray<E, K, Alloc<E>> W;
  for (int &t : taken) t = 0;
  for (int &t : given) t = 0;
  astray = false;
  Alloc<E> one(1), two(2);
  M m;
  {
    unsigned n = pick("elements", 5), extra = pick("extra", 4);
    bool count = vf_bool("made with a count");
    V x = count ? V(n, one) : V(one);
    for (unsigned i = 0; i < n; ++i) if (count) m.v[m.n++] = 77; else { x.emplace_back(i); m.v[m.n++] = i; }
    if (vf_bool("reserve")) x.reserve(n + extra);
    for (unsigned i = 0; i < extra; ++i) { if (i & 1) x.emplace_back(i); else x.push_back(E(i)); m.v[m.n++] = i; }
    check(x, m);
    EN(taken[0] == 0 && (m.n <= N || taken[1] > 0), "storage of the allocator given");
    switch (pick("way", 4)) {
    case 0: { V y(std::move(x)); check(y, m); for (unsigned i = 0; i <= N; ++i) { y.emplace_back(9u); m.v[m.n++] = 9; } check(y, m); } break;
    case 1: { W y(std::move(x)); check(y, m); for (unsigned i = 0; i <= K; ++i) { y.emplace_back(9u); m.v[m.n++] = 9; } check(y, m); } break;
    case 2: { V y(std::move(x), two); check(y, m); int was = taken[1]; for (unsigned i = 0; i <= N; ++i) { y.emplace_back(9u); m.v[m.n++] = 9; } check(y, m); EN(taken[1] == was && taken[2] > 0, "storage of the other allocator"); } break;
    case 3: while (!x.empty()) x.pop_back(); break;
    }
    EN(taken[0] == 0 && taken[3] == 0, "no storage of any other allocator");
  }
  for (unsigned i = 0; i < 4; ++i) EN(taken[i] == given[i], "storage is returned");
  EN(!astray && live == 0 && bad == 0, "storage is returned to its allocator");
}
VC(vc_alloc) {
  vf_bounded("up to four elements, up to three more, capacities 1 to 3");
  switch (vf_part(3)) {
  case 0: allocators<1, 3>(); break;
  case 1: allocators<3, 1>(); break;
  case 2: allocators<2, 3>(); break;
  }
  vf_cover("allocators");
}
