// C21: lexicons.
// vf-src: bw_format TextView string_view_util MemArena
// vf-opt vc_history: split=12 cost=5
// vf-opt vc_names: split=6 cost=5
#include "vf.h"
#include "swoc/bwf_base.h"
#include "swoc/Lexicon.h"
#include <stdexcept>
using namespace swoc;
using namespace swoc::literals;
enum class E { ZERO, ONE, TWO, NONE };
typedef Lexicon<E> L;
static bool up(char a, char b) { return (a >= 'a' && a <= 'z' ? a - 32 : a) == (b >= 'a' && b <= 'z' ? b - 32 : b); }
static bool same(char const *a, TextView b) {
  size_t n = __builtin_strlen(a);
  if (n != b.size()) return false;
  for (size_t i = 0; i < n; ++i) if (a[i] != b[i]) return false;
  return true;
}
static bool alike(char const *a, char const *b) { for (; *a && *b; ++a, ++b) if (!up(*a, *b)) return false; return *a == *b; }
// What has been defined, in order.
struct D { char const *name; int value; };
struct M {
  D d[12]; unsigned n = 0;
  D const *name(char const *x) const { for (unsigned i = 0; i < n; ++i) if (alike(d[i].name, x)) return d + i; return nullptr; }
  D const *value(int v) const { for (unsigned i = 0; i < n; ++i) if (d[i].value == v) return d + i; return nullptr; }
  unsigned values() const { unsigned c = 0; for (unsigned i = 0; i < n; ++i) c += value(d[i].value) == d + i; return c; }
};
static char const *const NAME[] = {"one", "ONE", "two", "", "yes", "Two", "a-long-name"};
static constexpr unsigned NN = 7;
static void check(L const &x, M const &m, int vdef, char const *ndef) {
  EN(x.count() == m.values(), "the count of values defined");
  for (unsigned i = 0; i < NN; ++i) {
    D const *d = m.name(NAME[i]);
    bool threw = false; E e = E::NONE;
    char t[16]; size_t n = __builtin_strlen(NAME[i]);
    for (size_t k = 0; k < n; ++k) t[k] = i & 1 ? NAME[i][k] : (NAME[i][k] >= 'a' && NAME[i][k] <= 'z' && k % 2 ? NAME[i][k] - 32 : NAME[i][k]);
    try { e = x[TextView(t, n)]; } catch (std::domain_error const &) { threw = true; }
    if (d) EN(!threw && int(e) == d->value, "value of a name in any letter case");
    else EN(vdef < 0 ? threw : !threw && int(e) == vdef, "default value or error for an undefined name");
  }
  for (int v = 0; v < 4; ++v) {
    D const *d = m.value(v);
    bool threw = false; TextView t;
    try { t = x[E(v)]; } catch (std::domain_error const &) { threw = true; }
    if (d) EN(!threw && same(d->name, t), "primary name of a value, as it was defined");
    else EN(ndef ? !threw && same(ndef, t) : threw, "default name or error for an undefined value");
  }
  unsigned seen[12] = {}, k = 0;
  for (auto it = x.begin_names(); it != x.end_names() && k < 20; ++it, ++k) for (unsigned i = 0; i < m.n; ++i) if (int(it->_value) == m.d[i].value && same(m.d[i].name, it->_name)) ++seen[i];
  bool once = k == m.n;
  for (unsigned i = 0; i < m.n; ++i) once = once && seen[i] == 1;
  EN(once, "every name once");
  k = 0;
  { auto it = x.begin_names(); for (auto const &p : x.by_names()) { once = once && it != x.end_names() && &p == &*it; ++it; if (++k > 20) break; } }
  EN(once && k == m.n, "every name once, by container iteration");
  {
    auto it = x.begin_names(), was = it;
    unsigned at = 0;
    bool back = true;
    for (; at + 1 < m.n; ++at) { was = it++; back = back && was != it && &*was != &*it; }
    for (; at; --at) { auto now = it; if (at & 1) { auto old = it--; back = back && old == now; } else --it; auto fwd = it; back = back && ++fwd == now; }
    EN(back && it == x.begin_names(), "names backwards");
  }
  k = 0;
  unsigned vs[4] = {};
  bool prim = true;
  L::value_iterator last, prev;
  for (auto it = x.begin(); it != x.end() && k < 20; ++it, ++k) {
    vs[unsigned((*it)._value) & 3]++; D const *d = m.value(int(it->_value)); prim = prim && d && same(d->name, it->_name);
    prev = last; last = it;
  }
  once = k == m.values();
  for (int v = 0; v < 4; ++v) once = once && vs[v] == (m.value(v) ? 1 : 0);
  EN(once && prim, "every value once, with its primary name");
  if (k > 1) { auto it = last; auto was = it--; EN(was == last && it == prev && ++it == last && --it == prev, "iteration backwards"); }
}
// Any history of definitions.
VC(vc_history) {
  vf_bounded("up to three definitions of one or two names, from seven names and three values");
  unsigned part = vf_part(12);
  unsigned steps = part / 4 + 1;
  L x;
  M m;
  int vdef = -1; char const *ndef = nullptr;
  if (steps < 3 && part & 1) { x.set_default(E::NONE); vdef = 3; }
  if (steps < 3 && part & 2) { x.set_default("unknown"_tv); ndef = "unknown"; }
  for (unsigned s = 0; s < steps; ++s) {
    int v = steps == 3 && s == 0 ? part & 1 : vf_pick("value", 0, VF_N(1, 2));
    unsigned a = steps == 3 && s == 0 ? (part & 2) / 2 * 3 : vf_pick("name", 0, s == 0 ? 2 : s == 1 ? NN - 1 : VF_N(3, NN - 1)), two = s + 1 < VF_N(steps == 3 ? 2 : 3, 3) ? (unsigned)vf_bool("two names") : 0, b = two ? (a + 2) % NN : 0;
    bool threw = false, ok1 = !m.name(NAME[a]);
    char t[16], u[16]; // the text is copied
    size_t n = __builtin_strlen(NAME[a]), k = __builtin_strlen(NAME[b]);
    for (size_t i = 0; i < n; ++i) t[i] = NAME[a][i];
    for (size_t i = 0; i < k; ++i) u[i] = NAME[b][i];
    try { if (two) x.define(E(v), TextView(t, n), TextView(u, k)); else x.define(E(v), TextView(t, n)); } catch (std::invalid_argument const &) { threw = true; }
    if (ok1) m.d[m.n++] = {NAME[a], v};
    bool ok2 = ok1;
    if (ok1 && two) { ok2 = !m.name(NAME[b]); if (ok2) m.d[m.n++] = {NAME[b], v}; }
    EN(threw == !ok2, "a name already defined is an error");
    for (size_t i = 0; i < sizeof t; ++i) t[i] = u[i] = '#';
  }
  check(x, m, vdef, ndef);
  if (steps < 3) { L y(std::move(x)); check(y, m, vdef, ndef); }
}
// Other ways to define.
VC(vc_ways) {
  bool defs = vf_bool("defaults");
  M m;
  m.d[0] = {"one", 1}; m.d[1] = {"yes", 1}; m.d[2] = {"two", 2}; m.n = 3;
  switch (vf_pick("way", 0, 3)) {
  case 0: { L x = defs ? L(L::with_multi{{E::ONE, {"one", "yes"}}, {E::TWO, {"two"}}}, E::NONE, "unknown"_tv) : L(L::with_multi{{E::ONE, {"one", "yes"}}, {E::TWO, {"two"}}}); check(x, m, defs ? 3 : -1, defs ? "unknown" : nullptr); } break;
  case 1: { L x(L::with{{E::ONE, "one"}, {E::ONE, "yes"}, {E::TWO, "two"}}, defs ? L::Default("unknown"_tv) : L::Default()); check(x, m, -1, defs ? "unknown" : nullptr); } break;
  case 2: { L x(defs ? L::Default(E::TWO) : L::Default()); x.define(L::Pair{E::ONE, "one"}); x.define(L::Definition{E::ONE, {"yes"}}); x.define(E::TWO, {"two"}); check(x, m, defs ? 2 : -1, nullptr); } break;
  case 3: {
    L x; x.define(E::ONE, "one", "yes").define(E::TWO, "two");
    int calls = 0; E got = E::NONE; size_t len = 0;
    x.set_default(L::UnknownNameHandler([&](TextView t) { ++calls; len = t.size(); return E::TWO; }));
    x.set_default(L::UnknownValueHandler([&](E e) { ++calls; got = e; return TextView("h"); }));
    check(x, m, 2, "h");
    calls = 0;
    EN(x["none"] == E::TWO && calls == 1 && len == 4, "handler of undefined names, with the name");
    EN(x[E::NONE] == "h" && calls == 2 && got == E::NONE, "handler of undefined values, with the value");
    bool threw = false;
    try { std::initializer_list<TextView> none; x.define(E::NONE, none); } catch (std::invalid_argument const &) { threw = true; }
    EN(threw, "a definition has at least one name");
  } break;
  }
}
// Names over a small alphabet.
VC(vc_names) {
  vf_bounded("two names of up to 2 characters");
  static char const C[] = {'a', 'A', 'b', '[', 'z', '{'};
  unsigned part = vf_part(6);
  size_t n = part % 3, k = vf_pick("second size", 0, 2), q = part / 3 ? n : k;
  char *a = (char *)vf_buffer(n, "first"), *b = (char *)vf_buffer(k, "second");
  for (size_t i = 0; i < n; ++i) a[i] = C[vf_pick("first name", 0, i ? 1 : 3)];
  for (size_t i = 0; i < k; ++i) b[i] = C[vf_pick("second name", 0, i ? 2 : 3)];
  char c[2];
  auto fold = [](char x) -> int { return vf_ite(vf_and(x >= 'a', x <= 'z'), x - 32, x); };
  auto eq = [&](char const *x, size_t xn, char const *y, size_t yn) { if (xn != yn) return 0; int r = 1; for (size_t i = 0; i < xn; ++i) r = vf_and(r, fold(x[i]) == fold(y[i])); return r; };
  static int const V[] = {0, 7, -1, 1 << 30};
  int v1 = V[vf_pick("first value", 0, 1)], v2 = V[vf_pick("second value", 1, VF_N(2, 3))];
  Lexicon<int> x;
  x.define(v1, TextView(a, n));
  bool threw = false;
  try { x.define(v2, TextView(b, k)); } catch (std::invalid_argument const &) { threw = true; }
  EN(threw == (bool)eq(a, n, b, k), "a name already defined is an error");
  EN(x.count() == (threw || v1 == v2 ? 1 : 2), "the count of values defined");
  // any name
  for (size_t i = 0; i < q; ++i) c[i] = C[vf_pick("name", 0, i ? 1 : 3)];
  bool none = false; int r = 0;
  try { r = x[TextView(c, q)]; } catch (std::domain_error const &) { none = true; }
  int is1 = eq(a, n, c, q), is2 = !threw && eq(b, k, c, q);
  if (is1) EN(!none && r == v1, "value of the first name");
  else if (is2) EN(!none && r == v2, "value of the second name");
  else EN(none, "error for any other name");
}
// As text.
VC(vc_text) {
  L x(L::with_multi{{E::ONE, {"one", "yes"}}, {E::TWO, {"two"}}});
  char b[64];
  FixedBufferWriter w(b, sizeof b);
  bwf::Spec s;
  s._type = "gsd"[vf_pick("type", 0, 2)];
  bwformat(w, s, x);
  bool first = x.begin()->_value == E::ONE;
  EN(w.view() == (s._type == 'g' ? (first ? "[one,1],[two,2]" : "[two,2],[one,1]") : s._type == 's' ? (first ? "one,two" : "two,one") : (first ? "1,2" : "2,1")), "the pairs, names or values");
}
