// C11, whole lists of bounded length through the public interface: sequences, searches and splits.
// vf-opt vc_ops: cost=5
#include "vf.h"
#include "swoc/IntrusiveDList.h"
using namespace swoc;
struct N { N *_next = nullptr; N *_prev = nullptr; int v = 0; };
using L = IntrusiveDList<IntrusiveLinkage<N>>;
struct M { struct K { static M *&next_ptr(M *m) { return m->n; } static M *&prev_ptr(M *m) { return m->p; } }; M *n = nullptr, *p = nullptr; };
static unsigned const MAX = VF_N(5, 7);
static N g[16];
static void is(L &l, N *const *s, unsigned k) {
  L const &c = l;
  EN(l.count() == k && l.empty() == (k == 0), "count");
  EN(l.head() == (k ? s[0] : nullptr) && l.tail() == (k ? s[k - 1] : nullptr), "ends");
  unsigned i = 0;
  for (auto &x : l) { if (i >= k) break; EN(&x == s[i], "forward order"); ++i; }
  EN(i == k, "forward length");
  i = 0;
  for (auto &x : c) { if (i >= k) break; EN(&x == s[i], "const forward order"); ++i; }
  auto e = l.end();
  for (i = k; i > 0; --i) { --e; EN((N *)e == s[i - 1], "backward order"); }
  EN(k == 0 || !e.has_prev(), "backward length");
}
static void fill(L &l, unsigned k, unsigned base = 0) { for (unsigned i = 0; i < k; ++i) { g[base + i]._next = g[base + i]._prev = &g[15]; l.append(&g[base + i]); } }
VC(vc_split) {
  vf_bounded("lists of up to 5 elements (7 in the thorough tier)");
  L l;
  unsigned k = vf_pick("k", 0, MAX), n = vf_pick("n", 0, MAX + 1), op = vf_pick("op", 0, 3);
  fill(l, k);
  N *s[16];
  for (unsigned i = 0; i < 16; ++i) s[i] = &g[i];
  unsigned m = n;
  if (n > k) m = op & 1 ? 0 : k; // split of too many does nothing, take takes all
  L r = op == 0 ? l.take_prefix(n) : op == 1 ? l.split_prefix(n) : op == 2 ? l.take_suffix(n) : l.split_suffix(n);
  if (op < 2) { is(r, s, m); is(l, s + m, k - m); }
  else { is(l, s, k - m); is(r, s + (k - m), m); }
}
VC(vc_nth) {
  vf_bounded("lists of up to 5 elements (7 in the thorough tier)");
  L l;
  unsigned k = vf_pick("k", 0, MAX), n = vf_pick("n", 0, MAX + 1);
  fill(l, k);
  auto i = l.nth(n);
  EN((N *)i == (n < k ? &g[n] : nullptr), "nth element");
  for (unsigned j = 0; j < 8; ++j) EN(l.contains(&g[j]) == (j < k), "contains");
  unsigned cnt = 0;
  l.apply([&](N *p) { EN(p == &g[cnt], "apply order"); ++cnt; });
  EN(cnt == k, "apply visits all");
  l.apply([&](N &p) { --cnt; });
  EN(cnt == 0, "apply by reference visits all");
  // apply may unlink the element
  L o;
  l.apply([&](N *p) { l.erase(p); o.prepend(p); });
  EN(l.empty() && o.count() == k && o.head() == (k ? &g[k - 1] : nullptr), "elements may be unlinked while applying");
}
// any two operations in a row on any list: compared with an array
VC(vc_ops) {
  vf_bounded("lists of up to 3 elements (4 in the thorough tier) and three operations");
  L l;
  unsigned k = vf_pick("k", 0, VF_N(3, 4));
  fill(l, k);
  N *s[16]; unsigned c = k, nx = 8;
  for (unsigned i = 0; i < k; ++i) s[i] = &g[i];
  auto ins = [&](unsigned at, N *v) { for (unsigned i = c; i > at; --i) s[i] = s[i - 1]; s[at] = v; ++c; };
  auto del = [&](unsigned at) { for (unsigned i = at; i + 1 < c; ++i) s[i] = s[i + 1]; --c; };
  for (unsigned step = 0; step < VF_N(3, 3); ++step) {
    unsigned op = vf_pick("op", 0, 9);
    unsigned w = op >= 4 && c ? vf_pick("where", 0, c - 1) : 0;
    if (op >= 4 && !c) continue;
    N *v = &g[nx];
    switch (op) {
    case 0: l.append(v); ins(c, v); ++nx; break;
    case 1: l.prepend(v); ins(0, v); ++nx; break;
    case 2: { N *r = l.take_head(); EN(r == (c ? s[0] : nullptr), "take_head"); if (c) del(0); break; }
    case 3: { N *r = l.take_tail(); EN(r == (c ? s[c - 1] : nullptr), "take_tail"); if (c) del(c - 1); break; }
    case 4: l.insert_after(s[w], v); ins(w + 1, v); ++nx; break;
    case 5: l.insert_before(s[w], v); ins(w, v); ++nx; break;
    case 6: { N *r = l.erase(s[w]); EN(r == (w + 1 < c ? s[w + 1] : nullptr), "erase returns the next"); del(w); break; }
    case 7: { L o; N *x = &g[nx++], *y = &g[nx++]; o.append(x).append(y); l.insert_after(s[w], o); ins(w + 1, x); ins(w + 2, y); EN(o.empty(), "source empty"); break; }
    case 8: { L o; N *x = &g[nx++], *y = &g[nx++]; o.append(x).append(y); l.insert_before(s[w], o); ins(w, x); ins(w + 1, y); EN(o.empty(), "source empty"); break; }
    case 9: { auto r = l.erase(l.iterator_for(s[w]), l.end()); EN(r == l.end(), "range erase returns the limit"); c = w; break; }
    }
    is(l, s, c);
  }
  L m{std::move(l)};
  is(m, s, c);
  is(l, s, 0);
  vf_cover("end");
}
VC(vc_custom_linkage) {
  vf_bounded("a list of three");
  IntrusiveDList<M::K> l;
  M a, b, c;
  l.append(&a).append(&c).insert_before(&c, &b);
  EN(a.n == &b && b.n == &c && !c.n && c.p == &b && b.p == &a && !a.p && l.count() == 3, "custom link members");
  EN(l.take_tail() == &c && l.take_head() == &a && l.head() == &b && l.tail() == &b, "ends");
}
VC(vn_take_suffix) {
  L l;
  unsigned k = vf_pick("k", 0, 3);
  fill(l, k);
  EN(l.take_suffix(2).count() == 2, "negative control");
}
