// C11, local contracts: every list operation on a list of any length. Only the nodes the operation is
// entitled to touch exist; all other nodes of the list are opaque addresses, so touching any of them is
// a failed obligation (frame). The representation invariant is the doubly linked chain with head, tail, count.
#include "vf.h"
#include "swoc/IntrusiveDList.h"
using namespace swoc;
struct N { N *_next; N *_prev; };
using Ln = IntrusiveLinkage<N>;
using L = IntrusiveDList<Ln>;
static N *lo() { return (N *)vf_opaque(10); }
static N *ro() { return (N *)vf_opaque(11); }
static N *fh() { return (N *)vf_opaque(12); }
static N *ft() { return (N *)vf_opaque(13); }
// window of k real nodes in a list, open to the left and/or right
struct W {
  L l; unsigned k; bool a, b; size_t c;
  W(N *n, unsigned k_, bool a_, bool b_, unsigned base = 0) : k(k_), a(a_), b(b_) {
    c = vf_u64("count");
    if (!a && !b) VF_REQUIRES(c == k);
    else VF_REQUIRES(vf_and(c > k, c < (uint64_t(1) << 60)));
    for (unsigned i = 0; i < k; ++i) {
      n[i]._prev = i ? &n[i - 1] : a ? (N *)vf_opaque(10 + base) : nullptr;
      n[i]._next = i + 1 < k ? &n[i + 1] : b ? (N *)vf_opaque(11 + base) : nullptr;
    }
    l._head = a ? (N *)vf_opaque(12 + base) : k ? &n[0] : nullptr;
    l._tail = b ? (N *)vf_opaque(13 + base) : k ? &n[k - 1] : nullptr;
    l._count = c;
  }
};
// the list is <left rest> s[0..k) <right rest>
static void is(L const &l, N *const *s, unsigned k, N *pl, N *nr, N *h, N *t, size_t c) {
  for (unsigned i = 0; i < k; ++i) {
    EN(s[i]->_prev == (i ? s[i - 1] : pl), "previous link");
    EN(s[i]->_next == (i + 1 < k ? s[i + 1] : nr), "next link");
  }
  EN(l._head == (h ? h : k ? s[0] : nullptr), "head");
  EN(l._tail == (t ? t : k ? s[k - 1] : nullptr), "tail");
  EN(l._count == c && l.count() == c, "count");
  EN(l.empty() == (c == 0), "empty");
}
#define OPEN(w, x, y) ((w) ? (x) : nullptr)
VC(vc_append) {
  N n[1], v{lo(), ro()};
  bool a = vf_bool("more") && true;
  unsigned k = vf_pick("k", 0, 1);
  VF_REQUIRES(!a || k);
  W w(n, k, a, false);
  L &r = w.l.append(&v);
  EN(&r == &w.l, "returns the list");
  N *s[2] = {&n[0], &v};
  is(w.l, k ? s : s + 1, k + 1, OPEN(a, lo(), ), OPEN(false, ro(), ), OPEN(a, fh(), ), nullptr, w.c + 1);
  vf_cover("end");
}
VC(vc_prepend) {
  N n[1], v{lo(), ro()};
  bool b = vf_bool("more");
  unsigned k = vf_pick("k", 0, 1);
  VF_REQUIRES(!b || k);
  W w(n, k, false, b);
  L &r = w.l.prepend(&v);
  EN(&r == &w.l, "returns the list");
  N *s[2] = {&v, &n[0]};
  is(w.l, s, k + 1, nullptr, OPEN(b, ro(), ), nullptr, OPEN(b, ft(), ), w.c + 1);
}
VC(vc_take_head) {
  N n[2];
  unsigned k = vf_pick("k", 0, 2);
  bool b = vf_bool("more");
  VF_REQUIRES(!b || k == 2);
  W w(n, k, false, b);
  N *r = w.l.take_head();
  if (!k) { EN(!r, "nothing to take"); is(w.l, nullptr, 0, nullptr, nullptr, nullptr, nullptr, 0); }
  else {
    EN(r == &n[0] && !r->_next && !r->_prev, "the first element, unlinked");
    N *s[1] = {&n[1]};
    is(w.l, s, k - 1, nullptr, OPEN(b, ro(), ), nullptr, OPEN(b, ft(), ), w.c - 1);
    vf_cover("taken");
  }
}
VC(vc_take_tail) {
  N n[2];
  unsigned k = vf_pick("k", 0, 2);
  bool a = vf_bool("more");
  VF_REQUIRES(!a || k == 2);
  W w(n, k, a, false);
  N *r = w.l.take_tail();
  if (!k) { EN(!r, "nothing to take"); is(w.l, nullptr, 0, nullptr, nullptr, nullptr, nullptr, 0); }
  else {
    EN(r == &n[k - 1] && !r->_next && !r->_prev, "the last element, unlinked");
    N *s[1] = {&n[0]};
    is(w.l, s, k - 1, OPEN(a, lo(), ), nullptr, OPEN(a, fh(), ), nullptr, w.c - 1);
    vf_cover("taken");
  }
}
// insertion around a target: the target and its neighbour on the side of the insertion are touched
VC(vc_insert_after) {
  N n[2], v{lo(), ro()};
  unsigned k = vf_pick("k", 1, 2);
  bool a = vf_bool("before"), b = vf_bool("behind"), it = vf_bool("by iterator");
  VF_REQUIRES(k == 2 || !b);
  W w(n, k, a, b);
  L &r = it ? w.l.insert_after(w.l.iterator_for(&n[0]), &v) : w.l.insert_after(&n[0], &v);
  EN(&r == &w.l, "returns the list");
  N *s[3] = {&n[0], &v, &n[1]};
  is(w.l, s, k + 1, OPEN(a, lo(), ), OPEN(b, ro(), ), OPEN(a, fh(), ), OPEN(b, ft(), ), w.c + 1);
}
VC(vc_insert_before) {
  N n[2], v{lo(), ro()};
  unsigned k = vf_pick("k", 1, 2);
  bool a = vf_bool("before"), b = vf_bool("behind"), it = vf_bool("by iterator");
  VF_REQUIRES(k == 2 || !a);
  W w(n, k, a, b);
  L &r = it ? w.l.insert_before(w.l.iterator_for(&n[k - 1]), &v) : w.l.insert_before(&n[k - 1], &v);
  EN(&r == &w.l, "returns the list");
  N *s1[2] = {&v, &n[0]}, *s2[3] = {&n[0], &v, &n[1]};
  is(w.l, k == 1 ? s1 : s2, k + 1, OPEN(a, lo(), ), OPEN(b, ro(), ), OPEN(a, fh(), ), OPEN(b, ft(), ), w.c + 1);
}
VC(vc_insert_at_end) { // no target: appended
  N n[1], v{lo(), ro()};
  bool a = vf_bool("more"), af = vf_bool("after"), it = vf_bool("by iterator");
  W w(n, 1, a, false);
  if (it) { if (af) w.l.insert_after(w.l.end(), &v); else w.l.insert_before(w.l.end(), &v); }
  else { if (af) w.l.insert_after((N *)nullptr, &v); else w.l.insert_before((N *)nullptr, &v); }
  N *s[2] = {&n[0], &v};
  is(w.l, s, 2, OPEN(a, lo(), ), nullptr, OPEN(a, fh(), ), nullptr, w.c + 1);
}
VC(vc_erase) {
  N n[3];
  unsigned k = vf_pick("k", 1, 3), x = vf_pick("which", 0, 2);
  bool a = vf_bool("before"), b = vf_bool("behind"), it = vf_bool("by iterator");
  VF_REQUIRES(x < k && (!a || x > 0) && (!b || x + 1 < k));
  W w(n, k, a, b);
  N *nx = x + 1 < k ? &n[x + 1] : nullptr;
  if (it) { auto r = w.l.erase(w.l.iterator_for(&n[x])); EN((N *)r == nx, "returns the next element"); }
  else EN(w.l.erase(&n[x]) == nx, "returns the next element");
  EN(!n[x]._next && !n[x]._prev, "unlinked");
  N *s[3]; unsigned m = 0;
  for (unsigned i = 0; i < k; ++i) if (i != x) s[m++] = &n[i];
  is(w.l, s, m, OPEN(a, lo(), ), OPEN(b, ro(), ), OPEN(a, fh(), ), OPEN(b, ft(), ), w.c - 1);
  vf_cover("end");
}
VC(vc_erase_range) {
  vf_bounded("up to 3 consecutive elements removed from a list of any length");
  N n[5];
  unsigned k = vf_pick("k", 1, 5), f = vf_pick("first", 0, 4), e = vf_pick("limit", 0, 5);
  bool a = vf_bool("before"), b = vf_bool("behind");
  VF_REQUIRES(f <= e && f < k && e <= k && e - f <= 3 && (!a || f > 0) && (!b || e < k));
  W w(n, k, a, b);
  auto r = w.l.erase(w.l.iterator_for(&n[f]), e == k ? w.l.end() : w.l.iterator_for(&n[e]));
  EN((N *)r == (e == k ? nullptr : &n[e]), "returns the limit");
  for (unsigned i = f; i < e; ++i) EN(!n[i]._next && !n[i]._prev, "unlinked");
  N *s[5]; unsigned m = 0;
  for (unsigned i = 0; i < k; ++i) if (i < f || i >= e) s[m++] = &n[i];
  is(w.l, s, m, OPEN(a, lo(), ), OPEN(b, ro(), ), OPEN(a, fh(), ), OPEN(b, ft(), ), w.c - (e - f));
}
// whole lists joined: only the ends meeting are touched
VC(vc_join) {
  N n[1], m[1];
  unsigned k = vf_pick("k", 0, 1), j = vf_pick("j", 0, 1);
  bool a = vf_bool("left more"), b = vf_bool("right more"), pre = vf_bool("prepend");
  VF_REQUIRES((!a || k) && (!b || j));
  W x(n, k, a, false), y(m, j, false, b, 4);
  L *d = pre ? &y.l : &x.l, *src = pre ? &x.l : &y.l;
  L &r = pre ? d->prepend(*src) : d->append(*src);
  EN(&r == d, "returns the list");
  EN(src->empty() && !src->head() && !src->tail() && src->count() == 0, "source is left empty");
  N *s[2] = {&n[0], &m[0]};
  N **sp = k ? s : s + 1;
  is(*d, sp, k + j, a ? lo() : nullptr, b ? (N *)vf_opaque(15) : nullptr, a ? fh() : nullptr, b ? (N *)vf_opaque(17) : nullptr, x.c + y.c);
  vf_cover("end");
}
VC(vc_insert_list_after) {
  N n[2], m[2];
  unsigned k = vf_pick("k", 1, 2), j = vf_pick("j", 0, 2);
  bool a = vf_bool("before"), b = vf_bool("behind"), it = vf_bool("by iterator");
  VF_REQUIRES(k == 2 || !b);
  W x(n, k, a, b), y(m, j, false, false, 4);
  L &r = it ? x.l.insert_after(x.l.iterator_for(&n[0]), y.l) : x.l.insert_after(&n[0], y.l);
  EN(&r == &x.l && y.l.empty() && y.l.count() == 0, "returns the list, source empty");
  N *s[4]; unsigned t = 0;
  s[t++] = &n[0];
  for (unsigned i = 0; i < j; ++i) s[t++] = &m[i];
  if (k == 2) s[t++] = &n[1];
  is(x.l, s, t, OPEN(a, lo(), ), OPEN(b, ro(), ), OPEN(a, fh(), ), OPEN(b, ft(), ), x.c + y.c);
}
VC(vc_insert_list_before) {
  N n[2], m[2];
  unsigned k = vf_pick("k", 1, 2), j = vf_pick("j", 0, 2);
  bool a = vf_bool("before"), b = vf_bool("behind"), it = vf_bool("by iterator");
  VF_REQUIRES(k == 2 || !a);
  W x(n, k, a, b), y(m, j, false, false, 4);
  L &r = it ? x.l.insert_before(x.l.iterator_for(&n[k - 1]), y.l) : x.l.insert_before(&n[k - 1], y.l);
  EN(&r == &x.l && y.l.empty() && y.l.count() == 0, "returns the list, source empty");
  N *s[4]; unsigned t = 0;
  if (k == 2) s[t++] = &n[0];
  for (unsigned i = 0; i < j; ++i) s[t++] = &m[i];
  s[t++] = &n[k - 1];
  is(x.l, s, t, OPEN(a, lo(), ), OPEN(b, ro(), ), OPEN(a, fh(), ), OPEN(b, ft(), ), x.c + y.c);
}
// a spliced list of any length: its inner nodes are never touched
VC(vc_insert_long_list) {
  N n[2], m[2];
  bool a = vf_bool("before"), b = vf_bool("behind"), af = vf_bool("after");
  W x(n, 2, a, b);
  L src;
  m[0] = N{(N *)vf_opaque(14), nullptr};
  m[1] = N{nullptr, (N *)vf_opaque(15)};
  src._head = &m[0]; src._tail = &m[1];
  size_t c = vf_range("length", 3, uint64_t(1) << 60);
  src._count = c;
  if (af) x.l.insert_after(&n[0], src); else x.l.insert_before(&n[1], src);
  EN(n[0]._next == &m[0] && m[0]._prev == &n[0] && n[1]._prev == &m[1] && m[1]._next == &n[1], "ends linked");
  EN(m[0]._next == vf_opaque(14) && m[1]._prev == vf_opaque(15), "inner links kept");
  EN(n[0]._prev == (a ? lo() : nullptr) && n[1]._next == (b ? ro() : nullptr), "outer links kept");
  EN(x.l.count() == x.c + c && src.empty() && src.count() == 0, "counts");
  EN(x.l.head() == (a ? fh() : &n[0]) && x.l.tail() == (b ? ft() : &n[1]), "ends kept");
}
VC(vc_move_clear) {
  L l;
  size_t c = vf_range("c", 1, uint64_t(1) << 60), e = vf_range("e", 1, uint64_t(1) << 60);
  l._head = fh(); l._tail = ft(); l._count = c;
  L m{std::move(l)};
  EN(l.empty() && l.count() == 0 && !l.head() && !l.tail(), "source of a move is empty");
  EN(m.head() == fh() && m.tail() == ft() && m.count() == c && !m.empty(), "moved");
  L o;
  o._head = lo(); o._tail = ro(); o._count = e;
  L &r = (o = std::move(m));
  EN(&r == &o && o.head() == fh() && o.tail() == ft() && o.count() == c, "move assigned");
  EN(m.empty() && m.count() == 0 && !m.head() && !m.tail(), "source of a move is empty");
  L &self = o;
  o = std::move(self);
  EN(o.head() == fh() && o.tail() == ft() && o.count() == c, "self move keeps the list");
  std::swap(o, m);
  EN(o.empty() && m.head() == fh() && m.tail() == ft() && m.count() == c, "swap");
  EN(&m.clear() == &m && m.empty() && m.count() == 0 && !m.head() && !m.tail(), "clear");
}
VC(vc_iterator) {
  N n[2];
  bool a = vf_bool("before"), b = vf_bool("behind");
  W w(n, 2, a, b);
  auto i = w.l.iterator_for(&n[0]);
  auto const j = w.l.iterator_for(&n[1]);
  EN(&*i == &n[0] && i.operator->() == &n[0] && (N *)i == &n[0] && i != j, "refers to its element");
  EN(i.has_next() && i.has_successor() && i.has_prev() == a && i.has_predecessor() == a, "neighbours");
  EN(j.has_next() && j.has_successor() == b && j.has_prev() && j.has_predecessor(), "neighbours");
  auto k = i++;
  EN((N *)k == &n[0] && i == j, "post increment");
  k = i--;
  EN((N *)i == &n[0] && k == j, "post decrement");
  EN(++i == j && (N *)--i == &n[0], "increment and decrement");
  auto e = w.l.end();
  EN(!e.has_next() && !e.has_successor() && e.has_prev() && e.has_predecessor(), "end");
  --e;
  EN((N *)e == (b ? ft() : &n[1]), "decrement of end is the tail");
  L const &cl = w.l;
  L::const_iterator ci = cl.iterator_for(&n[0]), ce = cl.end();
  EN(&*ci == &n[0] && ci != ce && (N const *)cl.begin() == (a ? fh() : &n[0]), "const iterator");
  ++ci; EN(&*ci == &n[1], "const increment");
  ci--; EN(&*ci == &n[0], "const decrement");
  ci++; --ci; EN(&*ci == &n[0], "const steps");
  --ce; EN((N const *)ce == (b ? ft() : &n[1]), "const decrement of end");
  EN(w.l.head() == (a ? fh() : &n[0]) && w.l.tail() == (b ? ft() : &n[1]) && cl.head() == w.l.head() && cl.tail() == w.l.tail(), "ends");
}
VC(vn_append_head) {
  N n[1], v{};
  W w(n, 1, false, false);
  w.l.append(&v);
  EN(w.l.head() == &v, "negative control");
}
