// C10: the red black tree. Every valid tree of black height up to 2 (and a family of height 3) is generated,
// then one insertion at any leaf position or removal of any node must give a valid tree over the same sequence.
// As each operation maps every valid tree to a valid tree, so does every history within the size bound.
// vf-src: RBTree
// vf-opt vc_insert2: split=4 cost=3
// vf-opt vc_remove2: split=4 cost=4
// vf-opt vc_insert3: split=8 cost=4
// vf-opt vc_remove3: split=8 cost=5
#include "vf.h"
#include "swoc/RBTree.h"
using swoc::detail::RBNode;
using Color = RBNode::Color;
using Dir = RBNode::Direction;
struct T : RBNode { // augmented with the size of the subtree, maintained by the documented hook
  int size = 1;
  bool added = false;
  void structure_fixup() override { size = 1 + (_left ? ((T *)_left)->size : 0) + (_right ? ((T *)_right)->size : 0); }
};
static T pool[80];
static unsigned used;
static void reset() { used = 0; for (auto &t : pool) { t._left = t._right = t._parent = nullptr; t._color = Color::RED; t.size = 1; t.added = false; } }
static T *node(Color c, T *l, T *r) {
  T *t = &pool[used++];
  t->_color = c;
  if (l) t->set_child(l, Dir::LEFT);
  if (r) t->set_child(r, Dir::RIGHT);
  t->structure_fixup();
  return t;
}
static T *red_leaf() { return node(Color::RED, nullptr, nullptr); }
// a subtree of the black height, root black unless a red one is allowed and picked
static T *gen(unsigned bh, bool red_ok) {
  if (bh == 0) return red_ok && vf_pick("red leaf", 0, 1) ? red_leaf() : nullptr;
  if (red_ok && vf_pick("red", 0, 1)) { T *l = gen(bh, false), *r = gen(bh, false); return node(Color::RED, l, r); }
  T *l = gen(bh - 1, true), *r = gen(bh - 1, true);
  return node(Color::BLACK, l, r);
}
// a fixed subtree of one of several forms
static T *fixed(unsigned bh, unsigned form) {
  if (bh == 0) return form == 1 ? red_leaf() : nullptr;
  if (form == 2) { T *l = fixed(bh, 0), *r = fixed(bh, 1); return node(Color::RED, l, r); }
  T *l = fixed(bh - 1, form == 1), *r = fixed(bh - 1, 0);
  return node(Color::BLACK, l, r);
}
// varied along one side only
static T *spine(unsigned bh, bool red_ok, unsigned &path) {
  if (bh == 0) return red_ok && vf_pick("red leaf", 0, 1) ? red_leaf() : nullptr;
  bool red = red_ok && vf_pick("red", 0, 1);
  bool right = vf_pick("side", 0, 1);
  unsigned b = red ? bh : bh - 1;
  T *x = spine(b, !red, path);
  T *y = fixed(b, vf_pick("sibling", 0, VF_N(1, red ? 1 : b ? 2 : 1)) * VF_N(!red && b ? 2 : 1, 1));
  return red ? node(Color::RED, right ? y : x, right ? x : y) : node(Color::BLACK, right ? y : x, right ? x : y);
}
static unsigned n_seq; static T *seq[80];
static void walk(T *t) { if (!t) return; walk((T *)t->_left); seq[n_seq++] = t; walk((T *)t->_right); }
// returns the black height, -1 when the subtree is not a valid one
static int valid(T *t, T *parent, bool red_parent, unsigned depth) {
  if (!t) return 0;
  if (depth > 12) return -1;
  EN(t->_parent == parent, "parent link");
  bool red = t->_color == Color::RED;
  EN(!(red && red_parent), "no red node has a red child");
  int l = valid((T *)t->_left, t, red, depth + 1), r = valid((T *)t->_right, t, red, depth + 1);
  EN(l == r, "every path has the same number of black nodes");
  EN(t->size == 1 + (t->_left ? ((T *)t->_left)->size : 0) + (t->_right ? ((T *)t->_right)->size : 0), "structure hook keeps the node's summary");
  return l + !red;
}
static void check(T *root, T **want, unsigned n) {
  EN((root == nullptr) == (n == 0), "root present exactly when the tree is not empty");
  if (!root) return;
  EN(root->_color == Color::BLACK, "root is black");
  EN(!root->_parent, "root has no parent");
  EN(valid(root, nullptr, false, 0) >= 0, "valid tree");
  n_seq = 0;
  walk(root);
  EN(n_seq == n, "number of nodes");
  for (unsigned i = 0; i < n && i < n_seq; ++i) EN(seq[i] == want[i], "in-order sequence");
}
static void insert_into(T *root) {
  T *want[80]; unsigned n = 0;
  n_seq = 0;
  walk(root);
  T *x = &pool[used++];
  unsigned at = vf_pick("at", 0, n_seq);
  for (unsigned i = 0; i < n_seq; ++i) { if (i == at) want[n++] = x; want[n++] = seq[i]; }
  if (at == n_seq) want[n++] = x;
  T *nr = x;
  if (!root) nr = (T *)x->rebalance_after_insert();
  else {
    if (at < n_seq && !seq[at]->_left) seq[at]->set_child(x, Dir::LEFT);
    else seq[at - 1]->set_child(x, Dir::RIGHT);
    nr = (T *)x->rebalance_after_insert();
  }
  check(nr, want, n);
  vf_cover("inserted");
}
static void remove_from(T *root) {
  if (!root) return;
  T *want[80]; unsigned n = 0;
  n_seq = 0;
  walk(root);
  unsigned at = vf_pick("at", 0, n_seq - 1);
  for (unsigned i = 0; i < n_seq; ++i) if (i != at) want[n++] = seq[i];
  T *nr = (T *)seq[at]->remove();
  check(nr, want, n);
  vf_cover("removed");
}
static T *small() { reset(); unsigned bh = vf_pick("height", 0, 2); return bh ? gen(bh, false) : nullptr; }
static T *tall() { reset(); unsigned p = 0; return spine(3, false, p); }
VC(vc_insert2) { vf_bounded("all trees of black height up to 2 (up to 15 nodes)"); unsigned p = vf_part(4); T *r = small(); VF_REQUIRES(used % 4 == p); insert_into(r); }
VC(vc_remove2) { vf_bounded("all trees of black height up to 2 (up to 15 nodes)"); unsigned p = vf_part(4); T *r = small(); VF_REQUIRES(used % 4 == p); remove_from(r); }
VC(vc_insert3) { vf_bounded("trees of black height 3 varied along one path (more forms beside it in the thorough tier)"); unsigned p = vf_part(8); T *r = tall(); VF_REQUIRES(used % 8 == p); insert_into(r); }
VC(vc_remove3) { vf_bounded("trees of black height 3 varied along one path (more forms beside it in the thorough tier)"); unsigned p = vf_part(8); T *r = tall(); VF_REQUIRES(used % 8 == p); remove_from(r); }
// histories from the empty tree: k inserts at any place, then removals of any nodes
VC(vc_history) {
  vf_bounded("5 insertions, then removal of all in any order");
  reset();
  T *root = nullptr;
  T *want[80]; unsigned n = 0;
  for (unsigned k = 0; k < VF_N(5, 6); ++k) {
    T *x = &pool[used++];
    unsigned at = vf_pick("at", 0, n);
    if (root) { if (at < n && !want[at]->_left) want[at]->set_child(x, Dir::LEFT); else want[at - 1]->set_child(x, Dir::RIGHT); }
    for (unsigned i = n; i > at; --i) want[i] = want[i - 1];
    want[at] = x;
    ++n;
    root = (T *)x->rebalance_after_insert();
    if (k < 3) continue;
    check(root, want, n);
  }
  unsigned first = vf_pick("out", 0, n - 1);
  for (unsigned at = first; n;) {
    T *x = want[at];
    root = (T *)x->remove();
    for (unsigned i = at; i + 1 < n; ++i) want[i] = want[i + 1];
    --n;
    check(root, want, n);
    at = n ? (n > 2 ? vf_pick("out", 0, n - 1) : 0) : 0;
  }
}
// the contracts of the small functions, on nodes whose subtrees may not be looked into
VC(vc_rotate) {
  T a, b, c, p;
  reset();
  bool right = vf_bool("right"), has_inner = vf_bool("inner"), has_parent = vf_bool("parent"), is_left = vf_bool("left child");
  Dir d = right ? Dir::RIGHT : Dir::LEFT, o = right ? Dir::LEFT : Dir::RIGHT;
  auto at = [](T &t, Dir x) -> RBNode *& { return x == Dir::LEFT ? t._left : t._right; };
  RBNode *outer = (RBNode *)vf_opaque(20), *far = (RBNode *)vf_opaque(21), *in = (RBNode *)vf_opaque(22), *in2 = (RBNode *)vf_opaque(23), *sib = (RBNode *)vf_opaque(24), *up = (RBNode *)vf_opaque(25);
  // a rotated towards d: its other child b becomes the root, b's inner child c moves over. No hooks run (base nodes).
  static RBNode A, B, C, P;
  RBNode *x = &A, *y = &B, *z = &C, *q = &P;
  x->_color = y->_color = z->_color = q->_color = Color::BLACK;
  (right ? x->_left : x->_right) = y;
  (right ? x->_right : x->_left) = far;
  x->_parent = has_parent ? q : nullptr;
  y->_parent = x;
  (right ? y->_left : y->_right) = outer;
  (right ? y->_right : y->_left) = has_inner ? z : nullptr;
  z->_parent = y; z->_left = in; z->_right = in2;
  q->_left = is_left ? x : sib; q->_right = is_left ? sib : x; q->_parent = up;
  RBNode *r = x->rotate(d);
  EN(r == y && y->_parent == (has_parent ? q : nullptr), "the other child takes the place");
  if (has_parent) EN(q->_left == (is_left ? y : sib) && q->_right == (is_left ? sib : y), "parent refers to the new root");
  EN(q->_parent == up, "grandparent kept");
  EN(x->_parent == y && y->child_at(d) == x && y->child_at(o) == outer, "rotated");
  EN(x->child_at(d) == far && x->child_at(o) == (has_inner ? z : nullptr), "children kept in order");
  if (has_inner) EN(z->_parent == x && z->_left == in && z->_right == in2, "inner child moved over");
  (void)at; (void)a; (void)b; (void)c; (void)p;
}
VC(vc_rotate_none) {
  RBNode A;
  RBNode *far = (RBNode *)vf_opaque(21), *up = (RBNode *)vf_opaque(22);
  bool right = vf_bool("right");
  A._left = right ? nullptr : far; A._right = right ? far : nullptr; A._parent = nullptr;
  (void)up;
  EN(A.rotate(right ? Dir::RIGHT : Dir::LEFT) == &A, "no other child: nothing happens");
  EN(A._left == (right ? nullptr : far) && A._right == (right ? far : nullptr) && !A._parent, "unchanged");
  EN(A.rotate(Dir::NONE) == &A, "no direction: nothing happens");
}
VC(vc_links) {
  RBNode A, B, C;
  EN(A.color() == Color::RED, "new nodes are red");
  EN(A.set_child(&B, Dir::LEFT) == &B && A._left == &B && B._parent == &A && !A._right, "left child");
  EN(A.set_child(&C, Dir::RIGHT) == &C && A._right == &C && C._parent == &A && A._left == &B, "right child");
  RBNode *b = &B, *c = &C, *n = (RBNode *)vf_opaque(20);
  EN(A.direction_of(b) == Dir::LEFT && A.direction_of(c) == Dir::RIGHT && A.direction_of(n) == Dir::NONE, "direction");
  EN(A.child_at(Dir::LEFT) == b && A.child_at(Dir::RIGHT) == c && A.child_at(Dir::NONE) == nullptr, "child at");
  EN(A.flip(Dir::LEFT) == Dir::RIGHT && A.flip(Dir::RIGHT) == Dir::LEFT && A.flip(Dir::NONE) == Dir::NONE, "flip");
  EN(A.left_most_descendant() == b && B.left_most_descendant() == b, "left most");
  A.clear_child(Dir::LEFT);
  EN(!A._left && A._right == c, "clear left");
  A.clear_child(Dir::RIGHT);
  EN(!A._right, "clear right");
}
VC(vn_color) { RBNode A; RBNode *r = A.rebalance_after_insert(); EN(r->color() == Color::RED, "negative control"); }
