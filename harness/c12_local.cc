// C12, local contracts: operations on a map with any number of elements and active buckets. Only the neighbours of the
// element and of its bucket exist, all others are opaque addresses, so touching any of them is a failed obligation.
// State invariant: the elements of a bucket are consecutive in the list, in the order of the active buckets; an active
// bucket knows its first element and its count, an inactive one is empty.
#include "vf.h"
#include "swoc/IntrusiveHashMap.h"
using namespace swoc;
struct N { N *_next = nullptr; N *_prev = nullptr; unsigned key = 0; };
static uint64_t hash_;
struct D {
  static N *&next_ptr(N *n) { return n->_next; }
  static N *&prev_ptr(N *n) { return n->_prev; }
  static unsigned key_of(N *n) { return n->key; }
  static uint64_t hash_of(unsigned) { return hash_; }
  static bool equal(unsigned a, unsigned b) { return a == b; }
};
using Map = IntrusiveHashMap<D>;
static N P, V, X; // V is the element operated on
static N *el(int k) { return (N *)vf_opaque(k); }
static Map::Bucket *bu(int k) { return (Map::Bucket *)vf_opaque(k); }
struct S { // the map and what is known of it
  Map m{3};
  Map::Bucket *pb, *b, *nb;
  bool haspb, hasnb, more_l, more_r; // active neighbours of the bucket; active buckets past these
  size_t n, act, cp, cn;
  bool auto_;
  S(bool any_hash) {
    EN(m.bucket_count() == 3, "three buckets");
    pb = &m._table[0], b = &m._table[1], nb = &m._table[2];
    hash_ = any_hash ? vf_u64("hash") : 1;
    VF_REQUIRES(hash_ % 3 == 1);
    m.set_expansion_policy((Map::ExpansionPolicy)vf_pick("policy", 0, 2));
    m.set_expansion_limit(vf_u64("limit"));
    n = vf_u64("n"), act = vf_u64("active"), cp = vf_u64("count before"), cn = vf_u64("count after");
    VF_REQUIRES(vf_and(vf_and(cp > 0, cp < uint64_t(1) << 60), vf_and(cn > 0, cn < uint64_t(1) << 60)));
    m._list._count = n, m._active_buckets._count = act;
  }
  // the elements l, V, r where l and r may be null; there may be more past these
  void elements(N *l, N *v, N *r, bool ml, bool mr) {
    N *seq[3]; int k = 0;
    for (N *e : {l, v, r}) if (e) seq[k++] = e;
    for (int i = 0; i < k; ++i) seq[i]->_prev = i ? seq[i - 1] : ml ? el(20) : nullptr, seq[i]->_next = i + 1 < k ? seq[i + 1] : mr ? el(21) : nullptr;
    VF_REQUIRES(ml || mr ? vf_and(n > k, n < uint64_t(1) << 60) : n == k);
    m._list._head = ml ? el(22) : k ? seq[0] : nullptr;
    m._list._tail = mr ? el(23) : k ? seq[k - 1] : nullptr;
  }
  void is_elements(N *l, N *v, N *r, bool ml, bool mr, size_t c) {
    N *seq[3]; int k = 0;
    for (N *e : {l, v, r}) if (e) seq[k++] = e;
    for (int i = 0; i < k; ++i) {
      EN(seq[i]->_prev == (i ? seq[i - 1] : ml ? el(20) : nullptr), "previous element");
      EN(seq[i]->_next == (i + 1 < k ? seq[i + 1] : mr ? el(21) : nullptr), "next element");
    }
    EN(m._list._head == (ml ? el(22) : k ? seq[0] : nullptr), "first element");
    EN(m._list._tail == (mr ? el(23) : k ? seq[k - 1] : nullptr), "last element");
    EN(m.count() == c, "number of elements");
  }
  void buckets(bool self) {
    Map::Bucket *seq[3]; int k = 0;
    if (haspb) seq[k++] = pb;
    if (self) seq[k++] = b;
    if (hasnb) seq[k++] = nb;
    for (int i = 0; i < k; ++i) seq[i]->_link._prev = i ? seq[i - 1] : more_l ? bu(24) : nullptr, seq[i]->_link._next = i + 1 < k ? seq[i + 1] : more_r ? bu(25) : nullptr;
    VF_REQUIRES(more_l || more_r ? vf_and(act > k, act < uint64_t(1) << 60) : act == k);
    m._active_buckets._head = more_l ? bu(26) : k ? seq[0] : nullptr;
    m._active_buckets._tail = more_r ? bu(27) : k ? seq[k - 1] : nullptr;
    pb->_count = haspb ? cp : 0, nb->_count = hasnb ? cn : 0;
  }
  void is_buckets(bool self, size_t c) {
    Map::Bucket *seq[3]; int k = 0;
    if (haspb) seq[k++] = pb;
    if (self) seq[k++] = b;
    if (hasnb) seq[k++] = nb;
    for (int i = 0; i < k; ++i) {
      EN(seq[i]->_link._prev == (i ? seq[i - 1] : more_l ? bu(24) : nullptr), "previous active bucket");
      EN(seq[i]->_link._next == (i + 1 < k ? seq[i + 1] : more_r ? bu(25) : nullptr), "next active bucket");
    }
    EN(m._active_buckets._head == (more_l ? bu(26) : k ? seq[0] : nullptr), "first active bucket");
    EN(m._active_buckets._tail == (more_r ? bu(27) : k ? seq[k - 1] : nullptr), "last active bucket");
    EN(m._active_buckets._count == c, "number of active buckets");
    EN(pb->_count == (haspb ? cp : 0) && nb->_count == (hasnb ? cn : 0), "counts of the other buckets");
    if (!self) EN(!b->_v && b->_count == 0 && !b->_link._next && !b->_link._prev, "an inactive bucket is empty");
  }
  ~S() { // nothing which is opaque is destroyed
    m._list.clear();
    m._active_buckets.clear();
  }
};
VC(vc_local_erase) {
  S s(false);
  Map &m = s.m;
  V.key = vf_u32("key"), P.key = vf_u32("key"), X.key = vf_u32("key");
  int lp = vf_pick("left", 0, 2), rp = vf_pick("right", 0, 2); // neighbour: none, in another bucket, in the same bucket
  N *l = lp ? &P : nullptr, *r = rp ? &X : nullptr;
  s.haspb = lp == 1 || (lp == 2 && vf_bool("bucket before")), s.hasnb = rp == 1 || (rp == 2 && vf_bool("bucket after"));
  s.more_l = s.haspb && vf_bool("buckets before"), s.more_r = s.hasnb && vf_bool("buckets after");
  bool ml = lp && vf_bool("elements before"), mr = rp && vf_bool("elements after");
  s.elements(l, &V, r, ml, mr);
  s.buckets(true);
  size_t k = vf_u64("count"), own = 1 + (lp == 2) + (rp == 2);
  VF_REQUIRES(own == 1 ? k == 1 : vf_and(k >= own, k <= s.n));
  s.b->_count = k;
  s.b->_mixed_p = vf_bool("mixed");
  N *first = lp < 2 ? &V : ml && vf_bool("farther") ? el(28) : &P;
  s.b->_v = first;
  if (s.haspb) s.pb->_v = lp == 1 && !(ml && vf_bool("farther before")) ? &P : el(29);
  if (s.hasnb) s.nb->_v = rp == 1 ? &X : el(30);
  N *pv = s.pb->_v, *nv = s.nb->_v;
  auto i = m.erase(m.iterator_for(&V));
  EN((N *)i == r, "the element after the erased one");
  s.is_elements(l, nullptr, r, ml, mr, s.n - 1);
  EN(!V._next && !V._prev, "the erased element is not linked");
  s.is_buckets(own > 1, own > 1 ? s.act : s.act - 1);
  if (own > 1) { EN(s.b->_count == k - 1, "count of the bucket"); EN(s.b->_v == (lp < 2 ? &X : first), "first element of the bucket"); vf_cover("kept"); }
  EN(s.pb->_v == pv && s.nb->_v == nv, "other buckets have the same first element");
  vf_cover("end");
}
VC(vc_local_insert) { // the first element of a bucket, no expansion
  S s(true);
  Map &m = s.m;
  V.key = vf_u32("key"), V._next = V._prev = el(31);
  bool any = vf_bool("any");
  s.haspb = any, s.hasnb = false, s.more_l = any && vf_bool("buckets before"), s.more_r = false;
  bool ml = any && vf_bool("elements before");
  s.elements(any ? &P : nullptr, nullptr, nullptr, ml, false);
  s.buckets(false);
  if (any) s.pb->_v = ml ? el(29) : &P;
  N *pv = s.pb->_v;
  VF_REQUIRES(vf_or(m.get_expansion_policy() != Map::AVERAGE, (s.n + 1) / 3 <= m.get_expansion_limit()));
  if (m.get_expansion_limit() == 0) VF_REQUIRES(m.get_expansion_policy() != Map::MAXIMUM); // a bucket of one key does not expand anyway, left open
  EN(m.find(V.key) == m.end() && m.find(&V) == m.end() && m.equal_range(V.key).first == m.end(), "nothing is found in an empty bucket");
  EN(!m.erase(&V), "nor erased");
  m.insert(&V);
  s.is_elements(any ? &P : nullptr, &V, nullptr, ml, false, s.n + 1);
  EN(s.b->_v == &V && s.b->_count == 1 && !s.b->_mixed_p, "the bucket has the element");
  EN(s.pb->_v == pv, "other buckets have the same first element");
  s.is_buckets(true, s.act + 1);
  EN((N *)m.find(V.key) == &V && (N *)m.find(&V) == &V, "the element is found");
  vf_cover("end");
}
