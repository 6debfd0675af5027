// C12: the hash map against a sequence model, for every hash function on the keys used (the hash of each
// key is chosen freely), over histories of inserts followed by erase, range erase, expand, lookups.
// vf-opt vc_history: split=7 cost=9
// vf-opt vc_erase_one: split=7 cost=5
// vf-opt vc_erase_range: split=7 cost=5
// vf-opt vc_policy: split=7 cost=6
#include "vf.h"
#include "swoc/IntrusiveHashMap.h"
using namespace swoc;
struct N { N *_next = nullptr; N *_prev = nullptr; unsigned key = 0; };
static uint64_t H[4];
struct D {
  static N *&next_ptr(N *n) { return n->_next; }
  static N *&prev_ptr(N *n) { return n->_prev; }
  static unsigned key_of(N *n) { return n->key; }
  static uint64_t hash_of(unsigned k) { return H[k]; }
  static bool equal(unsigned a, unsigned b) { return a == b; }
};
using Map = IntrusiveHashMap<D>;
static N g[12];
static bool in[12];
static unsigned const KEYS = 3;
static unsigned total() { unsigned t = 0; for (bool b : in) t += b; return t; }
// The map holds exactly the elements marked in.
static void check(Map &m) {
  Map const &c = m;
  unsigned t = total(), seen = 0;
  EN(m.count() == t, "count is the number of elements");
  bool vis[12] = {false};
  bool closed[4] = {false};
  N *prev = nullptr;
  for (auto &x : m) {
    unsigned i = &x - g;
    EN(i < 12 && in[i] && !vis[i], "iterates over each element once");
    if (i >= 12 || vis[i]) return;
    vis[i] = true;
    if (prev && prev->key != x.key) closed[prev->key] = true;
    EN(!closed[x.key], "elements with equal keys are contiguous");
    EN(x._prev == prev, "links agree");
    prev = &x;
    if (++seen > t) return;
  }
  EN(seen == t, "iterates over all elements");
  unsigned cseen = 0;
  for (auto &x : c) { (void)x; if (++cseen > t) break; }
  EN(cseen == t, "const iteration");
  for (unsigned k = 0; k <= KEYS; ++k) {
    unsigned n = 0;
    for (unsigned i = 0; i < 12; ++i) n += in[i] && g[i].key == k;
    auto f = m.find(k);
    EN((f != m.end()) == (n > 0), "finds a key exactly when present");
    if (n) EN(f->key == k && in[&*f - g], "finds an element with the key");
    EN((N const *)c.find(k) == (N *)f, "const find");
    auto r = m.equal_range(k);
    unsigned e = 0;
    for (auto &x : r) { EN(x.key == k, "equal range has the key"); if (++e > n) break; }
    EN(e == n, "equal range covers all elements with the key");
    auto cr = c.equal_range(k);
    e = 0;
    for (auto &x : cr) { EN(x.key == k, "const equal range"); if (++e > n) break; }
    EN(e == n, "const equal range");
  }
  for (unsigned i = 0; i < 12; ++i) {
    if (!in[i] && i > 5) continue;
    EN((N *)m.find(&g[i]) == (in[i] ? &g[i] : nullptr), "finds exactly the elements present");
    EN((N const *)c.find(const_cast<N const *>(&g[i])) == (in[i] ? &g[i] : nullptr), "finds exactly the elements present");
  }
}
// the hash functions that differ up to renaming buckets: every way the keys can collide now, and after growing
static void hashes() {
  static uint64_t const T[7][3] = {{0, 1, 2}, {0, 0, 1}, {0, 1, 0}, {0, 1, 1}, {0, 0, 0}, {0, 3, 1}, {0, 3, 6}};
  for (auto &b : in) b = false;
  for (auto &n : g) n = N{};
  unsigned t = vf_part(7);
  for (unsigned i = 0; i < KEYS; ++i) H[i] = T[t][i];
  H[3] = vf_pick("hash of an absent key", 0, 1);
}
static void insert(Map &m, unsigned n) {
  for (unsigned i = 0; i < n; ++i) { g[i].key = vf_pick("key", 0, i < KEYS ? i : KEYS - 1); m.insert(&g[i]); in[i] = true; }
}
static unsigned const NI = VF_N(4, 5);
VC(vc_erase_one) {
  vf_bounded("histories of 4 inserts (5 in the thorough tier) over 3 keys, then two erases");
  hashes();
  Map m(3);
  insert(m, NI);
  check(m);
  unsigned x = vf_pick("which", 0, NI - 1), how = vf_pick("how", 0, 1);
  N *nx = g[x]._next;
  if (how) { auto r = m.erase(m.iterator_for(&g[x])); EN((N *)r == nx, "erase returns the next element"); }
  else EN(m.erase(&g[x]), "erase reports success");
  in[x] = false;
  EN(!g[x]._next && !g[x]._prev, "erased element is unlinked");
  check(m);
  EN(!m.erase(&g[x]), "erasing an absent element is refused");
  check(m);
  unsigned y = vf_pick("second", 0, NI - 1);
  EN(m.erase(&g[y]) == in[y], "second erase");
  in[y] = false;
  check(m);
  m.insert(&g[x]);
  in[x] = true;
  check(m);
  vf_cover("end");
}
VC(vc_erase_range) {
  vf_bounded("histories of 4 inserts (5 in the thorough tier) over 3 keys, then a range erase");
  hashes();
  Map m(3);
  insert(m, NI);
  unsigned f = vf_pick("from", 0, NI), t = vf_pick("to", 0, NI);
  VF_REQUIRES(f <= t);
  auto a = m.begin(), b = m.begin();
  for (unsigned i = 0; i < f; ++i) ++a;
  for (unsigned i = 0; i < t; ++i) ++b;
  for (auto s = a; s != b; ++s) in[&*s - g] = false;
  N *lim = b;
  auto r = vf_bool("as range") ? m.erase(Map::range{a, b}) : m.erase(a, b);
  EN((N *)r == lim, "returns the limit");
  check(m);
  for (unsigned i = 0; i < NI; ++i) if (!in[i]) { m.insert(&g[i]); in[i] = true; break; }
  check(m);
  vf_cover("end");
}
VC(vc_history) {
  vf_bounded("histories of 4 operations (5 in the thorough tier) on 4 elements over 3 keys");
  hashes();
  H[3] = 0;
  Map m(vf_pick("buckets", 0, 1) ? 1 : 3);
  m.set_expansion_policy(Map::MANUAL);
  for (unsigned i = 0; i < 4; ++i) g[i].key = i < 3 ? i : vf_pick("key", 0, 2);
  unsigned steps = vf_pick("steps", 1, VF_N(4, 5));
  for (unsigned s = 0; s < steps; ++s) {
    unsigned x = vf_pick("op", 0, 4);
    if (x == 4) { m.expand(); }
    else if (in[x]) { EN(m.erase(&g[x]), "erase"); in[x] = false; }
    else { m.insert(&g[x]); in[x] = true; }
  }
  check(m);
  EN(&m.clear() == &m, "clear returns the map");
  for (auto &b : in) b = false;
  check(m);
  m.insert(&g[0]); in[0] = true;
  check(m);
  vf_cover("end");
}
// automatic expansion under each policy changes nothing but the bucket count
VC(vc_policy) {
  vf_bounded("6 inserts over 3 keys under each policy and limits 0 to 2");
  hashes();
  H[3] = 0;
  Map m(1);
  auto pol = (Map::ExpansionPolicy)vf_pick("policy", 0, 2);
  unsigned lim = vf_pick("limit", 0, 2);
  EN(m.get_expansion_policy() == Map::AVERAGE && m.get_expansion_limit() == 4, "defaults");
  m.set_expansion_policy(pol).set_expansion_limit(lim);
  EN(m.get_expansion_policy() == pol && m.get_expansion_limit() == lim, "policy and limit");
  for (unsigned i = 0; i < 6; ++i) {
    g[i].key = i < 4 ? vf_pick("key", 0, i < 2 ? i : 2) : i % 3;
    size_t before = m.bucket_count();
    m.insert(&g[i]);
    in[i] = true;
    size_t bc = m.bucket_count();
    EN(bc >= before, "expansion grows the table");
    if (pol == Map::MANUAL) EN(bc == before, "no expansion when manual");
    if (pol == Map::AVERAGE) { EN((bc > before) == ((i + 1) / before > lim), "expands when the average load passes the limit"); if (bc > before) vf_cover("expanded"); }
    check(m);
    EN(m.get_expansion_policy() == pol && m.get_expansion_limit() == lim, "policy and limit kept");
  }
  Map o{std::move(m)};
  check(o);
  unsigned n = 0;
  o.apply([&](N *) { ++n; });
  EN(n == 6, "apply visits all");
  o.apply([&](N &) { --n; });
  EN(n == 0, "apply by reference visits all");
  o.erase(&g[1]); in[1] = false;
  o.erase(&g[4]); in[4] = false;
  check(o);
  vf_cover("end");
}
// under the maximum policy only a bucket with more than the limit of elements and distinct keys expands
VC(vc_maximum) {
  vf_bounded("up to 6 operations");
  for (auto &b : in) b = false;
  H[0] = 0; H[1] = 0; H[2] = 1;
  Map m(3);
  m.set_expansion_policy(Map::MAXIMUM).set_expansion_limit(2);
  for (unsigned i = 0; i < 3; ++i) { g[i].key = 0; m.insert(&g[i]); in[i] = true; EN(m.bucket_count() == 3, "equal keys do not expand"); }
  unsigned a = vf_pick("erase", 0, 2), b = vf_pick("erase", 0, 2);
  m.erase(&g[a]); in[a] = false;
  if (in[b]) { m.erase(&g[b]); in[b] = false; }
  g[3].key = 1;
  m.insert(&g[3]); in[3] = true;
  EN((m.bucket_count() > 3) == (total() > 2), "expands when a bucket passes the limit");
  check(m);
}
VC(vc_prime) {
  vf_bounded("requested sizes up to 4000");
  unsigned n = vf_pick("n", 1, 60);
  Map m(n);
  EN(m.bucket_count() >= n, "at least the requested number of buckets");
  unsigned b = m.bucket_count();
  m.expand();
  EN(m.bucket_count() > b, "expansion grows");
}
VC(vn_count) {
  H[0] = 0; H[1] = 1; H[2] = 1;
  Map m(3);
  insert(m, 3);
  EN(g[0]._next == &g[1], "negative control");
}
