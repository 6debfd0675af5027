From 84ae11a09d8c28dc47bb47efa2a94b74d0ca61ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:39 +0000
Subject: [PATCH 01/96] fix: order an IPv6 address after every IPv4 address in
 IPAddr::operator<

---
 code/src/swoc_ip.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index 6403922..c71109a 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -588,7 +588,7 @@ IPAddr::operator<(self_type const &that) const {
   } else if (AF_INET6 == _family) {
     switch (that._family) {
     case AF_INET:
-      return true;
+      return false;
     case AF_INET6:
       return _addr._ip6 < that._addr._ip6;
     default:
-- 
2.43.0


From 79d35990538f03d978bed80525739f2de584c69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:39 +0000
Subject: [PATCH 02/96] fix: IP6Addr shift by zero shifted a word by its full
 width (undefined behaviour)

---
 code/src/swoc_ip.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index c71109a..4d794d8 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -373,6 +373,9 @@ IP6Addr::cmp(const self_type &that) const {
 IP6Addr &
 IP6Addr::operator<<=(unsigned int n) {
   static constexpr auto MASK = ~word_type{0};
+  if (n == 0) { // shifting a word by its full width is undefined.
+    return *this;
+  }
   if (n < WORD_WIDTH) {
     _addr._store[MSW] <<= n;
     _addr._store[MSW]  |= (_addr._store[LSW] >> (WORD_WIDTH - n)) & ~(MASK << n);
@@ -388,6 +391,9 @@ IP6Addr::operator<<=(unsigned int n) {
 IP6Addr &
 IP6Addr::operator>>=(unsigned int n) {
   static constexpr auto MASK = ~word_type{0};
+  if (n == 0) { // shifting a word by its full width is undefined.
+    return *this;
+  }
   if (n < WORD_WIDTH) {
     _addr._store[LSW] >>= n;
     _addr._store[LSW]  |= (_addr._store[MSW] & ~(MASK << n)) << (WORD_WIDTH - n);
-- 
2.43.0


From 0488335e4d7f5fbaff2d9858a8fcd707a4e16c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:39 +0000
Subject: [PATCH 03/96] fix: IPRange::contains picked the IPv4 range whenever
 it was not empty instead of by family

---
 code/include/swoc/IPRange.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/include/swoc/IPRange.h b/code/include/swoc/IPRange.h
index 547afdb..6cc756f 100644
--- a/code/include/swoc/IPRange.h
+++ b/code/include/swoc/IPRange.h
@@ -2007,7 +2007,7 @@ inline bool IPRange::contains(IPAddr const & addr) const {
   if (addr.family() != _family) {
     return false;
   }
-  if (this->ip4()) {
+  if (this->is_ip4()) {
     return _range._ip4.contains(addr.ip4());
   } else if (this->is_ip6()) {
     return _range._ip6.contains(addr.ip6());
-- 
2.43.0


From 8d8f6bc83eaecb1839b599b825c619b747b4661b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:55 +0000
Subject: [PATCH 04/96] fix: MemSpan::operator== compared element count bytes
 instead of the span contents

---
 code/include/swoc/MemSpan.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/include/swoc/MemSpan.h b/code/include/swoc/MemSpan.h
index 02c170c..32264dd 100644
--- a/code/include/swoc/MemSpan.h
+++ b/code/include/swoc/MemSpan.h
@@ -1118,7 +1118,7 @@ MemSpan<T>::is_same(self_type const &that) const {
 template <typename T>
 constexpr bool
 MemSpan<T>::operator==(self_type const &that) const {
-  return _count == that._count && (_ptr == that._ptr || 0 == memcmp(_ptr, that._ptr, this->size()));
+  return _count == that._count && (_ptr == that._ptr || 0 == memcmp(_ptr, that._ptr, this->data_size()));
 }
 
 template <typename T>
-- 
2.43.0


From 4a69d5e6e4da70f3b514857a2f5c1313a6ab1567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:12 +0000
Subject: [PATCH 05/96] fix: memcmp of MemSpan compared element count bytes
 instead of the span contents

---
 code/include/swoc/MemSpan.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/MemSpan.h b/code/include/swoc/MemSpan.h
index 32264dd..dd07cf1 100644
--- a/code/include/swoc/MemSpan.h
+++ b/code/include/swoc/MemSpan.h
@@ -959,14 +959,14 @@ template <typename T>
 int
 memcmp(MemSpan<T> const &lhs, MemSpan<T> const &rhs) {
   int zret = 0;
-  size_t n = lhs.size();
+  size_t n = lhs.data_size();
 
   // Seems a bit ugly but size comparisons must be done anyway to get the memcmp args.
   if (lhs.count() < rhs.count()) {
     zret = 1;
   } else if (lhs.count() > rhs.count()) {
     zret = -1;
-    n    = rhs.size();
+    n    = rhs.data_size();
   }
   // else the counts are equal therefore @a n and @a zret are already correct.
 
-- 
2.43.0


From 6f265b3b18fa1cc3016289cc1550f9ed6e8f14d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:12 +0000
Subject: [PATCH 06/96] fix: memcpy of MemSpan copied element count bytes
 instead of the span contents

---
 code/include/swoc/MemSpan.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/include/swoc/MemSpan.h b/code/include/swoc/MemSpan.h
index dd07cf1..6a1f94a 100644
--- a/code/include/swoc/MemSpan.h
+++ b/code/include/swoc/MemSpan.h
@@ -983,19 +983,19 @@ using std::memcmp;
 template <typename T>
 T *
 memcpy(MemSpan<T> &dst, MemSpan<T> const &src) {
-  return static_cast<T *>(std::memcpy(dst.data(), src.data(), std::min(dst.size(), src.size())));
+  return static_cast<T *>(std::memcpy(dst.data(), src.data(), std::min(dst.data_size(), src.data_size())));
 }
 
 template <typename T>
 T *
 memcpy(MemSpan<T> &dst, T *src) {
-  return static_cast<T *>(std::memcpy(dst.data(), src, dst.size()));
+  return static_cast<T *>(std::memcpy(dst.data(), src, dst.data_size()));
 }
 
 template <typename T>
 T *
 memcpy(T *dst, MemSpan<T> &src) {
-  return static_cast<T *>(std::memcpy(dst, src.data(), src.size()));
+  return static_cast<T *>(std::memcpy(dst, src.data(), src.data_size()));
 }
 
 inline char *
-- 
2.43.0


From 1db33c597e3ea03bb0493fa2018beb6b005f2645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:12 +0000
Subject: [PATCH 07/96] fix: memcpy of a string view to a MemSpan wrote past
 the end of the span

---
 code/include/swoc/MemSpan.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/MemSpan.h b/code/include/swoc/MemSpan.h
index 6a1f94a..ffdd380 100644
--- a/code/include/swoc/MemSpan.h
+++ b/code/include/swoc/MemSpan.h
@@ -1000,12 +1000,12 @@ memcpy(T *dst, MemSpan<T> &src) {
 
 inline char *
 memcpy(MemSpan<char> &span, std::string_view view) {
-  return static_cast<char *>(std::memcpy(span.data(), view.data(), std::min(view.size(), view.size())));
+  return static_cast<char *>(std::memcpy(span.data(), view.data(), std::min(span.size(), view.size())));
 }
 
 inline void *
 memcpy(MemSpan<void> &span, std::string_view view) {
-  return std::memcpy(span.data(), view.data(), std::min(view.size(), view.size()));
+  return std::memcpy(span.data(), view.data(), std::min(span.size(), view.size()));
 }
 
 using std::memcpy;
-- 
2.43.0


From afdd8c749e657efc00723416304fd4a7a338ca73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:12 +0000
Subject: [PATCH 08/96] fix: MemSpan::align padded by the misalignment instead
 of up to the next aligned address

---
 code/include/swoc/MemSpan.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/MemSpan.h b/code/include/swoc/MemSpan.h
index ffdd380..ced9b1d 100644
--- a/code/include/swoc/MemSpan.h
+++ b/code/include/swoc/MemSpan.h
@@ -1615,7 +1615,7 @@ MemSpan<void>::align() const -> self_type {
 inline auto
 MemSpan<void const>::align(size_t alignment) const -> self_type {
   auto p       = uintptr_t(_ptr);
-  auto padding = p & (alignment - 1);
+  auto padding = (~p + 1) & (alignment - 1);
   size_t size  = 0;
   if (_size > padding) { // if there's not enough to pad, result is zero size.
     size = _size - padding;
@@ -1632,7 +1632,7 @@ MemSpan<void>::align(size_t alignment) const -> self_type {
 inline auto
 MemSpan<void const>::align(size_t alignment, size_t obj_size) const -> self_type {
   auto p       = uintptr_t(_ptr);
-  auto padding = p & (alignment - 1);
+  auto padding = (~p + 1) & (alignment - 1);
   size_t size  = 0;
   if (_size > padding) { // if there's not enough to pad, result is zero size.
     size = ((_size - padding) / obj_size) * obj_size;
-- 
2.43.0


From 06d83bec870fd8146d4cac929d8848319818a613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:12 +0000
Subject: [PATCH 09/96] fix: rebinding a MemSpan to void scaled the byte count
 by the element size twice

---
 code/include/swoc/MemSpan.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/MemSpan.h b/code/include/swoc/MemSpan.h
index ced9b1d..828ce13 100644
--- a/code/include/swoc/MemSpan.h
+++ b/code/include/swoc/MemSpan.h
@@ -935,7 +935,7 @@ template <typename T> struct is_span_compatible<T, void> {
 template <typename T>
 size_t
 is_span_compatible<T, void>::count(size_t size) {
-  return sizeof(T) * size;
+  return size;
 }
 
 template <typename T> struct is_span_compatible<T, void const> {
@@ -946,7 +946,7 @@ template <typename T> struct is_span_compatible<T, void const> {
 template <typename T>
 size_t
 is_span_compatible<T, void const>::count(size_t size) {
-  return sizeof(T) * size;
+  return size;
 }
 /// @endcond
 
-- 
2.43.0


From 06e85010772102d60ededfc8affbe6b79cc2246a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:24 +0000
Subject: [PATCH 10/96] fix: IntrusiveDList range erase did not compile and
 left the element count unchanged

---
 code/include/swoc/IntrusiveDList.h | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/code/include/swoc/IntrusiveDList.h b/code/include/swoc/IntrusiveDList.h
index 2b5b0a2..1abc7c1 100644
--- a/code/include/swoc/IntrusiveDList.h
+++ b/code/include/swoc/IntrusiveDList.h
@@ -924,28 +924,34 @@ IntrusiveDList<L>::erase(const iterator &loc) -> iterator {
 template <typename L>
 auto
 IntrusiveDList<L>::erase(const iterator &first, const iterator &limit) -> iterator {
-  value_type *spot = first;
+  value_type *spot = first._v;
+  value_type *stop = limit._v;
+  if (spot == stop) {
+    return this->iterator_for(stop);
+  }
+
   value_type *prev{L::prev_ptr(spot)};
   if (prev) {
-    L::next_ptr(prev) = limit;
+    L::next_ptr(prev) = stop;
   }
   if (spot == _head) {
-    _head = limit;
+    _head = stop;
   }
   // tail is only updated if @a limit is @a end (e.g., @c nullptr).
-  if (nullptr == limit) {
+  if (nullptr == stop) {
     _tail = prev;
   } else {
-    L::prev_ptr(limit) = prev;
+    L::prev_ptr(stop) = prev;
   }
   // Clear links in removed elements.
-  while (spot != limit) {
+  while (spot != stop) {
     value_type *target{spot};
     spot                = L::next_ptr(spot);
     L::prev_ptr(target) = L::next_ptr(target) = nullptr;
+    --_count;
   };
 
-  return {limit._v, this};
+  return this->iterator_for(stop);
 }
 
 template <typename L>
-- 
2.43.0


From 26b1e50e16af7993abc97d67b55261a9898f4a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:38 +0000
Subject: [PATCH 11/96] fix: IntrusiveHashMap range erase did not compile and
 did not update the bucket starts

---
 code/include/swoc/IntrusiveHashMap.h | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/code/include/swoc/IntrusiveHashMap.h b/code/include/swoc/IntrusiveHashMap.h
index 4bbe3b6..2c5f507 100644
--- a/code/include/swoc/IntrusiveHashMap.h
+++ b/code/include/swoc/IntrusiveHashMap.h
@@ -575,21 +575,10 @@ template <typename H>
 auto
 IntrusiveHashMap<H>::erase(iterator const &start, iterator const &limit) -> iterator {
   auto spot{start};
-  Bucket *bucket{this->bucket_for(spot)};
   while (spot != limit) {
-    auto target         = bucket;
-    bucket              = bucket->_link._next; // bump now to avoid forward iteration problems in case of bucket removal.
-    value_type *v_limit = bucket ? bucket->_v : nullptr;
-    while (spot != v_limit && spot != limit) {
-      --(target->_count);
-      ++spot;
-    }
-    if (target->_count == 0) {
-      _active_buckets.erase(target);
-    }
+    spot = this->erase(spot);
   }
-  _list.erase(start, limit);
-  return _list.iterator_for(limit); // convert from const_iterator back to iterator
+  return spot;
 };
 
 template <typename H>
-- 
2.43.0


From 8d772b8ea66283924cd389e3610b7ee6e7c7f584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:48 +0000
Subject: [PATCH 12/96] fix: IntrusiveHashMap erase did not count the removal
 of an element which is not first in its bucket

---
 code/include/swoc/IntrusiveHashMap.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/code/include/swoc/IntrusiveHashMap.h b/code/include/swoc/IntrusiveHashMap.h
index 2c5f507..38500f8 100644
--- a/code/include/swoc/IntrusiveHashMap.h
+++ b/code/include/swoc/IntrusiveHashMap.h
@@ -555,6 +555,8 @@ IntrusiveHashMap<H>::erase(iterator const &loc) -> iterator {
       b->_v = nv;
       --b->_count;
     }
+  } else {
+    --b->_count;
   }
   _list.erase(loc);
   return zret;
-- 
2.43.0


From b993f68254aefc70ca9003a2780eaf998f30e021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:16 +0000
Subject: [PATCH 13/96] fix: the conversion of IntrusiveHashMap range to
 const_range was declared but not defined

---
 code/include/swoc/IntrusiveHashMap.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/code/include/swoc/IntrusiveHashMap.h b/code/include/swoc/IntrusiveHashMap.h
index 38500f8..bd74e4a 100644
--- a/code/include/swoc/IntrusiveHashMap.h
+++ b/code/include/swoc/IntrusiveHashMap.h
@@ -367,6 +367,8 @@ IntrusiveHashMap<H>::range::end() const -> iterator const & {
   return super_type::second;
 }
 
+template <typename H> IntrusiveHashMap<H>::const_range::const_range(range const &r) : super_type(r.first, r.second) {}
+
 template <typename H>
 auto
 IntrusiveHashMap<H>::const_range::begin() const -> const_iterator const & {
-- 
2.43.0


From 45c61186db996a5b0883c8fc59d078b5d75c2248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:55 +0000
Subject: [PATCH 14/96] fix: DiscreteRange relationship, has_union and
 operator^ called a member that does not exist

---
 code/include/swoc/DiscreteRange.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/include/swoc/DiscreteRange.h b/code/include/swoc/DiscreteRange.h
index cfd8dba..7becebf 100644
--- a/code/include/swoc/DiscreteRange.h
+++ b/code/include/swoc/DiscreteRange.h
@@ -464,7 +464,7 @@ template <typename T>
 auto
 DiscreteRange<T>::relationship(self_type const &that) const -> Relation {
   Relation retval = Relation::NONE;
-  if (this->has_intersection(that)) {
+  if (this->has_intersection_with(that)) {
     if (*this == that)
       retval = Relation::EQUAL;
     else if (this->is_subset_of(that))
@@ -568,7 +568,7 @@ DiscreteRange<T>::max() const {
 template <typename T>
 bool
 DiscreteRange<T>::has_union(DiscreteRange::self_type const &that) const {
-  return this->has_intersection(that) || this->is_adjacent_to(that);
+  return this->has_intersection_with(that) || this->is_adjacent_to(that);
 }
 
 template <typename T>
@@ -644,7 +644,7 @@ operator!=(DiscreteRange<T> const &lhs, DiscreteRange<T> const &rhs) {
 template <typename T>
 bool
 operator^(DiscreteRange<T> const &lhs, DiscreteRange<T> const &rhs) {
-  return lhs.has_intersection(rhs);
+  return lhs.has_intersection_with(rhs);
 }
 
 /** Containment ordering.
-- 
2.43.0


From 26bfe729e992be04d37814eca802a343f1e85b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:01 +0000
Subject: [PATCH 15/96] fix: an empty DiscreteRange intersected every range
 ending at the maximum

---
 code/include/swoc/DiscreteRange.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/include/swoc/DiscreteRange.h b/code/include/swoc/DiscreteRange.h
index 7becebf..efb6689 100644
--- a/code/include/swoc/DiscreteRange.h
+++ b/code/include/swoc/DiscreteRange.h
@@ -581,7 +581,7 @@ DiscreteRange<T>::operator&=(DiscreteRange::self_type const &that) {
 template <typename T>
 bool
 DiscreteRange<T>::has_intersection_with(DiscreteRange::self_type const &that) const {
-  return (that._min <= _min && _min <= that._max) || (_min <= that._min && that._min <= _max);
+  return std::max(_min, that._min) <= std::min(_max, that._max);
 }
 
 template <typename T>
-- 
2.43.0


From ce2858fedd0cc518d0ba1965c5cc2147e6a1768c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:24 +0000
Subject: [PATCH 16/96] fix: an empty DiscreteRange was adjacent to ranges near
 the ends of the metric

---
 code/include/swoc/DiscreteRange.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/DiscreteRange.h b/code/include/swoc/DiscreteRange.h
index efb6689..063477f 100644
--- a/code/include/swoc/DiscreteRange.h
+++ b/code/include/swoc/DiscreteRange.h
@@ -606,7 +606,7 @@ DiscreteRange<T>::is_left_adjacent_to(DiscreteRange::self_type const &that) cons
    * t0 then ++t0 > t0.
    */
   metric_type max(_max); // some built in integer types don't support increment on rvalues.
-  return _max < that._min && ++max == that._min;
+  return !this->empty() && !that.empty() && _max < that._min && ++max == that._min;
 }
 
 template <typename T>
@@ -1633,7 +1633,7 @@ DiscreteSpace<METRIC, PAYLOAD>::blend(DiscreteSpace::range_type const &range, U
     // @a n strictly right overlaps with @a remaining.
     bool right_overlap_p = remaining.contains(n->min());
     // @a n is adjacent on the right to @a remaining.
-    bool right_adj_p = !right_overlap_p && remaining.is_left_adjacent_to(n->range());
+    bool right_adj_p = !right_overlap_p && remaining.max() < n->min() && ++metric_type(remaining.max()) == n->min();
     // @a n has the same color as would be used for unmapped values.
     bool n_plain_colored_p = plain_color_p && (n->payload() == plain_color);
 
-- 
2.43.0


From c500d5d437805bc71a21a5e40ab387935f3d020e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:31 +0000
Subject: [PATCH 17/96] fix: DiscreteRange subset tests were wrong for an empty
 intersection result

---
 code/include/swoc/DiscreteRange.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/code/include/swoc/DiscreteRange.h b/code/include/swoc/DiscreteRange.h
index 063477f..6043311 100644
--- a/code/include/swoc/DiscreteRange.h
+++ b/code/include/swoc/DiscreteRange.h
@@ -515,6 +515,9 @@ DiscreteRange<T>::is_maximal() const {
 template <typename T>
 bool
 DiscreteRange<T>::is_strict_superset_of(DiscreteRange::self_type const &that) const {
+  if (that.empty()) {
+    return !this->empty();
+  }
   return (_min < that._min && that._max <= _max) || (_min <= that._min && that._max < _max);
 }
 
@@ -587,7 +590,7 @@ DiscreteRange<T>::has_intersection_with(DiscreteRange::self_type const &that) co
 template <typename T>
 bool
 DiscreteRange<T>::is_superset_of(DiscreteRange::self_type const &that) const {
-  return _min <= that._min && that._max <= _max;
+  return that.empty() || (_min <= that._min && that._max <= _max);
 }
 
 template <typename T>
-- 
2.43.0


From e05fbf860292fdf092715e615c9669493b15758b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:37 +0000
Subject: [PATCH 18/96] fix: DiscreteRange::left_edge_relationship compared
 with the right edge of the other range

---
 code/include/swoc/DiscreteRange.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/include/swoc/DiscreteRange.h b/code/include/swoc/DiscreteRange.h
index 6043311..f3a7d03 100644
--- a/code/include/swoc/DiscreteRange.h
+++ b/code/include/swoc/DiscreteRange.h
@@ -454,10 +454,10 @@ DiscreteRange<T>::hull(DiscreteRange::self_type const &that) const {
 template <typename T>
 auto
 DiscreteRange<T>::left_edge_relationship(self_type const &that) const -> EdgeRelation {
-  if (_max < that._max) {
-    return ++metric_type(_max) < that._max ? EdgeRelation::GAP : EdgeRelation::ADJ;
+  if (_max < that._min) {
+    return ++metric_type(_max) < that._min ? EdgeRelation::GAP : EdgeRelation::ADJ;
   }
-  return _min >= that._min ? EdgeRelation::NONE : EdgeRelation::OVLP;
+  return that._min < _min ? EdgeRelation::NONE : EdgeRelation::OVLP;
 }
 
 template <typename T>
-- 
2.43.0


From 27a0d4e7e91b11ebb69a6bf78699c54ab128d5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:53 +0000
Subject: [PATCH 19/96] fix: DiscreteRange::left_edge_relationship did not
 compile for built in metrics

---
 code/include/swoc/DiscreteRange.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/include/swoc/DiscreteRange.h b/code/include/swoc/DiscreteRange.h
index f3a7d03..35a8294 100644
--- a/code/include/swoc/DiscreteRange.h
+++ b/code/include/swoc/DiscreteRange.h
@@ -455,7 +455,7 @@ template <typename T>
 auto
 DiscreteRange<T>::left_edge_relationship(self_type const &that) const -> EdgeRelation {
   if (_max < that._min) {
-    return ++metric_type(_max) < that._min ? EdgeRelation::GAP : EdgeRelation::ADJ;
+    return this->is_left_adjacent_to(that) ? EdgeRelation::ADJ : EdgeRelation::GAP;
   }
   return that._min < _min ? EdgeRelation::NONE : EdgeRelation::OVLP;
 }
-- 
2.43.0


From 72960cdc1ed09254046543e18696707a1802bba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:23 +0000
Subject: [PATCH 20/96] fix: DiscreteSpace::erase did nothing if the range
 starts before every stored range

---
 code/include/swoc/DiscreteRange.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/code/include/swoc/DiscreteRange.h b/code/include/swoc/DiscreteRange.h
index 35a8294..f13268b 100644
--- a/code/include/swoc/DiscreteRange.h
+++ b/code/include/swoc/DiscreteRange.h
@@ -1278,6 +1278,9 @@ template <typename METRIC, typename PAYLOAD>
 DiscreteSpace<METRIC, PAYLOAD> &
 DiscreteSpace<METRIC, PAYLOAD>::erase(DiscreteSpace::range_type const &range) {
   Node *n = this->lower_node(range.min()); // current node.
+  if (nullptr == n) { // @a range starts before every stored range.
+    n = this->head();
+  }
   while (n) {
     auto nn = next(n);            // cache in case @a n disappears.
     if (n->min() > range.max()) { // cleared the target range, done.
-- 
2.43.0


From c09b9ca52a59c3e9a04004a57565dcc1b12810d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:23 +0000
Subject: [PATCH 21/96] fix: DiscreteSpace::blend blended a gap twice or
 colored values outside the range next to a range of the plain color

---
 code/include/swoc/DiscreteRange.h | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/code/include/swoc/DiscreteRange.h b/code/include/swoc/DiscreteRange.h
index f13268b..fa48354 100644
--- a/code/include/swoc/DiscreteRange.h
+++ b/code/include/swoc/DiscreteRange.h
@@ -1669,23 +1669,14 @@ DiscreteSpace<METRIC, PAYLOAD>::blend(DiscreteSpace::range_type const &range, U
     // Invariant: @n has right overlap with @a remaining
 
     // If there's a gap on the left, fill from @a r.min to @a n.min - 1
+    // Do not extend @a n to cover the gap, the gap would be blended again along with @a n.
     if (plain_color_p && remaining.min() < n->min()) {
-      if (n->payload() == plain_color) {
-        if (pred && pred->payload() == n->payload()) {
-          auto pred_min{pred->min()};
-          this->remove(pred);
-          n->assign_min(pred_min);
-        } else {
-          n->assign_min(remaining.min());
-        }
+      auto n_min_minus_1{n->min()};
+      --n_min_minus_1;
+      if (pred && pred->range().is_left_adjacent_to(remaining) && pred->payload() == plain_color) {
+        pred->assign_max(n_min_minus_1);
       } else {
-        auto n_min_minus_1{n->min()};
-        --n_min_minus_1;
-        if (pred && pred->payload() == plain_color) {
-          pred->assign_max(n_min_minus_1);
-        } else {
-          this->insert_before(n, _fa.make(remaining.min(), n_min_minus_1, plain_color));
-        }
+        this->insert_before(n, _fa.make(remaining.min(), n_min_minus_1, plain_color));
       }
     }
 
@@ -1706,7 +1697,11 @@ DiscreteSpace<METRIC, PAYLOAD>::blend(DiscreteSpace::range_type const &range, U
 
       if (right_ext_p) {
         if (n->payload() == fill->payload()) {
-          n->assign_min(fill->min());
+          if (pred_adj_p) {
+            auto pred_min{pred->min()};
+            this->remove(pred);
+            n->assign_min(pred_min);
+          }
         } else {
           n->assign_min(range_max_plus_1);
           if (pred_adj_p) {
-- 
2.43.0


From de047728a6c7d0ec537cbdd1288ae66e7ef206df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:32 +0000
Subject: [PATCH 22/96] fix: DiscreteSpace::blend colored unmapped values
 although the blender rejected the plain color

---
 code/include/swoc/DiscreteRange.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/include/swoc/DiscreteRange.h b/code/include/swoc/DiscreteRange.h
index fa48354..38d4d65 100644
--- a/code/include/swoc/DiscreteRange.h
+++ b/code/include/swoc/DiscreteRange.h
@@ -1649,7 +1649,7 @@ DiscreteSpace<METRIC, PAYLOAD>::blend(DiscreteSpace::range_type const &range, U
     if (!right_overlap_p) {
       // @a pred has the same color as would be used for unmapped values
       // and is adjacent to @a remaining.
-      bool pred_plain_colored_p = pred && ++metric_type(pred->max()) == remaining.min() && pred->payload() == plain_color;
+      bool pred_plain_colored_p = plain_color_p && pred && ++metric_type(pred->max()) == remaining.min() && pred->payload() == plain_color;
 
       if (right_adj_p && n_plain_colored_p) { // can pull @a n left to cover
         n->assign_min(remaining.min());
-- 
2.43.0


From 3de81b7eb6164d589278c0252b3e855c2e6df0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:41 +0000
Subject: [PATCH 23/96] fix: DiscreteSpace::blend wrapped past the metric
 maximum and blended everything again

---
 code/include/swoc/DiscreteRange.h | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/code/include/swoc/DiscreteRange.h b/code/include/swoc/DiscreteRange.h
index 38d4d65..70263cd 100644
--- a/code/include/swoc/DiscreteRange.h
+++ b/code/include/swoc/DiscreteRange.h
@@ -1607,6 +1607,9 @@ DiscreteSpace<METRIC, PAYLOAD>::blend(DiscreteSpace::range_type const &range, U
             this->insert_after(fn, _fa.make(++metric_type(remaining.max()), n_max, n->payload()));
             return *this;
           }
+          if (n_max == remaining.max()) { // nothing left, and @a n_max could be the metric maximum.
+            return *this;
+          }
           n = fn; // skip to use new node as current node.
         }
         remaining.assign_min(++metric_type(n->max())); // going to fill up n->max(), clip target.
@@ -1687,7 +1690,10 @@ DiscreteSpace<METRIC, PAYLOAD>::blend(DiscreteSpace::range_type const &range, U
     unique_node fill{_fa.make(n->min(), max, n->payload()), node_cleaner};
     bool fill_p = blender(fill->payload(), color); // fill or clear?
     auto next_n = next(n);                         // cache this in case @a n is removed.
-    remaining.assign_min(++METRIC{fill->max()});   // Update what is left to fill.
+    bool last_p = fill->max() == remaining.max();  // nothing left, and this could be the metric maximum.
+    if (!last_p) {
+      remaining.assign_min(++METRIC{fill->max()}); // Update what is left to fill.
+    }
 
     // Clean up the range for @a n
     if (fill_p) {
@@ -1728,6 +1734,16 @@ DiscreteSpace<METRIC, PAYLOAD>::blend(DiscreteSpace::range_type const &range, U
       this->remove(n);
     }
 
+    // Everything in @a range is correct - if that touches the next range in the same color, collapse.
+    if (last_p) {
+      pred = next_n ? prev(next_n) : nullptr;
+      if (pred && pred->range().is_left_adjacent_to(next_n->range()) && pred->payload() == next_n->payload()) {
+        pred->assign_max(next_n->max());
+        this->remove(next_n);
+      }
+      return *this;
+    }
+
     // Everything up to @a n.max is correct, time to process next node.
     n = next_n;
   }
-- 
2.43.0


From 8a666481fa5fe460ccc7f9f0c537a57a1e56cd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:46 +0000
Subject: [PATCH 24/96] fix: DiscreteSpace::blend left touching ranges of the
 same color

---
 code/include/swoc/DiscreteRange.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/code/include/swoc/DiscreteRange.h b/code/include/swoc/DiscreteRange.h
index 70263cd..09a98ab 100644
--- a/code/include/swoc/DiscreteRange.h
+++ b/code/include/swoc/DiscreteRange.h
@@ -1560,6 +1560,15 @@ DiscreteSpace<METRIC, PAYLOAD>::blend(DiscreteSpace::range_type const &range, U
   // Used to hold a temporary blended node - @c release if put in space, otherwise cleaned up.
   using unique_node = std::unique_ptr<Node, decltype(node_cleaner)>;
 
+  // Collapse the range after @a x in to @a x if it is adjacent and the same color.
+  auto merge_next = [&](Node *x) -> void {
+    Node *y = next(x);
+    if (y && x->range().is_left_adjacent_to(y->range()) && x->payload() == y->payload()) {
+      x->assign_max(y->max());
+      this->remove(y);
+    }
+  };
+
   // Rightmost node of interest with n->min() <= range.min().
   Node *n = this->lower_node(range.min());
 
@@ -1608,6 +1617,7 @@ DiscreteSpace<METRIC, PAYLOAD>::blend(DiscreteSpace::range_type const &range, U
             return *this;
           }
           if (n_max == remaining.max()) { // nothing left, and @a n_max could be the metric maximum.
+            merge_next(fn);
             return *this;
           }
           n = fn; // skip to use new node as current node.
@@ -1736,10 +1746,8 @@ DiscreteSpace<METRIC, PAYLOAD>::blend(DiscreteSpace::range_type const &range, U
 
     // Everything in @a range is correct - if that touches the next range in the same color, collapse.
     if (last_p) {
-      pred = next_n ? prev(next_n) : nullptr;
-      if (pred && pred->range().is_left_adjacent_to(next_n->range()) && pred->payload() == next_n->payload()) {
-        pred->assign_max(next_n->max());
-        this->remove(next_n);
+      if (next_n && nullptr != (pred = prev(next_n))) {
+        merge_next(pred);
       }
       return *this;
     }
-- 
2.43.0


From 2e2ab942d53a6cc663af16b46cb6008f9d6fb949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:12 +0000
Subject: [PATCH 25/96] fix: DiscreteSpace lower_bound and upper_bound did not
 compile

---
 code/include/swoc/DiscreteRange.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/DiscreteRange.h b/code/include/swoc/DiscreteRange.h
index 09a98ab..69b9cf1 100644
--- a/code/include/swoc/DiscreteRange.h
+++ b/code/include/swoc/DiscreteRange.h
@@ -1173,14 +1173,14 @@ template <typename METRIC, typename PAYLOAD>
 auto
 DiscreteSpace<METRIC, PAYLOAD>::lower_bound(METRIC const &m) -> iterator {
   auto n = this->lower_node(m);
-  return n ? iterator(n) : this->end();
+  return n ? _list.iterator_for(n) : this->end();
 }
 
 template <typename METRIC, typename PAYLOAD>
 auto
 DiscreteSpace<METRIC, PAYLOAD>::upper_bound(METRIC const &m) -> iterator {
   auto n = this->upper_node(m);
-  return n ? iterator(n) : this->end();
+  return n ? _list.iterator_for(n) : this->end();
 }
 
 template <typename METRIC, typename PAYLOAD>
-- 
2.43.0


From 66eabd445e595219576f0d0f032f234bc379a0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:23 +0000
Subject: [PATCH 26/96] fix: DiscreteSpace operations on an empty range stored
 or split ranges

---
 code/include/swoc/DiscreteRange.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/code/include/swoc/DiscreteRange.h b/code/include/swoc/DiscreteRange.h
index 69b9cf1..0655e05 100644
--- a/code/include/swoc/DiscreteRange.h
+++ b/code/include/swoc/DiscreteRange.h
@@ -1277,6 +1277,9 @@ DiscreteSpace<METRIC, PAYLOAD>::insert_after(DiscreteSpace::Node *spot, Discrete
 template <typename METRIC, typename PAYLOAD>
 DiscreteSpace<METRIC, PAYLOAD> &
 DiscreteSpace<METRIC, PAYLOAD>::erase(DiscreteSpace::range_type const &range) {
+  if (range.empty()) {
+    return *this;
+  }
   Node *n = this->lower_node(range.min()); // current node.
   if (nullptr == n) { // @a range starts before every stored range.
     n = this->head();
@@ -1311,6 +1314,9 @@ DiscreteSpace<METRIC, PAYLOAD>::erase(DiscreteSpace::range_type const &range) {
 template <typename METRIC, typename PAYLOAD>
 DiscreteSpace<METRIC, PAYLOAD> &
 DiscreteSpace<METRIC, PAYLOAD>::mark(DiscreteSpace::range_type const &range, PAYLOAD const &payload) {
+  if (range.empty()) {
+    return *this;
+  }
   Node *n = this->lower_node(range.min()); // current node.
   Node *x = nullptr;                       // New node, gets set if we re-use an existing one.
   Node *y = nullptr;                       // Temporary for removing and advancing.
@@ -1432,6 +1438,9 @@ DiscreteSpace<METRIC, PAYLOAD>::mark(DiscreteSpace::range_type const &range, PAY
 template <typename METRIC, typename PAYLOAD>
 DiscreteSpace<METRIC, PAYLOAD> &
 DiscreteSpace<METRIC, PAYLOAD>::fill(DiscreteSpace::range_type const &range, PAYLOAD const &payload) {
+  if (range.empty()) {
+    return *this;
+  }
   // Rightmost node of interest with n->min() <= min.
   Node *n = this->lower_node(range.min());
   Node *x = nullptr; // New node (if any).
@@ -1551,6 +1560,9 @@ template <typename METRIC, typename PAYLOAD>
 template <typename F, typename U>
 auto
 DiscreteSpace<METRIC, PAYLOAD>::blend(DiscreteSpace::range_type const &range, U const &color, F &&blender) -> self_type & {
+  if (range.empty()) {
+    return *this;
+  }
   // Do a base check for the color to use on unmapped values. If self blending on @a color
   // is @c false, then do not color currently unmapped values.
   PAYLOAD plain_color{};                            // color to paint uncolored metrics.
-- 
2.43.0


From e42966e8e30b6e982d6e8c5a25faf6f201d7f7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:54 +0000
Subject: [PATCH 27/96] fix: MemArena threw from alloc if padding for a large
 alignment did not fit the new block

---
 code/src/MemArena.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/src/MemArena.cc b/code/src/MemArena.cc
index 1d4d708..27b5efd 100644
--- a/code/src/MemArena.cc
+++ b/code/src/MemArena.cc
@@ -162,7 +162,8 @@ MemArena::require(size_t n, size_t align) {
     }
   }
   if (spot == _active.end()) {   // no block has enough free space
-    block = this->make_block(n); // assuming a new block is sufficiently aligned.
+    // A new block is aligned by @c malloc, a larger alignment can need padding.
+    block = this->make_block(align > Paragraph::SCALE ? n + align : n);
     _active.prepend(block);
   } else if (spot != _active.begin()) {
     // big enough space, move to the head of the list.
-- 
2.43.0


From ebe8a8d3e84cecb51cb1726333e44b9c501a0186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:04 +0000
Subject: [PATCH 28/96] fix: MemArena::remnant with alignment returned an
 unaligned span

---
 code/include/swoc/MemArena.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/include/swoc/MemArena.h b/code/include/swoc/MemArena.h
index e0b25fb..0178026 100644
--- a/code/include/swoc/MemArena.h
+++ b/code/include/swoc/MemArena.h
@@ -708,7 +708,8 @@ MemArena::remnant_span<void>(size_t n) {
 
 inline MemSpan<void>
 MemArena::remnant(size_t n, size_t align) {
-  return this->require(n, align).remnant().prefix(n);
+  auto span = this->require(n, align).remnant();
+  return span.remove_prefix(Block::align_padding(span.data(), align)).prefix(n);
 }
 
 inline size_t
-- 
2.43.0


From 772d7ea693bdd5c8985d398370fae2062ce82a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:14 +0000
Subject: [PATCH 29/96] fix: MemArena::remnant_span returned the entire remnant
 instead of the requested count

---
 code/include/swoc/MemArena.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/include/swoc/MemArena.h b/code/include/swoc/MemArena.h
index 0178026..5a06994 100644
--- a/code/include/swoc/MemArena.h
+++ b/code/include/swoc/MemArena.h
@@ -697,7 +697,7 @@ template <typename T>
 MemSpan<T>
 MemArena::remnant_span(size_t n) {
   auto span = this->require(sizeof(T) * n, alignof(T)).remnant();
-  return span.remove_prefix(Block::align_padding(span.data(), alignof(T))).rebind<T>();
+  return span.remove_prefix(Block::align_padding(span.data(), alignof(T))).prefix(sizeof(T) * n).template rebind<T>();
 }
 
 template <>
-- 
2.43.0


From 8da4e4af2e8893bea31b69abf03c34536baa8612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:16 +0000
Subject: [PATCH 30/96] fix: MemArena::thaw discarded and linked again a static
 block which was still active

---
 code/src/MemArena.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/src/MemArena.cc b/code/src/MemArena.cc
index 27b5efd..06f3206 100644
--- a/code/src/MemArena.cc
+++ b/code/src/MemArena.cc
@@ -133,7 +133,8 @@ MemArena &
 MemArena::thaw() {
   this->destroy_frozen();
   _frozen_reserved = _frozen_allocated = 0;
-  if (_static_block) {
+  // Restore the static block, unless it is still active and can have live allocations.
+  if (_static_block && std::none_of(_active.begin(), _active.end(), [this](Block const &b) { return &b == _static_block; })) {
     _static_block->discard();
     _active.prepend(_static_block);
     _active_reserved += _static_block->remaining();
-- 
2.43.0


From 3f75235ff0a91cd7351432e187205b57686af0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:18 +0000
Subject: [PATCH 31/96] fix: move assignment of MemArena lost track of the
 static block and freed it

---
 code/src/MemArena.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/code/src/MemArena.cc b/code/src/MemArena.cc
index 06f3206..f60a1c5 100644
--- a/code/src/MemArena.cc
+++ b/code/src/MemArena.cc
@@ -64,6 +64,8 @@ MemArena::operator=(swoc::MemArena::self_type &&that) noexcept {
   std::swap(_frozen_allocated, that._frozen_allocated);
   std::swap(_frozen_reserved, that._frozen_reserved);
   std::swap(_reserve_hint, that._reserve_hint);
+  _static_block      = that._static_block;
+  that._static_block = nullptr;
   _active = std::move(that._active);
   _frozen = std::move(that._frozen);
   return *this;
-- 
2.43.0


From 76cab3424be759b9295278caf64c49bbd288ec59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:28 +0000
Subject: [PATCH 32/96] fix: MemArena block size computation overflowed int for
 blocks of 2 gigabytes and more

---
 code/include/swoc/MemArena.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/include/swoc/MemArena.h b/code/include/swoc/MemArena.h
index 5a06994..7115c17 100644
--- a/code/include/swoc/MemArena.h
+++ b/code/include/swoc/MemArena.h
@@ -473,9 +473,9 @@ protected:
   /// Clean up the active list
   void destroy_active();
 
-  using Page        = Scalar<4096>;            ///< Size for rounding block sizes.
-  using QuarterPage = Scalar<Page::SCALE / 4>; ///< Quarter page - unit for sub page sizes.
-  using Paragraph   = Scalar<16>;              ///< Minimum unit of memory allocation.
+  using Page        = Scalar<4096, size_t>;            ///< Size for rounding block sizes.
+  using QuarterPage = Scalar<Page::SCALE / 4, size_t>; ///< Quarter page - unit for sub page sizes.
+  using Paragraph   = Scalar<16, size_t>;              ///< Minimum unit of memory allocation.
 
   static constexpr size_t ALLOC_HEADER_SIZE = 16; ///< Guess of overhead of @c malloc
   /// Initial block size to allocate if not specified via API.
-- 
2.43.0


From 10f0e31a8a6c4e238f2157a573a80943d1123782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:37 +0000
Subject: [PATCH 33/96] fix: TextView::split_suffix took the entire view if the
 suffix is larger than the view

---
 code/include/swoc/TextView.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/code/include/swoc/TextView.h b/code/include/swoc/TextView.h
index 01ddb65..7acd078 100644
--- a/code/include/swoc/TextView.h
+++ b/code/include/swoc/TextView.h
@@ -1445,10 +1445,11 @@ TextView::remove_suffix_if(F const &pred) {
 
 inline TextView
 TextView::split_suffix(size_t n) {
-  self_type zret;
-  n    = std::min(n, this->size());
-  zret = this->suffix(n);
-  this->remove_suffix(n + 1);
+  self_type zret; // default to empty return.
+  if (n <= this->size()) {
+    zret = this->suffix(n);
+    this->remove_suffix(n + 1);
+  }
   return zret;
 }
 
-- 
2.43.0


From 0e5d01b3c0d825e84f6001a514205f7964a6a777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:48 +0000
Subject: [PATCH 34/96] fix: TextView::split_suffix_if used the offset of the
 separator as the size of the suffix

---
 code/include/swoc/TextView.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/include/swoc/TextView.h b/code/include/swoc/TextView.h
index 7acd078..14364a6 100644
--- a/code/include/swoc/TextView.h
+++ b/code/include/swoc/TextView.h
@@ -1473,7 +1473,8 @@ TextView::split_suffix_at(std::string_view const &delimiters) -> self_type {
 template <typename F>
 TextView::self_type
 TextView::split_suffix_if(F const &pred) {
-  return this->split_suffix(this->rfind_if(pred));
+  auto idx = this->rfind_if(pred);
+  return npos == idx ? self_type{} : this->split_suffix(this->size() - (idx + 1));
 }
 
 inline TextView
-- 
2.43.0


From 8298ddc6067429166db02ae6cbcd91773f210393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:58 +0000
Subject: [PATCH 35/96] fix: TextView::take_suffix returned the text after an
 offset, not a suffix of the size, take_suffix_if used the offset as a
 character

---
 code/include/swoc/TextView.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/code/include/swoc/TextView.h b/code/include/swoc/TextView.h
index 14364a6..a73abba 100644
--- a/code/include/swoc/TextView.h
+++ b/code/include/swoc/TextView.h
@@ -1479,8 +1479,9 @@ TextView::split_suffix_if(F const &pred) {
 
 inline TextView
 TextView::take_suffix(size_t n) {
-  self_type zret{*this};
-  *this = zret.split_prefix(n);
+  n              = std::min(n, this->size());
+  self_type zret = this->suffix(n);
+  this->remove_suffix(n + 1);
   return zret;
 }
 
@@ -1491,18 +1492,18 @@ TextView::take_suffix(int n) {
 
 inline TextView
 TextView::take_suffix_at(char c) {
-  return this->take_suffix(this->rfind(c));
+  return this->take_suffix(this->size() - (this->rfind(c) + 1)); // npos + 1 is 0, which takes everything.
 }
 
 inline TextView
 TextView::take_suffix_at(std::string_view const &delimiters) {
-  return this->take_suffix(this->find_last_of(delimiters));
+  return this->take_suffix(this->size() - (this->find_last_of(delimiters) + 1));
 }
 
 template <typename F>
 TextView::self_type
 TextView::take_suffix_if(F const &pred) {
-  return this->take_suffix_at(this->rfind_if(pred));
+  return this->take_suffix(this->size() - (this->rfind_if(pred) + 1));
 }
 
 template <typename F>
-- 
2.43.0


From 8012080c70d9d98ffeecee4037b2a481baed980b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:08 +0000
Subject: [PATCH 36/96] fix: TextView::clip_suffix_of clipped the characters
 that do not match

---
 code/include/swoc/TextView.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/TextView.h b/code/include/swoc/TextView.h
index a73abba..c535776 100644
--- a/code/include/swoc/TextView.h
+++ b/code/include/swoc/TextView.h
@@ -1760,8 +1760,8 @@ TextView::clip_prefix_of(F const &pred) {
 template <typename F>
 TextView::self_type
 TextView::clip_suffix_of(F const &pred) {
-  size_t idx = this->size() - 1;
-  for (auto spot = this->data() + idx, limit = this->data(); spot >= limit && pred(*spot); --spot, --idx)
+  size_t idx = 0;
+  for (auto spot = this->data_end(), limit = this->data(); spot > limit && pred(*--spot); ++idx)
     ; // empty
   TextView token = this->suffix(idx);
   this->remove_suffix(idx);
-- 
2.43.0


From 01d6552c85bbbb3961ba3092364cb2181e7891b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:01 +0000
Subject: [PATCH 37/96] fix: memcmp and strcasecmp of views ordered a view
 before its proper prefixes

---
 code/src/string_view_util.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/code/src/string_view_util.cc b/code/src/string_view_util.cc
index 3c483ca..5abe524 100644
--- a/code/src/string_view_util.cc
+++ b/code/src/string_view_util.cc
@@ -14,10 +14,10 @@ memcmp(std::string_view const &lhs, std::string_view const &rhs) {
 
   // Seems a bit ugly but size comparisons must be done anyway to get the memcmp args.
   if (lhs.size() < rhs.size()) {
-    zret = 1;
+    zret = -1;
     n    = lhs.size();
   } else if (lhs.size() > rhs.size()) {
-    zret = -1;
+    zret = 1;
   } else if (lhs.data() == rhs.data()) { // same memory, obviously equal.
     return 0;
   }
@@ -33,10 +33,10 @@ strcasecmp(const std::string_view &lhs, const std::string_view &rhs) {
 
   // Seems a bit ugly but size comparisons must be done anyway to get the @c strncasecmp args.
   if (lhs.size() < rhs.size()) {
-    zret = 1;
+    zret = -1;
     n    = lhs.size();
   } else if (lhs.size() > rhs.size()) {
-    zret = -1;
+    zret = 1;
   } else if (lhs.data() == rhs.data()) { // the same memory, obviously equal.
     return 0;
   }
-- 
2.43.0


From 8d7c7927cd42de7a57576a8c75cc6143a7b21575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:03 +0000
Subject: [PATCH 38/96] fix: comparison of views returned values other than -1,
 0 and 1, which broke LessThan and LessThanNoCase

---
 code/src/string_view_util.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/src/string_view_util.cc b/code/src/string_view_util.cc
index 5abe524..4f2255a 100644
--- a/code/src/string_view_util.cc
+++ b/code/src/string_view_util.cc
@@ -23,7 +23,7 @@ memcmp(std::string_view const &lhs, std::string_view const &rhs) {
   }
 
   int r = ::memcmp(lhs.data(), rhs.data(), n);
-  return r ? r : zret;
+  return r < 0 ? -1 : r > 0 ? 1 : zret; // the magnitude of @a r is not specified.
 }
 
 int
@@ -43,5 +43,5 @@ strcasecmp(const std::string_view &lhs, const std::string_view &rhs) {
 
   int r = ::strncasecmp(lhs.data(), rhs.data(), n);
 
-  return r ? r : zret;
+  return r < 0 ? -1 : r > 0 ? 1 : zret; // the magnitude of @a r is not specified.
 }
-- 
2.43.0


From 551ca799227edea81d6735dccd89451b816beb9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:15 +0000
Subject: [PATCH 39/96] fix: case insensitive comparison of views ignored
 everything after a nul character

---
 code/include/swoc/TextView.h |  4 ++--
 code/src/string_view_util.cc | 13 +++++++++++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/code/include/swoc/TextView.h b/code/include/swoc/TextView.h
index c535776..20a7635 100644
--- a/code/include/swoc/TextView.h
+++ b/code/include/swoc/TextView.h
@@ -1682,7 +1682,7 @@ TextView::starts_with_nocase(char c) const noexcept {
 
 inline bool
 TextView::starts_with_nocase(std::string_view const &prefix) const noexcept {
-  return this->size() >= prefix.size() && 0 == ::strncasecmp(this->data(), prefix.data(), prefix.size());
+  return this->size() >= prefix.size() && 0 == strcasecmp(this->prefix(prefix.size()), prefix);
 }
 
 inline bool
@@ -1692,7 +1692,7 @@ TextView::ends_with(std::string_view const &suffix) const noexcept {
 
 inline bool
 TextView::ends_with_nocase(std::string_view const &suffix) const noexcept {
-  return this->size() >= suffix.size() && 0 == ::strncasecmp(this->data_end() - suffix.size(), suffix.data(), suffix.size());
+  return this->size() >= suffix.size() && 0 == strcasecmp(this->suffix(suffix.size()), suffix);
 }
 
 inline bool
diff --git a/code/src/string_view_util.cc b/code/src/string_view_util.cc
index 4f2255a..d2dfe04 100644
--- a/code/src/string_view_util.cc
+++ b/code/src/string_view_util.cc
@@ -5,6 +5,8 @@
     Additional handy utilities for @c string_view and hence also @c TextView.
 */
 
+#include <cctype>
+
 #include "swoc/string_view_util.h"
 
 int
@@ -41,7 +43,14 @@ strcasecmp(const std::string_view &lhs, const std::string_view &rhs) {
     return 0;
   }
 
-  int r = ::strncasecmp(lhs.data(), rhs.data(), n);
+  // Not @c strncasecmp because that stops at a nul character.
+  for (size_t i = 0; i < n; ++i) {
+    int l = tolower(static_cast<unsigned char>(lhs[i]));
+    int r = tolower(static_cast<unsigned char>(rhs[i]));
+    if (l != r) {
+      return l < r ? -1 : 1;
+    }
+  }
 
-  return r < 0 ? -1 : r > 0 ? 1 : zret; // the magnitude of @a r is not specified.
+  return zret;
 }
-- 
2.43.0


From 35598478faef18a057c188375d46883021ee0b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:26 +0000
Subject: [PATCH 40/96] fix: TransformView::end treated the end of the source
 as a C string and read past it

---
 code/include/swoc/TextView.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/TextView.h b/code/include/swoc/TextView.h
index 20a7635..f329d34 100644
--- a/code/include/swoc/TextView.h
+++ b/code/include/swoc/TextView.h
@@ -1861,7 +1861,7 @@ public:
   /// Iterator past last transformed character.
   iterator
   end() const {
-    return self_type{_xf, _limit};
+    return self_type{transform_type(_xf), source_iterator(_limit)};
   }
 
 protected:
@@ -2058,7 +2058,7 @@ TransformView<void, V>::begin() const -> self_type {
 template <typename V>
 auto
 TransformView<void, V>::end() const -> self_type {
-  return self_type{_limit};
+  return self_type{source_iterator(_limit)};
 }
 
 /// @cond INTERNAL_DETAIL
-- 
2.43.0


From 1c0acd0e8ce721d106e49938b7ba12bfcf9e9c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:39 +0000
Subject: [PATCH 41/96] fix: svtoi_convert had the wrong digit value for the
 letter t

---
 code/src/TextView.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/src/TextView.cc b/code/src/TextView.cc
index fbfb343..3bd5110 100644
--- a/code/src/TextView.cc
+++ b/code/src/TextView.cc
@@ -27,9 +27,9 @@ const int8_t svtoi_convert[256] = {
   -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, // 20
   0,  1,  2,  3,  4,  5,  6,  7,  8,  9,  -1, -1, -1, -1, -1, -1, // 30
   -1, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, // 40
-  25, 26, 27, 28, 20, 30, 31, 32, 33, 34, 35, -1, -1, -1, -1, -1, // 50
+  25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, -1, -1, -1, -1, -1, // 50
   -1, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, // 60
-  25, 26, 27, 28, 20, 30, 31, 32, 33, 34, 35, -1, -1, -1, -1, -1, // 70
+  25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, -1, -1, -1, -1, -1, // 70
   -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, // 80
   -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, // 90
   -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, // A0
-- 
2.43.0


From cda0368881dd44244c3fc592c4bc1800dc4a64c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:42 +0000
Subject: [PATCH 42/96] fix: svtoi left the parsed text unchanged if no number
 was found

---
 code/src/TextView.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/code/src/TextView.cc b/code/src/TextView.cc
index 3bd5110..0cb1a4b 100644
--- a/code/src/TextView.cc
+++ b/code/src/TextView.cc
@@ -47,6 +47,10 @@ svtoi(TextView src, TextView *out, int base) {
   static constexpr uintmax_t ABS_MIN = uintmax_t(std::numeric_limits<intmax_t>::min());
   intmax_t zret = 0;
 
+  if (out) {
+    out->clear();
+  }
+
   if (src.ltrim_if(&isspace)) {
     TextView parsed;
     const char *start = src.data();
-- 
2.43.0


From 9a7d9f34a78ca166df853f530602fc7d0a7a7a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:44 +0000
Subject: [PATCH 43/96] fix: svtoi negated the minimum value, which is
 undefined

---
 code/src/TextView.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/src/TextView.cc b/code/src/TextView.cc
index 0cb1a4b..fd629ac 100644
--- a/code/src/TextView.cc
+++ b/code/src/TextView.cc
@@ -67,7 +67,7 @@ svtoi(TextView src, TextView *out, int base) {
         out->assign(start, parsed.data_end());
       }
       if (neg) {
-        zret = -intmax_t(std::min<uintmax_t>(n, ABS_MIN));
+        zret = intmax_t(0 - std::min<uintmax_t>(n, ABS_MIN)); // unsigned, the minimum cannot be negated.
       } else {
         zret = std::min(n, ABS_MAX);
       }
-- 
2.43.0


From 12e493fed379c033e2a02e2f8c6a5aa1b0f79e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:45 +0000
Subject: [PATCH 44/96] fix: svtoi accepted space between the sign and the
 digits

---
 code/src/TextView.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/src/TextView.cc b/code/src/TextView.cc
index fd629ac..312c862 100644
--- a/code/src/TextView.cc
+++ b/code/src/TextView.cc
@@ -62,7 +62,8 @@ svtoi(TextView src, TextView *out, int base) {
       ++src;
     }
     auto n = svtou(src, &parsed, base);
-    if (!parsed.empty()) {
+    // @c svtou skips leading space, but space between the sign and the digits is not part of a number.
+    if (!parsed.empty() && parsed.data() == src.data()) {
       if (out) {
         out->assign(start, parsed.data_end());
       }
-- 
2.43.0


From 48c738de3dfb8c93d12f0af9ebd03af34e316054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:47 +0000
Subject: [PATCH 45/96] fix: svtou took a base prefix without digits as a
 number

---
 code/src/TextView.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/code/src/TextView.cc b/code/src/TextView.cc
index 312c862..fde65e7 100644
--- a/code/src/TextView.cc
+++ b/code/src/TextView.cc
@@ -87,6 +87,7 @@ svtou(TextView src, TextView *out, int base) {
 
   if (src.ltrim_if(&isspace).size()) {
     auto origin = src.data(); // cache to handle prefix skipping.
+    char const *prefix_limit = nullptr; // end of the base prefix, if any.
     // If base is 0, it wasn't specified - check for standard base prefixes
     if (0 == base) {
       base = 10;
@@ -98,11 +99,13 @@ svtou(TextView src, TextView *out, int base) {
           case 'x':
           case 'X':
             ++src;
+            prefix_limit = src.data();
             base = 16;
             break;
           case 'b':
           case 'B':
             ++src;
+            prefix_limit = src.data();
             base = 2;
             break;
           }
@@ -143,6 +146,11 @@ svtou(TextView src, TextView *out, int base) {
       }
     }
 
+    // If there are no digits after a base prefix, only the leading zero is a number.
+    if (prefix_limit && src.data() == prefix_limit) {
+      src.assign(origin + 1, src.data_end());
+    }
+
     if (out) {
       out->assign(origin, src.data());
     }
-- 
2.43.0


From 1462d376b16caa08a5c7b27d6ba8cc16045a63b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:49 +0000
Subject: [PATCH 46/96] fix: svtod lost the sign of a number without fraction
 and exponent

---
 code/src/TextView.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/src/TextView.cc b/code/src/TextView.cc
index fde65e7..213fdcf 100644
--- a/code/src/TextView.cc
+++ b/code/src/TextView.cc
@@ -204,7 +204,7 @@ svtod(swoc::TextView text, swoc::TextView *parsed) {
   parsed->assign(org_text.data(), text.data());
 
   if (text.empty()) {
-    return whole;
+    return sign * double(whole);
   }
 
   double frac = 0.0;
-- 
2.43.0


From 7d7f95f05e5cea8c043d5eae81bdc52dee5483df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:51 +0000
Subject: [PATCH 47/96] fix: svtod returned a negative value for numbers over
 the signed integer maximum

---
 code/src/TextView.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/src/TextView.cc b/code/src/TextView.cc
index 213fdcf..cc291ec 100644
--- a/code/src/TextView.cc
+++ b/code/src/TextView.cc
@@ -200,7 +200,7 @@ svtod(swoc::TextView text, swoc::TextView *parsed) {
     ++text;
   }
   // Parse the leading whole part as an integer.
-  intmax_t whole = svto_radix<10>(text);
+  uintmax_t whole = svto_radix<10>(text);
   parsed->assign(org_text.data(), text.data());
 
   if (text.empty()) {
-- 
2.43.0


From 258f5241dfba5808c4ca743dab3850bdfe6a71b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:47 +0000
Subject: [PATCH 48/96] fix: svtod never returned for exponents that do not fit
 in an int

---
 code/src/TextView.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/code/src/TextView.cc b/code/src/TextView.cc
index cc291ec..2fe9e74 100644
--- a/code/src/TextView.cc
+++ b/code/src/TextView.cc
@@ -229,8 +229,9 @@ svtod(swoc::TextView text, swoc::TextView *parsed) {
         exp_sign = -1;
       }
     }
-    auto exp_part = svto_radix<10>(text);
-    exp           = pow10(exp_part * exp_sign);
+    // Limit the exponent, it must fit in an @c int. The limit is past the range of @c double.
+    int exp_part = std::min<uintmax_t>(svto_radix<10>(text), 10000);
+    exp          = pow10(exp_part * exp_sign);
   }
 
   parsed->assign(org_text.data(), text.data());
-- 
2.43.0


From f3817eb72bd7f1c756e3a2c2cc9e821c1fc3b76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:42 +0000
Subject: [PATCH 49/96] fix: IP4Addr::load accepted addresses with empty
 elements

---
 code/src/swoc_ip.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index 4d794d8..24b2c00 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -313,7 +313,7 @@ IP4Addr::load(std::string_view const &text) {
     TextView parsed;
     auto token = src.take_prefix_at('.');
     auto v     = svtou(token, &parsed);
-    if (parsed.size() != token.size()) {
+    if (token.empty() || parsed.size() != token.size()) {
       break;
     }
     if (src.empty()) {
-- 
2.43.0


From 17086bbb71eee35b3444b7fc60d9e068930069cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:45 +0000
Subject: [PATCH 50/96] fix: IP6Addr::load accepted signs, quads over 16 bits
 and text after a double colon that is not a number

---
 code/src/swoc_ip.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index 24b2c00..b217d67 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -471,12 +471,12 @@ IP6Addr::load(std::string_view const &str) {
       empty_idx = n;
     } else {
       TextView r;
-      auto x = svtoi(token, &r, 16);
-      if (r.size() == token.size()) {
-        quad[QUAD_IDX[n++]] = x;
-      } else {
-        break;
+      auto x = svtou(token, &r, 16);
+      if (r.size() != token.size() || token.size() > 4) { // must be up to four digits and nothing else.
+        this->clear();
+        return false;
       }
+      quad[QUAD_IDX[n++]] = x;
     }
   }
 
-- 
2.43.0


From 32aa450c44e13977ab38cfd44fae968a59739f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:04 +0000
Subject: [PATCH 51/96] fix: IP6Addr::load accepted a trailing colon

---
 code/src/swoc_ip.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index b217d67..1351a82 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -440,6 +440,12 @@ IP6Addr::load(std::string_view const &str) {
     return false;
   }
 
+  // A trailing ':' is an error unless it is part of a "::".
+  if (src.back() == ':' && src[src.size() - 2] != ':') {
+    this->clear();
+    return false;
+  }
+
   // If the first character is ':' then it is an error for it not to be followed by another ':'.
   // Special case the empty address and loopback, otherwise just make a note of the leading '::'.
   if (src[0] == ':') {
-- 
2.43.0


From b148d0c95b26284acb9ffa09e07dbaf7da7cdef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:06 +0000
Subject: [PATCH 52/96] fix: IP6Addr::load did not always invalidate the
 address if the parse failed

---
 code/src/swoc_ip.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index 1351a82..2c50c7d 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -431,12 +431,14 @@ IP6Addr::load(std::string_view const &str) {
   if (src && '[' == *src) {
     ++src;
     if (src.empty() || src.back() != ']') {
+      this->clear();
       return false;
     }
     src.remove_suffix(1);
   }
 
   if (src.size() < 2) {
+    this->clear();
     return false;
   }
 
@@ -462,6 +464,7 @@ IP6Addr::load(std::string_view const &str) {
         src.remove_prefix(2);
       }
     } else {
+      this->clear();
       return false;
     }
   }
@@ -472,6 +475,7 @@ IP6Addr::load(std::string_view const &str) {
     TextView token{src.take_prefix_at(':')};
     if (token.empty()) {
       if (empty_idx >= 0) { // two instances of "::", fail.
+        this->clear();
         return false;
       }
       empty_idx = n;
@@ -496,6 +500,7 @@ IP6Addr::load(std::string_view const &str) {
       }
       n = N_QUADS; // Mark success.
     } else {
+      this->clear();
       return false; // too many quads - full set plus empty.
     }
   }
-- 
2.43.0


From d62886a0de0b1c8b53b9cee37a73e74e5f852963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:39 +0000
Subject: [PATCH 53/96] fix: IPMask::load accepted empty text and truncated
 widths larger than an address

---
 code/src/swoc_ip.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index 2c50c7d..86b4a91 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -679,11 +679,12 @@ bool operator == (IPAddr const& lhs, sockaddr const * sa) {
 bool
 IPMask::load(string_view const &text) {
   TextView parsed;
-  _cidr = swoc::svtou(text, &parsed);
-  if (parsed.size() != text.size()) {
-    _cidr = 0;
+  auto width = swoc::svtou(text, &parsed);
+  if (parsed.empty() || parsed.size() != text.size() || width > IP6Addr::WIDTH) {
+    this->clear();
     return false;
   }
+  _cidr = raw_type(width);
   return true;
 }
 
-- 
2.43.0


From 84bf770f3cc866ee830ed70a279a99c584bdced7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:40 +0000
Subject: [PATCH 54/96] fix: IPv4 ranges and networks accepted text with a mask
 wider than the address

---
 code/src/swoc_ip.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index 86b4a91..4d2fbd0 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -869,7 +869,7 @@ bool
 IP4Net::load(TextView text) {
   if (auto mask_text = text.split_suffix_at('/'); !mask_text.empty()) {
     IPMask mask;
-    bool mask_p = mask.load(mask_text);
+    bool mask_p = mask.load(mask_text) && mask.width() <= IP4Addr::WIDTH;
     if (IP4Addr addr; addr.load(text)) {
       if (!mask_p) {
         if (IP4Addr m; m.load(mask_text)) {
@@ -929,6 +929,7 @@ IPNet::load(TextView text) {
         return true;
       }
     } else if (IP4Addr a4; a4.load(text)) {
+      mask_p = mask_p && mask.width() <= IP4Addr::WIDTH;
       if (!mask_p) {
         if (IP4Addr m; m.load(mask_text)) {
           mask   = IPMask::mask_for(m);
@@ -979,7 +980,7 @@ IP4Range::load(string_view text) {
         if (addr.load(text.substr(0, idx))) { // load the address
           IPMask mask;
           text.remove_prefix(idx + 1); // drop address and separator.
-          if (mask.load(text)) {
+          if (mask.load(text) && mask.width() <= IP4Addr::WIDTH) {
             this->assign(addr, mask);
             return true;
           }
-- 
2.43.0


From 30f70e2f42785d29969f8ec99742af93b1566cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:43 +0000
Subject: [PATCH 55/96] fix: IP6Range::assign with a mask wider than the
 address did not change the range

---
 code/src/swoc_ip.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index 4d2fbd0..0390968 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -1079,7 +1079,7 @@ IP6Range::assign(IP6Addr const &addr, IPMask const &mask) {
     _min._addr._store[0] = _max._addr._store[0] = addr._addr._store[0];
     _min._addr._store[1]                        = 0;
     _max._addr._store[1]                        = FULL_MASK;
-  } else if (cidr <= 128) { // _min bytes changed, _max bytes unaffected.
+  } else { // _min bytes changed, _max bytes unaffected.
     _min = _max = addr;
     if (cidr < 128) {
       auto bits             = FULL_MASK << (128 - cidr);
-- 
2.43.0


From 38f486c5a982aab3989e5f1c664985fe9857e0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:46 +0000
Subject: [PATCH 56/96] fix: IPRange::load did not mark the range invalid if
 the parse failed

---
 code/src/swoc_ip.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index 0390968..ad6a819 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -1138,6 +1138,7 @@ IPRange::load(std::string_view const &text) {
     return true;
   }
 
+  this->clear();
   return false;
 }
 
-- 
2.43.0


From c496071a264498b0d63646e2b4a7e964f006f095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:10 +0000
Subject: [PATCH 57/96] fix: IPEndpoint::parse did not invalidate the endpoint
 if the parse failed

---
 code/src/swoc_ip.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index ad6a819..074df1d 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -207,6 +207,7 @@ IPEndpoint::parse(std::string_view const &str) {
     this->assign(srv);
     return true;
   }
+  this->invalidate();
   return false;
 }
 
-- 
2.43.0


From d6fb212437b783b79bf952bb77be7043b6a30a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:18 +0000
Subject: [PATCH 58/96] fix: IPEndpoint constructed from an invalid address or
 service was not initialized

---
 code/include/swoc/IPEndpoint.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/IPEndpoint.h b/code/include/swoc/IPEndpoint.h
index 0cfde9c..f4f17d3 100644
--- a/code/include/swoc/IPEndpoint.h
+++ b/code/include/swoc/IPEndpoint.h
@@ -281,11 +281,11 @@ inline IPEndpoint::IPEndpoint() {
   sa.sa_family = AF_UNSPEC;
 }
 
-inline IPEndpoint::IPEndpoint(IPAddr const &addr) {
+inline IPEndpoint::IPEndpoint(IPAddr const &addr) : self_type() {
   this->assign(addr);
 }
 
-inline IPEndpoint::IPEndpoint(IPSrv const &srv) {
+inline IPEndpoint::IPEndpoint(IPSrv const &srv) : self_type() {
   this->assign(srv);
 }
 
-- 
2.43.0


From 110d33adaff3e9701e9808ccc71b2cfae2aac78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:20 +0000
Subject: [PATCH 59/96] fix: IPEndpoint::assign of a socket address to itself
 reported it as not valid

---
 code/src/swoc_ip.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index 074df1d..6e68b6e 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -49,16 +49,16 @@ IPEndpoint::IPEndpoint(string_view const &text) {
 bool
 IPEndpoint::assign(sockaddr *dst, sockaddr const *src) {
   size_t n = 0;
+  switch (src->sa_family) {
+  case AF_INET:
+    n = sizeof(sockaddr_in);
+    break;
+  case AF_INET6:
+    n = sizeof(sockaddr_in6);
+    break;
+  }
   if (dst != src) {
     self_type::invalidate(dst);
-    switch (src->sa_family) {
-    case AF_INET:
-      n = sizeof(sockaddr_in);
-      break;
-    case AF_INET6:
-      n = sizeof(sockaddr_in6);
-      break;
-    }
     if (n) {
       memcpy(dst, src, n);
     }
-- 
2.43.0


From 5dc69ee8b386c1381716bcc76be29eaa4f81502a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:58 +0000
Subject: [PATCH 60/96] fix: IPEndpoint::tokenize return value was wrong if no
 address result was requested

---
 code/src/swoc_ip.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/src/swoc_ip.cc b/code/src/swoc_ip.cc
index 6e68b6e..c9d3f81 100644
--- a/code/src/swoc_ip.cc
+++ b/code/src/swoc_ip.cc
@@ -147,10 +147,10 @@ bool
 IPEndpoint::tokenize(std::string_view str, std::string_view *addr, std::string_view *port, std::string_view *rest) {
   TextView src(str); /// Easier to work with for parsing.
   // In case the incoming arguments are null, set them here and only check for null once.
-  // it doesn't matter if it's all the same, the results will be thrown away.
-  std::string_view local;
+  // The address is needed for the return value, otherwise the results will be thrown away.
+  std::string_view local, local_addr;
   if (!addr) {
-    addr = &local;
+    addr = &local_addr;
   }
   if (!port) {
     port = &local;
-- 
2.43.0


From f54569a1106a5c048d64a2708e85705575266eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:05 +0000
Subject: [PATCH 61/96] fix: FixedBufferWriter::copy wrote and read past the
 end of the buffer

---
 code/include/swoc/BufferWriter.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/include/swoc/BufferWriter.h b/code/include/swoc/BufferWriter.h
index 154da37..abd8a2c 100644
--- a/code/include/swoc/BufferWriter.h
+++ b/code/include/swoc/BufferWriter.h
@@ -626,9 +626,9 @@ FixedBufferWriter::clear() -> self_type & {
 inline auto
 FixedBufferWriter::copy(size_t dst, size_t src, size_t n) -> self_type & {
   auto limit = std::min<size_t>(_capacity, _attempted); // max offset of region possible.
-  MemSpan<char> src_span{_buffer + src, std::min(limit, src + n)};
-  MemSpan<char> dst_span{_buffer + dst, std::min(limit, dst + n)};
-  std::memmove(dst_span.data(), src_span.data(), std::min(dst_span.size(), src_span.size()));
+  if (auto base = std::max(dst, src); base < limit) {
+    std::memmove(_buffer + dst, _buffer + src, std::min(n, limit - base));
+  }
   return *this;
 }
 
-- 
2.43.0


From 44870a2a960f3b4b83107bc22b7fd949e248d747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:19 +0000
Subject: [PATCH 62/96] fix: formatting the most negative integer negated it as
 a signed value

---
 code/include/swoc/bwf_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/include/swoc/bwf_base.h b/code/include/swoc/bwf_base.h
index d5c426d..1d5a13d 100644
--- a/code/include/swoc/bwf_base.h
+++ b/code/include/swoc/bwf_base.h
@@ -1104,7 +1104,7 @@ bwformat(BufferWriter &w, bwf::Spec const &spec, I &&i) ->
   bool neg_p  = false;
   uintmax_t n = static_cast<uintmax_t>(i);
   if (i < 0) {
-    n     = static_cast<uintmax_t>(-i);
+    n     = uintmax_t{0} - n; // negate as unsigned, the most negative value has no positive counterpart.
     neg_p = true;
   }
   return bwf::Format_Integer(w, spec, n, neg_p);
-- 
2.43.0


From a8c1b34fa29c2ba7d17349b066960dfbbe62691a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:29 +0000
Subject: [PATCH 63/96] fix: an empty value was not padded to the minimum field
 width

---
 code/include/swoc/bwf_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/include/swoc/bwf_base.h b/code/include/swoc/bwf_base.h
index 1d5a13d..40def8b 100644
--- a/code/include/swoc/bwf_base.h
+++ b/code/include/swoc/bwf_base.h
@@ -903,7 +903,7 @@ BufferWriter::print_nfv(Binding &&names, Extractor &&ex, bwf::ArgPack const &arg
         } else if (spec._name.size()) {
           names(lw, spec);
         }
-        if (lw.extent()) {
+        if (lw.extent() || spec._min > 0) {
           bwf::Adjust_Alignment(lw, spec);
           if (!this->commit(lw.extent())) {
             continue;
-- 
2.43.0


From c4b9a37e1e249b2bf65bdaac430eb26dd705ba5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:18 +0000
Subject: [PATCH 64/96] fix: floating point values too large for an integer
 were not formatted, the sign of infinity was lost

---
 code/src/bw_format.cc | 44 ++++++++++++++++++++++++++++++++++++-------
 1 file changed, 37 insertions(+), 7 deletions(-)

diff --git a/code/src/bw_format.cc b/code/src/bw_format.cc
index 60ceacc..a5b08da 100644
--- a/code/src/bw_format.cc
+++ b/code/src/bw_format.cc
@@ -522,10 +522,47 @@ Format_Float(BufferWriter &w, Spec const &spec, double f, bool negative_p) {
       unnormal = unknown_bwf;
     }
 
+    if (negative_p && spec._sign != Spec::SIGN_NEVER) {
+      w.write('-');
+    }
     w.write(unnormal);
     return w;
   }
 
+  char neg = 0;
+  if (spec._sign != Spec::SIGN_NEVER) {
+    if (negative_p) {
+      neg = '-';
+    } else if (spec._sign == Spec::SIGN_ALWAYS) {
+      neg = spec._sign;
+    }
+  }
+
+  if (f >= 0x1p64) { // No integer type can hold this, expand it to decimal exactly.
+    char digits[std::numeric_limits<double>::max_exponent10 + 1];
+    unsigned doublings = 0;
+    for (; f >= 0x1p64; f /= 2) {
+      ++doublings;
+    }
+    size_t n = bwf::To_Radix<10>(static_cast<uint64_t>(f), digits, sizeof(digits), bwf::LOWER_DIGITS);
+    for (; doublings > 0; --doublings) {
+      unsigned carry = 0;
+      for (size_t idx = 1; idx <= n; ++idx) {
+        char &c     = digits[sizeof(digits) - idx];
+        unsigned v  = (c - '0') * 2 + carry;
+        c           = '0' + v % 10;
+        carry       = v / 10;
+      }
+      if (carry) {
+        digits[sizeof(digits) - ++n] = '0' + carry;
+      }
+    }
+    Write_Aligned(
+      w, [&]() { w.write(std::string_view{digits + sizeof(digits) - n, n}); }, spec._align,
+      static_cast<int>(spec._min) - static_cast<int>(n) - (neg ? 1 : 0), spec._fill, neg);
+    return w;
+  }
+
   auto whole_part = static_cast<uint64_t>(f);
   if (whole_part == f || spec._prec == 0) { // integral
     return Format_Integer(w, spec, whole_part, negative_p);
@@ -537,18 +574,11 @@ Format_Float(BufferWriter &w, Spec const &spec, double f, bool negative_p) {
   size_t r                  = 0;
   char whole[std::numeric_limits<double>::digits10 + 1];
   char fraction[std::numeric_limits<double>::digits10 + 1];
-  char neg               = 0;
   int width              = static_cast<int>(spec._min);                          // amount left to fill.
   unsigned int precision = (spec._prec == Spec::DEFAULT._prec) ? 2 : spec._prec; // default precision 2
 
   frac = f - whole_part; // split the number
 
-  if (negative_p) {
-    neg = '-';
-  } else if (spec._sign != '-') {
-    neg = spec._sign;
-  }
-
   // Shift the floating point based on the precision. Used to convert
   //  trailing fraction into an integer value.
   uint64_t shift = 0;
-- 
2.43.0


From b4f8c4850d93355415f4ed7cc361a476ca6d642d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:20 +0000
Subject: [PATCH 65/96] fix: fractions lost leading zeros, did not carry in to
 the whole number, and overflowed a buffer

---
 code/src/bw_format.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/code/src/bw_format.cc b/code/src/bw_format.cc
index a5b08da..3eb1c22 100644
--- a/code/src/bw_format.cc
+++ b/code/src/bw_format.cc
@@ -573,10 +573,13 @@ Format_Float(BufferWriter &w, Spec const &spec, double f, bool negative_p) {
   size_t l                  = 0;
   size_t r                  = 0;
   char whole[std::numeric_limits<double>::digits10 + 1];
-  char fraction[std::numeric_limits<double>::digits10 + 1];
+  char fraction[std::numeric_limits<uint64_t>::digits10 + 1];
   int width              = static_cast<int>(spec._min);                          // amount left to fill.
   unsigned int precision = (spec._prec == Spec::DEFAULT._prec) ? 2 : spec._prec; // default precision 2
 
+  // The fraction is handled as an integer, limiting the number of digits that can be generated.
+  precision = std::min<unsigned>(precision, std::numeric_limits<uint64_t>::digits10);
+
   frac = f - whole_part; // split the number
 
   // Shift the floating point based on the precision. Used to convert
@@ -586,15 +589,22 @@ Format_Float(BufferWriter &w, Spec const &spec, double f, bool negative_p) {
     shift = POWERS_OF_TEN[precision];
   } else { // not precomputed.
     shift = POWERS_OF_TEN.back();
-    for (precision -= (POWERS_OF_TEN.size() - 1); precision > 0; --precision) {
+    for (auto n = precision - (POWERS_OF_TEN.size() - 1); n > 0; --n) {
       shift *= 10;
     }
   }
 
   auto frac_part = static_cast<uint64_t>(frac * shift + 0.5 /* rounding */);
+  if (frac_part >= shift) { // rounded up to the next whole number.
+    ++whole_part;
+    frac_part -= shift;
+  }
 
   l = bwf::To_Radix<10>(whole_part, whole, sizeof(whole), bwf::LOWER_DIGITS);
   r = bwf::To_Radix<10>(frac_part, fraction, sizeof(fraction), bwf::LOWER_DIGITS);
+  while (r < precision) { // the fraction must have all of its leading zeros.
+    fraction[sizeof(fraction) - ++r] = '0';
+  }
 
   // Clip fill width
   if (neg) {
-- 
2.43.0


From 44d5097e7eb62a9bb074b11382649bf93b4a3d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:37 +0000
Subject: [PATCH 66/96] fix: format specification characters past 127 indexed
 out of bounds

---
 code/include/swoc/bwf_base.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/code/include/swoc/bwf_base.h b/code/include/swoc/bwf_base.h
index 40def8b..72f3f07 100644
--- a/code/include/swoc/bwf_base.h
+++ b/code/include/swoc/bwf_base.h
@@ -472,39 +472,40 @@ extern ExternalNames Global_Names;
 // --------------- Implementation --------------------
 /// --- Spec ---
 
+// A @c char is signed on some platforms, it must not be used as an index directly.
 inline Spec::Align
 Spec::align_of(char c) {
-  return static_cast<Align>(_prop._data[static_cast<unsigned>(c)] & Property::ALIGN_MASK);
+  return static_cast<Align>(_prop._data[static_cast<unsigned char>(c)] & Property::ALIGN_MASK);
 }
 
 inline bool
 Spec::is_sign(char c) {
-  return _prop._data[static_cast<unsigned>(c)] & Property::SIGN_CHAR;
+  return _prop._data[static_cast<unsigned char>(c)] & Property::SIGN_CHAR;
 }
 
 inline bool
 Spec::is_type(char c) {
-  return _prop._data[static_cast<unsigned>(c)] & Property::TYPE_CHAR;
+  return _prop._data[static_cast<unsigned char>(c)] & Property::TYPE_CHAR;
 }
 
 inline bool
 Spec::is_upper_case_type(char c) {
-  return _prop._data[static_cast<unsigned>(c)] & Property::UPPER_TYPE_CHAR;
+  return _prop._data[static_cast<unsigned char>(c)] & Property::UPPER_TYPE_CHAR;
 }
 
 inline bool
 Spec::is_numeric_type(char c) {
-  return _prop._data[static_cast<unsigned>(c)] & Property::NUMERIC_TYPE_CHAR;
+  return _prop._data[static_cast<unsigned char>(c)] & Property::NUMERIC_TYPE_CHAR;
 }
 
 inline bool
 Spec::has_numeric_type() const {
-  return _prop._data[static_cast<unsigned>(_type)] & Property::NUMERIC_TYPE_CHAR;
+  return _prop._data[static_cast<unsigned char>(_type)] & Property::NUMERIC_TYPE_CHAR;
 }
 
 inline bool
 Spec::has_upper_case_type() const {
-  return _prop._data[static_cast<unsigned>(_type)] & Property::UPPER_TYPE_CHAR;
+  return _prop._data[static_cast<unsigned char>(_type)] & Property::UPPER_TYPE_CHAR;
 }
 
 inline bool
-- 
2.43.0


From 3bfe20755c501fa176293beb33eefa5f4610db34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:40 +0000
Subject: [PATCH 67/96] fix: a format specification ending in the zero fill
 mark was read past its end

---
 code/src/bw_format.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/code/src/bw_format.cc b/code/src/bw_format.cc
index 3eb1c22..ecd2585 100644
--- a/code/src/bw_format.cc
+++ b/code/src/bw_format.cc
@@ -127,7 +127,9 @@ Spec::parse(TextView fmt) {
           _align = Align::SIGN;
         }
         _fill = '0';
-        ++sz;
+        if (!(++sz).size()) {
+          return true;
+        }
       }
       num = sz;
       n   = svto_radix<10>(num);
-- 
2.43.0


From 085a3198104b70c3b72cfecdfebe383b38ae11e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:43 +0000
Subject: [PATCH 68/96] fix: numbers in a format specification wrapped and so
 had other meanings if large

---
 code/src/bw_format.cc | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/code/src/bw_format.cc b/code/src/bw_format.cc
index ecd2585..a70a63c 100644
--- a/code/src/bw_format.cc
+++ b/code/src/bw_format.cc
@@ -65,6 +65,15 @@ Spec::Spec(const TextView &fmt) {
   this->parse(fmt);
 }
 
+namespace {
+/// Limit a parsed number to the range of its destination, rather than wrapping.
+template <typename T>
+void
+assign_clamped(T &dst, uintmax_t n) {
+  dst = static_cast<T>(std::min<uintmax_t>(n, std::numeric_limits<T>::max()));
+}
+} // namespace
+
 /// Parse a format specification.
 bool
 Spec::parse(TextView fmt) {
@@ -75,7 +84,7 @@ Spec::parse(TextView fmt) {
   num    = _name;
   auto n = svto_radix<10>(num);
   if (num.empty()) {
-    _idx = static_cast<decltype(_idx)>(n);
+    assign_clamped(_idx, n);
   }
 
   if (fmt.size()) {
@@ -134,7 +143,7 @@ Spec::parse(TextView fmt) {
       num = sz;
       n   = svto_radix<10>(num);
       if (num.size() < sz.size()) {
-        _min = static_cast<decltype(_min)>(n);
+        assign_clamped(_min, n);
         sz   = num;
         if (!sz.size()) {
           return true;
@@ -145,7 +154,7 @@ Spec::parse(TextView fmt) {
         num = ++sz;
         n   = svto_radix<10>(num);
         if (num.size() < sz.size()) {
-          _prec = static_cast<decltype(_prec)>(n);
+          assign_clamped(_prec, n);
           sz    = num;
           if (!sz.size()) {
             return true;
@@ -166,7 +175,7 @@ Spec::parse(TextView fmt) {
         num = ++sz;
         n   = svto_radix<10>(num);
         if (num.size() < sz.size()) {
-          _max = static_cast<decltype(_max)>(n);
+          assign_clamped(_max, n);
           sz   = num;
           if (!sz.size()) {
             return true;
-- 
2.43.0


From 824fc6e55fb856445ad2a3febeab0e1c52156814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:14 +0000
Subject: [PATCH 69/96] fix: a minimum field width larger than the maximum
 output uninitialized data

---
 code/src/bw_format.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/code/src/bw_format.cc b/code/src/bw_format.cc
index a70a63c..2c93e15 100644
--- a/code/src/bw_format.cc
+++ b/code/src/bw_format.cc
@@ -308,12 +308,12 @@ Adjust_Alignment(BufferWriter &aux, Spec const &spec) {
     for (int i = right_delta; i > 0; --i) {
       aux.write(spec._fill);
     }
+    extent = min;
+  }
 
-  } else {
-    size_t max = spec._max;
-    if (max < extent) {
-      aux.discard(extent - max);
-    }
+  size_t max = spec._max;
+  if (max < extent) {
+    aux.discard(extent - max);
   }
 }
 
-- 
2.43.0


From 4701058184888ffbab92952471632fe000ff4352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:54 +0000
Subject: [PATCH 70/96] fix: Lexicon iterators could not be decremented, post
 decrement moved forward

---
 code/include/swoc/Lexicon.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/code/include/swoc/Lexicon.h b/code/include/swoc/Lexicon.h
index c574bc7..30d0f31 100644
--- a/code/include/swoc/Lexicon.h
+++ b/code/include/swoc/Lexicon.h
@@ -770,15 +770,15 @@ Lexicon<E>::value_iterator::operator++(int) -> self_type {
 template <typename E>
 auto
 Lexicon<E>::value_iterator::operator--() -> self_type & {
-  super_type::_item = super_type::_item->_value_link->_prev;
+  super_type::_item = super_type::_item->_value_link._prev;
   return *this;
 }
 
 template <typename E>
 auto
 Lexicon<E>::value_iterator::operator--(int) -> self_type {
-  self_type tmp;
-  ++*this;
+  self_type tmp{*this};
+  --*this;
   return tmp;
 }
 
@@ -800,15 +800,15 @@ Lexicon<E>::name_iterator::operator++(int) -> self_type {
 template <typename E>
 auto
 Lexicon<E>::name_iterator::operator--() -> self_type & {
-  super_type::_item = super_type::_item->_name_link->_prev;
+  super_type::_item = super_type::_item->_name_link._prev;
   return *this;
 }
 
 template <typename E>
 auto
 Lexicon<E>::name_iterator::operator--(int) -> self_type {
-  self_type tmp;
-  ++*this;
+  self_type tmp{*this};
+  --*this;
   return tmp;
 }
 
-- 
2.43.0


From b92d99ec63a7cb8b5e369d1699de6df61e60acb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:52 +0000
Subject: [PATCH 71/96] fix: Scalar - round negative counts in the documented
 direction.

---
 code/include/swoc/Scalar.h | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/code/include/swoc/Scalar.h b/code/include/swoc/Scalar.h
index 339daf3..37e1647 100644
--- a/code/include/swoc/Scalar.h
+++ b/code/include/swoc/Scalar.h
@@ -47,11 +47,22 @@ scale_conversion_round_up(C c) {
   if constexpr (N == S) {
     return c;
   } else if constexpr (R::den == 1) {
-    return c / R::num + (0 != c % R::num); // N is a multiple of S.
+    return c / R::num + (0 < c % R::num); // N is a multiple of S, division truncates toward zero.
   } else if constexpr (R::num == 1) {
     return c * R::den; // S is a multiple of N.
   }
-  return (c / R::num) * R::den + ((c % R::num) * R::den) / R::num + (0 != (c % R::num));
+  return (c / R::num) * R::den + ((c % R::num) * R::den) / R::num + (0 < (c % R::num));
+}
+
+// Correction to change a quotient that was truncated toward zero to one that is rounded down.
+// @a r is the remainder of the division - only a negative remainder requires adjustment.
+template <typename C>
+constexpr int
+round_down_adjust([[maybe_unused]] C r) {
+  if constexpr (std::is_signed_v<C>) {
+    return r < 0 ? 1 : 0;
+  }
+  return 0;
 }
 
 // Convert a count @a c that is scale @a S to scale @c N
@@ -62,11 +73,11 @@ scale_conversion_round_down(C c) {
   if constexpr (N == S) {
     return c;
   } else if constexpr (R::den == 1) {
-    return c / R::num; // N = k S
+    return c / R::num - round_down_adjust(c % R::num); // N = k S
   } else if constexpr (R::num == 1) {
     return c * R::den; // S = k N
   }
-  return (c / R::num) * R::den + ((c % R::num) * R::den) / R::num;
+  return (c / R::num) * R::den + ((c % R::num) * R::den) / R::num - round_down_adjust(c % R::num);
 }
 
 /* Helper classes for @c Scalar
@@ -104,7 +115,7 @@ template <typename C> struct scalar_unit_round_up_t {
   template <intmax_t N, typename I>
   constexpr I
   scale() const {
-    return static_cast<I>(_n / N + (0 != (_n % N)));
+    return static_cast<I>(_n / N + (0 < (_n % N)));
   }
 };
 
@@ -115,7 +126,7 @@ template <typename C> struct scalar_unit_round_down_t {
   template <intmax_t N, typename I>
   constexpr I
   scale() const {
-    return static_cast<I>(_n / N);
+    return static_cast<I>(_n / N - round_down_adjust(_n % N));
   }
 };
 
-- 
2.43.0


From e64db55dd0171fe9bf696a5fba51149df1f5eedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:06 +0000
Subject: [PATCH 72/96] fix: Scalar - do not truncate a rounded conversion to
 the counter type of the source.

---
 code/include/swoc/Scalar.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/Scalar.h b/code/include/swoc/Scalar.h
index 37e1647..01c6a73 100644
--- a/code/include/swoc/Scalar.h
+++ b/code/include/swoc/Scalar.h
@@ -40,8 +40,9 @@ namespace detail {
 // N,S are powers of 2 I have verified recent GNU compilers will optimize to bit operations.
 
 // Convert a count @a c that is scale @a S to scale @c N
+// The result is not limited to the type of @a c because the type of the destination can be wider.
 template <intmax_t N, intmax_t S, typename C>
-C
+std::common_type_t<C, intmax_t>
 scale_conversion_round_up(C c) {
   using R = std::ratio<N, S>;
   if constexpr (N == S) {
@@ -67,7 +68,7 @@ round_down_adjust([[maybe_unused]] C r) {
 
 // Convert a count @a c that is scale @a S to scale @c N
 template <intmax_t N, intmax_t S, typename C>
-C
+std::common_type_t<C, intmax_t>
 scale_conversion_round_down(C c) {
   using R = std::ratio<N, S>;
   if constexpr (N == S) {
-- 
2.43.0


From 8e470c6fc22f125534c3b89e22adf7f4bd155357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:18 +0000
Subject: [PATCH 73/96] fix: Scalar - make plus, minus, and arithmetic with
 rounded scalars usable.

---
 code/include/swoc/Scalar.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/code/include/swoc/Scalar.h b/code/include/swoc/Scalar.h
index 01c6a73..7bfb321 100644
--- a/code/include/swoc/Scalar.h
+++ b/code/include/swoc/Scalar.h
@@ -744,25 +744,25 @@ operator+(Scalar<N, C, T> const &lhs, detail::scalar_unit_round_down_t<I> rhs) {
 template <intmax_t N, typename C, typename T>
 Scalar<N, C, T>
 operator+(detail::scalar_round_up_t<N, C, T> lhs, Scalar<N, C, T> const &rhs) {
-  return Scalar<N, C, T>(rhs) += lhs._n;
+  return Scalar<N, C, T>(rhs) += lhs;
 }
 
 template <intmax_t N, typename C, typename T>
 Scalar<N, C, T>
 operator+(Scalar<N, C, T> const &lhs, detail::scalar_round_up_t<N, C, T> rhs) {
-  return Scalar<N, C, T>(lhs) += rhs._n;
+  return Scalar<N, C, T>(lhs) += rhs;
 }
 
 template <intmax_t N, typename C, typename T>
 Scalar<N, C, T>
 operator+(detail::scalar_round_down_t<N, C, T> lhs, Scalar<N, C, T> const &rhs) {
-  return Scalar<N, C, T>(rhs) += lhs._n;
+  return Scalar<N, C, T>(rhs) += lhs;
 }
 
 template <intmax_t N, typename C, typename T>
 Scalar<N, C, T>
 operator+(Scalar<N, C, T> const &lhs, detail::scalar_round_down_t<N, C, T> rhs) {
-  return Scalar<N, C, T>(lhs) += rhs._n;
+  return Scalar<N, C, T>(lhs) += rhs;
 }
 /// @endcond
 
@@ -867,7 +867,7 @@ operator-(detail::scalar_round_up_t<N, C, T> lhs, Scalar<N, C, T> const &rhs) {
 template <intmax_t N, typename C, typename T>
 Scalar<N, C, T>
 operator-(Scalar<N, C, T> const &lhs, detail::scalar_round_up_t<N, C, T> rhs) {
-  return Scalar<N, C, T>(lhs) -= rhs._n;
+  return Scalar<N, C, T>(lhs) -= rhs;
 }
 
 template <intmax_t N, typename C, typename T>
@@ -879,7 +879,7 @@ operator-(detail::scalar_round_down_t<N, C, T> lhs, Scalar<N, C, T> const &rhs)
 template <intmax_t N, typename C, typename T>
 Scalar<N, C, T>
 operator-(Scalar<N, C, T> const &lhs, detail::scalar_round_down_t<N, C, T> rhs) {
-  return Scalar<N, C, T>(lhs) -= rhs._n;
+  return Scalar<N, C, T>(lhs) -= rhs;
 }
 /// @endcond
 
@@ -1000,13 +1000,13 @@ Scalar<N, C, T>::operator()(Counter n) const -> self_type {
 template <intmax_t N, typename C, typename T>
 auto
 Scalar<N, C, T>::plus(Counter n) const -> self_type {
-  return {_n + n};
+  return self_type(_n + n);
 }
 
 template <intmax_t N, typename C, typename T>
 auto
 Scalar<N, C, T>::minus(Counter n) const -> self_type {
-  return {_n - n};
+  return self_type(_n - n);
 }
 
 /** Explicitly round @c value up to a multiple of @a N.
-- 
2.43.0


From 8531da8151b610ada048e8e8097a668c5a05daf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:50 +0000
Subject: [PATCH 74/96] fix: Scalar - operator != compared converted values,
 inconsistent with operator ==.

---
 code/include/swoc/Scalar.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/code/include/swoc/Scalar.h b/code/include/swoc/Scalar.h
index 7bfb321..c74cd21 100644
--- a/code/include/swoc/Scalar.h
+++ b/code/include/swoc/Scalar.h
@@ -637,6 +637,13 @@ operator<=(Scalar<N, C1, T> const &lhs, Scalar<S, I, T> const &rhs) {
 }
 
 // Derived compares.
+// Without this the conversion to a value would be used, which need not fit in the counter type.
+template <intmax_t N, typename C, intmax_t S, typename I, typename T>
+bool
+operator!=(Scalar<N, C, T> const &lhs, Scalar<S, I, T> const &rhs) {
+  return !(lhs == rhs);
+}
+
 template <intmax_t N, typename C, intmax_t S, typename I, typename T>
 bool
 operator>(Scalar<N, C, T> const &lhs, Scalar<S, I, T> const &rhs) {
-- 
2.43.0


From 292df1948ac6aa8f1bdb64074537d66cc20dbdfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:19 +0000
Subject: [PATCH 75/96] fix: Errata - an error code was not reported if there
 were no annotations.

---
 code/include/swoc/Errata.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/include/swoc/Errata.h b/code/include/swoc/Errata.h
index 6ee0be5..09131dc 100644
--- a/code/include/swoc/Errata.h
+++ b/code/include/swoc/Errata.h
@@ -1124,7 +1124,7 @@ Errata::empty() const {
 
 inline auto
 Errata::code() const -> code_type const & {
-  return this->empty() ? DEFAULT_CODE : _data->_code;
+  return _data ? _data->_code : DEFAULT_CODE;
 }
 
 inline auto
-- 
2.43.0


From 3997790ee6f0503d2a732fde7f0b3adc1ddc352a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:18 +0000
Subject: [PATCH 76/96] fix: Vectray - only initialized elements of the fixed
 storage are valid.

---
 code/include/swoc/Vectray.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/code/include/swoc/Vectray.h b/code/include/swoc/Vectray.h
index e2e6485..6d59033 100644
--- a/code/include/swoc/Vectray.h
+++ b/code/include/swoc/Vectray.h
@@ -52,9 +52,9 @@ public:                                                              // STL comp
 
   /// Internal (fixed) storage.
   struct FixedStore {
-    std::array<std::byte, sizeof(T) * N> _raw; ///< Raw memory for element storage.
-    size_t _count = 0;                         ///< Number of valid elements.
-    allocator_type _a;                         ///< Allocator instance - used for construction.
+    alignas(T) std::array<std::byte, sizeof(T) * N> _raw; ///< Raw memory for element storage.
+    size_t _count = 0;                                    ///< Number of valid elements.
+    allocator_type _a;                                    ///< Allocator instance - used for construction.
 
     FixedStore() = default; ///< Default construct - empty.
 
@@ -263,7 +263,7 @@ template <typename T, size_t N, class A> Vectray<T, N, A>::FixedStore::~FixedSto
 template <typename T, size_t N, class A>
 MemSpan<T>
 Vectray<T, N, A>::FixedStore::span() {
-  return MemSpan<std::byte>(_raw).template rebind<T>();
+  return {this->data(), _count};
 }
 
 template <typename T, size_t N, class A>
-- 
2.43.0


From a7c135f52a77c3e53f58bc85c0cc34348512420e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:20 +0000
Subject: [PATCH 77/96] fix: Vectray - make data and access to constant
 instances usable.

---
 code/include/swoc/Vectray.h | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/code/include/swoc/Vectray.h b/code/include/swoc/Vectray.h
index 6d59033..2ac6343 100644
--- a/code/include/swoc/Vectray.h
+++ b/code/include/swoc/Vectray.h
@@ -69,6 +69,9 @@ public:                                                              // STL comp
     /// @return A span containing the valid elements.
     MemSpan<T> span();
 
+    /// @return A span containing the valid elements.
+    MemSpan<T const> span() const;
+
     /// @return A pointer to the data.
     T *data();
 
@@ -266,6 +269,12 @@ Vectray<T, N, A>::FixedStore::span() {
   return {this->data(), _count};
 }
 
+template <typename T, size_t N, class A>
+MemSpan<T const>
+Vectray<T, N, A>::FixedStore::span() const {
+  return {this->data(), _count};
+}
+
 template <typename T, size_t N, class A>
 T *
 Vectray<T, N, A>::FixedStore::data() {
@@ -275,7 +284,7 @@ Vectray<T, N, A>::FixedStore::data() {
 template <typename T, size_t N, class A>
 T const *
 Vectray<T, N, A>::FixedStore::data() const {
-  return reinterpret_cast<T *>(_raw.data());
+  return reinterpret_cast<T const *>(_raw.data());
 }
 
 template <typename T, size_t N, typename A>
@@ -287,7 +296,7 @@ Vectray<T, N, A>::operator[](size_type idx) {
 template <typename T, size_t N, typename A>
 T const &
 Vectray<T, N, A>::operator[](size_type idx) const {
-  return this->items[idx];
+  return this->items()[idx];
 }
 
 template <typename T, size_t N, typename A>
@@ -404,7 +413,7 @@ Vectray<T, N, A>::transfer(size_type rN) {
 template <typename T, size_t N, class A>
 auto
 Vectray<T, N, A>::items() const -> const_span {
-  return std::visit(swoc::meta::vary{[](FixedStore const &fs) { fs.span(); },
+  return std::visit(swoc::meta::vary{[](FixedStore const &fs) { return fs.span(); },
                                      [](DynamicStore const &ds) { return const_span(ds.data(), ds.size()); }},
                     _store);
 }
@@ -412,14 +421,14 @@ Vectray<T, N, A>::items() const -> const_span {
 template <typename T, size_t N, class A>
 T *
 Vectray<T, N, A>::data() {
-  return std::visit(swoc::meta::vary{[](FixedStore const &fs) { fs.data(); }, [](DynamicStore const &ds) { return ds.data(); }},
+  return std::visit(swoc::meta::vary{[](FixedStore &fs) { return fs.data(); }, [](DynamicStore &ds) { return ds.data(); }},
                     _store);
 }
 
 template <typename T, size_t N, class A>
 T const *
 Vectray<T, N, A>::data() const {
-  return std::visit(swoc::meta::vary{[](FixedStore const &fs) { fs.data(); }, [](DynamicStore const &ds) { return ds.data(); }},
+  return std::visit(swoc::meta::vary{[](FixedStore const &fs) { return fs.data(); }, [](DynamicStore const &ds) { return ds.data(); }},
                     _store);
 }
 
-- 
2.43.0


From 674a125d0b60435909fa4f157cc2329d0631094b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:22 +0000
Subject: [PATCH 78/96] fix: Vectray - make pop_back usable.

---
 code/include/swoc/Vectray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/include/swoc/Vectray.h b/code/include/swoc/Vectray.h
index 2ac6343..8d7e2ea 100644
--- a/code/include/swoc/Vectray.h
+++ b/code/include/swoc/Vectray.h
@@ -350,7 +350,7 @@ Vectray<T, N, A>::emplace_back(Args &&...args) {
 template <typename T, size_t N, class A>
 auto
 Vectray<T, N, A>::pop_back() -> self_type & {
-  std::visit(swoc::meta::vary{[&](FixedStore &fs) -> void { std::destroy_at(fs.span()[--fs._count]); },
+  std::visit(swoc::meta::vary{[&](FixedStore &fs) -> void { std::destroy_at(fs.data() + --fs._count); },
                               [&](DynamicStore &ds) -> void { ds.pop_back(); }},
              _store);
   return *this;
-- 
2.43.0


From 98b60dd4dc07628971c9a175b0ff1571909f0df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:24 +0000
Subject: [PATCH 79/96] fix: Vectray - appending an element of the instance
 itself used the element after it was moved.

---
 code/include/swoc/Vectray.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/code/include/swoc/Vectray.h b/code/include/swoc/Vectray.h
index 8d7e2ea..d197d81 100644
--- a/code/include/swoc/Vectray.h
+++ b/code/include/swoc/Vectray.h
@@ -306,8 +306,9 @@ Vectray<T, N, A>::push_back(const T &t) -> self_type & {
                                 if (fs._count < N) {
                                   new (reinterpret_cast<T *>(fs._raw.data()) + fs._count++) T(t); // A::traits ?
                                 } else {
+                                  T tmp(t); // @a t could be an element of @a this.
                                   this->transfer();
-                                  std::get<DYNAMIC>(_store).push_back(t);
+                                  std::get<DYNAMIC>(_store).push_back(std::move(tmp));
                                 }
                               },
                               [&](DynamicStore &ds) -> void { ds.push_back(t); }},
@@ -322,8 +323,9 @@ Vectray<T, N, A>::push_back(T &&t) -> self_type & {
                                 if (fs._count < N) {
                                   new (reinterpret_cast<T *>(fs._raw.data()) + fs._count++) T(std::move(t)); // A::traits ?
                                 } else {
+                                  T tmp(std::move(t)); // @a t could be an element of @a this.
                                   this->transfer();
-                                  std::get<DYNAMIC>(_store).push_back(std::move(t));
+                                  std::get<DYNAMIC>(_store).push_back(std::move(tmp));
                                 }
                               },
                               [&](DynamicStore &ds) -> void { ds.push_back(std::move(t)); }},
@@ -341,7 +343,10 @@ Vectray<T, N, A>::emplace_back(Args &&...args) {
       new (reinterpret_cast<T *>(fs._raw.data()) + fs._count++) T(std::forward<Args>(args)...); // A::traits ?
       return *this;
     }
-    this->transfer(); // transfer to dynamic and fall through to add item.
+    T tmp(std::forward<Args>(args)...); // @a args could refer to elements of @a this.
+    this->transfer();
+    std::get<DYNAMIC>(_store).push_back(std::move(tmp));
+    return *this;
   }
   std::get<DYNAMIC>(_store).emplace_back(std::forward<Args>(args)...);
   return *this;
-- 
2.43.0


From d9baef8fb7309d87ae40f3588027f3f241a1c4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:26 +0000
Subject: [PATCH 80/96] fix: Vectray - copy of an instance copied the bytes and
 not the elements of the fixed storage.

---
 code/include/swoc/Vectray.h | 68 +++++++++++++++++++++++++++++++++++--
 1 file changed, 66 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/Vectray.h b/code/include/swoc/Vectray.h
index d197d81..67e0fa6 100644
--- a/code/include/swoc/Vectray.h
+++ b/code/include/swoc/Vectray.h
@@ -64,8 +64,23 @@ public:                                                              // STL comp
      */
     explicit FixedStore(allocator_type const &a) : _a(a) {}
 
+    /// Copy constructor - copies the valid elements.
+    FixedStore(FixedStore const &that);
+
+    /// Move constructor - moves the valid elements and leaves @a that empty.
+    FixedStore(FixedStore &&that) noexcept(std::is_nothrow_move_constructible_v<T>);
+
+    /// Copy assignment.
+    FixedStore &operator=(FixedStore const &that);
+
+    /// Move assignment.
+    FixedStore &operator=(FixedStore &&that) noexcept(std::is_nothrow_move_constructible_v<T>);
+
     ~FixedStore();
 
+    /// Destruct all elements.
+    void clear();
+
     /// @return A span containing the valid elements.
     MemSpan<T> span();
 
@@ -257,9 +272,58 @@ template <typename T, size_t N, class A> template <size_t M> Vectray<T, N, A>::V
   }
 }
 
+template <typename T, size_t N, class A> Vectray<T, N, A>::FixedStore::FixedStore(FixedStore const &that) : _a(that._a) {
+  for (auto const &item : that.span()) {
+    new (this->data() + _count) T(item);
+    ++_count;
+  }
+}
+
+template <typename T, size_t N, class A>
+Vectray<T, N, A>::FixedStore::FixedStore(FixedStore &&that) noexcept(std::is_nothrow_move_constructible_v<T>) : _a(that._a) {
+  for (auto &item : that.span()) {
+    new (this->data() + _count) T(std::move(item));
+    ++_count;
+  }
+  that.clear();
+}
+
+template <typename T, size_t N, class A>
+auto
+Vectray<T, N, A>::FixedStore::operator=(FixedStore const &that) -> FixedStore & {
+  if (this != &that) {
+    this->clear();
+    for (auto const &item : that.span()) {
+      new (this->data() + _count) T(item);
+      ++_count;
+    }
+  }
+  return *this;
+}
+
+template <typename T, size_t N, class A>
+auto
+Vectray<T, N, A>::FixedStore::operator=(FixedStore &&that) noexcept(std::is_nothrow_move_constructible_v<T>) -> FixedStore & {
+  if (this != &that) {
+    this->clear();
+    for (auto &item : that.span()) {
+      new (this->data() + _count) T(std::move(item));
+      ++_count;
+    }
+    that.clear();
+  }
+  return *this;
+}
+
 template <typename T, size_t N, class A> Vectray<T, N, A>::FixedStore::~FixedStore() {
-  for (auto &item : this->span()) {
-    std::destroy_at(std::addressof(item));
+  this->clear();
+}
+
+template <typename T, size_t N, class A>
+void
+Vectray<T, N, A>::FixedStore::clear() {
+  while (_count > 0) {
+    std::destroy_at(this->data() + --_count);
   }
 }
 
-- 
2.43.0


From 901dcbae96a64d1aab91f5f482c4de2247445b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:29 +0000
Subject: [PATCH 81/96] fix: Vectray - move from a different static size lost
 elements or did not compile.

---
 code/include/swoc/Vectray.h | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/code/include/swoc/Vectray.h b/code/include/swoc/Vectray.h
index 67e0fa6..00ec3a1 100644
--- a/code/include/swoc/Vectray.h
+++ b/code/include/swoc/Vectray.h
@@ -37,6 +37,8 @@ template <typename T, size_t N, class A = std::allocator<T>> class Vectray {
   using self_type   = Vectray;           ///< Self reference type.
   using vector_type = std::vector<T, A>; ///< Internal dynamic storage type.
 
+  template <typename U, size_t M, class B> friend class Vectray; // needed to move between different static sizes.
+
 public:                                                              // STL compliance types.
   using value_type      = T;                                         ///< Element type for container.
   using reference       = std::remove_reference<T> &;                ///< Reference to element.
@@ -118,6 +120,18 @@ public:
    */
   explicit Vectray(size_type n, allocator_type const &alloc = allocator_type{});
 
+  /// Copy constructor.
+  Vectray(self_type const &that) = default;
+
+  /// Move constructor.
+  Vectray(self_type &&that) = default;
+
+  /// Copy assignment.
+  self_type &operator=(self_type const &that) = default;
+
+  /// Move assignment.
+  self_type &operator=(self_type &&that) = default;
+
   /// Move constructor for difference static sized instance.
   template <size_t M> Vectray(Vectray<T, M, A> &&that);
 
@@ -262,13 +276,12 @@ template <typename T, size_t N, class A> template <size_t M> Vectray<T, N, A>::V
   if (DYNAMIC == that._store.index()) {
     _store = std::move(std::get<DYNAMIC>(that._store));
   } else {
-    auto span = std::get<FIXED>(that._store).span();
-    if (span.size() > N) {
-    } else {
-      for (auto &&item : span) {
-        this->template emplace_back(std::move(item));
-      }
+    auto &fs = std::get<FIXED>(that._store);
+    this->reserve(fs._count); // switch to dynamic storage now if needed.
+    for (auto &&item : fs.span()) {
+      this->emplace_back(std::move(item));
     }
+    fs.clear(); // same as if it were dynamic.
   }
 }
 
-- 
2.43.0


From 194ac74ed33202f04c180087490f531aa520a939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:20 +0000
Subject: [PATCH 82/96] fix: Vectray - allocator extended move constructor was
 not defined.

---
 code/include/swoc/Vectray.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/code/include/swoc/Vectray.h b/code/include/swoc/Vectray.h
index 00ec3a1..bccb447 100644
--- a/code/include/swoc/Vectray.h
+++ b/code/include/swoc/Vectray.h
@@ -271,6 +271,15 @@ template <typename T, size_t N, class A> Vectray<T, N, A>::Vectray(Vectray::size
   }
 }
 
+template <typename T, size_t N, class A>
+Vectray<T, N, A>::Vectray(self_type &&that, allocator_type const &a) : _store(std::in_place_type_t<FixedStore>{}, a) {
+  this->reserve(that.size());
+  for (auto &&item : that.items()) {
+    this->emplace_back(std::move(item));
+  }
+  that = self_type{};
+}
+
 template <typename T, size_t N, class A> template <size_t M> Vectray<T, N, A>::Vectray(Vectray<T, M, A> &&that) {
   // If @a that is already a vector, always move that here.
   if (DYNAMIC == that._store.index()) {
-- 
2.43.0


From 1d3c9b2b5e16c7243918b6b6ddca7c1f2d9aa611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:22 +0000
Subject: [PATCH 83/96] fix: Vectray - reference and pointer types were not
 those of the elements.

---
 code/include/swoc/Vectray.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/code/include/swoc/Vectray.h b/code/include/swoc/Vectray.h
index bccb447..ec1b0f3 100644
--- a/code/include/swoc/Vectray.h
+++ b/code/include/swoc/Vectray.h
@@ -41,10 +41,10 @@ template <typename T, size_t N, class A = std::allocator<T>> class Vectray {
 
 public:                                                              // STL compliance types.
   using value_type      = T;                                         ///< Element type for container.
-  using reference       = std::remove_reference<T> &;                ///< Reference to element.
-  using const_reference = std::remove_reference<T> const &;          ///< Reference to constant element.
-  using pointer         = std::remove_reference<T> *;                ///< Pointer to element.
-  using const_pointer   = std::remove_reference<T> const *;          ///< Pointer to constant element.
+  using reference       = std::remove_reference_t<T> &;              ///< Reference to element.
+  using const_reference = std::remove_reference_t<T> const &;        ///< Reference to constant element.
+  using pointer         = std::remove_reference_t<T> *;              ///< Pointer to element.
+  using const_pointer   = std::remove_reference_t<T> const *;        ///< Pointer to constant element.
   using allocator_type  = A;                                         ///< Dynamic storage allocator.
   using size_type       = typename vector_type::size_type;           ///< Type for element count.
   using difference_type = typename vector_type::difference_type;     ///< Iterator difference.
-- 
2.43.0


From dc85afca70ef82f02d7153212b0062ad53171fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:16 +0000
Subject: [PATCH 84/96] fix: path - the parent of a path without a separator is
 not that path.

---
 code/src/swoc_file.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/code/src/swoc_file.cc b/code/src/swoc_file.cc
index 374f4fc..99309a8 100644
--- a/code/src/swoc_file.cc
+++ b/code/src/swoc_file.cc
@@ -22,6 +22,9 @@ namespace file {
 path
 path::parent_path() const {
   TextView parent{_path};
+  if (parent.find(SEPARATOR) == TextView::npos) {
+    return {}; // only a file name.
+  }
   parent.split_suffix_at(SEPARATOR);
   return parent ? parent : "/"_tv;
 }
-- 
2.43.0


From 320771586a489f540fb1a57ec952a690c8f14ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:19 +0000
Subject: [PATCH 85/96] fix: path - appending a path to itself used the text
 after it was released.

---
 code/src/swoc_file.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/code/src/swoc_file.cc b/code/src/swoc_file.cc
index 99309a8..0d63f79 100644
--- a/code/src/swoc_file.cc
+++ b/code/src/swoc_file.cc
@@ -6,6 +6,7 @@
     Minimalist version of std::filesystem.
  */
 
+#include <functional>
 #include <variant>
 
 #include <fcntl.h>
@@ -46,6 +47,9 @@ path::filename() const -> self_type {
 path &
 path::operator/=(std::string_view that) {
   if (!that.empty()) { // don't waste time appending nothing.
+    if (!std::less<char const *>{}(that.data(), _path.data()) && std::less<char const *>{}(that.data(), _path.data() + _path.size())) {
+      return *this /= self_type{that}; // part of @a this - must not be changed while appending.
+    }
     if (that.front() == SEPARATOR || _path.empty()) {
       _path.assign(that);
     } else {
-- 
2.43.0


From e52c5485070eb5e7fcdb8c81d88f6e40e3d642e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:22 +0000
Subject: [PATCH 86/96] fix: file::load - a short read returned invented
 content without an error.

---
 code/src/swoc_file.cc | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/code/src/swoc_file.cc b/code/src/swoc_file.cc
index 0d63f79..e4f4ea8 100644
--- a/code/src/swoc_file.cc
+++ b/code/src/swoc_file.cc
@@ -468,12 +468,19 @@ load(const path &p, std::error_code &ec) {
     if (0 != ::fstat(fd, &info)) {
       ec = std::error_code(errno, std::system_category());
     } else {
-      auto n = info.st_size;
-      zret.resize(n);
-      auto read_len = ::read(fd, zret.data(), n);
-      if (read_len < n) {
-        ec = std::error_code(errno, std::system_category());
+      size_t n = 0;
+      zret.resize(info.st_size);
+      while (n < zret.size()) {
+        auto read_len = ::read(fd, zret.data() + n, zret.size() - n);
+        if (read_len <= 0) {
+          if (read_len < 0) {
+            ec = std::error_code(errno, std::system_category());
+          }
+          break;
+        }
+        n += read_len;
       }
+      zret.resize(n); // only what was actually read.
     }
   }
   return zret;
-- 
2.43.0


From 41be33f961d2f5020b6a91106fa9bf38511d32cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:25 +0000
Subject: [PATCH 87/96] fix: file::copy - read and write failures were reported
 as success, old content was retained.

---
 code/src/swoc_file.cc | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/code/src/swoc_file.cc b/code/src/swoc_file.cc
index e4f4ea8..e4b3337 100644
--- a/code/src/swoc_file.cc
+++ b/code/src/swoc_file.cc
@@ -364,15 +364,31 @@ copy(const path &from, const path &to, std::error_code &ec) {
     return false;
   }
 
+  off_t total = 0;
   while (true) {
-    if (auto n = read(src_fd, span.data(), span.size()); n > 0) {
-      if (::write(dst_fd, span.data(), n) < n) {
-        ec = std::error_code(errno, std::system_category());
-        break;
-      }
-    } else {
+    auto n = ::read(src_fd, span.data(), span.size());
+    if (n < 0) {
+      ec = std::error_code(errno, std::system_category());
+      return false;
+    } else if (n == 0) {
       break;
     }
+    for (ssize_t done = 0; done < n;) {
+      auto k = ::write(dst_fd, span.data() + done, n - done);
+      if (k <= 0) {
+        ec = std::error_code(k < 0 ? errno : EIO, std::system_category());
+        return false;
+      }
+      done += k;
+    }
+    total += n;
+  }
+
+  // Discard previous content past the copied content. Not done on open in case it is the source file.
+  struct ::stat dst_stat {};
+  if (0 == ::fstat(dst_fd, &dst_stat) && S_ISREG(dst_stat.st_mode) && 0 != ::ftruncate(dst_fd, total)) {
+    ec = std::error_code(errno, std::system_category());
+    return false;
   }
 
   return true;
-- 
2.43.0


From 6f2d4548457a73a0b85b046db99bf1c41045c4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:28 +0000
Subject: [PATCH 88/96] fix: file::remove, remove_all - links were followed out
 of the directory, errors were wrong.

---
 code/src/swoc_file.cc | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/code/src/swoc_file.cc b/code/src/swoc_file.cc
index e4b3337..a7a4342 100644
--- a/code/src/swoc_file.cc
+++ b/code/src/swoc_file.cc
@@ -402,14 +402,15 @@ remove_all(const path &p, std::error_code &ec) {
   std::error_code err;
   uintmax_t zret = 0;
 
+  ec.clear();
   struct ::stat s {};
   if (p.empty()) {
     ec = std::error_code(EINVAL, std::system_category());
     return zret;
-  } else if (::stat(p.c_str(), &s) < 0) {
+  } else if (::lstat(p.c_str(), &s) < 0) { // must not follow links, the targets are not in @a p.
     ec = std::error_code(errno, std::system_category());
     return zret;
-  } else if (S_ISREG(s.st_mode)) { // regular file, try to remove it!
+  } else if (S_ISREG(s.st_mode) || S_ISLNK(s.st_mode)) { // regular file or link, try to remove it!
     // coverity[toctou : SUPPRESS]
     if (unlink(p.c_str()) != 0) {
       ec = std::error_code(errno, std::system_category());
@@ -437,13 +438,19 @@ remove_all(const path &p, std::error_code &ec) {
     }
     child  = p;
     child /= entry->d_name;
-    zret  += remove_all(child, ec);
+    zret  += remove_all(child, err);
+    if (err && !ec) {
+      ec = err;
+    }
   }
 
   if (0 != rmdir(p.c_str())) {
-    ec = std::error_code(errno, std::system_category());
+    if (!ec) {
+      ec = std::error_code(errno, std::system_category());
+    }
+  } else {
+    ++zret;
   }
-  ++zret;
 
   closedir(dir);
   return zret;
@@ -453,11 +460,12 @@ bool
 remove(path const &p, std::error_code &ec) {
   // coverity TOCTOU - issue is doing stat before doing operation. Stupid complaint, ignore.
   struct ::stat fs {};
+  ec.clear();
   if (p.empty()) {
     ec = std::error_code(EINVAL, std::system_category());
-  } else if (::stat(p.c_str(), &fs) < 0) {
+  } else if (::lstat(p.c_str(), &fs) < 0) {
     ec = std::error_code(errno, std::system_category());
-  } else if (S_ISREG(fs.st_mode)) { // regular file, try to remove it!
+  } else if (S_ISREG(fs.st_mode) || S_ISLNK(fs.st_mode)) { // regular file or link, try to remove it!
     // coverity[toctou : SUPPRESS]
     if (unlink(p.c_str()) != 0) {
       ec = std::error_code(errno, std::system_category());
-- 
2.43.0


From 60378a80efe5711fbc2b7e8f2bfae784f1b26489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:43 +0000
Subject: [PATCH 89/96] fix: file status of a missing file was not initialized,
 canonical leaked and did not clear the error code.

---
 code/include/swoc/swoc_file.h | 2 +-
 code/src/swoc_file.cc         | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/code/include/swoc/swoc_file.h b/code/include/swoc/swoc_file.h
index 7e94239..098b290 100644
--- a/code/include/swoc/swoc_file.h
+++ b/code/include/swoc/swoc_file.h
@@ -210,7 +210,7 @@ public:
   mode_t mode() const;
 
 protected:
-  struct ::stat _stat; ///< File information.
+  struct ::stat _stat {}; ///< File information.
   file_type _type = file_type::none;
 
   void init();
diff --git a/code/src/swoc_file.cc b/code/src/swoc_file.cc
index a7a4342..031564c 100644
--- a/code/src/swoc_file.cc
+++ b/code/src/swoc_file.cc
@@ -256,6 +256,7 @@ current_path() {
 
 path
 canonical(const path &p, std::error_code &ec) {
+  ec.clear();
   if (p.empty()) {
     ec = std::error_code(EINVAL, std::system_category());
     return {};
@@ -267,8 +268,8 @@ canonical(const path &p, std::error_code &ec) {
     return path{rp};
   }
 
-  if (auto rp = ::realpath(p.c_str(), nullptr); rp) {
-    return path{rp};
+  if (swoc::unique_malloc<char> rp{::realpath(p.c_str(), nullptr)}; rp) {
+    return path{rp.get()};
   }
 
   ec = std::error_code(errno, std::system_category());
-- 
2.43.0


From 8e34ac9cdd51583abc147e1d0546f8a14fbc6ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:48 +0000
Subject: [PATCH 90/96] fix: file::current_path - constructed a path from a
 null pointer on failure.

---
 code/src/swoc_file.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/code/src/swoc_file.cc b/code/src/swoc_file.cc
index 031564c..9bd7cc3 100644
--- a/code/src/swoc_file.cc
+++ b/code/src/swoc_file.cc
@@ -247,8 +247,9 @@ current_path() {
     return path{buff};
 #if !__FreeBSD__ && !__APPLE__ // Freakin' Apple and FreeBSD.
   } else if (ERANGE == errno) {
-    swoc::unique_malloc<char> raw{::get_current_dir_name()};
-    return path{raw.get()};
+    if (swoc::unique_malloc<char> raw{::get_current_dir_name()}; raw) {
+      return path{raw.get()};
+    }
 #endif
   }
   return {};
-- 
2.43.0


From 962ad27c43ba0240538798241b9dd0deb861cd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:37 +0000
Subject: [PATCH 91/96] fix: FNV hash - sign extension of bytes above 127 gave
 values that are not FNV-1a.

---
 code/include/swoc/ext/HashFNV.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/include/swoc/ext/HashFNV.h b/code/include/swoc/ext/HashFNV.h
index b22d43f..63a22db 100644
--- a/code/include/swoc/ext/HashFNV.h
+++ b/code/include/swoc/ext/HashFNV.h
@@ -177,7 +177,7 @@ template <typename X, typename V>
 auto
 Hash32FNV1a::update(TransformView<X, V> view) -> self_type & {
   for (; view; ++view) {
-    hval ^= static_cast<value_type>(*view);
+    hval ^= static_cast<uint8_t>(*view); // must not sign extend.
     hval += (hval << 1) + (hval << 4) + (hval << 7) + (hval << 8) + (hval << 24);
   }
   return *this;
@@ -221,7 +221,7 @@ template <typename X, typename V>
 auto
 Hash64FNV1a::update(TransformView<X, V> view) -> self_type & {
   for (; view; ++view) {
-    hval ^= static_cast<value_type>(*view);
+    hval ^= static_cast<uint8_t>(*view); // must not sign extend.
     hval += (hval << 1) + (hval << 4) + (hval << 5) + (hval << 7) + (hval << 8) + (hval << 40);
   }
   return *this;
-- 
2.43.0


From 8627fe320a487f11f61d82a0e21b6079ea4e50e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:44 +0000
Subject: [PATCH 92/96] fix: Vectray - use the allocator passed with a count,
 keep it on move from a different size.

---
 code/include/swoc/Vectray.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/include/swoc/Vectray.h b/code/include/swoc/Vectray.h
index ec1b0f3..1807790 100644
--- a/code/include/swoc/Vectray.h
+++ b/code/include/swoc/Vectray.h
@@ -264,7 +264,7 @@ protected:
 
 template <typename T, size_t N, typename A> Vectray<T, N, A>::Vectray() {}
 
-template <typename T, size_t N, class A> Vectray<T, N, A>::Vectray(Vectray::size_type n, allocator_type const &alloc) : Vectray() {
+template <typename T, size_t N, class A> Vectray<T, N, A>::Vectray(Vectray::size_type n, allocator_type const &alloc) : Vectray(alloc) {
   this->reserve(n);
   while (n-- > 0) {
     this->emplace_back();
@@ -286,6 +286,7 @@ template <typename T, size_t N, class A> template <size_t M> Vectray<T, N, A>::V
     _store = std::move(std::get<DYNAMIC>(that._store));
   } else {
     auto &fs = std::get<FIXED>(that._store);
+    _store.template emplace<FIXED>(fs._a); // move the allocator too, as happens if it is dynamic.
     this->reserve(fs._count); // switch to dynamic storage now if needed.
     for (auto &&item : fs.span()) {
       this->emplace_back(std::move(item));
-- 
2.43.0


From 60c1481a8dee6f1ae7e87865d700a95a188fb1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:09 +0000
Subject: [PATCH 93/96] fix: IPRange - assignment from an invalid view left the
 previous range in place.

---
 code/include/swoc/IPRange.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/code/include/swoc/IPRange.h b/code/include/swoc/IPRange.h
index 6cc756f..b3a9835 100644
--- a/code/include/swoc/IPRange.h
+++ b/code/include/swoc/IPRange.h
@@ -1931,6 +1931,8 @@ IPRange::operator=(const IPRangeView &rv) -> self_type & {
     *this = *rv._raw._4;
   } else if (AF_INET6 == rv._family) {
     *this = *rv._raw._6;
+  } else {
+    this->clear();
   }
   return *this;
 }
-- 
2.43.0


From f35485ce43b1c9f6233c8d39217d467648bcc860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:15 +0000
Subject: [PATCH 94/96] fix: bwf Errno - wrong names for E2BIG and EL2HLT.

---
 code/src/bw_format.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/src/bw_format.cc b/code/src/bw_format.cc
index 2c93e15..db21b6a 100644
--- a/code/src/bw_format.cc
+++ b/code/src/bw_format.cc
@@ -800,7 +800,7 @@ static const std::array<std::string_view, 134> ERRNO_SHORT_NAME = {
    "SUCCESS", "EPERM",
    "ENOENT", "ESRCH",
    "EINTR", "EIO",
-   "ENXIO", "E2BIG ",
+   "ENXIO", "E2BIG",
    "ENOEXEC", "EBADF",
    "ECHILD", "EAGAIN",
    "ENOMEM", "EACCES",
@@ -822,7 +822,7 @@ static const std::array<std::string_view, 134> ERRNO_SHORT_NAME = {
    "ECHRNG", "EL2NSYNC",
    "EL3HLT", "EL3RST",
    "ELNRNG", "EUNATCH",
-   "ENOCSI", "EL2HTL",
+   "ENOCSI", "EL2HLT",
    "EBADE", "EBADR",
    "EXFULL", "ENOANO",
    "EBADRQC", "EBADSLT",
-- 
2.43.0


From 0b0c7f0b8d1ee459712a0475cfdb48c8f6fd391a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:25 +0000
Subject: [PATCH 95/96] fix: MemArena::localize_c read one byte past the end of
 the source span

---
 code/include/swoc/MemArena.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/include/swoc/MemArena.h b/code/include/swoc/MemArena.h
index 7115c17..0d4b7c3 100644
--- a/code/include/swoc/MemArena.h
+++ b/code/include/swoc/MemArena.h
@@ -684,7 +684,7 @@ inline MemSpan<char> MemArena::localize(char const * s) {
 
 inline MemSpan<char> MemArena::localize_c(MemSpan<char const> s) {
   auto span = this->alloc(s.size() + 1).rebind<char>();
-  memcpy(span.data(), s.data(), span.size());
+  memcpy(span.data(), s.data(), s.size());
   span[s.size()] = '\0';
   return { span.data(), span.size() };
 }
-- 
2.43.0


From 12730c8ec99fe18f743e681a7fdc4b3f0965160c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:35 +0000
Subject: [PATCH 96/96] fix: MemArena::localize_c included the terminating nul
 in the returned span

---
 code/include/swoc/MemArena.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/include/swoc/MemArena.h b/code/include/swoc/MemArena.h
index 0d4b7c3..ebd1b1c 100644
--- a/code/include/swoc/MemArena.h
+++ b/code/include/swoc/MemArena.h
@@ -686,7 +686,7 @@ inline MemSpan<char> MemArena::localize_c(MemSpan<char const> s) {
   auto span = this->alloc(s.size() + 1).rebind<char>();
   memcpy(span.data(), s.data(), s.size());
   span[s.size()] = '\0';
-  return { span.data(), span.size() };
+  return { span.data(), s.size() };
 }
 
 inline MemSpan<char> MemArena::localize_c(char const * s) {
-- 
2.43.0

