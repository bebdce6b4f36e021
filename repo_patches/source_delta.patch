From d6cbe9e1a1fb24390a12a3fa597689c245ab8473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:49 +0000
Subject: [PATCH 001/169] fix: PersistentUnionFind::root no longer rewrites
 nodes shared with other versions

---
 .../datastructure/union_find/persistent_union_find.hpp    | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/library/datastructure/union_find/persistent_union_find.hpp b/library/datastructure/union_find/persistent_union_find.hpp
index 6e6539d..79b7c8a 100644
--- a/library/datastructure/union_find/persistent_union_find.hpp
+++ b/library/datastructure/union_find/persistent_union_find.hpp
@@ -19,12 +19,8 @@ namespace suisen {
 
         // Get the root of `x`. equivalent to `operator[](x)`
         int root(int x) {
-            static std::vector<int> buf;
-            while (true) {
-                if (int r = _dat.get(x); r >= 0) buf.push_back(std::exchange(x, r));
-                else break;
-            }
-            while (buf.size()) _dat.mut_set(buf.back(), x), buf.pop_back();
+            // No path compression: the nodes are shared with the other versions.
+            for (int r; (r = _dat.get(x)) >= 0;) x = r;
             return x;
         }
         // Get the root of `x`. euivalent to `root(x)`
-- 
2.43.0


From a91d436d21e71383cf9f3d76f6a3565ca0e8e8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:49 +0000
Subject: [PATCH 002/169] fix: PersistentArray::dump returns each element, not
 the first one

---
 library/datastructure/persistent_array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/persistent_array.hpp b/library/datastructure/persistent_array.hpp
index 7be4f0f..3c7b31c 100644
--- a/library/datastructure/persistent_array.hpp
+++ b/library/datastructure/persistent_array.hpp
@@ -59,7 +59,7 @@ namespace suisen {
                 std::vector<value_type> res;
                 auto dfs = [&](auto dfs, node_pointer_type cur, int id, int p) -> void {
                     if (int(res.size()) <= id) res.resize(id + 1);
-                    res[id] = node->_val;
+                    res[id] = cur->_val;
                     int np = p << lg_ary, nid = id + p;
                     for (int d = 1; d < 1 << lg_ary; ++d, nid += p) {
                         if (cur->_ch[d]) dfs(dfs, cur->_ch[d], nid, np);
-- 
2.43.0


From d43d91eb5e7acff2e3a90043b2ed407dd9c88bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:23 +0000
Subject: [PATCH 003/169] fix: FenwickTreePrefix built from a vector aggregates
 every element

---
 library/datastructure/fenwick_tree/fenwick_tree_prefix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/fenwick_tree/fenwick_tree_prefix.hpp b/library/datastructure/fenwick_tree/fenwick_tree_prefix.hpp
index 934baf4..04ff3dc 100644
--- a/library/datastructure/fenwick_tree/fenwick_tree_prefix.hpp
+++ b/library/datastructure/fenwick_tree/fenwick_tree_prefix.hpp
@@ -9,7 +9,7 @@ namespace suisen {
         FenwickTreePrefix() : FenwickTreePrefix(0) {}
         explicit FenwickTreePrefix(int n) : _n(n), _dat(_n + 1, e()) {}
         FenwickTreePrefix(const std::vector<T> &dat) : _n(dat.size()), _dat(_n + 1, e()) {
-            for (int i = _n; i > 0; --i) {
+            for (int i = 1; i <= _n; ++i) {
                 _dat[i] = op(_dat[i], dat[i - 1]);
                 if (int p = i + (-i & i); p <= _n) _dat[p] = op(_dat[p], _dat[i]);
             }
-- 
2.43.0


From e64478fde699642bcc19f9daa697790611b0b79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:23 +0000
Subject: [PATCH 004/169] fix: PersistentFenwickTree constructor uses the given
 initial values and resets recycled nodes

---
 .../datastructure/fenwick_tree/persistent_fenwick_tree.hpp    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/datastructure/fenwick_tree/persistent_fenwick_tree.hpp b/library/datastructure/fenwick_tree/persistent_fenwick_tree.hpp
index e6335f7..b75ecb4 100644
--- a/library/datastructure/fenwick_tree/persistent_fenwick_tree.hpp
+++ b/library/datastructure/fenwick_tree/persistent_fenwick_tree.hpp
@@ -33,10 +33,10 @@ namespace suisen {
                 auto rec = [&](auto rec, int p, int id) -> node_pointer_type {
                     if (p == 0) return nullptr;
                     const int np = p >> 1;
-                    node_pointer_type res = _pool.alloc();
+                    node_pointer_type res = &(*_pool.alloc() = node_type());
                     res->_ch[0] = rec(rec, np, id - np);
                     if (id + 1 <= n) res->_ch[1] = rec(rec, np, id + np);
-                    if (id <= n) nodes[id] = res;
+                    if (id <= n) nodes[id] = res, res->_dat = dat[id - 1];
                     return res;
                 };
                 node_pointer_type res = rec(rec, p, p);
-- 
2.43.0


From 13fd5a9cbd13012499bb9a546f3ffd60d25b079a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:28:23 +0000
Subject: [PATCH 005/169] fix: fenwick_tree_set accepts any int as out-of-range
 query and an empty universe

---
 library/datastructure/fenwick_tree/fenwick_tree_set.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/library/datastructure/fenwick_tree/fenwick_tree_set.hpp b/library/datastructure/fenwick_tree/fenwick_tree_set.hpp
index 63dad3e..df3dfee 100644
--- a/library/datastructure/fenwick_tree/fenwick_tree_set.hpp
+++ b/library/datastructure/fenwick_tree/fenwick_tree_set.hpp
@@ -93,7 +93,7 @@ namespace suisen {
         }
         // O(log n).
         // Count elements <= `v`. `v` may be out of range.
-        int count_leq(int v) const { return count_lt(v + 1); }
+        int count_leq(int v) const { return v >= _n ? _siz : count_lt(v + 1); }
         // O(log n).
         // Count elements > `v`. `v` may be out of range.
         int count_gt(int v) const { return _siz - count_leq(v); }
@@ -127,7 +127,7 @@ namespace suisen {
         // O(log n).
         // Max element <= `v` or `-1` if not exists
         int max_leq(int v) const {
-            if (v < 0) return -1;
+            if (v < 0 or _n == 0) return -1;
             v = std::min(v, _n - 1);
             const auto [t, u] = index(v);
             const int lz = (WORD - 1) - u;
@@ -142,7 +142,7 @@ namespace suisen {
         }
         // O(log n).
         // Max element < `v` or `-1` if not exists
-        int max_lt(int v) const { return max_leq(v - 1); }
+        int max_lt(int v) const { return v <= 0 ? -1 : max_leq(v - 1); }
         // O(log n).
         // Min element >= `v` or `-1` if not exists
         int min_geq(int v) const {
@@ -160,7 +160,7 @@ namespace suisen {
         }
         // O(log n).
         // Min element > `v` or `-1` if not exists
-        int min_gt(int v) const { return min_geq(v + 1); }
+        int min_gt(int v) const { return v >= _n ? -1 : min_geq(v + 1); }
     private:
         struct IndexHolder {
             friend fenwick_tree_set;
-- 
2.43.0


From 8828e8396acbfc1a36b1840f0df7c9059c3d22ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:47 +0000
Subject: [PATCH 006/169] fix: SegmentTree::max_right and min_left start from
 e(), not the function e

---
 library/datastructure/segment_tree/segment_tree.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/library/datastructure/segment_tree/segment_tree.hpp b/library/datastructure/segment_tree/segment_tree.hpp
index d5568f9..2898f7a 100644
--- a/library/datastructure/segment_tree/segment_tree.hpp
+++ b/library/datastructure/segment_tree/segment_tree.hpp
@@ -50,10 +50,10 @@ class SegmentTree {
         template <typename Pred, constraints_t<std::is_invocable_r<bool, Pred, T>> = nullptr>
         int max_right(int l, const Pred &f) const {
             assert(0 <= l and l <= n);
-            assert(f(e));
+            assert(f(e()));
             if (l == n) return n;
             l += m;
-            T sum_l = e;
+            T sum_l = e();
             do {
                 while (l % 2 == 0) l >>= 1;
                 if (not f(op(sum_l, data[l]))) {
@@ -74,10 +74,10 @@ class SegmentTree {
         template <typename Pred, constraints_t<std::is_invocable_r<bool, Pred, T>> = nullptr>
         int min_left(int r, const Pred &f) const {
             assert(0 <= r && r <= n);
-            assert(f(e));
+            assert(f(e()));
             if (r == 0) return 0;
             r += m;
-            T sum_r = e;
+            T sum_r = e();
             do {
                 r--;
                 while (r > 1 && (r % 2)) r >>= 1;
-- 
2.43.0


From 5ea84f9c2ce1a5d7d863ca93c72956747cc0da02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:58 +0000
Subject: [PATCH 007/169] fix: SortableSegmentTree concat compiles, pop_*
 return the erased entry, moves transfer ownership

---
 .../segment_tree/sortable_segment_tree.hpp            | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/library/datastructure/segment_tree/sortable_segment_tree.hpp b/library/datastructure/segment_tree/sortable_segment_tree.hpp
index 6fd6590..8bd9e94 100644
--- a/library/datastructure/segment_tree/sortable_segment_tree.hpp
+++ b/library/datastructure/segment_tree/sortable_segment_tree.hpp
@@ -610,6 +610,11 @@ namespace suisen {
         SortableSegmentTree() : SortableSegmentTree(nullptr) {}
         SortableSegmentTree(const std::vector<std::pair<key_type, value_type>>& dat) : SortableSegmentTree(outer_node::build(dat)) {}
 
+        SortableSegmentTree(SortableSegmentTree&& other) : _root(std::exchange(other._root, nullptr)) {}
+        SortableSegmentTree& operator=(SortableSegmentTree&& other) {
+            std::swap(_root, other._root);
+            return *this;
+        }
         ~SortableSegmentTree() {
             outer_node::dealloc_all(_root);
         }
@@ -665,8 +670,8 @@ namespace suisen {
             outer_node::dealloc_node(tm);
             return res;
         }
-        std::pair<key_type, value_type> pop_front() { erase(0); }
-        std::pair<key_type, value_type> pop_back() { erase(size() - 1); }
+        std::pair<key_type, value_type> pop_front() { return erase(0); }
+        std::pair<key_type, value_type> pop_back() { return erase(size() - 1); }
 
         SortableSegmentTree split(size_type i) {
             assert(0 <= i and i <= size());
@@ -675,7 +680,7 @@ namespace suisen {
             return SortableSegmentTree{ root_r };
         }
         void concat(SortableSegmentTree tr) {
-            _root = outer_node::concat(_root, tr->_root);
+            _root = outer_node::concat(_root, std::exchange(tr._root, nullptr));
         }
 
         value_type prod(size_type l, size_type r) {
-- 
2.43.0


From d2f8fe10a2b3aab4bb761a65e328ec171669c3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:41 +0000
Subject: [PATCH 008/169] fix: SortableSegmentTree::max_right/min_left follow
 the order of descending runs

---
 .../segment_tree/sortable_segment_tree.hpp    | 25 ++++++++++---------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/library/datastructure/segment_tree/sortable_segment_tree.hpp b/library/datastructure/segment_tree/sortable_segment_tree.hpp
index 8bd9e94..63807e4 100644
--- a/library/datastructure/segment_tree/sortable_segment_tree.hpp
+++ b/library/datastructure/segment_tree/sortable_segment_tree.hpp
@@ -241,40 +241,41 @@ namespace suisen {
                 }
             }
 
+            static value_type directed_sum(inner_node_pointer t, bool rev) { return rev ? toggle(safe_sum(t)) : safe_sum(t); }
             template <typename Predicate, std::enable_if_t<std::is_invocable_r_v<bool, Predicate, value_type>, std::nullptr_t> = nullptr>
-            static std::pair<size_type, value_type> max_right(inner_node_pointer t, const Predicate& f, const value_type& init_sum = e()) {
+            static std::pair<size_type, value_type> max_right(inner_node_pointer t, bool rev, const Predicate& f, const value_type& init_sum = e()) {
                 size_type r = 0;
                 value_type s = init_sum;
                 while (t) {
-                    if (value_type nxt_s = op(s, safe_sum(child0(t))); f(nxt_s)) {
+                    if (value_type nxt_s = op(s, directed_sum(rev ? child1(t) : child0(t), rev)); f(nxt_s)) {
                         s = std::move(nxt_s);
-                        r += safe_size(child0(t));
+                        r += safe_size(rev ? child1(t) : child0(t));
                         if (nxt_s = op(s, value(t)); f(nxt_s)) {
                             s = std::move(nxt_s);
                             r += 1;
-                            t = child1(t);
+                            t = rev ? child0(t) : child1(t);
                         } else break;
                     } else {
-                        t = child0(t);
+                        t = rev ? child1(t) : child0(t);
                     }
                 }
                 return { r, s };
             }
             template <typename Predicate, std::enable_if_t<std::is_invocable_r_v<bool, Predicate, value_type>, std::nullptr_t> = nullptr>
-            static std::pair<size_type, value_type> min_left(inner_node_pointer t, const Predicate& f, const value_type& init_sum = e()) {
+            static std::pair<size_type, value_type> min_left(inner_node_pointer t, bool rev, const Predicate& f, const value_type& init_sum = e()) {
                 size_type l = safe_size(t);
                 value_type s = init_sum;
                 while (t) {
-                    if (value_type nxt_s = op(safe_sum(child1(t)), s); f(nxt_s)) {
+                    if (value_type nxt_s = op(directed_sum(rev ? child0(t) : child1(t), rev), s); f(nxt_s)) {
                         s = std::move(nxt_s);
-                        l -= safe_size(child1(t));
+                        l -= safe_size(rev ? child0(t) : child1(t));
                         if (nxt_s = op(value(t), s); f(nxt_s)) {
                             s = std::move(nxt_s);
                             l -= 1;
-                            t = child0(t);
+                            t = rev ? child1(t) : child0(t);
                         } else break;
                     } else {
-                        t = child1(t);
+                        t = rev ? child0(t) : child1(t);
                     }
                 }
                 return { l, s };
@@ -541,7 +542,7 @@ namespace suisen {
                             t = child1(t);
                         } else {
                             size_type r_inner;
-                            std::tie(r_inner, s) = inner_node::max_right(inner(t), f, s);
+                            std::tie(r_inner, s) = inner_node::max_right(inner(t), reversed(t), f, s);
                             r += r_inner;
                             break;
                         }
@@ -572,7 +573,7 @@ namespace suisen {
                             t = child0(t);
                         } else {
                             size_type l_inner;
-                            std::tie(l_inner, s) = inner_node::min_left(inner(t), f, s);
+                            std::tie(l_inner, s) = inner_node::min_left(inner(t), reversed(t), f, s);
                             l -= inner_size(t) - l_inner;
                             break;
                         }
-- 
2.43.0


From 63e5eb3a5dafafcbe2743f095756989cd3a67a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:21 +0000
Subject: [PATCH 009/169] fix: LazySegmentTree::suffix_prod stays in range and
 min_left propagates on the path it descends

---
 library/datastructure/segment_tree/lazy_segment_tree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/datastructure/segment_tree/lazy_segment_tree.hpp b/library/datastructure/segment_tree/lazy_segment_tree.hpp
index 0e0fab6..611fef0 100644
--- a/library/datastructure/segment_tree/lazy_segment_tree.hpp
+++ b/library/datastructure/segment_tree/lazy_segment_tree.hpp
@@ -44,7 +44,7 @@ namespace suisen {
 
         value_type prod(int l, int r) { return (*this)(l, r); }
         value_type prefix_prod(int r) { return (*this)(0, r); }
-        value_type suffix_prod(int l) { return (*this)(l, m); }
+        value_type suffix_prod(int l) { return (*this)(l, n); }
         value_type all_prod() const { return data[1]; }
 
         auto operator[](int p) {
@@ -86,7 +86,7 @@ namespace suisen {
             assert(g(e()));
             if (r == 0) return 0;
             r += m;
-            for (int i = lg; i >= 1; --i) push(r >> i);
+            for (int i = lg; i >= 1; --i) push((r - 1) >> i);
             value_type sum = e();
             do {
                 r--;
-- 
2.43.0


From ae8fbf5abe37a427c6c40ab6600373503904e0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:21 +0000
Subject: [PATCH 010/169] fix: CompressedSegmentTree::set recombines points
 that share coordinates (K >= 2)

---
 .../segment_tree/compressed_segment_tree.hpp        | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/library/datastructure/segment_tree/compressed_segment_tree.hpp b/library/datastructure/segment_tree/compressed_segment_tree.hpp
index 36b7ea5..07a07c8 100644
--- a/library/datastructure/segment_tree/compressed_segment_tree.hpp
+++ b/library/datastructure/segment_tree/compressed_segment_tree.hpp
@@ -18,6 +18,7 @@ namespace suisen {
                 return xs.size();
             }
             int operator()(const value_type& x) const { return std::lower_bound(xs.begin(), xs.end(), x) - xs.begin(); }
+            bool contains(const value_type& x) const { return std::binary_search(xs.begin(), xs.end(), x); }
         private:
             std::vector<value_type> xs;
         };
@@ -60,8 +61,14 @@ namespace suisen {
         value_type get(const point_type& p) const {
             return data[comp(p[0]) + n].get(tail(p));
         }
+        // returns e() if p is not registered
+        value_type get_or_identity(const point_type& p) const {
+            return comp.contains(p[0]) ? data[comp(p[0]) + n].get_or_identity(tail(p)) : e();
+        }
         void set(const point_type& p, const value_type& val) {
-            for (int i = comp(p[0]) + n; i; i >>= 1) data[i].set(tail(p), val);
+            int i = comp(p[0]) + n;
+            data[i].set(tail(p), val);
+            while (i >>= 1) data[i].set(tail(p), op(data[2 * i + 0].get_or_identity(tail(p)), data[2 * i + 1].get_or_identity(tail(p))));
         }
         void apply(const point_type& p, const value_type& val) {
             for (int i = comp(p[0]) + n; i; i >>= 1) data[i].apply(tail(p), val);
@@ -112,6 +119,10 @@ namespace suisen {
         value_type get(const point_type &i) const {
             return data[comp(i) + n];
         }
+        // returns e() if i is not registered
+        value_type get_or_identity(const point_type& i) const {
+            return comp.contains(i) ? get(i) : e();
+        }
 
         void set(const point_type& p, const value_type& val) {
             int i = comp(p) + n;
-- 
2.43.0


From 53292eb8fb94dff0ebb3644bc3a3aff2ef3808e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:28 +0000
Subject: [PATCH 011/169] fix: RangeSetRangeComposite(n, val) sizes its
 boundary set

---
 library/range_query/range_set_range_composite.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/library/range_query/range_set_range_composite.hpp b/library/range_query/range_set_range_composite.hpp
index 91f1193..da7b92c 100644
--- a/library/range_query/range_set_range_composite.hpp
+++ b/library/range_query/range_set_range_composite.hpp
@@ -9,10 +9,11 @@ namespace suisen {
     template <typename T, T(*op)(T, T), T(*e)()>
     struct RangeSetRangeComposite {
         RangeSetRangeComposite() : RangeSetRangeComposite(0) {}
-        explicit RangeSetRangeComposite(int n, T val = e()) : _n(n), _seg(std::vector(_n, e())), _vs(n, e()) {
+        explicit RangeSetRangeComposite(int n, T val = e()) : _n(n), _seg(std::vector(_n, e())), _vs(n, e()), _pos(_n + 1) {
+            _pos.insert(_n);
+            if (_n == 0) return;
             _pos.insert(0), _vs[0] = val;
             _seg.set(0, _pow(0, n));
-            _pos.insert(_n);
         }
         explicit RangeSetRangeComposite(const std::vector<T>& a) : _n(a.size()), _seg(a), _vs(a), _pos(_n + 1, true) {}
 
-- 
2.43.0


From fde7a30f089c31ef52f9a88303a5b04fee8fd13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:43 +0000
Subject: [PATCH 012/169] fix: persistent segment trees: function-pointer
 max_right/min_left and point apply compile

---
 .../segment_tree/persistent_lazy_segment_tree.hpp           | 6 +++---
 .../datastructure/segment_tree/persistent_segment_tree.hpp  | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp b/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp
index 4aea0a9..9b315ed 100644
--- a/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp
+++ b/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp
@@ -247,7 +247,7 @@ namespace suisen {
         template <typename Func>
         PersistentLazySegmentTree apply(int i, Func&& f) {
             assert(0 <= i and i < _n);
-            return PersistentLazySegmentTree(_n, node_type::apply(_root, _n, i, std::forward<F>(f)));
+            return PersistentLazySegmentTree(_n, node_type::apply(_root, _n, i, std::forward<Func>(f)));
         }
         PersistentLazySegmentTree set(int i, const value_type& v) {
             assert(0 <= i and i < _n);
@@ -260,7 +260,7 @@ namespace suisen {
             return node_type::max_right(_root, _n, l, std::forward<Pred>(pred));
         }
         template <bool(*pred)(value_type)>
-        static int max_right(int l) {
+        int max_right(int l) {
             return max_right(l, pred);
         }
         template <typename Pred>
@@ -269,7 +269,7 @@ namespace suisen {
             return node_type::min_left(_root, _n, r, std::forward<Pred>(pred));
         }
         template <bool(*pred)(value_type)>
-        static int min_left(int r) {
+        int min_left(int r) {
             return min_left(r, pred);
         }
 
diff --git a/library/datastructure/segment_tree/persistent_segment_tree.hpp b/library/datastructure/segment_tree/persistent_segment_tree.hpp
index b75814b..ec53449 100644
--- a/library/datastructure/segment_tree/persistent_segment_tree.hpp
+++ b/library/datastructure/segment_tree/persistent_segment_tree.hpp
@@ -210,7 +210,7 @@ namespace suisen {
             return node_type::max_right(_root, _n, l, std::forward<F>(f));
         }
         template <bool(*pred)(value_type)>
-        static int max_right(int l) {
+        int max_right(int l) {
             return max_right(l, pred);
         }
         template <typename F>
@@ -219,7 +219,7 @@ namespace suisen {
             return node_type::min_left(_root, _n, r, std::forward<F>(f));
         }
         template <bool(*pred)(value_type)>
-        static int min_left(int r) {
+        int min_left(int r) {
             return min_left(r, pred);
         }
 
-- 
2.43.0


From 20722458665c7ea5740674a589800bdfee0cd9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:43 +0000
Subject: [PATCH 013/169] fix: PersistentLazySegmentTree::dump outputs the
 elements only, with operators in the right order

---
 .../segment_tree/persistent_lazy_segment_tree.hpp             | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp b/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp
index 9b315ed..27444cb 100644
--- a/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp
+++ b/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp
@@ -194,8 +194,8 @@ namespace suisen {
                     if (is_leaf(cur)) {
                         *it++ = mapping(f, cur->_dat);
                     } else {
-                        *it++ = mapping(f, cur->_dat);
-                        rec(rec, cur->_ch[0], composition(cur->_laz, f)), rec(rec, cur->_ch[1], composition(cur->_laz, f));
+                        const operator_type g = composition(f, cur->_laz);
+                        rec(rec, cur->_ch[0], g), rec(rec, cur->_ch[1], g);
                     }
                 };
                 rec(rec, node, id());
-- 
2.43.0


From 1727104ad87b6e875edc51b1d4dbf3dcc00e8988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:55 +0000
Subject: [PATCH 014/169] fix: persistent segment trees: empty trees do not
 recurse forever and recycled pool nodes are reset

---
 .../segment_tree/persistent_commutative_dual_segment_tree.hpp | 4 ++--
 .../segment_tree/persistent_dual_segment_tree.hpp             | 4 ++--
 .../segment_tree/persistent_lazy_segment_tree.hpp             | 4 ++--
 .../datastructure/segment_tree/persistent_segment_tree.hpp    | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/library/datastructure/segment_tree/persistent_commutative_dual_segment_tree.hpp b/library/datastructure/segment_tree/persistent_commutative_dual_segment_tree.hpp
index a47e758..26762e6 100644
--- a/library/datastructure/segment_tree/persistent_commutative_dual_segment_tree.hpp
+++ b/library/datastructure/segment_tree/persistent_commutative_dual_segment_tree.hpp
@@ -29,7 +29,7 @@ namespace suisen {
 
             static node_pointer_type build(const int n) {
                 auto rec = [&](auto rec, int l, int r) -> node_pointer_type {
-                    node_pointer_type res = _pool.alloc();
+                    node_pointer_type res = &(*_pool.alloc() = node_type());
                     res->_laz = id();
                     if (r - l > 1) {
                         int m = (l + r) >> 1;
@@ -37,7 +37,7 @@ namespace suisen {
                     }
                     return res;
                 };
-                return rec(rec, 0, n);
+                return n == 0 ? nullptr : rec(rec, 0, n);
             }
 
             static node_pointer_type apply_all(node_pointer_type node, const operator_type& f) {
diff --git a/library/datastructure/segment_tree/persistent_dual_segment_tree.hpp b/library/datastructure/segment_tree/persistent_dual_segment_tree.hpp
index 7b0ffba..019fe91 100644
--- a/library/datastructure/segment_tree/persistent_dual_segment_tree.hpp
+++ b/library/datastructure/segment_tree/persistent_dual_segment_tree.hpp
@@ -49,7 +49,7 @@ namespace suisen {
 
             static node_pointer_type build(const int n) {
                 auto rec = [&](auto rec, int l, int r) -> node_pointer_type {
-                    node_pointer_type res = _pool.alloc();
+                    node_pointer_type res = &(*_pool.alloc() = node_type());
                     res->_laz = id();
                     if (r - l > 1) {
                         int m = (l + r) >> 1;
@@ -57,7 +57,7 @@ namespace suisen {
                     }
                     return res;
                 };
-                return rec(rec, 0, n);
+                return n == 0 ? nullptr : rec(rec, 0, n);
             }
 
             static node_pointer_type apply_all(node_pointer_type node, const operator_type& f) {
diff --git a/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp b/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp
index 27444cb..4e6487a 100644
--- a/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp
+++ b/library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp
@@ -52,7 +52,7 @@ namespace suisen {
 
             static node_pointer_type build(const std::vector<value_type>& dat) {
                 auto rec = [&](auto rec, int l, int r) -> node_pointer_type {
-                    node_pointer_type res = _pool.alloc();
+                    node_pointer_type res = &(*_pool.alloc() = node_type());
                     if (r - l == 1) {
                         res->_dat = dat[l];
                         res->_laz = id();
@@ -64,7 +64,7 @@ namespace suisen {
                     }
                     return res;
                 };
-                return rec(rec, 0, dat.size());
+                return dat.size() == 0 ? nullptr : rec(rec, 0, dat.size());
             }
 
             static value_type prod_all(node_pointer_type node) {
diff --git a/library/datastructure/segment_tree/persistent_segment_tree.hpp b/library/datastructure/segment_tree/persistent_segment_tree.hpp
index ec53449..6e7f073 100644
--- a/library/datastructure/segment_tree/persistent_segment_tree.hpp
+++ b/library/datastructure/segment_tree/persistent_segment_tree.hpp
@@ -37,7 +37,7 @@ namespace suisen {
 
             static node_pointer_type build(const std::vector<value_type>& dat) {
                 auto rec = [&](auto rec, int l, int r) -> node_pointer_type {
-                    node_pointer_type res = _pool.alloc();
+                    node_pointer_type res = &(*_pool.alloc() = node_type());
                     if (r - l == 1) {
                         res->_dat = dat[l];
                     } else {
@@ -47,7 +47,7 @@ namespace suisen {
                     }
                     return res;
                 };
-                return rec(rec, 0, dat.size());
+                return dat.size() == 0 ? nullptr : rec(rec, 0, dat.size());
             }
 
             static value_type prod_all(node_pointer_type node) {
-- 
2.43.0


From 45713a834974c5571240bdf7a9c09d7e7b857e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:55 +0000
Subject: [PATCH 015/169] fix: red-black tree set() compiles

---
 library/datastructure/bbst/red_black_tree_base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/bbst/red_black_tree_base.hpp b/library/datastructure/bbst/red_black_tree_base.hpp
index 3e51775..7178e2b 100644
--- a/library/datastructure/bbst/red_black_tree_base.hpp
+++ b/library/datastructure/bbst/red_black_tree_base.hpp
@@ -119,7 +119,7 @@ namespace suisen::bbst::internal {
             return merge(merge(tl, top), tr);
         }
         static tree_type set(tree_type node, size_type k, value_type val) {
-            return update_value(node, k, [&val]{ return val; });
+            return update_value(node, k, [&val](const value_type&) { return val; });
         }
         static std::pair<tree_type, value_type> get(tree_type node, size_type k) {
             auto [tl, top, tr] = split_range(node, k, k + 1);
-- 
2.43.0


From 3723b331394ae102c902bd03a671dc55bf91f66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:44 +0000
Subject: [PATCH 016/169] fix: persistent red-black trees no longer modify or
 free nodes shared with other versions

---
 .../bbst/persistent_red_black_tree_base.hpp   |  3 +++
 .../bbst/red_black_tree_base.hpp              | 19 +++++++++++++++----
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/library/datastructure/bbst/persistent_red_black_tree_base.hpp b/library/datastructure/bbst/persistent_red_black_tree_base.hpp
index 1687ca3..5b35617 100644
--- a/library/datastructure/bbst/persistent_red_black_tree_base.hpp
+++ b/library/datastructure/bbst/persistent_red_black_tree_base.hpp
@@ -49,6 +49,9 @@ namespace suisen::bbst::internal {
             if (not node) return node;
             return &(*base_type::create_leaf() = *node);
         }
+        static tree_type push(tree_type node) {
+            return clone(node);
+        }
     };
 }
 
diff --git a/library/datastructure/bbst/red_black_tree_base.hpp b/library/datastructure/bbst/red_black_tree_base.hpp
index 7178e2b..44a261a 100644
--- a/library/datastructure/bbst/red_black_tree_base.hpp
+++ b/library/datastructure/bbst/red_black_tree_base.hpp
@@ -45,7 +45,8 @@ namespace suisen::bbst::internal {
                 tree_type c = l->_ch[1] = merge<false>(l->_ch[1], r);
                 if (l->_col == BLACK and c->_col == RED and color(c->_ch[1]) == RED) {
                     std::swap(l->_col, c->_col);
-                    if (std::exchange(l->_ch[0]->_col, BLACK) == BLACK) return rotate(l, 1);
+                    if (color(l->_ch[0]) == BLACK) return rotate(l, 1);
+                    l->_ch[0] = blacken(l->_ch[0]);
                 }
                 res = node_type::update(l);
             } else if (hr > hl) {
@@ -53,7 +54,8 @@ namespace suisen::bbst::internal {
                 tree_type c = r->_ch[0] = merge<false>(l, r->_ch[0]);
                 if (r->_col == BLACK and c->_col == RED and color(c->_ch[0]) == RED) {
                     std::swap(r->_col, c->_col);
-                    if (std::exchange(r->_ch[1]->_col, BLACK) == BLACK) return rotate(r, 0);
+                    if (color(r->_ch[1]) == BLACK) return rotate(r, 0);
+                    r->_ch[1] = blacken(r->_ch[1]);
                 }
                 res = node_type::update(r);
             } else {
@@ -74,8 +76,7 @@ namespace suisen::bbst::internal {
 
             free_node(node);
 
-            if (color(l) == RED) l->_col = BLACK;
-            if (color(r) == RED) r->_col = BLACK;
+            l = blacken(l), r = blacken(r);
 
             size_type szl = size(l);
             tree_type m;
@@ -105,6 +106,7 @@ namespace suisen::bbst::internal {
 
         static std::pair<tree_type, value_type> erase(tree_type node, size_type k) {
             auto [tl, tm, tr] = split_range(node, k, k + 1);
+            tm = node_type::clone(tm);
             value_type erased_value = tm->_val;
             free_node(tm);
             return { merge(tl, tr) , erased_value };
@@ -115,6 +117,7 @@ namespace suisen::bbst::internal {
         template <typename Fun>
         static tree_type update_value(tree_type node, size_type k, Fun &&fun) {
             auto [tl, top, tr] = split_range(node, k, k + 1);
+            top = node_type::clone(top);
             top->_val = fun(top->_val);
             return merge(merge(tl, top), tr);
         }
@@ -226,6 +229,14 @@ namespace suisen::bbst::internal {
             return node;
         }
 
+        static tree_type blacken(tree_type node) {
+            if (color(node) == RED) {
+                node = node_type::clone(node);
+                node->_col = BLACK;
+            }
+            return node;
+        }
+
         static tree_type rotate(tree_type node, int index) {
             node = node_type::push(node);
             tree_type ch_node = node_type::push(node->_ch[index]);
-- 
2.43.0


From 4d47227f5e3593161c1ff61b7551f9b58d9072ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:47 +0000
Subject: [PATCH 017/169] fix: ReversibleNode
 erase_lower_bound/erase_upper_bound did not compile

---
 library/datastructure/bbst/reversible_implicit_treap_base.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/datastructure/bbst/reversible_implicit_treap_base.hpp b/library/datastructure/bbst/reversible_implicit_treap_base.hpp
index 55c323a..d99fb54 100644
--- a/library/datastructure/bbst/reversible_implicit_treap_base.hpp
+++ b/library/datastructure/bbst/reversible_implicit_treap_base.hpp
@@ -340,7 +340,7 @@ namespace suisen::internal::implicit_treap {
             return erase_binary_search(
                 t,
                 [&](const value_type& x) { return not comp(x, v); },
-                [] { return true; }
+                [](const value_type&) { return true; }
             );
         }
         template <typename Compare = std::less<>>
@@ -348,7 +348,7 @@ namespace suisen::internal::implicit_treap {
             return erase_binary_search(
                 t,
                 [&](const value_type& x) { return comp(v, x); },
-                [] { return true; }
+                [](const value_type&) { return true; }
             );
         }
         template <typename Compare = std::less<>>
-- 
2.43.0


From 6733b71f132fabffc16873e471ff9bb58e49294d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:33 +0000
Subject: [PATCH 018/169] fix: reversed treap nodes pushed the reversal without
 toggling the children's products

---
 library/datastructure/bbst/reversible_implicit_treap_base.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/datastructure/bbst/reversible_implicit_treap_base.hpp b/library/datastructure/bbst/reversible_implicit_treap_base.hpp
index d99fb54..0aeb461 100644
--- a/library/datastructure/bbst/reversible_implicit_treap_base.hpp
+++ b/library/datastructure/bbst/reversible_implicit_treap_base.hpp
@@ -74,8 +74,8 @@ namespace suisen::internal::implicit_treap {
         }
         static void push(node_pointer t) { // t : not null
             if (std::exchange(reversed(t), false)) {
-                reverse_all(child0(t));
-                reverse_all(child1(t));
+                node_type::reverse_all(child0(t));
+                node_type::reverse_all(child1(t));
             }
         }
 
-- 
2.43.0


From cd76552c60f2ba42be77fb1e1974d35a23f65290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:24 +0000
Subject: [PATCH 019/169] fix: ReversibleNode::erase_binary_search erased a
 later element when the first match fails the removal predicate

---
 .../bbst/reversible_implicit_treap_base.hpp   | 29 +++----------------
 1 file changed, 4 insertions(+), 25 deletions(-)

diff --git a/library/datastructure/bbst/reversible_implicit_treap_base.hpp b/library/datastructure/bbst/reversible_implicit_treap_base.hpp
index 0aeb461..a88e888 100644
--- a/library/datastructure/bbst/reversible_implicit_treap_base.hpp
+++ b/library/datastructure/bbst/reversible_implicit_treap_base.hpp
@@ -309,31 +309,10 @@ namespace suisen::internal::implicit_treap {
         // returns { node, optional(position, value) }
         template <typename Predicate, typename RemovePredicate>
         static std::pair<node_pointer, std::optional<std::pair<size_type, value_type>>> erase_binary_search(node_pointer t, const Predicate& f, const RemovePredicate& g) {
-            if (not t) return { empty_node(), std::nullopt };
-            node_type::push(t);
-            if (f(value(t))) {
-                auto [c0, erased] = erase_binary_search(child0(t), f, g);
-                if (erased) {
-                    set_child0(t, c0);
-                    return { node_type::update(t), std::move(erased) };
-                } else if (g(value(t))) {
-                    node_pointer::dealloc(t);
-                    std::pair<size_type, value_type> erased_entry{ safe_size(child0(t)), std::move(value(t)) };
-                    return { merge(child0(t), child1(t)), std::move(erased_entry) };
-                } else {
-                    return { t, std::nullopt };
-                }
-            } else {
-                auto [c1, erased] = erase_binary_search(child1(t), f, g);
-                if (erased) {
-                    set_child1(t, c1);
-                    size_type& pos = erased->first;
-                    pos += safe_size(child0(t)) + 1;
-                    return { node_type::update(t), std::move(erased) };
-                } else {
-                    return { t, std::nullopt };
-                }
-            }
+            auto [pos, found] = binary_search(t, [&](const value_type& x, int) { return f(x); });
+            if (not (found and g(*found))) return { t, std::nullopt };
+            auto [root, erased] = erase(t, pos);
+            return { root, std::pair<size_type, value_type>{ pos, std::move(erased) } };
         }
         template <typename Compare = std::less<>>
         static std::pair<node_pointer, std::optional<std::pair<size_type, value_type>>> erase_lower_bound(node_pointer t, const value_type& v, Compare comp) {
-- 
2.43.0


From 59cd45ec61e4b4b252672d4da004df11609e824f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:24 +0000
Subject: [PATCH 020/169] fix: misspelt iterator_category made reversible treap
 iterators unusable with standard algorithms

---
 library/datastructure/bbst/reversible_implicit_treap_base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/bbst/reversible_implicit_treap_base.hpp b/library/datastructure/bbst/reversible_implicit_treap_base.hpp
index a88e888..fe508a8 100644
--- a/library/datastructure/bbst/reversible_implicit_treap_base.hpp
+++ b/library/datastructure/bbst/reversible_implicit_treap_base.hpp
@@ -456,7 +456,7 @@ namespace suisen::internal::implicit_treap {
             using value_type = ReversibleNode::value_type;
             using pointer = std::conditional_t<constant, ReversibleNode::const_pointer, ReversibleNode::pointer>;
             using reference = std::conditional_t<constant, ReversibleNode::const_reference, ReversibleNode::reference>;
-            using iterator_cateogory = std::random_access_iterator_tag;
+            using iterator_category = std::random_access_iterator_tag;
 
             NodeIterator(): root(empty_node()), index(0) {}
 
-- 
2.43.0


From 7ee3db6599b848070a19a0088ce1efec8ae03548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:48 +0000
Subject: [PATCH 021/169] fix: erase_index of splay tree maps did not compile

---
 library/datastructure/splay_tree_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/splay_tree_map.hpp b/library/datastructure/splay_tree_map.hpp
index 821a5e5..a725acb 100644
--- a/library/datastructure/splay_tree_map.hpp
+++ b/library/datastructure/splay_tree_map.hpp
@@ -206,7 +206,7 @@ struct MapNodeBase {
         return new_node;
     }
     static node_ptr_t erase_index(node_ptr_t node, int index) {
-        auto [l, r] = split(index ? node : splay(node, 0), index);
+        auto [l, r] = split_by_index(index ? node : splay_by_index(node, 0), index);
         assert(r->ch[0] == nullptr);
         node_ptr_t res = merge(l, r->ch[1]);
         r->ch[1] = nullptr;
-- 
2.43.0


From 58f4d1119ba1ff4fa7769525045498fe931a86d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:48 +0000
Subject: [PATCH 022/169] fix: get_or_default of splay tree maps did not
 compile

---
 library/datastructure/splay_tree_map.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/library/datastructure/splay_tree_map.hpp b/library/datastructure/splay_tree_map.hpp
index a725acb..989cc65 100644
--- a/library/datastructure/splay_tree_map.hpp
+++ b/library/datastructure/splay_tree_map.hpp
@@ -222,10 +222,9 @@ struct MapNodeBase {
         delete r;
         return { res, true };
     }
-    static Val get_or_default(node_ptr_t node, const Key &key, const Val &default_value) {
+    static std::pair<node_ptr_t, Val> get_or_default(node_ptr_t node, const Key &key, const Val &default_value) {
         auto [new_root, found] = find_key(node, key);
-        node = new_root;
-        return found ? new_root->val : default_value;
+        return { new_root, found ? new_root->val : default_value };
     }
 };
 
-- 
2.43.0


From ed394748529272f4d01627486db67fed32f727c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:48 +0000
Subject: [PATCH 023/169] fix: operator()(l, r) of foldable maps did not
 compile

---
 library/datastructure/lazy_eval_map.hpp      | 2 +-
 library/datastructure/range_foldable_map.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/datastructure/lazy_eval_map.hpp b/library/datastructure/lazy_eval_map.hpp
index 8ea8850..2ac8d79 100644
--- a/library/datastructure/lazy_eval_map.hpp
+++ b/library/datastructure/lazy_eval_map.hpp
@@ -102,7 +102,7 @@ class LazyEvalMap {
             return UpdateProxyObject { root->val, [this]{ root->update(); } };
         }
         Val operator()(const Key &l, const Key &r) {
-            return prod(l, r);
+            return prod_by_key(l, r);
         }
         Val prod_by_key(const Key &l, const Key &r) {
             auto [new_root, res] = Node::prod_by_key(root, l, r);
diff --git a/library/datastructure/range_foldable_map.hpp b/library/datastructure/range_foldable_map.hpp
index af42871..00778cf 100644
--- a/library/datastructure/range_foldable_map.hpp
+++ b/library/datastructure/range_foldable_map.hpp
@@ -96,7 +96,7 @@ class RangeFoldableMap {
             return UpdateProxyObject { root->val, [this]{ root->update(); } };
         }
         Val operator()(const Key &l, const Key &r) {
-            return prod(l, r);
+            return prod_by_key(l, r);
         }
         Val prod_by_key(const Key &l, const Key &r) {
             auto [new_root, res] = Node::prod_by_key(root, l, r);
-- 
2.43.0


From c0978ef758853fc20f4951efd2caed6d2c9409f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:49 +0000
Subject: [PATCH 024/169] fix: merging two empty splay tree maps aborted

---
 library/datastructure/lazy_eval_map.hpp  | 2 +-
 library/datastructure/splay_tree_map.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/datastructure/lazy_eval_map.hpp b/library/datastructure/lazy_eval_map.hpp
index 2ac8d79..bd98296 100644
--- a/library/datastructure/lazy_eval_map.hpp
+++ b/library/datastructure/lazy_eval_map.hpp
@@ -149,7 +149,7 @@ class LazyEvalMap {
             return LazyEvalMap(r);
         }
         void merge(LazyEvalMap &&r) {
-            assert(root != r.root);
+            assert(root == nullptr or root != r.root);
             root = Node::merge(root, r.root);
             r.root = nullptr;
         }
diff --git a/library/datastructure/splay_tree_map.hpp b/library/datastructure/splay_tree_map.hpp
index 989cc65..50762ce 100644
--- a/library/datastructure/splay_tree_map.hpp
+++ b/library/datastructure/splay_tree_map.hpp
@@ -308,7 +308,7 @@ class SplayTreeMap {
             return SplayTreeMap<Key, Val>(r);
         }
         void merge(SplayTreeMap &&r) {
-            assert(root != r.root);
+            assert(root == nullptr or root != r.root);
             root = Node::merge(root, r.root);
             r.root = nullptr;
         }
-- 
2.43.0


From e545024c0807e49332c50421df37789764cc02f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:49 +0000
Subject: [PATCH 025/169] fix: DynamicSequence::reverse_all did not compile

---
 library/datastructure/dynamic_sequence.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/dynamic_sequence.hpp b/library/datastructure/dynamic_sequence.hpp
index 302fad6..8a71d3b 100644
--- a/library/datastructure/dynamic_sequence.hpp
+++ b/library/datastructure/dynamic_sequence.hpp
@@ -209,7 +209,7 @@ struct DynamicSequenceBase {
             root = SplayNode::reverse(root, l, r);
         }
         void reverse_all() {
-            SplayNode::reverese_all(root);
+            SplayNode::reverse_all(root);
         }
     protected:
         mutable node_ptr_t root;
-- 
2.43.0


From 735c384a1be97bdbf009a5f95a8b50277584d0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:00 +0000
Subject: [PATCH 026/169] fix: Min/MaxPriorityQueue referred to a template that
 no longer exists and could not be used

---
 library/datastructure/priority_queue.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/datastructure/priority_queue.hpp b/library/datastructure/priority_queue.hpp
index 2a5d2c5..758c1a5 100644
--- a/library/datastructure/priority_queue.hpp
+++ b/library/datastructure/priority_queue.hpp
@@ -5,9 +5,9 @@
 
 namespace suisen {
     template <typename T, typename Comp = std::less<T>>
-    using MinPriorityQueue = suisen::BinaryHeap<T, Comp>;
+    using MinPriorityQueue = suisen::MinBinaryHeap<T, Comp>;
     template <typename T>
-    using MaxPriorityQueue = suisen::BinaryHeap<T, std::greater<T>>;
+    using MaxPriorityQueue = suisen::MaxBinaryHeap<T>;
 } // namespace suisen
 
 
-- 
2.43.0


From 5474a982374daf34f8d4d2c999407804ed66b366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:00 +0000
Subject: [PATCH 027/169] fix: QueueAggregation iterators did not compile when
 the element and the sum types differ

---
 library/datastructure/queue_aggregation.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/datastructure/queue_aggregation.hpp b/library/datastructure/queue_aggregation.hpp
index c3988fe..14c9bfe 100644
--- a/library/datastructure/queue_aggregation.hpp
+++ b/library/datastructure/queue_aggregation.hpp
@@ -24,8 +24,8 @@ namespace suisen {
             using iterator_category = std::random_access_iterator_tag;
 
         private:
-            using fi_iterator_type = typename std::vector<std::pair<value_type, value_type>>::const_reverse_iterator;
-            using se_iterator_type = typename std::vector<std::pair<value_type, value_type>>::const_iterator;
+            using fi_iterator_type = typename std::vector<std::pair<value_type, sum_type>>::const_reverse_iterator;
+            using se_iterator_type = typename std::vector<std::pair<value_type, sum_type>>::const_iterator;
         public:
 
             fi_iterator_type it_l;
-- 
2.43.0


From 0f305c7c521342a86cfd003495a2024628f7236b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:17 +0000
Subject: [PATCH 028/169] fix: BinaryHeap::pop touched element 0 of an empty
 vector when removing the last element

---
 library/datastructure/heap/binary_heap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/heap/binary_heap.hpp b/library/datastructure/heap/binary_heap.hpp
index 26d84b3..af561be 100644
--- a/library/datastructure/heap/binary_heap.hpp
+++ b/library/datastructure/heap/binary_heap.hpp
@@ -66,7 +66,7 @@ namespace suisen {
                 std::swap(_dat.front(), _dat.back());
                 value_type res = std::move(_dat.back());
                 _dat.pop_back();
-                heapify_down(0);
+                if (_dat.size()) heapify_down(0);
                 return res;
             }
 
-- 
2.43.0


From 0e173b1bf620216e0f9e9665c8a26aa561b54703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:36 +0000
Subject: [PATCH 029/169] fix: a copied or moved DoubleEndedPriorityQueue kept
 using the comparator object of its source

---
 .../datastructure/double_ended_priority_queue.hpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/library/datastructure/double_ended_priority_queue.hpp b/library/datastructure/double_ended_priority_queue.hpp
index 797e321..1e1d2b3 100644
--- a/library/datastructure/double_ended_priority_queue.hpp
+++ b/library/datastructure/double_ended_priority_queue.hpp
@@ -39,7 +39,7 @@ namespace suisen {
                 std::push_heap(_max_heap.begin(), _max_heap.end(), _comp);
             } else {
                 _min_heap.push_back(v);
-                std::push_heap(_min_heap.begin(), _min_heap.end(), _rev_comp);
+                std::push_heap(_min_heap.begin(), _min_heap.end(), rev_comp());
             }
         }
         template <typename ...Args>
@@ -64,7 +64,7 @@ namespace suisen {
         }
         value_type pop_min() {
             ensure_min_heap_nonempty();
-            std::pop_heap(_min_heap.begin(), _min_heap.end(), _rev_comp);
+            std::pop_heap(_min_heap.begin(), _min_heap.end(), rev_comp());
             value_type res = std::move(_min_heap.back());
             _min_heap.pop_back();
             return res;
@@ -82,10 +82,9 @@ namespace suisen {
 
     private:
         compare_type _comp;
-        struct {
-            compare_type* comp;
-            bool operator()(const value_type& x, const value_type& y) { return (*comp)(y, x); }
-        } _rev_comp{ &_comp };
+        auto rev_comp() {
+            return [this](const value_type& x, const value_type& y) { return _comp(y, x); };
+        }
 
         std::vector<value_type> _max_heap, _min_heap;
         value_type pivot;
@@ -105,7 +104,7 @@ namespace suisen {
                 std::move(_max_heap.begin(), _max_heap.begin() + mid, std::back_inserter(_min_heap));
                 _max_heap.erase(_max_heap.begin(), _max_heap.begin() + mid);
                 std::make_heap(_max_heap.begin(), _max_heap.end(), _comp);
-                std::make_heap(_min_heap.begin(), _min_heap.end(), _rev_comp);
+                std::make_heap(_min_heap.begin(), _min_heap.end(), rev_comp());
             }
         }
         void ensure_max_heap_nonempty() {
@@ -122,7 +121,7 @@ namespace suisen {
                 std::move(_min_heap.begin() + mid, _min_heap.end(), std::back_inserter(_max_heap));
                 _min_heap.erase(_min_heap.begin() + mid, _min_heap.end());
                 std::make_heap(_max_heap.begin(), _max_heap.end(), _comp);
-                std::make_heap(_min_heap.begin(), _min_heap.end(), _rev_comp);
+                std::make_heap(_min_heap.begin(), _min_heap.end(), rev_comp());
             }
         }
     };
-- 
2.43.0


From a06e50db84c21b305691513a51a6e0ce4bcb4a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:51 +0000
Subject: [PATCH 030/169] fix: PrioritySum::erase looked for the erased value
 on the wrong side, corrupting the sum

---
 library/datastructure/util/priority_sum.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/util/priority_sum.hpp b/library/datastructure/util/priority_sum.hpp
index e21d5be..465dfb4 100644
--- a/library/datastructure/util/priority_sum.hpp
+++ b/library/datastructure/util/priority_sum.hpp
@@ -29,7 +29,7 @@ namespace suisen {
                 if (_head_k.size() and v == _head_k.top()) {
                     _sum -= v;
                     _head_k.pop();
-                } else if (_head_k.size() and _rev_cmp(v, _head_k.top())) {
+                } else if (_head_k.size() and _cmp(v, _head_k.top())) {
                     _sum -= v;
                     _del_head_k.push(v);
                 } else {
-- 
2.43.0


From 0f54c7348eed464240ddf0abc824654d15b456d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:17 +0000
Subject: [PATCH 031/169] fix: static_bitset::operator[] was not const, so
 printing a bitset did not compile

---
 library/datastructure/util/static_bitset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/util/static_bitset.hpp b/library/datastructure/util/static_bitset.hpp
index bff3624..5ff165b 100644
--- a/library/datastructure/util/static_bitset.hpp
+++ b/library/datastructure/util/static_bitset.hpp
@@ -111,7 +111,7 @@ namespace suisen {
         bool operator>=(const static_bitset<N>& rhs) const {
             return not (*this < rhs);
         }
-        bool operator[](std::size_t i) {
+        bool operator[](std::size_t i) const {
             return (_data[outer_index(i)] >> inner_index(i)) & 1;
         }
         operator bool() const {
-- 
2.43.0


From 10f9b03e6ee1c5ccd8f37ebf235d115ebdc10b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:17 +0000
Subject: [PATCH 032/169] fix: RangeSet::in_the_same_range called a function
 that does not exist

---
 library/datastructure/util/range_set.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/util/range_set.hpp b/library/datastructure/util/range_set.hpp
index 11c2c83..2eb3e7c 100644
--- a/library/datastructure/util/range_set.hpp
+++ b/library/datastructure/util/range_set.hpp
@@ -35,7 +35,7 @@ struct RangeSet : public std::map<T, T> {
 
         // returns whether `x` and `y` is in this set and in the same range. O(log N)
         bool in_the_same_range(T x, T y) const {
-            auto it = get_containing_range(x);
+            auto it = find_range(x);
             return it != this->end() and it->first <= y and y <= it->second;
         }
 
-- 
2.43.0


From 20aa99c5a2868fac37c87ea5ad76095a8553f03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:17 +0000
Subject: [PATCH 033/169] fix: WaveletMatrix shifted by the full width of the
 value type for full-width bit lengths (the default)

---
 library/datastructure/wavelet_matrix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/datastructure/wavelet_matrix.hpp b/library/datastructure/wavelet_matrix.hpp
index bdf7070..d4b94da 100644
--- a/library/datastructure/wavelet_matrix.hpp
+++ b/library/datastructure/wavelet_matrix.hpp
@@ -156,7 +156,7 @@ namespace suisen {
         WaveletMatrix(int n) noexcept : n(n) {}
     private:
         static_assert(bit_num > 0);
-        static constexpr T MAX = bit_num == std::numeric_limits<T>::digits ? std::numeric_limits<T>::max() : (T(1) << bit_num) - 1;
+        static constexpr T MAX = bit_num >= std::numeric_limits<T>::digits ? std::numeric_limits<T>::max() : (T(1) << bit_num) - 1;
 
         int n;
         std::array<BitVector, bit_num> bv;
@@ -168,7 +168,7 @@ namespace suisen {
         }
 
         static void check_value_bounds(T val) {
-            assert((val >> bit_num) == 0);
+            if constexpr (bit_num < std::numeric_limits<std::make_unsigned_t<T>>::digits) assert((val >> bit_num) == 0);
         }
     };
 } // namespace suisen
-- 
2.43.0


From 4cbd51432bcb62e2e496c8996390da227995c5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:17 +0000
Subject: [PATCH 034/169] fix: the default bit length of
 CompressedWaveletMatrix exceeded the width of the compressed (int) values

---
 library/datastructure/compressed_wavelet_matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/compressed_wavelet_matrix.hpp b/library/datastructure/compressed_wavelet_matrix.hpp
index 9e4b810..8b79e43 100644
--- a/library/datastructure/compressed_wavelet_matrix.hpp
+++ b/library/datastructure/compressed_wavelet_matrix.hpp
@@ -10,7 +10,7 @@
 #include "library/util/coordinate_compressor.hpp"
 
 namespace suisen {
-    template <typename T, int log_max_len = std::numeric_limits<std::make_unsigned_t<T>>::digits>
+    template <typename T, int log_max_len = std::numeric_limits<int>::digits>
     struct CompressedWaveletMatrix : private WaveletMatrix<int, log_max_len> {
         // default constructor
         CompressedWaveletMatrix() noexcept : WaveletMatrix<int, log_max_len>(0) {}
-- 
2.43.0


From 64ae94f89d681b16851eba4ebfd537d125aecd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:35 +0000
Subject: [PATCH 035/169] fix: DynamicBitSet bit reference: operator&= cleared
 the other bits of the block

---
 library/datastructure/util/dynamic_bitset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/util/dynamic_bitset.hpp b/library/datastructure/util/dynamic_bitset.hpp
index d64b0fd..9b40433 100644
--- a/library/datastructure/util/dynamic_bitset.hpp
+++ b/library/datastructure/util/dynamic_bitset.hpp
@@ -21,7 +21,7 @@ namespace suisen {
             void set() { b |= block(1) << i; }
             void reset() { b &= ~(block(1) << i); }
             void flip() { b ^= block(1) << i; }
-            bitref& operator&=(bool val) { b &= block(val) << i; return *this; }
+            bitref& operator&=(bool val) { if (not val) reset(); return *this; }
             bitref& operator|=(bool val) { b |= block(val) << i; return *this; }
             bitref& operator^=(bool val) { b ^= block(val) << i; return *this; }
             bitref& operator =(bool val) { val ? set() : reset(); return *this; }
-- 
2.43.0


From 681b2bb97a55a860025136a15df4b0b953d5d91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:35 +0000
Subject: [PATCH 036/169] fix: DynamicBitSet::all shifted by the block width
 when the size is a multiple of 64

---
 library/datastructure/util/dynamic_bitset.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/library/datastructure/util/dynamic_bitset.hpp b/library/datastructure/util/dynamic_bitset.hpp
index 9b40433..f5427b3 100644
--- a/library/datastructure/util/dynamic_bitset.hpp
+++ b/library/datastructure/util/dynamic_bitset.hpp
@@ -253,8 +253,7 @@ namespace suisen {
             }
             const std::size_t num = n - ((block_num() - 1) << log_block_size);
             assert(num);
-            const block upper = ((block(1) << (block_size - num)) - 1) << num;
-            return (upper | blocks.back()) == ~block(0);
+            return get_lower_bits(~blocks.back(), num) == 0;
         }
         bool none() const {
             if (empty()) return true;
-- 
2.43.0


From ec166aa25fca5e9b499fe1af7f43a5e204434b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:35 +0000
Subject: [PATCH 037/169] fix: CompressedWaveletMatrix::range_max_leq returned
 the default value for every non-empty range

---
 library/datastructure/compressed_wavelet_matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/compressed_wavelet_matrix.hpp b/library/datastructure/compressed_wavelet_matrix.hpp
index 8b79e43..f489ab7 100644
--- a/library/datastructure/compressed_wavelet_matrix.hpp
+++ b/library/datastructure/compressed_wavelet_matrix.hpp
@@ -80,7 +80,7 @@ namespace suisen {
         }
         // returns the maximum value v in WaveletMatrix[l, r) s.t. v <= upper
         inline T range_max_leq(int l, int r, T upper, T default_value = T(-1)) const {
-            if (r >= l) return default_value;
+            if (l >= r) return default_value;
             return upper == std::numeric_limits<T>::max() ? range_max(l, r) : range_max_lt(l, r, upper + 1, default_value);
         }
     private:
-- 
2.43.0


From 428bba17eb6b235c8d7dff470f026665fc121408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:35 +0000
Subject: [PATCH 038/169] fix: BinaryTrie::max returned the complement of the
 maximum

---
 library/datastructure/binary_trie.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/binary_trie.hpp b/library/datastructure/binary_trie.hpp
index b1e2f30..a9063f0 100644
--- a/library/datastructure/binary_trie.hpp
+++ b/library/datastructure/binary_trie.hpp
@@ -130,7 +130,7 @@ class BinaryTrie {
 
         inline U kth_min(const int k) const { return xor_kth_min(0, k); }
         inline U min() const { return xor_kth_min(0, 0); }
-        inline U max() const { return xor_kth_min(~U(0), 0); }
+        inline U max() const { return xor_kth_max(0, 0); }
         inline int count_lt (const U val) const noexcept { return xor_count_lt(0, val);  }
         inline int count_leq(const U val) const noexcept { return xor_count_leq(0, val); }
         inline int count_gt (const U val) const noexcept { return xor_count_gt(0, val);  }
-- 
2.43.0


From 81a0ef98fecdbbe48e70ea460584516379a762ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:35 +0000
Subject: [PATCH 039/169] fix: BinaryTrie::xor_count_leq (and xor_count_gt,
 xor_floor, xor_higher) counted the wrong element for x != 0

---
 library/datastructure/binary_trie.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/binary_trie.hpp b/library/datastructure/binary_trie.hpp
index a9063f0..4dce48e 100644
--- a/library/datastructure/binary_trie.hpp
+++ b/library/datastructure/binary_trie.hpp
@@ -108,7 +108,7 @@ class BinaryTrie {
             }
             return res;
         }
-        inline int xor_count_leq(const U x, const U val) const noexcept { return xor_count_lt(x, val) + count(val); }
+        inline int xor_count_leq(const U x, const U val) const noexcept { return xor_count_lt(x, val) + count(x ^ val); }
         inline int xor_count_gt (const U x, const U val) const noexcept { return size() - xor_count_leq(x, val);    }
         inline int xor_count_geq(const U x, const U val) const noexcept { return size() - xor_count_lt(x, val);     }
         inline U xor_lower(const U x, const U val, const U default_value = ~U(0)) const noexcept {
-- 
2.43.0


From 74edc45ea1ec53d416c191acddb557c1f0e0b618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:35 +0000
Subject: [PATCH 040/169] fix: BinaryTrie::to_string shifted an int by more
 than its width for 64-bit keys

---
 library/datastructure/binary_trie.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/datastructure/binary_trie.hpp b/library/datastructure/binary_trie.hpp
index 4dce48e..88f8a28 100644
--- a/library/datastructure/binary_trie.hpp
+++ b/library/datastructure/binary_trie.hpp
@@ -41,11 +41,11 @@ class BinaryTrie {
             auto pref1 = pref0 + std::string(zo[0].size(), ' ');
             if (is_absent(0) or is_absent(1)) {
                 bool b = is_absent(0);
-                return res + zo[b] + ch[b]->to_string(k - 1, val | (b << k), pref1);
+                return res + zo[b] + ch[b]->to_string(k - 1, val | (U(b) << k), pref1);
             }
             res += zo[0] + ch[0]->to_string(k - 1, val, prefb);
             res += pref0 + "|\n";
-            res += pref0 + zo[1] + ch[1]->to_string(k - 1, val | (1 << k), pref1);
+            res += pref0 + zo[1] + ch[1]->to_string(k - 1, val | (U(1) << k), pref1);
             return res;
         }
     };
-- 
2.43.0


From 5598e667870de37e426f16e08336d721d05a250b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:35 +0000
Subject: [PATCH 041/169] fix: BinaryTriePatricia::xor_max returned the
 complement of the maximum

---
 library/datastructure/binary_trie_patricia.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/binary_trie_patricia.hpp b/library/datastructure/binary_trie_patricia.hpp
index 9852540..0e6de45 100644
--- a/library/datastructure/binary_trie_patricia.hpp
+++ b/library/datastructure/binary_trie_patricia.hpp
@@ -104,7 +104,7 @@ namespace suisen {
         }
         // max{ x ^ v | v in S }
         value_type xor_max(const unsigned_value_type& x) const {
-            return xor_min(~x);
+            return xor_kth_max(x, 0);
         }
 
         // k-th smallest of { x ^ v | v in S } (0-indexed)
-- 
2.43.0


From 999f6f0dec733c020ef6d393b611df0201c4eb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:35 +0000
Subject: [PATCH 042/169] fix: static_bitset kept bits beyond its size after ~
 and <<, which later comparisons, conversions to bool and >> saw

---
 library/datastructure/util/static_bitset.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/library/datastructure/util/static_bitset.hpp b/library/datastructure/util/static_bitset.hpp
index 5ff165b..bf4bb09 100644
--- a/library/datastructure/util/static_bitset.hpp
+++ b/library/datastructure/util/static_bitset.hpp
@@ -12,7 +12,7 @@ namespace suisen {
         static constexpr std::size_t L = (N + 63) >> 6;
     public:
         static_bitset() = default;
-        static_bitset(std::array<uint64_t, L> data) : _data(data) {}
+        static_bitset(std::array<uint64_t, L> data) : _data(data) { trim(); }
 
         static_bitset<N>& operator&=(const static_bitset<N>& rhs) {
             for (std::size_t i = 0; i < L; ++i) _data[i] &= rhs._data[i];
@@ -38,6 +38,7 @@ namespace suisen {
         static_bitset<N> operator~() const {
             static_bitset<N> res;
             for (std::size_t i = 0; i < L; ++i) res._data[i] = ~_data[i];
+            res.trim();
             return res;
         }
         static_bitset<N>& operator<<=(const std::size_t shamt) {
@@ -59,6 +60,7 @@ namespace suisen {
                 }
             }
             for (std::size_t i = large_shamt; i-- > 0;) _data[i] = 0;
+            trim();
             return *this;
         }
         static_bitset<N>& operator>>=(const std::size_t shamt) {
@@ -165,6 +167,11 @@ namespace suisen {
     private:
         std::array<uint64_t, L> _data{};
 
+        // clears the unused bits of the last block
+        void trim() {
+            if constexpr (N & 63) _data[L - 1] &= (uint64_t(1) << (N & 63)) - 1;
+        }
+
         static constexpr std::size_t outer_index(std::size_t k) {
             return k >> 6;
         }
-- 
2.43.0


From f5d9a0fac3fa22c3e361ea544ac5b91a849feff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:55 +0000
Subject: [PATCH 043/169] fix: BinaryTriePatricia shifted by the full width of
 the key type when bit_num equals that width

---
 .../datastructure/binary_trie_patricia.hpp    | 23 +++++++++++--------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/library/datastructure/binary_trie_patricia.hpp b/library/datastructure/binary_trie_patricia.hpp
index 0e6de45..b137f1c 100644
--- a/library/datastructure/binary_trie_patricia.hpp
+++ b/library/datastructure/binary_trie_patricia.hpp
@@ -90,7 +90,7 @@ namespace suisen {
                 const uint32_t ch_idx = val & (ary - 1);
                 node_pointer_type nxt = cur->ch[ch_idx];
                 if (not nxt or cut_lower(val ^ nxt->val, nxt->len)) return 0;
-                val >>= nxt->len;
+                val = shift_right(val, nxt->len);
                 l += nxt->len;
                 cur = nxt;
             }
@@ -123,7 +123,7 @@ namespace suisen {
                     }
                 }
                 res |= nxt->val << l;
-                x >>= nxt->len;
+                x = shift_right(x, nxt->len);
                 l += nxt->len;
                 cur = nxt;
             }
@@ -138,7 +138,7 @@ namespace suisen {
         // #{ v in S | x ^ v < upper }
         __attribute__((target("bmi")))
         size_type xor_count_lt (unsigned_value_type x, unsigned_value_type upper) const {
-            if (upper >> bit_num) return _root->siz;
+            if (shift_right(upper, bit_num)) return _root->siz;
             bit_reverse(x);
             bit_reverse(upper);
             internal_size_type res = 0;
@@ -159,8 +159,8 @@ namespace suisen {
                     uint32_t tz = len <= 32 ? _tzcnt_u32(vlo ^ ulo) : _tzcnt_u64(vlo ^ ulo);
                     return (ulo >> tz) & 1 ? res + nxt->siz : res;
                 }
-                x >>= len;
-                upper >>= len;
+                x = shift_right(x, len);
+                upper = shift_right(upper, len);
                 l += len;
                 cur = nxt;
             }
@@ -252,8 +252,13 @@ namespace suisen {
 
         node_pointer_type _root = node_type::new_node(0, 0, 0);
 
+        static constexpr uint32_t max_bit_num = std::numeric_limits<unsigned_value_type>::digits;
+
         static constexpr unsigned_value_type cut_lower(const unsigned_value_type& val, uint32_t r) {
-            return val & ((unsigned_value_type(1) << r) - 1);
+            return r < max_bit_num ? val & ((unsigned_value_type(1) << r) - 1) : val;
+        }
+        static constexpr unsigned_value_type shift_right(const unsigned_value_type& val, uint32_t r) {
+            return r < max_bit_num ? val >> r : 0;
         }
         static constexpr uint32_t bit_reverse_u32(uint32_t x) {
             x = (((x & 0xaaaaaaaa) >> 1) | ((x & 0x55555555) << 1));
@@ -292,7 +297,7 @@ namespace suisen {
             uint32_t len = nxt->len, tz = len <= 32 ? _tzcnt_u32(x) : _tzcnt_u64(x);
             tz -= tz & (log_ary - 1);
             if (tz >= len) {
-                bool inserted = _insert_if_absent(nxt, l + len, val >> len);
+                bool inserted = _insert_if_absent(nxt, l + len, shift_right(val, len));
                 cur->siz += inserted;
                 return inserted;
             }
@@ -320,7 +325,7 @@ namespace suisen {
             unsigned_value_type x = val ^ nxt->val;
             uint32_t len = nxt->len, tz = len <= 32 ? _tzcnt_u32(x) : _tzcnt_u64(x);
             tz -= tz & (log_ary - 1);
-            if (tz >= len) return _insert(nxt, l + len, val >> len, num);
+            if (tz >= len) return _insert(nxt, l + len, shift_right(val, len), num);
             node_pointer_type br = node_type::new_node(cut_lower(nxt->val, tz), tz, nxt->siz + num);
             cur->ch[idx] = br;
             nxt->val >>= tz;
@@ -339,7 +344,7 @@ namespace suisen {
             const uint32_t idx = val & (ary - 1);
             node_pointer_type nxt = cur->ch[idx];
             if (not nxt or cut_lower(val ^ nxt->val, nxt->len)) return num = 0, false;
-            bool deleted = _erase(nxt, num, l + nxt->len, val >> nxt->len);
+            bool deleted = _erase(nxt, num, l + nxt->len, shift_right(val, nxt->len));
             cur->siz -= num;
             if (not deleted) return false;
             cur->ch[idx] = nullptr;
-- 
2.43.0


From a97906e449f80ec3b7bf94662d9dc0062f4f487a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:42 +0000
Subject: [PATCH 044/169] fix: SlopeTrick::lines did not compile (wrong queue
 type in the accessor)

---
 library/datastructure/slope_trick.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/slope_trick.hpp b/library/datastructure/slope_trick.hpp
index 0d1a211..90d702e 100644
--- a/library/datastructure/slope_trick.hpp
+++ b/library/datastructure/slope_trick.hpp
@@ -83,7 +83,7 @@ class SlopeTrick {
 
         std::tuple<std::vector<T>, T, std::vector<T>> lines() {
             struct seq_getter_dsc : public pq_dsc { static std::vector<T> get(const pq_dsc& pq) { return pq.*&seq_getter_dsc::c; } };
-            struct seq_getter_asc : public pq_asc { static std::vector<T> get(const pq_dsc& pq) { return pq.*&seq_getter_asc::c; } };
+            struct seq_getter_asc : public pq_asc { static std::vector<T> get(const pq_asc& pq) { return pq.*&seq_getter_asc::c; } };
             std::vector<T> neg = seq_getter_dsc::get(l);
             std::vector<T> pos = seq_getter_asc::get(r);
             std::sort(neg.begin(), neg.end());
-- 
2.43.0


From 23cf05656189d34dacb713a83f7cc77d5f0d24a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:59 +0000
Subject: [PATCH 045/169] fix: MonotonicCHT with a floating point type rejected
 negative slopes and query points

---
 library/datastructure/monotonic_convex_hull_trick.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/datastructure/monotonic_convex_hull_trick.hpp b/library/datastructure/monotonic_convex_hull_trick.hpp
index 3f067d4..ffd9ad6 100644
--- a/library/datastructure/monotonic_convex_hull_trick.hpp
+++ b/library/datastructure/monotonic_convex_hull_trick.hpp
@@ -25,7 +25,7 @@ namespace suisen {
         struct query_impl {};
         template <typename Dummy>
         struct query_impl<inc_query_tag, Dummy> {
-            value_type prev_x = std::numeric_limits<value_type>::min();
+            value_type prev_x = std::numeric_limits<value_type>::lowest();
             value_type operator()(MonotonicCHT* ptr, value_type x) {
                 assert(x >= prev_x);
                 prev_x = x;
@@ -92,7 +92,7 @@ namespace suisen {
         }
     private:
         std::deque<std::pair<value_type, value_type>> lines;
-        value_type max_slope = std::numeric_limits<value_type>::min();
+        value_type max_slope = std::numeric_limits<value_type>::lowest();
         value_type min_slope = std::numeric_limits<value_type>::max();
         query_impl<query_tag> _query{};
 
-- 
2.43.0


From 71bb45bca5e745554162c7aa94f50de951312598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:45 +0000
Subject: [PATCH 046/169] fix: ZDD::max_len_item dropped the top variable when
 only the 1-edge leads to a member

---
 library/datastructure/ZDD.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/datastructure/ZDD.hpp b/library/datastructure/ZDD.hpp
index dc6f27d..4d59e44 100644
--- a/library/datastructure/ZDD.hpp
+++ b/library/datastructure/ZDD.hpp
@@ -268,6 +268,7 @@ namespace suisen {
             } else if (res0.has_value()) {
                 return register_result(cache, res0, f.id);
             } else if (res1.has_value()) {
+                res1->push_back(f.top());
                 return register_result(cache, res1, f.id);
             } else {
                 return register_result(cache, std::nullopt, f.id);
-- 
2.43.0


From 332818ccdf8d0cb4c42f8f3e49f549055470afa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:45 +0000
Subject: [PATCH 047/169] fix: StaticRangeInversionNumberQuery read out of
 range for an empty range at a block boundary

---
 library/range_query/static_range_inversion_number_query.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/range_query/static_range_inversion_number_query.hpp b/library/range_query/static_range_inversion_number_query.hpp
index 6b11528..87f231a 100644
--- a/library/range_query/static_range_inversion_number_query.hpp
+++ b/library/range_query/static_range_inversion_number_query.hpp
@@ -37,6 +37,7 @@ namespace suisen {
          * @return Inversion number of (a_l, ..., a_{r-1})
          */
         long long operator()(int l, int r) const {
+            if (l >= r) return 0;
             const int bl = l / _block_siz, br = ceil_div(r, _block_siz);
             // [bl][bl+1,...,br-2][br-1]
             if (br - bl == 1) {
-- 
2.43.0


From f32e6bc99d270945610a0a6d43ea2f76c2b336f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:45 +0000
Subject: [PATCH 048/169] fix: StaticRangeModeQuery divided by zero when built
 from an empty array

---
 library/range_query/static_range_mode_query.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/range_query/static_range_mode_query.hpp b/library/range_query/static_range_mode_query.hpp
index c7a0aa7..89342ca 100644
--- a/library/range_query/static_range_mode_query.hpp
+++ b/library/range_query/static_range_mode_query.hpp
@@ -10,7 +10,7 @@ namespace suisen {
     template <typename T>
     struct StaticRangeModeQuery {
         StaticRangeModeQuery() = default;
-        explicit StaticRangeModeQuery(const std::vector<T> &a): _len(a.size()), _block_size(::sqrt(_len)), _block_num(_cld(_len, _block_size)) {
+        explicit StaticRangeModeQuery(const std::vector<T> &a): _len(a.size()), _block_size(std::max(1, int(::sqrt(_len)))), _block_num(_cld(_len, _block_size)) {
             // Computing the mapping from compressed values to original values
             _sorted = a;
             std::sort(_sorted.begin(), _sorted.end());
-- 
2.43.0


From 028225590b6caff1ebddf77b253844331e1b9fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:45 +0000
Subject: [PATCH 049/169] fix: RangeXoredMexQuery shifted by the full width of
 T with its default bit_num

---
 library/range_query/static_range_xored_mex_query.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/library/range_query/static_range_xored_mex_query.hpp b/library/range_query/static_range_xored_mex_query.hpp
index a6ecdb4..fbf7f89 100644
--- a/library/range_query/static_range_xored_mex_query.hpp
+++ b/library/range_query/static_range_xored_mex_query.hpp
@@ -56,8 +56,10 @@ namespace suisen {
 
         // returns mex { A_i ^ x | l <= i < r }
         T minimum_excluded(int l, int r, T x) const {
-            if (x >> bit_num) return 0;
-            if (min_r[bit_num][l] <= r) return T(1) << bit_num;
+            if constexpr (bit_num < std::numeric_limits<std::make_unsigned_t<T>>::digits) {
+                if (x >> bit_num) return 0;
+                if (min_r[bit_num][l] <= r) return T(1) << bit_num;
+            }
             T res = 0;
             for (int log = bit_num - 1; log >= 0; --log) {
                 bool z = (x >> log) & 1;
-- 
2.43.0


From 2f2671bff22c87f1151b55cebb0d1582ce7f1a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:15 +0000
Subject: [PATCH 050/169] fix: SparseTable of an empty array evaluated clz(0)

---
 library/datastructure/sparse_table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/sparse_table.hpp b/library/datastructure/sparse_table.hpp
index a60c735..0e7c4be 100644
--- a/library/datastructure/sparse_table.hpp
+++ b/library/datastructure/sparse_table.hpp
@@ -41,7 +41,7 @@ namespace suisen {
             std::fill(flog.begin() + (1 << log), flog.end(), log);
         }
         static int floor_log2(int i) {
-            return 31 - __builtin_clz(i);
+            return 31 - __builtin_clz(i | 1);
         }
     };
 } // namespace suisen
-- 
2.43.0


From 86da6c5d8e1eba0aef8964ad0199261968a355c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:15 +0000
Subject: [PATCH 051/169] fix: default-constructed CartesianTree had a root, so
 ranges() read out of bounds

---
 library/datastructure/cartesian_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/datastructure/cartesian_tree.hpp b/library/datastructure/cartesian_tree.hpp
index b5c2161..16fd0dd 100644
--- a/library/datastructure/cartesian_tree.hpp
+++ b/library/datastructure/cartesian_tree.hpp
@@ -14,7 +14,7 @@ namespace suisen {
 
         const int root;
 
-        CartesianTree() : base_type(), root(0) {}
+        CartesianTree() : base_type(), root(absent) {}
         CartesianTree(int root, const base_type& g) : base_type(g), root(root) {}
         CartesianTree(int root, base_type&& g) : base_type(std::move(g)), root(root) {}
 
-- 
2.43.0


From 7bb9f40216af8a0b82ae78c619dabe6d81cd7597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:15 +0000
Subject: [PATCH 052/169] fix: PermutationTree of an empty permutation took
 back() of an empty vector

---
 library/datastructure/permutation_tree.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/datastructure/permutation_tree.hpp b/library/datastructure/permutation_tree.hpp
index 9209a59..6a742a4 100644
--- a/library/datastructure/permutation_tree.hpp
+++ b/library/datastructure/permutation_tree.hpp
@@ -164,6 +164,7 @@ namespace suisen {
 
         static PermutationTree build(const std::vector<int>& p) {
             const int n = p.size();
+            if (n == 0) return PermutationTree{};
             std::vector<std::vector<int>> sel_l = left_strong_intervals(p);
             std::vector<std::vector<int>> sel_r = right_strong_intervals(p);
 
-- 
2.43.0


From c5fb5eeb92c235b94df647683c6c62275141427a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:39 +0000
Subject: [PATCH 053/169] fix: HornSAT fired clauses whose premise contains a
 variable forced to false

---
 library/algorithm/horn_sat.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/algorithm/horn_sat.hpp b/library/algorithm/horn_sat.hpp
index 7744be5..8f78469 100644
--- a/library/algorithm/horn_sat.hpp
+++ b/library/algorithm/horn_sat.hpp
@@ -40,6 +40,7 @@ class HornSAT {
                 if (not seen[i]) {
                     ans[i] = val;
                     seen[i] = true;
+                    if (not val) continue;
                     for (const int j : ls[i]) {
                         if (--c[j] == 0) dq.push_back(r[j]);
                     }
-- 
2.43.0


From 6a4c23b87f5f1556cfa4e95567f225cbc12a3c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:54 +0000
Subject: [PATCH 054/169] fix: PermutationTree indexed its min/max stacks past
 the end after popping them

---
 library/datastructure/permutation_tree.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/library/datastructure/permutation_tree.hpp b/library/datastructure/permutation_tree.hpp
index 6a742a4..e8a70e6 100644
--- a/library/datastructure/permutation_tree.hpp
+++ b/library/datastructure/permutation_tree.hpp
@@ -79,8 +79,13 @@ namespace suisen {
 
             auto erase = [&](list_node_pointer node) -> list_node_pointer {
                 list_node_pointer nxt = node->nxt, prv = node->prv;
-                if (list_node_pointer& nl = max_val[node->max_idx].second; node == nl) nl = nxt and nxt->max_idx == node->max_idx ? nxt : nullptr;
-                if (list_node_pointer& nl = min_val[node->min_idx].second; node == nl) nl = nxt and nxt->min_idx == node->min_idx ? nxt : nullptr;
+                // the stack elements of the node may have been popped already
+                if (node->max_idx < int(max_val.size())) {
+                    if (list_node_pointer& nl = max_val[node->max_idx].second; node == nl) nl = nxt and nxt->max_idx == node->max_idx ? nxt : nullptr;
+                }
+                if (node->min_idx < int(min_val.size())) {
+                    if (list_node_pointer& nl = min_val[node->min_idx].second; node == nl) nl = nxt and nxt->min_idx == node->min_idx ? nxt : nullptr;
+                }
                 if (nxt) nxt->prv = prv, nxt->delta += node->delta;
                 if (prv) prv->nxt = nxt;
                 delete node;
-- 
2.43.0


From f30c81deea0fefa6ccb2cb8fe78463624e0eab88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:45 +0000
Subject: [PATCH 055/169] fix: RMQpm1 read a[0] of an empty sequence

---
 library/algorithm/rmq_pm1.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/algorithm/rmq_pm1.hpp b/library/algorithm/rmq_pm1.hpp
index d6ad85a..25d5a5c 100644
--- a/library/algorithm/rmq_pm1.hpp
+++ b/library/algorithm/rmq_pm1.hpp
@@ -68,6 +68,7 @@ namespace suisen {
 
         std::vector<int> build() {
             std::vector<int> c(m, e());
+            if (n == 0) return c;
             for (int i = 0, p = a[0] - 1; i < n; p = a[i++]) {
                 int outer = i >> LOG;
                 c[outer] = op(c[outer], a[i]);
-- 
2.43.0


From 4b93ef632c48fca94d8d9a6b326574e1de6d483e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:51 +0000
Subject: [PATCH 056/169] fix: FunctionalGraph::doubling shifted past 63 bits
 for max_step >= 2^62

---
 library/graph/functional_graph.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/graph/functional_graph.hpp b/library/graph/functional_graph.hpp
index fbcf73d..3e4253d 100644
--- a/library/graph/functional_graph.hpp
+++ b/library/graph/functional_graph.hpp
@@ -225,7 +225,7 @@ namespace suisen {
 
         static int floor_log2(long long v) {
             int l = 0;
-            while (1LL << (l + 1) <= v) ++l;
+            while (v >> (l + 1)) ++l;
             return l;
         }
     };
-- 
2.43.0


From aa77d35cd6302312c56f471e642ba82234ec2f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:51 +0000
Subject: [PATCH 057/169] fix: Graph::dfs_tree and shrink_to_fit of a copied or
 moved graph read the edges of the original

---
 library/graph/csr_graph.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/graph/csr_graph.hpp b/library/graph/csr_graph.hpp
index 2ab74e7..55a39a8 100644
--- a/library/graph/csr_graph.hpp
+++ b/library/graph/csr_graph.hpp
@@ -210,7 +210,7 @@ namespace suisen {
             auto it = new_edges.begin();
             for (int i = 0; i < _n; ++i) {
                 int nl = it - new_edges.begin();
-                it = std::move(_adj[i].begin(), _adj[i].end(), it);
+                it = std::move((*this)[i].begin(), (*this)[i].end(), it);
                 _adj[i]._offset = nl;
                 _adj[i]._cap = _adj[i]._siz;
             }
@@ -258,7 +258,7 @@ namespace suisen {
                         *pst_it++ = cur;
                         cur = par[cur];
                     } else {
-                        const auto &e = _adj[cur][eid[cur]];
+                        const auto &e = (*this)[cur][eid[cur]];
                         weight_type_or_1 w = get_weight(e);
                         int nxt = e;
                         if (par[nxt] == -2) {
-- 
2.43.0


From 01af5e497af218e2191455340111494fde708a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:28 +0000
Subject: [PATCH 058/169] fix: FunctionalGraph::kth_iterate overflowed for k
 close to 2^63

---
 library/graph/functional_graph.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/graph/functional_graph.hpp b/library/graph/functional_graph.hpp
index 3e4253d..747dc0d 100644
--- a/library/graph/functional_graph.hpp
+++ b/library/graph/functional_graph.hpp
@@ -212,7 +212,7 @@ namespace suisen {
                     const int s = cycle[i];
                     seen[s] = true;
                     for (const auto& [rem, res_index] : qs[s]) {
-                        res[res_index] = cycle[(i + rem) % len];
+                        res[res_index] = cycle[(i + rem % len) % len];
                     }
                 }
             }
-- 
2.43.0


From ebc3ecff1bce4486095cc8c154766ccb49871307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:10 +0000
Subject: [PATCH 059/169] fix: manhattan_minimum_distances ignored the
 duplicate of one of several equal points

---
 library/graph/manhattan_minimum_distances.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/library/graph/manhattan_minimum_distances.hpp b/library/graph/manhattan_minimum_distances.hpp
index 4cf451d..cc318c7 100644
--- a/library/graph/manhattan_minimum_distances.hpp
+++ b/library/graph/manhattan_minimum_distances.hpp
@@ -27,6 +27,11 @@ namespace suisen {
         std::iota(p.begin(), p.end(), 0);
 
         std::vector<T> res(n, std::numeric_limits<T>::max());
+        // duplicate points: the sweeps below see only the preceding ones
+        std::sort(p.begin(), p.end(), [&points](int i, int j) { return points[i] < points[j]; });
+        for (int i = 1; i < n; ++i) if (points[p[i - 1]] == points[p[i]]) {
+            res[p[i - 1]] = res[p[i]] = T{ 0 };
+        }
 
         auto sweep = [&] {
             std::sort(
-- 
2.43.0


From 34d9bcc2c04d4e8568c964d27ddc5a94729e5250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:10 +0000
Subject: [PATCH 060/169] fix: LowLink and derived structures rebuild from
 scratch when build() is called again

---
 library/graph/biconnected_components.hpp        | 1 +
 library/graph/low_link.hpp                      | 5 +++++
 library/graph/two_edge_connected_components.hpp | 1 +
 3 files changed, 7 insertions(+)

diff --git a/library/graph/biconnected_components.hpp b/library/graph/biconnected_components.hpp
index ee3d5e9..80f1209 100644
--- a/library/graph/biconnected_components.hpp
+++ b/library/graph/biconnected_components.hpp
@@ -110,6 +110,7 @@ namespace suisen {
             _edge_comp_num = 0;
             _edge_comp_id.assign(_m, -1);
             _used.assign(_n, false);
+            _isolated_vertices.clear();
             for (int i = 0; i < _n; ++i) if (not _used[i]) {
                 dfs(i, -1);
                 if (_g[i].empty()) _isolated_vertices.push_back(i);
diff --git a/library/graph/low_link.hpp b/library/graph/low_link.hpp
index cc2b4e6..1f13d2d 100644
--- a/library/graph/low_link.hpp
+++ b/library/graph/low_link.hpp
@@ -151,6 +151,11 @@ namespace suisen {
         }
 
         void dfs_for_all_connected_components() {
+            _pre_order.assign(_n, -1);
+            _par.assign(_n, -1);
+            _bridges.clear();
+            _articulation_points.clear();
+            _conn_comp_num = 0;
             for (int i = 0, ord = 0; i < _n; ++i) if (_pre_order[i] < 0) {
                 dfs(i, -1, ord);
                 ++_conn_comp_num;
diff --git a/library/graph/two_edge_connected_components.hpp b/library/graph/two_edge_connected_components.hpp
index 01bde25..31066a5 100644
--- a/library/graph/two_edge_connected_components.hpp
+++ b/library/graph/two_edge_connected_components.hpp
@@ -66,6 +66,7 @@ namespace suisen {
         }
         void dfs_for_all_connected_components() {
             _comp_num = 0;
+            _comp_id.assign(_n, -1);
             for (int i = 0; i < _n; ++i) {
                 if (_comp_id[i] < 0) dfs(i, -1);
             }
-- 
2.43.0


From e117c177bdcd586c98959ea6c45b392e44edd560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:43 +0000
Subject: [PATCH 061/169] fix: eulerian_trail leaves the graph unchanged when
 there is no trail

---
 library/graph/directed_eulerian_graph.hpp   | 6 +++---
 library/graph/undirected_eulerian_graph.hpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/library/graph/directed_eulerian_graph.hpp b/library/graph/directed_eulerian_graph.hpp
index 74714e0..da06f0d 100644
--- a/library/graph/directed_eulerian_graph.hpp
+++ b/library/graph/directed_eulerian_graph.hpp
@@ -63,12 +63,12 @@ namespace suisen {
             if (s < 0 or t < 0 or invalid >= 0) return std::nullopt;
             add_edge(t, s);
             auto opt_res = eulerian_circuit(s);
-            if (not opt_res) return std::nullopt;
-            auto &res = *opt_res;
-            res.pop_back();
             // remove edge (t, s)
             g[t].pop_back();
             --in_deg[s];
+            if (not opt_res) return std::nullopt;
+            auto &res = *opt_res;
+            res.pop_back();
             if (res.back() == t) return res;
             auto is_ts_edge = [&](int u, int v) {
                 return u == t and v == s;
diff --git a/library/graph/undirected_eulerian_graph.hpp b/library/graph/undirected_eulerian_graph.hpp
index d4e691b..f16b5b8 100644
--- a/library/graph/undirected_eulerian_graph.hpp
+++ b/library/graph/undirected_eulerian_graph.hpp
@@ -60,12 +60,12 @@ namespace suisen {
             if (s < 0 or t < 0 or invalid >= 0) return std::nullopt;
             add_edge(s, t);
             auto opt_res = eulerian_circuit(s);
-            if (not opt_res) return std::nullopt;
-            auto &res = *opt_res;
-            res.pop_back();
             // remove edge (s, t)
             g[s].pop_back(), inv[s].pop_back();
             g[t].pop_back(), inv[t].pop_back();
+            if (not opt_res) return std::nullopt;
+            auto &res = *opt_res;
+            res.pop_back();
             if (res.back() == t) return res;
             auto is_st_edge = [&](int u, int v) {
                 return (u == s and v == t) or (u == t and v == s);
-- 
2.43.0


From 382da98f67a3b6cab4b1dabbda498faea3d2e1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:14 +0000
Subject: [PATCH 062/169] fix: tree decomposition of the empty graph is empty

---
 library/graph/tree_decomposition_tw2.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/library/graph/tree_decomposition_tw2.hpp b/library/graph/tree_decomposition_tw2.hpp
index fdf51ed..ed98606 100644
--- a/library/graph/tree_decomposition_tw2.hpp
+++ b/library/graph/tree_decomposition_tw2.hpp
@@ -50,7 +50,7 @@ namespace suisen {
 
             std::vector<int> roots;
             std::vector<std::pair<int, int>> edges;
-            edges.reserve(_n - 1);
+            edges.reserve(_n);
             std::vector<std::vector<int>> bag(_n);
             std::vector<std::vector<int>> link(_n);
 
@@ -108,6 +108,7 @@ namespace suisen {
             auto opt_decomp = decomp();
             if (not opt_decomp.has_value()) return std::nullopt;
             std::vector<DecompNodeRooted> res(_n);
+            if (_n == 0) return res;
             for (int i = 0; i < _n; ++i) {
                 res[i].bag = std::move((*opt_decomp)[i].bag);
             }
-- 
2.43.0


From a784dd0fcfa6c31d1e419dd9493731d275ed1830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:18 +0000
Subject: [PATCH 063/169] fix: tree decomposition accepts graphs with parallel
 edges

---
 library/graph/tree_decomposition_tw2.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/library/graph/tree_decomposition_tw2.hpp b/library/graph/tree_decomposition_tw2.hpp
index ed98606..4b5942d 100644
--- a/library/graph/tree_decomposition_tw2.hpp
+++ b/library/graph/tree_decomposition_tw2.hpp
@@ -32,8 +32,11 @@ namespace suisen {
 
         std::optional<std::vector<DecompNode>> decomp() const {
             std::vector<std::vector<std::pair<int, int>>> g(_n);
-            for (auto [u, v] : _edges) if (u != v) {
-                if (u > v) std::swap(u, v);
+            std::vector<std::pair<int, int>> simple_edges;
+            for (auto [u, v] : _edges) if (u != v) simple_edges.emplace_back(std::minmax(u, v));
+            std::sort(simple_edges.begin(), simple_edges.end());
+            simple_edges.erase(std::unique(simple_edges.begin(), simple_edges.end()), simple_edges.end());
+            for (const auto& [u, v] : simple_edges) {
                 const int du = g[u].size(), dv = g[v].size();
                 g[u].emplace_back(v, dv);
                 g[v].emplace_back(u, du);
-- 
2.43.0


From 42e829f3693466312a5fb5cf9db6817a6648955a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:49 +0000
Subject: [PATCH 064/169] fix: assignment_problem has its own include guard (it
 silently disabled min_cost_flow)

---
 library/graph/assignment_problem.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/library/graph/assignment_problem.hpp b/library/graph/assignment_problem.hpp
index 3178006..31c2e37 100644
--- a/library/graph/assignment_problem.hpp
+++ b/library/graph/assignment_problem.hpp
@@ -1,5 +1,5 @@
-#ifndef SUISEN_MIN_COST_FLOW
-#define SUISEN_MIN_COST_FLOW
+#ifndef SUISEN_ASSIGNMENT_PROBLEM
+#define SUISEN_ASSIGNMENT_PROBLEM
 
 #include <algorithm>
 #include <cassert>
@@ -149,4 +149,4 @@ namespace suisen {
 } // namespace suisen
 
 
-#endif // SUISEN_MIN_COST_FLOW
+#endif // SUISEN_ASSIGNMENT_PROBLEM
-- 
2.43.0


From 69ca734c1f709af2aa9f582cdb2cee6b098c8d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:20 +0000
Subject: [PATCH 065/169] fix: maximum_clique does not treat every vertex as
 non-adjacent to itself

---
 library/graph/maximum_clique.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/graph/maximum_clique.hpp b/library/graph/maximum_clique.hpp
index 2f6dbc1..7f68220 100644
--- a/library/graph/maximum_clique.hpp
+++ b/library/graph/maximum_clique.hpp
@@ -10,7 +10,7 @@ namespace suisen {
         for (int i = 0; i < n; ++i) {
             std::vector<int8_t> adj(n, false);
             for (int j : g[i]) adj[j] = true;
-            for (int j = 0; j < n; ++j) if (not adj[j]) h[i].push_back(j);
+            for (int j = 0; j < n; ++j) if (i != j and not adj[j]) h[i].push_back(j);
         }
         return maximum_independent_set(h);
     }
-- 
2.43.0


From 83882f59021bb1d3cbb289bbc52e7fb0a31c2eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:32 +0000
Subject: [PATCH 066/169] fix: fenwick_tree_2d_sparse has its own include guard

---
 .../datastructure/fenwick_tree/fenwick_tree_2d_sparse.hpp   | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/library/datastructure/fenwick_tree/fenwick_tree_2d_sparse.hpp b/library/datastructure/fenwick_tree/fenwick_tree_2d_sparse.hpp
index 4fedbb8..289fa97 100644
--- a/library/datastructure/fenwick_tree/fenwick_tree_2d_sparse.hpp
+++ b/library/datastructure/fenwick_tree/fenwick_tree_2d_sparse.hpp
@@ -1,5 +1,5 @@
-#ifndef SUISEN_SEGMENT_TREE_2D_SPARSE
-#define SUISEN_SEGMENT_TREE_2D_SPARSE
+#ifndef SUISEN_FENWICK_TREE_2D_SPARSE
+#define SUISEN_FENWICK_TREE_2D_SPARSE
 
 #include <algorithm>
 #include <cassert>
@@ -111,4 +111,4 @@ namespace suisen {
 } // namespace suisen
 
 
-#endif // SUISEN_SEGMENT_TREE_2D_SPARSE
+#endif // SUISEN_FENWICK_TREE_2D_SPARSE
-- 
2.43.0


From 13eee25b5b636520d26ad8752fa4150e87388b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:32 +0000
Subject: [PATCH 067/169] fix: union_find_lazy has its own include guard

---
 library/datastructure/union_find/union_find_lazy.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/library/datastructure/union_find/union_find_lazy.hpp b/library/datastructure/union_find/union_find_lazy.hpp
index fa738d5..8455934 100644
--- a/library/datastructure/union_find/union_find_lazy.hpp
+++ b/library/datastructure/union_find/union_find_lazy.hpp
@@ -1,5 +1,5 @@
-#ifndef SUISEN_UNION_FIND_COMPONENT_SUM
-#define SUISEN_UNION_FIND_COMPONENT_SUM
+#ifndef SUISEN_UNION_FIND_LAZY
+#define SUISEN_UNION_FIND_LAZY
 
 #include "library/datastructure/union_find/linked_union_find.hpp"
 
@@ -91,4 +91,4 @@ namespace suisen {
 } // namespace suisen
 
 
-#endif // SUISEN_UNION_FIND_COMPONENT_SUM
+#endif // SUISEN_UNION_FIND_LAZY
-- 
2.43.0


From 9f89335be5416d1655fc5fa01c1b0797682947bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:32 +0000
Subject: [PATCH 068/169] fix: link_cut_tree_path_foldable has its own include
 guard

---
 library/tree/link_cut_tree_path_foldable.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/library/tree/link_cut_tree_path_foldable.hpp b/library/tree/link_cut_tree_path_foldable.hpp
index 28f4d36..5d6ebce 100644
--- a/library/tree/link_cut_tree_path_foldable.hpp
+++ b/library/tree/link_cut_tree_path_foldable.hpp
@@ -1,5 +1,5 @@
-#ifndef SUISEN_LINK_CUT_TREE
-#define SUISEN_LINK_CUT_TREE
+#ifndef SUISEN_LINK_CUT_TREE_PATH_FOLDABLE
+#define SUISEN_LINK_CUT_TREE_PATH_FOLDABLE
 
 #include "library/tree/link_cut_tree_base.hpp"
 
@@ -64,4 +64,4 @@ namespace suisen {
     using internal::link_cut_tree::LinkCutTreePathFoldable;
 } // namespace suisen
 
-#endif // SUISEN_LINK_CUT_TREE
+#endif // SUISEN_LINK_CUT_TREE_PATH_FOLDABLE
-- 
2.43.0


From 6961e30652868801719915eca1ef73c2129457c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:32 +0000
Subject: [PATCH 069/169] fix: BipartiteMatching::solve counts the existing
 matching when edges were added after a solve

---
 library/graph/bipartite_matching.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/graph/bipartite_matching.hpp b/library/graph/bipartite_matching.hpp
index ba7cd72..a6bd1c3 100644
--- a/library/graph/bipartite_matching.hpp
+++ b/library/graph/bipartite_matching.hpp
@@ -90,7 +90,7 @@ namespace suisen {
                 }
                 return level[_n + r] = _n + _m, false;
             };
-            for (_f = 0; bfs();) {
+            for (_f = _n - std::count(_to_r.begin(), _to_r.end(), ABSENT); bfs();) {
                 std::fill(iter.begin(), iter.end(), 0);
                 for (int j = 0; j < _m; ++j) if (_to_l[j] == ABSENT) _f += dfs(dfs, j);
             }
-- 
2.43.0


From 4c12aad6118524384e9ecc185aa5b84016f432ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:32 +0000
Subject: [PATCH 070/169] fix: min_edge_cover sizes the right side by the
 number of right vertices

---
 library/graph/bipartite_matching.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/graph/bipartite_matching.hpp b/library/graph/bipartite_matching.hpp
index a6bd1c3..55424f6 100644
--- a/library/graph/bipartite_matching.hpp
+++ b/library/graph/bipartite_matching.hpp
@@ -107,7 +107,7 @@ namespace suisen {
 
         std::vector<std::pair<int, int>> min_edge_cover() {
             auto res = max_matching();
-            std::vector<bool> vl(_n, false), vr(_n, false);
+            std::vector<bool> vl(_n, false), vr(_m, false);
             for (const auto& [u, v] : res) vl[u] = vr[v] = true;
             for (int u = 0; u < _n; ++u) for (int v : _g[u]) if (not (vl[u] and vr[v])) {
                 vl[u] = vr[v] = true;
-- 
2.43.0


From a0fcdaa74c6ea982478cfe0b0c529313c5fdbdb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:58 +0000
Subject: [PATCH 071/169] fix: min_cost_flow records the reverse edge of a
 self-loop correctly

---
 library/graph/min_cost_flow.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/graph/min_cost_flow.hpp b/library/graph/min_cost_flow.hpp
index d5624c6..4b2864c 100644
--- a/library/graph/min_cost_flow.hpp
+++ b/library/graph/min_cost_flow.hpp
@@ -24,7 +24,7 @@ class MinCostFlow {
         int add_edge(int u, int v, Cap cap, Cost cost) {
             int edge_id = edges.size();
             edges.emplace_back(u, g[u].size());
-            g[u].push_back({ v, cap,  cost, int(g[v].size())     });
+            g[u].push_back({ v, cap,  cost, int(g[v].size()) + (u == v) });
             g[v].push_back({ u,   0, -cost, int(g[u].size()) - 1 });
             return edge_id;
         }
-- 
2.43.0


From ea740b5fc751dbc2f68533c67dd2973a384fbc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:21 +0000
Subject: [PATCH 072/169] fix: min_cost_flow's infinite flow has the capacity
 type

---
 library/graph/min_cost_flow.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/graph/min_cost_flow.hpp b/library/graph/min_cost_flow.hpp
index 4b2864c..051c39b 100644
--- a/library/graph/min_cost_flow.hpp
+++ b/library/graph/min_cost_flow.hpp
@@ -78,7 +78,7 @@ class MinCostFlow {
 
     private:
         static constexpr Cost INF_COST = std::numeric_limits<Cost>::max() / 2;
-        static constexpr Cost INF_FLOW = std::numeric_limits<Cap>::max() / 2;
+        static constexpr Cap INF_FLOW = std::numeric_limits<Cap>::max() / 2;
     
         int n;
         std::vector<std::vector<InternalEdge>> g;
-- 
2.43.0


From 1dbb36b75515eed1340291fe10f02fe6f94fb68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:46 +0000
Subject: [PATCH 073/169] fix: min_cost_flow potentials of unreachable vertices
 do not overflow

---
 library/graph/assignment_problem.hpp | 2 +-
 library/graph/min_cost_flow.hpp      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/graph/assignment_problem.hpp b/library/graph/assignment_problem.hpp
index 31c2e37..c5a3cef 100644
--- a/library/graph/assignment_problem.hpp
+++ b/library/graph/assignment_problem.hpp
@@ -112,7 +112,7 @@ namespace suisen {
 
         auto update_potential = [&]() {
             for (int u = 0; u < k; ++u) {
-                if (potential[u] != INF_COST) potential[u] += dist[u];
+                if (dist[u] != INF_COST) potential[u] += dist[u];
             }
         };
 
diff --git a/library/graph/min_cost_flow.hpp b/library/graph/min_cost_flow.hpp
index 051c39b..a16470b 100644
--- a/library/graph/min_cost_flow.hpp
+++ b/library/graph/min_cost_flow.hpp
@@ -134,7 +134,7 @@ class MinCostFlow {
 
         void update_potential() {
             for (int u = 0; u < n; ++u) {
-                if (potential[u] != INF_COST) potential[u] += dist[u];
+                if (dist[u] != INF_COST) potential[u] += dist[u];
             }
         }
 
-- 
2.43.0


From b2526381fb209a593b9c8eef8b6c7fb74234e973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:57 +0000
Subject: [PATCH 074/169] fix: min_cost_flow costs a later flow from another
 source correctly

---
 library/graph/min_cost_flow.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/graph/min_cost_flow.hpp b/library/graph/min_cost_flow.hpp
index a16470b..a6280d3 100644
--- a/library/graph/min_cost_flow.hpp
+++ b/library/graph/min_cost_flow.hpp
@@ -56,7 +56,7 @@ class MinCostFlow {
             return min_cost_max_flow_slope(s, t, INF_FLOW);
         }
         auto min_cost_arbitrary_flow_slope(const int s, const int t) {
-            return min_cost_flow_slope(s, t, INF_FLOW, [this, t](Cap, Cost){ return potential[t] < 0; });
+            return min_cost_flow_slope(s, t, INF_FLOW, [this, s, t](Cap, Cost){ return potential[t] < potential[s]; });
         }
 
         struct Edge {
@@ -114,7 +114,7 @@ class MinCostFlow {
                 }
                 assert(df != 0);
                 flow += df;
-                cost += df * potential[t];
+                cost += df * (potential[t] - potential[s]);
                 if (slope.size() >= 2) {
                     auto [f0, c0] = *std::next(slope.rbegin());
                     auto [f1, c1] = *slope.rbegin();
-- 
2.43.0


From b2cea9687e01f78481d38db3c4a3e611d70f816e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:16 +0000
Subject: [PATCH 075/169] fix: tree isomorphism compares the first tree with
 the second centroid of the second tree

---
 library/tree/tree_isomorphism_classification.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/tree/tree_isomorphism_classification.hpp b/library/tree/tree_isomorphism_classification.hpp
index 3fde37e..118918a 100644
--- a/library/tree/tree_isomorphism_classification.hpp
+++ b/library/tree/tree_isomorphism_classification.hpp
@@ -211,7 +211,7 @@ namespace suisen {
                 id21 = id_new_par;
             }
             if (id11 == ids20[cs2[0]]) return std::pair{ cs1[1], cs2[0] };
-            if (ids20[cs2[1]] == id21) return std::pair{ cs1[0], cs2[1] };
+            if (ids10[cs1[0]] == id21) return std::pair{ cs1[0], cs2[1] };
             if (id11 == id21) return std::pair{ cs1[1], cs2[1] };
             return std::nullopt;
         }
-- 
2.43.0


From f6e9a3b8c74a6aff0cf367c272aa6358d7aabb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:49 +0000
Subject: [PATCH 076/169] fix: rerooting_invertible.hpp has its own include
 guard so it can be used together with rerooting.hpp

---
 library/tree/rerooting_invertible.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/library/tree/rerooting_invertible.hpp b/library/tree/rerooting_invertible.hpp
index eb4b42f..8e1fe5b 100644
--- a/library/tree/rerooting_invertible.hpp
+++ b/library/tree/rerooting_invertible.hpp
@@ -1,5 +1,5 @@
-#ifndef SUISEN_REROOTING
-#define SUISEN_REROOTING
+#ifndef SUISEN_REROOTING_INVERTIBLE
+#define SUISEN_REROOTING_INVERTIBLE
 
 #include <cassert>
 #include <tuple>
@@ -180,4 +180,4 @@ namespace suisen {
     using RerootingInvertibleWeighted = internal::rerooting::RerootingInvertible<VertexWeight, EdgeWeighted>;
 } // namsepace suisen
 
-#endif // SUISEN_REROOTING
+#endif // SUISEN_REROOTING_INVERTIBLE
-- 
2.43.0


From ef9746c504d2a153a779e0d02e5ba9d73e464a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:42 +0000
Subject: [PATCH 077/169] fix: MatcherMP compiles on its own and does not read
 past the pattern after a match

---
 library/string/morris_pratt.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/library/string/morris_pratt.hpp b/library/string/morris_pratt.hpp
index 32b65cb..e23c7b5 100644
--- a/library/string/morris_pratt.hpp
+++ b/library/string/morris_pratt.hpp
@@ -48,16 +48,16 @@ namespace suisen {
         struct MatcherMP {
             MatcherMP() = default;
             MatcherMP(const RandomAccessibleContainer &s) : s(s), mp(morris_pratt(s)) {}
-            vector<int> operator()(const RandomAccessibleContainer &t) const {
+            std::vector<int> operator()(const RandomAccessibleContainer &t) const {
                 const int n = s.size(), m = t.size();
                 std::vector<int> res;
                 for (int i = 0, j = 0; i < m; ++i) {
                     while (j >= 0 and s[j] != t[i]) j = mp[j];
-                    if (++j == n) res.push_back(i - n + 1);
+                    if (++j == n) res.push_back(i - n + 1), j = mp[j];
                 }
                 return res;
             }
-            vector<int> enumerate_occurences(const RandomAccessibleContainer &t) const {
+            std::vector<int> enumerate_occurences(const RandomAccessibleContainer &t) const {
                 return (*this)(t);
             }
         private:
-- 
2.43.0


From 2443f1d64d3f80e98ff5d66971dcf2315a6e1450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:42 +0000
Subject: [PATCH 078/169] fix: AhoCorasick::build after further add calls no
 longer counts earlier patterns twice

---
 library/string/aho_corasick.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/string/aho_corasick.hpp b/library/string/aho_corasick.hpp
index bdf23cf..24ef940 100644
--- a/library/string/aho_corasick.hpp
+++ b/library/string/aho_corasick.hpp
@@ -29,7 +29,7 @@ namespace suisen {
             _built = true;
             const int n = _next.size();
             _failure.resize(n, 0);
-            _count.resize(n, 0);
+            _count.assign(n, 0);
             for (int mark : _marks) ++_count[mark];
             std::deque<int> dq{ 0 };
             while (dq.size()) {
-- 
2.43.0


From 77ae936f9a1447e316a1e4f2638678a6fe52b8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:42 +0000
Subject: [PATCH 079/169] fix: CompareSubstring can be used with SegmentTreeRmQ

---
 library/string/compare_substring.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/library/string/compare_substring.hpp b/library/string/compare_substring.hpp
index 7f84ffa..274e5de 100644
--- a/library/string/compare_substring.hpp
+++ b/library/string/compare_substring.hpp
@@ -12,7 +12,11 @@ namespace suisen {
         constexpr int e() { return std::numeric_limits<int>::max(); }
     }
     namespace compare_substring_rmq {
-        using SegmentTreeRmQ = atcoder::segtree<int, internal::compare_substring::op, internal::compare_substring::e>;
+        struct SegmentTreeRmQ : atcoder::segtree<int, internal::compare_substring::op, internal::compare_substring::e> {
+            using base_type = atcoder::segtree<int, internal::compare_substring::op, internal::compare_substring::e>;
+            using base_type::base_type;
+            int operator()(int l, int r) const { return this->prod(l, r); }
+        };
         using SparseTableRmQ = SparseTable<int, internal::compare_substring::op, internal::compare_substring::e>;
     }
     template <typename RmQ = compare_substring_rmq::SparseTableRmQ>
-- 
2.43.0


From 9e0dc24d08b78e79367b0c2e6460d6ca63b09c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:43 +0000
Subject: [PATCH 080/169] fix: SubstringSet iterators can be dereferenced and
 find can be used

---
 library/string/substring_set.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/string/substring_set.hpp b/library/string/substring_set.hpp
index 2bdf394..dccb9b8 100644
--- a/library/string/substring_set.hpp
+++ b/library/string/substring_set.hpp
@@ -119,7 +119,7 @@ class SubstringSet {
             public:
                 SubstringSetIterator(const SubstringSet *st, size_type k) : st(st), k(k) {}
 
-                value_type operator*() const { return st->kth_substring(k); }
+                value_type operator*() const { return st->kth_element(k); }
 
                 auto& operator=(const SubstringSetIterator& other) {
                     st = other.st;
-- 
2.43.0


From 5b9dfbb83932687761ae5241e425f4bd003c2a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:43 +0000
Subject: [PATCH 081/169] fix: SubstringSet::build discards the counts of the
 previous string

---
 library/string/substring_set.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/string/substring_set.hpp b/library/string/substring_set.hpp
index dccb9b8..3fb29d5 100644
--- a/library/string/substring_set.hpp
+++ b/library/string/substring_set.hpp
@@ -26,7 +26,7 @@ class SubstringSet {
         // build set of all substrings in `s`
         void build(const value_type &s) {
             sa = SuffixAutomaton(s);
-            dp.resize(sa.nodes.size(), size_type(1));
+            dp.assign(sa.nodes.size(), size_type(1));
             for (const int u : sa.topological_order(/* reversed = */true)) {
                 for (const auto &p : sa.nodes[u].nxt) dp[u] += dp[p.second];
             }
-- 
2.43.0


From eb481fd927d5ba9310d8496e2f3e2438783194b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:43 +0000
Subject: [PATCH 082/169] fix: RollingHashField::set_bases discards the powers
 of the previous bases

---
 library/string/rolling_hash_field.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/string/rolling_hash_field.hpp b/library/string/rolling_hash_field.hpp
index ffa6b04..f431e18 100644
--- a/library/string/rolling_hash_field.hpp
+++ b/library/string/rolling_hash_field.hpp
@@ -50,6 +50,7 @@ namespace suisen {
 
         static void set_bases(const std::array<T, base_num>& new_bases) {
             bases = new_bases;
+            for (auto& pow : pows) pow.clear();
             already_set_bases = true;
         }
 
-- 
2.43.0


From 58b588ed279c5b4b77d825695d0a79616bf23246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:43 +0000
Subject: [PATCH 083/169] fix: PalindromicTreeVec / PalindromicTreeArr store
 node indices as int, not as the (possibly narrow) value type

---
 library/string/palindromic_tree.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/library/string/palindromic_tree.hpp b/library/string/palindromic_tree.hpp
index ff459b1..e500c9e 100644
--- a/library/string/palindromic_tree.hpp
+++ b/library/string/palindromic_tree.hpp
@@ -67,7 +67,7 @@ namespace suisen {
                     inserted = inserted_tmp;
                     _active_index = it->second;
                 } else if constexpr (is_vector) {
-                    if (value_type(ch.size()) <= val) ch.resize(val + 1, NODE_NULL);
+                    if (int(ch.size()) <= val) ch.resize(val + 1, NODE_NULL);
                     if (ch[val] == NODE_NULL) {
                         inserted = true;
                         ch[val] = _nodes.size();
@@ -181,8 +181,8 @@ namespace suisen {
 
         private:
             static constexpr bool is_map = std::is_same_v<std::map<value_type, int>, children_container_type>;
-            static constexpr bool is_vector = std::is_same_v<std::vector<value_type>, children_container_type>;
-            static constexpr bool is_array = std::is_same_v<std::array<value_type, std::tuple_size_v<children_container_type>>, children_container_type>;
+            static constexpr bool is_vector = std::is_same_v<std::vector<int>, children_container_type>;
+            static constexpr bool is_array = std::is_same_v<std::array<int, std::tuple_size_v<children_container_type>>, children_container_type>;
 
             int _active_index;
             container_type _seq;
@@ -217,14 +217,14 @@ namespace suisen {
     };
 
     template <typename T, typename Sequence = std::vector<T>>
-    struct PalindromicTreeVec : public internal::palindromic_tree::PalindromicTreeBase<T, Sequence, std::vector<T>> {
-        using base_type = internal::palindromic_tree::PalindromicTreeBase<T, Sequence, std::vector<T>>;
+    struct PalindromicTreeVec : public internal::palindromic_tree::PalindromicTreeBase<T, Sequence, std::vector<int>> {
+        using base_type = internal::palindromic_tree::PalindromicTreeBase<T, Sequence, std::vector<int>>;
         using base_type::base_type;
     };
 
     template <typename T, std::size_t N, typename Sequence = std::vector<T>>
-    struct PalindromicTreeArr : public internal::palindromic_tree::PalindromicTreeBase<T, Sequence, std::array<T, N>> {
-        using base_type = internal::palindromic_tree::PalindromicTreeBase<T, Sequence, std::array<T, N>>;
+    struct PalindromicTreeArr : public internal::palindromic_tree::PalindromicTreeBase<T, Sequence, std::array<int, N>> {
+        using base_type = internal::palindromic_tree::PalindromicTreeBase<T, Sequence, std::array<int, N>>;
         using base_type::base_type;
     };
 } // namespace suisen
-- 
2.43.0


From fc44a1ed3483d57c647227e334b19770fa887571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:43 +0000
Subject: [PATCH 084/169] fix: PalindromicTree::clear drops the children of the
 two roots

---
 library/string/palindromic_tree.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/library/string/palindromic_tree.hpp b/library/string/palindromic_tree.hpp
index e500c9e..f9a8bd0 100644
--- a/library/string/palindromic_tree.hpp
+++ b/library/string/palindromic_tree.hpp
@@ -171,6 +171,13 @@ namespace suisen {
                     _nodes.clear();
                 } else {
                     _nodes.erase(_nodes.begin() + 2, _nodes.end());
+                    for (node_type& root : _nodes) {
+                        if constexpr (is_map or is_vector) {
+                            root._children.clear();
+                        } else {
+                            root._children.fill(NODE_NULL);
+                        }
+                    }
                 }
             }
 
-- 
2.43.0


From 009a3a215ed7a3825183b2ff9038cd8423919708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:46 +0000
Subject: [PATCH 085/169] fix: DynamicRollingHash::set can be instantiated

---
 library/string/dynamic_rolling_hash.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/string/dynamic_rolling_hash.hpp b/library/string/dynamic_rolling_hash.hpp
index 3fed14b..b98c6ef 100644
--- a/library/string/dynamic_rolling_hash.hpp
+++ b/library/string/dynamic_rolling_hash.hpp
@@ -126,7 +126,7 @@ namespace suisen {
 
         template <typename T>
         void set(size_t k, const T& val) {
-            _seq = node::update_value(_seq, k, val);
+            _seq = node::set(_seq, k, val);
         }
         template <typename T>
         void insert(size_t k, const T& val) {
-- 
2.43.0


From 2a7600621c61eed712ad01ce25387deef90fadb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:46 +0000
Subject: [PATCH 086/169] fix: AhoCorasick counts an empty pattern after a
 single character too

---
 library/string/aho_corasick.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/string/aho_corasick.hpp b/library/string/aho_corasick.hpp
index 24ef940..72674da 100644
--- a/library/string/aho_corasick.hpp
+++ b/library/string/aho_corasick.hpp
@@ -38,8 +38,8 @@ namespace suisen {
                 for (const auto& [c, nxt] : _next[cur]) {
                     if (cur) {
                         _failure[nxt] = next_state(_failure[cur], c);
-                        _count[nxt] += _count[_failure[nxt]];
                     }
+                    _count[nxt] += _count[_failure[nxt]];
                     dq.push_back(nxt);
                 }
             }
-- 
2.43.0


From 080a3f58203c89b9eb464a425b41b2def7fc2c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:30 +0000
Subject: [PATCH 087/169] fix: FactorizedForm can be instantiated

---
 library/number/factorized_form.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/number/factorized_form.hpp b/library/number/factorized_form.hpp
index 6ccf836..f339ab2 100644
--- a/library/number/factorized_form.hpp
+++ b/library/number/factorized_form.hpp
@@ -24,7 +24,7 @@ namespace suisen {
         }
     };
     template <typename T, std::enable_if_t<std::is_integral_v<T>, std::nullptr_t> = nullptr>
-    using FactorizedForm = std::vector<PrimePower>;
+    using FactorizedForm = std::vector<PrimePower<T>>;
 } // namespace suisen
 
 namespace std {
-- 
2.43.0


From c0a66dcfa35a296f517e3a0a56cf06aa2d81c3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:30 +0000
Subject: [PATCH 088/169] fix: multiple_quotients_ranges stops at the maximum
 of the integer type

---
 library/number/enumerate_quotient.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/number/enumerate_quotient.hpp b/library/number/enumerate_quotient.hpp
index e7accba..e720cb6 100644
--- a/library/number/enumerate_quotient.hpp
+++ b/library/number/enumerate_quotient.hpp
@@ -89,6 +89,7 @@ namespace suisen {
                 r = std::min(r, qs[i] == 0 ? std::numeric_limits<T>::max() : vs[i] / qs[i]);
             }
             res.emplace_back(l, r, std::move(qs));
+            if (r == std::numeric_limits<T>::max()) break;
         }
         return res;
     }
-- 
2.43.0


From fb7e0c428073859053f68b536aba351db2063162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:30 +0000
Subject: [PATCH 089/169] fix: Montgomery::reduce does not overflow for moduli
 above R/2

---
 library/number/montogomery.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/library/number/montogomery.hpp b/library/number/montogomery.hpp
index 7aa7923..a9585ec 100644
--- a/library/number/montogomery.hpp
+++ b/library/number/montogomery.hpp
@@ -48,7 +48,8 @@ namespace suisen {
                 //  => (T + m * N) / R is an integer.
                 //  => t * R = T + m * N = T (mod N)
                 //  => t = T R^(-1) (mod N)
-                DInt t = divR(T + m * N);
+                // (T + m * N may not fit in DInt if 2N > R. The lower halves sum up to 0 or R.)
+                DInt t = DInt(divR(T)) + divR(m * N) + (modR(T) != 0);
 
                 // Note:
                 //  1. 0 <= T < RN
-- 
2.43.0


From fe5173c7eba7e499b337383fa24fc7edb48f6ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:30 +0000
Subject: [PATCH 090/169] fix: Montgomery::add and sub return residues for
 every modulus

---
 library/number/montogomery.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/number/montogomery.hpp b/library/number/montogomery.hpp
index a9585ec..9f59f55 100644
--- a/library/number/montogomery.hpp
+++ b/library/number/montogomery.hpp
@@ -60,10 +60,10 @@ namespace suisen {
             }
 
             constexpr Int add(Int A, Int B) const {
-                return (A += B) >= N ? A - N : A;
+                return A >= N - B ? A - (N - B) : A + B;
             }
             constexpr Int sub(Int A, Int B) const {
-                return (A -= B) < 0 ? A + N : A;
+                return A >= B ? A - B : A + (N - B);
             }
             constexpr Int mul(Int A, Int B) const {
                 return reduce(static_cast<DInt>(A) * B);
-- 
2.43.0


From a37ba716001e218f4ca722e6e825018995a64049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:30 +0000
Subject: [PATCH 091/169] fix: powi does not overflow when the result is
 representable

---
 library/number/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/number/util.hpp b/library/number/util.hpp
index a51258d..8f3d90f 100644
--- a/library/number/util.hpp
+++ b/library/number/util.hpp
@@ -18,7 +18,7 @@ namespace suisen {
         T res = 1, pow_a = a;
         for (; b; b >>= 1) {
             if (b & 1) res *= pow_a;
-            pow_a *= pow_a;
+            if (b > 1) pow_a *= pow_a;
         }
         return res;
     }
-- 
2.43.0


From ff043e5ac726c97b4fecf521ff84b4afa6f4ff81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:30 +0000
Subject: [PATCH 092/169] fix: factorize does not overflow near the limits of
 the integer type

---
 library/number/util.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/number/util.hpp b/library/number/util.hpp
index 8f3d90f..8ec5f28 100644
--- a/library/number/util.hpp
+++ b/library/number/util.hpp
@@ -51,14 +51,14 @@ namespace suisen {
 
         assert(n > 0);
         std::vector<std::pair<T, int>> res;
-        auto f = [&res, &n](int p) {
+        auto f = [&res, &n](T p) {
             if (n % p) return;
             int cnt = 0;
             do n /= p, ++cnt; while (n % p == 0);
             res.emplace_back(p, cnt);
             };
         for (int p : primes) f(p);
-        for (T b = next_prime; b * b <= n; b += period) {
+        for (T b = next_prime; b <= n / b; b += period) {
             for (int offset : s) f(b + offset);
         }
         if (n != 1) res.emplace_back(n, 1);
-- 
2.43.0


From 037e4185e926f60ac7a4fef9af51e2a91c928aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:06 +0000
Subject: [PATCH 093/169] fix: prime_mod_sqrt handles primes p with p-1
 divisible by 2^32

---
 library/number/mod_sqrt.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/number/mod_sqrt.hpp b/library/number/mod_sqrt.hpp
index 743bc5f..4033c0b 100644
--- a/library/number/mod_sqrt.hpp
+++ b/library/number/mod_sqrt.hpp
@@ -42,7 +42,7 @@ namespace suisen {
             ++b;
         }
 
-        int tlz = __builtin_ctz(p - 1);
+        int tlz = __builtin_ctzll(p - 1);
         long long q = (p - 1) >> tlz;
 
         long long ia = inv_mod64(a, p);
@@ -55,7 +55,7 @@ namespace suisen {
                 return x;
             }
             long long e = mul_mod64(ia, x2, p);
-            if (pow_mod64(e, 1 << (tlz - shift), p) != 1) {
+            if (pow_mod64(e, 1LL << (tlz - shift), p) != 1) {
                 x = mul_mod64(x, b, p);
             }
             b = mul_mod64(b, b, p);
-- 
2.43.0


From e74d563b6e0c4f4125e3ca5a7e2e46885fcdf856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:28 +0000
Subject: [PATCH 094/169] fix: composite_mod_sqrt accepts negative arguments
 for even moduli

---
 library/number/mod_sqrt.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/library/number/mod_sqrt.hpp b/library/number/mod_sqrt.hpp
index 4033c0b..1c60f7f 100644
--- a/library/number/mod_sqrt.hpp
+++ b/library/number/mod_sqrt.hpp
@@ -69,7 +69,8 @@ namespace suisen {
             for (int i = 1; i <= q; ++i) {
                 pq[i] = pq[i - 1] * p;
             }
-            if ((a %= pq[q]) == 0) return 0;
+            if ((a %= pq[q]) < 0) a += pq[q];
+            if (a == 0) return 0;
 
             int b = 0;
             for (; a % p == 0; a /= p) {
-- 
2.43.0


From 0c8f3723ac216db0d881cceef3e0e0a261411094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:52 +0000
Subject: [PATCH 095/169] fix: discrete_logarithm and its fast variant
 terminate for moduli of at least 2^30

---
 library/number/discrete_logarithm.hpp      | 2 +-
 library/number/fast_discrete_logarithm.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/number/discrete_logarithm.hpp b/library/number/discrete_logarithm.hpp
index 3fed267..83be154 100644
--- a/library/number/discrete_logarithm.hpp
+++ b/library/number/discrete_logarithm.hpp
@@ -9,7 +9,7 @@ namespace suisen {
     namespace internal::discrete_logarithm {
         int floor_log2(int m) {
             int res = 0;
-            while (1 << (res + 1) <= m) ++res;
+            while (1LL << (res + 1) <= m) ++res;
             return res;
         }
     }
diff --git a/library/number/fast_discrete_logarithm.hpp b/library/number/fast_discrete_logarithm.hpp
index 362edaa..bd7e2b2 100644
--- a/library/number/fast_discrete_logarithm.hpp
+++ b/library/number/fast_discrete_logarithm.hpp
@@ -355,7 +355,7 @@ namespace suisen::fast_discrete_logarithm {
 
             const int floor_log2_m = [m] {
                 int res = 0;
-                while (1 << (res + 1) <= m) ++res;
+                while (1LL << (res + 1) <= m) ++res;
                 return res;
             }();
 
-- 
2.43.0


From ec3615d4e8d80b3de3f5f009c2e451b3f04a25be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:14 +0000
Subject: [PATCH 096/169] fix: OrderMod::is_prime is false for prime powers
 (primitive_root returned non-units)

---
 library/number/order_Z_mZ.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/number/order_Z_mZ.hpp b/library/number/order_Z_mZ.hpp
index 35a5348..d985b92 100644
--- a/library/number/order_Z_mZ.hpp
+++ b/library/number/order_Z_mZ.hpp
@@ -50,7 +50,7 @@ namespace suisen {
         OrderMod() = default;
         OrderMod(T m) : _mod(m) {
             auto factorized = fast_factorize::factorize<T>(_mod);
-            _is_prime = factorized.size() == 1;
+            _is_prime = factorized.size() == 1 and factorized.front().second == 1;
             _lambda = _carmichael(factorized);
             _phi = _totient(factorized);
             for (auto [p, q] : fast_factorize::factorize<T>(_lambda)) {
-- 
2.43.0


From d0367c1dd37c94726c69abb59ad37d30af02051a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:43 +0000
Subject: [PATCH 097/169] fix: OrderMod::is_primitive_root works for moduli in
 [2^31, 2^32)

---
 library/number/order_Z_mZ.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/number/order_Z_mZ.hpp b/library/number/order_Z_mZ.hpp
index d985b92..8d2d9aa 100644
--- a/library/number/order_Z_mZ.hpp
+++ b/library/number/order_Z_mZ.hpp
@@ -61,7 +61,7 @@ namespace suisen {
         }
 
         bool is_primitive_root(U a) const {
-            if (_mod < 1ULL << 32) {
+            if (_mod < 1ULL << 31) {
                 using mint = atcoder::dynamic_modint<1000000000>;
                 U old_mod = mint::mod();
                 mint::set_mod(_mod);
-- 
2.43.0


From fe7f03caefed170938239e6afc76120504c5cb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:01 +0000
Subject: [PATCH 098/169] fix: OrderMod::is_primitive_root is false for
 non-units

---
 library/number/order_Z_mZ.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/number/order_Z_mZ.hpp b/library/number/order_Z_mZ.hpp
index 8d2d9aa..69c2e49 100644
--- a/library/number/order_Z_mZ.hpp
+++ b/library/number/order_Z_mZ.hpp
@@ -153,6 +153,7 @@ namespace suisen {
         template <typename mint>
         bool _is_primitive_root_impl(U a) const {
             if (_lambda != _phi) return false;
+            if (std::gcd(a, _mod) != 1) return false;
             if (_mod == 2) return a % 2 == 1;
 
             const int k = _fac_lambda.size();
-- 
2.43.0


From 368707172ddc622c0aa07da335ce023f75184dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:47 +0000
Subject: [PATCH 099/169] fix: sbt_node::move_down_left and move_down_right
 compile

---
 library/number/stern_brocot_tree.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/number/stern_brocot_tree.hpp b/library/number/stern_brocot_tree.hpp
index c59bf2d..92a4d80 100644
--- a/library/number/stern_brocot_tree.hpp
+++ b/library/number/stern_brocot_tree.hpp
@@ -104,9 +104,9 @@ namespace suisen {
         }
 
         // move down k steps to the left
-        void move_down_left(Int k) { move(Left, k); }
+        void move_down_left(Int k) { move_down(Left, k); }
         // move down k steps to the right
-        void move_down_right(Int k) { move(Right, k); }
+        void move_down_right(Int k) { move_down(Right, k); }
         // move down k steps in the direction `dir`
         void move_down(sbt_arc dir, Int k) {
             assert(k >= 0);
-- 
2.43.0


From 51eb1a862750f316ef8ffcfe3b259d39e6d3fff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:47 +0000
Subject: [PATCH 100/169] fix: Rational comparison alternates the direction at
 each step of the continued fraction

---
 library/number/rational.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/number/rational.hpp b/library/number/rational.hpp
index 8bedaea..6d68a08 100644
--- a/library/number/rational.hpp
+++ b/library/number/rational.hpp
@@ -41,14 +41,14 @@ struct Rational {
         if ((sgn_l ^ sgn_r) < 0) return sgn_l;
         T nl = std::abs(l.num), dl = l.den, nr = std::abs(r.num), dr = r.den;
         bool rev = sgn_l < 0;
-        for (; dl and dr; rev = -rev) {
+        for (; dl and dr; rev = not rev) {
             T ql = nl / dl, qr = nr / dr;
             if (ql != qr) return pow_m1((ql < qr) xor rev);
             T rl = nl % dl, rr = nr % dr;
             nl = dl, dl = rl;
             nr = dr, dr = rr;
         }
-        return dl or dr ? pow_m1((dr > 0) xor rev) : 0;
+        return dl or dr ? pow_m1((dl > 0) xor rev) : 0;
     }
     
     friend bool operator<(const Rational &l, const Rational &r) {
-- 
2.43.0


From bd573d9cff64e76e44aff05e27a4bb0653a18fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:47 +0000
Subject: [PATCH 101/169] fix: Rational::floor and ceil round towards -inf and
 +inf, not towards zero

---
 library/number/rational.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/library/number/rational.hpp b/library/number/rational.hpp
index 6d68a08..76e07f5 100644
--- a/library/number/rational.hpp
+++ b/library/number/rational.hpp
@@ -1,6 +1,7 @@
 #ifndef SUISEN_RATIONAL
 #define SUISEN_RATIONAL
 
+#include <cassert>
 #include <cmath>
 #include <ostream>
 #include <numeric>
@@ -129,10 +130,10 @@ struct Rational {
     }
 
     T floor() const {
-        return num >= 0 ? num / den : -(-num / den);
+        return num >= 0 ? num / den : -((-num + den - 1) / den);
     }
     T ceil() const {
-        return num >= 0 ? -(-num / den) : num / den;
+        return num >= 0 ? (num + den - 1) / den : -(-num / den);
     }
 
     static std::pair<Rational, Rational> approximate(long double target, T max_numerator, T max_denominator) {
-- 
2.43.0


From 137f09937e2377dd3581f8e7bdb1c371a917d257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:01 +0000
Subject: [PATCH 102/169] fix: factorial_number includes a set with count_lt
 and compiles

---
 library/number/factorial_number.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/number/factorial_number.hpp b/library/number/factorial_number.hpp
index 0d4ff69..501c7a0 100644
--- a/library/number/factorial_number.hpp
+++ b/library/number/factorial_number.hpp
@@ -23,7 +23,7 @@ namespace suisen {
             fenwick_tree_set st(_n, true);
             for (int i = 0; i < _n - 1; ++i) {
                 int v = perm[i];
-                _d[_n - 2 - i] = st.index_of(v);
+                _d[_n - 2 - i] = st.count_lt(v);
                 st.erase(v);
             }
         }
-- 
2.43.0


From 64206893213feb3badc4cbc694534b17939defb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:25 +0000
Subject: [PATCH 103/169] fix: BezoutEquationSolution::count is nullopt for
 infinitely many solutions of 0x + 0y = 0

---
 library/number/bezout_equation.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/number/bezout_equation.hpp b/library/number/bezout_equation.hpp
index 7e57bf2..79b044e 100644
--- a/library/number/bezout_equation.hpp
+++ b/library/number/bezout_equation.hpp
@@ -78,6 +78,7 @@ namespace suisen {
             if (t == SolutionType::None) {
                 return 0;
             } else if (t == SolutionType::Arbitrary) {
+                if (kxmin == neginf or kxmax == posinf or kymin == neginf or kymax == posinf) return std::nullopt;
                 return T(kxmax - kxmin + 1) * T(kymax - kymin + 1);
             } else {
                 auto k_range = get_k_range();
-- 
2.43.0


From 1be137b718644da8ab9f42899214415c3e685823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:41 +0000
Subject: [PATCH 104/169] fix: BezoutEquation::solve does not divide by zero
 when b = 0

---
 library/number/bezout_equation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/number/bezout_equation.hpp b/library/number/bezout_equation.hpp
index 79b044e..8d979e0 100644
--- a/library/number/bezout_equation.hpp
+++ b/library/number/bezout_equation.hpp
@@ -238,7 +238,7 @@ namespace suisen {
                     const long long cx = b / g, cy = -a / g;
                     z /= g;
                     __int128_t x0 = __int128_t(x) * z, y0 = __int128_t(y) * z;
-                    __int128_t k0 = -x0 / cx;
+                    __int128_t k0 = cx != 0 ? -x0 / cx : -y0 / cy;
                     return BezoutEquationSolution::make_linear(x0 + k0 * cx, cx, y0 + k0 * cy, cy);
                 }
             }
-- 
2.43.0


From 9d345e6a253c89c389036ff1bdcd9781e71361ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:55 +0000
Subject: [PATCH 105/169] fix: min_of_mod_of_linear does not overflow int for b
 + m >= 2^31

---
 library/number/min_of_mod_of_linear.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/number/min_of_mod_of_linear.hpp b/library/number/min_of_mod_of_linear.hpp
index 8e83a49..61fd326 100644
--- a/library/number/min_of_mod_of_linear.hpp
+++ b/library/number/min_of_mod_of_linear.hpp
@@ -26,7 +26,7 @@ namespace suisen {
         int l = -1, r = m - 1;
         while (r - l > 1) {
             int k = (l + r) >> 1;
-            if (atcoder::floor_sum(n, m, a, b + (m - 1 - k)) < v) {
+            if (atcoder::floor_sum(n, m, a, (long long) b + (m - 1 - k)) < v) {
                 r = k;
             } else {
                 l = k;
-- 
2.43.0


From 50b7942d0370c6187e562abc831b97b12a4f38cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:21 +0000
Subject: [PATCH 106/169] fix: min_of_mod_of_linear midpoint does not overflow
 int for m > 2^30

---
 library/number/min_of_mod_of_linear.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/number/min_of_mod_of_linear.hpp b/library/number/min_of_mod_of_linear.hpp
index 61fd326..c0862be 100644
--- a/library/number/min_of_mod_of_linear.hpp
+++ b/library/number/min_of_mod_of_linear.hpp
@@ -25,7 +25,7 @@ namespace suisen {
 
         int l = -1, r = m - 1;
         while (r - l > 1) {
-            int k = (l + r) >> 1;
+            int k = l + ((r - l) >> 1);
             if (atcoder::floor_sum(n, m, a, (long long) b + (m - 1 - k)) < v) {
                 r = k;
             } else {
-- 
2.43.0


From b89b9cbe0d4977fe072ac7856bd57b470bf4bf72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:42 +0000
Subject: [PATCH 107/169] fix: chirp_z_transform can be called with its default
 convolution

---
 library/transform/chirp_z_transform.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/transform/chirp_z_transform.hpp b/library/transform/chirp_z_transform.hpp
index a95a3ec..a610c94 100644
--- a/library/transform/chirp_z_transform.hpp
+++ b/library/transform/chirp_z_transform.hpp
@@ -33,7 +33,7 @@ namespace suisen {
     /**
      * @brief Calculates f(ar^k) for k=0,...,m-1 in O(M(n+m-1)+n+m) time
      */
-    template <typename T, typename Convolution>
+    template <typename T, typename Convolution = decltype(internal::default_convolution)&>
     std::vector<T> chirp_z_transform(std::vector<T> f, T a, T r, int m, Convolution&& convolution = internal::default_convolution) {
         const int n = f.size();
         std::vector<T> g(m);
-- 
2.43.0


From 6854402bc47f738fa8ab0177336f44cfdf39da41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:14 +0000
Subject: [PATCH 108/169] fix: multi_variate_convolution_circular supports
 composite moduli m with lcm(n) | m - 1

---
 library/convolution/multi_variate_convolution_circular.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/convolution/multi_variate_convolution_circular.hpp b/library/convolution/multi_variate_convolution_circular.hpp
index bbbba27..ac0020b 100644
--- a/library/convolution/multi_variate_convolution_circular.hpp
+++ b/library/convolution/multi_variate_convolution_circular.hpp
@@ -87,7 +87,7 @@ namespace suisen {
 
             const int t = std::reduce(n.begin(), n.end(), 1, [](int x, int y) { return std::lcm(x, y); });
 
-            if ((mint::mod() - 1) % t == 0) {
+            if ((mint::mod() - 1) % t == 0 and miller_rabin::is_prime(mint::mod())) {
                 _mods = { mint::mod() };
             } else {
                 __int128_t prod = 1;
-- 
2.43.0


From 4cbb32e95f79cbcc246cd13dc50ac12160752757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:14 +0000
Subject: [PATCH 109/169] fix: default-constructed (semi-)relaxed convolutions
 start empty

---
 library/convolution/relaxed_convolution.hpp          | 2 +-
 library/convolution/semi_relaxed_convolution.hpp     | 2 +-
 library/convolution/semi_relaxed_convolution_ntt.hpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/library/convolution/relaxed_convolution.hpp b/library/convolution/relaxed_convolution.hpp
index 6aa4581..cdf7eae 100644
--- a/library/convolution/relaxed_convolution.hpp
+++ b/library/convolution/relaxed_convolution.hpp
@@ -40,7 +40,7 @@ namespace suisen {
 
     private:
         convolution_type _convolve = [](const polynomial_type&, const polynomial_type&) -> polynomial_type { assert(false); };
-        int _n;
+        int _n = 0;
         polynomial_type _f, _g, _h;
 
         polynomial_type range_convolve(int l1, int r1, int l2, int r2) {
diff --git a/library/convolution/semi_relaxed_convolution.hpp b/library/convolution/semi_relaxed_convolution.hpp
index 815dfe2..1b800d4 100644
--- a/library/convolution/semi_relaxed_convolution.hpp
+++ b/library/convolution/semi_relaxed_convolution.hpp
@@ -39,7 +39,7 @@ namespace suisen {
 
     private:
         convolution_type _convolve = [](const polynomial_type&, const polynomial_type&) -> polynomial_type { assert(false); };
-        int _n;
+        int _n = 0;
         polynomial_type _f, _g, _h;
 
         polynomial_type range_convolve(int l1, int r1, int l2, int r2) {
diff --git a/library/convolution/semi_relaxed_convolution_ntt.hpp b/library/convolution/semi_relaxed_convolution_ntt.hpp
index 15f832a..5da0e29 100644
--- a/library/convolution/semi_relaxed_convolution_ntt.hpp
+++ b/library/convolution/semi_relaxed_convolution_ntt.hpp
@@ -56,7 +56,7 @@ namespace suisen {
         }
 
     private:
-        int _n;
+        int _n = 0;
         std::vector<mint> _f, _g, _h;
 
         std::vector<std::vector<mint>> _f_fft;
-- 
2.43.0


From d961bf752e49f1438e20c1ce5101f551d75e6bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:46 +0000
Subject: [PATCH 110/169] fix: chirp_z_transform does not apply the powers of a
 twice for short inputs

---
 library/transform/chirp_z_transform.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/transform/chirp_z_transform.hpp b/library/transform/chirp_z_transform.hpp
index a610c94..71e16d7 100644
--- a/library/transform/chirp_z_transform.hpp
+++ b/library/transform/chirp_z_transform.hpp
@@ -45,7 +45,7 @@ namespace suisen {
             for (int k = 1; k < m; ++k) g[k] += f[0];
             return g;
         }
-        if (n < 60) return internal::chirp_z_transform_naive(f, a, r, m);
+        if (n < 60) return internal::chirp_z_transform_naive(f, T(1), r, m);
         const T r_inv = r.inv();
 
         const int l = n + m - 1;
-- 
2.43.0


From 902ab95469a21b733cb4bbbbb2cca2afed685e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:46 +0000
Subject: [PATCH 111/169] fix: SemiRelaxedConvolution with an empty fixed
 operand returns zeros

---
 library/convolution/semi_relaxed_convolution.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/convolution/semi_relaxed_convolution.hpp b/library/convolution/semi_relaxed_convolution.hpp
index 1b800d4..9b81465 100644
--- a/library/convolution/semi_relaxed_convolution.hpp
+++ b/library/convolution/semi_relaxed_convolution.hpp
@@ -27,6 +27,7 @@ namespace suisen {
                 add(l1 + l2, range_convolve(l1, r1, l2, r2));
                 if (p == (-_n & _n)) break;
             }
+            if (int(_h.size()) < _n) _h.resize(_n);
             return _h[_n - 1];
         }
 
-- 
2.43.0


From 655d77bc47d9a2f932e4222c78085aa51aefbf14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:20 +0000
Subject: [PATCH 112/169] fix: FPS::exp can be called on a const series

---
 library/polynomial/fps.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/polynomial/fps.hpp b/library/polynomial/fps.hpp
index 9568dfe..0ad5ef2 100644
--- a/library/polynomial/fps.hpp
+++ b/library/polynomial/fps.hpp
@@ -228,7 +228,7 @@ namespace suisen {
             return res.intg();
         }
         FPS& exp_inplace(int n = -1) { return *this = exp(n); }
-        FPS exp(int n = -1) {
+        FPS exp(int n = -1) const {
             assert(safe_get(0) == 0);
             if (n < 0) n = size();
             if (n < 60) return FPSNaive<mint>(cut_copy(n)).exp(n);
-- 
2.43.0


From 39039ee5ce4691cf25ff11390c744204425bddf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:20 +0000
Subject: [PATCH 113/169] fix: FPS::diff of an empty series does not write out
 of bounds

---
 library/polynomial/fps.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/polynomial/fps.hpp b/library/polynomial/fps.hpp
index 0ad5ef2..d4eaa3e 100644
--- a/library/polynomial/fps.hpp
+++ b/library/polynomial/fps.hpp
@@ -179,6 +179,7 @@ namespace suisen {
         /* Other Operations */
 
         FPS& diff_inplace() {
+            if (this->empty()) return *this;
             const int n = size();
             for (int i = 1; i < n; ++i) (*this)[i - 1] = (*this)[i] * i;
             return (*this)[n - 1] = 0, *this;
-- 
2.43.0


From 72931e3ac9471c54052d0961bbb1e2b36e2de598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:20 +0000
Subject: [PATCH 114/169] fix: FPS::prod of an empty list is 1

---
 library/polynomial/fps.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/polynomial/fps.hpp b/library/polynomial/fps.hpp
index d4eaa3e..222d4aa 100644
--- a/library/polynomial/fps.hpp
+++ b/library/polynomial/fps.hpp
@@ -293,6 +293,7 @@ namespace suisen {
         }
 
         static FPS prod(const std::vector<FPS>& fs) {
+            if (fs.empty()) return { 1 };
             auto comp = [](const FPS& f, const FPS& g) { return f.size() > g.size(); };
             std::priority_queue<FPS, std::vector<FPS>, decltype(comp)> pq{ comp };
             for (const auto& f : fs) pq.push(f);
-- 
2.43.0


From 6168b55d54800861e3711526f3b087775404f325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:20 +0000
Subject: [PATCH 115/169] fix: power series sqrt of a series whose root
 vanishes modulo x^n returns zero

---
 library/polynomial/formal_power_series.hpp | 1 +
 library/polynomial/fps.hpp                 | 1 +
 library/polynomial/fps_naive.hpp           | 1 +
 3 files changed, 3 insertions(+)

diff --git a/library/polynomial/formal_power_series.hpp b/library/polynomial/formal_power_series.hpp
index b829524..f21b182 100644
--- a/library/polynomial/formal_power_series.hpp
+++ b/library/polynomial/formal_power_series.hpp
@@ -326,6 +326,7 @@ namespace suisen {
             if (tlz == size()) return FormalPowerSeries(n, 0);
             if (tlz & 1) return std::nullopt;
             const int m = n - tlz / 2;
+            if (m <= 0) return FormalPowerSeries(n, 0);
 
             FormalPowerSeries h(this->begin() + tlz, this->end());
             auto q0 = ::safe_sqrt(h[0]);
diff --git a/library/polynomial/fps.hpp b/library/polynomial/fps.hpp
index 222d4aa..ae68bbd 100644
--- a/library/polynomial/fps.hpp
+++ b/library/polynomial/fps.hpp
@@ -266,6 +266,7 @@ namespace suisen {
             if (tlz == size()) return FPS(n, 0);
             if (tlz & 1) return std::nullopt;
             const int m = n - tlz / 2;
+            if (m <= 0) return FPS(n, 0);
 
             FPS h(this->begin() + tlz, this->end());
             auto q0 = ::safe_sqrt(h[0]);
diff --git a/library/polynomial/fps_naive.hpp b/library/polynomial/fps_naive.hpp
index bf85b6b..9a9313e 100644
--- a/library/polynomial/fps_naive.hpp
+++ b/library/polynomial/fps_naive.hpp
@@ -234,6 +234,7 @@ namespace suisen {
             if (dl & 1) return std::nullopt;
 
             const int m = n - dl / 2;
+            if (m <= 0) return FPSNaive(n, 0);
 
             FPSNaive g(m);
             auto opt_g0 = ::safe_sqrt((*this)[dl]);
-- 
2.43.0


From 9a5023e635a6003cc6b3ac409984fcce35ffddc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:20 +0000
Subject: [PATCH 116/169] fix: VecSparseFPS negation, product and bostan_mori
 can be instantiated

---
 library/polynomial/vec_sparse_fps.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/library/polynomial/vec_sparse_fps.hpp b/library/polynomial/vec_sparse_fps.hpp
index d0e622a..43c4732 100644
--- a/library/polynomial/vec_sparse_fps.hpp
+++ b/library/polynomial/vec_sparse_fps.hpp
@@ -35,7 +35,7 @@ namespace suisen {
         VecSparseFPS operator-() const {
             VecSparseFPS res;
             for (const auto &[i, f] : _f) {
-                auto &back = res._f.emplace_back(i, {});
+                auto &back = res._f.emplace_back(i, std::vector<value_type>{});
                 for (const auto &v : f) back.second.push_back(-v);
             }
             return res;
@@ -63,7 +63,7 @@ namespace suisen {
             std::sort(data.begin(), data.end(), [](auto &p1, auto &p2) { return p1.first < p2.first; });
             VecSparseFPS h;
             for (auto &[i, a] : data) {
-                h.add_to_last(i, std::move(a));
+                h.add_to_last({ i, std::move(a) });
             }
             return h;
         }
@@ -116,7 +116,7 @@ namespace suisen {
 
         static value_type bostan_mori(VecSparseFPS P, std::vector<value_type> Q, long long m) {
             for (; m; m >>= 1) {
-                std::vector<mint> mQ = Q;
+                std::vector<value_type> mQ = Q;
                 for (int i = 1; i < int(Q.size()); i += 2) mQ[i] = -mQ[i];
                 auto nP = P * mQ;
                 P.clear();
-- 
2.43.0


From e44bb323c7238d800a1799f12e3d9e786239f531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:20 +0000
Subject: [PATCH 117/169] fix: VecSparseFPS addition does not drop the tail of
 the longer operand

---
 library/polynomial/vec_sparse_fps.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/polynomial/vec_sparse_fps.hpp b/library/polynomial/vec_sparse_fps.hpp
index 43c4732..5443121 100644
--- a/library/polynomial/vec_sparse_fps.hpp
+++ b/library/polynomial/vec_sparse_fps.hpp
@@ -43,7 +43,7 @@ namespace suisen {
         friend VecSparseFPS operator+(const VecSparseFPS &f, const VecSparseFPS &g) {
             const int n = f._f.size(), m = g._f.size();
             VecSparseFPS h;
-            for (int i = 0, j = 0; i < n and j < m;) {
+            for (int i = 0, j = 0; i < n or j < m;) {
                 if (j == m or (i < n and f._f[i].first < g._f[j].first)) {
                     h.add_to_last(f._f[i++]);
                 } else {
-- 
2.43.0


From 13b7e12bc9171d443dc0b02e01befda4a53dd1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:21 +0000
Subject: [PATCH 118/169] fix: VecSparseFPS::bostan_mori divides by the
 constant term of the denominator

---
 library/polynomial/vec_sparse_fps.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/polynomial/vec_sparse_fps.hpp b/library/polynomial/vec_sparse_fps.hpp
index 5443121..4aab54b 100644
--- a/library/polynomial/vec_sparse_fps.hpp
+++ b/library/polynomial/vec_sparse_fps.hpp
@@ -128,7 +128,7 @@ namespace suisen {
                 Q.clear();
                 for (int i = 0; i < int(nQ.size()); i += 2) Q.push_back(nQ[i]);
             }
-            return P[0];
+            return P[0] / Q[0];
         }
 
     private:
-- 
2.43.0


From e7c0bcc39793c0b1e88315a671823105e5abfb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:21 +0000
Subject: [PATCH 119/169] fix: ArrayFPSNaive::sqrt does not read past the end
 of the coefficients

---
 library/polynomial/array_fps_naive.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/polynomial/array_fps_naive.hpp b/library/polynomial/array_fps_naive.hpp
index cfd34e4..92b9c3e 100644
--- a/library/polynomial/array_fps_naive.hpp
+++ b/library/polynomial/array_fps_naive.hpp
@@ -183,7 +183,7 @@ namespace suisen {
             g[bg] = ::sqrt((*this)[bf]);
             value_type inv_2g0 = ::inv(2 * g[bg]);
             for (int i = 1; i <= d; ++i) {
-                g[bg + i] = (*this)[bf + i];
+                if (bf + i <= DEG) g[bg + i] = (*this)[bf + i];
                 for (int j = 1; j < i; ++j) g[bg + i] -= g[bg + j] * g[bg + i - j];
                 g[bg + i] *= inv_2g0;
             }
-- 
2.43.0


From 32dae3bf8647c547ff2f153ee74e827b64e00437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:06 +0000
Subject: [PATCH 120/169] fix: polynomial_inv and polynomial_gcd can be
 instantiated

---
 library/polynomial/polynomial_gcd.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/library/polynomial/polynomial_gcd.hpp b/library/polynomial/polynomial_gcd.hpp
index 857b1d3..bb0d3f1 100644
--- a/library/polynomial/polynomial_gcd.hpp
+++ b/library/polynomial/polynomial_gcd.hpp
@@ -87,15 +87,15 @@ namespace suisen {
     }
     // @return x s.t. ax=1 (mod m)
     template <typename Polynomial>
-    std::pair<Polynomial, Polynomial> polynomial_inv(const Polynomial &a, const Polynomial &m) {
+    Polynomial polynomial_inv(const Polynomial &a, const Polynomial &m) {
         auto [x, _, g] = polynomial_ext_gcd(a, m);
         assert(g == Polynomial{1});
         return x;
     }
     // @return gcd(a,b) (monic)
     template <typename Polynomial>
-    std::tuple<Polynomial, Polynomial, Polynomial> polynomial_gcd(const Polynomial &a, const Polynomial &b) {
-        return std::get<2>(ext_gcd(a, b));
+    Polynomial polynomial_gcd(const Polynomial &a, const Polynomial &b) {
+        return std::get<2>(polynomial_ext_gcd(a, b));
     }
 } // namespace suisen
 
-- 
2.43.0


From 23f976b07c7bd9d1d8bdef8cbd94a88b02b051c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:50 +0000
Subject: [PATCH 121/169] fix: compose truncates an inner series longer than n
 before the cyclic products

---
 library/polynomial/compose.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/polynomial/compose.hpp b/library/polynomial/compose.hpp
index 9328da2..9d8d2e7 100644
--- a/library/polynomial/compose.hpp
+++ b/library/polynomial/compose.hpp
@@ -50,6 +50,7 @@ namespace suisen {
         const mint iz = mint(z).inv();
 
         g.erase(g.begin());
+        g.resize(n);
         g.resize(z);
         atcoder::internal::butterfly(g);
 
-- 
2.43.0


From f06cb003cc6b268ec7196eec6a08f92e5f610e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:50 +0000
Subject: [PATCH 122/169] fix: RationalFPS::sum of an empty list is zero
 (compose_exp of an empty polynomial)

---
 library/polynomial/rational_fps.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/polynomial/rational_fps.hpp b/library/polynomial/rational_fps.hpp
index 20be22f..dae09a2 100644
--- a/library/polynomial/rational_fps.hpp
+++ b/library/polynomial/rational_fps.hpp
@@ -73,6 +73,7 @@ namespace suisen {
         }
 
         static RationalFPS<FPSType> sum(const std::vector<RationalFPS<FPSType>>& fs) {
+            if (fs.empty()) return {};
             auto comp = [](const RationalFPS<FPSType>& f, const RationalFPS<FPSType>& g) {
                 return f.den.size() > g.den.size();
             };
-- 
2.43.0


From e7322d5d469dc595772f38b12735645d24840352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:50 +0000
Subject: [PATCH 123/169] fix: product_of_differences of no points is empty

---
 library/math/product_of_differences.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/math/product_of_differences.hpp b/library/math/product_of_differences.hpp
index c247a3a..0b44604 100644
--- a/library/math/product_of_differences.hpp
+++ b/library/math/product_of_differences.hpp
@@ -15,6 +15,7 @@ namespace suisen {
         // => f'(x)=Σ_i Π[j!=i](x-x[j])
         // => f'(x[i])=Π[j!=i](x[i]-x[j])
         const int n = xs.size();
+        if (n == 0) return {};
         std::deque<FPSType> dq;
         for (int i = 0; i < n; ++i) dq.push_back(FPSType{ -xs[i], 1 });
         while (dq.size() >= 2) {
-- 
2.43.0


From b2303f45fffe687d0fde831925a70b3f294de16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:25 +0000
Subject: [PATCH 124/169] fix: prod_f_rk_x does not overflow int for m near
 2^31

---
 library/polynomial/prod_f(r^k_x).hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/polynomial/prod_f(r^k_x).hpp b/library/polynomial/prod_f(r^k_x).hpp
index 7b9914d..f2a3a0d 100644
--- a/library/polynomial/prod_f(r^k_x).hpp
+++ b/library/polynomial/prod_f(r^k_x).hpp
@@ -58,7 +58,7 @@ namespace suisen {
         if (m == 0) { FPSType res{ 1 }; res.resize(result_size); return res; }
         int z = 0;
         while (z < int(f.size()) and f[z] == mint{ 0 }) ++z;
-        if (z == int(f.size()) or z >= (result_size + m - 1) / m) return FPSType(result_size, mint{ 0 });
+        if (z == int(f.size()) or z >= ((long long) result_size + m - 1) / m) return FPSType(result_size, mint{ 0 });
         const mint c = f[z], d = c.pow(m) * r.pow((long long) m * (m - 1) / 2 * z);
         f >>= z, f /= c; // => f[0] = 1
         f = internal::prod_f_rk_x::prod_f_rk_x(f, r, m, result_size - z * m);
-- 
2.43.0


From c2c4cdd39a9bfb6784db6f2f1d7e78c7d544c581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:50 +0000
Subject: [PATCH 125/169] fix: ArrayMatrix division by a matrix can be
 instantiated

---
 library/linear_algebra/array_matrix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/linear_algebra/array_matrix.hpp b/library/linear_algebra/array_matrix.hpp
index 9e3092c..0472885 100644
--- a/library/linear_algebra/array_matrix.hpp
+++ b/library/linear_algebra/array_matrix.hpp
@@ -71,7 +71,7 @@ namespace suisen {
             for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < M; ++j) A[i][j] = _mul(A[i][j], val);
             return A;
         }
-        friend ArrayMatrix& operator/=(ArrayMatrix& A, const ArrayMatrix& B) { static_assert(is_square_v<>); return A *= *B.inv(); }
+        friend ArrayMatrix& operator/=(ArrayMatrix& A, const ArrayMatrix& B) { static_assert(is_square_v<>); return A *= B.inv(); }
         friend ArrayMatrix& operator/=(ArrayMatrix& A, const T& val) { return A *= _inv(val); }
 
         friend ArrayMatrix operator+(ArrayMatrix A, const ArrayMatrix& B) { A += B; return A; }
@@ -98,7 +98,7 @@ namespace suisen {
         }
         friend ArrayMatrix operator/(ArrayMatrix A, const ArrayMatrix& B) { static_assert(is_square_v<>); return A * B.inv(); }
         friend ArrayMatrix operator/(ArrayMatrix A, const T& val) { A /= val; return A; }
-        friend ArrayMatrix operator/(const T& val, ArrayMatrix A) { return A.inv() *= val; }
+        friend ArrayMatrix operator/(const T& val, ArrayMatrix A) { return A.inv() * val; }
 
         ArrayMatrix pow(long long b) const {
             static_assert(is_square_v<>);
-- 
2.43.0


From bcc8c2279c754d671da12e1b7df8470078c2d41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:50 +0000
Subject: [PATCH 126/169] fix: MatrixF2::rank does not read past the last row
 of a full-rank matrix

---
 library/linear_algebra/matrix_f2.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/linear_algebra/matrix_f2.hpp b/library/linear_algebra/matrix_f2.hpp
index 1c568de..1069f1d 100644
--- a/library/linear_algebra/matrix_f2.hpp
+++ b/library/linear_algebra/matrix_f2.hpp
@@ -119,7 +119,7 @@ namespace suisen {
         std::size_t rank() const {
             MatrixF2 A = *this;
             std::size_t r = 0;
-            for (std::size_t j = 0; j < m; ++j) {
+            for (std::size_t j = 0; r < n and j < m; ++j) {
                 for (std::size_t i = r + 1; i < n; ++i) if (A[i][j]) {
                     std::swap(A[r], A[i]);
                     if (A[i][j]) A[i] ^= A[r];
-- 
2.43.0


From 25f98e23cc6db426c00da94663680f17fd8aba07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:50 +0000
Subject: [PATCH 127/169] fix: gaussian_elimination_f2 returns the whole
 solution space when the rank reaches the number of rows early

---
 library/linear_algebra/gaussian_elimination_f2.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/library/linear_algebra/gaussian_elimination_f2.hpp b/library/linear_algebra/gaussian_elimination_f2.hpp
index 5ca8287..736b6a6 100644
--- a/library/linear_algebra/gaussian_elimination_f2.hpp
+++ b/library/linear_algebra/gaussian_elimination_f2.hpp
@@ -65,7 +65,11 @@ namespace suisen {
 
         std::vector<std::size_t> ones, zeros;
         std::size_t rank = 0;
-        for (std::size_t j = 0; rank < n and j < m; ++j) {
+        for (std::size_t j = 0; j < m; ++j) {
+            if (rank == n) {
+                zeros.push_back(j);
+                continue;
+            }
             for (std::size_t i = rank + 1; i < n; ++i) if (A[i][j]) {
                 std::swap(A[rank], A[i]);
                 if (A[i][j]) A[i] ^= A[rank];
-- 
2.43.0


From a9481e9208745d777d104301af44036e53e6a38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:50 +0000
Subject: [PATCH 128/169] fix: SolutionSpace::normalized and operator& do not
 abort

---
 library/linear_algebra/gaussian_elimination_f2.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/library/linear_algebra/gaussian_elimination_f2.hpp b/library/linear_algebra/gaussian_elimination_f2.hpp
index 736b6a6..e1353e9 100644
--- a/library/linear_algebra/gaussian_elimination_f2.hpp
+++ b/library/linear_algebra/gaussian_elimination_f2.hpp
@@ -15,8 +15,8 @@ namespace suisen {
 
         SolutionSpace normalized() {
             SolutionSpace res{ _solution };
-            res += *this;
             res._normalized = true;
+            res += *this;
             return res;
         }
         void normalize() {
@@ -44,6 +44,7 @@ namespace suisen {
             std::vector<std::pair<DynamicBitSet, DynamicBitSet>> basis;
             for (const DynamicBitSet& e : s._basis) basis.emplace_back(e, e);
             SolutionSpace res;
+            res._normalized = true;
             for (DynamicBitSet e : t._basis) {
                 DynamicBitSet s(e.size());
                 for (const auto& [v, t] : basis) if (DynamicBitSet w = e ^ v; w < e) e = std::move(w), s ^= t;
-- 
2.43.0


From 72942987268de0d2c812ccf0566da420f7ca2699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:25:50 +0000
Subject: [PATCH 129/169] fix: hafnian of the empty matrix is 1

---
 library/linear_algebra/hafnian.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/linear_algebra/hafnian.hpp b/library/linear_algebra/hafnian.hpp
index bed08dc..72d8831 100644
--- a/library/linear_algebra/hafnian.hpp
+++ b/library/linear_algebra/hafnian.hpp
@@ -8,6 +8,7 @@ namespace suisen {
     T hafnian(const std::vector<std::vector<U>>& mat) {
         const int n = mat.size();
         assert(n % 2 == 0);
+        if (n == 0) return 1;
 
         using ZetaSPS = typename SetPowerSeries<T>::ZetaSPS;
 
-- 
2.43.0


From d71acff4affb19bd205d5f3f158d52e6edec7913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:12 +0000
Subject: [PATCH 130/169] fix: bell_number computes B_n as well (exp modulo
 x^(n+1))

---
 library/sequence/bell_number.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/sequence/bell_number.hpp b/library/sequence/bell_number.hpp
index 54f70ee..4b36e78 100644
--- a/library/sequence/bell_number.hpp
+++ b/library/sequence/bell_number.hpp
@@ -18,7 +18,7 @@ namespace suisen {
         factorial<mint> fac(n);
         FPSType f(n + 1);
         for (int i = 1; i <= n; ++i) f[i] = fac.fac_inv(i);
-        f.exp_inplace(n);
+        f.exp_inplace(n + 1);
         for (int i = 0; i <= n; ++i) f[i] *= fac.fac(i);
         return f;
     }
-- 
2.43.0


From ced59d61bf417214792b2ef72ff8a390901d231c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:12 +0000
Subject: [PATCH 131/169] fix: binomial_coefficient_small_r_offline accepts
 queries that all have r = 0

---
 library/sequence/binomial_coefficient_small_r_offline.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/sequence/binomial_coefficient_small_r_offline.hpp b/library/sequence/binomial_coefficient_small_r_offline.hpp
index e8e6f25..ba60c6b 100644
--- a/library/sequence/binomial_coefficient_small_r_offline.hpp
+++ b/library/sequence/binomial_coefficient_small_r_offline.hpp
@@ -112,6 +112,7 @@ namespace suisen {
 
             // S1[i][j] = S1[2^i,j] for 0<=i<t, 0<=j<=2^i
             std::vector<Polynomial<mint>> S1(t);
+            if (t == 0) return S1;
             S1[0] = { 1, 0 };
 
             for (int l = 0; l < t - 1; ++l) {
-- 
2.43.0


From 940881eb51f8709ee28685261a8dea8084697bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:58 +0000
Subject: [PATCH 132/169] fix: unsigned_bigint read from text is zero /
 normalised when the text has leading zeros

---
 library/math/unsigned_bigint.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/math/unsigned_bigint.hpp b/library/math/unsigned_bigint.hpp
index 911de2c..daab1eb 100644
--- a/library/math/unsigned_bigint.hpp
+++ b/library/math/unsigned_bigint.hpp
@@ -39,6 +39,7 @@ namespace suisen {
                     v = v * 10 + d;
                 }
             }
+            _cut_leading_zeros();
         }
         unsigned_bigint(const char* s) : unsigned_bigint(std::string(s)) {}
 
-- 
2.43.0


From 16a1a7945d850bf570aa9896c906c555b189303f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:17 +0000
Subject: [PATCH 133/169] fix: bigint can be constructed from the minimum of a
 signed type

---
 library/math/bigint.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/library/math/bigint.hpp b/library/math/bigint.hpp
index b51778f..25acab0 100644
--- a/library/math/bigint.hpp
+++ b/library/math/bigint.hpp
@@ -16,7 +16,9 @@ namespace suisen {
             if constexpr (std::is_signed_v<T>) {
                 if (v < 0) {
                     _neg = true;
-                    v = -v;
+                    using unsigned_t = std::make_unsigned_t<T>;
+                    _dat = unsigned_bigint(static_cast<unsigned_t>(-static_cast<unsigned_t>(v)));
+                    return;
                 }
             }
             _dat = unsigned_bigint(v);
-- 
2.43.0


From e8207d39ed6045f41c3342177cdffcd0e47405f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:48 +0000
Subject: [PATCH 134/169] fix: unsigned_bigint(size_t) is the number, not that
 many zero limbs

---
 library/math/unsigned_bigint.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/math/unsigned_bigint.hpp b/library/math/unsigned_bigint.hpp
index daab1eb..8bca994 100644
--- a/library/math/unsigned_bigint.hpp
+++ b/library/math/unsigned_bigint.hpp
@@ -195,7 +195,7 @@ namespace suisen {
             return out << v._to_string();
         }
     private:
-        using std::vector<int>::vector;
+        unsigned_bigint(const_iterator first, const_iterator last) : vector(first, last) {}
 
         void _check_leading_zeros() const {
             assert(this->empty() or this->back());
-- 
2.43.0


From dd5856bd7c0a5898142dc35da261f4def9ca18e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:10 +0000
Subject: [PATCH 135/169] fix: convolution_naive of empty sequences is empty (0
 * 0 of unsigned_bigint)

---
 library/convolution/convolution_naive.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/convolution/convolution_naive.hpp b/library/convolution/convolution_naive.hpp
index 7c3f049..8593bf0 100644
--- a/library/convolution/convolution_naive.hpp
+++ b/library/convolution/convolution_naive.hpp
@@ -7,6 +7,7 @@ namespace suisen::internal {
     template <typename T, typename R = T>
     std::vector<R> convolution_naive(const std::vector<T>& a, const std::vector<T>& b) {
         const int n = a.size(), m = b.size();
+        if (n == 0 or m == 0) return {};
         std::vector<R> c(n + m - 1);
         if (n < m) {
             for (int j = 0; j < m; j++) for (int i = 0; i < n; i++) c[i + j] += R(a[i]) * b[j];
-- 
2.43.0


From 95b4ef0ec85a1f099dfe86b2dbb06ce5ed601092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:33 +0000
Subject: [PATCH 136/169] fix: unsigned_bigint long division keeps its running
 remainder free of leading zeros

---
 library/math/unsigned_bigint.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/math/unsigned_bigint.hpp b/library/math/unsigned_bigint.hpp
index 8bca994..55e306a 100644
--- a/library/math/unsigned_bigint.hpp
+++ b/library/math/unsigned_bigint.hpp
@@ -398,6 +398,7 @@ namespace suisen {
                 }
                 if (i) {
                     r.insert(r.begin(), a[i - 1]);
+                    r._cut_leading_zeros();
                 }
             }
             std::reverse(q.begin(), q.end());
-- 
2.43.0


From 56b86edaf1a6b4b30505415f0bf2f4fb5ad289a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:14 +0000
Subject: [PATCH 137/169] fix: unsigned_bigint division by a divisor of D^k
 (Newton step from an exact reciprocal)

---
 library/math/unsigned_bigint.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/library/math/unsigned_bigint.hpp b/library/math/unsigned_bigint.hpp
index 55e306a..3f09389 100644
--- a/library/math/unsigned_bigint.hpp
+++ b/library/math/unsigned_bigint.hpp
@@ -436,7 +436,8 @@ namespace suisen {
                         carry = 0;
                     }
                 }
-                ++bc[k];
+                // bc[k] = 1 if and only if bc = D^k
+                bc[k] = 1 - bc[k] + carry;
                 c *= bc;
                 c.erase(c.begin(), c.begin() + dB);
                 bc = b * c;
-- 
2.43.0


From 1c2620c85f703232a1e3a9062c0d0bc480d4eb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:39 +0000
Subject: [PATCH 138/169] fix: sum_i_i_pow_d_r_pow_i::sum(t, m) can be
 instantiated and starts from r^t

---
 library/math/sum_i^d_r^i.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/math/sum_i^d_r^i.hpp b/library/math/sum_i^d_r^i.hpp
index 7d1c14a..4909793 100644
--- a/library/math/sum_i^d_r^i.hpp
+++ b/library/math/sum_i^d_r^i.hpp
@@ -29,7 +29,7 @@ namespace suisen {
             }
             prepare();
             auto res = shift_of_sampling_points<mint>(ys, t, m);
-            mint pr = r.pow(r);
+            mint pr = r.pow(t);
             for (auto &e : res) e *= pr, e += c, pr *= r;
             return res;
         }
-- 
2.43.0


From 19701c1e78390d4f97d0a77e87eb83ae5b00f680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:07 +0000
Subject: [PATCH 139/169] fix: factorial does not grow its table past a small
 prime modulus by itself

---
 library/math/factorial.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/library/math/factorial.hpp b/library/math/factorial.hpp
index 92dae7f..d259220 100644
--- a/library/math/factorial.hpp
+++ b/library/math/factorial.hpp
@@ -16,6 +16,9 @@ namespace suisen {
             int new_size = std::max(n + 1, sz * 2);
             _fac.resize(new_size), _fac_inv.resize(new_size);
             for (int i = sz; i < new_size; ++i) _fac[i] = _fac[i - 1] * i;
+            // do not grow past a small modulus unless requested
+            while (new_size > n + 1 and _fac[new_size - 1] == T(0)) --new_size;
+            _fac.resize(new_size), _fac_inv.resize(new_size);
             _fac_inv[new_size - 1] = U(1) / _fac[new_size - 1];
             for (int i = new_size - 1; i > sz; --i) _fac_inv[i - 1] = _fac_inv[i] * i;
         }
-- 
2.43.0


From 4e3828a665062977f8837a23e549c76bab0efa0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:35 +0000
Subject: [PATCH 140/169] fix: safe_sqrt does not remember the modulus of the
 first call (dynamic_modint)

---
 library/math/modint_extension.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/math/modint_extension.hpp b/library/math/modint_extension.hpp
index 3efc099..c9a550e 100644
--- a/library/math/modint_extension.hpp
+++ b/library/math/modint_extension.hpp
@@ -10,13 +10,13 @@
  */
 template <typename mint>
 std::optional<mint> safe_sqrt(mint a) {
-    static int p = mint::mod();
+    const int p = mint::mod();
     if (a == 0) return std::make_optional(0);
     if (p == 2) return std::make_optional(a);
     if (a.pow((p - 1) / 2) != 1) return std::nullopt;
     mint b = 1;
     while (b.pow((p - 1) / 2) == 1) ++b;
-    static int tlz = __builtin_ctz(p - 1), q = (p - 1) >> tlz;
+    const int tlz = __builtin_ctz(p - 1), q = (p - 1) >> tlz;
     mint x = a.pow((q + 1) / 2);
     b = b.pow(q);
     for (int shift = 2; x * x != a; ++shift) {
-- 
2.43.0


From 505a090cb52511ed9525bd8bbfca00533cfa2345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:10 +0000
Subject: [PATCH 141/169] fix: Affine and AffineClamp are read with >> and
 written with <<

---
 library/algebra/monoid/affine.hpp       | 4 ++--
 library/algebra/monoid/affine_clamp.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/library/algebra/monoid/affine.hpp b/library/algebra/monoid/affine.hpp
index 7970dce..178d9a9 100644
--- a/library/algebra/monoid/affine.hpp
+++ b/library/algebra/monoid/affine.hpp
@@ -49,8 +49,8 @@ namespace suisen {
         template <typename U = T, typename V = T>
         operator std::tuple<U, V>() { return std::tuple<U, V>{ a, b }; }
 
-        friend std::istream& operator<<(std::istream& in, Affine<T> &f) { return in >> f.a >> f.b; }
-        friend std::ostream& operator>>(std::ostream& out, const Affine<T> &f) { return out << f.a << ' ' << f.b; }
+        friend std::istream& operator>>(std::istream& in, Affine<T> &f) { return in >> f.a >> f.b; }
+        friend std::ostream& operator<<(std::ostream& out, const Affine<T> &f) { return out << f.a << ' ' << f.b; }
     };
 } // namespace suisen
 
diff --git a/library/algebra/monoid/affine_clamp.hpp b/library/algebra/monoid/affine_clamp.hpp
index bb6d5b5..183acf8 100644
--- a/library/algebra/monoid/affine_clamp.hpp
+++ b/library/algebra/monoid/affine_clamp.hpp
@@ -32,8 +32,8 @@ namespace suisen {
         template <typename U = T, typename V = T, typename W = T, typename X = T>
         operator std::tuple<U, V, W, X>() { return { this->a, this->b, l, r }; }
 
-        friend std::istream& operator<<(std::istream& in, AffineClamp<T>& f) { return in >> f.a >> f.b >> f.l >> f.r; }
-        friend std::ostream& operator>>(std::ostream& out, const AffineClamp<T>& f) { return out << f.a << ' ' << f.b << ' ' << f.l << ' ' << f.r; }
+        friend std::istream& operator>>(std::istream& in, AffineClamp<T>& f) { return in >> f.a >> f.b >> f.l >> f.r; }
+        friend std::ostream& operator<<(std::ostream& out, const AffineClamp<T>& f) { return out << f.a << ' ' << f.b << ' ' << f.l << ' ' << f.r; }
     };
 } // namespace suisen
 
-- 
2.43.0


From 9bdf4176e14824a1ecc9eb2dfed34b725e38f575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:23 +0000
Subject: [PATCH 142/169] fix: integral Ray equality distinguishes opposite
 directions

---
 library/integral_geom/geometry.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/integral_geom/geometry.hpp b/library/integral_geom/geometry.hpp
index a3d7a92..6c14287 100644
--- a/library/integral_geom/geometry.hpp
+++ b/library/integral_geom/geometry.hpp
@@ -123,7 +123,7 @@ namespace suisen::integral_geometry {
         return on_the_same_line(l, m);
     }
     bool operator==(const Ray& l, const Ray& m) {
-        return on_the_same_line(l, m) and l.a == m.a;
+        return on_the_same_line(l, m) and l.a == m.a and dot(l.b - l.a, m.b - m.a) > 0;
     }
     bool operator==(const Segment& l, const Segment& m) {
         return (l.a == m.a and l.b == m.b) or (l.a == m.b and l.b == m.a);
-- 
2.43.0


From 7fda816e51187303698bb1466f693069f4ef6a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:23 +0000
Subject: [PATCH 143/169] fix: integral geometry keeps products in multiplied_t
 (isp, areas, contains, circles, diameter)

---
 library/integral_geom/geometry.hpp | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/library/integral_geom/geometry.hpp b/library/integral_geom/geometry.hpp
index 6c14287..fb55e2f 100644
--- a/library/integral_geom/geometry.hpp
+++ b/library/integral_geom/geometry.hpp
@@ -35,7 +35,7 @@ namespace suisen::integral_geometry {
     // https://judge.u-aizu.ac.jp/onlinejudge/description.jsp?id=CGL_1_C
     int isp(const Point& a, const Point& b, const Point& c) {
         Point ab = b - a, ac = c - a;
-        coordinate_t det_ab_ac = det(ab, ac);
+        multiplied_t det_ab_ac = det(ab, ac);
         if (det_ab_ac > 0) return ISP::L_CURVE;
         if (det_ab_ac < 0) return ISP::R_CURVE;
         if (dot(ab, ac) < 0) return ISP::BACK;
@@ -67,10 +67,10 @@ namespace suisen::integral_geometry {
 
     // Triangle
 
-    coordinate_t signed_area_doubled(const Point& a, const Point& b, const Point& c) {
+    multiplied_t signed_area_doubled(const Point& a, const Point& b, const Point& c) {
         return det(b - a, c - a);
     }
-    coordinate_t area_doubled(const Point& a, const Point& b, const Point& c) {
+    multiplied_t area_doubled(const Point& a, const Point& b, const Point& c) {
         return std::abs(signed_area_doubled(a, b, c));
     }
 
@@ -93,7 +93,7 @@ namespace suisen::integral_geometry {
 
     Inclusion contains(const Line& l, const Point& p) {
         if (l.a.x == l.b.x) return p.x == l.a.x ? Inclusion::ON : Inclusion::OUT;
-        coordinate_t a = p.x - l.a.x, b = p.y - l.a.y, c = l.b.x - p.x, d = l.b.y - p.y;
+        multiplied_t a = p.x - l.a.x, b = p.y - l.a.y, c = l.b.x - p.x, d = l.b.y - p.y;
         return b * c == a * d ? Inclusion::ON : Inclusion::OUT;
     }
     Inclusion contains(const Ray& l, const Point& p) {
@@ -143,8 +143,8 @@ namespace suisen::integral_geometry {
     using Polygon = std::vector<Point>;
 
     // https://judge.u-aizu.ac.jp/onlinejudge/description.jsp?id=CGL_3_A
-    coordinate_t signed_area_doubled(const Polygon& poly) {
-        coordinate_t res = 0;
+    multiplied_t signed_area_doubled(const Polygon& poly) {
+        multiplied_t res = 0;
         int sz = poly.size();
         for (int i = 0; i < sz; ++i) {
             int j = i + 1;
@@ -154,7 +154,7 @@ namespace suisen::integral_geometry {
         return res;
     }
     // https://judge.u-aizu.ac.jp/onlinejudge/description.jsp?id=CGL_3_A
-    coordinate_t area_doubled(const Polygon& poly) {
+    multiplied_t area_doubled(const Polygon& poly) {
         return std::abs(signed_area_doubled(poly));
     }
     // https://judge.u-aizu.ac.jp/onlinejudge/description.jsp?id=CGL_3_B
@@ -196,7 +196,7 @@ namespace suisen::integral_geometry {
             auto [it_min, it_max] = std::minmax_element(convex.begin(), convex.end(), XY_COMPARATOR);
             return std::pair<int, int> { it_min - convex.begin(), it_max - convex.begin() };
         }();
-        coordinate_t max_dist = -1;
+        multiplied_t max_dist = -1;
         std::pair<int, int> argmax{ -1, -1 };
         for (int i = si, j = sj; i != sj or j != si;) {
             if (multiplied_t dij = square_abs(convex[j] - convex[i]); dij > max_dist) max_dist = dij, argmax = { i, j };
@@ -211,13 +211,13 @@ namespace suisen::integral_geometry {
 
     // https://judge.u-aizu.ac.jp/onlinejudge/description.jsp?id=CGL_7_A
     int tangent_num(const Circle& c1, const Circle& c2) {
-        coordinate_t r1 = c1.radius, r2 = c2.radius;
+        multiplied_t r1 = c1.radius, r2 = c2.radius;
         if (r1 > r2) return tangent_num(c2, c1);
-        coordinate_t d2 = square_abs(c1.center - c2.center);
-        coordinate_t dp = d2 - (r1 + r2) * (r1 + r2);
+        multiplied_t d2 = square_abs(c1.center - c2.center);
+        multiplied_t dp = d2 - (r1 + r2) * (r1 + r2);
         if (dp > 0) return 4;
         if (dp == 0) return 3;
-        coordinate_t dn = d2 - (r2 - r1) * (r2 - r1);
+        multiplied_t dn = d2 - (r2 - r1) * (r2 - r1);
         if (dn > 0) return 2;
         if (dn == 0) return 1;
         return 0;
@@ -231,7 +231,7 @@ namespace suisen::integral_geometry {
     }
 
     Inclusion contains(const Circle& c, const Point& p) {
-        coordinate_t df = square_abs(c.center - p) - c.radius * c.radius;
+        multiplied_t df = square_abs(c.center - p) - multiplied_t(c.radius) * c.radius;
         if (df > 0) return Inclusion::OUT;
         if (df < 0) return Inclusion::IN;
         return Inclusion::ON;
-- 
2.43.0


From 1a9a5a9bc4fd8895a1a4339b27a96a0b4b720480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:57 +0000
Subject: [PATCH 144/169] fix: count_lattice_points does not depend on the
 orientation of the polygon

---
 library/integral_geom/count_lattice_point.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/integral_geom/count_lattice_point.hpp b/library/integral_geom/count_lattice_point.hpp
index 8fa4874..7449cf5 100644
--- a/library/integral_geom/count_lattice_point.hpp
+++ b/library/integral_geom/count_lattice_point.hpp
@@ -17,7 +17,7 @@ namespace suisen::integral_geometry {
             s += MultipliedType(x1) * y2 - MultipliedType(y1) * x2;
             b += std::abs(std::gcd(x2 - x1, y2 - y1));
         }
-        return (s + 2 + b) / 2;
+        return ((s < 0 ? -s : s) + 2 + b) / 2;
     }
 } // namespace suisen::integral_geometry
 
-- 
2.43.0


From 1bcfb1650fb95b4646a1adf4794a5c01bcc5bd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:57 +0000
Subject: [PATCH 145/169] fix: integral convex_hull of no points is empty

---
 library/integral_geom/convex_hull.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/integral_geom/convex_hull.hpp b/library/integral_geom/convex_hull.hpp
index d15556f..1551a03 100644
--- a/library/integral_geom/convex_hull.hpp
+++ b/library/integral_geom/convex_hull.hpp
@@ -9,6 +9,7 @@ namespace suisen::integral_geometry {
     template <typename PointType, typename MultipliedType = long long>
     std::vector<int> convex_hull(const std::vector<PointType> &points) {
         const int n = points.size();
+        if (n == 0) return {};
         std::vector<int> sorted(n);
         std::iota(sorted.begin(), sorted.end(), 0);
         std::sort(sorted.begin(), sorted.end(), [&points](int i, int j) {
-- 
2.43.0


From 436e5627c47db407425ea7b0ad38a71ad06cc51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:57 +0000
Subject: [PATCH 146/169] fix: compare_by_atan2 is irreflexive on the origin

---
 library/integral_geom/sort_points_by_argument.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/integral_geom/sort_points_by_argument.hpp b/library/integral_geom/sort_points_by_argument.hpp
index c6eb062..b5c4e2c 100644
--- a/library/integral_geom/sort_points_by_argument.hpp
+++ b/library/integral_geom/sort_points_by_argument.hpp
@@ -18,8 +18,8 @@ namespace suisen::integral_geometry {
         const auto &[x2, y2] = q;
         if ((y1 < 0) xor (y2 < 0)) return y1 < y2;
         if ((x1 < 0) xor (x2 < 0)) return (y1 >= 0) xor (x1 < x2);
-        if (x1 == 0 and y1 == 0) return true;
         if (x2 == 0 and y2 == 0) return false;
+        if (x1 == 0 and y1 == 0) return true;
         return (MultipliedType(y1) * x2 < MultipliedType(y2) * x1);
     }
     template <typename PointType, typename MultipliedType = long long>
-- 
2.43.0


From 6d9f87559d540f47d6c050f7d29424fe7ecdae10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:57 +0000
Subject: [PATCH 147/169] fix: integral convex_diameter terminates on
 degenerate (collinear) polygons

---
 library/integral_geom/geometry.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/integral_geom/geometry.hpp b/library/integral_geom/geometry.hpp
index fb55e2f..5ec03e7 100644
--- a/library/integral_geom/geometry.hpp
+++ b/library/integral_geom/geometry.hpp
@@ -201,7 +201,7 @@ namespace suisen::integral_geometry {
         for (int i = si, j = sj; i != sj or j != si;) {
             if (multiplied_t dij = square_abs(convex[j] - convex[i]); dij > max_dist) max_dist = dij, argmax = { i, j };
             int ni = (i + 1) % sz, nj = (j + 1) % sz;
-            if (det(convex[ni] - convex[i], convex[nj] - convex[j]) < 0) i = ni;
+            if (j == si or (i != sj and det(convex[ni] - convex[i], convex[nj] - convex[j]) < 0)) i = ni;
             else j = nj;
         }
         return argmax;
-- 
2.43.0


From 914b84601e85956f623edf33759f7ee79d263abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:57 +0000
Subject: [PATCH 148/169] fix: integral closest_pair keeps squared distances in
 multiplied_t

---
 library/integral_geom/closest_pair.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/library/integral_geom/closest_pair.hpp b/library/integral_geom/closest_pair.hpp
index 3ac591a..9b4d56e 100644
--- a/library/integral_geom/closest_pair.hpp
+++ b/library/integral_geom/closest_pair.hpp
@@ -11,12 +11,12 @@ namespace suisen::integral_geometry {
         assert(n > 0);
         if (n == 1) return { points[0], points[0] };
         std::sort(points.begin(), points.end(), XY_COMPARATOR);
-        coordinate_t min_dist = std::numeric_limits<coordinate_t>::max();
+        multiplied_t min_dist = std::numeric_limits<multiplied_t>::max();
         std::pair<Point, Point> ans;
-        std::vector<coordinate_t> dmin(n, min_dist);
+        std::vector<multiplied_t> dmin(n, min_dist);
 
         auto update_min = [&](int l, const Point& p, const Point& q) {
-            coordinate_t d = square_abs(p - q);
+            multiplied_t d = square_abs(p - q);
             if (d >= dmin[l]) return;
             dmin[l] = d;
             if (d >= min_dist) return;
@@ -42,10 +42,10 @@ namespace suisen::integral_geometry {
                 dmin[l] = std::min(dmin[l], dmin[m]);
                 std::vector<int> ids;
                 for (int i = l; i < r; ++i) {
-                    if (coordinate_t dx = y[i].x - points[m].x; dx * dx > dmin[l]) continue;
+                    if (multiplied_t dx = y[i].x - points[m].x; dx * dx > dmin[l]) continue;
                     for (auto it = ids.rbegin(); it != ids.rend(); ++it) {
                         const Point& p = y[*it];
-                        if (coordinate_t dy = y[i].y - p.y; dy * dy > dmin[l]) break;
+                        if (multiplied_t dy = y[i].y - p.y; dy * dy > dmin[l]) break;
                         update_min(l, y[i], p);
                     }
                     ids.push_back(i);
-- 
2.43.0


From 4b3fba24a90dc8891eeabc080617f1ee105f5140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:28 +0000
Subject: [PATCH 149/169] fix: equality of rays distinguishes opposite
 directions

---
 library/geom/geometry.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/geom/geometry.hpp b/library/geom/geometry.hpp
index 24fab8e..f87a9fe 100644
--- a/library/geom/geometry.hpp
+++ b/library/geom/geometry.hpp
@@ -332,7 +332,7 @@ namespace geometry {
         return on_the_same_line(l, m);
     }
     bool equals(const Ray &l, const Ray &m) {
-        return on_the_same_line(l, m) and equals(l.a, m.a);
+        return on_the_same_line(l, m) and equals(l.a, m.a) and sgn(dot(l.b - l.a, m.b - m.a)) == Sign::POSITIVE;
     }
     bool equals(const Segment &l, const Segment &m) {
         return (equals(l.a, m.a) and equals(l.b, m.b)) or (equals(l.a, m.b) and equals(l.b, m.a));
-- 
2.43.0


From 11cc7d75e7a6f1296f0be8427d84009f108866fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:28 +0000
Subject: [PATCH 150/169] fix: pIabc returns the excircles of the triangle

---
 library/geom/geometry.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/library/geom/geometry.hpp b/library/geom/geometry.hpp
index f87a9fe..671cb76 100644
--- a/library/geom/geometry.hpp
+++ b/library/geom/geometry.hpp
@@ -236,7 +236,12 @@ namespace geometry {
         return a + b + c - 2 * pO(a, b, c).center;
     }
     auto pIabc(const Point &a, const Point &b, const Point &c) {
-        return std::make_tuple(pI(-a, b, c), pI(a, -b, c), pI(a, b, -c));
+        const coordinate_t la = abs(b - c), lb = abs(c - a), lc = abs(a - b), s = 2 * area(a, b, c);
+        auto excircle = [&](coordinate_t x, coordinate_t y, coordinate_t z) {
+            const coordinate_t l = x + y + z;
+            return Circle((x * a + y * b + z * c) / l, s / l);
+        };
+        return std::make_tuple(excircle(-la, lb, lc), excircle(la, -lb, lc), excircle(la, lb, -lc));
     }
 
     // Line
-- 
2.43.0


From bc4afe2f893ebb98895b137b90a3924bd761568d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:28 +0000
Subject: [PATCH 151/169] fix: convex_hull of no points is empty

---
 library/geom/convex_hull.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/library/geom/convex_hull.hpp b/library/geom/convex_hull.hpp
index 6cd809d..b42e52d 100644
--- a/library/geom/convex_hull.hpp
+++ b/library/geom/convex_hull.hpp
@@ -9,6 +9,7 @@ namespace suisen {
 namespace geometry {
     std::vector<int> convex_hull(const std::vector<Point> &points) {
         const int n = points.size();
+        if (n == 0) return {};
         std::vector<int> sorted(n);
         std::iota(sorted.begin(), sorted.end(), 0);
         std::sort(sorted.begin(), sorted.end(), [&points](int i, int j) {
-- 
2.43.0


From 5ca50d2740fbd7beeba319e465b894288720ecc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:29 +0000
Subject: [PATCH 152/169] fix: convex_diameter terminates on degenerate
 (collinear) polygons

---
 library/geom/geometry.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/geom/geometry.hpp b/library/geom/geometry.hpp
index 671cb76..149ea11 100644
--- a/library/geom/geometry.hpp
+++ b/library/geom/geometry.hpp
@@ -447,7 +447,7 @@ namespace geometry {
         for (int i = si, j = sj; i != sj or j != si;) {
             if (coordinate_t dij = square_abs(convex[j] - convex[i]); dij > max_dist) max_dist = dij, argmax = { i, j };
             int ni = (i + 1) % sz, nj = (j + 1) % sz;
-            if (det(convex[ni] - convex[i], convex[nj] - convex[j]) < 0) i = ni;
+            if (j == si or (i != sj and det(convex[ni] - convex[i], convex[nj] - convex[j]) < 0)) i = ni;
             else j = nj;
         }
         return { argmax.first, argmax.second, ::sqrtl(max_dist) };
-- 
2.43.0


From e9ee0df39c19f7af49f5e4ad0670d9a43e1804ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:29 +0000
Subject: [PATCH 153/169] fix: geometry3d: dist(Segment, const Line&) is not
 the distance of two lines

---
 library/geom/geometry3d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/geom/geometry3d.hpp b/library/geom/geometry3d.hpp
index 8197ae3..eb6f397 100644
--- a/library/geom/geometry3d.hpp
+++ b/library/geom/geometry3d.hpp
@@ -150,7 +150,7 @@ namespace suisen::geometry3d {
         auto [p, q] = internal::closest_pair(l, m);
         return on(m, q) ? dist(p, q) : std::min(dist(l, m.first), dist(l, m.second));
     }
-    coordinate_t dist(const Segment &l, Line &m) {
+    coordinate_t dist(const Segment &l, const Line &m) {
         return dist(m, l);
     }
     coordinate_t dist(const Ray &l, const Ray &m) {
-- 
2.43.0


From 81619a94d2687446f704ddcf2495752b07cc17f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:29 +0000
Subject: [PATCH 154/169] fix: geometry3d: Plane can be made from constants

---
 library/geom/geometry3d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/geom/geometry3d.hpp b/library/geom/geometry3d.hpp
index eb6f397..6ecad5a 100644
--- a/library/geom/geometry3d.hpp
+++ b/library/geom/geometry3d.hpp
@@ -188,7 +188,7 @@ namespace suisen::geometry3d {
         coordinate_t d;
         Plane() = default;
         Plane(const Point &p, const Point &q, const Point &r) : normal_vec(normalized((q - p) * (r - p))), d(-inner_product(normal_vec, p)) {}
-        Plane(const coordinate_t &a, coordinate_t &b, coordinate_t &c, coordinate_t &d) : normal_vec(normalized({a, b, c})), d(d / abs({a, b, c})) {}
+        Plane(const coordinate_t &a, const coordinate_t &b, const coordinate_t &c, const coordinate_t &d) : normal_vec(normalized({a, b, c})), d(d / abs({a, b, c})) {}
     };
 
     coordinate_t dist(const Plane &plane, const Point &p) {
-- 
2.43.0


From 4bec8fcab3263ce3554c15b2535dee0165cadc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:02 +0000
Subject: [PATCH 155/169] fix: integral_geom headers do not share include
 guards with geom

---
 library/integral_geom/closest_pair.hpp | 6 +++---
 library/integral_geom/geometry.hpp     | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/library/integral_geom/closest_pair.hpp b/library/integral_geom/closest_pair.hpp
index 9b4d56e..5bea3d9 100644
--- a/library/integral_geom/closest_pair.hpp
+++ b/library/integral_geom/closest_pair.hpp
@@ -1,5 +1,5 @@
-#ifndef SUISEN_CLOSEST_PAIR
-#define SUISEN_CLOSEST_PAIR
+#ifndef SUISEN_CLOSEST_PAIR_INTEGRAL
+#define SUISEN_CLOSEST_PAIR_INTEGRAL
 
 #include <cassert>
 
@@ -58,4 +58,4 @@ namespace suisen::integral_geometry {
 } // namespace suisen::integral_geometry
 
 
-#endif // SUISEN_CLOSEST_PAIR
+#endif // SUISEN_CLOSEST_PAIR_INTEGRAL
diff --git a/library/integral_geom/geometry.hpp b/library/integral_geom/geometry.hpp
index 5ec03e7..00f7df1 100644
--- a/library/integral_geom/geometry.hpp
+++ b/library/integral_geom/geometry.hpp
@@ -1,5 +1,5 @@
-#ifndef SUISEN_GEOMETRY
-#define SUISEN_GEOMETRY
+#ifndef SUISEN_INTEGRAL_GEOMETRY
+#define SUISEN_INTEGRAL_GEOMETRY
 
 #include <algorithm>
 #include <cmath>
@@ -238,4 +238,4 @@ namespace suisen::integral_geometry {
     }
 } // namespace suisen::integral_geometry
 
-#endif // SUISEN_GEOMETRY
+#endif // SUISEN_INTEGRAL_GEOMETRY
-- 
2.43.0


From de92a1fcaa6b10d434fa303779577f4487e2d202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:51 +0000
Subject: [PATCH 156/169] fix: RunLengthEncoder: pop_back compiles and length()
 follows pop_back, clear and swap

---
 library/util/run_length_encoder.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/library/util/run_length_encoder.hpp b/library/util/run_length_encoder.hpp
index 8c36b17..131338b 100644
--- a/library/util/run_length_encoder.hpp
+++ b/library/util/run_length_encoder.hpp
@@ -20,9 +20,9 @@ class RunLengthEncoder {
         long long length() const noexcept {
             return _length;
         }
-        void swap(RunLengthEncoder<Container>  &other) { comp.swap(other.comp); }
-        void swap(RunLengthEncoder<Container> &&other) { comp.swap(other.comp); }
-        void clear() { comp.clear(); }
+        void swap(RunLengthEncoder<Container>  &other) { std::swap(_length, other._length), comp.swap(other.comp); }
+        void swap(RunLengthEncoder<Container> &&other) { std::swap(_length, other._length), comp.swap(other.comp); }
+        void clear() { _length = 0, comp.clear(); }
         auto begin()   const noexcept { return comp.begin();   }
         auto end()     const noexcept { return comp.end();     }
         auto rbegin()  const noexcept { return comp.rbegin();  }
@@ -49,8 +49,9 @@ class RunLengthEncoder {
             while (comp.size()) {
                 long long cnt = comp.back().second;
                 if (cnt > num) {
-                    comp.back.second -= num;
-                    return rem + num;
+                    comp.back().second -= num;
+                    rem += num;
+                    break;
                 }
                 num -= cnt, rem += cnt;
                 comp.pop_back();
-- 
2.43.0


From 4dfd75241cd2b4e0c15e81c26c36bb0fbf8ebe0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:51 +0000
Subject: [PATCH 157/169] fix: vector_ops: *= copies only the original
 elements, += accepts its own operand

---
 library/util/vector_ops.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/library/util/vector_ops.hpp b/library/util/vector_ops.hpp
index 18bb463..d3c0584 100644
--- a/library/util/vector_ops.hpp
+++ b/library/util/vector_ops.hpp
@@ -1,14 +1,16 @@
 #ifndef SUISEN_VECTOR_OPS
 #define SUISEN_VECTOR_OPS
 
+#include <algorithm>
 #include <vector>
 
 namespace suisen {
 template <typename T>
 std::vector<T>& operator+=(std::vector<T> &a, const std::vector<T> &b) {
     int n = a.size();
-    a.resize(n + b.size());
-    std::copy(b.begin(), b.end(), a.begin() + n);
+    const int m = b.size();
+    a.resize(n + m);
+    std::copy(b.begin(), b.begin() + m, a.begin() + n);
     return a;
 }
 template <typename T>
@@ -35,11 +37,11 @@ template <typename T>
 std::vector<T>& operator*=(std::vector<T> &a, const int repeat) {
     int n = a.size();
     a.resize(n * repeat);
-    for (int i = 1; i < repeat; ++i) std::copy(a.begin(), a.end(), a.begin() + i * n);
+    for (int i = 1; i < repeat; ++i) std::copy(a.begin(), a.begin() + n, a.begin() + i * n);
     return a;
 }
 template <typename T>
-std::vector<T> operator*(std::vector<T> &a, const int repeat) {
+std::vector<T> operator*(const std::vector<T> &a, const int repeat) {
     std::vector<T> c = a; return c *= repeat;
 }
 } // namespace suisen
-- 
2.43.0


From e6b431e1124144b31ba2e57a37e101fcdb86dd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:09 +0000
Subject: [PATCH 158/169] fix: default_vector: default_value is initialised

---
 library/util/default_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/util/default_vector.hpp b/library/util/default_vector.hpp
index fefa450..7f1f59a 100644
--- a/library/util/default_vector.hpp
+++ b/library/util/default_vector.hpp
@@ -37,7 +37,7 @@ class default_vector : public std::vector<T> {
             std::vector<T>::resize(n, default_value);
         }
     private:
-        T default_value;
+        T default_value{};
         bool index_out_of_bounds(unsigned int i) const {
             return i >= std::vector<T>::size();
         }
-- 
2.43.0


From dafbb9d169dcca1cd49f114bcabb9288a69dbc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:43 +0000
Subject: [PATCH 159/169] fix: StepSum: residue classes beyond the end of the
 sequence have sum 0

---
 library/util/step_sum.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/util/step_sum.hpp b/library/util/step_sum.hpp
index f9a82aa..a6aef8a 100644
--- a/library/util/step_sum.hpp
+++ b/library/util/step_sum.hpp
@@ -19,7 +19,7 @@ namespace suisen {
         }
         // sum A_i for i = k (mod step) and i in [l, r)
         value_type sum(int k, int l, int r) const {
-            if (r <= k or r <= l or l >= _n) return 0;
+            if (r <= k or r <= l or l >= _n or k >= _n) return 0;
             const int t = _br.quo(std::min(_n, r) - 1 - k);
             T ans = _sum[t * _step + k];
             if (l > k) {
-- 
2.43.0


From 0d700b085dd2a282c11ab8dce06e53136428e84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:08 +0000
Subject: [PATCH 160/169] fix: CumulativeSum, CumulativeSum2D: a default
 constructed object is an empty one

---
 library/util/cumulative_sum.hpp    | 2 +-
 library/util/cumulative_sum_2d.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/util/cumulative_sum.hpp b/library/util/cumulative_sum.hpp
index db9cff4..c2e1674 100644
--- a/library/util/cumulative_sum.hpp
+++ b/library/util/cumulative_sum.hpp
@@ -8,7 +8,7 @@
 namespace suisen {
     template <typename T, auto zero = default_operator::zero<T>, auto add = default_operator::add<T>, auto sub = default_operator::sub<T>>
     struct CumulativeSum {
-        CumulativeSum() = default;
+        CumulativeSum() : CumulativeSum(std::vector<T>{}) {}
         CumulativeSum(const std::vector<T> &a) : n(a.size()), s(n + 1, zero()) {
             for (size_t i = 0; i < n; ++i) s[i + 1] = add(a[i], s[i]);
         }
diff --git a/library/util/cumulative_sum_2d.hpp b/library/util/cumulative_sum_2d.hpp
index c58c8ed..3263765 100644
--- a/library/util/cumulative_sum_2d.hpp
+++ b/library/util/cumulative_sum_2d.hpp
@@ -8,7 +8,7 @@
 namespace suisen {
     template <typename T, auto zero = default_operator::zero<T>, auto add = default_operator::add<T>, auto sub = default_operator::sub<T>>
     struct CumulativeSum2D {
-        CumulativeSum2D() = default;
+        CumulativeSum2D() : CumulativeSum2D(std::vector<std::vector<T>>{}) {}
         CumulativeSum2D(const std::vector<std::vector<T>> &a) : n(a.size()), m(n == 0 ? 0 : a[0].size()), s(n + 1, std::vector<T>(m + 1, zero())) {
             for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) {
                 s[i + 1][j + 1] = sub(add(add(a[i][j], s[i + 1][j]), s[i][j + 1]), s[i][j]);
-- 
2.43.0


From d7747f04e50501e1a9ef3f649fb057e4f2a688d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:52 +0000
Subject: [PATCH 161/169] fix: VecZobristHash: keys added later do not repeat
 the initial ones

---
 library/util/zobrist_hash.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/library/util/zobrist_hash.hpp b/library/util/zobrist_hash.hpp
index 024e52c..edb4def 100644
--- a/library/util/zobrist_hash.hpp
+++ b/library/util/zobrist_hash.hpp
@@ -3,6 +3,7 @@
 
 #include <algorithm>
 #include <array>
+#include <functional>
 #include <map>
 #include <vector>
 #include <random>
@@ -53,7 +54,7 @@ namespace suisen {
 
         VecZobristHash() = default;
         VecZobristHash(typename Base::value_type max_val) : Base(max_val + 1) {
-            std::generate(this->h.begin(), this->h.end(), this->rng);
+            std::generate(this->h.begin(), this->h.end(), std::ref(this->rng));
         }
 
     protected:
-- 
2.43.0


From 0fe3b8ec3adac614694f15dfe401d23025ae630c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:13 +0000
Subject: [PATCH 162/169] fix: sum_count_lt, _geq, _gt count in the requested
 result type

---
 library/util/sum_count.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/library/util/sum_count.hpp b/library/util/sum_count.hpp
index 26fcd61..c3bee91 100644
--- a/library/util/sum_count.hpp
+++ b/library/util/sum_count.hpp
@@ -1,6 +1,8 @@
 #ifndef SUISEN_SUM_COUNT
 #define SUISEN_SUM_COUNT
 
+#include <algorithm>
+
 namespace suisen {
     // # of (a, b) s.t. (min_a<=a<=max_a and min_b<=b<=max_b and a+b=sum)
     template <typename T, typename R = T>
@@ -28,19 +30,19 @@ namespace suisen {
     // # of (a, b) s.t. (min_a<=a<=max_a and min_b<=b<=max_b and a+b<x)
     template <typename T, typename R = T>
     constexpr R sum_count_lt(T min_a, T max_a, T min_b, T max_b, T x) {
-        return sum_count_leq(min_a, max_a, min_b, max_b, x - 1);
+        return sum_count_leq<T, R>(min_a, max_a, min_b, max_b, x - 1);
     }
 
     // # of (a, b) s.t. (min_a<=a<=max_a and min_b<=b<=max_b and a+b>=min_sum)
     template <typename T, typename R = T>
     constexpr R sum_count_geq(T min_a, T max_a, T min_b, T max_b, T min_sum) {
-        return std::max<R>(0, max_a - min_a + 1) * std::max<R>(0, max_b - min_b + 1) - sum_count_lt(min_a, max_a, min_b, max_b, min_sum);
+        return std::max<R>(0, R(max_a) - R(min_a) + 1) * std::max<R>(0, R(max_b) - R(min_b) + 1) - sum_count_lt<T, R>(min_a, max_a, min_b, max_b, min_sum);
     }
 
     // # of (a, b) s.t. (min_a<=a<=max_a and min_b<=b<=max_b and a+b>x)
     template <typename T, typename R = T>
     constexpr R sum_count_gt(T min_a, T max_a, T min_b, T max_b, T x) {
-        return std::max<R>(0, max_a - min_a + 1) * std::max<R>(0, max_b - min_b + 1) - sum_count_leq(min_a, max_a, min_b, max_b, x);
+        return std::max<R>(0, R(max_a) - R(min_a) + 1) * std::max<R>(0, R(max_b) - R(min_b) + 1) - sum_count_leq<T, R>(min_a, max_a, min_b, max_b, x);
     }
 } // namespace suisen
 
-- 
2.43.0


From 1c6f4795d4928eb09ba334aeac243bf696dd2e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:32 +0000
Subject: [PATCH 163/169] fix: ternary_search_value over integers returns the
 value in the function's own type

---
 library/util/search.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/util/search.hpp b/library/util/search.hpp
index f5fc372..eacd2c8 100644
--- a/library/util/search.hpp
+++ b/library/util/search.hpp
@@ -79,7 +79,7 @@ namespace suisen {
      */
     template <ternary_search_tag tag, typename Arg, typename Fun,
         std::enable_if_t<std::conjunction_v<std::is_invocable<Fun, Arg>, std::is_integral<Arg>>, std::nullptr_t> = nullptr>
-    Arg ternary_search_value(Arg l, Arg r, const Fun &f) {
+    std::invoke_result_t<Fun, Arg> ternary_search_value(Arg l, Arg r, const Fun &f) {
         return f(ternary_search_key<tag>(l, r, f));
     }
 
-- 
2.43.0


From 05477f78f100e41e85ae45990028e5dfe71e6c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:47 +0000
Subject: [PATCH 164/169] fix: popcount and count_lz work for integers narrower
 than 32 bits

---
 library/util/bit_utils.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/util/bit_utils.hpp b/library/util/bit_utils.hpp
index 17232c1..037ff94 100644
--- a/library/util/bit_utils.hpp
+++ b/library/util/bit_utils.hpp
@@ -9,11 +9,11 @@
 #include "library/type_traits/type_traits.hpp"
 namespace suisen {
     template <typename T, std::enable_if_t<std::negation_v<suisen::is_nbit<T, 64>>, std::nullptr_t> = nullptr>
-    __attribute__((target("popcnt"))) constexpr int popcount(const T x) { return _mm_popcnt_u32(x); }
+    __attribute__((target("popcnt"))) constexpr int popcount(const T x) { return _mm_popcnt_u32(std::make_unsigned_t<T>(x)); }
     template <typename T, std::enable_if_t<suisen::is_nbit_v<T, 64>, std::nullptr_t> = nullptr>
     __attribute__((target("popcnt"))) constexpr int popcount(const T x) { return _mm_popcnt_u64(x); }
     template <typename T, std::enable_if_t<std::negation_v<suisen::is_nbit<T, 64>>, std::nullptr_t> = nullptr>
-    constexpr int count_lz(const T x) { return x ? __builtin_clz(x) : suisen::bitnum_v<T>; }
+    constexpr int count_lz(const T x) { return x ? __builtin_clz(std::make_unsigned_t<T>(x)) + suisen::bitnum_v<T> - 32 : suisen::bitnum_v<T>; }
     template <typename T, std::enable_if_t<suisen::is_nbit_v<T, 64>, std::nullptr_t> = nullptr>
     constexpr int count_lz(const T x) { return x ? __builtin_clzll(x) : suisen::bitnum_v<T>; }
     template <typename T, std::enable_if_t<std::negation_v<suisen::is_nbit<T, 64>>, std::nullptr_t> = nullptr>
-- 
2.43.0


From b7dea2189e3a37033f2c508e7791da44b8398de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:10 +0000
Subject: [PATCH 165/169] fix: all_subset iterates over the subsets of an
 all-ones set too

---
 library/util/subset_iterator.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/library/util/subset_iterator.hpp b/library/util/subset_iterator.hpp
index 81fbe04..31d9558 100644
--- a/library/util/subset_iterator.hpp
+++ b/library/util/subset_iterator.hpp
@@ -16,11 +16,11 @@ namespace suisen {
     template <typename T, std::enable_if_t<std::is_integral_v<T>, std::nullptr_t> = nullptr>
     struct all_subset {
         struct all_subset_iter {
-            const T s; T t;
-            constexpr all_subset_iter(T s) : s(s), t(s + 1) {}
+            const T s; T t; bool end;
+            constexpr all_subset_iter(T s) : s(s), t(s), end(false) {}
             constexpr auto operator*() const { return t; }
-            constexpr auto operator++() {}
-            constexpr auto operator!=(std::nullptr_t) { return t ? (--t &= s, true) : false; }
+            constexpr auto operator++() { t ? void(--t &= s) : void(end = true); }
+            constexpr auto operator!=(std::nullptr_t) const { return not end; }
         };
         T s;
         constexpr all_subset(T s) : s(s) {}
-- 
2.43.0


From b52c31b3a7d3fabf2de797d6a70dd7ec85d7dee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:10 +0000
Subject: [PATCH 166/169] fix: Permutation::pow does not overflow for exponents
 near 2^63

---
 library/util/permutation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/util/permutation.hpp b/library/util/permutation.hpp
index f96232e..ee1783a 100644
--- a/library/util/permutation.hpp
+++ b/library/util/permutation.hpp
@@ -62,7 +62,7 @@ namespace suisen {
                 for (int j = 0; j < l; ++j) {
                     int v = cycle[j];
                     seen[v] = true;
-                    res[v] = cycle[(j + k) % l];
+                    res[v] = cycle[(j + k % l) % l];
                 }
             }
             return res;
-- 
2.43.0


From 0b5c25c85565c82be376f9a181158c0af8aa2d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:32 +0000
Subject: [PATCH 167/169] fix: all_subset_k: no shift by the full width when
 leaving the last singleton

---
 library/util/subset_iterator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/library/util/subset_iterator.hpp b/library/util/subset_iterator.hpp
index 31d9558..ce54f30 100644
--- a/library/util/subset_iterator.hpp
+++ b/library/util/subset_iterator.hpp
@@ -43,7 +43,7 @@ namespace suisen {
                     t = std::numeric_limits<uint32_t>::max();
                 } else {
                     uint32_t y = t + _blsi_u32(t); // t + (-t & t)
-                    t = y | ((y ^ t) >> _tzcnt_u32(t << 2));
+                    t = y | ((y ^ t) >> _tzcnt_u32(t) >> 2);
                 }
             }
             auto operator!=(std::nullptr_t) const { return t < n; }
@@ -72,7 +72,7 @@ namespace suisen {
                     t = std::numeric_limits<uint64_t>::max();
                 } else {
                     uint64_t y = t + _blsi_u64(t);
-                    t = y | ((y ^ t) >> _tzcnt_u64(t << 2));
+                    t = y | ((y ^ t) >> _tzcnt_u64(t) >> 2);
                 }
             }
             auto operator!=(std::nullptr_t) const { return t < n; }
-- 
2.43.0


From bc9157aaa79b9b2bb369aa794c0d4bc1b372c4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:52 +0000
Subject: [PATCH 168/169] fix: OutputStream prints the smallest __int128

---
 library/io/output_stream.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/io/output_stream.hpp b/library/io/output_stream.hpp
index dd07933..0228bad 100644
--- a/library/io/output_stream.hpp
+++ b/library/io/output_stream.hpp
@@ -33,7 +33,7 @@ namespace suisen::io {
         }
         void _print(__int128_t value) {
             if (value < 0) *this << '-';
-            _print(__uint128_t(value < 0 ? -value : value));
+            _print(value < 0 ? -__uint128_t(value) : __uint128_t(value));
         }
         template <typename T, typename U>
         void _print(const std::pair<T, U>& a) { *this << a.first << ' ' << a.second; }
-- 
2.43.0


From 8dc749eaf89dc29cd22691d77688a733ff7118f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:52 +0000
Subject: [PATCH 169/169] fix: template: RREP stops for unsigned integers

---
 library/template.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/library/template.hpp b/library/template.hpp
index 60c929d..9c9ef81 100644
--- a/library/template.hpp
+++ b/library/template.hpp
@@ -19,7 +19,7 @@ namespace suisen::macro {
         rrep_impl(Int n) : rrep_impl(0, n) {}
         rrep_impl(IntL l, Int r) : _val(r - 1), _end(l), _step(-1) {}
         rrep_impl(IntL l, Int r, IntStep step) : _val(l + fld<Int>(r - l - 1, step) * step), _end(l), _step(-step) {}
-        IMPL_REPITER((_val >= _end))
+        IMPL_REPITER((std::is_unsigned_v<Int> ? std::make_signed_t<Int>(_val - _end) >= 0 : _val >= _end))
     };
     template <class Int, class IntStep = Int> struct repinf_impl {
         Int _val; const Int _step;
-- 
2.43.0

