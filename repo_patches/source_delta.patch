From e7947a25b3e39c622ae1cf627c0c1aaff0875fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:44 +0000
Subject: [PATCH 01/29] hook: let a harness choose node hash keys
 (LBDD_VERIF_HASHKEYS)

---
 src/bdd_node.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/bdd_node.cpp b/src/bdd_node.cpp
index 7518bc8..8d4bad0 100644
--- a/src/bdd_node.cpp
+++ b/src/bdd_node.cpp
@@ -5,6 +5,11 @@
 #include <cstring>
 #include <deque>
 
+#ifdef LBDD_VERIF_HASHKEYS
+// verification hook: lets a test harness choose the distribution of the nodes' hash keys
+extern std::size_t (*lbdd_verif_hash_key)(std::size_t);
+#endif
+
 namespace BDD {
 
     //static std::random_device rd;
@@ -27,7 +32,10 @@ namespace BDD {
         static std::uniform_int_distribution<std::size_t> unique_table_distribution(0,hashtablesize-1);
 
         hash_key = unique_table_distribution(unique_table_gen);
-
+#ifdef LBDD_VERIF_HASHKEYS
+        if(lbdd_verif_hash_key != nullptr)
+            hash_key = lbdd_verif_hash_key(hash_key);
+#endif
     }
 
     size_t node::nr_nodes()
-- 
2.43.0


From 293610e22b7a074d133f7211ea2cc8baed1372bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:06 +0000
Subject: [PATCH 02/29] fix: give xor its own symbol in the memo cache

xor_symb() returned the symbol of or, so or_rec and xor_rec on the same
operands read each other's cached results.
---
 include/bdd_memo_cache.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bdd_memo_cache.h b/include/bdd_memo_cache.h
index cfa6b39..d5e7f4a 100644
--- a/include/bdd_memo_cache.h
+++ b/include/bdd_memo_cache.h
@@ -25,7 +25,7 @@ namespace BDD {
 
         template<typename T>
         constexpr static node* xor_symb_impl() { return static_cast<T*>(nullptr) + 3; }
-        constexpr static node* xor_symb() { return or_symb_impl<node>(); }
+        constexpr static node* xor_symb() { return xor_symb_impl<node>(); }
 
         bool operator==(const memo_struct& m) const;
         bool operator!=(const memo_struct& m) const;
-- 
2.43.0


From eea41e05587266785beb34bf1c7f9c0b4734b486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:06 +0000
Subject: [PATCH 03/29] fix: split xor on the topmost variable

xor_rec expanded the operand with the larger variable first and produced
unordered, non-canonical diagrams.
---
 src/bdd_mgr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bdd_mgr.cpp b/src/bdd_mgr.cpp
index af87c96..85c3d85 100644
--- a/src/bdd_mgr.cpp
+++ b/src/bdd_mgr.cpp
@@ -242,7 +242,7 @@ namespace BDD {
         var& vf = vars[f.variable()];
         assert(g.variable() < nr_variables());
         var& vg = vars[g.variable()];
-        var& v = *std::max(&vg,&vf);
+        var& v = *std::min(&vg,&vf);
 
         node_ref r0 = xor_rec(&v == &vf ? f.low() : f, &v == &vg ? g.low() : g);
         assert(r0.ref != nullptr);
-- 
2.43.0


From 380accd3266a806cfabb9ff0240861c643b306fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:06 +0000
Subject: [PATCH 04/29] fix: do not descend into terminals in ite_rec

Terminals are given the last variable for choosing the split variable. When
the split variable is the last variable, the children of a terminal g or h
were taken, i.e. the manager pointer was used as a node.
---
 src/bdd_mgr.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bdd_mgr.cpp b/src/bdd_mgr.cpp
index 85c3d85..50f6769 100644
--- a/src/bdd_mgr.cpp
+++ b/src/bdd_mgr.cpp
@@ -287,15 +287,15 @@ namespace BDD {
 
         node_ref r0 = ite_rec(
                 (&vf == &v ? f.low() : f),
-                (&vg == &v ? g.low() : g),
-                (&vh == &v ? h.low() : h)
+                (&vg == &v && !g.is_terminal() ? g.low() : g),
+                (&vh == &v && !h.is_terminal() ? h.low() : h)
                 );
         assert(r0.ref != nullptr);
 
         node_ref r1 = ite_rec(
                 (&vf == &v ? f.high() : f),
-                (&vg == &v ? g.high() : g),
-                (&vh == &v ? h.high() : h)
+                (&vg == &v && !g.is_terminal() ? g.high() : g),
+                (&vh == &v && !h.is_terminal() ? h.high() : h)
                 );
         assert(r1.ref != nullptr);
 
-- 
2.43.0


From 7327f732387fa9d066409f263b4e2e16c2237fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:06 +0000
Subject: [PATCH 05/29] fix: initialise mark and hash key of the terminal nodes

They were left to whatever the allocated page contained; queries on a
terminal assert that it is unmarked.
---
 src/bdd_node.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bdd_node.cpp b/src/bdd_node.cpp
index 8d4bad0..e553981 100644
--- a/src/bdd_node.cpp
+++ b/src/bdd_node.cpp
@@ -126,6 +126,8 @@ namespace BDD {
         this->bdd_mgr_2 = mgr;
         this->xref = 1;
         this->index = botsink_index;
+        this->hash_key = 0;
+        this->marked_ = 0;
     }
 
     bool node::is_botsink() const
@@ -140,7 +142,8 @@ namespace BDD {
         this->bdd_mgr_2 = mgr;
         this->xref = 1;
         this->index = topsink_index;
-
+        this->hash_key = 1;
+        this->marked_ = 0;
     }
 
     bool node::is_topsink() const
-- 
2.43.0


From 426de6058dce6508a0e711eefdc1d10545b1f210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:06 +0000
Subject: [PATCH 06/29] fix: memoise negation

negate visited every path of the diagram, so that negation (and xor, which
negates) of a diagram with few nodes took exponential time.
---
 src/bdd_mgr.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/bdd_mgr.cpp b/src/bdd_mgr.cpp
index 50f6769..ac6f03c 100644
--- a/src/bdd_mgr.cpp
+++ b/src/bdd_mgr.cpp
@@ -46,9 +46,16 @@ namespace BDD {
             return node_ref(node_cache_.botsink());
         else
         {
+            // the complement of p is cached as xor of p and the topsink
+            node* m = memo_.cache_lookup(p.ref, node_cache_.topsink(), memo_struct::xor_symb());
+            if(m != nullptr)
+                return node_ref(m);
+
             const std::size_t v = p.variable();
             assert(v < nr_variables());
-            return node_ref(vars[v].unique_find( negate(p.low()).ref, negate(p.high()).ref));
+            node_ref r(vars[v].unique_find( negate(p.low()).ref, negate(p.high()).ref));
+            memo_.cache_insert(p.ref, node_cache_.topsink(), memo_struct::xor_symb(), r.ref);
+            return r;
         }
     }
 
-- 
2.43.0


From 62e05a04815ccb7d6abbd7149ce295a3ba4918cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:56 +0000
Subject: [PATCH 07/29] fix: use the unique table page sizes as intended and
 fail cleanly when full

Doubling a table took its page from the cache of the next size and returned it
to the cache of the table size, so pages migrated to smaller caches and were
never reused. The step to the largest size threw after the table had been
marked as doubled, leaving a manager that could not be used or destroyed. Now
the largest size is available and a full table is reported by an exception
before anything is changed.
---
 src/bdd_var.cpp | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/src/bdd_var.cpp b/src/bdd_var.cpp
index d0d52f3..25a6fe1 100644
--- a/src/bdd_var.cpp
+++ b/src/bdd_var.cpp
@@ -38,22 +38,22 @@ namespace BDD {
     {
         unique_table_page_caches& cache = bdd_mgr_.get_unique_table_page_cache();
         switch(new_mask) {
-            case 63: return reinterpret_cast<node**>(cache.cache_128.reserve_page()); 
-            case 127: return reinterpret_cast<node**>(cache.cache_256.reserve_page());
-            case 255: return reinterpret_cast<node**>(cache.cache_512.reserve_page());
-            case 511: return reinterpret_cast<node**>(cache.cache_1024.reserve_page());
-            case 1023: return reinterpret_cast<node**>(cache.cache_2048.reserve_page());
-            case 2047: return reinterpret_cast<node**>(cache.cache_4096.reserve_page());
-            case 4095: return reinterpret_cast<node**>(cache.cache_8192.reserve_page());
-            case 8191: return reinterpret_cast<node**>(cache.cache_16384.reserve_page());
-            case 16383: return reinterpret_cast<node**>(cache.cache_32768.reserve_page());
-            case 32767: return reinterpret_cast<node**>(cache.cache_65536.reserve_page());
-            case 65535: return reinterpret_cast<node**>(cache.cache_131072.reserve_page());
-            case 131071:return reinterpret_cast<node**>(cache.cache_262144.reserve_page());
-            case 262143:return reinterpret_cast<node**>(cache.cache_262144.reserve_page());
-            case 524287:return reinterpret_cast<node**>(cache.cache_524288.reserve_page());
-            case 1048575: throw std::runtime_error("Cannot increase unique table page cache size.");;
-            default: assert(false);
+            case 63: return reinterpret_cast<node**>(cache.cache_64.reserve_page());
+            case 127: return reinterpret_cast<node**>(cache.cache_128.reserve_page());
+            case 255: return reinterpret_cast<node**>(cache.cache_256.reserve_page());
+            case 511: return reinterpret_cast<node**>(cache.cache_512.reserve_page());
+            case 1023: return reinterpret_cast<node**>(cache.cache_1024.reserve_page());
+            case 2047: return reinterpret_cast<node**>(cache.cache_2048.reserve_page());
+            case 4095: return reinterpret_cast<node**>(cache.cache_4096.reserve_page());
+            case 8191: return reinterpret_cast<node**>(cache.cache_8192.reserve_page());
+            case 16383: return reinterpret_cast<node**>(cache.cache_16384.reserve_page());
+            case 32767: return reinterpret_cast<node**>(cache.cache_32768.reserve_page());
+            case 65535: return reinterpret_cast<node**>(cache.cache_65536.reserve_page());
+            case 131071: return reinterpret_cast<node**>(cache.cache_131072.reserve_page());
+            case 262143: return reinterpret_cast<node**>(cache.cache_262144.reserve_page());
+            case 524287: return reinterpret_cast<node**>(cache.cache_524288.reserve_page());
+            case 1048575: return reinterpret_cast<node**>(cache.cache_1048576.reserve_page());
+            default: throw std::runtime_error("Cannot allocate unique table page of given size.");
         } 
     }
 
@@ -316,6 +316,9 @@ namespace BDD {
         // allocate free node and add it to unique table
         if(occupied_rate() > max_unique_table_fill) // double number of base pages for unique table
             double_cache();
+        // one slot must stay empty for lookups to terminate
+        if(free <= 1)
+            throw std::runtime_error("unique table of variable is full.");
 
         // allocate new node and insert it into unique table
         p = bdd_mgr_.get_node_cache().reserve_node();
-- 
2.43.0


From 0eadceeea283f9e0b7083110f13d7728f7e01d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:56 +0000
Subject: [PATCH 08/29] fix: make garbage collection of the unique tables work

remove_dead_nodes() dropped dead nodes following another one without freeing
them, reinserted live nodes without clearing their old slots, ran out of the
table at its end, computed wrong sizes when shrinking the table and did not
adjust the number of free slots. Free the dead nodes, choose the table size
and insert the live nodes anew.
---
 src/bdd_var.cpp | 78 +++++++++++++------------------------------------
 1 file changed, 20 insertions(+), 58 deletions(-)

diff --git a/src/bdd_var.cpp b/src/bdd_var.cpp
index 25a6fe1..2a91755 100644
--- a/src/bdd_var.cpp
+++ b/src/bdd_var.cpp
@@ -204,76 +204,38 @@ namespace BDD {
 
     void var_struct::remove_dead_nodes()
     {
+        std::vector<node*> live_nodes;
         for(std::size_t k = 0; k < hash_table_size(); ++k)
         {
             node* p = fetch_node(k);
-            if(p != nullptr && p->dead())
-            {
+            if(p == nullptr)
+                continue;
+            store_node(k, nullptr);
+            if(p->dead())
                 bdd_mgr_.get_node_cache().free_node(p);
-                store_node(k, nullptr);
-                free++;
-                // move nodes that follow this one back if hash value indicates so
-                size_t first_free_slot = k;
-                for(size_t j = k+1;; ++j)
-                {
-                    const size_t jj = j & mask;
-                    node* p = fetch_node(jj);
-                    if(p == nullptr)
-                    {
-                        k = j;
-                        break;
-                    }
-                    if(p->dead())
-                    {
-                        store_node(jj, nullptr);
-                        free++;
-                    }
-                    else
-                    {
-                        // shift one place up if hash code says so
-                        // TODO: can be made faster.
-                        store_node(next_free_slot(hash_code(p)), p);
-                    }
-                }
-            }
+            else
+                live_nodes.push_back(p);
         }
 
-        // reduce nr of pages if unique table too sparsely populated
-        if(mask > 63 && occupied_rate() <= min_unique_table_fill)
+        // reduce size of unique table if too sparsely populated
+        size_t new_mask = mask;
+        while(new_mask > 63 && double(live_nodes.size()) <= min_unique_table_fill * double(new_mask+1))
+            new_mask = (new_mask+1)/2 - 1;
+        if(new_mask != mask)
         {
-            const size_t new_mask = [&]() {
-                size_t n = (mask+1)/2 - 1;
-                while(n >= 63 && occupied_rate(n) >= min_unique_table_fill)
-                    n /= (mask+1)/2 - 1;
-                return n;
-            }();
-
             node** new_base = new_page(new_mask);
-
-            for(std::size_t k = 0; k <= mask; ++k)
-            {
-                node* p = fetch_node(k);
-                if(p != nullptr)
-                {
-                    const size_t next_free_slot = [&]() {
-                        for(size_t l=k;; l++)
-                        {
-                            l = l & new_mask;
-                            if(new_base[k] == nullptr)
-                                return l;
-                        }
-                        assert(false);
-                        return size_t(0);
-                    }();
-
-                    new_base[next_free_slot] = p;
-                } 
-            }
-
             free_page(base, mask);
             base = new_base;
             mask = new_mask;
         }
+
+        // the table is empty now, insert remaining nodes anew
+        free = hash_table_size();
+        for(node* p : live_nodes)
+        {
+            store_node(next_free_slot(base_index(hash_code(p))), p);
+            --free;
+        }
     }
 
     node* var_struct::unique_find(const size_t index, node* l, node* h)
-- 
2.43.0


From a052f8a0b7ef5b5f07e46260f7ff594238ab0c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:56 +0000
Subject: [PATCH 09/29] fix: purge memos of freed nodes

Nodes freed by garbage collection have no references left (xref is zero, not
negative), so no memo was ever purged and later operations returned freed
nodes. The third operand was not considered.
---
 src/bdd_memo_cache.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/bdd_memo_cache.cpp b/src/bdd_memo_cache.cpp
index ab090f6..b5d5ed5 100644
--- a/src/bdd_memo_cache.cpp
+++ b/src/bdd_memo_cache.cpp
@@ -148,11 +148,10 @@ namespace BDD {
     {
         if(r == nullptr)
             return true; // TODO: or false?
-        if(r->xref < 0)
+        if(r->dead() || f->dead() || g->dead())
             return true;
-        if(f->xref < 0)
-            return true;
-        if(h != nullptr && g->xref < 0)
+        // h is either a node or a symbol for the operation
+        if(h != and_symb() && h != or_symb() && h != xor_symb() && h->dead())
             return true;
         return false;
     }
-- 
2.43.0


From 26d9a039723a64035aea2d5978051803984a18ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:56 +0000
Subject: [PATCH 10/29] fix: at_most with a bound above the number of variables
 is always true

---
 include/bdd_mgr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bdd_mgr.h b/include/bdd_mgr.h
index cbc72b6..689ef8d 100644
--- a/include/bdd_mgr.h
+++ b/include/bdd_mgr.h
@@ -346,7 +346,7 @@ namespace BDD {
             const size_t n = std::distance(begin, end);
 
             if(n < b)
-                return node_cache_.botsink();
+                return node_cache_.topsink();
 
             if(n == 1 && b == 1)
                 return node_cache_.topsink();
-- 
2.43.0


From 8d983c642d5328fece1d499b9ec031e9c4b612c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:56 +0000
Subject: [PATCH 11/29] fix: count the nodes of a limited conjunction exactly

The count was the sum over both branches without the node itself and with
shared nodes counted repeatedly, sinks counted as zero, while cached results
were counted exactly and trivial cases ignored the limit: whether a
conjunction was refused depended on what was computed before. Record the
result nodes and stop when there are node_limit of them.
---
 include/bdd_mgr.h |  2 +
 src/bdd_mgr.cpp   | 99 +++++++++++++++++++++++------------------------
 2 files changed, 51 insertions(+), 50 deletions(-)

diff --git a/include/bdd_mgr.h b/include/bdd_mgr.h
index 689ef8d..36c8520 100644
--- a/include/bdd_mgr.h
+++ b/include/bdd_mgr.h
@@ -6,6 +6,7 @@
 #include "bdd_memo_cache.h"
 #include <vector>
 #include <unordered_map>
+#include <unordered_set>
 #include <tuple>
 #include <algorithm>
 #include <cassert>
@@ -88,6 +89,7 @@ namespace BDD {
             node_ref add_bdd(bdd_collection& bdd_col, const size_t bdd_nr);
 
         private:
+            node_ref and_rec_limited_impl(node_ref f, node_ref g, std::unordered_set<node*>& result_nodes, const size_t node_limit);
 
             bdd_node_cache node_cache_;
             unique_table_page_caches page_cache_;
diff --git a/src/bdd_mgr.cpp b/src/bdd_mgr.cpp
index ac6f03c..206a162 100644
--- a/src/bdd_mgr.cpp
+++ b/src/bdd_mgr.cpp
@@ -2,6 +2,7 @@
 #include "bdd_collection.h"
 #include <cassert>
 #include <stack>
+#include <limits>
 
 namespace BDD {
 
@@ -107,65 +108,63 @@ namespace BDD {
         return node_ref(r); 
     }
 
-    // return
     std::tuple<node_ref,size_t> bdd_mgr::and_rec_limited(node_ref f, node_ref g, const size_t node_limit)
     {
-        if(f == g)
-        {
-            const size_t nr_nodes = f.nr_nodes();
-            if(nr_nodes > node_limit)
-               return {node_ref(nullptr), std::numeric_limits<size_t>::max()};
-            return {f,nr_nodes};
-        }
+        // every node recorded is part of the final result
+        std::unordered_set<node*> result_nodes;
+        node_ref r = and_rec_limited_impl(f, g, result_nodes, node_limit);
+        if(r.ref == nullptr || result_nodes.size() >= node_limit)
+            return {node_ref(nullptr), std::numeric_limits<size_t>::max()};
+        return {r, result_nodes.size()};
+    }
 
+    // record nodes of bdd rooted at p, return false if there are not fewer than node_limit nodes
+    static bool record_nodes(node* p, std::unordered_set<node*>& result_nodes, const size_t node_limit)
+    {
+        if(p->is_terminal() || result_nodes.count(p) > 0)
+            return true;
+        if(result_nodes.size() + 1 >= node_limit)
+            return false;
+        result_nodes.insert(p);
+        return record_nodes(p->lo, result_nodes, node_limit) && record_nodes(p->hi, result_nodes, node_limit);
+    }
+
+    node_ref bdd_mgr::and_rec_limited_impl(node_ref f, node_ref g, std::unordered_set<node*>& result_nodes, const size_t node_limit)
+    {
         if(f.ref > g.ref)
-            return and_rec_limited(g,f,node_limit);
+            return and_rec_limited_impl(g, f, result_nodes, node_limit);
 
-        if(f.ref == node_cache_.topsink())
-            return {g,g.nr_nodes()};
-        else if(f.ref == node_cache_.botsink())
-            return {node_ref(node_cache_.botsink()),0};
-        else if(g.ref == node_cache_.topsink())
-            return {f,f.nr_nodes()};
-        else if(g.ref == node_cache_.botsink())
-            return {node_ref(node_cache_.botsink()),0};
+        node* r = nullptr;
+        if(f.ref == node_cache_.botsink() || g.ref == node_cache_.botsink())
+            r = node_cache_.botsink();
+        else if(f == g || g.ref == node_cache_.topsink())
+            r = f.ref;
+        else if(f.ref == node_cache_.topsink())
+            r = g.ref;
+        else
+            r = memo_.cache_lookup(f.ref, g.ref, memo_struct::and_symb());
 
-        node* m = memo_.cache_lookup(f.ref, g.ref, memo_struct::and_symb());
-        if(m != nullptr)
+        if(r == nullptr)
         {
-            const size_t m_nr_nodes = m->nr_nodes();
-            if(m != nullptr)
-                if(m_nr_nodes <= node_limit)
-                    return {node_ref(m), m_nr_nodes};
-                else 
-                    return {node_ref(nullptr), std::numeric_limits<size_t>::max()};
+            var& f_var = vars[f.variable()];
+            var& g_var = vars[g.variable()];
+            var& v = *std::min(&f_var, &g_var);
+
+            node_ref r0 = and_rec_limited_impl(&v == &f_var ? f.low() : f, &v == &g_var ? g.low() : g, result_nodes, node_limit);
+            if(r0.ref == nullptr)
+                return node_ref(nullptr);
+            node_ref r1 = and_rec_limited_impl(&v == &f_var ? f.high() : f, &v == &g_var ? g.high() : g, result_nodes, node_limit);
+            if(r1.ref == nullptr)
+                return node_ref(nullptr);
+
+            r = v.unique_find(r0.ref, r1.ref);
+            assert(r != nullptr);
+            memo_.cache_insert(f.ref, g.ref, memo_struct::and_symb(), r);
         }
 
-        var& f_var = vars[f.variable()];
-        var& g_var = vars[g.variable()];
-        var& v = [&]() -> var& {
-            if(&f_var < &g_var)
-                return f_var;
-            else 
-                return g_var;
-        }();
-
-        auto [r0, r0_nr_nodes] = and_rec_limited(&v == &f_var ? f.low() : f, &v == &g_var ? g.low() : g, node_limit);
-        assert((r0 == nullptr) == (r0_nr_nodes == std::numeric_limits<size_t>::max()));
-        assert(r0.ref != nullptr || r0_nr_nodes == std::numeric_limits<size_t>::max());
-        if(r0_nr_nodes > node_limit)
-            return {node_ref(nullptr), std::numeric_limits<size_t>::max()};
-        auto [r1, r1_nr_nodes] = and_rec_limited(&v == &f_var ? f.high() : f, &v == &g_var ? g.high() : g, node_limit);
-        assert((r1 == nullptr) == (r1_nr_nodes == std::numeric_limits<size_t>::max()));
-        assert(r1.ref != nullptr || r1_nr_nodes == std::numeric_limits<size_t>::max());
-        if(r0_nr_nodes == std::numeric_limits<size_t>::max() || r1_nr_nodes == std::numeric_limits<size_t>::max() || r0_nr_nodes + r1_nr_nodes > node_limit)
-            return {node_ref(nullptr), std::numeric_limits<size_t>::max()};
-        
-        node* r = v.unique_find(r0.ref, r1.ref);
-        assert(r != nullptr);
-        //if(r != nullptr)
-        memo_.cache_insert(f.ref, g.ref, memo_struct::and_symb(), r);
-        return {node_ref(r),r0_nr_nodes + r1_nr_nodes}; 
+        if(!record_nodes(r, result_nodes, node_limit))
+            return node_ref(nullptr);
+        return node_ref(r);
     }
 
     node_ref bdd_mgr::or_rec(node_ref f, node_ref g)
-- 
2.43.0


From f03452735ec21f3492aeb4fef3186620a587f64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:56 +0000
Subject: [PATCH 12/29] fix: rebase constants with a vector map

The last variable of a constant and the maximum of an empty range were taken.
That every variable is in the range is asserted when it is mapped.
---
 include/bdd_mgr.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/bdd_mgr.h b/include/bdd_mgr.h
index 36c8520..1091ed8 100644
--- a/include/bdd_mgr.h
+++ b/include/bdd_mgr.h
@@ -131,10 +131,12 @@ namespace BDD {
     node_ref bdd_mgr::rebase(node_ref p, ITERATOR var_map_begin, ITERATOR var_map_end)
     {
         const size_t nr_vars = std::distance(var_map_begin, var_map_end);
-        assert(p.variables().back() <= nr_vars);
-        const size_t last_var = *std::max_element(var_map_begin, var_map_end);
-        for(size_t i=nr_variables(); i<=last_var; ++i)
-            add_variable();
+        if(nr_vars > 0)
+        {
+            const size_t last_var = *std::max_element(var_map_begin, var_map_end);
+            for(size_t i=nr_variables(); i<=last_var; ++i)
+                add_variable();
+        }
 
         const auto postorder = p.address()->nodes_postorder();
         std::unordered_map<node*, node*> node_map;
-- 
2.43.0


From fbf82e5f9380e6691150854db295be93c304e864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:56 +0000
Subject: [PATCH 13/29] fix: remove limit of 1000 nodes when importing from a
 collection

---
 src/bdd_mgr.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/bdd_mgr.cpp b/src/bdd_mgr.cpp
index 206a162..700ce0e 100644
--- a/src/bdd_mgr.cpp
+++ b/src/bdd_mgr.cpp
@@ -418,7 +418,6 @@ namespace BDD {
             }
             else
             { 
-                assert(bdd_col.offset(bdd) < 1000); // TODO: remove
                 assert(bdd_map.count(bdd.lo) > 0);
                 node_ref lo = bdd_map.find(bdd.lo)->second;
 
-- 
2.43.0


From d0a446cc4329b2cf0851cb48684c5536505c0f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:56 +0000
Subject: [PATCH 14/29] fix: breadth first order of a terminal node is empty

The manager pointer stored in terminals was used as a node.
---
 src/bdd_node.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bdd_node.cpp b/src/bdd_node.cpp
index e553981..25db2fa 100644
--- a/src/bdd_node.cpp
+++ b/src/bdd_node.cpp
@@ -91,6 +91,8 @@ namespace BDD {
     {
         assert(marked_ == 0);
         std::vector<node*> nodes;
+        if(is_terminal())
+            return nodes;
         std::deque<node*> dq;
 
         dq.push_back(this);
-- 
2.43.0


From 604d8cf7da0032ebc6f81dd03abd7d01ddf57fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:59 +0000
Subject: [PATCH 15/29] fix: allow constants in bdd_collection

Importing a terminal node used the last element of an empty list of nodes,
exporting it, its variables and removing a neighbour failed assertions. A
constant is stored as its terminal followed by the other one.
---
 include/bdd_collection.h |  2 +-
 src/bdd_collection.cpp   | 26 +++++++++++++++++---------
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/include/bdd_collection.h b/include/bdd_collection.h
index 7d6ff09..07c3ed4 100644
--- a/include/bdd_collection.h
+++ b/include/bdd_collection.h
@@ -286,7 +286,7 @@ namespace BDD {
                             new_bdd_instructions.push_back(bdd_instr);
                     }
                     new_bdd_delimiters.push_back(new_bdd_instructions.size());
-                    assert(new_bdd_delimiters.back() - new_bdd_delimiters[ new_bdd_delimiters.size()-2 ] > 2);
+                    assert(new_bdd_delimiters.back() - new_bdd_delimiters[ new_bdd_delimiters.size()-2 ] >= 2);
                 }
             }
             assert(bdd_it == bdd_it_end);
diff --git a/src/bdd_collection.cpp b/src/bdd_collection.cpp
index d9c08ec..9061dab 100644
--- a/src/bdd_collection.cpp
+++ b/src/bdd_collection.cpp
@@ -293,13 +293,19 @@ namespace BDD {
         }
 
         // TODO: not most efficient, record top and botsink above
-        node_ref_hash.insert({nodes.back().botsink(), bdd_instructions.size()});
-        bdd_instructions.push_back(bdd_instruction::botsink());
-        assert(bdd_instructions.back().is_botsink());
-
-        node_ref_hash.insert({nodes.back().topsink(), bdd_instructions.size()});
-        bdd_instructions.push_back(bdd_instruction::topsink());
-        assert(bdd_instructions.back().is_topsink());
+        // for constants the root terminal must come first
+        if(root.is_topsink())
+        {
+            bdd_instructions.push_back(bdd_instruction::topsink());
+            bdd_instructions.push_back(bdd_instruction::botsink());
+        }
+        else
+        {
+            node_ref_hash.insert({root.botsink(), bdd_instructions.size()});
+            bdd_instructions.push_back(bdd_instruction::botsink());
+            node_ref_hash.insert({root.topsink(), bdd_instructions.size()});
+            bdd_instructions.push_back(bdd_instruction::topsink());
+        }
 
         const size_t offset = bdd_delimiters.back();
         for(size_t i=0; i<nodes.size(); ++i)
@@ -324,7 +330,10 @@ namespace BDD {
     node_ref bdd_collection::export_bdd(bdd_mgr& mgr, const size_t bdd_nr) const
     {
         assert(bdd_nr < nr_bdds());
-        assert(nr_bdd_nodes(bdd_nr) > 2);
+        if(bdd_instructions[bdd_delimiters[bdd_nr]].is_botsink())
+            return mgr.botsink();
+        if(bdd_instructions[bdd_delimiters[bdd_nr]].is_topsink())
+            return mgr.topsink();
         // TODO: use vector and shift indices by offset
         std::unordered_map<size_t, node_ref> bdd_instr_hash;
         assert(bdd_instructions[bdd_delimiters[bdd_nr+1]-2].is_terminal());
@@ -535,7 +544,6 @@ namespace BDD {
             vars.push_back(bdd_instructions[i].index);
         }
 
-        assert(vars.size() > 0);
         std::sort(vars.begin(), vars.end());
         vars.erase( std::unique(vars.begin(), vars.end() ), vars.end());
         return vars;
-- 
2.43.0


From cc377bd597e3c2dfd95f2a4921fee4f5e81d11f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:59 +0000
Subject: [PATCH 16/29] fix: conjunction of constants and constant conjunctions
 in bdd_collection

Due to a dangling else a sink conjoined with a branch node was not recognised,
and a constant result failed an assertion or was stored as false. Results
equal to an existing node were not memoised, so that the synthesis could visit
every path.
---
 src/bdd_collection.cpp | 42 ++++++++++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/src/bdd_collection.cpp b/src/bdd_collection.cpp
index 9061dab..367e202 100644
--- a/src/bdd_collection.cpp
+++ b/src/bdd_collection.cpp
@@ -29,7 +29,9 @@ namespace BDD {
 
         if(root_idx != std::numeric_limits<size_t>::max())
         {
-            assert(stack.size() > 2);
+            // a constant result must come first
+            if(root_idx == 0)
+                std::swap(stack[0], stack[1]);
             const size_t offset = bdd_delimiters.back();
             for(ptrdiff_t s = stack.size()-1; s>=0; --s)
             {
@@ -61,18 +63,10 @@ namespace BDD {
         const bdd_instruction& g = bdd_instructions[g_i];
 
         // check if instructions are terminals
-        // TODO: more efficient
-        if(f.is_terminal() && g.is_terminal())
-            if(f.is_topsink() && g.is_topsink())
-                return 1; //topsink position on stack
-            else
-                return 0; //botsink position on stack
-        else if(f.is_terminal() && !g.is_terminal())
-            if(f.is_botsink())
-                return 0; //botsink position on stack
-            else if(!f.is_terminal() && g.is_terminal())
-                if(g.is_botsink())
-                    return 0; //botsink position on stack 
+        if(f.is_botsink() || g.is_botsink())
+            return 0; //botsink position on stack
+        if(f.is_topsink() && g.is_topsink())
+            return 1; //topsink position on stack
 
         // compute lo and hi and see if they are present already. It not, add new branch instruction
         const size_t v = std::min(f.index, g.index);
@@ -92,10 +86,17 @@ namespace BDD {
             return std::numeric_limits<size_t>::max();
 
         if(lo == hi)
+        {
+            generated_nodes.insert(std::make_pair(std::array<size_t,2>{f_i,g_i}, lo));
             return lo;
+        }
 
         if(reduction.count({lo,hi,v}) > 0)
-            return reduction.find({lo,hi,v})->second;
+        {
+            const size_t reduced_idx = reduction.find({lo,hi,v})->second;
+            generated_nodes.insert(std::make_pair(std::array<size_t,2>{f_i,g_i}, reduced_idx));
+            return reduced_idx;
+        }
 
         stack.push_back({lo, hi, v});
         if(stack.size() > node_limit)
@@ -131,7 +132,9 @@ namespace BDD {
 
             if(root_idx != std::numeric_limits<size_t>::max())
             {
-                assert(stack.size() > 2);
+                // a constant result must come first
+                if(root_idx == 0)
+                    std::swap(stack[0], stack[1]);
                 const size_t offset = bdd_delimiters.back();
                 for(ptrdiff_t s = stack.size()-1; s>=0; --s)
                 {
@@ -264,10 +267,17 @@ namespace BDD {
             return std::numeric_limits<size_t>::max();
 
         if(lo == hi)
+        {
+            generated_nodes.insert(std::make_pair(bdds, lo));
             return lo;
+        }
 
         if(reduction.count({lo,hi,v}) > 0)
-            return reduction.find({lo,hi,v})->second;
+        {
+            const size_t reduced_idx = reduction.find({lo,hi,v})->second;
+            generated_nodes.insert(std::make_pair(bdds, reduced_idx));
+            return reduced_idx;
+        }
 
         stack.push_back({lo, hi, v});
         if(stack.size() > node_limit)
-- 
2.43.0


From c2574fe0ea3c4d80106092e3cc7364e5b21e255e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:59 +0000
Subject: [PATCH 17/29] fix: do not read past the last index in
 bdd_collection::remove

---
 include/bdd_collection.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bdd_collection.h b/include/bdd_collection.h
index 07c3ed4..8828bb6 100644
--- a/include/bdd_collection.h
+++ b/include/bdd_collection.h
@@ -265,7 +265,7 @@ namespace BDD {
             auto bdd_it = bdd_it_begin;
             for(size_t bdd_nr=*bdd_it; bdd_nr<nr_bdds(); ++bdd_nr)
             {
-                if(bdd_nr == *bdd_it) // skip bdd
+                if(bdd_it != bdd_it_end && bdd_nr == *bdd_it) // skip bdd
                 {
                     ++bdd_it;
                 }
-- 
2.43.0


From 11df8666b72cc51e5aeb536bd0292dc2e3ee01af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:59 +0000
Subject: [PATCH 18/29] fix: graphviz export of constants

---
 include/bdd_collection.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bdd_collection.h b/include/bdd_collection.h
index 8828bb6..07920e0 100644
--- a/include/bdd_collection.h
+++ b/include/bdd_collection.h
@@ -482,7 +482,7 @@ namespace BDD {
             for(auto [x,y] : cluster_nodes)
                 cluster_nodes2.push_back({x,y});
             std::sort(cluster_nodes2.begin(), cluster_nodes2.end(), [](const auto a, const auto b) { return a[0] < b[0]; });
-            for(size_t c=0; c<cluster_nodes2.size()-1; ++c)
+            for(size_t c=0; c+1<cluster_nodes2.size(); ++c)
                 s << cluster_nodes2[c][1] << " -> " << cluster_nodes2[c+1][1] << " [style=invis];\n";
 
             for(size_t i=bdd_delimiters[bdd_nr]; i<bdd_delimiters[bdd_nr+1]; ++i)
-- 
2.43.0


From 71475b28010a42384eb596d4eb70e7289f29d6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:44 +0000
Subject: [PATCH 19/29] fix: find the sinks of collection entries in either
 order

Imported bdds end with botsink, topsink, synthesised and built ones with
topsink, botsink.
---
 src/bdd_collection.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/bdd_collection.cpp b/src/bdd_collection.cpp
index 367e202..0b57df1 100644
--- a/src/bdd_collection.cpp
+++ b/src/bdd_collection.cpp
@@ -659,14 +659,17 @@ namespace BDD {
 
     bdd_collection_node bdd_collection_entry::botsink() const
     {
-        bdd_collection_node node(bdd_col.bdd_delimiters[bdd_nr+1]-2, *this);
+        // the two sinks come last in either order
+        const size_t last = bdd_col.bdd_delimiters[bdd_nr+1]-1;
+        bdd_collection_node node(bdd_col.bdd_instructions[last].is_botsink() ? last : last-1, *this);
         assert(node.is_botsink());
         return node;
     }
 
     bdd_collection_node bdd_collection_entry::topsink() const
     {
-        bdd_collection_node node(bdd_col.bdd_delimiters[bdd_nr+1]-1, *this);
+        const size_t last = bdd_col.bdd_delimiters[bdd_nr+1]-1;
+        bdd_collection_node node(bdd_col.bdd_instructions[last].is_topsink() ? last : last-1, *this);
         assert(node.is_topsink());
         return node;
     }
-- 
2.43.0


From 37f7a43de5f33f285814727df0293b5bbe44a888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:44 +0000
Subject: [PATCH 20/29] fix: keep the entry in bdd_collection_node by value

Nodes held a reference to the entry wrapper they came from, which is usually a
temporary (collection[i].root_node(), add_bdd_node()), and read it after its
lifetime.
---
 include/bdd_collection.h | 57 ++++++++++++++++++++--------------------
 src/bdd_collection.cpp   |  2 +-
 2 files changed, 30 insertions(+), 29 deletions(-)

diff --git a/include/bdd_collection.h b/include/bdd_collection.h
index 07920e0..b5d0807 100644
--- a/include/bdd_collection.h
+++ b/include/bdd_collection.h
@@ -54,7 +54,34 @@ namespace BDD {
         } 
     };
 
-    class bdd_collection_entry;
+    class bdd_collection;
+    class bdd_collection_node;
+
+    // convenience class to make bdd_collection bdds behave similary to node_ref
+    class bdd_collection_entry 
+    {
+        friend class bdd_collection_node;
+        public:
+            bdd_collection_entry(const size_t _bdd_nr, bdd_collection& _bdd_col);
+            std::vector<size_t> variables();
+            bdd_collection_entry operator&(bdd_collection_entry& o);
+            bdd_collection_node operator[](const size_t i) const;
+            size_t nr_nodes() const;
+            size_t nr_nodes(const size_t variable) const;
+            template<typename ITERATOR>
+                void rebase(ITERATOR var_map_begin, ITERATOR var_map_end);
+            template<typename VAR_MAP>
+                void rebase(const VAR_MAP& var_map);
+
+            bdd_collection_node root_node() const;
+            bdd_collection_node first_node_postorder() const;
+            bdd_collection_node botsink() const;
+            bdd_collection_node topsink() const;
+
+        private:
+            const size_t bdd_nr;
+            bdd_collection& bdd_col;
+    };
 
     // convenience class for wrapping bdd node
     class bdd_collection_node
@@ -85,33 +112,7 @@ namespace BDD {
 
         private:
             size_t i; 
-            const bdd_collection_entry& bce;
-    };
-
-    // convenience class to make bdd_collection bdds behave similary to node_ref
-    class bdd_collection_entry 
-    {
-        friend class bdd_collection_node;
-        public:
-            bdd_collection_entry(const size_t _bdd_nr, bdd_collection& _bdd_col);
-            std::vector<size_t> variables();
-            bdd_collection_entry operator&(bdd_collection_entry& o);
-            bdd_collection_node operator[](const size_t i) const;
-            size_t nr_nodes() const;
-            size_t nr_nodes(const size_t variable) const;
-            template<typename ITERATOR>
-                void rebase(ITERATOR var_map_begin, ITERATOR var_map_end);
-            template<typename VAR_MAP>
-                void rebase(const VAR_MAP& var_map);
-
-            bdd_collection_node root_node() const;
-            bdd_collection_node first_node_postorder() const;
-            bdd_collection_node botsink() const;
-            bdd_collection_node topsink() const;
-
-        private:
-            const size_t bdd_nr;
-            bdd_collection& bdd_col;
+            bdd_collection_entry bce;
     };
 
     class bdd_collection {
diff --git a/src/bdd_collection.cpp b/src/bdd_collection.cpp
index 0b57df1..58559a9 100644
--- a/src/bdd_collection.cpp
+++ b/src/bdd_collection.cpp
@@ -781,7 +781,7 @@ namespace BDD {
 
     bdd_collection_node bdd_collection_node::operator=(const bdd_collection_node& o)
     {
-        assert(&bce == &o.bce);
+        assert(&bce.bdd_col == &o.bce.bdd_col && bce.bdd_nr == o.bce.bdd_nr);
         i = o.i;
         return *this;
     }
-- 
2.43.0


From 1e6a8cad25d7bc5ca2fa720e2509c12990c0df87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:44 +0000
Subject: [PATCH 21/29] fix: make building a bdd node by node work

add_bdd_node did not extend the new bdd, so its node was out of range; sinks
were looked up before close_bdd added them; close_bdd visited one wrapped
around range and left its nodes unfinished. Unset arcs are now reported before
anything is changed.
---
 include/bdd_collection.h |  3 +++
 src/bdd_collection.cpp   | 57 ++++++++++++++++++++++++----------------
 2 files changed, 37 insertions(+), 23 deletions(-)

diff --git a/include/bdd_collection.h b/include/bdd_collection.h
index b5d0807..2b80dcf 100644
--- a/include/bdd_collection.h
+++ b/include/bdd_collection.h
@@ -79,6 +79,9 @@ namespace BDD {
             bdd_collection_node topsink() const;
 
         private:
+            // bdd is under construction and has no sinks yet
+            bool is_open() const;
+
             const size_t bdd_nr;
             bdd_collection& bdd_col;
     };
diff --git a/src/bdd_collection.cpp b/src/bdd_collection.cpp
index 58559a9..6679c48 100644
--- a/src/bdd_collection.cpp
+++ b/src/bdd_collection.cpp
@@ -577,37 +577,41 @@ namespace BDD {
         instr.lo = bdd_instruction::temp_undefined_index;
         instr.hi = bdd_instruction::temp_undefined_index;
         bdd_instructions.push_back(instr);
+        bdd_delimiters.back() = bdd_instructions.size();
         return bdd_collection_node(bdd_instructions.size()-1, bdd_collection_entry(bdd_delimiters.size()-2, *this));
     }
 
     void bdd_collection::close_bdd()
     {
+        const size_t begin = bdd_delimiters[bdd_delimiters.size()-2];
+        const size_t end = bdd_delimiters.back();
+        assert(end == bdd_instructions.size());
+
+        for(size_t idx=begin; idx<end; ++idx)
+        {
+            if(bdd_instructions[idx].lo == bdd_instruction::temp_undefined_index)
+                throw std::runtime_error("bdd lo arc not set");
+            if(bdd_instructions[idx].hi == bdd_instruction::temp_undefined_index)
+                throw std::runtime_error("bdd hi arc not set");
+        }
+
         // add top and botsink
         bdd_instructions.push_back(bdd_instruction::topsink());
         bdd_instructions.push_back(bdd_instruction::botsink());
 
         // go over previous bdd instructions and reroute topsink and botsink entries to correct entries
-        for(size_t idx=bdd_delimiters[bdd_delimiters.size()-2]; idx<bdd_delimiters[bdd_delimiters.size()-1]-2; ++idx)
+        for(size_t idx=begin; idx<end; ++idx)
         {
             auto& instr = bdd_instructions[idx];
-
-            if(instr.lo == bdd_instruction::temp_undefined_index)
-                throw std::runtime_error("bdd lo arc not set");
-            else if(instr.lo == bdd_instruction::temp_topsink_index)
-                instr.lo = bdd_instructions.size()-2;
-            else if(instr.lo == bdd_instruction::temp_botsink_index)
-                instr.lo = bdd_instructions.size()-1;
-            else
-                assert(instr.lo < bdd_instructions.size() && instr.lo >= bdd_delimiters[bdd_delimiters.size()-2]);
-
-            if(instr.hi == bdd_instruction::temp_undefined_index)
-                throw std::runtime_error("bdd hi arc not set");
-            else if(instr.hi == bdd_instruction::temp_topsink_index)
-                instr.hi = bdd_instructions.size()-2;
-            else if(instr.hi == bdd_instruction::temp_botsink_index)
-                instr.hi = bdd_instructions.size()-1;
-            else
-                assert(instr.hi < bdd_instructions.size() && instr.hi >= bdd_delimiters[bdd_delimiters.size()-2]); 
+            for(size_t* arc : {&instr.lo, &instr.hi})
+            {
+                if(*arc == bdd_instruction::temp_topsink_index)
+                    *arc = bdd_instructions.size()-2;
+                else if(*arc == bdd_instruction::temp_botsink_index)
+                    *arc = bdd_instructions.size()-1;
+                else
+                    assert(*arc < end && *arc >= begin);
+            }
         }
 
         bdd_delimiters.back() = bdd_instructions.size();
@@ -657,6 +661,13 @@ namespace BDD {
         return bdd_collection_node(bdd_col.bdd_delimiters[bdd_nr+1]-3, *this);
     }
 
+    bool bdd_collection_entry::is_open() const
+    {
+        assert(nr_nodes() > 0);
+        const bdd_instruction& last = bdd_col.bdd_instructions[bdd_col.bdd_delimiters[bdd_nr+1]-1];
+        return !last.is_botsink() && !last.is_topsink();
+    }
+
     bdd_collection_node bdd_collection_entry::botsink() const
     {
         // the two sinks come last in either order
@@ -740,25 +751,25 @@ namespace BDD {
     void bdd_collection_node::set_lo_to_0_terminal()
     {
         auto& instr = bce.bdd_col.bdd_instructions[i];
-        instr.lo = bce.botsink().i;
+        instr.lo = bce.is_open() ? bdd_instruction::temp_botsink_index : bce.botsink().i;
     }
 
     void bdd_collection_node::set_lo_to_1_terminal()
     {
         auto& instr = bce.bdd_col.bdd_instructions[i];
-        instr.lo = bce.topsink().i;
+        instr.lo = bce.is_open() ? bdd_instruction::temp_topsink_index : bce.topsink().i;
     }
 
     void bdd_collection_node::set_hi_to_0_terminal()
     {
         auto& instr = bce.bdd_col.bdd_instructions[i];
-        instr.hi = bce.botsink().i;
+        instr.hi = bce.is_open() ? bdd_instruction::temp_botsink_index : bce.botsink().i;
     }
 
     void bdd_collection_node::set_hi_to_1_terminal()
     {
         auto& instr = bce.bdd_col.bdd_instructions[i];
-        instr.hi = bce.topsink().i;
+        instr.hi = bce.is_open() ? bdd_instruction::temp_topsink_index : bce.topsink().i;
     }
 
     bdd_collection_node bdd_collection_node::next_postorder() const
-- 
2.43.0


From 34169de3da8740a08dcad26da9cd4b99b6fd4f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:28 +0000
Subject: [PATCH 22/29] fix: compute the disjunction with literals correctly

bdd_or_var rerouted arcs of nodes on the given variables. Paths skipping a
variable and variables outside the diagram were not treated, reduce() did not
forward arcs to removed nodes, left unreachable nodes behind and wrote to the
standard output. Synthesise the disjunction like the conjunction is.
---
 include/bdd_collection.h |  53 ++++------------
 src/bdd_collection.cpp   | 129 +++++++++++++++++++--------------------
 2 files changed, 76 insertions(+), 106 deletions(-)

diff --git a/include/bdd_collection.h b/include/bdd_collection.h
index 2b80dcf..4ab628d 100644
--- a/include/bdd_collection.h
+++ b/include/bdd_collection.h
@@ -169,11 +169,12 @@ namespace BDD {
                 size_t bdd_and(const std::array<size_t,N>& bdds, const size_t node_limit);
             template<size_t N>
             size_t bdd_and_impl(const std::array<size_t,N>& bdds, std::unordered_map<std::array<size_t,N>,size_t,array_hasher<N>>& generated_nodes, const size_t node_limit);
+            // literals are sorted and distinct
+            size_t bdd_or_literals(const size_t i, const std::vector<std::pair<size_t,bool>>& literals);
+            size_t bdd_or_literals_impl(const size_t f_i, const size_t l, const std::vector<std::pair<size_t,bool>>& literals);
             size_t splitting_variable(const bdd_instruction& k, const bdd_instruction& l) const;
             size_t add_bdd_impl(node_ref bdd);
             bool is_bdd(const size_t i) const;
-            // bring last DAG into BDD-form
-            void reduce();
 
             std::vector<bdd_instruction> bdd_instructions;
             std::vector<size_t> bdd_delimiters = {0};
@@ -378,45 +379,15 @@ namespace BDD {
         size_t bdd_collection::bdd_or_var(const size_t i, const VAR_SET& positive_variables, const VAR_SET& negative_variables)
         {
             assert(i < nr_bdds());
-            // copy old bdd instructions
-            for(size_t idx=bdd_delimiters[i]; idx<bdd_delimiters[i+1]; ++idx)
-            {
-                bdd_instruction instr = bdd_instructions[idx];
-                if(!instr.is_terminal())
-                {
-                    instr.lo += bdd_delimiters.back() - bdd_delimiters[i];
-                    instr.hi += bdd_delimiters.back() - bdd_delimiters[i];
-                }
-                bdd_instructions.push_back(instr);
-            }
-            bdd_delimiters.push_back(bdd_instructions.size());
-
-            assert(bdd_instructions.back().is_terminal());
-            assert(bdd_instructions[bdd_instructions.size()-2].is_terminal());
-            assert(bdd_instructions[bdd_instructions.size()-1] != bdd_instructions[bdd_instructions.size()-2]);
-
-            const size_t botsink_index = bdd_instructions[bdd_instructions.size()-1].is_botsink() ? bdd_instructions.size()-1 : bdd_instructions.size()-2;
-            assert(bdd_instructions[botsink_index].is_botsink());
-            const size_t topsink_index = bdd_instructions[bdd_instructions.size()-1].is_topsink() ? bdd_instructions.size()-1 : bdd_instructions.size()-2;
-            assert(bdd_instructions[topsink_index].is_topsink());
-            assert(botsink_index != topsink_index);
-
-            // reroute arcs to topsink for instructions that cover positive or negative variables
-            const size_t new_bdd_nr = bdd_delimiters.size()-2;
-            for(size_t idx=bdd_delimiters[new_bdd_nr]; idx<bdd_delimiters[new_bdd_nr+1]; ++idx)
-            {
-                auto& instr = bdd_instructions[idx];
-                if(instr.is_terminal())
-                    continue;
-                if(positive_variables.count(instr.index) > 0)
-                    instr.hi = topsink_index; 
-                if(negative_variables.count(instr.index) > 0)
-                    instr.lo = topsink_index; 
-            }
-
-            reduce(); 
-            assert(is_bdd(new_bdd_nr));
-            return new_bdd_nr;
+            // value is true for positive and false for negative literal
+            std::vector<std::pair<size_t,bool>> literals;
+            for(const size_t v : positive_variables)
+                literals.push_back({v, true});
+            for(const size_t v : negative_variables)
+                literals.push_back({v, false});
+            std::sort(literals.begin(), literals.end());
+            literals.erase(std::unique(literals.begin(), literals.end()), literals.end());
+            return bdd_or_literals(i, literals);
         }
 
 
diff --git a/src/bdd_collection.cpp b/src/bdd_collection.cpp
index 6679c48..774e043 100644
--- a/src/bdd_collection.cpp
+++ b/src/bdd_collection.cpp
@@ -466,81 +466,80 @@ namespace BDD {
         return true;
     }
 
-    void bdd_collection::reduce()
+    size_t bdd_collection::bdd_or_literals(const size_t i, const std::vector<std::pair<size_t,bool>>& literals)
     {
-        assert(nr_bdds() > 0);
-        const size_t bdd_nr = nr_bdds() - 1;
+        assert(i < nr_bdds());
+        assert(stack.empty());
+        assert(generated_nodes.empty());
+        assert(reduction.empty());
+
+        // generate terminal vertices
+        stack.push_back(bdd_instruction::botsink());
+        stack.push_back(bdd_instruction::topsink());
+
+        // a variable and its negation together are always true
+        bool complementary = false;
+        for(size_t l=0; l+1<literals.size(); ++l)
+            if(literals[l].first == literals[l+1].first)
+                complementary = true;
+        const size_t root_idx = complementary ? 1 : bdd_or_literals_impl(bdd_delimiters[i], 0, literals);
 
-        std::vector<char> remove(nr_bdd_nodes(bdd_nr), false);
-        
-        // remove nodes with identical lo and hi arcs
-        for(std::ptrdiff_t idx=bdd_delimiters[bdd_nr+1]-3; idx>=bdd_delimiters[bdd_nr]; --idx)
+        // a constant result must come first
+        if(root_idx == 0)
+            std::swap(stack[0], stack[1]);
+        const size_t offset = bdd_delimiters.back();
+        for(ptrdiff_t s = stack.size()-1; s>=0; --s)
         {
-            bdd_instruction& instr = bdd_instructions[idx];
-            bdd_instruction& lo = bdd_instructions[instr.lo];
-            bdd_instruction& hi = bdd_instructions[instr.hi];
-            if(!lo.is_terminal() && lo.lo == lo.hi)
-                instr.lo = bdd_instructions[lo.lo].lo;
-            if(!hi.is_terminal() && hi.lo == hi.hi)
-                instr.hi = bdd_instructions[hi.hi].hi;
-            if(instr.lo == instr.hi)
-            {
-                std::cout << "remove instr due to same lo and hi\n";
-                remove[idx - bdd_delimiters[bdd_nr]] = true;
-            }
+            const bdd_instruction bdd_stack = stack[s];
+            const size_t lo = offset + stack.size() - bdd_stack.lo - 1;
+            const size_t hi = offset + stack.size() - bdd_stack.hi - 1;
+            bdd_instructions.push_back({lo, hi, bdd_stack.index});
         }
+        bdd_delimiters.push_back(bdd_instructions.size());
+        assert(is_bdd(bdd_delimiters.size()-2));
 
-        // remove isomorphic subgraphs
-        std::unordered_map<bdd_instruction, size_t, bdd_instruction_hasher> bdd_map;
-        bdd_map.insert({bdd_instructions[bdd_delimiters[bdd_nr+1]-1], bdd_delimiters[bdd_nr+1]-1});
-        bdd_map.insert({bdd_instructions[bdd_delimiters[bdd_nr+1]-2], bdd_delimiters[bdd_nr+1]-2});
-        for(std::ptrdiff_t idx=bdd_delimiters[bdd_nr+1]-3; idx>=bdd_delimiters[bdd_nr]; --idx)
+        generated_nodes.clear();
+        reduction.clear();
+        stack.clear();
+        return bdd_delimiters.size()-2;
+    }
+
+    // disjunction of bdd rooted at f_i and literals from position l on. Return index on stack.
+    size_t bdd_collection::bdd_or_literals_impl(const size_t f_i, const size_t l, const std::vector<std::pair<size_t,bool>>& literals)
+    {
+        auto it = generated_nodes.find({f_i,l});
+        if(it != generated_nodes.end())
+            return it->second;
+
+        const bdd_instruction& f = bdd_instructions[f_i];
+        if(f.is_topsink())
+            return 1; //topsink position on stack
+        if(f.is_botsink() && l == literals.size())
+            return 0; //botsink position on stack
+
+        const bool split_literal = l < literals.size() && (f.is_botsink() || literals[l].first <= f.index);
+        const size_t v = split_literal ? literals[l].first : f.index;
+        const bool split_f = !f.is_botsink() && v == f.index;
+        const size_t l_next = split_literal ? l+1 : l;
+
+        const size_t lo = split_literal && !literals[l].second ? 1 : bdd_or_literals_impl(split_f ? f.lo : f_i, l_next, literals);
+        const size_t hi = split_literal && literals[l].second ? 1 : bdd_or_literals_impl(split_f ? f.hi : f_i, l_next, literals);
+
+        size_t idx = lo;
+        if(lo != hi)
         {
-            if(remove[idx - bdd_delimiters[bdd_nr]])
-                continue;
-            bdd_instruction& instr = bdd_instructions[idx];
-            auto it = bdd_map.find(instr);
-            if(it == bdd_map.end())
-                bdd_map.insert({instr, idx});
+            auto red_it = reduction.find({lo,hi,v});
+            if(red_it != reduction.end())
+                idx = red_it->second;
             else
             {
-                remove[idx - bdd_delimiters[bdd_nr]] = true;
-                std::cout << "remove due to isomorphic subgraphs\n";
+                stack.push_back({lo, hi, v});
+                idx = stack.size()-1;
+                reduction.insert(std::make_pair(bdd_instruction{lo,hi,v}, idx));
             }
-            assert(bdd_map.count(bdd_instructions[instr.lo]) > 0);
-            assert(bdd_map.count(bdd_instructions[instr.hi]) > 0);
-            instr.lo = bdd_map.find(bdd_instructions[instr.lo])->second;
-            instr.hi = bdd_map.find(bdd_instructions[instr.hi])->second;
-        }
-
-        // compactify: remove unused instructions and move remaining ones to contiguous placement
-        const size_t nr_remaining_instructions = std::count(remove.begin(), remove.end(), false);
-        std::vector<bdd_instruction> new_bdd_instructions;
-        new_bdd_instructions.reserve(nr_remaining_instructions);
-        std::vector<size_t> address_delta;
-        // TODO: counted correctly?
-        address_delta.reserve(nr_bdd_nodes(bdd_nr));
-        address_delta.push_back(0);
-        std::partial_sum(remove.begin(), remove.end()-1, std::back_inserter(address_delta));
-            
-        for(size_t idx=bdd_delimiters[bdd_nr]; idx<bdd_delimiters[bdd_nr+1]-2; ++idx)
-        {
-            if(remove[idx - bdd_delimiters[bdd_nr]])
-                continue;
-            bdd_instruction instr = bdd_instructions[idx];
-            instr.lo -= address_delta[instr.lo-bdd_delimiters[bdd_nr]];
-            instr.hi -= address_delta[instr.hi-bdd_delimiters[bdd_nr]]; 
-            new_bdd_instructions.push_back(instr);
         }
-        new_bdd_instructions.push_back(bdd_instructions[bdd_delimiters[bdd_nr+1]-2]);
-        new_bdd_instructions.push_back(bdd_instructions[bdd_delimiters[bdd_nr+1]-1]);
-        std::cout << "new bdd has " << new_bdd_instructions.size() << " nodes\n";
-
-        bdd_instructions.resize(bdd_delimiters[bdd_nr]);
-        for(const auto instr : new_bdd_instructions)
-            bdd_instructions.push_back(instr);
-        bdd_delimiters.back() = bdd_instructions.size(); 
-        assert(is_bdd(bdd_nr));
+        generated_nodes.insert(std::make_pair(std::array<size_t,2>{f_i,l}, idx));
+        return idx;
     }
 
     std::vector<size_t> bdd_collection::variables(const size_t bdd_nr) const
-- 
2.43.0


From 76cd49771a33f5a6f0d93e230186ae1b785f0ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:13 +0000
Subject: [PATCH 23/29] fix: give each thread a generator of hash keys of its
 own

The generator was shared by all managers of the process, so that two managers
in different threads disturbed each other.
---
 src/bdd_node.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bdd_node.cpp b/src/bdd_node.cpp
index 25db2fa..bcba143 100644
--- a/src/bdd_node.cpp
+++ b/src/bdd_node.cpp
@@ -27,9 +27,9 @@ namespace BDD {
         marked_ = 0;
         xref = 0;
 
-        static std::random_device rd;
-        static std::mt19937 unique_table_gen(rd());
-        static std::uniform_int_distribution<std::size_t> unique_table_distribution(0,hashtablesize-1);
+        static thread_local std::random_device rd;
+        static thread_local std::mt19937 unique_table_gen(rd());
+        static thread_local std::uniform_int_distribution<std::size_t> unique_table_distribution(0,hashtablesize-1);
 
         hash_key = unique_table_distribution(unique_table_gen);
 #ifdef LBDD_VERIF_HASHKEYS
-- 
2.43.0


From 8e9d6c452cbc69f8a921fc96f6ea4cc1a444d36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:05 +0000
Subject: [PATCH 24/29] fix: keep unique tables and memo intact when garbage
 collection runs out of memory

---
 src/bdd_mgr.cpp |  7 +++++++
 src/bdd_var.cpp | 19 ++++++++++++++-----
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/bdd_mgr.cpp b/src/bdd_mgr.cpp
index 700ce0e..012a00e 100644
--- a/src/bdd_mgr.cpp
+++ b/src/bdd_mgr.cpp
@@ -393,12 +393,19 @@ namespace BDD {
 */
 
     void bdd_mgr::collect_garbage()
+    try
     {
         for(size_t i=0; i<vars.size(); ++i)
             vars[i].remove_dead_nodes();
 
         memo_.purge();
     }
+    catch(...)
+    {
+        // no memory, but nodes already removed must not be found any more
+        memo_.purge();
+        throw;
+    }
 
     node_ref bdd_mgr::add_bdd(bdd_collection& bdd_col, const size_t bdd_nr)
     {
diff --git a/src/bdd_var.cpp b/src/bdd_var.cpp
index 2a91755..51df21f 100644
--- a/src/bdd_var.cpp
+++ b/src/bdd_var.cpp
@@ -204,7 +204,20 @@ namespace BDD {
 
     void var_struct::remove_dead_nodes()
     {
+        // allocate all memory before the table is changed, allocation may fail
         std::vector<node*> live_nodes;
+        live_nodes.reserve(hash_table_size() - free);
+
+        // reduce size of unique table if too sparsely populated
+        size_t nr_live_nodes = 0;
+        for(std::size_t k = 0; k < hash_table_size(); ++k)
+            if(fetch_node(k) != nullptr && !fetch_node(k)->dead())
+                ++nr_live_nodes;
+        size_t new_mask = mask;
+        while(new_mask > 63 && double(nr_live_nodes) <= min_unique_table_fill * double(new_mask+1))
+            new_mask = (new_mask+1)/2 - 1;
+        node** new_base = new_mask != mask ? new_page(new_mask) : base;
+
         for(std::size_t k = 0; k < hash_table_size(); ++k)
         {
             node* p = fetch_node(k);
@@ -217,13 +230,9 @@ namespace BDD {
                 live_nodes.push_back(p);
         }
 
-        // reduce size of unique table if too sparsely populated
-        size_t new_mask = mask;
-        while(new_mask > 63 && double(live_nodes.size()) <= min_unique_table_fill * double(new_mask+1))
-            new_mask = (new_mask+1)/2 - 1;
+        assert(live_nodes.size() == nr_live_nodes);
         if(new_mask != mask)
         {
-            node** new_base = new_page(new_mask);
             free_page(base, mask);
             base = new_base;
             mask = new_mask;
-- 
2.43.0


From 8fb62a968f9b2ee2062c6b198a5917796dd76b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:18 +0000
Subject: [PATCH 25/29] fix: keep unique table intact when it cannot be
 enlarged for lack of memory

---
 src/bdd_var.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bdd_var.cpp b/src/bdd_var.cpp
index 51df21f..7570d5e 100644
--- a/src/bdd_var.cpp
+++ b/src/bdd_var.cpp
@@ -67,8 +67,8 @@ namespace BDD {
         node** old_page = base;
         const size_t old_mask = mask;
 
+        base = new_page(mask + mask + 1); // may fail
         mask = mask + mask + 1;
-        base = new_page(mask); 
 
         for(size_t i=0; i<=mask; ++i)
             assert(base[i] == nullptr);
-- 
2.43.0


From ae5d4cc6f1ed2462f6243c8520d11973e6a0e65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:14 +0000
Subject: [PATCH 26/29] fix: remove marks when a query runs out of memory

---
 src/bdd_node.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/bdd_node.cpp b/src/bdd_node.cpp
index bcba143..2c8e078 100644
--- a/src/bdd_node.cpp
+++ b/src/bdd_node.cpp
@@ -64,6 +64,7 @@ namespace BDD {
     }
 
     std::vector<node*> node::nodes_postorder()
+    try
     {
         assert(marked_ == 0);
         std::vector<node*> n;
@@ -72,6 +73,11 @@ namespace BDD {
         assert(n.size() == nr_nodes());
         return n;
     }
+    catch(...)
+    {
+        unmark(); // no memory
+        throw;
+    }
 
     void node::nodes_postorder_impl(std::vector<node*>& n)
     {
@@ -88,6 +94,7 @@ namespace BDD {
     }
 
     std::vector<node*> node::nodes_bfs()
+    try
     {
         assert(marked_ == 0);
         std::vector<node*> nodes;
@@ -120,6 +127,11 @@ namespace BDD {
         assert(nodes.size() == nr_nodes());
         return nodes; 
     }
+    catch(...)
+    {
+        unmark(); // no memory
+        throw;
+    }
 
 
     void node::init_botsink(bdd_mgr* mgr)
@@ -191,6 +203,7 @@ namespace BDD {
     }
 
     std::vector<size_t> node_struct::variables()
+    try
     {
         std::vector<size_t> v;
         variables_impl(v);
@@ -199,6 +212,11 @@ namespace BDD {
         v.erase( std::unique(v.begin(), v.end() ), v.end());
         return v; 
     }
+    catch(...)
+    {
+        unmark(); // no memory
+        throw;
+    }
 
     void node_struct::variables_impl(std::vector<size_t>& v)
     {
-- 
2.43.0


From 8ffab8d688495fd4ff8f5783d129dec5eaf6671e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:55 +0000
Subject: [PATCH 27/29] fix: leave collections as they were when an operation
 runs out of memory

---
 include/bdd_collection.h | 10 ++++++++++
 src/bdd_collection.cpp   | 24 ++++++++++++++++++++++++
 2 files changed, 34 insertions(+)

diff --git a/include/bdd_collection.h b/include/bdd_collection.h
index 4ab628d..b88d553 100644
--- a/include/bdd_collection.h
+++ b/include/bdd_collection.h
@@ -174,6 +174,16 @@ namespace BDD {
             size_t bdd_or_literals_impl(const size_t f_i, const size_t l, const std::vector<std::pair<size_t,bool>>& literals);
             size_t splitting_variable(const bdd_instruction& k, const bdd_instruction& l) const;
             size_t add_bdd_impl(node_ref bdd);
+
+            // remove everything that an operation has done if it ends with an exception, e.g. for lack of memory
+            struct rollback_guard {
+                rollback_guard(bdd_collection& _bdd_col);
+                ~rollback_guard();
+                bdd_collection& bdd_col;
+                const size_t nr_delimiters;
+                const int nr_exceptions;
+            };
+
             bool is_bdd(const size_t i) const;
 
             std::vector<bdd_instruction> bdd_instructions;
diff --git a/src/bdd_collection.cpp b/src/bdd_collection.cpp
index 774e043..070df8c 100644
--- a/src/bdd_collection.cpp
+++ b/src/bdd_collection.cpp
@@ -2,6 +2,7 @@
 #include <deque>
 #include <cassert>
 #include <unordered_set>
+#include <exception>
 #include <iostream> // TODO: remove
 
 namespace BDD {
@@ -13,8 +14,27 @@ namespace BDD {
         return std::distance(&bdd_instructions[0], &instr); 
     }
 
+    bdd_collection::rollback_guard::rollback_guard(bdd_collection& _bdd_col)
+        : bdd_col(_bdd_col),
+        nr_delimiters(_bdd_col.bdd_delimiters.size()),
+        nr_exceptions(std::uncaught_exceptions())
+    {}
+
+    bdd_collection::rollback_guard::~rollback_guard()
+    {
+        if(std::uncaught_exceptions() <= nr_exceptions)
+            return;
+        bdd_col.bdd_delimiters.resize(nr_delimiters);
+        bdd_col.bdd_instructions.erase(bdd_col.bdd_instructions.begin() + bdd_col.bdd_delimiters.back(), bdd_col.bdd_instructions.end());
+        bdd_col.stack.clear();
+        bdd_col.generated_nodes.clear();
+        bdd_col.reduction.clear();
+        bdd_col.node_ref_hash.clear();
+    }
+
     size_t bdd_collection::bdd_and(const size_t i, const size_t j, const size_t node_limit)
     {
+        const rollback_guard guard(*this);
         assert(i < nr_bdds());
         assert(j < nr_bdds());
         assert(stack.empty());
@@ -111,6 +131,7 @@ namespace BDD {
     template<size_t N>
         size_t bdd_collection::bdd_and(const std::array<size_t,N>& bdds, const size_t node_limit)
         {
+            const rollback_guard guard(*this);
             for(const size_t bdd_nr : bdds)
             {
                 assert(bdd_nr < nr_bdds());
@@ -291,6 +312,7 @@ namespace BDD {
 
     size_t bdd_collection::add_bdd(node_ref root)
     {
+        const rollback_guard guard(*this);
         assert(bdd_delimiters.back() == bdd_instructions.size());
 
         auto nodes = root.nodes_postorder();
@@ -468,6 +490,7 @@ namespace BDD {
 
     size_t bdd_collection::bdd_or_literals(const size_t i, const std::vector<std::pair<size_t,bool>>& literals)
     {
+        const rollback_guard guard(*this);
         assert(i < nr_bdds());
         assert(stack.empty());
         assert(generated_nodes.empty());
@@ -582,6 +605,7 @@ namespace BDD {
 
     void bdd_collection::close_bdd()
     {
+        const rollback_guard guard(*this);
         const size_t begin = bdd_delimiters[bdd_delimiters.size()-2];
         const size_t end = bdd_delimiters.back();
         assert(end == bdd_instructions.size());
-- 
2.43.0


From 1228e0f49dc5e727fb9ea0753f655e221ae791ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:03 +0000
Subject: [PATCH 28/29] fix: do not lose unique table pages for lack of memory

---
 include/bdd_var.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/bdd_var.h b/include/bdd_var.h
index ffc5f76..07f85a0 100644
--- a/include/bdd_var.h
+++ b/include/bdd_var.h
@@ -158,7 +158,9 @@ unique_table_page_cache<PAGE_SIZE, NR_SIMUL_ALLOC>::~unique_table_page_cache()
 void unique_table_page_cache<PAGE_SIZE, NR_SIMUL_ALLOC>::increase_cache()
 {
     assert(page_avail == nullptr);
-    pages.push_back(new unique_table_page<PAGE_SIZE>[nr_pages_simultaneous_allocation]);
+    std::unique_ptr<unique_table_page<PAGE_SIZE>[]> new_pages(new unique_table_page<PAGE_SIZE>[nr_pages_simultaneous_allocation]);
+    pages.push_back(new_pages.get()); // may fail
+    new_pages.release();
     for(std::size_t i=0; i+1 < nr_pages_simultaneous_allocation; ++i)
         pages.back()[i].next_available = &(pages.back()[i+1]);
     page_avail = &(pages.back()[0]);
-- 
2.43.0


From 6f39103526315b9c2f7b3f403fd8cd0e24af0283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:10 +0000
Subject: [PATCH 29/29] fix: let consistency checks of collections do without
 memory

---
 src/bdd_collection.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/bdd_collection.cpp b/src/bdd_collection.cpp
index 070df8c..3c2d896 100644
--- a/src/bdd_collection.cpp
+++ b/src/bdd_collection.cpp
@@ -3,6 +3,7 @@
 #include <cassert>
 #include <unordered_set>
 #include <exception>
+#include <new>
 #include <iostream> // TODO: remove
 
 namespace BDD {
@@ -447,6 +448,7 @@ namespace BDD {
     }
 
     bool bdd_collection::is_bdd(const size_t bdd_nr) const
+    try
     {
         assert(bdd_nr < nr_bdds());
         // first check whether each bdd lo and hi pointers are directed properly and do not point to same node
@@ -487,6 +489,10 @@ namespace BDD {
 
         return true;
     }
+    catch(const std::bad_alloc&)
+    {
+        return true; // no memory for this check
+    }
 
     size_t bdd_collection::bdd_or_literals(const size_t i, const std::vector<std::pair<size_t,bool>>& literals)
     {
-- 
2.43.0

