From c41b21ed6ea2607a1add1e1bbdebf38824c2aaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:39 +0000
Subject: [PATCH 01/42] fix: report every native exception to Python instead of
 terminating the interpreter

handle_exceptions() only matched five exception classes, so anything else (for
example the MinorMinerException raised when every variable is fixed) escaped
from the handler; several native entry points, and all of busclique's, were
declared without 'except +'.
---
 minorminer/_minorminer_h.pxi |  8 +++----
 minorminer/busclique_h.pxi   | 42 ++++++++++++++++++------------------
 minorminer/src/pyutil.hpp    |  6 ++++++
 3 files changed, 31 insertions(+), 25 deletions(-)

diff --git a/minorminer/_minorminer_h.pxi b/minorminer/_minorminer_h.pxi
index ca9c138..3161688 100644
--- a/minorminer/_minorminer_h.pxi
+++ b/minorminer/_minorminer_h.pxi
@@ -91,7 +91,7 @@ cdef extern from "src/pyutil.hpp" namespace "":
 cdef extern from "../include/find_embedding/graph.hpp" namespace "graph":
     cppclass input_graph:
         input_graph()
-        void push_back(int,int)
+        void push_back(int,int) except +
         int num_nodes()
         void clear()
 
@@ -119,11 +119,11 @@ cdef extern from "../include/find_embedding/chain.hpp" namespace "find_embedding
         pathfinder_wrapper() except +handle_exceptions
         parameter_processor pp
         unique_ptr[pathfinder_public_interface] pf
-        pathfinder_wrapper(input_graph &, input_graph &, optional_parameters &)
+        pathfinder_wrapper(input_graph &, input_graph &, optional_parameters &) except +handle_exceptions
         int heuristicEmbedding() except +handle_exceptions
         int num_vars()
-        void get_chain(int, vector[int] &)
-        void set_initial_chains(chainmap &)
+        void get_chain(int, vector[int] &) except +handle_exceptions
+        void set_initial_chains(chainmap &) except +handle_exceptions
         void quickPass(const vector[int] &, int, int, bool, bool, double) except +handle_exceptions
         void quickPass(VARORDER, int, int, bool, bool, double) except +handle_exceptions
 
diff --git a/minorminer/busclique_h.pxi b/minorminer/busclique_h.pxi
index 5162e81..f62c30e 100644
--- a/minorminer/busclique_h.pxi
+++ b/minorminer/busclique_h.pxi
@@ -24,22 +24,22 @@ cdef extern from "../include/busclique/util.hpp" namespace "busclique":
         size_y dim_y
         size_x dim_x
         size_t shore
-        pegasus_spec(size_t, vector[uint8_t], vector[uint8_t], uint32_t)
-        nodes_t fragment_nodes(nodes_t)
+        pegasus_spec(size_t, vector[uint8_t], vector[uint8_t], uint32_t) except +
+        nodes_t fragment_nodes(nodes_t) except +
 
     cdef cppclass chimera_spec:
         size_y dim_y
         size_x dim_x
         size_t shore
-        chimera_spec(size_t, size_t, uint8_t, uint32_t)
-        nodes_t fragment_nodes(nodes_t)
+        chimera_spec(size_t, size_t, uint8_t, uint32_t) except +
+        nodes_t fragment_nodes(nodes_t) except +
 
     cdef cppclass zephyr_spec:
         size_y dim_y
         size_x dim_x
         size_t shore
-        zephyr_spec(size_t, uint8_t, uint32_t)
-        nodes_t fragment_nodes(nodes_t)
+        zephyr_spec(size_t, uint8_t, uint32_t) except +
+        nodes_t fragment_nodes(nodes_t) except +
 
     cdef cppclass serialize_size_tag:
         serialize_size_tag()
@@ -50,37 +50,37 @@ cdef extern from "../include/busclique/util.hpp" namespace "busclique":
 
 cdef extern from "../include/busclique/cell_cache.hpp" namespace "busclique":
     cdef cppclass cell_cache[T]:
-        cell_cache(T, nodes_t, edges_t)
+        cell_cache(T, nodes_t, edges_t) except +
 
 cdef extern from "../include/busclique/bundle_cache.hpp" namespace "busclique":
     cdef cppclass bundle_cache[T]:
-        bundle_cache(cell_cache[T] &)
+        bundle_cache(cell_cache[T] &) except +
 
 cdef extern from "../include/busclique/clique_cache.hpp" namespace "busclique":
     cdef cppclass clique_cache[T]:
-        clique_cache(cell_cache[T] &, bundle_cache[T] &, size_t)
-        clique_cache(cell_cache[T] &, bundle_cache[T] &, size_t, size_t)
+        clique_cache(cell_cache[T] &, bundle_cache[T] &, size_t) except +
+        clique_cache(cell_cache[T] &, bundle_cache[T] &, size_t, size_t) except +
 
     cdef cppclass clique_iterator[T]:
-        clique_iterator(cell_cache[T] &, clique_cache[T] &)
-        int next(embedding_t &)
+        clique_iterator(cell_cache[T] &, clique_cache[T] &) except +
+        int next(embedding_t &) except +
 
 cdef extern from "../include/busclique/topo_cache.hpp" namespace "busclique":
     cdef cppclass topo_cache[T]:
         T topo
-        topo_cache(T, nodes_t &, edges_t &)
-        size_t serialize[t](t, uint8_t *) const
-        nodes_t fragment_nodes() const
-        edges_t fragment_edges() const
-        void set_mask_bound(uint32_t)
+        topo_cache(T, nodes_t &, edges_t &) except +
+        size_t serialize[t](t, uint8_t *) except +
+        nodes_t fragment_nodes() except +
+        edges_t fragment_edges() except +
+        void set_mask_bound(uint32_t) except +
 
 cdef extern from "../include/busclique/find_clique.hpp" namespace "busclique":
-    int find_clique[T](topo_cache[T] &, size_t, embedding_t &)
-    void best_cliques[T](topo_cache[T], vector[embedding_t] &, embedding_t &)
-    int short_clique[T](T, nodes_t, edges_t, embedding_t &)
+    int find_clique[T](topo_cache[T] &, size_t, embedding_t &) except +
+    void best_cliques[T](topo_cache[T], vector[embedding_t] &, embedding_t &) except +
+    int short_clique[T](T, nodes_t, edges_t, embedding_t &) except +
 
 cdef extern from "../include/busclique/find_biclique.hpp" namespace "busclique":
-    void best_bicliques[T](topo_cache[T], vector[pair[pair[size_t, size_t], embedding_t]] &)
+    void best_bicliques[T](topo_cache[T], vector[pair[pair[size_t, size_t], embedding_t]] &) except +
 
 cdef extern from "../include/busclique/coordinate_types.hpp" namespace "busclique":
     cdef cppclass size_y:
diff --git a/minorminer/src/pyutil.hpp b/minorminer/src/pyutil.hpp
index 550a84e..fc89084 100644
--- a/minorminer/src/pyutil.hpp
+++ b/minorminer/src/pyutil.hpp
@@ -71,6 +71,12 @@ void handle_exceptions() {
         PyErr_SetString(PyExc_RuntimeError, e.what());
     } catch (const find_embedding::CorruptEmbeddingException &e) {
         PyErr_SetString(PyExc_AssertionError, e.what());
+    } catch (const std::bad_alloc &e) {
+        PyErr_SetString(PyExc_MemoryError, e.what());
+    } catch (const std::exception &e) {
+        PyErr_SetString(PyExc_RuntimeError, e.what());
+    } catch (...) {
+        PyErr_SetString(PyExc_RuntimeError, "unknown C++ exception");
     }
 }
 
-- 
2.43.0


From a3ea0df27dae754b23f79cd60f7e5c389cc51a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:26 +0000
Subject: [PATCH 02/42] fix: size the per-variable qubit permutations by the
 number of fixed variables

They are indexed by any variable, free or fixed; with fixed chains that share
qubits (fewer reserved qubits than fixed variables) the table was too short.
---
 include/find_embedding/pathfinder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/find_embedding/pathfinder.hpp b/include/find_embedding/pathfinder.hpp
index 84c6bf2..b5c1e9e 100644
--- a/include/find_embedding/pathfinder.hpp
+++ b/include/find_embedding/pathfinder.hpp
@@ -125,7 +125,7 @@ class pathfinder_base : public pathfinder_public_interface {
               qubit_permutations() {
         vector<int> permutation(num_qubits);
         for (int q = num_qubits; q--;) permutation[q] = q;
-        for (int v = num_vars + num_reserved; v--;) {
+        for (int v = num_vars + num_fixed; v--;) {
             ep.shuffle(permutation.begin(), permutation.end());
             qubit_permutations.push_back(permutation);
         }
-- 
2.43.0


From 2b0014a97252708a285913505afdc2635588cb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:26 +0000
Subject: [PATCH 03/42] fix: remove each used qubit when inflating a single
 cell

The masks were only updated after the loop, which therefore never ended and
grew the embedding until memory ran out (find_clique_embedding of a clique
that fits in one cell, without the cache).
---
 include/busclique/cell_cache.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/busclique/cell_cache.hpp b/include/busclique/cell_cache.hpp
index c629907..9390436 100644
--- a/include/busclique/cell_cache.hpp
+++ b/include/busclique/cell_cache.hpp
@@ -69,9 +69,9 @@ class cell_cache {
             vector<size_t> &chain = emb.back();
             topo.construct_line(0, vert(x), vert(y), vert(y), first_bit[k0], chain);
             topo.construct_line(1, horz(y), horz(x), horz(x), first_bit[k1], chain);
+            k0 ^= mask_bit[first_bit[k0]];
+            k1 ^= mask_bit[first_bit[k1]];
         }
-        k0 ^= mask_bit[first_bit[k0]];
-        k1 ^= mask_bit[first_bit[k1]];
     }
 
 };
-- 
2.43.0


From 0be30c3b7c651580902631adb697751eb7c0181c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:05 +0000
Subject: [PATCH 04/42] fix: only root a short chain at a qubit in the
 variable's restricted domain

find_chain masks the candidate roots with the domain of u; find_short_chain
did not.
---
 include/find_embedding/pathfinder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/find_embedding/pathfinder.hpp b/include/find_embedding/pathfinder.hpp
index b5c1e9e..61f3c86 100644
--- a/include/find_embedding/pathfinder.hpp
+++ b/include/find_embedding/pathfinder.hpp
@@ -406,7 +406,7 @@ class pathfinder_base : public pathfinder_public_interface {
                     q = z.node;
                     distance[q] = d = z.dist;
                     pq.pop();
-                    if (!emb.weight(q)) counts[q]++;
+                    if (!emb.weight(q) && ep.accepts_qubit(u, q)) counts[q]++;
 
                     if (counts[q] == degree) {
                         emb.construct_chain_steiner(u, q, parents, distances, visited_list);
-- 
2.43.0


From e9eed9b865aad72b2f633fe7bdebdbc27c9cd9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:48 +0000
Subject: [PATCH 05/42] fix: count a qubit once per chain when assigning a
 chain from a vector

---
 include/find_embedding/chain.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/find_embedding/chain.hpp b/include/find_embedding/chain.hpp
index e8e44d3..669a3f6 100644
--- a/include/find_embedding/chain.hpp
+++ b/include/find_embedding/chain.hpp
@@ -91,9 +91,8 @@ class chain {
     chain &operator=(const vector<int> &c) {
         clear();
         for (auto &q : c) {
-            data.emplace(q, pair<int, int>(q, 1));
             minorminer_assert(0 <= q && q < static_cast<int>(qubit_weight.size()));
-            qubit_weight[q]++;
+            if (data.emplace(q, pair<int, int>(q, 1)).second) qubit_weight[q]++;
         }
         DIAGNOSE_CHAIN();
         return *this;
-- 
2.43.0


From 4779f69097f5c3c4d00cba563444f9ef6b27bc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:48 +0000
Subject: [PATCH 06/42] fix: ignore initial chains of fixed variables and
 reserved qubits in them

Linking such a chain dereferenced a qubit that the chain does not contain, and
reserved qubits index past the arrays sized by the number of free qubits.
---
 include/find_embedding/embedding.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/find_embedding/embedding.hpp b/include/find_embedding/embedding.hpp
index 685e6c1..b11e7bd 100644
--- a/include/find_embedding/embedding.hpp
+++ b/include/find_embedding/embedding.hpp
@@ -86,10 +86,19 @@ class embedding {
 
         for (auto &vC : fixed_chains) fix_chain(vC.first, vC.second);
 
-        for (auto &vC : initial_chains)
-            if (!ep.fixed(vC.first)) set_chain(vC.first, vC.second);
-
+        // qubits reserved by fixed chains are not available to any other chain
+        map<int, vector<int>> usable_chains;
         for (auto &vC : initial_chains) {
+            if (ep.fixed(vC.first)) continue;
+            vector<int> usable;
+            for (auto &q : vC.second)
+                if (!ep.reserved(q)) usable.push_back(q);
+            if (usable.size()) usable_chains.emplace(vC.first, usable);
+        }
+
+        for (auto &vC : usable_chains) set_chain(vC.first, vC.second);
+
+        for (auto &vC : usable_chains) {
             int v = vC.first;
             auto &c = var_embedding[v];
             int root = vC.second[0];
-- 
2.43.0


From 986f78c4bd6f8b359123bba2fe16223dbb676a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:47 +0000
Subject: [PATCH 07/42] fix: translate a caller's variable order to the
 pathfinder's internal indices

With fixed chains the two differ: quickpass tore out fixed variables.
---
 include/find_embedding/find_embedding.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/find_embedding/find_embedding.hpp b/include/find_embedding/find_embedding.hpp
index 5ddebd5..1989230 100644
--- a/include/find_embedding/find_embedding.hpp
+++ b/include/find_embedding/find_embedding.hpp
@@ -123,7 +123,7 @@ class parameter_processor {
         vector<int> U;
         for (auto &v : V) {
             if (v < 0 || static_cast<unsigned int>(v) >= num_vars) throw CorruptParametersException();
-            if (!var_fixed_unscrewed[v]) U.push_back(v);
+            if (!var_fixed_unscrewed[v]) U.push_back(screw_vars[v]);
         }
         return U;
     }
-- 
2.43.0


From 55390dbc70d58b37062530b288fc49c5a33bdca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:55 +0000
Subject: [PATCH 08/42] fix: only run a local search for a variable that has a
 chain

quickpass(local_search=True) ran it on empty chains, which either never placed
the variable or stole through links that do not exist.
---
 include/find_embedding/pathfinder.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/find_embedding/pathfinder.hpp b/include/find_embedding/pathfinder.hpp
index 61f3c86..61f467f 100644
--- a/include/find_embedding/pathfinder.hpp
+++ b/include/find_embedding/pathfinder.hpp
@@ -555,8 +555,9 @@ class pathfinder_base : public pathfinder_public_interface {
                 lastsize = bestEmbedding.chainsize(u);
             }
 
-            bool ls = local_search;
-            if (ls && lastsize) {
+            // a local search starts from the current chain, so there must be one
+            bool ls = local_search && lastsize;
+            if (ls) {
                 for (auto &q : bestEmbedding.get_chain(u)) {
                     if (bestEmbedding.weight(q) > 1) {
                         ls = false;
-- 
2.43.0


From 012fc742897ad9653c4624ea277a0d3cf739c37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:18 +0000
Subject: [PATCH 09/42] fix: honour the overlap bound on the qubits next to a
 fixed chain

The search from a fixed chain started at its neighbours without the weight
check that every other expansion makes, so chains overlapped there even with
overlap_bound=0.
---
 include/find_embedding/pathfinder.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/find_embedding/pathfinder.hpp b/include/find_embedding/pathfinder.hpp
index 61f467f..f44fb7d 100644
--- a/include/find_embedding/pathfinder.hpp
+++ b/include/find_embedding/pathfinder.hpp
@@ -466,11 +466,12 @@ class pathfinder_base : public pathfinder_public_interface {
                             parent[p] = q;
                             visited[p] = 1;
                         }
-                    if (std::is_same<behavior_tag, default_tag>::value) {
-                        pq.emplace(p, permutation[p], qubit_weight[p]);
-                        parent[p] = q;
-                        visited[p] = 1;
-                    }
+                    if (std::is_same<behavior_tag, default_tag>::value)
+                        if (emb.weight(p) < ep.weight_bound) {
+                            pq.emplace(p, permutation[p], qubit_weight[p]);
+                            parent[p] = q;
+                            visited[p] = 1;
+                        }
                 }
             }
         } else {
-- 
2.43.0


From 2ddca01877e9b2a1fcc18aaf0b4d0788b3627b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:52 +0000
Subject: [PATCH 10/42] fix: keep the initialized embedding when the search
 times out during initialization

---
 include/find_embedding/pathfinder.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/find_embedding/pathfinder.hpp b/include/find_embedding/pathfinder.hpp
index f44fb7d..5c18303 100644
--- a/include/find_embedding/pathfinder.hpp
+++ b/include/find_embedding/pathfinder.hpp
@@ -604,6 +604,7 @@ class pathfinder_base : public pathfinder_public_interface {
             currEmbedding = initEmbedding;
             switch (initialization_pass(currEmbedding)) {
                 case -2:
+                    bestEmbedding = currEmbedding;  // the caller may ask for the overlapped chains
                     return 0;
                 case -1:
                     throw BadInitializationException(
-- 
2.43.0


From 5cff00b06d45f80ff8757ce41bef00ca870626f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:52 +0000
Subject: [PATCH 11/42] fix: return a tuple for an empty source graph when
 return_overlap is set

---
 minorminer/_minorminer.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/minorminer/_minorminer.pyx b/minorminer/_minorminer.pyx
index 53aad8f..fc9f6c0 100644
--- a/minorminer/_minorminer.pyx
+++ b/minorminer/_minorminer.pyx
@@ -287,7 +287,8 @@ def find_embedding(S, T, **params):
     try:
         _in = _input_parser(S, T, params)
     except EmptySourceGraphError:
-        return {}
+        # an empty mapping embeds the empty graph
+        return ({}, 1) if params.get("return_overlap") else {}
 
     cdef vector[int] chain
     cdef vector[vector[int]] chains
-- 
2.43.0


From 13994f4ebe461c4db4f7784f7a2b54050a04a789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:12 +0000
Subject: [PATCH 12/42] fix: give chainlength_patience its documented default
 in the native parameters

---
 include/find_embedding/util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/find_embedding/util.hpp b/include/find_embedding/util.hpp
index 7697ab5..1723f6d 100644
--- a/include/find_embedding/util.hpp
+++ b/include/find_embedding/util.hpp
@@ -138,7 +138,7 @@ class optional_parameters {
     int inner_rounds = numeric_limits<int>::max();
     int max_fill = numeric_limits<int>::max();
     bool return_overlap = false;
-    int chainlength_patience = 2;
+    int chainlength_patience = 10;
     int threads = 1;
     bool skip_initialization = false;
     map<int, vector<int>> fixed_chains;
-- 
2.43.0


From 22c82fcea81bbc9db82efafd05d97af0fb0c95f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:01 +0000
Subject: [PATCH 13/42] fix: end the search when a stop is noticed during the
 overfill phase

An interrupt or timeout there only ended the current trial: another initialization pass (and, with
interactive=True, the whole rest of the search) still ran.
---
 include/find_embedding/pathfinder.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/find_embedding/pathfinder.hpp b/include/find_embedding/pathfinder.hpp
index 5c18303..e3aded8 100644
--- a/include/find_embedding/pathfinder.hpp
+++ b/include/find_embedding/pathfinder.hpp
@@ -639,8 +639,7 @@ class pathfinder_base : public pathfinder_public_interface {
                 }
                 switch (r) {
                     case -2:
-                        improvement_patience = 0;
-                        break;
+                        return ep.embedded;  // don't start another trial; bestEmbedding is up to date
                     case -1:
                         currEmbedding = bestEmbedding;  // fallthrough
                     case 0:
-- 
2.43.0


From 393f19961ed3a66130552a37872d2564633b37c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:16 +0000
Subject: [PATCH 14/42] fix: huge or infinite timeouts overflowed the clock and
 stopped the search at once

find_embedding(S, T, timeout=float('inf')) (or anything over about 9.2e9)
returned no embedding: converting the timeout to clock ticks overflowed and
the deadline ended up in the past.
---
 include/find_embedding/pathfinder.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/find_embedding/pathfinder.hpp b/include/find_embedding/pathfinder.hpp
index e3aded8..689695b 100644
--- a/include/find_embedding/pathfinder.hpp
+++ b/include/find_embedding/pathfinder.hpp
@@ -588,7 +588,8 @@ class pathfinder_base : public pathfinder_public_interface {
 
     //! perform the heuristic embedding, returning 1 if an embedding was found and 0 otherwise
     virtual int heuristicEmbedding() override {
-        auto timeout0 = duration<double>(params.timeout);
+        // larger timeouts (including infinity) overflow the clock; this is over 30 years
+        auto timeout0 = duration<double>(min(params.timeout, 1e9));
         auto timeout = duration_cast<clock::duration>(timeout0);
         stoptime = clock::now() + timeout;
         ep.reset_mood();
-- 
2.43.0


From 929e80f7dd19f83af41da2919982ba2e98e56a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:42 +0000
Subject: [PATCH 15/42] fix: a refused first quickpass no longer leaves the
 next one without the fixed chains

---
 minorminer/_minorminer.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/minorminer/_minorminer.pyx b/minorminer/_minorminer.pyx
index fc9f6c0..62e0a3b 100644
--- a/minorminer/_minorminer.pyx
+++ b/minorminer/_minorminer.pyx
@@ -534,7 +534,6 @@ cdef class miner:
 
         if not self.quickpassed:
             clear_first = True
-            self.quickpassed = True
 
         if varorder is not None:
             for v in varorder:
@@ -545,6 +544,7 @@ cdef class miner:
             self.pf.quickPass(neworder, chainlength_bound, overlap_bound, local_search, clear_first, round_beta)
         else:
             self.pf.quickPass(strategy, chainlength_bound, overlap_bound, local_search, clear_first, round_beta)
+        self.quickpassed = True
 
         rchain = {}
         for v in range(self.pf.num_vars()-self._in.pincount):
-- 
2.43.0


From 1f9f56704b15dbd7533604ff4c338e1aea67be2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:36 +0000
Subject: [PATCH 16/42] fix: a busclique search repeated on the same graph
 object took other random choices

---
 include/busclique/topo_cache.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/busclique/topo_cache.hpp b/include/busclique/topo_cache.hpp
index cf72f53..48efb4b 100644
--- a/include/busclique/topo_cache.hpp
+++ b/include/busclique/topo_cache.hpp
@@ -71,6 +71,9 @@ class topo_cache {
     void reset() {
         if(mask_num > 0) {
             mask_num = 0;
+            // next() permutes the bad edges; start over from their original order
+            bad_edges.clear();
+            compute_bad_edges();
             rng = fastrng(topo.seed);
             next();
         }
-- 
2.43.0


From cbb56e3d71a768bf5c8c4815ca0f10089bcc78e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:51 +0000
Subject: [PATCH 17/42] fix: find_subgraph placed isolated nodes in an order
 that depends on string hashing

---
 minorminer/subgraph.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/minorminer/subgraph.pyx b/minorminer/subgraph.pyx
index f25649a..f26c004 100644
--- a/minorminer/subgraph.pyx
+++ b/minorminer/subgraph.pyx
@@ -444,7 +444,8 @@ def find_subgraph(
 
     if source_isolated and (len(emb) == len(source_labels)):
         if injectivity == 'injective':
-            target_isolated.extend(set(target_labels)-set(emb.values()))
+            used = set(emb.values())
+            target_isolated.extend(t for t in target_labels if t not in used)
             if len(source_isolated) <= len(target_isolated):
                 for s, t in zip(source_isolated, target_isolated):
                     emb[s] = t
-- 
2.43.0


From 2a6fe8e13393c5a0de2ce650217c92d002b8ea72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:37 +0000
Subject: [PATCH 18/42] fix: find_sublattice_embeddings leaves the caller's
 T_kwargs alone

---
 minorminer/utils/parallel_embeddings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/minorminer/utils/parallel_embeddings.py b/minorminer/utils/parallel_embeddings.py
index 0aee924..3df5c82 100644
--- a/minorminer/utils/parallel_embeddings.py
+++ b/minorminer/utils/parallel_embeddings.py
@@ -310,7 +310,7 @@ def _local_graph(T=None, T_family=None, T_kwargs=None):
         if T_kwargs is None:
             T_kwargs = {}
         if T is not None:
-            T_kwargs.update({"edge_list": T.edges, "node_list": T.nodes})
+            T_kwargs = {**T_kwargs, "edge_list": T.edges, "node_list": T.nodes}
         if T_family == "chimera":
             return dwave.graphs.chimera_graph(**T_kwargs)
         elif T_family == "pegasus":
-- 
2.43.0


From 181413cda57740f6b130fb61f66d47cc741fb73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:27 +0000
Subject: [PATCH 19/42] fix: cached cliques were shared by graphs and seeds
 with different cliques

---
 minorminer/busclique.pyx | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index a9a7e73..a16feb7 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -439,7 +439,8 @@ class busgraph_cache:
         We create two subdirectories (for now): `cliques` and `bicliques`, and
         store respective caches in each.
 
-        We derive a unique identifier from `self._graph`, and hash that
+        We derive a unique identifier from `self._graph`, everything that its
+        cliques and bicliques are computed from, and hash the topology in that
         identifier to produce a `shortcode`.  The cache associated with
         `self.graph` has the filename `str(shortcode)` -- this is preferable to
         using a single file to store the entire cache.  In the case of hash
@@ -460,7 +461,7 @@ class busgraph_cache:
         pathlib.Path(basedir).mkdir(parents=True, exist_ok=True)
         lockfile = os.path.join(basedir, ".lock")
         lrufile = os.path.join(basedir, ".lru")
-        identifier = self._graph.identifier
+        identifier = self._graph.cache_key
         shortcode = self._graph.short_identifier
 
         #this makes our writes to the filesystem atomic
@@ -808,6 +809,7 @@ cdef class _zephyr_busgraph:
     cdef readonly object delabel
     cdef readonly object identifier
     cdef readonly object short_identifier
+    cdef readonly object cache_key
     def __cinit__(self, g, seed = 0, compute_identifier = False):
         """
         This is a class which manages a single zephyr graph, and dispatches
@@ -848,6 +850,7 @@ cdef class _zephyr_busgraph:
 
         if compute_identifier:
             self.identifier, self.short_identifier = _serialize(self.topo, 'zephyr')
+            self.cache_key = (self.identifier, internal_seed, tuple(map(tuple, self.emb_1)))
 
         del zep
 
@@ -919,6 +922,7 @@ cdef class _pegasus_busgraph:
     cdef readonly object delabel
     cdef readonly object identifier
     cdef readonly object short_identifier
+    cdef readonly object cache_key
     def __cinit__(self, g, seed = 0, compute_identifier = False):
         """
         This is a class which manages a single pegasus graph, and dispatches
@@ -961,6 +965,7 @@ cdef class _pegasus_busgraph:
 
         if compute_identifier:
             self.identifier, self.short_identifier = _serialize(self.topo, 'pegasus')
+            self.cache_key = (self.identifier, internal_seed, tuple(map(tuple, self.emb_1)))
 
         del peg
 
@@ -1042,6 +1047,7 @@ cdef class _chimera_busgraph:
     cdef readonly object delabel
     cdef readonly object identifier
     cdef readonly object short_identifier
+    cdef readonly object cache_key
     def __cinit__(self, g, seed = 0, compute_identifier = False):
         rows = g.graph['rows']
         cols = g.graph['columns']
@@ -1078,6 +1084,7 @@ cdef class _chimera_busgraph:
 
         if compute_identifier:
             self.identifier, self.short_identifier = _serialize(self.topo, 'chimera')
+            self.cache_key = (self.identifier, internal_seed, tuple(map(tuple, self.emb_1)))
 
         del chim
 
-- 
2.43.0


From 9643235f5bd29abf6947e4e85cd50188a97b20bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:27 +0000
Subject: [PATCH 20/42] fix: the cache files were replaced after their locks
 had been released

---
 minorminer/busclique.pyx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index a16feb7..7c2348e 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -505,8 +505,10 @@ class busgraph_cache:
                 with file_context.open(lrufile, 'wb') as lru:
                     dump(newLRU, lru)
 
-        #perform the copy-on-write for the lrufile and cachefile
-        file_context.close()
+                #perform the copy-on-write for the lrufile and cachefile, while
+                #no one else can be writing to the same temporary files
+                file_context.close()
+
         return cache
 
     def largest_clique(self):
-- 
2.43.0


From f404f282c0e0ac7c4340119657c4af135f000cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:27 +0000
Subject: [PATCH 21/42] fix: an evicted cache file that was already gone made
 every later call fail

---
 minorminer/busclique.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index 7c2348e..efae50d 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -501,7 +501,10 @@ class busgraph_cache:
                 #to recompute a deleted file that still has an entry in the LRU
                 while len(newLRU) > __lru_size:
                     oldkey = newLRU.pop()
-                    os.remove(os.path.join(basedir, oldkey))
+                    try:
+                        os.remove(os.path.join(basedir, oldkey))
+                    except FileNotFoundError:
+                        pass
                 with file_context.open(lrufile, 'wb') as lru:
                     dump(newLRU, lru)
 
-- 
2.43.0


From 09107f32baf437371fca14108751bc1f26e44f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:19 +0000
Subject: [PATCH 22/42] fix: largest_clique_by_chainlength failed for
 chainlengths that merging or inserting left out

---
 minorminer/busclique.pyx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index efae50d..c88ee78 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -554,7 +554,11 @@ class busgraph_cache:
         length = self._cliques['length'] or [0]
 
         if 0 < chainlength <= max(length):
-            return self._graph.relabel(dict(enumerate(embs[length[chainlength]])))
+            best = max((i for l, i in length.items() if l <= chainlength),
+                       key=lambda i: len(embs[i]), default=None)
+            if best is None:
+                return {}
+            return self._graph.relabel(dict(enumerate(embs[best])))
         else:
             return {}
 
-- 
2.43.0


From 5f27d682f3d534ba0625c1edac078fd26efcb950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:19 +0000
Subject: [PATCH 23/42] fix: get_clique_cache(sparse=False) left the largest
 clique out

---
 minorminer/busclique.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index c88ee78..ab6d29f 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -256,7 +256,7 @@ class busgraph_cache:
         if sparse:
             cache = {i: raw[s][:i] for i, s in size.items()}
         else:
-            cache = [raw[size[i]][:i] if i in size else () for i in range(max(size))]
+            cache = [raw[size[i]][:i] if i in size else () for i in range(max(size, default=-1) + 1)]
         if compress:
             cache = gzip.compress(dumps(cache).encode('utf8'))
         return cache
-- 
2.43.0


From 28a3f7f3319c7ea6cb11b0b16dc75cbf4d96da02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:35 +0000
Subject: [PATCH 24/42] fix: get_clique_cache returned linear labels, which
 update_clique_cache cannot read back

---
 minorminer/busclique.pyx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index ab6d29f..36fb132 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -253,10 +253,13 @@ class busgraph_cache:
         self._ensure_clique_cache()
         raw = self._cliques['raw']
         size = self._cliques['size']
+        #update_clique_cache takes chains in the labels of the graph
+        cliques = {i: tuple(self._graph.relabel(dict(enumerate(raw[s][:i]))).values())
+                   for i, s in size.items()}
         if sparse:
-            cache = {i: raw[s][:i] for i, s in size.items()}
+            cache = cliques
         else:
-            cache = [raw[size[i]][:i] if i in size else () for i in range(max(size, default=-1) + 1)]
+            cache = [cliques[i] if i in size else () for i in range(max(size, default=-1) + 1)]
         if compress:
             cache = gzip.compress(dumps(cache).encode('utf8'))
         return cache
-- 
2.43.0


From dad35a24431882347a323e5371e225ce46c25406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:17 +0000
Subject: [PATCH 25/42] fix: find_biclique_embedding missed every biclique
 whose smaller side is shorter than the request's larger side

---
 minorminer/busclique.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index 36fb132..2e893d3 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -650,7 +650,7 @@ class busgraph_cache:
         raw = self._bicliques['raw']
         n, N = _num_nodes(nn)
         m, M = _num_nodes(mm, offset = n)
-        if(m < n):
+        if(n < m):
             n, N, m, M = m, M, n, N
         if m == 0:
             emb = self._graph.independent_set(n)
@@ -671,7 +671,7 @@ class busgraph_cache:
                 s0, s1 = key
                 emb0 = emb[:s0]
                 emb1 = emb[s0:]
-                if s0 <= n and s1 <= m:
+                if s0 >= s1:
                     emb = dict(zip(N + M, emb0[:n] + emb1))
                 else:
                     emb = dict(zip(N + M, emb1[:n] + emb0))
-- 
2.43.0


From be8a0ca7693abb6cf7f7b22e848c760f914ce0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:57 +0000
Subject: [PATCH 26/42] fix: mine_clique_embeddings could not be used on
 chimera graphs

---
 minorminer/busclique.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index 2e893d3..7d80034 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -1320,9 +1320,9 @@ def mine_clique_embeddings(
             heuristic_bound = min(36, 12*(rows-1))
         elif bgc._family == "chimera":
             rows = g.graph['rows']
-            cols = g.graph['cols']
+            cols = g.graph['columns']
             tile = g.graph['tile']
-            heuristic_bound = (min(tile*rows, tile*cols)+3)/4
+            heuristic_bound = (min(tile*rows, tile*cols)+3)//4
         else:
             raise NotImplementedError("graph family not supported")
 
-- 
2.43.0


From 9dff64010f898356c9f903284e094da8c006c637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:10:23 +0000
Subject: [PATCH 27/42] fix: a search with another mask bound was answered from
 the cache

---
 minorminer/busclique.pyx | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index 7d80034..c3befce 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -464,7 +464,7 @@ class busgraph_cache:
         pathlib.Path(basedir).mkdir(parents=True, exist_ok=True)
         lockfile = os.path.join(basedir, ".lock")
         lrufile = os.path.join(basedir, ".lru")
-        identifier = self._graph.cache_key
+        identifier = self._graph.cache_key, self._graph.mask_bound
         shortcode = self._graph.short_identifier
 
         #this makes our writes to the filesystem atomic
@@ -822,6 +822,7 @@ cdef class _zephyr_busgraph:
     cdef readonly object identifier
     cdef readonly object short_identifier
     cdef readonly object cache_key
+    cdef readonly object mask_bound
     def __cinit__(self, g, seed = 0, compute_identifier = False):
         """
         This is a class which manages a single zephyr graph, and dispatches
@@ -872,6 +873,7 @@ cdef class _zephyr_busgraph:
     def set_mask_bound(self, num_masks):
         """Sets the maximum number of masks to consider."""
         self.topo[0].set_mask_bound(num_masks)
+        self.mask_bound = num_masks
 
     def bicliques(self):
         """
@@ -935,6 +937,7 @@ cdef class _pegasus_busgraph:
     cdef readonly object identifier
     cdef readonly object short_identifier
     cdef readonly object cache_key
+    cdef readonly object mask_bound
     def __cinit__(self, g, seed = 0, compute_identifier = False):
         """
         This is a class which manages a single pegasus graph, and dispatches
@@ -987,6 +990,7 @@ cdef class _pegasus_busgraph:
     def set_mask_bound(self, num_masks):
         """Sets the maximum number of masks to consider."""
         self.topo[0].set_mask_bound(num_masks)
+        self.mask_bound = num_masks
 
     def bicliques(self):
         """
@@ -1060,6 +1064,7 @@ cdef class _chimera_busgraph:
     cdef readonly object identifier
     cdef readonly object short_identifier
     cdef readonly object cache_key
+    cdef readonly object mask_bound
     def __cinit__(self, g, seed = 0, compute_identifier = False):
         rows = g.graph['rows']
         cols = g.graph['columns']
@@ -1107,6 +1112,7 @@ cdef class _chimera_busgraph:
     def set_mask_bound(self, num_masks):
         """Sets the maximum number of masks to consider."""
         self.topo[0].set_mask_bound(num_masks)
+        self.mask_bound = num_masks
 
     def bicliques(self):
         """
-- 
2.43.0


From a7c31fc38b8bcbc3b7bf59c819bc111cab14ef8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:58 +0000
Subject: [PATCH 28/42] fix: find_multiple_embeddings lost the shuffled node
 order after the first embedding

---
 minorminer/utils/parallel_embeddings.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/minorminer/utils/parallel_embeddings.py b/minorminer/utils/parallel_embeddings.py
index 3df5c82..d242805 100644
--- a/minorminer/utils/parallel_embeddings.py
+++ b/minorminer/utils/parallel_embeddings.py
@@ -246,7 +246,7 @@ def find_multiple_embeddings(
             break
         elif max_num_emb > 1:
             if len(embs) == 0:
-                _T = T.copy()
+                _T = _T.copy()
             if one_to_iterable:
                 _T.remove_nodes_from(n for c in emb.values() for n in c)
             else:
-- 
2.43.0


From 76d30df68f3fccebc05830339273b091d03c9a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:58 +0000
Subject: [PATCH 29/42] fix: find_sublattice_embeddings returned overlapping
 chains and ignored options in its nested searches

---
 minorminer/utils/parallel_embeddings.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/minorminer/utils/parallel_embeddings.py b/minorminer/utils/parallel_embeddings.py
index d242805..9c2876c 100644
--- a/minorminer/utils/parallel_embeddings.py
+++ b/minorminer/utils/parallel_embeddings.py
@@ -434,9 +434,13 @@ def find_sublattice_embeddings(
             S=S,
             T=T,
             max_num_emb=max_num_emb,
+            use_filter=use_filter,
             seed=seed,
             embedder=embedder,
             embedder_kwargs=embedder_kwargs,
+            one_to_iterable=one_to_iterable,
+            shuffle_all_graphs=shuffle_all_graphs,
+            timeout=timeout_at - perf_counter(),
         )
     if T is not None and T.graph.get("family", T_family) not in {
         "chimera",
@@ -533,6 +537,8 @@ def find_sublattice_embeddings(
             seed=seed,
             embedder=embedder,
             embedder_kwargs=embedder_kwargs,
+            one_to_iterable=one_to_iterable,
+            shuffle_all_graphs=shuffle_all_graphs,
             timeout=timeout_at - perf_counter(),
         )
         if len(defect_free_embs) == 0:
@@ -583,6 +589,8 @@ def find_sublattice_embeddings(
                 seed=seed,
                 embedder=embedder,
                 embedder_kwargs=embedder_kwargs,
+                one_to_iterable=one_to_iterable,
+                shuffle_all_graphs=shuffle_all_graphs,
                 timeout=timeout_at - perf_counter(),
             )
         embs += sub_embs
-- 
2.43.0


From d5f13e8810acb3412e468ee543b438458f6c6834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:05 +0000
Subject: [PATCH 30/42] fix: find_biclique_embedding(n, 0) returned linear
 labels instead of chains of the graph's labels

---
 minorminer/busclique.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index c3befce..fc2f4f3 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -656,7 +656,7 @@ class busgraph_cache:
             emb = self._graph.independent_set(n)
             if emb is None:
                 return {}
-            return dict(zip(N, emb))
+            return self._graph.relabel({v: (q,) for v, q in zip(N, emb)})
         nmax = biggest[None]
         for i in range(n, nmax + 1):
             mmax = biggest.get(i, 0)
-- 
2.43.0


From de3ce279c36188a410f56980e49c841d847f67f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:05 +0000
Subject: [PATCH 31/42] fix: find_biclique_embedding(n, 0) found nothing when
 every node of the graph is needed

---
 minorminer/busclique.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index fc2f4f3..8a49c8f 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -897,7 +897,7 @@ cdef class _zephyr_busgraph:
         a K_{0, n}?
         """
         cdef int i
-        if size < self.nodes.size():
+        if size <= self.nodes.size():
             emb = [self.nodes[i] for i in range(size)]
             return emb
 
@@ -1014,7 +1014,7 @@ cdef class _pegasus_busgraph:
         a K_{0, n}?
         """
         cdef int i
-        if size < self.nodes.size():
+        if size <= self.nodes.size():
             emb = [self.nodes[i] for i in range(size)]
             return emb
 
@@ -1136,7 +1136,7 @@ cdef class _chimera_busgraph:
         a K_{0, n}?
         """
         cdef int i
-        if size < self.nodes.size():
+        if size <= self.nodes.size():
             emb = [self.nodes[i] for i in range(size)]
             return emb
 
-- 
2.43.0


From 611d8ebb7567bfe5d2e8e43d0cdd947a630371ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:41 +0000
Subject: [PATCH 32/42] fix: busclique failed on coordinate-labelled zephyr
 graphs whose tile parameter is not 4

---
 minorminer/busclique.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/minorminer/busclique.pyx b/minorminer/busclique.pyx
index 8a49c8f..f9b1faf 100644
--- a/minorminer/busclique.pyx
+++ b/minorminer/busclique.pyx
@@ -843,7 +843,7 @@ cdef class _zephyr_busgraph:
             internal_seed = seed
 
         cdef zephyr_spec *zep = new zephyr_spec(rows, tile, internal_seed)
-        coordinates = dwave.graphs.zephyr_coordinates(rows)
+        coordinates = dwave.graphs.zephyr_coordinates(rows, tile)
         cdef edges_t edges
         if g.graph['labels'] == 'int':
             self.nodes = g.nodes()
-- 
2.43.0


From 7a32a670864d42b631785385bdd1dec7c8fd9465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:43 +0000
Subject: [PATCH 33/42] fix: p_norm minimised the distances of the wrong
 vertices unless the graph lists its vertices in sorted order

---
 minorminer/layout/layout.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/minorminer/layout/layout.py b/minorminer/layout/layout.py
index dcbf457..229bbdf 100644
--- a/minorminer/layout/layout.py
+++ b/minorminer/layout/layout.py
@@ -162,10 +162,14 @@ def _graph_distance_matrix(G,
 
     if disconnected_distance is None:
         disconnected_distance = len(G)
-        
+
+    # The rows of a layout_array are in the sorted order of the vertices
+    vertices = sorted(G)
+    distances = dict(all_pairs_shortest_path_length)
+
     return np.array([
-        [V.get(v, disconnected_distance) for v in G]
-        for _, V in nx.all_pairs_shortest_path_length(G)
+        [distances[u].get(v, disconnected_distance) for v in vertices]
+        for u in vertices
         ])
 
 
-- 
2.43.0


From c976a5cb6f8478cfeeed85357ac9675964af1547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:43 +0000
Subject: [PATCH 34/42] fix: setting a position in a Layout left its array,
 center and scale behind and changed the caller's mapping

---
 minorminer/layout/layout.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/minorminer/layout/layout.py b/minorminer/layout/layout.py
index 229bbdf..1a5aca0 100644
--- a/minorminer/layout/layout.py
+++ b/minorminer/layout/layout.py
@@ -463,7 +463,7 @@ class Layout(abc.MutableMapping):
     def layout(self, value):
         """If layout is set, also set layout_array and the layout specs."""
         # Set the layout
-        self._layout = value
+        self._layout = dict(value)
 
         # Iterating through G determines the order of layout_array
         self._layout_array = np.array([value[v] for v in sorted(self.G)])
@@ -530,7 +530,7 @@ class Layout(abc.MutableMapping):
 
     def __setitem__(self, key, value):
         """Set the layout value at the key vertex."""
-        self.layout[key] = value
+        self.layout = {**self.layout, key: value}
 
     def __delitem__(self, key):
         """Delete the layout value at the key vertex."""
-- 
2.43.0


From 1497b82decb76f7834adc232b4fd7b74fd1ef5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:43 +0000
Subject: [PATCH 35/42] fix: scaling the layout of a single point made its
 position NaN

---
 minorminer/layout/layout.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/minorminer/layout/layout.py b/minorminer/layout/layout.py
index 1a5aca0..87b1194 100644
--- a/minorminer/layout/layout.py
+++ b/minorminer/layout/layout.py
@@ -664,6 +664,10 @@ def _scale_layout(layout_array, new_scale, old_scale=None, center=None):
     if old_scale is None:
         old_scale = np.max(np.abs(L))
 
+    # A single point has no extent to scale
+    if old_scale == 0:
+        return layout_array
+
     # Scale the thing
     scaled_L = (new_scale/old_scale) * L
 
-- 
2.43.0


From 189d75de1a90e66cd398eaec12547c70c27ddcec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:56 +0000
Subject: [PATCH 36/42] fix: layout.find_embedding ignored the layout given for
 a D-Wave target

---
 minorminer/layout/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/minorminer/layout/__init__.py b/minorminer/layout/__init__.py
index 00a717b..cd16f73 100644
--- a/minorminer/layout/__init__.py
+++ b/minorminer/layout/__init__.py
@@ -172,8 +172,9 @@ def _parse_layout_parameter(S, T, layout, layout_kwargs):
     if isinstance(t_layout, Layout):
         T_layout = t_layout
     else:
-        # Use the graph_layout if possible
-        if T.graph.get("family") in ("chimera", "pegasus", "zephyr"):
+        # Use the graph_layout if possible, unless a layout for T was given
+        if ((t_layout is None or t_layout is layout)
+                and T.graph.get("family") in ("chimera", "pegasus", "zephyr")):
             T_layout = Layout(T, layout=graph_layout, **layout_kwargs)
         # Assumes t_layout a callable or implements a mapping interface
         else:
-- 
2.43.0


From 140344334f3a68d28a4a8c3ba2a0d49372b2b713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:56 +0000
Subject: [PATCH 37/42] fix: layout.find_embedding did not accept a target
 given as a list of edges

---
 minorminer/layout/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/minorminer/layout/__init__.py b/minorminer/layout/__init__.py
index cd16f73..5f83e41 100644
--- a/minorminer/layout/__init__.py
+++ b/minorminer/layout/__init__.py
@@ -174,7 +174,7 @@ def _parse_layout_parameter(S, T, layout, layout_kwargs):
     else:
         # Use the graph_layout if possible, unless a layout for T was given
         if ((t_layout is None or t_layout is layout)
-                and T.graph.get("family") in ("chimera", "pegasus", "zephyr")):
+                and getattr(T, "graph", {}).get("family") in ("chimera", "pegasus", "zephyr")):
             T_layout = Layout(T, layout=graph_layout, **layout_kwargs)
         # Assumes t_layout a callable or implements a mapping interface
         else:
-- 
2.43.0


From aa1a029598778149b024c2ebe1d3691691404b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:56 +0000
Subject: [PATCH 38/42] fix: closest failed when more neighbors were asked for
 than the target has subsets

---
 minorminer/layout/placement.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/minorminer/layout/placement.py b/minorminer/layout/placement.py
index 9cdf3ad..8bd7b7b 100644
--- a/minorminer/layout/placement.py
+++ b/minorminer/layout/placement.py
@@ -336,6 +336,9 @@ def closest(S_layout, T_layout, subset_size=(1, 1), num_neighbors=1, **kwargs):
     layout_points = [tuple(p) for p in T_subgraph_layout.values()]
     overlap_counter = Counter()
 
+    # There may be fewer subsets than neighbors asked for
+    num_neighbors = min(num_neighbors, len(layout_points))
+
     try:
         tree = spatial.KDTree(layout_points)  # This fails for the empty graph
     except ValueError:
-- 
2.43.0


From 9eb43fa99dd11a02cfeb8899966e10c45d5bc286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:02 +0000
Subject: [PATCH 39/42] fix: do not pack the components of a layout whose
 center is not in the plane

---
 minorminer/layout/layout.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/minorminer/layout/layout.py b/minorminer/layout/layout.py
index 87b1194..d1f5e83 100644
--- a/minorminer/layout/layout.py
+++ b/minorminer/layout/layout.py
@@ -738,11 +738,11 @@ def _pack_components(G, layout, **kwargs):
 
     If `scale` is an argument, we rescale the layout after the above.
 
-    If `dim` is an argument and not equal to 2, we don't have an
-    implementation, so we pass the graph directly into `layout` and bypass
-    the packing procedure
+    If `dim` is an argument and not equal to 2, or `center` is not in the plane,
+    we don't have an implementation, so we pass the graph directly into `layout`
+    and bypass the packing procedure
     """
-    if kwargs.get('dim', 2) != 2:
+    if kwargs.get('dim', 2) != 2 or len(kwargs.get('center', (0, 0))) != 2:
         return layout(G, **kwargs)
 
     layouts = []
-- 
2.43.0


From ee2b5a1590c8f637c16f55f6cf0336be6aa01a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:02 +0000
Subject: [PATCH 40/42] fix: connected subgraphs of size k have k vertices

---
 minorminer/layout/placement.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/minorminer/layout/placement.py b/minorminer/layout/placement.py
index 8bd7b7b..a568243 100644
--- a/minorminer/layout/placement.py
+++ b/minorminer/layout/placement.py
@@ -390,7 +390,8 @@ def _get_connected_subgraphs(G, k, single_set=False):
             # For each vertex in the set, iterate over its neighbors.
             for v in X:
                 for u in G.neighbors(v):
-                    connected_subgraphs[i + 1].add(X.union({u}))
+                    if u not in X:
+                        connected_subgraphs[i + 1].add(X.union({u}))
 
     return connected_subgraphs
 
-- 
2.43.0


From d2dda2707f1e64dd3405604be78df253fe8da13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:14 +0000
Subject: [PATCH 41/42] fix: scale_ratio applies to a source layout bigger than
 the target's too

---
 minorminer/layout/placement.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/minorminer/layout/placement.py b/minorminer/layout/placement.py
index a568243..77457a4 100644
--- a/minorminer/layout/placement.py
+++ b/minorminer/layout/placement.py
@@ -458,12 +458,12 @@ class Placement(abc.MutableMapping):
                     self.S_layout.dim, self.T_layout.dim)
             )
 
-        # Scale S if S_layout is bigger than T_layout
-        if self.S_layout.scale > self.T_layout.scale:
-            self.S_layout.scale = self.T_layout.scale
-        # Or scale S to the user specified scale
-        elif scale_ratio:
+        # Scale S to the user specified scale
+        if scale_ratio:
             self.S_layout.scale = scale_ratio*self.T_layout.scale
+        # Or scale S if S_layout is bigger than T_layout
+        elif self.S_layout.scale > self.T_layout.scale:
+            self.S_layout.scale = self.T_layout.scale
 
         if placement is None:
             self.placement = closest(self.S_layout, self.T_layout)
-- 
2.43.0


From 27d653222a1d30f2b9c383df9ca7c5a45c699bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:43 +0000
Subject: [PATCH 42/42] fix: lattice_size_lower_bound: degree and colour limits
 apply to subgraph embeddings only

A source that is not two-colourable, or has a node of higher degree than the
lattice, still has minor embeddings.
---
 minorminer/utils/feasibility.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/minorminer/utils/feasibility.py b/minorminer/utils/feasibility.py
index 1db8d51..9d4fa63 100644
--- a/minorminer/utils/feasibility.py
+++ b/minorminer/utils/feasibility.py
@@ -171,13 +171,13 @@ def lattice_size_lower_bound(
         max_degrees = {"chimera": 2 + 2 * t, "pegasus": 15, "zephyr": 4 + 4 * t}
         max_source_degree = max(d for _, d in S.degree)
 
-        if max_source_degree > max_degrees[topology]:
+        if one_to_one and max_source_degree > max_degrees[topology]:
             return None
 
     N = S.number_of_nodes()
     if topology == "chimera":
-        # Two colorability is necessary, and cheap to check
-        if any(
+        # Two colorability is necessary for a subgraph, and cheap to check
+        if one_to_one and any(
             c > 2
             for c in nx.algorithms.coloring.greedy_coloring.greedy_color(
                 S, strategy="connected_sequential_bfs"
-- 
2.43.0

