From e00c8e3972dfb1f51dd61b6067972176c816b17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:56 +0000
Subject: [PATCH 01/24] fix: give spanner edges the weights of the input graph

The exact phase of the approximation algorithms and the shortest paths of
the non-spanner edges ran on an unweighted (all zero) spanner.
---
 include/parmcb/detail/approx_spanner.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/parmcb/detail/approx_spanner.hpp b/include/parmcb/detail/approx_spanner.hpp
index 3988cec..9fc232c 100644
--- a/include/parmcb/detail/approx_spanner.hpp
+++ b/include/parmcb/detail/approx_spanner.hpp
@@ -332,7 +332,9 @@ private:
             _vertex_g_to_spanner[v] = spanner_v;
         }
 
-        // construct edge set of spanner
+        // construct edge set of spanner, edges carry the weights of the input
+        EdgeWeightMapType spanner_weight_map = get(boost::edge_weight,
+                _spanner);
         EdgeVectorIt ei, ei_end;
         for (ei = sorted_edges.begin(), ei_end = sorted_edges.end();
                 ei != sorted_edges.end(); ++ei) {
@@ -351,6 +353,8 @@ private:
                 // add edge to spanner
                 Edge spanner_e = std::get<0>(
                         boost::add_edge(spanner_v, spanner_u, _spanner));
+                boost::put(spanner_weight_map, spanner_e,
+                        boost::get(_weight_map, e));
                 _edge_spanner_to_g[spanner_e] = e;
             } else {
                 // record missing edge from spanner
-- 
2.43.0


From 271dd60597420afc9c8809ffb56cdf72bf506401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:13 +0000
Subject: [PATCH 02/24] fix: emit spanner cycles as edges of the input graph

The approximation algorithms handed out edge descriptors of their internal
spanner, which is destroyed when the call returns.
---
 include/parmcb/detail/approx_spanner.hpp        | 16 +++++++++++++++-
 include/parmcb/parmcb_approx_sva_signed.hpp     |  3 ++-
 include/parmcb/parmcb_approx_sva_signed_tbb.hpp |  3 ++-
 include/parmcb/parmcb_approx_sva_trees.hpp      |  6 ++++--
 include/parmcb/parmcb_approx_sva_trees_tbb.hpp  |  6 ++++--
 5 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/include/parmcb/detail/approx_spanner.hpp b/include/parmcb/detail/approx_spanner.hpp
index 9fc232c..f9e4666 100644
--- a/include/parmcb/detail/approx_spanner.hpp
+++ b/include/parmcb/detail/approx_spanner.hpp
@@ -10,6 +10,8 @@
 #include <parmcb/detail/bfs.hpp>
 
 #include <functional>
+#include <iterator>
+#include <list>
 #include <numeric>
 
 #ifdef PARMCB_HAVE_TBB
@@ -250,6 +252,7 @@ public:
     typedef typename std::vector<Edge>::iterator EdgeVectorIt;
     typedef typename boost::property_traits<WeightMap>::value_type WeightType;
     typedef typename boost::property_map<Graph, boost::edge_weight_t>::type EdgeWeightMapType;
+    typedef typename std::list<std::list<Edge>> CycleList;
 
     BaseApproxSpannerAlgorithm(const Graph &g, const WeightMap &weight_map, const VertexIndexMapType& index_map,
             std::size_t k) :
@@ -278,7 +281,18 @@ public:
         EdgeWeightMapType spanner_weight_map = get(boost::edge_weight,
                 _spanner);
         ExactAlgorithm exact_mcb_algo;
-        _weight += exact_mcb_algo(_spanner, spanner_weight_map, out);
+        CycleList spanner_cycles;
+        _weight += exact_mcb_algo(_spanner, spanner_weight_map,
+                std::back_inserter(spanner_cycles));
+
+        // translate cycles to edges of the input graph
+        for (const auto &spanner_cycle : spanner_cycles) {
+            std::list<Edge> cycle_edgelist;
+            for (const auto &spanner_e : spanner_cycle) {
+                cycle_edgelist.push_back(_edge_spanner_to_g.at(spanner_e));
+            }
+            *out++ = cycle_edgelist;
+        }
 
         // compute remaining cycles
         parmcb::detail::NonSpannerEdgesCycleBuilder<Graph, WeightMap,
diff --git a/include/parmcb/parmcb_approx_sva_signed.hpp b/include/parmcb/parmcb_approx_sva_signed.hpp
index 2efae66..c12ab76 100644
--- a/include/parmcb/parmcb_approx_sva_signed.hpp
+++ b/include/parmcb/parmcb_approx_sva_signed.hpp
@@ -28,7 +28,8 @@ typename boost::property_traits<WeightMap>::value_type approx_mcb_sva_signed(
         const Graph &g, const WeightMap &weight, std::size_t k,
         CycleOutputIterator out) {
 
-    typedef typename parmcb::detail::mcb_sva_signed<Graph,WeightMap,CycleOutputIterator> ExactAlgo;
+    typedef std::list<std::list<typename boost::graph_traits<Graph>::edge_descriptor>> CycleList;
+    typedef typename parmcb::detail::mcb_sva_signed<Graph,WeightMap,std::back_insert_iterator<CycleList>> ExactAlgo;
     parmcb::detail::BaseApproxSpannerAlgorithm<Graph, WeightMap, ExactAlgo, false> algo(g, weight, boost::get(boost::vertex_index, g), k);
     return algo.run(out);
 }
diff --git a/include/parmcb/parmcb_approx_sva_signed_tbb.hpp b/include/parmcb/parmcb_approx_sva_signed_tbb.hpp
index 19d81b8..2fed6ad 100644
--- a/include/parmcb/parmcb_approx_sva_signed_tbb.hpp
+++ b/include/parmcb/parmcb_approx_sva_signed_tbb.hpp
@@ -26,7 +26,8 @@ template<class Graph, class WeightMap, class CycleOutputIterator>
 typename boost::property_traits<WeightMap>::value_type approx_mcb_sva_signed_tbb(
         const Graph &g, const WeightMap &weight, std::size_t k,
         CycleOutputIterator out) {
-    typedef typename parmcb::detail::mcb_sva_signed_tbb<Graph,WeightMap,CycleOutputIterator> ExactAlgo;
+    typedef std::list<std::list<typename boost::graph_traits<Graph>::edge_descriptor>> CycleList;
+    typedef typename parmcb::detail::mcb_sva_signed_tbb<Graph,WeightMap,std::back_insert_iterator<CycleList>> ExactAlgo;
 
     parmcb::detail::BaseApproxSpannerAlgorithm<Graph, WeightMap, ExactAlgo, true> algo(g, weight, boost::get(boost::vertex_index, g), k);
     return algo.run(out);
diff --git a/include/parmcb/parmcb_approx_sva_trees.hpp b/include/parmcb/parmcb_approx_sva_trees.hpp
index b916eac..6eb507c 100644
--- a/include/parmcb/parmcb_approx_sva_trees.hpp
+++ b/include/parmcb/parmcb_approx_sva_trees.hpp
@@ -36,7 +36,8 @@ typename boost::property_traits<WeightMap>::value_type approx_mcb_sva_fvs_trees(
         const Graph &g, const WeightMap &weight, std::size_t k,
         CycleOutputIterator out) {
 
-    typedef typename parmcb::detail::mcb_sva_fvs_trees<Graph,WeightMap,CycleOutputIterator> ExactAlgo;
+    typedef std::list<std::list<typename boost::graph_traits<Graph>::edge_descriptor>> CycleList;
+    typedef typename parmcb::detail::mcb_sva_fvs_trees<Graph,WeightMap,std::back_insert_iterator<CycleList>> ExactAlgo;
     parmcb::detail::BaseApproxSpannerAlgorithm<Graph, WeightMap, ExactAlgo, false> algo(g, weight, boost::get(boost::vertex_index, g), k);
     return algo.run(out);
 }
@@ -46,7 +47,8 @@ typename boost::property_traits<WeightMap>::value_type approx_mcb_sva_iso_trees(
         const Graph &g, const WeightMap &weight, std::size_t k,
         CycleOutputIterator out) {
 
-    typedef typename parmcb::detail::mcb_sva_fvs_trees<Graph,WeightMap,CycleOutputIterator> ExactAlgo;
+    typedef std::list<std::list<typename boost::graph_traits<Graph>::edge_descriptor>> CycleList;
+    typedef typename parmcb::detail::mcb_sva_fvs_trees<Graph,WeightMap,std::back_insert_iterator<CycleList>> ExactAlgo;
     parmcb::detail::BaseApproxSpannerAlgorithm<Graph, WeightMap, ExactAlgo, false> algo(g, weight, boost::get(boost::vertex_index, g), k);
     return algo.run(out);
 }
diff --git a/include/parmcb/parmcb_approx_sva_trees_tbb.hpp b/include/parmcb/parmcb_approx_sva_trees_tbb.hpp
index 5abe2ae..523b946 100644
--- a/include/parmcb/parmcb_approx_sva_trees_tbb.hpp
+++ b/include/parmcb/parmcb_approx_sva_trees_tbb.hpp
@@ -35,7 +35,8 @@ template<class Graph, class WeightMap, class CycleOutputIterator>
 typename boost::property_traits<WeightMap>::value_type approx_mcb_sva_fvs_trees_tbb(
         const Graph &g, const WeightMap &weight, std::size_t k,
         CycleOutputIterator out) {
-    typedef typename parmcb::detail::mcb_sva_fvs_trees_tbb<Graph,WeightMap,CycleOutputIterator> ExactAlgo;
+    typedef std::list<std::list<typename boost::graph_traits<Graph>::edge_descriptor>> CycleList;
+    typedef typename parmcb::detail::mcb_sva_fvs_trees_tbb<Graph,WeightMap,std::back_insert_iterator<CycleList>> ExactAlgo;
     parmcb::detail::BaseApproxSpannerAlgorithm<Graph, WeightMap, ExactAlgo, true> algo(g, weight, boost::get(boost::vertex_index, g), k);
     return algo.run(out);
 }
@@ -44,7 +45,8 @@ template<class Graph, class WeightMap, class CycleOutputIterator>
 typename boost::property_traits<WeightMap>::value_type approx_mcb_sva_iso_trees_tbb(
         const Graph &g, const WeightMap &weight, std::size_t k,
         CycleOutputIterator out) {
-    typedef typename parmcb::detail::mcb_sva_iso_trees_tbb<Graph,WeightMap,CycleOutputIterator> ExactAlgo;
+    typedef std::list<std::list<typename boost::graph_traits<Graph>::edge_descriptor>> CycleList;
+    typedef typename parmcb::detail::mcb_sva_iso_trees_tbb<Graph,WeightMap,std::back_insert_iterator<CycleList>> ExactAlgo;
     parmcb::detail::BaseApproxSpannerAlgorithm<Graph, WeightMap, ExactAlgo, true> algo(g, weight, boost::get(boost::vertex_index, g), k);
     return algo.run(out);
 }
-- 
2.43.0


From 8f7f3f7f45ded2d22ac98f713eb8df8b028cae0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:13 +0000
Subject: [PATCH 03/24] fix: hop bound 2k-1 of the spanner wraps around for
 huge k

---
 include/parmcb/detail/approx_spanner.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/parmcb/detail/approx_spanner.hpp b/include/parmcb/detail/approx_spanner.hpp
index f9e4666..85a5f7b 100644
--- a/include/parmcb/detail/approx_spanner.hpp
+++ b/include/parmcb/detail/approx_spanner.hpp
@@ -346,6 +346,11 @@ private:
             _vertex_g_to_spanner[v] = spanner_v;
         }
 
+        // maximum number of hops, 2k-1 without wrapping around
+        const std::size_t max_hops =
+                _k > (std::numeric_limits<std::size_t>::max)() / 2 ?
+                        (std::numeric_limits<std::size_t>::max)() : 2 * _k - 1;
+
         // construct edge set of spanner, edges carry the weights of the input
         EdgeWeightMapType spanner_weight_map = get(boost::edge_weight,
                 _spanner);
@@ -363,7 +368,7 @@ private:
             }
 
             if (!parmcb::is_bfs_reachable(_spanner, spanner_v, spanner_u,
-                    2 * _k - 1)) {
+                    max_hops)) {
                 // add edge to spanner
                 Edge spanner_e = std::get<0>(
                         boost::add_edge(spanner_v, spanner_u, _spanner));
-- 
2.43.0


From 1202a0ed655e8fc63a524b2a7f94c2dcd83ea4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:13 +0000
Subject: [PATCH 04/24] fix: order signed edges consistently across MPI
 processes

The slices and hidden edge sets of the processes were derived from the
pointer order of edge descriptors, which differs between processes.
---
 include/parmcb/mpi/parmcb_sva_signed.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/parmcb/mpi/parmcb_sva_signed.hpp b/include/parmcb/mpi/parmcb_sva_signed.hpp
index 2f25179..ad0b73e 100644
--- a/include/parmcb/mpi/parmcb_sva_signed.hpp
+++ b/include/parmcb/mpi/parmcb_sva_signed.hpp
@@ -6,6 +6,7 @@
 //    (See accompanying file LICENSE_1_0.txt or copy at
 //          https://www.boost.org/LICENSE_1_0.txt)
 
+#include <algorithm>
 #include <cstddef>
 #include <functional>
 #include <iostream>
@@ -91,13 +92,16 @@ namespace parmcb {
                  * Heuristic in case number of signed edges is small compared to the number of vertices.
                  */
                 std::map<Edge, std::set<Edge>> hidden_edges_per_edge;
-                std::vector<Edge> signed_edges_as_vector;
+                // order by forest index, all processes must agree on the order
+                std::vector<Edge> signed_edges_as_vector(signed_edges.begin(), signed_edges.end());
+                std::sort(signed_edges_as_vector.begin(), signed_edges_as_vector.end(),
+                        [&forest_index](const Edge &e1, const Edge &e2) {
+                            return forest_index(e1) < forest_index(e2);
+                        });
                 std::set<Edge> tmp_signed_edges = signed_edges;
-                while (!tmp_signed_edges.empty()) {
-                    auto bit = tmp_signed_edges.begin();
-                    hidden_edges_per_edge.insert(std::make_pair(*bit, tmp_signed_edges));
-                    signed_edges_as_vector.push_back(*bit);
-                    tmp_signed_edges.erase(bit);
+                for (const auto &se : signed_edges_as_vector) {
+                    hidden_edges_per_edge.insert(std::make_pair(se, tmp_signed_edges));
+                    tmp_signed_edges.erase(se);
                 }
 
                 std::vector<Edge> local_signed_edges_as_vector;
-- 
2.43.0


From 951a13bc467a012fbab59dcffe5defd4b3498455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:13 +0000
Subject: [PATCH 05/24] fix: initialize weight of default constructed
 SerializableMinOddCycle

---
 include/parmcb/sptrees.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parmcb/sptrees.hpp b/include/parmcb/sptrees.hpp
index 788f7ea..38f4aa7 100644
--- a/include/parmcb/sptrees.hpp
+++ b/include/parmcb/sptrees.hpp
@@ -418,7 +418,7 @@ namespace parmcb {
         typedef typename boost::property_traits<WeightMap>::value_type WeightType;
 
         SerializableMinOddCycle() :
-                exists(false) {
+                weight(WeightType()), exists(false) {
         }
 
         SerializableMinOddCycle(std::vector<Edge> edges, WeightType weight, bool exists) :
-- 
2.43.0


From 681ba97f77ae8993d2c70beb2c581f5a4779e5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:27 +0000
Subject: [PATCH 06/24] fix: reject bad input on all MPI processes

Only the first process checked the graph, all others were left waiting
inside a collective operation.
---
 src/mcb-dimacs-mpi.cpp | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/mcb-dimacs-mpi.cpp b/src/mcb-dimacs-mpi.cpp
index 5925589..d8829c2 100644
--- a/src/mcb-dimacs-mpi.cpp
+++ b/src/mcb-dimacs-mpi.cpp
@@ -92,20 +92,28 @@ int main(int argc, char *argv[]) {
     parmcb::read_dimacs_from_file(fp, graph);
     fclose(fp);
 
-    if (world.rank() == 0) {
-        if (parmcb::has_loops(graph)) {
+    // all processes check the input, otherwise those that did not reject it
+    // would wait forever for the ones that did
+    if (parmcb::has_loops(graph)) {
+        if (world.rank() == 0) {
             std::cerr << "Graph has loops, aborting.." << std::endl;
-            return EXIT_FAILURE;
         }
-        if (parmcb::has_multiple_edges(graph)) {
+        return EXIT_FAILURE;
+    }
+    if (parmcb::has_multiple_edges(graph)) {
+        if (world.rank() == 0) {
             std::cerr << "Graph has multiple edges, aborting.." << std::endl;
-            return EXIT_FAILURE;
         }
-        if (parmcb::has_non_positive_weights(graph, get(boost::edge_weight, graph))) {
+        return EXIT_FAILURE;
+    }
+    if (parmcb::has_non_positive_weights(graph, get(boost::edge_weight, graph))) {
+        if (world.rank() == 0) {
             std::cerr << "Graph has negative or zero weight edges, aborting.." << std::endl;
-            return EXIT_FAILURE;
         }
+        return EXIT_FAILURE;
+    }
 
+    if (world.rank() == 0) {
         std::cout << "Graph has " << num_vertices(graph) << " vertices" << std::endl;
         std::cout << "Graph has " << num_edges(graph) << " edges" << std::endl;
         std::cout << std::flush;
-- 
2.43.0


From 75654a1e56d993fb8d3001722fc6059dadb53bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:55 +0000
Subject: [PATCH 07/24] fix: keep the TBB concurrency limit in force after
 set_global_tbb_concurrency returns

The control object was destroyed on return. The function now owns a static
and is therefore inline.
---
 include/parmcb/util.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/parmcb/util.hpp b/include/parmcb/util.hpp
index a569267..cdf2a42 100644
--- a/include/parmcb/util.hpp
+++ b/include/parmcb/util.hpp
@@ -9,6 +9,7 @@
 #include <vector>
 #include <set>
 #include <map>
+#include <memory>
 
 #include <boost/graph/graph_traits.hpp>
 #include <boost/graph/graph_concepts.hpp>
@@ -149,11 +150,17 @@ namespace parmcb {
     }
 
 #ifdef PARMCB_HAVE_TBB
-    void set_global_tbb_concurrency(const std::size_t hardware_concurrency_hint) {
+    inline void set_global_tbb_concurrency(const std::size_t hardware_concurrency_hint) {
 #if TBB_VERSION_MAJOR > 2020
-    	oneapi::tbb::global_control global_limit(oneapi::tbb::global_control::max_allowed_parallelism, hardware_concurrency_hint);
+        // the limit is in force as long as the control object is alive
+        static std::unique_ptr<oneapi::tbb::global_control> global_limit;
+        global_limit.reset();
+        global_limit.reset(new oneapi::tbb::global_control(
+                oneapi::tbb::global_control::max_allowed_parallelism, hardware_concurrency_hint));
 #else
-    	tbb::task_scheduler_init init(hardware_concurrency_hint);
+        static std::unique_ptr<tbb::task_scheduler_init> init;
+        init.reset();
+        init.reset(new tbb::task_scheduler_init(hardware_concurrency_hint));
 #endif
     }
 #endif
-- 
2.43.0


From 60db17f1364c2ce41fdb1ae9cb841d202806c217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:56 +0000
Subject: [PATCH 08/24] fix: --cores of the demos takes effect without
 --verbose

---
 src/approx-mcb-dimacs.cpp | 6 ++++--
 src/mcb-dimacs.cpp        | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/approx-mcb-dimacs.cpp b/src/approx-mcb-dimacs.cpp
index 34b6ab1..c4934ba 100644
--- a/src/approx-mcb-dimacs.cpp
+++ b/src/approx-mcb-dimacs.cpp
@@ -112,8 +112,10 @@ int main(int argc, char *argv[]) {
         if (cores == 0) {
             cores = boost::thread::hardware_concurrency();
         }
-        if (vm["verbose"].as<bool>() && vm["parallel"].as<bool>()) {
-            std::cout << "Using cores: " << cores << std::endl;
+        if (vm["parallel"].as<bool>()) {
+            if (vm["verbose"].as<bool>()) {
+                std::cout << "Using cores: " << cores << std::endl;
+            }
             parmcb::set_global_tbb_concurrency(cores);
         }
     }
diff --git a/src/mcb-dimacs.cpp b/src/mcb-dimacs.cpp
index f2df810..47f4ad5 100644
--- a/src/mcb-dimacs.cpp
+++ b/src/mcb-dimacs.cpp
@@ -101,8 +101,10 @@ int main(int argc, char *argv[]) {
         if (cores == 0) {
             cores = boost::thread::hardware_concurrency();
         }
-        if (vm["verbose"].as<bool>() && vm["parallel"].as<bool>()) {
-            std::cout << "Using cores: " << cores << std::endl;
+        if (vm["parallel"].as<bool>()) {
+            if (vm["verbose"].as<bool>()) {
+                std::cout << "Using cores: " << cores << std::endl;
+            }
             parmcb::set_global_tbb_concurrency(cores);
         }
     }
-- 
2.43.0


From 560fc5039076125ea4b6c380d9fdce1ed37a416f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:19 +0000
Subject: [PATCH 09/24] fix: DIMACS reader drops the last character of a file
 without trailing newline

---
 include/parmcb/util.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/parmcb/util.hpp b/include/parmcb/util.hpp
index cdf2a42..218e717 100644
--- a/include/parmcb/util.hpp
+++ b/include/parmcb/util.hpp
@@ -6,6 +6,7 @@
 //    (See accompanying file LICENSE_1_0.txt or copy at
 //          https://www.boost.org/LICENSE_1_0.txt)
 
+#include <cstring>
 #include <vector>
 #include <set>
 #include <map>
@@ -120,7 +121,7 @@ namespace parmcb {
         typename boost::property_map<Graph, boost::edge_weight_t>::type weight = get(boost::edge_weight, graph);
 
         while (fgets(buffer, sizeof(buffer), fp) != NULL) {
-            buffer[strlen(buffer) - 1] = '\0'; // eat the newline
+            buffer[strcspn(buffer, "\n")] = '\0'; // eat the newline, if any
             if (buffer[0] == 'c' || buffer[0] == '#') {
                 continue;
             } else if (buffer[0] == 'p') {
-- 
2.43.0


From 4d33c446f36147e11d5afaa426d4475a6f0da0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:19 +0000
Subject: [PATCH 10/24] fix: DIMACS reader uses uninitialized or wrapped around
 vertex numbers

An incomplete line left the variables uninitialized, and a number that
does not fit in an int could wrap around to a declared vertex.
---
 include/parmcb/util.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/parmcb/util.hpp b/include/parmcb/util.hpp
index 218e717..ae580b1 100644
--- a/include/parmcb/util.hpp
+++ b/include/parmcb/util.hpp
@@ -115,7 +115,7 @@ namespace parmcb {
 
         char buffer[BUFFER_SIZE], problem[BUFFER_SIZE];
 
-        std::size_t nnodes, nedges;
+        std::size_t nnodes = 0, nedges = 0;
         std::map<std::size_t, vertex_descriptor> vertex_map;
 
         typename boost::property_map<Graph, boost::edge_weight_t>::type weight = get(boost::edge_weight, graph);
@@ -130,10 +130,10 @@ namespace parmcb {
                     vertex_map[i] = boost::add_vertex(graph);
                 }
             } else if (buffer[0] == 'a' || buffer[0] == 'e') {
-                int rs, rt;
+                std::size_t rs = 0, rt = 0;
                 double rw = 1;
                 char fc;
-                sscanf(buffer, "%c %d %d %lf", &fc, &rs, &rt, &rw);
+                sscanf(buffer, "%c %lu %lu %lf", &fc, &rs, &rt, &rw);
 
                 if (vertex_map.find(rs) == vertex_map.end()) {
                     throw std::system_error(EIO, std::generic_category(), "Vertex not found");
-- 
2.43.0


From 24640b2f3c334665ae5d4696c58bb8bc837b11f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:00 +0000
Subject: [PATCH 11/24] fix: ext_gcd with a zero argument

One coefficient was left uninitialized, and the sign of the first argument
was ignored when the second one is zero.
---
 include/parmcb/fp.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/parmcb/fp.hpp b/include/parmcb/fp.hpp
index 5a51a18..bafd89a 100644
--- a/include/parmcb/fp.hpp
+++ b/include/parmcb/fp.hpp
@@ -36,11 +36,13 @@ T fp<T>::ext_gcd(T &a, T &b, T &x, T &y) {
     a = (a < 0) ? -a : a;
     b = (b < 0) ? -b : b;
     if (a == 0) {
+        x = 0;
         y = bneg ? -1 : 1;
         return b;
     }
     if (b == 0) {
-        x = bneg ? -1 : 1;
+        x = aneg ? -1 : 1;
+        y = 0;
         return a;
     }
 
-- 
2.43.0


From 3a1a1b04c7fab611a572e2b3b4dc4284462dc332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:00 +0000
Subject: [PATCH 12/24] fix: is_prime(2) is true

---
 include/parmcb/fp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parmcb/fp.hpp b/include/parmcb/fp.hpp
index bafd89a..6e312bb 100644
--- a/include/parmcb/fp.hpp
+++ b/include/parmcb/fp.hpp
@@ -112,7 +112,7 @@ public:
          assert( p >= t );
  #endif
         if (p % 2 == 0)
-            return false;
+            return p == t;
         T zero = T(0);
         T sqrtt = T(sqrt(p)) + 1;
 #ifdef PARMCB_INVARIANTS_CHECK
-- 
2.43.0


From 375f26082f503561025512d5cb748f2e0046f3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:00 +0000
Subject: [PATCH 13/24] fix: integer overflow in is_prime close to the maximum
 of the type

---
 include/parmcb/fp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parmcb/fp.hpp b/include/parmcb/fp.hpp
index 6e312bb..44e082a 100644
--- a/include/parmcb/fp.hpp
+++ b/include/parmcb/fp.hpp
@@ -116,7 +116,7 @@ public:
         T zero = T(0);
         T sqrtt = T(sqrt(p)) + 1;
 #ifdef PARMCB_INVARIANTS_CHECK
-         if ( sqrtt * sqrtt < p )
+         if ( (p - 1) / sqrtt >= sqrtt ) // sqrtt * sqrtt < p, without overflow
              throw new std::runtime_error("error calculating square");
 #endif
         while (t <= sqrtt) {
-- 
2.43.0


From 8fec7f03d3e29c4caeac76cdaf16465b09cee8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:01 +0000
Subject: [PATCH 14/24] fix: integer overflow in SpVecFP arithmetic with
 built-in types

---
 include/parmcb/spvecfp.hpp | 51 ++++++++++++++++++++++++++++----------
 1 file changed, 38 insertions(+), 13 deletions(-)

diff --git a/include/parmcb/spvecfp.hpp b/include/parmcb/spvecfp.hpp
index 68072b3..df3aa93 100644
--- a/include/parmcb/spvecfp.hpp
+++ b/include/parmcb/spvecfp.hpp
@@ -6,6 +6,7 @@
 //    (See accompanying file LICENSE_1_0.txt or copy at
 //          https://www.boost.org/LICENSE_1_0.txt)
 
+#include <limits>
 #include <vector>
 #include <set>
 #include <iostream>
@@ -16,6 +17,36 @@
 
 namespace parmcb {
 
+namespace detail {
+
+// (a + b) mod p for a, b in [0,p), without intermediate overflow
+template<typename P>
+P add_mod(const P &a, const P &b, const P &p) {
+    if (a >= p - b) {
+        return a - (p - b);
+    }
+    return a + b;
+}
+
+// (a * b) mod p for a, b in [0,p), without intermediate overflow
+template<typename P>
+P mult_mod(const P &a, const P &b, const P &p) {
+    if (!std::numeric_limits<P>::is_bounded || a == 0 || b <= (std::numeric_limits<P>::max)() / a) {
+        return (a * b) % p;
+    }
+    P res = 0, base = a, exponent = b;
+    while (exponent > 0) {
+        if (exponent % 2 != 0) {
+            res = add_mod(res, base, p);
+        }
+        base = add_mod(base, base, p);
+        exponent /= 2;
+    }
+    return res;
+}
+
+} // detail
+
 template<typename P>
 class SpVecFP {
 
@@ -90,8 +121,8 @@ public:
             } else if (index < v_index) {
                 it++;
             } else {
-                P v = (boost::get<1>(entry) * boost::get<1>(v_entry)) % p;
-                res = (res + v) % p;
+                P v = detail::mult_mod<P>(boost::get<1>(entry), boost::get<1>(v_entry), p);
+                res = detail::add_mod<P>(res, v, p);
                 it++;
                 v_it++;
             }
@@ -121,11 +152,7 @@ public:
                 res.entries.push_back(boost::make_tuple(index, value));
                 it++;
             } else {
-                P v = (value + v_value) % p;
-                while (v < 0)
-                    v += p;   // make [-i]_p = [p-i]_p
-                while (v >= p)
-                    v -= p; // make [i+p]_p = [i]_p
+                P v = detail::add_mod<P>(value, v_value, p);
                 if (v != 0) {
                     res.entries.push_back(boost::make_tuple(index, v));
                 }
@@ -160,18 +187,16 @@ public:
 
     SpVecFP<P> operator*(const P &a) const {
         SpVecFP<P> res(p);
+        P scalar = a % p;
+        if (scalar < 0)
+            scalar += p;   // make [-i]_p = [p-i]_p
         auto it = entries.begin(), it_e = entries.end();
         while (it != it_e) {
             entry_type entry = *it;
             std::size_t index = boost::get<0>(entry);
             P value = boost::get<1>(entry);
 
-            P v = (value * a) % p;
-            while (v < 0)
-                v += p;   // make [-i]_p = [p-i]_p
-            while (v >= p)
-                v -= p; // make [i+p]_p = [i]_p
-
+            P v = detail::mult_mod<P>(value, scalar, p);
             if (v != 0) {
                 res.entries.push_back(boost::make_tuple(index, v));
             }
-- 
2.43.0


From 140be17ceaa859305d7193ccc36a30b9942da658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:16 +0000
Subject: [PATCH 15/24] fix: throw exceptions by value

A thrown pointer is never released and is not caught as std::exception.
---
 include/parmcb/detail/approx_spanner.hpp | 4 ++--
 include/parmcb/fp.hpp                    | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/parmcb/detail/approx_spanner.hpp b/include/parmcb/detail/approx_spanner.hpp
index 85a5f7b..45e679b 100644
--- a/include/parmcb/detail/approx_spanner.hpp
+++ b/include/parmcb/detail/approx_spanner.hpp
@@ -116,7 +116,7 @@ private:
                     spanner_other = boost::source(spanner_ae, _spanner);
                 }
                 if (spanner_other == spanner_w) {
-                    throw new std::runtime_error("Self loops?");
+                    throw std::runtime_error("Self loops?");
                 }
                 spanner_w = spanner_other;
             }
@@ -200,7 +200,7 @@ private:
                                         _spanner);
                             }
                             if (spanner_other == spanner_w) {
-                                throw new std::runtime_error("Self loops?");
+                                throw std::runtime_error("Self loops?");
                             }
                             spanner_w = spanner_other;
                         }
diff --git a/include/parmcb/fp.hpp b/include/parmcb/fp.hpp
index 44e082a..5f961b9 100644
--- a/include/parmcb/fp.hpp
+++ b/include/parmcb/fp.hpp
@@ -89,12 +89,12 @@ template<class T>
 T fp<T>::get_mult_inverse(T &a, T &p) {
 #ifdef PARMCB_INVARIANTS_CHECK
     if ( p <= 0 )
-        throw new std::runtime_error("p is not positive");
+        throw std::runtime_error("p is not positive");
 #endif
 
     T x, y;
     if (fp<T>::ext_gcd(a, p, x, y) != 1) {
-        throw new std::runtime_error("mult inverse does not exist");
+        throw std::runtime_error("mult inverse does not exist");
     }
     return x;
 }
@@ -117,7 +117,7 @@ public:
         T sqrtt = T(sqrt(p)) + 1;
 #ifdef PARMCB_INVARIANTS_CHECK
          if ( (p - 1) / sqrtt >= sqrtt ) // sqrtt * sqrtt < p, without overflow
-             throw new std::runtime_error("error calculating square");
+             throw std::runtime_error("error calculating square");
 #endif
         while (t <= sqrtt) {
             if (p % t == zero)
-- 
2.43.0


From 95a82b0c5ba96b2b9ec9595f52ad4d42ba158b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:16 +0000
Subject: [PATCH 16/24] fix: do not keep references to temporary vertex index
 maps

Trees and functors are constructed with the temporary returned by
boost::get(boost::vertex_index, g).
---
 include/parmcb/detail/approx_spanner.hpp | 2 +-
 include/parmcb/detail/util.hpp           | 2 +-
 include/parmcb/sptrees.hpp               | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/parmcb/detail/approx_spanner.hpp b/include/parmcb/detail/approx_spanner.hpp
index 45e679b..5dfef47 100644
--- a/include/parmcb/detail/approx_spanner.hpp
+++ b/include/parmcb/detail/approx_spanner.hpp
@@ -309,7 +309,7 @@ private:
     const Graph &_g;
     const WeightMap &_weight_map;
     const std::size_t _k;
-    const VertexIndexMapType &_index_map;
+    const VertexIndexMapType _index_map;
     std::vector<Vertex> _vertex_g_to_spanner_vec;
     const boost::function_property_map<
             parmcb::detail::VertexIndexFunctor<Graph, Vertex>, Vertex, Vertex&> _vertex_g_to_spanner;
diff --git a/include/parmcb/detail/util.hpp b/include/parmcb/detail/util.hpp
index 67711f4..d1d5bec 100644
--- a/include/parmcb/detail/util.hpp
+++ b/include/parmcb/detail/util.hpp
@@ -49,7 +49,7 @@ namespace parmcb {
             typedef typename boost::property_map<Graph, boost::vertex_index_t>::type VertexIndexMapType;
 
             std::vector<V> &values;
-            const VertexIndexMapType &index_map;
+            const VertexIndexMapType index_map;
 
             VertexIndexFunctor(std::vector<V> &values, const VertexIndexMapType &index_map) :
                     values(values), index_map(index_map) {
diff --git a/include/parmcb/sptrees.hpp b/include/parmcb/sptrees.hpp
index 38f4aa7..0b98912 100644
--- a/include/parmcb/sptrees.hpp
+++ b/include/parmcb/sptrees.hpp
@@ -257,7 +257,7 @@ namespace parmcb {
         const std::size_t _id;
         const Graph &_g;
         const WeightMap &_weight_map;
-        const VertexIndexMapType &_index_map;
+        const VertexIndexMapType _index_map;
         const Vertex _source;
 
         /*
-- 
2.43.0


From 0bdde2c329722ee00f676525162ff090ea0b9c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:16 +0000
Subject: [PATCH 17/24] fix: SpVecGF2::add dereferences the past-the-end
 iterator in its assertion

---
 include/parmcb/spvecgf2.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parmcb/spvecgf2.hpp b/include/parmcb/spvecgf2.hpp
index f6bdbef..0cb4046 100644
--- a/include/parmcb/spvecgf2.hpp
+++ b/include/parmcb/spvecgf2.hpp
@@ -147,7 +147,7 @@ namespace parmcb {
         }
 
         void add(U pos) {
-            assert(ones.empty() || pos >= *(ones.end()));
+            assert(ones.empty() || pos > ones.back());
 
             ones.push_back(pos);
         }
-- 
2.43.0


From a19016664243cd40fd329b9469d1fde2bca4773c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:23 +0000
Subject: [PATCH 18/24] fix: make the stream operator in signed_dijkstra.hpp
 inline

The header could not be included from several translation units.
---
 include/parmcb/detail/signed_dijkstra.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/parmcb/detail/signed_dijkstra.hpp b/include/parmcb/detail/signed_dijkstra.hpp
index 6bf6180..99ef151 100644
--- a/include/parmcb/detail/signed_dijkstra.hpp
+++ b/include/parmcb/detail/signed_dijkstra.hpp
@@ -22,7 +22,7 @@
 
 namespace std {
 
-    std::ostream& operator <<(std::ostream &out, const std::pair<unsigned long int, bool> &v) {
+    inline std::ostream& operator <<(std::ostream &out, const std::pair<unsigned long int, bool> &v) {
         out << v.first << (v.second ? "+" : "-");
         return out;
     }
-- 
2.43.0


From 7587989358d7eea846a1a1aef8a5281ca59579ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:23 +0000
Subject: [PATCH 19/24] fix: include what the headers use

---
 include/parmcb/detail/approx_spanner.hpp  | 6 ++++++
 include/parmcb/detail/bfs.hpp             | 4 ++++
 include/parmcb/detail/cycles.hpp          | 3 +++
 include/parmcb/detail/dijkstra.hpp        | 4 ++++
 include/parmcb/detail/fvs.hpp             | 4 ++++
 include/parmcb/detail/lex_dijkstra.hpp    | 6 ++++++
 include/parmcb/detail/signed_dijkstra.hpp | 7 +++++++
 include/parmcb/detail/spanning_forest.hpp | 2 ++
 include/parmcb/detail/util.hpp            | 1 +
 include/parmcb/fp.hpp                     | 5 +++++
 include/parmcb/mpi/parmcb_sva_signed.hpp  | 5 +++++
 include/parmcb/mpi/parmcb_sva_trees.hpp   | 4 ++++
 include/parmcb/mpi/sptrees.hpp            | 4 ++++
 include/parmcb/parmcb_sva_signed.hpp      | 5 +++++
 include/parmcb/parmcb_sva_signed_tbb.hpp  | 5 +++++
 include/parmcb/parmcb_sva_trees.hpp       | 5 +++++
 include/parmcb/sptrees.hpp                | 4 ++++
 include/parmcb/spvecgf2.hpp               | 2 ++
 include/parmcb/util.hpp                   | 5 +++++
 19 files changed, 81 insertions(+)

diff --git a/include/parmcb/detail/approx_spanner.hpp b/include/parmcb/detail/approx_spanner.hpp
index 5dfef47..7e41126 100644
--- a/include/parmcb/detail/approx_spanner.hpp
+++ b/include/parmcb/detail/approx_spanner.hpp
@@ -9,6 +9,12 @@
 #include <parmcb/detail/dijkstra.hpp>
 #include <parmcb/detail/bfs.hpp>
 
+#include <algorithm>
+#include <limits>
+#include <map>
+#include <stdexcept>
+#include <tuple>
+#include <vector>
 #include <functional>
 #include <iterator>
 #include <list>
diff --git a/include/parmcb/detail/bfs.hpp b/include/parmcb/detail/bfs.hpp
index 3ec2bdb..01a6ce9 100644
--- a/include/parmcb/detail/bfs.hpp
+++ b/include/parmcb/detail/bfs.hpp
@@ -6,6 +6,10 @@
 //    (See accompanying file LICENSE_1_0.txt or copy at
 //          https://www.boost.org/LICENSE_1_0.txt)
 
+#include <functional>
+#include <limits>
+#include <tuple>
+#include <vector>
 #include <iostream>
 #include <queue>
 
diff --git a/include/parmcb/detail/cycles.hpp b/include/parmcb/detail/cycles.hpp
index 8e3e5d3..04a84ec 100644
--- a/include/parmcb/detail/cycles.hpp
+++ b/include/parmcb/detail/cycles.hpp
@@ -6,6 +6,9 @@
 //    (See accompanying file LICENSE_1_0.txt or copy at
 //          https://www.boost.org/LICENSE_1_0.txt)
 
+#include <memory>
+#include <utility>
+#include <vector>
 #include <iostream>
 #include <map>
 #include <parmcb/util.hpp>
diff --git a/include/parmcb/detail/dijkstra.hpp b/include/parmcb/detail/dijkstra.hpp
index 2f04d9c..d19eead 100644
--- a/include/parmcb/detail/dijkstra.hpp
+++ b/include/parmcb/detail/dijkstra.hpp
@@ -6,6 +6,10 @@
 //    (See accompanying file LICENSE_1_0.txt or copy at
 //          https://www.boost.org/LICENSE_1_0.txt)
 
+#include <functional>
+#include <limits>
+#include <tuple>
+#include <vector>
 #include <iostream>
 
 #include <boost/scoped_array.hpp>
diff --git a/include/parmcb/detail/fvs.hpp b/include/parmcb/detail/fvs.hpp
index 0969d0f..cf9f4c0 100644
--- a/include/parmcb/detail/fvs.hpp
+++ b/include/parmcb/detail/fvs.hpp
@@ -6,6 +6,10 @@
 //    (See accompanying file LICENSE_1_0.txt or copy at
 //          https://www.boost.org/LICENSE_1_0.txt)
 
+#include <cstddef>
+#include <deque>
+#include <map>
+#include <vector>
 #include <iostream>
 
 #include <boost/scoped_array.hpp>
diff --git a/include/parmcb/detail/lex_dijkstra.hpp b/include/parmcb/detail/lex_dijkstra.hpp
index 5f5f543..cf05da3 100644
--- a/include/parmcb/detail/lex_dijkstra.hpp
+++ b/include/parmcb/detail/lex_dijkstra.hpp
@@ -6,6 +6,12 @@
 //    (See accompanying file LICENSE_1_0.txt or copy at
 //          https://www.boost.org/LICENSE_1_0.txt)
 
+#include <algorithm>
+#include <iterator>
+#include <limits>
+#include <set>
+#include <tuple>
+#include <vector>
 #include <iostream>
 
 #include <boost/scoped_array.hpp>
diff --git a/include/parmcb/detail/signed_dijkstra.hpp b/include/parmcb/detail/signed_dijkstra.hpp
index 99ef151..2d8a33e 100644
--- a/include/parmcb/detail/signed_dijkstra.hpp
+++ b/include/parmcb/detail/signed_dijkstra.hpp
@@ -6,6 +6,13 @@
 //    (See accompanying file LICENSE_1_0.txt or copy at
 //          https://www.boost.org/LICENSE_1_0.txt)
 
+#include <cassert>
+#include <functional>
+#include <limits>
+#include <set>
+#include <tuple>
+#include <utility>
+#include <vector>
 #include <iostream>
 
 #include <boost/scoped_array.hpp>
diff --git a/include/parmcb/detail/spanning_forest.hpp b/include/parmcb/detail/spanning_forest.hpp
index 56281dd..9046567 100644
--- a/include/parmcb/detail/spanning_forest.hpp
+++ b/include/parmcb/detail/spanning_forest.hpp
@@ -6,6 +6,8 @@
 //    (See accompanying file LICENSE_1_0.txt or copy at
 //          https://www.boost.org/LICENSE_1_0.txt)
 
+#include <cstddef>
+#include <unordered_set>
 #include <map>
 #include <queue>
 #include <set>
diff --git a/include/parmcb/detail/util.hpp b/include/parmcb/detail/util.hpp
index d1d5bec..5848bc1 100644
--- a/include/parmcb/detail/util.hpp
+++ b/include/parmcb/detail/util.hpp
@@ -6,6 +6,7 @@
 //    (See accompanying file LICENSE_1_0.txt or copy at
 //          https://www.boost.org/LICENSE_1_0.txt)
 
+#include <limits>
 #include <vector>
 #include <set>
 #include <map>
diff --git a/include/parmcb/fp.hpp b/include/parmcb/fp.hpp
index 5f961b9..cd98ca4 100644
--- a/include/parmcb/fp.hpp
+++ b/include/parmcb/fp.hpp
@@ -6,6 +6,11 @@
 //    (See accompanying file LICENSE_1_0.txt or copy at
 //          https://www.boost.org/LICENSE_1_0.txt)
 
+#include <cassert>
+#include <cmath>
+#include <cstddef>
+#include <stdexcept>
+
 namespace parmcb {
 
 template<class T>
diff --git a/include/parmcb/mpi/parmcb_sva_signed.hpp b/include/parmcb/mpi/parmcb_sva_signed.hpp
index ad0b73e..2c05bec 100644
--- a/include/parmcb/mpi/parmcb_sva_signed.hpp
+++ b/include/parmcb/mpi/parmcb_sva_signed.hpp
@@ -6,6 +6,11 @@
 //    (See accompanying file LICENSE_1_0.txt or copy at
 //          https://www.boost.org/LICENSE_1_0.txt)
 
+#include <cassert>
+#include <cmath>
+#include <list>
+#include <map>
+#include <tuple>
 #include <algorithm>
 #include <cstddef>
 #include <functional>
diff --git a/include/parmcb/mpi/parmcb_sva_trees.hpp b/include/parmcb/mpi/parmcb_sva_trees.hpp
index e3762f8..3ca35af 100644
--- a/include/parmcb/mpi/parmcb_sva_trees.hpp
+++ b/include/parmcb/mpi/parmcb_sva_trees.hpp
@@ -15,6 +15,10 @@
 #include <boost/mpi/collectives.hpp>
 #include <boost/mpi/timer.hpp>
 
+#include <algorithm>
+#include <list>
+#include <map>
+#include <tuple>
 #include <cstddef>
 #include <functional>
 #include <iostream>
diff --git a/include/parmcb/mpi/sptrees.hpp b/include/parmcb/mpi/sptrees.hpp
index 96e85bf..07748af 100644
--- a/include/parmcb/mpi/sptrees.hpp
+++ b/include/parmcb/mpi/sptrees.hpp
@@ -6,6 +6,10 @@
 //    (See accompanying file LICENSE_1_0.txt or copy at
 //          https://www.boost.org/LICENSE_1_0.txt)
 
+#include <boost/mpi/datatype.hpp>
+#include <boost/mpi/operations.hpp>
+#include <boost/mpl/bool.hpp>
+
 #include <parmcb/sptrees.hpp>
 
 namespace boost {
diff --git a/include/parmcb/parmcb_sva_signed.hpp b/include/parmcb/parmcb_sva_signed.hpp
index 67a37b8..f2ede89 100644
--- a/include/parmcb/parmcb_sva_signed.hpp
+++ b/include/parmcb/parmcb_sva_signed.hpp
@@ -11,6 +11,11 @@
 #include <boost/tuple/detail/tuple_basic.hpp>
 #include <boost/timer/timer.hpp>
 
+#include <algorithm>
+#include <cassert>
+#include <list>
+#include <map>
+#include <tuple>
 #include <cstddef>
 #include <functional>
 #include <iostream>
diff --git a/include/parmcb/parmcb_sva_signed_tbb.hpp b/include/parmcb/parmcb_sva_signed_tbb.hpp
index 5132ad6..92ac88c 100644
--- a/include/parmcb/parmcb_sva_signed_tbb.hpp
+++ b/include/parmcb/parmcb_sva_signed_tbb.hpp
@@ -6,6 +6,11 @@
 //    (See accompanying file LICENSE_1_0.txt or copy at
 //          https://www.boost.org/LICENSE_1_0.txt)
 
+#include <algorithm>
+#include <cassert>
+#include <list>
+#include <map>
+#include <tuple>
 #include <cstddef>
 #include <functional>
 #include <iostream>
diff --git a/include/parmcb/parmcb_sva_trees.hpp b/include/parmcb/parmcb_sva_trees.hpp
index ed19dfd..dbca8ae 100644
--- a/include/parmcb/parmcb_sva_trees.hpp
+++ b/include/parmcb/parmcb_sva_trees.hpp
@@ -11,6 +11,11 @@
 #include <boost/tuple/detail/tuple_basic.hpp>
 #include <boost/timer/timer.hpp>
 
+#include <algorithm>
+#include <cassert>
+#include <list>
+#include <map>
+#include <tuple>
 #include <cstddef>
 #include <functional>
 #include <iostream>
diff --git a/include/parmcb/sptrees.hpp b/include/parmcb/sptrees.hpp
index 0b98912..e01e41c 100644
--- a/include/parmcb/sptrees.hpp
+++ b/include/parmcb/sptrees.hpp
@@ -6,6 +6,10 @@
 //    (See accompanying file LICENSE_1_0.txt or copy at
 //          https://www.boost.org/LICENSE_1_0.txt)
 
+#include <limits>
+#include <set>
+#include <tuple>
+#include <vector>
 #include <iostream>
 
 #include <boost/throw_exception.hpp>
diff --git a/include/parmcb/spvecgf2.hpp b/include/parmcb/spvecgf2.hpp
index 0cb4046..47ce151 100644
--- a/include/parmcb/spvecgf2.hpp
+++ b/include/parmcb/spvecgf2.hpp
@@ -6,6 +6,8 @@
 //    (See accompanying file LICENSE_1_0.txt or copy at
 //          https://www.boost.org/LICENSE_1_0.txt)
 
+#include <algorithm>
+#include <iterator>
 #include <vector>
 #include <set>
 #include <iostream>
diff --git a/include/parmcb/util.hpp b/include/parmcb/util.hpp
index ae580b1..5b12c89 100644
--- a/include/parmcb/util.hpp
+++ b/include/parmcb/util.hpp
@@ -6,6 +6,11 @@
 //    (See accompanying file LICENSE_1_0.txt or copy at
 //          https://www.boost.org/LICENSE_1_0.txt)
 
+#include <algorithm>
+#include <cerrno>
+#include <cstdio>
+#include <list>
+#include <system_error>
 #include <cstring>
 #include <vector>
 #include <set>
-- 
2.43.0


From 304f2e33a2f8bad8cd42cc78dcd4bb674a590739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:23 +0000
Subject: [PATCH 20/24] fix: headers do not compile when TBB is disabled

Also parmcb_sva_signed_tbb.hpp tested PARMCB_HAVE_TBB before including the
configuration that defines it.
---
 include/parmcb/detail/approx_spanner.hpp        |  2 ++
 include/parmcb/mpi/parmcb_sva_signed.hpp        | 12 ++++++++----
 include/parmcb/mpi/parmcb_sva_trees.hpp         |  4 ++++
 include/parmcb/parmcb_approx_sva_signed_tbb.hpp |  4 ++++
 include/parmcb/parmcb_approx_sva_trees_tbb.hpp  |  4 ++++
 include/parmcb/parmcb_sva_signed_tbb.hpp        | 16 +++++++++-------
 include/parmcb/parmcb_sva_trees.hpp             |  4 ++++
 include/parmcb/sptrees.hpp                      |  2 ++
 8 files changed, 37 insertions(+), 11 deletions(-)

diff --git a/include/parmcb/detail/approx_spanner.hpp b/include/parmcb/detail/approx_spanner.hpp
index 7e41126..cd95c84 100644
--- a/include/parmcb/detail/approx_spanner.hpp
+++ b/include/parmcb/detail/approx_spanner.hpp
@@ -137,6 +137,7 @@ private:
         return total_weight;
     }
 
+#ifdef PARMCB_HAVE_TBB
     template<class CycleOutputIterator, bool is_tbb_enabled = ParallelUsingTBB>
     WeightType construct_cycles_for_non_spanner_edges(CycleOutputIterator out,
             typename std::enable_if<is_tbb_enabled>::type* = 0) {
@@ -233,6 +234,7 @@ private:
 
         return total_weight;
     }
+#endif
 
     const Graph &_g;
     const WeightMap &_weight_map;
diff --git a/include/parmcb/mpi/parmcb_sva_signed.hpp b/include/parmcb/mpi/parmcb_sva_signed.hpp
index 2c05bec..3ea9bbb 100644
--- a/include/parmcb/mpi/parmcb_sva_signed.hpp
+++ b/include/parmcb/mpi/parmcb_sva_signed.hpp
@@ -29,10 +29,6 @@
 #include <boost/mpi/collectives.hpp>
 #include <boost/mpi/timer.hpp>
 
-#include <tbb/concurrent_vector.h>
-#include <tbb/parallel_for.h>
-#include <tbb/parallel_reduce.h>
-
 #include <parmcb/config.hpp>
 #include <parmcb/detail/signed_dijkstra.hpp>
 #include <parmcb/mpi/sptrees.hpp>
@@ -40,6 +36,12 @@
 #include <parmcb/spvecgf2.hpp>
 #include <parmcb/util.hpp>
 
+#ifdef PARMCB_HAVE_TBB
+
+#include <tbb/concurrent_vector.h>
+#include <tbb/parallel_for.h>
+#include <tbb/parallel_reduce.h>
+
 namespace parmcb {
 
     namespace detail {
@@ -308,4 +310,6 @@ namespace parmcb {
 
 } // namespace parmcb
 
+#endif // PARMCB_HAVE_TBB
+
 #endif
diff --git a/include/parmcb/mpi/parmcb_sva_trees.hpp b/include/parmcb/mpi/parmcb_sva_trees.hpp
index 3ca35af..3b0798c 100644
--- a/include/parmcb/mpi/parmcb_sva_trees.hpp
+++ b/include/parmcb/mpi/parmcb_sva_trees.hpp
@@ -225,12 +225,14 @@ namespace parmcb {
                 parmcb::detail::FVSCyclesBuilder<Graph, WeightMap>, false>(g, weight_map, out, world);
     }
 
+#ifdef PARMCB_HAVE_TBB
     template<class Graph, class WeightMap, class CycleOutputIterator>
     typename boost::property_traits<WeightMap>::value_type mcb_sva_fvs_trees_tbb_mpi(const Graph &g,
             WeightMap weight_map, CycleOutputIterator out, boost::mpi::communicator &world) {
         return _mcb_sva_trees_mpi<Graph, WeightMap, CycleOutputIterator,
                 parmcb::detail::FVSCyclesBuilder<Graph, WeightMap>, true>(g, weight_map, out, world);
     }
+#endif
 
     template<class Graph, class WeightMap, class CycleOutputIterator>
     typename boost::property_traits<WeightMap>::value_type mcb_sva_iso_trees_mpi(const Graph &g, WeightMap weight_map,
@@ -239,12 +241,14 @@ namespace parmcb {
                 parmcb::detail::ISOCyclesBuilder<Graph, WeightMap>, false>(g, weight_map, out, world);
     }
 
+#ifdef PARMCB_HAVE_TBB
     template<class Graph, class WeightMap, class CycleOutputIterator>
     typename boost::property_traits<WeightMap>::value_type mcb_sva_iso_trees_tbb_mpi(const Graph &g,
             WeightMap weight_map, CycleOutputIterator out, boost::mpi::communicator &world) {
         return _mcb_sva_trees_mpi<Graph, WeightMap, CycleOutputIterator,
                 parmcb::detail::ISOCyclesBuilder<Graph, WeightMap>, true>(g, weight_map, out, world);
     }
+#endif
 
 } // namespace mcb
 
diff --git a/include/parmcb/parmcb_approx_sva_signed_tbb.hpp b/include/parmcb/parmcb_approx_sva_signed_tbb.hpp
index 2fed6ad..4dbd098 100644
--- a/include/parmcb/parmcb_approx_sva_signed_tbb.hpp
+++ b/include/parmcb/parmcb_approx_sva_signed_tbb.hpp
@@ -9,6 +9,8 @@
 #include <parmcb/detail/approx_spanner.hpp>
 #include <parmcb/parmcb_sva_signed_tbb.hpp>
 
+#ifdef PARMCB_HAVE_TBB
+
 namespace parmcb {
 
 namespace detail {
@@ -35,4 +37,6 @@ typename boost::property_traits<WeightMap>::value_type approx_mcb_sva_signed_tbb
 
 } // parmcb
 
+#endif // PARMCB_HAVE_TBB
+
 #endif
diff --git a/include/parmcb/parmcb_approx_sva_trees_tbb.hpp b/include/parmcb/parmcb_approx_sva_trees_tbb.hpp
index 523b946..46f8453 100644
--- a/include/parmcb/parmcb_approx_sva_trees_tbb.hpp
+++ b/include/parmcb/parmcb_approx_sva_trees_tbb.hpp
@@ -9,6 +9,8 @@
 #include <parmcb/detail/approx_spanner.hpp>
 #include <parmcb/parmcb_sva_trees.hpp>
 
+#ifdef PARMCB_HAVE_TBB
+
 namespace parmcb {
 
 namespace detail {
@@ -53,4 +55,6 @@ typename boost::property_traits<WeightMap>::value_type approx_mcb_sva_iso_trees_
 
 } // parmcb
 
+#endif // PARMCB_HAVE_TBB
+
 #endif
diff --git a/include/parmcb/parmcb_sva_signed_tbb.hpp b/include/parmcb/parmcb_sva_signed_tbb.hpp
index 92ac88c..75a0737 100644
--- a/include/parmcb/parmcb_sva_signed_tbb.hpp
+++ b/include/parmcb/parmcb_sva_signed_tbb.hpp
@@ -24,19 +24,19 @@
 #include <boost/tuple/detail/tuple_basic.hpp>
 #include <boost/timer/timer.hpp>
 
-#ifdef PARMCB_HAVE_TBB
-#include <tbb/parallel_for.h>
-#include <tbb/parallel_reduce.h>
-#include <tbb/concurrent_vector.h>
-#include <tbb/task_group.h>
-#endif
-
 #include <parmcb/config.hpp>
 #include <parmcb/detail/signed_dijkstra.hpp>
 #include <parmcb/forestindex.hpp>
 #include <parmcb/spvecgf2.hpp>
 #include <parmcb/util.hpp>
 
+#ifdef PARMCB_HAVE_TBB
+
+#include <tbb/parallel_for.h>
+#include <tbb/parallel_reduce.h>
+#include <tbb/concurrent_vector.h>
+#include <tbb/task_group.h>
+
 namespace parmcb {
 
     namespace detail {
@@ -290,4 +290,6 @@ namespace parmcb {
 
 } // namespace parmcb
 
+#endif // PARMCB_HAVE_TBB
+
 #endif
diff --git a/include/parmcb/parmcb_sva_trees.hpp b/include/parmcb/parmcb_sva_trees.hpp
index dbca8ae..3f2399d 100644
--- a/include/parmcb/parmcb_sva_trees.hpp
+++ b/include/parmcb/parmcb_sva_trees.hpp
@@ -143,12 +143,14 @@ namespace parmcb {
                 false>(g, weight_map, out);
     }
 
+#ifdef PARMCB_HAVE_TBB
     template<class Graph, class WeightMap, class CycleOutputIterator>
     typename boost::property_traits<WeightMap>::value_type mcb_sva_fvs_trees_tbb(const Graph &g, WeightMap weight_map,
             CycleOutputIterator out) {
         return _mcb_sva_trees<Graph, WeightMap, CycleOutputIterator, parmcb::detail::FVSCyclesBuilder<Graph, WeightMap>,
                 true>(g, weight_map, out);
     }
+#endif
 
     template<class Graph, class WeightMap, class CycleOutputIterator>
     typename boost::property_traits<WeightMap>::value_type mcb_sva_iso_trees(const Graph &g, WeightMap weight_map,
@@ -157,12 +159,14 @@ namespace parmcb {
                 false>(g, weight_map, out);
     }
 
+#ifdef PARMCB_HAVE_TBB
     template<class Graph, class WeightMap, class CycleOutputIterator>
     typename boost::property_traits<WeightMap>::value_type mcb_sva_iso_trees_tbb(const Graph &g, WeightMap weight_map,
             CycleOutputIterator out) {
         return _mcb_sva_trees<Graph, WeightMap, CycleOutputIterator, parmcb::detail::ISOCyclesBuilder<Graph, WeightMap>,
                 true>(g, weight_map, out);
     }
+#endif
 
 } // namespace parmcb
 
diff --git a/include/parmcb/sptrees.hpp b/include/parmcb/sptrees.hpp
index e01e41c..ba08711 100644
--- a/include/parmcb/sptrees.hpp
+++ b/include/parmcb/sptrees.hpp
@@ -628,6 +628,7 @@ namespace parmcb {
             return min;
         }
 
+#ifdef PARMCB_HAVE_TBB
         template<bool is_tbb_enabled = ParallelUsingTBB>
         std::tuple<std::set<Edge>, WeightType, bool> compute_shortest_odd_cycle(const std::set<Edge> &edges,
                 typename std::enable_if<is_tbb_enabled>::type* = 0) {
@@ -673,6 +674,7 @@ namespace parmcb {
                     },
                     cycle_min);
         }
+#endif
 
         const Graph &g;
         const WeightMap &weight_map;
-- 
2.43.0


From e83977d0b9431aef730bbc599fff9df27a1daf45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:20 +0000
Subject: [PATCH 21/24] verif: read-only accessors to the spanner, guarded by
 PARMCB_VERIF

---
 include/parmcb/detail/approx_spanner.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/parmcb/detail/approx_spanner.hpp b/include/parmcb/detail/approx_spanner.hpp
index cd95c84..3d799d3 100644
--- a/include/parmcb/detail/approx_spanner.hpp
+++ b/include/parmcb/detail/approx_spanner.hpp
@@ -312,6 +312,21 @@ public:
         return _weight;
     }
 
+#ifdef PARMCB_VERIF
+    // read-only access for the verification harness
+    const Graph& verif_spanner() const {
+        return _spanner;
+    }
+
+    const std::map<Edge, Edge>& verif_edge_spanner_to_g() const {
+        return _edge_spanner_to_g;
+    }
+
+    const std::vector<Edge>& verif_non_spanner_edges() const {
+        return _non_spanner_edges;
+    }
+#endif
+
 private:
     // graph
     const Graph &_g;
-- 
2.43.0


From 939181800cebe996f83081258b55b61b07c634f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:47 +0000
Subject: [PATCH 22/24] fix: compare path lengths without rounding errors in
 lex_dijkstra

The lengths of a path accumulated from its two ends differ by rounding when
weights are not exactly summable, hence the shortest path trees were not
mutually consistent and the isometric cycles collection lost needed cycles.
---
 include/parmcb/detail/lex_dijkstra.hpp | 44 ++++++++++++++++++++++----
 1 file changed, 38 insertions(+), 6 deletions(-)

diff --git a/include/parmcb/detail/lex_dijkstra.hpp b/include/parmcb/detail/lex_dijkstra.hpp
index cf05da3..06954b8 100644
--- a/include/parmcb/detail/lex_dijkstra.hpp
+++ b/include/parmcb/detail/lex_dijkstra.hpp
@@ -11,6 +11,7 @@
 #include <limits>
 #include <set>
 #include <tuple>
+#include <type_traits>
 #include <vector>
 #include <iostream>
 
@@ -31,19 +32,42 @@ namespace parmcb {
 
     namespace detail {
 
+        // Sum of two values together with its rounding error, i.e. the length of a path without
+        // rounding. Otherwise, equal paths compare differently depending on the order of summation.
+        template<class DistanceType, bool IsFloatingPoint = std::is_floating_point<DistanceType>::value>
+        struct LexDistanceSum {
+            static void renormalize(DistanceType &sum, DistanceType &error, const DistanceType &a, const DistanceType &b) {
+                const DistanceType b_rounded = sum - a;
+                const DistanceType a_rounded = sum - b_rounded;
+                error += (a - a_rounded) + (b - b_rounded);
+                const DistanceType rounded = sum + error;
+                error = error - (rounded - sum);
+                sum = rounded;
+            }
+        };
+
+        template<class DistanceType>
+        struct LexDistanceSum<DistanceType, false> {
+            static void renormalize(DistanceType&, DistanceType&, const DistanceType&, const DistanceType&) {
+            }
+        };
+
         template<class Graph, class DistanceMap>
         struct LexDistance {
             typedef typename boost::property_traits<DistanceMap>::value_type DistanceType;
 
             LexDistance() :
-                    distance(DistanceType()), edge_count(0), vertex_indices() {
+                    distance(DistanceType()), distance_error(DistanceType()), edge_count(0), vertex_indices() {
             }
 
-            LexDistance(DistanceType distance, std::size_t edge_count, std::set<std::size_t> vertex_indices) :
-                    distance(distance), edge_count(edge_count), vertex_indices(vertex_indices) {
+            LexDistance(DistanceType distance, DistanceType distance_error, std::size_t edge_count,
+                    std::set<std::size_t> vertex_indices) :
+                    distance(distance), distance_error(distance_error), edge_count(edge_count), vertex_indices(
+                            vertex_indices) {
             }
 
             DistanceType distance;
+            DistanceType distance_error;
             std::size_t edge_count;
             std::set<std::size_t> vertex_indices;
         };
@@ -59,6 +83,12 @@ namespace parmcb {
                 if (a.distance > b.distance) {
                     return false;
                 }
+                if (a.distance_error < b.distance_error) {
+                    return true;
+                }
+                if (a.distance_error > b.distance_error) {
+                    return false;
+                }
                 if (a.edge_count < b.edge_count) {
                     return true;
                 }
@@ -113,13 +143,15 @@ namespace parmcb {
                 const auto index_source = index_map[boost::source(e, g)];
 
                 const WeightType e_weight = boost::get(weight_map, e);
-                const WeightType sum = combine(a.distance, e_weight);
+                DistanceType sum = combine(a.distance, e_weight);
+                DistanceType error = a.distance_error;
+                LexDistanceSum<DistanceType>::renormalize(sum, error, a.distance, e_weight);
 
                 std::set<std::size_t> vertex_indices = a.vertex_indices;
                 vertex_indices.insert(index_target);
                 vertex_indices.insert(index_source);
 
-                return LexDistance<Graph, DistanceMap>(sum, a.edge_count + 1, vertex_indices);
+                return LexDistance<Graph, DistanceMap>(sum, error, a.edge_count + 1, vertex_indices);
             }
 
             const DistanceType inf;
@@ -165,7 +197,7 @@ namespace parmcb {
 
         VertexQueue queue(lex_dist_map, index_in_heap_map, compare);
 
-        boost::put(lex_dist_map, s, LexDistanceType(DistanceType(), 0, std::set<std::size_t>({ index_map[s] })));
+        boost::put(lex_dist_map, s, LexDistanceType(DistanceType(), DistanceType(), 0, std::set<std::size_t>({ index_map[s] })));
         boost::put(pred_map, s, std::make_tuple(false, Edge()));
         queue.push(s);
 
-- 
2.43.0


From 4d7b5eecf67aeec1b52e7c3748147ede0c600982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:56 +0000
Subject: [PATCH 23/24] fix: closed_plus saturates instead of overflowing the
 weight type

---
 include/parmcb/detail/util.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/parmcb/detail/util.hpp b/include/parmcb/detail/util.hpp
index 5848bc1..3d0bd08 100644
--- a/include/parmcb/detail/util.hpp
+++ b/include/parmcb/detail/util.hpp
@@ -40,6 +40,9 @@ namespace parmcb {
                     return inf;
                 if (b == inf)
                     return inf;
+                // sums which do not fit are also infinite
+                if (b > T() && a > inf - b)
+                    return inf;
                 return a + b;
             }
         };
-- 
2.43.0


From fa5e44c5c2325a2c3f948c210aed84d80ca9dca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:54 +0000
Subject: [PATCH 24/24] fix: DIMACS reader splits lines longer than its buffer

---
 include/parmcb/util.hpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/include/parmcb/util.hpp b/include/parmcb/util.hpp
index 5b12c89..60d910e 100644
--- a/include/parmcb/util.hpp
+++ b/include/parmcb/util.hpp
@@ -10,6 +10,7 @@
 #include <cerrno>
 #include <cstdio>
 #include <list>
+#include <string>
 #include <system_error>
 #include <cstring>
 #include <vector>
@@ -30,8 +31,6 @@
 #include <tbb/tbb.h>
 #endif
 
-#define BUFFER_SIZE 1024
-
 namespace parmcb {
 
     template<class Graph>
@@ -118,19 +117,27 @@ namespace parmcb {
         typedef typename boost::graph_traits<Graph>::vertex_descriptor vertex_descriptor;
         typedef typename boost::graph_traits<Graph>::edge_descriptor edge_descriptor;
 
-        char buffer[BUFFER_SIZE], problem[BUFFER_SIZE];
+        std::string buffer;
 
         std::size_t nnodes = 0, nedges = 0;
         std::map<std::size_t, vertex_descriptor> vertex_map;
 
         typename boost::property_map<Graph, boost::edge_weight_t>::type weight = get(boost::edge_weight, graph);
 
-        while (fgets(buffer, sizeof(buffer), fp) != NULL) {
-            buffer[strcspn(buffer, "\n")] = '\0'; // eat the newline, if any
+        // read line by line, lines may have any length
+        while (true) {
+            buffer.clear();
+            int ch;
+            while ((ch = fgetc(fp)) != EOF && ch != '\n') {
+                buffer.push_back(static_cast<char>(ch));
+            }
+            if (ch == EOF && buffer.empty()) {
+                break;
+            }
             if (buffer[0] == 'c' || buffer[0] == '#') {
                 continue;
             } else if (buffer[0] == 'p') {
-                sscanf(buffer, "p %s %lu %lu", problem, &nnodes, &nedges);
+                sscanf(buffer.c_str(), "p %*s %lu %lu", &nnodes, &nedges);
                 for (std::size_t i = 1; i <= nnodes; i++) {
                     vertex_map[i] = boost::add_vertex(graph);
                 }
@@ -138,7 +145,7 @@ namespace parmcb {
                 std::size_t rs = 0, rt = 0;
                 double rw = 1;
                 char fc;
-                sscanf(buffer, "%c %lu %lu %lf", &fc, &rs, &rt, &rw);
+                sscanf(buffer.c_str(), "%c %lu %lu %lf", &fc, &rs, &rt, &rw);
 
                 if (vertex_map.find(rs) == vertex_map.end()) {
                     throw std::system_error(EIO, std::generic_category(), "Vertex not found");
-- 
2.43.0

