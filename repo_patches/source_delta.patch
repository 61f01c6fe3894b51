From 6ea0ffc08c9d54de47a1e90c138fa02f9cf12ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:06 +0000
Subject: [PATCH 001/133] fix: invalidate all compute tables that refer to
 collected nodes

---
 src/dd/Package.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dd/Package.cpp b/src/dd/Package.cpp
index 6b3f0e2..d58680b 100644
--- a/src/dd/Package.cpp
+++ b/src/dd/Package.cpp
@@ -115,6 +115,8 @@ bool Package::garbageCollect(bool force) {
   // been collected
   if (vCollect > 0) {
     vectorAdd.clear();
+    vectorAddMagnitudes.clear();
+    conjugateVector.clear();
     vectorInnerProduct.clear();
     vectorKronecker.clear();
     matrixVectorMultiplication.clear();
@@ -123,6 +125,7 @@ bool Package::garbageCollect(bool force) {
   // been collected
   if (mCollect > 0) {
     matrixAdd.clear();
+    matrixAddMagnitudes.clear();
     conjugateMatrixTranspose.clear();
     matrixKronecker.clear();
     matrixTrace.clear();
-- 
2.43.0


From 4a0dddf920f3b2beafc71e8beaf7ab7bc48946a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:24 +0000
Subject: [PATCH 002/133] fix: hand out zero-initialized entries after a memory
 manager reset

---
 src/dd/MemoryManager.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dd/MemoryManager.cpp b/src/dd/MemoryManager.cpp
index fc05b2e..2d67148 100644
--- a/src/dd/MemoryManager.cpp
+++ b/src/dd/MemoryManager.cpp
@@ -12,6 +12,7 @@
 
 #include "dd/LinkedListBase.hpp"
 
+#include <algorithm>
 #include <cassert>
 #include <cstddef>
 
@@ -54,6 +55,8 @@ void MemoryManager::reset(const bool resizeToTotal) noexcept {
     chunks[0].resize(stats.numAllocated * entrySize_);
     ++numAllocations;
   }
+  // entries are handed out assuming zero-initialized memory
+  std::fill(chunks[0].begin(), chunks[0].end(), std::byte{0});
 
   chunkIt = chunks[0].begin();
   chunkEndIt = chunks[0].end();
-- 
2.43.0


From 7cfb940219dfc991464bbfaa9cfacadbcbb14ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:24 +0000
Subject: [PATCH 003/133] fix: keep the configured size when clearing a unary
 compute table

---
 include/mqt-core/dd/UnaryComputeTable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mqt-core/dd/UnaryComputeTable.hpp b/include/mqt-core/dd/UnaryComputeTable.hpp
index f3e684d..a44c25f 100644
--- a/include/mqt-core/dd/UnaryComputeTable.hpp
+++ b/include/mqt-core/dd/UnaryComputeTable.hpp
@@ -106,7 +106,7 @@ public:
    * @brief Clear the compute table
    * @details Sets all entries to invalid.
    */
-  void clear() { valid = std::vector(NBUCKET, false); }
+  void clear() { valid.assign(valid.size(), false); }
 
 private:
   /// The actual table storing the entries
-- 
2.43.0


From 06513a2bb2a8c0ae2ca2a232268a9215074a6ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:24 +0000
Subject: [PATCH 004/133] fix: respect the number of lower qubits in Kronecker
 products and their cache

---
 include/mqt-core/dd/Package.hpp | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/include/mqt-core/dd/Package.hpp b/include/mqt-core/dd/Package.hpp
index 516c035..cf884ee 100644
--- a/include/mqt-core/dd/Package.hpp
+++ b/include/mqt-core/dd/Package.hpp
@@ -1457,9 +1457,17 @@ private:
       }
     }
 
+    // the qubits of `y` lie below the (shifted) qubits of `x`
+    Qubit idx = x.p->v;
+    if (incIdx) {
+      idx += static_cast<Qubit>(yNumQubits);
+    }
+
     // check if we already computed the product before and return the result
+    // (a result for a different shift of the qubit indices is of no use)
     auto& computeTable = getKroneckerComputeTable<Node>();
-    if (const auto* r = computeTable.lookup(x.p, y.p); r != nullptr) {
+    if (const auto* r = computeTable.lookup(x.p, y.p);
+        r != nullptr && !Node::isTerminal(r->p) && r->p->v == idx) {
       return {r->p, rWeight};
     }
 
@@ -1469,21 +1477,6 @@ private:
       edge[i] = kronecker2(x.p->e[i], y, yNumQubits, incIdx);
     }
 
-    // Increase the qubit index
-    Qubit idx = x.p->v;
-    if (incIdx) {
-      // use the given number of qubits if y is an identity
-      if constexpr (std::is_same_v<Node, mNode> ||
-                    std::is_same_v<Node, dNode>) {
-        if (y.isIdentity()) {
-          idx += static_cast<Qubit>(yNumQubits);
-        } else {
-          idx += static_cast<Qubit>(y.p->v + 1U);
-        }
-      } else {
-        idx += static_cast<Qubit>(y.p->v + 1U);
-      }
-    }
     auto e = makeDDNode(idx, edge, true);
     computeTable.insert(x.p, y.p, {e.p, e.w});
     return {e.p, rWeight};
-- 
2.43.0


From 3f16c8d3010c3531c0c17c167d84d75fbb1bca24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:19 +0000
Subject: [PATCH 005/133] fix: account for skipped identity levels in (partial)
 traces

---
 include/mqt-core/dd/Package.hpp | 61 +++++++++++++++++----------------
 1 file changed, 32 insertions(+), 29 deletions(-)

diff --git a/include/mqt-core/dd/Package.hpp b/include/mqt-core/dd/Package.hpp
index cf884ee..5ba64fb 100644
--- a/include/mqt-core/dd/Package.hpp
+++ b/include/mqt-core/dd/Package.hpp
@@ -1525,9 +1525,6 @@ public:
    */
   template <class Node>
   ComplexValue trace(const Edge<Node>& a, const std::size_t numQubits) {
-    if (a.isIdentity()) {
-      return static_cast<ComplexValue>(a.w);
-    }
     const auto eliminate = std::vector<bool>(numQubits, true);
     return trace(a, eliminate, numQubits).w;
   }
@@ -1553,7 +1550,9 @@ private:
   /**
    * @brief Computes the normalized (partial) trace using a compute table to
    * store results for eliminated nodes.
-   * @details At each level, perform a lookup and store results in the compute
+   * @details `level` denotes the number of qubits that `a` acts on, i.e., all
+   * qubits below `level` that do not appear in `a` are identities.
+   * At each level, perform a lookup and store results in the compute
    * table only if all lower-level qubits are eliminated as well.
    *
    * This optimization allows the full trace
@@ -1570,20 +1569,34 @@ private:
    */
   template <class Node>
   CachedEdge<Node> trace(const Edge<Node>& a,
-                         const std::vector<bool>& eliminate, std::size_t level,
-                         std::size_t alreadyEliminated = 0) {
-    const auto aWeight = static_cast<ComplexValue>(a.w);
+                         const std::vector<bool>& eliminate,
+                         const std::size_t level) {
+    auto aWeight = static_cast<ComplexValue>(a.w);
     if (aWeight.approximatelyZero()) {
       return CachedEdge<Node>::zero();
     }
 
+    using Diff = std::vector<bool>::difference_type;
+    const auto numLower =
+        a.isTerminal() ? 0U : static_cast<std::size_t>(a.p->v) + 1U;
+
+    // Every eliminated qubit that is skipped in `a` contributes the trace of
+    // an identity. For matrix nodes, this is normalized to one.
+    if constexpr (std::is_same_v<Node, dNode>) {
+      const auto skipped =
+          std::count(eliminate.begin() + static_cast<Diff>(numLower),
+                     eliminate.begin() + static_cast<Diff>(level), true);
+      for (auto i = 0; i < skipped; ++i) {
+        aWeight = aWeight * 2.0;
+      }
+    }
+
     // If `a` is the identity matrix or there is nothing left to eliminate,
     // then simply return `a`
-    if (a.isIdentity() ||
-        std::none_of(eliminate.begin(),
-                     eliminate.begin() +
-                         static_cast<std::vector<bool>::difference_type>(level),
-                     [](bool v) { return v; })) {
+    const auto numEliminate = std::count(
+        eliminate.begin(), eliminate.begin() + static_cast<Diff>(numLower),
+        true);
+    if (a.isIdentity() || numEliminate == 0) {
       return CachedEdge<Node>{a.p, aWeight};
     }
 
@@ -1592,11 +1605,8 @@ private:
       // Lookup nodes marked for elimination in the compute table if all
       // lower-level qubits are eliminated as well: if the trace has already
       // been computed, return the result
-      const auto eliminateAll = std::all_of(
-          eliminate.begin(),
-          eliminate.begin() +
-              static_cast<std::vector<bool>::difference_type>(level),
-          [](bool e) { return e; });
+      const auto eliminateAll =
+          static_cast<std::size_t>(numEliminate) == numLower;
       if (eliminateAll) {
         if (const auto* r = getTraceComputeTable<Node>().lookup(a.p);
             r != nullptr) {
@@ -1604,9 +1614,8 @@ private:
         }
       }
 
-      const auto elims = alreadyEliminated + 1;
-      auto r = add2(trace(a.p->e[0], eliminate, level - 1, elims),
-                    trace(a.p->e[3], eliminate, level - 1, elims), v - 1);
+      auto r = add2(trace(a.p->e[0], eliminate, v),
+                    trace(a.p->e[3], eliminate, v), v - 1);
 
       // The resulting weight is continuously normalized to the range [0,1] for
       // matrix nodes
@@ -1625,15 +1634,9 @@ private:
 
     std::array<CachedEdge<Node>, NEDGE> edge{};
     std::transform(a.p->e.cbegin(), a.p->e.cend(), edge.begin(),
-                   [this, &eliminate, &alreadyEliminated,
-                    &level](const Edge<Node>& e) -> CachedEdge<Node> {
-                     return trace(e, eliminate, level - 1, alreadyEliminated);
-                   });
-    const auto adjustedV =
-        static_cast<Qubit>(static_cast<std::size_t>(a.p->v) -
-                           (static_cast<std::size_t>(std::count(
-                                eliminate.begin(), eliminate.end(), true)) -
-                            alreadyEliminated));
+                   [this, &eliminate, v](const Edge<Node>& e)
+                       -> CachedEdge<Node> { return trace(e, eliminate, v); });
+    const auto adjustedV = static_cast<Qubit>(v - numEliminate);
     auto r = makeDDNode(adjustedV, edge);
     r.w = r.w * aWeight;
     return r;
-- 
2.43.0


From 4c71be327970c564c7dbf5880c5ff3290098381b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:19 +0000
Subject: [PATCH 006/133] fix: release the operand when reducing ancillary or
 garbage qubits of an identity

---
 src/dd/Package.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dd/Package.cpp b/src/dd/Package.cpp
index d58680b..473d4a5 100644
--- a/src/dd/Package.cpp
+++ b/src/dd/Package.cpp
@@ -1145,6 +1145,7 @@ mEdge Package::reduceAncillae(mEdge e, const std::vector<bool>& ancillary,
       }
     }
     incRef(g);
+    decRef(e);
     return g;
   }
 
@@ -1226,6 +1227,7 @@ mEdge Package::reduceGarbage(const mEdge& e, const std::vector<bool>& garbage,
       }
     }
     incRef(g);
+    decRef(e);
     return g;
   }
 
-- 
2.43.0


From 8013b90687b8737c8fbb3b184d6b54645f3271b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:41 +0000
Subject: [PATCH 007/133] fix: transfer every node of a decision diagram
 exactly once

---
 include/mqt-core/dd/Package.hpp | 95 ++++++++-------------------------
 1 file changed, 22 insertions(+), 73 deletions(-)

diff --git a/include/mqt-core/dd/Package.hpp b/include/mqt-core/dd/Package.hpp
index 5ba64fb..619188f 100644
--- a/include/mqt-core/dd/Package.hpp
+++ b/include/mqt-core/dd/Package.hpp
@@ -42,7 +42,6 @@
 #include <limits>
 #include <random>
 #include <regex>
-#include <stack>
 #include <stdexcept>
 #include <string>
 #include <type_traits>
@@ -1775,83 +1774,33 @@ private:
 public:
   /// transfers a decision diagram from another package to this package
   template <class Node> Edge<Node> transfer(Edge<Node>& original) {
-    if (original.isTerminal()) {
-      return {original.p, cn.lookup(original.w)};
-    }
-
-    // POST ORDER TRAVERSAL USING ONE STACK
-    // https://www.geeksforgeeks.org/iterative-postorder-traversal-using-stack/
-    Edge<Node> root{};
-    std::stack<Edge<Node>*> stack;
-
-    std::unordered_map<decltype(original.p), decltype(original.p)> mappedNode{};
-
-    Edge<Node>* currentEdge = &original;
-    constexpr std::size_t n = std::tuple_size_v<decltype(original.p->e)>;
-    // NOLINTNEXTLINE(cppcoreguidelines-avoid-do-while)
-    do {
-      while (currentEdge != nullptr && !currentEdge->isTerminal()) {
-        for (std::size_t i = n - 1; i > 0; --i) {
-          auto& edge = currentEdge->p->e[i];
-          if (edge.isTerminal()) {
-            continue;
-          }
-          if (edge.w.approximatelyZero()) {
-            continue;
-          }
-          if (mappedNode.find(edge.p) != mappedNode.end()) {
-            continue;
-          }
-
-          // non-zero edge to be included
-          stack.push(&edge);
-        }
-        stack.push(currentEdge);
-        currentEdge = &currentEdge->p->e[0];
-      }
-      currentEdge = stack.top();
-      stack.pop();
+    std::unordered_map<Node*, CachedEdge<Node>> transferred{};
+    return cn.lookup(transferRecursion(original, transferred));
+  }
 
-      bool hasChild = false;
-      for (std::size_t i = 1; i < n && !hasChild; ++i) {
-        auto& edge = currentEdge->p->e[i];
-        if (edge.w.approximatelyZero()) {
-          continue;
-        }
-        if (mappedNode.find(edge.p) != mappedNode.end()) {
-          continue;
-        }
-        hasChild = edge.p == stack.top()->p;
-      }
+private:
+  template <class Node>
+  CachedEdge<Node> transferRecursion(
+      const Edge<Node>& e,
+      std::unordered_map<Node*, CachedEdge<Node>>& transferred) {
+    const auto weight = static_cast<ComplexValue>(e.w);
+    if (e.isTerminal()) {
+      return {e.p, weight};
+    }
 
-      if (hasChild) {
-        Edge<Node>* temp = stack.top();
-        stack.pop();
-        stack.push(currentEdge);
-        currentEdge = temp;
-      } else {
-        if (mappedNode.find(currentEdge->p) != mappedNode.end()) {
-          currentEdge = nullptr;
-          continue;
-        }
-        std::array<Edge<Node>, n> edges{};
-        for (std::size_t i = 0; i < n; i++) {
-          if (currentEdge->p->e[i].isTerminal()) {
-            edges[i].p = currentEdge->p->e[i].p;
-          } else {
-            edges[i].p = mappedNode[currentEdge->p->e[i].p];
-          }
-          edges[i].w = cn.lookup(currentEdge->p->e[i].w);
-        }
-        root = makeDDNode(currentEdge->p->v, edges);
-        mappedNode[currentEdge->p] = root.p;
-        currentEdge = nullptr;
+    auto it = transferred.find(e.p);
+    if (it == transferred.end()) {
+      std::array<CachedEdge<Node>, std::tuple_size_v<decltype(e.p->e)>> edges{};
+      for (std::size_t i = 0; i < edges.size(); ++i) {
+        edges[i] = transferRecursion(e.p->e[i], transferred);
       }
-    } while (!stack.empty());
-    root.w = cn.lookup(original.w * root.w);
-    return root;
+      it = transferred.emplace(e.p, makeDDNode(e.p->v, edges)).first;
+    }
+    return {it->second.p, it->second.w * weight};
   }
 
+public:
+
   ///
   /// Deserialization
   /// Note: do not rely on the binary format being portable across different
-- 
2.43.0


From 34ed9465727738f853206534eb8d057f4dc71c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:18 +0000
Subject: [PATCH 008/133] fix: read off-diagonal elements of identity decision
 diagrams as zero

---
 src/dd/Edge.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/dd/Edge.cpp b/src/dd/Edge.cpp
index 89ae1be..655378a 100644
--- a/src/dd/Edge.cpp
+++ b/src/dd/Edge.cpp
@@ -43,8 +43,10 @@ auto Edge<Node>::getValueByPath(const std::size_t numQubits,
                                 const std::string& decisions) const
     -> std::complex<fp> {
   auto c = static_cast<std::complex<fp>>(w);
-  if (isTerminal()) {
-    return c;
+  if constexpr (std::is_same_v<Node, vNode>) {
+    if (isTerminal()) {
+      return c;
+    }
   }
 
   auto r = *this;
@@ -356,10 +358,6 @@ template <typename T, isMatrixVariant<T>>
 auto Edge<Node>::getValueByIndex(const std::size_t numQubits,
                                  const std::size_t i, const std::size_t j) const
     -> std::complex<fp> {
-  if (isTerminal()) {
-    return static_cast<std::complex<fp>>(w);
-  }
-
   auto decisions = std::string(numQubits, '0');
   for (auto k = 0U; k < numQubits; ++k) {
     if ((i & (1ULL << k)) != 0U) {
-- 
2.43.0


From df4a23f5e8e73bb23fdebd457814aa0553adbc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:05 +0000
Subject: [PATCH 009/133] fix: return the zero matrix for a vanishing partial
 trace

---
 src/dd/Package.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dd/Package.cpp b/src/dd/Package.cpp
index 473d4a5..1ae6d45 100644
--- a/src/dd/Package.cpp
+++ b/src/dd/Package.cpp
@@ -1040,7 +1040,7 @@ fp Package::expectationValue(const mEdge& x, const vEdge& y) {
 mEdge Package::partialTrace(const mEdge& a,
                             const std::vector<bool>& eliminate) {
   auto r = trace(a, eliminate, eliminate.size());
-  return {r.p, cn.lookup(r.w)};
+  return cn.lookup(r);
 }
 bool Package::isCloseToIdentity(const mEdge& m, const fp tol,
                                 const std::vector<bool>& garbage,
-- 
2.43.0


From fd1910f090ab6c6ae40d87206eee306f5ef0bb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:05 +0000
Subject: [PATCH 010/133] fix: keep the package usable if memory runs out while
 resizing it

---
 src/dd/Package.cpp     | 8 ++++----
 src/dd/UniqueTable.cpp | 6 ++++--
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/dd/Package.cpp b/src/dd/Package.cpp
index 1ae6d45..082c0f5 100644
--- a/src/dd/Package.cpp
+++ b/src/dd/Package.cpp
@@ -65,11 +65,11 @@ void Package::resize(const std::size_t nq) {
                                 " were requested. Please recompile the "
                                 "package with a wider Qubit type!");
   }
+  vUniqueTable.resize(nq);
+  mUniqueTable.resize(nq);
+  dUniqueTable.resize(nq);
+  stochasticNoiseOperationCache.resize(nq);
   nqubits = nq;
-  vUniqueTable.resize(nqubits);
-  mUniqueTable.resize(nqubits);
-  dUniqueTable.resize(nqubits);
-  stochasticNoiseOperationCache.resize(nqubits);
 }
 
 void Package::reset() {
diff --git a/src/dd/UniqueTable.cpp b/src/dd/UniqueTable.cpp
index a6d1f64..f698dfa 100644
--- a/src/dd/UniqueTable.cpp
+++ b/src/dd/UniqueTable.cpp
@@ -32,11 +32,13 @@ UniqueTable::UniqueTable(MemoryManager& manager,
 }
 
 void UniqueTable::resize(const std::size_t nVars) {
-  cfg.nVars = nVars;
+  // Statistics come first so that, if memory runs out, there is never a table
+  // without corresponding statistics.
+  stats.resize(nVars);
   tables.resize(nVars, Table(cfg.nBuckets));
+  cfg.nVars = nVars;
   // TODO: if the new size is smaller than the old one we might have to
   // release the unique table entries for the superfluous variables
-  stats.resize(nVars);
   for (auto& stat : stats) {
     stat.entrySize = sizeof(Bucket);
     stat.numBuckets = cfg.nBuckets;
-- 
2.43.0


From 730acf6856d030711e4aba105115457b7eb4ddde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:05 +0000
Subject: [PATCH 011/133] fix: normalize weights of zero and identity diagrams
 when reducing garbage qubits

---
 src/dd/Package.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/dd/Package.cpp b/src/dd/Package.cpp
index 082c0f5..761e8e3 100644
--- a/src/dd/Package.cpp
+++ b/src/dd/Package.cpp
@@ -1177,9 +1177,11 @@ mEdge Package::reduceAncillae(mEdge e, const std::vector<bool>& ancillary,
 vEdge Package::reduceGarbage(vEdge& e, const std::vector<bool>& garbage,
                              const bool normalizeWeights) {
   // return if no more garbage left
-  if (!normalizeWeights &&
-      (std::none_of(garbage.begin(), garbage.end(), [](bool v) { return v; }) ||
-       e.isTerminal())) {
+  if (e.isZeroTerminal() ||
+      (!normalizeWeights &&
+       (std::none_of(garbage.begin(), garbage.end(),
+                     [](bool v) { return v; }) ||
+        e.isTerminal()))) {
     return e;
   }
   Qubit lowerbound = 0;
@@ -1206,15 +1208,18 @@ vEdge Package::reduceGarbage(vEdge& e, const std::vector<bool>& garbage,
 mEdge Package::reduceGarbage(const mEdge& e, const std::vector<bool>& garbage,
                              const bool regular, const bool normalizeWeights) {
   // return if no more garbage left
-  if (!normalizeWeights &&
-      (std::none_of(garbage.begin(), garbage.end(), [](bool v) { return v; }) ||
-       e.isZeroTerminal())) {
+  if (e.isZeroTerminal() ||
+      (!normalizeWeights && std::none_of(garbage.begin(), garbage.end(),
+                                         [](bool v) { return v; }))) {
     return e;
   }
 
   // if we have only identities and no other nodes
   if (e.isIdentity()) {
     auto g = e;
+    if (normalizeWeights) {
+      g.w = cn.lookup(ComplexNumbers::mag(e.w));
+    }
     for (auto i = 0U; i < garbage.size(); ++i) {
       if (garbage[i]) {
         if (regular) {
-- 
2.43.0


From 461a50900c039fd83e263100ba1c94e7ef7414d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:55 +0000
Subject: [PATCH 012/133] fix: do not allocate memory when clearing compute
 tables

---
 include/mqt-core/dd/ComputeTable.hpp      | 2 +-
 include/mqt-core/dd/DensityNoiseTable.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mqt-core/dd/ComputeTable.hpp b/include/mqt-core/dd/ComputeTable.hpp
index 50ec59e..b9d9467 100644
--- a/include/mqt-core/dd/ComputeTable.hpp
+++ b/include/mqt-core/dd/ComputeTable.hpp
@@ -158,7 +158,7 @@ public:
    * @brief Clear the compute table
    * @details Sets all entries to invalid.
    */
-  void clear() { valid = std::vector(stats.numBuckets, false); }
+  void clear() { valid.assign(valid.size(), false); }
 
   /**
    * @brief Print the statistics of the compute table
diff --git a/include/mqt-core/dd/DensityNoiseTable.hpp b/include/mqt-core/dd/DensityNoiseTable.hpp
index 2f9a957..dd26e8d 100644
--- a/include/mqt-core/dd/DensityNoiseTable.hpp
+++ b/include/mqt-core/dd/DensityNoiseTable.hpp
@@ -104,7 +104,7 @@ public:
     return entry.result;
   }
 
-  void clear() { valid = std::vector(stats.numBuckets, false); }
+  void clear() { valid.assign(valid.size(), false); }
 
 private:
   std::vector<Entry> table;
-- 
2.43.0


From 0ba74b76860d4c969bb12026dce11e6f5f2d549c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:26 +0000
Subject: [PATCH 013/133] fix: report truncated decision diagram files and
 failed writes

---
 include/mqt-core/dd/Export.hpp  |  5 ++++
 include/mqt-core/dd/Package.hpp | 46 ++++++++++++++++++++++++++-------
 2 files changed, 41 insertions(+), 10 deletions(-)

diff --git a/include/mqt-core/dd/Export.hpp b/include/mqt-core/dd/Export.hpp
index fbc1c35..a5705cf 100644
--- a/include/mqt-core/dd/Export.hpp
+++ b/include/mqt-core/dd/Export.hpp
@@ -379,6 +379,11 @@ static void serialize(const Edge<Node>& basic,
   }
 
   serialize(basic, ofs, writeBinary);
+
+  ofs.close();
+  if (!ofs.good()) {
+    throw std::runtime_error("Could not write file: " + outputFilename);
+  }
 }
 
 template <typename Node>
diff --git a/include/mqt-core/dd/Package.hpp b/include/mqt-core/dd/Package.hpp
index 619188f..c9a2991 100644
--- a/include/mqt-core/dd/Package.hpp
+++ b/include/mqt-core/dd/Package.hpp
@@ -1810,7 +1810,8 @@ public:
   template <class Node, class Edge = Edge<Node>,
             std::size_t N = std::tuple_size_v<decltype(Node::e)>>
   Edge deserialize(std::istream& is, const bool readBinary = false) {
-    auto result = CachedEdge<Node>{};
+    // without any node, the decision diagram consists of just the root weight
+    auto result = CachedEdge<Node>::one();
     ComplexValue rootweight{};
 
     std::unordered_map<std::int64_t, Node*> nodes{};
@@ -1824,6 +1825,7 @@ public:
       std::remove_const_t<decltype(SERIALIZATION_VERSION)> version{};
       is.read(reinterpret_cast<char*>(&version),
               sizeof(decltype(SERIALIZATION_VERSION)));
+      checkRead(is);
       if (version != SERIALIZATION_VERSION) {
         throw std::runtime_error(
             "Wrong Version of serialization file version. version of file: " +
@@ -1831,9 +1833,8 @@ public:
             "; current version: " + std::to_string(SERIALIZATION_VERSION));
       }
 
-      if (!is.eof()) {
-        rootweight.readBinary(is);
-      }
+      rootweight.readBinary(is);
+      checkRead(is);
 
       while (is.read(reinterpret_cast<char*>(&nodeIndex),
                      sizeof(decltype(nodeIndex)))) {
@@ -1843,11 +1844,16 @@ public:
                   sizeof(decltype(edgeIndices[i])));
           edgeWeights[i].readBinary(is);
         }
+        checkRead(is);
         result = deserializeNode(nodeIndex, v, edgeIndices, edgeWeights, nodes);
       }
+      if (is.bad() || is.gcount() != 0) {
+        throw std::runtime_error("Incomplete serialized decision diagram.");
+      }
     } else {
       std::string version;
       std::getline(is, version);
+      checkRead(is);
       if (std::stoi(version) != SERIALIZATION_VERSION) {
         throw std::runtime_error(
             "Wrong Version of serialization file version. version of file: " +
@@ -1872,12 +1878,14 @@ public:
       std::smatch m;
 
       std::string line;
-      if (std::getline(is, line)) {
-        if (!std::regex_match(line, m, complexWeightRegex)) {
-          throw std::runtime_error("Regex did not match second line: " + line);
-        }
-        rootweight.fromString(m.str(1), m.str(2));
+      std::getline(is, line);
+      checkRead(is);
+      if (line.empty() || !std::regex_match(line, m, complexWeightRegex)) {
+        throw std::runtime_error("Regex did not match second line: " + line);
       }
+      rootweight.fromString(m.str(1), m.str(2));
+      // only a terminated line is known to contain the complete weight
+      const auto rootWeightComplete = !is.eof();
 
       while (std::getline(is, line)) {
         if (line.empty() || line.size() == 1) {
@@ -1911,6 +1919,9 @@ public:
 
         result = deserializeNode(nodeIndex, v, edgeIndices, edgeWeights, nodes);
       }
+      if (is.bad() || !rootWeightComplete) {
+        throw std::runtime_error("Incomplete serialized decision diagram.");
+      }
     }
     return {result.p, cn.lookup(result.w * rootweight)};
   }
@@ -1928,6 +1939,12 @@ public:
   }
 
 private:
+  static void checkRead(const std::istream& is) {
+    if (is.fail()) {
+      throw std::runtime_error("Incomplete serialized decision diagram.");
+    }
+  }
+
   template <class Node, std::size_t N = std::tuple_size_v<decltype(Node::e)>>
   CachedEdge<Node>
   deserializeNode(const std::int64_t index, const Qubit v,
@@ -1937,6 +1954,10 @@ private:
     if (index == -1) {
       return CachedEdge<Node>::zero();
     }
+    if (v >= nqubits) {
+      throw std::runtime_error("Serialized node on qubit " + std::to_string(v) +
+                               " exceeds the range of the package.");
+    }
 
     std::array<CachedEdge<Node>, N> edges{};
     for (auto i = 0U; i < N; ++i) {
@@ -1946,7 +1967,12 @@ private:
         if (edgeIdx[i] == -1) {
           edges[i] = CachedEdge<Node>::one();
         } else {
-          edges[i].p = nodes[edgeIdx[i]];
+          const auto it = nodes.find(edgeIdx[i]);
+          if (it == nodes.end()) {
+            throw std::runtime_error("Serialized node refers to unknown node " +
+                                     std::to_string(edgeIdx[i]));
+          }
+          edges[i].p = it->second;
         }
         edges[i].w = edgeWeight[i];
       }
-- 
2.43.0


From 33312298c51ffe1d72985a5c8cb2638b2d53b98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:08 +0000
Subject: [PATCH 014/133] fix: report failed reads and writes of OpenQASM files

---
 src/ir/QuantumComputation.cpp | 4 ++++
 src/qasm3/Scanner.cpp         | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index b657de1..8c7b4c0 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -740,6 +740,10 @@ void QuantumComputation::dump(const std::string& filename,
   } else {
     dumpOpenQASM(of, false);
   }
+  of.close();
+  if (!of.good()) {
+    throw std::runtime_error("[dump] Error writing file: " + filename);
+  }
 }
 
 bool QuantumComputation::isIdleQubit(const Qubit physicalQubit) const {
diff --git a/src/qasm3/Scanner.cpp b/src/qasm3/Scanner.cpp
index 3aa87f8..6668dc1 100644
--- a/src/qasm3/Scanner.cpp
+++ b/src/qasm3/Scanner.cpp
@@ -30,6 +30,10 @@ namespace qasm3 {
 char Scanner::readUtf8Codepoint(std::istream* in) {
   char c = 0;
   in->get(c);
+  if (in->bad()) {
+    // do not mistake a failing read for the end of the input
+    throw std::runtime_error("Failed to read the OpenQASM input.");
+  }
   return c;
 }
 
-- 
2.43.0


From e8f4d0f40ebee9dc3b896660e96978335774b9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:24 +0000
Subject: [PATCH 015/133] fix: never return truncated numbers from
 ComplexValue::toString

---
 src/dd/ComplexValue.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dd/ComplexValue.cpp b/src/dd/ComplexValue.cpp
index bfc9668..8ba5b75 100644
--- a/src/dd/ComplexValue.cpp
+++ b/src/dd/ComplexValue.cpp
@@ -184,6 +184,8 @@ void ComplexValue::printFormatted(std::ostream& os, fp num, bool imaginary) {
 std::string ComplexValue::toString(const fp& real, const fp& imag,
                                    bool formatted, int precision) {
   std::ostringstream ss{};
+  // do not return a truncated number if the stream runs out of memory
+  ss.exceptions(std::ios_base::badbit);
 
   if (precision >= 0) {
     ss << std::setprecision(precision);
-- 
2.43.0


From d54f03d3c4df8969a7447f2814aae73ec77b3acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:23 +0000
Subject: [PATCH 016/133] fix: keep the comparison kind when copying
 classically controlled operations

---
 src/ir/operations/ClassicControlledOperation.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ir/operations/ClassicControlledOperation.cpp b/src/ir/operations/ClassicControlledOperation.cpp
index 29aa9b2..33b2499 100644
--- a/src/ir/operations/ClassicControlledOperation.cpp
+++ b/src/ir/operations/ClassicControlledOperation.cpp
@@ -90,7 +90,8 @@ ClassicControlledOperation::ClassicControlledOperation(
 ClassicControlledOperation::ClassicControlledOperation(
     const ClassicControlledOperation& ccop)
     : Operation(ccop), controlRegister(ccop.controlRegister),
-      controlBit(ccop.controlBit), expectedValue(ccop.expectedValue) {
+      controlBit(ccop.controlBit), expectedValue(ccop.expectedValue),
+      comparisonKind(ccop.comparisonKind) {
   op = ccop.op->clone();
 }
 ClassicControlledOperation&
@@ -100,6 +101,7 @@ ClassicControlledOperation::operator=(const ClassicControlledOperation& ccop) {
     controlRegister = ccop.controlRegister;
     controlBit = ccop.controlBit;
     expectedValue = ccop.expectedValue;
+    comparisonKind = ccop.comparisonKind;
     op = ccop.op->clone();
   }
   return *this;
-- 
2.43.0


From 71326ca42d1bb158221505c15f23e57484a60f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:04 +0000
Subject: [PATCH 017/133] fix: treat short circuits like any other when
 building their functionality recursively

---
 src/dd/FunctionalityConstruction.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/dd/FunctionalityConstruction.cpp b/src/dd/FunctionalityConstruction.cpp
index 0b6e32c..2590fcb 100644
--- a/src/dd/FunctionalityConstruction.cpp
+++ b/src/dd/FunctionalityConstruction.cpp
@@ -15,6 +15,7 @@
 #include "ir/QuantumComputation.hpp"
 #include "ir/operations/OpType.hpp"
 
+#include <algorithm>
 #include <cmath>
 #include <cstddef>
 #include <stack>
@@ -121,18 +122,18 @@ MatrixDD buildFunctionalityRecursive(const qc::QuantumComputation& qc,
 
   auto permutation = qc.initialLayout;
 
-  if (qc.size() == 1U) {
-    auto e = getDD(*qc.front(), dd, permutation);
+  auto e = Package::makeIdent();
+  if (qc.empty()) {
     dd.incRef(e);
-    return e;
+  } else {
+    std::stack<MatrixDD> s{};
+    const auto depth = std::max<std::size_t>(
+        static_cast<std::size_t>(std::ceil(std::log2(qc.size()))), 1U);
+    buildFunctionalityRecursive(qc, depth, 0, s, permutation, dd);
+    e = s.top();
+    s.pop();
   }
 
-  std::stack<MatrixDD> s{};
-  auto depth = static_cast<std::size_t>(std::ceil(std::log2(qc.size())));
-  buildFunctionalityRecursive(qc, depth, 0, s, permutation, dd);
-  auto e = s.top();
-  s.pop();
-
   // correct permutation if necessary
   changePermutation(e, permutation, qc.outputPermutation, dd);
   e = dd.reduceAncillae(e, qc.getAncillary());
-- 
2.43.0


From c2f0084ee543e6519e9534bcacb3c55e35adf8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:33 +0000
Subject: [PATCH 018/133] fix: include the global phase of a circuit in its
 functionality

---
 src/dd/FunctionalityConstruction.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/dd/FunctionalityConstruction.cpp b/src/dd/FunctionalityConstruction.cpp
index 2590fcb..370e77b 100644
--- a/src/dd/FunctionalityConstruction.cpp
+++ b/src/dd/FunctionalityConstruction.cpp
@@ -10,6 +10,7 @@
 
 #include "dd/FunctionalityConstruction.hpp"
 
+#include "dd/ComplexValue.hpp"
 #include "dd/Operations.hpp"
 #include "dd/Package.hpp"
 #include "ir/QuantumComputation.hpp"
@@ -17,11 +18,26 @@
 
 #include <algorithm>
 #include <cmath>
+#include <complex>
 #include <cstddef>
 #include <stack>
 #include <utility>
 
 namespace dd {
+namespace {
+/// Properly account for the global phase of the circuit
+void applyGlobalPhase(const qc::QuantumComputation& qc, MatrixDD& e,
+                      Package& dd) {
+  if (std::abs(qc.getGlobalPhase()) > 0) {
+    const auto oldW = e.w;
+    e.w = dd.cn.lookup(e.w *
+                       ComplexValue{std::polar(1.0, qc.getGlobalPhase())});
+    dd.cn.incRef(e.w);
+    dd.cn.decRef(oldW);
+  }
+}
+} // namespace
+
 MatrixDD buildFunctionality(const qc::QuantumComputation& qc, Package& dd) {
   if (qc.getNqubits() == 0U) {
     return MatrixDD::one();
@@ -44,6 +60,7 @@ MatrixDD buildFunctionality(const qc::QuantumComputation& qc, Package& dd) {
   changePermutation(e, permutation, qc.outputPermutation, dd);
   e = dd.reduceAncillae(e, qc.getAncillary());
   e = dd.reduceGarbage(e, qc.getGarbage());
+  applyGlobalPhase(qc, e, dd);
 
   return e;
 }
@@ -138,6 +155,7 @@ MatrixDD buildFunctionalityRecursive(const qc::QuantumComputation& qc,
   changePermutation(e, permutation, qc.outputPermutation, dd);
   e = dd.reduceAncillae(e, qc.getAncillary());
   e = dd.reduceGarbage(e, qc.getGarbage());
+  applyGlobalPhase(qc, e, dd);
 
   return e;
 }
-- 
2.43.0


From 2608783513a3c91f07c2fff80e944224053fe5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:33 +0000
Subject: [PATCH 019/133] fix: respect the controls of global phase operations

---
 src/dd/Operations.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/dd/Operations.cpp b/src/dd/Operations.cpp
index e7e42f1..3dd4348 100644
--- a/src/dd/Operations.cpp
+++ b/src/dd/Operations.cpp
@@ -26,6 +26,7 @@
 
 #include <cassert>
 #include <cmath>
+#include <complex>
 #include <cstddef>
 #include <random>
 #include <sstream>
@@ -154,6 +155,17 @@ MatrixDD getDD(const qc::Operation& op, Package& dd,
     if (inverse) {
       phase = -phase;
     }
+    if (op.isControlled()) {
+      // a controlled global phase is a phase on one of the controls that is
+      // controlled by the remaining ones
+      auto controls = permutation.apply(op.getControls());
+      const auto control = *controls.begin();
+      controls.erase(controls.begin());
+      const auto factor = std::polar(1., phase);
+      return control.type == qc::Control::Type::Pos
+                 ? dd.makeGateDD({1, 0, 0, factor}, controls, control.qubit)
+                 : dd.makeGateDD({factor, 0, 0, 1}, controls, control.qubit);
+    }
     auto id = Package::makeIdent();
     id.w = dd.cn.lookup(std::cos(phase), std::sin(phase));
     return id;
-- 
2.43.0


From c6fdee4b0a5cf4b184fde7ddaa89f388ea1f370c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:33 +0000
Subject: [PATCH 020/133] fix: do not dereference an invalid iterator when
 reporting an incompatible permutation

---
 include/mqt-core/dd/Operations.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mqt-core/dd/Operations.hpp b/include/mqt-core/dd/Operations.hpp
index 34c88d2..c997945 100644
--- a/include/mqt-core/dd/Operations.hpp
+++ b/include/mqt-core/dd/Operations.hpp
@@ -234,7 +234,7 @@ void changePermutation(DDType& on, qc::Permutation& from,
     auto it = from.find(i);
     if (it == from.end()) {
       throw std::runtime_error(
-          "[changePermutation] Key " + std::to_string(it->first) +
+          "[changePermutation] Key " + std::to_string(i) +
           " was not found in first permutation. This should never happen.");
     }
     auto current = it->second;
-- 
2.43.0


From 772cb43f741d67b89f419942b5cd60cbf6b4d41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:28 +0000
Subject: [PATCH 021/133] fix: never select an outcome of zero probability when
 measuring a density matrix

---
 src/dd/Package.cpp | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/dd/Package.cpp b/src/dd/Package.cpp
index 761e8e3..42210a8 100644
--- a/src/dd/Package.cpp
+++ b/src/dd/Package.cpp
@@ -793,21 +793,25 @@ char Package::measureOneCollapsing(dEdge& e, const Qubit index,
   const auto nrQubits = e.p->v + 1U;
   dEdge::setDensityMatrixTrue(e);
 
-  auto const measZeroDd = makeGateDD(MEAS_ZERO_MAT, index);
-
-  auto tmp0 = conjugateTranspose(measZeroDd);
-  auto tmp1 = multiply(e, densityFromMatrixEdge(tmp0), false);
-  auto tmp2 = multiply(densityFromMatrixEdge(measZeroDd), tmp1, true);
+  const auto project = [&](const GateMatrix& mat) {
+    const auto measDd = makeGateDD(mat, index);
+    const auto tmp0 = conjugateTranspose(measDd);
+    const auto tmp1 = multiply(e, densityFromMatrixEdge(tmp0), false);
+    return multiply(densityFromMatrixEdge(measDd), tmp1, true);
+  };
+
+  auto tmp2 = project(MEAS_ZERO_MAT);
   auto densityMatrixTrace = trace(tmp2, nrQubits);
+  const auto projOne = project(MEAS_ONE_MAT);
+  const auto traceOne = trace(projOne, nrQubits);
 
+  // an outcome with zero probability must never be selected
   std::uniform_real_distribution<fp> dist(0., 1.);
-  if (const auto threshold = dist(mt); threshold > densityMatrixTrace.r) {
-    auto const measOneDd = makeGateDD(MEAS_ONE_MAT, index);
-    tmp0 = conjugateTranspose(measOneDd);
-    tmp1 = multiply(e, densityFromMatrixEdge(tmp0), false);
-    tmp2 = multiply(densityFromMatrixEdge(measOneDd), tmp1, true);
+  if (const auto threshold = dist(mt);
+      threshold >= densityMatrixTrace.r / (densityMatrixTrace.r + traceOne.r)) {
+    tmp2 = projOne;
     measuredResult = '1';
-    densityMatrixTrace = trace(tmp2, nrQubits);
+    densityMatrixTrace = traceOne;
   }
 
   incRef(tmp2);
-- 
2.43.0


From ca54065768685685af4f4b04f2a48f7f285c65b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:43 +0000
Subject: [PATCH 022/133] fix: lay out sampled bit strings by classical bit and
 measured qubit

---
 src/dd/Simulation.cpp | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/src/dd/Simulation.cpp b/src/dd/Simulation.cpp
index 7606fe6..88cf13d 100644
--- a/src/dd/Simulation.cpp
+++ b/src/dd/Simulation.cpp
@@ -53,7 +53,7 @@ std::map<std::string, std::size_t> sample(const qc::QuantumComputation& qc,
     mt.seed(seeds);
   }
 
-  std::map<qc::Qubit, std::size_t> measurementMap{};
+  std::map<std::size_t, qc::Qubit> measurementMap{};
 
   // rudimentary check whether circuit is dynamic
   for (const auto& op : qc) {
@@ -64,7 +64,7 @@ std::map<std::string, std::size_t> sample(const qc::QuantumComputation& qc,
     }
 
     // once a measurement is encountered we store the corresponding mapping
-    // (qubit -> bit)
+    // (bit -> qubit), where later measurements overwrite earlier ones
     if (const auto* measure = dynamic_cast<qc::NonUnitaryOperation*>(op.get());
         measure != nullptr && measure->getType() == qc::Measure) {
       hasMeasurements = true;
@@ -73,7 +73,7 @@ std::map<std::string, std::size_t> sample(const qc::QuantumComputation& qc,
       const auto& classic = measure->getClassics();
 
       for (std::size_t i = 0; i < quantum.size(); ++i) {
-        measurementMap[quantum.at(i)] = classic.at(i);
+        measurementMap[classic.at(i)] = quantum.at(i);
       }
     }
 
@@ -111,10 +111,6 @@ std::map<std::string, std::size_t> sample(const qc::QuantumComputation& qc,
       e = applyUnitaryOperation(*op, e, dd, permutation);
     }
 
-    // correct permutation if necessary
-    changePermutation(e, permutation, qc.outputPermutation, dd);
-    e = dd.reduceGarbage(e, qc.getGarbage());
-
     // measure all qubits
     std::map<std::string, std::size_t> counts{};
     for (std::size_t i = 0U; i < shots; ++i) {
@@ -126,25 +122,24 @@ std::map<std::string, std::size_t> sample(const qc::QuantumComputation& qc,
     dd.decRef(e);
 
     std::map<std::string, std::size_t> actualCounts{};
-    const auto numBits =
-        qc.getClassicalRegisters().empty() ? qc.getNqubits() : qc.getNcbits();
+    const auto numBits = hasMeasurements ? qc.getNcbits() : qc.getNqubits();
     for (const auto& [bitstring, count] : counts) {
       std::string measurement(numBits, '0');
+      // the value of a circuit qubit is found at its current position
+      const auto valueOf = [&, &state = bitstring](const qc::Qubit qubit) {
+        return state[state.size() - 1U - permutation.at(qubit)];
+      };
       if (hasMeasurements) {
         // if the circuit contains measurements, we only want to return the
         // measured bits
-        for (const auto& [qubit, bit] : measurementMap) {
-          // measurement map specifies that the circuit `qubit` is measured into
-          // a certain `bit`
-          measurement[numBits - 1U - bit] =
-              bitstring[bitstring.size() - 1U - qc.outputPermutation.at(qubit)];
+        for (const auto& [bit, qubit] : measurementMap) {
+          measurement[numBits - 1U - bit] = valueOf(qubit);
         }
       } else {
         // otherwise, we consider the output permutation for determining where
         // to measure the qubits to
         for (const auto& [qubit, bit] : qc.outputPermutation) {
-          measurement[numBits - 1U - bit] =
-              bitstring[bitstring.size() - 1U - qubit];
+          measurement[numBits - 1U - bit] = valueOf(qubit);
         }
       }
       actualCounts[measurement] += count;
-- 
2.43.0


From 2dc709459369387c763aea9cc26149bc918a7fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:01 +0000
Subject: [PATCH 023/133] fix: deterministic noise on density matrices with
 skipped levels

---
 src/dd/NoiseFunctionality.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dd/NoiseFunctionality.cpp b/src/dd/NoiseFunctionality.cpp
index 754883a..77ea715 100644
--- a/src/dd/NoiseFunctionality.cpp
+++ b/src/dd/NoiseFunctionality.cpp
@@ -280,7 +280,8 @@ dCachedEdge DeterministicNoiseFunctionality::applyNoiseEffects(
   auto originalCopy = dEdge{originalEdge.p, Complex::one()};
   ArrayOfEdges newEdges{};
   const auto nextLevel = static_cast<dd::Qubit>(level - 1U);
-  if (originalEdge.isIdentity()) {
+  if (originalEdge.isTerminal() || originalEdge.p->v != nextLevel) {
+    // the level is skipped: both diagonal blocks are the edge itself
     newEdges[0] =
         applyNoiseEffects(originalCopy, usedQubits, firstPathEdge, nextLevel);
     newEdges[3] =
-- 
2.43.0


From f7e1945a280a22aedfa92680963150f2e87f1e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:01 +0000
Subject: [PATCH 024/133] fix: probability strings of density matrices with
 skipped top levels

---
 src/dd/Edge.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/dd/Edge.cpp b/src/dd/Edge.cpp
index 655378a..1ceab14 100644
--- a/src/dd/Edge.cpp
+++ b/src/dd/Edge.cpp
@@ -540,13 +540,12 @@ auto Edge<Node>::getSparseProbabilityVectorStrKeys(const std::size_t numQubits,
 
   auto e = *this;
   Edge<dNode>::alignDensityEdge(e);
-  const auto nqubits = static_cast<std::size_t>(e.p->v) + 1U;
 
   auto probabilities = SparsePVecStrKeys{};
   e.traverseDiagonal(
       1, 0,
-      [&probabilities, &nqubits](const std::size_t i, const fp& prob) {
-        probabilities[intToBinaryString(i, nqubits)] = prob;
+      [&probabilities, &numQubits](const std::size_t i, const fp& prob) {
+        probabilities[intToBinaryString(i, numQubits)] = prob;
       },
       numQubits, threshold);
   return probabilities;
-- 
2.43.0


From 722aeebfdb860358e24350808f201ed63cb100e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:01 +0000
Subject: [PATCH 025/133] fix: keep prepared density nodes of skipped levels
 during multiplication

---
 include/mqt-core/dd/Package.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/mqt-core/dd/Package.hpp b/include/mqt-core/dd/Package.hpp
index c9a2991..d85169b 100644
--- a/include/mqt-core/dd/Package.hpp
+++ b/include/mqt-core/dd/Package.hpp
@@ -1204,6 +1204,10 @@ private:
           const auto v = static_cast<Qubit>(var - 1);
           if constexpr (std::is_same_v<LeftOperandNode, dNode>) {
             dCachedEdge m;
+            // the node of a skipped level has already been prepared by the
+            // caller, who is also responsible for reverting the changes
+            const auto e1Changed = dNode::isDensityMatrixTempFlagSet(e1.p);
+            const auto e2Changed = dNode::isDensityMatrixTempFlagSet(e2.p);
             dEdge::applyDmChangesToEdges(e1, e2);
             if (!generateDensityMatrix || idx == 1) {
               // When generateDensityMatrix is false or I have the first edge I
@@ -1235,7 +1239,12 @@ private:
               dNode::revertDmChangesToNode(edge[idx].p);
             }
             // Undo modifications on density matrices
-            dEdge::revertDmChangesToEdges(e1, e2);
+            if (e1Changed) {
+              dEdge::revertDmChangesToEdge(e1);
+            }
+            if (e2Changed) {
+              dEdge::revertDmChangesToEdge(e2);
+            }
           } else {
             auto m = multiply2(e1, e2, v);
 
-- 
2.43.0


From a00f4a1bafdb4ff2550c131987a2676dc3f8cea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:01 +0000
Subject: [PATCH 026/133] fix: density matrix multiplication cache ignored how
 operands are read

---
 include/mqt-core/dd/ComputeTable.hpp | 48 +++++++++++++++++++++++++---
 include/mqt-core/dd/Package.hpp      |  2 +-
 2 files changed, 45 insertions(+), 5 deletions(-)

diff --git a/include/mqt-core/dd/ComputeTable.hpp b/include/mqt-core/dd/ComputeTable.hpp
index b9d9467..a37d8b4 100644
--- a/include/mqt-core/dd/ComputeTable.hpp
+++ b/include/mqt-core/dd/ComputeTable.hpp
@@ -20,6 +20,7 @@
 #include "ir/Definitions.hpp"
 
 #include <cstddef>
+#include <cstdint>
 #include <functional>
 #include <iostream>
 #include <stdexcept>
@@ -60,6 +61,9 @@ public:
     LeftOperandType leftOperand;
     RightOperandType rightOperand;
     ResultType result;
+    /// Distinguishes entries whose operands are equal but are to be read
+    /// differently (only used for density matrix nodes)
+    std::uint8_t densityKey = 0U;
   };
 
   /**
@@ -89,6 +93,35 @@ public:
     return hash & mask;
   }
 
+  /**
+   * @brief Encode how the operands are currently to be read
+   * @details The node of a density matrix is interpreted depending on its
+   * temporary flags and the result depends on whether a density matrix or a
+   * regular matrix is computed. None of this is visible in the operands'
+   * addresses.
+   */
+  [[nodiscard]] static std::uint8_t
+  densityKey([[maybe_unused]] const LeftOperandType& leftOperand,
+             [[maybe_unused]] const RightOperandType& rightOperand,
+             [[maybe_unused]] const bool useDensityMatrix) {
+    std::uint8_t key = 0U;
+    if constexpr (std::is_same_v<LeftOperandType, dNode*>) {
+      if (!dNode::isTerminal(leftOperand)) {
+        key = static_cast<std::uint8_t>(
+            dNode::getDensityMatrixTempFlags(leftOperand->flags));
+      }
+    }
+    if constexpr (std::is_same_v<RightOperandType, dNode*>) {
+      if (!dNode::isTerminal(rightOperand)) {
+        key = static_cast<std::uint8_t>(
+            key |
+            (dNode::getDensityMatrixTempFlags(rightOperand->flags) << 3U));
+      }
+      key = static_cast<std::uint8_t>(key | (useDensityMatrix ? 64U : 0U));
+    }
+    return key;
+  }
+
   /// Get a reference to the underlying table
   [[nodiscard]] const auto& getTable() const { return table; }
 
@@ -101,9 +134,11 @@ public:
    * @param leftOperand The left operand
    * @param rightOperand The right operand
    * @param result The result of the operation
+   * @param useDensityMatrix Whether the result is a density matrix
    */
   void insert(const LeftOperandType& leftOperand,
-              const RightOperandType& rightOperand, const ResultType& result) {
+              const RightOperandType& rightOperand, const ResultType& result,
+              const bool useDensityMatrix = false) {
     const auto key = hash(leftOperand, rightOperand);
     if (valid[key]) {
       ++stats.collisions;
@@ -111,7 +146,8 @@ public:
       stats.trackInsert();
       valid[key] = true;
     }
-    table[key] = {leftOperand, rightOperand, result};
+    table[key] = {leftOperand, rightOperand, result,
+                  densityKey(leftOperand, rightOperand, useDensityMatrix)};
   }
 
   /**
@@ -139,8 +175,12 @@ public:
       return result;
     }
 
-    if constexpr (std::is_same_v<RightOperandType, dNode*> ||
-                  std::is_same_v<RightOperandType, dCachedEdge>) {
+    if (entry.densityKey !=
+        densityKey(leftOperand, rightOperand, useDensityMatrix)) {
+      return result;
+    }
+
+    if constexpr (std::is_same_v<RightOperandType, dCachedEdge>) {
       // Since density matrices are reduced representations of matrices, a
       // density matrix may not be returned when a matrix is required and vice
       // versa
diff --git a/include/mqt-core/dd/Package.hpp b/include/mqt-core/dd/Package.hpp
index d85169b..aded121 100644
--- a/include/mqt-core/dd/Package.hpp
+++ b/include/mqt-core/dd/Package.hpp
@@ -1259,7 +1259,7 @@ private:
     }
 
     auto e = makeDDNode(var, edge, generateDensityMatrix);
-    computeTable.insert(x.p, y.p, e);
+    computeTable.insert(x.p, y.p, e, generateDensityMatrix);
 
     e.w = e.w * rWeight;
     return e;
-- 
2.43.0


From 80996bc9cad7e9aa73bf800583ed2fc87ab25404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:01 +0000
Subject: [PATCH 027/133] fix: measuring density matrices with skipped top
 levels

---
 src/dd/Package.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/dd/Package.cpp b/src/dd/Package.cpp
index 42210a8..7d453ae 100644
--- a/src/dd/Package.cpp
+++ b/src/dd/Package.cpp
@@ -790,7 +790,11 @@ char Package::measureOneCollapsing(dEdge& e, const Qubit index,
                                    std::mt19937_64& mt) {
   char measuredResult = '0';
   dEdge::alignDensityEdge(e);
-  const auto nrQubits = e.p->v + 1U;
+  // upper levels may be skipped
+  auto nrQubits = static_cast<std::size_t>(index) + 1U;
+  if (!e.isTerminal()) {
+    nrQubits = std::max<std::size_t>(nrQubits, e.p->v + 1U);
+  }
   dEdge::setDensityMatrixTrue(e);
 
   const auto project = [&](const GateMatrix& mat) {
@@ -806,9 +810,10 @@ char Package::measureOneCollapsing(dEdge& e, const Qubit index,
   const auto traceOne = trace(projOne, nrQubits);
 
   // an outcome with zero probability must never be selected
+  const auto total = densityMatrixTrace.r + traceOne.r;
   std::uniform_real_distribution<fp> dist(0., 1.);
   if (const auto threshold = dist(mt);
-      threshold >= densityMatrixTrace.r / (densityMatrixTrace.r + traceOne.r)) {
+      threshold >= densityMatrixTrace.r / total) {
     tmp2 = projOne;
     measuredResult = '1';
     densityMatrixTrace = traceOne;
@@ -820,8 +825,8 @@ char Package::measureOneCollapsing(dEdge& e, const Qubit index,
   e = tmp2;
   dEdge::setDensityMatrixTrue(e);
 
-  // Normalize density matrix
-  auto result = e.w / densityMatrixTrace;
+  // Renormalize density matrix
+  auto result = e.w / (densityMatrixTrace.r / total);
   cn.decRef(e.w);
   e.w = cn.lookup(result);
   cn.incRef(e.w);
-- 
2.43.0


From b51512273931b33189fec7d7db793b40b9bf8ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:02 +0000
Subject: [PATCH 028/133] fix: amplitude damping of multi-qubit gates in
 stochastic noise

---
 src/dd/NoiseFunctionality.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dd/NoiseFunctionality.cpp b/src/dd/NoiseFunctionality.cpp
index 77ea715..d6bf793 100644
--- a/src/dd/NoiseFunctionality.cpp
+++ b/src/dd/NoiseFunctionality.cpp
@@ -70,8 +70,8 @@ StochasticNoiseFunctionality::StochasticNoiseFunctionality(
       sqrtAmplitudeDampingProbability(std::sqrt(amplitudeDampingProb)),
       oneMinusSqrtAmplitudeDampingProbability(
           std::sqrt(1 - amplitudeDampingProb)),
-      sqrtAmplitudeDampingProbabilityMulti(std::sqrt(gateNoiseProbability) *
-                                           multiQubitGateFactor),
+      sqrtAmplitudeDampingProbabilityMulti(
+          std::sqrt(multiQubitGateFactor * amplitudeDampingProb)),
       oneMinusSqrtAmplitudeDampingProbabilityMulti(
           std::sqrt(1 - (multiQubitGateFactor * amplitudeDampingProb))),
       ampDampingTrue({0, sqrtAmplitudeDampingProbability, 0, 0}),
-- 
2.43.0


From 29de180fb56cac53de045efa1780b7b7b747bad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:02 +0000
Subject: [PATCH 029/133] fix: stochastic noise reused amplitude damping of
 another configuration

---
 src/dd/NoiseFunctionality.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/dd/NoiseFunctionality.cpp b/src/dd/NoiseFunctionality.cpp
index d6bf793..3b9263b 100644
--- a/src/dd/NoiseFunctionality.cpp
+++ b/src/dd/NoiseFunctionality.cpp
@@ -141,6 +141,12 @@ void StochasticNoiseFunctionality::applyNoiseOperation(
 mEdge StochasticNoiseFunctionality::stackOperation(
     const mEdge& operation, const qc::Qubit target,
     const qc::OpType noiseOperation, const GateMatrix& matrix) const {
+  // the matrix of amplitude damping depends on the configured probability, so
+  // only the remaining operations can be shared
+  if (noiseOperation != qc::X && noiseOperation != qc::Y &&
+      noiseOperation != qc::Z) {
+    return package->multiply(package->makeGateDD(matrix, target), operation);
+  }
   if (const auto* op =
           package->stochasticNoiseOperationCache.lookup(noiseOperation, target);
       op != nullptr) {
-- 
2.43.0


From 83f6e3b4315056df4bd2aa58d0669b498053c320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:02 +0000
Subject: [PATCH 030/133] fix: stochastic noise redrew effects after deciding
 on amplitude damping

---
 src/dd/NoiseFunctionality.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dd/NoiseFunctionality.cpp b/src/dd/NoiseFunctionality.cpp
index 3b9263b..3df5a0a 100644
--- a/src/dd/NoiseFunctionality.cpp
+++ b/src/dd/NoiseFunctionality.cpp
@@ -113,6 +113,8 @@ void StochasticNoiseFunctionality::applyNoiseOperation(
   const bool multiQubitOperation = targets.size() > 1;
 
   for (const auto& target : targets) {
+    // both outcomes of amplitude damping share all other random decisions
+    auto sameDraws = generator;
     auto stackedOperation = generateNoiseOperation(operation, target, generator,
                                                    false, multiQubitOperation);
     auto tmp = package->multiply(stackedOperation, state);
@@ -123,7 +125,7 @@ void StochasticNoiseFunctionality::applyNoiseOperation(
       // normalization constraint of decision diagrams the probability for
       // applying amplitude damping stands in the root edge weight, of the dd
       // after the noise has been applied
-      stackedOperation = generateNoiseOperation(operation, target, generator,
+      stackedOperation = generateNoiseOperation(operation, target, sameDraws,
                                                 true, multiQubitOperation);
       tmp = package->multiply(stackedOperation, state);
     }
-- 
2.43.0


From cd6a3aeace82b6c5c9df9e06150a8c0b7eeb81ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:02 +0000
Subject: [PATCH 031/133] fix: stochastic noise selected outcomes of zero
 probability

---
 src/dd/NoiseFunctionality.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/dd/NoiseFunctionality.cpp b/src/dd/NoiseFunctionality.cpp
index 3df5a0a..844c245 100644
--- a/src/dd/NoiseFunctionality.cpp
+++ b/src/dd/NoiseFunctionality.cpp
@@ -119,7 +119,8 @@ void StochasticNoiseFunctionality::applyNoiseOperation(
                                                    false, multiQubitOperation);
     auto tmp = package->multiply(stackedOperation, state);
 
-    if (ComplexNumbers::mag2(tmp.w) < dist(generator)) {
+    if (const auto draw = dist(generator);
+        tmp.w.exactlyZero() || ComplexNumbers::mag2(tmp.w) < draw) {
       // The probability of amplitude damping does not only depend on the
       // noise probability, but also the quantum state. Due to the
       // normalization constraint of decision diagrams the probability for
@@ -127,7 +128,11 @@ void StochasticNoiseFunctionality::applyNoiseOperation(
       // after the noise has been applied
       stackedOperation = generateNoiseOperation(operation, target, sameDraws,
                                                 true, multiQubitOperation);
-      tmp = package->multiply(stackedOperation, state);
+      if (const auto damped = package->multiply(stackedOperation, state);
+          !damped.w.exactlyZero()) {
+        // an outcome of zero probability must never be selected
+        tmp = damped;
+      }
     }
     tmp.w = Complex::one();
 
-- 
2.43.0


From fe0ef74802ed8b9dde853e8587831d8b7b4910a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:53 +0000
Subject: [PATCH 032/133] fix: phase flip of probability zero must never happen

---
 src/dd/NoiseFunctionality.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dd/NoiseFunctionality.cpp b/src/dd/NoiseFunctionality.cpp
index 844c245..0c7da29 100644
--- a/src/dd/NoiseFunctionality.cpp
+++ b/src/dd/NoiseFunctionality.cpp
@@ -234,7 +234,7 @@ qc::OpType StochasticNoiseFunctionality::returnNoiseOperation(
     return qc::Z;
   }
   case PhaseFlip: {
-    if (prob > getNoiseProbability(multiQubitNoiseFlag)) {
+    if (prob >= getNoiseProbability(multiQubitNoiseFlag)) {
       return qc::I;
     }
     return qc::Z;
-- 
2.43.0


From 669be1b2eabadb8da561dc7d818f58a3d063a7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:11 +0000
Subject: [PATCH 033/133] fix: multiplication must not put matrix nodes into
 density matrices

---
 include/mqt-core/dd/Package.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/mqt-core/dd/Package.hpp b/include/mqt-core/dd/Package.hpp
index aded121..efc11c1 100644
--- a/include/mqt-core/dd/Package.hpp
+++ b/include/mqt-core/dd/Package.hpp
@@ -1133,11 +1133,11 @@ private:
       if constexpr (!std::is_same_v<RightOperandNode, dNode>) {
         return {y.p, rWeight};
       } else {
+        // unless it is a density matrix node, `y.p` may be a matrix node that
+        // must not become part of a density matrix
         if (y.isIdentity() ||
             (dNode::isDensityMatrixTempFlagSet(y.p->flags) &&
-             generateDensityMatrix) ||
-            (!dNode::isDensityMatrixTempFlagSet(y.p->flags) &&
-             !generateDensityMatrix)) {
+             generateDensityMatrix)) {
           return {y.p, rWeight};
         }
       }
@@ -1149,11 +1149,11 @@ private:
         if constexpr (!std::is_same_v<LeftOperandNode, dNode>) {
           return {x.p, rWeight};
         } else {
+          // unless it is a density matrix node, `x.p` may be a matrix node
+          // that must not become part of a density matrix
           if (x.isIdentity() ||
               (dNode::isDensityMatrixTempFlagSet(x.p->flags) &&
-               generateDensityMatrix) ||
-              (!dNode::isDensityMatrixTempFlagSet(x.p->flags) &&
-               !generateDensityMatrix)) {
+               generateDensityMatrix)) {
             return {x.p, rWeight};
           }
         }
-- 
2.43.0


From fcab81f995c82d6af79d7c76e3807c7247783f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:46 +0000
Subject: [PATCH 034/133] fix: collecting matrix nodes left their products with
 density matrices cached

---
 src/dd/Package.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dd/Package.cpp b/src/dd/Package.cpp
index 7d453ae..07056aa 100644
--- a/src/dd/Package.cpp
+++ b/src/dd/Package.cpp
@@ -132,6 +132,8 @@ bool Package::garbageCollect(bool force) {
     matrixVectorMultiplication.clear();
     matrixMatrixMultiplication.clear();
     stochasticNoiseOperationCache.clear();
+    // gates are multiplied to density matrices as matrix nodes
+    densityDensityMultiplication.clear();
   }
   // invalidate all compute tables involving density matrices if any density
   // matrix node has been collected
-- 
2.43.0


From 0f30e651baebc07bb374628650a6f431aaa2a9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:55 +0000
Subject: [PATCH 035/133] fix: keep node weights when recreating a serialized
 decision diagram

Recreating a node normalizes it again. The resulting weight was dropped, so
that a diagram whose nodes are normalized differently when being read (e.g.,
very small amplitudes) changed its values.
---
 include/mqt-core/dd/Package.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/mqt-core/dd/Package.hpp b/include/mqt-core/dd/Package.hpp
index efc11c1..cf6584e 100644
--- a/include/mqt-core/dd/Package.hpp
+++ b/include/mqt-core/dd/Package.hpp
@@ -1823,7 +1823,7 @@ public:
     auto result = CachedEdge<Node>::one();
     ComplexValue rootweight{};
 
-    std::unordered_map<std::int64_t, Node*> nodes{};
+    std::unordered_map<std::int64_t, CachedEdge<Node>> nodes{};
     std::int64_t nodeIndex{};
     Qubit v{};
     std::array<ComplexValue, N> edgeWeights{};
@@ -1959,7 +1959,7 @@ private:
   deserializeNode(const std::int64_t index, const Qubit v,
                   std::array<std::int64_t, N>& edgeIdx,
                   const std::array<ComplexValue, N>& edgeWeight,
-                  std::unordered_map<std::int64_t, Node*>& nodes) {
+                  std::unordered_map<std::int64_t, CachedEdge<Node>>& nodes) {
     if (index == -1) {
       return CachedEdge<Node>::zero();
     }
@@ -1981,16 +1981,17 @@ private:
             throw std::runtime_error("Serialized node refers to unknown node " +
                                      std::to_string(edgeIdx[i]));
           }
-          edges[i].p = it->second;
+          edges[i] = it->second;
         }
-        edges[i].w = edgeWeight[i];
+        // the node might have been normalized differently when being recreated
+        edges[i].w = edges[i].w * edgeWeight[i];
       }
     }
     // reset
     edgeIdx.fill(-2);
 
     auto r = makeDDNode(v, edges);
-    nodes[index] = r.p;
+    nodes[index] = r;
     return r;
   }
 };
-- 
2.43.0


From 0ac2fbe77d766e5051646e0e1fb93453dd83777f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:41 +0000
Subject: [PATCH 036/133] fix: dump every bit of a measurement that is not a
 whole register

---
 src/ir/operations/NonUnitaryOperation.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/ir/operations/NonUnitaryOperation.cpp b/src/ir/operations/NonUnitaryOperation.cpp
index 9ba3aa3..8438a3e 100644
--- a/src/ir/operations/NonUnitaryOperation.cpp
+++ b/src/ir/operations/NonUnitaryOperation.cpp
@@ -85,6 +85,13 @@ bool isWholeClassicalRegister(const BitIndexToRegisterMap& reg, const Bit start,
   return startReg == endReg && startReg.getStartIndex() == start &&
          endReg.getEndIndex() == end;
 }
+
+template <class T> bool isContiguous(const std::vector<T>& indices) {
+  return std::adjacent_find(indices.cbegin(), indices.cend(),
+                            [](const auto a, const auto b) {
+                              return b != a + 1;
+                            }) == indices.cend();
+}
 } // namespace
 
 void NonUnitaryOperation::dumpOpenQASM(std::ostream& of,
@@ -94,9 +101,12 @@ void NonUnitaryOperation::dumpOpenQASM(std::ostream& of,
                                        bool openQASM3) const {
   of << std::string(indent * OUTPUT_INDENT_SIZE, ' ');
 
-  if (isWholeQubitRegister(qubitMap, targets.front(), targets.back()) &&
+  if (isContiguous(targets) &&
+      isWholeQubitRegister(qubitMap, targets.front(), targets.back()) &&
       (type != Measure ||
-       isWholeClassicalRegister(bitMap, classics.front(), classics.back()))) {
+       (isContiguous(classics) &&
+        isWholeClassicalRegister(bitMap, classics.front(),
+                                 classics.back())))) {
     if (type == Measure && openQASM3) {
       of << bitMap.at(classics.front()).first.getName() << " = ";
     }
@@ -119,6 +129,8 @@ void NonUnitaryOperation::dumpOpenQASM(std::ostream& of,
     if (type == Measure && !openQASM3) {
       const auto& creg = bitMap.at(*classicsIt);
       of << " -> " << creg.second;
+    }
+    if (type == Measure) {
       ++classicsIt;
     }
     of << ";\n";
-- 
2.43.0


From c369a842add27c8203efca6154e5a58bbcd191b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:27 +0000
Subject: [PATCH 037/133] fix: dump Peres gates on the right targets and with
 negative controls

---
 src/ir/operations/StandardOperation.cpp | 34 ++++++++++---------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/src/ir/operations/StandardOperation.cpp b/src/ir/operations/StandardOperation.cpp
index e44b529..36611d9 100644
--- a/src/ir/operations/StandardOperation.cpp
+++ b/src/ir/operations/StandardOperation.cpp
@@ -281,25 +281,19 @@ void StandardOperation::dumpOpenQASM2(
   // safe the numbers of controls as a prefix to the operation name
   op << std::string(controls.size(), 'c');
 
-  const bool isSpecialGate = type == Peres || type == Peresdg;
-
-  if (!isSpecialGate) {
-    // apply X operations to negate the respective controls
-    for (const auto& c : controls) {
-      if (c.type == Control::Type::Neg) {
-        of << "x " << qubitMap.at(c.qubit).second << ";\n";
-      }
+  // apply X operations to negate the respective controls
+  for (const auto& c : controls) {
+    if (c.type == Control::Type::Neg) {
+      of << "x " << qubitMap.at(c.qubit).second << ";\n";
     }
   }
 
   dumpGateType(of, op, qubitMap);
 
-  if (!isSpecialGate) {
-    // apply X operations to negate the respective controls again
-    for (const auto& c : controls) {
-      if (c.type == Control::Type::Neg) {
-        of << "x " << qubitMap.at(c.qubit).second << ";\n";
-      }
+  // apply X operations to negate the respective controls again
+  for (const auto& c : controls) {
+    if (c.type == Control::Type::Neg) {
+      of << "x " << qubitMap.at(c.qubit).second << ";\n";
     }
   }
 }
@@ -439,28 +433,28 @@ void StandardOperation::dumpGateType(
     for (const auto& c : controls) {
       of << " " << qubitMap.at(c.qubit).second << ",";
     }
-    of << " " << qubitMap.at(targets[1]).second << ", "
-       << qubitMap.at(targets[0]).second << ";\n";
+    of << " " << qubitMap.at(targets[0]).second << ", "
+       << qubitMap.at(targets[1]).second << ";\n";
 
     of << op.str() << "x";
     for (const auto& c : controls) {
       of << " " << qubitMap.at(c.qubit).second << ",";
     }
-    of << " " << qubitMap.at(targets[1]).second << ";\n";
+    of << " " << qubitMap.at(targets[0]).second << ";\n";
     return;
   case Peresdg:
     of << op.str() << "x";
     for (const auto& c : controls) {
       of << " " << qubitMap.at(c.qubit).second << ",";
     }
-    of << " " << qubitMap.at(targets[1]).second << ";\n";
+    of << " " << qubitMap.at(targets[0]).second << ";\n";
 
     of << op.str() << "cx";
     for (const auto& c : controls) {
       of << " " << qubitMap.at(c.qubit).second << ",";
     }
-    of << " " << qubitMap.at(targets[1]).second << ", "
-       << qubitMap.at(targets[0]).second << ";\n";
+    of << " " << qubitMap.at(targets[0]).second << ", "
+       << qubitMap.at(targets[1]).second << ";\n";
     return;
   default:
     std::cerr << "gate type " << toString(type)
-- 
2.43.0


From 8b4db7508216de57661fbaf346ecc29fc8db82c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:52 +0000
Subject: [PATCH 038/133] fix: condition every statement of a classically
 controlled operation in OpenQASM 2

---
 .../operations/ClassicControlledOperation.cpp | 29 ++++++++++++-------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/ir/operations/ClassicControlledOperation.cpp b/src/ir/operations/ClassicControlledOperation.cpp
index 33b2499..41b28b1 100644
--- a/src/ir/operations/ClassicControlledOperation.cpp
+++ b/src/ir/operations/ClassicControlledOperation.cpp
@@ -21,6 +21,7 @@
 #include <cstdint>
 #include <memory>
 #include <ostream>
+#include <sstream>
 #include <stdexcept>
 #include <string>
 #include <utility>
@@ -133,24 +134,32 @@ void ClassicControlledOperation::dumpOpenQASM(
     std::ostream& of, const QubitIndexToRegisterMap& qubitMap,
     const BitIndexToRegisterMap& bitMap, const std::size_t indent,
     const bool openQASM3) const {
-  of << std::string(indent * OUTPUT_INDENT_SIZE, ' ');
-  of << "if (";
+  std::ostringstream condition;
+  condition << std::string(indent * OUTPUT_INDENT_SIZE, ' ');
+  condition << "if (";
   if (controlRegister.has_value()) {
     assert(!controlBit.has_value());
-    of << controlRegister->getName() << " " << comparisonKind << " "
-       << expectedValue;
+    condition << controlRegister->getName() << " " << comparisonKind << " "
+              << expectedValue;
   }
   if (controlBit.has_value()) {
     assert(!controlRegister.has_value());
-    of << (expectedValue == 0 ? "!" : "") << bitMap.at(*controlBit).second;
+    condition << (expectedValue == 0 ? "!" : "")
+              << bitMap.at(*controlBit).second;
   }
-  of << ") ";
-  if (openQASM3) {
-    of << "{\n";
-  }
-  op->dumpOpenQASM(of, qubitMap, bitMap, indent + 1, openQASM3);
+  condition << ") ";
   if (openQASM3) {
+    of << condition.str() << "{\n";
+    op->dumpOpenQASM(of, qubitMap, bitMap, indent + 1, openQASM3);
     of << "}\n";
+    return;
+  }
+  // OpenQASM 2 has no blocks. Thus, every statement needs its own condition.
+  std::ostringstream statements;
+  op->dumpOpenQASM(statements, qubitMap, bitMap, indent + 1, openQASM3);
+  std::istringstream lines(statements.str());
+  for (std::string line; std::getline(lines, line);) {
+    of << condition.str() << line << "\n";
   }
 }
 
-- 
2.43.0


From f4e995f6ad4104486f7391e08afb1aa8b859538d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:49 +0000
Subject: [PATCH 039/133] fix: reject layout comments naming qubits the program
 does not declare

---
 src/qasm3/Importer.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/qasm3/Importer.cpp b/src/qasm3/Importer.cpp
index 6256281..87af063 100644
--- a/src/qasm3/Importer.cpp
+++ b/src/qasm3/Importer.cpp
@@ -303,6 +303,14 @@ void Importer::visitProgram(
 
   // Finally, if we have a initial layout and output permutation specified,
   // apply them.
+  for (const auto* permutation : {&initialLayout, &outputPermutation}) {
+    for (const auto& [physical, logical] : *permutation) {
+      if (physical >= qc->getNqubits() || logical >= qc->getNqubits()) {
+        throw std::runtime_error(
+            "Layout refers to qubits that are not part of the program.");
+      }
+    }
+  }
   if (!initialLayout.empty()) {
     qc->initialLayout = initialLayout;
   }
-- 
2.43.0


From ee3526798bd4baec7f0c75d81192a5d4969344e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:49 +0000
Subject: [PATCH 040/133] fix: an unterminated string literal must not hang the
 scanner

---
 src/qasm3/Scanner.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qasm3/Scanner.cpp b/src/qasm3/Scanner.cpp
index 6668dc1..930d18f 100644
--- a/src/qasm3/Scanner.cpp
+++ b/src/qasm3/Scanner.cpp
@@ -332,7 +332,7 @@ Token Scanner::consumeString() {
   nextCh();
 
   std::stringstream content;
-  while (ch != delim) {
+  while (ch != delim && ch != 0) {
     content << ch;
     nextCh();
   }
-- 
2.43.0


From 1558b2937a28fd2fe2d87a9fb0d38fab4cca7086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:49 +0000
Subject: [PATCH 041/133] fix: keep bits aligned with qubits when deriving the
 output permutation

---
 src/ir/QuantumComputation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index 8c7b4c0..d670e9e 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -267,8 +267,9 @@ void QuantumComputation::initializeIOMapping() {
         op != nullptr && op->getType() == Measure) {
       outputPermutationFromMeasurements = true;
       assert(op->getTargets().size() == op->getClassics().size());
-      auto classicIt = op->getClassics().cbegin();
+      auto nextClassicIt = op->getClassics().cbegin();
       for (const auto& q : op->getTargets()) {
+        const auto classicIt = nextClassicIt++;
         const auto qubitidx = q;
         // only the first measurement of a qubit is used to determine the output
         // permutation
@@ -295,7 +296,6 @@ void QuantumComputation::initializeIOMapping() {
           outputPermutation[qubitidx] = static_cast<Qubit>(bitidx);
         }
         measuredQubits.emplace(qubitidx);
-        ++classicIt;
       }
     }
   }
-- 
2.43.0


From d71f2f68019a6ccf01df44f6a98bd49b49c4f8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:25 +0000
Subject: [PATCH 042/133] fix: indexing an identifier must not change its
 declared type

---
 src/qasm3/passes/TypeCheckPass.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/qasm3/passes/TypeCheckPass.cpp b/src/qasm3/passes/TypeCheckPass.cpp
index 126c10d..f4dd067 100644
--- a/src/qasm3/passes/TypeCheckPass.cpp
+++ b/src/qasm3/passes/TypeCheckPass.cpp
@@ -344,10 +344,17 @@ InferredType TypeCheckPass::visitIndexedIdentifier(
     const std::shared_ptr<IndexedIdentifier> indexedIdentifier) {
   auto type = visitIdentifierExpression(
       std::make_shared<IdentifierExpression>(indexedIdentifier->identifier));
-  if (indexedIdentifier->indices.empty()) {
+  if (indexedIdentifier->indices.empty() || type.isError) {
+    return type;
+  }
+  // Assume that indexed access always results in a single element. The type of
+  // the declared identifier must not change.
+  if (const auto designatedType =
+          std::dynamic_pointer_cast<DesignatedType<uint64_t>>(type.type)) {
+    type.type = std::make_shared<DesignatedType<uint64_t>>(
+        designatedType->type, 1);
     return type;
   }
-  // Assume that indexed access always results in a single element
   type.type->setDesignator(1);
   return type;
 }
-- 
2.43.0


From dc38e2f0f0aaae12af7e69922e6dc1e48eb62741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:25 +0000
Subject: [PATCH 043/133] fix: accept an include statement that directly
 follows another

---
 src/qasm3/Parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qasm3/Parser.cpp b/src/qasm3/Parser.cpp
index 8b8698b..4fb193b 100644
--- a/src/qasm3/Parser.cpp
+++ b/src/qasm3/Parser.cpp
@@ -149,7 +149,7 @@ std::vector<std::shared_ptr<Statement>> Parser::parseProgram() {
 }
 
 std::shared_ptr<Statement> Parser::parseStatement() {
-  if (current().kind == Token::Kind::Include) {
+  while (current().kind == Token::Kind::Include) {
     // We parse include and then continue in parseStatement, as the include
     // statement just adds a new file to the scanner.
     parseInclude();
-- 
2.43.0


From f92699b4a0fa9dc35d656932f08ce2fec3172792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:25 +0000
Subject: [PATCH 044/133] fix: control modifiers precede a gate's own controls

---
 src/qasm3/Importer.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/qasm3/Importer.cpp b/src/qasm3/Importer.cpp
index 87af063..efaa6fc 100644
--- a/src/qasm3/Importer.cpp
+++ b/src/qasm3/Importer.cpp
@@ -550,10 +550,10 @@ std::unique_ptr<qc::Operation> Importer::evaluateGateCall(
                         gateCallStatement->debugInfo);
   }
 
-  controls.reserve(nControls);
-  for (size_t i = 0; i < nControls; ++i) {
-    controls.emplace_back(targets[i], true);
-  }
+  const auto nGateControls = nControls;
+  controls.reserve(nGateControls);
+  // the qubits of control modifiers precede the controls of the gate itself
+  nControls = 0;
 
   bool invertOperation = false;
   for (const auto& modifier : gateCallStatement->modifiers) {
@@ -564,9 +564,10 @@ std::unique_ptr<qc::Operation> Importer::evaluateGateCall(
                                                 gateCallStatement->debugInfo,
                                                 /*defaultValue=*/
                                                 1);
-      if (targets.size() < n + nControls) {
+      if (targets.size() < n + nControls + nGateControls) {
         throw CompilerError(
-            "Gate '" + identifier + "' takes " + std::to_string(n + nControls) +
+            "Gate '" + identifier + "' takes " +
+                std::to_string(n + nControls + nGateControls) +
                 " controls, but only " + std::to_string(targets.size()) +
                 " were supplied.",
             gateCallStatement->debugInfo);
@@ -587,6 +588,10 @@ std::unique_ptr<qc::Operation> Importer::evaluateGateCall(
                           gateCallStatement->debugInfo);
     }
   }
+  for (size_t i = 0; i < nGateControls; ++i) {
+    controls.emplace_back(targets[nControls + i], true);
+  }
+  nControls += nGateControls;
   targets.erase(targets.begin(),
                 targets.begin() + static_cast<int64_t>(nControls));
 
-- 
2.43.0


From 1ca07929c9287dd1829a8a32a8b4b02c2078af8d Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 19:38:50 +0000
Subject: [PATCH 045/133] fix: a wire with a Hadamard is no identity wire

---
 src/zx/ZXDiagram.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zx/ZXDiagram.cpp b/src/zx/ZXDiagram.cpp
index 90073b3..e70c247 100644
--- a/src/zx/ZXDiagram.cpp
+++ b/src/zx/ZXDiagram.cpp
@@ -294,7 +294,8 @@ bool ZXDiagram::isIdentity() const {
 
   const auto nInputs = inputs.size();
   for (size_t i = 0; i < nInputs; ++i) {
-    if (!connected(inputs[i], outputs[i])) {
+    const auto edge = getEdge(inputs[i], outputs[i]);
+    if (!edge.has_value() || edge->type != EdgeType::Simple) {
       return false;
     }
   }
-- 
2.43.0


From ab99e2f62ed8440092a03879680a4b891d759539 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 19:38:50 +0000
Subject: [PATCH 046/133] fix: a global phase operation has no target

---
 src/zx/FunctionalityConstruction.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/zx/FunctionalityConstruction.cpp b/src/zx/FunctionalityConstruction.cpp
index 7fa390a..4a23648 100644
--- a/src/zx/FunctionalityConstruction.cpp
+++ b/src/zx/FunctionalityConstruction.cpp
@@ -316,15 +316,15 @@ FunctionalityConstruction::parseOp(ZXDiagram& diag, op_it it, op_it end,
     return it + 1;
   }
 
+  if (op->getType() == qc::OpType::GPhase && !op->isControlled()) {
+    diag.addGlobalPhase(parseParam(op.get(), 0));
+    return it + 1;
+  }
+
   if (!op->isControlled()) {
     // single qubit gates
     const auto target = static_cast<Qubit>(p.at(op->getTargets().front()));
     switch (op->getType()) {
-    case qc::OpType::GPhase: {
-      const auto& param = parseParam(op.get(), 0);
-      diag.addGlobalPhase(param);
-      break;
-    }
     case qc::OpType::Z:
       addZSpider(diag, target, qubits, PiExpression(PiRational(1, 1)));
       break;
-- 
2.43.0


From ff1789891ac34481444cddd03c19ce43aeb7e63d Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 19:39:59 +0000
Subject: [PATCH 047/133] fix: halve the angle of XXplusYY and XXminusYY before
 reducing it

Angles of ZX-diagrams are kept modulo 2*pi. Halving theta after the reduction
loses a relative sign, e.g. for theta = 3*pi/2. The names of the two
parameters were also mixed up, so the global phase was that of the other one.
---
 .../mqt-core/zx/FunctionalityConstruction.hpp |  5 +-
 src/zx/FunctionalityConstruction.cpp          | 49 +++++++++++++------
 2 files changed, 36 insertions(+), 18 deletions(-)

diff --git a/include/mqt-core/zx/FunctionalityConstruction.hpp b/include/mqt-core/zx/FunctionalityConstruction.hpp
index ac7817f..fbf384f 100644
--- a/include/mqt-core/zx/FunctionalityConstruction.hpp
+++ b/include/mqt-core/zx/FunctionalityConstruction.hpp
@@ -102,12 +102,12 @@ protected:
   static void addDcx(ZXDiagram& diag, Qubit qubit1, Qubit qubit2,
                      std::vector<Vertex>& qubits);
   static void
-  addXXplusYY(ZXDiagram& diag, const PiExpression& theta,
+  addXXplusYY(ZXDiagram& diag, const PiExpression& halfTheta,
               const PiExpression& beta, Qubit qubit0, Qubit qubit1,
               std::vector<Vertex>& qubits,
               const std::optional<double>& unconvertedBeta = std::nullopt);
   static void
-  addXXminusYY(ZXDiagram& diag, const PiExpression& theta,
+  addXXminusYY(ZXDiagram& diag, const PiExpression& halfTheta,
                const PiExpression& beta, Qubit qubit0, Qubit qubit1,
                std::vector<Vertex>& qubits,
                const std::optional<double>& unconvertedBeta = std::nullopt);
@@ -121,5 +121,6 @@ protected:
 
   static PiExpression toPiExpr(const qc::SymbolOrNumber& param);
   static PiExpression parseParam(const qc::Operation* op, std::size_t i);
+  static PiExpression parseHalfParam(const qc::Operation* op, std::size_t i);
 };
 } // namespace zx
diff --git a/src/zx/FunctionalityConstruction.cpp b/src/zx/FunctionalityConstruction.cpp
index 4a23648..0e4490d 100644
--- a/src/zx/FunctionalityConstruction.cpp
+++ b/src/zx/FunctionalityConstruction.cpp
@@ -214,7 +214,7 @@ void FunctionalityConstruction::addDcx(ZXDiagram& diag, const Qubit qubit1,
 }
 
 void FunctionalityConstruction::addXXplusYY(
-    ZXDiagram& diag, const PiExpression& theta, const PiExpression& beta,
+    ZXDiagram& diag, const PiExpression& halfTheta, const PiExpression& beta,
     const Qubit qubit0, const Qubit qubit1, std::vector<Vertex>& qubits,
     const std::optional<double>& unconvertedBeta) {
   addRz(diag, beta, qubit1, qubits, unconvertedBeta);
@@ -223,8 +223,8 @@ void FunctionalityConstruction::addXXplusYY(
   addRx(diag, PiExpression(PiRational(1, 2)), qubit0, qubits);
   addRz(diag, PiExpression(PiRational(1, 2)), qubit0, qubits);
   addCnot(diag, qubit0, qubit1, qubits);
-  addRy(diag, theta / 2, qubit0, qubits);
-  addRy(diag, theta / 2, qubit1, qubits);
+  addRy(diag, halfTheta, qubit0, qubits);
+  addRy(diag, halfTheta, qubit1, qubits);
   addCnot(diag, qubit0, qubit1, qubits);
   addRz(diag, PiExpression(PiRational(-1, 2)), qubit0, qubits);
   addRx(diag, PiExpression(PiRational(-1, 2)), qubit0, qubits);
@@ -239,7 +239,7 @@ void FunctionalityConstruction::addXXplusYY(
 }
 
 void FunctionalityConstruction::addXXminusYY(
-    ZXDiagram& diag, const PiExpression& theta, const PiExpression& beta,
+    ZXDiagram& diag, const PiExpression& halfTheta, const PiExpression& beta,
     const Qubit qubit0, const Qubit qubit1, std::vector<Vertex>& qubits,
     const std::optional<double>& unconvertedBeta) {
   if (unconvertedBeta.has_value()) {
@@ -252,8 +252,8 @@ void FunctionalityConstruction::addXXminusYY(
   addRx(diag, PiExpression(PiRational(1, 2)), qubit0, qubits);
   addRz(diag, PiExpression(PiRational(1, 2)), qubit0, qubits);
   addCnot(diag, qubit0, qubit1, qubits);
-  addRy(diag, -theta / 2, qubit0, qubits);
-  addRy(diag, theta / 2, qubit1, qubits);
+  addRy(diag, -halfTheta, qubit0, qubits);
+  addRy(diag, halfTheta, qubit1, qubits);
   addCnot(diag, qubit0, qubit1, qubits);
   addRz(diag, PiExpression(PiRational(-1, 2)), qubit0, qubits);
   addRx(diag, PiExpression(PiRational(-1, 2)), qubit0, qubits);
@@ -465,25 +465,25 @@ FunctionalityConstruction::parseOp(ZXDiagram& diag, op_it it, op_it end,
     }
     case qc::OpType::XXplusYY: {
       const auto target2 = static_cast<Qubit>(p.at(op->getTargets()[1]));
-      const auto& betaExpr = parseParam(op.get(), 0);
+      const auto halfTheta = parseHalfParam(op.get(), 0);
+      const auto& betaExpr = parseParam(op.get(), 1);
       if (betaExpr.isConstant()) {
-        addXXplusYY(diag, betaExpr, parseParam(op.get(), 1), target, target2,
-                    qubits, op->getParameter().at(0));
+        addXXplusYY(diag, halfTheta, betaExpr, target, target2, qubits,
+                    op->getParameter().at(1));
       } else {
-        addXXplusYY(diag, betaExpr, parseParam(op.get(), 1), target, target2,
-                    qubits);
+        addXXplusYY(diag, halfTheta, betaExpr, target, target2, qubits);
       }
       break;
     }
     case qc::OpType::XXminusYY: {
       const auto target2 = static_cast<Qubit>(p.at(op->getTargets()[1]));
-      const auto& betaExpr = parseParam(op.get(), 0);
+      const auto halfTheta = parseHalfParam(op.get(), 0);
+      const auto& betaExpr = parseParam(op.get(), 1);
       if (betaExpr.isConstant()) {
-        addXXminusYY(diag, betaExpr, parseParam(op.get(), 1), target, target2,
-                     qubits, op->getParameter().at(0));
+        addXXminusYY(diag, halfTheta, betaExpr, target, target2, qubits,
+                     op->getParameter().at(1));
       } else {
-        addXXminusYY(diag, betaExpr, parseParam(op.get(), 1), target, target2,
-                     qubits);
+        addXXminusYY(diag, halfTheta, betaExpr, target, target2, qubits);
       }
       break;
     }
@@ -714,6 +714,23 @@ PiExpression FunctionalityConstruction::parseParam(const qc::Operation* op,
   }
   return PiExpression{PiRational{op->getParameter().at(i)}};
 }
+
+PiExpression
+FunctionalityConstruction::parseHalfParam(const qc::Operation* op,
+                                          const std::size_t i) {
+  // angles are only kept modulo 2*pi, so constants must be halved beforehand
+  if (const auto* symbOp = dynamic_cast<const qc::SymbolicOperation*>(op)) {
+    const auto& param = symbOp->getParameter(i);
+    if (std::holds_alternative<qc::Symbolic>(param)) {
+      const auto& symbolic = std::get<qc::Symbolic>(param);
+      auto half = symbolic.convert<PiRational>() / 2.0;
+      half.setConst(PiRational(symbolic.getConst() / 2));
+      return half;
+    }
+    return PiExpression{PiRational{std::get<double>(param) / 2}};
+  }
+  return PiExpression{PiRational{op->getParameter().at(i) / 2}};
+}
 PiExpression
 FunctionalityConstruction::toPiExpr(const qc::SymbolOrNumber& param) {
   if (std::holds_alternative<double>(param)) {
-- 
2.43.0


From a62e26532353ada9ef6b8d8d90f482d0d15441ca Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 19:40:11 +0000
Subject: [PATCH 048/133] fix: negative controls are not ignored when building
 ZX-diagrams

---
 src/zx/FunctionalityConstruction.cpp | 43 +++++++++++++++++++++++++---
 1 file changed, 39 insertions(+), 4 deletions(-)

diff --git a/src/zx/FunctionalityConstruction.cpp b/src/zx/FunctionalityConstruction.cpp
index 0e4490d..2c49382 100644
--- a/src/zx/FunctionalityConstruction.cpp
+++ b/src/zx/FunctionalityConstruction.cpp
@@ -13,8 +13,10 @@
 #include "ir/Permutation.hpp"
 #include "ir/QuantumComputation.hpp"
 #include "ir/operations/CompoundOperation.hpp"
+#include "ir/operations/Control.hpp"
 #include "ir/operations/Expression.hpp"
 #include "ir/operations/OpType.hpp"
+#include "ir/operations/Operation.hpp"
 #include "ir/operations/SymbolicOperation.hpp"
 #include "zx/Rational.hpp"
 #include "zx/ZXDefinitions.hpp"
@@ -22,6 +24,7 @@
 
 #include <algorithm>
 #include <cstddef>
+#include <memory>
 #include <optional>
 #include <string>
 #include <variant>
@@ -29,6 +32,15 @@
 
 namespace zx {
 
+namespace {
+bool hasNegativeControl(const qc::Operation& op) {
+  const auto& controls = op.getControls();
+  return std::any_of(controls.begin(), controls.end(), [](const auto& control) {
+    return control.type == qc::Control::Type::Neg;
+  });
+}
+} // namespace
+
 bool FunctionalityConstruction::checkSwap(const op_it& it, const op_it& end,
                                           const Qubit ctrl, const Qubit target,
                                           const qc::Permutation& p) {
@@ -36,7 +48,8 @@ bool FunctionalityConstruction::checkSwap(const op_it& it, const op_it& end,
     const auto& op1 = *(it + 1);
     const auto& op2 = *(it + 2);
     if (op1->getType() == qc::OpType::X && op2->getType() == qc::OpType::X &&
-        op1->getNcontrols() == 1 && op2->getNcontrols() == 1) {
+        op1->getNcontrols() == 1 && op2->getNcontrols() == 1 &&
+        !hasNegativeControl(*op1) && !hasNegativeControl(*op2)) {
       const auto tar1 = p.at(op1->getTargets().front());
       const auto tar2 = p.at(op2->getTargets().front());
       const auto ctrl1 = p.at((*op1->getControls().begin()).qubit);
@@ -321,6 +334,29 @@ FunctionalityConstruction::parseOp(ZXDiagram& diag, op_it it, op_it end,
     return it + 1;
   }
 
+  if (hasNegativeControl(*op)) {
+    // a negative control is a positive control in between two X gates
+    const auto flipNegativeControls = [&] {
+      for (const auto& control : op->getControls()) {
+        if (control.type == qc::Control::Type::Neg) {
+          addXSpider(diag, static_cast<Qubit>(p.at(control.qubit)), qubits,
+                     PiExpression(PiRational(1, 1)));
+        }
+      }
+    };
+    std::vector<std::unique_ptr<qc::Operation>> positive{};
+    positive.emplace_back(op->clone());
+    qc::Controls controls{};
+    for (const auto& control : op->getControls()) {
+      controls.emplace(control.qubit);
+    }
+    positive.back()->setControls(controls);
+    flipNegativeControls();
+    parseOp(diag, positive.begin(), positive.end(), qubits, p);
+    flipNegativeControls();
+    return it + 1;
+  }
+
   if (!op->isControlled()) {
     // single qubit gates
     const auto target = static_cast<Qubit>(p.at(op->getTargets().front()));
@@ -715,9 +751,8 @@ PiExpression FunctionalityConstruction::parseParam(const qc::Operation* op,
   return PiExpression{PiRational{op->getParameter().at(i)}};
 }
 
-PiExpression
-FunctionalityConstruction::parseHalfParam(const qc::Operation* op,
-                                          const std::size_t i) {
+PiExpression FunctionalityConstruction::parseHalfParam(const qc::Operation* op,
+                                                       const std::size_t i) {
   // angles are only kept modulo 2*pi, so constants must be halved beforehand
   if (const auto* symbOp = dynamic_cast<const qc::SymbolicOperation*>(op)) {
     const auto& param = symbOp->getParameter(i);
-- 
2.43.0


From 8bd15995cb807616e7bdef9a2cd67c65efcc4ecb Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 19:42:26 +0000
Subject: [PATCH 049/133] fix: the X gate in the middle of an ECR gate is part
 of its ZX-diagram

---
 src/zx/FunctionalityConstruction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zx/FunctionalityConstruction.cpp b/src/zx/FunctionalityConstruction.cpp
index 2c49382..cb9b3fa 100644
--- a/src/zx/FunctionalityConstruction.cpp
+++ b/src/zx/FunctionalityConstruction.cpp
@@ -495,7 +495,7 @@ FunctionalityConstruction::parseOp(ZXDiagram& diag, op_it it, op_it end,
     case qc::OpType::ECR: {
       const auto target2 = static_cast<Qubit>(p.at(op->getTargets()[1]));
       addRzx(diag, PiExpression(PiRational(1, 4)), target, target2, qubits);
-      addXSpider(diag, target, qubits);
+      addXSpider(diag, target, qubits, PiExpression(PiRational(1, 1)));
       addRzx(diag, PiExpression(-PiRational(1, 4)), target, target2, qubits);
       break;
     }
-- 
2.43.0


From 034e2720a182e281709f2b676fe6bc7c421ff480 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 19:42:26 +0000
Subject: [PATCH 050/133] fix: the ZX-diagram of an XXplusYY gate has the signs
 and qubits of the gate

---
 src/zx/FunctionalityConstruction.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/zx/FunctionalityConstruction.cpp b/src/zx/FunctionalityConstruction.cpp
index cb9b3fa..8870fde 100644
--- a/src/zx/FunctionalityConstruction.cpp
+++ b/src/zx/FunctionalityConstruction.cpp
@@ -230,8 +230,12 @@ void FunctionalityConstruction::addXXplusYY(
     ZXDiagram& diag, const PiExpression& halfTheta, const PiExpression& beta,
     const Qubit qubit0, const Qubit qubit1, std::vector<Vertex>& qubits,
     const std::optional<double>& unconvertedBeta) {
-  addRz(diag, beta, qubit1, qubits, unconvertedBeta);
-  addRz(diag, PiExpression(PiRational(1, 2)), qubit1, qubits);
+  if (unconvertedBeta.has_value()) {
+    addRz(diag, -beta, qubit1, qubits, -unconvertedBeta.value());
+  } else {
+    addRz(diag, -beta, qubit1, qubits);
+  }
+  addRz(diag, PiExpression(PiRational(-1, 2)), qubit1, qubits);
   addRz(diag, PiExpression(PiRational(-1, 2)), qubit0, qubits);
   addRx(diag, PiExpression(PiRational(1, 2)), qubit0, qubits);
   addRz(diag, PiExpression(PiRational(1, 2)), qubit0, qubits);
@@ -242,13 +246,9 @@ void FunctionalityConstruction::addXXplusYY(
   addRz(diag, PiExpression(PiRational(-1, 2)), qubit0, qubits);
   addRx(diag, PiExpression(PiRational(-1, 2)), qubit0, qubits);
   addRz(diag, PiExpression(PiRational(1, 2)), qubit0, qubits);
-  if (unconvertedBeta.has_value()) {
-    addRz(diag, -beta, qubit1, qubits, -unconvertedBeta.value());
-  } else {
-    addRz(diag, -beta, qubit1, qubits);
-  }
+  addRz(diag, beta, qubit1, qubits, unconvertedBeta);
 
-  addRz(diag, PiExpression(-PiRational(1, 2)), qubit1, qubits);
+  addRz(diag, PiExpression(PiRational(1, 2)), qubit1, qubits);
 }
 
 void FunctionalityConstruction::addXXminusYY(
-- 
2.43.0


From edf357a93440df201dd80393cead5df6f5664e57 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 19:45:09 +0000
Subject: [PATCH 051/133] fix: a phase gadget is not absorbed into a boundary
 vertex

---
 src/zx/Rules.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zx/Rules.cpp b/src/zx/Rules.cpp
index 686fb99..2143b26 100644
--- a/src/zx/Rules.cpp
+++ b/src/zx/Rules.cpp
@@ -302,7 +302,7 @@ bool checkAndFuseGadget(ZXDiagram& diag, const Vertex v) {
     const auto& [v0, v0Etype] = diag.incidentEdges(id0)[0].to == v
                                     ? diag.incidentEdges(id0)[1]
                                     : diag.incidentEdges(id0)[0];
-    if (v0Etype != EdgeType::Hadamard) {
+    if (v0Etype != EdgeType::Hadamard || diag.isBoundaryVertex(v0)) {
       return false;
     }
 
-- 
2.43.0


From ff16e43fcf2dd94f48786de83c7f8eee962c1aea Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 19:45:09 +0000
Subject: [PATCH 052/133] fix: only fuse phase gadgets that have a single leaf

---
 src/zx/Rules.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/zx/Rules.cpp b/src/zx/Rules.cpp
index 2143b26..6b336ef 100644
--- a/src/zx/Rules.cpp
+++ b/src/zx/Rules.cpp
@@ -345,6 +345,7 @@ bool checkAndFuseGadget(ZXDiagram& diag, const Vertex v) {
 
     foundGadget = true;
     id1 = n;
+    phaseSpider.reset();
 
     for (const auto& [nn, nnEtype] :
          diag.incidentEdges(id1.value())) { // Todo: maybe problem with parallel
@@ -356,7 +357,11 @@ bool checkAndFuseGadget(ZXDiagram& diag, const Vertex v) {
       }
 
       if (diag.degree(nn) == 1 && !diag.isBoundaryVertex(nn)) {
-        foundGadget = true;
+        if (phaseSpider.has_value()) {
+          // a hub with several leaves is not a phase gadget
+          foundGadget = false;
+          break;
+        }
         phaseSpider = nn;
         continue;
       }
-- 
2.43.0


From af2948e1ee40450f5d78d3cf3b484b2067a4e43f Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 19:45:09 +0000
Subject: [PATCH 053/133] fix: the empty ZX-diagram has no edges to iterate
 over

---
 src/zx/Utils.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/zx/Utils.cpp b/src/zx/Utils.cpp
index f175598..e02527a 100644
--- a/src/zx/Utils.cpp
+++ b/src/zx/Utils.cpp
@@ -63,8 +63,11 @@ void Vertices::VertexIterator::nextValidVertex() {
 Edges::EdgeIterator::EdgeIterator(
     const std::vector<std::vector<Edge>>& es,
     const std::vector<std::optional<VertexData>>& verts)
-    : v(0), currentPos(es[0].begin()), edgesPos(es.begin()), edges(es),
-      vertices(verts) {
+    : v(0), edgesPos(es.begin()), edges(es), vertices(verts) {
+  if (edges.empty()) {
+    return;
+  }
+  currentPos = edges.front().begin();
   if (!vertices.empty()) {
     while (v < edges.size() && !vertices[v].has_value()) {
       ++v;
@@ -89,7 +92,9 @@ Edges::EdgeIterator::EdgeIterator(
     const std::vector<std::optional<VertexData>>& verts, const Vertex vertex)
     : v(vertex), edges(es), vertices(verts) {
   if (v >= edges.size()) {
-    currentPos = edges.back().end();
+    if (!edges.empty()) {
+      currentPos = edges.back().end();
+    }
     edgesPos = edges.end();
     this->v = edges.size();
   } else {
-- 
2.43.0


From 471b96e3535a58e02e794cdd402a00bda2bff17a Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 19:45:34 +0000
Subject: [PATCH 054/133] fix: concatenating ZX-diagrams neither loses nor
 doubles edges

The wires between the two diagrams were found by the qubit attribute of the
right-hand side's inputs, which is no index once ancillae were made. Spiders
connected by several wires ended up with parallel edges, and wires that lead
from one output to another one were lost.
---
 src/zx/ZXDiagram.cpp | 42 ++++++++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/src/zx/ZXDiagram.cpp b/src/zx/ZXDiagram.cpp
index e70c247..8aa5598 100644
--- a/src/zx/ZXDiagram.cpp
+++ b/src/zx/ZXDiagram.cpp
@@ -241,7 +241,15 @@ ZXDiagram& ZXDiagram::concat(const ZXDiagram& rhs) {
         "Cannot concatenate Diagrams with differing number of qubits!");
   }
 
+  // outputs turn into identity spiders that double as the inputs of rhs
+  const auto seams = outputs;
+  const auto nSeams = seams.size();
   std::unordered_map<Vertex, Vertex> newVs;
+  for (std::size_t i = 0; i < nSeams; ++i) {
+    setType(seams[i], VertexType::Z);
+    newVs[rhs.inputs[i]] = seams[i];
+  }
+
   const auto nverts = rhs.vertices.size();
   for (std::size_t i = 0; i < nverts; ++i) {
     const auto& vertex = rhs.vertices[i];
@@ -254,35 +262,33 @@ ZXDiagram& ZXDiagram::concat(const ZXDiagram& rhs) {
   }
 
   for (std::size_t i = 0; i < nverts; ++i) { // add new edges
-    if (!rhs.vertices[i].has_value() || rhs.isInput(i)) {
+    if (!rhs.vertices[i].has_value()) {
       continue;
     }
 
     for (const auto& [to, type] : rhs.edges[i]) {
-      if (!rhs.isInput(to)) {
-        if (i < to) { // make sure not to add edge twice
-          addEdge(newVs[i], newVs[to], type);
-        }
-      } else {
-        const auto outV = outputs[static_cast<std::size_t>(rhs.qubit(to))];
-        for (const auto& [interior_v, interior_type] :
-             edges[outV]) { // redirect edges going to outputs
-          if (interior_type == type) {
-            addEdge(interior_v, newVs[i], EdgeType::Simple);
-          } else {
-            addEdge(interior_v, newVs[i], EdgeType::Hadamard);
-          }
-        }
+      if (i < to) { // make sure not to add edge twice
+        addEdgeParallelAware(newVs[i], newVs[to], type);
       }
     }
   } // add new edges
 
-  const auto nOutputs = outputs.size();
-  for (size_t i = 0; i < nOutputs; ++i) {
-    removeVertex(outputs[i]);
+  for (std::size_t i = 0; i < nSeams; ++i) {
     outputs[i] = newVs[rhs.outputs[i]];
   }
 
+  for (const auto seam : seams) {
+    if (degree(seam) != 2 || !phase(seam).isZero()) {
+      continue;
+    }
+    const auto incident = incidentEdges(seam);
+    addEdgeParallelAware(incident[0].to, incident[1].to,
+                         incident[0].type == incident[1].type
+                             ? EdgeType::Simple
+                             : EdgeType::Hadamard);
+    removeVertex(seam);
+  }
+
   this->addGlobalPhase(-rhs.globalPhase);
   return *this;
 }
-- 
2.43.0


From ab6cfef7648d8400b60ba7939977ff8cf922b76c Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 19:47:16 +0000
Subject: [PATCH 055/133] fix: symbolic U gates parsed as U2 or P keep the
 matching parameters

---
 src/ir/operations/SymbolicOperation.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/ir/operations/SymbolicOperation.cpp b/src/ir/operations/SymbolicOperation.cpp
index 46ce210..7496d98 100644
--- a/src/ir/operations/SymbolicOperation.cpp
+++ b/src/ir/operations/SymbolicOperation.cpp
@@ -230,6 +230,18 @@ void SymbolicOperation::checkSymbolicUgate() {
                      parameter[2]);
     }
   }
+  // only keep as many parameters as the parsed gate has
+  const auto dropFirst = [this](const std::ptrdiff_t n) {
+    parameter.erase(parameter.begin(), parameter.begin() + n);
+    symbolicParameter.erase(symbolicParameter.begin(),
+                            symbolicParameter.begin() + n);
+  };
+  if (parameter.size() == 3 && type == U2) {
+    dropFirst(1);
+  } else if (parameter.size() == 3 && type == P) {
+    dropFirst(2);
+  }
+  symbolicParameter.resize(parameter.size());
   // NOLINTEND(bugprone-unchecked-optional-access)
 }
 
@@ -390,6 +402,8 @@ void SymbolicOperation::instantiate(const VariableAssignment& assignment) {
     symbolicParameter.at(i).reset();
   }
   checkUgate();
+  symbolicParameter.resize(parameter.size());
+  name = toString(type);
 }
 
 void SymbolicOperation::negateSymbolicParameter(const std::size_t index) {
-- 
2.43.0


From 3d50ae3670bd38a188d47862f1b4260cb4823709 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 19:48:12 +0000
Subject: [PATCH 056/133] fix: tiny and huge angles do not overflow in
 PiRational

---
 src/zx/Rational.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/zx/Rational.cpp b/src/zx/Rational.cpp
index 3abc4fe..0b89ab7 100644
--- a/src/zx/Rational.cpp
+++ b/src/zx/Rational.cpp
@@ -26,14 +26,14 @@ PiRational::PiRational(double val) {
   const double multPi = PI / val;
   const double nearest = std::round(multPi);
   if (std::abs(nearest - multPi) < PARAMETER_TOLERANCE) {
-    auto denom = static_cast<int>(nearest);
-    frac = Rational(1, denom);
+    const auto denom = static_cast<std::int64_t>(nearest);
+    frac = Rational(std::int64_t{1}, denom);
     modPi();
     return;
   }
 
   val /= PI;
-  val -= 2 * static_cast<int>(val / 2);
+  val -= 2 * std::trunc(val / 2);
   if (val > 1) {
     val -= 2;
   } else if (val <= -1) {
-- 
2.43.0


From ca25b0401152a26b151910ca758827432bc00239 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 19:48:12 +0000
Subject: [PATCH 057/133] fix: PiRational reduces any number of full turns

---
 src/zx/Rational.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/zx/Rational.cpp b/src/zx/Rational.cpp
index 0b89ab7..73cc08d 100644
--- a/src/zx/Rational.cpp
+++ b/src/zx/Rational.cpp
@@ -92,6 +92,10 @@ PiRational& PiRational::operator/=(const int64_t rhs) {
 }
 
 void PiRational::modPi() {
+  const BigInt turns = getNum() / (2 * getDenom());
+  if (turns != 0) {
+    frac -= 2 * turns;
+  }
   if (*this > 1) {
     frac = Rational(getNum() - (2 * getDenom()), getDenom());
   } else if (*this <= -1) {
-- 
2.43.0


From 4d528d7c2e5141a8f2cbdbf378b1360ad0e63a2e Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 19:48:12 +0000
Subject: [PATCH 058/133] fix: the adjacency matrix covers vertices after
 deleted ones

---
 src/zx/ZXDiagram.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zx/ZXDiagram.cpp b/src/zx/ZXDiagram.cpp
index 8aa5598..e05bc15 100644
--- a/src/zx/ZXDiagram.cpp
+++ b/src/zx/ZXDiagram.cpp
@@ -396,7 +396,7 @@ void ZXDiagram::addGlobalPhase(const PiExpression& phase) {
 }
 
 gf2Mat ZXDiagram::getAdjMat() const {
-  gf2Mat adjMat{nvertices, gf2Vec(nvertices, false)};
+  gf2Mat adjMat{vertices.size(), gf2Vec(vertices.size(), false)};
   for (const auto& [from, to] : getEdges()) {
     adjMat[from][to] = true;
     adjMat[to][from] = true;
-- 
2.43.0


From 5617a0e9f18e86c10cbe66de71a787b0570fd5b7 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 20:14:49 +0000
Subject: [PATCH 059/133] fix: removing and re-adding qubits keeps the flags of
 the other qubits

---
 src/ir/QuantumComputation.cpp | 73 +++++++++++++++++++++--------------
 1 file changed, 43 insertions(+), 30 deletions(-)

diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index d670e9e..d58dbe4 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -413,6 +413,7 @@ std::pair<Qubit, std::optional<Qubit>>
 QuantumComputation::removeQubit(const Qubit logicalQubitIndex) {
   // Find index of the physical qubit i is assigned to
   const auto physicalQubitIndex = getPhysicalQubitIndex(logicalQubitIndex);
+  const bool isAncillary = ancillary.at(logicalQubitIndex);
 
   // get register and register-index of the corresponding qubit
   auto& reg = getQubitRegister(physicalQubitIndex);
@@ -420,17 +421,16 @@ QuantumComputation::removeQubit(const Qubit logicalQubitIndex) {
 
   if (physicalQubitIsAncillary(physicalQubitIndex)) {
     removeQubitfromQubitRegister(ancillaRegisters, reg, idx);
-    // reduce ancilla count
-    nancillae--;
   } else {
     removeQubitfromQubitRegister(quantumRegisters, reg, idx);
-    // reduce qubit count
-    if (ancillary.at(logicalQubitIndex)) {
-      // if the qubit is ancillary, it is not counted as a qubit
-      nancillae--;
-    } else {
-      nqubits--;
-    }
+  }
+
+  // reduce qubit count
+  if (isAncillary) {
+    // if the qubit is ancillary, it is not counted as a qubit
+    nancillae--;
+  } else {
+    nqubits--;
   }
 
   // adjust initial layout permutation
@@ -445,15 +445,17 @@ QuantumComputation::removeQubit(const Qubit logicalQubitIndex) {
     outputPermutation.erase(physicalQubitIndex);
   }
 
-  // update ancillary and garbage tracking
-  const auto totalQubits = nqubits + nancillae;
-  for (std::size_t i = logicalQubitIndex; i < totalQubits; ++i) {
-    ancillary[i] = ancillary[i + 1];
-    garbage[i] = garbage[i + 1];
+  // update ancillary and garbage tracking; the remaining logical qubits keep
+  // their indices
+  ancillary[logicalQubitIndex] = false;
+  garbage[logicalQubitIndex] = false;
+  const auto numIndices = initialLayout.empty()
+                              ? std::size_t{0}
+                              : std::size_t{initialLayout.maxValue()} + 1;
+  if (numIndices < ancillary.size()) {
+    ancillary.resize(numIndices);
+    garbage.resize(numIndices);
   }
-  // unset last entry
-  ancillary[totalQubits] = false;
-  garbage[totalQubits] = false;
 
   return {physicalQubitIndex, outputQubitIndex};
 }
@@ -516,6 +518,25 @@ void QuantumComputation::addQubit(const Qubit logicalQubitIndex,
 
   addQubitToQubitRegister(quantumRegisters, physicalQubitIndex, "q");
 
+  if (logicalQubitIndex >= ancillary.size()) {
+    ancillary.resize(logicalQubitIndex + 1U);
+    garbage.resize(logicalQubitIndex + 1U);
+  }
+
+  // make room for the new logical qubit if its index is already in use
+  if (containsLogicalQubit(logicalQubitIndex).first) {
+    for (auto* const permutation : {&initialLayout, &outputPermutation}) {
+      for (auto& [physical, logical] : *permutation) {
+        if (logical >= logicalQubitIndex) {
+          ++logical;
+        }
+      }
+    }
+    const auto offset = static_cast<std::ptrdiff_t>(logicalQubitIndex);
+    ancillary.insert(ancillary.begin() + offset, false);
+    garbage.insert(garbage.begin() + offset, false);
+  }
+
   // increase qubit count
   nqubits++;
   // adjust initial layout
@@ -524,18 +545,6 @@ void QuantumComputation::addQubit(const Qubit logicalQubitIndex,
     // adjust output permutation
     outputPermutation.emplace(physicalQubitIndex, *outputQubitIndex);
   }
-
-  // update ancillary and garbage tracking
-  const auto totalQubits = nqubits + nancillae;
-  ancillary.resize(totalQubits);
-  garbage.resize(totalQubits);
-  for (auto i = totalQubits - 1; i > logicalQubitIndex; --i) {
-    ancillary[i] = ancillary[i - 1];
-    garbage[i] = garbage[i - 1];
-  }
-  // unset new entry
-  ancillary[logicalQubitIndex] = false;
-  garbage[logicalQubitIndex] = false;
 }
 QuantumComputation
 QuantumComputation::instantiate(const VariableAssignment& assignment) const {
@@ -779,7 +788,11 @@ void QuantumComputation::stripIdleQubits(bool force) {
 
       removeQubit(logicalQubitIndex);
 
-      if (logicalQubitIndex < nqubits + nancillae) {
+      // close the gap in the logical qubit indices
+      if (logicalQubitIndex < ancillary.size()) {
+        const auto offset = static_cast<std::ptrdiff_t>(logicalQubitIndex);
+        ancillary.erase(ancillary.begin() + offset);
+        garbage.erase(garbage.begin() + offset);
         for (auto& [physical, logical] : initialLayout) {
           if (logical > logicalQubitIndex) {
             --logical;
-- 
2.43.0


From 9b8c76ea7a46a895367ac5d25afada48392cebc4 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 20:15:16 +0000
Subject: [PATCH 060/133] fix: qubit registers keep distinct names when they
 are split, fused or added

---
 src/ir/QuantumComputation.cpp | 69 ++++++++++++++++++++++++-----------
 1 file changed, 47 insertions(+), 22 deletions(-)

diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index d58dbe4..10d9175 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -73,7 +73,16 @@ void printSortedRegisters(
   }
 }
 
-void consolidateRegister(QuantumRegisterMap& regs) {
+/// Whether a quantum or an ancilla register of the given name exists
+bool isRegisterName(const QuantumRegisterMap& regs,
+                    const QuantumRegisterMap& otherRegs,
+                    const std::string& name) {
+  return regs.find(name) != regs.end() ||
+         otherRegs.find(name) != otherRegs.end();
+}
+
+void consolidateRegister(QuantumRegisterMap& regs,
+                         const QuantumRegisterMap& otherRegs) {
   bool finished = regs.empty();
   while (!finished) {
     for (const auto& [name, qreg] : regs) {
@@ -88,10 +97,11 @@ void consolidateRegister(QuantumRegisterMap& regs) {
           auto& highReg = it->second;
           auto highidx = highReg.getStartIndex();
           auto highnum = highReg.getSize();
+          auto targetname = name.substr(0, name.size() - 2);
           // fusion of registers possible
-          if (lowidx + lownum == highidx) {
+          if (lowidx + lownum == highidx &&
+              !isRegisterName(regs, otherRegs, targetname)) {
             finished = false;
-            auto targetname = name.substr(0, name.size() - 2);
             auto targetidx = lowidx;
             auto targetnum = lownum + highnum;
             regs.erase(name);
@@ -112,17 +122,19 @@ void consolidateRegister(QuantumRegisterMap& regs) {
  * existing register. Removals in the middle of a register split the register
  * into two new registers. The new registers are named by appending "_l" and
  * "_h" to the original register name.
- * @param regs A collection of all the registers
+ * @param regs A collection of all the registers of the respective kind
+ * @param otherRegs A collection of all the registers of the other kind
  * @param reg The name of the register containing the qubit to be removed
  * @param idx The index of the qubit in the register to be removed
  */
 void removeQubitfromQubitRegister(QuantumRegisterMap& regs,
+                                  const QuantumRegisterMap& otherRegs,
                                   QuantumRegister& reg, const Qubit idx) {
   if (idx == 0) {
     // last remaining qubit of register
     if (reg.getSize() == 1) {
       // delete register
-      regs.erase(reg.getName());
+      regs.erase(regs.find(reg.getName()));
     }
     // first qubit of register
     else {
@@ -136,14 +148,19 @@ void removeQubitfromQubitRegister(QuantumRegisterMap& regs,
   } else {
     const auto startIndex = reg.getStartIndex();
     const auto count = reg.getSize();
-    const auto lowPart = reg.getName() + "_l";
+    auto baseName = reg.getName();
+    while (isRegisterName(regs, otherRegs, baseName + "_l") ||
+           isRegisterName(regs, otherRegs, baseName + "_h")) {
+      baseName += "_";
+    }
+    const auto lowPart = baseName + "_l";
     const auto lowIndex = startIndex;
     const auto lowCount = idx;
-    const auto highPart = reg.getName() + "_h";
+    const auto highPart = baseName + "_h";
     const auto highIndex = startIndex + idx + 1;
     const auto highCount = count - idx - 1;
 
-    regs.erase(reg.getName());
+    regs.erase(regs.find(reg.getName()));
     regs.try_emplace(lowPart, lowIndex, lowCount, lowPart);
     regs.try_emplace(highPart, highIndex, highCount, highPart);
   }
@@ -155,11 +172,14 @@ void removeQubitfromQubitRegister(QuantumRegisterMap& regs,
  * default name. If the qubit can be appended to the start or the end of an
  * existing register, it is appended. Otherwise a new register is created with
  * the default name and the qubit index appended.
- * @param regs A collection of all the registers
+ * @param regs A collection of all the registers of the respective kind
+ * @param otherRegs A collection of all the registers of the other kind
  * @param physicalQubitIndex The index of the qubit to be added
  * @param defaultRegName The default name of the register to be created
  */
-void addQubitToQubitRegister(QuantumRegisterMap& regs, Qubit physicalQubitIndex,
+void addQubitToQubitRegister(QuantumRegisterMap& regs,
+                             const QuantumRegisterMap& otherRegs,
+                             Qubit physicalQubitIndex,
                              const std::string& defaultRegName) {
   auto fusionPossible = false;
   for (auto& [name, reg] : regs) {
@@ -180,13 +200,16 @@ void addQubitToQubitRegister(QuantumRegisterMap& regs, Qubit physicalQubitIndex,
     }
   }
 
-  consolidateRegister(regs);
+  consolidateRegister(regs, otherRegs);
 
-  if (regs.empty()) {
-    regs.try_emplace(defaultRegName, physicalQubitIndex, 1, defaultRegName);
-  } else if (!fusionPossible) {
-    const auto newRegName =
-        defaultRegName + "_" + std::to_string(physicalQubitIndex);
+  if (!fusionPossible) {
+    auto newRegName = defaultRegName;
+    if (!regs.empty() || isRegisterName(regs, otherRegs, newRegName)) {
+      newRegName += "_" + std::to_string(physicalQubitIndex);
+    }
+    while (isRegisterName(regs, otherRegs, newRegName)) {
+      newRegName += "_";
+    }
     regs.try_emplace(newRegName, physicalQubitIndex, 1, newRegName);
   }
 }
@@ -334,7 +357,7 @@ void QuantumComputation::initializeIOMapping() {
 const QuantumRegister&
 QuantumComputation::addQubitRegister(std::size_t nq,
                                      const std::string& regName) {
-  if (quantumRegisters.count(regName) != 0) {
+  if (isRegisterName(quantumRegisters, ancillaRegisters, regName)) {
     throw std::runtime_error("[addQubitRegister] Register " + regName +
                              " already exists");
   }
@@ -385,7 +408,7 @@ QuantumComputation::addClassicalRegister(std::size_t nc,
 const QuantumRegister&
 QuantumComputation::addAncillaryRegister(std::size_t nq,
                                          const std::string& regName) {
-  if (ancillaRegisters.count(regName) != 0) {
+  if (isRegisterName(quantumRegisters, ancillaRegisters, regName)) {
     throw std::runtime_error("[addAncillaryRegister] Register " + regName +
                              " already exists");
   }
@@ -420,9 +443,9 @@ QuantumComputation::removeQubit(const Qubit logicalQubitIndex) {
   const auto& idx = reg.getLocalIndex(physicalQubitIndex);
 
   if (physicalQubitIsAncillary(physicalQubitIndex)) {
-    removeQubitfromQubitRegister(ancillaRegisters, reg, idx);
+    removeQubitfromQubitRegister(ancillaRegisters, quantumRegisters, reg, idx);
   } else {
-    removeQubitfromQubitRegister(quantumRegisters, reg, idx);
+    removeQubitfromQubitRegister(quantumRegisters, ancillaRegisters, reg, idx);
   }
 
   // reduce qubit count
@@ -471,7 +494,8 @@ void QuantumComputation::addAncillaryQubit(
         "qubit that is already assigned");
   }
 
-  addQubitToQubitRegister(ancillaRegisters, physicalQubitIndex, "anc");
+  addQubitToQubitRegister(ancillaRegisters, quantumRegisters,
+                          physicalQubitIndex, "anc");
 
   // index of logical qubit
   const auto logicalQubitIndex = nqubits + nancillae;
@@ -516,7 +540,8 @@ void QuantumComputation::addQubit(const Qubit logicalQubitIndex,
     // register could be created and all ancillaries shifted
   }
 
-  addQubitToQubitRegister(quantumRegisters, physicalQubitIndex, "q");
+  addQubitToQubitRegister(quantumRegisters, ancillaRegisters,
+                          physicalQubitIndex, "q");
 
   if (logicalQubitIndex >= ancillary.size()) {
     ancillary.resize(logicalQubitIndex + 1U);
-- 
2.43.0


From cb7a9f18f52fc3abec58d8e9adad59e625e36831 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 20:15:43 +0000
Subject: [PATCH 061/133] fix: added registers do not overlap existing qubits

---
 include/mqt-core/ir/QuantumComputation.hpp |  6 ++
 src/ir/QuantumComputation.cpp              | 73 +++++++++++++++-------
 2 files changed, 57 insertions(+), 22 deletions(-)

diff --git a/include/mqt-core/ir/QuantumComputation.hpp b/include/mqt-core/ir/QuantumComputation.hpp
index bbd9a2d..ba74c2b 100644
--- a/include/mqt-core/ir/QuantumComputation.hpp
+++ b/include/mqt-core/ir/QuantumComputation.hpp
@@ -487,6 +487,12 @@ public:
   [[nodiscard]] bool isDynamic() const;
 
 protected:
+  /// Returns the physical qubit index following all existing ones
+  [[nodiscard]] Qubit getNextPhysicalQubitIndex() const;
+  /// Returns the smallest logical qubit indices that are not in use
+  [[nodiscard]] std::vector<Qubit>
+  getUnusedLogicalQubitIndices(std::size_t count) const;
+
   [[nodiscard]] std::size_t getSmallestAncillary() const {
     for (std::size_t i = 0; i < ancillary.size(); ++i) {
       if (ancillary[i]) {
diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index 10d9175..219bcf9 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -373,16 +373,19 @@ QuantumComputation::addQubitRegister(std::size_t nq,
         "qubits have been added");
   }
 
-  quantumRegisters.try_emplace(regName, static_cast<Qubit>(nqubits), nq,
-                               regName);
-  for (std::size_t i = 0; i < nq; ++i) {
-    auto j = static_cast<Qubit>(nqubits + i);
-    initialLayout.emplace(j, j);
-    outputPermutation.emplace(j, j);
+  const auto startIndex = getNextPhysicalQubitIndex();
+  quantumRegisters.try_emplace(regName, startIndex, nq, regName);
+  auto physical = startIndex;
+  for (const auto logical : getUnusedLogicalQubitIndices(nq)) {
+    initialLayout.emplace(physical, logical);
+    outputPermutation.emplace(physical, logical);
+    ++physical;
+    if (logical >= ancillary.size()) {
+      ancillary.resize(logical + 1U);
+      garbage.resize(logical + 1U);
+    }
   }
   nqubits += nq;
-  ancillary.resize(nqubits + nancillae);
-  garbage.resize(nqubits + nancillae);
   return quantumRegisters.at(regName);
 }
 
@@ -418,15 +421,18 @@ QuantumComputation::addAncillaryRegister(std::size_t nq,
         "[addAncillaryRegister] New register size must be larger than 0");
   }
 
-  const auto totalqubits = static_cast<Qubit>(nqubits + nancillae);
-  ancillaRegisters.try_emplace(regName, totalqubits, nq, regName);
-  ancillary.resize(totalqubits + nq);
-  garbage.resize(totalqubits + nq);
-  for (std::size_t i = 0; i < nq; ++i) {
-    auto j = static_cast<Qubit>(totalqubits + i);
-    initialLayout.emplace(j, j);
-    outputPermutation.emplace(j, j);
-    ancillary[j] = true;
+  const auto startIndex = getNextPhysicalQubitIndex();
+  ancillaRegisters.try_emplace(regName, startIndex, nq, regName);
+  auto physical = startIndex;
+  for (const auto logical : getUnusedLogicalQubitIndices(nq)) {
+    initialLayout.emplace(physical, logical);
+    outputPermutation.emplace(physical, logical);
+    ++physical;
+    if (logical >= ancillary.size()) {
+      ancillary.resize(logical + 1U);
+      garbage.resize(logical + 1U);
+    }
+    ancillary[logical] = true;
   }
   nancillae += nq;
   return ancillaRegisters.at(regName);
@@ -498,19 +504,20 @@ void QuantumComputation::addAncillaryQubit(
                           physicalQubitIndex, "anc");
 
   // index of logical qubit
-  const auto logicalQubitIndex = nqubits + nancillae;
+  const auto logicalQubitIndex = getUnusedLogicalQubitIndices(1).front();
 
   // resize ancillary and garbage tracking vectors
-  ancillary.resize(logicalQubitIndex + 1U);
-  garbage.resize(logicalQubitIndex + 1U);
+  if (logicalQubitIndex >= ancillary.size()) {
+    ancillary.resize(logicalQubitIndex + 1U);
+    garbage.resize(logicalQubitIndex + 1U);
+  }
 
   // increase ancillae count and mark as ancillary
   nancillae++;
   ancillary[logicalQubitIndex] = true;
 
   // adjust initial layout
-  initialLayout.emplace(physicalQubitIndex,
-                        static_cast<Qubit>(logicalQubitIndex));
+  initialLayout.emplace(physicalQubitIndex, logicalQubitIndex);
 
   // adjust output permutation
   if (outputQubitIndex.has_value()) {
@@ -882,6 +889,28 @@ Qubit QuantumComputation::getHighestPhysicalQubitIndex() const {
   return initialLayout.maxKey();
 }
 
+Qubit QuantumComputation::getNextPhysicalQubitIndex() const {
+  return initialLayout.empty() ? 0 : initialLayout.maxKey() + 1;
+}
+
+std::vector<Qubit> QuantumComputation::getUnusedLogicalQubitIndices(
+    const std::size_t count) const {
+  std::vector<bool> used(initialLayout.size() + count, false);
+  for (const auto& [physical, logical] : initialLayout) {
+    if (logical < used.size()) {
+      used[logical] = true;
+    }
+  }
+  std::vector<Qubit> indices{};
+  indices.reserve(count);
+  for (Qubit logical = 0; indices.size() < count; ++logical) {
+    if (!used[logical]) {
+      indices.emplace_back(logical);
+    }
+  }
+  return indices;
+}
+
 bool QuantumComputation::physicalQubitIsAncillary(
     const Qubit physicalQubitIndex) const {
   return std::any_of(ancillaRegisters.cbegin(), ancillaRegisters.cend(),
-- 
2.43.0


From 085e1616c9868322ed5b9c57e68b6fbd45a91bc4 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 20:16:18 +0000
Subject: [PATCH 062/133] fix: flagging a logical qubit that does not exist is
 rejected

---
 include/mqt-core/ir/QuantumComputation.hpp |  5 +++--
 src/ir/QuantumComputation.cpp              | 14 ++++++++++++++
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/mqt-core/ir/QuantumComputation.hpp b/include/mqt-core/ir/QuantumComputation.hpp
index ba74c2b..8dc4db8 100644
--- a/include/mqt-core/ir/QuantumComputation.hpp
+++ b/include/mqt-core/ir/QuantumComputation.hpp
@@ -158,7 +158,7 @@ public:
   [[nodiscard]] bool physicalQubitIsAncillary(Qubit physicalQubitIndex) const;
   [[nodiscard]] bool
   logicalQubitIsAncillary(const Qubit logicalQubitIndex) const {
-    return ancillary[logicalQubitIndex];
+    return ancillary.at(logicalQubitIndex);
   }
   /**
    * @brief Sets the given logical qubit to be ancillary
@@ -181,7 +181,7 @@ public:
                                  Qubit maxLogicalQubitIndex);
   [[nodiscard]] bool
   logicalQubitIsGarbage(const Qubit logicalQubitIndex) const {
-    return garbage[logicalQubitIndex];
+    return garbage.at(logicalQubitIndex);
   }
   void setLogicalQubitGarbage(Qubit logicalQubitIndex);
   /**
@@ -519,6 +519,7 @@ protected:
   void checkQubitRange(Qubit qubit0, Qubit qubit1,
                        const Controls& controls) const;
   void checkQubitRange(const std::vector<Qubit>& qubits) const;
+  void checkLogicalQubitRange(Qubit minLogical, Qubit maxLogical) const;
   void checkBitRange(Bit bit) const;
   void checkBitRange(const std::vector<Bit>& bits) const;
   void checkClassicalRegister(const ClassicalRegister& creg) const;
diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index 219bcf9..ecf2f22 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -921,6 +921,7 @@ bool QuantumComputation::physicalQubitIsAncillary(
 
 void QuantumComputation::setLogicalQubitAncillary(
     const Qubit logicalQubitIndex) {
+  checkLogicalQubitRange(logicalQubitIndex, logicalQubitIndex);
   if (logicalQubitIsAncillary(logicalQubitIndex)) {
     return;
   }
@@ -932,12 +933,14 @@ void QuantumComputation::setLogicalQubitAncillary(
 
 void QuantumComputation::setLogicalQubitsAncillary(
     const Qubit minLogicalQubitIndex, const Qubit maxLogicalQubitIndex) {
+  checkLogicalQubitRange(minLogicalQubitIndex, maxLogicalQubitIndex);
   for (Qubit i = minLogicalQubitIndex; i <= maxLogicalQubitIndex; i++) {
     setLogicalQubitAncillary(i);
   }
 }
 
 void QuantumComputation::setLogicalQubitGarbage(const Qubit logicalQubitIndex) {
+  checkLogicalQubitRange(logicalQubitIndex, logicalQubitIndex);
   garbage[logicalQubitIndex] = true;
   // setting a logical qubit garbage also means removing it from the output
   // permutation if it was present before
@@ -952,6 +955,7 @@ void QuantumComputation::setLogicalQubitGarbage(const Qubit logicalQubitIndex) {
 
 void QuantumComputation::setLogicalQubitsGarbage(
     const Qubit minLogicalQubitIndex, const Qubit maxLogicalQubitIndex) {
+  checkLogicalQubitRange(minLogicalQubitIndex, maxLogicalQubitIndex);
   for (Qubit i = minLogicalQubitIndex; i <= maxLogicalQubitIndex; i++) {
     setLogicalQubitGarbage(i);
   }
@@ -1057,6 +1061,16 @@ void QuantumComputation::checkQubitRange(
   }
 }
 
+void QuantumComputation::checkLogicalQubitRange(const Qubit minLogical,
+                                                const Qubit maxLogical) const {
+  for (auto logical = minLogical; logical <= maxLogical; ++logical) {
+    if (logical >= ancillary.size() || !containsLogicalQubit(logical).first) {
+      throw std::out_of_range("Logical qubit index out of range: " +
+                              std::to_string(logical));
+    }
+  }
+}
+
 void QuantumComputation::checkBitRange(const Bit bit) const {
   if (bit >= nclassics) {
     std::stringstream ss{};
-- 
2.43.0


From a3465e29da6c05da86a5b3ffa8337da760b13a95 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 20:16:18 +0000
Subject: [PATCH 063/133] fix: unifying registers covers exactly the qubits of
 the circuit

---
 src/ir/QuantumComputation.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index ecf2f22..edd3d28 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -1004,11 +1004,20 @@ bool QuantumComputation::isLastOperationOnQubit(
 
 const QuantumRegister&
 QuantumComputation::unifyQuantumRegisters(const std::string& regName) {
+  const auto startIndex =
+      initialLayout.empty() ? Qubit{0} : initialLayout.begin()->first;
+  if (initialLayout.empty() ||
+      getNextPhysicalQubitIndex() - startIndex != initialLayout.size()) {
+    throw std::runtime_error("[unifyQuantumRegisters] Only consecutive "
+                             "qubits can be unified in a single register");
+  }
   ancillaRegisters.clear();
   quantumRegisters.clear();
   nqubits += nancillae;
   nancillae = 0;
-  quantumRegisters.try_emplace(regName, 0, nqubits, regName);
+  // the register consists of regular qubits only
+  ancillary.assign(ancillary.size(), false);
+  quantumRegisters.try_emplace(regName, startIndex, nqubits, regName);
   return quantumRegisters.at(regName);
 }
 
-- 
2.43.0


From 15d5067e7b4f9081334d9b2c2a3a9e9dff8876ed Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 20:16:18 +0000
Subject: [PATCH 064/133] fix: barriers and measurements cover exactly the
 qubits of the circuit

---
 src/ir/QuantumComputation.cpp | 43 ++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 18 deletions(-)

diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index edd3d28..8c520e5 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -34,7 +34,6 @@
 #include <iterator>
 #include <map>
 #include <memory>
-#include <numeric>
 #include <optional>
 #include <ostream>
 #include <random>
@@ -1023,17 +1022,23 @@ QuantumComputation::unifyQuantumRegisters(const std::string& regName) {
 
 void QuantumComputation::appendMeasurementsAccordingToOutputPermutation(
     const std::string& registerName) {
+  for (const auto& [qubit, clbit] : outputPermutation) {
+    checkQubitRange(qubit);
+  }
   // ensure that the circuit contains enough classical registers
+  const auto numBits = outputPermutation.empty()
+                           ? std::size_t{0}
+                           : std::size_t{outputPermutation.maxValue()} + 1;
   if (classicalRegisters.empty()) {
     // in case there are no registers, create a new one
-    addClassicalRegister(outputPermutation.size(), registerName);
-  } else if (nclassics < outputPermutation.size()) {
+    addClassicalRegister(numBits, registerName);
+  } else if (nclassics < numBits) {
     if (classicalRegisters.find(registerName) != classicalRegisters.end()) {
       throw std::runtime_error(
           "[appendMeasurementsAccordingToOutputPermutation] Register " +
           registerName + " already exists but is too small");
     }
-    addClassicalRegister(outputPermutation.size() - nclassics, registerName);
+    addClassicalRegister(numBits - nclassics, registerName);
   }
   barrier();
   // append measurements according to output permutation
@@ -1635,27 +1640,26 @@ void QuantumComputation::measure(const Targets& qubits,
 }
 
 void QuantumComputation::measureAll(const bool addBits) {
+  // qubit indices are not necessarily consecutive
+  const auto numBits = addBits ? std::size_t{getNqubits()}
+                               : std::size_t{getNextPhysicalQubitIndex()};
+  std::size_t start = 0U;
   if (addBits) {
-    addClassicalRegister(getNqubits(), "meas");
-  }
-
-  if (nclassics < getNqubits()) {
+    start = addClassicalRegister(numBits, "meas").getStartIndex();
+  } else if (nclassics < numBits) {
     std::stringstream ss{};
     ss << "The number of classical bits (" << nclassics
-       << ") is smaller than the number of qubits (" << getNqubits() << ")!";
+       << ") is smaller than the number of qubits (" << numBits << ")!";
     throw std::runtime_error(ss.str());
   }
 
   barrier();
-  Qubit start = 0U;
-  if (addBits) {
-    start = static_cast<Qubit>(classicalRegisters.at("meas").getStartIndex());
-  }
   // measure i -> (start+i) in descending order
   // (this is an optimization for the simulator)
-  for (std::size_t i = getNqubits(); i > 0; --i) {
-    const auto q = static_cast<Qubit>(i - 1);
-    measure(q, start + q);
+  auto bit = start + numBits;
+  for (auto it = initialLayout.crbegin(); it != initialLayout.crend(); ++it) {
+    const auto q = it->first;
+    measure(q, addBits ? --bit : q);
   }
 }
 
@@ -1668,8 +1672,11 @@ void QuantumComputation::reset(const Targets& targets) {
   emplace_back<NonUnitaryOperation>(targets, Reset);
 }
 void QuantumComputation::barrier() {
-  std::vector<Qubit> targets(getNqubits());
-  std::iota(targets.begin(), targets.end(), 0);
+  std::vector<Qubit> targets{};
+  targets.reserve(initialLayout.size());
+  for (const auto& [physical, logical] : initialLayout) {
+    targets.emplace_back(physical);
+  }
   emplace_back<StandardOperation>(targets, Barrier);
 }
 void QuantumComputation::barrier(const Qubit target) {
-- 
2.43.0


From fb6609fa58cf84db3bc44a63373db6c3d91127a2 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 20:16:47 +0000
Subject: [PATCH 065/133] fix: resetting a circuit clears its flags, global
 phase and variables

---
 src/ir/QuantumComputation.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index 8c520e5..aacf7f6 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -767,6 +767,10 @@ void QuantumComputation::reset() {
   ancillaRegisters.clear();
   initialLayout.clear();
   outputPermutation.clear();
+  ancillary.clear();
+  garbage.clear();
+  globalPhase = 0.;
+  occurringVariables.clear();
 }
 
 void QuantumComputation::dump(const std::string& filename,
-- 
2.43.0


From 8e0475e7c1cbec51516d0e0db8319be10eb4be00 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 20:16:47 +0000
Subject: [PATCH 066/133] fix: the IO mapping accepts measurements of qubits
 that were no outputs

---
 src/ir/QuantumComputation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index aacf7f6..ca0439a 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -300,7 +300,7 @@ void QuantumComputation::initializeIOMapping() {
         }
 
         const auto bitidx = *classicIt;
-        if (outputPermutationFound) {
+        if (outputPermutationFound && outputPermutation.count(qubitidx) != 0) {
           // output permutation was already set before -> permute existing
           // values
           if (const auto current = outputPermutation.at(qubitidx);
@@ -335,7 +335,7 @@ void QuantumComputation::initializeIOMapping() {
     }
   }
 
-  garbage.assign(nqubits + nancillae, false);
+  garbage.assign(ancillary.size(), false);
   for (const auto& [physicalIn, logicalIn] : initialLayout) {
     // if the qubit is not an output, mark it as garbage
     const bool isOutput = std::any_of(
-- 
2.43.0


From 35591e93ccdf1c04abdb6a20694873beb49c1f61 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 20:16:57 +0000
Subject: [PATCH 067/133] fix: measuring all qubits counts the qubits of the
 layout

---
 src/ir/QuantumComputation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index ca0439a..985b8e1 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -1645,8 +1645,8 @@ void QuantumComputation::measure(const Targets& qubits,
 
 void QuantumComputation::measureAll(const bool addBits) {
   // qubit indices are not necessarily consecutive
-  const auto numBits = addBits ? std::size_t{getNqubits()}
-                               : std::size_t{getNextPhysicalQubitIndex()};
+  const auto numBits =
+      addBits ? initialLayout.size() : std::size_t{getNextPhysicalQubitIndex()};
   std::size_t start = 0U;
   if (addBits) {
     start = addClassicalRegister(numBits, "meas").getStartIndex();
-- 
2.43.0


From b02f174155c1c533206b1a0c0a54d323cedd403e Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 20:17:17 +0000
Subject: [PATCH 068/133] fix: adding any finite global phase terminates

---
 src/ir/QuantumComputation.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index 985b8e1..eb636e3 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -1402,14 +1402,15 @@ std::size_t QuantumComputation::getNgarbageQubits() const {
 ///---------------------------------------------------------------------------
 
 void QuantumComputation::gphase(const fp angle) {
-  globalPhase += angle;
-  // normalize to [0, 2pi)
-  while (globalPhase < 0) {
-    globalPhase += 2 * PI;
+  if (!std::isfinite(angle)) {
+    throw std::invalid_argument("Global phase must be finite.");
   }
-  while (globalPhase >= 2 * PI) {
-    globalPhase -= 2 * PI;
+  // normalize to [0, 2pi)
+  auto phase = std::fmod(globalPhase + std::fmod(angle, 2 * PI), 2 * PI);
+  if (phase < 0) {
+    phase += 2 * PI;
   }
+  globalPhase = phase < 2 * PI ? phase : 0.;
 }
 
 #define DEFINE_SINGLE_TARGET_OPERATION(op)                                     \
-- 
2.43.0


From 8017e99a82818014aebe90bcd43f30ff385260e2 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 20:17:17 +0000
Subject: [PATCH 069/133] fix: inverting a circuit negates its global phase or
 changes nothing

---
 src/algorithms/StatePreparation.cpp |  2 +-
 src/ir/QuantumComputation.cpp       | 13 +++++++++----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/algorithms/StatePreparation.cpp b/src/algorithms/StatePreparation.cpp
index e99c5ad..3c19e85 100644
--- a/src/algorithms/StatePreparation.cpp
+++ b/src/algorithms/StatePreparation.cpp
@@ -266,7 +266,7 @@ gatesToUncompute(std::vector<std::complex<double>>& amplitudes,
   double const arg = std::arg(std::accumulate(
       amplitudes.begin(), amplitudes.end(), std::complex<double>(0, 0)));
   if (std::abs(arg) > eps) {
-    disentangler.gphase(arg);
+    disentangler.gphase(-arg);
   }
   return disentangler;
 }
diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index eb636e3..02d4dd8 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -585,10 +585,15 @@ QuantumComputation::instantiate(const VariableAssignment& assignment) const {
 }
 
 void QuantumComputation::invert() {
-  for (const auto& op : ops) {
-    op->invert();
-  }
-  std::reverse(ops.begin(), ops.end());
+  // invert copies of the operations so that nothing changes if one of the
+  // operations cannot be inverted
+  std::vector<std::unique_ptr<Operation>> inverted{};
+  inverted.reserve(ops.size());
+  std::for_each(ops.crbegin(), ops.crend(), [&inverted](const auto& op) {
+    inverted.emplace_back(op->getInverted());
+  });
+  ops = std::move(inverted);
+  gphase(-2 * globalPhase);
 
   if (initialLayout.size() == outputPermutation.size()) {
     std::swap(initialLayout, outputPermutation);
-- 
2.43.0


From 2de6fba99d9d88604904d2d81a1ec331180b307d Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 20:17:17 +0000
Subject: [PATCH 070/133] fix: a failed copy assignment leaves the circuit as
 it was

---
 src/ir/QuantumComputation.cpp | 24 +++---------------------
 1 file changed, 3 insertions(+), 21 deletions(-)

diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index 02d4dd8..deab6ea 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -1161,27 +1161,9 @@ QuantumComputation::QuantumComputation(const QuantumComputation& qc)
 QuantumComputation&
 QuantumComputation::operator=(const QuantumComputation& qc) {
   if (this != &qc) {
-    nqubits = qc.nqubits;
-    nclassics = qc.nclassics;
-    nancillae = qc.nancillae;
-    name = qc.name;
-    quantumRegisters = qc.quantumRegisters;
-    classicalRegisters = qc.classicalRegisters;
-    ancillaRegisters = qc.ancillaRegisters;
-    mt = qc.mt;
-    seed = qc.seed;
-    globalPhase = qc.globalPhase;
-    occurringVariables = qc.occurringVariables;
-    initialLayout = qc.initialLayout;
-    outputPermutation = qc.outputPermutation;
-    ancillary = qc.ancillary;
-    garbage = qc.garbage;
-
-    ops.clear();
-    ops.reserve(qc.ops.size());
-    for (const auto& op : qc.ops) {
-      emplace_back(op->clone());
-    }
+    // nothing changes if copying fails
+    auto copy = qc;
+    *this = std::move(copy);
   }
   return *this;
 }
-- 
2.43.0


From c1f0d774bdce7a480d9a8196e1d1fcb10de2c25c Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 20:17:18 +0000
Subject: [PATCH 071/133] fix: instantiating a circuit covers nested operations
 or changes nothing

---
 src/ir/QuantumComputation.cpp | 41 +++++++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 11 deletions(-)

diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index deab6ea..eeecc4c 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -1182,21 +1182,40 @@ bool QuantumComputation::isVariableFree() const {
                      [](const auto& op) { return !op->isSymbolicOperation(); });
 }
 
+namespace {
+void instantiateOperation(std::unique_ptr<Operation>& op,
+                          const VariableAssignment& assignment) {
+  if (auto* compOp = dynamic_cast<CompoundOperation*>(op.get());
+      compOp != nullptr) {
+    for (auto& subOp : *compOp) {
+      instantiateOperation(subOp, assignment);
+    }
+    return;
+  }
+  if (auto* symOp = dynamic_cast<SymbolicOperation*>(op.get());
+      symOp != nullptr) {
+    symOp->instantiate(assignment);
+    // if the operation is fully instantiated, it can be replaced by the
+    // corresponding standard operation
+    if (symOp->isStandardOperation()) {
+      op = std::make_unique<StandardOperation>(
+          *dynamic_cast<StandardOperation*>(symOp));
+    }
+  }
+}
+} // namespace
+
 // Instantiates this computation
 void QuantumComputation::instantiateInplace(
     const VariableAssignment& assignment) {
-  for (auto& op : ops) {
-    if (auto* symOp = dynamic_cast<SymbolicOperation*>(op.get());
-        symOp != nullptr) {
-      symOp->instantiate(assignment);
-      // if the operation is fully instantiated, it can be replaced by the
-      // corresponding standard operation
-      if (symOp->isStandardOperation()) {
-        op = std::make_unique<StandardOperation>(
-            *dynamic_cast<StandardOperation*>(symOp));
-      }
-    }
+  // work on copies so that nothing changes if a variable is not assigned
+  std::vector<std::unique_ptr<Operation>> instantiated{};
+  instantiated.reserve(ops.size());
+  for (const auto& op : ops) {
+    instantiated.emplace_back(op->clone());
+    instantiateOperation(instantiated.back(), assignment);
   }
+  ops = std::move(instantiated);
   // after an operation is instantiated, the respective parameters can be
   // removed from the circuit
   for (const auto& [var, _] : assignment) {
-- 
2.43.0


From 200b1e3613eeaac035a6b6506b5b0b5701f80ca5 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 20:18:14 +0000
Subject: [PATCH 072/133] fix: symbolic operations are compared in all their
 parts

---
 .../ir/operations/StandardOperation.hpp       |  3 +-
 .../ir/operations/SymbolicOperation.hpp       |  1 +
 src/ir/operations/SymbolicOperation.cpp       | 28 +++----------------
 3 files changed, 7 insertions(+), 25 deletions(-)

diff --git a/include/mqt-core/ir/operations/StandardOperation.hpp b/include/mqt-core/ir/operations/StandardOperation.hpp
index b488c4d..e8eaf95 100644
--- a/include/mqt-core/ir/operations/StandardOperation.hpp
+++ b/include/mqt-core/ir/operations/StandardOperation.hpp
@@ -108,7 +108,8 @@ public:
 
   [[nodiscard]] bool equals(const Operation& op, const Permutation& perm1,
                             const Permutation& perm2) const override {
-    return Operation::equals(op, perm1, perm2);
+    return isSymbolicOperation() == op.isSymbolicOperation() &&
+           Operation::equals(op, perm1, perm2);
   }
   [[nodiscard]] bool equals(const Operation& operation) const override {
     return equals(operation, {}, {});
diff --git a/include/mqt-core/ir/operations/SymbolicOperation.hpp b/include/mqt-core/ir/operations/SymbolicOperation.hpp
index 3345f53..86eb769 100644
--- a/include/mqt-core/ir/operations/SymbolicOperation.hpp
+++ b/include/mqt-core/ir/operations/SymbolicOperation.hpp
@@ -39,6 +39,7 @@ public:
 
   void setSymbolicParameter(const Symbolic& par, const std::size_t i) {
     symbolicParameter.at(i) = par;
+    parameter.at(i) = 0;
   }
 
   // Standard Constructors
diff --git a/src/ir/operations/SymbolicOperation.cpp b/src/ir/operations/SymbolicOperation.cpp
index 7496d98..33156ea 100644
--- a/src/ir/operations/SymbolicOperation.cpp
+++ b/src/ir/operations/SymbolicOperation.cpp
@@ -343,32 +343,12 @@ bool SymbolicOperation::isStandardOperation() const {
 
 bool SymbolicOperation::equals(const Operation& op, const Permutation& perm1,
                                const Permutation& perm2) const {
-  if (!op.isSymbolicOperation() && !isStandardOperation()) {
+  // type, numeric parameters, controls, and targets
+  if (!StandardOperation::equals(op, perm1, perm2)) {
     return false;
   }
-  if (isStandardOperation() && StandardOperation::equals(op, perm1, perm2)) {
-    return true;
-  }
-
-  if (!op.isSymbolicOperation()) {
-    return false;
-  }
-  const auto& symOp = dynamic_cast<const SymbolicOperation&>(op);
-  for (std::size_t i = 0; i < symbolicParameter.size(); ++i) {
-    const auto& symParam = symbolicParameter.at(i);
-    const auto& symOpParam = symOp.symbolicParameter.at(i);
-    const auto symParamIsSymbolic = symParam.has_value();
-    const auto symOpParamIsSymbolic = symOpParam.has_value();
-
-    if (symParamIsSymbolic != symOpParamIsSymbolic) {
-      return false;
-    }
-
-    if (symParamIsSymbolic) {
-      return symParam.value() == symOpParam.value();
-    }
-  }
-  return true;
+  const auto* const symOp = dynamic_cast<const SymbolicOperation*>(&op);
+  return symOp == nullptr || symbolicParameter == symOp->symbolicParameter;
 }
 
 [[noreturn]] void SymbolicOperation::dumpOpenQASM(
-- 
2.43.0


From 065e5131e488323fbe17016cb7a316de0f7b1fad Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 20:18:32 +0000
Subject: [PATCH 073/133] fix: a classically controlled compound operation uses
 its qubits

---
 .../ir/operations/ClassicControlledOperation.hpp  | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/mqt-core/ir/operations/ClassicControlledOperation.hpp b/include/mqt-core/ir/operations/ClassicControlledOperation.hpp
index d1f1c2c..7a6d892 100644
--- a/include/mqt-core/ir/operations/ClassicControlledOperation.hpp
+++ b/include/mqt-core/ir/operations/ClassicControlledOperation.hpp
@@ -22,7 +22,9 @@
 #include <memory>
 #include <optional>
 #include <ostream>
+#include <set>
 #include <string>
+#include <vector>
 
 namespace qc {
 
@@ -95,6 +97,19 @@ public:
     return op->getNcontrols();
   }
 
+  [[nodiscard]] auto getUsedQubitsPermuted(const Permutation& perm) const
+      -> std::set<Qubit> override {
+    return op->getUsedQubitsPermuted(perm);
+  }
+
+  void apply(const Permutation& permutation) override {
+    op->apply(permutation);
+  }
+
+  void addDepthContribution(std::vector<std::size_t>& depths) const override {
+    op->addDepthContribution(depths);
+  }
+
   [[nodiscard]] bool isUnitary() const override { return false; }
 
   [[nodiscard]] bool isClassicControlledOperation() const noexcept override {
-- 
2.43.0


From b8764dd6f23d5d92bc8edb831577830499e05a5f Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 20:18:32 +0000
Subject: [PATCH 074/133] fix: depth and order queries handle any qubit indices

---
 include/mqt-core/ir/QuantumComputation.hpp |  2 ++
 src/ir/QuantumComputation.cpp              | 39 ++++++++++------------
 2 files changed, 20 insertions(+), 21 deletions(-)

diff --git a/include/mqt-core/ir/QuantumComputation.hpp b/include/mqt-core/ir/QuantumComputation.hpp
index 8dc4db8..8a3537d 100644
--- a/include/mqt-core/ir/QuantumComputation.hpp
+++ b/include/mqt-core/ir/QuantumComputation.hpp
@@ -487,6 +487,8 @@ public:
   [[nodiscard]] bool isDynamic() const;
 
 protected:
+  /// Returns the highest qubit index of the initial layout and the operations
+  [[nodiscard]] std::size_t getHighestUsedQubitIndex() const;
   /// Returns the physical qubit index following all existing ones
   [[nodiscard]] Qubit getNextPhysicalQubitIndex() const;
   /// Returns the smallest logical qubit indices that are not in use
diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index eeecc4c..63f4655 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -262,7 +262,7 @@ std::size_t QuantumComputation::getDepth() const {
     return 0U;
   }
 
-  std::vector<std::size_t> depths(getNqubits(), 0U);
+  std::vector<std::size_t> depths(getHighestUsedQubitIndex() + 1U, 0U);
   for (const auto& op : ops) {
     op->addDepthContribution(depths);
   }
@@ -897,6 +897,17 @@ Qubit QuantumComputation::getHighestPhysicalQubitIndex() const {
   return initialLayout.maxKey();
 }
 
+std::size_t QuantumComputation::getHighestUsedQubitIndex() const {
+  auto highest = getHighestPhysicalQubitIndex();
+  for (const auto& op : ops) {
+    const auto usedQubits = op->getUsedQubits();
+    if (!usedQubits.empty()) {
+      highest = std::max(highest, *usedQubits.rbegin());
+    }
+  }
+  return highest;
+}
+
 Qubit QuantumComputation::getNextPhysicalQubitIndex() const {
   return initialLayout.empty() ? 0 : initialLayout.maxKey() + 1;
 }
@@ -987,27 +998,13 @@ bool QuantumComputation::isLastOperationOnQubit(
     return true;
   }
 
-  // determine which qubits the gate acts on
-  std::vector<bool> actson(nqubits + nancillae);
-  for (std::size_t i = 0; i < actson.size(); ++i) {
-    if ((*opIt)->actsOn(static_cast<Qubit>(i))) {
-      actson[i] = true;
-    }
-  }
-
   // iterate over remaining gates and check if any act on qubits overlapping
   // with the target gate
-  auto atEnd = opIt;
-  std::advance(atEnd, 1);
-  while (atEnd != end) {
-    for (std::size_t i = 0; i < actson.size(); ++i) {
-      if (actson[i] && (*atEnd)->actsOn(static_cast<Qubit>(i))) {
-        return false;
-      }
-    }
-    ++atEnd;
-  }
-  return true;
+  const auto usedQubits = (*opIt)->getUsedQubits();
+  return std::none_of(std::next(opIt), end, [&usedQubits](const auto& op) {
+    return std::any_of(usedQubits.cbegin(), usedQubits.cend(),
+                       [&op](const auto& q) { return op->actsOn(q); });
+  });
 }
 
 const QuantumRegister&
@@ -1357,7 +1354,7 @@ bool isDynamicCircuit(const std::unique_ptr<Operation>* op,
 
 bool QuantumComputation::isDynamic() const {
   // marks whether a qubit in the DAG has been measured
-  std::vector<bool> measured(getHighestPhysicalQubitIndex() + 1, false);
+  std::vector<bool> measured(getHighestUsedQubitIndex() + 1U, false);
   return std::any_of(cbegin(), cend(), [&measured](const auto& op) {
     return ::qc::isDynamicCircuit(&op, measured);
   });
-- 
2.43.0


From 89550124684b1b71c25e1373e6a6a2da10b0ebfd Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 20:20:58 +0000
Subject: [PATCH 075/133] fix: stripping idle qubits keeps the output qubits
 distinct

---
 src/ir/QuantumComputation.cpp | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index 63f4655..ede5be0 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -826,23 +826,39 @@ void QuantumComputation::stripIdleQubits(bool force) {
         continue;
       }
 
-      removeQubit(logicalQubitIndex);
+      const auto outputQubitIndex = removeQubit(logicalQubitIndex).second;
 
       // close the gap in the logical qubit indices
-      if (logicalQubitIndex < ancillary.size()) {
-        const auto offset = static_cast<std::ptrdiff_t>(logicalQubitIndex);
-        ancillary.erase(ancillary.begin() + offset);
-        garbage.erase(garbage.begin() + offset);
+      const auto numIndices = ancillary.size();
+      if (logicalQubitIndex < numIndices) {
+        ancillary.erase(ancillary.begin() +
+                        static_cast<std::ptrdiff_t>(logicalQubitIndex));
         for (auto& [physical, logical] : initialLayout) {
           if (logical > logicalQubitIndex) {
             --logical;
           }
         }
+      }
 
-        for (auto& [physical, logical] : outputPermutation) {
-          if (logical > logicalQubitIndex) {
-            --logical;
-          }
+      // close the gap in the output qubit indices
+      const auto isOutput = [this](const Qubit index) {
+        return std::any_of(
+            outputPermutation.begin(), outputPermutation.end(),
+            [&index](const auto& p) { return p.second == index; });
+      };
+      auto outputGap = outputQubitIndex.value_or(logicalQubitIndex);
+      if (isOutput(outputGap)) {
+        for (outputGap = 0; isOutput(outputGap); ++outputGap) {
+        }
+      }
+      if (logicalQubitIndex < numIndices) {
+        garbage.erase(garbage.begin() +
+                      static_cast<std::ptrdiff_t>(
+                          std::min<std::size_t>(outputGap, numIndices - 1)));
+      }
+      for (auto& [physical, logical] : outputPermutation) {
+        if (logical > outputGap) {
+          --logical;
         }
       }
     }
-- 
2.43.0


From 7bd7192788f8a1e13a1617a6ed4e186dd838d7d8 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 20:23:39 +0000
Subject: [PATCH 076/133] fix: gates act on every qubit of the circuit whatever
 its label

---
 src/ir/QuantumComputation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index ede5be0..95893b5 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -1071,7 +1071,7 @@ void QuantumComputation::appendMeasurementsAccordingToOutputPermutation(
 
 void QuantumComputation::checkQubitRange(const Qubit qubit) const {
   if (const auto it = initialLayout.find(qubit);
-      it == initialLayout.end() || it->second >= getNqubits()) {
+      it == initialLayout.end() || it->second >= ancillary.size()) {
     throw std::out_of_range("Qubit index out of range: " +
                             std::to_string(qubit));
   }
-- 
2.43.0


From fcaed2141d229706e6b4abdb4c0509d956d61714 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 20:24:06 +0000
Subject: [PATCH 077/133] fix: circuits from compound operations have the bits
 of nested operations

---
 src/ir/QuantumComputation.cpp | 40 ++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index 95893b5..cc60e5d 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -1376,11 +1376,37 @@ bool QuantumComputation::isDynamic() const {
   });
 }
 
+namespace {
+void collectUsedBits(const Operation& op, std::set<Bit>& bits) {
+  if (const auto* measure = dynamic_cast<const NonUnitaryOperation*>(&op);
+      measure != nullptr && op.getType() == Measure) {
+    bits.insert(measure->getClassics().begin(), measure->getClassics().end());
+  } else if (const auto* classic =
+                 dynamic_cast<const ClassicControlledOperation*>(&op);
+             classic != nullptr) {
+    if (const auto& reg = classic->getControlRegister(); reg.has_value()) {
+      for (std::size_t i = 0; i < reg->getSize(); ++i) {
+        bits.insert(reg->getStartIndex() + i);
+      }
+    }
+    if (const auto& bit = classic->getControlBit(); bit.has_value()) {
+      bits.insert(*bit);
+    }
+    collectUsedBits(*classic->getOperation(), bits);
+  } else if (const auto* compound = dynamic_cast<const CompoundOperation*>(&op);
+             compound != nullptr) {
+    for (const auto& subOp : *compound) {
+      collectUsedBits(*subOp, bits);
+    }
+  }
+}
+} // namespace
+
 QuantumComputation
 QuantumComputation::fromCompoundOperation(const CompoundOperation& op) {
   QuantumComputation qc{};
   Qubit maxQubitIndex = 0;
-  Bit maxBitIndex = 0;
+  std::set<Bit> bits{};
   for (const auto& g : op) {
     // clone the gate and add it to the circuit
     qc.emplace_back(g->clone());
@@ -1391,19 +1417,13 @@ QuantumComputation::fromCompoundOperation(const CompoundOperation& op) {
       maxQubitIndex = std::max(maxQubitIndex, q);
     }
 
-    if (g->getType() == Measure) {
-      // update the maximum classical bit index
-      const auto& measureOp = dynamic_cast<const NonUnitaryOperation&>(*g);
-      const auto& classics = measureOp.getClassics();
-      for (const auto& c : classics) {
-        maxBitIndex = std::max(maxBitIndex, c);
-      }
-    }
+    collectUsedBits(*g, bits);
   }
 
   // The following also sets the initial layout and the output permutation
   qc.addQubitRegister(static_cast<size_t>(maxQubitIndex) + 1);
-  qc.addClassicalRegister(static_cast<size_t>(maxBitIndex) + 1);
+  qc.addClassicalRegister(
+      static_cast<size_t>(bits.empty() ? 0 : *bits.rbegin()) + 1);
 
   return qc;
 }
-- 
2.43.0


From 0a5f466244bbbc8d15090f19337c6dc84de13faf Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 20:24:38 +0000
Subject: [PATCH 078/133] fix: reordering operations keeps all operations and
 the order on classical bits

---
 src/ir/QuantumComputation.cpp | 173 ++++++++++++++--------------------
 1 file changed, 69 insertions(+), 104 deletions(-)

diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index cc60e5d..124d4fd 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -1236,97 +1236,88 @@ void QuantumComputation::instantiateInplace(
   }
 }
 
-void QuantumComputation::reorderOperations() {
-  using DAG = std::vector<std::deque<std::unique_ptr<Operation>*>>;
-  using DAGIterator = std::deque<std::unique_ptr<Operation>*>::iterator;
-  using DAGIterators = std::vector<DAGIterator>;
-
-  Qubit highestPhysicalQubit = 0;
-  for (const auto& q : initialLayout) {
-    highestPhysicalQubit = std::max(q.first, highestPhysicalQubit);
+namespace {
+void collectUsedBits(const Operation& op, std::set<Bit>& bits) {
+  if (const auto* measure = dynamic_cast<const NonUnitaryOperation*>(&op);
+      measure != nullptr && op.getType() == Measure) {
+    bits.insert(measure->getClassics().begin(), measure->getClassics().end());
+  } else if (const auto* classic =
+                 dynamic_cast<const ClassicControlledOperation*>(&op);
+             classic != nullptr) {
+    if (const auto& reg = classic->getControlRegister(); reg.has_value()) {
+      for (std::size_t i = 0; i < reg->getSize(); ++i) {
+        bits.insert(reg->getStartIndex() + i);
+      }
+    }
+    if (const auto& bit = classic->getControlBit(); bit.has_value()) {
+      bits.insert(*bit);
+    }
+    collectUsedBits(*classic->getOperation(), bits);
+  } else if (const auto* compound = dynamic_cast<const CompoundOperation*>(&op);
+             compound != nullptr) {
+    for (const auto& subOp : *compound) {
+      collectUsedBits(*subOp, bits);
+    }
   }
+}
+} // namespace
 
-  auto dag = DAG(highestPhysicalQubit + 1);
+void QuantumComputation::reorderOperations() {
+  const auto numQubits =
+      static_cast<std::size_t>(getHighestUsedQubitIndex()) + 1U;
 
-  for (auto& op : ops) {
-    const auto usedQubits = op->getUsedQubits();
-    for (const auto q : usedQubits) {
-      dag.at(q).push_back(&op);
+  // every operation occupies the wires of its qubits and its classical bits.
+  // Operations without any qubits additionally share one wire.
+  std::vector<std::vector<std::size_t>> wires(ops.size());
+  std::unordered_map<Bit, std::size_t> bitWires{};
+  for (std::size_t i = 0; i < ops.size(); ++i) {
+    const auto usedQubits = ops[i]->getUsedQubits();
+    wires[i].assign(usedQubits.begin(), usedQubits.end());
+    if (usedQubits.empty()) {
+      wires[i].emplace_back(numQubits);
+    }
+    std::set<Bit> bits{};
+    collectUsedBits(*ops[i], bits);
+    for (const auto bit : bits) {
+      wires[i].emplace_back(
+          bitWires.try_emplace(bit, numQubits + 1U + bitWires.size())
+              .first->second);
     }
   }
 
-  // initialize iterators
-  DAGIterators dagIterators{dag.size()};
-  for (size_t q = 0; q < dag.size(); ++q) {
-    if (dag.at(q).empty()) {
-      // qubit is idle
-      dagIterators.at(q) = dag.at(q).end();
-    } else {
-      // point to first operation
-      dagIterators.at(q) = dag.at(q).begin();
+  std::vector<std::deque<std::size_t>> dag(numQubits + 1U + bitWires.size());
+  for (std::size_t i = 0; i < ops.size(); ++i) {
+    for (const auto wire : wires[i]) {
+      dag.at(wire).push_back(i);
     }
   }
 
   std::vector<std::unique_ptr<Operation>> newOps{};
+  newOps.reserve(ops.size());
 
-  // iterate over DAG in depth-first fashion starting from the top-most qubit
-  const auto msq = dag.size() - 1;
-  bool done = false;
-  while (!done) {
-    // assume that everything is done
-    done = true;
-
-    // iterate over qubits in reverse order
-    for (auto q = static_cast<std::make_signed_t<Qubit>>(msq); q >= 0; --q) {
-      // nothing to be done for this qubit
-      if (dagIterators.at(static_cast<std::size_t>(q)) ==
-          dag.at(static_cast<std::size_t>(q)).end()) {
-        continue;
-      }
-      done = false;
-
-      // get the current operation on the qubit
-      auto& it = dagIterators.at(static_cast<std::size_t>(q));
-      auto& op = **it;
-
-      // check whether the gate can be scheduled, i.e. whether all qubits it
-      // acts on are at this operation
-      bool executable = true;
-      std::vector<bool> actsOn(dag.size());
-      actsOn[static_cast<std::size_t>(q)] = true;
-      for (std::size_t i = 0; i < dag.size(); ++i) {
-        // actually check in reverse order
-        const auto qb =
-            static_cast<std::make_signed_t<Qubit>>(dag.size() - 1 - i);
-        if (qb != q && op->actsOn(static_cast<Qubit>(qb))) {
-          actsOn[static_cast<std::size_t>(qb)] = true;
-
-          assert(dagIterators.at(static_cast<std::size_t>(qb)) !=
-                 dag.at(static_cast<std::size_t>(qb)).end());
-          // check whether operation is executable for the currently considered
-          // qubit
-          if (*dagIterators.at(static_cast<std::size_t>(qb)) != *it) {
-            executable = false;
-            break;
-          }
-        }
-      }
-
-      // continue, if this gate is not yet executable
-      if (!executable) {
-        continue;
-      }
-
-      // gate is executable, move it to the new vector
-      newOps.emplace_back(std::move(op));
+  const auto schedule = [&](const std::size_t wire) {
+    if (dag.at(wire).empty()) {
+      return;
+    }
+    // check whether the current operation on the wire can be scheduled, i.e.
+    // whether all wires it occupies are at this operation
+    const auto op = dag.at(wire).front();
+    if (std::any_of(wires[op].begin(), wires[op].end(),
+                    [&](const auto w) { return dag.at(w).front() != op; })) {
+      return;
+    }
+    newOps.emplace_back(std::move(ops[op]));
+    for (const auto w : wires[op]) {
+      dag.at(w).pop_front();
+    }
+  };
 
-      // now increase all corresponding iterators
-      for (std::size_t i = 0; i < dag.size(); ++i) {
-        if (actsOn[i]) {
-          ++(dagIterators.at(i));
-        }
-      }
+  // iterate over DAG in depth-first fashion starting from the top-most qubit
+  while (newOps.size() < ops.size()) {
+    for (auto q = numQubits; q > 0; --q) {
+      schedule(q - 1U);
     }
+    schedule(numQubits);
   }
 
   // clear all the operations from the quantum circuit
@@ -1376,32 +1367,6 @@ bool QuantumComputation::isDynamic() const {
   });
 }
 
-namespace {
-void collectUsedBits(const Operation& op, std::set<Bit>& bits) {
-  if (const auto* measure = dynamic_cast<const NonUnitaryOperation*>(&op);
-      measure != nullptr && op.getType() == Measure) {
-    bits.insert(measure->getClassics().begin(), measure->getClassics().end());
-  } else if (const auto* classic =
-                 dynamic_cast<const ClassicControlledOperation*>(&op);
-             classic != nullptr) {
-    if (const auto& reg = classic->getControlRegister(); reg.has_value()) {
-      for (std::size_t i = 0; i < reg->getSize(); ++i) {
-        bits.insert(reg->getStartIndex() + i);
-      }
-    }
-    if (const auto& bit = classic->getControlBit(); bit.has_value()) {
-      bits.insert(*bit);
-    }
-    collectUsedBits(*classic->getOperation(), bits);
-  } else if (const auto* compound = dynamic_cast<const CompoundOperation*>(&op);
-             compound != nullptr) {
-    for (const auto& subOp : *compound) {
-      collectUsedBits(*subOp, bits);
-    }
-  }
-}
-} // namespace
-
 QuantumComputation
 QuantumComputation::fromCompoundOperation(const CompoundOperation& op) {
   QuantumComputation qc{};
-- 
2.43.0


From d6b9982a9f447eaa98edae28046899b7a087194b Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 20:24:38 +0000
Subject: [PATCH 079/133] fix: symbolic operations under classical control are
 instantiated

---
 .../ir/operations/ClassicControlledOperation.hpp |  4 ++++
 src/ir/QuantumComputation.cpp                    | 16 ++++++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/include/mqt-core/ir/operations/ClassicControlledOperation.hpp b/include/mqt-core/ir/operations/ClassicControlledOperation.hpp
index 7a6d892..9ce29fd 100644
--- a/include/mqt-core/ir/operations/ClassicControlledOperation.hpp
+++ b/include/mqt-core/ir/operations/ClassicControlledOperation.hpp
@@ -116,6 +116,10 @@ public:
     return true;
   }
 
+  [[nodiscard]] bool isSymbolicOperation() const override {
+    return op->isSymbolicOperation();
+  }
+
   [[nodiscard]] bool actsOn(const Qubit i) const override {
     return op->actsOn(i);
   }
diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index 124d4fd..a6681a0 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -1205,6 +1205,22 @@ void instantiateOperation(std::unique_ptr<Operation>& op,
     }
     return;
   }
+  if (const auto* classicOp =
+          dynamic_cast<const ClassicControlledOperation*>(op.get());
+      classicOp != nullptr) {
+    auto controlledOp = classicOp->getOperation()->clone();
+    instantiateOperation(controlledOp, assignment);
+    if (const auto& reg = classicOp->getControlRegister(); reg.has_value()) {
+      op = std::make_unique<ClassicControlledOperation>(
+          std::move(controlledOp), *reg, classicOp->getExpectedValue(),
+          classicOp->getComparisonKind());
+    } else {
+      op = std::make_unique<ClassicControlledOperation>(
+          std::move(controlledOp), classicOp->getControlBit().value(),
+          classicOp->getExpectedValue(), classicOp->getComparisonKind());
+    }
+    return;
+  }
   if (auto* symOp = dynamic_cast<SymbolicOperation*>(op.get());
       symOp != nullptr) {
     symOp->instantiate(assignment);
-- 
2.43.0


From 89c1f2e13b3f55df1652d8116275267be52ddf51 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 20:25:01 +0000
Subject: [PATCH 080/133] fix: controls are added to or removed from all parts
 of a compound operation or none

---
 src/ir/operations/CompoundOperation.cpp | 28 ++++++++++++++++---------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/ir/operations/CompoundOperation.cpp b/src/ir/operations/CompoundOperation.cpp
index af2bc3c..a5984b0 100644
--- a/src/ir/operations/CompoundOperation.cpp
+++ b/src/ir/operations/CompoundOperation.cpp
@@ -93,12 +93,17 @@ bool CompoundOperation::isSymbolicOperation() const {
 }
 
 void CompoundOperation::addControl(const Control c) {
-  controls.insert(c);
   // we can just add the controls to each operation, as the operations will
-  // check if they already act on the control qubits.
+  // check if they already act on the control qubits. If any of them does,
+  // nothing changes.
+  std::vector<std::unique_ptr<Operation>> controlledOps{};
+  controlledOps.reserve(ops.size());
   for (const auto& op : ops) {
-    op->addControl(c);
+    controlledOps.emplace_back(op->clone());
+    controlledOps.back()->addControl(c);
   }
+  controls.insert(c);
+  ops = std::move(controlledOps);
 }
 
 void CompoundOperation::clearControls() {
@@ -107,24 +112,27 @@ void CompoundOperation::clearControls() {
 }
 
 void CompoundOperation::removeControl(const Control c) {
-  // first we iterate over our controls and check if we are actually allowed
-  // to remove them
-  if (controls.erase(c) == 0) {
+  // first we check if we are actually allowed to remove the control
+  const auto it = controls.find(c);
+  if (it == controls.end()) {
     throw std::runtime_error(
         "Cannot remove control from compound operation as it "
         "is not a control.");
   }
 
-  for (const auto& op : ops) {
-    op->removeControl(c);
-  }
+  removeControl(it);
 }
 
 Controls::iterator
 CompoundOperation::removeControl(const Controls::iterator it) {
+  // nothing changes if the control cannot be removed from all operations
+  std::vector<std::unique_ptr<Operation>> reducedOps{};
+  reducedOps.reserve(ops.size());
   for (const auto& op : ops) {
-    op->removeControl(*it);
+    reducedOps.emplace_back(op->clone());
+    reducedOps.back()->removeControl(*it);
   }
+  ops = std::move(reducedOps);
 
   return controls.erase(it);
 }
-- 
2.43.0


From d658a59da6c9b34fb28339f078eb389107a17f09 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 20:32:22 +0000
Subject: [PATCH 081/133] fix: expressions of different variables are not equal

---
 include/mqt-core/ir/operations/Expression.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/mqt-core/ir/operations/Expression.hpp b/include/mqt-core/ir/operations/Expression.hpp
index 43d6ea3..523cfd6 100644
--- a/include/mqt-core/ir/operations/Expression.hpp
+++ b/include/mqt-core/ir/operations/Expression.hpp
@@ -159,7 +159,7 @@ public:
    * @param v Variable of the term.
    * @param coef Coefficient of the term.
    */
-  explicit Term(const Variable v, T coef = 1.) : coeff(coef), var(v) {};
+  explicit Term(const Variable v, T coef = 1.) : coeff(coef), var(v){};
 
   /**
    * @brief Get the negative of the term.
@@ -353,7 +353,7 @@ public:
    * @param con Constant of the expression.
    */
   Expression(const std::vector<Term<T>>& ts, const U& con)
-      : terms(ts), constant(con) {};
+      : terms(ts), constant(con){};
 
   /**
    * @brief Default constructor. Expression has no Terms and a constant of 0.
@@ -364,7 +364,7 @@ public:
    * @brief Construct an Expression from a constant. Expression has no Terms.
    * @param r Constant of the expression.
    */
-  explicit Expression(const U& r) : constant(r) {};
+  explicit Expression(const U& r) : constant(r){};
 
   iterator begin() { return terms.begin(); }
   [[nodiscard]] const_iterator begin() const { return terms.cbegin(); }
@@ -794,7 +794,7 @@ bool operator==(const Expression<T, U>& lhs, const Expression<T, U>& rhs) {
 
   const auto lhsTerms = lhs.numTerms();
   for (size_t i = 0; i < lhsTerms; ++i) {
-    if (std::abs(lhs[i].getCoeff() - rhs[i].getCoeff()) >= TOLERANCE) {
+    if (lhs[i] != rhs[i]) {
       return false;
     }
   }
-- 
2.43.0


From 6dc03dca9aff6f3de9560e942cd1818e75a8a1f2 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 20:32:22 +0000
Subject: [PATCH 082/133] fix: registers at different positions are not equal

---
 include/mqt-core/ir/Register.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/mqt-core/ir/Register.hpp b/include/mqt-core/ir/Register.hpp
index 2163d6b..1c2ceb1 100644
--- a/include/mqt-core/ir/Register.hpp
+++ b/include/mqt-core/ir/Register.hpp
@@ -38,7 +38,8 @@ public:
   }
 
   [[nodiscard]] bool operator==(const Register& other) const {
-    return name == other.name && size == other.size;
+    return name == other.name && size == other.size &&
+           startIndex == other.startIndex;
   }
   [[nodiscard]] bool operator!=(const Register& other) const {
     return !(*this == other);
-- 
2.43.0


From d9bd6470c523a2334a282dcfb26b6ebb06335f70 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 20:32:22 +0000
Subject: [PATCH 083/133] fix: controls and targets of controlled Z-rotations
 are not interchangeable

---
 src/ir/operations/Operation.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/ir/operations/Operation.cpp b/src/ir/operations/Operation.cpp
index 6e68795..8d4b210 100644
--- a/src/ir/operations/Operation.cpp
+++ b/src/ir/operations/Operation.cpp
@@ -97,13 +97,11 @@ std::ostream& Operation::print(std::ostream& os, const Permutation& permutation,
       } else {
         os << "\033[31m";
       }
-      os << std::setw(4) << "c"
-         << "\033[0m";
+      os << std::setw(4) << "c" << "\033[0m";
       continue;
     }
 
-    os << std::setw(4) << "|"
-       << "\033[0m";
+    os << std::setw(4) << "|" << "\033[0m";
   }
 
   printParameters(os);
@@ -134,6 +132,17 @@ bool Operation::equals(const Operation& op, const Permutation& perm1,
     return false;
   }
 
+  // controls and targets of a controlled Z-rotation are not interchangeable
+  if (isDiagonalGate() && nc1 != 0U && (type == RZ || type == RZZ)) {
+    if (perm1.apply(getControls()) != perm2.apply(op.getControls())) {
+      return false;
+    }
+    const auto targets1 = perm1.apply(getTargets());
+    const auto targets2 = perm2.apply(op.getTargets());
+    return std::set<Qubit>(targets1.begin(), targets1.end()) ==
+           std::set<Qubit>(targets2.begin(), targets2.end());
+  }
+
   if (isDiagonalGate()) {
     // check pos. controls and targets together
     const auto& usedQubits1 = getUsedQubitsPermuted(perm1);
-- 
2.43.0


From b91704076fa7d29d4e0dda579fb9f9a4d549b9bd Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 20:32:22 +0000
Subject: [PATCH 084/133] fix: circuits with symbolic operations can be checked
 for being dynamic

---
 src/ir/QuantumComputation.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ir/QuantumComputation.cpp b/src/ir/QuantumComputation.cpp
index a6681a0..f2342fc 100644
--- a/src/ir/QuantumComputation.cpp
+++ b/src/ir/QuantumComputation.cpp
@@ -1353,7 +1353,8 @@ bool isDynamicCircuit(const std::unique_ptr<Operation>* op,
     return true;
   }
 
-  if (it->isStandardOperation()) {
+  if (it->isStandardOperation() ||
+      (it->isSymbolicOperation() && !it->isCompoundOperation())) {
     // Whenever a qubit has already been measured, the circuit is dynamic
     const auto& usedQubits = it->getUsedQubits();
     return std::any_of(usedQubits.cbegin(), usedQubits.cend(),
-- 
2.43.0


From a35352d9fe42cf05e0a96c79f6fa7f571424d445 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 20:32:22 +0000
Subject: [PATCH 085/133] fix: inverted operations have the name of their type

---
 src/ir/operations/StandardOperation.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ir/operations/StandardOperation.cpp b/src/ir/operations/StandardOperation.cpp
index 36611d9..d54e357 100644
--- a/src/ir/operations/StandardOperation.cpp
+++ b/src/ir/operations/StandardOperation.cpp
@@ -634,6 +634,7 @@ void StandardOperation::invert() {
     throw std::runtime_error("Inverting gate" + toString(type) +
                              " is not supported.");
   }
+  name = toString(type);
 }
 
 void StandardOperation::dumpControls(std::ostringstream& op) const {
-- 
2.43.0


From 1bafd7736e4d8cb8e51aac4ca2512b0a1043ee18 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 20:53:00 +0000
Subject: [PATCH 086/133] fix: only operations that cancel out on a qubit may
 be bypassed in a layer

---
 src/datastructures/Layer.cpp | 59 +++++++++++++++++++-----------------
 1 file changed, 32 insertions(+), 27 deletions(-)

diff --git a/src/datastructures/Layer.cpp b/src/datastructures/Layer.cpp
index 8fceb6a..5d389df 100644
--- a/src/datastructures/Layer.cpp
+++ b/src/datastructures/Layer.cpp
@@ -12,7 +12,9 @@
 
 #include "ir/Definitions.hpp"
 #include "ir/QuantumComputation.hpp"
+#include "ir/operations/CompoundOperation.hpp"
 #include "ir/operations/OpType.hpp"
+#include "ir/operations/Operation.hpp"
 
 #include <algorithm>
 #include <cstddef>
@@ -23,8 +25,21 @@
 
 namespace qc {
 
-auto Layer::constructDAG(const QuantumComputation& qc, const bool commutable)
-    -> void {
+namespace {
+// checks whether the operation acts on each of its qubits separately
+bool isProductOfSingleQubitGates(const Operation& op) {
+  if (const auto* compound = dynamic_cast<const CompoundOperation*>(&op);
+      compound != nullptr) {
+    return std::all_of(
+        compound->cbegin(), compound->cend(),
+        [](const auto& subOp) { return isProductOfSingleQubitGates(*subOp); });
+  }
+  return op.isSingleQubitGate();
+}
+} // namespace
+
+auto Layer::constructDAG(const QuantumComputation& qc,
+                         const bool commutable) -> void {
   const auto nQubits = qc.getNqubits();
   // For a pair of self-canceling operations like two consecutive X operations
   // or RY rotations with opposite angles the first operations is a
@@ -43,10 +58,6 @@ auto Layer::constructDAG(const QuantumComputation& qc, const bool commutable)
   // the predecessor of the current group members
   std::vector predecessorGroup(nQubits,
                                std::vector<std::shared_ptr<DAGVertex>>());
-  // all operations acting on a qubit (processed so far) excluding
-  // constructive and destructive operations
-  std::vector qubitOperations(nQubits,
-                              std::vector<std::shared_ptr<DAGVertex>>());
   // iterate over all operations in the quantum circuit
   for (const auto& op : qc) {
     // create a vertex for the current operation
@@ -69,34 +80,30 @@ auto Layer::constructDAG(const QuantumComputation& qc, const bool commutable)
         auto current = lookahead[qubit];
         lookahead[qubit] = vertex;
         // check whether the current operation is the inverse of the
-        // lookahead
-        if (current->getOperation()->isInverseOf(
+        // lookahead. The two only cancel out on a single qubit if they do not
+        // entangle this qubit with others.
+        if (isProductOfSingleQubitGates(*current->getOperation()) &&
+            isProductOfSingleQubitGates(*lookahead[qubit]->getOperation()) &&
+            current->getOperation()->isInverseOf(
                 *lookahead[qubit]->getOperation()) &&
             (currentGroup[qubit].empty() ||
              !(currentGroup[qubit][0]->getOperation())
                   ->commutesAtQubit(*current->getOperation(), qubit))) {
           // here: the current operation is the inverse of the lookahead
-          // add an enabling edge from the lookahead to all operations on this
-          // qubit including the destructive ones
-          for (const auto& qubitOperation : qubitOperations[qubit]) {
-            lookahead[qubit]->addEnabledSuccessor(qubitOperation);
-          }
-          for (const auto& qubitOperation : destructive[qubit]) {
-            lookahead[qubit]->addEnabledSuccessor(qubitOperation);
-          }
-          // add the lookahead to the constructive group
-          constructive[qubit].emplace_back(lookahead[qubit]);
-          // add a disabling edge to all operations on this qubit including
-          // the destructive ones
-          for (const auto& qubitOperation : qubitOperations[qubit]) {
-            current->addDisabledSuccessor(qubitOperation);
+          // both have to wait for all previous operations on this qubit
+          for (const auto& predecessor : currentGroup[qubit]) {
+            predecessor->addEnabledSuccessor(current);
           }
-          for (const auto& qubitOperation : destructive[qubit]) {
-            current->addDisabledSuccessor(qubitOperation);
+          for (const auto& constructiveOp : constructive[qubit]) {
+            constructiveOp->addEnabledSuccessor(current);
           }
           // add an enabling edge to the lookahead
           current->addEnabledSuccessor(lookahead[qubit]);
-          // add the current vertex to the destructive group
+          // add the lookahead to the constructive group such that it enables
+          // all subsequent operations again
+          constructive[qubit].emplace_back(lookahead[qubit]);
+          // add the current vertex to the destructive group such that it
+          // disables all subsequent operations
           destructive[qubit].emplace_back(current);
           // clear the lookahead
           lookahead[qubit] = nullptr;
@@ -136,7 +143,6 @@ auto Layer::constructDAG(const QuantumComputation& qc, const bool commutable)
           }
           // add the current vertex to the current group
           currentGroup[qubit].emplace_back(current);
-          qubitOperations[qubit].emplace_back(current);
         }
       }
     }
@@ -173,7 +179,6 @@ auto Layer::constructDAG(const QuantumComputation& qc, const bool commutable)
       }
       // add the current vertex to the current group
       currentGroup[qubit].emplace_back(current);
-      qubitOperations[qubit].emplace_back(current);
     }
   }
 }
-- 
2.43.0


From af26c7e791c65dcfe2c5d6f657a115eda4597323 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 20:53:35 +0000
Subject: [PATCH 087/133] fix: layers can be copied and moved

---
 include/mqt-core/datastructures/Layer.hpp | 30 +++++++++-------
 src/datastructures/Layer.cpp              | 42 +++++++++++++++++++++++
 2 files changed, 59 insertions(+), 13 deletions(-)

diff --git a/include/mqt-core/datastructures/Layer.hpp b/include/mqt-core/datastructures/Layer.hpp
index 0db8864..8f79a83 100644
--- a/include/mqt-core/datastructures/Layer.hpp
+++ b/include/mqt-core/datastructures/Layer.hpp
@@ -39,6 +39,8 @@ public:
   using InteractionGraph = UndirectedGraph<Qubit, std::shared_ptr<DAGVertex>>;
 
   class DAGVertex : public std::enable_shared_from_this<DAGVertex> {
+    friend class Layer;
+
   protected:
     // if the executableCounter becomes equal to the executableThreshold the
     // vertex becomes executable
@@ -62,9 +64,9 @@ public:
         : operation(op), executableSet(&es) {}
 
   public:
-    [[nodiscard]] static auto create(Operation* operation,
-                                     ExecutableSet& executableSet)
-        -> std::shared_ptr<DAGVertex> {
+    [[nodiscard]] static auto
+    create(Operation* operation,
+           ExecutableSet& executableSet) -> std::shared_ptr<DAGVertex> {
       std::shared_ptr<DAGVertex> v(new DAGVertex(operation, executableSet));
       v->updateExecutableSet();
       return v;
@@ -135,14 +137,17 @@ public:
 
 protected:
   ExecutableSet executableSet;
+  // all vertices of the DAG in the order of the operations in the circuit
+  std::vector<std::shared_ptr<DAGVertex>> vertices;
   auto constructDAG(const QuantumComputation& qc, bool commutable) -> void;
 
 public:
   Layer() = default;
-  Layer(const Layer&) = default;
-  Layer(Layer&&) = default;
-  Layer& operator=(const Layer&) = default;
-  Layer& operator=(Layer&&) = default;
+  /// Copies have vertices of their own, i.e., they are executed independently.
+  Layer(const Layer& other);
+  Layer(Layer&& other) noexcept;
+  Layer& operator=(const Layer& other);
+  Layer& operator=(Layer&& other) noexcept;
   ~Layer() = default;
   /**
    * @brief Constructs a new layer from the given quantum circuit.
@@ -162,11 +167,10 @@ public:
   [[nodiscard]] auto getExecutableSet() const -> const ExecutableSet& {
     return executableSet;
   }
-  [[nodiscard]] auto constructInteractionGraph(OpType opType,
-                                               std::size_t nControls) const
-      -> InteractionGraph;
-  [[nodiscard]] auto getExecutablesOfType(OpType opType,
-                                          std::size_t nControls) const
-      -> std::vector<std::shared_ptr<DAGVertex>>;
+  [[nodiscard]] auto
+  constructInteractionGraph(OpType opType,
+                            std::size_t nControls) const -> InteractionGraph;
+  [[nodiscard]] auto getExecutablesOfType(OpType opType, std::size_t nControls)
+      const -> std::vector<std::shared_ptr<DAGVertex>>;
 };
 } // namespace qc
diff --git a/src/datastructures/Layer.cpp b/src/datastructures/Layer.cpp
index 5d389df..c53f21d 100644
--- a/src/datastructures/Layer.cpp
+++ b/src/datastructures/Layer.cpp
@@ -21,6 +21,8 @@
 #include <memory>
 #include <sstream>
 #include <stdexcept>
+#include <unordered_map>
+#include <utility>
 #include <vector>
 
 namespace qc {
@@ -38,6 +40,45 @@ bool isProductOfSingleQubitGates(const Operation& op) {
 }
 } // namespace
 
+Layer::Layer(const Layer& other) {
+  std::unordered_map<const DAGVertex*, std::shared_ptr<DAGVertex>> copies;
+  for (const auto& vertex : other.vertices) {
+    const auto copy = DAGVertex::create(vertex->operation, executableSet);
+    copy->executableThreshold = vertex->executableThreshold;
+    copy->executableCounter = vertex->executableCounter;
+    copy->executed = vertex->executed;
+    copy->updateExecutableSet();
+    copies.emplace(vertex.get(), copy);
+    vertices.emplace_back(copy);
+  }
+  for (const auto& vertex : other.vertices) {
+    const auto& copy = copies.at(vertex.get());
+    for (const auto& successor : vertex->enabledSuccessors) {
+      copy->enabledSuccessors.emplace_back(copies.at(successor.get()));
+    }
+    for (const auto& successor : vertex->disabledSuccessors) {
+      copy->disabledSuccessors.emplace_back(copies.at(successor.get()));
+    }
+  }
+}
+
+Layer::Layer(Layer&& other) noexcept { *this = std::move(other); }
+
+Layer& Layer::operator=(const Layer& other) {
+  *this = Layer(other);
+  return *this;
+}
+
+Layer& Layer::operator=(Layer&& other) noexcept {
+  executableSet = std::move(other.executableSet);
+  vertices = std::move(other.vertices);
+  // the vertices have to update the set of this layer from now on
+  for (const auto& vertex : vertices) {
+    vertex->executableSet = &executableSet;
+  }
+  return *this;
+}
+
 auto Layer::constructDAG(const QuantumComputation& qc,
                          const bool commutable) -> void {
   const auto nQubits = qc.getNqubits();
@@ -62,6 +103,7 @@ auto Layer::constructDAG(const QuantumComputation& qc,
   for (const auto& op : qc) {
     // create a vertex for the current operation
     const auto vertex = DAGVertex::create(op.get(), executableSet);
+    vertices.emplace_back(vertex);
     // iterate over all qubits the operation acts on
     for (const auto& qubit : op->getUsedQubits()) {
       // check whether the lookahead is empty
-- 
2.43.0


From c76492592a29bf62600777b26f3d171db40db9aa Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 20:54:14 +0000
Subject: [PATCH 088/133] fix: the last operation on a qubit is not redundant
 in its layer

---
 src/datastructures/Layer.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/datastructures/Layer.cpp b/src/datastructures/Layer.cpp
index c53f21d..fb3fec9 100644
--- a/src/datastructures/Layer.cpp
+++ b/src/datastructures/Layer.cpp
@@ -207,7 +207,11 @@ auto Layer::constructDAG(const QuantumComputation& qc,
       if (!currentGroup[qubit].empty() and
           (!commutable or
            !(currentGroup[qubit][0]->getOperation())
-                ->commutesAtQubit(*current->getOperation(), qubit))) {
+                ->commutesAtQubit(*current->getOperation(), qubit) ||
+           std::find_if(currentGroup[qubit].cbegin(),
+                        currentGroup[qubit].cend(), [&current](const auto& v) {
+                          return *v->getOperation() == *current->getOperation();
+                        }) != currentGroup[qubit].cend())) {
         // here: the current operation does not commute with the current
         // group members and is not the inverse of the lookahead
         // --> start a new group
-- 
2.43.0


From 068fcc753b12261a2ba55f08c7ab9ff002f6d00a Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 20:57:19 +0000
Subject: [PATCH 089/133] fix: gates with different symbolic parameters need
 not commute

---
 src/ir/operations/StandardOperation.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ir/operations/StandardOperation.cpp b/src/ir/operations/StandardOperation.cpp
index d54e357..68bba27 100644
--- a/src/ir/operations/StandardOperation.cpp
+++ b/src/ir/operations/StandardOperation.cpp
@@ -547,8 +547,10 @@ auto StandardOperation::commutesAtQubit(const Operation& other,
   // operations with more than one parameter might not be commutative when the
   // parameter are not the same, i.e. a general U3 gate
   // TODO: this check might introduce false negatives
+  // The numeric parameters do not determine the gate if some are symbolic
   return type == other.getType() && targets == other.getTargets() &&
-         parameter == other.getParameter();
+         parameter == other.getParameter() && !isSymbolicOperation() &&
+         !other.isSymbolicOperation();
 }
 
 void StandardOperation::invert() {
-- 
2.43.0


From d09b889ba9ba0dcf85505ce3c5642cb60cbd7ced Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 21:32:17 +0000
Subject: [PATCH 090/133] fix: symbolic variables are ordered by their names

---
 include/mqt-core/ir/operations/Expression.hpp | 44 ++++++++-----------
 src/ir/operations/Expression.cpp              | 13 +-----
 2 files changed, 20 insertions(+), 37 deletions(-)

diff --git a/include/mqt-core/ir/operations/Expression.hpp b/include/mqt-core/ir/operations/Expression.hpp
index 523cfd6..a0b7fe4 100644
--- a/include/mqt-core/ir/operations/Expression.hpp
+++ b/include/mqt-core/ir/operations/Expression.hpp
@@ -45,22 +45,15 @@ public:
 
 /**
  * @brief Struct representing a symbolic variable.
- * @details Variable names are assigned ids during creation. These ids are
- * statically stored in a map. The name of a variable can be retrieved by its
- * id. Variables are lexicographically ordered by their ids.
+ * @details Variables are identified and lexicographically ordered by their
+ * names.
  */
 struct Variable {
-  // NOLINTBEGIN(cppcoreguidelines-avoid-non-const-global-variables)
-  static inline std::unordered_map<std::string, std::size_t> registered{};
-  static inline std::unordered_map<std::size_t, std::string> names{};
-  static inline std::size_t nextId{};
-  // NOLINTEND(cppcoreguidelines-avoid-non-const-global-variables)
-
   /**
    * @brief Construct variable with given name.
-   * @param name Name of the variable.
+   * @param varName Name of the variable.
    */
-  explicit Variable(const std::string& name);
+  explicit Variable(const std::string& varName);
 
   /**
    * @brief Get the name of the variable.
@@ -69,40 +62,39 @@ struct Variable {
   [[nodiscard]] std::string getName() const noexcept;
 
   /**
-   * @brief Check whether this variable's id is equal to another variable's id.
+   * @brief Check whether this variable is equal to another variable.
    * @param rhs Variable to compare with.
    * @return True if the variables are equal, false otherwise.
    */
-  bool operator==(const Variable& rhs) const { return id == rhs.id; }
+  bool operator==(const Variable& rhs) const { return name == rhs.name; }
 
   /**
-   * @brief Check whether this variable's id is not equal to another variable's
-   * id.
+   * @brief Check whether this variable is not equal to another variable.
    * @param rhs Variable to compare with.
    * @return True if the variables are not equal, false otherwise.
    */
   bool operator!=(const Variable& rhs) const { return !((*this) == rhs); }
 
   /**
-   * @brief Check whether this variable's id is less than another variable's id
-   * with respect to the default lexicographic ordering.
+   * @brief Check whether this variable is less than another variable with
+   * respect to the lexicographic ordering of their names.
    * @param rhs Variable to compare with.
-   * @return True if this variable's id is less than the other variable's id,
-   * false otherwise.
+   * @return True if this variable is less than the other variable, false
+   * otherwise.
    */
-  bool operator<(const Variable& rhs) const { return id < rhs.id; }
+  bool operator<(const Variable& rhs) const { return name < rhs.name; }
 
   /**
-   * @brief Check whether this variable's id is greater than another variable's
-   * id with respect to the default lexicographic ordering.
+   * @brief Check whether this variable is greater than another variable with
+   * respect to the lexicographic ordering of their names.
    * @param rhs Variable to compare with.
-   * @return True if this variable's id is greater than the other variable's id,
-   * false otherwise.
+   * @return True if this variable is greater than the other variable, false
+   * otherwise.
    */
-  bool operator>(const Variable& rhs) const { return id > rhs.id; }
+  bool operator>(const Variable& rhs) const { return name > rhs.name; }
 
 private:
-  std::size_t id{};
+  std::string name;
 };
 } // namespace sym
 
diff --git a/src/ir/operations/Expression.cpp b/src/ir/operations/Expression.cpp
index 0c9a4ab..2bfe5a3 100644
--- a/src/ir/operations/Expression.cpp
+++ b/src/ir/operations/Expression.cpp
@@ -15,18 +15,9 @@
 
 namespace sym {
 
-Variable::Variable(const std::string& name) {
-  if (const auto it = registered.find(name); it != registered.end()) {
-    id = it->second;
-  } else {
-    registered[name] = nextId;
-    names[nextId] = name;
-    id = nextId;
-    ++nextId;
-  }
-}
+Variable::Variable(const std::string& varName) : name(varName) {}
 
-std::string Variable::getName() const noexcept { return names[id]; }
+std::string Variable::getName() const noexcept { return name; }
 
 std::ostream& operator<<(std::ostream& os, const Variable& var) {
   os << var.getName();
-- 
2.43.0


From f9df02800bb97146e842b9422851844553615daa Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 21:32:17 +0000
Subject: [PATCH 091/133] fix: executable operations of a layer are listed in
 the order of the circuit

---
 src/datastructures/Layer.cpp | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/datastructures/Layer.cpp b/src/datastructures/Layer.cpp
index fb3fec9..55eaa40 100644
--- a/src/datastructures/Layer.cpp
+++ b/src/datastructures/Layer.cpp
@@ -265,17 +265,14 @@ auto Layer::constructInteractionGraph(const OpType opType,
     throw std::invalid_argument(ss.str());
   }
   InteractionGraph graph;
-  for (const auto& vertex : executableSet) {
-    const auto& gate = vertex->getOperation();
-    if (gate->getType() == opType && gate->getNcontrols() == nControls) {
-      const auto& usedQubits = gate->getUsedQubits();
-      if (usedQubits.size() != 2) {
-        throw std::invalid_argument(
-            "The interaction graph can only be constructed for two-qubit "
-            "gates.");
-      }
-      graph.addEdge(*usedQubits.begin(), *usedQubits.rbegin(), vertex);
+  for (const auto& vertex : getExecutablesOfType(opType, nControls)) {
+    const auto& usedQubits = vertex->getOperation()->getUsedQubits();
+    if (usedQubits.size() != 2) {
+      throw std::invalid_argument(
+          "The interaction graph can only be constructed for two-qubit "
+          "gates.");
     }
+    graph.addEdge(*usedQubits.begin(), *usedQubits.rbegin(), vertex);
   }
   return graph;
 }
@@ -283,8 +280,10 @@ auto Layer::getExecutablesOfType(const OpType opType,
                                  const std::size_t nControls) const
     -> std::vector<std::shared_ptr<DAGVertex>> {
   std::vector<std::shared_ptr<DAGVertex>> executables;
-  for (const auto& vertex : executableSet) {
-    if ((vertex->getOperation())->getType() == opType and
+  // in the order of the circuit, which does not depend on memory addresses
+  for (const auto& vertex : vertices) {
+    if (executableSet.find(vertex) != executableSet.end() and
+        (vertex->getOperation())->getType() == opType and
         (vertex->getOperation())->getNcontrols() == nControls) {
       executables.emplace_back(vertex);
     }
-- 
2.43.0


From 95b4b71cc04e5a49a0eb1881df6c7d628508fa9f Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 21:32:17 +0000
Subject: [PATCH 092/133] fix: neutral atom computations print all atoms in a
 fixed order

---
 src/na/NAComputation.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/na/NAComputation.cpp b/src/na/NAComputation.cpp
index 4c6ba04..4ed581d 100644
--- a/src/na/NAComputation.cpp
+++ b/src/na/NAComputation.cpp
@@ -29,9 +29,8 @@
 #include <vector>
 
 namespace na {
-auto NAComputation::getLocationOfAtomAfterOperation(const Atom& atom,
-                                                    const Op& op) const
-    -> Location {
+auto NAComputation::getLocationOfAtomAfterOperation(
+    const Atom& atom, const Op& op) const -> Location {
   auto currentLocation = initialLocations_.at(&atom);
   for (const auto& opUniquePtr : operations_) {
     if (opUniquePtr->is<ShuttlingOp>()) {
@@ -55,12 +54,14 @@ auto NAComputation::getLocationOfAtomAfterOperation(const Atom& atom,
 }
 auto NAComputation::toString() const -> std::string {
   std::stringstream ss;
-  std::map<Location, const Atom*> initialLocationsAsc;
+  // several atoms may be given the same initial location
+  std::multimap<std::pair<Location, std::string>, const Atom*>
+      initialLocationsAsc;
   for (const auto& [atom, loc] : initialLocations_) {
-    initialLocationsAsc.emplace(loc, atom);
+    initialLocationsAsc.emplace(std::pair{loc, atom->getName()}, atom);
   }
-  for (const auto& [loc, atom] : initialLocationsAsc) {
-    ss << "atom " << loc << " " << *atom << "\n";
+  for (const auto& [key, atom] : initialLocationsAsc) {
+    ss << "atom " << key.first << " " << *atom << "\n";
   }
   for (const auto& op : operations_) {
     ss << *op << "\n";
-- 
2.43.0


From a074753bfb1a12a0e7421ecb6b3ccbdfc9397730 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 21:32:17 +0000
Subject: [PATCH 093/133] fix: removing diagonal gates does not read past the
 first operation of a qubit

---
 src/circuit_optimizer/CircuitOptimizer.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/circuit_optimizer/CircuitOptimizer.cpp b/src/circuit_optimizer/CircuitOptimizer.cpp
index 7b1924b..7254bf3 100644
--- a/src/circuit_optimizer/CircuitOptimizer.cpp
+++ b/src/circuit_optimizer/CircuitOptimizer.cpp
@@ -400,7 +400,8 @@ bool removeDiagonalGate(CircuitOptimizer::DAG& dag,
       removeDiagonalGatesBeforeMeasureRecursive(dag, dagIterators, controlQubit,
                                                 (*it)->get());
       // check if iteration of control qubit was successful
-      if (*dagIterators.at(controlQubit) != *it) {
+      if (dagIterators.at(controlQubit) == dag.at(controlQubit).rend() ||
+          *dagIterators.at(controlQubit) != *it) {
         onlyDiagonalGates = false;
         break;
       }
@@ -417,7 +418,8 @@ bool removeDiagonalGate(CircuitOptimizer::DAG& dag,
       removeDiagonalGatesBeforeMeasureRecursive(dag, dagIterators, target,
                                                 (*it)->get());
       // check if iteration of target qubit was successful
-      if (*dagIterators.at(target) != *it) {
+      if (dagIterators.at(target) == dag.at(target).rend() ||
+          *dagIterators.at(target) != *it) {
         onlyDiagonalGates = false;
         break;
       }
-- 
2.43.0


From 64d80f2dbf9b7a5d7a31c16833ffd3790f0211cf Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 21:33:47 +0000
Subject: [PATCH 094/133] fix: naming a circuit reports a failed allocation

---
 include/mqt-core/ir/QuantumComputation.hpp    | 4 ++--
 include/mqt-core/ir/operations/Expression.hpp | 2 +-
 src/ir/operations/Expression.cpp              | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/mqt-core/ir/QuantumComputation.hpp b/include/mqt-core/ir/QuantumComputation.hpp
index 8a3537d..7b0edab 100644
--- a/include/mqt-core/ir/QuantumComputation.hpp
+++ b/include/mqt-core/ir/QuantumComputation.hpp
@@ -111,7 +111,7 @@ public:
   }
   [[nodiscard]] std::vector<bool>& getGarbage() noexcept { return garbage; }
   [[nodiscard]] std::size_t getNcbits() const noexcept { return nclassics; }
-  [[nodiscard]] std::string getName() const noexcept { return name; }
+  [[nodiscard]] const std::string& getName() const noexcept { return name; }
   [[nodiscard]] const auto& getQuantumRegisters() const noexcept {
     return quantumRegisters;
   }
@@ -133,7 +133,7 @@ public:
   [[nodiscard]] std::size_t getNmeasuredQubits() const noexcept;
   [[nodiscard]] std::size_t getNgarbageQubits() const;
 
-  void setName(const std::string& n) noexcept { name = n; }
+  void setName(const std::string& n) { name = n; }
 
   [[nodiscard]] std::size_t getNindividualOps() const;
   [[nodiscard]] std::size_t getNsingleQubitOps() const;
diff --git a/include/mqt-core/ir/operations/Expression.hpp b/include/mqt-core/ir/operations/Expression.hpp
index a0b7fe4..6fdbec9 100644
--- a/include/mqt-core/ir/operations/Expression.hpp
+++ b/include/mqt-core/ir/operations/Expression.hpp
@@ -59,7 +59,7 @@ struct Variable {
    * @brief Get the name of the variable.
    * @return Name of the variable.
    */
-  [[nodiscard]] std::string getName() const noexcept;
+  [[nodiscard]] const std::string& getName() const noexcept;
 
   /**
    * @brief Check whether this variable is equal to another variable.
diff --git a/src/ir/operations/Expression.cpp b/src/ir/operations/Expression.cpp
index 2bfe5a3..adb6759 100644
--- a/src/ir/operations/Expression.cpp
+++ b/src/ir/operations/Expression.cpp
@@ -17,7 +17,7 @@ namespace sym {
 
 Variable::Variable(const std::string& varName) : name(varName) {}
 
-std::string Variable::getName() const noexcept { return name; }
+const std::string& Variable::getName() const noexcept { return name; }
 
 std::ostream& operator<<(std::ostream& os, const Variable& var) {
   os << var.getName();
-- 
2.43.0


From 364165d5746206c9846496ef4008e69c2b2e6374 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 21:33:59 +0000
Subject: [PATCH 095/133] fix: nodes have distinct names in DOT output

---
 include/mqt-core/dd/Export.hpp | 14 +++++-------
 src/dd/Export.cpp              | 40 ++++++++++------------------------
 2 files changed, 18 insertions(+), 36 deletions(-)

diff --git a/include/mqt-core/dd/Export.hpp b/include/mqt-core/dd/Export.hpp
index a5705cf..d1fdbeb 100644
--- a/include/mqt-core/dd/Export.hpp
+++ b/include/mqt-core/dd/Export.hpp
@@ -46,7 +46,7 @@ static std::ostream& header(const Edge<Node>& e, std::ostream& os,
   os << "t [label=<<font "
         "point-size=\"20\">1</"
         "font>>,shape=box,tooltip=\"1\",width=0.3,height=0.3]\n";
-  auto toplabel = (reinterpret_cast<std::uintptr_t>(e.p) & 0x001fffffU) >> 1U;
+  auto toplabel = reinterpret_cast<std::uintptr_t>(e.p) >> 1U;
   os << "root->";
   if (e.isTerminal()) {
     os << "t";
@@ -76,7 +76,7 @@ static std::ostream& coloredHeader(const Edge<Node>& e, std::ostream& os,
         "point-size=\"20\">1</"
         "font>>,shape=box,tooltip=\"1\",width=0.3,height=0.3]\n";
 
-  auto toplabel = (reinterpret_cast<std::uintptr_t>(e.p) & 0x001fffffU) >> 1U;
+  auto toplabel = reinterpret_cast<std::uintptr_t>(e.p) >> 1U;
   auto mag = thicknessFromMagnitude(e.w);
   auto color = colorFromPhase(e.w);
   os << "root->";
@@ -103,7 +103,7 @@ static std::ostream& memoryHeader(const Edge<Node>& e, std::ostream& os,
         "point-size=\"20\">1</"
         "font>>,shape=box,tooltip=\"1\",width=0.3,height=0.3]\n";
 
-  auto toplabel = (reinterpret_cast<std::uintptr_t>(e.p) & 0x001fffffU) >> 1U;
+  auto toplabel = reinterpret_cast<std::uintptr_t>(e.p) >> 1U;
   auto mag = thicknessFromMagnitude(e.w);
   auto color = colorFromPhase(e.w);
   os << "root->";
@@ -158,8 +158,7 @@ std::ostream& classicNode(const vEdge& e, std::ostream& os,
 template <class Node>
 static std::ostream& memoryNode(const Edge<Node>& e, std::ostream& os) {
   constexpr std::size_t n = std::tuple_size_v<decltype(e.p->e)>;
-  auto nodelabel = (reinterpret_cast<std::uintptr_t>(e.p) & 0x001fffffU) >>
-                   1U; // this allows for 2^20 (roughly 1e6) unique nodes
+  auto nodelabel = reinterpret_cast<std::uintptr_t>(e.p) >> 1U;
   os << nodelabel << "[label=<";
   os << R"(<font point-size="10"><table border="1" cellspacing="0" cellpadding="2" style="rounded">)";
   os << R"(<tr><td colspan=")" << n << R"(" border="1" sides="B">)" << std::hex
@@ -200,9 +199,8 @@ template <class Node>
 static std::ostream& memoryEdge(const Edge<Node>& from, const Edge<Node>& to,
                                 std::uint16_t idx, std::ostream& os,
                                 bool edgeLabels = false) {
-  auto fromlabel =
-      (reinterpret_cast<std::uintptr_t>(from.p) & 0x001fffffU) >> 1U;
-  auto tolabel = (reinterpret_cast<std::uintptr_t>(to.p) & 0x001fffffU) >> 1U;
+  auto fromlabel = reinterpret_cast<std::uintptr_t>(from.p) >> 1U;
+  auto tolabel = reinterpret_cast<std::uintptr_t>(to.p) >> 1U;
 
   os << fromlabel << ":" << idx << ":s->";
   if (to.isTerminal()) {
diff --git a/src/dd/Export.cpp b/src/dd/Export.cpp
index 6f58042..b122976 100644
--- a/src/dd/Export.cpp
+++ b/src/dd/Export.cpp
@@ -159,9 +159,7 @@ std::string conditionalFormat(const Complex& a, const bool formatAsPolar) {
 }
 std::ostream& modernNode(const mEdge& e, std::ostream& os,
                          const bool formatAsPolar) {
-  const auto nodelabel =
-      (reinterpret_cast<std::uintptr_t>(e.p) & 0x001fffffU) >>
-      1U; // this allows for 2^20 (roughly 1e6) unique nodes
+  const auto nodelabel = reinterpret_cast<std::uintptr_t>(e.p) >> 1U;
   os << nodelabel << "[label=<";
   os << R"(<font point-size="10"><table border="1" cellspacing="0" cellpadding="2" style="rounded">)";
   os << R"(<tr><td colspan="2" rowspan="2" port="0" href="javascript:;" border="0" tooltip=")"
@@ -200,9 +198,7 @@ std::ostream& modernNode(const mEdge& e, std::ostream& os,
 }
 std::ostream& modernNode(const vEdge& e, std::ostream& os,
                          const bool formatAsPolar) {
-  const auto nodelabel =
-      (reinterpret_cast<std::uintptr_t>(e.p) & 0x001fffffU) >>
-      1U; // this allows for 2^20 (roughly 1e6) unique nodes
+  const auto nodelabel = reinterpret_cast<std::uintptr_t>(e.p) >> 1U;
   os << nodelabel << "[label=<";
   os << R"(<font point-size="8"><table border="1" cellspacing="0" cellpadding="0" style="rounded">)";
   os << R"(<tr><td colspan="2" border="0" cellpadding="1"><font point-size="20">q<sub><font point-size="12">)"
@@ -228,9 +224,7 @@ std::ostream& modernNode(const vEdge& e, std::ostream& os,
 }
 std::ostream& classicNode(const mEdge& e, std::ostream& os,
                           const bool formatAsPolar) {
-  const auto nodelabel =
-      (reinterpret_cast<std::uintptr_t>(e.p) & 0x001fffffU) >>
-      1U; // this allows for 2^20 (roughly 1e6) unique nodes
+  const auto nodelabel = reinterpret_cast<std::uintptr_t>(e.p) >> 1U;
   os << nodelabel << "[shape=circle, width=0.53, fixedsize=true, label=<";
   os << R"(<font point-size="6"><table border="0" cellspacing="0" cellpadding="0">)";
   os << R"(<tr><td colspan="4"><font point-size="18">q<sub><font point-size="10">)"
@@ -280,9 +274,7 @@ std::ostream& classicNode(const mEdge& e, std::ostream& os,
 }
 std::ostream& classicNode(const vEdge& e, std::ostream& os,
                           const bool formatAsPolar) {
-  const auto nodelabel =
-      (reinterpret_cast<std::uintptr_t>(e.p) & 0x001fffffU) >>
-      1U; // this allows for 2^20 (roughly 1e6) unique nodes
+  const auto nodelabel = reinterpret_cast<std::uintptr_t>(e.p) >> 1U;
   os << nodelabel << "[shape=circle, width=0.46, fixedsize=true, label=<";
   os << R"(<font point-size="6"><table border="0" cellspacing="0" cellpadding="0">)";
   os << R"(<tr><td colspan="2"><font point-size="18">q<sub><font point-size="10">)"
@@ -314,10 +306,8 @@ std::ostream& bwEdge(const mEdge& from, const mEdge& to,
                      const std::uint16_t idx, std::ostream& os,
                      const bool edgeLabels, const bool classic,
                      const bool formatAsPolar) {
-  const auto fromlabel =
-      (reinterpret_cast<std::uintptr_t>(from.p) & 0x001fffffU) >> 1U;
-  const auto tolabel =
-      (reinterpret_cast<std::uintptr_t>(to.p) & 0x001fffffU) >> 1U;
+  const auto fromlabel = reinterpret_cast<std::uintptr_t>(from.p) >> 1U;
+  const auto tolabel = reinterpret_cast<std::uintptr_t>(to.p) >> 1U;
 
   os << fromlabel << ":" << idx << ":";
   if (classic) {
@@ -362,10 +352,8 @@ std::ostream& bwEdge(const vEdge& from, const vEdge& to,
                      const std::uint16_t idx, std::ostream& os,
                      const bool edgeLabels, [[maybe_unused]] const bool classic,
                      const bool formatAsPolar) {
-  const auto fromlabel =
-      (reinterpret_cast<std::uintptr_t>(from.p) & 0x001fffffU) >> 1U;
-  const auto tolabel =
-      (reinterpret_cast<std::uintptr_t>(to.p) & 0x001fffffU) >> 1U;
+  const auto fromlabel = reinterpret_cast<std::uintptr_t>(from.p) >> 1U;
+  const auto tolabel = reinterpret_cast<std::uintptr_t>(to.p) >> 1U;
 
   os << fromlabel << ":" << idx << ":";
   os << (idx == 0 ? "sw" : "se") << "->";
@@ -393,10 +381,8 @@ std::ostream& coloredEdge(const mEdge& from, const mEdge& to,
                           const std::uint16_t idx, std::ostream& os,
                           const bool edgeLabels, const bool classic,
                           const bool formatAsPolar) {
-  const auto fromlabel =
-      (reinterpret_cast<std::uintptr_t>(from.p) & 0x001fffffU) >> 1U;
-  const auto tolabel =
-      (reinterpret_cast<std::uintptr_t>(to.p) & 0x001fffffU) >> 1U;
+  const auto fromlabel = reinterpret_cast<std::uintptr_t>(from.p) >> 1U;
+  const auto tolabel = reinterpret_cast<std::uintptr_t>(to.p) >> 1U;
 
   os << fromlabel << ":" << idx << ":";
   if (classic) {
@@ -441,10 +427,8 @@ std::ostream& coloredEdge(const vEdge& from, const vEdge& to,
                           const bool edgeLabels,
                           [[maybe_unused]] const bool classic,
                           const bool formatAsPolar) {
-  const auto fromlabel =
-      (reinterpret_cast<std::uintptr_t>(from.p) & 0x001fffffU) >> 1U;
-  const auto tolabel =
-      (reinterpret_cast<std::uintptr_t>(to.p) & 0x001fffffU) >> 1U;
+  const auto fromlabel = reinterpret_cast<std::uintptr_t>(from.p) >> 1U;
+  const auto tolabel = reinterpret_cast<std::uintptr_t>(to.p) >> 1U;
 
   os << fromlabel << ":" << idx << ":";
   os << (idx == 0 ? "sw" : "se") << "->";
-- 
2.43.0


From e6faff7b394281c02e66add80345d3d5b597b77d Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 21:47:15 +0000
Subject: [PATCH 096/133] fix: diagrams are measured without state shared
 between threads

---
 src/dd/Edge.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/dd/Edge.cpp b/src/dd/Edge.cpp
index 1ceab14..e137aa6 100644
--- a/src/dd/Edge.cpp
+++ b/src/dd/Edge.cpp
@@ -84,10 +84,9 @@ auto Edge<Node>::getValueByPath(const std::size_t numQubits,
 }
 
 template <class Node> auto Edge<Node>::size() const -> std::size_t {
-  static constexpr std::size_t NODECOUNT_BUCKETS = 200000U;
-  static std::unordered_set<const Node*> visited{NODECOUNT_BUCKETS};
+  // local, so that diagrams may be measured by several threads at a time
+  std::unordered_set<const Node*> visited{};
   visited.max_load_factor(10);
-  visited.clear();
   return size(visited);
 }
 
-- 
2.43.0


From 02eccb254c9a4d480f3fcc0c7feec637480d635a Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 21:53:10 +0000
Subject: [PATCH 097/133] fix: printing an operation sets the precision of its
 own stream

---
 src/ir/operations/Operation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ir/operations/Operation.cpp b/src/ir/operations/Operation.cpp
index 8d4b210..5f6b6f3 100644
--- a/src/ir/operations/Operation.cpp
+++ b/src/ir/operations/Operation.cpp
@@ -69,7 +69,7 @@ std::ostream& Operation::printParameters(std::ostream& os) const {
 std::ostream& Operation::print(std::ostream& os, const Permutation& permutation,
                                [[maybe_unused]] const std::size_t prefixWidth,
                                const std::size_t nqubits) const {
-  const auto precBefore = std::cout.precision(20);
+  const auto precBefore = os.precision(20);
   const auto& actualControls = permutation.apply(getControls());
   const auto& actualTargets = permutation.apply(getTargets());
 
@@ -106,7 +106,7 @@ std::ostream& Operation::print(std::ostream& os, const Permutation& permutation,
 
   printParameters(os);
 
-  std::cout.precision(precBefore);
+  os.precision(precBefore);
 
   return os;
 }
-- 
2.43.0


From 1daf9fc5831373884122cce528997333e651ed9b Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 21:53:10 +0000
Subject: [PATCH 098/133] fix: registers of several threads get distinct
 generated names

---
 include/mqt-core/ir/Register.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/mqt-core/ir/Register.hpp b/include/mqt-core/ir/Register.hpp
index 1c2ceb1..4094bf0 100644
--- a/include/mqt-core/ir/Register.hpp
+++ b/include/mqt-core/ir/Register.hpp
@@ -12,6 +12,7 @@
 
 #include "Definitions.hpp"
 
+#include <atomic>
 #include <cstddef>
 #include <functional>
 #include <stdexcept>
@@ -86,7 +87,7 @@ public:
 
 protected:
   static std::string generateName() {
-    static std::size_t counter = 0;
+    static std::atomic<std::size_t> counter{0};
     return "q" + std::to_string(counter++);
   }
 };
@@ -103,7 +104,7 @@ public:
 
 protected:
   static std::string generateName() {
-    static std::size_t counter = 0;
+    static std::atomic<std::size_t> counter{0};
     return "c" + std::to_string(counter++);
   }
 };
-- 
2.43.0


From f68ec30de93c2246a26fe493677f4a70fb6c7eda Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 22:12:30 +0000
Subject: [PATCH 099/133] fix: backpropagated layouts only name qubits of the
 circuit

---
 src/circuit_optimizer/CircuitOptimizer.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/circuit_optimizer/CircuitOptimizer.cpp b/src/circuit_optimizer/CircuitOptimizer.cpp
index 7254bf3..a38036d 100644
--- a/src/circuit_optimizer/CircuitOptimizer.cpp
+++ b/src/circuit_optimizer/CircuitOptimizer.cpp
@@ -1272,6 +1272,12 @@ void backpropagateOutputPermutation(
 void CircuitOptimizer::backpropagateOutputPermutation(QuantumComputation& qc) {
   auto permutation = qc.outputPermutation;
 
+  // A qubit measured to a classical bit beyond the number of qubits does not
+  // correspond to any logical qubit
+  for (auto it = permutation.begin(); it != permutation.end();) {
+    it = it->second < qc.getNqubits() ? std::next(it) : permutation.erase(it);
+  }
+
   // Collect all logical qubits missing from the output permutation
   std::unordered_set<Qubit> logicalQubits{};
   for (const auto& [physical, logical] : permutation) {
-- 
2.43.0


From 25bd4a267216e645148ae15e6596f01a1526d7b2 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 23:28:00 +0000
Subject: [PATCH 100/133] fix: layers of circuits whose qubit indices have gaps

---
 src/datastructures/Layer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/datastructures/Layer.cpp b/src/datastructures/Layer.cpp
index 55eaa40..a1c1c51 100644
--- a/src/datastructures/Layer.cpp
+++ b/src/datastructures/Layer.cpp
@@ -81,7 +81,9 @@ Layer& Layer::operator=(Layer&& other) noexcept {
 
 auto Layer::constructDAG(const QuantumComputation& qc,
                          const bool commutable) -> void {
-  const auto nQubits = qc.getNqubits();
+  // the physical qubits of a circuit need not be consecutive
+  const auto nQubits =
+      static_cast<std::size_t>(qc.getHighestPhysicalQubitIndex()) + 1U;
   // For a pair of self-canceling operations like two consecutive X operations
   // or RY rotations with opposite angles the first operations is a
   // destructive operation that disables operations until the consecutive
-- 
2.43.0


From 8029095fcfcc5f0e4acd13b39df384ceb75fd8ef Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 23:28:00 +0000
Subject: [PATCH 101/133] fix: ZX-diagrams of circuits whose logical qubits
 have gaps

---
 src/zx/FunctionalityConstruction.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/zx/FunctionalityConstruction.cpp b/src/zx/FunctionalityConstruction.cpp
index 8870fde..545c48b 100644
--- a/src/zx/FunctionalityConstruction.cpp
+++ b/src/zx/FunctionalityConstruction.cpp
@@ -24,8 +24,10 @@
 
 #include <algorithm>
 #include <cstddef>
+#include <iterator>
 #include <memory>
 #include <optional>
+#include <set>
 #include <string>
 #include <variant>
 #include <vector>
@@ -649,8 +651,19 @@ ZXDiagram FunctionalityConstruction::buildFunctionality(
     qubits[i] = i;
   }
 
+  // the logical qubits of a circuit need not be consecutive
+  std::set<qc::Qubit> logicals{};
+  for (const auto& [physical, logical] : qc->initialLayout) {
+    logicals.emplace(logical);
+  }
+  qc::Permutation layout{};
+  for (const auto& [physical, logical] : qc->initialLayout) {
+    layout[physical] = static_cast<qc::Qubit>(
+        std::distance(logicals.begin(), logicals.find(logical)));
+  }
+
   for (auto it = qc->cbegin(); it != qc->cend();) {
-    it = parseCompoundOp(diag, it, qc->cend(), qubits, qc->initialLayout);
+    it = parseCompoundOp(diag, it, qc->cend(), qubits, layout);
   }
 
   for (std::size_t i = 0; i < qubits.size(); ++i) {
-- 
2.43.0


From 2832060087c6122d7024f0d1475dc814a7bb056e Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 23:38:59 +0000
Subject: [PATCH 102/133] fix: numbers next to a bucket border are inserted at
 the end they belong to

A value just below the upper border of its bucket was inserted at the front
(and vice versa), so the bucket was not sorted, later lookups missed the value
and stored it a second time.
---
 src/dd/RealNumberUniqueTable.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dd/RealNumberUniqueTable.cpp b/src/dd/RealNumberUniqueTable.cpp
index 94f7ba3..e0fb60b 100644
--- a/src/dd/RealNumberUniqueTable.cpp
+++ b/src/dd/RealNumberUniqueTable.cpp
@@ -136,9 +136,10 @@ RealNumber* RealNumberUniqueTable::lookupNonNegative(const fp val) {
   // Depending on which border of the bucket the value lies, a value either
   // needs to be inserted in the front or the back of the bucket.
   if (key == lowerKey) {
-    return insertFront(key, val);
+    // close to the upper border of the bucket, i.e., the largest value in it
+    return insertBack(key, val);
   }
-  return insertBack(key, val);
+  return insertFront(key, val);
 }
 
 bool RealNumberUniqueTable::possiblyNeedsCollection() const noexcept {
-- 
2.43.0


From 7fa97e55d508f4c8c85677050a4d5fea5d8b9804 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 23:41:00 +0000
Subject: [PATCH 103/133] fix: the last number of the table can be collected

After a reset the table no longer holds 1/2, but a single remaining number was
never collected.
---
 src/dd/RealNumberUniqueTable.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/dd/RealNumberUniqueTable.cpp b/src/dd/RealNumberUniqueTable.cpp
index e0fb60b..83b44b6 100644
--- a/src/dd/RealNumberUniqueTable.cpp
+++ b/src/dd/RealNumberUniqueTable.cpp
@@ -148,9 +148,8 @@ bool RealNumberUniqueTable::possiblyNeedsCollection() const noexcept {
 
 std::size_t RealNumberUniqueTable::garbageCollect(const bool force) noexcept {
   // nothing to be done if garbage collection is not forced, and the limit has
-  // not been reached, or the current count is minimal (the complex table
-  // always contains at least 0.5)
-  if ((!force && !possiblyNeedsCollection()) || stats.numEntries <= 1) {
+  // not been reached, or there is nothing to collect
+  if ((!force && !possiblyNeedsCollection()) || stats.numEntries == 0) {
     return 0;
   }
 
-- 
2.43.0


From b51e4f221f98f4c7ad42beb5af663395c1746ecd Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 00:09:30 +0000
Subject: [PATCH 104/133] fix: the Kronecker product keeps factors extracted by
 normalization

---
 include/mqt-core/dd/Package.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/mqt-core/dd/Package.hpp b/include/mqt-core/dd/Package.hpp
index cf6584e..3c0272d 100644
--- a/include/mqt-core/dd/Package.hpp
+++ b/include/mqt-core/dd/Package.hpp
@@ -1476,18 +1476,20 @@ private:
     auto& computeTable = getKroneckerComputeTable<Node>();
     if (const auto* r = computeTable.lookup(x.p, y.p);
         r != nullptr && !Node::isTerminal(r->p) && r->p->v == idx) {
-      return {r->p, rWeight};
+      return {r->p, r->w * rWeight};
     }
 
     constexpr std::size_t n = std::tuple_size_v<decltype(x.p->e)>;
     std::array<CachedEdge<Node>, n> edge{};
+    const Edge<Node> unitY{y.p, Complex::one()};
     for (auto i = 0U; i < n; ++i) {
-      edge[i] = kronecker2(x.p->e[i], y, yNumQubits, incIdx);
+      edge[i] = kronecker2(x.p->e[i], unitY, yNumQubits, incIdx);
     }
 
+    // normalization may extract a factor from the node
     auto e = makeDDNode(idx, edge, true);
     computeTable.insert(x.p, y.p, {e.p, e.w});
-    return {e.p, rWeight};
+    return {e.p, e.w * rWeight};
   }
 
   ///
-- 
2.43.0


From 662f79895770fd7235945e4e75f46341e8139b5e Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 00:19:45 +0000
Subject: [PATCH 105/133] fix: single-qubit gate fusion leaves measurements,
 resets and conditioned gates alone

---
 src/circuit_optimizer/CircuitOptimizer.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/circuit_optimizer/CircuitOptimizer.cpp b/src/circuit_optimizer/CircuitOptimizer.cpp
index a38036d..884f310 100644
--- a/src/circuit_optimizer/CircuitOptimizer.cpp
+++ b/src/circuit_optimizer/CircuitOptimizer.cpp
@@ -186,7 +186,7 @@ void CircuitOptimizer::singleQubitGateFusion(QuantumComputation& qc) {
   for (auto& it : qc) {
     // not a single-qubit operation
     if (!it->isStandardOperation() || !it->getControls().empty() ||
-        it->getTargets().size() > 1) {
+        it->getTargets().size() != 1) {
       addToDag(dag, &it);
       continue;
     }
@@ -204,7 +204,8 @@ void CircuitOptimizer::singleQubitGateFusion(QuantumComputation& qc) {
 
     // no single qubit op to fuse with operation
     if (!(*op)->isCompoundOperation() &&
-        (!(*op)->getControls().empty() || (*op)->getTargets().size() > 1)) {
+        (!(*op)->isStandardOperation() || !(*op)->getControls().empty() ||
+         (*op)->getTargets().size() > 1)) {
       addToDag(dag, &it);
       continue;
     }
-- 
2.43.0


From 270c624d6e7d542743285b8fa5a5d2a00dcc9d5b Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 00:19:46 +0000
Subject: [PATCH 106/133] fix: decomposing a controlled SWAP keeps its controls

---
 src/circuit_optimizer/CircuitOptimizer.cpp | 23 ++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/circuit_optimizer/CircuitOptimizer.cpp b/src/circuit_optimizer/CircuitOptimizer.cpp
index 884f310..24660e3 100644
--- a/src/circuit_optimizer/CircuitOptimizer.cpp
+++ b/src/circuit_optimizer/CircuitOptimizer.cpp
@@ -599,6 +599,8 @@ void CircuitOptimizer::decomposeSWAP(QuantumComputation& qc,
     if ((*it)->isStandardOperation()) {
       if ((*it)->getType() == SWAP) {
         const auto targets = (*it)->getTargets();
+        // only the middle CNOT needs the controls of the SWAP
+        auto controls = (*it)->getControls();
         it = qc.erase(it);
         it = qc.insert(it, std::make_unique<StandardOperation>(
                                Control{targets[0]}, targets[1], X));
@@ -607,15 +609,17 @@ void CircuitOptimizer::decomposeSWAP(QuantumComputation& qc,
               qc.insert(it, std::make_unique<StandardOperation>(targets[0], H));
           it =
               qc.insert(it, std::make_unique<StandardOperation>(targets[1], H));
-          it = qc.insert(it, std::make_unique<StandardOperation>(
-                                 Control{targets[0]}, targets[1], X));
+          controls.emplace(targets[0]);
+          it = qc.insert(
+              it, std::make_unique<StandardOperation>(controls, targets[1], X));
           it =
               qc.insert(it, std::make_unique<StandardOperation>(targets[0], H));
           it =
               qc.insert(it, std::make_unique<StandardOperation>(targets[1], H));
         } else {
-          it = qc.insert(it, std::make_unique<StandardOperation>(
-                                 Control{targets[1]}, targets[0], X));
+          controls.emplace(targets[1]);
+          it = qc.insert(
+              it, std::make_unique<StandardOperation>(controls, targets[0], X));
         }
         it = qc.insert(it, std::make_unique<StandardOperation>(
                                Control{targets[0]}, targets[1], X));
@@ -628,19 +632,22 @@ void CircuitOptimizer::decomposeSWAP(QuantumComputation& qc,
       while (cit != compOp.end()) {
         if ((*cit)->isStandardOperation() && (*cit)->getType() == SWAP) {
           const auto targets = (*cit)->getTargets();
+          auto controls = (*cit)->getControls();
           cit = compOp.erase(cit);
           cit = compOp.insert<StandardOperation>(cit, Control{targets[0]},
                                                  targets[1], X);
           if (isDirectedArchitecture) {
             cit = compOp.insert<StandardOperation>(cit, targets[0], H);
             cit = compOp.insert<StandardOperation>(cit, targets[1], H);
-            cit = compOp.insert<StandardOperation>(cit, Control{targets[0]},
-                                                   targets[1], X);
+            controls.emplace(targets[0]);
+            cit =
+                compOp.insert<StandardOperation>(cit, controls, targets[1], X);
             cit = compOp.insert<StandardOperation>(cit, targets[0], H);
             cit = compOp.insert<StandardOperation>(cit, targets[1], H);
           } else {
-            cit = compOp.insert<StandardOperation>(cit, Control{targets[1]},
-                                                   targets[0], X);
+            controls.emplace(targets[1]);
+            cit =
+                compOp.insert<StandardOperation>(cit, controls, targets[0], X);
           }
           cit = compOp.insert<StandardOperation>(cit, Control{targets[0]},
                                                  targets[1], X);
-- 
2.43.0


From c782cc0aab69d84a8d1f6ef7a98d31ae27b85046 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 00:19:46 +0000
Subject: [PATCH 107/133] fix: merging blocks does not move operations past
 finalized ones

---
 src/circuit_optimizer/CircuitOptimizer.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/circuit_optimizer/CircuitOptimizer.cpp b/src/circuit_optimizer/CircuitOptimizer.cpp
index 24660e3..a4148d7 100644
--- a/src/circuit_optimizer/CircuitOptimizer.cpp
+++ b/src/circuit_optimizer/CircuitOptimizer.cpp
@@ -1392,11 +1392,18 @@ struct DSU {
     bitBlocks[parent1].insert(bitBlocks[parent1].end(),
                               bitBlocks[parent2].begin(),
                               bitBlocks[parent2].end());
-    if (currentBlockInCircuit[parent2] != nullptr) {
-      (*currentBlockInCircuit[parent2]) =
-          std::make_unique<StandardOperation>(0, I);
+    // The merged block takes the later of both positions in the circuit. The
+    // earlier block may only be followed by operations on other qubits, while
+    // the later block must not be moved in front of finalized operations.
+    auto*& position1 = currentBlockInCircuit[parent1];
+    auto*& position2 = currentBlockInCircuit[parent2];
+    if (position1 != nullptr && position2 != nullptr && position1 < position2) {
+      std::swap(position1, position2);
     }
-    currentBlockInCircuit[parent2] = nullptr;
+    if (position2 != nullptr) {
+      (*position2) = std::make_unique<StandardOperation>(0, I);
+    }
+    position2 = nullptr;
     currentBlockOperations[parent2] = std::make_unique<CompoundOperation>();
     bitBlocks[parent2].clear();
   }
-- 
2.43.0


From 72988521088ad64e06f7238b99a17bedcc58bdcc Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 00:21:47 +0000
Subject: [PATCH 108/133] fix: resets in compound operations are eliminated

---
 src/circuit_optimizer/CircuitOptimizer.cpp | 85 +++++++++-------------
 1 file changed, 34 insertions(+), 51 deletions(-)

diff --git a/src/circuit_optimizer/CircuitOptimizer.cpp b/src/circuit_optimizer/CircuitOptimizer.cpp
index a4148d7..17a0199 100644
--- a/src/circuit_optimizer/CircuitOptimizer.cpp
+++ b/src/circuit_optimizer/CircuitOptimizer.cpp
@@ -689,6 +689,15 @@ void changeControls(Controls& controls,
     }
   }
 }
+
+void changeQubits(Operation& op, const std::map<Qubit, Qubit>& replacementMap) {
+  if (op.isStandardOperation() || op.isClassicControlledOperation()) {
+    changeTargets(op.getTargets(), replacementMap);
+    changeControls(op.getControls(), replacementMap);
+  } else if (op.isNonUnitaryOperation()) {
+    changeTargets(op.getTargets(), replacementMap);
+  }
+}
 } // namespace
 
 void CircuitOptimizer::eliminateResets(QuantumComputation& qc) {
@@ -700,66 +709,40 @@ void CircuitOptimizer::eliminateResets(QuantumComputation& qc) {
   //                                  c: 2/══════╩══════════╩═
   //                                             0          1
   auto replacementMap = std::map<Qubit, Qubit>();
+  const auto replaceTargetsOfReset = [&](const Operation& reset) {
+    for (const auto& target : reset.getTargets()) {
+      const auto indexAddQubit = static_cast<Qubit>(qc.getNqubits());
+      qc.addQubit(indexAddQubit, indexAddQubit, indexAddQubit);
+      replacementMap[target] = indexAddQubit;
+    }
+  };
   auto it = qc.begin();
   while (it != qc.end()) {
     if ((*it)->getType() == Reset) {
-      for (const auto& target : (*it)->getTargets()) {
-        auto indexAddQubit = static_cast<Qubit>(qc.getNqubits());
-        qc.addQubit(indexAddQubit, indexAddQubit, indexAddQubit);
-        auto oldReset = replacementMap.find(target);
-        if (oldReset != replacementMap.end()) {
-          oldReset->second = indexAddQubit;
-        } else {
-          replacementMap.try_emplace(target, indexAddQubit);
-        }
-      }
+      replaceTargetsOfReset(**it);
       it = qc.erase(it);
-    } else if (!replacementMap.empty()) {
-      if ((*it)->isCompoundOperation()) {
-        auto& compOp = dynamic_cast<CompoundOperation&>(**it);
-        auto compOpIt = compOp.begin();
-        while (compOpIt != compOp.end()) {
-          if ((*compOpIt)->getType() == Reset) {
-            for (const auto& compTarget : (*compOpIt)->getTargets()) {
-              auto indexAddQubit = static_cast<Qubit>(qc.getNqubits());
-              qc.addQubit(indexAddQubit, indexAddQubit, indexAddQubit);
-              if (auto oldReset = replacementMap.find(compTarget);
-                  oldReset != replacementMap.end()) {
-                oldReset->second = indexAddQubit;
-              } else {
-                replacementMap.try_emplace(compTarget, indexAddQubit);
-              }
-            }
-            compOpIt = compOp.erase(compOpIt);
-          } else {
-            if ((*compOpIt)->isStandardOperation() ||
-                (*compOpIt)->isClassicControlledOperation()) {
-              auto& targets = (*compOpIt)->getTargets();
-              auto& controls = (*compOpIt)->getControls();
-              changeTargets(targets, replacementMap);
-              changeControls(controls, replacementMap);
-            } else if ((*compOpIt)->isNonUnitaryOperation()) {
-              auto& targets = (*compOpIt)->getTargets();
-              changeTargets(targets, replacementMap);
-            }
-            ++compOpIt;
-          }
+      continue;
+    }
+    if ((*it)->isCompoundOperation()) {
+      auto& compOp = dynamic_cast<CompoundOperation&>(**it);
+      auto compOpIt = compOp.begin();
+      while (compOpIt != compOp.end()) {
+        if ((*compOpIt)->getType() == Reset) {
+          replaceTargetsOfReset(**compOpIt);
+          compOpIt = compOp.erase(compOpIt);
+        } else {
+          changeQubits(**compOpIt, replacementMap);
+          ++compOpIt;
         }
       }
-      if ((*it)->isStandardOperation() ||
-          (*it)->isClassicControlledOperation()) {
-        auto& targets = (*it)->getTargets();
-        auto& controls = (*it)->getControls();
-        changeTargets(targets, replacementMap);
-        changeControls(controls, replacementMap);
-      } else if ((*it)->isNonUnitaryOperation()) {
-        auto& targets = (*it)->getTargets();
-        changeTargets(targets, replacementMap);
+      if (compOp.empty()) {
+        it = qc.erase(it);
+        continue;
       }
-      ++it;
     } else {
-      ++it;
+      changeQubits(**it, replacementMap);
     }
+    ++it;
   }
 }
 
-- 
2.43.0


From 6f4cab8f7c07d597dab9344c8e2a897ee35b2e21 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 00:23:29 +0000
Subject: [PATCH 109/133] fix: deferred measurements respect conditions, order
 and overwritten bits

---
 src/circuit_optimizer/CircuitOptimizer.cpp | 113 +++++++++++++++++----
 1 file changed, 93 insertions(+), 20 deletions(-)

diff --git a/src/circuit_optimizer/CircuitOptimizer.cpp b/src/circuit_optimizer/CircuitOptimizer.cpp
index 17a0199..127ad3a 100644
--- a/src/circuit_optimizer/CircuitOptimizer.cpp
+++ b/src/circuit_optimizer/CircuitOptimizer.cpp
@@ -746,6 +746,42 @@ void CircuitOptimizer::eliminateResets(QuantumComputation& qc) {
   }
 }
 
+namespace {
+// whether the operation yields the same result before and after a measurement
+// of the qubit
+bool commutesWithMeasurement(const Operation& op, const Qubit qubit) {
+  if (const auto* compOp = dynamic_cast<const CompoundOperation*>(&op)) {
+    return std::all_of(compOp->begin(), compOp->end(), [&](const auto& o) {
+      return commutesWithMeasurement(*o, qubit);
+    });
+  }
+  const auto& targets = op.getTargets();
+  return op.isDiagonalGate() ||
+         std::find(targets.begin(), targets.end(), qubit) == targets.end();
+}
+
+// whether the classic-controlled operation is executed for the given value
+bool isExecuted(const ClassicControlledOperation& op,
+                const std::uint64_t value) {
+  const auto expectedValue = op.getExpectedValue();
+  switch (op.getComparisonKind()) {
+  case Eq:
+    return value == expectedValue;
+  case Neq:
+    return value != expectedValue;
+  case Lt:
+    return value < expectedValue;
+  case Leq:
+    return value <= expectedValue;
+  case Gt:
+    return value > expectedValue;
+  case Geq:
+    return value >= expectedValue;
+  }
+  return false;
+}
+} // namespace
+
 void CircuitOptimizer::deferMeasurements(QuantumComputation& qc) {
   //      ┌───┐┌─┐                         ┌───┐     ┌─┐
   // q_0: ┤ H ├┤M├───────             q_0: ┤ H ├──■──┤M├
@@ -755,7 +791,7 @@ void CircuitOptimizer::deferMeasurements(QuantumComputation& qc) {
   //            ║ ┌──╨──┐             c: 2/═══════════╩═
   // c: 2/══════╩═╡ = 1 ╞                             0
   //            0 └─────┘
-  std::unordered_map<Qubit, std::size_t> qubitsToAddMeasurements{};
+  std::vector<std::pair<Qubit, Bit>> measurementsToAdd{};
   auto it = qc.begin();
   while (it != qc.end()) {
     if (const auto* measurement = dynamic_cast<NonUnitaryOperation*>(it->get());
@@ -769,8 +805,9 @@ void CircuitOptimizer::deferMeasurements(QuantumComputation& qc) {
             "supported. Try decomposing your measurements.");
       }
 
-      // if this is the last operation, nothing has to be done
-      if (*it == qc.back()) {
+      // if this is the last operation, nothing has to be done unless it has to
+      // follow measurements that are added later
+      if (*it == qc.back() && measurementsToAdd.empty()) {
         break;
       }
 
@@ -778,7 +815,13 @@ void CircuitOptimizer::deferMeasurements(QuantumComputation& qc) {
       const auto measurementBit = classics[0];
 
       // remember q->c for adding measurements later
-      qubitsToAddMeasurements[measurementQubit] = measurementBit;
+      const auto newMeasurement =
+          std::make_pair(measurementQubit, measurementBit);
+      measurementsToAdd.erase(std::remove(measurementsToAdd.begin(),
+                                          measurementsToAdd.end(),
+                                          newMeasurement),
+                              measurementsToAdd.end());
+      measurementsToAdd.emplace_back(newMeasurement);
 
       // remove the measurement from the vector of operations
       it = qc.erase(it);
@@ -792,9 +835,10 @@ void CircuitOptimizer::deferMeasurements(QuantumComputation& qc) {
       while (opIt != qc.end()) {
         const auto* operation = opIt->get();
         if (operation->isUnitary()) {
-          // if an operation does not act on the measured qubit, the insert
-          // location for potential operations has to be updated
-          if (!operation->actsOn(measurementQubit)) {
+          // if an operation commutes with the measurement, the insert location
+          // for potential operations has to be updated
+          if (currentInsertionPoint == opIt &&
+              commutesWithMeasurement(*operation, measurementQubit)) {
             ++currentInsertionPoint;
           }
           ++opIt;
@@ -810,15 +854,17 @@ void CircuitOptimizer::deferMeasurements(QuantumComputation& qc) {
         if (const auto* measurement2 =
                 dynamic_cast<NonUnitaryOperation*>(opIt->get());
             measurement2 != nullptr && operation->getType() == Measure) {
-          const auto& targets2 = measurement2->getTargets();
           const auto& classics2 = measurement2->getClassics();
 
-          // if this is the same measurement a breakpoint has been reached
-          if (targets == targets2 && classics == classics2) {
+          // once the classical bit is overwritten a breakpoint has been reached
+          if (std::find(classics2.begin(), classics2.end(), measurementBit) !=
+              classics2.end()) {
             break;
           }
 
-          ++currentInsertionPoint;
+          if (currentInsertionPoint == opIt) {
+            ++currentInsertionPoint;
+          }
           ++opIt;
           continue;
         }
@@ -826,8 +872,6 @@ void CircuitOptimizer::deferMeasurements(QuantumComputation& qc) {
         if (const auto* classicOp =
                 dynamic_cast<ClassicControlledOperation*>(opIt->get());
             classicOp != nullptr) {
-          const auto& expectedValue = classicOp->getExpectedValue();
-
           Bit cBit = 0;
           if (const auto& controlRegister = classicOp->getControlRegister();
               controlRegister.has_value()) {
@@ -848,7 +892,9 @@ void CircuitOptimizer::deferMeasurements(QuantumComputation& qc) {
 
           // if this is not the classical bit that is measured, continue
           if (cBit != measurementBit) {
-            if (!operation->actsOn(measurementQubit)) {
+            if (currentInsertionPoint == opIt &&
+                commutesWithMeasurement(*classicOp->getOperation(),
+                                        measurementQubit)) {
               ++currentInsertionPoint;
             }
             ++opIt;
@@ -880,12 +926,33 @@ void CircuitOptimizer::deferMeasurements(QuantumComputation& qc) {
             }
           }
 
+          // the operation must not be moved in front of operations that act on
+          // the same qubits
+          for (const auto qubit : standardOp->getUsedQubits()) {
+            if (std::any_of(currentInsertionPoint, opIt,
+                            [&](const auto& o) { return o->actsOn(qubit); })) {
+              throw std::runtime_error(
+                  "Operation between a measurement and a classic-controlled "
+                  "operation prevents deferring the measurement.");
+            }
+          }
+
           // determine the appropriate control to add
           auto controls = standardOp->getControls();
-          const auto controlQubit = measurementQubit;
-          const auto controlType =
-              (expectedValue == 1) ? Control::Type::Pos : Control::Type::Neg;
-          controls.emplace(controlQubit, controlType);
+          const auto executedOnZero = isExecuted(*classicOp, 0U);
+          const auto executedOnOne = isExecuted(*classicOp, 1U);
+          auto isExecutable = executedOnZero || executedOnOne;
+          if (executedOnZero != executedOnOne) {
+            const auto controlType =
+                executedOnOne ? Control::Type::Pos : Control::Type::Neg;
+            // an opposite control on the measured qubit is never satisfied
+            isExecutable =
+                controls.find(Control{measurementQubit,
+                                      executedOnOne ? Control::Type::Neg
+                                                    : Control::Type::Pos}) ==
+                controls.end();
+            controls.emplace(measurementQubit, controlType);
+          }
 
           const auto parameters = standardOp->getParameter();
 
@@ -907,6 +974,10 @@ void CircuitOptimizer::deferMeasurements(QuantumComputation& qc) {
             currentInsertionPoint = opIt;
           }
 
+          if (!isExecutable) {
+            continue;
+          }
+
           itInvalidated = (it >= currentInsertionPoint);
           // insert the new operation (invalidated all pointer onwards)
           currentInsertionPoint = qc.insert(
@@ -923,14 +994,16 @@ void CircuitOptimizer::deferMeasurements(QuantumComputation& qc) {
           opIt = currentInsertionPoint;
         }
       }
+      // `it` already points to the operation after the removed measurement
+      continue;
     }
     ++it;
   }
-  if (qubitsToAddMeasurements.empty()) {
+  if (measurementsToAdd.empty()) {
     return;
   }
   qc.outputPermutation.clear();
-  for (const auto& [qubit, clbit] : qubitsToAddMeasurements) {
+  for (const auto& [qubit, clbit] : measurementsToAdd) {
     qc.measure(qubit, clbit);
   }
   qc.initializeIOMapping();
-- 
2.43.0


From a7c30e3ab1931f053a4053d6014dbe155acab211 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 00:23:30 +0000
Subject: [PATCH 110/133] fix: only measurements that are final and unused are
 removed

---
 src/circuit_optimizer/CircuitOptimizer.cpp | 64 +++++++++++++++++++++-
 1 file changed, 62 insertions(+), 2 deletions(-)

diff --git a/src/circuit_optimizer/CircuitOptimizer.cpp b/src/circuit_optimizer/CircuitOptimizer.cpp
index 127ad3a..40e5dc7 100644
--- a/src/circuit_optimizer/CircuitOptimizer.cpp
+++ b/src/circuit_optimizer/CircuitOptimizer.cpp
@@ -514,10 +514,27 @@ void removeFinalMeasurementsRecursive(
       auto cit = compOp->rbegin();
       while (cit != compOp->rend()) {
         auto* cop = cit->get();
-        if (cop->getNtargets() > 0 && cop->getTargets()[0] != idx) {
+        if (cop->getType() == I ||
+            (!cop->isClassicControlledOperation() && !cop->actsOn(idx))) {
           ++cit;
           continue;
         }
+        // nothing else may follow on any of the targets
+        const auto& targets = cop->getTargets();
+        const auto isFinal =
+            (cop->getType() == Measure || cop->getType() == Barrier) &&
+            std::none_of(compOp->rbegin(), cit, [&](const auto& later) {
+              return later->getType() != I &&
+                     std::any_of(targets.begin(), targets.end(),
+                                 [&](const auto target) {
+                                   return later->actsOn(target);
+                                 });
+            });
+        if (!isFinal) {
+          dagIterators.at(idx) = dag.at(idx).rend();
+          onlyMeasurement = false;
+          break;
+        }
         onlyMeasurement =
             removeFinalMeasurement(dag, dagIterators, idx, it, cop);
         if (!onlyMeasurement) {
@@ -579,8 +596,51 @@ bool removeFinalMeasurement(CircuitOptimizer::DAG& dag,
 }
 } // namespace
 
+namespace {
+// An operation conditioned on the outcome of a measurement is also part of the
+// wire of the measured qubit since the measurement is not final then.
+void addConditionsToDag(CircuitOptimizer::DAG& dag,
+                        std::unique_ptr<Operation>* op,
+                        const Operation& operation,
+                        std::unordered_map<Bit, Qubit>& measuredQubits) {
+  if (const auto* compOp = dynamic_cast<const CompoundOperation*>(&operation)) {
+    for (const auto& subOp : *compOp) {
+      addConditionsToDag(dag, op, *subOp, measuredQubits);
+    }
+  } else if (const auto* classicOp =
+                 dynamic_cast<const ClassicControlledOperation*>(&operation)) {
+    const auto addCondition = [&](const Bit bit) {
+      if (const auto it = measuredQubits.find(bit);
+          it != measuredQubits.end() && dag.at(it->second).back() != op) {
+        dag.at(it->second).push_back(op);
+      }
+    };
+    if (const auto& bit = classicOp->getControlBit(); bit.has_value()) {
+      addCondition(*bit);
+    }
+    if (const auto& reg = classicOp->getControlRegister(); reg.has_value()) {
+      for (std::size_t i = 0; i < reg->getSize(); ++i) {
+        addCondition(reg->getStartIndex() + i);
+      }
+    }
+  } else if (const auto* measurement =
+                 dynamic_cast<const NonUnitaryOperation*>(&operation);
+             measurement != nullptr && measurement->getType() == Measure) {
+    for (std::size_t i = 0; i < measurement->getNtargets(); ++i) {
+      measuredQubits[measurement->getClassics()[i]] =
+          measurement->getTargets()[i];
+    }
+  }
+}
+} // namespace
+
 void CircuitOptimizer::removeFinalMeasurements(QuantumComputation& qc) {
-  auto dag = constructDAG(qc);
+  auto dag = DAG(qc.getHighestPhysicalQubitIndex() + 1);
+  std::unordered_map<Bit, Qubit> measuredQubits{};
+  for (auto& op : qc) {
+    addToDag(dag, &op);
+    addConditionsToDag(dag, &op, *op, measuredQubits);
+  }
   DAGReverseIterators dagIterators{dag.size()};
   for (size_t q = 0; q < dag.size(); ++q) {
     dagIterators.at(q) = (dag.at(q).rbegin());
-- 
2.43.0


From 53de4cf3ce3cc4b2f5bafd7ffa8d1c4a822e2ad2 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 00:23:30 +0000
Subject: [PATCH 111/133] fix: diagonal gates in multi-qubit compound
 operations are kept

---
 src/circuit_optimizer/CircuitOptimizer.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/circuit_optimizer/CircuitOptimizer.cpp b/src/circuit_optimizer/CircuitOptimizer.cpp
index 40e5dc7..81370d3 100644
--- a/src/circuit_optimizer/CircuitOptimizer.cpp
+++ b/src/circuit_optimizer/CircuitOptimizer.cpp
@@ -320,9 +320,14 @@ void removeDiagonalGatesBeforeMeasureRecursive(
       }
 
     } else if (op->isCompoundOperation()) {
-      // iterate over all gates of compound operation and upon success increase
-      // all corresponding iterators
       auto* compOp = dynamic_cast<CompoundOperation*>(op);
+      // operations on several qubits are only considered individually
+      if (compOp->getUsedQubits().size() > 1) {
+        it = dag.at(idx).rend();
+        break;
+      }
+      // iterate over all gates of compound operation and upon success increase
+      // the corresponding iterator
       bool onlyDiagonalGates = true;
       auto cit = compOp->rbegin();
       while (cit != compOp->rend()) {
@@ -334,11 +339,7 @@ void removeDiagonalGatesBeforeMeasureRecursive(
         ++cit;
       }
       if (onlyDiagonalGates) {
-        for (size_t q = 0; q < dag.size(); ++q) {
-          if (compOp->actsOn(static_cast<Qubit>(q))) {
-            ++(dagIterators.at(q));
-          }
-        }
+        ++it;
       }
     } else if (op->isClassicControlledOperation()) {
       // consider the operation that is classically controlled and proceed as
-- 
2.43.0


From 9b353402c96b6e8cea3ae19c9e069bee76e5b7ca Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 00:25:09 +0000
Subject: [PATCH 112/133] fix: blocks are placed at their latest operation

---
 src/circuit_optimizer/CircuitOptimizer.cpp | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/circuit_optimizer/CircuitOptimizer.cpp b/src/circuit_optimizer/CircuitOptimizer.cpp
index 81370d3..da1b26c 100644
--- a/src/circuit_optimizer/CircuitOptimizer.cpp
+++ b/src/circuit_optimizer/CircuitOptimizer.cpp
@@ -1569,8 +1569,7 @@ void CircuitOptimizer::collectBlocks(QuantumComputation& qc,
 
   // create an empty disjoint set union data structure
   DSU dsu{};
-  for (auto opIt = qc.begin(); opIt != qc.end(); ++opIt) {
-    auto& op = *opIt;
+  for (auto& op : qc) {
     bool canProcess = true;
     bool makesTooBig = false;
 
@@ -1687,19 +1686,14 @@ void CircuitOptimizer::collectBlocks(QuantumComputation& qc,
         prev = q;
       }
       const auto block = dsu.findBlock(static_cast<Qubit>(prev));
-      const auto empty = dsu.blockEmpty(block);
-      if (empty) {
-        dsu.currentBlockInCircuit[block] = &(*opIt);
-      }
+      // the block takes the place of its latest operation since finalized
+      // operations on the same qubits may precede this operation
+      auto*& position = dsu.currentBlockInCircuit[block];
       dsu.currentBlockOperations[block]->emplace_back(std::move(op));
-      // if this is not the first operation in a block, remove it from the
-      // circuit
-      if (!empty) {
-        opIt = qc.erase(opIt);
-        // this can only ever be called on at least the second operation in a
-        // circuit, so it is safe to decrement the iterator here.
-        --opIt;
+      if (position != nullptr) {
+        *position = std::make_unique<StandardOperation>(0, I);
       }
+      position = &op;
     }
   }
 
-- 
2.43.0


From f7ca52f57e83d13eda5721f997fa826d9b06b04f Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 00:25:25 +0000
Subject: [PATCH 113/133] fix: diagonal two-qubit gates are only removed if
 both qubits are measured

---
 src/circuit_optimizer/CircuitOptimizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/circuit_optimizer/CircuitOptimizer.cpp b/src/circuit_optimizer/CircuitOptimizer.cpp
index da1b26c..e2a6c98 100644
--- a/src/circuit_optimizer/CircuitOptimizer.cpp
+++ b/src/circuit_optimizer/CircuitOptimizer.cpp
@@ -381,7 +381,7 @@ bool removeDiagonalGate(CircuitOptimizer::DAG& dag,
     return false;
   }
 
-  if (op->getNcontrols() != 0) {
+  if (op->getNcontrols() != 0 || op->getNtargets() > 1) {
     // need to check all controls and targets
     bool onlyDiagonalGates = true;
     for (const auto& control : op->getControls()) {
-- 
2.43.0


From 2b987073ea93cf77039686038879b6027da11eab Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 00:26:14 +0000
Subject: [PATCH 114/133] fix: passes recognize non-unitary operations in
 compound operations

---
 src/circuit_optimizer/CircuitOptimizer.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/circuit_optimizer/CircuitOptimizer.cpp b/src/circuit_optimizer/CircuitOptimizer.cpp
index e2a6c98..b77b9b5 100644
--- a/src/circuit_optimizer/CircuitOptimizer.cpp
+++ b/src/circuit_optimizer/CircuitOptimizer.cpp
@@ -808,6 +808,15 @@ void CircuitOptimizer::eliminateResets(QuantumComputation& qc) {
 }
 
 namespace {
+// compound operations are only unitary if all of their operations are
+bool isUnitaryOperation(const Operation& op) {
+  if (const auto* compOp = dynamic_cast<const CompoundOperation*>(&op)) {
+    return std::all_of(compOp->begin(), compOp->end(),
+                       [](const auto& o) { return isUnitaryOperation(*o); });
+  }
+  return op.isUnitary();
+}
+
 // whether the operation yields the same result before and after a measurement
 // of the qubit
 bool commutesWithMeasurement(const Operation& op, const Qubit qubit) {
@@ -895,7 +904,7 @@ void CircuitOptimizer::deferMeasurements(QuantumComputation& qc) {
       // iterate over all subsequent operations
       while (opIt != qc.end()) {
         const auto* operation = opIt->get();
-        if (operation->isUnitary()) {
+        if (isUnitaryOperation(*operation)) {
           // if an operation commutes with the measurement, the insert location
           // for potential operations has to be updated
           if (currentInsertionPoint == opIt &&
@@ -906,6 +915,13 @@ void CircuitOptimizer::deferMeasurements(QuantumComputation& qc) {
           continue;
         }
 
+        if (operation->isCompoundOperation()) {
+          throw std::runtime_error(
+              "Non-unitary compound operation encountered in deferMeasurements "
+              "routine. Please use the flattenOperations method before "
+              "deferring measurements.");
+        }
+
         if (operation->getType() == Reset) {
           throw std::runtime_error(
               "Reset encountered in deferMeasurements routine. Please use the "
@@ -1574,7 +1590,7 @@ void CircuitOptimizer::collectBlocks(QuantumComputation& qc,
     bool makesTooBig = false;
 
     // check if the operation can be processed
-    if (!op->isUnitary()) {
+    if (!isUnitaryOperation(*op)) {
       canProcess = false;
     }
 
-- 
2.43.0


From 00ac5426ddf887131967e4b6fa93df0399323002 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 01:07:29 +0000
Subject: [PATCH 115/133] fix: accept OpenQASM version declarations without a
 minor version

---
 src/qasm3/Parser.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/qasm3/Parser.cpp b/src/qasm3/Parser.cpp
index 4fb193b..80b9a58 100644
--- a/src/qasm3/Parser.cpp
+++ b/src/qasm3/Parser.cpp
@@ -112,6 +112,14 @@ Parser::Parser(std::istream& is, const bool implicitlyIncludeStdgates) {
 
 std::shared_ptr<VersionDeclaration> Parser::parseVersionDeclaration() {
   auto const tBegin = expect(Token::Kind::OpenQasm);
+  // the minor version is optional
+  if (current().kind == Token::Kind::IntegerLiteral) {
+    auto const version = static_cast<double>(current().val);
+    scan();
+    auto const tEnd = expect(Token::Kind::Semicolon);
+    return std::make_shared<VersionDeclaration>(makeDebugInfo(tBegin, tEnd),
+                                                version);
+  }
   Token const versionToken = expect(Token::Kind::FloatLiteral);
   auto const tEnd = expect(Token::Kind::Semicolon);
   return std::make_shared<VersionDeclaration>(makeDebugInfo(tBegin, tEnd),
-- 
2.43.0


From edb89bdf8f5033439ec57185192438bd9b15991b Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 01:08:07 +0000
Subject: [PATCH 116/133] fix: read layouts only from comments that are layout
 comments

---
 src/qasm3/Scanner.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/qasm3/Scanner.cpp b/src/qasm3/Scanner.cpp
index 930d18f..edc93c7 100644
--- a/src/qasm3/Scanner.cpp
+++ b/src/qasm3/Scanner.cpp
@@ -73,13 +73,16 @@ std::optional<Token> Scanner::consumeWhitespaceAndComments() {
       nextCh();
     }
 
-    static const auto INITIAL_LAYOUT_REGEX = std::regex("i (\\d+ )*(\\d+)");
-    static const auto OUTPUT_PERMUTATION_REGEX = std::regex("o (\\d+ )*(\\d+)");
+    // only comments that consist of nothing but the permutation are special
+    static const auto INITIAL_LAYOUT_REGEX =
+        std::regex("//\\s*i(\\s+\\d+)+\\s*");
+    static const auto OUTPUT_PERMUTATION_REGEX =
+        std::regex("//\\s*o(\\s+\\d+)+\\s*");
 
     const auto str = content.str();
-    if (std::regex_search(str, INITIAL_LAYOUT_REGEX)) {
+    if (std::regex_match(str, INITIAL_LAYOUT_REGEX)) {
       t.kind = Token::Kind::InitialLayout;
-    } else if (std::regex_search(str, OUTPUT_PERMUTATION_REGEX)) {
+    } else if (std::regex_match(str, OUTPUT_PERMUTATION_REGEX)) {
       t.kind = Token::Kind::OutputPermutation;
     } else {
       return consumeWhitespaceAndComments();
-- 
2.43.0


From 447bc38105296e1f164c9676962d1ac29a008acb Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 01:08:34 +0000
Subject: [PATCH 117/133] fix: mirror the comparison when an OpenQASM condition
 has the register on the right

---
 src/qasm3/Importer.cpp | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/qasm3/Importer.cpp b/src/qasm3/Importer.cpp
index efaa6fc..45d34a1 100644
--- a/src/qasm3/Importer.cpp
+++ b/src/qasm3/Importer.cpp
@@ -235,7 +235,28 @@ Importer::translateCondition(
                               identifier + "' in condition.",
                           debugInfo);
     }
-    return std::tuple{creg->second, *comparisonKind, val};
+    if (lhsIsIdentifier) {
+      return std::tuple{creg->second, *comparisonKind, val};
+    }
+    // the operands are swapped, and so is the comparison
+    auto mirroredKind = *comparisonKind;
+    switch (*comparisonKind) {
+    case qc::Lt:
+      mirroredKind = qc::Gt;
+      break;
+    case qc::Leq:
+      mirroredKind = qc::Geq;
+      break;
+    case qc::Gt:
+      mirroredKind = qc::Lt;
+      break;
+    case qc::Geq:
+      mirroredKind = qc::Leq;
+      break;
+    default:
+      break;
+    }
+    return std::tuple{creg->second, mirroredKind, val};
   }
   if (const auto unaryExpression =
           std::dynamic_pointer_cast<UnaryExpression>(condition);
-- 
2.43.0


From 2622eda200e15c6cc944dc3af8b5d0e5e3d64d2d Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 01:08:35 +0000
Subject: [PATCH 118/133] fix: compare only the given bit in OpenQASM
 conditions on indexed registers

---
 src/qasm3/Importer.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/qasm3/Importer.cpp b/src/qasm3/Importer.cpp
index 45d34a1..308d827 100644
--- a/src/qasm3/Importer.cpp
+++ b/src/qasm3/Importer.cpp
@@ -235,6 +235,18 @@ Importer::translateCondition(
                               identifier + "' in condition.",
                           debugInfo);
     }
+    if (!indexedIdentifier->indices.empty()) {
+      // a single bit of the register
+      if ((*comparisonKind != qc::Eq && *comparisonKind != qc::Neq) ||
+          val > 1) {
+        throw CompilerError("Single bits can only be tested for (in)equality "
+                            "with 0 or 1.",
+                            debugInfo);
+      }
+      std::vector<qc::Bit> bits{};
+      translateBitOperand(indexedIdentifier, bits, debugInfo);
+      return std::pair{bits.at(0), (val == 1) == (*comparisonKind == qc::Eq)};
+    }
     if (lhsIsIdentifier) {
       return std::tuple{creg->second, *comparisonKind, val};
     }
-- 
2.43.0


From 896fac0e06f00f7fb37fd498b2e8b5047eb80b32 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 01:08:35 +0000
Subject: [PATCH 119/133] fix: keep the declared type of registers when they
 are compared

---
 src/qasm3/passes/TypeCheckPass.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/qasm3/passes/TypeCheckPass.cpp b/src/qasm3/passes/TypeCheckPass.cpp
index f4dd067..d771959 100644
--- a/src/qasm3/passes/TypeCheckPass.cpp
+++ b/src/qasm3/passes/TypeCheckPass.cpp
@@ -208,8 +208,14 @@ InferredType TypeCheckPass::visitBinaryExpression(
       // coerce to float or signed int
       ty = rhs;
     }
-    ty.type->setDesignator(
-        std::max(lhs.type->getDesignator(), rhs.type->getDesignator()));
+    // the types of the operands themselves must not change
+    const auto width =
+        std::max(lhs.type->getDesignator(), rhs.type->getDesignator());
+    if (const auto designatedType =
+            std::dynamic_pointer_cast<DesignatedType<uint64_t>>(ty.type)) {
+      ty.type = std::make_shared<DesignatedType<uint64_t>>(designatedType->type,
+                                                           width);
+    }
   } else if (lhs.type != rhs.type) {
     std::stringstream ss;
     ss << "Type mismatch in binary expression: ";
-- 
2.43.0


From 5ba77191f520aaddedda740bc166ed4e0f96b4fc Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 01:08:35 +0000
Subject: [PATCH 120/133] fix: refuse recursive gate definitions instead of
 exhausting the stack

---
 include/mqt-core/qasm3/Importer.hpp | 2 ++
 src/qasm3/Importer.cpp              | 6 ++++++
 2 files changed, 8 insertions(+)

diff --git a/include/mqt-core/qasm3/Importer.hpp b/include/mqt-core/qasm3/Importer.hpp
index 2d4b69d..d0f224e 100644
--- a/include/mqt-core/qasm3/Importer.hpp
+++ b/include/mqt-core/qasm3/Importer.hpp
@@ -90,6 +90,8 @@ private:
   qc::QuantumComputation* qc{};
 
   std::map<std::string, std::shared_ptr<Gate>> gates;
+  /// Gate definitions whose bodies are currently being expanded
+  std::vector<const Gate*> activeGates;
 
   bool openQASM2CompatMode{false};
 
diff --git a/src/qasm3/Importer.cpp b/src/qasm3/Importer.cpp
index 308d827..5c6366a 100644
--- a/src/qasm3/Importer.cpp
+++ b/src/qasm3/Importer.cpp
@@ -798,6 +798,11 @@ std::unique_ptr<qc::Operation> Importer::applyQuantumOperation(
     return op;
   }
   if (auto* compoundGate = dynamic_cast<CompoundGate*>(gate.get())) {
+    if (std::find(activeGates.begin(), activeGates.end(), compoundGate) !=
+        activeGates.end()) {
+      throw CompilerError("Gate definitions must not be recursive.", debugInfo);
+    }
+    activeGates.emplace_back(compoundGate);
     constEvalPass.pushEnv();
 
     for (size_t i = 0; i < compoundGate->parameterNames.size(); ++i) {
@@ -869,6 +874,7 @@ std::unique_ptr<qc::Operation> Importer::applyQuantumOperation(
     }
 
     constEvalPass.popEnv();
+    activeGates.pop_back();
 
     if (op->getOps().size() == 1) {
       return std::move(op->getOps()[0]);
-- 
2.43.0


From fec815fc8085482a12bc1a9e604e8e6a66643373 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 01:09:12 +0000
Subject: [PATCH 121/133] fix: allow OpenQASM programs to end with an include
 statement

---
 src/qasm3/Parser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/qasm3/Parser.cpp b/src/qasm3/Parser.cpp
index 80b9a58..a3284f3 100644
--- a/src/qasm3/Parser.cpp
+++ b/src/qasm3/Parser.cpp
@@ -151,6 +151,12 @@ std::vector<std::shared_ptr<Statement>> Parser::parseProgram() {
       }
     }
 
+    // nothing has to follow an include statement
+    if (current().kind == Token::Kind::Include) {
+      parseInclude();
+      continue;
+    }
+
     statements.push_back(parseStatement());
   }
   return statements;
-- 
2.43.0


From bb211762e885c7fabb10297f8a61ff4bba2beee8 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 01:10:04 +0000
Subject: [PATCH 122/133] fix: evaluate the negation of unsigned constants in
 OpenQASM programs

---
 src/qasm3/passes/ConstEvalPass.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/qasm3/passes/ConstEvalPass.cpp b/src/qasm3/passes/ConstEvalPass.cpp
index 888bccc..e498908 100644
--- a/src/qasm3/passes/ConstEvalPass.cpp
+++ b/src/qasm3/passes/ConstEvalPass.cpp
@@ -493,8 +493,11 @@ std::optional<ConstEvalValue> ConstEvalPass::visitUnaryExpression(
     }
     break;
   case UnaryExpression::Negate:
-    if (val->type == ConstEvalValue::Type::ConstInt) {
-      val->value = -std::get<0>(val->value);
+    if (val->type == ConstEvalValue::Type::ConstInt ||
+        val->type == ConstEvalValue::Type::ConstUint) {
+      val->value = static_cast<int64_t>(
+          -static_cast<uint64_t>(std::get<0>(val->value)));
+      val->type = ConstEvalValue::Type::ConstInt;
     } else if (val->type == ConstEvalValue::Type::ConstFloat) {
       val->value = -std::get<1>(val->value);
     } else {
-- 
2.43.0


From 4da04ec52c2bc68dc04f5c802076dcd4001f12cd Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 01:10:04 +0000
Subject: [PATCH 123/133] fix: evaluate functions of integer constants in
 OpenQASM programs

---
 src/qasm3/passes/ConstEvalPass.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/qasm3/passes/ConstEvalPass.cpp b/src/qasm3/passes/ConstEvalPass.cpp
index e498908..516a43d 100644
--- a/src/qasm3/passes/ConstEvalPass.cpp
+++ b/src/qasm3/passes/ConstEvalPass.cpp
@@ -475,6 +475,25 @@ std::optional<ConstEvalValue> ConstEvalPass::visitUnaryExpression(
     return std::nullopt;
   }
 
+  // The mathematical functions take real arguments.
+  switch (unaryExpression->op) {
+  case UnaryExpression::Sin:
+  case UnaryExpression::Cos:
+  case UnaryExpression::Tan:
+  case UnaryExpression::Exp:
+  case UnaryExpression::Ln:
+  case UnaryExpression::Sqrt:
+    if (val->type == ConstEvalValue::Type::ConstInt) {
+      val = ConstEvalValue{static_cast<double>(std::get<0>(val->value))};
+    } else if (val->type == ConstEvalValue::Type::ConstUint) {
+      val = ConstEvalValue{static_cast<double>(
+          static_cast<uint64_t>(std::get<0>(val->value)))};
+    }
+    break;
+  default:
+    break;
+  }
+
   // For each unary operator, we need to check the type of the operand and
   // determine whether the operation is valid.
   switch (unaryExpression->op) {
-- 
2.43.0


From c89d7ec23bd874cee441a11f37b3479b773c0427 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 01:10:04 +0000
Subject: [PATCH 124/133] fix: negative differences of constants are not huge
 unsigned numbers

---
 src/qasm3/passes/ConstEvalPass.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/qasm3/passes/ConstEvalPass.cpp b/src/qasm3/passes/ConstEvalPass.cpp
index 516a43d..0a0157b 100644
--- a/src/qasm3/passes/ConstEvalPass.cpp
+++ b/src/qasm3/passes/ConstEvalPass.cpp
@@ -191,6 +191,10 @@ ConstEvalValue evalIntExpression(BinaryExpression::Op op, int64_t lhs,
     break;
   case BinaryExpression::Subtract:
     result.value = static_cast<int64_t>(lhsU - rhsU);
+    if (lhsU < rhsU) {
+      // the difference of two literals may well be negative
+      result.type = ConstEvalValue::Type::ConstInt;
+    }
     break;
   case BinaryExpression::Multiply:
     if (isSigned) {
-- 
2.43.0


From acfe0e66eaade90c42b8db5eae418e7791cef0ed Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 01:10:04 +0000
Subject: [PATCH 125/133] fix: do not truncate quotients of integers in
 OpenQASM 2 programs

---
 include/mqt-core/qasm3/passes/ConstEvalPass.hpp | 4 ++++
 src/qasm3/Importer.cpp                          | 1 +
 src/qasm3/passes/ConstEvalPass.cpp              | 9 +++++++++
 3 files changed, 14 insertions(+)

diff --git a/include/mqt-core/qasm3/passes/ConstEvalPass.hpp b/include/mqt-core/qasm3/passes/ConstEvalPass.hpp
index 333762b..c8d4876 100644
--- a/include/mqt-core/qasm3/passes/ConstEvalPass.hpp
+++ b/include/mqt-core/qasm3/passes/ConstEvalPass.hpp
@@ -54,6 +54,7 @@ class ConstEvalPass final
       public ExpressionVisitor<std::optional<ConstEvalValue>>,
       public TypeVisitor<std::shared_ptr<Expression>> {
   NestedEnvironment<ConstEvalValue> env;
+  bool realDivision = false;
 
 public:
   ConstEvalPass() = default;
@@ -69,6 +70,9 @@ public:
 
   void processStatement(Statement& statement) override;
 
+  /// Quotients of integers are real numbers, as in OpenQASM 2.
+  void useRealDivision() { realDivision = true; }
+
   void pushEnv() { env.push(); }
   void popEnv() { env.pop(); }
 
diff --git a/src/qasm3/Importer.cpp b/src/qasm3/Importer.cpp
index 5c6366a..ee4cec2 100644
--- a/src/qasm3/Importer.cpp
+++ b/src/qasm3/Importer.cpp
@@ -356,6 +356,7 @@ void Importer::visitVersionDeclaration(
     const std::shared_ptr<VersionDeclaration> versionDeclaration) {
   if (versionDeclaration->version < 3) {
     openQASM2CompatMode = true;
+    constEvalPass.useRealDivision();
   }
 }
 
diff --git a/src/qasm3/passes/ConstEvalPass.cpp b/src/qasm3/passes/ConstEvalPass.cpp
index 0a0157b..a34081e 100644
--- a/src/qasm3/passes/ConstEvalPass.cpp
+++ b/src/qasm3/passes/ConstEvalPass.cpp
@@ -450,6 +450,15 @@ std::optional<ConstEvalValue> ConstEvalPass::visitBinaryExpression(
         ".");
   }
 
+  // OpenQASM 2 only knows real numbers in expressions.
+  if (realDivision && binaryExpression->op == BinaryExpression::Divide &&
+      (lhsVal->type == ConstEvalValue::Type::ConstInt ||
+       lhsVal->type == ConstEvalValue::Type::ConstUint)) {
+    return evalFloatExpression(
+        binaryExpression->op, static_cast<double>(std::get<0>(lhsVal->value)),
+        static_cast<double>(std::get<0>(rhsVal->value)));
+  }
+
   // If we are operating on two types with different width, coerce to the wider.
   size_t const width = std::max(lhsVal->width, rhsVal->width);
 
-- 
2.43.0


From e73e6c97459b8fd732255ab67db0c54ed9dd34c3 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 01:11:00 +0000
Subject: [PATCH 126/133] fix: let gate parameters shadow global identifiers in
 the type check

---
 src/qasm3/passes/TypeCheckPass.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/qasm3/passes/TypeCheckPass.cpp b/src/qasm3/passes/TypeCheckPass.cpp
index d771959..3f3847f 100644
--- a/src/qasm3/passes/TypeCheckPass.cpp
+++ b/src/qasm3/passes/TypeCheckPass.cpp
@@ -79,14 +79,14 @@ void TypeCheckPass::visitGateStatement(
   const auto oldEnv = env;
 
   for (const auto& param : gateStatement->parameters->identifiers) {
-    env.emplace(param->identifier,
-                InferredType{std::dynamic_pointer_cast<ResolvedType>(
-                    DesignatedType<uint64_t>::getFloatTy(64))});
+    env.insert_or_assign(param->identifier,
+                         InferredType{std::dynamic_pointer_cast<ResolvedType>(
+                             DesignatedType<uint64_t>::getFloatTy(64))});
   }
   for (const auto& operand : gateStatement->qubits->identifiers) {
-    env.emplace(operand->identifier,
-                InferredType{std::dynamic_pointer_cast<ResolvedType>(
-                    DesignatedType<uint64_t>::getQubitTy(1))});
+    env.insert_or_assign(operand->identifier,
+                         InferredType{std::dynamic_pointer_cast<ResolvedType>(
+                             DesignatedType<uint64_t>::getQubitTy(1))});
   }
 
   for (const auto& stmt : gateStatement->statements) {
@@ -357,8 +357,8 @@ InferredType TypeCheckPass::visitIndexedIdentifier(
   // the declared identifier must not change.
   if (const auto designatedType =
           std::dynamic_pointer_cast<DesignatedType<uint64_t>>(type.type)) {
-    type.type = std::make_shared<DesignatedType<uint64_t>>(
-        designatedType->type, 1);
+    type.type =
+        std::make_shared<DesignatedType<uint64_t>>(designatedType->type, 1);
     return type;
   }
   type.type->setDesignator(1);
-- 
2.43.0


From ee4a82b529cf5323bfa0c6ca3cd223bf5067bb7f Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 01:11:00 +0000
Subject: [PATCH 127/133] fix: evaluate constant indices in all OpenQASM
 statements

---
 .../mqt-core/qasm3/passes/ConstEvalPass.hpp   | 12 +++
 src/qasm3/passes/ConstEvalPass.cpp            | 83 ++++++++++++++++---
 2 files changed, 83 insertions(+), 12 deletions(-)

diff --git a/include/mqt-core/qasm3/passes/ConstEvalPass.hpp b/include/mqt-core/qasm3/passes/ConstEvalPass.hpp
index c8d4876..807bfe4 100644
--- a/include/mqt-core/qasm3/passes/ConstEvalPass.hpp
+++ b/include/mqt-core/qasm3/passes/ConstEvalPass.hpp
@@ -56,6 +56,10 @@ class ConstEvalPass final
   NestedEnvironment<ConstEvalValue> env;
   bool realDivision = false;
 
+  void evaluateIndices(const IndexedIdentifier& id);
+  void evaluateIndices(const GateOperand& operand);
+  void evaluateIndices(const std::shared_ptr<Expression>& expression);
+
 public:
   ConstEvalPass() = default;
   ~ConstEvalPass() override = default;
@@ -80,6 +84,14 @@ public:
       std::shared_ptr<DeclarationStatement> declarationStatement) override;
   void visitGateCallStatement(
       std::shared_ptr<GateCallStatement> gateCallStatement) override;
+  void visitAssignmentStatement(
+      std::shared_ptr<AssignmentStatement> assignmentStatement) override;
+  void visitBarrierStatement(
+      std::shared_ptr<BarrierStatement> barrierStatement) override;
+  void visitResetStatement(
+      std::shared_ptr<ResetStatement> resetStatement) override;
+  void
+  visitIfStatement(std::shared_ptr<IfStatement> ifStatement) override;
 
   std::optional<ConstEvalValue> visitBinaryExpression(
       std::shared_ptr<BinaryExpression> binaryExpression) override;
diff --git a/src/qasm3/passes/ConstEvalPass.cpp b/src/qasm3/passes/ConstEvalPass.cpp
index a34081e..9043077 100644
--- a/src/qasm3/passes/ConstEvalPass.cpp
+++ b/src/qasm3/passes/ConstEvalPass.cpp
@@ -56,6 +56,9 @@ void ConstEvalPass::visitDeclarationStatement(
     const std::shared_ptr<DeclarationStatement> declarationStatement) {
   // The type designator expression is already resolved by the type check pass.
   if (!declarationStatement->isConst) {
+    if (declarationStatement->expression != nullptr) {
+      evaluateIndices(declarationStatement->expression->expression);
+    }
     return;
   }
   if (declarationStatement->expression == nullptr) {
@@ -74,6 +77,72 @@ void ConstEvalPass::visitDeclarationStatement(
   this->env.emplace(declarationStatement->identifier, *value);
 }
 
+void ConstEvalPass::evaluateIndices(const IndexedIdentifier& id) {
+  for (const auto& indexOperator : id.indices) {
+    for (auto& index : indexOperator->indexExpressions) {
+      if (const auto evaluatedArg = visit(index)) {
+        index = evaluatedArg->toExpr();
+      }
+    }
+  }
+}
+
+void ConstEvalPass::evaluateIndices(const GateOperand& operand) {
+  if (!operand.isHardwareQubit()) {
+    evaluateIndices(*operand.getIdentifier());
+  }
+}
+
+void ConstEvalPass::evaluateIndices(
+    const std::shared_ptr<Expression>& expression) {
+  if (const auto id = std::dynamic_pointer_cast<IndexedIdentifier>(expression);
+      id != nullptr) {
+    evaluateIndices(*id);
+  } else if (const auto measure =
+                 std::dynamic_pointer_cast<MeasureExpression>(expression);
+             measure != nullptr) {
+    evaluateIndices(*measure->gate);
+  } else if (const auto unary =
+                 std::dynamic_pointer_cast<UnaryExpression>(expression);
+             unary != nullptr) {
+    evaluateIndices(unary->operand);
+  } else if (const auto binary =
+                 std::dynamic_pointer_cast<BinaryExpression>(expression);
+             binary != nullptr) {
+    evaluateIndices(binary->lhs);
+    evaluateIndices(binary->rhs);
+  }
+}
+
+void ConstEvalPass::visitAssignmentStatement(
+    const std::shared_ptr<AssignmentStatement> assignmentStatement) {
+  evaluateIndices(*assignmentStatement->identifier);
+  evaluateIndices(assignmentStatement->expression->expression);
+}
+
+void ConstEvalPass::visitBarrierStatement(
+    const std::shared_ptr<BarrierStatement> barrierStatement) {
+  for (const auto& gate : barrierStatement->gates) {
+    evaluateIndices(*gate);
+  }
+}
+
+void ConstEvalPass::visitResetStatement(
+    const std::shared_ptr<ResetStatement> resetStatement) {
+  evaluateIndices(*resetStatement->gate);
+}
+
+void ConstEvalPass::visitIfStatement(
+    const std::shared_ptr<IfStatement> ifStatement) {
+  evaluateIndices(ifStatement->condition);
+  for (const auto& statement : ifStatement->thenStatements) {
+    statement->accept(this);
+  }
+  for (const auto& statement : ifStatement->elseStatements) {
+    statement->accept(this);
+  }
+}
+
 void ConstEvalPass::visitGateCallStatement(
     std::shared_ptr<GateCallStatement> gateCallStatement) {
   for (auto& arg : gateCallStatement->arguments) {
@@ -81,18 +150,8 @@ void ConstEvalPass::visitGateCallStatement(
       arg = evaluatedArg->toExpr();
     }
   }
-  for (auto& op : gateCallStatement->operands) {
-    if (op->isHardwareQubit()) {
-      continue;
-    }
-    auto id = op->getIdentifier();
-    for (auto& indexOperator : id->indices) {
-      for (auto& index : indexOperator->indexExpressions) {
-        if (auto evaluatedArg = visit(index)) {
-          index = evaluatedArg->toExpr();
-        }
-      }
-    }
+  for (const auto& op : gateCallStatement->operands) {
+    evaluateIndices(*op);
   }
   for (auto& modifier : gateCallStatement->modifiers) {
     if (auto powModifier = std::dynamic_pointer_cast<PowGateModifier>(modifier);
-- 
2.43.0


From 3afef4bcb79ba86a2f47de0e01981cd53a2cb36d Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 01:11:00 +0000
Subject: [PATCH 128/133] fix: refuse OpenQASM programs that end inside of a
 comment

---
 src/qasm3/Scanner.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qasm3/Scanner.cpp b/src/qasm3/Scanner.cpp
index edc93c7..2dd4576 100644
--- a/src/qasm3/Scanner.cpp
+++ b/src/qasm3/Scanner.cpp
@@ -100,6 +100,9 @@ std::optional<Token> Scanner::consumeWhitespaceAndComments() {
     while (ch != 0 && (ch != '*' || peek() != '/')) {
       nextCh();
     }
+    if (ch == 0) {
+      throw std::runtime_error("Unterminated comment in the OpenQASM input.");
+    }
     // consume */
     expect('*');
     expect('/');
-- 
2.43.0


From a82853a912ee41589e14049f4f6a5e2fbb4bae65 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 01:11:27 +0000
Subject: [PATCH 129/133] fix: read upper-case hexadecimal digits and refuse
 integer literals out of range

---
 src/qasm3/Scanner.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/qasm3/Scanner.cpp b/src/qasm3/Scanner.cpp
index 2dd4576..7ea31ac 100644
--- a/src/qasm3/Scanner.cpp
+++ b/src/qasm3/Scanner.cpp
@@ -18,6 +18,7 @@
 #include <cstdint>
 #include <iostream>
 #include <istream>
+#include <limits>
 #include <optional>
 #include <regex>
 #include <sstream>
@@ -179,13 +180,19 @@ uint64_t Scanner::parseIntegerLiteral(const std::string& str,
                                       const uint8_t base) {
   uint64_t val = 0;
   for (const auto c : str) {
+    uint64_t digit = 0;
     if (isNum(c)) {
-      val *= base;
-      val += static_cast<uint64_t>(c) - '0';
+      digit = static_cast<uint64_t>(c - '0');
+    } else if (c >= 'A' && c <= 'F') {
+      digit = static_cast<uint64_t>(c - 'A') + 10;
     } else {
-      val *= base;
-      val += static_cast<uint64_t>(c) - 'a' + 10;
+      digit = static_cast<uint64_t>(c - 'a') + 10;
     }
+    if (val > (std::numeric_limits<uint64_t>::max() - digit) / base) {
+      throw std::runtime_error("Integer literal '" + str +
+                               "' is out of range.");
+    }
+    val = val * base + digit;
   }
   return val;
 }
-- 
2.43.0


From 0fbcee2ea32bfd29e73824e0f10689707ae85a96 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 01:11:43 +0000
Subject: [PATCH 130/133] fix: read negative OpenQASM literals in all bases

---
 src/qasm3/Scanner.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/qasm3/Scanner.cpp b/src/qasm3/Scanner.cpp
index 7ea31ac..3c95616 100644
--- a/src/qasm3/Scanner.cpp
+++ b/src/qasm3/Scanner.cpp
@@ -201,6 +201,12 @@ Token Scanner::consumeNumberLiteral() {
   Token t(line, col);
   uint8_t base = 10;
 
+  bool negative = false;
+  if (ch == '-') {
+    negative = true;
+    nextCh();
+  }
+
   if (ch == '0') {
     switch (peek()) {
     case 'b':
@@ -224,14 +230,6 @@ Token Scanner::consumeNumberLiteral() {
       break;
     }
   }
-  bool negative = false;
-  if (ch == '-') {
-    if (base != 10) {
-      error("Negative numbers are only allowed in base 10");
-    }
-    negative = true;
-    nextCh();
-  }
 
   const auto valBeforeDecimalSeparator = consumeNumberLiteral(base);
 
-- 
2.43.0


From 48df02f15e1c050fe3987c1f7c78805cccf198c3 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 01:15:05 +0000
Subject: [PATCH 131/133] fix: evaluate the number of controls of modifiers in
 gate bodies

---
 src/qasm3/Importer.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/qasm3/Importer.cpp b/src/qasm3/Importer.cpp
index ee4cec2..3ed58c8 100644
--- a/src/qasm3/Importer.cpp
+++ b/src/qasm3/Importer.cpp
@@ -594,7 +594,14 @@ std::unique_ptr<qc::Operation> Importer::evaluateGateCall(
     if (auto ctrlModifier =
             std::dynamic_pointer_cast<CtrlGateModifier>(modifier);
         ctrlModifier != nullptr) {
-      size_t const n = evaluatePositiveConstant(ctrlModifier->expression,
+      // expressions in gate bodies have not been evaluated yet
+      auto numControls = ctrlModifier->expression;
+      if (numControls != nullptr) {
+        if (const auto result = constEvalPass.visit(numControls)) {
+          numControls = result->toExpr();
+        }
+      }
+      size_t const n = evaluatePositiveConstant(numControls,
                                                 gateCallStatement->debugInfo,
                                                 /*defaultValue=*/
                                                 1);
-- 
2.43.0


From fea70e9cb5f3166965b37c5754a13779dbf06bff Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 01:17:20 +0000
Subject: [PATCH 132/133] fix: hide gate parameters from the gates called in a
 gate body

---
 include/mqt-core/qasm3/NestedEnvironment.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/mqt-core/qasm3/NestedEnvironment.hpp b/include/mqt-core/qasm3/NestedEnvironment.hpp
index 34d0034..7cfcd96 100644
--- a/include/mqt-core/qasm3/NestedEnvironment.hpp
+++ b/include/mqt-core/qasm3/NestedEnvironment.hpp
@@ -27,9 +27,10 @@ public:
   void pop() { env.pop_back(); }
 
   std::optional<T> find(std::string key) {
-    for (auto it = env.rbegin(); it != env.rend(); ++it) {
-      auto found = it->find(key);
-      if (found != it->end()) {
+    // Scopes other than the current one belong to the callers of a gate, whose
+    // names aren't visible in its body. Only those of the global scope are.
+    for (const auto* scope : {&env.back(), &env.front()}) {
+      if (const auto found = scope->find(key); found != scope->end()) {
         return found->second;
       }
     }
-- 
2.43.0


From ee1595070bf05e18ed6ca6d260d99bd8d1ed3c41 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 01:27:54 +0000
Subject: [PATCH 133/133] fix: read a minus sign after an operand as a
 subtraction

---
 include/mqt-core/qasm3/Parser.hpp | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/include/mqt-core/qasm3/Parser.hpp b/include/mqt-core/qasm3/Parser.hpp
index 9c7c477..9b28e55 100644
--- a/include/mqt-core/qasm3/Parser.hpp
+++ b/include/mqt-core/qasm3/Parser.hpp
@@ -21,6 +21,7 @@
 #include "Token.hpp"
 #include "Types_fwd.hpp"
 
+#include <cmath>
 #include <istream>
 #include <memory>
 #include <optional>
@@ -39,6 +40,28 @@ class Parser final {
   struct ScannerState {
   private:
     std::unique_ptr<std::istream> is;
+    std::optional<Token> subtrahend;
+
+    /// A negative literal after an operand is the literal to subtract from it
+    void splitSubtraction() {
+      const bool afterOperand = t.kind == Token::Kind::Identifier ||
+                                t.kind == Token::Kind::IntegerLiteral ||
+                                t.kind == Token::Kind::FloatLiteral ||
+                                t.kind == Token::Kind::RParen ||
+                                t.kind == Token::Kind::RBracket;
+      const bool negativeLiteral =
+          (next.kind == Token::Kind::IntegerLiteral && next.isSigned) ||
+          (next.kind == Token::Kind::FloatLiteral &&
+           std::signbit(next.valReal));
+      if (!afterOperand || !negativeLiteral) {
+        return;
+      }
+      subtrahend = next;
+      subtrahend->val = -subtrahend->val;
+      subtrahend->valReal = -subtrahend->valReal;
+      subtrahend->isSigned = false;
+      next = Token(Token::Kind::Minus, subtrahend->line, subtrahend->col);
+    }
 
   public:
     Token last{0, 0};
@@ -51,7 +74,12 @@ class Parser final {
     bool scan() {
       last = t;
       t = next;
-      next = scanner->next();
+      if (subtrahend.has_value()) {
+        next = *std::exchange(subtrahend, std::nullopt);
+      } else {
+        next = scanner->next();
+        splitSubtraction();
+      }
 
       return t.kind != Token::Kind::Eof;
     }
-- 
2.43.0

