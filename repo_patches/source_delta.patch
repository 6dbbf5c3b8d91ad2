From f14001de14ace02fadbc79d863a2c9da9149515b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:14 +0000
Subject: [PATCH 01/32] fix: re-initializing an ElementTree discards the
 previous tree

init_ElementTree() on an already initialized tree kept the sons of the former
patches, such that the enumeration of elements, their number and all links
were wrong.
---
 Bembel/src/ClusterTree/ElementTree.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Bembel/src/ClusterTree/ElementTree.hpp b/Bembel/src/ClusterTree/ElementTree.hpp
index 6c7bb1b..4ee76be 100644
--- a/Bembel/src/ClusterTree/ElementTree.hpp
+++ b/Bembel/src/ClusterTree/ElementTree.hpp
@@ -115,6 +115,8 @@ class ElementTree {
       number_of_points_ = 0;
       number_of_elements_ = number_of_patches_;
       ElementTreeNode &root = root_;
+      // drop the tree of a previous initialization
+      root.sons_.clear();
       root.sons_.resize(number_of_patches_);
       for (auto i = 0; i < number_of_patches_; ++i) {
         root.sons_[i].adjcents_ = std::vector<ElementTreeNode *>(4, nullptr);
-- 
2.43.0


From e618dd14539e21d0d625af8a3f254cdc77eb6081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:16 +0000
Subject: [PATCH 02/32] fix: identify shared edges of patches that are adjacent
 via several edges

---
 Bembel/ClusterTree                     |  1 +
 Bembel/src/ClusterTree/ElementTree.hpp | 30 ++++++++++++++++++++------
 2 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/Bembel/ClusterTree b/Bembel/ClusterTree
index c4727d1..32ae4c8 100644
--- a/Bembel/ClusterTree
+++ b/Bembel/ClusterTree
@@ -27,6 +27,7 @@
  **/
 
 #include <Eigen/Dense>
+#include <algorithm>
 #include <array>
 #include <iostream>
 #include <limits>
diff --git a/Bembel/src/ClusterTree/ElementTree.hpp b/Bembel/src/ClusterTree/ElementTree.hpp
index 4ee76be..6d8871c 100644
--- a/Bembel/src/ClusterTree/ElementTree.hpp
+++ b/Bembel/src/ClusterTree/ElementTree.hpp
@@ -522,7 +522,8 @@ class ElementTree {
             int k = 0;
             for (; k < 4; ++k)
               if (cur_neighbour.adjcents_[k] != nullptr &&
-                  cur_neighbour.adjcents_[k]->id_ == it->id_)
+                  cur_neighbour.adjcents_[k]->id_ == it->id_ &&
+                  isSameEdge(*it, j, cur_neighbour, k))
                 break;
             retval.push_back({it->id_, cur_neighbour.id_, j, k});
           }
@@ -578,6 +579,16 @@ class ElementTree {
       return ((v1 - v2).norm() < Constants::pt_comp_tolerance);
     }
   };
+  /**
+   * \brief returns true if edge e1 of element el1 and edge e2 of element el2
+   *        have the same end points. Two elements may share more than one edge.
+   */
+  bool isSameEdge(const ElementTreeNode &el1, int e1,
+                  const ElementTreeNode &el2, int e2) const {
+    const int a1 = el1.vertices_[e1], b1 = el1.vertices_[(e1 + 1) % 4];
+    const int a2 = el2.vertices_[e2], b2 = el2.vertices_[(e2 + 1) % 4];
+    return (a1 == b2 && b1 == a2) || (a1 == a2 && b1 == b2);
+  }
   /**
    * \brief function to set up the local topology, i.e. the adjacents
    *        of a refined element
@@ -634,7 +645,8 @@ class ElementTree {
       // is there a neighbour?
       if (cur_el.adjcents_[i] != nullptr) {
         for (auto j = 0; j < 4; ++j)
-          if (cur_el.adjcents_[i]->adjcents_[j] == std::addressof(cur_el)) {
+          if (cur_el.adjcents_[i]->adjcents_[j] == std::addressof(cur_el) &&
+              isSameEdge(cur_el, i, *(cur_el.adjcents_[i]), j)) {
             refNeighbours[i] = j;
             break;
           }
@@ -652,11 +664,15 @@ class ElementTree {
           // this is the midpoint of the shared edge
           ptIds[i] = ref_cur_neighbour.sons_[refNeighbours[i]]
                          .vertices_[(refNeighbours[i] + 1) % 4];
-          // these are the two elements adjacent to the edge
-          elements.push_back(
-              std::addressof(ref_cur_neighbour.sons_[refNeighbours[i]]));
-          elements.push_back(std::addressof(
-              ref_cur_neighbour.sons_[(refNeighbours[i] + 1) % 4]));
+          // these are the two elements adjacent to the edge (which may be known
+          // already, if the neighbour is adjacent via several edges)
+          for (auto j = 0; j < 2; ++j) {
+            ElementTreeNode *son = std::addressof(
+                ref_cur_neighbour.sons_[(refNeighbours[i] + j) % 4]);
+            if (std::find(elements.begin(), elements.end(), son) ==
+                elements.end())
+              elements.push_back(son);
+          }
         } else {
           // otherwise add the point id to the tree
           ptIds[i] = number_of_points_;
-- 
2.43.0


From 6c32f8502be6cd3803cdfe1dd3f6a6bbd1363ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:29 +0000
Subject: [PATCH 03/32] fix: remove all merged dof sets when gluing continuous
 spaces

---
 Bembel/src/AnsatzSpace/Glue.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Bembel/src/AnsatzSpace/Glue.hpp b/Bembel/src/AnsatzSpace/Glue.hpp
index a1c0d7a..023cf79 100644
--- a/Bembel/src/AnsatzSpace/Glue.hpp
+++ b/Bembel/src/AnsatzSpace/Glue.hpp
@@ -482,11 +482,11 @@ struct glue_identificationmaker_<Derived, DifferentialForm::Continuous> {
     }
     // Now we need to clean up the empty dofsets, since subsequent routines
     // assume there to be at least one element.
-    for (auto x = out.begin(); x != out.end(); ++x) {
-      if ((*x).dofs.size() == 0) {
-        out.erase(x);
-      }
-    }
+    out.erase(std::remove_if(out.begin(), out.end(),
+                             [](const GlueRoutines::dofIdentification &d) {
+                               return d.dofs.empty();
+                             }),
+              out.end());
     return out;
   }
 };
-- 
2.43.0


From afd1d1cdfe5e8da573d5cb46f0586ff98ea50097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:50 +0000
Subject: [PATCH 04/32] fix: accept patches whose shared edge has its mid point
 at the origin

---
 Bembel/src/ClusterTree/ClusterTree.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/Bembel/src/ClusterTree/ClusterTree.hpp b/Bembel/src/ClusterTree/ClusterTree.hpp
index 6b59723..0bd2c0a 100644
--- a/Bembel/src/ClusterTree/ClusterTree.hpp
+++ b/Bembel/src/ClusterTree/ClusterTree.hpp
@@ -147,11 +147,16 @@ class ClusterTree {
       if (edge[2] > 0 && edge[3] > 0) {
         Eigen::Vector3d a = geo[edge[0]].eval(edge_midpoints[edge[2]]);
         Eigen::Vector3d b = geo[edge[1]].eval(edge_midpoints[edge[3]]);
-        Eigen::Vector3d na = geo[edge[0]].evalNormal(edge_midpoints[edge[2]]);
-        Eigen::Vector3d nb = geo[edge[1]].evalNormal(edge_midpoints[edge[3]]);
+        // neighbouring patches are oriented the same way if they traverse their
+        // shared edge in opposite directions
+        const int c = (edge[3] + 1) % 4;
+        Eigen::Vector3d start_a = geo[edge[0]].eval(
+            Constants::corners[0][edge[2]], Constants::corners[1][edge[2]]);
+        Eigen::Vector3d end_b = geo[edge[1]].eval(Constants::corners[0][c],
+                                                  Constants::corners[1][c]);
         assert((a - b).norm() < Constants::pt_comp_tolerance &&
                "These points should coincide according to the element tree");
-        assert(a.dot(b) > 0 &&
+        assert((start_a - end_b).norm() < Constants::pt_comp_tolerance &&
                "Normals across patches are oriented the same way");
       }
     }
-- 
2.43.0


From 5cded9c83a656bbe8443d2be9db2eb94dea49db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:03 +0000
Subject: [PATCH 05/32] fix: keep all coefficients of smooth splines of degree
 six and more in the projector

---
 Bembel/src/AnsatzSpace/Projector.hpp | 42 +++++++++++-----------------
 Bembel/src/util/Constants.hpp        |  2 +-
 2 files changed, 18 insertions(+), 26 deletions(-)

diff --git a/Bembel/src/AnsatzSpace/Projector.hpp b/Bembel/src/AnsatzSpace/Projector.hpp
index 666cff1..0ce9511 100644
--- a/Bembel/src/AnsatzSpace/Projector.hpp
+++ b/Bembel/src/AnsatzSpace/Projector.hpp
@@ -208,28 +208,19 @@ inline _proj_info makeLocalProjectionTriplets(
   // Now we assemble our system which we use for the interpolation
   assert(masksize == maximal_polynomial_degree &&
          "projector.cpp: System needs to be square");
-  Eigen::Matrix<double, -1, -1> system(
-      masksize * masksize,
-      maximal_polynomial_degree * maximal_polynomial_degree);
+  Eigen::Matrix<double, -1, -1> system(masksize, maximal_polynomial_degree);
 
   // Here, we suddenly use the degree for basisevaluation, i.e.,
   // maximal_polynomial_degree-1. This is confusing, but correct and tested.
+  // The interpolation problem has tensor product structure, thus it suffices to
+  // consider one direction.
   {
-    double vals_y[Constants::MaxP + 1];
-    double vals_x[Constants::MaxP + 1];
-    for (int iy = 0; iy < maximal_polynomial_degree; ++iy) {
+    double vals[Constants::MaxP + 1];
+    for (int i = 0; i < maximal_polynomial_degree; ++i) {
       Bembel::Basis::ShapeFunctionHandler::evalBasis(
-          maximal_polynomial_degree - 1, vals_y, mask[iy]);
-      for (int ix = 0; ix < maximal_polynomial_degree; ++ix) {
-        Bembel::Basis::ShapeFunctionHandler::evalBasis(
-            maximal_polynomial_degree - 1, vals_x, mask[ix]);
-        for (int jy = 0; jy < maximal_polynomial_degree; ++jy) {
-          for (int jx = 0; jx < maximal_polynomial_degree; ++jx) {
-            system(iy * masksize + ix, jy * maximal_polynomial_degree + jx) =
-                vals_x[jx] * vals_y[jy];
-          }
-        }
-      }
+          maximal_polynomial_degree - 1, vals, mask[i]);
+      for (int j = 0; j < maximal_polynomial_degree; ++j)
+        system(i, j) = vals[j];
     }
   }
 
@@ -297,23 +288,24 @@ inline _proj_info makeLocalProjectionTriplets(
         std::vector<double> vals_y =
             Spl::DeBoor(c_coefs_y, c_space_knot_y, local_mask_y);
 
-        // assemble and solve interpolation problem
-        Eigen::VectorXd rhs(masksize * masksize);
-        for (int iy = 0; iy < masksize; ++iy)
-          for (int ix = 0; ix < masksize; ++ix)
-            rhs(iy * masksize + ix) = vals_x[ix] * vals_y[iy];
-        Eigen::VectorXd sol = pplu.solve(rhs);
+        // solve the interpolation problem in each direction
+        const Eigen::VectorXd sol_x = pplu.solve(
+            Eigen::Map<const Eigen::VectorXd>(vals_x.data(), masksize));
+        const Eigen::VectorXd sol_y = pplu.solve(
+            Eigen::Map<const Eigen::VectorXd>(vals_y.data(), masksize));
 
         // insert entries into helperstruct
         for (int i = 0;
              i < maximal_polynomial_degree * maximal_polynomial_degree; ++i) {
-          if (std::abs(sol(i)) > Constants::projector_tolerance) {
+          const double val = sol_x(i % maximal_polynomial_degree) *
+                             sol_y(i / maximal_polynomial_degree);
+          if (std::abs(val) > Constants::projector_tolerance) {
             out.cols.push_back(element->patch_ * (c_space_dim) +
                                (c_space_dim_x * dof_y) + dof_x);
             out.rows.push_back((element_number * maximal_polynomial_degree *
                                 maximal_polynomial_degree) +
                                i);
-            out.vals.push_back(sol(i));
+            out.vals.push_back(val);
           }
         }
       }
diff --git a/Bembel/src/util/Constants.hpp b/Bembel/src/util/Constants.hpp
index 8ff6a66..bb3226e 100644
--- a/Bembel/src/util/Constants.hpp
+++ b/Bembel/src/util/Constants.hpp
@@ -34,7 +34,7 @@ constexpr size_t Bembel_alloc_size = 100;
 // the interpolation problem solved during the assembly of the projector needs
 // to filter some almost-zero coefficients that might be introduced during the
 // solution of the linear system
-constexpr double projector_tolerance = 1e-4;
+constexpr double projector_tolerance = 1e-10;
 ////////////////////////////////////////////////////////////////////////////////
 /// methods
 ////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From bff77ea2aa045bf5f43752109bf8e1e3c0e0a0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:31 +0000
Subject: [PATCH 06/32] fix: scale patch derivatives by the width of the knot
 span

---
 Bembel/src/Geometry/Patch.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/Bembel/src/Geometry/Patch.hpp b/Bembel/src/Geometry/Patch.hpp
index 4c0a121..dbdf7a3 100644
--- a/Bembel/src/Geometry/Patch.hpp
+++ b/Bembel/src/Geometry/Patch.hpp
@@ -187,6 +187,13 @@ class Patch {
                                                       xbasisD, scaledx);
     Bembel::Basis::ShapeFunctionHandler::evalDerBasis(polynomial_degree_y_ - 1,
                                                       ybasisD, scaledy);
+    // chain rule, since the basis lives on the span between two knots
+    for (int i = 0; i < polynomial_degree_x_; ++i)
+      xbasisD[i] /=
+          unique_knots_x_[x_location + 1] - unique_knots_x_[x_location];
+    for (int i = 0; i < polynomial_degree_y_; ++i)
+      ybasisD[i] /=
+          unique_knots_y_[y_location + 1] - unique_knots_y_[y_location];
 
     double tmp[4] = {0., 0., 0., 0.};
     double tmpDx[4] = {0., 0., 0., 0.};
@@ -326,6 +333,13 @@ class Patch {
                                                       xbasisD, scaledx);
     Bembel::Basis::ShapeFunctionHandler::evalDerBasis(polynomial_degree_y_ - 1,
                                                       ybasisD, scaledy);
+    // chain rule, since the basis lives on the span between two knots
+    for (int i = 0; i < polynomial_degree_x_; ++i)
+      xbasisD[i] /=
+          unique_knots_x_[x_location + 1] - unique_knots_x_[x_location];
+    for (int i = 0; i < polynomial_degree_y_; ++i)
+      ybasisD[i] /=
+          unique_knots_y_[y_location + 1] - unique_knots_y_[y_location];
 
     for (int i = 0; i < polynomial_degree_x_; ++i) {
       for (int j = 0; j < polynomial_degree_y_; ++j) {
-- 
2.43.0


From ed1cf7eb5983cdcccdefe82b5106a2da9eb5872e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:03 +0000
Subject: [PATCH 07/32] fix: take the suffix of a geometry file from the last
 dot of its path

---
 Bembel/src/Geometry/Geometry.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Bembel/src/Geometry/Geometry.hpp b/Bembel/src/Geometry/Geometry.hpp
index 8cd6dc8..cb08bb4 100644
--- a/Bembel/src/Geometry/Geometry.hpp
+++ b/Bembel/src/Geometry/Geometry.hpp
@@ -87,7 +87,7 @@ class Geometry {
    * \param filename Filename of a .dat or .igs file.
    */
   inline void init_Geometry(const std::string &filename) {
-    std::string file_suffix = filename.substr(filename.find('.') + 1);
+    std::string file_suffix = filename.substr(filename.rfind('.') + 1);
     PatchVector tmp;
 
     if (file_suffix.compare("dat") == 0)
-- 
2.43.0


From c4f5033f2be9508559eb2244c3f6b4e39faf6ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:03 +0000
Subject: [PATCH 08/32] fix: do not write past the knot vectors when exporting
 IGES patches

---
 Bembel/src/Geometry/GeometryIGS.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Bembel/src/Geometry/GeometryIGS.hpp b/Bembel/src/Geometry/GeometryIGS.hpp
index f14b130..1c96d43 100644
--- a/Bembel/src/Geometry/GeometryIGS.hpp
+++ b/Bembel/src/Geometry/GeometryIGS.hpp
@@ -393,9 +393,9 @@ std::vector<std::string> writePatchData(const Patch& patch,
          "We can not handle internal knots");
 
   std::vector<double> knots_x(2 * degree_x, 0);
-  for (auto i = 0; i <= degree_x; ++i) knots_x[degree_x + i] = 1;
+  for (auto i = 0; i < degree_x; ++i) knots_x[degree_x + i] = 1;
   std::vector<double> knots_y(2 * degree_y, 0);
-  for (auto i = 0; i <= degree_y; ++i) knots_y[degree_y + i] = 1;
+  for (auto i = 0; i < degree_y; ++i) knots_y[degree_y + i] = 1;
 
   const std::array<double, 2> span_x = {0, 1};
   const std::array<double, 2> span_y = {0, 1};
-- 
2.43.0


From 1a28fa966ec6c9db99676f4d136ea1baf1796934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:03 +0000
Subject: [PATCH 09/32] fix: read geometry files whose header line has no
 trailing blank

---
 Bembel/src/Geometry/GeometryIO.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Bembel/src/Geometry/GeometryIO.hpp b/Bembel/src/Geometry/GeometryIO.hpp
index c1eba6e..6e58a5e 100644
--- a/Bembel/src/Geometry/GeometryIO.hpp
+++ b/Bembel/src/Geometry/GeometryIO.hpp
@@ -57,6 +57,7 @@ inline std::vector<Patch> LoadGeometryFileDAT(
     getline(file, row);  // file_name
 
     getline(file, row);
+    iss.clear();
     iss.str(row);
     while (iss >> word) {
       info.push_back(stoi(word));
-- 
2.43.0


From 4294472e09fee9d40a8e328ed8087f608fbd12ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:03 +0000
Subject: [PATCH 10/32] fix: wrap IGES entries that are longer than a line

---
 Bembel/src/Geometry/GeometryIGS.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Bembel/src/Geometry/GeometryIGS.hpp b/Bembel/src/Geometry/GeometryIGS.hpp
index 1c96d43..a3cf069 100644
--- a/Bembel/src/Geometry/GeometryIGS.hpp
+++ b/Bembel/src/Geometry/GeometryIGS.hpp
@@ -221,6 +221,11 @@ std::vector<std::string> makeSection(std::vector<std::string> data,
       out.push_back(line);
       line = "";
     }
+    // items which do not fit in a single line are continued in the next ones
+    while (static_cast<int>(item.length()) > linewidth) {
+      out.push_back(item.substr(0, linewidth));
+      item.erase(0, linewidth);
+    }
     line += item;
   }
   out.push_back(line);
-- 
2.43.0


From 1b12131a288a8def6cae6b40ec81c334ddb0c14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:31 +0000
Subject: [PATCH 11/32] fix: assigning a FunctionEvaluator also takes over the
 element ordering

---
 Bembel/src/AnsatzSpace/FunctionEvaluator.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Bembel/src/AnsatzSpace/FunctionEvaluator.hpp b/Bembel/src/AnsatzSpace/FunctionEvaluator.hpp
index 9f6f731..6248fa9 100644
--- a/Bembel/src/AnsatzSpace/FunctionEvaluator.hpp
+++ b/Bembel/src/AnsatzSpace/FunctionEvaluator.hpp
@@ -31,6 +31,7 @@ class FunctionEvaluator {
     fun_ = other.fun_;
     polynomial_degree_plus_one_squared_ =
         other.polynomial_degree_plus_one_squared_;
+    reordering_vector_ = other.reordering_vector_;
     return *this;
   }
   explicit FunctionEvaluator(const AnsatzSpace<Derived> &ansatz_space) {
-- 
2.43.0


From 967da3786c838df66533187b2b84e64424c0b763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:32 +0000
Subject: [PATCH 12/32] fix: allow to copy a Geometry that has not been
 initialized

---
 Bembel/src/Geometry/Geometry.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Bembel/src/Geometry/Geometry.hpp b/Bembel/src/Geometry/Geometry.hpp
index cb08bb4..aaf515e 100644
--- a/Bembel/src/Geometry/Geometry.hpp
+++ b/Bembel/src/Geometry/Geometry.hpp
@@ -46,8 +46,9 @@ class Geometry {
    * might be useful if we want to modify the geometry object.
    */
   Geometry(const Geometry &other) {
-    geometry_ = std::make_shared<PatchVector>();
-    *geometry_ = *(other.geometry_);
+    // there is nothing to copy as long as other has not been initialized
+    if (other.geometry_)
+      geometry_ = std::make_shared<PatchVector>(*(other.geometry_));
   }
   /**
    * \brief Copy constructor.
-- 
2.43.0


From 82d55dae88ebc1085fe7de41dce8c9a60a56a303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:02 +0000
Subject: [PATCH 13/32] fix: allow copies and moves of an uninitialised
 BlockClusterTree

---
 Bembel/src/H2Matrix/BlockClusterTree.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Bembel/src/H2Matrix/BlockClusterTree.hpp b/Bembel/src/H2Matrix/BlockClusterTree.hpp
index bed3633..5b87ac1 100644
--- a/Bembel/src/H2Matrix/BlockClusterTree.hpp
+++ b/Bembel/src/H2Matrix/BlockClusterTree.hpp
@@ -278,7 +278,8 @@ class BlockClusterTree {
   }
   void updateLeafPointers() {
     // make sure we have the root of the block cluster tree calling this method
-    if (cluster1_->id_ != -1 || cluster1_ != cluster2_) {
+    if (cluster1_ == nullptr || cluster1_->id_ != -1 ||
+        cluster1_ != cluster2_) {
       return;
     } else {
       leaf_pointers_->clear();
-- 
2.43.0


From 3a7a10a60b6425f27e5bce0fda2faa4ee8a6f58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:16 +0000
Subject: [PATCH 14/32] fix: re-initialising a BlockClusterTree must not alter
 its copies

---
 Bembel/src/H2Matrix/BlockClusterTree.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Bembel/src/H2Matrix/BlockClusterTree.hpp b/Bembel/src/H2Matrix/BlockClusterTree.hpp
index 5b87ac1..6df27b8 100644
--- a/Bembel/src/H2Matrix/BlockClusterTree.hpp
+++ b/Bembel/src/H2Matrix/BlockClusterTree.hpp
@@ -120,7 +120,10 @@ class BlockClusterTree {
   template <typename LinOp, typename AnsatzSpace>
   void init_BlockClusterTree(const LinOp &linOp,
                              const AnsatzSpace &ansatz_space) {
-    if (parameters_ == nullptr) set_parameters();
+    if (parameters_ == nullptr)
+      set_parameters();
+    else  // copies of this tree share the parameters, theirs must not change
+      set_parameters(parameters_->eta_, parameters_->min_cluster_level_);
     // get element tree from ansatz space
     const ElementTree &element_tree =
         ansatz_space.get_superspace().get_mesh().get_element_tree();
-- 
2.43.0


From c626d76bbeb06043f1eefc23d5a8d62eb5003901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:28 +0000
Subject: [PATCH 15/32] fix: H2Matrix products must not overwrite their operand
 in x = H * x

---
 Bembel/src/H2Matrix/H2Matrix.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/Bembel/src/H2Matrix/H2Matrix.hpp b/Bembel/src/H2Matrix/H2Matrix.hpp
index 92554b1..6238c28 100644
--- a/Bembel/src/H2Matrix/H2Matrix.hpp
+++ b/Bembel/src/H2Matrix/H2Matrix.hpp
@@ -77,9 +77,8 @@ class H2Matrix : public H2MatrixBase<H2Matrix<ScalarT>> {
   Index cols() const { return transformation_matrix_.cols(); }
   // Definition of the matrix multiplication
   template <typename Rhs>
-  Product<H2Matrix, Rhs, AliasFreeProduct> operator*(
-      const MatrixBase<Rhs>& x) const {
-    return Product<H2Matrix, Rhs, AliasFreeProduct>(*this, x.derived());
+  Product<H2Matrix, Rhs> operator*(const MatrixBase<Rhs>& x) const {
+    return Product<H2Matrix, Rhs>(*this, x.derived());
   }
   //////////////////////////////////////////////////////////////////////////////
   /// constructors
-- 
2.43.0


From 5265af10ff3bdae99d8d6c5e9ac39753259b6eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:28 +0000
Subject: [PATCH 16/32] fix: evaluate H2 products before nesting them in other
 products

---
 Bembel/src/H2Matrix/EigenHelper/H2DenseProduct.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Bembel/src/H2Matrix/EigenHelper/H2DenseProduct.hpp b/Bembel/src/H2Matrix/EigenHelper/H2DenseProduct.hpp
index 866c189..39497ae 100644
--- a/Bembel/src/H2Matrix/EigenHelper/H2DenseProduct.hpp
+++ b/Bembel/src/H2Matrix/EigenHelper/H2DenseProduct.hpp
@@ -296,7 +296,8 @@ struct product_evaluator<Product<Lhs, Rhs, Options>, ProductTag, H2, DenseShape>
   typedef typename XprType::PlainObject PlainObject;
   typedef evaluator<PlainObject> Base;
 
-  enum { Flags = Base::Flags };
+  // the result is not available coefficient-wise when nested in other products
+  enum { Flags = Base::Flags | EvalBeforeNestingBit };
 
   explicit product_evaluator(const XprType& xpr)
       : m_result(xpr.rows(), xpr.cols()) {
-- 
2.43.0


From 33543338a1ca5c1ce099cb6f705b51d7239e5fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:06 +0000
Subject: [PATCH 17/32] fix: H2Matrix::get_dense for complex scalars

---
 Bembel/src/H2Matrix/H2Matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Bembel/src/H2Matrix/H2Matrix.hpp b/Bembel/src/H2Matrix/H2Matrix.hpp
index 6238c28..54b2fe9 100644
--- a/Bembel/src/H2Matrix/H2Matrix.hpp
+++ b/Bembel/src/H2Matrix/H2Matrix.hpp
@@ -254,7 +254,7 @@ class H2Matrix : public H2MatrixBase<H2Matrix<ScalarT>> {
     Eigen::Matrix<ScalarT, Eigen::Dynamic, Eigen::Dynamic> dense(rows(),
                                                                  cols());
     for (int i = 0; i < cols(); ++i) {
-      Eigen::VectorXd unit(cols());
+      Eigen::Matrix<ScalarT, Eigen::Dynamic, 1> unit(cols());
       unit.setZero();
       unit(i) = 1.;
       dense.col(i) = (*this) * unit;
-- 
2.43.0


From 47252045ba3bf7e2723649ced2c1f68b2491f536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:41 +0000
Subject: [PATCH 18/32] fix: print2m keeps the imaginary part of complex sparse
 matrices

The values were copied into a real vector, which does not compile for
complex scalars.
---
 Bembel/src/IO/print2file.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Bembel/src/IO/print2file.hpp b/Bembel/src/IO/print2file.hpp
index 782babc..a35f68c 100644
--- a/Bembel/src/IO/print2file.hpp
+++ b/Bembel/src/IO/print2file.hpp
@@ -78,7 +78,7 @@ int print2m(const std::string &fileName, const std::string &varName,
             const std::string &writeMode) {
   Eigen::VectorXd rowInd(var.nonZeros());
   Eigen::VectorXd colInd(var.nonZeros());
-  Eigen::VectorXd value(var.nonZeros());
+  Eigen::Matrix<Scalar, Eigen::Dynamic, 1> value(var.nonZeros());
   unsigned int j = 0;
   for (auto i = 0; i < var.outerSize(); i++)
     for (typename Eigen::SparseMatrix<Scalar>::InnerIterator it(var, i); it;
-- 
2.43.0


From 8597e11c1a43279ba35e53bd4b2b07fafb181099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:41 +0000
Subject: [PATCH 19/32] fix: print2m writes the dimensions of sparse matrices

Without them Matlab drops trailing zero rows and columns.
---
 Bembel/src/IO/print2file.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Bembel/src/IO/print2file.hpp b/Bembel/src/IO/print2file.hpp
index a35f68c..c33cba9 100644
--- a/Bembel/src/IO/print2file.hpp
+++ b/Bembel/src/IO/print2file.hpp
@@ -98,7 +98,8 @@ int print2m(const std::string &fileName, const std::string &varName,
   myfile << varName << " = sparse("
          << "rows_" + varName << ","
          << "cols_" + varName << ","
-         << "values_" + varName << ");\n";
+         << "values_" + varName << "," << var.rows() << "," << var.cols()
+         << ");\n";
   myfile.close();
 
   return 0;
-- 
2.43.0


From 66782b788048386db79b07f9c28262036c9d5250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:41 +0000
Subject: [PATCH 20/32] fix: print2m rejects unknown write modes for sparse
 matrices, too

---
 Bembel/src/IO/print2file.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Bembel/src/IO/print2file.hpp b/Bembel/src/IO/print2file.hpp
index c33cba9..bb15dfc 100644
--- a/Bembel/src/IO/print2file.hpp
+++ b/Bembel/src/IO/print2file.hpp
@@ -88,7 +88,7 @@ int print2m(const std::string &fileName, const std::string &varName,
       value(j) = it.value();
       ++j;
     }
-  print2m(fileName, "rows_" + varName, rowInd, writeMode);
+  if (print2m(fileName, "rows_" + varName, rowInd, writeMode)) return 1;
   print2m(fileName, "cols_" + varName, colInd, "a");
   print2m(fileName, "values_" + varName, value, "a");
   std::ofstream myfile;
-- 
2.43.0


From 460090a7254f488e51a46ecad74869be3bc2ec88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:56 +0000
Subject: [PATCH 21/32] fix: print2m writes complex entries in Matlab syntax

The stream operator of std::complex prints (re,im), which Matlab rejects.
---
 Bembel/src/IO/print2file.hpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/Bembel/src/IO/print2file.hpp b/Bembel/src/IO/print2file.hpp
index bb15dfc..e49d652 100644
--- a/Bembel/src/IO/print2file.hpp
+++ b/Bembel/src/IO/print2file.hpp
@@ -37,6 +37,18 @@ int print2ascii(const std::string &fileName,
   return 0;
 }
 
+/**
+ *  \brief write a single matrix entry in Matlab syntax.
+ **/
+template <typename Scalar>
+void printMatlabEntry(std::ostream *out, const Scalar &value) {
+  *out << value;
+}
+template <typename Real>
+void printMatlabEntry(std::ostream *out, const std::complex<Real> &value) {
+  *out << value.real() << std::showpos << value.imag() << std::noshowpos << "i";
+}
+
 /**
  *  \brief write Eigen::Matrix into a Matlab .m file.
  **/
@@ -61,8 +73,11 @@ int print2m(const std::string &fileName, const std::string &varName,
   myfile << varName << "=[" << std::endl;
 
   for (int i = 0; i < (int)tmp.rows(); ++i) {
-    for (int j = 0; j < (int)tmp.cols(); ++j)
-      myfile << std::setprecision(30) << tmp(i, j) << " \t ";
+    for (int j = 0; j < (int)tmp.cols(); ++j) {
+      myfile << std::setprecision(30);
+      printMatlabEntry(&myfile, tmp(i, j));
+      myfile << " \t ";
+    }
     myfile << std::endl;
   }
   myfile << "];" << std::endl;
-- 
2.43.0


From d6c6aa463af570ef32287e471249cf395843338f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:30 +0000
Subject: [PATCH 22/32] fix: Logger honours the requested open mode

It always truncated the file, also when opened for appending.
---
 Bembel/src/IO/Logger.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Bembel/src/IO/Logger.hpp b/Bembel/src/IO/Logger.hpp
index a1dcd3f..823ea7a 100644
--- a/Bembel/src/IO/Logger.hpp
+++ b/Bembel/src/IO/Logger.hpp
@@ -63,7 +63,7 @@ class Logger {
   template <typename T, typename... Args>
   void file(T t, Args... arg) {
     if (!(_file.is_open())) {
-      _file.open(name_, std::fstream::out | std::fstream::trunc);
+      _file.open(name_, std::fstream::out | _mode);
     }
     _file << std::setprecision(N - 4) << std::setw(N + _sep.size()) << std::left
           << t << _sep;
@@ -72,7 +72,7 @@ class Logger {
   template <typename T>
   void file(T t) {
     if (!(_file.is_open())) {
-      _file.open(name_, std::fstream::out | std::fstream::trunc);
+      _file.open(name_, std::fstream::out | _mode);
     }
     std::setprecision(N);
     _file << std::setprecision(N - 4) << std::setw(N + _sep.size()) << std::left
-- 
2.43.0


From 3745bc8df2ad5ab3a79882d00dfbe7b7d9211dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:30 +0000
Subject: [PATCH 23/32] fix: Stopwatch can be restarted after stop without lap

---
 Bembel/src/IO/Stopwatch.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Bembel/src/IO/Stopwatch.hpp b/Bembel/src/IO/Stopwatch.hpp
index 1095be9..11124d3 100644
--- a/Bembel/src/IO/Stopwatch.hpp
+++ b/Bembel/src/IO/Stopwatch.hpp
@@ -65,9 +65,9 @@ class Stopwatch {
                      std::chrono::high_resolution_clock::now() - p_)
                      .count();
     assert(has_been_started_ == true && "Stopwatch must be started first!");
+    has_been_started_ = false;
     if (has_lapped_) {
       has_lapped_ = false;
-      has_been_started_ = false;
       return std::accumulate(durations_.begin(), durations_.end(), 0.0);
     }
     return out;
-- 
2.43.0


From 0929f756761dd66288ba7ca76747e7b1c0acb23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:21 +0000
Subject: [PATCH 24/32] fix: Stopwatch measures with a steady clock

high_resolution_clock is the wall clock with libstdc++; setting the clock
while the watch is running gave wrong and even negative times.
---
 Bembel/src/IO/Stopwatch.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/Bembel/src/IO/Stopwatch.hpp b/Bembel/src/IO/Stopwatch.hpp
index 11124d3..7b372fd 100644
--- a/Bembel/src/IO/Stopwatch.hpp
+++ b/Bembel/src/IO/Stopwatch.hpp
@@ -25,7 +25,7 @@ namespace IO {
  */
 
 class Stopwatch {
-  std::chrono::time_point<std::chrono::high_resolution_clock> p_;
+  std::chrono::time_point<std::chrono::steady_clock> p_;
   double sum_;
   std::vector<double> durations_;
   bool has_been_started_;
@@ -37,10 +37,10 @@ class Stopwatch {
     has_lapped_ = false;
   }
 
-  void tic(void) { p_ = std::chrono::high_resolution_clock::now(); }
+  void tic(void) { p_ = std::chrono::steady_clock::now(); }
   double toc(void) {
     double dtime = std::chrono::duration<double, std::ratio<1, 1>>(
-                       std::chrono::high_resolution_clock::now() - p_)
+                       std::chrono::steady_clock::now() - p_)
                        .count();
     return dtime;
   }
@@ -48,21 +48,21 @@ class Stopwatch {
     durations_ = {};
     assert(has_been_started_ == false && "Stopwatch already running!");
     has_been_started_ = true;
-    p_ = std::chrono::high_resolution_clock::now();
+    p_ = std::chrono::steady_clock::now();
   }
   inline double lap() {
     double out = std::chrono::duration<double, std::ratio<1, 1>>(
-                     std::chrono::high_resolution_clock::now() - p_)
+                     std::chrono::steady_clock::now() - p_)
                      .count();
     durations_.push_back(out);
     assert(has_been_started_ == true && "Stopwatch must be started first!");
     has_lapped_ = true;
-    p_ = std::chrono::high_resolution_clock::now();
+    p_ = std::chrono::steady_clock::now();
     return out;
   }
   inline double stop() {
     double out = std::chrono::duration<double, std::ratio<1, 1>>(
-                     std::chrono::high_resolution_clock::now() - p_)
+                     std::chrono::steady_clock::now() - p_)
                      .count();
     assert(has_been_started_ == true && "Stopwatch must be started first!");
     has_been_started_ = false;
-- 
2.43.0


From 267506817165b5987fb906641a3a7f4c910203c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:46 +0000
Subject: [PATCH 25/32] fix: VTK exporters drop data sets of a previous
 initialisation

They belong to another number of points and made the file invalid.
---
 Bembel/src/IO/VTKDomainExport.hpp  | 1 +
 Bembel/src/IO/VTKPointExport.hpp   | 1 +
 Bembel/src/IO/VTKSurfaceExport.hpp | 1 +
 3 files changed, 3 insertions(+)

diff --git a/Bembel/src/IO/VTKDomainExport.hpp b/Bembel/src/IO/VTKDomainExport.hpp
index c1c9189..a35384f 100644
--- a/Bembel/src/IO/VTKDomainExport.hpp
+++ b/Bembel/src/IO/VTKDomainExport.hpp
@@ -35,6 +35,7 @@ class VTKDomainExport {
     y_num = y_vec_.rows() - 1;
     z_num = z_vec_.rows() - 1;
     max_size_ = x_vec_.rows() * y_vec_.rows() * z_vec_.rows();
+    clearData();
     return;
   }
   // One can add data to visualize via the addDataSet methods. They accept a
diff --git a/Bembel/src/IO/VTKPointExport.hpp b/Bembel/src/IO/VTKPointExport.hpp
index 25eea8c..7f6d991 100644
--- a/Bembel/src/IO/VTKPointExport.hpp
+++ b/Bembel/src/IO/VTKPointExport.hpp
@@ -32,6 +32,7 @@ class VTKPointExport {
     points_ = points;
     point_number_ = Eigen::VectorXi(points_.rows());
     for (int i = 0; i < points_.rows(); ++i) point_number_(i) = i;
+    clearData();
     return;
   }
 
diff --git a/Bembel/src/IO/VTKSurfaceExport.hpp b/Bembel/src/IO/VTKSurfaceExport.hpp
index 17f2d0e..b5481dc 100644
--- a/Bembel/src/IO/VTKSurfaceExport.hpp
+++ b/Bembel/src/IO/VTKSurfaceExport.hpp
@@ -49,6 +49,7 @@ class VTKSurfaceExport {
          e != msh.get_element_tree().cpend(); ++e) {
       patch_number(e->id_) = e->patch_;
     }
+    clearData();
     return;
   }
   /**
-- 
2.43.0


From cbf8385fdc69ce79010adc0a431a611da97f31ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:31 +0000
Subject: [PATCH 26/32] fix: VTKPointExport writes data with relative precision

std::to_string prints six decimals, small values were written as zero.
---
 Bembel/src/IO/VTKPointExport.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Bembel/src/IO/VTKPointExport.hpp b/Bembel/src/IO/VTKPointExport.hpp
index 7f6d991..2efd986 100644
--- a/Bembel/src/IO/VTKPointExport.hpp
+++ b/Bembel/src/IO/VTKPointExport.hpp
@@ -46,9 +46,13 @@ class VTKPointExport {
                              "\" NumberOfComponents=\"" +
                              std::to_string(mat.cols()) +
                              "\" format=\"ascii\">\n";
+    std::ostringstream out;
+    out.precision(6);
     for (int i = 0; i < mat.rows(); ++i) {
       for (int j = 0; j < cols; ++j) {
-        data_ascii.append(std::to_string(mat(i, j)) + " ");
+        out << std::scientific << mat(i, j);
+        data_ascii.append(out.str() + " ");
+        out.str("");
       }
       data_ascii.append("\n");
     }
-- 
2.43.0


From d5442a10637ffabbcd701ff1ee952effde4f9a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:39 +0000
Subject: [PATCH 27/32] fix: weight of the highest order term of spherical
 harmonics series

---
 Bembel/src/util/Sphericals.hpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/Bembel/src/util/Sphericals.hpp b/Bembel/src/util/Sphericals.hpp
index 1ba7438..7636f7b 100644
--- a/Bembel/src/util/Sphericals.hpp
+++ b/Bembel/src/util/Sphericals.hpp
@@ -193,9 +193,9 @@ double evaluate_solid_sphericals(Eigen::Vector3d x, Eigen::VectorXd cs,
   }
 
   if (grad) {
-    fac_tot = fac * deg * pow_int(norm, deg - 1);
+    fac_tot = 2.0 * (deg - 1) * pow_int(norm, deg - 2);
   } else {
-    fac_tot *= norm;
+    fac_tot = 2.0 * pow_int(norm, deg - 1);
   }
   r += fac_tot * cs((deg - 1) * (deg + 1)) * z1[0];
   return r;
@@ -283,9 +283,8 @@ Eigen::Vector3d evaluate_dsphericals(Eigen::Vector3d x, Eigen::VectorXd cs,
   // + a[(na-1)*(na-1)]*z1[1]) for imaginary coefficients;
   dr(1) -= (deg - 1) * (2 * cs((deg - 1) * (deg + 1)) * z1[1]);
   // - a[(na-1)*(na-1)]*z1[0]) for imaginary coefficients;
-  dr(2) += 2 * sqrt(2 * (deg - 1))
-      * (cs(deg * (deg - 1) + (deg - 2)) * z1[0]
-          + cs(deg * (deg - 1) - (deg - 2)) * z1[1]);
+  fac = (deg == 2) ? 1.0 : 2.0;
+  dr(2) += fac * sqrt(2 * (deg - 1)) * cs(deg * (deg - 1) + (deg - 2)) * z1[0];
 
   return dr;
 }
@@ -367,12 +366,12 @@ Eigen::Vector3d evaluate_dsolid_sphericals(Eigen::Vector3d x,
     z1[0] = root_2 * (y(0) * z1_start[0] - y(1) * z1_start[1]);
     z1[1] = root_2 * (y(0) * z1_start[1] + y(1) * z1_start[0]);
   }
-  r_n3 *= norm;
+  fac = (deg == 2) ? 1.0 : 2.0;
+  r_n3 = pow_int(norm, deg - 4);
   dr(0) += (deg - 1) * r_n3 * (2 * cs((deg - 1) * (deg + 1)) * z1[0]);
   dr(1) -= (deg - 1) * r_n3 * (2 * cs((deg - 1) * (deg + 1)) * z1[1]);
-  dr(2) += 2 * r_n3 * sqrt(2 * (deg - 1))
-      * (cs(deg * (deg - 1) + (deg - 2)) * z1[0]
-          + cs(deg * (deg - 1) - (deg - 2)) * z1[1]);
+  dr(2) += fac * r_n3 * sqrt(2 * (deg - 1))
+      * cs(deg * (deg - 1) + (deg - 2)) * z1[0];
 
   return dr;
 }
-- 
2.43.0


From dc14770710c904539d2c0e27c9ec4e9b696ef113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:51 +0000
Subject: [PATCH 28/32] fix: spherical harmonics series include the terms of
 the given degree

---
 Bembel/src/util/Sphericals.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/Bembel/src/util/Sphericals.hpp b/Bembel/src/util/Sphericals.hpp
index 7636f7b..7ca1b59 100644
--- a/Bembel/src/util/Sphericals.hpp
+++ b/Bembel/src/util/Sphericals.hpp
@@ -73,6 +73,9 @@ double evaluate_sphericals(Eigen::Vector3d x, Eigen::VectorXd cs,
 
   assert(abs(x.norm() - 1) < Constants::generic_tolerance);
 
+  /* the recurrences below run over the degrees 0, ..., deg - 1 */
+  deg++;
+
   r = z1[1] = 0;
   z1[0] = 0.5 / sqrt(pi);
   if (deg <= 1) {
@@ -132,6 +135,9 @@ double evaluate_solid_sphericals(Eigen::Vector3d x, Eigen::VectorXd cs,
   double r, fac, rootTimesZ, root_2, root_3, norm, fac_tot;
   Eigen::Vector3d y;
 
+  /* the recurrences below run over the degrees 0, ..., deg - 1 */
+  deg++;
+
   r = z1[1] = 0;
   z1[0] = 0.5 / sqrt(pi);
   if (grad && deg <= 1) {
@@ -219,6 +225,9 @@ Eigen::Vector3d evaluate_dsphericals(Eigen::Vector3d x, Eigen::VectorXd cs,
 
   assert(abs(x.norm() - 1) < Constants::generic_tolerance);
 
+  /* the recurrences below run over the degrees 0, ..., deg - 1 */
+  deg++;
+
   z1[0] = sqrt(0.375 / pi);
   z1[1] = 0;
 
@@ -305,6 +314,9 @@ Eigen::Vector3d evaluate_dsolid_sphericals(Eigen::Vector3d x,
   Eigen::Vector3d dr, y;
   double fac, rootTimesZ, root_2, root_3, norm, r_n3;
 
+  /* the recurrences below run over the degrees 0, ..., deg - 1 */
+  deg++;
+
   z1[0] = sqrt(0.375 / pi);
   z1[1] = 0;
 
-- 
2.43.0


From 49b3865262a725f0683c5911e9099e6cae4cd816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:01 +0000
Subject: [PATCH 29/32] fix: legendreFull for degree zero

---
 Bembel/src/util/Sphericals.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Bembel/src/util/Sphericals.hpp b/Bembel/src/util/Sphericals.hpp
index 7ca1b59..51da899 100644
--- a/Bembel/src/util/Sphericals.hpp
+++ b/Bembel/src/util/Sphericals.hpp
@@ -691,6 +691,9 @@ Eigen::VectorXd legendreFull(unsigned int N, double t) {
 
   /* n = 0 */
   L(0) = 1;
+  if (N == 0) {
+    return L;
+  }
 
   /* n = 1 */
   L(1) = t;
-- 
2.43.0


From 5c9f248cb0a673de36fd92324b99b7690599c445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:55 +0000
Subject: [PATCH 30/32] fix: TangentialTrace of complex functions must not
 conjugate them

---
 Bembel/src/LinearForm/TangentialTrace.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/Bembel/src/LinearForm/TangentialTrace.hpp b/Bembel/src/LinearForm/TangentialTrace.hpp
index fc79f9e..c2052dc 100644
--- a/Bembel/src/LinearForm/TangentialTrace.hpp
+++ b/Bembel/src/LinearForm/TangentialTrace.hpp
@@ -57,13 +57,14 @@ class TangentialTrace : public LinearFormBase<TangentialTrace<Scalar>, Scalar> {
     // compute surface measures from tangential derivatives
     Eigen::Vector3d x_n = x_f_dx.cross(x_f_dy).normalized();
 
-    // tangential component + quadrature weights
-    Eigen::Matrix<Scalar, 3, 1> fun_x_f = function_(x_f);
-    Eigen::Matrix<Scalar, 3, 1> tangential_component = fun_x_f.cross(x_n) * ws;
+    // tangential component + quadrature weights. The triple product is written
+    // with the cross product of real vectors since cross() of Eigen conjugates
+    // its result for complex scalars
+    Eigen::Matrix<Scalar, 3, 1> fun_x_f = function_(x_f) * ws;
 
     // extract tangential component
-    Scalar component_x = x_f_dx.dot(tangential_component);
-    Scalar component_y = x_f_dy.dot(tangential_component);
+    Scalar component_x = x_n.cross(x_f_dx).dot(fun_x_f);
+    Scalar component_y = x_n.cross(x_f_dy).dot(fun_x_f);
 
     // evaluate shape functions
     Eigen::Matrix<Scalar, Eigen::Dynamic, Eigen::Dynamic> phiPhiVec =
-- 
2.43.0


From 7fc44cfb12a2a88192973fad1418ddeeb15642a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:03 +0000
Subject: [PATCH 31/32] fix: make definitions in headers inline

All functions and variables defined in the headers had external linkage
and no inline specifier, such that two translation units of a program
that both include Bembel could not be linked.
---
 Bembel/src/AnsatzSpace/Glue.hpp               |  4 +-
 Bembel/src/DuffyTrick/compareElements.hpp     |  2 +-
 Bembel/src/DuffyTrick/tau.hpp                 |  2 +-
 Bembel/src/Geometry/GeometryIGS.hpp           | 23 +++++-----
 Bembel/src/Geometry/GeometryIO.hpp            |  4 +-
 Bembel/src/H2Matrix/H2Multipole.hpp           |  2 +-
 .../src/HomogenisedLaplace/Coefficients.hpp   | 16 +++----
 .../SingleLayerOperator.hpp                   | 16 +++----
 .../LinearOperator/Dummy/DummyOperator.hpp    |  7 +--
 Bembel/src/util/GeometryHelper.hpp            |  2 +-
 Bembel/src/util/Sphericals.hpp                | 44 +++++++++----------
 11 files changed, 62 insertions(+), 60 deletions(-)

diff --git a/Bembel/src/AnsatzSpace/Glue.hpp b/Bembel/src/AnsatzSpace/Glue.hpp
index 023cf79..520a7a0 100644
--- a/Bembel/src/AnsatzSpace/Glue.hpp
+++ b/Bembel/src/AnsatzSpace/Glue.hpp
@@ -246,8 +246,8 @@ namespace GlueRoutines {
  * \param dimYdir Number of DOFs in the y direction of the tensor product.
  * \param shift Offset of the DOFs.
  */
-std::vector<int> getEdgeDofIndices(int edgeCase, int dimXdir, int dimYdir,
-                                   int shift) {
+inline std::vector<int> getEdgeDofIndices(int edgeCase, int dimXdir,
+                                          int dimYdir, int shift) {
   std::vector<int> out;
   switch (edgeCase) {
     case (0): {
diff --git a/Bembel/src/DuffyTrick/compareElements.hpp b/Bembel/src/DuffyTrick/compareElements.hpp
index 23c1b2f..94d9f99 100644
--- a/Bembel/src/DuffyTrick/compareElements.hpp
+++ b/Bembel/src/DuffyTrick/compareElements.hpp
@@ -20,7 +20,7 @@ namespace DuffyTrick {
  *elements have to be rotated to move the similarity to the first vertices_ or
  *edge
  */
-Eigen::Vector3i compareElements(const ElementTreeNode &e1,
+inline Eigen::Vector3i compareElements(const ElementTreeNode &e1,
                                 const ElementTreeNode &e2, double *dist) {
   Eigen::Vector3i retval;
   retval.setZero();
diff --git a/Bembel/src/DuffyTrick/tau.hpp b/Bembel/src/DuffyTrick/tau.hpp
index f8d2c94..f1fcc84 100644
--- a/Bembel/src/DuffyTrick/tau.hpp
+++ b/Bembel/src/DuffyTrick/tau.hpp
@@ -23,7 +23,7 @@ namespace DuffyTrick {
  * \param thecase Edge case denoting how the element needs to be turned.
  * \return Point in rotated element.
  */
-Eigen::Vector2d tau(double x, double y, int thecase) {
+inline Eigen::Vector2d tau(double x, double y, int thecase) {
   Eigen::Vector2d retval;
   switch (thecase) {
     case 1:
diff --git a/Bembel/src/Geometry/GeometryIGS.hpp b/Bembel/src/Geometry/GeometryIGS.hpp
index a3cf069..9a493ef 100644
--- a/Bembel/src/Geometry/GeometryIGS.hpp
+++ b/Bembel/src/Geometry/GeometryIGS.hpp
@@ -22,7 +22,8 @@ namespace Bembel {
  * \param file_name path/filename pointing to the geometry file
  * \return std::vector of NURBS::Patch describing geometry
  */
-std::vector<Patch> LoadGeometryFileIGS(const std::string& file_name) noexcept {
+inline std::vector<Patch> LoadGeometryFileIGS(
+    const std::string& file_name) noexcept {
   std::ifstream file;
   std::vector<int> patch_lines;
   file.open(file_name);
@@ -155,7 +156,7 @@ std::vector<Patch> LoadGeometryFileIGS(const std::string& file_name) noexcept {
  * \param section vector containing the lines to be written to the file
  * \param section_char char to describe the section. Use 'S', 'G' or 'D'
  */
-void writeSection(std::string file_name,
+inline void writeSection(std::string file_name,
                   const std::vector<std::string>& section,
                   const char section_char) {
   std::ofstream file(file_name, std::ios::app);
@@ -178,7 +179,7 @@ void writeSection(std::string file_name,
  * \param start_count Start counting the lines with this index
  * \return Last index of the line 
  */
-int writeParameterSection(std::string file_name,
+inline int writeParameterSection(std::string file_name,
                           const std::vector<std::string>& section,
                           const int patch_idx, const int start_count) {
   std::ofstream file(file_name, std::ios::app);
@@ -202,7 +203,7 @@ int writeParameterSection(std::string file_name,
  * \param linewidth Maximum length of the lines
  * \return Vector with strings of each line.
  */
-std::vector<std::string> makeSection(std::vector<std::string> data,
+inline std::vector<std::string> makeSection(std::vector<std::string> data,
                                      const int linewidth = 72) {
   std::vector<std::string> out;
   out.reserve(data.size());
@@ -238,7 +239,7 @@ std::vector<std::string> makeSection(std::vector<std::string> data,
  * 
  * \param file_name File name to write the header in.
  */
-void writeIGSHeader(std::string file_name) {
+inline void writeIGSHeader(std::string file_name) {
   std::vector<std::string> section(4);
   section[0] = "";
   section[1] = "IGES obtained from Bembel.";
@@ -255,7 +256,7 @@ void writeIGSHeader(std::string file_name) {
  * \param d double to be converted.
  * \param precision Precision of the conversion.
  */
-std::string double_to_string(double d, const int precision) {
+inline std::string double_to_string(double d, const int precision) {
   std::ostringstream stm;
   stm << std::setprecision(precision) << d;
   return stm.str();
@@ -267,7 +268,7 @@ std::string double_to_string(double d, const int precision) {
  * \param file_name File name to write the section in.
  * \return Number of lines of this section.
  */
-int writeGlobalSection(std::string file_name) {
+inline int writeGlobalSection(std::string file_name) {
   std::vector<std::string> out(24);
   std::time_t now = std::time(nullptr);
 
@@ -338,7 +339,7 @@ int writeGlobalSection(std::string file_name) {
  * \param number_of_lines Vector containing the lengths of the sections.
  * \return Number of lines of this section.
  */
-int writeDirectory(std::string file_name, std::vector<int> start_idx,
+inline int writeDirectory(std::string file_name, std::vector<int> start_idx,
                     std::vector<int> number_of_lines) {
   assert(start_idx.size() == number_of_lines.size());
 
@@ -387,7 +388,7 @@ int writeDirectory(std::string file_name, std::vector<int> start_idx,
  * \param precision Number of significant digits to save floats
  * \return Vector with patch data in IGES format.
  */
-std::vector<std::string> writePatchData(const Patch& patch,
+inline std::vector<std::string> writePatchData(const Patch& patch,
                                         const int precision) {
   const int degree_x = patch.polynomial_degree_x_;
   const int degree_y = patch.polynomial_degree_y_;
@@ -483,8 +484,8 @@ std::vector<std::string> writePatchData(const Patch& patch,
  * \param file_name File name to write to.
  * \param precision Significant number of digits for writing floats.
  */
-void writeIGSFile(const std::vector<Patch>& geometry, std::string file_name,
-                  const int precision = 6) {
+inline void writeIGSFile(const std::vector<Patch>& geometry,
+                         std::string file_name, const int precision = 6) {
   std::ofstream out(file_name);
   out.close();
   writeIGSHeader(file_name);
diff --git a/Bembel/src/Geometry/GeometryIO.hpp b/Bembel/src/Geometry/GeometryIO.hpp
index 6e58a5e..e7c7256 100644
--- a/Bembel/src/Geometry/GeometryIO.hpp
+++ b/Bembel/src/Geometry/GeometryIO.hpp
@@ -152,7 +152,7 @@ inline void MakeFile(const std::string &file_name,
  * \param file_name filename
  * \param current_patch_number current patch number
  **/
-void WritePatch(const std::string &file_name, int current_patch_number,
+inline void WritePatch(const std::string &file_name, int current_patch_number,
                 const std::vector<Eigen::MatrixXd> &xyzw,
                 const std::vector<double> &knt1,
                 const std::vector<double> &knt2) noexcept {
@@ -202,7 +202,7 @@ void WritePatch(const std::string &file_name, int current_patch_number,
  * \param Geometry std::vector of NURBS::Patch describing geometry
  * \param file_name path/filename to be written to
  */
-void WriteDATFile(const std::vector<Patch> &Geometry,
+inline void WriteDATFile(const std::vector<Patch> &Geometry,
                   const std::string &file_name) {
   const int number_of_patches = Geometry.size();
   MakeFile(file_name, number_of_patches);
diff --git a/Bembel/src/H2Matrix/H2Multipole.hpp b/Bembel/src/H2Matrix/H2Multipole.hpp
index 3dc3c74..dbd6530 100644
--- a/Bembel/src/H2Matrix/H2Multipole.hpp
+++ b/Bembel/src/H2Matrix/H2Multipole.hpp
@@ -321,7 +321,7 @@ struct Moment2D {
  * \brief Compute tensor interpolation points on unit square from 1D
  * interpolation points.
  */
-Eigen::MatrixXd interpolationPoints2D(const Eigen::VectorXd &x) {
+inline Eigen::MatrixXd interpolationPoints2D(const Eigen::VectorXd &x) {
   Eigen::MatrixXd x2(x.size() * x.size(), 2);
   for (auto i = 0; i < x.size(); ++i)
     for (auto j = 0; j < x.size(); ++j) {
diff --git a/Bembel/src/HomogenisedLaplace/Coefficients.hpp b/Bembel/src/HomogenisedLaplace/Coefficients.hpp
index 5508846..1a8b818 100644
--- a/Bembel/src/HomogenisedLaplace/Coefficients.hpp
+++ b/Bembel/src/HomogenisedLaplace/Coefficients.hpp
@@ -24,18 +24,18 @@
 
 namespace Bembel {
 
-Eigen::VectorXd getCoefficients(double precision);
+inline Eigen::VectorXd getCoefficients(double precision);
 
 inline unsigned int getDegree(double precision);
 
-Eigen::VectorXd getDisplacement(Eigen::MatrixXd ps_l, Eigen::MatrixXd ps_f,
-    Eigen::MatrixXd ps_b);
+inline Eigen::VectorXd getDisplacement(Eigen::MatrixXd ps_l,
+    Eigen::MatrixXd ps_f, Eigen::MatrixXd ps_b);
 
 inline double k_mod(Eigen::Vector3d in);
 
 inline Eigen::Vector3d Dk_mod(Eigen::Vector3d in);
 
-double calculateFirstCoefficient(Eigen::VectorXd cs, unsigned int deg,
+inline double calculateFirstCoefficient(Eigen::VectorXd cs, unsigned int deg,
     Eigen::MatrixXd ps_l, Eigen::MatrixXd ps_f, Eigen::MatrixXd ps_b);
 
 /**
@@ -57,7 +57,7 @@ double calculateFirstCoefficient(Eigen::VectorXd cs, unsigned int deg,
  * \see R. von Rickenbach. _Boundary Element Methods for Shape
  *  Optimisation in Homogenisation_. MSc thesis, Universität Basel, 2021.
  */
-Eigen::VectorXd getCoefficients(double precision) {
+inline Eigen::VectorXd getCoefficients(double precision) {
   Eigen::VectorXd diff;
   Eigen::RowVectorXd difft;
   Eigen::Vector3d v;
@@ -235,8 +235,8 @@ inline unsigned int getDegree(double precision) {
  * @param ps_f: Points on the front side, i.e. \f$ \subseteq [-0.5, 0.5] \times \{-0.5\} \times [-0.5, 0.5] \f$.
  * @param ps_b: Points on the bottom side, i.e. \f$ \subseteq [-0.5, 0.5] \times [-0.5, 0.5] \times \{-0.5\} \f$.
  */
-Eigen::VectorXd getDisplacement(Eigen::MatrixXd ps_l, Eigen::MatrixXd ps_f,
-    Eigen::MatrixXd ps_b) {
+inline Eigen::VectorXd getDisplacement(Eigen::MatrixXd ps_l,
+    Eigen::MatrixXd ps_f, Eigen::MatrixXd ps_b) {
 
   std::function<double(Eigen::Vector3d)> u = [](Eigen::Vector3d in) {
     return k_mod(in);
@@ -343,7 +343,7 @@ inline Eigen::Vector3d Dk_mod(Eigen::Vector3d in) {
  * @param ps_f: Gauss quadrature points on the front side of the cube
  * @param ps_b: Gauss quadrature points on the bottom side of the cube
  */
-double calculateFirstCoefficient(Eigen::VectorXd cs, unsigned int deg,
+inline double calculateFirstCoefficient(Eigen::VectorXd cs, unsigned int deg,
     Eigen::MatrixXd ps_l, Eigen::MatrixXd ps_f, Eigen::MatrixXd ps_b) {
   double res = 0.0;
 
diff --git a/Bembel/src/HomogenisedLaplace/SingleLayerOperator.hpp b/Bembel/src/HomogenisedLaplace/SingleLayerOperator.hpp
index 0f528b4..eaaef97 100644
--- a/Bembel/src/HomogenisedLaplace/SingleLayerOperator.hpp
+++ b/Bembel/src/HomogenisedLaplace/SingleLayerOperator.hpp
@@ -46,9 +46,8 @@ class HomogenisedLaplaceSingleLayerOperator : public LinearOperatorBase<
    *  via the static variable precision.
    */
   HomogenisedLaplaceSingleLayerOperator() {
-    this->deg = getDegree(HomogenisedLaplaceSingleLayerOperator::precision);
-    this->cs = getCoefficients(
-        HomogenisedLaplaceSingleLayerOperator::precision);
+    this->deg = getDegree(getPrecision());
+    this->cs = getCoefficients(getPrecision());
   }
 
   template<class T>
@@ -131,14 +130,14 @@ class HomogenisedLaplaceSingleLayerOperator : public LinearOperatorBase<
    * \brief sets the precision of the periodicity of the kernel
    */
   static void setPrecision(double p) {
-    HomogenisedLaplaceSingleLayerOperator::precision = p;
+    precision() = p;
   }
 
   /**
    * \brief returns the precision of the periodicity of the kernel
    */
   static double getPrecision() {
-    return HomogenisedLaplaceSingleLayerOperator::precision;
+    return precision();
   }
 
  private:
@@ -147,11 +146,12 @@ class HomogenisedLaplaceSingleLayerOperator : public LinearOperatorBase<
   /** The coefficients of the spherical harmonics expansion */
   Eigen::VectorXd cs;
   /** The precision of the periodicity of the kernel */
-  static double precision;
+  static double &precision() {
+    static double precision = 0;
+    return precision;
+  }
 };
 
-double HomogenisedLaplaceSingleLayerOperator::precision = 0;
-
 }  // namespace Bembel
 
 #endif  // BEMBEL_SRC_HOMOGENISEDLAPLACE_SINGLELAYEROPERATOR_HPP_
diff --git a/Bembel/src/LinearOperator/Dummy/DummyOperator.hpp b/Bembel/src/LinearOperator/Dummy/DummyOperator.hpp
index f10f398..2a24685 100644
--- a/Bembel/src/LinearOperator/Dummy/DummyOperator.hpp
+++ b/Bembel/src/LinearOperator/Dummy/DummyOperator.hpp
@@ -30,9 +30,10 @@ struct LinearOperatorTraits<DummyOperator> {
 
 // forward declaration of class DummyOperator in order to define traits
 // define some default test functiom
-std::function<double(const Eigen::Vector2d &, const Eigen::Vector2d &)>
-    DummyOperator_test_function =
-        [](const Eigen::Vector2d &x, const Eigen::Vector2d &y) { return 1.; };
+inline double DummyOperator_test_function(const Eigen::Vector2d &x,
+                                          const Eigen::Vector2d &y) {
+  return 1.;
+}
 
 /**
  * \ingroup DummyOperator
diff --git a/Bembel/src/util/GeometryHelper.hpp b/Bembel/src/util/GeometryHelper.hpp
index 92b71a1..0efa11f 100644
--- a/Bembel/src/util/GeometryHelper.hpp
+++ b/Bembel/src/util/GeometryHelper.hpp
@@ -29,7 +29,7 @@ namespace util {
  * \param midpoint2: Eigen::Vector3d midpoint of the second ball
  * \param radius2: double radius of the second ball
  */
-void computeEnclosingBall(Eigen::Vector3d *midpoint, double *radius,
+inline void computeEnclosingBall(Eigen::Vector3d *midpoint, double *radius,
                           const Eigen::Vector3d &midpoint1, double radius1,
                           const Eigen::Vector3d &midpoint2, double radius2) {
   // compute distance vector of the two spheres
diff --git a/Bembel/src/util/Sphericals.hpp b/Bembel/src/util/Sphericals.hpp
index 51da899..f1b89c7 100644
--- a/Bembel/src/util/Sphericals.hpp
+++ b/Bembel/src/util/Sphericals.hpp
@@ -19,33 +19,33 @@
 
 namespace Bembel {
 
-double evaluate_sphericals(Eigen::Vector3d x, Eigen::VectorXd cs,
+inline double evaluate_sphericals(Eigen::Vector3d x, Eigen::VectorXd cs,
     unsigned int deg);
 
-double evaluate_solid_sphericals(Eigen::Vector3d x, Eigen::VectorXd cs,
+inline double evaluate_solid_sphericals(Eigen::Vector3d x, Eigen::VectorXd cs,
     unsigned int deg, bool grad);
 
-Eigen::Vector3d evaluate_dsphericals(Eigen::Vector3d x, Eigen::VectorXd cs,
-    unsigned int deg);
+inline Eigen::Vector3d evaluate_dsphericals(Eigen::Vector3d x,
+    Eigen::VectorXd cs, unsigned int deg);
 
-Eigen::Vector3d evaluate_dsolid_sphericals(Eigen::Vector3d x,
+inline Eigen::Vector3d evaluate_dsolid_sphericals(Eigen::Vector3d x,
     Eigen::VectorXd cs, unsigned int deg);
 
-Eigen::Matrix<double, Eigen::Dynamic, 2> spherical_harmonics_full(
+inline Eigen::Matrix<double, Eigen::Dynamic, 2> spherical_harmonics_full(
     Eigen::Vector3d x, unsigned int N);
 
 inline Eigen::Vector2d spherical_prev(Eigen::Vector3d x, int m, int n,
     Eigen::Vector2d y1, Eigen::Vector2d y2);
 
-Eigen::Matrix<double, 3, Eigen::Dynamic> Dsolid_harmonics_full(
+inline Eigen::Matrix<double, 3, Eigen::Dynamic> Dsolid_harmonics_full(
     Eigen::Vector3d x, unsigned int N, Eigen::MatrixXd spherical_val);
 
-Eigen::Matrix<double, 3, 2> dsolid_spherical_prev(Eigen::Vector3d y, int m,
-    unsigned int n, Eigen::VectorXd L, double y_re, double y_im);
+inline Eigen::Matrix<double, 3, 2> dsolid_spherical_prev(Eigen::Vector3d y,
+    int m, unsigned int n, Eigen::VectorXd L, double y_re, double y_im);
 
-Eigen::VectorXd legendreFull(unsigned int N, double t);
+inline Eigen::VectorXd legendreFull(unsigned int N, double t);
 
-double constant(int m, unsigned int n);
+inline double constant(int m, unsigned int n);
 
 inline Eigen::Matrix3d functionalMatrix(Eigen::Vector3d z);
 
@@ -65,7 +65,7 @@ inline double pow_int(double x, int n);
  * 																			  (2, -2), (2, -1), ... (n, n)] \f$
  * @param deg:	The degree
  */
-double evaluate_sphericals(Eigen::Vector3d x, Eigen::VectorXd cs,
+inline double evaluate_sphericals(Eigen::Vector3d x, Eigen::VectorXd cs,
     unsigned int deg) {
   unsigned int m, n;
   double z1[2], z2[2], z3[2], z1_start[2];
@@ -128,7 +128,7 @@ double evaluate_sphericals(Eigen::Vector3d x, Eigen::VectorXd cs,
  * @param deg:	The degree
  * @param grad: distinguish the two cases.
  */
-double evaluate_solid_sphericals(Eigen::Vector3d x, Eigen::VectorXd cs,
+inline double evaluate_solid_sphericals(Eigen::Vector3d x, Eigen::VectorXd cs,
     unsigned int deg, bool grad) {
   unsigned int m, n;
   double z1[2], z2[2], z3[2], z1_start[2];
@@ -216,8 +216,8 @@ double evaluate_solid_sphericals(Eigen::Vector3d x, Eigen::VectorXd cs,
  * 																			  (2, -2), (2, -1), ... (n, n)] \f$
  * @param deg:	The degree
  */
-Eigen::Vector3d evaluate_dsphericals(Eigen::Vector3d x, Eigen::VectorXd cs,
-    unsigned int deg) {
+inline Eigen::Vector3d evaluate_dsphericals(Eigen::Vector3d x,
+    Eigen::VectorXd cs, unsigned int deg) {
   unsigned int m, n;
   double z1[2], z2[2], z3[2], z1_start[2];
   Eigen::Vector3d dr;
@@ -307,7 +307,7 @@ Eigen::Vector3d evaluate_dsphericals(Eigen::Vector3d x, Eigen::VectorXd cs,
  * 																			  (2, -2), (2, -1), ... (n, n)] \f$
  * @param deg:	The degree
  */
-Eigen::Vector3d evaluate_dsolid_sphericals(Eigen::Vector3d x,
+inline Eigen::Vector3d evaluate_dsolid_sphericals(Eigen::Vector3d x,
     Eigen::VectorXd cs, unsigned int deg) {
   unsigned int m, n;
   double z1[2], z2[2], z3[2], z1_start[2];
@@ -396,7 +396,7 @@ Eigen::Vector3d evaluate_dsolid_sphericals(Eigen::Vector3d x,
  *  @param  x:    the point of evaluation
  *  @param  N:    the maximal degree
  */
-Eigen::Matrix<double, Eigen::Dynamic, 2> spherical_harmonics_full(
+inline Eigen::Matrix<double, Eigen::Dynamic, 2> spherical_harmonics_full(
     Eigen::Vector3d x, unsigned int N) {
 
   Eigen::VectorXd real((N + 1) * (N + 1));
@@ -500,7 +500,7 @@ inline Eigen::Vector2d spherical_prev(Eigen::Vector3d x, int m, int n,
 /**
  * \brief Calculates all gradients of the solid harmonics, given the Legendre Coefficients L.
  */
-Eigen::Matrix<double, 3, Eigen::Dynamic> Dsolid_harmonics_full(
+inline Eigen::Matrix<double, 3, Eigen::Dynamic> Dsolid_harmonics_full(
     Eigen::Vector3d x, unsigned int N, Eigen::MatrixXd spherical_val) {
 
   Eigen::VectorXd L = legendreFull(N, x(2) / x.norm());
@@ -601,8 +601,8 @@ inline Eigen::Matrix<double, 3, 2> dspherical_prev(Eigen::Vector3d x, int m,
  * \brief Calculates the derivative of the solid harmonics function \f$ \phi_n^m \f$ at
  *  the point \f$ y \f$ with the spherical values.
  */
-Eigen::Matrix<double, 3, 2> dsolid_spherical_prev(Eigen::Vector3d y, int m,
-    unsigned int n, Eigen::VectorXd L, double y_re, double y_im) {
+inline Eigen::Matrix<double, 3, 2> dsolid_spherical_prev(Eigen::Vector3d y,
+    int m, unsigned int n, Eigen::VectorXd L, double y_re, double y_im) {
 
   //  normalise y
   // x denotes the normalised y and is passed to the original functions
@@ -685,7 +685,7 @@ Eigen::Matrix<double, 3, 2> dsolid_spherical_prev(Eigen::Vector3d y, int m,
 /**
  * \brief Returns the values of the spherical polynomials \f$ P_n^m(t) \f$
  */
-Eigen::VectorXd legendreFull(unsigned int N, double t) {
+inline Eigen::VectorXd legendreFull(unsigned int N, double t) {
   Eigen::VectorXd L(((N + 1) * (N + 2)) / 2);
   int n, s, m;
 
@@ -720,7 +720,7 @@ Eigen::VectorXd legendreFull(unsigned int N, double t) {
 /**
  *  \brief gives the norming factor of the spherical polynomials
  */
-double constant(int m, unsigned int n) {
+inline double constant(int m, unsigned int n) {
   unsigned int i;
   double c = sqrt((2 * n + 1) / (4 * pi));
 
-- 
2.43.0


From 796c5f35a2054b69fbe02c806e5adc32710ec078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:29 +0000
Subject: [PATCH 32/32] fix: LinearForm and Potential include the modules they
 use

Neither module could be included on its own.
---
 Bembel/LinearForm | 5 +++++
 Bembel/Potential  | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/Bembel/LinearForm b/Bembel/LinearForm
index 836b657..bb93db6 100644
--- a/Bembel/LinearForm
+++ b/Bembel/LinearForm
@@ -19,6 +19,11 @@
  *the right hand side.
  **/
 
+#include <functional>
+
+#include <Eigen/Dense>
+
+#include "AnsatzSpace"
 #include "Quadrature"
 
 #include "src/LinearForm/LinearForm.hpp"
diff --git a/Bembel/Potential b/Bembel/Potential
index f71730d..e8583ce 100644
--- a/Bembel/Potential
+++ b/Bembel/Potential
@@ -21,6 +21,11 @@
  *LinearOperatorBase class.
  **/
 
+#include <Eigen/Dense>
+
+#include "AnsatzSpace"
+#include "Quadrature"
+
 #include "src/Potential/Potential.hpp"
 #include "src/Potential/DiscretePotential.hpp"
 
-- 
2.43.0

