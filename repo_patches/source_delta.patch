From 3ec3dbd6d618b3b462c2aea96ed31b87b029d513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:00 +0000
Subject: [PATCH 01/32] fix: compute the C-space boundaries of each slice with
 the robot in that slice's orientation

The free space computator keeps its own copy of the robot, which was never
updated, so the boundaries of every C-slice were those of the orientation the
robot had when the planner was constructed.
---
 include/hrm/planners/HRM2D.h   |  4 ++++
 include/hrm/planners/HRM2DKC.h |  2 ++
 src/planners/HRM2D.cpp         |  5 +++++
 src/planners/HRM2DKC.cpp       | 17 ++++++++++-------
 src/planners/HRM3D.cpp         |  1 +
 5 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/include/hrm/planners/HRM2D.h b/include/hrm/planners/HRM2D.h
index 331837d..b8b77e1 100644
--- a/include/hrm/planners/HRM2D.h
+++ b/include/hrm/planners/HRM2D.h
@@ -63,6 +63,10 @@ class HRM2D : public HighwayRoadMap<MultiBodyTree2D, SuperEllipse> {
 
     virtual void setTransform(const std::vector<Coordinate>& v) override;
 
+    /** \brief Pass the robot, transformed to the current C-slice, to the free
+     * space computator */
+    virtual void updateFreeSpaceRobot();
+
     /** \brief Compute Tightly-Fitted Ellipse (TFE) to enclose robot parts when
      * rotating around its center
      * \param thetaA Start heading angle of the robot
diff --git a/include/hrm/planners/HRM2DKC.h b/include/hrm/planners/HRM2DKC.h
index 454af82..cff19e5 100644
--- a/include/hrm/planners/HRM2DKC.h
+++ b/include/hrm/planners/HRM2DKC.h
@@ -27,6 +27,8 @@ class HRM2DKC : public HRM2D {
   private:
     void connectMultiSlice() override;
 
+    void updateFreeSpaceRobot() override;
+
     /** \brief Add a middle vertex between two vertices for edge connection
      * \param vtx1 Start vertex
      * \param vtx2 Goal vertex
diff --git a/src/planners/HRM2D.cpp b/src/planners/HRM2D.cpp
index f1b2f23..ff19330 100644
--- a/src/planners/HRM2D.cpp
+++ b/src/planners/HRM2D.cpp
@@ -24,6 +24,7 @@ void hrm::planners::HRM2D::constructOneSlice(const Index sliceIdx) {
     // Generate new C-slice
     if (!isRefine_) {
         // Generate Minkowski operation boundaries
+        updateFreeSpaceRobot();
         freeSpacePtr_->computeCSpaceBoundary();
         sliceBound_ = freeSpacePtr_->getCSpaceBoundary();
         sliceBoundAll_.push_back(sliceBound_);
@@ -349,6 +350,10 @@ void hrm::planners::HRM2D::setTransform(const std::vector<Coordinate>& v) {
     robot_.robotTF(g);
 }
 
+void hrm::planners::HRM2D::updateFreeSpaceRobot() {
+    freeSpacePtr_->setRobot(robot_);
+}
+
 void hrm::planners::HRM2D::computeTFE(const double thetaA, const double thetaB,
                                       std::vector<SuperEllipse>& tfe) {
     tfe.clear();
diff --git a/src/planners/HRM2DKC.cpp b/src/planners/HRM2DKC.cpp
index e5d331f..b8ca2d2 100644
--- a/src/planners/HRM2DKC.cpp
+++ b/src/planners/HRM2DKC.cpp
@@ -7,21 +7,24 @@ hrm::planners::HRM2DKC::HRM2DKC(const MultiBodyTree2D& robot,
                                 const std::vector<SuperEllipse>& obs,
                                 const PlanningRequest& req)
     : HRM2D(robot, arena, obs, req) {
+    // Update robot in the free space computator
+    HRM2DKC::updateFreeSpaceRobot();
+    freeSpacePtr_->setup(param_.numLineY, param_.boundaryLimits[0],
+                         param_.boundaryLimits[1]);
+}
+
+hrm::planners::HRM2DKC::~HRM2DKC() = default;
+
+void hrm::planners::HRM2DKC::updateFreeSpaceRobot() {
     // Enlarge the robot
     SuperEllipse baseInflated = robot_.getBase();
     baseInflated.setSemiAxis(
         {baseInflated.getSemiAxis().at(0) * (1 + inflationFactor_),
          baseInflated.getSemiAxis().at(1) * (1 + inflationFactor_)});
-    MultiBodyTree2D robot_infla(baseInflated);
 
-    // Update robot in the free space computator
-    freeSpacePtr_->setRobot(robot_infla);
-    freeSpacePtr_->setup(param_.numLineY, param_.boundaryLimits[0],
-                         param_.boundaryLimits[1]);
+    freeSpacePtr_->setRobot(MultiBodyTree2D(baseInflated));
 }
 
-hrm::planners::HRM2DKC::~HRM2DKC() = default;
-
 void hrm::planners::HRM2DKC::connectMultiSlice() {
     Index n = res_.graphStructure.vertex.size();
     Index n11;
diff --git a/src/planners/HRM3D.cpp b/src/planners/HRM3D.cpp
index d5295b1..55fe876 100644
--- a/src/planners/HRM3D.cpp
+++ b/src/planners/HRM3D.cpp
@@ -33,6 +33,7 @@ void hrm::planners::HRM3D::constructOneSlice(const Index sliceIdx) {
     // Add new C-slice
     if (!isRefine_) {
         // Generate Minkowski operation boundaries
+        freeSpacePtr_->setRobot(robot_);
         freeSpacePtr_->computeCSpaceBoundary();
         sliceBound_ = freeSpacePtr_->getCSpaceBoundary();
         sliceBoundAll_.push_back(sliceBound_);
-- 
2.43.0


From a11a717834fb611dac78326394bb0a805dde1d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:00 +0000
Subject: [PATCH 02/32] fix: scale the superellipse gradient by its semi axes
 in getMinkSum2D

Without the factors the boundary lies inside the Minkowski sum whenever the
obstacle's semi axes differ.
---
 src/geometry/SuperEllipse.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/geometry/SuperEllipse.cpp b/src/geometry/SuperEllipse.cpp
index 38cd234..197ddda 100644
--- a/src/geometry/SuperEllipse.cpp
+++ b/src/geometry/SuperEllipse.cpp
@@ -88,9 +88,9 @@ hrm::BoundaryPoints hrm::SuperEllipse::getMinkSum2D(const SuperEllipse &shapeB,
     for (auto i = 0; i < int(num_); i++) {
         the(0, i) = 2 * i * PI / (static_cast<double>(num_) - 1);
         gradPhi(0, i) =
-            2 / eps1 * exponentialFunction(the(0, i), 2 - eps1, false);
+            2 / eps1 * exponentialFunction(the(0, i), 2 - eps1, false) / a1;
         gradPhi(1, i) =
-            2 / eps1 * exponentialFunction(the(0, i), 2 - eps1, true);
+            2 / eps1 * exponentialFunction(the(0, i), 2 - eps1, true) / b1;
     }
     xMinkowski =
         getOriginShape() +
-- 
2.43.0


From 4f2dc7011f122da467735d950212453f8b28ff56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:34 +0000
Subject: [PATCH 03/32] fix: report the length of the solved path as its cost

The cost summed the weights of the edges whose indices happened to equal the
vertex indices on the path.
---
 include/hrm/planners/HighwayRoadMap-inl.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/hrm/planners/HighwayRoadMap-inl.h b/include/hrm/planners/HighwayRoadMap-inl.h
index a14b876..c1a104e 100644
--- a/include/hrm/planners/HighwayRoadMap-inl.h
+++ b/include/hrm/planners/HighwayRoadMap-inl.h
@@ -148,15 +148,12 @@ void HighwayRoadMap<RobotType, ObjectType>::search() {
             } catch (AStarFoundGoal found) {
                 // Record path and cost
                 num = 0;
-                res_.solutionPath.cost = 0.0;
+                res_.solutionPath.cost = d[idxG];
                 res_.solutionPath.PathId.push_back(int(idxG));
                 while (res_.solutionPath.PathId[num] != int(idxS) &&
                        num <= num_vtx) {
                     res_.solutionPath.PathId.push_back(
                         int(p[size_t(res_.solutionPath.PathId[num])]));
-                    res_.solutionPath.cost +=
-                        res_.graphStructure
-                            .weight[size_t(res_.solutionPath.PathId[num])];
                     num++;
                 }
                 std::reverse(std::begin(res_.solutionPath.PathId),
-- 
2.43.0


From a0efed02c7247fa8d83a570951586c3855204a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:54 +0000
Subject: [PATCH 04/32] fix: size the sweep line intersections for the refined
 number of lines

Refinement doubles the number of sweep lines but kept the storage of the
initial one, so it threw std::out_of_range as soon as it started.
---
 src/planners/HRM2D.cpp | 4 ++++
 src/planners/HRM3D.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/planners/HRM2D.cpp b/src/planners/HRM2D.cpp
index ff19330..031e63f 100644
--- a/src/planners/HRM2D.cpp
+++ b/src/planners/HRM2D.cpp
@@ -30,6 +30,10 @@ void hrm::planners::HRM2D::constructOneSlice(const Index sliceIdx) {
         sliceBoundAll_.push_back(sliceBound_);
     } else {
         sliceBound_ = sliceBoundAll_.at(sliceIdx);
+
+        // Make room for the refined sweep lines
+        freeSpacePtr_->setup(param_.numLineY, param_.boundaryLimits[0],
+                             param_.boundaryLimits[1]);
     }
 
     // Sweep-line process to generate collision free line segments
diff --git a/src/planners/HRM3D.cpp b/src/planners/HRM3D.cpp
index 55fe876..e8bd99c 100644
--- a/src/planners/HRM3D.cpp
+++ b/src/planners/HRM3D.cpp
@@ -45,6 +45,10 @@ void hrm::planners::HRM3D::constructOneSlice(const Index sliceIdx) {
     } else {
         sliceBound_ = sliceBoundAll_.at(sliceIdx);
         sliceBoundMesh_ = sliceBoundMeshAll_.at(sliceIdx);
+
+        // Make room for the refined sweep lines
+        freeSpacePtr_->setup(param_.numLineY, param_.boundaryLimits[4],
+                             param_.boundaryLimits[5]);
     }
 
     // Sweep-line process to generate collision free line segments
-- 
2.43.0


From f432bd571c9ffea3fd6f5acdfe4c008d7e5933da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:54 +0000
Subject: [PATCH 05/32] fix: refine each slice against its own C-space
 boundaries

The free space computator still held the boundaries of the last constructed
slice while the earlier slices were being refined.
---
 include/hrm/datastructure/FreeSpace.h   | 6 ++++++
 include/hrm/datastructure/FreeSpace3D.h | 6 ++++++
 src/planners/HRM2D.cpp                  | 1 +
 src/planners/HRM3D.cpp                  | 2 ++
 4 files changed, 15 insertions(+)

diff --git a/include/hrm/datastructure/FreeSpace.h b/include/hrm/datastructure/FreeSpace.h
index 66a5509..b85033e 100644
--- a/include/hrm/datastructure/FreeSpace.h
+++ b/include/hrm/datastructure/FreeSpace.h
@@ -69,6 +69,12 @@ class FreeSpaceComputator {
      * \return BoundaryInfo */
     const BoundaryInfo& getCSpaceBoundary() const { return cSpaceBoundary_; }
 
+    /** \brief Set C-space obstacles boundary
+     * \param bound BoundaryInfo of the C-slice to be swept */
+    void setCSpaceBoundary(const BoundaryInfo& bound) {
+        cSpaceBoundary_ = bound;
+    }
+
     /** \brief Get intervals for line-obstacle/arena intersections
      * \return IntersectionInterval */
     const IntersectionInterval& getIntersectionInterval() const {
diff --git a/include/hrm/datastructure/FreeSpace3D.h b/include/hrm/datastructure/FreeSpace3D.h
index 2e02437..93a136f 100644
--- a/include/hrm/datastructure/FreeSpace3D.h
+++ b/include/hrm/datastructure/FreeSpace3D.h
@@ -45,6 +45,12 @@ class FreeSpace3D : public FreeSpaceComputator<MultiBodyTree3D, SuperQuadrics> {
         return cSpaceBoundaryMesh_;
     }
 
+    /** \brief Set C-free boundary as mesh
+     * \param mesh Boundary mesh of the C-slice to be swept */
+    void setCSpaceBoundaryMesh(const BoundaryMesh& mesh) {
+        cSpaceBoundaryMesh_ = mesh;
+    }
+
     void computeIntersectionInterval(
         const std::vector<std::vector<Coordinate>>& tLine) override;
 
diff --git a/src/planners/HRM2D.cpp b/src/planners/HRM2D.cpp
index 031e63f..0968f4c 100644
--- a/src/planners/HRM2D.cpp
+++ b/src/planners/HRM2D.cpp
@@ -30,6 +30,7 @@ void hrm::planners::HRM2D::constructOneSlice(const Index sliceIdx) {
         sliceBoundAll_.push_back(sliceBound_);
     } else {
         sliceBound_ = sliceBoundAll_.at(sliceIdx);
+        freeSpacePtr_->setCSpaceBoundary(sliceBound_);
 
         // Make room for the refined sweep lines
         freeSpacePtr_->setup(param_.numLineY, param_.boundaryLimits[0],
diff --git a/src/planners/HRM3D.cpp b/src/planners/HRM3D.cpp
index e8bd99c..092850f 100644
--- a/src/planners/HRM3D.cpp
+++ b/src/planners/HRM3D.cpp
@@ -45,6 +45,8 @@ void hrm::planners::HRM3D::constructOneSlice(const Index sliceIdx) {
     } else {
         sliceBound_ = sliceBoundAll_.at(sliceIdx);
         sliceBoundMesh_ = sliceBoundMeshAll_.at(sliceIdx);
+        freeSpacePtr_->setCSpaceBoundary(sliceBound_);
+        freeSpacePtr_->setCSpaceBoundaryMesh(sliceBoundMesh_);
 
         // Make room for the refined sweep lines
         freeSpacePtr_->setup(param_.numLineY, param_.boundaryLimits[4],
-- 
2.43.0


From 74743414d161af2d1ba31a7e3a8c0ef3e71f0aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:54 +0000
Subject: [PATCH 06/32] fix: measure planning time with a monotonic clock

high_resolution_clock is the system clock here: setting the clock made the
time limit expire at once or never and gave negative planning times.
---
 include/hrm/planners/HighwayRoadMap-inl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hrm/planners/HighwayRoadMap-inl.h b/include/hrm/planners/HighwayRoadMap-inl.h
index c1a104e..4a40652 100644
--- a/include/hrm/planners/HighwayRoadMap-inl.h
+++ b/include/hrm/planners/HighwayRoadMap-inl.h
@@ -14,7 +14,7 @@
 namespace hrm {
 namespace planners {
 
-using Clock = std::chrono::high_resolution_clock;
+using Clock = std::chrono::steady_clock;
 using Durationd = std::chrono::duration<double>;
 
 /** \brief visitor that terminates when we find the goal */
-- 
2.43.0


From 7b1c7217a9a66cb7aff71ed1cffa2be5df64c833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:56 +0000
Subject: [PATCH 07/32] fix: count the time of each ProbHRM3D iteration once

The build time of an iteration was measured from the start of the search of
the previous one, so search and refinement were counted twice.
---
 src/planners/ProbHRM3D.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/planners/ProbHRM3D.cpp b/src/planners/ProbHRM3D.cpp
index 4067c4f..d5c7fd0 100644
--- a/src/planners/ProbHRM3D.cpp
+++ b/src/planners/ProbHRM3D.cpp
@@ -16,10 +16,11 @@ hrm::planners::ProbHRM3D::ProbHRM3D(const MultiBodyTree3D& robot,
 hrm::planners::ProbHRM3D::~ProbHRM3D() = default;
 
 void hrm::planners::ProbHRM3D::plan(const double timeLim) {
-    auto start = Clock::now();
     param_.numSlice = 0;
 
     do {
+        auto start = Clock::now();
+
         // Randomly generate rotations and joint angles
         sampleOrientations();
 
-- 
2.43.0


From fdd13e8c5b1db85c26828770b806c12791f729fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:56 +0000
Subject: [PATCH 08/32] fix: give refined ProbHRM3D vertices the joint angles
 of their own slice

They were given the joint angles of the last sampled slice.
---
 src/planners/ProbHRM3D.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/planners/ProbHRM3D.cpp b/src/planners/ProbHRM3D.cpp
index d5c7fd0..f0bb3dc 100644
--- a/src/planners/ProbHRM3D.cpp
+++ b/src/planners/ProbHRM3D.cpp
@@ -166,7 +166,10 @@ void hrm::planners::ProbHRM3D::connectMultiSlice() {
 void hrm::planners::ProbHRM3D::generateVertices(const Coordinate tx,
                                                 const FreeSegment2D& freeSeg) {
     numVertex_.plane.clear();
-    std::vector<Coordinate> vertex(v_.back().size());
+
+    // Configuration of the slice under construction
+    const std::vector<Coordinate>& config = v_.at(vertexIdx_.size());
+    std::vector<Coordinate> vertex(config.size());
 
     for (size_t i = 0; i < freeSeg.ty.size(); ++i) {
         numVertex_.plane.push_back(res_.graphStructure.vertex.size());
@@ -182,8 +185,8 @@ void hrm::planners::ProbHRM3D::generateVertices(const Coordinate tx,
             vertex.at(6) = robot_.getBase().getQuaternion().z();
 
             // Configuration of joints
-            for (size_t m = 7; m < v_.back().size(); ++m) {
-                vertex.at(m) = v_.back().at(m);
+            for (size_t m = 7; m < config.size(); ++m) {
+                vertex.at(m) = config.at(m);
             }
 
             // Construct a std::vector of vertex
-- 
2.43.0


From efe4195d6bb130aaf1421642696e4265b17b852e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:56 +0000
Subject: [PATCH 09/32] fix: seed the orientation sampling of ProbHRM3D once
 per plan

Reseeding with the time in seconds before every sample gave the same
orientation to all slices built within one second.
---
 src/planners/ProbHRM3D.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/planners/ProbHRM3D.cpp b/src/planners/ProbHRM3D.cpp
index f0bb3dc..50c7c4c 100644
--- a/src/planners/ProbHRM3D.cpp
+++ b/src/planners/ProbHRM3D.cpp
@@ -67,7 +67,9 @@ void hrm::planners::ProbHRM3D::plan(const double timeLim) {
 
 void hrm::planners::ProbHRM3D::sampleOrientations() {
     // Iteratively add slices with random orientations
-    srand(unsigned(std::time(nullptr)));
+    if (param_.numSlice == 0) {
+        srand(unsigned(std::time(nullptr)));
+    }
     ompl::RNG rng;
 
     // Randomly sample rotation of base
-- 
2.43.0


From 60f3b97a03c70d9b76e46ee7460c12e3c099697e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:56 +0000
Subject: [PATCH 10/32] fix: take the vertices near start and goal from the
 slices they belong to

The nearest orientation was left uninitialised when it was the first one, a
slice without vertices yielded vertex 0 of another slice, the first vertex hid
those farther away, and an empty roadmap was read out of bounds.
---
 src/planners/HRM2D.cpp | 12 ++++++++++--
 src/planners/HRM3D.cpp | 11 ++++++++++-
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/planners/HRM2D.cpp b/src/planners/HRM2D.cpp
index 0968f4c..5a81b25 100644
--- a/src/planners/HRM2D.cpp
+++ b/src/planners/HRM2D.cpp
@@ -290,6 +290,10 @@ bool hrm::planners::HRM2D::isPtInCFree(const Index bdIdx,
 std::vector<hrm::planners::Vertex>
 hrm::planners::HRM2D::getNearestNeighborsOnGraph(
     const std::vector<Coordinate>& vertex, const Index k, const double radius) {
+    if (res_.graphStructure.vertex.empty()) {
+        return {};
+    }
+
     // Find the closest roadmap vertex
     double minEuclideanDist = INFINITY;
     double minAngleDist = INFINITY;
@@ -324,8 +328,7 @@ hrm::planners::HRM2D::getNearestNeighborsOnGraph(
     // line gaps) at each C-slice
     for (double angCur : angList) {
         Vertex idxSlice = 0;
-        minEuclideanDist =
-            vectorEuclidean(vertex, res_.graphStructure.vertex[0]);
+        minEuclideanDist = INFINITY;
         for (size_t i = 0; i < res_.graphStructure.vertex.size(); ++i) {
             euclideanDist =
                 vectorEuclidean(vertex, res_.graphStructure.vertex[i]);
@@ -337,6 +340,11 @@ hrm::planners::HRM2D::getNearestNeighborsOnGraph(
             }
         }
 
+        // No vertex in this C-slice
+        if (std::isinf(minEuclideanDist)) {
+            continue;
+        }
+
         if (std::abs(vertex[1] - res_.graphStructure.vertex[idxSlice][1]) <
             radius * (param_.boundaryLimits[1] - param_.boundaryLimits[0]) /
                 static_cast<double>(param_.numLineY)) {
diff --git a/src/planners/HRM3D.cpp b/src/planners/HRM3D.cpp
index 092850f..11230c3 100644
--- a/src/planners/HRM3D.cpp
+++ b/src/planners/HRM3D.cpp
@@ -450,6 +450,10 @@ void hrm::planners::HRM3D::sampleSO3() {
 std::vector<hrm::planners::Vertex>
 hrm::planners::HRM3D::getNearestNeighborsOnGraph(
     const std::vector<Coordinate>& vertex, const Index k, const double radius) {
+    if (res_.graphStructure.vertex.empty()) {
+        return {};
+    }
+
     double minEuclideanDist;
     double minQuatDist;
     double quatDist;
@@ -457,7 +461,7 @@ hrm::planners::HRM3D::getNearestNeighborsOnGraph(
     std::vector<Vertex> idx;
 
     Eigen::Quaterniond queryQuat(vertex[3], vertex[4], vertex[5], vertex[6]);
-    Eigen::Quaterniond minQuat;
+    Eigen::Quaterniond minQuat = q_[0];
 
     // Find the closest C-slice
     minQuatDist = queryQuat.angularDistance(q_[0]);
@@ -501,6 +505,11 @@ hrm::planners::HRM3D::getNearestNeighborsOnGraph(
             }
         }
 
+        // No vertex in this C-slice
+        if (std::isinf(minEuclideanDist)) {
+            continue;
+        }
+
         if (std::abs(vertex[0] - res_.graphStructure.vertex[idxSlice][0]) <
                 radius * (param_.boundaryLimits[1] - param_.boundaryLimits[0]) /
                     static_cast<double>(param_.numLineX) &&
-- 
2.43.0


From 9e0b321445c6fed76471619e8ff320dbe51e1965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:56 +0000
Subject: [PATCH 11/32] fix: keep the end points when interpolating with zero
 steps

The result was overwritten by an interpolation that divides by zero.
---
 src/util/InterpolateSE3.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/InterpolateSE3.cpp b/src/util/InterpolateSE3.cpp
index 8b9410d..fb4eefb 100644
--- a/src/util/InterpolateSE3.cpp
+++ b/src/util/InterpolateSE3.cpp
@@ -34,7 +34,7 @@ std::vector<std::vector<hrm::Coordinate>> hrm::interpolateCompoundSE3Rn(
     std::vector<std::vector<Coordinate>> vInterp;
 
     if (numStep == 0) {
-        vInterp = std::vector<std::vector<Coordinate>>({vStart, vEnd});
+        return {vStart, vEnd};
     }
 
     if (vStart.size() == 7) {
-- 
2.43.0


From 33c2a05f6c8aac21df0cc374f2d2299cc0950f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:56 +0000
Subject: [PATCH 12/32] fix: interpolate solved paths through a single roadmap
 vertex

The step length was derived from the cost, which leaves out the segments from
the start and to the goal and is zero for such a path.
---
 src/planners/HRM3D.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/planners/HRM3D.cpp b/src/planners/HRM3D.cpp
index 11230c3..065cb77 100644
--- a/src/planners/HRM3D.cpp
+++ b/src/planners/HRM3D.cpp
@@ -281,17 +281,25 @@ hrm::planners::HRM3D::getInterpolatedSolutionPath(const Index num) {
     std::vector<std::vector<Coordinate>> pathInterp;
 
     // Compute distance per step
+    double pathLength = 0.0;
+    for (size_t i = 0; i < res_.solutionPath.solvedPath.size() - 1; ++i) {
+        pathLength += vectorEuclidean(res_.solutionPath.solvedPath.at(i),
+                                      res_.solutionPath.solvedPath.at(i + 1));
+    }
     const double distanceStep =
-        res_.solutionPath.cost /
+        pathLength /
         (static_cast<double>(num) *
          (static_cast<double>(res_.solutionPath.solvedPath.size()) - 1.0));
 
     // Iteratively store interpolated poses along the solved path
     for (size_t i = 0; i < res_.solutionPath.solvedPath.size() - 1; ++i) {
-        const auto numStep = static_cast<int>(
-            vectorEuclidean(res_.solutionPath.solvedPath.at(i),
-                            res_.solutionPath.solvedPath.at(i + 1)) /
-            distanceStep);
+        const auto numStep =
+            distanceStep > 0.0
+                ? static_cast<int>(
+                      vectorEuclidean(res_.solutionPath.solvedPath.at(i),
+                                      res_.solutionPath.solvedPath.at(i + 1)) /
+                      distanceStep)
+                : 0;
 
         std::vector<std::vector<Coordinate>> stepInterp =
             interpolateCompoundSE3Rn(res_.solutionPath.solvedPath.at(i),
-- 
2.43.0


From 31d457558ac7c90a195d3928e27ed3cabfe8bdf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:56 +0000
Subject: [PATCH 13/32] fix: plan with one or two C-slices in HRM2D

One slice got the heading NaN, two threw std::out_of_range.
---
 src/planners/HRM2D.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/planners/HRM2D.cpp b/src/planners/HRM2D.cpp
index 5a81b25..a67f495 100644
--- a/src/planners/HRM2D.cpp
+++ b/src/planners/HRM2D.cpp
@@ -50,7 +50,10 @@ void hrm::planners::HRM2D::constructOneSlice(const Index sliceIdx) {
 /** \brief Setup rotation angles: angle range [-PI, PI]. If the heading
  * exists, no addition and record the index */
 void hrm::planners::HRM2D::sampleOrientations() {
-    const double dr = 2 * PI / (static_cast<double>(param_.numSlice) - 1);
+    const double dr =
+        param_.numSlice > 1
+            ? 2 * PI / (static_cast<double>(param_.numSlice) - 1)
+            : 0.0;
     for (size_t i = 0; i < param_.numSlice; ++i) {
         headings_.push_back(-PI + dr * static_cast<double>(i));
     }
@@ -118,7 +121,11 @@ void hrm::planners::HRM2D::connectMultiSlice() {
         endIdCur = vertexIdx_.at(i).slice;
 
         // Find the nearest C-slice
-        if (i == param_.numSlice - 1 && param_.numSlice != 2) {
+        if (i == param_.numSlice - 1) {
+            // The only two C-slices are connected already
+            if (param_.numSlice == 2) {
+                break;
+            }
             j = 0;
         } else {
             j = i + 1;
-- 
2.43.0


From 76a9ce57c5de517deb3b6c0646eeeabf648160ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:56 +0000
Subject: [PATCH 14/32] fix: orient the minimum volume covering ellipse and
 ellipsoid correctly

acos loses the sign of the angle, and the singular vectors may form a
reflection, which is no rotation: the result did not cover the two shapes.
---
 src/geometry/TightFitEllipsoid.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/geometry/TightFitEllipsoid.cpp b/src/geometry/TightFitEllipsoid.cpp
index 9f1fe89..3e2f3b4 100644
--- a/src/geometry/TightFitEllipsoid.cpp
+++ b/src/geometry/TightFitEllipsoid.cpp
@@ -34,7 +34,7 @@ hrm::SuperEllipse hrm::getMVCE2D(const std::vector<double>& a,
     const Eigen::Matrix2d C =
         T * svd.matrixU() * diagC * svd.matrixU().transpose() * T;
     svd.compute(C);
-    const double angleC = acos(svd.matrixU()(0, 0));
+    const double angleC = atan2(svd.matrixU()(1, 0), svd.matrixU()(0, 0));
     const Eigen::Array2d c = svd.singularValues().array().pow(-0.5);
 
     return SuperEllipse({c(0), c(1)}, 1, {0, 0}, angleC, num);
@@ -74,7 +74,11 @@ hrm::SuperQuadrics hrm::getMVCE3D(const std::vector<double>& a,
     const Eigen::Matrix3d C =
         T * svd.matrixU() * diagC * svd.matrixU().transpose() * T;
     svd.compute(C);
-    const Eigen::Quaterniond quatC(svd.matrixU());
+    Eigen::Matrix3d Rc = svd.matrixU();
+    if (Rc.determinant() < 0.0) {
+        Rc.col(2) = -Rc.col(2);
+    }
+    const Eigen::Quaterniond quatC(Rc);
     const Eigen::Array3d c = svd.singularValues().array().pow(-0.5);
 
     return SuperQuadrics({c(0), c(1), c(2)}, {1, 1}, {0, 0, 0}, quatC, num);
-- 
2.43.0


From 93f95b4252b764476fa98c51a8d7427c418615e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:35 +0000
Subject: [PATCH 15/32] fix: use all intersections of a sweep line with a
 polygon

A line through a polygon vertex yields that point twice, and at the topmost or
lowest vertex only once: reading the first two missed the obstacle or read past
the end.
---
 src/datastructure/FreeSpace2D.cpp | 18 ++++++++++++------
 src/planners/HRM2D.cpp            |  7 +++++--
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/datastructure/FreeSpace2D.cpp b/src/datastructure/FreeSpace2D.cpp
index 0a5e643..435f9a2 100644
--- a/src/datastructure/FreeSpace2D.cpp
+++ b/src/datastructure/FreeSpace2D.cpp
@@ -3,6 +3,8 @@
 #include "hrm/datastructure/FreeSpace2D.h"
 #include "hrm/geometry/LineIntersection.h"
 
+#include <algorithm>
+
 hrm::FreeSpace2D::FreeSpace2D(const MultiBodyTree2D& robot,
                               const std::vector<SuperEllipse>& arena,
                               const std::vector<SuperEllipse>& obstacle)
@@ -24,10 +26,12 @@ void hrm::FreeSpace2D::computeIntersectionInterval(
             } else {
                 intersect_.arenaLow.at(i).at(j) = std::fmin(
                     lowBound_,
-                    std::fmin(intersectPointArena[0], intersectPointArena[1]));
+                    *std::min_element(intersectPointArena.begin(),
+                                      intersectPointArena.end()));
                 intersect_.arenaUpp.at(i).at(j) = std::fmax(
                     upBound_,
-                    std::fmax(intersectPointArena[0], intersectPointArena[1]));
+                    *std::max_element(intersectPointArena.begin(),
+                                      intersectPointArena.end()));
             }
         }
 
@@ -40,10 +44,12 @@ void hrm::FreeSpace2D::computeIntersectionInterval(
                 intersect_.obstacleLow.at(i).at(j) = NAN;
                 intersect_.obstacleUpp.at(i).at(j) = NAN;
             } else {
-                intersect_.obstacleLow.at(i).at(j) = std::fmin(
-                    intersectPointObstacle[0], intersectPointObstacle[1]);
-                intersect_.obstacleUpp.at(i).at(j) = std::fmax(
-                    intersectPointObstacle[0], intersectPointObstacle[1]);
+                intersect_.obstacleLow.at(i).at(j) = *std::min_element(
+                    intersectPointObstacle.begin(),
+                    intersectPointObstacle.end());
+                intersect_.obstacleUpp.at(i).at(j) = *std::max_element(
+                    intersectPointObstacle.begin(),
+                    intersectPointObstacle.end());
             }
         }
     }
diff --git a/src/planners/HRM2D.cpp b/src/planners/HRM2D.cpp
index a67f495..5978db6 100644
--- a/src/planners/HRM2D.cpp
+++ b/src/planners/HRM2D.cpp
@@ -3,6 +3,8 @@
 #include "hrm/planners/HRM2D.h"
 #include "hrm/geometry/LineIntersection.h"
 
+#include <algorithm>
+
 hrm::planners::HRM2D::HRM2D(const MultiBodyTree2D& robot,
                             const std::vector<SuperEllipse>& arena,
                             const std::vector<SuperEllipse>& obs,
@@ -284,8 +286,9 @@ bool hrm::planners::HRM2D::isPtInCFree(const Index bdIdx,
         auto intersectObs = intersectHorizontalLinePolygon2D(v[1], bound);
 
         if (!intersectObs.empty()) {
-            if (v[0] > std::fmin(intersectObs[0], intersectObs[1]) &&
-                v[0] < std::fmax(intersectObs[0], intersectObs[1])) {
+            const auto bounds = std::minmax_element(intersectObs.begin(),
+                                                    intersectObs.end());
+            if (v[0] > *bounds.first && v[0] < *bounds.second) {
                 return false;
             }
         }
-- 
2.43.0


From 6a9709343b225fd17940475a5b8f937749266a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:02 +0000
Subject: [PATCH 16/32] fix: find both intersections of a line with a mesh

A line through an edge shared by two triangles counted the same point twice, so
that the obstacle was missed, and a single intersection was read past the end.
---
 src/datastructure/FreeSpace3D.cpp | 22 ++++++++++++----------
 src/geometry/LineIntersection.cpp |  8 ++++++--
 src/planners/HRM3D.cpp            | 13 +++++++------
 3 files changed, 25 insertions(+), 18 deletions(-)

diff --git a/src/datastructure/FreeSpace3D.cpp b/src/datastructure/FreeSpace3D.cpp
index 7d6e8e9..c5f9d3b 100644
--- a/src/datastructure/FreeSpace3D.cpp
+++ b/src/datastructure/FreeSpace3D.cpp
@@ -41,12 +41,12 @@ void hrm::FreeSpace3D::computeIntersectionInterval(
                 intersect_.arenaLow.at(i).at(j) = lowBound_;
                 intersect_.arenaUpp.at(i).at(j) = upBound_;
             } else {
-                intersect_.arenaLow.at(i).at(j) =
-                    std::fmin(lowBound_, std::fmin(intersectPointArena[0](2),
-                                                   intersectPointArena[1](2)));
-                intersect_.arenaUpp.at(i).at(j) =
-                    std::fmax(upBound_, std::fmax(intersectPointArena[0](2),
-                                                  intersectPointArena[1](2)));
+                intersect_.arenaLow.at(i).at(j) = std::fmin(
+                    lowBound_, std::fmin(intersectPointArena.front()(2),
+                                         intersectPointArena.back()(2)));
+                intersect_.arenaUpp.at(i).at(j) = std::fmax(
+                    upBound_, std::fmax(intersectPointArena.front()(2),
+                                        intersectPointArena.back()(2)));
             }
         }
 
@@ -58,10 +58,12 @@ void hrm::FreeSpace3D::computeIntersectionInterval(
                 intersect_.obstacleLow.at(i).at(j) = NAN;
                 intersect_.obstacleUpp.at(i).at(j) = NAN;
             } else {
-                intersect_.obstacleLow.at(i).at(j) = std::fmin(
-                    intersectPointObstacle[0](2), intersectPointObstacle[1](2));
-                intersect_.obstacleUpp.at(i).at(j) = std::fmax(
-                    intersectPointObstacle[0](2), intersectPointObstacle[1](2));
+                intersect_.obstacleLow.at(i).at(j) =
+                    std::fmin(intersectPointObstacle.front()(2),
+                              intersectPointObstacle.back()(2));
+                intersect_.obstacleUpp.at(i).at(j) =
+                    std::fmax(intersectPointObstacle.front()(2),
+                              intersectPointObstacle.back()(2));
             }
         }
     }
diff --git a/src/geometry/LineIntersection.cpp b/src/geometry/LineIntersection.cpp
index 0af8445..30cb080 100644
--- a/src/geometry/LineIntersection.cpp
+++ b/src/geometry/LineIntersection.cpp
@@ -41,7 +41,9 @@ std::vector<Eigen::Vector3d> hrm::intersectLineMesh3D(const Line3D& line,
         // keep only interesting points
         bool hasIntersect = intersectLineTriangle3D(line, t0, u, v, pt);
 
-        if (hasIntersect) {
+        // an edge shared by two faces is hit only once
+        if (hasIntersect &&
+            (points.empty() || (pt - points.front()).norm() > 1e-9)) {
             points.push_back(pt);
         }
 
@@ -111,7 +113,9 @@ std::vector<Eigen::Vector3d> hrm::intersectVerticalLineMesh3D(
         // keep only interesting points
         bool hasIntersect = intersectLineTriangle3D(line, t0, u, v, pt);
 
-        if (hasIntersect) {
+        // an edge shared by two faces is hit only once
+        if (hasIntersect &&
+            (points.empty() || (pt - points.front()).norm() > 1e-9)) {
             points.push_back(pt);
         }
 
diff --git a/src/planners/HRM3D.cpp b/src/planners/HRM3D.cpp
index 065cb77..8935d3e 100644
--- a/src/planners/HRM3D.cpp
+++ b/src/planners/HRM3D.cpp
@@ -356,10 +356,10 @@ bool hrm::planners::HRM3D::isSameSliceTransitionFree(
             if (!intersectObs.empty()) {
                 // Dot product between vectors (t1->intersect) and
                 // (t2->intersect)
-                const auto s0 =
-                    (intersectObs[0] - t1_).dot(intersectObs[0] - t2_);
+                const auto s0 = (intersectObs.front() - t1_)
+                                    .dot(intersectObs.front() - t2_);
                 const auto s1 =
-                    (intersectObs[1] - t1_).dot(intersectObs[1] - t2_);
+                    (intersectObs.back() - t1_).dot(intersectObs.back() - t2_);
 
                 // Intersect within segment (t1, t2) iff dot product
                 // less than 0
@@ -422,9 +422,10 @@ bool hrm::planners::HRM3D::isPtInCFree(const Index bdIdx,
                 intersectVerticalLineMesh3D(lineZ_, bound);
 
             if (!intersectObs.empty()) {
-                isIntersect =
-                    v_[2] > std::fmin(intersectObs[0][2], intersectObs[1][2]) &&
-                    v_[2] < std::fmax(intersectObs[0][2], intersectObs[1][2]);
+                isIntersect = v_[2] > std::fmin(intersectObs.front()[2],
+                                                intersectObs.back()[2]) &&
+                              v_[2] < std::fmax(intersectObs.front()[2],
+                                                intersectObs.back()[2]);
             }
 
             return isIntersect;
-- 
2.43.0


From 0abc34dcc2ee98cf4baeb55dda4d3c98c4fb7ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:02 +0000
Subject: [PATCH 17/32] fix: mesh each C-space boundary with its own number of
 parameters

Obstacles sampled differently from the first one got a scrambled mesh.
---
 src/datastructure/FreeSpace3D.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/datastructure/FreeSpace3D.cpp b/src/datastructure/FreeSpace3D.cpp
index c5f9d3b..6632a6f 100644
--- a/src/datastructure/FreeSpace3D.cpp
+++ b/src/datastructure/FreeSpace3D.cpp
@@ -16,13 +16,15 @@ void hrm::FreeSpace3D::computeCSpaceBoundaryMesh(const BoundaryInfo& bound) {
     cSpaceBoundaryMesh_.arena.resize(bound.arena.size());
     cSpaceBoundaryMesh_.obstacle.resize(bound.obstacle.size());
 
+    // Each object has one boundary for each body of the robot
+    const size_t numBody = 1 + robot_.getNumLinks();
     for (size_t i = 0; i < bound.arena.size(); ++i) {
         cSpaceBoundaryMesh_.arena.at(i) = getMeshFromParamSurface(
-            bound.arena.at(i), arena_.at(0).getNumParam());
+            bound.arena.at(i), arena_.at(i / numBody).getNumParam());
     }
     for (size_t i = 0; i < bound.obstacle.size(); ++i) {
         cSpaceBoundaryMesh_.obstacle.at(i) = getMeshFromParamSurface(
-            bound.obstacle.at(i), obstacle_.at(0).getNumParam());
+            bound.obstacle.at(i), obstacle_.at(i / numBody).getNumParam());
     }
 }
 
-- 
2.43.0


From 067f16a3fdaa14cf953946155a3d3adb27249732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:30 +0000
Subject: [PATCH 18/32] fix: use the lowest and highest intersections of a
 vertical line with a mesh

Stopping at the first two missed the true extent where the boundary of a C-arena
folds over itself, or where the line touches several faces.
---
 src/geometry/LineIntersection.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/geometry/LineIntersection.cpp b/src/geometry/LineIntersection.cpp
index 30cb080..94fb7fa 100644
--- a/src/geometry/LineIntersection.cpp
+++ b/src/geometry/LineIntersection.cpp
@@ -113,14 +113,17 @@ std::vector<Eigen::Vector3d> hrm::intersectVerticalLineMesh3D(
         // keep only interesting points
         bool hasIntersect = intersectLineTriangle3D(line, t0, u, v, pt);
 
-        // an edge shared by two faces is hit only once
-        if (hasIntersect &&
-            (points.empty() || (pt - points.front()).norm() > 1e-9)) {
-            points.push_back(pt);
+        if (!hasIntersect) {
+            continue;
         }
 
-        if (points.size() == 2) {
-            break;
+        // keep the lowest and the highest intersections
+        if (points.empty()) {
+            points = {pt, pt};
+        } else if (pt(2) < points.front()(2)) {
+            points.front() = pt;
+        } else if (pt(2) > points.back()(2)) {
+            points.back() = pt;
         }
     }
 
-- 
2.43.0


From 855a2fec7ce9a1c686237021e8945392ed8403c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:17 +0000
Subject: [PATCH 19/32] fix: keep the free segments inside the boundary limits
 and the arena

The limits were widened by the C-arena instead of being restricted by it.
---
 src/datastructure/FreeSpace2D.cpp | 4 ++--
 src/datastructure/FreeSpace3D.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/datastructure/FreeSpace2D.cpp b/src/datastructure/FreeSpace2D.cpp
index 435f9a2..c945274 100644
--- a/src/datastructure/FreeSpace2D.cpp
+++ b/src/datastructure/FreeSpace2D.cpp
@@ -24,11 +24,11 @@ void hrm::FreeSpace2D::computeIntersectionInterval(
                 intersect_.arenaLow.at(i).at(j) = lowBound_;
                 intersect_.arenaUpp.at(i).at(j) = upBound_;
             } else {
-                intersect_.arenaLow.at(i).at(j) = std::fmin(
+                intersect_.arenaLow.at(i).at(j) = std::fmax(
                     lowBound_,
                     *std::min_element(intersectPointArena.begin(),
                                       intersectPointArena.end()));
-                intersect_.arenaUpp.at(i).at(j) = std::fmax(
+                intersect_.arenaUpp.at(i).at(j) = std::fmin(
                     upBound_,
                     *std::max_element(intersectPointArena.begin(),
                                       intersectPointArena.end()));
diff --git a/src/datastructure/FreeSpace3D.cpp b/src/datastructure/FreeSpace3D.cpp
index 6632a6f..d4fb208 100644
--- a/src/datastructure/FreeSpace3D.cpp
+++ b/src/datastructure/FreeSpace3D.cpp
@@ -43,10 +43,10 @@ void hrm::FreeSpace3D::computeIntersectionInterval(
                 intersect_.arenaLow.at(i).at(j) = lowBound_;
                 intersect_.arenaUpp.at(i).at(j) = upBound_;
             } else {
-                intersect_.arenaLow.at(i).at(j) = std::fmin(
+                intersect_.arenaLow.at(i).at(j) = std::fmax(
                     lowBound_, std::fmin(intersectPointArena.front()(2),
                                          intersectPointArena.back()(2)));
-                intersect_.arenaUpp.at(i).at(j) = std::fmax(
+                intersect_.arenaUpp.at(i).at(j) = std::fmin(
                     upBound_, std::fmax(intersectPointArena.front()(2),
                                         intersectPointArena.back()(2)));
             }
-- 
2.43.0


From f3508e08a23a29efccd1c15221a3ec3ff009089d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:26 +0000
Subject: [PATCH 20/32] fix: keep a copy of the bounds in the OMPL interface

setup() reads them after the constructor's arguments may be gone.
---
 include/hrm/planners/ompl_interface/OMPLInterface.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/hrm/planners/ompl_interface/OMPLInterface.h b/include/hrm/planners/ompl_interface/OMPLInterface.h
index d993783..f1b3a7e 100644
--- a/include/hrm/planners/ompl_interface/OMPLInterface.h
+++ b/include/hrm/planners/ompl_interface/OMPLInterface.h
@@ -159,10 +159,10 @@ class OMPLInterface {
     std::vector<ObjectType> arena_;
 
     /** \brief Lower bound of the arena */
-    const std::vector<double>& lowBound_;
+    const std::vector<double> lowBound_;
 
     /** \brief Upper bound of the arena */
-    const std::vector<double>& highBound_;
+    const std::vector<double> highBound_;
 
     /** \brief Obstacles model */
     std::vector<ObjectType> obstacle_;
-- 
2.43.0


From cf5c9ffb9f50ccdd864f2f8e1afd22871bd3aff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:26 +0000
Subject: [PATCH 21/32] fix: start each OMPL query afresh

A planner that was asked again kept the tree of the previous query, answered
with a path from the previous start, and appended it to the previous path.
---
 include/hrm/planners/ompl_interface/OMPLInterface-inl.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/hrm/planners/ompl_interface/OMPLInterface-inl.h b/include/hrm/planners/ompl_interface/OMPLInterface-inl.h
index 15fba8f..c3b3c91 100644
--- a/include/hrm/planners/ompl_interface/OMPLInterface-inl.h
+++ b/include/hrm/planners/ompl_interface/OMPLInterface-inl.h
@@ -66,6 +66,12 @@ bool OMPLInterface<RobotType, ObjectType>::plan(
         return isSolved_;
     }
 
+    // Forget the previous query
+    ss_->clear();
+    path_.clear();
+    path_interp_.clear();
+    lengthPath_ = 0;
+
     // Set start and goal states for planning
     setStartAndGoalState(start, goal);
 
-- 
2.43.0


From c736238bc0dcb93668b68536c6bc27a411cfe04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:26 +0000
Subject: [PATCH 22/32] fix: report only exact OMPL solutions as solved

An approximate solution does not reach the goal.
---
 include/hrm/planners/ompl_interface/OMPLInterface-inl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/hrm/planners/ompl_interface/OMPLInterface-inl.h b/include/hrm/planners/ompl_interface/OMPLInterface-inl.h
index c3b3c91..86327b7 100644
--- a/include/hrm/planners/ompl_interface/OMPLInterface-inl.h
+++ b/include/hrm/planners/ompl_interface/OMPLInterface-inl.h
@@ -84,7 +84,8 @@ bool OMPLInterface<RobotType, ObjectType>::plan(
         // Get solution status
         totalTime_ = ss_->getLastPlanComputationTime();
 
-        if (solved && totalTime_ < maxTimeInSec) {
+        if (solved == ob::PlannerStatus::EXACT_SOLUTION &&
+            totalTime_ < maxTimeInSec) {
             // Number of nodes in solved path
             lengthPath_ = ss_->getSolutionPath().getStates().size();
             isSolved_ = true;
-- 
2.43.0


From 3f01d872863c5966ca53a1d4edfbd7319e012ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:26 +0000
Subject: [PATCH 23/32] fix: list the vertices and edges of the graph in OMPL2D

The loops ran over the number of valid motions of the previous query.
---
 src/planners/ompl_interface/OMPL2D.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/planners/ompl_interface/OMPL2D.cpp b/src/planners/ompl_interface/OMPL2D.cpp
index b4a8cf1..f89b44f 100644
--- a/src/planners/ompl_interface/OMPL2D.cpp
+++ b/src/planners/ompl_interface/OMPL2D.cpp
@@ -45,7 +45,7 @@ void hrm::planners::ompl_interface::OMPL2D::getSolution() {
     // Save vertices and edges
     const ob::State *state;
     vertex_.clear();
-    for (auto i = 0; i < numValidStates_; ++i) {
+    for (unsigned int i = 0; i < numGraphVertex_; ++i) {
         state = pd.getVertex(i).getState()->as<ob::State>();
         vertex_.push_back(
             {state->as<ob::SE2StateSpace::StateType>()->getX(),
@@ -53,9 +53,9 @@ void hrm::planners::ompl_interface::OMPL2D::getSolution() {
              state->as<ob::SE2StateSpace::StateType>()->getYaw()});
     }
 
-    std::vector<std::vector<unsigned int>> edgeInfo(numValidStates_);
+    std::vector<std::vector<unsigned int>> edgeInfo(numGraphVertex_);
     edge_.clear();
-    for (auto i = 0; i < numValidStates_; i++) {
+    for (unsigned int i = 0; i < numGraphVertex_; i++) {
         pd.getEdges(i, edgeInfo[i]);
         for (auto edgeI : edgeInfo[i]) {
             edge_.emplace_back(std::make_pair(i, edgeI));
-- 
2.43.0


From bce9c2699947c284c60eae95ea60344c306ae104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:26 +0000
Subject: [PATCH 24/32] fix: report the length of the returned path in OMPL3D

---
 src/planners/ompl_interface/OMPL3D.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/planners/ompl_interface/OMPL3D.cpp b/src/planners/ompl_interface/OMPL3D.cpp
index cc6d399..ed9081a 100644
--- a/src/planners/ompl_interface/OMPL3D.cpp
+++ b/src/planners/ompl_interface/OMPL3D.cpp
@@ -26,6 +26,7 @@ void hrm::planners::ompl_interface::OMPL3D::getSolution() {
             for (auto *state : path.getStates()) {
                 path_.push_back(setVectorFromState(state));
             }
+            lengthPath_ = path_.size();
 
             // Save interpolated path
             path.interpolate(INTERPOLATION_NUMBER);
-- 
2.43.0


From ec96d898a742ae9b45e06f522537ea660d3a9114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:26 +0000
Subject: [PATCH 25/32] fix: fail when the URDF file cannot be read

The planner went on with an empty kinematic tree, in which every link sits at
the base.
---
 src/util/ParseURDF.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util/ParseURDF.cpp b/src/util/ParseURDF.cpp
index 24edef8..713aae8 100644
--- a/src/util/ParseURDF.cpp
+++ b/src/util/ParseURDF.cpp
@@ -4,12 +4,14 @@
 #include "kdl_parser/kdl_parser.hpp"
 
 #include <iostream>
+#include <stdexcept>
 
 hrm::ParseURDF::ParseURDF(const KDL::Tree& kdlTree) : kdlTree_(kdlTree) {}
 
 hrm::ParseURDF::ParseURDF(const std::string& urdfFile) {
     if (!kdl_parser::treeFromFile(urdfFile, kdlTree_)) {
-        std::cout << "Failed to parse and construct KDL tree..." << std::endl;
+        throw std::runtime_error("Failed to parse and construct KDL tree from " +
+                                 urdfFile);
     }
 }
 
-- 
2.43.0


From 2973d083e7f994e2b990cbd135f367c3cd4acbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:15 +0000
Subject: [PATCH 26/32] fix: parse CSV values in double precision

Poses and orientations were rounded to seven digits.
---
 src/util/Parse2dCsvFile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/Parse2dCsvFile.cpp b/src/util/Parse2dCsvFile.cpp
index f910e75..8101dea 100644
--- a/src/util/Parse2dCsvFile.cpp
+++ b/src/util/Parse2dCsvFile.cpp
@@ -22,7 +22,7 @@ std::vector<std::vector<double>> hrm::parse2DCsvFile(
                     break;
                 }
                 try {
-                    record.emplace_back(stof(line));
+                    record.emplace_back(stod(line));
                 } catch (const std::invalid_argument& e) {
                     std::cout << "NaN found in file " << filename << " line "
                               << l << std::endl;
-- 
2.43.0


From 76df1560198036dcc26b24ceb70e4113c35cb268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:48 +0000
Subject: [PATCH 27/32] fix: sort the vertices added to the last sweep line so
 that they are chained

---
 include/hrm/datastructure/FreeSpace-inl.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/hrm/datastructure/FreeSpace-inl.h b/include/hrm/datastructure/FreeSpace-inl.h
index 819790a..fb03e84 100644
--- a/include/hrm/datastructure/FreeSpace-inl.h
+++ b/include/hrm/datastructure/FreeSpace-inl.h
@@ -170,6 +170,13 @@ void FreeSpaceComputator<RobotType, ObjectType>::enhanceFreeSegment() {
              [](double a, double b) { return a < b; });
     }
 
+    // The last sweep line may also have been extended
+    if (!enhanced.ty.empty()) {
+        sort(enhanced.xL.back().begin(), enhanced.xL.back().end());
+        sort(enhanced.xU.back().begin(), enhanced.xU.back().end());
+        sort(enhanced.xM.back().begin(), enhanced.xM.back().end());
+    }
+
     segment_ = enhanced;
 }
 
-- 
2.43.0


From 3106a87b650bf0a4198e4c36a1606234789ead97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:29 +0000
Subject: [PATCH 28/32] fix: do not connect the first C-slice of HRM3D with
 itself

---
 src/planners/HRM3D.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/planners/HRM3D.cpp b/src/planners/HRM3D.cpp
index 8935d3e..9152ee9 100644
--- a/src/planners/HRM3D.cpp
+++ b/src/planners/HRM3D.cpp
@@ -167,7 +167,8 @@ void hrm::planners::HRM3D::connectMultiSlice() {
         return;
     }
 
-    for (size_t i = 0; i < vertexIdx_.size(); ++i) {
+    // The first C-slice has no earlier one to be connected to
+    for (size_t i = 1; i < vertexIdx_.size(); ++i) {
         // Find the nearest C-slices
         double minDist = INFINITY;
         int minIdx = 0;
-- 
2.43.0


From 3a24a881130a97d1dfe21333f1560a0ab4615524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:34 +0000
Subject: [PATCH 29/32] fix: enclose the rotation of HRM2D links over the range
 their base turns through

---
 src/planners/HRM2D.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/planners/HRM2D.cpp b/src/planners/HRM2D.cpp
index 5978db6..1b45c86 100644
--- a/src/planners/HRM2D.cpp
+++ b/src/planners/HRM2D.cpp
@@ -387,15 +387,13 @@ void hrm::planners::HRM2D::computeTFE(const double thetaA, const double thetaB,
                            param_.numPoint, robot_.getBase().getNum()));
 
     for (size_t i = 0; i < robot_.getNumLinks(); ++i) {
-        Eigen::Rotation2Dd rotLink(
+        // The link turns along with the base, through the same range of angles
+        const Eigen::Rotation2Dd rotLink(
             Eigen::Matrix2d(robot_.getTF().at(i).topLeftCorner(2, 2)));
-        Eigen::Rotation2Dd rotA(Eigen::Rotation2Dd(thetaA).toRotationMatrix() *
-                                rotLink);
-        Eigen::Rotation2Dd rotB(Eigen::Rotation2Dd(thetaB).toRotationMatrix() *
-                                rotLink);
 
         tfe.push_back(getTFE2D(
-            robot_.getLinks().at(i).getSemiAxis(), rotA.angle(), rotB.angle(),
-            uint(param_.numPoint), robot_.getLinks().at(i).getNum()));
+            robot_.getLinks().at(i).getSemiAxis(), thetaA + rotLink.angle(),
+            thetaB + rotLink.angle(), uint(param_.numPoint),
+            robot_.getLinks().at(i).getNum()));
     }
 }
-- 
2.43.0


From 02964b8ccbddefa4b5f314dee83db7f1b93b7daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:36 +0000
Subject: [PATCH 30/32] fix: let HRM3D's path interpolation override the one
 plan() calls

---
 include/hrm/planners/HRM3D.h              | 2 +-
 include/hrm/planners/HighwayRoadMap-inl.h | 2 +-
 include/hrm/planners/HighwayRoadMap.h     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/hrm/planners/HRM3D.h b/include/hrm/planners/HRM3D.h
index fca0225..2c0c43f 100644
--- a/include/hrm/planners/HRM3D.h
+++ b/include/hrm/planners/HRM3D.h
@@ -28,7 +28,7 @@ class HRM3D : public HighwayRoadMap<MultiBodyTree3D, SuperQuadrics> {
 
     /** \brief Get the resulting solved path and the interpolated one */
     std::vector<std::vector<Coordinate>> getInterpolatedSolutionPath(
-        const Index num);
+        const Index num) override;
 
     /** \brief Get free line segment at one specific C-slice
      * \param bd Pointer to Minkowski boundaries
diff --git a/include/hrm/planners/HighwayRoadMap-inl.h b/include/hrm/planners/HighwayRoadMap-inl.h
index 4a40652..4bca8af 100644
--- a/include/hrm/planners/HighwayRoadMap-inl.h
+++ b/include/hrm/planners/HighwayRoadMap-inl.h
@@ -282,7 +282,7 @@ HighwayRoadMap<RobotType, ObjectType>::getSolutionPath() {
 template <class RobotType, class ObjectType>
 std::vector<std::vector<double>>
 HighwayRoadMap<RobotType, ObjectType>::getInterpolatedSolutionPath(
-    const unsigned int num) {
+    const Index num) {
     std::vector<std::vector<Coordinate>> interpPath =
         res_.solutionPath.solvedPath;
     return interpPath;
diff --git a/include/hrm/planners/HighwayRoadMap.h b/include/hrm/planners/HighwayRoadMap.h
index cdeadab..966ef96 100644
--- a/include/hrm/planners/HighwayRoadMap.h
+++ b/include/hrm/planners/HighwayRoadMap.h
@@ -98,7 +98,7 @@ class HighwayRoadMap {
     /** \brief Interpolate solved path
      * \return 2D vector for representing interpolated path */
     virtual std::vector<std::vector<double>> getInterpolatedSolutionPath(
-        const unsigned int num);
+        const Index num);
 
     /** \brief Main routine for HRM-based planners */
     virtual void plan(const double timeLim);
-- 
2.43.0


From 2d88a0c2ea3d506380f28aff950c34b3078a9646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:52 +0000
Subject: [PATCH 31/32] fix: report an object contained in another one as a
 collision

The meshes used for superquadrics are surfaces: a robot body lying wholly
inside an obstacle touched none of the triangles and was reported free.
---
 src/util/EllipsoidSQCollisionFCL.cpp | 50 ++++++++++++++++++++++++++++
 1 file changed, 50 insertions(+)

diff --git a/src/util/EllipsoidSQCollisionFCL.cpp b/src/util/EllipsoidSQCollisionFCL.cpp
index 8c9e94b..9a66d06 100644
--- a/src/util/EllipsoidSQCollisionFCL.cpp
+++ b/src/util/EllipsoidSQCollisionFCL.cpp
@@ -2,12 +2,57 @@
 
 #include "hrm/util/EllipsoidSQCollisionFCL.h"
 
+#include <cmath>
+
 using GeometryPtr = std::shared_ptr<fcl::CollisionGeometry<double>>;
 
+namespace {
+
+/** \brief Whether the center of one object lies inside the other. Meshes only
+ * represent surfaces, so that one object being contained in the other is not
+ * found by intersecting them */
+bool isCenterInside(const hrm::SuperQuadrics& object,
+                    const std::vector<double>& center) {
+    const Eigen::Vector3d x =
+        object.getQuaternion().conjugate() *
+        Eigen::Vector3d(center.at(0) - object.getPosition().at(0),
+                        center.at(1) - object.getPosition().at(1),
+                        center.at(2) - object.getPosition().at(2));
+    const auto& axis = object.getSemiAxis();
+    const auto& eps = object.getEpsilon();
+
+    return std::pow(std::pow(std::fabs(x(0) / axis.at(0)), 2.0 / eps.at(1)) +
+                        std::pow(std::fabs(x(1) / axis.at(1)), 2.0 / eps.at(1)),
+                    eps.at(1) / eps.at(0)) +
+               std::pow(std::fabs(x(2) / axis.at(2)), 2.0 / eps.at(0)) <
+           1.0;
+}
+
+bool isCenterInside(const hrm::SuperEllipse& object,
+                    const std::vector<double>& center) {
+    const Eigen::Vector2d x =
+        Eigen::Rotation2Dd(-object.getAngle()) *
+        Eigen::Vector2d(center.at(0) - object.getPosition().at(0),
+                        center.at(1) - object.getPosition().at(1));
+    const auto& axis = object.getSemiAxis();
+    const double eps = object.getEpsilon();
+
+    return std::pow(std::fabs(x(0) / axis.at(0)), 2.0 / eps) +
+               std::pow(std::fabs(x(1) / axis.at(1)), 2.0 / eps) <
+           1.0;
+}
+
+}  // namespace
+
 bool hrm::isCollision(const SuperQuadrics& object1,
                       fcl::CollisionObject<double> collisionObject1,
                       const SuperQuadrics& object2,
                       fcl::CollisionObject<double> collisionObject2) {
+    if (isCenterInside(object1, object2.getPosition()) ||
+        isCenterInside(object2, object1.getPosition())) {
+        return true;
+    }
+
     collisionObject1.setTransform(
         object1.getQuaternion().toRotationMatrix(),
         fcl::Vector3d(object1.getPosition().at(0), object1.getPosition().at(1),
@@ -28,6 +73,11 @@ bool hrm::isCollision(const SuperEllipse& object1,
                       fcl::CollisionObject<double> collisionObject1,
                       const SuperEllipse& object2,
                       fcl::CollisionObject<double> collisionObject2) {
+    if (isCenterInside(object1, object2.getPosition()) ||
+        isCenterInside(object2, object1.getPosition())) {
+        return true;
+    }
+
     collisionObject1.setTransform(
         Eigen::Quaterniond(
             Eigen::AngleAxis<double>(object1.getAngle(),
-- 
2.43.0


From db3fe217d2b18773abfdb830b8bdf88a070baed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:52 +0000
Subject: [PATCH 32/32] fix: link articulated slices by rotation, whatever the
 sign of the quaternion

The nearest earlier slice was chosen by the Euclidean distance between raw
quaternions, so a slice with (nearly) the same rotation but the opposite sign
counted as far away and a more distant one was linked instead.
---
 src/planners/ProbHRM3D.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/planners/ProbHRM3D.cpp b/src/planners/ProbHRM3D.cpp
index 50c7c4c..0507a72 100644
--- a/src/planners/ProbHRM3D.cpp
+++ b/src/planners/ProbHRM3D.cpp
@@ -113,8 +113,14 @@ void hrm::planners::ProbHRM3D::connectMultiSlice() {
     // Find the nearest C-slices
     double minDist = INFINITY;
     Index minIdx = 0;
+    // Opposite quaternions are the same rotation
+    std::vector<Coordinate> vOpposite = v_.back();
+    for (size_t i = 3; i < 7; ++i) {
+        vOpposite.at(i) = -vOpposite.at(i);
+    }
     for (size_t i = 0; i < param_.numSlice - 1; ++i) {
-        double dist = vectorEuclidean(v_.back(), v_.at(i));
+        double dist = std::fmin(vectorEuclidean(v_.back(), v_.at(i)),
+                                vectorEuclidean(vOpposite, v_.at(i)));
         if (dist < minDist) {
             minDist = dist;
             minIdx = i;
-- 
2.43.0

