From ef746b7500a9d53b6259cf20ab9736968fc9ca3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:43 +0000
Subject: [PATCH 001/217] fix: keep the robot's orientation when moving it so
 that a node reaches a pose or position

getGlobalPositionForRobotNode dropped the rotation of the robot, and
getGlobalPoseForRobotNode used it for every target without rotation, even if the
node was rotated: the node did not end up at the requested pose.
---
 VirtualRobot/Robot.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/VirtualRobot/Robot.cpp b/VirtualRobot/Robot.cpp
index b8e226a..2ebc56d 100644
--- a/VirtualRobot/Robot.cpp
+++ b/VirtualRobot/Robot.cpp
@@ -831,9 +831,10 @@ namespace VirtualRobot
     {
         THROW_VR_EXCEPTION_IF(!node, "NULL node");
         
-        if (math::Helpers::Orientation(globalPoseNode).isIdentity())
+        if (math::Helpers::Orientation(globalPoseNode).isIdentity()
+            && math::Helpers::Orientation(node->getGlobalPose()).isIdentity())
         {
-            // set position to avoid accumulating rounding errors when using rotation
+            // no rotation required: set position to avoid accumulating rounding errors when using rotation
             return getGlobalPositionForRobotNode(node, math::Helpers::Position(globalPoseNode));
         }
         
@@ -867,7 +868,8 @@ namespace VirtualRobot
         // apply translation to current global position of robot
         const Eigen::Vector3f robotPosition = getGlobalPosition() + translation;
         
-        return math::Helpers::Pose(robotPosition);
+        // keep the current orientation of the robot
+        return math::Helpers::Pose(robotPosition, math::Helpers::Orientation(getGlobalPose()));
     }
     
     void Robot::setGlobalPositionForRobotNode(
-- 
2.43.0


From d0dc1e9cf8c68d24c0067c2887e04d097a961594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:33 +0000
Subject: [PATCH 002/217] fix: avoid unsigned underflow for empty RobotNodeSets
 in isKinematicChain and getMaximumExtension

---
 VirtualRobot/RobotNodeSet.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/VirtualRobot/RobotNodeSet.cpp b/VirtualRobot/RobotNodeSet.cpp
index 38cc155..c46b2cd 100644
--- a/VirtualRobot/RobotNodeSet.cpp
+++ b/VirtualRobot/RobotNodeSet.cpp
@@ -501,7 +501,7 @@ namespace VirtualRobot
 
     bool RobotNodeSet::isKinematicChain()
     {
-        for (unsigned int i = 0; i < this->robotNodes.size() - 1; i++)
+        for (unsigned int i = 0; i + 1 < this->robotNodes.size(); i++)
         {
             if (!this->robotNodes[i]->hasChild(this->robotNodes[i + 1], true))
             {
@@ -560,7 +560,7 @@ namespace VirtualRobot
             result += v.norm();
         }
 
-        for (size_t i = 0; i < this->robotNodes.size() - 1; i++)
+        for (size_t i = 0; i + 1 < this->robotNodes.size(); i++)
         {
             t = robotNodes[i]->getTransformationTo(robotNodes[i + 1]);
             v = MathTools::getTranslation(t);
-- 
2.43.0


From 5ebf4b9b355f8ada312b55fe79d25f4d4c985f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:33 +0000
Subject: [PATCH 003/217] fix: map values of limitless joints to an equivalent
 angle for joint intervals not containing zero

A positive value below the lower limit changed its sign (q = -fmod(fabs(q), 2pi)), so the
joint was set to a different angle, and a value mapped upwards could end above the upper limit.
---
 VirtualRobot/Nodes/RobotNode.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/VirtualRobot/Nodes/RobotNode.cpp b/VirtualRobot/Nodes/RobotNode.cpp
index 4287337..edfce88 100644
--- a/VirtualRobot/Nodes/RobotNode.cpp
+++ b/VirtualRobot/Nodes/RobotNode.cpp
@@ -183,11 +183,9 @@ namespace VirtualRobot
         if (limitless)
         {
             // limitless joint: map q to allowed interval
-            if(q > jointLimitHi)
+            if(q > jointLimitHi || q < jointLimitLo)
                 q = fmod(q, 2.0f * M_PI);
             while (q > jointLimitHi) q -= 2.0f * M_PI;
-            if(q < jointLimitLo)
-                q = -fmod(fabs(q), 2.0f * M_PI);
             while (q < jointLimitLo) q += 2.0f * M_PI;
         }
         else
-- 
2.43.0


From d1132f78acce7a393845cbc433d2ff092f245114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:01 +0000
Subject: [PATCH 004/217] fix: refuse to attach an object to one of its own
 children

The resulting cycle made every following pose update recurse endlessly.
---
 VirtualRobot/SceneObject.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/VirtualRobot/SceneObject.cpp b/VirtualRobot/SceneObject.cpp
index 3e6ac76..a5629e3 100644
--- a/VirtualRobot/SceneObject.cpp
+++ b/VirtualRobot/SceneObject.cpp
@@ -1152,6 +1152,12 @@ namespace VirtualRobot
             return false;
         }
 
+        if (child->hasChild(shared_from_this(), true))
+        {
+            VR_WARNING << "Trying to attach object to one of its own children: " << getName() << "->" << child->getName() << endl;
+            return false;
+        }
+
         if (hasChild(child->getName()))
         {
             VR_ERROR << " Trying to attach object with name: " << child->getName() << " to " << getName() << ", but a child with same name is already present!" << endl;
-- 
2.43.0


From 962c378e167324657092a0d20717835caf359fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:11 +0000
Subject: [PATCH 005/217] fix: initialize the visualization scaling of
 prismatic joints defined by DH parameters

The uninitialized members were copied on clone and used in pose updates.
---
 VirtualRobot/Nodes/RobotNodePrismatic.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/VirtualRobot/Nodes/RobotNodePrismatic.cpp b/VirtualRobot/Nodes/RobotNodePrismatic.cpp
index b5b86fd..a759677 100644
--- a/VirtualRobot/Nodes/RobotNodePrismatic.cpp
+++ b/VirtualRobot/Nodes/RobotNodePrismatic.cpp
@@ -47,6 +47,8 @@ namespace VirtualRobot
                                           ) : RobotNode(rob, name, jointLimitLo, jointLimitHi, visualization, collisionModel, jointValueOffset, p, colChecker, type)
     {
         initialized = false;
+        visuScaling = false;
+        visuScaleFactor << 1.0f, 1.0f, 1.0f;
         optionalDHParameter.isSet = true;
         optionalDHParameter.setAInMM(a);
         optionalDHParameter.setDInMM(d);
-- 
2.43.0


From f4d5212bad731b08f7940a458fdd01e2bd1cc884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:08 +0000
Subject: [PATCH 006/217] fix: place the nodes of RobotFactory::cloneSubSet
 copies like in the original robot

---
 VirtualRobot/RobotFactory.cpp | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/VirtualRobot/RobotFactory.cpp b/VirtualRobot/RobotFactory.cpp
index 00c2270..fd5cb0b 100644
--- a/VirtualRobot/RobotFactory.cpp
+++ b/VirtualRobot/RobotFactory.cpp
@@ -670,7 +670,7 @@ namespace VirtualRobot
         {
             Eigen::Matrix4f startPose = nodeA->getGlobalPose();
             Eigen::Matrix4f goalPose = nodeB->getParent()->getGlobalPose();
-            storeTrafo = goalPose * startPose.inverse();
+            storeTrafo = startPose.inverse() * goalPose;
         }
 
         RobotNodePtr res = createUnitedRobotNode(robot, childNodes, nodeA, nodeAClone, Eigen::Matrix4f::Identity(), childSensorNodes);
@@ -716,6 +716,9 @@ namespace VirtualRobot
         std::vector < VisualizationNodePtr > colVisus;
         float kg = 0;
 
+        // without a parent the node becomes the root, i.e. it is located at the base of the original robot
+        Eigen::Matrix4f basePose = parent ? parent->getGlobalPose() : nodes[0]->getRobot()->getGlobalPose();
+
 
         for (const auto & node : nodes)
         {
@@ -735,21 +738,15 @@ namespace VirtualRobot
         if (visus.size() > 0)
         {
             v = vf->createUnitedVisualization(visus)->clone();
-            if (parent)
-            {
-                Eigen::Matrix4f invTr = parent->getGlobalPose().inverse();
-                vf->applyDisplacement(v, invTr);
-            }
+            Eigen::Matrix4f invTr = basePose.inverse();
+            vf->applyDisplacement(v, invTr);
         }
 
         if (colVisus.size() > 0)
         {
             VisualizationNodePtr colVisu = vf->createUnitedVisualization(colVisus)->clone();
-            if (parent)
-            {
-                Eigen::Matrix4f invTr = parent->getGlobalPose().inverse();
-                vf->applyDisplacement(colVisu, invTr);
-            }
+            Eigen::Matrix4f invTr = basePose.inverse();
+            vf->applyDisplacement(colVisu, invTr);
             c.reset(new CollisionModel(colVisu, nodes[0]->getName()));
         }
 
@@ -763,7 +760,7 @@ namespace VirtualRobot
         for (const auto & sensor : sensors)
         {
             SensorPtr s = sensor->clone(newRN);
-            Eigen::Matrix4f trafoToNewRN = parent?parent->getGlobalPose() * trafo:trafo;
+            Eigen::Matrix4f trafoToNewRN = basePose * trafo;
             Eigen::Matrix4f t = trafoToNewRN.inverse() * sensor->getGlobalPose();
             s->setRobotNodeToSensorTransformation(t);
         }
@@ -821,7 +818,7 @@ namespace VirtualRobot
                     break;
                 }
             }
-            if (isFixed && std::find(initialNodes.begin(), initialNodes.end(),rn) == initialNodes.end())
+            if (rn != startNode && isFixed && std::find(initialNodes.begin(), initialNodes.end(),rn) == initialNodes.end())
             {
                 // check if rn is child of the nodes in the rns
                 if (!startNode->hasChild(rn, true))
@@ -835,7 +832,7 @@ namespace VirtualRobot
 
         if (startNode->getParent())
         {
-            currentTrafo = startNode->getParent()->getGlobalPose();
+            currentTrafo = robot->getGlobalPose().inverse() * startNode->getParent()->getGlobalPose();
         }
 
         // collect sensor nodes
-- 
2.43.0


From be1947578631a881782e8c27b3c37cd2874a6e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:47 +0000
Subject: [PATCH 007/217] fix: do not copy node sets whose TCP is united by
 cloneUniteSubsets

---
 VirtualRobot/RobotFactory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/RobotFactory.cpp b/VirtualRobot/RobotFactory.cpp
index fd5cb0b..fc73cf3 100644
--- a/VirtualRobot/RobotFactory.cpp
+++ b/VirtualRobot/RobotFactory.cpp
@@ -917,7 +917,7 @@ namespace VirtualRobot
                 {
                     if (k == rn)
                         continue;
-                    if (rns->hasRobotNode(k->getName()))
+                    if (rns->hasRobotNode(k->getName()) || k == rns->getTCP() || k == rns->getKinematicRoot())
                     {
                         ok = false;
                         break;
-- 
2.43.0


From 9124eb51ae9c2708f2251f437a36bbaa1720b79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:17 +0000
Subject: [PATCH 008/217] fix: use the stated defaults and keep the unit if
 only one joint limit is given

---
 VirtualRobot/XML/RobotIO.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/VirtualRobot/XML/RobotIO.cpp b/VirtualRobot/XML/RobotIO.cpp
index 825ce02..9f1ed4f 100644
--- a/VirtualRobot/XML/RobotIO.cpp
+++ b/VirtualRobot/XML/RobotIO.cpp
@@ -104,14 +104,12 @@ namespace VirtualRobot
             if (unit.isLength())
             {
                 VR_WARNING << "No 'lo' attribute in <Limits> tag. Assuming -1000 [mm]." << endl;
-                jointLimitLo = -1000.0f;
-                unit = Units("mm");
+                jointLimitLo = unit.isMeter() ? -1.0f : -1000.0f;
             }
             else
             {
                 VR_WARNING << "No 'lo' attribute in <Limits> tag. Assuming -180 [deg]." << endl;
-                jointLimitLo = float(-M_PI);
-                unit = Units("rad");
+                jointLimitLo = unit.isDegree() ? -180.0f : float(-M_PI);
             }
         }
 
@@ -124,14 +122,12 @@ namespace VirtualRobot
             if (unit.isLength())
             {
                 VR_WARNING << "No 'hi' attribute in <Limits> tag. Assuming 1000 [mm]." << endl;
-                jointLimitLo = 1000.0f;
-                unit = Units("mm");
+                jointLimitHi = unit.isMeter() ? 1.0f : 1000.0f;
             }
             else
             {
                 VR_WARNING << "No 'hi' attribute in <Limits> tag. Assuming 180 [deg]." << endl;
-                jointLimitHi = float(M_PI);
-                unit = Units("rad");
+                jointLimitHi = unit.isDegree() ? 180.0f : float(M_PI);
             }
         }
 
-- 
2.43.0


From 79c36a12efd524efc0a279e9f31deb346efb63a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:17 +0000
Subject: [PATCH 009/217] fix: reject primitives with missing size attributes
 instead of dereferencing a null pointer

---
 VirtualRobot/XML/BaseIO.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/VirtualRobot/XML/BaseIO.cpp b/VirtualRobot/XML/BaseIO.cpp
index a15989e..719372d 100644
--- a/VirtualRobot/XML/BaseIO.cpp
+++ b/VirtualRobot/XML/BaseIO.cpp
@@ -1212,22 +1212,22 @@ namespace VirtualRobot
             if (pName == "box")
             {
                 Primitive::Box* box = new Primitive::Box;
-                box->width = convertToFloat(primitiveXMLNode->first_attribute("width", 0, false)->value()) * lenFactor;
-                box->height = convertToFloat(primitiveXMLNode->first_attribute("height", 0, false)->value()) * lenFactor;
-                box->depth = convertToFloat(primitiveXMLNode->first_attribute("depth", 0, false)->value()) * lenFactor;
+                box->width = getFloatByAttributeName(primitiveXMLNode, "width") * lenFactor;
+                box->height = getFloatByAttributeName(primitiveXMLNode, "height") * lenFactor;
+                box->depth = getFloatByAttributeName(primitiveXMLNode, "depth") * lenFactor;
                 primitive.reset(box);
             }
             else if (pName == "sphere")
             {
                 Primitive::Sphere* sphere = new Primitive::Sphere;
-                sphere->radius = convertToFloat(primitiveXMLNode->first_attribute("radius", 0, false)->value()) * lenFactor;
+                sphere->radius = getFloatByAttributeName(primitiveXMLNode, "radius") * lenFactor;
                 primitive.reset(sphere);
             }
             else if (pName == "cylinder")
             {
                 Primitive::Cylinder* cylinder = new Primitive::Cylinder;
-                cylinder->radius = convertToFloat(primitiveXMLNode->first_attribute("radius", 0, false)->value()) * lenFactor;
-                cylinder->height = convertToFloat(primitiveXMLNode->first_attribute("height", 0, false)->value()) * lenFactor;
+                cylinder->radius = getFloatByAttributeName(primitiveXMLNode, "radius") * lenFactor;
+                cylinder->height = getFloatByAttributeName(primitiveXMLNode, "height") * lenFactor;
                 primitive.reset(cylinder);
             }
             else
-- 
2.43.0


From 3925844e2a2623b1d73686c77ec997be08f0c948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:17 +0000
Subject: [PATCH 010/217] fix: convert configuration values given in meter to
 millimeter

---
 VirtualRobot/XML/BaseIO.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/XML/BaseIO.cpp b/VirtualRobot/XML/BaseIO.cpp
index 719372d..16086e7 100644
--- a/VirtualRobot/XML/BaseIO.cpp
+++ b/VirtualRobot/XML/BaseIO.cpp
@@ -1538,7 +1538,7 @@ namespace VirtualRobot
                 }
                 else if (u.isMeter())
                 {
-                    c.value = c.value / 1000.0f;
+                    c.value = c.value * 1000.0f;
                 }
 
                 storeConfigDefinitions.push_back(c);
-- 
2.43.0


From 109efc39e7a68ffcb39a7136779f7600da018463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:24 +0000
Subject: [PATCH 011/217] fix: convert torque limits given in Nmm to Nm

---
 VirtualRobot/XML/RobotIO.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/XML/RobotIO.cpp b/VirtualRobot/XML/RobotIO.cpp
index 9f1ed4f..9c1287f 100644
--- a/VirtualRobot/XML/RobotIO.cpp
+++ b/VirtualRobot/XML/RobotIO.cpp
@@ -444,7 +444,7 @@ namespace VirtualRobot
 
                 if (uLength.isMillimeter())
                 {
-                    factor *= 1000.0f;
+                    factor *= 0.001f;
                 }
 
                 maxTorque *= factor;
-- 
2.43.0


From 431b5cf67c2fc4d9272287652be909fbf1515e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:24 +0000
Subject: [PATCH 012/217] fix: accept the limitless attribute in any case like
 all other attributes

---
 VirtualRobot/XML/RobotIO.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/XML/RobotIO.cpp b/VirtualRobot/XML/RobotIO.cpp
index 9c1287f..14662a8 100644
--- a/VirtualRobot/XML/RobotIO.cpp
+++ b/VirtualRobot/XML/RobotIO.cpp
@@ -147,7 +147,7 @@ namespace VirtualRobot
         }
 
         // limitless attribute
-        rapidxml::xml_attribute<>* llAttr = limitsXMLNode->first_attribute("limitless");
+        rapidxml::xml_attribute<>* llAttr = limitsXMLNode->first_attribute("limitless", 0, false);
         if (llAttr != nullptr)
         {
             limitless = isTrue(llAttr->value());
-- 
2.43.0


From f04e75832bc600fe2c64d87067e485d33776a0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:52 +0000
Subject: [PATCH 013/217] fix: ignore triangles with NaN vertices instead of
 adding faces that refer to non-existing vertices

---
 VirtualRobot/Visualization/TriMeshModel.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/VirtualRobot/Visualization/TriMeshModel.cpp b/VirtualRobot/Visualization/TriMeshModel.cpp
index 06f6cac..44bb5b3 100644
--- a/VirtualRobot/Visualization/TriMeshModel.cpp
+++ b/VirtualRobot/Visualization/TriMeshModel.cpp
@@ -52,6 +52,13 @@ namespace VirtualRobot
             const VisualizationFactory::Color &color1, const VisualizationFactory::Color &color2, const VisualizationFactory::Color &color3)
     {
 //        VR_INFO << vertex1 << "\n\n" << vertex2 << "\n\n" << vertex3 << "\n\n" << std::endl;
+        if (vertex1.hasNaN() || vertex2.hasNaN() || vertex3.hasNaN())
+        {
+            // addVertex ignores NaN vertices, so the face would refer to wrong or non-existing vertices
+            VR_ERROR << "Ignoring triangle with NAN vertex" << endl;
+            return;
+        }
+
         this->addVertex(vertex1);
         this->addVertex(vertex2);
         this->addVertex(vertex3);
-- 
2.43.0


From d0c1422750b3853cebabe0eaa73f7455bedcfd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:52 +0000
Subject: [PATCH 014/217] fix: read the alpha value of vertex colors at index 3

---
 VirtualRobot/Visualization/TriMeshModel.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/VirtualRobot/Visualization/TriMeshModel.cpp b/VirtualRobot/Visualization/TriMeshModel.cpp
index 44bb5b3..55f2e20 100644
--- a/VirtualRobot/Visualization/TriMeshModel.cpp
+++ b/VirtualRobot/Visualization/TriMeshModel.cpp
@@ -98,9 +98,9 @@ namespace VirtualRobot
     void TriMeshModel::addTriangleWithFace(const Eigen::Vector3f& vertex1, const Eigen::Vector3f& vertex2, const Eigen::Vector3f& vertex3, const Eigen::Vector4f& vertexColor1, const Eigen::Vector4f& vertexColor2, const Eigen::Vector4f& vertexColor3)
     {
         Eigen::Vector3f normal = TriMeshModel::CreateNormal(vertex1, vertex2, vertex3);
-        VisualizationFactory::Color color1(vertexColor1(0), vertexColor1(1), vertexColor1(2), vertexColor1(4));
-        VisualizationFactory::Color color2(vertexColor2(0), vertexColor2(1), vertexColor2(2), vertexColor2(4));
-        VisualizationFactory::Color color3(vertexColor3(0), vertexColor3(1), vertexColor3(2), vertexColor3(4));
+        VisualizationFactory::Color color1(vertexColor1(0), vertexColor1(1), vertexColor1(2), vertexColor1(3));
+        VisualizationFactory::Color color2(vertexColor2(0), vertexColor2(1), vertexColor2(2), vertexColor2(3));
+        VisualizationFactory::Color color3(vertexColor3(0), vertexColor3(1), vertexColor3(2), vertexColor3(3));
         addTriangleWithFace(vertex1, vertex2, vertex3, normal, color1, color2, color3);
     }
 
-- 
2.43.0


From af359d7e8b185ef05d4583e6e00cd39ce5426151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:36 +0000
Subject: [PATCH 015/217] fix: do not write both a file and primitives for a
 collision model, the reader rejects this

---
 VirtualRobot/CollisionDetection/CollisionModel.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/VirtualRobot/CollisionDetection/CollisionModel.cpp b/VirtualRobot/CollisionDetection/CollisionModel.cpp
index 762d47d..4dd7f19 100644
--- a/VirtualRobot/CollisionDetection/CollisionModel.cpp
+++ b/VirtualRobot/CollisionDetection/CollisionModel.cpp
@@ -309,8 +309,7 @@ namespace VirtualRobot
                << tmpFilename
                << "</File>\n";
         }
-
-        if (visualization && visualization->primitives.size() != 0)
+        else if (visualization && visualization->primitives.size() != 0)
         {
             ss << pre << "\t<Primitives>\n";
             std::vector<Primitive::PrimitivePtr>::const_iterator it;
-- 
2.43.0


From b81361f05342318fd287bf32379ca2ef06160ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:36 +0000
Subject: [PATCH 016/217] fix: write ignored collisions with the tag the reader
 knows

---
 VirtualRobot/SceneObject.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/SceneObject.cpp b/VirtualRobot/SceneObject.cpp
index a5629e3..953d475 100644
--- a/VirtualRobot/SceneObject.cpp
+++ b/VirtualRobot/SceneObject.cpp
@@ -1422,7 +1422,7 @@ namespace VirtualRobot
 
         for (size_t i = 0; i < ignoreCollisions.size(); i++)
         {
-            ss << ta << "\t<IgnoreCollisions name='" << ignoreCollisions[i] << "'/>\n";
+            ss << ta << "\t<IgnoreCollision name='" << ignoreCollisions[i] << "'/>\n";
         }
 
         ss << ta << "</Physics>\n";
-- 
2.43.0


From 346ef5f96494df6046b5f50bf2c550934a28d4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:36 +0000
Subject: [PATCH 017/217] fix: write the joint offset to the robot description

---
 VirtualRobot/Nodes/RobotNodePrismatic.cpp | 9 ++++++++-
 VirtualRobot/Nodes/RobotNodeRevolute.cpp  | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/VirtualRobot/Nodes/RobotNodePrismatic.cpp b/VirtualRobot/Nodes/RobotNodePrismatic.cpp
index a759677..e120da3 100644
--- a/VirtualRobot/Nodes/RobotNodePrismatic.cpp
+++ b/VirtualRobot/Nodes/RobotNodePrismatic.cpp
@@ -263,7 +263,14 @@ namespace VirtualRobot
     std::string RobotNodePrismatic::_toXML(const std::string& /*modelPath*/)
     {
         std::stringstream ss;
-        ss << "\t\t<Joint type='prismatic'>" << endl;
+        ss << "\t\t<Joint type='prismatic'";
+
+        if (jointValueOffset != 0.0f)
+        {
+            ss << " offset='" << jointValueOffset << "'";
+        }
+
+        ss << ">" << endl;
         ss << "\t\t\t<translationdirection x='" << jointTranslationDirection[0] << "' y='" << jointTranslationDirection[1] << "' z='" << jointTranslationDirection[2] << "'/>" << endl;
         ss << "\t\t\t<limits lo='" << jointLimitLo << "' hi='" << jointLimitHi << "' units='mm'/>" << endl;
         ss << "\t\t\t<MaxAcceleration value='" << maxAcceleration << "'/>" << endl;
diff --git a/VirtualRobot/Nodes/RobotNodeRevolute.cpp b/VirtualRobot/Nodes/RobotNodeRevolute.cpp
index 4547b84..c9ce908 100644
--- a/VirtualRobot/Nodes/RobotNodeRevolute.cpp
+++ b/VirtualRobot/Nodes/RobotNodeRevolute.cpp
@@ -215,7 +215,14 @@ namespace VirtualRobot
     std::string RobotNodeRevolute::_toXML(const std::string& /*modelPath*/)
     {
         std::stringstream ss;
-        ss << "\t\t<Joint type='revolute'>" << endl;
+        ss << "\t\t<Joint type='revolute'";
+
+        if (jointValueOffset != 0.0f)
+        {
+            ss << " offset='" << jointValueOffset << "'";
+        }
+
+        ss << ">" << endl;
         ss << "\t\t\t<axis x='" << jointRotationAxis[0] << "' y='" << jointRotationAxis[1] << "' z='" << jointRotationAxis[2] << "'/>" << endl;
         ss << "\t\t\t<limits lo='" << jointLimitLo << "' hi='" << jointLimitHi << "' units='radian'/>" << endl;
         ss << "\t\t\t<MaxAcceleration value='" << maxAcceleration << "'/>" << endl;
-- 
2.43.0


From b3d0737a8b20f8f36c61e8c2204987783ab002c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:36 +0000
Subject: [PATCH 018/217] fix: write the limitless flag of joints to the robot
 description

---
 VirtualRobot/Nodes/RobotNodePrismatic.cpp | 2 +-
 VirtualRobot/Nodes/RobotNodeRevolute.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/VirtualRobot/Nodes/RobotNodePrismatic.cpp b/VirtualRobot/Nodes/RobotNodePrismatic.cpp
index e120da3..7272038 100644
--- a/VirtualRobot/Nodes/RobotNodePrismatic.cpp
+++ b/VirtualRobot/Nodes/RobotNodePrismatic.cpp
@@ -272,7 +272,7 @@ namespace VirtualRobot
 
         ss << ">" << endl;
         ss << "\t\t\t<translationdirection x='" << jointTranslationDirection[0] << "' y='" << jointTranslationDirection[1] << "' z='" << jointTranslationDirection[2] << "'/>" << endl;
-        ss << "\t\t\t<limits lo='" << jointLimitLo << "' hi='" << jointLimitHi << "' units='mm'/>" << endl;
+        ss << "\t\t\t<limits lo='" << jointLimitLo << "' hi='" << jointLimitHi << "' units='mm'" << (limitless ? " limitless='true'" : "") << "/>" << endl;
         ss << "\t\t\t<MaxAcceleration value='" << maxAcceleration << "'/>" << endl;
         ss << "\t\t\t<MaxVelocity value='" << maxVelocity << "'/>" << endl;
         ss << "\t\t\t<MaxTorque value='" << maxTorque << "'/>" << endl;
diff --git a/VirtualRobot/Nodes/RobotNodeRevolute.cpp b/VirtualRobot/Nodes/RobotNodeRevolute.cpp
index c9ce908..1bcaf3c 100644
--- a/VirtualRobot/Nodes/RobotNodeRevolute.cpp
+++ b/VirtualRobot/Nodes/RobotNodeRevolute.cpp
@@ -224,7 +224,7 @@ namespace VirtualRobot
 
         ss << ">" << endl;
         ss << "\t\t\t<axis x='" << jointRotationAxis[0] << "' y='" << jointRotationAxis[1] << "' z='" << jointRotationAxis[2] << "'/>" << endl;
-        ss << "\t\t\t<limits lo='" << jointLimitLo << "' hi='" << jointLimitHi << "' units='radian'/>" << endl;
+        ss << "\t\t\t<limits lo='" << jointLimitLo << "' hi='" << jointLimitHi << "' units='radian'" << (limitless ? " limitless='true'" : "") << "/>" << endl;
         ss << "\t\t\t<MaxAcceleration value='" << maxAcceleration << "'/>" << endl;
         ss << "\t\t\t<MaxVelocity value='" << maxVelocity << "'/>" << endl;
         ss << "\t\t\t<MaxTorque value='" << maxTorque << "'/>" << endl;
-- 
2.43.0


From 27e3a9007ee380bdae14c681da448ce198d7b3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:36 +0000
Subject: [PATCH 019/217] fix: write kinematic root and TCP of robot node sets

---
 VirtualRobot/RobotNodeSet.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/VirtualRobot/RobotNodeSet.cpp b/VirtualRobot/RobotNodeSet.cpp
index c46b2cd..37554ec 100644
--- a/VirtualRobot/RobotNodeSet.cpp
+++ b/VirtualRobot/RobotNodeSet.cpp
@@ -770,7 +770,19 @@ namespace VirtualRobot
             pre += "\t";
         }
 
-        ss << pre << "<RobotNodeSet name='" << name << "'>\n";
+        ss << pre << "<RobotNodeSet name='" << name << "'";
+
+        if (kinematicRoot)
+        {
+            ss << " kinematicRoot='" << kinematicRoot->getName() << "'";
+        }
+
+        if (tcp)
+        {
+            ss << " tcp='" << tcp->getName() << "'";
+        }
+
+        ss << ">\n";
 
         for (auto & robotNode : robotNodes)
         {
-- 
2.43.0


From c229f809c0e2382338a9b7b5f2aaaa616739c307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:07 +0000
Subject: [PATCH 020/217] fix: write the friction of scene objects

---
 VirtualRobot/SceneObject.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/VirtualRobot/SceneObject.cpp b/VirtualRobot/SceneObject.cpp
index 953d475..92c1804 100644
--- a/VirtualRobot/SceneObject.cpp
+++ b/VirtualRobot/SceneObject.cpp
@@ -1384,7 +1384,7 @@ namespace VirtualRobot
 
     bool SceneObject::Physics::isSet()
     {
-        return (simType != eUnknown || massKg != 0.0f || comLocation != eVisuBBoxCenter || !inertiaMatrix.isIdentity() || ignoreCollisions.size() > 0);
+        return (simType != eUnknown || massKg != 0.0f || comLocation != eVisuBBoxCenter || !inertiaMatrix.isIdentity() || ignoreCollisions.size() > 0 || friction >= 0.0f);
     }
 
     std::string SceneObject::Physics::toXML(int tabs)
@@ -1420,6 +1420,11 @@ namespace VirtualRobot
         ss << MathTools::getTransformXMLString(inertiaMatrix, tabs + 2, true);
         ss << ta << "\t</InertiaMatrix>\n";
 
+        if (friction >= 0.0f)
+        {
+            ss << ta << "\t<Friction value='" << friction << "'/>\n";
+        }
+
         for (size_t i = 0; i < ignoreCollisions.size(); i++)
         {
             ss << ta << "\t<IgnoreCollision name='" << ignoreCollisions[i] << "'/>\n";
-- 
2.43.0


From 178ebb118aa3fd866b8cf25ae4eeb519caca5020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:02 +0000
Subject: [PATCH 021/217] fix: insert a trajectory correctly into itself

---
 VirtualRobot/Trajectory.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/VirtualRobot/Trajectory.cpp b/VirtualRobot/Trajectory.cpp
index 976896e..3109267 100644
--- a/VirtualRobot/Trajectory.cpp
+++ b/VirtualRobot/Trajectory.cpp
@@ -208,13 +208,9 @@ namespace VirtualRobot
             return;
         }
 
-        int i = trajectoryToInsert->getNrOfPoints() - 1;
-
-        while (i >= 0)
-        {
-            insertPosition(pos, trajectoryToInsert->getPoint(i));
-            i--;
-        }
+        // copy the points, a trajectory may be inserted into itself
+        std::vector<Eigen::VectorXf> points = trajectoryToInsert->getPoints();
+        insertPosition(pos, points);
     }
 
 
-- 
2.43.0


From 4298e168271a24c3c3d953e13a494ad2f2a95c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:02 +0000
Subject: [PATCH 022/217] fix: report a valid index when interpolating
 trajectories of zero length

---
 VirtualRobot/Trajectory.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/VirtualRobot/Trajectory.cpp b/VirtualRobot/Trajectory.cpp
index 3109267..86b8504 100644
--- a/VirtualRobot/Trajectory.cpp
+++ b/VirtualRobot/Trajectory.cpp
@@ -287,7 +287,12 @@ namespace VirtualRobot
             actLength += lastLength;
         }
 
-        startIndex--;
+        // startIndex is 0 if there is no segment of positive length to search
+        if (startIndex > 0)
+        {
+            startIndex--;
+        }
+
         actLength -= lastLength;
 
         // segment starts with startIndex
-- 
2.43.0


From 31ee65ba37b1dd91e2bd09266c81670bd62056e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:03 +0000
Subject: [PATCH 023/217] fix: copied time optimal trajectories must not use
 the cached segment of the original

---
 .../TimeOptimalTrajectory/TimeOptimalTrajectory.cpp | 13 +++++++++++++
 .../TimeOptimalTrajectory/TimeOptimalTrajectory.h   |  3 +++
 2 files changed, 16 insertions(+)

diff --git a/VirtualRobot/TimeOptimalTrajectory/TimeOptimalTrajectory.cpp b/VirtualRobot/TimeOptimalTrajectory/TimeOptimalTrajectory.cpp
index bfbd33d..2430c88 100644
--- a/VirtualRobot/TimeOptimalTrajectory/TimeOptimalTrajectory.cpp
+++ b/VirtualRobot/TimeOptimalTrajectory/TimeOptimalTrajectory.cpp
@@ -91,6 +91,19 @@ namespace VirtualRobot
         }
     }
 
+    TimeOptimalTrajectory::TimeOptimalTrajectory(const TimeOptimalTrajectory &other) :
+        path(other.path),
+        maxVelocity(other.maxVelocity),
+        maxAcceleration(other.maxAcceleration),
+        n(other.n),
+        valid(other.valid),
+        trajectory(other.trajectory),
+        endTrajectory(other.endTrajectory),
+        timeStep(other.timeStep),
+        cachedTime(numeric_limits<double>::max())
+    {
+    }
+
     TimeOptimalTrajectory::~TimeOptimalTrajectory() = default;
 
     void TimeOptimalTrajectory::outputPhasePlaneTrajectory() const {
diff --git a/VirtualRobot/TimeOptimalTrajectory/TimeOptimalTrajectory.h b/VirtualRobot/TimeOptimalTrajectory/TimeOptimalTrajectory.h
index af42cd6..7e30078 100644
--- a/VirtualRobot/TimeOptimalTrajectory/TimeOptimalTrajectory.h
+++ b/VirtualRobot/TimeOptimalTrajectory/TimeOptimalTrajectory.h
@@ -56,6 +56,9 @@ namespace VirtualRobot
         // Generates a time-optimal trajectory
         TimeOptimalTrajectory(const Path &path, const Eigen::VectorXd &maxVelocity, const Eigen::VectorXd &maxAcceleration, double timeStep = 0.001);
 
+        // The cached segment refers to the list of the copied object, so it is not taken over.
+        TimeOptimalTrajectory(const TimeOptimalTrajectory &other);
+
         ~TimeOptimalTrajectory(void);
 
         // Call this method after constructing the object to make sure the trajectory generation succeeded without errors.
-- 
2.43.0


From 91191424a30578a4170eae8c4020ec538ced9d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:51 +0000
Subject: [PATCH 024/217] fix: report the orientation error of the default TCP

---
 VirtualRobot/IK/DifferentialIK.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/VirtualRobot/IK/DifferentialIK.cpp b/VirtualRobot/IK/DifferentialIK.cpp
index 4cb382d..8ce1d13 100644
--- a/VirtualRobot/IK/DifferentialIK.cpp
+++ b/VirtualRobot/IK/DifferentialIK.cpp
@@ -800,14 +800,14 @@ namespace VirtualRobot
 
     float DifferentialIK::getErrorRotation(SceneObjectPtr tcp)
     {
-        if (!(modes[tcp] & IKSolver::Orientation))
+        if (!tcp)
         {
-            return 0.0f;    // no error in this dimensions
+            tcp = getDefaultTCP();
         }
 
-        if (!tcp)
+        if (!(modes[tcp] & IKSolver::Orientation))
         {
-            tcp = getDefaultTCP();
+            return 0.0f;    // no error in this dimensions
         }
 
         Matrix4f orientation = this->targets[tcp] * tcp->getGlobalPose().inverse();
-- 
2.43.0


From 213d4fc6473b999449084f38759b09f29e588e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:51 +0000
Subject: [PATCH 025/217] fix: compute the CoM Jacobian consistently in the
 given coordinate system

---
 VirtualRobot/IK/CoMIK.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/VirtualRobot/IK/CoMIK.cpp b/VirtualRobot/IK/CoMIK.cpp
index d68aef4..42a5aec 100644
--- a/VirtualRobot/IK/CoMIK.cpp
+++ b/VirtualRobot/IK/CoMIK.cpp
@@ -79,6 +79,12 @@ namespace VirtualRobot
                     Eigen::Vector3f toTCP = node->getCoMGlobal()
                                             - dof->getGlobalPose().block(0, 3, 3, 1);
 
+                    if (coordSystem)
+                    {
+                        // the axis is given in the coordinate system
+                        toTCP = coordSystem->getGlobalPose().block<3, 3>(0, 0).transpose() * toTCP;
+                    }
+
                     if (convertMMtoM)
                     {
                         toTCP /= 1000.0f;
-- 
2.43.0


From 3d76e0eab95169555a1c4bb9be0a3c0eb19c8331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:51 +0000
Subject: [PATCH 026/217] fix: gradient of the position component of pose
 constraints

---
 VirtualRobot/IK/constraints/PoseConstraint.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/VirtualRobot/IK/constraints/PoseConstraint.cpp b/VirtualRobot/IK/constraints/PoseConstraint.cpp
index 2d88b0e..0442ad4 100644
--- a/VirtualRobot/IK/constraints/PoseConstraint.cpp
+++ b/VirtualRobot/IK/constraints/PoseConstraint.cpp
@@ -166,7 +166,8 @@ Eigen::VectorXf PoseConstraint::positionOptimizationGradient()
 {
     int size = nodeSet->getSize();
 
-    Eigen::MatrixXf J = ik->getJacobianMatrix(eef).block(0, 0, 3, size);
+    // gradient of the position weighted with posRotTradeoff
+    Eigen::MatrixXf J = posRotTradeoff * ik->getJacobianMatrix(eef).block(0, 0, 3, size);
     Eigen::Vector3f d = posRotTradeoff * (eef->getGlobalPose().block<3,1>(0,3) - target.block<3,1>(0,3));
 
     switch(cartesianSelection)
-- 
2.43.0


From 0cbf2b61320b76a254663af0a48f478f99fb3bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:51 +0000
Subject: [PATCH 027/217] fix: gradients of TSR constraints consider the frame
 and the end effector offset

---
 VirtualRobot/IK/constraints/TSRConstraint.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/VirtualRobot/IK/constraints/TSRConstraint.cpp b/VirtualRobot/IK/constraints/TSRConstraint.cpp
index c8d3a5b..6a820d2 100644
--- a/VirtualRobot/IK/constraints/TSRConstraint.cpp
+++ b/VirtualRobot/IK/constraints/TSRConstraint.cpp
@@ -159,9 +159,20 @@ double TSRConstraint::positionOptimizationFunction()
 
 Eigen::VectorXf TSRConstraint::positionOptimizationGradient()
 {
-    Eigen::MatrixXf J = ik->getJacobianMatrix(eef).block(0, 0, 3, nodeSet->getSize());
+    Eigen::MatrixXf J = ik->getJacobianMatrix(eef);
+    // the error is measured at the offset from the end effector...
+    Eigen::Vector3f offset = eef->getGlobalPose().block<3, 3>(0, 0) * eefOffset.block<3, 1>(0, 3);
+    Eigen::MatrixXf JPosition(3, J.cols());
+    for (int i = 0; i < J.cols(); i++)
+    {
+        Eigen::Vector3f translation = J.block<3, 1>(0, i);
+        Eigen::Vector3f rotation = J.block<3, 1>(3, i);
+        JPosition.col(i) = translation + rotation.cross(offset);
+    }
+    // ... and expressed in the frame of the task space region
+    JPosition = posRotTradeoff * transformation.block<3, 3>(0, 0).transpose() * JPosition;
     Eigen::VectorXf e = posRotTradeoff * getPositionError();
-    return 2 * e.transpose() * J;
+    return 2 * e.transpose() * JPosition;
 }
 
 double TSRConstraint::orientationOptimizationFunction()
@@ -172,7 +183,8 @@ double TSRConstraint::orientationOptimizationFunction()
 
 Eigen::VectorXf TSRConstraint::orientationOptimizationGradient()
 {
-    Eigen::MatrixXf J = ik->getJacobianMatrix(eef).block(3, 0, 3, nodeSet->getSize());
+    // the error is expressed in the frame of the task space region
+    Eigen::MatrixXf J = transformation.block<3, 3>(0, 0).transpose() * ik->getJacobianMatrix(eef).block(3, 0, 3, nodeSet->getSize());
     Eigen::VectorXf e = getOrientationError();
     Eigen::VectorXf result = 2 * e.transpose() * J;
     return result;
-- 
2.43.0


From 809446008f242b7ea491567799a7aaefaefba058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:51 +0000
Subject: [PATCH 028/217] fix: TSR constraints use the given tolerances

---
 VirtualRobot/IK/constraints/TSRConstraint.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/VirtualRobot/IK/constraints/TSRConstraint.cpp b/VirtualRobot/IK/constraints/TSRConstraint.cpp
index 6a820d2..3926bfd 100644
--- a/VirtualRobot/IK/constraints/TSRConstraint.cpp
+++ b/VirtualRobot/IK/constraints/TSRConstraint.cpp
@@ -40,8 +40,8 @@ TSRConstraint::TSRConstraint(const RobotPtr& robot, const RobotNodeSetPtr& nodeS
     transformation(transformation),
     eefOffset(eefOffset),
     bounds(bounds),
-    toleranceTranslation(1.0f),
-    toleranceRotation(0.1f),
+    toleranceTranslation(tolerancePosition),
+    toleranceRotation(toleranceRotation),
     posRotTradeoff(0.1f)
 {
     ik.reset(new DifferentialIK(nodeSet));
-- 
2.43.0


From f20c9e46ac88811791703c41d53ec2f0006a92cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:51 +0000
Subject: [PATCH 029/217] fix: position constraints of one direction check both
 signs of the error

---
 VirtualRobot/IK/constraints/PositionConstraint.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/VirtualRobot/IK/constraints/PositionConstraint.cpp b/VirtualRobot/IK/constraints/PositionConstraint.cpp
index 12d1e7e..b662a30 100644
--- a/VirtualRobot/IK/constraints/PositionConstraint.cpp
+++ b/VirtualRobot/IK/constraints/PositionConstraint.cpp
@@ -105,13 +105,13 @@ bool PositionConstraint::checkTolerances()
     switch(cartesianSelection)
     {
         case IKSolver::CartesianSelection::X:
-            return d.x() <= tolerance;
+            return std::abs(d.x()) <= tolerance;
 
         case IKSolver::CartesianSelection::Y:
-            return d.y() <= tolerance;
+            return std::abs(d.y()) <= tolerance;
 
         case IKSolver::CartesianSelection::Z:
-            return d.z() <= tolerance;
+            return std::abs(d.z()) <= tolerance;
 
         case IKSolver::CartesianSelection::Position:
         case IKSolver::CartesianSelection::All:
-- 
2.43.0


From 019e98e1eca85f404312f6921a80ff97266cf4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:51 +0000
Subject: [PATCH 030/217] fix: updating the target of a CoM constraint changes
 its objective

---
 VirtualRobot/IK/constraints/CoMConstraint.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/VirtualRobot/IK/constraints/CoMConstraint.cpp b/VirtualRobot/IK/constraints/CoMConstraint.cpp
index debe401..63ac70e 100644
--- a/VirtualRobot/IK/constraints/CoMConstraint.cpp
+++ b/VirtualRobot/IK/constraints/CoMConstraint.cpp
@@ -59,11 +59,13 @@ CoMConstraint::CoMConstraint(const RobotPtr &robot, const RobotNodeSetPtr &joint
 
 void CoMConstraint::updateTarget(const Eigen::Vector3f &target)
 {
+    this->target = target;
     ik->setGoal(target);
 }
 
 void CoMConstraint::updateTarget(const Eigen::Vector2f &target)
 {
+    this->target = target;
     ik->setGoal(target);
 }
 
-- 
2.43.0


From 3c5b3ec030d80054b27f3c7c09cc9754eca76622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:10 +0000
Subject: [PATCH 031/217] fix: solving IK for an object without grasps for the
 end effector

---
 VirtualRobot/IK/AdvancedIKSolver.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/VirtualRobot/IK/AdvancedIKSolver.cpp b/VirtualRobot/IK/AdvancedIKSolver.cpp
index a91953e..28cc451 100644
--- a/VirtualRobot/IK/AdvancedIKSolver.cpp
+++ b/VirtualRobot/IK/AdvancedIKSolver.cpp
@@ -128,7 +128,12 @@ namespace VirtualRobot
             return GraspPtr();
         }
 
-        GraspSetPtr gs = object->getGraspSet(eef)->clone();
+        GraspSetPtr gs = object->getGraspSet(eef);
+
+        if (gs)
+        {
+            gs = gs->clone();
+        }
 
         if (!gs || gs->getSize() == 0)
         {
-- 
2.43.0


From 807da5972c6d45d75513621184753dbde2cfbc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:10 +0000
Subject: [PATCH 032/217] fix: initialize resets the stall detection of
 hierarchical constrained IK

---
 VirtualRobot/IK/ConstrainedHierarchicalIK.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/VirtualRobot/IK/ConstrainedHierarchicalIK.cpp b/VirtualRobot/IK/ConstrainedHierarchicalIK.cpp
index 02b44dc..7cc9520 100644
--- a/VirtualRobot/IK/ConstrainedHierarchicalIK.cpp
+++ b/VirtualRobot/IK/ConstrainedHierarchicalIK.cpp
@@ -13,6 +13,7 @@ bool ConstrainedHierarchicalIK::initialize()
 {
     ik.reset(new HierarchicalIK(nodeSet));
     jacobians.clear();
+    lastDelta.resize(0);
 
     for (auto & constraint : constraints)
     {
-- 
2.43.0


From ff4448fc83d0a098a4de85bb477c69533b78b578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:35 +0000
Subject: [PATCH 033/217] fix: gradient of the balance objective considers the
 steepness of the sigmoid

---
 VirtualRobot/IK/constraints/BalanceConstraint.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/VirtualRobot/IK/constraints/BalanceConstraint.cpp b/VirtualRobot/IK/constraints/BalanceConstraint.cpp
index 9a4bb52..8bc0bbd 100644
--- a/VirtualRobot/IK/constraints/BalanceConstraint.cpp
+++ b/VirtualRobot/IK/constraints/BalanceConstraint.cpp
@@ -130,7 +130,8 @@ double BalanceConstraintOptimizationFunction::sigmoid(double x)
 
 double BalanceConstraintOptimizationFunction::sigmoid_prime(double x)
 {
-    return sigmoid(x) * (1 - sigmoid(x));
+    float beta = 0.1f;
+    return beta * sigmoid(x) * (1 - sigmoid(x));
 }
 
 
-- 
2.43.0


From 777f5d4f2bc77178d8e163d810690b7a662b8ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:35 +0000
Subject: [PATCH 034/217] fix: objective of balance constraints considers the
 CoM of the bodies

---
 VirtualRobot/IK/constraints/BalanceConstraint.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/VirtualRobot/IK/constraints/BalanceConstraint.cpp b/VirtualRobot/IK/constraints/BalanceConstraint.cpp
index 8bc0bbd..0be5c0b 100644
--- a/VirtualRobot/IK/constraints/BalanceConstraint.cpp
+++ b/VirtualRobot/IK/constraints/BalanceConstraint.cpp
@@ -247,7 +247,7 @@ double BalanceConstraint::optimizationFunction(unsigned int /*id*/)
         differnentiableStability->updateSupportPolygon();
     }
 
-    Eigen::Vector2f com = rns->getCoM().head(2);
+    Eigen::Vector2f com = bodies->getCoM().head(2);
     if(considerCoMHeight)
     {
         VR_WARNING << "COM Height not yet supported by NLopt balance constraint" << std::endl;
@@ -263,7 +263,7 @@ Eigen::VectorXf BalanceConstraint::optimizationGradient(unsigned int /*id*/)
         differnentiableStability->updateSupportPolygon();
     }
 
-    Eigen::Vector2f com = rns->getCoM().head(2);
+    Eigen::Vector2f com = bodies->getCoM().head(2);
     if(considerCoMHeight)
     {
         VR_WARNING << "COM Height not yet supported by NLopt balance constraint" << std::endl;
-- 
2.43.0


From 988d1fd41feb65c8d1b3b68c4f25690e08311541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:35 +0000
Subject: [PATCH 035/217] fix: initialize the CoM height of balance constraints

---
 VirtualRobot/IK/constraints/BalanceConstraint.cpp | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/VirtualRobot/IK/constraints/BalanceConstraint.cpp b/VirtualRobot/IK/constraints/BalanceConstraint.cpp
index 0be5c0b..13a6e57 100644
--- a/VirtualRobot/IK/constraints/BalanceConstraint.cpp
+++ b/VirtualRobot/IK/constraints/BalanceConstraint.cpp
@@ -163,19 +163,9 @@ void BalanceConstraint::initialize(const RobotPtr& robot, const RobotNodeSetPtr&
     supportPolygon.reset(new SupportPolygon(contactNodes));
     differnentiableStability.reset(new BalanceConstraintOptimizationFunction(supportPolygon));
 
+    height = robot->getCoMGlobal()(2);
     VR_INFO << "COM height:" << height << endl;
-    int dim = 2;
-
-    if (considerCoMHeight)
-    {
-        dim = 3;
-        setCoMHeight(height);
-    }
-    else
-    {
-        height = robot->getCoMGlobal()(2);
-        setCoMHeight(height);
-    }
+    int dim = considerCoMHeight ? 3 : 2;
 
     comIK.reset(new CoMIK(joints, bodies, RobotNodePtr(), dim));
 
-- 
2.43.0


From 0fdc4c4ba1720764d02f84680308c164efe20ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:35 +0000
Subject: [PATCH 036/217] fix: balance constraints use the given maximum
 support distance

---
 .../IK/constraints/BalanceConstraint.cpp      | 23 +++++++++++--------
 .../IK/constraints/BalanceConstraint.h        |  2 +-
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/VirtualRobot/IK/constraints/BalanceConstraint.cpp b/VirtualRobot/IK/constraints/BalanceConstraint.cpp
index 13a6e57..eea9311 100644
--- a/VirtualRobot/IK/constraints/BalanceConstraint.cpp
+++ b/VirtualRobot/IK/constraints/BalanceConstraint.cpp
@@ -33,9 +33,9 @@ BalanceConstraintOptimizationFunction::BalanceConstraintOptimizationFunction(con
     update();
 }
 
-void BalanceConstraintOptimizationFunction::updateSupportPolygon()
+void BalanceConstraintOptimizationFunction::updateSupportPolygon(float maxFloorDist)
 {
-    supportPolygon->updateSupportPolygon();
+    supportPolygon->updateSupportPolygon(maxFloorDist);
     update();
 }
 
@@ -183,7 +183,7 @@ void BalanceConstraint::updateSupportPolygon()
     MathTools::ConvexHull2DPtr convexHull = supportPolygon->getSupportPolygon2D();
     THROW_VR_EXCEPTION_IF(!convexHull, "Empty support polygon for balance constraint");
 
-    differnentiableStability->updateSupportPolygon();
+    differnentiableStability->updateSupportPolygon(maxSupportDistance);
 
     Eigen::Vector2f supportPolygonCenter = MathTools::getConvexHullCenter(convexHull);
 
@@ -205,7 +205,7 @@ float BalanceConstraint::getDifferentiableStabilityIndex()
 {
     if(supportPolygonUpdates)
     {
-        supportPolygon->updateSupportPolygon();
+        supportPolygon->updateSupportPolygon(maxSupportDistance);
     }
 
     MathTools::ConvexHull2DPtr ch = supportPolygon->getSupportPolygon2D();
@@ -234,7 +234,7 @@ double BalanceConstraint::optimizationFunction(unsigned int /*id*/)
 {
     if(supportPolygonUpdates)
     {
-        differnentiableStability->updateSupportPolygon();
+        differnentiableStability->updateSupportPolygon(maxSupportDistance);
     }
 
     Eigen::Vector2f com = bodies->getCoM().head(2);
@@ -250,7 +250,7 @@ Eigen::VectorXf BalanceConstraint::optimizationGradient(unsigned int /*id*/)
 {
     if(supportPolygonUpdates)
     {
-        differnentiableStability->updateSupportPolygon();
+        differnentiableStability->updateSupportPolygon(maxSupportDistance);
     }
 
     Eigen::Vector2f com = bodies->getCoM().head(2);
@@ -274,13 +274,13 @@ Eigen::MatrixXf BalanceConstraint::getJacobianMatrix(SceneObjectPtr tcp)
 
 Eigen::VectorXf BalanceConstraint::getError(float stepSize)
 {
-    float stability = supportPolygon->getStabilityIndex(bodies, supportPolygonUpdates);
-
     if (supportPolygonUpdates)
     {
         updateSupportPolygon();
     }
 
+    float stability = supportPolygon->getStabilityIndex(bodies, false);
+
     if (stability < minimumStability)
     {
         return comIK->getError(stepSize);
@@ -297,7 +297,12 @@ Eigen::VectorXf BalanceConstraint::getError(float stepSize)
 
 bool BalanceConstraint::checkTolerances()
 {
-    return (supportPolygon->getStabilityIndex(bodies, supportPolygonUpdates) >= minimumStability);
+    if (supportPolygonUpdates)
+    {
+        supportPolygon->updateSupportPolygon(maxSupportDistance);
+    }
+
+    return (supportPolygon->getStabilityIndex(bodies, false) >= minimumStability);
 }
 
 Eigen::Vector3f BalanceConstraint::getCoM()
diff --git a/VirtualRobot/IK/constraints/BalanceConstraint.h b/VirtualRobot/IK/constraints/BalanceConstraint.h
index be1846e..b4ba151 100644
--- a/VirtualRobot/IK/constraints/BalanceConstraint.h
+++ b/VirtualRobot/IK/constraints/BalanceConstraint.h
@@ -38,7 +38,7 @@ namespace VirtualRobot
     public:
         BalanceConstraintOptimizationFunction(const SupportPolygonPtr &supportPolygon);
 
-        void updateSupportPolygon();
+        void updateSupportPolygon(float maxFloorDist = 5.0f);
 
         double evaluateOptimizationFunction(const Eigen::Vector2f &com);
         Eigen::VectorXf evaluateOptimizationGradient(const Eigen::Vector2f &com, const Eigen::MatrixXf &Jcom);
-- 
2.43.0


From 3f96ed5830da27c3f46089b7e328d2a46e4e6265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:20 +0000
Subject: [PATCH 037/217] fix: CollisionChecker::checkCollision(model, point,
 tolerance) uses the given tolerance instead of 50

---
 VirtualRobot/CollisionDetection/PQP/CollisionCheckerPQP.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/CollisionDetection/PQP/CollisionCheckerPQP.cpp b/VirtualRobot/CollisionDetection/PQP/CollisionCheckerPQP.cpp
index 23bd8cd..878ae15 100644
--- a/VirtualRobot/CollisionDetection/PQP/CollisionCheckerPQP.cpp
+++ b/VirtualRobot/CollisionDetection/PQP/CollisionCheckerPQP.cpp
@@ -132,7 +132,7 @@ namespace VirtualRobot
             pqpChecker->PQP_Tolerance(&result,
                                       R1, T1, m1.get(),
                                       R2, T2, pointModel.get(),
-                                      50);
+                                      tolerance);
 
 
 
-- 
2.43.0


From a013066ef14b2d8a5ead9d1d5f9d51d62b92acb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:20 +0000
Subject: [PATCH 038/217] fix: keep the global pose of a collision model when
 its internal data is (re)created

---
 VirtualRobot/CollisionDetection/CollisionModel.cpp             | 2 ++
 VirtualRobot/CollisionDetection/CollisionModelImplementation.h | 1 +
 2 files changed, 3 insertions(+)

diff --git a/VirtualRobot/CollisionDetection/CollisionModel.cpp b/VirtualRobot/CollisionDetection/CollisionModel.cpp
index 4dd7f19..09eac14 100644
--- a/VirtualRobot/CollisionDetection/CollisionModel.cpp
+++ b/VirtualRobot/CollisionDetection/CollisionModel.cpp
@@ -97,6 +97,7 @@ namespace VirtualRobot
 #else
             collisionModelImplementation.reset(new CollisionModelDummy(colChecker));
 #endif
+            collisionModelImplementation->setGlobalPose(globalPose);
         }
         if(!origVisualization)
             margin = 0.0;
@@ -397,6 +398,7 @@ namespace VirtualRobot
 #else
             collisionModelImplementation.reset(new CollisionModelDummy(colChecker));
 #endif
+            collisionModelImplementation->setGlobalPose(globalPose);
         }
 
         if (visualization)
diff --git a/VirtualRobot/CollisionDetection/CollisionModelImplementation.h b/VirtualRobot/CollisionDetection/CollisionModelImplementation.h
index 85bb588..2c570b1 100644
--- a/VirtualRobot/CollisionDetection/CollisionModelImplementation.h
+++ b/VirtualRobot/CollisionDetection/CollisionModelImplementation.h
@@ -51,6 +51,7 @@ namespace VirtualRobot
         {
             this->modelData = modelData;
             this->id = id;
+            this->globalPose = Eigen::Matrix4f::Identity();
         };
 
         /*!Standard Destructor
-- 
2.43.0


From 831acb96cdd138d90c98c28defd985a4e89fd8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:20 +0000
Subject: [PATCH 039/217] fix: TriMeshModel::fattenShrink updates the bounding
 box

---
 VirtualRobot/Visualization/TriMeshModel.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/VirtualRobot/Visualization/TriMeshModel.cpp b/VirtualRobot/Visualization/TriMeshModel.cpp
index 55f2e20..9bd5980 100644
--- a/VirtualRobot/Visualization/TriMeshModel.cpp
+++ b/VirtualRobot/Visualization/TriMeshModel.cpp
@@ -583,6 +583,9 @@ namespace VirtualRobot
             }
         }
 
+        boundingBox.clear();
+        boundingBox.addPoints(vertices);
+
         if(updateNormals)
         {
             normals.clear();
-- 
2.43.0


From 9862bdebaad6a9423851bd379cf3e428857aa61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:07 +0000
Subject: [PATCH 040/217] fix: a shallow clone of an inflated CollisionModel
 keeps the inflated geometry

---
 VirtualRobot/CollisionDetection/CollisionModel.cpp | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/VirtualRobot/CollisionDetection/CollisionModel.cpp b/VirtualRobot/CollisionDetection/CollisionModel.cpp
index 09eac14..2dd8df7 100644
--- a/VirtualRobot/CollisionDetection/CollisionModel.cpp
+++ b/VirtualRobot/CollisionDetection/CollisionModel.cpp
@@ -140,16 +140,8 @@ namespace VirtualRobot
         else
         {
             p.reset(new CollisionModel(visuOrigNew, nameNew, colChecker, idNew, this->collisionModelImplementation));
-            if(visualization)
-            {
-                p->visualization = visualization->clone(false, scaling);
-                p->margin = margin;
-            }
-            else
-            {                
-                p->inflateModel(margin);
-            }
-
+            // the constructor rebuilds the data without margin
+            p->inflateModel(margin);
         }
         p->setGlobalPose(getGlobalPose());
         p->setUpdateVisualization(getUpdateVisualizationStatus());
-- 
2.43.0


From 2538e8d642432bf8ac9f939a36b2d2994c0aac02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:59 +0000
Subject: [PATCH 041/217] fix: CDManager::addCollisionModel neither loses pairs
 nor pairs an object with itself

---
 VirtualRobot/CollisionDetection/CDManager.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/VirtualRobot/CollisionDetection/CDManager.cpp b/VirtualRobot/CollisionDetection/CDManager.cpp
index aa854b6..553b9c2 100644
--- a/VirtualRobot/CollisionDetection/CDManager.cpp
+++ b/VirtualRobot/CollisionDetection/CDManager.cpp
@@ -38,9 +38,15 @@ namespace VirtualRobot
                 VR_WARNING << "CollisionModel of SceneObjectSet '" << m->getName() << "' is linked to a different instance of collision checker than this CollisionManager..." << endl;
             }
 
-            for (const auto & colModel : colModels)
+            // addCollisionModelPair() may extend colModels, hence iterate over a copy
+            const std::vector<SceneObjectSetPtr> present = colModels;
+
+            for (const auto & colModel : present)
             {
-                if (m != colModel)
+                // a set with one object may have been added with another wrapper
+                bool sameObject = m->getSize() == 1 && colModel->getSize() == 1 && colModel->getSceneObject(0) == m->getSceneObject(0);
+
+                if (m != colModel && !sameObject)
                 {
                     addCollisionModelPair(colModel, m);
                 }
-- 
2.43.0


From 41402d1e86bc1ebd3e829022d5ae61e4ae77c4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:59 +0000
Subject: [PATCH 042/217] fix: CDManager::getDistance with points ignores the
 queried set itself, as the version without points does

---
 VirtualRobot/CollisionDetection/CDManager.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/VirtualRobot/CollisionDetection/CDManager.cpp b/VirtualRobot/CollisionDetection/CDManager.cpp
index 553b9c2..472128d 100644
--- a/VirtualRobot/CollisionDetection/CDManager.cpp
+++ b/VirtualRobot/CollisionDetection/CDManager.cpp
@@ -254,6 +254,11 @@ namespace VirtualRobot
 
         for (const auto & colModel : colModels)
         {
+            if (m == colModel)
+            {
+                continue;
+            }
+
             tmp = (float)colChecker->calculateDistance(m, colModel, _P1, _P2, &_trID1, &_trID2);
 
             if (tmp < minDist)
-- 
2.43.0


From 63432a38baa2e0c37c1ff3184316053622364510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:05 +0000
Subject: [PATCH 043/217] fix: SceneObjectSet::createStaticObstacle works for
 sets without collision models

---
 VirtualRobot/SceneObjectSet.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/VirtualRobot/SceneObjectSet.cpp b/VirtualRobot/SceneObjectSet.cpp
index 1ebbc66..7b3788b 100644
--- a/VirtualRobot/SceneObjectSet.cpp
+++ b/VirtualRobot/SceneObjectSet.cpp
@@ -341,7 +341,13 @@ namespace VirtualRobot
         }
 
         VisualizationNodePtr unitedVisu = VisualizationNode::CreateUnitedVisualization(visus);
-        CollisionModelPtr unitedColModel = CollisionModel::CreateUnitedCollisionModel(cols);
+        CollisionModelPtr unitedColModel;
+
+        if (!cols.empty())
+        {
+            unitedColModel = CollisionModel::CreateUnitedCollisionModel(cols);
+        }
+
         SceneObject::Physics phys;
         return ObstaclePtr(new Obstacle(name, unitedVisu, unitedColModel, phys, colChecker));
     }
-- 
2.43.0


From f5ae964f5e3025ed0d3f42290d7cac2eaca38114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 044/217] fix: WorkspaceDataArray::sumAngleReachabilities sums
 the filled blocks instead of the empty ones

---
 VirtualRobot/Workspace/WorkspaceDataArray.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/Workspace/WorkspaceDataArray.cpp b/VirtualRobot/Workspace/WorkspaceDataArray.cpp
index 5a888dc..b558586 100644
--- a/VirtualRobot/Workspace/WorkspaceDataArray.cpp
+++ b/VirtualRobot/Workspace/WorkspaceDataArray.cpp
@@ -261,7 +261,7 @@ namespace VirtualRobot
     {
         int res = 0;
 
-        if (hasEntry(x0, x1, x2))
+        if (!hasEntry(x0, x1, x2))
         {
             return 0;
         }
-- 
2.43.0


From 7afdec95095ae83bbc78662b7f60da3949ffea4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 045/217] fix: zero entries of workspace data do not count as
 filled, binarizing empty data keeps its maximum

---
 VirtualRobot/Workspace/WorkspaceDataArray.cpp | 22 +++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/VirtualRobot/Workspace/WorkspaceDataArray.cpp b/VirtualRobot/Workspace/WorkspaceDataArray.cpp
index b558586..667763f 100644
--- a/VirtualRobot/Workspace/WorkspaceDataArray.cpp
+++ b/VirtualRobot/Workspace/WorkspaceDataArray.cpp
@@ -1,5 +1,6 @@
 #include "WorkspaceDataArray.h"
 
+#include <algorithm>
 #include <fstream>
 #include <cmath>
 #include <cfloat>
@@ -167,10 +168,14 @@ namespace VirtualRobot
         unsigned int posTr = 0, posRot = 0;
         getPos(x0, x1, x2, x3, x4, x5, posTr, posRot);
 
-        if (data[posTr][posRot] == 0)
+        if (data[posTr][posRot] == 0 && value != 0)
         {
             voxelFilledCount++;
         }
+        else if (data[posTr][posRot] != 0 && value == 0)
+        {
+            voxelFilledCount--;
+        }
 
         data[posTr][posRot] = value;
 
@@ -186,10 +191,14 @@ namespace VirtualRobot
         unsigned int posTr = 0, posRot = 0;
         getPos(x, posTr, posRot);
 
-        if (data[posTr][posRot] == 0)
+        if (data[posTr][posRot] == 0 && value != 0)
         {
             voxelFilledCount++;
         }
+        else if (data[posTr][posRot] != 0 && value == 0)
+        {
+            voxelFilledCount--;
+        }
 
         data[posTr][posRot] = value;
 
@@ -340,7 +349,10 @@ namespace VirtualRobot
             }
         }
 
-        maxEntry = minValidValue;
+        if (maxEntry > minValidValue)
+        {
+            maxEntry = minValidValue;
+        }
     }
 
     void WorkspaceDataArray::bisectData()
@@ -514,7 +526,9 @@ namespace VirtualRobot
             return false;
         }
 
-        return (data[x * sizeTr0 + y * sizeTr1 + z] != nullptr);
+        const unsigned char* d = data[x * sizeTr0 + y * sizeTr1 + z];
+
+        return d && std::any_of(d, d + getSizeRot(), [](unsigned char e) { return e != 0; });
     }
 
     WorkspaceData* WorkspaceDataArray::clone()
-- 
2.43.0


From 5741e802ee1fc3f27c07dcd7f9e8908d8fa797b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:05 +0000
Subject: [PATCH 046/217] fix: WorkspaceRepresentation::fillHoles fills the
 empty voxels and leaves the others

---
 VirtualRobot/Workspace/WorkspaceRepresentation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/Workspace/WorkspaceRepresentation.cpp b/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
index 99f3d32..7c68075 100644
--- a/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
+++ b/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
@@ -1392,7 +1392,7 @@ namespace VirtualRobot
                         for (x[4] = 1; x[4] < (unsigned int)numVoxels[4] - 1; x[4]++)
                             for (x[5] = 1; x[5] < (unsigned int)numVoxels[5] - 1; x[5]++)
                             {
-                                if (data->get(x) > 0)
+                                if (data->get(x) == 0)
                                 {
                                     int sum = 0;
                                     int count = 0;
-- 
2.43.0


From 3a4b89bdc07dcc5afd58127ab54543692337c70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:06 +0000
Subject: [PATCH 047/217] fix: voxel centers and volumes use the actual voxel
 size, which may be smaller than the discretization step

---
 .../Workspace/WorkspaceRepresentation.cpp     | 20 +++++++------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/VirtualRobot/Workspace/WorkspaceRepresentation.cpp b/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
index 7c68075..6692c35 100644
--- a/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
+++ b/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
@@ -679,7 +679,7 @@ namespace VirtualRobot
 
     float WorkspaceRepresentation::getVoxelSize(int dim) const
     {
-        if (dim < 0 || dim > 6)
+        if (dim < 0 || dim > 5)
         {
             return 0.0f;
         }
@@ -1246,16 +1246,7 @@ namespace VirtualRobot
                 return false;
             }
 
-            v[i] = ((((float) x[i]) * spaceSize[i]) / ((float)numVoxels[i]))  + minBounds[i];
-
-            if (i < 3)
-            {
-                v[i] += discretizeStepTranslation / 2;
-            }
-            else
-            {
-                v[i] += discretizeStepRotation / 2;
-            }
+            v[i] = minBounds[i] + ((float)x[i] + 0.5f) * getVoxelSize(i);
         }
 
         return true;
@@ -1305,8 +1296,11 @@ namespace VirtualRobot
                 }
             }
         }
-        double discrM = discretizeStepTranslation * 0.001;
-        double voxelVolume = discrM * discrM * discrM;
+        double voxelVolume = 1.0;
+        for (int i = 0; i < 3; i++)
+        {
+            voxelVolume *= getVoxelSize(i) * 0.001;
+        }
         result.volumeVoxel3D = (float)voxelVolume;
         result.volumeFilledVoxels3D = (float)((double)result.filledVoxelCount3D * voxelVolume);
         result.volume3D = (float)(((double)result.filledVoxelCount3D - 0.5*(double)result.borderVoxelCount3D) * voxelVolume);
-- 
2.43.0


From 7e2404b6296484e7800b6cf8dc696459f6a0bda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:06 +0000
Subject: [PATCH 048/217] fix: poses more than half a voxel below the minimum
 bounds are outside of the workspace data

---
 VirtualRobot/Workspace/WorkspaceRepresentation.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/VirtualRobot/Workspace/WorkspaceRepresentation.cpp b/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
index 6692c35..7a9b54d 100644
--- a/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
+++ b/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
@@ -805,12 +805,12 @@ namespace VirtualRobot
         for (int i = 0; i < 6; i++)
         {
             pos = ((x[i] - minBounds[i]) / spaceSize[i]) * (float)numVoxels[i];
-            a = (int)(pos);
+            a = (int)std::floor(pos);
 
             if (a < 0)
             {
                 // check for rounding errors
-                if (a==-1 && (fabs(float(a) - pos)<0.5f))
+                if (a==-1 && pos > -0.5f)
                     a = 0;
                 else
                     return false;    //pos[i] = 0; // if pose is outside of voxel space, ignore it
@@ -847,7 +847,7 @@ namespace VirtualRobot
 
         for (int i = 0; i < 3; i++)
         {
-            a = (int)(((x[i] - minBounds[i]) / spaceSize[i]) * (float)numVoxels[i]);
+            a = (int)std::floor(((x[i] - minBounds[i]) / spaceSize[i]) * (float)numVoxels[i]);
             if (a < 0)
             {
                 return false;    //pos[i] = 0; // if pose is outside of voxel space, ignore it
-- 
2.43.0


From fe2175d02cad9db59d58d5bd1ea425ffd4f5f7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:06 +0000
Subject: [PATCH 049/217] fix: WorkspaceRepresentation::getAdjustOnOverflow
 returns the setting given at initialization

---
 VirtualRobot/Workspace/WorkspaceRepresentation.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/VirtualRobot/Workspace/WorkspaceRepresentation.cpp b/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
index 7a9b54d..4372e55 100644
--- a/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
+++ b/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
@@ -1108,6 +1108,7 @@ namespace VirtualRobot
         dynamicCollisionModel.reset();
         buildUpLoops = 0;
         collisionConfigs = 0;
+        adjustOnOverflow = true;
         discretizeStepTranslation = 0;
         discretizeStepRotation = 0;
 
@@ -1173,6 +1174,7 @@ namespace VirtualRobot
         // build data
         this->discretizeStepTranslation = discretizeStepTranslation;
         this->discretizeStepRotation = discretizeStepRotation;
+        this->adjustOnOverflow = adjustOnOverflow;
 
         for (int i = 0; i < 6; i++)
         {
-- 
2.43.0


From 92ff216fcd4cf60779c959895034d7070c382215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:06 +0000
Subject: [PATCH 050/217] fix: FileIO reads the empty strings it writes (a
 workspace without base node got the TCP as base node when loaded)

---
 VirtualRobot/XML/FileIO.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/VirtualRobot/XML/FileIO.h b/VirtualRobot/XML/FileIO.h
index 85489fa..4fcf7cb 100644
--- a/VirtualRobot/XML/FileIO.h
+++ b/VirtualRobot/XML/FileIO.h
@@ -59,7 +59,13 @@ namespace VirtualRobot
         {
             int length = read<int32_t>(file);
 
-            if (length <= 0)
+            if (length == 0)
+            {
+                res.clear();
+                return true;
+            }
+
+            if (length < 0)
             {
                 VR_WARNING << "Bad string length: " << length << std::endl;
                 return false;
-- 
2.43.0


From e55e8ceac8864974a795a3fd7131dcdab6a46d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:33 +0000
Subject: [PATCH 051/217] fix: positions below the minimum of a WorkspaceGrid
 are not mapped to its first cell

---
 VirtualRobot/Workspace/WorkspaceGrid.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/VirtualRobot/Workspace/WorkspaceGrid.cpp b/VirtualRobot/Workspace/WorkspaceGrid.cpp
index d322e38..a7bab26 100644
--- a/VirtualRobot/Workspace/WorkspaceGrid.cpp
+++ b/VirtualRobot/Workspace/WorkspaceGrid.cpp
@@ -6,6 +6,7 @@
 #include "../Robot.h"
 #include <iostream>
 #include <algorithm>
+#include <cmath>
 using namespace std;
 
 #define MIN_VALUES_STORE_GRASPS 100
@@ -65,8 +66,8 @@ namespace VirtualRobot
             return 0;
         }
 
-        int nPosX = (int)(((x - minX) / gridExtendX) * gridSizeX);
-        int nPosY = (int)(((y - minY) / gridExtendY) * gridSizeY);
+        int nPosX = (int)std::floor(((x - minX) / gridExtendX) * gridSizeX);
+        int nPosY = (int)std::floor(((y - minY) / gridExtendY) * gridSizeY);
 
         if (nPosX < 0 || nPosY < 0 || nPosX >= gridSizeX || nPosY >= gridSizeY)
         {
@@ -84,8 +85,8 @@ namespace VirtualRobot
             return false;
         }
 
-        int nPosX = (int)(((x - minX) / gridExtendX) * gridSizeX);
-        int nPosY = (int)(((y - minY) / gridExtendY) * gridSizeY);
+        int nPosX = (int)std::floor(((x - minX) / gridExtendX) * gridSizeX);
+        int nPosY = (int)std::floor(((y - minY) / gridExtendY) * gridSizeY);
 
         if (nPosX < 0 || nPosY < 0 || nPosX >= gridSizeX || nPosY >= gridSizeY)
         {
@@ -115,8 +116,8 @@ namespace VirtualRobot
             return false;
         }
 
-        int nPosX = (int)(((x - minX) / gridExtendX) * gridSizeX);
-        int nPosY = (int)(((y - minY) / gridExtendY) * gridSizeY);
+        int nPosX = (int)std::floor(((x - minX) / gridExtendX) * gridSizeX);
+        int nPosY = (int)std::floor(((y - minY) / gridExtendY) * gridSizeY);
 
         if (nPosX < 0 || nPosY < 0 || nPosX >= gridSizeX || nPosY >= gridSizeY)
         {
@@ -198,8 +199,8 @@ namespace VirtualRobot
             return;
         }
 
-        int nPosX = (int)(((x - minX) / gridExtendX) * gridSizeX);
-        int nPosY = (int)(((y - minY) / gridExtendY) * gridSizeY);
+        int nPosX = (int)std::floor(((x - minX) / gridExtendX) * gridSizeX);
+        int nPosY = (int)std::floor(((y - minY) / gridExtendY) * gridSizeY);
         setCellEntry(nPosX, nPosY, value, grasp);
     }
 
@@ -242,8 +243,8 @@ namespace VirtualRobot
             return;
         }
 
-        int nPosX = (int)(((x - minX) / gridExtendX) * gridSizeX);
-        int nPosY = (int)(((y - minY) / gridExtendY) * gridSizeY);
+        int nPosX = (int)std::floor(((x - minX) / gridExtendX) * gridSizeX);
+        int nPosY = (int)std::floor(((y - minY) / gridExtendY) * gridSizeY);
 
         if (nPosX < 0 || nPosY < 0 || nPosX >= gridSizeX || nPosY >= gridSizeY)
         {
-- 
2.43.0


From 0db6eee5906670f6fdb0b2b782d6090bd586a053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:33 +0000
Subject: [PATCH 052/217] fix: WorkspaceGrid::getRandomPos returns the center
 of the chosen cell

---
 VirtualRobot/Workspace/WorkspaceGrid.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/VirtualRobot/Workspace/WorkspaceGrid.cpp b/VirtualRobot/Workspace/WorkspaceGrid.cpp
index a7bab26..1d9b6a0 100644
--- a/VirtualRobot/Workspace/WorkspaceGrid.cpp
+++ b/VirtualRobot/Workspace/WorkspaceGrid.cpp
@@ -381,8 +381,8 @@ namespace VirtualRobot
                 *entries = nEntry;
             if (nEntry >= minEntry)
             {
-                storeXGlobal = minX + ((float)x + 0.5f) * discretizeSize;
-                storeYGlobal = minY + ((float)y + 0.5f) * discretizeSize;
+                storeXGlobal = minX + ((float)x + 0.5f) * gridExtendX / gridSizeX;
+                storeYGlobal = minY + ((float)y + 0.5f) * gridExtendY / gridSizeY;
 
                 return true;
             }
@@ -415,8 +415,8 @@ namespace VirtualRobot
                 *entries = nEntry;
             if (nEntry >= minEntry)
             {
-                storeXGlobal = minX + ((float)x + 0.5f) * discretizeSize;
-                storeYGlobal = minY + ((float)y + 0.5f) * discretizeSize;
+                storeXGlobal = minX + ((float)x + 0.5f) * gridExtendX / gridSizeX;
+                storeYGlobal = minY + ((float)y + 0.5f) * gridExtendY / gridSizeY;
                 return true;
             }
 
-- 
2.43.0


From dd432fa1b7823cdc349232e68c3eceef6fef276b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:33 +0000
Subject: [PATCH 053/217] fix: WorkspaceGrid::MergeWorkspaceGrids covers all
 cells, also with negative maxima and positions outside of a grid

---
 VirtualRobot/Workspace/WorkspaceGrid.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/VirtualRobot/Workspace/WorkspaceGrid.cpp b/VirtualRobot/Workspace/WorkspaceGrid.cpp
index 1d9b6a0..6eaef49 100644
--- a/VirtualRobot/Workspace/WorkspaceGrid.cpp
+++ b/VirtualRobot/Workspace/WorkspaceGrid.cpp
@@ -506,9 +506,9 @@ namespace VirtualRobot
     WorkspaceGridPtr WorkspaceGrid::MergeWorkspaceGrids(const std::vector<WorkspaceGridPtr> &grids)
     {
         VR_ASSERT(grids.size() >= 2);
-        float totalMaxX = std::numeric_limits<float>::min();
+        float totalMaxX = std::numeric_limits<float>::lowest();
         float totalMinX = std::numeric_limits<float>::max();
-        float totalMaxY = std::numeric_limits<float>::min();
+        float totalMaxY = std::numeric_limits<float>::lowest();
         float totalMinY = std::numeric_limits<float>::max();
         for(auto& grid : grids)
         {
@@ -522,15 +522,19 @@ namespace VirtualRobot
 //        VR_INFO << "minx : " << totalMinX << " maxX: " << totalMaxX << " step size: " << resultGrid->getDiscretizeSize() << endl;
 //        int sameValueCount =  0;
 //        int totalValueCount = 0;
-        for(float x = totalMinX; x < totalMaxX; x += resultGrid->getDiscretizeSize())
+        int cellsX, cellsY;
+        resultGrid->getCells(cellsX, cellsY);
+        for(int cellX = 0; cellX < cellsX; cellX++)
         {
-            for(float y = totalMinY; y < totalMaxY; y += resultGrid->getDiscretizeSize())
+            for(int cellY = 0; cellY < cellsY; cellY++)
             {
+                float x = totalMinX + ((float)cellX + 0.5f) * (totalMaxX - totalMinX) / cellsX;
+                float y = totalMinY + ((float)cellY + 0.5f) * (totalMaxY - totalMinY) / cellsY;
                 int min = std::numeric_limits<int>::max();
                 GraspPtr grasp;
                 for(auto& grid : grids)
                 {
-                    int score;
+                    int score = 0; // no entry outside of a grid
                     GraspPtr tmpGrasp;
                     if(grid->getEntry(x, y, score, tmpGrasp))
                     {
@@ -539,7 +543,7 @@ namespace VirtualRobot
                     min = std::min(score, min);
                 }
 //                totalValueCount++;
-                resultGrid->setEntry(x, y, min, grasp);
+                resultGrid->setCellEntry(cellX, cellY, min, grasp);
             }
         }
 //        VR_INFO << "Same value percentage: " << (100.f * sameValueCount/totalValueCount) << endl;
-- 
2.43.0


From 4f1f7128e8ebc452354808a752d9facdfe6e9cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:33 +0000
Subject: [PATCH 054/217] fix: the bounds of a workspace cut match its cells,
 so cut transformations lie where the entries were taken

---
 VirtualRobot/Workspace/WorkspaceRepresentation.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/VirtualRobot/Workspace/WorkspaceRepresentation.cpp b/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
index 4372e55..1269691 100644
--- a/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
+++ b/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
@@ -1620,6 +1620,9 @@ namespace VirtualRobot
         float sizeY = result->maxBounds[1] - result->minBounds[1];
         int numVoxelsY = (int)(sizeY / cellSize);
 
+        // the covered area consists of complete cells
+        result->maxBounds[0] = result->minBounds[0] + (float)numVoxelsX * cellSize;
+        result->maxBounds[1] = result->minBounds[1] + (float)numVoxelsY * cellSize;
 
         Eigen::Matrix4f tmpPose = referencePose;
         Eigen::Matrix4f localPose;
-- 
2.43.0


From e2a88f60b5c45bc812cc58184d19f78267dc3e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:00 +0000
Subject: [PATCH 055/217] fix: multithreaded addRandomTCPPoses adds all
 requested poses and does not lose any to data races

---
 VirtualRobot/Workspace/Manipulability.cpp          | 12 +++++++++---
 VirtualRobot/Workspace/WorkspaceRepresentation.cpp |  8 +++++---
 VirtualRobot/Workspace/WorkspaceRepresentation.h   |  4 ++++
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/VirtualRobot/Workspace/Manipulability.cpp b/VirtualRobot/Workspace/Manipulability.cpp
index 721129f..122390b 100644
--- a/VirtualRobot/Workspace/Manipulability.cpp
+++ b/VirtualRobot/Workspace/Manipulability.cpp
@@ -53,6 +53,7 @@ namespace VirtualRobot
         //MathTools::eigen4f2rpy(p,x);
 
         // check for achieved values
+        std::unique_lock<std::mutex> lock(dataMutex);
         for (int i = 0; i < 6; i++)
         {
             if (x[i] < achievedMinValues[i])
@@ -65,6 +66,7 @@ namespace VirtualRobot
                 achievedMaxValues[i] = x[i];
             }
         }
+        lock.unlock();
 
         // get voxels
         unsigned int v[6];
@@ -101,12 +103,15 @@ namespace VirtualRobot
                 e = 1;
             }
 
+            lock.lock();
             if (e > data->get(v))
             {
                 data->setDatum(v, e);
             }
+            lock.unlock();
         }
 
+        lock.lock();
         buildUpLoops++;
     }
 
@@ -745,20 +750,20 @@ namespace VirtualRobot
     {
         THROW_VR_EXCEPTION_IF(!data || !nodeSet || !tcpNode || !measure, "Workspace data not initialized");
 
-        if (numThreads > loops)
+        if (numThreads == 0 || numThreads > loops)
         {
-            VR_ERROR << "Number of threads can not be bigger then number of tcp poses to add.";
+            VR_ERROR << "Need at least one thread and not more threads than tcp poses to add.";
             return;
         }
 
         std::vector<std::thread> threads(numThreads);
-        unsigned int numPosesPerThread = loops / numThreads; // todo
 
         for (int i = 0; i < numThreads; i++)
         {
             // each thread gets a cloned robot
             CollisionCheckerPtr cc(new CollisionChecker());
             RobotPtr clonedRobot = VirtualRobot::RobotIO::loadRobot(this->robot->getFilename(), RobotIO::eCollisionModel);
+            unsigned int numPosesPerThread = loops / numThreads + ((unsigned int)i < loops % numThreads ? 1 : 0);
             threads[i] = std::thread([=] ()
             {
 
@@ -829,6 +834,7 @@ namespace VirtualRobot
                             break;
                         }
 
+                        std::lock_guard<std::mutex> lock(dataMutex);
                         this->collisionConfigs++;
                     }
 
diff --git a/VirtualRobot/Workspace/WorkspaceRepresentation.cpp b/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
index 1269691..dc7bf44 100644
--- a/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
+++ b/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
@@ -939,6 +939,7 @@ namespace VirtualRobot
         VR_ASSERT(data);
         Eigen::Matrix4f p = globalPose;
         toLocal(p);
+        std::lock_guard<std::mutex> lock(dataMutex);
 
         float x[6];
         matrix2Vector(p, x);
@@ -2173,17 +2174,17 @@ namespace VirtualRobot
     {
         THROW_VR_EXCEPTION_IF(!data || !nodeSet || !tcpNode, "Workspace data not initialized");
 
-        if (numThreads > loops)
+        if (numThreads == 0 || numThreads > loops)
         {
-            VR_ERROR << "Number of threads can not be bigger then number of tcp poses to add.";
+            VR_ERROR << "Need at least one thread and not more threads than tcp poses to add.";
             return;
         }
 
         std::vector<std::thread> threads(numThreads);
-        unsigned int numPosesPerThread = loops / numThreads; // todo
 
         for (int i = 0; i < numThreads; i++)
         {
+            unsigned int numPosesPerThread = loops / numThreads + ((unsigned int)i < loops % numThreads ? 1 : 0);
             threads[i] = std::thread([=] ()
             {
                 // each thread gets a cloned robot
@@ -2240,6 +2241,7 @@ namespace VirtualRobot
                             break;
                         }
 
+                        std::lock_guard<std::mutex> lock(dataMutex);
                         this->collisionConfigs++;
                     }
 
diff --git a/VirtualRobot/Workspace/WorkspaceRepresentation.h b/VirtualRobot/Workspace/WorkspaceRepresentation.h
index f486dc6..5850f1b 100644
--- a/VirtualRobot/Workspace/WorkspaceRepresentation.h
+++ b/VirtualRobot/Workspace/WorkspaceRepresentation.h
@@ -28,6 +28,7 @@
 #include "../MathTools.h"
 #include "../XML/FileIO.h"
 
+#include <mutex>
 #include <vector>
 
 #include <Eigen/Core>
@@ -482,6 +483,9 @@ namespace VirtualRobot
 
         WorkspaceDataPtr data;
 
+        //! Protects the data when poses are added by several threads
+        std::mutex dataMutex;
+
         bool adjustOnOverflow;
 
         std::string type;
-- 
2.43.0


From b9f49dae0f83d96ab95f8852a3d37d9622ed3b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:02 +0000
Subject: [PATCH 056/217] fix: loading truncated workspace files throws instead
 of using garbage

---
 VirtualRobot/Workspace/WorkspaceRepresentation.cpp | 5 ++---
 VirtualRobot/XML/FileIO.h                          | 4 ++++
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/VirtualRobot/Workspace/WorkspaceRepresentation.cpp b/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
index dc7bf44..c584a47 100644
--- a/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
+++ b/VirtualRobot/Workspace/WorkspaceRepresentation.cpp
@@ -428,10 +428,9 @@ namespace VirtualRobot
 
                                 if (!readOK || (n != dataSize && n != 0))
                                 {
-                                    VR_ERROR << "Invalid number of bytes?!" << endl;
+                                    delete[] uncompressedData;
                                     bzip2->close();
-                                    file.close();
-                                    return;
+                                    THROW_VR_EXCEPTION("Invalid number of bytes?!");
                                 }
 
                                 if (n == 0) // no data in block
diff --git a/VirtualRobot/XML/FileIO.h b/VirtualRobot/XML/FileIO.h
index 4fcf7cb..6f744a9 100644
--- a/VirtualRobot/XML/FileIO.h
+++ b/VirtualRobot/XML/FileIO.h
@@ -23,6 +23,7 @@
 #pragma once
 
 #include "../VirtualRobot.h"
+#include "../VirtualRobotException.h"
 
 #include <vector>
 #include <fstream>
@@ -37,12 +38,14 @@ namespace VirtualRobot
         {
             T t;
             file.read((char*)&t, sizeof(T));
+            THROW_VR_EXCEPTION_IF(!file, "Unexpected end of file");
             return t;
         }
 
         template<typename T> inline void readArray(T* res, int num, std::ifstream& file)
         {
             file.read((char*)res, num * sizeof(T));
+            THROW_VR_EXCEPTION_IF(!file, "Unexpected end of file");
         }
 
         template<typename T> inline void write(std::ofstream& file, T value)
@@ -76,6 +79,7 @@ namespace VirtualRobot
             data[length] = '\0';
             res = data;
             delete[] data;
+            THROW_VR_EXCEPTION_IF(!file, "Unexpected end of file");
             return true;
         }
 
-- 
2.43.0


From 83577e56bfae87f317a5cb878d0c0f397f1d2772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:28 +0000
Subject: [PATCH 057/217] fix: readPts does not repeat the last point of files
 with trailing white space

---
 VirtualRobot/XML/FileIO.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/VirtualRobot/XML/FileIO.cpp b/VirtualRobot/XML/FileIO.cpp
index 62a61ec..252a453 100644
--- a/VirtualRobot/XML/FileIO.cpp
+++ b/VirtualRobot/XML/FileIO.cpp
@@ -38,6 +38,13 @@ std::vector< Eigen::Vector3f > VirtualRobot::FileIO::readPts(const std::string&
         }
 
         file >> c;
+
+        // e.g. trailing white space
+        if (file.fail())
+        {
+            break;
+        }
+
         v << a, b, c;
         res.push_back(v);
     }
-- 
2.43.0


From 339e69006ed7dfbc1a9e2571e6b8385bea9fabb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:28 +0000
Subject: [PATCH 058/217] fix: reading from compressed data whose end was
 reached gives 0 bytes instead of an error

---
 VirtualRobot/Compression/CompressionBZip2.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/VirtualRobot/Compression/CompressionBZip2.cpp b/VirtualRobot/Compression/CompressionBZip2.cpp
index 74a0604..e004f25 100644
--- a/VirtualRobot/Compression/CompressionBZip2.cpp
+++ b/VirtualRobot/Compression/CompressionBZip2.cpp
@@ -5890,6 +5890,13 @@ return_notr:
             return false;
         }
 
+        // the previous read already reached the end of the data
+        if (currentError == BZ_STREAM_END)
+        {
+            storeLengthRead = 0;
+            return true;
+        }
+
         storeLengthRead = BZ2_bzRead(&currentError, bzFileData, buf, maxLen);
 
         if (currentError < 0) //== BZ_IO_ERROR) {
-- 
2.43.0


From f15638e8025091210e149e08e7f45cb0c9a863e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:30 +0000
Subject: [PATCH 059/217] fix: MathTools::slerp returns all components of the
 interpolated quaternion

---
 VirtualRobot/MathTools.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/VirtualRobot/MathTools.cpp b/VirtualRobot/MathTools.cpp
index 8fe6837..66f14e0 100644
--- a/VirtualRobot/MathTools.cpp
+++ b/VirtualRobot/MathTools.cpp
@@ -1541,8 +1541,8 @@ namespace VirtualRobot
         Eigen::Quaternion<float> eq = eq1.slerp(alpha, eq2);
         MathTools::Quaternion res;
         res.x = eq.x();
-        res.y = eq.z();
-        res.z = eq.x();
+        res.y = eq.y();
+        res.z = eq.z();
         res.w = eq.w();
         return res;
     }
-- 
2.43.0


From 32ed203a32eb9984bceb7af42f0e61e25303fedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:30 +0000
Subject: [PATCH 060/217] fix: MathTools::quat2eigen3f is defined in the
 namespace it is declared in

---
 VirtualRobot/MathTools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/MathTools.cpp b/VirtualRobot/MathTools.cpp
index 66f14e0..9777fab 100644
--- a/VirtualRobot/MathTools.cpp
+++ b/VirtualRobot/MathTools.cpp
@@ -757,7 +757,7 @@ namespace VirtualRobot
     }
 
 
-    Eigen::Matrix3f VIRTUAL_ROBOT_IMPORT_EXPORT quat2eigen3f(float qx, float qy, float qz, float qw)
+    Eigen::Matrix3f VIRTUAL_ROBOT_IMPORT_EXPORT MathTools::quat2eigen3f(float qx, float qy, float qz, float qw)
     {
         return Eigen::Quaternionf{qw, qx, qy, qz}.toRotationMatrix();
     }
-- 
2.43.0


From b4963dd14763b0131e928b6235ddadff9cbb14f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:30 +0000
Subject: [PATCH 061/217] fix: eigen4f2rpy is accurate close to a pitch of 90
 degrees

---
 VirtualRobot/MathTools.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/VirtualRobot/MathTools.cpp b/VirtualRobot/MathTools.cpp
index 9777fab..1fa88be 100644
--- a/VirtualRobot/MathTools.cpp
+++ b/VirtualRobot/MathTools.cpp
@@ -215,7 +215,10 @@ namespace VirtualRobot
         {
             float cb = 1.0f / cosf(beta);
             alpha = std::atan2(m(1, 0) * cb, m(0, 0) * cb);
-            gamma = std::atan2(m(2, 1) * cb, m(2, 2) * cb);
+            // consistent with alpha, also close to beta = +-PI/2 (where m(2,1) and m(2,2) get small)
+            float salpha = sinf(alpha);
+            float calpha = cosf(alpha);
+            gamma = std::atan2(salpha * m(0, 2) - calpha * m(1, 2), calpha * m(1, 1) - salpha * m(0, 1));
         }
 
         x[0] = m(0, 3);
-- 
2.43.0


From 7f006fff0e525f84981fcb487c601436e228df07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:30 +0000
Subject: [PATCH 062/217] fix: MathTools::getRotation is accurate for nearly
 opposite vectors

---
 VirtualRobot/MathTools.cpp | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/VirtualRobot/MathTools.cpp b/VirtualRobot/MathTools.cpp
index 1fa88be..ab4f3a2 100644
--- a/VirtualRobot/MathTools.cpp
+++ b/VirtualRobot/MathTools.cpp
@@ -619,21 +619,22 @@ namespace VirtualRobot
 
     MathTools::Quaternion MathTools::getRotation(const Eigen::Vector3f& from, const Eigen::Vector3f& to)
     {
-        Eigen::Vector3f fromN = from;
+        // double precision, since the cross product of nearly (anti-)parallel vectors is very small
+        Eigen::Vector3d fromN = from.cast<double>();
         fromN.normalize();
-        Eigen::Vector3f toN = to;
+        Eigen::Vector3d toN = to.cast<double>();
         toN.normalize();
 
         // rotation of the plane
-        float d = fromN.dot(toN);
-        Eigen::Vector3f crossvec = fromN.cross(toN);
-        float crosslen = crossvec.norm();
+        double d = fromN.dot(toN);
+        Eigen::Vector3d crossvec = fromN.cross(toN);
+        double crosslen = crossvec.norm();
         MathTools::Quaternion quat;
 
-        if (crosslen == 0.0f)
+        if (crosslen < 1e-12)
         {
             // Parallel vectors
-            if (d > 0.0f)
+            if (d > 0.0)
             {
                 // same direction->nothing to do
             }
@@ -641,12 +642,12 @@ namespace VirtualRobot
             {
                 // parallel and pointing in opposite direction
                 // crossing with x axis.
-                Eigen::Vector3f t = fromN.cross(Eigen::Vector3f(1.0f, 0.0f, 0.0f));
+                Eigen::Vector3d t = fromN.cross(Eigen::Vector3d(1.0, 0.0, 0.0));
 
                 // no->cross with y axis.
-                if (t.norm() == 0.0f)
+                if (t.norm() < 1e-6)
                 {
-                    t = fromN.cross(Eigen::Vector3f(0.0f, 1.0f, 0.0f));
+                    t = fromN.cross(Eigen::Vector3d(0.0, 1.0, 0.0));
                 }
 
                 t.normalize();
@@ -661,11 +662,11 @@ namespace VirtualRobot
             // not parallel
             crossvec.normalize();
             // The abs() wrapping is to avoid problems when d overflows
-            crossvec *= std::sqrt(0.5f * std::abs(1.0f - d));
+            crossvec *= std::sqrt(0.5 * std::abs(1.0 - d));
             quat.x = crossvec[0];
             quat.y = crossvec[1];
             quat.z = crossvec[2];
-            quat.w = std::sqrt(0.5f * std::abs(1.f + d));
+            quat.w = std::sqrt(0.5 * std::abs(1.0 + d));
         }
 
         return quat;
-- 
2.43.0


From dd2e553bb3b7af553c66a2dbe62eceab13c7eb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:10 +0000
Subject: [PATCH 063/217] fix: projectPointToPlane2D is the inverse of
 planePoint3D for planes that are tilted and not at the origin

---
 VirtualRobot/MathTools.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/VirtualRobot/MathTools.cpp b/VirtualRobot/MathTools.cpp
index ab4f3a2..5a2c361 100644
--- a/VirtualRobot/MathTools.cpp
+++ b/VirtualRobot/MathTools.cpp
@@ -703,11 +703,9 @@ namespace VirtualRobot
         Quaternion quat = getRotation(plane.n, normalUp);
 
         Eigen::Matrix4f rotationMatrix = quat2eigen4f(quat);
-        rotationMatrix(0, 3) = -plane.p(0);
-        rotationMatrix(1, 3) = -plane.p(1);
-        rotationMatrix(2, 3) = -plane.p(2);
 
-        // transform point
+        // transform point (inverse of planePoint3D)
+        ptPlane -= plane.p;
         Eigen::Vector4f pt4(ptPlane(0), ptPlane(1), ptPlane(2), 1.0f);
         pt4 = rotationMatrix * pt4;
 
-- 
2.43.0


From 71845191ec7b621cb14d9da575fa421af7ee088f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:10 +0000
Subject: [PATCH 064/217] fix: intersectPlanes detects parallel planes with
 opposite normals

---
 VirtualRobot/MathTools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/MathTools.cpp b/VirtualRobot/MathTools.cpp
index 5a2c361..143b4f6 100644
--- a/VirtualRobot/MathTools.cpp
+++ b/VirtualRobot/MathTools.cpp
@@ -1591,7 +1591,7 @@ namespace VirtualRobot
 
         float dotpr = p1.n.dot(p2.n);
 
-        if (std::abs(dotpr - 1.0f) < 1.e-6f)
+        if (std::abs(std::abs(dotpr) - 1.0f) < 1.e-6f)
         {
             // planes are parallel
             MathTools::Line l(Eigen::Vector3f(0, 0, 0), Eigen::Vector3f(0, 0, 0));
-- 
2.43.0


From b0af54fd0af8e84e7abad5cba4557708ac9baa91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:10 +0000
Subject: [PATCH 065/217] fix: getTriangleArea is not NaN for collinear points

---
 VirtualRobot/MathTools.cpp | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/VirtualRobot/MathTools.cpp b/VirtualRobot/MathTools.cpp
index 143b4f6..a6a9772 100644
--- a/VirtualRobot/MathTools.cpp
+++ b/VirtualRobot/MathTools.cpp
@@ -2124,16 +2124,8 @@ namespace VirtualRobot
         
         if (abNorm <= 0 || acNorm <= 0) return 0;  // collapsed triangle
         
-        // alpha := angle at a, i.e. between ab and ac
-        // => cos(alpha) = ab * ac
-        // => sin(alpha) = sqrt( 1 - cos(alpha)^2 )
-        float cos_alpha = (ab / abNorm).dot(ac / acNorm);
-        float sin_alpha = std::sqrt(1 - cos_alpha * cos_alpha);
-        
-        // area = 1/2 * sin(alpha) * |ab| * |ac|
-        // (where sin(alpha) * |ab| = distance of b to |ac|)
-        float area = 0.5f * sin_alpha * abNorm * acNorm;
-        return area;
+        // area = 1/2 * sin(alpha) * |ab| * |ac|, where alpha is the angle at a
+        return 0.5f * ab.cross(ac).norm();
     }
 
 
-- 
2.43.0


From 4465cf4a01b633511964371b4f96c76c7eff9800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:16 +0000
Subject: [PATCH 066/217] fix: GramSchmidt returns an orthonormal basis for
 orthogonal, repeated and higher-dimensional input

---
 VirtualRobot/MathTools.cpp | 50 ++++++++------------------------------
 1 file changed, 10 insertions(+), 40 deletions(-)

diff --git a/VirtualRobot/MathTools.cpp b/VirtualRobot/MathTools.cpp
index a6a9772..57415af 100644
--- a/VirtualRobot/MathTools.cpp
+++ b/VirtualRobot/MathTools.cpp
@@ -1050,7 +1050,9 @@ namespace VirtualRobot
             // remain order of basis vectors
             for (size_t i = 0; i < dim; i++)
             {
-                if (containsVector(basisVectors, basis[i]))
+                bool repeated = std::find(basis.begin(), basis.begin() + i, basis[i]) != basis.begin() + i;
+
+                if (!repeated && containsVector(basisVectors, basis[i]))
                 {
                     tmpBasisV.push_back(basis[i]);
                 }
@@ -1127,51 +1129,19 @@ namespace VirtualRobot
             }
         }*/
 
-        // check with which basis vector we must start
-
-        // norm the first vector
-        basis[0].normalize();
-        std::size_t startWith = 0;
-		size_t pos = 1;
-
-        while (pos < dim)
+        for (size_t i = 0; i < dim; i++) // each basis vector
         {
-            for (size_t i = 0; i < pos; i++)
+            for (size_t j = 0; j < i; j++) // subtract scalar products of former basises
             {
-                if (basis[i].dot(basis[pos]) != 0)
-                {
-                    startWith = pos;
-                    pos = dim + 1; // end loop
-                    break;
-                }
+                basis[i] -= basis[i].dot(basis[j]) * basis[j];
             }
 
-            pos++;
-        }
-
-        if (startWith == 0)
-        {
-            // nothing to do
-            return true;
-        }
-
-
-        float scPr;
-
-        for (size_t i = startWith; i < dim; i++) // each basis vector
-        {
-            // store original vector
-            Eigen::Vector3f tmp = basis[i];
+            basis[i].normalize();
 
-            for (size_t j = 0; j < i; j++) // subtract scalar products of former basises
+            // once more, since the first pass is inaccurate for nearly dependent vectors
+            for (size_t j = 0; j < i; j++)
             {
-                // create scalar product
-                scPr = tmp.dot(basis[j]);
-                basis[i] -= scPr * basis[j];
-                /*for (k=0;k<dim;k++) // each entry in vector
-                {
-                    basis[i][k] -= scPr*basis[j][k];
-                }*/
+                basis[i] -= basis[i].dot(basis[j]) * basis[j];
             }
 
             basis[i].normalize();
-- 
2.43.0


From 1ca64bfc30d35c0e39bcff0c0010e3215fc57b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:18 +0000
Subject: [PATCH 067/217] fix: LimitVectorLength shortens vectors that are too
 long

---
 VirtualRobot/math/Helpers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/math/Helpers.cpp b/VirtualRobot/math/Helpers.cpp
index 59a264a..64b2d9d 100644
--- a/VirtualRobot/math/Helpers.cpp
+++ b/VirtualRobot/math/Helpers.cpp
@@ -343,7 +343,7 @@ Eigen::VectorXf Helpers::LimitVectorLength(const Eigen::VectorXf& vec, const Eig
             scale = std::min(scale, maxLen(j) / std::abs(vec(i)));
         }
     }
-    return vec / scale;
+    return vec * scale;
 }
 
 Eigen::AngleAxisf Helpers::GetAngleAxisFromTo(const Eigen::Matrix3f& start, const Eigen::Matrix3f& target)
-- 
2.43.0


From 201b0b5fde4270d90782a0f096c6a51b2ff413f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:18 +0000
Subject: [PATCH 068/217] fix: WeightedVec3Average starts from zero

---
 VirtualRobot/math/WeightedAverage.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/math/WeightedAverage.h b/VirtualRobot/math/WeightedAverage.h
index e85f442..a25f9b4 100644
--- a/VirtualRobot/math/WeightedAverage.h
+++ b/VirtualRobot/math/WeightedAverage.h
@@ -45,7 +45,7 @@ namespace math
         Eigen::Vector3f Average();
         float WeightSum();
     private:
-        Eigen::Vector3f sum;
+        Eigen::Vector3f sum = Eigen::Vector3f::Zero();
         float weightSum = 0;
     };
 }
-- 
2.43.0


From e9ad0d6baa91d82a6aaa7d44682ee5a7afe4bd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:18 +0000
Subject: [PATCH 069/217] fix: unclamped ClampedNormalDistribution includes
 negative numbers

---
 VirtualRobot/math/ClampedNormalDistribution.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/VirtualRobot/math/ClampedNormalDistribution.hpp b/VirtualRobot/math/ClampedNormalDistribution.hpp
index b5c4403..090cc75 100644
--- a/VirtualRobot/math/ClampedNormalDistribution.hpp
+++ b/VirtualRobot/math/ClampedNormalDistribution.hpp
@@ -39,7 +39,7 @@ namespace VirtualRobot
         /// Construct an unclamped normal distribution with given mean and standard deviation.
         static ClampedNormalDistribution Unclamped(RealType mean = 0, RealType stddev = 1)
         {
-            return ClampedNormalDistribution(mean, stddev, std::numeric_limits<RealType>::min(),
+            return ClampedNormalDistribution(mean, stddev, std::numeric_limits<RealType>::lowest(),
                                              std::numeric_limits<RealType>::max());
         }
     
@@ -117,7 +117,7 @@ namespace VirtualRobot
         std::normal_distribution<RealType> _distrib {0, 1};
     
         /// The lower bound.
-        RealType _min = std::numeric_limits<RealType>::min();
+        RealType _min = std::numeric_limits<RealType>::lowest();
         /// The upper bound.
         RealType _max = std::numeric_limits<RealType>::max();
     
-- 
2.43.0


From 2fd61a04ca7e1adaaec9ca4633f950314c855a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:38 +0000
Subject: [PATCH 070/217] fix: Histogram counts values below the minimum in the
 first bin

---
 VirtualRobot/math/Histogram.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/VirtualRobot/math/Histogram.cpp b/VirtualRobot/math/Histogram.cpp
index 3ec3cd1..ddcfa18 100644
--- a/VirtualRobot/math/Histogram.cpp
+++ b/VirtualRobot/math/Histogram.cpp
@@ -32,11 +32,19 @@ std::size_t Histogram::valueToIndex(float value) const
 {
     // normalized = 0..1
     float normalized = (value - min) / (max - min);
-    std::size_t index = static_cast<std::size_t>(normalized * getNumberOfBins());
+    float position = normalized * getNumberOfBins();
 
     // avoid out-of-bounce errors
     // (if histogram is falsely used, this could lead to peaks at the edges)
-    return std::max(std::size_t(0), std::min(getNumberOfBins() - 1, index));
+    if (!(position > 0))
+    {
+        return 0;
+    }
+    if (position >= static_cast<float>(getNumberOfBins()))
+    {
+        return getNumberOfBins() - 1;
+    }
+    return std::min(getNumberOfBins() - 1, static_cast<std::size_t>(position));
 }
 
 float Histogram::indexToValue(std::size_t index) const
-- 
2.43.0


From f6341f3adc368124bce85d42034513a1f0b227a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:38 +0000
Subject: [PATCH 071/217] fix: Histogram bin values are bin centers,
 getMinBinValue belongs to the emptiest bin

---
 VirtualRobot/math/Histogram.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/VirtualRobot/math/Histogram.cpp b/VirtualRobot/math/Histogram.cpp
index ddcfa18..6922515 100644
--- a/VirtualRobot/math/Histogram.cpp
+++ b/VirtualRobot/math/Histogram.cpp
@@ -49,7 +49,7 @@ std::size_t Histogram::valueToIndex(float value) const
 
 float Histogram::indexToValue(std::size_t index) const
 {
-    float normalized = static_cast<float>(index) / getNumberOfBins();
+    float normalized = (static_cast<float>(index) + 0.5f) / getNumberOfBins();
     float value = normalized * (max - min) + min;
     return value;
 }
@@ -114,7 +114,7 @@ std::size_t Histogram::getMinBinIndex() const
 
 float Histogram::getMinBinValue() const
 {
-    return indexToValue(getMaxBinIndex());
+    return indexToValue(getMinBinIndex());
 }
 
 std::size_t Histogram::getMaxBinIndex() const
-- 
2.43.0


From 5b54df4a2fd930c20a39ee0bbd7fef0931f5fcf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:38 +0000
Subject: [PATCH 072/217] fix: Histogram::applyMedianFilter handles the lower
 border

---
 VirtualRobot/math/Histogram.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/math/Histogram.cpp b/VirtualRobot/math/Histogram.cpp
index 6922515..b5e8310 100644
--- a/VirtualRobot/math/Histogram.cpp
+++ b/VirtualRobot/math/Histogram.cpp
@@ -136,7 +136,7 @@ void Histogram::applyMedianFilter(std::size_t size)
     for (std::size_t index = 0; index < bins.size(); index++)
     {
         // handle cases at borders
-        std::size_t beginIndex = std::max(index - size, std::size_t(0));
+        std::size_t beginIndex = index > size ? index - size : 0;
         std::size_t endIndex   = std::min(index + size + 1, bins.size());
         std::size_t num = endIndex - beginIndex; // common case: num == 2*size+1
 
-- 
2.43.0


From 417ad36e56451f742cef71e3e46c35aff3c1d561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:38 +0000
Subject: [PATCH 073/217] fix: LinearInterpolatedOrientation interpolates slow
 and small rotations, too

---
 VirtualRobot/math/LinearInterpolatedOrientation.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/VirtualRobot/math/LinearInterpolatedOrientation.cpp b/VirtualRobot/math/LinearInterpolatedOrientation.cpp
index ffea50c..ee2923a 100644
--- a/VirtualRobot/math/LinearInterpolatedOrientation.cpp
+++ b/VirtualRobot/math/LinearInterpolatedOrientation.cpp
@@ -32,7 +32,7 @@ LinearInterpolatedOrientation::LinearInterpolatedOrientation(const Eigen::Quater
     Eigen::AngleAxisf aa(endOri * startOri.inverse());
     angle = Helpers::AngleModPI(aa.angle());
     axis = aa.axis();
-    Eigen::Vector3f oriDelta = fabs(angle) < 0.01 ? Eigen::Vector3f::Zero() : Eigen::Vector3f(aa.axis() * angle);
+    Eigen::Vector3f oriDelta = axis * angle;
 
     derivative = oriDelta / (endT - startT);
 }
@@ -45,7 +45,7 @@ LinearInterpolatedOrientation::LinearInterpolatedOrientation(const Eigen::Matrix
 
 Eigen::Quaternionf math::LinearInterpolatedOrientation::Get(float t)
 {
-    if(derivative.squaredNorm() < 0.001)
+    if(startT == endT || angle == 0)
     {
         return startOri;
     }
-- 
2.43.0


From 5ea0dd0c0b14c26eccbf4f218eca13d444c1d65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:45 +0000
Subject: [PATCH 074/217] fix: ImplicitPlane::GetSignedDistance uses ax + by +
 cz = d

---
 VirtualRobot/math/ImplicitPlane.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/math/ImplicitPlane.cpp b/VirtualRobot/math/ImplicitPlane.cpp
index 34890df..888bbf2 100644
--- a/VirtualRobot/math/ImplicitPlane.cpp
+++ b/VirtualRobot/math/ImplicitPlane.cpp
@@ -68,7 +68,7 @@ ImplicitPlane ImplicitPlane::FromContact(Contact c)
 
 float ImplicitPlane::GetSignedDistance(const Eigen::Vector3f &p)
 {
-    return GetNormal().dot(p) + d;
+    return GetNormal().dot(p) - d;
 }
 
 Line ImplicitPlane::Intersect(Plane plane)
-- 
2.43.0


From 525bb80f54ad817c369ed53220fd87d1fb5265c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:45 +0000
Subject: [PATCH 075/217] fix: second derivatives of WilliamsMinusKernel

---
 VirtualRobot/math/Kernels.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/VirtualRobot/math/Kernels.cpp b/VirtualRobot/math/Kernels.cpp
index fea8cf2..6d87f01 100644
--- a/VirtualRobot/math/Kernels.cpp
+++ b/VirtualRobot/math/Kernels.cpp
@@ -148,12 +148,12 @@ float WilliamsMinusKernel::Kernel_dx(float x, float /*y*/, float /*z*/, float r,
 
 float WilliamsMinusKernel::Kernel_ddx(float x, float /*y*/, float /*z*/, float r, float R) const
 {
-    if (r == 0) return 6 * R;
-    return -6 * (r - R) + 6 * x * x / r;
+    if (r == 0) return -6 * R;
+    return 6 * (r - R) + 6 * x * x / r;
 }
 
 float WilliamsMinusKernel::Kernel_dxdy(float x, float y, float /*z*/, float r, float /*R*/) const
 {
     if (r == 0) return 0;
-    return -6 * x * y / r;
+    return 6 * x * y / r;
 }
-- 
2.43.0


From 12bf8d1959a5df8fbcc4dc7c6d2996cc61f1f4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:45 +0000
Subject: [PATCH 076/217] fix: Gaussian implicit surfaces apply the normal
 scale

---
 VirtualRobot/math/GaussianImplicitSurface3DCombined.cpp | 6 +++---
 VirtualRobot/math/GaussianImplicitSurface3DNormals.cpp  | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/VirtualRobot/math/GaussianImplicitSurface3DCombined.cpp b/VirtualRobot/math/GaussianImplicitSurface3DCombined.cpp
index b234a53..84f1820 100644
--- a/VirtualRobot/math/GaussianImplicitSurface3DCombined.cpp
+++ b/VirtualRobot/math/GaussianImplicitSurface3DCombined.cpp
@@ -82,9 +82,9 @@ void GaussianImplicitSurface3DCombined::Calculate(const ContactList& normalSampl
     for (size_t i = 0; i < normalSamples.size(); i++)
     {
          y(samples.size() + i * 4) = 0;
-         y(samples.size() + i * 4 + 1) = normalSamples[i].Normal().x();
-         y(samples.size() + i * 4 + 2) = normalSamples[i].Normal().y();
-         y(samples.size() + i * 4 + 3) = normalSamples[i].Normal().z();
+         y(samples.size() + i * 4 + 1) = shiftedNormalSamples[i].Normal().x();
+         y(samples.size() + i * 4 + 2) = shiftedNormalSamples[i].Normal().y();
+         y(samples.size() + i * 4 + 3) = shiftedNormalSamples[i].Normal().z();
     }
 
     MatrixInvert(y);
diff --git a/VirtualRobot/math/GaussianImplicitSurface3DNormals.cpp b/VirtualRobot/math/GaussianImplicitSurface3DNormals.cpp
index fe2b6af..e3b9e5e 100644
--- a/VirtualRobot/math/GaussianImplicitSurface3DNormals.cpp
+++ b/VirtualRobot/math/GaussianImplicitSurface3DNormals.cpp
@@ -54,9 +54,9 @@ void GaussianImplicitSurface3DNormals::Calculate(const ContactList& samples, flo
     for (unsigned int i = 0; i < samples.size(); i++)
     {
          values(i * 4) = 0;
-         values(i * 4 + 1) = samples.at(i).Normal().x();
-         values(i * 4 + 2) = samples.at(i).Normal().y();
-         values(i * 4 + 3) = samples.at(i).Normal().z();
+         values(i * 4 + 1) = shiftedSamples.at(i).Normal().x();
+         values(i * 4 + 2) = shiftedSamples.at(i).Normal().y();
+         values(i * 4 + 3) = shiftedSamples.at(i).Normal().z();
     }
 
     MatrixInvert(values);
-- 
2.43.0


From 55694c56a201ae2ac3cba7321467884d2129f440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:45 +0000
Subject: [PATCH 077/217] fix: Gaussian implicit surface with normals applies
 the noise to all observations

---
 VirtualRobot/math/GaussianImplicitSurface3DNormals.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/math/GaussianImplicitSurface3DNormals.cpp b/VirtualRobot/math/GaussianImplicitSurface3DNormals.cpp
index e3b9e5e..a8dae32 100644
--- a/VirtualRobot/math/GaussianImplicitSurface3DNormals.cpp
+++ b/VirtualRobot/math/GaussianImplicitSurface3DNormals.cpp
@@ -111,7 +111,7 @@ void GaussianImplicitSurface3DNormals::CalculateCovariance(const std::vector<Eig
         }
     }
 
-    for (size_t i = 0; i < points.size(); i++)
+    for (size_t i = 0; i < points.size() * 4; i++)
     {
          covariance(i, i) += i % 4 == 0 ? noise*noise : normalNoise*normalNoise;
     }
-- 
2.43.0


From b6469173a1836916af907836eae9a8245504f0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:46 +0000
Subject: [PATCH 078/217] fix: combined Gaussian implicit surface applies the
 noise to all contact observations

---
 VirtualRobot/math/GaussianImplicitSurface3DCombined.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/VirtualRobot/math/GaussianImplicitSurface3DCombined.cpp b/VirtualRobot/math/GaussianImplicitSurface3DCombined.cpp
index 84f1820..2dcdb12 100644
--- a/VirtualRobot/math/GaussianImplicitSurface3DCombined.cpp
+++ b/VirtualRobot/math/GaussianImplicitSurface3DCombined.cpp
@@ -168,10 +168,9 @@ void GaussianImplicitSurface3DCombined::CalculateCovariance(const std::vector<Ei
     }
 
     // Noise for Points + Normal
-    for (size_t i = 0; i < normalPoints.size(); i++)
+    for (size_t i = 0; i < normalPoints.size() * 4; i++)
     {
-        // TODO: fix normalNoise
-        covariance(points.size() + i, points.size() + i) += (i % 4 == 0 ? normalNoise*normalNoise : normalNoise*normalNoise);
+        covariance(points.size() + i, points.size() + i) += normalNoise*normalNoise;
     }
 }
 
-- 
2.43.0


From 91273100556458ac95cdd83f97a1fc2d085ff111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:15 +0000
Subject: [PATCH 079/217] fix: Helpers::GetRotationMatrix is accurate for
 nearly opposite vectors

---
 VirtualRobot/math/Helpers.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/VirtualRobot/math/Helpers.cpp b/VirtualRobot/math/Helpers.cpp
index 64b2d9d..30899d4 100644
--- a/VirtualRobot/math/Helpers.cpp
+++ b/VirtualRobot/math/Helpers.cpp
@@ -233,7 +233,9 @@ void Helpers::InvertPose(Eigen::Matrix4f& pose)
 Eigen::Matrix3f Helpers::GetRotationMatrix(const Eigen::Vector3f& source, const Eigen::Vector3f& target)
 {
     // no normalization needed
-    return Eigen::Quaternionf::FromTwoVectors(source, target).toRotationMatrix();
+    // (double precision, as float results are no rotations for nearly opposite vectors)
+    return Eigen::Quaterniond::FromTwoVectors(source.cast<double>(), target.cast<double>())
+            .toRotationMatrix().cast<float>();
 }
 
 Eigen::Vector3f Helpers::CreateVectorFromCylinderCoords(float r, float angle, float z)
-- 
2.43.0


From dbade622268ceb7337cabb3a994775a491e09f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:50 +0000
Subject: [PATCH 080/217] fix: GaussianObjectModelNormals does not keep the
 auxiliary contact

---
 VirtualRobot/math/GaussianObjectModelNormals.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/VirtualRobot/math/GaussianObjectModelNormals.cpp b/VirtualRobot/math/GaussianObjectModelNormals.cpp
index 2ec6e19..f7b7b22 100644
--- a/VirtualRobot/math/GaussianObjectModelNormals.cpp
+++ b/VirtualRobot/math/GaussianObjectModelNormals.cpp
@@ -40,12 +40,13 @@ void GaussianObjectModelNormals::AddContact(Contact contact)
 void GaussianObjectModelNormals::Update()
 {
     std::cout<<"contacts"<<contacts->size()<<std::endl;
-    if(contacts->size()==1){
-        Contact c = contacts->at(0);
+    ContactList samples = *contacts;
+    if(samples.size()==1){
+        Contact c = samples.at(0);
         Eigen::Vector3f dir1, dir2;
-        contacts->push_back(Contact(c.Position()+Helpers::GetOrthonormalVectors(c.Normal(),dir1,dir2),c.Normal()));
+        samples.push_back(Contact(c.Position()+Helpers::GetOrthonormalVectors(c.Normal(),dir1,dir2),c.Normal()));
     }
-    gpModel->Calculate(*contacts,noise,normalNoise,normalScale);
+    gpModel->Calculate(samples,noise,normalNoise,normalScale);
 }
 
 std::vector<float> GaussianObjectModelNormals::GetContactWeights()
-- 
2.43.0


From c40f7276eb597b113f63200d256a6722c0c5f1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:32 +0000
Subject: [PATCH 081/217] fix: flipping a face keeps the colors and normals of
 its corners

---
 VirtualRobot/MathTools.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/VirtualRobot/MathTools.h b/VirtualRobot/MathTools.h
index 0a41d8c..a61ab23 100644
--- a/VirtualRobot/MathTools.h
+++ b/VirtualRobot/MathTools.h
@@ -411,6 +411,8 @@ namespace VirtualRobot
             void flipOrientation()
             {
                 std::swap(id3, id1);
+                std::swap(idColor3, idColor1);
+                std::swap(idNormal3, idNormal1);
                 normal *= -1.0f;
             }
             void set(unsigned int id1, unsigned int id2, unsigned int id3)
-- 
2.43.0


From 43cb2a90bcce605917f12f9976d0f02a2c7c8368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:32 +0000
Subject: [PATCH 082/217] fix: flipVertexOrientations flips the vertex normals

---
 VirtualRobot/Visualization/TriMeshModel.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/VirtualRobot/Visualization/TriMeshModel.cpp b/VirtualRobot/Visualization/TriMeshModel.cpp
index 9bd5980..96b4127 100644
--- a/VirtualRobot/Visualization/TriMeshModel.cpp
+++ b/VirtualRobot/Visualization/TriMeshModel.cpp
@@ -340,6 +340,11 @@ namespace VirtualRobot
     void TriMeshModel::flipVertexOrientations()
     {
         std::for_each(faces.begin(), faces.end(), std::mem_fun_ref(&MathTools::TriangleFace::flipOrientation));
+
+        for (auto& normal : normals)
+        {
+            normal *= -1.0f;
+        }
     }
 
 
-- 
2.43.0


From a4032583571c079cfd0e55f0332f1e1b4d2e3345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:32 +0000
Subject: [PATCH 083/217] fix: initialize the normal of triangle faces

---
 VirtualRobot/MathTools.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/MathTools.h b/VirtualRobot/MathTools.h
index a61ab23..d20f695 100644
--- a/VirtualRobot/MathTools.h
+++ b/VirtualRobot/MathTools.h
@@ -403,7 +403,7 @@ namespace VirtualRobot
                 : id1(UINT_MAX), id2(UINT_MAX), id3(UINT_MAX),
                   idColor1(UINT_MAX), idColor2(UINT_MAX), idColor3(UINT_MAX),
                   idNormal1(UINT_MAX), idNormal2(UINT_MAX), idNormal3(UINT_MAX),
-                  idMaterial(UINT_MAX) {}
+                  idMaterial(UINT_MAX), normal(Eigen::Vector3f::Zero()) {}
 
             /**
              * Flips the orientation of the contained vertex and the normal.
-- 
2.43.0


From 9208258e8ef9110b63282cc5063b201d93d429ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:32 +0000
Subject: [PATCH 084/217] fix: TriMeshModel::clear removes the normals

---
 VirtualRobot/Visualization/TriMeshModel.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/VirtualRobot/Visualization/TriMeshModel.cpp b/VirtualRobot/Visualization/TriMeshModel.cpp
index 96b4127..11d6817 100644
--- a/VirtualRobot/Visualization/TriMeshModel.cpp
+++ b/VirtualRobot/Visualization/TriMeshModel.cpp
@@ -232,6 +232,7 @@ namespace VirtualRobot
         vertices.clear();
         colors.clear();
         faces.clear();
+        normals.clear();
         materials.clear();
         boundingBox.clear();
     }
-- 
2.43.0


From 61d1939c919824eab39e0d0e0753abe2b81680f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:32 +0000
Subject: [PATCH 085/217] fix: addMissingNormals adds the normals of partially
 specified faces

---
 VirtualRobot/Visualization/TriMeshModel.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/VirtualRobot/Visualization/TriMeshModel.cpp b/VirtualRobot/Visualization/TriMeshModel.cpp
index 11d6817..532cf83 100644
--- a/VirtualRobot/Visualization/TriMeshModel.cpp
+++ b/VirtualRobot/Visualization/TriMeshModel.cpp
@@ -259,7 +259,7 @@ namespace VirtualRobot
             }
             if(face.idNormal2 == UINT_MAX)
             {
-                if(normalId == UINT_MAX)
+                if(normalId != UINT_MAX)
                     face.idNormal2 = normalId;
                 else
                 {
@@ -269,7 +269,7 @@ namespace VirtualRobot
             }
             if(face.idNormal3 == UINT_MAX)
             {
-                if(normalId == UINT_MAX)
+                if(normalId != UINT_MAX)
                     face.idNormal3 = normalId;
                 else
                 {
-- 
2.43.0


From 0266ce18944ebf487d0ce8233cfc44119f2a0e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:32 +0000
Subject: [PATCH 086/217] fix: addMesh accepts faces without colors

---
 VirtualRobot/Visualization/TriMeshModel.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/VirtualRobot/Visualization/TriMeshModel.cpp b/VirtualRobot/Visualization/TriMeshModel.cpp
index 532cf83..3804992 100644
--- a/VirtualRobot/Visualization/TriMeshModel.cpp
+++ b/VirtualRobot/Visualization/TriMeshModel.cpp
@@ -106,10 +106,14 @@ namespace VirtualRobot
 
     void TriMeshModel::addMesh(const TriMeshModel &mesh)
     {
+        auto getColor = [&mesh](unsigned int colorId)
+        {
+            return colorId == UINT_MAX ? VisualizationFactory::Color::Gray() : mesh.colors.at(colorId);
+        };
         for(const auto& face : mesh.faces)
         {
             addTriangleWithFace(mesh.vertices.at(face.id1), mesh.vertices.at(face.id2), mesh.vertices.at(face.id3),
-                                face.normal, mesh.colors.at(face.idColor1), mesh.colors.at(face.idColor2), mesh.colors.at(face.idColor3));
+                                face.normal, getColor(face.idColor1), getColor(face.idColor2), getColor(face.idColor3));
         }
 //        VR_INFO << " size after : " << vertices.size() << std::endl;
     }
-- 
2.43.0


From b2e6b593c7d8430522b47d431fe1d3ecf0f42e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:32 +0000
Subject: [PATCH 087/217] fix: removeUnusedVertices updates the bounding box

---
 VirtualRobot/Visualization/TriMeshModel.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/VirtualRobot/Visualization/TriMeshModel.cpp b/VirtualRobot/Visualization/TriMeshModel.cpp
index 3804992..6bbc094 100644
--- a/VirtualRobot/Visualization/TriMeshModel.cpp
+++ b/VirtualRobot/Visualization/TriMeshModel.cpp
@@ -512,6 +512,8 @@ namespace VirtualRobot
         size_t removed = vertices.size() - newVertices.size();
 
         vertices.swap(newVertices);
+        boundingBox.clear();
+        boundingBox.addPoints(vertices);
         return removed;
     }
     
-- 
2.43.0


From 180c14dbd20728120d290e29573b6e0b502023b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:32 +0000
Subject: [PATCH 088/217] fix: setColor keeps the colors the faces refer to

---
 VirtualRobot/Visualization/TriMeshModel.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/VirtualRobot/Visualization/TriMeshModel.cpp b/VirtualRobot/Visualization/TriMeshModel.cpp
index 6bbc094..d7fb1b9 100644
--- a/VirtualRobot/Visualization/TriMeshModel.cpp
+++ b/VirtualRobot/Visualization/TriMeshModel.cpp
@@ -616,8 +616,10 @@ namespace VirtualRobot
 
     void TriMeshModel::setColor(VisualizationFactory::Color color)
     {
+        // faces may refer to any of the existing entries
+        const size_t size = std::max(colors.size(), vertices.size());
         colors.clear();
-        for (size_t i=0; i<vertices.size(); i++)
+        for (size_t i = 0; i < size; i++)
             colors.push_back(color);
     }
 
-- 
2.43.0


From 9f0f21b461397a8710a3bb2af4feccc04f5a210a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:32 +0000
Subject: [PATCH 089/217] fix: scale bounding boxes with negative factors

---
 VirtualRobot/BoundingBox.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/VirtualRobot/BoundingBox.cpp b/VirtualRobot/BoundingBox.cpp
index 1af12ff..bfe5872 100644
--- a/VirtualRobot/BoundingBox.cpp
+++ b/VirtualRobot/BoundingBox.cpp
@@ -188,6 +188,11 @@ namespace VirtualRobot
         {
             min(i) *= scaleFactor(i);
             max(i) *= scaleFactor(i);
+
+            if (min(i) > max(i))
+            {
+                std::swap(min(i), max(i));
+            }
         }
     }
 
-- 
2.43.0


From e23c8fdf2d254ab83ee2e4fba6ff462bfd147a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:33 +0000
Subject: [PATCH 090/217] fix: adapt the normals when a mesh is scaled
 anisotropically

---
 VirtualRobot/Visualization/TriMeshModel.cpp | 24 +++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/VirtualRobot/Visualization/TriMeshModel.cpp b/VirtualRobot/Visualization/TriMeshModel.cpp
index d7fb1b9..72dc3c9 100644
--- a/VirtualRobot/Visualization/TriMeshModel.cpp
+++ b/VirtualRobot/Visualization/TriMeshModel.cpp
@@ -871,6 +871,30 @@ namespace VirtualRobot
             }
         }
 
+        if ((scaleFactor(0) != scaleFactor(1) || scaleFactor(1) != scaleFactor(2)) && (scaleFactor.array() != 0.0f).all())
+        {
+            // normals stay perpendicular to the surface
+            auto scaleNormal = [&scaleFactor](Eigen::Vector3f& normal)
+            {
+                const Eigen::Vector3f scaled = normal.cwiseQuotient(scaleFactor);
+
+                if (scaled.norm() > 0)
+                {
+                    normal = scaled * (normal.norm() / scaled.norm());
+                }
+            };
+
+            for (auto& face : faces)
+            {
+                scaleNormal(face.normal);
+            }
+
+            for (auto& normal : normals)
+            {
+                scaleNormal(normal);
+            }
+        }
+
         boundingBox.scale(scaleFactor);
     }
 
-- 
2.43.0


From 8b22bfdb0b8e03ceead8af4478c10855d5e0201f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:13 +0000
Subject: [PATCH 091/217] fix: checkAndCorrectNormals propagates the
 orientation over connected faces

---
 VirtualRobot/Visualization/TriMeshModel.cpp | 27 +++++++++++++++++----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/VirtualRobot/Visualization/TriMeshModel.cpp b/VirtualRobot/Visualization/TriMeshModel.cpp
index 72dc3c9..9ff1834 100644
--- a/VirtualRobot/Visualization/TriMeshModel.cpp
+++ b/VirtualRobot/Visualization/TriMeshModel.cpp
@@ -766,15 +766,30 @@ namespace VirtualRobot
         int a1, a2, b1, b2;
         int flippedFacesCount = 0;
 
-        // compare each vertex with every other vertex
-        for (unsigned int i = 0; i < faces.size(); i++)
+        // propagate the orientation over common edges, starting with the first face of each connected part,
+        // so that a face which has already been corrected is not flipped again
+        std::vector<unsigned int> queue;
+        std::vector<bool> visited(faces.size(), false);
+        unsigned int nextStart = 0;
+
+        for (size_t q = 0; q < faces.size(); q++)
         {
-            f1 = &(faces[i]);
+            if (q == queue.size())
+            {
+                while (visited[nextStart])
+                {
+                    nextStart++;
+                }
+
+                visited[nextStart] = true;
+                queue.push_back(nextStart);
+            }
+
+            f1 = &(faces[queue[q]]);
 
             for (unsigned int j = 0; j < faces.size(); j++)
             {
-                // don't compare each face with itself
-                if (i == j)
+                if (visited[j])
                 {
                     continue;
                 }
@@ -784,6 +799,8 @@ namespace VirtualRobot
 
                 if (checkFacesHaveSameEdge(*f1, *f2, commonVertexIds))
                 {
+                    visited[j] = true;
+                    queue.push_back(j);
                     a1 = commonVertexIds[0].first; // first common vertex id face1
                     a2 = commonVertexIds[1].first; // second common vertex id face1
                     b1 = commonVertexIds[0].second; // first common vertex id face
-- 
2.43.0


From 8947986248eeff500edbfaa28ed92d7f1fd3bc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:13 +0000
Subject: [PATCH 092/217] fix: read short ASCII STL files

---
 VirtualRobot/Import/MeshImport/STLReader.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/VirtualRobot/Import/MeshImport/STLReader.cpp b/VirtualRobot/Import/MeshImport/STLReader.cpp
index 39021a4..2fe8519 100644
--- a/VirtualRobot/Import/MeshImport/STLReader.cpp
+++ b/VirtualRobot/Import/MeshImport/STLReader.cpp
@@ -577,11 +577,15 @@ namespace VirtualRobot
 
         // read number of triangles
         char dummy[100];
-        if(80 != std::fread(dummy, 1, 80, in))
+        // a file that is too short for the binary header can only be ASCII
+        unsigned char count[4];
+        if (80 != std::fread(dummy, 1, 80, in) || 4 != std::fread(count, 1, 4, in))
         {
-            throw std::runtime_error{__FILE__ " error in line " + std::to_string(__LINE__) + " failed to read 80 bytes."};
+            fclose(in);
+            return STLA;
         }
-        size_t nT = read_int(in, swapFlag);
+        std::fseek(in, 80, SEEK_SET);
+        size_t nT = static_cast<unsigned int>(read_int(in, swapFlag));
 
 
         // compute file size from nT
-- 
2.43.0


From dd90065c5d1ad371e9c6996cd31e7d2153a1b49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:13 +0000
Subject: [PATCH 093/217] fix: detect STL keywords at the beginning of a line
 only

---
 VirtualRobot/Import/MeshImport/STLReader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/VirtualRobot/Import/MeshImport/STLReader.cpp b/VirtualRobot/Import/MeshImport/STLReader.cpp
index 2fe8519..2f9bfcb 100644
--- a/VirtualRobot/Import/MeshImport/STLReader.cpp
+++ b/VirtualRobot/Import/MeshImport/STLReader.cpp
@@ -256,7 +256,7 @@ namespace VirtualRobot
             trimStdString(line);
 
             // Normal found?
-            if (line.find("facet normal") != std::string::npos)
+            if (line.find("facet normal") == 0 || line.find("FACET NORMAL") == 0)
             {
                 std::stringstream strstream(line);
 
@@ -276,7 +276,7 @@ namespace VirtualRobot
             }
 
             // Detected a triangle
-            if ((line.find("outer") != std::string::npos) || (line.find("OUTER") != std::string::npos))
+            if ((line.find("outer") == 0) || (line.find("OUTER") == 0))
             {
 
                 vhandles.clear();
-- 
2.43.0


From a61b1f1725828f2f5a85f461cadc173273b9955b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:14 +0000
Subject: [PATCH 094/217] fix: refuse truncated binary STL data

---
 VirtualRobot/Import/MeshImport/STLReader.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/VirtualRobot/Import/MeshImport/STLReader.cpp b/VirtualRobot/Import/MeshImport/STLReader.cpp
index 2f9bfcb..713703b 100644
--- a/VirtualRobot/Import/MeshImport/STLReader.cpp
+++ b/VirtualRobot/Import/MeshImport/STLReader.cpp
@@ -446,6 +446,12 @@ namespace VirtualRobot
         _in.read(dummy, 80);
         nT = read_int(_in, swapFlag);
 
+        if (!_in)
+        {
+            VR_ERROR << "[STLReader] : unexpected end of file\n";
+            return false;
+        }
+
         // read triangles
         while (nT)
         {
@@ -463,6 +469,12 @@ namespace VirtualRobot
                 v[1] = read_float(_in, swapFlag);
                 v[2] = read_float(_in, swapFlag);
 
+                if (!_in)
+                {
+                    VR_ERROR << "[STLReader] : unexpected end of file\n";
+                    return false;
+                }
+
                 v *= scaling;
 
                 // has vector been referenced before?
-- 
2.43.0


From a37f0c4b00b90fd6df97c7c35bfbe0eb6db6529d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:45 +0000
Subject: [PATCH 095/217] fix: refuse binary STL data with invalid vertices

---
 VirtualRobot/Import/MeshImport/STLReader.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/VirtualRobot/Import/MeshImport/STLReader.cpp b/VirtualRobot/Import/MeshImport/STLReader.cpp
index 713703b..b1e351b 100644
--- a/VirtualRobot/Import/MeshImport/STLReader.cpp
+++ b/VirtualRobot/Import/MeshImport/STLReader.cpp
@@ -477,6 +477,12 @@ namespace VirtualRobot
 
                 v *= scaling;
 
+                if (v.hasNaN())
+                {
+                    VR_ERROR << "[STLReader] : invalid vertex\n";
+                    return false;
+                }
+
                 // has vector been referenced before?
                 if ((vMapIt = vMap.find(v)) == vMap.end())
                 {
-- 
2.43.0


From 5ccedc297b835d30554afcf4451dd9913b4319fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:07 +0000
Subject: [PATCH 096/217] fix: refuse ASCII STL data with invalid vertices

---
 VirtualRobot/Import/MeshImport/STLReader.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/VirtualRobot/Import/MeshImport/STLReader.cpp b/VirtualRobot/Import/MeshImport/STLReader.cpp
index b1e351b..78984e6 100644
--- a/VirtualRobot/Import/MeshImport/STLReader.cpp
+++ b/VirtualRobot/Import/MeshImport/STLReader.cpp
@@ -296,6 +296,12 @@ namespace VirtualRobot
                     strstream >> v[1];
                     strstream >> v[2];
 
+                    if (!strstream || v.hasNaN())
+                    {
+                        VR_ERROR << "[STLReader] : invalid vertex: " << line << "\n";
+                        return false;
+                    }
+
                     v *= scaling;
 
                     // has vector been referenced before?
-- 
2.43.0


From 3d3ec714644bf729ba7d970753c4e405295b7289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:24 +0000
Subject: [PATCH 097/217] fix: accept objects using an empty visualization as
 collision model

---
 VirtualRobot/XML/ObjectIO.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/VirtualRobot/XML/ObjectIO.cpp b/VirtualRobot/XML/ObjectIO.cpp
index 5cbbd92..f6a9939 100644
--- a/VirtualRobot/XML/ObjectIO.cpp
+++ b/VirtualRobot/XML/ObjectIO.cpp
@@ -296,7 +296,7 @@ namespace VirtualRobot
                 visualizationNode = processVisualizationTag(node, objName, basePath, useAsColModel);
                 visuProcessed = true;
 
-                if (useAsColModel)
+                if (useAsColModel && visualizationNode)
                 {
                     THROW_VR_EXCEPTION_IF(colProcessed, "Two collision tags defined in ManipulationObject '" << objName << "'." << endl);
                     std::string colModelName = objName;
@@ -413,7 +413,7 @@ namespace VirtualRobot
                 visualizationNode = processVisualizationTag(node, objName, basePath, useAsColModel);
                 visuProcessed = true;
 
-                if (useAsColModel)
+                if (useAsColModel && visualizationNode)
                 {
                     THROW_VR_EXCEPTION_IF(colProcessed, "Two collision tags defined in Obstacle '" << objName << "'." << endl);
                     std::string colModelName = objName;
-- 
2.43.0


From 1dc92c31c078ccb6ba005901f4a007aa866cf129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:24 +0000
Subject: [PATCH 098/217] fix: keep the global pose of loaded manipulation
 objects

---
 VirtualRobot/XML/ObjectIO.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/VirtualRobot/XML/ObjectIO.cpp b/VirtualRobot/XML/ObjectIO.cpp
index f6a9939..9a0f056 100644
--- a/VirtualRobot/XML/ObjectIO.cpp
+++ b/VirtualRobot/XML/ObjectIO.cpp
@@ -82,8 +82,11 @@ namespace VirtualRobot
         std::string objectXML(buffer.str());
 
         VirtualRobot::ManipulationObjectPtr res = createManipulationObjectFromString(objectXML, basePath);
-        res->initialize();
         THROW_VR_EXCEPTION_IF(!res, "Error while parsing file.");
+        // initializing resets the pose
+        Eigen::Matrix4f globalPose = res->getGlobalPose();
+        res->initialize();
+        res->setGlobalPose(globalPose);
         return res;
     }
 
-- 
2.43.0


From 1ad5f0ec20fd1c70873009cbcad66cca5c68db69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:13 +0000
Subject: [PATCH 099/217] fix: read the tcp of configurations in scenes

---
 VirtualRobot/XML/SceneIO.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/VirtualRobot/XML/SceneIO.cpp b/VirtualRobot/XML/SceneIO.cpp
index bf3af0d..fe49fa1 100644
--- a/VirtualRobot/XML/SceneIO.cpp
+++ b/VirtualRobot/XML/SceneIO.cpp
@@ -134,6 +134,12 @@ namespace VirtualRobot
         for (size_t i = 0; i < configDefinitions.size(); i++)
         {
             RobotConfigPtr rc(new RobotConfig(robot, configNames[i], configDefinitions[i]));
+
+            if (!tcpNames[i].empty())
+            {
+                rc->setTCP(tcpNames[i]);
+            }
+
             scene->registerRobotConfig(robot, rc);
         }
 
-- 
2.43.0


From ec168ede57c4f0837b8035d2d5208d48ee99ebed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:13 +0000
Subject: [PATCH 100/217] fix: save the robot node sets of a scene

---
 VirtualRobot/Scene.cpp       | 7 +++++++
 VirtualRobot/XML/SceneIO.cpp | 8 ++++++++
 2 files changed, 15 insertions(+)

diff --git a/VirtualRobot/Scene.cpp b/VirtualRobot/Scene.cpp
index eaa2bb3..95de1ce 100644
--- a/VirtualRobot/Scene.cpp
+++ b/VirtualRobot/Scene.cpp
@@ -2,6 +2,7 @@
 #include "Scene.h"
 #include "VirtualRobotException.h"
 #include "ManipulationObject.h"
+#include "RobotNodeSet.h"
 #include "SceneObjectSet.h"
 #include "Trajectory.h"
 #include "XML/BaseIO.h"
@@ -724,6 +725,12 @@ namespace VirtualRobot
                 ss << "\t\t</GlobalPose>\n";
             }
 
+            // store the robot node sets, sets defined in the scene are not part of the robot's file
+            for (auto & rns : robot->getRobotNodeSets())
+            {
+                ss << rns->toXML(2);
+            }
+
             // store current config
             ss << currentConfig->toXML(2);
 
diff --git a/VirtualRobot/XML/SceneIO.cpp b/VirtualRobot/XML/SceneIO.cpp
index fe49fa1..54f85f7 100644
--- a/VirtualRobot/XML/SceneIO.cpp
+++ b/VirtualRobot/XML/SceneIO.cpp
@@ -123,6 +123,14 @@ namespace VirtualRobot
 
         for (auto & rnsNode : rnsNodes)
         {
+            // the definitions of the scene replace the ones of the robot's file
+            std::string rnsName = processNameAttribute(rnsNode, true);
+
+            if (!rnsName.empty() && robot->hasRobotNodeSet(rnsName))
+            {
+                robot->deregisterRobotNodeSet(robot->getRobotNodeSet(rnsName));
+            }
+
             // registers rns to robot
             RobotNodeSetPtr r = processRobotNodeSet(rnsNode, robot, robot->getRootNode()->getName(), rnsNr);
             THROW_VR_EXCEPTION_IF(!r, "Invalid RobotNodeSet definition " << endl);
-- 
2.43.0


From f2dea3f3ee6aee551ac360364cfb86f05caee4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:51 +0000
Subject: [PATCH 101/217] fix: store the pose of linked manipulation objects
 always

---
 VirtualRobot/ManipulationObject.cpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/VirtualRobot/ManipulationObject.cpp b/VirtualRobot/ManipulationObject.cpp
index 813efeb..99b0a62 100644
--- a/VirtualRobot/ManipulationObject.cpp
+++ b/VirtualRobot/ManipulationObject.cpp
@@ -149,16 +149,13 @@ namespace VirtualRobot
             }
 
             ss << pre << t << "<File>" << relFile << "</File>\n";
+            // always stored, the linked file may define another pose
             Eigen::Matrix4f gp = getGlobalPose();
-
-            if (!gp.isIdentity())
-            {
-                ss << pre << t << "<GlobalPose>\n";
-                ss << pre << t  << t  << "<Transform>\n";
-                ss << MathTools::getTransformXMLString(gp, tabs + 3);
-                ss << pre << t  << t  << "</Transform>\n";
-                ss << pre << t << "</GlobalPose>\n";
-            }
+            ss << pre << t << "<GlobalPose>\n";
+            ss << pre << t  << t  << "<Transform>\n";
+            ss << MathTools::getTransformXMLString(gp, tabs + 3);
+            ss << pre << t  << t  << "</Transform>\n";
+            ss << pre << t << "</GlobalPose>\n";
         }
         else
         {
-- 
2.43.0


From af13f7fb42611426d9eea339c7e5ac8abfa8bec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:51 +0000
Subject: [PATCH 102/217] fix: no assertion for trajectories without dimension

---
 VirtualRobot/XML/BaseIO.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/VirtualRobot/XML/BaseIO.cpp b/VirtualRobot/XML/BaseIO.cpp
index 16086e7..0210372 100644
--- a/VirtualRobot/XML/BaseIO.cpp
+++ b/VirtualRobot/XML/BaseIO.cpp
@@ -1748,8 +1748,7 @@ namespace VirtualRobot
         RobotNodeSetPtr rns = r->getRobotNodeSet(nodeSetName);
         THROW_VR_EXCEPTION_IF(!rns, "Could not find RNS with name " << nodeSetName << " in robot " << robotName);
 
-        assert(dim>=0);
-        if (static_cast<unsigned int>(dim) != rns->getSize())
+        if (dim < 0 || static_cast<unsigned int>(dim) != rns->getSize())
         {
             VR_WARNING << " Invalid dim attribute (" << dim << "). Setting dimension to " << rns->getSize() << endl;
             dim = rns->getSize();
-- 
2.43.0


From 2aa11240a59bab15186b339aafb525e7fca0255a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:28 +0000
Subject: [PATCH 103/217] fix: store the dimension of a sampler

---
 MotionPlanning/CSpace/Sampler.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MotionPlanning/CSpace/Sampler.cpp b/MotionPlanning/CSpace/Sampler.cpp
index 2ce3810..276d879 100644
--- a/MotionPlanning/CSpace/Sampler.cpp
+++ b/MotionPlanning/CSpace/Sampler.cpp
@@ -6,8 +6,8 @@ namespace Saba
 
     Sampler::Sampler(unsigned int dimension)
     {
-        dimension = dimension;
-        metricWeights.Ones(dimension);
+        this->dimension = dimension;
+        metricWeights.setOnes(dimension);
     }
 
     Sampler::~Sampler()
-- 
2.43.0


From e33086b221e751b582ea362a964fd7f810eb7f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:29 +0000
Subject: [PATCH 104/217] fix: check solutions without points

---
 MotionPlanning/CSpace/CSpace.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MotionPlanning/CSpace/CSpace.cpp b/MotionPlanning/CSpace/CSpace.cpp
index 40a496b..4bcaf36 100644
--- a/MotionPlanning/CSpace/CSpace.cpp
+++ b/MotionPlanning/CSpace/CSpace.cpp
@@ -178,7 +178,7 @@ namespace Saba
             SABA_INFO << "Checking " << s << " segments:" << endl;
         }
 
-        for (unsigned int i = s - 1; i > 0; i--)
+        for (unsigned int i = s; i-- > 1;)
         {
             clock_t t1 = clock();
             bool bColFree = isPathValid(solution->getPoint(i), solution->getPoint(i - 1));
-- 
2.43.0


From 71bf90d72a59a4f50993fbf8efcdcd35a8240f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:29 +0000
Subject: [PATCH 105/217] fix: consider metric weights in the length of paths

---
 MotionPlanning/CSpace/CSpacePath.cpp                | 2 +-
 MotionPlanning/PostProcessing/ShortcutProcessor.cpp | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/MotionPlanning/CSpace/CSpacePath.cpp b/MotionPlanning/CSpace/CSpacePath.cpp
index 411d947..3aa3caf 100644
--- a/MotionPlanning/CSpace/CSpacePath.cpp
+++ b/MotionPlanning/CSpace/CSpacePath.cpp
@@ -135,7 +135,7 @@ namespace Saba
             c1 = path[i];
             c2 = path[i + 1];
 
-            l = cspace->calcDist(c1, c2, useCSpaceWeights);
+            l = cspace->calcDist(c1, c2, !useCSpaceWeights);
             pathLength += l;
         }
 
diff --git a/MotionPlanning/PostProcessing/ShortcutProcessor.cpp b/MotionPlanning/PostProcessing/ShortcutProcessor.cpp
index 665932f..06a0375 100644
--- a/MotionPlanning/PostProcessing/ShortcutProcessor.cpp
+++ b/MotionPlanning/PostProcessing/ShortcutProcessor.cpp
@@ -291,10 +291,9 @@ namespace Saba
 
         Eigen::VectorXf s = optimizedPath->getPoint(startIndex);
         Eigen::VectorXf e = optimizedPath->getPoint(endIndex);
-        Eigen::VectorXf d = e - s;
 
         // test line between start and end
-        float distShortcut = d.norm();
+        float distShortcut = cspace->calcDist(s, e);
         float distPath = optimizedPath->getLength(startIndex, endIndex);
 
         // -------------------------------------------------------------------
-- 
2.43.0


From 4d93115e865b453e667c740dccc841f96404d110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:29 +0000
Subject: [PATCH 106/217] fix: interpolate paths as the configuration space
 does

---
 MotionPlanning/CSpace/CSpacePath.cpp | 24 +-----------------------
 1 file changed, 1 insertion(+), 23 deletions(-)

diff --git a/MotionPlanning/CSpace/CSpacePath.cpp b/MotionPlanning/CSpace/CSpacePath.cpp
index 3aa3caf..aa61675 100644
--- a/MotionPlanning/CSpace/CSpacePath.cpp
+++ b/MotionPlanning/CSpace/CSpacePath.cpp
@@ -376,29 +376,7 @@ namespace Saba
             factor = 1.0f;
         }
 
-        for (unsigned int j = 0; j < dimension; j++)
-        {
-            if (cspace->isBorderlessDimension(j))
-            {
-                float diff = (c2[j] - c1[j]);
-
-                if (diff > M_PI) // TODO maybe better: while (diff > M_PI) diff -= M_PI * 2.0f;
-                {
-                    diff -= (float)M_PI * 2.0f;
-                }
-
-                if (diff < -M_PI) // TODO same as above
-                {
-                    diff += (float)M_PI * 2.0f;
-                }
-
-                storePathPos[j] = c1[j] +  diff * factor; // storePos = startPos + factor*segment
-            }
-            else
-            {
-                storePathPos[j] = c1[j] + (c2[j] - c1[j]) * factor; // storePos = startPos + factor*segment
-            }
-        }
+        storePathPos = cspace->interpolate(c1, c2, factor); // storePos = startPos + factor*segment
 
         if (storeIndex != nullptr)
         {
-- 
2.43.0


From 73d4247d268530ccd7f14b8e2c1ccabeb7cff5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:46 +0000
Subject: [PATCH 107/217] fix: interpolation of limitless joints stays within
 the borders

---
 MotionPlanning/CSpace/CSpace.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/MotionPlanning/CSpace/CSpace.cpp b/MotionPlanning/CSpace/CSpace.cpp
index 4bcaf36..2e9ad63 100644
--- a/MotionPlanning/CSpace/CSpace.cpp
+++ b/MotionPlanning/CSpace/CSpace.cpp
@@ -8,6 +8,7 @@
 #include "ConfigurationConstraint.h"
 #include <VirtualRobot/CollisionDetection/CDManager.h>
 #include <VirtualRobot/CollisionDetection/CollisionChecker.h>
+#include <algorithm>
 #include <cfloat>
 #include <cmath>
 #include <fstream>
@@ -626,7 +627,8 @@ namespace Saba
             float res = interpolateRotational(start, end , step);
             // change to actual defined borders
             res = VirtualRobot::MathTools::angleModX(res, 0.5f*(boundaryMax[dim]+boundaryMin[dim]));
-            return res;
+            // rounding must not lead out of the borders
+            return std::min(std::max(res, boundaryMin[dim]), boundaryMax[dim]);
         }
 
     }
-- 
2.43.0


From 67d69424166168bcb4cc92e614dca99a5cef7704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:46 +0000
Subject: [PATCH 108/217] fix: restricted dimensions of limitless joints are
 not borderless

---
 MotionPlanning/CSpace/CSpace.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MotionPlanning/CSpace/CSpace.cpp b/MotionPlanning/CSpace/CSpace.cpp
index 2e9ad63..e8ca5a3 100644
--- a/MotionPlanning/CSpace/CSpace.cpp
+++ b/MotionPlanning/CSpace/CSpace.cpp
@@ -824,7 +824,8 @@ namespace Saba
 //                return true;
 //            }
 //        }
-        return robotJoints[dim]->isLimitless();
+        // a dimension that is restricted to less than a full turn has borders
+        return robotJoints[dim]->isLimitless() && boundaryDist[dim] > 1.999f * (float)M_PI;
     }
 
     unsigned int CSpace::getDimension() const
-- 
2.43.0


From 005f198ba0dce42c69d3f54700408938324aa7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:46 +0000
Subject: [PATCH 109/217] fix: clone sampled configuration spaces for the new
 robot

---
 MotionPlanning/CSpace/CSpaceSampled.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/MotionPlanning/CSpace/CSpaceSampled.cpp b/MotionPlanning/CSpace/CSpaceSampled.cpp
index 3ec0733..47f21ab 100644
--- a/MotionPlanning/CSpace/CSpaceSampled.cpp
+++ b/MotionPlanning/CSpace/CSpaceSampled.cpp
@@ -51,8 +51,17 @@ namespace Saba
             return CSpaceSampledPtr();
         }
 
-        CSpaceSampledPtr result(new CSpaceSampled(newRobot, newCDM, robotNodes, newRandomSeed));
+        VirtualRobot::RobotNodeSetPtr newRobotNodes = newRobot->getRobotNodeSet(robotNodes->getName());
+
+        if (!newRobotNodes)
+        {
+            SABA_ERROR << ": Robot does not have a node set " << robotNodes->getName() << endl;
+            return CSpaceSampledPtr();
+        }
+
+        CSpaceSampledPtr result(new CSpaceSampled(newRobot, newCDM, newRobotNodes, maxNodes, newRandomSeed));
         result->setBoundaries(boundaryMin, boundaryMax);
+        result->checkForBorderlessDimensions(checkForBorderlessDims);
 
         if (useMetricWeights)
         {
@@ -63,6 +72,11 @@ namespace Saba
         result->setSamplingSize(getSamplingSize());
         result->setSamplingSizeDCD(getSamplingSizeDCD());
 
+        for (auto & constraint : constraints)
+        {
+            result->addConstraintCheck(constraint);
+        }
+
         // todo
         return (CSpacePtr)result;
     }
-- 
2.43.0


From 396e326536c09b530fa57f8cb02ec056225b4c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:49 +0000
Subject: [PATCH 110/217] fix: use IDs of parents for the length of trees

---
 MotionPlanning/CSpace/CSpaceTree.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/MotionPlanning/CSpace/CSpaceTree.cpp b/MotionPlanning/CSpace/CSpaceTree.cpp
index 44b6fb5..3741251 100644
--- a/MotionPlanning/CSpace/CSpaceTree.cpp
+++ b/MotionPlanning/CSpace/CSpaceTree.cpp
@@ -463,9 +463,15 @@ namespace Saba
 
         for (unsigned int i = 0; i < nMaxNodes; i++)
         {
-            if (nodes[i] && nodes[i]->parentID >= 0 && nodes[i]->parentID < (int)nMaxNodes)
+            if (nodes[i] && nodes[i]->parentID >= 0)
             {
-                res += cspace->calcDist(nodes[i]->configuration, nodes[nodes[i]->parentID]->configuration, !useMetricWeights);
+                // the ID of a node is not its position in the tree
+                CSpaceNodePtr parent = getNode(nodes[i]->parentID);
+
+                if (parent)
+                {
+                    res += cspace->calcDist(nodes[i]->configuration, parent->configuration, !useMetricWeights);
+                }
             }
         }
 
-- 
2.43.0


From dfd07e3fb15d18a6b35c0748f854989f3fe053d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:49 +0000
Subject: [PATCH 111/217] fix: distances of nodes in a tree

---
 MotionPlanning/CSpace/CSpaceTree.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/MotionPlanning/CSpace/CSpaceTree.cpp b/MotionPlanning/CSpace/CSpaceTree.cpp
index 3741251..b69869c 100644
--- a/MotionPlanning/CSpace/CSpaceTree.cpp
+++ b/MotionPlanning/CSpace/CSpaceTree.cpp
@@ -91,12 +91,17 @@ namespace Saba
     {
         float result = 0.0f;
 
-        if (!getNode(idStart) || !getNode(idStart))
+        if (!getNode(idStart) || !getNode(idEnd))
         {
             SABA_ERROR << "CSpaceTree::getPathDist: start or goal id not correct..." << endl;
             return -1.0f;
         }
 
+        if (idStart == idEnd)
+        {
+            return 0.0f;
+        }
+
         unsigned int actID = idEnd;
         unsigned int actID2 = getNode(idEnd)->parentID;
         CSpaceNodePtr actNode;
-- 
2.43.0


From 3718ddcf96f65ab349c27458e984f1aa41f8bdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:49 +0000
Subject: [PATCH 112/217] fix: removed tree nodes are no children any more

---
 MotionPlanning/CSpace/CSpaceTree.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/MotionPlanning/CSpace/CSpaceTree.cpp b/MotionPlanning/CSpace/CSpaceTree.cpp
index b69869c..b4747a0 100644
--- a/MotionPlanning/CSpace/CSpaceTree.cpp
+++ b/MotionPlanning/CSpace/CSpaceTree.cpp
@@ -6,6 +6,7 @@
 #include "CSpace.h"
 #include "VirtualRobot/Robot.h"
 #include "VirtualRobot/RobotNodeSet.h"
+#include <algorithm>
 #include <cfloat>
 #include <cmath>
 #include <fstream>
@@ -288,6 +289,12 @@ namespace Saba
             }
         }
 
+        if (updateChildren && n->parentID >= 0 && idNodeMapping.find(n->parentID) != idNodeMapping.end())
+        {
+            std::vector<CSpaceNodePtr>& siblings = idNodeMapping[n->parentID]->children;
+            siblings.erase(std::remove(siblings.begin(), siblings.end(), n), siblings.end());
+        }
+
         nodes.erase(it);
         idNodeMapping.erase(n->ID);
         cspace->removeNode(n);
-- 
2.43.0


From 78c4c5e70a2393d338d5d0469a409db257f4d9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:50 +0000
Subject: [PATCH 113/217] fix: planners without success have no solution

---
 MotionPlanning/Planner/MotionPlanner.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/MotionPlanning/Planner/MotionPlanner.cpp b/MotionPlanning/Planner/MotionPlanner.cpp
index 1ab9648..09cef4a 100644
--- a/MotionPlanning/Planner/MotionPlanner.cpp
+++ b/MotionPlanning/Planner/MotionPlanner.cpp
@@ -182,11 +182,7 @@ namespace Saba
 
     CSpacePathPtr MotionPlanner::getSolution()
     {
-        if (!solution)
-        {
-            createSolution();
-        }
-
+        // the solution is created when planning was successful
         return solution;
     }
 
@@ -196,6 +192,7 @@ namespace Saba
         goalConfig.setZero(1);
         startValid = false;
         goalValid = false;
+        solution.reset();
 
         if (cspace)
         {
-- 
2.43.0


From ae436b7b5f30c9423aa9dffd20d186dcab49cf25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:50 +0000
Subject: [PATCH 114/217] fix: start and goal have to satisfy the constraints

---
 MotionPlanning/Planner/MotionPlanner.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/MotionPlanning/Planner/MotionPlanner.cpp b/MotionPlanning/Planner/MotionPlanner.cpp
index 09cef4a..d0c1de4 100644
--- a/MotionPlanning/Planner/MotionPlanner.cpp
+++ b/MotionPlanning/Planner/MotionPlanner.cpp
@@ -119,6 +119,12 @@ namespace Saba
             return false;
         }
 
+        if (cspace && !cspace->isSatisfyingConstraints(startConfig))
+        {
+            SABA_WARNING << " start node does violate constraints! " << std::endl;
+            return false;
+        }
+
         startValid = true;
         return true;
     }
@@ -148,6 +154,12 @@ namespace Saba
             return false;
         }
 
+        if (cspace && !cspace->isSatisfyingConstraints(goalConfig))
+        {
+            SABA_WARNING << " goal pos does violate constraints!" << std::endl;
+            return false;
+        }
+
         goalValid = true;
         return true;
     }
-- 
2.43.0


From abd4899997ff7cdb0322c8f6dfa26af4ecc75bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:50 +0000
Subject: [PATCH 115/217] fix: restore the robot after a planning timeout

---
 MotionPlanning/Planner/BiRrt.cpp | 7 +++++++
 MotionPlanning/Planner/Rrt.cpp   | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/MotionPlanning/Planner/BiRrt.cpp b/MotionPlanning/Planner/BiRrt.cpp
index aa666c2..09ce593 100644
--- a/MotionPlanning/Planner/BiRrt.cpp
+++ b/MotionPlanning/Planner/BiRrt.cpp
@@ -224,6 +224,13 @@ namespace Saba
             if(diffClock > planningTimeout)
             {
                 std::cout << "Encountered timeout of " << planningTimeout << " ms - aborting" << std::endl;
+                planningTime = (float)diffClock;
+
+                if (robot && bVisStatus)
+                {
+                    robot->setUpdateVisualization(bVisStatus);
+                }
+
                 return false;
             }
 
diff --git a/MotionPlanning/Planner/Rrt.cpp b/MotionPlanning/Planner/Rrt.cpp
index 1c5ab1e..ab4bc90 100644
--- a/MotionPlanning/Planner/Rrt.cpp
+++ b/MotionPlanning/Planner/Rrt.cpp
@@ -191,6 +191,13 @@ namespace Saba
             if(diffClock > planningTimeout)
             {
                 std::cout << "Encountered timeout of " << planningTimeout << " ms - aborting" << std::endl;
+                planningTime = (float)diffClock;
+
+                if (robot && bVisStatus)
+                {
+                    robot->setUpdateVisualization(bVisStatus);
+                }
+
                 return false;
             }
 
-- 
2.43.0


From d14a7bab4ccbe808cd8acdaa32b2e67bebdaed27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:08 +0000
Subject: [PATCH 116/217] fix: planning to a configuration that is reached
 already

---
 MotionPlanning/Planner/Rrt.cpp | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/MotionPlanning/Planner/Rrt.cpp b/MotionPlanning/Planner/Rrt.cpp
index ab4bc90..2048c76 100644
--- a/MotionPlanning/Planner/Rrt.cpp
+++ b/MotionPlanning/Planner/Rrt.cpp
@@ -269,6 +269,13 @@ namespace Saba
         // length of the new extension step
         float totalLength = cspace->calcDist(nn->configuration, c);
 
+        if (totalLength == 0.0f)
+        {
+            // already there
+            storeLastAddedID = nn->ID;
+            return eSuccess;
+        }
+
         bool reached = false;
 
         // set randomly found configuration if distance is smaller than specific length
@@ -317,6 +324,13 @@ namespace Saba
 
         SABA_ASSERT(nn);
 
+        if (cspace->calcDist(nn->configuration, c) == 0.0f)
+        {
+            // already there
+            storeLastAddedID = nn->ID;
+            return eSuccess;
+        }
+
         // CHECK PATH FOR COLLISIONS AND VALID NODES
         if (cspace->isPathValid(nn->configuration, c))
         {
@@ -339,6 +353,13 @@ namespace Saba
 
         int oldLastID = storeLastAddedID;
 
+        if (cspace->calcDist(nn->configuration, c) == 0.0f)
+        {
+            // already there
+            storeLastAddedID = nn->ID;
+            return eSuccess;
+        }
+
         // CHECK PATH FOR COLLISIONS AND VALID NODES
         if (tree->appendPathUntilCollision(nn, c, &storeLastAddedID))
         {
@@ -441,7 +462,7 @@ namespace Saba
 
         // check if we have a path
 
-        if (!goalNode || goalNode->parentID < 0)
+        if (!goalNode || (goalNode->parentID < 0 && goalNode != startNode))
         {
             SABA_WARNING << " no path to goal..." << std::endl;
             return false;
@@ -460,7 +481,7 @@ namespace Saba
         actNode = lastNode;
 
         // go through all solution nodes backwards
-        do
+        while (!failure && actNode->ID != startNode->ID)
         {
             nextID = actNode->parentID;
 
@@ -486,7 +507,6 @@ namespace Saba
                 failure = true;
             }
         }
-        while (!failure && actNode->ID != startNode->ID);
 
         if (!failure)
         {
-- 
2.43.0


From 4dd50fce38ab26cc69d4df2f29f13b12b89641a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:08 +0000
Subject: [PATCH 117/217] fix: remove the nodes of the old goal

---
 MotionPlanning/Planner/BiRrt.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/MotionPlanning/Planner/BiRrt.cpp b/MotionPlanning/Planner/BiRrt.cpp
index 09ce593..5d4f04b 100644
--- a/MotionPlanning/Planner/BiRrt.cpp
+++ b/MotionPlanning/Planner/BiRrt.cpp
@@ -390,12 +390,13 @@ namespace Saba
             return false;
         }
 
-        // copy goal values
-        if (goalNode)
+        if (tree2->getNrOfNodes() > 0)
         {
-            tree2->removeNode(goalNode);
+            // the tree of an old goal
+            tree2->reset();
         }
 
+        // copy goal values
         goalNode =  tree2->appendNode(c, -1);
 
         return true;
-- 
2.43.0


From d7ea7093fecd1dc04eded0e658329833606305f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:02 +0000
Subject: [PATCH 118/217] fix: stop threads that are just starting

---
 MotionPlanning/Planner/PlanningThread.cpp              | 6 +++++-
 MotionPlanning/PostProcessing/PathProcessingThread.cpp | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/MotionPlanning/Planner/PlanningThread.cpp b/MotionPlanning/Planner/PlanningThread.cpp
index 18365c3..83a4034 100644
--- a/MotionPlanning/Planner/PlanningThread.cpp
+++ b/MotionPlanning/Planner/PlanningThread.cpp
@@ -60,7 +60,11 @@ namespace Saba
 
         if (waitUntilStopped)
         {
-            planningThread.join();
+            // the worker resets the stop flag when it starts
+            while (!planningThread.timed_join(boost::posix_time::milliseconds(5)))
+            {
+                planner->stopExecution();
+            }
         }
     }
 
diff --git a/MotionPlanning/PostProcessing/PathProcessingThread.cpp b/MotionPlanning/PostProcessing/PathProcessingThread.cpp
index 2417168..f7e2400 100644
--- a/MotionPlanning/PostProcessing/PathProcessingThread.cpp
+++ b/MotionPlanning/PostProcessing/PathProcessingThread.cpp
@@ -65,7 +65,11 @@ namespace Saba
 
         if (waitUntilStopped)
         {
-            processingThread.join();
+            // the worker resets the stop flag when it starts
+            while (!processingThread.timed_join(boost::posix_time::milliseconds(5)))
+            {
+                pathProcessor->stopExecution();
+            }
         }
     }
 
-- 
2.43.0


From 5c7498e35db7b5b59193fa28a0817e43a4c9a180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:33 +0000
Subject: [PATCH 119/217] fix: catch exceptions in planning threads

---
 MotionPlanning/Planner/PlanningThread.cpp             | 11 ++++++++++-
 .../PostProcessing/PathProcessingThread.cpp           | 11 ++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/MotionPlanning/Planner/PlanningThread.cpp b/MotionPlanning/Planner/PlanningThread.cpp
index 83a4034..72de113 100644
--- a/MotionPlanning/Planner/PlanningThread.cpp
+++ b/MotionPlanning/Planner/PlanningThread.cpp
@@ -94,7 +94,16 @@ namespace Saba
 
         VR_ASSERT(planner);
 
-        bool res = planner->plan(true);
+        bool res = false;
+
+        try
+        {
+            res = planner->plan(true);
+        }
+        catch (const VirtualRobot::VirtualRobotException& e)
+        {
+            VR_ERROR << "Planning failed: " << e.what() << endl;
+        }
 
         mutex.lock();
         threadStarted = false;
diff --git a/MotionPlanning/PostProcessing/PathProcessingThread.cpp b/MotionPlanning/PostProcessing/PathProcessingThread.cpp
index f7e2400..515dfc2 100644
--- a/MotionPlanning/PostProcessing/PathProcessingThread.cpp
+++ b/MotionPlanning/PostProcessing/PathProcessingThread.cpp
@@ -99,7 +99,16 @@ namespace Saba
 
         VR_ASSERT(pathProcessor);
 
-        CSpacePathPtr res = pathProcessor->optimize(optimizeSteps);
+        CSpacePathPtr res;
+
+        try
+        {
+            res = pathProcessor->optimize(optimizeSteps);
+        }
+        catch (const VirtualRobot::VirtualRobotException& e)
+        {
+            VR_ERROR << "Processing failed: " << e.what() << endl;
+        }
 
         mutex.lock();
 
-- 
2.43.0


From 31f3955e4ad1552d07b88fe6df0f42d73235547a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:00 +0000
Subject: [PATCH 120/217] fix: number of points saved by a shortcut

---
 MotionPlanning/PostProcessing/ShortcutProcessor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MotionPlanning/PostProcessing/ShortcutProcessor.cpp b/MotionPlanning/PostProcessing/ShortcutProcessor.cpp
index 06a0375..f274996 100644
--- a/MotionPlanning/PostProcessing/ShortcutProcessor.cpp
+++ b/MotionPlanning/PostProcessing/ShortcutProcessor.cpp
@@ -122,7 +122,7 @@ namespace Saba
             }
         }
 
-        int nodes = endIndex - startIndex - 1 + newP;
+        int nodes = endIndex - startIndex - 1 - newP;
 
         if (verbose)
         {
-- 
2.43.0


From d8a68284ad880853dad4ba4bea2fe66cc6bfc154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:00 +0000
Subject: [PATCH 121/217] fix: post-processing of paths with less than two
 points

---
 MotionPlanning/PostProcessing/ElasticBandProcessor.cpp | 4 ++--
 MotionPlanning/PostProcessing/ShortcutProcessor.cpp    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/MotionPlanning/PostProcessing/ElasticBandProcessor.cpp b/MotionPlanning/PostProcessing/ElasticBandProcessor.cpp
index 1596a84..5634fb6 100644
--- a/MotionPlanning/PostProcessing/ElasticBandProcessor.cpp
+++ b/MotionPlanning/PostProcessing/ElasticBandProcessor.cpp
@@ -174,7 +174,7 @@ using namespace VirtualRobot;
          Eigen::VectorXf fc;
 
 
-        for (unsigned int i=1;i<optimizedPath->getNrOfPoints()-1;i++)
+        for (unsigned int i=1;i+1<optimizedPath->getNrOfPoints();i++)
         {
 
             Eigen::VectorXf& before = optimizedPath->getPointRef(i-1);
@@ -222,7 +222,7 @@ using namespace VirtualRobot;
     {
         float ssd = 2 * cspace->getSamplingSize()*cspace->getSamplingSize();
 
-        for (unsigned int i=1;i<optimizedPath->getNrOfPoints()-2;i++)
+        for (unsigned int i=1;i+2<optimizedPath->getNrOfPoints();i++)
         {
             Eigen::VectorXf& before = optimizedPath->getPointRef(i-1);
             Eigen::VectorXf& act = optimizedPath->getPointRef(i);
diff --git a/MotionPlanning/PostProcessing/ShortcutProcessor.cpp b/MotionPlanning/PostProcessing/ShortcutProcessor.cpp
index f274996..af66bc6 100644
--- a/MotionPlanning/PostProcessing/ShortcutProcessor.cpp
+++ b/MotionPlanning/PostProcessing/ShortcutProcessor.cpp
@@ -202,7 +202,7 @@ namespace Saba
 
         unsigned int i = 0;
 
-        while (i < optimizedPath->getNrOfPoints() - 2)
+        while (i + 2 < optimizedPath->getNrOfPoints())
         {
             Eigen::VectorXf startConfig = optimizedPath->getPoint(i);
             Eigen::VectorXf endConfig = optimizedPath->getPoint(i + 2);
-- 
2.43.0


From c64555fed3e3f62676f9b0a2864db997d8df25cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:00 +0000
Subject: [PATCH 122/217] fix: forces of elastic bands consider both neighbours

---
 MotionPlanning/PostProcessing/ElasticBandProcessor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MotionPlanning/PostProcessing/ElasticBandProcessor.cpp b/MotionPlanning/PostProcessing/ElasticBandProcessor.cpp
index 5634fb6..3c0eef8 100644
--- a/MotionPlanning/PostProcessing/ElasticBandProcessor.cpp
+++ b/MotionPlanning/PostProcessing/ElasticBandProcessor.cpp
@@ -273,7 +273,7 @@ using namespace VirtualRobot;
         unsigned int b = i;
         unsigned int c = i;
         if (i<optimizedPath->getNrOfPoints()-1)
-            a=i+1;
+            c=i+1;
 
         Eigen::VectorXf& before = optimizedPath->getPointRef(a);
         Eigen::VectorXf& act = optimizedPath->getPointRef(b);
-- 
2.43.0


From b6c022212e1ebaa9cba81bb21928fe922eb3cf86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:00 +0000
Subject: [PATCH 123/217] fix: restore the visualisation status of the robot

---
 MotionPlanning/PostProcessing/ElasticBandProcessor.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MotionPlanning/PostProcessing/ElasticBandProcessor.cpp b/MotionPlanning/PostProcessing/ElasticBandProcessor.cpp
index 3c0eef8..142729b 100644
--- a/MotionPlanning/PostProcessing/ElasticBandProcessor.cpp
+++ b/MotionPlanning/PostProcessing/ElasticBandProcessor.cpp
@@ -304,6 +304,7 @@ using namespace VirtualRobot;
     {
         initSolution();
 
+        bool visStatus = rns->getRobot()->getUpdateVisualizationStatus();
         rns->getRobot()->setUpdateVisualization(false);
 
         for (int i=0;i<optimizeSteps;i++)
@@ -325,7 +326,7 @@ using namespace VirtualRobot;
             }
         }
 
-        rns->getRobot()->setUpdateVisualization(true);
+        rns->getRobot()->setUpdateVisualization(visStatus);
 
 
         return optimizedPath;
-- 
2.43.0


From dd3d206ca78a2384f6dc7e34741f6d3640196a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:34 +0000
Subject: [PATCH 124/217] fix: BoundingBox::isInside of flat boxes

---
 VirtualRobot/BoundingBox.cpp | 33 +++++++++++----------------------
 1 file changed, 11 insertions(+), 22 deletions(-)

diff --git a/VirtualRobot/BoundingBox.cpp b/VirtualRobot/BoundingBox.cpp
index bfe5872..e4a16cc 100644
--- a/VirtualRobot/BoundingBox.cpp
+++ b/VirtualRobot/BoundingBox.cpp
@@ -224,32 +224,21 @@ namespace VirtualRobot
 
     bool BoundingBox::isInside(Eigen::Vector3f point) const
     {
-        Eigen::Vector3f p0(min(0), min(1), min(2));
-        Eigen::Vector3f p1(min(0), min(1), max(2));
-        Eigen::Vector3f p2(min(0), max(1), min(2));
-        Eigen::Vector3f p4(max(0), min(1), min(2));
-
-        Eigen::Vector3f v01 = p0 - p1;
-        Eigen::Vector3f v02 = p0 - p2;
-        Eigen::Vector3f v04 = p0 - p4;
-
-        point(0) = std::isnan(point(0)) ? (max(0) + min(0)) / 2 : point(0);
-        point(1) = std::isnan(point(1)) ? (max(1) + min(1)) / 2 : point(1);
-        point(2) = std::isnan(point(2)) ? (max(2) + min(2)) / 2 : point(2);
-
-        auto isBetween = [](float x, float a, float b) {
-            if (a <= b)
+        for (int i = 0; i < 3; i++)
+        {
+            // an empty box does not contain any point
+            if (std::isnan(min(i)) || std::isnan(max(i)))
             {
-                return a <= x && x <= b;
+                return false;
             }
-            else
+
+            // dimensions without value are ignored
+            if (!std::isnan(point(i)) && (point(i) < min(i) || point(i) > max(i)))
             {
-                return b <= x && x <= a;
+                return false;
             }
-        };
+        }
 
-        return isBetween(v01.dot(point), v01.dot(p0), v01.dot(p1))
-                && isBetween(v02.dot(point), v02.dot(p0), v02.dot(p2))
-                && isBetween(v04.dot(point), v04.dot(p0), v04.dot(p4));
+        return true;
     }
 }
-- 
2.43.0


From 538c9aaf8d48cce589e0e0fbe7c0e7fe30f09a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:34 +0000
Subject: [PATCH 125/217] fix: no corners of empty boxes in
 BoundingBox::planeGoesThrough

---
 VirtualRobot/BoundingBox.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/VirtualRobot/BoundingBox.cpp b/VirtualRobot/BoundingBox.cpp
index e4a16cc..9230da6 100644
--- a/VirtualRobot/BoundingBox.cpp
+++ b/VirtualRobot/BoundingBox.cpp
@@ -15,7 +15,8 @@ namespace VirtualRobot
 
         std::vector < Eigen::Vector3f > points = getPoints();
 
-        for (int i = 0; i < 8; i++)
+        // there are no points if the box is empty
+        for (size_t i = 0; i < points.size(); i++)
             if (MathTools::onNormalPointingSide(points[i], p))
             {
                 left = true;
-- 
2.43.0


From e9cf192845715c759e62f87047f3066e6020c404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:34 +0000
Subject: [PATCH 126/217] fix: clear the vertex/face mapping of sphere
 approximations

---
 VirtualRobot/SphereApproximator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/VirtualRobot/SphereApproximator.cpp b/VirtualRobot/SphereApproximator.cpp
index 7abf900..fa015ad 100644
--- a/VirtualRobot/SphereApproximator.cpp
+++ b/VirtualRobot/SphereApproximator.cpp
@@ -37,6 +37,9 @@ namespace VirtualRobot
 
     void SphereApproximator::buildVertexFaceMapping(SphereApproximation& storeResult)
     {
+        // storeResult may have been used before
+        storeResult.mapVerticeIndxToFaceIndx.clear();
+
         for (int i = 0; i < (int)storeResult.faces.size(); i++)
         {
             MathTools::TriangleFace f = storeResult.faces[i];
-- 
2.43.0


From e2e1183ebba765a1f90ce9bdeba68347a64856fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:34 +0000
Subject: [PATCH 127/217] fix: exact key positions in ColorMap::customColorMap

---
 VirtualRobot/Visualization/ColorMap.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/VirtualRobot/Visualization/ColorMap.cpp b/VirtualRobot/Visualization/ColorMap.cpp
index aeda298..9cdedba 100644
--- a/VirtualRobot/Visualization/ColorMap.cpp
+++ b/VirtualRobot/Visualization/ColorMap.cpp
@@ -232,12 +232,10 @@ namespace VirtualRobot
             return c;
         }
 
-        float step = 1.0f / (float)(colors.size() - 1);
-        float act = 0.0f;
-
         for (size_t i = 1; i < colors.size(); i++)
         {
-            act += step;
+            // no sum of steps: the last position has to be exactly 1
+            float act = (float)i / (float)(colors.size() - 1);
             c.addColorKey((unsigned char)(colors[i].r * 255.0f + 0.5f), (unsigned char)(colors[i].g * 255.0f + 0.5f), (unsigned char)(colors[i].b * 255.0f + 0.5f), 255 - (unsigned char)(colors[i].transparency * 255.0f + 0.5f), act);
         }
 
-- 
2.43.0


From a308146b8e47cf07e9a8c052e2ae5cdcd535be32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:34 +0000
Subject: [PATCH 128/217] fix: RuntimeEnvironment::getDataFileAbsolute returns
 absolute paths

---
 VirtualRobot/RuntimeEnvironment.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/VirtualRobot/RuntimeEnvironment.cpp b/VirtualRobot/RuntimeEnvironment.cpp
index 7ffdb66..d9d1eda 100644
--- a/VirtualRobot/RuntimeEnvironment.cpp
+++ b/VirtualRobot/RuntimeEnvironment.cpp
@@ -115,7 +115,7 @@ namespace VirtualRobot
             // first check current path
             if (boost::filesystem::exists(fn) && boost::filesystem::is_regular_file(fn))
             {
-                fileName = fn.string();
+                fileName = boost::filesystem::absolute(fn).string();
                 return true;
             }
         }
@@ -139,7 +139,7 @@ namespace VirtualRobot
                     //boost::filesystem::file_status s = boost::filesystem::status(fnComplete);
                     //printf("%o\n",s.permissions());
 
-                    fileName = fnComplete.string();
+                    fileName = boost::filesystem::absolute(fnComplete).string();
                     return true;
                 }
             }
-- 
2.43.0


From ecaffafefc9ba779523df563aa0e531b9136d849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:54 +0000
Subject: [PATCH 129/217] fix: RuntimeEnvironment::considerKey ignores keys
 that are already considered

---
 VirtualRobot/RuntimeEnvironment.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/VirtualRobot/RuntimeEnvironment.cpp b/VirtualRobot/RuntimeEnvironment.cpp
index d9d1eda..3b687a5 100644
--- a/VirtualRobot/RuntimeEnvironment.cpp
+++ b/VirtualRobot/RuntimeEnvironment.cpp
@@ -8,6 +8,8 @@
 #include "VirtualRobotException.h"
 #include "Visualization/VisualizationFactory.h"
 
+#include <algorithm>
+
 
 namespace VirtualRobot
 {
@@ -336,7 +338,11 @@ namespace VirtualRobot
 
     void RuntimeEnvironment::considerKey(const std::string& key)
     {
-        processKeys.push_back(key);
+        // a key that is declared twice would be ambiguous on the command line
+        if (std::find(processKeys.begin(), processKeys.end(), key) == processKeys.end())
+        {
+            processKeys.push_back(key);
+        }
     }
 
     bool RuntimeEnvironment::hasValue(const std::string& key)
-- 
2.43.0


From 47a090ff82e46fdb5907b079703229b452239691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:02 +0000
Subject: [PATCH 130/217] fix: minimal facet distance in
 GraspQualityMeasureWrenchSpaceNotNormalized

---
 .../GraspQualityMeasureWrenchSpaceNotNormalized.cpp             | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpaceNotNormalized.cpp b/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpaceNotNormalized.cpp
index 7433974..237f107 100644
--- a/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpaceNotNormalized.cpp
+++ b/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpaceNotNormalized.cpp
@@ -294,7 +294,7 @@ namespace GraspStudio
                 nWrongFacets++;
                 continue;
             }
-            fRes = std::max(fRes, -dist);
+            fRes = std::min(fRes, -dist);
         }
 
         if (nWrongFacets > 0)
-- 
2.43.0


From a18489a125db58a43f266684c69422d406233493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:02 +0000
Subject: [PATCH 131/217] fix: opening angle of friction cones

---
 GraspPlanning/ContactConeGenerator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GraspPlanning/ContactConeGenerator.cpp b/GraspPlanning/ContactConeGenerator.cpp
index 31e84c3..9b79b37 100644
--- a/GraspPlanning/ContactConeGenerator.cpp
+++ b/GraspPlanning/ContactConeGenerator.cpp
@@ -39,8 +39,8 @@ namespace GraspStudio
         for (int i = 0; i < frictionConeSamples; i++)
         {
             Eigen::Vector3f p;
-            p(0) = unitForce * (float)(cos(frictionConeAngle) * cos(i * 2.0 * M_PI / frictionConeSamples));
-            p(1) = unitForce * (float)(cos(frictionConeAngle) * sin(i * 2.0 * M_PI / frictionConeSamples));
+            p(0) = (float)(frictionConeRad * cos(i * 2.0 * M_PI / frictionConeSamples));
+            p(1) = (float)(frictionConeRad * sin(i * 2.0 * M_PI / frictionConeSamples));
             p(2) = (float)frictionConeHeight;
             frictionConeRimPoints.push_back(p);
         }
-- 
2.43.0


From 2cf191fdc2619461e090bcc8b6db6f2b9c8a2201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:02 +0000
Subject: [PATCH 132/217] fix: BasicGraspQualityMeasure::setContactPoints uses
 its argument

---
 VirtualRobot/Grasping/BasicGraspQualityMeasure.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/VirtualRobot/Grasping/BasicGraspQualityMeasure.cpp b/VirtualRobot/Grasping/BasicGraspQualityMeasure.cpp
index 8abfe98..6297085 100644
--- a/VirtualRobot/Grasping/BasicGraspQualityMeasure.cpp
+++ b/VirtualRobot/Grasping/BasicGraspQualityMeasure.cpp
@@ -70,13 +70,13 @@ namespace VirtualRobot
     BasicGraspQualityMeasure::~BasicGraspQualityMeasure()
     = default;
 
-    void BasicGraspQualityMeasure::setContactPoints(const std::vector<VirtualRobot::MathTools::ContactPoint>& /*contactPoints6d*/)
+    void BasicGraspQualityMeasure::setContactPoints(const std::vector<VirtualRobot::MathTools::ContactPoint>& contactPoints6d)
     {
         this->contactPoints.clear();
         this->contactPointsM.clear();
         std::vector<MathTools::ContactPoint>::const_iterator objPointsIter;
 
-        for (objPointsIter = contactPoints.begin(); objPointsIter != contactPoints.end(); objPointsIter++)
+        for (objPointsIter = contactPoints6d.begin(); objPointsIter != contactPoints6d.end(); objPointsIter++)
         {
             MathTools::ContactPoint point = (*objPointsIter);
             point.p -= centerOfModel;
-- 
2.43.0


From 15ce02c0e7422d165784e92c2d0f2643cf39b383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:02 +0000
Subject: [PATCH 133/217] fix: no force closure without a wrench space hull

---
 GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpace.cpp  | 3 ++-
 .../GraspQualityMeasureWrenchSpaceNotNormalized.cpp            | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpace.cpp b/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpace.cpp
index 86f4408..57a1e99 100644
--- a/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpace.cpp
+++ b/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpace.cpp
@@ -374,7 +374,8 @@ namespace GraspStudio
     }
     bool GraspQualityMeasureWrenchSpace::isOriginInGWSHull()
     {
-        if (!GWSCalculated || !convexHullGWS)
+        // no facets: the hull could not be built (e.g. not enough wrenches)
+        if (!GWSCalculated || !convexHullGWS || convexHullGWS->faces.empty())
         {
             return false;
         }
diff --git a/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpaceNotNormalized.cpp b/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpaceNotNormalized.cpp
index 237f107..3fe017b 100644
--- a/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpaceNotNormalized.cpp
+++ b/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpaceNotNormalized.cpp
@@ -256,7 +256,8 @@ namespace GraspStudio
     }
     bool GraspQualityMeasureWrenchSpaceNotNormalized::isOriginInGWSHull()
     {
-        if (!GWSCalculated || !convexHullGWS)
+        // no facets: the hull could not be built (e.g. not enough wrenches)
+        if (!GWSCalculated || !convexHullGWS || convexHullGWS->faces.empty())
         {
             return false;
         }
-- 
2.43.0


From 472fddd943467952496580113aa00595fc66fbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:54 +0000
Subject: [PATCH 134/217] fix: no stale wrench space after removing contacts

---
 GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpace.cpp  | 3 +++
 .../GraspQualityMeasureWrenchSpaceNotNormalized.cpp            | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpace.cpp b/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpace.cpp
index 57a1e99..65983aa 100644
--- a/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpace.cpp
+++ b/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpace.cpp
@@ -130,6 +130,9 @@ namespace GraspStudio
 
         if (contactPointsM.empty())
         {
+            // do not keep the hull of earlier contacts
+            convexHullGWS.reset();
+
             if (verbose && printAll)
                 printf("Contact points not set.\n");
             return;
diff --git a/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpaceNotNormalized.cpp b/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpaceNotNormalized.cpp
index 3fe017b..16bfc19 100644
--- a/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpaceNotNormalized.cpp
+++ b/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpaceNotNormalized.cpp
@@ -62,6 +62,9 @@ namespace GraspStudio
 
         if (contactPointsM.empty())
         {
+            // do not keep the hull of earlier contacts
+            convexHullGWS.reset();
+
             if (verbose && printAll)
                 printf("Contact points not set.\n");
             return;
-- 
2.43.0


From 487c9a10d91c0c3b10c945bded37073325f70441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:54 +0000
Subject: [PATCH 135/217] fix: getVolumeGraspMeasure calculates the object
 wrench space if needed

---
 GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpace.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpace.cpp b/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpace.cpp
index 65983aa..5f096e7 100644
--- a/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpace.cpp
+++ b/GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpace.cpp
@@ -431,6 +431,8 @@ namespace GraspStudio
 
     float GraspQualityMeasureWrenchSpace::getVolumeGraspMeasure()
     {
+        calculateObjectProperties();
+
         if (!GWSCalculated)
         {
             calculateGWS();
-- 
2.43.0


From 5aa70f30d09da17cb31eb68e08b2cbe179fcb97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:32 +0000
Subject: [PATCH 136/217] fix: search all points for the initial simplex of
 convex hulls

---
 GraspPlanning/ConvexHullGenerator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GraspPlanning/ConvexHullGenerator.cpp b/GraspPlanning/ConvexHullGenerator.cpp
index a6bfd1d..1920bba 100644
--- a/GraspPlanning/ConvexHullGenerator.cpp
+++ b/GraspPlanning/ConvexHullGenerator.cpp
@@ -143,9 +143,9 @@ namespace GraspStudio
         // QJ: juggling input points, triangulated result
         // FA: compute volume
 #ifdef CONVEXHULL_DEBUG_OUTPUT
-        sprintf(flags, "qhull s Tcv Qt FA");
+        sprintf(flags, "qhull s Tcv Qt Qs FA");
 #else
-        sprintf(flags, "qhull s Qt FA");  // QJ is faster than Qt (but the results seem to be less accurate, see www.qhull.org documentation)
+        sprintf(flags, "qhull s Qt Qs FA");  // Qs: search all points for the initial simplex (the extreme points may be coplanar); QJ is faster than Qt (but the results seem to be less accurate, see www.qhull.org documentation)
 #endif
 
         //cout << "QHULL input: nVertices: " << pointsInput.size() << endl;
-- 
2.43.0


From c9a3c222276ab4823d2a2f3ea2c18a8126d1ad5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:58 +0000
Subject: [PATCH 137/217] fix: relative movements of a hand whose preshape has
 its own TCP

---
 GraspPlanning/ApproachMovementGenerator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GraspPlanning/ApproachMovementGenerator.cpp b/GraspPlanning/ApproachMovementGenerator.cpp
index 3d5093a..b744c68 100644
--- a/GraspPlanning/ApproachMovementGenerator.cpp
+++ b/GraspPlanning/ApproachMovementGenerator.cpp
@@ -67,14 +67,14 @@ namespace GraspStudio
 
     bool ApproachMovementGenerator::updateEEFPose(const Eigen::Vector3f& deltaPosition)
     {
-        Eigen::Matrix4f pose = eef_cloned->getGCP()->getGlobalPose();
+        Eigen::Matrix4f pose = getEEFPose();
         math::Helpers::Position(pose) += deltaPosition;
         return setEEFPose(pose);
     }
 
     bool ApproachMovementGenerator::updateEEFPose(const Eigen::Matrix4f& deltaPose)
     {
-        Eigen::Matrix4f pose = eef_cloned->getGCP()->getGlobalPose();
+        Eigen::Matrix4f pose = getEEFPose();
         pose = deltaPose * pose;
         return setEEFPose(pose);
     }
-- 
2.43.0


From 6265f9c5ea32745a4731032e2058e6700fc524b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:58 +0000
Subject: [PATCH 138/217] fix: approach poses consider the pose of the object

---
 GraspPlanning/ApproachMovementSurfaceNormal.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/GraspPlanning/ApproachMovementSurfaceNormal.cpp b/GraspPlanning/ApproachMovementSurfaceNormal.cpp
index d5264e9..99ea0e2 100644
--- a/GraspPlanning/ApproachMovementSurfaceNormal.cpp
+++ b/GraspPlanning/ApproachMovementSurfaceNormal.cpp
@@ -84,6 +84,11 @@ namespace GraspStudio
             return pose;
         }
 
+        // the mesh is given in the coordinate system of the object
+        const Eigen::Matrix4f objectPose = object->getGlobalPose();
+        position = (objectPose * position.homogeneous()).head<3>();
+        approachDir = objectPose.block<3, 3>(0, 0) * approachDir;
+
         this->approachDirGlobal = approachDir;
 
         // set new pose
-- 
2.43.0


From 8f52229f934435b6aab6ae6394825b5531f4512c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:58 +0000
Subject: [PATCH 139/217] fix: check the moved hand for collisions

---
 GraspPlanning/ApproachMovementSurfaceNormal.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GraspPlanning/ApproachMovementSurfaceNormal.cpp b/GraspPlanning/ApproachMovementSurfaceNormal.cpp
index 99ea0e2..aa4167f 100644
--- a/GraspPlanning/ApproachMovementSurfaceNormal.cpp
+++ b/GraspPlanning/ApproachMovementSurfaceNormal.cpp
@@ -108,7 +108,7 @@ namespace GraspStudio
             Eigen::Vector3f delta = approachDir * distance;
             updateEEFPose(delta);
 
-            if (!eef_cloned->getCollisionChecker()->checkCollision(object, eef->createSceneObjectSet()))
+            if (!eef_cloned->getCollisionChecker()->checkCollision(object, eef_cloned->createSceneObjectSet()))
             {
                 poseB = getEEFPose();
             } // else remain at original pose
-- 
2.43.0


From 285831d459a6477914244f8a0f318935e121109d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:58 +0000
Subject: [PATCH 140/217] fix: choose faces by area when requested

---
 GraspPlanning/ApproachMovementSurfaceNormal.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/GraspPlanning/ApproachMovementSurfaceNormal.cpp b/GraspPlanning/ApproachMovementSurfaceNormal.cpp
index aa4167f..6d505e2 100644
--- a/GraspPlanning/ApproachMovementSurfaceNormal.cpp
+++ b/GraspPlanning/ApproachMovementSurfaceNormal.cpp
@@ -22,6 +22,7 @@ namespace GraspStudio
             const std::string& graspPreshape, float maxRetreatDist, bool useFaceAreaDistribution)
         : ApproachMovementGenerator(object, eef, graspPreshape),
           distribUniform(0, objectModel->faces.size() - 1),
+          useFaceAreasDistrib(useFaceAreaDistribution),
           distribRetreatDistance(0, maxRetreatDist)
     {
         name = "ApproachMovementSurfaceNormal";
-- 
2.43.0


From 889bba9e50b010a5f4d719b48f3f11fa5044eea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:00 +0000
Subject: [PATCH 141/217] fix: a time out of zero disables the time limit of
 the grasp planner

---
 GraspPlanning/GraspPlanner/GenericGraspPlanner.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/GraspPlanning/GraspPlanner/GenericGraspPlanner.cpp b/GraspPlanning/GraspPlanner/GenericGraspPlanner.cpp
index 2ef3d9d..d6546c2 100644
--- a/GraspPlanning/GraspPlanner/GenericGraspPlanner.cpp
+++ b/GraspPlanning/GraspPlanner/GenericGraspPlanner.cpp
@@ -306,8 +306,9 @@ namespace GraspStudio
 
     bool GenericGraspPlanner::timeout()
     {
-        return timeOutDuration.count() <= 0
-               || std::chrono::system_clock::now() > (startTime + timeOutDuration);
+        // no time limit when zero
+        return timeOutDuration.count() > 0
+               && std::chrono::system_clock::now() > (startTime + timeOutDuration);
     }
 
 } // namespace
-- 
2.43.0


From ef93d79f16a06379da70736bcb81b974e92e9657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:51 +0000
Subject: [PATCH 142/217] fix: transformation from grasp center to object in
 the grid of poses

---
 GraspPlanning/GraspQuality/GraspEvaluationPoseUncertainty.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GraspPlanning/GraspQuality/GraspEvaluationPoseUncertainty.cpp b/GraspPlanning/GraspQuality/GraspEvaluationPoseUncertainty.cpp
index 5d960bc..d186d49 100644
--- a/GraspPlanning/GraspQuality/GraspEvaluationPoseUncertainty.cpp
+++ b/GraspPlanning/GraspQuality/GraspEvaluationPoseUncertainty.cpp
@@ -28,7 +28,7 @@ std::vector<Eigen::Matrix4f> GraspEvaluationPoseUncertainty::generatePoses(
         const Eigen::Matrix4f &objectGP, const Eigen::Matrix4f &graspCenterGP)
 {
 	std::vector<Eigen::Matrix4f> result;
-	Eigen::Matrix4f trafoGraspCenterToObjectCenter = objectGP * graspCenterGP.inverse();
+	Eigen::Matrix4f trafoGraspCenterToObjectCenter = math::Helpers::InvertedPose(graspCenterGP) * objectGP;
 	Eigen::Matrix4f initPose = graspCenterGP;
 	Eigen::Vector3f rpy;
 	MathTools::eigen4f2rpy(initPose, rpy);
-- 
2.43.0


From 102538c66b1d1dc9c47c6abe80d2b5f66ae6e374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:51 +0000
Subject: [PATCH 143/217] fix: the grid of poses is complete

---
 .../GraspEvaluationPoseUncertainty.cpp        | 41 ++++++++++---------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/GraspPlanning/GraspQuality/GraspEvaluationPoseUncertainty.cpp b/GraspPlanning/GraspQuality/GraspEvaluationPoseUncertainty.cpp
index d186d49..4c55796 100644
--- a/GraspPlanning/GraspQuality/GraspEvaluationPoseUncertainty.cpp
+++ b/GraspPlanning/GraspQuality/GraspEvaluationPoseUncertainty.cpp
@@ -7,6 +7,7 @@
 #include <algorithm>
 #include <random>
 #include <cfloat>
+#include <cmath>
 #include <cstdlib>
 
 using namespace Eigen;
@@ -42,46 +43,46 @@ std::vector<Eigen::Matrix4f> GraspEvaluationPoseUncertainty::generatePoses(
 	initPoseRPY[5] = rpy(2);
 
 	float start[6];
-	float end[6];
 	float step[6];
+	int count[6]; // number of values (accumulating the steps would be inexact and could miss the last one)
 	float tmpPose[6];
     
 	for (int i = 0; i < 6; i++)
 	{
+		start[i] = initPoseRPY[i];
+		step[i] = 0.0f;
+		count[i] = 1;
 		if (_config.enableDimension[i])
 		{
 			start[i] = initPoseRPY[i] - _config.dimExtends[i];
-			end[i] = initPoseRPY[i] + _config.dimExtends[i];
 			step[i] = _config.stepSize[i];
-		}
-		else
-		{
-			start[i] = initPoseRPY[i];
-			end[i] = initPoseRPY[i];
-			step[i] = 1.0f;
+			if (step[i] > 0.0f)
+			{
+				count[i] = static_cast<int>(std::floor(2.0f * _config.dimExtends[i] / step[i] + 1e-3f)) + 1;
+			}
 		}
 	}
 
 	Eigen::Matrix4f m;
 
-	for (float a = start[0]; a <= end[0]; a += step[0])
+	for (int a = 0; a < count[0]; a++)
 	{
-		tmpPose[0] = a;
-		for (float b = start[1]; b <= end[1]; b += step[1])
+		tmpPose[0] = start[0] + a * step[0];
+		for (int b = 0; b < count[1]; b++)
 		{
-			tmpPose[1] = b;
-			for (float c = start[2]; c <= end[2]; c += step[2])
+			tmpPose[1] = start[1] + b * step[1];
+			for (int c = 0; c < count[2]; c++)
 			{
-				tmpPose[2] = c;
-				for (float d = start[3]; d <= end[3]; d += step[3])
+				tmpPose[2] = start[2] + c * step[2];
+				for (int d = 0; d < count[3]; d++)
 				{
-					tmpPose[3] = d;
-					for (float e = start[4]; e <= end[4]; e += step[4])
+					tmpPose[3] = start[3] + d * step[3];
+					for (int e = 0; e < count[4]; e++)
 					{
-						tmpPose[4] = e;
-						for (float f = start[5]; f <= end[5]; f += step[5])
+						tmpPose[4] = start[4] + e * step[4];
+						for (int f = 0; f < count[5]; f++)
 						{
-							tmpPose[5] = f;
+							tmpPose[5] = start[5] + f * step[5];
 							MathTools::posrpy2eigen4f(tmpPose, m);
 							m = m * trafoGraspCenterToObjectCenter;
 							result.push_back(m);
-- 
2.43.0


From f4a9701acb9c8b5be34db347fd18b6f7d04d8bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:51 +0000
Subject: [PATCH 144/217] fix: restore the robot after evaluating a grasp
 without contacts or poses

---
 .../GraspEvaluationPoseUncertainty.cpp          | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/GraspPlanning/GraspQuality/GraspEvaluationPoseUncertainty.cpp b/GraspPlanning/GraspQuality/GraspEvaluationPoseUncertainty.cpp
index 4c55796..9186418 100644
--- a/GraspPlanning/GraspQuality/GraspEvaluationPoseUncertainty.cpp
+++ b/GraspPlanning/GraspQuality/GraspEvaluationPoseUncertainty.cpp
@@ -359,16 +359,19 @@ GraspEvaluationPoseUncertainty::PoseEvalResults GraspEvaluationPoseUncertainty::
     if (contacts.empty())
     {
         VR_INFO << "No contacts for grasp " << grasp->getName() << " found" << std::endl;
-        return res;
     }
-    
-    auto poses = generatePoses(object->getGlobalPose(), contacts, numPoses);
-    if (poses.empty())
+    else
     {
-        VR_INFO << "No poses for grasp found" << std::endl;
-        return res;
+        auto poses = generatePoses(object->getGlobalPose(), contacts, numPoses);
+        if (poses.empty())
+        {
+            VR_INFO << "No poses for grasp found" << std::endl;
+        }
+        else
+        {
+            res = evaluatePoses(eef, object, poses, qm, graspPS);
+        }
     }
-    res = evaluatePoses(eef, object, poses, qm, graspPS);
 
     // restore setup
     eef->getRobot()->setGlobalPose(eefRobotPoseInit);
-- 
2.43.0


From beebb5710de8dbc8fe167761ad9fca3d77f382b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:23 +0000
Subject: [PATCH 145/217] fix: check for a missing end effector before using it

---
 GraspPlanning/GraspQuality/GraspEvaluationPoseUncertainty.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GraspPlanning/GraspQuality/GraspEvaluationPoseUncertainty.cpp b/GraspPlanning/GraspQuality/GraspEvaluationPoseUncertainty.cpp
index 9186418..53999ea 100644
--- a/GraspPlanning/GraspQuality/GraspEvaluationPoseUncertainty.cpp
+++ b/GraspPlanning/GraspQuality/GraspEvaluationPoseUncertainty.cpp
@@ -195,14 +195,14 @@ GraspEvaluationPoseUncertainty::PoseEvalResult GraspEvaluationPoseUncertainty::e
     result.quality = 0.0f;
     result.initialCollision = false;
 
-     SceneObjectSetPtr eefColModel = eef->createSceneObjectSet();
-
     if (!eef || !qm)
     {
         VR_ERROR << "Missing parameters" << endl;
         return result;
     }
 
+    SceneObjectSetPtr eefColModel = eef->createSceneObjectSet();
+
     if (preshape)
     {
         eef->getRobot()->setJointValues(preshape);
-- 
2.43.0


From df7ff60182e31ddde8442fee61e31b67cc1f08b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:18 +0000
Subject: [PATCH 146/217] fix: use a neutral over-relaxation factor in the
 Bullet configuration

---
 SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp b/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp
index 7fa7948..2b97ce7 100644
--- a/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp
+++ b/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp
@@ -24,7 +24,7 @@ namespace SimDynamics
         bulletSolverIterations = 250;
         bulletSolverGlobalContactForceMixing = 0.0;
         bulletSolverGlobalErrorReductionParameter = btScalar(0.6);
-        bulletSolverSuccessiveOverRelaxation = btScalar(0.0);
+        bulletSolverSuccessiveOverRelaxation = btScalar(1.0);
         //bulletSolverContactSurfaceLayer = btScalar(0.001);
         bulletSolverSplitImpulsePenetrationThreshold = btScalar(-0.01);
     }
-- 
2.43.0


From 0ef1f5e8b5406515297414133202e4ac312b46bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:18 +0000
Subject: [PATCH 147/217] fix: half extents of simulated cylinders

---
 SimDynamics/DynamicsEngine/BulletEngine/BulletObject.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SimDynamics/DynamicsEngine/BulletEngine/BulletObject.cpp b/SimDynamics/DynamicsEngine/BulletEngine/BulletObject.cpp
index 95a6633..c0627ce 100644
--- a/SimDynamics/DynamicsEngine/BulletEngine/BulletObject.cpp
+++ b/SimDynamics/DynamicsEngine/BulletEngine/BulletObject.cpp
@@ -196,7 +196,7 @@ namespace SimDynamics
         else if (primitive->type == Primitive::Cylinder::TYPE)
         {
             Primitive::Cylinder* cyl = boost::dynamic_pointer_cast<Primitive::Cylinder>(primitive).get();
-            btCylinderShape* cylShape = new btCylinderShape(btVector3(cyl->radius / 1000.0  * ScaleFactor, cyl->height / 1000.0  * ScaleFactor, cyl->radius / 1000.0  * ScaleFactor));
+            btCylinderShape* cylShape = new btCylinderShape(btVector3(cyl->radius / 1000.0  * ScaleFactor, cyl->height / 2000.0  * ScaleFactor, cyl->radius / 1000.0  * ScaleFactor));
             result = cylShape;
         }
         else
-- 
2.43.0


From 43c021c19d33aed0ea4a9d106205948203314888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:18 +0000
Subject: [PATCH 148/217] fix: apply the CoM offset in the new frame of the
 object

---
 .../DynamicsEngine/BulletEngine/SimoxMotionState.cpp        | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/SimDynamics/DynamicsEngine/BulletEngine/SimoxMotionState.cpp b/SimDynamics/DynamicsEngine/BulletEngine/SimoxMotionState.cpp
index ce9f4a0..8bf2794 100644
--- a/SimDynamics/DynamicsEngine/BulletEngine/SimoxMotionState.cpp
+++ b/SimDynamics/DynamicsEngine/BulletEngine/SimoxMotionState.cpp
@@ -181,9 +181,9 @@ namespace SimDynamics
     {
         initalGlobalPose = pose;
         /* convert to local coord system, apply comoffset and convert back*/
-        Eigen::Matrix4f poseLocal = sceneObject->getGlobalPose().inverse() * pose;
-        poseLocal.block(0, 3, 3, 1) += com;
-        Eigen::Matrix4f poseGlobal = sceneObject->getGlobalPose() * poseLocal;
+        Eigen::Matrix4f comLocal = Eigen::Matrix4f::Identity();
+        comLocal.block(0, 3, 3, 1) = com;
+        Eigen::Matrix4f poseGlobal = pose * comLocal;
         m_startWorldTrans = BulletEngine::getPoseBullet(poseGlobal);
         //m_startWorldTrans.getOrigin() -= _comOffset.getOrigin();
         updateTransform();
-- 
2.43.0


From 60773bb46a1e1bda14a067c1170155661d94524e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:18 +0000
Subject: [PATCH 149/217] fix: keep the orientation in
 BulletObject::setPosition

---
 SimDynamics/DynamicsEngine/BulletEngine/BulletObject.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SimDynamics/DynamicsEngine/BulletEngine/BulletObject.cpp b/SimDynamics/DynamicsEngine/BulletEngine/BulletObject.cpp
index c0627ce..7dfc715 100644
--- a/SimDynamics/DynamicsEngine/BulletEngine/BulletObject.cpp
+++ b/SimDynamics/DynamicsEngine/BulletEngine/BulletObject.cpp
@@ -276,7 +276,7 @@ namespace SimDynamics
     void BulletObject::setPosition(const Eigen::Vector3f& posMM)
     {
         MutexLockPtr lock = getScopedLock();
-        Eigen::Matrix4f pose = Eigen::Matrix4f::Identity();
+        Eigen::Matrix4f pose = sceneObject->getGlobalPose();
         pose.block(0, 3, 3, 1) = posMM;
         setPose(pose);
     }
-- 
2.43.0


From b6d63658758be07da20f5618fcafc3dc0207aaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:18 +0000
Subject: [PATCH 150/217] fix: apply the mass factor in
 BulletObject::setSimType

---
 SimDynamics/DynamicsEngine/BulletEngine/BulletObject.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SimDynamics/DynamicsEngine/BulletEngine/BulletObject.cpp b/SimDynamics/DynamicsEngine/BulletEngine/BulletObject.cpp
index 7dfc715..b385532 100644
--- a/SimDynamics/DynamicsEngine/BulletEngine/BulletObject.cpp
+++ b/SimDynamics/DynamicsEngine/BulletEngine/BulletObject.cpp
@@ -423,7 +423,7 @@ namespace SimDynamics
                 {
                     localInertia.setValue(btScalar(1), btScalar(1), btScalar(1));    // give Object a dummy inertia matrix
                 }
-                mass = sceneObject->getMass();
+                mass = sceneObject->getMass() * MassFactor;
                 btColFlag = 0;
                 break;
 
-- 
2.43.0


From 7c030350350f92eea0d8fb2eb6d18ccec3a2b2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:19 +0000
Subject: [PATCH 151/217] fix: keep the friction of objects in
 BulletEngine::updateConfig

---
 SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp b/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp
index 2b97ce7..1e40a0c 100644
--- a/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp
+++ b/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp
@@ -185,7 +185,6 @@ namespace SimDynamics
 
             btObject->getRigidBody()->setRestitution(bulletConfig->bulletObjectRestitution);
             btObject->getRigidBody()->setFriction(friction>0.0?friction:bulletConfig->bulletObjectFriction);
-            btObject->getRigidBody()->setFriction(bulletConfig->bulletObjectFriction);
             btObject->getRigidBody()->setDamping(bulletConfig->bulletObjectDampingLinear, bulletConfig->bulletObjectDampingAngular);
             btObject->getRigidBody()->setDeactivationTime(bulletConfig->bulletObjectDeactivation);
             btObject->getRigidBody()->setSleepingThresholds(bulletConfig->bulletObjectSleepingThresholdLinear, bulletConfig->bulletObjectSleepingThresholdAngular);
-- 
2.43.0


From 0be2d7cbbea840f854ade85ec9386317fd39bb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:36 +0000
Subject: [PATCH 152/217] fix: respect position and up vector of the floor

---
 SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp b/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp
index 1e40a0c..95a764d 100644
--- a/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp
+++ b/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp
@@ -305,7 +305,7 @@ namespace SimDynamics
         groundObject->setName(name);
         Eigen::Matrix4f gp;
         gp.setIdentity();
-        gp(2, 3) = -sizeSmall * 0.5f;
+        gp.block(0, 3, 3, 1) = pos - up.normalized() * sizeSmall * 0.5f;
         groundObject->setGlobalPose(gp);
 
         groundObject->getVisualization();
-- 
2.43.0


From 90a26e996042677baf0b9bad686f6061071ac985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:36 +0000
Subject: [PATCH 153/217] fix: add objects to the Bullet world once only

---
 .../DynamicsEngine/BulletEngine/BulletEngine.cpp    | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp b/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp
index 95a764d..3844c71 100644
--- a/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp
+++ b/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp
@@ -5,6 +5,8 @@
 #include <VirtualRobot/Obstacle.h>
 #include <VirtualRobot/MathTools.h>
 
+#include <algorithm>
+
 //#define DEBUG_FIXED_OBJECTS
 
 namespace SimDynamics
@@ -202,6 +204,12 @@ namespace SimDynamics
             return false;
         }
 
+        if (std::find(objects.begin(), objects.end(), o) != objects.end())
+        {
+            // already part of the world
+            return DynamicsEngine::addObject(o);
+        }
+
         int btColFlag;
 
         switch (o->getSimType())
@@ -254,6 +262,11 @@ namespace SimDynamics
             return false;
         }
 
+        if (std::find(objects.begin(), objects.end(), o) == objects.end())
+        {
+            return false;
+        }
+
         dynamicsWorld->removeRigidBody(btObject->getRigidBody().get());
         btObject->getRigidBody()->setBroadphaseHandle(nullptr);
         return DynamicsEngine::removeObject(o);
-- 
2.43.0


From 1451ec8cf0109a0a32366cab8ab103113d73b9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:05 +0000
Subject: [PATCH 154/217] fix: do not mix the joint value offset into simulated
 joint values

---
 .../DynamicsEngine/BulletEngine/BulletRobot.cpp      | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp b/SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp
index 1e65be5..763cc7e 100644
--- a/SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp
+++ b/SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp
@@ -376,9 +376,10 @@ namespace SimDynamics
             boost::shared_ptr<RobotNodePrismatic> rnPrisJoint = boost::dynamic_pointer_cast<RobotNodePrismatic>(joint);
 
             double limMin, limMax;
-            btScalar diff = joint->getJointValueOffset();
-            limMin = (joint->getJointLimitLo() + diff) / 1000 * BulletObject::ScaleFactor; //mm -> m
-            limMax = (joint->getJointLimitHi() + diff) / 1000 * BulletObject::ScaleFactor; //mm -> m
+            // the bodies are linked at the current joint value, where the joint value in bullet is zero
+            btScalar diff = -joint->getJointValue() / 1000 * BulletObject::ScaleFactor; //mm -> m
+            limMin = joint->getJointLimitLo() / 1000 * BulletObject::ScaleFactor + diff; //mm -> m
+            limMax = joint->getJointLimitHi() / 1000 * BulletObject::ScaleFactor + diff; //mm -> m
 
             Eigen::Vector3f directionLocal = rnPrisJoint->getJointTranslationDirectionJointCoordSystem();
 
@@ -405,7 +406,8 @@ namespace SimDynamics
             Eigen::Vector3f axisGlobal = rnRevJoint->getJointRotationAxis();
             Eigen::Vector3f axisLocal = rnRevJoint->getJointRotationAxisInJointCoordSystem();
             btScalar limMinBT, limMaxBT;
-            btScalar diff = joint->getJointValueOffset();//startAngleBT + startAngle);
+            // the bodies are linked at the current joint value, where the joint value in bullet is zero
+            btScalar diff = -joint->getJointValue();//startAngleBT + startAngle);
             limMinBT = btScalar(limMin) + diff;//diff - limMax;//
             limMaxBT = btScalar(limMax) + diff;//diff - limMin;//
             jointbt = createHingeJoint(btBody1, btBody2, coordSystemNode1, coordSystemNode2, anchor_inNode1, anchor_inNode2, axisGlobal, axisLocal, coordSystemJoint, limMinBT, limMaxBT);
@@ -599,7 +601,7 @@ namespace SimDynamics
                     it->second.jointValueTarget += velocityTarget * dt;
                 }
 
-                btScalar posTarget = btScalar(it->second.jointValueTarget + link.jointValueOffset);
+                btScalar posTarget = btScalar(it->second.jointValueTarget);
                 btScalar posActual = btScalar(getJointAngle(it->first));
                 controller.setName(it->first->getName());
 
-- 
2.43.0


From 72049f124e9e0c820d8bd4e4e8bb804741ee71d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:40 +0000
Subject: [PATCH 155/217] fix: velocity zero for joints without earlier target

---
 SimDynamics/DynamicsEngine/DynamicsRobot.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/SimDynamics/DynamicsEngine/DynamicsRobot.cpp b/SimDynamics/DynamicsEngine/DynamicsRobot.cpp
index ad3ac8b..f85d0b4 100644
--- a/SimDynamics/DynamicsEngine/DynamicsRobot.cpp
+++ b/SimDynamics/DynamicsEngine/DynamicsRobot.cpp
@@ -210,7 +210,7 @@ namespace SimDynamics
 //            target.jointValueTarget = oldTargetIt->second.jointValueTarget;
 //        }
 //        else
-        if(std::abs(jointVelocity) < 1e-10)
+        if(std::abs(jointVelocity) < 1e-10 && oldTargetIt != actuationTargets.end())
         {
             //do not move
             target.jointValueTarget = oldTargetIt->second.jointValueTarget;
-- 
2.43.0


From 1e040dac9f53860cc7deb82f31821efb83d67004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:57 +0000
Subject: [PATCH 156/217] fix: reset the collision settings of new dynamics
 objects

---
 SimDynamics/DynamicsWorld.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/SimDynamics/DynamicsWorld.cpp b/SimDynamics/DynamicsWorld.cpp
index 9970ac9..1cb140d 100644
--- a/SimDynamics/DynamicsWorld.cpp
+++ b/SimDynamics/DynamicsWorld.cpp
@@ -100,7 +100,15 @@ namespace SimDynamics
         DynamicsEngineFactoryPtr factory = DynamicsEngineFactory::first(nullptr);
         SIMDYNAMICS_ASSERT(factory);
 
-        return factory->createObject(o);
+        DynamicsObjectPtr result = factory->createObject(o);
+
+        // the engine might still know collision settings of a deleted object at the same address
+        if (world && result)
+        {
+            world->engine->resetCollisions(result.get());
+        }
+
+        return result;
     }
 
     void DynamicsWorld::createFloorPlane(const Eigen::Vector3f& pos /*= Eigen::Vector3f(0,0,0)*/,
-- 
2.43.0


From 5fe8d2485581afc16aed6b8a2ee22b3118d1cc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:28 +0000
Subject: [PATCH 157/217] fix: report the poses of the current step

---
 SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp b/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp
index 3844c71..d627210 100644
--- a/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp
+++ b/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp
@@ -91,7 +91,12 @@ namespace SimDynamics
 
         constraintSolver = new btSequentialImpulseConstraintSolver;
 
-        dynamicsWorld = new btDiscreteDynamicsWorld(dispatcher, overlappingPairCache, constraintSolver, collision_config);
+        btDiscreteDynamicsWorld* discreteWorld = new btDiscreteDynamicsWorld(dispatcher, overlappingPairCache, constraintSolver, collision_config);
+#if BT_BULLET_VERSION >= 283
+        // do not report the poses of the previous step, the joint values are those of the current one
+        discreteWorld->setLatencyMotionStateInterpolation(false);
+#endif
+        dynamicsWorld = discreteWorld;
 
         dynamicsWorld->setGravity(btVector3(btScalar(config->gravity[0] * BulletObject::ScaleFactor),
                                   btScalar(config->gravity[1] * BulletObject::ScaleFactor),
-- 
2.43.0


From d9a258a0f6bedcdb7f829f556ecc9ff575314bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:13 +0000
Subject: [PATCH 158/217] fix: current value of simulated prismatic joints

---
 SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp b/SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp
index 763cc7e..478f076 100644
--- a/SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp
+++ b/SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp
@@ -1061,7 +1061,12 @@ namespace SimDynamics
             boost::shared_ptr<btSliderConstraint> slider = boost::dynamic_pointer_cast<btSliderConstraint>(link.joint);
             VR_ASSERT(slider);
 
-            return (slider->getLinearPos() - link.jointValueOffset) * 1000 / BulletObject::ScaleFactor; // m -> mm
+            // slider->getLinearPos() is the position at the beginning of the last simulation step
+            btTransform frameA = slider->getRigidBodyA().getCenterOfMassTransform() * slider->getFrameOffsetA();
+            btTransform frameB = slider->getRigidBodyB().getCenterOfMassTransform() * slider->getFrameOffsetB();
+            btScalar linearPos = frameA.getBasis().getColumn(0).dot(frameB.getOrigin() - frameA.getOrigin());
+
+            return (linearPos - link.jointValueOffset) * 1000 / BulletObject::ScaleFactor; // m -> mm
         }
         else
         {
-- 
2.43.0


From ea3f02b16ec99ab9b648889b024964adec8d6e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:52 +0000
Subject: [PATCH 159/217] fix: do not limit limitless joints in the simulation

---
 SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp b/SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp
index 478f076..3b19e8d 100644
--- a/SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp
+++ b/SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp
@@ -410,6 +410,14 @@ namespace SimDynamics
             btScalar diff = -joint->getJointValue();//startAngleBT + startAngle);
             limMinBT = btScalar(limMin) + diff;//diff - limMax;//
             limMaxBT = btScalar(limMax) + diff;//diff - limMin;//
+
+            if (joint->isLimitless())
+            {
+                // bullet hinges are free if the lower limit is above the upper one, otherwise they stop at +-pi
+                limMinBT = btScalar(1);
+                limMaxBT = btScalar(-1);
+            }
+
             jointbt = createHingeJoint(btBody1, btBody2, coordSystemNode1, coordSystemNode2, anchor_inNode1, anchor_inNode2, axisGlobal, axisLocal, coordSystemJoint, limMinBT, limMaxBT);
 
             vr2bulletOffset = diff;
-- 
2.43.0


From 40d7aece4e2ddcc9ad6aabbf39fbee8c31d1f858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:24 +0000
Subject: [PATCH 160/217] fix: apply joint torques in the simulation

---
 .../BulletEngine/BulletRobot.cpp              | 23 +++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp b/SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp
index 3b19e8d..28c2085 100644
--- a/SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp
+++ b/SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp
@@ -566,8 +566,16 @@ namespace SimDynamics
                      btVector3 hingeTorqueA = - torque * hingeAxisWorldA;
                      btVector3 hingeTorqueB =   torque * hingeAxisWorldB;
                      hinge->enableMotor(false);
-                     hinge->getRigidBodyA().applyTorque(hingeTorqueA);
-                     hinge->getRigidBodyB().applyTorque(hingeTorqueB);
+
+                     if (torque != 0)
+                     {
+                         hinge->getRigidBodyA().activate();
+                         hinge->getRigidBodyB().activate();
+                     }
+
+                     // this is called after each (sub)step, forces would be cleared before the next one or add up
+                     hinge->getRigidBodyA().applyTorqueImpulse(hingeTorqueA * btScalar(dt));
+                     hinge->getRigidBodyB().applyTorqueImpulse(hingeTorqueB * btScalar(dt));
                  }
                  else
                  {
@@ -592,8 +600,15 @@ namespace SimDynamics
                      btVector3 sliderTorqueA = - torque * sliderAxisWorldA;
                      btVector3 sliderTorqueB =   torque * sliderAxisWorldB;
                      slider->setPoweredLinMotor(false);
-                     slider->btTypedConstraint::getRigidBodyA().applyCentralForce(sliderTorqueA);
-                     slider->btTypedConstraint::getRigidBodyB().applyCentralForce(sliderTorqueB);
+
+                     if (torque != 0)
+                     {
+                         slider->btTypedConstraint::getRigidBodyA().activate();
+                         slider->btTypedConstraint::getRigidBodyB().activate();
+                     }
+
+                     slider->btTypedConstraint::getRigidBodyA().applyCentralImpulse(sliderTorqueA * btScalar(dt));
+                     slider->btTypedConstraint::getRigidBodyB().applyCentralImpulse(sliderTorqueB * btScalar(dt));
                  }
             }
             else if (actuation.modes.position || actuation.modes.velocity)
-- 
2.43.0


From 9f86917bf56ccbbcc8a0956b7f4db2e75d839138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:24 +0000
Subject: [PATCH 161/217] fix: do not limit torques of joints without max
 torque

---
 .../DynamicsEngine/BulletEngine/BulletRobot.cpp    | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp b/SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp
index 28c2085..9c8d2bb 100644
--- a/SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp
+++ b/SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp
@@ -560,8 +560,11 @@ namespace SimDynamics
                              hingeAxisLocalB;
 
 
-                     int sign = torque > 0?1:-1;
-                     torque = std::min<double>(fabs(torque), it->first->getMaxTorque()) * sign;
+                     if (it->first->getMaxTorque() > 0)
+                     {
+                         int sign = torque > 0?1:-1;
+                         torque = std::min<double>(fabs(torque), it->first->getMaxTorque()) * sign;
+                     }
 
                      btVector3 hingeTorqueA = - torque * hingeAxisWorldA;
                      btVector3 hingeTorqueB =   torque * hingeAxisWorldB;
@@ -594,8 +597,11 @@ namespace SimDynamics
                              sliderAxisLocalB;
 
 
-                     int sign = torque > 0?1:-1;
-                     torque = std::min<double>(fabs(torque), it->first->getMaxTorque()) * sign;
+                     if (it->first->getMaxTorque() > 0)
+                     {
+                         int sign = torque > 0?1:-1;
+                         torque = std::min<double>(fabs(torque), it->first->getMaxTorque()) * sign;
+                     }
 
                      btVector3 sliderTorqueA = - torque * sliderAxisWorldA;
                      btVector3 sliderTorqueB =   torque * sliderAxisWorldB;
-- 
2.43.0


From 0e070d724cecf7b8ec27f8237738ddea0e972754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:25 +0000
Subject: [PATCH 162/217] fix: axis of torque-controlled prismatic joints

---
 SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp b/SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp
index 9c8d2bb..97f76db 100644
--- a/SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp
+++ b/SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp
@@ -586,9 +586,9 @@ namespace SimDynamics
                      boost::shared_ptr<btSliderConstraint> slider = boost::dynamic_pointer_cast<btSliderConstraint>(link.joint);
                      auto torque = it->second.jointTorqueTarget;
                      btVector3 sliderAxisLocalA =
-                             slider->getFrameOffsetA().getBasis().getColumn(2);
+                             slider->getFrameOffsetA().getBasis().getColumn(0);
                      btVector3 sliderAxisLocalB =
-                             slider->getFrameOffsetB().getBasis().getColumn(2);
+                             slider->getFrameOffsetB().getBasis().getColumn(0);
                      btVector3 sliderAxisWorldA =
                              slider->getRigidBodyA().getWorldTransform().getBasis() *
                              sliderAxisLocalA;
-- 
2.43.0


From 97f024191b2a1aa38fbab9e7c39e3ad3154dcf71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:25 +0000
Subject: [PATCH 163/217] fix: skip nodes without body in BulletRobot CoM and
 momentum

---
 .../BulletEngine/BulletRobot.cpp              | 41 ++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp b/SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp
index 97f76db..ed703be 100644
--- a/SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp
+++ b/SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp
@@ -1289,12 +1289,23 @@ namespace SimDynamics
         {
             VirtualRobot::RobotNodePtr node = (*set)[i];
             BulletObjectPtr bo = boost::dynamic_pointer_cast<BulletObject>(getDynamicsRobotNode(node));
+
+            if (!bo)
+            {
+                // nodes without physical representation are not part of the simulation
+                continue;
+            }
+
             Eigen::Matrix4f pose = bo->getComGlobal();
             com += node->getMass() * pose.block(0, 3, 3, 1);
             totalMass += node->getMass();
         }
 
-        com *= float(1.0f / totalMass);
+        if (totalMass > 0)
+        {
+            com *= float(1.0f / totalMass);
+        }
+
         return com;
     }
 
@@ -1308,6 +1319,13 @@ namespace SimDynamics
         {
             VirtualRobot::RobotNodePtr node = (*set)[i];
             BulletObjectPtr bo = boost::dynamic_pointer_cast<BulletObject>(getDynamicsRobotNode(node));
+
+            if (!bo)
+            {
+                // nodes without physical representation are not part of the simulation
+                continue;
+            }
+
             Eigen::Vector3f vel = bo->getLinearVelocity();
 
             if (boost::math::isnan(vel(0)) || boost::math::isnan(vel(1)) || boost::math::isnan(vel(2)))
@@ -1346,6 +1364,13 @@ namespace SimDynamics
         {
             VirtualRobot::RobotNodePtr node = (*set)[i];
             BulletObjectPtr bo = boost::dynamic_pointer_cast<BulletObject>(getDynamicsRobotNode(node));
+
+            if (!bo)
+            {
+                // nodes without physical representation are not part of the simulation
+                continue;
+            }
+
             Eigen::Vector3f vel = bo->getLinearVelocity() / 1000.0  * BulletObject::ScaleFactor;
 
             linMomentum += node->getMass() * vel;
@@ -1363,6 +1388,13 @@ namespace SimDynamics
         {
             VirtualRobot::RobotNodePtr node = (*set)[i];
             BulletObjectPtr bo = boost::dynamic_pointer_cast<BulletObject>(getDynamicsRobotNode(node));
+
+            if (!bo)
+            {
+                // nodes without physical representation are not part of the simulation
+                continue;
+            }
+
             Eigen::Vector3f vel = bo->getLinearVelocity() / 1000.0  * BulletObject::ScaleFactor;
             Eigen::Vector3f ang = bo->getAngularVelocity() / 1000.0  * BulletObject::ScaleFactor;
             Eigen::Vector3f com = bo->getComGlobal().block(0, 3, 3, 1) / 1000.0  * BulletObject::ScaleFactor;
@@ -1388,6 +1420,13 @@ namespace SimDynamics
         {
             VirtualRobot::RobotNodePtr node = (*set)[i];
             BulletObjectPtr bo = boost::dynamic_pointer_cast<BulletObject>(getDynamicsRobotNode(node));
+
+            if (!bo)
+            {
+                // nodes without physical representation are not part of the simulation
+                continue;
+            }
+
             Eigen::Vector3f bodyVel = bo->getLinearVelocity() / 1000.0  * BulletObject::ScaleFactor;
             Eigen::Vector3f ang = bo->getAngularVelocity() / 1000.0  * BulletObject::ScaleFactor;
             Eigen::Vector3f bodyCoM = bo->getComGlobal().block(0, 3, 3, 1) / 1000.0  * BulletObject::ScaleFactor;
-- 
2.43.0


From d327f184106001ee9c7ec72b7d64bcddc49cbc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:25 +0000
Subject: [PATCH 164/217] fix: units of the momenta of simulated robots

---
 .../BulletEngine/BulletRobot.cpp              | 64 +++++++++++++------
 1 file changed, 46 insertions(+), 18 deletions(-)

diff --git a/SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp b/SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp
index ed703be..2d102c7 100644
--- a/SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp
+++ b/SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp
@@ -1355,6 +1355,41 @@ namespace SimDynamics
         return com;
     }
 
+    namespace
+    {
+        //! Inertia tensor in kg*m^2 w.r.t. the CoM, given in the axes of the global coordinate system
+        Eigen::Matrix3f getInertiaWorld(const BulletObjectPtr& bo)
+        {
+            boost::shared_ptr<btRigidBody> body = bo->getRigidBody();
+            btVector3 invInertia = body->getInvInertiaDiagLocal();
+            btVector3 inertia(0, 0, 0);
+
+            for (int i = 0; i < 3; i++)
+            {
+                // static objects have an inverse inertia of zero and do not rotate
+                if (invInertia[i] != 0)
+                {
+                    inertia[i] = btScalar(1) / invInertia[i];
+                }
+            }
+
+            btMatrix3x3 rot = body->getWorldTransform().getBasis();
+            btMatrix3x3 inertiaWorld = rot.scaled(inertia) * rot.transpose();
+            Eigen::Matrix3f result;
+
+            for (int i = 0; i < 3; i++)
+            {
+                for (int j = 0; j < 3; j++)
+                {
+                    result(i, j) = float(inertiaWorld[i][j]);
+                }
+            }
+
+            // bullet uses scaled lengths
+            return result / (BulletObject::ScaleFactor * BulletObject::ScaleFactor);
+        }
+    }
+
     Eigen::Vector3f BulletRobot::getLinearMomentumGlobal(const VirtualRobot::RobotNodeSetPtr& set)
     {
         MutexLockPtr lock = getScopedLock();
@@ -1371,7 +1406,7 @@ namespace SimDynamics
                 continue;
             }
 
-            Eigen::Vector3f vel = bo->getLinearVelocity() / 1000.0  * BulletObject::ScaleFactor;
+            Eigen::Vector3f vel = bo->getLinearVelocity() / 1000.0;
 
             linMomentum += node->getMass() * vel;
         }
@@ -1395,13 +1430,12 @@ namespace SimDynamics
                 continue;
             }
 
-            Eigen::Vector3f vel = bo->getLinearVelocity() / 1000.0  * BulletObject::ScaleFactor;
-            Eigen::Vector3f ang = bo->getAngularVelocity() / 1000.0  * BulletObject::ScaleFactor;
-            Eigen::Vector3f com = bo->getComGlobal().block(0, 3, 3, 1) / 1000.0  * BulletObject::ScaleFactor;
+            Eigen::Vector3f vel = bo->getLinearVelocity() / 1000.0;
+            Eigen::Vector3f ang = bo->getAngularVelocity();
+            Eigen::Vector3f com = bo->getComGlobal().block(0, 3, 3, 1) / 1000.0;
             double mass = node->getMass();
 
-            boost::shared_ptr<btRigidBody> body = bo->getRigidBody();
-            Eigen::Matrix3f intertiaWorld = BulletEngine::getRotMatrix(body->getInvInertiaTensorWorld()).inverse().block(0, 0, 3, 3);
+            Eigen::Matrix3f intertiaWorld = getInertiaWorld(bo);
 
             angMomentum += com.cross(mass * vel) + intertiaWorld * ang;
         }
@@ -1413,7 +1447,7 @@ namespace SimDynamics
     {
         MutexLockPtr lock = getScopedLock();
         Eigen::Vector3f angMomentum = Eigen::Vector3f::Zero();
-        Eigen::Vector3f com = getComGlobal(set) / 1000.0  * BulletObject::ScaleFactor;
+        Eigen::Vector3f com = getComGlobal(set) / 1000.0;
         Eigen::Vector3f comVel = getComVelocityGlobal(set) / 1000;
 
         for (unsigned int i = 0; i < set->getSize(); i++)
@@ -1427,20 +1461,14 @@ namespace SimDynamics
                 continue;
             }
 
-            Eigen::Vector3f bodyVel = bo->getLinearVelocity() / 1000.0  * BulletObject::ScaleFactor;
-            Eigen::Vector3f ang = bo->getAngularVelocity() / 1000.0  * BulletObject::ScaleFactor;
-            Eigen::Vector3f bodyCoM = bo->getComGlobal().block(0, 3, 3, 1) / 1000.0  * BulletObject::ScaleFactor;
+            Eigen::Vector3f bodyVel = bo->getLinearVelocity() / 1000.0;
+            Eigen::Vector3f ang = bo->getAngularVelocity();
+            Eigen::Vector3f bodyCoM = bo->getComGlobal().block(0, 3, 3, 1) / 1000.0;
             double mass = node->getMass();
 
-            boost::shared_ptr<btRigidBody> body = bo->getRigidBody();
-
-            btVector3 invIntertiaDiag = body->getInvInertiaDiagLocal();
-            Eigen::Matrix3f intertiaLocal = Eigen::Matrix3f::Zero();
-            intertiaLocal(0, 0) = 1 / invIntertiaDiag.getX();
-            intertiaLocal(1, 1) = 1 / invIntertiaDiag.getY();
-            intertiaLocal(2, 2) = 1 / invIntertiaDiag.getZ();
+            Eigen::Matrix3f intertiaWorld = getInertiaWorld(bo);
 
-            angMomentum += mass * (bodyCoM - com).cross(bodyVel - comVel) + intertiaLocal * ang;
+            angMomentum += mass * (bodyCoM - com).cross(bodyVel - comVel) + intertiaWorld * ang;
         }
 
         return angMomentum;
-- 
2.43.0


From 6f4a30c575ab44c98eabd2c93c5bf74fd638f45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:25 +0000
Subject: [PATCH 165/217] fix: do not change the Bullet world for known robots

---
 SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp b/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp
index d627210..4598caf 100644
--- a/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp
+++ b/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp
@@ -443,6 +443,12 @@ namespace SimDynamics
             return false;
         }
 
+        if (getRobot(r->getRobot()))
+        {
+            // already present or rejected, in both cases the bullet world must not be changed
+            return DynamicsEngine::addRobot(r);
+        }
+
         std::vector<BulletRobot::LinkInfo> links = btRobot->getLinks();
         std::vector<DynamicsObjectPtr> nodes = btRobot->getDynamicsRobotNodes();
 
-- 
2.43.0


From 4759f7c4da1c2c57c446fa666ed8e75ce3562f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:25 +0000
Subject: [PATCH 166/217] fix: ignore unknown robots in
 BulletEngine::removeRobot

---
 SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp b/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp
index 4598caf..bc5ad24 100644
--- a/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp
+++ b/SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp
@@ -513,6 +513,11 @@ namespace SimDynamics
             return false;
         }
 
+        if (find(robots.begin(), robots.end(), r) == robots.end())
+        {
+            return false;
+        }
+
         std::vector<BulletRobot::LinkInfo> links = btRobot->getLinks();
         std::vector<DynamicsObjectPtr> nodes = btRobot->getDynamicsRobotNodes();
 
-- 
2.43.0


From a5113f244e5183aef1ee2933b2e9578d3e74159a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:38 +0000
Subject: [PATCH 167/217] fix: return value of getJointTargetSpeed for fixed
 joints

---
 SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp b/SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp
index 2d102c7..c799a5a 100644
--- a/SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp
+++ b/SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp
@@ -1128,6 +1128,8 @@ namespace SimDynamics
 
             return slider->getTargetLinMotorVelocity() * 1000; // / BulletObject::ScaleFactor; m -> mm
         }
+
+        return 0.0;
     }
 
     double BulletRobot::getJointSpeed(VirtualRobot::RobotNodePtr rn)
-- 
2.43.0


From c506f4d969100dc792505f02f790233777c0a00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:18 +0000
Subject: [PATCH 168/217] fix: joint speed of prismatic joints on rotating
 bodies

---
 SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp b/SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp
index c799a5a..058dd32 100644
--- a/SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp
+++ b/SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp
@@ -1166,7 +1166,10 @@ namespace SimDynamics
             boost::shared_ptr<RobotNodePrismatic> rnPrisJoint = boost::dynamic_pointer_cast<RobotNodePrismatic>(link.nodeJoint);
 
             Eigen::Vector3f jointDirection = rnPrisJoint->getGlobalPose().block<3, 3>(0, 0) * rnPrisJoint->getJointTranslationDirectionJointCoordSystem();
-            Eigen::Vector3f deltaVel = (link.dynNode2->getLinearVelocity() - link.dynNode1->getLinearVelocity());
+            // velocities of the CoMs without the common rotation of both bodies
+            Eigen::Vector3f coms = (link.dynNode2->getComGlobal() - link.dynNode1->getComGlobal()).block<3, 1>(0, 3);
+            Eigen::Vector3f deltaVel = link.dynNode2->getLinearVelocity() - link.dynNode1->getLinearVelocity()
+                                       - link.dynNode1->getAngularVelocity().cross(coms);
             return jointDirection.dot(deltaVel) / jointDirection.norm();
         }
         else
-- 
2.43.0


From 1af85a912da0015b2453fb17d3a00da80a1003a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:08 +0000
Subject: [PATCH 169/217] fix: ignore targets of joints without bodies in the
 simulation

---
 SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp b/SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp
index 058dd32..7396727 100644
--- a/SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp
+++ b/SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp
@@ -518,6 +518,12 @@ namespace SimDynamics
             if (!it->second.node->isRotationalJoint() && !it->second.node->isTranslationalJoint())
                 continue;
 
+            if (!hasLink(it->second.node))
+            {
+                // joints without bodies are not part of the simulation
+                continue;
+            }
+
             LinkInfo link = getLink(it->second.node);
 
             const ActuationMode& actuation = it->second.actuation;
-- 
2.43.0


From 13d19c8cd234b4f782d80655646865876a681d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:26 +0000
Subject: [PATCH 170/217] fix: voxel trees do not return entries outside of
 their space

---
 VirtualRobot/Workspace/VoxelTree6DElement.hpp | 2 +-
 VirtualRobot/Workspace/VoxelTreeNDElement.hpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/VirtualRobot/Workspace/VoxelTree6DElement.hpp b/VirtualRobot/Workspace/VoxelTree6DElement.hpp
index fa3a707..56a358f 100644
--- a/VirtualRobot/Workspace/VoxelTree6DElement.hpp
+++ b/VirtualRobot/Workspace/VoxelTree6DElement.hpp
@@ -141,7 +141,7 @@ namespace VirtualRobot
         {
             if (leaf)
             {
-                return entry;
+                return covers(p) ? entry : NULL;
             }
 
             int indx = getChildIndx(p);
diff --git a/VirtualRobot/Workspace/VoxelTreeNDElement.hpp b/VirtualRobot/Workspace/VoxelTreeNDElement.hpp
index 6c7b5d1..de3a317 100644
--- a/VirtualRobot/Workspace/VoxelTreeNDElement.hpp
+++ b/VirtualRobot/Workspace/VoxelTreeNDElement.hpp
@@ -159,7 +159,7 @@ namespace VirtualRobot
         {
             if (leaf)
             {
-                return entry;
+                return covers(p) ? entry : NULL;
             }
 
             int indx = getChildIndx(p);
@@ -177,7 +177,7 @@ namespace VirtualRobot
         {
             if (leaf)
             {
-                return this;
+                return (entry && covers(pos)) ? this : NULL;
             }
 
             int indx = getChildIndx(pos);
-- 
2.43.0


From ccbbbabc1a62366b4c8f7add185763c024abf416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:27 +0000
Subject: [PATCH 171/217] fix: number of levels of VoxelTree6D

---
 VirtualRobot/Workspace/VoxelTree6D.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/VirtualRobot/Workspace/VoxelTree6D.hpp b/VirtualRobot/Workspace/VoxelTree6D.hpp
index c92d202..6b2d308 100644
--- a/VirtualRobot/Workspace/VoxelTree6D.hpp
+++ b/VirtualRobot/Workspace/VoxelTree6D.hpp
@@ -87,7 +87,10 @@ namespace VirtualRobot
                 steps = steps2;
             }
 
-            maxLevels = int(ceil(sqrt(double(steps))));
+            THROW_VR_EXCEPTION_IF(steps <= 0, "Invalid parameters...");
+
+            // each level divides the voxels in halves
+            maxLevels = int(ceil(log10(double(steps)) / log10(2.0))) + 1;
 
             if (verbose)
             {
@@ -107,7 +110,6 @@ namespace VirtualRobot
                 VR_INFO << "--> Max Levels:" << maxLevels << endl;
             }
 
-            THROW_VR_EXCEPTION_IF(steps <= 0, "Invalid parameters...");
             root = new VoxelTree6DElement<T>(minExtend, size, 0, maxLevels);
 
         }
-- 
2.43.0


From e9eb58bc22479970ad4f3522e44784d9cb45a170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:56 +0000
Subject: [PATCH 172/217] fix: iterate voxel trees that consist of one voxel

---
 VirtualRobot/Workspace/VoxelTreeND.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/VirtualRobot/Workspace/VoxelTreeND.hpp b/VirtualRobot/Workspace/VoxelTreeND.hpp
index ab7fd8a..0adfca1 100644
--- a/VirtualRobot/Workspace/VoxelTreeND.hpp
+++ b/VirtualRobot/Workspace/VoxelTreeND.hpp
@@ -660,6 +660,18 @@ namespace VirtualRobot
 
                 // go down
                 elementStack.push_back(currentElement);
+
+                if (currentElement->isLeaf())
+                {
+                    // the tree consists of one voxel
+                    if (!currentElement->getEntry())
+                    {
+                        currentElement = NULL;
+                    }
+
+                    return currentElement;
+                }
+
                 currentElement = currentElement->getNextChild(0, currentElementNr);
 
                 while (currentElement && !currentElement->isLeaf())
@@ -706,6 +718,12 @@ namespace VirtualRobot
                 currentElement = elementStack.back();
                 elementStack.pop_back(); // pop current element from stack
 
+                if (idStack.empty())
+                {
+                    currentElement = NULL;
+                    return NULL;
+                }
+
                 do
                 {
                     currentElement = elementStack.back();
-- 
2.43.0


From 484b4757d843bec7893249a19c02ddcf63725a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:30 +0000
Subject: [PATCH 173/217] fix: find the face of directions on the border of
 faces

---
 MotionPlanning/ApproachDiscretization.cpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/MotionPlanning/ApproachDiscretization.cpp b/MotionPlanning/ApproachDiscretization.cpp
index e3d399c..3cb13f5 100644
--- a/MotionPlanning/ApproachDiscretization.cpp
+++ b/MotionPlanning/ApproachDiscretization.cpp
@@ -104,8 +104,27 @@ namespace Saba
             }
         }
 
-        cout << __FUNCTION__ << " No face found ?!" << endl;
-        return -1;
+        // due to rounding, directions on the border of a face may be missed by all faces: take the best one
+        int bestFace = -1;
+        float bestFit = -FLT_MAX;
+        dir.normalize();
+
+        for (size_t i = 0; i < sphere.faces.size(); i++)
+        {
+            const Eigen::Vector3f& v1 = sphere.vertices[sphere.faces[i].id1];
+            const Eigen::Vector3f& v2 = sphere.vertices[sphere.faces[i].id2];
+            const Eigen::Vector3f& v3 = sphere.vertices[sphere.faces[i].id3];
+            // the faces are oriented clockwise
+            float fit = std::min(std::min(v2.cross(v1).dot(dir), v3.cross(v2).dot(dir)), v1.cross(v3).dot(dir));
+
+            if (fit > bestFit)
+            {
+                bestFit = fit;
+                bestFace = (int)i;
+            }
+        }
+
+        return bestFace;
     }
 
     void ApproachDiscretization::removeCSpaceNode(int faceId, CSpaceNodePtr node)
-- 
2.43.0


From 4e96b9905d17ac1663017847bf68c0e95b60696b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:30 +0000
Subject: [PATCH 174/217] fix: check range of face ids of
 ApproachDiscretization

---
 MotionPlanning/ApproachDiscretization.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MotionPlanning/ApproachDiscretization.cpp b/MotionPlanning/ApproachDiscretization.cpp
index 3cb13f5..c12444a 100644
--- a/MotionPlanning/ApproachDiscretization.cpp
+++ b/MotionPlanning/ApproachDiscretization.cpp
@@ -129,7 +129,7 @@ namespace Saba
 
     void ApproachDiscretization::removeCSpaceNode(int faceId, CSpaceNodePtr node)
     {
-        if (faceId < 0 || faceId > (int)sphere.faces.size())
+        if (faceId < 0 || faceId >= (int)sphere.faces.size())
         {
             cout << __FUNCTION__ << "wrong face ID :" << faceId << endl;
             return;
@@ -168,7 +168,7 @@ namespace Saba
 
     void ApproachDiscretization::addCSpaceNode(int faceId, CSpaceNodePtr node)
     {
-        if (faceId < 0 || faceId > (int)sphere.faces.size())
+        if (faceId < 0 || faceId >= (int)sphere.faces.size())
         {
             cout << __FUNCTION__ << "wrong face ID :" << faceId << endl;
             return;
-- 
2.43.0


From 93911ac64f069d71558ac73943be940f7746c12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:00 +0000
Subject: [PATCH 175/217] fix: clean up after a timeout of GraspIkRrt

---
 MotionPlanning/Planner/GraspIkRrt.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/MotionPlanning/Planner/GraspIkRrt.cpp b/MotionPlanning/Planner/GraspIkRrt.cpp
index 2c6b1fd..401a8b3 100644
--- a/MotionPlanning/Planner/GraspIkRrt.cpp
+++ b/MotionPlanning/Planner/GraspIkRrt.cpp
@@ -233,6 +233,13 @@ namespace Saba
             if(diffClock > planningTimeout)
             {
                 std::cout << "Encountered timeout of " << planningTimeout << " ms - aborting" << std::endl;
+                planningTime = (float)diffClock;
+
+                if (robot && bVisStatus)
+                {
+                    robot->setUpdateVisualization(bVisStatus);
+                }
+
                 return false;
             }
         }
-- 
2.43.0


From f3fac045ab269d3d3983307d3bee0f5336bc118a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:11 +0000
Subject: [PATCH 176/217] fix: normalize rotation axis of grasp poses

---
 MotionPlanning/Planner/GraspRrt.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/MotionPlanning/Planner/GraspRrt.cpp b/MotionPlanning/Planner/GraspRrt.cpp
index 48b6a1d..d24f7c2 100644
--- a/MotionPlanning/Planner/GraspRrt.cpp
+++ b/MotionPlanning/Planner/GraspRrt.cpp
@@ -469,6 +469,14 @@ namespace Saba
         Eigen::Vector3f rotAxis_local;
         rotAxis_local = vecZ_local.cross(vecTarget_local);
 
+        if (rotAxis_local.norm() < 1e-6)
+        {
+            // (anti)parallel: any orthogonal axis
+            rotAxis_local = Eigen::Vector3f::UnitX();
+        }
+
+        rotAxis_local.normalize();
+
         mRotMat = VirtualRobot::MathTools::axisangle2eigen4f(rotAxis_local, fAngle);
 
         // construct global grasp pose
-- 
2.43.0


From bf6f8d9f26cebb77af183d1dd23c6ca29853a752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:12 +0000
Subject: [PATCH 177/217] fix: restore visualization status after GraspRrt
 planning

---
 MotionPlanning/Planner/GraspRrt.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MotionPlanning/Planner/GraspRrt.cpp b/MotionPlanning/Planner/GraspRrt.cpp
index d24f7c2..d2b9bbb 100644
--- a/MotionPlanning/Planner/GraspRrt.cpp
+++ b/MotionPlanning/Planner/GraspRrt.cpp
@@ -270,6 +270,7 @@ namespace Saba
                 return false;
             }
 
+        bool visStatus = cspace->getRobot()->getUpdateVisualizationStatus();
         cspace->getRobot()->setUpdateVisualization(false);
 
         clock_t startClock = clock();
@@ -321,7 +322,7 @@ namespace Saba
             printPerformanceResults();
         }
 
-        cspace->getRobot()->setUpdateVisualization(true);
+        cspace->getRobot()->setUpdateVisualization(visStatus);
 
         if (foundSolution)
         {
-- 
2.43.0


From f8da21ad9c51219c365c057d1739e3f18c24cff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:12 +0000
Subject: [PATCH 178/217] fix: number of cycles of GraspRrt

---
 MotionPlanning/Planner/GraspRrt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MotionPlanning/Planner/GraspRrt.cpp b/MotionPlanning/Planner/GraspRrt.cpp
index d2b9bbb..6b209a0 100644
--- a/MotionPlanning/Planner/GraspRrt.cpp
+++ b/MotionPlanning/Planner/GraspRrt.cpp
@@ -296,7 +296,7 @@ namespace Saba
             }
 
             //}
-            if (cycles > maxCycles)
+            if (cycles >= maxCycles)
             {
                 bStopLoop = true;
             }
-- 
2.43.0


From b4ae98dc5c0e3a3743e5b1ec5798e1f8ec403880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:12 +0000
Subject: [PATCH 179/217] fix: consider timeout in GraspRrt

---
 MotionPlanning/Planner/GraspRrt.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/MotionPlanning/Planner/GraspRrt.cpp b/MotionPlanning/Planner/GraspRrt.cpp
index 6b209a0..d6b1909 100644
--- a/MotionPlanning/Planner/GraspRrt.cpp
+++ b/MotionPlanning/Planner/GraspRrt.cpp
@@ -296,6 +296,14 @@ namespace Saba
             }
 
             //}
+            float elapsedMS = ((float)(clock() - startClock) / (float)CLOCKS_PER_SEC) * 1000.0f;
+
+            if (elapsedMS > planningTimeout)
+            {
+                cout << "Encountered timeout of " << planningTimeout << " ms - aborting" << endl;
+                bStopLoop = true;
+            }
+
             if (cycles >= maxCycles)
             {
                 bStopLoop = true;
-- 
2.43.0


From 33c7986a4a4f0be18c3a61c88401e0309875f616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:12 +0000
Subject: [PATCH 180/217] fix: distance of grasps to the object

---
 MotionPlanning/Planner/GraspRrt.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/MotionPlanning/Planner/GraspRrt.cpp b/MotionPlanning/Planner/GraspRrt.cpp
index d6b1909..e5a613c 100644
--- a/MotionPlanning/Planner/GraspRrt.cpp
+++ b/MotionPlanning/Planner/GraspRrt.cpp
@@ -923,6 +923,7 @@ namespace Saba
         performanceMeasure.numberOfGraspScorings++;
 
         robot->setJointValues(rns, c);
+        gcpOject->setGlobalPose(eef->getGCP()->getGlobalPose());
         VirtualRobot::EndEffector::ContactInfoVector contactsAll = eef->closeActors(graspCollisionObjects);
         VirtualRobot::EndEffector::ContactInfoVector contacts;
 
-- 
2.43.0


From f6aaacd40976fd58d596128aa3f093198fe6bb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:12 +0000
Subject: [PATCH 181/217] fix: remove grasps on reset of GraspRrt

---
 MotionPlanning/Planner/GraspRrt.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/MotionPlanning/Planner/GraspRrt.cpp b/MotionPlanning/Planner/GraspRrt.cpp
index e5a613c..9c0ada8 100644
--- a/MotionPlanning/Planner/GraspRrt.cpp
+++ b/MotionPlanning/Planner/GraspRrt.cpp
@@ -104,6 +104,10 @@ namespace Saba
         colChecksOverall = 0;
 
         mapConfigTcp.clear();
+
+        graspInfoMutex.lock();
+        grasps.clear();
+        graspInfoMutex.unlock();
     }
 
     bool GraspRrt::init()
-- 
2.43.0


From 9617f6734cdda7a050adef61e2278a107165aca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:12 +0000
Subject: [PATCH 182/217] fix: initialize GraspRrt again after setting another
 start

---
 MotionPlanning/Planner/GraspRrt.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/MotionPlanning/Planner/GraspRrt.cpp b/MotionPlanning/Planner/GraspRrt.cpp
index 9c0ada8..7c50830 100644
--- a/MotionPlanning/Planner/GraspRrt.cpp
+++ b/MotionPlanning/Planner/GraspRrt.cpp
@@ -125,7 +125,7 @@ namespace Saba
         clock_t timeStart = clock();
         solution.reset();
 
-        if (!startNode)
+        if (!startNode || !startValid)
         {
             VR_ERROR << ": not initialized correctly..." << endl;
             return false;
@@ -401,6 +401,10 @@ namespace Saba
             return false;
         }
 
+        // nodes, poses and grasps of the last start are not valid any more
+        plannerInitialized = false;
+        mapConfigTcp.clear();
+
         if (!Rrt::setStart(startVec) || !startNode)
         {
             SABA_ERROR << " error initializing start node..." << endl;
-- 
2.43.0


From 9eff5c1ca3f03778c8474a02f1fa9025a8d3d785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:12 +0000
Subject: [PATCH 183/217] fix: consider start node for grasps in GraspRrt

---
 MotionPlanning/Planner/GraspRrt.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/MotionPlanning/Planner/GraspRrt.cpp b/MotionPlanning/Planner/GraspRrt.cpp
index 7c50830..552a655 100644
--- a/MotionPlanning/Planner/GraspRrt.cpp
+++ b/MotionPlanning/Planner/GraspRrt.cpp
@@ -145,6 +145,12 @@ namespace Saba
 
         targetObjectPosition = targetObject->getGlobalPose().block(0, 3, 3, 1);
 
+        // the nodes that are already there (the start)
+        for (const auto& node : tree->getNodes())
+        {
+            processNode(node);
+        }
+
         // init jacobian solver
 
         diffIK.reset(new VirtualRobot::DifferentialIK(rns));
-- 
2.43.0


From 409790e0f574ae51115601cfc2a2707f89a0a384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:12 +0000
Subject: [PATCH 184/217] fix: reset state when GraspRrt is started again

---
 MotionPlanning/Planner/GraspRrt.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/MotionPlanning/Planner/GraspRrt.cpp b/MotionPlanning/Planner/GraspRrt.cpp
index 552a655..a823341 100644
--- a/MotionPlanning/Planner/GraspRrt.cpp
+++ b/MotionPlanning/Planner/GraspRrt.cpp
@@ -280,6 +280,12 @@ namespace Saba
                 return false;
             }
 
+        // there may be results of a previous call
+        cycles = 0;
+        foundSolution = false;
+        stopSearch = false;
+        solution.reset();
+
         bool visStatus = cspace->getRobot()->getUpdateVisualizationStatus();
         cspace->getRobot()->setUpdateVisualization(false);
 
-- 
2.43.0


From eda14fd0290d1e93e6e004935b4dc2510f321316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:12 +0000
Subject: [PATCH 185/217] fix: sample IK solutions of GraspIkRrt from different
 configurations

---
 MotionPlanning/Planner/GraspIkRrt.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/MotionPlanning/Planner/GraspIkRrt.cpp b/MotionPlanning/Planner/GraspIkRrt.cpp
index 401a8b3..0245584 100644
--- a/MotionPlanning/Planner/GraspIkRrt.cpp
+++ b/MotionPlanning/Planner/GraspIkRrt.cpp
@@ -88,6 +88,10 @@ namespace Saba
             }
         }
 
+        // start the next attempt somewhere else, otherwise it ends with the same result
+        cspace->getRandomConfig(tmpConfig);
+        cspace->getRobot()->setJointValues(cspace->getRobotNodeSet(), tmpConfig);
+
         // no error
         return true;
     }
-- 
2.43.0


From 13ecab6d4e2240020e3e50412b4c2e55db828bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:06 +0000
Subject: [PATCH 186/217] fix: restore hand configuration after trying a grasp
 in GraspRrt

---
 MotionPlanning/Planner/GraspRrt.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/MotionPlanning/Planner/GraspRrt.cpp b/MotionPlanning/Planner/GraspRrt.cpp
index a823341..463edff 100644
--- a/MotionPlanning/Planner/GraspRrt.cpp
+++ b/MotionPlanning/Planner/GraspRrt.cpp
@@ -944,6 +944,7 @@ namespace Saba
 
         robot->setJointValues(rns, c);
         gcpOject->setGlobalPose(eef->getGCP()->getGlobalPose());
+        VirtualRobot::RobotConfigPtr handConfig = eef->getConfiguration();
         VirtualRobot::EndEffector::ContactInfoVector contactsAll = eef->closeActors(graspCollisionObjects);
         VirtualRobot::EndEffector::ContactInfoVector contacts;
 
@@ -956,7 +957,8 @@ namespace Saba
             }
         }
 
-        eef->openActors();
+        // restore the hand (it may not be possible to open it, e.g. when fingers block each other)
+        robot->setJointValues(handConfig);
 
         if ((int)contacts.size() < minGraspContacts)
         {
-- 
2.43.0


From 4448a64fbc621137801934c12406700654316dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:24 +0000
Subject: [PATCH 187/217] fix: MJCF export independent of current joint values

---
 .../XML/mjcf/MasslessBodySanitizer.cpp        |  2 +-
 VirtualRobot/XML/mjcf/MjcfDocument.cpp        | 21 +++++++++++++++++--
 VirtualRobot/XML/mjcf/MjcfDocument.h          |  4 ++++
 3 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/VirtualRobot/XML/mjcf/MasslessBodySanitizer.cpp b/VirtualRobot/XML/mjcf/MasslessBodySanitizer.cpp
index e04389f..856d8f4 100644
--- a/VirtualRobot/XML/mjcf/MasslessBodySanitizer.cpp
+++ b/VirtualRobot/XML/mjcf/MasslessBodySanitizer.cpp
@@ -85,7 +85,7 @@ void MasslessBodySanitizer::mergeBodies(XMLElement* body, XMLElement* childBody,
     std::cout << "Merging with '" << childBodyName << "' ";
 
     RobotNodePtr childNode = robot->getRobotNode(childBodyName);
-    Eigen::Matrix4f childPose = childNode->getTransformationFrom(childNode->getParent());
+    Eigen::Matrix4f childPose = Document::getLocalPose(childNode);
     
     // update accumulated child pose
     // merged child's frame w.r.t. body's frame
diff --git a/VirtualRobot/XML/mjcf/MjcfDocument.cpp b/VirtualRobot/XML/mjcf/MjcfDocument.cpp
index 0224841..37f5451 100644
--- a/VirtualRobot/XML/mjcf/MjcfDocument.cpp
+++ b/VirtualRobot/XML/mjcf/MjcfDocument.cpp
@@ -86,8 +86,7 @@ XMLElement* Document::addBodyElement(XMLElement* parent, RobotNodePtr node)
 
     if (node->hasParent())
     {
-        Eigen::Matrix4f tf = node->getTransformationFrom(node->getParent());
-        setElementPose(body, tf);
+        setElementPose(body, getLocalPose(node));
     }
     
     if (node->isRotationalJoint() || node->isTranslationalJoint())
@@ -101,6 +100,24 @@ XMLElement* Document::addBodyElement(XMLElement* parent, RobotNodePtr node)
 }
 
 
+Eigen::Matrix4f Document::getLocalPose(const RobotNodePtr& node)
+{
+    // independent of the current joint value
+    Eigen::Affine3f joint = Eigen::Affine3f::Identity();
+    if (auto revolute = boost::dynamic_pointer_cast<RobotNodeRevolute>(node))
+    {
+        joint = Eigen::AngleAxisf(node->getJointValueOffset(), 
+                                  revolute->getJointRotationAxisInJointCoordSystem());
+    }
+    else if (auto prismatic = boost::dynamic_pointer_cast<RobotNodePrismatic>(node))
+    {
+        joint = Eigen::Translation3f(node->getJointValueOffset() 
+                                     * prismatic->getJointTranslationDirectionJointCoordSystem());
+    }
+    return node->getLocalTransformation() * joint.matrix();
+}
+
+
 XMLElement* Document::addGeomElement(XMLElement* body, const std::string& meshName)
 {
     assertElementIsBody(body);
diff --git a/VirtualRobot/XML/mjcf/MjcfDocument.h b/VirtualRobot/XML/mjcf/MjcfDocument.h
index 6f89d5c..af830d4 100644
--- a/VirtualRobot/XML/mjcf/MjcfDocument.h
+++ b/VirtualRobot/XML/mjcf/MjcfDocument.h
@@ -89,6 +89,10 @@ namespace mjcf
         /// Adds inertial and joint element, if necessary.
         XMLElement* addBodyElement(XMLElement* parent, RobotNodePtr node);
         
+        /// Get the pose of a node relative to its parent when its joint value is zero,
+        /// i.e. the frame from which a Mujoco joint coordinate measures the displacement.
+        static Eigen::Matrix4f getLocalPose(const RobotNodePtr& node);
+        
         /// Add an inertial element to a body from a RobotNode.
         XMLElement* addInertialElement(XMLElement* body, RobotNodePtr node);
         /// Add a dummy inertial element with small mass and identity inertia matrix.
-- 
2.43.0


From 468aa083630c88d201545efb187a8c772bd83f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:24 +0000
Subject: [PATCH 188/217] fix: export transformation of the root node to MJCF

---
 VirtualRobot/XML/mjcf/MjcfDocument.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/VirtualRobot/XML/mjcf/MjcfDocument.cpp b/VirtualRobot/XML/mjcf/MjcfDocument.cpp
index 37f5451..51fe8c0 100644
--- a/VirtualRobot/XML/mjcf/MjcfDocument.cpp
+++ b/VirtualRobot/XML/mjcf/MjcfDocument.cpp
@@ -84,10 +84,7 @@ XMLElement* Document::addBodyElement(XMLElement* parent, RobotNodePtr node)
     XMLElement* body = addNewElement(parent, "body");
     body->SetAttribute("name", node->getName().c_str());
 
-    if (node->hasParent())
-    {
-        setElementPose(body, getLocalPose(node));
-    }
+    setElementPose(body, getLocalPose(node));
     
     if (node->isRotationalJoint() || node->isTranslationalJoint())
     {
-- 
2.43.0


From a633e94fe69a97c3497be02aaa1774e1ea216e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:33 +0000
Subject: [PATCH 189/217] fix: reset merged bodies before an MJCF export

---
 VirtualRobot/XML/mjcf/MasslessBodySanitizer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/VirtualRobot/XML/mjcf/MasslessBodySanitizer.cpp b/VirtualRobot/XML/mjcf/MasslessBodySanitizer.cpp
index 856d8f4..da0dbe0 100644
--- a/VirtualRobot/XML/mjcf/MasslessBodySanitizer.cpp
+++ b/VirtualRobot/XML/mjcf/MasslessBodySanitizer.cpp
@@ -19,6 +19,8 @@ void MasslessBodySanitizer::sanitize()
 {
     // merge body leaf nodes with parent if they do not have a mass (inertial or geom)
     
+    mergedBodySets.clear();
+    
     XMLElement* root = document->robotRootBody();
     
     for (XMLElement* body = root->FirstChildElement("body");
-- 
2.43.0


From 392bcae6e4aaf3d28c74c12a8f92123487ca92ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:34 +0000
Subject: [PATCH 190/217] fix: keep position of merged inertial elements in
 MJCF

---
 VirtualRobot/XML/mjcf/MasslessBodySanitizer.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/VirtualRobot/XML/mjcf/MasslessBodySanitizer.cpp b/VirtualRobot/XML/mjcf/MasslessBodySanitizer.cpp
index da0dbe0..afe0713 100644
--- a/VirtualRobot/XML/mjcf/MasslessBodySanitizer.cpp
+++ b/VirtualRobot/XML/mjcf/MasslessBodySanitizer.cpp
@@ -158,7 +158,15 @@ void MasslessBodySanitizer::updateChildPos(XMLElement* elem, const Eigen::Matrix
     posHom = accChildPose * posHom;
     pos = posHom.head<3>();
     
-    document->setElementPos(elem, pos);
+    if (isElement(elem, "inertial"))
+    {
+        // attribute is required
+        setAttr(elem, "pos", pos);
+    }
+    else
+    {
+        document->setElementPos(elem, pos);
+    }
 }
 
 void MasslessBodySanitizer::updateChildQuat(XMLElement* elem, const Eigen::Matrix3f& accChildOri)
-- 
2.43.0


From 1d68453a120d23a13cfb5bdd8dc6719baa4d8709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:40 +0000
Subject: [PATCH 191/217] fix: scale joint positions in MJCF export

---
 VirtualRobot/XML/mjcf/MujocoIO.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/VirtualRobot/XML/mjcf/MujocoIO.cpp b/VirtualRobot/XML/mjcf/MujocoIO.cpp
index 8e0bb93..4597ad9 100644
--- a/VirtualRobot/XML/mjcf/MujocoIO.cpp
+++ b/VirtualRobot/XML/mjcf/MujocoIO.cpp
@@ -435,7 +435,8 @@ void MujocoIO::scaleLengths(XMLElement* elem)
         ctrlrange *= lengthScaling;
         setAttr(elem, "ctrlrange", ctrlrange);
     }
-    else if (hasAttr(elem, "pos"))
+    
+    if (hasAttr(elem, "pos"))
     {
         std::cout << t << "Scaling pos of " << elem->Value() << " ";
         if (hasAttr(elem, "name"))
-- 
2.43.0


From 5373643faf98d0afd0a9a0a685133471584d0493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:40 +0000
Subject: [PATCH 192/217] fix: scale control ranges of position actuators in
 MJCF export

---
 VirtualRobot/XML/mjcf/MujocoIO.cpp | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/VirtualRobot/XML/mjcf/MujocoIO.cpp b/VirtualRobot/XML/mjcf/MujocoIO.cpp
index 4597ad9..1d969fb 100644
--- a/VirtualRobot/XML/mjcf/MujocoIO.cpp
+++ b/VirtualRobot/XML/mjcf/MujocoIO.cpp
@@ -64,12 +64,13 @@ void MujocoIO::saveMJCF(const std::string& filename, const std::string& basePath
     std::cout << "Adding contact excludes ..." << std::endl;
     addContactExcludes();
 
-    std::cout << "Adding actuators ..." << std::endl;
-    addActuators();
-    
     std::cout << "Scaling lengths by " << lengthScaling << " ..." << std::endl;
     scaleLengths(document->robotRootBody());
     
+    // after scaling, control ranges of position actuators are those of their joints
+    std::cout << "Adding actuators ..." << std::endl;
+    addActuators();
+    
     std::cout << "Done." << std::endl;
     
     if (print)
@@ -424,17 +425,6 @@ void MujocoIO::scaleLengths(XMLElement* elem)
             setAttr(elem, "range", range);
         }
     }
-    else if (isElement(elem, "position")
-             //&& isElement(elem.Parent()->ToElement(), "actuator")
-             && hasAttr(elem, "ctrlrange"))
-    {
-        std::cout << t << "Scaling ctrlrange of position actuator " 
-                  << elem->Attribute("name") << std::endl;
-        
-        Eigen::Vector2f ctrlrange = strToVec2(elem->Attribute("ctrlrange"));
-        ctrlrange *= lengthScaling;
-        setAttr(elem, "ctrlrange", ctrlrange);
-    }
     
     if (hasAttr(elem, "pos"))
     {
-- 
2.43.0


From a8e78ca742e9aaa3eb7e96e71d7bde82689e67ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:40 +0000
Subject: [PATCH 193/217] fix: export STL meshes to MJCF

---
 VirtualRobot/XML/mjcf/MujocoIO.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/XML/mjcf/MujocoIO.cpp b/VirtualRobot/XML/mjcf/MujocoIO.cpp
index 1d969fb..44ad300 100644
--- a/VirtualRobot/XML/mjcf/MujocoIO.cpp
+++ b/VirtualRobot/XML/mjcf/MujocoIO.cpp
@@ -225,7 +225,7 @@ void MujocoIO::addNodeBodyMeshes()
         
         if (!fs::exists(dstMeshPath))
         {
-            if (srcMeshPath.extension().string() != "stl")
+            if (srcMeshPath.extension().string() != ".stl")
             {
                 std::cout << "Converting to .stl: " << srcMeshPath;
                 
-- 
2.43.0


From f5a334402198f562438e9f517a4e4d7dbc4ecb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:41 +0000
Subject: [PATCH 194/217] fix: order of poses when merging bodies in MJCF
 export

---
 VirtualRobot/XML/mjcf/MasslessBodySanitizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/XML/mjcf/MasslessBodySanitizer.cpp b/VirtualRobot/XML/mjcf/MasslessBodySanitizer.cpp
index afe0713..7805401 100644
--- a/VirtualRobot/XML/mjcf/MasslessBodySanitizer.cpp
+++ b/VirtualRobot/XML/mjcf/MasslessBodySanitizer.cpp
@@ -91,7 +91,7 @@ void MasslessBodySanitizer::mergeBodies(XMLElement* body, XMLElement* childBody,
     
     // update accumulated child pose
     // merged child's frame w.r.t. body's frame
-    accChildPose = childPose * accChildPose;
+    accChildPose = accChildPose * childPose;
     Eigen::Matrix3f accChildOri = accChildPose.block<3,3>(0, 0);
     
     // merge childBody into body => move all its elements here
-- 
2.43.0


From a0607ea8123adc84b9b2635ae2bba4c56663be03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:41 +0000
Subject: [PATCH 195/217] fix: names of repeatedly merged bodies in MJCF export

---
 VirtualRobot/XML/mjcf/MasslessBodySanitizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/XML/mjcf/MasslessBodySanitizer.cpp b/VirtualRobot/XML/mjcf/MasslessBodySanitizer.cpp
index 7805401..585aaad 100644
--- a/VirtualRobot/XML/mjcf/MasslessBodySanitizer.cpp
+++ b/VirtualRobot/XML/mjcf/MasslessBodySanitizer.cpp
@@ -229,7 +229,7 @@ MergedBodySet&MasslessBodySanitizer::getMergedBodySetWith(const std::string& bod
 {
     for (auto& set : mergedBodySets)
     {
-        if (set.containsBody(bodyName))
+        if (set.containsBody(bodyName) || set.getMergedBodyName() == bodyName)
         {
            return set;
         }
-- 
2.43.0


From d946adc9c3d7d51ba85f62c7654b2eb4b6c433e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:32 +0000
Subject: [PATCH 196/217] fix: exclude only contacts of different bodies in
 MJCF export

---
 VirtualRobot/XML/mjcf/MujocoIO.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/VirtualRobot/XML/mjcf/MujocoIO.cpp b/VirtualRobot/XML/mjcf/MujocoIO.cpp
index 44ad300..0310abc 100644
--- a/VirtualRobot/XML/mjcf/MujocoIO.cpp
+++ b/VirtualRobot/XML/mjcf/MujocoIO.cpp
@@ -359,12 +359,22 @@ void MujocoIO::addContactExcludes()
         }
     }
     
+    // massless leaf nodes are sites, which have no contacts
+    std::set<std::string> bodyNames;
+    for (const XMLElement* body : getAllElements("body"))
+    {
+        bodyNames.insert(body->Attribute("name"));
+    }
+    
     // resolve body names and add exludes
     for (auto& excludePair : excludePairs)
     {
         std::string body1 = masslessBodySanitizer.getMergedBodyName(excludePair.first);
         std::string body2 = masslessBodySanitizer.getMergedBodyName(excludePair.second);
-        document->addContactExclude(body1, body2);
+        if (body1 != body2 && bodyNames.count(body1) > 0 && bodyNames.count(body2) > 0)
+        {
+            document->addContactExclude(body1, body2);
+        }
     }
     
     ParentChildContactExcludeVisitor visitor(*document);
-- 
2.43.0


From b80533c0e8c075c7b4e620aaadadd150b5581df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:32 +0000
Subject: [PATCH 197/217] fix: rotate full inertia matrices of merged bodies in
 MJCF export

---
 .../XML/mjcf/MasslessBodySanitizer.cpp        | 23 +++++++++++++++++++
 VirtualRobot/XML/mjcf/MasslessBodySanitizer.h |  1 +
 2 files changed, 24 insertions(+)

diff --git a/VirtualRobot/XML/mjcf/MasslessBodySanitizer.cpp b/VirtualRobot/XML/mjcf/MasslessBodySanitizer.cpp
index 585aaad..52c4214 100644
--- a/VirtualRobot/XML/mjcf/MasslessBodySanitizer.cpp
+++ b/VirtualRobot/XML/mjcf/MasslessBodySanitizer.cpp
@@ -116,6 +116,12 @@ void MasslessBodySanitizer::mergeBodies(XMLElement* body, XMLElement* childBody,
                 updateChildPos(elem, accChildPose);
                 updateChildAxis(elem, accChildOri);
             }
+            else if (isElement(elem, "inertial") && hasAttr(elem, "fullinertia"))
+            {
+                // must not have an orientation => rotate the matrix
+                updateChildPos(elem, accChildPose);
+                updateChildFullInertia(elem, accChildOri);
+            }
             else if (isElement(elem, "body") 
                      || isElement(elem, "inertial")
                      || isElement(elem, "geom") 
@@ -196,6 +202,23 @@ void MasslessBodySanitizer::updateChildAxis(XMLElement* elem, const Eigen::Matri
     }
 }
 
+void MasslessBodySanitizer::updateChildFullInertia(XMLElement* elem, const Eigen::Matrix3f& accChildOri)
+{
+    // order: M(1,1), M(2,2), M(3,3), M(1,2), M(1,3), M(2,3)
+    Eigen::Matrix<float, 6, 1> v;
+    sscanf(elem->Attribute("fullinertia"), "%f %f %f %f %f %f", 
+           &v(0), &v(1), &v(2), &v(3), &v(4), &v(5));
+    
+    Eigen::Matrix3f matrix;
+    matrix << v(0), v(3), v(4),
+              v(3), v(1), v(5),
+              v(4), v(5), v(2);
+    matrix = accChildOri * matrix * accChildOri.transpose();
+    
+    v << matrix(0, 0), matrix(1, 1), matrix(2, 2), matrix(0, 1), matrix(0, 2), matrix(1, 2);
+    setAttr(elem, "fullinertia", v);
+}
+
 void MasslessBodySanitizer::sanitizeLeafBody(XMLElement* body)
 {
     assert(!hasElementChild(body, "body"));
diff --git a/VirtualRobot/XML/mjcf/MasslessBodySanitizer.h b/VirtualRobot/XML/mjcf/MasslessBodySanitizer.h
index d3bef85..29122f4 100644
--- a/VirtualRobot/XML/mjcf/MasslessBodySanitizer.h
+++ b/VirtualRobot/XML/mjcf/MasslessBodySanitizer.h
@@ -55,6 +55,7 @@ namespace mjcf
         
         void updateChildPos(XMLElement* elem, const Eigen::Matrix4f& accChildPose);
         void updateChildQuat(XMLElement* elem, const Eigen::Matrix3f& accChildOri);
+        void updateChildFullInertia(XMLElement* elem, const Eigen::Matrix3f& accChildOri);
         void updateChildAxis(XMLElement* elem, const Eigen::Matrix3f& accChildOri, 
                              const char* attrName = "axis");
         
-- 
2.43.0


From c1a220e010b83bd42bffbce52798fdc24df66e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:02 +0000
Subject: [PATCH 198/217] fix: draw the line between the given points

---
 .../CoinVisualization/CoinVisualizationFactory.cpp              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/Visualization/CoinVisualization/CoinVisualizationFactory.cpp b/VirtualRobot/Visualization/CoinVisualization/CoinVisualizationFactory.cpp
index 28aab45..b5c84ad 100644
--- a/VirtualRobot/Visualization/CoinVisualization/CoinVisualizationFactory.cpp
+++ b/VirtualRobot/Visualization/CoinVisualization/CoinVisualizationFactory.cpp
@@ -616,7 +616,7 @@ namespace VirtualRobot
         Eigen::Matrix4f toM;
         toM.setIdentity();
         toM.block(0, 3, 3, 1) = to;
-        return createLine(from, to, width, colorR, colorG, colorB);
+        return createLine(fromM, toM, width, colorR, colorG, colorB);
     }
 
     VisualizationNodePtr CoinVisualizationFactory::createSphere(float radius, float colorR, float colorG, float colorB)
-- 
2.43.0


From f45bd452aedd670fb8166998b1e55fb8c70e4404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:02 +0000
Subject: [PATCH 199/217] fix: keep the colour and the scene graph of
 createCircle

---
 .../CoinVisualization/CoinVisualizationFactory.cpp             | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/VirtualRobot/Visualization/CoinVisualization/CoinVisualizationFactory.cpp b/VirtualRobot/Visualization/CoinVisualization/CoinVisualizationFactory.cpp
index b5c84ad..86da73e 100644
--- a/VirtualRobot/Visualization/CoinVisualization/CoinVisualizationFactory.cpp
+++ b/VirtualRobot/Visualization/CoinVisualization/CoinVisualizationFactory.cpp
@@ -666,7 +666,8 @@ namespace VirtualRobot
 
     VisualizationNodePtr CoinVisualizationFactory::createCircle(float radius, float circleCompletion, float width, float colorR, float colorG, float colorB, size_t numberOfCircleParts)
     {
-        SoNode* s = createCoinPartCircle(radius, circleCompletion, width, colorR, colorB, colorG, numberOfCircleParts);
+        SoNode* s = createCoinPartCircle(radius, circleCompletion, width, colorR, colorG, colorB, numberOfCircleParts);
+        s->ref();
         VisualizationNodePtr visualizationNode(new CoinVisualizationNode(s));
         s->unref();
         return visualizationNode;
-- 
2.43.0


From d355c5d35dba88ff4beb0cb85db96502cf083e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:02 +0000
Subject: [PATCH 200/217] fix: use int vertex indices for the torus

---
 .../CoinVisualization/CoinVisualizationFactory.cpp        | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/VirtualRobot/Visualization/CoinVisualization/CoinVisualizationFactory.cpp b/VirtualRobot/Visualization/CoinVisualization/CoinVisualizationFactory.cpp
index 86da73e..67ca97b 100644
--- a/VirtualRobot/Visualization/CoinVisualization/CoinVisualizationFactory.cpp
+++ b/VirtualRobot/Visualization/CoinVisualization/CoinVisualizationFactory.cpp
@@ -894,11 +894,11 @@ namespace VirtualRobot
             {
                 for (int horizontalIt = 0; horizontalIt < sides; horizontalIt++)
                 {
-                    short lt = (short)(horizontalIt + verticalIt * (numVerticesPerRow));
-                    short rt = (short)((horizontalIt + 1) + verticalIt * (numVerticesPerRow));
+                    int lt = (int)(horizontalIt + verticalIt * (numVerticesPerRow));
+                    int rt = (int)((horizontalIt + 1) + verticalIt * (numVerticesPerRow));
 
-                    short lb = (short)(horizontalIt + (verticalIt + 1) * (numVerticesPerRow));
-                    short rb = (short)((horizontalIt + 1) + (verticalIt + 1) * (numVerticesPerRow));
+                    int lb = (int)(horizontalIt + (verticalIt + 1) * (numVerticesPerRow));
+                    int rb = (int)((horizontalIt + 1) + (verticalIt + 1) * (numVerticesPerRow));
                     MathTools::TriangleFace face;
                     face.normal = -completion*TriMeshModel::CreateNormal(triMesh->vertices[lt],
                                                                          triMesh->vertices[rt],
-- 
2.43.0


From 946f149b317e5930baf0d786030bf61ffa6c3e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:02 +0000
Subject: [PATCH 201/217] fix: pass sides and rings to the torus of a circle
 arrow

---
 .../CoinVisualization/CoinVisualizationFactory.cpp              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/Visualization/CoinVisualization/CoinVisualizationFactory.cpp b/VirtualRobot/Visualization/CoinVisualization/CoinVisualizationFactory.cpp
index 67ca97b..cb88e93 100644
--- a/VirtualRobot/Visualization/CoinVisualization/CoinVisualizationFactory.cpp
+++ b/VirtualRobot/Visualization/CoinVisualization/CoinVisualizationFactory.cpp
@@ -2301,7 +2301,7 @@ namespace VirtualRobot
         float torusCompletion = completion - 1.0f/rings*sign;
         if(torusCompletion * sign < 0)
             torusCompletion = 0;
-        auto torusNode = createTorus(radius, tubeRadius, torusCompletion, colorR, colorG, colorB, transparency);
+        auto torusNode = createTorus(radius, tubeRadius, torusCompletion, colorR, colorG, colorB, transparency, sides, rings);
         SoNode* torus = boost::dynamic_pointer_cast<CoinVisualizationNode>(torusNode)->getCoinVisualization();
 
         SoSeparator* s = new SoSeparator();
-- 
2.43.0


From 33e81a367f097a2e3083bb29887934dc53de5baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:02 +0000
Subject: [PATCH 202/217] fix: do not share the mesh with a scaled clone

---
 .../Visualization/CoinVisualization/CoinVisualizationNode.cpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/Visualization/CoinVisualization/CoinVisualizationNode.cpp b/VirtualRobot/Visualization/CoinVisualization/CoinVisualizationNode.cpp
index 256773d..b6f0efb 100644
--- a/VirtualRobot/Visualization/CoinVisualization/CoinVisualizationNode.cpp
+++ b/VirtualRobot/Visualization/CoinVisualization/CoinVisualizationNode.cpp
@@ -342,7 +342,7 @@ namespace VirtualRobot
         {
             newModel->unrefNoDelete();
         }
-        if(!deepCopy)
+        if(!deepCopy && scaling == 1.0f)
             p->triMeshModel = this->triMeshModel;
         //else -> lazy generation
 
-- 
2.43.0


From 20951fd9dc0297c6d1aa05ec8be1928c9b742ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:39 +0000
Subject: [PATCH 203/217] fix: replace an attached visualization of the same
 name

---
 .../CoinVisualization/CoinVisualizationNode.cpp          | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/VirtualRobot/Visualization/CoinVisualization/CoinVisualizationNode.cpp b/VirtualRobot/Visualization/CoinVisualization/CoinVisualizationNode.cpp
index b6f0efb..13b48a3 100644
--- a/VirtualRobot/Visualization/CoinVisualization/CoinVisualizationNode.cpp
+++ b/VirtualRobot/Visualization/CoinVisualization/CoinVisualizationNode.cpp
@@ -279,6 +279,15 @@ namespace VirtualRobot
     {
         VisualizationNode::attachVisualization(name, v);
 
+        // an already attached visualization with this name is replaced
+        std::map< std::string, SoNode* >::iterator old = attachedCoinVisualizations.find(name);
+
+        if (old != attachedCoinVisualizations.end())
+        {
+            attachedVisualizationsSeparator->removeChild(old->second);
+            attachedCoinVisualizations.erase(old);
+        }
+
         boost::shared_ptr<CoinVisualizationNode> coinVisualizationNode = boost::dynamic_pointer_cast<CoinVisualizationNode>(v);
 
         if (coinVisualizationNode && coinVisualizationNode->getCoinVisualization())
-- 
2.43.0


From 08390ff667feba49031d3c198d76ffdfa9f4bf92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:39 +0000
Subject: [PATCH 204/217] fix: discard the mesh when the visualization is
 replaced

---
 .../Visualization/CoinVisualization/CoinVisualizationNode.cpp  | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/VirtualRobot/Visualization/CoinVisualization/CoinVisualizationNode.cpp b/VirtualRobot/Visualization/CoinVisualization/CoinVisualizationNode.cpp
index 13b48a3..f5731ca 100644
--- a/VirtualRobot/Visualization/CoinVisualization/CoinVisualizationNode.cpp
+++ b/VirtualRobot/Visualization/CoinVisualization/CoinVisualizationNode.cpp
@@ -433,6 +433,9 @@ namespace VirtualRobot
         {
             scaledVisualization->addChild(visualization);
         }
+
+        // the mesh is lazily created from the new visualization
+        triMeshModel.reset();
     }
 
 
-- 
2.43.0


From 5198bb42c62b14468ce7a49a25da412be99545c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:39 +0000
Subject: [PATCH 205/217] fix: displace only the local visualization

---
 .../CoinVisualization/CoinVisualizationFactory.cpp             | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/VirtualRobot/Visualization/CoinVisualization/CoinVisualizationFactory.cpp b/VirtualRobot/Visualization/CoinVisualization/CoinVisualizationFactory.cpp
index cb88e93..b8779e4 100644
--- a/VirtualRobot/Visualization/CoinVisualization/CoinVisualizationFactory.cpp
+++ b/VirtualRobot/Visualization/CoinVisualization/CoinVisualizationFactory.cpp
@@ -4238,7 +4238,8 @@ namespace VirtualRobot
 
         if (cvn)
         {
-            SoNode* n = cvn->getCoinVisualization();
+            // only the local visualization is moved (neither the global pose nor the attached visualizations are part of it)
+            SoNode* n = cvn->visualization;
 
             if (n)
             {
-- 
2.43.0


From 5907849a0dbb088987859f88693ef792728bf60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:39 +0000
Subject: [PATCH 206/217] fix: use the bounding box of STL models when asked to

---
 .../CoinVisualization/CoinVisualizationFactory.cpp         | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/VirtualRobot/Visualization/CoinVisualization/CoinVisualizationFactory.cpp b/VirtualRobot/Visualization/CoinVisualization/CoinVisualizationFactory.cpp
index b8779e4..b4ebfeb 100644
--- a/VirtualRobot/Visualization/CoinVisualization/CoinVisualizationFactory.cpp
+++ b/VirtualRobot/Visualization/CoinVisualization/CoinVisualizationFactory.cpp
@@ -289,6 +289,13 @@ namespace VirtualRobot
 
         Eigen::Matrix4f id = Eigen::Matrix4f::Identity();
         visualizationNode = createTriMeshModelVisualization(t, id, scaleX, scaleY, scaleZ);
+
+        if (boundingBox)
+        {
+            CoinVisualizationNode* cvn = dynamic_cast<CoinVisualizationNode*>(visualizationNode.get());
+            cvn->setVisualization(CreateBoundingBox(cvn->visualization, false));
+        }
+
         visualizationNode->setFilename(filename, boundingBox);
 
         return visualizationNode;
-- 
2.43.0


From 9d21799cd1c2cbfedfca5a58b7cdc221ca57f933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:39 +0000
Subject: [PATCH 207/217] fix: use the bounding box of models read from streams
 when asked to

---
 .../CoinVisualization/CoinVisualizationFactory.cpp            | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/VirtualRobot/Visualization/CoinVisualization/CoinVisualizationFactory.cpp b/VirtualRobot/Visualization/CoinVisualization/CoinVisualizationFactory.cpp
index b4ebfeb..f2ff3ca 100644
--- a/VirtualRobot/Visualization/CoinVisualization/CoinVisualizationFactory.cpp
+++ b/VirtualRobot/Visualization/CoinVisualization/CoinVisualizationFactory.cpp
@@ -301,7 +301,7 @@ namespace VirtualRobot
         return visualizationNode;
     }
 
-    VisualizationNodePtr CoinVisualizationFactory::getVisualizationFromFile(const std::ifstream& ifs, bool /*boundingBox*/, float scaleX, float scaleY, float scaleZ)
+    VisualizationNodePtr CoinVisualizationFactory::getVisualizationFromFile(const std::ifstream& ifs, bool boundingBox, float scaleX, float scaleY, float scaleZ)
     {
         VisualizationNodePtr visualizationNode(new VisualizationNode);
 
@@ -328,7 +328,7 @@ namespace VirtualRobot
         }
 
         std::string contents(oss.str());
-        return getVisualizationFromString(contents);
+        return getVisualizationFromString(contents, boundingBox);
     }
 
     /**
-- 
2.43.0


From 21bbd988cd1cfe19516ffeb388674671a91ad291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:39 +0000
Subject: [PATCH 208/217] fix: report models that could not be saved

---
 .../Visualization/CoinVisualization/CoinVisualizationNode.cpp  | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/VirtualRobot/Visualization/CoinVisualization/CoinVisualizationNode.cpp b/VirtualRobot/Visualization/CoinVisualization/CoinVisualizationNode.cpp
index f5731ca..22a48a7 100644
--- a/VirtualRobot/Visualization/CoinVisualization/CoinVisualizationNode.cpp
+++ b/VirtualRobot/Visualization/CoinVisualization/CoinVisualizationNode.cpp
@@ -464,6 +464,8 @@ namespace VirtualRobot
         if (!so->openFile(completeFile.string().c_str()))
         {
             VR_ERROR << "Could not open file " << completeFile.string() << " for writing." << endl;
+            delete so;
+            return false;
         }
 
         boost::filesystem::path extension = completeFile.extension();
@@ -504,6 +506,7 @@ namespace VirtualRobot
         }
 
         so->closeFile();
+        delete so;
 
         newVisu->unref();
         n->unref();
-- 
2.43.0


From bdc3c242c6f62b3e7fab597d077c94a842b4f77e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:22 +0000
Subject: [PATCH 209/217] fix: read visualizations from memory

---
 .../CoinVisualization/CoinVisualizationFactory.cpp           | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/VirtualRobot/Visualization/CoinVisualization/CoinVisualizationFactory.cpp b/VirtualRobot/Visualization/CoinVisualization/CoinVisualizationFactory.cpp
index f2ff3ca..46db3cc 100644
--- a/VirtualRobot/Visualization/CoinVisualization/CoinVisualizationFactory.cpp
+++ b/VirtualRobot/Visualization/CoinVisualization/CoinVisualizationFactory.cpp
@@ -373,7 +373,7 @@ namespace VirtualRobot
         // check if the visualization was read
         if (nullptr == coinVisualization)
         {
-            std::cerr <<  "Problem reading model from SoInput: "  << soInput.getCurFileName() << std::endl;
+            std::cerr <<  "Problem reading model from SoInput: "  << (soInput.getCurFileName() ? soInput.getCurFileName() : "(no file)") << std::endl;
             return;
         }
         coinVisualization->ref();
@@ -390,7 +390,8 @@ namespace VirtualRobot
         visualizationNode.reset(new CoinVisualizationNode(coinVisualization));
         if(freeDuplicateTextures)
         {
-            boost::filesystem::path p(soInput.getCurFileName());
+            // there is no file (name) when reading from memory
+            boost::filesystem::path p(soInput.getCurFileName() ? soInput.getCurFileName() : "");
             boost::filesystem::path dir = p.parent_path();
 
             RemoveDuplicateTextures(coinVisualization, dir.string());
-- 
2.43.0


From 969e187c883646ff93b8b84567c7d658b4262f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:16 +0000
Subject: [PATCH 210/217] fix: keep the kind of groups when converting models

---
 .../CoinVisualizationFactory.cpp                  | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/VirtualRobot/Visualization/CoinVisualization/CoinVisualizationFactory.cpp b/VirtualRobot/Visualization/CoinVisualization/CoinVisualizationFactory.cpp
index 46db3cc..f08bfc6 100644
--- a/VirtualRobot/Visualization/CoinVisualization/CoinVisualizationFactory.cpp
+++ b/VirtualRobot/Visualization/CoinVisualization/CoinVisualizationFactory.cpp
@@ -4276,19 +4276,22 @@ namespace VirtualRobot
             return new SoGroup;
         }
 
-        SoGroup* storeResult;
+        // keep the kind of group and its settings (e.g. the transformation of VRML groups)
+        SoGroup* storeResult = static_cast<SoGroup*>(orig->getTypeId().createInstance());
 
-        if (orig->getTypeId() == SoSeparator::getClassTypeId())
-        {
-            storeResult = new SoSeparator;
-        }
-        else
+        if (!storeResult)
         {
             storeResult = new SoGroup;
         }
 
         storeResult->ref();
 
+        if (storeResult->getTypeId() == orig->getTypeId())
+        {
+            storeResult->copyFieldValues(orig);
+            storeResult->removeAllChildren();
+        }
+
         if (orig->getTypeId().isDerivedFrom(SoGroup::getClassTypeId()))
         {
             // process group node
-- 
2.43.0


From a90c19c4d2da5604de8724f9288c98dadea62ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:13 +0000
Subject: [PATCH 211/217] fix: count faces of robots with nodes that have no
 model

---
 VirtualRobot/Visualization/Visualization.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/VirtualRobot/Visualization/Visualization.cpp b/VirtualRobot/Visualization/Visualization.cpp
index 544c583..59362d6 100644
--- a/VirtualRobot/Visualization/Visualization.cpp
+++ b/VirtualRobot/Visualization/Visualization.cpp
@@ -66,7 +66,12 @@ namespace VirtualRobot
 
         while (i != visualizationNodes.end())
         {
-            res += (*i)->getNumFaces();
+            // objects without a model have no visualization node
+            if (*i)
+            {
+                res += (*i)->getNumFaces();
+            }
+
             i++;
         }
 
-- 
2.43.0


From 97400e78cfbf8af8617d4217842aa8ecfe5f8492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:14 +0000
Subject: [PATCH 212/217] fix: move the visualization of the collision data
 with the object

---
 VirtualRobot/CollisionDetection/CollisionModel.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/VirtualRobot/CollisionDetection/CollisionModel.cpp b/VirtualRobot/CollisionDetection/CollisionModel.cpp
index 2dd8df7..397ee36 100644
--- a/VirtualRobot/CollisionDetection/CollisionModel.cpp
+++ b/VirtualRobot/CollisionDetection/CollisionModel.cpp
@@ -122,6 +122,11 @@ namespace VirtualRobot
             BOOST_ASSERT(origVisualization);
             origVisualization->setGlobalPose(m);
         }
+
+        if (modelVisualization && updateVisualization)
+        {
+            modelVisualization->setGlobalPose(m);
+        }
     }
 
     VirtualRobot::CollisionModelPtr CollisionModel::clone(CollisionCheckerPtr colChecker, float scaling, bool deepVisuMesh)
@@ -254,7 +259,9 @@ namespace VirtualRobot
 
                 if (visualizationFactory)
                 {
-                    modelVisualization = visualizationFactory->createTriMeshModelVisualization(model, true, globalPose);
+                    Eigen::Matrix4f localPose = Eigen::Matrix4f::Identity();
+                    modelVisualization = visualizationFactory->createTriMeshModelVisualization(model, true, localPose);
+                    modelVisualization->setGlobalPose(globalPose);
                 }
             }
         }
-- 
2.43.0


From 959eac8495f9f1c8fd4bde2a17fdeebfe2868d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:14 +0000
Subject: [PATCH 213/217] fix: rebuild the visualization of changed collision
 data

---
 VirtualRobot/CollisionDetection/CollisionModel.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/VirtualRobot/CollisionDetection/CollisionModel.cpp b/VirtualRobot/CollisionDetection/CollisionModel.cpp
index 397ee36..edbdeb8 100644
--- a/VirtualRobot/CollisionDetection/CollisionModel.cpp
+++ b/VirtualRobot/CollisionDetection/CollisionModel.cpp
@@ -85,6 +85,7 @@ namespace VirtualRobot
         {
             visualization = origVisualization->clone(true);
             visualization->shrinkFatten(value);
+            modelVisualization.reset(); // shows the previous model
             model = visualization->getTriMeshModel();
             if (model)
             {
@@ -158,6 +159,7 @@ namespace VirtualRobot
         visualization = visu;
         origVisualization = visu;
         model.reset();
+        modelVisualization.reset();
         bbox.clear();
 
         inflateModel(margin); // updates the model
-- 
2.43.0


From af3b7ecbd5a8ea20c241fc49dab776128c0315cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:14 +0000
Subject: [PATCH 214/217] fix: offer the selectable scene graph after a
 non-selectable one

---
 .../Visualization/CoinVisualization/CoinVisualization.cpp  | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/VirtualRobot/Visualization/CoinVisualization/CoinVisualization.cpp b/VirtualRobot/Visualization/CoinVisualization/CoinVisualization.cpp
index ab0de47..84da1ca 100644
--- a/VirtualRobot/Visualization/CoinVisualization/CoinVisualization.cpp
+++ b/VirtualRobot/Visualization/CoinVisualization/CoinVisualization.cpp
@@ -177,6 +177,13 @@ namespace VirtualRobot
     {
         isSelectable = selectable;
         buildVisualization();
+
+        // the visualization may have been built for a non-selectable use
+        if (selectable && selection->findChild(visuRoot) < 0)
+        {
+            selection->addChild(visuRoot);
+        }
+
         return selectable? selection : visuRoot;
     }
 
-- 
2.43.0


From d0c610c55a61f212db1c976504ede6d4202aab54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:45 +0000
Subject: [PATCH 215/217] fix: workspace visualization for a fixed orientation
 looked up wrong voxels for orientations outside of the workspace

---
 .../CoinVisualizationFactory.cpp               | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/VirtualRobot/Visualization/CoinVisualization/CoinVisualizationFactory.cpp b/VirtualRobot/Visualization/CoinVisualization/CoinVisualizationFactory.cpp
index f08bfc6..6f1e63b 100644
--- a/VirtualRobot/Visualization/CoinVisualization/CoinVisualizationFactory.cpp
+++ b/VirtualRobot/Visualization/CoinVisualization/CoinVisualizationFactory.cpp
@@ -2719,7 +2719,6 @@ namespace VirtualRobot
         }*/
 
         Eigen::Vector3f voxelPosition, size;
-        int d, e, f;
 
         size(0) = reachSpace->spaceSize[0] / reachSpace->numVoxels[0];
         size(1) = reachSpace->spaceSize[1] / reachSpace->numVoxels[1];
@@ -2766,19 +2765,10 @@ namespace VirtualRobot
                 {
                     voxelPosition(2) = reachSpace->minBounds[2] + (c + 0.5f) * size(2);
 
-                    // get voxel from orientation
-                    d = (int)(((oLocal(0) - reachSpace->minBounds[3]) / reachSpace->spaceSize[3]) * (float)reachSpace->numVoxels[3]);
-                    e = (int)(((oLocal(1) - reachSpace->minBounds[4]) / reachSpace->spaceSize[4]) * (float)reachSpace->numVoxels[4]);
-                    f = (int)(((oLocal(2) - reachSpace->minBounds[5]) / reachSpace->spaceSize[5]) * (float)reachSpace->numVoxels[5]);
-
-                    if (d >= 0 && d <= reachSpace->numVoxels[3] && e >= 0 && e <= reachSpace->numVoxels[4] && f >= 0 && f <= reachSpace->numVoxels[5])
-                    {
-                        value = reachSpace->data->get(a, b, c, d, e, f);
-                    }
-                    else
-                    {
-                        value = 0;
-                    }
+                    // get voxel of this position and the fixed orientation
+                    float pose[6] = {voxelPosition(0), voxelPosition(1), voxelPosition(2), oLocal(0), oLocal(1), oLocal(2)};
+                    unsigned int v[6];
+                    value = reachSpace->getVoxelFromPose(pose, v) ? reachSpace->data->get(v) : 0;
 
                     if (value >= minValue)
                     {
-- 
2.43.0


From 6bb32b669878ee18a7301b5db73fd94c013693ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:45 +0000
Subject: [PATCH 216/217] fix: mesh visualization read beyond the colors for
 faces without a color

---
 .../CoinVisualization/CoinVisualizationFactory.cpp              | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/VirtualRobot/Visualization/CoinVisualization/CoinVisualizationFactory.cpp b/VirtualRobot/Visualization/CoinVisualization/CoinVisualizationFactory.cpp
index 6f1e63b..46d4521 100644
--- a/VirtualRobot/Visualization/CoinVisualization/CoinVisualizationFactory.cpp
+++ b/VirtualRobot/Visualization/CoinVisualization/CoinVisualizationFactory.cpp
@@ -1895,7 +1895,7 @@ namespace VirtualRobot
             v.push_back(v3);
             //            SoSeparator* s = CreatePolygonVisualization(v,color,lineColor,lineSize);
 
-            VisualizationFactory::Color triColor = (model->colors.size() == 0) ? color : model->colors[model->faces[i].idColor1];
+            VisualizationFactory::Color triColor = (model->faces[i].idColor1 >= model->colors.size()) ? color : model->colors[model->faces[i].idColor1];
 
             SoSeparator* s;
 
-- 
2.43.0


From 0b5606c0b7b811c7dbfa39e74e1e559f22ba9444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:45 +0000
Subject: [PATCH 217/217] fix: TSR constraint visualization ignored the
 rotation of the frame for the position of the box

---
 .../CoinVisualization/CoinVisualizationFactory.cpp        | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/VirtualRobot/Visualization/CoinVisualization/CoinVisualizationFactory.cpp b/VirtualRobot/Visualization/CoinVisualization/CoinVisualizationFactory.cpp
index 46d4521..db049dc 100644
--- a/VirtualRobot/Visualization/CoinVisualization/CoinVisualizationFactory.cpp
+++ b/VirtualRobot/Visualization/CoinVisualization/CoinVisualizationFactory.cpp
@@ -2514,11 +2514,9 @@ namespace VirtualRobot
         m->transparency.setValue(color.transparency);
         res->addChild(m);
 
-        Eigen::Vector3f translation(
-            constraint->getTransformation()(0, 3) + constraint->getBounds()(0, 0) + fabs(constraint->getBounds()(0, 0) - constraint->getBounds()(0, 1))/2,
-            constraint->getTransformation()(1, 3) + constraint->getBounds()(1, 0) + fabs(constraint->getBounds()(1, 0) - constraint->getBounds()(1, 1))/2,
-            constraint->getTransformation()(2, 3) + constraint->getBounds()(2, 0) + fabs(constraint->getBounds()(2, 0) - constraint->getBounds()(2, 1))/2
-            );
+        // the center of the bounds, which are given in the frame of the transformation
+        Eigen::Vector3f center = 0.5f * (constraint->getBounds().block<3, 1>(0, 0) + constraint->getBounds().block<3, 1>(0, 1));
+        Eigen::Vector3f translation = constraint->getTransformation().block<3, 3>(0, 0) * center + constraint->getTransformation().block<3, 1>(0, 3);
 
         SoTransform* t = new SoTransform;
         t->translation.setValue(translation.x(), translation.y(), translation.z());
-- 
2.43.0

