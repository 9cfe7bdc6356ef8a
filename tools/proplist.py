# Property list, read by tools/props.py
P("P01", "Forward kinematics: every node is where its joints and the base put it",
  "After any sequence of joint updates and robot placements, through any of the setters (single joint, maps, vectors, node sets, configurations, robot pose, placing the robot so that a node reaches a pose or position), the global pose of every node equals robot pose times the product of the fixed and joint transformations along the tree. The collision and visualization models of the node are at exactly that pose, and poses in the root frame are consistent with it. Loading the same structure from a file or building it in code, by transformation or by Denavit-Hartenberg parameters, makes no difference.",
  ["histories", "inputs"], "all kinematic trees of revolute, prismatic and fixed nodes with offsets, and all histories of in-range updates by any setter, node sets with any kinematic root",
  "The tests use a handful of fixed robots and single updates; partial updates from a subtree root and mixtures of setters can leave stale poses only for particular trees and histories.",
  ["VirtualRobot/Nodes/RobotNode.cpp", "VirtualRobot/Nodes/RobotNodeRevolute.cpp", "VirtualRobot/Nodes/RobotNodePrismatic.cpp", "VirtualRobot/Robot.cpp", "VirtualRobot/RobotNodeSet.cpp", "VirtualRobot/SceneObject.cpp"],
  [("pose update", "RobotNode::updatePose, updateTransformationMatrices, SceneObject::updatePose"), ("setters", "Robot::setJointValue(s), RobotNodeSet::setJointValues, Robot::applyJointValues"), ("robot placement", "Robot::setGlobalPose, setGlobalPoseForRobotNode, setGlobalPositionForRobotNode")],
  "Random trees (up to 10 nodes), histories of up to 8 updates over 16 setters, compared node by node with a double-precision kinematics model; DH chains against the DH formula.",
  "stateful property-based testing against a reference model of the kinematic tree")
P("P02", "Joint values respect limits, wrap-around and joint coupling",
  "A value requested for a joint is stored clamped to the joint's limits (unchanged if enforcement is switched off); a limitless joint stores a value in its interval that is equivalent modulo a full turn, and the value is the same whichever setter is used. Setting a joint individually sets every joint coupled to it, directly or through others, to its value times the coupling factor within that joint's own limits. Values of the wrong dimension are rejected without changing the robot, and limit queries and corrections agree with the limits.",
  ["inputs", "histories"], "all limits, all requested values including far outside the limits, all setters, all acyclic coupling graphs in which a joint has one driver",
  "Existing tests set a few in-range values; clamping, wrapping and coupling matter for out-of-range values and chains of couplings.",
  ["VirtualRobot/Nodes/RobotNode.cpp", "VirtualRobot/RobotNodeSet.cpp", "VirtualRobot/Robot.cpp"],
  [("limits and wrapping", "RobotNode::setJointValueNoUpdate, respectJointLimits, checkJointLimits, getDelta"), ("coupling", "RobotNode::propagateJointValue, updatePose")],
  "Random limits (limitless intervals anywhere), values up to 200 times the range, all setters, coupling forests up to depth 6.",
  "stateful property-based testing against a reference model of joint state")
P("P03", "Frame conversions are consistent and attached objects follow their parent",
  "Transforming a pose, position or orientation between global coordinates, the robot root frame and the frame of any scene object is consistent: conversions invert each other, compose along chains of objects, and equal what the global poses imply. A linked coordinate keeps its global pose when its frame is changed with recomputation and keeps its local pose otherwise, while following its robot. Objects attached to a scene object take over its pose, sensors mounted on a node keep their fixed transformation to it, through every motion until detached, and attaching never makes the scene tree cyclic.",
  ["inputs", "histories"], "all pairs of poses and objects, all histories of frame changes, attachments, detachments and motions",
  "Tests check a few hard coded frames; mix-ups of inverse, order or frame only show for general poses and several changes of frame.",
  ["VirtualRobot/SceneObject.cpp", "VirtualRobot/LinkedCoordinate.cpp", "VirtualRobot/Robot.cpp", "VirtualRobot/Nodes/RobotNode.cpp", "VirtualRobot/CoordinateSystem.h"],
  [("frame conversion", "SceneObject::toLocalCoordinateSystem, toGlobalCoordinateSystem, transformTo, getTransformationTo/From"), ("linked coordinates", "LinkedCoordinate::set, changeFrame, getInFrame"), ("attachments", "SceneObject::attachChild, detachChild, updatePose")],
  "Random robots and objects; all conversions compared with matrix algebra in double precision; histories of up to about 10 attach/detach/move operations against a reference tree.",
  "stateful and metamorphic property-based testing against double-precision matrix algebra")
P("P04", "Clones and restructured copies are the same mechanism, and independent",
  "A clone of a robot (or of a sub part) has the same nodes, structure, joint types, limits, couplings, values, masses, models, node sets and sensors, moves exactly like the original for the same joint values, scales with the scaling factor, and shares no state with it: moving or deleting one does not affect the other. Copies in which some joints are frozen (cloneSubSet, cloneUniteSubsets), reversed chains (cloneInversed, cloneChangeStructure) and objects attached as robot nodes keep the geometry, the mass and the motion of the remaining joints.",
  ["inputs", "histories"], "all kinematic trees, joint values, robot placements and scalings; all histories of moving the original and the copy",
  "No existing test clones a robot; a forgotten attribute or a shared pointer only shows when original and copy are moved differently.",
  ["VirtualRobot/Robot.cpp", "VirtualRobot/RobotFactory.cpp", "VirtualRobot/Nodes/RobotNode.cpp", "VirtualRobot/Nodes/RobotNodeRevolute.cpp", "VirtualRobot/Nodes/RobotNodePrismatic.cpp", "VirtualRobot/Nodes/RobotNodeFixed.cpp", "VirtualRobot/RobotNodeSet.cpp", "VirtualRobot/SceneObject.cpp", "VirtualRobot/CollisionDetection/CollisionModel.cpp"],
  [("cloning", "Robot::extractSubPart, RobotNode::clone, RobotNode*::_clone, RobotNodeSet::clone, Sensor::clone"), ("restructuring", "RobotFactory::cloneSubSet, cloneUniteSubsets, cloneInversed, cloneChangeStructure, attach, detach")],
  "Random robots with models, physics, sensors, node sets; copy compared attribute by attribute and by motion with the kinematics model. Reversed copies are claimed for unbranched chains.",
  "stateful property-based testing against a reference model, differential between copy and original")
P("P05", "A robot description means the same however it is written, or is rejected",
  "Reading a robot description gives exactly the described robot, however it is written: any supported unit, any notation of a transformation (matrix, roll-pitch-yaw, quaternion, translation, DH), joint limits, torque, velocity and configuration values in any unit, tags and attributes in any case, children nested or referenced, models given as files or primitives or included from another robot file. Omitted values get their documented defaults. Descriptions that break a rule of the format (missing or duplicate names, unknown units, types, nodes or children, cycles, forbidden combinations) are rejected with a VirtualRobotException, and a damaged document never crashes: it is rejected or gives a consistent kinematic tree.",
  ["inputs"], "all robots, all equivalent notations of them, all single violations of the format and arbitrary damage of the text",
  "The tests parse a few valid files in one notation; unit and notation mix-ups and missing checks only show for combinations nobody wrote down.",
  ["VirtualRobot/XML/RobotIO.cpp", "VirtualRobot/XML/BaseIO.cpp", "VirtualRobot/Units.h", "VirtualRobot/Visualization/TriMeshModel.cpp"],
  [("parsing", "RobotIO::createRobotFromString, processRobotNode, processJointNode, processLimitsNode, BaseIO::processTransformNode, processPhysicsTag"), ("units", "Units, BaseIO::getUnitsAttribute")],
  "Random robots written in random equivalent notations and compared with the specification; catalogue of invalid documents; token- and byte-level damage of valid documents.",
  "metamorphic property-based testing (equivalent notations) and structure-aware mutation fuzzing")
P("P06", "A written robot description describes the robot it was written from",
  "Writing a robot (as text or as a file with its models, after any motion, also a clone) and reading it back gives a robot with the same type, nodes, tree structure, fixed transformations, joint types, axes, limits, limitless flags, offsets, maximum velocity, acceleration and torque, joint coupling, physical properties (mass, centre of mass, inertia, simulation type, friction, ignored collisions), position sensors, node sets (nodes, kinematic root, TCP), end effectors (base, TCP, GCP, static part, actors, preshapes) and the same geometry of the models, up to the printed precision; writing the read robot gives the same text again. Current joint values and the pose of the robot are not part of the description.",
  ["inputs"], "all robots, joint values and placements at the time of writing, model directories",
  "No test writes a robot and reads it back; each attribute is written and parsed by separate code that must agree.",
  ["VirtualRobot/Robot.cpp", "VirtualRobot/Nodes/RobotNode.cpp", "VirtualRobot/Nodes/RobotNodeRevolute.cpp", "VirtualRobot/Nodes/RobotNodePrismatic.cpp", "VirtualRobot/RobotNodeSet.cpp", "VirtualRobot/SceneObject.cpp", "VirtualRobot/EndEffector/EndEffector.cpp", "VirtualRobot/EndEffector/EndEffectorActor.cpp", "VirtualRobot/XML/RobotIO.cpp"],
  [("writing", "Robot::toXML, RobotNode::toXML, _toXML, Physics::toXML, EndEffector::toXML, RobotNodeSet::toXML, RobotIO::saveXML, saveModelFiles"), ("reading", "RobotIO::createRobotFromString, loadRobot")],
  "Random robots with physics, coupling, sensors, node sets, end effectors and primitive models; moved, optionally cloned, written, read and compared with the specification.",
  "round-trip property-based testing against the generated specification")
P("P07", "Trajectories and robot configurations behave like the data they represent",
  "A joint-space trajectory behaves like the sequence of its points under any history of insertions (also of a trajectory into itself), removals, reversal, copies and sub paths, with invalid positions refused and copies independent; interpolating it at t gives the point at the fraction t of its length, on the segment of the reported index; mapping it to the workspace gives the forward kinematics of each point and leaves the robot as it was. A robot configuration behaves like a map from joints to values: applying it, to its robot, a copy of the robot or through a node set, sets exactly the stored joints within their limits and nothing else, and never a robot that lacks one of the joints.",
  ["histories", "inputs"], "all histories of edits, all trajectories (repeated points, single points, zero length) and all t in [0,1], all configurations and robots",
  "The tests contain one clone of one trajectory; index arithmetic at the ends and independence of copies need many histories.",
  ["VirtualRobot/Trajectory.cpp", "VirtualRobot/RobotConfig.cpp", "VirtualRobot/Robot.cpp", "VirtualRobot/RobotNodeSet.cpp"],
  [("trajectory", "Trajectory::insertPosition, insertTrajectory, removePositions, createSubPath, interpolate, createWorkspaceTrajectory"), ("configuration", "RobotConfig::setConfig, setJointValues, clone, Robot::getConfig, setJointValues(RobotConfig)")],
  "Histories of up to 12 edits against a vector model; interpolation against double-precision arc length; configurations against a map and the kinematics model.",
  "stateful model-based property-based testing")
P("P08", "Blended paths and time-optimal trajectories respect the waypoints and limits",
  "A path through waypoints starts and ends at the first and last one, is parametrized by its length, stays within the maximum deviation of the waypoints and the lines between them, has no corners when blended, and its tangent and curvature are the derivatives of its configuration; its switching points are sorted and found. A time-optimal trajectory reported as valid follows the path from start to end, at rest at both, stays within every velocity and acceleration limit up to the accuracy of its time step, has positions consistent with its velocities, is never faster than a single joint could be, and reaches the known optimum on straight paths; queries do not depend on their order, or on queries of a copy.",
  ["inputs", "histories"], "all waypoint lists with turns of less than about 155 degrees, deviations, limits, and orders of queries",
  "No existing test runs the trajectory generator; wrong blends and limits violated for a moment need many shapes and dense sampling.",
  ["VirtualRobot/TimeOptimalTrajectory/Path.cpp", "VirtualRobot/TimeOptimalTrajectory/TimeOptimalTrajectory.cpp"],
  [("path", "Path, CircularPathSegment, LinearPathSegment, getConfig, getTangent, getCurvature, getNextSwitchingPoint"), ("trajectory", "TimeOptimalTrajectory::integrateForward, integrateBackward, getTrajectorySegment, getPosition, getVelocity, getDuration")],
  "Random paths in 1 to 5 dimensions at scales 0.1 to 100; sampled 300 to 400 times each. An exceeded acceleration is reported only if it persists with smaller time steps.",
  "property-based testing with invariants over the sampled motion, finite differences and a closed-form optimum")
P("P09", "Jacobians, task errors and IK steps agree with the kinematics",
  "The Jacobian of any TCP, in any coordinate system and for any part of the pose, the Jacobian of the centre of mass and of pose-quality measures are the derivatives of the robot's kinematics with respect to the joints of the set; task errors are the differences between goal and actual pose, and constraint objectives are zero exactly at their goal, with gradients that are their derivatives and with fulfilment decided by their tolerances. Every pseudo-inverse satisfies its defining equations, a single step of a differential, stacked or hierarchical solver solves its linearized tasks (lower priorities never disturbing higher ones), and manipulability (also the extended one, under joint limits and obstacles) equals the one of the (augmented) Jacobian.",
  ["inputs"], "all kinematic trees, joint sets, configurations, TCPs, coordinate systems, goals, weights and task hierarchies",
  "The tests compare a few Jacobians of one robot with stored values; sign, frame and scaling errors show only for joints and frames that are oriented arbitrarily.",
  ["VirtualRobot/IK/DifferentialIK.cpp", "VirtualRobot/IK/JacobiProvider.cpp", "VirtualRobot/IK/CoMIK.cpp", "VirtualRobot/IK/HierarchicalIK.cpp", "VirtualRobot/IK/StackedIK.cpp", "VirtualRobot/IK/PoseQualityManipulability.cpp", "VirtualRobot/IK/PoseQualityExtendedManipulability.cpp", "VirtualRobot/IK/constraints/PoseConstraint.cpp", "VirtualRobot/IK/constraints/TSRConstraint.cpp", "VirtualRobot/IK/constraints/PositionConstraint.cpp", "VirtualRobot/IK/constraints/OrientationConstraint.cpp", "VirtualRobot/IK/constraints/CoMConstraint.cpp", "VirtualRobot/MathTools.cpp"],
  [("Jacobians", "DifferentialIK::getJacobianMatrix, CoMIK::getJacobianMatrix"), ("pseudo inverses", "JacobiProvider::computePseudoInverseJacobianMatrixD, MathTools::getPseudoInverse, getPseudoInverseDamped"), ("constraints", "optimizationFunction, optimizationGradient, getError, checkTolerances"), ("steps", "HierarchicalIK::computeStep, StackedIK::computeStep")],
  "Random trees with revolute and prismatic joints; finite differences and analytic derivatives of a double-precision model; Penrose equations; null-space conditions.",
  "differential property-based testing against a reference model and its derivatives")

P("P10", "Inverse kinematics reports success only when its goals are met",
  "When an inverse kinematics solver (differential, generic, by grasp, centre of mass, hierarchical, constraint based, numerical optimization, gaze) reports a solution, the robot is at it: every task is within its tolerance, all joints are within their limits, a requested collision check holds, and a returned grasp is the reached one. When it reports failure the robot is restored where the solver promises it. Joints outside of the set, the pose of the robot and the update mode are never changed. A differential solver converges wherever a reference descent of the same method converges monotonically, and a solver may be used again for other goals with the same result as a fresh one.",
  ["inputs", "histories"], "all kinematic trees, joint sets, start configurations, reachable and unreachable goals, tolerances, step sizes and cartesian selections; histories of using a solver again",
  "The tests solve for one or two goals; success reported for the wrong quantity, and state left over from an earlier run, only show for particular goals and histories.",
  ["VirtualRobot/IK/DifferentialIK.cpp", "VirtualRobot/IK/GenericIKSolver.cpp", "VirtualRobot/IK/AdvancedIKSolver.cpp", "VirtualRobot/IK/IKSolver.cpp", "VirtualRobot/IK/CoMIK.cpp", "VirtualRobot/IK/HierarchicalIKSolver.cpp", "VirtualRobot/IK/ConstrainedIK.cpp", "VirtualRobot/IK/ConstrainedHierarchicalIK.cpp", "VirtualRobot/IK/ConstrainedStackedIK.cpp", "VirtualRobot/IK/ConstrainedOptimizationIK.cpp", "VirtualRobot/IK/GazeIK.cpp"],
  [("solvers", "DifferentialIK::computeSteps, GenericIKSolver::solve, solveNoRNSUpdate, AdvancedIKSolver::solve, CoMIK::solveIK, HierarchicalIKSolver::computeSteps, ConstrainedIK::solve, GazeIK::solve"), ("acceptance", "checkTolerances, checkImprovements, getErrorPosition, getErrorRotation, checkReachable")],
  "Random robots; about half of the goals generated as reachable; every reported success verified with the double-precision kinematics model. Convergence claimed only where a reference descent converges monotonically.",
  "property-based testing of results against a reference kinematics model and a reference descent")

P("P11", "Mass, centre of mass, inertia, gravity torque and balance are physically right",
  "Masses and centres of mass of robots, node sets and objects are the sums and weighted means over their bodies in every configuration and after any change; inertia given at the centre of mass is shifted and rotated by the parallel axis theorem, and centre of mass and inertia that are not given are those of the bounding box of the model. Gravity torques are the derivative of the potential energy with respect to each joint. The support polygon is the convex hull of the model corners near the floor; the stability index is 0 outside and grows to 1 with the distance of the centre of mass from its border; a balance constraint is fulfilled exactly when the index reaches the minimum, with error, Jacobian and gradient that are consistent with it.",
  ["inputs", "histories"], "all robots with masses, configurations, placements, body and joint sets, contact objects and floor distances",
  "The tests check gravity torques of one robot in one pose; frames, weights and degenerate polygons need arbitrary robots and contacts.",
  ["VirtualRobot/Robot.cpp", "VirtualRobot/RobotNodeSet.cpp", "VirtualRobot/SceneObject.cpp", "VirtualRobot/Tools/Gravity.cpp", "VirtualRobot/IK/SupportPolygon.cpp", "VirtualRobot/IK/constraints/BalanceConstraint.cpp", "VirtualRobot/IK/CoMIK.cpp", "VirtualRobot/MathTools.cpp"],
  [("mass", "Robot::getMass, getCoMGlobal, RobotNodeSet::getCoM, SceneObject::getCoMGlobal, getInertiaMatrix, initializePhysics"), ("gravity", "Gravity::computeGravityTorque"), ("balance", "SupportPolygon::updateSupportPolygon, getStabilityIndex, BalanceConstraint::getError, checkTolerances, optimizationFunction, optimizationGradient")],
  "Random robots with masses, random boxes and spheres near the floor; references in double precision: kinematics model, point masses, numerical derivative of the potential energy, convex hull.",
  "property-based testing against reference models (potential energy, point masses, convex hull)")

P("P12", "Collision tests and distances agree with the exact geometry of the models",
  "A collision is reported exactly when the surfaces of the two models intersect at their current poses, whichever way they are given (models, objects, sets, robots, nodes, in either order); the distance is the smallest distance of the surfaces, 0 on intersection, and the returned points lie on the two models that far apart. A point is reported for a tolerance exactly when it is closer than that. Contacts with a plane are the corners within the distance. Primitives and obstacles made from meshes have the geometry asked for; a collision model works with its mesh, inflated, scaled, united or cloned as requested, at the pose it was last given, and its boxes and corners are those of that mesh.",
  ["inputs", "histories"], "all meshes and primitives, poses, tolerances and planes; histories of moving, inflating, cloning, scaling and uniting",
  "The tests have two or three box configurations; the tree-based algorithms and cached poses fail for particular shapes, poses and histories only.",
  ["VirtualRobot/CollisionDetection/CollisionChecker.cpp", "VirtualRobot/CollisionDetection/CollisionModel.cpp", "VirtualRobot/CollisionDetection/PQP/CollisionCheckerPQP.cpp", "VirtualRobot/CollisionDetection/PQP/CollisionModelPQP.cpp", "VirtualRobot/CollisionDetection/PQP/PQP++/PQP.cpp", "VirtualRobot/Obstacle.cpp", "VirtualRobot/Visualization/TriMeshModel.cpp"],
  [("queries", "CollisionChecker::checkCollision, calculateDistance, getContacts"), ("models", "CollisionModel::inflateModel, clone, scale, setGlobalPose, CreateUnitedCollisionModel, getBoundingBox, getModelVeticesGlobal"), ("obstacles", "Obstacle::createBox, createSphere, createCylinder, createFromMesh")],
  "Brute force over all triangle pairs in double precision; a collision verdict is demanded only if it is robust against small shifts. Containment without touching surfaces is no collision in this library.",
  "differential property-based testing against brute-force triangle geometry")

P("P13", "Collision managers and object sets answer for exactly what was added to them",
  "After any history of adding sets, objects and pairs (again, in any order, as object or as set) and of moving objects or extending sets, a collision manager reports a collision and the smallest distance over exactly the pairs that were requested (all earlier ones for addCollisionModel), and for one set against all other registered ones. A scene object set is a set: it holds each added object once, refuses null, duplicates and objects of another checker, returns what is in it, and its clones and static obstacles have its content at the time without following later changes. A node set keeps its nodes.",
  ["histories"], "all histories of additions, removals, moves and queries",
  "No test has more than two objects; lost or additional pairs need several additions in a particular order.",
  ["VirtualRobot/CollisionDetection/CDManager.cpp", "VirtualRobot/SceneObjectSet.cpp", "VirtualRobot/RobotNodeSet.cpp"],
  [("manager", "CDManager::addCollisionModel, addCollisionModelPair, isInCollision, getDistance"), ("sets", "SceneObjectSet::addSceneObject, removeSceneObject, clone, createStaticObstacle, getCollisionModels")],
  "Up to 10 steps on up to 7 objects, model of groups and pairs, distances by brute force over triangles. Overlapping sets are not generated.",
  "stateful model-based property-based testing with a brute-force geometric oracle")

P("P14", "Workspace data holds exactly the poses that were added to it",
  "Reachability, manipulability and grid data behave like an array over voxels of position and orientation: after any history of adding poses and configurations, setting, binarizing, bisecting, clearing, cloning, filling holes, saving and loading, each voxel has the entry of what was added to it (saturating or halved on overflow, as chosen), in the frame of the base node wherever the robot is. A pose is mapped to the voxel that contains it and outside of the bounds to none; voxel poses map back to their voxel; cuts, sums, covers, volumes and random poses agree with the array. Reachable poses come from configurations within limits that satisfy the requested collision checks; manipulability entries are those of the configuration. Loading truncated data fails. Grids give the reachable grasps of their cells.",
  ["histories", "inputs"], "all histories of operations, robots, base nodes, placements, discretizations, bounds and poses; truncated files",
  "The tests add one pose; off-by-one voxel borders, overflow, frames and files need many grids and long histories.",
  ["VirtualRobot/Workspace/WorkspaceRepresentation.cpp", "VirtualRobot/Workspace/WorkspaceDataArray.cpp", "VirtualRobot/Workspace/Reachability.cpp", "VirtualRobot/Workspace/Manipulability.cpp", "VirtualRobot/Workspace/WorkspaceGrid.cpp", "VirtualRobot/XML/FileIO.h"],
  [("data", "WorkspaceDataArray::setDatum, increaseDatum, bisectData, binarize, sumAngleReachabilities"), ("mapping", "WorkspaceRepresentation::getVoxelFromPose, getPoseFromVoxel, addPose, getEntry, isCovered, createCut, fillHoles, save, load"), ("grids", "WorkspaceGrid::fillGridData, setEntryCheckNeighbors, MergeWorkspaceGrids")],
  "Random robots and grids of up to a few thousand voxels; reference array and Hopf coordinates in double precision. Poses within half a voxel outside of the bounds, and border voxels of fillHoles, are not judged.",
  "stateful model-based property-based testing against a reference array")

P("P15", "Compressed and binary data are read back as written",
  "Data compressed with bzip2, written and read in parts of any size and embedded at any position of a stream, is read back unchanged, can be exchanged with any other bzip2 implementation in both directions, and the stream continues exactly behind it; damaged or truncated compressed data is refused or gives the original, never other data. Run-length encoding is lossless, within the documented size, never writes behind it, pays off for runs, and any valid encoding is decoded. Binary files give back the strings, numbers, arrays and matrices written to them, and end of file is an error, not garbage; point files give one point per row.",
  ["inputs"], "all contents (random, runs, periodic, few symbols, several blocks), part sizes, positions, damages; all sequences of binary items and cuts",
  "The tests compress random and zero blocks of one size; run lengths at the borders of the encoding, block borders and damaged data need generated contents.",
  ["VirtualRobot/Compression/CompressionBZip2.cpp", "VirtualRobot/Compression/CompressionRLE.cpp", "VirtualRobot/XML/FileIO.h", "VirtualRobot/XML/FileIO.cpp"],
  [("bzip2", "CompressionBZip2::write, read, close"), ("run lengths", "CompressionRLE::RLE_Compress, RLE_Uncompress"), ("binary files", "FileIO::read, readArray, readString, readMatrix4f, readPts")],
  "Oracle: the system's libbz2 and a decoder written from the description of the run-length format; contents up to 900 kB.",
  "property-based round-trip and differential testing, fault injection into the data")

P("P16", "Rotation representations are converted, combined and compared exactly",
  "Roll-pitch-yaw angles, quaternions, Hopf coordinates, axis and angle, and matrices describe the same rotation after every conversion and back, also at and near gimbal lock, half turns and identity, with results in their documented ranges and all variants of a function agreeing. Products, inverses, differences, means and interpolations of quaternions are those of the rotations (whatever the sign of the quaternions); the rotation between two vectors takes one to the other by the shortest angle, also for opposite ones; distances of poses are the distance of the positions and the angle between the orientations. Angle arithmetic is correct modulo 2 pi; spherical coordinates give back the position.",
  ["inputs"], "all rotations (special and nearly special ones frequently), vectors, angles of several turns and interpolation factors",
  "The tests convert a grid of angles; singularities, signs and ranges fail only near particular rotations.",
  ["VirtualRobot/MathTools.cpp"],
  [("conversions", "rpy2eigen4f, eigen4f2rpy, quat2eigen4f, eigen4f2quat, quat2hopf, hopf2quat, axisangle2eigen4f, eigen4f2axisangle, toSphericalCoords"), ("algebra", "multiplyQuaternions, getInverse, getDelta, getMean, slerp, getRotation, getPoseDiff"), ("angles", "fmod, angleMod2PI, angleModPI, angleModX, AngleLerp, AngleDelta")],
  "Compared with Eigen in double precision; about 2.6 million cases per quick run, a third of them at or near singularities.",
  "property-based testing against double-precision reference formulas, round trips and algebraic laws")

P("P17", "Geometric helpers compute exact planes, lines, boxes, hulls and bases",
  "Projections onto planes and lines are the closest points, plane and floor coordinates round-trip, distances have the right sign and size, intersections of planes, lines and segments lie on both and are reported exactly when they exist. Oriented boxes answer for their corners, segments and volumes correctly in any pose. The planar convex hull contains every point, has only given points as corners, in counter-clockwise order and strictly convex, and containment follows it. Triangle areas, normals and centers are right for any triangle, also slivers; orthonormalisation gives an orthonormal basis spanning the same space for any input and dimension; weighted and mean values and pseudo inverses satisfy their defining equations.",
  ["inputs"], "all points, planes, segments, boxes, point sets (also on integer grids, collinear, repeated) and bases, up to the tolerances documented",
  "The tests have a few planes and one hull; parallel, coincident, collinear, tilted and degenerate inputs are where such helpers fail.",
  ["VirtualRobot/MathTools.cpp", "VirtualRobot/MathTools.h"],
  [("planes and lines", "projectPointToPlane, projectPointToPlane2D, planePoint3D, getDistancePointPlane, intersectPlanes, nearestPointOnLine, nearestPointOnSegment, intersectSegmentPlane, intersectOOBBPlane"), ("hulls", "createConvexHull2D, isInside, sortPoints"), ("triangles and bases", "getTriangleArea, findNormal, GramSchmidt, getBasisTransformation")],
  "About 1.7 million cases per quick run; closed forms in double precision, hull conditions decided exactly on integer grids. Not judged: segments of length 0, touching corners, almost parallel planes.",
  "property-based testing against closed forms in double precision and exact integer geometry")

P("P18", "Math helpers interpolate, transform and summarise as defined",
  "Angle folding, interpolation and its inverse, clamping, ranges and grid points follow their formulas for all arguments. Poses are inverted, moved and compared exactly; the rotation between vectors is the shortest one; orthogonalisation gives the closest rotation. Lines, line strips, Bezier curves (continued linearly) and interpolated orientations pass through their defining values, have the derivative they report, reach the end at the end however slow or small the motion, and their samples, lengths and closest points agree with evaluation. Rays hit exactly the triangles they cross, first one first. Fitted planes minimise the squared distance, limits keep the direction of a vector, averages are weighted means, every histogram value is counted in the bin that contains it (outside: first or last), and clamped distributions stay in their bounds.",
  ["inputs"], "all angles of several turns, poses, matrices near and far from rotations, curves and parameters inside and outside of their range, point sets, data",
  "The tests cover poses and one fitted plane; borders, small or slow rotations and values out of range are not touched.",
  ["VirtualRobot/math/Helpers.cpp", "VirtualRobot/math/Helpers.h", "VirtualRobot/math/Line.cpp", "VirtualRobot/math/LineStrip.cpp", "VirtualRobot/math/Bezier.cpp", "VirtualRobot/math/LinearInterpolatedOrientation.cpp", "VirtualRobot/math/CompositeFunctionR1R6.cpp", "VirtualRobot/math/AbstractFunctionR1R3.cpp", "VirtualRobot/math/Plane.cpp", "VirtualRobot/math/FitPlane.cpp", "VirtualRobot/math/Histogram.cpp", "VirtualRobot/math/WeightedAverage.h", "VirtualRobot/math/Grid3D.cpp", "VirtualRobot/math/ClampedNormalDistribution.hpp"],
  [("helpers", "math::Helpers"), ("curves", "Line, LineStrip, Bezier, LinearContinuedBezier, LinearInterpolatedOrientation, CompositeFunctionR1R6, AbstractFunctionR1R3::FindClosestPoint, Line::IntersectsTriangle"), ("data", "Histogram, FitPlane, WeightedAverage, Grid3D, Array3D, ClampedNormalDistribution")],
  "About a million cases per quick run; formulas in double precision (de Casteljau, SVD, barycentric coordinates). Interpolation between orientations almost half a turn apart is not judged, nor MoveLengthOnCurve, which treats the curve as a graph.",
  "property-based testing against double-precision reference formulas")

P("P19", "Implicit surfaces are the Gaussian process regression of their observations",
  "Kernels and all their derivatives are consistent. A Gaussian implicit surface, from values, from contacts with normals or both, is the Gaussian process posterior of exactly its observations with the given noise (for each observation) and normal scale: mean and variance at every point, reproducing observations without noise, independent of what was calculated before; object models are those of their contacts. Implicit planes give closest points, signed distances and intersection lines. Marching cubes gives a mesh without holes, consistently oriented, with every vertex on a grid edge at the level by linear interpolation, every crossed grid edge covered, and finds the whole connected surface from any start near it.",
  ["inputs", "histories"], "all observation sets, noises, scales, kernels, planes, scalar fields, grids and levels; models used again",
  "The tests evaluate two surfaces at their samples; noise, derivatives, orientation and completeness of the mesh are untested.",
  ["VirtualRobot/math/Kernels.cpp", "VirtualRobot/math/GaussianImplicitSurface3D.cpp", "VirtualRobot/math/GaussianImplicitSurface3DNormals.cpp", "VirtualRobot/math/GaussianImplicitSurface3DCombined.cpp", "VirtualRobot/math/GaussianObjectModel.cpp", "VirtualRobot/math/GaussianObjectModelNormals.cpp", "VirtualRobot/math/ImplicitPlane.cpp", "VirtualRobot/math/MarchingCubes.cpp", "VirtualRobot/math/GridCacheFloat3.cpp"],
  [("regression", "Calculate, Get, GetVariance, KernelWithDerivatives::Kernel"), ("marching cubes", "MarchingCubes::Calculate, Process, ProcessSingleSurfaceOptimized")],
  "Reference: kernel matrices solved in long double, tolerance from the conditioning (systems up to 1e7); numerical derivatives of the kernels; combinatorial closedness of meshes, also of random fields.",
  "property-based testing against a long-double reference regression and mesh invariants")
P("P20", "Mesh operations keep geometry and references consistent; STL import is exact",
  "Triangle meshes stay well formed under every operation: faces refer to existing vertices, colors and normals, and the bounding box and size are those of the vertices. Clones are independent; scaling, appending, flipping, recoloring and clearing do what they say for corners, colors and normals. Merging leaves no two used vertices closer than the threshold, moves corners only within a chain of close vertices, and keeps faces and colors. Missing normals and colors are completed without touching existing ones. Fattening moves each vertex along its angle-weighted average normal; orientation correction makes connected faces consistent. Box meshes are closed and outward. ASCII and binary STL are read exactly, with scaling, sharing equal vertices; truncated or damaged data is refused or read without invented geometry.",
  ["inputs"], "all meshes, thresholds, offsets, scale factors, face orders; STL files in both formats, also damaged",
  "The tests check one triangle per function; merging, normals, colors, orientation and damaged files are untested.",
  ["VirtualRobot/Visualization/TriMeshModel.cpp", "VirtualRobot/Visualization/TriMeshUtils.cpp", "VirtualRobot/MathTools.h", "VirtualRobot/BoundingBox.cpp", "VirtualRobot/Import/MeshImport/STLReader.cpp"],
  [("mesh operations", "mergeVertices, removeUnusedVertices, addMissingNormals, addMissingColors, fattenShrink, checkAndCorrectNormals, scale, clone, flipVertexOrientations, setColor, addMesh"), ("STL import", "STLReader::read, read_stla, read_stlb, check_stl_type")],
  "Orientation correction is judged for surfaces connected over edges without non-manifold edges; mirrored normals after negative scaling are not claimed. Truncated binary data must be refused when read from a stream.",
  "property-based testing against recomputed geometry and a writer of STL files, with damaged files")
P("P21", "Grasps, objects and scenes mean what their files say and survive being saved",
  "A grasp relates hand and object poses consistently (object pose = hand pose times grasp, and the inverse), also for the current pose of a robot; grasp sets and the sets of an object behave like ordered lists, clones are independent. Obstacles, manipulation objects (geometry, physics, pose, grasps with preshape, quality and configuration) and scenes (robots with pose, initial and named configurations with tcp, node sets, linked or inline objects, object sets, trajectories) are read as described in every notation; after any changes, saving and loading again, also to another folder and repeatedly, gives the same scene. The registry of a scene behaves like ordered lists with lookup by pointer and name. Broken documents are refused with the library's exception. Meshes written as STL are read back unchanged.",
  ["inputs", "histories"], "grasps, poses, object and scene documents in all notations, changes between loading and saving, registration sequences, damaged documents, meshes",
  "No test covers scenes, obstacles or grasps; saving is not tested at all.",
  ["VirtualRobot/Grasping/Grasp.cpp", "VirtualRobot/Grasping/GraspSet.cpp", "VirtualRobot/ManipulationObject.cpp", "VirtualRobot/Obstacle.cpp", "VirtualRobot/Scene.cpp", "VirtualRobot/SceneObject.cpp", "VirtualRobot/SceneObjectSet.cpp", "VirtualRobot/XML/ObjectIO.cpp", "VirtualRobot/XML/SceneIO.cpp", "VirtualRobot/XML/BaseIO.cpp"],
  [("grasps", "Grasp::getTcpPoseGlobal, getObjectTargetPoseGlobal, getTargetPoseGlobal, GraspSet"), ("reading", "ObjectIO::processManipulationObject, processObstacle, processGrasp, SceneIO::processScene*"), ("writing", "Scene::getXMLString, ManipulationObject::toXML, Obstacle::toXML, GraspSet::getXMLString, ObjectIO::writeSTL")],
  "Values are written with six digits; names with markup characters, two robots of one type in trajectories, unknown units of configuration values and centres of mass that are not given explicitly are not claimed.",
  "model-based property testing: generated documents and registration histories against a plain model, round trips, damaged documents")
P("P22", "Closing a hand stops exactly at contacts and limits; hands are what files say",
  "Closing or opening an end effector moves each joint of its actors in its direction and speed by whole steps, within its limits, moves nothing else, and stops only where the next step would collide (with the given objects, with other fingers or with static parts, as the actor's collision modes say) or leave the limits; a hand without forbidden collisions ends without one, and closing it again changes nothing. The reported contacts are exactly the collisions that stop the joints, each once, with the right finger, object, distance, points and direction of approach; contacts of static parts are those within the given distance. Single actors move and report collisions likewise. Tcp, base, nodes, preshapes and configuration are those of the file; an end effector extracted as a robot, or cloned with its robot, is independent and behaves identically.",
  ["inputs", "histories"], "hands of 2..4 fingers or jaws, joint values, poses, objects, step sizes, collision modes and preshapes; repeated moves",
  "The only test of end effectors reads one file; closing with contacts is not tested.",
  ["VirtualRobot/EndEffector/EndEffector.cpp", "VirtualRobot/EndEffector/EndEffectorActor.cpp", "VirtualRobot/XML/RobotIO.cpp"],
  [("closing", "EndEffector::closeActors, openActors, EndEffectorActor::moveActorCheckCollision, moveActor, isColliding"), ("structure", "EndEffector::createEefRobot, clone, setPreshape, getConfiguration, nodesSufficient, RobotIO::processEndeffectorNode")],
  "The oracle replays every next step with the collision checker (judged by P11, P12). Steps that end within rounding of a limit are not judged; a direction of 0 in a file means the default by design.",
  "model-based property testing of generated hands closing on objects, oracle by replaying every joint's next step")
P("P23", "Configuration spaces, paths and trees respect metric, bounds and validity",
  "In a configuration space over a robot's joints, distances and interpolation follow the weighted metric with limitless joints taken the short way around; interpolated, sampled and clamped configurations lie within the boundaries; a configuration is valid exactly when it is within bounds, satisfies every registered constraint and the robot is free of collisions in it. A path between configurations is declared valid only if configurations no further apart than the collision sampling size were all valid, stops before the first invalid one otherwise, and generated paths start and end exactly and are spaced by at most the sampling size. Path length, points, lookups along the path and edits agree with a list of points. Trees keep parents, children, IDs and nearest neighbours consistent under appending and removing, stay within the node budget, and clones for another robot behave the same and are independent.",
  ["inputs", "histories"], "joint sets with bounded, narrowed and limitless joints, metric weights, constraint regions, obstacles, sampling sizes, start and end configurations, edit sequences of paths and trees",
  "The tests plan one path in one scene; wrap-around, weights, clones, removal and sampling densities are untested.",
  ["MotionPlanning/CSpace/CSpace.cpp", "MotionPlanning/CSpace/CSpaceSampled.cpp", "MotionPlanning/CSpace/CSpacePath.cpp", "MotionPlanning/CSpace/CSpaceTree.cpp", "MotionPlanning/CSpace/Sampler.cpp"],
  [("configuration space", "CSpace::calcDist, interpolate, isConfigValid, isCollisionFree, getRandomConfig, respectBoundaries, CSpaceSampled::isPathValid, createPath, createPathUntilInvalid, clone"), ("paths", "CSpacePath::getLength, interpolate, insertTrajectory, erasePosition, checkSolution via CSpaceSampled"), ("trees", "CSpaceTree::appendNode, appendPath, appendPathUntilCollision, removeNode, getNearestNeighbor, getPathDist")],
  "Constraint objects record every configuration the code asks about, which decides how densely a path was checked. Configurations within 2e-3 of half a turn apart are not judged; nearest neighbours use the unweighted metric by design.",
  "model-based property testing: metric model, recorded validity queries, edit histories against plain lists and trees")
P("P24", "RRT planners return only valid motions from start to goal, in any call history",
  "Whenever an RRT or bidirectional RRT planner (all extension modes, step sizes and goal probabilities) reports success, its solution starts exactly at the start, ends at the goal, stays within the joint boundaries, has no step longer than the sampling sizes allow, and is never invalid (colliding or violating constraints) for longer than the collision sampling permits; every edge of its search trees satisfies the same. Start and goal are accepted exactly if they are valid. After failure, timeout, exhausted cycles or nodes, a reset, or changes of start and goal, there is no stale or invalid solution, and planning again works. Without obstacles the goal is reached. Planning in a thread gives the same guarantees; it can be stopped at any time, also right after its start, and started again. The robot's visualisation status is left as it was.",
  ["inputs", "histories", "schedules"], "configuration spaces with regions and obstacles, planner settings, sequences of setting start and goal, planning, timeouts, resets, stops of threads at any time",
  "The tests plan one path in one scene and check that it exists; validity of motions, failures, repeated planning and threads are untested.",
  ["MotionPlanning/Planner/Rrt.cpp", "MotionPlanning/Planner/BiRrt.cpp", "MotionPlanning/Planner/MotionPlanner.cpp", "MotionPlanning/Planner/PlanningThread.cpp"],
  [("search", "Rrt::plan, extend, connectComplete, connectUntilCollision, BiRrt::plan"), ("solutions", "createSolution, getSolution, reset, setStart, setGoal"), ("threads", "PlanningThread::start, interrupt, stop")],
  "Validity is recomputed every quarter of the sampling size; gaps up to twice the collision sampling size are allowed where trees branch. Exhausted node budgets may throw.",
  "stateful property-based testing of planners in random worlds, solutions re-validated by a reference model; threads stopped at random times")
P("P25", "Path post-processing shortens paths, keeps them valid and the original intact",
  "Shortcut optimisation, pruning and single shortcuts keep start and goal exactly, never make a path longer, keep it valid up to the collision sampling size and within spacing, leave the original path unchanged, and report what they did (valid candidates, number of saved points); pruning ends only when no point can be skipped any more. Elastic bands keep the ends, move each inner point by the clamped, weighted sum of the pull of its neighbours and the push of near obstacles, remove only points that are close to their neighbours, and report these forces. Paths of any number of points are accepted. Processing in a thread gives the same guarantees and can be stopped at any time and started again.",
  ["inputs", "histories", "schedules"], "valid zigzag paths in spaces with regions and obstacles, numbers of steps, candidate distances, weights, stops of threads at any time",
  "Post-processing is not tested at all.",
  ["MotionPlanning/PostProcessing/ShortcutProcessor.cpp", "MotionPlanning/PostProcessing/ElasticBandProcessor.cpp", "MotionPlanning/PostProcessing/PathProcessingThread.cpp"],
  [("shortcuts", "ShortcutProcessor::optimize, shortenSolutionRandom, doPathPruning, selectCandidatesRandom, validShortcut, doShortcut"), ("elastic bands", "ElasticBandProcessor::optimize, getForces, setWeights"), ("threads", "PathProcessingThread")],
  "Elastic bands are judged for bounded joints; with obstacles nearby one step at a time.",
  "property-based testing: metric and validity models, exact postconditions, a reference for elastic bands")
P("P26", "Boxes, sphere meshes, colour maps, units and data paths are exact helpers",
  "Bounding boxes are the minimum and maximum of exactly the points they were given (also after transforming, scaling, copying and clearing), with exact answers which points are inside and which planes pass through. Approximated spheres are closed, consistently oriented, nearly uniform meshes of the requested size with correct vertex-face maps and nearest vertices, also when a result object is used again. Colour maps interpolate linearly between exactly their keys and cover all of 0..1. Units have the kind and conversion factors of their names. The runtime environment finds a data file in the working directory, then in the data paths in the order they were added, as an absolute path, and splits command lines exactly into data paths, values of declared keys and unrecognised arguments.",
  ["inputs", "histories"], "operation histories of boxes, points and planes, polyhedra and levels, key colors, unit names, directory trees and command lines",
  "The tests check a few boxes and no sphere meshes, colour maps, unit conversions or command lines.",
  ["VirtualRobot/BoundingBox.cpp", "VirtualRobot/SphereApproximator.cpp", "VirtualRobot/Visualization/ColorMap.cpp", "VirtualRobot/Units.h", "VirtualRobot/RuntimeEnvironment.cpp"],
  [("boxes", "BoundingBox::addPoint, transform, scale, isInside, planeGoesThrough"), ("spheres", "SphereApproximator::generateGraph, buildVertexFaceMapping, findVertex, check_intersect_tri"), ("environment", "RuntimeEnvironment::addDataPath, getDataFileAbsolute, processCommandLine, checkValidFileParameter")],
  "Sphere levels up to 3. Malformed vectors other than wrong brackets or counts and keys without value are not claimed.",
  "model-based property testing against sets of points, mesh invariants and directory trees built for each case")
P("P27", "Convex hulls, friction cones and wrench-space grasp quality match geometry",
  "The convex hull of points is closed, its vertices are input points, all points lie inside of all facets, every extreme point is covered, and normals, offsets, centre, volume and distances are those of its facets, in three and in six dimensions, independent of the order of points, of inner points and of other threads calculating hulls; its mesh is the same surface with normals outward. Friction cones have the requested opening angle, sample count and unit forces along the contact normal. The grasp wrench space contains exactly the wrenches of the contacts relative to the object's centre; a grasp is force closed if the origin is inside of it, and quality and volume are those of the wrench spaces, independent of the order of questions and of contacts set before. Refining a surface keeps it and makes every triangle smaller than requested.",
  ["inputs", "histories", "schedules"], "point sets of several shapes, contact normals and friction coefficients, sequences of contact sets on objects at arbitrary poses, meshes and refinement lengths",
  "The tests calculate two hulls and the quality of one grasp.",
  ["GraspPlanning/ConvexHullGenerator.cpp", "GraspPlanning/ContactConeGenerator.cpp", "GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpace.cpp", "GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpaceNotNormalized.cpp", "GraspPlanning/MeshConverter.cpp"],
  [("hull", "ConvexHullGenerator::CreateConvexHull (3D, 6D), locking of qhull"), ("cones", "ContactConeGenerator::computeConePoints"), ("quality", "GraspQualityMeasureWrenchSpace::setContactPoints, calculateGWS, isOriginInGWSHull, calculateGraspQuality")],
  "Flat point sets and wrench spaces below 2% thickness are only judged partly (known finding KF02). Phase of the cone samples is not specified.",
  "property-based testing against hull certificates, support functions, Frank-Wolfe separation and recomputed wrenches")
P("P28", "Approach poses, planned grasps and pose-uncertainty evaluations are valid",
  "An approach pose places the hand (or the TCP of its preshape) above a point of the object's surface, looking against the surface normal there, collision free and, without random retreat, as close as one step; faces are chosen uniformly or by area as requested, and neither the object nor the original robot is changed. Every planned grasp has at least two contacts with the object, the required quality and force closure, no collision with obstacles, and its pose and configuration reproduce the hand; hypotheses that satisfy this are not rejected, the time limit is respected (zero means none), grasps are added to the set and the evaluation counts every hypothesis once. Uncertain object poses form exactly the configured grid, or stay within the configured deviations from the grasp centre; their evaluation reports initial collisions, qualities, rates and means exactly and restores robot and object.",
  ["inputs", "histories"], "hands with fingers and grippers, preshapes, objects and obstacles at arbitrary poses, approach generators, quality measures, uncertainty configurations and sequences of planning calls",
  "No test covers grasp planning.",
  ["GraspPlanning/ApproachMovementGenerator.cpp", "GraspPlanning/ApproachMovementSurfaceNormal.cpp", "GraspPlanning/GraspPlanner/GenericGraspPlanner.cpp", "GraspPlanning/GraspQuality/GraspEvaluationPoseUncertainty.cpp"],
  [("approach", "ApproachMovementSurfaceNormal::createNewApproachPose, getPositionOnObject, moveEEFAway"), ("planner", "GenericGraspPlanner::planGrasp, plan"), ("uncertainty", "GraspEvaluationPoseUncertainty::generatePoses, evaluatePose(s), evaluateGrasp")],
  "Preshapes are complete (other joints keep their values by design). Poses within 3 degrees of gimbal lock are not claimed.",
  "property-based testing with scripted approach generators and quality measures as oracle, geometric checks of poses and an independent simulation of each evaluation")
P("P29", "Simulated objects have the shape, pose, motion and contacts of their models",
  "The body of a simulated object has exactly the extent of the collision model (primitives, compounds, hulls of meshes), its mass and inertia, with the frame at the centre of mass. Poses set on the object or the body are found in the other one, for static, kinematic and dynamic objects with any centre of mass, also after changing the simulation type. Free objects follow Newton's laws: parabolas under gravity, constant linear and angular momentum. Objects come to rest on the floor, which lies exactly where it was requested, with the friction they were given. Collisions happen between exactly the pairs that are not disabled, and the contact reports name the right objects, points and directions. Conversions between millimetres and simulation units are inverse to each other. Objects are in the world once, however often they are added, and gone when removed.",
  ["inputs", "histories"], "objects of primitives and meshes with offset centres of mass, poses, velocities, floors, collision filters, sequences of adding, removing and stepping",
  "No test covers the dynamics simulation.",
  ["SimDynamics/DynamicsEngine/BulletEngine/BulletObject.cpp", "SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp", "SimDynamics/DynamicsEngine/BulletEngine/SimoxMotionState.cpp", "SimDynamics/DynamicsEngine/DynamicsEngine.cpp", "SimDynamics/DynamicsEngine/BulletEngine/SimoxCollisionDispatcher.cpp"],
  [("bodies", "BulletObject::buildBulletObject, createShapeFromPrimitive, createConvexHullShape, setPoseIntern, SimoxMotionState"), ("world", "BulletEngine::addObject, removeObject, createFloorPlane, updateConfig, stepSimulation, getContacts"), ("filters", "DynamicsEngine::disableCollision, enableCollision, checkCollisionEnabled")],
  "Motion is judged within the error of the integrator. Flat meshes (empty hulls), poses set on static objects, and the units of forces are not claimed.",
  "property-based testing: support functions of shapes, closed-form motion, histories against a model of the engine")
P("P30", "Simulated robots move according to their kinematics and commands",
  "A simulated robot has one body for each node with a collision model and one constraint for each joint between bodies, with the pivot, axis and limits of the joint. While it is simulated, the poses of its nodes stay those of forward kinematics for the joint values it reports, joints stay within their limits, and a static root stays put. Position targets are reached, velocity targets lead to the corresponding way, torques accelerate in their direction, at most with the maximal torque, no matter into how many substeps a step is divided; target speeds respect maximal velocities and accelerations. Targets and modes are those of the last command of each joint, and joints without bodies are ignored. Joint speeds, centres of mass, momenta and their velocities are those of the simulated bodies in the stated units. A robot can be placed anywhere in the world, objects attached to nodes follow them until they are detached, and robots are in the world once, with everything that belongs to them, until they are removed.",
  ["inputs", "histories"], "kinematic trees of up to 7 nodes with offsets and limits, motor parameters, command sequences, gravity, steps and substeps, attached objects and sequences of adding and removing",
  "No test covers the dynamics simulation.",
  ["SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.cpp", "SimDynamics/DynamicsEngine/DynamicsRobot.cpp", "SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.cpp", "SimDynamics/DynamicsEngine/DynamicsEngine.cpp", "SimDynamics/DynamicsWorld.cpp", "SimDynamics/DynamicsEngine/DynamicsUtils.cpp", "SimDynamics/DynamicsEngine/BulletEngine/SimoxMotionState.cpp"],
  [("bodies", "BulletRobot::buildBulletModels, createLink, createHingeJoint, createTranslationalJoint, createFixedJoint"), ("actuation", "BulletRobot::actuateJoints, actuateNode, actuateNodeVel, DynamicsRobot::actuateNodeTorque, VelocityMotorController, PIDController"), ("state", "BulletRobot::getJointAngle, getJointSpeed, getComGlobal, getLinearMomentumGlobal, getAngularMomentumGlobal, setPoseNonActuatedRobotNodes"), ("world", "BulletRobot::attachObjectLink, detachObject, BulletEngine::addRobot, removeRobot")],
  "Motion is judged within the error of the iterative solver. Robots with joint values other than zero at creation, several bodies behind one body-less joint, joints in a row without body between them, mixed torque modes and the scale of torques are not claimed.",
  "property-based testing: forward kinematics, analytic momenta and a reference model of the controllers and targets against generated command histories")
P("P31", "Voxel trees are sparse arrays over the voxels of their space",
  "A voxel tree of any dimension divides its space into equal voxels that are about as small as the requested discretization, and holds one entry for each voxel that was set: positions in the same voxel share the entry, other positions have none, the last value counts, and positions outside are neither set nor found. The iterator visits each entry exactly once with the centre and extent of its voxel; queries with the first coordinates of a position return all entries there and the maximal one; the number of nodes is that of the occupied subtrees. Trees written to a file or stream and loaded again are the same and can be changed and saved again; damaged files, other entry types and dimensions are rejected.",
  ["inputs", "histories"], "spaces of 1 to 6 dimensions with any extents and discretizations, entry types, sequences of setting, querying, saving and loading, truncated and changed files",
  "Tests set single values.",
  ["VirtualRobot/Workspace/VoxelTreeND.hpp", "VirtualRobot/Workspace/VoxelTreeNDElement.hpp", "VirtualRobot/Workspace/VoxelTree6D.hpp", "VirtualRobot/Workspace/VoxelTree6DElement.hpp"],
  [("entries", "VoxelTreeND::setEntry, getEntry, getLeafElement, getMaxEntry, getAllLeafs, ElementIterator, VoxelTree6D::setEntry, getEntry"), ("files", "VoxelTreeND::save, load, VoxelTreeNDElement::read, write, propagateData")],
  "Positions exactly on the borders of voxels and saving empty trees of one voxel are not claimed.",
  "property-based testing: operation histories against a map from voxel indices to values, round trips, damaged files")
P("P32", "Planners that search for a grasp return motions that end in one",
  "IK-RRT plans a valid motion from the start to a configuration in which the TCP is at the pose of one of the given grasps, and finds one if nothing is in the way. Grasp-RRT plans a valid motion to a configuration in which closing the hand gives at least the requested number of contacts with the object and a valid grasp of at least the requested quality; every reported grasp carries the node, score, contacts, distance and object pose that belong to it. A failed search returns nothing; cycles and timeouts are respected; the robot's visualization state and hand are restored; searches can be repeated, restarted and reset in any order. Poses to approach lie on the object with the hand turned towards it, and steps follow the Jacobian within their limits. The sphere of approach directions hands out each stored node exactly once, rarely used directions first.",
  ["inputs", "histories"], "arms with hands, objects, grasps, obstacles and forbidden regions, random seeds, sequences of starting, planning, moving the object and resetting, scripted quality measures, directions",
  "There are no tests of these planners.",
  ["MotionPlanning/Planner/GraspIkRrt.cpp", "MotionPlanning/Planner/GraspRrt.cpp", "MotionPlanning/ApproachDiscretization.cpp"],
  [("IK-RRT", "GraspIkRrt::plan, doPlanningCycle, searchNewGoal, addIKSolution"), ("Grasp-RRT", "GraspRrt::plan, moveTowardsGoal, createWorkSpaceSamplingStep, calculateGlobalGraspPose, calculateGraspScore"), ("directions", "ApproachDiscretization::getNearestFaceIdVec, addCSpaceNode, getGoodRatedNode")],
  "Moving the object without a reset, and completeness where obstacles are in the way, are not claimed.",
  "property-based testing: generated planning problems, every result re-judged with an independent robot (kinematics, collisions, closing of the hand); histories against a model")
P("P33", "A robot exported to MuJoCo's format (MJCF) is the same mechanism",
  "The MJCF document exported for a robot (MujocoIO, RobotIO::saveMJCF) describes, under MuJoCo's rules, the same mechanism whatever configuration and pose the robot has when it is exported: for all joint coordinates every joint axis, frame, mesh, mass, centre of mass and inertia matrix is where the robot's kinematics puts it, lengths are scaled by the given factor, and joints have the robot's types, limits and ranges. Massless nodes are merged with their only child, become sites, or get a small mass, so that every body has a mass; every node is named in exactly one body or site. Names are unique and all references (classes, meshes, joints, bodies) exist. There is one actuator of the chosen type per joint, position actuators have the joint's range. Contacts are excluded exactly between parent and child bodies and between bodies of nodes that ignore each other. STL meshes are copied to the mesh directory. The optional mocap body is welded to the robot, which gets a free joint. Exporting changes nothing in the robot and gives the same document again.",
  ["inputs", "configs"], "kinematic trees with revolute and prismatic joints, limits, offsets, partly with masses and inertia matrices, nodes to ignore, STL meshes; configurations and poses at export, length scales, actuator types, mocap body, joint coordinates",
  "There are no tests of the export.",
  ["VirtualRobot/XML/mjcf/MujocoIO.cpp", "VirtualRobot/XML/mjcf/MjcfDocument.cpp", "VirtualRobot/XML/mjcf/MasslessBodySanitizer.cpp", "VirtualRobot/XML/mjcf/utils.cpp"],
  [("export", "MujocoIO::saveMJCF, addActuators, addContactExcludes, scaleLengths"), ("bodies", "Document::addBodyElement, addJointElement, addInertialElement, setElementPose"), ("merging", "MasslessBodySanitizer::sanitizeRecursion, mergeBodies, sanitizeLeafBody")],
  "Conversion of meshes in other formats (meshlabserver), the scale of meshes, joint coupling, and frames of merged nodes other than the last one are not claimed.",
  "property-based testing: generated robots, the exported document is read by an independent implementation of MuJoCo's kinematics and compared with a reference model of the robot")
P("P34", "Visualizations show exactly the geometry they stand for, where it belongs",
  "What is drawn for a shape (box, sphere, cylinder, cone, torus, ellipse, plane, arrow, circle arrow, line, circle, polygon, plane grid) has the dimensions, position, orientation, colour and transparency that were requested, and triangles face outwards. Primitives are drawn one relative to the one before, their bounding box contains them. Scene files (Inventor, VRML, STL) give exactly the triangles of their scene, in millimetres, with all transformations, whatever the nesting; bounding boxes of files contain it; damaged and missing files give an error and nothing else. The mesh of a visualization is the surface that is drawn. Visualizations are where the pose, displacement, scale and attachment of their node put them, are hidden when asked to, and clones, united visualizations and reloaded exports are the same picture and independent of the original. The visualization of a robot shows the full, the collision or the inflated model at the poses of its nodes, also after moving, cloning, scaling and highlighting.",
  ["inputs", "histories"], "shapes of any size, colour and pose, lists of primitives, nested scenes of Inventor nodes written to files, STL files of both kinds, damaged files, histories of posing, displacing, scaling, attaching, cloning, uniting and hiding nodes, robots with visualization and collision models",
  "Tests load single files and look at the size of the result at most.",
  ["VirtualRobot/Visualization/CoinVisualization/CoinVisualizationFactory.cpp", "VirtualRobot/Visualization/CoinVisualization/CoinVisualizationNode.cpp", "VirtualRobot/Visualization/CoinVisualization/CoinVisualization.cpp", "VirtualRobot/Visualization/VisualizationNode.cpp", "VirtualRobot/Visualization/Visualization.cpp", "VirtualRobot/CollisionDetection/CollisionModel.cpp"],
  [("shapes", "CoinVisualizationFactory::createBox, createSphere, createCylinder, createCircle, createTorus, createArrow, createCircleArrow, createPlane, createPolygon, GetVisualizationFromPrimitive"), ("scenes", "CoinVisualizationFactory::getVisualizationFromCoin3DFile, getVisualizationFromSTLFile, convertSoFileChildren, getVisualizationFromString"), ("nodes", "CoinVisualizationNode::createTriMeshModel, setGlobalPose, attachVisualization, clone, VisualizationNode::applyDisplacement, createUnitedVisualization, CoinVisualization::getCoinVisualization")],
  "Text and coordinate systems, meshes and clones of nodes under scale() other than 1, the order of pose and scale for mesh visualizations, and poses of clones whose updates are off are not claimed. Bounding boxes of rotated parts are only checked for containment.",
  "property-based testing: the scene graph is drawn by a callback traversal and compared with analytic surfaces and reference models of scenes, nodes and robots; round trips through files")

P("P35", "Visualizations of data show exactly the data, at their places",
  "The visualization of a trajectory, a two-dimensional map or height map, workspace data (all positions, the best orientations of each position, or one fixed orientation), a cut through them or a workspace grid, a grasp or grasp set, an end effector, contacts and contact points, a convex hull, an oriented box, a support polygon, a constraint (task-space region, pose, position, balance) or a mesh with normals and outlines contains exactly one mark per datum, at its global position and orientation, with its size and in the colour that was requested or that the colour map assigns to its value. Data that are zero, below the requested value, or outside of the requested sector, height or orientation aren't shown; nothing else is drawn, and creating a visualization changes neither the robot nor the data.",
  ["inputs"], "all trajectories, maps, workspaces and grids with any entries and frames, hands and grasps, contacts, hulls, constraints and meshes with and without colours and materials",
  "No test looks at what a visualization contains; a wrong frame, unit, index or colour shows only for rotated frames, uneven grids and unusual data.",
  ["VirtualRobot/Visualization/CoinVisualization/CoinVisualizationFactory.cpp", "VirtualRobot/Visualization/ColorMap.cpp", "VirtualRobot/EndEffector/EndEffector.cpp", "VirtualRobot/Trajectory.cpp"],
  [("workspaces", "CoinVisualizationFactory::getCoinVisualization(WorkspaceRepresentationPtr ...), (WorkspaceGridPtr ...), (WorkspaceCut2DPtr ...)"), ("maps", "CoinVisualizationFactory::Create2DMap, Create2DHeightMap"), ("grasps", "CoinVisualizationFactory::CreateGraspVisualization, CreateGraspSetVisualization, CreateEndEffectorVisualization"), ("others", "CoinVisualizationFactory::getCoinVisualization(TrajectoryPtr ...), (TSRConstraintPtr ...), (SupportPolygonPtr ...), (TriMeshModelPtr, bool ...), CreateConvexHull2DVisualization, CreateOOBBVisualization, CreatePointsVisualization")],
  "Cuts are checked for the vertical normal (for others the shape of the cells is undocumented); contact cones for approach directions that point towards the object.",
  "property-based testing: the scene graph is drawn by a callback traversal and compared with a reference model of the marks that the generated data need")
