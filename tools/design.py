#!/usr/bin/env python3
"""Writes DESIGN.md from the list of properties and the notes below. Run after props.py."""
import json, os, re, glob, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
man = {c["property"]: c for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"]}

INTRO = """# Design

Simox consists of four libraries: VirtualRobot (robot model, kinematics, collision, IK, workspace data, files, math),
MotionPlanning ("Saba": configuration spaces, planners, post-processing), GraspPlanning ("GraspStudio": grasp quality and
planning) and SimDynamics (Bullet). Its tests check a few examples of some functions. The properties in `properties.jsonl`
are the guarantees users rely on across all of these parts; each is decided by **property-based testing**: generated inputs,
operation histories, files or schedules, run against the real libraries, compared with an explicit oracle, and shrunk on
failure to a replay file. No other technique decides anything here; nothing is listed as not applicable so far, because what
is not observable through the public interface was not made a property (see "Not claimed").

## How a check works

* `tools/run.py Pxx quick|thorough` builds the libraries the check needs from /repo's current working tree (`tools/build.py`;
  objects are reused only if the content hashes of all files they depend on are unchanged; a cold build takes about 2.5
  minutes on 8 cores, `setup_cmd` does it once), compiles `harness/checks/Pxx_*.cpp` against the public headers, runs it and
  writes `evidence/Pxx.json`.
* The engine (`harness/engine/pbt.*`) draws every decision of a generator from a recorded sequence of integers. A case is a pure
  function of (seed, property, aspect, index); the cases are distributed over forked workers, so that a crash, a failed
  library assertion (`-D_GLIBCXX_ASSERTIONS`), an abort or a hang (CPU limit per case) of the library is a failure of that case,
  not of the run. A failing case is run again in a fresh process (unconfirmed failures are only counted), then shrunk by
  deleting and lowering decisions, separately for every failure key; the shortest sequence is the replay file
  (`build/replay/Pxx-aspect-seed-index.json`, `tools/run.py Pxx --replay FILE`).
* Evidence reports evaluated, discarded and distinct non-trivial cases (by the rule each suite states; hashes of descriptions
  decide distinctness), labels of reached situations and samples per aspect.
* Expected failures (`known:` in known-findings.txt) are recognised by an explicit condition in the check; anything else fails.
* The libraries are compiled with g++ -O1, NDEBUG and checked standard containers (clang cannot compile this code base; with
  sanitizers the build takes several times longer and PQP and Coin raise alarms that are no violations of a property, so
  memory errors are seen only if they crash, assert or change a result).

Oracles are written in double (sometimes long double) precision from the documentation and the mathematics, never by calling
the function under test a second time, except for differential and metamorphic relations that are stated as such. Tolerances
follow from single-precision rounding times the size of the values; where a result is not determined by the inputs within
rounding (touching surfaces, gimbal lock, ties), the case is discarded or only the weaker claim is made, as listed below.
Only the public interface is used, so that refactoring does not matter.

`tools/mutate.py` (a development aid) applies random small changes to the files a property is anchored at and lists those
its quick check does not notice; checks were strengthened where a survivor changed behaviour that the property claims.
`tools/seeds.d/` holds the planted bugs, `tools/seeds.py` writes them to `seeded/`, `tools/seedtest.sh` confirms them.

"""
H = {
"P01": "history: robot XML or factory-built trees, 16 kinds of setters, poses of all nodes after each step against a double-precision product of transformations. models: visualization and collision models (vertices in global coordinates) after motion. dh: chains given by Denavit-Hartenberg parameters against the DH formula and against the same chain given by matrices.",
"P02": "limits: requested values far outside, unbounded and limitless joints, every setter, `enforceJointLimits`; joint value, limits and clamped value against the model. propagation: forests of propagated joints, value times factor within own limits; multi-setters do not propagate by design. False alarm corrected: intervals of limitless joints that are not exactly one turn are replaced on loading.",
"P03": "frames: all to/from conversions of robots, nodes and objects against matrix algebra. linked: LinkedCoordinate histories. attach: attach/detach/move histories of objects at nodes (a child takes its parent's pose at the next update), cycles are refused.",
"P04": "clone: attribute-by-attribute comparison with the specification, then both robots are moved differently. coupling: clones of coupled joints. subset/inverse/attach: restructured copies must put every node where the original has it. Scaled clones claimed for revolute joints, reversed chains for unbranched ones.",
"P05": "notation: one specification written in many notations must give the specified robot. childFromRobot: robots from several files. invalid: a catalogue of semantic errors must be refused by an exception. damaged: token and byte edits must give a well-formed robot or an exception (never crash or hang). False alarms corrected: unknown unit names are ignored by design; rapidxml accepts closing tags it does not compare.",
"P06": "text/file: toXML / saveXML after motion, also of clones; re-read robot compared with the specification (six digits are written, which sets the tolerance).",
"P07": "edit: Trajectory histories against a vector of points. interpolate: position, segment index and lengths. workspace: forward kinematics of the mapped points. config: RobotConfig histories against maps.",
"P08": "path: geometry of blended paths, switching points. constraints: sampled velocity/acceleration along the time-optimal trajectory (an excess must persist with a smaller time step). straight: optimum in closed form. queries: any order of times, copies. False alarms corrected: acceleration excess from the integration step.",
"P09": "tcp/tasks/inverse/com/gradient/steps/quality: Jacobians against derivatives of the reference kinematics (all frames, modes and TCPs), errors against pose differences, pseudo inverses by the Penrose equations, gradients of constraints by differences, steps of differential/hierarchical/CoM/constrained IK against their defining equations, manipulability against singular values.",
"P10": "One aspect per solver: success implies all goals within tolerance, limits, collision check; failure restores what is promised. convergence: demanded only where a double-precision reference descent converges monotonically.",
"P11": "masses/inertia/automatic: weighted sums, parallel axes, box inertia. gravity: derivative of the potential energy. support: contact polygons against exact hulls. balance: projected CoM and stability.",
"P12": "pairs/points/primitives/models/robots/contacts: PQP results against brute force over all triangle pairs; a verdict is demanded only if the true distance is clearly positive or the penetration clearly not zero.",
"P13": "manager/sets/nodesets: histories against a list of pairs and brute force.",
"P14": "history/mapping/cuts/reachability/manipulability/truncated/grid/merge/inverse: arrays over voxels, files, damaged files, reachability of grasps, inverse reachability against the model of voxels.",
"P15": "bzip2/damaged: exchange with libbz2 in both directions, any chunking, any stream position; damage. rle: sizes and bounds with guard bytes. binary/points: file round trips.",
"P16": "About 2.6 million rotations per run, a third of them at singularities; all conversion functions against Eigen in double precision.",
"P17": "planes/lines/boxes/hull/triangles/bases: closed forms; hulls decided exactly on integer grids.",
"P18": "scalars/poses/orthogonal/orientations/curves/surfaces/data: formulas of math/*.",
"P19": "kernels/gaussian/objects/planes/cubes/noise: long-double Gaussian process regression; marching cubes meshes are closed, oriented and on the surface.",
"P20": "basics/merge/missing/fatten/orient/boxes/stl: recomputed geometry; an own writer of ASCII and binary STL, damaged files.",
"P21": "grasps/graspSets/objects/scenes/registry/damaged/invalid/stl: histories and documents against plain models, saving and loading.",
"P22": "closing/moving: every joint's next step is replayed with the collision checker. structure: files, preshapes, extraction of hands.",
"P23": "metric/collisions/paths/along/trees: metric model; constraint objects record which configurations were asked for, which decides the sampling density.",
"P24": "histories/freeSpace/threads: solutions and trees re-validated with a model of the world every quarter of the sampling size; stopped and concurrent planning.",
"P25": "shortcuts/threads/elastic: exact postconditions of optimisation, recorded validity, reference of the elastic band step.",
"P26": "boxes/spheres/colors/units/environment: see the statement; directory trees are created in a scratch directory per case.",
"P27": "hull3/hull6: hull certificates (facets outside of all points, closedness, support in random directions). threads: hulls calculated in parallel. cones, quality: wrenches recomputed from the cone points, separation by Frank-Wolfe; sequences of contact sets. refine: surface refinement. False alarms corrected: duplicates of joggled hulls, rounding of normals from contact infos, quality for flat object wrench spaces.",
"P28": "approach: geometry of approach poses with the library's collision checker (judged by P12). faces: frequencies (9 sigma). planner: scripted generators and quality measures, every hypothesis re-judged. poses/evaluate: grids and an independent simulation. False alarms corrected: opening moves in steps, so its end depends on its start; normals stored in the mesh may be smoothed.",
"P29": "conversions/shapes/poses: exact, support of the Bullet shape against the model. motion: parabola, momentum. ground/filtered: resting poses and pass-through. collisions/registry: histories against sets of pairs and lists. False alarms corrected: Bullet cylinders have rounded edges; kinematic bodies that become dynamic keep the speed they were moved with.",
"P30": "controllers: reference PID and ramp. links: pivots, axes and limits of the Bullet constraints. actuation: command histories against a map of targets. motion: FK of reported joint values per step, limits, reached targets. torque: direction, limit, independence of substeps. quantities: sums over the bodies. placing/attached/registry: histories. False alarms corrected: solver errors after fast movements (tolerance follows the recent movement), Bullet gets stiff with several joints, slider velocities belong to the axis before the step, limitless joints opposite to their target oscillate (both directions are the shortest).",
"P31": "trees (N = 1, 2, 3, 4, 6 and four entry types) and sixD against a map from voxel indices to values; files: truncation and bit flips of the header.",
"P32": "sphere: histories against a map from faces to nodes. approach: distance of the pose from the mesh, turn angle, least squares step with a numerical Jacobian. ikRrt/graspRrt: histories; results judged on a clone of the robot, hand closed again there. False alarms corrected: intermediate nodes of paths may lie in stretches shorter than the sampling, nodes of former trees stay allocated.",
"P33": "the exported XML is parsed with boost::property_tree; bodies with several joints are moved as in mj_kinematics (joints in order, each about its anchor); world poses of joints, sites, last merged frames, inertials and meshes are compared with RobotSpec::fk at zero and two random configurations. Merged bodies are recognized by their documented names (a~b); nodes may be merged, sites or bodies with dummy mass, whichever the exporter chooses.",
"P34": "the drawn triangles and lines are collected with an SoCallbackAction over the Coin scene graph (metres to millimetres) and compared, as multisets within the rounding of floats, with reference models: surface distance functions and areas for shapes, an independent interpreter of generated scenes (transforms, separators, switches, groups, shapes, DEF/USE) for files, a model of nodes (pose, scale, attachments, visibility, update flag) for histories, fk of the specification for robots. The triangles of one primitive are told apart by the number it has alone (sharing them out by area was a false alarm when a face of a box lies on the cap of a cylinder).",
"P35": "the data are generated with a model of them (entries, poses, colours, waypoints by the reference kinematics); the drawn triangles and lines are collected as in P34 and every one has to belong to an expected mark (ball, box, patch, arrow, cone, face, line) while the marks' areas have to be drawn completely in the expected colour (and transparency, where the map has one). Orientations of workspace voxels come from a double-precision model of the Hopf coordinates; values near a voxel border, sector limit or height limit are discarded. Found and repaired: the fixed-orientation view looked up wrong voxels for orientations outside of the workspace, meshes with some uncoloured faces read beyond the colours, and the box of a task-space region ignored the rotation of its frame.",
}
H.update(json.load(open(os.path.join(V, "tools", "design_extra.json"))) if os.path.exists(os.path.join(V, "tools", "design_extra.json")) else {})

out = [INTRO, "## Properties\n"]
for p in props:
    i = p["id"]
    src = glob.glob(os.path.join(V, "harness/checks", i + "_*.cpp"))[0]
    asp = re.findall(r'add\("(\w+)", (\d+), (\d+)', open(src).read())
    ev = os.path.join(V, "tools", "cost.json")
    cost = json.load(open(ev)).get(i) if os.path.exists(ev) else None
    out.append("### %s %s\n" % (i, p["title"]))
    out.append("*Specified:* %s\n" % p["statement"])
    out.append("*Generated:* %s.\n" % p["quantifier"]["text"])
    out.append("*Technique, oracle:* %s. %s\n" % (man[i]["technique"], H.get(i, "")))
    out.append("*Bounds:* %s\n" % man[i]["level_note"])
    out.append("*Cases (quick / thorough):* " + ", ".join("%s %s / %s" % a for a in asp) + (". About %d s quick." % cost if cost else ".") + "\n")
    out.append("*Why tests cannot settle it:* %s\n" % p["why_tests_cant"])
out.append(open(os.path.join(V, "tools", "design_tail.md")).read())
out.append("## Planted bugs\n\n| id | property | what it breaks | needs | caught by (quick) |\n|---|---|---|---|---|")
caught = json.load(open(os.path.join(V, "tools", "caught.json")))
for m in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    j = json.load(open(m))
    i = os.path.basename(os.path.dirname(m))
    out.append("| %s | %s | %s | %s | %s |" % (i, j["property"], j["what_it_breaks"], j["needs"], caught.get(i, "not run yet")))
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))
