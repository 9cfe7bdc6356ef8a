// libs: VirtualRobot
// P21: grasps, manipulation objects, obstacles and scenes: semantics, reading, and saving + loading again
#include "common/docgen.h"
#include <VirtualRobot/Grasping/Grasp.h>
#include <VirtualRobot/Grasping/GraspSet.h>
#include <VirtualRobot/ManipulationObject.h>
#include <VirtualRobot/Obstacle.h>
#include <VirtualRobot/Scene.h>
#include <VirtualRobot/SceneObjectSet.h>
#include <VirtualRobot/Trajectory.h>
#include <VirtualRobot/XML/ObjectIO.h>
#include <VirtualRobot/XML/SceneIO.h>
#include <VirtualRobot/CollisionDetection/CollisionModel.h>
#include <VirtualRobot/CollisionDetection/CollisionChecker.h>
#include <VirtualRobot/Import/MeshImport/STLReader.h>
#include <boost/filesystem.hpp>
#include <set>
using namespace VirtualRobot;
using namespace gen;

namespace
{
    void put(const std::string& f, const std::string& x) { std::ofstream o(f); o << x; }
    std::string get(const std::string& f) { std::ifstream i(f); std::stringstream b; b << i.rdbuf(); return b.str(); }
    // relative comparison for values written with six digits
    bool six(double got, double want, double abs = 2e-5) { return std::fabs(got - want) <= abs + 1e-5 * std::fabs(want); }
    double tolPos(const M4& m) { return 2e-3 + 3e-5 * trans(m).norm(); }

    // ---------------------------------------------------------------- grasps
    struct GraspM
    {
        std::string name, creation, preshape;
        double quality = 0;
        M4 pose = M4::Identity();
        std::map<std::string, double> config;
    };
    struct SetM
    {
        std::string name, type, eef;
        std::vector<GraspM> g;
    };
    GraspM graspM(Src& s, int i)
    {
        GraspM g;
        static const char* cr[] = {"", "manual", "auto", "simox"};
        g.name = "Grasp " + std::to_string(i);
        g.creation = cr[s.draw(4)];
        g.preshape = s.chance(0.5) ? "" : "pre" + std::to_string(s.draw(3));
        g.quality = fl(s.real(0, 1));
        g.pose = fl4(pose(s, 500));
        int k = s.chance(0.5) ? 0 : 1 + (int)s.draw(3);
        for (int j = 0; j < k; j++) g.config["n" + std::to_string(s.draw(6))] = fl(s.real(-3, 3));
        return g;
    }
    GraspPtr build(const GraspM& m, const std::string& type, const std::string& eef)
    {
        GraspPtr g(new Grasp(m.name, type, eef, f4(m.pose), m.creation, (float)m.quality, m.preshape));
        std::map<std::string, float> c;
        for (auto& p : m.config) c[p.first] = (float)p.second;
        g->setConfiguration(c);
        return g;
    }
    void sameGrasp(pbt::Ctx& c, const GraspPtr& g, const GraspM& m, const std::string& type, const std::string& eef, double tp, double tr, const std::string& what)
    {
        c.check(!!g, "graspNull", what);
        c.check(g->getName() == m.name, "graspName", what + ": name " + g->getName() + " expected " + m.name);
        c.check(g->getCreationMethod() == m.creation, "graspCreation", what + ": creation method '" + g->getCreationMethod() + "' expected '" + m.creation + "'");
        c.check(g->getPreshapeName() == m.preshape, "graspPreshape", what + ": preshape '" + g->getPreshapeName() + "' expected '" + m.preshape + "'");
        c.check(six(g->getQuality(), m.quality), "graspQuality", what + ": quality " + num(g->getQuality()) + " expected " + num(m.quality));
        c.check(g->getRobotType() == type && g->getEefName() == eef, "graspEef", what + ": robot type or end effector");
        samePose(c, g->getTransformation(), m.pose, tp, tr, "graspPose", what + ": pose");
        auto q = g->getConfiguration();
        c.check(q.size() == m.config.size(), "graspConfigSize", what + ": size of the configuration");
        for (auto& p : m.config) c.check(q.count(p.first) && six(q[p.first], p.second), "graspConfig", what + ": configuration of " + p.first);
    }
    void sameSet(pbt::Ctx& c, const GraspSetPtr& g, const SetM& m, double tp, double tr, const std::string& what)
    {
        c.check(!!g, "setNull", what);
        c.check(g->getName() == m.name && g->getRobotType() == m.type && g->getEndEffector() == m.eef, "setNames", what + ": name, type or end effector of the grasp set");
        c.check(g->getSize() == m.g.size() && g->getGrasps().size() == m.g.size(), "setSize", what + ": " + std::to_string(g->getSize()) + " grasps, expected " + std::to_string(m.g.size()));
        for (size_t i = 0; i < m.g.size(); i++) sameGrasp(c, g->getGrasp((unsigned)i), m.g[i], m.type, m.eef, tp, tr, what + " grasp " + std::to_string(i));
    }
    SetM setM(Src& s, int i)
    {
        SetM m;
        m.name = "Set" + std::to_string(i);
        m.type = s.chance(0.5) ? "Armar" : "robotype";
        m.eef = s.chance(0.5) ? "Hand L" : "Hand R";
        int k = (int)s.draw(4);
        for (int j = 0; j < k; j++) m.g.push_back(graspM(s, j));
        return m;
    }

    void grasps(Src& s, pbt::Ctx& c)
    {
        // a robot with a hand: the grasp relates the pose of the tool centre point and the pose of the object
        RobotOpts o;
        o.maxNodes = 5;
        RobotSpec sp = robotSpec(s, o);
        std::string tcp = sp.n[s.draw(sp.n.size())].name;
        RobotPtr r = RobotIO::createRobotFromString(robotXML(sp, "<Endeffector name='hand' base='n0' tcp='" + tcp + "'><Actor name='f'><Node name='" + sp.n.back().name + "'/></Actor></Endeffector>"), "");
        std::map<std::string, float> jv;
        for (int j : sp.joints()) jv[sp.n[j].name] = (float)randomQ(s, sp.n[j]);
        r->setGlobalPose(f4(fl4(pose(s, 1000))));
        r->setJointValues(jv);
        GraspM m = graspM(s, 0);
        GraspPtr g = build(m, sp.type, "hand");
        sameGrasp(c, g, m, sp.type, "hand", 1e-6, 1e-6, "constructed grasp");
        M4 T = d4(r->getRobotNode(tcp)->getGlobalPose()), O = fl4(pose(s, 1500));
        double tp = 2e-2 + (trans(T).norm() + trans(O).norm() + 500) * 2e-5;
        c.describe("tcp " + str(T) + " object " + str(O) + " grasp " + str(m.pose));
        samePose(c, g->getTargetPoseGlobal(r), T * m.pose, tp, 1e-4, "target", "object pose for the current pose of the hand");
        samePose(c, g->getObjectTargetPoseGlobal(f4(T)), T * m.pose, tp, 1e-4, "objectTarget", "object pose for a given pose of the hand");
        samePose(c, g->getTcpPoseGlobal(f4(O)), O * inv(m.pose), tp, 1e-4, "tcpPose", "pose of the hand for a given object pose");
        // inverse of each other
        samePose(c, g->getObjectTargetPoseGlobal(g->getTcpPoseGlobal(f4(O))), O, tp, 2e-4, "inverse", "object pose reached by the hand pose of the grasp");
        c.check(throws<VirtualRobotException>([&] { build(m, "another type", "hand")->getTargetPoseGlobal(r); }), "wrongType", "a grasp of another type of robot was accepted");
        GraspPtr k = g->clone();
        sameGrasp(c, k, m, sp.type, "hand", 1e-6, 1e-6, "cloned grasp");
        GraspM m2 = graspM(s, 1);
        k->setName(m2.name);
        k->setPreshape(m2.preshape);
        k->setQuality((float)m2.quality);
        k->setTransformation(f4(m2.pose));
        std::map<std::string, float> cf;
        for (auto& p : m2.config) cf[p.first] = (float)p.second;
        k->setConfiguration(cf);
        m2.creation = m.creation;
        sameGrasp(c, k, m2, sp.type, "hand", 1e-6, 1e-6, "changed clone");
        sameGrasp(c, g, m, sp.type, "hand", 1e-6, 1e-6, "original of the changed clone");
        c.nontrivial(trans(T).norm() > 1);
    }

    // grasp sets and the sets of an object against lists
    void graspSets(Src& s, pbt::Ctx& c)
    {
        std::ostringstream h;
        std::vector<GraspPtr> pool;
        std::vector<GraspM> pm;
        for (int i = 0; i < 5; i++) { pm.push_back(graspM(s, (int)s.draw(4))); pool.push_back(build(pm.back(), "robotype", i < 4 ? "hand" : "foot")); }
        struct M { GraspSetPtr g; std::vector<int> l; };
        std::vector<M> sets(2);
        for (int i = 0; i < 2; i++) sets[i].g.reset(new GraspSet("set" + std::to_string(i), "robotype", "hand"));
        // sets of other hands and robots, with the same names of robots and hands in other combinations
        static const char* const types[] = {"robotype", "robotype", "robotype", "another", "another"};
        static const char* const hands[] = {"hand", "hand", "foot", "hand", "foot"};
        for (int i = 2; i < 5; i++) { M q; q.g.reset(new GraspSet("set" + std::to_string(i), types[i], hands[i])); sets.push_back(q); }
        ManipulationObjectPtr obj(new ManipulationObject("obj"));
        std::vector<int> osets;
        auto firstOf = [&](const std::string& t, const std::string& e) { for (int q : osets) if (types[q] == t && hands[q] == e) return q; return -1; };
        int n = 3 + (int)s.draw(12), muts = 0;
        for (int i = 0; i < n; i++)
        {
            int a = (int)s.draw(2);
            M& x = sets[a];
            switch (s.draw(8))
            {
                case 0: case 1:
                {
                    int g = (int)s.draw(4);
                    if (std::count(x.l.begin(), x.l.end(), g)) break;
                    h << "add " << g << " to " << a << "; ";
                    x.g->addGrasp(pool[g]);
                    x.l.push_back(g);
                    muts++;
                    break;
                }
                case 2:
                {
                    int g = (int)s.draw(4);
                    h << "remove grasp " << g << " of " << a << "; ";
                    auto p = std::find(x.l.begin(), x.l.end(), g);
                    c.check(x.g->removeGrasp(pool[g]) == (p != x.l.end()), "removeRet", "result of removeGrasp; " + h.str());
                    if (p != x.l.end()) x.l.erase(p);
                    break;
                }
                case 3:
                {
                    unsigned k = (unsigned)s.draw(5);
                    h << "remove nr " << k << " of " << a << "; ";
                    c.check(x.g->removeGrasp(k) == (k < x.l.size()), "removeNrRet", "result of removeGrasp(index); " + h.str());
                    if (k < x.l.size()) x.l.erase(x.l.begin() + k);
                    break;
                }
                case 4:
                {
                    h << "include " << 1 - a << " in " << a << "; ";
                    bool viaObj = std::count(osets.begin(), osets.end(), a) && !std::count(osets.begin(), osets.end(), 1 - a) && s.chance(0.5);
                    if (viaObj) obj->includeGraspSet(sets[1 - a].g); else x.g->includeGraspSet(sets[1 - a].g);
                    for (int g : sets[1 - a].l) if (!std::count(x.l.begin(), x.l.end(), g)) x.l.push_back(g);
                    muts++;
                    break;
                }
                case 5:
                    if (s.chance(0.3)) { h << "clear " << a << "; "; if (s.chance(0.5)) x.g->clear(); else x.g->removeAllGrasps(); x.l.clear(); }
                    break;
                case 6:
                {
                    h << "preshape of " << a << "; ";
                    x.g->setPreshape("shape" + std::to_string(i));
                    for (int g : x.l) pm[g].preshape = "shape" + std::to_string(i);
                    break;
                }
                default:
                {
                    if (s.chance(0.4)) a = 2 + (int)s.draw(3);
                    h << "object gets set " << a << " (" << types[a] << " " << hands[a] << "); ";
                    bool have = std::count(osets.begin(), osets.end(), a);
                    bool t = throws<VirtualRobotException>([&] { obj->addGraspSet(sets[a].g); });
                    c.check(t == have, "addSet", "adding a grasp set twice; " + h.str());
                    if (!have) osets.push_back(a);
                }
            }
            for (int q = 0; q < 2; q++)
            {
                auto& y = sets[q];
                c.check(y.g->getSize() == y.l.size(), "size", "size of the set; " + h.str());
                for (size_t k = 0; k < y.l.size(); k++)
                {
                    c.check(y.g->getGrasp((unsigned)k) == pool[y.l[k]] && y.g->getGrasps()[k] == pool[y.l[k]], "order", "order of the grasps; " + h.str());
                }
                c.check(!y.g->getGrasp((unsigned)y.l.size()), "beyond", "a grasp behind the end; " + h.str());
                for (int g = 0; g < 4; g++)
                {
                    c.check(y.g->hasGrasp(pool[g]) == (std::count(y.l.begin(), y.l.end(), g) > 0), "has", "hasGrasp; " + h.str());
                    GraspPtr first;
                    for (int q : y.l) if (pm[q].name == pm[g].name) { first = pool[q]; break; }
                    c.check(y.g->getGrasp(pm[g].name) == first && y.g->hasGrasp(pm[g].name) == !!first, "byName", "grasp by name; " + h.str());
                }
                c.check(y.g->isCompatibleGrasp(pool[0]) && !y.g->isCompatibleGrasp(pool[4]), "compatible", "compatibility of grasps");
            }
            for (int q = 0; q < 5; q++)
            {
                bool have = std::count(osets.begin(), osets.end(), q);
                c.check(obj->hasGraspSet(sets[q].g) == have && obj->getGraspSet("set" + std::to_string(q)) == (have ? sets[q].g : GraspSetPtr()), "objSet", "grasp sets of the object; " + h.str());
            }
            c.check(obj->getAllGraspSets().size() == osets.size(), "objSets", "number of grasp sets of the object; " + h.str());
            for (const char* t : {"robotype", "another", "third"})
                for (const char* e : {"hand", "foot"})
                {
                    int f = firstOf(t, e);
                    c.check(obj->hasGraspSet(t, e) == (f >= 0) && obj->getGraspSet(t, e) == (f >= 0 ? sets[f].g : GraspSetPtr()), "objSetEef", std::string("grasp set of the end effector ") + t + "/" + e + "; " + h.str());
                }
        }
        for (int i = 0; i < 4; i++) sameGrasp(c, pool[i], pm[i], "robotype", "hand", 1e-6, 1e-6, "grasp after " + h.str());
        // clones are independent
        GraspSetPtr k = sets[0].g->clone();
        SetM m{"set0", "robotype", "hand", {}};
        for (int g : sets[0].l) m.g.push_back(pm[g]);
        sameSet(c, k, m, 1e-6, 1e-6, "clone; " + h.str());
        k->setPreshape("other");
        k->removeGrasp(0u);
        sameSet(c, sets[0].g, m, 1e-6, 1e-6, "original of the clone; " + h.str());
        ManipulationObjectPtr ko = obj->clone("copy");
        c.check(ko->getName() == "copy" && ko->getAllGraspSets().size() == osets.size(), "objClone", "clone of the object");
        for (size_t i = 0; i < osets.size(); i++)
        {
            SetM q{"set" + std::to_string(osets[i]), types[osets[i]], hands[osets[i]], {}};
            for (int g : sets[osets[i]].l) q.g.push_back(pm[g]);
            sameSet(c, ko->getAllGraspSets()[i], q, 1e-6, 1e-6, "grasp sets of the cloned object; " + h.str());
            c.check(ko->getAllGraspSets()[i] != sets[osets[i]].g, "objCloneShared", "the cloned object shares its grasp sets");
        }
        c.describe(h.str());
        c.nontrivial(muts >= 2);
    }

    // ---------------------------------------------------------------- objects
    struct ObjM
    {
        bool manip = false;
        std::string name;
        std::vector<Prim> vis, col;
        bool visAsCol = false, physics = false, com = false, inertia = false;
        double mass = 0, friction = -1;
        V3 comV = V3::Zero();
        M3 I = M3::Zero();
        int sim = 0;
        std::vector<std::string> ign;
        std::vector<SetM> sets;
        M4 pose = M4::Identity();
        bool poseGiven = false;
        std::string file; // linked
    };
    ObjM objM(Src& s, bool manip, const std::string& name, bool models)
    {
        ObjM o;
        o.manip = manip;
        o.name = name;
        auto prims = [&](std::vector<Prim>& v) { int k = 1 + (int)s.draw(2); for (int i = 0; i < k; i++) v.push_back(prim(s)); };
        if (models && s.chance(0.7)) { prims(o.vis); o.visAsCol = s.chance(0.3); }
        if (models && !o.visAsCol && s.chance(0.7)) prims(o.col);
        o.physics = s.chance(0.5);
        if (o.physics)
        {
            o.mass = fl(s.uniform(0.1, 20));
            o.com = s.chance(0.5);
            if (o.com) o.comV = vec(s, 80);
            o.inertia = s.chance(0.5);
            if (o.inertia) { M3 a = rot(s); o.I = a * V3(s.uniform(0.01, 2), s.uniform(0.01, 2), s.uniform(0.01, 2)).asDiagonal() * a.transpose(); }
            o.sim = (int)s.draw(4);
            if (s.chance(0.3)) o.friction = fl(s.uniform(0, 2));
            if (s.chance(0.3)) o.ign.push_back("other");
        }
        if (manip) { int k = (int)s.draw(3); for (int i = 0; i < k; i++) o.sets.push_back(setM(s, i)); }
        o.poseGiven = s.chance(0.7);
        if (o.poseGiven) o.pose = fl4(pose(s, 1500));
        return o;
    }
    std::string poseXML(W& w, M4& m, bool vary)
    {
        if (vary) return w.el("GlobalPose", "", w.transform(m, 600, 3));
        std::string b;
        for (int i = 0; i < 4; i++) { std::string a; for (int j = 0; j < 4; j++) a += w.at("c" + std::to_string(j + 1), m(i, j)); b += w.el("row" + std::to_string(i + 1), a); }
        return w.el("GlobalPose", "", w.el("Transform", "", w.el("Matrix4x4", w.at("units", std::string("mm")), b)));
    }
    std::string graspSetXML(W& w, SetM& m)
    {
        std::string b;
        Src& s = w.s;
        for (auto& g : m.g)
        {
            std::string a = w.at("name", g.name);
            if (g.quality != 0 || s.chance(0.5)) a += w.at("quality", g.quality);
            if (!g.creation.empty()) a += w.at("Creation", g.creation);
            if (!g.preshape.empty()) a += w.at("Preshape", g.preshape);
            std::vector<std::string> p;
            if (s.chance(0.9)) p.push_back(w.transform(g.pose, 400, 3)); else g.pose = M4::Identity();
            if (!g.config.empty())
            {
                std::string n;
                for (auto& q : g.config) { double f; std::string u = w.angUnit(f); n += w.el("Node", w.at("name", q.first) + w.at("value", q.second * f) + u); }
                p.push_back(w.el("Configuration", w.at("name", std::string("cfg")), n));
            }
            if (p.size() > 1 && s.chance(0.5)) std::swap(p[0], p[1]);
            std::string body;
            for (auto& x : p) body += x;
            b += w.el("Grasp", a, body);
        }
        return w.el("GraspSet", w.at("name", m.name) + w.at("RobotType", m.type) + w.at("EndEffector", m.eef), b);
    }
    std::string objXML(W& w, ObjM& o)
    {
        Src& s = w.s;
        std::vector<std::string> b;
        auto prims = [&](std::vector<Prim>& v) { std::string x; for (size_t i = 0; i < v.size(); i++) x += w.primitive(v[i], i + 1 == v.size()); return w.el("Primitives", "", x); };
        if (!o.vis.empty())
        {
            std::string body = prims(o.vis);
            if (o.visAsCol) body += w.el("UseAsCollisionModel", "");
            b.push_back(w.el("Visualization", "", body));
        }
        if (!o.col.empty()) b.push_back(w.el("CollisionModel", "", prims(o.col)));
        if (o.physics)
        {
            static const char* wu[] = {"kg", "g", "ton"};
            static const double wf[] = {1, 1000, 1e-3};
            int k = (int)s.draw(3);
            std::string p = w.el("Mass", w.at("value", o.mass * wf[k]) + w.at(w.unitAt("Weight"), std::string(wu[k])));
            double f;
            if (o.com) { std::string u = w.lenUnit(f); p += w.el("CoM", w.at("location", std::string("custom")) + w.at("x", o.comV(0) * f) + w.at("y", o.comV(1) * f) + w.at("z", o.comV(2) * f) + u); }
            if (o.inertia) { std::string rows; for (int a = 0; a < 3; a++) { std::string q; for (int e = 0; e < 3; e++) q += w.at("c" + std::to_string(e + 1), o.I(a, e)); rows += w.el("row" + std::to_string(a + 1), q); } p += w.el("InertiaMatrix", "", rows); }
            static const char* st[] = {"", "dynamic", "static", "kinematic"};
            if (o.sim) p += w.el("SimulationType", w.at("value", w.cs(st[o.sim])));
            for (auto& i : o.ign) p += w.el("IgnoreCollision", w.at("name", i));
            if (o.friction >= 0) p += w.el("Friction", w.at("value", o.friction));
            b.push_back(w.el("Physics", "", p));
        }
        if (o.poseGiven) b.push_back(poseXML(w, o.pose, true));
        for (size_t k = b.size(); k > 1; k--) std::swap(b[k - 1], b[s.draw(k)]);
        // the grasp sets stay in order
        size_t at = s.draw(b.size() + 1);
        std::string gs, body;
        for (auto& x : o.sets) gs += graspSetXML(w, x);
        for (size_t i = 0; i <= b.size(); i++) { if (i == at) body += gs; if (i < b.size()) body += b[i]; }
        // the name of the outermost tag is taken literally
        std::string tag = o.manip ? "ManipulationObject" : "Obstacle";
        return "<" + tag + w.at("name", o.name) + ">" + w.junk() + body + "</" + tag + ">\n";
    }
    void sameObj(pbt::Ctx& c, const SceneObjectPtr& so, const ObjM& o, const std::string& what)
    {
        c.check(!!so, "objNull", what);
        c.check(so->getName() == o.name, "objName", what + ": name '" + so->getName() + "' expected '" + o.name + "'");
        samePose(c, so->getGlobalPose(), o.pose, tolPos(o.pose) + 0.02, 2e-4, "objPose", what + ": pose");
        c.check(!!so->getVisualization() == !o.vis.empty(), "objVis", what + ": visualization");
        c.check(!!so->getCollisionModel() == (o.visAsCol || !o.col.empty()), "objCol", what + ": collision model");
        if (!o.vis.empty()) sameGeometry(c, so->getVisualization()->getTriMeshModel(), o.vis, what + " visualization");
        if (so->getCollisionModel())
        {
            sameGeometry(c, so->getCollisionModel()->getTriMeshModel(), o.visAsCol ? o.vis : o.col, what + " collision model");
            samePose(c, so->getCollisionModel()->getGlobalPose(), o.pose, tolPos(o.pose) + 0.02, 2e-4, "colPose", what + ": pose of the collision model");
        }
        c.check(six(so->getMass(), o.mass), "objMass", what + ": mass " + num(so->getMass()) + " expected " + num(o.mass));
        if (o.com) sameVec(c, d3(so->getCoMLocal()), o.comV, 2e-3 + 2e-5 * o.comV.norm(), "objCom", what + ": centre of mass");
        if (o.inertia) c.check((so->getInertiaMatrix().cast<double>() - o.I).cwiseAbs().maxCoeff() < 2e-5 + 1e-5 * o.I.norm(), "objInertia", what + ": inertia " + str(so->getInertiaMatrix()) + " expected " + str(o.I));
        static const SceneObject::Physics::SimulationType st[] = {SceneObject::Physics::eUnknown, SceneObject::Physics::eDynamic, SceneObject::Physics::eStatic, SceneObject::Physics::eKinematic};
        c.check(so->getSimulationType() == st[o.sim], "objSim", what + ": simulation type");
        if (o.friction >= 0) c.check(six(so->getFriction(), o.friction), "objFriction", what + ": friction " + num(so->getFriction()));
        else c.check(so->getFriction() < 0, "objFriction", what + ": friction without being given " + num(so->getFriction()));
        auto ign = so->getPhysics().ignoreCollisions;
        c.check(ign == o.ign, "objIgnore", what + ": ignored collisions");
        if (o.manip)
        {
            auto mo = boost::dynamic_pointer_cast<ManipulationObject>(so);
            c.check(!!mo && mo->getAllGraspSets().size() == o.sets.size(), "objSetsN", what + ": number of grasp sets");
            for (size_t i = 0; i < o.sets.size(); i++) sameSet(c, mo->getAllGraspSets()[i], o.sets[i], 0.05, 2e-4, what + " grasp set " + std::to_string(i));
        }
    }
    SceneObjectPtr readObj(Src& s, const std::string& x, bool manip, bool& fromFile)
    {
        fromFile = s.chance(0.4);
        if (!fromFile) return manip ? SceneObjectPtr(ObjectIO::createManipulationObjectFromString(x)) : SceneObjectPtr(ObjectIO::createObstacleFromString(x));
        std::string f = pbt::scratch() + "/obj.xml";
        put(f, x);
        return manip ? SceneObjectPtr(ObjectIO::loadManipulationObject(f)) : SceneObjectPtr(ObjectIO::loadObstacle(f));
    }
    void objects(Src& s, pbt::Ctx& c)
    {
        W w{s, true};
        ObjM o = objM(s, s.chance(0.6), "thing", s.chance(0.4));
        std::string x = objXML(w, o);
        c.describe(x);
        bool ff;
        SceneObjectPtr so = readObj(s, x, o.manip, ff);
        if (ff) c.label("file");
        sameObj(c, so, o, "read");
        // once more after writing
        auto mo = boost::dynamic_pointer_cast<ManipulationObject>(so);
        auto ob = boost::dynamic_pointer_cast<Obstacle>(so);
        if (s.chance(0.5))
        {
            o.pose = fl4(pose(s, 1500));
            so->setGlobalPose(f4(o.pose));
            if (mo && s.chance(0.5)) { SetM m = setM(s, 7); o.sets.push_back(m); GraspSetPtr g(new GraspSet(m.name, m.type, m.eef)); for (auto& q : m.g) g->addGrasp(build(q, m.type, m.eef)); mo->addGraspSet(g); }
        }
        SceneObjectPtr so2;
        std::string y;
        if (mo && s.chance(0.5))
        {
            std::string f = pbt::scratch() + "/saved.xml";
            c.check(ObjectIO::saveManipulationObject(mo, f), "save", "saving failed");
            y = get(f);
            so2 = ObjectIO::loadManipulationObject(f);
        }
        else
        {
            y = mo ? mo->toXML("", 0, false) : ob->toXML("", 0);
            so2 = readObj(s, y, o.manip, ff);
        }
        c.describe(x + "\nwritten: " + y);
        sameObj(c, so2, o, "read again");
        if (!o.vis.empty() || !o.col.empty()) c.label("models");
        if (!o.sets.empty()) c.label("grasp sets");
        c.nontrivial(!o.sets.empty() || o.physics || !o.vis.empty() || !o.col.empty() || o.poseGiven);
    }

    // ---------------------------------------------------------------- scenes
    struct RobM
    {
        RobotSpec sp;
        M4 pose = M4::Identity();
        std::vector<double> q;
        struct Cfg { std::string name, tcp; std::map<std::string, double> v; };
        std::vector<Cfg> cfg;
        struct Rns { std::string name, root, tcp; std::vector<std::string> nodes; };
        std::vector<Rns> rns;
    };
    struct TrajM { std::string name; int robot, rns; std::vector<std::vector<double>> pts; };
    struct SceneM
    {
        std::string name;
        std::vector<RobM> rob;
        std::vector<ObjM> man, obs;
        std::vector<std::pair<std::string, std::vector<std::string>>> sos;
        std::vector<TrajM> traj;
    };
    std::map<std::string, double> cfgVals(Src& s, const RobotSpec& sp)
    {
        std::map<std::string, double> r;
        for (int j : sp.joints()) if (s.chance(0.7)) r[sp.n[j].name] = randomQ(s, sp.n[j]);
        return r;
    }
    std::string sceneXML(Src& s, W& w, SceneM& m, const std::string& dir, bool models)
    {
        std::vector<std::string> early, late;
        m.name = "scene";
        int nr = (int)s.draw(3);
        for (int i = 0; i < nr; i++)
        {
            RobM r;
            RobotOpts o;
            o.maxNodes = 5;
            o.initValues = false;
            r.sp = robotSpec(s, o);
            r.sp.type = "type" + std::to_string(i);
            r.sp.name = "robot" + std::to_string(i);
            r.q.assign(r.sp.n.size(), 0);
            std::vector<std::string> b;
            std::string f = "r" + std::to_string(i) + ".xml", own;
            bool ownSet = s.chance(0.5);
            if (ownSet) own = "<RobotNodeSet name='own' kinematicRoot='n0' tcp='" + r.sp.n.back().name + "'><Node name='" + r.sp.n.back().name + "'/></RobotNodeSet>";
            if (ownSet) r.rns.push_back({"own", "n0", r.sp.n.back().name, {r.sp.n.back().name}});
            put(dir + "/" + f, robotXML(r.sp, own));
            b.push_back(std::string("<File") + (s.chance(0.3) ? w.at("path", std::string("relative")) : "") + ">" + f + "</File>");
            if (s.chance(0.7)) { r.pose = M4::Identity(); b.push_back(poseXML(w, r.pose, true)); }
            int nc = (int)s.draw(3);
            std::vector<std::string> cf;
            for (int k = 0; k < nc; k++)
            {
                RobM::Cfg g;
                g.name = "cfg" + std::to_string(k);
                g.v = cfgVals(s, r.sp);
                if (s.chance(0.4)) g.tcp = r.sp.n[s.draw(r.sp.n.size())].name;
                std::string n;
                for (auto& q : g.v)
                {
                    const Node* nd = nullptr;
                    for (auto& z : r.sp.n) if (z.name == q.first) nd = &z;
                    double ff = 1;
                    std::string u = nd->type == REV ? w.angUnit(ff) : w.lenUnit(ff, true);
                    n += w.el("Node", w.at("name", q.first) + w.at("value", q.second * ff) + u);
                }
                r.cfg.push_back(g);
                cf.push_back(w.el("Configuration", w.at("name", g.name) + (g.tcp.empty() ? "" : w.at("tcp", g.tcp)), n));
            }
            std::string all;
            for (auto& x : cf) all += x;
            if (!all.empty()) b.push_back(all);
            int ns = (int)s.draw(3);
            all = "";
            for (int k = 0; k < ns; k++)
            {
                RobM::Rns g;
                g.name = "set" + std::to_string(k);
                std::string n;
                for (auto& z : r.sp.n) if (s.chance(0.5)) { g.nodes.push_back(z.name); n += w.el("Node", w.at("name", z.name)); }
                if (g.nodes.empty()) continue;
                std::string at;
                g.root = r.sp.n[0].name;
                g.tcp = g.nodes.back();
                if (s.chance(0.5)) at += w.at("kinematicRoot", g.root);
                if (s.chance(0.5)) { g.tcp = r.sp.n[s.draw(r.sp.n.size())].name; at += w.at("tcp", g.tcp); }
                r.rns.push_back(g);
                all += w.el("RobotNodeSet", w.at("name", g.name) + at, n);
            }
            if (!all.empty()) b.push_back(all);
            std::string at = w.at("name", r.sp.name);
            if (nc && s.chance(0.6))
            {
                auto& g = r.cfg[s.draw(nc)];
                at += w.at("initConfig", g.name);
                for (size_t k = 0; k < r.sp.n.size(); k++) if (g.v.count(r.sp.n[k].name)) r.q[k] = g.v[r.sp.n[k].name];
            }
            else for (int j : r.sp.joints()) r.q[j] = std::min(std::max(0.0, r.sp.n[j].lo), r.sp.n[j].hi);
            for (int j : r.sp.joints()) if (!r.sp.n[j].limitless) r.q[j] = std::min(std::max(r.q[j], r.sp.n[j].lo), r.sp.n[j].hi);
            for (size_t k = b.size(); k > 1; k--) std::swap(b[k - 1], b[s.draw(k)]);
            std::string body;
            for (auto& x : b) body += x;
            early.push_back(w.el("Robot", at, body));
            m.rob.push_back(r);
        }
        int no = (int)s.draw(3), nm = (int)s.draw(3);
        std::string oo, om;
        for (int i = 0; i < no; i++)
        {
            ObjM o = objM(s, false, "obstacle" + std::to_string(i), models);
            std::string x = objXML(w, o);
            if (s.chance(0.3))
            {
                put(dir + "/o" + std::to_string(i) + ".xml", x);
                o.name = "renamed obstacle" + std::to_string(i);
                x = "<Obstacle name='" + o.name + "'><File>o" + std::to_string(i) + ".xml</File>";
                if (s.chance(0.5)) { M4 p; x += poseXML(w, p, true); o.pose = p; }
                x += "</Obstacle>";
            }
            m.obs.push_back(o);
            oo += x;
        }
        for (int i = 0; i < nm; i++)
        {
            ObjM o = objM(s, true, "object" + std::to_string(i), models);
            std::string x = objXML(w, o);
            if (s.chance(0.4))
            {
                o.file = "m" + std::to_string(i) + ".xml";
                put(dir + "/" + o.file, x);
                o.name = "renamed object" + std::to_string(i);
                x = "<ManipulationObject name='" + o.name + "'><File>" + o.file + "</File>";
                if (s.chance(0.5)) { M4 p; x += poseXML(w, p, true); o.pose = p; }
                x += "</ManipulationObject>";
            }
            m.man.push_back(o);
            om += x;
        }
        early.push_back(oo);
        early.push_back(om);
        for (int i = (int)s.draw(3); i > 0; i--)
        {
            std::vector<std::string> names, use;
            for (auto& o : m.obs) names.push_back(o.name);
            for (auto& o : m.man) names.push_back(o.name);
            std::string b;
            for (auto& n : names) if (s.chance(0.5)) { use.push_back(n); b += w.el("SceneObject", w.at("name", n)); }
            m.sos.push_back({"sos" + std::to_string(i), use});
            late.push_back(w.el("SceneObjectSet", w.at("name", m.sos.back().first), b));
        }
        size_t nsos = late.size();
        for (int i = (int)s.draw(3); i > 0 && nr > 0; i--)
        {
            TrajM t;
            t.robot = (int)s.draw(nr);
            auto& r = m.rob[t.robot];
            if (r.rns.empty()) continue;
            t.rns = (int)s.draw(r.rns.size());
            t.name = "traj" + std::to_string(i);
            size_t dim = r.rns[t.rns].nodes.size();
            std::string b;
            int np = (int)s.draw(4);
            for (int k = 0; k < np; k++)
            {
                std::vector<double> p;
                std::string e;
                for (size_t d = 0; d < dim; d++) { p.push_back(fl(s.real(-3, 3))); e += w.el("c", w.at("value", p.back()) ); }
                t.pts.push_back(p);
                b += w.el("Point", w.at("id", std::to_string(k)), e);
            }
            m.traj.push_back(t);
            std::string at = w.at(s.chance(0.5) ? "Robot" : "Model", r.sp.type) + w.at(s.chance(0.5) ? "RobotNodeSet" : "ModelNodeSet", r.rns[t.rns].name) + w.at("name", t.name);
            if (s.chance(0.8)) at += w.at(s.chance(0.5) ? "dim" : "dimension", std::to_string(dim));
            late.push_back(w.el("Trajectory", at, b));
        }
        // trajectories and object sets may refer to what comes later in the file
        std::string A, B;
        for (auto& x : early) A += x;
        for (size_t i = 0; i < nsos; i++) B += late[i];
        std::string C;
        for (size_t i = nsos; i < late.size(); i++) C += late[i];
        std::string p[3] = {A, B, C};
        int i1 = (int)s.draw(3), i2 = (i1 + 1 + (int)s.draw(2)) % 3;
        return "<Scene" + w.at("name", m.name) + ">\n" + p[i1] + p[i2] + p[3 - i1 - i2] + "</Scene>";
    }
    void sameScene(pbt::Ctx& c, const ScenePtr& sc, const SceneM& m, const std::string& what)
    {
        c.check(!!sc && sc->getName() == m.name, "sceneName", what + ": name of the scene");
        auto robots = sc->getRobots();
        c.check(robots.size() == m.rob.size(), "sceneRobots", what + ": number of robots");
        for (size_t i = 0; i < robots.size(); i++)
        {
            auto& r = m.rob[i];
            auto R = robots[i];
            std::string wr = what + " robot " + std::to_string(i);
            c.check(R->getType() == r.sp.type && R->getName() == r.sp.name, "robotName", wr + ": type or name");
            samePose(c, R->getGlobalPose(), r.pose, tolPos(r.pose) + 0.02, 2e-4, "robotPose", wr + ": pose");
            for (size_t k = 0; k < r.sp.n.size(); k++) c.check(six(R->getRobotNode(r.sp.n[k].name)->getJointValue(), r.q[k], 3e-5 + 1e-5 * std::fabs(r.q[k])), "robotValue", wr + ": joint value of " + r.sp.n[k].name + ": " + num(R->getRobotNode(r.sp.n[k].name)->getJointValue()) + " expected " + num(r.q[k]));
            auto w = r.sp.fk(r.pose, r.q);
            for (size_t k = 0; k < r.sp.n.size(); k++) samePose(c, R->getRobotNode(r.sp.n[k].name)->getGlobalPose(), w[k], 0.1 + (r.sp.reach() + trans(r.pose).norm()) * 1e-4, 1e-3, "nodePose", wr + ": pose of " + r.sp.n[k].name);
            for (auto& g : r.cfg)
            {
                c.check(sc->hasRobotConfig(R, g.name), "cfg", wr + ": configuration " + g.name + " is missing");
                auto C = sc->getRobotConfig(R, g.name);
                c.check(C == sc->getRobotConfig(R->getName(), g.name), "cfgByName", wr + ": configuration by the name of the robot");
                auto v = C->getRobotNodeJointValueMap();
                c.check(v.size() == g.v.size(), "cfgSize", wr + ": size of configuration " + g.name + ": " + std::to_string(v.size()) + " expected " + std::to_string(g.v.size()));
                for (auto& q : g.v) c.check(v.count(q.first) && six(v[q.first], q.second, 3e-5 + 1e-5 * std::fabs(q.second)), "cfgValue", wr + ": value of " + q.first + " in " + g.name);
                c.check(C->hasTCP() == !g.tcp.empty() && (g.tcp.empty() || C->getTCP() == R->getRobotNode(g.tcp)), "cfgTcp", wr + ": tool centre point of configuration " + g.name);
            }
            for (auto& g : r.rns)
            {
                c.check(R->hasRobotNodeSet(g.name), "rns", wr + ": node set " + g.name + " is missing");
                auto S = R->getRobotNodeSet(g.name);
                c.check(S == sc->getRobotNodeSet(R->getName(), g.name), "rnsScene", wr + ": node set from the scene");
                c.check(S->getSize() == g.nodes.size(), "rnsSize", wr + ": size of node set " + g.name);
                for (size_t k = 0; k < g.nodes.size(); k++) c.check(S->getNode((int)k)->getName() == g.nodes[k], "rnsNode", wr + ": node of set " + g.name);
                c.check(S->getTCP()->getName() == g.tcp && S->getKinematicRoot()->getName() == g.root, "rnsTcp", wr + ": root or tcp of set " + g.name);
            }
        }
        c.check(sc->getObstacles().size() == m.obs.size() && sc->getManipulationObjects().size() == m.man.size(), "sceneObjects", what + ": number of objects");
        for (auto& o : m.obs) { c.check(sc->hasObstacle(o.name), "obs", what + ": obstacle " + o.name); sameObj(c, sc->getObstacle(o.name), o, what + " " + o.name); }
        for (auto& o : m.man) { c.check(sc->hasManipulationObject(o.name), "man", what + ": object " + o.name); sameObj(c, sc->getManipulationObject(o.name), o, what + " " + o.name); }
        c.check(sc->getSceneObjectSets().size() == m.sos.size(), "sosN", what + ": number of object sets");
        for (auto& o : m.sos)
        {
            c.check(sc->hasSceneObjectSet(o.first), "sos", what + ": object set " + o.first);
            auto S = sc->getSceneObjectSet(o.first);
            c.check(S->getSize() == o.second.size(), "sosSize", what + ": size of object set " + o.first);
            for (size_t i = 0; i < o.second.size(); i++)
            {
                auto x = S->getSceneObject((unsigned)i);
                SceneObjectPtr want = sc->hasObstacle(o.second[i]) ? SceneObjectPtr(sc->getObstacle(o.second[i])) : SceneObjectPtr(sc->getManipulationObject(o.second[i]));
                c.check(x == want, "sosObj", what + ": object of set " + o.first);
            }
        }
        c.check(sc->getTrajectories().size() == m.traj.size(), "trajN", what + ": number of trajectories");
        for (auto& t : m.traj)
        {
            c.check(sc->hasTrajectory(t.name), "traj", what + ": trajectory " + t.name);
            auto T = sc->getTrajectory(t.name);
            c.check(T->getRobotNodeSet() == sc->getRobots()[t.robot]->getRobotNodeSet(m.rob[t.robot].rns[t.rns].name), "trajRns", what + ": node set of trajectory " + t.name);
            c.check(T->getPoints().size() == t.pts.size(), "trajSize", what + ": points of trajectory " + t.name);
            for (size_t i = 0; i < t.pts.size(); i++) for (size_t d = 0; d < t.pts[i].size(); d++) c.check(six(T->getPoint((unsigned)i)(d), t.pts[i][d]), "trajPoint", what + ": point of trajectory " + t.name);
            c.check(T->getRobotName() == m.rob[t.robot].sp.type || T->getRobotName() == m.rob[t.robot].sp.name, "trajRobot", what + ": robot of the trajectory");
        }
    }
    void scenes(Src& s, pbt::Ctx& c)
    {
        W w{s, true};
        SceneM m;
        namespace fs = boost::filesystem;
        std::string dir = pbt::scratch() + "/world", dir2 = pbt::scratch() + (s.chance(0.5) ? "/world/deeper/place" : "/elsewhere");
        if (s.chance(0.3)) dir2 = dir;
        for (auto& d : {pbt::scratch() + "/world", pbt::scratch() + "/elsewhere"}) fs::remove_all(d);
        fs::create_directories(dir);
        fs::create_directories(dir2);
        bool models = s.chance(0.3);
        std::string x = sceneXML(s, w, m, dir, models);
        c.describe(x);
        ScenePtr sc;
        if (s.chance(0.5)) sc = SceneIO::createSceneFromString(x, dir);
        else { put(dir + "/scene.xml", x); sc = SceneIO::loadScene(dir + "/scene.xml"); }
        sameScene(c, sc, m, "read");
        // change something
        if (s.chance(0.7))
        {
            for (size_t i = 0; i < m.rob.size(); i++)
            {
                auto& r = m.rob[i];
                auto R = sc->getRobots()[i];
                r.pose = s.chance(0.3) ? M4::Identity() : fl4(pose(s, 1500));
                R->setGlobalPose(f4(r.pose));
                std::map<std::string, float> jv;
                for (int j : r.sp.joints()) { r.q[j] = randomQ(s, r.sp.n[j]); jv[r.sp.n[j].name] = (float)r.q[j]; }
                R->setJointValues(jv);
                if (s.chance(0.4))
                {
                    RobM::Cfg g{"later", "", cfgVals(s, r.sp)};
                    RobotConfigPtr rc(new RobotConfig(R, g.name));
                    for (auto& q : g.v) rc->setConfig(q.first, (float)q.second);
                    if (s.chance(0.5)) { g.tcp = r.sp.n[s.draw(r.sp.n.size())].name; rc->setTCP(g.tcp); }
                    sc->registerRobotConfig(R, rc);
                    r.cfg.push_back(g);
                }
            }
            for (auto* l : {&m.obs, &m.man})
                for (auto& o : *l)
                    if (s.chance(0.6))
                    {
                        o.pose = s.chance(0.4) ? M4::Identity() : fl4(pose(s, 1500));
                        SceneObjectPtr p = o.manip ? SceneObjectPtr(sc->getManipulationObject(o.name)) : SceneObjectPtr(sc->getObstacle(o.name));
                        p->setGlobalPose(f4(o.pose));
                    }
            c.label("changed");
        }
        std::string f = dir2 + "/saved.xml";
        c.check(SceneIO::saveScene(sc, f), "save", "saving the scene failed");
        std::string y = get(f);
        c.describe(x + "\nsaved: " + y);
        ScenePtr sc2;
        try { sc2 = SceneIO::loadScene(f); }
        catch (VirtualRobotException& e) { c.fail("reload", std::string("the saved scene cannot be read: ") + e.what()); }
        sameScene(c, sc2, m, "read again");
        // and once more: saving what was loaded
        std::string f3 = dir2 + "/saved2.xml";
        c.check(SceneIO::saveScene(sc2, f3), "save2", "saving the scene failed");
        ScenePtr sc3;
        try { sc3 = SceneIO::loadScene(f3); }
        catch (VirtualRobotException& e) { c.fail("reload2", std::string("the scene saved twice cannot be read: ") + e.what()); }
        sameScene(c, sc3, m, "read a third time");
        for (auto& d : {pbt::scratch() + "/world", pbt::scratch() + "/elsewhere"}) fs::remove_all(d);
        if (!m.rob.empty()) c.label("robots");
        if (!m.traj.empty()) c.label("trajectories");
        if (!m.sos.empty()) c.label("object sets");
        c.nontrivial(m.rob.size() + m.obs.size() + m.man.size() >= 2);
    }

    // ---------------------------------------------------------------- the scene as registry, against lists
    template<class T> struct Reg
    {
        std::vector<T> pool;
        std::vector<std::string> names;
        std::vector<int> l;
        bool has(int i) const { return std::count(l.begin(), l.end(), i) > 0; }
        T byName(const std::string& n) const { for (int i : l) if (names[i] == n) return pool[i]; return T(); }
        void add(int i) { if (!has(i)) l.push_back(i); }
        void del(int i) { auto p = std::find(l.begin(), l.end(), i); if (p != l.end()) l.erase(p); }
        void delName(const std::string& n) { for (auto p = l.begin(); p != l.end(); ++p) if (names[*p] == n) { l.erase(p); return; } }
    };
    void registry(Src& s, pbt::Ctx& c)
    {
        ScenePtr sc(new Scene("s"));
        Reg<RobotPtr> rob;
        Reg<ObstaclePtr> obs;
        Reg<ManipulationObjectPtr> man;
        Reg<SceneObjectSetPtr> sos;
        Reg<TrajectoryPtr> tra;
        static const char* nm[] = {"a", "a", "b"};
        for (int i = 0; i < 3; i++)
        {
            RobotPtr r = RobotIO::createRobotFromString(std::string("<Robot Type='t' StandardName='") + nm[i] + "' RootNode='x'><RobotNode name='x'><Joint type='revolute'><Limits unit='radian' lo='-3' hi='3'/></Joint></RobotNode><RobotNodeSet name='s' tcp='x'><Node name='x'/></RobotNodeSet></Robot>", "");
            r->setName(nm[i]);
            rob.pool.push_back(r);
            obs.pool.push_back(ObstaclePtr(new Obstacle(nm[i])));
            man.pool.push_back(ManipulationObjectPtr(new ManipulationObject(nm[i])));
            sos.pool.push_back(SceneObjectSetPtr(new SceneObjectSet(nm[i])));
            tra.pool.push_back(TrajectoryPtr(new Trajectory(r->getRobotNodeSet("s"), nm[i])));
            for (auto* v : {&rob.names, &obs.names, &man.names, &sos.names, &tra.names}) v->push_back(nm[i]);
        }
        std::vector<std::vector<RobotConfigPtr>> cp(3);
        std::vector<std::vector<int>> cl(3);
        for (int i = 0; i < 3; i++) for (int k = 0; k < 3; k++) cp[i].push_back(RobotConfigPtr(new RobotConfig(rob.pool[i], nm[k])));
        std::ostringstream h;
        int n = 4 + (int)s.draw(20), muts = 0;
        for (int i = 0; i < n; i++)
        {
            int k = (int)s.draw(6), op = (int)s.draw(5), e = (int)s.draw(3);
            std::string name = s.chance(0.8) ? nm[s.draw(3)] : "none";
            h << "kind " << k << " op " << op << " " << e << " " << name << "; ";
            bool reg = op < 3, byPtr = op == 3;
            if (reg) muts++;
#define KIND(R, NAME) if (reg) { sc->register##NAME(R.pool[e]); R.add(e); } else if (byPtr) { sc->deRegister##NAME(R.pool[e]); R.del(e); } else { sc->deRegister##NAME(name); R.delName(name); }
            if (k == 0) { KIND(rob, Robot) }
            else if (k == 1) { KIND(obs, Obstacle) }
            else if (k == 2) { KIND(man, ManipulationObject) }
            else if (k == 3) { KIND(sos, SceneObjectSet) }
            else if (k == 4) { KIND(tra, Trajectory) }
            else
            {
                int r = (int)s.draw(3);
                h << "robot " << r << "; ";
                auto& l = cl[r];
                if (reg) { sc->registerRobotConfig(rob.pool[r], cp[r][e]); if (!std::count(l.begin(), l.end(), e)) l.push_back(e); }
                else if (byPtr) { sc->deRegisterRobotConfig(rob.pool[r], cp[r][e]); auto p = std::find(l.begin(), l.end(), e); if (p != l.end()) l.erase(p); }
                else { sc->deRegisterRobotConfig(rob.pool[r], name); for (auto p = l.begin(); p != l.end(); ++p) if (nm[*p] == name) { l.erase(p); break; } }
            }
#define SAME(R, NAME, LIST) { auto v = sc->LIST(); c.check(v.size() == R.l.size(), "list" #NAME, "number registered; " + h.str()); for (size_t q = 0; q < v.size(); q++) c.check(v[q] == R.pool[R.l[q]], "order" #NAME, "order; " + h.str()); \
            for (int q = 0; q < 3; q++) c.check(sc->has##NAME(R.pool[q]) == R.has(q), "has" #NAME, "membership; " + h.str()); \
            for (std::string z : {"a", "b", "none"}) { c.check(sc->has##NAME(z) == !!R.byName(z), "hasName" #NAME, "membership by name; " + h.str()); c.check(sc->get##NAME(z) == R.byName(z), "get" #NAME, "by name; " + h.str()); } }
            SAME(rob, Robot, getRobots)
            SAME(obs, Obstacle, getObstacles)
            SAME(man, ManipulationObject, getManipulationObjects)
            SAME(sos, SceneObjectSet, getSceneObjectSets)
            SAME(tra, Trajectory, getTrajectories)
            for (int r = 0; r < 3; r++)
            {
                for (int q = 0; q < 3; q++) c.check(sc->hasRobotConfig(rob.pool[r], cp[r][q]) == (std::count(cl[r].begin(), cl[r].end(), q) > 0), "hasCfg", "configuration; " + h.str());
                for (std::string z : {"a", "b", "none"})
                {
                    RobotConfigPtr want;
                    for (int q : cl[r]) if (nm[q] == z) { want = cp[r][q]; break; }
                    c.check(sc->hasRobotConfig(rob.pool[r], z) == !!want && sc->getRobotConfig(rob.pool[r], z) == want, "getCfg", "configuration by name; " + h.str());
                }
                if (rob.has(r))
                {
                    auto v = sc->getRobotConfigs(rob.pool[r]);
                    c.check(v.size() == cl[r].size(), "cfgList", "configurations of the robot; " + h.str());
                    for (size_t q = 0; q < v.size(); q++) c.check(v[q] == cp[r][cl[r][q]], "cfgOrder", "configurations of the robot; " + h.str());
                }
            }
            for (std::string z : {"a", "b", "none"})
            {
                std::vector<TrajectoryPtr> want;
                for (int q : tra.l) if (tra.pool[q]->getRobotName() == z) want.push_back(tra.pool[q]);
                c.check(sc->getTrajectories(z) == want, "trajByRobot", "trajectories of a robot; " + h.str());
            }
        }
        c.describe(h.str());
        c.nontrivial(muts >= 3);
    }

    // ---------------------------------------------------------------- damaged documents
    void damaged(Src& s, pbt::Ctx& c)
    {
        W w{s, s.chance(0.5)};
        int kind = (int)s.draw(3);
        std::string x, dir = pbt::scratch();
        SceneM m;
        if (kind == 2) x = sceneXML(s, w, m, dir, s.chance(0.3));
        else { ObjM o = objM(s, kind == 0, "thing", s.chance(0.3)); x = objXML(w, o); }
        std::string orig = x;
        static const char* tok[] = {"'", "\"", "<", ">", "/>", "</", "=", "-", "1e30", "nan", "inf", "0", "", "n0", "own", "name", "units", "&", "&#0;", "<!--", "-->", "<![CDATA[", "\x01", "\xff", "9999999999999999999", "-1", "obj.xml", "."};
        int k = 1 + (int)s.draw(3);
        for (int i = 0; i < k && !x.empty(); i++)
        {
            size_t p = s.draw(x.size());
            switch (s.draw(7))
            {
                case 0: x.erase(p, 1 + s.draw(10)); break;
                case 1: x.insert(p, tok[s.draw(28)]); break;
                case 2: x[p] = (char)(1 + s.draw(255)); break;
                case 3: { size_t q = x.find("='", p); if (q != std::string::npos) { size_t a = x.rfind(' ', q), e = x.find("'", q + 2); if (a != std::string::npos && e != std::string::npos) x.erase(a, e + 1 - a); } break; }
                case 4: { size_t q = x.find("='", p); if (q != std::string::npos) { size_t e = x.find("'", q + 2); if (e != std::string::npos) x.replace(q + 2, e - q - 2, tok[s.draw(28)]); } break; }
                case 5: { size_t q = x.find("<", p); size_t e = q == std::string::npos ? q : x.find("/>", q); if (e != std::string::npos) { if (s.chance(0.5)) x.insert(e + 2, x.substr(q, e + 2 - q)); else x.erase(q, e + 2 - q); } break; }
                default: x.resize(p);
            }
        }
        for (auto& ch : x) if (ch == 0) ch = ' ';
        c.describe(x);
        bool file = s.chance(0.3);
        std::string f = dir + "/damaged.xml";
        if (file) put(f, x);
        SceneObjectPtr so;
        ScenePtr sc;
        try
        {
            if (kind == 0) so = file ? ObjectIO::loadManipulationObject(f) : ObjectIO::createManipulationObjectFromString(x, dir);
            else if (kind == 1) so = file ? ObjectIO::loadObstacle(f) : ObjectIO::createObstacleFromString(x, dir);
            else sc = file ? SceneIO::loadScene(f) : SceneIO::createSceneFromString(x, dir);
        }
        catch (VirtualRobotException&) { c.label("rejected"); c.nontrivial(x != orig); return; }
        catch (std::exception& e) { c.fail("wrongException", std::string("an exception other than the library's escaped: ") + e.what()); }
        c.check(kind == 2 ? !!sc : !!so, "nothing", "accepted without a result");
        c.label("accepted");
        c.nontrivial(x != orig);
        if (so) c.check(!so->getName().empty(), "noName", "object without name");
        if (sc)
        {
            for (auto& o : sc->getSceneObjectSets()) for (auto& p : o->getSceneObjects()) { auto a = boost::dynamic_pointer_cast<ManipulationObject>(p); auto b = boost::dynamic_pointer_cast<Obstacle>(p); c.check((a && sc->hasManipulationObject(a)) || (b && sc->hasObstacle(b)), "foreignObject", "object set with an object that is not in the scene"); }
            for (auto& t : sc->getTrajectories()) { c.check(t->getRobotNodeSet() && sc->hasRobot(t->getRobotNodeSet()->getRobot()), "foreignTraj", "trajectory for a robot that is not in the scene"); for (auto& p : t->getPoints()) c.check(p.rows() == (int)t->getRobotNodeSet()->getSize(), "trajDim", "point of wrong dimension"); }
        }
    }
    // documents with one error
    void invalid(Src& s, pbt::Ctx& c)
    {
        static const std::string man = "<ManipulationObject name='m'><GraspSet name='g' RobotType='t' EndEffector='e'><Grasp name='h' quality='0.5'><Transform><Translation x='1' y='2' z='3'/></Transform><Configuration name='c'><Node name='n' unit='radian' value='1'/></Configuration></Grasp></GraspSet><GlobalPose><Transform><Translation x='1' y='2' z='3'/></Transform></GlobalPose></ManipulationObject>";
        std::string dir = pbt::scratch();
        put(dir + "/rr.xml", "<Robot Type='t' StandardName='r' RootNode='x'><RobotNode name='x'><Joint type='revolute'><Limits unit='radian' lo='-3' hi='3'/></Joint></RobotNode></Robot>");
        static const std::string scn = "<Scene name='s'><Robot name='r' initConfig='c'><File>rr.xml</File><Configuration name='c'><Node name='x' unit='radian' value='1'/></Configuration><RobotNodeSet name='set'><Node name='x'/></RobotNodeSet></Robot>" + man + "<Obstacle name='o'/><SceneObjectSet name='os'><SceneObject name='o'/></SceneObjectSet><Trajectory Robot='t' RobotNodeSet='set' name='j' dim='1'><Point id='0'><c value='1'/></Point></Trajectory></Scene>";
        struct E { const char *a, *b; };
        static const E em[] = {{"<ManipulationObject name='m'>", "<ManipulationObject>"}, {" RobotType='t'", ""}, {" EndEffector='e'", ""}, {"<GraspSet name='g'", "<GraspSet"}, {"<Grasp name", "<Graspp name"}, {"<GlobalPose>", "<Something/><GlobalPose>"}, {"<Configuration name='c'>", "<Configuration>"}, {"<Node name='n'", "<Node"}, {"value='1'/>", "value='one'/>"}, {"</GraspSet>", ""}, {"x='1'", "x='east'"}, {"<Configuration name='c'>", "<Configuration name='d'><Node name='n' unit='radian' value='1'/></Configuration><Configuration name='c'>"}, {"<GlobalPose>", "<Physics/><Physics/><GlobalPose>"}, {"quality='0.5'", "quality='good'"}, {"<GlobalPose>", "<File>nothere.xml</File><GlobalPose>"}, {"<ManipulationObject", "<Thing"}};
        static const E es[] = {{"<Scene name='s'>", "<Scene>"}, {"<Robot name='r'", "<Robot"}, {"<File>rr.xml</File>", ""}, {"rr.xml", "nothere.xml"}, {"initConfig='c'", "initConfig='d'"}, {"<SceneObject name='o'/>", "<SceneObject name='unknown'/>"}, {"<SceneObject name='o'/>", "<SceneObjects/>"}, {"Robot='t' RobotNodeSet", "Robot='another' RobotNodeSet"}, {"RobotNodeSet='set'", "RobotNodeSet='other'"}, {"RobotNodeSet='set'", ""}, {"<Trajectory Robot='t'", "<Trajectory"}, {"<Obstacle", "<Obstacl"}, {"<Obstacle name='o'/>", "<Obstacle/>"}, {"<SceneObjectSet name='os'>", "<SceneObjectSet>"}, {"<RobotNodeSet name='set'><Node name='x'/>", "<RobotNodeSet name='set'><Node name='y'/>"}, {"<File>rr.xml</File>", "<File>rr.xml</File><File>rr.xml</File>"}, {"<File>rr.xml</File>", "<File>rr.xml</File><Unknown/>"}, {" dim='1'", " dim='one'"}};
        bool sc = s.chance(0.5);
        std::string x = sc ? scn : man, good = x;
        int k = (int)s.draw(sc ? 18 : 16);
        if (!s.chance(0.1)) { E e = sc ? es[k] : em[k]; size_t p = x.find(e.a); if (p != std::string::npos) x.replace(p, strlen(e.a), e.b); }
        else x = s.chance(0.3) ? "" : x.substr(0, 1 + s.draw(x.size() - 1));
        c.require(x != good);
        c.describe(std::string(sc ? "scene " : "object ") + std::to_string(k) + ": " + x);
        c.label((sc ? "scene " : "object ") + std::to_string(k));
        auto read = [&](const std::string& t) { return sc ? !!SceneIO::createSceneFromString(t, dir) : !!ObjectIO::createManipulationObjectFromString(t, dir); };
        bool thrown = false;
        std::string other;
        try { read(x); }
        catch (VirtualRobotException&) { thrown = true; }
        catch (std::exception& e) { other = e.what(); }
        c.check(other.empty(), "wrongException", "an exception other than the library's escaped: " + other);
        c.check(thrown, "acceptedInvalid", "a broken document was accepted");
        c.check(read(good), "afterError", "reading a good document failed after a broken one");
        c.nontrivial();
    }

    // ---------------------------------------------------------------- STL writing
    void stl(Src& s, pbt::Ctx& c)
    {
        TriMeshModelPtr t(new TriMeshModel());
        int n = 1 + (int)s.draw(30), made = 0;
        double span = s.pick(std::vector<double>{1, 100, 10000});
        std::vector<V3> want;
        float sc = s.pick(std::vector<float>{1.f, 0.001f, 1000.f, 2.5f});
        for (int i = 0; i < n; i++)
        {
            V3 a = vec(s, span), b = vec(s, span), d = vec(s, span);
            if ((b - a).cross(d - a).norm() < 1e-2 * span * span) continue;
            t->addTriangleWithFace(f3(a), f3(b), f3(d));
            want.push_back(a * sc); want.push_back(b * sc); want.push_back(d * sc);
            made++;
        }
        std::string f = pbt::scratch() + "/out.stl";
        if (!made) { c.check(!ObjectIO::writeSTL(t, f, "x", sc), "stlEmpty", "an empty model was written"); return; }
        c.check(ObjectIO::writeSTL(t, f, s.chance(0.5) ? "name" : "two words", sc), "stlWrite", "writing failed");
        TriMeshModelPtr r(new TriMeshModel());
        STLReader rd;
        bool ok = rd.read(f, r);
        c.describe(get(f));
        c.check(ok, "stlRead", "the written file cannot be read");
        c.check((int)r->faces.size() == made, "stlFaces", std::to_string(r->faces.size()) + " triangles of " + std::to_string(made));
        double tol = span * sc * 2e-5;
        for (int i = 0; i < made; i++)
        {
            auto& fc = r->faces[i];
            V3 p[3] = {d3(r->vertices[fc.id1]), d3(r->vertices[fc.id2]), d3(r->vertices[fc.id3])};
            for (int k = 0; k < 3; k++) sameVec(c, p[k], want[3 * i + k], tol, "stlVertex", "vertex " + std::to_string(k) + " of triangle " + std::to_string(i));
        }
        c.nontrivial(made > 1);
    }
}

int main(int argc, char** argv)
{
    pbt::Suite suite;
    suite.property = "P21";
    suite.rule = "grasps: hand away from the origin; graspSets: >=2 additions; objects: more than a name; scenes: >=2 robots or objects; registry: >=3 registrations; damaged: document changed; stl: >1 triangle";
    suite.init = [] { initVR("P21"); };
    suite.add("grasps", 15000, 200000, grasps);
    suite.add("graspSets", 15000, 200000, graspSets);
    suite.add("objects", 15000, 150000, objects);
    suite.add("scenes", 8000, 80000, scenes);
    suite.add("registry", 8000, 100000, registry);
    suite.add("damaged", 40000, 500000, damaged);
    suite.add("invalid", 2500, 20000, invalid);
    suite.add("stl", 6000, 100000, stl);
    return pbt::run(argc, argv, suite);
}
