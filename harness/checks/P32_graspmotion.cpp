// libs: VirtualRobot Saba
// P32: planners that search for a grasp and the motion to it
#include "common/planworld.h"
#include "common/handgen.h"
#include <Eigen/SVD>
#include <Eigen/LU>
#include <VirtualRobot/IK/GenericIKSolver.h>
#include <VirtualRobot/Grasping/Grasp.h>
#include <VirtualRobot/Grasping/GraspSet.h>
#include <VirtualRobot/Grasping/BasicGraspQualityMeasure.h>
#include <MotionPlanning/ApproachDiscretization.h>
#include <MotionPlanning/Planner/GraspIkRrt.h>
#include <MotionPlanning/Planner/GraspRrt.h>
using namespace VirtualRobot;
using namespace Saba;
using namespace gen;

namespace
{
    // an arm with a hand, an object it can reach and obstacles
    struct GW
    {
        Hand h;
        PWorld p;
        ManipulationObjectPtr obj;
        EndEffectorPtr e;
        std::map<std::string, float> fingers;
        VX seen;                              // the object is in front of the hand in this configuration
        RobotPtr robot() const { return p.w.r; }
        // pose of a node in a configuration, hand opened
        M4 at(const VX& q, const std::string& n) const
        {
            p.twin->setJointValues(fingers);
            p.free(q);
            std::map<std::string, float> m;
            for (int i = 0; i < p.w.d.n(); i++) m[h.sp.n[p.w.j[i]].name] = (float)q[i];
            p.twin->setJointValues(m);
            return d4(p.twin->getRobotNode(n)->getGlobalPose());
        }
    };
    void place(Src& s, GW& w)
    {
        w.seen = config(s, w.p.w.d);
        ObstaclePtr o = objectFor(s, w.h, w.at(w.seen, "palm"));
        w.obj->setGlobalPose(o->getGlobalPose());
    }
    GW gworld(Src& s, pbt::Ctx& c, bool avoidObject, int maxArm, double crowd)
    {
        GW w;
        w.h = hand(s, false, false, true, 2 + (int)s.draw(maxArm - 1));
        auto& W = w.p.w;
        W.sp = w.h.sp;
        W.r = RobotIO::createRobotFromString(w.h.xml, "");
        W.r->setGlobalPose(f4(fl4(pose(s, 500))));
        std::vector<std::string> nm;
        for (size_t i = 0; i < W.sp.n.size(); i++) if (W.sp.n[i].name.substr(0, 3) == "arm") { W.j.push_back((int)i); }
        for (int k : W.j) { nm.push_back(W.sp.n[k].name); W.d.lo.push_back(W.sp.n[k].lo); W.d.hi.push_back(W.sp.n[k].hi); W.d.w.push_back(1); W.d.circ.push_back(false); }
        W.rns = RobotNodeSet::createRobotNodeSet(W.r, "joints", nm, "root", "tcp", true);
        for (auto& f : w.h.f) for (size_t j = 0; j < f.nodes.size(); j++) { auto& n = w.h.sp.n[f.nodes[j]]; w.fingers[n.name] = (float)((f.speed[j] > 0 ? n.lo : n.hi) + 0.01 * f.speed[j]); }
        if (s.chance(0.2)) for (auto& f : w.h.f) for (int j : f.nodes) w.fingers[w.h.sp.n[j].name] = (float)randomQ(s, w.h.sp.n[j]);
        W.r->setJointValues(w.fingers);
        w.e = W.r->getEndEffector("hand");
        W.cdm.reset(new CDManager());
        W.cs.reset(new CSpaceSampled(W.r, W.cdm, W.rns, 60000, 1 + (unsigned)s.draw(100000)));
        w.p.twin = W.r->clone("twin", CollisionChecker::getGlobalCollisionChecker());
        w.p.twin->setJointValues(w.fingers);
        // the object
        double sz = s.uniform(0.5, 1.6) * w.h.R;
        ObstaclePtr o = s.chance(0.5) ? Obstacle::createBox((float)sz, (float)(sz * s.uniform(0.4, 1.5)), (float)(sz * s.uniform(0.4, 1.5))) : s.chance(0.5) ? Obstacle::createSphere((float)(sz / 2)) : Obstacle::createCylinder((float)(sz / 2), (float)(sz * s.uniform(0.5, 2)));
        w.obj.reset(new ManipulationObject("object", o->getVisualization(), o->getCollisionModel()));
        place(s, w);
        SceneObjectSetPtr A(new SceneObjectSet("robot")), B(new SceneObjectSet("world"));
        for (auto& n : W.r->getRobotNodes()) if (n->getCollisionModel()) A->addSceneObject(n);
        if (avoidObject) { w.p.obs.push_back(w.obj); B->addSceneObject(w.obj); }
        if (s.chance(crowd))
            for (int i = 0, k = 1 + (int)s.draw(3); i < k; i++)
            {
                ObstaclePtr b = Obstacle::createBox((float)s.uniform(60, 250), (float)s.uniform(60, 250), (float)s.uniform(60, 250));
                b->setGlobalPose(f4(fl4(M4(w.at(config(s, W.d), "palm") * pose(s, 150)))));
                w.p.obs.push_back(b);
                B->addSceneObject(b);
            }
        if (B->getSize()) W.cdm->addCollisionModelPair(A, B);
        Region g;
        g.d = W.d;
        if (s.chance(crowd)) for (int i = 0, k = 1 + (int)s.draw(3); i < k; i++) g.balls.push_back({config(s, W.d), s.uniform(0.1, 0.4)});
        W.rec.reset(new Record(g));
        if (!g.balls.empty()) W.cs->addConstraintCheck(W.rec);
        double len = 0;
        for (int i = 0; i < W.d.n(); i++) len += (W.d.hi[i] - W.d.lo[i]) * (W.d.hi[i] - W.d.lo[i]);
        w.p.diam = std::sqrt(len);
        w.p.step = fl(w.p.diam / s.uniform(6, 20)), w.p.dcd = fl(w.p.diam / s.uniform(20, 60));
        W.cs->setSamplingSize((float)w.p.step);
        W.cs->setSamplingSizeDCD((float)w.p.dcd);
        int good = 0;
        for (int i = 0; i < 30; i++) good += w.p.ok(config(s, W.d));
        if (good < 4) c.discard();
        return w;
    }
    double poseErr(const M4& a, const M4& b, double& rot)
    {
        M3 R = a.block<3, 3>(0, 0).transpose() * b.block<3, 3>(0, 0);
        rot = std::acos(std::max(-1., std::min(1., (R.trace() - 1) / 2)));
        return (a.block<3, 1>(0, 3) - b.block<3, 1>(0, 3)).norm();
    }

    void ikRrt(Src& s, pbt::Ctx& c)
    {
        bool easy = s.chance(0.3);
        GW w = gworld(s, c, !easy && s.chance(0.4), 6, easy ? 0 : 0.5);
        auto& p = w.p;
        auto& d = p.w.d;
        std::string h = std::to_string(d.n()) + " joints, " + std::to_string(p.w.rec->region.balls.size()) + " regions " + std::to_string(p.obs.size()) + " obstacles, grasps:";
        // grasps: poses of the object in the frame of the TCP
        struct G { M4 toObj; bool reach; };
        std::vector<G> gs;
        GraspSetPtr set(new GraspSet("set", p.w.r->getType(), "hand"));
        int k = (easy ? 3 : 1) + (int)s.draw(4);
        for (int i = 0; i < k; i++)
        {
            G g;
            g.reach = easy || s.chance(0.8);
            M4 op = d4(w.obj->getGlobalPose());
            VX gq = freeConfig(s, p);
            if (easy) for (int k = 0; k < d.n(); k++) gq[k] = 0.8 * gq[k] + 0.1 * (d.lo[k] + d.hi[k]); // away from the limits
            M4 tcp = w.at(gq, "tcp");
            if (!g.reach) tcp = mk(rot(s), V3(tcp.block<3, 1>(0, 3)) + 4000 * unit(s));
            g.toObj = fl4(M4(inv(tcp) * op));
            gs.push_back(g);
            set->addGrasp(GraspPtr(new Grasp("g" + std::to_string(i), p.w.r->getType(), "hand", f4(g.toObj))));
            h += g.reach ? " reachable" : " out of reach";
        }
        w.obj->addGraspSet(set);
        GenericIKSolverPtr ik(new GenericIKSolver(p.w.rns));
        double tp = s.uniform(1, 10), tr = s.uniform(0.02, 0.1);
        ik->setMaximumError((float)tp, (float)tr);
        ik->setupJacobian(0.9f, 30);
        double prob = s.chance(0.1) ? s.pick(std::vector<double>{-1, 0, 1, 2}) : s.uniform(0.05, 0.7);
        boost::shared_ptr<GraspIkRrt> x(new GraspIkRrt(p.w.cs, w.obj, ik, set, (float)prob));
        PRNG64Bit().seed(s.draw(1000000));
        srand((unsigned)s.draw(1000000));
        bool vis = s.chance(0.5);
        p.w.r->setUpdateVisualization(vis);
        c.check(!x->isInitialized() && !x->getSolution(), "access", "initialized without start");
        bool so = false, stale = false;
        VX a;
        unsigned maxC = easy ? 5000 : 20 + (unsigned)s.draw(200);
        x->setMaxCycles(maxC);
        int n = 2 + (int)s.draw(7), found = 0;
        for (int i = 0; i < n; i++)
        {
            int op = i == 0 ? 0 : i == 1 ? 1 : (int)s.weighted({2, 5, 1, 0.5, 1, 0.5});
            if (op == 0)
            {
                VX q = freeConfig(s, p);
                if (s.chance(0.1)) q = config(s, d);
                if (s.chance(0.07)) { int k = (int)s.draw(d.n()); q[k] = fl(d.hi[k] + s.uniform(0.01, 1)); }
                bool want = p.inside(q) && p.ok(q), res = x->setStart(vf(q));
                h += " start " + show(q) + (want ? "" : "!");
                c.describe(h);
                c.check(res == want, "accept", std::string("setStart returns ") + std::to_string(res));
                so = want;
                a = q;
                c.check(x->isInitialized() == so, "init", "isInitialized");
            }
            else if (op == 1)
            {
                bool slow = s.chance(0.06);
                h += slow ? " plan with timeout" : " plan";
                c.describe(h);
                if (slow) { x->setMaxCycles(2000000000u); x->setPlanningTimeout((float)(20 + s.draw(30))); }
                bool res = x->plan(true);
                if (slow) { x->setMaxCycles(maxC); x->setPlanningTimeout(std::numeric_limits<float>::max()); }
                c.check(p.w.r->getUpdateVisualizationStatus() == vis, "vis", "visualisation update of the robot has changed");
                if (!so) { c.check(!res, "notReady", "planning without start succeeds"); continue; }
                c.check(slow || x->getNrOfCycles() <= maxC, "cycles", std::to_string(x->getNrOfCycles()) + " cycles");
                c.check(x->getPlanningTimeMS() >= 0 && (!slow || res || x->getPlanningTimeMS() >= 15), "time", "planning time " + num(x->getPlanningTimeMS()));
                auto sol = x->getSolution();
                c.check(res == (bool)sol, "solution", res ? "no solution although planning was successful" : "a solution although planning failed");
                if (res)
                {
                    found++;
                    auto pts = points(sol);
                    c.check(!pts.empty() && exact(a, sol->getPoint(0)), "start", "the solution starts at " + show(pts[0]) + " instead of " + show(a));
                    judge(c, p, pts, "solution");
                    if (!stale)
                    {
                        M4 tcp = w.at(pts.back(), "tcp");
                        bool hit = false;
                        std::string why;
                        for (auto& g : gs) { double r, t = poseErr(tcp, M4(d4(w.obj->getGlobalPose()) * inv(g.toObj)), r); why += " " + num(t) + "mm " + num(r); if (t <= tp * 1.01 + 0.05 && r <= tr * 1.01 + 2e-3) hit = true; }
                        c.check(hit, "goal", "the solution ends away from all grasps:" + why + ", tolerances " + num(tp) + " " + num(tr));
                        c.label("found");
                    }
                }
                else
                {
                    c.label(slow ? "timeout" : "failed");
                    if (easy && prob >= 0.2 && prob < 1 && !slow && !stale) c.fail("incomplete", "no motion to a grasp although nothing is in the way");
                }
            }
            else if (op == 2)
            {
                h += " reset";
                bool move = s.chance(0.5);
                if (move) { h += " moved"; place(s, w); easy = false; }
                c.describe(h);
                x->reset();
                stale = false;
                so = false;
                c.check(!x->isInitialized() && !x->getSolution() && x->getTree()->getNrOfNodes() == 0 && x->getTree2()->getNrOfNodes() == 0, "reset", "planner is not reset");
            }
            else if (op == 3)
            {
                bool thrown = false;
                try { x->setGoal(vf(freeConfig(s, p))); } catch (VirtualRobotException&) { thrown = true; }
                c.check(thrown, "setGoal", "setGoal is accepted");
            }
            else if (op == 4) { x->printConfig(s.chance(0.5)); if (!easy) { maxC = 1 + (unsigned)s.draw(250); x->setMaxCycles(maxC); } }
            else
            {
                // the robot and the hand are moved by someone else
                p.w.r->setJointValues(p.w.rns, vf(config(s, d)));
            }
        }
        c.check(set->getSize() == gs.size(), "graspSet", "the grasp set has changed");
        c.nontrivial(found > 0);
    }

    // quality: grows with the number of contacts; depends on where they are
    class Measure : public BasicGraspQualityMeasure
    {
    public:
        Measure(SceneObjectPtr o, double bias, unsigned need) : BasicGraspQualityMeasure(o), bias(bias), need(need) {}
        void setContactPoints(const EndEffector::ContactInfoVector& v) override { BasicGraspQualityMeasure::setContactPoints(v); given = v; }
        bool calculateGraspQuality() override
        {
            q = score(given);
            valid = given.size() >= need;
            calls++;
            return true;
        }
        float getGraspQuality() override { return q; }
        bool isValid() override { return valid; }
        float score(const EndEffector::ContactInfoVector& v) const
        {
            V3 m = V3::Zero();
            for (auto& x : v) m += x.contactPointObstacleLocal.cast<double>() / v.size();
            return (float)std::max(0., std::min(1., 0.1 * v.size() + bias * std::sin(m[0] / 10)));
        }
        double bias;
        unsigned need;
        EndEffector::ContactInfoVector given;
        float q = 0;
        bool valid = false;
        int calls = 0;
    };
    struct Open : public GraspRrt
    {
        using GraspRrt::GraspRrt;
        double steps() const { return cartSamplingPosStepSize; }
        double oriSteps() const { return cartSamplingOriStepSize; }
    };
    bool hit(const SceneObjectPtr& a, const SceneObjectPtr& b) { return CollisionChecker::getGlobalCollisionChecker()->checkCollision(a->getCollisionModel(), b->getCollisionModel()); }
    double triDist(const V3& q, const V3& a, const V3& b, const V3& d)
    {
        V3 n = (b - a).cross(d - a);
        double A = n.norm();
        if (A > 1e-12)
        {
            n /= A;
            V3 x = q - n * n.dot(q - a);
            if ((b - a).cross(x - a).dot(n) >= 0 && (d - b).cross(x - b).dot(n) >= 0 && (a - d).cross(x - d).dot(n) >= 0) return std::fabs(n.dot(q - a));
        }
        double m = 1e30;
        const V3* e[4] = {&a, &b, &d, &a};
        for (int i = 0; i < 3; i++)
        {
            V3 u = *e[i + 1] - *e[i];
            double t = u.squaredNorm() > 0 ? std::max(0., std::min(1., u.dot(q - *e[i]) / u.squaredNorm())) : 0;
            m = std::min(m, (q - *e[i] - t * u).norm());
        }
        return m;
    }
    double surface(const SceneObjectPtr& o, const V3& q)
    {
        V3 l = (inv(d4(o->getGlobalPose())) * Eigen::Vector4d(q[0], q[1], q[2], 1)).head<3>();
        auto m = o->getCollisionModel()->getTriMeshModel();
        double r = 1e30;
        for (auto& f : m->faces) r = std::min(r, triDist(l, m->vertices[f.id1].cast<double>(), m->vertices[f.id2].cast<double>(), m->vertices[f.id3].cast<double>()));
        return r;
    }

    void graspRrt(Src& s, pbt::Ctx& c)
    {
        GW w = gworld(s, c, s.chance(0.9), 6, 0.35);
        auto& p = w.p;
        auto& d = p.w.d;
        SceneObjectSetPtr others;
        std::vector<ObstaclePtr> handObs;
        if (s.chance(0.4))
        {
            others.reset(new SceneObjectSet("others"));
            for (auto& o : p.obs) { if (o != w.obj || s.chance(0.5)) others->addSceneObject(o); }
        }
        unsigned need = (unsigned)s.draw(4);
        boost::shared_ptr<Measure> m(new Measure(w.obj, s.chance(0.5) ? 0 : s.uniform(0, 0.4), need));
        double prob = s.uniform(0.05, 0.9);
        if (s.chance(0.1)) prob = s.chance(0.5) ? 0 : 1;
        double minScore = s.uniform(0.01, 0.5);
        boost::shared_ptr<Open> x(new Open(p.w.cs, w.e, w.obj, m, others, (float)prob, (float)minScore));
        int minContacts = 3;
        if (s.chance(0.7)) { minContacts = 1 + (int)s.draw(3); x->setMinGraspContacts(minContacts); }
        std::string h = std::to_string(d.n()) + " joints, " + std::to_string(w.h.f.size()) + " fingers, " + std::to_string(p.w.rec->region.balls.size()) + " regions " + std::to_string(p.obs.size()) + " obstacles, hypotheses " + num(prob) + ", score " + num(minScore) + ", " + std::to_string(minContacts) + " contacts:";
        PRNG64Bit().seed(s.draw(1000000));
        srand((unsigned)s.draw(1000000));
        bool vis = s.chance(0.5);
        p.w.r->setUpdateVisualization(vis);
        bool so = false, fresh = true;
        VX a;
        unsigned maxC = 10 + (unsigned)s.draw(150);
        x->setMaxCycles(maxC);
        int n = 2 + (int)s.draw(5), found = 0, grasps = 0;
        bool near = s.chance(0.65);
        EndEffectorPtr te = p.twin->getEndEffector("hand");
        for (int i = 0; i < n; i++)
        {
            int op = i == 0 ? 0 : i == 1 ? 1 : (int)s.weighted({2, 4, 1, 0.5, 1});
            if (op == 0)
            {
                VX q = near && p.inside(w.seen) && p.ok(w.seen) ? w.seen : freeConfig(s, p);
                if (s.chance(0.1)) q = config(s, d);
                if (s.chance(0.07)) { int k = (int)s.draw(d.n()); q[k] = fl(d.hi[k] + s.uniform(0.01, 1)); }
                bool want = p.inside(q) && p.ok(q), res = x->setStart(vf(q));
                h += " start " + show(q) + (want ? "" : "!");
                c.describe(h);
                c.check(res == want, "accept", std::string("setStart returns ") + std::to_string(res));
                so = want;
                a = q;
                fresh = true;
            }
            else if (op == 1)
            {
                bool slow = s.chance(0.05);
                h += slow ? " plan with timeout" : " plan";
                c.describe(h);
                if (slow) { x->setMaxCycles(2000000000u); x->setPlanningTimeout((float)(20 + s.draw(30))); }
                size_t before = fresh ? 0 : x->getNrOfGraspInfoResults(); // grasps of earlier calls with the same start are kept
                bool res;
                try { res = x->plan(true); } catch (VirtualRobotException&) { c.label("no nodes left"); return; } // nodes of former trees stay in use
                if (slow) { x->setMaxCycles(maxC); x->setPlanningTimeout(std::numeric_limits<float>::max()); }
                c.check(p.w.r->getUpdateVisualizationStatus() == vis, "vis", "visualisation update of the robot has changed");
                if (!so) { c.check(!res, "notReady", "planning without start succeeds"); continue; }
                c.check(slow || x->getNrOfCycles() <= maxC, "cycles", std::to_string(x->getNrOfCycles()) + " cycles, at most " + std::to_string(maxC));
                c.check(x->getPlanningTimeMS() >= 0, "time", "negative planning time");
                auto sol = x->getSolution();
                c.check(res == (bool)sol, "solution", res ? "no solution although planning was successful" : "a solution although planning failed");
                GraspRrt::GraspInfoVector infos;
                x->getGraspInfoResult(infos);
                c.check(infos.size() >= before, "lostGrasps", "grasps of an earlier call are lost");
                fresh = false;
                c.check((int)infos.size() == x->getNrOfGraspInfoResults(), "count", "number of grasps");
                GraspRrt::GraspInfo gi;
                c.check(!x->getGraspInfoResult(-1, gi) && !x->getGraspInfoResult((int)infos.size(), gi), "index", "grasp with an index out of range");
                auto tree = x->getTree();
                // the tree
                auto nodes = tree->getNodes();
                c.check(!nodes.empty() && exact(a, nodes[0]->configuration), "root", "the tree does not start at the start");
                for (size_t k = 1; k < nodes.size(); k++)
                {
                    auto par = tree->getNode(nodes[k]->parentID);
                    c.check((bool)par, "treeParent", "node without parent");
                    std::vector<VX> e; e.push_back(par->configuration.cast<double>()); e.push_back(nodes[k]->configuration.cast<double>());
                    judge(c, p, e, "tree");
                }
                for (size_t k = 0; k < infos.size(); k++)
                {
                    grasps++;
                    auto& g = infos[k];
                    std::string what = "grasp " + std::to_string(k);
                    c.check(x->getGraspInfoResult((int)k, gi) && gi.rrtNodeId == g.rrtNodeId && gi.graspScore == g.graspScore, "index", what + " differs when accessed by index");
                    auto node = tree->getNode(g.rrtNodeId);
                    c.check((bool)node, "node", what + " belongs to no node of the tree");
                    VX q = node->configuration.cast<double>();
                    c.check(g.graspScore > 0 && (int)g.contacts.size() >= minContacts && g.contacts.size() >= need, "contacts", what + " has score " + num(g.graspScore) + " and " + std::to_string(g.contacts.size()) + " contacts");
                    c.check(std::fabs(g.graspScore - m->score(g.contacts)) < 1e-6, "score", what + " has score " + num(g.graspScore) + " instead of " + num(m->score(g.contacts)));
                    M4 tcp = w.at(q, "tcp"), T = inv(tcp) * d4(w.obj->getGlobalPose());
                    c.check((T - d4(g.handToObjectTransform)).cwiseAbs().maxCoeff() < 0.05, "transform", what + ": pose of the object in the hand is wrong");
                    double dist = surface(w.obj, V3(w.at(q, "gcp0").block<3, 1>(0, 3)));
                    c.check(std::fabs(dist - g.distanceToObject) < 1.2, "distance", what + ": distance " + num(g.distanceToObject) + " instead of " + num(dist));
                    // closing the hand there gives these contacts
                    SceneObjectSetPtr all(new SceneObjectSet("all"));
                    if (others) for (auto& o : others->getSceneObjects()) all->addSceneObject(o);
                    if (!all->hasSceneObject(w.obj)) all->addSceneObject(w.obj);
                    auto ci = te->closeActors(all);
                    EndEffector::ContactInfoVector mine;
                    for (auto& y : ci) if (y.obstacle == w.obj) mine.push_back(y);
                    p.twin->setJointValues(w.fingers);
                    c.check(mine.size() == g.contacts.size(), "same", what + " has " + std::to_string(g.contacts.size()) + " contacts, closing the hand gives " + std::to_string(mine.size()));
                    for (size_t y = 0; y < mine.size(); y++)
                    {
                        auto& u = g.contacts[y];
                        c.check(u.obstacle == w.obj, "obstacle", what + ": contact with another object");  // parallel faces touch at many points: only the distance is compared
                        c.check(u.robotNode->getName() == mine[y].robotNode->getName() && std::fabs(u.distance - mine[y].distance) < 2, "same", what + ": contact " + std::to_string(y) + " differs from the one when the hand is closed there");
                    }
                    c.check(k < before || g.graspScore < minScore || (res && k + 1 == infos.size()), "missed", what + " with score " + num(g.graspScore) + " is good enough, planning went on");
                }
                if (res)
                {
                    found++;
                    auto pts = points(sol);
                    c.check(exact(a, sol->getPoint(0)), "start", "the solution starts at " + show(pts[0]) + " instead of " + show(a));
                    judge(c, p, pts, "solution");
                    c.check(infos.size() > before && infos.back().graspScore >= minScore, "noGrasp", "planning succeeded without a grasp");
                    auto node = tree->getNode(infos.back().rrtNodeId);
                    c.check(exact(pts.back(), node->configuration), "goal", "the solution ends at " + show(pts.back()) + ", not at the configuration of the grasp");
                    c.label("found");
                }
                else c.label(slow ? "timeout" : infos.empty() ? "nothing" : "poor grasps");
                // the hand is as it was
                for (auto& f : w.fingers) c.check(std::fabs(p.w.r->getRobotNode(f.first)->getJointValue() - f.second) < 1e-3, "hand", "joint " + f.first + " of the hand is at " + num(p.w.r->getRobotNode(f.first)->getJointValue()) + " after planning, before at " + num(f.second));
            }
            else if (op == 2)
            {
                h += " reset";
                if (s.chance(0.5)) { h += " moved"; place(s, w); }
                c.describe(h);
                x->reset();
                so = false;
                c.check(!x->isInitialized() && !x->getSolution() && x->getTree()->getNrOfNodes() == 0, "reset", "planner is not reset");
                c.check(x->getNrOfGraspInfoResults() == 0, "resetGrasps", "grasps of the last query after a reset");
            }
            else if (op == 3)
            {
                bool thrown = false;
                try { x->setGoal(vf(freeConfig(s, p))); } catch (VirtualRobotException&) { thrown = true; }
                c.check(thrown, "setGoal", "setGoal is accepted");
            }
            else { maxC = 1 + (unsigned)s.draw(150); x->setMaxCycles(maxC); h += " cycles " + std::to_string(maxC); }
        }
        if (grasps) c.label("grasps");
        c.nontrivial(grasps > 0);
    }

    // the pose to approach, and one step towards a pose
    void approach(Src& s, pbt::Ctx& c)
    {
        GW w = gworld(s, c, false, 7, 0);
        auto& p = w.p;
        auto& d = p.w.d;
        boost::shared_ptr<Measure> m(new Measure(w.obj, 0, 1));
        Open x(p.w.cs, w.e, w.obj, m);
        VX q = s.chance(0.5) ? w.seen : config(s, d);
        M4 g = w.at(q, "gcp0");
        V3 gp = g.block<3, 1>(0, 3);
        bool axis = s.chance(0.25);
        if (axis)
        {
            // straight in front of or behind the hand
            double away = s.uniform(60, 200) * (s.chance(0.5) ? 1 : -1);
            M4 o = g * mk(s.chance(0.5) ? M3::Identity() : rot(s), V3(0, 0, away));
            w.obj->setGlobalPose(f4(fl4(o)));
        }
        double dist = surface(w.obj, gp);
        Eigen::Matrix4f st;
        c.describe("hand at " + show(VX(gp)) + " object at " + show(VX(d4(w.obj->getGlobalPose()).block<3, 1>(0, 3))) + " distance " + num(dist));
        if (x.calculateGlobalGraspPose(vf(q), st))
        {
            M4 t = d4(st);
            V3 at = t.block<3, 1>(0, 3);
            c.check(st.allFinite(), "finite", "the pose to approach is not finite");
            if (dist > 2)
            {
                c.check(surface(w.obj, at) < 0.05, "surface", "the pose to approach is " + num(surface(w.obj, at)) + " from the surface");
                c.check((at - gp).norm() < dist + 1.8, "nearest", "the pose to approach is " + num((at - gp).norm()) + " from the hand, the object " + num(dist));
                V3 dir = (at - gp).normalized(), z = t.block<3, 1>(0, 2), z0 = g.block<3, 1>(0, 2);
                double R;
                poseErr(g, t, R);
                c.check((t.block<3, 3>(0, 0).transpose() * t.block<3, 3>(0, 0) - M3::Identity()).cwiseAbs().maxCoeff() < 1e-4 && t.block<3, 3>(0, 0).determinant() > 0, "rigid", "the pose to approach is not rigid");
                double off = std::acos(std::max(-1., std::min(1., z.dot(dir)))), turn = std::acos(std::max(-1., std::min(1., z0.dot(dir))));
                c.check(off < 3e-3 + 0.2 / dist, "direction", "the hand is to approach " + num(off) + " away from the direction of the object (before: " + num(turn) + ")");
                c.check(std::fabs(R - turn) < 5e-3 + 0.2 / dist, "turn", "the hand is turned by " + num(R) + " for a change of direction of " + num(turn));
                c.label(axis ? "on the axis" : "beside");
                c.nontrivial();
            }
        }
        else c.check(dist < 2, "fails", "no pose to approach");
        // a step
        c.check(x.setStart(vf(q)) && x.init(), "init", "initialization failed");
        p.w.r->setJointValues(p.w.rns, vf(q));
        M4 goal = g * (s.chance(0.5) ? pose(s, 30) : mk(Eigen::AngleAxisd(s.uniform(0, 0.3), unit(s)).matrix(), V3(s.uniform(-15, 15), s.uniform(-15, 15), s.uniform(-15, 15))));
        if (s.chance(0.2)) goal = g;
        if (s.chance(0.1)) goal.block<3, 1>(0, 3) = gp;
        Eigen::VectorXf sv;
        auto r = x.createWorkSpaceSamplingStep(f4(g), f4(goal), sv);
        VX nq = sv.cast<double>();
        c.check(nq.size() == d.n() && sv.allFinite(), "stepFinite", "the step is " + show(nq));
        c.check((r == GraspRrt::eJointBoundaryViolation) == !p.inside(nq) && (r == GraspRrt::eMovedOneStep) == p.inside(nq), "stepState", "result " + std::to_string(r) + " for " + show(nq));
        // expected: the (limited) motion in the least squares sense
        VX e(6);
        e.head(3) = goal.block<3, 1>(0, 3) - gp;
        Eigen::AngleAxisd aa(M3(goal.block<3, 3>(0, 0) * g.block<3, 3>(0, 0).transpose()));
        if (aa.angle() > 3.1) c.discard();
        e.tail(3) = aa.axis() * aa.angle();
        double f = std::min(1., std::min(x.steps() / std::max(1e-9, e.head(3).norm()), x.oriSteps() / std::max(1e-9, e.tail(3).norm())));
        e *= f;
        int gcp = 0;
        for (size_t i = 0; i < w.h.sp.n.size(); i++) if (w.h.sp.n[i].name == "gcp0") gcp = (int)i;
        Eigen::MatrixXd J(6, d.n());
        for (int i = 0; i < d.n(); i++)
        {
            double hh = 1e-4;
            auto fk = [&](double v) {
                std::vector<double> all(w.h.sp.n.size(), 0.);
                for (int k = 0; k < d.n(); k++) all[p.w.j[k]] = q[k];
                all[p.w.j[i]] = v;
                return w.h.sp.fk(d4(p.w.r->getGlobalPose()), all)[gcp];
            };
            M4 A = fk(q[i] - hh), B = fk(q[i] + hh);
            J.col(i).head(3) = V3(B.block<3, 1>(0, 3) - A.block<3, 1>(0, 3)) / (2 * hh);
            Eigen::AngleAxisd ab(M3(B.block<3, 3>(0, 0) * A.block<3, 3>(0, 0).transpose()));
            J.col(i).tail(3) = V3(ab.axis() * ab.angle()) / (2 * hh);
        }
        Eigen::JacobiSVD<Eigen::MatrixXd> svd(J, Eigen::ComputeThinU | Eigen::ComputeThinV);
        auto sv2 = svd.singularValues();
        if (sv2[sv2.size() - 1] < 0.1 || sv2[0] / sv2[sv2.size() - 1] > 5e3) { c.label("singular"); return; }
        VX want = svd.solve(e), got = nq - q;
        double tol = 1e-4 + 0.03 * want.norm() + 1e-3 / sv2[sv2.size() - 1];
        c.check((want - got).norm() < tol, "step", "the step is " + show(got) + " instead of " + show(want) + ", motion " + show(e) + " limited by " + num(f));
        c.label("step");
    }

    void sphere(Src& s, pbt::Ctx& c)
    {
        int steps = 1 + (int)s.draw(3);
        ApproachDiscretization a(fl(s.uniform(10, 300)), steps);
        // the sphere: same generator
        SphereApproximator gen_;
        SphereApproximator::SphereApproximation sp;
        gen_.generateGraph(sp, SphereApproximator::eOctahedron, steps, 100);
        M4 P = s.chance(0.3) ? M4::Identity() : fl4(pose(s, 1000));
        if (s.chance(0.7)) a.setGlobalPose(f4(P)); else P = M4::Identity();
        V3 centre = P.block<3, 1>(0, 3);
        M4 gp = d4(a.getGlobalPose());
        c.check((gp - mk(M3::Identity(), centre)).cwiseAbs().maxCoeff() == 0, "pose", "pose of the sphere");
        int nf = (int)sp.faces.size();
        std::map<int, std::vector<CSpaceNodePtr>> model;
        std::map<CSpaceNodePtr, int> face;
        std::map<int, int> count;
        auto face_ = [&](const V3& dir, int id) {
            auto& f = sp.faces[id];
            M3 M;
            M << sp.vertices[f.id1].cast<double>(), sp.vertices[f.id2].cast<double>(), sp.vertices[f.id3].cast<double>();
            V3 l = M.inverse() * dir.normalized() * 100;
            return l.minCoeff();
        };
        int n = 1 + (int)s.draw(60), ids = 0, taken = 0;
        std::string h = std::to_string(nf) + " faces:";
        for (int i = 0; i < n; i++)
        {
            int op = (int)s.weighted({6, 1, 1, 3, 0.2, 1});
            auto point = [&] {
                V3 u = unit(s);
                if (s.chance(0.15)) for (int k = 0; k < 3; k++) if (s.chance(0.5)) u[k] = 0;
                if (u.norm() < 1e-3) u = V3(0, 0, s.chance(0.5) ? 1 : -1);
                u.normalize();
                return V3(centre + u * (s.chance(0.1) ? s.uniform(0.1, 1) : s.uniform(10, 500)));
            };
            if (op == 0)
            {
                V3 q = point();
                Eigen::Vector3f qf = q.cast<float>();
                V3 dir = qf.cast<double>() - centre;
                h += " add " + show(VX(dir));
                c.describe(h);
                int f = a.getNearestFaceIdVec(qf), v = a.getNearestVertexIdVec(qf);
                c.check(v >= 0 && v < (int)sp.vertices.size(), "vertex", "vertex " + std::to_string(v));
                double best = -2, mine = sp.vertices[v].cast<double>().normalized().dot(dir.normalized());
                for (auto& x : sp.vertices) best = std::max(best, x.cast<double>().normalized().dot(dir.normalized()));
                c.check(mine > best - 1e-4, "nearest", "vertex " + std::to_string(v) + " is not the nearest one");
                c.check(f >= 0 && f < nf, "face", "no face for direction " + show(VX(dir)));
                c.check(face_(dir, f) > -1e-3, "wrongFace", "face " + std::to_string(f) + " is not in direction " + show(VX(dir)));
                Eigen::Matrix4f pm = f4(mk(M3::Identity(), qf.cast<double>()));
                c.check(a.getNearestFaceId(pm) == f && a.getNearestVertexId(pm) == v, "pose", "face or vertex of a pose");
                CSpaceNodePtr node(new CSpaceNode());
                node->ID = ids++;
                if (s.chance(0.2)) { a.addCSpaceNode(f, node); } else a.addCSpaceNode(qf, node);
                if (s.chance(0.1)) a.addCSpaceNode(qf, node); // once more
                model[f].push_back(node);
                count.emplace(f, 0);
                face[node] = f;
            }
            else if (op == 1 || op == 2)
            {
                // take one away
                if (face.empty()) continue;
                auto it = face.begin();
                std::advance(it, s.draw(face.size()));
                auto node = it->first;
                int f = it->second;
                if (op == 2) { CSpaceNodePtr other(new CSpaceNode()); other->ID = -1; a.removeCSpaceNode(f, other); continue; }
                a.removeCSpaceNode(f, node);
                auto& v = model[f];
                v.erase(std::find(v.begin(), v.end(), node));
                face.erase(node);
            }
            else if (op == 3)
            {
                h += " get";
                c.describe(h);
                int loops = s.chance(0.3) ? 5000 : 1 + (int)s.draw(40);
                auto node = a.getGoodRatedNode(loops);
                if (node)
                {
                    taken++;
                    c.check(face.count(node), "unknown", "a node that is not there (any more) is returned");
                    int f = face[node];
                    if (loops == 5000) { int least = 1 << 30; for (auto& m : model) if (!m.second.empty()) least = std::min(least, count[m.first]); c.check(count[f] <= least, "rated", "face " + std::to_string(f) + " was used " + std::to_string(count[f]) + " times, others only " + std::to_string(least)); }
                    count[f]++;
                    auto& v = model[f];
                    v.erase(std::find(v.begin(), v.end(), node));
                    face.erase(node);
                }
                else if (loops == 5000) c.check(face.empty(), "lost", "no node although there are " + std::to_string(face.size()));
            }
            else if (op == 4) { a.clearCSpaceNodeMapping(); model.clear(); face.clear(); count.clear(); h += " clear"; }
            else
            {
                // invalid calls
                CSpaceNodePtr node(new CSpaceNode());
                node->ID = -2;
                int f = s.chance(0.5) ? -1 - (int)s.draw(3) : nf + (int)s.draw(3);
                a.addCSpaceNode(f, node);
                a.removeCSpaceNode(f, node);
                a.addCSpaceNode(Eigen::Vector3f(1, 2, 3), CSpaceNodePtr());
            }
        }
        // everything comes out exactly once
        size_t left = face.size();
        while (auto node = a.getGoodRatedNode(20000))
        {
            c.check(face.erase(node) == 1, "unknown", "a node that is not there (any more) is returned");
            left--;
        }
        c.check(left == 0, "lost", std::to_string(left) + " nodes are never returned");
        c.nontrivial(ids > 3);
    }
}

int main(int argc, char** argv)
{
    pbt::Suite suite;
    suite.property = "P32";
    suite.rule = "ikRrt: a motion was found; graspRrt: a grasp was found; approach: hand away from the object; sphere: more than 3 nodes";
    suite.add("sphere", 1500, 40000, sphere);
    suite.add("approach", 300, 10000, approach);
    suite.add("ikRrt", 120, 3000, ikRrt);
    suite.add("graspRrt", 200, 4000, graspRrt);
    return pbt::run(argc, argv, suite);
}
