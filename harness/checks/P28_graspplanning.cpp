// libs: VirtualRobot Saba GraspStudio
// P28: approach movements, grasp planner, pose uncertainty
#include "common/handgen.h"
#include "common/shapes.h"
#include <GraspPlanning/ApproachMovementSurfaceNormal.h>
#include <GraspPlanning/GraspPlanner/GenericGraspPlanner.h>
#include <GraspPlanning/GraspQuality/GraspEvaluationPoseUncertainty.h>
#include <GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpace.h>
#include <VirtualRobot/Grasping/Grasp.h>
#include <VirtualRobot/Grasping/GraspSet.h>
#include <VirtualRobot/RobotConfig.h>
#include <VirtualRobot/Random.h>
#include <VirtualRobot/MathTools.h>
#include <chrono>
using namespace VirtualRobot;
using namespace GraspStudio;
using namespace gen;

namespace
{
    typedef EndEffector::ContactInfoVector Contacts;
    std::map<std::string, float> values(const RobotPtr& r) { std::map<std::string, float> m; for (auto& n : r->getRobotNodes()) m[n->getName()] = n->getJointValue(); return m; }
    bool hits(const EndEffectorPtr& e, const SceneObjectPtr& o) { return e->getCollisionChecker()->checkCollision(o->getCollisionModel(), e->createSceneObjectSet()); }

    // answers by the contacts alone
    class Quality : public GraspQualityMeasure
    {
    public:
        Quality(SceneObjectPtr o, double scale) : GraspQualityMeasure(o), scale(scale) {}
        static double rate(const Contacts& c, double scale)
        {
            if (c.empty()) return 0;
            double v = 0;
            for (auto& x : c) v += std::fabs(d3(x.contactPointObstacleLocal).dot(V3(0.013, 0.021, 0.034))) + 0.1;
            return fl((v - std::floor(v)) * scale);
        }
        static bool closure(const Contacts& c) { return c.size() >= 3; }
        void setContactPoints(const Contacts& c) override { now = c; sets++; }
        float getGraspQuality() override { return (float)rate(now, scale); }
        bool isGraspForceClosure() override { return closure(now); }
        bool calculateObjectProperties() override { return true; }
        bool calculateGraspQuality() override { return true; }
        Contacts now;
        double scale;
        int sets = 0;
    };

    struct World
    {
        Hand h;
        RobotPtr r;
        EndEffectorPtr e;
        ObstaclePtr ob;
        M4 palm; // pose of the palm for which the object was placed
        std::string str;
    };
    World world(Src& s, bool modes = false)
    {
        World w;
        w.h = hand(s, false, modes, true);
        w.r = RobotIO::createRobotFromString(w.h.xml, "");
        w.r->setGlobalPose(f4(fl4(pose(s, 500))));
        w.e = w.r->getEndEffector("hand");
        w.palm = s.chance(0.3) ? fl4(pose(s, 500)) : d4(w.r->getRobotNode("palm")->getGlobalPose());
        w.ob = objectFor(s, w.h, w.palm);
        w.str = w.h.xml;
        srand((unsigned)s.draw(100000));
        PRNG64Bit().seed(s.draw(100000));
        return w;
    }
    struct State { M4 r, o; std::map<std::string, float> q; };
    State state(const World& w) { return State{d4(w.r->getGlobalPose()), d4(w.ob->getGlobalPose()), values(w.r)}; }
    void unchanged(pbt::Ctx& c, const World& w, const State& b, const std::string& what)
    {
        State a = state(w);
        c.check((a.r - b.r).cwiseAbs().maxCoeff() < 1e-2, "robotPose", what + " moves the robot by " + num(posDist(a.r, b.r)));
        c.check((a.o - b.o).cwiseAbs().maxCoeff() < 1e-4, "objectPose", what + " moves the object by " + num(posDist(a.o, b.o)));
        for (auto& q : b.q) c.check(std::fabs(a.q.at(q.first) - q.second) < 1e-4, "robotConfig", what + " moves joint " + q.first + " from " + num(q.second) + " to " + num(a.q.at(q.first)));
    }

    // distance of a point to a mesh, and the angle to the normals stored for the triangles there
    double toMesh(const TriMeshModelPtr& m, const std::vector<Tri>& T, const V3& p, const V3& n, double* angle)
    {
        double best = 1e30;
        *angle = 10;
        for (auto& t : T) best = std::min(best, pointTriDist(p, t));
        for (size_t i = 0; i < T.size(); i++)
            if (pointTriDist(p, T[i]) < best + 1e-2) *angle = std::min(*angle, std::acos(std::min(1., std::max(-1., d3(m->faces[i].normal).normalized().dot(n)))));
        return best;
    }

    void approach(Src& s, pbt::Ctx& c)
    {
        World w = world(s);
        std::string pre = w.h.pre.empty() || s.chance(0.4) ? "" : w.h.pre.begin()->first;
        double retreat = s.chance(0.6) ? 0 : s.uniform(1, 80);
        bool area = s.chance(0.3);
        M4 P = s.chance(0.3) ? M4::Identity() : fl4(pose(s, 400));
        w.ob->setGlobalPose(f4(P));
        auto tm = w.ob->getCollisionModel()->getTriMeshModel();
        auto local = triangles(tm);
        if (local.size() > 800) c.discard();
        c.describe("preshape '" + pre + "' retreat " + num(retreat) + (area ? " by area" : "") + " object at " + num(P(0, 3)) + " " + num(P(1, 3)) + " " + num(P(2, 3)) + " " + w.str);
        ApproachMovementSurfaceNormal a(w.ob, w.e, pre, (float)retreat, area);
        c.check(a.getObject() == w.ob && a.getEEFOriginal() == w.e && a.getEEF() && a.getEEF() != w.e && a.getEEFRobotClone() && a.getEEFRobotClone() != w.r, "parts", "object, end effector or clone");
        auto e = a.getEEF();
        bool ownTcp = !pre.empty() && w.e->getPreshape(pre)->getTCP();
        auto frame = e->getRobot()->getRobotNode(ownTcp ? w.e->getPreshape(pre)->getTCP()->getName() : w.e->getGCP()->getName());
        c.require(!!frame);
        State st = state(w);
        // the frame that is moved
        M4 T = fl4(pose(s, 400));
        a.setEEFPose(f4(T));
        samePose(c, frame->getGlobalPose(), T, 5e-3, 1e-4, "setPose", "pose of the hand");
        samePose(c, a.getEEFPose(), T, 5e-3, 1e-4, "getPose", "getEEFPose");
        V3 d = vec(s, 50);
        a.updateEEFPose(f3(d));
        M4 T2 = T; T2.block<3, 1>(0, 3) += d;
        samePose(c, a.getEEFPose(), T2, 1e-2, 1e-4, "updatePosition", "pose of the hand after a relative movement");
        M4 D = fl4(pose(s, 30));
        a.updateEEFPose(f4(D));
        samePose(c, a.getEEFPose(), M4(D * T2), 2e-2, 1e-3, "updatePose", "pose of the hand after applying a pose");
        // open
        a.getEEF()->closeActors(w.ob);
        a.openHand();
        for (size_t i = 0; i < w.h.f.size(); i++)
            for (size_t j = 0; j < w.h.f[i].nodes.size(); j++)
            {
                auto& n = w.h.sp.n[w.h.f[i].nodes[j]];
                double v = e->getRobot()->getRobotNode(n.name)->getJointValue();
                if (!pre.empty()) c.near(v, w.h.pre[pre][w.h.f[i].nodes[j]], 1e-4 * std::max(1., std::fabs(v)), "preshape", "joint " + n.name + " of the preshape");
            }
        int rounds = 1 + (int)s.draw(4);
        for (int k = 0; k < rounds; k++)
        {
            Eigen::Vector3f p, n;
            double angle;
            c.check(a.getPositionOnObject(p, n), "position", "no position on the object");
            c.near(d3(n).norm(), 1, 1e-4, "unit", "length of the normal");
            c.check(toMesh(tm, local, d3(p), d3(n), &angle) < 1e-2, "surface", "position is not on the surface of the object");
            c.check(angle < 1e-2, "normal", "normal is " + num(angle) + " rad away from the normal of the surface");
            M4 before = d4(a.getEEFPose());
            M4 got = d4(a.createNewApproachPose());
            samePose(c, a.getEEFPose(), before, 1e-2, 1e-3, "restored", "pose of the hand after creating an approach pose");
            c.check(rigid(got, 1e-4), "rigid", "approach pose is no rigid transformation");
            V3 dir = d3(a.getApproachDirGlobal());
            c.near(dir.norm(), 1, 1e-4, "dirUnit", "length of the approach direction");
            c.check((V3(got.block<3, 1>(0, 2)) + dir).norm() < 1e-3, "aligned", "the hand does not look against the approach direction");
            // a point of the surface is in front of the hand
            auto world = moved(local, P);
            V3 q = trans(got);
            double best = 1e30, bt = 0;
            for (size_t i = 0; i < world.size(); i++)
            {
                auto& t = world[i];
                V3 m = (t.b - t.a).cross(t.c - t.a), n0 = rotOf(P) * d3(tm->faces[i].normal).normalized();
                if (m.norm() < 1e-9 || n0.dot(dir) < 1 - 1e-6) continue;
                m.normalize();
                double x = m.dot(q - t.a) / m.dot(dir);
                double off = pointTriDist(q - x * dir, t);
                // allow the smallest distance among the possible triangles
                if (off < 0.02 + 1e-3 * std::fabs(x) && x > -0.02 && x < best) { best = x; bt = x; }
            }
            c.check(best < 1e29, "onLine", "the approach pose is not above a point of the surface with the normal of the approach direction");
            // free
            a.setEEFPose(f4(got));
            if (bt < 900) c.check(!hits(e, w.ob), "free", "hand collides with the object at the approach pose, " + num(bt) + " away from the surface");
            if (retreat == 0 && bt < 900)
            {
                if (bt > 1.5)
                {
                    M4 b = got; b.block<3, 1>(0, 3) -= 1.01 * dir;
                    M4 b2 = got; b2.block<3, 1>(0, 3) -= 0.99 * dir;
                    a.setEEFPose(f4(b)); bool h1 = hits(e, w.ob);
                    a.setEEFPose(f4(b2)); bool h2 = hits(e, w.ob);
                    a.setEEFPose(f4(fl4(M4(got - (M4() << M3::Zero(), dir, 0, 0, 0, 0).finished())))); bool h3 = hits(e, w.ob);
                    c.check(h1 || h2 || h3, "closest", "the hand is " + num(bt) + " away from the surface, although one step closer is free");
                    c.label("moved away");
                }
            }
            a.setEEFPose(f4(before));
        }
        unchanged(c, w, st, "creating approach poses");
        a.setEEFToRandomApproachPose();
        V3 dir = d3(a.getApproachDirGlobal());
        c.check((V3(d4(a.getEEFPose()).block<3, 1>(0, 2)) + dir).norm() < 1e-3, "randomAligned", "the hand does not look against the approach direction");
        if (ownTcp) c.label("preshape with TCP");
        c.nontrivial(rounds > 0);
    }

    // faces are chosen uniformly or by area
    void faces(Src& s, pbt::Ctx& c)
    {
        World w = world(s);
        // a flat box: two big and ten small triangles, or a fan
        double a = s.uniform(40, 80), t = s.uniform(0.5, 2);
        auto ob = Obstacle::createBox((float)a, (float)a, (float)t);
        bool area = s.chance(0.5);
        c.describe(std::string(area ? "by area" : "uniformly") + " box " + num(a) + " " + num(t));
        ApproachMovementSurfaceNormal m(ob, w.e, "", 0.f, area);
        const int N = 400;
        int big = 0;
        for (int i = 0; i < N; i++)
        {
            Eigen::Vector3f p, n;
            m.getPositionOnObject(p, n);
            if (std::fabs(n[2]) > 0.9) big++;
        }
        // chance of the two big sides: 1/3 or more than 0.9
        double pr = area ? 2 * a * a / (2 * a * a + 4 * a * t) : 1. / 3;
        double sd = std::sqrt(N * pr * (1 - pr));
        c.check(std::fabs(big - N * pr) < 9 * sd + 6, "frequency", num((double)big) + " of 400 positions are on the big sides, expected " + num(N * pr));
        c.nontrivial();
    }

    // poses near a given pose
    class Scripted : public ApproachMovementGenerator
    {
    public:
        Scripted(SceneObjectPtr o, EndEffectorPtr e, const std::string& pre, const std::vector<M4>& palms) : ApproachMovementGenerator(o, e, pre), palms(palms) {}
        Eigen::Matrix4f createNewApproachPose() override
        {
            openHand();
            M4 base = d4(getEEF()->getRobot()->getRobotNode("palm")->getGlobalPose());
            return f4(M4(palms[k++ % palms.size()] * inv(base) * d4(getEEFPose())));
        }
        void direction(const V3& d) { approachDirGlobal = f3(d); }
        std::vector<M4> palms;
        size_t k = 0;
    };

    void planner(Src& s, pbt::Ctx& c)
    {
        World w = world(s, true);
        std::string pre = w.h.pre.empty() || s.chance(0.5) ? "" : w.h.pre.begin()->first;
        bool real = s.chance(0.2);
        ApproachMovementGeneratorPtr a;
        if (s.chance(0.7))
        {
            std::vector<M4> p;
            int n = 1 + (int)s.draw(4);
            for (int i = 0; i < n; i++) p.push_back(fl4(w.palm * mk(rot(s), V3(0, 0, 0)) * M4::Identity()));
            for (auto& x : p) x = s.chance(0.8) ? fl4(w.palm * mk(Eigen::AngleAxisd(s.real(-0.2, 0.2), unit(s)).matrix(), vec(s, 15))) : x;
            boost::shared_ptr<Scripted> sc(new Scripted(w.ob, w.e, pre, p));
            sc->direction(unit(s));
            a = sc;
        }
        else a.reset(new ApproachMovementSurfaceNormal(w.ob, w.e, pre));
        double scale = s.chance(0.5) ? 1 : s.uniform(0.1, 3);
        boost::shared_ptr<Quality> q(new Quality(w.ob, scale));
        GraspQualityMeasurePtr m = q;
        if (real) { m.reset(new GraspQualityMeasureWrenchSpace(w.ob, 1.f, 0.5f, 5)); }
        double minQ = s.chance(0.5) ? 0 : fl(s.uniform(0, 0.8) * scale);
        bool fc = s.chance(0.4);
        GraspSetPtr set(new GraspSet("set", w.r->getType(), "hand"));
        int had = (int)s.draw(3);
        for (int i = 0; i < had; i++) set->addGrasp(GraspPtr(new Grasp("old" + std::to_string(i), w.r->getType(), "hand", f4(fl4(pose(s, 100))))));
        GenericGraspPlanner pl(set, m, a, (float)minQ, fc);
        pl.setVerbose(s.chance(0.2));
        if (s.chance(0.2)) { minQ = fl(s.uniform(0, 0.5) * scale); fc = s.chance(0.5); pl.setParameters((float)minQ, fc); }
        bool retreat = s.chance(0.6);
        if (!retreat) pl.setRetreatOnLowContacts(false);
        if (!pre.empty())
        {
            auto t = w.e->createEefRobot("pre", "pre");
            t->getEndEffector("hand")->setPreshape(pre);
            auto want = values(t), have = values(a->getEEF()->getRobot());
            for (auto& f : w.h.f) for (int n : f.nodes) c.near(have.at(w.h.sp.n[n].name), want.at(w.h.sp.n[n].name), 1e-5, "preshape", "joint " + w.h.sp.n[n].name + " of the approaching hand with preshape");
        }
        // obstacles near the hand
        SceneObjectSetPtr obs;
        if (s.chance(0.5))
        {
            obs.reset(new SceneObjectSet("obstacles"));
            int n = 1 + (int)s.draw(2);
            for (int i = 0; i < n; i++)
            {
                auto o = Obstacle::createBox((float)s.uniform(5, 60), (float)s.uniform(5, 60), (float)s.uniform(5, 60));
                o->setGlobalPose(f4(fl4(w.palm * mk(rot(s), V3(s.real(-2, 2) * w.h.R, s.real(-2, 2) * w.h.R, s.real(-1, 1.5) * w.h.reach)))));
                obs->addSceneObject(o);
            }
        }
        c.describe("min quality " + num(minQ) + (fc ? " closure" : "") + (real ? " wrench space" : "") + (obs ? " obstacles" : "") + " preshape '" + pre + "' " + w.str);
        State st = state(w);
        auto e = a->getEEF();
        auto eval0 = pl.getEvaluation();
        c.check(eval0.nrGraspsGenerated == 0 && eval0.graspScore.empty(), "evalStart", "evaluation of a new planner");
        int valid = 0, tries = 2 + (int)s.draw(5), total = 0;
        auto obstructed = [&]() { return obs && e->getCollisionChecker()->checkCollision(e->createSceneObjectSet(), obs); };
        auto judge = [&](const GraspPtr& g, const std::string& what)
        {
            auto ct = pl.getContacts();
            double rate = real ? 0 : Quality::rate(ct, scale);
            bool good = ct.size() >= 2 && (!fc || Quality::closure(ct)) && rate >= minQ;
            bool hit = obstructed();
            if (real) { good = false; if (ct.size() >= 2) { m->setContactPoints(ct); rate = m->getGraspQuality(); good = (!fc || m->isGraspForceClosure()) && rate >= minQ; } }
            if (!g)
            {
                if (!hit) c.check(!good, "missed", what + ": no grasp, although " + std::to_string(ct.size()) + " contacts of quality " + num(rate) + " are valid");
                return;
            }
            c.check(!hit, "obstructed", what + ": grasp in collision with an obstacle");
            c.check(ct.size() >= 2, "contacts", what + ": grasp with " + std::to_string(ct.size()) + " contacts");
            c.check(good, "invalid", what + ": grasp of quality " + num(rate) + " with " + std::to_string(ct.size()) + " contacts is not valid");
            c.near(g->getQuality(), rate, 1e-6 * std::max(1., rate), "quality", what + ": quality of the grasp");
            for (auto& x : ct) { c.check(x.obstacle == w.ob, "contactObject", "contact with another object"); c.check(x.robotNode && x.robotNode->getRobot() == a->getEEFRobotClone(), "contactNode", "contact of a node of another robot"); }
            c.check(g->getEefName() == "hand" && g->getRobotType() == w.r->getType(), "labels", what + ": end effector or robot type of the grasp");
            // the grasp describes the state of the hand
            auto conf = g->getConfiguration();
            auto now = values(e->getRobot());
            for (auto& f : w.h.f) for (int n : f.nodes)
            {
                auto& nm = w.h.sp.n[n].name;
                c.check(conf.count(nm), "configNodes", what + ": joint " + nm + " is missing in the grasp");
                c.near(conf[nm], now.at(nm), 1e-5 * std::max(1., std::fabs((double)now.at(nm))), "config", what + ": value of joint " + nm);
            }
            samePose(c, g->getTcpPoseGlobal(w.ob->getGlobalPose()), d4(e->getTcp()->getGlobalPose()), 1e-2, 1e-3, "graspPose", what + ": pose of the TCP");
            // executed by another hand
            auto r2 = w.e->createEefRobot("other", "other");
            r2->setJointValues(conf);
            r2->setGlobalPoseForRobotNode(r2->getEndEffector("hand")->getTcp(), g->getTcpPoseGlobal(w.ob->getGlobalPose()));
            for (auto& f : w.h.f) for (int n : f.nodes)
                samePose(c, r2->getRobotNode(w.h.sp.n[n].name)->getGlobalPose(), d4(e->getRobot()->getRobotNode(w.h.sp.n[n].name)->getGlobalPose()), 2e-2, 1e-3, "executed", what + ": pose of " + w.h.sp.n[n].name + " when the grasp is executed");
        };
        for (int i = 0; i < tries; i++)
        {
            int size = (int)set->getSize();
            auto g = pl.planGrasp(obs);
            total++;
            judge(g, "try " + std::to_string(i));
            if (g) { valid++; c.check(g->getName() == "Grasp " + std::to_string(size + 1), "name", "name of the grasp is " + g->getName()); }
            c.check((int)set->getSize() == size, "notAdded", "planGrasp changes the set");
            auto ev = pl.getEvaluation();
            c.check(ev.nrGraspsGenerated == total, "generated", "number of generated grasps");
            c.check(ev.nrGraspsValid == valid, "valid", "number of valid grasps is " + std::to_string(ev.nrGraspsValid) + ", expected " + std::to_string(valid));
            c.check(ev.nrGraspsInvalidCollision + ev.nrGraspsInvalidContacts + ev.nrGraspsInvalidFC == total - valid, "invalidCount", "number of invalid grasps");
            c.check((int)ev.graspValid.size() == total && (int)ev.graspScore.size() == total && (int)ev.timeGraspMS.size() == total && (int)ev.graspTypePower.size() == total, "lists", "sizes of the evaluation's lists");
            c.check(ev.graspValid.back() == !!g, "lastValid", "validity of the last grasp");
            auto ct = pl.getContacts();
            if (g) c.near(ev.graspScore.back(), g->getQuality(), 0, "lastScore", "score of the last grasp");
            else if (ev.graspScore.back() != 0) // only a measured grasp has a score
                c.check(ct.size() >= 2 && (real || (std::fabs(ev.graspScore.back() - Quality::rate(ct, scale)) < 1e-5 * std::max(1., scale) && ev.graspScore.back() < minQ)), "rejectedScore", "score of a rejected grasp is " + num(ev.graspScore.back()));
            if (auto sc = dynamic_cast<Scripted*>(a.get()))
            {
                // another hand at the same pose
                auto r3 = w.e->createEefRobot("twin", "twin");
                auto e3 = r3->getEndEffector("hand");
                M4 P = sc->palms[(sc->k - 1) % sc->palms.size()], T = d4(e->getRobot()->getRobotNode("palm")->getGlobalPose());
                if (pre.empty()) e3->openActors(); else e3->setPreshape(pre);
                r3->setGlobalPose(f4(M4(P * inv(d4(r3->getRobotNode("palm")->getGlobalPose())) * d4(r3->getGlobalPose()))));
                bool blocked = obs && e3->getCollisionChecker()->checkCollision(e3->createSceneObjectSet(), obs);
                EndEffector::ContactInfoVector direct;
                if (!blocked) { direct = e3->closeActors(w.ob); e3->addStaticPartContacts(w.ob, direct, a->getApproachDirGlobal()); }
                V3 d = (T - P).block<3, 1>(0, 3), dir = d3(a->getApproachDirGlobal());
                c.check((T - P).block<3, 3>(0, 0).cwiseAbs().maxCoeff() < 1e-3 && (d - d.dot(dir) * dir).norm() < 0.02 && d.dot(dir) > -0.02, "retreatDir", "hand moves by " + str(d) + ", approach direction " + str(dir));
                if (!retreat || blocked || direct.size() >= 2)
                {
                    c.check(d.norm() < 0.02, "retreat", "the hand moves away by " + num(d.norm()) + " mm although there are " + std::to_string(direct.size()) + " contacts" + (retreat ? "" : ", retreating is switched off"));
                    c.check(ct.size() == direct.size(), "direct", std::to_string(ct.size()) + " contacts, closing the hand there gives " + std::to_string(direct.size()));
                    c.label("direct");
                }
                else c.label(g ? "retreated" : "retreat failed");
            }
        }
        // plan
        if (valid > 0)
        {
            int want = 1 + (int)s.draw(3), size = (int)set->getSize();
            size_t planned = pl.getPlannedGrasps().size();
            bool always = !real && valid == tries && dynamic_cast<Scripted*>(a.get()) && !obs;
            int limit = s.chance(0.5) && always ? 0 : 150;
            auto t0 = std::chrono::steady_clock::now();
            int n = pl.plan(want, limit, obs);
            double ms = std::chrono::duration<double, std::milli>(std::chrono::steady_clock::now() - t0).count();
            c.check(n >= 0 && n <= want, "planCount", "more grasps than requested");
            if (limit == 0) c.check(n == want, "noTimeout", std::to_string(n) + " of " + std::to_string(want) + " grasps without time limit");
            else if (n < want) c.check(ms >= limit, "early", "gave up after " + num(ms) + " of " + std::to_string(limit) + " ms with " + std::to_string(n) + " of " + std::to_string(want) + " grasps");
            c.check((int)set->getSize() == size + n, "added", "grasps are not added to the set");
            c.check(pl.getPlannedGrasps().size() == planned + n, "planned", "planned grasps");
            for (int i = 0; i < n; i++) c.check(set->getGrasp(size + i) == pl.getPlannedGrasps()[planned + i], "sameGrasp", "grasps of the set and of the planner");
            if (n == want) { judge(set->getGrasp(size + n - 1), "plan"); }
            c.label("planned");
            for (int i = 0; i < n; i++)
            {
                auto g = set->getGrasp(size + i);
                c.check(g->getQuality() >= minQ, "planQuality", "quality of a planned grasp");
                c.check(g->getName() == "Grasp " + std::to_string(size + i + 1), "planName", "name of a planned grasp is " + g->getName());
            }
            auto ev = pl.getEvaluation();
            c.check(ev.nrGraspsValid == valid + n, "planValid", "valid grasps after planning");
        }
        pl.clearEvaluation();
        auto ev = pl.getEvaluation();
        c.check(ev.nrGraspsGenerated == 0 && ev.nrGraspsValid == 0 && ev.graspScore.empty() && ev.timeGraspMS.empty(), "cleared", "cleared evaluation");
        unchanged(c, w, st, "planning");
        c.label(valid ? "valid" : "none valid");
        c.nontrivial(valid > 0);
    }

    M4 fromRpy(const double* p)
    {
        return mk((Eigen::AngleAxisd(p[5], V3::UnitZ()) * Eigen::AngleAxisd(p[4], V3::UnitY()) * Eigen::AngleAxisd(p[3], V3::UnitX())).matrix(), V3(p[0], p[1], p[2]));
    }
    void toRpy(const M4& m, double* p)
    {
        for (int i = 0; i < 3; i++) p[i] = m(i, 3);
        p[4] = std::atan2(-m(2, 0), std::hypot(m(0, 0), m(1, 0)));
        p[5] = std::atan2(m(1, 0), m(0, 0));
        p[3] = std::atan2(m(2, 1), m(2, 2));
    }
    Contacts contactsAt(Src& s, int n, V3& mean)
    {
        Contacts r;
        mean = V3(0, 0, 0);
        for (int i = 0; i < n; i++)
        {
            EndEffector::ContactInfo x;
            V3 p = vec(s, 500);
            x.contactPointObstacleGlobal = f3(p);
            x.contactPointFingerGlobal = f3(p + vec(s, 5));
            x.contactPointObstacleLocal = f3(vec(s, 50)); x.contactPointFingerLocal = f3(vec(s, 50));
            x.approachDirectionGlobal = f3(unit(s));
            mean += p / n;
            r.push_back(x);
        }
        return r;
    }
    void poses(Src& s, pbt::Ctx& c)
    {
        GraspEvaluationPoseUncertainty::PoseUncertaintyConfig cfg;
        double pos = fl(s.chance(0.3) ? 10 : s.uniform(0.5, 50)), deg = fl(s.chance(0.3) ? 5 : s.uniform(0.5, 15));
        std::vector<double> steps{0.5, 1, 2, 0.4, 0.7, 0.25, 1. / 3, 0.2};
        double sp = s.pick(steps), so = s.pick(steps);
        bool normal = s.chance(0.5);
        cfg.init((float)pos, (float)deg, normal, (float)sp, (float)so);
        bool grid = s.chance(0.5), viaContacts = s.chance(0.3);
        size_t total = 1;
        int cnt[6];
        for (int i = 0; i < 6; i++)
        {
            double f = i < 3 ? sp : so, x = 2 / f;
            cnt[i] = (int)std::floor(x + 1e-4) + 1;
            cfg.enableDimension[i] = s.chance(0.5);
            if (cfg.enableDimension[i] && grid && total * cnt[i] > 1500) cfg.enableDimension[i] = false;
            if (!cfg.enableDimension[i]) cnt[i] = 1;
            total *= cnt[i];
        }
        M4 O = fl4(pose(s, 1000)), G = fl4(s.chance(0.2) ? O : pose(s, 1000));
        V3 mean;
        Contacts ct;
        if (viaContacts) { int n = s.chance(0.1) ? 0 : 1 + (int)s.draw(5); ct = contactsAt(s, n, mean); G = mk(M3::Identity(), mean); }
        double g[6];
        toRpy(G, g);
        if (std::fabs(g[4]) > M_PI / 2 - 0.05 - (cfg.enableDimension[4] ? deg * M_PI / 180 : 0)) c.discard(); // not unique there
        GraspEvaluationPoseUncertainty ev(cfg);
        std::string h = (grid ? "grid of " + std::to_string(total) : std::string(normal ? "normal" : "uniform")) + " pos " + num(pos) + " deg " + num(deg) + " steps " + num(sp) + " " + num(so) + " object at " + num(O(0, 3)) + " " + num(O(1, 3)) + " center at " + num(G(0, 3)) + " " + num(G(1, 3)) + " enabled";
        for (int i = 0; i < 6; i++) h += cfg.enableDimension[i] ? " 1" : " 0";
        c.describe(h);
        int N = 1 + (int)s.draw(30);
        unsigned seed = (unsigned)s.draw(100000);
        PRNG64Bit().seed(seed);
        auto run = [&]() { return grid ? (viaContacts ? ev.generatePoses(f4(O), ct) : ev.generatePoses(f4(O), f4(G))) : (viaContacts ? ev.generatePoses(f4(O), ct, N) : ev.generatePoses(f4(O), f4(G), N)); };
        auto P = run();
        if (viaContacts && ct.empty()) { c.check(P.empty(), "noContacts", "poses without contacts"); return; }
        M4 rel = inv(G) * O;
        double reach = trans(rel).norm();
        double tp = 5e-3 + 5e-6 * reach;
        double ext[6];
        for (int i = 0; i < 6; i++) ext[i] = cfg.enableDimension[i] ? (i < 3 ? pos : deg * M_PI / 180) : 0;
        if (grid)
        {
            c.check(P.size() == total, "gridCount", std::to_string(P.size()) + " poses, expected " + std::to_string(total));
            size_t k = 0;
            int i[6];
            bool zero = false;
            for (i[0] = 0; i[0] < cnt[0]; i[0]++) for (i[1] = 0; i[1] < cnt[1]; i[1]++) for (i[2] = 0; i[2] < cnt[2]; i[2]++)
                for (i[3] = 0; i[3] < cnt[3]; i[3]++) for (i[4] = 0; i[4] < cnt[4]; i[4]++) for (i[5] = 0; i[5] < cnt[5]; i[5]++)
                {
                    double p[6];
                    double off = 0;
                    for (int j = 0; j < 6; j++) { double d = cfg.enableDimension[j] ? -ext[j] + i[j] * (j < 3 ? sp : so) * ext[j] : 0; p[j] = g[j] + d; off += std::fabs(d); }
                    if (off < 1e-6) zero = true;
                    samePose(c, P[k++], M4(fromRpy(p) * rel), tp, 2e-4, "gridPose", "pose of the grid");
                }
            (void)zero;
        }
        else
        {
            c.check((int)P.size() == N, "count", "number of poses");
            for (auto& x : P)
            {
                double p[6];
                toRpy(M4(d4(x) * inv(rel)), p);
                for (int j = 0; j < 6; j++)
                {
                    double d = p[j] - g[j];
                    if (j >= 3) { while (d > M_PI) d -= 2 * M_PI; while (d < -M_PI) d += 2 * M_PI; }
                    // near the singularity roll and yaw are inaccurate
                    c.check(std::fabs(d) <= ext[j] + (j < 3 ? tp + 1e-5 * reach : 3e-4 / std::max(0.02, std::cos(p[4]))), "bounds", "deviation of " + num(d) + " in dimension " + std::to_string(j) + ", allowed are " + num(ext[j]));
                }
            }
            PRNG64Bit().seed(seed);
            auto Q = run();
            c.check(Q.size() == P.size(), "repeatCount", "other number of poses");
            for (size_t i = 0; i < P.size(); i++) c.check((P[i] - Q[i]).cwiseAbs().maxCoeff() < 1e-4, "repeat", "other poses from the same seed");
        }
        c.nontrivial(P.size() > 1);
    }

    void evaluate(Src& s, pbt::Ctx& c)
    {
        World w = world(s, true);
        if (s.chance(0.3)) { auto clone = w.e->createEefRobot("clone", "clone"); clone->setGlobalPose(w.r->getRobotNode("palm")->getGlobalPose()); w.r = clone; w.e = clone->getEndEffector("hand"); }
        // the object is where the hand is
        w.ob->setGlobalPose(f4(fl4(d4(w.r->getRobotNode("palm")->getGlobalPose()) * inv(w.palm) * d4(w.ob->getGlobalPose()))));
        RobotConfigPtr pre;
        std::string pn;
        if (!w.h.pre.empty() && s.chance(0.5)) { pn = w.h.pre.begin()->first; pre = w.e->getPreshape(pn); }
        std::map<std::string, float> q;
        for (auto& n : w.h.sp.n) if (n.type != FIXED && w.r->hasRobotNode(n.name)) q[n.name] = (float)randomQ(s, n);
        w.e->getRobot()->setJointValues(q);
        double scale = s.uniform(0.5, 2);
        boost::shared_ptr<Quality> m(new Quality(w.ob, scale));
        GraspEvaluationPoseUncertainty::PoseUncertaintyConfig cfg;
        bool none = s.chance(0.4);
        cfg.init(none ? 0.f : (float)s.uniform(1, 20), none ? 0.f : (float)s.uniform(1, 10), s.chance(0.5));
        GraspEvaluationPoseUncertainty ev(cfg);
        c.describe((pre ? "preshape " : "open ") + w.str);
        State st = state(w);
        M4 O = d4(w.ob->getGlobalPose());
        // single poses
        int n = (int)s.draw(6);
        std::vector<Eigen::Matrix4f> P;
        for (int i = 0; i < n; i++) P.push_back(f4(fl4(i == 0 ? O : s.chance(0.2) ? M4(mk(M3::Identity(), V3(2000, 0, 0)) * O) : M4(O * mk(Eigen::AngleAxisd(s.real(-0.3, 0.3), unit(s)).matrix(), vec(s, 30))))));
        auto res = ev.evaluatePoses(w.e, w.ob, P, m, pre);
        unchanged(c, w, st, "evaluating poses");
        int col = 0, ok = 0, fcs = 0;
        double sum = 0;
        struct Own { bool in, closure; double rate; };
        std::vector<Own> own;
        for (auto& p : P)
        {
            // what happens there; opening moves in steps, so where it ends depends on where it starts
            if (pre) w.r->setJointValues(pre); else w.e->openActors();
            w.ob->setGlobalPose(p);
            bool in = hits(w.e, w.ob);
            double rate = 0;
            bool closure = false;
            if (!in) { auto ct = w.e->closeActors(w.ob); rate = Quality::rate(ct, scale); closure = Quality::closure(ct); }
            own.push_back(Own{in, closure, rate});
            if (in) col++; else { ok++; sum += rate; fcs += closure; }
        }
        w.e->getRobot()->setJointValues(q);
        for (size_t i = 0; i < P.size(); i++)
        {
            auto& p = P[i];
            bool in = own[i].in, closure = own[i].closure;
            double rate = own[i].rate;
            auto one = ev.evaluatePose(w.e, w.ob, p, m, pre);
            c.check(one.initialCollision == in, "initial", std::string("initial collision ") + (in ? "not " : "") + "reported");
            c.near(one.quality, rate, 1e-3 * scale, "poseQuality", "quality of a pose");
            c.check(one.forceClosure == closure, "poseClosure", "force closure of a pose");
        }
        w.e->getRobot()->setJointValues(q); w.ob->setGlobalPose(f4(O)); w.r->setGlobalPose(f4(st.r));
        c.check(res.numPosesTested == n && res.numValidPoses == ok && res.numColPoses == col && res.numForceClosurePoses == fcs, "counts", "numbers of poses: " + std::to_string(res.numPosesTested) + " " + std::to_string(res.numValidPoses) + " " + std::to_string(res.numColPoses) + " " + std::to_string(res.numForceClosurePoses) + ", expected " + std::to_string(n) + " " + std::to_string(ok) + " " + std::to_string(col) + " " + std::to_string(fcs));
        c.near(res.avgQuality, ok ? sum / ok : 0, 2e-3 * scale, "avg", "mean quality of the valid poses");
        c.near(res.avgQualityCol, n ? sum / n : 0, 2e-3 * scale, "avgCol", "mean quality of all poses");
        c.near(res.forceClosureRate, ok ? 1. * fcs / ok : 0, 1e-4, "rate", "rate of force closure of the valid poses");
        c.near(res.forceClosureRateCol, n ? 1. * fcs / n : 0, 1e-4, "rateCol", "rate of force closure of all poses");
        if (s.chance(0.1))
        {
            auto x = ev.evaluatePose(s.chance(0.5) ? EndEffectorPtr() : w.e, w.ob, f4(O), GraspQualityMeasurePtr(), pre);
            c.check(!x.initialCollision && !x.forceClosure && x.quality == 0, "missing", "result without end effector or quality measure");
        }
        // a grasp: the hand at a pose relative to the object
        st = state(w);
        bool far = s.chance(0.2);
        M4 tcp = d4(w.e->getTcp()->getGlobalPose());
        if (far) tcp(0, 3) += 3000;
        GraspPtr g(new Grasp("g", w.r->getType(), "hand", f4(M4(inv(tcp) * O))));
        if (pre) g->setPreshape(pn);
        w.r->setGlobalPose(f4(fl4(pose(s, 400))));
        st = state(w);
        int N = (int)s.draw(5);
        auto r = ev.evaluateGrasp(g, w.e, w.ob, m, N);
        unchanged(c, w, st, std::string("evaluating a grasp") + (far ? " without contacts" : "") + (N ? "" : " with no poses"));
        c.check(r.numValidPoses + r.numColPoses == r.numPosesTested && (r.numPosesTested == N || r.numPosesTested == 0), "graspCounts", "numbers of poses of a grasp");
        c.check(r.numForceClosurePoses <= r.numValidPoses, "graspClosure", "number of poses with force closure");
        // the hand of the grasp
        w.r->setGlobalPoseForRobotNode(w.e->getTcp(), f4(tcp));
        if (pre) w.r->setJointValues(pre); else w.e->openActors();
        bool in = hits(w.e, w.ob);
        auto ct = w.e->closeActors(w.ob);
        c.check((r.numPosesTested == 0) == (ct.empty() || N == 0), "graspContacts", "a grasp with " + std::to_string(ct.size()) + " contacts is evaluated at " + std::to_string(r.numPosesTested) + " poses");
        double rate = in ? 0 : Quality::rate(ct, scale), slack = 0.02;
        if (none && r.numPosesTested)
        {
            // all poses are the pose of the object (up to rounding: contacts may differ, so judge the rates only)
            c.check(r.numColPoses == 0 || r.numColPoses == N, "same", "some of equal poses collide");
            c.check(r.forceClosureRate == 0 || r.forceClosureRate == 1, "sameClosure", "some of equal poses have force closure");
            (void)rate; (void)slack;
            c.label("no uncertainty");
        }
        c.nontrivial(ok > 0 && n > 1);
    }
}

int main(int argc, char** argv)
{
    pbt::Suite suite;
    suite.property = "P28";
    suite.rule = "approach poses were created, faces sampled, a valid grasp was planned, several poses generated, several poses with a free hand evaluated";
    suite.add("approach", 400, 3000, approach, 60);
    suite.add("faces", 60, 400, faces);
    suite.add("planner", 350, 2000, planner, 60);
    suite.add("poses", 3000, 20000, poses);
    suite.add("evaluate", 300, 2500, evaluate, 60);
    return pbt::run(argc, argv, suite);
}
