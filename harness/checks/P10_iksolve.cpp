// libs: VirtualRobot
// P10: a solution reported by an IK solver is a solution
#include "common/ikworld.h"
#include "common/geom.h"
#include <VirtualRobot/IK/DifferentialIK.h>
#include <VirtualRobot/IK/GenericIKSolver.h>
#include <VirtualRobot/IK/CoMIK.h>
#include <VirtualRobot/IK/GazeIK.h>
#include <VirtualRobot/IK/HierarchicalIKSolver.h>
#include <VirtualRobot/IK/ConstrainedHierarchicalIK.h>
#include <VirtualRobot/IK/ConstrainedStackedIK.h>
#include <VirtualRobot/IK/ConstrainedOptimizationIK.h>
#include <VirtualRobot/IK/constraints/PoseConstraint.h>
#include <VirtualRobot/IK/constraints/PositionConstraint.h>
#include <VirtualRobot/IK/constraints/OrientationConstraint.h>
#include <VirtualRobot/IK/constraints/CoMConstraint.h>
#include <VirtualRobot/IK/constraints/TSRConstraint.h>
#include <VirtualRobot/IK/constraints/CollisionCheckConstraint.h>
#include <VirtualRobot/IK/constraints/ReferenceConfigurationConstraint.h>
#include <VirtualRobot/IK/constraints/JointLimitAvoidanceConstraint.h>
#include <VirtualRobot/CollisionDetection/CDManager.h>
#include <VirtualRobot/CollisionDetection/CollisionChecker.h>
#include <VirtualRobot/Visualization/TriMeshModel.h>
#include <VirtualRobot/Grasping/Grasp.h>
#include <VirtualRobot/Grasping/GraspSet.h>
#include <VirtualRobot/ManipulationObject.h>
#include <VirtualRobot/Obstacle.h>
#include <VirtualRobot/EndEffector/EndEffector.h>
#include <Eigen/SVD>
using namespace VirtualRobot;
using namespace gen;

namespace
{
    struct Goal { int node; M4 m; int mode; double tp, tr; };
    double posErr(const M4& cur, const Goal& g)
    {
        double e = 0;
        for (int i = 0; i < 3; i++) if (g.mode & (1 << i)) e += std::pow(cur(i, 3) - g.m(i, 3), 2);
        return std::sqrt(e);
    }
    double rotErr(const M4& cur, const Goal& g) { return (g.mode & 8) ? rotDist(cur, g.m) : 0; }
    // a configuration of the joints of the set; the other joints as they are
    std::vector<double> config(Src& s, const World& w, double dev = -1)
    {
        auto q = w.q;
        for (int i : w.idx)
        {
            auto& n = w.sp.n[i];
            if (n.type == FIXED) continue;
            double range = n.type == PRIS ? 300 : 1;
            q[i] = dev < 0 ? s.uniform(n.lo, n.hi) : std::max(n.lo, std::min(n.hi, q[i] + s.uniform(-dev, dev) * range));
            if (n.offset != 0 && false) q[i] += 0;
        }
        return q;
    }
    Goal goal(Src& s, const World& w, int node)
    {
        Goal g;
        g.node = node;
        g.mode = modeOf(s);
        g.tp = s.pick(std::vector<double>{0.1, 1, 5, 20});
        g.tr = s.pick(std::vector<double>{0.005, 0.02, 0.1, 0.5});
        switch (s.draw(5))
        {
            case 0: g.m = fl4(mk(rot(s), V3(trans(w.fk(w.q)[node]) + vec(s, w.reach + 100)))); break;
            case 1: g.m = fl4(w.fk(config(s, w))[node]); break;
            case 2: g.m = fl4(w.fk(config(s, w, 0.5))[node]); break;
            case 3: g.m = fl4(w.fk(config(s, w, 0.05))[node]); break;
            default: g.m = fl4(w.fk(w.q)[node]);
        }
        return g;
    }
    struct Before { std::vector<double> q; Eigen::Matrix4f base; };
    Before before(const World& w) { return Before{w.q, w.robo->getGlobalPose()}; }
    // nothing but the joints of the set moved, within their limits, and the robot is consistent
    void sane(pbt::Ctx& c, World& w, const Before& b, const std::string& who, bool baseMayMove = false)
    {
        w.read();
        std::set<int> in(w.idx.begin(), w.idx.end());
        if (!baseMayMove) c.check(w.robo->getGlobalPose() == b.base, "movedRobot", who + ": the robot itself was moved");
        else w.base = d4(w.robo->getGlobalPose());
        for (int j : w.sp.joints())
        {
            auto& n = w.sp.n[j];
            if (!std::isfinite(w.q[j])) c.fail("notFinite", who + ": joint " + n.name + " = " + num(w.q[j]));
            if (!in.count(j) && w.q[j] != b.q[j]) c.fail("otherJoint", who + ": joint " + n.name + " which is not part of the set was moved from " + num(b.q[j]) + " to " + num(w.q[j]));
            if (in.count(j) && (w.q[j] < n.lo - 1e-5 || w.q[j] > n.hi + 1e-5)) c.fail("limits", who + ": joint " + n.name + " = " + num(w.q[j]) + " is outside of " + num(n.lo) + ".." + num(n.hi));
        }
        auto m = w.fk(w.q);
        double tol = 0.02 + 2e-5 * (w.reach + trans(w.base).norm());
        for (size_t i = 0; i < w.sp.n.size(); i++)
            samePose(c, w.robo->getRobotNode(w.sp.n[i].name)->getGlobalPose(), m[i], tol, 2e-3, "stalePose", who + ": afterwards the pose of " + w.sp.n[i].name);
    }
    void fulfilled(pbt::Ctx& c, const World& w, const Goal& g, const std::string& who)
    {
        M4 cur = w.fk(w.q)[g.node];
        double e = posErr(cur, g), r = rotErr(cur, g);
        double eps = 0.01 + 1e-5 * (w.reach + trans(w.base).norm());
        if (!(e <= g.tp + eps)) c.fail("position", who + " reports success with a position error of " + num(e) + " mm (tolerance " + num(g.tp) + ", selection " + std::to_string(g.mode) + ")");
        if (!(r <= g.tr + 2e-3)) c.fail("orientation", who + " reports success with an orientation error of " + num(r) + " (tolerance " + num(g.tr) + ")");
    }
    JacobiProvider::InverseJacobiMethod method(Src& s)
    {
        static const JacobiProvider::InverseJacobiMethod m[] = {JacobiProvider::eSVD, JacobiProvider::eSVDDamped, JacobiProvider::eTranspose};
        return m[s.weighted({4, 3, 1})];
    }

    void differential(Src& s, pbt::Ctx& c)
    {
        World w = world(s, c);
        std::vector<Goal> gs;
        gs.push_back(goal(s, w, w.tcp));
        if (s.chance(0.3) && w.sp.n.size() > 2)
        {
            int k = (int)s.draw(w.sp.n.size());
            if (k != w.tcp) gs.push_back(goal(s, w, k));
        }
        DifferentialIK ik(w.rns, s.chance(0.2) ? w.robo->getRobotNode(w.sp.n[s.draw(w.sp.n.size())].name) : RobotNodePtr(), method(s));
        for (auto& g : gs) ik.setGoal(f4(g.m), w.robo->getRobotNode(w.sp.n[g.node].name), (IKSolver::CartesianSelection)g.mode, (float)g.tp, (float)g.tr);
        if (s.chance(0.3)) ik.checkImprovements(true);
        if (s.chance(0.2)) ik.convertModelScalingtoM(true);
        if (s.chance(0.2)) ik.setMaxPositionStep((float)s.uniform(5, 100));
        Before b = before(w);
        float step = (float)s.uniform(0.1, 1), minc = s.chance(0.5) ? 0 : 1e-3f;
        int n = (int)s.integer(1, 60);
        bool ok = s.chance(0.5) ? ik.solveIK(step, minc, n) : ik.computeSteps(step, minc, n);
        sane(c, w, b, "DifferentialIK");
        c.label(ok ? "differential:solved" : "differential:unsolved");
        if (ok) for (auto& g : gs) fulfilled(c, w, g, "DifferentialIK");
        c.check(ik.checkTolerances() == ok || !ok, "inconsistent", "DifferentialIK reports success but its tolerances are not met");
        c.nontrivial();
    }

    // the same descent with the model; the solver has to do as well if this converges without any doubt
    bool reference(const World& w0, const Goal& g, double step, int n, bool improve)
    {
        World w = w0;
        double lp = 1e30, lr = 1e30;
        for (int i = 0; i < n; i++)
        {
            M4 cur = w.fk(w.q)[g.node];
            double ep = posErr(cur, g), er = rotErr(cur, g);
            if (ep < 0.2 * g.tp && er < 0.2 * g.tr) return true;
            if (ep > std::max(0.98 * lp, 0.1 * g.tp) || er > std::max(0.98 * lr, 0.1 * g.tr)) return false;
            // a solver that demands improvements of the position gives up when only rounding errors are left of it
            if (improve && (g.mode & 7) && ep < 0.1 + 5e-5 * w.reach) return false;
            lp = ep;
            lr = er;
            MX J = selectRows(modelJ(w, g.node), g.mode);
            VX e(6);
            e.head(3) = trans(g.m) - trans(cur);
            e.tail(3) = logRot(rotOf(g.m) * rotOf(cur).transpose());
            MX em = selectRows(MX(e), g.mode);
            Eigen::JacobiSVD<MX> svd(J, Eigen::ComputeThinU | Eigen::ComputeThinV);
            auto sv = svd.singularValues();
            VX d = VX::Zero(J.cols());
            for (int k = 0; k < sv.size(); k++)
            {
                if (sv(k) < 1e-7) continue;
                if (sv(k) < 1e-3) return false; // doubtful in single precision
                d += svd.matrixV().col(k) * (svd.matrixU().col(k).dot(em.col(0)) / sv(k));
            }
            for (int k = 0; k < J.cols(); k++)
            {
                auto& n = w.sp.n[w.idx[k]];
                double& q = w.q[w.idx[k]];
                q += step * d(k);
                double m = n.type == PRIS ? 1 : 0.01;
                if (q < n.lo + m || q > n.hi - m) return false;
            }
        }
        return false;
    }
    // Close to a solution that is not singular and not at a limit, every solver has to find one.
    void convergence(Src& s, pbt::Ctx& c)
    {
        Opt o;
        o.onlyJoints = true;
        World w = world(s, c, o);
        for (int i : w.idx) c.require(w.sp.n[i].type != FIXED);
        Goal g;
        g.node = w.tcp;
        g.mode = modeOf(s);
        g.tp = 0.5;
        g.tr = 0.01;
        // start in the middle of the joint ranges
        std::map<std::string, float> m;
        for (int i : w.idx)
        {
            auto& n = w.sp.n[i];
            c.require(n.hi - n.lo > (n.type == PRIS ? 60 : 0.6));
            m[n.name] = (float)interiorQ(s, n, 0.5);
        }
        w.robo->setJointValues(m);
        w.read();
        double dev = 0.03;
        auto qg = w.q;
        for (int i : w.idx) qg[i] += s.uniform(-dev, dev) * (w.sp.n[i].type == PRIS ? 100 : 1);
        M4 target = w.fk(qg)[g.node];
        g.m = fl4(target);
        double step = fl(s.uniform(0.3, 1));
        int kind = (int)s.draw(4);
        c.require(reference(w, g, step, 60, kind == 1));
        Before b = before(w);
        RobotNodePtr tcp = w.robo->getRobotNode(w.sp.n[g.node].name);
        bool ok = false;
        std::string who;
        auto sel = (IKSolver::CartesianSelection)g.mode;
        if (kind == 0)
        {
            who = "DifferentialIK";
            DifferentialIK ik(w.rns);
            ik.setGoal(f4(g.m), tcp, sel, (float)g.tp, (float)g.tr);
            ok = ik.solveIK((float)step, 0, 80);
        }
        else if (kind == 1)
        {
            who = "GenericIKSolver";
            GenericIKSolver ik(w.rns);
            ik.setMaximumError((float)g.tp, (float)g.tr);
            ik.setupJacobian((float)step, 80);
            ok = ik.solve(f4(g.m), sel, 1);
        }
        else if (kind == 2)
        {
            who = "HierarchicalIKSolver";
            HierarchicalIKSolver ik(w.rns);
            DifferentialIKPtr d(new DifferentialIK(w.rns, RobotNodePtr(), JacobiProvider::eSVD));
            d->setGoal(f4(g.m), tcp, sel, (float)g.tp, (float)g.tr);
            ik.addIK(d);
            ok = ik.solveIK((float)step, 0, 80);
        }
        else
        {
            // constraints know positions, orientations and whole poses
            c.require(g.mode == 15 || g.mode == 7 || g.mode == 8);
            boost::shared_ptr<ConstrainedIK> ik;
            RobotPtr r = w.robo;
            who = "ConstrainedStackedIK";
            ik.reset(new ConstrainedStackedIK(r, w.rns, (float)step, 80, JacobiProvider::eSVD));
            c.require(tcp != w.robo->getRootNode()); // would move the robot
            ConstraintPtr p(new PoseConstraint(w.robo, w.rns, tcp, f4(g.m), sel, (float)g.tp, (float)g.tr));
            ik->addConstraint(p);
            c.check(ik->initialize(), "initialize", who + " could not be initialized");
            ok = ik->solve();
        }
        sane(c, w, b, who);
        c.label("convergence:" + who);
        if (ok) fulfilled(c, w, g, who);
        else
        {
            M4 cur = w.fk(w.q)[g.node];
            bool limit = false; // a redundant chain might have been stopped by a limit
            for (int i : w.idx) if (w.q[i] <= w.sp.n[i].lo + 1e-5 || w.q[i] >= w.sp.n[i].hi - 1e-5) limit = true;
            if (!limit) c.fail("noConvergence", who + " does not find the solution next to its start (errors " + num(posErr(cur, g)) + " mm, " + num(rotErr(cur, g)) + " rad, selection " + std::to_string(g.mode) + ", step size " + num(step) + ")");
        }
        c.nontrivial();
    }

    struct Obs { ObstaclePtr o; std::vector<Tri> tris; };
    Obs obstacle(Src& s, const V3& around, double spread)
    {
        Obs r;
        double a = s.uniform(20, 300), b = s.uniform(20, 300), h = s.uniform(20, 300);
        r.o = Obstacle::createBox((float)a, (float)b, (float)h);
        M4 m = fl4(mk(rot(s), V3(around + vec(s, spread))));
        r.o->setGlobalPose(f4(m));
        r.tris = triangles(r.o->getCollisionModel()->getTriMeshModel(), m);
        return r;
    }
    World modelWorld(Src& s, pbt::Ctx& c)
    {
        World w;
        RobotOpts o;
        o.minNodes = 2;
        o.maxNodes = 6;
        o.models = true;
        o.physics = s.chance(0.5);
        w.sp = robotSpec(s, o);
        w.robo = fromXML(w.sp);
        w.base = s.chance(0.5) ? M4::Identity() : fl4(pose(s, 500));
        w.robo->setGlobalPose(f4(w.base));
        std::map<std::string, float> m;
        for (int j : w.sp.joints()) m[w.sp.n[j].name] = (float)interiorQ(s, w.sp.n[j]);
        w.robo->setJointValues(m);
        w.read();
        for (size_t i = 0; i < w.sp.n.size(); i++) if (w.sp.n[i].type != FIXED || s.chance(0.5)) w.idx.push_back((int)i);
        bool any = false;
        for (int i : w.idx) any |= w.sp.n[i].type != FIXED;
        c.require(any);
        w.tcp = (int)w.sp.n.size() - 1;
        std::vector<RobotNodePtr> n;
        for (int i : w.idx) n.push_back(w.robo->getRobotNode(w.sp.n[i].name));
        w.rns = RobotNodeSet::createRobotNodeSet(w.robo, "set", n, w.robo->getRootNode(), w.robo->getRobotNode(w.sp.n[w.tcp].name), true);
        w.reach = w.sp.reach();
        c.describe(w.sp.summary());
        return w;
    }
    // distance of the bodies of the joint set to the obstacle
    double clearance(const World& w, const std::vector<Tri>& o)
    {
        double d = 1e300;
        for (int i : w.idx)
        {
            auto rn = w.robo->getRobotNode(w.sp.n[i].name);
            if (!rn->getCollisionModel()) continue;
            auto m = w.fk(w.q)[i];
            auto t = triangles(rn->getCollisionModel()->getTriMeshModel(), m);
            d = std::min(d, surfDist(t, o));
        }
        return d;
    }

    void generic(Src& s, pbt::Ctx& c)
    {
        bool col = s.chance(0.25);
        World w = col ? modelWorld(s, c) : world(s, c);
        Goal g = goal(s, w, w.tcp);
        GenericIKSolver ik(w.rns, method(s));
        ik.setMaximumError((float)g.tp, (float)g.tr);
        ik.setupJacobian((float)s.uniform(0.2, 0.8), (int)s.integer(1, 60));
        Obs ob;
        if (col)
        {
            ob = obstacle(s, trans(w.fk(w.q)[s.draw(w.sp.n.size())]), 400);
            switch (s.draw(3))
            {
                case 0: ik.collisionDetection(ob.o); break;
                case 1:
                {
                    SceneObjectSetPtr set(new SceneObjectSet("obstacles"));
                    set->addSceneObject(ob.o);
                    ik.collisionDetection(set);
                    break;
                }
                default:
                {
                    CDManagerPtr cdm(new CDManager());
                    cdm->addCollisionModel(ob.o);
                    cdm->addCollisionModel(w.rns);
                    ik.collisionDetection(cdm);
                }
            }
        }
        if (s.chance(0.15))
        {
            std::vector<int> pr;
            for (int i : w.idx) if (w.sp.n[i].type == PRIS) pr.push_back(i);
            if (!pr.empty())
            {
                int i = pr[s.draw(pr.size())];
                ik.setupTranslationalJoint(w.robo->getRobotNode(w.sp.n[i].name), (float)interiorQ(s, w.sp.n[i]));
            }
        }
        Before b = before(w);
        auto sel = (IKSolver::CartesianSelection)g.mode;
        int loops = (int)s.integer(1, 4);
        bool ok;
        int how = (int)s.draw(4);
        if (how == 0)
        {
            auto v = ik.solveNoRNSUpdate(f4(g.m), sel);
            w.read();
            for (int j : w.sp.joints())
                if (std::fabs(w.q[j] - b.q[j]) > 1e-6) c.fail("updated", "solveNoRNSUpdate moved joint " + w.sp.n[j].name + " from " + num(b.q[j]) + " to " + num(w.q[j]));
            sane(c, w, before(w), "solveNoRNSUpdate");
            ok = !v.empty();
            if (ok)
            {
                c.check(v.size() == w.idx.size(), "size", "solveNoRNSUpdate returned " + std::to_string(v.size()) + " values");
                for (size_t i = 0; i < v.size(); i++) if (w.sp.n[w.idx[i]].type != FIXED) w.q[w.idx[i]] = v[i];
                for (int i : w.idx) if (w.sp.n[i].type != FIXED && (w.q[i] < w.sp.n[i].lo - 1e-5 || w.q[i] > w.sp.n[i].hi + 1e-5)) c.fail("limits", "solveNoRNSUpdate returns a value outside of the limits for " + w.sp.n[i].name);
            }
        }
        else if (how == 1)
        {
            g.mode = 7;
            ok = ((AdvancedIKSolver&)ik).solve(f3(trans(g.m)));
            sane(c, w, b, "GenericIKSolver");
        }
        else
        {
            ok = ik.solve(f4(g.m), sel, loops);
            sane(c, w, b, "GenericIKSolver");
        }
        c.label(std::string(col ? "generic+collision:" : "generic:") + (ok ? "solved" : "unsolved"));
        if (ok)
        {
            fulfilled(c, w, g, how == 0 ? "solveNoRNSUpdate" : "GenericIKSolver");
            if (col)
            {
                double d = clearance(w, ob.tris);
                // penetrating by more than the accuracy of the model: the distance of the surfaces is 0
                if (d == 0)
                {
                    // scale the obstacle a little: still cut?
                    auto t = ob.tris;
                    V3 ce = V3::Zero();
                    for (auto& x : t) ce += (x.a + x.b + x.c) / (3. * t.size());
                    double k = 1 - 1e-3, k2 = 1 + 1e-3;
                    auto sc = [&](double f) { auto u = ob.tris; for (auto& x : u) { x.a = ce + f * (x.a - ce); x.b = ce + f * (x.b - ce); x.c = ce + f * (x.c - ce); } return u; };
                    if (clearance(w, sc(k)) == 0 && clearance(w, sc(k2)) == 0) c.fail("collision", "GenericIKSolver returned a configuration in which the robot collides with the obstacle to be avoided");
                }
            }
        }
        c.nontrivial();
    }

    void grasps(Src& s, pbt::Ctx& c)
    {
        World w = world(s, c);
        RobotNodePtr tcp = w.robo->getRobotNode(w.sp.n[w.tcp].name);
        bool haveEef = s.chance(0.9);
        int neef = haveEef ? 1 : 0;
        if (haveEef)
        {
            EndEffectorPtr eef(new EndEffector("hand", {}, {tcp}, tcp, tcp));
            w.robo->registerEndEffector(eef);
        }
        if (s.chance(0.3))
        {
            RobotNodePtr other = w.robo->getRobotNode(w.sp.n[0].name);
            if (other != tcp)
            {
                EndEffectorPtr eef(new EndEffector("other", {}, {other}, other, other));
                w.robo->registerEndEffector(eef);
            }
        }
        ManipulationObjectPtr obj(new ManipulationObject("object"));
        M4 op = fl4(pose(s, 500));
        obj->setGlobalPose(f4(op));
        std::map<std::string, Goal> gs;
        int mode = modeOf(s);
        double tp = s.pick(std::vector<double>{0.5, 2, 10}), tr = s.pick(std::vector<double>{0.01, 0.05, 0.3});
        bool haveSet = s.chance(0.85);
        GraspSetPtr set(new GraspSet("set", w.robo->getType(), "hand"));
        if (haveSet)
        {
            int k = (int)s.integer(0, 4);
            for (int i = 0; i < k; i++)
            {
                Goal g = goal(s, w, w.tcp);
                g.mode = mode;
                g.tp = tp;
                g.tr = tr;
                // object pose in the frame of the TCP
                GraspPtr gr(new Grasp("g" + std::to_string(i), w.robo->getType(), "hand", f4(M4(inv(g.m) * op))));
                set->addGrasp(gr);
                gs[gr->getName()] = g;
            }
            obj->addGraspSet(set);
        }
        GenericIKSolver ik(w.rns);
        ik.setMaximumError((float)tp, (float)tr);
        ik.setupJacobian(0.5f, (int)s.integer(5, 60));
        Before b = before(w);
        auto sel = (IKSolver::CartesianSelection)mode;
        int loops = (int)s.integer(1, 3);
        GraspPtr res;
        std::string who = "solving for a grasp";
        int how = (int)s.draw(3);
        bool upd = w.robo->getUpdateVisualizationStatus();
        if (how == 0) res = ik.solve(obj, sel, loops);
        else if (how == 1)
        {
            if (gs.empty()) c.discard();
            GraspPtr gr = set->getGrasp((int)s.draw(set->getSize()));
            if (ik.solve(obj, gr, sel, loops)) res = gr;
        }
        else
        {
            if (gs.empty()) c.discard();
            GraspSetPtr cp = set->clone();
            bool rem = s.chance(0.5);
            unsigned n = cp->getSize();
            res = ik.sampleSolution(obj, cp, sel, rem, loops);
            c.check(cp->getSize() == n - (rem && !res ? 1 : 0), "graspSet", "sampleSolution left " + std::to_string(cp->getSize()) + " of " + std::to_string(n) + " grasps");
        }
        sane(c, w, b, who);
        c.check(w.robo->getUpdateVisualizationStatus() == upd, "visualizationStatus", who + " changed whether the robot updates its visualization");
        c.check(set->getSize() == gs.size(), "graspSet", who + " changed the grasp set of the object");
        c.label(res ? "grasp:solved" : haveSet && haveEef ? "grasp:unsolved" : "grasp:nothing to solve");
        if (!res)
        {
            for (int j : w.sp.joints())
                if (std::fabs(w.q[j] - b.q[j]) > 1e-5) c.fail("notReset", who + " failed but moved joint " + w.sp.n[j].name + " from " + num(b.q[j]) + " to " + num(w.q[j]));
        }
        else
        {
            c.check(gs.count(res->getName()) && (how != 0 || haveEef), "unknownGrasp", who + ": returned a grasp that is not one of the object");
            fulfilled(c, w, gs[res->getName()], who);
        }
        c.nontrivial();
    }

    struct Mass { V3 com = V3::Zero(); double m = 0; };
    Mass comOf(const World& w, const std::vector<int>& nodes)
    {
        Mass r;
        auto f = w.fk(w.q);
        for (int i : nodes)
        {
            auto& n = w.sp.n[i];
            if (!n.physics || n.mass <= 0) continue;
            r.m += n.mass;
            r.com += n.mass * (rotOf(f[i]) * n.com + trans(f[i]));
        }
        if (r.m > 0) r.com /= r.m;
        return r;
    }
    std::pair<RobotNodeSetPtr, std::vector<int>> bodies(Src& s, const World& w)
    {
        std::vector<int> id;
        std::vector<RobotNodePtr> n;
        for (size_t i = 0; i < w.sp.n.size(); i++) if (s.chance(0.8)) id.push_back((int)i);
        if (id.empty()) id.push_back(0);
        for (int i : id) n.push_back(w.robo->getRobotNode(w.sp.n[i].name));
        static int bodyCount = 0;
        return {RobotNodeSet::createRobotNodeSet(w.robo, "bodies" + std::to_string(bodyCount++), n, w.robo->getRootNode(), RobotNodePtr(), true), id};
    }
    double comDev(const World& w, const std::vector<int>& id, const V3& t, int dim) { return (comOf(w, id).com - t).head(dim).norm(); }
    V3 comGoal(Src& s, const World& w, const std::vector<int>& id)
    {
        World v = w;
        v.q = config(s, w, s.pick(std::vector<double>{0.0, 0.05, 0.5, -1.}));
        V3 t = comOf(v, id).com;
        if (s.chance(0.3)) t += vec(s, 200);
        return f3(t).cast<double>();
    }

    void com(Src& s, pbt::Ctx& c)
    {
        Opt o;
        o.physics = true;
        World w = world(s, c, o);
        auto bd = bodies(s, w);
        c.require(comOf(w, bd.second).m > 0);
        int dim = s.chance(0.5) ? 2 : 3;
        CoMIK ik(w.rns, bd.first, RobotNodePtr(), dim);
        V3 t = comGoal(s, w, bd.second);
        double tol = s.pick(std::vector<double>{0.5, 3, 10});
        ik.setGoal(Eigen::VectorXf(t.cast<float>().head(dim)), (float)tol);
        if (s.chance(0.5)) ik.checkImprovements(true);
        Before b = before(w);
        bool ok = ik.solveIK((float)s.uniform(0.1, 1), s.chance(0.5) ? 0 : 1e-3f, (int)s.integer(1, 60));
        sane(c, w, b, "CoMIK");
        c.label(ok ? "com:solved" : "com:unsolved");
        if (ok)
        {
            double e = comDev(w, bd.second, t, dim);
            if (!(e <= tol + 0.02 + 2e-5 * w.reach)) c.fail("com", "CoMIK reports success with the centre of mass " + num(e) + " mm away from its goal (tolerance " + num(tol) + ")");
        }
        c.nontrivial();
    }

    void hierarchical(Src& s, pbt::Ctx& c)
    {
        Opt o;
        o.physics = true;
        World w = world(s, c, o);
        HierarchicalIKSolver ik(w.rns);
        std::vector<Goal> gs;
        int k = (int)s.integer(1, 2);
        std::set<int> used;
        for (int i = 0; i < k; i++)
        {
            int node = i == 0 ? w.tcp : (int)s.draw(w.sp.n.size());
            if (!used.insert(node).second) continue;
            Goal g = goal(s, w, node);
            DifferentialIKPtr d(new DifferentialIK(w.rns));
            d->setGoal(f4(g.m), w.robo->getRobotNode(w.sp.n[node].name), (IKSolver::CartesianSelection)g.mode, (float)g.tp, (float)g.tr);
            ik.addIK(d);
            gs.push_back(g);
        }
        bool withCom = s.chance(0.3);
        auto bd = bodies(s, w);
        V3 t = V3::Zero();
        double tol = 5;
        if (withCom && comOf(w, bd.second).m > 0)
        {
            t = comGoal(s, w, bd.second);
            CoMIKPtr d(new CoMIK(w.rns, bd.first, RobotNodePtr(), 3));
            d->setGoal(Eigen::VectorXf(t.cast<float>()), (float)tol);
            ik.addIK(d);
        }
        else withCom = false;
        Before b = before(w);
        bool ok = ik.solveIK((float)s.uniform(0.1, 1), s.chance(0.5) ? 0 : 1e-3f, (int)s.integer(1, 60));
        sane(c, w, b, "HierarchicalIKSolver");
        c.label(ok ? "hierarchical:solved" : "hierarchical:unsolved");
        if (ok)
        {
            for (auto& g : gs) fulfilled(c, w, g, "HierarchicalIKSolver");
            if (withCom)
            {
                double e = comDev(w, bd.second, t, 3);
                if (!(e <= tol + 0.02 + 2e-5 * w.reach)) c.fail("com", "HierarchicalIKSolver reports success with the centre of mass " + num(e) + " mm away from its goal (tolerance " + num(tol) + ")");
            }
        }
        c.nontrivial();
    }

    void gaze(Src& s, pbt::Ctx& c)
    {
        Opt o;
        World w = world(s, c, o);
        std::vector<int> pr;
        for (int i : w.idx) if (w.sp.n[i].type == PRIS && w.sp.n[i].parent >= 0) pr.push_back(i);
        c.require(!pr.empty());
        auto j = boost::dynamic_pointer_cast<RobotNodePrismatic>(w.robo->getRobotNode(w.sp.n[pr[s.draw(pr.size())]].name));
        c.require((bool)j);
        GazeIK ik(w.rns, j);
        double tol = s.pick(std::vector<double>{1, 5, 30});
        ik.setup((float)tol, (int)s.integer(1, 3), (int)s.integer(1, 30));
        ik.enableJointLimitAvoidance(s.chance(0.5));
        Goal g = goal(s, w, w.tcp);
        g.mode = 7;
        g.tp = tol;
        Before b = before(w);
        bool ok = ik.solve(f3(trans(g.m)), (float)s.uniform(0.2, 1));
        sane(c, w, b, "GazeIK");
        c.label(ok ? "gaze:solved" : "gaze:unsolved");
        if (ok) fulfilled(c, w, g, "GazeIK");
        c.nontrivial();
    }

    // ------------------------------------------------------------------ constraint based solvers
    struct Con
    {
        int kind; // 0 pose, 1 position, 2 orientation, 3 com, 4 TSR, 5 soft
        bool hard = true;
        Goal g;
        int dim = 3;
        V3 com;
        std::vector<int> bodies;
        double tol = 0;
        M4 off = M4::Identity();
        Eigen::Matrix<double, 6, 2> bounds;
    };
    void checkCon(pbt::Ctx& c, const World& w, const Con& k, const std::string& who)
    {
        if (k.kind <= 2) fulfilled(c, w, k.g, who);
        else if (k.kind == 3)
        {
            double e = comDev(w, k.bodies, k.com, k.dim);
            if (!(e <= k.tol + 0.02 + 2e-5 * w.reach)) c.fail("com", who + " reports success with the centre of mass " + num(e) + " mm away from its goal (tolerance " + num(k.tol) + ")");
        }
        else if (k.kind == 4)
        {
            M4 d = inv(k.g.m) * w.fk(w.q)[k.g.node] * k.off;
            double e = 0;
            for (int i = 0; i < 3; i++)
            {
                double x = d(i, 3), o = std::max(0., std::max(k.bounds(i, 0) - x, x - k.bounds(i, 1)));
                e += o * o;
            }
            e = std::sqrt(e);
            if (!(e <= k.g.tp + 0.02 + 2e-5 * (w.reach + trans(w.base).norm()))) c.fail("tsr", who + " reports success " + num(e) + " mm outside of the task space region (tolerance " + num(k.g.tp) + ")");
        }
    }
    ConstraintPtr makeCon(Src& s, World& w, Con& k, bool jac)
    {
        static const int jk[] = {0, 0, 0, 4}, ok[] = {0, 1, 2, 3, 4, 5};
        k.kind = jac ? jk[s.draw(4)] : ok[s.draw(6)];
        k.g = goal(s, w, s.chance(0.7) ? w.tcp : (int)s.draw(w.sp.n.size()));
        if (k.g.node == 0) k.g.node = w.tcp;
        RobotNodePtr eef = w.robo->getRobotNode(w.sp.n[k.g.node].name);
        if (k.kind <= 2)
        {
            static const int pm[] = {15, 7, 8};
            k.g.mode = k.kind == 1 ? s.pick(std::vector<int>{7, 1, 2, 4, 15}) : k.kind == 2 ? s.pick(std::vector<int>{8, 15}) : pm[s.draw(3)];
        }
        auto sel = (IKSolver::CartesianSelection)k.g.mode;
        if (k.kind == 0) return ConstraintPtr(new PoseConstraint(w.robo, w.rns, eef, f4(k.g.m), sel, (float)k.g.tp, (float)k.g.tr));
        if (k.kind == 1)
        {
            ConstraintPtr r(new PositionConstraint(w.robo, w.rns, eef, f3(trans(k.g.m)), sel, (float)k.g.tp));
            k.g.mode &= 7;
            return r;
        }
        if (k.kind == 2)
        {
            k.hard = s.chance(0.7);
            ConstraintPtr r(new OrientationConstraint(w.robo, w.rns, eef, f4(k.g.m).block<3, 3>(0, 0), sel, (float)k.g.tr, !k.hard));
            k.g.mode = 8;
            return r;
        }
        if (k.kind == 3)
        {
            auto b = bodies(s, w);
            k.bodies = b.second;
            k.tol = s.pick(std::vector<double>{0.5, 3, 10});
            k.com = comGoal(s, w, k.bodies);
            k.dim = s.chance(0.5) ? 2 : 3;
            if (k.dim == 2) return ConstraintPtr(new CoMConstraint(w.robo, w.rns, b.first, Eigen::Vector2f(k.com.cast<float>().head(2)), (float)k.tol));
            return ConstraintPtr(new CoMConstraint(w.robo, w.rns, b.first, f3(k.com), (float)k.tol));
        }
        if (k.kind == 4)
        {
            k.off = s.chance(0.5) ? M4::Identity() : fl4(pose(s, 50));
            Eigen::Matrix<float, 6, 2> bd;
            for (int i = 0; i < 6; i++)
            {
                double r = i < 3 ? 50 : 0.5;
                double a = s.uniform(-r, 0), b = s.uniform(0, r);
                if (i >= 3 && s.chance(0.3)) { a = -3.2; b = 3.2; }
                bd(i, 0) = (float)a;
                bd(i, 1) = (float)b;
            }
            k.bounds = bd.cast<double>();
            return ConstraintPtr(new TSRConstraint(w.robo, w.rns, eef, f4(k.g.m), f4(k.off), bd, (float)k.g.tp, (float)k.g.tr));
        }
        k.hard = false;
        if (s.chance(0.5)) return ConstraintPtr(new JointLimitAvoidanceConstraint(w.robo, w.rns));
        return ConstraintPtr(new ReferenceConfigurationConstraint(w.robo, w.rns));
    }

    void constrained(Src& s, pbt::Ctx& c)
    {
        Opt o;
        o.physics = true;
        World w = world(s, c, o);
        c.require(w.tcp != 0);
        int kind = (int)s.draw(2);
        RobotPtr r = w.robo;
        boost::shared_ptr<ConstrainedIK> ik;
        std::string who = kind ? "ConstrainedStackedIK" : "ConstrainedHierarchicalIK";
        float step = (float)s.uniform(0.1, 1);
        int iter = (int)s.integer(1, 60);
        JacobiProvider::InverseJacobiMethod me = method(s);
        if (kind == 0) ik.reset(new ConstrainedHierarchicalIK(r, w.rns, step, iter));
        else ik.reset(new ConstrainedStackedIK(r, w.rns, step, iter, me));
        std::vector<Con> cons;
        int n = (int)s.integer(1, 3);
        for (int i = 0; i < n; i++)
        {
            Con k;
            auto p = makeCon(s, w, k, true);
            k.hard = s.chance(0.8);
            ik->addConstraint(p, (int)s.draw(3), k.hard);
            cons.push_back(k);
        }
        if (s.chance(0.2))
        {
            // a removed constraint does not count
            Con k;
            auto p = makeCon(s, w, k, true);
            ik->addConstraint(p, (int)s.draw(3), true);
            ik->removeConstraint(p);
        }
        Before b = before(w);
        c.check(ik->initialize(), "initialize", who + " could not be initialized");
        bool stepwise = s.chance(0.2), ok;
        if (stepwise)
        {
            do ok = ik->solve(true);
            while (!ok && ik->getRunning());
        }
        else ok = ik->solve();
        c.check(!ik->getRunning(), "running", who + " is finished but reports to be running");
        sane(c, w, b, who);
        c.label(who + (ok ? ":solved" : ":unsolved"));
        if (ok) for (auto& k : cons) if (k.hard) checkCon(c, w, k, who);
        // again from the same start: the same result
        if (s.chance(0.3))
        {
            std::vector<float> v;
            for (int i : w.idx) v.push_back((float)b.q[i]);
            auto q1 = w.q;
            w.rns->setJointValues(v);
            c.check(ik->initialize(), "initialize", who + " could not be initialized again");
            bool ok2 = ik->solve();
            w.read();
            if (ok2 != ok) c.fail("history", who + std::string(ok ? " solved" : " did not solve") + " the task, and the other way round when initialized and run again from the same configuration");
            for (int i : w.idx) if (std::fabs(w.q[i] - q1[i]) > 1e-3) c.fail("history", who + " gives another result when initialized and run again from the same configuration");
            c.label("constrained:again");
        }
        c.nontrivial();
    }

    void optimization(Src& s, pbt::Ctx& c)
    {
        bool col = s.chance(0.2);
        Opt o;
        o.physics = true;
        World w = col ? modelWorld(s, c) : world(s, c, o);
        c.require(w.tcp != 0);
        for (int i : w.idx) c.require(w.sp.n[i].type != FIXED);
        RobotPtr r = w.robo;
        ConstrainedOptimizationIK ik(r, w.rns, (float)0.01);
        ik.setMaxIterations((int)s.integer(1, 4));
        if (s.chance(0.3)) ik.setRandomSamplingDisplacementFactor((float)s.uniform(0.1, 1));
        std::vector<Con> cons;
        int n = (int)s.integer(1, 3);
        for (int i = 0; i < n; i++)
        {
            Con k;
            auto p = makeCon(s, w, k, false);
            ik.addConstraint(p);
            cons.push_back(k);
        }
        Obs ob;
        if (col)
        {
            ob = obstacle(s, trans(w.fk(w.q)[s.draw(w.sp.n.size())]), 400);
            CDManagerPtr cdm(new CDManager());
            cdm->addCollisionModel(ob.o);
            cdm->addCollisionModel(w.rns);
            ik.addConstraint(ConstraintPtr(new CollisionCheckConstraint(w.rns, cdm)));
        }
        if (s.chance(0.3))
        {
            Eigen::VectorXf seed(w.idx.size());
            for (size_t i = 0; i < w.idx.size(); i++) seed(i) = (float)randomQ(s, w.sp.n[w.idx[i]]);
            ik.addSeed(ConstrainedIK::eSeedOther, seed);
        }
        Before b = before(w);
        bool uc = s.chance(0.5);
        w.robo->setUpdateCollisionModel(uc);
        c.check(ik.initialize(), "initialize", "ConstrainedOptimizationIK could not be initialized");
        bool ok = ik.solve();
        c.check(w.robo->getUpdateCollisionModelStatus() == uc, "updateStatus", "ConstrainedOptimizationIK changed whether the robot updates its collision models");
        sane(c, w, b, "ConstrainedOptimizationIK");
        c.label(std::string(col ? "optimization+collision" : "optimization") + (ok ? ":solved" : ":unsolved"));
        if (ok)
        {
            for (auto& k : cons) if (k.hard) checkCon(c, w, k, "ConstrainedOptimizationIK");
            if (col && clearance(w, ob.tris) == 0)
            {
                V3 ce = V3::Zero();
                for (auto& x : ob.tris) ce += (x.a + x.b + x.c) / (3. * ob.tris.size());
                auto sc = [&](double f) { auto u = ob.tris; for (auto& x : u) { x.a = ce + f * (x.a - ce); x.b = ce + f * (x.b - ce); x.c = ce + f * (x.c - ce); } return u; };
                if (clearance(w, sc(0.999)) == 0 && clearance(w, sc(1.001)) == 0) c.fail("collision", "ConstrainedOptimizationIK returned a configuration in collision although a constraint forbids it");
            }
        }
        c.nontrivial();
    }
}
int main(int argc, char** argv)
{
    pbt::Suite s;
    s.property = "P10";
    s.rule = "a solver was run on a task of a generated robot and the resulting robot compared with the kinematics model; discarded are sets without joints, and for the convergence claim badly conditioned starts";
    s.init = [] { initVR("P10"); };
    s.add("differential", 60000, 600000, differential);
    s.add("convergence", 60000, 600000, convergence);
    s.add("generic", 40000, 400000, generic);
    s.add("grasps", 20000, 200000, grasps);
    s.add("com", 20000, 200000, com);
    s.add("hierarchical", 15000, 150000, hierarchical);
    s.add("gaze", 15000, 150000, gaze);
    s.add("constrained", 20000, 200000, constrained);
    s.add("optimization", 4000, 40000, optimization);
    return pbt::run(argc, argv, s);
}
