// libs: VirtualRobot Saba
// P25: post-processing makes paths shorter without making them invalid
#include "common/planworld.h"
#include <MotionPlanning/PostProcessing/ShortcutProcessor.h>
#include <MotionPlanning/PostProcessing/ElasticBandProcessor.h>
#include <MotionPlanning/PostProcessing/PathProcessingThread.h>
#include <VirtualRobot/IK/DifferentialIK.h>
#include <thread>
#include <chrono>
using namespace VirtualRobot;
using namespace Saba;
using namespace gen;

namespace
{
    // a valid zigzag
    CSpacePathPtr zigzag(Src& s, PWorld& p, int legs)
    {
        auto& cs = p.w.cs;
        CSpacePathPtr r(new CSpacePath(cs));
        VX q = freeConfig(s, p);
        r->addPoint(vf(q));
        for (int i = 0; i < legs; i++)
        {
            VX n = freeConfig(s, p);
            if (!p.ok(n) || p.w.d.ambiguous(q, n) || !cs->isPathValid(vf(q), vf(n))) continue;
            CSpacePathPtr part = cs->createPath(vf(q), vf(n));
            for (unsigned k = 1; k < part->getNrOfPoints(); k++) r->addPoint(part->getPoint(k));
            q = n;
        }
        return r;
    }
    double length(const PWorld& p, const std::vector<VX>& v, size_t a, size_t b) { double l = 0; for (size_t i = a + 1; i <= b; i++) l += p.w.d.dist(v[i - 1], v[i]); return l; }
    double length(const PWorld& p, const std::vector<VX>& v) { return v.empty() ? 0 : length(p, v, 0, v.size() - 1); }
    bool equal(const std::vector<VX>& a, const std::vector<VX>& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if ((a[i] - b[i]).cwiseAbs().maxCoeff() != 0) return false; return true; }

    void shortcuts(Src& s, pbt::Ctx& c)
    {
        PWorld p = world(s, c);
        auto& d = p.w.d;
        CSpacePathPtr path = zigzag(s, p, 1 + (int)s.draw(7));
        auto orig = points(path);
        double L = length(p, orig), T = p.tol(orig[0]) * orig.size();
        if (!p.ok(orig[0])) c.discard();
        c.describe(show(d) + " " + std::to_string(p.w.rec->region.balls.size()) + " regions " + std::to_string(p.obs.size()) + " obstacles, " + std::to_string(orig.size()) + " points of length " + num(L));
        srand(1 + (unsigned)s.draw(100000));
        boost::shared_ptr<ShortcutProcessor> sp(new ShortcutProcessor(path, p.w.cs, s.chance(0.05)));
        c.check(!sp->getOptimizedPath(), "early", "result before processing");
        auto judgeResult = [&](const CSpacePathPtr& r, const std::string& what)
        {
            c.check((bool)r && r == sp->getOptimizedPath(), "result", what + ": no result");
            auto v = points(r);
            c.check(equal(points(path), orig), "original", what + " changes the original path");
            c.check(exact(orig[0], r->getPoint(0)) && exact(orig.back(), r->getPoint(r->getNrOfPoints() - 1)), "ends", what + " changes start or goal");
            c.check(length(p, v) <= L + T, "longer", what + " makes the path longer: " + num(L) + " to " + num(length(p, v)));
            judge(c, p, v, what, what != "pruning");
            return v;
        };
        int kind = (int)s.draw(4);
        if (kind == 0)
        {
            int steps = (int)s.draw(60);
            auto v = judgeResult(sp->optimize(steps), "optimize");
            c.check(steps > 0 || equal(v, orig), "nothing", "no steps change the path");
            c.label(length(p, v) < L - T ? "shorter" : "as long");
            c.nontrivial(length(p, v) < L - T && orig.size() > 3 && (p.region() || !p.obs.empty()));
            // again
            judgeResult(sp->optimize(steps), "second optimisation");
        }
        else if (kind == 1)
        {
            int steps = (int)s.draw(60), dist = (int)s.integer(-1, 40);
            // two points per unit are at most dist apart
            auto v = judgeResult(sp->shortenSolutionRandom(steps, dist), "shortening");
            c.label(length(p, v) < L - T ? "shorter" : "as long");
            c.nontrivial(length(p, v) < L - T && orig.size() > 3 && (p.region() || !p.obs.empty()));
        }
        else if (kind == 2)
        {
            sp->doPathPruning();
            auto v = judgeResult(sp->getOptimizedPath(), "pruning");
            size_t k = 0;
            for (auto& q : orig) if (k < v.size() && (q - v[k]).cwiseAbs().maxCoeff() == 0) k++;
            c.check(k == v.size(), "subset", "pruning moves points");
            for (size_t i = 0; i + 2 < v.size(); i++) c.check(!p.w.cs->isPathValid(vf(v[i]), vf(v[i + 2])), "pruned", "point " + std::to_string(i + 1) + " could still be removed by pruning");
            c.label(v.size() == 2 ? "direct" : "pruned");
            c.nontrivial(v.size() > 2 && v.size() < orig.size());
        }
        else
        {
            // single steps
            int a = -7, b = -7, maxD = (int)s.integer(0, 12), did = 0;
            auto cur = orig;
            for (int i = 0; i < 12; i++)
            {
                bool ok = sp->selectCandidatesRandom(a, b, maxD);
                c.check(ok == (cur.size() > 2), "select", "selecting candidates of " + std::to_string(cur.size()) + " points gives " + std::to_string(ok));
                if (!ok) break;
                c.check(a >= 0 && b >= a + 2 && b < (int)cur.size() && b - a <= std::max(maxD, 2) + 1, "range", "candidates " + std::to_string(a) + ", " + std::to_string(b) + " of " + std::to_string(cur.size()) + " points, at most " + std::to_string(maxD));
                double l = length(p, cur, a, b), direct = d.dist(cur[a], cur[b]);
                bool valid = sp->validShortcut(a, b);
                if (std::fabs(direct - 0.99 * l) > T) c.check(valid == (direct < 0.99 * l && p.w.cs->isPathValid(vf(cur[a]), vf(cur[b]))), "shortcut", "validity of the shortcut from " + std::to_string(a) + " to " + std::to_string(b) + " is " + std::to_string(valid));
                if (valid)
                {
                    did++;
                    int saved = sp->doShortcut(a, b);
                    auto v = points(sp->getOptimizedPath());
                    c.check((int)cur.size() - (int)v.size() == saved, "saved", "shortcut saves " + std::to_string((int)cur.size() - (int)v.size()) + " points, reported are " + std::to_string(saved));
                    for (int k = 0; k <= a; k++) c.check((v[k] - cur[k]).norm() == 0, "before", "a shortcut changes points before it");
                    for (size_t k = b; k < cur.size(); k++) c.check((v[k - saved] - cur[k]).norm() == 0, "after", "a shortcut changes points behind it");
                    CSpacePathPtr w = p.w.cs->createPath(vf(cur[a]), vf(cur[b]));
                    for (unsigned k = 0; k < w->getNrOfPoints(); k++) c.check((v[a + k] - w->getPoint(k).cast<double>()).norm() <= p.tol(v[a + k]), "direct", "points of a shortcut");
                    cur = v;
                }
            }
            auto before = points(sp->getOptimizedPath() ? sp->getOptimizedPath() : path);
            int n = (int)before.size();
            int r = sp->doShortcut(s.chance(0.5) ? -1 : n, s.chance(0.5) ? 0 : n + 1);
            c.check(r == 0 && equal(points(sp->getOptimizedPath()), before), "outside", "shortcut of points that do not exist");
            judgeResult(sp->getOptimizedPath(), "shortcuts");
            c.nontrivial(did > 0);
        }
    }

    bool wait(PathProcessingThread& t, int ms)
    {
        for (int i = 0; i < ms && t.isRunning(); i++) std::this_thread::sleep_for(std::chrono::milliseconds(1));
        return !t.isRunning();
    }
    void threads(Src& s, pbt::Ctx& c)
    {
        PWorld p = world(s, c);
        CSpacePathPtr path = zigzag(s, p, 2 + (int)s.draw(6));
        auto orig = points(path);
        if (!p.ok(orig[0])) c.discard();
        double L = length(p, orig), T = p.tol(orig[0]) * orig.size();
        c.describe(show(p.w.d) + " " + std::to_string(orig.size()) + " points of length " + num(L));
        PathProcessorPtr sp(new ShortcutProcessor(path, p.w.cs));
        PathProcessingThread t(sp);
        c.check(t.getPathProcessor() == sp && !t.isRunning() && !t.getProcessedPath(), "idle", "new thread");
        t.interrupt(s.chance(0.5));
        int runs = 1 + (int)s.draw(3), stops = 0;
        for (int i = 0; i < runs; i++)
        {
            bool endless = s.chance(0.4) && orig.size() > 2;
            t.start(endless ? 2000000000 : (int)s.draw(100));
            if (s.chance(0.3)) t.start(5);
            if (endless || s.chance(0.3))
            {
                if (s.chance(0.5)) std::this_thread::sleep_for(std::chrono::microseconds(s.draw(3000)));
                if (endless) c.check(t.isRunning() && !t.getProcessedPath(), "running", "thread is not running or has a result already");
                if (s.chance(0.3)) t.interrupt(false);
                if (s.chance(0.5)) t.stop(); else t.interrupt(true);
                c.check(!t.isRunning(), "stopped", "thread is running after it was stopped");
                stops++;
            }
            else c.check(wait(t, 20000), "finish", "thread does not finish");
            auto r = t.getProcessedPath();
            c.check((bool)r && r == sp->getOptimizedPath(), "result", "no result of the thread");
            c.check(equal(points(path), orig), "original", "the original path changes");
            c.check(exact(orig[0], r->getPoint(0)) && exact(orig.back(), r->getPoint(r->getNrOfPoints() - 1)), "ends", "start or goal change");
            c.check(length(p, points(r)) <= L + T, "longer", "the path gets longer");
            judge(c, p, points(r), "result of the thread");
        }
        c.nontrivial(stops > 0 || runs > 1);
    }

    // forces on the points of an elastic band
    void elastic(Src& s, pbt::Ctx& c)
    {
        PWorld p = world(s, c, false, false, 1);
        auto& d = p.w.d;
        CSpacePathPtr path(new CSpacePath(p.w.cs));
        int k = (int)s.draw(9);
        std::vector<VX> orig;
        // single steps, or configurations anywhere
        VX at = config(s, d);
        for (int i = 0; i < k; i++)
        {
            if (s.chance(0.3)) at = config(s, d);
            else for (int j = 0; j < d.n(); j++) at[j] = fl(std::min(d.hi[j], std::max(d.lo[j], at[j] + s.uniform(-0.2, 0.2) * (d.hi[j] - d.lo[j]))));
            orig.push_back(at);
            path->addPoint(vf(at));
        }
        RobotNodePtr node;
        for (auto& n : p.w.r->getRobotNodes()) if (n->getCollisionModel() && (!node || s.chance(0.5))) node = n;
        SceneObjectSetPtr world(new SceneObjectSet("world"));
        for (auto& b : p.obs) { if (s.chance(0.4)) { Eigen::Matrix4f m = b->getGlobalPose(); m(0, 3) += 5000; b->setGlobalPose(m); } world->addSceneObject(b); }
        bool vis = s.chance(0.5);
        p.w.r->setUpdateVisualization(vis);
        boost::shared_ptr<ElasticBandProcessor> e(new ElasticBandProcessor(path, p.w.cs, node, world, false));
        VX w = VX::Ones(d.n());
        if (s.chance(0.5)) { for (int j = 0; j < d.n(); j++) w[j] = s.chance(0.4) ? 0 : fl(s.uniform(0, 1.5)); e->setWeights(vf(w)); }
        int steps = (int)s.draw(4);
        c.describe(p.w.sp.summary() + " " + std::to_string(k) + " points, " + std::to_string(steps) + " steps");
        RobotPtr twin = p.w.r->clone("elastic", CollisionChecker::getGlobalCollisionChecker());
        RobotNodeSetPtr rns = twin->getRobotNodeSet(p.w.rns->getName());
        GenericIKSolverPtr ik(new GenericIKSolver(rns));
        bool near = false, sharp = false, clash = false;
        auto clamp = [](VX f, double m) { double n = f.norm(); return n > m ? VX(f / n * m) : f; };
        auto ext = [&](const VX& q, V3& f)
        {
            rns->setJointValues(vf(q));
            Eigen::Vector3f a, b;
            double dist = CollisionChecker::getGlobalCollisionChecker()->calculateDistance(twin->getRobotNode(node->getName())->getCollisionModel(), world, a, b);
            f.setZero();
            if (std::fabs(dist - 300) < 0.5) sharp = true;
            if (dist > 300) return true;
            near = true;
            if (dist < 1) { sharp = true; clash = dist == 0; return dist > 0; }
            f = (a - b).cast<double>().normalized() / dist;
            return true;
        };
        // reference: all points one after another
        auto pts = orig;
        double mag = 0;
        for (int st = 0; st < steps; st++)
        {
            for (int i = 1; i + 1 < (int)pts.size(); i++)
            {
                V3 f;
                if (!ext(pts[i], f)) continue;
                VX fc = ik->getDifferentialIK()->getPseudoInverseJacobianMatrix().leftCols(3).cast<double>() * f;
                mag = std::max(mag, fc.norm() * 10000);
                fc = clamp(fc * 10000, 50);
                VX nb = clamp(((pts[i - 1] - pts[i]) + (pts[i + 1] - pts[i])) * 0.25, 20);
                pts[i] += w.cwiseProduct(fc + nb);
            }
            double lim = 2 * p.step * p.step;
            for (int i = 1; i + 2 < (int)pts.size(); i++)
            {
                double a = std::pow(d.dist(pts[i - 1], pts[i]), 2) + std::pow(d.dist(pts[i], pts[i + 1]), 2);
                if (std::fabs(a - lim) < 1e-2 * lim) sharp = true;
                if (a < lim) pts.erase(pts.begin() + i);
            }
        }
        CSpacePathPtr r = e->optimize(steps);
        c.check((bool)r && r == e->getOptimizedPath(), "result", "no result");
        c.check(equal(points(path), orig), "original", "the original path changes");
        c.check(p.w.r->getUpdateVisualizationStatus() == vis, "vis", "visualisation update of the robot has changed");
        auto v = points(r);
        if (k > 0) c.check((int)v.size() >= std::min(k, 2) && (v[0] - orig[0]).norm() == 0 && (v.back() - orig.back()).norm() == 0, "ends", "start or goal have moved");
        c.check(v.size() <= orig.size(), "size", "points are added");
        for (auto& q : v) c.check(q.allFinite(), "finite", "point without a value");
        if (!near && !sharp)
        {
            c.check(v.size() == pts.size(), "count", std::to_string(v.size()) + " points remain, expected " + std::to_string(pts.size()));
            for (size_t i = 0; i < v.size(); i++) c.check((v[i] - pts[i]).cwiseAbs().maxCoeff() < 1e-3 * (1 + pts[i].cwiseAbs().maxCoeff()), "band", "point " + std::to_string(i) + " is " + show(v[i]) + ", expected " + show(pts[i]));
        }
        else if (steps == 1 && !sharp && v.size() == pts.size())
            for (size_t i = 0; i < v.size(); i++) c.check((v[i] - pts[i]).cwiseAbs().maxCoeff() < 0.03 * (1 + pts[i].cwiseAbs().maxCoeff()), "bandNear", "point " + std::to_string(i) + " is " + show(v[i]) + ", expected " + show(pts[i]));
        for (size_t i = 0; i < v.size() && v.size() == orig.size(); i++) for (int j = 0; j < d.n(); j++) if (w[j] == 0) c.check(v[i][j] == orig[i][j], "weight", "a dimension of weight 0 is changed");
        // forces of the result
        if (!v.empty())
        {
            int i = (int)s.draw(v.size());
            Eigen::Vector3f in, out;
            sharp = clash = false;
            e->getForces((unsigned)i, in, out);
            VX nb = clamp(((v[std::max(i - 1, 0)] - v[i]) + (v[std::min(i + 1, (int)v.size() - 1)] - v[i])) * 0.25, 20);
            rns->setJointValues(vf(v[i]));
            Eigen::MatrixXd J = ik->getDifferentialIK()->getJacobianMatrix(rns->getTCP(), IKSolver::Position).cast<double>();
            V3 want = J * nb;
            c.check((want - in.cast<double>()).norm() < 1e-3 * (1 + J.norm() * nb.norm()), "internal", "internal force of point " + std::to_string(i) + " is " + show(in.cast<double>()) + ", expected " + show(want));
            V3 f;
            near = false;
            if (ext(v[i], f) && !sharp && !near) c.check(out.norm() == 0, "external", "force without obstacles");
            Eigen::Vector3f at = e->getWSpacePoint(vf(v[i])), tcp = (rns->setJointValues(vf(v[i])), rns->getTCP()->getGlobalPose().block<3, 1>(0, 3));
            c.check((at - tcp).norm() < 1e-2, "tcp", "position of a point");
            e->getForces((unsigned)v.size() + (unsigned)s.draw(3), in, out);
            c.check(in.norm() == 0 && out.norm() == 0, "outside", "forces of a point that does not exist");
        }
        c.label(near ? "near" : "far");
        c.nontrivial(k > 2 && steps > 0);
    }
}

int main(int argc, char** argv)
{
    pbt::Suite suite;
    suite.property = "P25";
    suite.rule = "shortcuts: the path became shorter among forbidden regions or obstacles, was pruned partially, or a single shortcut was made; threads: stopped or started again; elastic: >=3 points and steps";
    suite.add("shortcuts", 10000, 250000, shortcuts);
    suite.add("threads", 1500, 15000, threads);
    suite.add("elastic", 5000, 50000, elastic);
    return pbt::run(argc, argv, suite);
}
