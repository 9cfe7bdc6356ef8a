// libs: VirtualRobot Saba
// P23: configuration spaces, paths and trees
#include "common/cspacegen.h"
#include <VirtualRobot/Obstacle.h>
#include <VirtualRobot/CollisionDetection/CollisionModel.h>
#include <fstream>
using namespace VirtualRobot;
using namespace Saba;
using namespace gen;

namespace
{
    double eps(const CWorld& w, const VX& a) { return 2e-5 * w.d.mag(a) * std::sqrt((double)w.d.n()); }
    bool same(const CWorld& w, const VX& a, const VX& b, double tol) { return w.d.dist(a, b) <= tol; }
    bool exact(const VX& a, const Eigen::VectorXf& b) { return a.size() == b.size() && (a - b.cast<double>()).cwiseAbs().maxCoeff() == 0; }

    void metric(Src& s, pbt::Ctx& c)
    {
        COpts o;
        o.balls = s.chance(0.5) ? 1 + (int)s.draw(3) : 0;
        CWorld w = cworld(s, o);
        auto& d = w.d;
        c.describe(show(d));
        c.check((int)w.cs->getDimension() == d.n() && w.cs->getRobot() == w.r && w.cs->getRobotNodeSet() == w.rns, "access", "dimension, robot or node set");
        for (int i = 0; i < d.n(); i++)
            c.check(w.cs->getBoundaryMin(i) == (float)d.lo[i] && w.cs->getBoundaryMax(i) == (float)d.hi[i] && std::fabs(w.cs->getBoundaryDist(i) - (d.hi[i] - d.lo[i])) < 1e-4, "boundary", "boundary of dimension " + std::to_string(i));
        VX a = config(s, d), b = config(s, d);
        double e = eps(w, a) + eps(w, b);
        c.near(w.cs->calcDist(vf(a), vf(b)), d.dist(a, b), e, "dist", "distance of " + show(a) + " and " + show(b));
        c.near(w.cs->calcDist(vf(b), vf(a)), d.dist(a, b), e, "distSym", "distance in the other direction");
        c.near(w.cs->calcDist2(vf(a), vf(b)), d.dist(a, b) * d.dist(a, b), e * (1 + 2 * d.dist(a, b)), "dist2", "squared distance");
        c.near(w.cs->calcDist(vf(a), vf(b), true), d.dist(a, b, true), e, "distUnweighted", "distance without weights");
        c.near(w.cs->calcDist(vf(a), vf(a)), 0, e, "dist0", "distance to itself");
        if (!d.ambiguous(a, b))
        {
            double t = s.chance(0.2) ? (double)s.draw(2) : fl(s.unit());
            VX m = w.cs->interpolate(vf(a), vf(b), (float)t).cast<double>(), ref = d.at(a, b, t);
            c.check(same(w, m, ref, e), "interpolate", "point " + num(t) + " between " + show(a) + " and " + show(b) + " is " + show(m) + ", expected " + show(ref));
            for (int i = 0; i < d.n(); i++)
            {
                c.check(std::fabs(w.cs->interpolate(vf(a), vf(b), i, (float)t) - m[i]) < 1e-6, "interpolateDim", "interpolation of one dimension");
                c.check(m[i] >= d.lo[i] - e && m[i] <= d.hi[i] + e, "interpolateBounds", "interpolation leaves the boundaries in dimension " + std::to_string(i) + ": " + show(m));
            }
        }
        // boundaries
        VX x = config(s, d);
        bool in = true;
        VX cl = x;
        for (int i = 0; i < d.n(); i++) if (s.chance(0.2)) { double L = d.hi[i] - d.lo[i]; x[i] = fl(s.chance(0.5) ? d.lo[i] - s.uniform(0, 1) * L : d.hi[i] + s.uniform(0, 1) * L); }
        for (int i = 0; i < d.n(); i++) { in &= (float)x[i] >= (float)d.lo[i] && (float)x[i] <= (float)d.hi[i]; cl[i] = std::min((double)(float)d.hi[i], std::max((double)(float)d.lo[i], x[i])); }
        c.check(w.cs->isInBoundary(vf(x)) == in, "inBoundary", "isInBoundary of " + show(x));
        Eigen::VectorXf y = vf(x);
        w.cs->respectBoundaries(y);
        c.check(exact(cl, y), "respect", "clamping to the boundaries");
        bool ok = o.balls == 0 || w.rec->region.ok(x);
        c.check(w.cs->isSatisfyingConstraints(vf(x)) == ok, "constraint", "constraints of " + show(x));
        c.check(w.cs->isConfigValid(vf(x)) == (ok && in) && w.cs->isConfigValid(vf(x), false) == ok && w.cs->isConfigValid(vf(x), false, true, false) && w.cs->isConfigValid(vf(x), true, true, false) == in, "valid", "validity of " + show(x));
        // random configurations
        Eigen::VectorXf q(d.n());
        bool check = s.chance(0.5);
        int okCount = 0;
        if (check) for (int i = 0; i < 60; i++) { VX z = config(s, d); okCount += w.rec->region.ok(z); }
        if (!check || okCount > 3)
            for (int k = 0; k < 10; k++)
            {
                w.cs->getRandomConfig(q, check);
                c.check(w.cs->isInBoundary(q), "randomBounds", "random configuration out of the boundaries");
                if (check && o.balls) c.check(w.rec->region.ok(q.cast<double>()), "randomValid", "random valid configuration is invalid");
                int i = (int)s.draw(d.n());
                float u = w.cs->getRandomConfig_UniformSampling(i);
                c.check(u >= (float)d.lo[i] && u <= (float)d.hi[i], "randomDim", "random value out of the boundary");
            }
        bool anyCirc = false;
        for (char k : d.circ) anyCirc |= k;
        c.nontrivial(d.n() > 1 && (anyCirc || d.weighted || o.balls));
    }

    class Grid : public Sampler
    {
    public:
        Grid(unsigned n) : Sampler(n), n(n) {}
        void sample(Eigen::VectorXf& q, CSpacePtr space) override { getUniformlyRandomConfig(q, space); used++; }
        void enableMetricWeights(const Eigen::VectorXf&) override {}
        void disableMetricWeights() override {}
        unsigned n;
        int used = 0;
    };
    // collisions of configurations, samplers, clones
    void collisions(Src& s, pbt::Ctx& c)
    {
        COpts o;
        o.models = true;
        o.balls = s.chance(0.4) ? 1 : 0;
        o.minDim = 2;
        CWorld w = cworld(s, o);
        auto& d = w.d;
        c.describe(w.sp.summary());
        std::vector<ObstaclePtr> obs;
        SceneObjectSetPtr A(new SceneObjectSet("robot")), B(new SceneObjectSet("world"));
        for (auto& n : w.r->getRobotNodes()) if (n->getCollisionModel()) A->addSceneObject(n);
        int k = 1 + (int)s.draw(3);
        for (int i = 0; i < k; i++)
        {
            ObstaclePtr b = Obstacle::createBox((float)s.uniform(80, 400), (float)s.uniform(80, 400), (float)s.uniform(80, 400));
            b->setGlobalPose(f4(fl4(pose(s, 320))));
            obs.push_back(b);
            B->addSceneObject(b);
        }
        if (A->getSceneObjects().empty()) c.discard();
        w.cdm->addCollisionModelPair(A, B);
        auto ref = [&](const RobotPtr& r, const VX& q)
        {
            std::map<std::string, float> m;
            for (int i = 0; i < d.n(); i++) m[w.sp.n[w.j[i]].name] = (float)q[i];
            r->setJointValues(m);
            for (auto& n : r->getRobotNodes())
                if (n->getCollisionModel()) for (auto& b : obs) if (CollisionChecker::getGlobalCollisionChecker()->checkCollision(n->getCollisionModel(), b->getCollisionModel())) return false;
            return true;
        };
        RobotPtr twin = w.r->clone("twin", CollisionChecker::getGlobalCollisionChecker());
        int free = 0, col = 0;
        for (int i = 0; i < 6; i++)
        {
            VX q = config(s, d);
            bool want = ref(twin, q);
            want ? free++ : col++;
            int before = w.cs->performaceVars_collisionCheck;
            c.check(w.cs->isCollisionFree(vf(q)) == want, "collisionFree", "collision status of " + show(q));
            c.check(w.cs->performaceVars_collisionCheck == before + 1, "count", "number of collision checks");
            c.check(w.cs->isConfigValid(vf(q), true, true, false) == want, "configValid", "validity of " + show(q));
            if (o.balls) c.check(w.cs->isConfigValid(vf(q)) == (want && w.rec->region.ok(q)), "configValidC", "validity with constraints");
            float dist = w.cs->calculateObstacleDistance(vf(q));
            double best = 1e30;
            ref(twin, q);
            for (auto& n : twin->getRobotNodes()) if (n->getCollisionModel()) for (auto& b : obs) best = std::min(best, (double)CollisionChecker::getGlobalCollisionChecker()->calculateDistance(n->getCollisionModel(), b->getCollisionModel()));
            c.check(std::fabs(dist - best) < 0.05, "obstacleDist", "distance to the obstacles " + num(dist) + ", expected " + num(best));
        }
        // exclusive access does not change results
        w.cs->exclusiveRobotAccess(true);
        VX q = config(s, d);
        c.check(w.cs->isCollisionFree(vf(q)) == ref(twin, q), "locked", "collision status with locking");
        w.cs->exclusiveRobotAccess(false);
        // sampler
        boost::shared_ptr<Grid> g(new Grid(d.n()));
        w.cs->setRandomSampler(g);
        Eigen::VectorXf x(d.n());
        std::vector<double> mn(d.n(), 1e30), mx(d.n(), -1e30);
        for (int i = 0; i < 20; i++)
        {
            x.setConstant(1e6f);
            w.cs->getRandomConfig(x);
            c.check(w.cs->isInBoundary(x), "sampler", "configuration of a uniform sampler is " + show(x.cast<double>()));
            for (int k = 0; k < d.n(); k++) { mn[k] = std::min(mn[k], (double)x[k]); mx[k] = std::max(mx[k], (double)x[k]); }
        }
        c.check(g->used == 20, "samplerUsed", "the sampler was not used");
        for (int k = 0; k < d.n(); k++) c.check(mx[k] - mn[k] > 0.2 * (d.hi[k] - d.lo[k]), "samplerSpread", "the sampler does not cover dimension " + std::to_string(k));
        w.cs->setRandomSampler(SamplerPtr());
        w.cs->getRandomConfig(x);
        c.check(g->used == 20 && w.cs->isInBoundary(x), "samplerOff", "the sampler is still used");
        // a clone for another robot
        CollisionCheckerPtr cc(new CollisionChecker());
        RobotPtr other = w.r->clone("other", cc);
        CDManagerPtr cdm(new CDManager(cc));
        SceneObjectSetPtr A2(new SceneObjectSet("robot", cc)), B2(new SceneObjectSet("world", cc));
        for (auto& n : other->getRobotNodes()) if (n->getCollisionModel()) A2->addSceneObject(n);
        for (auto& b : obs) B2->addSceneObject(b->clone(b->getName(), cc));
        cdm->addCollisionModelPair(A2, B2);
        w.cs->setSamplingSize((float)s.uniform(0.01, 5));
        w.cs->setSamplingSizeDCD((float)s.uniform(0.01, 5));
        CSpaceSampledPtr cl = boost::dynamic_pointer_cast<CSpaceSampled>(w.cs->clone(cc, other, cdm, (unsigned)s.draw(3)));
        c.check(!!cl, "clone", "no clone");
        c.check(cl->getRobot() == other && cl->getRobotNodeSet()->getRobot() == other && (int)cl->getDimension() == d.n(), "cloneParts", "robot, node set or collision manager of the clone");
        c.check(cl->getSamplingSize() == w.cs->getSamplingSize() && cl->getSamplingSizeDCD() == w.cs->getSamplingSizeDCD(), "cloneSampling", "sampling sizes of the clone");
        for (int i = 0; i < 3; i++)
        {
            VX a = config(s, d), b = config(s, d), keep(d.n());
            for (int k = 0; k < d.n(); k++) { c.check(cl->getBoundaryMin(k) == w.cs->getBoundaryMin(k) && cl->getBoundaryMax(k) == w.cs->getBoundaryMax(k), "cloneBoundary", "boundary of the clone"); keep[k] = w.r->getRobotNode(w.sp.n[w.j[k]].name)->getJointValue(); }
            c.check(cl->calcDist(vf(a), vf(b)) == w.cs->calcDist(vf(a), vf(b)), "cloneDist", "distance in the clone");
            bool want = ref(twin, a);
            c.check(cl->isCollisionFree(vf(a)) == want, "cloneCollision", "collision status in the clone");
            for (int k = 0; k < d.n(); k++) c.check(keep[k] == w.r->getRobotNode(w.sp.n[w.j[k]].name)->getJointValue(), "cloneMoves", "the clone moves the original robot");
            if (o.balls) c.check(cl->isConfigValid(vf(a)) == (want && w.rec->region.ok(a)), "cloneConstraint", "validity in the clone with constraints");
        }
        for (int k = 0; k < 4; k++) cl->createNewNode();
        c.nontrivial(free > 0 && col > 0);
    }

    // what was checked on the way from a to b
    void covered(pbt::Ctx& c, const CWorld& w, const VX& a, const VX& b, const std::vector<VX>& seen, double step, double upto, bool exactEnd, const std::string& what)
    {
        double L = w.d.dist(a, b), tol = 10 * (eps(w, a) + eps(w, b)), off;
        std::vector<double> t{0};
        for (auto& q : seen)
        {
            double x = w.d.project(a, b, q, off);
            c.check(off < tol && x * L > -tol && (x - 1) * L < tol, "offWay", what + " checks " + show(q) + " which is not between " + show(a) + " and " + show(b));
            t.push_back(x);
        }
        std::sort(t.begin(), t.end());
        for (size_t i = 1; i < t.size() && t[i - 1] < upto; i++) c.check((t[i] - t[i - 1]) * L <= step * 1.002 + tol, "gap", what + " leaves a gap of " + num((t[i] - t[i - 1]) * L) + " unchecked, sampling size " + num(step));
        if (exactEnd) c.check((1 - t.back()) * L <= tol, "endUnchecked", what + " does not check the end");
    }
    void paths(Src& s, pbt::Ctx& c)
    {
        COpts o;
        o.balls = (int)s.draw(4);
        o.maxDim = 4;
        o.ballMax = 0.25;
        CWorld w = cworld(s, o);
        auto& d = w.d;
        VX a = config(s, d), b = config(s, d);
        if (s.chance(0.05)) b = a;
        if (d.ambiguous(a, b)) c.discard();
        double L = d.dist(a, b);
        double step = fl(std::max(L, 1e-3) / s.uniform(0.5, 40)), dcd = fl(std::max(L, 1e-3) / s.uniform(0.5, 60));
        w.cs->setSamplingSize((float)step);
        w.cs->setSamplingSizeDCD((float)dcd);
        c.describe(show(d) + " from " + show(a) + " to " + show(b) + " sampling " + num(step) + ", " + num(dcd) + ", " + std::to_string(o.balls) + " regions");
        double tol = 10 * (eps(w, a) + eps(w, b));
        auto check = [&](const CSpacePathPtr& p, double maxStep, const std::string& what, bool complete)
        {
            c.check(p && p->getNrOfPoints() >= 1, "noPath", what + " gives no path");
            c.check(exact(a, p->getPoint(0)), "pathStart", what + " does not start at the start");
            double last = 0, off;
            for (unsigned i = 1; i < p->getNrOfPoints(); i++)
            {
                VX q = p->getPoint(i).cast<double>();
                double t = d.project(a, b, q, off);
                c.check(off < tol, "pathOff", what + ": " + show(q) + " is not between start and goal");
                c.check(t * L > last * L - tol && (t - last) * L <= maxStep + tol, "pathStep", what + ": step from " + num(last * L) + " to " + num(t * L) + ", sampling size " + num(step));
                last = t;
            }
            if (complete) c.check(d.dist(b, p->getPoint(p->getNrOfPoints() - 1).cast<double>()) <= tol, "pathGoal", what + " does not end at the goal");
            return last;
        };
        // without checks
        w.rec->on = true;
        CSpacePathPtr p = w.cs->createPath(vf(a), vf(b));
        check(p, 1.06 * step, "createPath", true);
        c.check(p->getNrOfPoints() <= (L + tol) / step + 3, "pathPoints", "createPath made " + std::to_string(p->getNrOfPoints()) + " points for " + num(L / step) + " steps");
        // validity of the way
        w.rec->seen.clear(); w.rec->res.clear();
        bool valid = w.cs->isPathValid(vf(a), vf(b));
        bool bad = false;
        for (char k : w.rec->res) bad |= !k;
        auto seen = w.rec->seen;
        w.rec->on = false;
        if (o.balls)
        {
            c.check(valid == !bad, "pathValid", "isPathValid is " + std::to_string(valid) + " although a configuration on the way is " + (bad ? "invalid" : "valid"));
            if (valid) covered(c, w, a, b, seen, dcd, 2, true, "isPathValid");
            for (auto& q : seen) { double off; d.project(a, b, q, off); c.check(off < tol, "validOff", "isPathValid checks " + show(q)); }
        }
        else c.check(valid, "pathValidFree", "isPathValid is false without obstacles");
        // until invalid
        float len = -1;
        w.rec->seen.clear(); w.rec->res.clear();
        w.rec->on = true;
        p = w.cs->createPathUntilInvalid(vf(a), vf(b), len);
        w.rec->on = false;
        double last = check(p, step + dcd * 1.01, "createPathUntilInvalid", false);
        bad = false;
        for (char k : w.rec->res) bad |= !k;
        if (o.balls)
        {
            c.check((len == 1.0f) == !bad, "untilLen", "length " + num(len) + " with " + (bad ? "an invalid" : "no invalid") + " configuration");
            std::vector<VX> good;
            for (size_t i = 0; i < w.rec->seen.size(); i++) if (w.rec->res[i]) good.push_back(w.rec->seen[i]);
            covered(c, w, a, b, w.rec->seen, dcd, bad ? 2 : 2, !bad && L > tol, "createPathUntilInvalid");
            for (unsigned i = 1; i < p->getNrOfPoints(); i++) c.check(w.rec->region.ok(p->getPoint(i).cast<double>()), "untilInvalid", "createPathUntilInvalid returns an invalid configuration");
            double far = 0, off;
            for (auto& q : good) far = std::max(far, d.project(a, b, q, off));
            if (bad) c.check((far - last) * L <= step + dcd * 1.01 + tol, "untilShort", "createPathUntilInvalid stops at " + num(last * L) + " although everything up to " + num(far * L) + " is valid");
        }
        else c.check(len == 1.0f, "untilFree", "length " + num(len) + " without obstacles");
        if (len == 1.0f && L > tol) c.check(exact(b, p->getPoint(p->getNrOfPoints() - 1)), "untilGoal", "complete path does not end at the goal");
        c.check(len >= 0 && len <= 1, "untilRange", "length " + num(len));
        if (L > 0) c.check(std::fabs(len - last) * L <= 2 * dcd + step + tol, "untilValue", "length " + num(len) + " of a path up to " + num(last));
        if (o.balls) c.label(bad ? "blocked" : "free");
        c.nontrivial(L > 0 && seen.size() > 2);
        // checking a whole solution
        double diam = 0;
        for (int i = 0; i < d.n(); i++) diam += (d.hi[i] - d.lo[i]) * (d.weighted ? d.w[i] : 1);
        w.cs->setSamplingSizeDCD((float)(diam / s.uniform(1, 40)));
        CSpacePathPtr sol(new CSpacePath(w.cs));
        int k = (int)s.draw(5);
        VX prev = a;
        bool all = true;
        std::vector<VX> pts;
        for (int i = 0; i < k; i++) { VX q = config(s, d); sol->addPoint(vf(q)); pts.push_back(q); }
        for (int i = 1; i < k; i++) all &= w.cs->isPathValid(vf(pts[i]), vf(pts[i - 1]));
        c.check(w.cs->checkSolution(sol) == all, "checkSolution", "checkSolution of " + std::to_string(k) + " points is " + std::to_string(!all));
        c.check(!w.cs->checkSolution(CSpacePathPtr()), "checkSolutionNull", "checkSolution of nothing");
    }

    // positions on a path
    void along(Src& s, pbt::Ctx& c)
    {
        COpts o;
        o.maxDim = 4;
        CWorld w = cworld(s, o);
        auto& d = w.d;
        CSpacePathPtr p(new CSpacePath(w.cs, "path"));
        int k = 1 + (int)s.draw(7);
        std::vector<VX> pts;
        for (int i = 0; i < k; i++)
        {
            VX q = i && s.chance(0.1) ? pts.back() : config(s, d);
            if (i && d.ambiguous(pts.back(), q)) q = pts.back();
            pts.push_back(q);
            p->addPoint(vf(q));
        }
        std::string text = show(d);
        for (auto& q : pts) text += " " + show(q);
        c.describe(text);
        std::vector<double> len(k, 0), plain(k, 0);
        for (int i = 1; i < k; i++) { len[i] = len[i - 1] + d.dist(pts[i - 1], pts[i]); plain[i] = plain[i - 1] + d.dist(pts[i - 1], pts[i], true); }
        double tol = k * 10 * eps(w, pts[0]);
        for (auto& q : pts) tol = std::max(tol, k * 10 * eps(w, q));
        c.check(p->getCSpace() == w.cs && (int)p->getDimension() == d.n() && (int)p->getNrOfPoints() == k, "pathParts", "parts of the path");
        c.near(p->getLength(), len[k - 1], tol, "length", "length");
        c.near(p->getLength(true), len[k - 1], tol, "lengthW", "weighted length");
        c.near(p->getLength(false), plain[k - 1], tol, "lengthP", "unweighted length");
        int i0 = (int)s.draw(k), i1 = i0 + (int)s.draw(k - i0);
        c.near(p->getLength(i0, i1), len[i1] - len[i0], tol, "lengthPart", "length of a part");
        c.near(p->getLength(i0, i1, false), plain[i1] - plain[i0], tol, "lengthPartP", "unweighted length of a part");
        double L = len[k - 1];
        if (L > 1e-3)
        {
            double tt = 20 * tol / L + 1e-5;
            for (int i = 0; i < k; i++)
            {
                double t = p->getTime(i);
                c.near(t, len[i] / L, tt, "time", "time of point " + std::to_string(i));
            }
            for (int j = 0; j < 4; j++)
            {
                double t = j == 0 ? (double)s.draw(2) : fl(s.unit());
                Eigen::VectorXf q;
                int idx = -7;
                p->interpolate((float)t, q, s.chance(0.5) ? &idx : nullptr);
                VX Q = q.cast<double>();
                double at = t * L;
                // the position with this length
                bool ok = false;
                std::string want;
                for (int i = 1; i < k; i++)
                    if (at >= len[i - 1] - tol && at <= len[i] + tol)
                    {
                        double l = len[i] - len[i - 1], f = l > 0 ? std::min(1., std::max(0., (at - len[i - 1]) / l)) : 0;
                        VX r = d.at(pts[i - 1], pts[i], f);
                        want = show(r);
                        if (d.dist(r, Q) < 5 * tol) ok = true;
                    }
                c.check(ok, "at", "position " + num(t) + " is " + show(Q) + ", expected " + want);
                if (idx != -7 && t > 0 && t < 1) c.check(idx >= 0 && idx < k - 1 && at >= len[idx] - 2 * tol && at <= len[idx + 1] + 2 * tol, "index", "index " + std::to_string(idx) + " at " + num(t));
            }
            c.nontrivial(k > 2);
        }
        else
        {
            Eigen::VectorXf q;
            p->interpolate((float)s.unit(), q);
            c.check(d.dist(q.cast<double>(), pts[0]) <= 1e-3, "at0", "position on a path without length");
        }
        CSpacePathPtr cl = p->clone();
        c.check(cl->getNrOfPoints() == p->getNrOfPoints() && cl->getCSpace() == w.cs && cl->getName() == "path", "cloneParts", "clone of a path");
        for (int i = 0; i < k; i++) c.check(exact(pts[i], cl->getPoint(i)), "clonePoint", "point of the clone");
        cl->erasePosition(0);
        c.check((int)p->getNrOfPoints() == k, "cloneShared", "the clone is not independent");
    }

    // trees against a model
    struct MNode { VX q; int parent; CSpaceNodePtr n; };
    class Tree : public CSpaceTree
    {
    public:
        Tree(CSpacePtr c) : CSpaceTree(c) {}
        using CSpaceTree::getPathDist;
    };
    void trees(Src& s, pbt::Ctx& c)
    {
        COpts o;
        o.maxDim = 4;
        o.balls = (int)s.draw(3);
        o.maxConfigs = s.chance(0.3) ? 5 + (unsigned)s.draw(40) : 2000;
        CWorld w = cworld(s, o);
        auto& d = w.d;
        double diam = 0;
        { VX a(d.n()), b(d.n()); for (int i = 0; i < d.n(); i++) { a[i] = d.lo[i]; b[i] = d.circ[i] ? d.lo[i] + 3.1 : d.hi[i]; } diam = d.dist(a, b); }
        double step = fl(diam / s.uniform(3, 30)), dcd = fl(diam / s.uniform(3, 60));
        w.cs->setSamplingSize((float)step);
        w.cs->setSamplingSizeDCD((float)dcd);
        boost::shared_ptr<Tree> t(new Tree(w.cs));
        bool children = s.chance(0.5);
        t->setUpdateChildren(children);
        c.check((int)t->getDimension() == d.n() && t->getCSpace() == w.cs && t->getNrOfNodes() == 0 && !t->getLastAddedNode() && t->getUpdateChildren() == children, "empty", "new tree");
        std::map<int, MNode> m;
        std::vector<int> order;
        std::string h = show(d);
        unsigned used = 0;
        auto add = [&](const CSpaceNodePtr& n, const VX& q, int parent)
        {
            c.check(n && !m.count(n->ID), "id", "new node with an ID in use");
            m[n->ID] = MNode{q, parent, n};
            order.push_back(n->ID);
            used++;
        };
        // adds what the tree has and the model has not
        auto addNew = [&](int start)
        {
            int parent = start;
            auto ns = t->getNodes();
            std::vector<CSpaceNodePtr> fresh(ns.begin() + order.size(), ns.end());
            for (auto& n : fresh)
            {
                c.check(n->parentID == parent, "chainParent", "parent of an appended node is " + std::to_string(n->parentID) + ", expected " + std::to_string(parent));
                add(n, n->configuration.cast<double>(), parent);
                parent = n->ID;
            }
            return (int)fresh.size();
        };
        int ops = 3 + (int)s.draw(25);
        bool full = false;
        for (int k = 0; k < ops && !full; k++)
        {
            int op = order.empty() ? 0 : (int)s.draw(10);
            VX q = config(s, d);
            try
            {
                if (op <= 3)
                {
                    int parent = order.empty() || s.chance(0.05) ? -1 : order[s.draw(order.size())];
                    CSpaceNodePtr n = t->appendNode(vf(q), parent);
                    c.check(exact(q, n->configuration) && n->parentID == parent && n->obstacleDistance == -1, "append", "appended node");
                    add(n, q, parent);
                    h += " append";
                }
                else if (op <= 5)
                {
                    int st = order[s.draw(order.size())], last = -3;
                    if (d.ambiguous(m[st].q, q)) continue;
                    if (used + diam / step + 5 > o.maxConfigs) continue;
                    CSpacePathPtr ref = w.cs->createPath(vf(m[st].q), vf(q));
                    bool ok = t->appendPath(m[st].n, vf(q), &last);
                    int cnt = addNew(st);
                    c.check(cnt == (int)ref->getNrOfPoints() - 1, "pathNodes", "appendPath added " + std::to_string(cnt) + " nodes, the path has " + std::to_string(ref->getNrOfPoints()));
                    if (cnt) { c.check(ok && last == order.back(), "pathLast", "last ID"); c.check(d.dist(q, m[last].q) <= 10 * eps(w, q), "pathEnd", "appendPath does not reach the end"); }
                    for (int i = 0; i < cnt; i++) c.check(ref->getPoint(i + 1) == m[order[order.size() - cnt + i]].n->configuration, "pathNode", "node of an appended path");
                    h += " path";
                }
                else if (op <= 7)
                {
                    int st = order[s.draw(order.size())], last = -3;
                    if (d.ambiguous(m[st].q, q)) continue;
                    if (used + diam / std::min(step, dcd) + 5 > o.maxConfigs) continue;
                    float len;
                    CSpacePathPtr ref = w.cs->createPathUntilInvalid(vf(m[st].q), vf(q), len);
                    bool ok = t->appendPathUntilCollision(m[st].n, vf(q), &last);
                    int cnt = addNew(st);
                    c.check(cnt == (int)ref->getNrOfPoints() - 1, "untilNodes", "appendPathUntilCollision added " + std::to_string(cnt) + " nodes");
                    if (cnt) c.check(ok == (len == 1.0f) && last == order.back(), "untilResult", "result of appendPathUntilCollision");
                    else c.check(last == -3, "untilLast", "last ID without new nodes");
                    for (int i = 0; i < cnt; i++) c.check(ref->getPoint(i + 1) == m[order[order.size() - cnt + i]].n->configuration, "untilNode", "node of an appended path");
                    h += " until";
                }
                else if (op == 8)
                {
                    // remove a leaf
                    std::set<int> parents;
                    for (auto& x : m) parents.insert(x.second.parent);
                    std::vector<int> leaves;
                    for (int id : order) if (!parents.count(id)) leaves.push_back(id);
                    if (leaves.empty()) continue;
                    int id = s.pick(leaves);
                    t->removeNode(m[id].n);
                    m.erase(id);
                    order.erase(std::find(order.begin(), order.end(), id));
                    used--;
                    h += " remove";
                }
                else if (s.chance(0.15))
                {
                    t->reset();
                    w.cs->reset();
                    m.clear();
                    order.clear();
                    used = 0;
                    h += " reset";
                }
            }
            catch (VirtualRobotException&)
            {
                c.check(used >= o.maxConfigs, "full", "exception although only " + std::to_string(used) + " of " + std::to_string(o.maxConfigs) + " nodes are used");
                full = true;
                c.label("full");
                break;
            }
            c.check(used <= o.maxConfigs, "overfull", "more nodes than allowed");
            c.describe(h);
            c.check(t->getNrOfNodes() == order.size(), "count", "number of nodes");
            auto ns = t->getNodes();
            for (size_t i = 0; i < order.size(); i++) c.check((int)ns[i]->ID == order[i], "order", "order of the nodes");
            if (!order.empty()) c.check((int)t->getLastAddedNode()->ID == order.back(), "last", "last added node");
        }
        if (order.empty()) { c.check(w.cs->checkTree(t), "checkEmpty", "check of an empty tree"); return; }
        for (auto& x : m)
        {
            CSpaceNodePtr n = t->getNode(x.first);
            c.check(n == x.second.n && t->hasNode(n) && exact(x.second.q, n->configuration) && n->parentID == x.second.parent && n->allocated, "node", "node " + std::to_string(x.first));
            if (children)
            {
                std::multiset<int> a, b;
                for (auto& y : n->children) a.insert(y->ID);
                for (auto& y : m) if (y.second.parent == x.first) b.insert(y.first);
                c.check(a == b, "children", "children of node " + std::to_string(x.first));
            }
        }
        // nearest neighbours
        for (int k = 0; k < 4; k++)
        {
            VX q = s.chance(0.2) ? m[order[s.draw(order.size())]].q : config(s, d);
            double best = 1e30;
            for (auto& x : m) best = std::min(best, d.dist(q, x.second.q, true));
            float dist = -1;
            CSpaceNodePtr n = t->getNearestNeighbor(vf(q), &dist);
            c.check(!!n && m.count(n->ID), "nn", "nearest neighbour is no node of the tree");
            double e = 3 * eps(w, q);
            c.check(d.dist(q, m[n->ID].q, true) <= best + e, "nnBest", "nearest neighbour is " + num(d.dist(q, m[n->ID].q, true)) + " away, another node only " + num(best));
            c.near(dist, best, e + 1e-3 * (best < 0.1), "nnDist", "distance of the nearest neighbour");
            c.check(t->getNearestNeighborID(vf(q)) == n->ID, "nnID", "ID of the nearest neighbour");
        }
        // paths in the tree
        for (int k = 0; k < 3; k++)
        {
            int a = order[s.draw(order.size())], b = order[s.draw(order.size())];
            if (s.chance(0.6)) { a = b; while (m[a].parent >= 0 && s.chance(0.8)) a = m[a].parent; }
            std::vector<VX> pts;
            bool found = false;
            double len = 0;
            for (int i = b; i >= 0; i = m[i].parent) { if (!pts.empty()) len += d.dist(pts.back(), m[i].q); pts.push_back(m[i].q); if (i == a) { found = true; break; } }
            CSpacePathPtr p(new CSpacePath(w.cs));
            bool r = t->createPath(m[a].n, m[b].n, p);
            c.check(r == found, "treePath", "path from node " + std::to_string(a) + " to " + std::to_string(b));
            if (found)
            {
                c.check(p->getNrOfPoints() == pts.size(), "treePathLen", "length of the path in the tree");
                for (size_t i = 0; i < pts.size(); i++) c.check(exact(pts[pts.size() - 1 - i], p->getPoint((unsigned)i)), "treePathPoint", "point of the path in the tree");
                c.near(t->getPathDist(a, b, true), len, 1e-4 * (1 + len) + pts.size() * eps(w, pts[0]), "pathDist", "distance of nodes " + std::to_string(a) + " and " + std::to_string(b) + " in the tree");
            }
        }
        // total length
        double total = 0, plain = 0;
        for (auto& x : m) if (x.second.parent >= 0) { total += d.dist(x.second.q, m[x.second.parent].q); plain += d.dist(x.second.q, m[x.second.parent].q, true); }
        double e = 1e-4 * (1 + total + plain) + m.size() * eps(w, m[order[0]].q);
        c.near(t->getTreeLength(true), total, e, "treeLength", "length of the tree");
        c.near(t->getTreeLength(false), plain, e, "treeLengthP", "unweighted length of the tree");
        // validity of the tree
        bool all = true;
        for (auto& x : m) if (x.second.parent >= 0) all &= w.cs->isPathValid(vf(x.second.q), vf(m[x.second.parent].q));
        c.check(w.cs->checkTree(t) == all, "checkTree", "check of the tree");
        // file
        if (s.chance(0.1))
        {
            std::string f = pbt::scratch() + "/tree.txt";
            c.check(t->saveAllNodes(f.c_str()), "save", "saving the nodes");
            std::ifstream in(f);
            std::string line;
            std::vector<std::string> L;
            while (std::getline(in, line)) if (!line.empty() && line[0] != '#') L.push_back(line);
            c.check(L.size() == 3 + order.size() && L[0] == "joints" && L[1] == std::to_string(d.n()) && L[2] == std::to_string(order.size()), "saveHead", "head of the saved file");
            for (size_t i = 0; i < order.size(); i++)
            {
                std::istringstream is(L[3 + i]);
                int id, par;
                is >> id;
                c.check(id == order[i], "saveId", "ID in the saved file");
                for (int k = 0; k < d.n(); k++) { double v; is >> v; c.check(std::fabs(v - m[id].q[k]) < 1e-5 * (1 + std::fabs(v)), "saveValue", "value in the saved file"); }
                is >> par;
                c.check(!!is && par == m[id].parent, "saveParent", "parent in the saved file");
            }
        }
        c.nontrivial(order.size() >= 4);
    }
}

int main(int argc, char** argv)
{
    pbt::Suite suite;
    suite.property = "P23";
    suite.rule = "metric: >=2 dimensions and circular, weighted or constrained; collisions: free and colliding configurations; paths: >=3 configurations checked; along: >=3 points; trees: >=4 nodes";
    suite.init = [] { initVR("P23"); };
    suite.add("metric", 15000, 200000, metric);
    suite.add("collisions", 4000, 30000, collisions);
    suite.add("paths", 15000, 200000, paths);
    suite.add("along", 15000, 200000, along);
    suite.add("trees", 10000, 100000, trees);
    return pbt::run(argc, argv, suite);
}
