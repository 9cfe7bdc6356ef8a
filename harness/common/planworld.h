// Configuration spaces with forbidden regions or obstacles, and the judgement of motions in them.
#pragma once
#include "cspacegen.h"
#include <VirtualRobot/Obstacle.h>
#include <VirtualRobot/Random.h>
#include <VirtualRobot/CollisionDetection/CollisionModel.h>

namespace gen
{
    inline bool exact(const VX& a, const Eigen::VectorXf& b) { return a.size() == b.size() && (a - b.cast<double>()).cwiseAbs().maxCoeff() == 0; }
    struct PWorld
    {
        CWorld w;
        std::vector<VirtualRobot::ObstaclePtr> obs;
        VirtualRobot::RobotPtr twin;
        double diam, step, dcd;
        bool small = false; // few nodes
        bool inside(const VX& q) const { for (int i = 0; i < w.d.n(); i++) if ((float)q[i] < (float)w.d.lo[i] || (float)q[i] > (float)w.d.hi[i]) return false; return true; }
        bool free(const VX& q) const
        {
            if (!obs.empty())
            {
                std::map<std::string, float> m;
                for (int i = 0; i < w.d.n(); i++) m[w.sp.n[w.j[i]].name] = (float)q[i];
                twin->setJointValues(m);
                for (auto& n : twin->getRobotNodes())
                    if (n->getCollisionModel()) for (auto& b : obs) if (VirtualRobot::CollisionChecker::getGlobalCollisionChecker()->checkCollision(n->getCollisionModel(), b->getCollisionModel())) return false;
            }
            return true;
        }
        bool region() const { return !w.rec->region.balls.empty(); }
        bool ok(const VX& q) const { return (!region() || w.rec->region.ok(q)) && free(q); }
        double tol(const VX& a) const { return 1e-4 * w.d.mag(a) * std::sqrt((double)w.d.n()); }
    };
    inline PWorld world(Src& s, pbt::Ctx& c, bool freeOnly = false, bool limitless = true, double models = 0.25)
    {
        PWorld p;
        COpts o;
        o.maxDim = 4;
        o.minDim = s.chance(0.1) ? 1 : 2;
        o.models = !freeOnly && s.chance(models);
        o.limitless = limitless;
        o.balls = freeOnly ? 0 : (int)s.draw(6);
        if (o.models && s.chance(0.6)) o.balls = 0;
        o.ballMin = 0.1; o.ballMax = 0.45;
        p.small = !freeOnly && s.chance(0.12);
        o.maxConfigs = p.small ? 3 + (unsigned)s.draw(60) : 4000;
        p.w = cworld(s, o);
        auto& d = p.w.d;
        if (o.models)
        {
            VirtualRobot::SceneObjectSetPtr A(new VirtualRobot::SceneObjectSet("robot")), B(new VirtualRobot::SceneObjectSet("world"));
            for (auto& n : p.w.r->getRobotNodes()) if (n->getCollisionModel()) A->addSceneObject(n);
            for (int i = 0, k = 1 + (int)s.draw(3); i < k; i++)
            {
                VirtualRobot::ObstaclePtr b = VirtualRobot::Obstacle::createBox((float)s.uniform(80, 300), (float)s.uniform(80, 300), (float)s.uniform(80, 300));
                b->setGlobalPose(f4(fl4(pose(s, 350))));
                p.obs.push_back(b);
                B->addSceneObject(b);
            }
            if (A->getSceneObjects().empty()) c.discard();
            p.w.cdm->addCollisionModelPair(A, B);
            p.twin = p.w.r->clone("twin", VirtualRobot::CollisionChecker::getGlobalCollisionChecker());
        }
        VX a(d.n()), b(d.n());
        for (int i = 0; i < d.n(); i++) { a[i] = d.lo[i]; b[i] = d.circ[i] ? d.lo[i] + 3.1 : d.hi[i]; }
        p.diam = d.dist(a, b);
        p.step = fl(p.diam / s.uniform(4, 30)), p.dcd = fl(p.diam / s.uniform(20, 80));
        p.w.cs->setSamplingSize((float)p.step);
        p.w.cs->setSamplingSizeDCD((float)p.dcd);
        // a space that is not almost completely forbidden
        int good = 0;
        for (int i = 0; i < 40; i++) good += p.ok(config(s, d));
        if (good < 4) c.discard();
        return p;
    }
    // a motion: points, spacing and no long forbidden stretch
    inline void judge(pbt::Ctx& c, PWorld& p, const std::vector<VX>& pts, const std::string& what, bool closeEnds = true)
    {
        auto& d = p.w.d;
        for (auto& q : pts) for (int i = 0; i < d.n(); i++) c.check(q[i] >= d.lo[i] - p.tol(q) && q[i] <= d.hi[i] + p.tol(q), "bounds", what + ": " + show(q) + " is out of the boundaries");
        double bad = 0, worst = 0;
        bool lastBad = pts.size() && !p.ok(pts[0]);
        for (size_t i = 1; i < pts.size(); i++)
        {
            double L = d.dist(pts[i - 1], pts[i]), lim = p.step * 1.06 + p.dcd * 1.02 + p.tol(pts[i]);
            if (closeEnds) c.check(L <= lim, "spacing", what + ": points " + num(L) + " apart, sampling size " + num(p.step) + ", " + num(p.dcd));
            if (d.ambiguous(pts[i - 1], pts[i])) { bad = 0; continue; }
            int n = std::max(1, (int)std::ceil(L / (p.dcd / 4)));
            for (int k = 1; k <= n; k++)
            {
                bool b = !p.ok(d.at(pts[i - 1], pts[i], (double)k / n));
                if (b && lastBad) bad += L / n;
                if (!b) bad = 0;
                lastBad = b;
                worst = std::max(worst, bad);
            }
        }
        c.check(worst <= 2.05 * p.dcd + p.tol(pts[0]), "valid", what + " is invalid for a distance of " + num(worst) + ", checks are to be at most " + num(p.dcd) + " apart");
    }
    inline std::vector<VX> points(const Saba::CSpacePathPtr& p) { std::vector<VX> v; for (auto& q : p->getData()) v.push_back(q.cast<double>()); return v; }
    inline VX freeConfig(Src& s, PWorld& p)
    {
        VX q = config(s, p.w.d);
        for (int i = 0; i < 30 && !p.ok(q); i++) q = config(s, p.w.d);
        return q;
    }

}
