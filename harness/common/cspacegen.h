// Random configuration spaces: a chain with bounded and limitless joints, forbidden regions as constraints that record every query.
#pragma once
#include "robotgen.h"
#include <MotionPlanning/CSpace/CSpaceSampled.h>
#include <MotionPlanning/CSpace/CSpacePath.h>
#include <MotionPlanning/CSpace/CSpaceNode.h>
#include <MotionPlanning/CSpace/CSpaceTree.h>
#include <MotionPlanning/CSpace/ConfigurationConstraint.h>
#include <MotionPlanning/CSpace/Sampler.h>
#include <VirtualRobot/CollisionDetection/CDManager.h>
#include <VirtualRobot/CollisionDetection/CollisionChecker.h>

namespace gen
{
    typedef Eigen::VectorXd VX;
    inline double wrap(double a) { return std::remainder(a, 2 * M_PI); }
    struct Dims
    {
        std::vector<double> lo, hi, w;
        std::vector<char> circ;
        bool weighted = false;
        int n() const { return (int)lo.size(); }
        double delta(int i, double a, double b) const { return circ[i] ? wrap(b - a) : b - a; }
        double dist(const VX& a, const VX& b, bool noWeights = false) const
        {
            double s = 0;
            for (int i = 0; i < n(); i++) { double d = delta(i, a[i], b[i]) * (weighted && !noWeights ? w[i] : 1); s += d * d; }
            return std::sqrt(s);
        }
        // one dimension is (almost) half a turn apart: two shortest ways
        bool ambiguous(const VX& a, const VX& b) const { for (int i = 0; i < n(); i++) if (circ[i] && std::fabs(std::fabs(delta(i, a[i], b[i])) - M_PI) < 2e-3) return true; return false; }
        VX at(const VX& a, const VX& b, double t) const { VX r(n()); for (int i = 0; i < n(); i++) r[i] = a[i] + t * delta(i, a[i], b[i]); return r; }
        double mag(const VX& a) const { double m = 1; for (int i = 0; i < n(); i++) m = std::max(m, std::fabs(a[i]) * (weighted ? std::max(1., w[i]) : 1)); return m; }
        // position of x on the way from a to b, and its distance from it
        double project(const VX& a, const VX& b, const VX& x, double& off) const
        {
            double num_ = 0, den = 0;
            for (int i = 0; i < n(); i++) { double W = weighted ? w[i] * w[i] : 1, d = delta(i, a[i], b[i]); num_ += W * d * along(i, a[i], x[i], d); den += W * d * d; }
            double t = den > 0 ? num_ / den : 0;
            double s = 0;
            for (int i = 0; i < n(); i++) { double W = weighted ? w[i] * w[i] : 1, d = delta(i, a[i], b[i]), e = along(i, a[i], x[i], d) - t * d; s += W * e * e; }
            off = std::sqrt(s);
            return t;
        }
        // how far x is from a in direction d of dimension i (also for almost half a turn)
        double along(int i, double a, double x, double d) const
        {
            if (!circ[i]) return x - a;
            double e = wrap(x - a);
            if (d > 0 && e < -M_PI + 0.01) e += 2 * M_PI;
            if (d < 0 && e > M_PI - 0.01) e -= 2 * M_PI;
            return e;
        }
    };
    struct Region
    {
        std::vector<std::pair<VX, double>> balls; // centre, radius in units of the ranges
        Dims d;
        double rel(const VX& q, const VX& c) const { double s = 0; for (int i = 0; i < d.n(); i++) { double e = d.delta(i, c[i], q[i]) / (d.hi[i] - d.lo[i]); s += e * e; } return std::sqrt(s); }
        bool ok(const VX& q) const { for (auto& b : balls) if (rel(q, b.first) < b.second) return false; return true; }
    };
    class Record : public Saba::ConfigurationConstraint
    {
    public:
        Record(const Region& r) : ConfigurationConstraint((unsigned)r.d.n()), region(r) {}
        bool isValid(const Eigen::VectorXf& c) override
        {
            VX q = c.cast<double>();
            bool ok = region.ok(q);
            if (on) { seen.push_back(q); res.push_back(ok); }
            count++;
            return ok;
        }
        Region region;
        std::vector<VX> seen;
        std::vector<char> res;
        bool on = false;
        long count = 0;
    };
    typedef boost::shared_ptr<Record> RecordPtr;
    struct CWorld
    {
        RobotSpec sp;
        std::vector<int> j;
        VirtualRobot::RobotPtr r;
        VirtualRobot::RobotNodeSetPtr rns;
        VirtualRobot::CDManagerPtr cdm;
        Saba::CSpaceSampledPtr cs;
        Dims d;
        RecordPtr rec;
    };
    struct COpts
    {
        int minDim = 1, maxDim = 6;
        bool weights = true, narrow = true, limitless = true, flags = true, prismatic = true, models = false;
        unsigned maxConfigs = 3000;
        int balls = 0;
        double ballMin = 0.05, ballMax = 0.3;
    };
    inline Eigen::VectorXf vf(const VX& v) { return v.cast<float>(); }
    inline VX config(Src& s, const Dims& d)
    {
        VX v(d.n());
        for (int i = 0; i < d.n(); i++) v[i] = s.chance(0.06) ? d.lo[i] : s.chance(0.06) ? d.hi[i] : std::min(d.hi[i], std::max(d.lo[i], fl(s.uniform(d.lo[i], d.hi[i]))));
        return v;
    }
    inline CWorld cworld(Src& s, const COpts& o)
    {
        CWorld w;
        int n = (int)s.integer(o.minDim, o.maxDim), p = -1;
        auto node = [&](int parent) { Node x; x.name = "n" + std::to_string(w.sp.n.size()); x.parent = parent; w.sp.n.push_back(x); return (int)w.sp.n.size() - 1; };
        p = node(p);
        for (int i = 0; i < n; i++)
        {
            p = node(p);
            Node& x = w.sp.n[p];
            x.local = fl4(mk(rot(s), V3(s.uniform(-100, 100), s.uniform(-100, 100), s.uniform(50, 200))));
            x.type = o.prismatic && s.chance(0.25) ? PRIS : REV;
            x.axis = unit(s).cast<float>().cast<double>();
            if (x.type == PRIS) { x.lo = fl(-s.uniform(10, 400)); x.hi = fl(s.uniform(10, 400)); }
            else if (o.limitless && s.chance(0.35))
            {
                x.limitless = true;
                double c = s.chance(0.6) ? 0 : s.chance(0.5) ? M_PI : s.uniform(-2, 2);
                x.lo = fl(c - M_PI); x.hi = fl(c + M_PI);
            }
            else { x.lo = fl(-s.uniform(0.2, 3)); x.hi = fl(s.uniform(0.2, 3)); }
            if (o.models && s.chance(0.7)) { Prim b; b.kind = 0; b.a = fl(s.uniform(20, 60)); b.b = fl(s.uniform(20, 60)); b.c = fl(s.uniform(60, 150)); b.t = M4::Identity(); x.col.push_back(b); }
            w.j.push_back(p);
        }
        w.sp.link();
        for (size_t k = w.j.size(); k > 1; k--) std::swap(w.j[k - 1], w.j[s.draw(k)]);
        w.r = fromXML(w.sp);
        std::vector<std::string> nm;
        for (int k : w.j) nm.push_back(w.sp.n[k].name);
        w.rns = VirtualRobot::RobotNodeSet::createRobotNodeSet(w.r, "joints", nm, w.sp.n[0].name, w.sp.n[p].name, true);
        w.cdm.reset(new VirtualRobot::CDManager());
        w.cs.reset(new Saba::CSpaceSampled(w.r, w.cdm, w.rns, o.maxConfigs, 1 + (unsigned)s.draw(100000)));
        for (int k : w.j)
        {
            auto& x = w.sp.n[k];
            auto rn = w.r->getRobotNode(x.name);
            if (x.limitless) { x.lo = rn->getJointLimitLo(); x.hi = rn->getJointLimitHi(); } // bounds that are not exactly 360 degrees apart are replaced on loading
            w.d.lo.push_back(x.lo); w.d.hi.push_back(x.hi); w.d.w.push_back(1); w.d.circ.push_back(x.limitless);
        }
        if (o.narrow)
            for (int i = 0; i < n; i++)
                if (s.chance(0.15))
                {
                    double a = s.uniform(0, 0.4), b = s.uniform(0.5, 0.95), L = w.d.hi[i] - w.d.lo[i], l = w.d.lo[i];
                    w.d.lo[i] = fl(l + a * L); w.d.hi[i] = fl(l + b * L);
                    w.d.circ[i] = false;
                    if (s.chance(0.3)) w.cs->setBoundary(i, (float)w.d.hi[i], (float)w.d.lo[i]); else w.cs->setBoundary(i, (float)w.d.lo[i], (float)w.d.hi[i]);
                }
        if (o.weights && s.chance(0.35))
        {
            Eigen::VectorXf wt(n);
            for (int i = 0; i < n; i++) w.d.w[i] = wt[i] = (float)s.uniform(0.1, 3);
            w.cs->setMetricWeights(wt);
            w.d.weighted = true;
            if (s.chance(0.2)) { w.cs->enableWeights(false); w.d.weighted = false; }
        }
        if (o.flags && s.chance(0.1))
        {
            w.cs->checkForBorderlessDimensions(false);
            for (auto& c : w.d.circ) c = false;
        }
        Region g;
        g.d = w.d;
        for (int i = 0; i < o.balls; i++) g.balls.push_back({config(s, w.d), s.uniform(o.ballMin, o.ballMax)});
        w.rec.reset(new Record(g));
        if (o.balls) w.cs->addConstraintCheck(w.rec);
        return w;
    }
    inline std::string show(const VX& v) { std::string r; for (int i = 0; i < v.size(); i++) r += (i ? " " : "") + num(v[i]); return "(" + r + ")"; }
    inline std::string show(const Dims& d) { std::string r; for (int i = 0; i < d.n(); i++) r += "[" + num(d.lo[i]) + "," + num(d.hi[i]) + (d.circ[i] ? " circ" : "") + (d.weighted ? " w" + num(d.w[i]) : "") + "]"; return r; }
}
