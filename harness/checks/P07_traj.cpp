// libs: VirtualRobot
// P07: joint-space trajectories and robot configurations behave like the sequences and maps they represent
#include "common/robotgen.h"
#include <VirtualRobot/Trajectory.h>
using namespace VirtualRobot;
using namespace gen;

namespace
{
    typedef Eigen::VectorXd V;
    typedef std::vector<V> Pts;
    struct World
    {
        RobotSpec sp;
        RobotPtr r;
        std::vector<int> j;
        RobotNodeSetPtr rns;
    };
    World world(Src& s, int minJ = 1)
    {
        World w;
        RobotOpts o;
        o.minNodes = 2;
        o.maxNodes = 7;
        o.limitless = false;
        w.sp = robotSpec(s, o);
        for (auto& n : w.sp.n) if (n.type == FIXED && s.chance(0.5)) { n.type = REV; n.lo = -2; n.hi = 2; }
        auto js = w.sp.joints();
        while ((int)js.size() < minJ)
        {
            for (size_t i = 0; i < w.sp.n.size() && (int)js.size() < minJ; i++) if (w.sp.n[i].type == FIXED) { w.sp.n[i].type = REV; w.sp.n[i].lo = -2; w.sp.n[i].hi = 2; js = w.sp.joints(); }
            if ((int)js.size() < minJ && (int)w.sp.joints().size() == (int)w.sp.n.size()) break;
        }
        w.r = fromXML(w.sp);
        for (int k : js) if (s.chance(0.7)) w.j.push_back(k);
        if (w.j.empty()) w.j.push_back(js[0]);
        for (size_t k = w.j.size(); k > 1; k--) std::swap(w.j[k - 1], w.j[s.draw(k)]);
        std::vector<std::string> nm;
        for (int k : w.j) nm.push_back(w.sp.n[k].name);
        w.rns = RobotNodeSet::createRobotNodeSet(w.r, "set", nm, w.sp.n[0].name, w.sp.n[s.draw(w.sp.n.size())].name, true);
        return w;
    }
    V point(Src& s, const World& w)
    {
        V v(w.j.size());
        for (size_t i = 0; i < w.j.size(); i++) v(i) = randomQ(s, w.sp.n[w.j[i]]);
        return v;
    }
    Eigen::VectorXf vf(const V& v) { return v.cast<float>(); }
    double length(const Pts& p) { double l = 0; for (size_t i = 1; i < p.size(); i++) l += (p[i] - p[i - 1]).norm(); return l; }
    void compare(pbt::Ctx& c, const TrajectoryPtr& t, const Pts& m, const std::string& h)
    {
        c.check(t->getNrOfPoints() == m.size(), "count", h + ": " + std::to_string(t->getNrOfPoints()) + " points, expected " + std::to_string(m.size()));
        c.check(t->getPoints().size() == m.size() && t->getData().size() == m.size(), "data", h + ": data vectors");
        for (size_t i = 0; i < m.size(); i++)
        {
            c.check((V)t->getPoint((unsigned)i).cast<double>() == m[i], "point", h + ": point " + std::to_string(i) + " is " + str(t->getPoint((unsigned)i).transpose()) + ", expected " + str(m[i].transpose()));
            c.check(t->getPointRef((unsigned)i) == t->getPoint((unsigned)i) && t->getPoints()[i] == t->getPoint((unsigned)i), "ref", h + ": access paths differ");
        }
        double L = length(m);
        c.near(t->getLength(), L, 1e-5 * (1 + L) * (1 + m.size()), "length", h + ": length");
    }
    void edit(Src& s, pbt::Ctx& c)
    {
        World w = world(s);
        TrajectoryPtr t(new Trajectory(w.rns, "traj"));
        c.check(t->getDimension() == w.j.size() && t->getName() == "traj" && t->getRobotNodeSet() == w.rns, "basics", "dimension, name or node set");
        Pts m;
        std::string h;
        std::vector<std::pair<TrajectoryPtr, Pts>> old;
        int n = (int)s.integer(1, 12), changes = 0;
        for (int k = 0; k < n; k++)
        {
            size_t op = s.weighted({5, 3, 2, 2, 2, 2, 1, 2, 2, 1, 1, 2});
            unsigned pos = (unsigned)s.draw(m.size() + 3);
            switch (op)
            {
                case 0: { V p = point(s, w); t->addPoint(vf(p)); m.push_back(p); h += " add"; break; }
                case 1: { V p = point(s, w); t->insertPosition(pos, vf(p)); if (pos <= m.size()) m.insert(m.begin() + pos, p); h += " insert@" + std::to_string(pos); break; }
                case 2:
                {
                    std::vector<Eigen::VectorXf> v;
                    Pts q;
                    for (int i = 0, e = (int)s.draw(4); i < e; i++) { q.push_back(point(s, w)); v.push_back(vf(q.back())); }
                    if (pos > m.size()) pos = (unsigned)m.size();
                    t->insertPosition(pos, v);
                    m.insert(m.begin() + pos, q.begin(), q.end());
                    h += " insertVec" + std::to_string(q.size()) + "@" + std::to_string(pos);
                    break;
                }
                case 3:
                {
                    TrajectoryPtr o(new Trajectory(w.rns, "o"));
                    Pts q;
                    for (int i = 0, e = (int)s.draw(4); i < e; i++) { q.push_back(point(s, w)); o->addPoint(vf(q.back())); }
                    bool self = s.chance(0.15);
                    if (self) { o = t; q = m; }
                    t->insertTrajectory(pos, o);
                    if (pos <= m.size()) m.insert(m.begin() + pos, q.begin(), q.end());
                    h += (self ? " insertSelf@" : " insertTraj" + std::to_string(q.size()) + "@") + std::to_string(pos);
                    break;
                }
                case 4: t->erasePosition(pos); if (pos < m.size()) m.erase(m.begin() + pos); h += " erase@" + std::to_string(pos); break;
                case 5:
                {
                    unsigned e = (unsigned)s.draw(m.size() + 2);
                    unsigned r = t->removePositions(pos, e), want = 0;
                    if (pos < m.size() && e < m.size() && pos <= e) { want = e - pos + 1; m.erase(m.begin() + pos, m.begin() + e + 1); }
                    h += " remove" + std::to_string(pos) + ".." + std::to_string(e);
                    c.check(r == want, "removed", h + ": reported " + std::to_string(r) + " removed points");
                    break;
                }
                case 6: t->reverse(); std::reverse(m.begin(), m.end()); h += " reverse"; break;
                case 7: // go on with a copy, the original must stay
                {
                    TrajectoryPtr o = t->clone();
                    old.push_back({t, m});
                    t = o;
                    c.check(t->getName() == "traj" && t->getRobotNodeSet() == w.rns, "cloneBasics", "name or node set of the copy");
                    h += " clone";
                    break;
                }
                case 8:
                {
                    unsigned e = (unsigned)s.draw(m.size() + 2);
                    TrajectoryPtr o = t->createSubPath(pos, e);
                    h += " sub" + std::to_string(pos) + ".." + std::to_string(e);
                    if (pos >= m.size() || e >= m.size()) c.check(!o, "subInvalid", h + ": sub path for positions outside of the trajectory");
                    else
                    {
                        Pts q;
                        for (unsigned i = pos; i <= e; i++) q.push_back(m[i]);
                        c.check(!!o, "sub", h + ": no sub path");
                        compare(c, o, q, h);
                    }
                    break;
                }
                case 9: t->reset(); m.clear(); h += " reset"; break;
                case 10: if (pos < m.size()) { V p = point(s, w); t->getPointRef(pos) = vf(p); m[pos] = p; h += " set@" + std::to_string(pos); } break;
                default:
                {
                    unsigned e = (unsigned)s.draw(m.size() + 2);
                    std::vector<Eigen::VectorXf> v;
                    bool ok = t->getPoints(pos, e, v);
                    h += " get" + std::to_string(pos) + ".." + std::to_string(e);
                    bool want = pos <= e && e < m.size();
                    c.check(ok == want, "getRange", h + ": reported " + std::to_string(ok));
                    c.check(v.size() == (want ? e - pos + 1 : 0), "getRangeSize", h + ": " + std::to_string(v.size()) + " points");
                    for (size_t i = 0; i < v.size(); i++) c.check((V)v[i].cast<double>() == m[pos + i], "getRangePoint", h + ": point");
                }
            }
            c.describe(h);
            compare(c, t, m, h);
            changes++;
        }
        for (auto& o : old) compare(c, o.first, o.second, h + " (original after changing the copy)");
        c.nontrivial(changes >= 3);
    }
    void interpolate(Src& s, pbt::Ctx& c)
    {
        World w = world(s);
        TrajectoryPtr t(new Trajectory(w.rns, "traj"));
        Pts m;
        int n = (int)s.integer(1, 8);
        for (int k = 0; k < n; k++) { V p = !m.empty() && s.chance(0.2) ? m.back() : point(s, w); m.push_back(p); t->addPoint(vf(p)); }
        double L = length(m), scale = 1;
        for (auto& p : m) scale = std::max(scale, p.norm());
        std::vector<double> at(m.size(), 0);
        for (size_t i = 1; i < m.size(); i++) at[i] = at[i - 1] + (m[i] - m[i - 1]).norm();
        c.describe(std::to_string(n) + " points, length " + num(L));
        c.nontrivial(n >= 3 && L > 0);
        for (int k = 0; k < 8; k++)
        {
            float q = s.chance(0.15) ? 0.f : s.chance(0.15) ? 1.f : s.chance(0.2) && L > 0 ? (float)(at[s.draw(m.size())] / L) : (float)s.unit();
            if (q > 1) q = 1;
            Eigen::VectorXf x;
            int idx = -77;
            t->interpolate(q, x, &idx);
            Eigen::VectorXf y;
            t->interpolate(q, y);
            c.check(x == y, "indexIrrelevant", "the result depends on whether the index is asked for");
            double l = L * q;
            size_t i = 0;
            while (i + 2 < m.size() && at[i + 1] < l) i++;
            V e = m[i];
            if (m.size() > 1 && at[i + 1] > at[i]) e = m[i] + (m[i + 1] - m[i]) * std::min(1.0, (l - at[i]) / (at[i + 1] - at[i]));
            if (q == 1.f) e = m.back();
            double tol = 1e-5 * (L + scale) * (2 + m.size());
            c.check((size_t)x.size() == w.j.size(), "dim", "dimension of the result");
            c.check((x.cast<double>() - e).norm() <= tol, "interpolated", "t=" + num(q) + ": " + str(x.transpose()) + " expected " + str(e.transpose()) + " for " + std::to_string(n) + " points of length " + num(L));
            c.check(idx >= 0 && idx < (int)m.size(), "indexRange", "t=" + num(q) + ": index " + std::to_string(idx) + " of " + std::to_string(n) + " points");
            // the point lies on the segment that starts with the reported index
            c.check(at[idx] <= l + tol, "indexPassed", "t=" + num(q) + ": index " + std::to_string(idx) + " is not reached yet");
            if (idx + 1 < (int)m.size()) c.check(at[idx + 1] >= l - tol, "indexBehind", "t=" + num(q) + ": index " + std::to_string(idx) + " but the next point is passed already");
        }
    }
    void workspace(Src& s, pbt::Ctx& c)
    {
        World w = world(s);
        TrajectoryPtr t(new Trajectory(w.rns, "traj"));
        Pts m;
        for (int k = 0, n = (int)s.integer(1, 6); k < n; k++) { m.push_back(point(s, w)); t->addPoint(vf(m.back())); }
        std::vector<double> q(w.sp.n.size(), 0);
        std::map<std::string, float> jm;
        for (int j : w.sp.joints()) { q[j] = randomQ(s, w.sp.n[j]); jm[w.sp.n[j].name] = (float)q[j]; }
        M4 base = s.chance(0.5) ? fl4(pose(s, 1000)) : M4::Identity();
        w.r->setJointValues(jm);
        w.r->setGlobalPose(f4(base));
        int node = (int)s.draw(w.sp.n.size());
        bool tcp = s.chance(0.4);
        c.describe(w.sp.summary() + " " + std::to_string(m.size()) + " points");
        c.nontrivial(m.size() > 1);
        auto poses = tcp ? t->createWorkspaceTrajectory() : t->createWorkspaceTrajectory(w.r->getRobotNode(w.sp.n[node].name));
        c.check(poses.size() == m.size(), "wsCount", "number of poses");
        double tp = 2e-2 + (w.sp.reach() + 1000) * 2e-5;
        for (size_t i = 0; i < m.size(); i++)
        {
            std::vector<double> p = q;
            for (size_t k = 0; k < w.j.size(); k++) p[w.j[k]] = m[i](k);
            auto f = w.sp.fk(base, p);
            int nd = node;
            if (tcp) for (size_t k = 0; k < w.sp.n.size(); k++) if (w.sp.n[k].name == w.rns->getTCP()->getName()) nd = (int)k;
            samePose(c, poses[i], f[nd], tp, 1e-4, "wsPose", "pose " + std::to_string(i));
        }
        auto f = w.sp.fk(base, q);
        for (size_t i = 0; i < w.sp.n.size(); i++)
        {
            c.near(w.r->getRobotNode(w.sp.n[i].name)->getJointValue(), q[i], 1e-5 * (1 + fabs(q[i])), "wsRestored", "joint value of " + w.sp.n[i].name + " after the computation");
            samePose(c, w.r->getRobotNode(w.sp.n[i].name)->getGlobalPose(), f[i], tp, 1e-4, "wsRestoredPose", "pose of " + w.sp.n[i].name + " after the computation");
        }
    }
    void config(Src& s, pbt::Ctx& c)
    {
        World w = world(s);
        RobotPtr r2 = s.chance(0.5) ? w.r->clone("copy") : RobotPtr();
        auto js = w.sp.joints();
        std::string h;
        std::map<std::string, float> m;
        RobotConfigPtr cf;
        std::vector<std::string> nm;
        std::vector<float> vals;
        std::vector<RobotNodePtr> nds;
        std::map<RobotNodePtr, float> mp;
        std::vector<RobotConfig::Configuration> cv;
        for (int j : js)
            if (s.chance(0.6))
            {
                float v = (float)(s.chance(0.8) ? randomQ(s, w.sp.n[j]) : s.uniform(-500, 500));
                nm.push_back(w.sp.n[j].name);
                vals.push_back(v);
                nds.push_back(w.r->getRobotNode(w.sp.n[j].name));
                mp[nds.back()] = v;
                cv.push_back(RobotConfig::Configuration{nm.back(), v});
                m[nm.back()] = v;
            }
        switch (s.draw(5))
        {
            case 0: cf.reset(new RobotConfig(w.r, "cfg")); for (size_t i = 0; i < nm.size(); i++) cf->setConfig(nm[i], vals[i]); break;
            case 1: cf.reset(new RobotConfig(w.r, "cfg", nm, vals)); break;
            case 2: cf.reset(new RobotConfig(w.r, "cfg", nds, vals)); break;
            case 3: cf.reset(new RobotConfig(w.r, "cfg", mp)); break;
            default: cf.reset(new RobotConfig(w.r, "cfg", cv));
        }
        std::vector<double> q1(w.sp.n.size(), 0), q2 = q1;
        for (int j : js) q1[j] = q2[j] = std::max(w.sp.n[j].lo, std::min(w.sp.n[j].hi, 0.0));
        auto apply = [&](std::vector<double>& q) { for (size_t i = 0; i < w.sp.n.size(); i++) if (m.count(w.sp.n[i].name)) q[i] = std::max(w.sp.n[i].lo, std::min(w.sp.n[i].hi, (double)m[w.sp.n[i].name])); };
        auto same = [&](const RobotPtr& r, const std::vector<double>& q, const std::string& what)
        {
            auto f = w.sp.fk(M4::Identity(), q);
            for (size_t i = 0; i < w.sp.n.size(); i++)
            {
                c.near(r->getRobotNode(w.sp.n[i].name)->getJointValue(), q[i], 1e-5 * (1 + fabs(q[i])), "applied", h + ": value of " + w.sp.n[i].name + " of " + what);
                samePose(c, r->getRobotNode(w.sp.n[i].name)->getGlobalPose(), f[i], 2e-2 + w.sp.reach() * 2e-5, 1e-4, "appliedPose", h + ": pose of " + w.sp.n[i].name + " of " + what);
            }
        };
        for (int k = 0, n = (int)s.integer(1, 8); k < n; k++)
        {
            switch (s.draw(8))
            {
                case 0: { int j = js[s.draw(js.size())]; float v = (float)s.uniform(-3, 3); c.check(s.chance(0.5) ? cf->setConfig(w.sp.n[j].name, v) : cf->setConfig(w.r->getRobotNode(w.sp.n[j].name), v), "setConfig", "setConfig failed"); m[w.sp.n[j].name] = v; h += " set"; break; }
                case 1: c.check(!cf->setConfig("nobody", 1.f), "unknown", "setting an unknown node succeeded"); h += " setUnknown"; break;
                case 2: c.check(cf->setJointValues(), "apply", "apply failed"); apply(q1); h += " apply"; break;
                case 3: if (r2) { c.check(cf->setJointValues(r2), "apply2", "apply to the copy failed"); apply(q2); h += " applyCopy"; } break;
                case 4: w.r->setJointValues(cf); apply(q1); h += " robotSet"; break;
                case 5:
                {
                    if (!r2) break;
                    RobotConfigPtr o = cf->clone(r2);
                    c.check(o->getRobot() == r2 && o->getRobotNodeJointValueMap() == m && o->getName() == "cfg", "clone", "copied configuration");
                    for (auto& x : o->getNodes()) c.check(x->getRobot() == r2, "cloneNode", "the copied configuration refers to a node of the original robot");
                    o->setJointValues();
                    apply(q2);
                    h += " cloneApply";
                    break;
                }
                case 6:
                {
                    // the set only takes what it contains
                    w.rns->setJointValues(cf);
                    for (int j : w.j) if (m.count(w.sp.n[j].name)) q1[j] = std::max(w.sp.n[j].lo, std::min(w.sp.n[j].hi, (double)m[w.sp.n[j].name]));
                    h += " setApply";
                    break;
                }
                default:
                {
                    RobotConfigPtr all = w.r->getConfig();
                    for (int j : js) { c.check(all->hasConfig(w.sp.n[j].name), "getConfigNode", "joint missing in the configuration of the robot"); c.near(all->getConfig(w.sp.n[j].name), q1[j], 1e-5 * (1 + fabs(q1[j])), "getConfig", "configuration of the robot"); }
                    if (r2 && s.chance(0.5)) { c.check(all->setJointValues(r2), "transfer", "transferring a configuration failed"); q2 = q1; h += " transfer"; }
                    h += " getConfig";
                }
            }
            c.describe(w.sp.summary() + h);
            c.check(cf->getRobotNodeJointValueMap() == m, "map", h + ": stored values");
            for (int j : js) { auto& nme = w.sp.n[j].name; c.check(cf->hasConfig(nme) == (m.count(nme) > 0) && cf->getConfig(nme) == (m.count(nme) ? m[nme] : 0.f), "value", h + ": value of " + nme); }
            same(w.r, q1, "the robot");
            if (r2) same(r2, q2, "the copy");
        }
        // a robot without the joints is left alone
        RobotOpts o;
        o.maxNodes = 3;
        RobotSpec sp3 = robotSpec(s, o);
        for (auto& n : sp3.n) n.name = "other" + n.name;
        if (!m.empty() && s.chance(0.3))
        {
            RobotPtr r3 = fromXML(sp3);
            std::vector<float> before;
            for (auto& n : r3->getRobotNodes()) before.push_back(n->getJointValue());
            c.check(!cf->setJointValues(r3), "foreign", "applying to a robot without these joints succeeded");
            for (size_t i = 0; i < before.size(); i++) c.check(r3->getRobotNodes()[i]->getJointValue() == before[i], "foreignValue", "a robot without these joints was changed");
            c.label("foreign robot");
        }
        c.nontrivial(!m.empty());
    }
}
int main(int argc, char** argv)
{
    pbt::Suite S;
    S.property = "P07";
    S.rule = "edit: at least three operations; interpolate: at least three points and positive length; workspace: at least two points; config: at least one stored joint";
    S.init = [] { initVR("P07"); };
    S.add("edit", 100000, 900000, edit);
    S.add("interpolate", 100000, 900000, interpolate);
    S.add("workspace", 60000, 450000, workspace);
    S.add("config", 75000, 600000, config);
    return pbt::run(argc, argv, S);
}
