// libs: VirtualRobot
// P02: joint values stay within limits / equivalent modulo 2pi, propagation, rejected updates leave the state alone
#include "common/robotgen.h"
using namespace VirtualRobot;
using namespace gen;

namespace
{
    double clampTo(double v, double lo, double hi) { return v < lo ? lo : v > hi ? hi : v; }

    // a requested value, frequently outside the limits
    double wild(Src& s, const Node& n)
    {
        double sc = n.type == REV ? 4 : 400;
        switch (s.draw(6))
        {
            case 0: return fl(s.uniform(-sc, sc));
            case 1: return n.lo;
            case 2: return n.hi;
            case 3: return fl(s.uniform(n.lo, n.hi));
            case 4: return fl((s.chance(0.5) ? n.hi : n.lo) + s.uniform(-1e-3, 1e-3));
            default: return fl(s.uniform(-200 * sc, 200 * sc));
        }
    }

    void limits(Src& s, pbt::Ctx& c)
    {
        RobotOpts o;
        o.maxNodes = 6;
        o.limitless = true;
        o.initValues = true;
        RobotSpec sp = robotSpec(s, o);
        for (auto& n : sp.n) if (n.limitless && s.chance(0.4)) { n.lo = fl(s.uniform(-10, 10)); n.hi = fl(n.lo + 2 * M_PI + 1e-5); }
        bool degLimitless = false;
        RobotPtr robo = fromFactory(sp);
        (void)degLimitless;
        auto js = sp.joints();
        c.require(!js.empty());
        std::vector<bool> enforce(sp.n.size(), true);
        std::vector<double> q(sp.n.size(), 0), curLo(sp.n.size()), curHi(sp.n.size());
        for (size_t i = 0; i < sp.n.size(); i++) { curLo[i] = sp.n[i].lo; curHi[i] = sp.n[i].hi; }
        // node set
        std::vector<int> idx;
        for (int j : js) if (s.chance(0.7)) idx.push_back(j);
        if (idx.empty()) idx.push_back(js[0]);
        std::vector<RobotNodePtr> rn;
        for (int i : idx) rn.push_back(robo->getRobotNode(sp.n[i].name));
        RobotNodeSetPtr rns = RobotNodeSet::createRobotNodeSet(robo, "set", rn, RobotNodePtr(), RobotNodePtr(), false);
        int out = 0;
        std::string trace;
        auto checkValue = [&](int i, double req, const std::string& op)
        {
            RobotNodePtr n = robo->getRobotNode(sp.n[i].name);
            double v = n->getJointValue();
            std::string w = op + " on " + sp.n[i].name + " requested " + num(req) + " limits [" + num(curLo[i]) + "," + num(curHi[i]) + "]";
            if (sp.n[i].limitless)
            {
                c.checkf(v >= curLo[i] - 1e-5 && v <= curHi[i] + 1e-5, "limitlessRange", [&](std::ostream & os) { os << w << ": limitless value " << v << " outside its interval"; });
                double d = std::remainder(v - req, 2 * M_PI);
                c.checkf(std::fabs(d) < 1e-5 + std::fabs(req) * 3e-7, "limitlessEquiv", [&](std::ostream & os) { os << w << ": value " << v << " is not equivalent (difference " << d << ")"; });
            }
            else if (enforce[i])
            {
                double e = clampTo(req, curLo[i], curHi[i]);
                c.checkf(v == e, "clamp", [&](std::ostream & os) { os << w << ": value " << v << " expected " << e; });
            }
            else c.checkf(v == req, "noenforce", [&](std::ostream & os) { os << w << " (not enforced): value " << v; });
            if (req < curLo[i] || req > curHi[i]) out++;
            q[i] = v;
        };
        for (int j : js) { double v = wild(s, sp.n[j]); robo->setJointValue(sp.n[j].name, (float)v); checkValue(j, v, "initial"); }
        int steps = (int)s.integer(1, 8);
        for (int k = 0; k < steps; k++)
        {
            int kind = (int)s.draw(10);
            std::string op;
            std::vector<std::pair<int, double>> req;
            auto pick = [&](const std::vector<int>& from) { for (int j : from) if (s.chance(0.7)) req.push_back({j, wild(s, sp.n[j])}); };
            int j = js[s.draw(js.size())];
            RobotNodePtr n = robo->getRobotNode(sp.n[j].name);
            switch (kind)
            {
                case 0: op = "node"; req.push_back({j, wild(s, sp.n[j])}); n->setJointValue((float)req[0].second); break;
                case 1: { op = "map"; pick(js); std::map<std::string, float> m; for (auto& x : req) m[sp.n[x.first].name] = (float)x.second; robo->setJointValues(m); break; }
                case 2: { op = "noupdate"; pick(js); for (auto& x : req) robo->getRobotNode(sp.n[x.first].name)->setJointValueNoUpdate((float)x.second); robo->applyJointValues(); break; }
                case 3: case 4:
                {
                    op = "rns"; for (int i : idx) req.push_back({i, wild(s, sp.n[i])});
                    std::vector<float> v;
                    for (auto& x : req) v.push_back((float)x.second);
                    if (kind == 3) rns->setJointValues(v);
                    else { Eigen::VectorXf e((int)v.size()); for (size_t i = 0; i < v.size(); i++) e((int)i) = v[i]; rns->setJointValues(e); }
                    break;
                }
                case 5: { op = "config"; pick(js); std::map<std::string, float> m; for (auto& x : req) m[sp.n[x.first].name] = (float)x.second; robo->setJointValues(mkCfg(robo, "c", m)); break; }
                case 6:
                {
                    op = "setJointLimits";
                    if (sp.n[j].limitless) break;
                    double sc = sp.n[j].type == REV ? 4 : 400, a = fl(s.uniform(-sc, sc)), b = fl(s.uniform(-sc, sc));
                    curLo[j] = sp.n[j].lo = std::min(a, b); curHi[j] = sp.n[j].hi = std::max(a, b);
                    n->setJointLimits((float)sp.n[j].lo, (float)sp.n[j].hi);
                    c.check(n->getJointLimitLo() == (float)sp.n[j].lo && n->getJointLimitHi() == (float)sp.n[j].hi, "limits", "limits not stored");
                    break;
                }
                case 7:
                    op = "setEnforceJointLimits";
                    enforce[j] = s.chance(0.5);
                    n->setEnforceJointLimits(enforce[j]);
                    c.check(n->getEnforceJointLimits() == enforce[j], "enforceGet", "flag");
                    break;
                case 8:
                {
                    op = "wrong dimension";
                    std::vector<float> v(idx.size() + (s.chance(0.5) ? 1 : -1), 0.1f);
                    bool ex = throws<VirtualRobotException>([&] { rns->setJointValues(v); });
                    Eigen::VectorXf e = Eigen::VectorXf::Constant((int)v.size(), 0.1f);
                    bool ex2 = throws<VirtualRobotException>([&] { rns->setJointValues(e); });
                    bool ex3 = throws<VirtualRobotException>([&] { std::vector<float> w = v; rns->checkJointLimits(w); });
                    c.check(ex && ex2 && ex3, "wrongdim", "joint vector of wrong dimension accepted");
                    break;
                }
                default:
                {
                    op = "queries";
                    double v = wild(s, sp.n[j]);
                    bool in = v >= curLo[j] && v <= curHi[j];
                    c.check(n->checkJointLimits((float)v) == in, "checkJointLimits", "checkJointLimits(" + num(v) + ") on [" + num(curLo[j]) + "," + num(curHi[j]) + "]");
                    float r = (float)v;
                    n->respectJointLimits(r);
                    c.check(r == (float)clampTo(v, curLo[j], curHi[j]), "respectJointLimits", "respectJointLimits(" + num(v) + ") gives " + num(r));
                    std::vector<float> vv;
                    bool all = true;
                    for (int i : idx) { double x = wild(s, sp.n[i]); vv.push_back((float)x); all = all && x >= curLo[i] && x <= curHi[i]; }
                    std::vector<float> vc = vv;
                    c.check(rns->checkJointLimits(vc) == all, "rnsCheck", "RobotNodeSet::checkJointLimits");
                    Eigen::VectorXf ev((int)vv.size());
                    for (size_t i = 0; i < vv.size(); i++) ev((int)i) = vv[i];
                    c.check(rns->checkJointLimits(ev) == all, "rnsCheck", "RobotNodeSet::checkJointLimits(VectorXf)");
                    rns->respectJointLimits(vv);
                    rns->respectJointLimits(ev);
                    for (size_t i = 0; i < vv.size(); i++)
                        c.check(vv[i] == ev((int)i) && vv[i] == (float)clampTo(vc[i], curLo[idx[i]], curHi[idx[i]]), "rnsRespect", "RobotNodeSet::respectJointLimits");
                    // getDelta: shortest admissible way
                    double cur = q[j], d = n->getDelta((float)v);
                    if (!sp.n[j].limitless)
                    {
                        if (in) c.near(d, v - cur, 1e-4 * (1 + fabs(v) + fabs(cur)), "getDelta", "getDelta");
                        else c.check(d == 0, "getDelta", "getDelta for a value outside the limits");
                    }
                    else if (in)
                    {
                        c.near(std::remainder(cur + d - v, 2 * M_PI), 0, 1e-4, "getDeltaLL", "limitless getDelta reaches the target");
                        c.check(fabs(d) <= M_PI + 1e-4, "getDeltaLLshort", "limitless getDelta not the short way: " + num(d));
                    }
                }
            }
            c.label(op);
            trace += op + " ";
            c.describe(sp.summary() + " | " + trace);
            for (auto& x : req) checkValue(x.first, x.second, op);
            // nobody else changed, and the poses agree with the stored values
            std::vector<float> rv = rns->getJointValues();
            Eigen::VectorXf re = rns->getJointValuesEigen();
            std::map<std::string, float> mv = rns->getJointValueMap();
            for (size_t i = 0; i < idx.size(); i++)
                c.check(rv[i] == (float)q[idx[i]] && re((int)i) == rv[i] && mv[sp.n[idx[i]].name] == rv[i], "rnsGet", "node set values differ from the joints'");
            for (int i : js) c.checkf((float)q[i] == robo->getRobotNode(sp.n[i].name)->getJointValue(), "other", [&](std::ostream & os) { os << "value of " << sp.n[i].name << " changed by " << op << " from " << q[i] << " to " << robo->getRobotNode(sp.n[i].name)->getJointValue(); });
            auto w = sp.fk(M4::Identity(), q);
            double mx = sp.reach();
            for (int i : js) if (sp.n[i].type == PRIS) mx += fabs(q[i]) * 1.5;
            double ang = 0;
            for (int i : js) if (sp.n[i].type == REV) ang += fabs(q[i]);
            for (size_t i = 0; i < sp.n.size(); i++) samePose(c, robo->getRobotNode(sp.n[i].name)->getGlobalPose(), w[i], 1e-2 + mx * (2e-5 + ang * 3e-7), 5e-5 + ang * 3e-7, "pose", "pose of " + sp.n[i].name + " after " + op);
        }
        c.nontrivial(out >= 1 && steps >= 2);
    }

    // joints driven by another joint
    void propagation(Src& s, pbt::Ctx& c)
    {
        RobotOpts o;
        o.minNodes = 2;
        o.maxNodes = 7;
        o.limitless = false;
        o.fixedProb = 0.1;
        RobotSpec sp = robotSpec(s, o);
        auto js = sp.joints();
        c.require(js.size() >= 2);
        // every joint has at most one driver; no cycles: drivers come earlier in a random order
        std::vector<int> ord = js;
        for (size_t i = ord.size(); i > 1; i--) std::swap(ord[i - 1], ord[s.draw(i)]);
        int edges = 0, dbl = 0;
        std::map<int, int> driver;
        for (size_t b = 1; b < ord.size(); b++)
            if (s.chance(0.6))
            {
                int a = ord[s.draw(b)];
                double f = fl(s.real(-2, 2));
                if (f == 0) f = 1;
                sp.n[a].prop.push_back({ord[b], f});
                driver[ord[b]] = a;
                edges++;
                if (driver.count(a)) dbl++;
            }
        c.require(edges > 0);
        bool viaXml = s.chance(0.5);
        RobotPtr robo = viaXml ? fromXML(sp) : fromFactory(sp);
        c.describe(sp.summary());
        std::vector<double> q(sp.n.size(), 0);
        for (int j : js) q[j] = robo->getRobotNode(sp.n[j].name)->getJointValue();
        std::function<void(int, double)> set = [&](int i, double v)
        {
            q[i] = fl(clampTo(v, sp.n[i].lo, sp.n[i].hi));
            for (auto& p : sp.n[i].prop) set(p.first, fl(q[i] * p.second));
        };
        int changed = 0;
        for (int k = 0, steps = (int)s.integer(1, 5); k < steps; k++)
        {
            int j = js[s.draw(js.size())];
            if (s.chance(0.15) && !sp.n[j].prop.empty())
            {
                // factor 0 removes the propagation
                size_t e = s.draw(sp.n[j].prop.size());
                robo->getRobotNode(sp.n[j].name)->propagateJointValue(sp.n[sp.n[j].prop[e].first].name, 0.0f);
                sp.n[j].prop.erase(sp.n[j].prop.begin() + e);
                c.label("removed");
            }
            double v = wild(s, sp.n[j]);
            if (s.chance(0.5)) robo->setJointValue(sp.n[j].name, (float)v); else robo->getRobotNode(sp.n[j].name)->setJointValue((float)v);
            set(j, v);
            if (!sp.n[j].prop.empty()) changed++;
            for (int i : js) c.near(robo->getRobotNode(sp.n[i].name)->getJointValue(), q[i], 1e-4 * (1 + fabs(q[i])), "propagated", "value of " + sp.n[i].name + " after setting " + sp.n[j].name + " to " + num(v));
            for (int i : js) q[i] = robo->getRobotNode(sp.n[i].name)->getJointValue();
            auto w = sp.fk(M4::Identity(), q);
            for (size_t i = 0; i < sp.n.size(); i++) samePose(c, robo->getRobotNode(sp.n[i].name)->getGlobalPose(), w[i], 1e-2 + sp.reach() * 2e-5, 5e-5, "propPose", "pose of " + sp.n[i].name + " after setting " + sp.n[j].name);
        }
        c.label(viaXml ? "xml" : "factory");
        if (dbl) c.label("chained propagation");
        c.nontrivial(changed > 0);
    }
}

int main(int argc, char** argv)
{
    pbt::Suite suite;
    suite.property = "P02";
    suite.rule = "limits: >=1 requested value outside the limits and >=2 steps; propagation: >=1 update of a joint that drives another";
    suite.init = [] { initVR("P02"); };
    suite.add("limits", 60000, 2000000, limits);
    suite.add("propagation", 40000, 1000000, propagation);
    return pbt::run(argc, argv, suite);
}
