// libs: VirtualRobot
// P06: what is written about a robot describes that robot: reading it back gives the same robot
#include "common/docgen.h"
using namespace VirtualRobot;
using namespace gen;

namespace
{
    // what a written description does not carry: current and initial joint values, the name of the robot instance
    void expected(Doc& d, bool models)
    {
        for (size_t i = 0; i < d.sp.n.size(); i++)
        {
            Node& n = d.sp.n[i];
            n.init = 0;
            auto& e = d.ex[i];
            e.loGiven = e.hiGiven = true;
            if (!e.visEnabled || !models) e.vis.clear();
            if (!e.colEnabled || !models) e.col.clear();
            e.visEnabled = e.colEnabled = true;
            if (!models) e.visAsCol = false;
            if (e.visAsCol) { e.col = e.vis; e.visAsCol = false; }
        }
        d.sp.name = d.sp.type;
    }
    void move(Src& s, const RobotPtr& r, const Doc& d)
    {
        if (s.chance(0.5))
        {
            std::map<std::string, float> m;
            for (int j : d.sp.joints()) if (s.chance(0.7)) m[d.sp.n[j].name] = (float)randomQ(s, d.sp.n[j]);
            r->setJointValues(m);
        }
        if (s.chance(0.5)) r->setGlobalPose(f4(pose(s, 1000)));
    }
    // coupling cannot be read from a robot directly: it shows when a joint moves
    void coupling(Src& s, pbt::Ctx& c, const RobotPtr& a, const RobotPtr& b, const Doc& d)
    {
        for (int k = 0; k < 2; k++)
        {
            auto js = d.sp.joints();
            if (js.empty()) return;
            int j = js[s.draw(js.size())];
            float v = (float)randomQ(s, d.sp.n[j]);
            for (int t : js) { a->getRobotNode(d.sp.n[t].name)->setJointValue(0); b->getRobotNode(d.sp.n[t].name)->setJointValue(0); }
            a->getRobotNode(d.sp.n[j].name)->setJointValue(v);
            b->getRobotNode(d.sp.n[j].name)->setJointValue(v);
            a->setGlobalPose(Eigen::Matrix4f::Identity());
            b->setGlobalPose(Eigen::Matrix4f::Identity());
            double mag = fabs(v);
            for (int t : js) mag = std::max(mag, (double)fabs(a->getRobotNode(d.sp.n[t].name)->getJointValue()));
            double ta = 2e-4 + 3e-5 * mag, tp = 2e-2 + d.sp.reach() * (2e-5 + ta * 0.2);
            for (auto& n : d.sp.n)
            {
                auto x = a->getRobotNode(n.name), y = b->getRobotNode(n.name);
                c.near(y->getJointValue(), x->getJointValue(), 2e-5 * (1 + fabs(x->getJointValue())) + 2e-5 * mag, "coupled", "value of " + n.name + " after setting " + d.sp.n[j].name);
                samePose(c, y->getGlobalPose(), d4(x->getGlobalPose()), tp, ta, "coupledPose", "pose of " + n.name + " after setting " + d.sp.n[j].name);
            }
        }
    }
    // equal up to the last printed digits of numbers
    bool sameText(const std::string& a, const std::string& b)
    {
        size_t i = 0, j = 0;
        while (i < a.size() && j < b.size())
        {
            auto num = [](const std::string& t, size_t p) { return (isdigit((unsigned char)t[p]) || t[p] == '-') && p > 0 && t[p - 1] == '\''; };
            if (num(a, i) && num(b, j))
            {
                char *e, *f;
                double x = strtod(a.c_str() + i, &e), y = strtod(b.c_str() + j, &f);
                if (fabs(x - y) > 2e-5 * (1e-3 + fabs(x))) return false;
                size_t i2 = e - a.c_str(), j2 = f - b.c_str();
                if (i2 > i && j2 > j) { i = i2; j = j2; continue; }
            }
            if (a[i] != b[j]) return false;
            i++; j++;
        }
        return i == a.size() && j == b.size();
    }
    void text(Src& s, pbt::Ctx& c)
    {
        Doc d = makeDoc(s, false, false);
        c.describe(d.xml);
        RobotPtr r = RobotIO::createRobotFromString(d.xml, "", RobotIO::eFull);
        c.check(!!r, "load", "load");
        move(s, r, d);
        bool clone = s.chance(0.2);
        if (clone) { r = r->clone(r->getName()); c.label("clone written"); }
        std::string x = r->toXML();
        RobotPtr q = RobotIO::createRobotFromString(x, "", RobotIO::eFull);
        expected(d, false);
        q->setName(d.sp.name);
        verify(c, q, d, RobotIO::eFull);
        c.check(sameText(q->toXML(), x), "stable", "writing the read robot gives another text:\n" + x + "\nthen\n" + q->toXML());
        coupling(s, c, r, q, d);
        c.nontrivial(d.sp.n.size() >= 2);
        bool cp = false;
        for (auto& n : d.sp.n) cp |= !n.prop.empty();
        if (cp) c.label("coupled joints");
        if (!d.eefs.empty()) c.label("end effector");
        if (!d.sets.empty()) c.label("node set");
    }
    void file(Src& s, pbt::Ctx& c)
    {
        Doc d = makeDoc(s, true, false);
        c.describe(d.xml);
        RobotPtr r = RobotIO::createRobotFromString(d.xml, "", RobotIO::eFull);
        c.check(!!r, "load", "load");
        move(s, r, d);
        std::string base = pbt::scratch(), mdl = s.chance(0.6) ? "models" : s.chance(0.5) ? "a/b" : "m dir";
        if (s.chance(0.3)) { base += "/sub"; boost::filesystem::create_directories(base); }
        c.check(RobotIO::saveXML(r, "out.xml", base, mdl), "save", "saving failed");
        RobotPtr q = RobotIO::loadRobot(base + "/out.xml", RobotIO::eFull);
        c.check(!!q, "reload", "the written file cannot be loaded");
        expected(d, true);
        q->setName(d.sp.name);
        verify(c, q, d, RobotIO::eFull);
        size_t m = 0;
        for (auto& e : d.ex) m += e.vis.size() + e.col.size();
        c.nontrivial(m > 0);
        if (m) c.label("models");
    }
}
int main(int argc, char** argv)
{
    pbt::Suite S;
    S.property = "P06";
    S.rule = "robots with at least two nodes (text) or at least one model (file)";
    S.init = [] { initVR("P06"); };
    S.add("text", 40000, 400000, text, 20);
    S.add("file", 5000, 40000, file, 40);
    return pbt::run(argc, argv, S);
}
