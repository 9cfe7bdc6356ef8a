// libs: VirtualRobot
// P05: the robot XML reader: every equivalent notation gives the described robot; broken documents are rejected
#include "common/docgen.h"
using namespace VirtualRobot;
using namespace gen;

namespace
{
    void notation(Src& s, pbt::Ctx& c)
    {
        bool models = s.chance(0.25);
        Doc d = makeDoc(s, models);
        RobotIO::RobotDescription mode = s.chance(0.7) ? RobotIO::eFull : s.chance(0.5) ? RobotIO::eCollisionModel : RobotIO::eStructure;
        // loading only the collision models with an unspecified source is skipped
        if (mode == RobotIO::eCollisionModel) for (auto& e : d.ex) if (e.visAsCol) mode = RobotIO::eFull;
        c.describe(d.xml);
        c.nontrivial(d.sp.n.size() >= 2);
        if (models) c.label("models");
        if (!d.eefs.empty()) c.label("end effector");
        if (!d.sets.empty()) c.label("node set");
        if (s.chance(0.85)) verify(c, RobotIO::createRobotFromString(d.xml, "", mode), d, mode);
        else
        {
            std::string f = pbt::scratch() + "/robot.xml";
            { std::ofstream o(f); o << d.xml; }
            RobotPtr r = RobotIO::loadRobot(f, mode);
            verify(c, r, d, mode);
            c.check(r->getFilename() == f, "filename", "file name of the robot");
            c.label("file");
        }
    }

    // a second robot is appended below a node
    void childFromRobot(Src& s, pbt::Ctx& c)
    {
        RobotOpts o;
        o.maxNodes = 4;
        o.limitless = false;
        RobotSpec a = robotSpec(s, o), b = robotSpec(s, o);
        for (auto& n : b.n) n.name = "x" + n.name;
        b.type = "second";
        int at = (int)s.draw(a.n.size());
        std::string f = pbt::scratch() + "/second.xml";
        std::string extra;
        if (s.chance(0.5)) extra = "<RobotNodeSet name='set2' kinematicRoot='" + b.n[0].name + "' tcp='" + b.n.back().name + "'><Node name='" + b.n.back().name + "'/></RobotNodeSet>";
        bool eef = s.chance(0.5);
        if (eef) extra += "<Endeffector name='hand' base='" + b.n[0].name + "' tcp='" + b.n.back().name + "'><Actor name='f'><Node name='" + b.n.back().name + "'/></Actor></Endeffector>";
        { std::ofstream q(f); q << robotXML(b, extra); }
        std::string x = "<Robot Type='" + a.type + "' StandardName='" + a.name + "' RootNode='" + a.n[0].name + "'>\n";
        for (size_t i = 0; i < a.n.size(); i++) x += nodeXML(a, (int)i, (int)i == at ? "<ChildFromRobot><File>second.xml</File></ChildFromRobot>" : "");
        x += "</Robot>";
        c.describe(a.summary() + " + " + b.summary() + " at " + a.n[at].name);
        std::string g = pbt::scratch() + "/first.xml";
        { std::ofstream q(g); q << x; }
        RobotPtr r = s.chance(0.5) ? RobotIO::loadRobot(g) : RobotIO::createRobotFromString(x, pbt::scratch());
        RobotSpec all = a;
        int off = (int)a.n.size();
        for (auto n : b.n) { n.parent = n.parent < 0 ? at : n.parent + off; all.n.push_back(n); }
        all.link();
        c.check(r->getRobotNodes().size() == all.n.size(), "cfrCount", "number of nodes of the combined robot");
        if (!extra.empty() && extra.find("set2") != std::string::npos) c.check(r->hasRobotNodeSet("set2") && r->getRobotNodeSet("set2")->getTCP() == r->getRobotNode(b.n.back().name), "cfrSet", "node set of the appended robot");
        if (eef) c.check(r->hasEndEffector("hand") && r->getEndEffector("hand")->getRobot() == r && r->getEndEffector("hand")->getTcp() == r->getRobotNode(b.n.back().name), "cfrEef", "end effector of the appended robot");
        M4 base = M4::Identity();
        for (int k = 0; k < 2; k++)
        {
            std::map<std::string, float> m;
            std::vector<double> q(all.n.size(), 0);
            for (int j : all.joints()) { q[j] = randomQ(s, all.n[j]); m[all.n[j].name] = (float)q[j]; }
            if (k) { base = fl4(pose(s, 1000)); r->setGlobalPose(f4(base)); }
            r->setJointValues(m);
            auto w = all.fk(base, q);
            for (size_t i = 0; i < all.n.size(); i++) samePose(c, r->getRobotNode(all.n[i].name)->getGlobalPose(), w[i], 2e-2 + (all.reach() + 1000) * 2e-5, 1e-4, "cfrPose", "pose of " + all.n[i].name);
        }
        c.nontrivial(b.n.size() > 1);
    }

    void replace1(std::string& x, const std::string& a, const std::string& b) { size_t p = x.find(a); if (p != std::string::npos) x.replace(p, a.size(), b); }
    // a document with exactly one error is rejected with the library's exception
    void invalid(Src& s, pbt::Ctx& c)
    {
        RobotOpts o;
        o.minNodes = 2;
        o.maxNodes = 5;
        o.maxima = true;
        o.physics = true;
        o.prop = true;
        RobotSpec sp = robotSpec(s, o);
        for (size_t i = 1; i < sp.n.size(); i++) if (sp.n[i].type == FIXED) sp.n[i].type = REV;
        sp.n[1].physics = true;
        sp.n[1].local = fl4(pose(s, 100)) * mk(M3::Identity(), V3(1, 0, 0));
        std::string ex = "<RobotNodeSet name='s1' kinematicRoot='n0' tcp='n1'><Node name='n1'/></RobotNodeSet><Endeffector name='e1' base='n0' tcp='n1'><Static><Node name='n0'/></Static><Actor name='a1'><Node name='n1' considerCollisions='All'/></Actor><Preshape name='p1'><Node name='n1' unit='radian' value='0'/></Preshape></Endeffector>";
        sp.n[1].col.push_back(Prim{0, 10, 10, 10, M4::Identity()});
        std::string x = robotXML(sp, ex), y = x;
        int k = (int)s.draw(34);
        std::string n1 = nodeXML(sp, 1);
        switch (k)
        {
            case 0: replace1(x, "RootNode='n0'", ""); break;
            case 1: replace1(x, "RootNode='n0'", "RootNode='nothere'"); break;
            case 2: replace1(x, "<RobotNodeSet", n1 + "<RobotNodeSet"); break; // duplicate name
            case 3: replace1(x, "<Child name='n1'/>", "<Child name='nothere'/>"); break;
            case 4: replace1(x, "<Child name='n1'/>", "<Child/>"); break;
            case 5: replace1(x, "<RobotNodeSet", "<RobotNode name='lonely'/><RobotNodeSet"); break;
            case 6: replace1(x, "<RobotNodeSet", "<Something/><RobotNodeSet"); break;
            case 7: replace1(x, " <Joint", " <Unknown/> <Joint"); break;
            case 8: replace1(x, "<Limits unit", "<Limitz unit"); break;
            case 9: { size_t p = x.find("<Limits unit='"); size_t q = x.find("'", p + 14); x.erase(p + 8, q + 1 - p - 8); break; }
            case 10: replace1(x, " units='kg'", ""); break;
            case 11: replace1(x, "units='kg'", "units='mm'"); break;
            case 12: { size_t p = x.find("lo='"); size_t q = x.find("'", p + 4); p = x.find("<Mass value='"); q = x.find("'", p + 13); x.replace(p + 13, q - p - 13, "abc"); break; }
            case 13: { size_t p = x.find("<Matrix4x4>"); p = x.find("c3='", p); size_t q = x.find("'", p + 4); x.erase(p, q + 1 - p); break; }
            case 14: replace1(x, "type='revolute'", "type='wobbly'"); replace1(x, "type='prismatic'", "type='wobbly'"); break;
            case 15: { RobotSpec z = sp; z.n[1].type = PRIS; x = robotXML(z, ex); size_t p = x.find("<TranslationDirection", x.find("name='n1'")); size_t q = x.find("/>", p); x.erase(p, q + 2 - p); break; }
            case 16: { size_t p = x.find(" <Joint "), q = x.find("</Joint>", p); x.insert(q + 8, x.substr(p, q + 8 - p)); break; }
            case 17: { size_t p = x.find(" <Physics>"), q = x.find("</Physics>", p); x.insert(q + 10, x.substr(p, q + 10 - p)); break; }
            case 18: { size_t p = x.find("<Limits"), q = x.find("/>", p); x.insert(q + 2, x.substr(p, q + 2 - p)); break; }
            case 19: replace1(x, "<Static><Node name='n0'", "<Static><Node name='nothere'"); break;
            case 20: replace1(x, "<Actor name='a1'>", "<Actor>"); break;
            case 21: replace1(x, "<Node name='n1' considerCollisions='All'", "<Node name='n1' considerCollisions='sometimes'"); break;
            case 22: replace1(x, "base='n0'", "base='nothere'"); break;
            case 23: replace1(x, "<Preshape name='p1'>", "<Preshape>"); break;
            case 24: replace1(x, "unit='radian' value='0'", "unit='radian' value='nil'"); break;
            case 25: replace1(x, "unit='radian' value='0'", "value='0'"); break;
            case 26: replace1(x, "tcp='n1'><Node name='n1'/>", "tcp='n1'><Node name='nothere'/>"); break;
            case 27: x = x.substr(0, x.size() - 2 - s.draw(std::max<size_t>(1, x.size() - 30))); break; // truncated
            case 28: replace1(x, "<Robot ", "<Robbo "); replace1(x, "</Robot>", "</Robbo>"); break;
            case 29: x = s.chance(0.5) ? "" : "no xml at all"; break;
            case 30: replace1(x, "<CollisionModel>", "<CollisionModel/><CollisionModel>"); break;
            case 31: replace1(x, "depth='10'", ""); break;
            case 32: replace1(x, "<CoM location='custom'", "<CoM location='somewhere'"); break;
            default: replace1(x, "</Joint>", "<PropagateJointValue factor='1'/></Joint>"); break;
        }
        c.describe("error " + std::to_string(k) + ": " + x);
        c.require(x != y);
        c.label("error " + std::to_string(k));
        std::string other;
        bool thrown = false;
        try { RobotIO::createRobotFromString(x, ""); }
        catch (VirtualRobotException&) { thrown = true; }
        catch (std::exception& e) { other = e.what(); }
        c.check(other.empty(), "wrongException", "an exception other than the library's escaped: " + other);
        c.check(thrown, "accepted", "a broken document was accepted (error " + std::to_string(k) + ")");
        // the reader still works afterwards
        c.check(!!RobotIO::createRobotFromString(y, ""), "afterError", "reading a good document failed after a broken one");
        c.nontrivial();
    }
    // randomly damaged documents are either rejected or give a consistent robot
    void damaged(Src& s, pbt::Ctx& c)
    {
        Doc d = makeDoc(s, s.chance(0.3));
        std::string x = d.xml;
        int m = 1 + (int)s.draw(4);
        static const char* tok[] = {"'", "\"", "<", ">", "/>", "</", "=", "-", "1e30", "nan", "inf", "0", "", "n0", "n1", "name", "units", "&", "&#0;", "<!--", "-->", "<![CDATA[", "\x01", "\xff", "9999999999999999999"};
        for (int i = 0; i < m && !x.empty(); i++)
        {
            size_t p = s.draw(x.size());
            switch (s.draw(7))
            {
                case 0: x.erase(p, 1 + s.draw(10)); break;
                case 1: x.insert(p, tok[s.draw(25)]); break;
                case 2: x[p] = (char)(1 + s.draw(255)); break;
                case 3: // drop an attribute
                { size_t q = x.find("='", p); if (q != std::string::npos) { size_t a = x.rfind(' ', q), e = x.find("'", q + 2); if (a != std::string::npos && e != std::string::npos) x.erase(a, e + 1 - a); } break; }
                case 4: // change a value
                { size_t q = x.find("='", p); if (q != std::string::npos) { size_t e = x.find("'", q + 2); if (e != std::string::npos) x.replace(q + 2, e - q - 2, tok[s.draw(25)]); } break; }
                case 5: // duplicate or drop an element
                { size_t q = x.find("<", p); size_t e = q == std::string::npos ? q : x.find("/>", q); if (e != std::string::npos) { if (s.chance(0.5)) x.insert(e + 2, x.substr(q, e + 2 - q)); else x.erase(q, e + 2 - q); } break; }
                default: // swap two references
                { size_t q = x.find("name='n", p); if (q != std::string::npos) x[q + 7] = (char)('0' + s.draw(7)); }
            }
        }
        for (auto& ch : x) if (ch == 0) ch = ' ';
        c.describe(x);
        RobotPtr r;
        try { r = RobotIO::createRobotFromString(x, ""); }
        catch (VirtualRobotException&) { c.label("rejected"); c.nontrivial(); return; }
        catch (std::exception& e) { c.fail("wrongException", std::string("an exception other than the library's escaped: ") + e.what()); }
        c.check(r && r->getRootNode(), "noRoot", "accepted document without robot or root");
        c.label("accepted");
        c.nontrivial(x != d.xml);
        // the nodes form one tree below the root
        auto ns = r->getRobotNodes();
        for (auto& n : ns)
        {
            std::set<SceneObject*> seen;
            SceneObjectPtr p = n;
            while (p->getParent())
            {
                c.check(seen.insert(p.get()).second, "cycle", "cycle in the kinematic structure");
                p = p->getParent();
            }
            c.check(p == SceneObjectPtr(r->getRootNode()), "detached", "node " + n->getName() + " is not below the root");
            c.check(n->getRobot() == r, "foreign", "node of another robot");
        }
    }
}

int main(int argc, char** argv)
{
    pbt::Suite suite;
    suite.property = "P05";
    suite.rule = "notation: >=2 nodes; childFromRobot: appended robot has >=2 nodes; invalid: the error is really in the document; damaged: document changed";
    suite.init = [] { initVR("P05"); };
    suite.add("notation", 30000, 800000, notation);
    suite.add("childFromRobot", 4000, 60000, childFromRobot);
    suite.add("invalid", 15000, 300000, invalid);
    suite.add("damaged", 40000, 1500000, damaged);
    return pbt::run(argc, argv, suite);
}
