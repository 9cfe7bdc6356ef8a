// libs: VirtualRobot
// P33: a robot exported to MuJoCo's format is the same mechanism
#include "common/robotgen.h"
#include <VirtualRobot/XML/mjcf/MujocoIO.h>
#include <VirtualRobot/Visualization/VisualizationNode.h>
#include <boost/property_tree/ptree.hpp>
#include <boost/property_tree/xml_parser.hpp>
#include <boost/filesystem.hpp>
#include <fstream>
#include <set>
using namespace VirtualRobot;
using namespace gen;
namespace pt = boost::property_tree;
namespace fs = boost::filesystem;

namespace
{
    const double dummyMass = 0.0001;
    struct Joint { std::string name; bool slide; V3 axis, pos; std::string body; const pt::ptree* x; };
    struct Body
    {
        std::string tag, name;
        int parent;
        M4 local = M4::Identity();
        std::vector<Joint> joints;
        bool inertial = false, dummy = false, mocap = false, free = false;
        double mass = 0;
        V3 com;
        M3 inertia;
        std::vector<std::pair<std::string, M4>> geoms;
        const pt::ptree* x;
    };
    std::vector<double> numbers(const std::string& t)
    {
        std::istringstream i(t);
        std::vector<double> r;
        double d;
        while (i >> d) r.push_back(d);
        return r;
    }
    struct Mjcf
    {
        pbt::Ctx& c;
        pt::ptree doc;
        std::vector<Body> b; // b[0] is the world
        explicit Mjcf(pbt::Ctx& c) : c(c) {}
        std::string attr(const pt::ptree& x, const std::string& n, const std::string& d = "") const
        {
            auto v = x.get_optional<std::string>("<xmlattr>." + n);
            return v ? *v : d;
        }
        bool has(const pt::ptree& x, const std::string& n) const { return !!x.get_optional<std::string>("<xmlattr>." + n); }
        std::vector<double> vals(const pt::ptree& x, const std::string& n, const std::vector<double>& d, size_t k) const
        {
            if (!has(x, n)) return d;
            auto v = numbers(attr(x, n));
            c.check(v.size() == k, "numbers", "attribute " + n + "='" + attr(x, n) + "' should have " + std::to_string(k) + " numbers");
            for (double y : v) c.check(std::isfinite(y), "numbers", "attribute " + n + "='" + attr(x, n) + "'");
            return v;
        }
        M4 pose(const pt::ptree& x) const
        {
            auto p = vals(x, "pos", {0, 0, 0}, 3), q = vals(x, "quat", {1, 0, 0, 0}, 4);
            Eigen::Quaterniond u(q[0], q[1], q[2], q[3]);
            c.check(std::fabs(u.norm() - 1) < 1e-4, "quat", "length of quaternion " + attr(x, "quat"));
            return mk(u.normalized().matrix(), V3(p[0], p[1], p[2]));
        }
        void body(const pt::ptree& x, const std::string& tag, int parent)
        {
            Body r;
            r.tag = tag;
            r.name = attr(x, "name");
            r.parent = parent;
            r.local = pose(x);
            r.mocap = attr(x, "mocap") == "true";
            r.x = &x;
            for (auto& k : x)
            {
                auto& e = k.second;
                if (k.first == "joint")
                {
                    Joint j;
                    j.name = attr(e, "name");
                    std::string t = attr(e, "type");
                    c.check(t == "hinge" || t == "slide", "jointType", "joint " + j.name + " has type '" + t + "'");
                    j.slide = t == "slide";
                    auto a = vals(e, "axis", {0, 0, 1}, 3), p = vals(e, "pos", {0, 0, 0}, 3);
                    j.axis = V3(a[0], a[1], a[2]);
                    c.check(std::fabs(j.axis.norm() - 1) < 1e-3, "axis", "axis of joint " + j.name);
                    j.axis.normalize();
                    j.pos = V3(p[0], p[1], p[2]);
                    j.body = r.name;
                    j.x = &e;
                    r.joints.push_back(j);
                }
                else if (k.first == "freejoint") r.free = true;
                else if (k.first == "inertial")
                {
                    c.check(!r.inertial, "inertials", "two inertial elements in " + r.name);
                    r.inertial = true;
                    c.check(has(e, "pos") && has(e, "mass"), "inertialAttributes", "inertial of " + r.name + " without position or mass");
                    r.mass = vals(e, "mass", {}, 1)[0];
                    M4 p = pose(e);
                    r.com = trans(p);
                    c.check(has(e, "diaginertia") != has(e, "fullinertia"), "inertialKind", "inertial of " + r.name + " needs one kind of inertia");
                    if (has(e, "diaginertia"))
                    {
                        auto d = vals(e, "diaginertia", {}, 3);
                        M3 R = rotOf(p);
                        r.inertia = R * V3(d[0], d[1], d[2]).asDiagonal() * R.transpose();
                    }
                    else
                    {
                        c.check(!has(e, "quat"), "fullQuat", "inertial of " + r.name + " has a full inertia matrix and an orientation");
                        auto d = vals(e, "fullinertia", {}, 6);
                        r.inertia << d[0], d[3], d[4], d[3], d[1], d[5], d[4], d[5], d[2];
                    }
                    r.dummy = std::fabs(r.mass - dummyMass) < 1e-9;
                }
                else if (k.first == "geom") r.geoms.push_back({attr(e, "mesh"), pose(e)});
                else if (k.first != "body" && k.first != "site" && k.first != "<xmlattr>" && k.first != "<xmlcomment>") c.fail("element", "element " + k.first + " in body " + r.name);
            }
            int me = (int)b.size();
            b.push_back(r);
            for (auto& k : x) if (k.first == "body" || k.first == "site") body(k.second, k.first, me);
        }
        void load(const std::string& file)
        {
            std::ifstream in(file);
            c.check(!!in, "file", "no file " + file);
            pt::read_xml(in, doc);
            Body w;
            w.parent = -1;
            w.tag = "world";
            w.x = nullptr;
            b.push_back(w);
            auto wb = doc.get_child_optional("mujoco.worldbody");
            c.check(!!wb, "worldbody", "no world body");
            for (auto& k : *wb) if (k.first == "body" || k.first == "site") body(k.second, k.first, 0);
        }
        // poses of all bodies
        std::vector<M4> fk(const std::map<std::string, double>& q, std::map<std::string, std::pair<V3, V3>>& axes) const
        {
            std::vector<M4> r(b.size());
            r[0] = M4::Identity();
            for (size_t i = 1; i < b.size(); i++)
            {
                r[i] = r[b[i].parent] * b[i].local;
                for (auto& j : b[i].joints)
                {
                    double v = q.at(j.name);
                    axes[j.name] = {rotOf(r[i]) * j.axis, rotOf(r[i]) * j.pos + trans(r[i])};
                    if (j.slide) r[i] = r[i] * mk(M3::Identity(), j.axis * v);
                    else
                    {
                        M3 R = Eigen::AngleAxisd(v, j.axis).matrix();
                        r[i] = r[i] * mk(R, j.pos - R * j.pos);
                    }
                }
            }
            return r;
        }
    };
    std::vector<std::string> split(const std::string& t)
    {
        std::vector<std::string> r(1);
        for (char x : t) if (x == '~') r.emplace_back(); else r.back() += x;
        return r;
    }
    std::string slurp(const std::string& f)
    {
        std::ifstream i(f, std::ios::binary);
        std::ostringstream o;
        o << i.rdbuf();
        return o.str();
    }
    void writeStl(const std::string& f, Src& s)
    {
        std::ofstream o(f);
        o << "solid x\n";
        int n = 1 + (int)s.draw(3);
        for (int i = 0; i < n; i++)
        {
            o << " facet normal 0 0 1\n  outer loop\n";
            V3 a = vec(s, 100);
            for (V3 v : {a, V3(a + V3(10, 0, 0)), V3(a + V3(0, 20, 5))}) o << "   vertex " << v(0) << " " << v(1) << " " << v(2) << "\n";
            o << "  endloop\n endfacet\n";
        }
        o << "endsolid x\n";
    }

    void model(Src& s, pbt::Ctx& c)
    {
        RobotOpts o;
        o.maxNodes = 10;
        o.unnormalizedPrismatic = false;
        o.fixedProb = s.pick(std::vector<double>{0.2, 0.5, 0.8});
        o.chain = s.chance(0.3);
        RobotSpec sp = robotSpec(s, o);
        double massive = s.pick(std::vector<double>{0, 0.3, 0.6, 1});
        for (auto& n : sp.n)
        {
            if (n.type != FIXED && s.chance(0.15)) { n.axis = V3::Zero(); n.axis(s.draw(3)) = s.chance(0.5) ? 1 : -1; }
            if (s.chance(0.15)) { M3 R = M3::Identity(); if (s.chance(0.5)) R << 0, -1, 0, 1, 0, 0, 0, 0, 1; n.local = mk(R, s.chance(0.3) ? V3(0, 0, 0) : V3((double)s.integer(-9, 9), 0, (double)s.integer(-9, 9))); }
            if (!s.chance(massive)) continue;
            n.physics = true;
            n.mass = fl(s.uniform(0.1, 5));
            n.com = s.chance(0.3) ? V3::Zero() : vec(s, 100);
            if (s.chance(0.1)) n.com = -trans(n.local); // at the parent when merged
            n.inertia = s.chance(0.15) ? M3(M3::Identity()) : inertia(s);
        }
        sp.name = "robo";
        for (size_t i = 0; i < sp.n.size(); i++)
            while (s.chance(0.2))
            {
                std::string other = s.chance(0.1) ? "unknown" : sp.n[s.draw(sp.n.size())].name;
                if (other == sp.n[i].name) break;
                sp.n[i].physics = true;
                if (sp.n[i].mass == 0) sp.n[i].inertia = M3::Identity();
                sp.n[i].ignoreCol.push_back(other);
            }
        auto r = fromXML(sp);
        // meshes
        std::string dir = pbt::scratch() + "/mjcf";
        fs::remove_all(dir);
        fs::create_directories(dir);
        std::map<std::string, std::string> meshes;
        if (s.chance(0.3))
        {
            auto f = VisualizationFactory::first(nullptr);
            for (auto& n : sp.n)
            {
                if (!s.chance(0.4)) continue;
                std::string file = dir + "/" + n.name + "-mesh.stl";
                writeStl(file, s);
                auto v = f->getVisualizationFromFile(file);
                c.check(!!v, "stl", "visualization from " + file);
                r->getRobotNode(n.name)->setVisualization(v);
                meshes[n.name] = file;
            }
        }
        bool moved = s.chance(0.6), mocap = s.chance(0.25), simple = s.chance(0.2);
        if (simple) mocap = false;
        std::vector<float> q0;
        if (moved)
        {
            for (auto& n : sp.n) if (n.type != FIXED) r->getRobotNode(n.name)->setJointValueNoUpdate((float)randomQ(s, n));
            r->applyJointValues();
        }
        if (s.chance(0.3)) r->setGlobalPose(f4(fl4(pose(s, 500))));
        auto before = readQ(sp, r);
        double scale = simple || s.chance(0.5) ? 0.001 : s.pick(std::vector<double>{1, 0.01, 0.1, 2});
        int act = simple ? 0 : (int)s.draw(3);
        std::string out = dir + "/out" + (s.chance(0.3) ? "/sub" : "");
        c.describe("scale " + num(scale) + " actuators " + std::to_string(act) + (mocap ? " mocap" : "") + (moved ? " moved" : "") + " meshes " + std::to_string(meshes.size()) + " " + robotXML(sp));
        mjcf::MujocoIO io(r);
        auto save = [&]()
        {
            if (simple) RobotIO::saveMJCF(r, "robo.xml", out, "mesh");
            else io.saveMJCF("robo.xml", out, "mesh");
        };
        if (!simple)
        {
            if (scale != 0.001) io.setLengthScaling((float)scale);
            io.setActuatorType(act == 0 ? mjcf::ActuatorType::MOTOR : act == 1 ? mjcf::ActuatorType::POSITION : mjcf::ActuatorType::VELOCITY);
            io.setWithMocapBody(mocap);
        }
        save();
        Mjcf m(c);
        m.load(out + "/robo.xml");
        c.check(readQ(sp, r) == before, "robot", "the export changes joint values");
        if (s.chance(0.3))
        {
            std::string a = slurp(out + "/robo.xml");
            save();
            c.check(slurp(out + "/robo.xml") == a, "again", "a second export differs");
        }
        c.check(m.attr(m.doc.get_child("mujoco"), "model") == r->getName(), "modelName", "name of the model");
        auto comp = m.doc.get_child_optional("mujoco.compiler");
        c.check(comp && m.attr(*comp, "angle") == "radian", "radian", "angles are in radian");

        // ---- names and structure
        std::set<std::string> names, jointNames;
        std::map<std::string, int> at; // body of a node
        int rootBody = -1, mocapBody = -1;
        std::string robo = r->getName();
        for (size_t i = 1; i < m.b.size(); i++)
        {
            auto& b = m.b[i];
            c.check(names.insert(b.tag + ":" + b.name).second, "unique", "two elements " + b.tag + " with name " + b.name);
            if (b.name == robo && b.parent == 0) { rootBody = (int)i; continue; }
            if (b.mocap) { mocapBody = (int)i; c.check(b.parent == 0 && b.name == robo + "_Mocap", "mocapBody", "mocap body"); continue; }
            c.check(b.parent > 0, "underRoot", "body " + b.name + " is not part of the robot's body");
            for (auto& n : split(b.name)) c.check(r->hasRobotNode(n) && at.insert({n, (int)i}).second, "nodeNames", "body " + b.name + " names " + n + ", which is no robot node or has another body");
            if (b.tag == "body") c.check((b.inertial && b.mass > 0) || !b.geoms.empty(), "massless", "body " + b.name + " has no mass");
        }
        c.check(rootBody > 0, "rootBody", "no body for the robot");
        c.check((mocapBody > 0) == mocap && m.b[rootBody].free == mocap && m.b[rootBody].inertial == mocap, "mocap", "mocap body, free joint or inertial of the robot's body");
        for (auto& n : sp.n) c.check(at.count(n.name), "missingNode", "node " + n.name + " has no body");
        std::map<std::string, const Joint*> joints;
        for (auto& b : m.b) for (auto& j : b.joints) c.check(joints.insert({j.name, &j}).second, "uniqueJoint", "two joints with name " + j.name);
        size_t nj = 0, merged = 0, dummies = 0;
        for (auto& n : sp.n)
        {
            c.check((n.type != FIXED) == (joints.count(n.name) > 0), "jointExists", "joint of node " + n.name);
            if (n.type == FIXED) continue;
            nj++;
            auto& j = *joints[n.name];
            c.check(j.slide == (n.type == PRIS), "jointKind", "type of joint " + n.name);
            c.check(m.attr(*j.x, "limited") == (n.limitless ? "false" : "true"), "limited", "joint " + n.name + " is limited: " + m.attr(*j.x, "limited"));
            auto range = m.vals(*j.x, "range", {}, 2);
            c.check(range.empty() == n.limitless, "range", "range of joint " + n.name);
            double f = n.type == PRIS ? scale : 1;
            if (!n.limitless)
                c.check(std::fabs(range[0] - n.lo * f) < 1e-5 * std::max(0.01, std::fabs(n.lo * f)) && std::fabs(range[1] - n.hi * f) < 1e-5 * std::max(0.01, std::fabs(n.hi * f)), "range", "range of joint " + n.name + " is " + m.attr(*j.x, "range") + ", limits " + num(n.lo * f) + " " + num(n.hi * f));
        }
        c.check(nj == joints.size(), "jointCount", "number of joints");

        // ---- kinematics and dynamics
        double reach = sp.reach() * scale + 200 * scale;
        auto closeV = [&](const V3& a, const V3& b) { return (a - b).norm() < 2e-4 * reach; };
        for (int k = 0; k < 3; k++)
        {
            std::vector<double> q(sp.n.size(), 0);
            std::map<std::string, double> mq;
            for (size_t i = 0; i < sp.n.size(); i++) if (sp.n[i].type != FIXED && k > 0)
            {
                q[i] = randomQ(s, sp.n[i]);
            }
            for (size_t i = 0; i < sp.n.size(); i++) mq[sp.n[i].name] = sp.n[i].type == PRIS ? q[i] * scale : q[i];
            auto T = sp.fk(M4::Identity(), q);
            std::map<std::string, std::pair<V3, V3>> axes;
            auto X = m.fk(mq, axes);
            for (size_t i = 0; i < sp.n.size(); i++)
            {
                auto& n = sp.n[i];
                auto& b = m.b[at[n.name]];
                M4 P = T[i];
                P.block<3, 1>(0, 3) *= scale;
                if (n.type != FIXED)
                {
                    auto& a = axes[n.name];
                    V3 dir = rotOf(P) * n.axis.normalized();
                    c.check((a.first - dir).norm() < 1e-3, "jointAxis", "axis of joint " + n.name + " is " + str(a.first) + ", expected " + str(dir));
                    if (n.type == REV) { V3 d = a.second - trans(P); c.check((d - d.dot(dir) * dir).norm() < 2e-4 * reach, "jointPos", "joint " + n.name + " is at " + str(a.second) + ", expected " + str(trans(P))); }
                }
                auto group = split(b.name);
                M4 Y = X[at[n.name]];
                bool known = b.tag == "site" ? group[0] == n.name : group.back() == n.name;
                if (b.tag == "body" && known)
                    for (size_t g = 1; g < group.size(); g++)
                        for (size_t z = 0; z < sp.n.size(); z++) if (sp.n[z].name == group[g]) { M4 L = sp.n[z].local * sp.n[z].jointT(0); L.block<3, 1>(0, 3) *= scale; Y = Y * L; }
                if (known) c.check((rotOf(Y) - rotOf(P)).cwiseAbs().maxCoeff() < 1e-3 && closeV(trans(Y), trans(P)), "pose", b.tag + " " + b.name + " for node " + n.name + " is at " + str(trans(Y)) + " expected " + str(trans(P)) + (k ? " (moved)" : ""));
                if (n.mass > 0)
                {
                    c.check(b.inertial && std::fabs(b.mass - n.mass) < 1e-5 * n.mass, "mass", "mass of " + n.name + " is " + num(b.mass) + ", expected " + num(n.mass));
                    V3 com = trans(X[at[n.name]]) + rotOf(X[at[n.name]]) * b.com, want = trans(P) + rotOf(P) * n.com * scale;
                    c.check(closeV(com, want), "com", "centre of mass of " + n.name + " is " + str(com) + ", expected " + str(want));
                    M3 I = rotOf(X[at[n.name]]) * b.inertia * rotOf(X[at[n.name]]).transpose(), J = rotOf(P) * n.inertia * rotOf(P).transpose();
                    c.check((I - J).cwiseAbs().maxCoeff() < 1e-3 * std::max(0.1, J.cwiseAbs().maxCoeff()), "inertia", "inertia of " + n.name + " is\n" + str(I) + " expected " + str(J));
                }
                if (meshes.count(n.name))
                {
                    bool found = false;
                    for (auto& g : b.geoms) if (g.first == n.name)
                    {
                        c.check(!found, "geoms", "two geoms for " + n.name);
                        found = true;
                        M4 G = X[at[n.name]] * g.second;
                        c.check((rotOf(G) - rotOf(P)).cwiseAbs().maxCoeff() < 1e-3 && closeV(trans(G), trans(P)), "geom", "mesh of " + n.name + " is at " + str(trans(G)) + ", expected " + str(trans(P)));
                    }
                    c.check(found, "geom", "no geom for the mesh of " + n.name);
                }
            }
        }
        double total = 0, want = 0;
        size_t geoms = 0;
        for (size_t i = 1; i < m.b.size(); i++)
        {
            auto& b = m.b[i];
            if ((int)i == rootBody || (int)i == mocapBody) continue;
            if (b.dummy) dummies++; else total += b.mass;
            geoms += b.geoms.size();
            if (split(b.name).size() > 1) merged++;
        }
        for (auto& n : sp.n) want += n.mass;
        c.check(std::fabs(total - want) < 1e-5 * (1 + want), "totalMass", "mass is " + num(total) + ", expected " + num(want));
        c.check(geoms == meshes.size(), "geomCount", "number of meshes");

        // ---- references
        std::set<std::string> classes, assets;
        std::function<void(const pt::ptree&)> defs = [&](const pt::ptree& x)
        {
            for (auto& k : x) if (k.first == "default") { if (m.has(k.second, "class")) classes.insert(m.attr(k.second, "class")); defs(k.second); }
        };
        defs(m.doc.get_child("mujoco"));
        std::function<void(const pt::ptree&)> refs = [&](const pt::ptree& x)
        {
            for (auto& k : x)
            {
                if (k.first == "<xmlattr>" || k.first == "<xmlcomment>") continue;
                if (k.first != "default")
                    for (auto& a : {"class", "childclass"}) if (m.has(k.second, a)) c.check(classes.count(m.attr(k.second, a)), "class", "element " + k.first + " refers to an unknown class " + m.attr(k.second, a));
                refs(k.second);
            }
        };
        refs(m.doc.get_child("mujoco"));
        if (auto a = m.doc.get_child_optional("mujoco.asset"))
            for (auto& k : *a) if (k.first == "mesh")
            {
                std::string n = m.attr(k.second, "name"), f = m.attr(k.second, "file");
                c.check(assets.insert(n).second && meshes.count(n), "asset", "mesh " + n);
                fs::path p(f);
                if (p.is_relative()) p = fs::path(out) / p;
                c.check(fs::exists(p) && slurp(p.string()) == slurp(meshes[n]), "meshFile", "file " + f + " is not the mesh of " + n);
                c.check(p.string().find(out + "/mesh/") == 0, "meshDir", "mesh is written to " + p.string());
            }
        c.check(assets.size() == meshes.size(), "assets", "number of meshes");
        // actuators
        std::map<std::string, int> acts;
        if (auto a = m.doc.get_child_optional("mujoco.actuator"))
            for (auto& k : *a)
            {
                static const char* kinds[] = {"motor", "position", "velocity"};
                c.check(k.first == kinds[act], "actuatorKind", "actuator of kind " + k.first);
                std::string j = m.attr(k.second, "joint");
                c.check(joints.count(j) && ++acts[j] == 1, "actuator", "actuator for joint '" + j + "'");
                if (act == 1)
                {
                    auto& jx = *joints[j]->x;
                    c.check(m.attr(k.second, "ctrllimited") == m.attr(jx, "limited"), "ctrlLimited", "limits of the actuator of joint " + j);
                    c.check(m.attr(k.second, "ctrlrange") == m.attr(jx, "range"), "ctrlRange", "range of the actuator of joint " + j + " is " + m.attr(k.second, "ctrlrange") + ", range of the joint " + m.attr(jx, "range"));
                }
            }
        c.check(acts.size() == joints.size(), "actuators", "number of actuators");
        // excluded contacts
        std::set<std::pair<std::string, std::string>> ex;
        if (auto a = m.doc.get_child_optional("mujoco.contact"))
            for (auto& k : *a)
            {
                c.check(k.first == "exclude", "contact", "element " + k.first);
                std::string x = m.attr(k.second, "body1"), y = m.attr(k.second, "body2");
                c.check(names.count("body:" + x) && names.count("body:" + y), "exclude", "contact of " + x + " and " + y + " is excluded, one of these bodies does not exist");
                ex.insert({x, y});
                ex.insert({y, x});
            }
        std::set<std::pair<std::string, std::string>> expectEx;
        auto expect = [&](int a, int b)
        {
            auto& x = m.b[a], &y = m.b[b];
            if (a == b || x.tag != "body" || y.tag != "body") return;
            expectEx.insert({x.name, y.name});
            expectEx.insert({y.name, x.name});
        };
        for (auto& n : sp.n) for (auto& g : n.ignoreCol) if (at.count(g)) expect(at[n.name], at[g]);
        for (size_t i = 1; i < m.b.size(); i++) if (m.b[i].parent > 0) expect((int)i, m.b[i].parent);
        for (auto& e : expectEx) c.check(ex.count(e), "notExcluded", "contact of " + e.first + " and " + e.second + " is not excluded");
        for (auto& e : ex) c.check(expectEx.count(e), "excluded", "contact of " + e.first + " and " + e.second + " is excluded");
        if (mocap)
        {
            auto w = m.doc.get_child_optional("mujoco.equality.weld");
            std::set<std::string> ends;
            if (w) { ends.insert(m.attr(*w, "body1")); ends.insert(m.attr(*w, "body2")); }
            c.check(ends == std::set<std::string>({robo, robo + "_Mocap"}), "weld", "the robot is not welded to the mocap body");
        }
        c.label(merged ? "merged" : "not merged");
        if (dummies) c.label("dummy mass");
        if (!meshes.empty()) c.label("meshes");
        for (auto& b : m.b) if (b.tag == "site") { c.label("site"); break; }
        for (auto& b : m.b) if (b.joints.size() > 1) { c.label("several joints in a body"); break; }
        c.nontrivial(nj > 0 && want > 0);
        fs::remove_all(dir);
    }
}
int main(int argc, char** argv)
{
    pbt::Suite u;
    u.property = "P33";
    u.rule = "robots with a joint and a mass";
    u.init = [] { initVR("P33"); };
    u.add("model", 8000, 60000, model);
    return pbt::run(argc, argv, u);
}
