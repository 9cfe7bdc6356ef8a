// Random kinematic trees: a plain specification, its XML, and an independent double-precision kinematics model.
#pragma once
#include "gen.h"
#include <VirtualRobot/VirtualRobot.h>
#include <VirtualRobot/Robot.h>
#include <VirtualRobot/RobotFactory.h>
#include <VirtualRobot/RobotNodeSet.h>
#include <VirtualRobot/Nodes/RobotNode.h>
#include <VirtualRobot/Nodes/RobotNodeFactory.h>
#include <VirtualRobot/Nodes/RobotNodeRevolute.h>
#include <VirtualRobot/Nodes/RobotNodePrismatic.h>
#include <VirtualRobot/XML/RobotIO.h>
#include <VirtualRobot/VirtualRobotException.h>
#include <VirtualRobot/Visualization/VisualizationFactory.h>
#include <VirtualRobot/RobotConfig.h>
#include <VirtualRobot/Random.h>
#include <map>

namespace gen
{
    enum JT { FIXED = 0, REV = 1, PRIS = 2 };
    struct Prim
    {
        int kind; // 0 box 1 sphere 2 cylinder
        double a, b, c;
        M4 t;
    };
    struct Node
    {
        std::string name;
        int parent = -1;
        M4 local = M4::Identity();
        JT type = FIXED;
        V3 axis = V3(0, 0, 1);            // as given (maybe not normalized for prismatic)
        double lo = -M_PI, hi = M_PI, offset = 0, init = 0;
        bool limitless = false;
        std::vector<std::pair<int, double>> prop;
        double mass = 0;
        V3 com = V3::Zero();
        M3 inertia = M3::Zero();
        bool physics = false;
        std::vector<Prim> col, vis;
        std::vector<std::string> ignoreCol;
        double maxVel = -1, maxAcc = -1, maxTor = -1;
        int simType = 0;                  // 0 none 1 dynamic 2 static 3 kinematic
        M4 jointT(double q) const
        {
            if (type == REV) return mk(Eigen::AngleAxisd(q + offset, axis.normalized()).matrix(), V3::Zero());
            if (type == PRIS) return mk(M3::Identity(), axis * (q + offset));
            return M4::Identity();
        }
    };
    struct RobotSpec
    {
        std::string name = "robo", type = "robotype";
        std::vector<Node> n;
        std::vector<std::vector<int>> children;
        void link()
        {
            children.assign(n.size(), {});
            for (size_t i = 1; i < n.size(); i++) children[n[i].parent].push_back((int)i);
        }
        std::vector<int> joints() const { std::vector<int> r; for (size_t i = 0; i < n.size(); i++) if (n[i].type != FIXED) r.push_back((int)i); return r; }
        // model: poses of all nodes
        std::vector<M4> fk(const M4& base, const std::vector<double>& q) const
        {
            std::vector<M4> r(n.size());
            for (size_t i = 0; i < n.size(); i++)
                r[i] = (n[i].parent < 0 ? base : r[n[i].parent]) * n[i].local * n[i].jointT(q[i]);
            return r;
        }
        bool isAncestor(int a, int d) const // a is d or above d
        {
            for (int i = d; i >= 0; i = n[i].parent) if (i == a) return true;
            return false;
        }
        double reach() const // bound on coordinate magnitudes
        {
            double s = 1;
            for (auto& x : n)
            {
                s += trans(x.local).norm();
                if (x.type == PRIS) s += x.axis.norm() * std::max(std::fabs(x.lo + x.offset), std::fabs(x.hi + x.offset));
            }
            return s;
        }
        std::string summary() const
        {
            std::ostringstream o;
            o << n.size() << " nodes:";
            for (auto& x : n)
            {
                o << " " << x.name << "(" << (x.type == REV ? "R" : x.type == PRIS ? "P" : "F") << "<-" << x.parent;
                if (x.type != FIXED) o << " [" << num(x.lo) << "," << num(x.hi) << "]";
                if (x.offset != 0) o << " off " << num(x.offset);
                if (x.limitless) o << " limitless";
                if (!x.prop.empty()) o << " prop";
                o << ")";
            }
            return o.str();
        }
    };
    struct RobotOpts
    {
        int minNodes = 1, maxNodes = 9;
        bool prismatic = true, offsets = true, limitless = true, prop = false, physics = false, models = false, chain = false;
        bool unnormalizedPrismatic = true;
        bool initValues = false, maxima = false;
        double span = 400;       // translations
        double fixedProb = 0.25;
        bool wideLimits = false;
        bool rotLocal = true;
        bool zeroInLimits = false;
    };

    inline Prim prim(Src& s)
    {
        Prim p;
        p.kind = (int)s.draw(3);
        p.a = fl(s.uniform(20, 120));
        p.b = fl(s.uniform(20, 120));
        p.c = fl(s.uniform(20, 120));
        p.t = s.chance(0.5) ? fl4(pose(s, 60)) : M4::Identity();
        return p;
    }
    inline M3 inertia(Src& s)
    {
        // physically valid: principal moments satisfying the triangle inequality
        double a = s.uniform(0.01, 1), b = s.uniform(0.01, 1), c = s.uniform(0.01, 1);
        V3 d(b + c, a + c, a + b);
        M3 r = s.chance(0.5) ? rot(s) : M3::Identity();
        M3 m = r * d.asDiagonal() * r.transpose();
        m = 0.5 * (m + m.transpose()).eval();
        return m.cast<float>().cast<double>();
    }

    inline RobotSpec robotSpec(Src& s, const RobotOpts& o)
    {
        RobotSpec r;
        int k = (int)s.integer(o.minNodes, o.maxNodes);
        for (int i = 0; i < k; i++)
        {
            Node x;
            x.name = "n" + std::to_string(i);
            x.parent = i == 0 ? -1 : (o.chain || s.chance(0.5) ? i - 1 : (int)s.draw(i));
            M3 R = o.rotLocal ? rot(s) : M3::Identity();
            V3 t = vec(s, o.span);
            x.local = s.chance(0.85) ? fl4(mk(R, t)) : M4::Identity();
            double u = s.unit();
            if (u < o.fixedProb && !(o.chain && i == 0 && false)) x.type = FIXED;
            else x.type = (o.prismatic && s.chance(0.3)) ? PRIS : REV;
            if (x.type != FIXED)
            {
                x.axis = unit(s).cast<float>().cast<double>();
                if (x.type == PRIS && o.unnormalizedPrismatic && s.chance(0.2)) x.axis = (x.axis * (0.5 + s.unit())).cast<float>().cast<double>();
                double sc = x.type == REV ? M_PI : 300;
                switch (s.draw(4))
                {
                    case 0: x.lo = -sc; x.hi = sc; break;
                    case 1: { double a = s.uniform(-sc, sc), b = s.uniform(-sc, sc); x.lo = std::min(a, b); x.hi = std::max(a, b); break; }
                    case 2: { double a = s.uniform(0.05, 1); x.lo = -a * sc; x.hi = a * sc; break; }
                    default: { double a = s.uniform(0, sc * 0.5); x.lo = a; x.hi = a + s.uniform(0, 0.5) * sc; }
                }
                if (o.zeroInLimits) { x.lo = std::min(x.lo, 0.0); x.hi = std::max(x.hi, 0.0); if (x.hi - x.lo < 0.05 * sc) { x.lo -= 0.1 * sc; x.hi += 0.1 * sc; } }
                if (o.wideLimits && x.hi - x.lo < 0.3 * sc) { x.lo -= 0.2 * sc; x.hi += 0.2 * sc; }
                x.lo = fl(x.lo);
                x.hi = fl(x.hi);
                if (o.offsets && s.chance(0.25)) x.offset = fl(s.uniform(-sc, sc) * 0.5);
                if (o.limitless && x.type == REV && s.chance(0.15))
                {
                    x.limitless = true;
                    x.lo = fl(-M_PI);
                    x.hi = fl(M_PI);
                }
                if (o.initValues && s.chance(0.3)) x.init = fl(s.uniform(x.lo, x.hi));
                if (o.maxima && s.chance(0.5)) { x.maxVel = fl(s.uniform(0.1, 5)); x.maxAcc = fl(s.uniform(0.1, 5)); x.maxTor = fl(s.uniform(1, 50)); }
            }
            if (o.physics && s.chance(0.8))
            {
                x.physics = true;
                x.mass = s.chance(0.1) ? 0 : fl(s.uniform(0.1, 5));
                x.com = s.chance(0.3) ? V3::Zero() : vec(s, 100);
                x.inertia = inertia(s);
                x.simType = (int)s.draw(4);
            }
            if (o.models && s.chance(0.7))
            {
                int np = 1 + (int)s.draw(2);
                for (int j = 0; j < np; j++) x.col.push_back(prim(s));
                if (s.chance(0.5)) x.vis = x.col;
            }
            r.n.push_back(x);
        }
        if (o.prop)
        {
            auto js = r.joints();
            for (size_t a = 0; a + 1 < js.size(); a++)
                if (s.chance(0.3))
                {
                    int b = js[a + 1 + s.draw(js.size() - a - 1)];
                    r.n[js[a]].prop.push_back({b, fl(s.uniform(-1, 1))});
                }
        }
        r.link();
        return r;
    }
    inline double randomQ(Src& s, const Node& n)
    {
        if (n.type == FIXED) return 0;
        switch (s.draw(6))
        {
            case 0: return fl(std::max(n.lo, std::min(n.hi, 0.0)));
            case 1: return n.lo;
            case 2: return n.hi;
            default: return fl(s.uniform(n.lo, n.hi));
        }
    }
    inline double interiorQ(Src& s, const Node& n, double frac = 0.9)
    {
        if (n.type == FIXED) return 0;
        double m = 0.5 * (n.lo + n.hi), h = 0.5 * (n.hi - n.lo) * frac;
        return fl(s.uniform(m - h, m + h));
    }

    // ---------------------------------------------------------------- XML
    inline std::string matXML(const M4& m, const std::string& ind)
    {
        std::string x = ind + "<Matrix4x4>\n";
        for (int r = 0; r < 4; r++)
        {
            x += ind + " <row" + std::to_string(r + 1);
            for (int c = 0; c < 4; c++) x += " c" + std::to_string(c + 1) + "='" + num(m(r, c)) + "'";
            x += "/>\n";
        }
        return x + ind + "</Matrix4x4>\n";
    }
    inline std::string primXML(const Prim& p)
    {
        std::string x;
        std::string t = p.t.isIdentity(0) ? "" : "<Transform>\n" + matXML(p.t, "") + "</Transform>";
        if (p.kind == 0) x = "<Box width='" + num(p.a) + "' height='" + num(p.b) + "' depth='" + num(p.c) + "'>" + t + "</Box>";
        else if (p.kind == 1) x = "<Sphere radius='" + num(p.a) + "'>" + t + "</Sphere>";
        else x = "<Cylinder radius='" + num(p.a) + "' height='" + num(p.b) + "'>" + t + "</Cylinder>";
        return x + "\n";
    }
    inline std::string nodeXML(const RobotSpec& r, int i, const std::string& extra = "")
    {
        const Node& n = r.n[i];
        std::string x = "<RobotNode name='" + n.name + "'>\n";
        if (!n.local.isIdentity(0)) x += " <Transform>\n" + matXML(n.local, "  ") + " </Transform>\n";
        if (n.type != FIXED)
        {
            x += std::string(" <Joint type='") + (n.type == REV ? "revolute" : "prismatic") + "'";
            if (n.offset != 0) x += " offset='" + num(n.offset) + "'";
            if (n.init != 0) x += " initialvalue='" + num(n.init) + "'";
            x += ">\n";
            std::string a = " x='" + num(n.axis(0)) + "' y='" + num(n.axis(1)) + "' z='" + num(n.axis(2)) + "'/>\n";
            x += (n.type == REV ? "  <Axis" : "  <TranslationDirection") + a;
            x += "  <Limits unit='" + std::string(n.type == REV ? "radian" : "mm") + "' lo='" + num(n.lo) + "' hi='" + num(n.hi) + "'" + (n.limitless ? " limitless='true'" : "") + "/>\n";
            if (n.maxVel >= 0) x += "  <MaxVelocity value='" + num(n.maxVel) + "'/>\n  <MaxAcceleration value='" + num(n.maxAcc) + "'/>\n  <MaxTorque value='" + num(n.maxTor) + "'/>\n";
            for (auto& p : n.prop) x += "  <PropagateJointValue name='" + r.n[p.first].name + "' factor='" + num(p.second) + "'/>\n";
            x += " </Joint>\n";
        }
        if (!n.vis.empty())
        {
            x += " <Visualization><Primitives>\n";
            for (auto& p : n.vis) x += primXML(p);
            x += " </Primitives></Visualization>\n";
        }
        if (!n.col.empty())
        {
            x += " <CollisionModel><Primitives>\n";
            for (auto& p : n.col) x += primXML(p);
            x += " </Primitives></CollisionModel>\n";
        }
        if (n.physics)
        {
            x += " <Physics>\n  <Mass value='" + num(n.mass) + "' units='kg'/>\n  <CoM location='custom' x='" + num(n.com(0)) + "' y='" + num(n.com(1)) + "' z='" + num(n.com(2))
                 + "' units='mm'/>\n  <InertiaMatrix units='kg m'>\n";
            for (int a = 0; a < 3; a++)
                x += "   <row" + std::to_string(a + 1) + " c1='" + num(n.inertia(a, 0)) + "' c2='" + num(n.inertia(a, 1)) + "' c3='" + num(n.inertia(a, 2)) + "'/>\n";
            x += "  </InertiaMatrix>\n";
            static const char* st[] = {"", "dynamic", "static", "kinematic"};
            if (n.simType) x += std::string("  <SimulationType value='") + st[n.simType] + "'/>\n";
            for (auto& g : n.ignoreCol) x += "  <IgnoreCollision name='" + g + "'/>\n";
            x += " </Physics>\n";
        }
        x += extra;
        for (int c : r.children[i]) x += " <Child name='" + r.n[c].name + "'/>\n";
        return x + "</RobotNode>\n";
    }
    inline std::string robotXML(const RobotSpec& r, const std::string& extra = "")
    {
        std::string x = "<Robot Type='" + r.type + "' StandardName='" + r.name + "' RootNode='" + r.n[0].name + "'>\n";
        for (size_t i = 0; i < r.n.size(); i++) x += nodeXML(r, (int)i);
        return x + extra + "</Robot>\n";
    }
    inline VirtualRobot::RobotPtr fromXML(const RobotSpec& r, const std::string& extra = "")
    {
        return VirtualRobot::RobotIO::createRobotFromString(robotXML(r, extra), "");
    }
    // built through the factories instead of the XML reader (no models)
    inline VirtualRobot::RobotPtr fromFactory(const RobotSpec& r)
    {
        using namespace VirtualRobot;
        RobotPtr robo(new LocalRobot(r.name, r.type));
        std::vector<RobotNodePtr> nodes;
        std::map<RobotNodePtr, std::vector<std::string>> ch;
        for (size_t i = 0; i < r.n.size(); i++)
        {
            const Node& n = r.n[i];
            SceneObject::Physics ph;
            ph.massKg = (float)n.mass;
            ph.localCoM = f3(n.com);
            ph.comLocation = SceneObject::Physics::eCustom;
            ph.inertiaMatrix = n.inertia.cast<float>();
            RobotNodeFactoryPtr f = RobotNodeFactory::fromName(n.type == REV ? "revolute" : n.type == PRIS ? "prismatic" : "fixed", nullptr);
            RobotNodePtr p = f->createRobotNode(robo, n.name, VisualizationNodePtr(), CollisionModelPtr(), (float)n.lo, (float)n.hi, (float)n.offset, f4(n.local),
                                                n.type == REV ? f3(n.axis) : Eigen::Vector3f::Zero().eval(), n.type == PRIS ? f3(n.axis) : Eigen::Vector3f::Zero().eval(), ph);
            if (n.limitless) p->setLimitless(true);
            if (n.maxVel >= 0) { p->setMaxVelocity((float)n.maxVel); p->setMaxAcceleration((float)n.maxAcc); p->setMaxTorque((float)n.maxTor); }
            for (auto& x : n.prop) p->propagateJointValue(r.n[x.first].name, (float)x.second);
            robo->registerRobotNode(p);
            nodes.push_back(p);
            std::vector<std::string> c;
            for (int k : r.children[i]) c.push_back(r.n[k].name);
            ch[p] = c;
        }
        if (!RobotFactory::initializeRobot(robo, nodes, ch, nodes[0])) throw std::runtime_error("initializeRobot failed");
        return robo;
    }
    inline void initVR(const char* name)
    {
        static char n[64];
        strncpy(n, name, 63);
        static char* av[] = {n, nullptr};
        setenv("QT_QPA_PLATFORM", "offscreen", 0);
        int ac = 1;
        VirtualRobot::init(ac, av, n);
        pbt::seedHook = [](uint64_t s) { VirtualRobot::PRNG64Bit().seed(s); };
    }
    inline VirtualRobot::RobotConfigPtr mkCfg(VirtualRobot::RobotPtr r, const std::string& name, const std::map<std::string, float>& m)
    {
        std::vector<VirtualRobot::RobotConfig::Configuration> v;
        for (auto& x : m) { VirtualRobot::RobotConfig::Configuration c; c.name = x.first; c.value = x.second; v.push_back(c); }
        return VirtualRobot::RobotConfigPtr(new VirtualRobot::RobotConfig(r, name, v));
    }
    inline std::vector<double> readQ(const RobotSpec& r, VirtualRobot::RobotPtr robo)
    {
        std::vector<double> q(r.n.size(), 0);
        for (size_t i = 0; i < r.n.size(); i++) q[i] = robo->getRobotNode(r.n[i].name)->getJointValue();
        return q;
    }
}
