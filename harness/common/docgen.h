// Random robot documents in random equivalent notations, and the comparison of a loaded robot with what is described.
#pragma once
#include "geom.h"
#include <VirtualRobot/EndEffector/EndEffector.h>
#include <VirtualRobot/EndEffector/EndEffectorActor.h>
#include <VirtualRobot/Nodes/Sensor.h>
#include <fstream>

namespace gen
{
    using namespace VirtualRobot;

    // writes tags and attributes in varying notations
    struct W
    {
        Src& s;
        bool vary;
        std::string cs(const std::string& t)
        {
            if (!vary || !s.chance(0.15)) return t;
            std::string r = t;
            int m = (int)s.draw(3);
            for (size_t i = 0; i < r.size(); i++) r[i] = m == 0 ? tolower(r[i]) : m == 1 ? toupper(r[i]) : (i % 2 ? toupper(r[i]) : tolower(r[i]));
            return r;
        }
        std::string at(const std::string& n, const std::string& v)
        {
            bool dq = vary && s.chance(0.3);
            return " " + cs(n) + (dq ? "=\"" : "='") + v + (dq ? "\"" : "'");
        }
        std::string at(const std::string& n, double v) { return at(n, num(v)); }
        std::string junk() { return vary && s.chance(0.1) ? std::string(s.chance(0.5) ? "<!-- a <comment/> -->" : "\n\t \r\n") : std::string(" "); }
        // open tag, content, close tag
        std::string el(const std::string& t, const std::string& attrs, const std::string& body = "")
        {
            std::string n = cs(t);
            if (body.empty() && s.chance(0.7)) return "<" + n + attrs + "/>" + junk();
            return "<" + n + attrs + ">" + junk() + body + "</" + n + ">" + junk();
        }
        std::string unitAt(const std::string& kind) { static const char* a[] = {"units", "unit"}; int k = (int)s.draw(3); return k < 2 ? a[k] : "units" + kind; }
        // length value in mm, optionally written in meter
        std::string lenUnit(double& f, bool required = false)
        {
            switch (s.draw(required ? 4 : 5))
            {
                case 0: f = 1; return at(unitAt("Length"), std::string("mm"));
                case 1: f = 1; return at(unitAt("Length"), std::string("millimeter"));
                case 2: f = 1e-3; return at(unitAt("Length"), std::string("m"));
                case 3: f = 1e-3; return at(unitAt("Length"), std::string("meter"));
                default: f = 1; return "";
            }
        }
        std::string angUnit(double& f)
        {
            static const char* u[] = {"rad", "radian", "deg", "degree"};
            int k = (int)s.draw(4);
            f = k < 2 ? 1 : 180 / M_PI;
            return at(unitAt("Angle"), std::string(u[k]));
        }
        // one piece of a transformation
        std::string piece(M4& m, double span)
        {
            double f = 1, g = 1;
            switch (s.draw(6))
            {
                case 0:
                {
                    V3 t = vec(s, span);
                    m = mk(M3::Identity(), t);
                    std::string u = lenUnit(f);
                    return el(s.chance(0.5) ? "Translation" : "trans", at("x", t(0) * f) + at("y", t(1) * f) + at("z", t(2) * f) + u);
                }
                case 1:
                {
                    double r = s.real(-3, 3), p = s.real(-3, 3), y = s.real(-3, 3);
                    m = mk((Eigen::AngleAxisd(y, V3::UnitZ()) * Eigen::AngleAxisd(p, V3::UnitY()) * Eigen::AngleAxisd(r, V3::UnitX())).matrix(), V3::Zero());
                    std::string u = angUnit(f);
                    return el(s.chance(0.5) ? "rollpitchyaw" : "rpy", u + at("roll", r * f) + at("pitch", p * f) + at("yaw", y * f));
                }
                case 2:
                {
                    M3 R = rot(s);
                    Eigen::Quaterniond q(R);
                    if (s.chance(0.3)) q.coeffs() *= -1;
                    m = mk(R, V3::Zero());
                    return el(s.chance(0.5) ? "Quaternion" : "quat", at("x", q.x()) + at("y", q.y()) + at("z", q.z()) + at("w", q.w()));
                }
                case 3:
                {
                    M3 R = rot(s);
                    m = mk(R, V3::Zero());
                    std::string b;
                    for (int i = 0; i < 3; i++)
                    {
                        std::string a;
                        for (int j = 0; j < 3; j++) a += at("c" + std::to_string(j + 1), R(i, j));
                        b += el("row" + std::to_string(i + 1), a);
                    }
                    return el("Matrix3x3", "", b);
                }
                case 4:
                {
                    m = pose(s, span);
                    std::string u = lenUnit(f), b;
                    for (int i = 0; i < 4; i++)
                    {
                        if (i == 3 && s.chance(0.5)) break;
                        std::string a;
                        for (int j = 0; j < 4; j++) a += at("c" + std::to_string(j + 1), m(i, j) * (j == 3 && i < 3 ? f : 1));
                        b += el("row" + std::to_string(i + 1), a);
                    }
                    return el("Matrix4x4", u, b);
                }
                default:
                {
                    double a = s.real(-span, span), d = s.real(-span, span), al = s.real(-3, 3), th = s.real(-3, 3);
                    M4 rz = mk(Eigen::AngleAxisd(th, V3::UnitZ()).matrix(), V3::Zero()), tz = mk(M3::Identity(), V3(0, 0, d)), tx = mk(M3::Identity(), V3(a, 0, 0)), rx = mk(Eigen::AngleAxisd(al, V3::UnitX()).matrix(), V3::Zero());
                    m = rz * tz * tx * rx;
                    std::string u;
                    f = 1; g = 1;
                    if (s.chance(0.5)) { f = 1e-3; u += at("unitsLength", std::string("m")); }
                    if (s.chance(0.5)) { g = 180 / M_PI; u += at("unitsAngle", std::string("degree")); }
                    return el("DH", u + at("a", a * f) + at("d", d * f) + at("alpha", al * g) + at("theta", th * g));
                }
            }
        }
        std::string transform(M4& m, double span, int maxPieces = 4)
        {
            m = M4::Identity();
            std::string b;
            int k = 1 + (int)s.draw(maxPieces);
            for (int i = 0; i < k; i++)
            {
                M4 p;
                b += piece(p, span);
                m = m * p;
            }
            return el("Transform", "", b);
        }
        std::string primitive(Prim& p, bool withT)
        {
            double f;
            std::string u = lenUnit(f), t;
            p.t = M4::Identity();
            if (withT && s.chance(0.6)) t = transform(p.t, 60, 2);
            if (p.kind == 0) return el("Box", u + at("width", p.a * f) + at("height", p.b * f) + at("depth", p.c * f), t);
            if (p.kind == 1) return el("Sphere", u + at("radius", p.a * f), t);
            return el("Cylinder", u + at("radius", p.a * f) + at("height", p.b * f), t);
        }
    };
    struct Extra // what Node does not hold
    {
        double friction = -1;
        bool loGiven = true, hiGiven = true;
        bool visEnabled = true, colEnabled = true, visAsCol = false;
        std::vector<Prim> vis, col;
        int comMode = 0; // 0 none 1 custom 2 bbox
        bool sensor = false;
        M4 sensorT = M4::Identity();
    };
    struct Doc
    {
        RobotSpec sp;
        std::vector<Extra> ex;
        std::string xml;
        struct Set { std::string name; std::vector<int> nodes; int root = -1, tcp = -1; };
        std::vector<Set> sets;
        struct Eef
        {
            std::string name;
            int base, tcp = -1, gcp = -1;
            std::vector<int> statics;
            struct Act { std::string name; std::vector<int> nodes; std::vector<double> speed; std::vector<int> mode; };
            std::vector<Act> actors;
            std::map<std::string, std::map<int, double>> pre;
        };
        std::vector<Eef> eefs;
        std::vector<std::string> parts; // node elements, for mutations
    };
    inline Doc makeDoc(Src& s, bool models, bool vary = true)
    {
        Doc d;
        W w{s, vary};
        RobotOpts o;
        o.maxNodes = 6;
        o.prop = true;
        o.initValues = true;
        o.maxima = true;
        o.physics = true;
        o.span = 0; // replaced below
        d.sp = robotSpec(s, o);
        d.ex.resize(d.sp.n.size());
        std::vector<std::string> elems;
        for (size_t i = 0; i < d.sp.n.size(); i++)
        {
            Node& n = d.sp.n[i];
            Extra& e = d.ex[i];
            std::vector<std::string> b;
            n.local = M4::Identity();
            if (s.chance(0.8)) b.push_back(w.transform(n.local, 400));
            if (n.type != FIXED || s.chance(0.2))
            {
                std::string a;
                if (n.type != FIXED || s.chance(0.7)) a = w.at("type", w.cs(n.type == REV ? "revolute" : n.type == PRIS ? "prismatic" : "fixed"));
                if (n.type != FIXED && n.offset != 0) a += w.at("offset", n.offset);
                if (n.type != FIXED && n.init != 0) a += w.at("initialvalue", n.init);
                std::vector<std::string> jb;
                if (n.type == REV && !(n.axis == V3(0, 0, 1) && s.chance(0.5))) jb.push_back(w.el("Axis", w.at("x", n.axis(0)) + w.at("y", n.axis(1)) + w.at("z", n.axis(2))));
                if (n.type == PRIS) jb.push_back(w.el("TranslationDirection", w.at("x", n.axis(0)) + w.at("y", n.axis(1)) + w.at("z", n.axis(2))));
                if (n.type != FIXED)
                {
                    double f;
                    std::string u = n.type == REV ? w.angUnit(f) : w.lenUnit(f, true);
                    double dl = n.type == REV ? -M_PI : -1000, dh = n.type == REV ? M_PI : 1000;
                    if (n.limitless) { if (f > 2) { n.lo = fl(-M_PI); n.hi = fl(M_PI); } }
                    else if (s.chance(0.12)) { e.loGiven = false; n.lo = dl; n.hi = std::max(n.hi, fl(dl + 0.2)); }
                    else if (s.chance(0.12)) { e.hiGiven = false; n.hi = dh; n.lo = std::min(n.lo, fl(dh - 0.2)); }
                    std::string la = u;
                    // limitless joints turn by 2 pi, whatever (other) limits they are given
                    bool other = n.limitless && s.chance(0.4);
                    double ol = other ? s.real(-4, 2) : 0, oh = other ? (s.chance(0.7) ? ol + s.real(0.1, 6) : ol + s.real(6.5, 9)) : 0;
                    if (other) { n.lo = fl(-M_PI); n.hi = fl(M_PI); }
                    if (e.loGiven) la += w.at("lo", other ? ol * f : n.limitless && f > 2 ? -180.0 : n.lo * f);
                    if (e.hiGiven) la += w.at("hi", other ? oh * f : n.limitless && f > 2 ? 180.0 : n.hi * f);
                    if (n.limitless) la += w.at("limitless", std::string(s.chance(0.5) ? "true" : s.chance(0.5) ? "yes" : "1"));
                    else if (s.chance(0.1)) la += w.at("limitless", std::string("false"));
                    jb.push_back(w.el("Limits", la));
                    static const char* tu[] = {"s", "sec", "second", "min", "minute", "h", "hour"};
                    static const double tf[] = {1, 1, 1, 60, 60, 3600, 3600};
                    if (n.maxVel >= 0)
                    {
                        double f1 = 1, f2 = 1;
                        std::string ua;
                        if (s.chance(0.5)) { int k = (int)s.draw(7); f1 = tf[k]; ua += w.at("unitsTime", std::string(tu[k])); }
                        if (s.chance(0.5)) { if (n.type == REV) { ua += w.at("unitsAngle", std::string("degree")); f2 = 180 / M_PI; } else { ua += w.at("unitsLength", std::string("mm")); f2 = 1000; } }
                        jb.push_back(w.el("MaxVelocity", w.at("value", n.maxVel * f1 * f2) + ua));
                        f1 = f2 = 1;
                        ua = "";
                        if (s.chance(0.5)) { int k = (int)s.draw(7); f1 = tf[k] * tf[k]; ua += w.at("unitsTime", std::string(tu[k])); }
                        if (s.chance(0.5)) { if (n.type == REV) { ua += w.at("unitsAngle", std::string("deg")); f2 = 180 / M_PI; } else { ua += w.at("unitsLength", std::string("millimeter")); f2 = 1000; } }
                        jb.push_back(w.el("MaxAcceleration", w.at("value", n.maxAcc * f1 * f2) + ua));
                        f1 = 1;
                        ua = "";
                        if (s.chance(0.4)) { f1 = 1000; ua = w.at(w.unitAt("Length"), std::string("mm")); }
                        else if (s.chance(0.4)) ua = w.at(w.unitAt("Length"), std::string("meter"));
                        jb.push_back(w.el("MaxTorque", w.at("value", n.maxTor * f1) + ua));
                    }
                    for (auto& p : n.prop) jb.push_back(w.el("PropagateJointValue", w.at("name", d.sp.n[p.first].name) + (p.second == 1 ? "" : w.at("factor", p.second))));
                }
                else n.maxVel = n.maxAcc = n.maxTor = -1;
                for (size_t k = jb.size(); k > 1; k--) if (vary) std::swap(jb[k - 1], jb[s.draw(k)]);
                std::string body;
                for (auto& x : jb) body += x;
                b.push_back(w.el("Joint", a, body));
            }
            if (n.physics)
            {
                std::string pb;
                static const char* wu[] = {"kg", "kilogram", "g", "gram", "t", "ton"};
                static const double wf[] = {1, 1, 1000, 1000, 1e-3, 1e-3};
                int k = (int)s.draw(6);
                pb += w.el("Mass", w.at("value", n.mass * wf[k]) + w.at(w.unitAt("Weight"), std::string(wu[k])));
                double f;
                e.comMode = (int)s.draw(3);
                if (e.comMode == 1)
                {
                    std::string u = w.lenUnit(f);
                    static const char* loc[] = {"joint", "custom"};
                    pb += w.el("CoM", (s.chance(0.8) ? w.at("location", std::string(loc[s.draw(2)])) : "") + w.at("x", n.com(0) * f) + w.at("y", n.com(1) * f) + (n.com(2) == 0 ? "" : w.at("z", n.com(2) * f)) + u);
                }
                else if (e.comMode == 2) pb += w.el("CoM", w.at("location", w.cs("VisualizationBBoxCenter")));
                double fi = 1;
                std::string ua;
                switch (s.draw(4)) { case 0: break; case 1: fi *= 1000; ua += w.at("unitsWeight", std::string("g")); break; case 2: fi *= 1e-3; ua += w.at("unitsWeight", std::string("ton")); break; default: ua += w.at("unitsWeight", std::string("kg")); }
                if (s.chance(0.4)) { fi *= 1e6; ua += w.at("unitsLength", std::string("mm")); }
                std::string rows;
                for (int a = 0; a < 3; a++) { std::string c; for (int q = 0; q < 3; q++) c += w.at("c" + std::to_string(q + 1), n.inertia(a, q) * fi); rows += w.el("row" + std::to_string(a + 1), c); }
                pb += w.el("InertiaMatrix", ua, rows);
                static const char* st[] = {"", "dynamic", "static", "kinematic"};
                if (n.simType) pb += w.el("SimulationType", w.at("value", w.cs(st[n.simType])));
                if (s.chance(0.4)) { n.ignoreCol.push_back(d.sp.n[s.draw(d.sp.n.size())].name); pb += w.el("IgnoreCollision", w.at("name", n.ignoreCol.back())); if (s.chance(0.4)) { n.ignoreCol.push_back("other"); pb += w.el("IgnoreCollision", w.at("name", n.ignoreCol.back())); } }
                if (s.chance(0.3)) { e.friction = fl(s.uniform(0, 2)); pb += w.el("Friction", w.at("value", e.friction)); }
                b.push_back(w.el("Physics", "", pb));
            }
            else { n.mass = 0; n.simType = 0; }
            if (models && s.chance(0.6))
            {
                auto prims = [&](std::vector<Prim>& v)
                {
                    std::string x;
                    int k = 1 + (int)s.draw(2);
                    for (int i = 0; i < k; i++)
                    {
                        Prim p = prim(s);
                        // a transformation of one primitive followed by further ones is not specified
                        x += w.primitive(p, i == k - 1);
                        v.push_back(p);
                    }
                    return w.el("Primitives", "", x);
                };
                if (s.chance(0.6))
                {
                    e.visEnabled = !s.chance(0.15);
                    std::string at = e.visEnabled ? (s.chance(0.3) ? w.at("enable", std::string("true")) : "") : w.at("enable", std::string("false"));
                    std::string body = prims(e.vis);
                    if (e.visEnabled && s.chance(0.3)) { e.visAsCol = true; if (s.chance(0.5)) at += w.at("useAsCollisionModel", std::string("true")); else body += w.el("UseAsCollisionModel", ""); }
                    b.push_back(w.el("Visualization", at, body));
                }
                if (!e.visAsCol && s.chance(0.7))
                {
                    e.colEnabled = !s.chance(0.15);
                    std::string at = e.colEnabled ? "" : w.at("enable", std::string("false"));
                    b.push_back(w.el("CollisionModel", at, prims(e.col)));
                }
            }
            if (s.chance(0.2))
            {
                e.sensor = true;
                std::string t;
                if (s.chance(0.7)) t = w.transform(e.sensorT, 100, 2);
                b.push_back(w.el("Sensor", w.at("type", w.cs("position")) + w.at("name", "s" + std::to_string(i)), t));
            }
            for (int c : d.sp.children[i]) b.push_back(w.el("Child", w.at("name", d.sp.n[c].name)));
            // the children stay in order, everything else may be anywhere
            for (size_t k = b.size() - d.sp.children[i].size(); k > 1; k--) if (vary) std::swap(b[k - 1], b[s.draw(k)]);
            std::string body;
            for (auto& x : b) body += x;
            // the specialised tags are allowed for what they are meant for
            std::string tag = "RobotNode";
            bool bare = d.ex[i].vis.empty() && d.ex[i].col.empty();
            if (s.chance(0.4)) tag = n.type != FIXED ? (bare ? "JointNode" : "ModelNode") : n.local.isIdentity(0) ? "BodyNode" : bare && !n.physics ? "TransformationNode" : "ModelNode";
            elems.push_back(w.el(tag, w.at("name", n.name), body));
        }
        if (s.chance(0.5))
        {
            Doc::Set st;
            st.name = "theset";
            std::string b, a = w.at("name", st.name);
            for (size_t i = 0; i < d.sp.n.size(); i++) if (s.chance(0.5)) { st.nodes.push_back((int)i); b += w.el("Node", w.at("name", d.sp.n[i].name)); }
            if (st.nodes.empty()) { st.nodes.push_back(0); b += w.el("Node", w.at("name", d.sp.n[0].name)); }
            if (s.chance(0.5)) { st.tcp = (int)s.draw(d.sp.n.size()); a += w.at("tcp", d.sp.n[st.tcp].name); }
            if (s.chance(0.5)) { st.root = 0; a += w.at("kinematicRoot", d.sp.n[0].name); }
            elems.push_back(w.el(s.chance(0.7) ? "RobotNodeSet" : "ModelNodeSet", a, b));
            d.sets.push_back(st);
        }
        if (s.chance(0.4))
        {
            Doc::Eef e;
            e.name = "eef";
            e.base = (int)s.draw(d.sp.n.size());
            std::string a = w.at("name", e.name) + w.at("base", d.sp.n[e.base].name), b;
            if (s.chance(0.6)) { e.tcp = (int)s.draw(d.sp.n.size()); a += w.at("tcp", d.sp.n[e.tcp].name); }
            if (s.chance(0.4)) { e.gcp = (int)s.draw(d.sp.n.size()); a += w.at("gcp", d.sp.n[e.gcp].name); }
            if (s.chance(0.5)) { int k = (int)s.draw(d.sp.n.size()); e.statics.push_back(k); b += w.el("Static", "", w.el("Node", w.at("name", d.sp.n[k].name))); }
            for (int k = 0, m = (int)s.draw(3); k < m; k++)
            {
                Doc::Eef::Act ac;
                ac.name = "actor" + std::to_string(k);
                std::string x;
                for (int j = 0, q = 1 + (int)s.draw(3); j < q; j++)
                {
                    int nd = (int)s.draw(d.sp.n.size());
                    ac.nodes.push_back(nd);
                    static const char* md[] = {"none", "actors", "static", "all"};
                    int mode = (int)s.draw(5);
                    double sp = s.chance(0.5) ? 1 : fl(s.uniform(-2, 2));
                    ac.mode.push_back(mode == 4 ? 3 : mode);
                    ac.speed.push_back(sp == 0 ? 1 : sp);
                    x += w.el("Node", w.at("name", d.sp.n[nd].name) + (mode == 4 ? "" : w.at("considerCollisions", w.cs(md[mode]))) + (sp == 1 ? "" : w.at("direction", sp)));
                }
                e.actors.push_back(ac);
                b += w.el("Actor", w.at("name", ac.name), x);
            }
            auto js = d.sp.joints();
            for (int k = 0, m = js.empty() ? 0 : (int)s.draw(3); k < m; k++)
            {
                std::string nm = "pre" + std::to_string(k), x;
                for (int j : js)
                    if (s.chance(0.6))
                    {
                        double f, v = randomQ(s, d.sp.n[j]);
                        std::string u = d.sp.n[j].type == REV ? w.angUnit(f) : w.lenUnit(f, true);
                        e.pre[nm][j] = v;
                        x += w.el("Node", w.at("name", d.sp.n[j].name) + w.at("value", v * f) + u);
                    }
                if (!e.pre.count(nm)) e.pre[nm];
                b += w.el("Preshape", w.at("name", nm), x);
            }
            elems.push_back(w.el("Endeffector", a, b));
            d.eefs.push_back(e);
        }
        d.parts = elems;
        if (vary) for (size_t k = elems.size(); k > 1; k--) if (s.chance(0.3)) std::swap(elems[k - 1], elems[s.draw(k)]);
        std::string all;
        for (auto& x : elems) all += x;
        d.xml = (s.chance(0.5) ? "<?xml version='1.0' encoding='UTF-8'?>\n" : "") + w.el(s.chance(0.8) ? "Robot" : "Model", w.at("Type", d.sp.type) + w.at("StandardName", d.sp.name) + w.at("RootNode", d.sp.n[0].name), all);
        return d;
    }

    inline std::vector<V3> boxCorners(const Prim& p, const M4& T)
    {
        std::vector<V3> r;
        for (int i = 0; i < 8; i++)
        {
            V3 v((i & 1 ? .5 : -.5) * p.a, (i & 2 ? .5 : -.5) * p.b, (i & 4 ? .5 : -.5) * p.c);
            r.push_back(rotOf(T) * v + trans(T));
        }
        return r;
    }
    // signed excess of a point outside a primitive, positive outside
    inline double outside(const Prim& p, const M4& T, const V3& x)
    {
        V3 v = rotOf(T).transpose() * (x - trans(T));
        if (p.kind == 0) return std::max(fabs(v(0)) - p.a / 2, std::max(fabs(v(1)) - p.b / 2, fabs(v(2)) - p.c / 2));
        if (p.kind == 1) return v.norm() - p.a;
        return std::max(sqrt(v(0) * v(0) + v(2) * v(2)) - p.a, fabs(v(1)) - p.b / 2);
    }
    // the mesh consists of exactly the given primitives
    inline void sameGeometry(pbt::Ctx& c, const TriMeshModelPtr& m, const std::vector<Prim>& ps, const std::string& what)
    {
        auto t = triangles(m);
        c.check(!t.empty(), "geoEmpty", what + ": no geometry");
        std::vector<V3> pts;
        for (auto& x : t) { pts.push_back(x.a); pts.push_back(x.b); pts.push_back(x.c); }
        for (auto& p : pts)
        {
            double best = 1e30;
            for (auto& q : ps) best = std::min(best, outside(q, q.t, p));
            if (best > 0.05) c.fail("geoOutside", what + ": vertex " + str(p.transpose()) + " is " + num(best) + " mm outside of the described primitives");
        }
        for (auto& q : ps)
        {
            auto cor = q.kind == 0 ? boxCorners(q, q.t) : std::vector<V3>();
            if (q.kind == 1) for (int a = 0; a < 3; a++) for (int sg = -1; sg < 2; sg += 2) cor.push_back(trans(q.t) + q.a * sg * rotOf(q.t).col(a));
            if (q.kind == 2) for (int sg = -1; sg < 2; sg += 2) for (int a = 0; a < 3; a += 2) for (int s2 = -1; s2 < 2; s2 += 2) cor.push_back(trans(q.t) + q.b / 2 * sg * rotOf(q.t).col(1) + q.a * s2 * rotOf(q.t).col(a));
            for (auto& k : cor)
            {
                double best = 1e30;
                for (auto& p : pts) best = std::min(best, (p - k).norm());
                double tol = q.kind == 0 ? 0.05 : 0.45 * q.a;
                if (best > tol) c.fail("geoMissing", what + ": nothing within " + num(tol) + " mm of " + str(k.transpose()) + " (primitive kind " + std::to_string(q.kind) + "), nearest " + num(best));
            }
        }
    }

    inline void verify(pbt::Ctx& c, const RobotPtr& r, const Doc& d, RobotIO::RobotDescription mode)
    {
        c.check(!!r, "null", "no robot");
        c.check(r->getType() == d.sp.type && r->getName() == d.sp.name, "names", "type or name of the robot: " + r->getType() + " " + r->getName());
        c.check(r->getRobotNodes().size() == d.sp.n.size(), "count", "number of nodes " + std::to_string(r->getRobotNodes().size()));
        c.check(r->getRootNode() && r->getRootNode()->getName() == d.sp.n[0].name, "root", "root node");
        auto rel = [](double x, double t) { return t * (1 + fabs(x)); };
        std::vector<double> q(d.sp.n.size(), 0);
        for (size_t i = 0; i < d.sp.n.size(); i++)
        {
            const Node& n = d.sp.n[i];
            const Extra& e = d.ex[i];
            RobotNodePtr rn = r->getRobotNode(n.name);
            c.check(!!rn, "node", "node " + n.name + " missing");
            c.check(rn->isRotationalJoint() == (n.type == REV) && rn->isTranslationalJoint() == (n.type == PRIS), "type", "joint type of " + n.name);
            std::vector<std::string> ch;
            for (auto& o : rn->getChildren()) if (!boost::dynamic_pointer_cast<Sensor>(o)) ch.push_back(o->getName());
            std::vector<std::string> want;
            for (int k : d.sp.children[i]) want.push_back(d.sp.n[k].name);
            c.check(ch == want, "children", "children of " + n.name);
            if (n.type != FIXED)
            {
                c.near(rn->getJointLimitLo(), n.lo, rel(n.lo, 1e-5), "lo", "lower limit of " + n.name);
                c.near(rn->getJointLimitHi(), n.hi, rel(n.hi, 1e-5), "hi", "upper limit of " + n.name);
                c.check(rn->isLimitless() == n.limitless, "limitless", "limitless flag of " + n.name);
                c.near(rn->getJointValueOffset(), n.offset, rel(n.offset, 1e-5), "offset", "offset of " + n.name);
                q[i] = std::max(n.lo, std::min(n.hi, n.init));
                c.near(rn->getJointValue(), q[i], rel(q[i], 1e-5), "init", "initial value of " + n.name);
                c.near(rn->getMaxVelocity(), n.maxVel, rel(n.maxVel, 2e-5), "maxvel", "maximum velocity of " + n.name);
                c.near(rn->getMaxAcceleration(), n.maxAcc, rel(n.maxAcc, 2e-5), "maxacc", "maximum acceleration of " + n.name);
                c.near(rn->getMaxTorque(), n.maxTor, rel(n.maxTor, 2e-5), "maxtor", "maximum torque of " + n.name);
            }
            c.near(rn->getMass(), n.mass, rel(n.mass, 1e-5), "mass", "mass of " + n.name);
            if (n.physics)
            {
                if (e.comMode == 1) sameVec(c, d3(rn->getCoMLocal()), n.com, 1e-2, "com", "CoM of " + n.name);
                c.check((rn->getInertiaMatrix().cast<double>() - n.inertia).norm() < 1e-5 + 1e-4 * n.inertia.norm(), "inertia", "inertia of " + n.name + " " + str(rn->getInertiaMatrix()) + " expected " + str(n.inertia));
                auto st = n.simType == 1 ? SceneObject::Physics::eDynamic : n.simType == 2 ? SceneObject::Physics::eStatic : n.simType == 3 ? SceneObject::Physics::eKinematic : SceneObject::Physics::eUnknown;
                c.check(rn->getSimulationType() == st, "simtype", "simulation type of " + n.name);
                c.near(rn->getFriction(), e.friction, 1e-5, "friction", "friction of " + n.name);
                auto ig = rn->getIgnoredCollisionModels();
                c.check(std::vector<std::string>(ig.begin(), ig.end()) == n.ignoreCol, "ignore", "ignored collisions of " + n.name);
            }
            bool hv = mode == RobotIO::eFull && !e.vis.empty() && e.visEnabled;
            bool hc = mode != RobotIO::eStructure && ((!e.col.empty() && e.colEnabled));
            bool vc = mode == RobotIO::eFull && e.visAsCol;
            if (mode == RobotIO::eFull)
            {
                if (hv) { c.check(!!rn->getVisualization(), "visu", "visualization of " + n.name); sameGeometry(c, rn->getVisualization()->getTriMeshModel(), e.vis, "visualization of " + n.name); }
                else c.check(!rn->getVisualization(), "novisu", "unexpected visualization of " + n.name);
            }
            if (hc || vc) { c.check(!!rn->getCollisionModel(), "col", "collision model of " + n.name); sameGeometry(c, rn->getCollisionModel()->getTriMeshModel(), vc ? e.vis : e.col, "collision model of " + n.name); }
            else c.check(!rn->getCollisionModel(), "nocol", "unexpected collision model of " + n.name);
            if (mode == RobotIO::eStructure) c.check(!rn->getVisualization(), "structvisu", "visualization although only the structure was loaded");
            if (e.sensor) c.check(!!r->getSensor("s" + std::to_string(i)), "sensor", "sensor of " + n.name);
        }
        for (size_t i = 0; i < d.sp.n.size(); i++)
            for (auto& p : d.sp.n[i].prop)
            {
                // a coupled joint follows (only checked at load: factor and target are checked by P02)
                (void)p;
            }
        double tp = 2e-2 + d.sp.reach() * 2e-5;
        auto w = d.sp.fk(M4::Identity(), q);
        r->applyJointValues();
        for (size_t i = 0; i < d.sp.n.size(); i++)
        {
            // applying the values also applies the coupling
            bool coupled = false;
            for (auto& n : d.sp.n) coupled |= !n.prop.empty();
            if (coupled) break;
            samePose(c, r->getRobotNode(d.sp.n[i].name)->getGlobalPose(), w[i], tp, 2e-4, "pose", "pose of " + d.sp.n[i].name);
            if (d.ex[i].sensor) samePose(c, r->getSensor("s" + std::to_string(i))->getGlobalPose(), w[i] * d.ex[i].sensorT, tp, 2e-4, "sensorpose", "pose of the sensor of " + d.sp.n[i].name);
        }
        for (size_t i = 0; i < d.sp.n.size(); i++)
            c.check((d4(r->getRobotNode(d.sp.n[i].name)->getLocalTransformation()) - d.sp.n[i].local).cwiseAbs().maxCoeff() < tp, "local", "local transformation of " + d.sp.n[i].name + ": " + str(r->getRobotNode(d.sp.n[i].name)->getLocalTransformation()) + " expected " + str(d.sp.n[i].local));
        for (auto& st : d.sets)
        {
            c.check(r->hasRobotNodeSet(st.name), "set", "node set missing");
            RobotNodeSetPtr rs = r->getRobotNodeSet(st.name);
            c.check(rs->getSize() == st.nodes.size(), "setsize", "size of the node set");
            for (size_t k = 0; k < st.nodes.size(); k++) c.check(rs->getNode((int)k)->getName() == d.sp.n[st.nodes[k]].name, "setnode", "node set member");
            c.check(rs->getKinematicRoot() && rs->getKinematicRoot()->getName() == d.sp.n[0].name, "setroot", "kinematic root of the node set");
            if (st.tcp >= 0) c.check(rs->getTCP()->getName() == d.sp.n[st.tcp].name, "settcp", "tcp of the node set");
        }
        for (auto& e : d.eefs)
        {
            c.check(r->hasEndEffector(e.name), "eef", "end effector missing");
            EndEffectorPtr x = r->getEndEffector(e.name);
            int tcp = e.tcp >= 0 ? e.tcp : e.base, gcp = e.gcp >= 0 ? e.gcp : tcp;
            c.check(x->getBase()->getName() == d.sp.n[e.base].name && x->getTcp()->getName() == d.sp.n[tcp].name && x->getGCP()->getName() == d.sp.n[gcp].name, "eefnodes", "base, tcp or gcp of the end effector");
            std::vector<RobotNodePtr> st;
            x->getStatics(st);
            c.check(st.size() == e.statics.size() && (st.empty() || st[0]->getName() == d.sp.n[e.statics[0]].name), "eefstatic", "static part of the end effector");
            std::vector<EndEffectorActorPtr> ac;
            x->getActors(ac);
            c.check(ac.size() == e.actors.size(), "eefactors", "number of actors");
            for (size_t k = 0; k < ac.size(); k++)
            {
                auto def = ac[k]->getDefinition();
                c.check(ac[k]->getName() == e.actors[k].name && def.size() == e.actors[k].nodes.size(), "actor", "actor " + e.actors[k].name);
                for (size_t m = 0; m < def.size(); m++)
                {
                    c.check(def[m].robotNode->getName() == d.sp.n[e.actors[k].nodes[m]].name, "actornode", "node of actor");
                    c.near(def[m].directionAndSpeed, e.actors[k].speed[m], 1e-5, "actorspeed", "direction of actor node");
                    c.check((int)def[m].colMode == e.actors[k].mode[m], "actormode", "collision mode of actor node");
                }
            }
            c.check(x->getPreshapes().size() == e.pre.size(), "preshapes", "number of preshapes");
            for (auto& p : e.pre)
            {
                c.check(x->hasPreshape(p.first), "preshape", "preshape " + p.first);
                auto m = x->getPreshape(p.first)->getRobotNodeJointValueMap();
                c.check(m.size() == p.second.size(), "preshapesize", "size of preshape");
                for (auto& v : p.second) { c.check(m.count(d.sp.n[v.first].name), "preshapenode", "node of preshape"); c.near(m[d.sp.n[v.first].name], v.second, rel(v.second, 1e-5), "preshapevalue", "value of preshape for " + d.sp.n[v.first].name); }
            }
        }
    }
}
