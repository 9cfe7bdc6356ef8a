// libs: VirtualRobot
// P11: masses, centres of mass, inertia, gravity torques, support polygon and balance
#include "common/ikworld.h"
#include "common/geom.h"
#include <VirtualRobot/Tools/Gravity.h>
#include <VirtualRobot/IK/SupportPolygon.h>
#include <VirtualRobot/IK/CoMIK.h>
#include <VirtualRobot/IK/constraints/BalanceConstraint.h>
#include <VirtualRobot/SceneObjectSet.h>
#include <VirtualRobot/Obstacle.h>
#include <VirtualRobot/Visualization/TriMeshModel.h>
using namespace VirtualRobot;
using namespace gen;
typedef Eigen::Vector2d V2;

namespace
{
    std::vector<int> bodiesOf(Src& s, const World& w, bool needMass)
    {
        std::vector<int> b;
        for (size_t i = 0; i < w.sp.n.size(); i++) if ((!needMass || w.sp.n[i].mass > 0) && s.chance(0.7)) b.push_back((int)i);
        if (b.size() > 1 && s.chance(0.3)) for (size_t i = b.size() - 1; i > 0; i--) std::swap(b[i], b[s.draw(i + 1)]);
        return b;
    }
    RobotNodeSetPtr setOf(const World& w, const std::string& name, const std::vector<int>& idx)
    {
        std::vector<RobotNodePtr> n;
        for (int i : idx) n.push_back(w.robo->getRobotNode(w.sp.n[i].name));
        return RobotNodeSet::createRobotNodeSet(w.robo, name, n, w.robo->getRootNode(), w.robo->getRobotNode(w.sp.n[w.tcp].name));
    }
    double massOf(const World& w, const std::vector<int>& b) { double m = 0; for (int i : b) m += w.sp.n[i].mass; return m; }
    V3 comModel(const World& w, const std::vector<int>& b, const std::vector<double>& q)
    {
        auto p = w.fk(q);
        V3 r = V3::Zero();
        double m = massOf(w, b);
        if (m <= 0) return r;
        for (int i : b) r += (rotOf(p[i]) * w.sp.n[i].com + trans(p[i])) * w.sp.n[i].mass / m;
        return r;
    }
    std::vector<int> all(const World& w) { std::vector<int> r; for (size_t i = 0; i < w.sp.n.size(); i++) r.push_back((int)i); return r; }
    void move(Src& s, World& w)
    {
        std::map<std::string, float> m;
        for (int j : w.sp.joints()) if (s.chance(0.7)) m[w.sp.n[j].name] = (float)interiorQ(s, w.sp.n[j]);
        w.robo->setJointValues(m);
        if (s.chance(0.3)) { w.base = fl4(pose(s, 1000)); w.robo->setGlobalPose(f4(w.base)); }
        w.read();
    }

    void masses(Src& s, pbt::Ctx& c)
    {
        Opt o;
        o.physics = true;
        World w = world(s, c, o);
        auto B = bodiesOf(s, w, false);
        auto rb = setOf(w, "bodies", B);
        int steps = (int)s.integer(1, 4);
        for (int k = 0; k < steps; k++)
        {
            auto P = w.fk(w.q);
            double tol = 1e-3 + 4e-6 * (w.reach + trans(w.base).norm() + 1000);
            for (size_t i = 0; i < w.sp.n.size(); i++)
            {
                auto n = w.robo->getRobotNode(w.sp.n[i].name);
                c.near(n->getMass(), w.sp.n[i].mass, 1e-6, "node-mass", "mass of " + w.sp.n[i].name);
                sameVec(c, d3(n->getCoMLocal()), w.sp.n[i].com, 1e-4, "node-com-local", "local CoM of " + w.sp.n[i].name);
                sameVec(c, d3(n->getCoMGlobal()), rotOf(P[i]) * w.sp.n[i].com + trans(P[i]), tol, "node-com-global", "global CoM of " + w.sp.n[i].name);
            }
            c.near(w.robo->getMass(), massOf(w, all(w)), 1e-4 * (1 + massOf(w, all(w))), "robot-mass", "mass of the robot");
            c.near(rb->getMass(), massOf(w, B), 1e-4 * (1 + massOf(w, B)), "set-mass", "mass of the node set");
            V3 cg = comModel(w, all(w), w.q);
            sameVec(c, d3(w.robo->getCoMGlobal()), cg, tol, "robot-com-global", "global CoM of the robot");
            if (massOf(w, all(w)) > 0) // a robot without mass has no CoM
            {
                V3 cl = rotOf(w.base).transpose() * (cg - trans(w.base));
                sameVec(c, d3(w.robo->getCoMLocal()), cl, 2 * tol, "robot-com-local", "CoM of the robot in its root frame");
            }
            sameVec(c, d3(rb->getCoM()), comModel(w, B, w.q), tol, "set-com", "CoM of the node set");
            // changes
            int i = (int)s.draw(w.sp.n.size());
            auto n = w.robo->getRobotNode(w.sp.n[i].name);
            switch (s.draw(4))
            {
                case 0: w.sp.n[i].mass = s.chance(0.2) ? 0 : fl(s.uniform(0.1, 20)); n->setMass((float)w.sp.n[i].mass); break;
                case 1: w.sp.n[i].com = vec(s, 100); n->setCoMLocal(f3(w.sp.n[i].com)); break;
                case 2: w.sp.n[i].inertia = inertia(s); n->setInertiaMatrix(w.sp.n[i].inertia.cast<float>()); break;
                default: move(s, w);
            }
            c.checkf(n->getInertiaMatrix().cast<double>().isApprox(w.sp.n[i].inertia, 1e-5) || w.sp.n[i].inertia.isZero(1e-9), "inertia", [&](std::ostream& o) { o << n->getInertiaMatrix(); });
        }
        c.nontrivial(massOf(w, B) > 0);
        c.label(B.empty() ? "masses:empty set" : "masses:" + std::to_string(std::min<size_t>(B.size(), 4)) + "+ bodies");
    }

    // ---------------------------------------------------------------------------------------- inertia
    // inertia of a few point masses is the reference
    void inertiaShift(Src& s, pbt::Ctx& c)
    {
        int k = (int)s.integer(2, 5);
        std::vector<std::pair<double, V3>> pts;
        double m = 0;
        V3 com = V3::Zero();
        for (int i = 0; i < k; i++) { double a = s.uniform(0.1, 3); V3 p = vec(s, 1); pts.push_back({a, p}); m += a; com += a * p; }
        com /= m;
        auto about = [&](const V3& p) { M3 I = M3::Zero(); for (auto& x : pts) { V3 r = x.second - p; I += x.first * (r.squaredNorm() * M3::Identity() - r * r.transpose()); } return I; };
        SceneObjectPtr o(new SceneObject("o"));
        o->setMass((float)m);
        o->setInertiaMatrix(about(com).cast<float>());
        V3 d = vec(s, 2);
        M3 R = rot(s);
        double tol = 1e-4 * (1 + m * (1 + d.squaredNorm()));
        auto same = [&](const Eigen::Matrix3f& g, const M3& want, const char* k)
        {
            c.checkf((g.cast<double>() - want).cwiseAbs().maxCoeff() < tol, k, [&](std::ostream& os) { os << "mass " << m << " shift " << d.transpose() << "\ngot\n" << g << "\nwant\n" << want; });
        };
        same(o->getInertiaMatrix(), about(com), "at-com");
        same(o->getInertiaMatrix(f3(d)), about(com + d), "shifted");
        same(o->getInertiaMatrix(f3(d), R.cast<float>()), R * about(com + d) * R.transpose(), "shifted-rotated");
        same(o->getInertiaMatrix(f4(mk(R, d))), R * about(com + d) * R.transpose(), "transform");
        c.nontrivial(d.norm() > 0.01);
    }
    // CoM and inertia that the reader determines from the model
    void automatic(Src& s, pbt::Ctx& c)
    {
        RobotOpts ro;
        ro.maxNodes = 4;
        RobotSpec sp = robotSpec(s, ro);
        std::vector<int> kind(sp.n.size());
        std::string x = "<Robot Type='t' StandardName='r' RootNode='n0'>\n";
        for (size_t i = 0; i < sp.n.size(); i++)
        {
            auto& n = sp.n[i];
            int nv = (int)s.draw(3), nc = (int)s.draw(3);
            for (int k = 0; k < nv; k++) n.vis.push_back(prim(s));
            for (int k = 0; k < nc; k++) n.col.push_back(prim(s));
            n.mass = s.chance(0.15) ? 0 : fl(s.uniform(0.1, 20));
            n.com = vec(s, 100);
            kind[i] = (int)s.draw(4);     // 0: nothing given 1: CoM given 2: inertia given 3: no physics
            std::string e;
            if (kind[i] != 3)
            {
                e = " <Physics>\n <Mass value='" + num(n.mass) + "' units='kg'/>\n";
                if (kind[i] == 0) e += " <CoM location='VisualizationBBoxCenter'/>\n";
                else e += " <CoM x='" + num(n.com(0)) + "' y='" + num(n.com(1)) + "' z='" + num(n.com(2)) + "' units='mm'/>\n";
                if (kind[i] == 2)
                {
                    n.inertia = inertia(s);
                    e += " <InertiaMatrix units='kg m'>\n";
                    for (int a = 0; a < 3; a++) e += "   <row" + std::to_string(a + 1) + " c1='" + num(n.inertia(a, 0)) + "' c2='" + num(n.inertia(a, 1)) + "' c3='" + num(n.inertia(a, 2)) + "'/>\n";
                    e += " </InertiaMatrix>\n";
                }
                e += " </Physics>\n";
            }
            x += nodeXML(sp, (int)i, e);
        }
        x += "</Robot>\n";
        RobotPtr r = RobotIO::createRobotFromString(x, "");
        if (s.chance(0.5)) { M4 b = fl4(pose(s, 500)); r->setGlobalPose(f4(b)); }
        for (size_t i = 0; i < sp.n.size(); i++)
        {
            if (kind[i] == 3) continue;
            auto n = r->getRobotNode(sp.n[i].name);
            // bounding box of the collision model, or the visualization, in the frame of the node
            TriMeshModelPtr tm;
            if (n->getCollisionModel()) tm = n->getCollisionModel()->getTriMeshModel();
            else if (n->getVisualization(SceneObject::Full)) tm = n->getVisualization(SceneObject::Full)->getTriMeshModel();
            V3 lo = V3::Constant(1e30), hi = -lo;
            if (tm) for (auto& f : tm->faces) for (unsigned id : {f.id1, f.id2, f.id3}) { V3 v = tm->vertices[id].cast<double>(); lo = lo.cwiseMin(v); hi = hi.cwiseMax(v); }
            bool box = tm && !tm->faces.empty();
            c.checkf(box == (!sp.n[i].col.empty() || !sp.n[i].vis.empty()), "model", [&](std::ostream& o) { o << n->getName() << " has a mesh: " << box; });
            if (kind[i] == 0) sameVec(c, d3(n->getCoMLocal()), box ? V3(0.5 * (lo + hi)) : V3(V3::Zero()), 2e-2, "automatic-com", "CoM of " + n->getName());
            else sameVec(c, d3(n->getCoMLocal()), sp.n[i].com, 1e-3, "given-com", "CoM of " + n->getName());
            M3 I = n->getInertiaMatrix().cast<double>();
            if (kind[i] == 2) { c.checkf((I - sp.n[i].inertia).cwiseAbs().maxCoeff() < 1e-4, "given-inertia", [&](std::ostream& o) { o << I << "\nwant\n" << sp.n[i].inertia; }); continue; }
            if (sp.n[i].mass <= 0) continue;
            c.nontrivial(box);
            if (!box) { c.checkf((I - I.transpose()).norm() < 1e-6 && I.determinant() > 0, "default-inertia", [&](std::ostream& o) { o << I; }); continue; }
            V3 l = (hi - lo) * 0.001;
            M3 want = V3(l(1) * l(1) + l(2) * l(2), l(0) * l(0) + l(2) * l(2), l(0) * l(0) + l(1) * l(1)).asDiagonal();
            want *= sp.n[i].mass / 12;
            c.checkf((I - want).cwiseAbs().maxCoeff() < 1e-5 + 2e-3 * want.norm(), "automatic-inertia", [&](std::ostream& o) { o << n->getName() << " mass " << sp.n[i].mass << " size [m] " << l.transpose() << "\ngot\n" << I << "\nwant\n" << want; });
            c.label("automatic:box");
        }
    }

    // ---------------------------------------------------------------------------------------- gravity
    void gravity(Src& s, pbt::Ctx& c)
    {
        Opt o;
        o.physics = true;
        o.onlyJoints = true;
        bool rev = s.chance(0.85);
        o.onlyRev = rev;
        World w = world(s, c, o);
        for (auto& n : w.sp.n) if (n.mass <= 0 && s.chance(0.7)) { n.mass = fl(s.uniform(0.1, 20)); n.com = vec(s, 100); auto r = w.robo->getRobotNode(n.name); r->setMass((float)n.mass); r->setCoMLocal(f3(n.com)); }
        auto B = bodiesOf(s, w, s.chance(0.9));
        auto rb = setOf(w, "bodies", B);
        bool bad = false;
        for (int i : w.idx) bad = bad || w.sp.n[i].type != REV;
        for (int i : B) bad = bad || w.sp.n[i].mass <= 0;
        boost::shared_ptr<Gravity> g;
        bool threw = false;
        try { g.reset(new Gravity(w.robo, w.rns, rb)); } catch (VirtualRobotException&) { threw = true; }
        c.checkf(threw == bad, "rejects", [&](std::ostream& os) { os << (bad ? "accepted joints or bodies that it cannot handle" : "rejected a valid set"); });
        if (threw) { c.label("gravity:rejected"); return; }
        int steps = (int)s.integer(1, 3);
        for (int k = 0; k < steps; k++)
        {
            std::vector<float> t;
            g->computeGravityTorque(t);
            auto m = g->computeGravityTorque();
            c.checkf(t.size() == w.idx.size() && m.size() == w.idx.size(), "size", [&](std::ostream& os) { os << t.size() << " torques, " << m.size() << " named, " << w.idx.size() << " joints"; });
            double M = massOf(w, B);
            for (size_t j = 0; j < w.idx.size(); j++)
            {
                double h = 1e-4;
                auto a = w.q, b = w.q;
                a[w.idx[j]] -= h;
                b[w.idx[j]] += h;
                double dU = 9.81 * M * 0.001 * (comModel(w, B, b)(2) - comModel(w, B, a)(2)) / (2 * h);
                double tol = 1e-3 + 9.81 * M * 0.001 * 1e-5 * (w.reach + trans(w.base).norm() + 500);
                c.near(t[j], dU, tol, "torque", "torque of joint " + w.sp.n[w.idx[j]].name);
                auto it = m.find(w.sp.n[w.idx[j]].name);
                c.check(it != m.end(), "names", "no torque for " + w.sp.n[w.idx[j]].name);
                c.near(it->second, dU, tol, "torque-map", "torque of joint " + w.sp.n[w.idx[j]].name);
                if (std::fabs(dU) > 100 * tol) c.nontrivial();
            }
            move(s, w);
        }
        c.label("gravity:computed");
    }

    // ---------------------------------------------------------------------------------------- support polygon
    struct Poly { std::vector<V2> v; };
    double cross2(const V2& a, const V2& b) { return a(0) * b(1) - a(1) * b(0); }
    // convex hull in double precision, counter clockwise
    std::vector<V2> hull2(std::vector<V2> p)
    {
        std::sort(p.begin(), p.end(), [](const V2& a, const V2& b) { return a(0) < b(0) || (a(0) == b(0) && a(1) < b(1)); });
        std::vector<V2> h;
        for (int k = 0; k < 2; k++)
        {
            size_t st = h.size();
            for (auto& x : p)
            {
                while (h.size() >= st + 2 && cross2(h[h.size() - 1] - h[h.size() - 2], x - h[h.size() - 1]) <= 0) h.pop_back();
                h.push_back(x);
            }
            h.pop_back();
            std::reverse(p.begin(), p.end());
        }
        return h;
    }
    // signed distance to the border, positive inside
    double inside(const std::vector<V2>& h, const V2& x)
    {
        double d = 1e30;
        for (size_t i = 0; i < h.size(); i++)
        {
            V2 e = h[(i + 1) % h.size()] - h[i];
            if (e.norm() < 1e-9) continue;
            d = std::min(d, cross2(e, x - h[i]) / e.norm());
        }
        return d;
    }
    struct Feet
    {
        std::vector<ObstaclePtr> o;
        SceneObjectSetPtr set;
    };
    void placeFoot(Src& s, const ObstaclePtr& o, double h, int kind)
    {
        double z = s.chance(0.7) ? 0 : s.pick(std::vector<double>{1, 3, 7, 12, 30});
        M4 m;
        if (kind == 0) m = mk(Eigen::AngleAxisd(s.uniform(-3, 3), V3(0, 0, 1)).matrix(), V3(s.uniform(-300, 300), s.uniform(-300, 300), h / 2 + z)); // upright
        else if (kind == 1) m = mk(rot(s), V3(s.uniform(-300, 300), s.uniform(-300, 300), 0)); // tilted: lifted so that the lowest corner is at z
        else m = mk(M3::Identity(), V3(s.integer(-3, 3) * 100.0, s.integer(-3, 3) * 100.0, h / 2 + z));
        if (kind == 1)
        {
            double low = 1e30;
            for (auto& v : o->getCollisionModel()->getTriMeshModel()->vertices) low = std::min(low, (rotOf(m) * v.cast<double>())(2));
            m(2, 3) = z - low;
        }
        o->setGlobalPose(f4(m));
    }
    struct FootSpec { double h; int kind; };
    Feet feet(Src& s, std::vector<FootSpec>& fs)
    {
        Feet f;
        f.set.reset(new SceneObjectSet("contacts", CollisionCheckerPtr()));
        int k = (int)s.integer(1, 4);
        for (int i = 0; i < k; i++)
        {
            double a = fl(s.uniform(20, 200)), b = fl(s.uniform(20, 200)), h = fl(s.uniform(10, 80));
            int kind = (int)s.weighted({5, 2, 2});
            ObstaclePtr o;
            if (s.chance(0.8)) o = Obstacle::createBox((float)a, (float)b, (float)h);
            else { o = Obstacle::createSphere((float)(h / 2)); }
            o->setName("foot" + std::to_string(i));
            fs.push_back(FootSpec{h, kind});
            placeFoot(s, o, h, kind);
            f.o.push_back(o);
            f.set->addSceneObject(o);
        }
        return f;
    }
    // contact points in double precision; false if one is too close to the threshold to decide
    bool contacts(const Feet& f, double d, std::vector<V2>& p)
    {
        p.clear();
        for (auto& o : f.o)
        {
            M4 m = d4(o->getCollisionModel()->getGlobalPose());
            auto tm = o->getCollisionModel()->getTriMeshModel();
            std::set<unsigned> used;
            for (auto& fa : tm->faces) { used.insert(fa.id1); used.insert(fa.id2); used.insert(fa.id3); }
            for (size_t i = 0; i < tm->vertices.size(); i++)
            {
                V3 v = rotOf(m) * tm->vertices[i].cast<double>() + trans(m);
                if (std::fabs(v(2) - d) < 1e-2) return false;
                if (v(2) < -d + 1e-2) return false;         // deeply below the floor: not claimed
                if (v(2) > d) continue;
                if (!used.count((unsigned)i)) return false;
                p.push_back(v.head<2>());
            }
        }
        return true;
    }
    size_t distinct(std::vector<V2> p)
    {
        std::vector<V2> u;
        for (auto& x : p) { bool n = true; for (auto& y : u) if ((x - y).norm() < 2e-3) n = false; if (n) u.push_back(x); }
        return u.size();
    }
    const double TH = 0.2;   // accuracy of the hull [mm]
    std::vector<V2> polygon(const MathTools::ConvexHull2DPtr& h) { std::vector<V2> r; for (auto& v : h->vertices) r.push_back(v.cast<double>()); return r; }
    // compares the polygon with the contacts; false: nothing more can be said (degenerate)
    bool samePolygon(pbt::Ctx& c, const MathTools::ConvexHull2DPtr& h, const std::vector<V2>& pts)
    {
        size_t k = distinct(pts);
        if (k < 3)
        {
            c.check(!h, "no-polygon", "a polygon from less than three contacts");
            return false;
        }
        c.check(!!h, "polygon-missing", "no polygon from " + std::to_string(k) + " contacts");
        auto v = polygon(h);
        auto ref = hull2(pts);
        double width = 1e30; // thinnest extent
        for (size_t i = 0; i < ref.size(); i++)
        {
            V2 e = (ref[(i + 1) % ref.size()] - ref[i]).normalized();
            double mx = 0;
            for (auto& x : ref) mx = std::max(mx, cross2(e, x - ref[i]));
            width = std::min(width, mx);
        }
        // corners of the polygon are contacts, and of the hull
        for (auto& x : v)
        {
            double d = 1e30;
            for (auto& y : pts) d = std::min(d, (x - y).norm());
            c.checkf(d < 1e-2, "polygon-corner", [&](std::ostream& o) { o << "corner " << x.transpose() << " is not a contact (nearest " << d << ")"; });
            if (ref.size() >= 3) c.checkf(inside(ref, x) < TH, "polygon-interior", [&](std::ostream& o) { o << "corner " << x.transpose() << " is inside of the hull"; });
        }
        if (ref.size() < 3 || width < 2) return false;
        for (auto& y : pts)
            c.checkf(inside(v, y) > -TH, "polygon-contains", [&](std::ostream& o) { o << "contact " << y.transpose() << " is outside of the polygon by " << -inside(v, y); });
        c.checkf(h->segments.size() == v.size(), "polygon-segments", [&](std::ostream& o) { o << h->segments.size() << " segments, " << v.size() << " corners"; });
        for (size_t i = 0; i < v.size(); i++) c.check(h->segments[i].id1 == (int)i && h->segments[i].id2 == (int)((i + 1) % v.size()), "polygon-segments", "segments do not follow the corners");
        return true;
    }
    // reference stability; -1: undecidable
    double stability(const std::vector<V2>& pts, const V2& com, double& tol)
    {
        auto h = hull2(pts);
        double ci = inside(h, com);
        V2 lo = h[0], hi = h[0];
        for (auto& x : h) { lo = lo.cwiseMin(x); hi = hi.cwiseMax(x); }
        V2 ctr = 0.5 * (lo + hi);
        double cc = inside(h, ctr);
        tol = 1e-3;
        if (ci < -TH) return 0;
        if (cc < 1) return -1;
        tol = 1e-3 + 2 * TH / cc;
        return std::max(0.0, std::min(1.0, ci / cc));
    }
    void support(Src& s, pbt::Ctx& c)
    {
        Opt o;
        o.physics = true;
        o.maxNodes = 4;
        World w = world(s, c, o);
        std::vector<FootSpec> fs;
        Feet f = feet(s, fs);
        auto B = bodiesOf(s, w, false);
        auto rb = setOf(w, "bodies", B);
        SupportPolygon sp(f.set);
        c.check(sp.getContactModels() == f.set, "contact-models", "not the given set");
        auto fp = sp.getFloorPlane();
        c.check(fp.p.norm() == 0 && (fp.n - Eigen::Vector3f::UnitZ()).norm() == 0, "floor", "not the floor");
        int steps = (int)s.integer(1, 3);
        for (int k = 0; k < steps; k++)
        {
            double d = s.pick(std::vector<double>{5, 5, 5, 1, 2, 10, 20});
            std::vector<V2> pts;
            if (!contacts(f, d, pts)) { c.label("support:threshold"); return; }
            // place the CoM: by the robot's pose
            if (massOf(w, B) > 0 && !pts.empty() && s.chance(0.8))
            {
                V2 lo = pts[0], hi = lo;
                for (auto& x : pts) { lo = lo.cwiseMin(x); hi = hi.cwiseMax(x); }
                V2 t(s.uniform(lo(0) - 20, hi(0) + 20), s.uniform(lo(1) - 20, hi(1) + 20));
                if (s.chance(0.1)) t = 0.5 * (lo + hi);
                V3 cm = comModel(w, B, w.q);
                w.base.block<2, 1>(0, 3) += t - V2(cm.head<2>());
                w.base = fl4(w.base);
                w.robo->setGlobalPose(f4(w.base));
            }
            MathTools::ConvexHull2DPtr h;
            bool viaIndex = d == 5 && s.chance(0.3);
            float idx0 = 0;
            if (viaIndex) { idx0 = sp.getStabilityIndex(rb, true); h = sp.getSupportPolygon2D(); }
            else { h = sp.updateSupportPolygon((float)d); c.check(h == sp.getSupportPolygon2D(), "polygon-getter", "another polygon"); }
            bool ok = samePolygon(c, h, pts);
            float si = sp.getStabilityIndex(rb, false);
            if (viaIndex) c.check(idx0 == si, "index-update", "index differs without update");
            c.checkf(si >= 0 && si <= 1, "index-range", [&](std::ostream& os) { os << si; });
            c.check(sp.getStabilityIndex(RobotNodeSetPtr(), false) == 0, "index-null", "index without a node set");
            if (ok)
            {
                V2 com = comModel(w, B, w.q).head<2>();
                double tol, ref = stability(pts, com, tol);
                if (ref >= 0)
                {
                    c.checkf(std::fabs(si - ref) < tol, "index", [&](std::ostream& os) { os << "index " << si << " instead of " << ref << " CoM " << com.transpose() << " contacts " << pts.size(); });
                    c.nontrivial();
                    c.label(ref == 0 ? "support:outside" : ref > 0.99 ? "support:centre" : "support:inside");
                }
                else c.label("support:centre near border");
            }
            else c.label(h ? "support:degenerate" : "support:none");
            int i = (int)s.draw(f.o.size());
            placeFoot(s, f.o[i], fs[i].h, fs[i].kind);
            if (s.chance(0.5)) move(s, w);
        }
    }

    void balance(Src& s, pbt::Ctx& c)
    {
        Opt o;
        o.physics = true;
        o.maxNodes = 5;
        World w = world(s, c, o);
        std::vector<FootSpec> fs;
        Feet f = feet(s, fs);
        auto B = bodiesOf(s, w, false);
        c.require(massOf(w, B) > 0);
        auto rb = setOf(w, "bodies", B);
        double d = s.pick(std::vector<double>{5, 10, 10, 1, 20});
        double minStab = s.pick(std::vector<double>{0.5, 0.1, 0.9, 0.3});
        bool upd = s.chance(0.5), height = s.chance(0.25);
        std::vector<V2> pts;
        c.require(contacts(f, d, pts));
        auto place = [&]()
        {
            V2 lo = pts[0], hi = lo;
            for (auto& x : pts) { lo = lo.cwiseMin(x); hi = hi.cwiseMax(x); }
            V2 t(s.uniform(lo(0) - 20, hi(0) + 20), s.uniform(lo(1) - 20, hi(1) + 20));
            V3 cm = comModel(w, B, w.q);
            w.base.block<2, 1>(0, 3) += t - V2(cm.head<2>());
            w.base = fl4(w.base);
            w.robo->setGlobalPose(f4(w.base));
            w.read();
        };
        if (!pts.empty()) place();
        boost::shared_ptr<BalanceConstraint> bc;
        bool threw = false;
        try
        {
            if (s.chance(0.5)) bc.reset(new BalanceConstraint(w.robo, w.rns, rb, f.set, 0.1f, (float)minStab, (float)d, upd, height));
            else
            {
                SupportPolygonPtr sp(new SupportPolygon(f.set));
                bc.reset(new BalanceConstraint(w.robo, w.rns, rb, sp, 0.1f, (float)minStab, (float)d, upd, height));
            }
        }
        catch (VirtualRobotException&) { threw = true; }
        size_t nd = distinct(pts);
        if (nd < 3) { c.check(threw, "empty-polygon", "accepted an empty support polygon"); c.label("balance:rejected"); return; }
        c.check(!threw, "rejects", "rejected a support polygon of " + std::to_string(nd) + " contacts");
        double h0 = comModel(w, all(w), w.q)(2);
        if (height && s.chance(0.5)) { h0 = fl(s.uniform(0, 1000)); bc->setCoMHeight((float)h0); if (!upd) h0 = NAN; }
        int steps = (int)s.integer(1, 3);
        for (int k = 0; k < steps; k++)
        {
            if (nd < 3 || !samePolygon(c, [&] { bc->optimizationFunction(0); return bc->getSupportPolygon()->getSupportPolygon2D(); }(), pts)) return;
            V3 com = comModel(w, B, w.q);
            double ctol = 1e-3 + 4e-6 * (w.reach + trans(w.base).norm());
            sameVec(c, d3(bc->getCoM()), com, ctol, "com", "CoM of the constraint");
            // fulfilled iff stable enough
            double tol, ref = stability(pts, com.head<2>(), tol);
            if (ref >= 0 && std::fabs(ref - minStab) > tol)
            {
                bool st = ref >= minStab;
                c.checkf(bc->checkTolerances() == st, "fulfilled", [&](std::ostream& os) { os << "stability " << ref << " minimum " << minStab << " fulfilled " << bc->checkTolerances(); });
                Eigen::VectorXf e = bc->getError((float)s.pick(std::vector<double>{1, 0.5}));
                c.check(e.size() == (height ? 3 : 2), "error-size", std::to_string(e.size()));
                if (st) c.check(e.norm() == 0, "error-stable", "error although stable");
                else
                {
                    auto hu = hull2(pts);
                    V2 lo = hu[0], hi = hu[0];
                    for (auto& x : hu) { lo = lo.cwiseMin(x); hi = hi.cwiseMax(x); }
                    V2 want = 0.5 * (lo + hi) - com.head<2>();
                    c.checkf((e.head(2).cast<double>() - want).norm() < 1e-2 + 2 * ctol, "error-unstable", [&](std::ostream& os) { os << e.transpose() << " instead of " << want.transpose(); });
                    if (height && std::isfinite(h0)) c.near(e(2), h0 - com(2), 1e-2 + 2 * ctol, "error-height", "height error");
                }
                c.nontrivial();
                c.label(st ? "balance:stable" : "balance:unstable");
            }
            // Jacobian and objective
            int dim = height ? 3 : 2;
            Eigen::MatrixXf J = bc->getJacobianMatrix();
            c.check(J.rows() == dim && J.cols() == (int)w.idx.size(), "jacobian-size", "wrong size");
            auto v = polygon(bc->getSupportPolygon()->getSupportPolygon2D());
            auto objective = [&](const V2& x)
            {
                double r = 1;
                for (size_t i = 0; i < v.size(); i++)
                {
                    V2 e = (v[(i + 1) % v.size()] - v[i]).normalized();
                    r *= 1 / (1 + std::exp(-0.1 * cross2(e, x - v[i])));
                }
                return 1 - r;
            };
            double ob = bc->optimizationFunction(0);
            c.near(ob, objective(com.head<2>()), 1e-4 + 0.05 * ctol, "objective", "objective");
            Eigen::VectorXf g = bc->optimizationGradient(0);
            c.check(g.size() == (int)w.idx.size(), "gradient-size", "wrong size");
            for (size_t j = 0; j < w.idx.size(); j++)
            {
                double hh = w.sp.n[w.idx[j]].type == PRIS ? 1e-2 : 1e-5;
                auto a = w.q, b = w.q;
                a[w.idx[j]] -= hh;
                b[w.idx[j]] += hh;
                V3 ca = comModel(w, B, a), cb = comModel(w, B, b);
                V3 dj = (cb - ca) / (2 * hh);
                if (w.sp.n[w.idx[j]].type == FIXED) dj.setZero();
                double jt = 1e-2 + 2e-5 * (w.reach + 1000);
                c.checkf((J.col(j).cast<double>() - dj.head(dim)).norm() < jt, "jacobian", [&](std::ostream& os) { os << "joint " << j << ": " << J.col(j).transpose() << " instead of " << dj.transpose(); });
                double dg = w.sp.n[w.idx[j]].type == FIXED ? 0 : (objective(cb.head<2>()) - objective(ca.head<2>())) / (2 * hh);
                c.near(g(j), dg, 1e-4 + 0.02 * jt + 2e-4 * dj.norm() + 1e-3 * std::fabs(dg), "gradient", "gradient of joint " + std::to_string(j));
            }
            // move something
            if (s.chance(0.4))
            {
                int i = (int)s.draw(f.o.size());
                Eigen::Matrix4f old = f.o[i]->getGlobalPose();
                placeFoot(s, f.o[i], fs[i].h, fs[i].kind);
                std::vector<V2> np;
                bool dec = contacts(f, d, np);
                if (!dec || distinct(np) < 3) f.o[i]->setGlobalPose(old);   // would have no polygon
                else if (upd) { pts = np; nd = distinct(pts); c.label("balance:contacts moved"); }
                else c.label("balance:contacts moved, fixed polygon");
            }
            else if (s.chance(0.5)) move(s, w);
            if (s.chance(0.7)) place();
        }
    }
}

int main(int argc, char** argv)
{
    pbt::Suite S;
    S.property = "P11";
    S.rule = "masses: bodies with mass; inertia: shift; automatic: node with mass and model; gravity: a torque well above the tolerance; support/balance: polygon with area and a decidable stability";
    S.init = [] { initVR("P11"); };
    S.add("masses", 20000, 400000, masses);
    S.add("inertia", 4000, 100000, inertiaShift);
    S.add("automatic", 6000, 100000, automatic);
    S.add("gravity", 20000, 400000, gravity);
    S.add("support", 12000, 240000, support);
    S.add("balance", 16000, 300000, balance);
    return pbt::run(argc, argv, S);
}
