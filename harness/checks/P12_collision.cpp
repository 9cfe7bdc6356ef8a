// libs: VirtualRobot
// P12: collision tests and distances against exact triangle geometry
#include "common/shapes.h"
#include <VirtualRobot/MathTools.h>
using namespace VirtualRobot;
using namespace gen;

namespace
{
    CollisionCheckerPtr cc() { return CollisionChecker::getGlobalCollisionChecker(); }
    // eps used for verdict and distances: float arithmetic on coordinates of this size
    double epsOf(double size) { return 0.02 + 2e-5 * size; }

    void nextTo(Src& s, const Shape& A, Shape& B)
    {
        // relative placement: from deeply interpenetrating to clearly apart
        double r = A.radius + B.radius;
        V3 d = gen::unit(s);
        double k = s.pick(std::vector<double>{0, 0.3, 0.7, 1.0, 1.5}) * s.uniform(0.7, 1.1);
        M3 R = s.chance(0.2) ? rotOf(A.pose) : rot(s);
        B.place(mk(R, trans(A.pose) + d * (r * k)));
    }
    void compare(const pbt::Ctx& c, const std::vector<Tri>& A, const std::vector<Tri>& B, double eps, bool col, float dist, const Eigen::Vector3f* p1, const Eigen::Vector3f* p2, const std::string& what)
    {
        double d;
        int v = verdict(A, B, eps, &d);
        if (v > 0) c.check(col, "missed-collision", what + ": surfaces intersect but no collision reported");
        if (v < 0) c.check(!col, "false-collision", what + ": collision reported at distance " + num(d));
        if (v > 0) c.near(dist, 0, eps, "distance-collision", what + ": distance of intersecting models");
        else c.near(dist, d, 2 * eps, "distance", what + ": distance");
        if (p1 && v < 0)
        {
            auto onto = [&](const Eigen::Vector3f& p, const std::vector<Tri>& T) { double b = 1e30; for (auto& t : T) b = std::min(b, pointTriDist(d3(p), t)); return b; };
            c.near(onto(*p1, A), 0, 2 * eps, "first-point", what + ": first nearest point is off the first model by");
            c.near(onto(*p2, B), 0, 2 * eps, "second-point", what + ": second nearest point is off the second model by");
            c.near((d3(*p1) - d3(*p2)).norm(), dist, 2 * eps, "points-distance", what + ": distance between the nearest points");
        }
    }

    void pairs(Src& s, pbt::Ctx& c)
    {
        Shape A = shape(s), B = shape(s);
        double far = s.chance(0.3) ? 5000 : 300;
        std::string h = A.str() + " " + B.str();
        int steps = (int)s.integer(1, 4), hit = 0;
        for (int k = 0; k < steps; k++)
        {
            if (k == 0 || s.chance(0.5)) A.place(pose(s, far));
            nextTo(s, A, B);
            c.describe(h + " step " + std::to_string(k) + " A at " + num(A.pose(0, 3)) + "," + num(A.pose(1, 3)) + "," + num(A.pose(2, 3)));
            auto GA = A.global(), GB = B.global();
            double eps = epsOf(far + 400);
            double d;
            int v = verdict(GA, GB, eps, &d);
            c.label(v > 0 ? "intersecting" : v < 0 ? "separated" : "undecidable");
            if (v > 0) hit++;
            Eigen::Vector3f p1(0, 0, 0), p2(0, 0, 0), q1(0, 0, 0), q2(0, 0, 0);
            auto m1 = A.ob->getCollisionModel(), m2 = B.ob->getCollisionModel();
            auto one = [&](bool col, float dist, const Eigen::Vector3f* a, const Eigen::Vector3f* b, const char* w)
            {
                compare(c, GA, GB, eps, col, dist, a, b, w);
            };
            bool c12 = cc()->checkCollision(m1, m2), c21 = cc()->checkCollision(m2, m1);
            float d12 = cc()->calculateDistance(m1, m2, p1, p2), d21 = cc()->calculateDistance(m2, m1, q1, q2);
            one(c12, d12, &p1, &p2, "models");
            one(c21, d21, &q2, &q1, "models, swapped");
            int i1 = 0, i2 = 0;
            float dd = 0;
            bool cl = false;
            const char* w = "";
            SceneObjectPtr o1 = A.ob, o2 = B.ob;
            SceneObjectSetPtr s1(new SceneObjectSet("s1")), s2(new SceneObjectSet("s2"));
            s1->addSceneObject(A.ob);
            s2->addSceneObject(B.ob);
            switch (s.draw(5))
            {
                case 0: dd = cc()->calculateDistance(o1, o2, p1, p2, &i1, &i2); cl = cc()->checkCollision(o1, o2); w = "objects"; break;
                case 1: dd = cc()->calculateDistance(s1, s2, p1, p2, &i1, &i2); cl = cc()->checkCollision(s1, s2); w = "sets"; break;
                case 2: dd = cc()->calculateDistance(o1, s2, p1, p2, &i1, &i2); cl = cc()->checkCollision(o1, s2); w = "object-set"; break;
                case 3: dd = cc()->calculateDistance(m1, s2, p1, p2, &i1, &i2); cl = cc()->checkCollision(m1, s2); w = "model-set"; break;
                default: dd = cc()->calculateDistance(m1, m2); { std::vector<CollisionModelPtr> v1{m1}; cl = cc()->checkCollision(v1, m2); } p1 = p2; w = "vector";
            }
            bool noPts = std::string(w) == "vector";
            one(cl, dd, noPts ? nullptr : &p1, noPts ? nullptr : &p2, w);
            float e = 0;
            switch (s.draw(4))
            {
                case 0: e = cc()->calculateDistance(o1, o2); break;
                case 1: e = cc()->calculateDistance(s1, s2); break;
                case 2: e = cc()->calculateDistance(o1, s2); break;
                default: e = cc()->calculateDistance(m1, s2);
            }
            one(c12, e, nullptr, nullptr, "distance without points");
        }
        if (hit || steps > 1) c.nontrivial();
    }

    void points(Src& s, pbt::Ctx& c)
    {
        Shape A = shape(s);
        double far = s.chance(0.3) ? 5000 : 300;
        A.place(pose(s, far));
        auto G = A.global();
        c.describe(A.str());
        double eps = epsOf(far + 400);
        SceneObjectSetPtr st(new SceneObjectSet("s"));
        st->addSceneObject(A.ob);
        for (int k = 0; k < 6; k++)
        {
            V3 p = s.chance(0.4) ? G[s.draw(G.size())].a : trans(A.pose);
            p += vec(s, s.chance(0.5) ? 30 : A.radius * 2);
            p = p.cast<float>().cast<double>();
            double d = 1e30;
            for (auto& t : G) d = std::min(d, pointTriDist(p, t));
            double tol = fl(s.chance(0.5) ? s.uniform(0.5, 200) : std::max(0.5, d * s.uniform(0.5, 1.5)));
            bool r = s.chance(0.5) ? cc()->checkCollision(A.ob->getCollisionModel(), f3(p), (float)tol) : cc()->checkCollision(st, f3(p), (float)tol);
            if (d < tol - eps) { c.check(r, "point-missed", "point at distance " + num(d) + " is not reported with tolerance " + num(tol)); c.label("within"); c.nontrivial(); }
            else if (d > tol + eps) { c.check(!r, "point-false", "point at distance " + num(d) + " is reported with tolerance " + num(tol)); c.label("outside"); c.nontrivial(); }
        }
    }

    // the geometry a collision model works with
    void sameTris(const pbt::Ctx& c, const std::vector<Tri>& got, const std::vector<Tri>& want, double tol, const std::string& key, const std::string& what)
    {
        c.check(got.size() == want.size(), key + "-count", what + ": " + std::to_string(got.size()) + " triangles instead of " + std::to_string(want.size()));
        c.near(cornerDist(got, want), 0, tol, key, what + ": corners differ by");
    }
    void consistent(Src& s, const pbt::Ctx& c, CollisionModelPtr m, const M4& P, Shape& probe, const std::string& what)
    {
        // queries, boxes and vertices of m agree with its mesh at pose P
        auto loc = triangles(m->getTriMeshModel());
        if (loc.empty()) return;
        c.near((d4(m->getGlobalPose()) - P).cwiseAbs().maxCoeff(), 0, 1e-3, "model-pose", what + ": global pose");
        auto G = moved(loc, P);
        Shape A;
        A.pose = P;
        for (auto& t : loc) A.radius = std::max(A.radius, std::max(t.a.norm(), std::max(t.b.norm(), t.c.norm())));
        nextTo(s, A, probe);
        auto B = probe.global();
        double eps = epsOf(A.radius + trans(P).norm() + 300);
        Eigen::Vector3f p1, p2;
        float d = cc()->calculateDistance(m, probe.ob->getCollisionModel(), p1, p2);
        compare(c, G, B, eps, cc()->checkCollision(m, probe.ob->getCollisionModel()), d, &p1, &p2, what);
        auto bb = m->getBoundingBox(false), bg = m->getBoundingBox(true);
        V3 lo = V3::Constant(1e30), hi = -lo, glo = lo, ghi = hi;
        for (auto& v : corners(loc)) { lo = lo.cwiseMin(v); hi = hi.cwiseMax(v); V3 w = rotOf(P) * v + trans(P); glo = glo.cwiseMin(w); ghi = ghi.cwiseMax(w); }
        sameVec(c, d3(bb.getMin()), lo, eps, "bbox-local", what + ": lower corner of the local bounding box");
        sameVec(c, d3(bb.getMax()), hi, eps, "bbox-local", what + ": upper corner of the local bounding box");
        for (int k = 0; k < 3; k++)
            c.check(d3(bg.getMin())(k) <= glo(k) + eps && d3(bg.getMax())(k) >= ghi(k) - eps, "bbox-global", what + ": global bounding box does not contain the model");
        auto vs = m->getModelVeticesGlobal();
        auto mm = m->getTriMeshModel();
        c.check(vs.size() == mm->vertices.size(), "vertices-count", what + ": number of global vertices");
        for (size_t i = 0; i < vs.size() && i < 50; i++)
        {
            V3 w = rotOf(P) * mm->vertices[i].cast<double>() + trans(P);
            sameVec(c, d3(vs[i]), w, eps, "vertices", what + ": global vertex");
        }
    }
    void models(Src& s, pbt::Ctx& c)
    {
        Shape A = shape(s), probe = shape(s);
        double far = 500;
        A.place(pose(s, far));
        CollisionModelPtr m = A.ob->getCollisionModel();
        std::vector<Tri> cur = A.local; // expected local geometry
        M4 P = A.pose;
        double margin = 0, inflatedBy = 0;
        std::string h = A.str();
        int steps = (int)s.integer(1, 5);
        if (s.chance(0.3))
        {
            m.reset(new CollisionModel(A.ob->getCollisionModel()->getVisualization()->clone(true), "direct", cc(), 7));
            P = M4::Identity();
            h += " direct";
        }
        // mesh extraction loses some digits
        double tol = 0.01;
        bool first = true;
        for (int k = 0; k < steps; k++)
        {
            if (!first || s.chance(0.3)) switch (s.draw(5))
            {
                case 0:
                {
                    margin = s.chance(0.3) ? 0 : fl(s.uniform(1, 30));
                    m->inflateModel((float)margin);
                    h += " inflate " + num(margin);
                    c.near(m->getMargin(), margin, 1e-5, "margin", "margin after inflateModel");
                    auto now = triangles(m->getTriMeshModel());
                    if (margin == 0) sameTris(c, now, cur, tol, "deflated", "model inflated by 0");
                    else
                    {
                        c.check(now.size() == cur.size(), "inflated-count", "inflating changed the number of triangles");
                        double worst = 0, out = 0;
                        for (auto& v : corners(now))
                        {
                            double b = 1e30;
                            for (auto& u : cur) b = std::min(b, pointTriDist(v, u));
                            worst = std::max(worst, b);
                            out = std::max(out, std::fabs(b));
                        }
                        c.check(worst <= margin + tol, "inflated-far", "inflated by " + num(margin) + " but a vertex moved " + num(worst) + " away");
                        if (A.kind != 3 && !cur.empty())
                        {
                            auto cc0 = corners(cur);
                            // convex primitives: the inflated surface encloses the original one
                            for (auto& t : now)
                            {
                                V3 n = (t.b - t.a).cross(t.c - t.a);
                                if (n.norm() < 1) continue;
                                n.normalize();
                                if (n.dot(t.a) < 0) n = -n;
                                for (auto& v : cc0)
                                    c.check(n.dot(v - t.a) < 0.02, "inflated-not-enclosing", "inflated by " + num(margin) + ": an original vertex sticks out by " + num(n.dot(v - t.a)));
                            }
                        }
                    }
                    inflatedBy = margin;
                    c.label("inflate");
                    break;
                }
                case 1:
                {
                    bool deep = s.chance(0.5);
                    double sc = margin == 0 && s.chance(0.4) ? fl(s.uniform(0.3, 3)) : 1;
                    auto before = triangles(m->getTriMeshModel());
                    auto n = m->clone(cc(), (float)sc, deep);
                    h += std::string(" clone ") + (deep ? "deep " : "shallow ") + num(sc);
                    c.check(!!n, "clone-null", "clone returned nothing");
                    c.near(n->getMargin(), margin, 1e-5, "clone-margin", "margin of the clone");
                    for (auto& t : before) { t.a *= sc; t.b *= sc; t.c *= sc; }
                    sameTris(c, triangles(n->getTriMeshModel()), before, tol * std::max(1., sc), "clone-geometry", h + ": geometry of the clone");
                    if (s.chance(0.5))
                    {
                        // moving the clone leaves the original where it was and vice versa
                        M4 Q = fl4(pose(s, far));
                        n->setGlobalPose(f4(Q));
                        consistent(s, c, m, P, probe, h + ": original after the clone was moved");
                        P = Q;
                        c.label("clone-moved");
                    }
                    for (auto& t : cur) { t.a *= sc; t.b *= sc; t.c *= sc; }
                    m = n;
                    c.label("clone");
                    break;
                }
                case 2:
                {
                    Shape B = shape(s, 0);
                    M4 Q = fl4(pose(s, 100));
                    B.place(Q);
                    m->setGlobalPose(f4(P));
                    auto n = CollisionModel::CreateUnitedCollisionModel({m, B.ob->getCollisionModel()});
                    c.check(!!n, "united-null", "no united model");
                    std::vector<Tri> want = moved(triangles(m->getTriMeshModel()), P);
                    for (auto& t : B.global()) want.push_back(t);
                    sameTris(c, triangles(n->getTriMeshModel()), want, tol + epsOf(trans(P).norm()), "united", h + ": geometry of the united model");
                    consistent(s, c, n, M4::Identity(), probe, h + ": united model");
                    c.label("united");
                    break;
                }
                case 3:
                {
                    V3 f(fl(s.uniform(0.3, 2)), fl(s.uniform(0.3, 2)), fl(s.uniform(0.3, 2)));
                    auto before = triangles(m->getTriMeshModel());
                    Eigen::Vector3f ff = f3(f);
                    m->scale(ff);
                    for (auto& t : before) for (V3* v : {&t.a, &t.b, &t.c}) *v = v->cwiseProduct(f).eval();
                    sameTris(c, triangles(m->getTriMeshModel()), before, tol * 2, "scaled", h + ": geometry after scale");
                    consistent(s, c, m, P, probe, h + " scale");
                    c.label("scale");
                    c.nontrivial();
                    return; // what later changes do with a scaled model is not claimed
                }
                default:
                    P = fl4(pose(s, far));
                    m->setGlobalPose(f4(P));
                    h += " move";
            }
            first = false;
            c.describe(h);
            if (inflatedBy == 0) sameTris(c, triangles(m->getTriMeshModel()), cur, tol * (1 + k), "geometry", h + ": geometry");
            consistent(s, c, m, P, probe, h);
            c.nontrivial();
        }
    }
    // what primitives look like
    void primitives(Src& s, pbt::Ctx& c)
    {
        Shape A = shape(s);
        c.describe(A.str());
        c.label(A.str().substr(0, 4));
        c.nontrivial();
        auto got = triangles(A.ob->getCollisionModel()->getTriMeshModel());
        auto vis = triangles(A.ob->getVisualization()->getTriMeshModel());
        sameTris(c, vis, got, 0.01, "visualization", "visualization and collision model of the obstacle");
        if (A.kind == 3) { sameTris(c, got, A.local, 0.01, "mesh", "geometry of an obstacle made from a mesh"); return; }
        V3 lo = V3::Constant(1e30), hi = -lo;
        double vol = 0, area = 0;
        for (auto& t : got)
        {
            vol += t.a.dot(t.b.cross(t.c)) / 6;
            area += 0.5 * (t.b - t.a).cross(t.c - t.a).norm();
            for (auto v : {t.a, t.b, t.c})
            {
                lo = lo.cwiseMin(v);
                hi = hi.cwiseMax(v);
                if (A.kind == 1) c.near(v.norm(), A.a, 1e-3 * A.a, "sphere-vertex", "distance of a sphere's vertex from the centre");
                if (A.kind == 2)
                {
                    double r = std::hypot(v(0), v(2));
                    c.check(r < A.a * 1.001, "cylinder-vertex", "cylinder vertex at radius " + num(r));
                    c.near(std::fabs(v(1)), A.b / 2, 1e-3 * A.b, "cylinder-height", "height of a cylinder's vertex");
                }
            }
        }
        V3 e = A.kind == 0 ? V3(A.a, A.b, A.c) : A.kind == 1 ? V3::Constant(2 * A.a) : V3(2 * A.a, A.b, 2 * A.a);
        double want = A.kind == 0 ? A.a * A.b * A.c : A.kind == 1 ? 4. / 3 * M_PI * A.a * A.a * A.a : M_PI * A.a * A.a * A.b;
        double rel = A.kind == 0 ? 1e-3 : 0.1;
        for (int k = 0; k < 3; k++)
        {
            c.near(hi(k) - lo(k), e(k), (A.kind == 0 ? 1e-3 : 0.05) * e(k), "extent", A.str() + ": extent along axis " + std::to_string(k));
            c.near(hi(k) + lo(k), 0, (A.kind == 0 ? 1e-3 : 0.05) * e(k), "centred", A.str() + ": centre along axis " + std::to_string(k));
        }
        c.near(std::fabs(vol), want, rel * want, "volume", A.str() + ": enclosed volume");
    }

    void robots(Src& s, pbt::Ctx& c)
    {
        RobotOpts o;
        o.models = true;
        o.maxNodes = 6;
        o.minNodes = 2;
        o.span = 250;
        RobotSpec sp = robotSpec(s, o);
        auto r = fromXML(sp);
        c.require(!!r);
        std::map<std::string, std::vector<Tri>> loc;
        for (auto& n : r->getRobotNodes()) if (n->getCollisionModel()) loc[n->getName()] = triangles(n->getCollisionModel()->getTriMeshModel());
        if (loc.empty()) { c.discard(); return; }
        RobotPtr r2;
        if (s.chance(0.4)) r2 = r->clone("second");
        Shape B = shape(s);
        c.describe(sp.summary() + " " + B.str());
        std::vector<double> q = readQ(sp, r), q2 = q;
        M4 base = M4::Identity(), base2 = M4::Identity();
        int steps = (int)s.integer(1, 4);
        for (int k = 0; k < steps; k++)
        {
            auto move = [&](RobotPtr x, std::vector<double>& qq, M4& bb)
            {
                if (s.chance(0.7)) { std::map<std::string, float> m; for (int j : sp.joints()) m[sp.n[j].name] = (float)randomQ(s, sp.n[j]); x->setJointValues(m); qq = readQ(sp, x); }
                if (s.chance(0.4)) { bb = fl4(pose(s, 400)); x->setGlobalPose(f4(bb)); }
            };
            move(r, q, base);
            if (r2) move(r2, q2, base2);
            auto geo = [&](const std::vector<M4>& P) { std::map<std::string, std::vector<Tri>> g; for (size_t i = 0; i < sp.n.size(); i++) if (loc.count(sp.n[i].name)) g[sp.n[i].name] = moved(loc[sp.n[i].name], P[i]); return g; };
            auto G = geo(sp.fk(base, q));
            std::vector<Tri> all;
            for (auto& g : G) all.insert(all.end(), g.second.begin(), g.second.end());
            // obstacle next to one of the bodies
            auto it = G.begin();
            std::advance(it, s.draw(G.size()));
            V3 at = it->second[0].a;
            B.place(mk(rot(s), at + gen::unit(s) * (B.radius * s.uniform(0, 2.5))));
            double eps = epsOf(2000);
            auto GB = B.global();
            Eigen::Vector3f p1, p2;
            SceneObjectPtr so = B.ob, ro = r;
            SceneObjectSetPtr set(new SceneObjectSet("x"));
            set->addSceneObject(B.ob);
            float d = cc()->calculateDistance(ro, so, p1, p2);
            compare(c, all, GB, eps, cc()->checkCollision(ro, so), d, &p1, &p2, "robot-obstacle");
            d = cc()->calculateDistance(so, ro, p1, p2);
            compare(c, GB, all, eps, cc()->checkCollision(so, ro), d, &p1, &p2, "obstacle-robot");
            d = cc()->calculateDistance(ro, set, p1, p2);
            compare(c, all, GB, eps, cc()->checkCollision(ro, set), d, &p1, &p2, "robot-set");
            SceneObjectPtr node = r->getRobotNode(it->first);
            d = cc()->calculateDistance(node, so, p1, p2);
            compare(c, it->second, GB, eps, cc()->checkCollision(node, so), d, &p1, &p2, "node-obstacle");
            // node sets against each other
            if (G.size() > 1)
            {
                SceneObjectSetPtr a(new SceneObjectSet("a")), b(new SceneObjectSet("b"));
                std::vector<Tri> ta, tb;
                size_t cut = 1 + s.draw(G.size() - 1), i = 0;
                for (auto& g : G)
                {
                    auto& t = i < cut ? ta : tb;
                    (i < cut ? a : b)->addSceneObject(r->getRobotNode(g.first));
                    t.insert(t.end(), g.second.begin(), g.second.end());
                    i++;
                }
                d = cc()->calculateDistance(a, b, p1, p2);
                compare(c, ta, tb, eps, cc()->checkCollision(a, b), d, &p1, &p2, "set-set");
                c.label("sets");
            }
            if (r2)
            {
                auto H = geo(sp.fk(base2, q2));
                std::vector<Tri> all2;
                for (auto& g : H) all2.insert(all2.end(), g.second.begin(), g.second.end());
                SceneObjectPtr ro2 = r2;
                d = cc()->calculateDistance(ro, ro2, p1, p2);
                compare(c, all, all2, eps, cc()->checkCollision(ro, ro2), d, &p1, &p2, "robot-robot");
                float e = cc()->calculateDistance(ro2, ro);
                c.near(e, d, 2 * eps, "robot-robot-symmetric", "distance of two robots in either order");
                c.label("two robots");
            }
            c.nontrivial();
        }
    }

    void contacts(Src& s, pbt::Ctx& c)
    {
        Shape A = shape(s);
        A.place(pose(s, 500));
        auto m = A.ob->getCollisionModel();
        double margin = 0;
        if (s.chance(0.3)) { margin = fl(s.uniform(1, 30)); m->inflateModel((float)margin); }
        c.describe(A.str() + " inflated " + num(margin));
        auto mm = m->getTriMeshModel();
        std::vector<V3> vs;
        for (auto& v : mm->vertices) vs.push_back(rotOf(A.pose) * v.cast<double>() + trans(A.pose));
        if (vs.empty()) return;
        for (int k = 0; k < 4; k++)
        {
            V3 n = gen::unit(s);
            if (s.chance(0.5)) { auto G = moved(triangles(mm), A.pose); auto& t = G[s.draw(G.size())]; V3 x = (t.b - t.a).cross(t.c - t.a); if (x.norm() > 1) n = s.chance(0.5) ? x.normalized() : V3(-x.normalized()); }
            V3 p = vs[s.draw(vs.size())] + n * s.uniform(-20, 20) * (s.chance(0.5) ? 1 : 0.05);
            MathTools::Plane pl(f3(p), f3(n));
            double md = fl(s.chance(0.5) ? 1 : s.uniform(0.1, 40));
            std::vector<MathTools::ContactPoint> r;
            cc()->getContacts(pl, m, r, (float)md);
            double eps = 0.02;
            for (auto& x : r)
            {
                double dist = n.dot(d3(x.p) - p);
                c.check(dist <= md + eps, "contact-far", "contact at distance " + num(dist) + " with maximum " + num(md));
                sameVec(c, d3(x.n), n, 1e-4, "contact-normal", "contact normal");
                double b = 1e30;
                for (auto& v : vs) b = std::min(b, (v - d3(x.p)).norm());
                c.check(b < eps, "contact-vertex", "contact point is no vertex of the model");
            }
            size_t want = 0;
            for (auto& v : vs)
            {
                if (std::fabs(n.dot(v - p)) > md - eps) continue;
                want++;
                double b = 1e30;
                for (auto& x : r) b = std::min(b, (v - d3(x.p)).norm());
                c.check(b < eps, "contact-missing", "vertex at distance " + num(n.dot(v - p)) + " of the plane is not among the contacts (maximum " + num(md) + ")");
            }
            c.label(want ? "some" : "none");
            if (want) c.nontrivial();
        }
    }
}
int main(int argc, char** argv)
{
    pbt::Suite S;
    S.property = "P12";
    S.rule = "a case is non-trivial if at least one query had a decidable answer on a generated configuration (pairs: an intersection or a changed pose; points: clearly within or outside; contacts: a vertex within range)";
    S.init = [] { initVR("P12"); };
    S.add("pairs", 1500, 60000, pairs, 20);
    S.add("points", 3000, 60000, points, 20);
    S.add("primitives", 500, 5000, primitives, 20);
    S.add("models", 1500, 50000, models, 20);
    S.add("robots", 500, 20000, robots, 30);
    S.add("contacts", 2000, 60000, contacts, 20);
    return pbt::run(argc, argv, S);
}
