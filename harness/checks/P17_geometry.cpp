// libs: VirtualRobot
// P17: geometric helpers: planes, lines, segments, boxes, hulls, bases
#include "common/robotgen.h"
#include <VirtualRobot/MathTools.h>
#include <set>
using namespace VirtualRobot;
using namespace gen;
namespace MT = VirtualRobot::MathTools;
typedef Eigen::Vector2d V2;

namespace
{
    std::string str(const V3& v) { return num(v(0)) + "," + num(v(1)) + "," + num(v(2)); }
    V3 point(Src& s, double r) { return d3(f3(vec(s, r))); }
    V3 dir(Src& s)
    {
        V3 u = unit(s);
        if (s.chance(0.15)) u = (u + V3(0, 0, s.chance(0.5) ? 1e3 : -1e3)).normalized();      // nearly vertical
        return u;
    }

    void planes(Src& s, pbt::Ctx& c)
    {
        double r = s.pick(std::vector<double>{1, 30, 1000});
        V3 pp = point(s, r), n = dir(s) * s.pick(std::vector<double>{1, 0.2, 7}), x = point(s, r);
        MT::Plane pl(f3(pp), f3(n));
        c.describe("plane " + str(pp) + " / " + str(n) + " point " + str(x));
        n.normalize();
        double tol = 1e-5 * (1 + r);
        c.check((d3(pl.n) - n).norm() < 1e-6 && (d3(pl.p) - pp).norm() == 0, "plane", "normal " + str(d3(pl.n)));
        double d = n.dot(x - pp);
        c.near(MT::getDistancePointPlane(f3(x), pl), d, tol, "point-plane", "distance of point and plane");
        V3 foot = d3(MT::projectPointToPlane(f3(x), pl));
        c.check((foot - (x - d * n)).norm() < tol, "project", "projection " + str(foot));
        if (std::fabs(d) > tol) c.check(MT::onNormalPointingSide(f3(x), pl) == (d > 0), "side", "onNormalPointingSide");
        // local coordinates
        Eigen::Vector2f l = MT::projectPointToPlane2D(f3(x), pl);
        V3 back = d3(MT::planePoint3D(l, pl));
        c.check((back - (x - d * n)).norm() < 4 * tol, "local", "local coordinates " + num(l(0)) + "," + num(l(1)) + " are the point " + str(back) + " and not the projection " + str(x - d * n));
        V3 y = point(s, r);
        Eigen::Vector2f l2 = MT::projectPointToPlane2D(f3(y), pl);
        double want = ((x - d * n) - (y - n.dot(y - pp) * n)).norm();
        c.near((l2 - l).norm(), want, 8 * tol, "local-distance", "distance in local coordinates");
        Eigen::Vector2f any((float)s.real(-r, r), (float)s.real(-r, r));
        V3 on = d3(MT::planePoint3D(any, pl));
        c.check(std::fabs(n.dot(on - pp)) < 4 * tol, "local-plane", "planePoint3D is off the plane by " + num(n.dot(on - pp)));
        c.check((MT::projectPointToPlane2D(f3(on), pl) - any).norm() < 8 * tol, "local-back", "planePoint3D and projectPointToPlane2D");
        c.check(std::fabs(l2.norm() - ((y - n.dot(y - pp) * n) - pp).norm()) < 8 * tol, "local-origin", "the plane point is not the origin of the local coordinates");
        auto fp = MT::getFloorPlane();
        c.check(fp.p == Eigen::Vector3f(0, 0, 0) && fp.n == Eigen::Vector3f(0, 0, 1), "floor", "floor plane");
        // segment and plane
        V3 z = s.chance(0.5) ? y : V3(x - 2 * d * n + point(s, r) * 0.1);
        z = d3(f3(z));
        double dz = n.dot(z - pp);
        Eigen::Vector3f hit(77, 77, 77);
        auto res = MT::intersectSegmentPlane(MT::Segment(f3(x), f3(z)), pl, hit);
        if (std::fabs(d) > 10 * tol && std::fabs(dz) > 10 * tol)
        {
            bool cross = d * dz < 0;
            c.check((res == MT::eIntersection) == cross, "segment-plane", cross ? "intersection missed" : "intersection reported for a segment on one side");
            if (cross)
            {
                V3 h = x + (z - x) * (d / (d - dz));
                c.check((d3(hit) - h).norm() < 100 * tol, "segment-plane-point", "intersection " + str(d3(hit)) + " instead of " + str(h));
                c.label("crossing");
            }
        }
        // two planes
        MT::Plane q(f3(y), s.chance(0.25) ? Eigen::Vector3f(f3(n) * (s.chance(0.5) ? 1.f : -2.f)) : f3(dir(s)));
        V3 m = d3(q.n);
        V3 cr = n.cross(m);
        MT::Line L = MT::intersectPlanes(pl, q);
        if (cr.norm() < 1e-5) { c.check(!L.isValid(), "parallel-planes", "parallel planes intersect"); c.label("parallel planes"); }
        else if (cr.norm() > 0.05)
        {
            c.check(L.isValid() && (d3(L.d) - cr.normalized()).norm() < 1e-4, "planes-direction", "direction " + str(d3(L.d)));
            double tl = 20 * tol / (cr.norm() * cr.norm());
            c.check(std::fabs(n.dot(d3(L.p) - pp)) < tl && std::fabs(m.dot(d3(L.p) - y)) < tl, "planes-point", "point " + str(d3(L.p)) + " of the line is not on the planes");
            c.check(std::fabs((d3(L.p) - pp).dot(cr.normalized())) < tl, "planes-next", "the point of the line is not the one next to the plane point");
        }
        c.nontrivial(std::fabs(n(2)) < 0.9999 && pp.norm() > 0);
    }

    template<class V> V pick(Src& s, double r);
    template<> V3 pick<V3>(Src& s, double r) { return point(s, r); }
    template<> V2 pick<V2>(Src& s, double r) { return V2(fl(s.real(-r, r)), fl(s.real(-r, r))); }
    template<class V, class F> void lines(Src& s, pbt::Ctx& c)
    {
        double r = s.pick(std::vector<double>{1, 1000}), tol = 2e-5 * (1 + r);
        V a = pick<V>(s, r), b = pick<V>(s, r), x = s.chance(0.3) ? V(a + (b - a) * s.uniform(-1, 2)) : pick<V>(s, r);
        if ((b - a).norm() < 0.01 * r) c.discard();
        F af = a.template cast<float>(), bf = b.template cast<float>(), xf = x.template cast<float>();
        V d = (b - a).normalized();
        double t = d.dot(x - a);
        V foot = a + t * d;
        MT::BaseLine<F> L(af, F(bf - af));
        c.check(L.isValid(), "line-valid", "line invalid");
        c.near(L.d.norm(), 1, 1e-5, "line-unit", "length of the direction");
        c.check((MT::nearestPointOnLine<F>(L, xf).template cast<double>() - foot).norm() < 5 * tol, "line-nearest", "nearest point on the line");
        c.near(MT::distPointLine<F>(L, xf), (x - foot).norm(), 5 * tol, "line-distance", "distance of point and line");
        V near = t < 0 ? a : t > (b - a).norm() ? b : foot;
        c.check((MT::nearestPointOnSegment<F>(af, bf, xf).template cast<double>() - near).norm() < 5 * tol, "segment-nearest", "nearest point on the segment");
        c.near(MT::distPointSegment<F>(af, bf, xf), (x - near).norm(), 5 * tol, "segment-distance", "distance of point and segment");
        MT::BaseLine<F> none(af, F(af - af));
        c.check(!none.isValid() && MT::distPointLine<F>(none, xf) == -1, "line-invalid", "line without direction");
        c.label(t < 0 ? "before" : t > (b - a).norm() ? "behind" : "within");
        c.nontrivial();
    }
    void line(Src& s, pbt::Ctx& c)
    {
        if (s.chance(0.5)) lines<V3, Eigen::Vector3f>(s, c);
        else lines<V2, Eigen::Vector2f>(s, c);
    }

    void boxes(Src& s, pbt::Ctx& c)
    {
        double r = s.pick(std::vector<double>{1, 100});
        V3 lo = point(s, r), sz(fl(s.uniform(0.05, 2) * r), fl(s.uniform(0.05, 2) * r), fl(s.uniform(0.05, 2) * r)), hi = d3(f3(lo + sz));
        M4 P = fl4(pose(s, r));
        MT::OOBB box(f3(lo), f3(hi), f4(P));
        double tol = 2e-5 * (1 + r) * 4;
        c.describe("box " + str(lo) + " to " + str(hi));
        auto pts = box.getOOBBPoints();
        c.check(pts.size() == 8, "box-points", "number of corners");
        std::vector<V3> want;
        for (int k = 0; k < 8; k++) want.push_back(trans(P) + rotOf(P) * V3(k & 1 ? hi(0) : lo(0), k & 2 ? hi(1) : lo(1), k & 4 ? hi(2) : lo(2)));
        for (auto& w : want)
        {
            int n = 0;
            for (auto& p : pts) n += (d3(p) - w).norm() < tol;
            c.check(n == 1, "box-corner", "corner " + str(w) + " occurs " + std::to_string(n) + " times");
        }
        // the segments are the 12 edges
        auto seg = box.getSegments();
        c.check(seg.size() == 12, "box-edges", "number of edges");
        std::set<std::pair<int, int>> es;
        auto id = [&](const Eigen::Vector3f& p) { int b = -1; for (int k = 0; k < 8; k++) if ((d3(p) - want[k]).norm() < tol) b = k; return b; };
        for (auto& g : seg)
        {
            int a = id(g.p0), b = id(g.p1), x = a ^ b;
            c.check(a >= 0 && b >= 0 && (x == 1 || x == 2 || x == 4), "box-edge", "a segment is no edge of the box");
            es.insert({std::min(a, b), std::max(a, b)});
        }
        c.check(es.size() == 12, "box-edges", "edges repeated");
        // plane section: the convex hull of the points is the intersection polygon
        V3 n = unit(s), pp = s.chance(0.7) ? V3(want[0] + (want[7] - want[0]) * s.uniform(0, 1)) : V3(trans(P) + point(s, 3 * r));
        MT::Plane pl(f3(pp), f3(n));
        n = d3(pl.n);
        pp = d3(pl.p);
        bool robust = true;
        int up = 0;
        for (auto& w : want) { double d = n.dot(w - pp); robust = robust && std::fabs(d) > 0.003 * r; up += d > 0; }
        std::vector<Eigen::Vector3f> cut;
        auto res = MT::intersectOOBBPlane(box, pl, cut);
        if (robust)
        {
            c.check((res == MT::eIntersection) == (up > 0 && up < 8), "box-plane", "intersection of box and plane is " + std::to_string(res));
            if (up > 0 && up < 8)
            {
                std::vector<V3> ex;
                for (auto& e : es) { double a = n.dot(want[e.first] - pp), b = n.dot(want[e.second] - pp); if (a * b < 0) ex.push_back(want[e.first] + (want[e.second] - want[e.first]) * (a / (a - b))); }
                c.check(cut.size() == ex.size(), "box-plane-count", std::to_string(cut.size()) + " points instead of " + std::to_string(ex.size()));
                for (auto& e : ex) { double b = 1e9; for (auto& p : cut) b = std::min(b, (d3(p) - e).norm()); c.check(b < 0.02 * r, "box-plane-point", "intersection " + str(e) + " is missing"); }
                c.label("section with " + std::to_string(ex.size()) + " corners");
                c.nontrivial();
            }
        }
        // another coordinate system: the tightest box there
        M4 Q = fl4(pose(s, r));
        MT::OOBB b2 = box;
        b2.changeCoordSystem(f4(Q));
        V3 mn(1e9, 1e9, 1e9), mx(-1e9, -1e9, -1e9);
        for (auto& w : want) { V3 l = rotOf(Q).transpose() * (w - trans(Q)); mn = mn.cwiseMin(l); mx = mx.cwiseMax(l); }
        c.check((d3(b2.minBB) - mn).norm() < 4 * tol && (d3(b2.maxBB) - mx).norm() < 4 * tol && b2.pose == f4(Q), "box-change", "box in another coordinate system: " + str(d3(b2.minBB)) + " to " + str(d3(b2.maxBB)) + " instead of " + str(mn) + " to " + str(mx));
    }

    double cross2(const V2& a, const V2& b, const V2& p) { return (b(0) - a(0)) * (p(1) - a(1)) - (p(0) - a(0)) * (b(1) - a(1)); }
    void hull(Src& s, pbt::Ctx& c)
    {
        // points on a grid (exact arithmetic, many collinear and repeated ones) or anywhere
        bool grid = s.chance(0.5);
        double r = s.pick(std::vector<double>{1, 100});
        int n = (int)s.integer(3, grid ? 25 : 40), g = (int)s.integer(1, 8);
        std::vector<V2> p;
        std::string d;
        int shape = s.weighted({5, 1, 1, 1});
        for (int i = 0; i < n; i++)
        {
            V2 v = grid ? V2((double)s.integer(-g, g), (double)s.integer(-g, g)) * (r / 8) : V2(fl(s.real(-r, r)), fl(s.real(-r, r)));
            if (shape == 1) v(0) = p.empty() ? v(0) : p[0](0);
            if (shape == 2) v(1) = p.empty() ? v(1) : p[0](1);
            if (shape == 3 && grid) v(1) = v(0);
            p.push_back(v);
            d += " (" + num(v(0)) + "," + num(v(1)) + ")";
        }
        c.describe(d);
        std::vector<Eigen::Vector2f> pf;
        for (auto& v : p) pf.push_back(v.cast<float>());
        std::vector<V2> u;
        bool close = false;
        for (auto& v : p)
        {
            bool dup = false;
            for (auto& w : u) { double e = (v - w).norm(); if (e == 0) dup = true; else if (e < 3e-4) close = true; }
            if (!dup) u.push_back(v);
        }
        if (close) c.discard();             // points closer than the tolerance of the duplicates
        MT::ConvexHull2DPtr h;
        bool thrown = false;
        try { h = MT::createConvexHull2D(pf); } catch (VirtualRobotException&) { thrown = true; }
        c.check(thrown == (u.size() < 3), "hull-throws", std::to_string(u.size()) + " different points: " + (thrown ? "exception" : "no exception"));
        if (thrown) { c.label("too few"); return; }
        double tol = grid ? 0 : 1e-5 * r * r;
        // every vertex is an input point
        for (auto& v : h->vertices) { bool f = false; for (auto& w : pf) f = f || w == v; c.check(f, "hull-vertex", "a vertex is no input point"); }
        // is the input degenerate?
        double area = 0;
        for (auto& v : u) for (auto& w : u) area = std::max(area, std::fabs(cross2(u[0], v, w)));
        size_t m = h->vertices.size();
        c.check(h->segments.size() == m, "hull-segments", "number of segments");
        for (auto& e : h->segments) c.check(e.id1 >= 0 && e.id2 >= 0 && e.id1 < (int)m && e.id2 < (int)m, "hull-index", "index out of range");
        bool flat = area <= std::max(tol * 20, 1e-9);
        if (flat) c.label("collinear");
        else
        {
            for (size_t i = 0; i < m; i++)
            {
                auto& e = h->segments[i];
                c.check(e.id1 == (int)i && e.id2 == (int)((i + 1) % m), "hull-cycle", "segments are no cycle");
                V2 a = h->vertices[e.id1].cast<double>(), b = h->vertices[e.id2].cast<double>();
                for (auto& w : u) c.check(cross2(a, b, w) >= -tol, "hull-contains", "point (" + num(w(0)) + "," + num(w(1)) + ") is outside of the hull");
                if (grid)
                {
                    V2 z = h->vertices[(i + 2) % m].cast<double>();
                    c.check(cross2(a, b, z) > 0, "hull-convex", "three hull vertices in a line or a concave corner");
                }
            }
            c.nontrivial();
        }
        // inside
        for (int k = 0; k < 6; k++)
        {
            V2 q = grid && s.chance(0.5) ? V2(V2((double)s.integer(-g, g), (double)s.integer(-g, g)) * (r / 8)) : V2(fl(s.uniform(-1.2 * r, 1.2 * r)), fl(s.uniform(-1.2 * r, 1.2 * r)));
            if (s.chance(0.3)) q = u[s.index(u.size())];
            bool got = MT::isInside(q.cast<float>(), h);
            if (flat)
            {
                if (!grid) continue;
                V2 a = u[0], b = u[0];
                for (auto& v : u) { if (v(0) < a(0) || (v(0) == a(0) && v(1) < a(1))) a = v; if (v(0) > b(0) || (v(0) == b(0) && v(1) > b(1))) b = v; }
                bool in = cross2(a, b, q) == 0 && (q - a).dot(b - a) >= 0 && (q - b).dot(a - b) >= 0;
                c.check(got == in, "inside-flat", "isInside (" + num(q(0)) + "," + num(q(1)) + ") of collinear points is " + std::to_string(got));
                continue;
            }
            double lowest = 1e9;
            for (size_t i = 0; i < m; i++) lowest = std::min(lowest, cross2(h->vertices[i].cast<double>(), h->vertices[(i + 1) % m].cast<double>(), q));
            bool onGrid = grid && (q * 8 / r - (q * 8 / r).array().round().matrix()).norm() < 1e-9;
            if (onGrid || std::fabs(lowest) > 1e-4 * r * r)
            {
                c.check(got == (lowest >= 0), "inside", "isInside (" + num(q(0)) + "," + num(q(1)) + ") is " + std::to_string(got));
                c.label(lowest == 0 ? "on the border" : got ? "inside" : "outside");
            }
        }
        c.check(!MT::isInside(pf[0], MT::ConvexHull2DPtr()), "inside-null", "null hull");
        V2 lo = u[0], hi = u[0];
        for (auto& v : u) { lo = lo.cwiseMin(v); hi = hi.cwiseMax(v); }
        c.check((MT::getConvexHullCenter(h).cast<double>() - (lo + hi) / 2).norm() < 1e-5 * r, "hull-center", "center of the bounding box of the hull");
    }

    void triangles(Src& s, pbt::Ctx& c)
    {
        double r = s.pick(std::vector<double>{1, 1000});
        V3 a = point(s, r), b = point(s, r), z = s.chance(0.4) ? V3(a + (b - a) * s.pick(std::vector<double>{0, 0.5, 1, 2, -1, 0.3, 1.7})) : point(s, r);
        if (s.chance(0.3)) z += point(s, r) * s.pick(std::vector<double>{1e-6, 1e-4, 1e-3});
        z = d3(f3(z));
        c.describe(str(a) + " / " + str(b) + " / " + str(z));
        double area = 0.5 * (b - a).cross(z - a).norm();
        double got = MT::getTriangleArea(f3(a), f3(b), f3(z));
        c.check(std::isfinite(got), "area-finite", "area is not a number");
        c.near(got, area, 2e-6 * r * r, "area", "area of the triangle");
        double cn = (b - a).cross(b - z).norm();
        if (cn > 1e-5 * std::max(1.0, r * r) || cn == 0) c.check(MT::collinear(f3(a), f3(b), f3(z)) == (cn == 0) || (cn == 0 && r > 1), "collinear", "collinear");
        // a random point in the triangle, as combination of the corners
        M3 m;
        m << a, b, z;
        for (int k = 0; k < 3; k++)
        {
            V3 p = d3(MT::randomPointInTriangle(f3(a), f3(b), f3(z)));
            if (area > 0.05 * r * r)
            {
                V3 n = (b - a).cross(z - a);
                double u = (z - b).cross(p - b).dot(n) / n.squaredNorm(), v = (a - z).cross(p - z).dot(n) / n.squaredNorm(), w = (b - a).cross(p - a).dot(n) / n.squaredNorm();
                c.check(u > -1e-3 && v > -1e-3 && w > -1e-3 && std::fabs(n.normalized().dot(p - a)) < 1e-4 * r, "random-point", "random point " + str(p) + " is outside of the triangle");
            }
        }
        // normal of coplanar points
        if (area > 0.01 * r * r)
        {
            V3 n = (b - a).cross(z - a).normalized();
            std::vector<Eigen::Vector3f> pts;
            int k = (int)s.integer(3, 7);
            for (int i = 0; i < k; i++) pts.push_back(f3(a + (b - a) * (i % 2 + i * 0.3) + (z - a) * (i * i * 0.2)));
            V3 g = d3(MT::findNormal(pts));
            c.check(std::fabs(std::fabs(g.dot(n)) - 1) < 1e-3, "normal", "normal " + str(g) + " of points in the plane with normal " + str(n));
        }
        M4 P = fl4(pose(s, r));
        c.check((d3(MT::transformPosition(f3(a), f4(P))) - (rotOf(P) * a + trans(P))).norm() < 1e-5 * (1 + r), "transform", "transformPosition");
        Eigen::Vector2f t2 = MT::transformPosition(Eigen::Vector2f((float)a(0), (float)a(1)), f4(P));
        V3 w = rotOf(P) * V3(a(0), a(1), 0) + trans(P);
        c.check(std::hypot(t2(0) - w(0), t2(1) - w(1)) < 1e-5 * (1 + r), "transform2", "transformPosition 2D");
        std::vector<MT::ContactPoint> ci(2), co;
        ci[0].p = f3(a); ci[0].n = f3(unit(s)); ci[0].force = 3; ci[1].p = f3(b); ci[1].n = f3(unit(s)); ci[1].force = 2;
        MT::convertMM2M(ci, co);
        c.check(co.size() == 2, "mm2m", "number of contacts");
        for (int i = 0; i < 2; i++) c.check((d3(co[i].p) - d3(ci[i].p) / 1000).norm() < 1e-6 * (1 + r) && co[i].n == ci[i].n, "mm2m", "contact in metres");
        c.nontrivial(area > 0);
    }

    void bases(Src& s, pbt::Ctx& c)
    {
        int dim = (int)s.integer(1, 6);
        std::vector<Eigen::VectorXf> b;
        std::string d;
        int kind = s.weighted({4, 3, 2, 2});
        for (int i = 0; i < dim; i++)
        {
            Eigen::VectorXf v(dim);
            for (int k = 0; k < dim; k++) v(k) = (float)(kind == 1 ? (double)s.integer(-2, 2) : kind == 2 ? (k == i ? s.uniform(0.1, 9) : 0) : s.real(-5, 5));
            if (kind == 3 && i > 0 && s.chance(0.5)) v = b[s.index(b.size())] * (float)s.pick(std::vector<double>{1, 2, -1, 0});
            b.push_back(v);
            d += " (";
            for (int k = 0; k < dim; k++) d += num(v(k)) + (k < dim - 1 ? "," : ")");
        }
        c.describe(d);
        Eigen::MatrixXd m(dim, dim);
        for (int i = 0; i < dim; i++) m.col(i) = b[i].cast<double>();
        Eigen::JacobiSVD<Eigen::MatrixXd> svd(m, Eigen::ComputeFullU);
        Eigen::VectorXd sv = svd.singularValues();
        if (sv(0) < 0.05) c.discard();                   // nothing but zero
        bool full = sv(dim - 1) > 1e-3 * sv(0);
        bool clear = true;                               // is the rank clear?
        for (int i = 0; i < dim; i++) if (sv(i) > 1e-10 * sv(0) && sv(i) < 1e-3 * sv(0)) clear = false;
        if (!clear) c.discard();
        int kr = (int)s.draw(2);
        std::vector<Eigen::VectorXf> o = b;
        bool ok;
        if (dim == 3 && kr)
        {
            Eigen::Vector3f x = b[0], y = b[1], z = b[2];
            ok = MT::ensureOrthonormalBasis(x, y, z);
            o[0] = x; o[1] = y; o[2] = z;
        }
        else ok = MT::GramSchmidt(o);
        c.check(ok, "basis-fails", "no basis found");
        c.check((int)o.size() == dim, "basis-count", std::to_string(o.size()) + " vectors");
        for (int i = 0; i < dim; i++)
        {
            c.check(o[i].size() == dim && o[i].allFinite(), "basis-finite", "not finite");
            for (int k = 0; k <= i; k++) c.check(std::fabs(o[i].dot(o[k]) - (i == k)) < 1e-4, "orthonormal", "product of vectors " + std::to_string(k) + " and " + std::to_string(i) + " is " + num(o[i].dot(o[k])));
        }
        if (full)
        {
            // the first k vectors span the same space as before, with the same orientation
            for (int i = 0; i < dim; i++)
            {
                Eigen::VectorXd v = m.col(i);
                double along = v.dot(o[i].cast<double>());
                c.check(along > 0, "basis-orientation", "vector " + std::to_string(i) + " was turned around");
                for (int k = i + 1; k < dim; k++) c.check(std::fabs(v.dot(o[k].cast<double>())) < 1e-3 * v.norm() * sv(0) / sv(dim - 1), "basis-span", "vector " + std::to_string(i) + " is not in the span of the first vectors");
            }
        }
        else
        {
            // the span of the input is kept by the first vectors
            int rank = 0;
            for (int i = 0; i < dim; i++) rank += sv(i) > 1e-5 * sv(0);
            for (int i = 0; i < dim; i++) for (int k = rank; k < dim; k++) c.check(std::fabs(m.col(i).dot(o[k].cast<double>())) < 1e-2 * m.col(i).norm() + 1e-6, "basis-complete", "the first " + std::to_string(rank) + " vectors do not span the input");
            c.label("dependent");
        }
        // basis transformation
        std::vector<Eigen::VectorXf> e;
        Eigen::MatrixXd me(dim, dim);
        for (int i = 0; i < dim; i++) { Eigen::VectorXf v(dim); for (int k = 0; k < dim; k++) v(k) = (float)s.real(-5, 5); e.push_back(v); me.col(i) = v.cast<double>(); }
        if (full)
        {
            Eigen::MatrixXf T = MT::getBasisTransformation(e, b), T2 = MT::getBasisTransformation(me.cast<float>().eval(), m.cast<float>().eval());
            c.check(T == T2, "transformation-variants", "variants differ");
            // coordinates v in e become T v in b: b T = e
            double err = (m * T.cast<double>() - me).cwiseAbs().maxCoeff();
            c.check(err < 1e-3 * (1 + me.norm()), "transformation", "basis transformation is wrong by " + num(err));
        }
        c.check(MT::containsVector(m.cast<float>(), b[s.index(dim)]), "contains", "column not found");
        Eigen::VectorXf far = b[0] + Eigen::VectorXf::Constant(dim, 50);
        c.check(!MT::containsVector(m.cast<float>(), far), "contains", "vector found that is no column");
        // corner enumeration
        unsigned k = (unsigned)s.draw(1u << dim);
        Eigen::VectorXf p = MT::getPermutation(b[0], e[0], k);
        for (int i = 0; i < dim; i++) c.check(p(i) == ((k >> i) & 1 ? b[0](i) : e[0](i)), "permutation", "component " + std::to_string(i));
        Eigen::MatrixXf bad = m.cast<float>();
        c.check(MT::isValid(bad), "valid", "valid matrix");
        bad((int)s.draw(dim), (int)s.draw(dim)) = s.pick(std::vector<float>{NAN, INFINITY, -INFINITY});
        c.check(!MT::isValid(bad), "valid", "matrix with nan or inf");
        c.nontrivial(dim > 1);
    }
}
int main(int argc, char** argv)
{
    pbt::Suite S;
    S.property = "P17";
    S.rule = "planes: tilted and not at the origin; boxes: cut by the plane; hull: not collinear; triangles: with an area; bases: at least two dimensions";
    S.init = [] { initVR("P17"); };
    S.add("planes", 300000, 6000000, planes);
    S.add("lines", 300000, 6000000, line);
    S.add("boxes", 250000, 3000000, boxes);
    S.add("hull", 250000, 3000000, hull);
    S.add("triangles", 300000, 6000000, triangles);
    S.add("bases", 300000, 6000000, bases);
    return pbt::run(argc, argv, S);
}
