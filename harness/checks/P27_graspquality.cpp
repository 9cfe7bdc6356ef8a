// libs: VirtualRobot Saba GraspStudio
// P27: convex hulls, friction cones, grasp quality in wrench space, hull meshes
#include "common/gen.h"
#include "common/geom.h"
#include "common/shapes.h"
#include <GraspPlanning/ConvexHullGenerator.h>
#include <GraspPlanning/ContactConeGenerator.h>
#include <GraspPlanning/MeshConverter.h>
#include <GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpace.h>
#include <GraspPlanning/GraspQuality/GraspQualityMeasureWrenchSpaceNotNormalized.h>
#include <VirtualRobot/Obstacle.h>
#include <VirtualRobot/ManipulationObject.h>
#include <VirtualRobot/CollisionDetection/CollisionModel.h>
#include <Eigen/Eigenvalues>
#include <Eigen/LU>
#include <thread>
using namespace VirtualRobot;
using namespace VirtualRobot::MathTools;
using namespace GraspStudio;
using namespace gen;

namespace
{
    typedef Eigen::Matrix<double, 6, 1> W6;
    W6 w6(const ContactPoint& c) { W6 r; r << c.p.cast<double>(), c.n.cast<double>(); return r; }
    template <class V> V randomDir(Src& s, int n) { V r(n); double l = 0; while (l < 0.1) { for (int i = 0; i < n; i++) r[i] = s.uniform(-1, 1); l = r.norm(); } return r / l; }

    std::vector<Eigen::Vector3f> cloud(Src& s, int n, std::string& h)
    {
        int kind = (int)s.draw(6);
        double R = s.chance(0.5) ? 1 : s.uniform(5, 300);
        std::vector<Eigen::Vector3f> r;
        V3 c = s.chance(0.4) ? V3(0, 0, 0) : vec(s, R);
        for (int i = 0; i < n; i++)
        {
            V3 p;
            if (kind == 0) p = V3(s.uniform(-1, 1), s.uniform(-1, 1), s.uniform(-1, 1)) * R;
            else if (kind == 1) p = unit(s) * R;
            else if (kind == 2) p = V3((double)s.integer(-2, 2), (double)s.integer(-2, 2), (double)s.integer(-2, 2)) * R / 2;
            else if (kind == 3) { double a = s.uniform(0, 6.3); p = V3(std::cos(a), std::sin(a), s.chance(0.5) ? 1 : 0) * R; }
            else if (kind == 4) p = V3(s.uniform(-1, 1), s.uniform(-1, 1), s.uniform(-0.05, 0.05)) * R;
            else p = i > 3 && s.chance(0.5) ? V3(d3(r[s.draw(r.size())]) - c) : V3(V3(s.uniform(-1, 1), s.uniform(-1, 1), s.uniform(-1, 1)) * R);
            r.push_back(f3(c + p));
        }
        static const char* k[] = {"box", "sphere", "grid", "cylinder", "plate", "duplicates"};
        h = std::to_string(n) + " points of a " + k[kind] + ", size " + num(R);
        return r;
    }
    // thickness of a point set: smallest extent over many directions (from the scatter matrix)
    double thickness(const std::vector<Eigen::Vector3f>& p, V3* dir = nullptr)
    {
        V3 m(0, 0, 0);
        for (auto& x : p) m += d3(x);
        m /= (double)p.size();
        M3 C = M3::Zero();
        for (auto& x : p) C += (d3(x) - m) * (d3(x) - m).transpose();
        Eigen::SelfAdjointEigenSolver<M3> es(C);
        V3 d = es.eigenvectors().col(0);
        if (dir) *dir = d;
        double lo = 1e30, hi = -1e30;
        for (auto& x : p) { double v = d.dot(d3(x)); lo = std::min(lo, v); hi = std::max(hi, v); }
        return hi - lo;
    }

    void verify3(pbt::Ctx& c, const std::vector<Eigen::Vector3f>& pts, const ConvexHull3DPtr& hull, double size)
    {
        double tol = 3e-5 * size;
        // facets are outside of all points
        std::map<std::array<float, 3>, int> id;
        std::set<std::array<float, 3>> input;
        for (auto& p : pts) input.insert({p[0], p[1], p[2]});
        std::map<std::pair<int, int>, int> edges;
        std::vector<V3> verts;
        double vol = 0, maxDist = 0;
        auto vid = [&](unsigned i)
        {
            auto v = hull->vertices.at(i);
            std::array<float, 3> k{v[0], v[1], v[2]};
            c.check(input.count(k), "vertex", "a vertex of the hull is no input point");
            auto it = id.find(k);
            if (it == id.end()) { it = id.insert({k, (int)verts.size()}).first; verts.push_back(d3(v)); }
            return it->second;
        };
        V3 sum(0, 0, 0);
        for (auto& f : hull->faces)
        {
            int a[] = {vid(f.id1), vid(f.id2), vid(f.id3)};
            V3 n = d3(f.normal);
            c.near(n.norm(), 1, 1e-4, "normal", "length of a normal");
            double o = n.dot(verts[a[0]]);
            for (int k = 0; k < 3; k++) c.near(n.dot(verts[a[k]]), o, tol, "plane", "vertex of a face");
            for (auto& p : pts) c.check(n.dot(d3(p)) <= o + tol, "outside", "a point is " + num(n.dot(d3(p)) - o) + " outside of a face");
            for (int k = 0; k < 3; k++) { int x = a[k], y = a[(k + 1) % 3]; edges[{std::min(x, y), std::max(x, y)}]++; }
        }
        for (auto& v : verts) sum += v;
        V3 ctr = sum / (double)verts.size();
        for (auto& f : hull->faces)
        {
            V3 a = verts[vid(f.id1)], b = verts[vid(f.id2)], d = verts[vid(f.id3)];
            vol += std::fabs((a - ctr).dot((b - ctr).cross(d - ctr))) / 6;
            maxDist = std::max(maxDist, std::fabs(d3(f.normal).dot(a - ctr)));
        }
        c.check(hull->faces.size() >= 4, "faces", "a hull of " + std::to_string(hull->faces.size()) + " faces");
        for (auto& e : edges) c.check(e.second % 2 == 0, "closed", "the hull is not closed");
        sameVec(c, d3(hull->center), ctr, tol, "center", "center of the hull");
        c.near(hull->volume, vol, 1e-4 * size * size * size + 1e-3 * vol, "volume", "volume");
        c.near(hull->maxDistFacetCenter, maxDist, 10 * tol, "maxDist", "largest distance of a face to the center");
        // all extreme points are there
        std::vector<V3> dirs;
        for (int i = 0; i < 30; i++) { double a = i * 2.4, z = -1 + 2 * (i + 0.5) / 30; dirs.push_back(V3(std::cos(a) * std::sqrt(1 - z * z), std::sin(a) * std::sqrt(1 - z * z), z)); }
        for (auto& d : dirs)
        {
            double x = -1e30, y = -1e30;
            for (auto& p : pts) x = std::max(x, d.dot(d3(p)));
            for (auto& v : verts) y = std::max(y, d.dot(v));
            c.near(y, x, 3 * tol, "extent", "extent in a direction");
        }
    }

    void hull3(Src& s, pbt::Ctx& c)
    {
        std::string h;
        int n = s.chance(0.08) ? (int)s.draw(4) : 4 + (int)s.draw(s.chance(0.3) ? 120 : 25);
        auto pts = cloud(s, n, h);
        int flat = s.chance(0.1) ? 1 + (int)s.draw(2) : 0;
        if (flat) { V3 d = unit(s); for (auto& p : pts) { V3 q = d3(p); q -= d.dot(q) * d; if (flat == 2) q = V3(1, 2, 3) * q[0]; p = f3(q); } h += flat == 1 ? " in a plane" : " on a line"; }
        c.describe(h);
        double size = 1e-3;
        for (auto& p : pts) size = std::max(size, 1.0 * p.cwiseAbs().maxCoeff());
        double th = pts.size() < 4 ? 0 : thickness(pts);
        auto copy = pts;
        ConvexHull3DPtr hull;
        if (s.chance(0.2))
        {
            TriMeshModelPtr m(new TriMeshModel());
            for (auto& p : pts) m->addVertex(p);
            hull = ConvexHullGenerator::CreateConvexHull(m);
        }
        else hull = ConvexHullGenerator::CreateConvexHull(pts);
        c.check(!!hull, "null", "no hull");
        for (size_t i = 0; i < pts.size(); i++) c.check(pts[i] == copy[i], "input", "input is changed");
        if (n < 4) { c.check(hull->faces.empty() && hull->vertices.empty() && hull->volume == 0, "few", "hull of less than four points"); return; }
        if (th < 1e-4 * size)
        {
            if (flat || th < 1e-7 * size) c.check(hull->volume <= 1e-5 * size * size * size, "flatVolume", "volume of a flat hull is " + num(hull->volume));
            return;
        }
        if (th < 1e-2 * size) c.discard();
        verify3(c, pts, hull, size);
        // order and inner points do not matter
        auto q = pts;
        for (size_t i = q.size(); i > 1; i--) std::swap(q[i - 1], q[s.draw(i)]);
        for (int i = 0; i < 3; i++) { double a = s.unit(), b = s.unit() * (1 - a); q.push_back(f3(d3(pts[s.draw(n)]) * a + d3(pts[s.draw(n)]) * b + d3(pts[s.draw(n)]) * (1 - a - b))); }
        auto hull2 = ConvexHullGenerator::CreateConvexHull(q);
        c.near(hull2->volume, hull->volume, 1e-3 * hull->volume + 1e-4 * size * size * size, "order", "volume of the hull of the same points in another order");
        // as a mesh
        auto mesh = MeshConverter::CreateTriMeshModel(hull);
        c.check(mesh->faces.size() == hull->faces.size(), "mesh", "faces of the mesh");
        double vol = 0;
        V3 ctr = d3(hull->center);
        for (size_t i = 0; i < mesh->faces.size(); i++)
        {
            auto& f = mesh->faces[i];
            V3 a = d3(mesh->vertices.at(f.id1)), b = d3(mesh->vertices.at(f.id2)), d = d3(mesh->vertices.at(f.id3));
            double v = (a - ctr).dot((b - ctr).cross(d - ctr)) / 6;
            c.check(v >= -1e-4 * size * size * size, "meshOrientation", "a face of the mesh points inside");
            vol += v;
            if ((b - a).cross(d - a).norm() > 0.01 * size * size) c.check(d3(f.normal).dot(d3(hull->faces[i].normal)) > 0.9, "meshNormal", "normal of a face of the mesh");
        }
        c.near(vol, hull->volume, 1e-3 * hull->volume + 1e-4 * size * size * size, "meshVolume", "volume of the mesh");
        if (s.chance(0.1))
        {
            auto mo = MeshConverter::CreateManipulationObject("hull", hull);
            c.check(mo && mo->getName() == "hull" && mo->getCollisionModel() && mo->getCollisionModel()->getTriMeshModel()->faces.size() == hull->faces.size(), "object", "object of a hull");
            c.check(cornerDist(triangles(mo->getCollisionModel()->getTriMeshModel()), triangles(mesh)) < 1e-4 * size + 1e-3, "objectMesh", "mesh of the object of a hull");
        }
        c.nontrivial(n > 6);
    }

    // a verified hull in six dimensions
    struct Facet { W6 n; double off; };
    // returns false if the points are degenerate
    bool verify6(pbt::Ctx& c, const std::vector<W6>& pts, const ConvexHull6DPtr& hull, double size, bool full)
    {
        double tol = 1e-4 * size;
        W6 zero = W6::Zero();
        std::map<std::vector<float>, int> id;
        std::vector<W6> verts;
        auto vid = [&](int i)
        {
            auto& v = hull->vertices.at(i);
            std::vector<float> k{v.p[0], v.p[1], v.p[2], v.n[0], v.n[1], v.n[2]};
            auto it = id.find(k);
            if (it == id.end())
            {
                it = id.insert({k, (int)verts.size()}).first;
                W6 w = w6(v);
                double best = 1e30;
                for (auto& p : pts) best = std::min(best, (p - w).norm());
                c.check(best < tol, "vertex6", "a vertex of the hull is no input point (" + num(best) + " away)");
                verts.push_back(w);
            }
            return it->second;
        };
        std::map<std::vector<int>, int> ridges;
        std::vector<std::array<int, 6>> F;
        for (auto& f : hull->faces)
        {
            std::array<int, 6> a;
            for (int k = 0; k < 6; k++) a[k] = vid(f.id[k]);
            W6 n = w6(f.normal);
            c.near(n.norm(), 1, 1e-4, "normal6", "length of a normal");
            double o = f.offset;
            for (int k = 0; k < 6; k++) c.near(n.dot(verts[a[k]]) + o, 0, tol, "plane6", "vertex of a facet");
            for (auto& p : pts) c.check(n.dot(p) + o <= tol, "outside6", "a point is " + num(n.dot(p) + o) + " outside of a facet");
            for (int k = 0; k < 6; k++) { std::vector<int> r; for (int j = 0; j < 6; j++) if (j != k) r.push_back(a[j]); std::sort(r.begin(), r.end()); ridges[r]++; }
            F.push_back(a);
        }
        W6 ctr = zero;
        for (auto& v : verts) ctr += v;
        ctr /= (double)verts.size();
        W6 got = w6(hull->center);
        double apart = 1e30;
        for (size_t i = 0; i < pts.size() && pts.size() < 300; i++) for (size_t j = 0; j < i; j++) apart = std::min(apart, (pts[i] - pts[j]).norm());
        // points that occur twice are two vertices (moved apart a little), perhaps the same in float
        if (apart > tol && pts.size() < 300) c.check((got - ctr).norm() < tol, "center6", "center of the hull is " + num((got - ctr).norm()) + " off");
        for (auto& e : ridges) c.check(e.second % 2 == 0, "closed6", "the hull is not closed");
        double vol = 0;
        for (size_t i = 0; i < F.size(); i++)
        {
            Eigen::Matrix<double, 6, 6> m;
            for (int k = 0; k < 6; k++) m.col(k) = verts[F[i][k]] - ctr;
            vol += std::fabs(m.determinant()) / 720;
            auto& f = hull->faces[i];
            W6 n = w6(f.normal);
            c.near(f.distNormCenter, n.dot(got) + f.offset, tol, "distCenter", "distance of the center to a facet");
            c.near(f.distPlaneCenter, n.dot(got) + f.offset, tol, "distCenter2", "distance of the center to the plane of a facet");
            c.check(n.dot(got) + f.offset < tol, "centerInside", "center is outside of the hull");
            c.near(f.distNormZero, f.offset, tol, "distZero", "distance of the origin to a facet");
            c.near(f.distPlaneZero, f.offset, tol, "distZero2", "distance of the origin to the plane of a facet");
        }
        if (full) c.near(hull->volume, vol, 2e-2 * vol + 1e-6 * std::pow(size, 6), "volume6", "volume");
        return true;
    }
    // singular values tell the dimension of the affine hull
    double thickness6(const std::vector<W6>& p)
    {
        W6 m = W6::Zero();
        for (auto& x : p) m += x;
        m /= (double)p.size();
        Eigen::Matrix<double, 6, 6> C = Eigen::Matrix<double, 6, 6>::Zero();
        for (auto& x : p) C += (x - m) * (x - m).transpose();
        Eigen::SelfAdjointEigenSolver<Eigen::Matrix<double, 6, 6>> es(C);
        return std::sqrt(std::max(0., es.eigenvalues()[0]) / p.size());
    }
    // distance of the origin to conv(p) by Wolfe-like Frank-Wolfe with away steps: lower bound on distance and a separating direction
    double separation(const std::vector<W6>& p)
    {
        W6 x = p[0];
        double best = -1e30;
        for (int it = 0; it < 3000; it++)
        {
            int j = 0;
            double lo = 1e30;
            for (size_t i = 0; i < p.size(); i++) { double d = x.dot(p[i]); if (d < lo) { lo = d; j = (int)i; } }
            double nx = x.norm();
            if (nx < 1e-9) return best;
            best = std::max(best, lo / nx);
            W6 d = p[j] - x;
            double t = -x.dot(d) / std::max(1e-300, d.squaredNorm());
            if (t <= 1e-12) break;
            x += std::min(1., t) * d;
        }
        return best;
    }

    void hull6(Src& s, pbt::Ctx& c)
    {
        int n = s.chance(0.1) ? (int)s.draw(8) : 7 + (int)s.draw(s.chance(0.2) ? 40 : 12);
        std::vector<ContactPoint> in;
        std::vector<W6> pts;
        int kind = (int)s.draw(3);
        double R = s.chance(0.6) ? 1 : s.uniform(0.1, 20);
        W6 off = W6::Zero();
        if (s.chance(0.5)) for (int k = 0; k < 6; k++) off[k] = s.uniform(-1, 1) * R;
        for (int i = 0; i < n; i++)
        {
            W6 w;
            for (int k = 0; k < 6; k++) w[k] = kind == 0 ? s.uniform(-1, 1) : kind == 1 ? (double)s.integer(-1, 1) : s.real(-1, 1);
            if (kind == 2) w = w.norm() > 0.01 ? W6(w.normalized()) : W6(W6::Unit(0));
            w = w * R + off;
            ContactPoint p;
            p.p = w.head<3>().cast<float>(); p.n = w.tail<3>().cast<float>(); p.force = 1;
            in.push_back(p);
            pts.push_back(w6(p));
        }
        double size = 0.01;
        for (auto& p : pts) size = std::max(size, p.norm());
        c.describe(std::to_string(n) + " points in 6D, kind " + std::to_string(kind) + ", size " + num(R));
        auto hull = ConvexHullGenerator::CreateConvexHull(in);
        c.check(!!hull, "null", "no hull");
        if (n < 7) { if (n < 4) c.check(hull->faces.empty(), "few6", "hull of less than four points"); return; }
        double th = thickness6(pts);
        if (th < 0.03 * size) { if (th < 1e-7 * size) c.check(hull->volume < 1e-4 * std::pow(size, 6), "flat6", "volume of a flat hull is " + num(hull->volume)); return; }
        c.check(hull->faces.size() >= 7, "facets", "number of facets");
        verify6(c, pts, hull, size, true);
        // minimal distance of the center to a facet
        double m = 1e30;
        for (auto& f : hull->faces) m = std::min(m, -(double)(w6(f.normal).dot(w6(hull->center)) + f.offset));
        c.near(GraspQualityMeasureWrenchSpace::minOffset(hull), m, 2e-4 * size, "minOffset", "smallest distance of the center to a facet");
        c.near(GraspQualityMeasureWrenchSpaceNotNormalized::minOffset(hull), m, 2e-4 * size, "minOffsetN", "smallest distance of the center to a facet (not normalized)");
        c.nontrivial();
    }

    // several threads create hulls at the same time
    void threads(Src& s, pbt::Ctx& c)
    {
        std::string h;
        int n = 2 + (int)s.draw(4);
        std::vector<std::vector<Eigen::Vector3f>> in;
        for (int i = 0; i < n; i++) { in.push_back(cloud(s, 8 + (int)s.draw(40), h)); if (thickness(in.back()) < 0.05 * in.back()[0].norm()) { in.pop_back(); } }
        if (in.empty()) c.discard();
        c.describe(std::to_string(in.size()) + " threads");
        std::vector<double> want(in.size());
        std::vector<std::vector<double>> got(in.size());
        for (size_t i = 0; i < in.size(); i++) want[i] = ConvexHullGenerator::CreateConvexHull(in[i])->volume;
        std::vector<std::thread> t;
        int reps = 1 + (int)s.draw(6);
        for (size_t i = 0; i < in.size(); i++) t.emplace_back([&, i]() { for (int k = 0; k < reps; k++) got[i].push_back(ConvexHullGenerator::CreateConvexHull(in[i])->volume); });
        for (auto& x : t) x.join();
        for (size_t i = 0; i < in.size(); i++) for (double v : got[i]) c.check(v == want[i], "threads", "volume " + num(v) + " of a hull that is calculated in parallel, expected " + num(want[i]));
        c.nontrivial(in.size() > 1);
    }

    void cones(Src& s, pbt::Ctx& c)
    {
        int N = 3 + (int)s.draw(14);
        double mu = fl(s.chance(0.2) ? 1 : s.uniform(0.05, 2)), F = fl(s.chance(0.4) ? 1 : s.uniform(0.1, 5));
        ContactConeGenerator g(N, (float)mu, (float)F);
        double a = std::atan(mu);
        c.near(g.getConeAngle(), a, 1e-5, "angle", "cone angle");
        c.near(g.getConeRadius(), F * std::sin(a), 1e-5 * F, "radius", "cone radius");
        c.near(g.getConeHeight(), F * std::cos(a), 1e-5 * F, "height", "cone height");
        std::vector<ContactPoint> st;
        std::vector<Eigen::Vector3f> st3;
        int k = 1 + (int)s.draw(3);
        for (int i = 0; i < k; i++)
        {
            ContactPoint p;
            p.p = f3(vec(s, 2)); p.n = f3(unit(s)); p.force = (float)(s.chance(0.5) ? 1 : s.uniform(0.1, 3));
            c.describe(std::to_string(N) + " samples, friction " + num(mu) + " force " + num(F * p.force) + " normal " + num(p.n[0]) + " " + num(p.n[1]) + " " + num(p.n[2]));
            g.computeConePoints(p, st);
            g.computeConePoints(p, st3);
            c.check((int)st.size() == (i + 1) * N && (int)st3.size() == (i + 1) * N, "count", "cone points are appended");
            V3 sum(0, 0, 0), n = d3(p.n).normalized();
            for (int j = 0; j < N; j++)
            {
                auto& q = st[i * N + j];
                V3 d = d3(q.p) - d3(p.p);
                double L = F * p.force;
                c.check((d3(st3[i * N + j]) - d3(q.p)).norm() < 1e-5 * (L + 3), "same", "both functions compute the same points");
                c.near(d.norm(), L, 1e-4 * L + 1e-5, "length", "length of a force on the cone");
                c.near(d.normalized().dot(n), std::cos(a), 1e-3, "opening", "cosine between normal and a force on the cone");
                c.near(d3(q.n).norm(), 1, 1e-4, "unit", "length of a normal");
                c.near(d3(q.n).dot(d.normalized()), 1, 1e-3, "direction", "normal of a cone point");
                c.near(q.force, p.force, 0, "force", "force");
                V3 e = d3(st[i * N + (j + 1) % N].p) - d3(p.p);
                V3 d2 = (d - n * n.dot(d)).normalized(), e2 = (e - n * n.dot(e)).normalized();
                c.near(d2.dot(e2), std::cos(2 * M_PI / N), 5e-3, "spacing", "cosine between neighbours");
                sum += d / L;
            }
            c.check((sum - n * N * std::cos(a)).norm() < 1e-2 * N, "even", "forces are not evenly distributed");
        }
        c.nontrivial();
    }

    struct Contact { V3 p, n; };
    void quality(Src& s, pbt::Ctx& c)
    {
        static std::vector<Shape> objects; // coin objects are expensive
        Shape o = shape(s, s.chance(0.7) ? 0 : 3);
        if (o.kind == 3 && o.local.size() > 16) c.discard();
        if (s.chance(0.5)) o.place(pose(s, 300));
        auto tm = o.ob->getCollisionModel()->getTriMeshModel();
        V3 com(0, 0, 0), lo(1e30, 1e30, 1e30), hi = -lo;
        for (auto& v : tm->vertices) { com += d3(v); lo = lo.cwiseMin(d3(v)); hi = hi.cwiseMax(d3(v)); }
        com /= (double)tm->vertices.size();
        double length = (hi - lo).maxCoeff();
        int N = 3 + (int)s.draw(4);
        double mu = fl(s.uniform(0.1, 1.2)), F = fl(s.chance(0.7) ? 1 : s.uniform(0.3, 3));
        bool norm = s.chance(0.6);
        GraspQualityMeasureWrenchSpacePtr q;
        boost::shared_ptr<GraspQualityMeasureWrenchSpaceNotNormalized> qn;
        GraspQualityMeasurePtr m;
        if (norm) { q.reset(new GraspQualityMeasureWrenchSpace(o.ob, (float)F, (float)mu, N)); m = q; }
        else { qn.reset(new GraspQualityMeasureWrenchSpaceNotNormalized(o.ob, (float)F, (float)mu, N)); m = qn; }
        c.check((d3(m->getCoM()) - com).norm() < 1e-3 * length, "com", "center of the model");
        c.check(m->getObject() == o.ob, "object", "object");
        // nothing set yet
        std::string h = o.str() + " friction " + num(mu) + " samples " + std::to_string(N);
        ConvexHull6DPtr lastHull;
        int sets = 1 + (int)s.draw(3), good = 0;
        if (s.chance(0.2)) { c.check(!m->isGraspForceClosure() && !m->isValid(), "unset", "force closure without contacts"); c.check(m->getGraspQuality() == 0, "unsetQuality", "quality without contacts"); }
        for (int k = 0; k < sets; k++)
        {
            int n = s.chance(0.1) ? 0 : s.chance(0.1) ? 1 : 2 + (int)s.draw(5);
            std::vector<Contact> ct;
            bool asInfo = s.chance(0.6);
            int shapeKind = (int)s.draw(3);
            for (int i = 0; i < n; i++)
            {
                Contact x;
                V3 d = unit(s);
                if (shapeKind == 0 && i == 1) d = -(ct[0].p - com).normalized();
                x.p = com + d * s.uniform(0.2, 0.5) * length;
                x.n = shapeKind == 2 ? unit(s) : d; // outward
                if (s.chance(0.3)) x.n = (x.n + 0.3 * unit(s)).normalized();
                ct.push_back(x);
            }
            std::vector<ContactPoint> cp;
            EndEffector::ContactInfoVector ci;
            std::vector<ContactPoint> ref; // in m, relative to the center
            for (auto& x : ct)
            {
                ContactPoint p;
                double sc = s.chance(0.5) ? 1 : s.uniform(0.1, 10);
                p.p = f3(x.p); p.n = f3(x.n * sc); p.force = 1;
                cp.push_back(p);
                EndEffector::ContactInfo i;
                i.obstacle = o.ob;
                i.contactPointObstacleLocal = f3(x.p); i.contactPointFingerLocal = f3(x.p + x.n * sc); i.distance = sc;
                i.contactPointObstacleGlobal = f3(trans(o.pose) + rotOf(o.pose) * x.p);
                i.contactPointFingerGlobal = f3(trans(o.pose) + rotOf(o.pose) * (x.p + x.n * sc));
                i.approachDirectionGlobal = f3(V3(rotOf(o.pose) * -x.n));
                ci.push_back(i);
                ContactPoint r;
                r.p = f3((x.p - com) / 1000); r.n = f3(x.n.normalized()); r.force = 1;
                ref.push_back(r);
            }
            if (asInfo) m->setContactPoints(ci); else m->setContactPoints(cp);
            std::string w = h + (asInfo ? " infos" : " points") + " set " + std::to_string(k) + " of " + std::to_string(n) + " contacts";
            c.describe(w);
            ContactPoint cc = m->getContactPointsCenter();
            V3 mean(0, 0, 0), nmean(0, 0, 0);
            for (auto& x : ct) { mean += (x.p - com) / n; nmean += x.n / n; }
            sameVec(c, d3(cc.p), mean, 1e-3 * length + 0.01, "contactsCenter", "center of the contacts");
            sameVec(c, d3(cc.n), nmean, asInfo ? 2e-2 : 1e-3, "contactsNormal", "mean normal of the contacts");
            bool first = s.chance(0.5), fc = false;
            double quality = -1, volume = -1;
            bool volFirst = s.chance(0.3);
            auto getVol = [&]() { return norm ? q->getVolumeGraspMeasure() : qn->getVolumeGraspMeasure(); };
            if (volFirst) volume = getVol();
            if (first) fc = m->isGraspForceClosure();
            quality = m->getGraspQuality();
            if (!first) fc = m->isGraspForceClosure();
            c.check(m->isValid() == fc, "valid", "isValid");
            double again = m->getGraspQuality();
            c.check(again == quality, "again", "quality changes from " + num(quality) + " to " + num(again) + " when asked again");
            double v2 = getVol();
            if (volFirst) c.check(v2 == volume, "volumeHistory", "volume measure is " + num(volume) + " before and " + num(v2) + " after the quality was calculated");
            volume = v2;
            if (n == 0) { c.check(!fc && quality == 0 && volume == 0, "none", "no contacts, but quality " + num(quality) + ", volume " + num(volume) + ", force closure " + std::to_string(fc)); continue; }
            // wrenches
            std::vector<ContactPoint> cone;
            for (auto& r : ref) m->getConeGenerator()->computeConePoints(r, cone);
            std::vector<W6> wr;
            double f = 2000. / length;
            for (auto& x : cone) { W6 w; w << d3(x.n), -f * d3(x.p).cross(d3(x.n)); wr.push_back(w); }
            double size = 1;
            for (auto& x : wr) size = std::max(size, x.norm());
            double sep = separation(wr);
            double tolN = asInfo ? 5e-3 : 1e-3; // normals from rounded points
            double th = thickness6(wr);
            if (sep > 3 * tolN * size && fc && th < 0.02 * size) c.known("KF02"); // facets of a flat, joggled hull point along its thin side
            else if (sep > 3 * tolN * size) c.check(!fc, "notClosed", "force closure, although all wrenches point " + num(sep) + " to one side");
            auto hull = norm ? q->getConvexHullGWS() : qn->getConvexHullGWS();
            bool flatOws = norm && (!q->OWSExists() || q->getOWSMinOffset() < 1e-3); // quality of a flat object wrench space is arbitrary
            if (th < 1e-6 * size && !flatOws) { c.check(quality < 0.05, "degenerate", "quality " + num(quality) + " of contacts whose wrenches span no volume"); continue; }
            if (th < 0.02 * size) continue;
            c.check(!!hull && hull->faces.size() >= 7, "gws", "no wrench space");
            verify6(c, wr, hull, (asInfo ? 30 : 10) * size, false);
            // support of the hull
            for (int i = 0; i < 20; i++)
            {
                W6 d = randomDir<Eigen::VectorXd>(s, 6);
                double a = -1e30, b = -1e30;
                for (auto& x : wr) a = std::max(a, d.dot(x));
                for (auto& x : hull->vertices) b = std::max(b, d.dot(w6(x)));
                c.near(b, a, 3 * tolN * size, "support", "extent of the wrench space");
            }
            // depth of origin and center
            double depth = 1e30, minOff = 1e30;
            for (auto& x : hull->faces) { depth = std::min(depth, -(double)x.offset); minOff = std::min(minOff, -(double)x.distNormCenter); }
            if (depth > 1e-3) c.check(fc, "closed", "no force closure, although the origin is " + num(depth) + " inside of the wrench space");
            if (depth < -1e-3) c.check(!fc, "open", "force closure, although the origin is outside of the wrench space");
            if (norm)
            {
                c.check(q->OWSExists(), "ows", "no object wrench space");
                auto ohull = q->getConvexHullOWS();
                if (!ohull || q->getOWSMinOffset() < 1e-3 || q->getOWSVolume() < 1e-6) continue;
                double om = 1e30;
                for (auto& x : ohull->faces) om = std::min(om, -(double)x.distNormCenter);
                c.near(q->getOWSMinOffset(), om, 1e-4 * om, "owsOffset", "offset of the object wrench space");
                c.near(q->getOWSVolume(), ohull->volume, 1e-4 * ohull->volume, "owsVolume", "volume of the object wrench space");
                c.near(quality, minOff / om, 1e-3 * minOff / om + 1e-4, "quality", "grasp quality");
                c.near(volume, hull->volume / ohull->volume, 1e-3 * hull->volume / ohull->volume, "volumeMeasure", "volume measure");
                if (k == 0)
                {
                    // object wrench space of all faces
                    std::vector<ContactPoint> oc;
                    std::vector<W6> ow;
                    for (auto& fa : tm->faces)
                    {
                        ContactPoint x;
                        x.p = f3((d3(tm->vertices[fa.id1] + tm->vertices[fa.id2] + tm->vertices[fa.id3]) / 3 - com) / 1000);
                        x.n = fa.normal.normalized() * (float)F; x.force = 1;
                        m->getConeGenerator()->computeConePoints(x, oc);
                    }
                    for (auto& x : oc) { W6 w; w << d3(x.n), -f * d3(x.p).cross(d3(x.n)); ow.push_back(w); }
                    double osize = 1;
                    for (auto& x : ow) osize = std::max(osize, x.norm());
                    for (int i = 0; i < 20; i++)
                    {
                        W6 d = randomDir<Eigen::VectorXd>(s, 6);
                        double a = -1e30, b = -1e30;
                        for (auto& x : ow) a = std::max(a, d.dot(x));
                        for (auto& x : ohull->vertices) b = std::max(b, d.dot(w6(x)));
                        c.near(b, a, 1e-3 * osize, "owsSupport", "extent of the object wrench space");
                    }
                }
            }
            else
            {
                c.near(quality, minOff, 1e-4 * size, "qualityN", "grasp quality (not normalized)");
                c.near(volume, hull->volume, 1e-5 * hull->volume, "volumeN", "volume measure (not normalized)");
            }
            good++;
        }
        c.nontrivial(good > 0);
    }

    void refine(Src& s, pbt::Ctx& c)
    {
        Shape o = shape(s, s.chance(0.5) ? 0 : 3);
        if (o.kind == 3 && o.local.size() > 6) c.discard();
        if (s.chance(0.6)) o.place(pose(s, 300));
        auto tm = o.ob->getCollisionModel()->getTriMeshModel();
        double mx = 0, area = 0;
        for (auto& t : o.local) { mx = std::max(mx, std::max((t.a - t.b).norm(), std::max((t.b - t.c).norm(), (t.a - t.c).norm()))); area += (t.b - t.a).cross(t.c - t.a).norm() / 2; }
        c.near(MeshConverter::getMaxVertexDistance(tm), mx, 1e-4 * mx, "maxEdge", "longest edge");
        double d = s.uniform(0.1, 1.2) * mx;
        c.describe(o.str() + " edges up to " + num(mx) + ", limit " + num(d));
        auto r = MeshConverter::RefineObjectSurface(o.ob, (float)d);
        c.check(r && r->getCollisionModel() && r->getCollisionModel()->getTriMeshModel(), "refined", "no refined object");
        c.check(r->getName() == o.ob->getName(), "name", "name of the refined object");
        auto rm = r->getCollisionModel()->getTriMeshModel();
        c.check(MeshConverter::getMaxVertexDistance(rm) <= d * 1.001 + 1e-3, "limit", "edge of length " + num(MeshConverter::getMaxVertexDistance(rm)) + " after refining to " + num(d));
        auto T = colTriangles(r->getCollisionModel());
        auto G = o.global();
        double a2 = 0;
        for (auto& t : T) a2 += (t.b - t.a).cross(t.c - t.a).norm() / 2;
        c.near(a2, area, 1e-3 * area, "area", "area of the surface");
        for (auto& t : T)
        {
            double best = 1e30;
            V3 m = (t.a + t.b + t.c) / 3;
            for (auto& g : G) best = std::min(best, std::max(pointTriDist(m, g), std::max(pointTriDist(t.a, g), std::max(pointTriDist(t.b, g), pointTriDist(t.c, g)))));
            c.check(best < 1e-2 + 1e-4 * mx, "surface", "a triangle of the refined surface is " + num(best) + " off");
        }
        c.check(T.size() >= G.size(), "count", "triangles were lost");
        c.nontrivial(d < mx);
    }
}

int main(int argc, char** argv)
{
    pbt::Suite suite;
    suite.property = "P27";
    suite.rule = "hulls: full-dimensional; threads: >=2; quality: >=1 set of contacts with a wrench space of full dimension; refine: at least one triangle to split";
    suite.add("hull3", 8000, 60000, hull3);
    suite.add("hull6", 3000, 30000, hull6);
    suite.add("threads", 300, 3000, threads);
    suite.add("cones", 20000, 100000, cones);
    suite.add("quality", 1500, 8000, quality, 60);
    suite.add("refine", 600, 5000, refine);
    return pbt::run(argc, argv, suite);
}
