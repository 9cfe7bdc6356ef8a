// libs: VirtualRobot
// P19: implicit surfaces: kernels, Gaussian processes, planes, marching cubes
#include "common/robotgen.h"
#include <VirtualRobot/math/Helpers.h>
#include <VirtualRobot/math/Kernels.h>
#include <VirtualRobot/math/GaussianImplicitSurface3D.h>
#include <VirtualRobot/math/GaussianImplicitSurface3DNormals.h>
#include <VirtualRobot/math/GaussianImplicitSurface3DCombined.h>
#include <VirtualRobot/math/GaussianObjectModel.h>
#include <VirtualRobot/math/GaussianObjectModelNormals.h>
#include <VirtualRobot/math/ImplicitPlane.h>
#include <VirtualRobot/math/Plane.h>
#include <VirtualRobot/math/Line.h>
#include <VirtualRobot/math/Contact.h>
#include <VirtualRobot/math/Primitive.h>
#include <VirtualRobot/math/MarchingCubes.h>
#include <VirtualRobot/math/GridCacheFloat3.h>
#include <VirtualRobot/math/Index3.h>
#include <Eigen/LU>
#include <map>
#include <memory>
#include <set>
using namespace gen;
typedef Eigen::Vector3f F3;

namespace
{
    std::string st(const V3& v) { return num(v(0)) + "," + num(v(1)) + "," + num(v(2)); }
    V3 point(Src& s, double r) { return d3(f3(vec(s, r))); }
    bool close(const F3& a, const V3& b, double tol) { return (d3(a) - b).norm() <= tol; }

    // kernels in double precision: 0 gaussian, 1 plus, 2 minus
    double kernel(int type, const V3& a, const V3& b, double R, double L)
    {
        double r = (a - b).norm();
        if (type == 0) return std::exp(-r * r / (2 * L * L));
        if (type == 1) return 2 * r * r * r + 3 * R * r * r + R * R * R;
        return 2 * r * r * r - 3 * R * r * r + R * R * R;
    }
    std::unique_ptr<math::KernelWithDerivatives> make(int type, double L)
    {
        if (type == 0) return std::unique_ptr<math::KernelWithDerivatives>(new math::GaussianKernel((float)L));
        if (type == 1) return std::unique_ptr<math::KernelWithDerivatives>(new math::WilliamsPlusKernel());
        return std::unique_ptr<math::KernelWithDerivatives>(new math::WilliamsMinusKernel());
    }

    void kernels(Src& s, pbt::Ctx& c)
    {
        int type = (int)s.draw(2);
        double r = s.pick(std::vector<double>{1, 0.1, 5}), L = fl(s.pick(std::vector<double>{1, 0.3, 4})), R = fl(r * s.pick(std::vector<double>{1, 3}));
        V3 a = point(s, r), b = s.chance(0.1) ? a : point(s, r);
        if (s.chance(0.2)) b(s.draw(2)) = a(0), a(1) = b(1);
        c.describe("kernel " + std::to_string(type) + " " + st(a) + " / " + st(b) + " R " + num(R));
        auto k = make(type, L);
        double K0 = kernel(type, a, b, R, L), sc = type == 0 ? 1 : 10 * R * R * R + 10 * r * r * r;
        c.near(k->Kernel(f3(a), f3(b), (float)R), K0, 1e-5 * sc, "kernel", "kernel value");
        c.near(k->Kernel(f3(a), f3(b), (float)R, 0, 0), K0, 1e-5 * sc, "kernel", "kernel value");
        if (type == 0) return;
        if ((a - b).norm() > 0.01 * r) c.nontrivial();
        double h = 1e-4 * r;
        for (int i = 0; i < 3; i++)
        {
            V3 e = V3::Unit(i) * h;
            double di = (kernel(type, a + e, b, R, L) - kernel(type, a - e, b, R, L)) / (2 * h), dj = (kernel(type, a, b + e, R, L) - kernel(type, a, b - e, R, L)) / (2 * h);
            c.near(k->Kernel_di(f3(a), f3(b), (float)R, i), di, 1e-4 * sc / r, "di", "derivative by coordinate " + std::to_string(i) + " of the first point");
            c.near(k->Kernel_dj(f3(a), f3(b), (float)R, i), dj, 1e-4 * sc / r, "dj", "derivative by coordinate " + std::to_string(i) + " of the second point");
            c.check(k->Kernel(f3(a), f3(b), (float)R, i + 1, 0) == k->Kernel_di(f3(a), f3(b), (float)R, i) && k->Kernel(f3(a), f3(b), (float)R, 0, i + 1) == k->Kernel_dj(f3(a), f3(b), (float)R, i), "kernel-index", "derivative chosen by index");
            for (int j = 0; j < 3; j++)
            {
                V3 g = V3::Unit(j) * h;
                double dd = (kernel(type, a + e, b + g, R, L) - kernel(type, a - e, b + g, R, L) - kernel(type, a + e, b - g, R, L) + kernel(type, a - e, b - g, R, L)) / (4 * h * h);
                double got = k->Kernel_didj(f3(a), f3(b), (float)R, i, j);
                c.near(got, dd, 2e-3 * sc / r / r, "didj", "mixed derivative " + std::to_string(i) + "," + std::to_string(j));
                c.check(k->Kernel(f3(a), f3(b), (float)R, i + 1, j + 1) == (float)got, "kernel-index", "derivative chosen by index");
            }
        }
    }

    typedef Eigen::Matrix<long double, Eigen::Dynamic, Eigen::Dynamic> ML;
    typedef Eigen::Matrix<long double, Eigen::Dynamic, 1> VL;

    // observations: value (d = -1) or derivative by coordinate d at p
    struct Obs { V3 p; int d; double y, noise; };

    struct Ref
    {
        std::unique_ptr<math::KernelWithDerivatives> k;
        std::vector<Obs> o;
        double R = 0, cond = 0;
        ML inv;
        VL alpha;
        std::vector<std::shared_ptr<Ref>> other;      // with a slightly different R, for the sensitivity to rounding
        Ref(int type, double L, const std::vector<Obs>& o, double bend = 0) : k(make(type, L)), o(o)
        {
            for (auto& a : o) for (auto& b : o) R = std::max(R, (a.p - b.p).norm());
            R = fl(fl(R) * (1 + bend));
            if (bend == 0) for (double b : {2e-7, -2e-7, 4e-7}) other.push_back(std::make_shared<Ref>(type, L, o, b));
            int n = (int)o.size();
            ML C(n, n);
            VL y(n);
            for (int i = 0; i < n; i++)
            {
                for (int j = 0; j < n; j++) C(i, j) = k->Kernel(f3(o[i].p), f3(o[j].p), (float)R, o[i].d + 1, o[j].d + 1);
                C(i, i) += (long double)o[i].noise * o[i].noise;
                y(i) = o[i].y;
            }
            Eigen::JacobiSVD<Eigen::MatrixXd> svd(C.cast<double>());
            cond = svd.singularValues()(0) / std::max(1e-300, svd.singularValues()(n - 1));
            inv = C.fullPivLu().inverse();
            alpha = inv * y;
        }
        VL row(const V3& x) const
        {
            VL r(o.size());
            for (size_t i = 0; i < o.size(); i++) r(i) = k->Kernel(f3(x), f3(o[i].p), (float)R, 0, o[i].d + 1);
            return r;
        }
        double scale(const V3& x) const { double m = 0; VL r = row(x); for (int i = 0; i < r.size(); i++) m += std::fabs((double)(r(i) * alpha(i))); return m; }
        double soft(const V3& x) const { double m = 0; for (auto& q : other) m = std::max(m, std::fabs(q->get(x) - get(x))); return 10 * m; }
        double vsoft(const V3& x) const { double m = 0; for (auto& q : other) m = std::max(m, std::fabs(q->var(x) - var(x))); return 10 * m; }
        double get(const V3& x) const { return (double)row(x).dot(alpha); }
        double prior(const V3& x) const { return k->Kernel(f3(x), f3(x), (float)R); }
        double var(const V3& x) const { VL r = row(x); return (double)((long double)prior(x) - r.dot(inv * r)); }
        double vscale(const V3& x) const { VL r = row(x).cwiseAbs(); return prior(x) + (double)r.dot(inv.cwiseAbs() * r); }
    };

    template<class G> void compare(pbt::Ctx& c, G& g, const Ref& ref, Src& s, double r, const char* what)
    {
        std::vector<V3> xs;
        for (int i = 0; i < 3; i++) xs.push_back(point(s, r));
        for (auto& o : ref.o) xs.push_back(o.p);
        for (auto& x : xs)
        {
            double tol = ref.soft(x) + 1e-6 + 1e-5 * std::fabs(ref.get(x)) + (1e-6 + 2e-14 * ref.cond) * ref.scale(x) * 2;
            double got = g.Get(f3(x));
            c.check(std::fabs(got - ref.get(x)) <= tol, what, "value " + num(got) + " instead of " + num(ref.get(x)) + " at " + st(x));
            double vt = ref.vsoft(x) + (1e-5 + 2e-14 * ref.cond) * ref.vscale(x);
            double gv = g.GetVariance(f3(x));
            c.check(std::fabs(gv - ref.var(x)) <= vt, (std::string(what) + "-variance").c_str(), "variance " + num(gv) + " instead of " + num(ref.var(x)) + " at " + st(x));
        }
        // without noise, the observations are reproduced
        for (auto& o : ref.o)
            if (o.d < 0 && o.noise == 0)
                c.check(std::fabs(g.Get(f3(o.p)) - o.y) <= ref.soft(o.p) + 1e-5 + (1e-5 + 1e-13 * ref.cond) * ref.scale(o.p), (std::string(what) + "-interpolates").c_str(), "value " + num(g.Get(f3(o.p))) + " at an observation of " + num(o.y));
    }

    std::vector<V3> spread(Src& s, int n, double r)
    {
        std::vector<V3> p;
        for (int i = 0; i < n; i++)
            for (int t = 0; t < 20; t++)
            {
                V3 x = point(s, r);
                double d = 1e9;
                for (auto& q : p) d = std::min(d, (q - x).norm());
                if (d > 0.15 * r) { p.push_back(x); break; }
            }
        return p;
    }

    void gaussian(Src& s, pbt::Ctx& c)
    {
        int type = (int)s.draw(2), mode = (int)s.draw(2);
        double r = s.pick(std::vector<double>{1, 0.2, 3}), L = fl(r * s.pick(std::vector<double>{0.5, 0.3}));
        auto p = spread(s, (int)s.integer(2, mode == 0 ? 10 : 6), r);
        if (p.size() < 2) return c.discard();
        double noise = s.pick(std::vector<double>{0, 0.1, 0.01}) * (type ? r : 1), nn = s.pick(std::vector<double>{0, 0.2, 0.03}) * (type ? std::sqrt(r) : 1), ns = s.pick(std::vector<double>{1, 0.5, 3});
        noise = fl(noise); nn = fl(nn);
        std::vector<Obs> obs;
        c.describe("kernel " + std::to_string(type) + " mode " + std::to_string(mode) + " points " + std::to_string(p.size()) + " size " + num(r) + " noise " + num(noise) + " / " + num(nn) + " scale " + num(ns));
        if (mode == 0)      // values
        {
            std::vector<math::DataR3R1> d1;
            std::vector<math::DataR3R2> d2;
            bool each = s.chance(0.5);
            for (auto& x : p)
            {
                double y = fl(s.real(-2, 2)), n = each ? fl(noise * s.uniform(0, 2)) : noise;
                d1.push_back(math::DataR3R1(f3(x), (float)y));
                d2.push_back(math::DataR3R2(f3(x), (float)y, (float)n));
                obs.push_back({x, -1, y, n});
            }
            Ref ref(type, L, obs);
            if (ref.cond > 1e7) return c.discard();
            c.nontrivial();
            c.label("values");
            math::GaussianImplicitSurface3D g(make(type, L));
            if (s.chance(0.3)) { std::vector<math::DataR3R1> o(d1.begin(), d1.begin() + 2); g.Calculate(o, 0.5f); }       // used before
            if (each) g.Calculate(d2); else g.Calculate(d1, (float)noise);
            compare(c, g, ref, s, r, "values");
            return;
        }
        if (type == 0) type = 1;        // no derivatives of the gaussian kernel
        math::ContactList cl;
        auto contacts = [&](size_t k, double n0)
        {
            for (size_t i = 0; i < k; i++)
            {
                V3 n = d3(f3(unit(s)));
                cl.push_back(math::Contact(f3(p[i]), f3(n)));
                obs.push_back({p[i], -1, 0, n0});
                for (int d = 0; d < 3; d++) obs.push_back({p[i], d, fl(n(d) * fl(ns)), nn});
            }
        };
        if (mode == 1)
        {
            contacts(p.size(), noise);
            Ref ref(type, L, obs);
            if (ref.cond > 1e7) return c.discard();
            c.nontrivial();
            c.label("normals");
            math::GaussianImplicitSurface3DNormals g(make(type, L));
            if (s.chance(0.3)) { math::ContactList o; o.push_back(cl[0]); o.push_back(cl[1]); g.Calculate(o, 0.3f, 0.3f, 1); }
            g.Calculate(cl, (float)noise, (float)nn, (float)ns);
            compare(c, g, ref, s, r, "normals");
            // gradient at the contacts (numerically; the kernel is computed in float)
            if (noise == 0 && nn == 0 && ref.cond < 1e6)
                for (auto& o : obs)
                    if (o.d >= 0)
                    {
                        double h = 0.01 * r;
                        double got = (g.Get(f3(V3(o.p + h * V3::Unit(o.d)))) - g.Get(f3(V3(o.p - h * V3::Unit(o.d))))) / (2 * h);
                        double curve = 0;
                        for (size_t i = 0; i < obs.size(); i++) curve += std::fabs((double)ref.alpha(i)) * (obs[i].d < 0 ? 30 * (r + ref.R) : 30);
                        c.check(std::fabs(got - o.y) < 0.02 * ns + h * h * curve / r * 4 + 1e-5 * ref.scale(o.p) / h, "normals-gradient", "gradient " + num(got) + " instead of " + num(o.y));
                    }
            return;
        }
        size_t k = 1 + s.draw(p.size() - 2);
        std::vector<math::DataR3R1> d1;
        std::vector<math::DataR3R2> d2;
        bool each = s.chance(0.5);
        for (size_t i = k; i < p.size(); i++)
        {
            double y = fl(s.real(-2, 2)), n = each ? fl(noise * s.uniform(0, 2)) : noise;
            d1.push_back(math::DataR3R1(f3(p[i]), (float)y));
            d2.push_back(math::DataR3R2(f3(p[i]), (float)y, (float)n));
            obs.push_back({p[i], -1, y, n});
        }
        contacts(k, nn);
        Ref ref(type, L, obs);
        if (ref.cond > 1e7) return c.discard();
        c.nontrivial();
        c.label("combined");
        math::GaussianImplicitSurface3DCombined g(make(type, L));
        if (each) g.Calculate(cl, d2, (float)nn, (float)ns); else g.Calculate(cl, d1, (float)noise, (float)nn, (float)ns);
        compare(c, g, ref, s, r, "combined");
    }

    void objects(Src& s, pbt::Ctx& c)
    {
        auto p = spread(s, (int)s.integer(2, 6), 0.5);
        if (p.size() < 2) return c.discard();
        double noise = fl(s.pick(std::vector<double>{0, 0.01, 0.1})), nn = fl(s.pick(std::vector<double>{0, 0.05})), ns = s.pick(std::vector<double>{1, 2});
        bool clear = s.chance(0.3);
        c.describe(std::to_string(p.size()) + " contacts, noise " + num(noise) + (clear ? " cleared before" : ""));
        std::vector<V3> n;
        for (size_t i = 0; i < p.size(); i++) n.push_back(d3(f3(unit(s))));
        std::vector<Obs> o1, o2;
        for (size_t i = 0; i < p.size(); i++)
        {
            V3 w = d3(F3(f3(n[i]) * 0.05f));
            o1.push_back({p[i], -1, 0, noise});
            o1.push_back({d3(F3(f3(p[i]) - f3(w))), -1, -1, noise});
            o1.push_back({d3(F3(f3(p[i]) + f3(w))), -1, 1, noise});
            o2.push_back({p[i], -1, 0, noise});
            for (int d = 0; d < 3; d++) o2.push_back({p[i], d, fl(n[i](d) * ns), nn});
        }
        Ref r1(1, 1, o1), r2(1, 1, o2);
        c.nontrivial();
        auto fill = [&](math::ImplicitObjectModel& m) { if (clear) { m.AddContact(math::Contact(f3(V3(1, 2, 3)), F3(0, 0, 1))); m.Clear(); c.check(m.Contacts()->size() == 0, "clear", "contacts after Clear"); } for (size_t i = 0; i < p.size(); i++) m.AddContact(math::Contact(f3(p[i]), f3(n[i]))); m.Update(); };
        auto look = [&](math::ImplicitObjectModel& m, const Ref& ref, const char* what)
        {
            c.check(m.Contacts()->size() == p.size() && m.GetContactWeights().size() == p.size(), "contacts", "contacts of the model");
            for (int k = 0; k < 4; k++)
            {
                V3 x = k == 0 ? p[0] : point(s, 0.6);
                double tol = ref.soft(x) + 1e-4 + (1e-4 + 1e-13 * ref.cond) * ref.scale(x);
                c.check(std::fabs(m.Model()->Get(f3(x)) - ref.get(x)) <= tol, what, "value " + num(m.Model()->Get(f3(x))) + " instead of " + num(ref.get(x)));
            }
        };
        if (r1.cond < 1e7) { math::GaussianObjectModel m((float)noise); fill(m); look(m, r1, "object"); c.label("object"); }
        if (r2.cond < 1e7)
        {
            math::GaussianObjectModelNormals m((float)noise, (float)nn, (float)ns);
            std::streambuf* keep = std::cout.rdbuf(nullptr);
            if (clear) { for (size_t i = 0; i < p.size(); i++) m.AddContact(math::Contact(f3(p[i]), f3(n[i]))); m.Update(); m.Clear(); }
            for (size_t i = 0; i < p.size(); i++) { m.AddContact(math::Contact(f3(p[i]), f3(n[i]))); if (i > 0) m.Update(); }
            std::cout.rdbuf(keep);
            look(m, r2, "object-normals");
            c.label("object with normals");
        }
    }

    void planes(Src& s, pbt::Ctx& c)
    {
        double r = s.pick(std::vector<double>{1, 100}), tol = 2e-5 * (1 + r);
        V3 o = point(s, r), n = unit(s), q = point(s, r);
        double len = s.pick(std::vector<double>{1, 0.5, 4});
        c.describe("plane " + st(o) + " / " + st(n) + " point " + st(q));
        c.nontrivial();
        auto pl = math::ImplicitPlane::FromPositionNormal(f3(o), f3(V3(n * len)));
        auto pn = pl.Normalize();
        double d = n.dot(q - o);
        c.check(close(pl.GetNormal(), n * len, 1e-5 * len), "normal", "normal");
        c.check(close(pn.GetNormal(), n, 1e-5), "normal", "normalized normal");
        c.near(pn.D(), n.dot(o), tol, "offset", "offset");
        c.check(close(pl.GetClosestPoint(f3(q)), q - d * n, 4 * tol) && close(pn.GetClosestPoint(f3(q)), q - d * n, 4 * tol), "closest", "closest point");
        c.near(pn.Get(f3(q)), d, 4 * tol, "get", "distance of a normalized plane");
        c.near(pl.Get(f3(q)), d * len, 4 * tol * (1 + len), "get", "value of the plane");
        c.near(pn.GetSignedDistance(f3(q)), d, 2 * tol, "signed-distance", "signed distance");
        c.near(pn.Flipped().GetSignedDistance(f3(q)), -d, 2 * tol, "flipped", "signed distance of the flipped plane");
        c.check(close(pn.Flipped().GetClosestPoint(f3(q)), q - d * n, 4 * tol), "flipped", "closest point of the flipped plane");
        auto pc = math::ImplicitPlane::FromContact(math::Contact(f3(o), f3(n)));
        c.near(pc.GetSignedDistance(f3(q)), d, 2 * tol, "contact", "plane of a contact");
        auto mp = math::Plane::FromNormal(f3(o), f3(n)).ToImplicit();
        c.near(mp.GetSignedDistance(f3(q)), d, 2 * tol, "implicit", "implicit form of a plane");
        // intersection line
        V3 m = unit(s);
        double cr = n.cross(m).norm();
        if (cr > 0.05)
        {
            math::Line l = pl.Intersect(math::Plane::FromNormal(f3(q), f3(m)));
            V3 a = d3(l.Pos()), dir = d3(l.Dir());
            c.check(std::fabs(dir.dot(n)) < 1e-4 * dir.norm() / cr && std::fabs(dir.dot(m)) < 1e-4 * dir.norm() / cr && dir.norm() > 0.5, "intersect-dir", "direction " + st(dir));
            double tl = 20 * tol / cr / cr;
            c.check(std::fabs(n.dot(a - o)) < tl && std::fabs(m.dot(a - q)) < tl, "intersect-pos", "point " + st(a) + " is off the planes by " + num(n.dot(a - o)) + " and " + num(m.dot(a - q)));
            c.label("line");
        }
    }

    // ---- marching cubes ----
    struct Field : math::SimpleAbstractFunctionR3R1
    {
        int type;
        V3 o, n, ax;
        double rad;
        mutable long calls = 0;
        double at(const V3& x) const
        {
            if (type == 0) return n.dot(x - o);                                             // plane
            if (type == 1) return (x - o).norm() - rad;                                     // sphere
            if (type == 2) return (x - o).cwiseProduct(ax).norm() - rad;                    // ellipsoid
            V3 a = x - o, b = x - n;                                                        // two spheres
            return std::min(a.norm() - rad, b.norm() - rad * 0.7);
        }
        float Get(Eigen::Vector3f p) override { calls++; return (float)at(d3(p)); }
    };

    // edges of a mesh: every edge inside of the box is used once in each direction. Vertices closer than 2e-5 are one.
    void closed(pbt::Ctx& c, const math::Primitive& m, double size)
    {
        std::vector<V3> v;
        for (auto& t : m) { v.push_back(d3(t.P1())); v.push_back(d3(t.P2())); v.push_back(d3(t.P3())); }
        std::vector<int> ord(v.size()), up(v.size());
        for (size_t i = 0; i < v.size(); i++) ord[i] = up[i] = (int)i;
        std::sort(ord.begin(), ord.end(), [&](int a, int b) { return v[a](0) < v[b](0); });
        std::function<int(int)> root = [&](int i) { while (up[i] != i) i = up[i] = up[up[i]]; return i; };
        for (size_t i = 0; i < ord.size(); i++)
            for (size_t j = i + 1; j < ord.size() && v[ord[j]](0) - v[ord[i]](0) < 2e-5; j++)
                if ((v[ord[i]] - v[ord[j]]).norm() < 2e-5) up[root(ord[i])] = root(ord[j]);
        auto border = [&](const V3& g) { return g.minCoeff() < 1e-4 || g.maxCoeff() > size - 1e-4; };
        std::map<std::pair<int, int>, int> e;
        std::set<int> rim;
        for (size_t i = 0; i < v.size(); i++) if (border(v[i])) rim.insert(root((int)i));
        for (size_t t = 0; t < v.size(); t += 3)
            for (int i = 0; i < 3; i++)
            {
                int a = root((int)t + i), b = root((int)t + (i + 1) % 3);
                if (a == b || (rim.count(a) && rim.count(b))) continue;
                e[{a, b}]++;
                e[{b, a}]--;
            }
        int open = 0;
        for (auto& x : e) open += x.second != 0;
        c.check(open == 0, "closed", std::to_string(open / 2) + " edges of the surface are open or turned");
    }

    void cubes(Src& s, pbt::Ctx& c)
    {
        int steps = (int)s.integer(2, 8);
        double step = fl(s.pick(std::vector<double>{1, 0.25, 7})), half = steps * step;
        V3 center = point(s, 10 * step);
        boost::shared_ptr<Field> f(new Field());
        f->type = (int)s.draw(3);
        double iso = s.chance(0.4) ? 0 : fl(s.real(-0.5, 0.5) * step);
        f->rad = s.uniform(0.9, 0.8 * steps) * step;
        f->o = center + vec(s, 0.2 * half);
        f->n = f->type == 0 ? unit(s) : V3(center + vec(s, 0.6 * half));
        f->ax = V3(s.uniform(1, 2), s.uniform(1, 2), s.uniform(1, 2));
        c.describe("field " + std::to_string(f->type) + " radius " + num(f->rad / step) + " of " + std::to_string(steps) + " steps of " + num(step) + " at level " + num(iso) + " around " + st(center));
        auto in = [&](const V3& x) { return (x - center).cwiseAbs().maxCoeff() < half - 1e-3 * step; };
        // a start near the surface
        V3 start = center;
        for (int i = 0; i < 200; i++) { V3 x = center + V3(s.uniform(-half, half), s.uniform(-half, half), s.uniform(-half, half)) * 0.99; if (std::fabs(f->at(x) - iso) < std::fabs(f->at(start) - iso)) start = x; if (i > 20 && s.chance(0.1)) break; }
        auto mesh = math::MarchingCubes::Calculate(f3(center), f3(start), steps, (float)step, f, (float)iso);
        // the whole grid
        int size = 2 * steps;
        std::vector<double> val((size + 1) * (size + 1) * (size + 1));
        auto id = [&](int i, int j, int k) { return (i * (size + 1) + j) * (size + 1) + k; };
        auto gp = [&](int i, int j, int k) { return d3(F3((i - steps) * (float)step + (float)center(0), (j - steps) * (float)step + (float)center(1), (k - steps) * (float)step + (float)center(2))); };
        for (int i = 0; i <= size; i++) for (int j = 0; j <= size; j++) for (int k = 0; k <= size; k++) val[id(i, j, k)] = f->Get(f3(gp(i, j, k)));
        std::function<float(math::Index3)> get = [&](math::Index3 x) { return (float)val[id(x.X(), x.Y(), x.Z())]; };
        math::MarchingCubes mc;
        mc.Init(size, F3(0, 0, 0), F3(0, 0, 0), steps, (float)step, math::GridCacheFloat3Ptr(new math::GridCacheFloat3(size + 1, get)));
        auto all = mc.Process((float)iso);
        int crossing = 0;
        for (int i = 0; i <= size; i++) for (int j = 0; j <= size; j++) for (int k = 0; k <= size; k++)
        {
            bool a = val[id(i, j, k)] > (float)iso;
            if (i < size) crossing += a != (val[id(i + 1, j, k)] > (float)iso);
            if (j < size) crossing += a != (val[id(i, j + 1, k)] > (float)iso);
            if (k < size) crossing += a != (val[id(i, j, k + 1)] > (float)iso);
        }
        c.check((crossing == 0) == all->empty(), "surface", std::to_string(crossing) + " grid edges cross the surface, " + std::to_string(all->size()) + " triangles");
        if (crossing == 0) { c.check(mesh->empty(), "surface-none", "triangles without a surface"); return; }
        c.nontrivial();
        // vertices are on grid edges, where linear interpolation gives the level
        auto vertex = [&](const F3& g, const char* what)      // in grid coordinates
        {
            int fixed = 0, b[3];
            double fr[3];
            for (int d = 0; d < 3; d++) { double x = g(d); b[d] = (int)std::floor(x + 1e-4); fr[d] = x - b[d]; if (std::fabs(fr[d]) < 1e-3) { fr[d] = 0; fixed++; } c.check(x > -1e-3 && x < size + 1e-3, what, "vertex outside of the grid"); }
            c.check(fixed >= 2, what, "vertex " + st(d3(g)) + " is not on an edge of the grid");
            if (fixed < 2) return;
            int d = 0;
            for (int k = 0; k < 3; k++) { b[k] = std::min(size, std::max(0, b[k])); if (fr[k] != 0) d = k; }
            int n[3] = {b[0], b[1], b[2]};
            n[d] = std::min(size, n[d] + 1);
            double v0 = val[id(b[0], b[1], b[2])], v1 = val[id(n[0], n[1], n[2])], v = v0 + (v1 - v0) * fr[d];
            c.check(std::fabs(v - iso) < 2e-3 * std::max(step, std::fabs(v1 - v0)) + 2e-5, what, "level " + num(v) + " at the vertex " + st(d3(g)));
        };
        for (auto& t : *all) { vertex(t.P1(), "vertex"); vertex(t.P2(), "vertex"); vertex(t.P3(), "vertex"); }
        auto toGrid = [&](const F3& p) { return F3(((d3(p) - center) / step + V3(steps, steps, steps)).cast<float>()); };
        for (auto& t : *mesh) { vertex(toGrid(t.P1()), "vertex-world"); vertex(toGrid(t.P2()), "vertex-world"); vertex(toGrid(t.P3()), "vertex-world"); }
        closed(c, *all, size);
        // orientation: all normals point the same way along the gradient
        double side = 0, area = 0;
        for (auto& t : *all)
        {
            V3 n = d3(t.Normal()), x = gp(0, 0, 0) + step * d3(t.Centroid()), g;
            double h = 0.01 * step;
            for (int d = 0; d < 3; d++) g(d) = f->at(x + h * V3::Unit(d)) - f->at(x - h * V3::Unit(d));
            if (g.norm() < 1e-12) continue;
            double z = n.dot(g.normalized());
            side += z; area += n.norm();
        }
        if (area > 1 && f->rad > 2 * step) c.check(std::fabs(side) > 0.7 * area, "oriented", "normals of the triangles are mixed: " + num(side) + " of " + num(area));
        // volume and area of a sphere or plane
        if (f->type == 1 && in(f->o + V3::Constant(f->rad + iso)) && in(f->o - V3::Constant(f->rad + iso)) && f->rad + iso > 2.5 * step)
        {
            double vol = 0, R = (f->rad + iso) / step;
            for (auto& t : *all) vol += d3(t.P1()).dot(d3(t.P2()).cross(d3(t.P3()))) / 6;
            c.near(std::fabs(vol), 4.0 / 3 * M_PI * R * R * R, 0.2 * 4 * M_PI * R * R, "volume", "volume of a sphere");
            c.label("sphere");
        }
        if (f->type == 0)
        {
            for (auto& t : *all) { V3 x = gp(0, 0, 0) + step * d3(t.Centroid()); c.check(std::fabs(f->at(x) - iso) < 2e-3 * step + 1e-4, "plane", "triangle off the plane by " + num(f->at(x) - iso)); }
            c.label("plane");
        }
        // the single surface is part of all surfaces: a union of connected pieces
        c.check(mesh->size() <= all->size() && !mesh->empty(), "single", std::to_string(mesh->size()) + " triangles of " + std::to_string(all->size()));
        bool one = f->type != 3;     // convex: the surface is connected unless the border cuts it
        if (f->type != 0) for (int d = 0; d < 3 && one; d++) one = std::fabs(f->o(d) - center(d)) + f->rad + std::fabs(iso) < half - step;
        if (one) { c.check(mesh->size() == all->size(), "single-complete", std::to_string(mesh->size()) + " triangles of " + std::to_string(all->size()) + " of a connected surface"); c.label("connected"); }
        else c.label("several or cut surfaces");
        double am = 0, aa = 0;
        for (auto& t : *mesh) am += d3(t.Normal()).norm() / step / step;
        for (auto& t : *all) aa += d3(t.Normal()).norm();
        if (one) c.near(am, aa, 1e-2 * aa + 1e-2, "single-area", "area of the surface");
    }

    // arbitrary values on a small grid: still closed inside and separating
    void noiseField(Src& s, pbt::Ctx& c)
    {
        int size = (int)s.integer(2, 4);
        std::vector<float> val((size + 1) * (size + 1) * (size + 1));
        bool sparse = s.chance(0.4);
        for (auto& v : val) { double m = s.uniform(0.1, 1); v = (float)((s.chance(sparse ? 0.15 : 0.5) ? 1 : -1) * m); }
        auto id = [&](int i, int j, int k) { return (i * (size + 1) + j) * (size + 1) + k; };
        std::function<float(math::Index3)> get = [&](math::Index3 x) { return val[id(x.X(), x.Y(), x.Z())]; };
        math::MarchingCubes mc;
        mc.Init(size, F3(0, 0, 0), F3(0, 0, 0), size / 2, 1, math::GridCacheFloat3Ptr(new math::GridCacheFloat3(size + 1, get)));
        auto all = mc.Process(0);
        std::string d;
        for (auto v : val) d += v > 0 ? '+' : '-';
        c.describe("grid " + std::to_string(size) + " " + d);
        c.nontrivial();
        closed(c, *all, size);
        // each crossed edge has its vertex
        std::vector<V3> have;
        for (auto& t : *all) { have.push_back(d3(t.P1())); have.push_back(d3(t.P2())); have.push_back(d3(t.P3())); }
        for (int i = 0; i <= size; i++) for (int j = 0; j <= size; j++) for (int k = 0; k <= size; k++)
            for (int e = 0; e < 3; e++)
            {
                int n[3] = {i, j, k};
                if (++n[e] > size) continue;
                float a = val[id(i, j, k)], b = val[id(n[0], n[1], n[2])];
                if ((a > 0) == (b > 0)) continue;
                F3 w((float)i, (float)j, (float)k);
                w(e) += a / (a - b);
                bool f = false;
                for (auto& h : have) f = f || (h - d3(w)).norm() < 1e-4;
                c.check(f, "crossed-edge", "no vertex on the grid edge at " + st(d3(w)));
            }
    }
}

int main(int argc, char** argv)
{
    pbt::Suite S;
    S.property = "P19";
    S.rule = "kernels at different points, surfaces through at least two observations with a well conditioned system, grids crossed by the surface";
    S.init = [] { initVR("P19"); };
    S.add("kernels", 150000, 6000000, kernels);
    S.add("gaussian", 20000, 1000000, gaussian);
    S.add("objects", 12000, 600000, objects);
    S.add("planes", 150000, 6000000, planes);
    S.add("cubes", 12000, 600000, cubes);
    S.add("noise", 20000, 1000000, noiseField);
    return pbt::run(argc, argv, S);
}
