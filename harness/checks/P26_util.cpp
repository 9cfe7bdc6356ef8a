// libs: VirtualRobot
// P26: bounding boxes, sphere meshes, colour maps, units and the runtime environment
#include "common/gen.h"
#include "common/geom.h"
#include <VirtualRobot/BoundingBox.h>
#include <VirtualRobot/SphereApproximator.h>
#include <VirtualRobot/RuntimeEnvironment.h>
#include <VirtualRobot/Units.h>
#include <VirtualRobot/Visualization/ColorMap.h>
#include <VirtualRobot/Visualization/TriMeshModel.h>
#include <boost/filesystem.hpp>
#include <fstream>
#include <unistd.h>
using namespace VirtualRobot;
using namespace gen;

namespace
{
    typedef Eigen::Vector3f F3;
    F3 f3(const V3& v) { return v.cast<float>(); }
    std::string str(const F3& v) { return "(" + num(v[0]) + " " + num(v[1]) + " " + num(v[2]) + ")"; }

    // axis oriented boxes against minimum and maximum of the points
    void boxes(Src& s, pbt::Ctx& c)
    {
        BoundingBox b;
        bool any = false;
        F3 lo(0, 0, 0), hi(0, 0, 0);
        std::string h;
        bool grid = s.chance(0.5), flat = s.chance(0.2);
        auto pt = [&]() { F3 p; for (int i = 0; i < 3; i++) p[i] = grid ? (float)s.integer(-3, 3) : (float)s.uniform(-500, 500); if (flat) p[2] = 2; return p; };
        auto add = [&](const F3& p) { if (!any) { lo = hi = p; any = true; } else { lo = lo.cwiseMin(p); hi = hi.cwiseMax(p); } };
        auto close = [&](const F3& a, const F3& b, float tol) { return (a - b).cwiseAbs().maxCoeff() <= tol; };
        auto verify = [&](const std::string& what, float tol = 0)
        {
            c.describe(h);
            if (!any) { for (int i = 0; i < 3; i++) c.check(std::isnan(b.getMin()[i]) && std::isnan(b.getMax()[i]), "empty", what + ": an empty box has limits"); c.check(b.getPoints().empty(), "emptyPoints", "an empty box has corners"); }
            else
            {
                c.check(close(b.getMin(), lo, tol) && close(b.getMax(), hi, tol), "limits", what + ": box is " + str(b.getMin()) + " " + str(b.getMax()) + ", expected " + str(lo) + " " + str(hi));
                lo = b.getMin(); hi = b.getMax();
                auto p = b.getPoints();
                c.check(p.size() == 8, "corners", "number of corners");
                for (int k = 0; k < 8; k++)
                {
                    F3 q(k & 1 ? hi[0] : lo[0], k & 2 ? hi[1] : lo[1], k & 4 ? hi[2] : lo[2]);
                    bool found = false;
                    for (auto& x : p) found |= x == q;
                    c.check(found, "corner", "corner " + str(q) + " is missing");
                }
            }
        };
        int n = 1 + (int)s.draw(7), changed = 0;
        for (int i = 0; i < n; i++)
        {
            int op = (int)s.weighted({4, 2, 1.5, 1.5, 1.5, 0.3, 0.7});
            float tol = 0;
            if (op == 0) { F3 p = pt(); b.addPoint(p); add(p); h += " point"; }
            else if (op == 1) { std::vector<F3> v; for (int k = (int)s.draw(6); k > 0; k--) { v.push_back(pt()); add(v.back()); } b.addPoints(v); h += " points"; }
            else if (op == 2)
            {
                std::vector<F3> v;
                for (int k = (int)s.draw(5); k > 0; k--) { v.push_back(pt()); }
                BoundingBox o(v);
                for (auto& p : v) add(p);
                b.addPoints(o);
                h += " box";
            }
            else if (op == 3)
            {
                M4 m = fl4(s.chance(0.3) ? mk(M3::Identity(), V3(s.uniform(-50, 50), 0, 3)) : pose(s, 300));
                Eigen::Matrix4f f = m.cast<float>();
                b.transform(f);
                if (any)
                {
                    V3 l(1e30, 1e30, 1e30), u = -l;
                    for (int k = 0; k < 8; k++)
                    {
                        V3 q(k & 1 ? hi[0] : lo[0], k & 2 ? hi[1] : lo[1], k & 4 ? hi[2] : lo[2]);
                        q = m.block<3, 3>(0, 0) * q + m.block<3, 1>(0, 3);
                        l = l.cwiseMin(q); u = u.cwiseMax(q);
                    }
                    tol = 1e-5f * (1000 + (float)std::max(hi.norm(), lo.norm()));
                    lo = f3(l); hi = f3(u);
                    changed++;
                }
                h += " transform";
            }
            else if (op == 4)
            {
                F3 f((float)s.uniform(-2, 2), (float)s.uniform(0, 3), s.chance(0.1) ? 0.f : (float)s.uniform(-1, 2));
                b.scale(f);
                if (any) { F3 x = lo.cwiseProduct(f), y = hi.cwiseProduct(f); lo = x.cwiseMin(y); hi = x.cwiseMax(y); changed++; }
                h += " scale";
            }
            else if (op == 5) { b.clear(); any = false; h += " clear"; }
            else { BoundingBox o = b; F3 p = pt(); o.addPoint(p); h += " copy"; }
            verify("after" + h, tol);
        }
        // points inside
        for (int i = 0; i < 8; i++)
        {
            F3 p = pt();
            if (any && s.chance(0.6)) for (int k = 0; k < 3; k++) { int w = (int)s.draw(6); float e = hi[k] - lo[k]; p[k] = w == 0 ? lo[k] : w == 1 ? hi[k] : w == 2 ? lo[k] - 0.01f * (1 + e) : w == 3 ? hi[k] + 0.01f * (1 + e) : lo[k] + (float)s.unit() * e; }
            bool in = any;
            F3 q = p;
            for (int k = 0; k < 3; k++)
            {
                if (s.chance(0.1)) { q[k] = NAN; continue; }
                in = in && q[k] >= lo[k] && q[k] <= hi[k];
                // rounding
                if (any && q[k] != lo[k] && q[k] != hi[k] && (std::fabs(q[k] - lo[k]) < 1e-3 || std::fabs(q[k] - hi[k]) < 1e-3)) q[k] = NAN;
            }
            in = any;
            for (int k = 0; k < 3; k++) if (!std::isnan(q[k])) in = in && q[k] >= lo[k] && q[k] <= hi[k];
            c.check(b.isInside(q) == in, "inside", "point " + str(q) + " is " + (in ? "" : "not ") + "inside of " + str(lo) + " " + str(hi));
        }
        // planes
        for (int i = 0; i < 3; i++)
        {
            F3 p = pt(), nrm = f3(unit(s));
            MathTools::Plane pl(p, nrm);
            if (!any) { c.check(!b.planeGoesThrough(pl), "planeEmpty", "a plane goes through an empty box"); continue; }
            double mn = 1e30, mx = -1e30;
            for (int k = 0; k < 8; k++) { V3 q(k & 1 ? hi[0] : lo[0], k & 2 ? hi[1] : lo[1], k & 4 ? hi[2] : lo[2]); double d = nrm.cast<double>().dot(q - p.cast<double>()); mn = std::min(mn, d); mx = std::max(mx, d); }
            if (std::fabs(mn) > 0.01 && std::fabs(mx) > 0.01) c.check(b.planeGoesThrough(pl) == (mn < 0 && mx > 0), "plane", "plane at " + str(p) + " with normal " + str(nrm) + " and box " + str(lo) + " " + str(hi));
        }
        c.nontrivial(any && n > 2 && changed > 0);
    }

    // approximated spheres are closed meshes
    void spheres(Src& s, pbt::Ctx& c)
    {
        SphereApproximator a;
        SphereApproximator::SphereApproximation r;
        int runs = s.chance(0.3) ? 2 : 1, type = 0, L = 0;
        double R = 1;
        for (int k = 0; k < runs; k++)
        {
            type = (int)s.draw(3); L = (int)s.draw(4); R = fl(s.chance(0.3) ? 1 : s.uniform(0.1, 500));
            static const SphereApproximator::EPolyhedronType t[] = {SphereApproximator::eTetrahedron, SphereApproximator::eOctahedron, SphereApproximator::eIcosahedron};
            a.generateGraph(r, t[type], L, (float)R);
        }
        c.describe("base " + std::to_string(type) + ", " + std::to_string(L) + " levels, radius " + num(R) + (runs > 1 ? ", used again" : ""));
        static const int F[] = {4, 8, 20};
        int faces = F[type] * (1 << (2 * L)), verts = faces / 2 + 2;
        c.check((int)r.faces.size() == faces && (int)r.vertices.size() == verts, "size", std::to_string(r.faces.size()) + " faces and " + std::to_string(r.vertices.size()) + " vertices");
        for (auto& v : r.vertices) c.near(v.norm(), R, 1e-5 * R, "radius", "distance of a vertex");
        std::map<std::pair<int, int>, int> edges;
        std::map<int, std::vector<int>> at;
        int out = 0;
        double volume = 0, longest = 0, shortest = 1e30;
        for (int i = 0; i < faces; i++)
        {
            auto& f = r.faces[i];
            unsigned id[] = {f.id1, f.id2, f.id3};
            for (int k = 0; k < 3; k++) { c.check((int)id[k] < verts, "index", "index of a vertex"); edges[{(int)id[k], (int)id[(k + 1) % 3]}]++; at[(int)id[k]].push_back(i); }
            V3 x = r.vertices[id[0]].cast<double>(), y = r.vertices[id[1]].cast<double>(), z = r.vertices[id[2]].cast<double>();
            double v = x.dot(y.cross(z)) / 6;
            out += v > 0;
            volume += v;
            for (double l : {(x - y).norm(), (y - z).norm(), (z - x).norm()}) { longest = std::max(longest, l); shortest = std::min(shortest, l); }
        }
        c.check(out == 0 || out == faces, "orientation", std::to_string(out) + " of " + std::to_string(faces) + " faces are oriented the other way");
        for (auto& e : edges) c.check(e.second == 1 && edges.count({e.first.second, e.first.first}), "closed", "the surface is not closed");
        c.check(std::fabs(volume) <= 4.1888 * R * R * R + 1e-6, "volume", "volume is larger than the sphere");
        if (L >= 2) c.check(std::fabs(volume) > (type == 0 ? 0.7 : 0.88) * 4.1888 * R * R * R, "approx", "volume " + num(volume));
        c.check(longest / shortest < (type == 0 ? 7 : 2.5), "uniform", "edges of length " + num(shortest) + " to " + num(longest));
        c.check((int)r.mapVerticeIndxToFaceIndx.size() == verts, "map", "vertices with faces: " + std::to_string(r.mapVerticeIndxToFaceIndx.size()) + " of " + std::to_string(verts));
        for (auto& m : r.mapVerticeIndxToFaceIndx)
        {
            auto ids = m.second.faceIds;
            std::sort(ids.begin(), ids.end());
            c.check(ids == at[m.first], "mapFaces", "faces of vertex " + std::to_string(m.first));
        }
        // as a mesh
        auto mesh = a.generateTriMesh(r);
        c.check((int)mesh->faces.size() == faces, "mesh", "faces of the mesh");
        double mv = 0;
        for (auto& f : mesh->faces) mv += mesh->vertices.at(f.id1).cast<double>().dot(mesh->vertices.at(f.id2).cast<double>().cross(mesh->vertices.at(f.id3).cast<double>())) / 6;
        c.near(mv, -volume, 1e-4 * std::fabs(volume), "meshVolume", "volume of the mesh");
        // nearest vertex
        for (int i = 0; i < 4; i++)
        {
            F3 p = s.chance(0.3) ? F3(r.vertices[s.draw(verts)] * (float)s.uniform(0.5, 2)) : f3(V3(unit(s) * s.uniform(0.5, 2) * R));
            double best = 10;
            auto angle = [&](const F3& v) { V3 a = v.cast<double>().normalized(), b = p.cast<double>().normalized(); return std::atan2(a.cross(b).norm(), a.dot(b)); };
            for (auto& v : r.vertices) best = std::min(best, angle(v));
            float eps = (float)s.uniform(0.01, 0.5);
            int idx = a.findVertex(p, eps, r.vertices);
            if (std::fabs(best - eps) > 2e-3)
            {
                c.check((idx >= 0) == (best < eps), "find", "nearest vertex " + num(best) + " away, limit " + num(eps) + ", result " + std::to_string(idx));
                if (idx >= 0) c.check(angle(r.vertices.at(idx)) < best + 2e-3, "nearest", "vertex is not the nearest one");
            }
        }
        // rays and triangles
        for (int i = 0; i < 6; i++)
        {
            V3 x = unit(s) * 100, y = unit(s) * 100, z = unit(s) * 100, o = V3(s.uniform(-200, 200), s.uniform(-200, 200), s.uniform(-200, 200));
            x = f3(x).cast<double>(); y = f3(y).cast<double>(); z = f3(z).cast<double>(); o = f3(o).cast<double>();
            V3 target = x + s.uniform(-0.3, 1.3) * (y - x) + s.uniform(-0.3, 1.3) * (z - x);
            V3 dir = f3((target - o) * (s.chance(0.15) ? -1 : 1) * s.uniform(0.01, 1)).cast<double>();
            V3 nrm = (y - x).cross(z - x);
            if (nrm.norm() < 200 || dir.norm() < 1 || std::fabs(nrm.normalized().dot(dir.normalized())) < 0.02) continue;
            double t = nrm.dot(x - o) / nrm.dot(dir);
            V3 q = o + t * dir;
            // barycentric
            double w0 = nrm.dot((y - q).cross(z - q)) / nrm.squaredNorm(), w1 = nrm.dot((z - q).cross(x - q)) / nrm.squaredNorm(), w2 = 1 - w0 - w1, w = std::min(w0, std::min(w1, w2));
            if (std::fabs(w) < 1e-2 || std::fabs(t) * dir.norm() < 1) continue;
            bool hit = t > 0 && w > 0 && nrm.dot(dir) < 0;
            F3 res;
            bool got = a.check_intersect_tri(f3(x), f3(y), f3(z), f3(o), f3(dir), res);
            c.check(got == hit, "ray", "a ray " + std::string(hit ? "hits" : "misses") + " the front of a triangle, result " + std::to_string(got));
            if (hit) c.check((res.cast<double>() - q).norm() < 0.5, "rayPoint", "intersection " + str(res));
        }
        c.nontrivial(L > 0);
    }

    // colour maps interpolate linearly between their keys
    void colors(Src& s, pbt::Ctx& c)
    {
        typedef VisualizationFactory::Color Color;
        if (s.chance(0.5))
        {
            int n = 1 + (int)s.draw(40);
            std::vector<Color> k;
            for (int i = 0; i < n; i++) k.push_back(Color((float)s.draw(256) / 255.f, (float)s.draw(256) / 255.f, (float)s.draw(256) / 255.f, (float)s.draw(256) / 255.f));
            c.describe("custom map of " + std::to_string(n) + " colors");
            ColorMap m = ColorMap::customColorMap(k);
            for (int i = 0; i < 12; i++)
            {
                double t = i == 0 ? 0 : i == 1 ? 1 : n > 1 && s.chance(0.3) ? (double)s.draw(n) / (n - 1) : s.unit();
                float ft = std::min(1.f, (float)t);
                double at = ft * (n - 1);
                int a = std::min((int)at, std::max(n - 2, 0)), b = std::min(a + 1, n - 1);
                double f = at - a;
                Color r;
                c.check(m.getColor(ft, r), "value", "no color at " + num(t) + " of " + std::to_string(n) + " colors");
                float Color::*p[] = {&Color::r, &Color::g, &Color::b, &Color::transparency};
                for (auto q : p) c.near(r.*q, k[a].*q * (1 - f) + k[b].*q * f, 1e-3, "color", "color at " + num(t) + " of " + std::to_string(n) + " colors");
                Color r2 = m.getColor(ft);
                c.check(r2.r == r.r && r2.g == r.g && r2.b == r.b && r2.transparency == r.transparency, "same", "both functions return the same color");
            }
            c.nontrivial(n > 2);
        }
        else
        {
            static const ColorMap::type types[] = {ColorMap::eIntensity, ColorMap::eHot, ColorMap::eRed, ColorMap::eGreen, ColorMap::eBlue, ColorMap::eHotAlpha, ColorMap::eRedAlpha, ColorMap::eBlueAlpha, ColorMap::eGreenAlpha};
            int t = (int)s.draw(9);
            c.describe("map " + std::to_string(t));
            ColorMap m(types[t]);
            for (int i = 0; i < 6; i++)
            {
                double x = fl(i < 2 ? (double)i : s.unit());
                Color r;
                c.check(m.getColor((float)x, r), "value", "no color at " + num(x));
                double R = -1, G = 0, B = 0, T = 0;
                if (t == 0) R = G = B = x;
                if (t == 2 || t == 6) { R = x; }
                if (t == 3 || t == 8) { R = 0; G = x; }
                if (t == 4 || t == 7) { R = 0; B = x; }
                if (t == 6 || t == 7 || t == 8 || t == 5) T = 1 - x;
                if (R >= 0) { c.near(r.r, R, 1e-4, "red", "red at " + num(x)); c.near(r.g, G, 1e-4, "green", "green at " + num(x)); c.near(r.b, B, 1e-4, "blue", "blue at " + num(x)); }
                c.near(r.transparency, T, 0.005, "transparency", "transparency at " + num(x));
                c.check(r.r >= 0 && r.r <= 1 && r.g >= 0 && r.g <= 1 && r.b >= 0 && r.b <= 1, "range", "color out of range");
                // continuous
                Color q = m.getColor((float)std::min(1., x + 1e-4));
                c.check(std::fabs(q.r - r.r) < 0.01 && std::fabs(q.g - r.g) < 0.01 && std::fabs(q.b - r.b) < 0.01, "continuous", "jump of the color at " + num(x));
                if (t == 1 || t == 5) { Color a = ColorMap(ColorMap::eHot).getColor((float)x), b = ColorMap(ColorMap::eHotAlpha).getColor((float)x); c.check(a.r == b.r && a.g == b.g && a.b == b.b, "hot", "hot colors differ"); if (x == 0) c.check(r.b > 0.7 && r.r == 0, "cold", "color at 0"); if (x == 1) c.check(r.r > 0.4 && r.b == 0, "hottest", "color at 1"); }
            }
            Color r;
            c.check(!m.getColor((float)-s.uniform(0.001, 3), r) && !m.getColor((float)s.uniform(1.001, 3), r), "outside", "a color outside of 0..1");
            c.nontrivial();
        }
    }

    // units: factors to a base unit, unknown names are of no kind
    void units(Src& s, pbt::Ctx& c)
    {
        struct U { std::vector<std::string> names; int kind; double f; };
        static const std::vector<U> us = {{{"rad", "radian"}, 0, 1}, {{"deg", "degree"}, 0, M_PI / 180}, {{"m", "meter"}, 1, 1}, {{"mm", "millimeter"}, 1, 1e-3}, {{"kg", "kilogram"}, 2, 1}, {{"g", "gram"}, 2, 1e-3}, {{"t", "ton"}, 2, 1e3},
            {{"s", "sec", "second"}, 3, 1}, {{"min", "minute"}, 3, 60}, {{"h", "hour"}, 3, 3600}, {{"foo", "", "M", "meters", "cm", "ms", "grad"}, 4, 1}};
        auto& u = s.pick(us);
        std::string n = s.pick(u.names);
        Units x(n);
        double v = fl(s.uniform(-1000, 1000));
        c.describe(num(v) + " " + n);
        c.check(x.isAngle() == (u.kind == 0) && x.isLength() == (u.kind == 1) && x.isWeight() == (u.kind == 2) && x.isTime() == (u.kind == 3) && x.isValid() == (u.kind < 4), "kind", "kind of unit " + n);
        c.check(x.isRadian() == (u.kind == 0 && u.f == 1) && x.isDegree() == (u.kind == 0 && u.f != 1) && x.isMeter() == (u.kind == 1 && u.f == 1) && x.isMillimeter() == (u.kind == 1 && u.f != 1), "is", "unit " + n);
        c.check(x.isKilogram() == (u.kind == 2 && u.f == 1) && x.isGram() == (u.kind == 2 && u.f < 1) && x.isTon() == (u.kind == 2 && u.f > 1) && x.isSecond() == (u.kind == 3 && u.f == 1) && x.isMinute() == (u.kind == 3 && u.f == 60) && x.isHour() == (u.kind == 3 && u.f == 3600), "is2", "unit " + n);
        auto conv = [&](int kind, double base, double got, const char* what) { double want = u.kind == kind ? v * u.f / base : v; c.check(std::fabs(got - want) <= 1e-5 * std::fabs(want) + 1e-30, "convert", num(v) + " " + n + " are " + num(got) + " " + what + ", expected " + num(want)); };
        float f = (float)v;
        conv(0, 1, x.toRadian(f), "rad"); conv(0, M_PI / 180, x.toDegree(f), "deg"); conv(1, 1, x.toMeter(f), "m"); conv(1, 1e-3, x.toMillimeter(f), "mm");
        conv(2, 1, x.toKilogram(f), "kg"); conv(2, 1e-3, x.toGram(f), "g"); conv(2, 1e3, x.toTon(f), "t");
        conv(3, 1, x.toSecond(f), "s"); conv(3, 60, x.toMinute(f), "min"); conv(3, 3600, x.toHour(f), "h");
        c.nontrivial(u.kind < 4);
    }

    class Env : public RuntimeEnvironment
    {
    public:
        static void fresh() { pathInitialized = true; processKeys.clear(); dataPaths.clear(); unrecognizedOptions.clear(); keyValues.clear(); }
    };
    namespace fs = boost::filesystem;
    // data paths and command lines
    void environment(Src& s, pbt::Ctx& c)
    {
        Env::fresh();
        fs::path root = fs::canonical(pbt::scratch()) / "env";
        fs::remove_all(root);
        std::string h;
        std::vector<std::string> dirs, files = {"a.xml", "sub/b.xml", "c.wrl", "sub/deep/d"};
        std::map<std::string, bool> has; // dir/file
        int nd = 1 + (int)s.draw(4);
        for (int i = 0; i < nd; i++)
        {
            std::string d = (root / ("d" + std::to_string(i))).string();
            fs::create_directories(d);
            dirs.push_back(d);
            for (auto& f : files)
                if (s.chance(0.4)) { fs::path p = fs::path(d) / f; fs::create_directories(p.parent_path()); std::ofstream(p.string()) << i; has[d + "/" + f] = true; }
                else if (s.chance(0.1)) fs::create_directories(fs::path(d) / f); // a directory of this name is no file
        }
        // current directory
        fs::path old = fs::current_path();
        struct Back { fs::path p; ~Back() { boost::system::error_code e; fs::current_path(p, e); } } back{old};
        std::string cwd = dirs[0];
        fs::current_path(cwd);
        std::vector<std::string> paths;
        auto reg = [&](const std::string& p, bool ok) { bool r = RuntimeEnvironment::addDataPath(p, s.chance(0.8)); c.check(r == ok, "addPath", "addDataPath of " + p + " returns " + std::to_string(r)); if (ok) paths.push_back(p); };
        for (int i = 0, n = (int)s.draw(4); i < n; i++)
        {
            int k = (int)s.draw(5);
            std::string d = s.pick(dirs);
            if (k == 0) reg(d + "/missing", false);
            else if (k == 1) { std::string f = d + "/a.xml"; if (fs::exists(f) && !fs::is_directory(f)) reg(f, false); }
            else if (k == 2) reg("../" + fs::path(d).filename().string(), true);
            else reg(d, true);
        }
        // command line
        std::vector<std::string> keys = {"robot", "scene", "object", "numberOfThings"}, considered, args = {"prog"}, unknown;
        std::map<std::string, std::string> values;
        for (auto& k : keys) if (s.chance(0.6)) { RuntimeEnvironment::considerKey(k); if (s.chance(0.15)) RuntimeEnvironment::considerKey(k); considered.push_back(k); }
        for (int i = 0, n = (int)s.draw(4); i < n; i++)
        {
            int w = (int)s.weighted({4, 1, 1, 1});
            if (w == 0)
            {
                std::string k = s.pick(keys), v = s.pick(std::vector<std::string>{"a.xml", "sub/b.xml", "nothing", "(1,2,3)", "3.5", "with space"});
                bool known = std::count(considered.begin(), considered.end(), k);
                if (s.chance(0.3) && known) args.push_back("--" + k + "=" + v); else { args.push_back("--" + k); args.push_back(v); }
                if (known) { if (!values.count(k)) values[k] = v; }
                else { unknown.push_back("--" + k); unknown.push_back(v); }
            }
            else if (w == 1) { std::string d = s.pick(dirs); args.push_back("--data-path"); args.push_back(d); paths.push_back(d); }
            else if (w == 2) { args.push_back("--strange"); unknown.push_back("--strange"); }
            else { args.push_back("positional"); unknown.push_back("positional"); }
        }
        std::vector<char*> av;
        for (auto& a : args) { av.push_back(const_cast<char*>(a.c_str())); h += " " + a; }
        c.describe(h + " paths " + std::to_string(paths.size()));
        RuntimeEnvironment::processCommandLine((int)av.size(), av.data());
        c.check(RuntimeEnvironment::getDataPaths() == paths, "paths", "data paths are not those added");
        c.check(RuntimeEnvironment::getKeyValuePairs() == values, "pairs", "keys and values of the command line");
        auto un = RuntimeEnvironment::getUnrecognizedOptions();
        c.check(un == unknown, "unknown", std::to_string(un.size()) + " unrecognised options, expected " + std::to_string(unknown.size()));
        if (s.chance(0.3)) { RuntimeEnvironment::addKeyValuePair("robot", "other"); values["robot"] = "other"; }
        for (auto& k : keys)
        {
            bool is = values.count(k);
            c.check(RuntimeEnvironment::hasValue(k) == is && RuntimeEnvironment::getValue(k) == (is ? values[k] : "") && RuntimeEnvironment::checkParameter(k, "std") == (is ? values[k] : "std"), "value", "value of key " + k);
        }
        // files
        auto find = [&](const std::string& f) -> std::string
        {
            if (has.count(cwd + "/" + f)) return cwd + "/" + f;
            for (auto& p : paths) { std::string d = p[0] == '/' ? p : fs::canonical(p).string(); if (has.count(d + "/" + f)) return d + "/" + f; }
            return "";
        };
        for (auto f : files)
        {
            std::string g = f, want = find(f);
            bool ok = RuntimeEnvironment::getDataFileAbsolute(g);
            c.check(ok == !want.empty(), "find", "file " + f + " is " + (ok ? "" : "not ") + "found");
            if (ok)
            {
                c.check(fs::canonical(g) == fs::canonical(want), "which", "file " + f + " is " + g + ", expected " + want);
                c.check(fs::path(g).is_absolute(), "absolute", "path of file " + f + " is not absolute: " + g);
                std::string again = g;
                c.check(RuntimeEnvironment::getDataFileAbsolute(again) && again == g, "again", "absolute path is not found");
            }
            else c.check(g == f, "untouched", "name of a file that was not found is changed");
        }
        std::string key = s.pick(keys), dflt = s.pick(std::vector<std::string>{"a.xml", "c.wrl", "none.xml", ""});
        std::string res = RuntimeEnvironment::checkValidFileParameter(key, dflt);
        std::string want = values.count(key) ? find(values[key]) : "";
        if (want.empty()) want = dflt.empty() || find(dflt).empty() ? dflt : find(dflt);
        c.check(res == want || (!res.empty() && fs::exists(res) && fs::exists(want) && fs::canonical(res) == fs::canonical(want)), "fileParameter", "file parameter is " + res + ", expected " + want);
        // values
        double x = fl(s.uniform(-100, 100)), y = fl(s.uniform(-1, 1)), z = s.integer(-5, 5);
        F3 v(7, 7, 7);
        std::string t = num(x) + "," + num(y) + "," + num(z);
        c.check(RuntimeEnvironment::toVector3f("(" + t + ")", v) && (v.cast<double>() - V3(x, y, z)).norm() < 1e-4, "vector", "vector (" + t + ")");
        v = F3(7, 7, 7);
        for (std::string bad : {t, "(" + t, t + ")", "(" + t + ",1)", std::string("(1,2)"), std::string("()"), std::string(""), std::string("(1,2,inf)"), std::string("(nan,2,1)")}) c.check(!RuntimeEnvironment::toVector3f(bad, v) && v == F3(7, 7, 7), "badVector", "vector " + bad);
        c.check(std::fabs(RuntimeEnvironment::toFloat(num(x)) - x) < 1e-4 && RuntimeEnvironment::toInt(std::to_string((int)z)) == (int)z, "numbers", "numbers");
        Env::fresh();
        c.nontrivial(!paths.empty() && args.size() > 2);
    }
}

int main(int argc, char** argv)
{
    pbt::Suite suite;
    suite.property = "P26";
    suite.rule = "boxes: not empty, >=3 operations with a transformation or scaling; spheres: subdivided; colors: >=3 colors or a built-in map; units: known unit; environment: data paths and command line arguments";
    suite.add("boxes", 150000, 1000000, boxes);
    suite.add("spheres", 3000, 10000, spheres);
    suite.add("colors", 60000, 500000, colors);
    suite.add("units", 20000, 200000, units);
    suite.add("environment", 6000, 60000, environment);
    return pbt::run(argc, argv, suite);
}
