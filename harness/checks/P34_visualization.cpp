// libs: VirtualRobot
// P34: visualizations (shapes, primitives, files, scene graph nodes) show exactly the geometry they stand for, where it belongs
#include "common/gen.h"
#include "common/robotgen.h"
#include "common/drawn.h"
#include <array>
#include <fstream>
#include <iomanip>
#include <map>
#include <sstream>
#include <boost/filesystem.hpp>
#include <Eigen/LU>
#include <Inventor/SoPrimitiveVertex.h>
#include <Inventor/actions/SoCallbackAction.h>
#include <Inventor/elements/SoLazyElement.h>
#include <Inventor/nodes/SoShape.h>
#include <VirtualRobot/Trajectory.h>
#include <VirtualRobot/Visualization/CoinVisualization/CoinVisualization.h>
#include <VirtualRobot/Visualization/CoinVisualization/CoinVisualizationFactory.h>
#include <VirtualRobot/CollisionDetection/CollisionModel.h>
#include <VirtualRobot/Visualization/CoinVisualization/CoinVisualizationNode.h>
#include <VirtualRobot/Visualization/TriMeshModel.h>
using namespace VirtualRobot;
using namespace gen;
namespace fs = boost::filesystem;

namespace
{
    double size(Src& s) { return fl(s.chance(0.2) ? s.uniform(0.5, 5) : s.uniform(5, 500)); }
    std::vector<Tri> cuboid(const V3& h)   // eight corners as degenerate triangles (for bounding boxes)
    {
        std::vector<Tri> r;
        for (int i = 0; i < 8; i++)
        {
            V3 v(i & 1 ? h[0] : -h[0], i & 2 ? h[1] : -h[1], i & 4 ? h[2] : -h[2]);
            r.push_back({v, v, v});
        }
        return r;
    }
    double onBox(const V3& p, const V3& h)
    {
        return std::abs((p.cwiseAbs() - h).maxCoeff());
    }
    double onCyl(const V3& p, double r, double h)   // along y
    {
        double a = std::hypot(p[0], p[2]) - r, b = std::abs(p[1]) - h / 2;
        return std::abs(std::max(a, b));
    }

    // ---------------------------------------------------------------- shapes
    void shapes(Src& s, pbt::Ctx& c)
    {
        auto f = factory();
        c.check((bool)f, "factory", "no Coin factory");
        V3 col(fl(s.draw(5) / 4.0), fl(s.draw(5) / 4.0), fl(s.draw(5) / 4.0));
        float cr = (float)col[0], cg = (float)col[1], cb = (float)col[2];
        VisualizationNodePtr v;
        M4 frame = M4::Identity();
        std::function<double(const V3&)> on;    // distance of a point in the shape's frame to its surface
        double wantArea = -1, lo = 1, hi = 1;   // area and the allowed ratio
        V3 half(-1, -1, -1);                    // bounding box in the shape's frame (centred), if known
        double boxTol = 1e-3;
        bool colour = true;
        size_t count = 0;
        int kind = (int)s.draw(10);
        static const char* names[] = {"box", "sphere", "cylinder", "plane", "torus", "ellipsoid", "vertex", "bounding box", "circle arrow", "arrow"};
        c.label(names[kind]);
        switch (kind)
        {
            case 0:
            {
                V3 h(size(s), size(s), size(s));
                c.describe("box " + str(h.transpose()));
                v = f->createBox((float)h[0], (float)h[1], (float)h[2], cr, cg, cb);
                half = h / 2;
                on = [h](const V3& p) { return onBox(p, h / 2); };
                wantArea = 2 * (h[0] * h[1] + h[1] * h[2] + h[0] * h[2]);
                count = 12;
                break;
            }
            case 1:
            case 6:
            {
                double r = size(s);
                c.describe("sphere " + num(r));
                if (kind == 1) v = f->createSphere((float)r, cr, cg, cb);
                else
                {
                    V3 p = vec(s, 1000);
                    frame = mk(M3::Identity(), p);
                    v = f->createVertexVisualization(f3(p), (float)r, 0.5f, cr, cg, cb);
                }
                on = [r](const V3& p) { return std::abs(p.norm() - r); };
                wantArea = 4 * M_PI * r * r;
                lo = kind == 1 ? 0.9 : 0.4;
                half = V3::Constant(r);
                boxTol = kind == 1 ? 0.1 * r : 0.3 * r;
                break;
            }
            case 2:
            {
                double r = size(s), h = size(s);
                c.describe("cylinder " + num(r) + " " + num(h));
                v = f->createCylinder((float)r, (float)h, cr, cg, cb);
                on = [r, h](const V3& p) { return onCyl(p, r, h); };
                wantArea = 2 * M_PI * r * (r + h);
                lo = 0.9;
                half = V3(r, h / 2, r);
                boxTol = 0.1 * r;
                break;
            }
            case 3:
            {
                V3 n = unit(s), p = vec(s, 500);
                double e = size(s);
                bool axis = s.chance(0.3);
                if (axis) n = V3(0, 0, s.chance(0.5) ? 1 : -1);
                c.describe("plane " + str(n.transpose()) + " at " + str(p.transpose()) + " extend " + num(e));
                if (s.chance(0.5)) v = f->createPlane(f3(p), f3(n), (float)e, 0.0f, cr, cg, cb);
                else v = VisualizationFactoryPtr(f)->createPlane(MathTools::Plane(f3(p), f3(n)), (float)e, 0.5f, cr, cg, cb);
                // the plate is 1 mm thick, a square around its position, orthogonal to the normal
                Drawn d = draw(v);
                c.check(d.tri.size() == 12, "planeCount", std::to_string(d.tri.size()) + " triangles");
                double tol = 1e-3 + 1e-5 * (p.norm() + e);
                V3 mean = V3::Zero();
                for (auto& t : d.tri)
                    for (auto& q : t)
                    {
                        c.checkf(std::abs(std::abs((q - p).dot(n)) - 0.5) < tol, "plane", [&](std::ostream& os_) { os_ << "a corner lies " + num((q - p).dot(n)) + " mm from the plane"; });
                        V3 in = (q - p) - n * (q - p).dot(n);
                        c.checkf(std::abs(in.norm() - e * std::sqrt(0.5)) < tol, "planeCorner", [&](std::ostream& os_) { os_ << "a corner is " + num(in.norm()) + " mm from the centre, extend " + num(e); });
                    }
                on = [](const V3&) { return 0.0; };
                wantArea = 2 * e * e + 4 * e;
                count = 12;
                break;
            }
            case 4:
            {
                double R = size(s), r = fl(R * s.uniform(0.05, 0.9));
                double comp = s.chance(0.3) ? 1.0 : fl(s.uniform(0.05, 1));
                if (s.chance(0.3)) comp = -comp;
                int sides = (int)s.integer(4, 20), rings = (int)s.integer(4, 40);
                if (s.chance(0.03)) { sides = (int)s.integer(100, 140); rings = (int)s.integer(250, 400); }
                c.describe("torus " + num(R) + " " + num(r) + " completion " + num(comp) + " sides " + num((double)sides) + " rings " + num((double)rings));
                v = f->createTorus((float)R, (float)r, (float)comp, cr, cg, cb, 0.0f, sides, rings);
                on = [R, r, comp](const V3& p)
                {
                    double d = std::abs(std::hypot(std::hypot(p[0], p[1]) - R, p[2]) - r);
                    double a = std::atan2(p[1], p[0]);
                    if (comp < 0) a = -a;
                    if (a < -1e-4) a += 2 * M_PI;
                    double over = (a - 2 * M_PI * std::abs(comp)) * R;
                    return std::max(d, over);
                };
                wantArea = 4 * M_PI * M_PI * R * r * std::abs(comp);
                lo = 0.55;
                hi = 1.0001;
                count = 2 * (size_t)sides * rings;
                break;
            }
            case 5:
            {
                V3 h(size(s), size(s), size(s));
                double ah = fl(s.uniform(0.5, 20)), aw = fl(s.uniform(0.5, 20));
                bool axes = s.chance(0.4);
                c.describe("ellipsoid " + str(h.transpose()));
                v = f->createEllipse((float)h[0], (float)h[1], (float)h[2], axes, (float)ah, (float)aw);
                colour = false;
                if (axes)
                {
                    half = h + V3::Constant(ah);
                    for (int i = 0; i < 3; i++) half[i] = std::max(half[i], aw / 2);
                    boxTol = 0.02 * half.maxCoeff();
                    c.label("axes");
                    // the body and, around it, a disc per axis
                    on = [h, ah, aw](const V3& p)
                    {
                        double d = std::abs((p.cwiseQuotient(h)).norm() - 1) * h.minCoeff();
                        for (int a = 0; a < 3; a++)
                        {
                            int i = (a + 1) % 3, j = (a + 2) % 3;
                            double e = std::hypot(p[i] / (h[i] + ah), p[j] / (h[j] + ah));
                            d = std::min(d, std::max(std::abs(std::abs(p[a]) - aw / 2), std::max(0.0, e - 1) * (h.maxCoeff() + ah)));
                        }
                        return d;
                    };
                }
                else
                {
                    on = [h](const V3& p) { return std::abs((p.cwiseQuotient(h)).norm() - 1) * h.minCoeff(); };
                    half = h;
                    boxTol = 0.05 * h.maxCoeff();
                }
                break;
            }
            case 7:
            {
                V3 a = vec(s, 500), h(size(s), size(s), size(s));
                BoundingBox bb;
                bb.addPoint(f3(a - h / 2));
                bb.addPoint(f3(a + h / 2));
                c.describe("bounding box " + str(h.transpose()) + " at " + str(a.transpose()));
                v = f->createBoundingBox(bb, s.chance(0.5));
                frame = mk(M3::Identity(), a);
                half = h / 2;
                on = [h](const V3& p) { return onBox(p, h / 2); };
                wantArea = 2 * (h[0] * h[1] + h[1] * h[2] + h[0] * h[2]);
                count = 12;
                colour = false;
                break;
            }
            case 8:
            {
                // most of a torus and an arrow head
                double R = size(s), r = fl(R * s.uniform(0.02, 0.2)), comp = fl(s.uniform(-1.2, 1.2));
                int sides = (int)s.integer(4, 20), rings = (int)s.integer(4, 40);
                double cc = std::max(-1.0, std::min(1.0, comp)), left = std::abs(cc) - 1.0 / rings;
                if (std::abs(left - 0.01) < 1e-3) c.discard();
                c.describe("circle arrow " + num(R) + " " + num(r) + " completion " + num(comp) + " sides " + num((double)sides) + " rings " + num((double)rings));
                v = f->createCircleArrow((float)R, (float)r, (float)comp, cr, cg, cb, 0.0f, sides, rings);
                count = (left > 0.01 ? 2 * (size_t)sides * rings : 0) + draw(f->createArrow(Eigen::Vector3f(0, 1, 0), 0, (float)r)).tri.size();
                // nothing is far from the circle
                on = [R, r](const V3& p)
                {
                    return std::max(0.0, std::hypot(std::hypot(p[0], p[1]) - R, p[2]) - 4.5 * r);
                };
                colour = true;
                break;
            }
            default:
            {
                double w = fl(s.uniform(0.5, 20)), len = fl(w * s.uniform(6.5, 100));
                V3 n = unit(s);
                if (s.chance(0.3)) { n.setZero(); n[(int)s.draw(3)] = s.chance(0.5) ? 1 : -1; }
                double scale = s.chance(0.5) ? 1 : s.uniform(0.1, 50);   // the direction needn't be normalized
                c.describe("arrow " + str((n * scale).transpose()) + " length " + num(len) + " width " + num(w));
                v = f->createArrow(f3(n * scale), (float)len, (float)w, VisualizationFactory::Color(cr, cg, cb));
                Drawn d = draw(v);
                double mi = 1e30, ma = -1e30, tip = -1, tail = -1;
                for (auto& t : d.tri)
                    for (auto& q : t)
                    {
                        double x = q.dot(n), rad = (q - n * x).norm();
                        mi = std::min(mi, x);
                        if (x > ma) { ma = x; tip = rad; }
                        tail = std::max(tail, rad);
                        c.checkf(rad <= 2.5 * w * 1.001 + 1e-3 && (x > len - 6 * w - 1e-2 - len * 1e-4 || rad <= w * 1.001 + 1e-3), "arrowRadius", [&](std::ostream& os_) { os_ << "a point " + num(x) + " along the arrow is " + num(rad) + " from its axis"; });
                    }
                c.near(mi, 0, 1e-3 + 1e-4 * len, "arrowStart", "start of the arrow");
                c.near(ma, len, 1e-3 + 1e-4 * len, "arrowEnd", "end of the arrow");
                c.near(tip, 0, 1e-3 + 1e-4 * len, "arrowTip", "radius of the tip");
                c.near(tail, 2.5 * w, 0.05 * w, "arrowHead", "radius of the head");
                on = [](const V3&) { return 0.0; };
                break;
            }
        }
        Drawn d = draw(v);
        c.check(!d.tri.empty(), "empty", "nothing is drawn");
        double ext = extent(d.tri), tol = 1e-3 + 2e-5 * ext;
        M4 back = inv(frame);
        for (auto& t : d.tri)
            for (auto& q : t)
            {
                V3 p = back.block<3, 3>(0, 0) * q + back.block<3, 1>(0, 3);
                double e = on(p);
                c.checkf(e <= tol, "surface", [&](std::ostream& os_) { os_ << "point " + str(p.transpose()) + " is " + num(e) + " mm off the surface"; });
            }
        if (half[0] >= 0)
        {
            V3 mi, ma;
            box(d.tri, mi, ma);
            mi -= trans(frame);
            ma -= trans(frame);
            c.checkf((ma - half).cwiseAbs().maxCoeff() <= boxTol + tol && (mi + half).cwiseAbs().maxCoeff() <= boxTol + tol, "extent", [&](std::ostream& os_) { os_ << "extends from " + str(mi.transpose()) + " to " + str(ma.transpose()) + ", half size " + str(half.transpose()); });
        }
        if (wantArea >= 0)
        {
            double a = area(d.tri);
            c.checkf(a >= wantArea * lo * (1 - 1e-3) && a <= wantArea * hi * (1 + 1e-3), "area", [&](std::ostream& os_) { os_ << "area " + num(a) + ", shape " + num(wantArea); });
        }
        if (count) c.check(d.tri.size() == count, "count", std::to_string(d.tri.size()) + " triangles instead of " + std::to_string(count));
        if (colour)
            for (auto& x : d.colour) c.checkf((x - col).norm() < 1e-5, "colour", [&](std::ostream& os_) { os_ << "colour " + str(x.transpose()) + " instead of " + str(col.transpose()); });
        // the mesh used for collisions etc. is what's drawn
        std::string e = d.tri.size() < 2000 ? different(mesh(v), d.tri, tol) : "";
        c.check(e.empty(), "mesh", "mesh of a new node: " + e);
        c.check(v->getNumFaces() == (int)d.tri.size(), "faces", "getNumFaces()");
        c.nontrivial(true);
    }

    // ---------------------------------------------------------------- lines and trajectories
    void lines(Src& s, pbt::Ctx& c)
    {
        auto f = factory();
        V3 col(fl(s.draw(5) / 4.0), fl(s.draw(5) / 4.0), fl(s.draw(5) / 4.0));
        float cr = (float)col[0], cg = (float)col[1], cb = (float)col[2];
        if (s.chance(0.5))
        {
            V3 a = vec(s, 1000), b = vec(s, 1000);
            bool asPose = s.chance(0.5);
            c.describe("line " + str(a.transpose()) + " - " + str(b.transpose()));
            c.label("line");
            VisualizationNodePtr v;
            if (asPose)
            {
                Eigen::Matrix4f A = f4(mk(rot(s), a)), B = f4(mk(rot(s), b));
                v = f->createLine(A, B, 2.0f, cr, cg, cb);
            }
            else v = f->createLine(f3(a), f3(b), 2.0f, cr, cg, cb);
            Drawn d = draw(v);
            c.check(d.line.size() == 1 && d.tri.empty(), "lineCount", std::to_string(d.line.size()) + " lines");
            double e = std::min(std::max((d.line[0][0] - a).norm(), (d.line[0][1] - b).norm()), std::max((d.line[0][0] - b).norm(), (d.line[0][1] - a).norm()));
            c.checkf(e < 1e-2, "line", [&](std::ostream& os_) { os_ << "line from " + str(d.line[0][0].transpose()) + " to " + str(d.line[0][1].transpose()); });
            c.check((d.lineColour[0] - col).norm() < 1e-5, "lineColour", "colour " + str(d.lineColour[0].transpose()) + " instead of " + str(col.transpose()));
            c.nontrivial((a - b).norm() > 1);
            return;
        }
        double r = size(s), comp = fl(s.uniform(-1.3, 1.3));
        if (s.chance(0.3)) comp = 1;
        int n = (int)s.integer(2, 60);
        c.describe("circle " + num(r) + " completion " + num(comp) + " parts " + num((double)n));
        c.label("circle");
        VisualizationNodePtr v = f->createCircle((float)r, (float)comp, 1.0f, cr, cg, cb, (size_t)n);
        // use the node after other nodes have been created: it must own its scene graph
        VisualizationNodePtr other = f->createBox(1, 1, 1);
        VisualizationNodePtr keep = f->createSphere(1);
        Drawn d = draw(v);
        double full = std::max(-1.0, std::min(1.0, comp)) * 2 * M_PI;
        c.checkf(d.tri.empty() && ((int)d.line.size() == n - 1 || (int)d.line.size() == n), "circleCount", [&](std::ostream& os_) { os_ << std::to_string(d.line.size()) + " lines for " + std::to_string(n) + " parts"; });
        double angle = 0;
        for (size_t i = 0; i < d.line.size(); i++)
        {
            for (auto& p : d.line[i]) c.checkf(std::abs(p.norm() - r) < 1e-3 + 1e-4 * r && std::abs(p[2]) < 1e-3, "circle", [&](std::ostream& os_) { os_ << "point " + str(p.transpose()); });
            if (i) c.check((d.line[i][0] - d.line[i - 1][1]).norm() < 1e-3 + 1e-4 * r, "circleChain", "gap in the circle");
            else c.check((d.line[i][0] - V3(r, 0, 0)).norm() < 1e-3 + 1e-4 * r, "circleStart", "starts at " + str(d.line[0][0].transpose()));
            const V3 &p = d.line[i][0], &q = d.line[i][1];
            double step = std::atan2(p.cross(q)[2], p.dot(q));
            if (n == 2 && std::abs(std::abs(step) - M_PI) < 1e-3) step = std::copysign(step, full);
            angle += step;
            c.check((d.lineColour[i] - col).norm() < 1e-5, "circleColour", "colour " + str(d.lineColour[i].transpose()) + " instead of " + str(col.transpose()));
        }
        c.checkf(std::abs(angle) <= std::abs(full) + 1e-2 && std::abs(angle) >= std::abs(full) * (n - 1) / n - 1e-2 && angle * full >= -1e-6, "circleAngle", [&](std::ostream& os_) { os_ << "covers " + num(angle) + " of " + num(full); });
        c.nontrivial(std::abs(full) > 0.1);
    }

    // ---------------------------------------------------------------- primitives
    void primitives(Src& s, pbt::Ctx& c)
    {
        auto f = factory();
        int n = (int)s.integer(1, 4);
        std::vector<Primitive::PrimitivePtr> ps;
        std::vector<std::function<double(const V3&)>> on;
        std::vector<M4> pose_;
        std::vector<double> areas;
        std::vector<V3> half;
        M4 cur = M4::Identity();
        bool tilted = false;
        V3 col(fl(s.draw(5) / 4.0), fl(s.draw(5) / 4.0), fl(s.draw(5) / 4.0));
        std::string desc;
        for (int i = 0; i < n; i++)
        {
            Primitive::PrimitivePtr p;
            switch (s.draw(3))
            {
                case 0:
                {
                    V3 h(size(s), size(s), size(s));
                    p.reset(new Primitive::Box((float)h[0], (float)h[1], (float)h[2]));
                    on.push_back([h](const V3& q) { return onBox(q, h / 2); });
                    areas.push_back(2 * (h[0] * h[1] + h[1] * h[2] + h[0] * h[2]));
                    half.push_back(h / 2);
                    desc += "box " + str(h.transpose());
                    break;
                }
                case 1:
                {
                    double r = size(s);
                    p.reset(new Primitive::Sphere((float)r));
                    on.push_back([r](const V3& q) { return std::abs(q.norm() - r); });
                    areas.push_back(4 * M_PI * r * r);
                    half.push_back(V3(r, r, r));
                    desc += "sphere " + num(r);
                    break;
                }
                default:
                {
                    double r = size(s), h = size(s);
                    p.reset(new Primitive::Cylinder((float)r, (float)h));
                    on.push_back([r, h](const V3& q) { return onCyl(q, r, h); });
                    areas.push_back(2 * M_PI * r * (r + h));
                    half.push_back(V3(r, h / 2, r));
                    desc += "cylinder " + num(r) + " " + num(h);
                    break;
                }
            }
            M4 t = s.chance(0.3) ? M4(M4::Identity()) : s.chance(0.4) ? mk(M3::Identity(), vec(s, 300)) : pose(s, 300);
            if ((rotOf(t) - M3::Identity()).norm() > 1e-6) tilted = true;
            p->transform = f4(t);
            cur = cur * d4(p->transform);   // each primitive is placed relative to the one before
            pose_.push_back(cur);
            desc += " at " + str(trans(t).transpose()) + "; ";
            ps.push_back(p);
        }
        bool bb = s.chance(0.3);
        c.describe(desc + (bb ? " bounding box" : ""));
        VisualizationNodePtr v = f->getVisualizationFromPrimitives(ps, bb, VisualizationFactory::Color((float)col[0], (float)col[1], (float)col[2]));
        Drawn d = draw(v);
        double tol = 2e-3 + 3e-5 * (extent(d.tri) + 1000);
        if (bb)
        {
            // an axis aligned box around the primitives, as tight as their own boxes
            V3 mi, ma, wi = V3::Constant(1e30), wa = -wi, ti = wi, ta = wa;
            box(d.tri, mi, ma);
            c.check(d.tri.size() == 12, "boxCount", std::to_string(d.tri.size()) + " triangles");
            for (auto& t : d.tri) for (auto& q : t) c.check(onBox(q - (mi + ma) / 2, (ma - mi) / 2) < tol, "boxShape", "not a box");
            Drawn parts = draw(f->getVisualizationFromPrimitives(ps, false));
            box(parts.tri, ti, ta);
            for (int i = 0; i < n; i++)
                for (auto& t : cuboid(half[i]))
                {
                    Tri q = pose_[i] * t;
                    wi = wi.cwiseMin(q[0]);
                    wa = wa.cwiseMax(q[0]);
                }
            c.checkf((mi - ti).maxCoeff() <= tol && (ta - ma).maxCoeff() <= tol, "boxContains", [&](std::ostream& os_) { os_ << "box " + str(mi.transpose()) + " .. " + str(ma.transpose()) + " doesn't contain the primitives (" + str(ti.transpose()) + " .. " + str(ta.transpose()) + ")"; });
            // (Coin's own boxes around several rotated boxes aren't tight)
            if (tilted) { double d = (wa - wi).norm(); wi.array() -= d; wa.array() += d; }
            c.checkf((wi - mi).maxCoeff() <= tol && (ma - wa).maxCoeff() <= tol, "boxTight", [&](std::ostream& os_) { os_ << "box " + str(mi.transpose()) + " .. " + str(ma.transpose()) + " is larger than " + str(wi.transpose()) + " .. " + str(wa.transpose()); });
            c.label("bounding box");
        }
        else
        {
            // every triangle belongs to one of the primitives, in order
            size_t k = 0;
            for (int i = 0; i < n; i++)
            {
                M4 b = inv(pose_[i]);
                double a = 0;
                double want = areas[i], off = 0;
                size_t count = n == 1 ? d.tri.size() : draw(f->getVisualizationFromPrimitives({ps[i]}, false)).tri.size();
                for (; count > 0 && k < d.tri.size(); count--, k++)
                {
                    Tri t = b * d.tri[k];
                    for (auto& q : t) off = std::max(off, on[i](q));
                    a += area({t});
                }
                c.checkf(off <= tol, "primitive", [&](std::ostream& os_) { os_ << "primitive " + std::to_string(i) + ": a vertex is " + num(off) + " off its surface"; });
                c.checkf(a >= 0.85 * want && a <= 1.001 * want, "primitive", [&](std::ostream& os_) { os_ << "primitive " + std::to_string(i) + ": area " + num(a) + " instead of " + num(want); });
            }
            c.check(k == d.tri.size(), "extra", std::to_string(d.tri.size() - k) + " more triangles");
            std::string e = different(mesh(v), d.tri, tol);
            c.check(e.empty(), "mesh", "mesh: " + e);
        }
        if (!bb) for (auto& x : d.colour) c.checkf((x - col).norm() < 1e-5, "colour", [&](std::ostream& os_) { os_ << "colour " + str(x.transpose()) + " instead of " + str(col.transpose()); });
        c.check(v->primitives.size() == ps.size(), "primitives", "the node doesn't know its primitives");
        c.nontrivial(n > 1);
    }

    // ---------------------------------------------------------------- nodes
    TriMeshModelPtr soup(const std::vector<Tri>& t)
    {
        TriMeshModelPtr m(new TriMeshModel());
        for (auto& x : t) m->addTriangleWithFace(f3(x[0]), f3(x[1]), f3(x[2]));
        return m;
    }
    std::vector<Tri> randomSoup(Src& s, int maxN, double r)
    {
        std::vector<Tri> t;
        int n = (int)s.integer(1, maxN);
        for (int i = 0; i < n; i++)
        {
            Tri x;
            do
            {
                V3 o = vec(s, r);
                x = {o, V3(o + vec(s, r) + V3(1, 0, 0)), V3(o + vec(s, r) - V3(0, 1, 0))};
                for (auto& q : x) q = d3(f3(q));
            }
            while (area({x}) < 1);
            t.push_back(x);
        }
        return t;
    }
    struct Node
    {
        VisualizationNodePtr v;
        std::vector<Tri> local;
        V3 scale = V3::Ones();
        M4 pose = M4::Identity(), drawn = M4::Identity();
        bool show = true, showAtt = true, update = true;
        std::map<std::string, int> att;
    };
    struct World
    {
        std::vector<Node> n;
        std::vector<Tri> geometry(int i, int depth = 0) const
        {
            std::vector<Tri> r;
            const Node& x = n[i];
            if (depth > 8) return r;
            if (x.show)
                for (auto t : x.local)
                {
                    for (auto& q : t) q = q.cwiseProduct(x.scale);
                    r.push_back(x.drawn * t);
                }
            if (x.showAtt)
                for (auto& a : x.att) for (auto& t : geometry(a.second, depth + 1)) r.push_back(x.drawn * t);
            return r;
        }
        bool reaches(int from, int to) const
        {
            if (from == to) return true;
            for (auto& a : n[from].att) if (reaches(a.second, to)) return true;
            return false;
        }
        int clones(int i)
        {
            int k = 1;
            for (auto& a : n[i].att) k += clones(a.second);
            return k;
        }
        int adopt(int i, VisualizationNodePtr v, double f)   // the model of a clone
        {
            Node x = n[i];
            x.v = v;
            for (auto& t : x.local) for (auto& q : t) q *= f;
            v->setUpdateVisualization(true);
            v->setGlobalPose(f4(x.pose));
            v->setUpdateVisualization(x.update);
            v->setupVisualization(x.show, x.showAtt);
            x.drawn = x.pose;
            for (auto& a : x.att)
            {
                VisualizationNodePtr w = v->getAttachedVisualization(a.first);
                if (!w) return -1;
                a.second = adopt(a.second, w, f);
                if (a.second < 0) return -1;
            }
            n.push_back(x);
            return (int)n.size() - 1;
        }
    };
    void nodes(Src& s, pbt::Ctx& c)
    {
        auto f = factory();
        World w;
        std::string desc;
        auto add = [&](const std::vector<Tri>& t)
        {
            Node x;
            x.local = t;
            Eigen::Matrix4f id = Eigen::Matrix4f::Identity();
            x.v = f->createTriMeshModelVisualization(soup(t), id);
            w.n.push_back(x);
        };
        int start = (int)s.integer(1, 3);
        for (int i = 0; i < start; i++) add(randomSoup(s, 4, 200));
        int steps = (int)s.integer(1, c.thorough ? 25 : 12);
        static const std::vector<std::string> names{"a", "b", "c"};
        int interesting = 0;
        for (int k = 0; k < steps; k++)
        {
            int i = (int)s.draw(w.n.size());
            Node& x = w.n[i];
            std::string I = std::to_string(i);
            switch (s.weighted({5, 5, 2, 2, 1, 3, 2, 2, 2, 1, 1}))
            {
                case 0:
                {
                    M4 p = pose(s, 500);
                    desc += " pose " + I;
                    x.v->setGlobalPose(f4(p));
                    x.pose = fl4(p);
                    if (x.update) x.drawn = x.pose;
                    break;
                }
                case 1:
                {
                    int j = (int)s.draw(w.n.size());
                    std::string nm = s.pick(names);
                    if (w.reaches(j, i)) break;
                    desc += " attach " + std::to_string(j) + " to " + I + " as " + nm;
                    if (x.att.count(nm)) c.label("attach again");
                    x.v->attachVisualization(nm, w.n[j].v);
                    x.att[nm] = j;
                    interesting++;
                    break;
                }
                case 2:
                {
                    std::string nm = s.pick(names);
                    desc += " detach " + nm + " from " + I;
                    x.v->detachVisualization(nm);
                    x.att.erase(nm);
                    break;
                }
                case 3:
                {
                    x.show = s.chance(0.6);
                    x.showAtt = s.chance(0.6);
                    desc += " setup " + I + " " + (x.show ? "1" : "0") + (x.showAtt ? "1" : "0");
                    x.v->setupVisualization(x.show, x.showAtt);
                    break;
                }
                case 4:
                {
                    x.update = s.chance(0.5);
                    desc += " update " + I + (x.update ? " on" : " off");
                    x.v->setUpdateVisualization(x.update);
                    break;
                }
                case 5:
                {
                    if (w.n.size() + w.clones(i) > 10) break;
                    bool deep = s.chance(0.5);
                    bool plain = true;
                    std::function<void(int)> look = [&](int q)
                    {
                        if ((w.n[q].scale - V3::Ones()).norm() > 0) plain = false;
                        for (auto& a : w.n[q].att) look(a.second);
                    };
                    look(i);
                    if (!plain) break;
                    double sc = x.att.empty() && s.chance(0.5) ? fl(s.uniform(0.2, 4)) : 1.0;
                    desc += " clone " + I + (deep ? " deep" : " shallow") + " by " + num(sc);
                    if (s.chance(0.5)) x.v->getTriMeshModel();
                    VisualizationNodePtr v = x.v->clone(deep, (float)sc);
                    c.check(v->getUpdateVisualizationStatus() == x.update, "cloneUpdate", "update status of the clone");
                    c.check((v->getGlobalPose() - f4(x.pose)).norm() < 1e-3, "clonePose", "global pose of the clone");
                    int m = w.adopt(i, v, sc);
                    c.check(m >= 0, "cloneAttached", "the clone lacks an attached visualization");
                    c.label(deep ? "deep clone" : "shallow clone");
                    interesting++;
                    break;
                }
                case 6:
                {
                    Eigen::Vector3f sc((float)s.uniform(0.2, 3), (float)s.uniform(0.2, 3), (float)s.uniform(0.2, 3));
                    if (s.chance(0.3)) sc.setOnes();
                    desc += " scale " + I + " " + str(sc.transpose());
                    x.v->scale(sc);
                    x.scale = d3(sc);
                    break;
                }
                case 7:
                {
                    if (w.n.size() >= 10) break;
                    std::vector<VisualizationNodePtr> vs;
                    Node u;
                    int cnt = (int)s.integer(1, 3);
                    bool any = false;
                    desc += " unite";
                    for (int q = 0; q < cnt; q++)
                    {
                        if (s.chance(0.15)) { vs.push_back(VisualizationNodePtr(new VisualizationNode())); continue; }
                        int j = (int)s.draw(w.n.size());
                        desc += " " + std::to_string(j);
                        vs.push_back(w.n[j].v);
                        auto g = w.geometry(j);
                        u.local.insert(u.local.end(), g.begin(), g.end());
                        any = true;
                    }
                    if (u.local.size() > 60) break;
                    u.v = VisualizationNode::CreateUnitedVisualization(vs);
                    c.check((bool)u.v == any, "united", any ? "no united visualization" : "a united visualization of nothing");
                    if (!any) break;
                    w.n.push_back(u);
                    c.label("united");
                    interesting++;
                    break;
                }
                case 8:
                {
                    if ((x.scale - V3::Ones()).norm() > 0) break;
                    M4 p = pose(s, 300);
                    Eigen::Matrix4f pf = f4(p);
                    desc += " displace " + I;
                    if (s.chance(0.5)) x.v->getTriMeshModel();
                    f->applyDisplacement(x.v, pf);
                    for (auto& t : x.local) t = d4(pf) * t;
                    c.label("displacement");
                    interesting++;
                    break;
                }
                case 9:
                {
                    if ((x.scale - V3::Ones()).norm() > 0) break;
                    float off = (float)s.uniform(-5, 5);
                    desc += " fatten " + I + " by " + num((double)off);
                    TriMeshModelPtr m = x.v->getTriMeshModel()->clone();
                    m->mergeVertices();
                    m->fattenShrink(off, true);
                    x.v->shrinkFatten(off);
                    x.local.clear();
                    for (auto& fc : m->faces) x.local.push_back({d3(m->vertices.at(fc.id1)), d3(m->vertices.at(fc.id2)), d3(m->vertices.at(fc.id3))});
                    c.label("fatten");
                    break;
                }
                default:
                    if (w.n.size() < 10) { add(randomSoup(s, 4, 200)); desc += " new"; }
            }
            c.describe(desc);
            for (size_t q = 0; q < w.n.size(); q++)
            {
                Node& y = w.n[q];
                auto want = w.geometry((int)q);
                if (want.size() > 150) continue;
                auto got = draw(y.v).tri;
                double tol = 0.01 + 1e-5 * extent(want);
                std::string e = different(got, want, tol, true);
                c.check(e.empty(), "drawn", "node " + std::to_string(q) + " after" + desc + ": " + e);
                for (auto& nm : names)
                {
                    c.check(y.v->hasAttachedVisualization(nm) == (y.att.count(nm) > 0), "attached", "attached " + nm);
                    VisualizationNodePtr a = y.v->getAttachedVisualization(nm);
                    c.check(y.att.count(nm) ? a == w.n[y.att[nm]].v : !a, "attachedNode", "attached node " + nm);
                }
                c.check((y.v->getGlobalPose() - f4(y.pose)).norm() < 1e-3, "pose", "global pose");
                if ((y.scale - V3::Ones()).norm() > 0 || !s.chance(0.5)) continue;
                // own geometry, in local coordinates, without what's attached
                e = different(mesh(y.v), y.local, tol, true);
                c.check(e.empty(), "mesh", "mesh of node " + std::to_string(q) + " after" + desc + ": " + e);
                c.check(y.v->getNumFaces() == (int)y.local.size(), "faces", "getNumFaces");
                if (!y.local.empty())
                {
                    BoundingBox bb = y.v->getBoundingBox();
                    V3 mi, ma;
                    std::vector<Tri> g;
                    for (auto& t : y.local) g.push_back(y.pose * t);
                    box(g, mi, ma);
                    c.check((d3(bb.getMin()) - mi).maxCoeff() < tol && (ma - d3(bb.getMax())).maxCoeff() < tol, "bbox", "the bounding box doesn't contain the geometry");
                }
            }
        }
        c.nontrivial(interesting > 0);
    }

    // ---------------------------------------------------------------- files
    struct Scene
    {
        std::ostringstream iv;
        std::vector<Tri> tri;
        bool vrml = false;
        int depth = 0;
        bool tilted = false;
        double maxAbs = 0;
    };
    std::string n9(double v) { std::ostringstream o; o << std::setprecision(9) << v; return o.str(); }
    std::string v9(const V3& v) { return n9(v[0]) + " " + n9(v[1]) + " " + n9(v[2]); }
    M4 scaleM(const V3& v) { M4 m = M4::Identity(); for (int i = 0; i < 3; i++) m(i, i) = v[i]; return m; }
    void leaf(Src& s, Scene& o, const M4& m)
    {
        // metres
        auto t = randomSoup(s, 3, 200);
        std::string pts, idx;
        int k = 0;
        for (auto& x : t)
        {
            for (auto& q : x)
            {
                q = d3(f3(q * 0.001));
                pts += (pts.empty() ? "" : ", ") + v9(q);
            }
            idx += (idx.empty() ? "" : ", ") + std::to_string(k) + ", " + std::to_string(k + 1) + ", " + std::to_string(k + 2) + ", -1";
            k += 3;
            Tri g = m * x;
            for (auto& q : g) q *= 1000.0;
            o.tri.push_back(g);
        }
        if (o.vrml) o.iv << "Shape { geometry IndexedFaceSet { solid FALSE coord Coordinate { point [ " << pts << " ] } coordIndex [ " << idx << " ] } }\n";
        else o.iv << "Separator { Coordinate3 { point [ " << pts << " ] } IndexedFaceSet { coordIndex [ " << idx << " ] } }\n";
    }
    void group(Src& s, Scene& o, M4 m, int depth)
    {
        o.depth = std::max(o.depth, depth);
        if (o.vrml)
        {
            bool tr = s.chance(0.7);
            V3 t = vec(s, 0.5), sc = V3::Ones(), ax = unit(s);
            double an = s.chance(0.5) ? 0 : fl(s.uniform(-3, 3));
            if (s.chance(0.3)) sc = V3(fl(s.uniform(0.3, 3)), fl(s.uniform(0.3, 3)), fl(s.uniform(0.3, 3)));
            ax = d3(f3(ax));
            if (tr)
            {
                o.iv << "Transform { translation " << v9(t) << " scale " << v9(sc);
                if (an != 0) { o.iv << " rotation " << v9(ax) << " " << n9(an); o.tilted = true; }
                o.iv << " children [\n";
                m = m * mk(Eigen::AngleAxisd(an, ax.normalized()).toRotationMatrix(), t) * scaleM(sc);
            }
            else o.iv << "Group { children [\n";
            int n = (int)s.integer(1, 2);
            for (int i = 0; i < n; i++)
                if (depth < 3 && s.chance(0.5)) group(s, o, m, depth + 1);
                else leaf(s, o, m);
            o.iv << "] }\n";
            return;
        }
        // Group and Switch don't isolate their transformations, separators do (so each kind ends up inside of one)
        int kind = (int)s.weighted({6, 1, 1, 1});
        o.iv << "Separator {\n";
        int n = (int)s.integer(1, 4);
        std::string close;
        if (kind == 1) { o.iv << "Group {\n"; close = "}\n"; }
        if (kind == 2) { o.iv << "TransformSeparator {\n"; close = "}\n"; }
        if (kind == 3) { o.iv << "Switch { whichChild -3\n"; close = "}\n"; }
        M4 outer = m;
        for (int i = 0; i < n; i++)
        {
            if (i + 1 == n || s.chance(0.3)) { leaf(s, o, m); continue; }
            switch (s.draw(6))
            {
                case 0: { V3 t = vec(s, 0.5); o.iv << "Translation { translation " << v9(t) << " }\n"; m = m * mk(M3::Identity(), t); break; }
                case 1: { V3 t(fl(s.uniform(0.3, 3)), fl(s.uniform(0.3, 3)), fl(s.uniform(0.3, 3))); o.iv << "Scale { scaleFactor " << v9(t) << " }\n"; m = m * scaleM(t); break; }
                case 2:
                {
                    V3 t = vec(s, 0.5), ax = d3(f3(unit(s)));
                    double an = fl(s.uniform(-3, 3));
                    o.iv << "Transform { translation " << v9(t) << " rotation " << v9(ax) << " " << n9(an) << " }\n";
                    m = m * mk(Eigen::AngleAxisd(an, ax.normalized()).toRotationMatrix(), t);
                    o.tilted = true;
                    break;
                }
                case 3:
                {
                    M4 p = fl4(pose(s, 0.5));
                    o.iv << "MatrixTransform { matrix ";
                    for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) o.iv << n9(p(b, a)) << " ";
                    o.iv << "}\n";
                    m = m * p;
                    o.tilted = true;
                    break;
                }
                case 4:
                {
                    double an = fl(s.uniform(-3, 3));
                    int a = (int)s.draw(3);
                    o.iv << "RotationXYZ { axis " << "XYZ"[a] << " angle " << n9(an) << " }\n";
                    m = m * mk(Eigen::AngleAxisd(an, V3::Unit(a)).toRotationMatrix(), V3::Zero());
                    o.tilted = true;
                    break;
                }
                default:
                    if (depth < 3) group(s, o, m, depth + 1);
                    else leaf(s, o, m);
            }
        }
        o.iv << close;
        if (kind == 2 && s.chance(0.7)) leaf(s, o, outer);
        o.iv << "}\n";
    }
    void sameOrBox(pbt::Ctx& c, const VisualizationNodePtr& v, const std::vector<Tri>& want, bool bb, bool tilted, const std::string& key, double tol)
    {
        c.check((bool)v, key + "Null", "no node");
        auto got = draw(v).tri;
        if (!bb)
        {
            std::string e = different(got, want, tol);
            c.check(e.empty(), key, e);
            e = different(mesh(v), want, tol);
            c.check(e.empty(), key + "Mesh", "mesh: " + e);
            return;
        }
        V3 mi, ma, wi, wa;
        box(got, mi, ma);
        box(want, wi, wa);
        c.check(got.size() == 12, key + "BoxCount", std::to_string(got.size()) + " triangles instead of a box");
        for (auto& t : got) for (auto& q : t) c.check(onBox(q - (mi + ma) / 2, (ma - mi) / 2) < tol, key + "BoxShape", "not a box");
        c.checkf((mi - wi).maxCoeff() <= tol && (wa - ma).maxCoeff() <= tol, key + "BoxContains", [&](std::ostream& os_) { os_ << "box " + str(mi.transpose()) + " .. " + str(ma.transpose()) + ", model " + str(wi.transpose()) + " .. " + str(wa.transpose()); });
        if (!tilted) c.checkf((wi - mi).maxCoeff() <= tol && (ma - wa).maxCoeff() <= tol, key + "BoxTight", [&](std::ostream& os_) { os_ << "box " + str(mi.transpose()) + " .. " + str(ma.transpose()) + ", model " + str(wi.transpose()) + " .. " + str(wa.transpose()); });
        c.label("bounding box");
    }
    void files(Src& s, pbt::Ctx& c)
    {
        auto f = factory();
        fs::path dir = fs::path(pbt::scratch()) / "vis";
        fs::remove_all(dir);
        fs::create_directories(dir);
        Scene o;
        o.vrml = s.chance(0.4);
        group(s, o, M4::Identity(), 0);
        std::string text = (o.vrml ? "#VRML V2.0 utf8\n" : "#Inventor V2.1 ascii\n") + o.iv.str();
        c.describe(text);
        double tol = 0.01 + 2e-5 * extent(o.tri);
        bool bb = s.chance(0.3);
        std::string file = (dir / (o.vrml ? "m.wrl" : "m.iv")).string();
        { std::ofstream out(file); out << text; }
        VisualizationNodePtr v;
        switch (s.draw(3))
        {
            case 0: v = f->getVisualizationFromFile(file, bb); c.label("file");
                c.check(v->getFilename() == file && v->usedBoundingBoxVisu() == bb, "filename", "file name " + v->getFilename());
                break;
            case 1: v = f->getVisualizationFromString(text, bb); c.label("string"); break;
            default:
            {
                std::ifstream in(file);
                v = f->getVisualizationFromFile(in, bb);
                c.label("stream");
            }
        }
        sameOrBox(c, v, o.tri, bb, o.tilted, "load", tol);
        c.label(o.vrml ? "vrml" : "inventor");
        // write it and read it again
        if (s.chance(0.6))
        {
            std::vector<Tri> want = mesh(v);
            bool iv = s.chance(0.5);
            std::string name = iv ? "saved.iv" : s.chance(0.5) ? "saved.wrl" : "saved";
            if (!bb && s.chance(0.3))   // a model that refers to another file
            {
                std::string t2 = "#Inventor V2.1 ascii\nSeparator { Translation { translation 0.25 0 0 } File { name \"" + file + "\" } }\n";
                if (!o.vrml)
                {
                    v = f->getVisualizationFromString(t2);
                    for (auto& t : want) for (auto& q : t) q[0] += 250;
                    c.label("reference");
                    std::string e = different(mesh(v), want, tol + 0.01);
                    c.check(e.empty(), "reference", e);
                }
            }
            if (s.chance(0.3)) v->setGlobalPose(f4(pose(s, 500)));   // the pose isn't part of the model
            fs::path sub = dir / (s.chance(0.5) ? "" : "x/y");
            c.check(v->saveModel(sub.string(), name), "save", "saveModel failed");
            if (fs::exists(file)) fs::remove(file);
            VisualizationNodePtr r = f->getVisualizationFromFile((sub / name).string());
            std::string e = different(mesh(r), want, tol + 0.05 + 1e-3 * extent(want), true);   // Coin writes small angles with an error of 1e-3
            c.check(e.empty(), "saved", "after saving as " + name + ": " + e);
            c.label(iv ? "saved as inventor" : "saved as vrml");
        }
        c.nontrivial(o.depth > 0 || o.tri.size() > 2);
        fs::remove_all(dir);
    }
    void stl(Src& s, pbt::Ctx& c)
    {
        auto f = factory();
        fs::path dir = fs::path(pbt::scratch()) / "vis";
        fs::remove_all(dir);
        fs::create_directories(dir);
        auto t = randomSoup(s, 8, 200);
        for (auto& x : t) for (auto& q : x) q = d3(f3(q * 0.001));
        V3 sc(1, 1, 1);
        if (s.chance(0.5)) sc = V3(fl(s.uniform(0.2, 4)), fl(s.uniform(0.2, 4)), fl(s.uniform(0.2, 4)));
        if (s.chance(0.2)) sc[(int)s.draw(3)] *= -1;
        bool bb = s.chance(0.3);
        std::string ext = s.pick(std::vector<std::string>{".stl", ".STL", ".Stl", ".stla"});
        std::string file = (dir / ("m" + ext)).string();
        {
            std::ofstream out(file);
            out << "solid m\n";
            for (auto& x : t)
            {
                V3 n = (x[1] - x[0]).cross(x[2] - x[0]).normalized();
                out << "facet normal " << v9(n) << "\nouter loop\n";
                for (auto& q : x) out << "vertex " << v9(q) << "\n";
                out << "endloop\nendfacet\n";
            }
            out << "endsolid m\n";
        }
        std::vector<Tri> want;
        for (auto& x : t)
        {
            Tri y;
            for (int i = 0; i < 3; i++) y[i] = x[i].cwiseProduct(sc) * 1000;
            want.push_back(y);
        }
        c.describe("stl " + std::to_string(t.size()) + " triangles, scale " + str(sc.transpose()) + (bb ? ", bounding box" : ""));
        VisualizationNodePtr v = f->getVisualizationFromFile(file, bb, (float)sc[0], (float)sc[1], (float)sc[2]);
        sameOrBox(c, v, want, bb, false, "stl", 0.01 + 2e-5 * extent(want));
        c.check(v->getFilename() == file && v->usedBoundingBoxVisu() == bb, "filename", "file name");
        // what can't be loaded gives no geometry
        std::string gone = (dir / s.pick(std::vector<std::string>{"none.iv", "none.wrl", "none.stl", "none"})).string();
        VisualizationNodePtr none = f->getVisualizationFromFile(gone, bb);
        c.check(!none || draw(none).tri.empty(), "missing", "geometry from a missing file");
        c.check(!fs::exists(gone), "missingCreated", "a missing file was created");
        // a model that can't be written is reported
        if (s.chance(0.3))
        {
            fs::create_directories(dir / "dir.iv");
            c.check(!v->saveModel(dir.string(), "dir.iv"), "saveFailed", "saveModel to a directory's name claims success");
        }
        c.nontrivial(t.size() > 1);
        fs::remove_all(dir);
    }

    // ---------------------------------------------------------------- robots
    void robots(Src& s, pbt::Ctx& c)
    {
        RobotOpts o;
        o.models = true;
        o.maxNodes = 6;
        o.minNodes = 2;
        int t = (int)s.draw(3);
        if (t == 2) o.maxNodes = 3;
        RobotSpec sp = robotSpec(s, o);
        for (auto& n : sp.n)
        {
            for (auto& p : n.col) p.kind = 0;
            for (auto& p : n.vis) p.kind = 0;
        }
        static const SceneObject::VisualizationType types[] = {SceneObject::Full, SceneObject::Collision, SceneObject::CollisionData};
        SceneObject::VisualizationType type = types[t];
        c.label(t == 0 ? "full" : t == 1 ? "collision" : "collision data");
        struct Bot
        {
            RobotPtr r;
            boost::shared_ptr<CoinVisualization> v;
            std::vector<double> q;
            M4 base = M4::Identity();
            bool show = true;
            double margin = 0;
        };
        std::vector<Bot> bots(1);
        bots[0].r = fromXML(sp);
        c.check((bool)bots[0].r, "load", "robot not loaded");
        std::string desc = sp.summary();
        c.describe(desc);
        bots[0].q = readQ(sp, bots[0].r);
        bots[0].v = bots[0].r->getVisualization<CoinVisualization>(type);
        auto js = sp.joints();
        int steps = (int)s.integer(1, 7), moved = 0;
        for (int k = 0; k < steps; k++)
        {
            Bot& b = bots[s.draw(bots.size())];
            switch (s.weighted({5, 3, 1, 1, 1, 1}))
            {
                case 0:
                {
                    std::map<std::string, float> m;
                    for (int j : js) if (s.chance(0.7)) m[sp.n[j].name] = (float)randomQ(s, sp.n[j]);
                    b.r->setJointValues(m);
                    b.q = readQ(sp, b.r);
                    desc += "; move";
                    moved++;
                    break;
                }
                case 1:
                    b.base = fl4(pose(s, 1000));
                    b.r->setGlobalPose(f4(b.base));
                    desc += "; place";
                    moved++;
                    break;
                case 2:
                {
                    if (bots.size() > 2) break;
                    Bot n = b;
                    n.r = b.r->clone("clone" + std::to_string(bots.size()));
                    n.r->setGlobalPose(f4(n.base));
                    n.v = n.r->getVisualization<CoinVisualization>(type);
                    if (t == 0 && !n.show) n.r->setupVisualization(false, true);
                    desc += "; clone";
                    c.label("clone");
                    bots.push_back(n);
                    break;
                }
                case 3:
                    if (t) break;
                    b.show = s.chance(0.5);
                    b.r->setupVisualization(b.show, true);
                    desc += "; setup";
                    break;
                case 4:
                    // moved while updates are off, then brought up to date
                    b.r->setUpdateVisualization(false);
                    b.base = fl4(pose(s, 1000));
                    b.r->setGlobalPose(f4(b.base));
                    b.r->setUpdateVisualization(true);
                    b.r->setGlobalPose(f4(b.base));
                    desc += "; paused";
                    break;
                default:
                    if (t == 0 || !s.chance(0.5)) break;
                    b.margin = s.uniform(1, 20);
                    for (auto& n : b.r->getRobotNodes()) if (n->getCollisionModel()) n->getCollisionModel()->inflateModel((float)b.margin);
                    b.v = b.r->getVisualization<CoinVisualization>(type);
                    desc += "; inflate";
                    c.label("inflated");
            }
            c.describe(desc);
            for (auto& x : bots)
            {
                auto T = sp.fk(x.base, x.q);
                std::vector<Tri> want;
                int faces = 0;
                for (size_t i = 0; i < sp.n.size(); i++)
                {
                    RobotNodePtr n = x.r->getRobotNode(sp.n[i].name);
                    auto& ps = t == 0 ? sp.n[i].vis : sp.n[i].col;
                    VisualizationNodePtr v = n->getVisualization(t == 0 ? SceneObject::Full : SceneObject::Collision);
                    if (ps.empty()) { c.check(!v || mesh(v).empty(), "phantom", "node " + sp.n[i].name + " without a model shows one"); continue; }
                    c.check((bool)v, "lost", "node " + sp.n[i].name + " has lost its model");
                    auto m = mesh(v);
                    c.check(m.size() == 12 * ps.size(), "count", std::to_string(m.size()) + " triangles");
                    if (x.margin == 0)
                    {
                        // the boxes, each relative to the one before
                        std::vector<V3> corners;
                        M4 cur = M4::Identity();
                        for (size_t k2 = 0; k2 < ps.size(); k2++)
                        {
                            cur = cur * fl4(ps[k2].t);
                            for (auto& ct : cuboid(V3(ps[k2].a, ps[k2].b, ps[k2].c) / 2)) corners.push_back((cur * ct)[0]);
                        }
                        for (auto& tr : m)
                            for (auto& q : tr)
                            {
                                double d = 1e30;
                                for (auto& e : corners) d = std::min(d, (e - q).norm());
                                c.checkf(d < 0.05, "box", [&](std::ostream& os) { os << "a corner of node " << sp.n[i].name << " is " << d << " mm off"; });
                            }
                    }
                    for (auto& tr : m) want.push_back(T[i] * tr);
                    faces += (int)m.size();
                }
                if (!x.show) want.clear();
                double tol = 0.05 + 3e-5 * (extent(want) + sp.reach());
                bool selectable = s.chance(0.5);
                Drawn d = draw(x.v->getCoinVisualization(selectable));
                std::string e = different(d.tri, want, tol, false, t == 2);
                c.check(e.empty(), "robot", "drawn robot after" + desc + ": " + e);
                if (t == 2 && want.empty()) c.check(d.tri.empty(), "robotEmpty", "something is drawn");
                if (t < 2) c.check(x.v->getNumFaces() == faces, "numFaces", "getNumFaces() = " + std::to_string(x.v->getNumFaces()));
                if (t == 0) c.check(x.r->getNumFaces(false) == faces, "robotFaces", "Robot::getNumFaces()");
                if (s.chance(0.1))
                {
                    V3 col(fl(s.draw(5) / 4.0), fl(s.draw(5) / 4.0), fl(s.draw(5) / 4.0));
                    auto v2 = x.r->getVisualization<CoinVisualization>(type);
                    if (s.chance(0.5)) v2->getCoinVisualization(selectable);
                    v2->colorize(VisualizationFactory::Color((float)col[0], (float)col[1], (float)col[2]));
                    Drawn dc = draw(v2->getCoinVisualization(selectable));
                    c.check(dc.tri.size() == d.tri.size(), "colorizedGeometry", "colorized robot has other geometry");
                    for (auto& q : dc.colour) c.checkf((q - col).norm() < 1e-4, "colorized", [&](std::ostream& os) { os << "colour " << str(q.transpose()) << " instead of " << str(col.transpose()); });
                    v2->colorize(VisualizationFactory::Color::None());
                    Drawn d0 = draw(v2->getCoinVisualization(selectable));
                    for (size_t q = 0; q < d0.colour.size() && q < d.colour.size(); q++) c.check((d0.colour[q] - d.colour[q]).norm() < 1e-4, "uncolorized", "the original colours don't come back");
                    // only the transparency
                    double tr = s.chance(0.2) ? -0.5 : s.draw(4) / 4.0;
                    v2->setTransparency((float)tr);
                    Drawn dt = draw(v2->getCoinVisualization(selectable));
                    c.check(dt.tri.size() == d.tri.size(), "transparentGeometry", "transparent robot has other geometry");
                    for (size_t q = 0; q < dt.colour.size() && q < d.colour.size(); q++)
                    {
                        c.check((dt.colour[q] - d.colour[q]).norm() < 1e-4, "transparentColour", "setting the transparency changes the colour from " + str(d.colour[q].transpose()) + " to " + str(dt.colour[q].transpose()));
                        c.near(dt.clear[q], std::max(0.0, tr), 1e-4, "transparency", "transparency");
                    }
                    v2->colorize(VisualizationFactory::Color::None());
                    Drawn dn = draw(v2->getCoinVisualization(selectable));
                    for (size_t q = 0; q < dn.clear.size() && q < d.clear.size(); q++) c.check(std::abs(dn.clear[q] - d.clear[q]) < 1e-4, "untransparent", "the original transparency doesn't come back");
                    VisualizationFactory::Color glass((float)col[0], (float)col[1], (float)col[2], 0.25f);
                    v2->colorize(glass);
                    Drawn dg = draw(v2->getCoinVisualization(selectable));
                    for (size_t q = 0; q < dg.colour.size(); q++) c.check((dg.colour[q] - col).norm() < 1e-4 && std::abs(dg.clear[q] - 0.25) < 1e-4, "glass", "colorized with a transparent colour: " + str(dg.colour[q].transpose()) + ", transparency " + num(dg.clear[q]));
                    c.label("colorize");
                }
            }
        }
        if (t == 0 && s.chance(0.3))
        {
            // export and load again
            Bot& b = bots[0];
            fs::path file = fs::path(pbt::scratch()) / "robot.wrl";
            Drawn d = draw(b.v->getCoinVisualization(s.chance(0.5)));
            b.v->exportToVRML2(file.string(), false);
            VisualizationNodePtr r = factory()->getVisualizationFromFile(file.string());
            std::string e = different(mesh(r), d.tri, 0.1 + 2e-3 * extent(d.tri), true);
            c.check(e.empty(), "export", "exported robot: " + e);
            fs::remove(file);
            c.label("export");
        }
        c.nontrivial(moved > 0 && js.size() > 0);
    }
}
int main(int argc, char** argv)
{
    pbt::Suite u;
    u.property = "P34";
    u.rule = "shapes; several primitives; histories that attach, clone, unite or displace; nested scenes";
    u.init = [] { initVR("P34"); };
    u.add("shapes", 20000, 300000, shapes);
    u.add("lines", 10000, 100000, lines);
    u.add("primitives", 10000, 100000, primitives);
    u.add("nodes", 20000, 300000, nodes);
    u.add("files", 12000, 100000, files);
    u.add("stl", 6000, 60000, stl);
    u.add("robots", 3000, 30000, robots);
    return pbt::run(argc, argv, u);
}
