// libs: VirtualRobot
// P35: visualizations of data (trajectories, maps, workspaces, grids, grasps, contacts, constraints, meshes) show exactly the data
#include "common/handgen.h"
#include "common/drawn.h"
#include <set>
#include <Eigen/LU>
#include <VirtualRobot/Grasping/Grasp.h>
#include <VirtualRobot/Grasping/GraspSet.h>
#include <VirtualRobot/IK/SupportPolygon.h>
#include <VirtualRobot/IK/constraints/BalanceConstraint.h>
#include <VirtualRobot/IK/constraints/PoseConstraint.h>
#include <VirtualRobot/IK/constraints/PositionConstraint.h>
#include <VirtualRobot/IK/constraints/TSRConstraint.h>
#include <VirtualRobot/MathTools.h>
#include <VirtualRobot/Trajectory.h>
#include <VirtualRobot/Visualization/ColorMap.h>
#include <VirtualRobot/Workspace/Reachability.h>
#include <VirtualRobot/Workspace/WorkspaceGrid.h>

namespace
{
    typedef CoinVisualizationFactory CVF;
    typedef VisualizationFactory::Color Colour;
    Drawn show(SoNode* n)
    {
        if (!n) return Drawn();
        n->ref();
        Drawn d = draw(n);
        n->unref();
        return d;
    }
    V3 rgb(const Colour& c) { return V3(c.r, c.g, c.b); }
    Colour colour(Src& s) { return Colour((float)(s.draw(5) / 4.0), (float)(s.draw(5) / 4.0), (float)(s.draw(5) / 4.0)); }
    ColorMap map(Src& s)
    {
        static const ColorMap::type t[] = {ColorMap::eHot, ColorMap::eIntensity, ColorMap::eRed, ColorMap::eGreen, ColorMap::eBlue, ColorMap::eHotAlpha, ColorMap::eRedAlpha};
        return ColorMap(t[s.draw(7)]);
    }

    // what is expected to be drawn: balls, boxes and given triangles, each with a colour (or any)
    struct Mark
    {
        M4 pose = M4::Identity();
        V3 half = V3::Zero();      // boxes
        double r = -1;             // balls
        std::vector<Tri> tri;      // others
        V3 colour = V3(-1, -1, -1);
        double clear = -1;
        std::string what;
        double tol = 0;
        bool has(const Tri& t) const
        {
            if (!tri.empty())
            {
                for (auto& w : tri)
                {
                    double d = 0;
                    for (int i = 0; i < 3; i++) d = std::max(d, (t[i] - w[i]).norm());
                    if (d <= tol) return true;
                }
                return false;
            }
            for (auto& v : t)
            {
                V3 p = pose.block<3, 3>(0, 0).transpose() * (v - trans(pose));
                if (r >= 0 ? std::abs(p.norm() - r) > tol : (p.cwiseAbs() - half).cwiseAbs().maxCoeff() > tol) return false;
            }
            return true;
        }
        double wantArea() const
        {
            if (!tri.empty()) return area(tri);
            if (r >= 0) return 4 * M_PI * r * r;
            return 8 * (half[0] * half[1] + half[1] * half[2] + half[0] * half[2]);
        }
    };
    Mark ball(const V3& p, double r, const V3& col)
    {
        Mark m;
        m.pose = mk(M3::Identity(), p);
        m.r = r;
        m.colour = col;
        m.tol = 1e-3 * r + 1e-5 * p.norm() + 1e-3;
        m.what = "ball of " + num(r) + " mm at " + str(p.transpose());
        return m;
    }
    Mark boxMark(const M4& p, const V3& half, const V3& col)
    {
        Mark m;
        m.pose = p;
        m.half = half;
        m.colour = col;
        m.tol = 1e-3 + 1e-5 * (trans(p).norm() + half.norm());
        m.what = "box of " + str(2 * half.transpose()) + " mm at " + str(trans(p).transpose());
        return m;
    }
    Mark others(const std::vector<Tri>& t, const V3& col, const std::string& what, double tol)
    {
        Mark m;
        m.tri = t;
        m.colour = col;
        m.what = what;
        m.tol = tol;
        return m;
    }
    // every mark is there in its colour, and nothing else is
    void expect(const pbt::Ctx& c, const Drawn& d, const std::vector<Mark>& want, const std::string& key)
    {
        std::vector<double> a(want.size(), 0);
        for (size_t k = 0; k < d.tri.size(); k++)
        {
            bool any = false;
            double ar = 0.5 * (d.tri[k][1] - d.tri[k][0]).cross(d.tri[k][2] - d.tri[k][0]).norm();
            for (size_t i = 0; i < want.size(); i++)
                if (want[i].has(d.tri[k]))
                {
                    any = true;
                    if ((want[i].colour[0] < 0 || (want[i].colour - d.colour[k]).norm() < 0.02) && (want[i].clear < 0 || std::abs(want[i].clear - d.clear[k]) < 0.01)) a[i] += ar;
                }
            if (!any)
            {
                std::string w;
                for (size_t i = 0; i < want.size() && i < 4; i++) w += "; expected " + want[i].what;
                c.fail(key + "Other", "something else is drawn: triangle " + str(d.tri[k][0].transpose()) + ", " + str(d.tri[k][1].transpose()) + ", " + str(d.tri[k][2].transpose()) + w);
            }
        }
        for (size_t i = 0; i < want.size(); i++)
        {
            double w = want[i].wantArea(), lo = want[i].r >= 0 ? 0.35 : 0.995;
            c.checkf(a[i] >= lo * w - 1e-6, key, [&](std::ostream& os_)
            {
                os_ << want[i].what << " is not drawn (completely";
                if (want[i].colour[0] >= 0) os_ << " in colour " << want[i].colour.transpose();
                os_ << "): area " << a[i] << " of " << w;
            });
        }
    }
    void lines(const pbt::Ctx& c, const Drawn& d, const std::vector<std::pair<V3, V3>>& want, const V3& col, const std::string& key)
    {
        c.check(d.line.size() == want.size(), key + "Count", std::to_string(d.line.size()) + " lines instead of " + std::to_string(want.size()));
        std::vector<char> used(want.size(), 0);
        for (size_t k = 0; k < d.line.size(); k++)
        {
            bool ok = false;
            for (size_t i = 0; i < want.size() && !ok; i++)
            {
                if (used[i]) continue;
                double tol = 1e-3 + 1e-5 * (want[i].first.norm() + want[i].second.norm());
                for (int f = 0; f < 2 && !ok; f++)
                    if ((d.line[k][f] - want[i].first).norm() < tol && (d.line[k][1 - f] - want[i].second).norm() < tol) { ok = true; used[i] = 1; }
            }
            c.checkf(ok, key, [&](std::ostream& os_) { os_ << "line from " << d.line[k][0].transpose() << " to " << d.line[k][1].transpose() << " does not belong to the data"; });
            if (col[0] >= 0) c.check((d.lineColour[k] - col).norm() < 0.02, key + "Colour", "a line is drawn in colour " + str(d.lineColour[k].transpose()) + " instead of " + str(col.transpose()));
        }
    }
    std::vector<Tri> moved(const M4& m, std::vector<Tri> t)
    {
        for (auto& x : t) x = m * x;
        return t;
    }

    // ---------------------------------------------------------------- maps
    void maps(Src& s, pbt::Ctx& c)
    {
        int nx = (int)s.integer(1, 6), ny = (int)s.integer(1, 6);
        Eigen::MatrixXf d(nx, ny);
        for (int a = 0; a < nx; a++) for (int b = 0; b < ny; b++) d(a, b) = s.chance(0.3) ? 0.0f : s.chance(0.1) ? 1.0f : (float)s.unit();
        double ex = fl(s.uniform(1, 200)), ey = fl(s.uniform(1, 200)), hz = fl(s.uniform(1, 500));
        bool zero = s.chance(0.4), ln = s.chance(0.5), height = s.chance(0.5);
        ColorMap cm = map(s);
        c.label(height ? "height map" : "2d map");
        c.describe(std::to_string(nx) + "x" + std::to_string(ny) + " cells of " + num(ex) + " x " + num(ey) + (zero ? " with zero cells" : ""));
        c.nontrivial(nx * ny > 1);
        Eigen::MatrixXf before = d;
        Drawn g = show(height ? CVF::Create2DHeightMap(d, (float)ex, (float)ey, (float)hz, cm, zero, ln) : CVF::Create2DMap(d, (float)ex, (float)ey, cm, zero, ln));
        c.check(before == d, "mapData", "the data have been changed");
        auto at = [&](double a, double b) { return V3((a + 0.5 - nx / 2.0) * ex, (b + 0.5 - ny / 2.0) * ey, 0); };
        std::vector<Mark> want;
        if (!height)
        {
            for (int a = 0; a < nx; a++) for (int b = 0; b < ny; b++)
                if (zero || d(a, b) > 0) want.push_back(boxMark(mk(M3::Identity(), at(a, b)), V3(ex / 2, ey / 2, 0.5), rgb(cm.getColor(d(a, b)))));
            expect(c, g, want, "map");
            return;
        }
        std::vector<std::pair<V3, V3>> outline;
        for (int a = 1; a < nx; a++) for (int b = 1; b < ny; b++)
        {
            V3 p[4] = {at(a - 1, b - 1), at(a, b - 1), at(a, b), at(a - 1, b)};
            p[0][2] = hz * d(a - 1, b - 1); p[1][2] = hz * d(a, b - 1); p[2][2] = hz * d(a, b); p[3][2] = hz * d(a - 1, b);
            float mean = (d(a - 1, b - 1) + d(a, b - 1) + d(a - 1, b) + d(a, b)) / 4.0f;
            if (!zero && mean <= 0) continue;
            for (int k = 0; k < 4; k++) outline.push_back({p[k], p[(k + 1) % 4]});
            // two triangles along either diagonal
            int n = 0;
            double flat = 0;
            for (size_t k = 0; k < g.tri.size(); k++)
            {
                bool mine = true;
                for (auto& v : g.tri[k])
                {
                    double best = 1e30;
                    for (auto& q : p) best = std::min(best, (v - q).norm());
                    mine = mine && best < 1e-3 + 1e-5 * v.norm();
                }
                if (!mine) continue;
                n++;
                V3 u = g.tri[k][1] - g.tri[k][0], w = g.tri[k][2] - g.tri[k][0];
                flat += 0.5 * std::abs(u[0] * w[1] - u[1] * w[0]);
                c.check((g.colour[k] - rgb(cm.getColor(mean))).norm() < 0.02, "heightColour", "a patch with mean " + num(mean) + " has colour " + str(g.colour[k].transpose()));
            }
            c.check(n == 2 && std::abs(flat / (ex * ey) - 1) < 1e-3, "height", "the patch between cells (" + std::to_string(a - 1) + "," + std::to_string(b - 1) + ") and (" + std::to_string(a) + "," + std::to_string(b) + ") is drawn with " + std::to_string(n) + " triangles of " + num(flat) + " mm^2");
        }
        c.check(g.tri.size() == outline.size() / 2, "heightOther", std::to_string(g.tri.size()) + " triangles for " + std::to_string(outline.size() / 4) + " patches");
        if (ln) lines(c, g, outline, V3(0, 0, 0), "heightLine");
    }

    // ---------------------------------------------------------------- grids and cuts
    void grids(Src& s, pbt::Ctx& c)
    {
        ColorMap cm = map(s);
        std::vector<Mark> want;
        Drawn g;
        if (s.chance(0.5))
        {
            c.label("grid");
            double st = fl(s.uniform(20, 150));
            float x0 = (float)s.real(-500, 500), y0 = (float)s.real(-500, 500), x1 = (float)(x0 + st * s.uniform(0.5, 5.5)), y1 = (float)(y0 + st * s.uniform(0.5, 5.5));
            WorkspaceGridPtr w(new WorkspaceGrid(x0, x1, y0, y1, (float)st));
            int nx, ny, mx = 0;
            w->getCells(nx, ny);
            w->getExtends(x0, x1, y0, y1);
            GraspPtr gr(new Grasp("g", "r", "e", Eigen::Matrix4f::Identity()));
            std::vector<std::vector<int>> e(nx, std::vector<int>(ny, 0));
            int n = (int)s.integer(0, 12);
            for (int k = 0; k < n; k++)
            {
                int a = (int)s.draw(nx), b = (int)s.draw(ny), v = (int)s.integer(1, 255);
                w->setCellEntry(a, b, v, gr);
                e[a][b] = std::max(e[a][b], v);  // (a grid keeps the highest value)
            }
            for (auto& r : e) for (int v : r) mx = std::max(mx, v);
            c.require(w->getMaxEntry() == mx);
            double cx = (x1 - (double)x0) / nx, cy = (y1 - (double)y0) / ny;
            for (int a = 0; a < nx; a++) for (int b = 0; b < ny; b++)
                if (e[a][b] > 0) want.push_back(boxMark(mk(M3::Identity(), V3(x0 + (a + 0.5) * cx, y0 + (b + 0.5) * cy, 0)), V3(cx / 2, cy / 2, 0.5), rgb(cm.getColor((float)e[a][b] / mx))));
            g = show(CVF::getCoinVisualization(w, cm, s.chance(0.5)));
            c.describe(std::to_string(nx) + "x" + std::to_string(ny) + " grid with " + std::to_string(want.size()) + " cells filled");
        }
        else
        {
            c.label("cut");
            WorkspaceRepresentation::WorkspaceCut2DPtr w(new WorkspaceRepresentation::WorkspaceCut2D());
            w->referenceGlobalPose = f4(pose(s, 1000));
            int nx = (int)s.integer(1, 6), ny = (int)s.integer(1, 6);
            w->entries.resize(nx, ny);
            for (int a = 0; a < nx; a++) for (int b = 0; b < ny; b++) w->entries(a, b) = s.chance(0.4) ? 0 : (int)s.integer(1, s.chance(0.5) ? 255 : 5000);
            double cell = s.uniform(5, 200);
            double x0 = fl(s.real(-600, 300)), y0 = fl(s.real(-600, 300));
            w->minBounds[0] = (float)x0; w->maxBounds[0] = (float)(x0 + nx * cell);
            w->minBounds[1] = (float)y0; w->maxBounds[1] = (float)(y0 + ny * cell);
            float maxEntry = s.chance(0.5) ? 0.0f : (float)s.integer(1, 6000), lo = -M_PI, hi = M_PI;
            if (s.chance(0.4)) { lo = (float)s.uniform(-3, 2); hi = (float)(lo + s.uniform(0, 3)); c.label("sector"); }
            double m = maxEntry == 0 ? std::max(1, w->entries.maxCoeff()) : maxEntry;
            bool vague = false;
            for (int a = 0; a < nx; a++) for (int b = 0; b < ny; b++)
            {
                double x = x0 + (a + 0.5) * cell, y = y0 + (b + 0.5) * cell, ang = std::atan2(y, x);
                if (w->entries(a, b) <= 0) continue;
                if (std::abs(ang - lo) < 1e-4 || std::abs(ang - hi) < 1e-4 || std::hypot(x, y) < 1e-2) vague = true;
                if (ang < lo || ang > hi) continue;
                want.push_back(boxMark(mk(M3::Identity(), V3(x, y, w->referenceGlobalPose(2, 3))), V3(cell / 2, cell / 2, 0.5), rgb(cm.getColor((float)std::min(1.0, w->entries(a, b) / m)))));
            }
            if (vague) c.discard();
            g = show(CVF::getCoinVisualization(w, cm, Eigen::Vector3f::UnitZ(), maxEntry, lo, hi));
            c.describe(std::to_string(nx) + "x" + std::to_string(ny) + " cut with " + std::to_string(want.size()) + " cells shown");
        }
        c.nontrivial(want.size() > 1);
        expect(c, g, want, "cell");
    }

    // ---------------------------------------------------------------- workspace data
    void workspaces(Src& s, pbt::Ctx& c)
    {
        RobotOpts o;
        o.minNodes = 3; o.maxNodes = 5; o.chain = true; o.span = 200; o.limitless = false;
        RobotSpec sp = robotSpec(s, o);
        sp.n[0].type = FIXED;
        sp.n[1].type = REV;
        if (sp.n[1].hi - sp.n[1].lo < 0.1) { sp.n[1].lo = -1; sp.n[1].hi = 1; }
        RobotPtr r = fromFactory(sp);
        std::vector<std::string> names;
        for (size_t i = 1; i < sp.n.size(); i++) if (sp.n[i].type != FIXED) names.push_back(sp.n[i].name);
        auto set = RobotNodeSet::createRobotNodeSet(r, "chain", names, sp.n[1].name, sp.n.back().name, true);
        r->setGlobalPose(f4(s.chance(0.7) ? fl4(pose(s, 500)) : M4::Identity()));
        RobotNodePtr base = s.chance(0.3) ? RobotNodePtr() : r->getRobotNode(sp.n[0].name);
        M4 B = base ? M4(d4(base->getGlobalPose())) : M4(M4::Identity());
        static const double full[3] = {2 * M_PI, 2 * M_PI, M_PI / 2};
        double st = s.uniform(30, 150), sr = s.uniform(0.4, 2);
        float mn[6], mx[6];
        for (int i = 0; i < 6; i++)
        {
            double ext = (i < 3 ? st : sr) * (s.draw(3) + s.uniform(0.1, 0.95));
            if (i < 3) mn[i] = (float)s.real(-500, 500);
            else { ext = std::min(ext, full[i - 3]); mn[i] = (float)s.uniform(0, full[i - 3] - ext); if (s.chance(0.3)) { mn[i] = 0; ext = full[i - 3]; } }
            mx[i] = (float)(mn[i] + ext);
        }
        ReachabilityPtr ws(new Reachability(r));
        ws->initialize(set, (float)st, (float)sr, mn, mx, SceneObjectSetPtr(), SceneObjectSetPtr(), base);
        int n[6];
        size_t total = 1;
        double sz[6];
        for (int i = 0; i < 6; i++) { n[i] = ws->getNumVoxels(i); total *= n[i]; sz[i] = (mx[i] - (double)mn[i]) / n[i]; }
        if (total > 3000) c.discard();
        typedef std::array<int, 3> P;
        std::map<P, std::map<P, int>> e;
        int k = (int)s.integer(0, 25);
        for (int i = 0; i < k; i++)
        {
            P a, b;
            for (int j = 0; j < 3; j++) { a[j] = (int)s.draw(n[j]); b[j] = (int)s.draw(n[3 + j]); }
            int v = (int)s.integer(1, s.chance(0.5) ? 5 : 255);
            unsigned x[6] = {(unsigned)a[0], (unsigned)a[1], (unsigned)a[2], (unsigned)b[0], (unsigned)b[1], (unsigned)b[2]};
            ws->setVoxelEntry(x, (unsigned char)v);
            e[a][b] = v;
        }
        ColorMap cm = map(s);
        bool global = s.chance(0.7);
        int mode = (int)s.draw(3);
        double cube = std::min(sz[0], std::min(sz[1], sz[2])), maxE = std::max(1, (int)ws->getMaxEntry());
        auto centre = [&](const P& p) { return V3(mn[0] + (p[0] + 0.5) * sz[0], mn[1] + (p[1] + 0.5) * sz[1], mn[2] + (p[2] + 0.5) * sz[2]); };
        auto hopf = [&](double a, double b, double t)
        {
            Eigen::Quaterniond q(cos((b - a) / 2) * cos(t), cos((a + b) / 2) * sin(t), sin((a + b) / 2) * sin(t), sin((b - a) / 2) * cos(t));
            return M3(q.normalized().toRotationMatrix());
        };
        V3 axis = s.chance(0.3) ? V3(0, 0, 1) : unit(s);
        float arrowSize = s.chance(0.5) ? 0.0f : (float)s.uniform(5, 100);
        double aw = arrowSize != 0 ? arrowSize : cube;
        std::vector<Mark> want;
        std::string at = std::to_string(n[0]) + "x" + std::to_string(n[1]) + "x" + std::to_string(n[2]) + " positions, " + std::to_string(e.size()) + " filled";
        c.nontrivial(!e.empty());
        if (mode == 0)
        {
            c.label("positions");
            std::map<P, int> sum;
            int best = 0;
            for (auto& p : e) { for (auto& q : p.second) sum[p.first] += q.second; best = std::max(best, sum[p.first]); }
            double zmax = 1e10;
            float lo = -M_PI, hi = M_PI;
            if (s.chance(0.3)) zmax = s.real(-800, 800);
            if (s.chance(0.3)) { lo = (float)s.uniform(-3, 2); hi = (float)(lo + s.uniform(0, 3)); }
            for (auto& p : sum)
            {
                V3 l = centre(p.first), g = global ? V3(rotOf(B) * l + trans(B)) : l;
                double ang = std::atan2(l[1], l[0]);
                if (std::abs(g[2] - zmax) < 0.05 || std::abs(ang - lo) < 1e-4 || std::abs(ang - hi) < 1e-4 || std::hypot(l[0], l[1]) < 1e-2) c.discard();
                if (g[2] > zmax || ang < lo || ang > hi) continue;
                Colour col = cm.getColor((float)p.second / best);
                want.push_back(ball(g, cube * 0.375, rgb(col)));
                want.back().clear = col.transparency;
            }
            c.describe(at);
            expect(c, show(CVF::getCoinVisualization(ws, cm, global, (float)zmax, lo, hi)), want, "reach");
            return;
        }
        auto arrow = [&](double len, double width) { return show(CVF::CreateArrow(f3(axis), (float)len, (float)width, Colour::None())).tri; };
        std::vector<Tri> A = mode == 1 ? arrow(aw * 0.7, aw / 25) : arrow(aw * 0.75, aw / 20);
        double tol = 0.02 + 1e-4 * (aw + 500);
        if (mode == 1)
        {
            c.label("best orientations");
            int best = (int)s.integer(1, 4);
            c.describe(at + ", best " + std::to_string(best));
            Drawn d = show(CVF::getCoinVisualization(ws, cm, f3(axis), global, (unsigned char)0, arrowSize, best));
            size_t count = 0;
            for (auto& p : e) count += std::min((size_t)best, p.second.size());
            c.check(d.tri.size() == count * A.size(), "bestCount", std::to_string(d.tri.size() / (double)A.size()) + " arrows instead of " + std::to_string(count));
            // each arrow is one entry; for each position the highest entries are shown
            std::map<P, std::multiset<int>> shown;
            std::set<std::pair<P, P>> used;
            for (size_t i = 0; i < count; i++)
            {
                bool ok = false;
                for (auto& p : e)
                {
                    V3 l = centre(p.first);
                    for (auto& q : p.second)
                    {
                        if (ok || used.count({p.first, q.first})) continue;
                        M4 T = mk(hopf(mn[3] + (q.first[0] + 0.5) * sz[3], mn[4] + (q.first[1] + 0.5) * sz[4], mn[5] + (q.first[2] + 0.5) * sz[5]), l);
                        if (global) T = B * T;
                        Colour col = cm.getColor((float)std::min(1.0, q.second / maxE));
                        bool same = (d.colour[i * A.size()] - rgb(col)).norm() < 0.02;
                        for (size_t t = 0; t < A.size() && same; t++)
                        {
                            Tri w = T * A[t];
                            for (int v = 0; v < 3; v++) same = same && (w[v] - d.tri[i * A.size() + t][v]).norm() < tol;
                        }
                        if (same) { ok = true; used.insert({p.first, q.first}); shown[p.first].insert(q.second); }
                    }
                }
                if (!ok) { c.fail("bestArrow", "an arrow near " + str(d.tri[i * A.size()][0].transpose()) + " (colour " + str(d.colour[i * A.size()].transpose()) + ") shows no entry of the data"); }
            }
            for (auto& p : e)
            {
                std::vector<int> v, w(shown[p.first].begin(), shown[p.first].end());
                for (auto& q : p.second) v.push_back(q.second);
                std::sort(v.rbegin(), v.rend());
                std::sort(w.rbegin(), w.rend());
                if ((int)v.size() > best) v.resize(best);
                c.check(v == w, "bestEntries", "position " + str(centre(p.first).transpose()) + ": not its " + std::to_string(best) + " best entries are shown");
            }
            return;
        }
        c.label("fixed orientation");
        V3 rpy(fl(s.uniform(-3, 3)), fl(s.uniform(-1.5, 1.5)), fl(s.uniform(-3, 3)));
        if (s.chance(0.5) && !e.empty())
        {
            // an orientation that some entry has
            auto& p = *e.begin();
            auto& q = *p.second.begin();
            M3 R = rotOf(B) * hopf(mn[3] + (q.first[0] + s.uniform(0.1, 0.9)) * sz[3], mn[4] + (q.first[1] + s.uniform(0.1, 0.9)) * sz[4], mn[5] + (q.first[2] + s.uniform(0.1, 0.9)) * sz[5]);
            rpy = V3(fl(std::atan2(R(2, 1), R(2, 2))), fl(std::asin(std::max(-1.0, std::min(1.0, -R(2, 0))))), fl(std::atan2(R(1, 0), R(0, 0))));
        }
        M3 R = (Eigen::AngleAxisd(rpy[2], V3::UnitZ()) * Eigen::AngleAxisd(rpy[1], V3::UnitY()) * Eigen::AngleAxisd(rpy[0], V3::UnitX())).toRotationMatrix();
        M3 L = rotOf(B).transpose() * R;
        Eigen::Quaterniond q(L);
        double a43 = std::atan2(q.z(), q.w()), a12 = std::atan2(q.y(), q.x()), x[3] = {a12 - a43, a43 + a12, std::asin(std::min(1.0, std::hypot(q.x(), q.y())))};
        for (int i : {0, 1}) { while (x[i] < 0) x[i] += 2 * M_PI; while (x[i] >= 2 * M_PI) x[i] -= 2 * M_PI; }
        if (x[2] < 0.02 || x[2] > M_PI / 2 - 0.02 || x[0] < 2e-3 || x[0] > 2 * M_PI - 2e-3 || x[1] < 2e-3 || x[1] > 2 * M_PI - 2e-3) c.discard();
        P v;
        bool in = true;
        for (int i = 0; i < 3; i++)
        {
            double p = (x[i] - mn[3 + i]) / sz[3 + i];
            if (std::abs(p - std::round(p)) < 3e-3 / sz[3 + i] + 1e-4) c.discard();
            // (half a voxel of tolerance at the border)
            if (p < 0 || p > n[3 + i]) { if (p > -0.51 && p < n[3 + i] + 0.51) c.discard(); in = false; }
            v[i] = (int)p;
        }
        int minV = s.chance(0.5) ? 0 : (int)s.integer(1, 100);
        if (in)
            for (auto& p : e)
            {
                auto it = p.second.find(v);
                if (it == p.second.end() || it->second < std::max(1, minV)) continue;
                M4 T = mk(L, centre(p.first));
                if (global) T = B * T;
                Colour col = cm.getColor((float)std::min(1.0, it->second / maxE));
                want.push_back(others(moved(T, A), rgb(col), "arrow for entry " + std::to_string(it->second) + " at " + str(trans(T).transpose()), tol));
            }
        else c.label("orientation outside");
        c.describe(at + ", " + std::to_string(want.size()) + " shown");
        expect(c, show(CVF::getCoinVisualization(ws, Eigen::Vector3f(f3(rpy)), cm, global, f3(axis), (unsigned char)minV, arrowSize)), want, "fixed");
    }

    // ---------------------------------------------------------------- trajectories
    void trajectories(Src& s, pbt::Ctx& c)
    {
        RobotOpts o;
        o.minNodes = 3; o.maxNodes = 6; o.chain = true; o.span = 300; o.limitless = false;
        RobotSpec sp = robotSpec(s, o);
        sp.n[1].type = REV;
        if (sp.n[1].hi - sp.n[1].lo < 0.1) { sp.n[1].lo = -1; sp.n[1].hi = 1; }
        RobotPtr r = fromFactory(sp);
        M4 B = fl4(pose(s, 500));
        r->setGlobalPose(f4(B));
        std::vector<std::string> names;
        std::vector<int> chain;
        for (size_t i = 0; i < sp.n.size(); i++) if (sp.n[i].type != FIXED) { names.push_back(sp.n[i].name); chain.push_back((int)i); }
        auto set = RobotNodeSet::createRobotNodeSet(r, "chain", names, sp.n[0].name, sp.n.back().name, true);
        for (auto& n : sp.n) if (!n.prop.empty()) c.discard();
        std::vector<double> q(sp.n.size(), 0);
        auto config = [&] { Eigen::VectorXf v((int)chain.size()); for (size_t k = 0; k < chain.size(); k++) v((int)k) = (float)(q[chain[k]] = randomQ(s, sp.n[chain[k]])); return v; };
        TrajectoryPtr t(new Trajectory(set, "t"));
        int n = (int)s.integer(0, 6);
        std::vector<Mark> want;
        std::vector<std::pair<V3, V3>> ln;
        Colour cn = colour(s), cl = colour(s);
        double size = s.uniform(1, 50);
        V3 last;
        for (int k = 0; k < n; k++)
        {
            t->addPoint(config());
            V3 p = trans(sp.fk(B, q).back());
            want.push_back(ball(p, size, rgb(cn)));
            if (k) ln.push_back({last, p});
            last = p;
        }
        set->setJointValues(config());
        std::vector<float> before = set->getJointValues();
        c.describe(std::to_string(n) + " points, " + std::to_string(chain.size()) + " joints");
        c.nontrivial(n > 1);
        Drawn d;
        if (s.chance(0.3)) d = draw(factory()->createTrajectory(t, cn, cl, (float)size, 2.0f));
        else d = show(CVF::getCoinVisualization(t, cn, cl, (float)size, 2.0f));
        c.check(before == set->getJointValues(), "trajectoryRobot", "the robot has been moved");
        c.check((int)t->getNrOfPoints() == n, "trajectoryPoints", "the trajectory has been changed");
        for (auto& m : want) m.tol += 1e-5 * sp.reach();
        expect(c, d, want, "trajectory");
        c.check(d.line.size() == ln.size(), "trajectoryLines", std::to_string(d.line.size()) + " lines for " + std::to_string(n) + " points");
        for (size_t k = 0; k < ln.size(); k++)
        {
            c.near((d.line[k][0] - ln[k].first).norm() + (d.line[k][1] - ln[k].second).norm(), 0, 0.01 + 2e-5 * (sp.reach() + 500), "trajectoryLine", "line " + std::to_string(k));
            c.check((d.lineColour[k] - rgb(cl)).norm() < 0.02, "trajectoryLineColour", "colour of line " + std::to_string(k));
        }
    }

    // ---------------------------------------------------------------- hands and grasps
    void grasps(Src& s, pbt::Ctx& c)
    {
        Hand h = hand(s, false, false);
        RobotPtr r = RobotIO::createRobotFromString(h.xml, "");
        r->setGlobalPose(f4(pose(s, 500)));
        for (auto& n : h.sp.n) if (n.type != FIXED && s.chance(0.7)) r->getRobotNode(n.name)->setJointValue((float)randomQ(s, n));
        EndEffectorPtr eef = r->getEndEffectors().at(0);
        c.describe(std::to_string(h.f.size()) + " fingers");
        c.nontrivial();
        std::map<std::string, float> q0 = r->getConfig()->getRobotNodeJointValueMap();
        M4 G0 = d4(r->getGlobalPose()), tcp = d4(eef->getTcp()->getGlobalPose());
        Drawn d = show(CVF::CreateEndEffectorVisualization(eef, SceneObject::Collision));
        std::vector<Tri> want;
        std::set<RobotNodePtr> nodes;
        for (int i : h.statics) nodes.insert(r->getRobotNode(h.sp.n[i].name));
        for (auto& f : h.f) for (int i : f.nodes) nodes.insert(r->getRobotNode(h.sp.n[i].name));
        for (auto& n : nodes)
            if (n->getCollisionModel())
                for (auto& t : mesh(n->getVisualization(SceneObject::Collision))) want.push_back((inv(tcp) * M4(d4(n->getGlobalPose()))) * t);
        double tol = 0.05;
        std::string e = different(d.tri, want, tol, true, true);
        c.check(e.empty(), "eef", "the end effector (relative to its TCP): " + e);
        c.check(r->getConfig()->getRobotNodeJointValueMap() == q0 && (d4(r->getGlobalPose()) - G0).norm() == 0, "eefRobot", "the robot has been moved");
        GraspSetPtr gs(new GraspSet("set", r->getType(), eef->getName()));
        int k = (int)s.integer(1, 3);
        std::vector<M4> T;
        for (int i = 0; i < k; i++)
        {
            T.push_back(fl4(pose(s, 200)));
            gs->addGrasp(GraspPtr(new Grasp("g" + std::to_string(i), r->getType(), eef->getName(), f4(T.back()))));
        }
        M4 O = s.chance(0.8) ? fl4(pose(s, 800)) : M4::Identity();
        std::vector<Tri> all;
        for (auto& t : T) for (auto& x : d.tri) all.push_back((O * inv(t)) * x);
        Drawn g;
        if (k == 1 && s.chance(0.7)) g = show(CVF::CreateGraspVisualization(gs->getGrasp(0), eef, f4(O), SceneObject::Collision));
        else g = show(CVF::CreateGraspSetVisualization(gs, eef, f4(O), SceneObject::Collision));
        c.label(k == 1 ? "grasp" : "grasp set");
        e = different(g.tri, all, 0.1, true);
        c.check(e.empty(), "grasp", "object at " + str(trans(O).transpose()) + ": " + e);
    }

    // ---------------------------------------------------------------- geometry data
    void geometry(Src& s, pbt::Ctx& c)
    {
        int kind = (int)s.draw(5);
        static const char* names[] = {"contact points", "contacts", "hull", "oriented box", "points"};
        c.label(names[kind]);
        c.nontrivial();
        if (kind == 0)
        {
            std::vector<MathTools::ContactPoint> pts;
            bool normals = s.chance(0.5);
            int n = (int)s.integer(0, 4);
            std::vector<Mark> want;
            for (int i = 0; i < n; i++)
            {
                MathTools::ContactPoint p;
                V3 a = vec(s, 500), b = unit(s);
                p.p = f3(a); p.n = f3(b);
                pts.push_back(p);
                want.push_back(ball(a, 10, V3(-1, -1, -1)));
                if (normals) want.push_back(others(moved(mk(M3::Identity(), a), show(CVF::CreateArrow(p.n)).tri), V3(-1, -1, -1), "normal at " + str(a.transpose()), 0.02));
            }
            c.describe(std::to_string(n) + " points");
            expect(c, show(CVF::CreatePointsVisualization(pts, normals)), want, "point");
        }
        else if (kind == 1)
        {
            EndEffector::ContactInfoVector v;
            int n = (int)s.integer(1, 3);
            double H = s.uniform(10, 60), R = s.uniform(5, 40);
            bool scale = s.chance(0.5);
            std::vector<Mark> balls;
            std::vector<std::array<V3, 2>> cones;
            std::vector<double> f;
            for (int i = 0; i < n; i++)
            {
                EndEffector::ContactInfo k;
                // (far apart, to tell the cones)
                V3 a = V3(1000.0 * i, 0, 0) + vec(s, 200), u = unit(s), b = a - u * s.uniform(1, 20);
                V3 ap = unit(s);
                if (ap.dot(u) < 0) ap = -ap;
                if (ap.dot(u) < 0.1) ap = u;
                k.contactPointObstacleGlobal = f3(a);
                k.contactPointFingerGlobal = f3(b);
                k.approachDirectionGlobal = f3(ap);
                v.push_back(k);
                u = (d3(k.contactPointObstacleGlobal) - d3(k.contactPointFingerGlobal)).normalized();
                balls.push_back(ball(a, 1, V3(1, 0, 0)));
                balls.push_back(ball(b, 1, V3(-1, -1, -1)));
                cones.push_back({a, u});
                f.push_back(scale ? u.dot(d3(k.approachDirectionGlobal)) : 1.0);
            }
            c.describe(std::to_string(n) + " contacts");
            Drawn d = show(CVF::getCoinVisualization(v, (float)H, (float)R, scale));
            Drawn rest;
            std::vector<double> lateral(n, 0);
            for (size_t t = 0; t < d.tri.size(); t++)
            {
                bool cone = false;
                for (int i = 0; i < n && !cone; i++)
                {
                    double h = H * f[i], r = R * f[i];
                    bool on = true;
                    for (auto& p : d.tri[t])
                    {
                        double z = -(p - cones[i][0]).dot(cones[i][1]), w = ((p - cones[i][0]) + z * cones[i][1]).norm();
                        on = on && z > -0.05 && z < h + 0.05 && (std::abs(w - r * z / h) < 0.05 || (std::abs(z - h) < 0.05 && w < r + 0.05));
                    }
                    if (on && (d.colour[t] - V3(0.2, 0.7, 0.2)).norm() < 0.02) { cone = true; lateral[i] += 0.5 * (d.tri[t][1] - d.tri[t][0]).cross(d.tri[t][2] - d.tri[t][0]).norm(); }
                }
                if (cone) continue;
                rest.tri.push_back(d.tri[t]);
                rest.colour.push_back(d.colour[t]);
                rest.clear.push_back(d.clear[t]);
            }
            for (auto& m : balls) m.tol += 0.01;
            expect(c, rest, balls, "contact");
            for (int i = 0; i < n; i++)
            {
                double h = H * f[i], r = R * f[i], A = M_PI * r * (r + std::hypot(r, h));
                c.check(lateral[i] > 0.85 * A && lateral[i] < 1.02 * A, "cone", "contact " + std::to_string(i) + ": its cone has area " + num(lateral[i]) + " instead of " + num(A));
            }
        }
        else if (kind == 2)
        {
            std::vector<Eigen::Vector2f> pts;
            int n = (int)s.integer(4, 12);
            for (int i = 0; i < n; i++) pts.push_back(Eigen::Vector2f((float)s.uniform(-200, 200), (float)s.uniform(-200, 200)));
            MathTools::ConvexHull2DPtr h = MathTools::createConvexHull2D(pts);
            c.require(h && h->vertices.size() >= 3);
            V3 nn = unit(s), p0 = vec(s, 300), off = s.chance(0.5) ? V3(V3::Zero()) : vec(s, 100);
            MathTools::Plane pl(f3(p0), f3(nn));
            Colour in = colour(s), li = colour(s);
            double A = 0;
            std::vector<V3> corner;
            for (size_t i = 0; i < h->vertices.size(); i++) corner.push_back(d3(MathTools::planePoint3D(h->vertices[i], pl)) + off);
            for (auto& g : h->segments)
            {
                auto a = h->vertices[g.id1].cast<double>(), b = h->vertices[g.id2].cast<double>();
                A += 0.5 * (a[0] * b[1] - a[1] * b[0]);
            }
            A = std::abs(A);
            c.describe(std::to_string(h->vertices.size()) + " corners, area " + num(A));
            Drawn d = show(CVF::CreateConvexHull2DVisualization(h, pl, in, li, 3.0f, f3(off)));
            c.near(area(d.tri), A, 0.5 + 2e-3 * A, "hullArea", "area of the hull");
            for (size_t k = 0; k < d.tri.size(); k++)
            {
                for (auto& v : d.tri[k])
                {
                    double best = 1e30;
                    for (auto& q : corner) best = std::min(best, (q - v).norm());
                    c.near(best, 0, 0.02, "hullCorner", "distance of a drawn corner to the hull");
                }
                c.check((d.colour[k] - rgb(in)).norm() < 0.02, "hullColour", "colour of the hull");
            }
            std::vector<std::pair<V3, V3>> ln;
            for (auto& g : h->segments) ln.push_back({corner[g.id1], corner[g.id2]});
            lines(c, d, ln, rgb(li), "hullLine");
        }
        else if (kind == 3)
        {
            V3 a = vec(s, 300), b = a + V3(s.uniform(0.1, 200), s.uniform(0.1, 200), s.uniform(0.1, 200));
            M4 G = fl4(pose(s, 500));
            MathTools::OOBB o(f3(a), f3(b), f4(G));
            Colour li = colour(s);
            c.describe("from " + str(a.transpose()) + " to " + str(b.transpose()));
            std::vector<std::pair<V3, V3>> ln;
            auto corner = [&](int i) { return V3(rotOf(G) * V3(i & 1 ? b[0] : a[0], i & 2 ? b[1] : a[1], i & 4 ? b[2] : a[2]) + trans(G)); };
            for (int i = 0; i < 8; i++) for (int k : {1, 2, 4}) if (!(i & k)) ln.push_back({corner(i), corner(i | k)});
            Drawn d = show(CVF::CreateOOBBVisualization(o, li));
            for (auto& l : d.line) for (auto& p : l) for (int i = 0; i < 8; i++) if ((p - corner(i)).norm() < 0.05) { p = corner(i); break; } // (rounding)
            lines(c, d, ln, rgb(li), "oobb");
            c.check(d.tri.empty(), "oobbOther", "triangles are drawn");
        }
        else
        {
            V3 p = vec(s, 500);
            double r = s.uniform(0.5, 50), t = s.draw(5) / 4.0;
            Colour col = colour(s);
            c.describe("ball of " + num(r) + " at " + str(p.transpose()));
            Mark m = ball(p, r, rgb(col));
            m.clear = t;
            expect(c, show(CVF::CreateVertexVisualization(f3(p), (float)r, (float)t, col.r, col.g, col.b)), {m}, "vertex");
        }
    }

    // ---------------------------------------------------------------- constraints
    void constraints(Src& s, pbt::Ctx& c)
    {
        RobotOpts o;
        o.minNodes = 2; o.maxNodes = 4; o.chain = true; o.span = 200; o.limitless = false;
        RobotSpec sp = robotSpec(s, o);
        sp.n[0].type = REV;
        RobotPtr r = fromFactory(sp);
        std::vector<std::string> names;
        for (auto& n : sp.n) if (n.type != FIXED) names.push_back(n.name);
        auto set = RobotNodeSet::createRobotNodeSet(r, "set", names, sp.n[0].name, sp.n.back().name, true);
        RobotNodePtr eef = r->getRobotNode(sp.n.back().name);
        Colour col = colour(s);
        int kind = (int)s.draw(5);
        static const char* nm[] = {"TSR", "pose", "position", "support polygon", "balance"};
        c.label(nm[kind]);
        c.nontrivial();
        M4 T = fl4(pose(s, 500));
        if (kind == 0)
        {
            Eigen::Matrix<float, 6, 2> b;
            b.setZero();
            V3 mid, half;
            for (int i = 0; i < 3; i++)
            {
                double lo = fl(s.uniform(-200, 100)), hi = fl(lo + s.uniform(1, 200));
                b(i, 0) = (float)lo; b(i, 1) = (float)hi;
                mid[i] = (lo + hi) / 2; half[i] = (hi - lo) / 2;
            }
            if (s.chance(0.2)) T.block<3, 3>(0, 0).setIdentity();
            c.describe("frame at " + str(trans(T).transpose()) + " box of " + str(2 * half.transpose()));
            TSRConstraintPtr t(new TSRConstraint(r, set, eef, f4(T), Eigen::Matrix4f::Identity(), b));
            Mark m = boxMark(T * mk(M3::Identity(), mid), half, rgb(col));
            m.tol += 0.05;
            expect(c, show(CVF::getCoinVisualization(t, col)), {m}, "tsr");
        }
        else if (kind == 1)
        {
            c.describe("target " + str(trans(T).transpose()));
            PoseConstraintPtr p(new PoseConstraint(r, set, eef, f4(T)));
            expect(c, show(CVF::getCoinVisualization(p, col)), {ball(trans(T), 50, rgb(col))}, "pose");
        }
        else if (kind == 2)
        {
            c.describe("target " + str(trans(T).transpose()));
            PositionConstraintPtr p(new PositionConstraint(r, set, eef, f3(trans(T))));
            expect(c, show(CVF::getCoinVisualization(p, col)), {ball(trans(T), 50, rgb(col))}, "position");
        }
        else
        {
            SceneObjectSetPtr feet(new SceneObjectSet("feet", CollisionCheckerPtr()));
            int n = (int)s.integer(1, 3);
            for (int i = 0; i < n; i++)
            {
                ObstaclePtr f = Obstacle::createBox((float)s.uniform(20, 200), (float)s.uniform(20, 200), 20.0f);
                f->setGlobalPose(f4(mk(Eigen::AngleAxisd(s.uniform(-3, 3), V3::UnitZ()).toRotationMatrix(), V3(s.uniform(-300, 300), s.uniform(-300, 300), s.chance(0.8) ? 10 : 100))));
                feet->addSceneObject(f);
            }
            SupportPolygonPtr p(new SupportPolygon(feet));
            MathTools::ConvexHull2DPtr h = p->updateSupportPolygon(5.0f);
            c.describe(std::to_string(n) + " feet, " + std::to_string(h ? h->vertices.size() : 0) + " corners");
            std::vector<Mark> balls;
            Drawn d;
            if (kind == 4 && h && h->vertices.size() >= 3)
            {
                auto rb = RobotNodeSet::createRobotNodeSet(r, "bodies", r->getRobotNodes(), RobotNodePtr(), RobotNodePtr(), true);
                for (auto& k : r->getRobotNodes()) k->setMass((float)s.uniform(0.1, 5));
                BalanceConstraintPtr b(new BalanceConstraint(r, set, rb, p, 0.1f, 0.5f, 5.0f, s.chance(0.5)));
                d = show(CVF::getCoinVisualization(b, col));
                h = p->getSupportPolygon2D();
                V3 cm = d3(rb->getCoM());
                balls = {ball(V3(cm[0], cm[1], 0), 10, V3(1, 0, 0)), ball(cm, 10, V3(1, 0, 0))};
            }
            else d = show(CVF::getCoinVisualization(p, col));
            if (!h || h->vertices.size() < 3) { c.label("no polygon"); c.check(d.tri.empty() || h, "noPolygon", "something is drawn"); return; }
            std::vector<std::pair<V3, V3>> ln;
            auto at = [&](int i) { return V3(h->vertices[i].x(), h->vertices[i].y(), 0); };
            for (auto& g : h->segments) ln.push_back({at(g.id1), at(g.id2)});
            lines(c, d, ln, rgb(col), "polygon");
            Eigen::Vector2f m = MathTools::getConvexHullCenter(h);
            balls.push_back(ball(V3(m.x(), m.y(), 0), 10, V3(-1, -1, -1)));
            expect(c, d, balls, "polygonCentre");
        }
    }

    // ---------------------------------------------------------------- meshes
    void meshes(Src& s, pbt::Ctx& c)
    {
        TriMeshModelPtr m(new TriMeshModel());
        int nv = (int)s.integer(3, 10), nf = (int)s.integer(1, 8), nc = (int)s.draw(4), nm = s.chance(0.5) ? 0 : (int)s.integer(1, 3);
        for (int i = 0; i < nv; i++) m->addVertex(f3(vec(s, 300)));
        for (int i = 0; i < nc; i++) m->addColor(colour(s));
        for (int i = 0; i < nm; i++)
        {
            VisualizationFactory::PhongMaterial p;
            p.ambient = p.diffuse = p.specular = p.emission = colour(s);
            p.shininess = 0.5f; p.transparency = 0;
            m->addMaterial(p);
        }
        Colour dflt = colour(s);
        bool normals = s.chance(0.4), showL = s.chance(0.4);
        std::vector<Mark> want;
        std::vector<std::pair<V3, V3>> ln;
        M4 T = s.chance(0.5) ? fl4(pose(s, 500)) : M4::Identity();
        bool posed = !T.isIdentity(0);
        Colour used = posed ? Colour::Gray() : dflt;
        std::vector<Tri> tris, arrows;
        std::vector<V3> cols;
        for (int i = 0; i < nf; i++)
        {
            MathTools::TriangleFace f;
            int a = (int)s.draw(nv), b = (int)s.draw(nv), d = (int)s.draw(nv);
            if (a == b || b == d || a == d) continue;
            f.set(a, b, d);
            V3 v[3] = {d3(m->vertices[a]), d3(m->vertices[b]), d3(m->vertices[d])};
            V3 nn = (v[1] - v[0]).cross(v[2] - v[0]);
            if (nn.norm() < 100) continue;
            nn.normalize();
            f.normal = f3(nn);
            V3 col = rgb(used);
            if (nc && s.chance(0.7)) { int k = (int)s.draw(nc); f.setColor(k, k, k); col = rgb(m->colors[k]); }
            else if (nc) c.label("face without colour");
            if (nm && s.chance(0.7)) { int k = (int)s.draw(nm); f.setMaterial(k); col = rgb(m->materials[k].diffuse); }
            m->addFace(f);
            tris.push_back(T * Tri{v[0], v[1], v[2]});
            cols.push_back(col);
            for (int k = 0; k < 3; k++) ln.push_back({tris.back()[k], tris.back()[(k + 1) % 3]});
            if (normals)
            {
                V3 ax = V3::UnitZ().cross(nn);
                if (ax.norm() < 0.02) c.discard();
                M3 R = Eigen::AngleAxisd(std::atan2(ax.norm(), nn[2]), ax.normalized()).toRotationMatrix();
                arrows = show(CVF::CreateArrow(Eigen::Vector3f(0, 0, 1), 30.0f, 1.5f)).tri;
                Mark k = others(moved(T * mk(R, (v[0] + v[1] + v[2]) / 3), arrows), V3(-1, -1, -1), "normal of a face", 0.05);
                // (the same up to a turn around the normal)
                want.push_back(k);
            }
        }
        c.require(!tris.empty());
        c.describe(std::to_string(tris.size()) + " faces, " + std::to_string(nc) + " colours, " + std::to_string(nm) + " materials");
        c.nontrivial();
        Drawn d;
        Eigen::Matrix4f Tf = f4(T);
        if (posed) d = draw(factory()->createTriMeshModelVisualization(m, normals, Tf, showL));
        else d = show(CVF::getCoinVisualization(m, normals, dflt, showL));
        // the faces come with their colours
        std::vector<char> seen(tris.size(), 0);
        Drawn rest;
        for (size_t k = 0; k < d.tri.size(); k++)
        {
            bool mine = false;
            for (size_t i = 0; i < tris.size() && !mine; i++)
                if (!seen[i] && different({d.tri[k]}, {tris[i]}, 0.02, true).empty() && (d.colour[k] - cols[i]).norm() < 0.02) seen[i] = mine = true;
            if (!mine) { rest.tri.push_back(d.tri[k]); rest.colour.push_back(d.colour[k]); rest.clear.push_back(d.clear[k]); }
        }
        for (size_t i = 0; i < tris.size(); i++) c.check(seen[i], "face", "face " + std::to_string(i) + " is not drawn in colour " + str(cols[i].transpose()));
        expect(c, rest, want, "meshNormal");
        if (showL)
        {
            for (auto& l : d.line) for (auto& p : l) for (auto& t : tris) for (auto& v : t) if ((p - v).norm() < 0.02) p = v; // (rounding)
            lines(c, d, ln, V3(0, 0, 0), "meshLine");
        }
    }
}

int main(int argc, char** argv)
{
    pbt::Suite u;
    u.property = "P35";
    u.rule = "the data have at least two marks to show (or, for single objects, always)";
    u.init = [] { initVR("P35"); };
    u.add("maps", 9000, 60000, maps);
    u.add("grids", 9000, 60000, grids);
    u.add("workspaces", 18000, 100000, workspaces);
    u.add("trajectories", 3000, 20000, trajectories);
    u.add("grasps", 2400, 10000, grasps);
    u.add("geometry", 12000, 60000, geometry);
    u.add("constraints", 12000, 60000, constraints);
    u.add("meshes", 12000, 60000, meshes);
    return pbt::run(argc, argv, u);
}
