// libs: VirtualRobot
// P14: voxelized workspace data (reachability, manipulability, grids) against a reference array
#include "common/robotgen.h"
#include <VirtualRobot/Workspace/Reachability.h>
#include <VirtualRobot/Workspace/Manipulability.h>
#include <VirtualRobot/Workspace/WorkspaceGrid.h>
#include <VirtualRobot/Workspace/WorkspaceDataArray.h>
#include <VirtualRobot/IK/PoseQualityMeasurement.h>
#include <VirtualRobot/Grasping/Grasp.h>
#include <VirtualRobot/Grasping/GraspSet.h>
#include <VirtualRobot/ManipulationObject.h>
#include <VirtualRobot/Obstacle.h>
#include <fstream>
using namespace VirtualRobot;
using namespace gen;

namespace
{
    typedef std::array<unsigned, 6> Vox;
    // Hopf coordinates (the default orientation encoding) to a rotation, in double
    M3 hopfRot(double a, double b, double t)
    {
        Eigen::Quaterniond q(cos((b - a) / 2) * cos(t), cos((a + b) / 2) * sin(t), sin((a + b) / 2) * sin(t), sin((b - a) / 2) * cos(t));
        return q.normalized().toRotationMatrix();
    }
    struct World
    {
        RobotSpec spec;
        RobotPtr r;
        RobotNodeSetPtr set;
        std::vector<int> chain;
        int tcp = 0, base = -1;
        std::vector<double> q;
        M4 place = M4::Identity();
        M4 baseG() const { return base < 0 ? M4::Identity() : spec.fk(place, q)[base]; }
        M4 tcpG() const { return spec.fk(place, q)[tcp]; }
        void apply() { r->setGlobalPose(f4(place)); for (size_t i = 0; i < spec.n.size(); i++) if (spec.n[i].type != FIXED) r->getRobotNode(spec.n[i].name)->setJointValue((float)q[i]); }
        void config(Src& s) { for (int i : chain) q[i] = randomQ(s, spec.n[i]); apply(); }
    };
    World world(Src& s, bool noBase = false)
    {
        World w;
        RobotOpts o;
        o.minNodes = 3; o.maxNodes = 6; o.chain = true; o.span = 200; o.limitless = false;
        w.spec = robotSpec(s, o);
        int n = (int)w.spec.n.size();
        // the node set covers the nodes from 1 on, node 0 may be the base
        w.spec.n[0].type = FIXED;
        w.spec.n[1].type = REV;
        if (w.spec.n[1].hi - w.spec.n[1].lo < 0.1) { w.spec.n[1].lo = -1; w.spec.n[1].hi = 1; }
        w.r = fromFactory(w.spec);
        w.tcp = n - 1;
        std::vector<std::string> names;
        for (int i = 1; i < n; i++) if (w.spec.n[i].type != FIXED) { w.chain.push_back(i); names.push_back(w.spec.n[i].name); }
        w.set = RobotNodeSet::createRobotNodeSet(w.r, "chain", names, w.spec.n[1].name, w.spec.n[w.tcp].name, true);
        w.base = noBase || s.chance(0.3) ? -1 : 0;
        w.q.assign(n, 0);
        w.place = s.chance(0.6) ? fl4(pose(s, 500)) : M4::Identity();
        w.config(s);
        return w;
    }

    struct Model
    {
        std::array<int, 6> n;
        double lo[6], hi[6];
        std::vector<int> e;
        bool adjust = true;
        int maxLo = 0, maxHi = 0;              // bounds for the stored maximum
        double aMin[6], aMax[6];
        int poses = 0;
        size_t at(const Vox& v) const { size_t k = 0; for (int i = 0; i < 6; i++) k = k * n[i] + v[i]; return k; }
        double size(int i) const { return (hi[i] - lo[i]) / n[i]; }
        template<class F> void each(F f) const
        {
            Vox v;
            for (v[0] = 0; (int)v[0] < n[0]; v[0]++) for (v[1] = 0; (int)v[1] < n[1]; v[1]++) for (v[2] = 0; (int)v[2] < n[2]; v[2]++)
                for (v[3] = 0; (int)v[3] < n[3]; v[3]++) for (v[4] = 0; (int)v[4] < n[4]; v[4]++) for (v[5] = 0; (int)v[5] < n[5]; v[5]++) f(v);
        }
        int max() const { return *std::max_element(e.begin(), e.end()); }
        int filled() const { return (int)(e.size() - std::count(e.begin(), e.end(), 0)); }
        void set(const Vox& v, int x) { e[at(v)] = x; maxHi = std::max(maxHi, x); }
        void seen(const double* x) { for (int i = 0; i < 6; i++) { aMin[i] = std::min(aMin[i], x[i]); aMax[i] = std::max(aMax[i], x[i]); } poses++; }
        void forget() { for (int i = 0; i < 6; i++) { aMin[i] = 1e30; aMax[i] = -1e30; } poses = 0; }
        // sum over all orientations
        int sum(unsigned a, unsigned b, unsigned c, int* mx = nullptr) const
        {
            int s = 0, m = 0;
            size_t rot = (size_t)n[3] * n[4] * n[5], o = ((size_t)(a * n[1] + b) * n[2] + c) * rot;
            for (size_t k = 0; k < rot; k++) { s += e[o + k]; m = std::max(m, e[o + k]); }
            if (mx) *mx = m;
            return s;
        }
    };
    const double FULL[3] = {2 * M_PI, 2 * M_PI, M_PI / 2};
    // random bounds and steps; the representation is initialized and mirrored
    Model setup(Src& s, World& w, WorkspaceRepresentation& ws, const pbt::Ctx& c, int maxN = 3, bool around = false)
    {
        Model m;
        double st = s.pick(std::vector<double>{10, 50, 37.5, 200}), sr = s.pick(std::vector<double>{M_PI / 6, M_PI / 2, 0.4, 3});
        if (around) st = w.spec.reach() * s.uniform(0.8, 1.5);
        float mn[6], mx[6];
        for (int i = 0; i < 6; i++)
        {
            double step = i < 3 ? st : sr;
            double ext = step * ((double)s.draw(maxN) + s.pick(std::vector<double>{0, 0.5, 0.9, 0.1}));
            if (ext <= 0) ext = step * 0.7;
            if (i >= 3)
            {
                double full = FULL[i - 3];
                if (ext >= full || around) { mn[i] = (float)-1e-3; mx[i] = (float)(full + 1e-3); }
                else { mn[i] = (float)s.uniform(0, full - ext); mx[i] = (float)(mn[i] + ext); }
            }
            else if (around)
            {
                double R = w.spec.reach() * 1.05 + (w.base < 0 ? trans(w.place).norm() : 0);
                mn[i] = (float)-R; mx[i] = (float)R;
            }
            else { mn[i] = (float)s.real(-500, 500); mx[i] = (float)(mn[i] + ext); }
        }
        if (around) sr = s.pick(std::vector<double>{1.0, 2.0, 7.0});
        m.adjust = !s.chance(0.3);
        ws.initialize(w.set, (float)st, (float)sr, mn, mx, SceneObjectSetPtr(), SceneObjectSetPtr(), w.base < 0 ? RobotNodePtr() : w.r->getRobotNode(w.spec.n[w.base].name), RobotNodePtr(), m.adjust);
        size_t total = 1;
        for (int i = 0; i < 6; i++)
        {
            m.lo[i] = mn[i]; m.hi[i] = mx[i];
            double k = (m.hi[i] - m.lo[i]) / (double)(float)(i < 3 ? st : sr);
            m.n[i] = ws.getNumVoxels(i);
            c.check(m.n[i] == (int)(k * (1 + 1e-5)) + 1 || m.n[i] == (int)(k * (1 - 1e-5)) + 1, "num-voxels", "dimension " + std::to_string(i) + " has " + std::to_string(m.n[i]) + " voxels for " + num(k) + " steps");
            total *= m.n[i];
        }
        if (total > 6000) c.discard();
        m.e.assign(total, 0);
        m.forget();
        return m;
    }
    // a vector well inside voxel v
    void inside(Src& s, const Model& m, const Vox& v, double* x)
    {
        for (int i = 0; i < 6; i++) x[i] = m.lo[i] + (v[i] + s.uniform(0.08, 0.92)) * m.size(i);
    }
    bool usable(const Model& m, const double* x)   // a valid, regular orientation that float rounding does not move to another voxel
    {
        if (x[3] < 1e-3 || x[3] > 2 * M_PI - 1e-3 || x[4] < 1e-3 || x[4] > 2 * M_PI - 1e-3 || x[5] < 0.02 || x[5] > M_PI / 2 - 0.02) return false;
        return true;
    }
    M4 poseOf(const World& w, const double* x) { return w.baseG() * mk(hopfRot(x[3], x[4], x[5]), V3(x[0], x[1], x[2])); }
    Vox anyVox(Src& s, const Model& m) { Vox v; for (int i = 0; i < 6; i++) v[i] = (unsigned)s.draw(m.n[i]); return v; }
    std::string vs(const Vox& v) { std::string r; for (unsigned i : v) r += (r.empty() ? "(" : ",") + std::to_string(i); return r + ")"; }
    // double vector of a pose (base frame); false if near a singular orientation or voxel border
    bool vecOf(const World& w, const Model& m, const M4& g, double* x, Vox* v, bool* in)
    {
        M4 l = inv(w.baseG()) * g;
        Eigen::Quaterniond q(rotOf(l));
        double a43 = std::atan2(q.z(), q.w()), a12 = std::atan2(q.y(), q.x());
        double pxy = std::hypot(q.x(), q.y());
        x[0] = l(0, 3); x[1] = l(1, 3); x[2] = l(2, 3);
        x[3] = a12 - a43; x[4] = a43 + a12; x[5] = std::asin(std::min(1.0, pxy));
        for (int i : {3, 4}) { while (x[i] < 0) x[i] += 2 * M_PI; while (x[i] >= 2 * M_PI) x[i] -= 2 * M_PI; }
        if (!usable(m, x)) return false;
        *in = true;
        for (int i = 0; i < 6; i++)
        {
            double p = (x[i] - m.lo[i]) / m.size(i), tol = i < 3 ? 0.01 / m.size(i) + 1e-4 : 2e-3 / m.size(i) + 1e-4;
            if (std::fabs(p - std::round(p)) < tol) return false;
            if (p < 0 || p > m.n[i]) { if (p > -0.51 && p < m.n[i] + 0.51) return false; *in = false; continue; }
            (*v)[i] = (unsigned)p;
        }
        return true;
    }

    void compare(const pbt::Ctx& c, WorkspaceRepresentation& ws, const Model& m, const std::string& when)
    {
        m.each([&](const Vox& v)
        {
            int got = ws.getVoxelEntry(v[0], v[1], v[2], v[3], v[4], v[5]);
            if (got != m.e[m.at(v)]) c.fail("entry", when + ": entry of voxel " + vs(v) + " is " + std::to_string(got) + " instead of " + std::to_string(m.e[m.at(v)]));
        });
        c.check(!ws.getVoxelEntry(m.n[0], 0, 0, 0, 0, 0) && !ws.getVoxelEntry(0, 0, 0, 0, 0, m.n[5]), "entry-outside", when + ": entry beyond the grid");
        c.check(ws.getMaxEntry() >= m.max() && ws.getMaxEntry() <= std::max(m.maxHi, m.max()), "max", when + ": maximum entry " + std::to_string(ws.getMaxEntry()) + ", entries have " + std::to_string(m.max()));
        c.check((int)ws.getData()->getVoxelFilledCount() == m.filled(), "filled", when + ": filled voxels " + std::to_string(ws.getData()->getVoxelFilledCount()) + " instead of " + std::to_string(m.filled()));
        int best = 0, cells = 0, border1 = 0, border2 = 0;
        for (int a = 0; a < m.n[0]; a++) for (int b = 0; b < m.n[1]; b++) for (int d = 0; d < m.n[2]; d++)
        {
            int mx, sum = m.sum(a, b, d, &mx), rot = m.n[3] * m.n[4] * m.n[5];
            best = std::max(best, sum);
            std::string at = when + ": position (" + std::to_string(a) + "," + std::to_string(b) + "," + std::to_string(d) + ")";
            c.check(ws.sumAngleReachabilities(a, b, d) == sum, "sum", at + ": sum over orientations");
            c.check(ws.avgAngleReachabilities(a, b, d) == sum / rot, "avg", at + ": average over orientations");
            c.check(ws.getMaxEntry(a, b, d) == mx, "max3d", at + ": maximum over orientations");
            c.check(ws.hasEntry(a, b, d) == (mx > 0), "has-entry", at + ": hasEntry");
            if (mx > 0)
            {
                cells++;
                if (a == 0 || b == 0 || d == 0 || a == m.n[0] - 1 || b == m.n[1] - 1 || d == m.n[2] - 1) { border1++; border2++; }
                else
                {
                    int em = !m.sum(a - 1, b, d) + !m.sum(a + 1, b, d) + !m.sum(a, b - 1, d) + !m.sum(a, b + 1, d) + !m.sum(a, b, d - 1) + !m.sum(a, b, d + 1);
                    border1 += em >= 1;
                    border2 += em >= 2;
                }
            }
        }
        c.check(ws.getMaxSummedAngleReachablity() == best, "max-sum", when + ": largest sum over orientations");
        auto arr = boost::dynamic_pointer_cast<WorkspaceDataArray>(ws.getData());
        if (arr) c.check(arr->getMaxSummedAngleReachablity() == best, "max-sum-data", when + ": largest sum over orientations of the data");
        auto vi = ws.computeVolumeInformation();
        double vol = m.size(0) * m.size(1) * m.size(2) * 1e-9;
        c.check((int)vi.voxelCount3D == m.n[0] * m.n[1] * m.n[2] && (int)vi.filledVoxelCount3D == cells, "volume-counts", when + ": 3d voxel counts");
        c.check((int)vi.borderVoxelCount3D >= border2 && (int)vi.borderVoxelCount3D <= border1, "border", when + ": border voxels " + std::to_string(vi.borderVoxelCount3D) + " not in " + std::to_string(border2) + ".." + std::to_string(border1));
        c.near(vi.volumeVoxel3D / vol, 1, 1e-4, "volume", when + ": voxel volume relative to the voxel size");
        c.near(vi.volumeFilledVoxels3D / vol, cells, 1e-4 * (cells + 1), "volume", when + ": filled volume in voxels");
        c.near(vi.volume3D / vol, cells - 0.5 * vi.borderVoxelCount3D, 1e-4 * (cells + 1), "volume", when + ": volume in voxels");
    }
    void frame(const pbt::Ctx& c, World& w, WorkspaceRepresentation& ws, const Model& m, const std::string& when)
    {
        for (int i = 0; i < 6; i++)
        {
            c.check(ws.getNumVoxels(i) == m.n[i], "num-voxels", when + ": number of voxels");
            c.near(ws.getMinBound(i), m.lo[i], 0, "bounds", when + ": lower bound");
            c.near(ws.getMaxBound(i), m.hi[i], 0, "bounds", when + ": upper bound");
            c.near(ws.getVoxelSize(i), m.size(i), 1e-5 * (m.size(i) + 1e-3 * std::fabs(m.lo[i])), "voxel-size", when + ": voxel size");
        }
        c.check(ws.getVoxelSize(6) == 0 && ws.getVoxelSize(-1) == 0, "voxel-size", when + ": size of a dimension that does not exist");
        c.check(ws.getBaseNode() == (w.base < 0 ? RobotNodePtr() : w.r->getRobotNode(w.spec.n[w.base].name)), "base-node", when + ": base node is " + (ws.getBaseNode() ? ws.getBaseNode()->getName() : std::string("not set")));
        c.check(ws.getTCP() && ws.getTCP()->getName() == w.spec.n[w.tcp].name, "tcp", when + ": tcp");
        c.check(ws.getNodeSet() && ws.getNodeSet()->getName() == "chain", "node-set", when + ": node set");
        // extents and oriented box
        M4 B = w.baseG();
        V3 lo(1e30, 1e30, 1e30), hi = -lo;
        for (int k = 0; k < 8; k++)
        {
            V3 p(k & 1 ? m.hi[0] : m.lo[0], k & 2 ? m.hi[1] : m.lo[1], k & 4 ? m.hi[2] : m.lo[2]);
            p = rotOf(B) * p + trans(B);
            lo = lo.cwiseMin(p); hi = hi.cwiseMax(p);
        }
        Eigen::Vector3f a, b;
        ws.getWorkspaceExtends(a, b);
        c.near((a.cast<double>() - lo).norm(), 0, 0.02, "extends", when + ": lower workspace extents");
        c.near((b.cast<double>() - hi).norm(), 0, 0.02, "extends", when + ": upper workspace extents");
        for (bool ach : {false, true})
        {
            if (ach && !m.poses) continue;
            MathTools::OOBB o = ws.getOOBB(ach);
            c.near((d4(o.pose) - B).norm(), 0, 0.02, "oobb", when + ": pose of the box");
            for (int i = 0; i < 3; i++)
            {
                c.near(o.minBB(i), ach ? m.aMin[i] : m.lo[i], 0.02, "oobb", when + ": lower corner of the box" + (ach ? " (achieved)" : ""));
                c.near(o.maxBB(i), ach ? m.aMax[i] : m.hi[i], 0.02, "oobb", when + ": upper corner of the box" + (ach ? " (achieved)" : ""));
            }
        }
    }
    std::string path(const char* n) { return pbt::scratch() + "/" + n; }

    void neighbors(Model& m, const Vox& v, int e, int r)
    {
        m.set(v, e);
        if (!r) return;
        m.each([&](const Vox& x) { for (int i = 0; i < 6; i++) if (std::abs((int)x[i] - (int)v[i]) > r) return; if (m.e[m.at(x)] < e) m.set(x, e); });
    }
    void halve(Model& m)
    {
        for (auto& x : m.e) if (x > 1) x = std::max(1, x / 2);
        m.maxHi = std::max(1, m.maxHi / 2);
    }
    void addOne(const pbt::Ctx& c, WorkspaceRepresentation& ws, Model& m, const Vox& v)
    {
        int& x = m.e[m.at(v)];
        if (x < 255) { m.set(v, x + 1); return; }
        if (!m.adjust) return;
        halve(m);
        int got = ws.getVoxelEntry(v[0], v[1], v[2], v[3], v[4], v[5]);
        c.check(got == 127 || got == 128, "overflow", "after an overflow the voxel has entry " + std::to_string(got));
        m.set(v, got);
    }

    void history(Src& s, pbt::Ctx& c)
    {
        World w = world(s);
        WorkspaceRepresentationPtr ws(new WorkspaceRepresentation(w.r));
        bool holes = s.chance(0.25);
        Model m = setup(s, w, *ws, c, holes ? 5 : 3);
        c.check(ws->getAdjustOnOverflow() == m.adjust, "adjust", "getAdjustOnOverflow");
        std::string h = w.spec.summary() + (w.base < 0 ? " global" : " base n0") + " grid";
        for (int i = 0; i < 6; i++) h += " " + std::to_string(m.n[i]);
        h += ";";
        compare(c, *ws, m, "initially");
        frame(c, w, *ws, m, "initially");
        int steps = (int)s.integer(3, 25), real = 0;
        for (int k = 0; k < steps; k++)
        {
            int op = s.weighted({5, 5, 4, 3, 2, 2, 1, 1, 1, 2, 2, 1, 2, 2});
            Vox v = anyVox(s, m);
            int e = s.pick(std::vector<int>{1, 2, 255, 200, (int)s.draw(256), 0});
            double x[6];
            inside(s, m, v, x);
            bool ok = usable(m, x);
            Eigen::Matrix4f g = f4(poseOf(w, x));
            unsigned vv[6];
            std::copy(v.begin(), v.end(), vv);
            std::string name;
            switch (op)
            {
                case 0:
                    name = "setVoxelEntry" + vs(v) + "=" + std::to_string(e);
                    ws->setVoxelEntry(vv, (unsigned char)e);
                    m.set(v, e);
                    c.check(ws->isCovered(vv) == (e > 0), "covered-voxel", "isCovered after " + name);
                    break;
                case 1:
                    if (!ok) continue;
                    name = "setEntry" + vs(v) + "=" + std::to_string(e);
                    ws->setEntry(g, (unsigned char)e);
                    m.set(v, e);
                    m.seen(x);
                    c.check(ws->getEntry(g) == e && ws->isCovered(g) == (e > 0), "entry-of-pose", "getEntry after " + name);
                    break;
                case 2:
                {
                    if (!ok) continue;
                    int rep = s.chance(0.2) ? 260 + (int)s.draw(40) : 1 + (int)s.draw(4);
                    name = std::to_string(rep) + " times addPose" + vs(v);
                    for (int i = 0; i < rep; i++) { ws->addPose(g); addOne(c, *ws, m, v); }
                    m.seen(x);
                    break;
                }
                case 3:
                {
                    if (!ok) continue;
                    int r = (int)s.draw(3);
                    if (!e) e = 3;
                    name = "setEntryCheckNeighbors" + vs(v) + "=" + std::to_string(e) + " range " + std::to_string(r);
                    ws->setEntryCheckNeighbors(g, (unsigned char)e, r);
                    neighbors(m, v, e, r);
                    m.seen(x);
                    break;
                }
                case 4: case 5:
                {
                    w.config(s);
                    bool in;
                    Vox t;
                    if (!vecOf(w, m, w.tcpG(), x, &t, &in)) continue;
                    int kind = (int)s.draw(3);
                    name = std::string(kind == 0 ? "setCurrentTCPPoseEntry" : kind == 1 ? "setCurrentTCPPoseEntryIfLower" : "addCurrentTCPPose") + (in ? vs(t) : " outside");
                    if (kind == 0) { ws->setCurrentTCPPoseEntry((unsigned char)e); if (in) m.set(t, e); }
                    else if (kind == 1) { ws->setCurrentTCPPoseEntryIfLower((unsigned char)e); if (in && m.e[m.at(t)] < e) m.set(t, e); }
                    else { ws->addCurrentTCPPose(); if (in) addOne(c, *ws, m, t); }
                    m.seen(x);
                    break;
                }
                case 6:
                    name = "binarize";
                    ws->binarize();
                    for (auto& y : m.e) y = std::min(y, 1);
                    m.maxHi = std::min(m.maxHi, 1);
                    break;
                case 7:
                {
                    if (!holes) continue;
                    int need = 1 + (int)s.draw(3);
                    name = "fillHoles(" + std::to_string(need) + ")";
                    int n = ws->fillHoles(need), changed = 0;
                    Model o = m;
                    m.each([&](const Vox& a)
                    {
                        if (o.e[m.at(a)]) return;
                        int sum = 0, cnt = 0;
                        bool border = false;
                        for (int i = 0; i < 6; i++)
                        {
                            if (a[i] == 0 || (int)a[i] == m.n[i] - 1) border = true;
                            for (int d : {-1, 1})
                            {
                                int y = (int)a[i] + d;
                                if (y < 0 || y >= m.n[i]) continue;
                                Vox b = a;
                                b[i] = y;
                                if (o.e[m.at(b)]) { sum += o.e[m.at(b)]; cnt++; }
                            }
                        }
                        if (cnt < need) return;
                        int got = ws->getVoxelEntry(a[0], a[1], a[2], a[3], a[4], a[5]);
                        if (got == 0 && border) return;    // voxels at the border of the grid may be left out
                        c.check(got == sum / cnt || got == (sum + cnt / 2) / cnt, "fill-holes", "hole " + vs(a) + " with " + std::to_string(cnt) + " filled neighbors got entry " + std::to_string(got));
                        m.set(a, got);
                        changed++;
                    });
                    c.check(n == changed, "fill-holes-count", "fillHoles reports " + std::to_string(n) + " changed voxels, changed: " + std::to_string(changed));
                    if (changed) c.label("holes filled");
                    break;
                }
                case 8:
                    name = "clear";
                    ws->clear();
                    std::fill(m.e.begin(), m.e.end(), 0);
                    m.maxHi = 0;
                    m.forget();
                    break;
                case 9:
                {
                    name = "clone";
                    WorkspaceRepresentationPtr old = ws;
                    ws = old->clone();
                    c.check(!!ws && ws->getData() != old->getData(), "clone", "clone shares its data");
                    old->setVoxelEntry(vv, (unsigned char)((m.e[m.at(v)] + 100) % 256));
                    if (s.chance(0.3)) old->clear();
                    c.check(ws->getAdjustOnOverflow() == m.adjust, "adjust", "getAdjustOnOverflow of a clone");
                    frame(c, w, *ws, m, "clone");
                    c.label("clone");
                    break;
                }
                case 10:
                {
                    name = "save and load";
                    std::string f = path("ws.bin");
                    float st = ws->getDiscretizeParameterTranslation(), sr = ws->getDiscretizeParameterRotation();
                    ws->save(f);
                    compare(c, *ws, m, "after saving");
                    ws.reset(new WorkspaceRepresentation(w.r));
                    ws->load(f);
                    m.adjust = true; // the overflow mode is not stored
                    frame(c, w, *ws, m, "loaded");
                    c.check(ws->getDiscretizeParameterTranslation() == st && ws->getDiscretizeParameterRotation() == sr, "steps", "discretization steps of loaded data");
                    c.label("save-load");
                    break;
                }
                case 11:
                {
                    name = "clear data by bisecting";
                    ws->getData()->bisectData();
                    halve(m);
                    break;
                }
                case 12:
                {
                    w.place = fl4(pose(s, 500));
                    w.apply();
                    name = "move robot";
                    frame(c, w, *ws, m, "moved");
                    break;
                }
                default:
                {
                    // a pose outside of the grid
                    int i = (int)s.draw(6);
                    bool low = s.chance(0.5);
                    x[i] = low ? m.lo[i] - s.uniform(0.6, 3) * m.size(i) : m.hi[i] + s.uniform(0.6, 3) * m.size(i);
                    if (!usable(m, x)) continue;
                    name = std::string("pose ") + (low ? "below" : "above") + " the grid in dimension " + std::to_string(i);
                    g = f4(poseOf(w, x));
                    c.check(!ws->getVoxelFromPose(g, vv), "outside", name + " has voxel");
                    c.check(ws->getEntry(g) == 0 && !ws->isCovered(g), "outside", name + " has an entry");
                    int kind = (int)s.draw(3);
                    if (kind == 0) ws->addPose(g);
                    else if (kind == 1) ws->setEntry(g, (unsigned char)e);
                    else ws->setEntryCheckNeighbors(g, (unsigned char)e, 1);
                    m.seen(x);
                    c.label("outside");
                    if (i < 3)
                    {
                        unsigned v3[3];
                        c.check(!ws->getVoxelFromPosition(g, v3), "outside-position", name + " has a position voxel");
                        c.check(ws->getMaxEntry(Eigen::Vector3f(g.block<3, 1>(0, 3))) == 0, "outside-position", name + " has a maximum entry");
                    }
                }
            }
            real++;
            h += " " + name + ";";
            c.describe(h);
            if (s.chance(0.5) || k == steps - 1) compare(c, *ws, m, "after " + name);
        }
        c.nontrivial(real >= 3 && m.max() > 0);
        c.describe(h);
    }

    // voxels and poses
    void mapping(Src& s, pbt::Ctx& c)
    {
        World w = world(s);
        WorkspaceRepresentation ws(w.r);
        auto type = s.pick(std::vector<WorkspaceRepresentation::eOrientationType>{WorkspaceRepresentation::Hopf, WorkspaceRepresentation::Hopf, WorkspaceRepresentation::RPY, WorkspaceRepresentation::EulerXYZ, WorkspaceRepresentation::EulerXYZExtrinsic});
        Model m = setup(s, w, ws, c, 4);
        ws.setOrientationType(type);
        c.label("orientation type " + std::to_string((int)type));
        c.describe(w.spec.summary());
        Vox v = anyVox(s, m);
        unsigned vv[6], r[6];
        std::copy(v.begin(), v.end(), vv);
        double x[6];
        // center of a voxel
        float fc[6];
        c.check(ws.getPoseFromVoxel(vv, fc), "center", "voxel " + vs(v) + " has no center");
        bool canon = true;
        for (int i = 0; i < 6; i++)
        {
            x[i] = m.lo[i] + (v[i] + 0.5) * m.size(i);
            c.near(fc[i], x[i], 1e-5 * (std::fabs(m.lo[i]) + std::fabs(m.hi[i])) + 1e-6, "center", "center coordinate " + std::to_string(i) + " of voxel " + vs(v));
        }
        unsigned bad[6];
        std::copy(v.begin(), v.end(), bad);
        int bi = (int)s.draw(6);
        bad[bi] = m.n[bi] + (unsigned)s.draw(3);
        float dummy[6];
        c.check(!ws.getPoseFromVoxel(bad, dummy), "center", "a voxel beyond the grid has a center");
        c.check(ws.getVoxelFromPose(fc, r) && std::equal(r, r + 6, vv), "vector-voxel", "the center vector of voxel " + vs(v) + " lies in another voxel");
        M3 R;
        auto ax = [](double a, int i) { return Eigen::AngleAxisd(a, V3::Unit(i)).matrix(); };
        if (type == WorkspaceRepresentation::Hopf) { canon = usable(m, x); R = hopfRot(x[3], x[4], x[5]); }
        else if (type == WorkspaceRepresentation::RPY) { R = ax(x[5], 2) * ax(x[4], 1) * ax(x[3], 0); canon = x[3] > -M_PI + 0.01 && x[3] < M_PI - 0.01 && std::fabs(x[4]) < M_PI / 2 - 0.05 && std::fabs(x[5]) < M_PI - 0.01; }
        else if (type == WorkspaceRepresentation::EulerXYZ) { R = ax(x[3], 0) * ax(x[4], 1) * ax(x[5], 2); canon = x[3] > 0.01 && x[3] < M_PI - 0.01 && std::fabs(x[4]) < M_PI - 0.01 && std::fabs(x[5]) < M_PI - 0.01 && std::fabs(std::fabs(x[4]) - M_PI / 2) > 0.05; }
        else { R = ax(x[5], 0) * ax(x[4], 1) * ax(x[3], 2); canon = x[5] > 0.01 && x[5] < M_PI - 0.01 && std::fabs(x[4]) < M_PI - 0.01 && std::fabs(x[3]) < M_PI - 0.01 && std::fabs(std::fabs(x[4]) - M_PI / 2) > 0.05; }
        M4 local = mk(R, V3(x[0], x[1], x[2])), global = w.baseG() * local;
        Eigen::Matrix4f gl = ws.getPoseFromVoxel(vv, false), gg = ws.getPoseFromVoxel(vv);
        c.near((d4(gl) - local).norm(), 0, 0.01, "voxel-pose", "local pose of the center of voxel " + vs(v));
        c.near((d4(gg) - global).norm(), 0, 0.02, "voxel-pose", "global pose of the center of voxel " + vs(v));
        bool wide = true;
        for (int i = 0; i < 6; i++) wide = wide && m.size(i) > (i < 3 ? 0.2 : 0.02);
        if (canon && wide)
        {
            bool in = ws.getVoxelFromPose(gg, r);
            c.check(in && std::equal(r, r + 6, vv), "pose-voxel", "the center pose of voxel " + vs(v) + (in ? " maps to voxel " + vs({r[0], r[1], r[2], r[3], r[4], r[5]}) : std::string(" is outside")));
            float x2[6];
            ws.matrix2Vector(gl, x2);
            for (int i = 0; i < 6; i++) c.near(x2[i], x[i], i < 3 ? 0.01 : 3e-3, "matrix-vector", "coordinate " + std::to_string(i) + " of the center pose");
            c.nontrivial();
        }
        // local and global
        Eigen::Vector3f p = f3(vec(s, 500)), q = p;
        ws.toLocalVec(q);
        V3 want = trans(inv(w.baseG()) * mk(M3::Identity(), p.cast<double>()));
        c.near((q.cast<double>() - want).norm(), 0, 0.01, "to-local", "position in the base frame");
        ws.toGlobalVec(q);
        c.near((q - p).norm(), 0, 0.01, "to-global", "position mapped to the base frame and back");
        Eigen::Matrix4f P = f4(pose(s, 500)), Q = P;
        ws.toLocal(Q);
        c.near((d4(Q) - inv(w.baseG()) * d4(P)).norm(), 0, 0.02, "to-local", "pose in the base frame");
        ws.toGlobal(Q);
        c.near((Q - P).norm(), 0, 0.02, "to-global", "pose mapped to the base frame and back");
        // arbitrary poses
        if (type == WorkspaceRepresentation::Hopf)
            for (int k = 0; k < 4; k++)
            {
                Vox t;
                inside(s, m, anyVox(s, m), x);
                M4 g = w.baseG() * mk(rot(s), V3(x[0], x[1], x[2]));
                bool in;
                g = fl4(g);
                if (!vecOf(w, m, g, x, &t, &in)) continue;
                bool got = ws.getVoxelFromPose(f4(g), r);
                c.check(got == in, "pose-voxel", std::string("an arbitrary pose is ") + (got ? "inside" : "outside") + " of the grid");
                if (in) c.check(std::equal(r, r + 6, t.begin()), "pose-voxel", "an arbitrary pose maps to another voxel than " + vs(t));
                unsigned v3[3];
                bool in3 = ws.getVoxelFromPosition(f4(g), v3);
                c.check(in3, "position-voxel", "a position inside of the grid has no voxel");
                if (in) c.check(std::equal(v3, v3 + 3, t.begin()), "position-voxel", "the position voxel differs");
            }
    }

    void cuts(Src& s, pbt::Ctx& c)
    {
        World w = world(s);
        WorkspaceRepresentation ws(w.r);
        Model m = setup(s, w, ws, c, 4);
        int fill = (int)s.integer(1, 40);
        for (int k = 0; k < fill; k++) { Vox v = anyVox(s, m); unsigned vv[6]; std::copy(v.begin(), v.end(), vv); int e = 1 + (int)s.draw(255); ws.setVoxelEntry(vv, (unsigned char)e); m.set(v, e); }
        Eigen::Vector3f lo, hi;
        ws.getWorkspaceExtends(lo, hi);
        double cell = std::max(hi(0) - lo(0), hi(1) - lo(1)) / s.uniform(1.2, 9);
        Vox v = anyVox(s, m);
        double x[6];
        inside(s, m, v, x);
        if (!usable(m, x)) c.discard();
        bool sum = s.chance(0.4), percent = s.chance(0.3);
        M4 ref = poseOf(w, x);
        WorkspaceRepresentation::WorkspaceCut2DPtr cut;
        if (percent)
        {
            double pc = s.unit();
            cut = ws.createCut((float)pc, (float)cell, sum);
            ref = w.baseG();
            ref(2, 3) = lo(2) + pc * (hi(2) - lo(2));
        }
        else cut = ws.createCut(f4(ref), (float)cell, sum);
        c.describe(w.spec.summary() + " cut " + (sum ? "summed " : "") + std::to_string(cut->entries.rows()) + "x" + std::to_string(cut->entries.cols()));
        c.near(cut->minBounds[0], lo(0), 1e-3, "cut-bounds", "lower bound of the cut");
        c.near(cut->minBounds[1], lo(1), 1e-3, "cut-bounds", "lower bound of the cut");
        c.check(cut->maxBounds[0] <= hi(0) + 0.01 * cell && cut->maxBounds[1] <= hi(1) + 0.01 * cell && cut->maxBounds[0] > hi(0) - 1.01 * cell && cut->maxBounds[1] > hi(1) - 1.01 * cell, "cut-bounds", "upper bound of the cut");
        int nonzero = 0, judged = 0;
        std::map<std::pair<int, int>, int> want;
        for (int a = 0; a < cut->entries.rows(); a++)
            for (int b = 0; b < cut->entries.cols(); b++)
            {
                M4 g = ref;
                g(0, 3) = lo(0) + (a + 0.5) * cell;
                g(1, 3) = lo(1) + (b + 0.5) * cell;
                Vox t;
                bool in;
                nonzero += cut->entries(a, b) > 0;
                if (!vecOf(w, m, g, x, &t, &in)) continue;
                judged++;
                int e = !in ? 0 : sum ? m.sum(t[0], t[1], t[2]) : m.e[m.at(t)];
                c.check(cut->entries(a, b) == e, "cut-entry", "cut cell (" + std::to_string(a) + "," + std::to_string(b) + ") has " + std::to_string(cut->entries(a, b)) + " instead of " + std::to_string(e));
            }
        RobotNodePtr rn = s.chance(0.5) ? w.r->getRobotNode(w.spec.n[(int)s.draw(w.spec.n.size())].name) : RobotNodePtr();
        auto tr = ws.createCutTransformations(cut, rn);
        c.check((int)tr.size() == nonzero, "cut-transformations", std::to_string(tr.size()) + " transformations for " + std::to_string(nonzero) + " filled cells");
        size_t k = 0;
        for (int a = 0; a < cut->entries.rows(); a++)
            for (int b = 0; b < cut->entries.cols(); b++)
                if (cut->entries(a, b) > 0)
                {
                    M4 g = ref;
                    g(0, 3) = lo(0) + (a + 0.5) * cell;
                    g(1, 3) = lo(1) + (b + 0.5) * cell;
                    if (rn) g = inv(d4(rn->getGlobalPose())) * g;
                    c.check(tr[k]->value == cut->entries(a, b), "cut-transformations", "value of a transformation");
                    c.near((d4(tr[k]->transformation) - g).norm(), 0, 0.05 + 1e-4 * cell, "cut-transformations", "transformation of the cut cell (" + std::to_string(a) + "," + std::to_string(b) + ")");
                    k++;
                }
        // maximum over orientations at a position
        V3 p = trans(poseOf(w, (inside(s, m, v, x), x)));
        int mx;
        m.sum(v[0], v[1], v[2], &mx);
        if (m.size(0) > 1 && m.size(1) > 1 && m.size(2) > 1) c.check(ws.getMaxEntry(f3(p)) == mx, "max-at-position", "maximum entry at a position");
        c.nontrivial(nonzero > 0 && judged > 0);
        if (percent) c.label("percent");
    }

    void reach(Src& s, pbt::Ctx& c)
    {
        World w = world(s);
        ReachabilityPtr ws(new Reachability(w.r));
        Model m = setup(s, w, *ws, c, 3, true);
        c.describe(w.spec.summary());
        std::vector<float> q0 = w.set->getJointValues();
        unsigned loops = (unsigned)s.integer(1, 200);
        int threads = s.chance(0.5) ? (int)s.integer(1, std::min(6u, loops)) : 0;
        if (threads) { ws->addRandomTCPPoses(loops, (unsigned)threads, s.chance(0.5)); c.label("threads"); }
        else ws->addRandomTCPPoses(loops, s.chance(0.5));
        c.check(w.set->getJointValues() == q0, "joint-values", "joint values changed by addRandomTCPPoses");
        int sum = 0;
        m.each([&](const Vox& v) { m.e[m.at(v)] = ws->getVoxelEntry(v[0], v[1], v[2], v[3], v[4], v[5]); sum += m.e[m.at(v)]; });
        m.maxHi = m.max();
        c.check(sum == (int)loops, "poses-lost", std::to_string(loops) + " random poses" + (threads ? " by " + std::to_string(threads) + " threads" : std::string()) + " left " + std::to_string(sum) + " entries");
        compare(c, *ws, m, "after sampling");
        // the achieved values bound the filled voxels
        MathTools::OOBB o = ws->getOOBB(true);
        m.each([&](const Vox& v)
        {
            if (!m.e[m.at(v)]) return;
            for (int i = 0; i < 3; i++) c.check(m.lo[i] + v[i] * m.size(i) <= o.maxBB(i) + 0.1 && m.lo[i] + (v[i] + 1) * m.size(i) >= o.minBB(i) - 0.1, "achieved", "filled voxel " + vs(v) + " outside of the achieved values");
        });
        Eigen::Matrix4f g = ws->sampleReachablePose();
        c.check(ws->isReachable(g), "sample", "sampled pose is not reachable");
        // grasps
        ManipulationObjectPtr ob(new ManipulationObject("ob"));
        ob->setGlobalPose(f4(pose(s, 300)));
        GraspSetPtr gs(new GraspSet("gs", "robotype", "eef"));
        std::vector<int> want;
        int ng = (int)s.integer(1, 5);
        for (int k = 0; k < ng; k++)
        {
            Vox v = anyVox(s, m);
            double x[6];
            inside(s, m, v, x);
            bool far = s.chance(0.2);
            if (far) x[0] += 3 * (m.hi[0] - m.lo[0]);
            if (!usable(m, x)) continue;
            M4 tcp = poseOf(w, x);
            GraspPtr gr(new Grasp("g" + std::to_string(k), "robotype", "eef", f4(inv(tcp) * d4(ob->getGlobalPose()))));
            gs->addGrasp(gr);
            want.push_back(!far && m.e[m.at(v)] > 0);
        }
        auto res = ws->getReachableGrasps(gs, ob);
        for (size_t i = 0; i < want.size(); i++)
            c.check(res->hasGrasp(gs->getGrasp(i)) == (want[i] != 0), "grasps", "grasp " + std::to_string(i) + (want[i] ? " is reachable" : " is not reachable"));
        auto cl = boost::dynamic_pointer_cast<Reachability>(ws->clone());
        c.check(!!cl, "clone", "clone of a reachability is none");
        if (cl) compare(c, *cl, m, "clone");
        c.nontrivial(m.max() > 0);
        // parameters
        float mn[6], mx[6];
        c.check(ws->checkForParameters(w.set, 50, mn, mx, ws->getBaseNode()), "parameters", "checkForParameters failed");
        c.check(w.set->getJointValues() == q0, "joint-values", "joint values changed by checkForParameters");
        double R = w.spec.reach() * 1.45 + (w.base < 0 ? trans(w.place).norm() * 1.45 : 0);
        for (int i = 0; i < 6; i++)
        {
            c.check(mn[i] <= mx[i] + 1e-3 * R, "parameters", "estimated bounds are empty");
            if (i < 3) c.check(mn[i] >= -R && mx[i] <= R, "parameters", "estimated bounds exceed the reach");
        }
        frame(c, w, *ws, [&] { Model n = m; n.poses = 0; return n; }(), "after estimating parameters");
    }

    // self-collision free sampling
    void selfcol(Src& s, pbt::Ctx& c)
    {
        // two boxes: one on the base, one at the end of a rotating link
        double L = s.uniform(60, 200), half = s.uniform(10, 40), off = s.uniform(60, 260);
        RobotSpec r;
        Node a, b, e;
        a.name = "n0";
        b.name = "n1"; b.parent = 0; b.type = REV; b.axis = V3(0, 0, 1); b.lo = -3; b.hi = 3;
        e.name = "n2"; e.parent = 1; e.local = mk(M3::Identity(), V3(L, 0, 0));
        Prim p; p.kind = 0; p.a = p.b = p.c = 2 * half; p.t = M4::Identity();
        Prim p0 = p; p0.t = mk(M3::Identity(), V3(fl(off), 0, 0));
        a.col.push_back(p0); e.col.push_back(p);
        r.n = {a, b, e};
        r.link();
        RobotPtr robo = fromXML(r);
        auto rns = RobotNodeSet::createRobotNodeSet(robo, "chain", std::vector<std::string>{"n1"}, "n1", "n2", true);
        auto st = RobotNodeSet::createRobotNodeSet(robo, "static", std::vector<std::string>{"n0"}, "n0", "n0", true);
        auto dy = RobotNodeSet::createRobotNodeSet(robo, "dyn", std::vector<std::string>{"n2"}, "n2", "n2", true);
        ReachabilityPtr ws(new Reachability(robo));
        float R = (float)(L + 10), mn[6] = {-R, -R, -R, -0.001f, -0.001f, -0.001f}, mx[6] = {R, R, R, 6.3f, 6.3f, 1.6f};
        ws->initialize(rns, R / 6, 7, mn, mx, st, dy, robo->getRobotNode("n0"), RobotNodePtr(), false);
        c.describe("arm " + num(L) + " box " + num(half) + " obstacle at " + num(off));
        bool hit = false;
        for (int i = 0; i < 20; i++)
        {
            bool ok = ws->setRobotNodesToRandomConfig(RobotNodeSetPtr(), true);
            if (!ok) { hit = true; continue; }
            c.check(!robo->getCollisionChecker()->checkCollision(st, dy), "self-collision", "a configuration reported as collision-free collides");
            double q = rns->getNode(0)->getJointValue();
            c.check(q >= -3 - 1e-4 && q <= 3 + 1e-4, "limits", "random joint value beyond its limits");
        }
        unsigned loops = (unsigned)s.integer(5, 60);
        if (s.chance(0.4)) { ws->addRandomTCPPoses(loops, 3, true); c.label("threads"); }
        else ws->addRandomTCPPoses(loops, true);
        // no entries where every configuration of the voxel collides: the moving box (any rotation) contains a ball of radius half around its center
        int sum = 0;
        for (int x = 0; x < ws->getNumVoxels(0); x++) for (int y = 0; y < ws->getNumVoxels(1); y++) for (int z = 0; z < ws->getNumVoxels(2); z++)
        {
            int k = ws->sumAngleReachabilities(x, y, z);
            sum += k;
            if (!k) continue;
            double vx = ws->getVoxelSize(0), cx = -R + (x + 0.5) * vx, cy = -R + (y + 0.5) * vx;
            double d = std::hypot(cx - off, cy), slack = vx * 0.72;
            c.check(d + slack > half * 1.0, "self-collision", "a voxel that only holds colliding configurations is covered");
        }
        c.check(sum <= (int)loops, "poses-lost", "more entries than poses");
        c.nontrivial(std::fabs(off - L) < 2 * half);
        if (hit) c.label("gave up");
    }

    struct Quality : PoseQualityMeasurement
    {
        float value = 0;
        Quality(RobotNodeSetPtr r, const std::string& n) : PoseQualityMeasurement(r) { name = n; }
        float getPoseQuality() override { return value; }
        float getPoseQuality(const Eigen::VectorXf&) override { return value; }
    };
    void manip(Src& s, pbt::Ctx& c)
    {
        World w = world(s);
        ManipulabilityPtr ws(new Manipulability(w.r));
        boost::shared_ptr<Quality> q(new Quality(w.set, s.pick(std::vector<std::string>{"my measure", "q"})));
        bool own = s.chance(0.85);
        if (own) ws->setManipulabilityMeasure(q);
        bool big = s.chance(0.2);
        Model m = setup(s, w, *ws, c, big ? 5 : 3);
        double top = s.pick(std::vector<double>{1.0, 0.01, 250.0, s.uniform(0.1, 10)});
        ws->setMaxManipulability((float)top);
        top = (float)top;
        c.describe(w.spec.summary() + " max " + num(top));
        c.near(ws->getMaxManipulability(), top, 0, "max-manip", "maximum manipulability");
        if (!own)
        {
            c.check(!!ws->getManipulabilityMeasure(), "measure", "no measure was created");
            c.nontrivial();
        }
        int steps = (int)s.integer(2, 20);
        auto sure = [&](double v, int got) { double e = std::min(1.0, std::max(0.0, v / top)) * 255 + 0.5; int lo = std::max(1, (int)(e - 1e-3)), hi = std::max(1, (int)(e + 1e-3)); return got >= lo && got <= hi; };
        for (int k = 0; k < steps; k++)
        {
            Vox v = anyVox(s, m);
            double x[6];
            inside(s, m, v, x);
            if (!usable(m, x)) continue;
            M4 g = poseOf(w, x);
            unsigned vv[6];
            std::copy(v.begin(), v.end(), vv);
            int op = s.weighted({6, 2, 1, 1, 1});
            if (op == 0 && own)
            {
                q->value = (float)(top * s.pick(std::vector<double>{0.0, 1.0, 1.5, -0.5, s.unit(), s.unit(), 0.001}));
                int before = m.e[m.at(v)];
                WorkspaceRepresentation& wr = *ws;
                if (s.chance(0.5)) wr.addPose(f4(g)); else wr.addPose(f4(g), q);
                int got = ws->getVoxelEntry(v[0], v[1], v[2], v[3], v[4], v[5]);
                if (got != before || !sure(q->value, before)) c.check(got > before ? sure(q->value, got) : !sure(q->value, 0) && got == before && (q->value / top * 255 + 0.5 < before + 1), "manip-entry", "quality " + num((double)q->value) + " of " + num(top) + " changed the entry from " + std::to_string(before) + " to " + std::to_string(got));
                c.check(got >= 1, "manip-entry", "a reachable pose has entry 0");
                m.set(v, got);
                m.seen(x);
                c.near(ws->getManipulabilityAtPose(f4(g)), got / 255.0 * top, 1e-4 * top, "manip-at-pose", "manipulability at a pose");
                if (ws->getManipulabilityMeasure()) c.near(ws->measureCurrentPose(), q->value, 1e-6, "measure", "current quality");
                c.nontrivial();
            }
            else if (op == 1)
            {
                int e = (int)s.draw(256);
                ws->setVoxelEntry(vv, (unsigned char)e);
                m.set(v, e);
                c.near(ws->getManipulabilityAtPose(f4(g)), e / 255.0 * top, 1e-4 * top, "manip-at-pose", "manipulability at a pose");
            }
            else if (op == 2)
            {
                auto cl = boost::dynamic_pointer_cast<Manipulability>(ws->clone());
                c.check(!!cl, "clone", "clone of a manipulability is none");
                ws->clear();
                ws = cl;
                if (own) c.check(ws->getMeasureName() == q->getName(), "measure", "measure name of a clone");
                c.label("clone");
            }
            else if (op == 3)
            {
                std::string f = path("m.bin");
                ws->save(f);
                std::string name = ws->getMeasureName();
                bool jl = ws->consideringJointLimits();
                ws.reset(new Manipulability(w.r));
                if (own) ws->setManipulabilityMeasure(q);
                ws->load(f);
                c.check(ws->getMeasureName() == name && ws->consideringJointLimits() == jl, "measure", "measure of a loaded manipulability");
                m.adjust = true;
                frame(c, w, *ws, m, "loaded");
                c.label("save-load");
            }
            else if (op == 4 && big)
            {
                unsigned need = 1 + (unsigned)s.draw(3);
                Model o = m;
                c.check(ws->smooth(need), "smooth", "smooth failed");
                m.each([&](const Vox& a)
                {
                    for (int i = 0; i < 6; i++) if (a[i] == 0 || (int)a[i] == m.n[i] - 1) return;
                    double sum = 0;
                    int cnt = 0;
                    Vox b;
                    for (int z = 0; z < 729; z++)
                    {
                        for (int i = 0, y = z; i < 6; i++, y /= 3) b[i] = a[i] + y % 3 - 1;
                        int e = o.e[m.at(b)];
                        if (e) { sum += e; cnt++; }
                    }
                    if (cnt >= (int)need) m.set(a, (int)(sum / cnt));
                });
                c.label("smooth");
            }
            c.near(ws->getMaxManipulability(), top, 0, "max-manip", "maximum manipulability");
            if (s.chance(0.4) || k == steps - 1) compare(c, *ws, m, "step " + std::to_string(k));
        }
        // grasps
        ManipulationObjectPtr ob(new ManipulationObject("ob"));
        ob->setGlobalPose(f4(pose(s, 300)));
        GraspSetPtr gs(new GraspSet("gs", "robotype", "eef"));
        std::map<std::string, int> want;
        int ng = (int)s.integer(1, 6);
        for (int k = 0; k < ng; k++)
        {
            Vox v = anyVox(s, m);
            double x[6];
            inside(s, m, v, x);
            if (!usable(m, x)) continue;
            GraspPtr gr(new Grasp("g" + std::to_string(k), "robotype", "eef", f4(inv(poseOf(w, x)) * d4(ob->getGlobalPose()))));
            gs->addGrasp(gr);
            want[gr->getName()] = m.e[m.at(v)];
            c.near(ws->analyseGrasp(gr, ob).manipulability, m.e[m.at(v)] / 255.0 * top, 1e-4 * top, "grasps", "manipulability of a grasp");
        }
        size_t reachable = 0;
        for (auto& x : want) reachable += x.second > 0;
        auto res = ws->analyseGrasps(gs, ob);
        c.check(res.size() == reachable && ws->getReachableGrasps(gs, ob)->getSize() == reachable, "grasps", std::to_string(res.size()) + " reachable grasps instead of " + std::to_string(reachable));
        for (size_t i = 0; i < res.size(); i++)
        {
            c.near(res[i].manipulability, want[res[i].grasp->getName()] / 255.0 * top, 1e-4 * top, "grasps", "manipulability of an analysed grasp");
            if (i) c.check(res[i - 1].manipulability >= res[i].manipulability, "grasp-order", "analysed grasps are not sorted");
        }
    }

    void truncated(Src& s, pbt::Ctx& c)
    {
        World w = world(s);
        WorkspaceRepresentation ws(w.r);
        Model m = setup(s, w, ws, c, 3);
        int fill = (int)s.integer(0, 60);
        for (int k = 0; k < fill; k++) { Vox v = anyVox(s, m); unsigned vv[6]; std::copy(v.begin(), v.end(), vv); ws.setVoxelEntry(vv, (unsigned char)s.draw(256)); }
        std::string f = path("t.bin");
        ws.save(f);
        std::ifstream in(f, std::ios::binary);
        std::string d((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
        size_t len = s.chance(0.4) ? d.size() - 1 - (size_t)s.draw(std::min<size_t>(60, d.size() - 1)) : (size_t)s.draw(d.size());
        std::ofstream(f, std::ios::binary) << d.substr(0, len);
        c.describe("file of " + std::to_string(d.size()) + " bytes cut to " + std::to_string(len));
        bool threw = false;
        try { WorkspaceRepresentation w2(w.r); w2.load(f); } catch (VirtualRobotException&) { threw = true; }
        c.check(threw, "truncated", "a file of " + std::to_string(d.size()) + " bytes cut to " + std::to_string(len) + " loads without an exception");
        c.nontrivial(len > 40);
    }

    struct GModel
    {
        double x0, x1, y0, y1, step;
        int nx, ny;
        std::vector<int> e;
        std::vector<std::set<GraspPtr>> g;
        double cx() const { return (x1 - x0) / nx; }
        double cy() const { return (y1 - y0) / ny; }
        void set(int x, int y, int v, GraspPtr p)
        {
            if (x < 0 || y < 0 || x >= nx || y >= ny) return;
            int& k = e[x * ny + y];
            if (k <= v) { k = v; if (p) g[x * ny + y].insert(p); }
            else if (v >= 100 && p) g[x * ny + y].insert(p);
        }
        void near(int x, int y, int v, GraspPtr p)
        {
            if (x < 0 || y < 0 || x >= nx || y >= ny) return;
            set(x, y, v, p);
            if (x > 0 && x < nx - 1 && y > 0 && y < ny - 1) for (int a = -1; a <= 1; a++) for (int b = -1; b <= 1; b++) if (a || b) set(x + a, y + b, v, p);
        }
        // cell of a position, -2 if too close to a cell border
        bool cell(double x, double y, int* a, int* b, double tol) const
        {
            double p = (x - x0) / cx(), q = (y - y0) / cy();
            if (std::fabs(p - std::round(p)) < tol / cx() + 1e-4 || std::fabs(q - std::round(q)) < tol / cy() + 1e-4) return false;
            *a = (int)std::floor(p); *b = (int)std::floor(q);
            return true;
        }
        bool in(int a, int b) const { return a >= 0 && b >= 0 && a < nx && b < ny; }
        int at(int a, int b) const { return in(a, b) ? e[a * ny + b] : 0; }
    };
    WorkspaceGridPtr makeGrid(Src& s, GModel& m, const pbt::Ctx& c)
    {
        m.step = fl(s.pick(std::vector<double>{10, 100, 33.3}));
        m.x0 = fl(s.real(-500, 500)); m.y0 = fl(s.real(-500, 500));
        m.x1 = fl(m.x0 + m.step * (s.draw(5) + s.pick(std::vector<double>{0.3, 0.5, 0.99, 1.0})));
        m.y1 = fl(m.y0 + m.step * (s.draw(5) + s.pick(std::vector<double>{0.3, 0.5, 0.99, 1.0})));
        WorkspaceGridPtr g(new WorkspaceGrid((float)m.x0, (float)m.x1, (float)m.y0, (float)m.y1, (float)m.step));
        g->getCells(m.nx, m.ny);
        double kx = (m.x1 - m.x0) / m.step, ky = (m.y1 - m.y0) / m.step;
        c.check((m.nx == (int)(kx * (1 + 1e-5)) + 1 || m.nx == (int)(kx * (1 - 1e-5)) + 1) && (m.ny == (int)(ky * (1 + 1e-5)) + 1 || m.ny == (int)(ky * (1 - 1e-5)) + 1), "grid-cells", "number of grid cells");
        m.e.assign(m.nx * m.ny, 0);
        m.g.assign(m.nx * m.ny, {});
        return g;
    }
    void compareGrid(const pbt::Ctx& c, WorkspaceGrid& g, const GModel& m, const std::string& when, bool grasps = true)
    {
        int mx = 0;
        for (int a = 0; a < m.nx; a++)
            for (int b = 0; b < m.ny; b++)
            {
                std::string at = when + ": cell (" + std::to_string(a) + "," + std::to_string(b) + ")";
                int e = -1;
                std::vector<GraspPtr> gs;
                c.check(g.getCellEntry(a, b) == m.at(a, b), "grid-entry", at + " has " + std::to_string(g.getCellEntry(a, b)) + " instead of " + std::to_string(m.at(a, b)));
                g.getCellEntry(a, b, e, gs);
                c.check(e == m.at(a, b), "grid-entry", at + " entry with grasps");
                if (grasps) c.check(std::set<GraspPtr>(gs.begin(), gs.end()) == m.g[a * m.ny + b] && gs.size() == m.g[a * m.ny + b].size(), "grid-grasps", at + " has " + std::to_string(gs.size()) + " grasps instead of " + std::to_string(m.g[a * m.ny + b].size()));
                double x = m.x0 + (a + 0.5) * m.cx(), y = m.y0 + (b + 0.5) * m.cy();
                c.check(g.getEntry((float)x, (float)y) == m.at(a, b), "grid-position", at + " entry at its center");
                mx = std::max(mx, m.at(a, b));
            }
        c.check(g.getMaxEntry() == mx, "grid-max", when + ": maximum entry");
        int e;
        GraspPtr p;
        c.check(!g.getCellEntry(-1, 0) && !g.getCellEntry(0, m.ny) && !g.getCellEntry(m.nx, 0, e, p), "grid-outside", when + ": cell outside of the grid");
        for (auto o : {std::make_pair(m.x0 - 0.3 * m.cx(), 0.5 * (m.y0 + m.y1)), std::make_pair(m.x1 + 0.3 * m.cx(), 0.5 * (m.y0 + m.y1)), std::make_pair(0.5 * (m.x0 + m.x1), m.y0 - 0.3 * m.cy()), std::make_pair(0.5 * (m.x0 + m.x1), m.y1 + 0.3 * m.cy())})
            c.check(g.getEntry((float)o.first, (float)o.second) == 0 && !g.getEntry((float)o.first, (float)o.second, e, p), "grid-outside", when + ": position outside of the grid has an entry");
    }
    void grid(Src& s, pbt::Ctx& c)
    {
        GModel m;
        WorkspaceGridPtr g = makeGrid(s, m, c);
        std::vector<GraspPtr> gr;
        for (int i = 0; i < 3; i++) gr.push_back(GraspPtr(new Grasp("g" + std::to_string(i), "r", "e", Eigen::Matrix4f::Identity())));
        int steps = (int)s.integer(1, 25);
        std::string h = std::to_string(m.nx) + "x" + std::to_string(m.ny);
        compareGrid(c, *g, m, "initially");
        for (int k = 0; k < steps; k++)
        {
            int v = s.pick(std::vector<int>{1, 50, 100, 150, (int)s.draw(256)});
            GraspPtr p = s.chance(0.3) ? GraspPtr() : gr[s.draw(3)];
            double x = m.x0 + s.uniform(-0.3, 1.3) * (m.x1 - m.x0), y = m.y0 + s.uniform(-0.3, 1.3) * (m.y1 - m.y0);
            int a, b, op = s.weighted({4, 4, 4, 1, 1, 2});
            std::string name;
            switch (op)
            {
                case 0:
                    a = (int)s.integer(-1, m.nx); b = (int)s.integer(-1, m.ny);
                    g->setCellEntry(a, b, v, p);
                    m.set(a, b, v, p);
                    name = "setCellEntry " + std::to_string(a) + "," + std::to_string(b) + "=" + std::to_string(v);
                    break;
                case 1:
                    if (!m.cell(x, y, &a, &b, 1e-3)) continue;
                    g->setEntry((float)x, (float)y, v, p);
                    m.set(a, b, v, p);
                    name = "setEntry " + std::to_string(a) + "," + std::to_string(b) + "=" + std::to_string(v);
                    break;
                case 2:
                    if (!m.cell(x, y, &a, &b, 1e-3)) continue;
                    g->setEntryCheckNeighbors((float)x, (float)y, v, p);
                    m.near(a, b, v, p);
                    name = "setEntryCheckNeighbors " + std::to_string(a) + "," + std::to_string(b) + "=" + std::to_string(v);
                    break;
                case 3:
                    g->reset();
                    std::fill(m.e.begin(), m.e.end(), 0);
                    m.g.assign(m.nx * m.ny, {});
                    name = "reset";
                    break;
                case 4:
                {
                    double w = m.x1 - m.x0, t = m.y1 - m.y0;
                    g->setGridPosition((float)x, (float)y);
                    m.x0 = fl(x) - w / 2; m.x1 = fl(x) + w / 2; m.y0 = fl(y) - t / 2; m.y1 = fl(y) + t / 2;
                    float A, B, C, D;
                    g->getExtends(A, B, C, D);
                    c.near(A, m.x0, 1e-3, "grid-extends", "extents"); c.near(B, m.x1, 1e-3, "grid-extends", "extents"); c.near(C, m.y0, 1e-3, "grid-extends", "extents"); c.near(D, m.y1, 1e-3, "grid-extends", "extents");
                    name = "setGridPosition";
                    break;
                }
                default:
                {
                    float X, Y;
                    int e = -1;
                    std::vector<GraspPtr> gs;
                    GraspPtr one;
                    int need = s.pick(std::vector<int>{0, 1, v});
                    bool multi = s.chance(0.5);
                    bool ok = multi ? g->getRandomPos(need, X, Y, gs, 50, &e) : g->getRandomPos(need, X, Y, one, 50, &e);
                    int mx = *std::max_element(m.e.begin(), m.e.end());
                    if (ok)
                    {
                        c.check(e >= need, "grid-random", "random position with entry " + std::to_string(e) + " for at least " + std::to_string(need));
                        c.check(m.cell(X, Y, &a, &b, 1e-3) && m.in(a, b) && m.at(a, b) == e, "grid-random", "random position does not lie in a cell with the reported entry");
                        if (multi) c.check(std::set<GraspPtr>(gs.begin(), gs.end()) == m.g[a * m.ny + b], "grid-random", "grasps of a random position");
                        else c.check(one ? m.g[a * m.ny + b].count(one) > 0 : m.g[a * m.ny + b].empty(), "grid-random", "grasp of a random position");
                        c.label("random position");
                    }
                    else c.check(need > 0, "grid-random", "no random position although every cell qualifies");
                    if (need > mx) c.check(!ok, "grid-random", "random position although no cell qualifies");
                    name = "getRandomPos";
                }
            }
            h += "; " + name;
            c.describe(h);
            if (s.chance(0.3) || k == steps - 1) compareGrid(c, *g, m, "after " + name);
        }
        c.nontrivial(g->getMaxEntry() > 0);
        c.describe(h);
    }
    void merge(Src& s, pbt::Ctx& c)
    {
        int n = (int)s.integer(2, 4);
        std::vector<GModel> ms(n);
        std::vector<WorkspaceGridPtr> gs;
        GModel f;
        gs.push_back(makeGrid(s, f, c));
        ms[0] = f;
        for (int i = 1; i < n; i++)
        {
            // same step, overlapping
            GModel m;
            m.step = f.step;
            bool same = s.chance(0.5);
            m.x0 = same ? f.x0 : fl(f.x0 + s.uniform(-0.7, 0.7) * (f.x1 - f.x0)); m.y0 = same ? f.y0 : fl(f.y0 + s.uniform(-0.7, 0.7) * (f.y1 - f.y0));
            m.x1 = same ? f.x1 : fl(m.x0 + m.step * s.uniform(0.5, 5)); m.y1 = same ? f.y1 : fl(m.y0 + m.step * s.uniform(0.5, 5));
            gs.push_back(WorkspaceGridPtr(new WorkspaceGrid((float)m.x0, (float)m.x1, (float)m.y0, (float)m.y1, (float)m.step)));
            gs.back()->getCells(m.nx, m.ny);
            m.e.assign(m.nx * m.ny, 0);
            m.g.assign(m.nx * m.ny, {});
            ms[i] = m;
        }
        for (int i = 0; i < n; i++)
            for (int a = 0; a < ms[i].nx; a++) for (int b = 0; b < ms[i].ny; b++) { int v = s.chance(0.2) ? 0 : (int)s.draw(256); gs[i]->setCellEntry(a, b, v, GraspPtr()); ms[i].set(a, b, v, GraspPtr()); }
        WorkspaceGridPtr r = WorkspaceGrid::MergeWorkspaceGrids(gs);
        double x0 = 1e9, x1 = -1e9, y0 = 1e9, y1 = -1e9;
        for (auto& m : ms) { x0 = std::min(x0, m.x0); x1 = std::max(x1, m.x1); y0 = std::min(y0, m.y0); y1 = std::max(y1, m.y1); }
        float A, B, C, D;
        r->getExtends(A, B, C, D);
        c.check(std::fabs(A - x0) < 1e-2 && std::fabs(B - x1) < 1e-2 && std::fabs(C - y0) < 1e-2 && std::fabs(D - y1) < 1e-2, "merge-extends", "merged extents [" + num(A) + "," + num(B) + "]x[" + num(C) + "," + num(D) + "] instead of [" + num(x0) + "," + num(x1) + "]x[" + num(y0) + "," + num(y1) + "]");
        GModel R;
        R.x0 = A; R.x1 = B; R.y0 = C; R.y1 = D;
        r->getCells(R.nx, R.ny);
        c.describe(std::to_string(n) + " grids merged to " + std::to_string(R.nx) + "x" + std::to_string(R.ny));
        int nz = 0;
        for (int a = 0; a < R.nx; a++)
            for (int b = 0; b < R.ny; b++)
            {
                double x = R.x0 + (a + 0.5) * R.cx(), y = R.y0 + (b + 0.5) * R.cy();
                int e = r->getCellEntry(a, b);
                nz += e > 0;
                // the worst value of all grids somewhere in this cell: bounds over the cells that overlap it
                int lo = 1 << 30, hi = 1 << 30, exact = 1 << 30;
                bool sharp = true;
                for (auto& m : ms)
                {
                    int mn = 1 << 30, mx = -1;
                    double l = R.cx() / 2 + 1e-2, t = R.cy() / 2 + 1e-2;
                    int a0 = (int)std::floor((x - l - m.x0) / m.cx()), a1 = (int)std::floor((x + l - m.x0) / m.cx()), b0 = (int)std::floor((y - t - m.y0) / m.cy()), b1 = (int)std::floor((y + t - m.y0) / m.cy());
                    for (int i = a0; i <= a1; i++) for (int j = b0; j <= b1; j++) { mn = std::min(mn, m.at(i, j)); mx = std::max(mx, m.at(i, j)); }
                    lo = std::min(lo, mn);
                    hi = std::min(hi, mx);
                    int i, j;
                    if (m.cell(x, y, &i, &j, 0.02)) exact = std::min(exact, m.at(i, j)); else sharp = false;
                }
                c.check(e >= lo && e <= hi, "merge", "merged cell (" + std::to_string(a) + "," + std::to_string(b) + ") has " + std::to_string(e) + ", the worst values of the grids there are in " + std::to_string(lo) + ".." + std::to_string(hi));
                if (sharp && e != exact) c.fail("merge", "merged cell (" + std::to_string(a) + "," + std::to_string(b) + ") has " + std::to_string(e) + ", the worst value at its center is " + std::to_string(exact));
            }
        c.nontrivial(nz > 0);
    }
    // inverse reachability
    void inverse(Src& s, pbt::Ctx& c)
    {
        World w = world(s);
        w.base = 0;
        w.spec.n[0].local = M4::Identity();
        w.r = fromFactory(w.spec);
        std::vector<std::string> names;
        for (int i : w.chain) names.push_back(w.spec.n[i].name);
        w.set = RobotNodeSet::createRobotNodeSet(w.r, "chain", names, w.spec.n[1].name, w.spec.n[w.tcp].name, true);
        w.apply();
        ReachabilityPtr ws(new Reachability(w.r));
        Model m = setup(s, w, *ws, c, 4);
        m.each([&](const Vox& v) { if (s.chance(0.7)) { unsigned vv[6]; std::copy(v.begin(), v.end(), vv); ws->setVoxelEntry(vv, (unsigned char)(1 + (m.at(v) * 37) % 255)); m.set(v, 1 + (m.at(v) * 37) % 255); } });
        M4 keep = w.place;
        GModel g;
        g.step = fl(s.pick(std::vector<double>{20, 40, 90}));
        double span = s.uniform(100, 1500);
        g.x0 = fl(-span); g.x1 = fl(span); g.y0 = fl(-span); g.y1 = fl(span);
        WorkspaceGridPtr gr(new WorkspaceGrid((float)g.x0, (float)g.x1, (float)g.y0, (float)g.y1, (float)g.step));
        gr->getCells(g.nx, g.ny);
        g.e.assign(g.nx * g.ny, 0);
        g.g.assign(g.nx * g.ny, {});
        // a grasp pose at a reachable height and orientation
        double x[6];
        inside(s, m, anyVox(s, m), x);
        if (!usable(m, x)) c.discard();
        M4 grasp = mk(hopfRot(x[3], x[4], x[5]), V3(x[0] + s.uniform(-200, 200), x[1] + s.uniform(-200, 200), x[2]));
        ManipulationObjectPtr ob(new ManipulationObject("ob"));
        ob->setGlobalPose(f4(pose(s, 300)));
        GraspPtr gp(new Grasp("g", "r", "e", f4(inv(grasp) * d4(ob->getGlobalPose()))));
        RobotNodePtr base = w.r->getRobotNode("n0");
        c.check(gr->fillGridData(ws, ob, gp, base), "inverse", "fillGridData failed");
        c.near((d4(w.r->getGlobalPose()) - keep).norm(), 0, 1e-3, "robot-moved", "robot pose changed by fillGridData");
        // every cut cell with an entry e: with the base placed at grasp * T^-1 the grasp has entry e
        World o = w;
        o.place = M4::Identity();
        w.r->setGlobalPose(Eigen::Matrix4f::Identity());
        Eigen::Matrix4f gf = gp->getTcpPoseGlobal(ob->getGlobalPose());
        auto cut = ws->createCut(gf, (float)g.step, false);
        auto tr = ws->createCutTransformations(cut, base);
        std::vector<char> touched(g.nx * g.ny, 0);
        for (auto& t : tr)
        {
            M4 b = d4(gf) * inv(d4(t->transformation));
            int i, j;
            double p = (b(0, 3) - g.x0) / g.cx(), q = (b(1, 3) - g.y0) / g.cy(), tol = 0.05;
            std::set<std::pair<int, int>> cand;
            for (double dx : {-tol, tol}) for (double dy : {-tol, tol}) cand.insert({(int)std::floor(p + dx / g.cx()), (int)std::floor(q + dy / g.cy())});
            if (cand.size() == 1)
            {
                std::tie(i, j) = *cand.begin();
                g.near(i, j, t->value, gp);
            }
            for (auto& k : cand) for (int a = -1; a <= 1; a++) for (int d = -1; d <= 1; d++) if (g.in(k.first + a, k.second + d)) touched[(k.first + a) * g.ny + k.second + d] = 1;
            // meaning of the cell: the robot based there reaches the grasp with this entry
            if (s.chance(0.1))
            {
                w.r->setGlobalPose(f4(b));
                Vox v;
                bool in;
                World at = w;
                at.place = b;
                if (vecOf(at, m, d4(gf), x, &v, &in)) c.check((in ? m.e[m.at(v)] : 0) == t->value, "inverse-meaning", "a robot placed at a cut transformation sees entry " + std::to_string(in ? m.e[m.at(v)] : 0) + " instead of " + std::to_string(t->value));
                w.r->setGlobalPose(Eigen::Matrix4f::Identity());
            }
        }
        int nz = 0;
        for (int a = 0; a < g.nx; a++)
            for (int b = 0; b < g.ny; b++)
            {
                int e = gr->getCellEntry(a, b);
                c.check(e >= g.at(a, b), "inverse", "grid cell (" + std::to_string(a) + "," + std::to_string(b) + ") has " + std::to_string(e) + " instead of at least " + std::to_string(g.at(a, b)));
                if (e) { nz++; c.check(touched[a * g.ny + b], "inverse", "grid cell (" + std::to_string(a) + "," + std::to_string(b) + ") has an entry without reachable base position"); }
            }
        c.describe(w.spec.summary() + " " + std::to_string(tr.size()) + " transformations, " + std::to_string(nz) + " of " + std::to_string(g.nx * g.ny) + " cells");
        c.nontrivial(nz > 0);
    }
}

int main(int argc, char** argv)
{
    pbt::Suite S;
    S.property = "P14";
    S.rule = "data is stored and read back: a history of several operations that leaves entries, a regular voxel, a cut or grid with entries, sampled poses, a file cut inside of its content";
    S.init = [] { initVR("P14"); };
    S.add("history", 9000, 90000, history);
    S.add("mapping", 12000, 120000, mapping);
    S.add("cuts", 6000, 60000, cuts);
    S.add("reachability", 3000, 30000, reach);
    S.add("self-collision", 600, 6000, selfcol);
    S.add("manipulability", 4800, 48000, manip);
    S.add("truncated", 3000, 30000, truncated);
    S.add("grid", 9000, 90000, grid);
    S.add("merge", 4800, 48000, merge);
    S.add("inverse", 1800, 18000, inverse);
    return pbt::run(argc, argv, S);
}
