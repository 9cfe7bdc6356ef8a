// libs: VirtualRobot
// P31: voxel trees are sparse arrays over the voxels of their space
#include "common/robotgen.h"
#include <VirtualRobot/Compression/CompressionBZip2.h>
#include <VirtualRobot/MathTools.h>
#include <VirtualRobot/Workspace/VoxelTree6D.hpp>
#include <VirtualRobot/Workspace/VoxelTreeND.hpp>
#include <array>
#include <fstream>
#include <set>
using namespace VirtualRobot;
using namespace gen;

namespace
{
    struct Rec // an entry type with more than one byte
    {
        float v; short k;
        bool operator>(const Rec& o) const { return v > o.v; }
        bool operator==(const Rec& o) const { return v == o.v && k == o.k; }
    };
    template <typename T> T val(Src& s) { return (T)s.draw(250); }
    template <> Rec val<Rec>(Src& s) { return Rec{(float)s.draw(2000) - 1000, (short)((int)s.draw(60000) - 30000)}; }
    template <typename T> bool less(const T& a, const T& b) { return a < b; }
    template <> bool less<Rec>(const Rec& a, const Rec& b) { return a.v < b.v; }

    template <unsigned N> struct Space
    {
        float lo[N], hi[N], discr[N];
        int levels = 1, cells = 1;
        std::string text;
        Space(Src& s)
        {
            int target = 1 + (int)s.draw(N > 3 ? 20 : N == 1 ? 700 : 40);
            bool tiny = s.chance(0.1);
            for (unsigned i = 0; i < N; i++)
            {
                float sz = (float)(s.chance(0.5) ? 10 * (1 + (int)s.draw(40)) : s.uniform(0.5, 3000));
                lo[i] = (float)(s.chance(0.3) ? 0 : s.chance(0.5) ? -sz / 2 : s.uniform(-2000, 2000));
                hi[i] = lo[i] + sz;
                discr[i] = (float)(tiny ? sz * s.uniform(1, 4) : sz / (1 + s.uniform(0, target)));
                if (s.chance(0.3)) discr[i] = sz / (1 + (int)s.draw(target));
                text += (i ? " " : "") + std::to_string(lo[i]) + ".." + std::to_string(hi[i]) + "/" + std::to_string(discr[i]);
            }
        }
    };
    // a voxel index for each dimension
    template <unsigned N> struct Cell : std::array<int, N> {};

    template <unsigned N> Cell<N> cell(Src& s, int cells)
    {
        Cell<N> c;
        for (auto& x : c) x = s.chance(0.3) ? (s.chance(0.5) ? 0 : cells - 1) : (int)s.draw(cells);
        return c;
    }
    template <unsigned N> void point(Src& s, const Space<N>& sp, const Cell<N>& c, int cells, float* p)
    {
        for (unsigned i = 0; i < N; i++)
        {
            double e = ((double)sp.hi[i] - sp.lo[i]) / cells;
            p[i] = (float)(sp.lo[i] + e * (c[i] + s.uniform(0.05, 0.95)));
            if (c[i] == 0 && s.chance(0.1)) p[i] = sp.lo[i];
            if (c[i] == cells - 1 && s.chance(0.1)) p[i] = (sp.lo[i] + (sp.hi[i] - sp.lo[i]) * 0.9999f);
        }
    }
    template <unsigned N> void outside(Src& s, const Space<N>& sp, float* p)
    {
        for (unsigned i = 0; i < N; i++) p[i] = (float)(sp.lo[i] + ((double)sp.hi[i] - sp.lo[i]) * s.unit());
        unsigned k = (unsigned)s.draw(N);
        double sz = (double)sp.hi[k] - sp.lo[k];
        p[k] = (float)(s.chance(0.5) ? sp.lo[k] - sz * s.uniform(0.01, 2) : sp.hi[k] + sz * s.uniform(0.01, 2));
    }
    template <typename T, unsigned N> struct Model : std::map<Cell<N>, T> {};

    template <typename T, unsigned N> void compare(pbt::Ctx& c, VoxelTreeND<T, N>& t, const Space<N>& sp, const Model<T, N>& m, int cells, const std::string& when)
    {
        // all elements, by the iterator
        std::set<VoxelTreeNDElement<T, N>*> seen;
        typename VoxelTreeND<T, N>::ElementIterator it;
        Model<T, N> got;
        size_t guard = 0;
        for (auto e = it.init(&t); e; e = it.getNextElement())
        {
            c.check(++guard <= m.size() + 1, "iterator", "the iterator returns more than the stored elements" + when);
            c.check(e->isLeaf() && seen.insert(e).second, "iterator", "the iterator returns an element twice or an inner one" + when);
            if (!e->getEntry()) { c.check(m.empty(), "iterator", "leaf without entry" + when); continue; }
            Eigen::VectorXf x = e->getVoxelCenter();
            Cell<N> k;
            for (unsigned i = 0; i < N; i++)
            {
                double e1 = ((double)sp.hi[i] - sp.lo[i]) / cells, f = (x(i) - sp.lo[i]) / e1;
                k[i] = (int)std::floor(f);
                c.check(std::fabs(f - k[i] - 0.5) < 0.02, "center", "voxel centre " + std::to_string(f) + " voxels from the start" + when);
                c.check(std::fabs(e->getExtend(i) - e1) < 1e-3 * e1, "extend", "extend of a voxel" + when);
            }
            got[k] = *e->getEntry();
        }
        c.check(got == m, "iterator", "the iterator finds " + std::to_string(got.size()) + " entries, " + std::to_string(m.size()) + " are stored, or other values" + when);
        std::set<std::vector<int>> inner; // nodes: all prefixes of the paths to the entries
        int lv = t.getMaxLevels();
        inner.insert(std::vector<int>{0});
        for (auto& e : m)
            for (int l = 1; l < lv; l++)
            {
                std::vector<int> k{l};
                for (int x : e.first) k.push_back(x >> (lv - 1 - l));
                inner.insert(k);
            }
        c.check(t.getNumNodes() == (long)inner.size(), "nodes", "number of nodes " + std::to_string(t.getNumNodes()) + ", expected " + std::to_string(inner.size()) + when);
    }
    template <typename T, unsigned N> void nd(Src& s, pbt::Ctx& c)
    {
        Space<N> sp(s);
        c.describe("N=" + std::to_string(N) + " " + sp.text);
        std::unique_ptr<VoxelTreeND<T, N>> t;
        try { t.reset(new VoxelTreeND<T, N>(sp.lo, sp.hi, sp.discr, false)); }
        catch (VirtualRobotException&)
        {
            for (unsigned i = 0; i < N; i++) c.check((sp.hi[i] - sp.lo[i]) / sp.discr[i] < 0.51, "construct", "a valid space is rejected");
            c.discard();
            return;
        }
        int lv = t->getMaxLevels();
        c.check(lv >= 1 && lv < 20, "levels", "number of levels " + std::to_string(lv));
        int cells = 1 << (lv - 1);
        float f[N], g[N], h[N], d[N];
        t->getSize(f); t->getMinExtend(g); t->getMaxExtend(h); t->getDiscretization(d);
        for (unsigned i = 0; i < N; i++) c.check(f[i] == sp.hi[i] - sp.lo[i] && g[i] == sp.lo[i] && h[i] == sp.hi[i] && d[i] == sp.discr[i], "extends", "reported extends");
        t->getRealDiscretization(f);
        double finest = 0;
        for (unsigned i = 0; i < N; i++)
        {
            double sz = (double)sp.hi[i] - sp.lo[i];
            c.check(std::fabs(f[i] - sz / cells) < 1e-4 * sz / cells, "real", "real discretization");
            c.check(f[i] <= sp.discr[i] * 1.51 , "coarse", "voxels of " + std::to_string(f[i]) + " for a discretization of " + std::to_string(sp.discr[i]));
            finest = std::max(finest, f[i] / std::min((double)sp.discr[i], sz));
        }
        c.check(finest > 0.24, "fine", "voxels are at most " + std::to_string(finest) + " of the requested size in any dimension");
        Model<T, N> m;
        std::vector<Cell<N>> used;
        int n = 1 + (int)s.draw(s.chance(0.1) ? 150 : 20), over = 0;
        auto some = [&] {
            if (!used.empty() && s.chance(0.5))
            {
                Cell<N> k = s.pick(used);
                if (s.chance(0.4)) { int& x = k[s.draw(N)]; x = std::max(0, std::min(cells - 1, x + (s.chance(0.5) ? 1 : -1))); }
                return k;
            }
            return cell<N>(s, cells);
        };
        auto look = [&](const std::string& when) {
            float p[N];
            auto k = some();
            point(s, sp, k, cells, p);
            T* e = t->getEntry(p);
            auto it = m.find(k);
            c.check(!!e == (it != m.end()) && (!e || *e == it->second), "entry", std::string(e ? "an entry" : "no entry") + " found, expected the other or another value" + when);
            c.check(t->getRoot()->hasEntry(p) == (it != m.end()), "has", "hasEntry" + when);
            auto l = t->getLeafElement(p);
            if (lv > 1) c.check(!!l == (it != m.end()) && (!l || (l->isLeaf() && l->getEntry() == e && l->getLevel() == lv - 1)), "leaf", "leaf element" + when);
            c.check(t->isCovered(p), "covered", "a position inside is not covered" + when);
            outside(s, sp, p);
            c.check(!t->isCovered(p) && !t->getEntry(p) && !t->getLeafElement(p) && !t->getRoot()->hasEntry(p), "outside", "entry outside of the space" + when);
        };
        for (int i = 0; i < n; i++)
        {
            float p[N];
            if (s.chance(0.1)) { outside(s, sp, p); c.check(!t->setEntry(p, val<T>(s)), "setOutside", "an entry was set outside of the space"); continue; }
            auto k = some();
            point(s, sp, k, cells, p);
            T v = val<T>(s);
            c.check(t->setEntry(p, v), "set", "an entry could not be set");
            over += m.count(k);
            m[k] = v; used.push_back(k);
            if (s.chance(0.3)) look("");
        }
        c.nontrivial(m.size() > 2 && lv > 2);
        for (int i = 0; i < 4; i++) look("");
        compare(c, *t, sp, m, cells, "");
        // sub-trees
        for (int i = 0; i < 3 && lv > 1; i++)
        {
            auto k = some();
            float p[N];
            point(s, sp, k, cells, p);
            unsigned depth = 1 + (unsigned)s.draw(N);
            Eigen::VectorXf x(depth);
            for (unsigned j = 0; j < depth; j++) x(j) = p[j];
            auto leafs = t->getAllLeafs(x);
            std::set<void*> u(leafs.begin(), leafs.end());
            size_t want = 0;
            const T* best = nullptr;
            for (auto& e : m)
            {
                bool in = true;
                for (unsigned j = 0; j < depth; j++) in = in && e.first[j] == k[j];
                if (!in) continue;
                want++;
                if (!best || less(*best, e.second)) best = &e.second;
            }
            c.check(u.size() == leafs.size() && leafs.size() == want, "leafs", std::to_string(leafs.size()) + " leafs below a position of " + std::to_string(depth) + " dimensions, expected " + std::to_string(want));
            for (auto l : leafs)
                for (unsigned j = 0; j < depth; j++)
                {
                    double e1 = ((double)sp.hi[j] - sp.lo[j]) / cells;
                    c.check(std::fabs((l->getVoxelCenter()(j) - sp.lo[j]) / e1 - k[j] - 0.5) < 0.02, "leafs", "a leaf of another place");
                }
            auto mx = t->getMaxEntry(x);
            c.check(!!mx == !!best, "max", "maximal entry");
            if (mx) c.check(!less(*mx->getEntry(), *best) && u.count(mx), "max", "the entry is not the maximal one");
        }
        if (s.chance(0.5) && !(lv == 1 && m.empty()))
        {
            std::string fn = pbt::scratch() + "/tree.bin";
            bool embedded = s.chance(0.4);
            if (embedded)
            {
                { std::ofstream o(fn.c_str(), std::ios::binary); FileIO::write<int>(o, 4711); c.check(t->save(o), "save", "save"); FileIO::write<int>(o, 815); }
                std::ifstream in(fn.c_str(), std::ios::binary);
                c.check(FileIO::read<int>(in) == 4711, "stream", "value before the tree");
                t.reset(VoxelTreeND<T, N>::load(in));
                c.check(!!t, "load", "load");
                c.check(FileIO::read<int>(in) == 815, "stream", "value behind the tree");
            }
            else
            {
                c.check(t->save(fn), "save", "save");
                t.reset(VoxelTreeND<T, N>::load(fn));
                c.check(!!t, "load", "load");
            }
            t->getMinExtend(g); t->getMaxExtend(h); t->getDiscretization(d);
            for (unsigned i = 0; i < N; i++) c.check(g[i] == sp.lo[i] && h[i] == sp.hi[i] && d[i] == sp.discr[i], "loadExtends", "extends after loading");
            c.check(t->getMaxLevels() == lv, "loadLevels", "levels after loading");
            compare(c, *t, sp, m, cells, " after loading");
            for (int i = 0; i < 4; i++) look(" after loading");
            for (int i = (int)s.draw(8); i > 0; i--)
            {
                auto k = some();
                float p[N];
                point(s, sp, k, cells, p);
                T v = val<T>(s);
                c.check(t->setEntry(p, v), "set", "an entry could not be set after loading");
                m[k] = v; used.push_back(k);
                look(" after loading");
            }
            compare(c, *t, sp, m, cells, " after loading and changing");
            // and once more: the identifiers have to stay consistent
            if (m.empty() && lv == 1) return;
            c.check(t->save(fn), "save", "save again");
            t.reset(VoxelTreeND<T, N>::load(fn));
            c.check(!!t, "load", "load again");
            compare(c, *t, sp, m, cells, " after loading twice");
            long a, b;
            t->getMemoryConsumtion(a, b);
            c.check(b == (long)(m.size() * sizeof(T)), "memory", "memory of the data");
        }
    }
    void trees(Src& s, pbt::Ctx& c)
    {
        switch (s.draw(7))
        {
            case 0: nd<unsigned char, 1>(s, c); break;
            case 1: nd<Rec, 2>(s, c); break;
            case 2: nd<int, 3>(s, c); break;
            case 3: nd<Rec, 3>(s, c); break;
            case 4: nd<unsigned short, 4>(s, c); break;
            default: nd<unsigned char, 6>(s, c);
        }
    }
    void sixD(Src& s, pbt::Ctx& c)
    {
        // positions and orientations with one discretization each
        Space<6> sp(s);
        float dt = (float)s.uniform(5, 200), dr = (float)s.uniform(0.1, 4);
        double need = 0;
        for (int i = 0; i < 6; i++)
        {
            float sz = (float)(i < 3 ? s.uniform(50, 1000) : s.uniform(0.5, 6.5));
            sp.lo[i] = (float)(s.chance(0.5) ? -sz / 2 : s.uniform(-3, 3) * (i < 3 ? 300 : 1));
            sp.hi[i] = sp.lo[i] + sz;
            sp.discr[i] = i < 3 ? dt : dr;
            need = std::max(need, (double)sz / sp.discr[i]);
        }
        for (int i = 0; i < 6; i++) c.describe((i ? "" : std::to_string(dt) + " " + std::to_string(dr)) + " " + std::to_string(sp.lo[i]) + ".." + std::to_string(sp.hi[i]));
        VoxelTree6D<int>* raw = nullptr;
        try { raw = new VoxelTree6D<int>(sp.lo, sp.hi, dt, dr); }
        catch (VirtualRobotException&) { c.check(need < 0.51, "construct", "a valid space is rejected"); c.discard(); return; }
        std::unique_ptr<VoxelTree6D<int>> t(raw);
        // entries more than the discretization apart are different ones
        std::vector<std::array<float, 6>> pts;
        std::vector<int> vals;
        int n = 1 + (int)s.draw(15);
        for (int i = 0; i < n; i++)
        {
            std::array<float, 6> p;
            for (int j = 0; j < 6; j++) p[j] = (float)(sp.lo[j] + ((double)sp.hi[j] - sp.lo[j]) * s.uniform(0.001, 0.999));
            if (!pts.empty() && s.chance(0.6))
            {
                p = s.pick(pts);
                int j = (int)s.draw(6);
                float x = p[j] + (s.chance(0.5) ? 1 : -1) * sp.discr[j] * (float)s.uniform(1.55, 2.5);
                if (x > sp.lo[j] && x < sp.hi[j]) p[j] = x;
            }
            bool apart = true;
            for (auto& q : pts)
            {
                bool a = false;
                for (int j = 0; j < 6; j++) a = a || std::fabs(p[j] - q[j]) > 1.52 * sp.discr[j];
                apart = apart && a;
            }
            if (!apart) continue;
            c.check(!t->getEntry(p.data()), "shared", "two positions more than 1.5 times the discretization apart share an entry");
            c.check(t->setEntry(p.data(), i), "set", "set");
            pts.push_back(p); vals.push_back(i);
            float o[6];
            outside(s, sp, o);
            c.check(!t->setEntry(o, 5) && !t->getEntry(o), "outside", "entry outside of the space");
        }
        for (size_t i = 0; i < pts.size(); i++)
        {
            int* e = t->getEntry(pts[i].data());
            c.check(e && *e == vals[i], "entry", "the entry is lost or overwritten");
            if (s.chance(0.3)) { vals[i] += 100; t->setEntry(pts[i].data(), vals[i]); }
        }
        for (size_t i = 0; i < pts.size(); i++)
        {
            int* e = t->getEntry(pts[i].data());
            c.check(e && *e == vals[i], "entry", "the entry is lost or overwritten");
        }
        c.nontrivial(pts.size() > 2);
    }
    void files(Src& s, pbt::Ctx& c)
    {
        // damaged files are rejected
        Space<3> sp(s);
        sp.discr[0] = std::min(sp.discr[0], sp.hi[0] - sp.lo[0]);
        VoxelTreeND<int, 3> t(sp.lo, sp.hi, sp.discr);
        int cells = 1 << (t.getMaxLevels() - 1);
        for (int i = 1 + (int)s.draw(30); i > 0; i--) { float p[3]; point(s, sp, cell<3>(s, cells), cells, p); t.setEntry(p, (int)s.draw(1000)); }
        std::string fn = pbt::scratch() + "/tree.bin";
        c.check(t.save(fn), "save", "save");
        std::string b;
        { std::ifstream in(fn.c_str(), std::ios::binary); std::stringstream o; o << in.rdbuf(); b = o.str(); }
        int what = (int)s.draw(3);
        bool other = false;
        if (what == 0) { size_t n = s.draw(b.size()); b = b.substr(0, n); c.describe("first " + std::to_string(n) + " bytes"); }
        else if (what == 1) { size_t at = s.draw(44) + 4; c.describe("byte " + std::to_string(at)); b[at] = (char)(b[at] ^ (1 << s.draw(8))); if (at >= 27 + 4 && false) return; }
        else other = true;
        { std::ofstream o(fn.c_str(), std::ios::binary); o << b; }
        bool bad = false;
        try
        {
            if (other && s.chance(0.5)) { std::unique_ptr<VoxelTreeND<int, 4>> l(VoxelTreeND<int, 4>::load(fn)); bad = !l; }
            else if (other) { std::unique_ptr<VoxelTreeND<short, 3>> l(VoxelTreeND<short, 3>::load(fn)); bad = !l; }
            else { std::unique_ptr<VoxelTreeND<int, 3>> l(VoxelTreeND<int, 3>::load(fn)); bad = !l; }
        }
        catch (VirtualRobotException&) { bad = true; }
        c.check(bad, "damaged", "a damaged file was loaded");
        c.nontrivial(true);
        bad = false;
        try { VoxelTreeND<int, 3>::load(fn + "none"); } catch (VirtualRobotException&) { bad = true; }
        c.check(bad, "missing", "a missing file was loaded");
    }
}
int main(int argc, char** argv)
{
    pbt::Suite u;
    u.property = "P31";
    u.rule = "more than two entries in a tree of at least three levels, or damaged files";
    u.add("trees", 14000, 200000, trees);
    u.add("sixD", 10000, 200000, sixD);
    u.add("files", 2000, 40000, files);
    return pbt::run(argc, argv, u);
}
