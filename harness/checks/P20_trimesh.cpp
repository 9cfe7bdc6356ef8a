// libs: VirtualRobot
// P20: triangle mesh operations and STL import
#include "common/shapes.h"
#include <climits>
#include <cstring>
#include <fstream>
#include <numeric>
#include <sstream>
#include <VirtualRobot/Import/MeshImport/STLReader.h>
#include <VirtualRobot/MathTools.h>
#include <VirtualRobot/Visualization/TriMeshModel.h>
#include <VirtualRobot/Visualization/TriMeshUtils.h>
using namespace VirtualRobot;
using namespace gen;

namespace
{
    using Color = VisualizationFactory::Color;
    using Face = MathTools::TriangleFace;
    typedef Eigen::Vector3f F3;

    std::string str(const F3& v) { return "(" + num(v[0]) + "," + num(v[1]) + "," + num(v[2]) + ")"; }
    Color color(Src& s) { return Color((float)s.draw(4) / 4, (float)s.draw(4) / 4, (float)s.draw(4) / 4, (float)s.draw(2) / 2); }
    bool same(const Color& a, const Color& b) { return a.r == b.r && a.g == b.g && a.b == b.b && a.transparency == b.transparency; }

    // closed or open mesh with shared vertices (consistent, outward orientation)
    struct Indexed { std::vector<F3> v; std::vector<std::array<unsigned, 3>> f; };
    Indexed surface(Src& s, double span)
    {
        Indexed m;
        auto P = [&](double x, double y, double z) { m.v.push_back(F3((float)x, (float)y, (float)z)); };
        switch (s.draw(3))
        {
            case 0: // grid with heights
            {
                int a = (int)s.integer(1, 4), b = (int)s.integer(1, 4);
                for (int i = 0; i <= a; i++) for (int j = 0; j <= b; j++) P(i * span / 4, j * span / 4, s.real(-span / 8, span / 8));
                auto id = [&](int i, int j) { return (unsigned)(i * (b + 1) + j); };
                for (int i = 0; i < a; i++) for (int j = 0; j < b; j++)
                    {
                        m.f.push_back({id(i, j), id(i + 1, j), id(i + 1, j + 1)});
                        m.f.push_back({id(i, j), id(i + 1, j + 1), id(i, j + 1)});
                    }
                break;
            }
            case 1: // bipyramid
            {
                int n = (int)s.integer(3, 8);
                for (int i = 0; i < n; i++) P(span * std::cos(2 * M_PI * i / n), span * std::sin(2 * M_PI * i / n), s.real(-span / 10, span / 10));
                P(0, 0, span * s.uniform(0.3, 1));
                P(0, 0, -span * s.uniform(0.3, 1));
                for (int i = 0; i < n; i++)
                {
                    unsigned x = i, y = (i + 1) % n;
                    m.f.push_back({x, y, (unsigned)n});
                    m.f.push_back({y, x, (unsigned)n + 1});
                }
                break;
            }
            case 2: // strip (long chain of neighbours)
            {
                int n = (int)s.integer(2, 12);
                for (int i = 0; i <= n + 1; i++) P(i * span / 6, (i % 2) * span / 4, s.real(-span / 8, span / 8));
                for (int i = 0; i < n; i++) { if (i % 2) m.f.push_back({(unsigned)i + 1, (unsigned)i, (unsigned)i + 2}); else m.f.push_back({(unsigned)i, (unsigned)i + 1, (unsigned)i + 2}); }
                break;
            }
            default: // box
                for (int i = 0; i < 8; i++) P((i & 1 ? 1 : -1) * span / 2, (i & 2 ? 1 : -1) * span / 3, (i & 4 ? 1 : -1) * span / 4);
                m.f = {{0, 2, 1}, {1, 2, 3}, {4, 5, 6}, {5, 7, 6}, {0, 1, 4}, {1, 5, 4}, {2, 6, 3}, {3, 6, 7}, {0, 4, 2}, {2, 4, 6}, {1, 3, 5}, {3, 7, 5}};
        }
        // shuffle the faces and rotate their corners
        for (size_t i = m.f.size(); i > 1; i--) std::swap(m.f[i - 1], m.f[s.draw(i - 1)]);
        for (auto& f : m.f) std::rotate(f.begin(), f.begin() + s.draw(2), f.end());
        return m;
    }
    // a mesh in one of the forms users build: separate triangles, indexed, indexed with partial colors and normals
    TriMeshModelPtr make(Src& s, double span, std::string& h, bool partial = true)
    {
        TriMeshModelPtr t(new TriMeshModel());
        Indexed m;
        if (s.chance(0.3))
        {
            auto q = soup(s, (int)s.integer(1, 8), span);
            for (auto& x : q) { unsigned k = m.v.size(); m.v.push_back(f3(x.a)); m.v.push_back(f3(x.b)); m.v.push_back(f3(x.c)); m.f.push_back({k, k + 1, k + 2}); }
            h += "soup of " + std::to_string(q.size());
        }
        else { m = surface(s, span); h += "surface " + std::to_string(m.v.size()) + "v " + std::to_string(m.f.size()) + "f"; }
        if (s.chance(0.4))
        {
            h += " (separate triangles)";
            for (auto& f : m.f)
            {
                if (s.chance(0.5)) t->addTriangleWithFace(m.v[f[0]], m.v[f[1]], m.v[f[2]]);
                else t->addTriangleWithFace(m.v[f[0]], m.v[f[1]], m.v[f[2]], TriMeshModel::CreateNormal(m.v[f[0]], m.v[f[1]], m.v[f[2]]), color(s), color(s), color(s));
            }
            return t;
        }
        h += " (indexed)";
        int unused = s.chance(0.3) ? (int)s.integer(1, 3) : 0;
        std::vector<unsigned> id;
        for (auto& v : m.v) { if (unused && s.chance(0.3)) { t->addVertex(f3(vec(s, span))); unused--; } id.push_back(t->addVertex(v)); }
        int mode = partial ? (int)s.draw(2) : 2;
        for (auto& f : m.f)
        {
            if (s.chance(0.3)) { t->addFace(id[f[0]], id[f[1]], id[f[2]]); continue; }
            Face x;
            x.set(id[f[0]], id[f[1]], id[f[2]]);
            x.normal = TriMeshModel::CreateNormal(m.v[f[0]], m.v[f[1]], m.v[f[2]]);
            if (mode < 2)
            {
                unsigned none = UINT_MAX;
                x.setNormal(s.chance(0.5) ? none : t->addNormal(x.normal), s.chance(0.5) ? none : t->addNormal(x.normal), s.chance(0.5) ? none : t->addNormal(x.normal));
                x.setColor(s.chance(0.5) ? none : t->addColor(color(s)), s.chance(0.5) ? none : t->addColor(color(s)), s.chance(0.5) ? none : t->addColor(color(s)));
            }
            t->addFace(x);
        }
        return t;
    }
    F3 V(const TriMeshModelPtr& t, const Face& f, int k) { return t->vertices.at(k == 0 ? f.id1 : k == 1 ? f.id2 : f.id3); }
    unsigned ID(const Face& f, int k) { return k == 0 ? f.id1 : k == 1 ? f.id2 : f.id3; }
    unsigned CI(const Face& f, int k) { return k == 0 ? f.idColor1 : k == 1 ? f.idColor2 : f.idColor3; }
    unsigned NI(const Face& f, int k) { return k == 0 ? f.idNormal1 : k == 1 ? f.idNormal2 : f.idNormal3; }

    // every id refers to an existing entry and the bounding box is the one of the vertices
    void wellFormed(const pbt::Ctx& c, const TriMeshModelPtr& t, const std::string& what)
    {
        for (auto& f : t->faces)
            for (int k = 0; k < 3; k++)
            {
                c.check(ID(f, k) < t->vertices.size(), "vertex-id", what + ": a face refers to a vertex that does not exist");
                c.check(CI(f, k) == UINT_MAX || CI(f, k) < t->colors.size(), "color-id", what + ": a face refers to color " + std::to_string(CI(f, k)) + " of " + std::to_string(t->colors.size()));
                c.check(NI(f, k) == UINT_MAX || NI(f, k) < t->normals.size(), "normal-id", what + ": a face refers to a normal that does not exist");
            }
        if (t->vertices.empty()) return;
        V3 lo = d3(t->vertices[0]), hi = lo;
        for (auto& v : t->vertices) { lo = lo.cwiseMin(d3(v)); hi = hi.cwiseMax(d3(v)); }
        double e = 1e-5 * std::max(hi.norm(), lo.norm());
        sameVec(c, d3(t->boundingBox.getMin()), lo, e, "bounding-box", what + ": bounding box minimum");
        sameVec(c, d3(t->boundingBox.getMax()), hi, e, "bounding-box", what + ": bounding box maximum");
        F3 a, b;
        c.check(t->getSize(a, b), "size", what + ": getSize failed");
        sameVec(c, d3(a), lo, e, "size", what + ": getSize minimum");
        sameVec(c, d3(b), hi, e, "size", what + ": getSize maximum");
    }
    V3 areaVec(const TriMeshModelPtr& t, const Face& f) { V3 a = d3(V(t, f, 0)), b = d3(V(t, f, 1)), q = d3(V(t, f, 2)); return (b - a).cross(q - a); }

    // ------------------------------------------------------------- construction, areas, clone, scale, flip
    void basics(Src& s, pbt::Ctx& c)
    {
        std::string h;
        double span = s.pick(std::vector<double>{10, 100, 1000});
        auto t = make(s, span, h);
        c.describe(h);
        c.nontrivial();
        wellFormed(c, t, "as built");
        V3 com = V3::Zero();
        for (auto& v : t->vertices) com += d3(v);
        com /= t->vertices.size();
        sameVec(c, d3(t->getCOM()), com, 1e-4 * span, "com", "mean of the vertices");
        auto areas = t->getFaceAreas();
        c.check(areas.size() == t->faces.size(), "areas", "number of face areas");
        for (size_t i = 0; i < areas.size(); i++) c.near(areas[i], areaVec(t, t->faces[i]).norm() / 2, 1e-4 * span * span, "areas", "area of a face");
        for (auto& f : t->faces)
        {
            V3 n = d3(TriMeshModel::CreateNormal(V(t, f, 0), V(t, f, 1), V(t, f, 2))), a = areaVec(t, f);
            if (a.norm() < 0.05 * span) continue;
            sameVec(c, n, a.normalized(), 2e-3, "normal", "normal of a triangle");
        }
        // an appended copy contains the same triangles, colors and face normals
        TriMeshModelPtr u(new TriMeshModel());
        int k = (int)s.draw(2);
        for (int i = 0; i < k; i++) u->addTriangleWithFace(f3(vec(s, span)), f3(vec(s, span)), f3(vec(s, span)));
        u->addMesh(*t);
        c.check(u->faces.size() == t->faces.size() + k, "add-mesh", "number of faces after adding a mesh");
        wellFormed(c, u, "after adding a mesh");
        for (size_t i = 0; i < t->faces.size(); i++)
        {
            auto& a = t->faces[i];
            auto& b = u->faces[i + k];
            for (int j = 0; j < 3; j++)
            {
                c.check(V(t, a, j) == V(u, b, j), "add-mesh", "corner of an added triangle");
                if (CI(a, j) != UINT_MAX) c.check(same(t->colors[CI(a, j)], u->colors.at(CI(b, j))), "add-mesh", "color of an added triangle");
            }
            if (areaVec(t, a).norm() > 0.05 * span) sameVec(c, d3(b.normal), areaVec(t, a).normalized(), 2e-3, "add-mesh", "normal of an added triangle");
        }
        // scaled clone
        F3 f(1, 1, 1);
        if (s.chance(0.3)) { float q = (float)s.uniform(0.1, 3); f = F3(q, q, q); }
        else if (s.chance(0.8)) f = F3((float)s.uniform(0.1, 3), (float)s.uniform(0.1, 3), (float)s.uniform(0.1, 3));
        if (s.chance(0.3)) f = -f;
        auto w = f == F3(1, 1, 1) && s.chance(0.5) ? t->clone() : t->clone(f);
        c.describe(h + " scaled by " + str(f));
        c.check(w->vertices.size() == t->vertices.size() && w->faces.size() == t->faces.size() && w->colors.size() == t->colors.size() && w->normals.size() == t->normals.size() && w->materials.size() == t->materials.size(), "clone", "sizes of a clone");
        for (size_t i = 0; i < t->vertices.size(); i++) sameVec(c, d3(w->vertices[i]), d3(t->vertices[i]).cwiseProduct(d3(f)), 1e-5 * span, "scale", "scaled vertex");
        for (size_t i = 0; i < t->faces.size(); i++)
            for (int j = 0; j < 3; j++)
                c.check(ID(w->faces[i], j) == ID(t->faces[i], j) && CI(w->faces[i], j) == CI(t->faces[i], j) && NI(w->faces[i], j) == NI(t->faces[i], j), "clone", "ids of a cloned face");
        wellFormed(c, w, "scaled clone");
        if (f[0] > 0)
            for (auto& x : w->faces)
            {
                V3 a = areaVec(w, x);
                if (x.normal.norm() > 0.5 && x.normal.norm() < 1.5 && a.norm() > 0.05 * span) sameVec(c, d3(x.normal).normalized(), a.normalized(), 4e-3, "scale-normal", "face normal of the scaled mesh");
                for (int j = 0; j < 3; j++) if (NI(x, j) != UINT_MAX && a.norm() > 0.05 * span) sameVec(c, d3(w->normals[NI(x, j)]).normalized(), a.normalized(), 4e-3, "scale-normal", "vertex normal of the scaled mesh");
            }
        // the clone is independent
        auto before = t->vertices;
        auto nf = t->faces.size();
        w->fattenShrink(1);
        w->flipVertexOrientations();
        w->clear();
        c.check(w->vertices.empty() && w->faces.empty() && w->colors.empty() && w->normals.empty() && w->materials.empty(), "clear", "a cleared mesh is not empty");
        F3 a, b;
        c.check(!w->getSize(a, b), "clear", "a cleared mesh has a size");
        c.check(before == t->vertices && t->faces.size() == nf, "clone", "changing the clone changed the original");
        // flipping
        auto r = t->clone();
        r->flipVertexOrientations();
        for (size_t i = 0; i < t->faces.size(); i++)
        {
            auto &x = t->faces[i], &y = r->faces[i];
            V3 n = areaVec(t, x);
            sameVec(c, areaVec(r, y), -n, 1e-4 * span * span, "flip", "orientation of a flipped face");
            for (int j = 0; j < 3; j++)
                for (int l = 0; l < 3; l++)
                    if (ID(x, j) == ID(y, l))
                    {
                        c.check(CI(x, j) == CI(y, l), "flip-color", "flipping moved a color to another corner");
                        if (NI(x, j) != UINT_MAX) sameVec(c, d3(r->normals.at(NI(y, l))), -d3(t->normals[NI(x, j)]), 1e-5, "flip-normal", "normal of a corner of a flipped face");
                    }
        }
        r->flipVertexOrientations();
        for (size_t i = 0; i < t->faces.size(); i++) c.check(ID(t->faces[i], 0) == ID(r->faces[i], 0) && ID(t->faces[i], 1) == ID(r->faces[i], 1), "flip", "flipping twice isn't the identity");
        // setColor
        Color q = color(s);
        t->setColor(q);
        for (auto& x : t->colors) c.check(same(x, q), "set-color", "color after setColor");
        wellFormed(c, t, "after setColor");
    }

    // ------------------------------------------------------------- merging
    void merging(Src& s, pbt::Ctx& c)
    {
        std::string h;
        double span = s.pick(std::vector<double>{10, 100, 1000});
        auto t = make(s, span, h);
        float thr = s.chance(0.3) ? 0.0001f : (float)(std::pow(span * s.pick(std::vector<double>{0.0005, 0.01, 0.05}), 2)); // squared distance
        double r = std::sqrt((double)thr);
        // jitter: vertices near others, chains
        if (s.chance(0.6))
            for (auto& v : t->vertices) v += f3(vec(s, r * s.pick(std::vector<double>{0.1, 0.3, 1})));
        t->boundingBox.clear();
        t->boundingBox.addPoints(t->vertices);
        bool remove = s.chance(0.7);
        c.describe(h + " threshold " + num(r) + (remove ? " removing" : ""));
        auto old = t->clone();
        size_t n = old->vertices.size();
        t->mergeVertices(thr, remove);
        if (n && s.chance(0.02)) { TriMeshModel e; e.mergeVertices(thr, remove); }
        wellFormed(c, t, "after merging");
        c.check(t->faces.size() == old->faces.size(), "merge-faces", "merging changed the number of faces");
        if (!remove) c.check(t->vertices == old->vertices, "merge-keep", "vertices changed although none should be removed");
        // components of the threshold graph of the old vertices
        std::vector<int> comp(n);
        std::iota(comp.begin(), comp.end(), 0);
        std::function<int(int)> find = [&](int x) { return comp[x] == x ? x : comp[x] = find(comp[x]); };
        double tol = 1e-5 * span + 1e-3 * r;
        for (size_t i = 0; i < n; i++) for (size_t j = 0; j < i; j++) if ((d3(old->vertices[i]) - d3(old->vertices[j])).norm() < r + tol) comp[find((int)i)] = find((int)j);
        std::set<unsigned> used;
        int mergedCorners = 0;
        for (size_t i = 0; i < t->faces.size(); i++)
            for (int k = 0; k < 3; k++)
            {
                unsigned a = ID(old->faces[i], k), b = ID(t->faces[i], k);
                used.insert(b);
                F3 p = t->vertices[b];
                // the corner is now one of the old vertices of its component
                bool ok = false;
                for (size_t j = 0; j < n && !ok; j++) ok = old->vertices[j] == p && find((int)j) == find((int)a);
                c.check(ok, "merge-moved", "a corner was moved to a vertex that isn't close to it: from " + str(old->vertices[a]) + " to " + str(p));
                if (p != old->vertices[a]) mergedCorners++;
                c.check(CI(old->faces[i], k) == CI(t->faces[i], k), "merge-color", "merging changed the color of a corner");
            }
        if (mergedCorners) { c.nontrivial(); c.label("merged corners"); }
        // used vertices are further apart than the threshold
        std::vector<unsigned> u(used.begin(), used.end());
        for (size_t i = 0; i < u.size(); i++) for (size_t j = 0; j < i; j++)
                c.check((d3(t->vertices[u[i]]) - d3(t->vertices[u[j]])).norm() > r - tol, "merge-missed", "two vertices in use are closer than the threshold: " + str(t->vertices[u[i]]) + " " + str(t->vertices[u[j]]));
        if (remove) c.check(u.size() == t->vertices.size(), "merge-unused", "unused vertices left after merging");
        else
        {
            size_t k = t->removeUnusedVertices();
            c.check(k == n - u.size() && t->vertices.size() == u.size(), "remove-unused", "number of removed vertices");
            wellFormed(c, t, "after removing unused vertices");
        }
    }

    // ------------------------------------------------------------- missing normals and colors
    void missing(Src& s, pbt::Ctx& c)
    {
        std::string h;
        double span = s.pick(std::vector<double>{10, 100});
        auto t = make(s, span, h);
        // faces with vertex normals that differ from the face normal
        c.describe(h);
        int need = 0, needC = 0;
        for (auto& f : t->faces) for (int k = 0; k < 3; k++) { need += NI(f, k) == UINT_MAX; needC += CI(f, k) == UINT_MAX; }
        if (need && needC) c.nontrivial();
        auto old = t->clone();
        size_t n0 = t->normals.size();
        unsigned r = t->addMissingNormals();
        wellFormed(c, t, "after adding normals");
        c.check(t->normals.size() == n0 + r, "normals-count", "returned number of normals isn't the number of created ones");
        for (size_t i = 0; i < t->faces.size(); i++)
            for (int k = 0; k < 3; k++)
            {
                unsigned a = NI(old->faces[i], k), b = NI(t->faces[i], k);
                c.check(b != UINT_MAX, "normal-missing", "a corner has no normal after addMissingNormals");
                if (a != UINT_MAX) { c.check(a == b && old->normals[a] == t->normals[b], "normal-changed", "an existing normal was replaced"); continue; }
                V3 ar = areaVec(t, t->faces[i]);
                if (ar.norm() > 0.05 * span) sameVec(c, d3(t->normals[b]).normalized(), ar.normalized(), 2e-3, "normal-added", "added normal");
            }
        c.check(t->addMissingNormals() == 0, "normals-again", "normals are missing after adding the missing normals");
        // colors
        Color q = color(s);
        old = t->clone();
        old->mergeVertices();
        unsigned rc = t->addMissingColors(q);
        wellFormed(c, t, "after adding colors");
        c.check(t->vertices == old->vertices, "color-merge", "vertices after addMissingColors are not the merged ones");
        c.check(rc == (unsigned)needC, "color-count", "returned " + std::to_string(rc) + " created color entries, " + std::to_string(needC) + " were missing");
        std::map<unsigned, std::vector<Color>> known;
        for (auto& f : old->faces) for (int k = 0; k < 3; k++) if (CI(f, k) != UINT_MAX) known[ID(f, k)].push_back(old->colors[CI(f, k)]);
        for (size_t i = 0; i < t->faces.size(); i++)
            for (int k = 0; k < 3; k++)
            {
                unsigned a = CI(old->faces[i], k), b = CI(t->faces[i], k);
                c.check(b != UINT_MAX, "color-missing", "a corner has no color after addMissingColors");
                if (a != UINT_MAX) { c.check(same(old->colors[a], t->colors[b]), "color-changed", "an existing color was replaced"); continue; }
                auto& kn = known[ID(t->faces[i], k)];
                bool ok = kn.empty() && same(t->colors[b], q);
                for (auto& x : kn) ok = ok || same(x, t->colors[b]);
                c.check(ok, "color-added", "added color is neither the color of the vertex nor the default");
            }
        c.check(t->addMissingColors(q) == 0, "colors-again", "colors are missing after adding the missing colors");
    }

    // ------------------------------------------------------------- moving along averaged normals
    void fatten(Src& s, pbt::Ctx& c)
    {
        std::string h;
        double span = s.pick(std::vector<double>{10, 100, 1000});
        Indexed m = surface(s, span);
        TriMeshModelPtr t(new TriMeshModel());
        bool idx = s.chance(0.6), vn = s.chance(0.4);
        if (idx)
        {
            for (auto& v : m.v) t->addVertex(v);
            for (auto& f : m.f)
            {
                Face x;
                x.set(f[0], f[1], f[2]);
                x.normal = TriMeshModel::CreateNormal(m.v[f[0]], m.v[f[1]], m.v[f[2]]);
                if (vn) { unsigned k = t->addNormal(x.normal * (float)s.uniform(0.5, 3)); x.setNormal(k, k, k); }
                t->addFace(x);
            }
        }
        else
        {
            for (auto& f : m.f) t->addTriangleWithFace(m.v[f[0]], m.v[f[1]], m.v[f[2]]);
            t->mergeVertices(1e-6f * (float)(span * span) * 0.01f);
        }
        double off = span * s.real(-0.3, 0.3);
        bool upd = s.chance(0.5);
        int mode = (int)s.draw(3);
        c.describe(std::to_string(m.f.size()) + " faces, " + (idx ? "indexed" : "merged") + (vn ? " with vertex normals" : "") + " offset " + num(off) + (upd ? " updating normals" : ""));
        auto old = t->clone();
        std::vector<V3> avg(old->vertices.size(), V3::Zero());
        std::vector<double> sum(old->vertices.size(), 0);
        for (auto& f : old->faces)
            for (int k = 0; k < 3; k++)
            {
                V3 n = areaVec(old, f), p = d3(V(old, f, k)), a = d3(V(old, f, (k + 1) % 3)) - p, b = d3(V(old, f, (k + 2) % 3)) - p;
                double w = std::atan2(a.cross(b).norm(), a.dot(b));
                avg[ID(f, k)] += w * n.normalized();
                sum[ID(f, k)] += w;
            }
        if (mode == 0) { off = 0; upd = true; t->smoothNormalSurface(); c.label("smooth"); }
        else t->fattenShrink((float)off, upd);
        c.nontrivial();
        wellFormed(c, t, "after moving");
        c.check(t->vertices.size() == old->vertices.size() && t->faces.size() == old->faces.size(), "fatten-size", "number of vertices or faces changed");
        // smoothing may have reordered the vertices: compare by corner
        for (size_t i = 0; i < t->faces.size(); i++)
            for (int k = 0; k < 3; k++)
            {
                unsigned v = ID(old->faces[i], k);
                if (avg[v].norm() < 0.05 * sum[v]) continue;
                V3 n = avg[v].normalized();
                sameVec(c, d3(V(t, t->faces[i], k)), d3(old->vertices[v]) + off * n, 2e-3 * std::fabs(off) + 1e-4 * span, "fatten", "moved vertex");
                if (upd)
                {
                    c.check(NI(t->faces[i], k) != UINT_MAX, "fatten-normals", "no vertex normal although the normals should be updated");
                    sameVec(c, d3(t->normals.at(NI(t->faces[i], k))), n, 4e-3, "fatten-normals", "updated normal");
                }
            }
    }

    // ------------------------------------------------------------- orientation
    void orient(Src& s, pbt::Ctx& c)
    {
        Indexed m = surface(s, 100);
        TriMeshModelPtr t(new TriMeshModel());
        std::vector<bool> flipped;
        int nf = 0;
        double p = s.pick(std::vector<double>{0.1, 0.5, 0.9});
        bool sep = s.chance(0.4);
        if (!sep) for (auto& v : m.v) t->addVertex(v);
        for (auto& f : m.f)
        {
            bool fl = s.chance(p);
            flipped.push_back(fl);
            nf += fl;
            auto g = f;
            if (fl) std::swap(g[0], g[2]);
            if (sep) t->addTriangleWithFace(m.v[g[0]], m.v[g[1]], m.v[g[2]]);
            else { Face x; x.set(g[0], g[1], g[2]); x.normal = TriMeshModel::CreateNormal(m.v[g[0]], m.v[g[1]], m.v[g[2]]); t->addFace(x); }
        }
        c.describe(std::to_string(m.f.size()) + " faces, " + std::to_string(nf) + " flipped" + (sep ? ", separate vertices" : ""));
        if (nf && nf < (int)m.f.size()) c.nontrivial();
        auto old = t->clone();
        unsigned r = t->checkAndCorrectNormals(false);
        unsigned changed = 0;
        // all surfaces used here are connected over edges: the result has the orientation of one side
        std::vector<double> side;
        for (size_t i = 0; i < t->faces.size(); i++)
        {
            V3 a = areaVec(old, old->faces[i]), b = areaVec(t, t->faces[i]);
            c.near((a.cross(b)).norm(), 0, 1e-3 * a.squaredNorm(), "orient-geometry", "a face was changed");
            bool ch = a.dot(b) < 0;
            changed += ch;
            side.push_back(flipped[i] != ch ? -1 : 1);
            V3 n = d3(t->faces[i].normal);
            sameVec(c, n, b.normalized(), 2e-3, "orient-normal", "face normal after correcting the orientation");
        }
        for (size_t i = 1; i < side.size(); i++) c.check(side[i] == side[0], "orient", "neighbouring faces are oriented differently after correcting the normals");
        c.check(t->checkAndCorrectNormals(false) == 0, "orient-again", "a corrected mesh is corrected again");
        if (changed <= 1) c.check(r == changed, "orient-count", "returned " + std::to_string(r) + ", " + std::to_string(changed) + " faces were flipped");
    }

    // ------------------------------------------------------------- boxes
    void boxes(Src& s, pbt::Ctx& c)
    {
        M4 G = fl4(pose(s, 1000));
        double w = fl(s.uniform(1, 200)), hh = fl(s.uniform(1, 200)), d = fl(s.uniform(1, 200));
        int n = (int)s.integer(1, 5);
        std::vector<F3> pos;
        std::vector<Color> cols;
        for (int i = 0; i < n; i++) pos.push_back(f3(vec(s, 1000)));
        bool single = s.chance(0.3);
        int nc = (int)s.draw(single ? 12 : n);
        for (int i = 0; i < nc; i++) cols.push_back(color(s));
        Color def = color(s);
        if (single) { n = 1; pos.assign(1, F3(0, 0, 0)); }
        auto t = single ? TriMeshUtils::CreateBox(f4(G), w, hh, d, def, cols) : TriMeshUtils::CreateSparseBoxGrid(f4(G), pos, w, hh, d, def, cols);
        c.describe(std::to_string(n) + " boxes " + num(w) + "x" + num(hh) + "x" + num(d));
        c.nontrivial();
        c.check((int)t->faces.size() == 12 * n, "box-faces", "number of faces");
        wellFormed(c, t, "boxes");
        for (int i = 0; i < n; i++)
        {
            V3 o = rotOf(G) * d3(pos[i]) + trans(G);
            double vol = 0;
            std::set<int> seen;
            for (int k = 0; k < 12; k++)
            {
                auto& f = t->faces[12 * i + k];
                V3 q[3];
                for (int j = 0; j < 3; j++)
                {
                    q[j] = rotOf(G).transpose() * (d3(V(t, f, j)) - o);
                    sameVec(c, q[j].cwiseAbs(), V3(w, hh, d) / 2, 0.005, "box-corner", "corner of a box");
                    seen.insert((q[j][0] > 0) + 2 * (q[j][1] > 0) + 4 * (q[j][2] > 0));
                    bool per = single ? k < nc : i < nc;
                    Color want = per ? cols[single ? k : i] : def;
                    c.check(same(t->colors.at(CI(f, j)), want), "box-color", "color of a box");
                }
                vol += q[0].dot(q[1].cross(q[2])) / 6;
            }
            c.check(seen.size() == 8, "box-corner", "not all corners of the box are used");
            c.near(vol, w * hh * d, 2e-3 * w * hh * d + 0.01 * (w * hh + hh * d + w * d), "box-volume", "volume enclosed by the outward oriented faces");
        }
    }

    // ------------------------------------------------------------- STL
    struct StlTri { F3 n, v[3]; };
    void put(std::string& b, const void* p, size_t n) { b.append((const char*)p, n); }
    std::string binary(const std::vector<StlTri>& T, const std::string& head)
    {
        std::string b = head;
        b.resize(80, 0);
        uint32_t n = T.size();
        put(b, &n, 4);
        for (auto& t : T)
        {
            float f[12];
            for (int i = 0; i < 3; i++) { f[i] = t.n[i]; for (int j = 0; j < 3; j++) f[3 + 3 * j + i] = t.v[j][i]; }
            put(b, f, 48);
            b.append(2, 0);
        }
        return b;
    }
    std::string ascii(Src& s, const std::vector<StlTri>& T, const std::string& name)
    {
        std::string o;
        std::string nl = s.chance(0.3) ? "\r\n" : "\n", in = s.pick(std::vector<std::string>{"", "  ", "\t"});
        bool up = s.chance(0.2);
        const char* fmt = s.chance(0.5) ? "%.9g" : "%.9e";
        auto u = [&](std::string x) { if (up) for (auto& ch : x) ch = toupper(ch); return x; };
        auto vec = [&](const F3& v) { std::string r; char b[64]; for (int i = 0; i < 3; i++) { snprintf(b, 64, fmt, (double)v[i]); r += std::string(" ") + b; } return r; };
        o += u("solid") + " " + name + nl;
        for (auto& t : T)
        {
            if (s.chance(0.05)) o += nl;
            o += in + u("facet normal") + vec(t.n) + nl + in + in + u("outer loop") + nl;
            for (auto& v : t.v) o += in + in + in + u("vertex") + vec(v) + nl;
            o += in + in + u("endloop") + nl + in + u("endfacet") + nl;
        }
        o += u("endsolid") + " " + name + (s.chance(0.7) ? nl : "");
        return o;
    }
    std::vector<StlTri> stlData(Src& s, int maxN)
    {
        std::vector<StlTri> T;
        double span = s.pick(std::vector<double>{1, 100, 1e4});
        std::vector<F3> pool;
        int n = (int)s.integer(0, maxN);
        for (int i = 0; i < n; i++)
        {
            StlTri t;
            for (auto& v : t.v)
            {
                if (!pool.empty() && s.chance(0.5)) v = s.pick(pool);
                else { v = f3(vec(s, span)); if (!pool.empty() && s.chance(0.2)) { v = s.pick(pool); v[s.draw(2)] = (float)s.real(-span, span); } pool.push_back(v); }
            }
            t.n = TriMeshModel::CreateNormal(t.v[0], t.v[1], t.v[2]);
            T.push_back(t);
        }
        return T;
    }
    bool deg(const StlTri& t) { return t.v[0] == t.v[1] || t.v[0] == t.v[2] || t.v[1] == t.v[2]; }
    void expectStl(const pbt::Ctx& c, const TriMeshModelPtr& t, const std::vector<StlTri>& T, float sc, const std::string& what)
    {
        wellFormed(c, t, what);
        size_t k = 0;
        for (auto& x : T)
        {
            if (deg(x)) continue;
            c.check(k < t->faces.size(), "stl-faces", what + ": " + std::to_string(t->faces.size()) + " faces read, more were stored");
            auto& f = t->faces[k++];
            for (int j = 0; j < 3; j++)
            {
                F3 w = x.v[j] * sc;
                c.check(V(t, f, j) == w, "stl-vertex", what + ": corner " + str(V(t, f, j)) + " read, " + str(w) + " stored");
                c.check(NI(f, j) != UINT_MAX && t->normals.at(NI(f, j)) == x.n, "stl-normal", what + ": normal of a facet");
            }
        }
        c.check(k == t->faces.size(), "stl-faces", what + ": " + std::to_string(t->faces.size()) + " faces read, " + std::to_string(k) + " stored");
        std::set<std::vector<float>> u;
        for (auto& v : t->vertices) c.check(u.insert({v[0] + 0.f, v[1] + 0.f, v[2] + 0.f}).second, "stl-shared", what + ": a vertex is stored twice");
    }
    std::string file(const std::string& name, const std::string& data)
    {
        std::string p = pbt::scratch() + "/" + name;
        std::ofstream(p, std::ios::binary) << data;
        return p;
    }
    void stl(Src& s, pbt::Ctx& c)
    {
        auto T = stlData(s, 12);
        float sc = s.chance(0.5) ? 1.f : (float)s.pick(std::vector<double>{1000, 0.001, 2.5});
        std::string name = s.pick(std::vector<std::string>{"part", "", "outer shell", "a facet normal to b", "solid"});
        bool bin = s.chance(0.5);
        std::string head = s.pick(std::vector<std::string>{"", "binary", "solid as many tools write", "outer loop"});
        std::string data = bin ? binary(T, head) : ascii(s, T, name);
        STLReader r;
        if (sc != 1.f) r.setScaling(sc);
        TriMeshModelPtr t(new TriMeshModel());
        bool ok;
        int how = (int)s.draw(2);
        std::string fn;
        if (how == 0)
        {
            std::stringstream ss(data);
            ok = r.read(ss, bin ? STLReader::STLB : STLReader::STLA, t);
        }
        else
        {
            fn = how == 1 ? s.pick(std::vector<std::string>{"m.stl", "m.STL"}) : bin ? "m.stlb" : "m.stla";
            ok = r.read(file(fn, data), t);
        }
        c.describe((bin ? "binary" : "ascii '" + name + "'") + " " + std::to_string(T.size()) + " facets, scaling " + num(sc) + (how ? " file " + fn : " stream") + ", " + std::to_string(data.size()) + " bytes");
        if (T.size() > 1) c.nontrivial();
        c.check(ok, "stl-read", "a valid file isn't read");
        expectStl(c, t, T, sc, bin ? "binary" : "ascii");
    }
    void stlBroken(Src& s, pbt::Ctx& c)
    {
        auto T = stlData(s, 6);
        bool bin = s.chance(0.5);
        std::string data = bin ? binary(T, "x") : ascii(s, T, "x");
        std::string h = bin ? "binary" : "ascii";
        size_t full = data.size();
        bool cut = false, cutAscii = false;
        switch (s.draw(4))
        {
            case 0: data.resize(s.draw(data.size())); cut = data.size() + 2 < full; cutAscii = true; h += " cut to " + std::to_string(data.size()) + " of " + std::to_string(full); break;
            case 1: { int n = (int)s.integer(1, 6); for (int i = 0; i < n && !data.empty(); i++) data[s.draw(data.size() - 1)] = (char)s.draw(255); h += " mutated"; break; }
            case 2: if (bin && data.size() >= 84) { uint32_t n = s.pick(std::vector<uint32_t>{0xffffffffu, 0x7fffffffu, 1000000000u, (uint32_t)T.size() + 1, 0x80000000u}); std::memcpy(&data[80], &n, 4); h += " count " + std::to_string(n); cut = n > T.size(); } break;
            case 3: // not a number
                if (bin && T.size()) { float v = s.pick(std::vector<float>{NAN, INFINITY, -INFINITY}); size_t k = 84 + 50 * s.draw(T.size() - 1) + 12 + 4 * s.draw(8); std::memcpy(&data[k], &v, 4); h += " with " + num(v); }
                break;
            default: { size_t a = s.draw(data.size()), b = s.draw(data.size() - a); data.erase(a, b); h += " piece removed"; }
        }
        c.describe(h);
        c.nontrivial();
        STLReader r;
        TriMeshModelPtr t(new TriMeshModel());
        bool ok, stream = s.chance(0.5);
        if (stream)
        {
            std::stringstream ss(data);
            ok = r.read(ss, bin ? STLReader::STLB : STLReader::STLA, t);
        }
        else ok = r.read(file(s.chance(0.5) ? "b.stl" : bin ? "b.stlb" : "b.stla", data), t);
        if (bin && cut && stream) c.check(!ok, "stl-truncated", "a truncated binary file is accepted: " + std::to_string(t->faces.size()) + " faces");
        if (!bin && cutAscii)
        {
            // all but the last facet were complete (its last number may have been cut), and no facet is invented
            std::vector<StlTri> live;
            for (auto& x : T) if (!deg(x)) live.push_back(x);
            c.check(t->faces.size() <= live.size() + 1, "stl-truncated", "more facets read than stored");
            for (size_t k = 0; k + 1 < t->faces.size() && k < live.size(); k++)
                for (int j = 0; j < 3; j++) c.check(V(t, t->faces[k], j) == live[k].v[j], "stl-truncated", "corner of a complete facet of a truncated file");
        }
        for (auto& f : t->faces)
            for (int k = 0; k < 3; k++)
                c.check(ID(f, k) < t->vertices.size() && (NI(f, k) == UINT_MAX || NI(f, k) < t->normals.size()), "stl-ids", "a face read from a damaged file refers to a vertex that does not exist");
        c.label(ok ? "accepted" : "refused");
    }
}

int main(int argc, char** argv)
{
    pbt::Suite su;
    su.property = "P20";
    su.rule = "mesh with at least one corner merged / missing entries / flipped faces, or STL data with at least two facets or a damage";
    su.init = [] { initVR("P20"); };
    su.add("basics", 24000, 400000, basics);
    su.add("merge", 24000, 400000, merging);
    su.add("missing", 24000, 400000, missing);
    su.add("fatten", 24000, 400000, fatten);
    su.add("orient", 24000, 400000, orient);
    su.add("boxes", 8000, 120000, boxes);
    su.add("stl", 24000, 400000, stl);
    su.add("stl-damaged", 24000, 400000, stlBroken);
    return pbt::run(argc, argv, su);
}
