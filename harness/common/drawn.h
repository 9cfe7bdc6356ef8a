// What a Coin scene graph draws: triangles and lines with their colours, in mm.
#pragma once
#include "gen.h"
#include <array>
#include <Inventor/SoPrimitiveVertex.h>
#include <Inventor/actions/SoCallbackAction.h>
#include <Inventor/elements/SoLazyElement.h>
#include <Inventor/nodes/SoShape.h>
#include <Inventor/nodes/SoSeparator.h>
#include <VirtualRobot/Visualization/CoinVisualization/CoinVisualizationFactory.h>
#include <VirtualRobot/Visualization/CoinVisualization/CoinVisualizationNode.h>
#include <VirtualRobot/Visualization/TriMeshModel.h>

namespace
{
    using namespace VirtualRobot;
    using namespace gen;
    typedef std::array<V3, 3> Tri;
    struct Drawn
    {
        std::vector<Tri> tri;
        std::vector<V3> colour;
        std::vector<double> clear; // transparency of the triangles
        std::vector<std::array<V3, 2>> line;
        std::vector<V3> lineColour;
    };
    V3 at(SoCallbackAction* a, const SoPrimitiveVertex* v)
    {
        SbVec3f r;
        a->getModelMatrix().multVecMatrix(v->getPoint(), r);
        return V3(r[0], r[1], r[2]) * 1000.0;
    }
    V3 diffuse(SoCallbackAction* a, const SoPrimitiveVertex* v, double* clear = nullptr)
    {
        SbColor am, di, sp, em;
        float sh, tr;
        // (a single overriding colour counts for all indices)
        int k = v->getMaterialIndex();
        if (k >= SoLazyElement::getInstance(a->getState())->getNumDiffuse()) k = 0;
        a->getMaterial(am, di, sp, em, sh, tr, k);
        if (clear) *clear = tr;
        return V3(di[0], di[1], di[2]);
    }
    void onTri(void* d, SoCallbackAction* a, const SoPrimitiveVertex* x, const SoPrimitiveVertex* y, const SoPrimitiveVertex* z)
    {
        auto& o = *(Drawn*)d;
        o.tri.push_back({at(a, x), at(a, y), at(a, z)});
        double t = 0;
        o.colour.push_back(diffuse(a, x, &t));
        o.clear.push_back(t);
    }
    void onLine(void* d, SoCallbackAction* a, const SoPrimitiveVertex* x, const SoPrimitiveVertex* y)
    {
        auto& o = *(Drawn*)d;
        o.line.push_back({at(a, x), at(a, y)});
        o.lineColour.push_back(diffuse(a, x));
    }
    Drawn draw(SoNode* n)
    {
        Drawn o;
        if (!n) return o;
        n->ref();
        SoCallbackAction ca;
        ca.addTriangleCallback(SoShape::getClassTypeId(), onTri, &o);
        ca.addLineSegmentCallback(SoShape::getClassTypeId(), onLine, &o);
        ca.apply(n);
        n->unrefNoDelete();
        return o;
    }
    Drawn draw(const VisualizationNodePtr& v)
    {
        auto c = boost::dynamic_pointer_cast<CoinVisualizationNode>(v);
        return c ? draw(c->getCoinVisualization()) : Drawn();
    }
    std::vector<Tri> mesh(const VisualizationNodePtr& v)
    {
        std::vector<Tri> r;
        TriMeshModelPtr m = v->getTriMeshModel();
        if (m) for (auto& f : m->faces) r.push_back({d3(m->vertices.at(f.id1)), d3(m->vertices.at(f.id2)), d3(m->vertices.at(f.id3))});
        return r;
    }
    Tri operator*(const M4& m, const Tri& t)
    {
        Tri r;
        for (int i = 0; i < 3; i++) r[i] = m.block<3, 3>(0, 0) * t[i] + m.block<3, 1>(0, 3);
        return r;
    }
    // same triangles, in any order, each with its vertices in the given cyclic order (or, loose, in any order)
    std::string different(const std::vector<Tri>& got, const std::vector<Tri>& want, double tol, bool loose = false, bool more = false)
    {
        if (more ? got.size() < want.size() : got.size() != want.size()) return std::to_string(got.size()) + " triangles instead of " + std::to_string(want.size());
        std::vector<char> used(got.size(), 0);
        size_t start = 0;
        for (size_t w = 0; w < want.size(); w++)
        {
            bool ok = false;
            double best = 1e30;
            while (start < got.size() && used[start]) start++;
            for (size_t g = start; g < got.size() && !ok; g++)
            {
                if (used[g]) continue;
                static const int perm[6][3] = {{0, 1, 2}, {1, 2, 0}, {2, 0, 1}, {0, 2, 1}, {2, 1, 0}, {1, 0, 2}};
                for (int p = 0; p < (loose ? 6 : 3) && !ok; p++)
                {
                    double d = 0;
                    for (int i = 0; i < 3; i++) d = std::max(d, (got[g][perm[p][i]] - want[w][i]).norm());
                    best = std::min(best, d);
                    if (d <= tol) { ok = true; used[g] = 1; }
                }
            }
            if (!ok) return "triangle " + str(want[w][0].transpose()) + " " + str(want[w][1].transpose()) + " " + str(want[w][2].transpose()) + " is missing (nearest " + num(best) + " mm away, tolerance " + num(tol) + ")";
        }
        return "";
    }
    double extent(const std::vector<Tri>& t)
    {
        double e = 0;
        for (auto& x : t) for (auto& v : x) e = std::max(e, v.cwiseAbs().maxCoeff());
        return e;
    }
    void box(const std::vector<Tri>& t, V3& mi, V3& ma)
    {
        mi.setConstant(1e30);
        ma.setConstant(-1e30);
        for (auto& x : t) for (auto& v : x) { mi = mi.cwiseMin(v); ma = ma.cwiseMax(v); }
    }
    double area(const std::vector<Tri>& t)
    {
        double a = 0;
        for (auto& x : t) a += 0.5 * (x[1] - x[0]).cross(x[2] - x[0]).norm();
        return a;
    }
    boost::shared_ptr<CoinVisualizationFactory> factory()
    {
        return boost::dynamic_pointer_cast<CoinVisualizationFactory>(VisualizationFactory::first(nullptr));
    }
}
