// obstacles with known geometry and a three-valued brute-force collision verdict
#pragma once
#include "geom.h"
#include <VirtualRobot/Obstacle.h>
#include <VirtualRobot/CollisionDetection/CollisionChecker.h>
#include <VirtualRobot/SceneObjectSet.h>

namespace gen
{
    inline std::vector<Tri> moved(const std::vector<Tri>& t, const M4& m)
    {
        std::vector<Tri> r;
        M3 R = rotOf(m);
        V3 p = trans(m);
        for (auto& x : t) r.push_back(Tri{R * x.a + p, R * x.b + p, R * x.c + p});
        return r;
    }
    struct Shape
    {
        int kind = 0; // 0 box 1 sphere 2 cylinder 3 soup
        double a = 0, b = 0, c = 0;
        std::vector<Tri> local;
        double radius = 0;  // around the local origin
        VirtualRobot::ObstaclePtr ob;
        M4 pose = M4::Identity();
        std::vector<Tri> global() const { return moved(local, pose); }
        void place(const M4& m) { pose = fl4(m); ob->setGlobalPose(f4(pose)); }
        std::string str() const
        {
            static const char* k[] = {"box", "sphere", "cylinder", "soup"};
            return std::string(k[kind]) + "(" + num(a) + "," + num(b) + "," + num(c) + "," + std::to_string(local.size()) + " tris)";
        }
    };
    inline std::vector<Tri> soup(Src& s, int n, double span)
    {
        std::vector<Tri> r;
        for (int i = 0; i < n; i++)
        {
            V3 o = vec(s, span);
            double sz = s.chance(0.2) ? 0.1 * span : 0.6 * span;
            Tri t{o, o + vec(s, sz), o + vec(s, sz)};
            V3 nn = (t.b - t.a).cross(t.c - t.a);
            double L = std::max((t.b - t.a).norm(), std::max((t.c - t.a).norm(), (t.c - t.b).norm()));
            if (nn.norm() < 0.05 * L * L || L < 1) { t.b = o + V3(sz, 0, 0); t.c = o + V3(0, sz, 0.3 * sz); }
            for (V3* v : {&t.a, &t.b, &t.c}) *v = v->cast<float>().cast<double>();
            r.push_back(t);
        }
        return r;
    }
    inline VirtualRobot::TriMeshModelPtr mesh(const std::vector<Tri>& t)
    {
        VirtualRobot::TriMeshModelPtr m(new VirtualRobot::TriMeshModel());
        for (auto& x : t) m->addTriangleWithFace(f3(x.a), f3(x.b), f3(x.c));
        return m;
    }
    inline Shape shape(Src& s, int kind = -1)
    {
        using namespace VirtualRobot;
        Shape x;
        x.kind = kind >= 0 ? kind : (int)s.draw(4);
        x.a = fl(s.uniform(10, 200));
        x.b = fl(s.uniform(10, 200));
        x.c = fl(s.uniform(10, 200));
        auto col = VisualizationFactory::Color::Red();
        if (x.kind == 0) x.ob = Obstacle::createBox((float)x.a, (float)x.b, (float)x.c, col);
        else if (x.kind == 1) x.ob = Obstacle::createSphere((float)x.a, col);
        else if (x.kind == 2) x.ob = Obstacle::createCylinder((float)x.a, (float)x.b, col);
        else
        {
            x.local = soup(s, (int)s.integer(1, 30), x.a);
            x.ob = Obstacle::createFromMesh(mesh(x.local));
        }
        if (!x.ob || !x.ob->getCollisionModel()) throw std::runtime_error("no obstacle created");
        if (x.kind != 3) x.local = triangles(x.ob->getCollisionModel()->getTriMeshModel());
        for (auto& t : x.local) x.radius = std::max(x.radius, std::max(t.a.norm(), std::max(t.b.norm(), t.c.norm())));
        return x;
    }
    // 1 robustly intersecting, -1 separated by more than eps, 0 undecidable in float
    inline int verdict(const std::vector<Tri>& A, const std::vector<Tri>& B, double eps, double* dist = nullptr)
    {
        double d = surfDist(A, B);
        if (dist) *dist = d;
        if (d > eps) return -1;
        if (d > 0) return 0;
        for (int k = 0; k < 6; k++)
        {
            V3 o = V3::Zero();
            o(k / 2) = k % 2 ? eps : -eps;
            if (surfDist(A, moved(B, mk(M3::Identity(), o))) > 0) return 0;
        }
        return 1;
    }
}
