// geometry of models as plain double data
#pragma once
#include <algorithm>
#include "robotgen.h"
#include <VirtualRobot/CollisionDetection/CollisionModel.h>
#include <VirtualRobot/Visualization/TriMeshModel.h>
#include <VirtualRobot/Visualization/VisualizationNode.h>

namespace gen
{
    struct Tri { V3 a, b, c; };
    inline std::vector<Tri> triangles(const VirtualRobot::TriMeshModelPtr& m, const M4& pose = M4::Identity())
    {
        std::vector<Tri> r;
        if (!m) return r;
        auto tr = [&](unsigned i) { V3 v = m->vertices.at(i).cast<double>(); return V3(rotOf(pose) * v + trans(pose)); };
        for (auto& f : m->faces) r.push_back(Tri{tr(f.id1), tr(f.id2), tr(f.id3)});
        return r;
    }
    inline std::vector<Tri> colTriangles(const VirtualRobot::CollisionModelPtr& c)
    {
        if (!c) return {};
        return triangles(c->getTriMeshModel(), d4(c->getGlobalPose()));
    }
    // global collision geometry of all nodes
    inline std::vector<Tri> robotTriangles(const VirtualRobot::RobotPtr& r)
    {
        std::vector<Tri> t;
        for (auto& n : r->getRobotNodes())
            if (n->getCollisionModel())
            {
                auto x = colTriangles(n->getCollisionModel());
                t.insert(t.end(), x.begin(), x.end());
            }
        return t;
    }
    inline std::vector<V3> corners(const std::vector<Tri>& T)
    {
        std::vector<V3> v;
        for (auto& t : T) { v.push_back(t.a); v.push_back(t.b); v.push_back(t.c); }
        auto less = [](const V3& x, const V3& y) { return std::lexicographical_compare(x.data(), x.data() + 3, y.data(), y.data() + 3); };
        std::sort(v.begin(), v.end(), less);
        v.erase(std::unique(v.begin(), v.end(), [](const V3& x, const V3& y) { return x == y; }), v.end());
        return v;
    }
    // largest distance of a corner of one set to the nearest corner of the other
    inline double cornerDist(const std::vector<Tri>& A, const std::vector<Tri>& B)
    {
        auto a = corners(A), b = corners(B);
        if (a.empty() != b.empty()) return 1e30;
        double worst = 0;
        for (int k = 0; k < 2; k++)
        {
            for (auto& p : a)
            {
                double best = 1e30;
                for (auto& q : b) { double d = (p - q).squaredNorm(); if (d < best) best = d; }
                worst = std::max(worst, std::sqrt(best));
            }
            std::swap(a, b);
        }
        return worst;
    }

    // ------------------------------------------------ exact distances (double precision)
    inline double segSegDist(const V3& p, const V3& q, const V3& r, const V3& s)
    {
        V3 d1 = q - p, d2 = s - r, w = p - r;
        double a = d1.squaredNorm(), e = d2.squaredNorm(), f = d2.dot(w), c = d1.dot(w), b = d1.dot(d2);
        auto cl = [](double x) { return x < 0 ? 0. : x > 1 ? 1. : x; };
        double S = 0, T = 0;
        if (a <= 1e-30 && e <= 1e-30) return w.norm();
        if (a <= 1e-30) T = cl(f / e);
        else if (e <= 1e-30) S = cl(-c / a);
        else
        {
            double den = a * e - b * b;
            S = den > 1e-14 * a * e ? cl((b * f - c * e) / den) : 0;
            T = (b * S + f) / e;
            if (T < 0) { T = 0; S = cl(-c / a); }
            else if (T > 1) { T = 1; S = cl((b - c) / a); }
        }
        return (w + S * d1 - T * d2).norm();
    }
    inline double pointSegDist(const V3& p, const V3& a, const V3& b) { return segSegDist(p, p, a, b); }
    inline double pointTriDist(const V3& p, const Tri& t)
    {
        V3 n = (t.b - t.a).cross(t.c - t.a);
        double A = n.squaredNorm();
        double best = std::min(pointSegDist(p, t.a, t.b), std::min(pointSegDist(p, t.b, t.c), pointSegDist(p, t.c, t.a)));
        if (A > 1e-30)
        {
            double u = (t.b - t.a).cross(p - t.a).dot(n), v = (t.c - t.b).cross(p - t.b).dot(n), w = (t.a - t.c).cross(p - t.c).dot(n);
            if (u >= 0 && v >= 0 && w >= 0) best = std::min(best, std::fabs((p - t.a).dot(n)) / std::sqrt(A));
        }
        return best;
    }
    inline bool segHitsTri(const V3& p, const V3& q, const Tri& t)
    {
        V3 n = (t.b - t.a).cross(t.c - t.a);
        double dp = (p - t.a).dot(n), dq = (q - t.a).dot(n);
        if ((dp > 0) == (dq > 0) || dp == dq) return false;
        V3 x = p + (q - p) * (dp / (dp - dq));
        return (t.b - t.a).cross(x - t.a).dot(n) >= 0 && (t.c - t.b).cross(x - t.b).dot(n) >= 0 && (t.a - t.c).cross(x - t.c).dot(n) >= 0;
    }
    inline double triDist(const Tri& x, const Tri& y)
    {
        const V3* a[3] = {&x.a, &x.b, &x.c};
        const V3* b[3] = {&y.a, &y.b, &y.c};
        double best = 1e300;
        for (int i = 0; i < 3; i++)
        {
            if (segHitsTri(*a[i], *a[(i + 1) % 3], y) || segHitsTri(*b[i], *b[(i + 1) % 3], x)) return 0;
            for (int j = 0; j < 3; j++) best = std::min(best, segSegDist(*a[i], *a[(i + 1) % 3], *b[j], *b[(j + 1) % 3]));
            best = std::min(best, pointTriDist(*a[i], y));
            best = std::min(best, pointTriDist(*b[i], x));
        }
        return best;
    }
    inline double surfDist(const std::vector<Tri>& A, const std::vector<Tri>& B)
    {
        double best = 1e300;
        struct Box { V3 lo, hi; };
        auto box = [](const Tri& t) { Box b; b.lo = t.a.cwiseMin(t.b).cwiseMin(t.c); b.hi = t.a.cwiseMax(t.b).cwiseMax(t.c); return b; };
        std::vector<Box> bb;
        for (auto& t : B) bb.push_back(box(t));
        if (A.size() * B.size() > 2000)
        {
            // an upper bound makes the box test below effective
            auto ca = corners(A), cb = corners(B);
            for (auto& p : ca) for (auto& q : cb) best = std::min(best, (p - q).squaredNorm());
            best = std::sqrt(best) * (1 + 1e-9) + 1e-9;
        }
        for (auto& x : A)
        {
            Box a = box(x);
            for (size_t j = 0; j < B.size(); j++)
            {
                V3 g = (bb[j].lo - a.hi).cwiseMax(a.lo - bb[j].hi).cwiseMax(V3::Zero());
                if (g.norm() >= best) continue;
                best = std::min(best, triDist(x, B[j]));
                if (best == 0) return 0;
            }
        }
        return best;
    }
}
