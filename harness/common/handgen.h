// Random hands: a palm with fingers around its z axis that can close on an object above the palm.
#pragma once
#include "geom.h"
#include <VirtualRobot/EndEffector/EndEffector.h>
#include <VirtualRobot/EndEffector/EndEffectorActor.h>
#include <VirtualRobot/SceneObjectSet.h>
#include <VirtualRobot/Obstacle.h>
#include <VirtualRobot/ManipulationObject.h>
#include <VirtualRobot/CollisionDetection/CollisionModel.h>
#include <VirtualRobot/CollisionDetection/CollisionChecker.h>

namespace gen
{
    struct Hand
    {
        RobotSpec sp;
        struct Fin { std::string name; std::vector<int> nodes; std::vector<double> speed; std::vector<int> mode; };
        std::vector<Fin> f;
        std::vector<int> statics;
        int palm = -1, tcp = -1;
        double R = 0, reach = 0;
        std::map<std::string, std::map<int, double>> pre;
        std::string xml;
        M4 palmT = M4::Identity(); // of the palm below the root
    };
    // zeroSpeed: some nodes of the fingers are not moved themselves
    // gcp: with a grasp center point, preshapes are complete and may have their own TCP
    // arm: number of joints between root and palm (-1: none or one)
    inline Hand hand(Src& s, bool zeroSpeed, bool modes, bool gcp = false, int arm = -1)
    {
        Hand h;
        auto node = [&](const std::string& n, int parent, const M4& l) { Node x; x.name = n; x.parent = parent; x.local = fl4(l); h.sp.n.push_back(x); return (int)h.sp.n.size() - 1; };
        auto box = [&](double a, double b, double c, const V3& at) { Prim p; p.kind = 0; p.a = fl(a); p.b = fl(b); p.c = fl(c); p.t = fl4(mk(M3::Identity(), at)); return p; };
        h.sp.type = "handrobot";
        int p = node("root", -1, M4::Identity());
        for (int i = 0; i < arm; i++)
        {
            p = node("arm" + std::to_string(i), p, mk(rot(s), V3(s.uniform(-60, 60), s.uniform(-60, 60), s.uniform(80, 220))));
            h.sp.n[p].type = REV;
            h.sp.n[p].axis = unit(s).cast<float>().cast<double>();
            h.sp.n[p].lo = fl(-s.uniform(0.8, 3)); h.sp.n[p].hi = fl(s.uniform(0.8, 3));
            if (s.chance(0.4)) h.sp.n[p].col.push_back(box(s.uniform(20, 50), s.uniform(20, 50), s.uniform(40, 120), V3(0, 0, 0)));
        }
        if (arm < 0 && s.chance(0.5))
        {
            // an arm
            p = node("arm", p, pose(s, 300));
            h.sp.n[p].type = REV;
            h.sp.n[p].axis = unit(s).cast<float>().cast<double>();
            h.sp.n[p].lo = fl(-2); h.sp.n[p].hi = fl(2);
        }
        h.palm = p = node("palm", p, s.chance(0.7) ? pose(s, 200) : M4::Identity());
        h.R = s.uniform(30, 60);
        h.sp.n[p].col.push_back(box(2 * h.R, 2 * h.R, 10, V3(0, 0, -10)));
        h.statics.push_back(p);
        h.tcp = node("tcp", h.palm, mk(rot(s), V3(0, 0, s.uniform(20, 60))));
        int nf = 2 + (int)s.draw(3);
        for (int i = 0; i < nf; i++)
        {
            Hand::Fin f;
            f.name = "finger" + std::to_string(i);
            double phi = 2 * M_PI * i / nf + s.uniform(-0.2, 0.2);
            M4 base = mk(Eigen::AngleAxisd(phi, V3::UnitZ()).matrix(), V3(h.R * cos(phi), h.R * sin(phi), 0));
            if (s.chance(0.2))
            {
                // gripper jaw
                int n = node("f" + std::to_string(i) + "_0", h.palm, base);
                double L = s.uniform(30, 80);
                h.reach = std::max(h.reach, L);
                double sg = s.chance(0.5) ? 1 : -1;
                h.sp.n[n].type = PRIS;
                h.sp.n[n].axis = V3(sg, 0, 0);
                h.sp.n[n].lo = fl(sg > 0 ? -h.R * s.uniform(0.5, 1) : -s.uniform(1, 20));
                h.sp.n[n].hi = fl(sg > 0 ? s.uniform(1, 20) : h.R * s.uniform(0.5, 1));
                h.sp.n[n].col.push_back(box(6, 12, L, V3(0, 0, L / 2 + 2)));
                f.nodes.push_back(n);
                f.speed.push_back(fl(-sg * s.uniform(20, 80)));
                f.mode.push_back(modes ? (int)s.draw(4) : 3);
            }
            else
            {
                int k = 1 + (int)s.draw(3), par = h.palm;
                M4 l = base;
                double total = 0, sp = s.pick(std::vector<double>{1, 1, 0.5, 2});
                for (int j = 0; j < k; j++)
                {
                    int n = node("f" + std::to_string(i) + "_" + std::to_string(j), par, l);
                    double L = s.uniform(20, 45);
                    double sg = s.chance(0.5) ? 1 : -1; // closing: tip towards the axis of the palm
                    h.sp.n[n].type = REV;
                    h.sp.n[n].axis = V3(0, sg, 0);
                    double open = j == 0 ? s.uniform(0, 0.5) : s.uniform(0, 0.2), close = s.uniform(0.3, 1.6);
                    h.sp.n[n].lo = fl(sg > 0 ? -close : -open);
                    h.sp.n[n].hi = fl(sg > 0 ? open : close);
                    if (s.chance(0.5)) h.sp.n[n].col.push_back(box(8, 10, L - 6, V3(0, 0, L / 2)));
                    else { Prim c; c.kind = 2; c.a = fl(s.uniform(3, 5)); c.b = fl(L - 6); c.c = 0; c.t = fl4(mk(Eigen::AngleAxisd(M_PI / 2, V3::UnitX()).matrix(), V3(0, 0, L / 2))); h.sp.n[n].col.push_back(c); }
                    f.nodes.push_back(n);
                    double v = -sg * (s.chance(0.7) ? sp : s.uniform(0.3, 2));
                    if (zeroSpeed && s.chance(0.08)) v = 0;
                    f.speed.push_back(fl(v));
                    f.mode.push_back(modes && s.chance(0.4) ? (int)s.draw(4) : 3);
                    par = n;
                    l = mk(M3::Identity(), V3(0, 0, L));
                    total += L;
                    if (s.chance(0.15)) { int t = node("tip" + std::to_string(i) + "_" + std::to_string(j), n, l); (void)t; }
                }
                h.reach = std::max(h.reach, total);
            }
            h.f.push_back(f);
        }
        if (s.chance(0.3)) { int n = node("camera", h.palm, mk(M3::Identity(), V3(0, 0, -60))); h.sp.n[n].col.push_back(box(20, 20, 20, V3(0, 0, 0))); h.statics.push_back(n); }
        if (gcp)
            for (int k = 0; k < 2; k++) node("gcp" + std::to_string(k), h.palm, mk(Eigen::AngleAxisd(s.uniform(-3, 3), V3::UnitZ()).matrix(), V3(s.real(-0.2, 0.2) * h.R, s.real(-0.2, 0.2) * h.R, s.uniform(0, 0.8) * h.reach)));
        h.sp.link();
        // preshapes
        int np = (int)s.draw(3);
        for (int i = 0; i < np; i++)
        {
            std::map<int, double> m;
            for (auto& f : h.f) for (int n : f.nodes) if (gcp || s.chance(0.7)) m[n] = randomQ(s, h.sp.n[n]);
            h.pre["pre" + std::to_string(i)] = m;
        }
        std::string e = "<Endeffector name='hand' base='palm' tcp='tcp'" + std::string(gcp ? " gcp='gcp0'" : "") + ">";
        for (auto& q : h.pre)
        {
            e += "<Preshape name='" + q.first + "'" + (gcp && s.chance(0.5) ? " tcp='gcp1'" : "") + ">";
            for (auto& v : q.second) e += "<Node name='" + h.sp.n[v.first].name + "' unit='" + (h.sp.n[v.first].type == REV ? "radian" : "mm") + "' value='" + num(v.second) + "'/>";
            e += "</Preshape>";
        }
        e += "<Static>";
        for (int n : h.statics) e += "<Node name='" + h.sp.n[n].name + "'/>";
        e += "</Static>";
        static const char* md[] = {"None", "Actors", "Static", "All"};
        for (auto& f : h.f)
        {
            e += "<Actor name='" + f.name + "'>";
            for (size_t j = 0; j < f.nodes.size(); j++) e += "<Node name='" + h.sp.n[f.nodes[j]].name + "' considerCollisions='" + md[f.mode[j]] + "' direction='" + num(f.speed[j]) + "'/>";
            e += "</Actor>";
        }
        e += "</Endeffector>";
        h.xml = robotXML(h.sp, e);
        return h;
    }
    inline VirtualRobot::ObstaclePtr objectFor(Src& s, const Hand& h, const M4& palm)
    {
        double sz = s.uniform(0.4, 1.6) * h.R;
        VirtualRobot::ObstaclePtr o;
        switch (s.draw(3))
        {
            case 0: o = VirtualRobot::Obstacle::createBox((float)sz, (float)(sz * s.uniform(0.4, 1.5)), (float)(sz * s.uniform(0.4, 1.5))); break;
            case 1: o = VirtualRobot::Obstacle::createSphere((float)(sz / 2)); break;
            default: o = VirtualRobot::Obstacle::createCylinder((float)(sz / 2), (float)(sz * s.uniform(0.5, 2)));
        }
        V3 t(s.real(-0.4, 0.4) * h.R, s.real(-0.4, 0.4) * h.R, s.uniform(0.1, 1.1) * h.reach + sz * 0.3);
        o->setGlobalPose(f4(fl4(palm * mk(rot(s), t))));
        return o;
    }
}
