// a random robot with a joint set and TCP, next to its kinematics model (checks of the inverse kinematics)
#pragma once
#include "robotgen.h"
#include <VirtualRobot/IK/IKSolver.h>

namespace gen
{
    typedef Eigen::MatrixXd MX;
    typedef Eigen::VectorXd VX;
    struct World
    {
        RobotSpec sp;
        VirtualRobot::RobotPtr robo;
        M4 base;
        std::vector<double> q;
        std::vector<int> idx;            // nodes of the joint set, in its order
        VirtualRobot::RobotNodeSetPtr rns;
        int tcp = 0;
        double reach;
        std::vector<M4> fk(const std::vector<double>& v) const { return sp.fk(base, v); }
        void read() { q = readQ(sp, robo); }
    };
    struct Opt { bool physics = false, onlyRev = false, chain = false, onlyJoints = false; int maxNodes = 8; };
    inline World world(Src& s, pbt::Ctx& c, Opt op = Opt())
    {
        World w;
        RobotOpts o;
        o.minNodes = 2;
        o.maxNodes = op.maxNodes;
        o.physics = op.physics;
        o.prismatic = !op.onlyRev;
        o.chain = op.chain;
        o.limitless = true;
        w.sp = robotSpec(s, o);
        w.robo = fromFactory(w.sp);
        w.base = s.chance(0.3) ? M4::Identity() : fl4(pose(s, 1000));
        w.robo->setGlobalPose(f4(w.base));
        std::map<std::string, float> m;
        for (int j : w.sp.joints()) m[w.sp.n[j].name] = (float)interiorQ(s, w.sp.n[j]);
        w.robo->setJointValues(m);
        w.read();
        std::vector<int> cand;
        for (size_t i = 0; i < w.sp.n.size(); i++) if (w.sp.n[i].type != FIXED || (!op.onlyJoints && s.chance(0.3))) cand.push_back((int)i);
        for (int i : cand) if (s.chance(0.8)) w.idx.push_back(i);
        if (w.idx.empty() && !cand.empty()) w.idx = cand;
        c.require(!w.idx.empty());
        if (s.chance(0.3)) for (size_t i = w.idx.size() - 1; i > 0; i--) std::swap(w.idx[i], w.idx[s.draw(i + 1)]);
        w.tcp = (int)(s.chance(0.6) ? w.sp.n.size() - 1 : s.draw(w.sp.n.size()));
        std::vector<VirtualRobot::RobotNodePtr> n;
        for (int i : w.idx) n.push_back(w.robo->getRobotNode(w.sp.n[i].name));
        w.rns = VirtualRobot::RobotNodeSet::createRobotNodeSet(w.robo, "set", n, w.robo->getRootNode(), w.robo->getRobotNode(w.sp.n[w.tcp].name), true);
        w.reach = w.sp.reach();
        std::string d = w.sp.summary() + " set";
        for (int i : w.idx) d += " " + std::to_string(i);
        c.describe(d + " tcp " + std::to_string(w.tcp));
        return w;
    }
    inline V3 logRot(const M3& r)
    {
        Eigen::AngleAxisd a(r);
        return a.axis() * a.angle();
    }
    // 6 x n by central differences of the kinematics model, in global coordinates
    inline MX modelJ(const World& w, int node, const M4& off = M4::Identity())
    {
        MX J(6, w.idx.size());
        for (size_t k = 0; k < w.idx.size(); k++)
        {
            double h = w.sp.n[w.idx[k]].type == PRIS ? 1e-2 : 1e-5;
            auto a = w.q, b = w.q;
            a[w.idx[k]] -= h;
            b[w.idx[k]] += h;
            M4 A = w.fk(a)[node] * off, B = w.fk(b)[node] * off;
            J.block<3, 1>(0, k) = (trans(B) - trans(A)) / (2 * h);
            J.block<3, 1>(3, k) = logRot(rotOf(B) * rotOf(A).transpose()) / (2 * h);
        }
        return J;
    }
    inline int rowsOf(int mode) { return ((mode & 1) != 0) + ((mode & 2) != 0) + ((mode & 4) != 0) + ((mode & 8) ? 3 : 0); }
    inline MX selectRows(const MX& J, int mode)
    {
        MX r(rowsOf(mode), J.cols());
        int k = 0;
        for (int i = 0; i < 3; i++) if (mode & (1 << i)) r.row(k++) = J.row(i);
        if (mode & 8) r.block(k, 0, 3, J.cols()) = J.block(3, 0, 3, J.cols());
        return r;
    }
    inline VirtualRobot::IKSolver::CartesianSelection modeOf(Src& s)
    {
        static const int m[] = {15, 7, 8, 1, 2, 4, 3, 5, 6, 9, 12, 14};
        return (VirtualRobot::IKSolver::CartesianSelection)m[s.draw(12)];
    }
}
