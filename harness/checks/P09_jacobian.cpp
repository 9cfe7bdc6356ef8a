// libs: VirtualRobot
// P09: Jacobians, pseudo inverses, task errors and gradients of the IK are what they claim to be
#include "common/ikworld.h"
#include <VirtualRobot/IK/DifferentialIK.h>
#include <VirtualRobot/IK/CoMIK.h>
#include <VirtualRobot/IK/HierarchicalIK.h>
#include <VirtualRobot/IK/StackedIK.h>
#include <VirtualRobot/IK/JointLimitAvoidanceJacobi.h>
#include <VirtualRobot/IK/PoseQualityManipulability.h>
#include <VirtualRobot/IK/PoseQualityExtendedManipulability.h>
#include <VirtualRobot/IK/constraints/PoseConstraint.h>
#include <VirtualRobot/IK/constraints/PositionConstraint.h>
#include <VirtualRobot/IK/constraints/OrientationConstraint.h>
#include <VirtualRobot/IK/constraints/TSRConstraint.h>
#include <VirtualRobot/IK/constraints/CoMConstraint.h>
#include <VirtualRobot/IK/constraints/ReferenceConfigurationConstraint.h>
#include <VirtualRobot/IK/constraints/JointLimitAvoidanceConstraint.h>
#include <VirtualRobot/Nodes/PositionSensor.h>
#include <Eigen/LU>
#include <Eigen/QR>
using namespace VirtualRobot;
using namespace gen;

namespace
{
    void sameJ(pbt::Ctx& c, const MX& got, const MX& want, int mode, double reach, const std::string& key, const std::string& what)
    {
        c.check(got.rows() == want.rows() && got.cols() == want.cols(), key + "Size", what + ": size " + std::to_string(got.rows()) + "x" + std::to_string(got.cols()));
        int np = rowsOf(mode & 7);
        for (int r = 0; r < got.rows(); r++)
            for (int k = 0; k < got.cols(); k++)
            {
                double t = r < np ? 2e-4 + 1e-5 * reach : 2e-4;
                if (!(std::fabs(got(r, k) - want(r, k)) <= t)) c.fail(key, what + ": entry " + std::to_string(r) + "," + std::to_string(k) + " is " + num(got(r, k)) + ", the motion of the TCP gives " + num(want(r, k)));
            }
    }

    void tcpJacobian(Src& s, pbt::Ctx& c)
    {
        World w = world(s, c);
        int node = w.tcp;
        SceneObjectPtr tcp = w.robo->getRobotNode(w.sp.n[node].name);
        M4 off = M4::Identity();
        bool given = s.chance(0.6);
        if (given && s.chance(0.4))
        {
            node = (int)s.draw(w.sp.n.size());
            tcp = w.robo->getRobotNode(w.sp.n[node].name);
        }
        if (given && s.chance(0.3))
        {
            // a sensor mounted on the node
            off = fl4(pose(s, 200));
            RobotNodePtr rn = w.robo->getRobotNode(w.sp.n[node].name);
            SensorPtr sn(new PositionSensor(rn, "sensor", VisualizationNodePtr(), f4(off)));
            sn->initialize(rn);
            tcp = sn;
        }
        int cs = s.chance(0.4) ? (int)s.draw(w.sp.n.size()) : -1;
        RobotNodePtr csn = cs >= 0 ? w.robo->getRobotNode(w.sp.n[cs].name) : RobotNodePtr();
        auto mode = modeOf(s);
        bool meters = s.chance(0.25);
        DifferentialIK ik(w.rns, csn);
        if (meters) ik.convertModelScalingtoM(true);
        double reach = w.reach + trans(off).norm();
        int n = 1 + (int)s.draw(3);
        for (int k = 0; k < n; k++)
        {
            if (k)
            {
                // the robot moves between queries
                std::map<std::string, float> m;
                for (int j : w.sp.joints()) if (s.chance(0.5)) m[w.sp.n[j].name] = (float)interiorQ(s, w.sp.n[j]);
                w.robo->setJointValues(m);
                if (s.chance(0.3)) { w.base = fl4(pose(s, 1000)); w.robo->setGlobalPose(f4(w.base)); }
                w.read();
                mode = modeOf(s);
            }
            MX J = modelJ(w, node, off);
            if (cs >= 0)
            {
                M3 R = rotOf(w.fk(w.q)[cs]).transpose();
                J.topRows(3) = (R * J.topRows(3)).eval();
                J.bottomRows(3) = (R * J.bottomRows(3)).eval();
            }
            if (meters)
                for (size_t i = 0; i < w.idx.size(); i++) if (w.sp.n[w.idx[i]].type == REV) J.block<3, 1>(0, i) /= 1000;
            bool moved = false;
            for (int i = 0; i < J.cols(); i++) moved |= J.col(i).norm() > 1e-6;
            c.nontrivial(moved && w.idx.size() > 1);
            double sc = reach * (meters ? 1e-3 : 1) + w.base.block<3, 1>(0, 3).norm() * (meters ? 1e-3 : 1);
            sameJ(c, (given ? ik.getJacobianMatrix(tcp, mode) : ik.getJacobianMatrix(mode)).cast<double>(), selectRows(J, mode), mode, sc, "jacobian", "Jacobian");
            if (given && s.chance(0.3)) sameJ(c, ik.getJacobianMatrix(tcp).cast<double>(), J, 15, sc, "jacobianAll", "Jacobian of the whole pose");
            if (given && s.chance(0.2))
            {
                Eigen::MatrixXf up(rowsOf(mode), (int)w.idx.size());
                up.setConstant(77);
                ik.updateJacobianMatrix(up, tcp, mode);
                sameJ(c, up.cast<double>(), selectRows(J, mode), mode, sc, "jacobianUpdate", "updated Jacobian");
            }
        }
    }

    // several goals: stacked Jacobian, error, tolerances
    void tasks(Src& s, pbt::Ctx& c)
    {
        World w = world(s, c);
        DifferentialIK ik(w.rns);
        int n = (int)s.integer(1, 3);
        struct T { int node; M4 goal; int mode; double tp, tr; };
        std::vector<T> t;
        for (int i = 0; i < n; i++)
        {
            T x;
            x.node = (int)s.draw(w.sp.n.size());
            bool dup = false;
            for (auto& y : t) dup |= y.node == x.node;
            if (dup) continue;
            x.mode = modeOf(s);
            M4 cur = w.fk(w.q)[x.node];
            M3 dr = Eigen::AngleAxisd(s.uniform(0, 3), unit(s)).matrix();
            x.goal = fl4(mk(dr * rotOf(cur), trans(cur) + vec(s, 300)));
            x.tp = fl(s.uniform(0.1, 400));
            x.tr = fl(s.uniform(0.01, 3));
            t.push_back(x);
            ik.setGoal(f4(x.goal), w.robo->getRobotNode(w.sp.n[x.node].name), (IKSolver::CartesianSelection)x.mode, (float)x.tp, (float)x.tr);
        }
        if (s.chance(0.3))
        {
            // a goal is replaced
            T& x = t[s.draw(t.size())];
            x.goal = fl4(mk(rot(s), trans(x.goal) + vec(s, 100)));
            x.mode = modeOf(s);
            ik.setGoal(f4(x.goal), w.robo->getRobotNode(w.sp.n[x.node].name), (IKSolver::CartesianSelection)x.mode, (float)x.tp, (float)x.tr);
        }
        c.nontrivial(t.size() > 1);
        double step = fl(s.uniform(0.05, 1)), cap = s.chance(0.4) ? fl(s.uniform(1, 200)) : -1;
        if (cap > 0) ik.setMaxPositionStep((float)cap);
        int rows = 0;
        for (auto& x : t) rows += rowsOf(x.mode);
        Eigen::VectorXf e = ik.getError((float)step);
        MX J = ik.getJacobianMatrix().cast<double>();
        c.check(e.rows() == rows && J.rows() == rows, "taskSize", "error or Jacobian has another size than the sum of the tasks");
        int r = 0;
        bool ok = true, close = false;
        auto fk = w.fk(w.q);
        for (auto& x : t)
        {
            M4 cur = fk[x.node];
            V3 dp = trans(x.goal) - trans(cur), aa = logRot(rotOf(x.goal) * rotOf(cur).transpose());
            double ang = aa.norm();
            auto tcp = w.robo->getRobotNode(w.sp.n[x.node].name);
            double pe = 0;
            for (int i = 0; i < 3; i++) if (x.mode & (1 << i)) pe += dp(i) * dp(i);
            pe = sqrt(pe);
            // delta, error norms
            VX dl = ik.getDeltaToGoal(tcp).cast<double>();
            for (int i = 0; i < 3; i++) c.near(dl(i), (x.mode & (1 << i)) ? dp(i) : 0, 0.02 + 1e-5 * w.reach, "delta", "position delta");
            bool nearPi = ang > M_PI - 0.02;
            if (!(x.mode & 8)) c.check(dl.tail(3).norm() == 0, "deltaRot", "orientation delta without orientation task");
            else if (!nearPi) c.check((dl.tail(3) - aa).norm() < 2e-3, "deltaRot", "orientation delta " + str(dl.tail(3).transpose()) + " but the goal is rotated by " + str(aa.transpose()));
            c.near(ik.getErrorPosition(tcp), pe, 0.02 + 1e-5 * w.reach, "errPos", "position error");
            c.near(ik.getErrorRotation(tcp), (x.mode & 8) ? ang : 0, nearPi ? 0.03 : 2e-3, "errRot", "orientation error");
            if (x.node == w.tcp)
            {
                c.near(ik.getErrorPosition(), pe, 0.02 + 1e-5 * w.reach, "errPosDefault", "position error of the default TCP");
                c.near(ik.getErrorRotation(), (x.mode & 8) ? ang : 0, nearPi ? 0.03 : 2e-3, "errRotDefault", "orientation error of the default TCP");
            }
            ok &= pe <= x.tp && (!(x.mode & 8) || ang <= x.tr);
            close |= fabs(pe - x.tp) < 0.05 + 1e-5 * w.reach || fabs(ang - x.tr) < 0.03;
            // rows of error and Jacobian
            V3 ep = dp * step;
            for (int i = 0; i < 3; i++) if (!(x.mode & (1 << i))) ep(i) = 0;
            if (cap > 0 && ep.norm() > cap) ep *= cap / ep.norm();
            MX Jm = selectRows(modelJ(w, x.node), x.mode);
            sameJ(c, J.block(r, 0, rowsOf(x.mode), J.cols()), Jm, x.mode, w.reach + trans(w.base).norm(), "stacked", "rows of task " + std::to_string(x.node));
            for (int i = 0; i < 3; i++)
                if (x.mode & (1 << i)) c.near(e(r++), ep(i), 0.02 + 1e-5 * w.reach, "taskError", "position error of task " + std::to_string(x.node));
            if (x.mode & 8)
            {
                if (!nearPi) for (int i = 0; i < 3; i++) c.near(e(r + i), aa(i) * step, 2e-3, "taskErrorRot", "orientation error of task " + std::to_string(x.node));
                r += 3;
            }
        }
        if (!close) c.check(ik.checkTolerances() == ok, "tolerances", std::string("tolerances reported as ") + (ok ? "violated" : "satisfied"));
        // default goal for a position only
        VX before(w.q.size());
        w.read();
    }

    MX randomMatrix(Src& s, int r, int k, int rank, double lo)
    {
        int m = std::min(r, k);
        auto ortho = [&](int n) {
            MX a(n, n);
            for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a(i, j) = s.uniform(-1, 1);
            Eigen::HouseholderQR<MX> qr(a);
            return MX(qr.householderQ());
        };
        MX U = ortho(r), V = ortho(k), S = MX::Zero(r, k);
        for (int i = 0; i < m; i++) S(i, i) = i < rank ? s.uniform(lo, 5) : 0;
        return U * S * V.transpose();
    }
    void inverse(Src& s, pbt::Ctx& c)
    {
        int r = (int)s.integer(1, 6), k = (int)s.integer(1, 8), m = std::min(r, k);
        int method = (int)s.draw(3);
        bool dbl = s.chance(0.5), deficient = method != 1 && m > 1 && s.chance(0.3);
        int rank = deficient ? 1 + (int)s.draw(m - 1) : m;
        MX A = randomMatrix(s, r, k, rank, 0.2);
        // node set with k joints (only its size matters)
        static RobotPtr robo;
        if (!robo)
        {
            std::string x = "<Robot Type='r' RootNode='j0'>";
            for (int i = 0; i < 8; i++) x += "<RobotNode name='j" + std::to_string(i) + "'><Joint type='revolute'/>" + (i < 7 ? "<Child name='j" + std::to_string(i + 1) + "'/>" : std::string()) + "</RobotNode>";
            robo = RobotIO::createRobotFromString(x + "</Robot>");
        }
        std::vector<RobotNodePtr> n;
        for (int i = 0; i < k; i++) n.push_back(robo->getRobotNode("j" + std::to_string(i)));
        RobotNodeSetPtr rns = RobotNodeSet::createRobotNodeSet(robo, "s" + std::to_string(k), n);
        DifferentialIK ik(rns, RobotNodePtr(), method == 0 ? JacobiProvider::eSVD : method == 1 ? JacobiProvider::eTranspose : JacobiProvider::eSVDDamped);
        bool weights = method != 2 && s.chance(0.4), reg = s.chance(0.3);
        VX wt = VX::Ones(k), rg = VX::Ones(r);
        if (weights) { for (int i = 0; i < k; i++) wt(i) = s.uniform(0.3, 3); ik.setJointWeights(wt.cast<float>()); }
        if (reg) for (int i = 0; i < r; i++) rg(i) = s.uniform(0.3, 2);
        double lambda = fl(s.uniform(0.05, 2));
        if (method == 1) c.require(r <= k); // needs full row rank
        std::string what = std::string(method == 0 ? "SVD" : method == 1 ? "transpose" : "damped SVD") + (dbl ? " double" : " float") + (weights ? " weighted" : "") + (reg ? " regularized" : "") + " of a " + std::to_string(r) + "x" + std::to_string(k) + " matrix of rank " + std::to_string(rank);
        c.describe(what);
        c.nontrivial(m > 1);
        double par = method == 0 ? 1e-3 : method == 2 ? lambda : 0;
        MX X;
        if (dbl) X = ik.computePseudoInverseJacobianMatrixD(A, par, reg ? rg : VX());
        else X = ik.computePseudoInverseJacobianMatrix(A.cast<float>(), (float)par, reg ? Eigen::VectorXf(rg.cast<float>()) : Eigen::VectorXf()).cast<double>();
        double t = dbl ? 1e-6 : 2e-3;
        c.check(X.rows() == k && X.cols() == r && X.allFinite(), "pinvSize", what + ": result");
        MX B = rg.asDiagonal() * A;                // what is inverted
        MX Y = X * rg.cwiseInverse().asDiagonal(); // its inverse
        if (method == 2)
        {
            MX W = B.transpose() * (B * B.transpose() + lambda * lambda * MX::Identity(r, r)).inverse();
            c.check((Y - W).cwiseAbs().maxCoeff() < t * 10 / std::min(1.0, lambda * lambda * 4), "damped", what + ": differs from J^T (J J^T + l^2 I)^-1 by " + num((Y - W).cwiseAbs().maxCoeff()));
            return;
        }
        // weighted least squares inverse: Penrose conditions of B W^-1/2
        VX sw = wt.cwiseSqrt();
        MX C = B * sw.cwiseInverse().asDiagonal();
        MX Z = sw.asDiagonal() * Y;
        auto d = [&](const MX& a, const MX& b) { return (a - b).cwiseAbs().maxCoeff(); };
        c.check(d(C * Z * C, C) < t * 20, "penrose1", what + ": J X J differs from J by " + num(d(C * Z * C, C)));
        c.check(d(Z * C * Z, Z) < t * 60, "penrose2", what + ": X J X differs from X by " + num(d(Z * C * Z, Z)));
        c.check(d(C * Z, (C * Z).transpose()) < t * 20, "penrose3", what + ": J X is not symmetric");
        c.check(d(Z * C, (Z * C).transpose()) < t * 20, "penrose4", what + ": X J is not symmetric");
    }

    // centre of mass
    V3 com(const World& w, const std::vector<int>& bodies, const std::vector<double>& q, double* mass = nullptr)
    {
        auto fk = w.fk(q);
        V3 r = V3::Zero();
        double m = 0;
        for (int b : bodies)
        {
            double k = w.sp.n[b].physics ? w.sp.n[b].mass : 0;
            r += k * (fk[b] * w.sp.n[b].com.homogeneous()).head<3>();
            m += k;
        }
        if (mass) *mass = m;
        return m > 0 ? V3(r / m) : V3::Zero();
    }
    std::vector<int> bodies(Src& s, World& w, RobotNodeSetPtr& set)
    {
        std::vector<int> b;
        std::vector<RobotNodePtr> n;
        for (size_t i = 0; i < w.sp.n.size(); i++)
            if (w.sp.n[i].physics && s.chance(0.8)) { b.push_back((int)i); n.push_back(w.robo->getRobotNode(w.sp.n[i].name)); }
        if (!n.empty()) set = RobotNodeSet::createRobotNodeSet(w.robo, "bodies", n);
        return b;
    }
    MX comJ(const World& w, const std::vector<int>& b)
    {
        MX J(3, w.idx.size());
        for (size_t k = 0; k < w.idx.size(); k++)
        {
            double h = w.sp.n[w.idx[k]].type == PRIS ? 1e-2 : 1e-5;
            auto x = w.q, y = w.q;
            x[w.idx[k]] -= h;
            y[w.idx[k]] += h;
            J.col(k) = (com(w, b, y) - com(w, b, x)) / (2 * h);
        }
        return J;
    }
    void comJacobian(Src& s, pbt::Ctx& c)
    {
        Opt o;
        o.physics = true;
        World w = world(s, c, o);
        RobotNodeSetPtr bs;
        auto b = bodies(s, w, bs);
        double m = 0;
        if (!b.empty()) com(w, b, w.q, &m);
        c.require(m > 0);
        int dim = s.chance(0.5) ? 3 : 2;
        int cs = s.chance(0.3) ? (int)s.draw(w.sp.n.size()) : -1;
        CoMIK ik(w.rns, bs, cs >= 0 ? w.robo->getRobotNode(w.sp.n[cs].name) : RobotNodePtr(), dim);
        ik.convertModelScalingtoM(false);
        V3 goal = com(w, b, w.q) + vec(s, 200);
        ik.setGoal(goal.head(dim).cast<float>(), 5);
        MX J = comJ(w, b), all = J;
        double scale = w.reach + trans(w.base).norm() + 200;
        if (cs >= 0) J = (rotOf(w.fk(w.q)[cs]).transpose() * J).eval();
        MX G = ik.getJacobianMatrix().cast<double>();
        bool moved = J.cwiseAbs().maxCoeff() > 1e-6;
        c.nontrivial(moved && b.size() > 1);
        MX Jd = J.topRows(dim);
        sameJ(c, G, Jd, dim == 3 ? 7 : 3, scale, "comJacobian", "Jacobian of the centre of mass");
        if (cs < 0)
        {
            VX e = ik.getError().cast<double>();
            for (int i = 0; i < dim; i++) c.near(e(i), (goal - com(w, b, w.q))(i), 0.02 + 2e-5 * scale, "comError", "distance of the centre of mass to its goal");
        }
    }

    std::vector<VX> gr(const VX& a) { return std::vector<VX>(1, a); }
    std::vector<VX> gr(const VX& a, const VX& b) { std::vector<VX> r(1, a); r.push_back(b); return r; }
    // objective functions and gradients of IK constraints
    void gradients(Src& s, pbt::Ctx& c)
    {
        Opt o;
        o.physics = true;
        World w = world(s, c, o);
        auto eef = w.robo->getRobotNode(w.sp.n[w.tcp].name);
        M4 cur = w.fk(w.q)[w.tcp];
        M3 dr = Eigen::AngleAxisd(s.uniform(0.01, 2.8), unit(s)).matrix();
        M4 goal = fl4(mk(dr * rotOf(cur), trans(cur) + vec(s, 300)));
        double S = w.reach + trans(w.base).norm() + 500, factor = s.chance(0.5) ? 1 : fl(s.uniform(0.1, 3));
        ConstraintPtr con;
        std::vector<double> want;
        std::vector<VX> grad;
        int nd = (int)w.idx.size();
        MX J = modelJ(w, w.tcp);
        std::string what;
        static const int pm[] = {15, 7, 8, 1, 2, 4};
        double ftol = 1e-4 * S, gtol = 1e-3; // relative to |e| and |e||J|
        std::vector<double> ft, gt;
        switch (s.draw(8))
        {
            case 0:
            {
                int mode = pm[s.draw(6)];
                what = "PoseConstraint mode " + std::to_string(mode);
                con.reset(new PoseConstraint(w.robo, w.rns, eef, f4(goal), (IKSolver::CartesianSelection)mode));
                VX e(6);
                e.head(3) = 0.1 * (trans(cur) - trans(goal));
                e.tail(3) = logRot(rotOf(cur) * rotOf(goal).transpose());
                for (int i = 0; i < 3; i++) if (!(mode & (1 << i))) e(i) = 0;
                if (!(mode & 8)) e.tail(3).setZero();
                want = {e.head(3).squaredNorm(), e.tail(3).squaredNorm()};
                MX Jp = 0.1 * J.topRows(3);
                grad = gr(2 * Jp.transpose() * e.head(3), 2 * J.bottomRows(3).transpose() * e.tail(3));
                ft = {2e-5 * S * (1 + e.head(3).norm()), 5e-3};
                gt = {1e-4 * S * (1 + e.head(3).norm()), 0.02};
                break;
            }
            case 1:
            {
                int mode = pm[s.draw(6)];
                what = "PositionConstraint mode " + std::to_string(mode);
                double tol = fl(s.uniform(1, 300));
                boost::shared_ptr<PositionConstraint> p(new PositionConstraint(w.robo, w.rns, eef, f3(trans(goal)), (IKSolver::CartesianSelection)mode, (float)tol));
                con = p;
                V3 e = trans(cur) - trans(goal);
                for (int i = 0; i < 3; i++) if (!(mode & (1 << i))) e(i) = 0;
                want = {e.squaredNorm()};
                grad = gr(2 * J.topRows(3).transpose() * e);
                ft = {2e-4 * S * (1 + e.norm())};
                gt = {1e-3 * S * (1 + e.norm())};
                if (fabs(e.norm() - tol) > 1e-5 * S) c.check(p->checkTolerances() == (e.norm() <= tol), "posTolerance", "error " + num(e.norm()) + " and tolerance " + num(tol) + " reported as " + (e.norm() <= tol ? "violated" : "satisfied"));
                break;
            }
            case 2:
            {
                what = "OrientationConstraint";
                con.reset(new OrientationConstraint(w.robo, w.rns, eef, f4(goal).block<3, 3>(0, 0)));
                V3 e = logRot(rotOf(cur) * rotOf(goal).transpose());
                want = {e.squaredNorm()};
                grad = gr(2 * J.bottomRows(3).transpose() * e);
                ft = {5e-3};
                gt = {0.02};
                break;
            }
            case 3:
            {
                what = "TSRConstraint";
                M4 T = fl4(mk(rot(s), trans(goal))), off = s.chance(0.5) ? M4::Identity() : fl4(pose(s, 100));
                Eigen::Matrix<float, 6, 2> b;
                V3 cw = trans(inv(T) * cur * off), e;
                for (int i = 0; i < 3; i++)
                {
                    double lo = fl(s.uniform(-200, 100)), hi = fl(lo + s.uniform(0, 200));
                    b(i, 0) = (float)lo;
                    b(i, 1) = (float)hi;
                    e(i) = cw(i) < lo ? cw(i) - lo : cw(i) > hi ? cw(i) - hi : 0;
                }
                for (int i = 3; i < 6; i++) b(i, 0) = b(i, 1) = 0;
                double tp = fl(s.uniform(1, 300)), tr = fl(s.uniform(0.05, 2));
                boost::shared_ptr<TSRConstraint> p(new TSRConstraint(w.robo, w.rns, eef, f4(T), f4(off), b, (float)tp, (float)tr));
                con = p;
                V3 a = logRot(rotOf(inv(T) * cur * off));
                if (a.norm() > 3) c.discard();
                MX Jo = modelJ(w, w.tcp, off);
                want = {0.01 * e.squaredNorm(), a.squaredNorm()};
                grad = gr(0.02 * Jo.topRows(3).transpose() * (rotOf(T) * e), 2 * J.bottomRows(3).transpose() * (rotOf(T) * a));
                ft = {2e-5 * S * (1 + 0.1 * e.norm()), 1e-2};
                gt = {1e-4 * S * (1 + e.norm() * 0.1), 0.02};
                if (fabs(e.norm() - tp) > 1e-4 * S && fabs(a.norm() - tr) > 1e-2)
                    c.check(p->checkTolerances() == (e.norm() < tp && a.norm() < tr), "tsrTolerance", "error " + num(e.norm()) + ", " + num(a.norm()) + " with tolerances " + num(tp) + ", " + num(tr));
                break;
            }
            case 4:
            case 5:
            {
                RobotNodeSetPtr bs;
                auto b = bodies(s, w, bs);
                double m = 0;
                if (!b.empty()) com(w, b, w.q, &m);
                c.require(m > 0);
                bool d3 = s.chance(0.5);
                what = d3 ? "CoMConstraint 3D" : "CoMConstraint 2D";
                V3 g = com(w, b, w.q) + vec(s, 200), g0 = g;
                bool upd = s.chance(0.4);
                if (upd) g0 += V3(50, 60, 70);
                double tol = fl(s.uniform(1, 300));
                boost::shared_ptr<CoMConstraint> p;
                if (d3) p.reset(new CoMConstraint(w.robo, w.rns, bs, f3(g0), (float)tol));
                else p.reset(new CoMConstraint(w.robo, w.rns, bs, Eigen::Vector2f(f3(g0).head<2>()), (float)tol));
                if (upd) { if (d3) p->updateTarget(f3(g)); else p->updateTarget(Eigen::Vector2f(f3(g).head<2>())); what += " with changed target"; }
                con = p;
                V3 e = com(w, b, w.q) - g;
                if (!d3) e(2) = 0;
                if (fabs(e.norm() - tol) > 1e-5 * S) c.check(p->checkTolerances() == (e.norm() <= tol), "comTolerance", "error " + num(e.norm()) + " and tolerance " + num(tol));
                want = {e.squaredNorm()};
                grad = gr(2 * comJ(w, b).transpose() * e);
                ft = {2e-4 * S * (1 + e.norm())};
                gt = {1e-3 * S * (1 + e.norm())};
                break;
            }
            case 6:
            {
                what = "ReferenceConfigurationConstraint";
                VX ref(nd), e(nd);
                for (int i = 0; i < nd; i++) { ref(i) = fl(s.uniform(-1, 1)); e(i) = w.q[w.idx[i]] - ref(i); }
                con.reset(new ReferenceConfigurationConstraint(w.robo, w.rns, ref.cast<float>()));
                want = {e.squaredNorm()};
                grad = gr(2 * e);
                ft = {1e-4 * (1 + e.squaredNorm())};
                gt = {1e-4 * (1 + e.norm())};
                break;
            }
            default:
            {
                what = "JointLimitAvoidanceConstraint";
                VX e(nd);
                for (int i = 0; i < nd; i++)
                {
                    const Node& n = w.sp.n[w.idx[i]];
                    double lo = n.lo, hi = n.hi;
                    e(i) = n.limitless ? 0 : w.q[w.idx[i]] - 0.5 * (lo + hi);
                    if (n.type == FIXED) c.discard();
                }
                con.reset(new JointLimitAvoidanceConstraint(w.robo, w.rns));
                want = {e.squaredNorm()};
                grad = gr(2 * e);
                ft = {1e-4 * (1 + e.squaredNorm())};
                gt = {1e-4 * (1 + e.norm())};
            }
        }
        (void)ftol; (void)gtol;
        c.label(what.substr(0, what.find(' ')));
        con->setOptimizationFunctionFactor((float)factor);
        auto fs = con->getOptimizationFunctions();
        c.check(fs.size() == want.size(), "functions", what + ": number of objective functions");
        double gn = 0;
        for (size_t i = 0; i < fs.size(); i++)
        {
            double f = con->optimizationFunction(fs[i].id);
            VX g = con->optimizationGradient(fs[i].id).cast<double>();
            c.near(f, factor * want[i], factor * ft[i], "objective", what + ": objective " + std::to_string(i));
            c.check(g.rows() == nd, "gradientSize", what + ": size of the gradient");
            gn = std::max(gn, grad[i].norm());
            VX d = g - factor * grad[i];
            c.check(d.cwiseAbs().maxCoeff() <= factor * gt[i], "gradient", what + ": gradient " + std::to_string(i) + " is " + str(g.transpose()) + " but the objective changes by " + str((factor * grad[i]).transpose()));
        }
        c.nontrivial(gn > 1e-3);
    }

    // steps of combined solvers
    void steps(Src& s, pbt::Ctx& c)
    {
        Opt o;
        o.onlyJoints = true;
        o.chain = true;
        o.onlyRev = true;
        World w = world(s, c, o);
        int nd = (int)w.idx.size();
        bool pri = s.chance(0.5);
        int n1 = w.tcp, n2 = (int)s.draw(w.sp.n.size());
        int m1 = modeOf(s), m2 = modeOf(s);
        auto mkik = [&](int node, int mode)
        {
            DifferentialIKPtr ik(new DifferentialIK(w.rns));
            ik->convertModelScalingtoM(true);
            M4 cur = w.fk(w.q)[node];
            M4 g = fl4(mk(Eigen::AngleAxisd(s.uniform(0, 1), unit(s)).matrix() * rotOf(cur), trans(cur) + vec(s, 0.2)));
            ik->setGoal(f4(g), w.robo->getRobotNode(w.sp.n[node].name), (IKSolver::CartesianSelection)mode);
            return ik;
        };
        auto a = mkik(n1, m1), b = mkik(n2, m2);
        double step = fl(s.uniform(0.1, 1));
        MX J1 = a->getJacobianMatrix().cast<double>(), J2 = b->getJacobianMatrix().cast<double>();
        VX e1 = a->getError().cast<double>(), e2 = b->getError().cast<double>();
        auto good = [&](const MX& m, double lo)
        {
            Eigen::JacobiSVD<MX> sv(m);
            for (int i = 0; i < sv.singularValues().size(); i++) { double x = sv.singularValues()(i); if (x > 1e-9 && x < lo) return false; }
            return true;
        };
        auto pinv = [&](const MX& m)
        {
            Eigen::JacobiSVD<MX> sv(m, Eigen::ComputeThinU | Eigen::ComputeThinV);
            VX x = sv.singularValues();
            for (int i = 0; i < x.size(); i++) x(i) = x(i) > 1e-3 ? 1 / x(i) : 0;
            return MX(sv.matrixV() * x.asDiagonal() * sv.matrixU().transpose());
        };
        MX st(J1.rows() + J2.rows(), nd);
        st << J1, J2;
        std::vector<JacobiProviderPtr> defs = {a, b};
        // only well-conditioned cases: elsewhere the result depends on the threshold of the inverse
        auto wellc = [&](const MX& m) { Eigen::JacobiSVD<MX> sv(m); for (int i = 0; i < sv.singularValues().size(); i++) if (sv.singularValues()(i) < 0.02) return false; return true; };
        c.require(wellc(J1));
        if (pri)
        {
            MX N = MX::Identity(nd, nd) - pinv(J1) * J1;
            MX J2n = J2 * N;
            Eigen::JacobiSVD<MX> sv(J2n);
            c.require(good(J2n, 0.02));
            for (int i = 0; i < sv.singularValues().size(); i++) c.require(sv.singularValues()(i) > 0.02);
            HierarchicalIK h(w.rns, JacobiProvider::eSVD);
            VX d = h.computeStep(defs, (float)step).cast<double>();
            c.check(d.rows() == nd && d.allFinite(), "hierarchicalSize", "size of the step");
            double t = 5e-3 * (1 + d.norm());
            c.check((J1 * d - step * e1).norm() < t, "firstTask", "the first task is off by " + num((J1 * d - step * e1).norm()) + " after a step of a hierarchy of tasks");
            c.check((J2 * d - step * e2).norm() < t, "secondTask", "the second task is feasible within the null space of the first but off by " + num((J2 * d - step * e2).norm()));
        }
        else
        {
            c.require(wellc(st));
            StackedIK h(w.rns, JacobiProvider::eSVD);
            VX d = h.computeStep(defs, (float)step).cast<double>(), e(st.rows());
            e << e1, e2;
            e *= step;
            // least squares solution of minimal norm
            VX want = pinv(st) * e;
            c.check(d.rows() == nd && (d - want).norm() < 5e-3 * (1 + want.norm()), "stackedStep", "step " + str(d.transpose()) + " but the least squares step is " + str(want.transpose()));
        }
        c.nontrivial(nd > 2);
        c.label(pri ? "hierarchy" : "stacked");
    }

    void quality(Src& s, pbt::Ctx& c)
    {
        Opt o;
        o.onlyRev = true;
        o.onlyJoints = true;
        World w = world(s, c, o);
        bool ratio = s.chance(0.5), pen = s.chance(0.4);
        PoseQualityManipulability m(w.rns, ratio ? PoseQualityManipulability::eMinMaxRatio : PoseQualityManipulability::eMultiplySV);
        double k = fl(s.uniform(5, 80));
        if (pen) m.penalizeJointLimits(true, (float)k);
        MX J = modelJ(w, w.tcp);
        J.topRows(3) /= 1000;
        J.bottomRows(3) *= 0.15;
        Eigen::JacobiSVD<MX> svd(J);
        VX sv = svd.singularValues();
        double f = 1;
        if (pen)
        {
            double p = 1;
            for (int i : w.idx)
            {
                double lo = w.robo->getRobotNode(w.sp.n[i].name)->getJointLimitLo(), hi = w.robo->getRobotNode(w.sp.n[i].name)->getJointLimitHi(), d = hi - lo;
                if (d < 0.05) c.discard();
                p *= (w.q[i] - lo) * (hi - w.q[i]) / (d * d);
            }
            f = 1 - exp(-k * p);
        }
        double prod = 1;
        for (int i = 0; i < sv.size(); i++) prod *= sv(i);
        double mx = sv(0), mn = sv(sv.size() - 1);
        c.nontrivial(sv.size() > 1 && mn > 1e-4);
        VX got = m.getSingularValues().cast<double>();
        c.check(got.size() == sv.size() && (got - sv).cwiseAbs().maxCoeff() < 1e-4 * (1 + mx), "singular", "singular values " + str(got.transpose()) + " expected " + str(sv.transpose()));
        double q = m.getPoseQuality();
        if (ratio)
        {
            if (sv.size() > 1 && mx > 0.01) c.near(q, f * mn / mx, 1e-3, "ratio", "ratio of singular values");
        }
        else c.near(q, f * prod, 1e-3 * (prod + 1) * f + 1e-4, "product", "product of singular values");
        V3 dir = unit(s);
        VX d6 = VX::Zero(6);
        d6.head(3) = dir;
        if (s.chance(0.5)) d6.tail(3) = unit(s);
        c.near(m.getPoseQuality(d6.cast<float>()), f * (J.transpose() * d6).norm(), 1e-3 * (1 + mx), "direction", "quality in a direction");
        if (d6.tail(3).norm() == 0) c.near(m.getPoseQuality(dir.cast<float>()), f * (J.transpose() * d6).norm(), 1e-3 * (1 + mx), "direction3", "quality in a Cartesian direction");
    }

    // manipulability under joint limits and obstacles: the worst of the 64 hyperoctants of the augmented Jacobian
    // (Vahrenkamp et al., Manipulability Analysis, 2012)
    struct Ext
    {
        MX jac, pen[64];
        VX lo, hi, sv[64];
        double volume = 1e30, ratio = 1e30;
    };
    VX svOf(const MX& a) { return Eigen::JacobiSVD<MX>(a).singularValues(); }
    MX augmented(const MX& J, const VX& lo, const VX& hi, bool obst, const V3& o, double alpha, double beta, const VX& dir)
    {
        MX r = J;
        VX po = VX::Ones(J.cols());
        if (obst)
        {
            double d = o.norm() / 1000, p1 = -std::exp(-alpha * d) * std::pow(d, -beta) * (beta / d + alpha);
            for (int j = 0; j < J.cols(); j++) po(j) = 1 / std::sqrt(1 + std::abs(p1 / d * J.block<3, 1>(0, j).dot(o / 1000)));
        }
        for (int i = 0; i < 6; i++)
            for (int j = 0; j < J.cols(); j++)
            {
                bool up = dir(i) >= 0;
                if (obst && i < 3 && up == (o(i) > 0)) r(i, j) *= po(j);
                if (J(i, j) < 0) up = !up;
                r(i, j) *= up ? hi(j) : lo(j);
            }
        return r;
    }
    void extQuality(Src& s, pbt::Ctx& c)
    {
        Opt o;
        o.onlyRev = true;
        o.onlyJoints = true;
        World w = world(s, c, o);
        int n = (int)w.idx.size();
        c.require(n >= 2);
        Ext x;
        x.lo.resize(n);
        x.hi.resize(n);
        for (int k = 0; k < n; k++)
        {
            auto rn = w.robo->getRobotNode(w.sp.n[w.idx[k]].name);
            double lo = rn->getJointLimitLo(), hi = rn->getJointLimitHi(), q = w.q[w.idx[k]];
            c.require(q - lo > 0.02 && hi - q > 0.02);
            double g = std::abs((hi - lo) * (hi - lo) * (2 * q - hi - lo) / (4 * (hi - q) * (hi - q) * (q - lo) * (q - lo)));
            bool upper = q - lo > hi - q;
            x.lo(k) = upper ? 1 : 1 / std::sqrt(1 + g);
            x.hi(k) = upper ? 1 / std::sqrt(1 + g) : 1;
        }
        bool ratio = s.chance(0.5), obst = s.chance(0.5);
        double alpha = fl(s.uniform(1, 40)), beta = fl(s.uniform(0.5, 2));
        V3 ov = unit(s) * s.uniform(30, 800);
        M3 R = rotOf(w.fk(w.q)[w.tcp]);
        V3 og = R * ov;
        for (int i = 0; i < 3; i++) c.require(std::abs(ov(i)) > 0.5 && std::abs(og(i)) > 0.5);
        PoseQualityExtendedManipulability m(w.rns, ratio ? PoseQualityManipulability::eMinMaxRatio : PoseQualityManipulability::eMultiplySV);
        if (obst)
        {
            m.setObstacleDistanceVector(f3(ov));
            m.considerObstacles(true, (float)alpha, (float)beta);
            float a, b;
            m.getSelfDistParameters(a, b);
            c.check(a == (float)alpha && b == (float)beta, "extParameters", "parameters of the obstacle distance");
        }
        else if (s.chance(0.5))
        {
            m.setObstacleDistanceVector(f3(ov));
            if (s.chance(0.5)) m.disableObstacleDistance(); else m.considerObstacles(false);
        }
        MX G = modelJ(w, w.tcp);
        G.topRows(3) /= 1000;
        G.bottomRows(3) *= 0.15;
        x.jac = G;
        x.jac.topRows(3) = (R.transpose() * G.topRows(3)).eval();   // analyzed in the frame of the TCP
        x.jac.bottomRows(3) = (R.transpose() * G.bottomRows(3)).eval();
        bool dims[6], partly = s.chance(0.3);
        for (bool& d : dims) d = !partly || s.chance(0.6);
        int rows = std::min(6, n), first = s.chance(0.5) ? (int)s.integer(1, 7) : (int)s.integer(-1, 0);
        int k1 = first <= 0 || first > rows ? rows : first;
        double mx = 0;
        for (int k = 0; k < 64; k++)
        {
            VX dir(6);
            for (int i = 0; i < 6; i++) dir(i) = (k >> i) & 1 ? -1 : 1;
            x.pen[k] = augmented(x.jac, x.lo, x.hi, obst, ov, alpha, beta, dir);
            for (int i = 0; i < 6; i++) if (!dims[i]) x.pen[k].row(i).setZero();
            x.sv[k] = svOf(x.pen[k]);
            double p = 1;
            for (int i = 0; i < k1; i++) p *= x.sv[k](i);
            x.volume = std::min(x.volume, p);
            mx = std::max(mx, x.sv[k](0));
            x.ratio = std::min(x.ratio, x.sv[k](0) > 0 ? x.sv[k](k1 - 1) / x.sv[k](0) : 0.0);
        }
        bool clear = true;   // the ratio is well defined
        for (auto& v : x.sv) if (v(0) < 0.01) clear = false;
        typedef PoseQualityExtendedManipulability::extManipData Data;
        std::unique_ptr<Data> d(new Data());
        c.check(partly ? m.getDetailedAnalysis(*d, dims, first) : m.getDetailedAnalysis(*d, first), "extAnalysis", "analysis failed");
        double tol = 2e-4 * (1 + mx);
        c.check(d->nrJoints == n && (d->penLo.cast<double>() - x.lo).norm() < 1e-2 && (d->penHi.cast<double>() - x.hi).norm() < 1e-2, "extLimits", "penalties of joint limits " + str(d->penLo.transpose()) + " / " + str(d->penHi.transpose()) + " expected " + str(x.lo.transpose()) + " / " + str(x.hi.transpose()));
        auto perm = m.getPermutationVector();
        c.check(perm.size() == 64, "extOctants", "number of hyperoctants");
        for (int k = 0; k < 64 && k < (int)perm.size(); k++)
        {
            int at = 0;
            for (int i = 0; i < 6; i++) if (perm[k][i] < 0) at |= 1 << i;
            double e = (d->jacPen[k].cast<double>() - x.pen[at]).cwiseAbs().maxCoeff();
            c.checkf(e < tol * 5, "extJacobian", [&](std::ostream& os_) { os_ << "augmented Jacobian of hyperoctant " << k << " differs by " << e; });
            e = (d->sv[k].cast<double>() - x.sv[at]).cwiseAbs().maxCoeff();
            c.checkf(e < tol * 5, "extSingular", [&](std::ostream& os_) { os_ << "singular values of hyperoctant " << k << " differ by " << e; });
        }
        double tv = 1e-3 * std::pow(1 + mx, k1) * 2;
        c.near(d->extManip_Volume, x.volume, tv, "extVolume", "worst product of singular values");
        if (clear) c.near(d->extManip_InvCondNumber, x.ratio, 5e-3, "extRatio", "worst ratio of singular values");
        double q = !partly && first <= 0 && s.chance(0.5) ? m.getPoseQuality() : m.getPoseQuality(ratio ? PoseQualityManipulability::eMinMaxRatio : PoseQualityManipulability::eMultiplySV, first);
        if (!partly && (!ratio || clear)) c.near(q, ratio ? x.ratio : x.volume, ratio ? 5e-3 : tv, "extQuality", "pose quality");
        c.check(m.consideringJointLimits(), "extConsiders", "joint limits are considered");
        // a direction in global coordinates
        VX d6 = VX::Zero(6);
        d6.head(3) = unit(s);
        bool six = s.chance(0.5);
        if (six) d6.tail(3) = unit(s);
        for (int i = 0; i < 6; i++) if (std::abs(d6(i)) < 1e-5) d6(i) = 0;
        d6 = VX(d6.cast<float>().cast<double>());
        MX P = augmented(G, x.lo, x.hi, obst, og, alpha, beta, d6);
        VX sv = svOf(P);
        if (sv(0) > 0.01)
        {
            double r = sv(k1 - 1) / sv(0);
            double got = first <= 0 && s.chance(0.5) ? m.getPoseQuality(six ? Eigen::VectorXf(d6.cast<float>()) : Eigen::VectorXf(d6.head(3).cast<float>())) : m.getManipulability(d6.cast<float>(), first);
            c.near(got, (P.transpose() * d6).norm() * r, 1e-2 * (1 + mx), "extDirection", "quality in a direction");
        }
        c.nontrivial(clear && x.volume > 1e-6);
        c.label(obst ? "obstacle" : "limits");
    }

    pbt::Suite suite()
    {
        pbt::Suite x;
        x.property = "P09";
        x.rule = "random kinematic trees, placements, joint sets in any order, TCPs, coordinate systems and task selections; reference: central differences of a double-precision kinematics model; non-trivial: several joints of which at least one moves the TCP, centre of mass or objective";
        x.init = [] { initVR("P09"); };
        x.add("tcp", 200000, 2000000, tcpJacobian);
        x.add("tasks", 120000, 1500000, tasks);
        x.add("inverse", 150000, 2000000, inverse);
        x.add("com", 120000, 1500000, comJacobian);
        x.add("gradient", 200000, 2000000, gradients);
        x.add("steps", 200000, 2000000, steps);
        x.add("quality", 100000, 1000000, quality);
        x.add("extended", 6000, 60000, extQuality);
        return x;
    }
}
int main(int argc, char** argv) { pbt::Suite x = suite(); return pbt::run(argc, argv, x); }
