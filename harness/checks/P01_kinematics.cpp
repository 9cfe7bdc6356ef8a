// libs: VirtualRobot
// P01: after any history of updates every node pose equals base * prod(local * joint(q)), models follow the nodes.
#include "common/robotgen.h"
#include <VirtualRobot/RobotConfig.h>
#include <VirtualRobot/CollisionDetection/CollisionModel.h>
#include <VirtualRobot/Visualization/VisualizationNode.h>
#include <VirtualRobot/Nodes/ForceTorqueSensor.h>
#include <VirtualRobot/Nodes/PositionSensor.h>
using namespace VirtualRobot;
using namespace gen;

namespace
{
    struct State
    {
        RobotSpec spec;
        RobotPtr robo;
        std::vector<double> q;
        M4 base = M4::Identity();
        bool models;
    };

    double tolP(const State& st) { return 2e-3 + (st.spec.reach() + trans(st.base).norm()) * 6e-6; }

    void compare(const State& st, const pbt::Ctx& c, const std::string& op)
    {
        auto want = st.spec.fk(st.base, st.q);
        double tp = tolP(st), tr = 2e-5;
        samePose(c, st.robo->getGlobalPose(), st.base, tp, tr, "base", "robot pose after " + op);
        for (size_t i = 0; i < st.spec.n.size(); i++)
        {
            RobotNodePtr n = st.robo->getRobotNode(st.spec.n[i].name);
            samePose(c, n->getGlobalPose(), want[i], tp, tr, "nodepose", "pose of " + st.spec.n[i].name + " after " + op);
            samePose(c, n->getPoseInRootFrame(), inv(want[0]) * want[i], tp, tr, "rootpose", "root-frame pose of " + st.spec.n[i].name + " after " + op);
            sameVec(c, d3(n->getGlobalPosition()), trans(want[i]), tp, "nodepos", "position of " + st.spec.n[i].name + " after " + op);
            if (st.models)
            {
                CollisionModelPtr cm = n->getCollisionModel();
                if (cm) samePose(c, cm->getGlobalPose(), want[i], tp, tr, "colmodelpose", "collision model of " + st.spec.n[i].name + " after " + op);
                VisualizationNodePtr v = n->getVisualization(SceneObject::Full);
                if (v) samePose(c, v->getGlobalPose(), want[i], tp, tr, "visupose", "visualization of " + st.spec.n[i].name + " after " + op);
            }
        }
    }

    std::vector<int> subset(Src& s, const std::vector<int>& v)
    {
        std::vector<int> r;
        for (int x : v) if (s.chance(0.6)) r.push_back(x);
        if (r.empty()) r.push_back(v[s.draw(v.size())]);
        for (size_t i = r.size(); i > 1; i--) std::swap(r[i - 1], r[s.draw(i)]);
        return r;
    }

    void history(Src& s, pbt::Ctx& c, bool models)
    {
        RobotOpts o;
        o.maxNodes = models ? 5 : 10;
        o.limitless = false;
        o.models = models;
        o.initValues = true;
        State st;
        st.models = models;
        st.spec = robotSpec(s, o);
        bool factory = !models && s.chance(0.4);
        st.robo = factory ? fromFactory(st.spec) : fromXML(st.spec);
        c.check(!!st.robo, "build", "no robot built");
        const RobotSpec& sp = st.spec;
        auto js = sp.joints();
        std::vector<int> all;
        for (size_t i = 0; i < sp.n.size(); i++) all.push_back((int)i);
        c.label(factory ? "built by factories" : "built from XML");
        // node sets over the robot (joints only)
        std::vector<RobotNodeSetPtr> sets;
        std::vector<std::vector<int>> setIdx;
        int nsets = js.empty() ? 0 : (int)s.draw(3);
        for (int k = 0; k < nsets; k++)
        {
            auto idx = subset(s, js);
            std::vector<RobotNodePtr> rn;
            for (int i : idx) rn.push_back(st.robo->getRobotNode(sp.n[i].name));
            RobotNodePtr root;
            if (s.chance(0.6)) root = st.robo->getRobotNode(sp.n[s.draw(sp.n.size())].name);
            sets.push_back(RobotNodeSet::createRobotNodeSet(st.robo, "set" + std::to_string(k), rn, root, RobotNodePtr(), false));
            setIdx.push_back(idx);
            c.label(root ? "set with explicit root" : "set with default root");
        }
        if (factory) for (int i : js) st.robo->setJointValue(sp.n[i].name, 0.0f);
        st.q = readQ(sp, st.robo);
        if (!factory)
            for (int i : js) c.near(st.q[i], std::max(sp.n[i].lo, std::min(sp.n[i].hi, sp.n[i].init)), 1e-5 * (1 + std::fabs(st.q[i])), "initialvalue", "initial value of " + sp.n[i].name);
        compare(st, c, "construction");
        auto want0 = sp.fk(st.base, st.q);
        std::map<std::string, float> snapshot;
        std::vector<double> snapQ;
        std::string trace;
        int steps = (int)s.integer(1, 8), moved = 0;
        for (int k = 0; k < steps; k++)
        {
            std::string op;
            int kind = (int)s.draw(js.empty() ? 5 : 17);
            auto node = [&](int i) { return st.robo->getRobotNode(sp.n[i].name); };
            std::vector<int> idx;
            std::vector<double> v;
            auto choose = [&](const std::vector<int>& from) { idx = subset(s, from); v.clear(); for (int i : idx) v.push_back(randomQ(s, sp.n[i])); };
            auto apply = [&] { for (size_t i = 0; i < idx.size(); i++) st.q[idx[i]] = v[i]; moved++; };
            auto fv = [&] { return std::vector<float>(v.begin(), v.end()); };
            if (kind == 0) { st.base = fl4(pose(s, 2000)); op = "setGlobalPose"; st.robo->setGlobalPose(f4(st.base)); moved++; }
            else if (kind == 1) { st.base = fl4(pose(s, 2000)); op = "setGlobalPose(,false)+applyJointValues"; st.robo->setGlobalPose(f4(st.base), false); st.robo->applyJointValues(); moved++; }
            else if (kind == 2 || kind == 3)
            {
                int i = (int)s.draw(sp.n.size());
                M4 target = fl4(pose(s, 2000));
                if (s.chance(0.3)) target.block<3, 3>(0, 0).setIdentity();
                auto cur = sp.fk(st.base, st.q);
                if (kind == 2)
                {
                    op = "setGlobalPoseForRobotNode(" + sp.n[i].name + ")";
                    st.robo->setGlobalPoseForRobotNode(node(i), f4(target));
                    M4 nb = target * inv(cur[i]) * st.base;
                    double tp = 4 * tolP(st) + 1e-5 * trans(target).norm() + 1e-2;
                    samePose(c, st.robo->getGlobalPose(), nb, tp, 1e-4, "poseForNode", "robot pose after " + op + " target " + str(target) + " node pose before " + str(cur[i]));
                    samePose(c, node(i)->getGlobalPose(), target, tp, 1e-4, "poseForNodeNode", "node pose after " + op);
                }
                else
                {
                    op = "setGlobalPositionForRobotNode(" + sp.n[i].name + ")";
                    st.robo->setGlobalPositionForRobotNode(node(i), f3(trans(target)));
                    double tp = 4 * tolP(st) + 1e-5 * trans(target).norm() + 1e-2;
                    sameVec(c, d3(node(i)->getGlobalPosition()), trans(target), tp, "positionForNode", "node position after " + op + ", robot pose before " + str(st.base));
                }
                st.base = d4(st.robo->getGlobalPose());
                c.check(rigid(st.base, 1e-4), "baseRigid", "robot pose not rigid after " + op + ": " + str(st.base));
                moved++;
            }
            else if (kind == 4)
            {
                if (snapshot.empty() || s.chance(0.5))
                {
                    op = "getConfig";
                    snapshot = st.robo->getConfig()->getRobotNodeJointValueMap();
                    snapQ = st.q;
                }
                else
                {
                    op = "setConfig(earlier getConfig)";
                    st.robo->setConfig(mkCfg(st.robo, "snap", snapshot));
                    st.q = snapQ;
                    moved++;
                }
            }
            else if (kind == 5) { choose({js[s.draw(js.size())]}); op = "node->setJointValue"; node(idx[0])->setJointValue((float)v[0]); apply(); }
            else if (kind == 6) { choose({js[s.draw(js.size())]}); op = "robot->setJointValue(name)"; st.robo->setJointValue(sp.n[idx[0]].name, (float)v[0]); apply(); }
            else if (kind == 7) { choose({js[s.draw(js.size())]}); op = "robot->setJointValue(node)"; st.robo->setJointValue(node(idx[0]), (float)v[0]); apply(); }
            else if (kind == 8)
            {
                choose(js); op = "robot->setJointValues(name map)";
                std::map<std::string, float> m;
                for (size_t i = 0; i < idx.size(); i++) m[sp.n[idx[i]].name] = (float)v[i];
                st.robo->setJointValues(m); apply();
            }
            else if (kind == 9)
            {
                choose(js); op = "robot->setJointValues(node map)";
                std::map<RobotNodePtr, float> m;
                for (size_t i = 0; i < idx.size(); i++) m[node(idx[i])] = (float)v[i];
                st.robo->setJointValues(m); apply();
            }
            else if (kind == 10)
            {
                choose(js); op = "robot->setJointValues(node vector)";
                std::vector<RobotNodePtr> m;
                for (int i : idx) m.push_back(node(i));
                st.robo->setJointValues(m, fv()); apply();
            }
            else if (kind == 11)
            {
                choose(js); op = "setJointValueNoUpdate*+applyJointValues";
                for (size_t i = 0; i < idx.size(); i++) node(idx[i])->setJointValueNoUpdate((float)v[i]);
                st.robo->applyJointValues(); apply();
            }
            else if (kind == 12)
            {
                choose(js); op = "robot->setJointValues(config)";
                std::map<std::string, float> m;
                for (size_t i = 0; i < idx.size(); i++) m[sp.n[idx[i]].name] = (float)v[i];
                st.robo->setJointValues(mkCfg(st.robo, "cfg", m)); apply();
            }
            else if (!sets.empty())
            {
                int k2 = (int)s.draw(sets.size());
                idx = setIdx[k2];
                v.clear();
                for (int i : idx) v.push_back(randomQ(s, sp.n[i]));
                RobotNodeSetPtr rns = sets[k2];
                if (kind == 13) { op = "rns->setJointValues(vector)"; if (s.chance(0.5)) rns->setJointValues(fv()); else st.robo->setJointValues(rns, fv()); }
                else if (kind == 14 || kind == 15)
                {
                    op = "rns->setJointValues(VectorXf)";
                    Eigen::VectorXf e((int)v.size());
                    for (size_t i = 0; i < v.size(); i++) e((int)i) = (float)v[i];
                    if (kind == 14) rns->setJointValues(e); else st.robo->setJointValues(rns, e);
                }
                else
                {
                    op = "rns->setJointValues(config)";
                    std::map<std::string, float> m;
                    for (size_t i = 0; i < idx.size(); i++) m[sp.n[idx[i]].name] = (float)v[i];
                    // a value for a joint outside the set must not be applied
                    for (int j : js) if (!m.count(sp.n[j].name) && s.chance(0.3)) m[sp.n[j].name] = (float)randomQ(s, sp.n[j]);
                    RobotConfigPtr cfg = mkCfg(st.robo, "cfg", m);
                    if (s.chance(0.5)) rns->setJointValues(cfg); else st.robo->setJointValues(rns, cfg);
                }
                apply();
            }
            else { choose({js[s.draw(js.size())]}); op = "node->setJointValue"; node(idx[0])->setJointValue((float)v[0]); apply(); }
            c.label(op.substr(0, op.find('(' ) == std::string::npos ? op.size() : op.find('(')));
            trace += (k ? " ; " : "") + op;
            c.describe(sp.summary() + " | " + trace);
            for (size_t i = 0; i < idx.size(); i++)
                c.near(node(idx[i])->getJointValue(), st.q[idx[i]], 1e-6 * (1 + std::fabs(st.q[idx[i]])), "jointvalue", "value of " + sp.n[idx[i]].name + " after " + trace);
            compare(st, c, trace);
        }
        auto want1 = sp.fk(st.base, st.q);
        double d = 0;
        for (size_t i = 0; i < want0.size(); i++) d = std::max(d, (want0[i] - want1[i]).cwiseAbs().maxCoeff());
        c.nontrivial(moved >= 2 && sp.n.size() >= 3 && js.size() >= 1 && d > 1e-2);
    }

    // Denavit-Hartenberg joints: pose = Rz(theta) Tz(d) Tx(a) Rx(alpha), joint rotates about / slides along z of the resulting frame
    void dh(Src& s, pbt::Ctx& c)
    {
        int k = (int)s.integer(1, 6);
        std::vector<M4> lt;
        std::vector<int> ty;
        std::vector<double> off, lo, hi;
        RobotPtr robo(new LocalRobot("dh", "dh"));
        bool xml = s.chance(0.5);
        std::string x = "<Robot Type='t' StandardName='dh' RootNode='n0'>\n";
        std::vector<RobotNodePtr> nodes;
        std::map<RobotNodePtr, std::vector<std::string>> ch;
        double reach = 1;
        std::string d;
        for (int i = 0; i < k; i++)
        {
            double a = fl(s.real(-500, 500)), dd = fl(s.real(-500, 500)), al = fl(s.real(-M_PI, M_PI)), th = fl(s.real(-M_PI, M_PI));
            int t = (int)s.draw(2);
            double o = s.chance(0.3) ? fl(s.uniform(-1, 1)) : 0;
            M4 m = mk(Eigen::AngleAxisd(th, V3(0, 0, 1)).matrix(), V3(0, 0, 0)) * mk(M3::Identity(), V3(0, 0, dd)) * mk(M3::Identity(), V3(a, 0, 0)) * mk(Eigen::AngleAxisd(al, V3(1, 0, 0)).matrix(), V3(0, 0, 0));
            lt.push_back(m); ty.push_back(t); off.push_back(o);
            lo.push_back(t ? -200 : -3); hi.push_back(t ? 200 : 3);
            reach += fabs(a) + fabs(dd) + 201;
            d += " dh(a=" + num(a) + ",d=" + num(dd) + ",al=" + num(al) + ",th=" + num(th) + (t ? ",P" : ",R") + ")";
            if (xml)
            {
                bool deg = s.chance(0.5), met = s.chance(0.5);
                x += "<RobotNode name='n" + std::to_string(i) + "'>\n<Transform><DH a='" + num(met ? a / 1000 : a) + "' d='" + num(met ? dd / 1000 : dd) + "' alpha='" + num(deg ? al * 180 / M_PI : al) + "' theta='" + num(deg ? th * 180 / M_PI : th)
                     + "' unitsAngle='" + (deg ? "degree" : "radian") + "' unitsLength='" + (met ? "m" : "mm") + "'/></Transform>\n<Joint type='" + (t ? "prismatic" : "revolute") + "' offset='" + num(o) + "'>"
                     + (t ? "<TranslationDirection x='0' y='0' z='1'/>" : "<Axis x='0' y='0' z='1'/>") + "<Limits unit='" + (t ? "mm" : "radian") + "' lo='" + num(lo[i]) + "' hi='" + num(hi[i]) + "'/></Joint>"
                     + (i + 1 < k ? "<Child name='n" + std::to_string(i + 1) + "'/>" : "") + "</RobotNode>\n";
            }
            else
            {
                DHParameter p;
                p.setAInMM((float)a); p.setDInMM((float)dd); p.setAlphaRadian((float)al, true); p.setThetaRadian((float)th, true);
                auto f = RobotNodeFactory::fromName(t ? "prismatic" : "revolute", nullptr);
                auto n = f->createRobotNodeDH(robo, "n" + std::to_string(i), VisualizationNodePtr(), CollisionModelPtr(), (float)lo[i], (float)hi[i], (float)o, p);
                robo->registerRobotNode(n);
                nodes.push_back(n);
                ch[n] = i + 1 < k ? std::vector<std::string>{"n" + std::to_string(i + 1)} : std::vector<std::string>();
            }
        }
        c.describe(std::string(xml ? "xml" : "factory") + d);
        if (xml) robo = RobotIO::createRobotFromString(x + "</Robot>", "");
        else c.check(RobotFactory::initializeRobot(robo, nodes, ch, nodes[0]), "build", "initializeRobot failed");
        M4 base = fl4(pose(s, 1000));
        robo->setGlobalPose(f4(base));
        std::map<std::string, float> q;
        std::vector<double> v;
        for (int i = 0; i < k; i++) { v.push_back(fl(s.uniform(lo[i], hi[i]))); q["n" + std::to_string(i)] = (float)v[i]; }
        robo->setJointValues(q);
        M4 p = base;
        for (int i = 0; i < k; i++)
        {
            p = p * lt[i] * (ty[i] ? mk(M3::Identity(), V3(0, 0, v[i] + off[i])) : mk(Eigen::AngleAxisd(v[i] + off[i], V3(0, 0, 1)).matrix(), V3::Zero()));
            samePose(c, robo->getRobotNode("n" + std::to_string(i))->getGlobalPose(), p, 5e-3 + (reach + 1000) * 1e-5, 3e-5, "dhpose", "pose of DH node " + std::to_string(i) + ":" + d);
        }
        c.nontrivial(k >= 2);
        c.label(xml ? "dh xml" : "dh factory");
    }
}

int main(int argc, char** argv)
{
    pbt::Suite suite;
    suite.property = "P01";
    suite.rule = "history: >=3 nodes, >=1 joint, >=2 state-changing updates and some node pose differs from its initial pose by >0.01; dh: >=2 joints";
    suite.init = [] { initVR("P01"); };
    suite.add("history", 60000, 2000000, [](Src& s, pbt::Ctx& c) { history(s, c, false); });
    suite.add("models", 8000, 300000, [](Src& s, pbt::Ctx& c) { history(s, c, true); });
    suite.add("dh", 10000, 300000, dh);
    return pbt::run(argc, argv, suite);
}
