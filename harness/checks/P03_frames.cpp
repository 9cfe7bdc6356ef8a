// libs: VirtualRobot
// P03: coordinate frame conversions are mutually consistent; attached objects follow; the scene tree stays a tree
#include "common/robotgen.h"
#include <VirtualRobot/LinkedCoordinate.h>
#include <VirtualRobot/Obstacle.h>
#include <VirtualRobot/CollisionDetection/CollisionModel.h>
#include <VirtualRobot/Nodes/PositionSensor.h>
#include <VirtualRobot/Nodes/ForceTorqueSensor.h>
using namespace VirtualRobot;
using namespace gen;

namespace
{
    struct Bot
    {
        RobotSpec sp;
        RobotPtr r;
        std::vector<double> q;
        M4 base = M4::Identity();
        std::vector<M4> pose() const { return sp.fk(base, q); }
        RobotNodePtr node(int i) const { return r->getRobotNode(sp.n[i].name); }
    };
    Bot bot(Src& s, int maxN, int minN = 1)
    {
        RobotOpts o;
        o.minNodes = minN;
        o.maxNodes = maxN;
        o.limitless = false;
        Bot b;
        b.sp = robotSpec(s, o);
        b.r = fromFactory(b.sp);
        b.q.assign(b.sp.n.size(), 0);
        return b;
    }
    void randomState(Src& s, Bot& b)
    {
        if (s.chance(0.7)) { b.base = fl4(pose(s, 2000)); b.r->setGlobalPose(f4(b.base)); }
        std::map<std::string, float> m;
        for (int j : b.sp.joints()) { b.q[j] = randomQ(s, b.sp.n[j]); m[b.sp.n[j].name] = (float)b.q[j]; }
        b.r->setJointValues(m);
    }
    Eigen::Vector3f v3(const M4& m) { return f3(trans(m)); }

    void frames(Src& s, pbt::Ctx& c)
    {
        Bot b = bot(s, 7);
        randomState(s, b);
        auto P = b.pose();
        std::vector<SceneObjectPtr> ob;
        std::vector<M4> wp;
        for (size_t i = 0; i < b.sp.n.size(); i++) { ob.push_back(b.node((int)i)); wp.push_back(P[i]); }
        ob.push_back(b.r);
        wp.push_back(b.base);
        for (int i = 0; i < 2; i++)
        {
            SceneObjectPtr o(new SceneObject("obj" + std::to_string(i)));
            M4 m = fl4(pose(s, 3000));
            o->setGlobalPose(f4(m));
            ob.push_back(o);
            wp.push_back(m);
        }
        int ia = (int)s.draw(ob.size()), ib = (int)s.draw(ob.size());
        M4 A = wp[ia], B = wp[ib];
        SceneObjectPtr a = ob[ia], o = ob[ib];
        M4 X = fl4(pose(s, 1500));
        V3 x = trans(X);
        double sc = b.sp.reach() + trans(b.base).norm() + trans(A).norm() + trans(B).norm() + x.norm();
        double tp = 1e-2 + sc * 3e-5, tr = 1e-4;
        c.describe(b.sp.summary() + " a=" + a->getName() + " b=" + o->getName() + " base " + str(b.base) + " X " + str(X));
        samePose(c, a->toLocalCoordinateSystem(f4(X)), inv(A) * X, tp, tr, "toLocal", "toLocalCoordinateSystem");
        samePose(c, a->toGlobalCoordinateSystem(f4(X)), A * X, tp, tr, "toGlobal", "toGlobalCoordinateSystem");
        samePose(c, a->getGlobalPose(f4(X)), A * X, tp, tr, "globalPoseOf", "getGlobalPose(local)");
        sameVec(c, d3(a->toLocalCoordinateSystemVec(f3(x))), trans(inv(A) * X), tp, "toLocalVec", "toLocalCoordinateSystemVec");
        sameVec(c, d3(a->toGlobalCoordinateSystemVec(f3(x))), trans(A * X), tp, "toGlobalVec", "toGlobalCoordinateSystemVec");
        sameVec(c, d3(a->getGlobalPosition(f3(x))), trans(A * X), tp, "globalPosOf", "getGlobalPosition(local)");
        sameVec(c, d3(a->getGlobalDirection(f3(x))), rotOf(A) * x, tp, "globalDirOf", "getGlobalDirection(local)");
        c.check((a->getGlobalOrientation(rotOf(X).cast<float>().eval()).cast<double>() - rotOf(A) * rotOf(X)).cwiseAbs().maxCoeff() < tr, "globalOri", "getGlobalOrientation(local)");
        c.check((a->getGlobalOrientation().cast<double>() - rotOf(A)).cwiseAbs().maxCoeff() < tr, "globalOri0", "getGlobalOrientation()");
        samePose(c, a->getTransformationTo(o), inv(A) * B, tp, tr, "trafoTo", "getTransformationTo");
        samePose(c, a->getTransformationFrom(o), inv(B) * A, tp, tr, "trafoFrom", "getTransformationFrom");
        samePose(c, a->transformTo(o, f4(X)), inv(A) * B * X, tp, tr, "transformTo", "transformTo(pose)");
        sameVec(c, d3(a->transformTo(o, f3(x))), trans(inv(A) * B * X), tp, "transformToVec", "transformTo(position)");
        // round trips
        samePose(c, a->toGlobalCoordinateSystem(a->toLocalCoordinateSystem(f4(X))), X, 2 * tp, tr, "roundtrip", "toGlobal(toLocal)");
        // node specific: root frame
        int k = (int)s.draw(b.sp.n.size());
        RobotNodePtr n = b.node(k);
        M4 R = inv(P[0]) * P[k];
        samePose(c, n->getPoseInRootFrame(), R, tp, tr, "rootPose", "getPoseInRootFrame");
        samePose(c, n->getPoseInRootFrame(f4(X)), R * X, tp, tr, "rootPoseX", "getPoseInRootFrame(local)");
        sameVec(c, d3(n->getPositionInRootFrame()), trans(R), tp, "rootPos", "getPositionInRootFrame");
        sameVec(c, d3(n->getPositionInRootFrame(f3(x))), trans(R * X), tp, "rootPosX", "getPositionInRootFrame(local)");
        sameVec(c, d3(n->getDirectionInRootFrame(f3(x))), rotOf(R) * x, tp, "rootDir", "getDirectionInRootFrame");
        c.check((n->getOrientationInRootFrame().cast<double>() - rotOf(R)).cwiseAbs().maxCoeff() < tr, "rootOri", "getOrientationInRootFrame");
        c.check((n->getOrientationInRootFrame(rotOf(X).cast<float>().eval()).cast<double>() - rotOf(R) * rotOf(X)).cwiseAbs().maxCoeff() < tr, "rootOriX", "getOrientationInRootFrame(local)");
        c.nontrivial(ia != ib && !A.isIdentity(1e-3) && !B.isIdentity(1e-3));
    }

    void linked(Src& s, pbt::Ctx& c)
    {
        Bot b = bot(s, 7, 2);
        randomState(s, b);
        LinkedCoordinate lc(b.r);
        int fr = (int)s.draw(b.sp.n.size());
        M4 X = fl4(pose(s, 800));
        if (s.chance(0.3))
        {
            X.block<3, 3>(0, 0).setIdentity();
            if (s.chance(0.5)) lc.set(b.sp.n[fr].name, f3(trans(X))); else lc.set(b.node(fr), f3(trans(X)));
        }
        else if (s.chance(0.5)) lc.set(b.sp.n[fr].name, f4(X));
        else lc.set(b.node(fr), f4(X));
        std::string tr;
        int changes = 0;
        double sc = 1;
        for (int k = 0, steps = (int)s.integer(1, 6); k < steps; k++)
        {
            auto P = b.pose();
            sc = std::max(sc, b.sp.reach() + trans(X).norm() + trans(b.base).norm());
            double tp = (1e-2 + sc * 3e-5) * (k + 1), to = 1e-4 * (k + 1);
            int d = (int)s.draw(b.sp.n.size());
            M4 want = inv(P[d]) * P[fr] * X;
            switch (s.draw(4))
            {
                case 0:
                    tr += " getInFrame(" + b.sp.n[d].name + ")";
                    samePose(c, s.chance(0.5) ? lc.getInFrame(b.node(d)) : lc.getInFrame(b.sp.n[d].name), want, tp, to, "inFrame", "getInFrame after" + tr);
                    break;
                case 1:
                {
                    tr += " changeFrame(" + b.sp.n[d].name + ")";
                    if (s.chance(0.5)) lc.changeFrame(b.node(d)); else lc.changeFrame(b.sp.n[d].name);
                    fr = d;
                    X = want;
                    changes++;
                    break;
                }
                case 2: tr += " move"; randomState(s, b); break;
                default:
                    c.check(throws<VirtualRobotException>([&] { lc.changeFrame("nosuchnode"); }), "unknown", "unknown frame accepted");
                    c.check(throws<VirtualRobotException>([&] { lc.set("nosuchnode", f4(X)); }), "unknown", "unknown frame accepted by set");
                    samePose(c, LinkedCoordinate::getCoordinateTransformation(b.node(fr), b.node(d), b.r), inv(P[d]) * P[fr], tp, to, "ct", "getCoordinateTransformation");
            }
            c.describe(b.sp.summary() + tr);
            c.check(lc.getFrame() == b.node(fr), "frame", "frame after" + tr);
            samePose(c, lc.getPose(), X, tp, to, "lcpose", "pose after" + tr);
            sameVec(c, d3(lc.getPosition()), trans(X), tp, "lcpos", "position after" + tr);
            X = d4(lc.getPose());
        }
        c.nontrivial(changes >= 1);
    }

    // a forest of scene objects, some hanging off robot nodes
    void attach(Src& s, pbt::Ctx& c)
    {
        Bot b = bot(s, 4, 1);
        struct Obj { SceneObjectPtr o; int parent = -1; M4 pose = M4::Identity(); bool upd = true; M4 visu = M4::Identity(); std::string name; bool fresh = true; };
        int nr = (int)b.sp.n.size();
        std::vector<Obj> ob(nr);
        for (int i = 0; i < nr; i++) { ob[i].o = b.node(i); ob[i].name = b.sp.n[i].name; ob[i].parent = b.sp.n[i].parent; }
        int no = (int)s.integer(2, 5);
        for (int i = 0; i < no; i++)
        {
            Obj o;
            o.name = "o" + std::to_string(s.chance(0.1) && i ? i - 1 : i);
            if (i == 0)
            {
                VisualizationFactoryPtr f = VisualizationFactory::first(nullptr);
                VisualizationNodePtr v = f->createBox(10, 20, 30);
                o.o.reset(new SceneObject(o.name, v, CollisionModelPtr(new CollisionModel(v->clone(), o.name, CollisionCheckerPtr()))));
            }
            else o.o.reset(new SceneObject(o.name));
            o.o->initialize();
            ob.push_back(o);
        }
        auto anc = [&](int a, int d) { for (int i = d; i >= 0; i = ob[i].parent) if (i == a) return true; return false; };
        std::function<void(int)> push = [&](int i) { for (size_t k = nr; k < ob.size(); k++) if (ob[k].parent == i) { ob[k].pose = ob[i].pose; push((int)k); } };
        auto syncRobot = [&] { auto P = b.pose(); for (int i = 0; i < nr; i++) ob[i].pose = P[i]; for (int i = 0; i < nr; i++) push(i); };
        std::vector<SensorPtr> sens;
        std::vector<M4> sensT;
        std::vector<int> sensN;
        if (s.chance(0.5))
        {
            int k = (int)s.draw(nr);
            M4 t = fl4(pose(s, 200));
            SensorPtr sn;
            if (s.chance(0.5)) sn.reset(new PositionSensor(b.node(k), "sensor", VisualizationNodePtr(), f4(t)));
            else sn.reset(new ForceTorqueSensor(b.node(k), "sensor", f4(t)));
            sn->initialize(b.node(k));
            sens.push_back(sn); sensT.push_back(t); sensN.push_back(k);
            c.check(b.node(k)->hasSensor("sensor") && b.r->getSensor("sensor") == sn, "sensorReg", "sensor not registered");
        }
        syncRobot();
        b.r->applyJointValues();
        std::string tr;
        int attached = 0, moved = 0;
        auto verify = [&]
        {
            double tp = 1e-2 + (b.sp.reach() + trans(b.base).norm() + 3000) * 2e-5;
            for (size_t i = 0; i < ob.size(); i++)
            {
                samePose(c, ob[i].o->getGlobalPose(), ob[i].pose, tp, 1e-4, "objpose", "pose of " + ob[i].name + "#" + std::to_string(i) + " after" + tr);
                SceneObjectPtr p = ob[i].o->getParent();
                SceneObjectPtr wp = (int)i == 0 ? p : ob[i].parent < 0 ? SceneObjectPtr() : ob[ob[i].parent].o;
                c.check(p == wp, "parent", "parent of " + ob[i].name + " after" + tr);
                if (i == (size_t)nr)
                {
                    samePose(c, ob[i].o->getCollisionModel()->getGlobalPose(), ob[i].pose, tp, 1e-4, "objcol", "collision model of " + ob[i].name + " after" + tr);
                    samePose(c, ob[i].o->getVisualization()->getGlobalPose(), ob[i].pose, tp, 1e-4, "objvisu", "visualization of " + ob[i].name + " after" + tr);
                }
            }
            for (size_t i = 0; i < ob.size(); i++)
                for (size_t k = 0; k < ob.size(); k++)
                {
                    c.check(ob[i].o->hasChild(ob[k].o) == (ob[k].parent == (int)i), "hasChild", "hasChild(" + ob[i].name + "," + ob[k].name + ") after" + tr);
                    c.check(ob[i].o->hasChild(ob[k].o, true) == (i != k && anc((int)i, (int)k)), "hasChildRec", "recursive hasChild(" + ob[i].name + "," + ob[k].name + ") after" + tr);
                }
            for (size_t i = 0; i < sens.size(); i++) samePose(c, sens[i]->getGlobalPose(), ob[sensN[i]].pose * sensT[i], tp, 1e-4, "sensorpose", "sensor pose after" + tr);
        };
        for (int k = 0, steps = (int)s.integer(2, 12); k < steps; k++)
        {
            int i = nr + (int)s.draw(no), j = (int)s.draw(ob.size());
            switch (s.draw(6))
            {
                case 0: case 1:
                {
                    tr += " attach(" + ob[i].name + "#" + std::to_string(i) + " to " + ob[j].name + "#" + std::to_string(j) + ")";
                    c.describe(tr);
                    bool want;
                    if (i == j) want = false;
                    else if (ob[i].parent == j) want = true;
                    else if (ob[i].parent >= 0) want = false;
                    else if (anc(i, j)) want = false;
                    else
                    {
                        want = true;
                        for (size_t m = 0; m < ob.size(); m++) if (ob[m].parent == j && ob[m].name == ob[i].name) want = false;
                    }
                    bool got = ob[j].o->attachChild(ob[i].o);
                    c.check(got == want, "attachResult", "result " + std::to_string(got) + " of" + tr);
                    if (want) { ob[i].parent = j; attached++; }
                    // the child follows with the next update of its parent
                    if (want)
                    {
                        if (j >= nr) { int r = j; while (ob[r].parent >= nr) r = ob[r].parent; if (ob[r].parent < 0) { ob[r].o->setGlobalPose(ob[r].o->getGlobalPose()); push(r); } else { b.r->applyJointValues(); push(ob[r].parent); } }
                        else { b.r->applyJointValues(); push(j); }
                    }
                    break;
                }
                case 2:
                    tr += " detach(" + ob[i].name + " from " + ob[j].name + ")";
                    ob[j].o->detachChild(ob[i].o);
                    if (ob[i].parent == j) ob[i].parent = -1;
                    break;
                case 3:
                {
                    tr += " setPose(" + ob[i].name + ")";
                    M4 m = fl4(pose(s, 2000));
                    ob[i].o->setGlobalPose(f4(m));
                    if (ob[i].parent < 0) { ob[i].pose = m; push(i); moved++; }
                    break;
                }
                case 4: tr += " moveRobot"; randomState(s, b); syncRobot(); moved++; break;
                default:
                    if (!sens.empty()) { sensT[0] = fl4(pose(s, 200)); sens[0]->setRobotNodeToSensorTransformation(f4(sensT[0])); tr += " sensorTrafo"; }
                    c.check(throws<VirtualRobotException>([&] { b.node(0)->setGlobalPose(Eigen::Matrix4f::Identity()); }), "nodeSetPose", "pose of a robot node could be set");
            }
            c.describe(tr);
            verify();
        }
        c.nontrivial(attached >= 1 && moved >= 1);
        if (attached >= 2) c.label("two or more attachments");
    }
}

int main(int argc, char** argv)
{
    pbt::Suite suite;
    suite.property = "P03";
    suite.rule = "frames: two different objects with non-identity poses; linked: >=1 change of frame; attach: >=1 attachment and >=1 motion";
    suite.init = [] { initVR("P03"); };
    suite.add("frames", 40000, 1000000, frames);
    suite.add("linked", 30000, 800000, linked);
    suite.add("attach", 30000, 800000, attach);
    return pbt::run(argc, argv, suite);
}
