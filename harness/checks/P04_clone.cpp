// libs: VirtualRobot
// P04: clones, sub parts and restructured copies are the same mechanism, and independent of the original
#include "common/geom.h"
#include <VirtualRobot/Nodes/PositionSensor.h>
#include <VirtualRobot/Obstacle.h>
using namespace VirtualRobot;
using namespace gen;

namespace
{
    struct Bot
    {
        RobotSpec sp;
        RobotPtr r;
        std::vector<double> q;
        M4 base = M4::Identity();
        std::vector<M4> pose() const { return sp.fk(base, q); }
        RobotNodePtr node(int i) const { return r->getRobotNode(sp.n[i].name); }
        std::vector<std::vector<int>> sets;
        std::vector<int> kinRoot, tcp;
        int sensorNode = -1;
        M4 sensorT;
    };
    void setQ(Src& s, Bot& b, const std::vector<int>& which)
    {
        std::map<std::string, float> m;
        for (int j : which) { b.q[j] = randomQ(s, b.sp.n[j]); m[b.sp.n[j].name] = (float)b.q[j]; }
        b.r->setJointValues(m);
    }
    void boxes(Src& s, RobotSpec& sp, double prob = 0.6)
    {
        for (auto& n : sp.n)
            if (s.chance(prob))
            {
                Prim p = prim(s);
                p.kind = 0;
                n.col.assign(1, p);
                n.vis = n.col;
            }
    }
    Bot bot(Src& s, RobotOpts o, bool models)
    {
        Bot b;
        o.physics = true;
        b.sp = robotSpec(s, o);
        if (models) boxes(s, b.sp);
        b.r = fromXML(b.sp);
        b.q = readQ(b.sp, b.r);
        auto js = b.sp.joints();
        if (!js.empty() && s.chance(0.7))
            for (int k = 0, m = 1 + (int)s.draw(2); k < m; k++)
            {
                std::vector<int> idx;
                for (int j : js) if (s.chance(0.6)) idx.push_back(j);
                if (idx.empty()) idx.push_back(js[0]);
                std::vector<RobotNodePtr> rn;
                for (int i : idx) rn.push_back(b.node(i));
                int root = s.chance(0.5) ? 0 : (int)s.draw(b.sp.n.size());
                for (int i : idx) if (!b.sp.isAncestor(root, i)) root = 0;
                int tcp = (int)s.draw(b.sp.n.size());
                RobotNodeSet::createRobotNodeSet(b.r, "set" + std::to_string(k), rn, b.node(root), b.node(tcp), true);
                b.sets.push_back(idx);
                b.kinRoot.push_back(root);
                b.tcp.push_back(tcp);
            }
        if (s.chance(0.4))
        {
            b.sensorNode = (int)s.draw(b.sp.n.size());
            b.sensorT = fl4(pose(s, 150));
            SensorPtr sn(new PositionSensor(b.node(b.sensorNode), "sens", VisualizationNodePtr(), f4(b.sensorT)));
            sn->initialize(b.node(b.sensorNode));
        }
        if (s.chance(0.6)) { b.base = fl4(pose(s, 1500)); b.r->setGlobalPose(f4(b.base)); }
        return b;
    }

    // clone(), RobotFactory::clone, extractSubPart, with scaling
    void cloneCheck(Src& s, pbt::Ctx& c)
    {
        RobotOpts o;
        o.maxNodes = 7;
        o.limitless = true;
        o.maxima = true;
        o.prop = false;
        double sc = s.chance(0.3) ? fl(s.uniform(0.3, 3)) : 1;
        if (sc != 1) o.prismatic = false;
        bool models = s.chance(0.3);
        Bot b = bot(s, o, models);
        setQ(s, b, b.sp.joints());
        int start = 0;
        RobotPtr cl;
        std::string kind;
        switch (s.draw(sc != 1 ? 3 : 4))
        {
            case 0: kind = "clone"; cl = b.r->clone("copy", CollisionCheckerPtr(), (float)sc); break;
            case 1: kind = "RobotFactory::clone"; cl = RobotFactory::clone(b.r, "copy", CollisionCheckerPtr(), (float)sc); break;
            case 2: start = (int)s.draw(b.sp.n.size()); kind = "extractSubPart(" + b.sp.n[start].name + ")"; cl = b.r->extractSubPart(b.node(start), "newtype", "copy", true, true, CollisionCheckerPtr(), (float)sc); break;
            default: kind = "clone()"; cl = b.r->clone(); break;
        }
        c.label(kind.substr(0, kind.find('(')));
        if (sc != 1) c.label("scaled");
        c.describe(kind + " scale " + num(sc) + " " + b.sp.summary());
        c.check(!!cl && cl != b.r, "null", "no clone");
        // names and structure
        std::vector<int> in;
        for (size_t i = 0; i < b.sp.n.size(); i++) if (b.sp.isAncestor(start, (int)i)) in.push_back((int)i);
        c.check(cl->getRobotNodes().size() == in.size(), "nodecount", kind + ": " + std::to_string(cl->getRobotNodes().size()) + " nodes, expected " + std::to_string(in.size()));
        c.check(cl->getRootNode() && cl->getRootNode()->getName() == b.sp.n[start].name, "rootname", "root of the copy");
        for (int i : in)
        {
            const Node& n = b.sp.n[i];
            RobotNodePtr a = cl->getRobotNode(n.name), g = b.node(i);
            c.check(a && a != g && a->getRobot() == cl, "node", "node " + n.name + " of the copy");
            if (i != start)
            {
                SceneObjectPtr p = a->getParent();
                c.check(p && p->getName() == b.sp.n[n.parent].name && p != g->getParent(), "parent", "parent of " + n.name);
            }
            c.check(a->isTranslationalJoint() == (n.type == PRIS) && a->isRotationalJoint() == (n.type == REV), "jointtype", "joint type of " + n.name);
            if (n.type != FIXED)
            {
                c.check(a->getJointLimitLo() == g->getJointLimitLo() && a->getJointLimitHi() == g->getJointLimitHi(), "limits", "limits of " + n.name);
                c.check(a->isLimitless() == n.limitless, "limitless", "limitless flag of " + n.name);
                c.check(a->getJointValueOffset() == g->getJointValueOffset(), "offset", "offset of " + n.name);
                c.near(a->getJointValue(), b.q[i], 1e-5 * (1 + fabs(b.q[i])), "value", "joint value of " + n.name + " in the copy");
                c.check(a->getMaxVelocity() == g->getMaxVelocity() && a->getMaxAcceleration() == g->getMaxAcceleration() && a->getMaxTorque() == g->getMaxTorque(), "maxima", "maxima of " + n.name);
            }
            c.near(a->getMass(), n.mass, 1e-5, "mass", "mass of " + n.name);
            c.check((d3(a->getCoMLocal()) - sc * (n.physics ? n.com : d3(g->getCoMLocal()))).norm() < 1e-2, "com", "CoM of " + n.name + " scaled by " + num(sc));
            if (sc == 1) c.check((a->getInertiaMatrix() - g->getInertiaMatrix()).norm() < 1e-5, "inertia", "inertia of " + n.name);
            c.check(a->getSimulationType() == g->getSimulationType(), "simtype", "simulation type of " + n.name);
            if (!n.col.empty())
            {
                CollisionModelPtr ca = a->getCollisionModel(), cg = g->getCollisionModel();
                c.check(ca && cg && ca != cg, "colmodel", "collision model of " + n.name);
                auto ta = triangles(ca->getTriMeshModel()), tg = triangles(cg->getTriMeshModel());
                c.check(ta.size() == tg.size() && !ta.empty(), "colfaces", "collision model size of " + n.name);
                for (size_t k = 0; k < ta.size(); k++)
                    c.check((ta[k].a - sc * tg[k].a).norm() + (ta[k].b - sc * tg[k].b).norm() + (ta[k].c - sc * tg[k].c).norm() < 0.1, "colverts", "collision model of " + n.name + " scaled by " + num(sc));
            }
        }
        // node sets
        for (size_t k = 0; k < b.sets.size(); k++)
        {
            bool all = b.sp.isAncestor(start, b.kinRoot[k]) && b.sp.isAncestor(start, b.tcp[k]);
            for (int i : b.sets[k]) all = all && b.sp.isAncestor(start, i);
            std::string nm = "set" + std::to_string(k);
            if (!all) continue; // whether partially covered sets are dropped is not claimed
            c.check(cl->hasRobotNodeSet(nm), "rns", "node set " + nm + " missing in " + kind);
            RobotNodeSetPtr rs = cl->getRobotNodeSet(nm);
            c.check(rs->getSize() == b.sets[k].size(), "rnssize", "size of node set");
            for (size_t m = 0; m < b.sets[k].size(); m++) c.check(rs->getNode((int)m) == cl->getRobotNode(b.sp.n[b.sets[k][m]].name), "rnsnode", "member of node set");
            c.check(rs->getTCP() == cl->getRobotNode(b.sp.n[b.tcp[k]].name), "rnstcp", "tcp of node set");
            c.check(rs->getKinematicRoot() == cl->getRobotNode(b.sp.n[b.kinRoot[k]].name), "rnsroot", "kinematic root of node set");
            c.label("node set copied");
        }
        // same mechanism, independent state
        RobotSpec sp2;
        std::map<int, int> mp;
        for (int i : in)
        {
            Node n = b.sp.n[i];
            mp[i] = (int)sp2.n.size();
            n.parent = i == start ? -1 : mp[n.parent];
            n.local.block<3, 1>(0, 3) *= sc;
            n.prop.clear();
            sp2.n.push_back(n);
        }
        sp2.link();
        std::vector<double> q2;
        for (int i : in) q2.push_back(b.q[i]);
        M4 base2 = start == 0 && kind.substr(0, 3) != "ext" ? b.base : M4::Identity();
        auto compare = [&](const std::string& when)
        {
            auto w1 = b.pose();
            auto w2 = sp2.fk(base2, q2);
            double tp = 1e-2 + (b.sp.reach() * std::max(1.0, sc) + trans(b.base).norm() + trans(base2).norm()) * 2e-5;
            for (size_t i = 0; i < b.sp.n.size(); i++) samePose(c, b.node((int)i)->getGlobalPose(), w1[i], tp, 1e-4, "origpose", "pose of original " + b.sp.n[i].name + " " + when);
            for (size_t i = 0; i < sp2.n.size(); i++)
            {
                RobotNodePtr n = cl->getRobotNode(sp2.n[i].name);
                samePose(c, n->getGlobalPose(), w2[i], tp, 1e-4, "clonepose", "pose of copied " + sp2.n[i].name + " " + when);
                if (n->getCollisionModel()) samePose(c, n->getCollisionModel()->getGlobalPose(), w2[i], tp, 1e-4, "clonecol", "collision model of copied " + sp2.n[i].name + " " + when);
            }
            if (b.sensorNode >= 0 && mp.count(b.sensorNode) && sc == 1)
            {
                SensorPtr sn = cl->getSensor("sens");
                c.check(sn && sn->getRobotNode() == cl->getRobotNode(b.sp.n[b.sensorNode].name), "sensornode", "sensor not at its node");
                samePose(c, sn->getGlobalPose(), w2[mp[b.sensorNode]] * b.sensorT, tp, 1e-4, "sensorpose", "sensor of the copy " + when);
            }
        };
        compare("after " + kind);
        for (int k = 0, m = 1 + (int)s.draw(3); k < m; k++)
        {
            if (s.chance(0.5))
            {
                if (s.chance(0.5)) { b.base = fl4(pose(s, 1500)); b.r->setGlobalPose(f4(b.base)); }
                setQ(s, b, b.sp.joints());
                compare("after moving the original");
            }
            else
            {
                if (s.chance(0.5)) { base2 = fl4(pose(s, 1500)); cl->setGlobalPose(f4(base2)); }
                std::map<std::string, float> mm;
                for (size_t i = 0; i < sp2.n.size(); i++) if (sp2.n[i].type != FIXED) { q2[i] = randomQ(s, sp2.n[i]); mm[sp2.n[i].name] = (float)q2[i]; }
                cl->setJointValues(mm);
                compare("after moving the copy");
            }
        }
        // the copy survives the original
        if (s.chance(0.2))
        {
            RobotSpec sp1 = b.sp;
            b.r.reset();
            cl->setJointValues(std::map<std::string, float>());
            for (size_t i = 0; i < sp2.n.size(); i++) samePose(c, cl->getRobotNode(sp2.n[i].name)->getGlobalPose(), sp2.fk(base2, q2)[i], 1e-2 + (sp1.reach() * std::max(1.0, sc) + trans(base2).norm()) * 2e-5, 1e-4, "afterdelete", "copy after deleting the original");
        }
        c.nontrivial(in.size() >= 2 && b.sp.joints().size() >= 1);
    }

    // joints that drive others keep doing so in the copy
    void coupling(Src& s, pbt::Ctx& c)
    {
        RobotOpts o;
        o.maxNodes = 6;
        o.minNodes = 2;
        o.limitless = false;
        o.fixedProb = 0.1;
        RobotSpec sp = robotSpec(s, o);
        auto js = sp.joints();
        c.require(js.size() >= 2);
        int a = js[s.draw(js.size())], t = js[s.draw(js.size())];
        c.require(a != t);
        double f = fl(s.uniform(-1, 1));
        c.require(f != 0);
        sp.n[a].prop.push_back({t, f});
        RobotPtr r = fromXML(sp), cl = r->clone("copy");
        double v = randomQ(s, sp.n[a]), tv0 = r->getRobotNode(sp.n[t].name)->getJointValue();
        c.describe(sp.summary() + " " + sp.n[a].name + "->" + sp.n[t].name + " x" + num(f) + " value " + num(v));
        cl->setJointValue(sp.n[a].name, (float)v);
        double e = std::max(sp.n[t].lo, std::min(sp.n[t].hi, fl(v) * f));
        c.near(cl->getRobotNode(sp.n[t].name)->getJointValue(), e, 1e-4 * (1 + fabs(e)), "coupling", "coupled joint in the copy");
        c.near(r->getRobotNode(sp.n[t].name)->getJointValue(), tv0, 0, "couplingOrig", "coupled joint of the original");
        c.nontrivial(fabs(e - tv0) > 1e-3);
    }

    // copies in which all but the given joints are frozen
    void subset(Src& s, pbt::Ctx& c)
    {
        RobotOpts o;
        o.minNodes = 2;
        o.maxNodes = 7;
        o.limitless = false;
        Bot b = bot(s, o, s.chance(0.3));
        bool unite = s.chance(0.5);
        setQ(s, b, b.sp.joints());
        RobotPtr cl;
        std::vector<int> active; // nodes present in the copy
        if (!unite)
        {
            // an ordered chain of nodes below each other, at least one of them
            int tip = (int)s.draw(b.sp.n.size());
            std::vector<int> path;
            for (int i = tip; i >= 0; i = b.sp.n[i].parent) path.insert(path.begin(), i);
            for (int i : path) if (i == tip || s.chance(0.5)) active.push_back(i);
            std::vector<RobotNodePtr> rn;
            for (int i : active) rn.push_back(b.node(i));
            RobotNodeSetPtr rns = RobotNodeSet::createRobotNodeSet(b.r, "active", rn, b.node(active[0]), b.node(active.back()), true);
            c.describe("cloneSubSet " + b.sp.summary() + " tip " + b.sp.n[tip].name + " active " + std::to_string(active.size()) + " base " + str(b.base));
            cl = RobotFactory::cloneSubSet(b.r, rns, "sub");
            c.label("cloneSubSet");
        }
        else
        {
            std::vector<std::string> un;
            std::vector<int> ui;
            for (size_t i = 1; i < b.sp.n.size(); i++) if (s.chance(0.3)) { un.push_back(b.sp.n[i].name); ui.push_back((int)i); }
            if (un.empty()) { un.push_back(b.sp.n[1].name); ui.push_back(1); }
            for (size_t i = 0; i < b.sp.n.size(); i++)
            {
                bool swallowed = false;
                for (int u : ui) if (u != (int)i && b.sp.isAncestor(u, (int)i)) swallowed = true;
                if (!swallowed) active.push_back((int)i);
            }
            c.describe("cloneUniteSubsets " + b.sp.summary() + " united " + std::to_string(un.size()) + " base " + str(b.base));
            cl = RobotFactory::cloneUniteSubsets(b.r, "sub", un);
            c.label("cloneUniteSubsets");
        }
        c.check(!!cl, "null", "no copy");
        for (int i : active) c.check(cl->hasRobotNode(b.sp.n[i].name), "node", "node " + b.sp.n[i].name + " missing");
        double mass = 0;
        for (auto& n : b.sp.n) mass += n.mass;
        c.near(cl->getMass(), mass, 1e-3 * (1 + mass), "mass", "total mass of the copy");
        std::vector<int> aj;
        for (int i : active) if (b.sp.n[i].type != FIXED) aj.push_back(i);
        int moved = 0;
        for (int k = 0; k < 3; k++)
        {
            if (k > 0) { setQ(s, b, aj); moved += !aj.empty(); }
            if (k == 2) { b.base = fl4(pose(s, 1500)); b.r->setGlobalPose(f4(b.base)); cl->setGlobalPose(f4(b.base)); }
            std::map<std::string, float> m;
            for (int j : aj) m[b.sp.n[j].name] = (float)b.q[j];
            cl->setJointValues(m);
            auto w = b.pose();
            double tp = 5e-2 + (b.sp.reach() + trans(b.base).norm()) * 1e-4;
            for (int i : active) samePose(c, cl->getRobotNode(b.sp.n[i].name)->getGlobalPose(), w[i], tp, 3e-4, "subpose", "pose of " + b.sp.n[i].name + " in the reduced copy, step " + std::to_string(k));
            auto ga = robotTriangles(b.r), gb = robotTriangles(cl);
            c.check(ga.size() == gb.size(), "subfaces", "number of collision faces " + std::to_string(gb.size()) + " instead of " + std::to_string(ga.size()));
            double d = cornerDist(ga, gb);
            c.checkf(d < tp + 0.1, "subgeom", [&](std::ostream & os) { os << "collision geometry of the reduced copy deviates by " << d << " in step " << k; });
            if (!ga.empty()) c.label("with geometry");
        }
        c.nontrivial(moved > 0 && b.sp.n.size() > active.size());
    }

    // reversed kinematic chain: same joint frames and same bodies seen from the new root
    void inverse(Src& s, pbt::Ctx& c)
    {
        RobotOpts o;
        o.minNodes = 2;
        o.maxNodes = 6;
        o.limitless = false;
        o.chain = true;
        o.models = false;
        o.offsets = false;
        Bot b;
        b.sp = robotSpec(s, o);
        int last = (int)b.sp.n.size() - 1;
        b.sp.n[last].type = FIXED;
        b.sp.n[last].offset = 0;
        if (s.chance(0.5)) boxes(s, b.sp, 0.7);
        b.sp.n[last].col.clear();
        b.sp.n[last].vis.clear();
        bool mass = s.chance(0.5);
        for (int i = 0; i < last; i++) if (mass) { b.sp.n[i].physics = true; b.sp.n[i].mass = fl(s.uniform(0.1, 3)); b.sp.n[i].com = vec(s, 80); b.sp.n[i].inertia = inertia(s); }
        b.r = fromXML(b.sp);
        b.q = readQ(b.sp, b.r);
        bool chainFn = s.chance(0.4);
        c.describe(std::string(chainFn ? "cloneChangeStructure " : "cloneInversed ") + b.sp.summary());
        RobotPtr cl = chainFn ? RobotFactory::cloneChangeStructure(b.r, b.sp.n[0].name, b.sp.n[last].name) : RobotFactory::cloneInversed(b.r, b.sp.n[last].name, false, false);
        c.check(!!cl && cl->getRootNode()->getName() == b.sp.n[last].name, "root", "root of the reversed copy");
        c.check(cl->getRobotNodes().size() == b.sp.n.size(), "count", "nodes of the reversed copy");
        int moved = 0;
        for (int k = 0; k < 3; k++)
        {
            setQ(s, b, b.sp.joints());
            moved += b.sp.joints().size() > 0;
            std::map<std::string, float> m;
            for (int j : b.sp.joints()) m[b.sp.n[j].name] = (float)b.q[j];
            cl->setJointValues(m);
            auto w = b.pose();
            // place the copy so that the common node coincides
            cl->setGlobalPose(f4(w[last]));
            double tp = 5e-2 + b.sp.reach() * 1e-4;
            for (size_t i = 0; i < b.sp.n.size(); i++)
            {
                // the reversed node sits before its joint
                M4 pre = i == 0 ? M4(b.sp.n[0].local) : M4(w[i - 1] * b.sp.n[i].local);
                if ((int)i == 0) pre = b.sp.n[0].local;
                samePose(c, cl->getRobotNode(b.sp.n[i].name)->getGlobalPose(), pre, tp, 3e-4, "invpose", "joint frame of " + b.sp.n[i].name + " in the reversed copy");
            }
            auto ga = robotTriangles(b.r), gb = robotTriangles(cl);
            c.check(ga.size() == gb.size(), "invfaces", "number of collision faces " + std::to_string(gb.size()) + " instead of " + std::to_string(ga.size()));
            double d = cornerDist(ga, gb);
            c.checkf(d < tp + 0.1, "invgeom", [&](std::ostream & os) { os << "collision geometry of the reversed copy deviates by " << d; });
            if (!ga.empty()) c.label("with geometry");
            if (mass && last > 0)
            {
                c.near(cl->getMass(), b.r->getMass(), 1e-3, "invmass", "mass of the reversed copy");
                sameVec(c, d3(cl->getCoMGlobal()), d3(b.r->getCoMGlobal()), tp, "invcom", "center of mass of the reversed copy");
            }
        }
        c.nontrivial(moved > 0 && last >= 2);
        c.label(chainFn ? "cloneChangeStructure" : "cloneInversed");
    }

    // objects attached to a robot become part of it
    void attachObject(Src& s, pbt::Ctx& c)
    {
        RobotOpts o;
        o.maxNodes = 5;
        o.limitless = false;
        Bot b = bot(s, o, false);
        int k = (int)s.draw(b.sp.n.size());
        M4 T = fl4(pose(s, 300));
        VisualizationFactoryPtr f = VisualizationFactory::first(nullptr);
        VisualizationNodePtr v = f->createBox(30, 40, 50);
        SceneObjectPtr ob(new SceneObject("thing", v, CollisionModelPtr(new CollisionModel(v->clone(), "thing", CollisionCheckerPtr()))));
        ob->initialize();
        ob->setMass(1.5f);
        c.describe(b.sp.summary() + " at " + b.sp.n[k].name);
        size_t before = b.r->getRobotNodes().size();
        c.check(RobotFactory::attach(b.r, ob, b.node(k), f4(T)), "attach", "attach failed");
        c.check(!RobotFactory::attach(b.r, ob, b.node(0), f4(T)), "attachTwice", "a second object of the same name was attached");
        RobotNodePtr n = b.r->getRobotNode("thing");
        c.check(n && b.r->getRobotNodes().size() == before + 1, "attachNode", "no node for the attached object");
        c.near(n->getMass(), 1.5, 1e-6, "attachMass", "mass");
        for (int i = 0; i < 3; i++)
        {
            setQ(s, b, b.sp.joints());
            if (i == 2) { b.base = fl4(pose(s, 1500)); b.r->setGlobalPose(f4(b.base)); }
            double tp = 1e-2 + (b.sp.reach() + trans(b.base).norm() + 300) * 3e-5;
            samePose(c, n->getGlobalPose(), b.pose()[k] * T, tp, 1e-4, "attachPose", "attached object");
            samePose(c, n->getCollisionModel()->getGlobalPose(), b.pose()[k] * T, tp, 1e-4, "attachCol", "collision model of the attached object");
        }
        c.check(RobotFactory::detach(b.r, n), "detach", "detach failed");
        c.check(!b.r->hasRobotNode("thing") && b.r->getRobotNodes().size() == before && !n->getParent(), "detached", "object still part of the robot");
        c.check(!RobotFactory::detach(b.r, n), "detachTwice", "detached twice");
        c.nontrivial(!b.sp.joints().empty());
    }
}

int main(int argc, char** argv)
{
    pbt::Suite suite;
    suite.property = "P04";
    suite.rule = "clone: >=2 nodes and >=1 joint copied; coupling: the driven joint moves; subset: active joints moved and some nodes frozen; inverse: chain of >=3 nodes moved; attach: robot has joints";
    suite.init = [] { initVR("P04"); };
    suite.add("clone", 20000, 500000, cloneCheck);
    suite.add("coupling", 5000, 100000, coupling);
    suite.add("subset", 6000, 200000, subset);
    suite.add("inverse", 6000, 200000, inverse);
    suite.add("attach", 6000, 200000, attachObject);
    return pbt::run(argc, argv, suite);
}
