// libs: VirtualRobot SimDynamics
// P30: simulated robots: links, motors, joint values, centre of mass and momentum, attached objects, registry
#include "common/robotgen.h"
#include <SimDynamics/DynamicsWorld.h>
#include <SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.h>
#include <SimDynamics/DynamicsEngine/BulletEngine/BulletObject.h>
#include <SimDynamics/DynamicsEngine/BulletEngine/BulletRobot.h>
#include <VirtualRobot/Obstacle.h>
#include <VirtualRobot/CollisionDetection/CollisionModel.h>
#include <set>
using namespace VirtualRobot;
using namespace SimDynamics;
using namespace gen;

namespace
{
    const double SF = 2;
    template<class... A> void ck(const pbt::Ctx& c, bool ok, const std::string& key, const char* f, A... a)
    {
        if (ok) return;
        char b[500];
        snprintf(b, sizeof b, f, a...);
        c.fail(key, b);
    }
    BulletObjectPtr bo(const DynamicsObjectPtr& o) { return boost::dynamic_pointer_cast<BulletObject>(o); }
    BulletRobotPtr brob(const DynamicsRobotPtr& o) { return boost::dynamic_pointer_cast<BulletRobot>(o); }
    M4 bodyPose(const BulletObjectPtr& o)
    {
        btTransform t = o->getRigidBody()->getWorldTransform();
        M4 m = M4::Identity();
        for (int a = 0; a < 3; a++)
        {
            for (int b = 0; b < 3; b++) m(a, b) = t.getBasis()[a][b];
            m(a, 3) = t.getOrigin()[a] * 1000 / SF;
        }
        return m;
    }
    BulletEnginePtr freshWorld(const V3& g, double lin = 0, double ang = 0, bool sleep = false)
    {
        BulletEngineConfigPtr c(new BulletEngineConfig());
        c->gravity = f3(g);
        c->bulletObjectDampingLinear = lin;
        c->bulletObjectDampingAngular = ang;
        if (!sleep)
        {
            c->bulletObjectDeactivation = 1e6;
            c->bulletObjectSleepingThresholdLinear = 0;
            c->bulletObjectSleepingThresholdAngular = 0;
        }
        DynamicsWorld::Close();
        DynamicsWorld::Init(c);
        return boost::dynamic_pointer_cast<BulletEngine>(DynamicsWorld::GetWorld()->getEngine());
    }
    double rdist(const M3& a, const M3& b) { return Eigen::AngleAxisd(a.transpose() * b).angle(); }
    M4 dm(const Eigen::Matrix4f& m) { return m.cast<double>(); }

    // ------------------------------------------------------------ robots with bodies
    void body(Src& s, Node& n, int sim)
    {
        Prim p;
        p.kind = (int)s.draw(2);
        p.a = fl(s.uniform(40, 100)); p.b = fl(s.uniform(40, 100)); p.c = fl(s.uniform(40, 100));
        if (p.kind == 1) p.a = fl(s.uniform(25, 50));
        p.t = M4::Identity();
        n.col = {p};
        if (s.chance(0.5)) n.vis = n.col;
        n.physics = true;
        n.mass = fl(s.uniform(0.3, 3));
        n.com = s.chance(0.5) ? V3::Zero() : vec(s, 30);
        n.simType = sim;
    }
    struct Opt { int maxJoints = 4; bool limitless = true, offsets = true, chain = false, fixedBodies = false, maxima = true, rootStatic = true; };
    RobotSpec simSpec(Src& s, const Opt& o)
    {
        RobotSpec r;
        Node root;
        root.name = "n0";
        root.local = s.chance(0.5) ? M4::Identity() : fl4(pose(s, 200));
        body(s, root, o.rootStatic ? 2 : 1);
        if (!o.rootStatic) root.mass = fl(s.uniform(3, 8));
        r.n.push_back(root);
        int k = 1 + (int)s.draw(o.maxJoints);
        std::vector<int> bodies = {0};
        for (int j = 0; j < k; j++)
        {
            Node x;
            x.name = "n" + std::to_string(r.n.size());
            x.parent = o.chain || s.chance(0.6) ? bodies.back() : bodies[s.draw(bodies.size())];
            x.local = fl4(mk(rot(s), unit(s) * s.uniform(100, 250)));
            x.type = s.chance(0.3) ? PRIS : REV;
            x.axis = s.chance(0.4) ? (V3(V3::Unit((int)s.draw(3)) * (s.chance(0.5) ? 1 : -1))) : unit(s).cast<float>().cast<double>().eval();
            double sc = x.type == REV ? 2.5 : 200;
            x.lo = fl(-s.uniform(0.1, 1) * sc);
            x.hi = fl(s.uniform(0.1, 1) * sc);
            if (s.chance(0.1)) x.lo = 0; else if (s.chance(0.1)) x.hi = 0;
            if (o.offsets && s.chance(0.3)) x.offset = fl(s.uniform(-0.5, 0.5) * sc);
            if (o.limitless && x.type == REV && s.chance(0.2)) { x.limitless = true; x.lo = fl(-M_PI); x.hi = fl(M_PI); }
            if (o.maxima && s.chance(0.4)) { x.maxVel = fl(x.type == REV ? s.uniform(0.3, 3) : s.uniform(0.1, 1)); x.maxAcc = s.chance(0.5) ? fl(s.uniform(1, 20)) : -1; x.maxTor = s.chance(0.3) ? fl(s.uniform(100, 500)) : -1; }
            if (s.chance(0.75)) { body(s, x, s.chance(0.7) ? 1 : 0); r.n.push_back(x); bodies.push_back((int)r.n.size() - 1); }
            else
            {
                // joint without body, its body follows behind fixed nodes
                int at = (int)r.n.size();
                r.n.push_back(x);
                if (s.chance(0.3)) { Node f; f.name = "n" + std::to_string(r.n.size()); f.parent = at; f.local = fl4(pose(s, 60)); at = (int)r.n.size(); r.n.push_back(f); }
                Node b;
                b.name = "n" + std::to_string(r.n.size());
                b.parent = at;
                b.local = fl4(pose(s, 60));
                body(s, b, 1);
                r.n.push_back(b);
                bodies.push_back((int)r.n.size() - 1);
            }
            if (s.chance(0.2)) { Node f; f.name = "n" + std::to_string(r.n.size()); f.parent = (int)r.n.size() - 1; f.local = fl4(pose(s, 100)); r.n.push_back(f); } // frame without body
        }
        r.link();
        return r;
    }
    RobotPtr build(const RobotSpec& r)
    {
        // maxima one by one: -1 stays unset
        RobotSpec q = r;
        for (auto& n : q.n) n.maxVel = n.maxAcc = n.maxTor = -1;
        RobotPtr p = fromXML(q);
        for (auto& n : r.n)
        {
            RobotNodePtr x = p->getRobotNode(n.name);
            if (n.maxVel > 0) x->setMaxVelocity((float)n.maxVel);
            if (n.maxAcc > 0) x->setMaxAcceleration((float)n.maxAcc);
            if (n.maxTor > 0) x->setMaxTorque((float)n.maxTor);
        }
        return p;
    }

    // ------------------------------------------------------------ links
    void links(Src& s, pbt::Ctx& c)
    {
        RobotOpts o;
        o.minNodes = 2; o.maxNodes = 9;
        o.unnormalizedPrismatic = false;
        o.zeroInLimits = true;
        RobotSpec r = robotSpec(s, o);
        double pb = s.pick(std::vector<double>{0.3, 0.6, 0.9});
        for (auto& n : r.n) if (s.chance(pb)) body(s, n, (int)s.draw(4));
        if (r.n[0].type != FIXED && s.chance(0.5)) r.n[0].type = FIXED;
        std::set<std::pair<int, int>> ignored;
        auto norm = [](int a, int b) { return std::make_pair(std::min(a, b), std::max(a, b)); };
        for (size_t i = 0; i < r.n.size(); i++)
            for (size_t j = 0; j < r.n.size(); j++)
                if (i != j && r.n[i].physics && !r.n[j].col.empty() && s.chance(0.1)) { r.n[i].ignoreCol.push_back(r.n[j].name); if (!r.n[i].col.empty()) ignored.insert(norm((int)i, (int)j)); }
        RobotPtr robo = build(r);
        auto e = freshWorld(V3::Zero());
        BulletRobotPtr br = brob(DynamicsWorld::CreateDynamicsRobot(robo));
        c.describe(r.summary());
        // model
        struct L { int a, joint, b; };
        std::vector<L> want;
        std::set<int> dyn;
        for (size_t i = 0; i < r.n.size(); i++)
        {
            if (r.n[i].col.empty()) continue;
            dyn.insert((int)i);
            int joint = r.n[i].type != FIXED ? (int)i : -1, a = r.n[i].parent;
            while (a >= 0 && r.n[a].col.empty()) { if (joint < 0 && r.n[a].type != FIXED) joint = a; a = r.n[a].parent; }
            if (a < 0) a = 0;
            if (joint < 0) joint = (int)i;
            if (a != (int)i) { want.push_back({a, joint, (int)i}); dyn.insert(a); dyn.insert((int)i); }
        }
        c.nontrivial(want.size() >= 2);
        auto ls = br->getLinks();
        ck(c, ls.size() == want.size(), "count", "%zu links, expected %zu", ls.size(), want.size());
        auto node = [&](int i) { return robo->getRobotNode(r.n[i].name); };
        for (size_t i = 0; i < r.n.size(); i++)
        {
            bool d = dyn.count((int)i);
            DynamicsObjectPtr x = br->getDynamicsRobotNode(node((int)i));
            ck(c, br->hasDynamicsRobotNode(node((int)i)) == d && !!x == d && br->getDynamicsRobotNode(r.n[i].name) == x, "nodes", "body of %s: %d, expected %d", r.n[i].name.c_str(), (int)!!x, (int)d);
            if (x) c.check(x->getSceneObject() == node((int)i), "nodes", "the body belongs to another node");
            bool j = false;
            for (auto& w : want) j = j || w.joint == (int)i;
            ck(c, br->hasLink(node((int)i)) == j, "hasLink", "hasLink(%s) = %d", r.n[i].name.c_str(), (int)!j);
            size_t inv = 0;
            for (auto& w : want) inv += w.a == (int)i || w.b == (int)i || w.joint == (int)i;
            ck(c, br->getLinks(node((int)i)).size() == inv, "getLinks", "%zu links with %s, expected %zu", br->getLinks(node((int)i)).size(), r.n[i].name.c_str(), inv);
            if (x)
            {
                size_t invB = 0;
                for (auto& w : want) invB += w.a == (int)i || w.b == (int)i;
                ck(c, br->getLinks(bo(x)).size() == invB, "getLinks", "%zu links with the body of %s, expected %zu", br->getLinks(bo(x)).size(), r.n[i].name.c_str(), invB);
            }
            if (!j) { bool t = false; try { br->getLink(node((int)i)); } catch (VirtualRobotException&) { t = true; } c.check(t, "noLink", "getLink of a node without link"); }
        }
        std::set<std::pair<int, int>> disabled = ignored;
        for (auto& w : want)
        {
            bool found = false;
            for (auto& l : ls)
                if (l.nodeA == node(w.a) && l.nodeB == node(w.b))
                {
                    found = true;
                    c.check(l.nodeJoint == node(w.joint) && l.dynNode1 == br->getDynamicsRobotNode(node(w.a)) && l.dynNode2 == br->getDynamicsRobotNode(node(w.b)) && !!l.joint, "link", "wrong joint or bodies of a link");
                    btTypedConstraintType ty = l.joint->getConstraintType();
                    btTypedConstraintType wt = r.n[w.joint].type == REV ? HINGE_CONSTRAINT_TYPE : r.n[w.joint].type == PRIS ? SLIDER_CONSTRAINT_TYPE : D6_CONSTRAINT_TYPE;
                    c.check(ty == wt, "type", "wrong kind of constraint");
                    c.check(&l.joint->getRigidBodyA() == l.dynNode1->getRigidBody().get() && &l.joint->getRigidBodyB() == l.dynNode2->getRigidBody().get(), "bodies", "the constraint connects other bodies");
                    c.check(br->getLink(l.dynNode1, l.dynNode2).joint == l.joint && br->getLink(l.dynNode2, l.dynNode1).joint == l.joint, "getLink2", "link of two bodies");
                    bool first = true;
                    for (auto& v : want) { if (v.joint == w.joint && v.b == w.b) break; if (v.joint == w.joint) first = false; }
                    if (first) c.check(br->getLink(node(w.joint)).nodeJoint == node(w.joint), "getLink", "link of a joint");
                }
            ck(c, found && br->hasLink(node(w.a), node(w.b)), "link", "no link %s - %s", r.n[w.a].name.c_str(), r.n[w.b].name.c_str());
            disabled.insert(norm(w.a, w.b));
        }
        bool inWorld = s.chance(0.5);
        if (inWorld) { c.check(DynamicsWorld::GetWorld()->addRobot(br), "add", "addRobot"); }
        auto pairs = [&](const std::string& when, const std::set<std::pair<int, int>>& dis)
        {
            for (int a : dyn)
                for (int b : dyn)
                    if (a < b)
                    {
                        bool en = e->checkCollisionEnabled(br->getDynamicsRobotNode(node(a)).get(), br->getDynamicsRobotNode(node(b)).get());
                        ck(c, en == !dis.count(norm(a, b)), "collisions", "collisions of %s and %s are %s %s", r.n[a].name.c_str(), r.n[b].name.c_str(), en ? "enabled" : "disabled", when.c_str());
                    }
        };
        pairs("after construction", disabled);
        br->enableSelfCollisions(false);
        std::set<std::pair<int, int>> all;
        for (int a : dyn) for (int b : dyn) all.insert(norm(a, b));
        pairs("with self collisions off", all);
        br->enableSelfCollisions(true);
        pairs("with self collisions on", {});
        // another robot of the same kind in the same world is independent
        RobotPtr robo2 = build(r);
        BulletRobotPtr br2 = brob(DynamicsWorld::CreateDynamicsRobot(robo2));
        for (int a : dyn)
            for (int b : dyn)
            {
                bool en = e->checkCollisionEnabled(br->getDynamicsRobotNode(node(a)).get(), br2->getDynamicsRobotNode(robo2->getRobotNode(r.n[b].name)).get());
                c.check(en, "foreign", "collisions with another robot are disabled");
            }
        // objects created after a robot is gone collide with each other
        for (int round = 0; round < 2; round++)
        {
            if (inWorld) DynamicsWorld::GetWorld()->removeRobot(br);
            inWorld = false;
            (round ? br : br2).reset();
            ls.clear();
            std::vector<ObstaclePtr> os;
            std::vector<DynamicsObjectPtr> ds;
            for (size_t i = 0; i < dyn.size() + 2; i++)
            {
                os.push_back(Obstacle::createBox(20, 30, 40));
                os.back()->setMass(1);
                ds.push_back(DynamicsWorld::CreateDynamicsObject(os.back()));
            }
            for (auto& a : ds) for (auto& b : ds) if (a != b) c.check(e->checkCollisionEnabled(a.get(), b.get()), "stale", "new objects do not collide after a robot was deleted");
        }
    }

    // ------------------------------------------------------------ controllers
    struct Pid
    {
        double p, i, d, sum = 0, last = 0;
        double update(double e, double dt) { sum += e * dt; double r = p * e + i * sum + d * (e - last) / dt; last = e; return r; }
        void reset() { sum = last = 0; }
    };
    void controllers(Src& s, pbt::Ctx& c)
    {
        auto val = [&](double m) { return s.chance(0.15) ? 0.0 : s.uniform(-m, m); };
        auto near = [&](double got, double want, double mag, const char* what) { ck(c, std::fabs(got - want) <= 1e-9 * (1 + mag), what, "%s: %.12g, expected %.12g", what, got, want); };
        int kind = (int)s.draw(3), n = 2 + (int)s.draw(12);
        std::ostringstream h;
        c.nontrivial(n > 3);
        if (kind == 0)
        {
            Pid m{val(20), val(5), val(2)};
            PIDController x(m.p, m.i, m.d);
            h << "pid";
            for (int k = 0; k < n; k++)
            {
                if (s.chance(0.15))
                {
                    if (s.chance(0.5)) { x.reset(); m.reset(); h << " reset"; }
                    else { m.p = val(20); m.i = val(5); m.d = val(2); m.reset(); x.reset(m.p, m.i, m.d); h << " gains"; }
                }
                double dt = s.uniform(1e-3, 0.1), e = val(3);
                near(x.update(e, dt), m.update(e, dt), 1e4, "pid");
                double p, i, d;
                x.getPID(p, i, d);
                c.check(p == m.p && i == m.i && d == m.d, "gains", "gains of the controller");
            }
        }
        else if (kind == 1)
        {
            Pid a{val(5), val(1), val(1)}, b{val(5), val(1), val(1)}, t{val(5), val(1), val(1)};
            TorqueMotorController x(PIDController(a.p, a.i, a.d), PIDController(b.p, b.i, b.d), PIDController(t.p, t.i, t.d));
            if (s.chance(0.2)) { x = TorqueMotorController(); a = Pid{0.5, 0.05, 0}; b = Pid{1, 0.05, 0}; t = Pid{1, 0.05, 0}; }
            static const int modes[] = {0, 1, 2, 4, 3, 7};
            for (int k = 0; k < n; k++)
            {
                int mo = modes[s.draw(6)];
                ActuationMode am;
                am.modes.position = mo & 1; am.modes.velocity = (mo >> 1) & 1; am.modes.torque = (mo >> 2) & 1;
                double dt = s.uniform(5e-3, 0.1), pe = val(2), ve = val(2), te = val(2), pu = 0, vu = 0, tu = 0;
                if (mo & 1) pu = a.update(pe, dt); else a.reset();
                if (mo & 2) vu = b.update(ve + pu, dt); else b.reset();
                if (mo & 4) tu = t.update(te + vu, dt); else t.reset();
                near(x.update(pe, ve, te, am, dt), mo & 4 ? tu : mo & 2 ? vu : pu, 1e9, "torque");
                h << " " << mo;
            }
        }
        else
        {
            double mv = s.chance(0.7) ? s.uniform(0.1, 5) : -1, ma = s.chance(0.7) ? s.uniform(0.5, 50) : -1, v = 0;
            VelocityMotorController x(mv, ma);
            Pid m{10, 0, 0};
            if (s.chance(0.6)) { m = Pid{val(20), val(5), val(1)}; x.reset(m.p, m.i, m.d); }
            c.check(x.getMaxVelocity() == mv && x.getMaxAcceleration() == ma, "maxima", "maxima of the controller");
            bool clean = true;
            for (int k = 0; k < n; k++)
            {
                switch (s.draw(12))
                {
                    case 0: x.reset(); m.reset(); h << " reset"; break;
                    case 1: v = val(4); x.setCurrentVelocity(v); clean = false; h << " current " << v; break;
                    case 2: mv = s.chance(0.3) ? -1 : s.uniform(0.1, 5); x.setMaxVelocity(mv); c.check(x.getMaxVelocity() == mv, "maxima", "maximal velocity"); clean = false; break;
                    case 3: ma = s.chance(0.3) ? -1 : s.uniform(0.5, 50); x.setMaxAcceleration(ma); c.check(x.getMaxAcceleration() == ma, "maxima", "maximal acceleration"); break;
                    default: break;
                }
                int mo = (int)s.draw(4);
                ActuationMode am;
                am.modes.position = mo & 1; am.modes.velocity = (mo >> 1) & 1;
                double dt = s.uniform(1e-3, 0.1), pe = val(2), tv = val(6), o = 0, before = v;
                if (mo & 1) o += m.update(pe, dt);
                if (mo & 2) o += tv;
                if (mv > 0) o = std::max(-mv, std::min(mv, o));
                if (ma > 0) o = std::max(v - ma * dt, std::min(v + ma * dt, o));
                double got = x.update(pe, tv, am, dt);
                near(got, o, 1e3, "velocity");
                if (clean && mv > 0) ck(c, std::fabs(got) <= mv * (1 + 1e-9), "limitV", "velocity %g, at most %g", got, mv);
                if (ma > 0) ck(c, std::fabs(got - before) <= ma * dt * (1 + 1e-9) + 1e-9, "limitA", "velocity changed by %g, at most %g", got - before, ma * dt);
                v = o;
                double p, i, d;
                x.getPosPID(p, i, d);
                c.check(p == m.p && i == m.i && d == m.d, "gains", "gains of the position controller");
                h << " " << mo;
            }
        }
        c.describe(h.str());
    }

    // ------------------------------------------------------------ actuation states
    void actuation(Src& s, pbt::Ctx& c)
    {
        Opt o; o.maxJoints = 3;
        RobotSpec r = simSpec(s, o);
        size_t bare = 0; // joint without any body, it is not part of the simulation
        if (s.chance(0.5))
        {
            Node x;
            x.name = "bare"; x.parent = (int)s.draw(r.n.size()); x.local = fl4(pose(s, 100)); x.type = s.chance(0.3) ? PRIS : REV; x.axis = V3::UnitZ(); x.lo = -1; x.hi = 1;
            bare = r.n.size();
            r.n.push_back(x);
            r.link();
        }
        RobotPtr robo = build(r);
        auto e = freshWorld(V3::Zero());
        DynamicsRobotPtr dr = DynamicsWorld::CreateDynamicsRobot(robo);
        BulletRobotPtr br = brob(dr);
        br->enableSelfCollisions(false);
        c.check(DynamicsWorld::GetWorld()->addRobot(dr), "add", "addRobot");
        struct T { int mode = 0; double pos = 0, vel = 0, tor = 0; };
        std::map<int, T> t;
        auto node = [&](int i) { return robo->getRobotNode(r.n[i].name); };
        for (size_t i = 0; i < r.n.size(); i++) if (r.n[i].type != FIXED && !(bare && i == bare)) t[(int)i] = T{1, 0, 0, 0}; // all joints are held
        auto js = r.joints();
        std::ostringstream h;
        int n = 3 + (int)s.draw(12);
        c.nontrivial(n > 4);
        for (int k = 0; k < n; k++)
        {
            int j = s.chance(0.9) ? js[s.draw(js.size())] : (int)s.draw(r.n.size());
            bool joint = r.n[j].type != FIXED, lnk = joint && !(bare && j == (int)bare);
            double v = s.uniform(std::max(r.n[j].lo, -1.0), std::min(r.n[j].hi, 1.0)), w = s.chance(0.3) ? 0 : s.uniform(-1, 1);
            bool byName = s.chance(0.4);
            switch (s.draw(8))
            {
                case 0: h << " pos " << j; if (byName) dr->actuateNode(r.n[j].name, v); else dr->actuateNode(node(j), v); if (lnk) t[j] = T{1, v, 0, 0}; break;
                case 1: if (!joint) break; h << " posvel " << j; dr->actuateNode(node(j), v, w); t[j] = T{3, v, w, 0}; break;
                case 2:
                {
                    h << " vel " << j << " " << w;
                    double p = w == 0 && t.count(j) ? t[j].pos : node(j)->getJointValue();
                    if (byName) dr->actuateNodeVel(r.n[j].name, w); else dr->actuateNodeVel(node(j), w);
                    if (lnk) t[j] = T{2, p, w, 0};
                    break;
                }
                case 3: if (!joint) break; h << " torque " << j; if (byName) dr->actuateNodeTorque(r.n[j].name, w); else dr->actuateNodeTorque(node(j), w); t[j] = T{4, 0, 0, w}; break;
                case 4: h << " disable " << j; dr->disableNodeActuation(node(j)); t.erase(j); break;
                case 5: if (!s.chance(0.3)) break; h << " disable all"; dr->disableActuation(); for (auto& x : t) x.second.mode = 0; break;
                case 6:
                {
                    if (!s.chance(0.4)) break;
                    int mo = (int)s.draw(8);
                    h << " mode " << mo;
                    ActuationMode am;
                    am.modes.position = mo & 1; am.modes.velocity = (mo >> 1) & 1; am.modes.torque = (mo >> 2) & 1;
                    dr->enableActuation(am);
                    for (auto& x : t) x.second.mode = mo;
                    break;
                }
                default:
                {
                    double dt = s.uniform(0.005, 0.02);
                    h << " step";
                    e->stepSimulation(dt, 1, dt);
                    for (auto& x : t) if (x.second.mode == 2 && !(bare && x.first == (int)bare)) x.second.pos += x.second.vel * dt;
                }
            }
            for (size_t i = 0; i < r.n.size(); i++)
            {
                auto it = t.find((int)i);
                bool act = it != t.end() && it->second.mode != 0;
                ck(c, dr->isNodeActuated(node((int)i)) == act, "actuated", "%s is %sactuated after%s", r.n[i].name.c_str(), act ? "not " : "", h.str().c_str());
                double want = it == t.end() ? 0 : it->second.pos;
                ck(c, std::fabs(dr->getNodeTarget(node((int)i)) - want) < 1e-6, "target", "target of %s is %g, expected %g after%s", r.n[i].name.c_str(), dr->getNodeTarget(node((int)i)), want, h.str().c_str());
                // the motor of the constraint
                if (h.str().size() > 5 && h.str().substr(h.str().size() - 5) == " step" && br->hasLink(node((int)i)) && it != t.end() && r.n[i].type == REV)
                {
                    auto hinge = boost::dynamic_pointer_cast<btHingeConstraint>(br->getLink(node((int)i)).joint);
                    bool motor = act && !(it->second.mode & 4);
                    ck(c, hinge->getEnableAngularMotor() == motor, "motor", "motor of %s is %s after%s", r.n[i].name.c_str(), motor ? "off" : "on", h.str().c_str());
                }
            }
        }
        c.describe(h.str());
    }

    // ------------------------------------------------------------ simulation
    struct World
    {
        RobotSpec r;
        RobotPtr robo;
        BulletRobotPtr br;
        BulletEnginePtr e;
        M4 base = M4::Identity();
        RobotNodePtr node(int i) const { return robo->getRobotNode(r.n[i].name); }
        BulletObjectPtr bodyOf(int i) const { return bo(br->getDynamicsRobotNode(node(i))); }
    };
    World world(Src& s, pbt::Ctx& c, const Opt& o, const V3& g)
    {
        World w;
        w.r = simSpec(s, o);
        w.robo = build(w.r);
        if (s.chance(0.5)) { w.base = fl4(pose(s, 500)); w.robo->setGlobalPose(f4(w.base)); }
        w.e = freshWorld(g);
        w.br = brob(DynamicsWorld::CreateDynamicsRobot(w.robo));
        w.br->enableSelfCollisions(false);
        c.check(DynamicsWorld::GetWorld()->addRobot(w.br), "add", "addRobot");
        c.describe(w.r.summary());
        return w;
    }
    // bodies, nodes and joint values agree
    void consistent(pbt::Ctx& c, const World& w, double tp, double tr, const std::string& when, bool frames = false)
    {
        std::vector<double> q(w.r.n.size(), 0);
        M4 b0 = dm(w.robo->getRobotNode("n0")->getGlobalPose()) * w.r.n[0].local.inverse();
        for (size_t i = 0; i < w.r.n.size(); i++)
            if (w.r.n[i].type != FIXED)
            {
                auto& n = w.r.n[i];
                q[i] = w.br->getJointAngle(w.node((int)i));
                // joint values of the model are clamped to the limits
                double m = w.node((int)i)->getJointValue(), want = n.limitless ? q[i] : std::max(n.lo, std::min(n.hi, q[i]));
                ck(c, std::fabs(want - m) < 1e-4 * (1 + std::fabs(want)) + (n.type == PRIS ? 2e-3 : 0) || (n.limitless && std::fabs(std::remainder(want - m, 2 * M_PI)) < 1e-4), "jointValue", "joint %s is at %g in the simulation, at %g in the model %s", n.name.c_str(), q[i], m, when.c_str());
            }
        auto f = w.r.fk(b0, q);
        for (size_t i = 0; i < w.r.n.size(); i++)
        {
            M4 p = dm(w.node((int)i)->getGlobalPose());
            if (!w.r.n[i].col.empty())
            {
                M4 want = bodyPose(w.bodyOf((int)i)) * mk(M3::Identity(), -w.r.n[i].com);
                ck(c, (trans(p) - trans(want)).norm() < 0.02 && rdist(rotOf(p), rotOf(want)) < 2e-3, "bodyPose", "node %s is %g mm and %g rad from its body %s", w.r.n[i].name.c_str(), (trans(p) - trans(want)).norm(), rdist(rotOf(p), rotOf(want)), when.c_str());
            }
            else if (!frames) continue;
            double dp = (trans(p) - trans(f[i])).norm(), dr = rdist(rotOf(p), rotOf(f[i]));
            ck(c, dp < tp && dr < tr, "fk", "node %s is %.3g mm and %.3g rad from where its joint values put it %s", w.r.n[i].name.c_str(), dp, dr, when.c_str());
        }
    }
    void motion(Src& s, pbt::Ctx& c)
    {
        Opt o;
        V3 g = s.chance(0.5) ? V3(0, 0, -9.81) : V3::Zero();
        World w = world(s, c, o, g);
        auto js = w.r.joints();
        double dt = 0.01;
        consistent(c, w, 0.5, 2e-3, "at the start", true);
        M4 r0 = dm(w.node(0)->getGlobalPose());
        int phases = 1 + (int)s.draw(2);
        bool moved = false;
        for (int ph = 0; ph < phases; ph++)
        {
            std::map<int, std::pair<int, double>> cmd; // 1 position 2 velocity 0 free
            double T = 1.0;
            for (int j : js)
            {
                auto& n = w.r.n[j];
                double m = n.hi - n.lo, q = w.node(j)->getJointValue();
                int what = s.weighted({5, 2, 1, 1});
                if (what == 0 || what == 3)
                {
                    double t = fl(s.uniform(n.lo + 0.02 * m, n.hi - 0.02 * m));
                    if (what == 0) w.br->actuateNode(w.node(j), t); else static_cast<DynamicsRobot&>(*w.br).actuateNode(w.node(j), t, 0);
                    cmd[j] = {1, t};
                    double d = std::fabs(t - q) * (n.type == PRIS ? 0.001 * SF : 1);
                    T = std::max(T, 2.0 + (n.maxVel > 0 ? d / n.maxVel : 0) + (n.maxAcc > 0 ? 2 : 0));
                    moved = moved || std::fabs(t - q) > 0.05 * m;
                }
                else if (what == 1)
                {
                    double t = (n.type == PRIS ? 100 : 0.8) * (s.chance(0.5) ? 1 : -1) * s.uniform(0.3, 1);
                    w.br->actuateNodeVel(w.node(j), t);
                    cmd[j] = {2, t};
                }
                else { w.br->disableNodeActuation(w.node(j)); w.br->actuateNode(w.node(j), 0); w.br->disableActuation(); cmd.clear(); for (int k : js) cmd[k] = {0, 0}; T = 0.5; break; }
            }
            bool free = false;
            for (auto& x : cmd) free = free || x.second.first == 0;
            std::map<int, double> lastV, q0, qp;
            for (int j : js) qp[j] = q0[j] = w.node(j)->getJointValue();
            int steps = std::min(400, (int)(T / dt));
            double recent = 0; // Bullet corrects errors of fast movements within some steps
            for (int k = 0; k < steps; k++)
            {
                w.e->stepSimulation(dt, 1, dt);
                double turn = 0; // movement in this step
                for (int j : js)
                {
                    auto& n = w.r.n[j];
                    double q = w.node(j)->getJointValue();
                    double mv = q - qp[j];
                    if (n.limitless) mv = std::remainder(mv, 2 * M_PI);
                    turn += std::fabs(mv) / (n.type == PRIS ? 250 : 1);
                    qp[j] = q;
                    double sc = n.type == PRIS ? 1 : 0.02;
                    if (!n.limitless) ck(c, q > n.lo - (free ? 5 : 2) * sc && q < n.hi + (free ? 5 : 2) * sc, "limits", "joint %s is at %g, limits %g..%g", n.name.c_str(), q, n.lo, n.hi);
                    if (cmd[j].first && w.br->isNodeActuated(w.node(j)))
                    {
                        double v = w.br->getJointTargetSpeed(w.node(j)) / (n.type == PRIS ? 1000 : 1);
                        if (n.maxVel > 0) ck(c, std::fabs(v) <= n.maxVel * (1 + 1e-5), "maxVelocity", "target speed %g of %s, at most %g", v, n.name.c_str(), n.maxVel);
                        if (n.maxAcc > 0 && lastV.count(j)) ck(c, std::fabs(v - lastV[j]) <= n.maxAcc * dt * (1 + 1e-4) + 1e-5, "maxAcceleration", "target speed %g of %s after %g", v, n.name.c_str(), lastV[j]);
                        lastV[j] = v;
                    }
                }
                recent = std::max(turn, 0.85 * recent);
                consistent(c, w, (free ? 20 : 5) + 400 * recent, (free ? 0.15 : 0.03) + 2 * recent, "in step " + std::to_string(k));
                M4 r1 = dm(w.node(0)->getGlobalPose());
                c.check((r1 - r0).norm() < 1e-3, "root", "the static root moves");
            }
            for (int j : js)
            {
                auto& n = w.r.n[j];
                double q = w.node(j)->getJointValue(), sc = (n.type == PRIS ? 1 : 0.01) * (1 + 2 * (js.size() - 1)); // Bullet gets stiff for several joints
                // opposite to the target of a limitless joint both directions are the shortest one
                bool opposite = n.limitless && std::fabs(std::remainder(q0[j] - cmd[j].second, 2 * M_PI)) > 2.5;
                if (cmd[j].first == 1 && n.maxAcc <= 0 && steps < 400 && !opposite)
                {
                    double d = q - cmd[j].second;
                    if (n.limitless) d = std::remainder(d, 2 * M_PI);
                    ck(c, std::fabs(d) < sc, "reached", "joint %s is at %g, its target is %g", n.name.c_str(), q, cmd[j].second);
                }
                if (cmd[j].first == 2 && n.maxVel <= 0 && n.maxAcc <= 0)
                {
                    // the velocity target leads to the same way, until the joint comes to its limit
                    double want = q0[j] + cmd[j].second * steps * dt, tol = std::fabs(cmd[j].second) * 0.25 + 2 * sc;
                    if (n.limitless) ck(c, std::fabs(std::remainder(q - want, 2 * M_PI)) < tol, "velocity", "joint %s moved from %g to %g in %g s at %g/s", n.name.c_str(), q0[j], q, steps * dt, cmd[j].second);
                    else if (want > n.lo + tol && want < n.hi - tol) ck(c, std::fabs(q - want) < tol, "velocity", "joint %s moved from %g to %g in %g s at %g/s", n.name.c_str(), q0[j], q, steps * dt, cmd[j].second);
                }
            }
        }
        c.nontrivial(moved);
    }

    // ------------------------------------------------------------ torque
    // speed and value of the joint after torques
    std::pair<double, double> torqueRun(const RobotSpec& r, int j, const std::vector<double>& tau, double maxTorque, int perStep, double dt, bool byName, double before)
    {
        RobotPtr robo = build(r);
        auto e = freshWorld(V3::Zero(), 0, 0, true);
        BulletRobotPtr br = brob(DynamicsWorld::CreateDynamicsRobot(robo));
        br->enableSelfCollisions(false);
        DynamicsWorld::GetWorld()->addRobot(br);
        RobotNodePtr n = robo->getRobotNode(r.n[j].name);
        if (maxTorque > 0) n->setMaxTorque((float)maxTorque);
        for (int k = 0; k < (int)(before / 0.02); k++) e->stepSimulation(0.02, 1, 0.02);
        for (double x : tau)
        {
            if (byName) br->DynamicsRobot::actuateNodeTorque(n->getName(), x); else br->DynamicsRobot::actuateNodeTorque(n, x);
            for (int k = 0; k < 12 / perStep; k++) e->stepSimulation(dt * perStep, perStep, dt);
        }
        return {br->getJointSpeed(n), br->getJointAngle(n)};
    }
    void torque(Src& s, pbt::Ctx& c)
    {
        Opt o; o.maxJoints = 1; o.maxima = false;
        RobotSpec r = simSpec(s, o);
        int j = r.joints()[0];
        bool pris = r.n[j].type == PRIS;
        if (!r.n[j].limitless) { r.n[j].lo = pris ? -5000 : -3; r.n[j].hi = -r.n[j].lo; }
        double dt = 0.004, sc = s.uniform(0.1, 0.5), rest = s.chance(0.2) ? 4 : 0;
        std::vector<double> tau = {sc * (s.chance(0.5) ? 1 : -1)};
        if (s.chance(0.4)) tau.push_back(s.uniform(-1, 1) * sc);
        double sum = 0;
        for (double x : tau) sum += x;
        c.describe(r.summary() + " torque " + num(tau[0]) + (tau.size() > 1 ? " " + num(tau[1]) : "") + (rest > 0 ? " after rest" : ""));
        c.nontrivial();
        auto one = torqueRun(r, j, tau, -1, 1, dt, s.chance(0.5), rest);
        if (std::fabs(sum) > 0.3 * sc) ck(c, one.first * sum > 0, "direction", "torque %g leads to speed %g", sum, one.first);
        if (tau.size() == 1) ck(c, one.second * sum > 0, "direction", "torque %g leads to joint value %g", sum, one.second);
        auto close = [&](double a, double b) { return std::fabs(a - b) <= 0.08 * std::max(std::fabs(one.first) + std::fabs(b), 1e-3); };
        auto two = torqueRun(r, j, tau, -1, 1 + (int)s.draw(4) , dt, false, rest);
        ck(c, close(two.first, one.first), "substeps", "speed %g with substeps, %g without", two.first, one.first);
        std::vector<double> t2 = tau;
        for (auto& x : t2) x *= 0.5;
        auto half = torqueRun(r, j, t2, -1, 1, dt, false, rest);
        ck(c, close(2 * half.first, one.first), "linear", "speed %g with half of the torque, %g", half.first, one.first);
        double mt = sc * s.uniform(0.1, 1.5);
        std::vector<double> t3 = tau;
        for (auto& x : t3) x = std::max(-mt, std::min(mt, x));
        auto lim = torqueRun(r, j, tau, mt, 1, dt, false, rest), same = torqueRun(r, j, t3, -1, 1, dt, false, rest);
        ck(c, close(lim.first, same.first), "maxTorque", "speed %g with maximal torque %g, %g with this torque", lim.first, mt, same.first);
    }

    // ------------------------------------------------------------ centre of mass, velocities, momentum
    void quantities(Src& s, pbt::Ctx& c)
    {
        Opt o;
        o.rootStatic = s.chance(0.5);
        V3 g = s.chance(0.5) ? V3(0, 0, -9.81) : V3::Zero();
        World w = world(s, c, o, g);
        auto js = w.r.joints();
        double dt = 0.005;
        std::vector<RobotNodePtr> ns;
        std::vector<int> bodies;
        for (size_t i = 0; i < w.r.n.size(); i++)
            if (s.chance(0.8)) { ns.push_back(w.node((int)i)); if (!w.r.n[i].col.empty() && (w.r.n[i].simType != 2)) bodies.push_back((int)i); }
        for (size_t i = 0; i < w.r.n.size(); i++) // static bodies take part in the centre of mass
            if (!w.r.n[i].col.empty() && w.r.n[i].simType == 2 && std::count(ns.begin(), ns.end(), w.node((int)i))) bodies.push_back((int)i);
        if (bodies.empty()) { c.discard(); return; }
        RobotNodeSetPtr set = RobotNodeSet::createRobotNodeSet(w.robo, "set", ns);
        for (int j : js)
        {
            auto& n = w.r.n[j];
            int what = (int)s.draw(3);
            if (what == 0) w.br->actuateNode(w.node(j), s.uniform(n.lo, n.hi));
            else if (what == 1) w.br->actuateNodeVel(w.node(j), (n.type == PRIS ? 150 : 1.5) * s.uniform(-1, 1));
        }
        V3 last;
        std::map<int, double> ql;
        int steps = 5 + (int)s.draw(25);
        bool moving = false;
        double mass = 0;
        for (int i : bodies) mass += w.r.n[i].mass;
        for (int k = 0; k < steps; k++)
        {
            w.e->stepSimulation(dt, 1, dt);
            V3 com = V3::Zero(), P = V3::Zero(), L = V3::Zero(), Ll = V3::Zero(), vel = V3::Zero();
            double mag = 1;
            for (int pass = 0; pass < 2; pass++)
                for (int i : bodies)
                {
                    BulletObjectPtr b = w.bodyOf(i);
                    M4 bp = bodyPose(b);
                    double m = w.r.n[i].mass;
                    auto lv = b->getRigidBody()->getLinearVelocity();
                    auto av = b->getRigidBody()->getAngularVelocity();
                    V3 v(lv.x() / SF, lv.y() / SF, lv.z() / SF), om(av.x(), av.y(), av.z()), x = trans(bp) / 1000;
                    auto iv = b->getRigidBody()->getInvInertiaDiagLocal();
                    V3 I = V3::Zero();
                    if (iv.x() > 0) I = V3(1 / iv.x(), 1 / iv.y(), 1 / iv.z()) / (SF * SF);
                    V3 spin = rotOf(bp) * I.asDiagonal() * rotOf(bp).transpose() * om;
                    if (!pass)
                    {
                        com += m * x / mass; vel += m * v / mass; P += m * v; L += x.cross(m * v) + spin;
                        mag += m * (v.norm() * (1 + x.norm())) + spin.norm();
                        M4 cg = dm(w.br->getComGlobal(w.node(i)));
                        ck(c, (cg - bp).norm() < 0.01, "comNode", "centre of mass of %s is %g off", w.r.n[i].name.c_str(), (cg - bp).norm());
                        V3 cn = w.node(i)->getCoMGlobal().cast<double>();
                        ck(c, (cn - trans(bp)).norm() < 0.05, "comNode", "centre of mass of node %s is %g off the body", w.r.n[i].name.c_str(), (cn - trans(bp)).norm());
                    }
                    else Ll += m * (x - com).cross(v - vel) + spin;
                }
            V3 gc = w.br->getComGlobal(set).cast<double>(), gv = w.br->getComVelocityGlobal(set).cast<double>(), gp = w.br->getLinearMomentumGlobal(set).cast<double>(), gl = w.br->getAngularMomentumGlobal(set).cast<double>(), gll = w.br->getAngularMomentumLocal(set).cast<double>();
            ck(c, (gc - com * 1000).norm() < 0.02, "com", "centre of mass is %g mm off", (gc - com * 1000).norm());
            ck(c, (gv - vel * 1000).norm() < 1e-3 * (1 + gv.norm()), "comVel", "velocity of the centre of mass (%g %g %g), expected (%g %g %g)", gv(0), gv(1), gv(2), vel(0) * 1000, vel(1) * 1000, vel(2) * 1000);
            ck(c, (gp - P).norm() < 1e-3 * mag, "momentum", "linear momentum (%g %g %g) Ns, expected (%g %g %g)", gp(0), gp(1), gp(2), P(0), P(1), P(2));
            ck(c, (gl - L).norm() < 2e-3 * mag, "angular", "angular momentum (%g %g %g) Nms, expected (%g %g %g)", gl(0), gl(1), gl(2), L(0), L(1), L(2));
            ck(c, (gll - Ll).norm() < 2e-3 * mag, "angularLocal", "angular momentum around the centre of mass (%g %g %g) Nms, expected (%g %g %g)", gll(0), gll(1), gll(2), Ll(0), Ll(1), Ll(2));
            if (k) ck(c, (gv - (gc - last) / dt).norm() < 0.02 * gv.norm() + 12, "comDiff", "velocity of the centre of mass %g mm/s, moved with %g mm/s", gv.norm(), ((gc - last) / dt).norm());
            last = gc;
            moving = moving || gv.norm() > 5;
            for (int j : js)
            {
                double q = w.br->getJointAngle(w.node(j)), sp = w.br->getJointSpeed(w.node(j));
                bool pr = w.r.n[j].type == PRIS;
                if (k)
                {
                    double d = q - ql[j];
                    if (!pr) d = std::remainder(d, 2 * M_PI);
                    d /= dt;
                    auto l = w.br->getLink(w.node(j));
                    double turn = pr ? l.dynNode1->getAngularVelocity().squaredNorm() * dt * (l.dynNode1->getComGlobal() - l.dynNode2->getComGlobal()).norm() : 0; // velocities belong to the axis before the step
                    ck(c, std::fabs(d - sp) < (pr ? 0.1 : 0.06) * std::fabs(d) + (pr ? 30 + turn : 0.12), pr ? "speedPris" : "speedRev", "joint %s moves with %g, reported %g", w.r.n[j].name.c_str(), d, sp);
                }
                ql[j] = q;
            }
        }
        c.nontrivial(moving);
    }

    // ------------------------------------------------------------ placing robots
    void placing(Src& s, pbt::Ctx& c)
    {
        Opt o;
        World w = world(s, c, o, V3::Zero());
        auto js = w.r.joints();
        int n = 1 + (int)s.draw(3);
        c.nontrivial();
        for (int k = 0; k < n; k++)
        {
            if (s.chance(0.5))
            {
                int j = js[s.draw(js.size())];
                w.br->actuateNode(w.node(j), s.uniform(w.r.n[j].lo, w.r.n[j].hi));
                for (int i = 0; i < 30; i++) w.e->stepSimulation(0.01, 1, 0.01);
            }
            M4 p = fl4(pose(s, 800));
            std::map<int, double> q;
            for (int j : js) q[j] = w.node(j)->getJointValue();
            w.br->setGlobalPose(f4(p));
            ck(c, (dm(w.robo->getGlobalPose()) - p).norm() < 0.01, "robotPose", "pose of the robot");
            std::vector<double> qs(w.r.n.size(), 0);
            for (auto& x : q) qs[x.first] = x.second;
            auto f = w.r.fk(p, qs);
            for (size_t i = 0; i < w.r.n.size(); i++)
            {
                if (w.r.n[i].col.empty()) continue;
                M4 b = bodyPose(w.bodyOf((int)i)), want = f[i] * mk(M3::Identity(), w.r.n[i].com);
                ck(c, (trans(b) - trans(want)).norm() < 0.1 && rdist(rotOf(b), rotOf(want)) < 3e-3, "bodies", "body of %s is %g mm and %g rad from its place", w.r.n[i].name.c_str(), (trans(b) - trans(want)).norm(), rdist(rotOf(b), rotOf(want)));
            }
            for (int j : js) ck(c, std::fabs(w.node(j)->getJointValue() - q[j]) < 1e-3 * (1 + std::fabs(q[j])), "values", "joint %s is at %g after placing the robot, was at %g", w.r.n[j].name.c_str(), w.node(j)->getJointValue(), q[j]);
            for (int i = 0; i < 5; i++) w.e->stepSimulation(0.01, 1, 0.01);
            M4 r1 = dm(w.node(0)->getGlobalPose());
            ck(c, (r1 - p * w.r.n[0].local).norm() < 0.1, "root", "the root is not where the robot was placed, but %g off", (r1 - p * w.r.n[0].local).norm());
            consistent(c, w, 10, 0.05, "after placing the robot", false);
        }
    }

    // ------------------------------------------------------------ attached objects
    void attached(Src& s, pbt::Ctx& c)
    {
        Opt o; o.maxJoints = 3; o.limitless = false;
        V3 g = s.chance(0.5) ? V3(0, 0, -9.81) : V3::Zero();
        World w = world(s, c, o, g);
        auto js = w.r.joints();
        struct O { ObstaclePtr o; BulletObjectPtr b; int at = -1; M4 rel; };
        std::vector<O> os(1 + s.draw(2));
        auto world_ = DynamicsWorld::GetWorld();
        for (size_t i = 0; i < os.size(); i++)
        {
            float a = (float)s.uniform(20, 60), b = (float)s.uniform(20, 60), d = (float)s.uniform(20, 60);
            std::vector<Primitive::PrimitivePtr> ps = {Primitive::PrimitivePtr(new Primitive::Box(a, b, d))};
            VisualizationNodePtr v = VisualizationFactory::first(nullptr)->getVisualizationFromPrimitives(ps);
            CollisionModelPtr cm(new CollisionModel(v->clone(true), "o", CollisionCheckerPtr()));
            SceneObject::Physics ph;
            ph.massKg = (float)s.uniform(0.1, 0.5);
            ph.simType = SceneObject::Physics::eDynamic;
            ph.comLocation = SceneObject::Physics::eCustom;
            if (s.chance(0.5)) ph.localCoM = f3(vec(s, 20));
            os[i].o.reset(new Obstacle("object" + std::to_string(i), v, cm, ph));
            os[i].o->initialize();
            os[i].o->setGlobalPose(f4(fl4(pose(s, 300)) ));
            os[i].b = bo(DynamicsWorld::CreateDynamicsObject(os[i].o));
            world_->addObject(os[i].b);
        }
        size_t l0 = w.br->getLinks().size();
        int nc0 = w.e->getBulletWorld()->getNumConstraints();
        std::ostringstream h;
        auto bodyIndex = [&](int i) { while (i >= 0 && w.r.n[i].col.empty()) i = w.r.n[i].parent; return i; };
        int n = 3 + (int)s.draw(6), moves = 0;
        for (int k = 0; k < n; k++)
        {
            O& x = os[s.draw(os.size())];
            switch (s.draw(4))
            {
                case 0: case 1:
                {
                    if (x.at >= 0) break;
                    int i = (int)s.draw(w.r.n.size()), b = bodyIndex(i);
                    h << " attach to " << i;
                    // the object is where the body is, or near
                    M4 rel = fl4(pose(s, 150));
                    x.b->setPose(f4(dm(w.node(b)->getGlobalPose()) * rel));
                    x.b->getRigidBody()->setLinearVelocity(btVector3(0, 0, 0));
                    x.b->getRigidBody()->setAngularVelocity(btVector3(0, 0, 0));
                    bool byName = s.chance(0.5);
                    bool ok = byName ? w.e->DynamicsEngine::attachObjectToRobot(w.robo->getName(), w.r.n[i].name, x.b) : w.e->attachObjectToRobot(w.br, w.r.n[i].name, x.b);
                    c.check(ok, "attach", "attachObjectToRobot fails");
                    x.at = b;
                    x.rel = dm(w.node(b)->getGlobalPose()).inverse() * dm(x.o->getGlobalPose());
                    ck(c, (trans(x.rel) - trans(rel)).norm() < 0.1, "attachMoves", "attaching moves the object by %g mm", (trans(x.rel) - trans(rel)).norm());
                    // objects are not pushed around by other parts
                    for (size_t q = 0; q < w.r.n.size(); q++) if (!w.r.n[q].col.empty() && (int)q != b) w.e->disableCollision(w.bodyOf((int)q).get(), x.b.get());
                    for (auto& y : os) if (y.b != x.b) w.e->disableCollision(x.b.get(), y.b.get());
                    break;
                }
                case 2:
                {
                    h << (x.at >= 0 ? " detach" : " detach none");
                    bool byName = s.chance(0.5);
                    bool ok = byName ? w.e->DynamicsEngine::detachObjectFromRobot(w.robo->getName(), x.b) : w.e->detachObjectFromRobot(w.br, x.b);
                    c.check(ok, "detach", "detachObjectFromRobot fails");
                    if (x.at >= 0) ck(c, w.e->checkCollisionEnabled(w.bodyOf(x.at).get(), x.b.get()), "collisionBack", "no collisions after detaching");
                    x.at = -1;
                    break;
                }
                default:
                {
                    h << " move";
                    moves++;
                    std::map<int, double> t;
                    for (int j : js) { t[j] = s.uniform(0.8 * w.r.n[j].lo, 0.8 * w.r.n[j].hi) * 0.5; w.br->actuateNode(w.node(j), t[j]); }
                    for (int i = 0; i < 60; i++) w.e->stepSimulation(0.01, 1, 0.01);
                    for (auto& y : os)
                        if (y.at >= 0)
                        {
                            M4 rel = dm(w.node(y.at)->getGlobalPose()).inverse() * dm(y.o->getGlobalPose());
                            double dp = (trans(rel) - trans(y.rel)).norm(), dr = rdist(rotOf(rel), rotOf(y.rel));
                            ck(c, dp < 8 && dr < 0.06, "rigid", "attached object moved %g mm and %g rad relative to its node;%s", dp, dr, h.str().c_str());
                        }
                }
            }
            size_t na = 0;
            for (auto& y : os)
            {
                na += y.at >= 0;
                if (y.at >= 0) ck(c, !w.e->checkCollisionEnabled(w.bodyOf(y.at).get(), y.b.get()), "collisionOff", "the object collides with the node that holds it;%s", h.str().c_str());
                ck(c, w.br->getLinks(y.b).size() == (y.at >= 0 ? 1u : 0u), "links", "%zu links of the object;%s", w.br->getLinks(y.b).size(), h.str().c_str());
            }
            ck(c, w.br->getLinks().size() == l0 + na && w.e->getBulletWorld()->getNumConstraints() == nc0 + (int)na, "count", "%zu links and %d constraints, expected %zu and %d;%s", w.br->getLinks().size(), w.e->getBulletWorld()->getNumConstraints(), l0 + na, nc0 + (int)na, h.str().c_str());
        }
        c.check(!w.e->attachObjectToRobot(w.br, "nothing", os[0].b), "unknown", "attached to an unknown node");
        c.check(!w.e->DynamicsEngine::attachObjectToRobot("nobody", "n0", os[0].b) && !w.e->DynamicsEngine::detachObjectFromRobot("nobody", os[0].b), "unknown", "attached to an unknown robot");
        c.describe(w.r.summary() + ";" + h.str());
        c.nontrivial(moves > 0);
    }

    // ------------------------------------------------------------ robots of the world
    void registry(Src& s, pbt::Ctx& c)
    {
        Opt o; o.maxJoints = 2;
        auto e = freshWorld(V3::Zero());
        auto world_ = DynamicsWorld::GetWorld();
        struct R { RobotSpec r; RobotPtr robo; std::vector<BulletRobotPtr> wr; };
        std::vector<R> rs(2);
        for (size_t i = 0; i < 2; i++)
        {
            rs[i].r = simSpec(s, o);
            rs[i].r.type = "robo" + std::to_string(i);
            rs[i].robo = build(rs[i].r);
            for (int k = 0; k < 2; k++) rs[i].wr.push_back(brob(DynamicsWorld::CreateDynamicsRobot(rs[i].robo)));
        }
        std::vector<std::pair<int, int>> in;
        std::ostringstream h;
        int n = 3 + (int)s.draw(8);
        bool odd = false;
        for (int k = 0; k < n; k++)
        {
            int i = (int)s.draw(2), j = (int)s.draw(2);
            auto it = std::find(in.begin(), in.end(), std::make_pair(i, j));
            if (s.chance(0.6))
            {
                h << " add " << i << "." << j;
                bool other = std::count(in.begin(), in.end(), std::make_pair(i, 1 - j)) > 0;
                bool ok = world_->addRobot(rs[i].wr[j]);
                ck(c, ok == !other, "addRet", "addRobot returns %d after%s", (int)ok, h.str().c_str());
                if (!other && it == in.end()) in.push_back({i, j}); else odd = true;
            }
            else
            {
                h << " remove " << i << "." << j;
                bool ok = world_->removeRobot(rs[i].wr[j]);
                ck(c, ok == (it != in.end()), "removeRet", "removeRobot returns %d after%s", (int)ok, h.str().c_str());
                if (it != in.end()) in.erase(it); else odd = true;
            }
            auto all = world_->getRobots();
            c.check(all.size() == in.size(), "robots", "number of robots after" + h.str());
            size_t bodies = 0, cons = 0;
            for (size_t q = 0; q < in.size(); q++)
            {
                auto& x = rs[in[q].first].wr[in[q].second];
                c.check(all[q] == x, "robots", "robots after" + h.str());
                bodies += x->getDynamicsRobotNodes().size();
                cons += x->getLinks().size();
                for (auto& l : x->getLinks()) c.check(!e->checkCollisionEnabled(l.dynNode1.get(), l.dynNode2.get()), "linked", "linked bodies collide after" + h.str());
            }
            ck(c, e->getObjects().size() == bodies && e->getBulletWorld()->getNumCollisionObjects() == (int)bodies, "bodies", "%zu objects and %d bodies in the world, expected %zu, after%s", e->getObjects().size(), e->getBulletWorld()->getNumCollisionObjects(), bodies, h.str().c_str());
            ck(c, e->getBulletWorld()->getNumConstraints() == (int)cons, "constraints", "%d constraints in the world, expected %zu, after%s", e->getBulletWorld()->getNumConstraints(), cons, h.str().c_str());
            for (int q = 0; q < 2; q++)
            {
                DynamicsRobotPtr want;
                for (auto& x : in) if (x.first == q) want = rs[q].wr[x.second];
                c.check(e->getRobot(rs[q].robo) == want, "byRobot", "wrapper of a robot after" + h.str());
            }
            if (s.chance(0.3)) e->stepSimulation(0.01, 1, 0.01);
        }
        c.describe(h.str());
        c.nontrivial(odd);
    }
}

int main(int argc, char** argv)
{
    pbt::Suite u;
    u.property = "P30";
    u.rule = "robots with several links; sequences of commands; joints that move";
    u.init = [] { initVR("P30"); };
    u.add("controllers", 20000, 500000, controllers);
    u.add("links", 3000, 60000, links);
    u.add("actuation", 1500, 30000, actuation);
    u.add("motion", 600, 15000, motion);
    u.add("torque", 400, 10000, torque);
    u.add("quantities", 800, 20000, quantities);
    u.add("placing", 800, 20000, placing);
    u.add("attached", 600, 16000, attached);
    u.add("registry", 1000, 20000, registry);
    return pbt::run(argc, argv, u);
}
