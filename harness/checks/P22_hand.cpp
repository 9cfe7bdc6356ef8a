// libs: VirtualRobot
// P22: end effectors: closing and opening stops exactly at limits and collisions, contacts, preshapes, extraction
#include "common/handgen.h"
using namespace VirtualRobot;
using namespace gen;

namespace
{
    struct World
    {
        Hand h;
        RobotPtr r;
        EndEffectorPtr e;
        std::vector<EndEffectorActorPtr> act;
        std::vector<ObstaclePtr> obs;
        SceneObjectSetPtr set;
        RobotNodePtr node(int i) const { return r->getRobotNode(h.sp.n[i].name); }
        std::map<std::string, float> values() const { std::map<std::string, float> m; for (auto& n : r->getRobotNodes()) m[n->getName()] = n->getJointValue(); return m; }
    };
    World world(Src& s, pbt::Ctx& c, bool zeroSpeed, bool modes)
    {
        World w;
        w.h = hand(s, zeroSpeed, modes);
        w.r = RobotIO::createRobotFromString(w.h.xml, "");
        w.r->setGlobalPose(f4(fl4(pose(s, 800))));
        std::map<std::string, float> q;
        bool opened = s.chance(0.7);
        for (size_t i = 0; i < w.h.sp.n.size(); i++) if (w.h.sp.n[i].type != FIXED) q[w.h.sp.n[i].name] = (float)randomQ(s, w.h.sp.n[i]);
        if (opened) for (auto& f : w.h.f) for (size_t j = 0; j < f.nodes.size(); j++) { auto& n = w.h.sp.n[f.nodes[j]]; q[n.name] = (float)(f.speed[j] > 0 ? n.lo : n.hi); }
        w.r->setJointValues(q);
        w.e = w.r->getEndEffector("hand");
        c.require(!!w.e);
        w.e->getActors(w.act);
        int k = s.chance(0.85) ? 1 + (int)s.draw(2) : 0;
        for (int i = 0; i < k; i++) w.obs.push_back(objectFor(s, w.h, d4(w.node(w.h.palm)->getGlobalPose())));
        if (k)
        {
            w.set.reset(new SceneObjectSet("objects"));
            for (auto& o : w.obs) w.set->addSceneObject(o);
        }
        c.describe(w.h.xml);
        return w;
    }
    bool hit(const SceneObjectPtr& a, const SceneObjectPtr& b)
    {
        return a->getCollisionModel() && b->getCollisionModel() && CollisionChecker::getGlobalCollisionChecker()->checkCollision(a->getCollisionModel(), b->getCollisionModel());
    }
    // what stops finger a: contacts with objects, with other fingers, with the static parts
    bool blockedByObjects(const World& w, size_t a, std::set<std::pair<std::string, SceneObject*>>* out = nullptr)
    {
        bool r = false;
        auto& f = w.h.f[a];
        for (size_t j = 0; j < f.nodes.size(); j++)
            if (f.mode[j]) for (auto& o : w.obs) if (hit(w.node(f.nodes[j]), o)) { r = true; if (out) out->insert({w.h.sp.n[f.nodes[j]].name, o.get()}); }
        return r;
    }
    bool blocked(const World& w, size_t a)
    {
        if (blockedByObjects(w, a)) return true;
        auto& f = w.h.f[a];
        for (size_t j = 0; j < f.nodes.size(); j++)
        {
            if (f.mode[j] & 1)
                for (size_t b = 0; b < w.h.f.size(); b++)
                    if (b != a) for (size_t k = 0; k < w.h.f[b].nodes.size(); k++) if (w.h.f[b].mode[k] && hit(w.node(f.nodes[j]), w.node(w.h.f[b].nodes[k]))) return true;
            if (f.mode[j] & 2) for (int n : w.h.statics) if (hit(w.node(f.nodes[j]), w.node(n))) return true;
        }
        return false;
    }
    // the mutual collisions that closing must never cause
    bool forbidden(const World& w, std::string& what)
    {
        for (size_t a = 0; a < w.h.f.size(); a++)
        {
            auto& f = w.h.f[a];
            if (blockedByObjects(w, a)) { what = f.name + " with an object"; return true; }
            for (size_t j = 0; j < f.nodes.size(); j++)
            {
                if (f.mode[j] & 1) for (size_t b = 0; b < a; b++) for (size_t k = 0; k < w.h.f[b].nodes.size(); k++) if ((w.h.f[b].mode[k] & 1) && hit(w.node(f.nodes[j]), w.node(w.h.f[b].nodes[k]))) { what = f.name + " with " + w.h.f[b].name; return true; }
                if (f.mode[j] & 2) for (int n : w.h.statics) if (hit(w.node(f.nodes[j]), w.node(n))) { what = f.name + " with the palm"; return true; }
            }
        }
        return false;
    }
    void closing(Src& s, pbt::Ctx& c)
    {
        World w = world(s, c, false, s.chance(0.4));
        float step = (float)s.pick(std::vector<double>{0.02, 0.05, 0.1, 0.2});
        bool opening = s.chance(0.25);
        std::string what;
        bool free0 = !forbidden(w, what);
        auto before = w.values();
        auto poses0 = w.r->getGlobalPose();
        EndEffector::ContactInfoVector ci;
        float dir = opening ? -step : step;
        if (opening) { if (s.chance(0.5)) w.e->openActors(w.set, step); else ci = w.e->closeActors(w.set, -step); }
        else if (w.obs.size() == 1 && s.chance(0.5)) ci = w.e->closeActors(SceneObjectPtr(w.obs[0]), step);
        else if (w.obs.empty() && s.chance(0.5)) ci = w.e->closeActors(SceneObjectPtr(), step);
        else ci = w.e->closeActors(w.set, step);
        bool haveContacts = !opening;
        auto after = w.values();
        c.check((w.r->getGlobalPose() - poses0).cwiseAbs().maxCoeff() == 0, "robotMoved", "the robot moved");
        if (free0) { bool b = forbidden(w, what); c.check(!b, "collision", "closing ended in a collision of " + what); }
        else c.label("initial collision");
        // each finger joint moved by whole steps in its direction and stays within the limits; nothing else moved
        std::set<std::string> mine;
        int moved = 0, stopped = 0;
        for (auto& f : w.h.f)
            for (size_t j = 0; j < f.nodes.size(); j++)
            {
                auto& n = w.h.sp.n[f.nodes[j]];
                mine.insert(n.name);
                double d = (double)after[n.name] - before[n.name], st = (double)dir * f.speed[j];
                c.check(after[n.name] >= n.lo - 1e-5 && after[n.name] <= n.hi + 1e-5, "limit", n.name + " left its limits: " + num(after[n.name]));
                if (st == 0) { c.check(d == 0, "zeroMoved", n.name + " moved by " + num(d)); continue; }
                double k = d / st;
                c.check(k > -1e-3 && std::fabs(k - std::round(k)) < 2e-3 * (1 + std::fabs(k) * 0.05), "steps", n.name + " moved by " + num(d) + ", not a multiple of " + num(st));
                if (k > 0.5) moved++;
            }
        for (auto& p : after) if (!mine.count(p.first)) c.check(p.second == before[p.first], "foreign", "closing moved " + p.first);
        // and every joint is really stopped
        std::set<std::pair<std::string, SceneObject*>> want;
        bool unsure = false;
        for (size_t a = 0; a < w.h.f.size(); a++)
            for (size_t j = 0; j < w.h.f[a].nodes.size(); j++)
            {
                auto& n = w.h.sp.n[w.h.f[a].nodes[j]];
                RobotNodePtr rn = w.node(w.h.f[a].nodes[j]);
                float o = rn->getJointValue(), v = o + dir * (float)w.h.f[a].speed[j];
                double eps = 1e-5 * (1 + std::fabs(v));
                if (std::fabs(v - n.lo) < eps || std::fabs(v - n.hi) < eps) { unsure = true; continue; }
                if (v < n.lo || v > n.hi || v == o) continue;
                w.r->setJointValue(rn, v);
                bool b = blocked(w, a);
                if (blockedByObjects(w, a, &want)) stopped++;
                w.r->setJointValue(rn, o);
                c.check(b, "notClosed", n.name + " could move on from " + num(o) + " to " + num(v));
            }
        // the contacts are exactly the collisions of the next steps
        if (haveContacts)
        {
            std::set<std::pair<std::string, SceneObject*>> got;
            for (auto& x : ci)
            {
                c.check(!!x.robotNode && !!x.obstacle && x.eef == w.e, "contactNull", "incomplete contact");
                auto key = std::make_pair(x.robotNode->getName(), x.obstacle.get());
                c.check(got.insert(key).second, "contactTwice", "two contacts of " + key.first + " with one object");
                if (!unsure) c.check(want.count(key) > 0, "contactFalse", "contact of " + key.first + " that does not exist");
                c.check(x.actor && x.actor->hasNode(x.robotNode), "contactActor", "actor of the contact of " + key.first);
                int i1, i2;
                Eigen::Vector3f a, b;
                float d = CollisionChecker::getGlobalCollisionChecker()->calculateDistance(x.robotNode->getCollisionModel(), x.obstacle->getCollisionModel(), a, b, &i1, &i2);
                c.check(std::fabs(d - x.distance) < 1e-2, "contactDist", "distance of the contact " + num(x.distance) + ", the models are " + num(d) + " apart");
                if (free0)
                {
                    c.check(std::fabs((x.contactPointFingerGlobal - x.contactPointObstacleGlobal).norm() - x.distance) < 2e-2, "contactPoints", "distance of the contact points");
                    M4 O = d4(x.obstacle->getGlobalPose());
                    sameVec(c, d3(x.contactPointFingerLocal), trans(inv(O) * mk(M3::Identity(), d3(x.contactPointFingerGlobal))), 0.02, "contactLocalF", "local contact point on the finger");
                    sameVec(c, d3(x.contactPointObstacleLocal), trans(inv(O) * mk(M3::Identity(), d3(x.contactPointObstacleGlobal))), 0.02, "contactLocalO", "local contact point on the object");
                }
                // the direction in which the contact point moves while closing
                M4 N = d4(x.robotNode->getGlobalPose());
                V3 pf = d3(x.contactPointFingerGlobal), loc = trans(inv(N) * mk(M3::Identity(), pf));
                auto keep = w.values();
                for (auto& f : w.h.f)
                    if (x.actor && f.name == x.actor->getName())
                        for (size_t j = 0; j < f.nodes.size(); j++)
                        {
                            auto& n = w.h.sp.n[f.nodes[j]];
                            float v = w.node(f.nodes[j])->getJointValue() + dir * (float)f.speed[j];
                            if (std::fabs(v - n.lo) < 1e-5 * (1 + std::fabs(v)) || std::fabs(v - n.hi) < 1e-5 * (1 + std::fabs(v))) unsure = true;
                            if (v >= n.lo && v <= n.hi) w.r->setJointValue(w.node(f.nodes[j]), v);
                        }
                V3 mv = trans(d4(x.robotNode->getGlobalPose()) * mk(M3::Identity(), loc)) - pf;
                w.r->setJointValues(keep);
                if (!unsure && mv.norm() > 0.05) sameVec(c, d3(x.approachDirectionGlobal), mv.normalized(), 0.03, "approach", "direction of approach of " + key.first);
            }
            if (!unsure) for (auto& k : want) c.check(got.count(k) > 0, "contactMissing", "the contact of " + k.first + " is missing");
            if (!ci.empty()) c.label("contacts");
        }
        if (opening) c.label("opening");
        c.nontrivial(moved > 0 && (stopped > 0 || w.obs.empty()));
        // closing again changes nothing
        if (s.chance(0.3))
        {
            auto ci2 = w.e->closeActors(w.set, dir);
            auto v = w.values();
            if (!unsure) for (auto& p : v) c.check(p.second == after[p.first], "again", "closing a closed hand moved " + p.first);
            if (haveContacts && !unsure) c.check(ci2.size() == ci.size(), "againContacts", "closing again gives " + std::to_string(ci2.size()) + " contacts instead of " + std::to_string(ci.size()));
        }
        // contacts of the static parts
        if (!w.obs.empty())
        {
            float md = (float)s.uniform(0, 60);
            EndEffector::ContactInfoVector sc;
            V3 ad = unit(s);
            int k = w.e->addStaticPartContacts(w.obs[0], sc, f3(ad), md), wantN = 0;
            bool border = false;
            for (int n : w.h.statics)
            {
                float d = CollisionChecker::getGlobalCollisionChecker()->calculateDistance(w.node(n)->getCollisionModel(), w.obs[0]->getCollisionModel());
                if (std::fabs(d - md) < 1e-2) border = true;
                wantN += d <= md;
            }
            if (!border)
            {
                c.check(k == wantN && (int)sc.size() == wantN, "staticContacts", std::to_string(k) + " contacts of the static parts, expected " + std::to_string(wantN));
                for (auto& x : sc) { c.check(x.distance <= md && x.obstacle == w.obs[0] && x.eef == w.e, "staticContact", "contact of a static part"); sameVec(c, d3(x.approachDirectionGlobal), -ad, 1e-5, "staticApproach", "direction of approach"); }
            }
        }
    }
    // moving one actor by hand
    void moving(Src& s, pbt::Ctx& c)
    {
        World w = world(s, c, false, true);
        int n = 1 + (int)s.draw(6), moved = 0;
        for (int i = 0; i < n; i++)
        {
            size_t a = s.draw(w.act.size());
            float ang = (float)s.real(-0.6, 0.6);
            auto b = w.values();
            auto& f = w.h.f[a];
            c.check(w.act[a]->getName() == f.name, "actorName", "order of the actors");
            bool r = w.act[a]->moveActor(ang);
            auto v = w.values();
            bool any = false, unsure = false;
            for (size_t j = 0; j < f.nodes.size(); j++)
            {
                auto& nd = w.h.sp.n[f.nodes[j]];
                float t = b[nd.name] + ang * (float)f.speed[j];
                double eps = 1e-5 * (1 + std::fabs(t));
                if (std::fabs(t - nd.lo) < eps || std::fabs(t - nd.hi) < eps) { unsure = true; continue; }
                bool in = t >= nd.lo && t <= nd.hi;
                if (in && t != b[nd.name]) any = true;
                c.check(std::fabs(v[nd.name] - (in ? t : b[nd.name])) < eps, "moveValue", nd.name + " is at " + num(v[nd.name]) + " after moving by " + num(ang * f.speed[j]) + " from " + num(b[nd.name]));
                b.erase(nd.name);
            }
            for (auto& p : b) { bool own = false; for (int k : f.nodes) own |= w.h.sp.n[k].name == p.first; if (!own) c.check(v[p.first] == p.second, "moveForeign", "moving " + f.name + " moved " + p.first); }
            if (!unsure && ang != 0) c.check(r == !any, "moveResult", "result of moving an actor");
            moved += any;
            // collision queries of the actor
            if (!w.obs.empty())
            {
                bool o = blockedByObjects(w, a);
                c.check(w.act[a]->isColliding(w.set) == o, "isCollidingSet", "collision of the actor with the objects");
                bool one = false;
                for (auto& x : w.obs) one |= w.act[a]->isColliding(SceneObjectPtr(x));
                c.check(one == o, "isCollidingObj", "collision of the actor with one object");
                EndEffector::ContactInfoVector ci;
                c.check(w.act[a]->isColliding(w.e, w.set, ci) == o && ci.empty() == !o, "isCollidingContacts", "collision of the actor with contacts");
            }
        }
        c.nontrivial(moved > 0);
    }
    // structure: preshapes, configuration, nodes, extraction as a robot, clones
    void structure(Src& s, pbt::Ctx& c)
    {
        World w = world(s, c, false, true);
        auto& h = w.h;
        c.check(w.e->getTcp() == w.node(h.tcp) && w.e->getGCP() == w.node(h.tcp) && w.e->getBase() == w.node(h.palm) && w.e->getRobot() == w.r && w.e->getRobotType() == h.sp.type, "parts", "tcp, base or robot");
        std::set<std::string> all{h.sp.n[h.palm].name, h.sp.n[h.tcp].name}, inSet;
        for (auto& f : h.f) for (int n : f.nodes) { all.insert(h.sp.n[n].name); inSet.insert(h.sp.n[n].name); }
        for (int n : h.statics) { all.insert(h.sp.n[n].name); inSet.insert(h.sp.n[n].name); }
        std::set<std::string> got;
        for (auto& n : w.e->getAllNodes()) c.check(got.insert(n->getName()).second, "allTwice", "node twice");
        c.check(got == all, "all", "nodes of the end effector");
        for (auto& n : w.r->getRobotNodes()) c.check(w.e->hasNode(n) == (all.count(n->getName()) > 0), "hasNode", "hasNode " + n->getName());
        SceneObjectSetPtr so = w.e->createSceneObjectSet();
        std::set<std::string> gs;
        for (auto& o : so->getSceneObjects()) gs.insert(o->getName());
        c.check(gs == inSet, "objectSet", "set of all parts of the end effector");
        // the nodes needed for the end effector
        {
            std::vector<RobotNodePtr> ns = w.r->getRobotNodes();
            c.check(w.e->nodesSufficient(ns), "sufficient", "all nodes are not sufficient");
            size_t k = s.draw(ns.size());
            bool need = ns[k]->getName() == h.sp.n[h.palm].name || ns[k]->getName() == h.sp.n[h.tcp].name;
            for (auto& f : h.f) for (int n : f.nodes) need |= h.sp.n[n].name == ns[k]->getName();
            std::string nm = ns[k]->getName();
            ns.erase(ns.begin() + k);
            c.check(w.e->nodesSufficient(ns) == !need, "insufficient", "nodes without " + nm);
        }
        // preshapes
        auto names = w.e->getPreshapes();
        c.check(names.size() == h.pre.size(), "preshapes", "number of preshapes");
        c.check(!w.e->hasPreshape("nothing") && !w.e->getPreshape("nothing") && !w.e->setPreshape("nothing"), "noPreshape", "unknown preshape");
        for (auto& p : h.pre)
        {
            c.check(w.e->hasPreshape(p.first) && w.e->getPreshape(p.first), "hasPreshape", "preshape " + p.first);
            auto b = w.values();
            c.check(w.e->setPreshape(p.first), "setPreshape", "setting preshape " + p.first);
            auto v = w.values();
            for (auto& q : p.second) b[h.sp.n[q.first].name] = (float)q.second;
            for (auto& q : b) c.check(std::fabs(v[q.first] - q.second) < 1e-5 * (1 + std::fabs(q.second)), "preValue", q.first + " is at " + num(v[q.first]) + " with preshape " + p.first + ", expected " + num(q.second));
        }
        // configuration
        auto v = w.values();
        auto cfg = w.e->getConfiguration()->getRobotNodeJointValueMap();
        size_t joints = 0;
        for (auto& n : all) for (auto& x : h.sp.n) if (x.name == n && x.type != FIXED) { joints++; c.check(cfg.count(n) && cfg[n] == v[n], "cfg", "configuration of " + n); }
        c.check(cfg.size() == joints, "cfgSize", "size of the configuration");
        // the end effector as a robot of its own
        RobotPtr er = w.e->createEefRobot("handtype", "handname");
        c.check(er && er->getType() == "handtype" && er->getName() == "handname", "eefRobot", "robot of the end effector");
        c.check(er->getRootNode()->getName() == "palm" && !er->hasRobotNode("root"), "eefRoot", "root of the robot of the end effector");
        c.check(er->hasEndEffector("hand"), "eefEef", "end effector of the new robot");
        EndEffectorPtr ee = er->getEndEffector("hand");
        c.check(ee != w.e && ee->getRobot() == er && ee->getTcp() == er->getRobotNode("tcp") && ee->getPreshapes().size() == h.pre.size(), "eefParts", "parts of the new end effector");
        samePose(c, er->getGlobalPose(), M4::Identity(), 1e-6, 1e-6, "eefPose", "pose of the new robot");
        M4 P = inv(d4(w.node(h.palm)->getGlobalPose())), E = inv(d4(er->getRobotNode("palm")->getGlobalPose()));
        for (auto& n : all)
        {
            RobotNodePtr a = w.r->getRobotNode(n), b = er->getRobotNode(n);
            c.check(b && b != a, "eefNode", "node " + n + " of the new robot");
            samePose(c, f4(E * d4(b->getGlobalPose())), P * d4(a->getGlobalPose()), 0.1, 1e-3, "eefNodePose", "pose of " + n + " relative to the palm");
            c.check(std::fabs(a->getJointValue() - b->getJointValue()) < 1e-5, "eefValue", "value of " + n);
        }
        // closing the copy does the same as closing the original
        EndEffector::ContactInfoVector c1, c2;
        auto b0 = w.values();
        ee->closeActors(SceneObjectPtr(), 0.1f);
        for (auto& p : w.values()) c.check(p.second == b0[p.first], "shared", "closing the copy moved the original");
        w.e->closeActors(SceneObjectPtr(), 0.1f);
        int diff = 0;
        for (auto& f : h.f) for (int n : f.nodes) if (std::fabs(er->getRobotNode(h.sp.n[n].name)->getJointValue() - w.node(n)->getJointValue()) > 1e-4) diff++;
        c.check(diff == 0, "copyCloses", "the copy closes differently");
        // a clone for a cloned robot
        if (s.chance(0.4))
        {
            RobotPtr k = w.r->clone("copy");
            EndEffectorPtr ke = k->getEndEffector("hand");
            c.check(ke && ke->getRobot() == k && ke->getPreshapes().size() == h.pre.size() && ke->getTcp()->getName() == "tcp", "cloneEef", "end effector of the cloned robot");
            std::vector<EndEffectorActorPtr> ka;
            ke->getActors(ka);
            c.check(ka.size() == h.f.size(), "cloneActors", "actors of the clone");
            for (size_t a = 0; a < ka.size(); a++)
            {
                auto d = ka[a]->getDefinition();
                c.check(d.size() == h.f[a].nodes.size(), "cloneDef", "definition of the cloned actor");
                for (size_t j = 0; j < d.size(); j++) c.check(d[j].robotNode == k->getRobotNode(h.sp.n[h.f[a].nodes[j]].name) && d[j].colMode == h.f[a].mode[j] && std::fabs(d[j].directionAndSpeed - h.f[a].speed[j]) < 1e-5, "cloneDefNode", "definition of the cloned actor");
            }
        }
        c.nontrivial(h.f.size() >= 2);
    }
}

int main(int argc, char** argv)
{
    pbt::Suite suite;
    suite.property = "P22";
    suite.rule = "closing: a joint moved and, with objects, one was stopped by an object; moving: a joint moved; structure: >=2 fingers";
    suite.init = [] { initVR("P22"); };
    suite.add("closing", 5000, 60000, closing);
    suite.add("moving", 5000, 80000, moving);
    suite.add("structure", 2500, 30000, structure);
    return pbt::run(argc, argv, suite);
}
