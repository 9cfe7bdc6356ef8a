// libs: VirtualRobot
// P13: collision manager histories and scene object sets against a reference model
#include "common/shapes.h"
#include <VirtualRobot/CollisionDetection/CDManager.h>
#include <set>
using namespace VirtualRobot;
using namespace gen;

namespace
{
    struct Group { std::vector<int> m; SceneObjectSetPtr set; };
    struct Mgr
    {
        std::vector<Shape> ob;
        std::vector<Group> g;
        CDManager cd;
        std::set<int> known;
        std::set<std::pair<int, int>> pairs;
        std::vector<Tri> geo(int k) const { std::vector<Tri> r; for (int i : g[k].m) { auto t = ob[i].global(); r.insert(r.end(), t.begin(), t.end()); } return r; }
        void pair(int a, int b) { known.insert(a); known.insert(b); pairs.insert({std::min(a, b), std::max(a, b)}); }
        void add(int a) { for (int k : known) if (k != a) pairs.insert({std::min(a, k), std::max(a, k)}); known.insert(a); }
    };
    // verdict over several pairs
    struct Sum { int v = -1; double d = 1e30; };
    Sum over(const Mgr& m, const std::vector<std::pair<int, int>>& ps, double eps)
    {
        Sum s;
        std::map<int, std::vector<Tri>> G;
        for (auto& p : ps)
        {
            for (int k : {p.first, p.second}) if (!G.count(k)) G[k] = m.geo(k);
            double d;
            int v = verdict(G[p.first], G[p.second], eps, &d);
            s.d = std::min(s.d, d);
            s.v = s.v > 0 || v > 0 ? 1 : s.v == 0 || v == 0 ? 0 : -1;
        }
        return s;
    }
    void judge(const pbt::Ctx& c, const Sum& want, double eps, bool col, const std::string& what)
    {
        if (want.v > 0) c.check(col, "missed", what + ": collision not reported");
        if (want.v < 0) c.check(!col, "false-collision", what + ": collision reported, smallest distance is " + num(want.d));
    }
    void judgeDist(const pbt::Ctx& c, const Sum& want, double eps, float d, const std::string& what)
    {
        c.near(d, want.v > 0 ? 0 : want.d, 2 * eps, "distance", what + ": distance");
    }
    void judgePts(const pbt::Ctx& c, const Sum& want, double eps, float d, const Eigen::Vector3f& a, const Eigen::Vector3f& b, const std::string& what)
    {
        judgeDist(c, want, eps, d, what);
        if (want.v < 0 && want.d < 1e29) c.near((a - b).norm(), d, 2 * eps, "nearest-points", what + ": distance between the nearest points");
    }

    void manager(Src& s, pbt::Ctx& c)
    {
        Mgr m;
        int n = (int)s.integer(2, 7);
        double span = s.pick(std::vector<double>{100, 300, 600});
        for (int i = 0; i < n; i++)
        {
            m.ob.push_back(shape(s, s.chance(0.6) ? 0 : 3));
            m.ob.back().place(pose(s, span));
        }
        for (int i = 0; i < n;)
        {
            Group g;
            int k = s.chance(0.6) ? 1 : (int)s.integer(2, 3);
            for (; k > 0 && i < n; k--, i++) g.m.push_back(i);
            g.set.reset(new SceneObjectSet("g" + std::to_string(m.g.size())));
            for (int j : g.m) g.set->addSceneObject(m.ob[j].ob);
            m.g.push_back(g);
        }
        double eps = 0.02 + 2e-5 * (span + 400);
        int G = (int)m.g.size();
        std::string h = std::to_string(n) + " objects, " + std::to_string(G) + " groups:";
        auto single = [&](int k) { return m.g[k].m.size() == 1; };
        auto obj = [&](int k) { return SceneObjectPtr(m.ob[m.g[k].m[0]].ob); };
        int steps = (int)s.integer(2, 10), queries = 0;
        for (int k = 0; k < steps; k++)
        {
            int a = (int)s.draw(G), b = (int)s.draw(G);
            switch (s.weighted({3, 3, 2, 2}))
            {
                case 0:
                    if (single(a) && s.chance(0.6)) { m.cd.addCollisionModel(obj(a)); h += " add object " + std::to_string(a); }
                    else { m.cd.addCollisionModel(m.g[a].set); h += " add set " + std::to_string(a); }
                    m.add(a);
                    c.label("add");
                    break;
                case 1:
                    if (a == b) break;
                    if (single(a) && single(b) && s.chance(0.5)) { m.cd.addCollisionModelPair(obj(a), obj(b)); h += " pair objects "; }
                    else if (single(a) && s.chance(0.5)) { m.cd.addCollisionModelPair(obj(a), m.g[b].set); h += " pair object-set "; }
                    else { m.cd.addCollisionModelPair(m.g[a].set, m.g[b].set); h += " pair sets "; }
                    h += std::to_string(a) + "," + std::to_string(b);
                    m.pair(a, b);
                    c.label("pair");
                    break;
                case 2:
                {
                    int i = (int)s.draw(n);
                    m.ob[i].place(pose(s, span));
                    h += " move " + std::to_string(i);
                    c.label("move");
                    break;
                }
                default:
                    if (single(a)) break;
                    {
                        // a set that grows after it was registered
                        Shape x = shape(s, 0);
                        x.place(pose(s, span));
                        m.ob.push_back(x);
                        m.g[a].m.push_back((int)m.ob.size() - 1);
                        m.g[a].set->addSceneObject(x.ob);
                        n++;
                        h += " grow " + std::to_string(a);
                        c.label("grow");
                    }
            }
            c.describe(h);
            std::vector<std::pair<int, int>> ps(m.pairs.begin(), m.pairs.end());
            Sum all = over(m, ps, eps);
            judge(c, all, eps, m.cd.isInCollision(), h + ": manager");
            Eigen::Vector3f p1, p2;
            int t1 = 0, t2 = 0;
            if (ps.empty())
            {
                c.check(m.cd.getDistance() > 1e30, "distance-empty", h + ": distance without any pair");
            }
            else
            {
                judgeDist(c, all, eps, m.cd.getDistance(), h + ": manager");
                float d = m.cd.getDistance(p1, p2, t1, t2);
                judgePts(c, all, eps, d, p1, p2, h + ": manager with points");
                queries++;
                c.label(all.v > 0 ? "collision" : all.v < 0 ? "free" : "undecidable");
            }
            // one set against everything registered
            int q = (int)s.draw(G);
            bool viaSet = true;
            for (auto& x : m.cd.getSceneObjectSets()) if (single(q) && x != m.g[q].set && x->getSize() == 1 && x->getSceneObject(0) == obj(q)) viaSet = false;
            if (viaSet)
            {
                std::vector<std::pair<int, int>> one;
                for (int x : m.known) if (x != q) one.push_back({q, x});
                if (!one.empty())
                {
                    Sum w = over(m, one, eps);
                    judge(c, w, eps, m.cd.isInCollision(m.g[q].set), h + ": group " + std::to_string(q) + " against the manager");
                    judgeDist(c, w, eps, m.cd.getDistance(m.g[q].set), h + ": group " + std::to_string(q) + " against the manager");
                    float d = m.cd.getDistance(m.g[q].set, p1, p2, t1, t2);
                    judgePts(c, w, eps, d, p1, p2, h + ": group " + std::to_string(q) + " against the manager, with points");
                    if (w.v < 0)
                    {
                        double b = 1e30;
                        for (auto& t : m.geo(q)) b = std::min(b, pointTriDist(d3(p1), t));
                        c.near(b, 0, 2 * eps, "first-point", h + ": first nearest point is off the queried set by");
                    }
                    queries++;
                }
                else c.check(!m.cd.isInCollision(m.g[q].set), "alone", h + ": a set alone in the manager collides");
            }
            // membership
            std::set<int> got;
            for (auto& x : m.cd.getSceneObjectSets())
                for (int i = 0; i < G; i++)
                    if (x == m.g[i].set || (x->getSize() == 1 && single(i) && x->getSceneObject(0) == obj(i)))
                        got.insert(i);
            c.check(got == m.known, "members", h + ": registered sets");
            for (int i = 0; i < G; i++)
            {
                if (single(i)) c.check(m.cd.hasSceneObject(obj(i)) == (m.known.count(i) > 0), "has-object", h + ": hasSceneObject " + std::to_string(i));
                else c.check(m.cd.hasSceneObjectSet(m.g[i].set) == (m.known.count(i) > 0), "has-set", h + ": hasSceneObjectSet " + std::to_string(i));
            }
        }
        if (queries > 1) c.nontrivial();
    }

    void sets(Src& s, pbt::Ctx& c)
    {
        CollisionCheckerPtr other(new CollisionChecker());
        int n = (int)s.integer(1, 6);
        std::vector<Shape> ob;
        std::vector<SceneObjectPtr> so;
        for (int i = 0; i < n; i++)
        {
            ob.push_back(shape(s, s.chance(0.5) ? 0 : 3));
            ob.back().place(pose(s, 300));
            so.push_back(ob.back().ob);
        }
        SceneObjectPtr bare(new SceneObject("bare"));
        bare->setGlobalPose(f4(fl4(pose(s, 300))));
        so.push_back(bare);
        SceneObjectPtr foreign = Obstacle::createBox(10, 10, 10, VisualizationFactory::Color::Red(), "", other);
        struct M { SceneObjectSetPtr s; std::vector<int> in; };
        std::vector<M> v;
        for (int i = 0; i < 2; i++) v.push_back(M{SceneObjectSetPtr(new SceneObjectSet("set" + std::to_string(i))), {}});
        auto has = [](const M& m, int i) { return std::count(m.in.begin(), m.in.end(), i) > 0; };
        std::string h;
        int steps = (int)s.integer(2, 12);
        for (int k = 0; k < steps; k++)
        {
            size_t w = s.draw(v.size());
            M& m = v[w];
            int i = (int)s.draw(so.size());
            h += " ";
            switch (s.draw(8))
            {
                case 0:
                case 1:
                case 2:
                {
                    bool r = m.s->addSceneObject(so[i]);
                    h += "add" + std::to_string(w) + "," + std::to_string(i);
                    c.check(r == !has(m, i), "add-result", h + ": result of addSceneObject");
                    if (!has(m, i)) m.in.push_back(i);
                    break;
                }
                case 3:
                {
                    bool r = m.s->removeSceneObject(so[i]);
                    h += "remove" + std::to_string(w) + "," + std::to_string(i);
                    c.check(r == has(m, i), "remove-result", h + ": result of removeSceneObject");
                    m.in.erase(std::remove(m.in.begin(), m.in.end(), i), m.in.end());
                    break;
                }
                case 4:
                {
                    c.check(!m.s->addSceneObject(foreign) && !m.s->addSceneObject(SceneObjectPtr()), "foreign-accepted", h + ": object of another collision checker or null accepted");
                    h += "foreign";
                    break;
                }
                case 5:
                {
                    const M& o = v[s.draw(v.size())];
                    bool clash = false;
                    for (int x : o.in) if (has(m, x)) clash = true;
                    if (clash) break; // partial additions are not claimed
                    h += "addset" + std::to_string(w);
                    auto add = o.in;
                    c.check(m.s->addSceneObjects(o.s), "addset-result", h + ": result of addSceneObjects");
                    m.in.insert(m.in.end(), add.begin(), add.end());
                    break;
                }
                case 6:
                {
                    if (v.size() > 4) break;
                    M o{m.s->clone("copy"), m.in};
                    h += "clone" + std::to_string(w);
                    c.check(o.s->getName() == "copy", "clone-name", h + ": name of the clone");
                    v.push_back(o);
                    c.label("clone");
                    break;
                }
                default:
                    if (i < n) { ob[i].place(pose(s, 300)); h += "move" + std::to_string(i); }
            }
            c.describe(h);
            for (size_t j = 0; j < v.size(); j++)
            {
                auto& x = v[j];
                c.check(x.s->getSize() == x.in.size(), "size", h + ": size of set " + std::to_string(j));
                std::set<SceneObjectPtr> want, got;
                for (int y : x.in) want.insert(so[y]);
                for (unsigned y = 0; y < x.s->getSize(); y++) got.insert(x.s->getSceneObject(y));
                c.check(want == got, "content", h + ": content of set " + std::to_string(j));
                auto l = x.s->getSceneObjects();
                c.check(std::set<SceneObjectPtr>(l.begin(), l.end()) == want && l.size() == want.size(), "objects", h + ": getSceneObjects of set " + std::to_string(j));
                for (size_t y = 0; y < so.size(); y++) c.check(x.s->hasSceneObject(so[y]) == has(x, (int)y), "has", h + ": hasSceneObject");
                std::set<CollisionModelPtr> wc;
                for (int y : x.in) if (so[y]->getCollisionModel()) wc.insert(so[y]->getCollisionModel());
                auto cm = x.s->getCollisionModels();
                c.check(std::set<CollisionModelPtr>(cm.begin(), cm.end()) == wc && cm.size() == wc.size(), "models", h + ": collision models of set " + std::to_string(j));
                std::map<SceneObjectPtr, Eigen::Matrix4f> conf;
                x.s->getCurrentSceneObjectConfig(conf);
                c.check(conf.size() == x.in.size(), "config-size", h + ": size of the configuration");
                for (int y : x.in) if (y < n) c.near((d4(conf[so[y]]) - ob[y].pose).cwiseAbs().maxCoeff(), 0, 1e-3, "config", h + ": stored pose");
            }
        }
        // derived objects
        M& m = v[s.draw(v.size())];
        std::vector<Tri> want;
        for (int i : m.in) if (i < n) { auto t = ob[i].global(); want.insert(want.end(), t.begin(), t.end()); }
        if (s.chance(0.6))
        {
            auto st = m.s->createStaticObstacle("all");
            c.check(!!st && st->getName() == "all", "static-null", h + ": static obstacle");
            auto got = colTriangles(st->getCollisionModel());
            c.check(got.size() == want.size(), "static-count", h + ": triangles of the static obstacle: " + std::to_string(got.size()) + " instead of " + std::to_string(want.size()));
            if (!want.empty()) c.near(cornerDist(got, want), 0, 0.05, "static-geometry", h + ": geometry of the static obstacle");
            if (!want.empty())
            {
                // it stays where it is when the objects move
                for (int i : m.in) if (i < n) ob[i].place(pose(s, 500));
                c.near(cornerDist(colTriangles(st->getCollisionModel()), want), 0, 0.05, "static-moved", h + ": static obstacle after its objects moved");
                Shape p = shape(s, 0);
                p.place(mk(rot(s), want[s.draw(want.size())].a + vec(s, 100)));
                double d;
                auto GP = p.global();
                int vd = verdict(want, GP, 0.05, &d);
                bool col = CollisionChecker::getGlobalCollisionChecker()->checkCollision(SceneObjectPtr(st), SceneObjectPtr(p.ob));
                if (vd > 0) c.check(col, "static-missed", h + ": static obstacle is hit but no collision reported");
                if (vd < 0) c.check(!col, "static-false", h + ": static obstacle reported as hit at distance " + num(d));
                c.label("static");
            }
            c.nontrivial();
        }
        else
        {
            auto cl = m.s->clone("deep", other);
            c.check(!!cl && cl->getSize() == m.in.size(), "deep-size", h + ": size of the clone for another collision checker");
            c.check(cl->getCollisionChecker() == other, "deep-checker", h + ": collision checker of the clone");
            std::vector<Tri> got;
            for (auto& x : cl->getCollisionModels()) { auto t = colTriangles(x); got.insert(got.end(), t.begin(), t.end()); c.check(x->getCollisionChecker() == other, "deep-model-checker", h + ": collision checker of a cloned model"); }
            c.check(got.size() == want.size(), "deep-count", h + ": triangles of the clone");
            if (!want.empty()) c.near(cornerDist(got, want), 0, 0.05, "deep-geometry", h + ": geometry of the clone");
            for (int i : m.in) c.check(!cl->hasSceneObject(so[i]), "deep-shared", h + ": clone for another checker shares an object");
            for (auto& x : cl->getSceneObjects()) x->setGlobalPose(f4(fl4(pose(s, 500))));
            for (int i : m.in) if (i < n) c.near((d4(so[i]->getGlobalPose()) - ob[i].pose).cwiseAbs().maxCoeff(), 0, 1e-3, "deep-moved", h + ": moving the clone moved the original");
            c.label("deep clone");
            if (!m.in.empty()) c.nontrivial();
        }
    }

    // node sets are fixed sets of a robot's nodes
    void nodesets(Src& s, pbt::Ctx& c)
    {
        RobotOpts o;
        o.models = true;
        o.minNodes = 2;
        o.maxNodes = 6;
        RobotSpec sp = robotSpec(s, o);
        auto r = fromXML(sp);
        c.require(!!r);
        std::vector<RobotNodePtr> nodes;
        for (auto& x : sp.n) if (s.chance(0.6)) nodes.push_back(r->getRobotNode(x.name));
        if (nodes.empty()) nodes.push_back(r->getRobotNode(sp.n[0].name));
        auto ns = RobotNodeSet::createRobotNodeSet(r, "set", nodes, r->getRootNode(), nodes.back(), true);
        c.describe(sp.summary());
        auto unchanged = [&](const std::string& w)
        {
            c.check(ns->getSize() == nodes.size(), "nodeset-size", w + ": size");
            for (size_t i = 0; i < nodes.size() && i < ns->getSize(); i++) c.check(ns->getNode((int)i) == nodes[i] && ns->getSceneObject((unsigned)i) == nodes[i], "nodeset-order", w + ": member " + std::to_string(i));
        };
        unchanged("after creation");
        SceneObjectPtr box = Obstacle::createBox(10, 10, 10);
        SceneObjectSetPtr os(new SceneObjectSet("o"));
        os->addSceneObject(box);
        for (int k = 0; k < 3; k++)
        {
            try
            {
                switch (s.draw(4))
                {
                    case 0: c.check(!ns->addSceneObject(box), "nodeset-add", "a node set accepted an object"); break;
                    case 1: c.check(!ns->addSceneObjects(os), "nodeset-addset", "a node set accepted a set"); break;
                    case 2: c.check(!ns->removeSceneObject(nodes[0]), "nodeset-remove", "a node set removed a node"); break;
                    default: c.check(!ns->addSceneObjects(std::vector<RobotNodePtr>{r->getRobotNode(sp.n[0].name)}), "nodeset-addnodes", "a node set accepted nodes");
                }
            }
            catch (VirtualRobotException&) {}
            unchanged("after a rejected change");
        }
        // which nodes are needed to build it again (names count: the nodes of a clone will do)
        {
            auto pool = (s.chance(0.5) ? r : r->clone("copy"))->getRobotNodes();
            std::vector<RobotNodePtr> some;
            std::set<std::string> have;
            for (auto& n : pool) if (s.chance(0.85)) { some.push_back(n); have.insert(n->getName()); }
            auto root = s.chance(0.5) ? r->getRootNode() : s.pick(r->getRobotNodes()), tcp = s.chance(0.5) ? nodes.back() : s.pick(r->getRobotNodes());
            auto n2 = RobotNodeSet::createRobotNodeSet(r, "set2", nodes, root, tcp, false);
            // (an unsuitable kinematic root is replaced by the one of the robot)
            bool want = have.count(n2->getKinematicRoot()->getName()) && have.count(tcp->getName());
            c.check(n2->getKinematicRoot() == root || n2->getKinematicRoot() == r->getRootNode(), "nodeset-root", "kinematic root");
            c.check(n2->getTCP() == tcp, "nodeset-tcp", "tcp");
            for (auto& n : nodes) want = want && have.count(n->getName());
            c.check(n2->nodesSufficient(some) == want, "sufficient", std::string("nodesSufficient() is ") + (want ? "false" : "true"));
            c.check(n2->nodesSufficient(pool), "sufficient-all", "all nodes of the robot are not sufficient");
        }
        // a plain set made from the node set
        SceneObjectSetPtr plain(new SceneObjectSet("p"));
        c.check(plain->addSceneObjects(ns), "from-nodeset", "adding a node set");
        c.check(plain->getSize() == nodes.size(), "from-nodeset-size", "size of a set made from a node set");
        std::map<std::string, std::vector<Tri>> loc;
        for (auto& n : r->getRobotNodes()) if (n->getCollisionModel()) loc[n->getName()] = triangles(n->getCollisionModel()->getTriMeshModel());
        std::map<std::string, float> q;
        for (int j : sp.joints()) q[sp.n[j].name] = (float)randomQ(s, sp.n[j]);
        r->setJointValues(q);
        auto P = sp.fk(M4::Identity(), readQ(sp, r));
        std::vector<Tri> want;
        for (size_t i = 0; i < sp.n.size(); i++)
            if (std::count(nodes.begin(), nodes.end(), r->getRobotNode(sp.n[i].name)) && loc.count(sp.n[i].name)) { auto t = moved(loc[sp.n[i].name], P[i]); want.insert(want.end(), t.begin(), t.end()); }
        for (int k = 0; k < 2; k++)
        {
            SceneObjectSetPtr x = k ? SceneObjectSetPtr(ns) : plain;
            std::vector<Tri> got;
            for (auto& m : x->getCollisionModels()) { auto t = colTriangles(m); got.insert(got.end(), t.begin(), t.end()); }
            c.check(got.size() == want.size(), "nodes-count", "triangles of the nodes in the set");
            if (!want.empty()) c.near(cornerDist(got, want), 0, 0.05, "nodes-geometry", "geometry of the nodes in the set");
        }
        int faces = 0;
        for (auto& n : nodes) faces += loc.count(n->getName()) ? (int)loc[n->getName()].size() : 0;
        c.check(ns->getNumFaces(true) == faces, "faces", "number of collision faces of the node set: " + std::to_string(ns->getNumFaces(true)) + " instead of " + std::to_string(faces));
        c.nontrivial();
    }
}
int main(int argc, char** argv)
{
    pbt::Suite S;
    S.property = "P13";
    S.rule = "manager: at least two queries with a registered pair; sets: a derived object was checked; nodesets: every case";
    S.init = [] { initVR("P13"); };
    S.add("manager", 5000, 100000, manager, 20);
    S.add("sets", 4000, 80000, sets, 20);
    S.add("nodesets", 1500, 20000, nodesets, 20);
    return pbt::run(argc, argv, S);
}
