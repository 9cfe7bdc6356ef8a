// libs: VirtualRobot Saba
// P24: RRT planners find only valid motions from the start to the goal, in any sequence of calls
#include "common/planworld.h"
#include <MotionPlanning/Planner/Rrt.h>
#include <MotionPlanning/Planner/BiRrt.h>
#include <MotionPlanning/Planner/PlanningThread.h>
#include <thread>
#include <chrono>
using namespace VirtualRobot;
using namespace Saba;
using namespace gen;

namespace
{
    struct Plan { MotionPlannerPtr p; boost::shared_ptr<Rrt> r; boost::shared_ptr<BiRrt> b; bool complete; double maxStep; std::string name; };
    Plan planner(Src& s, PWorld& p)
    {
        Plan x;
        static const Rrt::RrtMethod modes[] = {Rrt::eExtend, Rrt::eConnect, Rrt::eConnectCompletePath};
        static const char* names[] = {"extend", "connect", "complete"};
        int m = (int)s.draw(3), m2 = (int)s.draw(3);
        double ext = s.chance(0.5) ? 0 : fl(p.diam / s.uniform(2, 20));
        if (s.chance(0.5))
        {
            double prob = s.chance(0.1) ? s.pick(std::vector<double>{0, -1, 1, 2}) : s.uniform(0.1, 0.6);
            x.r.reset(ext > 0 ? new Rrt(p.w.cs, modes[m], (float)prob, (float)ext) : new Rrt(p.w.cs, modes[m], (float)prob));
            if (s.chance(0.2)) x.r->setProbabilityExtendToGoal((float)s.uniform(0.1, 0.6));
            x.name = std::string("Rrt ") + names[m];
        }
        else
        {
            x.b.reset(ext > 0 ? new BiRrt(p.w.cs, modes[m], modes[m2], (float)ext) : new BiRrt(p.w.cs, modes[m], modes[m2]));
            x.r = x.b;
            x.name = std::string("BiRrt ") + names[m] + " " + names[m2];
        }
        x.p = x.r;
        x.complete = m > 0 && (!x.b || m2 > 0);
        return x;
    }
    void judgeTree(pbt::Ctx& c, PWorld& p, const CSpaceTreePtr& t, const VX& root, const std::string& what)
    {
        auto nodes = t->getNodes();
        if (nodes.empty()) return;
        c.check(exact(root, nodes[0]->configuration) && nodes[0]->parentID < 0, "root", what + ": the first node is not the root");
        for (size_t i = 1; i < nodes.size(); i++)
        {
            auto par = t->getNode(nodes[i]->parentID);
            c.check((bool)par, "treeParent", what + ": node without parent");
            std::vector<VX> e; e.push_back(par->configuration.cast<double>()); e.push_back(nodes[i]->configuration.cast<double>());
            judge(c, p, e, what);
        }
    }
    void histories(Src& s, pbt::Ctx& c)
    {
        PWorld p = world(s, c);
        auto& d = p.w.d;
        Plan x = planner(s, p);
        std::string h = show(d) + " " + std::to_string(p.w.rec->region.balls.size()) + " regions " + std::to_string(p.obs.size()) + " obstacles " + x.name + ":";
        PRNG64Bit().seed(s.draw(1000000));
        bool vis = s.chance(0.5);
        p.w.r->setUpdateVisualization(vis);
        bool so = false, go = false, huge = false;
        VX a, b;
        unsigned maxC = 50 + (unsigned)s.draw(400);
        x.p->setMaxCycles(maxC);
        x.p->setName("planner");
        c.check(x.p->getName() == "planner" && x.p->getCSpace() == p.w.cs && !x.p->isInitialized(), "access", "properties of the planner");
        c.check(!x.p->getSolution(), "early", "a solution before planning");
        int plans = 0, found = 0, n = 3 + (int)s.draw(9);
        bool last = false;
        for (int i = 0; i < n; i++)
        {
            int op = i == 0 ? 0 : i == 1 ? 1 : i == 2 ? 2 : (int)s.weighted({2, 2, 5, 0.5, 1, 0.7, 0.5});
            if (op == 0 || op == 1)
            {
                VX q = freeConfig(s, p);
                if (s.chance(0.1) && (op == 0 ? go : so)) q = op == 0 ? b : a;
                if (s.chance(0.1)) q = config(s, d);
                if (s.chance(0.07)) { int k = (int)s.draw(d.n()); q[k] = fl(d.hi[k] + s.uniform(0.01, 1)); }
                bool want = p.inside(q) && p.ok(q);
                bool res;
                try { res = op == 0 ? x.p->setStart(vf(q)) : x.p->setGoal(vf(q)); }
                catch (VirtualRobotException& e) { c.check(p.small, "throwSet", std::string("start or goal: ") + e.what()); return; }
                h += (op == 0 ? " start " : " goal ") + show(q) + (want ? "" : "!");
                c.describe(h);
                c.check(res == want, "accept", std::string(op == 0 ? "setStart" : "setGoal") + " returns " + std::to_string(res) + " for " + (want ? "a valid" : "an invalid") + " configuration");
                if (op == 0) { so = want; a = q; } else { go = want; b = q; }
                c.check(exact(q, op == 0 ? x.p->getStartConfig() : x.p->getGoalConfig()), "stored", "start or goal is not stored");
                c.check(x.p->isInitialized() == (so && go), "init", "isInitialized");
            }
            else if (op == 2)
            {
                h += " plan";
                c.describe(h);
                bool slow = s.chance(0.06);
                if (slow) { x.p->setMaxCycles(2000000000u); x.p->setPlanningTimeout((float)(20 + s.draw(30))); huge = true; }
                bool res = false, thrown = false;
                try { res = x.p->plan(true); }
                catch (VirtualRobotException& e)
                {
                    // the budget of nodes is exhausted
                    c.check(p.small, "throw", std::string("planning throws ") + e.what());
                    thrown = true;
                    c.label("no nodes left");
                    p.w.r->setUpdateVisualization(vis);
                }
                if (slow) { x.p->setMaxCycles(maxC); x.p->setPlanningTimeout(std::numeric_limits<float>::max()); }
                c.check(p.w.r->getUpdateVisualizationStatus() == vis, "vis", "visualisation update of the robot has changed");
                if (!so || !go) c.check(!res, "notReady", "planning without valid start and goal succeeds");
                else
                {
                    plans++;
                    c.check(slow || thrown || x.p->getNrOfCycles() <= maxC, "cycles", std::to_string(x.p->getNrOfCycles()) + " cycles");
                    c.check(x.p->getPlanningTimeMS() >= 0, "time", "negative planning time");
                    auto sol = x.p->getSolution();
                    c.check(res == (bool)sol, "solution", res ? "no solution although planning was successful" : "a solution although planning failed");
                    if (res)
                    {
                        found++;
                        auto pts = points(sol);
                        c.check(!pts.empty() && exact(a, sol->getPoint(0)), "start", "the solution starts at " + show(pts[0]) + " instead of " + show(a));
                        c.check(d.dist(pts.back(), b) <= p.tol(b), "goal", "the solution ends at " + show(pts.back()) + " instead of " + show(b));
                        judge(c, p, pts, "solution");
                        c.label(pts.size() > 2 ? "found" : "direct");
                    }
                    else c.label(slow ? "timeout" : "failed");
                    judgeTree(c, p, x.r->getTree(), a, "tree");
                    if (x.b) judgeTree(c, p, x.b->getTree2(), b, "second tree");
                }
                last = res;
            }
            else if (op == 3) { x.p->printConfig(s.chance(0.5)); }
            else if (op == 4) { maxC = 1 + (unsigned)s.draw(600); x.p->setMaxCycles(maxC); h += " cycles " + std::to_string(maxC); }
            else if (op == 5)
            {
                h += " reset";
                c.describe(h);
                x.p->reset();
                so = go = false;
                c.check(!x.p->isInitialized() && !x.p->getSolution() && x.r->getTree()->getNrOfNodes() == 0, "reset", "planner is not reset");
                // a start or a goal alone isn't enough
                if (!p.small && s.chance(0.5))
                {
                    if (s.chance(0.5)) { x.p->setStart(vf(freeConfig(s, p))); c.check(!x.p->isInitialized(), "reset-half", "initialized by a start only"); }
                    else { x.p->setGoal(vf(freeConfig(s, p))); c.check(!x.p->isInitialized(), "reset-half", "initialized by a goal only"); }
                }
                x.p->reset();
            }
            else { double f = s.uniform(20, 80); p.dcd = std::max(p.dcd, fl(p.diam / f)); p.w.cs->setSamplingSizeDCD((float)(p.diam / f)); }
        }
        (void)last; (void)huge;
        c.nontrivial(found > 0 && (p.region() || !p.obs.empty() || plans > 1));
    }

    // without anything forbidden the goal is reached
    void freeSpace(Src& s, pbt::Ctx& c)
    {
        PWorld p = world(s, c, true);
        Plan x = planner(s, p);
        VX a = config(s, p.w.d), b = s.chance(0.1) ? a : config(s, p.w.d);
        c.describe(show(p.w.d) + " " + x.name + " from " + show(a) + " to " + show(b));
        PRNG64Bit().seed(s.draw(1000000));
        x.p->setStart(vf(a));
        x.p->setGoal(vf(b));
        x.p->setMaxCycles(x.complete ? 1500 : 6000);
        if (!x.complete) { p.step = p.diam / 5; p.w.cs->setSamplingSize((float)p.step); }
        int k = 1 + (int)s.draw(2);
        for (int i = 0; i < k; i++)
        {
            bool res = x.p->plan(true);
            c.check(res || !x.complete, "reach", x.name + " does not reach the goal without obstacles (" + (i ? "planning again, " : "") + std::to_string(x.p->getNrOfCycles()) + " cycles)");
            if (!res) { c.label("not found"); return; }
            auto pts = points(x.p->getSolution());
            c.check(exact(a, x.p->getSolution()->getPoint(0)) && p.w.d.dist(pts.back(), b) <= p.tol(b), "ends", "start and goal of the solution");
            judge(c, p, pts, "solution");
        }
        c.nontrivial();
    }

    // planning in a thread
    bool wait(PlanningThread& t, int ms)
    {
        for (int i = 0; i < ms && t.isRunning(); i++) std::this_thread::sleep_for(std::chrono::milliseconds(1));
        return !t.isRunning();
    }
    void threads(Src& s, pbt::Ctx& c)
    {
        PWorld p = world(s, c);
        Plan x = planner(s, p);
        VX a = freeConfig(s, p), b = freeConfig(s, p);
        c.describe(show(p.w.d) + " " + x.name + " from " + show(a) + " to " + show(b));
        if ((a - b).norm() == 0 || !x.p->setStart(vf(a)) || !x.p->setGoal(vf(b))) c.discard();
        x.p->setMaxCycles(300);
        PlanningThread t(x.p);
        c.check(t.getPlanner() == x.p && !t.isRunning(), "idle", "new planning thread");
        t.interrupt(true);
        t.stop();
        int runs = 1 + (int)s.draw(3), stops = 0;
        for (int i = 0; i < runs; i++)
        {
            bool endless = i == 0 && s.chance(0.5);
            if (endless)
            {
                // nothing to be found: the goal is enclosed by a forbidden region
                Region g = p.w.rec->region;
                g.balls.assign(1, std::make_pair(b, 10.));
                RecordPtr no(new Record(g));
                x.p->setMaxCycles(2000000000u);
                x.p->setPlanningTimeout(std::numeric_limits<float>::max());
                // the sampler of valid configurations would never end
                if (x.b) { endless = false; x.p->setMaxCycles(300); }
                else p.w.cs->addConstraintCheck(no);
            }
            t.start();
            if (s.chance(0.3)) t.start();
            if (endless || s.chance(0.3))
            {
                if (s.chance(0.5)) std::this_thread::sleep_for(std::chrono::microseconds(s.draw(3000)));
                if (endless) c.check(t.isRunning(), "running", "thread is not running");
                if (s.chance(0.3)) t.interrupt(false);
                if (s.chance(0.5)) t.stop(); else t.interrupt(true);
                c.check(!t.isRunning(), "stopped", "thread is running after it was stopped");
                stops++;
            }
            else c.check(wait(t, 20000), "finish", "thread does not finish");
            auto sol = x.p->getSolution();
            if (endless) c.check(!sol, "endless", "a solution although nothing can be found");
            if (sol)
            {
                auto pts = points(sol);
                c.check(exact(a, sol->getPoint(0)) && p.w.d.dist(pts.back(), b) <= p.tol(b), "threadEnds", "start and goal of the solution");
                judge(c, p, pts, "solution");
                c.label("found");
            }
            if (endless) break;
        }
        c.nontrivial(stops > 0 || runs > 1);
    }
}

int main(int argc, char** argv)
{
    pbt::Suite suite;
    suite.property = "P24";
    suite.rule = "histories: a motion was found with something forbidden or by planning again; freeSpace: all; threads: stopped or started again";
    suite.add("histories", 9000, 40000, histories);
    suite.add("freeSpace", 4000, 60000, freeSpace);
    suite.add("threads", 1500, 20000, threads);
    return pbt::run(argc, argv, suite);
}
