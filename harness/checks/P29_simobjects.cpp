// libs: VirtualRobot SimDynamics
// P29: simulated objects: shapes, poses, free motion, contacts, engine registry
#include "common/shapes.h"
#include "common/geom.h"
#include <SimDynamics/DynamicsWorld.h>
#include <SimDynamics/DynamicsEngine/BulletEngine/BulletEngine.h>
#include <SimDynamics/DynamicsEngine/BulletEngine/BulletObject.h>
#include <SimDynamics/DynamicsEngine/BulletEngine/SimoxCollisionDispatcher.h>
#include <VirtualRobot/Obstacle.h>
#include <VirtualRobot/ManipulationObject.h>
#include <VirtualRobot/Primitive.h>
#include <VirtualRobot/CollisionDetection/CollisionModel.h>
#include <BulletCollision/CollisionShapes/btCompoundShape.h>
#include <set>
using namespace VirtualRobot;
using namespace SimDynamics;
using namespace gen;

namespace
{
    typedef SceneObject::Physics Ph;
    const double SF = 2; // bullet units per metre
    template<class... A> void ck(const pbt::Ctx& c, bool ok, const std::string& key, const char* f, A... a)
    {
        if (ok) return;
        char b[400];
        snprintf(b, sizeof b, f, a...);
        c.fail(key, b);
    }

    struct Part { Prim p; M4 at; }; // at: accumulated
    struct Thing
    {
        std::vector<Part> parts;   // primitives
        std::vector<Tri> tri;      // or a mesh
        double mass = 1, friction = -1;
        V3 com = V3::Zero();
        ObstaclePtr o;
        // support of the body's shape in its local frame
        double support(const V3& d) const
        {
            double best = -1e30;
            for (auto& x : parts)
            {
                V3 l = rotOf(x.at).transpose() * d;
                double h;
                if (x.p.kind == 0) h = (std::fabs(l(0)) * x.p.a + std::fabs(l(1)) * x.p.b + std::fabs(l(2)) * x.p.c) / 2;
                else if (x.p.kind == 1) h = x.p.a * l.norm();
                else h = std::hypot(l(0), l(2)) * x.p.a + std::fabs(l(1)) * x.p.b / 2;
                best = std::max(best, h + trans(x.at).dot(d));
            }
            for (auto& t : tri) for (auto& v : {t.a, t.b, t.c}) best = std::max(best, v.dot(d));
            return best;
        }
        double radius() const { double r = 0; for (int i = 0; i < 3; i++) for (int s = -1; s <= 1; s += 2) r = std::max(r, std::fabs(support(V3::Unit(i) * s))); return r * 1.8; }
    };
    Primitive::PrimitivePtr make(const Prim& p)
    {
        Primitive::PrimitivePtr r;
        if (p.kind == 0) r.reset(new Primitive::Box(p.a, p.b, p.c));
        else if (p.kind == 1) r.reset(new Primitive::Sphere(p.a));
        else r.reset(new Primitive::Cylinder(p.a, p.b));
        r->transform = f4(p.t);
        return r;
    }
    int counter = 0;
    void finish(Thing& t, VisualizationNodePtr v, const std::string& name, Ph::SimulationType st)
    {
        v->getTriMeshModel();
        CollisionModelPtr c(new CollisionModel(v->clone(true), name, CollisionCheckerPtr()));
        Ph ph;
        ph.massKg = (float)t.mass;
        ph.comLocation = Ph::eCustom;
        ph.localCoM = f3(t.com);
        ph.simType = st;
        ph.friction = (float)t.friction;
        t.o.reset(new Obstacle(name, v, c, ph));
        t.o->initialize();
    }
    // kind: 0 one primitive, 1 several primitives, 2 mesh
    Thing thing(Src& s, int kind, bool centred, Ph::SimulationType st = Ph::eDynamic)
    {
        Thing t;
        std::string name = "o" + std::to_string(counter++);
        t.mass = fl(s.uniform(0.1, 20));
        if (!centred && s.chance(0.7)) t.com = vec(s, 60);
        if (kind < 2)
        {
            int n = kind == 0 ? 1 : 2 + (int)s.draw(3);
            M4 at = M4::Identity();
            std::vector<Primitive::PrimitivePtr> ps;
            for (int i = 0; i < n; i++)
            {
                Prim p = prim(s);
                if (centred && i == 0) p.t = M4::Identity();
                at = at * p.t;
                t.parts.push_back({p, at});
                ps.push_back(make(p));
            }
            finish(t, VisualizationFactory::first(nullptr)->getVisualizationFromPrimitives(ps), name, st);
        }
        else
        {
            t.tri = shape(s).local; if (t.tri.size() < 6) t.tri = shape(s, 0).local; // flat meshes have no hull
            Eigen::Matrix4f I = Eigen::Matrix4f::Identity();
            finish(t, VisualizationFactory::first(nullptr)->createTriMeshModelVisualization(mesh(t.tri), I), name, st);
        }
        return t;
    }
    Thing boxThing(Src& s, double a, double b, double c, double mass, double friction, Ph::SimulationType st = Ph::eDynamic)
    {
        Thing t;
        Prim p; p.kind = 0; p.a = fl(a); p.b = fl(b); p.c = fl(c); p.t = M4::Identity();
        t.parts.push_back({p, M4::Identity()});
        t.mass = fl(mass);
        t.friction = fl(friction);
        finish(t, VisualizationFactory::first(nullptr)->getVisualizationFromPrimitives({make(p)}), "b" + std::to_string(counter++), st);
        return t;
    }
    BulletObjectPtr bo(const DynamicsObjectPtr& o) { return boost::dynamic_pointer_cast<BulletObject>(o); }
    BulletObjectPtr wrap(const Thing& t) { return bo(DynamicsWorld::CreateDynamicsObject(t.o)); }
    M4 bodyPose(const BulletObjectPtr& o)
    {
        btTransform t = o->getRigidBody()->getWorldTransform();
        M4 m = M4::Identity();
        for (int a = 0; a < 3; a++)
        {
            for (int b = 0; b < 3; b++) m(a, b) = t.getBasis()[a][b];
            m(a, 3) = t.getOrigin()[a] * 1000 / SF;
        }
        return m;
    }
    M4 shift(const V3& v) { return mk(M3::Identity(), v); }
    BulletEnginePtr engine(const BulletEngineConfigPtr& c = BulletEngineConfigPtr())
    {
        BulletEnginePtr e(new BulletEngine());
        e->init(DynamicsEngineConfigPtr(c));
        return e;
    }
    BulletEngineConfigPtr config(const V3& g, double lin, double ang)
    {
        BulletEngineConfigPtr c(new BulletEngineConfig());
        c->gravity = f3(g);
        c->bulletObjectDampingLinear = lin;
        c->bulletObjectDampingAngular = ang;
        c->bulletObjectDeactivation = 1e6;
        c->bulletObjectSleepingThresholdLinear = 0;
        c->bulletObjectSleepingThresholdAngular = 0;
        return c;
    }

    // ---------------------------------------------------------------- conversions
    void conversions(Src& s, pbt::Ctx& c)
    {
        M4 p = fl4(pose(s, s.chance(0.5) ? 1000 : 5));
        V3 v = vec(s, 2000);
        c.nontrivial(trans(p).norm() > 0);
        c.describe(std::string("pose ") + num(trans(p).norm()));
        for (bool sc : {true, false})
        {
            double k = sc ? SF / 1000 : 1;
            btTransform b = BulletEngine::getPoseBullet(f4(p), sc);
            for (int i = 0; i < 3; i++)
            {
                c.near(b.getOrigin()[i], p(i, 3) * k, 1e-5 * (1 + std::fabs(p(i, 3) * k)), "pose", "translation for Bullet");
                for (int j = 0; j < 3; j++) c.near(b.getBasis()[i][j], p(i, j), 1e-5, "pose", "rotation for Bullet");
            }
            samePose(c, BulletEngine::getPoseEigen(b, sc), p, 1e-3 * (1 + trans(p).norm() * 1e-3), 1e-5, "poseback", "pose through Bullet and back");
            btVector3 w = BulletEngine::getVecBullet(f3(v), sc);
            for (int i = 0; i < 3; i++) c.near(w[i], v(i) * k, 1e-5 * (1 + std::fabs(v(i) * k)), "vec", "vector for Bullet");
            sameVec(c, d3(BulletEngine::getVecEigen(w, sc)), v, 1e-5 * (1 + v.norm()) * 10, "vecback", "vector through Bullet and back");
        }
        btMatrix3x3 r = BulletEngine::getRotMatrix(f4(p));
        samePose(c, BulletEngine::getRotMatrix(r), mk(rotOf(p), V3::Zero()), 1e-6, 1e-5, "rot", "rotation through Bullet and back");
    }

    // ---------------------------------------------------------------- enabled and disabled collisions
    void collisions(Src& s, pbt::Ctx& c)
    {
        static std::vector<BulletObjectPtr> pool;
        if (pool.empty())
            for (int i = 0; i < 5; i++)
            {
                ObstaclePtr o = Obstacle::createBox(10, 10, 10);
                pool.push_back(bo(DynamicsWorld::CreateDynamicsObject(o)));
            }
        auto e = engine();
        btDefaultCollisionConfiguration cc;
        SimoxCollisionDispatcher disp(e.get(), &cc);
        for (auto& o : pool) e->addObject(o);
        std::set<int> off;
        std::set<std::pair<int, int>> pairs;
        auto key = [](int a, int b) { return std::make_pair(std::min(a, b), std::max(a, b)); };
        int n = 1 + (int)s.draw(14);
        std::string log;
        bool hit = false;
        for (int k = 0; k < n; k++)
        {
            int op = (int)s.draw(6), a = (int)s.draw(5), b = (int)s.draw(5);
            log += " " + std::to_string(op) + ":" + std::to_string(a) + (op < 3 ? "," + std::to_string(b) : "");
            if (op < 2) { e->disableCollision(pool[a].get(), pool[b].get()); pairs.insert(key(a, b)); }
            else if (op == 2) { e->enableCollision(pool[a].get(), pool[b].get()); hit = pairs.erase(key(a, b)) || hit; }
            else if (op == 3) { e->disableCollision(pool[a].get()); off.insert(a); }
            else if (op == 4) { e->enableCollision(pool[a].get()); hit = off.erase(a) || hit; }
            else
            {
                e->resetCollisions(pool[a].get());
                off.erase(a);
                for (auto it = pairs.begin(); it != pairs.end();) if (it->first == a || it->second == a) it = pairs.erase(it); else ++it;
            }
            c.describe("ops " + log);
            for (int i = 0; i < 5; i++)
            {
                ck(c, e->checkCollisionEnabled(pool[i].get()) == !off.count(i), "single", "collisions of object %d after%s", i, log.c_str());
                for (int j = 0; j < 5; j++)
                {
                    bool want = !off.count(i) && !off.count(j) && !pairs.count(key(i, j));
                    ck(c, e->checkCollisionEnabled(pool[i].get(), pool[j].get()) == want, "pair", "collisions of %d with %d (want %d) after%s", i, j, (int)want, log.c_str());
                    if (i == j) continue;
                    auto& A = *pool[i]->getRigidBody();
                    auto& B = *pool[j]->getRigidBody();
                    ck(c, disp.needsCollision(&A, &B) == want, "dispatch", "Bullet asks for collisions of %d with %d (want %d) after%s", i, j, (int)want, log.c_str());
                    ck(c, disp.needsResponse(&A, &B) == want, "dispatch", "Bullet asks for responses of %d with %d (want %d) after%s", i, j, (int)want, log.c_str());
                }
            }
        }
        c.check(e->checkCollisionEnabled(nullptr, pool[0].get()), "null", "no object: collisions enabled");
        c.nontrivial(hit || !off.empty() || !pairs.empty());
        for (auto& o : pool) e->removeObject(o);
    }

    // ---------------------------------------------------------------- shapes
    double bodySupport(const btCollisionShape* sh, const btTransform& at, const btVector3& dir)
    {
        if (sh->getShapeType() == COMPOUND_SHAPE_PROXYTYPE)
        {
            auto* k = static_cast<const btCompoundShape*>(sh);
            double best = -1e30;
            for (int i = 0; i < k->getNumChildShapes(); i++) best = std::max(best, bodySupport(k->getChildShape(i), at * k->getChildTransform(i), dir));
            return best;
        }
        auto* v = static_cast<const btConvexShape*>(sh);
        btVector3 l = at.getBasis().transpose() * dir;
        return (at * v->localGetSupportingVertex(l)).dot(dir);
    }
    void shapes(Src& s, pbt::Ctx& c)
    {
        int kind = (int)s.draw(3);
        Thing t = thing(s, kind, false);
        c.label(kind == 0 ? "one primitive" : kind == 1 ? "several primitives" : "mesh");
        M4 p = fl4(pose(s, 500));
        t.o->setGlobalPose(f4(p));
        auto b = wrap(t);
        c.describe("object " + std::to_string(t.parts.size()) + " primitives" + (t.parts.empty() ? "" : ", first kind " + std::to_string(t.parts[0].p.kind)) + ", com " + num(t.com.norm()));
        c.nontrivial(t.com.norm() > 0 || t.parts.size() > 1);
        sameVec(c, d3(t.o->getCoMLocal()), t.com, 1e-2, "com", "local CoM of the object");
        sameVec(c, d3(b->getCom()), t.com, 1e-2, "com", "CoM of the simulated object");
        M4 body = bodyPose(b);
        c.check(posDist(body, p * shift(t.com)) < 1e-2 && rotDist(body, p) < 1e-4, "bodypose", "Bullet body isn't at the centre of mass");
        double ext = t.radius();
        for (int i = 0; i < 14; i++)
        {
            V3 d = i < 6 ? V3(V3::Unit(i / 2) * (i % 2 ? -1 : 1)) : unit(s);
            if (i < 6 && kind < 2) d = rotOf(p) * rotOf(t.parts[0].at) * d; // along the axes of the first primitive
            btVector3 bd(d(0), d(1), d(2));
            double got = bodySupport(b->getRigidBody()->getCollisionShape(), b->getRigidBody()->getWorldTransform(), bd) * 1000 / SF;
            double want = trans(p).dot(d) + t.support(rotOf(p).transpose() * d);
            if (kind < 2)
            {
                // the edges of Bullet's cylinders are rounded by its margin
                double r = 0;
                for (auto& x : t.parts) if (x.p.kind == 2 && !(kind == 0 && i < 6)) r = std::max(r, 0.42 * std::min(20.0, std::min(x.p.a, x.p.b / 2)));
                ck(c, got <= want + 0.2 + 1e-4 * ext && got >= want - r - 0.2 - 1e-4 * ext, "shape", "extent of the simulated shape in a direction is %g instead of %g", got, want);
            }
            else
            {
                ck(c, got <= want + 0.5 + 1e-3 * ext, "hull", "simulated hull sticks out: %g > %g", got, want);
                ck(c, got >= want - 0.25 * ext - 0.5, "hull", "simulated hull too small: %g < %g", got, want);
            }
        }
        double mass = b->getRigidBody()->getInvMass() > 0 ? 1 / b->getRigidBody()->getInvMass() : 0;
        c.near(mass, t.mass * BulletObject::MassFactor, 1e-3 * t.mass, "mass", "mass of the body");
    }

    // ---------------------------------------------------------------- poses
    void poses(Src& s, pbt::Ctx& c)
    {
        auto type = s.pick(std::vector<Ph::SimulationType>{Ph::eDynamic, Ph::eDynamic, Ph::eKinematic, Ph::eUnknown});
        Thing t = thing(s, (int)s.draw(3), false, type);
        M4 p = fl4(pose(s, 500));
        t.o->setGlobalPose(f4(p));
        auto b = wrap(t);
        auto e = engine(config(V3::Zero(), 0, 0));
        bool in = s.chance(0.5);
        if (in) e->addObject(b);
        std::string log;
        int n = 1 + (int)s.draw(6);
        bool turned = false;
        for (int k = 0; k < n; k++)
        {
            int op = (int)s.draw(5);
            if (op < 2) { M4 q = fl4(pose(s, 500)); turned = turned || rotDist(q, p) > 0.1; p = q; b->setPose(f4(p)); log += " pose"; }
            else if (op == 2) { p.block<3, 1>(0, 3) = vec(s, 500); b->setPosition(f3(trans(p))); log += " position"; }
            else if (op == 3)
            {
                type = s.pick(std::vector<Ph::SimulationType>{Ph::eDynamic, Ph::eKinematic, Ph::eStatic});
                b->setSimType(type);
                log += " type" + std::to_string((int)type);
                // a kinematic object that became dynamic keeps the speed it was moved with
                b->setLinearVelocity(Eigen::Vector3f::Zero());
                b->setAngularVelocity(Eigen::Vector3f::Zero());
                c.check(b->getSimType() == type, "simtype", "simulation type set");
                double mass = b->getRigidBody()->getInvMass() > 0 ? 1 / b->getRigidBody()->getInvMass() : 0;
                c.near(mass, type == Ph::eDynamic ? t.mass * BulletObject::MassFactor : 0, 1e-3 * t.mass, "mass", "mass of the body after" + log);
                bool st = b->getRigidBody()->isStaticObject(), ki = b->getRigidBody()->isKinematicObject();
                c.check(st == (type == Ph::eStatic) && ki == (type == Ph::eKinematic), "simtype", "Bullet's kind of body after" + log);
                if (type == Ph::eStatic) break; // static objects are not to be moved
            }
            else if (in) { int m = 1 + (int)s.draw(3); for (int i = 0; i < m; i++) e->stepSimulation(0.01, 1, 0.01); log += " steps"; }
            c.describe("ops " + log);
            double tol = 0.02;
            samePose(c, t.o->getGlobalPose(), p, tol, 1e-3, "scenepose", "pose of the object after" + log);
            M4 body = bodyPose(b);
            ck(c, posDist(body, p * shift(t.com)) < tol && rotDist(body, p) < 1e-3, "bodypose", "Bullet body is off by %g mm, %g rad after%s", posDist(body, p * shift(t.com)), rotDist(body, p), log.c_str());
            samePose(c, b->getComGlobal(), p * shift(t.com), tol, 1e-3, "compose", "pose of the CoM after" + log);
        }
        c.nontrivial(turned && t.com.norm() > 0);
        if (in) e->removeObject(b);
    }

    // ---------------------------------------------------------------- free motion
    void motion(Src& s, pbt::Ctx& c)
    {
        V3 g = s.chance(0.5) ? V3(0, 0, -9.81) : vec(s, 12);
        double lin = s.chance(0.4) ? 0 : fl(s.uniform(0, 0.5)), ang = s.chance(0.4) ? 0 : fl(s.uniform(0, 0.9));
        double dt = s.pick(std::vector<double>{0.001, 0.002, 0.005});
        auto cfg = config(g, lin, ang);
        auto e = engine(cfg);
        if (s.chance(0.3))
        {
            // another configuration while running
            auto c0 = config(vec(s, 12), 0.3, 0.2);
            e = engine(c0);
        }
        Thing t = thing(s, (int)s.draw(3), false);
        // a cube or a sphere turns steadily
        bool steady = s.chance(0.5);
        if (steady) { t = thing(s, 0, true); if (t.parts[0].p.kind != 1) { t = boxThing(s, 50, 50, 50, t.mass, -1); } }
        M4 p = fl4(pose(s, 500));
        t.o->setGlobalPose(f4(p));
        auto b = wrap(t);
        e->addObject(b);
        e->updateConfig(cfg);
        b->activate();
        V3 w = s.chance(0.6) ? vec(s, 2) : V3::Zero();
        b->setAngularVelocity(f3(w));
        sameVec(c, d3(b->getAngularVelocity()), w, 1e-5, "angvel", "angular velocity set");
        V3 x0 = trans(p * shift(t.com));
        int steps = 20 + (int)s.draw(180);
        int calls = 0;
        double time = 0;
        struct D { int* n; double* t; } data{&calls, &time};
        e->addExternalCallback([](void* d, btScalar h) { auto* k = static_cast<D*>(d); ++*k->n; *k->t += h; }, &data);
        int group = 1 + (int)s.draw(3);
        for (int i = 0; i < steps; i++) e->stepSimulation(dt * group, group, dt);
        double T = steps * group * dt;
        c.describe("T " + num(T) + " dt " + num(dt) + " damping " + num(lin) + "/" + num(ang) + " com " + num(t.com.norm()) + " turning " + num(w.norm()));
        c.nontrivial(w.norm() > 0 || lin > 0);
        c.near(e->getSimTime(), T, 1e-6 * (1 + T) + 1e-6, "time", "simulated time");
        ck(c, std::abs(calls - steps * group) <= 1, "callbacks", "%d callbacks in %d steps", calls, steps * group);
        c.near(time, T, dt * 1.5, "callbacks", "sum of the callbacks' time steps");
        // Bullet may leave the last step for the next call
        double k = lin > 0 ? -std::log(1 - lin) : 0;
        auto dist = [&](double T) { return k > 0 ? (T / k - (1 - std::exp(-k * T)) / (k * k)) : T * T / 2; };
        V3 want = x0 + 1000 * g * dist(T);
        M4 now = d4(t.o->getGlobalPose());
        V3 com = trans(now * shift(t.com));
        double tol = 1 + 1000 * g.norm() * (2.5 * T * dt) + 2e-3 * (want - x0).norm();
        ck(c, (com - want).norm() <= tol, "fall", "centre of mass is %g mm away from the closed form (tolerance %g, distance %g)", (com - want).norm(), tol, (want - x0).norm());
        sameVec(c, trans(d4(b->getComGlobal())), com, 0.05, "compose", "CoM of body and object");
        V3 v = d3(b->getLinearVelocity());
        V3 vw = 1000 * g * (k > 0 ? (1 - std::exp(-k * T)) / k : T);
        ck(c, (v - vw).norm() <= 1 + 1000 * g.norm() * 2.5 * dt + 2e-3 * vw.norm(), "velocity", "linear velocity %g instead of %g mm/s", v.norm(), vw.norm());
        if (steady)
        {
            double ka = ang > 0 ? -std::log(1 - ang) : 0;
            V3 ww = w * (ka > 0 ? std::exp(-ka * T) : 1);
            sameVec(c, d3(b->getAngularVelocity()), ww, 0.01 + 0.02 * ww.norm(), "spin", "angular velocity of a freely turning cube or sphere");
            double phi = w.norm() * (ka > 0 ? (1 - std::exp(-ka * T)) / ka : T);
            M3 R = phi > 0 ? M3(Eigen::AngleAxisd(phi, w.normalized()).matrix() * rotOf(p)) : rotOf(p);
            ck(c, rotAngle(rotOf(now), R) < 0.01 + 0.02 * phi + 2 * w.norm() * dt, "spin", "orientation is off by %g rad after turning %g", rotAngle(rotOf(now), R), phi);
        }
        e->removeObject(b);
    }

    // ---------------------------------------------------------------- floor
    void ground(Src& s, pbt::Ctx& c)
    {
        int axis = (int)s.draw(3), sign = s.chance(0.5) ? 1 : -1;
        V3 up = V3::Unit(axis) * sign;
        V3 pos = s.chance(0.3) ? V3::Zero() : vec(s, 800);
        double ff = s.chance(0.4) ? 0 : fl(s.uniform(0.1, 1));
        auto cfg = config(-9.81 * up, 0.05, 0.85);
        auto e = engine(cfg);
        c.describe("up " + std::to_string(sign * (axis + 1)) + " at " + num(pos(axis)));
        c.nontrivial(pos.norm() > 0 || axis != 2);
        e->createFloorPlane(f3(pos), f3(up), (float)ff);
        Eigen::Vector3f fp, fu;
        double fe, fd;
        e->getFloorInfo(fp, fu, fe, fd);
        c.check((d3(fp) - pos).norm() < 1e-3 && (d3(fu) - up).norm() < 1e-6, "floorinfo", "floor info");
        c.check(e->getFloor() && e->getObjects().size() == 1 && e->getFloor() == e->getObjects()[0], "floorobject", "floor is registered");
        double a = s.uniform(40, 150), b = s.uniform(40, 150), h = s.uniform(40, 100);
        double of = s.chance(0.4) ? -1 : fl(s.uniform(0.1, 1));
        V3 dim; dim(axis) = h; dim((axis + 1) % 3) = a; dim((axis + 2) % 3) = b;
        Thing t = boxThing(s, dim(0), dim(1), dim(2), s.uniform(0.2, 10), of);
        V3 at = pos + up * (h / 2 + s.uniform(0.5, 30));
        at((axis + 1) % 3) += s.uniform(-500, 500);
        at((axis + 2) % 3) += s.uniform(-500, 500);
        double yaw = s.uniform(-3, 3);
        M3 R = Eigen::AngleAxisd(yaw, V3::Unit(axis)).matrix();
        t.o->setGlobalPose(f4(mk(R, at)));
        auto o = wrap(t);
        e->addObject(o);
        if (s.chance(0.5)) e->updateConfig(cfg);
        c.near(o->getRigidBody()->getFriction(), of > 0 ? of : 0.5, 1e-5, "friction", "friction of the object");
        c.near(bo(e->getFloor())->getRigidBody()->getFriction(), ff > 0 ? ff : 0.5, 1e-5, "friction", "friction of the floor");
        for (int i = 0; i < 300; i++) e->stepSimulation(0.005, 1, 0.005);
        M4 p = d4(t.o->getGlobalPose());
        double height = (trans(p) - pos).dot(up);
        ck(c, std::fabs(height - h / 2) < 2, "rest", "box of height %g rests at %g above the floor", h, height);
        c.check(rotAngle(rotOf(p), R) < 0.1, "rest", "box turned by " + num(rotAngle(rotOf(p), R)));
        c.check(d3(o->getLinearVelocity()).norm() < 100, "rest", "box still moves at " + num(d3(o->getLinearVelocity()).norm()) + " mm/s");
        auto con = e->getContacts();
        for (int i = 0; i < 40 && con.empty(); i++)
        {
            // an object that touches exactly may have no contact in some of the steps
            e->stepSimulation(0.005, 1, 0.005);
            con = e->getContacts();
        }
        c.check(!con.empty(), "contacts", "no contact reported");
        double lo = 1e9, hi = -1e9;
        V3 lateral = V3::Ones() - up.cwiseAbs();
        for (auto& k : con)
        {
            bool named = (k.objectAName == "Floor" && k.objectBName == t.o->getName()) || (k.objectBName == "Floor" && k.objectAName == t.o->getName());
            c.check(named, "contacts", "contact between " + k.objectAName + " and " + k.objectBName);
            c.check(std::fabs(std::fabs(d3(k.normalGlobalB).dot(up)) - 1) < 0.01, "contacts", "contact normal isn't the floor's");
            double toB = k.objectBName == "Floor" ? 1 : -1;
            c.check(d3(k.normalGlobalB).dot(up) * toB > 0, "contacts", "normal on B points away from A");
            for (auto& q : {k.posGlobalA, k.posGlobalB})
            {
                c.check(std::fabs((d3(q) - pos).dot(up)) < 4, "contacts", "contact point off the floor's surface: " + num((d3(q) - pos).dot(up)));
                V3 l = rotOf(p).transpose() * (d3(q) - trans(p));
                c.check((l.cwiseAbs() - dim / 2).maxCoeff() < 5, "contacts", "contact point outside of the box");
                double x = l((axis + 1) % 3);
                lo = std::min(lo, x); hi = std::max(hi, x);
            }
            c.near(k.combinedFriction, o->getRigidBody()->getFriction() * bo(e->getFloor())->getRigidBody()->getFriction(), 1e-3, "contacts", "combined friction");
        }
        c.check(lo < 0 && hi > 0, "contacts", "contacts on one side of the box only");
        e->cleanup();
    }

    // ---------------------------------------------------------------- pushing through
    void filtered(Src& s, pbt::Ctx& c)
    {
        // an object falls on a static one; without collisions it falls through
        bool off = s.chance(0.5);
        auto e = engine(config(V3(0, 0, -9.81), 0, 0.85));
        double h1 = s.uniform(30, 100), h2 = s.uniform(30, 100);
        bool kin = s.chance(0.3);
        Thing base = boxThing(s, 400, 400, h1, 1, -1, kin ? Ph::eKinematic : Ph::eStatic), box = boxThing(s, s.uniform(40, 150), s.uniform(40, 150), h2, s.uniform(0.2, 8), -1);
        V3 at = vec(s, 300);
        double gap = s.uniform(1, 30);
        base.o->setGlobalPose(f4(shift(at)));
        V3 x0 = at + V3(0, 0, h1 / 2 + h2 / 2 + gap);
        box.o->setGlobalPose(f4(shift(x0)));
        auto A = wrap(base), B = wrap(box);
        bool single = s.chance(0.5), which = s.chance(0.5), before = s.chance(0.5);
        auto disable = [&]
        {
            if (!off) return;
            if (single) e->disableCollision(which ? A.get() : B.get());
            else if (which) e->disableCollision(A.get(), B.get());
            else e->disableCollision(B.get(), A.get());
        };
        if (before) disable();
        e->addObject(A);
        e->addObject(B);
        if (!before) disable();
        bool undone = off && s.chance(0.3);
        if (undone)
        {
            if (s.chance(0.5)) e->resetCollisions(single ? (which ? A.get() : B.get()) : A.get());
            else if (single) e->enableCollision(which ? A.get() : B.get());
            else e->enableCollision(A.get(), B.get());
        }
        c.label(off && !undone ? "falls through" : "is held");
        c.describe("setting " + std::string(off ? "disabled " : "") + (single ? "single " : "") + (undone ? "undone " : "") + "gap " + num(gap));
        c.nontrivial(off);
        int n = 200;
        for (int i = 0; i < n; i++) e->stepSimulation(0.005, 1, 0.005);
        V3 x = trans(d4(box.o->getGlobalPose()));
        samePose(c, base.o->getGlobalPose(), shift(at), 1e-2, 1e-4, "fixed", "static or kinematic object");
        if (off && !undone)
        {
            double T = n * 0.005;
            ck(c, std::fabs(x(2) - (x0(2) - 1000 * 9.81 * T * T / 2)) < 130, "through", "object without collisions is at %g instead of %g", x(2), x0(2) - 1000 * 9.81 * T * T / 2);
            c.check(e->getContacts().empty(), "through", "contacts although collisions are disabled");
        }
        else
        {
            ck(c, std::fabs(x(2) - (x0(2) - gap)) < 2, "held", "object rests at %g instead of %g", x(2), x0(2) - gap);
            bool touches = !e->getContacts().empty();
            for (int i = 0; i < 40 && !touches; i++) { e->stepSimulation(0.005, 1, 0.005); touches = !e->getContacts().empty(); }
            c.check(touches, "held", "no contacts reported");
        }
        e->removeObject(A);
        e->removeObject(B);
    }

    // ---------------------------------------------------------------- registry
    void registry(Src& s, pbt::Ctx& c)
    {
        V3 g = vec(s, 10);
        auto e = engine(config(g, 0, 0));
        sameVec(c, d3(e->getGravity()), g, 1e-6, "gravity", "gravity of the engine");
        std::vector<BulletObjectPtr> pool;
        std::vector<bool> in(4, false);
        for (int i = 0; i < 4; i++)
        {
            ObstaclePtr o = Obstacle::createBox(10, 10, 10);
            o->setName(i < 3 ? "obj" + std::to_string(i) : "obj0"); // a name twice
            o->setSimulationType(Ph::eStatic);
            o->setGlobalPose(f4(shift(V3(100.0 * i, 0, 0))));
            pool.push_back(bo(DynamicsWorld::CreateDynamicsObject(o)));
        }
        std::vector<int> order;
        std::string log;
        int n = 1 + (int)s.draw(10);
        bool dup = false;
        for (int k = 0; k < n; k++)
        {
            int i = (int)s.draw(4);
            if (s.chance(0.6))
            {
                log += " add" + std::to_string(i);
                dup = dup || in[i];
                c.check(e->addObject(pool[i]), "add", "addObject failed after" + log);
                if (!in[i]) order.push_back(i);
                in[i] = true;
            }
            else
            {
                log += " remove" + std::to_string(i);
                dup = dup || !in[i];
                c.check(e->removeObject(pool[i]) == in[i], "remove", "result of removeObject after" + log);
                if (in[i]) order.erase(std::find(order.begin(), order.end(), i));
                in[i] = false;
            }
            c.describe("ops " + log);
            auto obj = e->getObjects();
            bool same = obj.size() == order.size();
            for (size_t j = 0; same && j < obj.size(); j++) same = obj[j] == pool[order[j]];
            c.check(same, "objects", "registered objects after" + log);
            ck(c, e->getBulletWorld()->getNumCollisionObjects() == (int)order.size(), "bodies", "%d bodies in Bullet's world instead of %d after%s", e->getBulletWorld()->getNumCollisionObjects(), (int)order.size(), log.c_str());
            for (int j = 0; j < 3; j++)
            {
                DynamicsObjectPtr want;
                for (int q : order) if (pool[q]->getName() == "obj" + std::to_string(j)) { want = pool[q]; break; }
                c.check(e->getObject("obj" + std::to_string(j)) == want, "byname", "object by name after" + log);
            }
            c.check(!e->getObject("other"), "byname", "object of an unknown name");
            if (s.chance(0.3)) e->stepSimulation(0.01, 1, 0.01);
        }
        c.nontrivial(dup || order.size() > 1);
        e->cleanup();
        c.check(e->getObjects().empty(), "cleanup", "objects left after cleanup");
    }
}

int main(int argc, char** argv)
{
    pbt::Suite u;
    u.property = "P29";
    u.rule = "poses off the origin; histories that change something; bodies with an offset centre of mass, several parts or turning motion; floors off the origin; disabled collisions; repeated registrations";
    u.add("conversions", 8000, 100000, conversions);
    u.add("collisions", 3500, 40000, collisions);
    u.add("shapes", 3500, 40000, shapes);
    u.add("poses", 3500, 40000, poses);
    u.add("motion", 600, 6000, motion);
    u.add("ground", 260, 2500, ground);
    u.add("filtered", 350, 3000, filtered);
    u.add("registry", 1500, 20000, registry);
    return pbt::run(argc, argv, u);
}
