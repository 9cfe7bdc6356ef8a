// libs: VirtualRobot
// P08: blended paths and time-optimal trajectories along them
#include "common/gen.h"
#include <VirtualRobot/TimeOptimalTrajectory/TimeOptimalTrajectory.h>
#include <VirtualRobot/TimeOptimalTrajectory/Path.h>
#include <list>
#include <memory>
using namespace gen;

namespace
{
    typedef Eigen::VectorXd V;
    struct Case
    {
        std::vector<V> w;
        int dim;
        double dev, scale;
        std::string txt() const { std::string r = "dim " + std::to_string(dim) + " deviation " + num(dev) + " waypoints"; for (auto& x : w) r += " " + str(x.transpose()); return r; }
    };
    // waypoints with moderate turns; consecutive waypoints differ
    Case waypoints(Src& s, int maxN, bool straight = false)
    {
        Case c;
        c.dim = (int)s.integer(1, 5);
        if (c.dim == 1) straight = true;
        static const double sc[] = {1, 1, 0.1, 10, 100};
        c.scale = sc[s.draw(5)];
        int n = (int)s.integer(2, maxN);
        V p(c.dim);
        for (int i = 0; i < c.dim; i++) p(i) = c.scale * s.real(-2, 2);
        c.w.push_back(p);
        V dir;
        for (int k = 1; k < n; k++)
        {
            V d(c.dim);
            if (straight && k > 1) d = dir;
            else
            {
                for (int i = 0; i < c.dim; i++) d(i) = s.chance(0.2) ? 0 : s.uniform(-1, 1);
                if (d.norm() < 0.05) { d.setZero(); d(s.draw(c.dim)) = s.chance(0.5) ? -1 : 1; }
                d.normalize();
                if (k > 1 && d.dot(dir) < -0.9) { d = -d; }
            }
            dir = d;
            c.w.push_back(c.w.back() + d * c.scale * s.uniform(0.1, 2));
        }
        c.dev = c.scale * s.uniform(0.01, 0.5);
        return c;
    }
    std::list<V> lst(const std::vector<V>& w) { return std::list<V>(w.begin(), w.end()); }
    double distToPolyline(const std::vector<V>& w, const V& p)
    {
        double best = 1e300;
        for (size_t i = 1; i < w.size(); i++)
        {
            V d = w[i] - w[i - 1];
            double t = d.squaredNorm() > 0 ? std::max(0.0, std::min(1.0, (p - w[i - 1]).dot(d) / d.squaredNorm())) : 0;
            best = std::min(best, (p - w[i - 1] - t * d).norm());
        }
        return best;
    }
    void path(Src& s, pbt::Ctx& c)
    {
        Case w = waypoints(s, 6);
        bool blend = !s.chance(0.2);
        double dev = blend ? w.dev : 0;
        if (s.chance(0.1)) w.w.insert(w.w.begin() + 1, 0.5 * (w.w[0] + w.w[1])); // collinear waypoint
        c.describe(w.txt() + (blend ? "" : " no blending"));
        c.nontrivial(w.w.size() > 2);
        VirtualRobot::Path p0(lst(w.w), dev);
        std::unique_ptr<VirtualRobot::Path> cp(new VirtualRobot::Path(p0));
        const VirtualRobot::Path& p = s.chance(0.5) ? p0 : *cp;
        double L = p.getLength(), poly = 0, S = w.scale, tol = 2e-6 * S;
        for (size_t i = 1; i < w.w.size(); i++) poly += (w.w[i] - w.w[i - 1]).norm();
        c.check(L > 0 && L <= poly + tol, "length", "length " + num(L) + " of the path, " + num(poly) + " of the waypoints");
        if (!blend) c.near(L, poly, tol, "lengthExact", "length without blending");
        c.check((p.getConfig(0) - w.w.front()).norm() < tol, "start", "path starts at " + str(p.getConfig(0).transpose()));
        c.check((p.getConfig(L) - w.w.back()).norm() < tol, "end", "path ends at " + str(p.getConfig(L).transpose()));
        // every waypoint is passed within the deviation, and the path stays near the waypoints' polyline
        int n = 400;
        std::vector<double> near(w.w.size(), 1e300);
        double h = L / n;
        for (int i = 0; i <= n; i++)
        {
            double q = h * i;
            V x = p.getConfig(q);
            c.check(x.allFinite(), "finite", "position at " + num(q) + " is " + str(x.transpose()));
            double d = distToPolyline(w.w, x);
            c.check(d <= dev + tol, "deviation", "position at " + num(q) + " is " + num(d) + " from the waypoints' polyline, allowed " + num(dev));
            for (size_t k = 0; k < w.w.size(); k++) near[k] = std::min(near[k], (x - w.w[k]).norm());
            if (i < n)
            {
                V y = p.getConfig(q + h);
                c.check((y - x).norm() <= h + tol, "speed", "path of length parameter moves " + num((y - x).norm()) + " in " + num(h));
            }
        }
        for (size_t k = 0; k < w.w.size(); k++) c.check(near[k] <= dev + h + tol, "waypoint", "waypoint " + std::to_string(k) + " is missed by " + num(near[k]) + ", allowed " + num(dev));
        // tangent and curvature are the derivatives (away from the joints of segments)
        auto sp = p.getSwitchingPoints();
        double prev = -1;
        for (auto& x : sp) { c.check(x.first >= prev && x.first >= 0 && x.first <= L, "switchOrder", "switching points are not sorted within the path"); prev = x.first; }
        for (int k = 0; k < 10; k++)
        {
            double q = s.uniform(0.01, 0.99) * L, e = 1e-5 * S;
            bool near2 = false;
            for (auto& x : sp) near2 |= fabs(x.first - q) < 3 * e;
            if (near2) continue;
            V t = p.getTangent(q), fd = (p.getConfig(q + e) - p.getConfig(q - e)) / (2 * e);
            c.check(fabs(t.norm() - 1) < 1e-6, "tangentUnit", "tangent of length " + num(t.norm()));
            c.check((t - fd).norm() < 1e-4, "tangent", "tangent " + str(t.transpose()) + " but the path moves along " + str(fd.transpose()) + " at " + num(q));
            V k2 = p.getCurvature(q), fk = (p.getTangent(q + e) - p.getTangent(q - e)) / (2 * e);
            c.check((k2 - fk).norm() <= 1e-3 * (k2.norm() + 1 / S), "curvature", "curvature " + str(k2.transpose()) + " but the tangent changes by " + str(fk.transpose()) + " at " + num(q));
            bool disc;
            double nx = p.getNextSwitchingPoint(q, disc), want = L;
            for (auto& x : sp) if (x.first > q) { want = x.first; break; }
            c.check(nx == want, "nextSwitch", "next switching point after " + num(q) + " is " + num(nx) + ", expected " + num(want));
        }
        // blended paths have no corners: the tangent is continuous
        if (blend)
            for (auto& x : sp)
            {
                double e = 1e-9 * S;
                V a = p.getTangent(x.first - e), b = p.getTangent(x.first + e);
                c.check((a - b).norm() < 1e-3, "smooth", "corner in the blended path at " + num(x.first) + ": " + str(a.transpose()) + " then " + str(b.transpose()));
            }
    }
    struct Lim { V v, a; };
    Lim limits(Src& s, const Case& w)
    {
        Lim l;
        l.v.resize(w.dim);
        l.a.resize(w.dim);
        for (int i = 0; i < w.dim; i++) { l.v(i) = w.scale * s.uniform(0.2, 3); l.a(i) = w.scale * s.uniform(0.2, 5); }
        return l;
    }
    double trapezoid(double d, double v, double a) { return d >= v * v / a ? d / v + v / a : 2 * sqrt(d / a); }
    bool persists(const VirtualRobot::Path& p, const Lim& l, double h, double dt)
    {
        VirtualRobot::TimeOptimalTrajectory t(p, l.v, l.a, dt);
        if (!t.isValid()) return false;
        double T = t.getDuration();
        int n = (int)(T / h) + 1;
        for (int i = 1; i <= n; i++)
        {
            double a = T * (i - 1) / n, b = T * i / n;
            V d = (t.getVelocity(b) - t.getVelocity(a)).cwiseAbs() / (b - a);
            for (int k = 0; k < d.size(); k++) if (d(k) > l.a(k) * 1.3 + 2 * dt * l.a(k) / h) return true;
        }
        return false;
    }
    void constraints(Src& s, pbt::Ctx& c)
    {
        Case w = waypoints(s, 5);
        Lim l = limits(s, w);
        double dt = 1e-3;
        c.describe(w.txt() + " vmax " + str(l.v.transpose()) + " amax " + str(l.a.transpose()));
        VirtualRobot::Path p(lst(w.w), w.dev);
        VirtualRobot::TimeOptimalTrajectory t(p, l.v, l.a, dt);
        c.nontrivial(t.isValid() && w.w.size() > 2);
        c.label(t.isValid() ? "valid" : "no solution reported");
        if (!t.isValid()) return;
        double T = t.getDuration(), L = p.getLength(), S = w.scale;
        c.check(T > 0 && std::isfinite(T), "duration", "duration " + num(T));
        c.check((t.getPosition(0) - w.w.front()).norm() < 1e-3 * S, "trajStart", "starts at " + str(t.getPosition(0).transpose()));
        c.check((t.getPosition(T) - w.w.back()).norm() < 1e-3 * S, "trajEnd", "ends at " + str(t.getPosition(T).transpose()) + " at " + num(T));
        c.check(t.getVelocity(0).norm() < 0.02 * S, "trajStartVel", "starts with velocity " + str(t.getVelocity(0).transpose()));
        c.check(t.getVelocity(T).norm() < 0.02 * S, "trajEndVel", "ends with velocity " + str(t.getVelocity(T).transpose()));
        double lower = 0;
        V dq = w.w.back() - w.w.front();
        for (int i = 0; i < w.dim; i++) lower = std::max(lower, trapezoid(fabs(dq(i)), l.v(i), l.a(i)));
        c.check(T >= lower * 0.99 - 2 * dt, "tooFast", "duration " + num(T) + " but a single joint needs " + num(lower));
        // conservative upper bound: stop at every segment of the path between the blends is not optimal
        int n = 300;
        double h = T / n;
        V px, vx;
        for (int i = 0; i <= n; i++)
        {
            double q = std::min(T, h * i);
            V x = t.getPosition(q), v = t.getVelocity(q);
            c.check(x.allFinite() && v.allFinite(), "trajFinite", "position or velocity at " + num(q));
            double d = distToPolyline(w.w, x);
            c.check(d <= w.dev + 1e-6 * S, "trajDeviation", "position at " + num(q) + " is " + num(d) + " from the waypoints' polyline");
            for (int k = 0; k < w.dim; k++) c.check(fabs(v(k)) <= l.v(k) * 1.01 + 2 * l.a(k) * dt, "velocity", "velocity " + num(v(k)) + " of joint " + std::to_string(k) + " at " + num(q) + " exceeds " + num(l.v(k)));
            if (i)
            {
                // mean velocity and acceleration of the interval
                for (int k = 0; k < w.dim; k++)
                {
                    double mv = fabs(x(k) - px(k)) / h, ma = fabs(v(k) - vx(k)) / h;
                    c.check(mv <= l.v(k) * 1.01 + 2 * l.a(k) * dt, "meanVelocity", "mean velocity " + num(mv) + " of joint " + std::to_string(k) + " before " + num(q) + " exceeds " + num(l.v(k)));
                    // limits hold up to the accuracy of the integration: an excess has to persist with smaller steps
                    if (ma > l.a(k) * 1.3 + 2 * dt * l.a(k) / h && persists(p, l, h, 2e-4) && persists(p, l, h, 4e-5))
                        c.fail("acceleration", "mean acceleration " + num(ma) + " of joint " + std::to_string(k) + " before " + num(q) + " exceeds " + num(l.a(k)));
                    // the mean velocity lies within what velocity and acceleration allow
                    double dev = fabs((x(k) - px(k)) - 0.5 * h * (v(k) + vx(k)));
                    c.check(dev <= 0.5 * h * h * l.a(k) * 1.5 + 1e-5 * S, "consistent", "position change and velocity of joint " + std::to_string(k) + " differ by " + num(dev) + " at " + num(q));
                }
            }
            px = x;
            vx = v;
        }
    }
    // straight paths have a known optimum
    void straight(Src& s, pbt::Ctx& c)
    {
        Case w = waypoints(s, s.chance(0.7) ? 2 : 4, true);
        Lim l = limits(s, w);
        double dt = 1e-3;
        c.describe(w.txt() + " vmax " + str(l.v.transpose()) + " amax " + str(l.a.transpose()));
        VirtualRobot::TimeOptimalTrajectory t(VirtualRobot::Path(lst(w.w), s.chance(0.5) ? 0 : w.dev), l.v, l.a, dt);
        c.nontrivial(true);
        c.check(t.isValid(), "straightValid", "no trajectory for a straight path");
        V d = w.w.back() - w.w.front();
        double L = d.norm(), v = 1e300, a = 1e300;
        for (int i = 0; i < w.dim; i++) if (fabs(d(i)) > 1e-12 * L) { v = std::min(v, l.v(i) * L / fabs(d(i))); a = std::min(a, l.a(i) * L / fabs(d(i))); }
        double opt = trapezoid(L, v, a), T = t.getDuration();
        c.near(T, opt, 0.01 * opt + 5 * dt, "optimal", "duration of a straight motion");
        for (int i = 0; i <= 50; i++)
        {
            double q = T * i / 50;
            V x = t.getPosition(q);
            // position of the optimal profile
            double ta = std::min(v / a, sqrt(L / a)), vp = std::min(v, sqrt(L * a)), z;
            if (q < ta) z = 0.5 * a * q * q;
            else if (q < opt - ta) z = 0.5 * a * ta * ta + vp * (q - ta);
            else { double r = std::max(0.0, opt - q); z = L - 0.5 * a * r * r; }
            V e = w.w.front() + d * (z / L);
            c.check((x - e).norm() <= 0.02 * L + 10 * dt * vp, "profile", "position at " + num(q) + " of " + num(T) + ": " + str(x.transpose()) + " expected " + str(e.transpose()));
        }
    }
    // queries do not depend on their order, copies answer like the original
    void queries(Src& s, pbt::Ctx& c)
    {
        Case w = waypoints(s, 4);
        Lim l = limits(s, w);
        c.describe(w.txt());
        std::unique_ptr<VirtualRobot::TimeOptimalTrajectory> a(new VirtualRobot::TimeOptimalTrajectory(VirtualRobot::Path(lst(w.w), w.dev), l.v, l.a, 2e-3));
        if (!a->isValid()) return;
        VirtualRobot::TimeOptimalTrajectory fresh(VirtualRobot::Path(lst(w.w), w.dev), l.v, l.a, 2e-3);
        c.near(fresh.getDuration(), a->getDuration(), 0, "deterministic", "duration of the same trajectory");
        double T = a->getDuration();
        c.nontrivial(true);
        std::vector<double> ts;
        for (int i = 0; i < 12; i++) ts.push_back(T * s.real(0, 1));
        std::vector<V> pos, vel;
        std::vector<double> so = ts;
        std::sort(so.begin(), so.end());
        std::map<double, std::pair<V, V>> ref;
        for (double q : so) { V x = fresh.getPosition(q), v = fresh.getVelocity(q); ref[q] = std::make_pair(x, v); }
        for (size_t i = 0; i < ts.size(); i++)
        {
            V x = a->getPosition(ts[i]), v = a->getVelocity(ts[i]);
            c.check((x - ref[ts[i]].first).norm() < 1e-9 * w.scale, "order", "position at " + num(ts[i]) + " depends on earlier queries: " + str(x.transpose()) + " or " + str(ref[ts[i]].first.transpose()));
            c.check((v - ref[ts[i]].second).norm() < 1e-9 * w.scale, "orderVel", "velocity at " + num(ts[i]) + " depends on earlier queries");
        }
        if (s.chance(0.5))
        {
            VirtualRobot::TimeOptimalTrajectory b(*a);
            a.reset();
            c.label("copied");
            for (double q : ts) c.check((b.getPosition(q) - ref[q].first).norm() < 1e-9 * w.scale, "copy", "position of a copy at " + num(q));
        }
    }
}
int main(int argc, char** argv)
{
    pbt::Suite S;
    S.property = "P08";
    S.rule = "path, constraints: at least three waypoints (and a trajectory is found); straight, queries: all";
    S.add("path", 15000, 60000, path);
    S.add("constraints", 12000, 20000, constraints);
    S.add("straight", 6000, 20000, straight);
    S.add("queries", 4000, 20000, queries);
    return pbt::run(argc, argv, S);
}
