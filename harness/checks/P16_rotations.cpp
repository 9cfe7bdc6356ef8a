// libs: VirtualRobot
// P16: rotation representations and angle arithmetic
#include "common/robotgen.h"
#include <VirtualRobot/MathTools.h>
using namespace VirtualRobot;
using namespace gen;
namespace MT = VirtualRobot::MathTools;
typedef MT::Quaternion Q;
typedef Eigen::Quaterniond Qd;

namespace
{
    const double PI = 3.14159265358979323846;
    Qd dq(const Q& q) { return Qd(q.w, q.x, q.y, q.z); }
    Q fq(const Qd& d) { Q q; q.w = (float)d.w(); q.x = (float)d.x(); q.y = (float)d.y(); q.z = (float)d.z(); return q; }
    Q mkq(double w, double x, double y, double z) { return fq(Qd(w, x, y, z)); }
    M3 R(const Q& q) { return dq(q).normalized().toRotationMatrix(); }
    double len(const Q& q) { return dq(q).norm(); }
    M3 rx(double a) { return Eigen::AngleAxisd(a, V3::UnitX()).toRotationMatrix(); }
    M3 ry(double a) { return Eigen::AngleAxisd(a, V3::UnitY()).toRotationMatrix(); }
    M3 rz(double a) { return Eigen::AngleAxisd(a, V3::UnitZ()).toRotationMatrix(); }
    // difference of rotations as the largest difference of matrix entries
    double dm(const M3& a, const M3& b) { return (a - b).cwiseAbs().maxCoeff(); }
    double ang(Src& s)
    {
        if (s.chance(0.4))
        {
            double base = s.pick(std::vector<double>{0, PI / 2, -PI / 2, PI, -PI, 2 * PI, -2 * PI, PI / 4, 3 * PI});
            double e = s.pick(std::vector<double>{0, 1e-7, -1e-7, 1e-6, 1e-5, -1e-5, 1e-4, -1e-4, 1e-3, -1e-3, 1e-2, -1e-2});
            return fl(base + e);
        }
        return fl(s.real(-2 * PI, 2 * PI));
    }
    // a rotation, often a special one (axis aligned, half turns, nearly so)
    M3 anyRot(Src& s)
    {
        switch (s.weighted({3, 3, 2, 1}))
        {
            case 0: return rot(s);
            case 1: { double a = ang(s), b = ang(s), g = ang(s); return rz(a) * ry(b) * rx(g); }
            case 2: { V3 u = unit(s); return Eigen::AngleAxisd(ang(s), u).toRotationMatrix(); }
            default: { V3 u = V3::Zero(); u((int)s.draw(3)) = s.chance(0.5) ? 1 : -1; return Eigen::AngleAxisd(ang(s), u).toRotationMatrix(); }
        }
    }
    Q anyQuat(Src& s)
    {
        if (s.chance(0.2))
        {
            double v[4];
            for (double& x : v) x = s.pick(std::vector<double>{0, 1, -1, 1e-4, -1e-4});
            Qd q(v[0], v[1], v[2], v[3]);
            if (q.norm() < 0.5) q = Qd(1, 0, 0, 0);
            return fq(q.normalized());
        }
        Qd q(anyRot(s));
        if (s.chance(0.5)) q.coeffs() *= -1;
        return fq(q.normalized());
    }
    std::string str(const Q& q) { return num(q.w) + "," + num(q.x) + "," + num(q.y) + "," + num(q.z); }
    std::string str(const V3& v) { return num(v(0)) + "," + num(v(1)) + "," + num(v(2)); }

    void rpy(Src& s, pbt::Ctx& c)
    {
        double r = ang(s), p = ang(s), y = ang(s);
        V3 t = vec(s, 1000);
        M3 want = rz(y) * ry(p) * rx(r);
        c.describe("rpy " + num(r) + " " + num(p) + " " + num(y));
        float x[6] = {(float)t(0), (float)t(1), (float)t(2), (float)r, (float)p, (float)y};
        Eigen::Matrix4f m[7];
        for (auto& k : m) k.setConstant(7);
        Eigen::Vector3f tf = f3(t), af((float)r, (float)p, (float)y);
        MT::rpy2eigen4f(x[3], x[4], x[5], m[0]);
        m[1] = MT::rpy2eigen4f(x[3], x[4], x[5]);
        MT::posrpy2eigen4f(x, m[2]);
        MT::posrpy2eigen4f(tf, af, m[3]);
        MT::posrpy2eigen4f(x[0], x[1], x[2], x[3], x[4], x[5], m[4]);
        m[5] = MT::posrpy2eigen4f(tf, af);
        m[6] = MT::posrpy2eigen4f(x[0], x[1], x[2], x[3], x[4], x[5]);
        for (int k = 0; k < 7; k++)
        {
            std::string w = "variant " + std::to_string(k);
            c.check(dm(rotOf(d4(m[k])), want) < 2e-6, "rpy-matrix", w + ": rotation differs by " + num(dm(rotOf(d4(m[k])), want)));
            c.check((trans(d4(m[k])) - (k < 2 ? V3(0, 0, 0) : t)).norm() == 0, "rpy-translation", w + ": translation " + str(trans(d4(m[k]))));
            c.check(m[k](3, 0) == 0 && m[k](3, 1) == 0 && m[k](3, 2) == 0 && m[k](3, 3) == 1, "rpy-last-row", w);
        }
        c.check(dm(MT::rpy2eigen3f(x[3], x[4], x[5]).cast<double>(), want) < 2e-6, "rpy-matrix3", "rpy2eigen3f");
        // and back, for any rotation matrix (with rounding errors)
        M3 any = s.chance(0.5) ? want : anyRot(s);
        Eigen::Matrix4f mf = f4(mk(any, t));
        float o[6];
        MT::eigen4f2rpy(mf, o);
        for (float k : o) c.check(std::isfinite(k), "rpy-finite", "not finite");
        double e = dm(rz(o[5]) * ry(o[4]) * rx(o[3]), rotOf(d4(mf)));
        // the pitch is known to about the root of the rounding error only where it is near 90 degrees
        c.checkf(e < 1e-5, "rpy-back", [&](std::ostream& q) { q << "angles " << o[3] << " " << o[4] << " " << o[5] << " give another rotation (entries differ by " << e << ")"; });
        c.check(std::fabs(o[3]) < 3.14160 && std::fabs(o[4]) < 1.57081 && std::fabs(o[5]) < 3.14160, "rpy-range", "angles out of range");
        c.check(o[0] == mf(0, 3) && o[1] == mf(1, 3) && o[2] == mf(2, 3), "rpy-position", "position");
        Eigen::Vector3f v1, v2 = MT::eigen4f2rpy(mf), v3 = MT::eigen3f2rpy(Eigen::Matrix3f(mf.block<3, 3>(0, 0)));
        MT::eigen4f2rpy(mf, v1);
        Eigen::Matrix<float, 6, 1> v6 = MT::eigen4f2posrpy(mf);
        for (int i = 0; i < 3; i++) c.check(v1(i) == o[3 + i] && v2(i) == o[3 + i] && v3(i) == o[3 + i] && v6(3 + i) == o[3 + i] && v6(i) == o[i], "rpy-variants", "variants of eigen4f2rpy differ");
        Eigen::Vector3f tr;
        MT::getTranslation(mf, tr);
        c.check(tr == MT::getTranslation(mf) && tr == Eigen::Vector3f(mf.block<3, 1>(0, 3)), "translation", "getTranslation");
        bool gimbal = std::fabs(std::fabs(any(2, 0)) - 1) < 1e-4;
        if (gimbal) c.label("near gimbal lock");
        c.nontrivial(std::fabs(any(2, 0)) > 0.01);
    }

    void quat(Src& s, pbt::Ctx& c)
    {
        Q q = anyQuat(s), p = anyQuat(s);
        c.describe("q=" + str(q) + " p=" + str(p));
        M3 rq = R(q), rp = R(p);
        // conversions
        V3 t = vec(s, 1000);
        Eigen::Matrix4f m[5];
        for (auto& k : m) k.setConstant(5);
        m[0] = MT::quat2eigen4f(q);
        MT::quat2eigen4f(q, m[1]);
        m[2] = MT::quat2eigen4f(q.x, q.y, q.z, q.w);
        MT::quat2eigen4f(q.x, q.y, q.z, q.w, m[3]);
        m[4] = MT::posquat2eigen4f((float)t(0), (float)t(1), (float)t(2), q.x, q.y, q.z, q.w);
        for (int k = 0; k < 5; k++) samePose(c, m[k], mk(rq, k == 4 ? t : V3(0, 0, 0)), 1e-6, 3e-6, "quat-matrix", "quaternion to matrix, variant " + std::to_string(k));
        c.check(dm(MT::quat2eigen3f(q.x, q.y, q.z, q.w).cast<double>(), rq) < 2e-6, "quat-matrix3", "quat2eigen3f");
        M3 any = anyRot(s);
        Eigen::Matrix4f mf = f4(mk(any, t));
        Q b = MT::eigen4f2quat(mf), b2;
        MT::eigen4f2quat(mf, b2);
        c.check(dm(R(b), any) < 3e-6 && std::fabs(len(b) - 1) < 3e-6, "matrix-quat", "eigen4f2quat gives " + str(b));
        c.check(b.x == b2.x && b.y == b2.y && b.z == b2.z && b.w == b2.w, "matrix-quat2", "variants differ");
        // algebra
        c.check(dm(R(MT::multiplyQuaternions(q, p)), rq * rp) < 4e-6, "multiply", "product is " + str(MT::multiplyQuaternions(q, p)));
        c.check(dm(R(MT::getInverse(q)), rq.transpose()) < 4e-6, "inverse", "inverse is " + str(MT::getInverse(q)));
        Q conj = MT::getConjugated(q);
        c.check(conj.w == q.w && conj.x == -q.x && conj.y == -q.y && conj.z == -q.z, "conjugated", str(conj));
        double sc = s.real(0.1, 10);
        Q big = fq(Qd(dq(q).coeffs() * sc));
        Qd one = dq(MT::multiplyQuaternions(big, MT::getInverse(big)));
        c.check((one.coeffs() - Eigen::Vector4d(0, 0, 0, 1)).norm() < 4e-6, "inverse-scaled", "q * inverse(q) is not the identity for a quaternion of length " + num(sc));
        c.check(dm(R(MT::getDelta(q, p)) * rq, rp) < 6e-6, "delta", "delta is " + str(MT::getDelta(q, p)));
        c.near(MT::getDot(q, p), dq(q).coeffs().dot(dq(p).coeffs()), 1e-6, "dot", "dot product");
        double a = 2 * std::atan2(dq(q).vec().norm(), std::fabs(q.w));
        c.near(MT::getAngle(q), a, 1e-3, "angle", "rotation angle of a quaternion");
        if (a > 0.01) c.near(MT::getAngle(q), a, 2e-5, "angle", "rotation angle of a quaternion");
        // interpolation
        double al = s.chance(0.3) ? (double)s.draw(2) : fl(s.uniform(0, 1));
        Qd e = dq(q).normalized().slerp(al, dq(p).normalized());
        double d = std::fabs(dq(q).normalized().coeffs().dot(dq(p).normalized().coeffs()));
        if (d > 1e-3 || al == 0 || al == 1)         // otherwise both ways around have nearly the same length
        {
            Q g = MT::slerp(q, p, (float)al);
            c.check(dm(R(g), e.toRotationMatrix()) < 3e-5, "slerp", "interpolated at " + num(al) + ": " + str(g) + " instead of " + str(fq(e)));
            c.label("slerp");
        }
        double bad = s.chance(0.5) ? 1.001 + s.uniform(0, 3) : -0.001 - s.uniform(0, 3);
        bool thrown = false;
        try { MT::slerp(q, p, (float)bad); } catch (VirtualRobotException&) { thrown = true; }
        c.check(thrown, "slerp-range", "alpha " + num(bad) + " accepted");
        // mean
        std::vector<Q> v;
        int n = (int)s.integer(1, 6);
        V3 u = unit(s);
        double spread = s.uniform(0, 1.2);
        Qd sum(0, 0, 0, 0);
        for (int i = 0; i < n; i++)
        {
            Qd k = dq(q).normalized() * Qd(Eigen::AngleAxisd(spread * s.uniform(-0.5, 0.5), s.chance(0.5) ? u : unit(s)));
            if (k.coeffs().dot(dq(q).coeffs()) < 0) k.coeffs() *= -1;
            sum.coeffs() += k.coeffs();
            if (s.chance(0.4)) k.coeffs() *= -1;            // the same rotation
            v.push_back(fq(k));
        }
        Q mean = MT::getMean(v);
        c.check(std::fabs(len(mean) - 1) < 1e-5 && dm(R(mean), sum.normalized().toRotationMatrix()) < 1e-5, "mean", "mean of " + std::to_string(n) + " quaternions is " + str(mean));
        Q none = MT::getMean(std::vector<Q>());
        c.check(none.w == 1 && none.x == 0 && none.y == 0 && none.z == 0, "mean-empty", str(none));
        c.nontrivial(a > 0.01);
    }

    void hopf(Src& s, pbt::Ctx& c)
    {
        Q q = anyQuat(s);
        c.describe("q=" + str(q));
        Eigen::Vector3f h = MT::quat2hopf(q);
        c.check(h.allFinite(), "hopf-finite", "not finite");
        for (int i = 0; i < 3; i++) c.check(h(i) >= -1e-6 && h(i) <= (i < 2 ? 2 * PI : PI / 2) + 2e-6, "hopf-range", "coordinate " + std::to_string(i) + " is " + num(h(i)));
        Q b = MT::hopf2quat(h);
        c.check(std::fabs(len(b) - 1) < 1e-5, "hopf-unit", "length " + num(len(b)));
        // asin is inaccurate near 90 degrees
        c.check(dm(R(b), R(q)) < 3e-3, "hopf", "through Hopf coordinates " + str(d3(h)) + " the quaternion becomes " + str(b));
        double p = std::sqrt((double)q.x * q.x + (double)q.y * q.y);
        if (p < 0.99) c.check(dm(R(b), R(q)) < 1e-5, "hopf", "through Hopf coordinates " + str(d3(h)) + " the quaternion becomes " + str(b));
        // from coordinates
        Eigen::Vector3f k((float)s.real(0, 2 * PI), (float)s.real(0, 2 * PI), (float)s.uniform(0.01, PI / 2 - 0.01));
        Q g = MT::hopf2quat(k);
        Eigen::Vector3f k2 = MT::quat2hopf(g);
        Q g2 = MT::hopf2quat(k2);
        c.check(dm(R(g2), R(g)) < 1e-4, "hopf-coordinates", "coordinates " + str(d3(k)) + " become " + str(d3(k2)));
        for (int i = 0; i < 3; i++)
        {
            double d = std::fabs((double)k(i) - k2(i));
            if (i < 2) d = std::min(d, std::fabs(d - 2 * PI));
            c.check(d < 2e-4 / std::min(std::sin((double)k(2)), std::cos((double)k(2))), "hopf-unique", "coordinates " + str(d3(k)) + " become " + str(d3(k2)));
        }
        c.nontrivial(std::fabs(q.w) < 0.9999);
    }

    void axis(Src& s, pbt::Ctx& c)
    {
        V3 u = d3(f3(unit(s)));
        double a = ang(s);
        c.describe("axis " + str(u) + " angle " + num(a));
        M3 want = Eigen::AngleAxisd(a, u.normalized()).toRotationMatrix();
        samePose(c, MT::axisangle2eigen4f(f3(u), (float)a), mk(want, V3(0, 0, 0)), 1e-9, 3e-6, "axis-matrix", "axisangle2eigen4f");
        c.check(dm(MT::axisangle2eigen3f(f3(u), (float)a).cast<double>(), want) < 2e-6, "axis-matrix3", "axisangle2eigen3f");
        Eigen::Matrix4f m = Eigen::Matrix4f::Identity();
        MT::axisangle2eigen4f(f3(u), (float)a, m);
        c.check(dm(rotOf(d4(m)), want) < 2e-6, "axis-store", "axisangle2eigen4f with result");
        c.check(dm(R(MT::axisangle2quat(f3(u), (float)a)), want) < 3e-6, "axis-quat", "axisangle2quat");
        M3 any = anyRot(s);
        V3 t = vec(s, 500);
        Eigen::Matrix4f mf = f4(mk(any, t));
        Eigen::Vector3f ax;
        float an = -9;
        MT::eigen4f2axisangle(mf, ax, an);
        c.check(an >= 0 && an <= PI + 1e-5 && std::fabs(ax.norm() - 1) < 1e-5, "axis-range", "axis " + str(d3(ax)) + " angle " + num(an));
        c.check(dm(Eigen::AngleAxisd(an, d3(ax).normalized()).toRotationMatrix(), any) < 2e-5, "axis-back", "axis " + str(d3(ax)) + " angle " + num(an) + " is another rotation");
        // differences of poses
        M3 other = s.chance(0.3) ? any * Eigen::AngleAxisd(s.pick(std::vector<double>{0, 1e-4, 1e-3, PI, PI - 1e-4}), unit(s)).toRotationMatrix() : anyRot(s);
        V3 t2 = s.chance(0.3) ? t : vec(s, 500);
        Eigen::Matrix4f mg = f4(mk(other, t2));
        double ra = rotAngle(rotOf(d4(mf)), rotOf(d4(mg))), pd = (trans(d4(mf)) - trans(d4(mg))).norm();
        float gp = -1, gr = -1, hp = -1, hr = -1;
        MT::getDelta(mf, mg, gp, gr);
        MT::getPoseDiff(mf, mg, hp, hr);
        double tr = ra < 0.01 ? 2e-3 : 1e-4;        // angles near 0 are given to the root of the rounding error
        double ta = (PI - ra) < 0.01 ? 2e-3 : tr;
        c.near(gp, pd, 1e-3, "delta-position", "getDelta");
        c.near(gr, ra, ta, "delta-angle", "getDelta");
        c.near(hp, pd, 1e-3, "diff-position", "getPoseDiff");
        c.near(hr, ra, ta, "diff-angle", "getPoseDiff");
        double inf = s.real(0, 10), got = MT::getCartesianPoseDiff(mf, mg, (float)inf);
        double deg = pd + ra * 180 / PI * inf, rad = pd + ra * inf, tol = 2e-3 + ta * inf * 60;
        if (std::fabs(got - deg) > tol)
        {
            // documented as millimetres and degrees
            if (std::fabs(got - rad) < 2e-3 + ta * inf) c.known("KF01");
            else c.fail("pose-metric", "getCartesianPoseDiff " + num(got) + " instead of " + num(deg));
        }
        c.nontrivial(ra > 0.01 && pd > 0.01);
    }

    void vectors(Src& s, pbt::Ctx& c)
    {
        V3 a = V3::Zero(), b;
        while (a.norm() < 1e-3) a = s.chance(0.3) ? V3(V3::Unit((int)s.draw(3)) * s.real(-10, 10)) : vec(s, 10);
        a = d3(f3(a));
        int kind = s.weighted({4, 2, 3, 2});
        if (kind == 0) { b = V3::Zero(); while (b.norm() < 1e-3) b = vec(s, 10); }
        else
        {
            double k = s.real(0.05, 20);
            b = a * (kind == 1 ? k : -k);
            if (kind == 3) b += vec(s, 1) * b.norm() * s.pick(std::vector<double>{1e-7, 1e-6, 1e-5, 1e-4, 1e-3});
        }
        b = d3(f3(b));
        c.describe(str(a) + " to " + str(b));
        Q q = MT::getRotation(f3(a), f3(b));
        c.check(std::fabs(len(q) - 1) < 1e-4, "from-to-unit", "length " + num(len(q)));
        V3 g = R(q) * a.normalized();
        c.check((g - b.normalized()).norm() < 1e-5, "from-to", "rotated vector misses the goal by " + num((g - b.normalized()).norm()));
        double an = std::atan2(a.cross(b).norm(), a.dot(b));
        // the shortest one
        double qa = 2 * std::atan2(dq(q).vec().norm(), std::fabs(q.w));
        c.near(qa, an, 1e-3, "from-to-angle", "angle of the rotation");
        c.near(MT::getAngle(f3(a), f3(b)), an, an < 0.05 || an > 3.09 ? 2e-3 : 3e-5, "vector-angle", "angle of two vectors");
        // spherical coordinates
        auto sc = MT::toSphericalCoords(f3(a));
        c.check(std::isfinite(sc.phi) && std::isfinite(sc.theta) && sc.theta >= 0 && sc.theta <= PI + 1e-6, "spherical-range", "theta " + num(sc.theta));
        c.near(sc.r, a.norm(), 1e-5 * a.norm(), "spherical-radius", "radius");
        V3 back = d3(MT::toPosition(sc));
        c.check((back - a).norm() < 1e-3 * a.norm(), "spherical", str(a) + " becomes " + str(back));
        V3 ref(sc.r * std::sin(sc.theta) * std::cos(sc.phi), sc.r * std::sin(sc.theta) * std::sin(sc.phi), sc.r * std::cos(sc.theta));
        c.check((back - ref).norm() < 1e-5 * a.norm(), "spherical-position", "toPosition");
        auto z = MT::toSphericalCoords(Eigen::Vector3f::Zero());
        c.check(z.r == 0 && std::isfinite(z.phi) && std::isfinite(z.theta), "spherical-zero", "zero");
        c.label(kind == 0 ? "general" : kind == 1 ? "parallel" : kind == 2 ? "opposite" : "nearly opposite");
        c.nontrivial(an > 1e-3);
    }

    // difference modulo 2 pi
    double mod(double d) { return std::fabs(std::remainder(d, 2 * PI)); }
    void angles(Src& s, pbt::Ctx& c)
    {
        double a = ang(s) * s.pick(std::vector<double>{1, 1, 10, 100}), b = ang(s), f = s.real(0, 1);
        a = fl(a);
        double tol = 1e-6 * (10 + std::fabs(a) + std::fabs(b));
        c.describe(num(a) + " " + num(b) + " " + num(f));
        double v = MT::angleMod2PI((float)a);
        c.check(v >= 0 && v <= 2 * PI + 1e-6, "mod-2pi-range", "angleMod2PI " + num(v));
        c.check(mod(v - a) < tol, "mod-2pi", "angleMod2PI " + num(v));
        v = MT::angleModPI((float)a);
        c.check(std::fabs(v) <= PI + tol, "mod-pi-range", "angleModPI " + num(v));
        c.check(mod(v - a) < tol, "mod-pi", "angleModPI " + num(v));
        v = MT::angleModX((float)a, (float)b);
        c.check(std::fabs(v - b) <= PI + tol, "mod-x-range", "angleModX " + num(v));
        c.check(mod(v - a) < tol, "mod-x", "angleModX " + num(v));
        double d = MT::AngleDelta((float)a, (float)b);
        c.check(std::fabs(d) <= PI + tol && mod(a + d - b) < tol, "angle-delta", "AngleDelta " + num(d));
        double l = MT::AngleLerp((float)a, (float)b, (float)f);
        double sd = std::remainder(b - a, 2 * PI);
        // far away the period itself is rounded
        if (std::fabs(a) < 30 && std::fabs(std::fabs(sd) - PI) > 0.01) c.check(mod(l - (a + f * sd)) < 10 * tol, "angle-lerp", "AngleLerp " + num(l));
        double lo = fl(s.real(-50, 50)), hi = fl(lo + s.uniform(0.01, 40)), x = fl(s.real(-200, 200));
        double m = MT::fmod((float)x, (float)lo, (float)hi), k = (m - x) / (hi - lo);
        c.check(m >= lo - 1e-4 && m <= hi + 1e-4 && std::fabs(k - std::round(k)) < 1e-3 / (hi - lo), "fmod", "fmod(" + num(x) + "," + num(lo) + "," + num(hi) + ") = " + num(m));
        c.near(MT::Lerp((float)lo, (float)hi, (float)f), lo + (hi - lo) * f, 1e-4, "lerp", "Lerp");
        c.near(MT::ILerp((float)lo, (float)hi, (float)x), (x - lo) / (hi - lo), 1e-3 * (1 + std::fabs((x - lo) / (hi - lo))), "ilerp", "ILerp");
        c.near(MT::rad2deg((float)a), a * 180 / PI, 1e-4 * (1 + std::fabs(a)), "rad2deg", "rad2deg");
        c.near(MT::deg2rad((float)x), x * PI / 180, 1e-6 * (1 + std::fabs(x)), "deg2rad", "deg2rad");
        int base = (int)s.integer(-6, 6), e = (int)s.draw(8), want = 1;
        for (int i = 0; i < e; i++) want *= base;
        c.check(MT::pow_int(base, e) == want, "power", "pow_int");
        c.nontrivial(std::fabs(a) > PI);
    }
}
int main(int argc, char** argv)
{
    pbt::Suite S;
    S.property = "P16";
    S.rule = "rpy: pitch not 0; quaternion: angle above 0.01; hopf: not the identity; axis: poses differ in position and angle; vectors: not parallel; angles: outside of [-pi,pi]";
    S.init = [] { initVR("P16"); };
    S.add("rpy", 600000, 3000000, rpy);
    S.add("quaternion", 400000, 3000000, quat);
    S.add("hopf", 400000, 3000000, hopf);
    S.add("axis", 400000, 3000000, axis);
    S.add("vectors", 400000, 3000000, vectors);
    S.add("angles", 400000, 3000000, angles);
    return pbt::run(argc, argv, S);
}
